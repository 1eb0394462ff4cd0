package main

import (
	"go/types"
	"reflect"
)

// rval stands for a reflect.Value: a type and a value as the interpreter holds it. The zero reflect.Value stays a structv.
type rval struct {
	t types.Type
	v any
}

// rtypev is the value behind a *reflect.rtype.
type rtypev struct{ t types.Type }

var basicKinds = map[types.BasicKind]reflect.Kind{
	types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16, types.Int32: reflect.Int32, types.Int64: reflect.Int64,
	types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr,
	types.Float32: reflect.Float32, types.Float64: reflect.Float64, types.Complex64: reflect.Complex64, types.Complex128: reflect.Complex128,
	types.String: reflect.String, types.UnsafePointer: reflect.UnsafePointer,
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return basicKinds[u.Kind()]
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

// reflection names itself in the panics of the real package; here a wrong use is a panic with a text.
func (w *W) reflectPanic(what string) {
	panic(targetPanic{v: toIface(w.newErr("reflect: " + what))})
}

func rv(w *W, v any) rval {
	r, ok := v.(rval)
	if !ok {
		w.reflectPanic("call on zero Value")
	}
	return r
}

func (w *W) rtype(t types.Type) any {
	return iface{w.canon(types.NewPointer(w.eng.typ("reflect", "rtype"))), rtypev{t}}
}

func rvLen(w *W, r rval) int {
	switch v := r.v.(type) {
	case []any:
		return len(v)
	case arrayv:
		return len(v)
	case *hmap:
		if v == nil {
			return 0
		}
		return v.n
	}
	if kindOf(r.t) == reflect.String {
		return strLen(r.v)
	}
	w.reflectPanic("Len of " + r.t.String())
	return 0
}

func init() {
	m := func(name string, f func(w *W, r rval, a []any) any) {
		models["(reflect.Value)."+name] = func(w *W, _ *frame, a []any) any { return f(w, rv(w, a[0]), a[1:]) }
	}
	models["reflect.ValueOf"] = func(w *W, _ *frame, a []any) any {
		i := toIface(a[0])
		if i.t == nil {
			return zero(w.eng.typ("reflect", "Value"))
		}
		return rval{i.t, i.v}
	}
	models["reflect.TypeOf"] = func(w *W, _ *frame, a []any) any {
		i := toIface(a[0])
		if i.t == nil {
			return iface{}
		}
		return w.rtype(i.t)
	}
	models["reflect.Indirect"] = func(w *W, f *frame, a []any) any {
		if r := rv(w, a[0]); kindOf(r.t) != reflect.Pointer {
			return r
		}
		return models["(reflect.Value).Elem"](w, f, a)
	}
	models["(reflect.Value).Kind"] = func(w *W, _ *frame, a []any) any {
		if r, ok := a[0].(rval); ok {
			return uint64(kindOf(r.t))
		}
		return uint64(0)
	}
	models["(reflect.Value).IsValid"] = func(w *W, _ *frame, a []any) any { _, ok := a[0].(rval); return ok }
	m("IsNil", func(w *W, r rval, _ []any) any {
		switch v := r.v.(type) {
		case *any:
			return v == nil
		case []any:
			return v == nil
		case *hmap:
			return v == nil
		case iface:
			return v.t == nil
		case *closure:
			return v == nil
		case *chanv:
			return v == nil
		}
		w.reflectPanic("IsNil of " + r.t.String())
		return nil
	})
	m("Elem", func(w *W, r rval, _ []any) any {
		switch u := r.t.Underlying().(type) {
		case *types.Interface:
			if i := toIface(r.v); i.t != nil {
				return rval{i.t, i.v}
			}
			return zero(w.eng.typ("reflect", "Value"))
		case *types.Pointer:
			p, ok := r.v.(*any)
			if !ok {
				unsupported("reflection on a pointer of this kind")
			}
			if p == nil {
				return zero(w.eng.typ("reflect", "Value"))
			}
			return rval{w.canon(u.Elem()), copyVal(*p)}
		}
		w.reflectPanic("Elem of " + r.t.String())
		return nil
	})
	m("Type", func(w *W, r rval, _ []any) any { return w.rtype(r.t) })
	m("Len", func(w *W, r rval, _ []any) any { return u64(rvLen(w, r)) })
	m("Index", func(w *W, r rval, a []any) any {
		i := int(conc(a[0]))
		if i < 0 || i >= rvLen(w, r) {
			w.reflectPanic("index out of range")
		}
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			return rval{w.canon(u.Elem()), copyVal(r.v.([]any)[i])}
		case *types.Array:
			return rval{w.canon(u.Elem()), copyVal(r.v.(arrayv)[i])}
		}
		return rval{w.canon(types.Typ[types.Uint8]), strBytes(r.v)[i]}
	})
	m("NumField", func(w *W, r rval, _ []any) any { return u64(len(r.v.(structv))) })
	m("Field", func(w *W, r rval, a []any) any {
		i := int(conc(a[0]))
		s, ok := r.t.Underlying().(*types.Struct)
		if !ok || i < 0 || i >= s.NumFields() {
			w.reflectPanic("field index out of range")
		}
		return rval{w.canon(s.Field(i).Type()), copyVal(r.v.(structv)[i])}
	})
	m("Interface", func(w *W, r rval, _ []any) any {
		if _, ok := r.t.Underlying().(*types.Interface); ok {
			return toIface(r.v)
		}
		return iface{r.t, copyVal(r.v)}
	})
	m("CanInterface", func(w *W, r rval, _ []any) any { return true })
	m("String", func(w *W, r rval, _ []any) any {
		if kindOf(r.t) != reflect.String {
			return "<" + typeString(r.t) + " Value>"
		}
		return r.v
	})
	m("Bool", func(w *W, r rval, _ []any) any { return r.v })
	m("Int", func(w *W, r rval, _ []any) any {
		b, ok := r.t.Underlying().(*types.Basic)
		v, ok2 := r.v.(uint64)
		if !ok || !ok2 || !isSigned(b) {
			unsupported("reflect Int")
		}
		n := 64 - uint(intWidth(b))
		return uint64(int64(v<<n) >> n)
	})
	m("Uint", func(w *W, r rval, _ []any) any { return r.v })
	m("IsZero", func(w *W, r rval, _ []any) any { return w.deepEqual(r.t, r.v, zero(r.t), map[[2]*any]bool{}) })
	t := func(name string, f func(w *W, t types.Type, a []any) any) {
		models["(*reflect.rtype)."+name] = func(w *W, _ *frame, a []any) any { return f(w, a[0].(rtypev).t, a[1:]) }
	}
	t("String", func(w *W, t types.Type, _ []any) any { return typeString(t) })
	t("Kind", func(w *W, t types.Type, _ []any) any { return uint64(kindOf(t)) })
	t("Name", func(w *W, t types.Type, _ []any) any {
		switch t := types.Unalias(t).(type) {
		case *types.Named:
			return t.Obj().Name()
		case *types.Basic:
			return t.Name()
		}
		return ""
	})
	t("Elem", func(w *W, t types.Type, _ []any) any {
		if e, ok := t.Underlying().(interface{ Elem() types.Type }); ok {
			return w.rtype(w.canon(e.Elem()))
		}
		w.reflectPanic("Elem of " + t.String())
		return nil
	})
	t("NumField", func(w *W, t types.Type, _ []any) any {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			w.reflectPanic("NumField of " + t.String())
		}
		return u64(s.NumFields())
	})
	t("Field", func(w *W, t types.Type, a []any) any {
		s, ok := t.Underlying().(*types.Struct)
		i := int(conc(a[0]))
		if !ok || i < 0 || i >= s.NumFields() {
			w.reflectPanic("Field of " + t.String())
		}
		f := zero(w.eng.typ("reflect", "StructField")).(structv)
		f[0] = s.Field(i).Name()
		if !s.Field(i).Exported() {
			f[1] = s.Field(i).Pkg().Path()
		}
		f[2] = w.rtype(w.canon(s.Field(i).Type()))
		return f
	})
}
