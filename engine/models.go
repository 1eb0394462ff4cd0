package main

import (
	"fmt"
	"go/types"
	"math"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(w *W, caller *frame, a []any) any

type notHandledT struct{}

var notHandled any = notHandledT{}

func stackTrace() string {
	s := string(debug.Stack())
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

func nop(w *W, _ *frame, a []any) any { return nil }

// lookupModel gives the stand-in for a function the interpreter does not execute from source.
func (w *W) lookupModel(fn *ssa.Function) modelFn {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if strings.HasPrefix(name, w.eng.base+"/nd.") {
		if m, ok := ndModels[strings.TrimPrefix(name, w.eng.base+"/nd.")]; ok {
			return m
		}
		return nil
	}
	if m, ok := models[name]; ok {
		if strings.HasPrefix(name, "(*sync.Map).") {
			return func(w *W, fr *frame, a []any) any {
				if w.race != nil {
					w.race.quiet++
					defer func(r *racer) { r.quiet-- }(w.race)
				}
				return m(w, fr, a)
			}
		}
		return m
	}
	if fn.Pkg != nil {
		switch p := fn.Pkg.Pkg.Path(); p {
		case "sync/atomic", "internal/runtime/atomic":
			if fn.Signature.Recv() == nil {
				return atomicModel(fn.Name())
			}
		}
		if fn.Name() == "init" && fn.Synthetic != "" && initSkipped(fn.Pkg.Pkg.Path()) {
			return nop
		}
	}
	return nil
}

// atomicModel stands for an atomic operation; concurrent ones are no race.
func atomicModel(name string) modelFn {
	m := atomicOp(name)
	if m == nil {
		return nil
	}
	return func(w *W, fr *frame, a []any) any {
		w.touch(a[0], !strings.HasPrefix(name, "Load"), true)
		if w.race != nil {
			w.race.quiet++
			defer func(r *racer) { r.quiet-- }(w.race)
		}
		return m(w, fr, a)
	}
}

func atomicOp(name string) modelFn {
	ptr := func(a any) *any { return a.(*any) }
	switch {
	case strings.HasPrefix(name, "Load"):
		return func(w *W, _ *frame, a []any) any { return *ptr(a[0]) }
	case strings.HasPrefix(name, "Store"):
		return func(w *W, _ *frame, a []any) any { w.store(ptr(a[0]), a[1]); return nil }
	case strings.HasPrefix(name, "Swap"):
		return func(w *W, _ *frame, a []any) any { o := *ptr(a[0]); w.store(ptr(a[0]), a[1]); return o }
	case strings.HasPrefix(name, "CompareAndSwap"):
		return func(w *W, _ *frame, a []any) any {
			if *ptr(a[0]) == a[1] {
				w.store(ptr(a[0]), a[2])
				return true
			}
			return false
		}
	case strings.HasPrefix(name, "Add"):
		wd := uint8(64)
		if strings.HasSuffix(name, "32") {
			wd = 32
		}
		return func(w *W, _ *frame, a []any) any {
			o, ok1 := (*ptr(a[0])).(uint64)
			d, ok2 := a[1].(uint64)
			if !ok1 || !ok2 {
				unsupported("atomic add on symbolic value")
			}
			r := (o + d) & mask(wd)
			w.set(ptr(a[0]), r)
			return r
		}
	}
	return nil
}

// ---- helpers

func (w *W) goStr(v any, what string) string {
	s, ok := v.(string)
	if !ok {
		unsupported("%s must be concrete", what)
	}
	return s
}

func (w *W) newErr(msg any) any {
	p := new(any)
	*p = structv{msg}
	return iface{w.canon(types.NewPointer(w.eng.typ("errors", "errorString"))), p}
}

// callMethod invokes a method by name on an interface value.
func (w *W) callMethod(v iface, name string, args ...any) (any, bool) {
	sel := w.methodSel(v.t, name)
	if sel == nil {
		return nil, false
	}
	return w.callFn(nil, sel, append([]any{v.v}, args...), nil, false), true
}

func (w *W) methodSel(t types.Type, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	ms := w.eng.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			w.eng.metMu.Lock()
			f := w.eng.prog.MethodValue(s)
			w.eng.metMu.Unlock()
			return f
		}
	}
	return nil
}

func (w *W) errorText(v iface) any {
	r, ok := w.callMethod(v, "Error")
	if !ok {
		unsupported("no Error method on %s", v.t)
	}
	return r
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (w *W) isError(t types.Type) bool { return t != nil && w.implements(t, errorIface) }

func (w *W) stringerSel(t types.Type) *ssa.Function {
	f := w.methodSel(t, "String")
	if f == nil {
		return nil
	}
	s := f.Signature
	if s.Params().Len() == 0 && s.Results().Len() == 1 && types.Identical(s.Results().At(0).Type(), types.Typ[types.String]) {
		return f
	}
	return nil
}

// ---- formatting

type fmtBuf struct{ b []any }

func (f *fmtBuf) str(s any)    { f.b = append(f.b, strBytes(s)...) }
func (f *fmtBuf) lit(s string) { f.str(s) }

type fmtFlags struct {
	plus, minus, sharp, space, zero bool
	wid, prec                       int // -1: none
}

func (w *W) isByte(b any, c byte) bool {
	switch b := b.(type) {
	case uint64:
		return byte(b) == c
	case *Term:
		return w.branch(w.ctx.eq(b, w.ctx.konst(uint64(c), 8)))
	}
	return false
}

// format implements fmt's verbs for the values this program formats.
func (w *W) format(format any, args []any) any {
	out := &fmtBuf{}
	f := strBytes(format)
	argi := 0
	for i := 0; i < len(f); {
		if !w.isByte(f[i], '%') {
			out.b = append(out.b, f[i])
			i++
			continue
		}
		i++
		fl := fmtFlags{wid: -1, prec: -1}
	flags:
		for i < len(f) {
			switch {
			case w.isByte(f[i], '+'):
				fl.plus = true
			case w.isByte(f[i], '-'):
				fl.minus = true
			case w.isByte(f[i], '#'):
				fl.sharp = true
			case w.isByte(f[i], ' '):
				fl.space = true
			case w.isByte(f[i], '0'):
				fl.zero = true
			default:
				break flags
			}
			i++
		}
		num := func() int {
			n := -1
			for i < len(f) {
				c, ok := f[i].(uint64)
				if !ok {
					c = w.concretize(f[i].(*Term))
				}
				if c < '0' || c > '9' {
					if c == '*' || c == '[' {
						unsupported("format directive %q", string(rune(c)))
					}
					break
				}
				if n < 0 {
					n = 0
				}
				n = n*10 + int(c-'0')
				i++
			}
			return n
		}
		fl.wid = num()
		if i < len(f) && w.isByte(f[i], '.') {
			i++
			fl.prec = num()
			if fl.prec < 0 {
				fl.prec = 0
			}
		}
		if i >= len(f) {
			out.lit("%!(NOVERB)")
			break
		}
		var verb byte
		switch c := f[i].(type) {
		case uint64:
			verb = byte(c)
		case *Term:
			verb = byte(w.concretize(c))
		}
		if verb >= 0x80 {
			unsupported("non-ASCII format verb")
		}
		i++
		if verb == '%' {
			out.lit("%")
			continue
		}
		if argi >= len(args) {
			out.lit("%!" + string(rune(verb)) + "(MISSING)")
			continue
		}
		one := &fmtBuf{}
		w.fmtArg(one, toIface(args[argi]), verb, fl, 0)
		argi++
		pad := fl.wid - len(one.b)
		if pad > 0 {
			z := uint64(' ')
			if fl.zero && !fl.minus {
				z = '0'
			}
			p := make([]any, pad)
			for k := range p {
				p[k] = z
			}
			if fl.minus {
				one.b = append(one.b, p...)
			} else if z == '0' && len(one.b) > 0 && one.b[0] == uint64('-') {
				one.b = append(append([]any{uint64('-')}, p...), one.b[1:]...)
			} else {
				one.b = append(p, one.b...)
			}
		}
		out.b = append(out.b, one.b...)
	}
	if argi < len(args) {
		out.lit("%!(EXTRA ")
		for k := argi; k < len(args); k++ {
			if k > argi {
				out.lit(", ")
			}
			v := toIface(args[k])
			if v.t == nil {
				out.lit("<nil>")
				continue
			}
			out.lit(w.typeName(v.t))
			out.lit("=")
			w.fmtArg(out, v, 'v', fmtFlags{wid: -1, prec: -1}, 0)
		}
		out.lit(")")
	}
	return mkstr(out.b)
}

func (w *W) typeName(t types.Type) string {
	if t == nil {
		return "<nil>"
	}
	return typeString(t)
}

func (w *W) badVerb(out *fmtBuf, v iface, verb byte) {
	out.lit("%!" + string(rune(verb)) + "(")
	if v.t == nil {
		out.lit("<nil>")
	} else {
		out.lit(w.typeName(v.t) + "=")
		w.fmtVal(out, v.t, v.v, 'v', fmtFlags{wid: -1, prec: -1}, 0)
	}
	out.lit(")")
}

func (w *W) fmtArg(out *fmtBuf, v iface, verb byte, fl fmtFlags, depth int) {
	if v.t == nil {
		if verb == 'v' || verb == 'T' {
			out.lit("<nil>")
		} else {
			w.badVerb(out, v, verb)
		}
		return
	}
	if verb == 'T' {
		out.lit(w.typeName(v.t))
		return
	}
	if verb == 'w' && w.isError(v.t) {
		verb = 'v'
	}
	if !fl.sharp && strings.IndexByte("vsxXq", verb) >= 0 {
		var f *ssa.Function
		if w.isError(v.t) {
			f = w.methodSel(v.t, "Error")
		} else {
			f = w.stringerSel(v.t)
		}
		if f != nil {
			if p, ok := v.v.(*any); ok && p == nil {
				out.lit("<nil>")
				return
			}
			s := w.callFn(nil, f, []any{v.v}, nil, false)
			w.fmtVal(out, types.Typ[types.String], s, verb, fl, depth)
			return
		}
	}
	w.fmtVal(out, v.t, v.v, verb, fl, depth)
}

func (w *W) fmtVal(out *fmtBuf, t types.Type, v any, verb byte, fl fmtFlags, depth int) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			switch verb {
			case 'v':
				if fl.sharp {
					out.str(w.quote(v))
					return
				}
				out.str(w.truncS(v, fl.prec))
			case 's':
				out.str(w.truncS(v, fl.prec))
			case 'q':
				out.str(w.quote(v))
			case 'x', 'X':
				for _, b := range strBytes(v) {
					c, ok := b.(uint64)
					if !ok {
						c = w.concretize(b.(*Term))
					}
					out.lit(fmt.Sprintf("%0.2"+string(rune(verb)), c))
				}
			default:
				w.badVerb(out, iface{t, v}, verb)
			}
			return
		case u.Info()&types.IsBoolean != 0:
			if verb != 'v' && verb != 't' {
				w.badVerb(out, iface{t, v}, verb)
				return
			}
			out.lit(strconv.FormatBool(w.truth(v)))
			return
		case u.Info()&types.IsInteger != 0:
			if verb == 'c' {
				out.str(w.runeToString(v, u))
				return
			}
			if verb == 'q' {
				if x, ok := v.(*Term); ok && x.w != 32 {
					if x.w > 32 {
						v = w.concretize(x)
					} else if isSigned(u) {
						v = simp(w.ctx.sext(x, 32))
					} else {
						v = simp(w.ctx.zext(x, 32))
					}
				}
				out.str(w.callFn(nil, w.eng.fn("strconv", "QuoteRune"), []any{v}, nil, false))
				return
			}
			if strings.IndexByte("vdxXobU", verb) < 0 {
				w.badVerb(out, iface{t, v}, verb)
				return
			}
			n, ok := v.(uint64)
			if !ok {
				n = w.concretize(v.(*Term))
			}
			spec := "%"
			if fl.plus {
				spec += "+"
			}
			if fl.sharp {
				spec += "#"
			}
			if fl.prec >= 0 {
				spec += "." + strconv.Itoa(fl.prec)
			}
			spec += string(rune(verb))
			if isSigned(u) {
				out.lit(fmt.Sprintf(spec, sext(n, intWidth(u))))
			} else {
				out.lit(fmt.Sprintf(spec, n))
			}
			return
		case u.Info()&types.IsFloat != 0:
			out.lit(fmt.Sprintf("%"+string(rune(verb)), v.(float64)))
			return
		}
	case *types.Slice, *types.Array:
		var et types.Type
		var es []any
		if s, ok := u.(*types.Slice); ok {
			et = s.Elem()
			es, _ = v.([]any)
		} else {
			et = u.(*types.Array).Elem()
			es = v.(arrayv)
		}
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && strings.IndexByte("sqxX", verb) >= 0 {
			w.fmtVal(out, types.Typ[types.String], mkstr(es), verb, fl, depth)
			return
		}
		if fl.sharp {
			break
		}
		out.lit("[")
		for i, e := range es {
			if i > 0 {
				out.lit(" ")
			}
			w.fmtElem(out, et, e, verb, fl, depth+1)
		}
		out.lit("]")
		return
	case *types.Struct:
		if fl.sharp {
			break
		}
		s := v.(structv)
		out.lit("{")
		for i := range s {
			if i > 0 {
				out.lit(" ")
			}
			if fl.plus {
				out.lit(u.Field(i).Name() + ":")
			}
			w.fmtElem(out, u.Field(i).Type(), s[i], verb, fl, depth+1)
		}
		out.lit("}")
		return
	case *types.Pointer:
		p, _ := v.(*any)
		if p == nil {
			if verb == 'v' {
				out.lit("<nil>")
			} else {
				out.lit("%!" + string(rune(verb)) + "(" + w.typeName(t) + "=<nil>)")
			}
			return
		}
		if depth == 0 && !fl.sharp {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Array, *types.Slice, *types.Map:
				out.lit("&")
				w.fmtVal(out, u.Elem(), *p, verb, fl, depth+1)
				return
			}
		}
		out.lit("0xc000000000")
		return
	case *types.Interface:
		i := toIface(v)
		if i.t == nil {
			out.lit("<nil>")
			return
		}
		w.fmtArg(out, i, verb, fl, depth)
		return
	case *types.Map:
		m, _ := v.(*hmap)
		out.lit("map[")
		if m != nil {
			n := 0
			for i := range m.keys {
				if m.dead[i] {
					continue
				}
				if n > 0 {
					out.lit(" ")
				}
				n++
				w.fmtElem(out, u.Key(), m.keys[i], verb, fl, depth+1)
				out.lit(":")
				w.fmtElem(out, u.Elem(), m.vals[i], verb, fl, depth+1)
			}
			if n > 1 {
				unsupported("formatting a map with several entries")
			}
		}
		out.lit("]")
		return
	case *types.Signature:
		out.lit("0x400000")
		return
	}
	unsupported("formatting %s with %%%c", t, verb)
}

func (w *W) fmtElem(out *fmtBuf, t types.Type, v any, verb byte, fl fmtFlags, depth int) {
	if i, ok := v.(iface); ok {
		w.fmtArg(out, i, verb, fl, depth)
		return
	}
	w.fmtArg(out, iface{w.canon(t), v}, verb, fl, depth)
}

func (w *W) quote(v any) any {
	return w.callFn(nil, w.eng.fn("strconv", "Quote"), []any{v}, nil, false)
}

func (w *W) truncS(v any, prec int) any {
	if prec < 0 || prec >= strLen(v) {
		return v
	}
	return strSlice(v, 0, prec)
}

func (w *W) sprint(args []any, ln bool) any {
	out := &fmtBuf{}
	prevStr := true
	for i, a := range args {
		v := toIface(a)
		isStr := false
		if v.t != nil {
			b, ok := v.t.Underlying().(*types.Basic)
			isStr = ok && b.Info()&types.IsString != 0
		}
		if i > 0 && (ln || !isStr && !prevStr) {
			out.lit(" ")
		}
		w.fmtArg(out, v, 'v', fmtFlags{wid: -1, prec: -1}, 0)
		prevStr = isStr
	}
	if ln {
		out.lit("\n")
	}
	return mkstr(out.b)
}

func (w *W) writeTo(wr any, s any) any {
	v := toIface(wr)
	if v.t == nil {
		w.nilDeref()
	}
	bs := append([]any(nil), strBytes(s)...)
	r, ok := w.callMethod(v, "Write", bs)
	if !ok {
		unsupported("no Write method on %s", v.t)
	}
	return r
}

func sl(v any) []any { s, _ := v.([]any); return s }

func (w *W) errorf(format any, args []any) any {
	// find %w verbs
	var wrapped []iface
	if f, ok := format.(string); ok {
		n := 0
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			i++
			for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
				i++
			}
			if i < len(f) && f[i] != '%' {
				if f[i] == 'w' && n < len(args) {
					if v := toIface(args[n]); w.isError(v.t) {
						wrapped = append(wrapped, v)
					}
				}
				n++
			}
		}
	}
	msg := w.format(format, args)
	switch len(wrapped) {
	case 0:
		return w.newErr(msg)
	case 1:
		p := new(any)
		*p = structv{msg, wrapped[0]}
		return iface{w.canon(types.NewPointer(w.eng.typ("fmt", "wrapError"))), p}
	}
	es := make([]any, len(wrapped))
	for i, e := range wrapped {
		es[i] = e
	}
	p := new(any)
	*p = structv{msg, es}
	return iface{w.canon(types.NewPointer(w.eng.typ("fmt", "wrapErrors"))), p}
}

// ---- byte search

func (w *W) byteEq(a, b any) bool {
	x, ok1 := a.(uint64)
	y, ok2 := b.(uint64)
	if ok1 && ok2 {
		return x == y
	}
	return w.branch(w.ctx.eq(w.term(a, 8), w.term(b, 8)))
}

func (w *W) indexByte(s []any, c any) int {
	for i, b := range s {
		if w.byteEq(b, c) {
			return i
		}
	}
	return -1
}

func (w *W) indexBytes(s, t []any) int {
	ss, ts := mkstr(s), mkstr(t)
	if a, ok := ss.(string); ok {
		if b, ok := ts.(string); ok {
			return strings.Index(a, b)
		}
	}
	for i := 0; i+len(t) <= len(s); i++ {
		if w.truth(w.strEq(mkstr(s[i:i+len(t)]), ts)) {
			return i
		}
	}
	return -1
}

func u64(i int) uint64 { return uint64(int64(i)) }

func (w *W) compareStr(a, b any) any {
	if w.truth(w.strEq(a, b)) {
		return uint64(0)
	}
	if w.truth(w.strLess(a, b)) {
		return u64(-1)
	}
	return uint64(1)
}

func (w *W) count(s []any, c any) int {
	n := 0
	for _, b := range s {
		if w.byteEq(b, c) {
			n++
		}
	}
	return n
}

func (w *W) inRanges(ranges []any, r *Term, width uint8) *Term {
	res := w.ctx.f
	for _, e := range ranges {
		s := e.(structv)
		lo, hi, st := s[0].(uint64), s[1].(uint64), s[2].(uint64)
		c := w.ctx.and(w.ctx.cmp(tUle, w.ctx.konst(lo, width), r), w.ctx.cmp(tUle, r, w.ctx.konst(hi, width)))
		if lo == hi {
			c = w.ctx.eq(r, w.ctx.konst(lo, width))
		} else if st > 1 {
			if hi-lo == st {
				c = w.ctx.or(w.ctx.eq(r, w.ctx.konst(lo, width)), w.ctx.eq(r, w.ctx.konst(hi, width)))
			} else {
				c = w.ctx.and(c, w.ctx.eq(w.ctx.bin(tUrem, w.ctx.bin(tSub, r, w.ctx.konst(lo, width)), w.ctx.konst(st, width)), w.ctx.konst(0, width)))
			}
		}
		res = w.ctx.or(res, c)
	}
	return res
}

var models map[string]modelFn

func init() {
	models = map[string]modelFn{
		// fmt
		"fmt.Sprintf":  func(w *W, _ *frame, a []any) any { return w.format(a[0], sl(a[1])) },
		"fmt.Sprint":   func(w *W, _ *frame, a []any) any { return w.sprint(sl(a[0]), false) },
		"fmt.Sprintln": func(w *W, _ *frame, a []any) any { return w.sprint(sl(a[0]), true) },
		"fmt.Errorf":   func(w *W, _ *frame, a []any) any { return w.errorf(a[0], sl(a[1])) },
		"fmt.Fprintf":  func(w *W, _ *frame, a []any) any { return w.writeTo(a[0], w.format(a[1], sl(a[2]))) },
		"fmt.Fprint":   func(w *W, _ *frame, a []any) any { return w.writeTo(a[0], w.sprint(sl(a[1]), false)) },
		"fmt.Fprintln": func(w *W, _ *frame, a []any) any { return w.writeTo(a[0], w.sprint(sl(a[1]), true)) },
		"fmt.Printf":   func(w *W, _ *frame, a []any) any { return w.stdWrite(1, w.format(a[0], sl(a[1]))) },
		"fmt.Print":    func(w *W, _ *frame, a []any) any { return w.stdWrite(1, w.sprint(sl(a[0]), false)) },
		"fmt.Println":  func(w *W, _ *frame, a []any) any { return w.stdWrite(1, w.sprint(sl(a[0]), true)) },
		"fmt.Appendf": func(w *W, _ *frame, a []any) any {
			return append(append([]any(nil), sl(a[0])...), strBytes(w.format(a[1], sl(a[2])))...)
		},
		"fmt.Append": func(w *W, _ *frame, a []any) any {
			return append(append([]any(nil), sl(a[0])...), strBytes(w.sprint(sl(a[1]), false))...)
		},
		"fmt.Appendln": func(w *W, _ *frame, a []any) any {
			return append(append([]any(nil), sl(a[0])...), strBytes(w.sprint(sl(a[1]), true))...)
		},

		// errors
		"(syscall.Errno).Error": func(w *W, _ *frame, a []any) any { return syscall.Errno(a[0].(uint64)).Error() },
		"errors.Is":             func(w *W, _ *frame, a []any) any { return w.errorsIs(toIface(a[0]), toIface(a[1])) },
		"errors.As":             func(w *W, _ *frame, a []any) any { return w.errorsAs(toIface(a[0]), toIface(a[1])) },

		// bytealg
		"internal/bytealg.IndexByte": func(w *W, _ *frame, a []any) any { return u64(w.indexByte(sl(a[0]), a[1])) },
		"internal/bytealg.IndexByteString": func(w *W, _ *frame, a []any) any {
			if s, ok := a[0].(string); ok {
				if c, ok := a[1].(uint64); ok {
					return u64(strings.IndexByte(s, byte(c)))
				}
			}
			return u64(w.indexByte(strBytes(a[0]), a[1]))
		},
		"internal/bytealg.Index":         func(w *W, _ *frame, a []any) any { return u64(w.indexBytes(sl(a[0]), sl(a[1]))) },
		"internal/bytealg.IndexString":   func(w *W, _ *frame, a []any) any { return u64(w.indexBytes(strBytes(a[0]), strBytes(a[1]))) },
		"internal/bytealg.Count":         func(w *W, _ *frame, a []any) any { return u64(w.count(sl(a[0]), a[1])) },
		"internal/bytealg.CountString":   func(w *W, _ *frame, a []any) any { return u64(w.count(strBytes(a[0]), a[1])) },
		"internal/bytealg.Equal":         func(w *W, _ *frame, a []any) any { return w.strEq(mkstr(sl(a[0])), mkstr(sl(a[1]))) },
		"bytes.Equal":                    func(w *W, _ *frame, a []any) any { return w.strEq(mkstr(sl(a[0])), mkstr(sl(a[1]))) },
		"internal/bytealg.Compare":       func(w *W, _ *frame, a []any) any { return w.compareStr(mkstr(sl(a[0])), mkstr(sl(a[1]))) },
		"internal/bytealg.CompareString": func(w *W, _ *frame, a []any) any { return w.compareStr(a[0], a[1]) },
		"strings.Compare":                func(w *W, _ *frame, a []any) any { return w.compareStr(a[0], a[1]) },
		"cmp.Compare[string]":            func(w *W, _ *frame, a []any) any { return w.compareStr(a[0], a[1]) },
		"internal/bytealg.MakeNoZero": func(w *W, _ *frame, a []any) any {
			n := w.intVal(a[0], types.Typ[types.Int])
			s := make([]any, n)
			for i := range s {
				s[i] = uint64(0)
			}
			return s
		},
		"internal/abi.NoEscape": func(w *W, _ *frame, a []any) any { return a[0] },
		"internal/abi.Escape":   func(w *W, _ *frame, a []any) any { return a[0] },

		// unicode ranges
		"unicode.is16": func(w *W, _ *frame, a []any) any {
			if t, ok := a[1].(*Term); ok {
				return simp(w.inRanges(sl(a[0]), t, 16))
			}
			return notHandled
		},
		"unicode.is32": func(w *W, _ *frame, a []any) any {
			if t, ok := a[1].(*Term); ok {
				return simp(w.inRanges(sl(a[0]), t, 32))
			}
			return notHandled
		},

		// sync
		"(*sync.Mutex).Lock":      func(w *W, _ *frame, a []any) any { w.lock(a[0], true); return nil },
		"(*sync.Mutex).Unlock":    func(w *W, _ *frame, a []any) any { w.unlock(a[0], true); return nil },
		"(*sync.RWMutex).Lock":    func(w *W, _ *frame, a []any) any { w.lock(a[0], true); return nil },
		"(*sync.RWMutex).Unlock":  func(w *W, _ *frame, a []any) any { w.unlock(a[0], true); return nil },
		"(*sync.RWMutex).RLock":   func(w *W, _ *frame, a []any) any { w.lock(a[0], false); return nil },
		"(*sync.RWMutex).RUnlock": func(w *W, _ *frame, a []any) any { w.unlock(a[0], false); return nil },
		"(*sync.Mutex).TryLock":   func(w *W, _ *frame, a []any) any { w.lock(a[0], true); return true },
		"(*sync.Once).Do": func(w *W, fr *frame, a []any) any {
			// what it orders is no race
			r := w.race
			if r == nil || r.inOnce {
				if r != nil {
					r.inOnce = false
				}
				return notHandled
			}
			r.inOnce = true
			r.once++
			defer func() { r.once-- }()
			return w.callFn(fr, w.methodSel(types.NewPointer(w.eng.typ("sync", "Once")), "Do"), a, nil, false)
		},
		"(*sync.WaitGroup).Add": nop, "(*sync.WaitGroup).Done": nop, "(*sync.WaitGroup).Wait": nop,
		"(*sync.Pool).Put": func(w *W, _ *frame, a []any) any {
			p := a[0].(*any)
			old := w.env.pools[p]
			w.env.pools[p] = append(append([]any(nil), old...), a[1])
			return nil
		},
		"(*sync.Pool).Get": func(w *W, fr *frame, a []any) any {
			p := a[0].(*any)
			if l := w.env.pools[p]; len(l) > 0 && w.race == nil {
				w.env.pools[p] = l[:len(l)-1]
				return l[len(l)-1]
			}
			st := (*p).(structv)
			if f, ok := st[len(st)-1].(*closure); ok && f != nil {
				return w.callClosure(fr, f, nil, false)
			}
			return iface{}
		},
		"(*sync.Map).Load": func(w *W, _ *frame, a []any) any {
			m := w.smap(a[0])
			if i := w.mapFind(anyType, m, a[1]); i >= 0 {
				return tuplev{m.vals[i], true}
			}
			return tuplev{iface{}, false}
		},
		"(*sync.Map).Store": func(w *W, _ *frame, a []any) any { w.mapSet(anyType, w.smap(a[0]), a[1], a[2]); return nil },
		"(*sync.Map).LoadOrStore": func(w *W, _ *frame, a []any) any {
			m := w.smap(a[0])
			if i := w.mapFind(anyType, m, a[1]); i >= 0 {
				return tuplev{m.vals[i], true}
			}
			w.mapSet(anyType, m, a[1], a[2])
			return tuplev{a[2], false}
		},
		"(*sync.Map).Delete": func(w *W, _ *frame, a []any) any { w.mapDelete(anyType, w.smap(a[0]), a[1]); return nil },
		"(*sync.Map).Range": func(w *W, fr *frame, a []any) any {
			m := w.smap(a[0])
			var ord []int
			for i := range m.keys {
				if !m.dead[i] {
					ord = append(ord, i)
				}
			}
			w.permute(ord)
			for _, i := range ord {
				if !w.truth(w.callClosure(fr, a[1].(*closure), []any{m.keys[i], m.vals[i]}, false)) {
					break
				}
			}
			return nil
		},

		// runtime and friends
		"runtime.GC": nop, "runtime.KeepAlive": nop, "runtime.SetFinalizer": nop, "runtime.Gosched": nop,
		"runtime.GOMAXPROCS":  func(w *W, _ *frame, a []any) any { return uint64(1) },
		"runtime.NumCPU":      func(w *W, _ *frame, a []any) any { return uint64(1) },
		"runtime.Caller":      func(w *W, _ *frame, a []any) any { return tuplev{uint64(0), "", uint64(0), false} },
		"runtime.Callers":     func(w *W, _ *frame, a []any) any { return uint64(0) },
		"runtime/debug.Stack": func(w *W, _ *frame, a []any) any { return []any{} },
		"internal/godebug.New": func(w *W, _ *frame, a []any) any {
			p := new(any)
			*p = zero(w.eng.typ("internal/godebug", "Setting"))
			return p
		},
		"(*internal/godebug.Setting).Value":         func(w *W, _ *frame, a []any) any { return "" },
		"(*internal/godebug.Setting).Name":          func(w *W, _ *frame, a []any) any { return "" },
		"(*internal/godebug.Setting).IncNonDefault": nop,
		"internal/race.Enable":                      nop, "internal/race.Disable": nop,

		// math
		"math.Float64bits":     func(w *W, _ *frame, a []any) any { return math.Float64bits(a[0].(float64)) },
		"math.Float64frombits": func(w *W, _ *frame, a []any) any { return math.Float64frombits(conc(a[0])) },
		"math.Float32bits":     func(w *W, _ *frame, a []any) any { return uint64(math.Float32bits(float32(a[0].(float64)))) },
		"math.Float32frombits": func(w *W, _ *frame, a []any) any { return float64(math.Float32frombits(uint32(conc(a[0])))) },
		"math.Floor":           func(w *W, _ *frame, a []any) any { return math.Floor(a[0].(float64)) },
		"math.Ldexp":           func(w *W, _ *frame, a []any) any { return math.Ldexp(a[0].(float64), int(int64(conc(a[1])))) },

		// time
		// every look at the clock shows another time
		"time.Now": func(w *W, _ *frame, a []any) any {
			w.env.ticks++
			t := zero(w.eng.typ("time", "Time")).(structv)
			t[0] = w.env.ticks * 1000003       // nanoseconds
			t[1] = 63900000000 + w.env.ticks*7 // seconds
			return t
		},
		"time.runtimeNano": func(w *W, _ *frame, a []any) any {
			w.env.ticks++
			return w.env.ticks * 7001000003
		},

		// sort with reflection
		"sort.Slice":       func(w *W, fr *frame, a []any) any { w.sortSlice(fr, a); return nil },
		"sort.SliceStable": func(w *W, fr *frame, a []any) any { w.sortSlice(fr, a); return nil },

		"reflect.DeepEqual": func(w *W, _ *frame, a []any) any {
			x, y := toIface(a[0]), toIface(a[1])
			if x.t == nil || y.t == nil {
				return x.t == nil && y.t == nil
			}
			if x.t != y.t {
				return false
			}
			return w.deepEqual(x.t, x.v, y.v, map[[2]*any]bool{})
		},
	}
	for k, m := range osModels() {
		models[k] = m
	}
}

func conc(v any) uint64 {
	n, ok := v.(uint64)
	if !ok {
		unsupported("symbolic value where a concrete one is needed")
	}
	return n
}

var anyType types.Type = types.NewInterfaceType(nil, nil)

func (w *W) smap(p any) *hmap {
	k := p.(*any)
	if m, ok := w.env.smaps[k]; ok {
		return m
	}
	m := newHmap()
	w.env.smaps[k] = m
	return m
}

func (w *W) sortSlice(fr *frame, a []any) {
	v := toIface(a[0])
	s, _ := v.v.([]any)
	less := a[1].(*closure)
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			if !w.truth(w.callClosure(fr, less, []any{uint64(j), uint64(j - 1)}, false)) {
				break
			}
			x, y := copyVal(s[j]), copyVal(s[j-1])
			w.set(&s[j], y)
			w.set(&s[j-1], x)
		}
	}
}

func (w *W) unwrapErr(e iface) []iface {
	f := w.methodSel(e.t, "Unwrap")
	if f == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 {
		return nil
	}
	r := w.callFn(nil, f, []any{e.v}, nil, false)
	switch r := r.(type) {
	case iface:
		if r.t != nil {
			return []iface{r}
		}
	case []any:
		var es []iface
		for _, x := range r {
			if i := toIface(x); i.t != nil {
				es = append(es, i)
			}
		}
		return es
	}
	return nil
}

func (w *W) errorsIs(e, target iface) any {
	if e.t == nil || target.t == nil {
		return e.t == nil && target.t == nil
	}
	if types.Comparable(target.t) && e.t == target.t && w.truth(w.equal(e.t, e.v, target.v)) {
		return true
	}
	if f := w.methodSel(e.t, "Is"); f != nil && f.Signature.Params().Len() == 1 {
		if w.truth(w.callFn(nil, f, []any{e.v, target}, nil, false)) {
			return true
		}
	}
	for _, u := range w.unwrapErr(e) {
		if w.errorsIs(u, target) == true {
			return true
		}
	}
	return false
}

func (w *W) errorsAs(e, target iface) any {
	if e.t == nil {
		return false
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		w.runtimePanic("errors: target must be a non-nil pointer")
	}
	el := pt.Elem()
	dst := target.v.(*any)
	if it, ok := el.Underlying().(*types.Interface); ok {
		if w.implements(e.t, it) {
			w.store(dst, e)
			return true
		}
	} else if e.t == w.canon(el) {
		w.store(dst, copyVal(e.v))
		return true
	}
	if f := w.methodSel(e.t, "As"); f != nil && f.Signature.Params().Len() == 1 {
		if w.truth(w.callFn(nil, f, []any{e.v, target}, nil, false)) {
			return true
		}
	}
	for _, u := range w.unwrapErr(e) {
		if w.errorsAs(u, target) == true {
			return true
		}
	}
	return false
}

// deepEqual follows reflect.DeepEqual; the result is a bool or a term.
func (w *W) deepEqual(t types.Type, x, y any, seen map[[2]*any]bool) any {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, _ := x.(*any)
		q, _ := y.(*any)
		if p == nil || q == nil || p == q {
			return p == q
		}
		k := [2]*any{p, q}
		if seen[k] {
			return true
		}
		seen[k] = true
		return w.deepEqual(u.Elem(), *p, *q, seen)
	case *types.Interface:
		a, b := toIface(x), toIface(y)
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if a.t != b.t {
			return false
		}
		return w.deepEqual(a.t, a.v, b.v, seen)
	case *types.Slice:
		a, _ := x.([]any)
		b, _ := y.([]any)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return false
		}
		var r any = true
		for i := range a {
			if r = w.boolAnd(r, w.deepEqual(u.Elem(), a[i], b[i], seen)); r == false {
				return false
			}
		}
		return r
	case *types.Array:
		a, b := x.(arrayv), y.(arrayv)
		var r any = true
		for i := range a {
			if r = w.boolAnd(r, w.deepEqual(u.Elem(), a[i], b[i], seen)); r == false {
				return false
			}
		}
		return r
	case *types.Struct:
		a, b := x.(structv), y.(structv)
		var r any = true
		for i := range a {
			if r = w.boolAnd(r, w.deepEqual(u.Field(i).Type(), a[i], b[i], seen)); r == false {
				return false
			}
		}
		return r
	case *types.Map:
		a, _ := x.(*hmap)
		b, _ := y.(*hmap)
		if (a == nil) != (b == nil) {
			return false
		}
		if a == nil || a == b {
			return true
		}
		if a.n != b.n {
			return false
		}
		for i := range a.keys {
			if a.dead[i] {
				continue
			}
			j := w.mapFind(u.Key(), b, a.keys[i])
			if j < 0 || !w.truth(w.deepEqual(u.Elem(), a.vals[i], b.vals[j], seen)) {
				return false
			}
		}
		return true
	}
	return w.equal(t, x, y)
}
