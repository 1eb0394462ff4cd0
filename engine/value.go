package main

import (
	"fmt"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Value representation
//
//	integers (all kinds)  uint64 masked to the width, or *Term
//	bool                  bool or *Term (w==0)
//	string                string or *symstr (some byte symbolic)
//	pointer               *any, or *symptr (read-only element pointer with symbolic index)
//	struct/array          structv / arrayv
//	slice                 []any
//	map                   *hmap
//	interface             iface
//	func                  *closure
//	tuple                 tuplev
//	float64, complex128   native, concrete only
type (
	structv []any
	arrayv  []any
	tuplev  []any
	iface   struct {
		t types.Type // canonical; nil for the nil interface
		v any
	}
	closure struct {
		fn  *ssa.Function
		env []any
		// bi is a builtin used as a value (defer/go only)
		bi *ssa.Builtin
		// native is an engine-implemented function value
		native func(w *W, args []any) any
	}
	symstr struct{ b []any }
	symptr struct {
		elems []any
		idx   *Term
	}
	slicedata struct{ s []any }
	iter      struct {
		str any // string being ranged over
		pos int
		m   *hmap
		ord []int
		i   int
	}
)

type engineErr struct{ msg string }

func (e engineErr) Error() string { return e.msg }

func unsupported(format string, args ...any) {
	panic(engineErr{"unsupported: " + fmt.Sprintf(format, args...)})
}

type targetPanic struct {
	v     iface
	stack []string
}
type exitPanic struct{ code int }
type pathAbort struct{ why string }

func isSigned(b *types.Basic) bool {
	return b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func intWidth(b *types.Basic) uint8 {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	}
	return 0
}

func zero(t types.Type) any {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UntypedNil:
			return nil
		case t.Kind() == types.UnsafePointer:
			return (*any)(nil)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return uint64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		}
	case *types.Pointer:
		return (*any)(nil)
	case *types.Slice:
		return []any(nil)
	case *types.Map:
		return (*hmap)(nil)
	case *types.Interface:
		return iface{}
	case *types.Signature:
		return (*closure)(nil)
	case *types.Chan:
		return (*chanv)(nil)
	case *types.Struct:
		s := make(structv, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(t.Len())
		a := make(arrayv, n)
		if n > 0 {
			z := zero(t.Elem())
			switch z.(type) {
			case structv, arrayv:
				for i := range a {
					a[i] = zero(t.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(tuplev, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.TypeParam:
		unsupported("zero of type parameter")
	}
	unsupported("zero value of %s", t)
	return nil
}

type chanv struct {
	buf    []any
	closed bool
	cap    int
}

func copyVal(v any) any {
	switch v := v.(type) {
	case structv:
		n := make(structv, len(v))
		for i, x := range v {
			switch x.(type) {
			case structv, arrayv:
				n[i] = copyVal(x)
			default:
				n[i] = x
			}
		}
		return n
	case arrayv:
		n := make(arrayv, len(v))
		for i, x := range v {
			switch x.(type) {
			case structv, arrayv:
				n[i] = copyVal(x)
			default:
				n[i] = x
			}
		}
		return n
	}
	return v
}

type undoRec struct {
	p   *any
	old any
	f   func()
}

func (w *W) set(p *any, v any) {
	if w.undoOn {
		w.undo = append(w.undo, undoRec{p: p, old: *p})
	}
	if w.race != nil {
		w.touch(p, true, false)
	}
	*p = v
}

func (w *W) onUndo(f func()) {
	if w.undoOn {
		w.undo = append(w.undo, undoRec{f: f})
	}
}

func (w *W) rollback() { w.rollbackTo(0) }

func (w *W) rollbackTo(mark int) {
	for i := len(w.undo) - 1; i >= mark; i-- {
		u := &w.undo[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
		*u = undoRec{}
	}
	w.undo = w.undo[:mark]
}

func (w *W) store(p *any, v any) {
	switch v := v.(type) {
	case structv:
		if dst, ok := (*p).(structv); ok && len(dst) == len(v) {
			for i := range v {
				w.store(&dst[i], v[i])
			}
			return
		}
	case arrayv:
		if dst, ok := (*p).(arrayv); ok && len(dst) == len(v) {
			for i := range v {
				w.store(&dst[i], v[i])
			}
			return
		}
	}
	w.set(p, v)
}

// ---- strings

func strLen(s any) int {
	switch s := s.(type) {
	case string:
		return len(s)
	case *symstr:
		return len(s.b)
	}
	unsupported("string value %T", s)
	return 0
}

func strByte(s any, i int) any {
	switch s := s.(type) {
	case string:
		return uint64(s[i])
	case *symstr:
		return s.b[i]
	}
	unsupported("string value %T", s)
	return nil
}

func strBytes(s any) []any {
	switch s := s.(type) {
	case string:
		b := make([]any, len(s))
		for i := 0; i < len(s); i++ {
			b[i] = uint64(s[i])
		}
		return b
	case *symstr:
		return s.b
	}
	unsupported("string value %T", s)
	return nil
}

// mkstr makes a string value; b is copied if retained.
func mkstr(b []any) any {
	conc := true
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			conc = false
			break
		}
	}
	if conc {
		out := make([]byte, len(b))
		for i, x := range b {
			out[i] = byte(x.(uint64))
		}
		return string(out)
	}
	return &symstr{b: append([]any(nil), b...)}
}

func strSlice(s any, lo, hi int) any {
	switch s := s.(type) {
	case string:
		return s[lo:hi]
	case *symstr:
		return mkstr(s.b[lo:hi])
	}
	unsupported("string value %T", s)
	return nil
}

func strConcat(a, b any) any {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x + y
	}
	if ok1 && x == "" {
		return b
	}
	if ok2 && y == "" {
		return a
	}
	bs := append(append([]any(nil), strBytes(a)...), strBytes(b)...)
	return &symstr{b: bs}
}

// term converts a scalar value to a term of the given width (0 = bool).
func (w *W) term(v any, width uint8) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case uint64:
		return w.ctx.konst(v, width)
	case bool:
		return w.ctx.boolc(v)
	}
	unsupported("term of %T", v)
	return nil
}

// simp turns constant terms into concrete values.
func simp(t *Term) any {
	if t.op == tConst {
		if t.w == 0 {
			return t.n != 0
		}
		return t.n
	}
	return t
}

func (w *W) strEq(a, b any) any {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x == y
	}
	n := strLen(a)
	if n != strLen(b) {
		return false
	}
	r := w.ctx.t
	for i := 0; i < n; i++ {
		p, q := strByte(a, i), strByte(b, i)
		if pc, ok := p.(uint64); ok {
			if qc, ok := q.(uint64); ok {
				if pc != qc {
					return false
				}
				continue
			}
		}
		r = w.ctx.and(r, w.ctx.eq(w.term(p, 8), w.term(q, 8)))
		if r == w.ctx.f {
			return false
		}
	}
	return simp(r)
}

// strLess gives a < b.
func (w *W) strLess(a, b any) any {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x < y
	}
	n, m := strLen(a), strLen(b)
	k := n
	if m < k {
		k = m
	}
	r := w.ctx.boolc(n < m)
	for i := k - 1; i >= 0; i-- {
		p, q := w.term(strByte(a, i), 8), w.term(strByte(b, i), 8)
		r = w.ctx.ite(w.ctx.eq(p, q), r, w.ctx.cmp(tUlt, p, q))
	}
	return simp(r)
}

func (w *W) boolNot(v any) any {
	switch v := v.(type) {
	case bool:
		return !v
	case *Term:
		return simp(w.ctx.not(v))
	}
	unsupported("not of %T", v)
	return nil
}

func (w *W) boolAnd(a, b any) any {
	return simp(w.ctx.and(w.term(a, 0), w.term(b, 0)))
}

// equal compares two values of static type t; the result is a bool or term.
func (w *W) equal(t types.Type, x, y any) any {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return w.strEq(x, y)
		case u.Info()&types.IsInteger != 0:
			a, ok1 := x.(uint64)
			b, ok2 := y.(uint64)
			if ok1 && ok2 {
				return a == b
			}
			wd := intWidth(u)
			return simp(w.ctx.eq(w.term(x, wd), w.term(y, wd)))
		case u.Info()&types.IsBoolean != 0:
			a, ok1 := x.(bool)
			b, ok2 := y.(bool)
			if ok1 && ok2 {
				return a == b
			}
			return simp(w.ctx.eq(w.term(x, 0), w.term(y, 0)))
		case u.Kind() == types.UnsafePointer:
			return eqPtr(x, y)
		}
		return x == y
	case *types.Pointer:
		return eqPtr(x, y)
	case *types.Interface:
		a, b := toIface(x), toIface(y)
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if a.t != b.t {
			return false
		}
		if !types.Comparable(a.t) {
			w.runtimePanic("runtime error: comparing uncomparable type " + typeString(a.t))
		}
		return w.equal(a.t, a.v, b.v)
	case *types.Struct:
		a, b := x.(structv), y.(structv)
		var r any = true
		for i := range a {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = w.boolAnd(r, w.equal(u.Field(i).Type(), a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	case *types.Array:
		a, b := x.(arrayv), y.(arrayv)
		var r any = true
		for i := range a {
			r = w.boolAnd(r, w.equal(u.Elem(), a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	case *types.Signature:
		a, _ := x.(*closure)
		b, _ := y.(*closure)
		return a == nil && b == nil
	case *types.Slice:
		a, _ := x.([]any)
		b, _ := y.([]any)
		return a == nil && b == nil
	case *types.Map:
		a, _ := x.(*hmap)
		b, _ := y.(*hmap)
		return a == b
	case *types.Chan:
		return x == y
	}
	unsupported("equality on %s", t)
	return nil
}

func toIface(x any) iface {
	if x == nil {
		return iface{}
	}
	return x.(iface)
}

func eqPtr(x, y any) any {
	a, ok := x.(*any)
	b, ok2 := y.(*any)
	if (ok || x == nil) && (ok2 || y == nil) {
		return a == b
	}
	return x == y
}

// ---- maps

type hmap struct {
	idx    map[any]int
	keys   []any
	vals   []any
	dead   []bool
	n      int
	hasSym bool
}

func newHmap() *hmap { return &hmap{idx: map[any]int{}} }

type ifaceKey struct {
	t types.Type
	k any
}

// mapKey yields a comparable Go key for a concrete value.
func mapKey(v any) (any, bool) {
	switch v := v.(type) {
	case uint64, bool, string, *any, float64, *chanv:
		return v, true
	case iface:
		if v.t == nil {
			return ifaceKey{}, true
		}
		k, ok := mapKey(v.v)
		return ifaceKey{v.t, k}, ok
	case structv:
		return compositeKey(v)
	case arrayv:
		return compositeKey(v)
	case nil:
		return nil, true
	}
	return nil, false
}

type consKey struct{ a, b any }

func compositeKey(vs []any) (any, bool) {
	var k any
	for _, x := range vs {
		kk, ok := mapKey(x)
		if !ok {
			return nil, false
		}
		k = consKey{k, kk}
	}
	return k, true
}

// find returns the entry index or -1.
func (w *W) mapFind(kt types.Type, m *hmap, k any) int {
	if m == nil {
		return -1
	}
	if w.race != nil {
		w.touch(m, false, false)
	}
	ck, ok := mapKey(k)
	if i, isI := k.(iface); isI && i.t != nil && !types.Comparable(i.t) {
		w.runtimePanic("runtime error: hash of unhashable type " + typeString(i.t))
	}
	if ok {
		if i, hit := m.idx[ck]; hit {
			return i
		}
		if !m.hasSym {
			return -1
		}
	}
	for i, x := range m.keys {
		if m.dead[i] {
			continue
		}
		e := w.equal(kt, x, k)
		if e == false {
			continue
		}
		if e == true || w.branch(e.(*Term)) {
			return i
		}
	}
	return -1
}

func (w *W) mapSet(kt types.Type, m *hmap, k, v any) {
	if w.race != nil {
		w.touch(m, true, false)
	}
	if i := w.mapFind(kt, m, k); i >= 0 {
		w.set(&m.vals[i], v)
		return
	}
	ck, ok := mapKey(k)
	i := len(m.keys)
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	m.dead = append(m.dead, false)
	m.n++
	oldSym := m.hasSym
	if ok {
		m.idx[ck] = i
	} else {
		m.hasSym = true
	}
	w.onUndo(func() {
		if ok {
			delete(m.idx, ck)
		}
		m.keys, m.vals, m.dead = m.keys[:i], m.vals[:i], m.dead[:i]
		m.n--
		m.hasSym = oldSym
	})
}

func (w *W) mapDelete(kt types.Type, m *hmap, k any) {
	if w.race != nil && m != nil {
		w.touch(m, true, false)
	}
	i := w.mapFind(kt, m, k)
	if i < 0 {
		return
	}
	ck, ok := mapKey(m.keys[i])
	m.dead[i] = true
	m.n--
	if ok {
		delete(m.idx, ck)
	}
	w.onUndo(func() {
		m.dead[i] = false
		m.n++
		if ok {
			m.idx[ck] = i
		}
	})
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// runeBytes encodes a concrete rune.
func runeString(r rune) string {
	var b [4]byte
	n := utf8.EncodeRune(b[:], r)
	return string(b[:n])
}
