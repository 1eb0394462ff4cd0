package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	idx int32
	k   any
}

type frame struct {
	w         *W
	code      *fcode
	regs      []any
	caller    *frame
	defers    []deferred
	panicking *targetPanic
	recovered bool
	isDefer   bool // this frame runs a deferred call of caller
	result    any
	prev      int
}

type deferred struct {
	fn   *closure
	args []any
}

func (fr *frame) get(o *opnd) any {
	if o.idx >= 0 {
		return fr.regs[o.idx]
	}
	return o.k
}

type instrFn func(fr *frame)
type termFn func(fr *frame) int

type bcode struct {
	instrs []instrFn
	term   termFn
	n      int64
	// phi moves per predecessor block index
	phis map[int][]phiMove
}

type phiMove struct {
	dst int32
	src opnd
}

type fcode struct {
	fn       *ssa.Function
	name     string
	blocks   []bcode
	nregs    int
	params   []int32
	free     []int32
	hasDefer bool
	recover  int
	hits     int64
}

func (w *W) code(fn *ssa.Function) *fcode {
	if c, ok := w.codes[fn]; ok {
		return c
	}
	c := w.compile(fn)
	w.codes[fn] = c
	return c
}

type compiler struct {
	w    *W
	fn   *ssa.Function
	regs map[ssa.Value]int32
}

func (c *compiler) reg(v ssa.Value) int32 {
	if i, ok := c.regs[v]; ok {
		return i
	}
	i := int32(len(c.regs))
	c.regs[v] = i
	return i
}

func (c *compiler) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{-1, c.w.constant(v)}
	case *ssa.Global:
		return opnd{-1, c.w.global(v)}
	case *ssa.Function:
		return opnd{-1, &closure{fn: v}}
	case *ssa.Builtin:
		return opnd{-1, &closure{bi: v}}
	}
	return opnd{c.reg(v), nil}
}

func (w *W) global(g *ssa.Global) *any {
	if p, ok := w.globals[g]; ok {
		return p
	}
	p := new(any)
	*p = zero(g.Type().(*types.Pointer).Elem())
	w.globals[g] = p
	return p
}

func (w *W) constant(c *ssa.Const) any {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		unsupported("constant of type %s", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case b.Info()&types.IsInteger != 0:
		if isSigned(b) {
			return uint64(c.Int64()) & mask(intWidth(b))
		}
		return c.Uint64() & mask(intWidth(b))
	case b.Info()&types.IsFloat != 0:
		f := c.Float64()
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case b.Info()&types.IsComplex != 0:
		return c.Complex128()
	case b.Kind() == types.UnsafePointer:
		return (*any)(nil)
	}
	unsupported("constant of type %s", t)
	return nil
}

func (w *W) compile(fn *ssa.Function) *fcode {
	fc := &fcode{fn: fn, name: fn.String(), recover: -1}
	c := &compiler{w: w, fn: fn, regs: map[ssa.Value]int32{}}
	for _, p := range fn.Params {
		fc.params = append(fc.params, c.reg(p))
	}
	for _, p := range fn.FreeVars {
		fc.free = append(fc.free, c.reg(p))
	}
	fc.blocks = make([]bcode, len(fn.Blocks))
	if fn.Recover != nil {
		fc.recover = fn.Recover.Index
	}
	for i, b := range fn.Blocks {
		bc := &fc.blocks[i]
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				if bc.phis == nil {
					bc.phis = map[int][]phiMove{}
				}
				seen := map[int]bool{}
				for j, e := range phi.Edges {
					p := b.Preds[j].Index
					if seen[p] {
						continue
					}
					seen[p] = true
					bc.phis[p] = append(bc.phis[p], phiMove{c.reg(phi), c.op(e)})
				}
				continue
			}
			switch in.(type) {
			case *ssa.Defer:
				fc.hasDefer = true
			}
			if t := c.terminator(in); t != nil {
				bc.term = t
			} else if f := c.instr(in); f != nil {
				bc.instrs = append(bc.instrs, f)
			}
		}
		bc.n = int64(len(b.Instrs))
	}
	fc.nregs = len(c.regs)
	return fc
}

func (c *compiler) terminator(in ssa.Instruction) termFn {
	b := in.Block()
	switch in := in.(type) {
	case *ssa.Jump:
		n := b.Succs[0].Index
		return func(fr *frame) int { return n }
	case *ssa.If:
		cond := c.op(in.Cond)
		t, f := b.Succs[0].Index, b.Succs[1].Index
		return func(fr *frame) int {
			switch v := fr.get(&cond).(type) {
			case bool:
				if v {
					return t
				}
				return f
			case *Term:
				if fr.w.branch(v) {
					return t
				}
				return f
			default:
				unsupported("if on %T", v)
			}
			return -1
		}
	case *ssa.Return:
		ops := make([]opnd, len(in.Results))
		for i, r := range in.Results {
			ops[i] = c.op(r)
		}
		switch len(ops) {
		case 0:
			return func(fr *frame) int { return -1 }
		case 1:
			return func(fr *frame) int { fr.result = fr.get(&ops[0]); return -1 }
		}
		return func(fr *frame) int {
			t := make(tuplev, len(ops))
			for i := range ops {
				t[i] = fr.get(&ops[i])
			}
			fr.result = t
			return -1
		}
	case *ssa.Panic:
		x := c.op(in.X)
		pos := c.w.eng.pos(in.Pos())
		return func(fr *frame) int {
			v := toIface(fr.get(&x))
			if v.t == nil {
				fr.w.runtimePanic("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
			}
			panic(&targetPanic{v: v, stack: []string{pos}})
		}
	}
	return nil
}

func (w *W) runtimePanic(msg string) {
	panic(&targetPanic{v: w.runtimeErr(msg)})
}

func (w *W) truth(v any) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return w.branch(v)
	}
	unsupported("truth of %T", v)
	return false
}

// idxVal turns an index value into a concrete int within [0,n), branching as needed.
func (w *W) idxVal(v any, t types.Type, n int, what string) int {
	b := t.Underlying().(*types.Basic)
	switch v := v.(type) {
	case uint64:
		i := int64(v)
		if isSigned(b) {
			i = sext(v, intWidth(b))
		} else if v > math.MaxInt64 {
			i = -1
		}
		if i < 0 || i >= int64(n) {
			w.runtimePanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n))
		}
		return int(i)
	case *Term:
		w.boundsCheck(v, n)
		for i := 0; i < n-1; i++ {
			if w.branch(w.ctx.eq(v, w.ctx.konst(uint64(i), v.w))) {
				return i
			}
		}
		return n - 1
	}
	unsupported("index %T", v)
	return 0
}

func (w *W) boundsCheck(v *Term, n int) {
	if uint64(n) > mask(v.w) {
		return
	}
	if !w.branch(w.ctx.cmp(tUlt, v, w.ctx.konst(uint64(n), v.w))) {
		w.runtimePanic(fmt.Sprintf("runtime error: index out of range with length %d", n))
	}
}

// intVal concretizes a length-like value.
func (w *W) intVal(v any, t types.Type) int {
	switch v := v.(type) {
	case nil:
		return 0
	case uint64:
		b := t.Underlying().(*types.Basic)
		if isSigned(b) {
			return int(sext(v, intWidth(b)))
		}
		return int(v)
	case *Term:
		return int(sext(w.concretize(v), v.w))
	}
	unsupported("int %T", v)
	return 0
}

func (w *W) tableReadW(elems []any, idx *Term, ew uint8) (any, bool) {
	if len(elems) == 0 || len(elems) > 4096 {
		return nil, false
	}
	for _, e := range elems {
		switch e.(type) {
		case uint64, bool:
		default:
			return nil, false
		}
	}
	// group by value, build range conditions
	groups := map[any]*Term{}
	var order []any
	i := 0
	for i < len(elems) {
		j := i
		for j+1 < len(elems) && elems[j+1] == elems[i] {
			j++
		}
		lo, hi := w.ctx.konst(uint64(i), idx.w), w.ctx.konst(uint64(j), idx.w)
		cond := w.ctx.and(w.ctx.cmp(tUle, lo, idx), w.ctx.cmp(tUle, idx, hi))
		if i == j {
			cond = w.ctx.eq(idx, lo)
		}
		if g, ok := groups[elems[i]]; ok {
			groups[elems[i]] = w.ctx.or(g, cond)
		} else {
			groups[elems[i]] = cond
			order = append(order, elems[i])
		}
		i = j + 1
	}
	r := w.term(order[len(order)-1], ew)
	for k := len(order) - 2; k >= 0; k-- {
		r = w.ctx.ite(groups[order[k]], w.term(order[k], ew), r)
	}
	return simp(r), true
}

func scalarWidth(t types.Type) (uint8, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	if b.Info()&types.IsBoolean != 0 {
		return 0, true
	}
	if b.Info()&types.IsInteger != 0 {
		return intWidth(b), true
	}
	return 0, false
}

func (c *compiler) instr(in ssa.Instruction) instrFn {
	switch in := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		d := c.reg(in)
		t := in.Type().(*types.Pointer).Elem()
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			return func(fr *frame) {
				p := new(any)
				*p = zero(t)
				fr.regs[d] = p
			}
		}
		z := zero(t)
		return func(fr *frame) {
			p := new(any)
			*p = z
			fr.regs[d] = p
		}
	case *ssa.BinOp:
		return c.binop(in)
	case *ssa.UnOp:
		return c.unop(in)
	case *ssa.Call:
		d := c.reg(in)
		call := c.call(&in.Call, in)
		return func(fr *frame) { fr.regs[d] = call(fr) }
	case *ssa.ChangeInterface:
		d, x := c.reg(in), c.op(in.X)
		return func(fr *frame) { fr.regs[d] = fr.get(&x) }
	case *ssa.ChangeType:
		d, x := c.reg(in), c.op(in.X)
		return func(fr *frame) { fr.regs[d] = fr.get(&x) }
	case *ssa.Convert:
		d, x := c.reg(in), c.op(in.X)
		dt, st := in.Type(), in.X.Type()
		return func(fr *frame) { fr.regs[d] = fr.w.convert(dt, st, fr.get(&x)) }
	case *ssa.MultiConvert:
		d, x := c.reg(in), c.op(in.X)
		dt, st := in.Type(), in.X.Type()
		return func(fr *frame) { fr.regs[d] = fr.w.convert(dt, st, fr.get(&x)) }
	case *ssa.Defer:
		f := c.callee(&in.Call)
		return func(fr *frame) {
			fn, args := f(fr)
			fr.defers = append(fr.defers, deferred{fn, args})
		}
	case *ssa.RunDefers:
		return func(fr *frame) { fr.w.runDefers(fr) }
	case *ssa.Extract:
		d, x, i := c.reg(in), c.op(in.Tuple), in.Index
		return func(fr *frame) { fr.regs[d] = fr.get(&x).(tuplev)[i] }
	case *ssa.Field:
		d, x, i := c.reg(in), c.op(in.X), in.Field
		return func(fr *frame) { fr.regs[d] = copyVal(fr.get(&x).(structv)[i]) }
	case *ssa.FieldAddr:
		d, x, i := c.reg(in), c.op(in.X), in.Field
		return func(fr *frame) {
			p, ok := fr.get(&x).(*any)
			if !ok {
				unsupported("field address through %T in %s", fr.get(&x), fr.code.name)
			}
			if p == nil {
				fr.w.nilDeref()
			}
			s, ok := (*p).(structv)
			if !ok {
				unsupported("field address of %T in %s", *p, fr.code.name)
			}
			fr.regs[d] = &s[i]
		}
	case *ssa.Go:
		f := c.callee(&in.Call)
		return func(fr *frame) {
			// Goroutines run to completion at the point of creation.
			fn, args := f(fr)
			fr.w.callClosure(fr, fn, args, false)
		}
	case *ssa.Index:
		d, x, ix := c.reg(in), c.op(in.X), c.op(in.Index)
		it := in.Index.Type()
		et := in.Type()
		return func(fr *frame) {
			w := fr.w
			v, i := fr.get(&x), fr.get(&ix)
			switch v := v.(type) {
			case string, *symstr:
				if t, ok := i.(*Term); ok {
					w.boundsCheck(t, strLen(v))
					if r, ok := w.tableReadW(strBytes(v), t, 8); ok {
						fr.regs[d] = r
						return
					}
				}
				fr.regs[d] = strByte(v, w.idxVal(i, it, strLen(v), "string"))
			case arrayv:
				if t, ok := i.(*Term); ok {
					if sw, ok := scalarWidth(et); ok {
						w.boundsCheck(t, len(v))
						if r, ok := w.tableReadW(v, t, sw); ok {
							fr.regs[d] = r
							return
						}
					}
				}
				fr.regs[d] = copyVal(v[w.idxVal(i, it, len(v), "array")])
			default:
				unsupported("index of %T", v)
			}
		}
	case *ssa.IndexAddr:
		d, x, ix := c.reg(in), c.op(in.X), c.op(in.Index)
		it := in.Index.Type()
		et := in.Type().(*types.Pointer).Elem()
		loadOnly := true
		for _, r := range *in.Referrers() {
			if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
				loadOnly = false
			}
		}
		_, scalar := scalarWidth(et)
		return func(fr *frame) {
			w := fr.w
			i := fr.get(&ix)
			var elems []any
			switch v := fr.get(&x).(type) {
			case []any:
				elems = v
			case *any:
				if v == nil {
					w.nilDeref()
				}
				elems = (*v).(arrayv)
			default:
				unsupported("index address of %T", v)
			}
			if t, ok := i.(*Term); ok && loadOnly && scalar {
				w.boundsCheck(t, len(elems))
				fr.regs[d] = &symptr{elems, t}
				return
			}
			fr.regs[d] = &elems[w.idxVal(i, it, len(elems), "slice")]
		}
	case *ssa.Lookup:
		d, x, ix := c.reg(in), c.op(in.X), c.op(in.Index)
		mt, isMap := in.X.Type().Underlying().(*types.Map)
		it := in.Index.Type()
		commaOk := in.CommaOk
		return func(fr *frame) {
			w := fr.w
			v, k := fr.get(&x), fr.get(&ix)
			if !isMap {
				fr.regs[d] = strByte(v, w.idxVal(k, it, strLen(v), "string"))
				return
			}
			m := v.(*hmap)
			i := w.mapFind(mt.Key(), m, k)
			var r any
			if i >= 0 {
				r = copyVal(m.vals[i])
			} else {
				r = zero(mt.Elem())
			}
			if commaOk {
				r = tuplev{r, i >= 0}
			}
			fr.regs[d] = r
		}
	case *ssa.MakeChan:
		d := c.reg(in)
		sz := c.op(in.Size)
		return func(fr *frame) {
			fr.regs[d] = &chanv{cap: fr.w.intVal(fr.get(&sz), types.Typ[types.Int])}
		}
	case *ssa.MakeClosure:
		d := c.reg(in)
		fn := in.Fn.(*ssa.Function)
		ops := make([]opnd, len(in.Bindings))
		for i, b := range in.Bindings {
			ops[i] = c.op(b)
		}
		return func(fr *frame) {
			env := make([]any, len(ops))
			for i := range ops {
				env[i] = fr.get(&ops[i])
			}
			fr.regs[d] = &closure{fn: fn, env: env}
		}
	case *ssa.MakeInterface:
		d, x := c.reg(in), c.op(in.X)
		t := c.w.canon(in.X.Type())
		return func(fr *frame) { fr.regs[d] = iface{t, fr.get(&x)} }
	case *ssa.MakeMap:
		d := c.reg(in)
		return func(fr *frame) { fr.regs[d] = newHmap() }
	case *ssa.MakeSlice:
		d, l, cp := c.reg(in), c.op(in.Len), c.op(in.Cap)
		et := in.Type().Underlying().(*types.Slice).Elem()
		lt, ct := in.Len.Type(), in.Cap.Type()
		return func(fr *frame) {
			n, m := fr.w.intVal(fr.get(&l), lt), fr.w.intVal(fr.get(&cp), ct)
			if n < 0 {
				fr.w.runtimePanic("runtime error: makeslice: len out of range")
			}
			if m < n {
				fr.w.runtimePanic("runtime error: makeslice: cap out of range")
			}
			if m > 1<<24 {
				unsupported("make of %d elements", m)
			}
			s := make([]any, m)
			if m > 0 {
				z := zero(et)
				switch z.(type) {
				case structv, arrayv:
					for i := range s {
						s[i] = zero(et)
					}
				default:
					for i := range s {
						s[i] = z
					}
				}
			}
			fr.regs[d] = s[:n]
		}
	case *ssa.MapUpdate:
		m, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		kt := in.Map.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) {
			h := fr.get(&m).(*hmap)
			if h == nil {
				fr.w.runtimePanic("assignment to entry in nil map")
			}
			fr.w.mapSet(kt, h, fr.get(&k), fr.get(&v))
		}
	case *ssa.Next:
		d, x := c.reg(in), c.op(in.Iter)
		return func(fr *frame) { fr.regs[d] = fr.w.next(fr.get(&x).(*iter)) }
	case *ssa.Range:
		d, x := c.reg(in), c.op(in.X)
		return func(fr *frame) {
			switch v := fr.get(&x).(type) {
			case string, *symstr:
				fr.regs[d] = &iter{str: v}
			case *hmap:
				it := &iter{m: v}
				if v == nil {
					it.m = newHmap()
				} else {
					fr.w.touch(v, false, false)
					for i := range v.keys {
						if !v.dead[i] {
							it.ord = append(it.ord, i)
						}
					}
					fr.w.permute(it.ord)
				}
				fr.regs[d] = it
			default:
				unsupported("range over %T", v)
			}
		}
	case *ssa.Select:
		return func(fr *frame) { unsupported("select") }
	case *ssa.Send:
		ch, x := c.op(in.Chan), c.op(in.X)
		return func(fr *frame) {
			q := fr.get(&ch).(*chanv)
			if q == nil {
				unsupported("send on nil channel")
			}
			if q.closed {
				fr.w.runtimePanic("send on closed channel")
			}
			fr.w.lock(q, true) // a channel orders what comes after
			old := q.buf
			q.buf = append(append([]any(nil), q.buf...), fr.get(&x))
			fr.w.onUndo(func() { q.buf = old })
		}
	case *ssa.Slice:
		return c.slice(in)
	case *ssa.SliceToArrayPointer:
		d, x := c.reg(in), c.op(in.X)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s := fr.get(&x).([]any)
			if len(s) < n {
				fr.w.runtimePanic("runtime error: cannot convert slice to array pointer: length mismatch")
			}
			if s == nil {
				fr.regs[d] = (*any)(nil)
				return
			}
			p := new(any)
			*p = arrayv(s[:n:n])
			fr.regs[d] = p
		}
	case *ssa.Store:
		a, v := c.op(in.Addr), c.op(in.Val)
		return func(fr *frame) {
			p, ok := fr.get(&a).(*any)
			if !ok {
				unsupported("store through %T in %s", fr.get(&a), fr.code.name)
			}
			if p == nil {
				fr.w.nilDeref()
			}
			fr.w.store(p, copyVal(fr.get(&v)))
		}
	case *ssa.TypeAssert:
		return c.typeAssert(in)
	}
	unsupported("instruction %T in %s", in, c.fn)
	return nil
}

func (w *W) nilDeref() {
	w.runtimePanic("runtime error: invalid memory address or nil pointer dereference")
}

func (c *compiler) slice(in *ssa.Slice) instrFn {
	d, x := c.reg(in), c.op(in.X)
	var lo, hi, mx *opnd
	ints := types.Typ[types.Int]
	mk := func(v ssa.Value) *opnd {
		if v == nil {
			return nil
		}
		o := c.op(v)
		return &o
	}
	lo, hi, mx = mk(in.Low), mk(in.High), mk(in.Max)
	tOf := func(v ssa.Value) types.Type {
		if v == nil {
			return ints
		}
		return v.Type()
	}
	lt, ht, mt := tOf(in.Low), tOf(in.High), tOf(in.Max)
	return func(fr *frame) {
		w := fr.w
		v := fr.get(&x)
		l, h, m := 0, -1, -1
		if lo != nil {
			l = w.intVal(fr.get(lo), lt)
		}
		if hi != nil {
			h = w.intVal(fr.get(hi), ht)
		}
		if mx != nil {
			m = w.intVal(fr.get(mx), mt)
		}
		switch v := v.(type) {
		case string, *symstr:
			n := strLen(v)
			if hi == nil {
				h = n
			}
			if h < 0 || h > n {
				w.runtimePanic(fmt.Sprintf("runtime error: slice bounds out of range [:%d] with length %d", h, n))
			}
			if l < 0 || l > h {
				w.runtimePanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d]", l, h))
			}
			fr.regs[d] = strSlice(v, l, h)
		case []any, *any:
			var s []any
			if p, ok := v.(*any); ok {
				if p == nil {
					w.nilDeref()
				}
				s = (*p).(arrayv)
			} else {
				s = v.([]any)
			}
			if hi == nil {
				h = len(s)
			}
			if mx == nil {
				m = cap(s)
			}
			if m < 0 || m > cap(s) {
				w.runtimePanic(fmt.Sprintf("runtime error: slice bounds out of range [::%d] with capacity %d", m, cap(s)))
			}
			if h < 0 || h > m {
				w.runtimePanic(fmt.Sprintf("runtime error: slice bounds out of range [:%d] with capacity %d", h, cap(s)))
			}
			if l < 0 || l > h {
				w.runtimePanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d]", l, h))
			}
			if s == nil {
				fr.regs[d] = []any(nil)
				return
			}
			fr.regs[d] = s[l:h:m]
		default:
			unsupported("slice of %T", v)
		}
	}
}

func (c *compiler) typeAssert(in *ssa.TypeAssert) instrFn {
	d, x := c.reg(in), c.op(in.X)
	t := in.AssertedType
	it, isIface := t.Underlying().(*types.Interface)
	ct := c.w.canon(t)
	commaOk := in.CommaOk
	st := in.X.Type()
	var zv any
	composite := false
	if commaOk {
		zv = zero(t)
		switch zv.(type) {
		case structv, arrayv:
			composite = true
		}
	}
	return func(fr *frame) {
		w := fr.w
		v := toIface(fr.get(&x))
		ok := false
		var r any
		if isIface {
			ok = v.t != nil && w.implements(v.t, it)
			r = v
		} else {
			ok = v.t == ct
			r = v.v
		}
		if commaOk {
			if !ok {
				r = zv
				if composite {
					r = copyVal(zv)
				}
			}
			fr.regs[d] = tuplev{r, ok}
			return
		}
		if !ok {
			// runtime.TypeAssertionError wording
			inter := "interface {}"
			if st.String() != "interface{}" && st.String() != "any" {
				inter = typeString(st)
			}
			if v.t == nil {
				if isIface {
					inter = "interface"
				}
				w.runtimePanic(fmt.Sprintf("interface conversion: %s is nil, not %s", inter, typeString(t)))
			}
			if isIface {
				w.runtimePanic(fmt.Sprintf("interface conversion: %s is not %s: missing method %s", typeString(v.t), typeString(t), missingMethod(v.t, it)))
			}
			w.runtimePanic(fmt.Sprintf("interface conversion: %s is %s, not %s", inter, typeString(v.t), typeString(t)))
		}
		fr.regs[d] = r
	}
}

func missingMethod(t types.Type, it *types.Interface) string {
	m, _ := types.MissingMethod(t, it, true)
	if m != nil {
		return m.Name()
	}
	return "?"
}

func (w *W) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if r, ok := w.impl[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	w.impl[k] = r
	return r
}

type implKey struct {
	t  types.Type
	it *types.Interface
}

func (w *W) next(it *iter) any {
	if it.m != nil {
		for it.i < len(it.ord) {
			j := it.ord[it.i]
			it.i++
			if j < len(it.m.keys) && !it.m.dead[j] {
				return tuplev{true, it.m.keys[j], copyVal(it.m.vals[j])}
			}
		}
		return tuplev{false, nil, nil}
	}
	n := strLen(it.str)
	if it.pos >= n {
		return tuplev{false, uint64(0), uint64(0)}
	}
	pos := it.pos
	r, size := w.decodeRune(it.str, pos)
	it.pos += size
	return tuplev{true, uint64(pos), r}
}

// decodeRune decodes one rune of a string at pos.
func (w *W) decodeRune(s any, pos int) (any, int) {
	if cs, ok := s.(string); ok {
		for i, r := range cs[pos:] {
			if i > 0 {
				return uint64(uint32(r0(cs[pos:]))), i
			}
			_ = r
		}
		return uint64(uint32(r0(cs[pos:]))), len(cs) - pos
	}
	b := strByte(s, pos)
	if t, ok := b.(*Term); ok {
		if w.branch(w.ctx.cmp(tUlt, t, w.ctx.konst(0x80, 8))) {
			return simp(w.ctx.zext(t, 32)), 1
		}
	} else if b.(uint64) < 0x80 {
		return b, 1
	}
	fn := w.eng.fn("unicode/utf8", "DecodeRuneInString")
	res := w.callFn(nil, fn, []any{strSlice(s, pos, strLen(s))}, nil, false).(tuplev)
	return res[0], w.intVal(res[1], types.Typ[types.Int])
}

func r0(s string) rune {
	for _, r := range s {
		return r
	}
	return 0
}

func (c *compiler) unop(in *ssa.UnOp) instrFn {
	d, x := c.reg(in), c.op(in.X)
	switch in.Op {
	case token.MUL:
		t := in.Type()
		sw, _ := scalarWidth(t)
		return func(fr *frame) {
			switch p := fr.get(&x).(type) {
			case *any:
				if p == nil {
					fr.w.nilDeref()
				}
				if fr.w.race != nil {
					fr.w.touchLoad(p)
				}
				switch v := (*p).(type) {
				case structv, arrayv:
					fr.regs[d] = copyVal(v)
				default:
					fr.regs[d] = v
				}
			case *symptr:
				if fr.w.race != nil {
					fr.w.touchElems(p.elems)
				}
				if r, ok := fr.w.tableReadW(p.elems, p.idx, sw); ok {
					fr.regs[d] = r
				} else {
					fr.regs[d] = p.elems[fr.w.idxVal(p.idx, types.Typ[types.Uint64], len(p.elems), "")]
				}
			default:
				unsupported("load through %T in %s", p, fr.code.name)
			}
		}
	case token.NOT:
		return func(fr *frame) { fr.regs[d] = fr.w.boolNot(fr.get(&x)) }
	case token.SUB, token.XOR:
		b := in.Type().Underlying().(*types.Basic)
		wd := intWidth(b)
		neg := in.Op == token.SUB
		return func(fr *frame) {
			switch v := fr.get(&x).(type) {
			case uint64:
				if neg {
					fr.regs[d] = -v & mask(wd)
				} else {
					fr.regs[d] = ^v & mask(wd)
				}
			case *Term:
				if neg {
					fr.regs[d] = simp(fr.w.ctx.bneg(v))
				} else {
					fr.regs[d] = simp(fr.w.ctx.bnot(v))
				}
			case float64:
				fr.regs[d] = -v
			default:
				unsupported("unary on %T", v)
			}
		}
	case token.ARROW:
		commaOk := in.CommaOk
		et := in.X.Type().Underlying().(*types.Chan).Elem()
		return func(fr *frame) {
			q := fr.get(&x).(*chanv)
			var v any
			ok := true
			if q == nil || len(q.buf) == 0 {
				if q == nil || !q.closed {
					unsupported("blocking channel receive")
				}
				v, ok = zero(et), false
			} else {
				fr.w.lock(q, true)
				old := q.buf
				v = q.buf[0]
				q.buf = q.buf[1:]
				fr.w.onUndo(func() { q.buf = old })
			}
			if commaOk {
				v = tuplev{v, ok}
			}
			fr.regs[d] = v
		}
	}
	unsupported("unop %s", in.Op)
	return nil
}

func (c *compiler) binop(in *ssa.BinOp) instrFn {
	d, x, y := c.reg(in), c.op(in.X), c.op(in.Y)
	t := in.X.Type()
	switch in.Op {
	case token.EQL, token.NEQ:
		neg := in.Op == token.NEQ
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			wd := intWidth(b)
			return func(fr *frame) {
				p, q := fr.get(&x), fr.get(&y)
				if a, ok := p.(uint64); ok {
					if e, ok := q.(uint64); ok {
						fr.regs[d] = (a == e) != neg
						return
					}
				}
				r := simp(fr.w.ctx.eq(fr.w.term(p, wd), fr.w.term(q, wd)))
				if neg {
					r = fr.w.boolNot(r)
				}
				fr.regs[d] = r
			}
		}
		// interface compared with nil etc: operand types may differ (iface vs concrete is converted by ssa)
		return func(fr *frame) {
			r := fr.w.equal(t, fr.get(&x), fr.get(&y))
			if neg {
				r = fr.w.boolNot(r)
			}
			fr.regs[d] = r
		}
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		unsupported("binop on %s", t)
	}
	op := in.Op
	switch {
	case b.Info()&types.IsString != 0:
		return func(fr *frame) {
			p, q := fr.get(&x), fr.get(&y)
			switch op {
			case token.ADD:
				fr.regs[d] = strConcat(p, q)
			case token.LSS:
				fr.regs[d] = fr.w.strLess(p, q)
			case token.GTR:
				fr.regs[d] = fr.w.strLess(q, p)
			case token.LEQ:
				fr.regs[d] = fr.w.boolNot(fr.w.strLess(q, p))
			case token.GEQ:
				fr.regs[d] = fr.w.boolNot(fr.w.strLess(p, q))
			}
		}
	case b.Info()&types.IsFloat != 0:
		f32 := b.Kind() == types.Float32
		return func(fr *frame) {
			p, q := fr.get(&x).(float64), fr.get(&y).(float64)
			var r float64
			switch op {
			case token.ADD:
				r = p + q
			case token.SUB:
				r = p - q
			case token.MUL:
				r = p * q
			case token.QUO:
				r = p / q
			case token.LSS:
				fr.regs[d] = p < q
				return
			case token.LEQ:
				fr.regs[d] = p <= q
				return
			case token.GTR:
				fr.regs[d] = p > q
				return
			case token.GEQ:
				fr.regs[d] = p >= q
				return
			}
			if f32 {
				r = float64(float32(r))
			}
			fr.regs[d] = r
		}
	case b.Info()&types.IsInteger != 0:
		wd := intWidth(b)
		sg := isSigned(b)
		m := mask(wd)
		var yw uint8
		ysg := false
		if yb, ok := in.Y.Type().Underlying().(*types.Basic); ok {
			yw = intWidth(yb)
			ysg = isSigned(yb)
		}
		return func(fr *frame) {
			w := fr.w
			p, q := fr.get(&x), fr.get(&y)
			a, ok1 := p.(uint64)
			e, ok2 := q.(uint64)
			if ok1 && ok2 {
				switch op {
				case token.ADD:
					fr.regs[d] = (a + e) & m
				case token.SUB:
					fr.regs[d] = (a - e) & m
				case token.MUL:
					fr.regs[d] = (a * e) & m
				case token.AND:
					fr.regs[d] = a & e
				case token.OR:
					fr.regs[d] = a | e
				case token.XOR:
					fr.regs[d] = a ^ e
				case token.AND_NOT:
					fr.regs[d] = a &^ e
				case token.LSS:
					if sg {
						fr.regs[d] = sext(a, wd) < sext(e, wd)
					} else {
						fr.regs[d] = a < e
					}
				case token.LEQ:
					if sg {
						fr.regs[d] = sext(a, wd) <= sext(e, wd)
					} else {
						fr.regs[d] = a <= e
					}
				case token.GTR:
					if sg {
						fr.regs[d] = sext(a, wd) > sext(e, wd)
					} else {
						fr.regs[d] = a > e
					}
				case token.GEQ:
					if sg {
						fr.regs[d] = sext(a, wd) >= sext(e, wd)
					} else {
						fr.regs[d] = a >= e
					}
				case token.QUO, token.REM:
					if e == 0 {
						w.runtimePanic("runtime error: integer divide by zero")
					}
					fr.regs[d] = evalBin(divOp(op, sg), a, e, wd)
				case token.SHL, token.SHR:
					if ysg && sext(e, yw) < 0 {
						w.runtimePanic("runtime error: negative shift amount")
					}
					k := tShl
					if op == token.SHR {
						k = tLshr
						if sg {
							k = tAshr
						}
					}
					fr.regs[d] = evalBin(k, a, e, wd)
				default:
					unsupported("binop %s", op)
				}
				return
			}
			c := w.ctx
			tx := w.term(p, wd)
			if op == token.SHL || op == token.SHR {
				ty := w.term(q, yw)
				if ysg {
					if w.branch(c.cmp(tSlt, ty, c.konst(0, yw))) {
						w.runtimePanic("runtime error: negative shift amount")
					}
				}
				if yw < wd {
					ty = c.zext(ty, wd)
				} else if yw > wd {
					big := c.cmp(tUle, c.konst(uint64(wd), yw), ty)
					ty = c.ite(big, c.konst(uint64(wd), wd), c.trunc(ty, wd))
				}
				k := tShl
				if op == token.SHR {
					k = tLshr
					if sg {
						k = tAshr
					}
				}
				fr.regs[d] = simp(c.bin(k, tx, ty))
				return
			}
			ty := w.term(q, wd)
			lt, le := tUlt, tUle
			if sg {
				lt, le = tSlt, tSle
			}
			var r *Term
			switch op {
			case token.ADD:
				r = c.bin(tAdd, tx, ty)
			case token.SUB:
				r = c.bin(tSub, tx, ty)
			case token.MUL:
				r = c.bin(tMul, tx, ty)
			case token.AND:
				r = c.bin(tBand, tx, ty)
			case token.OR:
				r = c.bin(tBor, tx, ty)
			case token.XOR:
				r = c.bin(tBxor, tx, ty)
			case token.AND_NOT:
				r = c.bin(tBand, tx, c.bnot(ty))
			case token.LSS:
				r = c.cmp(lt, tx, ty)
			case token.LEQ:
				r = c.cmp(le, tx, ty)
			case token.GTR:
				r = c.cmp(lt, ty, tx)
			case token.GEQ:
				r = c.cmp(le, ty, tx)
			case token.QUO, token.REM:
				if w.branch(c.eq(ty, c.konst(0, wd))) {
					w.runtimePanic("runtime error: integer divide by zero")
				}
				r = c.bin(divOp(op, sg), tx, ty)
			default:
				unsupported("binop %s", op)
			}
			fr.regs[d] = simp(r)
		}
	case b.Info()&types.IsBoolean != 0:
		return func(fr *frame) {
			p, q := fr.w.term(fr.get(&x), 0), fr.w.term(fr.get(&y), 0)
			switch op {
			case token.AND, token.LAND:
				fr.regs[d] = simp(fr.w.ctx.and(p, q))
			case token.OR, token.LOR:
				fr.regs[d] = simp(fr.w.ctx.or(p, q))
			default:
				unsupported("bool binop %s", op)
			}
		}
	}
	return func(fr *frame) { unsupported("binop %s on %s", op, t) }
}

func divOp(op token.Token, signed bool) top {
	switch {
	case op == token.QUO && signed:
		return tSdiv
	case op == token.QUO:
		return tUdiv
	case signed:
		return tSrem
	}
	return tUrem
}

func (w *W) convert(dt, st types.Type, x any) any {
	ud, us := dt.Underlying(), st.Underlying()
	switch us := us.(type) {
	case *types.Basic:
		switch {
		case us.Info()&types.IsString != 0:
			switch ud := ud.(type) {
			case *types.Basic:
				if ud.Info()&types.IsString != 0 {
					return x
				}
			case *types.Slice:
				eb := ud.Elem().Underlying().(*types.Basic)
				if eb.Kind() == types.Uint8 {
					src := strBytes(x)
					return append(make([]any, 0, len(src)), src...)
				}
				var rs []any
				it := &iter{str: x}
				for {
					t := w.next(it).(tuplev)
					if t[0] == false {
						break
					}
					rs = append(rs, t[2])
				}
				if rs == nil {
					rs = []any{}
				}
				return rs
			}
		case us.Info()&types.IsInteger != 0:
			switch ud := ud.(type) {
			case *types.Basic:
				switch {
				case ud.Info()&types.IsString != 0:
					return w.runeToString(x, us)
				case ud.Info()&types.IsInteger != 0:
					sw, dw := intWidth(us), intWidth(ud)
					switch v := x.(type) {
					case uint64:
						if dw > sw && isSigned(us) {
							v = uint64(sext(v, sw))
						}
						return v & mask(dw)
					case *Term:
						switch {
						case dw == sw:
							return v
						case dw < sw:
							return simp(w.ctx.trunc(v, dw))
						case isSigned(us):
							return simp(w.ctx.sext(v, dw))
						}
						return simp(w.ctx.zext(v, dw))
					}
				case ud.Info()&types.IsFloat != 0:
					v, ok := x.(uint64)
					if !ok {
						unsupported("symbolic integer to float")
					}
					var f float64
					if isSigned(us) {
						f = float64(sext(v, intWidth(us)))
					} else {
						f = float64(v)
					}
					if ud.Kind() == types.Float32 {
						f = float64(float32(f))
					}
					return f
				case ud.Kind() == types.UnsafePointer:
					return (*any)(nil)
				}
			}
		case us.Info()&types.IsFloat != 0:
			if ud, ok := ud.(*types.Basic); ok {
				f := x.(float64)
				switch {
				case ud.Info()&types.IsInteger != 0:
					if isSigned(ud) {
						return uint64(int64(f)) & mask(intWidth(ud))
					}
					return uint64(f) & mask(intWidth(ud))
				case ud.Kind() == types.Float32:
					return float64(float32(f))
				case ud.Info()&types.IsFloat != 0:
					return f
				}
			}
		case us.Kind() == types.UnsafePointer:
			return x
		case us.Info()&types.IsBoolean != 0:
			return x
		}
	case *types.Slice:
		if db, ok := ud.(*types.Basic); ok && db.Info()&types.IsString != 0 {
			s := x.([]any)
			eb := us.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				return mkstr(s)
			}
			var r any = ""
			for _, e := range s {
				r = strConcat(r, w.runeToString(e, eb))
			}
			return r
		}
		if at, ok := ud.(*types.Array); ok {
			s := x.([]any)
			if len(s) < int(at.Len()) {
				w.runtimePanic("runtime error: cannot convert slice to array: length mismatch")
			}
			return copyVal(arrayv(s[:at.Len()]))
		}
	case *types.Pointer:
		if db, ok := ud.(*types.Basic); ok {
			if db.Kind() == types.UnsafePointer {
				return x
			}
		}
		return x
	}
	if _, ok := ud.(*types.Pointer); ok {
		return x
	}
	unsupported("conversion %s -> %s", st, dt)
	return nil
}

func (w *W) runeToString(x any, bt *types.Basic) any {
	switch v := x.(type) {
	case uint64:
		n := int64(v)
		if isSigned(bt) {
			n = sext(v, intWidth(bt))
		}
		if n < 0 || n > 0x10ffff {
			n = 0xfffd
		}
		return string(rune(n))
	case *Term:
		if v.w < 32 {
			if isSigned(bt) {
				v = w.ctx.sext(v, 32)
			} else {
				v = w.ctx.zext(v, 32)
			}
		} else if v.w > 32 {
			unsupported("symbolic %d-bit integer to string", v.w)
		}
		return mkstr(w.encodeRune(v))
	}
	unsupported("rune of %T", x)
	return nil
}

// encodeRune gives the UTF-8 bytes of a symbolic 32-bit rune.
func (w *W) encodeRune(v *Term) []any {
	c := w.ctx
	k := func(n uint64) *Term { return c.konst(n, 32) }
	lt := func(n uint64) bool { return w.branch(c.cmp(tUlt, v, k(n))) }
	b := func(t *Term) any { return simp(c.trunc(t, 8)) }
	if lt(0x80) {
		return []any{b(v)}
	}
	low := func(sh uint64) *Term {
		return c.bin(tBor, k(0x80), c.bin(tBand, c.bin(tLshr, v, k(sh)), k(0x3f)))
	}
	if lt(0x800) {
		return []any{b(c.bin(tBor, k(0xc0), c.bin(tLshr, v, k(6)))), b(low(0))}
	}
	bad := c.or(c.cmp(tUlt, k(0x10ffff), v), c.and(c.cmp(tUle, k(0xd800), v), c.cmp(tUle, v, k(0xdfff))))
	if w.branch(bad) {
		return []any{uint64(0xef), uint64(0xbf), uint64(0xbd)}
	}
	if lt(0x10000) {
		return []any{b(c.bin(tBor, k(0xe0), c.bin(tLshr, v, k(12)))), b(low(6)), b(low(0))}
	}
	return []any{b(c.bin(tBor, k(0xf0), c.bin(tLshr, v, k(18)))), b(low(12)), b(low(6)), b(low(0))}
}

// ---- calls

func (c *compiler) callee(call *ssa.CallCommon) func(fr *frame) (*closure, []any) {
	ops := make([]opnd, len(call.Args))
	for i, a := range call.Args {
		ops[i] = c.op(a)
	}
	args := func(fr *frame, extra int) []any {
		as := make([]any, extra, extra+len(ops))
		for i := range ops {
			as = append(as, fr.get(&ops[i]))
		}
		return as
	}
	if call.IsInvoke() {
		recv := c.op(call.Value)
		m := call.Method
		return func(fr *frame) (*closure, []any) {
			v := toIface(fr.get(&recv))
			if v.t == nil {
				fr.w.nilDeref()
			}
			as := args(fr, 1)
			as[0] = v.v
			return &closure{fn: fr.w.method(v.t, m)}, as
		}
	}
	fo := c.op(call.Value)
	return func(fr *frame) (*closure, []any) {
		f, _ := fr.get(&fo).(*closure)
		return f, args(fr, 0)
	}
}

func (w *W) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := w.meth[k]; ok {
		return f
	}
	f := w.eng.prog.LookupMethod(t, m.Pkg(), m.Name())
	if f == nil {
		unsupported("no method %s on %s", m.Name(), t)
	}
	w.meth[k] = f
	return f
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (c *compiler) call(call *ssa.CallCommon, in *ssa.Call) func(fr *frame) any {
	if b, ok := call.Value.(*ssa.Builtin); ok {
		ops := make([]opnd, len(call.Args))
		for i, a := range call.Args {
			ops[i] = c.op(a)
		}
		return func(fr *frame) any {
			as := make([]any, len(ops))
			for i := range ops {
				as[i] = fr.get(&ops[i])
			}
			return fr.w.builtin(fr, b, call, as)
		}
	}
	if sf := call.StaticCallee(); sf != nil && !call.IsInvoke() {
		if _, isClosure := call.Value.(*ssa.MakeClosure); !isClosure {
			ops := make([]opnd, len(call.Args))
			for i, a := range call.Args {
				ops[i] = c.op(a)
			}
			var info *fnInfo
			return func(fr *frame) any {
				var buf [6]any
				as := buf[:0]
				if len(ops) > len(buf) {
					as = make([]any, 0, len(ops))
				}
				for i := range ops {
					as = append(as, fr.get(&ops[i]))
				}
				if info == nil {
					info = fr.w.info(sf)
				}
				return fr.w.callInfo(fr, info, as, nil, false)
			}
		}
	}
	f := c.callee(call)
	return func(fr *frame) any {
		fn, args := f(fr)
		return fr.w.callClosure(fr, fn, args, false)
	}
}

func (w *W) callClosure(fr *frame, f *closure, args []any, isDefer bool) any {
	if f == nil {
		w.nilDeref()
	}
	if f.native != nil {
		return f.native(w, args)
	}
	if f.bi != nil {
		return w.builtinDyn(fr, f.bi, args, isDefer)
	}
	return w.callFn(fr, f.fn, args, f.env, isDefer)
}

const maxDepth = 20000

var skipInit = []string{"runtime", "errors", "internal/", "syscall", "os", "reflect", "sync", "time", "unsafe", "fmt", "crypto", "net", "math/rand", "os/", "vendor/", "runtime/", "sync/", "testing", "iter", "context"}

func initSkipped(path string) bool {
	if path == "internal/oserror" || path == "internal/bisect" {
		return false
	}
	for _, s := range skipInit {
		if path == s || strings.HasSuffix(s, "/") && strings.HasPrefix(path, s) {
			return true
		}
	}
	return false
}

func (w *W) callFn(caller *frame, fn *ssa.Function, args, env []any, isDefer bool) any {
	return w.callInfo(caller, w.info(fn), args, env, isDefer)
}

// fnInfo is what a worker knows about a function: its stand-in or its compiled code.
type fnInfo struct {
	fn    *ssa.Function
	model modelFn
	code  *fcode
}

func (w *W) info(fn *ssa.Function) *fnInfo {
	if i, ok := w.infos[fn]; ok {
		return i
	}
	i := &fnInfo{fn: fn, model: w.lookupModel(fn)}
	w.infos[fn] = i
	return i
}

func (w *W) callInfo(caller *frame, info *fnInfo, args, env []any, isDefer bool) any {
	fn := info.fn
	if info.model != nil {
		cp := append(make([]any, 0, len(args)), args...)
		if r := info.model(w, caller, cp); r != notHandled {
			return r
		}
	}
	code := info.code
	if code == nil {
		if fn.Blocks == nil {
			unsupported("function without body: %s", fn)
		}
		code = w.code(fn)
		info.code = code
	}
	if w.depth >= maxDepth {
		panic(pathAbort{"depth limit in " + fn.String()})
	}
	if r := w.race; r != nil {
		was := r.fn
		r.fn = code.name
		defer func() { r.fn = was }()
	}
	w.depth++
	code.hits++
	sp := w.sp
	var regs []any
	if sp+code.nregs <= len(w.slab) {
		regs = w.slab[sp : sp+code.nregs : sp+code.nregs]
		w.sp += code.nregs
	} else {
		regs = make([]any, code.nregs)
	}
	fr := frame{w: w, code: code, regs: regs, caller: caller, isDefer: isDefer}
	for i, r := range code.params {
		regs[r] = args[i]
	}
	for i, r := range code.free {
		regs[r] = env[i]
	}
	if code.hasDefer {
		d := w.depth
		w.runDeferring(&fr)
		w.depth = d
	} else {
		w.run(&fr, 0)
	}
	w.depth--
	w.sp = sp
	return fr.result
}

func (w *W) run(fr *frame, start int) {
	blocks := fr.code.blocks
	cur := start
	var tmp [8]any
	for {
		b := &blocks[cur]
		w.steps += b.n
		if w.steps > w.maxSteps {
			panic(pathAbort{"step limit in " + fr.code.name})
		}
		if w.eng.lowMemory.Load() && w.x != nil {
			panic(engineErr{"out of memory in " + fr.code.name})
		}
		if b.phis != nil {
			ms := b.phis[fr.prev]
			if len(ms) == 1 {
				fr.regs[ms[0].dst] = fr.get(&ms[0].src)
			} else if len(ms) > 1 {
				vals := tmp[:0]
				for i := range ms {
					vals = append(vals, fr.get(&ms[i].src))
				}
				for i := range ms {
					fr.regs[ms[i].dst] = vals[i]
				}
			}
		}
		for _, f := range b.instrs {
			f(fr)
		}
		n := b.term(fr)
		if n < 0 {
			return
		}
		fr.prev = cur
		cur = n
	}
}

func (w *W) runDeferring(fr *frame) {
	if !w.protect(fr, func() { w.run(fr, 0) }) {
		return
	}
	// panicking: run the deferred calls, which may recover
	w.runDefers(fr)
	// recovered
	if fr.code.recover >= 0 {
		fr.prev = -1
		if !w.protect(fr, func() { w.run(fr, fr.code.recover) }) {
			return
		}
		w.runDefers(fr)
		return
	}
	fr.result = zeroResult(fr.code.fn)
}

func zeroResult(fn *ssa.Function) any {
	r := fn.Signature.Results()
	if r.Len() == 0 {
		return nil
	}
	return zero(r)
}

// protect runs f; it reports whether a target panic is now in flight in fr.
func (w *W) protect(fr *frame, f func()) (panicked bool) {
	depth, sp := w.depth, w.sp
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(*targetPanic)
		if !ok {
			panic(r)
		}
		w.depth, w.sp = depth, sp
		fr.panicking = tp
		panicked = true
	}()
	f()
	return false
}

// runDefers runs pending deferred calls; re-panics if still panicking afterwards.
func (w *W) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		w.protect(fr, func() { w.callClosure(fr, d.fn, d.args, true) })
	}
	if fr.panicking != nil {
		p := fr.panicking
		panic(p)
	}
}

func (w *W) doRecover(fr *frame) any {
	if fr != nil && fr.isDefer && fr.caller != nil && fr.caller.panicking != nil {
		p := fr.caller.panicking
		fr.caller.panicking = nil
		return p.v
	}
	return iface{}
}

func (w *W) builtinDyn(fr *frame, b *ssa.Builtin, args []any, isDefer bool) any {
	switch b.Name() {
	case "recover":
		// defer recover() does not recover
		return iface{}
	case "panic":
		panic(&targetPanic{v: toIface(args[0])})
	case "close":
		q := args[0].(*chanv)
		q.closed = true
		w.onUndo(func() { q.closed = false })
		return nil
	case "print", "println":
		return nil
	case "delete":
		if m, _ := args[0].(*hmap); m != nil {
			w.mapDelete(b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Map).Key(), m, args[1])
		}
		return nil
	}
	unsupported("builtin %s as value", b.Name())
	return nil
}

func (w *W) builtin(fr *frame, b *ssa.Builtin, call *ssa.CallCommon, args []any) any {
	switch b.Name() {
	case "append":
		s, _ := args[0].([]any)
		var add []any
		switch a := args[1].(type) {
		case []any:
			add = a
		case string, *symstr:
			add = strBytes(a)
		case nil:
		default:
			unsupported("append of %T", a)
		}
		if len(add) == 0 {
			return s
		}
		if w.race != nil {
			w.touchElems(add)
		}
		n := len(s) + len(add)
		if n <= cap(s) {
			r := s[:n]
			tmp := add
			if len(s) > 0 && len(add) > 0 {
				tmp = append([]any(nil), add...)
			}
			for i, v := range tmp {
				w.set(&r[len(s)+i], copyVal(v))
			}
			return r
		}
		nc := 2 * cap(s)
		if cap(s) >= 256 {
			nc = cap(s) + (cap(s)+3*256)/4
		}
		if nc < n {
			nc = n
		}
		if nc < 4 && n <= 4 {
			// small slices: Go rounds up to size classes; keep exact doubling
			if nc < n {
				nc = n
			}
		}
		r := make([]any, n, nc)
		if w.race != nil {
			w.touchElems(s)
		}
		copy(r, s)
		for i, v := range add {
			r[len(s)+i] = copyVal(v)
		}
		if nc > n {
			z := zero(call.Args[0].Type().Underlying().(*types.Slice).Elem())
			full := r[:nc]
			for i := n; i < nc; i++ {
				full[i] = copyVal(z)
			}
		}
		return r
	case "copy":
		dst, _ := args[0].([]any)
		var src []any
		switch a := args[1].(type) {
		case []any:
			src = a
		case string, *symstr:
			src = strBytes(a)
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		if w.race != nil {
			w.touchElems(src[:n])
		}
		tmp := append([]any(nil), src[:n]...)
		for i, v := range tmp {
			w.store(&dst[i], copyVal(v))
		}
		return uint64(n)
	case "len":
		switch v := args[0].(type) {
		case string, *symstr:
			return uint64(strLen(v))
		case []any:
			return uint64(len(v))
		case *hmap:
			if v == nil {
				return uint64(0)
			}
			w.touch(v, false, false)
			return uint64(v.n)
		case arrayv:
			return uint64(len(v))
		case *any:
			return uint64(len((*v).(arrayv)))
		case *chanv:
			if v == nil {
				return uint64(0)
			}
			return uint64(len(v.buf))
		case nil:
			return uint64(0)
		}
	case "cap":
		switch v := args[0].(type) {
		case []any:
			return uint64(cap(v))
		case arrayv:
			return uint64(len(v))
		case *any:
			return uint64(len((*v).(arrayv)))
		case *chanv:
			return uint64(v.cap)
		}
	case "delete":
		m, _ := args[0].(*hmap)
		if m != nil {
			w.mapDelete(call.Args[0].Type().Underlying().(*types.Map).Key(), m, args[1])
		}
		return nil
	case "clear":
		switch v := args[0].(type) {
		case *hmap:
			if v != nil {
				kt := call.Args[0].Type().Underlying().(*types.Map).Key()
				for i := range v.keys {
					if !v.dead[i] {
						w.mapDelete(kt, v, v.keys[i])
					}
				}
			}
		case []any:
			et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range v {
				w.store(&v[i], zero(et))
			}
		}
		return nil
	case "panic":
		panic(&targetPanic{v: toIface(args[0])})
	case "recover":
		return w.doRecover(fr)
	case "print", "println":
		return nil
	case "close":
		return w.builtinDyn(fr, b, args, false)
	case "min", "max":
		t := call.Args[0].Type()
		bt := t.Underlying().(*types.Basic)
		r := args[0]
		for _, a := range args[1:] {
			var less any
			switch {
			case bt.Info()&types.IsString != 0:
				less = w.strLess(a, r)
			case bt.Info()&types.IsFloat != 0:
				less = a.(float64) < r.(float64)
			default:
				op := tUlt
				if isSigned(bt) {
					op = tSlt
				}
				less = simp(w.ctx.cmp(op, w.term(a, intWidth(bt)), w.term(r, intWidth(bt))))
			}
			if w.truth(less) == (b.Name() == "min") {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*any); ok && p == nil {
			w.runtimePanic(fmt.Sprintf("value method %v.%v called using nil *%v pointer", args[1], args[2], args[1]))
		}
		return args[0]
	case "SliceData":
		return slicedata{args[0].([]any)}
	case "StringData":
		return slicedata{strBytes(args[0])}
	case "String":
		n := w.intVal(args[1], types.Typ[types.Int])
		if n == 0 {
			return ""
		}
		return mkstr(args[0].(slicedata).s[:n])
	case "Slice":
		n := w.intVal(args[1], types.Typ[types.Int])
		if sd, ok := args[0].(slicedata); ok {
			return sd.s[:n:n]
		}
		if n == 0 {
			return []any(nil)
		}
	}
	unsupported("builtin %s(%T)", b.Name(), args)
	return nil
}
