package main

// Hash-consed bit-vector/boolean terms with a small simplifier.  w==0 is Bool.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type top uint8

const (
	tVar top = iota
	tConst
	tNot
	tAnd
	tOr
	tIte
	tEq
	tUlt
	tUle
	tSlt
	tSle
	tAdd
	tSub
	tMul
	tUdiv
	tSdiv
	tUrem
	tSrem
	tShl
	tLshr
	tAshr
	tBand
	tBor
	tBxor
	tBnot
	tBneg
	tZext
	tSext
	tTrunc
)

var topName = map[top]string{
	tNot: "not", tAnd: "and", tOr: "or", tIte: "ite", tEq: "=", tUlt: "bvult", tUle: "bvule", tSlt: "bvslt", tSle: "bvsle",
	tAdd: "bvadd", tSub: "bvsub", tMul: "bvmul", tUdiv: "bvudiv", tSdiv: "bvsdiv", tUrem: "bvurem", tSrem: "bvsrem",
	tShl: "bvshl", tLshr: "bvlshr", tAshr: "bvashr", tBand: "bvand", tBor: "bvor", tBxor: "bvxor", tBnot: "bvnot", tBneg: "bvneg",
}

type Term struct {
	op      top
	w       uint8
	a, b, c *Term
	n       uint64 // constant, or variable index
	id      int32
	anon    *Term // single-variable terms: same term over variable 0 of that width
	vars    []int32
	size    int32
	h       uint32 // structural hash, independent of creation order
}

type tkey struct {
	op      top
	w       uint8
	a, b, c int32
	n       uint64
}

type tctx struct {
	tab  map[tkey]*Term
	next int32
	t, f *Term
}

func newCtx() *tctx {
	c := &tctx{tab: map[tkey]*Term{}, next: 1}
	c.t = c.mk(tConst, 0, nil, nil, nil, 1)
	c.f = c.mk(tConst, 0, nil, nil, nil, 0)
	return c
}

func tid(t *Term) int32 {
	if t == nil {
		return 0
	}
	return t.id
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) == 1 && len(b) == 1 && a[0] == b[0] {
		return a
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case i == len(a):
			out = append(out, b[j])
			j++
		case j == len(b):
			out = append(out, a[i])
			i++
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		case a[i] > b[j]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func (c *tctx) mk(op top, w uint8, a, b, d *Term, n uint64) *Term {
	k := tkey{op, w, tid(a), tid(b), tid(d), n}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: d, n: n, id: c.next, size: 1}
	c.next++
	if op == tVar {
		t.vars = []int32{int32(n)}
	}
	for _, x := range []*Term{a, b, d} {
		if x != nil {
			t.vars = mergeVars(t.vars, x.vars)
			t.size += x.size
			if t.size > 1<<28 {
				t.size = 1 << 28
			}
		}
	}
	h := uint64(op)*0x9e3779b97f4a7c15 + uint64(w)*0x85ebca6b + n*0xc2b2ae3d27d4eb4f
	switch op {
	case tAnd, tOr, tEq, tAdd, tMul, tBand, tBor, tBxor:
		h += uint64(a.h|1)*uint64(b.h|1) + uint64(a.h) + uint64(b.h)
	default:
		for i, x := range []*Term{a, b, d} {
			if x != nil {
				h = h*31 + uint64(x.h)*uint64(2*i+3)
			}
		}
	}
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	t.h = uint32(h >> 32)
	c.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sext(n uint64, w uint8) int64 {
	s := 64 - uint(w)
	return int64(n<<s) >> s
}

func (c *tctx) konst(n uint64, w uint8) *Term { return c.mk(tConst, w, nil, nil, nil, n&mask(w)) }
func (c *tctx) variable(i int32, w uint8) *Term {
	return c.mk(tVar, w, nil, nil, nil, uint64(i))
}
func (c *tctx) boolc(b bool) *Term {
	if b {
		return c.t
	}
	return c.f
}

func (t *Term) isConst() bool { return t.op == tConst }

func (c *tctx) not(a *Term) *Term {
	switch {
	case a == c.t:
		return c.f
	case a == c.f:
		return c.t
	case a.op == tNot:
		return a.a
	}
	return c.mk(tNot, 0, a, nil, nil, 0)
}

func (c *tctx) and(a, b *Term) *Term {
	switch {
	case a == c.f || b == c.f:
		return c.f
	case a == c.t:
		return b
	case b == c.t, a == b:
		return a
	case a == c.not(b):
		return c.f
	}
	return c.mk(tAnd, 0, a, b, nil, 0)
}

func (c *tctx) or(a, b *Term) *Term {
	switch {
	case a == c.t || b == c.t:
		return c.t
	case a == c.f:
		return b
	case b == c.f, a == b:
		return a
	case a == c.not(b):
		return c.t
	}
	return c.mk(tOr, 0, a, b, nil, 0)
}

func (c *tctx) ite(i, a, b *Term) *Term {
	switch {
	case i == c.t || a == b:
		return a
	case i == c.f:
		return b
	}
	if a.w == 0 {
		switch {
		case a == c.t && b == c.f:
			return i
		case a == c.f && b == c.t:
			return c.not(i)
		case a == c.t:
			return c.or(i, b)
		case a == c.f:
			return c.and(c.not(i), b)
		case b == c.t:
			return c.or(c.not(i), a)
		case b == c.f:
			return c.and(i, a)
		}
	}
	return c.mk(tIte, a.w, i, a, b, 0)
}

func (c *tctx) eq(a, b *Term) *Term {
	if a == b {
		return c.t
	}
	if a.isConst() && b.isConst() {
		return c.f
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b == c.t {
			return a
		}
		if b == c.f {
			return c.not(a)
		}
	}
	if b.isConst() {
		switch a.op {
		case tZext:
			if b.n&^mask(a.a.w) != 0 {
				return c.f
			}
			return c.eq(a.a, c.konst(b.n, a.a.w))
		case tIte:
			if a.b.isConst() || a.c.isConst() {
				return c.ite(a.a, c.eq(a.b, b), c.eq(a.c, b))
			}
		}
	} else if a.op == tZext && b.op == tZext && a.a.w == b.a.w {
		return c.eq(a.a, b.a)
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(tEq, 0, a, b, nil, 0)
}

func (c *tctx) cmp(op top, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		var r bool
		switch op {
		case tUlt:
			r = a.n < b.n
		case tUle:
			r = a.n <= b.n
		case tSlt:
			r = sext(a.n, a.w) < sext(b.n, b.w)
		case tSle:
			r = sext(a.n, a.w) <= sext(b.n, b.w)
		}
		return c.boolc(r)
	}
	if a == b {
		return c.boolc(op == tUle || op == tSle)
	}
	// zero-extended values compared with constants: narrow.
	if a.op == tZext && b.isConst() {
		m := mask(a.a.w)
		if op == tSlt || op == tSle {
			if sext(b.n, b.w) < 0 {
				return c.f
			}
			op -= 2 // unsigned
		}
		if b.n > m {
			return c.t
		}
		return c.cmp(op, a.a, c.konst(b.n, a.a.w))
	}
	if b.op == tZext && a.isConst() {
		m := mask(b.a.w)
		if op == tSlt || op == tSle {
			if sext(a.n, a.w) < 0 {
				return c.t
			}
			op -= 2
		}
		if a.n > m {
			return c.f
		}
		return c.cmp(op, c.konst(a.n, b.a.w), b.a)
	}
	if a.op == tZext && b.op == tZext && a.a.w == b.a.w {
		if op == tSlt || op == tSle {
			op -= 2
		}
		return c.cmp(op, a.a, b.a)
	}
	switch op {
	case tUlt:
		if b.isConst() && b.n == 0 || a.isConst() && a.n == mask(a.w) {
			return c.f
		}
	case tUle:
		if a.isConst() && a.n == 0 || b.isConst() && b.n == mask(b.w) {
			return c.t
		}
	}
	// normal form: only strict comparisons with negation
	switch op {
	case tUle:
		return c.not(c.mk(tUlt, 0, b, a, nil, 0))
	case tSle:
		return c.not(c.mk(tSlt, 0, b, a, nil, 0))
	}
	return c.mk(op, 0, a, b, nil, 0)
}

func evalBin(op top, x, y uint64, w uint8) uint64 {
	m := mask(w)
	var r uint64
	switch op {
	case tAdd:
		r = x + y
	case tSub:
		r = x - y
	case tMul:
		r = x * y
	case tUdiv:
		if y == 0 {
			return m
		}
		r = x / y
	case tUrem:
		if y == 0 {
			return x
		}
		r = x % y
	case tSdiv:
		if y == 0 {
			if sext(x, w) < 0 {
				return 1
			}
			return m
		}
		if sext(y, w) == -1 {
			r = -x
		} else {
			r = uint64(sext(x, w) / sext(y, w))
		}
	case tSrem:
		if y == 0 {
			return x
		}
		if sext(y, w) == -1 {
			r = 0
		} else {
			r = uint64(sext(x, w) % sext(y, w))
		}
	case tShl:
		if y >= uint64(w) {
			r = 0
		} else {
			r = x << y
		}
	case tLshr:
		if y >= uint64(w) {
			r = 0
		} else {
			r = x >> y
		}
	case tAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		r = uint64(sext(x, w) >> y)
	case tBand:
		r = x & y
	case tBor:
		r = x | y
	case tBxor:
		r = x ^ y
	}
	return r & m
}

func (c *tctx) bin(op top, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return c.konst(evalBin(op, a.n, b.n, w), w)
	}
	if b.isConst() {
		switch {
		case b.n == 0 && (op == tAdd || op == tSub || op == tBor || op == tBxor || op == tShl || op == tLshr || op == tAshr):
			return a
		case b.n == 0 && (op == tBand || op == tMul):
			return b
		case b.n == mask(w) && op == tBand:
			return a
		}
		// operation on a table lookup: push inside when all leaves are constant
		if a.op == tIte && a.b.isConst() {
			return c.ite(a.a, c.bin(op, a.b, b), c.bin(op, a.c, b))
		}
	}
	if a.isConst() && a.n == 0 && (op == tAdd || op == tBor || op == tBxor) {
		return b
	}
	return c.mk(op, w, a, b, nil, 0)
}

func (c *tctx) bnot(a *Term) *Term {
	if a.isConst() {
		return c.konst(^a.n, a.w)
	}
	return c.mk(tBnot, a.w, a, nil, nil, 0)
}

func (c *tctx) bneg(a *Term) *Term {
	if a.isConst() {
		return c.konst(-a.n, a.w)
	}
	return c.mk(tBneg, a.w, a, nil, nil, 0)
}

func (c *tctx) zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.konst(a.n, w)
	}
	if a.op == tZext {
		return c.mk(tZext, w, a.a, nil, nil, 0)
	}
	if a.op == tIte && a.b.isConst() {
		return c.ite(a.a, c.zext(a.b, w), c.zext(a.c, w))
	}
	return c.mk(tZext, w, a, nil, nil, 0)
}

func (c *tctx) sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.konst(uint64(sext(a.n, a.w)), w)
	}
	if a.op == tZext {
		return c.mk(tZext, w, a.a, nil, nil, 0)
	}
	return c.mk(tSext, w, a, nil, nil, 0)
}

func (c *tctx) trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.konst(a.n, w)
	}
	if a.op == tZext || a.op == tSext {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return c.trunc(a.a, w)
		}
		if a.op == tZext {
			return c.zext(a.a, w)
		}
		return c.sext(a.a, w)
	}
	if a.op == tIte && a.b.isConst() {
		return c.ite(a.a, c.trunc(a.b, w), c.trunc(a.c, w))
	}
	return c.mk(tTrunc, w, a, nil, nil, 0)
}

// eval evaluates t under an assignment of variables.
func (t *Term) eval(m map[int32]uint64, memo map[int32]uint64) uint64 {
	switch t.op {
	case tConst:
		return t.n
	case tVar:
		return m[int32(t.n)] & mask1(t.w)
	}
	if v, ok := memo[t.id]; ok {
		return v
	}
	var r uint64
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case tNot:
		r = 1 - t.a.eval(m, memo)
	case tAnd:
		r = t.a.eval(m, memo) & t.b.eval(m, memo)
	case tOr:
		r = t.a.eval(m, memo) | t.b.eval(m, memo)
	case tIte:
		if t.a.eval(m, memo) != 0 {
			r = t.b.eval(m, memo)
		} else {
			r = t.c.eval(m, memo)
		}
	case tEq:
		r = b2(t.a.eval(m, memo) == t.b.eval(m, memo))
	case tUlt:
		r = b2(t.a.eval(m, memo) < t.b.eval(m, memo))
	case tUle:
		r = b2(t.a.eval(m, memo) <= t.b.eval(m, memo))
	case tSlt:
		r = b2(sext(t.a.eval(m, memo), t.a.w) < sext(t.b.eval(m, memo), t.b.w))
	case tSle:
		r = b2(sext(t.a.eval(m, memo), t.a.w) <= sext(t.b.eval(m, memo), t.b.w))
	case tBnot:
		r = ^t.a.eval(m, memo) & mask(t.w)
	case tBneg:
		r = -t.a.eval(m, memo) & mask(t.w)
	case tZext:
		r = t.a.eval(m, memo)
	case tSext:
		r = uint64(sext(t.a.eval(m, memo), t.a.w)) & mask(t.w)
	case tTrunc:
		r = t.a.eval(m, memo) & mask(t.w)
	default:
		r = evalBin(t.op, t.a.eval(m, memo), t.b.eval(m, memo), t.w)
	}
	memo[t.id] = r
	return r
}

func mask1(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

// anonymize returns the single-variable term over variable -1.
func (c *tctx) anonymize(t *Term) *Term {
	if t.anon != nil {
		return t.anon
	}
	if len(t.vars) == 0 {
		return t
	}
	var r *Term
	if t.op == tVar {
		r = c.mk(tVar, t.w, nil, nil, nil, 1<<30)
	} else {
		var a, b, d *Term
		if t.a != nil {
			a = c.anonymize(t.a)
		}
		if t.b != nil {
			b = c.anonymize(t.b)
		}
		if t.c != nil {
			d = c.anonymize(t.c)
		}
		r = c.mk(t.op, t.w, a, b, d, t.n)
	}
	t.anon = r
	r.anon = r
	return r
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func varName(i int32) string { return fmt.Sprintf("v%d", i) }

// smtPrinter renders terms, naming shared subterms with define-fun.
type smtPrinter struct {
	sb   *strings.Builder
	refs map[int32]int
	name map[int32]string
	decl map[int32]bool
}

func newPrinter() *smtPrinter {
	return &smtPrinter{sb: &strings.Builder{}, refs: map[int32]int{}, name: map[int32]string{}, decl: map[int32]bool{}}
}

func (p *smtPrinter) count(t *Term) {
	p.refs[t.id]++
	if p.refs[t.id] > 1 {
		return
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			p.count(x)
		}
	}
}

func (p *smtPrinter) declare(t *Term, seen map[int32]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == tVar && !p.decl[int32(t.n)] {
		p.decl[int32(t.n)] = true
		fmt.Fprintf(p.sb, "(declare-const %s %s)\n", varName(int32(t.n)), sortOf(t.w))
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			p.declare(x, seen)
		}
	}
}

func (p *smtPrinter) str(t *Term) string {
	if n, ok := p.name[t.id]; ok {
		return n
	}
	s := p.raw(t)
	if p.refs[t.id] > 1 && t.op != tVar && t.op != tConst && t.size > 6 {
		n := fmt.Sprintf("d%d", t.id)
		fmt.Fprintf(p.sb, "(define-fun %s () %s %s)\n", n, sortOf(t.w), s)
		p.name[t.id] = n
		return n
	}
	return s
}

func (p *smtPrinter) raw(t *Term) string {
	switch t.op {
	case tVar:
		return varName(int32(t.n))
	case tConst:
		if t.w == 0 {
			if t.n != 0 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", t.w/4, t.n)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.n, t.w)
	case tZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, p.str(t.a))
	case tSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, p.str(t.a))
	case tTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, p.str(t.a))
	}
	s := "(" + topName[t.op]
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + p.str(x)
		}
	}
	return s + ")"
}

// script renders declarations and assertions for the given constraints.
func smtScript(cs []*Term) string {
	p := newPrinter()
	seen := map[int32]bool{}
	for _, t := range cs {
		p.declare(t, seen)
	}
	for _, t := range cs {
		p.count(t)
	}
	for _, t := range cs {
		s := p.str(t)
		fmt.Fprintf(p.sb, "(assert %s)\n", s)
	}
	return p.sb.String()
}

func sortIDs(ids []int32) {
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
}

var _ = bits.Len
