package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// engine is the shared, read-only part: the program under check.
type engine struct {
	prog  *ssa.Program
	fset  *token.FileSet
	pkgs  map[string]*ssa.Package
	order []*ssa.Package // init order (dependencies first)

	lowMemory atomic.Bool // set while the heap is too large

	canonMu sync.Mutex
	canonT  typeutil.Map
	metMu   sync.Mutex

	base   string // import path prefix of the harness packages
	module string // module path of the code under check
	tier   string
	known  map[string]bool // recorded known findings
	z3     string
}

func (e *engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := e.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}

func (e *engine) fn(pkg, name string) *ssa.Function {
	p := e.pkgs[pkg]
	if p == nil {
		unsupported("package %s is not loaded", pkg)
	}
	f := p.Func(name)
	if f == nil {
		unsupported("no function %s.%s", pkg, name)
	}
	return f
}

func (e *engine) global(pkg, name string) *ssa.Global {
	p := e.pkgs[pkg]
	if p == nil {
		return nil
	}
	g, _ := p.Members[name].(*ssa.Global)
	return g
}

func (e *engine) typ(pkg, name string) types.Type {
	p := e.pkgs[pkg]
	if p == nil {
		unsupported("package %s is not loaded", pkg)
	}
	t := p.Type(name)
	if t == nil {
		unsupported("no type %s.%s", pkg, name)
	}
	return t.Type()
}

func (e *engine) canon(t types.Type) types.Type {
	e.canonMu.Lock()
	defer e.canonMu.Unlock()
	if c := e.canonT.At(t); c != nil {
		return c.(types.Type)
	}
	e.canonT.Set(t, t)
	return t
}

type ndRec struct {
	v   *Term
	con uint64 // used when v is nil
}

type obsRec struct {
	label string
	val   any // string value
}

// W is one worker: interpreter state plus the state of the path being executed.
type W struct {
	id  int
	eng *engine
	ctx *tctx
	sol *solver

	codes   map[*ssa.Function]*fcode
	globals map[*ssa.Global]*any
	canonC  map[types.Type]types.Type
	impl    map[implKey]bool
	meth    map[methKey]*ssa.Function
	infos   map[*ssa.Function]*fnInfo

	slab            []any
	sp, depth       int
	steps, maxSteps int64
	undo            []undoRec
	undoOn          bool
	race            *racer // set while a call is executed for its accesses

	// path state
	prefix   []uint32
	decs     []uint32
	pc       []*Term
	known    map[*Term]bool // literals decided on this path
	vsets    map[int32]*varSet
	byVar    map[int32][]*Term
	model    map[int32]uint64
	nd       []ndRec
	nvars    int32
	obs      []obsRec
	mapOrder bool
	asserts  int
	pathViol []*violation
	forked   int
	reached  []string

	qcache map[string]qres

	env *osEnv

	x *explorer

	stats wstats
}

type wstats struct {
	paths, pruned, aborted    int64
	branches, forks, forcedBr int64
	rangedBr                  int64
	queries, cacheHits        int64
	assertQ, assertConst      int64
	steps                     int64
	assertTime, fs            time.Duration
	maxDecs, maxVars, maxPC   int
	reach                     map[string]int64
	base                      *wstats // at the start of the current entry
}

type qres struct {
	v verdict
	m []uint64 // values, in order of the key's variables
}

type violation struct {
	Msg    string   `json:"msg"`
	Values []uint64 `json:"values"`
	Kind   string   `json:"kind"` // assert, panic, hang
	Where  string   `json:"where,omitempty"`
	obs    []string
}

type workItem struct {
	prefix []uint32
	model  map[int32]uint64
}

type explorer struct {
	eng         *engine
	entry       *ssa.Function
	arg         int
	mu          sync.Mutex
	cond        *sync.Cond
	queue       []workItem
	active      int
	stop        bool
	why         string
	deadline    time.Time
	maxPaths    int64
	paths       int64
	viols       []*violation
	abortedAt   []*violation
	errs        []string // paths the encoding could not follow
	errAt       []*violation
	samples     []sample
	nsample     int64
	wantSamples int
	workers     []*W
	seed        uint64
	maxSteps    int64
	incomplete  int32
	pruneCount  int64
}

type sample struct {
	Values []uint64 `json:"values"`
	Obs    []string `json:"obs"`
}

func newW(eng *engine, id int) *W {
	w := &W{
		id: id, eng: eng, ctx: newCtx(),
		codes: map[*ssa.Function]*fcode{}, globals: map[*ssa.Global]*any{}, canonC: map[types.Type]types.Type{},
		impl: map[implKey]bool{}, meth: map[methKey]*ssa.Function{}, infos: map[*ssa.Function]*fnInfo{},
		slab: make([]any, 1<<18), maxSteps: 1 << 62,
		qcache: map[string]qres{},
	}
	w.stats.reach = map[string]int64{}
	w.sol = newSolver(eng.z3, "-in")
	w.resetPath()
	return w
}

func (w *W) resetPath() {
	w.prefix, w.decs = nil, w.decs[:0]
	w.pc = w.pc[:0]
	w.known = map[*Term]bool{}
	w.vsets = map[int32]*varSet{}
	w.byVar = map[int32][]*Term{}
	w.model = map[int32]uint64{}
	w.nd, w.nvars, w.obs = nil, 0, nil
	w.mapOrder = false
	w.asserts = 0
	w.pathViol = nil
	w.reached = nil
	w.sp, w.depth, w.steps = 0, 0, 0
	w.forked = 0
	w.env = newOSEnv()
}

func (w *W) canon(t types.Type) types.Type {
	if c, ok := w.canonC[t]; ok {
		return c
	}
	c := w.eng.canon(t)
	w.canonC[t] = c
	return c
}

func (w *W) runtimeErr(msg string) iface {
	t := w.canon(w.eng.typ(w.eng.base+"/nd", "RuntimeError"))
	return iface{t, structv{msg}}
}

// permute reorders map iteration when the harness asked for it.
func (w *W) permute(ord []int) {
	if !w.mapOrder || len(ord) < 2 {
		return
	}
	// a symbolic rotation and an optional reversal of the insertion order
	k := w.choose(2)
	if k == 1 {
		for i, j := 0, len(ord)-1; i < j; i, j = i+1, j-1 {
			ord[i], ord[j] = ord[j], ord[i]
		}
	}
	if len(ord) > 2 {
		n := len(ord)
		if n > 4 {
			n = 4
		}
		r := w.choose(n)
		cp := append([]int(nil), ord...)
		for i := range ord {
			ord[i] = cp[(i+r)%len(cp)]
		}
	}
}

// ---- symbolic values

func (w *W) freshVar(width uint8) *Term {
	v := w.ctx.variable(w.nvars, width)
	w.nvars++
	w.nd = append(w.nd, ndRec{v: v})
	return v
}

// choose returns one of n values, exploring all.
func (w *W) choose(n int) int {
	if n <= 1 {
		w.nd = append(w.nd, ndRec{})
		return 0
	}
	if n > 256 {
		unsupported("choice among %d", n)
	}
	v := w.freshVar(8)
	w.assume(w.ctx.cmp(tUlt, v, w.ctx.konst(uint64(n), 8)))
	for i := 0; i < n-1; i++ {
		if w.branch(w.ctx.eq(v, w.ctx.konst(uint64(i), 8))) {
			return i
		}
	}
	return n - 1
}

func (w *W) addPC(t *Term) {
	if t.op == tAnd {
		w.addPC(t.a)
		w.addPC(t.b)
		return
	}
	w.addLit(t)
}

func (w *W) addLit(t *Term) {
	if t == w.ctx.t || w.known[t] {
		return
	}
	w.known[t] = true
	w.pc = append(w.pc, t)
	for _, v := range t.vars {
		w.byVar[v] = append(w.byVar[v], t)
	}
}

// assume adds a constraint; an impossible one ends the path.
func (w *W) assume(t *Term) {
	if t == w.ctx.t || w.known[t] {
		return
	}
	if t == w.ctx.f {
		panic(pathAbort{"assume"})
	}
	if len(w.decs) < len(w.prefix) {
		// Feasible by construction: the path was explored beyond this point.
		w.addPC(t)
		if len(w.model) > 0 {
			return
		}
		return
	}
	if t.eval(w.model, map[int32]uint64{}) != 0 {
		w.addPC(t)
		return
	}
	v, m := w.query(t)
	if v != vSat {
		if v == vUnknown {
			panic(engineErr{"solver gave no verdict on an assumption"})
		}
		panic(pathAbort{"assume"})
	}
	w.mergeModel(m)
	w.addPC(t)
}

func (w *W) mergeModel(m map[int32]uint64) {
	n := make(map[int32]uint64, len(w.model)+len(m))
	for k, v := range w.model {
		n[k] = v
	}
	for k, v := range m {
		n[k] = v
	}
	w.model = n
}

// branch decides a symbolic condition on this path, forking the other side if feasible.
func (w *W) branch(t *Term) bool {
	if t == w.ctx.t {
		return true
	}
	if t == w.ctx.f {
		return false
	}
	if w.known[t] {
		return true
	}
	nt := w.ctx.not(t)
	if w.known[nt] {
		return false
	}
	w.stats.branches++
	if v, ok := w.ranged(t); ok {
		w.stats.rangedBr++
		if confirmRanges {
			wrong := nt
			if !v {
				wrong = t
			}
			if got, _ := w.query(wrong); got != vUnsat {
				panic(engineErr{"a range decided a branch the solver decides otherwise"})
			}
		}
		w.known[t] = v
		w.known[nt] = !v
		return v
	}
	h := t.h << 2
	if p := len(w.decs); p < len(w.prefix) {
		d := w.prefix[p]
		if d&^3 != h {
			panic(engineErr{fmt.Sprintf("re-execution diverged at decision %d", p)})
		}
		w.decs = append(w.decs, d)
		taken := d&1 != 0
		side := t
		if !taken {
			side = nt
		}
		if d&2 != 0 {
			// implied by what is there
			w.known[side] = true
		} else {
			w.addPC(side)
		}
		return taken
	}
	taken := t.eval(w.model, map[int32]uint64{}) != 0
	side, other := t, nt
	if !taken {
		side, other = nt, t
	}
	v, m := w.query(other)
	if v == vUnknown {
		panic(engineErr{"solver gave no verdict on a branch condition"})
	}
	d := h
	if taken {
		d |= 1
	}
	if v == vUnsat {
		w.stats.forcedBr++
		w.decs = append(w.decs, d|2)
		w.known[side] = true
		return taken
	}
	w.stats.forks++
	w.forked++
	p := make([]uint32, len(w.decs)+1)
	copy(p, w.decs)
	p[len(w.decs)] = d ^ 1
	nm := make(map[int32]uint64, len(w.model)+len(m))
	for k, v := range w.model {
		nm[k] = v
	}
	for k, v := range m {
		nm[k] = v
	}
	if w.x == nil {
		panic(engineErr{"symbolic branch outside exploration"})
	}
	w.x.push(workItem{p, nm})
	w.decs = append(w.decs, d)
	w.addPC(side)
	return taken
}

// concretize picks every possible value of t in turn.
func (w *W) concretize(t *Term) uint64 {
	for {
		var v uint64
		if p := len(w.decs); p+1 < len(w.prefix) {
			v = uint64(w.prefix[p]) | uint64(w.prefix[p+1])<<32
		} else {
			v = t.eval(w.model, map[int32]uint64{})
		}
		w.decs = append(w.decs, uint32(v), uint32(v>>32))
		if w.branch(w.ctx.eq(t, w.ctx.konst(v, t.w))) {
			return v
		}
	}
}

// slice gives the path constraints that share variables with t, transitively.
func (w *W) slice(t *Term) ([]*Term, []int32) {
	seenV := map[int32]bool{}
	seenT := map[*Term]bool{}
	var cs []*Term
	var vs []int32
	stack := append([]int32(nil), t.vars...)
	for len(stack) > 0 {
		v := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seenV[v] {
			continue
		}
		seenV[v] = true
		vs = append(vs, v)
		for _, c := range w.byVar[v] {
			if !seenT[c] {
				seenT[c] = true
				cs = append(cs, c)
				stack = append(stack, c.vars...)
			}
		}
	}
	return cs, vs
}

// query decides pc ∧ t; the model covers the variables connected to t.
func (w *W) query(t *Term) (verdict, map[int32]uint64) {
	cs, vs := w.slice(t)
	if len(vs) == 1 {
		// one variable: decide the query over an anonymous variable, which makes the verdict reusable
		x := vs[0]
		anon := make([]*Term, 0, len(cs)+1)
		ids := make([]int32, 0, len(cs)+1)
		for _, c := range append(cs, t) {
			a := w.ctx.anonymize(c)
			anon = append(anon, a)
			ids = append(ids, a.id)
		}
		sortIDs(ids)
		key := idKey(ids, 'a')
		if r, ok := w.qcache[key]; ok {
			w.stats.cacheHits++
			if r.v == vSat {
				return r.v, map[int32]uint64{x: r.m[0]}
			}
			return r.v, nil
		}
		v, m := w.solve(anon)
		r := qres{v: v}
		if v == vSat {
			r.m = []uint64{m[1<<30]}
		}
		w.qcache[key] = r
		if v == vSat {
			return v, map[int32]uint64{x: m[1<<30]}
		}
		return v, nil
	}
	all := append(cs, t)
	ids := make([]int32, len(all))
	for i, c := range all {
		ids[i] = c.id
	}
	sortIDs(ids)
	key := idKey(ids, 'm')
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	if r, ok := w.qcache[key]; ok {
		w.stats.cacheHits++
		if r.v != vSat {
			return r.v, nil
		}
		m := map[int32]uint64{}
		for i, x := range vs {
			m[x] = r.m[i]
		}
		return r.v, m
	}
	v, m := w.solve(all)
	r := qres{v: v}
	if v == vSat {
		for _, x := range vs {
			r.m = append(r.m, m[x])
		}
	}
	w.qcache[key] = r
	return v, m
}

func idKey(ids []int32, tag byte) string {
	b := make([]byte, 0, 4*len(ids)+1)
	b = append(b, tag)
	for _, i := range ids {
		b = append(b, byte(i), byte(i>>8), byte(i>>16), byte(i>>24))
	}
	return string(b)
}

func (w *W) solve(cs []*Term) (verdict, map[int32]uint64) {
	w.stats.queries++
	var vars []*Term
	seen := map[int32]bool{}
	var walk func(t *Term)
	memo := map[*Term]bool{}
	walk = func(t *Term) {
		if memo[t] {
			return
		}
		memo[t] = true
		if t.op == tVar && !seen[int32(t.n)] {
			seen[int32(t.n)] = true
			vars = append(vars, t)
		}
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				walk(x)
			}
		}
	}
	for _, c := range cs {
		walk(c)
	}
	return w.sol.check(cs, vars)
}

// assert discharges an obligation: no value on this path may falsify t.
func (w *W) assert(t *Term, msg func() string) {
	w.asserts++
	if t == w.ctx.t || w.known[t] {
		w.stats.assertConst++
		return
	}
	nt := w.ctx.not(t)
	t0 := time.Now()
	defer func() { w.stats.assertTime += time.Since(t0) }()
	if len(w.decs) < len(w.prefix) {
		// This obligation was already discharged (or reported) when the shared prefix was first executed.
		w.addPC(t)
		return
	}
	w.stats.assertQ++
	if nt == w.ctx.t {
		w.report("assert", msg(), w.model)
		panic(pathAbort{"violation"})
	}
	v, m := w.query(nt)
	switch v {
	case vUnknown:
		panic(engineErr{"solver gave no verdict on an obligation"})
	case vSat:
		nm := map[int32]uint64{}
		for k, x := range w.model {
			nm[k] = x
		}
		for k, x := range m {
			nm[k] = x
		}
		w.report("assert", msg(), nm)
		// go on under the assumption that it holds, if it can
		w.assume(t)
		return
	}
	w.addPC(t)
}

func (w *W) values(m map[int32]uint64) []uint64 {
	vals := make([]uint64, len(w.nd))
	for i, r := range w.nd {
		if r.v != nil {
			vals[i] = m[int32(r.v.n)]
		} else {
			vals[i] = r.con
		}
	}
	return vals
}

func (w *W) evalStr(s any, m map[int32]uint64) string {
	switch s := s.(type) {
	case string:
		return s
	case *symstr:
		memo := map[int32]uint64{}
		b := make([]byte, len(s.b))
		for i, x := range s.b {
			switch x := x.(type) {
			case uint64:
				b[i] = byte(x)
			case *Term:
				b[i] = byte(x.eval(m, memo))
			}
		}
		return string(b)
	}
	return fmt.Sprintf("<%T>", s)
}

func (w *W) report(kind, msg string, m map[int32]uint64) {
	v := &violation{Kind: kind, Msg: msg, Values: w.values(m)}
	for _, o := range w.obs {
		v.obs = append(v.obs, o.label+"="+w.evalStr(o.val, m))
	}
	w.pathViol = append(w.pathViol, v)
	w.x.addViolation(v)
}

// ---- exploration

func (x *explorer) push(it workItem) {
	x.mu.Lock()
	x.queue = append(x.queue, it)
	x.mu.Unlock()
	x.cond.Signal()
}

func (x *explorer) addViolation(v *violation) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.viols = append(x.viols, v)
	if len(x.viols) >= 16 {
		x.stop = true
		x.why = "enough violations"
		x.cond.Broadcast()
	}
}

// fail records a path that could not be followed to its end: it counts as inconclusive.
func (x *explorer) fail(msg string, vals []uint64) {
	x.mu.Lock()
	x.errs = append(x.errs, msg)
	if len(x.errAt) < 200 {
		x.errAt = append(x.errAt, &violation{Kind: "inconclusive", Msg: msg, Values: vals})
	}
	x.mu.Unlock()
}

func (x *explorer) next() (workItem, bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for {
		if x.stop {
			return workItem{}, false
		}
		if x.eng.lowMemory.Load() {
			x.stop, x.incomplete, x.why = true, 1, "memory"
			x.cond.Broadcast()
			return workItem{}, false
		}
		if !x.deadline.IsZero() && time.Now().After(x.deadline) || x.maxPaths > 0 && x.paths >= x.maxPaths {
			x.stop = true
			if len(x.queue) > 0 || x.active > 0 {
				x.incomplete = 1
				x.why = "time budget"
			}
			x.cond.Broadcast()
			return workItem{}, false
		}
		if n := len(x.queue); n > 0 {
			it := x.queue[n-1]
			x.queue[n-1] = workItem{}
			x.queue = x.queue[:n-1]
			x.active++
			x.paths++
			return it, true
		}
		if x.active == 0 {
			x.cond.Broadcast()
			return workItem{}, false
		}
		x.cond.Wait()
	}
}

func (x *explorer) done() {
	x.mu.Lock()
	x.active--
	if x.active == 0 {
		x.cond.Broadcast()
	}
	x.mu.Unlock()
}

// explore runs the harness entry on every path.
func (x *explorer) explore(ws []*W) {
	if x.cond == nil {
		x.cond = sync.NewCond(&x.mu)
		x.queue = []workItem{{nil, map[int32]uint64{}}}
	} else {
		// take up again where the time ran out
		x.stop, x.incomplete, x.why = false, 0, ""
	}
	x.workers = ws
	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		go func(w *W) {
			defer wg.Done()
			w.x = x
			for {
				it, ok := x.next()
				if !ok {
					return
				}
				w.runPath(it)
				x.done()
			}
		}(w)
	}
	wg.Wait()
	if x.incomplete == 0 && len(x.queue) > 0 && x.why == "time budget" {
		x.incomplete = 1
	}
}

func (w *W) runPath(it workItem) {
	x := w.x
	w.resetPath()
	w.prefix, w.model = it.prefix, it.model
	w.maxSteps = x.maxSteps
	w.undoOn = true
	outcome := w.execute(func() {
		args := []any{}
		if len(x.entry.Params) == 1 {
			args = append(args, uint64(x.arg))
		}
		w.callFn(nil, x.entry, args, nil, false)
	})
	w.undoOn = false
	w.rollback()
	w.stats.paths++
	w.stats.steps += w.steps
	if len(w.decs) > w.stats.maxDecs {
		w.stats.maxDecs = len(w.decs)
	}
	if int(w.nvars) > w.stats.maxVars {
		w.stats.maxVars = int(w.nvars)
	}
	for _, r := range w.reached {
		w.stats.reach[r]++
	}
	switch {
	case outcome == "":
		w.maybeSample()
	case outcome == "assume" || outcome == "violation":
		w.stats.pruned++
	default:
		w.stats.aborted++
	}
}

// execute runs f as one path and classifies how it ended.
func (w *W) execute(f func()) (outcome string) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch r := r.(type) {
		case pathAbort:
			outcome = r.why
			if r.why != "assume" && r.why != "violation" {
				v := &violation{Kind: "hang", Msg: r.why, Values: w.values(w.model)}
				w.x.mu.Lock()
				w.x.abortedAt = append(w.x.abortedAt, v)
				n := len(w.x.abortedAt)
				w.x.mu.Unlock()
				if n >= 8 {
					w.x.mu.Lock()
					w.x.stop = true
					w.x.why = "paths without end"
					w.x.mu.Unlock()
					w.x.cond.Broadcast()
				}
			}
		case *targetPanic:
			outcome = "violation"
			w.depth, w.sp = 0, 0
			w.report("panic", "panic: "+w.panicText(r.v)+" "+strings.Join(r.stack, " "), w.model)
		case exitPanic:
			outcome = "violation"
			w.report("panic", fmt.Sprintf("os.Exit(%d)", r.code), w.model)
		case engineErr:
			outcome = "engine error"
			w.x.fail(r.msg, w.values(w.model))
		default:
			// a Go run-time error inside the engine
			outcome = "engine error"
			w.x.fail(fmt.Sprintf("internal: %v\n%s", r, stackTrace()), w.values(w.model))
		}
	}()
	f()
	return ""
}

func (w *W) panicText(v iface) string {
	defer func() { recover() }()
	if v.t == nil {
		return "nil"
	}
	if s, ok := v.v.(structv); ok && len(s) == 1 {
		if t, ok := s[0].(string); ok {
			return t
		}
	}
	return w.evalStr(w.format("%v", []any{v}), w.model)
}

func (w *W) maybeSample() {
	x := w.x
	n := atomic.AddInt64(&x.nsample, 1)
	if x.wantSamples == 0 {
		return
	}
	take := n <= int64(x.wantSamples)
	slot := -1
	if !take {
		x.mu.Lock()
		x.seed = x.seed*6364136223846793005 + 1442695040888963407
		k := int64((x.seed >> 33) % uint64(n))
		x.mu.Unlock()
		if k < int64(x.wantSamples) {
			slot = int(k)
			take = true
		}
	}
	if !take {
		return
	}
	s := sample{Values: w.values(w.model)}
	for _, o := range w.obs {
		s.Obs = append(s.Obs, o.label+"="+strconv.QuoteToASCII(w.evalStr(o.val, w.model)))
	}
	x.mu.Lock()
	if slot < 0 || slot >= len(x.samples) {
		x.samples = append(x.samples, s)
	} else {
		x.samples[slot] = s
	}
	x.mu.Unlock()
}
