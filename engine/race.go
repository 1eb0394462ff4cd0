package main

// Two calls at the same time: both are executed from the same state, each on its own, and the memory they touch
// is compared.  A place that one writes and the other reads or writes, without a lock that both hold, atomic
// operations or sync.Once, is a data race: some schedule leaves it undefined.

type lockUse struct {
	p    any
	excl bool
}

type access struct {
	write, atomic bool
	locks         []lockUse
	where         string
}

type racer struct {
	log    map[any][]access
	locks  []lockUse // held now
	once   int       // inside sync.Once.Do
	inOnce bool
	fn     string
	quiet  int // inside a stand-in that is safe for concurrent use
}

func sameLocks(a, b []lockUse) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (w *W) touch(loc any, write, atomic bool) {
	r := w.race
	if r == nil || r.once > 0 || r.quiet > 0 {
		return
	}
	l := r.log[loc]
	for i := range l {
		a := &l[i]
		if a.write == write && a.atomic == atomic && sameLocks(a.locks, r.locks) {
			return
		}
	}
	r.log[loc] = append(l, access{write, atomic, append([]lockUse(nil), r.locks...), r.fn})
}

// touchLoad is a load of everything at p.
func (w *W) touchLoad(p *any) {
	switch v := (*p).(type) {
	case structv:
		for i := range v {
			w.touchLoad(&v[i])
		}
	case arrayv:
		for i := range v {
			w.touchLoad(&v[i])
		}
	default:
		w.touch(p, false, false)
	}
}

func (w *W) touchElems(s []any) {
	for i := range s {
		w.touchLoad(&s[i])
	}
}

func (w *W) lock(p any, excl bool) {
	if w.race != nil {
		w.race.locks = append(append([]lockUse(nil), w.race.locks...), lockUse{p, excl})
	}
}

func (w *W) unlock(p any, excl bool) {
	if r := w.race; r != nil {
		for i := len(r.locks) - 1; i >= 0; i-- {
			if r.locks[i] == (lockUse{p, excl}) {
				r.locks = append(append([]lockUse(nil), r.locks[:i]...), r.locks[i+1:]...)
				return
			}
		}
	}
}

func ordered(a, b access) bool {
	if !a.write && !b.write || a.atomic && b.atomic {
		return true
	}
	for _, x := range a.locks {
		for _, y := range b.locks {
			if x.p == y.p && (x.excl || y.excl) {
				return true
			}
		}
	}
	return false
}

// alone executes f for its accesses only.
func (w *W) alone(fr *frame, f *closure) *racer {
	r := &racer{log: map[any][]access{}}
	mark := len(w.undo)
	env := *w.env
	pools := map[*any][]any{}
	for k, v := range w.env.pools {
		pools[k] = v
	}
	nvars, nd := w.nvars, len(w.nd)
	depth, sp := w.depth, w.sp
	w.race = r
	func() {
		defer func() {
			w.race = nil
			if e := recover(); e != nil {
				if _, ok := e.(*targetPanic); !ok {
					panic(e)
				}
				w.depth, w.sp = depth, sp
			}
		}()
		w.callClosure(fr, f, nil, false)
	}()
	w.rollbackTo(mark)
	env.pools = pools
	*w.env = env
	if w.nvars != nvars || len(w.nd) != nd {
		unsupported("choices inside calls at the same time")
	}
	return r
}

func (w *W) apart(fr *frame, f, g *closure) {
	a, b := w.alone(fr, f), w.alone(fr, g)
	for loc, as := range a.log {
		for _, x := range as {
			for _, y := range b.log[loc] {
				if !ordered(x, y) {
					kind := map[bool]string{true: "write", false: "read"}
					msg := "two calls at the same time share memory: " + kind[x.write] + " in " + x.where + ", " + kind[y.write] + " in " + y.where
					w.assert(w.ctx.boolc(false), func() string { return msg })
					return
				}
			}
		}
	}
	w.stats.assertConst++
	w.callClosure(fr, f, nil, false)
	w.callClosure(fr, g, nil, false)
}
