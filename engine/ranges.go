package main

// A reduced product of intervals and known bits.  It decides, without a call of the solver, branch conditions that hold
// for every value the variables can still have; anything it cannot decide goes to the solver.

import (
	"math/bits"
	"os"
)

// confirmRanges has the solver confirm every decision made here.
var confirmRanges = os.Getenv("SSACHECK_CONFIRM") != ""

type rng struct {
	lo, hi uint64 // unsigned bounds
	z, o   uint64 // bits known to be zero, known to be one
}

func full(w uint8) rng { return rng{0, mask1(w), ^mask1(w), 0} }

func exact(n uint64) rng { return rng{n, n, ^n, n} }

// norm lets the two views sharpen each other.
func (r rng) norm() rng {
	if r.o > r.lo {
		r.lo = r.o
	}
	if ^r.z < r.hi {
		r.hi = ^r.z
	}
	if r.lo > r.hi {
		return r // unreachable values; callers treat it as undecided
	}
	d := 64 - bits.LeadingZeros64(r.lo^r.hi)
	var m uint64 = ^uint64(0)
	if d < 64 {
		m = ^(uint64(1)<<uint(d) - 1)
	} else {
		m = 0
	}
	r.o |= r.lo & m
	r.z |= ^r.lo & m
	return r
}

type varSet struct {
	done int // literals taken in
	set  [4]uint64
	r    rng
}

func (w *W) varRange(v *Term) rng {
	if v.w != 8 {
		return full(v.w)
	}
	i := int32(v.n)
	s := w.vsets[i]
	if s == nil {
		s = &varSet{set: [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}, r: full(8)}
		w.vsets[i] = s
	}
	lits := w.byVar[i]
	if s.done == len(lits) {
		return s.r
	}
	m := map[int32]uint64{}
	for _, t := range lits[s.done:] {
		if len(t.vars) != 1 || t.size > 40 {
			continue
		}
		for n := 0; n < 256; n++ {
			if s.set[n>>6]>>(n&63)&1 == 0 {
				continue
			}
			m[i] = uint64(n)
			if t.eval(m, map[int32]uint64{}) == 0 {
				s.set[n>>6] &^= 1 << (n & 63)
			}
		}
	}
	s.done = len(lits)
	r := rng{lo: 256, z: ^uint64(0), o: 0xff}
	for n := uint64(0); n < 256; n++ {
		if s.set[n>>6]>>(n&63)&1 == 0 {
			continue
		}
		if r.lo == 256 {
			r.lo = n
		}
		r.hi = n
		r.z &= ^n
		r.o &= n
	}
	if r.lo == 256 {
		r = full(8)
	}
	s.r = r.norm()
	return s.r
}

func (w *W) rangeOf(t *Term, memo map[*Term]rng) rng {
	switch t.op {
	case tConst:
		return exact(t.n)
	case tVar:
		return w.varRange(t)
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := w.rangeOp(t, memo).norm()
	if r.lo > r.hi {
		r = full(t.w)
	}
	memo[t] = r
	return r
}

func boolRange(yes, no bool) rng {
	switch {
	case yes:
		return exact(1)
	case no:
		return exact(0)
	}
	return full(0)
}

func (w *W) rangeOp(t *Term, memo map[*Term]rng) rng {
	m := mask1(t.w)
	var a, b rng
	if t.a != nil {
		a = w.rangeOf(t.a, memo)
	}
	if t.b != nil {
		b = w.rangeOf(t.b, memo)
	}
	switch t.op {
	case tNot:
		return boolRange(a.hi == 0, a.lo == 1)
	case tAnd:
		return boolRange(a.lo == 1 && b.lo == 1, a.hi == 0 || b.hi == 0)
	case tOr:
		return boolRange(a.lo == 1 || b.lo == 1, a.hi == 0 && b.hi == 0)
	case tIte:
		c := w.rangeOf(t.c, memo)
		if a.lo == 1 {
			return b
		}
		if a.hi == 0 {
			return c
		}
		r := rng{lo: min(b.lo, c.lo), hi: max(b.hi, c.hi), z: b.z & c.z, o: b.o & c.o}
		return r
	case tEq:
		return boolRange(a.lo == a.hi && b.lo == b.hi && a.lo == b.lo, a.hi < b.lo || b.hi < a.lo || a.o&b.z != 0 || a.z&b.o != 0)
	case tUlt:
		return boolRange(a.hi < b.lo, a.lo >= b.hi)
	case tUle:
		return boolRange(a.hi <= b.lo, a.lo > b.hi)
	case tSlt, tSle:
		// both sides of the same sign compare as unsigned
		h := uint64(1) << (t.a.w - 1)
		an, ap, bn, bp := a.o&h != 0, a.z&h != 0, b.o&h != 0, b.z&h != 0
		switch {
		case an && bp:
			return exact(1)
		case ap && bn:
			return exact(0)
		case an && bn || ap && bp:
			if t.op == tSlt {
				return boolRange(a.hi < b.lo, a.lo >= b.hi)
			}
			return boolRange(a.hi <= b.lo, a.lo > b.hi)
		}
		return full(0)
	case tZext:
		return a
	case tSext:
		h := uint64(1) << (t.a.w - 1)
		up := m &^ mask1(t.a.w)
		switch {
		case a.z&h != 0:
			return a
		case a.o&h != 0:
			return rng{lo: a.lo | up, hi: a.hi | up, z: a.z &^ up, o: a.o | up}
		}
		return full(t.w)
	case tTrunc:
		r := rng{lo: 0, hi: m, z: a.z | ^m, o: a.o & m}
		if a.hi <= m {
			r.lo, r.hi = a.lo, a.hi
		}
		return r
	case tBand:
		return rng{lo: 0, hi: min(a.hi, b.hi), z: a.z | b.z, o: a.o & b.o}
	case tBor:
		return rng{lo: max(a.lo, b.lo), hi: m, z: a.z & b.z, o: a.o | b.o}
	case tBxor:
		return rng{lo: 0, hi: m, z: a.z&b.z | a.o&b.o, o: a.z&b.o | a.o&b.z}
	case tBnot:
		return rng{lo: m &^ a.hi, hi: m &^ a.lo, z: a.o | ^m, o: a.z & m}
	case tAdd:
		if s := a.hi + b.hi; s >= a.hi && s <= m {
			return rng{lo: a.lo + b.lo, hi: s, z: ^m}
		}
		if s := a.lo + b.lo; t.w < 64 && s > m && a.hi+b.hi <= 2*m+1 {
			// always wraps once
			return rng{lo: s & m, hi: (a.hi + b.hi) & m, z: ^m}
		}
	case tSub:
		if a.lo >= b.hi {
			return rng{lo: a.lo - b.hi, hi: a.hi - b.lo, z: ^m}
		}
		if a.hi < b.lo {
			return rng{lo: (a.lo - b.hi) & m, hi: (a.hi - b.lo) & m, z: ^m}
		}
	case tShl:
		if b.lo == b.hi && b.lo < uint64(t.w) {
			k := uint(b.lo)
			r := rng{lo: 0, hi: m, z: (a.z<<k | (1<<k - 1)) | ^m, o: a.o << k & m}
			if a.hi <= m>>k {
				r.lo, r.hi = a.lo<<k, a.hi<<k
			}
			return r
		}
	case tLshr:
		if b.lo == b.hi && b.lo < uint64(t.w) {
			k := uint(b.lo)
			return rng{lo: a.lo >> k, hi: a.hi >> k, z: ^m}
		}
	}
	return full(t.w)
}

// ranged decides t when every remaining value of its variables gives it the same truth.
func (w *W) ranged(t *Term) (val, ok bool) {
	if t.size > 400 {
		return false, false
	}
	r := w.rangeOf(t, map[*Term]rng{})
	return r.lo == 1, r.lo == r.hi
}
