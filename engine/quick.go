package main

import "strings"

// Interval reasoning under the constant bounds the path gives for variables. It
// settles the position comparisons of array reads without the solver.

type ival struct{ lo, hi int64 }

const quickMax = int64(1) << 56

// bnd returns the bounds of an atom, as the path condition states them.
func (x *Exec) bnd(t *Term) (ival, bool) {
	s := x.cur
	if s.bnds == nil || !s.bndOwn {
		m := make(map[*Term]ival, len(s.bnds)+8)
		for k, v := range s.bnds {
			m[k] = v
		}
		s.bnds, s.bndOwn = m, true
	}
	for ; s.bndN < len(s.pc); s.bndN++ {
		x.learn(s, s.pc[s.bndN])
	}
	if b, ok := s.bnds[t]; ok {
		return b, true
	}
	return x.natural(t)
}

// natural bounds hold of the term on every path.
func (x *Exec) natural(t *Term) (ival, bool) {
	switch {
	case t.op == OConst:
		if t.val < uint64(quickMax) {
			return ival{int64(t.val), int64(t.val)}, true
		}
	case (t.op == OVar || t.op == OUF) && t.w == 64 && strings.HasPrefix(t.name, "len!"):
		return ival{0, int64(maxLen)}, true
	case t.w > 0 && t.w < 56:
		return ival{0, int64(1)<<uint(t.w) - 1}, true
	case t.op == OConcat && t.args[0].isConst() && t.args[0].val == 0 && t.w-t.args[0].w < 56:
		return ival{0, int64(1)<<uint(t.w-t.args[0].w) - 1}, true
	}
	return ival{}, false
}

func (x *Exec) learn(s *State, t *Term) {
	set := func(v *Term, lo, hi int64) {
		o, ok := s.bnds[v]
		if !ok {
			if o, ok = x.natural(v); !ok {
				o = ival{-1 << 62, 1 << 62}
			}
		}
		if lo > o.lo {
			o.lo = lo
		}
		if hi < o.hi {
			o.hi = hi
		}
		s.bnds[v] = o
	}
	atom := func(t *Term) bool { return (t.op == OVar || t.op == OUF) && t.w == 64 }
	switch t.op {
	case OAnd:
		for _, a := range t.args {
			x.learn(s, a)
		}
	case OUlt, OUle:
		a, b := t.args[0], t.args[1]
		k := int64(0)
		if t.op == OUlt {
			k = 1
		}
		if atom(a) && b.isConst() && b.val < uint64(quickMax) {
			set(a, 0, int64(b.val)-k)
		}
	case OSlt, OSle:
		a, b := t.args[0], t.args[1]
		k := int64(0)
		if t.op == OSlt {
			k = 1
		}
		if a.w != 64 {
			return
		}
		if atom(a) && b.isConst() {
			set(a, -1<<62, int64(b.val)-k)
		}
		if atom(b) && a.isConst() {
			set(b, int64(a.val)+k, 1<<62)
		}
	}
}

// rangeOf bounds a 64-bit term read as a sum over the integers.
func (x *Exec) rangeOf(t *Term) (ival, bool) {
	if t.op != OLin {
		b, ok := x.bnd(t)
		return b, ok && b.lo > -quickMax && b.hi < quickMax
	}
	k := int64(t.val)
	r := ival{k, k}
	if k <= -quickMax || k >= quickMax {
		return r, false
	}
	for i, a := range t.args {
		b, ok := x.bnd(a)
		c := int64(t.coef[i])
		if !ok || c > 1<<16 || c < -1<<16 || b.lo <= -1<<40 || b.hi >= 1<<40 {
			return r, false
		}
		if c >= 0 {
			r.lo, r.hi = r.lo+c*b.lo, r.hi+c*b.hi
		} else {
			r.lo, r.hi = r.lo+c*b.hi, r.hi+c*b.lo
		}
		if r.lo <= -quickMax || r.hi >= quickMax {
			return r, false
		}
	}
	return r, true
}

// quick settles a position comparison: 1, 0 or -1.
func (x *Exec) quick(t *Term) int {
	if x.cur == nil {
		return -1
	}
	switch t.op {
	case OUlt:
		a, b := t.args[0], t.args[1]
		if a.w != 64 {
			return -1
		}
		ra, ok := x.rangeOf(a)
		if !ok {
			return -1
		}
		rb, ok := x.rangeOf(b)
		if !ok || rb.lo < 0 {
			return -1
		}
		if ra.hi < 0 || ra.lo >= rb.hi {
			return 0
		}
		d, ok := x.rangeOf(x.c.Sub(a, b))
		if !ok {
			return -1
		}
		if d.lo >= 0 {
			return 0
		}
		if ra.lo >= 0 && d.hi < 0 {
			return 1
		}
	case OEq:
		if t.args[0].w != 64 {
			return -1
		}
		if d, ok := x.rangeOf(x.c.Sub(t.args[0], t.args[1])); ok && (d.lo > 0 || d.hi < 0) {
			return 0
		}
	}
	return -1
}
