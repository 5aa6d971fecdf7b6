package main

import (
	"fmt"
	"sort"
)

// Quantified atoms: a Bool variable Q with Q <=> forall ix in [lo,hi) (signed 64-bit). body(ix).
type Quant struct {
	name   string
	atom   *Term
	lo, hi *Term
	ix     *Term // bound variable
	body   *Term
	sk     *Term // skolem for the negation
	neg    *Term // !Q => lo<=sk<hi && !body(sk)
	pats   []pat
	roots  []*Term // values of ix at which a comparison in the body changes sides
	inst   map[*Term]*Term
	scan   map[*Term]bool
}

type pat struct {
	uf  string
	arg int
	off *Term // arg = ix + off  (coefficient 1)
}

func (c *Ctx) NewQuant(lo, hi, ix, body *Term) *Term {
	if body == c.True {
		return c.True
	}
	if lo.isConst() && hi.isConst() && int64(hi.val) <= int64(lo.val) {
		return c.True
	}
	key := [4]int{lo.id, hi.id, ix.id, body.id}
	if q := c.quantKey[key]; q != nil {
		return q.atom
	}
	name := c.FreshName("Q")
	qn := &Quant{name: name, lo: lo, hi: hi, ix: ix, body: body, inst: map[*Term]*Term{}}
	qn.atom = c.Var(name, 0)
	c.quants[name] = qn
	c.quantKey[key] = qn
	qn.sk = c.Fresh("sk", 64)
	qn.neg = c.Or(qn.atom, c.And(c.Sle(lo, qn.sk), c.Slt(qn.sk, hi), c.Not(c.Subst(body, ix, qn.sk))))
	seen := map[*Term]bool{}
	var walk func(t *Term)
	pm := map[string]bool{}
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OUF {
			for i, a := range t.args {
				if a.w != 64 {
					continue
				}
				off := (*Term)(nil)
				if a == ix {
					off = c.Const(64, 0)
				} else if a.op == OLin {
					for j, x := range a.args {
						if x == ix && a.coef[j] == 1 {
							off = c.Sub(a, ix)
						}
					}
				}
				if off != nil && !c.occurs(off, ix) {
					k := fmt.Sprint(t.name, i, off.id)
					if !pm[k] {
						pm[k] = true
						qn.pats = append(qn.pats, pat{t.name, i, off})
					}
				}
			}
		}
		switch t.op {
		case OEq, OUlt, OUle, OSlt, OSle:
			if w := t.args[0].w; w > 0 && w <= 64 && len(qn.roots) < 4 {
				if r := c.rootOf(c.Sub(t.args[0], t.args[1]), ix); r != nil {
					qn.roots = append(qn.roots, c.Zext(r, 64))
				}
			}
		}
		if q := c.quantOf(t); q != nil {
			walk(q.lo)
			walk(q.hi)
			walk(q.body)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	return qn.atom
}

// rootOf solves d == 0 for ix (or its low bits) where it occurs once with coefficient 1 or -1.
func (c *Ctx) rootOf(d, ix *Term) *Term {
	args, coef := []*Term{d}, []uint64{1}
	if d.op == OLin {
		args, coef = d.args, d.coef
	}
	m := ^uint64(0)
	if d.w < 64 {
		m = 1<<uint(d.w) - 1
	}
	for i, a := range args {
		if a != ix && !(a.op == OExtract && a.args[0] == ix && a.val == 0) {
			continue
		}
		var r *Term
		switch coef[i] & m {
		case 1:
			r = c.Sub(a, d)
		case m:
			r = c.addScaled(d, 1, a, 1)
		default:
			return nil
		}
		if c.occurs(r, ix) {
			return nil
		}
		return r
	}
	return nil
}

// quantOf returns the quantifier an atom stands for, if it does.
func (c *Ctx) quantOf(t *Term) *Quant {
	if t.op == OVar && t.w == 0 {
		return c.quants[t.name]
	}
	return nil
}

func (c *Ctx) occurs(t, v *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		if q := c.quantOf(t); q != nil {
			return walk(q.lo) || walk(q.hi) || walk(q.body)
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// Subst replaces variable v by r, rebuilding (and re-simplifying) terms.
func (c *Ctx) Subst(t, v, r *Term) *Term {
	memo := map[*Term]*Term{v: r}
	return c.substM(t, memo)
}
func (c *Ctx) substM(t *Term, memo map[*Term]*Term) *Term {
	if x, ok := memo[t]; ok {
		return x
	}
	if q := c.quantOf(t); q != nil {
		m2 := memo
		if _, ok := memo[q.ix]; ok { // bound here
			m2 = map[*Term]*Term{}
			for a, b := range memo {
				if c.occurs(a, q.ix) {
					continue
				}
				m2[a] = b
			}
		}
		lo, hi, body := c.substM(q.lo, m2), c.substM(q.hi, m2), c.substM(q.body, m2)
		res := t
		if lo != q.lo || hi != q.hi || body != q.body {
			res = c.NewQuant(lo, hi, q.ix, body)
		}
		memo[t] = res
		return res
	}
	if len(t.args) == 0 {
		return t
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = c.substM(a, memo)
		if as[i] != a {
			ch = true
		}
	}
	res := t
	if ch {
		res = c.rebuild(t, as)
	}
	memo[t] = res
	return res
}
func (c *Ctx) rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case OUF:
		return c.UF(t.name, t.w, as...)
	case ONot:
		return c.Not(as[0])
	case OAnd:
		return c.And(as...)
	case OOr:
		return c.Or(as...)
	case OEq:
		return c.Eq(as[0], as[1])
	case OIte:
		return c.Ite(as[0], as[1], as[2])
	case OUlt:
		return c.Ult(as[0], as[1])
	case OUle:
		return c.Ule(as[0], as[1])
	case OSlt:
		return c.Slt(as[0], as[1])
	case OSle:
		return c.Sle(as[0], as[1])
	case OLin:
		r := c.Const(t.w, t.val)
		for i, a := range as {
			r = c.addScaled(r, 1, a, t.coef[i])
		}
		return r
	case OMul:
		return c.Mul(as[0], as[1])
	case OUdiv:
		return c.Udiv(as[0], as[1])
	case OUrem:
		return c.Urem(as[0], as[1])
	case OSdiv:
		return c.Sdiv(as[0], as[1])
	case OSrem:
		return c.Srem(as[0], as[1])
	case OBAnd:
		return c.BAnd(as[0], as[1])
	case OBOr:
		return c.BOr(as[0], as[1])
	case OBXor:
		return c.BXor(as[0], as[1])
	case OShl:
		return c.Shl(as[0], as[1])
	case OLshr:
		return c.Lshr(as[0], as[1])
	case OAshr:
		return c.Ashr(as[0], as[1])
	case OConcat:
		return c.Concat(as...)
	case OExtract:
		return c.Extract(as[0], int(t.val), t.w)
	case OSext:
		return c.Sext(as[0], t.w)
	}
	panic("rebuild")
}

// instantiate adds quantifier instances relevant to the assertions.
func (c *Ctx) instantiate(as []*Term) []*Term {
	if len(c.quants) == 0 && len(c.unfolds) == 0 {
		return as
	}
	out := append([]*Term{}, as...)
	present := map[*Term]bool{}
	for _, a := range out {
		present[a] = true
	}
	add := func(t *Term) {
		if !present[t] && t != c.True {
			present[t] = true
			out = append(out, t)
		}
	}
	// A quantified atom that is only ever asserted needs its instances, one that is
	// only ever denied its witness: the polarity of each occurrence decides.
	seen := map[*Term]uint8{}
	var active []*Quant
	isActive := map[*Quant]uint8{}
	axiom := map[*Term]*Quant{}
	ufArgs := map[string]map[*Term]bool{} // "uf#i" -> ground args
	var skol []*Term
	var scan func(t *Term, pol uint8)
	scan = func(t *Term, pol uint8) {
		if seen[t]&pol == pol {
			return
		}
		first := seen[t] == 0
		seen[t] |= pol
		switch t.op {
		case OVar:
			if qn := c.quantOf(t); qn != nil {
				nw := pol &^ isActive[qn]
				isActive[qn] |= pol
				if nw&1 != 0 {
					active = append(active, qn)
				}
				if nw&2 != 0 {
					skol = append(skol, qn.sk)
					axiom[qn.neg] = qn
					add(qn.neg)
				}
			}
			return
		case ONot:
			scan(t.args[0], pol>>1|pol<<1&2)
			return
		case OAnd, OOr:
			for _, a := range t.args {
				scan(a, pol)
			}
			return
		case OUF:
			if !first {
				break
			}
			if u := c.unfolds[t]; u != nil {
				add(u)
			}
			for i, a := range t.args {
				if a.w == 64 {
					k := fmt.Sprintf("%s#%d", t.name, i)
					if ufArgs[k] == nil {
						ufArgs[k] = map[*Term]bool{}
					}
					ufArgs[k][a] = true
				}
			}
		}
		for _, a := range t.args {
			scan(a, 3)
		}
	}
	top := func(t *Term) {
		if qn := axiom[t]; qn != nil && t.op == OOr {
			for _, a := range t.args {
				if a != qn.atom && !(a.op == ONot && a.args[0] == qn.atom) {
					scan(a, 1)
				}
			}
			return
		}
		scan(t, 1)
	}
	done := 0
	total := 0
	for round := 0; round < 4; round++ {
		for done < len(out) {
			top(out[done])
			done++
		}
		before := len(out)
		for _, qn := range active {
			cands := map[*Term]bool{}
			for _, p := range qn.pats {
				for g := range ufArgs[fmt.Sprintf("%s#%d", p.uf, p.arg)] {
					cands[c.Sub(g, p.off)] = true
				}
			}
			if len(qn.pats) == 0 || round == 0 {
				for _, s := range skol {
					cands[s] = true
				}
			}
			cands[qn.lo] = true
			for _, r := range qn.roots {
				cands[r] = true
			}
			for _, t := range sortedTerms(cands) {
				if total > 3000 {
					break
				}
				inst, ok := qn.inst[t]
				if !ok {
					inst = c.Or(c.Not(qn.atom), c.Slt(t, qn.lo), c.Sle(qn.hi, t), c.Subst(qn.body, qn.ix, t))
					qn.inst[t] = inst
				}
				if !present[inst] {
					total++
					axiom[inst] = qn
				}
				add(inst)
			}
		}
		if len(out) == before {
			break
		}
	}
	return out
}

func sortedTerms(m map[*Term]bool) []*Term {
	var ts []*Term
	for t := range m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}
