package main

import (
	"fmt"
	"math/big"
	"strings"
)

// Exact translation of bit-vector queries to linear integer arithmetic with
// uninterpreted functions. Every bit-vector term t of width w is represented
// by an integer expression congruent to t modulo 2^w together with an interval;
// reductions modulo 2^w are made explicit where the interval does not exclude
// wrapping. Queries with bit-level or non-linear operations are not translated.

type lval struct {
	e      string
	lo, hi *big.Int
}

type lia struct {
	c     *Ctx
	b     strings.Builder
	refs  map[*Term]int
	memo  map[*Term]lval
	umemo map[*Term]lval
	smemo map[*Term]lval
	bmemo map[*Term]string
	vars  map[string]bool
	over  map[*Term][2]*big.Int
	n     int
	nmod  int
	bad   bool
}

var bigOne = big.NewInt(1)
var pow2Tab [130]*big.Int

func init() {
	for i := range pow2Tab {
		pow2Tab[i] = new(big.Int).Lsh(bigOne, uint(i))
	}
}
func bu(v uint64) *big.Int { return new(big.Int).SetUint64(v) }
func bi(v int64) *big.Int  { return big.NewInt(v) }
func istr(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func (c *Ctx) printLIA(as []*Term) (string, int, bool) {
	l := &lia{c: c, refs: map[*Term]int{}, memo: map[*Term]lval{}, umemo: map[*Term]lval{}, smemo: map[*Term]lval{}, bmemo: map[*Term]string{}, vars: map[string]bool{}, over: map[*Term][2]*big.Int{}}
	for _, a := range as {
		if !l.count(a) {
			return "", 0, false
		}
		l.bound(a)
	}
	for _, a := range as {
		e := l.boolE(a)
		if l.bad {
			return "", 0, false
		}
		fmt.Fprintf(&l.b, "(assert %s)\n", e)
	}
	return l.b.String(), l.nmod, true
}

func (l *lia) count(t *Term) bool {
	l.refs[t]++
	if l.refs[t] > 1 {
		return true
	}
	switch t.op {
	case OMul, OBAnd, OBOr, OBXor, OShl, OLshr, OAshr:
		return false
	case OUdiv, OUrem, OSdiv, OSrem:
		if !t.args[1].isConst() || t.args[1].val == 0 {
			return false
		}
	}
	for _, a := range t.args {
		if !l.count(a) {
			return false
		}
	}
	return true
}

// bound records constant bounds that the query asserts for a variable.
func (l *lia) bound(t *Term) {
	set := func(v *Term, lo, hi *big.Int) {
		o, ok := l.over[v]
		if !ok {
			o = [2]*big.Int{bi(0), new(big.Int).Sub(pow2Tab[v.w], bigOne)}
			if v.w == 64 && strings.HasPrefix(v.name, "len!") {
				o[1] = bu(maxLen)
			}
		}
		if lo != nil && lo.Cmp(o[0]) > 0 {
			o[0] = lo
		}
		if hi != nil && hi.Cmp(o[1]) < 0 {
			o[1] = hi
		}
		l.over[v] = o
	}
	atom := func(t *Term) bool { return t.op == OVar && t.w > 0 }
	switch t.op {
	case OAnd:
		for _, a := range t.args {
			l.bound(a)
		}
	case OSlt, OSle:
		// 0 <= v as a signed number
		a, b := t.args[0], t.args[1]
		if atom(b) && a.isConst() && int64(sx(a.val, a.w)) >= -1 && !(t.op == OSle && int64(sx(a.val, a.w)) < 0) {
			k := int64(sx(a.val, a.w))
			if t.op == OSlt {
				k++
			}
			set(b, bi(k), new(big.Int).Sub(pow2Tab[b.w-1], bigOne))
		}
	case OUlt, OUle:
		a, b := t.args[0], t.args[1]
		k := int64(0)
		if t.op == OUlt {
			k = 1
		}
		if atom(a) && b.isConst() {
			set(a, nil, new(big.Int).Sub(bu(b.val), bi(k)))
		}
		if atom(b) && a.isConst() {
			set(b, new(big.Int).Add(bu(a.val), bi(k)), nil)
		}
	}
}

func (l *lia) def(e string, sort string) string {
	l.n++
	n := fmt.Sprintf("$%d", l.n)
	fmt.Fprintf(&l.b, "(define-fun %s () %s %s)\n", n, sort, e)
	return n
}

func (l *lia) share(t *Term, v lval) lval {
	if (l.refs[t] > 1 && len(v.e) > 12) || len(v.e) > 3000 {
		v.e = l.def(v.e, "Int")
	}
	l.memo[t] = v
	return v
}

func (l *lia) within(v lval, lo, hi *big.Int) bool { return v.lo.Cmp(lo) >= 0 && v.hi.Cmp(hi) < 0 }

// U: the unsigned value.
func (l *lia) U(t *Term) lval {
	if t.isConst() {
		return lval{bu(t.val).String(), bu(t.val), bu(t.val)}
	}
	if v, ok := l.umemo[t]; ok {
		return v
	}
	v := l.E(t)
	r := l.reduce(v, bi(0), t.w)
	l.umemo[t] = r
	return r
}

// S: the signed value.
func (l *lia) S(t *Term) lval {
	if t.isConst() {
		k := bi(int64(sx(t.val, t.w)))
		return lval{istr(k), k, k}
	}
	if v, ok := l.smemo[t]; ok {
		return v
	}
	v := l.E(t)
	r := l.reduce(v, new(big.Int).Neg(pow2Tab[t.w-1]), t.w)
	l.smemo[t] = r
	return r
}

// reduce brings v into [lo, lo+2^w).
func (l *lia) reduce(v lval, lo *big.Int, w int) lval {
	m := pow2Tab[w]
	hi := new(big.Int).Add(lo, m)
	if l.within(v, lo, hi) {
		return v
	}
	if v.lo.Cmp(v.hi) == 0 {
		k := new(big.Int).Sub(v.lo, lo)
		k.Mod(k, m)
		k.Add(k, lo)
		return lval{istr(k), k, k}
	}
	mlo := new(big.Int).Sub(lo, m)
	mhi := new(big.Int).Add(hi, m)
	last := new(big.Int).Sub(hi, bigOne)
	e := v.e
	if len(e) > 12 {
		e = l.def(e, "Int")
	}
	switch {
	case v.hi.Cmp(hi) < 0 && v.lo.Cmp(mlo) >= 0:
		return lval{l.def(fmt.Sprintf("(ite (< %s %s) (+ %s %s) %s)", e, istr(lo), e, m, e), "Int"), lo, last}
	case v.lo.Cmp(lo) >= 0 && v.hi.Cmp(mhi) < 0:
		return lval{l.def(fmt.Sprintf("(ite (>= %s %s) (- %s %s) %s)", e, istr(hi), e, m, e), "Int"), lo, last}
	}
	l.nmod++
	l.n++
	qn, rn := fmt.Sprintf("q$%d", l.n), fmt.Sprintf("r$%d", l.n)
	fmt.Fprintf(&l.b, "(declare-const %s Int)\n(declare-const %s Int)\n(assert (and (= %s (+ (* %s %s) %s)) (<= %s %s) (<= %s %s)))\n", qn, rn, e, m, qn, rn, istr(lo), rn, rn, istr(last))
	return lval{rn, lo, last}
}

// divmod gives quotient and remainder of a non-negative value by a constant.
func (l *lia) divmod(v lval, d *big.Int) (lval, lval) {
	l.nmod++
	l.n++
	qn, rn := fmt.Sprintf("q$%d", l.n), fmt.Sprintf("r$%d", l.n)
	last := new(big.Int).Sub(d, bigOne)
	qlo, qhi := new(big.Int).Div(v.lo, d), new(big.Int).Div(v.hi, d)
	fmt.Fprintf(&l.b, "(declare-const %s Int)\n(declare-const %s Int)\n(assert (and (= %s (+ (* %s %s) %s)) (<= 0 %s) (<= %s %s) (<= %s %s) (<= %s %s)))\n", qn, rn, v.e, d, qn, rn, rn, rn, last, qlo, qn, qn, qhi)
	return lval{qn, qlo, qhi}, lval{rn, bi(0), last}
}

func (l *lia) E(t *Term) lval {
	if v, ok := l.memo[t]; ok {
		return v
	}
	switch t.op {
	case OConst:
		k := bi(int64(sx(t.val, t.w)))
		return lval{istr(k), k, k}
	case OVar:
		n := q(t.name)
		lo, hi := bi(0), new(big.Int).Sub(pow2Tab[t.w], bigOne)
		if t.w == 64 && strings.HasPrefix(t.name, "len!") {
			hi = bu(maxLen)
		}
		if o, ok := l.over[t]; ok && o[0].Cmp(o[1]) <= 0 {
			lo, hi = o[0], o[1]
		}
		if !l.vars[t.name] {
			l.vars[t.name] = true
			fmt.Fprintf(&l.b, "(declare-const %s Int)\n(assert (and (<= %s %s) (<= %s %s)))\n", n, lo, n, n, hi)
		}
		v := lval{n, lo, hi}
		l.memo[t] = v
		return v
	case OUF:
		e := l.app(t)
		hi := new(big.Int).Sub(pow2Tab[t.w], bigOne)
		if t.w == 64 && strings.HasPrefix(t.name, "len!") {
			hi = bu(maxLen)
		}
		if l.refs[t] > 1 {
			e = l.def(e, "Int")
		}
		fmt.Fprintf(&l.b, "(assert (and (<= 0 %s) (<= %s %s)))\n", e, e, hi)
		v := lval{e, bi(0), hi}
		l.memo[t] = v
		return v
	case OLin:
		k := bi(int64(sx(t.val, t.w)))
		lo, hi := new(big.Int).Set(k), new(big.Int).Set(k)
		var parts []string
		if k.Sign() != 0 {
			parts = append(parts, istr(k))
		}
		for i, a := range t.args {
			v := l.E(a)
			if l.bad {
				return v
			}
			co := bi(int64(sx(t.coef[i], t.w)))
			x, y := new(big.Int).Mul(co, v.lo), new(big.Int).Mul(co, v.hi)
			if x.Cmp(y) > 0 {
				x, y = y, x
			}
			lo.Add(lo, x)
			hi.Add(hi, y)
			if co.Cmp(bigOne) == 0 {
				parts = append(parts, v.e)
			} else {
				parts = append(parts, "(* "+istr(co)+" "+v.e+")")
			}
		}
		e := parts[0]
		if len(parts) > 1 {
			e = "(+ " + strings.Join(parts, " ") + ")"
		}
		return l.share(t, lval{e, lo, hi})
	case OConcat:
		lo, hi := bi(0), bi(0)
		var parts []string
		sh := t.w
		for _, a := range t.args {
			sh -= a.w
			v := l.U(a)
			if l.bad {
				return v
			}
			if v.hi.Sign() == 0 {
				continue
			}
			m := pow2Tab[sh]
			lo.Add(lo, new(big.Int).Mul(m, v.lo))
			hi.Add(hi, new(big.Int).Mul(m, v.hi))
			if sh == 0 {
				parts = append(parts, v.e)
			} else {
				parts = append(parts, "(* "+m.String()+" "+v.e+")")
			}
		}
		e := "0"
		if len(parts) == 1 {
			e = parts[0]
		} else if len(parts) > 1 {
			e = "(+ " + strings.Join(parts, " ") + ")"
		}
		return l.share(t, lval{e, lo, hi})
	case OExtract:
		if t.val == 0 {
			v := l.E(t.args[0])
			l.memo[t] = v
			return v
		}
		v := l.U(t.args[0])
		if l.bad {
			return v
		}
		qv, _ := l.divmod(v, pow2Tab[t.val])
		l.memo[t] = qv
		return qv
	case OSext:
		v := l.S(t.args[0])
		l.memo[t] = v
		return v
	case OIte:
		cnd := l.boolE(t.args[0])
		a, b := l.E(t.args[1]), l.E(t.args[2])
		if l.bad {
			return a
		}
		lo, hi := a.lo, a.hi
		if b.lo.Cmp(lo) < 0 {
			lo = b.lo
		}
		if b.hi.Cmp(hi) > 0 {
			hi = b.hi
		}
		return l.share(t, lval{"(ite " + cnd + " " + a.e + " " + b.e + ")", lo, hi})
	case OUdiv, OUrem:
		v := l.U(t.args[0])
		qv, rv := l.divmod(v, bu(t.args[1].val))
		if t.op == OUrem {
			qv = rv
		}
		l.memo[t] = qv
		return qv
	case OSdiv, OSrem:
		if !t.args[1].isConst() || sx(t.args[1].val, t.w)>>63 != 0 || t.args[1].val == 0 {
			break
		}
		v := l.S(t.args[0])
		if l.bad {
			return v
		}
		qv, rv := l.sdivmod(v, bu(t.args[1].val))
		if t.op == OSrem {
			qv = rv
		}
		l.memo[t] = qv
		return qv
	}
	l.bad = true
	return lval{"0", bi(0), bi(0)}
}

// sdivmod gives quotient (rounded toward zero) and remainder of a value by a positive constant.
func (l *lia) sdivmod(v lval, d *big.Int) (lval, lval) {
	if v.lo.Sign() >= 0 {
		return l.divmod(v, d)
	}
	l.nmod++
	l.n++
	qn, rn := fmt.Sprintf("q$%d", l.n), fmt.Sprintf("r$%d", l.n)
	last := new(big.Int).Sub(d, bigOne)
	first := new(big.Int).Neg(last)
	qlo, qhi := new(big.Int).Quo(v.lo, d), new(big.Int).Quo(v.hi, d)
	e := v.e
	if len(e) > 12 {
		e = l.def(e, "Int")
	}
	fmt.Fprintf(&l.b, "(declare-const %s Int)\n(declare-const %s Int)\n(assert (and (= %s (+ (* %s %s) %s)) (<= %s %s) (<= %s %s) (=> (>= %s 0) (>= %s 0)) (=> (<= %s 0) (<= %s 0)) (<= %s %s) (<= %s %s)))\n",
		qn, rn, e, d, qn, rn, istr(first), rn, rn, last, e, rn, e, rn, istr(qlo), qn, qn, istr(qhi))
	return lval{qn, qlo, qhi}, lval{rn, first, last}
}

func (l *lia) app(t *Term) string {
	if !l.vars[t.name] {
		l.vars[t.name] = true
		ws := l.c.ufs[t.name]
		var in []string
		for _, w := range ws[:len(ws)-1] {
			if w == 0 {
				in = append(in, "Bool")
			} else {
				in = append(in, "Int")
			}
		}
		out := "Int"
		if ws[len(ws)-1] == 0 {
			out = "Bool"
		}
		fmt.Fprintf(&l.b, "(declare-fun %s (%s) %s)\n", q(t.name), strings.Join(in, " "), out)
	}
	as := make([]string, len(t.args))
	for i, a := range t.args {
		if a.w == 0 {
			as[i] = l.boolE(a)
		} else {
			as[i] = l.U(a).e
		}
	}
	return "(" + q(t.name) + " " + strings.Join(as, " ") + ")"
}

func (l *lia) boolE(t *Term) string {
	if n, ok := l.bmemo[t]; ok {
		return n
	}
	var e string
	switch t.op {
	case OConst:
		return constStr(0, t.val)
	case OVar:
		if !l.vars[t.name] {
			l.vars[t.name] = true
			fmt.Fprintf(&l.b, "(declare-const %s Bool)\n", q(t.name))
		}
		return q(t.name)
	case OUF:
		e = l.app(t)
	case ONot, OAnd, OOr:
		as := make([]string, len(t.args))
		for i, a := range t.args {
			as[i] = l.boolE(a)
		}
		e = "(" + opNames[t.op] + " " + strings.Join(as, " ") + ")"
	case OIte:
		e = "(ite " + l.boolE(t.args[0]) + " " + l.boolE(t.args[1]) + " " + l.boolE(t.args[2]) + ")"
	case OEq:
		a, b := t.args[0], t.args[1]
		if a.w == 0 {
			e = "(= " + l.boolE(a) + " " + l.boolE(b) + ")"
			break
		}
		// constants adapt to the window of the other side
		if b.isConst() {
			a, b = b, a
		}
		if a.isConst() {
			v := l.E(b)
			if l.within(v, new(big.Int).Neg(pow2Tab[b.w-1]), pow2Tab[b.w-1]) {
				e = "(= " + l.S(a).e + " " + v.e + ")"
			} else {
				e = "(= " + l.U(a).e + " " + l.U(b).e + ")"
			}
			break
		}
		va, vb := l.E(a), l.E(b)
		lo, hi := va.lo, va.hi
		if vb.lo.Cmp(lo) < 0 {
			lo = vb.lo
		}
		if vb.hi.Cmp(hi) > 0 {
			hi = vb.hi
		}
		if new(big.Int).Sub(hi, lo).Cmp(pow2Tab[a.w]) < 0 {
			e = "(= " + va.e + " " + vb.e + ")"
		} else {
			e = "(= " + l.U(a).e + " " + l.U(b).e + ")"
		}
	case OUlt:
		e = "(< " + l.U(t.args[0]).e + " " + l.U(t.args[1]).e + ")"
	case OUle:
		e = "(<= " + l.U(t.args[0]).e + " " + l.U(t.args[1]).e + ")"
	case OSlt:
		e = "(< " + l.S(t.args[0]).e + " " + l.S(t.args[1]).e + ")"
	case OSle:
		e = "(<= " + l.S(t.args[0]).e + " " + l.S(t.args[1]).e + ")"
	default:
		l.bad = true
		return "false"
	}
	if l.refs[t] > 1 && len(e) > 12 || len(e) > 3000 {
		e = l.def(e, "Bool")
		l.bmemo[t] = e
	}
	return e
}
