package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Terms: hash-consed bit-vector / boolean expressions (width 0 = Bool, else 1..64).

type Op uint8

const (
	OConst Op = iota // val (bool: 0/1)
	OVar             // name
	OUF              // name(args)
	ONot
	OAnd
	OOr
	OEq
	OIte
	OUlt
	OUle
	OSlt
	OSle
	OLin // val + sum coef[i]*args[i]
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // lo = val, width = w
	OSext
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat"}

type Term struct {
	op   Op
	w    int
	id   int
	val  uint64
	name string
	args []*Term
	coef []uint64
	lo0  uint64 // cached context-free unsigned range
	hi0  uint64
	rng  bool
}

type Ctx struct {
	unfolds  map[*Term]*Term // definitions of applications of recursive specification functions
	tab      map[string]*Term
	nextID   int
	fresh    int
	True     *Term
	False    *Term
	ufs      map[string][]int // name -> arg widths..., result width
	keybuf   []byte
	quants   map[string]*Quant
	quantKey map[[4]int]*Quant
	birth    map[string]int
	qorder   []*Quant
}

func NewCtx() *Ctx {
	c := &Ctx{unfolds: map[*Term]*Term{}, tab: map[string]*Term{}, ufs: map[string][]int{}, quants: map[string]*Quant{}, quantKey: map[[4]int]*Quant{}, birth: map[string]int{}}
	c.True = c.mk(OConst, 0, 1, "", nil, nil)
	c.False = c.mk(OConst, 0, 0, "", nil, nil)
	return c
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func put64(b []byte, v uint64) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24), byte(v>>32), byte(v>>40), byte(v>>48), byte(v>>56))
}

func (c *Ctx) mk(op Op, w int, val uint64, name string, args []*Term, coef []uint64) *Term {
	b := c.keybuf[:0]
	b = append(b, byte(op), byte(w))
	b = put64(b, val)
	for _, a := range args {
		b = append(b, byte(a.id), byte(a.id>>8), byte(a.id>>16), byte(a.id>>24))
	}
	for _, k := range coef {
		b = put64(b, k)
	}
	b = append(b, name...)
	c.keybuf = b
	if t, ok := c.tab[string(b)]; ok {
		return t
	}
	t := &Term{op: op, w: w, id: c.nextID, val: val, name: name, args: args, coef: coef}
	c.nextID++
	if op == OVar {
		if _, ok := c.birth[name]; !ok {
			c.birth[name] = t.id
		}
	}
	c.tab[string(b)] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }
func (c *Ctx) Const(w int, v uint64) *Term {
	return c.mk(OConst, w, v&mask(w), "", nil, nil)
}
func (c *Ctx) Int(v int64) *Term { return c.Const(64, uint64(v)) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Var(name string, w int) *Term { return c.mk(OVar, w, 0, name, nil, nil) }
func (c *Ctx) Fresh(hint string, w int) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", sanitize(hint), c.fresh), w)
}
func (c *Ctx) FreshName(hint string) string {
	c.fresh++
	return fmt.Sprintf("%s!%d", sanitize(hint), c.fresh)
}
func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' {
			return r
		}
		return '_'
	}, s)
}

// born is a moment before which the symbol did not exist.
func (c *Ctx) born(name string) int {
	if b, ok := c.birth[name]; ok {
		return b
	}
	return 1 << 60
}

func (c *Ctx) UF(name string, w int, args ...*Term) *Term {
	if len(args) == 0 {
		return c.Var(name, w)
	}
	if _, ok := c.ufs[name]; !ok {
		c.birth[name] = c.nextID
		var ws []int
		for _, a := range args {
			ws = append(ws, a.w)
		}
		c.ufs[name] = append(ws, w)
	}
	return c.mk(OUF, w, 0, name, args, nil)
}

// ---- booleans

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return c.Bool(a.val == 0)
	case ONot:
		return a.args[0]
	case OUlt:
		return c.Ule(a.args[1], a.args[0])
	case OUle:
		return c.Ult(a.args[1], a.args[0])
	case OSlt:
		return c.Sle(a.args[1], a.args[0])
	case OSle:
		return c.Slt(a.args[1], a.args[0])
	}
	return c.mk(ONot, 0, 0, "", []*Term{a}, nil)
}

func (c *Ctx) And(as ...*Term) *Term { return c.nary(OAnd, as) }
func (c *Ctx) Or(as ...*Term) *Term  { return c.nary(OOr, as) }
func (c *Ctx) Implies(a, b *Term) *Term {
	return c.Or(c.Not(a), b)
}
func (c *Ctx) nary(op Op, as []*Term) *Term {
	unit, zero := c.True, c.False
	if op == OOr {
		unit, zero = zero, unit
	}
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == unit {
			return true
		}
		if a == zero {
			return false
		}
		if a.op == op {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a.id] {
			return true
		}
		if seen[c.Not(a).id] {
			return false
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(op, 0, 0, "", out, nil)
}

func (c *Ctx) Ite(k, a, b *Term) *Term {
	if k == c.True {
		return a
	}
	if k == c.False {
		return b
	}
	if a == b {
		return a
	}
	if k.op == ONot {
		return c.Ite(k.args[0], b, a)
	}
	if a.w == 0 {
		if a == c.True {
			return c.Or(k, b)
		}
		if a == c.False {
			return c.And(c.Not(k), b)
		}
		if b == c.True {
			return c.Or(c.Not(k), a)
		}
		if b == c.False {
			return c.And(k, a)
		}
	}
	if a.op == OIte && a.args[0] == k {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == k {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return c.mk(OIte, a.w, 0, "", []*Term{k, a, b}, nil)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d: %s %s", a.w, b.w, a, b))
	}
	if a.isConst() && b.isConst() {
		return c.False
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b == c.True {
			return a
		}
		if b == c.False {
			return c.Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		if c.Not(a) == b {
			return c.False
		}
		return c.mk(OEq, 0, 0, "", []*Term{a, b}, nil)
	}
	if a.isConst() {
		a, b = b, a
	}
	// ranges
	al, ah := c.rng(a)
	bl, bh := c.rng(b)
	if ah < bl || bh < al {
		return c.False
	}
	if b.isConst() {
		switch a.op {
		case OIte:
			x, y := a.args[1], a.args[2]
			if x.isConst() || y.isConst() {
				return c.Ite(a.args[0], c.Eq(x, b), c.Eq(y, b))
			}
		case OConcat:
			return c.eqConcatConst(a, b.val)
		case OLin:
			if len(a.args) == 1 && a.coef[0]&1 == 1 {
				inv := modinv(a.coef[0])
				return c.Eq(a.args[0], c.Const(a.w, (b.val-a.val)*inv))
			}
			if a.val != 0 {
				return c.Eq(c.lin(a.w, 0, a.args, a.coef), c.Const(a.w, b.val-a.val))
			}
		case OSext:
			x := a.args[0]
			lowv := b.val & mask(x.w)
			if c.sextVal(lowv, x.w, a.w) != b.val {
				return c.False
			}
			return c.Eq(x, c.Const(x.w, lowv))
		}
		return c.mk(OEq, 0, 0, "", []*Term{a, b}, nil)
	}
	if a.op == OConcat && b.op == OConcat {
		if r := c.eqConcat2(a, b); r != nil {
			return r
		}
	}
	if a.op == OLin || b.op == OLin {
		d := c.Sub(a, b)
		if d.isConst() {
			return c.Bool(d.val == 0)
		}
		if d.op != OLin {
			// a-b simplified to an atom
			if d != a && d != b {
				return c.Eq(d, c.Const(d.w, 0))
			}
		} else if len(d.args) == 1 && d.coef[0]&1 == 1 {
			return c.Eq(d.args[0], c.Const(d.w, (-d.val)*modinv(d.coef[0])))
		} else {
			// canonical: move negative-coefficient args to the right
			var pa, na []*Term
			var pc, nc []uint64
			for i, x := range d.args {
				if int64(d.coef[i]<<(64-uint(d.w))) < 0 {
					na = append(na, x)
					nc = append(nc, (-d.coef[i])&mask(d.w))
				} else {
					pa = append(pa, x)
					pc = append(pc, d.coef[i])
				}
			}
			l := c.lin(d.w, 0, pa, pc)
			r := c.lin(d.w, (-d.val)&mask(d.w), na, nc)
			a, b = l, r
			if a.isConst() && b.isConst() {
				return c.Bool(a.val == b.val)
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, 0, 0, "", []*Term{a, b}, nil)
}

func modinv(a uint64) uint64 {
	x := a
	for i := 0; i < 6; i++ {
		x *= 2 - a*x
	}
	return x
}
func (c *Ctx) sextVal(v uint64, from, to int) uint64 {
	if from < 64 && v>>(uint(from)-1)&1 == 1 {
		v |= ^mask(from)
	}
	return v & mask(to)
}

func (c *Ctx) eqConcatConst(a *Term, v uint64) *Term {
	var cs []*Term
	sh := a.w
	for _, p := range a.args {
		sh -= p.w
		cs = append(cs, c.Eq(p, c.Const(p.w, v>>uint(sh))))
	}
	return c.And(cs...)
}

func (c *Ctx) eqConcat2(a, b *Term) *Term {
	// piecewise on common cuts
	cuts := map[int]bool{}
	sh := a.w
	for _, p := range a.args {
		sh -= p.w
		cuts[sh] = true
	}
	sh = b.w
	var pts []int
	for _, p := range b.args {
		sh -= p.w
		if cuts[sh] {
			pts = append(pts, sh)
		}
	}
	if len(pts) < 2 { // only the final 0
		// still useful when one has a leading constant piece
		return nil
	}
	hi := a.w
	var cs []*Term
	for _, lo := range pts {
		cs = append(cs, c.Eq(c.Extract(a, lo, hi-lo), c.Extract(b, lo, hi-lo)))
		hi = lo
	}
	return c.And(cs...)
}

// ---- comparisons

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	al, ah := c.rng(a)
	bl, bh := c.rng(b)
	if ah < bl {
		return c.True
	}
	if al >= bh {
		return c.False
	}
	if b.isConst() && b.val == 1 {
		return c.Eq(a, c.Const(a.w, 0))
	}
	if a.isConst() && a.val == mask(a.w)-1 {
		return c.Eq(b, c.Const(a.w, mask(a.w)))
	}
	// zext on both / const: compare narrow
	if r := c.narrowCmp(a, b, c.Ult); r != nil {
		return r
	}
	if a.op == OIte && b.isConst() && (a.args[1].isConst() || a.args[2].isConst()) {
		return c.Ite(a.args[0], c.Ult(a.args[1], b), c.Ult(a.args[2], b))
	}
	return c.mk(OUlt, 0, 0, "", []*Term{a, b}, nil)
}
func (c *Ctx) Ule(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	al, ah := c.rng(a)
	bl, bh := c.rng(b)
	if ah <= bl {
		return c.True
	}
	if al > bh {
		return c.False
	}
	if b.isConst() && b.val == 0 {
		return c.Eq(a, b)
	}
	// canonicalise constants to strict form
	if b.isConst() {
		return c.Ult(a, c.Const(b.w, b.val+1)) // b.val+1 no overflow since ah > bl
	}
	if a.isConst() {
		return c.Ult(c.Const(a.w, a.val-1), b) // a.val > 0 since ah<=bl failed
	}
	if r := c.narrowCmp(a, b, c.Ule); r != nil {
		return r
	}
	return c.mk(OUle, 0, 0, "", []*Term{a, b}, nil)
}

// narrowCmp strips common zero high pieces.
func (c *Ctx) narrowCmp(a, b *Term, f func(a, b *Term) *Term) *Term {
	za, zb := zeroHigh(a), zeroHigh(b)
	z := za
	if zb < z {
		z = zb
	}
	if z > 0 && z < a.w {
		return f(c.Extract(a, 0, a.w-z), c.Extract(b, 0, b.w-z))
	}
	return nil
}
func zeroHigh(t *Term) int {
	if t.op == OConst {
		return t.w - bits.Len64(t.val)
	}
	if t.op == OConcat && t.args[0].isConst() && t.args[0].val == 0 {
		return t.args[0].w
	}
	return 0
}

func (c *Ctx) srng(t *Term) (int64, int64) {
	lo, hi := c.rng(t)
	h := uint64(1) << uint(t.w-1)
	if hi < h {
		return int64(lo), int64(hi)
	}
	if lo >= h {
		return int64(c.sextVal(lo, t.w, 64)), int64(c.sextVal(hi, t.w, 64))
	}
	if t.op == OSext {
		w := t.args[0].w
		return -int64(uint64(1) << uint(w-1)), int64(uint64(1)<<uint(w-1)) - 1
	}
	return -int64(h-1) - 1, int64(h - 1)
}

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	al, ah := c.srng(a)
	bl, bh := c.srng(b)
	if ah < bl {
		return c.True
	}
	if al >= bh {
		return c.False
	}
	if al >= 0 && bl >= 0 {
		return c.Ult(a, b)
	}
	if a.op == OIte && b.isConst() && (a.args[1].isConst() || a.args[2].isConst()) {
		return c.Ite(a.args[0], c.Slt(a.args[1], b), c.Slt(a.args[2], b))
	}
	return c.mk(OSlt, 0, 0, "", []*Term{a, b}, nil)
}
func (c *Ctx) Sle(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	al, ah := c.srng(a)
	bl, bh := c.srng(b)
	if ah <= bl {
		return c.True
	}
	if al > bh {
		return c.False
	}
	if al >= 0 && bl >= 0 {
		return c.Ule(a, b)
	}
	if b.isConst() {
		return c.Slt(a, c.Const(b.w, b.val+1))
	}
	if a.isConst() {
		return c.Slt(c.Const(a.w, a.val-1), b)
	}
	return c.mk(OSle, 0, 0, "", []*Term{a, b}, nil)
}

// rng: context-free unsigned range.
func (c *Ctx) rng(t *Term) (uint64, uint64) {
	if t.rng {
		return t.lo0, t.hi0
	}
	lo, hi := uint64(0), mask(t.w)
	switch t.op {
	case OConst:
		lo, hi = t.val, t.val
	case OConcat:
		lo, hi = 0, 0
		for _, p := range t.args {
			pl, ph := c.rng(p)
			lo = lo<<uint(p.w) | pl
			hi = hi<<uint(p.w) | ph
		}
	case OIte:
		al, ah := c.rng(t.args[1])
		bl, bh := c.rng(t.args[2])
		lo, hi = min(al, bl), max(ah, bh)
	case OLin:
		// interval over the integers with signed coefficients, exact while below 2^62
		const lim = int64(1) << 62
		k := int64(sx(t.val, t.w))
		l, h := k, k
		ok := k > -lim && k < lim
		for i, a := range t.args {
			if !ok {
				break
			}
			al, ah := c.rng(a)
			co := int64(sx(t.coef[i], t.w))
			if ah >= uint64(lim) || co <= -lim || co >= lim {
				ok = false
				break
			}
			x, ok1 := mulLim(co, int64(al), lim)
			y, ok2 := mulLim(co, int64(ah), lim)
			if !ok1 || !ok2 {
				ok = false
				break
			}
			if x > y {
				x, y = y, x
			}
			l += x
			h += y
			if l <= -lim || h >= lim {
				ok = false
			}
		}
		if ok {
			switch {
			case l >= 0 && uint64(h) <= mask(t.w):
				lo, hi = uint64(l), uint64(h)
			case h < 0 && (t.w == 64 || l >= -(int64(mask(t.w))+1)):
				lo, hi = uint64(l)&mask(t.w), uint64(h)&mask(t.w)
			}
		}
	case OUrem:
		if t.args[1].isConst() && t.args[1].val > 0 {
			hi = t.args[1].val - 1
		}
	case OUdiv:
		if t.args[1].isConst() && t.args[1].val > 0 {
			al, ah := c.rng(t.args[0])
			lo, hi = al/t.args[1].val, ah/t.args[1].val
		}
	case OBAnd:
		_, ah := c.rng(t.args[0])
		_, bh := c.rng(t.args[1])
		hi = min(ah, bh)
	case OVar:
		if strings.HasPrefix(t.name, "len!") { // lengths of symbolic sequences
			hi = maxLen
		}
	}
	t.rng, t.lo0, t.hi0 = true, lo, hi
	return lo, hi
}

const maxLen = uint64(1) << 40

// ---- arithmetic

func (c *Ctx) lin(w int, k uint64, args []*Term, coef []uint64) *Term {
	k &= mask(w)
	if len(args) == 0 {
		return c.Const(w, k)
	}
	if len(args) == 1 && k == 0 && coef[0] == 1 {
		return args[0]
	}
	return c.mk(OLin, w, k, "", args, coef)
}

func (c *Ctx) addScaled(a *Term, ka uint64, b *Term, kb uint64) *Term {
	w := a.w
	m := mask(w)
	type mono struct {
		t *Term
		k uint64
	}
	k := uint64(0)
	var ms []mono
	add := func(t *Term, s uint64) {
		switch t.op {
		case OConst:
			k += t.val * s
		case OLin:
			k += t.val * s
			for i, x := range t.args {
				ms = append(ms, mono{x, t.coef[i] * s})
			}
		default:
			ms = append(ms, mono{t, s})
		}
	}
	add(a, ka)
	if b != nil {
		add(b, kb)
	}
	sort.SliceStable(ms, func(i, j int) bool { return ms[i].t.id < ms[j].t.id })
	var args []*Term
	var coef []uint64
	for i := 0; i < len(ms); {
		s := uint64(0)
		j := i
		for ; j < len(ms) && ms[j].t == ms[i].t; j++ {
			s += ms[j].k
		}
		if s&m != 0 {
			args = append(args, ms[i].t)
			coef = append(coef, s&m)
		}
		i = j
	}
	return c.lin(w, k, args, coef)
}
func (c *Ctx) Add(a, b *Term) *Term {
	// disjoint pieces?
	if a.op == OConcat && b.op == OConcat {
		if r := c.mergeDisjoint(a, b); r != nil {
			return r
		}
	}
	return c.addScaled(a, 1, b, 1)
}
func (c *Ctx) Sub(a, b *Term) *Term { return c.addScaled(a, 1, b, ^uint64(0)) }
func (c *Ctx) Neg(a *Term) *Term    { return c.addScaled(a, ^uint64(0), nil, 0) }
func (c *Ctx) AddC(a *Term, k int64) *Term {
	return c.addScaled(a, 1, c.Const(a.w, uint64(k)), 1)
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		return c.addScaled(a, b.val, nil, 0)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OMul, a.w, 0, "", []*Term{a, b}, nil)
}
func (c *Ctx) bin(op Op, a, b *Term) *Term { return c.mk(op, a.w, 0, "", []*Term{a, b}, nil) }

func (c *Ctx) Udiv(a, b *Term) *Term {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return c.Const(a.w, a.val/b.val)
		}
		if b.val&(b.val-1) == 0 {
			return c.Lshr(a, c.Const(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
	}
	return c.bin(OUdiv, a, b)
}
func (c *Ctx) Urem(a, b *Term) *Term {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return c.Const(a.w, a.val%b.val)
		}
		if b.val&(b.val-1) == 0 {
			return c.BAnd(a, c.Const(a.w, b.val-1))
		}
	}
	return c.bin(OUrem, a, b)
}
func (c *Ctx) Sdiv(a, b *Term) *Term {
	al, _ := c.srng(a)
	bl, _ := c.srng(b)
	if al >= 0 && bl >= 0 {
		return c.Udiv(a, b)
	}
	if a.isConst() && b.isConst() && b.val != 0 {
		x, y := int64(c.sextVal(a.val, a.w, 64)), int64(c.sextVal(b.val, b.w, 64))
		if y == -1 {
			return c.Const(a.w, uint64(-x))
		}
		return c.Const(a.w, uint64(x/y))
	}
	return c.bin(OSdiv, a, b)
}
func (c *Ctx) Srem(a, b *Term) *Term {
	al, _ := c.srng(a)
	bl, _ := c.srng(b)
	if al >= 0 && bl >= 0 {
		return c.Urem(a, b)
	}
	if a.isConst() && b.isConst() && b.val != 0 {
		x, y := int64(c.sextVal(a.val, a.w, 64)), int64(c.sextVal(b.val, b.w, 64))
		if y == -1 {
			return c.Const(a.w, 0)
		}
		return c.Const(a.w, uint64(x%y))
	}
	return c.bin(OSrem, a, b)
}

// ---- bit pieces

func (c *Ctx) Concat(ps ...*Term) *Term {
	var out []*Term
	var add func(p *Term)
	add = func(p *Term) {
		if p.op == OConcat {
			for _, x := range p.args {
				add(x)
			}
			return
		}
		if len(out) > 0 {
			l := out[len(out)-1]
			if l.isConst() && p.isConst() {
				out[len(out)-1] = c.Const(l.w+p.w, l.val<<uint(p.w)|p.val)
				return
			}
			// adjacent extracts of the same term
			lb, llo := extOf(l)
			pb, plo := extOf(p)
			if lb == pb && llo == plo+p.w {
				out = out[:len(out)-1]
				add(c.Extract(lb, plo, l.w+p.w))
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range ps {
		if p.w > 0 {
			add(p)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, p := range out {
		w += p.w
	}
	if w > 64 {
		panic("concat > 64")
	}
	return c.mk(OConcat, w, 0, "", out, nil)
}
func extOf(t *Term) (*Term, int) {
	if t.op == OExtract {
		return t.args[0], int(t.val)
	}
	return t, 0
}

func (c *Ctx) Extract(t *Term, lo, w int) *Term {
	if w == 0 {
		panic("extract width 0")
	}
	if lo == 0 && w == t.w {
		return t
	}
	if lo+w > t.w {
		panic(fmt.Sprintf("extract out of range lo=%d w=%d of %d", lo, w, t.w))
	}
	switch t.op {
	case OConst:
		return c.Const(w, t.val>>uint(lo))
	case OExtract:
		return c.Extract(t.args[0], int(t.val)+lo, w)
	case OConcat:
		var ps []*Term
		sh := t.w
		for _, p := range t.args {
			sh -= p.w
			l, h := max(lo, sh), min(lo+w, sh+p.w)
			if l < h {
				ps = append(ps, c.Extract(p, l-sh, h-l))
			}
		}
		return c.Concat(ps...)
	case OLin:
		if lo == 0 {
			r := c.Const(w, t.val)
			for i, a := range t.args {
				r = c.addScaled(r, 1, c.Extract(a, 0, w), t.coef[i])
			}
			return r
		}
	case OMul:
		if lo == 0 {
			return c.Mul(c.Extract(t.args[0], 0, w), c.Extract(t.args[1], 0, w))
		}
	case OIte:
		if t.args[1].isConst() && t.args[2].isConst() || t.args[1].op == OConcat && t.args[2].op == OConcat || lo == 0 && (t.args[1].isConst() || t.args[2].isConst()) {
			return c.Ite(t.args[0], c.Extract(t.args[1], lo, w), c.Extract(t.args[2], lo, w))
		}
	case OSext:
		x := t.args[0]
		if lo+w <= x.w {
			return c.Extract(x, lo, w)
		}
		if lo == 0 {
			return c.Sext(x, w)
		}
	case OBAnd:
		return c.BAnd(c.Extract(t.args[0], lo, w), c.Extract(t.args[1], lo, w))
	case OBOr:
		return c.BOr(c.Extract(t.args[0], lo, w), c.Extract(t.args[1], lo, w))
	case OBXor:
		return c.BXor(c.Extract(t.args[0], lo, w), c.Extract(t.args[1], lo, w))
	}
	return c.mk(OExtract, w, uint64(lo), "", []*Term{t}, nil)
}
func (c *Ctx) Zext(t *Term, w int) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return c.Extract(t, 0, w)
	}
	return c.Concat(c.Const(w-t.w, 0), t)
}
func (c *Ctx) Sext(t *Term, w int) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return c.Extract(t, 0, w)
	}
	if t.isConst() {
		return c.Const(w, c.sextVal(t.val, t.w, w))
	}
	if lo, _ := c.srng(t); lo >= 0 {
		return c.Zext(t, w)
	}
	if t.op == OSext {
		return c.Sext(t.args[0], w)
	}
	return c.mk(OSext, w, 0, "", []*Term{t}, nil)
}

func runs(m uint64, w int) int {
	n := 0
	prev := uint64(0)
	for i := 0; i < w; i++ {
		b := m >> uint(i) & 1
		if b == 1 && prev == 0 {
			n++
		}
		prev = b
	}
	return n
}

// maskPieces builds concat taking bits of t where m has 1s and constant bit 'fill' elsewhere.
func (c *Ctx) maskPieces(t *Term, m uint64, fill uint64) *Term {
	var ps []*Term
	i := t.w
	for i > 0 {
		b := m >> uint(i-1) & 1
		j := i
		for j > 0 && m>>uint(j-1)&1 == b {
			j--
		}
		if b == 1 {
			ps = append(ps, c.Extract(t, j, i-j))
		} else if fill == 1 {
			ps = append(ps, c.Const(i-j, ^uint64(0)))
		} else {
			ps = append(ps, c.Const(i-j, 0))
		}
		i = j
	}
	return c.Concat(ps...)
}

func (c *Ctx) BAnd(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		if a.isConst() {
			return c.Const(a.w, a.val&b.val)
		}
		if b.val == 0 {
			return b
		}
		if b.val == mask(b.w) {
			return a
		}
		if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
			return c.Ite(a.args[0], c.BAnd(a.args[1], b), c.BAnd(a.args[2], b))
		}
		if runs(b.val, b.w) <= 4 {
			return c.maskPieces(a, b.val, 0)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.bin(OBAnd, a, b)
}
func (c *Ctx) mergeDisjoint(a, b *Term) *Term {
	// both concat/const: combine if at every bit at least one side is constant zero
	pa, pb := pieces(a), pieces(b)
	var out []*Term
	i, j := 0, 0
	ra, rb := pa[0].w, pb[0].w // remaining width of the current pieces (from the top)
	for {
		w := min(ra, rb)
		x := c.Extract(pa[i], ra-w, w)
		y := c.Extract(pb[j], rb-w, w)
		switch {
		case x.isConst() && x.val == 0:
			out = append(out, y)
		case y.isConst() && y.val == 0:
			out = append(out, x)
		default:
			return nil
		}
		ra -= w
		rb -= w
		if ra == 0 {
			i++
			if i < len(pa) {
				ra = pa[i].w
			}
		}
		if rb == 0 {
			j++
			if j < len(pb) {
				rb = pb[j].w
			}
		}
		if i >= len(pa) || j >= len(pb) {
			break
		}
	}
	return c.Concat(out...)
}
func pieces(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	return []*Term{t}
}
func (c *Ctx) BOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return c.Const(a.w, a.val|b.val)
		}
		if b.val == 0 {
			return a
		}
		if b.val == mask(b.w) {
			return b
		}
		if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
			return c.Ite(a.args[0], c.BOr(a.args[1], b), c.BOr(a.args[2], b))
		}
		if runs(b.val, b.w) <= 4 {
			return c.maskPieces(a, ^b.val&mask(b.w), 1)
		}
	}
	if r := c.mergeDisjoint(a, b); r != nil {
		return r
	}
	// ite with a zero branch: keep as ite over pieces when the other side is constant zero there
	if b.op == OIte && (b.args[1].isConst() && b.args[1].val == 0 || b.args[2].isConst() && b.args[2].val == 0) {
		return c.Ite(b.args[0], c.BOr(a, b.args[1]), c.BOr(a, b.args[2]))
	}
	if a.op == OIte && (a.args[1].isConst() && a.args[1].val == 0 || a.args[2].isConst() && a.args[2].val == 0) {
		return c.Ite(a.args[0], c.BOr(a.args[1], b), c.BOr(a.args[2], b))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.bin(OBOr, a, b)
}
func (c *Ctx) BXor(a, b *Term) *Term {
	if a == b {
		return c.Const(a.w, 0)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return c.Const(a.w, a.val^b.val)
		}
		if b.val == 0 {
			return a
		}
		if b.val == mask(b.w) {
			return c.BNot(a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.bin(OBXor, a, b)
}
func (c *Ctx) BNot(a *Term) *Term { // -a-1
	return c.addScaled(c.Const(a.w, ^uint64(0)), 1, a, ^uint64(0))
}

// shifts: b has the same width as a (unsigned amount)
func (c *Ctx) Shl(a, b *Term) *Term {
	if b.isConst() {
		if b.val >= uint64(a.w) {
			return c.Const(a.w, 0)
		}
		if b.val == 0 {
			return a
		}
		n := int(b.val)
		return c.Concat(c.Extract(a, 0, a.w-n), c.Const(n, 0))
	}
	return c.bin(OShl, a, b)
}
func (c *Ctx) Lshr(a, b *Term) *Term {
	if b.isConst() {
		if b.val >= uint64(a.w) {
			return c.Const(a.w, 0)
		}
		if b.val == 0 {
			return a
		}
		n := int(b.val)
		return c.Concat(c.Const(n, 0), c.Extract(a, n, a.w-n))
	}
	return c.bin(OLshr, a, b)
}
func (c *Ctx) Ashr(a, b *Term) *Term {
	if b.isConst() {
		n := int(min(b.val, uint64(a.w-1)))
		if n == 0 {
			return a
		}
		return c.Sext(c.Extract(a, n, a.w-n), a.w)
	}
	return c.bin(OAshr, a, b)
}

// ---- printing

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		if int64(c64(t)) < 0 && t.w == 64 {
			return fmt.Sprintf("%d", int64(t.val))
		}
		return fmt.Sprintf("%d", t.val)
	case OVar:
		return t.name
	}
	if d == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	var b strings.Builder
	b.WriteString("(")
	switch t.op {
	case OUF:
		b.WriteString(t.name)
	case OLin:
		b.WriteString("+")
		if t.val != 0 {
			if t.w == 64 {
				fmt.Fprintf(&b, " %d", int64(t.val))
			} else {
				fmt.Fprintf(&b, " %d", t.val)
			}
		}
		for i, a := range t.args {
			k := int64(sx(t.coef[i], t.w))
			if k == 1 {
				b.WriteString(" " + a.str(d-1))
			} else {
				fmt.Fprintf(&b, " %d*%s", k, a.str(d-1))
			}
		}
		b.WriteString(")")
		return b.String()
	case OExtract:
		fmt.Fprintf(&b, "[%d:%d]", int(t.val)+t.w-1, t.val)
	case OSext:
		fmt.Fprintf(&b, "sext%d", t.w)
	default:
		b.WriteString(opNames[t.op])
	}
	for _, a := range t.args {
		b.WriteString(" " + a.str(d-1))
	}
	b.WriteString(")")
	return b.String()
}

func sx(v uint64, w int) uint64 {
	if w < 64 && v>>(uint(w)-1)&1 == 1 {
		v |= ^mask(w)
	}
	return v
}
func c64(t *Term) uint64 { return sx(t.val, t.w) }

func mulLim(a, b, lim int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	r := a * b
	if r/b != a || r <= -lim || r >= lim {
		return 0, false
	}
	return r, true
}
