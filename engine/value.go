package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type StrV struct {
	arr      *Arr
	off, len *Term
}
type SliceV struct {
	base          *PtrV // pointer to an array value; nil for the nil slice
	off, len, cap *Term
}
type Sel struct {
	f   int
	idx *Term // nil: field f
}
type PtrV struct {
	obj  int // 0 = nil
	path []Sel
	wild *Term // an integer used as a pointer that is not the address of a known object
}
type StructV struct{ f []Value }
type ArrV struct {
	arr *Arr
	n   *Term
}
type FuncV struct {
	fn     *ssa.Function
	free   []Value
	native string // builtin closures of the engine
	recv   Value  // bound receiver for bound-method values implemented natively
}
type IfaceV struct {
	t types.Type // nil: nil interface
	v Value
}
type OpaqueV struct {
	id   int
	what string
}
type MapV struct{ obj int }
type ChanV struct{ obj int }
type TupleV []Value

// opaqueT is the dynamic type of unknown interface contents.
var opaqueT types.Type = types.NewNamed(types.NewTypeName(0, nil, "opaque", nil), types.NewStruct(nil, nil), nil)

type Obj struct {
	typ types.Type
	val Value
	// maps
	m *MapObj
	// channels
	ch   *ChanObj
	hint string
	// arrays: slices of it are nil under this condition
	nilIf *Term
}
type mapEnt struct {
	k, v    Value
	present *Term
}
type MapObj struct {
	ents []mapEnt
	sym  bool // unknown further entries
	name string
	n    *Term
}
type ChanObj struct {
	buf    []Value
	cap    *Term
	closed bool
}

type AKind uint8

const (
	ABase AKind = iota
	AConst
	ALit
	AStore
	ACopy
	AIte
	AFunc
	AFold
)

type Arr struct {
	kind    AKind
	id      int
	elem    types.Type
	name    string
	pre     []*Term
	def     Value
	lit     []Value
	prev    *Arr
	idx     *Term
	val     Value
	src     *Arr
	dOff    *Term
	sOff    *Term
	n       *Term
	cond    *Term
	a, b    *Arr
	aOff    *Term
	bOff    *Term
	tab     []Value
	tabDone bool
	memo    map[*Term]Value
	fn      func(i *Term) Value
	blit    string // literal bytes
	isB     bool
}

type forkReq struct{ cond *Term }
type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func (x *Exec) newArr(k AKind, elem types.Type) *Arr {
	x.arrID++
	return &Arr{kind: k, id: x.arrID, elem: elem, memo: map[*Term]Value{}}
}
func (x *Exec) arrBase(name string, elem types.Type, pre ...*Term) *Arr {
	key := name
	for _, p := range pre {
		key += fmt.Sprintf(",%d", p.id)
	}
	if a, ok := x.bases[key]; ok {
		return a
	}
	a := x.newArr(ABase, elem)
	a.name = name
	a.pre = pre
	x.bases[key] = a
	return a
}
func (x *Exec) arrConst(elem types.Type, v Value) *Arr {
	a := x.newArr(AConst, elem)
	a.def = v
	return a
}
func (x *Exec) arrBytesLit(s string) *Arr {
	if a, ok := x.lits[s]; ok {
		return a
	}
	a := x.newArr(ALit, types.Typ[types.Uint8])
	a.blit = s
	a.isB = true
	x.lits[s] = a
	return a
}
func (x *Exec) arrStore(prev *Arr, idx *Term, v Value) *Arr {
	if prev.kind == AStore && prev.idx == idx {
		prev = prev.prev
	}
	a := x.newArr(AStore, prev.elem)
	a.prev, a.idx, a.val = prev, idx, v
	return a
}
func (x *Exec) arrCopy(prev *Arr, dOff *Term, src *Arr, sOff, n *Term) *Arr {
	if n.isConst() && n.val == 0 {
		return prev
	}
	if n.isConst() && n.val == 1 {
		return x.arrStore(prev, dOff, x.sel(src, sOff))
	}
	a := x.newArr(ACopy, prev.elem)
	a.prev, a.dOff, a.src, a.sOff, a.n = prev, dOff, src, sOff, n
	return a
}
func (x *Exec) arrIte(c *Term, a *Arr, aOff *Term, b *Arr, bOff *Term) *Arr {
	r := x.newArr(AIte, a.elem)
	r.cond, r.a, r.aOff, r.b, r.bOff = c, a, aOff, b, bOff
	return r
}

// sel reads element idx.
func (x *Exec) sel(a *Arr, idx *Term) Value {
	if v, ok := a.memo[idx]; ok {
		return v
	}
	if x.cur != nil {
		if v, ok := x.cur.sels[selKey{a, idx}]; ok {
			x.nquick++
			return v
		}
	}
	n, q := x.noMemo, x.nquick
	v := x.sel1(a, idx)
	switch {
	case n != x.noMemo:
	case q == x.nquick:
		a.memo[idx] = v
	default: // holds on this path
		s := x.cur
		if !s.selOwn {
			m := make(map[selKey]Value, len(s.sels)+8)
			for k, v := range s.sels {
				m[k] = v
			}
			s.sels, s.selOwn = m, true
		}
		s.sels[selKey{a, idx}] = v
	}
	return v
}

type selKey struct {
	a   *Arr
	idx *Term
}

func (x *Exec) sel1(a *Arr, idx *Term) Value {
	c := x.c
	switch a.kind {
	case ABase:
		return x.symElem(a.name, a.elem, append(append([]*Term{}, a.pre...), idx))
	case AConst:
		return a.def
	case ALit:
		n := len(a.lit)
		if a.isB {
			n = len(a.blit)
		}
		at := func(i int) Value {
			if a.isB {
				return c.Const(8, uint64(a.blit[i]))
			}
			return a.lit[i]
		}
		if idx.isConst() {
			if idx.val < uint64(n) {
				return at(int(idx.val))
			}
			return x.zero(a.elem)
		}
		if n == 0 {
			return x.zero(a.elem)
		}
		if n >= 8 {
			vals := make([]Value, n)
			for i := range vals {
				vals[i] = at(i)
			}
			if r := x.table(vals, idx); r != nil {
				return r
			}
		}
		r := at(n - 1)
		for i := n - 2; i >= 0; i-- {
			r = x.merge(c.Eq(idx, c.Const(64, uint64(i))), at(i), r)
		}
		return r
	case AStore:
		if !idx.isConst() {
			if vals := x.tableOf(a); vals != nil {
				if r := x.table(vals, idx); r != nil {
					return r
				}
			}
		}
		return x.mergeL(c.Eq(idx, a.idx), func() Value { return a.val }, func() Value { return x.sel(a.prev, idx) })
	case ACopy:
		in := c.Ult(c.Sub(idx, a.dOff), a.n)
		return x.mergeL(in, func() Value { return x.sel(a.src, c.Add(a.sOff, c.Sub(idx, a.dOff))) }, func() Value { return x.sel(a.prev, idx) })
	case AIte:
		return x.mergeL(a.cond, func() Value { return x.sel(a.a, c.Add(a.aOff, idx)) }, func() Value { return x.sel(a.b, c.Add(a.bOff, idx)) })
	case AFunc:
		return a.fn(idx)
	}
	panic("sel")
}

// tableOf is the contents of an array made of constant elements stored at constant positions.
func (x *Exec) tableOf(a *Arr) []Value {
	if a.tabDone {
		return a.tab
	}
	a.tabDone = true
	m := map[uint64]Value{}
	max, n := uint64(0), 0
	b := a
	for ; b.kind == AStore; b = b.prev {
		if !b.idx.isConst() || b.idx.val > 4096 {
			return nil
		}
		if t, ok := b.val.(*Term); !ok || !t.isConst() {
			return nil
		}
		if _, ok := m[b.idx.val]; !ok {
			m[b.idx.val] = b.val
		}
		if b.idx.val > max {
			max = b.idx.val
		}
		n++
	}
	if n < 8 {
		return nil
	}
	var def Value
	switch {
	case b.kind == AConst:
		def = b.def
	case b.kind == ALit && !b.isB && len(b.lit) == 0:
		def = x.zero(b.elem)
	default:
		return nil
	}
	if t, ok := def.(*Term); !ok || !t.isConst() {
		return nil
	}
	vals := make([]Value, max+2) // the last one stands for everything behind
	for i := range vals {
		vals[i] = def
		if v, ok := m[uint64(i)]; ok {
			vals[i] = v
		}
	}
	a.tab = vals
	return vals
}

// table reads a constant table as a search tree over its constant and linear segments.
func (x *Exec) table(vals []Value, idx *Term) Value {
	c := x.c
	type seg struct {
		lo  int
		v   uint64
		inc bool
	}
	var segs []seg
	w := 0
	for i, v := range vals {
		t, ok := v.(*Term)
		if !ok || !t.isConst() || t.w == 0 || isFloatTerm(t) {
			return nil
		}
		w = t.w
		if n := len(segs); n > 0 {
			s := &segs[n-1]
			one := i-s.lo == 1
			if t.val == s.v && !s.inc {
				continue
			}
			if t.val == (s.v+uint64(i-s.lo))&mask(w) && (s.inc || one) {
				s.inc = true
				continue
			}
		}
		segs = append(segs, seg{lo: i, v: t.val})
	}
	ext := func(k int) *Term {
		if w == idx.w {
			return idx
		}
		if w < idx.w {
			return c.Extract(idx, 0, w)
		}
		return c.Zext(idx, w)
	}
	var build func(a, b int) *Term
	build = func(a, b int) *Term {
		if b-a == 1 {
			s := segs[a]
			if s.inc {
				return c.Add(ext(0), c.Const(w, (s.v-uint64(s.lo))&mask(w)))
			}
			return c.Const(w, s.v)
		}
		m := (a + b) / 2
		return c.Ite(c.Ult(idx, c.Const(idx.w, uint64(segs[m].lo))), build(a, m), build(m, b))
	}
	return build(0, len(segs))
}
func isFloatTerm(t *Term) bool { return false }

func (x *Exec) mergeL(c *Term, a, b func() Value) Value {
	if c == x.c.True {
		return a()
	}
	if c == x.c.False {
		return b()
	}
	switch x.quick(c) {
	case 1:
		x.nquick++
		return a()
	case 0:
		x.nquick++
		return b()
	}
	return x.merge(c, a(), b())
}

// merge builds ite(c, a, b) for values; forks when impossible.
func (x *Exec) merge(c *Term, a, b Value) Value {
	if c == x.c.True {
		return a
	}
	if c == x.c.False {
		return b
	}
	if x.same(a, b) {
		return a
	}
	switch av := a.(type) {
	case *Term:
		return x.c.Ite(c, av, b.(*Term))
	case *StrV:
		bv := b.(*StrV)
		ln := x.c.Ite(c, av.len, bv.len)
		if av.arr == bv.arr {
			return &StrV{av.arr, x.c.Ite(c, av.off, bv.off), ln}
		}
		return &StrV{x.arrIte(c, av.arr, av.off, bv.arr, bv.off), x.c.Const(64, 0), ln}
	case *StructV:
		bv := b.(*StructV)
		r := &StructV{f: make([]Value, len(av.f))}
		for i := range av.f {
			r.f[i] = x.merge(c, av.f[i], bv.f[i])
		}
		return r
	case *ArrV:
		bv := b.(*ArrV)
		if av.n == bv.n {
			z := x.c.Const(64, 0)
			return &ArrV{x.arrIte(c, av.arr, z, bv.arr, z), av.n}
		}
	case *SliceV:
		bv := b.(*SliceV)
		if av.base != nil && bv.base != nil && samePtr(av.base, bv.base) {
			return &SliceV{av.base, x.c.Ite(c, av.off, bv.off), x.c.Ite(c, av.len, bv.len), x.c.Ite(c, av.cap, bv.cap)}
		}
	case *IfaceV:
		bv := b.(*IfaceV)
		if av.t != nil && bv.t != nil && av.t != opaqueT && types.Identical(av.t, bv.t) {
			return &IfaceV{av.t, x.merge(c, av.v, bv.v)}
		}
	case TupleV:
		bv := b.(TupleV)
		r := make(TupleV, len(av))
		for i := range av {
			r[i] = x.merge(c, av[i], bv[i])
		}
		return r
	}
	x.noMemo++
	if x.decide(c) {
		return a
	}
	return b
}

func samePtr(a, b *PtrV) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.wild != nil || b.wild != nil {
		return a.wild == b.wild
	}
	if a.obj != b.obj || len(a.path) != len(b.path) {
		return false
	}
	for i := range a.path {
		if a.path[i] != b.path[i] {
			return false
		}
	}
	return true
}

// same: syntactic identity of values.
func (x *Exec) same(a, b Value) bool {
	if a == b {
		return true
	}
	switch av := a.(type) {
	case *Term:
		return false
	case *StrV:
		bv, ok := b.(*StrV)
		return ok && av.arr == bv.arr && av.off == bv.off && av.len == bv.len
	case *SliceV:
		bv, ok := b.(*SliceV)
		return ok && samePtr(av.base, bv.base) && av.off == bv.off && av.len == bv.len && av.cap == bv.cap
	case *PtrV:
		bv, ok := b.(*PtrV)
		return ok && samePtr(av, bv)
	case *StructV:
		bv, ok := b.(*StructV)
		if !ok || len(av.f) != len(bv.f) {
			return false
		}
		for i := range av.f {
			if !x.same(av.f[i], bv.f[i]) {
				return false
			}
		}
		return true
	case *ArrV:
		bv, ok := b.(*ArrV)
		return ok && av.arr == bv.arr && av.n == bv.n
	case *FuncV:
		bv, ok := b.(*FuncV)
		if !ok || av.fn != bv.fn || av.native != bv.native || len(av.free) != len(bv.free) {
			return false
		}
		for i := range av.free {
			if !x.same(av.free[i], bv.free[i]) {
				return false
			}
		}
		return true
	case *IfaceV:
		bv, ok := b.(*IfaceV)
		if !ok {
			return false
		}
		if av.t == nil || bv.t == nil {
			return av.t == nil && bv.t == nil
		}
		return types.Identical(av.t, bv.t) && x.same(av.v, bv.v)
	case *MapV:
		bv, ok := b.(*MapV)
		return ok && av.obj == bv.obj
	case *ChanV:
		bv, ok := b.(*ChanV)
		return ok && av.obj == bv.obj
	case *OpaqueV:
		bv, ok := b.(*OpaqueV)
		return ok && av.id == bv.id
	case TupleV:
		bv, ok := b.(TupleV)
		if !ok || len(av) != len(bv) {
			return false
		}
		for i := range av {
			if !x.same(av[i], bv[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func width(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return 0
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
			return 32
		case types.Int64, types.Uint64, types.Int, types.Uint, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat:
			return 64
		}
	}
	return -1
}
func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (x *Exec) emptyStr() *StrV {
	z := x.c.Const(64, 0)
	return &StrV{x.arrBytesLit(""), z, z}
}
func (x *Exec) strLit(s string) *StrV {
	return &StrV{x.arrBytesLit(s), x.c.Const(64, 0), x.c.Const(64, uint64(len(s)))}
}
func (x *Exec) isNilSlice(v *SliceV) *Term {
	if v.base == nil {
		return x.c.True
	}
	if v.base.wild == nil {
		if n := x.obj(v.base.obj).nilIf; n != nil {
			return n
		}
	}
	return x.c.False
}

func (x *Exec) nilSlice() *SliceV {
	z := x.c.Const(64, 0)
	return &SliceV{nil, z, z, z}
}

// concrete string value if fully known
func (x *Exec) litOf(s *StrV) (string, bool) {
	if !s.len.isConst() || !s.off.isConst() {
		return "", false
	}
	if s.len.val == 0 {
		return "", true
	}
	if s.arr.kind == ALit && s.arr.isB {
		o, n := int(s.off.val), int(s.len.val)
		if o+n <= len(s.arr.blit) {
			return s.arr.blit[o : o+n], true
		}
	}
	if s.len.val > 256 {
		return "", false
	}
	var b []byte
	for i := uint64(0); i < s.len.val; i++ {
		t := x.sel(s.arr, x.c.AddC(s.off, int64(i))).(*Term)
		if !t.isConst() {
			return "", false
		}
		b = append(b, byte(t.val))
	}
	return string(b), true
}

func (x *Exec) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return x.emptyStr()
		}
		if u.Kind() == types.UnsafePointer {
			return &PtrV{}
		}
		if w := width(t); w >= 0 {
			return x.c.Const(w, 0)
		}
		if u.Kind() == types.Complex128 || u.Kind() == types.Complex64 {
			return &OpaqueV{0, "complex"}
		}
	case *types.Pointer:
		return &PtrV{}
	case *types.Slice:
		return x.nilSlice()
	case *types.Struct:
		s := &StructV{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = x.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		return &ArrV{x.arrConst(u.Elem(), x.zero(u.Elem())), x.c.Const(64, uint64(u.Len()))}
	case *types.Signature:
		return &FuncV{}
	case *types.Interface:
		return &IfaceV{}
	case *types.Map:
		return &MapV{}
	case *types.Chan:
		return &ChanV{}
	case *types.Tuple:
		r := make(TupleV, u.Len())
		for i := range r {
			r[i] = x.zero(u.At(i).Type())
		}
		return r
	}
	unsup("zero value of %s", t)
	return nil
}

// symElem: a symbolic element described by uninterpreted functions over idx args.
func (x *Exec) symElem(name string, t types.Type, args []*Term) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			ln := x.c.UF("len!"+name, 64, args...)
			return &StrV{x.arrBase(name+".s", types.Typ[types.Uint8], args...), x.c.Const(64, 0), ln}
		}
		if w := width(t); w >= 0 {
			return x.c.UF(name, w, args...)
		}
	case *types.Struct:
		s := &StructV{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = x.symElem(name+"."+u.Field(i).Name(), u.Field(i).Type(), args)
		}
		return s
	case *types.Array:
		return &ArrV{x.arrBase(name+".a", u.Elem(), args...), x.c.Const(64, uint64(u.Len()))}
	case *types.Slice:
		key := "slice:" + name
		for _, a := range args {
			key += fmt.Sprintf(",%d", a.id)
		}
		ln := x.c.UF("len!"+name, 64, args...)
		id := x.lazyObj(key, func() *Obj {
			return &Obj{typ: types.NewArray(u.Elem(), -1), val: &ArrV{x.arrBase(name+".e", u.Elem(), args...), ln}, hint: name}
		})
		return &SliceV{&PtrV{obj: id}, x.c.Const(64, 0), ln, ln}
	case *types.Pointer:
		key := "ptr:" + name
		for _, a := range args {
			key += fmt.Sprintf(",%d", a.id)
		}
		id := x.lazyObj(key, func() *Obj {
			return &Obj{typ: u.Elem(), val: x.symElem(name+".p", u.Elem(), args), hint: name}
		})
		return &PtrV{obj: id}
	case *types.Interface:
		key := "iface:" + name
		for _, a := range args {
			key += fmt.Sprintf(",%d", a.id)
		}
		return x.opaqueIface(key)
	}
	unsup("symbolic array element of type %s", t)
	return nil
}

func (x *Exec) opaqueIface(key string) *IfaceV {
	id, ok := x.opaques[key]
	if !ok {
		id = len(x.opaques) + 1
		x.opaques[key] = id
	}
	return &IfaceV{opaqueT, &OpaqueV{id, key}}
}

// sym creates a symbolic value of a type, for inputs and havoc.
func (x *Exec) sym(name string, t types.Type) Value {
	c := x.c
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			ln := c.Var("len!"+name, 64)
			return &StrV{x.arrBase(name, types.Typ[types.Uint8]), c.Const(64, 0), ln}
		}
		if w := width(t); w >= 0 {
			return c.Var(name, w)
		}
	case *types.Struct:
		s := &StructV{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = x.sym(name+"."+u.Field(i).Name(), u.Field(i).Type())
		}
		return s
	case *types.Array:
		return &ArrV{x.arrBase(name, u.Elem()), c.Const(64, uint64(u.Len()))}
	case *types.Slice:
		ln := c.Var("len!"+name, 64)
		id := x.newObj(&Obj{typ: types.NewArray(u.Elem(), -1), val: &ArrV{x.arrBase(name, u.Elem()), ln}, hint: name})
		return &SliceV{&PtrV{obj: id}, c.Const(64, 0), ln, ln}
	case *types.Pointer:
		id := x.newObj(&Obj{typ: u.Elem(), val: nil, hint: name})
		o := x.wobj(id)
		o.val = x.sym(name, u.Elem())
		return &PtrV{obj: id}
	case *types.Interface:
		return x.opaqueIface("in:" + name)
	case *types.Tuple:
		r := make(TupleV, u.Len())
		for i := range r {
			r[i] = x.sym(fmt.Sprintf("%s.%d", name, i), u.At(i).Type())
		}
		return r
	case *types.Map:
		id := x.newObj(&Obj{typ: t, m: &MapObj{sym: true, name: name, n: c.Var("len!"+name, 64)}, hint: name})
		return &MapV{id}
	}
	unsup("symbolic value of type %s", t)
	return nil
}

func isTime(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Time" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time"
}

func (x *Exec) show(v Value) string { return x.showD(v, 0) }
func (x *Exec) showD(v Value, d int) string {
	if d > 4 {
		return "…"
	}
	switch v := v.(type) {
	case nil:
		return "<none>"
	case *Term:
		return v.String()
	case *StrV:
		if s, ok := x.litOf(v); ok {
			return fmt.Sprintf("%q", s)
		}
		return fmt.Sprintf("str(#%d,%s,%s)", v.arr.id, v.off, v.len)
	case *SliceV:
		if v.base == nil {
			return "nil-slice"
		}
		return fmt.Sprintf("slice(%s,%s,%s,%s)", x.showD(v.base, d+1), v.off, v.len, v.cap)
	case *PtrV:
		s := fmt.Sprintf("&%d", v.obj)
		for _, p := range v.path {
			if p.idx != nil {
				s += "[" + p.idx.String() + "]"
			} else {
				s += fmt.Sprintf(".%d", p.f)
			}
		}
		return s
	case *StructV:
		var ps []string
		for _, f := range v.f {
			ps = append(ps, x.showD(f, d+1))
		}
		return "{" + strings.Join(ps, ", ") + "}"
	case *ArrV:
		return fmt.Sprintf("arr(#%d,%s)", v.arr.id, v.n)
	case *FuncV:
		if v.fn != nil {
			return "func " + v.fn.String()
		}
		return "func " + v.native
	case *IfaceV:
		if v.t == nil {
			return "nil-iface"
		}
		return fmt.Sprintf("%s(%s)", v.t, x.showD(v.v, d+1))
	case TupleV:
		var ps []string
		for _, f := range v {
			ps = append(ps, x.showD(f, d+1))
		}
		return "(" + strings.Join(ps, ", ") + ")"
	case *OpaqueV:
		return fmt.Sprintf("opaque%d", v.id)
	}
	return fmt.Sprintf("%T", v)
}
