package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fv   Value // FuncV or builtin
	bi   *ssa.Builtin
	args []Value
	inv  *ssa.CallCommon
}

type panicInfo struct {
	val       *IfaceV
	where     string
	msg       string
	recovered bool
}

type loopCtx struct {
	snap  *State // state at the latest header entry
	count int
	inv   bool // invariant mode: back edge ends the path
	sub   int  // >0: inside inference exploration with this id
	gov   bool // header exit condition was decided in this iteration
}

type Frame struct {
	fn     *ssa.Function
	regs   []Value
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	ip     int
	defers []deferred
	onRet  func(s *State, v Value) // set result in the caller
	catch  bool                    // vCatch boundary
	pan    *panicInfo              // unwinding this frame
	loops  map[*ssa.BasicBlock]*loopCtx
	spec   *contractUse // executing a contract in use mode
	isDef  bool         // frame runs a deferred call of the frame below
	ghost  bool         // frame is harness/spec code
	gbase  bool         // bottom frame of a goroutine run
}

type event struct {
	kind string
	f    *FuncV
	args []Value
}

type State struct {
	pc         []*Term
	pcSet      map[*Term]bool
	pcOwn      bool
	wide       map[*Term]*Term // memo of widen along this path
	wideOwn    bool
	bnds       map[*Term]ival
	bndOwn     bool
	bndN       int
	sels       map[selKey]Value
	selOwn     bool
	frames     []*Frame
	own        []bool
	heap       map[int]*Obj
	hOwn       bool
	spawn      []event
	locks      map[string]int // key obj/path -> 1 write-held, -n read
	lkOwn      bool
	invs       []userInv
	allocLimit *Term
	trace      []string
	guards     []guard
	shared     []*shared
	steps      int
	seq        int
	pures      []pureRes
	quiet      bool // spec evaluation: memory accesses are unchecked
	K          *Term
	monIn      map[string]bool
	modSnap    *heapSnap
	zeros      []int // objects of types without size
}

type userInv struct {
	f    *FuncV
	name string
	fn   string // restrict to loops in functions whose name contains this
}

type guard struct {
	mu    string
	name  string
	obj   int
	sel   []Sel
	isMap bool
	all   bool
	leaf  bool
	seen  []seenAccess
}

type seenAccess struct {
	path  []Sel
	write bool
	held  map[string]bool // locks
	fn    string
}

func (s *State) clone() *State {
	n := *s
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	s.pc = n.pc
	s.pcOwn, n.pcOwn = false, false
	s.wideOwn, n.wideOwn = false, false
	s.bndOwn, n.bndOwn = false, false
	s.selOwn, n.selOwn = false, false
	n.frames = append([]*Frame{}, s.frames...)
	n.own = make([]bool, len(s.frames))
	for i := range s.own {
		s.own[i] = false
	}
	s.hOwn, n.hOwn = false, false
	s.lkOwn, n.lkOwn = false, false
	n.spawn = s.spawn[:len(s.spawn):len(s.spawn)]
	n.invs = s.invs[:len(s.invs):len(s.invs)]
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	n.guards = s.guards[:len(s.guards):len(s.guards)]
	return &n
}

func (s *State) top() *Frame {
	i := len(s.frames) - 1
	if !s.own[i] {
		f := *s.frames[i]
		f.regs = append([]Value{}, f.regs...)
		f.defers = f.defers[:len(f.defers):len(f.defers)]
		if f.loops != nil {
			m := make(map[*ssa.BasicBlock]*loopCtx, len(f.loops))
			for k, v := range f.loops {
				m[k] = v
			}
			f.loops = m
		}
		if f.pan != nil {
			p := *f.pan
			f.pan = &p
		}
		s.frames[i] = &f
		s.own[i] = true
	}
	return s.frames[i]
}
func (s *State) frameAt(i int) *Frame {
	save := s.frames
	so := s.own
	s.frames, s.own = s.frames[:i+1], s.own[:i+1]
	f := s.top()
	s.frames, s.own = save, so
	return f
}
func (s *State) push(f *Frame) {
	s.frames = append(s.frames[:len(s.frames):len(s.frames)], f)
	s.own = append(s.own[:len(s.own):len(s.own)], true)
}
func (s *State) pop() *Frame {
	f := s.frames[len(s.frames)-1]
	s.frames = s.frames[:len(s.frames)-1]
	s.own = s.own[:len(s.own)-1]
	return f
}

func (x *Exec) assume(s *State, t *Term) bool {
	if t == x.c.True {
		return true
	}
	if t == x.c.False {
		return false
	}
	if t.op == OAnd {
		for _, a := range t.args {
			if !x.assume(s, a) {
				return false
			}
		}
		return true
	}
	if s.pcSet[t] {
		return true
	}
	if s.pcSet[x.c.Not(t)] {
		return false
	}
	if !s.pcOwn {
		m := make(map[*Term]bool, len(s.pcSet)+8)
		for k := range s.pcSet {
			m[k] = true
		}
		s.pcSet = m
		s.pcOwn = true
	}
	s.pc = append(s.pc, t)
	s.pcSet[t] = true
	return true
}

// ---- heap

func (x *Exec) newObj(o *Obj) int {
	x.objID++
	id := x.objID
	x.cur.put(id, o)
	return id
}
func (s *State) put(id int, o *Obj) {
	if !s.hOwn {
		m := make(map[int]*Obj, len(s.heap)+16)
		for k, v := range s.heap {
			m[k] = v
		}
		s.heap = m
		s.hOwn = true
	}
	s.heap[id] = o
}

// lazyObj allocates an object in the base layer, shared by all states.
func (x *Exec) lazyObj(key string, mk func() *Obj) int {
	if id, ok := x.lazy[key]; ok {
		return id
	}
	x.objID++
	id := x.objID
	x.lazy[key] = id
	x.baseHeap[id] = mk()
	return id
}
func (x *Exec) obj(id int) *Obj {
	if o, ok := x.cur.heap[id]; ok {
		return o
	}
	if o, ok := x.baseHeap[id]; ok {
		return o
	}
	panic(fmt.Sprintf("no object %d", id))
}
func (x *Exec) wobj(id int) *Obj {
	o := x.obj(id)
	n := *o
	x.cur.put(id, &n)
	return &n
}

func pathKey(path []Sel) string {
	var b strings.Builder
	for _, p := range path {
		if p.idx != nil {
			fmt.Fprintf(&b, "[%d]", p.idx.id)
		} else {
			fmt.Fprintf(&b, ".%d", p.f)
		}
	}
	return b.String()
}
func (p *PtrV) key() string { return fmt.Sprintf("%d%s", p.obj, pathKey(p.path)) }

func (p *PtrV) ext(s Sel) *PtrV {
	np := make([]Sel, len(p.path)+1)
	copy(np, p.path)
	np[len(p.path)] = s
	return &PtrV{obj: p.obj, path: np}
}

func (x *Exec) load(p *PtrV) Value {
	v := x.obj(p.obj).val
	for _, s := range p.path {
		v = x.walk(v, s)
	}
	return v
}
func (x *Exec) walk(v Value, s Sel) Value {
	if s.idx != nil {
		av, ok := v.(*ArrV)
		if !ok {
			unsup("index into %T", v)
		}
		return x.sel(av.arr, s.idx)
	}
	switch v := v.(type) {
	case *StructV:
		return v.f[s.f]
	case *StrV, *SliceV: // reflect.StringHeader / reflect.SliceHeader view
		return x.headerField(v, s.f)
	}
	unsup("field of %T", v)
	return nil
}

// headerField views a string or slice through reflect.StringHeader/SliceHeader.
func (x *Exec) headerField(v Value, f int) Value {
	switch v := v.(type) {
	case *StrV:
		switch f {
		case 0:
			p := x.newArrayObj(types.Typ[types.Uint8], v.arr, x.c.Add(v.off, v.len), "StringHeader.Data")
			return x.addrOf(p.ext(Sel{idx: v.off}))
		case 1:
			return v.len
		}
	case *SliceV:
		switch f {
		case 0:
			if v.base == nil {
				return x.c.Const(64, 0)
			}
			return x.addrOf(v.base.ext(Sel{idx: v.off}))
		case 1:
			return v.len
		case 2:
			return v.cap
		}
	}
	unsup("header field %d of %T", f, v)
	return nil
}

// addrOf gives a pointer a symbolic address that asPointer maps back.
func (x *Exec) addrOf(p *PtrV) *Term {
	k := p.key()
	if x.addrs == nil {
		x.addrs = map[*Term]*PtrV{}
		x.addrKey = map[string]*Term{}
	}
	if t, ok := x.addrKey[k]; ok {
		return t
	}
	t := x.c.Fresh("addr", 64)
	x.addrKey[k] = t
	x.addrs[t] = p
	x.addrList = append(x.addrList, t)
	return t
}

// reinterpret adapts a value loaded through an unsafe pointer to the type read.
func (x *Exec) reinterpret(v Value, t types.Type) Value {
	sv, ok := v.(*StructV)
	if !ok {
		return v
	}
	str := isString(t)
	_, sl := t.Underlying().(*types.Slice)
	if !str && !sl {
		return v
	}
	if len(sv.f) < 2 {
		unsup("reinterpretation as %s", t)
	}
	d, _ := sv.f[0].(*Term)
	n, _ := sv.f[1].(*Term)
	if d == nil || n == nil {
		unsup("reinterpretation as %s", t)
	}
	p := x.addrs[d]
	if p == nil {
		if d.isConst() && d.val == 0 {
			if str {
				return x.emptyStr()
			}
			return x.nilSlice()
		}
		unsup("reinterpretation of an unknown address")
	}
	last := p.path[len(p.path)-1]
	base := &PtrV{obj: p.obj, path: p.path[:len(p.path)-1]}
	if str {
		x.assumes["an UnsafeString's bytes are not modified while it is in use"] = true
		return &StrV{x.arrOf(base).arr, last.idx, n}
	}
	k := n
	if len(sv.f) > 2 {
		k = sv.f[2].(*Term)
	}
	return &SliceV{base, last.idx, n, k}
}
func (x *Exec) store(p *PtrV, v Value) {
	o := x.obj(p.obj)
	nv := x.update(o.val, p.path, v)
	x.wobj(p.obj).val = nv
}
func (x *Exec) update(old Value, path []Sel, v Value) Value {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	if s.idx != nil {
		av := old.(*ArrV)
		if len(path) == 1 {
			return &ArrV{x.arrStore(av.arr, s.idx, v), av.n}
		}
		e := x.sel(av.arr, s.idx)
		return &ArrV{x.arrStore(av.arr, s.idx, x.update(e, path[1:], v)), av.n}
	}
	sv, ok := old.(*StructV)
	if !ok {
		unsup("field store into %T", old)
	}
	n := &StructV{f: append([]Value{}, sv.f...)}
	n.f[s.f] = x.update(sv.f[s.f], path[1:], v)
	return n
}

func (x *Exec) arrOf(p *PtrV) *ArrV {
	v := x.obj(p.obj).val
	for _, s := range p.path {
		v = x.walk(v, s)
	}
	av, ok := v.(*ArrV)
	if !ok {
		unsup("array expected, got %T", v)
	}
	return av
}
func (x *Exec) setArr(p *PtrV, a *Arr) {
	av := x.arrOf(p)
	o := x.obj(p.obj)
	nv := x.update(o.val, p.path, &ArrV{a, av.n})
	x.wobj(p.obj).val = nv
}

func (x *Exec) sliceArr(s *SliceV) *Arr { return x.arrOf(s.base).arr }

func (x *Exec) newArrayObj(elem types.Type, a *Arr, n *Term, hint string) *PtrV {
	id := x.newObj(&Obj{typ: types.NewArray(elem, -1), val: &ArrV{a, n}, hint: hint})
	return &PtrV{obj: id}
}
func (x *Exec) mkSlice(elem types.Type, a *Arr, n *Term, hint string) *SliceV {
	return &SliceV{x.newArrayObj(elem, a, n, hint), x.c.Const(64, 0), n, n}
}

type pureRes struct {
	name string
	args []Value
	res  Value
}
