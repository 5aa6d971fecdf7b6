package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// resolveCall finds the callee and arguments of a non-builtin call.
func (x *Exec) resolveCall(s *State, f *Frame, cc *ssa.CallCommon) (*FuncV, []Value, bool) {
	var args []Value
	if cc.Method != nil {
		iv, ok := x.reg(f, cc.Value).(*IfaceV)
		if !ok {
			unsup("invoke on %T", x.reg(f, cc.Value))
		}
		if iv.t == nil {
			return nil, nil, false
		}
		for _, a := range cc.Args {
			args = append(args, x.reg(f, a))
		}
		if iv.t == opaqueT {
			return &FuncV{native: "opaque." + cc.Method.Name(), recv: iv}, args, true
		}
		fn := x.p.prog.LookupMethod(iv.t, cc.Method.Pkg(), cc.Method.Name())
		if fn == nil {
			unsup("method %s of %s not found", cc.Method.Name(), iv.t)
		}
		return &FuncV{fn: fn}, append([]Value{iv.v}, args...), true
	}
	fv, ok := x.reg(f, cc.Value).(*FuncV)
	if !ok {
		unsup("call of %T", x.reg(f, cc.Value))
	}
	if fv.fn == nil && fv.native == "" {
		return nil, nil, false
	}
	for _, a := range cc.Args {
		args = append(args, x.reg(f, a))
	}
	return fv, args, true
}

func (x *Exec) call(s *State, f *Frame, in *ssa.Call) bool {
	if b, ok := in.Call.Value.(*ssa.Builtin); ok && in.Call.Method == nil {
		return x.builtin(s, f, in, b)
	}
	fv, args, ok := x.resolveCall(s, f, &in.Call)
	if !ok {
		return x.rtPanic(s, "nil pointer dereference")
	}
	ret := func(s *State, v Value) {
		g := s.top()
		if v == nil {
			v = TupleV{}
		}
		x.set(g, in, v)
	}
	fi := len(s.frames) - 1
	_ = fi
	x.invokeAt(s, fv, args, ret, false)
	return x.ended(s)
}

func (x *Exec) ended(s *State) bool { return false }

// invokeAt calls fv; the calling frame's ip is advanced exactly when the call has been accepted.
func (x *Exec) invokeAt(s *State, fv *FuncV, args []Value, ret func(s *State, v Value), isDef bool) {
	x.doInvoke(s, fv, args, ret, isDef, true)
}
func (x *Exec) invoke(s *State, fv *FuncV, args []Value, ret func(s *State, v Value), isDef bool) {
	x.doInvoke(s, fv, args, ret, isDef, false)
}

type callCtx struct {
	x    *Exec
	s    *State
	fn   *ssa.Function
	name string
	args []Value
	ret  func(s *State, v Value)
	adv  bool
	sig  *types.Signature
}

// done delivers an immediate result.
func (cc *callCtx) done(v Value) {
	if cc.adv {
		cc.s.top().ip++
	}
	cc.ret(cc.s, v)
}
func (cc *callCtx) panic(msg string) { cc.x.rtPanic(cc.s, msg) }
func (cc *callCtx) pushFrame(f *Frame) {
	if cc.adv {
		cc.s.top().ip++
	}
	cc.s.push(f)
}

func (x *Exec) doInvoke(s *State, fv *FuncV, args []Value, ret func(s *State, v Value), isDef, adv bool) {
	cc := &callCtx{x: x, s: s, fn: fv.fn, args: args, ret: ret, adv: adv}
	if fv.native != "" {
		x.native(cc, fv)
		return
	}
	fn := fv.fn
	cc.sig = fn.Signature
	if fn.Origin() != nil {
		cc.name = fn.Origin().String()
	} else {
		cc.name = fn.String()
	}
	if x.p.isRuntime(fn) {
		if h := rtFuncs[baseName(fn)]; h != nil {
			h(cc)
			return
		}
	}
	if h := intrinsics[cc.name]; h != nil {
		if h(cc) {
			return
		}
	}
	if len(fn.Blocks) == 0 {
		unsup("call of external function %s", fn)
	}
	if x.useContract(cc, fn) {
		return
	}
	if len(s.frames) > 220 {
		unsup("call depth exceeded at %s", fn)
	}
	depth := 0
	for _, g := range s.frames {
		if g.fn == fn {
			depth++
		}
	}
	if depth > 40 {
		unsup("recursion depth exceeded in %s", fn)
	}
	if (strings.HasPrefix(fn.Name(), "vp") || strings.HasPrefix(fn.Name(), "vo")) && x.p.isGhost(fn) {
		if v, ok := x.evalMerged(s, fv, args); ok {
			cc.done(v)
			return
		}
	}
	if strings.HasPrefix(fn.Name(), "vr") && x.p.isGhost(fn) && fn.Parent() == nil {
		cc.done(x.recSpec(s, fv, args))
		return
	}
	nf := x.newFrame(fn, args, fv.free)
	nf.onRet = ret
	nf.isDef = isDef
	nf.ghost = x.p.isGhost(fn)
	if !nf.ghost {
		x.funcs[fn.String()] = true
	}
	cc.pushFrame(nf)
}

// evalMerged runs a specification function ("vp...") to one merged value instead of
// branching the caller; not possible when it may panic or the results do not merge.
func (x *Exec) evalMerged(s *State, fv *FuncV, args []Value) (v Value, ok bool) {
	key := fmt.Sprintf("%d%s", x.recDepth, fv.fn)
	for _, a := range args {
		t, ok := a.(*Term)
		if !ok {
			key = ""
			break
		}
		key += fmt.Sprintf("|%p", t)
	}
	if v, ok := x.merged[key]; ok && key != "" {
		return v, true
	}
	st := s.clone()
	st.quiet = true
	if key != "" { // scalar arguments: evaluated without the path's facts, once
		st.pc, st.pcSet, st.pcOwn = nil, map[*Term]bool{}, true
		defer func() {
			if ok {
				x.merged[key] = v
			}
		}()
	}
	base := len(st.frames)
	fr := x.newFrame(fv.fn, args, fv.free)
	fr.ghost = true
	st.push(fr)
	n0 := len(st.pc)
	x.suppress++
	x.noSat++
	outs := x.explore(st, base)
	x.noSat--
	x.suppress--
	if len(outs) == 0 {
		return nil, false
	}
	for i, o := range outs {
		t, isT := o.v.(*Term)
		if o.pan != nil || !isT || o.blocked != "" {
			return nil, false
		}
		if i == 0 {
			v = t
			continue
		}
		v = x.c.Ite(x.c.And(append([]*Term{}, o.s.pc[n0:]...)...), t, v.(*Term))
	}
	return v, true
}

// recSpec: a recursive specification function ("vr...") is an uninterpreted function;
// where it is applied by a contract its definition is unfolded once.
func (x *Exec) recSpec(s *State, fv *FuncV, args []Value) *Term {
	c := x.c
	name := "vr:" + fv.fn.Name()
	var ts []*Term
	for _, a := range args {
		switch a := a.(type) {
		case *Term:
			ts = append(ts, a)
		case *SliceV:
			if a.base == nil {
				name += "#nil"
				continue
			}
			arr := x.sliceArr(a)
			name += fmt.Sprintf("#%d", arr.id)
			ts = append(ts, a.off, a.len)
		case *StrV:
			if a.arr == nil {
				name += "#nil"
				continue
			}
			name += fmt.Sprintf("#%d", a.arr.id)
			ts = append(ts, a.off, a.len)
		default:
			unsup("argument %T of %s", a, fv.fn)
		}
	}
	w := width(fv.fn.Signature.Results().At(0).Type())
	if w < 0 {
		unsup("result of %s", fv.fn)
	}
	t := c.UF(name, w, ts...)
	if x.recDepth > 0 || c.unfolds[t] != nil {
		return t
	}
	x.recDepth++
	defer func() { x.recDepth-- }()
	st := s.clone()
	st.pc, st.pcSet, st.pcOwn = nil, map[*Term]bool{}, true
	v, ok := x.evalMerged(st, fv, args)
	if !ok {
		unsup("definition of %s", fv.fn)
	}
	c.unfolds[t] = c.Eq(t, v.(*Term))
	x.e.syms, x.e.cache = map[*Term]map[string]struct{}{}, map[string]Result{}
	return t
}

func baseName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.Name()
	}
	return fn.Name()
}

func (x *Exec) builtin(s *State, f *Frame, in *ssa.Call, b *ssa.Builtin) bool {
	c := x.c
	var args []Value
	for _, a := range in.Call.Args {
		args = append(args, x.reg(f, a))
	}
	done := func(v Value) bool {
		f := s.top()
		if v == nil {
			v = TupleV{}
		}
		x.set(f, in, v)
		f.ip++
		return false
	}
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case *StrV:
			return done(v.len)
		case *SliceV:
			return done(v.len)
		case *ArrV:
			return done(v.n)
		case *PtrV:
			return done(c.Const(64, uint64(in.Call.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())))
		case *MapV:
			x.accessMap(s, v, false)
			return done(x.mapLen(v))
		case *ChanV:
			if v.obj == 0 {
				return done(c.Const(64, 0))
			}
			return done(c.Const(64, uint64(len(x.obj(v.obj).ch.buf))))
		}
	case "cap":
		switch v := args[0].(type) {
		case *SliceV:
			return done(v.cap)
		case *ArrV:
			return done(v.n)
		case *ChanV:
			return done(x.obj(v.obj).ch.cap)
		case *PtrV:
			return done(c.Const(64, uint64(in.Call.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())))
		}
	case "append":
		et := in.Type().Underlying().(*types.Slice).Elem()
		return done(x.appendV(args[0].(*SliceV), args[1], et))
	case "copy":
		return done(x.copyV(args[0].(*SliceV), args[1]))
	case "delete":
		x.accessMap(s, args[0].(*MapV), true)
		x.mapDelete(args[0].(*MapV), args[1])
		return done(nil)
	case "close":
		ch := args[0].(*ChanV)
		if ch.obj == 0 {
			return x.rtPanic(s, "close of nil channel")
		}
		if x.obj(ch.obj).ch.closed {
			return x.rtPanic(s, "close of closed channel")
		}
		x.accessObj(s, ch.obj, true)
		x.chanClose(ch)
		return done(nil)
	case "panic":
		iv, _ := args[0].(*IfaceV)
		return x.startPanic(s, iv, "panic call")
	case "recover":
		// recovers if this frame is a deferred call run by a panicking frame
		n := len(s.frames)
		if n >= 2 && s.frames[n-1].isDef && s.frames[n-2].pan != nil && !s.frames[n-2].pan.recovered {
			g := s.frameAt(n - 2)
			g.pan.recovered = true
			v := g.pan.val
			if v == nil || v.t == nil {
				v = &IfaceV{opaqueT, &OpaqueV{-2, "panic value"}}
			}
			return done(v)
		}
		return done(&IfaceV{})
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			var lt *Term
			if isSigned(in.Type()) {
				lt = c.Slt(t, r)
			} else {
				lt = c.Ult(t, r)
			}
			if b.Name() == "max" {
				if isSigned(in.Type()) {
					lt = c.Slt(r, t)
				} else {
					lt = c.Ult(r, t)
				}
			}
			r = c.Ite(lt, t, r)
		}
		return done(r)
	case "clear":
		if m, ok := args[0].(*MapV); ok {
			if m.obj != 0 {
				x.wobj(m.obj).m = &MapObj{n: c.Const(64, 0)}
			}
			return done(nil)
		}
	case "print", "println":
		return done(nil)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*PtrV); ok && p.obj == 0 {
			return x.rtPanic(s, "nil pointer dereference")
		}
		return done(args[0])
	case "String": // unsafe.String(ptr, len)
		p := args[0].(*PtrV)
		n := x.idx(args[1], in.Call.Args[1].Type())
		if p.obj == 0 {
			return done(x.emptyStr())
		}
		last := p.path[len(p.path)-1]
		arr := x.arrOf(&PtrV{obj: p.obj, path: p.path[:len(p.path)-1]})
		x.assumes["unsafe.String over bytes that are not modified afterwards"] = true
		return done(&StrV{arr.arr, last.idx, n})
	case "SliceData", "StringData":
		switch v := args[0].(type) {
		case *SliceV:
			if v.base == nil {
				return done(&PtrV{})
			}
			return done(v.base.ext(Sel{idx: v.off}))
		case *StrV:
			p := x.newArrayObj(types.Typ[types.Uint8], v.arr, c.Add(v.off, v.len), "StringData")
			return done(p.ext(Sel{idx: v.off}))
		}
	case "Slice": // unsafe.Slice(ptr, len)
		p := args[0].(*PtrV)
		n := x.idx(args[1], in.Call.Args[1].Type())
		if p.obj == 0 {
			return done(x.nilSlice())
		}
		last := p.path[len(p.path)-1]
		return done(&SliceV{&PtrV{obj: p.obj, path: p.path[:len(p.path)-1]}, last.idx, n, n})
	}
	unsup("builtin %s on %T", b.Name(), args[0])
	return false
}

func (x *Exec) seqOf(v Value) (arr *Arr, off, n *Term) {
	switch v := v.(type) {
	case *StrV:
		return v.arr, v.off, v.len
	case *SliceV:
		if v.base == nil {
			return nil, v.off, x.c.Const(64, 0)
		}
		return x.sliceArr(v), v.off, v.len
	}
	unsup("sequence expected, got %T", v)
	return
}

func (x *Exec) appendV(dst *SliceV, src Value, et types.Type) Value {
	c := x.c
	sArr, sOff, n := x.seqOf(src)
	if n.isConst() && n.val == 0 {
		return dst
	}
	nl := c.Add(dst.len, n)
	if dst.base != nil && x.decide(c.Sle(nl, dst.cap)) {
		x.access(x.cur, dst.base, true, false)
		a := x.sliceArr(dst)
		x.setArr(dst.base, x.arrCopy(a, c.Add(dst.off, dst.len), sArr, sOff, n))
		return &SliceV{dst.base, dst.off, nl, dst.cap}
	}
	if x.isNilSlice(dst) != c.False && !n.isConst() {
		if x.decide(c.Eq(n, c.Const(64, 0))) {
			return dst
		}
	}
	z := c.Const(64, 0)
	var a *Arr
	if dst.base == nil || dst.len.isConst() && dst.len.val == 0 {
		a = x.arrConst(et, x.zero(et))
	} else {
		old := x.sliceArr(dst)
		if dst.off.isConst() && dst.off.val == 0 {
			a = old
		} else {
			a = x.arrCopy(x.arrConst(et, x.zero(et)), z, old, dst.off, dst.len)
		}
	}
	a = x.arrCopy(a, dst.len, sArr, sOff, n)
	x.assumes["append grows a full slice to exactly the needed capacity (no spare room)"] = true
	p := x.newArrayObj(et, a, nl, "append")
	return &SliceV{p, z, nl, nl}
}

func (x *Exec) copyV(dst *SliceV, src Value) Value {
	c := x.c
	sArr, sOff, sn := x.seqOf(src)
	if dst.base == nil || sArr == nil {
		return c.Const(64, 0)
	}
	n := sn
	switch x.tryDecide(c.Sle(sn, dst.len)) {
	case 0:
		n = dst.len
	case -1:
		if !x.decide(c.Sle(sn, dst.len)) {
			n = dst.len
		}
	}
	x.access(x.cur, dst.base, true, false)
	a := x.sliceArr(dst)
	x.setArr(dst.base, x.arrCopy(a, dst.off, sArr, sOff, n))
	return n
}

// ---- maps

func (x *Exec) mapFind(m *MapV, k Value) int {
	o := x.obj(m.obj).m
	for i := len(o.ents) - 1; i >= 0; i-- {
		e := o.ents[i]
		if x.decide(x.valEq(e.k, k)) {
			return i
		}
	}
	return -1
}
func (x *Exec) mapLookup(m *MapV, k Value, mt *types.Map) (Value, *Term) {
	if m.obj == 0 {
		return x.zero(mt.Elem()), x.c.False
	}
	i := x.mapFind(m, k)
	if i < 0 {
		o := x.obj(m.obj).m
		if !o.sym {
			return x.zero(mt.Elem()), x.c.False
		}
		// unknown entry: materialise
		n := *o
		nm := x.c.FreshName(o.name + ".e")
		pres := x.c.Var(nm+".in", 0)
		n.ents = append(o.ents[:len(o.ents):len(o.ents)], mapEnt{k, x.sym(nm, mt.Elem()), pres})
		x.wobj(m.obj).m = &n
		i = len(n.ents) - 1
	}
	e := x.obj(m.obj).m.ents[i]
	if x.decide(e.present) {
		return e.v, x.c.True
	}
	return x.zero(mt.Elem()), x.c.False
}
func (x *Exec) mapUpdate(m *MapV, k, v Value, mt *types.Map) {
	i := x.mapFind(m, k)
	o := x.obj(m.obj).m
	n := *o
	if i >= 0 {
		n.ents = append([]mapEnt{}, o.ents...)
		was := n.ents[i].present
		n.ents[i] = mapEnt{n.ents[i].k, v, x.c.True}
		n.n = x.c.Add(o.n, x.c.Ite(was, x.c.Const(64, 0), x.c.Const(64, 1)))
	} else {
		n.ents = append(o.ents[:len(o.ents):len(o.ents)], mapEnt{k, v, x.c.True})
		n.n = x.c.AddC(o.n, 1)
		if o.sym {
			was := x.c.Fresh(o.name+".had", 0)
			n.n = x.c.Add(o.n, x.c.Ite(was, x.c.Const(64, 0), x.c.Const(64, 1)))
		}
	}
	x.wobj(m.obj).m = &n
}
func (x *Exec) mapDelete(m *MapV, k Value) {
	if m.obj == 0 {
		return
	}
	i := x.mapFind(m, k)
	o := x.obj(m.obj).m
	if i < 0 && !o.sym {
		return
	}
	n := *o
	if i >= 0 {
		n.ents = append([]mapEnt{}, o.ents...)
		was := n.ents[i].present
		n.ents[i].present = x.c.False
		n.n = x.c.Sub(o.n, x.c.Ite(was, x.c.Const(64, 1), x.c.Const(64, 0)))
	} else {
		was := x.c.Fresh(o.name+".had", 0)
		n.ents = append(o.ents[:len(o.ents):len(o.ents)], mapEnt{k, nil, x.c.False})
		n.n = x.c.Sub(o.n, x.c.Ite(was, x.c.Const(64, 1), x.c.Const(64, 0)))
	}
	x.wobj(m.obj).m = &n
}
func (x *Exec) mapLen(m *MapV) *Term {
	if m.obj == 0 {
		return x.c.Const(64, 0)
	}
	return x.obj(m.obj).m.n
}

type rangeV struct {
	m    *MapV
	ents []mapEnt
	i    int
	str  *StrV
}

func (x *Exec) rangeStart(v Value, t types.Type) Value {
	switch v := v.(type) {
	case *MapV:
		if v.obj == 0 {
			return &rangeV{m: v}
		}
		o := x.obj(v.obj).m
		if o.sym {
			unsup("iteration over an unknown map")
		}
		x.assumes["map iteration visits entries in insertion order"] = true
		id := x.newObj(&Obj{typ: types.Typ[types.Int], val: &rangeBox{&rangeV{m: v, ents: o.ents}}, hint: "range"})
		return &PtrV{obj: id}
	case *StrV:
		if sv, ok := x.litOf(v); ok {
			_ = sv
			id := x.newObj(&Obj{typ: types.Typ[types.Int], val: &rangeBox{&rangeV{str: v}}, hint: "range"})
			return &PtrV{obj: id}
		}
	}
	unsup("range over %T", v)
	return nil
}

type rangeBox struct{ r *rangeV }

func (x *Exec) rangeNext(s *State, f *Frame, in *ssa.Next) Value {
	tt := in.Type().(*types.Tuple)
	it := x.reg(f, in.Iter)
	if r, ok := it.(*rangeV); ok && len(r.ents) == 0 {
		return TupleV{x.c.False, x.zeroOr(tt.At(1).Type()), x.zeroOr(tt.At(2).Type())}
	}
	p := it.(*PtrV)
	r := x.obj(p.obj).val.(*rangeBox).r
	if r.str != nil {
		sv, _ := x.litOf(r.str)
		for i, ch := range sv[r.i:] {
			n := *r
			w := len(string(ch))
			n.i = r.i + i + w
			x.wobj(p.obj).val = &rangeBox{&n}
			return TupleV{x.c.True, x.c.Const(64, uint64(r.i)), x.c.Const(32, uint64(ch))}
		}
		return TupleV{x.c.False, x.c.Const(64, 0), x.c.Const(32, 0)}
	}
	i := r.i
	for i < len(r.ents) {
		// entry must still be present
		if x.decide(r.ents[i].present) {
			break
		}
		i++
	}
	n := *r
	n.i = i + 1
	if i >= len(r.ents) {
		return TupleV{x.c.False, x.zeroOr(tt.At(1).Type()), x.zeroOr(tt.At(2).Type())}
	}
	x.wobj(p.obj).val = &rangeBox{&n}
	return TupleV{x.c.True, r.ents[i].k, r.ents[i].v}
}
func (x *Exec) zeroOr(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return TupleV{}
	}
	return x.zero(t)
}

// ---- channels (sequential model: a buffered queue)

func (x *Exec) chanSend(s *State, f *Frame, ch *ChanV, v Value) bool {
	if ch.obj == 0 {
		panic(blockPath{"send on nil channel"})
	}
	x.accessObj(s, ch.obj, true)
	o := x.obj(ch.obj).ch
	if o.closed {
		return x.rtPanic(s, "send on closed channel")
	}
	if !x.decide(x.c.Slt(x.c.Const(64, uint64(len(o.buf))), o.cap)) {
		panic(blockPath{"channel send blocks at " + x.where(s)})
	}
	n := *o
	n.buf = append(o.buf[:len(o.buf):len(o.buf)], v)
	x.wobj(ch.obj).ch = &n
	f.ip++
	return false
}
func (x *Exec) chanClose(ch *ChanV) {
	o := x.obj(ch.obj).ch
	n := *o
	n.closed = true
	x.wobj(ch.obj).ch = &n
}
func (x *Exec) chanRecv(ch *ChanV, et types.Type) (Value, *Term) {
	if ch.obj == 0 {
		panic(blockPath{"receive on nil channel"})
	}
	o := x.obj(ch.obj).ch
	if len(o.buf) > 0 {
		n := *o
		n.buf = o.buf[1:len(o.buf):len(o.buf)]
		v := o.buf[0]
		x.wobj(ch.obj).ch = &n
		return v, x.c.True
	}
	if o.closed {
		return x.zero(et), x.c.False
	}
	panic(blockPath{"channel receive blocks at " + x.where(x.cur)})
}

func (x *Exec) selectStmt(s *State, f *Frame, in *ssa.Select) Value {
	// ready cases; deterministic choice would be unsound: fork over the ready ones
	var ready []int
	for i, st := range in.States {
		ch := x.reg(f, st.Chan).(*ChanV)
		if ch.obj == 0 {
			continue
		}
		o := x.obj(ch.obj).ch
		if st.Dir == types.SendOnly {
			x.accessObj(s, ch.obj, true)
			if o.closed {
				unsup("select send on closed channel")
			}
			if x.decide(x.c.Slt(x.c.Const(64, uint64(len(o.buf))), o.cap)) {
				ready = append(ready, i)
			}
		} else if len(o.buf) > 0 || o.closed {
			ready = append(ready, i)
		}
	}
	pick := -1
	for k, i := range ready {
		if k == len(ready)-1 {
			pick = i
			break
		}
		if x.decide(x.c.Var(fmt.Sprintf("select!%d!%d", s.seq, i), 0)) {
			pick = i
			break
		}
	}
	if pick < 0 {
		if in.Blocking {
			panic(blockPath{"select blocks at " + x.where(s)})
		}
	}
	s.seq++
	r := TupleV{x.c.Const(64, uint64(int64(pick))), x.c.False}
	for i, st := range in.States {
		ch := x.reg(f, st.Chan).(*ChanV)
		if st.Dir == types.SendOnly {
			if i == pick {
				o := x.obj(ch.obj).ch
				n := *o
				n.buf = append(o.buf[:len(o.buf):len(o.buf)], x.reg(f, st.Send))
				x.wobj(ch.obj).ch = &n
			}
			continue
		}
		et := st.Chan.Type().Underlying().(*types.Chan).Elem()
		if i == pick {
			v, ok := x.chanRecv(ch, et)
			r[1] = ok
			r = append(r, v)
		} else {
			r = append(r, x.zero(et))
		}
	}
	return r
}

// ---- native function values

func (x *Exec) native(cc *callCtx, fv *FuncV) {
	if strings.HasPrefix(fv.native, "opaque.") {
		switch fv.native[7:] {
		case "Error", "String":
			o := fv.recv.(*IfaceV).v.(*OpaqueV)
			cc.done(x.sym(fmt.Sprintf("errtext%d", o.id), types.Typ[types.String]))
			return
		}
	}
	unsup("native function %s", fv.native)
}

// ---- globals

func (x *Exec) globalObj(g *ssa.Global) int {
	if id, ok := x.globals[g]; ok {
		return id
	}
	if g.Pkg != nil && !x.inited[g.Pkg] {
		x.initPackage(g.Pkg)
		if id, ok := x.globals[g]; ok {
			return id
		}
	}
	return x.allocGlobal(g)
}
func (x *Exec) allocGlobal(g *ssa.Global) int {
	t := g.Type().(*types.Pointer).Elem()
	x.objID++
	id := x.objID
	x.globals[g] = id
	x.baseHeap[id] = &Obj{typ: t, val: x.zeroSafe(t), hint: g.String()}
	return id
}
func (x *Exec) zeroSafe(t types.Type) (v Value) {
	defer func() {
		if r := recover(); r != nil {
			v = &OpaqueV{0, t.String()}
		}
	}()
	return x.zero(t)
}

// initPackage runs the variable initialisers of a package (tolerantly) in an
// isolated state and publishes the resulting objects to the base heap.
func (x *Exec) initPackage(p *ssa.Package) {
	x.inited[p] = true
	fn := p.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, ok := x.globals[g]; !ok {
				x.allocGlobal(g)
			}
		}
	}
	save, sw, sb, so, ss, si := x.cur, x.work, x.base, x.outs, x.suppress, x.initing
	defer func() { x.cur, x.work, x.base, x.outs, x.suppress, x.initing = save, sw, sb, so, ss, si }()
	s := &State{pcSet: map[*Term]bool{}, heap: map[int]*Obj{}, hOwn: true, pcOwn: true}
	x.cur = s
	x.work, x.base, x.outs = nil, 0, nil
	x.suppress++
	x.initing = true
	fr := x.newFrame(fn, nil, nil)
	fr.ghost = true
	s.push(fr)
	guard := p.Var("init$guard")
	steps := 0
	for len(s.frames) > 0 {
		steps++
		if steps > 300000 {
			break
		}
		ok, end := x.tolerantStep(s, guard, fn)
		if end {
			break
		}
		_ = ok
	}
	for id, o := range s.heap {
		x.baseHeap[id] = o
	}
}

func (x *Exec) tolerantStep(s *State, guard *ssa.Global, initFn *ssa.Function) (ok, end bool) {
	f := s.top()
	if f.pan != nil {
		return false, true
	}
	if f.fn == initFn {
		in := f.block.Instrs[f.ip]
		if call, isCall := in.(*ssa.Call); isCall {
			if callee, isF := call.Call.Value.(*ssa.Function); isF && strings.HasPrefix(callee.Name(), "init") && callee.Signature.Recv() == nil {
				f.ip++ // other packages' init and init() functions are skipped
				return true, false
			}
		}
	}
	depth := len(s.frames)
	defer func() {
		if r := recover(); r != nil {
			if _, isU := r.(unsupported); !isU {
				if _, isF := r.(forkReq); !isF {
					if _, isK := r.(killPath); !isK {
						if _, isB := r.(blockPath); !isB {
							panic(r)
						}
					}
				}
			}
			// skip back to the init function and poison the result
			for len(s.frames) > 1 {
				s.pop()
			}
			_ = depth
			g := s.top()
			if len(s.frames) == 1 && depth > 1 {
				// ip was already advanced by the call
				return
			}
			g.ip++
			if g.ip >= len(g.block.Instrs) {
				end = true
			}
		}
	}()
	n := len(s.frames)
	if x.step(s) {
		return true, true
	}
	_ = n
	return true, false
}
