package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type outcome struct {
	s       *State
	v       Value
	pan     *panicInfo
	blocked string
}

type Failure struct {
	name    string
	kind    string
	why     string
	pc      []*Term
	goal    *Term // negated obligation
	unknown bool
	trace   []string
}

type Oblig struct {
	name   string
	checks int
	fails  []*Failure
}

type Exec struct {
	merged        map[string]Value
	noSat         int // branches of specification functions are merged without feasibility checks
	c             *Ctx
	e             *Engine
	p             *Program
	h             *Harness
	cur           *State
	arrID         int
	objID         int
	bases         map[string]*Arr
	lits          map[string]*Arr
	lazy          map[string]int
	opaques       map[string]int
	baseHeap      map[int]*Obj
	globals       map[*ssa.Global]int
	inited        map[*ssa.Package]bool
	initing       bool
	work          []*State
	base          int
	outs          []outcome
	suppress      int
	noMemo        int
	nquick        int
	obligs        map[string]*Oblig
	order         []string
	covers        map[string]bool
	coverAll      []string
	steps         int
	paths         int
	deadline      time.Time
	recDepth      int
	failedOnce    bool // an obligation of this harness failed
	stop          *atomic.Int64
	inLoop        *inference
	funcs         map[string]bool // functions executed
	loops         map[string]string
	inputs        []input
	inHeap        map[int]*Obj
	aborted       string
	recTerms      map[string]bool
	assumes       map[string]bool
	contractsUsed map[string]bool
	unroll        int // undecided loop exits fork for this many iterations
	onBack        []func(s *State, f *Frame, H *ssa.BasicBlock) bool
	dbg           bool
	nspec         int
	requiresSeen  int
	hav           map[int]bool
	invDone       map[*State]bool
	nloop         int
	addrs         map[*Term]*PtrV
	addrList      []*Term
	addrKey       map[string]*Term
	ceq           map[ceqKey]*Term
	ceqDepth      int
}

type input struct {
	name string
	typ  types.Type
	val  Value
}

func NewExec(p *Program, h *Harness) *Exec {

	c := NewCtx()
	x := &Exec{merged: map[string]Value{}, c: c, e: NewEngine(c), p: p, h: h, bases: map[string]*Arr{}, lits: map[string]*Arr{}, lazy: map[string]int{}, opaques: map[string]int{},
		baseHeap: map[int]*Obj{}, globals: map[*ssa.Global]int{}, inited: map[*ssa.Package]bool{}, obligs: map[string]*Oblig{}, covers: map[string]bool{},
		funcs: map[string]bool{}, loops: map[string]string{}, recTerms: map[string]bool{}, assumes: map[string]bool{}, contractsUsed: map[string]bool{}}
	x.dbg = os.Getenv("GOVC_TRACE") != ""
	return x
}

func (x *Exec) obl(name string) *Oblig {
	o := x.obligs[name]
	if o == nil {
		o = &Oblig{name: name}
		x.obligs[name] = o
		x.order = append(x.order, name)
	}
	return o
}

// oblige records and checks an obligation; the condition is assumed afterwards.
func (x *Exec) oblige(kind, name string, cond *Term) {
	s := x.cur
	if x.suppress > 0 {
		if !x.assume(s, cond) {
			panic(killPath{})
		}
		return
	}
	o := x.obl(kind + ":" + name)
	o.checks++
	neg := x.c.Not(cond)
	if neg != x.c.False && !s.pcSet[cond] {
		ms := x.h.timeout()
		if x.failedOnce {
			ms = 3000 // a violation is established; little is gained by long proofs
		}
		r := x.e.satT(s.pc, neg, ms)
		if r == Unknown && !x.failedOnce {
			r = x.retry(s.pc, neg)
		}
		if r != Unsat && x.e.satT(s.pc, x.c.True, 4000) == Unsat {
			panic(killPath{}) // no such path: only the facts about the goal had been looked at
		}
		if r != Unsat {
			o.fails = append(o.fails, &Failure{name: o.name, kind: kind, pc: s.pc, goal: neg, unknown: r == Unknown, why: x.where(s), trace: s.trace})
			x.sawFailure(o.name)
			if x.dbg {
				fmt.Printf("OBLIGATION FAILS %s %v goal %s\n", o.name, r, neg)
				for _, t := range s.pc {
					fmt.Printf("   pc %s\n", t)
				}
			}
		}
	}
	if !x.assume(s, cond) {
		panic(killPath{})
	}
}

func (x *Exec) retry(pc []*Term, neg *Term) Result {
	as := append(x.e.slice(pc, neg), neg)
	if neg == x.c.True {
		as = pc
	}
	full := x.c.instantiate(as)
	body, _ := x.c.printQuery(full, nil)
	// both at once, the first answer counts
	ms := x.h.timeout() * 2
	if left := int(time.Until(x.deadline).Milliseconds()); left < ms {
		ms = left
		if ms < 3000 {
			ms = 3000
		}
	}
	ch := make(chan Result, 2)
	var svs []*Solver
	for _, n := range []string{"z3", "cvc5"} {
		sv := NewSolver(n, ms)
		svs = append(svs, sv)
		go func() {
			r, _ := sv.Check(body, nil, ms)
			ch <- r
		}()
	}
	r := <-ch
	if r == Unknown {
		r = <-ch
	}
	for _, sv := range svs {
		sv.Kill()
	}
	return r
}

func (x *Exec) fail(kind, name, why string) {
	if x.suppress > 0 {
		return
	}
	o := x.obl(kind + ":" + name)
	o.checks++
	o.fails = append(o.fails, &Failure{name: o.name, kind: kind, pc: x.cur.pc, goal: x.c.True, why: why, trace: x.cur.trace})
	x.sawFailure(o.name)
}

type killPath struct{}
type blockPath struct{ why string }

// tryDecide: 1 true, 0 false, -1 both feasible.
func (x *Exec) tryDecide(t *Term) int {
	if t == x.c.True {
		return 1
	}
	if t == x.c.False {
		return 0
	}
	s := x.cur
	if r := s.known(t); r >= 0 {
		return r
	}
	n := x.c.Not(t)
	if r := s.known(n); r >= 0 {
		return 1 - r
	}
	if x.noSat > 0 {
		if f := s.frames[len(s.frames)-1]; f.loops[f.block] == nil {
			return -1
		}
	}
	if x.e.sat(s.pc, n) == Unsat {
		x.note(s, t)
		return 1
	}
	if x.e.sat(s.pc, t) == Unsat {
		x.note(s, n)
		return 0
	}
	return -1
}

// known: 1/0 when the recorded path facts settle t syntactically.
func (s *State) known(t *Term) int {
	if s.pcSet[t] {
		return 1
	}
	switch t.op {
	case OAnd:
		r := 1
		for _, a := range t.args {
			switch s.known(a) {
			case 0:
				return 0
			case -1:
				r = -1
			}
		}
		return r
	case OOr:
		r := 0
		for _, a := range t.args {
			switch s.known(a) {
			case 1:
				return 1
			case -1:
				r = -1
			}
		}
		return r
	case ONot:
		if r := s.known(t.args[0]); r >= 0 {
			return 1 - r
		}
	}
	return -1
}
func (x *Exec) note(s *State, t *Term) {
	if !s.pcOwn {
		m := make(map[*Term]bool, len(s.pcSet)+8)
		for k := range s.pcSet {
			m[k] = true
		}
		s.pcSet = m
		s.pcOwn = true
	}
	s.pcSet[t] = true
}
func (x *Exec) decide(t *Term) bool {
	switch x.tryDecide(t) {
	case 1:
		return true
	case 0:
		return false
	}
	panic(forkReq{t})
}

// ---- exploration

// explore runs s (and its forks) until the frame at depth base returns.
func (x *Exec) explore(s *State, base int) []outcome {
	sw, sb, so, sc := x.work, x.base, x.outs, x.cur
	x.work, x.base, x.outs = []*State{s}, base, nil
	defer func() { x.work, x.base, x.outs, x.cur = sw, sb, so, sc }()
	for len(x.work) > 0 {
		n := len(x.work) - 1
		st := x.work[n]
		x.work = x.work[:n]
		x.runPath(st)
		x.paths++
		if x.paths > 2000000 {
			unsup("path limit exceeded")
		}
	}
	return x.outs
}

func (x *Exec) runPath(s *State) {
	for {
		x.cur = s
		done := x.runSome(s)
		if done {
			return
		}
	}
}

// runSome executes instructions until the path ends (true) or a fork occurred (false).
func (x *Exec) runSome(s *State) (done bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case forkReq:
				x.cur = s
				s2 := s.clone()
				if x.assume(s2, x.c.Not(r.cond)) {
					x.work = append(x.work, s2)
				}
				done = !x.assume(s, r.cond)
			case killPath:
				done = true
			case blockPath:
				x.outs = append(x.outs, outcome{s: s, blocked: r.why})
				done = true
			default:
				panic(r)
			}
		}
	}()
	for {
		if len(s.frames) <= x.base {
			return true
		}
		x.steps++
		s.steps++
		if x.steps&255 == 0 && x.expired() {
			unsup("time budget exceeded")
		}
		if s.steps > 400000 {
			unsup("step limit exceeded on a path")
		}
		if x.step(s) {
			return true
		}
	}
}

// finish returning from frame: returns true if the exploration base was reached.
func (x *Exec) doReturn(s *State, v Value) bool {
	f := s.pop()
	if len(s.frames) == x.base {
		x.outs = append(x.outs, outcome{s: s, v: v})
		return true
	}
	if f.onRet != nil {
		f.onRet(s, v)
	}
	return false
}

func (x *Exec) reg(f *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return &FuncV{fn: v}
	case *ssa.Global:
		return &PtrV{obj: x.globalObj(v)}
	case *ssa.Builtin:
		return &FuncV{native: "builtin:" + v.Name()}
	}
	i, ok := x.p.slots(f.fn)[v]
	if !ok {
		unsup("no slot for %s in %s", v, f.fn)
	}
	r := f.regs[i]
	if r == nil {
		unsup("read of poisoned register %s in %s", v.Name(), f.fn)
	}
	return r
}
func (x *Exec) set(f *Frame, v ssa.Value, val Value) {
	f.regs[x.p.slots(f.fn)[v]] = val
}

func (x *Exec) constVal(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return x.zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		unsup("type parameter constant %s", tp)
	}
	switch k.Value.Kind() {
	case constant.Bool:
		return x.c.Bool(constant.BoolVal(k.Value))
	case constant.String:
		return x.strLit(constant.StringVal(k.Value))
	case constant.Int, constant.Float:
		w := width(t)
		if isFloat(t) {
			f, _ := constant.Float64Val(k.Value)
			if w == 32 {
				f32, _ := constant.Float32Val(k.Value)
				return x.c.Const(32, uint64(math.Float32bits(f32)))
			}
			return x.c.Const(64, math.Float64bits(f))
		}
		iv := constant.ToInt(k.Value)
		if u, ok := constant.Uint64Val(iv); ok {
			return x.c.Const(w, u)
		}
		i, _ := constant.Int64Val(iv)
		return x.c.Const(w, uint64(i))
	}
	unsup("constant %s", k)
	return nil
}

func (x *Exec) where(s *State) string {
	for i := len(s.frames) - 1; i >= 0; i-- {
		f := s.frames[i]
		if f.ip < len(f.block.Instrs) {
			if p := f.block.Instrs[f.ip].Pos(); p.IsValid() {
				ps := x.p.fset.Position(p)
				return fmt.Sprintf("%s (%s:%d)", f.fn, strings.TrimPrefix(ps.Filename, "/repo/"), ps.Line)
			}
		}
	}
	if len(s.frames) > 0 {
		return s.frames[len(s.frames)-1].fn.String()
	}
	return "?"
}

func (x *Exec) newFrame(fn *ssa.Function, args []Value, free []Value) *Frame {
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn)
	}
	sl := x.p.slots(fn)
	f := &Frame{fn: fn, regs: make([]Value, len(sl)), block: fn.Blocks[0]}
	for i, p := range fn.Params {
		if i >= len(args) {
			unsup("argument count for %s", fn)
		}
		f.regs[sl[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.regs[sl[p]] = free[i]
	}
	return f
}

// step executes one instruction; returns true when the path has ended.
// waits tells whether the instruction blocks on a channel as things are.
func (x *Exec) waits(s *State, f *Frame, in ssa.Instruction) bool {
	ch := func(v ssa.Value) *ChanObj {
		if c := x.reg(f, v).(*ChanV); c.obj != 0 {
			return x.obj(c.obj).ch
		}
		return nil
	}
	recv := func(o *ChanObj) bool { return o != nil && (len(o.buf) > 0 || o.closed) }
	send := func(o *ChanObj) bool {
		return o != nil && (o.closed || x.decide(x.c.Slt(x.c.Const(64, uint64(len(o.buf))), o.cap)))
	}
	switch in := in.(type) {
	case *ssa.UnOp:
		return in.Op == token.ARROW && !recv(ch(in.X))
	case *ssa.Send:
		return !send(ch(in.Chan))
	case *ssa.Select:
		if !in.Blocking {
			return false
		}
		for _, st := range in.States {
			if st.Dir == types.SendOnly && send(ch(st.Chan)) || st.Dir != types.SendOnly && recv(ch(st.Chan)) {
				return false
			}
		}
		return true
	}
	return false
}

func (x *Exec) step(s *State) bool {
	f := s.top()
	if f.pan != nil {
		return x.unwind(s)
	}
	in := f.block.Instrs[f.ip]
	if x.dbg {
		fmt.Fprintf(os.Stderr, "%s[%d] %s\n", strings.Repeat(" ", len(s.frames)), f.block.Index, instrStr(in))
	}
	if len(s.spawn) > 0 && x.waits(s, f, in) {
		// the goroutine waits: one that it started runs first, then it tries again
		ev := s.spawn[0]
		s.spawn = s.spawn[1:len(s.spawn):len(s.spawn)]
		x.assumes["goroutines run one after another, each until it ends or waits"] = true
		x.doInvoke(s, ev.f, ev.args, func(s *State, v Value) {}, false, false)
		return false
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		f.ip++
	case *ssa.Phi:
		return x.enterPhis(s, f)
	case *ssa.Jump:
		return x.goTo(s, f, f.block.Succs[0])
	case *ssa.If:
		c := x.reg(f, in.Cond).(*Term)
		return x.branch(s, f, c)
	case *ssa.Return:
		var v Value
		switch len(in.Results) {
		case 0:
		case 1:
			v = x.reg(f, in.Results[0])
		default:
			t := make(TupleV, len(in.Results))
			for i, r := range in.Results {
				t[i] = x.reg(f, r)
			}
			v = t
		}
		return x.doReturn(s, v)
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			f.ip++
			return false
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		x.runDeferred(s, d)
	case *ssa.Panic:
		v := x.reg(f, in.X)
		iv, _ := v.(*IfaceV)
		return x.startPanic(s, iv, "panic call")
	case *ssa.Store:
		p := x.ptr(x.reg(f, in.Addr))
		if p == nil {
			return x.rtPanic(s, "nil pointer dereference")
		}
		v := x.reg(f, in.Val)
		if len(s.guards)+len(s.shared) == 0 {
			x.store(p, v)
		} else {
			x.access(s, p, true, false)
			old := x.load(p)
			x.store(p, v)
			x.wrote(s, p, old)
		}
		f.ip++
	case *ssa.MapUpdate:
		m := x.reg(f, in.Map).(*MapV)
		if m.obj == 0 {
			return x.rtPanic(s, "assignment to entry in nil map")
		}
		x.accessMap(s, m, true)
		x.mapUpdate(m, x.reg(f, in.Key), x.reg(f, in.Value), in.Map.Type().Underlying().(*types.Map))
		f.ip++
	case *ssa.Send:
		ch := x.reg(f, in.Chan).(*ChanV)
		return x.chanSend(s, f, ch, x.reg(f, in.X))
	case *ssa.Go:
		fv, args, ok := x.resolveCall(s, f, &in.Call)
		if !ok {
			return x.rtPanic(s, "go of nil function")
		}
		s.spawn = append(s.spawn, event{"go", fv, args})
		f.ip++
	case *ssa.Defer:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok && in.Call.Method == nil {
			var args []Value
			for _, a := range in.Call.Args {
				args = append(args, x.reg(f, a))
			}
			f.defers = append(f.defers, deferred{bi: b, args: args, inv: &in.Call})
		} else {
			fv, args, ok := x.resolveCall(s, f, &in.Call)
			if !ok {
				return x.rtPanic(s, "defer of nil function")
			}
			f.defers = append(f.defers, deferred{fv: fv, args: args})
		}
		f.ip++
	case *ssa.Call:
		return x.call(s, f, in)
	case ssa.Value:
		v, pmsg := x.eval(s, f, in)
		if pmsg != "" {
			return x.rtPanic(s, pmsg)
		}
		x.set(f, in, v)
		f.ip++
	default:
		unsup("instruction %T", in)
	}
	return false
}

func instrStr(in ssa.Instruction) string {
	if v, ok := in.(ssa.Value); ok {
		return v.Name() + " = " + in.String()
	}
	return in.String()
}

func (x *Exec) ptr(v Value) *PtrV {
	p, ok := v.(*PtrV)
	if !ok {
		unsup("pointer expected, got %T", v)
	}
	if p.obj == 0 || p.wild != nil {
		return nil
	}
	return p
}

func (x *Exec) branch(s *State, f *Frame, c *Term) bool {
	r := x.tryDecide(c)
	if r < 0 {
		if act := x.loopBranch(s, f); act != 0 {
			return act == 2
		}
		panic(forkReq{c})
	}
	if lc := f.loops[f.block]; lc != nil {
		lp := x.p.loopsOf(f.fn)[f.block]
		if lp != nil && !lc.inv && lc.count == 0 && !f.ghost && c != x.c.True && c != x.c.False && lp.body[f.block.Succs[1-r]] && (len(s.invs) > 0 || x.longTrip(s, c)) {
			// do not first unroll the iterations the path condition decides
			if act := x.loopBranch(s, f); act != 0 {
				return act == 2
			}
		}
		if lp != nil && (!lp.body[f.block.Succs[0]] || !lp.body[f.block.Succs[1]]) {
			n := *lc
			n.gov = c == x.c.True || c == x.c.False || n.count < 1
			f.loops[f.block] = &n
		}
	}
	if r == 1 {
		return x.goTo(s, f, f.block.Succs[0])
	}
	return x.goTo(s, f, f.block.Succs[1])
}

// longTrip: the two sides of the loop condition c may be far apart.
func (x *Exec) longTrip(s *State, c *Term) bool {
	for c.op == ONot {
		c = c.args[0]
	}
	switch c.op {
	case OEq, OUlt, OUle, OSlt, OSle:
	default:
		return false
	}
	w := c.args[0].w
	if w < 16 || w > 64 {
		return false
	}
	d := x.c.Sub(c.args[0], c.args[1])
	if d.isConst() {
		return false
	}
	n := x.c.Const(w, 64)
	return x.e.sat(s.pc, x.c.And(x.c.Ult(n, d), x.c.Ult(n, x.c.Neg(d)))) == Sat
}

// enterPhis evaluates all phis of the block.
func (x *Exec) enterPhis(s *State, f *Frame) bool {
	b := f.block
	pi := -1
	for i, p := range b.Preds {
		if p == f.prev {
			pi = i
			break
		}
	}
	var vals []Value
	n := 0
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, x.reg(f, ph.Edges[pi]))
		n++
	}
	for i := 0; i < n; i++ {
		x.set(f, b.Instrs[i].(*ssa.Phi), vals[i])
	}
	f.ip = n
	return false
}

func (x *Exec) goTo(s *State, f *Frame, b *ssa.BasicBlock) bool {
	from := f.block
	f.prev = from
	f.block = b
	f.ip = 0
	lp := x.p.loopsOf(f.fn)
	if len(lp) > 0 {
		return x.loopEdge(s, f, from, b)
	}
	return false
}

// ---- panics and defers

func (x *Exec) rtPanic(s *State, msg string) bool {
	x.cur = s
	return x.startPanic(s, &IfaceV{opaqueT, &OpaqueV{-1, "runtime error: " + msg}}, msg)
}
func (x *Exec) startPanic(s *State, v *IfaceV, msg string) bool {
	f := s.top()
	f.pan = &panicInfo{val: v, where: x.where(s), msg: msg}
	return false
}

func (x *Exec) unwind(s *State) bool {
	f := s.top()
	if f.pan.recovered {
		f.pan = nil
		// return normally through the recover block
		if f.fn.Recover != nil {
			f.block = f.fn.Recover
			f.ip = 0
			return false
		}
		return x.doReturn(s, x.zeroResult(f.fn.Signature))
	}
	if n := len(f.defers); n > 0 {
		d := f.defers[n-1]
		f.defers = f.defers[:n-1]
		x.runDeferred(s, d)
		return false
	}
	pan := f.pan
	if f.catch {
		s.pop()
		if f.onRet != nil {
			f.onRet(s, &panicVal{pan})
		}
		return false
	}
	s.pop()
	if len(s.frames) == x.base {
		x.outs = append(x.outs, outcome{s: s, pan: pan})
		return true
	}
	g := s.top()
	np := *pan
	np.recovered = false
	g.pan = &np
	return false
}

type panicVal struct{ p *panicInfo }

func (x *Exec) zeroResult(sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return x.zero(sig.Results().At(0).Type())
	}
	return x.zero(sig.Results())
}

func (x *Exec) runDeferred(s *State, d deferred) {
	if d.bi != nil {
		switch d.bi.Name() {
		case "close":
			x.accessObj(s, d.args[0].(*ChanV).obj, true)
			x.chanClose(d.args[0].(*ChanV))
		case "recover":
		case "delete":
			x.accessMap(s, d.args[0].(*MapV), true)
			x.mapDelete(d.args[0].(*MapV), d.args[1])
		default:
			unsup("deferred builtin %s", d.bi.Name())
		}
		return
	}
	x.invoke(s, d.fv.(*FuncV), d.args, func(s *State, v Value) {}, true)
}

// ---- values

func (x *Exec) eval(s *State, f *Frame, in ssa.Value) (Value, string) {
	c := x.c
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		if in.Heap && zeroSize(t) { // the runtime has one address for all of them
			for _, o := range s.zeros {
				if types.Identical(s.heap[o].typ, t) {
					return &PtrV{obj: o}, ""
				}
			}
			id := x.newObj(&Obj{typ: t, val: x.zero(t), hint: in.Comment})
			s.zeros = append(s.zeros[:len(s.zeros):len(s.zeros)], id)
			return &PtrV{obj: id}, ""
		}
		id := x.newObj(&Obj{typ: t, val: x.zero(t), hint: in.Comment})
		return &PtrV{obj: id}, ""
	case *ssa.BinOp:
		return x.binop(in.Op, x.reg(f, in.X), x.reg(f, in.Y), in.X.Type(), in.Y.Type())
	case *ssa.UnOp:
		v := x.reg(f, in.X)
		switch in.Op {
		case token.MUL:
			p := x.ptr(v)
			if p == nil {
				return nil, "nil pointer dereference"
			}
			x.access(s, p, false, false)
			return x.reinterpret(x.load(p), in.Type()), ""
		case token.NOT:
			return c.Not(v.(*Term)), ""
		case token.SUB:
			if isFloat(in.Type()) {
				t := v.(*Term)
				return c.BXor(t, c.Const(t.w, 1<<uint(t.w-1))), ""
			}
			return c.Neg(v.(*Term)), ""
		case token.XOR:
			return c.BNot(v.(*Term)), ""
		case token.ARROW:
			r, ok := x.chanRecv(v.(*ChanV), in.X.Type().Underlying().(*types.Chan).Elem())
			if in.CommaOk {
				return TupleV{r, ok}, ""
			}
			return r, ""
		}
	case *ssa.ChangeInterface:
		return x.reg(f, in.X), ""
	case *ssa.ChangeType:
		return x.reg(f, in.X), ""
	case *ssa.Convert:
		return x.convert(x.reg(f, in.X), in.X.Type(), in.Type()), ""
	case *ssa.MultiConvert:
		return x.convert(x.reg(f, in.X), in.X.Type(), in.Type()), ""
	case *ssa.MakeInterface:
		return &IfaceV{in.X.Type(), x.reg(f, in.X)}, ""
	case *ssa.TypeAssert:
		return x.typeAssert(in, x.reg(f, in.X).(*IfaceV))
	case *ssa.Extract:
		return x.reg(f, in.Tuple).(TupleV)[in.Index], ""
	case *ssa.Field:
		return x.reg(f, in.X).(*StructV).f[in.Field], ""
	case *ssa.FieldAddr:
		p := x.ptr(x.reg(f, in.X))
		if p == nil {
			return nil, "nil pointer dereference"
		}
		return p.ext(Sel{f: in.Field}), ""
	case *ssa.Index:
		i := x.idx(x.reg(f, in.Index), in.Index.Type())
		switch v := x.reg(f, in.X).(type) {
		case *ArrV:
			if !s.quiet && !x.site(c.Ult(i, v.n)) {
				return nil, "index out of range"
			}
			return x.sel(v.arr, i), ""
		case *StrV:
			if !s.quiet && !x.site(c.Ult(i, v.len)) {
				return nil, "index out of range"
			}
			return x.sel(v.arr, c.Add(v.off, i)), ""
		}
	case *ssa.IndexAddr:
		i := x.idx(x.reg(f, in.Index), in.Index.Type())
		switch v := x.reg(f, in.X).(type) {
		case *SliceV:
			if !s.quiet && !x.site(c.Ult(i, v.len)) {
				return nil, "index out of range"
			}
			if v.base == nil {
				if s.quiet {
					e := in.Type().(*types.Pointer).Elem()
					return x.newArrayObj(e, x.arrConst(e, x.zero(e)), c.Const(64, 1), "quiet").ext(Sel{idx: c.Const(64, 0)}), ""
				}
				return nil, "index out of range"
			}
			return v.base.ext(Sel{idx: c.Add(v.off, i)}), ""
		case *PtrV:
			if v.obj == 0 {
				return nil, "nil pointer dereference"
			}
			n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			if !s.quiet && !x.site(c.Ult(i, c.Const(64, uint64(n)))) {
				return nil, "index out of range"
			}
			return v.ext(Sel{idx: i}), ""
		}
	case *ssa.Lookup:
		switch v := x.reg(f, in.X).(type) {
		case *StrV:
			i := x.idx(x.reg(f, in.Index), in.Index.Type())
			if !s.quiet && !x.site(c.Ult(i, v.len)) {
				return nil, "index out of range"
			}
			return x.sel(v.arr, c.Add(v.off, i)), ""
		case *MapV:
			mt := in.X.Type().Underlying().(*types.Map)
			x.accessMap(s, v, false)
			r, ok := x.mapLookup(v, x.reg(f, in.Index), mt)
			if in.CommaOk {
				return TupleV{r, ok}, ""
			}
			return r, ""
		}
	case *ssa.MakeClosure:
		fv := &FuncV{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			fv.free = append(fv.free, x.reg(f, b))
		}
		return fv, ""
	case *ssa.MakeSlice:
		n := x.idx(x.reg(f, in.Len), in.Len.Type())
		k := x.idx(x.reg(f, in.Cap), in.Cap.Type())
		if !x.site(c.And(c.Sle(c.Const(64, 0), n), c.Sle(n, k), c.Ult(k, c.Const(64, 1<<46)))) {
			return nil, "makeslice: len out of range"
		}
		x.allocCheck(s, k)
		et := in.Type().Underlying().(*types.Slice).Elem()
		p := x.newArrayObj(et, x.arrConst(et, x.zero(et)), k, "make")
		return &SliceV{p, c.Const(64, 0), n, k}, ""
	case *ssa.MakeMap:
		if in.Reserve != nil {
			x.allocCheck(s, x.idx(x.reg(f, in.Reserve), in.Reserve.Type()))
		}
		id := x.newObj(&Obj{typ: in.Type(), m: &MapObj{n: c.Const(64, 0)}, hint: "map"})
		return &MapV{id}, ""
	case *ssa.MakeChan:
		id := x.newObj(&Obj{typ: in.Type(), ch: &ChanObj{cap: x.idx(x.reg(f, in.Size), in.Size.Type())}, hint: "chan"})
		return &ChanV{id}, ""
	case *ssa.Slice:
		return x.slice(s, f, in)
	case *ssa.SliceToArrayPointer:
		v := x.reg(f, in.X).(*SliceV)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !x.site(c.Sle(c.Const(64, uint64(n)), v.len)) {
			return nil, "cannot convert slice to array pointer"
		}
		if v.base == nil {
			return &PtrV{}, ""
		}
		av := x.arrOf(v.base)
		if v.off.isConst() && v.off.val == 0 && av.n.isConst() && av.n.val == uint64(n) {
			return v.base, ""
		}
		// snapshot copy: only sound for reads (the usual [N]byte(slice) conversion)
		et := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Elem()
		a := x.arrCopy(x.arrConst(et, x.zero(et)), c.Const(64, 0), av.arr, v.off, c.Const(64, uint64(n)))
		return x.newArrayObj(et, a, c.Const(64, uint64(n)), "slice2array"), ""
	case *ssa.Range:
		if m, ok := x.reg(f, in.X).(*MapV); ok {
			x.accessMap(s, m, false)
		}
		return x.rangeStart(x.reg(f, in.X), in.X.Type()), ""
	case *ssa.Next:
		return x.rangeNext(s, f, in), ""
	case *ssa.Select:
		return x.selectStmt(s, f, in), ""
	case *ssa.Call:
	}
	unsup("value instruction %T (%s)", in, in)
	return nil, ""
}

// site decides a run-time check.
func (x *Exec) site(cond *Term) bool {
	if x.suppress == 0 && !x.cur.quiet {
		f := x.cur.frames[len(x.cur.frames)-1]
		if !f.ghost {
			o := x.obl("nopanic:" + f.fn.String())
			o.checks++
		}
	}
	return x.decide(cond)
}

func (x *Exec) allocCheck(s *State, n *Term) {
	if s.allocLimit != nil {
		x.oblige("alloc", "allocation bounded by input", x.c.Ule(n, s.allocLimit))
	}
}

// idx converts an index value to a 64-bit signed term.
func (x *Exec) idx(v Value, t types.Type) *Term {
	tm, ok := v.(*Term)
	if !ok {
		unsup("index value %T", v)
	}
	if tm.w == 64 {
		return tm
	}
	if isSigned(t) {
		return x.c.Sext(tm, 64)
	}
	return x.widen(tm, 64)
}

// widen is zero extension; where the path condition shows that the narrow
// arithmetic did not wrap, the result is the same arithmetic at the wide width.
func (x *Exec) widen(t *Term, w int) *Term {
	c := x.c
	if t.w >= w || w != 64 || x.cur == nil {
		return c.Zext(t, w)
	}
	z := c.Zext(t, w)
	for t.op == OConcat && len(t.args) == 2 && t.args[0].isConst() && t.args[0].val == 0 {
		t = t.args[1]
	}
	cand := x.wideCand(t)
	if cand == nil || cand == z {
		return z
	}
	s := x.cur
	if r, ok := s.wide[t]; ok {
		return r
	}
	r := z
	if x.provable(s, c.Ult(cand, c.Const(64, 1<<uint(t.w)))) {
		r = cand
	}
	if !s.wideOwn {
		m := make(map[*Term]*Term, len(s.wide)+4)
		for k, v := range s.wide {
			m[k] = v
		}
		s.wide, s.wideOwn = m, true
	}
	s.wide[t] = r
	return r
}

func wideable(t *Term) bool {
	return t.op == OLin || t.op == OExtract && t.val == 0 && t.args[0].w == 64
}

// wideCand is a 64-bit term congruent to t modulo 2^t.w, or nil.
func (x *Exec) wideCand(t *Term) *Term {
	c := x.c
	switch t.op {
	case OLin:
		r := c.Const(64, uint64(sx(t.val, t.w)))
		for i, a := range t.args {
			r = c.Add(r, c.Mul(c.Const(64, uint64(sx(t.coef[i], t.w))), x.widen(a, 64)))
		}
		return r
	case OExtract:
		if t.val == 0 && t.args[0].w == 64 {
			return t.args[0]
		}
	case OIte:
		return nil
	}
	return nil
}

func (x *Exec) slice(s *State, f *Frame, in *ssa.Slice) (Value, string) {
	c := x.c
	z := c.Const(64, 0)
	lo := z
	if in.Low != nil {
		lo = x.idx(x.reg(f, in.Low), in.Low.Type())
	}
	var hi, mx *Term
	if in.High != nil {
		hi = x.idx(x.reg(f, in.High), in.High.Type())
	}
	if in.Max != nil {
		mx = x.idx(x.reg(f, in.Max), in.Max.Type())
	}
	switch v := x.reg(f, in.X).(type) {
	case *StrV:
		if hi == nil {
			hi = v.len
		}
		if !s.quiet && !x.site(c.And(c.Ule(lo, hi), c.Ule(hi, v.len))) {
			return nil, "slice bounds out of range"
		}
		return &StrV{v.arr, c.Add(v.off, lo), c.Sub(hi, lo)}, ""
	case *SliceV:
		if hi == nil {
			hi = v.len
		}
		if mx == nil {
			mx = v.cap
		}
		if !s.quiet && !x.site(c.And(c.Ule(lo, hi), c.Ule(hi, mx), c.Ule(mx, v.cap))) {
			return nil, "slice bounds out of range"
		}
		if v.base == nil {
			return v, ""
		}
		return &SliceV{v.base, c.Add(v.off, lo), c.Sub(hi, lo), c.Sub(mx, lo)}, ""
	case *PtrV:
		if v.obj == 0 {
			return nil, "nil pointer dereference"
		}
		n := c.Const(64, uint64(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		if !s.quiet && !x.site(c.And(c.Ule(lo, hi), c.Ule(hi, mx), c.Ule(mx, n))) {
			return nil, "slice bounds out of range"
		}
		return &SliceV{v, lo, c.Sub(hi, lo), c.Sub(mx, lo)}, ""
	}
	unsup("slice of %T", x.reg(f, in.X))
	return nil, ""
}

func (x *Exec) binop(op token.Token, a, b Value, ta, tb types.Type) (Value, string) {
	c := x.c
	switch op {
	case token.EQL:
		return x.valEq(a, b), ""
	case token.NEQ:
		return c.Not(x.valEq(a, b)), ""
	}
	if sa, ok := a.(*StrV); ok {
		sb := b.(*StrV)
		switch op {
		case token.ADD:
			return x.strConcat(sa, sb), ""
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			la, ok1 := x.litOf(sa)
			lb, ok2 := x.litOf(sb)
			if ok1 && ok2 {
				switch op {
				case token.LSS:
					return c.Bool(la < lb), ""
				case token.LEQ:
					return c.Bool(la <= lb), ""
				case token.GTR:
					return c.Bool(la > lb), ""
				default:
					return c.Bool(la >= lb), ""
				}
			}
			unsup("symbolic string ordering")
		}
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsup("binop %s on %T, %T", op, a, b)
	}
	if isFloat(ta) {
		return x.floatOp(op, p, q), ""
	}
	sg := isSigned(ta)
	if !sg && p.w < 64 && p.w >= 16 {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if wideable(p) || wideable(q) {
				p, q = x.widen(p, 64), x.widen(q, 64)
			}
		}
	}
	switch op {
	case token.ADD:
		return c.Add(p, q), ""
	case token.SUB:
		return c.Sub(p, q), ""
	case token.MUL:
		return c.Mul(p, q), ""
	case token.QUO, token.REM:
		if !x.site(c.Not(c.Eq(q, c.Const(q.w, 0)))) {
			return nil, "integer divide by zero"
		}
		if sg {
			if op == token.QUO {
				return c.Sdiv(p, q), ""
			}
			return c.Srem(p, q), ""
		}
		if op == token.QUO {
			return c.Udiv(p, q), ""
		}
		return c.Urem(p, q), ""
	case token.AND:
		if p.w == 0 {
			return c.And(p, q), ""
		}
		return c.BAnd(p, q), ""
	case token.OR:
		if p.w == 0 {
			return c.Or(p, q), ""
		}
		return c.BOr(p, q), ""
	case token.XOR:
		return c.BXor(p, q), ""
	case token.AND_NOT:
		return c.BAnd(p, c.BNot(q)), ""
	case token.SHL, token.SHR:
		if isSigned(tb) {
			if !x.site(c.Sle(c.Const(q.w, 0), q)) {
				return nil, "negative shift amount"
			}
		}
		var amt, big *Term
		if q.w > p.w {
			big = c.Ule(c.Const(q.w, uint64(p.w)), q)
			amt = c.Extract(q, 0, p.w)
		} else {
			amt = c.Zext(q, p.w)
			big = c.Ule(c.Const(p.w, uint64(p.w)), amt)
			if p.w < 64 && uint64(p.w) > mask(p.w) {
				big = c.False
			}
		}
		if op == token.SHL {
			return c.Ite(big, c.Const(p.w, 0), c.Shl(p, amt)), ""
		}
		if sg {
			return c.Ite(big, c.Ashr(p, c.Const(p.w, uint64(p.w-1))), c.Ashr(p, amt)), ""
		}
		return c.Ite(big, c.Const(p.w, 0), c.Lshr(p, amt)), ""
	case token.LSS:
		if sg {
			return c.Slt(p, q), ""
		}
		return c.Ult(p, q), ""
	case token.LEQ:
		if sg {
			return c.Sle(p, q), ""
		}
		return c.Ule(p, q), ""
	case token.GTR:
		if sg {
			return c.Slt(q, p), ""
		}
		return c.Ult(q, p), ""
	case token.GEQ:
		if sg {
			return c.Sle(q, p), ""
		}
		return c.Ule(q, p), ""
	}
	unsup("binop %s", op)
	return nil, ""
}

func (x *Exec) floatOp(op token.Token, p, q *Term) Value {
	c := x.c
	if p.isConst() && q.isConst() {
		var a, b float64
		if p.w == 32 {
			a, b = float64(math.Float32frombits(uint32(p.val))), float64(math.Float32frombits(uint32(q.val)))
		} else {
			a, b = math.Float64frombits(p.val), math.Float64frombits(q.val)
		}
		mkf := func(f float64) Value {
			if p.w == 32 {
				return c.Const(32, uint64(math.Float32bits(float32(f))))
			}
			return c.Const(64, math.Float64bits(f))
		}
		switch op {
		case token.ADD:
			return mkf(a + b)
		case token.SUB:
			return mkf(a - b)
		case token.MUL:
			return mkf(a * b)
		case token.QUO:
			return mkf(a / b)
		case token.LSS:
			return c.Bool(a < b)
		case token.LEQ:
			return c.Bool(a <= b)
		case token.GTR:
			return c.Bool(a > b)
		case token.GEQ:
			return c.Bool(a >= b)
		}
	}
	x.assumes["floating-point arithmetic and comparison are uninterpreted functions of the operand bits"] = true
	switch op {
	case token.LSS:
		return c.UF(fmt.Sprintf("flt%d", p.w), 0, p, q)
	case token.GTR:
		return c.UF(fmt.Sprintf("flt%d", p.w), 0, q, p)
	case token.LEQ:
		return c.UF(fmt.Sprintf("fle%d", p.w), 0, p, q)
	case token.GEQ:
		return c.UF(fmt.Sprintf("fle%d", p.w), 0, q, p)
	}
	return c.UF(fmt.Sprintf("f%s%d", map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "div"}[op], p.w), p.w, p, q)
}

func (x *Exec) strConcat(a, b *StrV) Value {
	if a.len.isConst() && a.len.val == 0 {
		return b
	}
	if b.len.isConst() && b.len.val == 0 {
		return a
	}
	la, ok1 := x.litOf(a)
	lb, ok2 := x.litOf(b)
	if ok1 && ok2 {
		return x.strLit(la + lb)
	}
	z := x.c.Const(64, 0)
	u8 := types.Typ[types.Uint8]
	arr := x.arrCopy(x.arrConst(u8, x.c.Const(8, 0)), z, a.arr, a.off, a.len)
	arr = x.arrCopy(arr, a.len, b.arr, b.off, b.len)
	return &StrV{arr, z, x.c.Add(a.len, b.len)}
}

// contentEq: elementwise equality of n elements.
func (x *Exec) contentEq(a *Arr, aOff *Term, b *Arr, bOff *Term, n *Term) *Term {
	c := x.c
	if a == b && aOff == bOff {
		return c.True
	}
	if n.isConst() && n.val <= 48 {
		var cs []*Term
		for i := uint64(0); i < n.val; i++ {
			cs = append(cs, x.valEq(x.sel(a, c.AddC(aOff, int64(i))), x.sel(b, c.AddC(bOff, int64(i)))))
		}
		return c.And(cs...)
	}
	if a1, o1 := x.through(a, aOff, n); a1 != a {
		return x.contentEq(a1, o1, b, bOff, n)
	}
	if b1, o1 := x.through(b, bOff, n); b1 != b {
		return x.contentEq(a, aOff, b1, o1, n)
	}
	k := ceqKey{a, b, aOff, bOff, n}
	if t := x.ceq[k]; t != nil {
		return t
	}
	x.ceqDepth++
	ix := c.Var(fmt.Sprintf("eqix!%d", x.ceqDepth), 64)
	body := x.valEq(x.sel(a, c.Add(aOff, ix)), x.sel(b, c.Add(bOff, ix)))
	t := c.NewQuant(c.Const(64, 0), n, ix, body)
	x.ceqDepth--
	if x.ceq == nil {
		x.ceq = map[ceqKey]*Term{}
	}
	x.ceq[k] = t
	return t
}

// through: the n elements from off on lie in what was copied, as far as this path knows.
func (x *Exec) through(a *Arr, off, n *Term) (*Arr, *Term) {
	if a == nil || a.kind != ACopy || x.cur == nil {
		return a, off
	}
	c := x.c
	rel := c.Sub(off, a.dOff)
	in := c.And(c.Sle(c.Const(64, 0), rel), c.Sle(c.Const(64, 0), n), c.Sle(c.Add(rel, n), a.n), c.Sle(rel, c.Const(64, maxLen)), c.Sle(n, c.Const(64, maxLen)))
	if in == c.True || x.cur.known(in) == 1 || in != c.False && x.e.sat(x.cur.pc, c.Not(in)) == Unsat {
		return a.src, c.Add(a.sOff, rel)
	}
	return a, off
}

type ceqKey struct {
	a, b          *Arr
	aOff, bOff, n *Term
}

func (x *Exec) strEq(a, b *StrV) *Term {
	c := x.c
	le := c.Eq(a.len, b.len)
	if le == c.False {
		return c.False
	}
	n := a.len
	if b.len.isConst() {
		n = b.len
	}
	return c.And(le, x.contentEq(a.arr, a.off, b.arr, b.off, n))
}

func (x *Exec) valEq(a, b Value) *Term {
	c := x.c
	switch av := a.(type) {
	case *Term:
		bt, ok := b.(*Term)
		if !ok {
			unsup("compare %T with %T", a, b)
		}
		return c.Eq(av, bt)
	case *StrV:
		return x.strEq(av, b.(*StrV))
	case *StructV:
		bv := b.(*StructV)
		var cs []*Term
		for i := range av.f {
			cs = append(cs, x.valEq(av.f[i], bv.f[i]))
		}
		return c.And(cs...)
	case *ArrV:
		bv := b.(*ArrV)
		return x.contentEq(av.arr, c.Const(64, 0), bv.arr, c.Const(64, 0), av.n)
	case *PtrV:
		bv := b.(*PtrV)
		if av.wild != nil || bv.wild != nil {
			switch {
			case av.wild != nil && bv.wild != nil:
				return c.Eq(av.wild, bv.wild)
			case av.obj == 0 && av.wild == nil:
				return c.Eq(bv.wild, c.Const(64, 0))
			case bv.obj == 0 && bv.wild == nil:
				return c.Eq(av.wild, c.Const(64, 0))
			}
			return c.False
		}
		if av.obj != bv.obj || len(av.path) != len(bv.path) {
			return c.False
		}
		r := c.True
		for i := range av.path {
			p, q := av.path[i], bv.path[i]
			if (p.idx == nil) != (q.idx == nil) || p.idx == nil && p.f != q.f {
				return c.False
			}
			if p.idx != nil {
				r = c.And(r, c.Eq(p.idx, q.idx))
			}
		}
		return r
	case *SliceV: // only nil comparisons
		bv := b.(*SliceV)
		if av.base == nil || bv.base == nil {
			return c.And(x.isNilSlice(av), x.isNilSlice(bv))
		}
		unsup("slice comparison")
	case *FuncV:
		bv := b.(*FuncV)
		an, bn := av.fn == nil && av.native == "", bv.fn == nil && bv.native == ""
		if an || bn {
			return c.Bool(an && bn)
		}
		unsup("func comparison")
	case *MapV:
		return c.Bool(av.obj == b.(*MapV).obj)
	case *ChanV:
		return c.Bool(av.obj == b.(*ChanV).obj)
	case *IfaceV:
		bv, ok := b.(*IfaceV)
		if !ok {
			unsup("compare interface with %T", b)
		}
		if av.t == nil || bv.t == nil {
			return c.Bool(av.t == nil && bv.t == nil)
		}
		if av.t == opaqueT || bv.t == opaqueT {
			if av.t == opaqueT && bv.t == opaqueT {
				i, j := av.v.(*OpaqueV).id, bv.v.(*OpaqueV).id
				if i == j {
					return c.True
				}
				if i > j {
					i, j = j, i
				}
				return c.Var(fmt.Sprintf("opaqueEq_%d_%d", i, j), 0)
			}
			o := av
			if bv.t == opaqueT {
				o = bv
			}
			x.assumes["an unknown interface value is never identical to a concrete one"] = true
			_ = o
			return c.False
		}
		if !types.Identical(av.t, bv.t) {
			return c.False
		}
		return x.valEq(av.v, bv.v)
	case *OpaqueV:
		bv, ok := b.(*OpaqueV)
		return c.Bool(ok && av.id == bv.id)
	}
	unsup("comparison of %T", a)
	return nil
}

func (x *Exec) convert(v Value, from, to types.Type) Value {
	c := x.c
	fu, tu := from.Underlying(), to.Underlying()
	if isUnsafe(tu) || isUnsafe(fu) {
		return x.unsafeConv(v, from, to)
	}
	wf, wt := width(from), width(to)
	if t, ok := v.(*Term); ok && wf > 0 && wt > 0 {
		ff, tf := isFloat(from), isFloat(to)
		switch {
		case !ff && !tf:
			if isSigned(from) {
				return c.Sext(t, wt)
			}
			return x.widen(t, wt)
		case ff && tf:
			if wf == wt {
				return t
			}
			if t.isConst() {
				if wf == 32 {
					return c.Const(64, math.Float64bits(float64(math.Float32frombits(uint32(t.val)))))
				}
				return c.Const(32, uint64(math.Float32bits(float32(math.Float64frombits(t.val)))))
			}
			// float32(float64(x)) == x (bits, NaN payloads aside)
			if wf == 64 && t.op == OUF && t.name == "f32to64" {
				x.assumes["float32(float64(x)) has the bits of x"] = true
				return t.args[0]
			}
			if wf == 32 {
				return c.UF("f32to64", 64, t)
			}
			return c.UF("f64to32", 32, t)
		case !ff && tf:
			if t.isConst() {
				var f float64
				if isSigned(from) {
					f = float64(int64(sx(t.val, t.w)))
				} else {
					f = float64(t.val)
				}
				if wt == 32 {
					return c.Const(32, uint64(math.Float32bits(float32(f))))
				}
				return c.Const(64, math.Float64bits(f))
			}
			sgn := "u"
			if isSigned(from) {
				sgn = "s"
			}
			return c.UF(fmt.Sprintf("%si%dtof%d", sgn, wf, wt), wt, t)
		default:
			if t.isConst() {
				var f float64
				if wf == 32 {
					f = float64(math.Float32frombits(uint32(t.val)))
				} else {
					f = math.Float64frombits(t.val)
				}
				if isSigned(to) {
					return c.Const(wt, uint64(int64(f)))
				}
				return c.Const(wt, uint64(f))
			}
			sgn := "u"
			if isSigned(to) {
				sgn = "s"
			}
			return c.UF(fmt.Sprintf("f%dto%si%d", wf, sgn, wt), wt, t)
		}
	}
	switch v := v.(type) {
	case *StrV:
		if isString(to) {
			return v
		}
		if st, ok := tu.(*types.Slice); ok && width(st.Elem()) == 8 {
			n := c.Add(v.off, v.len)
			p := x.newArrayObj(st.Elem(), v.arr, n, "[]byte(string)")
			return &SliceV{p, v.off, v.len, v.len}
		}
	case *SliceV:
		if isString(to) {
			if v.base == nil {
				return x.emptyStr()
			}
			return &StrV{x.sliceArr(v), v.off, v.len}
		}
		return v
	case *Term:
		if isString(to) && v.isConst() {
			return x.strLit(string(rune(int64(sx(v.val, v.w)))))
		}
	default:
		return v
	}
	unsup("conversion %s -> %s", from, to)
	return nil
}

func isUnsafe(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

// unsafe pointer conversions keep the pointer; typed reinterpretation is
// limited to pointers whose pointee has the same layout or known headers.
func (x *Exec) unsafeConv(v Value, from, to types.Type) Value {
	c := x.c
	switch v := v.(type) {
	case *PtrV:
		if width(to) <= 0 {
			return v
		}
		if v.wild != nil {
			return v.wild
		}
		if v.obj == 0 {
			return c.Const(64, 0)
		}
		a := x.addrOf(v)
		x.assume(x.cur, c.Not(c.Eq(a, c.Const(64, 0))))
		for _, b := range x.addrList {
			if b != a {
				x.assume(x.cur, c.Not(c.Eq(a, b)))
			}
		}
		x.assumes["objects that exist at the same time have different non-zero addresses; the garbage collector does not move them"] = true
		return a
	case *Term:
		if p := x.addrs[v]; p != nil {
			return p
		}
		if v.isConst() && v.val == 0 {
			return &PtrV{}
		}
		for _, a := range x.addrList {
			if x.cur.heap[x.addrs[a].obj] != nil && x.decide(c.Eq(v, a)) {
				return x.addrs[a]
			}
		}
		x.assumes["an integer that is not the address of an object made known as an integer does not point to an object"] = true
		return &PtrV{wild: v}
	}
	return v
}

func (x *Exec) typeAssert(in *ssa.TypeAssert, v *IfaceV) (Value, string) {
	c := x.c
	at := in.AssertedType
	var ok *Term
	var res Value
	if v.t == nil {
		ok = c.False
	} else if it, isI := at.Underlying().(*types.Interface); isI {
		if v.t == opaqueT {
			if x.opaqueImplements(v, at) {
				ok, res = c.True, v
			} else {
				ok = c.False
			}
		} else if types.Implements(v.t, it) {
			ok, res = c.True, v
		} else {
			ok = c.False
		}
	} else if v.t == opaqueT {
		x.assumes["an unknown interface value has none of the concrete types it is asserted to"] = true
		ok = c.False
	} else if types.Identical(v.t, at) {
		ok, res = c.True, v.v
	} else {
		ok = c.False
	}
	if in.CommaOk {
		if ok == c.False {
			res = x.zero(at)
		}
		return TupleV{res, ok}, ""
	}
	if ok == c.False {
		return nil, "interface conversion"
	}
	return res, ""
}

func (x *Exec) opaqueImplements(v *IfaceV, t types.Type) bool {
	return types.TypeString(t, nil) == "error"
}

// zeroSize: values of the type take no memory.
func zeroSize(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if !zeroSize(t.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return t.Len() == 0 || zeroSize(t.Elem())
	}
	return false
}
