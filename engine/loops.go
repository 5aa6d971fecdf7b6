package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

func computeLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	res := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				l := res[h]
				if l == nil {
					l = &loopInfo{h, map[*ssa.BasicBlock]bool{h: true}}
					res[h] = l
				}
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					n := st[len(st)-1]
					st = st[:len(st)-1]
					if l.body[n] {
						continue
					}
					l.body[n] = true
					st = append(st, n.Preds...)
				}
			}
		}
	}
	return res
}

type inference struct {
	depth int
	loop  *loopInfo
	backs []*State
	conds []*Term // header exit conditions seen (stay polarity)
	imps  []*Term // the same, under the conditions on the path from the header
	npc   int
	up    *inference
}

const unrollLimit = 300

func (x *Exec) loopEdge(s *State, f *Frame, from, to *ssa.BasicBlock) bool {
	loops := x.p.loopsOf(f.fn)
	depth := len(s.frames) - 1
	if il := x.inLoop; il != nil && il.depth == depth && il.loop.header.Parent() == f.fn {
		if !il.loop.body[to] {
			return true // left the loop: outside the inference
		}
	}
	for h := range f.loops {
		if !loops[h].body[to] {
			delete(f.loops, h)
		}
	}
	lp := loops[to]
	if lp == nil {
		return false
	}
	if f.loops == nil {
		f.loops = map[*ssa.BasicBlock]*loopCtx{}
	}
	lc := f.loops[to]
	if lc != nil && lp.body[from] { // back edge
		if lc.inv {
			if il := x.inLoop; il != nil && il.depth == depth && il.loop == lp {
				il.backs = append(il.backs, s)
			}
			return true
		}
		if x.invDone[lc.snap] {
			return true
		}
		n := &loopCtx{count: lc.count + 1}
		f.loops[to] = n
		n.snap = s.clone()
		s.top()
		if n.count > unrollLimit {
			x.startInv(n.snap, lp)
			return true
		}
		return false
	}
	n := &loopCtx{}
	f.loops[to] = n
	n.snap = s.clone()
	return false
}

// loopBranch is called at an undecided branch; it may switch a loop to invariant mode.
// 0: no loop action (fork), 2: path ended.
func (x *Exec) loopBranch(s *State, f *Frame) int {
	loops := x.p.loopsOf(f.fn)
	var best *loopInfo
	for h := range f.loops {
		l := loops[h]
		if l.body[f.block] && (best == nil || len(l.body) < len(best.body)) {
			best = l
		}
	}
	if best == nil {
		return 0
	}
	lc := f.loops[best.header]
	exit := !best.body[f.block.Succs[0]] || !best.body[f.block.Succs[1]]
	if lc.inv {
		if il := x.inLoop; il != nil && exit && il.loop == best && il.depth == len(s.frames)-1 {
			if t, ok := x.reg(f, f.block.Instrs[len(f.block.Instrs)-1].(*ssa.If).Cond).(*Term); ok {
				if !best.body[f.block.Succs[0]] {
					t = x.c.Not(t)
				}
				il.conds = append(il.conds, t)
				if d := s.pc[il.npc:]; len(d) <= 12 {
					u := []*Term{t}
					for _, a := range d {
						u = append(u, x.c.Not(a))
					}
					il.imps = append(il.imps, x.c.Or(u...))
				}
			}
		}
		return 0
	}
	if !exit {
		return 0
	}
	if lc.gov && f.block != best.header {
		return 0
	}
	if lc.count < x.unroll {
		return 0 // the contract asks for the iterations to be told apart
	}
	if x.invDone[lc.snap] {
		return 2
	}
	x.startInv(lc.snap, best)
	return 2
}

// ---- plans

type plan struct {
	mode string // same, lin, fresh, obj
	step *Term
	v    *Term // fresh variable
	sub  []*plan
	name string
	e0   *Term // map: iteration K stores val(K) at e0+K
	val  Value
	miss int  // grow: guesses of val that did not last
	null bool // obj, grow: the slice may be nil
}

type cellW struct {
	obj  int
	path []Sel
	pl   *plan
	typ  types.Type
}

type cand struct {
	desc string
	term *Term                                   // auto candidate over K / fresh vars
	eval func(s *State, f *Frame, K *Term) *Term // state-evaluated candidate
	user bool
}

type invRun struct {
	x       *Exec
	E       *State
	lp      *loopInfo
	phis    []*ssa.Phi
	plans   []*plan
	cells   []*cellW
	K       *Term
	entry   []Value
	name    string
	dropped map[string]bool
	conds   []*Term
	nf      int
	j       *Term
	mark    int
	no      int
	imps    map[*Term]bool
	newImps bool
	hs      *State // at the header in the iteration looked at
}

func (x *Exec) startInv(E *State, lp *loopInfo) {
	if x.invDone == nil {
		x.invDone = map[*State]bool{}
	}
	if x.invDone[E] {
		return
	}
	x.invDone[E] = true
	saveCur := x.cur
	defer func() { x.cur = saveCur }()
	x.cur = E
	f := E.frames[len(E.frames)-1]
	r := &invRun{x: x, E: E, lp: lp, dropped: map[string]bool{}, name: fmt.Sprintf("%s#%d", f.fn.Name(), lp.header.Index)}
	pi := -1
	for i, p := range lp.header.Preds {
		if p == f.prev {
			pi = i
		}
	}
	for _, in := range lp.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r.phis = append(r.phis, ph)
		r.entry = append(r.entry, x.reg(f, ph.Edges[pi]))
		r.plans = append(r.plans, &plan{mode: "same"})
	}
	x.nloop++
	r.mark, r.no = x.c.nextID, x.nloop
	r.K = x.c.Var(fmt.Sprintf("len!K%d", x.nloop), 64)
	var hs *State
	var cands []*cand
	for round := 0; ; round++ {
		if round > 40 {
			unsup("loop inference does not converge in %s", r.name)
		}
		hs = r.havoc()
		cands = r.candidates(hs)
		kept := cands[:0:0]
		for _, cd := range cands { // entry check
			if r.dropped[cd.desc] {
				continue
			}
			if !r.holdsAtEntry(cd) {
				r.dropped[cd.desc] = true
				continue
			}
			kept = append(kept, cd)
		}
		cands = kept
		if !r.assumeAll(hs, cands) {
			break // loop unreachable
		}
		backs, conds := r.body(hs)
		if os.Getenv("GOVC_LOOPS") == "2" {
			for _, cd := range cands {
				if cd.term != nil {
					fmt.Fprintf(os.Stderr, "   r%d assumed %s: %s\n", round, cd.desc, x.show(cd.term))
				}
			}
			for _, b := range backs {
				fmt.Fprintf(os.Stderr, "   r%d back:", round)
				for _, t := range b.pc[len(hs.pc):] {
					fmt.Fprintf(os.Stderr, " & %s", x.show(t))
				}
				fmt.Fprintln(os.Stderr)
			}
		}
		changed := r.updatePlans(hs, backs) || r.newImps
		r.newImps = false
		if len(conds) > 0 {
			for _, t := range conds {
				if !r.hasCond(t) {
					r.conds = append(r.conds, t)
					if !changed {
						changed = true
					}
				}
			}
		}
		if !changed {
			drop := r.checkCands(hs, backs, cands)
			if !drop {
				break
			}
		}
	}
	if os.Getenv("GOVC_LOOPS") != "" {
		fmt.Fprintf(os.Stderr, "loop %s K=%s iteration %d work %d pc %d\n", r.name, r.K, f.loops[lp.header].count, len(x.work), len(E.pc))
		for i, p := range r.plans {
			fmt.Fprintf(os.Stderr, "  phi %s %s: %s (entry %s)\n", r.phis[i].Name(), r.phis[i].Comment, planStr(p), x.show(r.entry[i]))
		}
		for _, cw := range r.cells {
			fmt.Fprintf(os.Stderr, "  cell %d%s: %s\n", cw.obj, pathKey(cw.path), planStr(cw.pl))
		}
		for _, cd := range cands {
			fmt.Fprintf(os.Stderr, "  inv %s\n", cd.desc)
		}
		for d := range r.dropped {
			fmt.Fprintf(os.Stderr, "  dropped %s\n", d)
		}
	}
	nu := 0
	for _, cd := range cands {
		if cd.user {
			nu++
			if x.suppress == 0 {
				x.obl("loopinv:"+r.name+":"+cd.desc).checks++
			}
		}
	}
	x.loops[r.name] = fmt.Sprintf("%d inferred, %d stated invariants", len(cands)-nu, nu)
	x.work = append(x.work, hs)
}

func planStr(p *plan) string {
	if p == nil {
		return "-"
	}
	s := p.mode
	if p.step != nil {
		s += " step " + p.step.String()
	}
	if p.v != nil {
		s += " " + p.v.String()
	}
	for _, q := range p.sub {
		s += " (" + planStr(q) + ")"
	}
	return s
}

func (r *invRun) hasCond(t *Term) bool {
	for _, u := range r.conds {
		if u == t {
			return true
		}
	}
	return false
}

// value under a plan given the entry value
func (r *invRun) planned(p *plan, v0 Value, hint string, t types.Type) Value {
	x := r.x
	c := x.c
	switch p.mode {
	case "same":
		return v0
	case "lin":
		return c.Add(v0.(*Term), c.Mul(p.step, x.extK(r.K, v0.(*Term).w)))
	case "fresh":
		if t0, ok := v0.(*Term); ok {
			if p.v == nil {
				p.v = c.Fresh("h."+hint, t0.w)
			}
			return p.v
		}
		if p.name == "" {
			p.name = c.FreshName("h." + hint)
		}
		if av, ok := v0.(*ArrV); ok {
			return &ArrV{x.arrBase(p.name, av.arr.elem), av.n}
		}
		if _, ok := v0.(*StrV); ok {
			return x.sym(p.name, types.Typ[types.String])
		}
		unsup("loop-varying %T (%s)", v0, hint)
	case "map":
		av := v0.(*ArrV)
		a := x.newArr(AFunc, av.arr.elem)
		e0, val, K, prev := p.e0, p.val, r.K, av.arr
		a.fn = func(i *Term) Value {
			j := c.Sub(i, e0)
			return x.mergeL(c.Ult(j, K), func() Value {
				v, ok := x.substV(val, map[*Term]*Term{K: j})
				if !ok {
					unsup("loop-written element %s", x.show(val))
				}
				return v
			}, func() Value { return x.sel(prev, i) })
		}
		return &ArrV{a, av.n}
	case "obj":
		if p.name == "" {
			p.name = c.FreshName("h." + hint)
		}
		v := x.sym(p.name, t)
		if sv, ok := v.(*SliceV); ok && p.null {
			nilIf := c.Var("nil!"+p.name, 0)
			x.wobj(sv.base.obj).nilIf = nilIf
			x.assume(x.cur, c.Or(c.Not(nilIf), c.Eq(sv.len, c.Const(64, 0))))
			x.assume(x.cur, c.Or(c.Not(nilIf), c.Eq(sv.cap, c.Const(64, 0))))
		}
		return v
	case "grow":
		// each iteration appends one element, val(K) at l0+K
		v := v0.(*SliceV)
		et := t.Underlying().(*types.Slice).Elem()
		n := c.Add(v.len, r.K)
		z := c.Const(64, 0)
		prev := x.arrConst(et, x.zero(et))
		if v.base != nil {
			prev = x.sliceArr(v)
		}
		var a *Arr
		if p.val == nil {
			if p.name == "" {
				p.name = c.FreshName("h." + hint)
			}
			a = x.arrCopy(x.arrBase(p.name, et), z, prev, v.off, v.len)
		} else {
			val, K, l0 := p.val, r.K, v.len
			a = x.newArr(AFunc, et)
			a.fn = func(i *Term) Value {
				return x.mergeL(c.Ult(i, l0), func() Value { return x.sel(prev, c.Add(v.off, i)) }, func() Value {
					e, ok := x.substV(val, map[*Term]*Term{K: c.Sub(i, l0)})
					if !ok {
						unsup("loop-written element %s", x.show(val))
					}
					return e
				})
			}
		}
		sv := x.mkSlice(et, a, n, hint)
		if p.null {
			x.wobj(sv.base.obj).nilIf = c.Eq(r.K, z)
		}
		return sv
	case "parts":
		switch v := v0.(type) {
		case *SliceV:
			return &SliceV{v.base, r.planned(p.sub[0], v.off, hint+".off", nil).(*Term), r.planned(p.sub[1], v.len, hint+".len", nil).(*Term), r.planned(p.sub[2], v.cap, hint+".cap", nil).(*Term)}
		case *StrV:
			return &StrV{v.arr, r.planned(p.sub[0], v.off, hint+".off", nil).(*Term), r.planned(p.sub[1], v.len, hint+".len", nil).(*Term)}
		case *StructV:
			n := &StructV{}
			for i, fv := range v.f {
				var ft types.Type
				if st, ok := t.Underlying().(*types.Struct); ok {
					ft = st.Field(i).Type()
				}
				n.f = append(n.f, r.planned(p.sub[i], fv, fmt.Sprintf("%s.%d", hint, i), ft))
			}
			return n
		}
	}
	unsup("plan %s for %T", p.mode, v0)
	return nil
}
func (x *Exec) extK(K *Term, w int) *Term {
	if w == 64 {
		return K
	}
	return x.c.Extract(K, 0, w)
}

// upgrade adapts a plan so that it covers the back-edge value; reports change.
func (r *invRun) upgrade(p *plan, v0, cur, nv Value, s *State) bool {
	x := r.x
	c := x.c
	switch p.mode {
	case "fresh", "obj":
		return false
	case "grow":
		val := r.grown(cur.(*SliceV), nv.(*SliceV))
		if val == nil {
			*p = plan{mode: "obj", null: p.null}
			return true
		}
		if p.val != nil && x.same(val, p.val) || p.val == nil && p.miss > 4 {
			return false
		}
		if _, ok := x.substV(val, map[*Term]*Term{r.K: r.K}); ok && r.ofK(val) && p.miss <= 4 {
			p.val = val
		} else {
			if p.val == nil {
				p.miss++
				return false
			}
			p.val = nil
		}
		p.miss++
		return true
	case "map":
		ca, na := cur.(*ArrV), nv.(*ArrV)
		if na.arr.kind == AStore && na.arr.prev == ca.arr && na.arr.idx == c.Add(p.e0, r.K) && x.same(na.arr.val, p.val) {
			return false
		}
		*p = plan{mode: "fresh"}
		return true
	case "parts":
		switch v := v0.(type) {
		case *SliceV:
			cv, nvv := cur.(*SliceV), nv.(*SliceV)
			if !samePtr(v.base, nvv.base) {
				*p = plan{mode: "obj", null: nvv.base == nil || x.obj(nvv.base.obj).nilIf != nil}
				return true
			}
			a := r.upgrade(p.sub[0], v.off, cv.off, nvv.off, s)
			b := r.upgrade(p.sub[1], v.len, cv.len, nvv.len, s)
			d := r.upgrade(p.sub[2], v.cap, cv.cap, nvv.cap, s)
			return a || b || d
		case *StrV:
			cv, nvv := cur.(*StrV), nv.(*StrV)
			if v.arr != nvv.arr {
				*p = plan{mode: "fresh"}
				return true
			}
			a := r.upgrade(p.sub[0], v.off, cv.off, nvv.off, s)
			b := r.upgrade(p.sub[1], v.len, cv.len, nvv.len, s)
			return a || b
		case *StructV:
			ch := false
			for i := range v.f {
				if r.upgrade(p.sub[i], v.f[i], cur.(*StructV).f[i], nv.(*StructV).f[i], s) {
					ch = true
				}
			}
			return ch
		}
	case "lin":
		if c.Sub(nv.(*Term), cur.(*Term)) == p.step {
			return false
		}
		if x.provable(s, c.Eq(nv.(*Term), c.Add(cur.(*Term), p.step))) {
			return false
		}
		*p = plan{mode: "fresh"}
		return true
	case "same":
		if x.same(cur, nv) {
			return false
		}
		switch v := v0.(type) {
		case *Term:
			if x.provable(s, c.Eq(nv.(*Term), cur.(*Term))) {
				return false
			}
			if v.w == 0 {
				*p = plan{mode: "fresh"}
				return true
			}
			d := c.Sub(nv.(*Term), cur.(*Term))
			if d.isConst() {
				*p = plan{mode: "lin", step: d}
			} else {
				*p = plan{mode: "fresh"}
			}
			return true
		case *SliceV:
			nvv := nv.(*SliceV)
			if v.base == nil || nvv.base == nil || !samePtr(v.base, nvv.base) {
				null := v.base == nil || nvv.base == nil || x.obj(nvv.base.obj).nilIf != nil
				if !noMapPlan && r.grown(cur.(*SliceV), nvv) != nil {
					*p = plan{mode: "grow", null: v.base == nil}
					return true
				}
				*p = plan{mode: "obj", null: null}
				return true
			}
			*p = plan{mode: "parts", sub: []*plan{{mode: "same"}, {mode: "same"}, {mode: "same"}}}
			r.upgrade(p, v0, cur, nv, s)
			return true
		case *StrV:
			if v.arr != nv.(*StrV).arr {
				*p = plan{mode: "fresh"}
				return true
			}
			*p = plan{mode: "parts", sub: []*plan{{mode: "same"}, {mode: "same"}}}
			r.upgrade(p, v0, cur, nv, s)
			return true
		case *StructV:
			*p = plan{mode: "parts"}
			for range v.f {
				p.sub = append(p.sub, &plan{mode: "same"})
			}
			r.upgrade(p, v0, cur, nv, s)
			return true
		case *ArrV:
			*p = plan{mode: "fresh"}
			ca, na := cur.(*ArrV), nv.(*ArrV)
			if na.arr.kind == AStore && na.arr.prev == ca.arr && !noMapPlan {
				e0 := c.Sub(na.arr.idx, r.K)
				if r.invariant(e0) {
					if _, ok := x.substV(na.arr.val, map[*Term]*Term{r.K: r.K}); ok && r.ofK(na.arr.val) {
						*p = plan{mode: "map", e0: e0, val: na.arr.val}
					}
				}
			}
			return true
		}
		unsup("loop %s changes a %T (%s -> %s)", r.name, v0, x.show(cur), x.show(nv))
	}
	return false
}

// grown: nv is cur with one element appended to a copy of it; the result is that element.
func (r *invRun) grown(cur, nv *SliceV) Value {
	x := r.x
	c := x.c
	if nv.base == nil || len(nv.base.path) > 0 || nv.base.wild != nil || cur.base != nil && samePtr(cur.base, nv.base) {
		return nil
	}
	if _, ok := r.hs.heap[nv.base.obj]; ok {
		return nil
	}
	if _, ok := x.baseHeap[nv.base.obj]; ok {
		return nil
	}
	if nv.off != c.Const(64, 0) || nv.len != c.Add(cur.len, c.Const(64, 1)) || nv.cap != nv.len {
		return nil
	}
	a := x.sliceArr(nv)
	if a.kind != AStore || a.idx != cur.len {
		return nil
	}
	if cur.base == nil || cur.len.isConst() && cur.len.val == 0 {
		return a.val
	}
	sc := x.cur
	x.cur = r.hs
	old := x.sliceArr(cur)
	x.cur = sc
	p := a.prev
	if p.kind == ACopy && p.src == old && p.sOff == cur.off && p.n == cur.len && p.dOff == c.Const(64, 0) {
		return a.val
	}
	if p == old && cur.off == c.Const(64, 0) {
		return a.val
	}
	return nil
}

func (x *Exec) provable(s *State, t *Term) bool {
	if t == x.c.True {
		return true
	}
	return x.e.sat(s.pc, x.c.Not(t)) == Unsat
}

func (r *invRun) havoc() *State {
	x := r.x
	hs := r.E.clone()
	sc := x.cur
	x.cur = hs
	defer func() { x.cur = sc }()
	f := hs.top()
	for i, ph := range r.phis {
		v := r.planned(r.plans[i], r.entry[i], ph.Comment, ph.Type())
		x.set(f, ph, v)
		r.typeInv(hs, v)
	}
	for _, cw := range r.cells {
		v0 := r.cellVal(r.E, cw)
		v := r.planned(cw.pl, v0, fmt.Sprintf("c%d", cw.obj), cw.typ)
		o := x.obj(cw.obj)
		nv := x.update(o.val, cw.path, v)
		x.wobj(cw.obj).val = nv
		r.typeInv(hs, v)
	}
	f.ip = len(r.phis)
	if f.loops == nil {
		f.loops = map[*ssa.BasicBlock]*loopCtx{}
	}
	f.loops[r.lp.header] = &loopCtx{inv: true}
	hs.K = r.K
	hs.seq = r.no * 1000000 // names made in the loop are its own
	return hs
}

// typeInv assumes what holds of every well-formed slice value.
func (r *invRun) typeInv(s *State, v Value) {
	x := r.x
	c := x.c
	switch v := v.(type) {
	case *SliceV:
		if v.base != nil {
			av := x.arrOf(v.base)
			for _, t := range []*Term{v.off, v.len, v.cap} {
				x.assume(s, c.Ule(t, c.Const(64, maxLen)))
			}
			x.assume(s, c.Ule(v.len, v.cap))
			x.assume(s, c.Ule(c.Add(v.off, v.cap), av.n))
		}
	case *StrV:
		x.assume(s, c.Ule(v.len, c.Const(64, maxLen)))
		x.assume(s, c.Ule(v.off, c.Const(64, maxLen)))
	case *StructV:
		for _, fv := range v.f {
			r.typeInv(s, fv)
		}
	}
}

func (r *invRun) cellVal(s *State, cw *cellW) Value {
	x := r.x
	sc := x.cur
	x.cur = s
	defer func() { x.cur = sc }()
	v := x.obj(cw.obj).val
	for _, p := range cw.path {
		v = x.walk(v, p)
	}
	return v
}

func (r *invRun) body(hs *State) ([]*State, []*Term) {
	x := r.x
	il := &inference{depth: len(hs.frames) - 1, loop: r.lp, up: x.inLoop, npc: len(hs.pc)}
	x.inLoop = il
	x.suppress++
	st := hs.clone()
	x.explore(st, len(hs.frames)-1)
	x.suppress--
	x.inLoop = il.up
	for _, t := range il.imps {
		if !r.imps[t] {
			if r.imps == nil {
				r.imps = map[*Term]bool{}
			}
			r.imps[t] = true
			r.newImps = true
		}
	}
	return il.backs, il.conds
}

func (r *invRun) updatePlans(hs *State, backs []*State) bool {
	x := r.x
	changed := false
	r.hs = hs
	for _, b := range backs {
		sc := x.cur
		x.cur = b
		f := b.frames[len(b.frames)-1]
		hf := hs.frames[len(hs.frames)-1]
		pi := -1
		for i, p := range r.lp.header.Preds {
			if p == f.prev {
				pi = i
			}
		}
		for i, ph := range r.phis {
			nv := x.reg(f, ph.Edges[pi])
			cur := x.reg(hf, ph)
			if r.upgrade(r.plans[i], r.entry[i], cur, nv, b) {
				changed = true
			}
		}
		// heap: every planned cell, whether this path writes it or leaves it as it is
		for _, cw := range r.cells {
			if r.upgrade(cw.pl, r.cellVal(r.E, cw), r.cellVal(hs, cw), r.cellVal(b, cw), b) {
				changed = true
			}
		}
		var ids []int
		for id, o := range b.heap {
			if id > r.E.maxObj(x) {
				continue
			}
			if ho, ok := hs.heap[id]; ok && ho == o {
				continue
			}
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			o := b.heap[id]
			x.cur = hs
			ho, ok := hs.heap[id]
			if !ok {
				ho, ok = x.baseHeap[id]
			}
			x.cur = b
			if !ok {
				continue // allocated during the iteration
			}
			if o.m != nil || o.ch != nil {
				if o.m != ho.m || o.ch != ho.ch {
					unsup("loop %s modifies a map or channel", r.name)
				}
			}
			r.diff(id, nil, ho.val, o.val, o.typ, hs, b, &changed)
		}
		x.cur = sc
	}
	return changed
}

func (s *State) maxObj(x *Exec) int { return 1 << 60 }

func (r *invRun) diff(id int, path []Sel, a, b Value, t types.Type, hs, bs *State, changed *bool) {
	x := r.x
	if a == nil || b == nil || x.same(a, b) {
		return
	}
	for _, cw := range r.cells {
		if cw.obj == id && pathKey(cw.path) == pathKey(path) {
			return
		}
	}
	if sa, ok := a.(*StructV); ok {
		sb := b.(*StructV)
		st := t.Underlying().(*types.Struct)
		for i := range sa.f {
			r.diff(id, append(append([]Sel{}, path...), Sel{f: i}), sa.f[i], sb.f[i], st.Field(i).Type(), hs, bs, changed)
		}
		return
	}
	if _, ok := a.(*ArrV); ok && *changed {
		return // once the scalars it depends on have settled
	}
	if _, ok := r.E.heap[id]; !ok {
		if _, ok := x.baseHeap[id]; !ok {
			return // object created by havoc itself; its content is arbitrary already
		}
	}
	cw := &cellW{obj: id, path: path, pl: &plan{mode: "same"}, typ: t}
	if r.upgrade(cw.pl, a, a, b, bs) {
		r.cells = append(r.cells, cw)
		*changed = true
	}
}

// substitution of loop variables by their values at the back edge / entry
func (r *invRun) substAt(t *Term, K *Term, get func(i int) Value, cell func(cw *cellW) Value) *Term {
	x := r.x
	m := map[*Term]*Term{r.K: K}
	var bind func(p *plan, v Value)
	bind = func(p *plan, v Value) {
		switch p.mode {
		case "fresh":
			if p.v != nil {
				if tv, ok := v.(*Term); ok {
					m[p.v] = tv
				}
			} else if sv, ok := v.(*StrV); ok && p.name != "" {
				m[x.c.Var("len!"+p.name, 64)] = sv.len
			}
		case "obj":
			if sv, ok := v.(*SliceV); ok && p.name != "" {
				m[x.c.Var("len!"+p.name, 64)] = sv.len
				if p.null {
					m[x.c.Var("nil!"+p.name, 0)] = x.isNilSlice(sv)
				}
			}
		case "parts":
			switch v := v.(type) {
			case *SliceV:
				bind(p.sub[0], v.off)
				bind(p.sub[1], v.len)
				bind(p.sub[2], v.cap)
			case *StrV:
				bind(p.sub[0], v.off)
				bind(p.sub[1], v.len)
			case *StructV:
				for i := range v.f {
					bind(p.sub[i], v.f[i])
				}
			}
		}
	}
	for i, p := range r.plans {
		bind(p, get(i))
	}
	for _, cw := range r.cells {
		bind(cw.pl, cell(cw))
	}
	if r.mentions(t, m) {
		return nil
	}
	return x.c.substM(t, m)
}

// mentions: t depends on a loop variable whose value substAt does not replace.
func (r *invRun) mentions(t *Term, m map[*Term]*Term) bool {
	names := map[string]bool{}
	var plans func(p *plan)
	plans = func(p *plan) {
		if p.name != "" {
			names[p.name] = true
		}
		for _, q := range p.sub {
			plans(q)
		}
	}
	for _, p := range r.plans {
		plans(p)
	}
	for _, cw := range r.cells {
		plans(cw.pl)
	}
	if len(names) == 0 {
		return false
	}
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if _, ok := m[t]; ok || seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OVar || t.op == OUF {
			for n := range names {
				if strings.Contains(t.name, n) {
					return true
				}
			}
		}
		if q := r.x.c.quantOf(t); q != nil {
			return walk(q.lo) || walk(q.hi) || walk(q.body)
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// hasUF: t depends on the contents of a memory.
func (c *Ctx) hasUF(t *Term) bool {
	if t.op == OUF {
		return true
	}
	if q := c.quantOf(t); q != nil {
		return c.hasUF(q.body)
	}
	for _, a := range t.args {
		if c.hasUF(a) {
			return true
		}
	}
	return false
}

// loopVars are the variables whose value differs between iterations, K aside.
func (r *invRun) loopVars() map[*Term]bool {
	vs := map[*Term]bool{}
	var plans func(p *plan)
	plans = func(p *plan) {
		if p.v != nil {
			vs[p.v] = true
		}
		for _, q := range p.sub {
			plans(q)
		}
	}
	for _, p := range r.plans {
		plans(p)
	}
	for _, cw := range r.cells {
		plans(cw.pl)
	}
	return vs
}

// invariant: t has the same value in every iteration.
func (r *invRun) invariant(t *Term) bool { return !r.x.c.occurs(t, r.K) && r.ofKT(t) }

func (r *invRun) ofKT(t *Term) bool {
	for v := range r.loopVars() {
		if r.x.c.occurs(t, v) {
			return false
		}
	}
	return !r.mentions(t, nil) && !r.young(t)
}

// young: t depends on something that came up during an iteration.
func (r *invRun) young(t *Term) bool {
	c := r.x.c
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if q := c.quantOf(t); q != nil {
			seen[q.ix] = true
			return walk(q.lo) || walk(q.hi) || walk(q.body)
		}
		if (t.op == OVar || t.op == OUF) && t != r.K && r.youngName(t.name) {
			return true
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

func (r *invRun) youngName(n string) bool {
	n0 := strings.TrimPrefix(n, "len!")
	return !strings.HasPrefix(n0, "in.") && r.x.c.born(n) >= r.mark
}

// ofK: of the variables of the loop, the value depends on the iteration number alone.
func (r *invRun) ofK(v Value) bool {
	ok := true
	r.x.termsOf(v, func(t *Term) { ok = ok && r.ofKT(t) }, func(name string) {
		if r.mentionsName(name) || r.youngName(name) && r.youngName("len!"+name) {
			ok = false
		}
	}, func(id int) {
		_, o := r.E.heap[id]
		_, b := r.x.baseHeap[id]
		ok = ok && (id == 0 || o || b)
	})
	return ok
}

// termsOf visits the terms and memory names of a value that substV handles.
func (x *Exec) termsOf(v Value, f func(*Term), g func(string), o func(int)) {
	switch v := v.(type) {
	case *Term:
		f(v)
	case *StrV:
		f(v.off)
		f(v.len)
		if v.arr.kind == ABase {
			g(v.arr.name)
			for _, p := range v.arr.pre {
				f(p)
			}
		}
	case *StructV:
		for _, a := range v.f {
			x.termsOf(a, f, g, o)
		}
	case *IfaceV:
		if v.t != nil {
			x.termsOf(v.v, f, g, o)
		}
	case *PtrV:
		o(v.obj)
		for _, p := range v.path {
			if p.idx != nil {
				f(p.idx)
			}
		}
		if v.wild != nil {
			f(v.wild)
		}
	case *SliceV:
		if v.base != nil {
			x.termsOf(v.base, f, g, o)
		}
		f(v.off)
		f(v.len)
		f(v.cap)
	}
}

// substV replaces variables in a value; false when it holds something opaque.
func (x *Exec) substV(v Value, m map[*Term]*Term) (Value, bool) {
	sub := func(t *Term) *Term { return x.c.substM(t, m) }
	switch v := v.(type) {
	case *Term:
		return sub(v), true
	case *StrV:
		a := v.arr
		switch a.kind {
		case ABase:
			if len(a.pre) > 0 {
				pre := make([]*Term, len(a.pre))
				for i, p := range a.pre {
					pre[i] = sub(p)
				}
				a = x.arrBase(a.name, a.elem, pre...)
			}
		case ALit, AConst:
		default:
			return nil, false
		}
		return &StrV{a, sub(v.off), sub(v.len)}, true
	case *StructV:
		n := &StructV{}
		for _, a := range v.f {
			b, ok := x.substV(a, m)
			if !ok {
				return nil, false
			}
			n.f = append(n.f, b)
		}
		return n, true
	case *IfaceV:
		if v.t == nil {
			return v, true
		}
		b, ok := x.substV(v.v, m)
		return &IfaceV{v.t, b}, ok
	case *PtrV:
		n := &PtrV{obj: v.obj}
		for _, p := range v.path {
			if p.idx != nil {
				p.idx = sub(p.idx)
			}
			n.path = append(n.path, p)
		}
		if v.wild != nil {
			n.wild = sub(v.wild)
		}
		return n, true
	case *SliceV:
		n := &SliceV{off: sub(v.off), len: sub(v.len), cap: sub(v.cap)}
		if v.base != nil {
			b, _ := x.substV(v.base, m)
			n.base = b.(*PtrV)
		}
		return n, true
	case *FuncV:
		return v, len(v.free) == 0 && v.recv == nil
	}
	return nil, false
}

func (r *invRun) mentionsName(name string) bool {
	return r.mentions(r.x.c.Var("n!"+name, 64), nil)
}

var noMapPlan = os.Getenv("GOVC_NOMAP") != ""

// onlyK: of the variables of the loop, t depends on the iteration number alone.
func (r *invRun) onlyK(t *Term) bool { return r.x.c.occurs(t, r.K) && r.ofKT(t) }

func (r *invRun) candidates(hs *State) []*cand {
	x := r.x
	c := x.c
	var out []*cand
	sc := x.cur
	x.cur = hs
	defer func() { x.cur = sc }()
	add := func(t *Term, d string) {
		if t != c.True {
			out = append(out, &cand{desc: d, term: t})
		}
	}
	var scalars []*Term
	var walk func(p *plan, v0 Value, v Value, d string)
	walk = func(p *plan, v0, v Value, d string) {
		switch p.mode {
		case "lin":
			t := v.(*Term)
			scalars = append(scalars, t)
			if len(r.conds) > 1 && t.w > 0 {
				// several ways out: no single condition bounds the iterations
				t0 := v0.(*Term)
				add(c.Ule(t0, t), d+">=u0")
				add(c.Ule(t, t0), d+"<=u0")
				add(c.Sle(t0, t), d+">=s0")
				add(c.Sle(t, t0), d+"<=s0")
			}
		case "fresh":
			t, ok := v.(*Term)
			if ok && t.w > 0 {
				t0 := v0.(*Term)
				scalars = append(scalars, t)
				add(c.Ule(t0, t), d+">=u0")
				add(c.Ule(t, t0), d+"<=u0")
				add(c.Sle(t0, t), d+">=s0")
				add(c.Sle(t, t0), d+"<=s0")
				if t.w == 64 {
					add(c.Ule(r.K, t), d+">=K")
					add(c.Ule(c.Add(t0, r.K), t), d+">=v0+K")
				}
			}
		case "parts":
			switch v := v.(type) {
			case *SliceV:
				w := v0.(*SliceV)
				add(c.Eq(c.Add(v.off, v.len), c.Add(w.off, w.len)), d+" off+len")
				add(c.Eq(c.Add(v.off, v.cap), c.Add(w.off, w.cap)), d+" off+cap")
				walk(p.sub[0], w.off, v.off, d+".off")
				walk(p.sub[1], w.len, v.len, d+".len")
				walk(p.sub[2], w.cap, v.cap, d+".cap")
			case *StrV:
				w := v0.(*StrV)
				add(c.Eq(c.Add(v.off, v.len), c.Add(w.off, w.len)), d+" off+len")
				walk(p.sub[0], w.off, v.off, d+".off")
				walk(p.sub[1], w.len, v.len, d+".len")
			case *StructV:
				for i := range v.f {
					walk(p.sub[i], v0.(*StructV).f[i], v.f[i], fmt.Sprintf("%s.%d", d, i))
				}
			}
		case "obj":
			if v, ok := v.(*SliceV); ok {
				w := v0.(*SliceV)
				add(c.Eq(v.len, c.Add(w.len, r.K)), d+" len=l0+K")
				add(c.Ule(w.len, v.len), d+" len>=l0")
				add(c.Ule(r.K, v.len), d+" len>=K")
				if n := x.obj(v.base.obj).nilIf; n != nil && w.base != nil {
					add(c.Not(n), d+" not nil")
				}
			}
		}
	}
	hf := hs.frames[len(hs.frames)-1]
	for i, ph := range r.phis {
		walk(r.plans[i], r.entry[i], x.reg(hf, ph), "phi"+ph.Name())
	}
	for _, cw := range r.cells {
		walk(cw.pl, r.cellVal(r.E, cw), r.cellVal(hs, cw), fmt.Sprintf("cell%d%s", cw.obj, pathKey(cw.path)))
	}
	for _, t := range sortedTerms(r.imps) {
		if r.onlyK(t) && !c.hasUF(t) {
			// the iteration before this one did not leave the loop
			z := c.Const(64, 0)
			add(c.Or(c.Eq(r.K, z), c.Subst(t, r.K, c.AddC(r.K, -1))), fmt.Sprintf("prev%d", t.id))
			continue
		}
		if r.onlyK(t) {
			if r.j == nil {
				r.j = c.Fresh("j", 64)
			}
			add(c.NewQuant(c.Const(64, 0), r.K, r.j, c.Subst(t, r.K, r.j)), fmt.Sprintf("condAll%d", t.id))
		}
	}
	for _, t := range r.conds {
		var parts []*Term
		if t.op == OAnd {
			parts = t.args
		} else {
			parts = []*Term{t}
		}
		for _, u := range parts {
			switch u.op {
			case OUlt:
				add(c.Ule(u.args[0], u.args[1]), fmt.Sprintf("cond%d", u.id))
			case OSlt:
				d := fmt.Sprintf("cond%d", u.id)
				add(c.Sle(u.args[0], u.args[1]), d)
				if r.dropped[d] {
					add(c.Or(c.Eq(r.K, c.Const(64, 0)), c.Sle(u.args[0], u.args[1])), fmt.Sprintf("condL%d", u.id))
				}
			case ONot:
				if u.args[0].op == OEq && u.args[0].args[0].w > 0 {
					add(c.Ule(u.args[0].args[0], u.args[0].args[1]), fmt.Sprintf("condA%d", u.id))
					add(c.Ule(u.args[0].args[1], u.args[0].args[0]), fmt.Sprintf("condB%d", u.id))
				}
			}
			add(u, fmt.Sprintf("condS%d", u.id))
		}
	}
	// frame candidates for havocked arrays: the prefix before each scalar's entry value is unchanged
	for _, cw := range r.cells {
		if cw.pl.mode != "fresh" {
			continue
		}
		cw := cw
		av0, ok := r.cellVal(r.E, cw).(*ArrV)
		if !ok || width(av0.arr.elem) < 0 {
			continue
		}
		bounds := map[*Term]bool{}
		for i := range r.plans {
			switch v := r.entry[i].(type) {
			case *Term:
				if v.w == 64 && r.plans[i].mode != "same" {
					bounds[v] = true
				}
			case *SliceV:
				bounds[v.off] = true
			}
		}
		for _, c2 := range r.cells {
			if v, ok := r.cellVal(r.E, c2).(*Term); ok && v.w >= 16 {
				bounds[c.Zext(v, 64)] = true
			}
		}
		for _, bt := range sortedTerms(bounds) {
			bt := bt
			out = append(out, &cand{desc: fmt.Sprintf("frame%d%s<%d", cw.obj, pathKey(cw.path), bt.id), eval: func(s *State, f *Frame, K *Term) *Term {
				av := r.cellVal(s, cw).(*ArrV)
				return x.contentEq(av0.arr, c.Const(64, 0), av.arr, c.Const(64, 0), bt)
			}})
		}
	}
	// stated invariants
	done := r.E.frames[len(r.E.frames)-1].loops[r.lp.header].count // iterations before K starts
	for i, ui := range hs.invs {
		ui := ui
		np := ui.f.fn.Signature.Params().Len()
		if np == 1 {
			out = append(out, &cand{desc: fmt.Sprintf("%s/%d", ui.name, i), user: true, eval: func(s *State, f *Frame, K *Term) *Term {
				return x.evalPure(s, ui.f, []Value{x.c.AddC(K, int64(done))})
			}})
			continue
		}
		// typed over loop variables
		want := ui.f.fn.Signature.Params()
		var rec func(k int, chosen []int)
		rec = func(k int, chosen []int) {
			if k == want.Len() {
				ch := append([]int{}, chosen...)
				out = append(out, &cand{desc: fmt.Sprintf("%s/%d%v", ui.name, i, ch), user: true, eval: func(s *State, f *Frame, K *Term) *Term {
					args := []Value{x.c.AddC(K, int64(done))}
					for _, j := range ch {
						args = append(args, r.phiVal(s, f, j))
					}
					return x.evalPure(s, ui.f, args)
				}})
				return
			}
			for j, ph := range r.phis {
				if types.Identical(ph.Type(), want.At(k).Type()) {
					rec(k+1, append(chosen, j))
				}
			}
		}
		rec(1, nil)
	}
	return out
}

// phiVal: the value of phi j in the state: at the header (ip past phis) or arriving over an edge.
func (r *invRun) phiVal(s *State, f *Frame, j int) Value {
	x := r.x
	if f.block == r.lp.header && f.ip >= len(r.phis) && len(r.phis) > 0 {
		return x.reg(f, r.phis[j])
	}
	for i, p := range r.lp.header.Preds {
		if p == f.prev {
			return x.reg(f, r.phis[j].Edges[i])
		}
	}
	unsup("phiVal")
	return nil
}

func (r *invRun) holdsAtEntry(cd *cand) bool {
	x := r.x
	sc := x.cur
	x.cur = r.E
	defer func() { x.cur = sc }()
	var t *Term
	z := x.c.Const(64, 0)
	if cd.eval != nil {
		t = cd.eval(r.E, r.E.frames[len(r.E.frames)-1], z)
	} else {
		t = r.substAt(cd.term, z, func(i int) Value { return r.entry[i] }, func(cw *cellW) Value { return r.cellVal(r.E, cw) })
	}
	if t == nil {
		return false
	}
	return x.provable(r.E, t)
}

func (r *invRun) assumeAll(hs *State, cands []*cand) bool {
	x := r.x
	for _, cd := range cands {
		t := cd.term
		if cd.eval != nil {
			t = cd.eval(hs, hs.frames[len(hs.frames)-1], r.K)
			if t == nil {
				continue
			}
		}
		if !x.assume(hs, t) {
			return false
		}
	}
	return true
}

func (r *invRun) checkCands(hs *State, backs []*State, cands []*cand) bool {
	x := r.x
	drop := false
	K1 := x.c.AddC(r.K, 1)
	sc := x.cur
	defer func() { x.cur = sc }()
	for _, cd := range cands {
		for _, b := range backs {
			x.cur = b
			var t *Term
			if cd.eval != nil {
				t = cd.eval(b, b.frames[len(b.frames)-1], K1)
			} else {
				f := b.frames[len(b.frames)-1]
				t = r.substAt(cd.term, K1, func(i int) Value { return r.phiVal(b, f, i) }, func(cw *cellW) Value { return r.cellVal(b, cw) })
			}
			ok := t != nil
			if ok && t != x.c.True {
				res := x.e.satT(b.pc, x.c.Not(t), x.h.timeout())
				ok = res == Unsat
			}
			if !ok {
				r.dropped[cd.desc] = true
				drop = true
				break
			}
		}
	}
	return drop
}

// evalPure runs a closure for its boolean result, merging all paths.
func (x *Exec) evalPure(s *State, fv *FuncV, args []Value) (res *Term) {
	st := s.clone()
	st.quiet = true
	base := len(st.frames)
	fr := x.newFrame(fv.fn, args, fv.free)
	fr.ghost = true
	st.push(fr)
	n0 := len(st.pc)
	x.suppress++
	outs := x.explore(st, base)
	x.suppress--
	res = x.c.False
	first := true
	_ = first
	for _, o := range outs {
		if o.pan != nil || o.v == nil {
			if o.pan != nil {
				continue // counts as false
			}
			return nil
		}
		delta := append([]*Term{}, o.s.pc[n0:]...)
		res = x.c.Or(res, x.c.And(append(delta, o.v.(*Term))...))
	}
	if len(outs) == 1 && outs[0].pan == nil && len(outs[0].s.pc) == n0 {
		return outs[0].v.(*Term)
	}
	return res
}
