package main

import (
	"fmt"
	"strings"
)

// Lock discipline and interference.
//
// vGuarded(mu, ptrs...) obliges every access of the code under contract to one of
// the locations to happen while mu is held. vShared(p, rely, guar) lets other
// goroutines change *p, as the rely relation permits, before every access that is
// not made under a lock, and obliges every write to satisfy the guarantee.
// vGuardedAll(name, structs...) obliges every field that is written at all to be
// accessed only while one and the same lock is held (atomics excepted).

type shared struct {
	p          *PtrV
	rely, guar *FuncV
	last       Value
	n          int
}

func overlaps(a, b []Sel) bool {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		x, y := a[i], b[i]
		if x.idx == nil && y.idx == nil {
			if x.f != y.f {
				return false
			}
			continue
		}
		if x.idx != nil && y.idx != nil && x.idx != y.idx && x.idx.isConst() && y.idx.isConst() {
			return false
		}
	}
	return true
}

func (x *Exec) anyLock(s *State) bool {
	for k, v := range s.locks {
		if v != 0 && !strings.HasPrefix(k, "once:") && !strings.HasPrefix(k, "n:") {
			return true
		}
	}
	return false
}

// access is called before the code under contract reads or writes *p.
func (x *Exec) access(s *State, p *PtrV, write, atomic bool) {
	if p == nil || len(s.guards) == 0 && len(s.shared) == 0 || s.quiet || s.top().ghost {
		return
	}
	for i, g := range s.guards {
		if g.all {
			if g.obj == p.obj && (g.leaf || len(p.path) > len(g.sel)) && overlaps(g.sel, p.path) && !atomic {
				x.lockSet(s, i, p.path, write)
			}
			continue
		}
		if g.obj != p.obj || !overlaps(g.sel, p.path) {
			continue
		}
		x.lockOblige(s, g, write)
	}
	for i, sh := range s.shared {
		if sh.p.obj != p.obj || pathKey(sh.p.path) != pathKey(p.path) || x.anyLock(s) {
			continue
		}
		old := x.load(p).(*Term)
		nm := fmt.Sprintf("env%d!%d", i, s.seq)
		s.seq++
		nv := x.c.Var(nm, old.w)
		x.store(p, nv)
		if t := x.evalPure(s, sh.rely, []Value{old, nv}); t == nil || !x.assume(s, t) {
			panic(killPath{})
		}
	}
}

// wrote is called after the code under contract has written *p; old is the value before.
func (x *Exec) wrote(s *State, p *PtrV, old Value) {
	if p == nil || len(s.shared) == 0 || s.quiet || s.top().ghost {
		return
	}
	for i, sh := range s.shared {
		if sh.p.obj != p.obj || pathKey(sh.p.path) != pathKey(p.path) {
			continue
		}
		nv := x.load(p)
		n := append([]*shared{}, s.shared...)
		c := *sh
		c.last, c.n = nv, sh.n+1
		n[i] = &c
		s.shared = n
		if t := x.evalPure(s, sh.guar, []Value{old, nv}); t != nil {
			x.oblige("guarantee", "step", t)
		}
	}
}

func (x *Exec) lockOblige(s *State, g guard, write bool) {
	h := s.locks[g.mu]
	ok := h > 0 || h < 0 && !write
	what := "read"
	if write {
		what = "write"
	}
	x.oblige("lock", fmt.Sprintf("%s of %s in %s", what, g.name, s.top().fn.Name()), x.c.Bool(ok))
}

// lockSet notes an access of a part of a structure: a part that is ever written is
// only accessed with some lock held.
func (x *Exec) lockSet(s *State, i int, path []Sel, write bool) {
	g := s.guards[i]
	held := map[string]bool{}
	for k, v := range s.locks {
		if (v > 0 || v < 0 && !write) && !strings.HasPrefix(k, "once:") && !strings.HasPrefix(k, "n:") {
			held[k] = true
		}
	}
	for _, a := range g.seen {
		if overlaps(a.path, path) && (a.write || !write) && len(a.path) == len(path) && sameSet(a.held, held) {
			return
		}
	}
	g.seen = append(g.seen[:len(g.seen):len(g.seen)], seenAccess{path, write, held, s.top().fn.Name()})
	gs := append([]guard{}, s.guards...)
	gs[i] = g
	s.guards = gs
	written, common, where := false, held, ""
	for _, a := range g.seen {
		if !overlaps(a.path, path) {
			continue
		}
		written = written || a.write
		both := map[string]bool{}
		for k := range common {
			if a.held[k] {
				both[k] = true
			}
		}
		common = both
		if len(a.held) == 0 || where == "" {
			where = a.fn
		}
	}
	what := g.name
	ok := !written || len(common) > 0
	if !ok {
		what += " in " + where
	}
	x.oblige("lock", "access of "+what, x.c.Bool(ok))
}

func sameSet(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func (x *Exec) accessMap(s *State, m *MapV, write bool) {
	if m == nil {
		return
	}
	x.accessObj(s, m.obj, write)
	if s.quiet || s.top().ghost {
		return
	}
	for i, g := range s.guards {
		if !g.all {
			continue
		}
		sv, ok := x.load(&PtrV{obj: g.obj, path: g.sel}).(*StructV)
		if !ok {
			continue
		}
		for k, f := range sv.f {
			if fm, ok := f.(*MapV); ok && fm != nil && fm.obj == m.obj {
				// The content of a map is a part of its own.
				x.lockSet(s, i, append(g.sel[:len(g.sel):len(g.sel)], Sel{f: contentOf + k}), write)
			}
		}
	}
}

const contentOf = 1 << 20

// accessObj: a map or channel as a whole (receiving from a channel is not an access).
func (x *Exec) accessObj(s *State, obj int, write bool) {
	if len(s.guards) == 0 || s.quiet || s.top().ghost {
		return
	}
	for _, g := range s.guards {
		if g.obj == obj && g.isMap {
			x.lockOblige(s, g, write)
		}
	}
}

func initConc() {
	for k, f := range concFuncs {
		rtFuncs[k] = f
	}
}

var concFuncs = map[string]func(cc *callCtx){
	"vGuarded": func(cc *callCtx) {
		x := cc.x
		name := x.strArg(cc.args[0])
		mu := cc.args[1].(*IfaceV).v.(*PtrV)
		sl := cc.args[2].(*SliceV)
		if sl.base != nil {
			n := int(sl.len.val)
			for i := 0; i < n; i++ {
				v := x.sel(x.sliceArr(sl), x.c.AddC(sl.off, int64(i))).(*IfaceV).v
				g := guard{mu: mu.key(), name: name}
				switch v := v.(type) {
				case *PtrV:
					g.obj, g.sel = v.obj, v.path
				case *MapV:
					g.obj, g.isMap = v.obj, true
				case *ChanV:
					g.obj, g.isMap = v.obj, true
				default:
					unsup("vGuarded of %T", v)
				}
				cc.s.guards = append(cc.s.guards[:len(cc.s.guards):len(cc.s.guards)], g)
			}
		}
		cc.done(nil)
	},
	"vGuardedAll": func(cc *callCtx) {
		x := cc.x
		sl := cc.args[1].(*SliceV)
		for i := 0; sl.base != nil && i < int(sl.len.val); i++ {
			p := x.sel(x.sliceArr(sl), x.c.AddC(sl.off, int64(i))).(*IfaceV).v.(*PtrV)
			g := guard{name: x.strArg(cc.args[0]), obj: p.obj, sel: p.path, all: true}
			_, isStruct := x.load(p).(*StructV)
			g.leaf = !isStruct
			cc.s.guards = append(cc.s.guards[:len(cc.s.guards):len(cc.s.guards)], g)
		}
		cc.done(nil)
	},
	"vShared": func(cc *callCtx) {
		p := cc.args[0].(*PtrV)
		sh := &shared{p: p, rely: cc.args[1].(*FuncV), guar: cc.args[2].(*FuncV), last: cc.x.load(p)}
		cc.s.shared = append(cc.s.shared[:len(cc.s.shared):len(cc.s.shared)], sh)
		cc.done(nil)
	},
	"vWritten": func(cc *callCtx) {
		p := cc.args[0].(*PtrV)
		for _, sh := range cc.s.shared {
			if sh.p.key() == p.key() {
				cc.done(sh.last)
				return
			}
		}
		unsup("vWritten of a location that is not shared")
	},
	"vSections": func(cc *callCtx) {
		mu := cc.args[0].(*IfaceV).v.(*PtrV)
		cc.done(cc.x.c.Const(64, uint64(cc.s.locks["n:"+mu.key()])))
	},
	"vUnlocked": func(cc *callCtx) { cc.done(cc.x.c.Bool(!cc.x.anyLock(cc.s))) },
}
