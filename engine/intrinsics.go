package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var rtFuncs map[string]func(cc *callCtx)
var intrinsics map[string]func(cc *callCtx) bool

type contractUse struct {
	h    *Harness
	mods []Value
	cond *Term
}

type heapSnap struct {
	heap map[int]*Obj
	mods []Value
	max  int
}

func init() {
	defer initConc()
	rtFuncs = map[string]func(cc *callCtx){
		"vRequires": func(cc *callCtx) {
			x := cc.x
			t := cc.args[0].(*Term)
			if cu := x.inContractUse(cc.s); cu != nil {
				x.oblige("pre", cu.h.name, t)
				cc.done(nil)
				return
			}
			x.requiresSeen++
			if !x.assume(cc.s, t) {
				panic(killPath{})
			}
			if t != x.c.True && x.e.sat(cc.s.pc, x.c.True) == Unsat {
				panic(killPath{})
			}
			cc.done(nil)
		},
		"vEnsures": func(cc *callCtx) {
			x := cc.x
			name := x.strArg(cc.args[0])
			t := cc.args[1].(*Term)
			if cu := x.inContractUse(cc.s); cu != nil {
				if cc.s.known(t) < 0 && x.e.sat(cc.s.pc, t) == Unsat || !x.assume(cc.s, t) {
					panic(killPath{})
				}
				x.settle(cc.s, cu, t)
				cc.done(nil)
				return
			}
			x.oblige("ensures", name, t)
			cc.done(nil)
		},
		"vForall": func(cc *callCtx) {
			x := cc.x
			lo, hi := cc.args[0].(*Term), cc.args[1].(*Term)
			fv := cc.args[2].(*FuncV)
			if lo.isConst() && hi.isConst() && int64(hi.val)-int64(lo.val) <= 20 {
				r := x.c.True
				for i := int64(lo.val); i < int64(hi.val); i++ {
					t := x.evalPure(cc.s, fv, []Value{x.c.Int(i)})
					if t == nil {
						unsup("spec closure failed")
					}
					r = x.c.And(r, t)
				}
				cc.done(r)
				return
			}
			ix := x.c.Fresh("ix", 64)
			st := cc.s.clone()
			x.assume(st, x.c.Sle(lo, ix))
			x.assume(st, x.c.Slt(ix, hi))
			x.assume(st, x.c.Ule(ix, x.c.Const(64, maxLen*2)))
			n := len(st.pc)
			_ = n
			t := x.evalPure(st, fv, []Value{ix})
			if t == nil {
				unsup("spec closure failed")
			}
			cc.done(x.c.NewQuant(lo, hi, ix, t))
		},
		// vNil(&loc) requires loc to be nil
		"vNil": func(cc *callCtx) {
			x := cc.x
			p := cc.args[0].(*IfaceV).v.(*PtrV)
			if cu := x.inContractUse(cc.s); cu != nil {
				x.oblige("pre", cu.h.name, x.valEq(x.load(p), x.zero(cc.args[0].(*IfaceV).t.Underlying().(*types.Pointer).Elem())))
				cc.done(nil)
				return
			}
			x.requiresSeen++
			x.store(p, x.zero(cc.args[0].(*IfaceV).t.Underlying().(*types.Pointer).Elem()))
			cc.done(nil)
		},
		"vCatch": func(cc *callCtx) {
			x := cc.x
			fv := cc.args[0].(*FuncV)
			ret := cc.ret
			fr := x.newFrame(fv.fn, nil, fv.free)
			fr.catch = true
			fr.ghost = true
			fr.onRet = func(s *State, v Value) {
				_, pan := v.(*panicVal)
				ret(s, x.c.Bool(pan))
			}
			cc.pushFrame(fr)
		},
		"vEq": func(cc *callCtx) {
			x := cc.x
			a, aOff, an := x.seqOf(cc.args[0])
			b, bOff, bn := x.seqOf(cc.args[1])
			cc.done(x.seqEq(a, aOff, an, b, bOff, bn))
		},
		"vEqS": func(cc *callCtx) {
			x := cc.x
			a, aOff, an := x.seqOf(cc.args[0])
			b, bOff, bn := x.seqOf(cc.args[1])
			cc.done(x.seqEq(a, aOff, an, b, bOff, bn))
		},
		// vPtr(p, "field") is the address of a field of *p, exported or not
		"vPtr": func(cc *callCtx) {
			x := cc.x
			iv := cc.args[0].(*IfaceV)
			p, ok := iv.v.(*PtrV)
			if !ok || p.obj == 0 {
				cc.panic("nil pointer dereference")
				return
			}
			st, ok := iv.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			name := x.strArg(cc.args[1])
			for i := 0; ok && i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					cc.done(p.ext(Sel{f: i}))
					return
				}
			}
			unsup("no field %s in %s", name, iv.t)
		},
		"vAnd":  func(cc *callCtx) { cc.done(cc.x.c.And(cc.args[0].(*Term), cc.args[1].(*Term))) },
		"vOr":   func(cc *callCtx) { cc.done(cc.x.c.Or(cc.args[0].(*Term), cc.args[1].(*Term))) },
		"vImp":  func(cc *callCtx) { cc.done(cc.x.c.Implies(cc.args[0].(*Term), cc.args[1].(*Term))) },
		"vHas":  vHas,
		"vHasS": vHas,
		"vInv": func(cc *callCtx) {
			name := cc.x.strArg(cc.args[0])
			iv := cc.args[1].(*IfaceV)
			cc.s.invs = append(cc.s.invs, userInv{f: iv.v.(*FuncV), name: name})
			cc.done(nil)
		},
		"vCover": func(cc *callCtx) {
			x := cc.x
			name := x.strArg(cc.args[0])
			if x.suppress == 0 && !x.covers[name] {
				if x.e.sat(cc.s.pc, x.c.True) != Unsat {
					x.covers[name] = true
				}
			}
			cc.done(nil)
		},
		"vModifies": func(cc *callCtx) {
			x := cc.x
			var mods []Value
			sl := cc.args[0].(*SliceV)
			if sl.base != nil {
				n := int(sl.len.val)
				for i := 0; i < n; i++ {
					v := x.sel(x.sliceArr(sl), x.c.AddC(sl.off, int64(i)))
					mods = append(mods, v)
				}
			}
			if cu := x.inContractUse(cc.s); cu != nil {
				n := *cu
				n.mods = mods
				cc.s.top().spec = &n
				cc.done(nil)
				return
			}
			cc.s.modSnap = &heapSnap{heap: cc.s.heap, mods: mods, max: x.objID}
			cc.s.hOwn = false
			cc.done(nil)
		},
		"vAllocLimit": func(cc *callCtx) {
			cc.s.allocLimit = cc.args[0].(*Term)
			if cc.s.allocLimit.isConst() && int64(cc.s.allocLimit.val) < 0 {
				cc.s.allocLimit = nil
			}
			cc.done(nil)
		},
		"vRunGo": func(cc *callCtx) {
			// run spawned goroutines to completion, first in first out
			s := cc.s
			if len(s.spawn) == 0 {
				cc.done(nil)
				return
			}
			ev := s.spawn[0]
			s.spawn = s.spawn[1:len(s.spawn):len(s.spawn)]
			// the call is repeated until nothing is pending
			sub := &callCtx{x: cc.x, s: s, adv: false}
			_ = sub
			cc.x.doInvoke(s, ev.f, ev.args, func(s *State, v Value) {}, false, false)
		},
		"vInputLen": func(cc *callCtx) { cc.done(nil) },
		"vSnap": func(cc *callCtx) {
			cc.done(cc.x.convert(cc.args[0], types.NewSlice(types.Typ[types.Uint8]), types.Typ[types.String]))
		},
	}

	intrinsics = map[string]func(cc *callCtx) bool{
		"fmt.Errorf": func(cc *callCtx) bool {
			cc.done(cc.x.opaqueIface(cc.x.c.FreshName("errorf")))
			return true
		},
		"fmt.Sprintf":             freshString,
		"fmt.Sprint":              freshString,
		"fmt.Sprintln":            freshString,
		"fmt.Println":             func(cc *callCtx) bool { cc.done(TupleV{cc.x.c.Const(64, 0), &IfaceV{}}); return true },
		"fmt.Printf":              func(cc *callCtx) bool { cc.done(TupleV{cc.x.c.Const(64, 0), &IfaceV{}}); return true },
		"strconv.Itoa":            freshString,
		"strconv.FormatInt":       freshString,
		"strconv.FormatUint":      freshString,
		"strconv.Quote":           freshString,
		"strings.ToLower":         lowerOf,
		"bytes.ToLower":           lowerOf,
		"math.Float64bits":        ident,
		"math.Float32bits":        ident,
		"math.Float64frombits":    ident,
		"math.Float32frombits":    ident,
		"(*sync.Mutex).Lock":      lockOp(true),
		"(*sync.Mutex).Unlock":    unlockOp(true),
		"(*sync.Mutex).TryLock":   nil,
		"(*sync.RWMutex).Lock":    lockOp(true),
		"(*sync.RWMutex).Unlock":  unlockOp(true),
		"(*sync.RWMutex).RLock":   lockOp(false),
		"(*sync.RWMutex).RUnlock": unlockOp(false),
		"(*sync.Once).Do": func(cc *callCtx) bool {
			x := cc.x
			p := cc.args[0].(*PtrV)
			k := "once:" + p.key()
			if cc.s.locks[k] != 0 {
				cc.done(nil)
				return true
			}
			cc.s.setLock(k, 1)
			fv := cc.args[1].(*FuncV)
			x.doInvoke(cc.s, fv, nil, func(s *State, v Value) { cc.ret(s, nil) }, false, cc.adv)
			return true
		},
		"sync/atomic.LoadPointer": atomicLoad, "sync/atomic.StorePointer": atomicStore, "sync/atomic.CompareAndSwapPointer": atomicCAS,
		"os.LookupEnv": func(cc *callCtx) bool {
			cc.x.assumes["no environment variables are set"] = true
			cc.done(TupleV{cc.x.zero(types.Typ[types.String]), cc.x.c.Bool(false)})
			return true
		},
		"os.Getenv": func(cc *callCtx) bool {
			cc.x.assumes["no environment variables are set"] = true
			cc.done(cc.x.zero(types.Typ[types.String]))
			return true
		},
		"sync/atomic.AddUint32": atomicAdd, "sync/atomic.AddInt32": atomicAdd, "sync/atomic.AddUint64": atomicAdd, "sync/atomic.AddInt64": atomicAdd,
		"sync/atomic.LoadUint32": atomicLoad, "sync/atomic.LoadInt32": atomicLoad, "sync/atomic.LoadUint64": atomicLoad, "sync/atomic.LoadInt64": atomicLoad,
		"sync/atomic.StoreUint32": atomicStore, "sync/atomic.StoreInt32": atomicStore, "sync/atomic.StoreUint64": atomicStore, "sync/atomic.StoreInt64": atomicStore,
		"sync/atomic.CompareAndSwapUint32": atomicCAS, "sync/atomic.CompareAndSwapInt32": atomicCAS, "sync/atomic.CompareAndSwapUint64": atomicCAS, "sync/atomic.CompareAndSwapInt64": atomicCAS,
		"bytes.Equal": func(cc *callCtx) bool { rtFuncs["vEq"](cc); return true },
		"errors.Is": func(cc *callCtx) bool {
			a, b := cc.args[0].(*IfaceV), cc.args[1].(*IfaceV)
			cc.x.assumes["errors.Is is identity (no wrapped errors)"] = true
			cc.done(cc.x.valEq(a, b))
			return true
		},
		"unicode/utf8.Valid":       validUTF8,
		"unicode/utf8.ValidString": validUTF8,
		"io.CopyN":                 copyN,
		"time.Parse": func(cc *callCtx) bool {
			x := cc.x
			x.assumes["time.Parse returns a time or an error, the same for the same text, and does not panic"] = true
			cc.pure("timeparse", func(nm string) Value {
				tt := cc.sig.Results().At(0).Type()
				if x.decide(x.c.Var(nm+".err", 0)) {
					return TupleV{x.zero(tt), x.opaqueIface(nm)}
				}
				n := &StructV{f: append([]Value{}, x.zero(tt).(*StructV).f...)}
				n.f[0], n.f[1] = x.c.Var(nm+".wall", 64), x.c.Var(nm+".ext", 64)
				return TupleV{n, &IfaceV{}}
			})
			return true
		},
		"(time.Time).Format": func(cc *callCtx) bool {
			x := cc.x
			x.assumes["time.Time.Format returns a text, the same for the same time, and does not panic"] = true
			cc.pure("timefmt", func(nm string) Value { return x.sym(nm, types.Typ[types.String]) })
			return true
		},
		"context.WithValue": func(cc *callCtx) bool {
			x := cc.x
			parent, key := cc.args[0].(*IfaceV), cc.args[1].(*IfaceV)
			if parent.t == nil {
				cc.panic("cannot create context from nil parent")
				return true
			}
			if key.t == nil {
				cc.panic("nil key")
				return true
			}
			if !types.Comparable(key.t) {
				cc.panic("key is not comparable")
				return true
			}
			t := cc.fn.Pkg.Type("valueCtx").Type()
			id := x.newObj(&Obj{typ: t, val: &StructV{f: []Value{parent, key, cc.args[2]}}, hint: "context"})
			cc.done(&IfaceV{t: types.NewPointer(t), v: &PtrV{obj: id}})
			return true
		},
		"runtime.KeepAlive":           func(cc *callCtx) bool { cc.done(nil); return true },
		"runtime.Gosched":             func(cc *callCtx) bool { cc.done(nil); return true },
		"internal/byteorder.BEUint16": nil,
	}
	for k, v := range intrinsics {
		if v == nil {
			delete(intrinsics, k)
		}
	}
}

// lowerOf models ToLower: exact for ASCII text; any other text becomes some text
// that is shorter or is not ASCII (every multi-byte rune maps to one rune, every
// invalid byte to U+FFFD).
func lowerOf(cc *callCtx) bool {
	x, c := cc.x, cc.x.c
	arr, off, n := x.seqOf(cc.args[0])
	if !n.isConst() || n.val > 64 {
		unsup("ToLower of text of unknown length")
	}
	ascii := c.True
	k := int(n.val)
	bs := make([]Value, k)
	for i := 0; i < k; i++ {
		b := x.sel(arr, c.AddC(off, int64(i))).(*Term)
		ascii = c.And(ascii, c.Ult(b, c.Const(8, 0x80)))
		up := c.And(c.Ule(c.Const(8, 'A'), b), c.Ule(b, c.Const(8, 'Z')))
		bs[i] = c.Ite(up, c.Add(b, c.Const(8, 32)), b)
	}
	_, isStr := cc.args[0].(*StrV)
	if x.decide(ascii) {
		a := x.newArr(ALit, types.Typ[types.Uint8])
		a.lit = bs
		if isStr {
			cc.done(&StrV{arr: a, off: c.Int(0), len: n})
		} else {
			cc.done(x.mkSlice(types.Typ[types.Uint8], a, n, "lower"))
		}
		return true
	}
	x.assumes["ToLower of non-ASCII text yields text that is shorter or not ASCII"] = true
	nm := fmt.Sprintf("lower!%d", cc.s.seq)
	cc.s.seq++
	t := x.sym(nm, types.Typ[types.String]).(*StrV)
	other := c.Not(c.Eq(t.len, n))
	for i := 0; i < k; i++ {
		other = c.Or(other, c.Ule(c.Const(8, 0x80), x.sel(t.arr, c.AddC(t.off, int64(i))).(*Term)))
	}
	if !x.assume(cc.s, other) {
		panic(killPath{})
	}
	if isStr {
		cc.done(t)
	} else {
		cc.done(x.convert(t, types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8])))
	}
	return true
}

// validUTF8 models utf8.Valid: some answer, the same for the same content.
func validUTF8(cc *callCtx) bool {
	x := cc.x
	x.assumes["utf8.Valid answers the same for the same content"] = true
	if _, ok := cc.args[0].(*SliceV); ok {
		cc.args = []Value{x.convert(cc.args[0], types.NewSlice(types.Typ[types.Uint8]), types.Typ[types.String])}
	}
	cc.pure("utf8valid", func(nm string) Value { return x.c.Var(nm, 0) })
	return true
}

// copyN models io.CopyN(io.Discard, r, n) for a *bytes.Reader: it skips n bytes, or
// all that are left and reports the end.
func copyN(cc *callCtx) bool {
	x, c := cc.x, cc.x.c
	dst, src := cc.args[0].(*IfaceV), cc.args[1].(*IfaceV)
	if dst.t == nil || dst.t.String() != "io.discard" || src.t == nil || src.t.String() != "*bytes.Reader" {
		return false
	}
	x.assumes["io.CopyN(io.Discard, *bytes.Reader, n) skips n bytes, or all that are left and returns io.EOF"] = true
	p := src.v.(*PtrV)
	if p.obj == 0 {
		cc.panic("nil pointer dereference")
		return true
	}
	n := cc.args[2].(*Term)
	pos := x.load(p.ext(Sel{f: 1})).(*Term)
	left := c.Sub(x.load(p.ext(Sel{f: 0})).(*SliceV).len, pos)
	zero := c.Const(64, 0)
	left = c.Ite(c.Slt(left, zero), zero, left)
	n = c.Ite(c.Slt(n, zero), zero, n)
	short := x.decide(c.Slt(left, n))
	if !short {
		left = n
	}
	x.store(p.ext(Sel{f: 1}), c.Add(pos, left))
	x.store(p.ext(Sel{f: 2}), c.Const(64, ^uint64(0)))
	var err Value = &IfaceV{}
	if short {
		g := cc.fn.Pkg.Var("EOF")
		err = x.load(&PtrV{obj: x.globalObj(g)})
	}
	cc.done(TupleV{left, err})
	return true
}

func ident(cc *callCtx) bool { cc.done(cc.args[0]); return true }

// pure answers a call of a function outside the contracts that has no effect and
// returns the same result for the same arguments.
func (cc *callCtx) pure(base string, f func(nm string) Value) {
	x := cc.x
next:
	for _, e := range cc.s.pures {
		if e.name != base || len(e.args) != len(cc.args) {
			continue
		}
		eq := x.c.True
		for i, a := range cc.args {
			if x.same(a, e.args[i]) {
				continue
			}
			if _, ok := a.(*SliceV); ok {
				continue next // no telling
			}
			eq = x.c.And(eq, x.valEq(a, e.args[i]))
			if eq == x.c.False {
				continue next
			}
		}
		if base == "utf8valid" { // the same answer only for what is known to be the same text
			if eq == x.c.True || cc.s.known(eq) == 1 || x.e.sat(cc.s.pc, x.c.Not(eq)) == Unsat {
				cc.done(e.res)
				return
			}
			continue
		}
		if x.decide(eq) {
			cc.done(e.res)
			return
		}
	}
	nm := fmt.Sprintf("%s!%d", base, cc.s.seq)
	if x.dbg {
		fmt.Printf("PURE new %s %v\n", nm, x.showAll(cc.args))
		for _, e := range cc.s.pures {
			fmt.Printf("     had %s %v\n", e.name, x.showAll(e.args))
		}
	}
	r := f(nm)
	cc.s.seq++
	cc.s.pures = append(cc.s.pures[:len(cc.s.pures):len(cc.s.pures)], pureRes{base, append([]Value{}, cc.args...), r})
	cc.done(r)
}

func freshString(cc *callCtx) bool {
	cc.done(cc.x.sym(cc.x.c.FreshName("text"), types.Typ[types.String]))
	return true
}

func (s *State) setLock(k string, v int) {
	if !s.lkOwn {
		m := make(map[string]int, len(s.locks)+1)
		for a, b := range s.locks {
			m[a] = b
		}
		s.locks = m
		s.lkOwn = true
	}
	if v == 0 {
		delete(s.locks, k)
	} else {
		s.locks[k] = v
	}
}

func lockOp(write bool) func(cc *callCtx) bool {
	return func(cc *callCtx) bool {
		p := cc.args[0].(*PtrV)
		if p.obj == 0 {
			cc.panic("nil pointer dereference")
			return true
		}
		k := p.key()
		h := cc.s.locks[k]
		if write {
			if h != 0 {
				panic(blockPath{"lock of a mutex that this goroutine holds at " + cc.x.where(cc.s)})
			}
			cc.s.setLock(k, 1)
		} else {
			if h > 0 {
				panic(blockPath{"read lock of a mutex that this goroutine holds at " + cc.x.where(cc.s)})
			}
			cc.s.setLock(k, h-1)
		}
		if !cc.s.top().ghost {
			cc.s.setLock("n:"+k, cc.s.locks["n:"+k]+1)
		}
		cc.done(nil)
		return true
	}
}
func unlockOp(write bool) func(cc *callCtx) bool {
	return func(cc *callCtx) bool {
		p := cc.args[0].(*PtrV)
		k := p.key()
		h := cc.s.locks[k]
		if write && h != 1 || !write && h >= 0 {
			cc.panic("unlock of unlocked mutex")
			return true
		}
		if write {
			cc.s.setLock(k, 0)
		} else {
			cc.s.setLock(k, h+1)
		}
		cc.done(nil)
		return true
	}
}

func atomicAdd(cc *callCtx) bool {
	p := cc.args[0].(*PtrV)
	if p.obj == 0 {
		cc.panic("nil pointer dereference")
		return true
	}
	cc.x.access(cc.s, p, true, true)
	old := cc.x.load(p)
	v := cc.x.c.Add(old.(*Term), cc.args[1].(*Term))
	cc.x.store(p, v)
	cc.x.wrote(cc.s, p, old)
	cc.done(v)
	return true
}
func atomicLoad(cc *callCtx) bool {
	p := cc.args[0].(*PtrV)
	if p.obj == 0 {
		cc.panic("nil pointer dereference")
		return true
	}
	cc.x.access(cc.s, p, false, true)
	cc.done(cc.x.load(p))
	return true
}
func atomicStore(cc *callCtx) bool {
	p := cc.args[0].(*PtrV)
	if p.obj == 0 {
		cc.panic("nil pointer dereference")
		return true
	}
	cc.x.access(cc.s, p, true, true)
	old := cc.x.load(p)
	cc.x.store(p, cc.args[1])
	cc.x.wrote(cc.s, p, old)
	cc.done(nil)
	return true
}
func atomicCAS(cc *callCtx) bool {
	x := cc.x
	p := cc.args[0].(*PtrV)
	if p.obj == 0 {
		cc.panic("nil pointer dereference")
		return true
	}
	// the comparison may fork: decide on the outcome before anything changes
	if len(cc.s.shared) > 0 && !cc.s.top().ghost {
		nm := x.c.Var(fmt.Sprintf("cas!%d", cc.s.seq), 0)
		won := x.decide(nm)
		x.access(cc.s, p, true, true)
		cc.s.seq++
		eq := x.valEq(x.load(p), cc.args[1])
		if !won {
			eq = x.c.Not(eq)
		}
		if !x.assume(cc.s, eq) {
			panic(killPath{})
		}
		if won {
			old := x.load(p)
			x.store(p, cc.args[2])
			x.wrote(cc.s, p, old)
		}
		cc.done(x.c.Bool(won))
		return true
	}
	x.access(cc.s, p, true, true)
	if x.decide(x.valEq(x.load(p), cc.args[1])) {
		x.store(p, cc.args[2])
		cc.done(x.c.True)
	} else {
		cc.done(x.c.False)
	}
	return true
}

func (x *Exec) strArg(v Value) string {
	if s, ok := x.litOf(v.(*StrV)); ok {
		return s
	}
	return "?"
}

func (x *Exec) seqEq(a *Arr, aOff, an *Term, b *Arr, bOff, bn *Term) *Term {
	c := x.c
	le := c.Eq(an, bn)
	if le == c.False {
		return c.False
	}
	if a == nil || b == nil {
		return le
	}
	n := an
	if bn.isConst() {
		n = bn
	}
	return c.And(le, x.contentEq(a, aOff, b, bOff, n))
}

// vHas(b, p, s): b[p:p+len(s)] == s
func vHas(cc *callCtx) {
	x := cc.x
	c := x.c
	b, bOff, bn := x.seqOf(cc.args[0])
	p := cc.args[1].(*Term)
	s, sOff, sn := x.seqOf(cc.args[2])
	in := c.And(c.Sle(c.Const(64, 0), p), c.Sle(c.Add(p, sn), bn), c.Ule(p, c.Const(64, maxLen)))
	if s == nil || b == nil {
		cc.done(in)
		return
	}
	cc.done(c.And(in, x.contentEq(b, c.Add(bOff, p), s, sOff, sn)))
}

// ---- contracts

// settle: a result or modified location the contract gives the value of is that value.
func (x *Exec) settle(s *State, cu *contractUse, t *Term) {
	if t.op == OAnd {
		for _, a := range t.args {
			x.settle(s, cu, a)
		}
		return
	}
	if t.op != OEq {
		return
	}
	for i := 0; i < 2; i++ {
		v, e := t.args[i], t.args[1-i]
		if v.op != OVar || !strings.HasPrefix(v.name, "mod!") && !strings.HasPrefix(v.name, "res.") {
			continue
		}
		if _, ok := x.e.symsOf(e)[v.name]; ok {
			continue
		}
		for _, m := range cu.mods {
			if iv, ok := m.(*IfaceV); ok {
				if p, ok := iv.v.(*PtrV); ok && p.obj != 0 && x.load(p) == Value(v) {
					x.store(p, e)
				}
			}
		}
		f := s.top()
		for j, r := range f.regs {
			if r == Value(v) {
				f.regs[j] = e
			}
			if tv, ok := r.(TupleV); ok {
				n := append(TupleV{}, tv...)
				for k := range n {
					if n[k] == Value(v) {
						n[k] = e
					}
				}
				f.regs[j] = n
			}
		}
		return
	}
}

func (x *Exec) inContractUse(s *State) *contractUse {
	for i := len(s.frames) - 1; i >= 0; i-- {
		if s.frames[i].spec != nil {
			return s.frames[i].spec
		}
		if !s.frames[i].ghost {
			return nil
		}
	}
	return nil
}

func fnKey(fn *ssa.Function) string {
	n := fn.String()
	// strip the module prefix for readability: (*github.com/a/b/pkg.T).M -> (*pkg.T).M
	i := strings.LastIndex(n, "/")
	if i < 0 {
		return n
	}
	pre := ""
	if strings.HasPrefix(n, "(*") {
		pre = "(*"
	} else if strings.HasPrefix(n, "(") {
		pre = "("
	}
	return pre + n[i+1:]
}

// useContract replaces a call by the callee's contract.
func (x *Exec) useContract(cc *callCtx, fn *ssa.Function) bool {
	s := cc.s
	if len(x.p.contracts) == 0 {
		return false
	}
	h := x.p.contracts[fnKey(fn)]
	if h == nil || h.fn == nil {
		return false
	}
	// the hole: a direct call from the contract's own frame
	top := s.frames[len(s.frames)-1]
	if top.fn == h.fn {
		if top.spec == nil {
			return false // check mode: run the body
		}
		x.hole(cc, fn, top.spec)
		return true
	}
	used := x.h == h
	for _, u := range x.h.uses {
		if u == h.name {
			used = true
		}
	}
	if !used {
		return false
	}
	x.contractsUsed[h.name] = true
	nf := x.newFrame(h.fn, cc.args, nil)
	nf.onRet = cc.ret
	nf.ghost = true
	nf.spec = &contractUse{h: h}
	cc.pushFrame(nf)
	return true
}

func (x *Exec) hole(cc *callCtx, fn *ssa.Function, cu *contractUse) {
	s := cc.s
	// results first: may fork on nil-ness
	res := fn.Signature.Results()
	x.nspec++
	if strings.HasPrefix(fn.Name(), "vo") && x.p.isGhost(fn) && res.Len() == 1 && len(cu.mods) == 0 {
		// an opaque specification function: the same for the same arguments
		cc.fn = fn
		cc.pure("vo:"+fn.String(), func(nm string) Value { return x.sym(sanitize(nm), res.At(0).Type()) })
		return
	}
	nm := fmt.Sprintf("res.%s!%d", sanitize(fn.Name()), s.seq)
	var vals TupleV
	for i := 0; i < res.Len(); i++ {
		vals = append(vals, x.symResult(s, fmt.Sprintf("%s.%d", nm, i), res.At(i).Type(), fmt.Sprintf("resnil!%s!%d!%d", sanitize(fn.Name()), s.seq, i)))
	}
	nm = fmt.Sprintf("mod!%d", s.seq)
	for _, m := range cu.mods {
		x.havocThrough(m, nm)
	}
	var v Value = vals
	if len(vals) == 1 {
		v = vals[0]
	}
	if len(vals) == 0 {
		v = nil
	}
	s.seq++
	cc.done(v)
}

func (x *Exec) symResult(s *State, name string, t types.Type, forkName string) Value {
	switch t.Underlying().(type) {
	case *types.Interface, *types.Pointer, *types.Slice, *types.Map:
		if x.decide(x.c.Var(forkName, 0)) {
			return x.zero(t)
		}
	}
	return x.sym(name, t)
}

func (x *Exec) havocThrough(m Value, nm string) {
	if iv, ok := m.(*IfaceV); ok {
		if iv.t == nil {
			return
		}
		m = iv.v
		switch mv := m.(type) {
		case *PtrV:
			if mv.obj == 0 {
				return
			}
			et := iv.t.Underlying().(*types.Pointer).Elem()
			x.store(mv, x.havocVal(fmt.Sprintf("%s.m%s", nm, sanitize(mv.key())), et, x.load(mv)))
			return
		case *SliceV:
			if mv.base == nil {
				return
			}
			av := x.arrOf(mv.base)
			b := x.arrBase(fmt.Sprintf("%s.c%s", nm, sanitize(mv.base.key())), av.arr.elem)
			x.setArr(mv.base, x.arrCopy(av.arr, mv.off, b, x.c.Const(64, 0), mv.len))
			return
		}
	}
	unsup("vModifies of %T", m)
}

// havocVal keeps the identity of referenced memory for slices (only bounds change) and havocs scalars.
func (x *Exec) havocVal(name string, t types.Type, old Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := old.(*StructV)
		n := &StructV{}
		for i := range sv.f {
			n.f = append(n.f, x.havocVal(fmt.Sprintf("%s.%d", name, i), u.Field(i).Type(), sv.f[i]))
		}
		return n
	case *types.Interface:
		if x.decide(x.c.Var("nil!"+name, 0)) {
			return &IfaceV{}
		}
		return x.opaqueIface(name)
	case *types.Pointer, *types.Signature, *types.Map, *types.Chan:
		return old
	}
	return x.sym(name, t)
}

// checkFrame verifies vModifies at the end of a contract check.
func (x *Exec) checkFrame(s *State) {
	sn := s.modSnap
	if sn == nil {
		return
	}
	x.cur = s
	for id, o := range s.heap {
		if id > sn.max {
			continue
		}
		old, ok := sn.heap[id]
		if !ok {
			old, ok = x.baseHeap[id]
		}
		if !ok || old == o {
			continue
		}
		x.frameDiff(s, id, nil, old.val, o.val, sn)
		if o.m != old.m || o.ch != old.ch {
			x.fail("frame", "modifies", "map or channel changed outside the modifies clause")
		}
	}
	x.obl("frame:modifies").checks++
}
func (x *Exec) frameDiff(s *State, id int, path []Sel, a, b Value, sn *heapSnap) {
	if a == nil || b == nil || x.same(a, b) {
		return
	}
	for _, m := range sn.mods {
		iv, ok := m.(*IfaceV)
		if !ok || iv.t == nil {
			continue
		}
		switch mv := iv.v.(type) {
		case *PtrV:
			if mv.obj == id && strings.HasPrefix(pathKey(path)+".", pathKey(mv.path)+".") || mv.obj == id && len(mv.path) == 0 {
				return
			}
		case *SliceV:
			if mv.base != nil && mv.base.obj == id && pathKey(mv.base.path) == pathKey(path) {
				av, bv := a.(*ArrV), b.(*ArrV)
				ix := x.c.Fresh("ix", 64)
				in := x.c.Ult(x.c.Sub(ix, mv.off), mv.len)
				eq := x.c.Or(in, x.valEq(x.sel(av.arr, ix), x.sel(bv.arr, ix)))
				x.oblige("frame", "modifies", x.c.NewQuant(x.c.Const(64, 0), av.n, ix, eq))
				return
			}
		}
	}
	if sa, ok := a.(*StructV); ok {
		sb := b.(*StructV)
		for i := range sa.f {
			x.frameDiff(s, id, append(append([]Sel{}, path...), Sel{f: i}), sa.f[i], sb.f[i], sn)
		}
		return
	}
	if av, ok := a.(*ArrV); ok {
		bv := b.(*ArrV)
		x.oblige("frame", "modifies", x.contentEq(av.arr, x.c.Const(64, 0), bv.arr, x.c.Const(64, 0), av.n))
		return
	}
	if _, ok := a.(*Term); ok {
		x.oblige("frame", "modifies", x.valEq(a, b))
		return
	}
	x.fail("frame", "modifies", fmt.Sprintf("object %d%s (%s) changed outside the modifies clause", id, pathKey(path), x.obj(id).hint))
}

func (x *Exec) showAll(vs []Value) string {
	r := ""
	for _, v := range vs {
		if t, ok := v.(*Term); ok {
			r += " " + t.String()
		} else {
			r += fmt.Sprintf(" %T", v)
		}
	}
	return r
}
