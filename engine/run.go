package main

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type HResult struct {
	h        *Harness
	x        *Exec
	failures []*Failure
	err      string // unsupported construct, load failure ...
	dur      time.Duration
	obligs   int
	disch    int
	checks   int
	queries  int
	qtime    time.Duration
	names    []string
	known    int
}

func runHarness(p *Program, h *Harness) (r *HResult) {
	r = &HResult{h: h}
	t0 := time.Now()
	if h.missing != "" {
		r.err = h.missing
		return r
	}
	x := NewExec(p, h)
	r.x = x
	x.stop = &p.stop
	x.deadline = t0.Add(time.Duration(h.budget()) * time.Second)
	defer x.e.Close()
	defer func() {
		r.dur = time.Since(t0)
		if e := recover(); e != nil {
			switch e := e.(type) {
			case unsupported:
				r.err = "unsupported: " + e.msg
				if e.msg == stoppedEarly {
					r.err = e.msg
				}
				if x.cur != nil {
					r.err += " at " + x.where(x.cur)
				}
			default:
				r.err = fmt.Sprintf("internal: %v", e)
				if debugMode {
					r.err += "\n" + string(debug.Stack())
				}
				if x.cur != nil {
					r.err += " at " + x.where(x.cur)
				}
			}
		}
		if x.e.z3 != nil {
			r.queries = x.e.z3.queries
			r.qtime = x.e.z3.spent
		}
		for _, n := range x.order {
			o := x.obligs[n]
			r.obligs++
			r.checks += o.checks
			r.names = append(r.names, n)
			if len(o.fails) == 0 {
				r.disch++
			}
			r.failures = append(r.failures, o.fails...)
		}
		nf := 0
		for _, f := range r.failures {
			if !p.known[h.name+"/"+f.name] {
				nf++
			}
		}
		if nf > 0 || r.err != "" && !strings.HasPrefix(r.err, stoppedEarly) {
			p.stop.CompareAndSwap(0, time.Now().Add(25*time.Second).UnixNano())
		}
	}()
	x.unroll, _ = strconv.Atoi(h.opts["unroll"])
	s := &State{pcSet: map[*Term]bool{}, heap: map[int]*Obj{}, hOwn: true, pcOwn: true, locks: map[string]int{}, lkOwn: true}
	x.cur = s
	var args []Value
	for i, pa := range h.fn.Params {
		nm := pa.Name()
		if nm == "" || nm == "_" {
			nm = fmt.Sprintf("arg%d", i)
		}
		v := x.sym("in."+nm, pa.Type())
		args = append(args, v)
		x.inputs = append(x.inputs, input{nm, pa.Type(), v})
	}
	x.inHeap = map[int]*Obj{}
	for id, o := range s.heap {
		x.inHeap[id] = o
	}
	fr := x.newFrame(h.fn, args, nil)
	fr.ghost = true
	s.push(fr)
	outs := x.explore(s, 0)
	ended := 0
	for _, o := range outs {
		x.cur = o.s
		switch {
		case o.pan != nil:
			if x.e.satT(o.s.pc, x.c.True, h.timeout()) == Unsat {
				continue
			}
			n := "nopanic:" + "escapes"
			ob := x.obl(n)
			ob.checks++
			ob.fails = append(ob.fails, &Failure{name: n, kind: "panic", pc: o.s.pc, goal: x.c.True, why: "panic (" + o.pan.msg + ") at " + o.pan.where, trace: o.s.trace})
		case o.blocked != "":
			if h.opts["mayblock"] != "" {
				ended++
				continue
			}
			if x.e.satT(o.s.pc, x.c.True, h.timeout()) == Unsat {
				continue
			}
			ob := x.obl("progress:blocks")
			ob.checks++
			ob.fails = append(ob.fails, &Failure{name: "progress:blocks", kind: "block", pc: o.s.pc, goal: x.c.True, why: o.blocked})
		default:
			ended++
			func() {
				defer func() {
					if e := recover(); e != nil {
						if _, ok := e.(killPath); !ok {
							panic(e)
						}
					}
				}()
				x.checkFrame(o.s)
			}()
		}
	}
	if ended == 0 && len(outs) == len(nil0(outs)) {
		// vacuous: nothing reaches the end
		nf := 0
		for _, o := range x.obligs {
			nf += len(o.fails)
		}
		if nf == 0 {
			r.err = "vacuous: no path reaches the end of the harness"
		}
	}
	if r.err == "" {
		for _, cv := range coversOf(p, h) {
			ob := x.obl("cover:" + cv)
			ob.checks++
			if !x.covers[cv] {
				nf := 0
				for _, o := range x.obligs {
					nf += len(o.fails)
				}
				if nf == 0 {
					r.err = "vacuous: cover point " + cv + " is unreachable"
				}
			}
		}
		n := 0
		for _, o := range x.obligs {
			n += o.checks
		}
		if n == 0 {
			r.err = "vacuous: no obligations generated"
		}
	}
	return r
}

// stoppedEarly marks a harness given up because another obligation had failed.
const stoppedEarly = "stopped: another obligation failed before"

// expired: out of time, or a failure is known and there is little point in going on.
func (x *Exec) expired() bool {
	now := time.Now()
	if now.After(x.deadline) {
		return true
	}
	if x.stop != nil {
		if t := x.stop.Load(); t != 0 && now.UnixNano() > t {
			panic(unsupported{stoppedEarly})
		}
	}
	return false
}

// sawFailure limits the rest of the exploration.
func (x *Exec) sawFailure(name string) {
	if x.p.known[x.h.name+"/"+name] {
		return
	}
	x.failedOnce = true
	if d := time.Now().Add(15 * time.Second); d.Before(x.deadline) {
		x.deadline = d
	}
}

func nil0(o []outcome) []outcome { return o }

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
