//verif:pkg rx/flow
package flow

import (
	"errors"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/await"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

var vErr = errors.New("failure")

// vTask is something a step waits for; done tells whether it ended before.
type vTask struct {
	done    bool
	started int
	value   int
	fn      rx.FnFinally
}

func (t *vTask) Async() { t.started++ }
func (t *vTask) Notify(fn rx.FnFinally) {
	if t.done {
		fn(rx.SignalComplete)
		return
	}
	t.fn = fn
}
func (t *vTask) end() {
	t.done = true
	if t.fn != nil {
		t.fn(rx.SignalComplete)
	}
}

type vRuns struct {
	ran   [4]int // how often each step ran
	order int    // the steps that ran, as digits
}

func (r *vRuns) step(i int) {
	r.ran[i]++
	r.order = r.order*10 + i + 1
}

const (
	vStop = iota
	vValue
	vWait
	vEnd
	vStopTasks
	vEndTasks
)

// vStep is step i: it fails, gives the result, ends the flow or waits for some tasks
// (what it hands over next to an error, or after it has ended the flow, is not waited for).
func vStep(r *vRuns, f *Flow[int], i, kind, result int, tasks await.Group) StepFn {
	return func() (await.Group, error) {
		r.step(i)
		switch kind {
		case vStop:
			return nil, vErr
		case vValue:
			return f.Success(result)
		case vEnd:
			f.Success(result)
			return f.End()
		case vStopTasks:
			return tasks, vErr
		case vEndTasks:
			f.Success(result)
			f.End()
		}
		return tasks, nil
	}
}

type vOut struct {
	values, fail, fin, value int
	err                      error
}

func (o *vOut) subscribe() mono.Subscribe[int] {
	return mono.Subscribe[int]{
		OnSuccess: func(v int) { o.values++; o.value = v },
		OnError:   func(err error) { o.fail++; o.err = err },
		Finally:   func(rx.SignalType) { o.fin++ },
	}
}

// What follows a step depends on the step alone, not on how many ran before or remain:
// three steps cover flows of any length. The first two do whatever they do, the last
// gives the result.
//
//verif:prop C36
//verif:bounded a step waits for at most two tasks
func H_Mono(k0, k1, n0, n1, v int, d0, d1, d2, d3, swap bool) {
	vRequires(k0 >= vStop && k0 <= vEndTasks && k1 >= vStop && k1 <= vEndTasks)
	vRequires(n0 >= 1 && n0 <= 2 && n1 >= 1 && n1 <= 2)
	r := &vRuns{}
	o := &vOut{}
	f := New[int]()
	t := [4]*vTask{{done: d0}, {done: d1}, {done: d2}, {done: d3}}
	g0 := await.Group{t[0]}
	if n0 == 2 {
		g0 = append(g0, t[1])
	}
	g1 := await.Group{t[2]}
	if n1 == 2 {
		g1 = append(g1, t[3])
	}
	f.Steps(vStep(r, f, 0, k0, v, g0), vStep(r, f, 1, k1, v+1, g1)).Steps(vStep(r, f, 2, vValue, v+2, nil))
	f.Mono().Subscribe(o.subscribe())

	vEnsures("the first step runs first", r.ran[0] == 1)
	if k0 != vWait {
		vResult(r, o, 0, k0, v)
		return
	}
	if !vWaiting(r, o, 0, t[0], t[1], n0, swap) {
		return
	}
	if k1 != vWait {
		vResult(r, o, 1, k1, v+1)
		return
	}
	if !vWaiting(r, o, 1, t[2], t[3], n1, swap) {
		return
	}
	vResult(r, o, 2, vValue, v+2)
}

// vWaiting ends the tasks of step i; the next step runs when the last has ended.
func vWaiting(r *vRuns, o *vOut, i int, a, b *vTask, n int, swap bool) bool {
	vEnsures("the tasks run", a.started == 1 && b.started == n-1)
	first, second := a, b
	if swap && n == 2 {
		first, second = b, a
	}
	for j := 0; j < n; j++ {
		t := first
		if j == 1 {
			t = second
		}
		if t.done {
			continue
		}
		vEnsures("the next step waits for every task", r.ran[i+1] == 0 && o.values+o.fail+o.fin == 0)
		t.end()
	}
	vEnsures("then the next step runs, once", r.ran[i+1] == 1)
	return true
}

// vResult: step i was the last to run and it decided the outcome.
func vResult(r *vRuns, o *vOut, i, kind, v int) {
	for j := 0; j < 3; j++ {
		vEnsures("every step up to this one ran once, no other did", r.ran[j] == vOne(j <= i))
	}
	vEnsures("in the order given", r.order == []int{1, 12, 123}[i])
	if kind == vStop || kind == vStopTasks {
		vEnsures("the flow ends with the error", o.fail == 1 && o.err == vErr && o.values == 0 && o.fin == 1)
	} else {
		vEnsures("the flow ends with the result", o.values == 1 && o.value == v && o.fail == 0 && o.fin == 1)
	}
}

func vOne(b bool) int {
	if b {
		return 1
	}
	return 0
}

// A later step sees what the earlier ones got.
//
//verif:prop C36
func H_Feeds(v int, done bool) {
	o := &vOut{}
	f := New[int]()
	t := &vTask{done: done, value: v}
	var got int
	f.Steps(func() (await.Group, error) {
		return await.All(t)
	}, func() (await.Group, error) {
		got = t.value
		u := &vTask{done: true, value: got * 3}
		t = u
		return await.All(u)
	}, func() (await.Group, error) {
		return f.Success(t.value + got)
	})
	f.Mono().Subscribe(o.subscribe())
	if !done {
		vEnsures("waiting", o.values == 0)
		t.end()
	}
	vEnsures("the result of the steps", o.values == 1 && o.value == v*3+v && o.fail == 0)
}

// A flow that gives a stream: items, then completion or the first error.
//
//verif:prop C36
func H_Flux(v int, fails, errs, done bool) {
	next, comp, fail, fin, last := 0, 0, 0, 0, 0
	var got error
	f := New[int]()
	t := &vTask{done: done}
	ran := 0
	f.Steps(func() (await.Group, error) {
		f.Next(v)
		return await.All(t)
	}, func() (await.Group, error) {
		ran++
		if fails {
			return nil, vErr
		}
		if errs {
			return f.Error(vErr)
		}
		f.Next(v + 1)
		return f.Complete()
	})
	f.Flux().Subscribe(flux.Subscribe[int]{
		OnNext:     func(x int) { next++; last = x },
		OnComplete: func() { comp++ },
		OnError:    func(err error) { fail++; got = err },
		Finally:    func(rx.SignalType) { fin++ },
	})
	if !done {
		vEnsures("waiting", next == 1 && last == v && ran == 0 && comp+fail+fin == 0)
		t.end()
	}
	vEnsures("the second step ran once", ran == 1)
	if fails || errs {
		vEnsures("ends with the error", fail == 1 && got == vErr && comp == 0 && next == 1 && fin == 1)
	} else {
		vEnsures("ends after the items", next == 2 && last == v+1 && comp == 1 && fail == 0 && fin == 1)
	}
}
