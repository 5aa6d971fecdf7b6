//verif:pkg rx/flux
package flux

import (
	"errors"

	"github.com/nanobus/iota/go/rx"
)

var vBad = errors.New("bad item")

// Two signals, one after the other, through a mapped flux. A flux keeps nothing of the
// items it delivered, so the two cover every history.
//
//verif:prop C22
func H_Map(first, second, v, w, bad, n int, notify bool) {
	vRequires(first >= 0 && first <= 4 && second >= 0 && second <= 4)
	l := &vLog{}
	var sink Sink[int]
	asked, cancelled, calls := 0, 0, 0
	src := Create(func(s Sink[int]) {
		sink = s
		s.OnSubscribe(OnSubscribe{Request: func(n int) { asked += n }, Cancel: func() { cancelled++ }})
	})
	f := Map(src, func(x int) (int, error) {
		calls++
		if x == bad {
			return x, vBad
		}
		return x ^ 85, nil
	})
	f.Subscribe(vSubscribe(l, func() {}))
	sub := f.Subscription()
	if notify {
		f.Notify(func(s rx.SignalType) { l.notified++; l.notifiedSignal = s })
	}
	ended := false
	for i := 0; i < 2; i++ {
		op, x := first, v
		if i == 1 {
			op, x = second, w
		}
		was, wasAsked, wasCancelled, wasCalls := *l, asked, cancelled, calls
		vSignal(op, sink, sub, x, n)
		vRunGo()
		if ended {
			vEnsures("nothing after the end", *l == was && calls == wasCalls && cancelled == wasCancelled)
			return
		}
		vEnsures("the transformation runs once per item", calls == wasCalls+vOne(op == 0))
		switch {
		case op == 0 && x != bad:
			vEnsures("the transformed item is delivered", l.next == was.next+1 && l.item == x^85)
			vEnsures("and nothing else", l.complete+l.fail+l.fin+l.notified == 0 && cancelled == 0)
		case op == 0:
			vEnsures("a failing transformation gives one error", l.fail == 1 && l.err == vBad && l.complete == 0 && l.next == was.next)
			vEnsures("and ends the stream", l.fin == 1 && l.signal == rx.SignalError && !l.late)
			vEnsures("and stops the source", cancelled == 1)
			ended = true
		case op == 4:
			vEnsures("demand is forwarded", asked == wasAsked+n && *l == was)
		default:
			vEnsures("the end is forwarded", l.complete == vOne(op == 1) && l.fail == vOne(op == 2) && l.next == was.next && !l.late)
			vEnsures("with its error", op != 2 || l.err == vErr)
			vEnsures("finally once", l.fin == 1 && l.signal == vWhy(op))
			vEnsures("notified once", l.notified == vOne(notify) && (!notify || l.notifiedSignal == vWhy(op)))
			vEnsures("cancellation is forwarded", cancelled == vOne(op == 3))
			ended = true
		}
	}
}

// A subscriber's own demand callback gets the source's subscription.
//
//verif:prop C22
func H_MapDemand(n int) {
	vRequires(n > 0)
	asked := 0
	src := Create(func(s Sink[int]) {
		s.OnSubscribe(OnSubscribe{Request: func(n int) { asked += n }})
	})
	f := Map(src, func(x int) (int, error) { return x, nil })
	f.Subscribe(Subscribe[int]{OnRequest: func(s rx.Subscription) { s.Request(n) }})
	vRunGo()
	vEnsures("asked for what the subscriber asked", asked == n)
	asked = 0
	f.Subscribe(Subscribe[int]{})
	vRunGo()
	vEnsures("asked for everything", asked == rx.RequestMax)
}

// Waiting for a mapped flux gives the error of the transformation or of the source.
//
//verif:prop C22
func H_MapBlock(v, bad, op int) {
	vRequires(op >= 1 && op <= 2)
	l := &vLog{}
	src := Create(func(s Sink[int]) {
		s.Next(v)
		vSignal(op, s, nil, 0, 0)
	})
	err := Map(src, func(x int) (int, error) {
		if x == bad {
			return 0, vBad
		}
		return x + 1, nil
	}).Block(vSubscribe(l, func() {}))
	if v == bad {
		vEnsures("the transformation's error", err == vBad && l.fail == 1 && l.next == 0)
	} else {
		vEnsures("the source's end", (op == 1 && err == nil || op == 2 && err == vErr) && l.item == v+1 && l.next == 1)
	}
	vEnsures("told once", l.complete+l.fail == 1 && l.fin == 1 && !l.late)
}
