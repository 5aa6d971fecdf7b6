//verif:pkg rx/flux
package flux

import "github.com/nanobus/iota/go/rx"

// One signal in any state of a subscription (open or ended, with any demand), to a
// subscriber that itself sends another signal from its callback.
//
//verif:prop C20
func H_Signal(ended int, demand, op, inner, v, n int, notify bool) {
	vRequires(ended >= 0 && ended <= 3 && op >= 0 && op <= 4 && inner >= 0 && inner <= 5)
	l := &vLog{}
	var sink Sink[int]
	var f Flux[int]
	react := func() {}
	f = Create(func(s Sink[int]) { sink = s })
	f.Subscribe(vSubscribe(l, func() { react() }))
	sub := f.Subscription()
	sink.(*subscriber[int]).n = demand
	if notify {
		f.Notify(func(s rx.SignalType) { l.notified++; l.notifiedSignal = s })
	}
	if ended > 0 {
		vSignal(ended, sink, sub, v, n)
		vEnsures("ended with one finally", l.fin == 1 && l.next == 0)
		vEnsures("one terminal signal", l.complete == vOne(ended == 1) && l.fail == vOne(ended == 2))
		vEnsures("finally tells why", l.signal == vWhy(ended))
		vEnsures("notified once", l.notified == vOne(notify) && (!notify || l.notifiedSignal == vWhy(ended)))
		was := *l
		vSignal(op, sink, sub, v, n)
		vEnsures("nothing after the end", *l == was)
		return
	}
	depth := 0
	react = func() {
		if depth == 0 && inner <= 4 {
			depth++
			vSignal(inner, sink, sub, v, n)
			depth--
		}
	}
	vSignal(op, sink, sub, v, n)
	vEnsures("nothing after the end", !l.late)
	vEnsures("at most one terminal signal", l.complete+l.fail <= 1)
	vEnsures("finally exactly once when it ended", l.fin <= 1 && (l.complete+l.fail == 0 || l.fin == 1))
	vEnsures("notified exactly when it ended", l.notified == vOne(notify && l.fin == 1) && (l.notified == 0 || l.notifiedSignal == l.signal))
	switch op {
	case 0:
		vEnsures("the item is delivered", l.next >= 1 && l.item == v)
	case 1, 2, 3:
		vEnsures("the end is delivered", l.complete == vOne(op == 1) && l.fail == vOne(op == 2) && l.fin == 1 && l.signal == vWhy(op) && l.next == 0)
		vEnsures("with its error", op != 2 || l.err == vErr)
	case 4:
		vEnsures("asking for items tells nothing", *l == vLog{})
	}
}

//verif:prop C20
func H_ErrorFlux(notify bool) {
	l := &vLog{}
	f := Error[int](vErr)
	f.Subscribe(vSubscribe(l, func() {}))
	vEnsures("one error", l.fail == 1 && l.err == vErr && l.complete == 0 && l.next == 0 && !l.late)
	vEnsures("finally once", l.fin == 1 && l.signal == rx.SignalError)
	f.Notify(func(s rx.SignalType) { l.notified++; l.notifiedSignal = s })
	vEnsures("notified", l.notified == 1 && l.notifiedSignal == rx.SignalError)
	vEnsures("blocking gives the error", f.Block(Subscribe[int]{}) == vErr)
	l = &vLog{}
	vEnsures("and tells the subscriber", f.Block(vSubscribe(l, func() {})) == vErr && l.fail == 1 && l.fin == 1 && l.complete == 0 && l.next == 0 && !l.late)
}

// Waiting for a flux ends when the flux ends, with its error.
//
//verif:prop C20
func H_Block(v int, items, op int) {
	vRequires(op >= 1 && op <= 2 && items >= 0 && items <= 2)
	l := &vLog{}
	f := Create(func(s Sink[int]) {
		for i := 0; i < items; i++ {
			s.Next(v)
		}
		vSignal(op, s, nil, 0, 0)
	})
	err := f.Block(vSubscribe(l, func() {}))
	vEnsures("the error", op == 1 && err == nil || op == 2 && err == vErr)
	vEnsures("told once", l.next == items && l.complete == vOne(op == 1) && l.fail == vOne(op == 2) && l.fin == 1 && !l.late)
}

// A subscription made after the end, and a notification asked for after it.
//
//verif:prop C20
func H_NotifyLate(op int) {
	vRequires(op >= 1 && op <= 3)
	l := &vLog{}
	var sink Sink[int]
	f := Create(func(s Sink[int]) { sink = s })
	f.Subscribe(vSubscribe(l, func() {}))
	vSignal(op, sink, f.Subscription(), 0, 0)
	f.Notify(func(s rx.SignalType) { l.notified++; l.notifiedSignal = s })
	vEnsures("notified at once", l.notified == 1 && l.notifiedSignal == vWhy(op))
}

// A subscriber that leaves out some callbacks is told the rest.
//
//verif:prop C20
func H_Partial(first, second, v, n int, noNext, noComplete, noError, noFinally bool) {
	vRequires(first >= 0 && first <= 4 && second >= 0 && second <= 4)
	l := &vLog{}
	var sink Sink[int]
	f := Create(func(s Sink[int]) { sink = s })
	sub := vSubscribe(l, func() {})
	if noNext {
		sub.OnNext = nil
	}
	if noComplete {
		sub.OnComplete = nil
	}
	if noError {
		sub.OnError = nil
	}
	if noFinally {
		sub.Finally = nil
	}
	f.Subscribe(sub)
	f.Notify(func(s rx.SignalType) { l.notified++; l.notifiedSignal = s })
	ended := false
	for i := 0; i < 2; i++ {
		op := first
		if i == 1 {
			op = second
		}
		was := *l
		vSignal(op, sink, f.Subscription(), v, n)
		if ended {
			vEnsures("nothing after the end", *l == was)
			return
		}
		vEnsures("the item", l.next == was.next+vOne(op == 0 && !noNext))
		vEnsures("the end", l.complete == vOne(op == 1 && !noComplete) && l.fail == vOne(op == 2 && !noError) && !l.late)
		ended = op >= 1 && op <= 3
		vEnsures("finally", l.fin == vOne(ended && !noFinally) && l.notified == vOne(ended))
	}
}

// What a processor is told is what its subscriber is told, and what the subscriber asks
// for is what the processor's source is asked for, whichever of the two came first.
//
//verif:prop C20
func H_Processor(first, second, v, x, n, m int, before bool) {
	vRequires(first >= 0 && first <= 3 && second >= 0 && second <= 3)
	l := &vLog{}
	asked, cancelled := 0, 0
	source := OnSubscribe{Request: func(n int) { asked += n }, Cancel: func() { cancelled++ }}
	p := NewProcessor[int]()
	if before {
		p.OnSubscribe(source)
	}
	p.Subscribe(vSubscribe(l, func() {}))
	if !before {
		p.OnSubscribe(source)
	}
	sub := p.Subscription()
	sub.Request(n)
	vRunGo()
	vEnsures("demand reaches the source", asked == n && *l == vLog{})
	vSignal(first, p, sub, v, m)
	vEnsures("the first signal", l.next == vOne(first == 0) && l.complete == vOne(first == 1) && l.fail == vOne(first == 2) && cancelled == vOne(first == 3))
	vEnsures("with what it carries", (first != 0 || l.item == v) && (first != 2 || l.err == vErr))
	if first != 0 {
		vEnsures("the end", l.fin == 1 && l.signal == vWhy(first))
		was := *l
		vSignal(second, p, sub, x, m)
		vEnsures("nothing after the end", *l == was && cancelled == vOne(first == 3))
		return
	}
	vSignal(second, p, sub, x, m)
	vEnsures("the second signal", l.next == 1+vOne(second == 0) && l.complete == vOne(second == 1) && l.fail == vOne(second == 2) && cancelled == vOne(second == 3))
	vEnsures("with what it carries", (second != 0 || l.item == x) && (second != 2 || l.err == vErr) && !l.late)
}
