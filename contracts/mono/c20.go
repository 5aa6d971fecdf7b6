//verif:pkg rx/mono
package mono

import "github.com/nanobus/iota/go/rx"

// Two signals, one after the other, to a subscriber that itself sends a third from
// its callback: a mono is either open or ended, so every state is covered.
//
//verif:prop C20
func H_Signal(first, second, inner, v, w int, notify, early bool) {
	vRequires(first >= 1 && first <= 3 && second >= 1 && second <= 3 && inner >= 0 && inner <= 3)
	l := &vLog{}
	var sink Sink[int]
	m := Create(func(s Sink[int]) {
		sink = s
		if early {
			vSignal(first, sink, v)
		}
	})
	told := func(s rx.SignalType) { l.notified++; l.notifiedSignal = s }
	if notify {
		m.Notify(told)
	}
	m.Subscribe(vSubscribe(l, func() { vSignal(inner, sink, w) }))
	if !early {
		vEnsures("nothing before a signal", *l == vLog{})
		vSignal(first, sink, v)
	}
	vEnsures("one value or one error", l.values == vOne(first == 1) && l.fail == vOne(first == 2) && !l.late)
	vEnsures("the value or the error", (first != 1 || l.value == v) && (first != 2 || l.err == vErr))
	vEnsures("finally once and tells why", l.fin == 1 && l.signal == vWhy(first))
	if !notify {
		m.Notify(told)
	}
	vEnsures("notified once", l.notified == 1 && l.notifiedSignal == vWhy(first))
	if first <= 2 {
		got, err := m.Get()
		vEnsures("the result is kept", (first != 1 || got == v && err == nil) && (first != 2 || err == vErr))
	}
	was := *l
	vSignal(second, sink, w)
	vEnsures("nothing after the end", *l == was)
}

//verif:prop C20
func H_Just(v int) {
	l := &vLog{}
	m := Just(v)
	m.Subscribe(vSubscribe(l, func() {}))
	vEnsures("one value", l.values == 1 && l.value == v && l.fail == 0 && !l.late)
	vEnsures("finally once", l.fin == 1 && l.signal == rx.SignalComplete)
	m.Notify(func(s rx.SignalType) { l.notified++; l.notifiedSignal = s })
	vEnsures("notified", l.notified == 1 && l.notifiedSignal == rx.SignalComplete)
	got, err := m.Get()
	vEnsures("the value", got == v && err == nil)
	got, err = m.Block()
	vEnsures("waiting gives the value", got == v && err == nil)
}

//verif:prop C20
func H_ErrorMono() {
	l := &vLog{}
	m := Error[int](vErr)
	m.Subscribe(vSubscribe(l, func() {}))
	vEnsures("one error", l.fail == 1 && l.err == vErr && l.values == 0 && !l.late)
	vEnsures("finally once", l.fin == 1 && l.signal == rx.SignalError)
	m.Notify(func(s rx.SignalType) { l.notified++; l.notifiedSignal = s })
	vEnsures("notified", l.notified == 1 && l.notifiedSignal == rx.SignalError)
	_, err := m.Get()
	vEnsures("the error", err == vErr)
	_, err = m.Block()
	vEnsures("waiting gives the error", err == vErr)
}

//verif:prop C20
func H_Block(op, again, v int) {
	vRequires(op >= 1 && op <= 2 && again >= 1 && again <= 2)
	m := Create(func(s Sink[int]) {
		vSignal(op, s, v)
		vSignal(again, s, v+1)
	})
	got, err := m.Block()
	vEnsures("the value or the error", op == 1 && err == nil && got == v || op == 2 && err == vErr)
	got, err = m.Block()
	vEnsures("the same again", op == 1 && err == nil && got == v || op == 2 && err == vErr)
}

// A processor delivers what it was given, before or after it is subscribed to.
//
//verif:prop C20
func H_Processor(op, again, v int, before bool) {
	vRequires(op >= 1 && op <= 2 && again >= 1 && again <= 2)
	l := &vLog{}
	p := NewProcessor[int]()
	if before {
		vSignal(op, p, v)
	}
	p.Subscribe(vSubscribe(l, func() {}))
	if !before {
		vSignal(op, p, v)
	}
	vSignal(again, p, v+1)
	vEnsures("one value or one error", l.values == vOne(op == 1) && l.fail == vOne(op == 2) && l.fin == 1 && !l.late)
	vEnsures("the value or the error", op == 1 && l.value == v || op == 2 && l.err == vErr)
}

// A subscriber that leaves out some callbacks is told the rest.
//
//verif:prop C20
func H_Partial(first, second, v int, noSuccess, noError, noFinally bool) {
	vRequires(first >= 1 && first <= 3 && second >= 1 && second <= 3)
	l := &vLog{}
	var sink Sink[int]
	m := Create(func(s Sink[int]) { sink = s })
	sub := vSubscribe(l, func() {})
	if noSuccess {
		sub.OnSuccess = nil
	}
	if noError {
		sub.OnError = nil
	}
	if noFinally {
		sub.Finally = nil
	}
	m.Subscribe(sub)
	m.Notify(func(s rx.SignalType) { l.notified++; l.notifiedSignal = s })
	vSignal(first, sink, v)
	vEnsures("one value or one error", l.values == vOne(first == 1 && !noSuccess) && l.fail == vOne(first == 2 && !noError) && !l.late)
	vEnsures("finally", l.fin == vOne(!noFinally) && l.notified == 1 && l.notifiedSignal == vWhy(first))
	was := *l
	vSignal(second, sink, v)
	vEnsures("nothing after the end", *l == was)
}
