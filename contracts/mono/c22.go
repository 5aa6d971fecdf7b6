//verif:pkg rx/mono
package mono

import (
	"errors"

	"github.com/nanobus/iota/go/rx"
)

var vBad = errors.New("bad item")

// Two signals, one after the other, through a mapped mono.
//
//verif:prop C22
func H_Map(first, second, v, w, bad int, notify bool) {
	vRequires(first >= 1 && first <= 3 && second >= 1 && second <= 3)
	l := &vLog{}
	var sink Sink[int]
	calls := 0
	src := Create(func(s Sink[int]) { sink = s })
	m := Map(src, func(x int) (int, error) {
		calls++
		if x == bad {
			return x, vBad
		}
		return x ^ 85, nil
	})
	m.Subscribe(vSubscribe(l, func() {}))
	if notify {
		m.Notify(func(s rx.SignalType) { l.notified++; l.notifiedSignal = s })
	}
	vEnsures("nothing before a signal", *l == vLog{} && calls == 0)
	vSignal(first, sink, v)
	ok := first == 1 && v != bad
	failing := first == 1 && v == bad
	vEnsures("the transformation runs once", calls == vOne(first == 1))
	vEnsures("the transformed value", l.values == vOne(ok) && (!ok || l.value == v^85))
	vEnsures("one error", l.fail == vOne(failing || first == 2) && (!failing || l.err == vBad) && (first != 2 || l.err == vErr))
	why := vWhy(first)
	if failing {
		why = rx.SignalError
	}
	vEnsures("finally once, telling why", l.fin == 1 && l.signal == why && !l.late)
	vEnsures("notified once", l.notified == vOne(notify))
	if first <= 2 {
		got, err := m.Get()
		vEnsures("the result", ok && got == v^85 && err == nil || failing && err == vBad || first == 2 && err == vErr)
	}
	was := *l
	vSignal(second, sink, w)
	vEnsures("nothing after the end", *l == was)
}

//verif:prop C22
func H_MapBlock(op, v, bad int) {
	vRequires(op >= 1 && op <= 2)
	src := Create(func(s Sink[int]) { vSignal(op, s, v) })
	got, err := Map(src, func(x int) (int, error) {
		if x == bad {
			return 0, vBad
		}
		return x + 1, nil
	}).Block()
	switch {
	case op == 2:
		vEnsures("the source's error", err == vErr)
	case v == bad:
		vEnsures("the transformation's error", err == vBad)
	default:
		vEnsures("the transformed value", err == nil && got == v+1)
	}
}

// Mapping what already has its result.
//
//verif:prop C22
func H_MapConstant(v, bad int, fails bool) {
	l := &vLog{}
	src := Just(v)
	if fails {
		src = Error[int](vErr)
	}
	m := Map(src, func(x int) (int, error) {
		if x == bad {
			return 0, vBad
		}
		return x + 1, nil
	})
	m.Subscribe(vSubscribe(l, func() {}))
	switch {
	case fails:
		vEnsures("the error", l.fail == 1 && l.err == vErr && l.values == 0 && l.signal == rx.SignalError)
	case v == bad:
		vEnsures("the transformation's error", l.fail == 1 && l.err == vBad && l.values == 0 && l.signal == rx.SignalError)
	default:
		vEnsures("the transformed value", l.fail == 0 && l.values == 1 && l.value == v+1 && l.signal == rx.SignalComplete)
	}
	vEnsures("finally once", l.fin == 1 && !l.late)
}
