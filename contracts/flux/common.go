//verif:pkg rx/flux
//verif:common
package flux

import (
	"errors"

	"github.com/nanobus/iota/go/rx"
)

var vErr = errors.New("failure")

// vLog records what a subscriber is told.
type vLog struct {
	next, complete, fail, fin, notified int
	item                                int
	err                                 error
	signal, notifiedSignal              rx.SignalType
	late                                bool // something was delivered after the end
}

func (l *vLog) ended() bool { return l.complete+l.fail+l.fin > 0 }

// vSubscribe is a subscriber that records; react is called in every callback.
func vSubscribe(l *vLog, react func()) Subscribe[int] {
	return Subscribe[int]{
		OnNext: func(v int) {
			l.late = l.late || l.ended()
			l.next++
			l.item = v
			react()
		},
		OnComplete: func() {
			l.late = l.late || l.ended()
			l.complete++
			react()
		},
		OnError: func(err error) {
			l.late = l.late || l.ended()
			l.fail++
			l.err = err
			react()
		},
		Finally: func(s rx.SignalType) {
			l.fin++
			l.signal = s
		},
		NoRequest: true,
	}
}

// vSignal sends one signal of any kind to the sink.
func vSignal(op int, sink Sink[int], sub rx.Subscription, v, n int) {
	switch op {
	case 0:
		sink.Next(v)
	case 1:
		sink.Complete()
	case 2:
		sink.Error(vErr)
	case 3:
		sub.Cancel()
	case 4:
		sub.Request(n)
	}
}

func vOne(b bool) int {
	if b {
		return 1
	}
	return 0
}

func vWhy(op int) rx.SignalType {
	switch op {
	case 1:
		return rx.SignalComplete
	case 2:
		return rx.SignalError
	}
	return rx.SignalCancel
}
