//verif:pkg rx/mono
//verif:common
package mono

import (
	"errors"

	"github.com/nanobus/iota/go/rx"
)

var vErr = errors.New("failure")

// vLog records what a subscriber is told.
type vLog struct {
	values, fail, fin, notified int
	value                       int
	err                         error
	signal, notifiedSignal      rx.SignalType
	late                        bool // something was delivered after the end
}

func (l *vLog) ended() bool { return l.values+l.fail+l.fin > 0 }

func vSubscribe(l *vLog, react func()) Subscribe[int] {
	return Subscribe[int]{
		OnSuccess: func(v int) {
			l.late = l.late || l.ended()
			l.values++
			l.value = v
			react()
		},
		OnError: func(err error) {
			l.late = l.late || l.ended()
			l.fail++
			l.err = err
			react()
		},
		Finally: func(s rx.SignalType) {
			l.fin++
			l.signal = s
		},
	}
}

type vCancel interface{ Cancel() }

func vSignal(op int, sink Sink[int], v int) {
	switch op {
	case 1:
		sink.Success(v)
	case 2:
		sink.Error(vErr)
	case 3:
		if c, ok := sink.(vCancel); ok {
			c.Cancel()
		}
	}
}

func vOne(b bool) int {
	if b {
		return 1
	}
	return 0
}

func vWhy(op int) rx.SignalType {
	switch op {
	case 1:
		return rx.SignalComplete
	case 2:
		return rx.SignalError
	}
	return rx.SignalCancel
}
