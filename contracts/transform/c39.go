//verif:pkg transform
package transform

import (
	"context"
	"errors"
	"io"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// vWhy is the error a source ends with: its own or a well-known one.
func vWhy(k int) error {
	switch k {
	case 0:
		return errors.New("end")
	case 1:
		return io.EOF
	case 2:
		return context.Canceled
	}
	return io.ErrUnexpectedEOF
}

// vSeen is what a subscriber was told.
type vSeen struct {
	next, value       int
	success, complete int
	fail, fin         int
	err               error
	signal            rx.SignalType
	late              bool
	notified          int
}

func (l *vSeen) ended() bool { return l.success+l.complete+l.fail > 0 }

func (l *vSeen) onEnd(s rx.SignalType) {
	l.fin++
	l.signal = s
}

// vEnded: exactly one end, of this kind.
func (l *vSeen) vEnded(err error) bool {
	if err != nil {
		return l.fail == 1 && l.err == err && l.success == 0 && l.complete == 0 && l.fin == 1 && l.signal == rx.SignalError
	}
	return l.fail == 0 && l.success+l.complete == 1 && l.fin == 1 && l.signal == rx.SignalComplete
}

// A flux of any number of items, then an end; the signals come while it is subscribed
// to or later.
//
//verif:prop C39
func H_FluxToVoid(n int, end int, later bool, x int, why int) {
	vRequires(why >= 0 && why <= 3)
	vEnd := vWhy(why)
	vRequires(n >= 0 && end >= 0 && end <= 2)
	var sink flux.Sink[int]
	subscribed, asked := 0, 0
	items := func() {
		for i := 0; i < n; i++ {
			sink.Next(x)
		}
	}
	finish := func() {
		switch end {
		case 1:
			sink.Complete()
		case 2:
			sink.Error(vEnd)
		}
	}
	src := flux.Create(func(s flux.Sink[int]) {
		subscribed++
		sink = s
		s.OnSubscribe(flux.OnSubscribe{Request: func(n int) { asked += n }})
		if !later {
			items()
			finish()
		}
	})
	l := &vSeen{}
	m := FluxToVoid(src)
	vEnsures("nothing happens before it is subscribed to", subscribed == 0)
	m.Subscribe(mono.Subscribe[struct{}]{
		OnSuccess: func(struct{}) { l.success++ },
		OnError:   func(err error) { l.fail++; l.err = err },
		Finally:   l.onEnd,
	})
	vEnsures("subscribed to once", subscribed == 1)
	if later {
		vRunGo()
		vEnsures("something is asked for", asked >= 1)
		items()
		vEnsures("items are no end", !l.ended() && l.fin == 0)
		finish()
	}
	switch end {
	case 0:
		vEnsures("no end", !l.ended() && l.fin == 0)
	case 1:
		vEnsures("success at the end", l.vEnded(nil))
	case 2:
		vEnsures("error at the end", l.vEnded(vEnd))
	}
}

// Every item is asked for, at once or as they come.
//
//verif:prop C39
//verif:bounded 300 items
func H_VoidDemand(fail bool, x int) {
	asked := 0
	var sink flux.Sink[int]
	l := &vSeen{}
	FluxToVoid(flux.Create(func(s flux.Sink[int]) {
		sink = s
		s.OnSubscribe(flux.OnSubscribe{Request: func(n int) { asked += n }})
	})).Subscribe(mono.Subscribe[struct{}]{
		OnSuccess: func(struct{}) { l.success++ },
		OnError:   func(err error) { l.fail++; l.err = err },
		Finally:   l.onEnd,
	})
	for i := 0; i < 300; i++ {
		if asked <= i {
			vRunGo()
		}
		vEnsures("the next item is asked for", asked > i)
		sink.Next(x)
	}
	vEnsures("items are no end", !l.ended() && l.fin == 0)
	if fail {
		sink.Error(io.EOF)
		vEnsures("error at the end", l.vEnded(io.EOF))
		return
	}
	sink.Complete()
	vEnsures("success at the end", l.vEnded(nil))
}

// A flux of any number of items, of which the first counts.
//
//verif:prop C39
func H_FluxToMono(n, end int, later bool, x, y int, why int) {
	vRequires(why >= 0 && why <= 3)
	vEnd := vWhy(why)
	vRequires(n >= 0 && end >= 0 && end <= 2)
	var sink flux.Sink[int]
	subscribed, asked := 0, 0
	l := &vSeen{}
	emit := func() {
		if n > 0 {
			sink.Next(x)
		}
		for i := 1; i < n; i++ {
			sink.Next(y)
		}
		switch end {
		case 1:
			sink.Complete()
		case 2:
			sink.Error(vEnd)
		}
	}
	src := flux.Create(func(s flux.Sink[int]) {
		subscribed++
		sink = s
		s.OnSubscribe(flux.OnSubscribe{Request: func(n int) { asked += n }})
		if !later {
			emit()
		}
	})
	m := FluxToMono(src)
	vEnsures("nothing happens before it is subscribed to", subscribed == 0)
	m.Subscribe(mono.Subscribe[int]{
		OnSuccess: func(v int) { l.success++; l.value = v },
		OnError:   func(err error) { l.fail++; l.err = err },
		Finally:   l.onEnd,
	})
	vEnsures("subscribed to once", subscribed == 1)
	if later {
		vRunGo()
		vEnsures("something is asked for", asked >= 1 && !l.ended())
		emit()
	}
	switch {
	case n > 0:
		vEnsures("the first item", l.vEnded(nil) && l.value == x)
	case end == 2:
		vEnsures("error", l.vEnded(vEnd))
	case end == 1:
		vEnsures("no item is an error", l.success == 0 && l.fail == 1 && l.err != nil && l.fin == 1 && l.signal == rx.SignalError)
	default:
		vEnsures("no end", !l.ended() && l.fin == 0)
	}
}

// A mono's value, and then the end.
//
//verif:prop C39
func H_MonoToFlux(end int, later bool, x int, why int) {
	vRequires(why >= 0 && why <= 3)
	vEnd := vWhy(why)
	vRequires(end >= 0 && end <= 2)
	var sink mono.Sink[int]
	subscribed := 0
	finish := func() {
		switch end {
		case 1:
			sink.Success(x)
		case 2:
			sink.Error(vEnd)
		}
	}
	src := mono.Create(func(s mono.Sink[int]) {
		subscribed++
		sink = s
		if !later {
			finish()
		}
	})
	l := &vSeen{}
	f := MonoToFlux(src)
	vEnsures("nothing happens before it is subscribed to", subscribed == 0)
	f.Subscribe(flux.Subscribe[int]{
		OnNext:     func(v int) { l.next++; l.value = v; l.late = l.late || l.ended() },
		OnComplete: func() { l.complete++ },
		OnError:    func(err error) { l.fail++; l.err = err },
		Finally:    l.onEnd,
	})
	vEnsures("subscribed to once", subscribed == 1)
	if later {
		vEnsures("no end yet", !l.ended() && l.fin == 0 && l.next == 0)
		finish()
	}
	switch end {
	case 0:
		vEnsures("no end", !l.ended() && l.fin == 0 && l.next == 0)
	case 1:
		vEnsures("the value and the end", l.vEnded(nil) && l.next == 1 && l.value == x && !l.late)
	case 2:
		vEnsures("the error", l.vEnded(vEnd) && l.next == 0)
	}
}

// What is converted twice is what it was.
//
//verif:prop C39
func H_ThereAndBack(fail bool, x int, why int) {
	vRequires(why >= 0 && why <= 3)
	vEnd := vWhy(why)
	m := mono.Just(x)
	if fail {
		m = mono.Error[int](vEnd)
	}
	l := &vSeen{}
	FluxToMono(MonoToFlux(m)).Subscribe(mono.Subscribe[int]{
		OnSuccess: func(v int) { l.success++; l.value = v },
		OnError:   func(err error) { l.fail++; l.err = err },
		Finally:   l.onEnd,
	})
	if fail {
		vEnsures("the error", l.vEnded(vEnd))
	} else {
		vEnsures("the value", l.vEnded(nil) && l.value == x)
	}
}
