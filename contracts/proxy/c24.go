//verif:pkg proxy
package proxy

import (
	"context"
	"errors"
	"sync"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// vLine keeps the frames that were sent.
type vLine struct {
	f    [6]frames.Frame
	n    int
	hook func()
}

func (w *vLine) send(f frames.Frame) error {
	w.f[w.n] = f
	w.n++
	if h := w.hook; h != nil {
		w.hook = nil
		h()
	}
	return nil
}

// peer is what the peer can do to a stream it was asked for.
type vPeered interface {
	Stream
	DoRequest(n int)
	DoCancel() bool
}

// The input of a channel: its peer does two things as soon as the request is sent and
// one later.
//
//verif:prop C24
func H_ChannelEarly(id uint32, k1, k2, k3, n, n1, n2, n3, op int, data, md []byte, none bool) {
	vRequires(k1 >= 0 && k1 <= 2 && k2 >= 0 && k2 <= 2 && k3 >= 0 && k3 <= 2 && op >= 0 && op <= 2)
	vRequires(n > 0 && n <= rx.RequestMax && n1 > 0 && n1 <= rx.RequestMax && n2 > 0 && n2 <= rx.RequestMax && n3 > 0 && n3 <= rx.RequestMax)
	w := &vLine{}
	var s vPeered
	var sink flux.Sink[payload.Payload]
	a := &vAnswer{}
	in := flux.Create(func(x flux.Sink[payload.Payload]) {
		sink = x
		x.OnSubscribe(flux.OnSubscribe{Request: a.Request, Cancel: a.Cancel})
	})
	f := Flux(context.Background(), frames.RequestPayload{FrameType: frames.FrameTypeRequestChannel, StreamID: id}, in, w.send, func(x Stream) { s = x.(vPeered) })
	vEnsures("nothing is sent unless asked for", w.n == 0)
	w.hook = func() {
		vInputOp(s, k1, n1)
		vInputOp(s, k2, n2)
	}
	var sub rx.Subscription
	f.Subscribe(flux.Subscribe[payload.Payload]{OnRequest: func(x rx.Subscription) { sub = x }})
	vRunGo()
	vEnsures("registered", s != nil && s.StreamID() == id && w.n == 0)
	vGuardedAll("a requested stream", s)
	sub.Request(n)
	vRunGo()
	vEnsures("the request", w.n == 1 && sink != nil)
	r, ok := w.f[0].(*frames.RequestPayload)
	vEnsures("with its demand", ok && r.StreamID == id && r.InitialN == uint32(n))
	cancelled := k1 == 1 || k2 == 1
	vEnsures("demand adds up", cancelled || a.asked == vIf(k1 == 0, n1)+vIf(k2 == 0, n2))
	vEnsures("cancellation is kept", a.cancelled == vIf(cancelled, 1) && (!cancelled || a.asked == 0))
	if cancelled {
		return
	}
	was := a.asked
	vInputOp(s, k3, n3)
	vRunGo()
	vEnsures("further demand", a.asked == was+vIf(k3 == 0, n3) && a.cancelled == vIf(k3 == 1, 1))
	vEnsures("nothing else is sent", w.n == 1)
	if k3 == 1 {
		return
	}
	var p payload.Payload = payload.New(data, md)
	if none {
		p = payload.New(nil, nil)
		data, md = nil, nil
	}
	sink.Next(p)
	x, ok := w.f[1].(*frames.Payload)
	vEnsures("an item", w.n == 2 && ok && x.StreamID == id && x.Next && !x.Complete && !x.Follows && vEq(x.Data, data) && vEq(x.Metadata, md))
	switch op {
	case 0:
		sink.Complete()
		x, ok := w.f[2].(*frames.Payload)
		vEnsures("completion", w.n == 3 && ok && x.StreamID == id && !x.Next && x.Complete)
	case 1:
		sink.Error(errors.New("failure"))
		x, ok := w.f[2].(*frames.Error)
		vEnsures("the error", w.n == 3 && ok && x.StreamID == id && x.Data == "failure")
	case 2:
		sub.Request(n)
		vRunGo()
		x, ok := w.f[2].(*frames.RequestN)
		vEnsures("demand for the answer", w.n == 3 && ok && x.StreamID == id && x.N == uint32(n))
		sub.Cancel()
		vRunGo()
		y, ok := w.f[3].(*frames.Cancel)
		vEnsures("cancellation of the answer", w.n == 4 && ok && y.StreamID == id)
	}
	vEnsures("unlocked", vUnlocked())
}

func vInputOp(s vPeered, k, n int) {
	switch k {
	case 0:
		s.DoRequest(n)
	case 1:
		vEnsures("the answer goes on", !s.DoCancel())
	}
}

// A stream that its peer has ended sends nothing more.
//
//verif:prop C24
func H_StreamOver(id uint32, n, end int) {
	vRequires(n > 0 && n <= rx.RequestMax && end >= 0 && end <= 3)
	w := &vLine{}
	var s vPeered
	f := Flux(context.Background(), frames.RequestPayload{FrameType: frames.FrameTypeRequestStream, StreamID: id}, nil, w.send, func(x Stream) { s = x.(vPeered) })
	var sub rx.Subscription
	f.Subscribe(flux.Subscribe[payload.Payload]{OnRequest: func(x rx.Subscription) { sub = x }})
	vRunGo()
	vGuardedAll("a requested stream", s)
	sub.Request(n)
	vRunGo()
	vEnsures("the request", w.n == 1)
	switch end {
	case 0:
		s.OnComplete()
	case 1:
		s.OnError(errors.New("failure"))
	case 2:
		vEnsures("over", s.DoCancel())
	default:
		sub.Cancel()
		vRunGo()
		vEnsures("cancelled", w.n == 2)
		w.n = 1
	}
	sub.Request(n)
	sub.Cancel()
	vRunGo()
	vEnsures("nothing is sent once it is over", w.n == 1)
	vEnsures("unlocked", vUnlocked())
}

// Concurrent use on the real code, run when an obligation above has failed.
//
//verif:prop C24
//verif:stress
func R_Channel() {
	for i := 0; i < 200; i++ {
		var mu sync.Mutex
		requests, asked := 0, 0
		var s vPeered
		in := flux.Create(func(x flux.Sink[payload.Payload]) {
			x.OnSubscribe(flux.OnSubscribe{Request: func(n int) {
				mu.Lock()
				asked += n
				mu.Unlock()
			}, Cancel: func() {}})
		})
		f := Flux(context.Background(), frames.RequestPayload{FrameType: frames.FrameTypeRequestChannel, StreamID: 1}, in, func(f frames.Frame) error {
			mu.Lock()
			defer mu.Unlock()
			if _, ok := f.(*frames.RequestPayload); ok {
				requests++
			}
			return nil
		}, func(x Stream) { s = x.(vPeered) })
		subs := make(chan rx.Subscription, 1)
		f.Subscribe(flux.Subscribe[payload.Payload]{OnRequest: func(x rx.Subscription) { subs <- x }})
		sub := <-subs
		var wg sync.WaitGroup
		for _, f := range []func(){
			func() { sub.Request(1) },
			func() { sub.Request(2) },
			func() { s.DoRequest(3) },
			func() { s.DoRequest(4) },
		} {
			wg.Add(1)
			go func(f func()) {
				defer wg.Done()
				f()
			}(f)
		}
		wg.Wait()
		mu.Lock()
		vEnsures("one request", requests == 1)
		vEnsures("demand adds up", asked == 7)
		mu.Unlock()
	}
}

// The input of a channel is an error from the start; its peer asks for items or cancels
// as soon as the request is sent, and later.
//
//verif:prop C24
func H_ChannelFailedInput(id uint32, k1, k2, k3, n, n1, n2, n3 int) {
	vRequires(k1 >= 0 && k1 <= 2 && k2 >= 0 && k2 <= 2 && k3 >= 0 && k3 <= 2)
	vRequires(n > 0 && n <= rx.RequestMax && n1 > 0 && n1 <= rx.RequestMax && n2 > 0 && n2 <= rx.RequestMax && n3 > 0 && n3 <= rx.RequestMax)
	w := &vLine{}
	var s vPeered
	in := flux.Error[payload.Payload](errors.New("failure"))
	f := Flux(context.Background(), frames.RequestPayload{FrameType: frames.FrameTypeRequestChannel, StreamID: id}, in, w.send, func(x Stream) { s = x.(vPeered) })
	w.hook = func() {
		vInputOp(s, k1, n1)
		vInputOp(s, k2, n2)
	}
	var sub rx.Subscription
	f.Subscribe(flux.Subscribe[payload.Payload]{OnRequest: func(x rx.Subscription) { sub = x }})
	vRunGo()
	sub.Request(n)
	vRunGo()
	r, ok := w.f[0].(*frames.RequestPayload)
	vEnsures("the request", w.n == 2 && ok && r.StreamID == id && r.InitialN == uint32(n))
	x, ok := w.f[1].(*frames.Error)
	vEnsures("the error", ok && x.StreamID == id && x.Data == "failure")
	vInputOp(s, k3, n3)
	vRunGo()
	vEnsures("nothing else is sent", w.n == 2)
	vEnsures("unlocked", vUnlocked())
}

// A mono is requested once, however it is waited for, and each that waits is answered.
//
//verif:prop C24
func H_MonoWaits(id uint32, how1, how2 int, fail, early bool, data []byte) {
	vRequires(how1 >= 0 && how1 <= 2 && how2 >= 0 && how2 <= 2)
	w := &vLine{}
	var s Stream
	m := Mono(context.Background(), frames.RequestPayload{FrameType: frames.FrameTypeRequestResponse, StreamID: id, Data: data}, w.send, func(x Stream) {
		vEnsures("registered once", s == nil)
		s = x
	})
	p := payload.New(data)
	err := errors.New("failure")
	answered := false
	answer := func() {
		answered = true
		if fail {
			s.OnError(err)
		} else {
			s.OnNext(p)
		}
	}
	if early || how1 == 2 {
		w.hook = answer
	}
	a1, a2 := &vWaiter{}, &vWaiter{}
	a1.wait(m, how1)
	if !answered && how2 == 2 {
		answer()
	}
	a2.wait(m, how2)
	if !answered {
		answer()
	}
	vRunGo()
	r, ok := w.f[0].(*frames.RequestPayload)
	vEnsures("requested once", w.n == 1 && ok && r.StreamID == id && r.FrameType == frames.FrameTypeRequestResponse && vEq(r.Data, data))
	for _, a := range [2]*vWaiter{a1, a2} {
		if fail {
			vEnsures("the error", a.fail == 1 && a.err == err && a.success == 0)
		} else {
			vEnsures("the answer", a.success == 1 && a.p == p && a.fail == 0)
		}
	}
}

// vWaiter waits for a mono.
type vWaiter struct {
	success, fail int
	p             payload.Payload
	err           error
}

func (a *vWaiter) take(p payload.Payload, err error) {
	if err != nil {
		a.fail++
		a.err = err
	} else {
		a.success++
		a.p = p
	}
}

func (a *vWaiter) wait(m mono.Mono[payload.Payload], how int) {
	switch how {
	case 0:
		m.Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) { a.take(p, nil) },
			OnError:   func(err error) { a.take(nil, err) },
		})
	case 1:
		m.Async()
		m.Notify(func(rx.SignalType) { a.take(m.Get()) })
	case 2:
		a.take(m.Block())
	}
}
