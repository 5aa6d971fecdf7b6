//verif:pkg proxy
package proxy

import (
	"context"
	"errors"
	"sync"
	"sync/atomic"

	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
)

// vInput is what reaches the handler of a channel.
type vInput struct {
	next, comp, fail int
	got              payload.Payload
	err              error
}

func (i *vInput) Next(p payload.Payload)       { i.next++; i.got = p }
func (i *vInput) Complete()                    { i.comp++ }
func (i *vInput) Error(err error)              { i.fail++; i.err = err }
func (i *vInput) OnSubscribe(flux.OnSubscribe) {}

// vPeerOp is one thing the peer does to the stream.
func vPeerOp(r *Responder, kind, n int, p payload.Payload, err error) {
	switch kind {
	case 0:
		r.DoRequest(n)
	case 1:
		vEnsures("a cancelled stream is over", r.DoCancel())
	case 2:
		r.OnNext(p)
	case 3:
		r.OnComplete()
	case 4:
		r.OnError(err)
	}
}

// A requested stream: two things arrive before its handler has answered, one after.
//
//verif:prop C23
func H_ResponderEarly(id uint32, channel, sinkFirst bool, k1, k2, k3, n1, n2, n3, first int, data, md []byte) {
	vRequires(k1 >= 0 && k1 <= 5 && k2 >= 0 && k2 <= 5 && k3 >= 0 && k3 <= 5)
	vRequires(first >= 0 && first <= rx.RequestMax && n1 > 0 && n1 <= rx.RequestMax && n2 > 0 && n2 <= rx.RequestMax && n3 > 0 && n3 <= rx.RequestMax)
	r := NewResponder(context.Background(), id, channel)
	vGuardedAll("a responder", r)
	vEnsures("the stream", r.StreamID() == id && r.Context() == context.Background())
	e1, e2, e3 := errors.New("1"), errors.New("2"), errors.New("3")
	p := payload.New(data, md)
	a, in := &vAnswer{}, &vInput{}
	vPeerOp(r, k1, n1, p, e1)
	vPeerOp(r, k2, n2, p, e2)
	if sinkFirst {
		r.SetSink(in)
		r.SetSubscription(a, first)
	} else {
		r.SetSubscription(a, first)
		r.SetSink(in)
	}
	cancelled := k1 == 1 || k2 == 1
	fails, ends := k1 == 4 || k2 == 4, k1 == 3 || k2 == 3 || cancelled
	vEnsures("demand adds up", cancelled || a.asked == first+vIf(k1 == 0, n1)+vIf(k2 == 0, n2))
	vEnsures("cancellation is kept", a.cancelled == vIf(cancelled, 1) && (!cancelled || a.asked == 0))
	vEnsures("the end of the input is kept", in.fail+in.comp == vIf(fails || ends, 1) && in.next == 0)
	if fails && !ends {
		vEnsures("with its error", in.fail == 1 && in.err == vErrOf(k1 == 4, e1, e2))
	}
	if ends && !fails {
		vEnsures("without an error", in.comp == 1)
	}
	was := *a
	wasIn := *in
	vPeerOp(r, k3, n3, p, e3)
	switch k3 {
	case 0:
		vEnsures("further demand", cancelled || a.asked == was.asked+n3 && a.cancelled == was.cancelled)
	case 1:
		vEnsures("cancellation", a.cancelled >= 1 && a.asked == was.asked)
	default:
		vEnsures("nothing else reaches the answer", *a == was)
	}
	if !fails && !ends {
		vEnsures("items", in.next == vIf(k3 == 2, 1) && (k3 != 2 || in.got == payload.Payload(p)))
		vEnsures("completion", in.comp == vIf(k3 == 3 || k3 == 1, 1))
		vEnsures("an error", in.fail == vIf(k3 == 4, 1) && (k3 != 4 || in.err == e3))
	} else if k3 == 0 || k3 == 5 {
		vEnsures("demand is not for the input", *in == wasIn)
	}
	over := fails || ends || k3 == 1 || k3 == 3 || k3 == 4
	vEnsures("the answer is still due", !r.InputEnded())
	vEnsures("over when answer and input are", r.AnswerEnded() == (over || !channel))
	vEnsures("the answer has ended", r.InputEnded())
	vEnsures("unlocked", vUnlocked())
}

func vErrOf(b bool, e1, e2 error) error {
	if b {
		return e1
	}
	return e2
}

// Concurrent use on the real code, run when an obligation above has failed.
//
//verif:prop C23
//verif:stress
func R_Responder() {
	for i := 0; i < 300; i++ {
		r := NewResponder(context.Background(), 1, true)
		var asked atomic.Int64
		var ends atomic.Int64
		a := &vCount{asked: &asked}
		var wg sync.WaitGroup
		for _, f := range []func(){
			func() { r.DoRequest(3) },
			func() { r.SetSubscription(a, 4) },
			func() { r.DoRequest(5) },
			func() { r.SetSink(&vEnds{n: &ends}) },
			func() { r.OnComplete() },
			func() { r.AnswerEnded() },
			func() { r.InputEnded() },
		} {
			wg.Add(1)
			go func(f func()) {
				defer wg.Done()
				f()
			}(f)
		}
		wg.Wait()
		vEnsures("demand adds up", asked.Load() == 12)
		vEnsures("the input ends", ends.Load() >= 1)
	}
}

type vCount struct{ asked *atomic.Int64 }

func (a *vCount) Request(n int) { a.asked.Add(int64(n)) }
func (a *vCount) Cancel()       {}

type vEnds struct {
	vInput
	n *atomic.Int64
}

func (e *vEnds) Complete() { e.n.Add(1) }
