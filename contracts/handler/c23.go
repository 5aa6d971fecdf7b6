//verif:pkg handler
package handler

import (
	"context"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// vStream is a registered stream that keeps what reaches it.
type vStream struct {
	id                          uint32
	next, comp, fail, ask, stop int
	asked                       int
	late, order                 bool
	data, md                    []byte
	why                         string
}

type vCalls struct{ next, comp, fail, ask, stop int }

func (s *vStream) calls() vCalls { return vCalls{s.next, s.comp, s.fail, s.ask, s.stop} }

func (s *vStream) Context() context.Context { return nil }
func (s *vStream) StreamID() uint32         { return s.id }
func (s *vStream) OnNext(p payload.Payload) {
	s.late = s.late || s.comp > 0
	s.next++
	s.data, s.md = p.Data(), p.Metadata()
}
func (s *vStream) OnComplete() { s.comp++ }
func (s *vStream) OnError(err error) {
	s.late = s.late || s.comp > 0
	s.fail++
	s.why = err.Error()
}

// vAsked can be asked for items as well.
type vAsked struct{ vStream }

func (s *vAsked) DoRequest(n int) { s.ask++; s.asked = n }

// vFrame is a frame of each kind that belongs to a stream.
func vFrame(kind int, id uint32, data, md []byte, next, complete bool, n uint32, why string) frames.Frame {
	switch kind {
	case 0:
		return &frames.RequestN{StreamID: id, N: n}
	case 1:
		return &frames.Cancel{StreamID: id}
	case 2:
		return &frames.Payload{StreamID: id, Data: data, Metadata: md, Next: next, Complete: complete}
	}
	return &frames.Error{StreamID: id, Data: why}
}

// One frame to a table with two streams, one of which can be asked for items.
//
//verif:prop C23
//verif:bounded two streams are registered
func H_Dispatch(a, b, id, n uint32, kind int, data, md []byte, next, complete, plain bool, why string) {
	vRequires(a != b && kind >= 0 && kind <= 3 && n <= rx.RequestMax)
	w := &vWire{}
	h := vNew(w, 0)
	p := &vStream{id: a}
	q := &vAsked{vStream{id: b}}
	if plain {
		h.registerStream(p)
		h.registerStream(q)
	} else {
		h.registerStream(q)
		h.registerStream(p)
	}
	err := h.HandleFrame(vFrame(kind, id, data, md, next, complete, n, why))
	vRunGo()
	vEnsures("accepted", err == nil && w.n == 0)
	var s *vStream
	switch id {
	case a:
		s = p
		vEnsures("other streams hear nothing", q.calls() == vCalls{})
	case b:
		s = &q.vStream
		vEnsures("other streams hear nothing", p.calls() == vCalls{})
	default:
		vEnsures("unknown streams change nothing", p.calls() == vCalls{} && q.calls() == vCalls{})
	}
	_, hasA := h.getStream(a)
	_, hasB := h.getStream(b)
	if s == nil {
		vEnsures("unknown streams change nothing", hasA && hasB)
		return
	}
	ended := true
	switch kind {
	case 0:
		vEnsures("demand", s.calls() == vCalls{ask: vOne(id == b)} && (id == a || s.asked == int(n)))
		ended = false
	case 1:
		vEnsures("cancellation", s.calls() == vCalls{comp: 1})
	case 2:
		vEnsures("item and completion", s.calls() == vCalls{next: vOne(next), comp: vOne(complete)} && !s.late)
		vEnsures("its content", !next || vEq(s.data, data) && vEq(s.md, md))
		ended = complete
	case 3:
		vEnsures("error", s.fail == 1 && s.next == 0 && !s.late && s.why == why)
	}
	vEnsures("a stream is registered until it ends", hasA == !(ended && id == a) && hasB == !(ended && id == b))
}

// vSeen is what a subscriber got.
type vSeen struct {
	next, comp, fail, fin int
	data, md              []byte
	why                   string
	late                  bool
}

func (l *vSeen) subscribe(n int) flux.Subscribe[payload.Payload] {
	return flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			l.late = l.late || l.fin > 0
			l.next++
			l.data, l.md = p.Data(), p.Metadata()
		},
		OnComplete: func() { l.comp++ },
		OnError:    func(err error) { l.fail++; l.why = err.Error() },
		Finally:    func(rx.SignalType) { l.fin++ },
		OnRequest:  func(s rx.Subscription) { s.Request(n) },
	}
}

// The answer to a stream or channel request reaches its subscriber.
//
//verif:prop C23
func H_RequesterStream(kind int, data, md, data2, md2 []byte, next, complete, next2, complete2, channel bool, kind2 int, n uint32, why string) {
	vRequires(kind >= 0 && kind <= 3 && kind2 >= 0 && kind2 <= 3 && n <= rx.RequestMax)
	w := &vWire{}
	h := vNew(w, 0)
	l := &vSeen{}
	if channel {
		h.RequestChannel(context.Background(), vPayload(nil, nil), flux.Error[payload.Payload](vErr)).Subscribe(l.subscribe(1))
	} else {
		h.RequestStream(context.Background(), vPayload(nil, nil)).Subscribe(l.subscribe(1))
	}
	vRunGo()
	id := w.f[0].GetStreamID()
	vEnsures("accepted", h.HandleFrame(vFrame(kind, id, data, md, next, complete, n, why)) == nil)
	vRunGo()
	ended := kind == 3 || kind == 2 && complete || kind == 1 && !channel
	vEnsures("items reach the subscriber", l.next == vOne(kind == 2 && next) && (l.next == 0 || vEq(l.data, data) && vEq(l.md, md)))
	vEnsures("an error reaches the subscriber", l.fail == vOne(kind == 3) && (l.fail == 0 || l.why == why))
	vEnsures("completion reaches the subscriber", l.comp == vOne(ended && kind != 3) && !l.late && l.fin == vOne(ended))
	was := *l
	vEnsures("accepted", h.HandleFrame(vFrame(kind2, id, data2, md2, next2, complete2, n, why)) == nil)
	vRunGo()
	if ended {
		vEnsures("nothing after the end", l.next == was.next && l.comp == was.comp && l.fail == was.fail && l.fin == was.fin)
		return
	}
	vEnsures("the next item follows", l.next == was.next+vOne(kind2 == 2 && next2) && (l.next == was.next || vEq(l.data, data2) && vEq(l.md, md2)))
}

//verif:prop C23
func H_RequesterMono(kind, kind2 int, data, md, data2 []byte, next, complete, next2, complete2 bool, n uint32, why string) {
	vRequires(kind >= 0 && kind <= 3 && kind2 >= 0 && kind2 <= 3 && n <= rx.RequestMax)
	w := &vWire{}
	h := vNew(w, 0)
	values, fails, fin := 0, 0, 0
	var got payload.Payload
	var msg string
	h.RequestResponse(context.Background(), vPayload(nil, nil)).Subscribe(mono.Subscribe[payload.Payload]{
		OnSuccess: func(p payload.Payload) { values++; got = p },
		OnError:   func(err error) { fails++; msg = err.Error() },
		Finally:   func(rx.SignalType) { fin++ },
	})
	id := w.f[0].GetStreamID()
	vEnsures("accepted", h.HandleFrame(vFrame(kind, id, data, md, next, complete, n, why)) == nil)
	vRunGo()
	v := kind == 2 && next
	vEnsures("the answer", values == vOne(v) && (!v || vEq(got.Data(), data) && vEq(got.Metadata(), md)))
	vEnsures("the error", fails == vOne(kind == 3) && (kind != 3 || msg == why))
	vEnsures("once", fin == values+fails)
	vEnsures("accepted", h.HandleFrame(vFrame(kind2, id, data2, md, next2, complete2, n, why)) == nil)
	vRunGo()
	vEnsures("at most one outcome", values+fails <= 1 && fin <= 1 && (!v || values == 1))
}

// Frames for a stream that is served here, before its handler has run or after, and
// whatever the handler answers with.
//
//verif:prop C23
func H_Responder(id uint32, kind int, early bool, data, md []byte, next, complete, subscribed, fails, channel bool, first, n uint32, why string) {
	vRequires(kind >= 0 && kind <= 3 && n <= rx.RequestMax && first <= rx.RequestMax)
	w := &vWire{}
	h := vNew(w, 1)
	l := &vSeen{}
	asked, cancelled := 0, 0
	var in flux.Flux[payload.Payload]
	answer := flux.Create(func(s flux.Sink[payload.Payload]) {
		s.OnSubscribe(flux.OnSubscribe{Request: func(n int) { asked += n }, Cancel: func() { cancelled++ }})
	})
	if fails {
		answer = flux.Error[payload.Payload](vErr)
	}
	invoke.ExportRequestStream("ns", "op", func(context.Context, payload.Payload) flux.Flux[payload.Payload] { return answer })
	invoke.ExportRequestChannel("ns", "op", func(_ context.Context, _ payload.Payload, x flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		in = x
		if subscribed {
			in.Subscribe(l.subscribe(1))
		}
		return answer
	})
	req := &frames.RequestPayload{FrameType: frames.FrameTypeRequestStream, StreamID: id, Metadata: make([]byte, 8), InitialN: first}
	if channel {
		req.FrameType = frames.FrameTypeRequestChannel
	}
	vEnsures("accepted", h.HandleFrame(req) == nil)
	if !early {
		vRunGo()
	}
	vEnsures("accepted", h.HandleFrame(vFrame(kind, id, data, md, next, complete, n, why)) == nil)
	vRunGo()
	if channel && !subscribed {
		in.Subscribe(l.subscribe(1))
		vRunGo()
	}
	over := kind == 3 || kind == 1 || kind == 2 && complete
	if channel {
		vEnsures("the end of the input reaches the handler", l.fin == vOne(over) && l.fail == vOne(kind == 3) && (kind != 3 || l.why == why) && !l.late)
		vEnsures("an item reaches the handler", early || !subscribed || l.next == vOne(kind == 2 && next) && (l.next == 0 || vEq(l.data, data) && vEq(l.md, md)))
	}
	if fails {
		vEnsures("the answer is the error", asked == 0 && cancelled == 0)
		return
	}
	switch kind {
	case 0:
		vEnsures("demand reaches the answer", asked == int(first)+int(n) && cancelled == 0)
	case 1:
		vEnsures("cancellation reaches the answer", cancelled == 1 && (asked == int(first) || early && asked == 0))
	default:
		vEnsures("the answer is asked for", asked == int(first) && cancelled == 0)
	}
	_, ok := h.getStream(id)
	vEnsures("registered until it ends", ok == (kind == 0 || kind == 2))
}
