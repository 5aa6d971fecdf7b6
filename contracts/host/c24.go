//verif:pkg transport/wasmrs/host
package host

import (
	"context"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

func vFresh(mode int, a, b uint32) bool { return a != b && int(a&1) == 1-mode && int(b&1) == 1-mode }

//verif:prop C24
func H_RequestResponse(mode int, ids uint32, data, md []byte) {
	vRequires(vSmall(data, md))
	vRequires(mode == 1 && ids <= 0x3fffff00)
	w := &vWire{}
	h := vPeerOf(w)
	h.setIDs(uint64(ids))
	m := h.RequestResponse(context.Background(), vPayload(data, md))
	vEnsures("nothing is sent before it is subscribed to", w.count() == 0)
	var before bool
	h.onSend(func(f frames.Frame) {
		_, before = h.getStream(f.GetStreamID())
	})
	m.Subscribe(mono.Subscribe[payload.Payload]{})
	vRunGo()
	vEnsures("one frame", w.count() == 1)
	id := w.at(0).GetStreamID()
	vEnsures("the request", vRequest(w.at(0), frames.FrameTypeRequestResponse, id, data, md, 1))
	vEnsures("the answer can come as soon as it is sent", before)
	m.Async()
	vEnsures("subscribed already", w.count() == 1)
	h.RequestResponse(context.Background(), vPayload(data, md)).Async()
	vEnsures("another frame", w.count() == 2)
	vEnsures("another stream", vFresh(mode, id, w.at(1).GetStreamID()))
}

//verif:prop C24
func H_FireAndForget(mode int, ids uint32, data, md []byte) {
	vRequires(vSmall(data, md))
	vRequires(mode == 1 && ids <= 0x3fffff00)
	w := &vWire{}
	h := vPeerOf(w)
	h.setIDs(uint64(ids))
	h.FireAndForget(context.Background(), vPayload(data, md))
	vEnsures("one frame", w.count() == 1)
	id := w.at(0).GetStreamID()
	r, ok := w.at(0).(*frames.RequestPayload)
	vEnsures("the request", ok && vRequest(w.at(0), frames.FrameTypeRequestFNF, id, data, md, r.InitialN))
	h.FireAndForget(context.Background(), vPayload(data, md))
	vEnsures("another stream", w.count() == 2 && vFresh(mode, id, w.at(1).GetStreamID()))
}

// A requested stream in any state: not yet requested, open, or over, given demand,
// cancelled, or ended by its peer.
//
//verif:prop C24
func H_RequestStream(mode int, ids uint32, data, md []byte, n, m, end int, dflt, channel bool) {
	vRequires(vSmall(data, md))
	vRequires(mode == 1 && ids <= 0x3fffff00)
	vRequires(n > 0 && n <= rx.RequestMax && m > 0 && m <= rx.RequestMax && end >= 0 && end <= 4)
	w := &vWire{}
	h := vPeerOf(w)
	h.setIDs(uint64(ids))
	kind := frames.FrameTypeRequestStream
	var f flux.Flux[payload.Payload]
	if channel {
		kind = frames.FrameTypeRequestChannel
		f = h.RequestChannel(context.Background(), vPayload(data, md), flux.Create(func(flux.Sink[payload.Payload]) {}))
	} else {
		f = h.RequestStream(context.Background(), vPayload(data, md))
	}
	vEnsures("nothing is sent before it is subscribed to", w.count() == 0)
	var before bool
	h.onSend(func(f frames.Frame) {
		_, before = h.getStream(f.GetStreamID())
	})
	sub := flux.Subscribe[payload.Payload]{}
	var s rx.Subscription
	if !dflt {
		sub.OnRequest = func(x rx.Subscription) { s = x }
	}
	f.Subscribe(sub)
	vRunGo()
	if dflt {
		s = f.Subscription()
		n = rx.RequestMax
	} else {
		vEnsures("nothing is sent before something is asked for", w.count() == 0)
		if end == 4 {
			s.Cancel()
			vRunGo()
			s.Request(n)
			vRunGo()
			vEnsures("nothing is sent after cancelling", w.count() == 0)
			return
		}
		s.Request(n)
		vRunGo()
	}
	vEnsures("one frame", w.count() == 1)
	id := w.at(0).GetStreamID()
	vEnsures("the request, with the demand asked for", vRequest(w.at(0), kind, id, data, md, uint32(n)))
	vEnsures("the answer can come as soon as it is sent", before)
	s.Request(m)
	vRunGo()
	vEnsures("further demand", w.count() == 2 && vRequestN(w.at(1), id, uint32(m)))
	switch end {
	case 0:
		h.HandleFrame(&frames.Payload{StreamID: id, Complete: true})
		vRunGo()
		vEnsures("nothing is sent", w.count() == 2)
	case 1:
		h.HandleFrame(&frames.Error{StreamID: id, Data: "failed"})
		vRunGo()
		vEnsures("nothing is sent", w.count() == 2)
	case 2:
		s.Cancel()
		vRunGo()
		vEnsures("cancellation", w.count() == 3 && vCancelled(w.at(2), id))
	default:
		h.RequestStream(context.Background(), vPayload(data, md)).Subscribe(flux.Subscribe[payload.Payload]{})
		vRunGo()
		vEnsures("another stream", w.count() == 3 && vFresh(mode, id, w.at(2).GetStreamID()))
		return
	}
	was := w.count()
	s.Request(m)
	vRunGo()
	s.Cancel()
	vRunGo()
	vEnsures("nothing is sent once it is over", w.count() == was)
}

// The input of a channel is sent on its stream as its peer asks for it.
//
//verif:prop C24
func H_ChannelInput(mode int, ids uint32, data, md []byte, n, m int, early bool, op int) {
	vRequires(vSmall(data, md))
	vRequires(mode == 1 && !early && ids <= 0x3fffff00)
	vRequires(n > 0 && n <= rx.RequestMax && m > 0 && m <= rx.RequestMax && op >= 0 && op <= 3)
	w := &vWire{}
	h := vPeerOf(w)
	h.setIDs(uint64(ids))
	asked, cancelled := 0, 0
	var sink flux.Sink[payload.Payload]
	in := flux.Create(func(s flux.Sink[payload.Payload]) {
		sink = s
		s.OnSubscribe(flux.OnSubscribe{Request: func(n int) { asked += n }, Cancel: func() { cancelled++ }})
	})
	f := h.RequestChannel(context.Background(), vPayload(nil, nil), in)
	h.onSend(func(f frames.Frame) {
		if early {
			early = false
			vEnsures("no panic", h.HandleFrame(&frames.RequestN{StreamID: f.GetStreamID(), N: uint32(m)}) == nil)
		}
	})
	wasEarly := early
	f.Subscribe(flux.Subscribe[payload.Payload]{})
	vRunGo()
	vEnsures("the request", w.count() == 1 && sink != nil)
	id := w.at(0).GetStreamID()
	base := 0
	if wasEarly {
		base = m
	}
	vEnsures("the input waits for its peer", asked == base)
	h.HandleFrame(&frames.RequestN{StreamID: id, N: uint32(n)})
	vRunGo()
	vEnsures("demand reaches the input", asked == base+n && w.count() == 1)
	switch op {
	case 0:
		sink.Next(vPayload(data, md))
		vEnsures("an item", w.count() == 2 && vItem(w.at(1), id, data, md, false))
		sink.Complete()
		vEnsures("completion", w.count() == 3 && vComplete(w.at(2), id))
	case 1:
		sink.Error(vErr)
		vEnsures("the error", w.count() == 2 && vFailed(w.at(1), id, "failure"))
	case 2:
		h.HandleFrame(&frames.Cancel{StreamID: id})
		vRunGo()
		vEnsures("the input is cancelled", cancelled == 1 && w.count() == 1)
		_, ok := h.getStream(id)
		vEnsures("the answer goes on", ok)
	}
}
