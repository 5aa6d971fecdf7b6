//verif:pkg transport/wasmrs/guest
package guest

import (
	"context"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

func vOpID(md []byte) uint32 {
	return uint32(md[0])<<24 | uint32(md[1])<<16 | uint32(md[2])<<8 | uint32(md[3])
}

// Any request for a single answer. Two operations are known; the answer is given at
// once or later, and possibly twice.
//
//verif:prop C25
func H_Response(id uint32, data, md, out, outMD []byte, fails, again, later bool) {
	vRequires(id < 1<<31 && vSmall(data, md, out, outMD))
	w := &vWire{}
	h := vPeerOf(w)
	ran, op := 0, -1
	var in payload.Payload
	var sink mono.Sink[payload.Payload]
	give := func(s mono.Sink[payload.Payload]) {
		if fails {
			s.Error(vErr)
		} else {
			s.Success(vPayload(out, outMD))
		}
		if again {
			s.Success(vPayload(out, outMD))
			s.Error(vErr)
		}
	}
	handle := func(i int) invoke.RequestResponseHandler {
		return func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
			ran++
			op, in = i, p
			return mono.Create(func(s mono.Sink[payload.Payload]) {
				sink = s
				if !later {
					give(s)
				}
			})
		}
	}
	invoke.ExportRequestResponse("ns", "a", handle(0))
	invoke.ExportRequestResponse("ns", "b", handle(1))
	err := h.HandleFrame(&frames.RequestPayload{FrameType: frames.FrameTypeRequestResponse, StreamID: id, Data: data, Metadata: md, InitialN: 1})
	vRunGo()
	vEnsures("accepted", err == nil)
	if len(md) < 8 {
		vEnsures("malformed metadata is answered with an error", w.count() == 1 && vFailed(w.at(0), id, "Invalid metadata") && ran == 0)
		return
	}
	k := vOpID(md)
	if k > 1 {
		vEnsures("an unknown operation is answered with an error", w.count() == 1 && vFailed(w.at(0), id, "not_found") && ran == 0)
		return
	}
	vEnsures("the operation runs once, with the request", ran == 1 && op == int(k) && vEq(in.Data(), data))
	vEnsures("and its metadata", vOr(vEq(in.Metadata(), md), vEq(in.Metadata(), md[8:])))
	if later {
		vEnsures("no answer yet", w.count() == 0)
		give(sink)
	}
	vEnsures("one frame", w.count() == 1)
	if fails {
		vEnsures("the error", vFailed(w.at(0), id, "failure"))
	} else {
		vEnsures("the answer, and it is the last", vItem(w.at(0), id, out, outMD, true))
	}
}

//verif:prop C25
func H_FireAndForget(id uint32, data, md []byte) {
	vRequires(id < 1<<31 && vSmall(data, md))
	w := &vWire{}
	h := vPeerOf(w)
	ran, op := 0, -1
	var in payload.Payload
	handle := func(i int) invoke.FireAndForgetHandler {
		return func(_ context.Context, p payload.Payload) { ran++; op, in = i, p }
	}
	invoke.ExportFireAndForget("ns", "a", handle(0))
	invoke.ExportFireAndForget("ns", "b", handle(1))
	err := h.HandleFrame(&frames.RequestPayload{FrameType: frames.FrameTypeRequestFNF, StreamID: id, Data: data, Metadata: md, InitialN: 1})
	vRunGo()
	vEnsures("accepted", err == nil)
	if len(md) < 8 || vOpID(md) > 1 {
		vEnsures("nothing runs", ran == 0 && (w.count() == 0 || w.count() == 1 && w.at(0).GetStreamID() == id))
		return
	}
	vEnsures("the operation runs once, with the request", ran == 1 && op == int(vOpID(md)) && vEq(in.Data(), data))
	vEnsures("and its metadata", vOr(vEq(in.Metadata(), md), vEq(in.Metadata(), md[8:])))
	vEnsures("without an answer", w.count() == 0)
}

// Any request for a stream of answers: some items, then an end, then more signals.
//
//verif:prop C25
func H_Stream(id uint32, data, md, out, outMD []byte, first, end, again int, item, channel, known bool) {
	vRequires(id < 1<<31 && vSmall(data, md, out, outMD))
	vRequires(first > 0 && first <= rx.RequestMax && end >= 1 && end <= 2 && again >= 0 && again <= 2)
	w := &vWire{}
	h := vPeerOf(w)
	ran, op, asked := 0, -1, 0
	var in payload.Payload
	var sink flux.Sink[payload.Payload]
	source := flux.Create(func(s flux.Sink[payload.Payload]) {
		sink = s
		s.OnSubscribe(flux.OnSubscribe{Request: func(n int) { asked += n }})
	})
	if known {
		// the answer is known to be an error
		source = flux.Error[payload.Payload](vErr)
	}
	serve := func(i int) func(p payload.Payload) flux.Flux[payload.Payload] {
		return func(p payload.Payload) flux.Flux[payload.Payload] {
			ran++
			op, in = i, p
			return source
		}
	}
	for i := 0; i < 2; i++ {
		s := serve(i)
		invoke.ExportRequestStream("ns", "op", func(_ context.Context, p payload.Payload) flux.Flux[payload.Payload] { return s(p) })
		invoke.ExportRequestChannel("ns", "op", func(_ context.Context, p payload.Payload, _ flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			return s(p)
		})
	}
	kind := frames.FrameTypeRequestStream
	if channel {
		kind = frames.FrameTypeRequestChannel
	}
	err := h.HandleFrame(&frames.RequestPayload{FrameType: kind, StreamID: id, Data: data, Metadata: md, InitialN: uint32(first)})
	vRunGo()
	vEnsures("accepted", err == nil)
	if len(md) < 8 {
		vEnsures("malformed metadata is answered with an error", w.count() == 1 && vFailed(w.at(0), id, "Invalid metadata") && ran == 0)
		_, ok := h.getStream(id)
		vEnsures("and forgotten", !ok)
		return
	}
	k := vOpID(md)
	if k > 1 {
		vEnsures("an unknown operation is answered with an error", w.count() == 1 && vFailed(w.at(0), id, "not_found") && ran == 0)
		_, ok := h.getStream(id)
		vEnsures("and forgotten", !ok)
		return
	}
	vEnsures("the operation runs once, with the request", ran == 1 && op == int(k) && vEq(in.Data(), data))
	vEnsures("and its metadata", vOr(vEq(in.Metadata(), md), vEq(in.Metadata(), md[8:])))
	if known {
		vEnsures("the error", w.count() == 1 && vFailed(w.at(0), id, "failure"))
		return
	}
	vEnsures("asked for as much as the request asks for", asked == first && w.count() == 0)
	if item {
		sink.Next(vPayload(out, outMD))
		vEnsures("the item", w.count() == 1 && vItem(w.at(0), id, out, outMD, false))
	}
	vSignal(sink, end)
	vEnsures("one more frame, the end", w.count() == vOne(item)+1 && (end == 1 && vComplete(w.at(vOne(item)), id) || end == 2 && vFailed(w.at(vOne(item)), id, "failure")))
	vSignal(sink, again)
	vRunGo()
	vEnsures("nothing after the end", w.count() == vOne(item)+1)
	_, ok := h.getStream(id)
	vEnsures("forgotten when it ends", channel || !ok)
}

func vSignal(sink flux.Sink[payload.Payload], op int) {
	switch op {
	case 0:
		sink.Next(vPayload(nil, nil))
	case 1:
		sink.Complete()
	case 2:
		sink.Error(vErr)
	}
}
