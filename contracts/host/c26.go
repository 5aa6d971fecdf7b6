//verif:pkg transport/wasmrs/host
package host

import (
	"context"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

func vOpID(md []byte) uint32 {
	return uint32(md[0])<<24 | uint32(md[1])<<16 | uint32(md[2])<<8 | uint32(md[3])
}

// Any request for a single answer that arrives while n others run.
//
//verif:prop C26
func H_Response(n, id uint32, data, md []byte, fails, again, later, closing bool) {
	vRequires(id < 1<<31 && len(md) < 1<<24 && len(data) < 1<<24 && n < 1<<31)
	i := vNew(&vGuest{})
	i.activeRequests.Store(int64(n))
	i.closing.Store(closing)
	ran := 0
	var sink mono.Sink[payload.Payload]
	give := func() {
		if fails {
			sink.Error(vErr)
		} else {
			sink.Success(vPayload(nil, nil))
		}
		if again {
			sink.Success(vPayload(nil, nil))
			sink.Error(vErr)
		}
	}
	i.SetRequestResponseHandler(0, func(context.Context, payload.Payload) mono.Mono[payload.Payload] {
		ran++
		return mono.Create(func(s mono.Sink[payload.Payload]) {
			sink = s
			if !later {
				give()
			}
		})
	})
	i.recvOne(vEnc(&frames.RequestPayload{FrameType: frames.FrameTypeRequestResponse, StreamID: id, Data: data, Metadata: md}))
	vEnsures("counted when it starts", i.activeRequests.Load() == int64(n)+1)
	vRunGo()
	if ran > 0 && later {
		vEnsures("counted while it runs", i.activeRequests.Load() == int64(n)+1 && !vClosed(i))
		give()
	}
	vEnsures("counted no more when it ends", i.activeRequests.Load() == int64(n))
	vEnsures("closing goes on when the last ends", vClosed(i) == (closing && n == 0))
}

// Any request that has no answer.
//
//verif:prop C26
func H_FireAndForget(n, id uint32, data, md []byte, closing bool) {
	vRequires(id < 1<<31 && len(md) < 1<<24 && len(data) < 1<<24 && n < 1<<31)
	i := vNew(&vGuest{})
	i.activeRequests.Store(int64(n))
	i.closing.Store(closing)
	i.SetFireAndForgetHandler(0, func(context.Context, payload.Payload) {
		vEnsures("counted while it runs", i.activeRequests.Load() == int64(n)+1 && !vClosed(i))
	})
	i.recvOne(vEnc(&frames.RequestPayload{FrameType: frames.FrameTypeRequestFNF, StreamID: id, Data: data, Metadata: md}))
	vEnsures("counted when it starts", i.activeRequests.Load() == int64(n)+1)
	vRunGo()
	vEnsures("counted no more when it ends", i.activeRequests.Load() == int64(n))
	vEnsures("closing goes on when the last ends", vClosed(i) == (closing && n == 0))
}

// Any request for a stream of answers, which ends by an error or completion or is
// cancelled, early or after an item, possibly twice.
//
//verif:prop C26
func H_Stream(n, id, first uint32, data, md []byte, end, again int, early, item, channel, known, closing bool) {
	vRequires(id < 1<<31 && len(md) < 1<<24 && len(data) < 1<<24 && n < 1<<31 && first > 0 && first <= rx.RequestMax)
	vRequires(end >= 1 && end <= 3 && again >= 0 && again <= 3)
	i := vNew(&vGuest{})
	i.activeRequests.Store(int64(n))
	i.closing.Store(closing)
	ran := 0
	var sink flux.Sink[payload.Payload]
	var in flux.Flux[payload.Payload]
	source := flux.Create(func(s flux.Sink[payload.Payload]) {
		sink = s
		s.OnSubscribe(flux.OnSubscribe{Request: func(n int) {}})
	})
	if known {
		source = flux.Error[payload.Payload](vErr)
	}
	i.SetRequestStreamHandler(0, func(context.Context, payload.Payload) flux.Flux[payload.Payload] {
		ran++
		return source
	})
	i.SetRequestChannelHandler(0, func(_ context.Context, _ payload.Payload, x flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		ran++
		in = x
		in.Subscribe(flux.Subscribe[payload.Payload]{})
		return source
	})
	kind := frames.FrameTypeRequestStream
	if channel {
		kind = frames.FrameTypeRequestChannel
	}
	i.recvOne(vEnc(&frames.RequestPayload{FrameType: kind, StreamID: id, Data: data, Metadata: md, InitialN: first}))
	vEnsures("counted when it starts", i.activeRequests.Load() == int64(n)+1)
	if early && end == 3 {
		i.recvOne(vEnc(&frames.Cancel{StreamID: id}))
	}
	vRunGo()
	if ran > 0 && !known {
		if early && end == 3 {
			vEnsures("counted no more when it is cancelled", i.activeRequests.Load() == int64(n))
		} else {
			vEnsures("counted while it runs", i.activeRequests.Load() == int64(n)+1 && !vClosed(i))
			if item {
				sink.Next(vPayload(nil, nil))
			}
			vEnd(i, id, sink, end)
		}
		vEnd(i, id, sink, again)
	}
	if in != nil {
		in.Subscription().Cancel()
		vRunGo()
	}
	vEnsures("counted no more when it ends", i.activeRequests.Load() == int64(n))
	vEnsures("closing goes on when the last ends", vClosed(i) == (closing && n == 0))
}

func vEnd(i *Instance, id uint32, sink flux.Sink[payload.Payload], op int) {
	switch op {
	case 1:
		sink.Complete()
	case 2:
		sink.Error(vErr)
	case 3:
		i.recvOne(vEnc(&frames.Cancel{StreamID: id}))
	}
	vRunGo()
}

func vClosed(i *Instance) bool {
	select {
	case <-i.closed:
		return true
	default:
		return false
	}
}

// Closing an instance without running requests.
//
//verif:prop C26
func H_Close(more bool) {
	i := vNew(&vGuest{})
	if more {
		i.closing.Store(true)
		i.activeRequests.Store(1)
		i.reduceActiveRequests()
		vEnsures("the last request to end lets it go on", vClosed(i))
		i.activeRequests.Store(1)
	}
	vEnsures("returns", i.Close() == nil && i.Close() == nil)
	vEnsures("takes no more requests", i.closing.Load())
	// Requests that come late do no harm.
	i.activeRequests.Add(1)
	i.reduceActiveRequests()
}
