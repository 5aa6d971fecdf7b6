//verif:pkg transport/wasmrs/guest
//verif:common
package guest

import (
	"context"
	"errors"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/socket"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
)

var vErr = errors.New("failure")

// vWire takes the frames that are sent.
type vWire struct {
	f    [8]frames.Frame
	n    int
	hook func(frames.Frame)
}

func (w *vWire) count() int { return w.n }

func (w *vWire) at(k int) frames.Frame { return w.f[k] }

func (w *vWire) take(n uint32) {
	k := int(hostBuffer[0])<<16 | int(hostBuffer[1])<<8 | int(hostBuffer[2])
	vEnsures("the length of the frame comes first", int(n) == 3+k && k >= frames.FrameHeaderLen)
	f := vDecode(hostBuffer[3:n])
	if w.hook != nil {
		w.hook(f)
	}
	w.f[w.n] = f
	w.n++
}

func vDecode(b []byte) frames.Frame {
	h := frames.ParseFrameHeader(b)
	b = b[frames.FrameHeaderLen:]
	var err error
	var f frames.Frame
	switch h.Type() {
	case frames.FrameTypeRequestN:
		x := &frames.RequestN{}
		err, f = x.Decode(&h, b), x
	case frames.FrameTypeCancel:
		x := &frames.Cancel{}
		err, f = x.Decode(&h, b), x
	case frames.FrameTypePayload:
		x := &frames.Payload{}
		err, f = x.Decode(&h, b), x
	case frames.FrameTypeError:
		x := &frames.Error{}
		err, f = x.Decode(&h, b), x
	default:
		x := &frames.RequestPayload{}
		err, f = x.Decode(&h, b), x
	}
	vEnsures("a frame is sent", err == nil)
	return f
}

// vPeer is a guest whose host is in the hands of the contract.
type vPeer struct {
	*Caller
	w *vWire
}

func vPeerOf(w *vWire) *vPeer {
	guestStreams, hostStreams = proxy.Lookup{}, proxy.Lookup{}
	fragmentedPayloads = make(map[uint32]fragmentedPayload)
	hostBuffer = make([]byte, 16*1024)
	vHost = w.take
	return &vPeer{Caller: &Caller{}, w: w}
}

func (h *vPeer) HandleFrame(f frames.Frame) error {
	e := vEnc(f)
	guestBuffer = make([]byte, 3+len(e))
	guestBuffer[0], guestBuffer[1], guestBuffer[2] = byte(len(e)>>16), byte(len(e)>>8), byte(len(e))
	copy(guestBuffer[3:], e)
	GuestSend(uint32(len(guestBuffer)))
	return nil
}

func (h *vPeer) registerStream(s proxy.Stream) { registerStream(s) }

func (h *vPeer) getStream(id uint32) (proxy.Stream, bool) { return getStream(id) }

func (h *vPeer) onSend(hook func(frames.Frame)) { h.w.hook = hook }

func (h *vPeer) setIDs(v uint64) { h.streamIDs = socket.ClientStreamIDs(v) }

// vSmall: together they fit the buffers.
func vSmall(bs ...[]byte) bool {
	n := 0
	for _, b := range bs {
		n += len(b)
	}
	return n < 8000
}

// vRequest: the frame is a request of this kind with this content.
func vRequest(f frames.Frame, kind frames.FrameType, id uint32, data, md []byte, n uint32) bool {
	r, ok := f.(*frames.RequestPayload)
	return ok && r.FrameType == kind && r.StreamID == id && (r.InitialN == n || kind <= frames.FrameTypeRequestFNF) && !r.Follows && vEq(r.Data, data) && vEq(r.Metadata, md)
}

func vRequestN(f frames.Frame, id, n uint32) bool {
	r, ok := f.(*frames.RequestN)
	return ok && r.StreamID == id && r.N == n
}

func vCancelled(f frames.Frame, id uint32) bool {
	r, ok := f.(*frames.Cancel)
	return ok && r.StreamID == id
}

func vEnc(f frames.Frame) []byte {
	b := make([]byte, f.Size())
	f.Encode(b)
	return b
}

func vOne(b bool) int {
	if b {
		return 1
	}
	return 0
}

func vPayload(data, md []byte) payload.Payload { return payload.New(data, md) }

func vFailed(f frames.Frame, id uint32, why string) bool {
	r, ok := f.(*frames.Error)
	return ok && r.StreamID == id && r.Data == why
}

func vItem(f frames.Frame, id uint32, data, md []byte, last bool) bool {
	r, ok := f.(*frames.Payload)
	return ok && r.StreamID == id && r.Next && r.Complete == last && !r.Follows && vEq(r.Data, data) && vEq(r.Metadata, md)
}

func vComplete(f frames.Frame, id uint32) bool {
	r, ok := f.(*frames.Payload)
	return ok && r.StreamID == id && !r.Next && r.Complete && len(r.Data) == 0 && len(r.Metadata) == 0
}

// vStream is a registered stream that keeps what reaches it.
type vStream struct {
	id                          uint32
	next, comp, fail, ask, stop int
	asked                       int
	late, order                 bool
	data, md                    []byte
	why                         string
}

type vCalls struct{ next, comp, fail, ask, stop int }

func (s *vStream) calls() vCalls { return vCalls{s.next, s.comp, s.fail, s.ask, s.stop} }

func (s *vStream) Context() context.Context { return nil }
func (s *vStream) StreamID() uint32         { return s.id }
func (s *vStream) OnNext(p payload.Payload) {
	s.late = s.late || s.comp > 0
	s.next++
	s.data, s.md = p.Data(), p.Metadata()
}
func (s *vStream) OnComplete() { s.comp++ }
func (s *vStream) OnError(err error) {
	s.late = s.late || s.comp > 0
	s.fail++
	s.why = err.Error()
}

// vAsked can be asked for items as well.
type vAsked struct{ vStream }

func (s *vAsked) DoRequest(n int) { s.ask++; s.asked = n }
