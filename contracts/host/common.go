//verif:pkg transport/wasmrs/host
//verif:common
package host

import (
	"context"
	"errors"

	"github.com/tetratelabs/wazero/api"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/socket"
	"github.com/nanobus/iota/go/payload"
)

var vErr = errors.New("failure")

// vGuest is a guest: its memory, and what it is called with.
type vGuest struct {
	api.Module
	mem   vMemory
	n     uint32 // the argument of the last call
	calls int
	last  string // what was in the memory then
	each  func(k int)
}

type vMemory struct {
	api.Memory
	b []byte
}

func (m *vMemory) Read(offset, n uint32) ([]byte, bool) {
	if uint64(offset)+uint64(n) > uint64(len(m.b)) {
		return nil, false
	}
	return m.b[offset : offset+n : offset+n], true
}

func (g *vGuest) Memory() api.Memory { return &g.mem }

// vSend is the guest's function that takes the frames sent to it.
type vSend struct {
	api.Function
	g *vGuest
}

func (s *vSend) Call(_ context.Context, p ...uint64) ([]uint64, error) {
	s.g.calls++
	s.g.n = uint32(p[0])
	s.g.last = vSnap(s.g.mem.b)
	if s.g.each != nil {
		s.g.each(s.g.calls)
	}
	return nil, nil
}

func vNew(g *vGuest) *Instance {
	return &Instance{
		ctx:                context.Background(),
		m:                  g,
		sendCh:             make(chan frames.Frame, 100),
		recvCh:             make(chan []byte, 100),
		sendFn:             &vSend{g: g},
		maxFrameSize:       1024 * 1024,
		fragmentedPayloads: make(map[uint32]fragmentedPayload),
		sendSize:           16 * 1024,
		closed:             make(chan struct{}),
	}
}

// vWire takes the frames that are to be sent.
type vWire struct {
	i    *Instance
	f    [8]frames.Frame
	n    int
	hook func(frames.Frame)
}

func (w *vWire) count() int {
	for len(w.i.sendCh) > 0 {
		f := <-w.i.sendCh
		if w.hook != nil {
			w.hook(f)
		}
		w.f[w.n] = f
		w.n++
	}
	return w.n
}

func (w *vWire) at(k int) frames.Frame {
	w.count()
	return w.f[k]
}

// vPeer is an instance whose guest is in the hands of the contract.
type vPeer struct {
	*Instance
	w *vWire
}

func vPeerOf(w *vWire) *vPeer {
	w.i = vNew(&vGuest{})
	return &vPeer{Instance: w.i, w: w}
}

func (h *vPeer) HandleFrame(f frames.Frame) error {
	h.recvOne(vEnc(f))
	return nil
}

func (h *vPeer) onSend(hook func(frames.Frame)) { h.w.hook = hook }

func (h *vPeer) setIDs(v uint64) { h.streamIDs = socket.ServerStreamIDs(v) }

// vSmall: together they fit the buffers.
func vSmall(bs ...[]byte) bool {
	n := 0
	for _, b := range bs {
		n += len(b)
	}
	return n < 8000
}

// vRequest: the frame is a request of this kind with this content.
func vRequest(f frames.Frame, kind frames.FrameType, id uint32, data, md []byte, n uint32) bool {
	r, ok := f.(*frames.RequestPayload)
	return ok && r.FrameType == kind && r.StreamID == id && (r.InitialN == n || kind <= frames.FrameTypeRequestFNF) && !r.Follows && vEq(r.Data, data) && vEq(r.Metadata, md)
}

func vRequestN(f frames.Frame, id, n uint32) bool {
	r, ok := f.(*frames.RequestN)
	return ok && r.StreamID == id && r.N == n
}

func vCancelled(f frames.Frame, id uint32) bool {
	r, ok := f.(*frames.Cancel)
	return ok && r.StreamID == id
}

func vEnc(f frames.Frame) []byte {
	b := make([]byte, f.Size())
	f.Encode(b)
	return b
}

func vOne(b bool) int {
	if b {
		return 1
	}
	return 0
}

func vPayload(data, md []byte) payload.Payload { return payload.New(data, md) }

func vFailed(f frames.Frame, id uint32, why string) bool {
	r, ok := f.(*frames.Error)
	return ok && r.StreamID == id && r.Data == why
}

func vItem(f frames.Frame, id uint32, data, md []byte, last bool) bool {
	r, ok := f.(*frames.Payload)
	return ok && r.StreamID == id && r.Next && r.Complete == last && !r.Follows && vEq(r.Data, data) && vEq(r.Metadata, md)
}

func vComplete(f frames.Frame, id uint32) bool {
	r, ok := f.(*frames.Payload)
	return ok && r.StreamID == id && !r.Next && r.Complete && len(r.Data) == 0 && len(r.Metadata) == 0
}

// vStream is a registered stream that keeps what reaches it.
type vStream struct {
	id                          uint32
	next, comp, fail, ask, stop int
	asked                       int
	late, order                 bool
	data, md                    []byte
	why                         string
}

type vCalls struct{ next, comp, fail, ask, stop int }

func (s *vStream) calls() vCalls { return vCalls{s.next, s.comp, s.fail, s.ask, s.stop} }

func (s *vStream) Context() context.Context { return nil }
func (s *vStream) StreamID() uint32         { return s.id }
func (s *vStream) OnNext(p payload.Payload) {
	s.late = s.late || s.comp > 0
	s.next++
	s.data, s.md = p.Data(), p.Metadata()
}
func (s *vStream) OnComplete() { s.comp++ }
func (s *vStream) OnError(err error) {
	s.late = s.late || s.comp > 0
	s.fail++
	s.why = err.Error()
}

// vAsked can be asked for items as well.
type vAsked struct{ vStream }

func (s *vAsked) DoRequest(n int) { s.ask++; s.asked = n }
