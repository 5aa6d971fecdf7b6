//verif:pkg handler
//verif:common
package handler

import (
	"context"
	"errors"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/payload"
)

var vErr = errors.New("failure")

// vWire keeps the frames that were sent.
type vWire struct {
	f [8]frames.Frame
	n int
}

func (w *vWire) send(f frames.Frame) error {
	w.f[w.n] = f
	w.n++
	return nil
}

func vNew(w *vWire, mode int) *Handler {
	h := New(context.Background(), Mode(mode))
	h.SetFrameSender(w.send)
	return h
}

// vRequest: the frame is a request of this kind with this content.
func vRequest(f frames.Frame, kind frames.FrameType, id uint32, data, md []byte, n uint32) bool {
	r, ok := f.(*frames.RequestPayload)
	return ok && r.FrameType == kind && r.StreamID == id && r.InitialN == n && !r.Follows && vEq(r.Data, data) && vEq(r.Metadata, md)
}

func vRequestN(f frames.Frame, id, n uint32) bool {
	r, ok := f.(*frames.RequestN)
	return ok && r.StreamID == id && r.N == n
}

func vCancelled(f frames.Frame, id uint32) bool {
	r, ok := f.(*frames.Cancel)
	return ok && r.StreamID == id
}

func vFailed(f frames.Frame, id uint32, why string) bool {
	r, ok := f.(*frames.Error)
	return ok && r.StreamID == id && r.Data == why
}

// vItem: the frame carries an item (and perhaps ends the stream).
func vItem(f frames.Frame, id uint32, data, md []byte, last bool) bool {
	r, ok := f.(*frames.Payload)
	return ok && r.StreamID == id && r.Next && r.Complete == last && !r.Follows && vEq(r.Data, data) && vEq(r.Metadata, md)
}

func vComplete(f frames.Frame, id uint32) bool {
	r, ok := f.(*frames.Payload)
	return ok && r.StreamID == id && !r.Next && r.Complete && len(r.Data) == 0 && len(r.Metadata) == 0
}

func vOne(b bool) int {
	if b {
		return 1
	}
	return 0
}

func vPayload(data, md []byte) payload.Payload { return payload.New(data, md) }
