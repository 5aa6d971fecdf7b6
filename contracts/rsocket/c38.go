//verif:pkg transport/rsocket
package rsocket

import (
	"context"
	"errors"
	"io"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
)

var vFailure = errors.New("failure")

// vWire is a connection on which some frames arrive and then an error.
type vWire struct {
	in      []frames.Frame
	end     error
	closed  int
	out     []frames.Frame
	flushed int // frames written before the last flush
	fail    error
	t       *Transport
	server  bool
	reads   int
	after   int // reads after the end
}

func (w *vWire) Read() (frames.Frame, error) {
	if w.t != nil && (w.reads > 0 || !w.server) {
		w.t.WaitUntilReady() // does not wait
	}
	w.reads++
	if len(w.in) == 0 {
		w.after++
		vEnsures("a connection that ended or failed is not read for ever", w.after < 3)
		return nil, w.end
	}
	f := w.in[0]
	w.in = w.in[1:]
	return f, nil
}
func (w *vWire) Write(f frames.Frame) error {
	if w.fail != nil {
		return w.fail
	}
	w.out = append(w.out, f)
	return nil
}
func (w *vWire) Flush() error {
	w.flushed = len(w.out)
	return nil
}
func (w *vWire) SetDeadline(time.Time) error { return nil }
func (w *vWire) Close() error {
	w.closed++
	return nil
}

// vHandler records what it is given; it refuses the frame at bad.
type vHandler struct {
	got  [4]frames.Frame
	n    int
	bad  int
	late bool
	w    *vWire
	send FrameHandler
}

func (h *vHandler) SetFrameSender(send FrameHandler) { h.send = send }
func (h *vHandler) HandleFrame(f frames.Frame) error {
	if h.w.closed > 0 {
		h.late = true
	}
	if h.n < len(h.got) {
		h.got[h.n] = f
	}
	h.n++
	if h.n-1 == h.bad {
		return vFailure
	}
	return nil
}

func vFrames(n int, setup bool) []frames.Frame {
	fs := []frames.Frame{&frames.Payload{StreamID: 1}, &frames.RequestN{StreamID: 1}, &frames.Cancel{StreamID: 3}}
	if setup {
		fs[0] = &frames.Setup{}
	}
	return fs[:n]
}

// Every frame that arrives is handled once, in the order of arrival; then the connection is closed.
//
//verif:prop C38
//verif:bounded up to three frames, handled when the reader waits or has ended
//verif:unroll 6
func H_Start(n int, server, setup, ends bool) {
	vRequires(n >= 0 && n <= 3)
	w := &vWire{in: vFrames(n, setup), end: vFailure}
	if ends {
		w.end = io.EOF
	}
	fs := w.in
	h := &vHandler{bad: -1, w: w}
	t := NewTransport(w, h, server)
	w.t, w.server = t, server
	err := t.Start(context.Background())
	vRunGo()
	vEnsures("closed", w.closed == 1)
	if server && n == 0 {
		vEnsures("a server that reads no frame", err != nil && h.n == 0)
		return
	}
	if server && !setup {
		vEnsures("a server's first frame is a setup frame", err != nil && h.n == 0)
		return
	}
	vEnsures("how it ended", err == nil == ends && (err == nil || err == vFailure))
	vEnsures("every frame, once", h.n == n)
	for i, f := range fs {
		vEnsures("in order", h.got[i] == f)
	}
}

// A server whose setup frame is refused does not start.
//
//verif:prop C38
//verif:bounded up to three frames
//verif:unroll 6
func H_RefusedSetup(n int) {
	vRequires(n >= 1 && n <= 3)
	w := &vWire{in: vFrames(n, true), end: io.EOF}
	h := &vHandler{bad: 0, w: w}
	t := NewTransport(w, h, true)
	err := t.Start(context.Background())
	vRunGo()
	vEnsures("refused", err == vFailure && h.n == 1 && w.closed == 1)
}

// A transport whose context is over reads nothing.
//
//verif:prop C38
//verif:bounded up to three frames
//verif:unroll 6
func H_Over(n int, server bool) {
	vRequires(n >= 1 && n <= 3)
	w := &vWire{in: vFrames(n, true), end: io.EOF}
	h := &vHandler{bad: -1, w: w}
	t := NewTransport(w, h, server)
	err := t.Start(vOver{context.Background()})
	vRunGo()
	vEnsures("over", err != nil && h.n == 0 && w.closed == 1)
}

// vOver is a context that is over.
type vOver struct{ context.Context }

func (vOver) Done() <-chan struct{} {
	c := make(chan struct{})
	close(c)
	return c
}
func (vOver) Err() error { return vFailure }

// What is sent is written once, in order, and flushed when asked for.
//
//verif:prop C38
func H_Send(flush1, flush2, fail, none bool) {
	w := &vWire{}
	if fail {
		w.fail = vFailure
	}
	h := &vHandler{bad: -1, w: w}
	t := NewTransport(w, h, false)
	if none {
		t = nil
	}
	a, b := &frames.Cancel{StreamID: 1}, &frames.Cancel{StreamID: 3}
	err1, err2 := t.Send(a, flush1), t.Send(b, flush2)
	if none || fail {
		vEnsures("failure is reported", err1 != nil && err2 != nil && len(w.out) == 0)
		return
	}
	vEnsures("no error", err1 == nil && err2 == nil)
	vEnsures("written in order", len(w.out) == 2 && w.out[0] == a && w.out[1] == b)
	vEnsures("flushed", (!flush2 || w.flushed == 2) && (!flush1 || w.flushed >= 1))
}

// What the handler of a transport sends goes out through the transport at once.
//
//verif:prop C38
func H_HandlerSends(server, fail bool) {
	w := &vWire{}
	if fail {
		w.fail = vFailure
	}
	h := &vHandler{bad: -1, w: w}
	NewTransport(w, h, server)
	vEnsures("the handler can send", h.send != nil)
	a, b := &frames.Cancel{StreamID: 1}, &frames.Cancel{StreamID: 3}
	err1, err2 := h.send(a), h.send(b)
	vEnsures("not to itself", h.n == 0)
	if fail {
		vEnsures("failure is reported", err1 != nil && err2 != nil)
		return
	}
	vEnsures("sent in order", err1 == nil && err2 == nil && len(w.out) == 2 && w.out[0] == a && w.out[1] == b && w.flushed == 2)
}
