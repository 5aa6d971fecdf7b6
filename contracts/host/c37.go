//verif:pkg transport/wasmrs/host
package host

import (
	"github.com/nanobus/iota/go/internal/frames"
)

// vAny is a frame of any kind.
func vAny(kind int, id, n uint32, data, md []byte, a, b, c bool, why string) frames.Frame {
	switch kind {
	case 0:
		return &frames.RequestN{StreamID: id, N: n}
	case 1:
		return &frames.Cancel{StreamID: id}
	case 2:
		return &frames.Payload{StreamID: id, Data: data, Metadata: md, Next: a, Complete: b, Follows: c}
	case 3:
		return &frames.Error{StreamID: id, Data: why}
	}
	return &frames.RequestPayload{FrameType: frames.FrameType(kind), StreamID: id, Data: data, Metadata: md, InitialN: n, Complete: a, Follows: b}
}

// A frame of any kind is written to the guest's buffer and nowhere else.
//
//verif:prop C37
func H_Send(kind int, id, n, ptr uint32, data, md, mem []byte, a, b, c bool, why string, at int) {
	vRequires(kind >= 0 && kind <= 7 && id < 1<<31 && n < 1<<31 && len(md) < 1<<24 && len(data) < 1<<24 && len(why) < 1<<24)
	vRequires(len(mem) < 1<<31)
	g := &vGuest{mem: vMemory{b: mem}}
	i := vNew(g)
	i.setBuffers(ptr, 0)
	f := vAny(kind, id, n, data, md, a, b, c, why)
	enc := vEnc(f)
	fits := len(enc)+3 <= int(i.sendSize)
	was := vSnap(mem)
	err := i.SendFrame(f)
	vEnsures("a frame that fits is accepted, others are refused", (err == nil) == fits)
	close(i.sendCh)
	i.sendLoop()
	p := int(ptr)
	if p+int(i.sendSize) > len(mem) {
		vEnsures("without a buffer nothing is sent", g.calls == 0 && vSnap(mem) == was)
		return
	}
	if fits {
		vEnsures("the guest is told once, with the length", g.calls == 1 && int(g.n) == 3+len(enc))
		vEnsures("the length comes first", int(g.last[p])<<16|int(g.last[p+1])<<8|int(g.last[p+2]) == len(enc))
		vEnsures("then the whole frame", g.last[p+3:p+3+len(enc)] == string(enc))
	} else {
		vEnsures("at most an error is sent instead", g.calls == vOne(kind < 4))
	}
	vRequires(at >= 0 && at < len(mem) && (at < p || at >= p+int(i.sendSize)))
	vEnsures("the memory outside the buffer stays as it is", mem[at] == was[at])
}

// A request that does not fit the buffer is answered with an error.
//
//verif:prop C37
func H_Refused(id, n uint32, kind frames.FrameType, data, md []byte) {
	vRequires(kind >= frames.FrameTypeRequestResponse && kind <= frames.FrameTypeRequestChannel && id < 1<<31 && n < 1<<31)
	vRequires(len(md) < 1<<24 && len(data) < 1<<24 && len(data)+len(md) >= 16*1024)
	w := &vWire{}
	h := vPeerOf(w)
	s := &vStream{id: id}
	h.registerStream(s)
	vEnsures("refused", h.SendFrame(&frames.RequestPayload{FrameType: kind, StreamID: id, Data: data, Metadata: md, InitialN: n}) != nil)
	_, ok := h.getStream(id)
	vEnsures("its requester hears of it", w.count() == 0 && s.fail == 1 && s.next == 0 && !ok)
}

// Frames keep their order.
//
//verif:prop C37
//verif:bounded two frames are sent
func H_SendOrder(k1, k2 int, id1, id2, n uint32, data, md, data2, md2, mem []byte, why string) {
	vRequires(k1 >= 0 && k1 <= 7 && k2 >= 0 && k2 <= 7 && id1 < 1<<31 && id2 < 1<<31 && n < 1<<31)
	vRequires(len(md)+len(data)+len(md2)+len(data2)+len(why) < 16000 && len(mem) >= 16*1024 && len(mem) < 1<<31)
	g := &vGuest{mem: vMemory{b: mem}}
	i := vNew(g)
	f1 := vAny(k1, id1, n, data, md, true, true, false, why)
	f2 := vAny(k2, id2, n, data2, md2, true, true, false, why)
	e1, e2 := vEnc(f1), vEnc(f2)
	vEnsures("accepted", i.SendFrame(f1) == nil && i.SendFrame(f2) == nil)
	g.each = func(k int) {
		e := e1
		if k == 2 {
			e = e2
		}
		vEnsures("each in its turn", int(g.n) == 3+len(e) && g.last[3:g.n] == string(e))
	}
	close(i.sendCh)
	i.sendLoop()
	vEnsures("both", g.calls == 2)
}

// Frames in the buffer filled by the guest, perhaps followed by something else.
//
//verif:prop C37
//verif:bounded two frames are received at once
//verif:unroll 4
func H_Receive(ptr uint32, one, two, mem, rest []byte) {
	vRequires(len(one) < 1<<24 && len(two) < 1<<24 && len(rest) < 1<<24 && len(mem) < 1<<30)
	vRequires(len(one) >= frames.FrameHeaderLen && len(two) >= frames.FrameHeaderLen)
	vRequires(len(rest) < 3 || int(rest[0])<<16|int(rest[1])<<8|int(rest[2]) > len(rest)-3)
	buf := make([]byte, 6+len(one)+len(two)+len(rest))
	vPut(buf, one)
	vPut(buf[3+len(one):], two)
	copy(buf[6+len(one)+len(two):], rest)
	p := int(ptr)
	vRequires(p+len(buf) <= len(mem))
	copy(mem[p:], buf)
	was := vSnap(mem)
	g := &vGuest{mem: vMemory{b: mem}}
	i := vNew(g)
	i.setBuffers(0, ptr)
	i.hostSend(nil, uint32(len(buf)))
	vEnsures("the whole frames arrive", len(i.recvCh) == 2)
	vEnsures("the first", vEq(<-i.recvCh, one))
	vEnsures("the second", vEq(<-i.recvCh, two))
	vEnsures("the memory stays as it is", vSnap(mem) == was)
}

func vPut(b, frame []byte) {
	b[0], b[1], b[2] = byte(len(frame)>>16), byte(len(frame)>>8), byte(len(frame))
	copy(b[3:], frame)
}

// A frame does not change when the guest uses its memory again.
//
//verif:prop C37
//verif:unroll 4
func H_Whole(ptr uint32, one, mem []byte, at int, v byte) {
	vRequires(len(one) >= frames.FrameHeaderLen && len(one) < 1<<24 && len(mem) < 1<<30 && int(ptr)+3+len(one) <= len(mem))
	vRequires(at >= 0 && at < len(mem))
	vPut(mem[ptr:], one)
	g := &vGuest{mem: vMemory{b: mem}}
	i := vNew(g)
	i.setBuffers(0, ptr)
	i.hostSend(nil, uint32(3+len(one)))
	vEnsures("it arrives", len(i.recvCh) == 1)
	got := <-i.recvCh
	mem[at] = v
	vEnsures("whole", vEq(got, one))
}

// Whatever a frame consists of.
//
//verif:prop C23 C26 C37
func H_Malformed(data []byte, known bool, id uint32) {
	i := vNew(&vGuest{})
	s := &vStream{id: id}
	if known {
		i.registerStream(s)
	}
	i.recvOne(data)
	vRunGo()
	if len(data) < frames.FrameHeaderLen {
		vEnsures("too short for a frame", len(i.sendCh) == 0 && i.activeRequests.Load() == 0)
	}
	h := vHeader(data)
	if len(data) >= frames.FrameHeaderLen && h.StreamID() != id {
		vEnsures("other streams hear nothing", s.calls() == vCalls{})
	}
	vEnsures("no request is running", i.activeRequests.Load() == 0)
	for len(i.sendCh) > 0 {
		f := <-i.sendCh
		vEnsures("only an error on its stream", f.Type() == frames.FrameTypeError && f.GetStreamID() == h.StreamID())
	}
}

func vHeader(data []byte) (h frames.FrameHeader) {
	if len(data) >= frames.FrameHeaderLen {
		h = frames.ParseFrameHeader(data)
	}
	return
}
