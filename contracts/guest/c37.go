//verif:pkg transport/wasmrs/guest
package guest

import (
	"github.com/nanobus/iota/go/internal/frames"
)

// vAny is a frame of any kind.
func vAny(kind int, id, n uint32, data, md []byte, a, b, c bool, why string) frames.Frame {
	switch kind {
	case 0:
		return &frames.RequestN{StreamID: id, N: n}
	case 1:
		return &frames.Cancel{StreamID: id}
	case 2:
		return &frames.Payload{StreamID: id, Data: data, Metadata: md, Next: a, Complete: b, Follows: c}
	case 3:
		return &frames.Error{StreamID: id, Data: why}
	}
	return &frames.RequestPayload{FrameType: frames.FrameType(kind), StreamID: id, Data: data, Metadata: md, InitialN: n, Complete: a, Follows: b}
}

// A frame of any kind is written to the buffer, if it fits.
//
//verif:prop C37
func H_Send(kind int, id, n, size uint32, data, md []byte, a, b, c bool, why string) {
	vRequires(kind >= 0 && kind <= 7 && id < 1<<31 && n < 1<<31 && len(md) < 1<<24 && len(data) < 1<<24 && len(why) < 1<<24 && size <= 1<<24)
	w := &vWire{}
	vPeerOf(w)
	hostBuffer = make([]byte, size)
	f := vAny(kind, id, n, data, md, a, b, c, why)
	enc := vEnc(f)
	fits := len(enc)+3 <= len(hostBuffer)
	told := 0
	vHost = func(n uint32) {
		told++
		if fits {
			vEnsures("the length comes first", int(n) == 3+len(enc) && int(hostBuffer[0])<<16|int(hostBuffer[1])<<8|int(hostBuffer[2]) == len(enc))
			vEnsures("then the whole frame", vEq(hostBuffer[3:n], enc))
		} else {
			w.take(n)
		}
	}
	vEnsures("a frame that fits is accepted, others are refused", (sendFrame(f) == nil) == fits)
	if fits {
		vEnsures("the host is told once", told == 1)
	} else {
		vEnsures("at most an error is sent instead", told <= vOne(kind < 4) && (told == 0 || vFailed(w.f[0], id, errFrameTooLarge.Error())))
	}
}

// A request that does not fit the buffer is answered with an error.
//
//verif:prop C37
func H_Refused(id, n uint32, kind frames.FrameType, data, md []byte) {
	vRequires(kind >= frames.FrameTypeRequestResponse && kind <= frames.FrameTypeRequestChannel && id < 1<<31 && n < 1<<31)
	vRequires(len(md) < 1<<24 && len(data) < 1<<24 && len(data)+len(md) >= 16*1024)
	w := &vWire{}
	vPeerOf(w)
	s := &vStream{id: id}
	registerStream(s)
	vEnsures("refused", sendFrame(&frames.RequestPayload{FrameType: kind, StreamID: id, Data: data, Metadata: md, InitialN: n}) != nil)
	_, ok := getStream(id)
	vEnsures("its requester hears of it", w.n == 0 && s.fail == 1 && s.next == 0 && !ok)
}

// Frames in the buffer filled by the host, perhaps followed by something else.
//
//verif:prop C37
//verif:bounded two frames are received at once
func H_Receive(id, id2, n uint32, data, rest []byte) {
	vRequires(id < 1<<31 && id2 < 1<<31 && n < 1<<31 && vSmall(data) && len(rest) < 1<<24)
	vRequires(len(rest) < 3 || int(rest[0])<<16|int(rest[1])<<8|int(rest[2]) > len(rest)-3)
	w := &vWire{}
	vPeerOf(w)
	s, s2 := &vAsked{vStream{id: id}}, &vAsked{vStream{id: id2}}
	registerStream(s)
	if id != id2 {
		registerStream(s2)
	}
	one := vEnc(&frames.RequestN{StreamID: id, N: n})
	two := vEnc(&frames.Payload{StreamID: id2, Data: data, Next: true})
	guestBuffer = make([]byte, 6+len(one)+len(two)+len(rest))
	vPut(guestBuffer, one)
	vPut(guestBuffer[3+len(one):], two)
	copy(guestBuffer[6+len(one)+len(two):], rest)
	GuestSend(uint32(len(guestBuffer)))
	vEnsures("the first arrives", s.ask == 1 && s.asked == int(n))
	if id == id2 {
		vEnsures("the second arrives", s.next == 1 && vEq(s.data, data))
	} else {
		vEnsures("the second arrives", s2.next == 1 && vEq(s2.data, data) && s.next == 0)
	}
}

func vPut(b, frame []byte) {
	b[0], b[1], b[2] = byte(len(frame)>>16), byte(len(frame)>>8), byte(len(frame))
	copy(b[3:], frame)
}

// Whatever a frame consists of.
//
//verif:prop C37 C23
func H_Malformed(data []byte, known bool, id uint32) {
	vRequires(len(data) < 1<<24)
	w := &vWire{}
	vPeerOf(w)
	s := &vStream{id: id}
	if known {
		registerStream(s)
	}
	var h frames.FrameHeader
	if len(data) >= frames.FrameHeaderLen {
		h = frames.ParseFrameHeader(data)
	}
	guestBuffer = make([]byte, 3+len(data))
	vPut(guestBuffer, data)
	GuestSend(uint32(len(guestBuffer)))
	vRunGo()
	if len(data) < frames.FrameHeaderLen {
		vEnsures("too short for a frame", w.n == 0)
	}
	if len(data) >= frames.FrameHeaderLen && h.StreamID() != id {
		vEnsures("other streams hear nothing", s.calls() == vCalls{})
	}
	for k := 0; k < w.n; k++ {
		vEnsures("only an error on its stream", w.f[k].Type() == frames.FrameTypeError && w.f[k].GetStreamID() == h.StreamID())
	}
}

// Whatever length the host gives.
//
//verif:prop C37
func H_Truncated(buf []byte, end uint32) {
	vRequires(len(buf) < 1<<24 && end < 3)
	vPeerOf(&vWire{})
	guestBuffer = buf
	GuestSend(end)
	vRequires(len(buf) >= 3 && int(buf[0])<<16|int(buf[1])<<8|int(buf[2]) > len(buf)-3)
	GuestSend(uint32(len(buf)))
	GuestSend(uint32(len(buf)) + 100)
}

// What is left in the buffer from before does not arrive again.
//
//verif:prop C37
func H_Nothing(id uint32, data []byte, end uint32) {
	vRequires(id < 1<<31 && vSmall(data))
	w := &vWire{}
	vPeerOf(w)
	s := &vStream{id: id}
	registerStream(s)
	one := vEnc(&frames.Payload{StreamID: id, Data: data, Next: true, Complete: true})
	guestBuffer = make([]byte, 3+len(one))
	vPut(guestBuffer, one)
	vRequires(int(end) < len(guestBuffer))
	GuestSend(end)
	vEnsures("nothing arrives", s.calls() == vCalls{} && w.n == 0)
}

// An item does not change when the host uses the buffer again.
//
//verif:prop C37
func H_Whole(id uint32, data, md []byte, at int, v byte) {
	vRequires(id < 1<<31 && vSmall(data, md))
	vPeerOf(&vWire{})
	s := &vStream{id: id}
	registerStream(s)
	one := vEnc(&frames.Payload{StreamID: id, Data: data, Metadata: md, Next: true})
	guestBuffer = make([]byte, 3+len(one))
	vPut(guestBuffer, one)
	vRequires(at >= 0 && at < len(guestBuffer))
	GuestSend(uint32(len(guestBuffer)))
	vEnsures("it arrives", s.next == 1)
	guestBuffer[at] = v
	vEnsures("whole", vEq(s.data, data) && vEq(s.md, md))
}

// Whatever a frame consists of, the one behind it arrives.
//
//verif:prop C37
//verif:bounded one frame behind another
func H_Behind(one, data []byte, id uint32, known bool) {
	vRequires(len(one) < 8000 && vSmall(data) && id < 1<<31)
	w := &vWire{}
	vPeerOf(w)
	s := &vStream{id: id}
	registerStream(s)
	if len(one) >= frames.FrameHeaderLen {
		h := frames.ParseFrameHeader(one)
		vRequires(h.StreamID() != id)
		if known {
			registerStream(&vAsked{vStream{id: h.StreamID()}})
		}
	}
	two := vEnc(&frames.Payload{StreamID: id, Data: data, Next: true})
	guestBuffer = make([]byte, 6+len(one)+len(two))
	vPut(guestBuffer, one)
	vPut(guestBuffer[3+len(one):], two)
	GuestSend(uint32(len(guestBuffer)))
	vRunGo()
	vEnsures("the next arrives", s.next == 1 && vEq(s.data, data) && s.fail+s.comp == 0)
}
