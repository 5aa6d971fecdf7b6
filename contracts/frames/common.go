//verif:pkg internal/frames
//verif:common
package frames

import "math"

// vFits: the contents fit the 24 bit metadata length and a 32 bit frame size.
func vFits(md, data, other int) bool {
	return md <= 0xffffff && data <= math.MaxUint32-0x2000000 && other <= 0x1000000-64
}

// vBE is the big-endian number in the n bytes at p.
func vBE(b []byte, p int, n int) uint64 {
	var r uint64
	for i := 0; i < n; i++ {
		r = r<<8 | uint64(b[p+i])
	}
	return r
}

func vIsRequest(t FrameType) bool {
	return t == FrameTypeRequestResponse || t == FrameTypeRequestFNF || t == FrameTypeRequestStream || t == FrameTypeRequestChannel
}

// vHasN: the request kinds that carry an initial request-n.
func vHasN(t FrameType) bool {
	return t == FrameTypeRequestStream || t == FrameTypeRequestChannel
}

// vBodyAt: at p the frame holds its metadata (when any) behind a 24 bit length, then its data, and nothing else up to n.
func vBodyAt(b []byte, p, n int, md, data []byte) bool {
	if len(md) > 0 {
		if p+3 > n || vBE(b, p, 3) != uint64(len(md)) || !vHas(b, p+3, md) {
			return false
		}
		p += 3 + len(md)
	}
	return p+len(data) == n && vHas(b, p, data)
}
