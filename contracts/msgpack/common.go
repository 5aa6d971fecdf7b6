//verif:pkg msgpack
//verif:common
package msgpack

import "math"

// Shared vocabulary of the msgpack contracts.

// vEncAt is an encoder whose next write lands at offset k of buf.
func vEncAt(buf []byte, k uint32) Encoder {
	vRequires(len(buf) <= math.MaxUint32 && int(k) <= len(buf))
	e := NewEncoder(buf)
	e.reader.Discard(k)
	return e
}

// vDecAt is a decoder whose next read starts at offset k of buf.
func vDecAt(buf []byte, k uint32) Decoder {
	vRequires(len(buf) <= math.MaxUint32 && int(k) <= len(buf))
	d := NewDecoder(buf)
	d.reader.Discard(k)
	return d
}

func vEncPos(e *Encoder) int { return int(e.reader.byteOffset) }
func vDecPos(d *Decoder) int { return int(d.reader.byteOffset) }

// vRoom is the number of bytes buf must have behind offset k for a write of n bytes.
func vRoom(buf []byte, k uint32, n int) bool { return len(buf)-int(k) >= n }

// vBE is the big-endian number in the n bytes at p.
func vBE(b []byte, p int, n int) uint64 {
	var r uint64
	for i := 0; i < n; i++ {
		r = r<<8 | uint64(b[p+i])
	}
	return r
}
