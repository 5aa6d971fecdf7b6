//verif:pkg msgpack
package msgpack

// Generated by tools/gen_msgpack2.py.

import (
	"math"
	"time"
)

// vItem is the expected head of an item: n bytes of which the first is fmt and
// the others the big-endian number num.
func vItemIs(buf []byte, k uint32, pos int, n int, fmt byte, num uint64) bool {
	p := int(k)
	if pos != p+n || buf[p] != fmt {
		return false
	}
	return n == 1 || vBE(buf, p+1, n-1) == num
}

func vUintItem(buf []byte, k uint32, pos int, v uint64) bool {
	switch {
	case v < 128:
		return vItemIs(buf, k, pos, 1, byte(v), 0)
	case v <= 0xff:
		return vItemIs(buf, k, pos, 2, 0xcc, v)
	case v <= 0xffff:
		return vItemIs(buf, k, pos, 3, 0xcd, v)
	case v <= 0xffffffff:
		return vItemIs(buf, k, pos, 5, 0xce, v)
	}
	return vItemIs(buf, k, pos, 9, 0xcf, v)
}

func vIntItem(buf []byte, k uint32, pos int, v int64) bool {
	switch {
	case v >= -32 && v < 128:
		return vItemIs(buf, k, pos, 1, byte(v), 0)
	case v >= -128 && v < 128:
		return vItemIs(buf, k, pos, 2, 0xd0, uint64(byte(v)))
	case v >= -32768 && v < 32768:
		return vItemIs(buf, k, pos, 3, 0xd1, uint64(uint16(v)))
	case v >= -2147483648 && v < 2147483648:
		return vItemIs(buf, k, pos, 5, 0xd2, uint64(uint32(v)))
	}
	return vItemIs(buf, k, pos, 9, 0xd3, uint64(v))
}

// The bytes in front of the item and behind it are untouched.
func vOutside(old string, buf []byte, k uint32, pos int) bool {
	return vForall(0, len(buf), func(i int) bool { return i >= int(k) && i < pos || buf[i] == old[i] })
}

//verif:prop C09
func H_wire_Nil(buf []byte, k uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	old := vSnap(buf)
	e.WriteNil()
	vCover("written")
	vEnsures("no error", e.Err() == nil)
	vEnsures("wire format", vItemIs(buf, k, vEncPos(&e), 1, 0xc0, 0))
	vEnsures("nothing else changed", vOutside(old, buf, k, vEncPos(&e)))
}

//verif:prop C09
func H_wire_Bool(buf []byte, k uint32, v bool) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	old := vSnap(buf)
	e.WriteBool(v)
	vCover("written")
	vEnsures("no error", e.Err() == nil)
	vEnsures("wire format", v && vItemIs(buf, k, vEncPos(&e), 1, 0xc3, 0) || !v && vItemIs(buf, k, vEncPos(&e), 1, 0xc2, 0))
	vEnsures("nothing else changed", vOutside(old, buf, k, vEncPos(&e)))
}

//verif:prop C09
func H_wire_Int8(buf []byte, k uint32, v int8) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 2))
	old := vSnap(buf)
	e.WriteInt8(v)
	vCover("written")
	vEnsures("no error", e.Err() == nil)
	vEnsures("wire format", vIntItem(buf, k, vEncPos(&e), int64(v)))
	vEnsures("nothing else changed", vOutside(old, buf, k, vEncPos(&e)))
}

//verif:prop C09
func H_wire_Uint8(buf []byte, k uint32, v uint8) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 2))
	old := vSnap(buf)
	e.WriteUint8(v)
	vCover("written")
	vEnsures("no error", e.Err() == nil)
	vEnsures("wire format", vUintItem(buf, k, vEncPos(&e), uint64(v)))
	vEnsures("nothing else changed", vOutside(old, buf, k, vEncPos(&e)))
}

//verif:prop C09
func H_wire_Int16(buf []byte, k uint32, v int16) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 3))
	old := vSnap(buf)
	e.WriteInt16(v)
	vCover("written")
	vEnsures("no error", e.Err() == nil)
	vEnsures("wire format", vIntItem(buf, k, vEncPos(&e), int64(v)))
	vEnsures("nothing else changed", vOutside(old, buf, k, vEncPos(&e)))
}

//verif:prop C09
func H_wire_Uint16(buf []byte, k uint32, v uint16) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 3))
	old := vSnap(buf)
	e.WriteUint16(v)
	vCover("written")
	vEnsures("no error", e.Err() == nil)
	vEnsures("wire format", vUintItem(buf, k, vEncPos(&e), uint64(v)))
	vEnsures("nothing else changed", vOutside(old, buf, k, vEncPos(&e)))
}

//verif:prop C09
func H_wire_Int32(buf []byte, k uint32, v int32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	old := vSnap(buf)
	e.WriteInt32(v)
	vCover("written")
	vEnsures("no error", e.Err() == nil)
	vEnsures("wire format", vIntItem(buf, k, vEncPos(&e), int64(v)))
	vEnsures("nothing else changed", vOutside(old, buf, k, vEncPos(&e)))
}

//verif:prop C09
func H_wire_Uint32(buf []byte, k uint32, v uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	old := vSnap(buf)
	e.WriteUint32(v)
	vCover("written")
	vEnsures("no error", e.Err() == nil)
	vEnsures("wire format", vUintItem(buf, k, vEncPos(&e), uint64(v)))
	vEnsures("nothing else changed", vOutside(old, buf, k, vEncPos(&e)))
}

//verif:prop C09
func H_wire_Int64(buf []byte, k uint32, v int64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	old := vSnap(buf)
	e.WriteInt64(v)
	vCover("written")
	vEnsures("no error", e.Err() == nil)
	vEnsures("wire format", vIntItem(buf, k, vEncPos(&e), int64(v)))
	vEnsures("nothing else changed", vOutside(old, buf, k, vEncPos(&e)))
}

//verif:prop C09
func H_wire_Uint64(buf []byte, k uint32, v uint64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	old := vSnap(buf)
	e.WriteUint64(v)
	vCover("written")
	vEnsures("no error", e.Err() == nil)
	vEnsures("wire format", vUintItem(buf, k, vEncPos(&e), uint64(v)))
	vEnsures("nothing else changed", vOutside(old, buf, k, vEncPos(&e)))
}

//verif:prop C09
func H_wire_Float32(buf []byte, k uint32, v float32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	old := vSnap(buf)
	e.WriteFloat32(v)
	vCover("written")
	vEnsures("no error", e.Err() == nil)
	vEnsures("wire format", vItemIs(buf, k, vEncPos(&e), 5, 0xca, uint64(math.Float32bits(v))))
	vEnsures("nothing else changed", vOutside(old, buf, k, vEncPos(&e)))
}

//verif:prop C09
func H_wire_Float64(buf []byte, k uint32, v float64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	old := vSnap(buf)
	e.WriteFloat64(v)
	vCover("written")
	vEnsures("no error", e.Err() == nil)
	vEnsures("wire format", vItemIs(buf, k, vEncPos(&e), 9, 0xcb, math.Float64bits(v)))
	vEnsures("nothing else changed", vOutside(old, buf, k, vEncPos(&e)))
}

func vHeadStr(buf []byte, k uint32, n int) int {
	p := int(k)
	switch {
	case n < 32:
		if buf[p] == 0xa0|byte(n) {
			return 1
		}
	case n <= 0xff:
		if buf[p] == 0xd9 && vBE(buf, p+1, 1) == uint64(n) {
			return 2
		}
	case n <= 0xffff:
		if buf[p] == 0xda && vBE(buf, p+1, 2) == uint64(n) {
			return 3
		}
	default:
		if buf[p] == 0xdb && vBE(buf, p+1, 4) == uint64(n) {
			return 5
		}
	}
	return -1
}

func vHeadBin(buf []byte, k uint32, n int) int {
	p := int(k)
	switch {
	case n <= 0xff:
		if buf[p] == 0xc4 && vBE(buf, p+1, 1) == uint64(n) {
			return 2
		}
	case n <= 0xffff:
		if buf[p] == 0xc5 && vBE(buf, p+1, 2) == uint64(n) {
			return 3
		}
	default:
		if buf[p] == 0xc6 && vBE(buf, p+1, 4) == uint64(n) {
			return 5
		}
	}
	return -1
}

//verif:prop C09
func H_wire_String(buf []byte, k uint32, v string) {
	vRequires(len(v) <= math.MaxUint32)
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5+len(v)))
	e.WriteString(v)
	h := vHeadStr(buf, k, len(v))
	vEnsures("no error", e.Err() == nil)
	vEnsures("head", h > 0)
	vEnsures("length", vEncPos(&e) == int(k)+h+len(v))
	vEnsures("content", vHasS(buf, int(k)+h, v))
}

//verif:prop C09
func H_wire_ByteArray(buf []byte, k uint32, v []byte) {
	vRequires(len(v) <= math.MaxUint32)
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5+len(v)))
	c := vSnap(v)
	e.WriteByteArray(v)
	h := vHeadBin(buf, k, len(v))
	vEnsures("no error", e.Err() == nil)
	vEnsures("head", h > 0)
	vEnsures("length", vEncPos(&e) == int(k)+h+len(v))
	vEnsures("content", vHasS(buf, int(k)+h, c))
}

//verif:prop C09
func H_wire_ArraySize(buf []byte, k uint32, v uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	old := vSnap(buf)
	e.WriteArraySize(v)
	vCover("written")
	vEnsures("no error", e.Err() == nil)
	vEnsures("wire format", v < 16 && vItemIs(buf, k, vEncPos(&e), 1, 0x90|byte(v), 0) || v >= 16 && v <= 0xffff && vItemIs(buf, k, vEncPos(&e), 3, 0xdc, uint64(v)) || v > 0xffff && vItemIs(buf, k, vEncPos(&e), 5, 0xdd, uint64(v)))
	vEnsures("nothing else changed", vOutside(old, buf, k, vEncPos(&e)))
}

//verif:prop C09
func H_wire_MapSize(buf []byte, k uint32, v uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	old := vSnap(buf)
	e.WriteMapSize(v)
	vCover("written")
	vEnsures("no error", e.Err() == nil)
	vEnsures("wire format", v < 16 && vItemIs(buf, k, vEncPos(&e), 1, 0x80|byte(v), 0) || v >= 16 && v <= 0xffff && vItemIs(buf, k, vEncPos(&e), 3, 0xde, uint64(v)) || v > 0xffff && vItemIs(buf, k, vEncPos(&e), 5, 0xdf, uint64(v)))
	vEnsures("nothing else changed", vOutside(old, buf, k, vEncPos(&e)))
}

// Timestamps: extension type -1 in the 4, 8 or 12 byte form.
//
//verif:prop C09
func H_wire_Time(buf []byte, k uint32, sec int64, nsec int64) {
	vRequires(nsec >= 0 && nsec < 1000000000)
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 15))
	e.WriteTime(time.Unix(sec, nsec))
	p := int(k)
	vEnsures("no error", e.Err() == nil)
	if uint64(sec) < 1<<32 && nsec == 0 {
		vCover("32")
		vEnsures("32 bit form", vEncPos(&e) == p+6 && buf[p] == 0xd6 && buf[p+1] == 0xff && vBE(buf, p+2, 4) == uint64(sec))
	} else if uint64(sec) < 1<<34 {
		vCover("64")
		vEnsures("64 bit form", vEncPos(&e) == p+10 && buf[p] == 0xd7 && buf[p+1] == 0xff && vBE(buf, p+2, 8) == uint64(nsec)<<34|uint64(sec))
	} else {
		vCover("96")
		vEnsures("96 bit form", vEncPos(&e) == p+15 && buf[p] == 0xc7 && buf[p+1] == 12 && buf[p+2] == 0xff && vBE(buf, p+3, 4) == uint64(nsec) && vBE(buf, p+7, 8) == uint64(sec))
	}
}
