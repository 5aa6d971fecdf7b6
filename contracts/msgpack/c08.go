//verif:pkg msgpack
package msgpack

// Generated by tools/gen_msgpack.py.

import (
	"math"
	"time"
)

//verif:prop C08
func H_size_Bool(buf []byte, k uint32, start uint32, v bool) {
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	vRequires(uint64(start)+uint64(1) <= math.MaxUint32)
	s.WriteBool(v)
	e.WriteBool(v)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_Float32(buf []byte, k uint32, start uint32, v float32) {
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	vRequires(uint64(start)+uint64(5) <= math.MaxUint32)
	s.WriteFloat32(v)
	e.WriteFloat32(v)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_Float64(buf []byte, k uint32, start uint32, v float64) {
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	vRequires(uint64(start)+uint64(9) <= math.MaxUint32)
	s.WriteFloat64(v)
	e.WriteFloat64(v)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_String(buf []byte, k uint32, start uint32, v string) {
	vRequires(len(v) <= math.MaxUint32-16)
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5+len(v)))
	vRequires(uint64(start)+uint64(5+len(v)) <= math.MaxUint32)
	s.WriteString(v)
	e.WriteString(v)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_ByteArray(buf []byte, k uint32, start uint32, v []byte) {
	vRequires(len(v) <= math.MaxUint32-16)
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5+len(v)))
	vRequires(uint64(start)+uint64(5+len(v)) <= math.MaxUint32)
	s.WriteByteArray(v)
	e.WriteByteArray(v)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_Int8(buf []byte, k uint32, start uint32, v int8) {
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 2))
	vRequires(uint64(start)+uint64(2) <= math.MaxUint32)
	s.WriteInt8(v)
	e.WriteInt8(v)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_Int16(buf []byte, k uint32, start uint32, v int16) {
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 3))
	vRequires(uint64(start)+uint64(3) <= math.MaxUint32)
	s.WriteInt16(v)
	e.WriteInt16(v)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_Int32(buf []byte, k uint32, start uint32, v int32) {
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	vRequires(uint64(start)+uint64(5) <= math.MaxUint32)
	s.WriteInt32(v)
	e.WriteInt32(v)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_Int64(buf []byte, k uint32, start uint32, v int64) {
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	vRequires(uint64(start)+uint64(9) <= math.MaxUint32)
	s.WriteInt64(v)
	e.WriteInt64(v)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_Uint8(buf []byte, k uint32, start uint32, v uint8) {
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 2))
	vRequires(uint64(start)+uint64(2) <= math.MaxUint32)
	s.WriteUint8(v)
	e.WriteUint8(v)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_Uint16(buf []byte, k uint32, start uint32, v uint16) {
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 3))
	vRequires(uint64(start)+uint64(3) <= math.MaxUint32)
	s.WriteUint16(v)
	e.WriteUint16(v)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_Uint32(buf []byte, k uint32, start uint32, v uint32) {
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	vRequires(uint64(start)+uint64(5) <= math.MaxUint32)
	s.WriteUint32(v)
	e.WriteUint32(v)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_Uint64(buf []byte, k uint32, start uint32, v uint64) {
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	vRequires(uint64(start)+uint64(9) <= math.MaxUint32)
	s.WriteUint64(v)
	e.WriteUint64(v)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_ArraySize(buf []byte, k uint32, start uint32, v uint32) {
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	vRequires(uint64(start)+uint64(5) <= math.MaxUint32)
	s.WriteArraySize(v)
	e.WriteArraySize(v)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_MapSize(buf []byte, k uint32, start uint32, v uint32) {
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	vRequires(uint64(start)+uint64(5) <= math.MaxUint32)
	s.WriteMapSize(v)
	e.WriteMapSize(v)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_NillableBool(buf []byte, k uint32, start uint32, present bool, v bool) {
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	vRequires(uint64(start)+uint64(1) <= math.MaxUint32)
	var p *bool
	if present {
		p = &v
	}
	s.WriteNillableBool(p)
	e.WriteNillableBool(p)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_NillableFloat32(buf []byte, k uint32, start uint32, present bool, v float32) {
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	vRequires(uint64(start)+uint64(5) <= math.MaxUint32)
	var p *float32
	if present {
		p = &v
	}
	s.WriteNillableFloat32(p)
	e.WriteNillableFloat32(p)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_NillableFloat64(buf []byte, k uint32, start uint32, present bool, v float64) {
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	vRequires(uint64(start)+uint64(9) <= math.MaxUint32)
	var p *float64
	if present {
		p = &v
	}
	s.WriteNillableFloat64(p)
	e.WriteNillableFloat64(p)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_NillableString(buf []byte, k uint32, start uint32, present bool, v string) {
	vRequires(len(v) <= math.MaxUint32-16)
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5+len(v)))
	vRequires(uint64(start)+uint64(5+len(v)) <= math.MaxUint32)
	var p *string
	if present {
		p = &v
	}
	s.WriteNillableString(p)
	e.WriteNillableString(p)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_NillableByteArray(buf []byte, k uint32, start uint32, present bool, v []byte) {
	vRequires(len(v) <= math.MaxUint32-16)
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5+len(v)))
	vRequires(uint64(start)+uint64(5+len(v)) <= math.MaxUint32)
	var p []byte
	if present {
		p = v
	}
	s.WriteNillableByteArray(p)
	e.WriteNillableByteArray(p)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_NillableInt8(buf []byte, k uint32, start uint32, present bool, v int8) {
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 2))
	vRequires(uint64(start)+uint64(2) <= math.MaxUint32)
	var p *int8
	if present {
		p = &v
	}
	s.WriteNillableInt8(p)
	e.WriteNillableInt8(p)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_NillableInt16(buf []byte, k uint32, start uint32, present bool, v int16) {
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 3))
	vRequires(uint64(start)+uint64(3) <= math.MaxUint32)
	var p *int16
	if present {
		p = &v
	}
	s.WriteNillableInt16(p)
	e.WriteNillableInt16(p)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_NillableInt32(buf []byte, k uint32, start uint32, present bool, v int32) {
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	vRequires(uint64(start)+uint64(5) <= math.MaxUint32)
	var p *int32
	if present {
		p = &v
	}
	s.WriteNillableInt32(p)
	e.WriteNillableInt32(p)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_NillableInt64(buf []byte, k uint32, start uint32, present bool, v int64) {
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	vRequires(uint64(start)+uint64(9) <= math.MaxUint32)
	var p *int64
	if present {
		p = &v
	}
	s.WriteNillableInt64(p)
	e.WriteNillableInt64(p)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_NillableUint8(buf []byte, k uint32, start uint32, present bool, v uint8) {
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 2))
	vRequires(uint64(start)+uint64(2) <= math.MaxUint32)
	var p *uint8
	if present {
		p = &v
	}
	s.WriteNillableUint8(p)
	e.WriteNillableUint8(p)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_NillableUint16(buf []byte, k uint32, start uint32, present bool, v uint16) {
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 3))
	vRequires(uint64(start)+uint64(3) <= math.MaxUint32)
	var p *uint16
	if present {
		p = &v
	}
	s.WriteNillableUint16(p)
	e.WriteNillableUint16(p)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_NillableUint32(buf []byte, k uint32, start uint32, present bool, v uint32) {
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	vRequires(uint64(start)+uint64(5) <= math.MaxUint32)
	var p *uint32
	if present {
		p = &v
	}
	s.WriteNillableUint32(p)
	e.WriteNillableUint32(p)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_NillableUint64(buf []byte, k uint32, start uint32, present bool, v uint64) {
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	vRequires(uint64(start)+uint64(9) <= math.MaxUint32)
	var p *uint64
	if present {
		p = &v
	}
	s.WriteNillableUint64(p)
	e.WriteNillableUint64(p)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

//verif:prop C08
func H_size_Nil(buf []byte, k uint32, start uint32) {
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1) && start < math.MaxUint32)
	s.WriteNil()
	e.WriteNil()
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k) && e.Err() == nil)
}

//verif:prop C08
func H_size_Time(buf []byte, k uint32, start uint32, sec int64, nsec int64, present bool) {
	vRequires(nsec >= 0 && nsec < 1000000000)
	v := time.Unix(sec, nsec)
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 15) && start <= math.MaxUint32-15)
	if present {
		s.WriteTime(v)
		e.WriteTime(v)
	} else {
		s.WriteNillableTime(&v)
		e.WriteNillableTime(&v)
	}
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

// The two passes of ToBytes: a buffer of the size pass's length is filled exactly.
//
//verif:prop C08
func H_size_filled(name string, n int64, b []byte, ok bool) {
	vRequires(len(name) <= 1<<30 && len(b) <= 1<<30)
	s := NewSizer()
	s.WriteString(name)
	s.WriteInt64(n)
	s.WriteByteArray(b)
	s.WriteBool(ok)
	buf := make([]byte, s.Len())
	e := NewEncoder(buf)
	e.WriteString(name)
	e.WriteInt64(n)
	e.WriteByteArray(b)
	e.WriteBool(ok)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("filled", vEncPos(&e) == len(buf))
}
