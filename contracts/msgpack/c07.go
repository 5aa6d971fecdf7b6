//verif:pkg msgpack
package msgpack

// Generated by tools/gen_msgpack.py.

import (
	"math"
	"time"
)

//verif:prop C07
func H_rt_Bool(buf []byte, k uint32, v bool) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteBool(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadBool()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", got == v)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C07
func H_rt_Float32(buf []byte, k uint32, v float32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	e.WriteFloat32(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadFloat32()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", math.Float32bits(got) == math.Float32bits(v))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C07
func H_rt_Float64(buf []byte, k uint32, v float64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteFloat64(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadFloat64()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", math.Float64bits(got) == math.Float64bits(v))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C07
func H_rt_String(buf []byte, k uint32, v string) {
	vRequires(len(v) <= math.MaxUint32)
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5+len(v)))
	e.WriteString(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadString()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", got == v)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C07
func H_rt_ByteArray(buf []byte, k uint32, v []byte) {
	vRequires(len(v) <= math.MaxUint32)
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5+len(v)))
	e.WriteByteArray(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadByteArray()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", vEq(got, v))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C07
func H_rt_Int8(buf []byte, k uint32, v int8) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 2))
	e.WriteInt8(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadInt8()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", got == v)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C07
func H_rt_Int16(buf []byte, k uint32, v int16) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 3))
	e.WriteInt16(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadInt16()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", got == v)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C07
func H_rt_Int32(buf []byte, k uint32, v int32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	e.WriteInt32(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadInt32()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", got == v)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C07
func H_rt_Int64(buf []byte, k uint32, v int64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteInt64(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadInt64()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", got == v)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C07
func H_rt_Uint8(buf []byte, k uint32, v uint8) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 2))
	e.WriteUint8(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadUint8()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", got == v)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C07
func H_rt_Uint16(buf []byte, k uint32, v uint16) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 3))
	e.WriteUint16(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadUint16()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", got == v)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C07
func H_rt_Uint32(buf []byte, k uint32, v uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	e.WriteUint32(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadUint32()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", got == v)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C07
func H_rt_Uint64(buf []byte, k uint32, v uint64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteUint64(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadUint64()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", got == v)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C07
func H_rt_ArraySize(buf []byte, k uint32, v uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	e.WriteArraySize(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadArraySize()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", got == v)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C07
func H_rt_MapSize(buf []byte, k uint32, v uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	e.WriteMapSize(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadMapSize()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", got == v)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C07
func H_rt_Nil(buf []byte, k uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteNil()
	d := vDecAt(buf, k)
	got, err := d.IsNextNil()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", got)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C07
func H_rt_Time(buf []byte, k uint32, sec int64, nsec int64) {
	vRequires(nsec >= 0 && nsec < 1000000000)
	v := time.Unix(sec, nsec)
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 15))
	e.WriteTime(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadTime()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", got.Unix() == v.Unix() && got.Nanosecond() == v.Nanosecond())
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

// Two items in a row: the second is found where the first ended, and writing
// the second leaves the first as it was.
//
//verif:prop C07
func H_rt_sequence(buf []byte, k uint32, v string, w int32, bs []byte) {
	vRequires(len(v) <= math.MaxUint32 && len(bs) <= math.MaxUint32)
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5+len(v)+5+5+len(bs)))
	e.WriteString(v)
	e.WriteInt32(w)
	e.WriteByteArray(bs)
	d := vDecAt(buf, k)
	v2, err1 := d.ReadString()
	w2, err2 := d.ReadInt32()
	bs2, err3 := d.ReadByteArray()
	vEnsures("noerror", e.Err() == nil && err1 == nil && err2 == nil && err3 == nil)
	vEnsures("first", v2 == v)
	vEnsures("second", w2 == w)
	vEnsures("third", vEq(bs2, bs))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}
