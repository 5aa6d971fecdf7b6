//verif:pkg msgpack
package msgpack

// Generated by tools/gen_c12.py.

import (
	"math"
	"time"
)

//verif:prop C12
func H_dyn_Nil(buf []byte, k uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteAny(nil)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", got == nil)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_Bool(buf []byte, k uint32, v bool) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteAny(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", vIsBool(got, v))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_Int8(buf []byte, k uint32, v int8) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 2))
	e.WriteAny(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", vIsInt(got, int64(v)))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_Int16(buf []byte, k uint32, v int16) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 3))
	e.WriteAny(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", vIsInt(got, int64(v)))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_Int32(buf []byte, k uint32, v int32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	e.WriteAny(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", vIsInt(got, int64(v)))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_Int64(buf []byte, k uint32, v int64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteAny(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", vIsInt(got, int64(v)))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_Int(buf []byte, k uint32, v int) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteAny(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", vIsInt(got, int64(v)))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_Uint8(buf []byte, k uint32, v uint8) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 2))
	e.WriteAny(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", vIsUint(got, uint64(v)))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_Uint16(buf []byte, k uint32, v uint16) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 3))
	e.WriteAny(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", vIsUint(got, uint64(v)))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_Uint32(buf []byte, k uint32, v uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	e.WriteAny(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", vIsUint(got, uint64(v)))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_Uint64(buf []byte, k uint32, v uint64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteAny(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", vIsUint(got, uint64(v)))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_Uint(buf []byte, k uint32, v uint) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteAny(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", vIsUint(got, uint64(v)))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_Float32(buf []byte, k uint32, v float32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	e.WriteAny(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", vIsFloat32(got, v))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_Float64(buf []byte, k uint32, v float64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteAny(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", vIsFloat64(got, v))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_String(buf []byte, k uint32, v string) {
	vRequires(len(v) <= math.MaxUint32)
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5+len(v)))
	e.WriteAny(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", vIsString(got, v))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_ByteArray(buf []byte, k uint32, v []byte) {
	vRequires(len(v) <= math.MaxUint32)
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5+len(v)))
	e.WriteAny(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", vIsBytes(got, v))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_Time(buf []byte, k uint32, sec, nsec int64) {
	vRequires(nsec >= 0 && nsec < 1000000000)
	v := time.Unix(sec, nsec)
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 15))
	e.WriteAny(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", vIsTime(got, v))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
//verif:bounded two elements
func H_dyn_SliceTime(buf []byte, k uint32, s1, n1, s2, n2 int64) {
	vRequires(n1 >= 0 && n1 < 1000000000 && n2 >= 0 && n2 < 1000000000)
	a, b := time.Unix(s1, n1), time.Unix(s2, n2)
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 31))
	e.WriteAny([]time.Time{a, b})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	l, ok := vIsList(got, 2)
	vEnsures("list", ok)
	vEnsures("first", vIsTime(l[0], a))
	vEnsures("second", vIsTime(l[1], b))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_EmptyTime(buf []byte, k uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteAny([]time.Time{})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	_, ok := vIsList(got, 0)
	vEnsures("list", ok)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
//verif:bounded twenty elements
func H_dyn_Slice20(buf []byte, k uint32, a bool) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 23))
	e.WriteAny(make20(a))
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	l, ok := vIsList(got, 20)
	vEnsures("list", ok)
	vEnsures("first", l[0] == nil)
	vEnsures("last", vIsBool(l[19], a))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
//verif:bounded two elements, strings of at most 40 bytes
func H_dyn_SliceString(buf []byte, k uint32, a, b string) {
	vRequires(len(a) <= 40 && len(b) <= 40)
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 11+len(a)+len(b)))
	e.WriteAny([]string{a, b})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	l, ok := vIsList(got, 2)
	vEnsures("list", ok)
	vEnsures("first", vIsString(l[0], a))
	vEnsures("second", vIsString(l[1], b))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_EmptyString(buf []byte, k uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteAny([]string{})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	_, ok := vIsList(got, 0)
	vEnsures("list", ok)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
//verif:bounded two elements
func H_dyn_SliceBool(buf []byte, k uint32, a, b bool) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 3))
	e.WriteAny([]bool{a, b})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	l, ok := vIsList(got, 2)
	vEnsures("list", ok)
	vEnsures("first", vIsBool(l[0], a))
	vEnsures("second", vIsBool(l[1], b))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_EmptyBool(buf []byte, k uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteAny([]bool{})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	_, ok := vIsList(got, 0)
	vEnsures("list", ok)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
//verif:bounded two elements
func H_dyn_SliceInt(buf []byte, k uint32, a, b int) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 19))
	e.WriteAny([]int{a, b})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	l, ok := vIsList(got, 2)
	vEnsures("list", ok)
	vEnsures("first", vIsInt(l[0], int64(a)))
	vEnsures("second", vIsInt(l[1], int64(b)))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_EmptyInt(buf []byte, k uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteAny([]int{})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	_, ok := vIsList(got, 0)
	vEnsures("list", ok)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
//verif:bounded two elements
func H_dyn_SliceInt8(buf []byte, k uint32, a, b int8) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	e.WriteAny([]int8{a, b})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	l, ok := vIsList(got, 2)
	vEnsures("list", ok)
	vEnsures("first", vIsInt(l[0], int64(a)))
	vEnsures("second", vIsInt(l[1], int64(b)))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_EmptyInt8(buf []byte, k uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteAny([]int8{})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	_, ok := vIsList(got, 0)
	vEnsures("list", ok)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
//verif:bounded two elements
func H_dyn_SliceInt16(buf []byte, k uint32, a, b int16) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 7))
	e.WriteAny([]int16{a, b})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	l, ok := vIsList(got, 2)
	vEnsures("list", ok)
	vEnsures("first", vIsInt(l[0], int64(a)))
	vEnsures("second", vIsInt(l[1], int64(b)))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_EmptyInt16(buf []byte, k uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteAny([]int16{})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	_, ok := vIsList(got, 0)
	vEnsures("list", ok)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
//verif:bounded two elements
func H_dyn_SliceInt32(buf []byte, k uint32, a, b int32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 11))
	e.WriteAny([]int32{a, b})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	l, ok := vIsList(got, 2)
	vEnsures("list", ok)
	vEnsures("first", vIsInt(l[0], int64(a)))
	vEnsures("second", vIsInt(l[1], int64(b)))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_EmptyInt32(buf []byte, k uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteAny([]int32{})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	_, ok := vIsList(got, 0)
	vEnsures("list", ok)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
//verif:bounded two elements
func H_dyn_SliceInt64(buf []byte, k uint32, a, b int64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 19))
	e.WriteAny([]int64{a, b})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	l, ok := vIsList(got, 2)
	vEnsures("list", ok)
	vEnsures("first", vIsInt(l[0], int64(a)))
	vEnsures("second", vIsInt(l[1], int64(b)))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_EmptyInt64(buf []byte, k uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteAny([]int64{})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	_, ok := vIsList(got, 0)
	vEnsures("list", ok)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
//verif:bounded two elements
func H_dyn_SliceUint(buf []byte, k uint32, a, b uint) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 19))
	e.WriteAny([]uint{a, b})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	l, ok := vIsList(got, 2)
	vEnsures("list", ok)
	vEnsures("first", vIsUint(l[0], uint64(a)))
	vEnsures("second", vIsUint(l[1], uint64(b)))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_EmptyUint(buf []byte, k uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteAny([]uint{})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	_, ok := vIsList(got, 0)
	vEnsures("list", ok)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
//verif:bounded two elements
func H_dyn_SliceUint16(buf []byte, k uint32, a, b uint16) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 7))
	e.WriteAny([]uint16{a, b})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	l, ok := vIsList(got, 2)
	vEnsures("list", ok)
	vEnsures("first", vIsUint(l[0], uint64(a)))
	vEnsures("second", vIsUint(l[1], uint64(b)))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_EmptyUint16(buf []byte, k uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteAny([]uint16{})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	_, ok := vIsList(got, 0)
	vEnsures("list", ok)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
//verif:bounded two elements
func H_dyn_SliceUint32(buf []byte, k uint32, a, b uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 11))
	e.WriteAny([]uint32{a, b})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	l, ok := vIsList(got, 2)
	vEnsures("list", ok)
	vEnsures("first", vIsUint(l[0], uint64(a)))
	vEnsures("second", vIsUint(l[1], uint64(b)))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_EmptyUint32(buf []byte, k uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteAny([]uint32{})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	_, ok := vIsList(got, 0)
	vEnsures("list", ok)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
//verif:bounded two elements
func H_dyn_SliceUint64(buf []byte, k uint32, a, b uint64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 19))
	e.WriteAny([]uint64{a, b})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	l, ok := vIsList(got, 2)
	vEnsures("list", ok)
	vEnsures("first", vIsUint(l[0], uint64(a)))
	vEnsures("second", vIsUint(l[1], uint64(b)))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_EmptyUint64(buf []byte, k uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteAny([]uint64{})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	_, ok := vIsList(got, 0)
	vEnsures("list", ok)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
//verif:bounded one nested list
func H_dyn_SliceAny(buf []byte, k uint32, a int32, b bool, c float64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 20))
	e.WriteAny([]any{a, []any{b, nil}, c})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	l, ok := vIsList(got, 3)
	vEnsures("list", ok)
	vEnsures("first", vIsInt(l[0], int64(a)))
	m, ok := vIsList(l[1], 2)
	vEnsures("inner list", ok)
	vEnsures("inner", vIsBool(m[0], b) && m[1] == nil)
	vEnsures("third", vIsFloat64(l[2], c))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
//verif:bounded one entry of short strings
func H_dyn_MapStringString(buf []byte, k uint32, a, b string) {
	vRequires(len(a) <= 10 && len(b) <= 10)
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 25))
	e.WriteAny(map[string]string{a: b})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 1)
	vEnsures("value", vIsString(m[a], b))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
//verif:bounded two entries
func H_dyn_MapStringAny(buf []byte, k uint32, a int32, b bool) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 25))
	e.WriteAny(map[string]any{"x": a, "yy": []any{b}})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 2)
	vEnsures("value", vIsInt(m["x"], int64(a)))
	l, ok := vIsList(m["yy"], 1)
	vEnsures("list", ok)
	vEnsures("inner", vIsBool(l[0], b))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
//verif:bounded one entry
func H_dyn_MapInt8(buf []byte, k uint32, a int8, b bool) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 20))
	e.WriteAny(map[int8]any{a: b})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 1)
	vEnsures("entry", vKeyI(m, int64(a), b))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_EmptyMapInt8(buf []byte, k uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteAny(map[int8]any{})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 0)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
//verif:bounded one entry
func H_dyn_MapInt16(buf []byte, k uint32, a int16, b bool) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 20))
	e.WriteAny(map[int16]any{a: b})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 1)
	vEnsures("entry", vKeyI(m, int64(a), b))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_EmptyMapInt16(buf []byte, k uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteAny(map[int16]any{})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 0)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
//verif:bounded one entry
func H_dyn_MapInt32(buf []byte, k uint32, a int32, b bool) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 20))
	e.WriteAny(map[int32]any{a: b})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 1)
	vEnsures("entry", vKeyI(m, int64(a), b))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_EmptyMapInt32(buf []byte, k uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteAny(map[int32]any{})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 0)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
//verif:bounded one entry
func H_dyn_MapInt64(buf []byte, k uint32, a int64, b bool) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 20))
	e.WriteAny(map[int64]any{a: b})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 1)
	vEnsures("entry", vKeyI(m, int64(a), b))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_EmptyMapInt64(buf []byte, k uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteAny(map[int64]any{})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 0)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
//verif:bounded one entry
func H_dyn_MapInt(buf []byte, k uint32, a int, b bool) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 20))
	e.WriteAny(map[int]any{a: b})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 1)
	vEnsures("entry", vKeyI(m, int64(a), b))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_EmptyMapInt(buf []byte, k uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteAny(map[int]any{})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 0)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
//verif:bounded one entry
func H_dyn_MapUint8(buf []byte, k uint32, a uint8, b bool) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 20))
	e.WriteAny(map[uint8]any{a: b})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 1)
	vEnsures("entry", vKeyU(m, uint64(a), b))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_EmptyMapUint8(buf []byte, k uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteAny(map[uint8]any{})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 0)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
//verif:bounded one entry
func H_dyn_MapUint16(buf []byte, k uint32, a uint16, b bool) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 20))
	e.WriteAny(map[uint16]any{a: b})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 1)
	vEnsures("entry", vKeyU(m, uint64(a), b))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_EmptyMapUint16(buf []byte, k uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteAny(map[uint16]any{})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 0)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
//verif:bounded one entry
func H_dyn_MapUint32(buf []byte, k uint32, a uint32, b bool) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 20))
	e.WriteAny(map[uint32]any{a: b})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 1)
	vEnsures("entry", vKeyU(m, uint64(a), b))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_EmptyMapUint32(buf []byte, k uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteAny(map[uint32]any{})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 0)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
//verif:bounded one entry
func H_dyn_MapUint64(buf []byte, k uint32, a uint64, b bool) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 20))
	e.WriteAny(map[uint64]any{a: b})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 1)
	vEnsures("entry", vKeyU(m, uint64(a), b))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_EmptyMapUint64(buf []byte, k uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteAny(map[uint64]any{})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 0)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
//verif:bounded one entry
func H_dyn_MapUint(buf []byte, k uint32, a uint, b bool) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 20))
	e.WriteAny(map[uint]any{a: b})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 1)
	vEnsures("entry", vKeyU(m, uint64(a), b))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_EmptyMapUint(buf []byte, k uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteAny(map[uint]any{})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 0)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
//verif:bounded one entry
func H_dyn_MapAny(buf []byte, k uint32, a uint16, b bool) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 20))
	e.WriteAny(map[any]any{a: b})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 1)
	vEnsures("entry", vKeyU(m, uint64(a), b))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_dyn_EmptyMapAny(buf []byte, k uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteAny(map[any]any{})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 0)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

// Values that cannot be encoded are errors, alone and inside lists and maps.
type vNoCodec struct{ a int }

func vUnsupported(value any, buf []byte, k uint32) {
	e := vEncAt(buf, k)
	e.WriteAny(value)
	vCover("written")
	vEnsures("error", e.Err() != nil)
	var s Sizer
	s.WriteAny(value)
	vEnsures("size error", s.Err() != nil)
	_, err := AnyToBytes(value)
	vEnsures("bytes error", err != nil)
}

//verif:prop C12
func H_unsup_Struct(buf []byte, k uint32, a int) {
	vUnsupported(vNoCodec{a}, buf, k)
}

//verif:prop C12
func H_unsup_Pointer(buf []byte, k uint32, a int) {
	vUnsupported(&a, buf, k)
}

//verif:prop C12
func H_unsup_Func(buf []byte, k uint32, a int) {
	vUnsupported(func() {}, buf, k)
}

//verif:prop C12
func H_unsup_Chan(buf []byte, k uint32, a int) {
	vUnsupported(make(chan int), buf, k)
}

//verif:prop C12
func H_unsup_Array(buf []byte, k uint32, a int) {
	vUnsupported([2]int{1, a}, buf, k)
}

//verif:prop C12
func H_unsup_Slice(buf []byte, k uint32, a int) {
	vUnsupported([]vNoCodec{{a}}, buf, k)
}

//verif:prop C12
func H_unsup_Map(buf []byte, k uint32, a int) {
	vUnsupported(map[vNoCodec]any{{a}: a}, buf, k)
}

//verif:prop C12
func H_unsup_InList(buf []byte, k uint32, a int) {
	vUnsupported([]any{a, vNoCodec{a}, a}, buf, k)
}

//verif:prop C12
func H_unsup_InMap(buf []byte, k uint32, a int) {
	vUnsupported(map[string]any{"x": vNoCodec{a}}, buf, k)
}

//verif:prop C12
func H_unsup_Deep(buf []byte, k uint32, a int) {
	vUnsupported([]any{[]any{map[string]any{"x": &a}}}, buf, k)
}

//verif:prop C12
func H_unsup_Uintptr(buf []byte, k uint32, a int) {
	vUnsupported(uintptr(a), buf, k)
}

// A Codec is written by its own Encode, and its errors are not lost.
//
//verif:prop C12
func H_dyn_Codec(buf []byte, k uint32, a int32, fail bool) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	var want error
	if fail {
		want = ErrUnsupported
	}
	e.WriteAny(vCodec{a, want})
	vEnsures("error", (e.Err() != nil) == fail)
	if fail {
		return
	}
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadInt32()
	vEnsures("value", err == nil && got == a)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C12
func H_readany_Str8(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	p := int(k)
	vRequires(p+2 <= len(buf) && buf[p] == 0xd9)
	n := int(vBE(buf, p+1, 1))
	vRequires(n <= len(buf)-p-2)
	got, err := d.ReadAny()
	vCover("read")
	vEnsures("noerror", err == nil && d.Err() == nil)
	g, ok := got.(string)
	vEnsures("value", ok && vEqS(g, buf[p+2:p+2+n]))
	vEnsures("consumed", vDecPos(&d) == p+2+n)
}

//verif:prop C12
func H_readany_Str16(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	p := int(k)
	vRequires(p+3 <= len(buf) && buf[p] == 0xda)
	n := int(vBE(buf, p+1, 2))
	vRequires(n <= len(buf)-p-3)
	got, err := d.ReadAny()
	vCover("read")
	vEnsures("noerror", err == nil && d.Err() == nil)
	g, ok := got.(string)
	vEnsures("value", ok && vEqS(g, buf[p+3:p+3+n]))
	vEnsures("consumed", vDecPos(&d) == p+3+n)
}

//verif:prop C12
func H_readany_Str32(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	p := int(k)
	vRequires(p+5 <= len(buf) && buf[p] == 0xdb)
	n := int(vBE(buf, p+1, 4))
	vRequires(n <= len(buf)-p-5)
	got, err := d.ReadAny()
	vCover("read")
	vEnsures("noerror", err == nil && d.Err() == nil)
	g, ok := got.(string)
	vEnsures("value", ok && vEqS(g, buf[p+5:p+5+n]))
	vEnsures("consumed", vDecPos(&d) == p+5+n)
}

//verif:prop C12
func H_readany_Bin8(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	p := int(k)
	vRequires(p+2 <= len(buf) && buf[p] == 0xc4)
	n := int(vBE(buf, p+1, 1))
	vRequires(n <= len(buf)-p-2)
	got, err := d.ReadAny()
	vCover("read")
	vEnsures("noerror", err == nil && d.Err() == nil)
	g, ok := got.([]byte)
	vEnsures("value", ok && vEq(g, buf[p+2:p+2+n]))
	vEnsures("consumed", vDecPos(&d) == p+2+n)
}

//verif:prop C12
func H_readany_Bin16(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	p := int(k)
	vRequires(p+3 <= len(buf) && buf[p] == 0xc5)
	n := int(vBE(buf, p+1, 2))
	vRequires(n <= len(buf)-p-3)
	got, err := d.ReadAny()
	vCover("read")
	vEnsures("noerror", err == nil && d.Err() == nil)
	g, ok := got.([]byte)
	vEnsures("value", ok && vEq(g, buf[p+3:p+3+n]))
	vEnsures("consumed", vDecPos(&d) == p+3+n)
}

//verif:prop C12
func H_readany_Bin32(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	p := int(k)
	vRequires(p+5 <= len(buf) && buf[p] == 0xc6)
	n := int(vBE(buf, p+1, 4))
	vRequires(n <= len(buf)-p-5)
	got, err := d.ReadAny()
	vCover("read")
	vEnsures("noerror", err == nil && d.Err() == nil)
	g, ok := got.([]byte)
	vEnsures("value", ok && vEq(g, buf[p+5:p+5+n]))
	vEnsures("consumed", vDecPos(&d) == p+5+n)
}

//verif:prop C12
func H_readany_Int8(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	p := int(k)
	vRequires(p+2 <= len(buf) && buf[p] == 0xd0)
	v := vBE(buf, p+1, 1)
	got, err := d.ReadAny()
	vCover("read")
	vEnsures("noerror", err == nil && d.Err() == nil)
	vEnsures("value", vIsInt(got, int64(int8(v))))
	vEnsures("consumed", vDecPos(&d) == p+2)
}

//verif:prop C12
func H_readany_Int16(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	p := int(k)
	vRequires(p+3 <= len(buf) && buf[p] == 0xd1)
	v := vBE(buf, p+1, 2)
	got, err := d.ReadAny()
	vCover("read")
	vEnsures("noerror", err == nil && d.Err() == nil)
	vEnsures("value", vIsInt(got, int64(int16(v))))
	vEnsures("consumed", vDecPos(&d) == p+3)
}

//verif:prop C12
func H_readany_Int32(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	p := int(k)
	vRequires(p+5 <= len(buf) && buf[p] == 0xd2)
	v := vBE(buf, p+1, 4)
	got, err := d.ReadAny()
	vCover("read")
	vEnsures("noerror", err == nil && d.Err() == nil)
	vEnsures("value", vIsInt(got, int64(int32(v))))
	vEnsures("consumed", vDecPos(&d) == p+5)
}

//verif:prop C12
func H_readany_Int64(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	p := int(k)
	vRequires(p+9 <= len(buf) && buf[p] == 0xd3)
	v := vBE(buf, p+1, 8)
	got, err := d.ReadAny()
	vCover("read")
	vEnsures("noerror", err == nil && d.Err() == nil)
	vEnsures("value", vIsInt(got, int64(int64(v))))
	vEnsures("consumed", vDecPos(&d) == p+9)
}

//verif:prop C12
func H_readany_Uint8(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	p := int(k)
	vRequires(p+2 <= len(buf) && buf[p] == 0xcc)
	v := vBE(buf, p+1, 1)
	got, err := d.ReadAny()
	vCover("read")
	vEnsures("noerror", err == nil && d.Err() == nil)
	vEnsures("value", vIsUint(got, v))
	vEnsures("consumed", vDecPos(&d) == p+2)
}

//verif:prop C12
func H_readany_Uint16(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	p := int(k)
	vRequires(p+3 <= len(buf) && buf[p] == 0xcd)
	v := vBE(buf, p+1, 2)
	got, err := d.ReadAny()
	vCover("read")
	vEnsures("noerror", err == nil && d.Err() == nil)
	vEnsures("value", vIsUint(got, v))
	vEnsures("consumed", vDecPos(&d) == p+3)
}

//verif:prop C12
func H_readany_Uint32(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	p := int(k)
	vRequires(p+5 <= len(buf) && buf[p] == 0xce)
	v := vBE(buf, p+1, 4)
	got, err := d.ReadAny()
	vCover("read")
	vEnsures("noerror", err == nil && d.Err() == nil)
	vEnsures("value", vIsUint(got, v))
	vEnsures("consumed", vDecPos(&d) == p+5)
}

//verif:prop C12
func H_readany_Uint64(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	p := int(k)
	vRequires(p+9 <= len(buf) && buf[p] == 0xcf)
	v := vBE(buf, p+1, 8)
	got, err := d.ReadAny()
	vCover("read")
	vEnsures("noerror", err == nil && d.Err() == nil)
	vEnsures("value", vIsUint(got, v))
	vEnsures("consumed", vDecPos(&d) == p+9)
}

//verif:prop C12
func H_readany_Float32(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	p := int(k)
	vRequires(p+5 <= len(buf) && buf[p] == 0xca)
	got, err := d.ReadAny()
	vCover("read")
	vEnsures("noerror", err == nil && d.Err() == nil)
	g, ok := got.(float32)
	vEnsures("value", ok && uint64(math.Float32bits(g)) == vBE(buf, p+1, 4))
	vEnsures("consumed", vDecPos(&d) == p+5)
}

//verif:prop C12
func H_readany_Float64(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	p := int(k)
	vRequires(p+9 <= len(buf) && buf[p] == 0xcb)
	got, err := d.ReadAny()
	vCover("read")
	vEnsures("noerror", err == nil && d.Err() == nil)
	g, ok := got.(float64)
	vEnsures("value", ok && math.Float64bits(g) == vBE(buf, p+1, 8))
	vEnsures("consumed", vDecPos(&d) == p+9)
}

//verif:prop C12
//verif:bounded at most three elements
func H_readany_Array16(buf []byte, k uint32, n int) {
	d := vDecAt(buf, k)
	p := int(k)
	vRequires(n >= 0 && n <= 3 && p+3+n <= len(buf) && buf[p] == 0xdc && int(vBE(buf, p+1, 2)) == n)
	e := buf[p+3:]
	vRequires((n < 1 || e[0] <= 0x7f) && (n < 2 || e[1] <= 0x7f) && (n < 3 || e[2] <= 0x7f))
	got, err := d.ReadAny()
	vCover("read")
	vEnsures("noerror", err == nil && d.Err() == nil)
	l, ok := vIsList(got, n)
	vEnsures("list", ok)
	vEnsures("elements", (n < 1 || vIsInt(l[0], int64(e[0]))) && (n < 2 || vIsInt(l[1], int64(e[1]))) && (n < 3 || vIsInt(l[2], int64(e[2]))))
	vEnsures("consumed", vDecPos(&d) == p+3+n)
}

//verif:prop C12
//verif:bounded at most three elements
func H_readany_Array32(buf []byte, k uint32, n int) {
	d := vDecAt(buf, k)
	p := int(k)
	vRequires(n >= 0 && n <= 3 && p+5+n <= len(buf) && buf[p] == 0xdd && int(vBE(buf, p+1, 4)) == n)
	e := buf[p+5:]
	vRequires((n < 1 || e[0] <= 0x7f) && (n < 2 || e[1] <= 0x7f) && (n < 3 || e[2] <= 0x7f))
	got, err := d.ReadAny()
	vCover("read")
	vEnsures("noerror", err == nil && d.Err() == nil)
	l, ok := vIsList(got, n)
	vEnsures("list", ok)
	vEnsures("elements", (n < 1 || vIsInt(l[0], int64(e[0]))) && (n < 2 || vIsInt(l[1], int64(e[1]))) && (n < 3 || vIsInt(l[2], int64(e[2]))))
	vEnsures("consumed", vDecPos(&d) == p+5+n)
}

//verif:prop C12
//verif:bounded one entry
func H_readany_Map16(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	p := int(k)
	vRequires(p+3+2 <= len(buf) && buf[p] == 0xde && int(vBE(buf, p+1, 2)) == 1)
	e := buf[p+3:]
	vRequires(e[0] <= 0x7f && (e[1] == 0xc2 || e[1] == 0xc3))
	got, err := d.ReadAny()
	vCover("read")
	vEnsures("noerror", err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 1)
	vEnsures("entry", vKeyI(m, int64(e[0]), e[1] == 0xc3))
	vEnsures("consumed", vDecPos(&d) == p+3+2)
}

//verif:prop C12
//verif:bounded one entry
func H_readany_Map32(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	p := int(k)
	vRequires(p+5+2 <= len(buf) && buf[p] == 0xdf && int(vBE(buf, p+1, 4)) == 1)
	e := buf[p+5:]
	vRequires(e[0] <= 0x7f && (e[1] == 0xc2 || e[1] == 0xc3))
	got, err := d.ReadAny()
	vCover("read")
	vEnsures("noerror", err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 1)
	vEnsures("entry", vKeyI(m, int64(e[0]), e[1] == 0xc3))
	vEnsures("consumed", vDecPos(&d) == p+5+2)
}
