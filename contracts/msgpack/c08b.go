//verif:pkg msgpack
package msgpack

// Generated by tools/gen_c12.py: what the ToBytes functions make is exactly the encoding.

import (
	"math"
	"time"
)

//verif:prop C08
func H_bytes_AnyNil() {
	enc, berr := AnyToBytes(nil)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", got == nil)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyBool(v bool) {
	enc, berr := AnyToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", vIsBool(got, v))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyInt8(v int8) {
	enc, berr := AnyToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", vIsInt(got, int64(v)))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyInt16(v int16) {
	enc, berr := AnyToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", vIsInt(got, int64(v)))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyInt32(v int32) {
	enc, berr := AnyToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", vIsInt(got, int64(v)))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyInt64(v int64) {
	enc, berr := AnyToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", vIsInt(got, int64(v)))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyInt(v int) {
	enc, berr := AnyToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", vIsInt(got, int64(v)))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyUint8(v uint8) {
	enc, berr := AnyToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", vIsUint(got, uint64(v)))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyUint16(v uint16) {
	enc, berr := AnyToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", vIsUint(got, uint64(v)))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyUint32(v uint32) {
	enc, berr := AnyToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", vIsUint(got, uint64(v)))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyUint64(v uint64) {
	enc, berr := AnyToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", vIsUint(got, uint64(v)))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyUint(v uint) {
	enc, berr := AnyToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", vIsUint(got, uint64(v)))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyFloat32(v float32) {
	enc, berr := AnyToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", vIsFloat32(got, v))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyFloat64(v float64) {
	enc, berr := AnyToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", vIsFloat64(got, v))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyString(v string) {
	vRequires(len(v) <= math.MaxUint32-16)
	enc, berr := AnyToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", vIsString(got, v))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyByteArray(v []byte) {
	vRequires(len(v) <= math.MaxUint32-16)
	enc, berr := AnyToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", vIsBytes(got, v))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyTime(sec, nsec int64) {
	vRequires(nsec >= 0 && nsec < 1000000000)
	v := time.Unix(sec, nsec)
	enc, berr := AnyToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", vIsTime(got, v))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded two elements
func H_bytes_AnySliceTime(s1, n1, s2, n2 int64) {
	vRequires(n1 >= 0 && n1 < 1000000000 && n2 >= 0 && n2 < 1000000000)
	a, b := time.Unix(s1, n1), time.Unix(s2, n2)
	enc, berr := AnyToBytes([]time.Time{a, b})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	l, ok := vIsList(got, 2)
	vEnsures("list", ok)
	vEnsures("first", vIsTime(l[0], a))
	vEnsures("second", vIsTime(l[1], b))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyEmptyTime() {
	enc, berr := AnyToBytes([]time.Time{})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	_, ok := vIsList(got, 0)
	vEnsures("list", ok)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded twenty elements
func H_bytes_AnySlice20(a bool) {
	enc, berr := AnyToBytes(make20(a))
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	l, ok := vIsList(got, 20)
	vEnsures("list", ok)
	vEnsures("first", l[0] == nil)
	vEnsures("last", vIsBool(l[19], a))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded two elements, strings of at most 40 bytes
func H_bytes_AnySliceString(a, b string) {
	vRequires(len(a) <= 40 && len(b) <= 40)
	enc, berr := AnyToBytes([]string{a, b})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	l, ok := vIsList(got, 2)
	vEnsures("list", ok)
	vEnsures("first", vIsString(l[0], a))
	vEnsures("second", vIsString(l[1], b))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyEmptyString() {
	enc, berr := AnyToBytes([]string{})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	_, ok := vIsList(got, 0)
	vEnsures("list", ok)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded two elements
func H_bytes_AnySliceBool(a, b bool) {
	enc, berr := AnyToBytes([]bool{a, b})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	l, ok := vIsList(got, 2)
	vEnsures("list", ok)
	vEnsures("first", vIsBool(l[0], a))
	vEnsures("second", vIsBool(l[1], b))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyEmptyBool() {
	enc, berr := AnyToBytes([]bool{})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	_, ok := vIsList(got, 0)
	vEnsures("list", ok)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded two elements
func H_bytes_AnySliceInt(a, b int) {
	enc, berr := AnyToBytes([]int{a, b})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	l, ok := vIsList(got, 2)
	vEnsures("list", ok)
	vEnsures("first", vIsInt(l[0], int64(a)))
	vEnsures("second", vIsInt(l[1], int64(b)))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyEmptyInt() {
	enc, berr := AnyToBytes([]int{})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	_, ok := vIsList(got, 0)
	vEnsures("list", ok)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded two elements
func H_bytes_AnySliceInt8(a, b int8) {
	enc, berr := AnyToBytes([]int8{a, b})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	l, ok := vIsList(got, 2)
	vEnsures("list", ok)
	vEnsures("first", vIsInt(l[0], int64(a)))
	vEnsures("second", vIsInt(l[1], int64(b)))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyEmptyInt8() {
	enc, berr := AnyToBytes([]int8{})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	_, ok := vIsList(got, 0)
	vEnsures("list", ok)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded two elements
func H_bytes_AnySliceInt16(a, b int16) {
	enc, berr := AnyToBytes([]int16{a, b})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	l, ok := vIsList(got, 2)
	vEnsures("list", ok)
	vEnsures("first", vIsInt(l[0], int64(a)))
	vEnsures("second", vIsInt(l[1], int64(b)))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyEmptyInt16() {
	enc, berr := AnyToBytes([]int16{})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	_, ok := vIsList(got, 0)
	vEnsures("list", ok)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded two elements
func H_bytes_AnySliceInt32(a, b int32) {
	enc, berr := AnyToBytes([]int32{a, b})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	l, ok := vIsList(got, 2)
	vEnsures("list", ok)
	vEnsures("first", vIsInt(l[0], int64(a)))
	vEnsures("second", vIsInt(l[1], int64(b)))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyEmptyInt32() {
	enc, berr := AnyToBytes([]int32{})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	_, ok := vIsList(got, 0)
	vEnsures("list", ok)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded two elements
func H_bytes_AnySliceInt64(a, b int64) {
	enc, berr := AnyToBytes([]int64{a, b})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	l, ok := vIsList(got, 2)
	vEnsures("list", ok)
	vEnsures("first", vIsInt(l[0], int64(a)))
	vEnsures("second", vIsInt(l[1], int64(b)))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyEmptyInt64() {
	enc, berr := AnyToBytes([]int64{})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	_, ok := vIsList(got, 0)
	vEnsures("list", ok)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded two elements
func H_bytes_AnySliceUint(a, b uint) {
	enc, berr := AnyToBytes([]uint{a, b})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	l, ok := vIsList(got, 2)
	vEnsures("list", ok)
	vEnsures("first", vIsUint(l[0], uint64(a)))
	vEnsures("second", vIsUint(l[1], uint64(b)))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyEmptyUint() {
	enc, berr := AnyToBytes([]uint{})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	_, ok := vIsList(got, 0)
	vEnsures("list", ok)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded two elements
func H_bytes_AnySliceUint16(a, b uint16) {
	enc, berr := AnyToBytes([]uint16{a, b})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	l, ok := vIsList(got, 2)
	vEnsures("list", ok)
	vEnsures("first", vIsUint(l[0], uint64(a)))
	vEnsures("second", vIsUint(l[1], uint64(b)))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyEmptyUint16() {
	enc, berr := AnyToBytes([]uint16{})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	_, ok := vIsList(got, 0)
	vEnsures("list", ok)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded two elements
func H_bytes_AnySliceUint32(a, b uint32) {
	enc, berr := AnyToBytes([]uint32{a, b})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	l, ok := vIsList(got, 2)
	vEnsures("list", ok)
	vEnsures("first", vIsUint(l[0], uint64(a)))
	vEnsures("second", vIsUint(l[1], uint64(b)))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyEmptyUint32() {
	enc, berr := AnyToBytes([]uint32{})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	_, ok := vIsList(got, 0)
	vEnsures("list", ok)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded two elements
func H_bytes_AnySliceUint64(a, b uint64) {
	enc, berr := AnyToBytes([]uint64{a, b})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	l, ok := vIsList(got, 2)
	vEnsures("list", ok)
	vEnsures("first", vIsUint(l[0], uint64(a)))
	vEnsures("second", vIsUint(l[1], uint64(b)))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyEmptyUint64() {
	enc, berr := AnyToBytes([]uint64{})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	_, ok := vIsList(got, 0)
	vEnsures("list", ok)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded one nested list
func H_bytes_AnySliceAny(a int32, b bool, c float64) {
	enc, berr := AnyToBytes([]any{a, []any{b, nil}, c})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	l, ok := vIsList(got, 3)
	vEnsures("list", ok)
	vEnsures("first", vIsInt(l[0], int64(a)))
	m, ok := vIsList(l[1], 2)
	vEnsures("inner list", ok)
	vEnsures("inner", vIsBool(m[0], b) && m[1] == nil)
	vEnsures("third", vIsFloat64(l[2], c))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded one entry of short strings
func H_bytes_AnyMapStringString(a, b string) {
	vRequires(len(a) <= 10 && len(b) <= 10)
	enc, berr := AnyToBytes(map[string]string{a: b})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 1)
	vEnsures("value", vIsString(m[a], b))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded two entries
func H_bytes_AnyMapStringAny(a int32, b bool) {
	enc, berr := AnyToBytes(map[string]any{"x": a, "yy": []any{b}})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 2)
	vEnsures("value", vIsInt(m["x"], int64(a)))
	l, ok := vIsList(m["yy"], 1)
	vEnsures("list", ok)
	vEnsures("inner", vIsBool(l[0], b))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded one entry
func H_bytes_AnyMapInt8(a int8, b bool) {
	enc, berr := AnyToBytes(map[int8]any{a: b})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 1)
	vEnsures("entry", vKeyI(m, int64(a), b))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyEmptyMapInt8() {
	enc, berr := AnyToBytes(map[int8]any{})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 0)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded one entry
func H_bytes_AnyMapInt16(a int16, b bool) {
	enc, berr := AnyToBytes(map[int16]any{a: b})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 1)
	vEnsures("entry", vKeyI(m, int64(a), b))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyEmptyMapInt16() {
	enc, berr := AnyToBytes(map[int16]any{})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 0)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded one entry
func H_bytes_AnyMapInt32(a int32, b bool) {
	enc, berr := AnyToBytes(map[int32]any{a: b})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 1)
	vEnsures("entry", vKeyI(m, int64(a), b))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyEmptyMapInt32() {
	enc, berr := AnyToBytes(map[int32]any{})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 0)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded one entry
func H_bytes_AnyMapInt64(a int64, b bool) {
	enc, berr := AnyToBytes(map[int64]any{a: b})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 1)
	vEnsures("entry", vKeyI(m, int64(a), b))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyEmptyMapInt64() {
	enc, berr := AnyToBytes(map[int64]any{})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 0)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded one entry
func H_bytes_AnyMapInt(a int, b bool) {
	enc, berr := AnyToBytes(map[int]any{a: b})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 1)
	vEnsures("entry", vKeyI(m, int64(a), b))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyEmptyMapInt() {
	enc, berr := AnyToBytes(map[int]any{})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 0)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded one entry
func H_bytes_AnyMapUint8(a uint8, b bool) {
	enc, berr := AnyToBytes(map[uint8]any{a: b})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 1)
	vEnsures("entry", vKeyU(m, uint64(a), b))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyEmptyMapUint8() {
	enc, berr := AnyToBytes(map[uint8]any{})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 0)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded one entry
func H_bytes_AnyMapUint16(a uint16, b bool) {
	enc, berr := AnyToBytes(map[uint16]any{a: b})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 1)
	vEnsures("entry", vKeyU(m, uint64(a), b))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyEmptyMapUint16() {
	enc, berr := AnyToBytes(map[uint16]any{})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 0)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded one entry
func H_bytes_AnyMapUint32(a uint32, b bool) {
	enc, berr := AnyToBytes(map[uint32]any{a: b})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 1)
	vEnsures("entry", vKeyU(m, uint64(a), b))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyEmptyMapUint32() {
	enc, berr := AnyToBytes(map[uint32]any{})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 0)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded one entry
func H_bytes_AnyMapUint64(a uint64, b bool) {
	enc, berr := AnyToBytes(map[uint64]any{a: b})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 1)
	vEnsures("entry", vKeyU(m, uint64(a), b))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyEmptyMapUint64() {
	enc, berr := AnyToBytes(map[uint64]any{})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 0)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded one entry
func H_bytes_AnyMapUint(a uint, b bool) {
	enc, berr := AnyToBytes(map[uint]any{a: b})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 1)
	vEnsures("entry", vKeyU(m, uint64(a), b))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyEmptyMapUint() {
	enc, berr := AnyToBytes(map[uint]any{})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 0)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded one entry
func H_bytes_AnyMapAny(a uint16, b bool) {
	enc, berr := AnyToBytes(map[any]any{a: b})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 1)
	vEnsures("entry", vKeyU(m, uint64(a), b))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_AnyEmptyMapAny() {
	enc, berr := AnyToBytes(map[any]any{})
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadAny()
	vEnsures("readable", err == nil && d.Err() == nil)
	m, ok := got.(map[any]any)
	vEnsures("map", ok && len(m) == 0)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_I8(v int8) {
	enc, berr := I8ToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadInt8()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", got == v)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_I16(v int16) {
	enc, berr := I16ToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadInt16()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", got == v)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_I32(v int32) {
	enc, berr := I32ToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadInt32()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", got == v)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_I64(v int64) {
	enc, berr := I64ToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadInt64()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", got == v)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_U8(v uint8) {
	enc, berr := U8ToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadUint8()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", got == v)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_U16(v uint16) {
	enc, berr := U16ToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadUint16()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", got == v)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_U32(v uint32) {
	enc, berr := U32ToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadUint32()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", got == v)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_U64(v uint64) {
	enc, berr := U64ToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadUint64()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", got == v)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_Bool(v bool) {
	enc, berr := BoolToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadBool()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", got == v)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_F32(v float32) {
	enc, berr := F32ToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadFloat32()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", math.Float32bits(got) == math.Float32bits(v))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_F64(v float64) {
	enc, berr := F64ToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadFloat64()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", math.Float64bits(got) == math.Float64bits(v))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_String(v string) {
	vRequires(len(v) <= math.MaxUint32-16)
	enc, berr := StringToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadString()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", got == v)
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_Bytes(v []byte) {
	vRequires(len(v) <= math.MaxUint32-16)
	enc, berr := BytesToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadByteArray()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", vEq(got, v))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_Time(sec, nsec int64) {
	vRequires(nsec >= 0 && nsec < 1000000000)
	v := time.Unix(sec, nsec)
	enc, berr := TimeToBytes(v)
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := d.ReadTime()
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("value", got.Equal(v))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded at most two elements
func H_bytes_SliceBool(x, y bool, n int) {
	vRequires(n >= 0 && n <= 2)
	v := []bool{}
	if n > 0 {
		v = append(v, x)
	}
	if n > 1 {
		v = append(v, y)
	}
	enc, berr := SliceToBytes(v, func(w Writer, e bool) { w.WriteBool(e) })
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := ReadSlice(Reader(&d), func(r Reader) (bool, error) { return r.ReadBool() })
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("length", len(got) == n)
	vEnsures("elements", (n < 1 || got[0] == x) && (n < 2 || got[1] == y))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded at most two elements
func H_bytes_SliceInt32(x, y int32, n int) {
	vRequires(n >= 0 && n <= 2)
	v := []int32{}
	if n > 0 {
		v = append(v, x)
	}
	if n > 1 {
		v = append(v, y)
	}
	enc, berr := SliceToBytes(v, func(w Writer, e int32) { w.WriteInt32(e) })
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := ReadSlice(Reader(&d), func(r Reader) (int32, error) { return r.ReadInt32() })
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("length", len(got) == n)
	vEnsures("elements", (n < 1 || got[0] == x) && (n < 2 || got[1] == y))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded at most two elements
func H_bytes_SliceString(x, y string, n int) {
	vRequires(n >= 0 && n <= 2)
	vRequires(len(x) <= 40 && len(y) <= 40)
	v := []string{}
	if n > 0 {
		v = append(v, x)
	}
	if n > 1 {
		v = append(v, y)
	}
	enc, berr := SliceToBytes(v, func(w Writer, e string) { w.WriteString(e) })
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := ReadSlice(Reader(&d), func(r Reader) (string, error) { return r.ReadString() })
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("length", len(got) == n)
	vEnsures("elements", (n < 1 || got[0] == x) && (n < 2 || got[1] == y))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
//verif:bounded at most two entries
func H_bytes_Map(a uint16, b bool, c uint16, e bool, n int) {
	vRequires(n >= 0 && n <= 2 && a != c)
	v := map[uint16]bool{}
	if n > 0 {
		v[a] = b
	}
	if n > 1 {
		v[c] = e
	}
	enc, berr := MapToBytes(v, func(w Writer, e uint16) { w.WriteUint16(e) }, func(w Writer, e bool) { w.WriteBool(e) })
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := ReadMap(Reader(&d), func(r Reader) (uint16, error) { return r.ReadUint16() }, func(r Reader) (bool, error) { return r.ReadBool() })
	vEnsures("readable", err == nil && d.Err() == nil)
	vEnsures("length", len(got) == n)
	vEnsures("entries", (n < 1 || got[a] == b) && (n < 2 || got[c] == e))
	vEnsures("exact size", vDecPos(&d) == len(enc))
}

//verif:prop C08
func H_bytes_Codec(a int32, fail bool) {
	var want error
	if fail {
		want = ErrUnsupported
	}
	b, err := ToBytes(vCodec{a, want})
	vEnsures("error", (err != nil) == fail)
	if fail {
		return
	}
	d := NewDecoder(b)
	got, derr := d.ReadInt32()
	vEnsures("value", derr == nil && got == a)
	vEnsures("exact size", vDecPos(&d) == len(b))
}
