//verif:pkg transform
package transform

import (
	"errors"
	"math"
	"time"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/payload"
)

//verif:prop C35
func H_Int(v int) {
	p, err := Int.Encode(v)
	vEnsures("encodes", err == nil && p != nil && len(p.Metadata()) == 0)
	w, err := Int.Decode(p)
	vEnsures("round trip", err == nil && w == v)
}

// Payloads decode like the value they start with, or to an error.
//
//verif:prop C35
func H_IntPayload(raw []byte) {
	vRequires(len(raw) <= 1<<31)
	d := msgpack.NewDecoder(raw)
	v, want := d.ReadInt64()
	w, err := Int.Decode(payload.New(raw))
	vEnsures("error", (err == nil) == (want == nil))
	vEnsures("value", err != nil || w == int(v))
	vEnsures("empty", len(raw) > 0 || err != nil)
}

//verif:prop C35
func H_Int64(v int64) {
	p, err := Int64.Encode(v)
	vEnsures("encodes", err == nil && p != nil && len(p.Metadata()) == 0)
	w, err := Int64.Decode(p)
	vEnsures("round trip", err == nil && w == v)
}

// Payloads decode like the value they start with, or to an error.
//
//verif:prop C35
func H_Int64Payload(raw []byte) {
	vRequires(len(raw) <= 1<<31)
	d := msgpack.NewDecoder(raw)
	v, want := d.ReadInt64()
	w, err := Int64.Decode(payload.New(raw))
	vEnsures("error", (err == nil) == (want == nil))
	vEnsures("value", err != nil || w == int64(v))
	vEnsures("empty", len(raw) > 0 || err != nil)
}

//verif:prop C35
func H_Int32(v int32) {
	p, err := Int32.Encode(v)
	vEnsures("encodes", err == nil && p != nil && len(p.Metadata()) == 0)
	w, err := Int32.Decode(p)
	vEnsures("round trip", err == nil && w == v)
}

// Payloads decode like the value they start with, or to an error.
//
//verif:prop C35
func H_Int32Payload(raw []byte) {
	vRequires(len(raw) <= 1<<31)
	d := msgpack.NewDecoder(raw)
	v, want := d.ReadInt32()
	w, err := Int32.Decode(payload.New(raw))
	vEnsures("error", (err == nil) == (want == nil))
	vEnsures("value", err != nil || w == int32(v))
	vEnsures("empty", len(raw) > 0 || err != nil)
}

//verif:prop C35
func H_Int16(v int16) {
	p, err := Int16.Encode(v)
	vEnsures("encodes", err == nil && p != nil && len(p.Metadata()) == 0)
	w, err := Int16.Decode(p)
	vEnsures("round trip", err == nil && w == v)
}

// Payloads decode like the value they start with, or to an error.
//
//verif:prop C35
func H_Int16Payload(raw []byte) {
	vRequires(len(raw) <= 1<<31)
	d := msgpack.NewDecoder(raw)
	v, want := d.ReadInt16()
	w, err := Int16.Decode(payload.New(raw))
	vEnsures("error", (err == nil) == (want == nil))
	vEnsures("value", err != nil || w == int16(v))
	vEnsures("empty", len(raw) > 0 || err != nil)
}

//verif:prop C35
func H_Int8(v int8) {
	p, err := Int8.Encode(v)
	vEnsures("encodes", err == nil && p != nil && len(p.Metadata()) == 0)
	w, err := Int8.Decode(p)
	vEnsures("round trip", err == nil && w == v)
}

// Payloads decode like the value they start with, or to an error.
//
//verif:prop C35
func H_Int8Payload(raw []byte) {
	vRequires(len(raw) <= 1<<31)
	d := msgpack.NewDecoder(raw)
	v, want := d.ReadInt8()
	w, err := Int8.Decode(payload.New(raw))
	vEnsures("error", (err == nil) == (want == nil))
	vEnsures("value", err != nil || w == int8(v))
	vEnsures("empty", len(raw) > 0 || err != nil)
}

//verif:prop C35
func H_Uint(v uint) {
	p, err := Uint.Encode(v)
	vEnsures("encodes", err == nil && p != nil && len(p.Metadata()) == 0)
	w, err := Uint.Decode(p)
	vEnsures("round trip", err == nil && w == v)
}

// Payloads decode like the value they start with, or to an error.
//
//verif:prop C35
func H_UintPayload(raw []byte) {
	vRequires(len(raw) <= 1<<31)
	d := msgpack.NewDecoder(raw)
	v, want := d.ReadUint64()
	w, err := Uint.Decode(payload.New(raw))
	vEnsures("error", (err == nil) == (want == nil))
	vEnsures("value", err != nil || w == uint(v))
	vEnsures("empty", len(raw) > 0 || err != nil)
}

//verif:prop C35
func H_Uint64(v uint64) {
	p, err := Uint64.Encode(v)
	vEnsures("encodes", err == nil && p != nil && len(p.Metadata()) == 0)
	w, err := Uint64.Decode(p)
	vEnsures("round trip", err == nil && w == v)
}

// Payloads decode like the value they start with, or to an error.
//
//verif:prop C35
func H_Uint64Payload(raw []byte) {
	vRequires(len(raw) <= 1<<31)
	d := msgpack.NewDecoder(raw)
	v, want := d.ReadUint64()
	w, err := Uint64.Decode(payload.New(raw))
	vEnsures("error", (err == nil) == (want == nil))
	vEnsures("value", err != nil || w == uint64(v))
	vEnsures("empty", len(raw) > 0 || err != nil)
}

//verif:prop C35
func H_Uint32(v uint32) {
	p, err := Uint32.Encode(v)
	vEnsures("encodes", err == nil && p != nil && len(p.Metadata()) == 0)
	w, err := Uint32.Decode(p)
	vEnsures("round trip", err == nil && w == v)
}

// Payloads decode like the value they start with, or to an error.
//
//verif:prop C35
func H_Uint32Payload(raw []byte) {
	vRequires(len(raw) <= 1<<31)
	d := msgpack.NewDecoder(raw)
	v, want := d.ReadUint32()
	w, err := Uint32.Decode(payload.New(raw))
	vEnsures("error", (err == nil) == (want == nil))
	vEnsures("value", err != nil || w == uint32(v))
	vEnsures("empty", len(raw) > 0 || err != nil)
}

//verif:prop C35
func H_Uint16(v uint16) {
	p, err := Uint16.Encode(v)
	vEnsures("encodes", err == nil && p != nil && len(p.Metadata()) == 0)
	w, err := Uint16.Decode(p)
	vEnsures("round trip", err == nil && w == v)
}

// Payloads decode like the value they start with, or to an error.
//
//verif:prop C35
func H_Uint16Payload(raw []byte) {
	vRequires(len(raw) <= 1<<31)
	d := msgpack.NewDecoder(raw)
	v, want := d.ReadUint16()
	w, err := Uint16.Decode(payload.New(raw))
	vEnsures("error", (err == nil) == (want == nil))
	vEnsures("value", err != nil || w == uint16(v))
	vEnsures("empty", len(raw) > 0 || err != nil)
}

//verif:prop C35
func H_Uint8(v uint8) {
	p, err := Uint8.Encode(v)
	vEnsures("encodes", err == nil && p != nil && len(p.Metadata()) == 0)
	w, err := Uint8.Decode(p)
	vEnsures("round trip", err == nil && w == v)
}

// Payloads decode like the value they start with, or to an error.
//
//verif:prop C35
func H_Uint8Payload(raw []byte) {
	vRequires(len(raw) <= 1<<31)
	d := msgpack.NewDecoder(raw)
	v, want := d.ReadUint8()
	w, err := Uint8.Decode(payload.New(raw))
	vEnsures("error", (err == nil) == (want == nil))
	vEnsures("value", err != nil || w == uint8(v))
	vEnsures("empty", len(raw) > 0 || err != nil)
}

//verif:prop C35
func H_Bool(v bool) {
	p, err := Bool.Encode(v)
	vEnsures("encodes", err == nil && p != nil && len(p.Metadata()) == 0)
	w, err := Bool.Decode(p)
	vEnsures("round trip", err == nil && w == v)
}

// Payloads decode like the value they start with, or to an error.
//
//verif:prop C35
func H_BoolPayload(raw []byte) {
	vRequires(len(raw) <= 1<<31)
	d := msgpack.NewDecoder(raw)
	v, want := d.ReadBool()
	w, err := Bool.Decode(payload.New(raw))
	vEnsures("error", (err == nil) == (want == nil))
	vEnsures("value", err != nil || w == bool(v))
	vEnsures("empty", len(raw) > 0 || err != nil)
}

//verif:prop C35
func H_Float64(v float64) {
	p, err := Float64.Encode(v)
	vEnsures("encodes", err == nil && p != nil && len(p.Metadata()) == 0)
	w, err := Float64.Decode(p)
	vEnsures("round trip", err == nil && math.Float64bits(w) == math.Float64bits(v))
}

//verif:prop C35
func H_Float64Payload(raw []byte) {
	vRequires(len(raw) <= 1<<31)
	d := msgpack.NewDecoder(raw)
	v, want := d.ReadFloat64()
	w, err := Float64.Decode(payload.New(raw))
	vEnsures("error", (err == nil) == (want == nil))
	vEnsures("value", err != nil || math.Float64bits(w) == math.Float64bits(v))
	vEnsures("empty", len(raw) > 0 || err != nil)
}

//verif:prop C35
func H_Float32(v float32) {
	p, err := Float32.Encode(v)
	vEnsures("encodes", err == nil && p != nil && len(p.Metadata()) == 0)
	w, err := Float32.Decode(p)
	vEnsures("round trip", err == nil && math.Float32bits(w) == math.Float32bits(v))
}

//verif:prop C35
func H_Float32Payload(raw []byte) {
	vRequires(len(raw) <= 1<<31)
	d := msgpack.NewDecoder(raw)
	v, want := d.ReadFloat32()
	w, err := Float32.Decode(payload.New(raw))
	vEnsures("error", (err == nil) == (want == nil))
	vEnsures("value", err != nil || math.Float32bits(w) == math.Float32bits(v))
	vEnsures("empty", len(raw) > 0 || err != nil)
}

type vInt32 int32

//verif:prop C35
func H_Int32Of(v vInt32) {
	p, err := Int32Encode(v)
	vEnsures("encodes", err == nil && p != nil && len(p.Metadata()) == 0)
	w, err := Int32Decode[vInt32](p)
	vEnsures("round trip", err == nil && w == v)
}

//verif:prop C35
func H_Int32OfPayload(raw []byte) {
	vRequires(len(raw) <= 1<<31)
	d := msgpack.NewDecoder(raw)
	v, want := d.ReadInt32()
	w, err := Int32Decode[vInt32](payload.New(raw))
	vEnsures("error", (err == nil) == (want == nil))
	vEnsures("value", err != nil || w == vInt32(v))
}

type vInt64 int64

//verif:prop C35
func H_Int64Of(v vInt64) {
	p, err := Int64Encode(v)
	vEnsures("encodes", err == nil && p != nil && len(p.Metadata()) == 0)
	w, err := Int64Decode[vInt64](p)
	vEnsures("round trip", err == nil && w == v)
}

//verif:prop C35
func H_Int64OfPayload(raw []byte) {
	vRequires(len(raw) <= 1<<31)
	d := msgpack.NewDecoder(raw)
	v, want := d.ReadInt64()
	w, err := Int64Decode[vInt64](payload.New(raw))
	vEnsures("error", (err == nil) == (want == nil))
	vEnsures("value", err != nil || w == vInt64(v))
}

type vUint64 uint64

//verif:prop C35
func H_Uint64Of(v vUint64) {
	p, err := Uint64Encode(v)
	vEnsures("encodes", err == nil && p != nil && len(p.Metadata()) == 0)
	w, err := Uint64Decode[vUint64](p)
	vEnsures("round trip", err == nil && w == v)
}

//verif:prop C35
func H_Uint64OfPayload(raw []byte) {
	vRequires(len(raw) <= 1<<31)
	d := msgpack.NewDecoder(raw)
	v, want := d.ReadUint64()
	w, err := Uint64Decode[vUint64](payload.New(raw))
	vEnsures("error", (err == nil) == (want == nil))
	vEnsures("value", err != nil || w == vUint64(v))
}

type vFloat64 float64

//verif:prop C35
func H_Float64Of(v vFloat64) {
	p, err := Float64Encode(v)
	vEnsures("encodes", err == nil && p != nil && len(p.Metadata()) == 0)
	w, err := Float64Decode[vFloat64](p)
	vEnsures("round trip", err == nil && math.Float64bits(float64(w)) == math.Float64bits(float64(v)))
}

type vFloat32 float32

//verif:prop C35
func H_Float32Of(v vFloat32) {
	p, err := Float32Encode(v)
	vEnsures("encodes", err == nil && p != nil && len(p.Metadata()) == 0)
	w, err := Float32Decode[vFloat32](p)
	vEnsures("round trip", err == nil && math.Float32bits(float32(w)) == math.Float32bits(float32(v)))
}

type vString string

//verif:prop C35
func H_String(v string) {
	vRequires(len(v) <= 1<<30)
	p, err := String.Encode(v)
	vEnsures("encodes", err == nil && p != nil && len(p.Metadata()) == 0)
	w, err := String.Decode(p)
	vEnsures("round trip", err == nil && w == v)
}

//verif:prop C35
func H_StringOf(v vString) {
	vRequires(len(v) <= 1<<30)
	p, err := StringEncode(v)
	vEnsures("encodes", err == nil && p != nil && len(p.Metadata()) == 0)
	w, err := StringDecode[vString](p)
	vEnsures("round trip", err == nil && w == v)
}

//verif:prop C35
func H_StringPayload(raw []byte) {
	vRequires(len(raw) <= 1<<31)
	d := msgpack.NewDecoder(raw)
	v, want := d.ReadString()
	w, err := String.Decode(payload.New(raw))
	vEnsures("error", (err == nil) == (want == nil))
	vEnsures("value", err != nil || w == v)
	x, err := StringDecode[vString](payload.New(raw))
	vEnsures("error", (err == nil) == (want == nil))
	vEnsures("value", err != nil || string(x) == v)
}

//verif:prop C35
func H_Bytes(v []byte) {
	vRequires(len(v) <= 1<<30)
	was := vSnap(v)
	p, err := Bytes.Encode(v)
	vEnsures("encodes", err == nil && p != nil && len(p.Metadata()) == 0)
	w, err := Bytes.Decode(p)
	vEnsures("round trip", err == nil && vEqS(was, w))
}

//verif:prop C35
func H_BytesPayload(raw []byte) {
	vRequires(len(raw) <= 1<<31)
	d := msgpack.NewDecoder(raw)
	v, want := d.ReadByteArray()
	w, err := Bytes.Decode(payload.New(raw))
	vEnsures("error", (err == nil) == (want == nil))
	vEnsures("value", err != nil || vEq(w, v))
}

// What time.Parse makes of the text of a time is what is decoded.
//
//verif:prop C35
func H_Time(v time.Time) {
	text := v.Format(time.RFC3339Nano)
	vRequires(len(text) <= 1<<30)
	want, perr := time.Parse(time.RFC3339Nano, text)
	p, err := Time.Encode(v)
	vEnsures("encodes", err == nil && p != nil && len(p.Metadata()) == 0)
	d := msgpack.NewDecoder(p.Data())
	s, err := d.ReadString()
	vEnsures("text", err == nil && s == text)
	w, err := Time.Decode(p)
	vEnsures("round trip", (err == nil) == (perr == nil) && (err != nil || w == want))
}

//verif:prop C35
func H_TimePayload(raw []byte) {
	vRequires(len(raw) <= 1<<31)
	d := msgpack.NewDecoder(raw)
	v, err := d.ReadString()
	var want time.Time
	if err == nil {
		want, err = time.Parse(time.RFC3339Nano, v)
	}
	w, got := Time.Decode(payload.New(raw))
	vEnsures("error", (err == nil) == (got == nil))
	vEnsures("value", err != nil || w == want)
}

//verif:prop C35
func H_Void(raw []byte) {
	p, err := Void.Encode(struct{}{})
	vEnsures("encodes", err == nil && p != nil && len(p.Data()) == 0 && len(p.Metadata()) == 0)
	_, err = Void.Decode(payload.New(raw))
	vEnsures("decodes", err == nil)
}

// vRec is a codec type like the generated ones.
type vRec struct {
	a   string
	n   int32
	bad bool
}

var errRec = errors.New("bad record")

func (r *vRec) Decode(d msgpack.Reader) (err error) {
	if r.n, err = d.ReadInt32(); err != nil {
		return err
	}
	r.a, err = d.ReadString()
	return err
}

func (r *vRec) Encode(w msgpack.Writer) error {
	if r.bad {
		return errRec
	}
	w.WriteInt32(r.n)
	w.WriteString(r.a)
	return nil
}

//verif:prop C35
func H_Codec(n int32, a string, bad bool) {
	vRequires(len(a) <= 1<<30)
	r := vRec{a: a, n: n, bad: bad}
	p, err := MsgPackEncode[vRec](r)
	q, err2 := CodecEncode(&r)
	vEnsures("error", (err == nil) == !bad && (err2 == nil) == !bad)
	if bad {
		return
	}
	vEnsures("encodes", p != nil && len(p.Metadata()) == 0 && q != nil && vEq(p.Data(), q.Data()))
	w, err := MsgPackDecode[vRec](p)
	vEnsures("round trip", err == nil && w.n == n && w.a == a)
	var u vRec
	err = CodecDecode(p, &u)
	vEnsures("round trip in place", err == nil && u.n == n && u.a == a)
}

//verif:prop C35
func H_CodecPayload(raw []byte) {
	vRequires(len(raw) <= 1<<31)
	d := msgpack.NewDecoder(raw)
	var want vRec
	werr := want.Decode(&d)
	w, err := MsgPackDecode[vRec](payload.New(raw))
	vEnsures("error", (err == nil) == (werr == nil))
	vEnsures("value", err != nil || w.n == want.n && w.a == want.a)
}

// Types that are sent as text.
//
//verif:prop C35
func H_Text(v string, ok bool) {
	vRequires(len(v) <= 1<<30)
	enc := ToStringEncode(func(r vRec) string { return r.a })
	dec := ToStringDecode(func(s string) (vRec, error) {
		if !ok {
			return vRec{}, errRec
		}
		return vRec{a: s}, nil
	})
	p, err := enc(vRec{a: v})
	vEnsures("encodes", err == nil && p != nil && len(p.Metadata()) == 0)
	w, err := dec(p)
	vEnsures("error", (err == nil) == ok)
	vEnsures("round trip", !ok || w.a == v)
}

// Live instances are sent as their handle.
//
//verif:prop C35
func H_Interface(v, u int32) {
	t := invoke.NewLiveInstances[int32]()
	enc := InterfaceEncode(t)
	p, err := enc(v)
	vEnsures("encodes", err == nil && p != nil && len(p.Metadata()) == 0)
	q, err := enc(u)
	vEnsures("encodes", err == nil && q != nil)
	h, err := Uint64.Decode(p)
	vEnsures("handle", err == nil)
	w, ok := t.Get(h)
	vEnsures("instance", ok && w == v)
	h, err = Uint64.Decode(q)
	vEnsures("handle", err == nil)
	w, ok = t.Get(h)
	vEnsures("instance", ok && w == u)
}

//verif:prop C35
//verif:bounded lists of at most three elements
//verif:unroll 4
func H_Slice(n uint8, a, b, c int32) {
	vRequires(n <= 3)
	v := []int32{a, b, c}[:n]
	p, err := SliceEncode(msgpack.Writer.WriteInt32)(v)
	vEnsures("encodes", err == nil && p != nil && len(p.Metadata()) == 0)
	w, err := SliceDecode(msgpack.Reader.ReadInt32)(p)
	vEnsures("length", err == nil && len(w) == int(n))
	for i := range v {
		vEnsures("element", w[i] == v[i])
	}
}

//verif:prop C35
//verif:bounded maps of at most two entries
//verif:unroll 3
func H_Map(n uint8, k, l string, a, b int32) {
	vRequires(n <= 2 && k != l && len(k) < 32 && len(l) < 32)
	v := map[string]int32{}
	if n > 0 {
		v[k] = a
	}
	if n > 1 {
		v[l] = b
	}
	p, err := MapEncode(msgpack.Writer.WriteString, msgpack.Writer.WriteInt32)(v)
	vEnsures("encodes", err == nil && p != nil && len(p.Metadata()) == 0)
	w, err := MapDecode(msgpack.Reader.ReadString, msgpack.Reader.ReadInt32)(p)
	vEnsures("length", err == nil && len(w) == int(n))
	x, ok := w[k]
	vEnsures("first", n == 0 || ok && x == a)
	x, ok = w[l]
	vEnsures("second", n < 2 || ok && x == b)
}
