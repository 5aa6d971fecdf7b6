//verif:pkg msgpack
package msgpack

// Generated by tools/gen_msgpack.py.

import (
	"math"
	"time"
)

//verif:prop C13
func H_opt_Bool(buf []byte, k uint32, present bool, v bool) {
	var p *bool
	if present {
		p = &v
	}
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteNillableBool(p)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadNillableBool()
	vEnsures("noerror", e.Err() == nil && err == nil)
	vEnsures("absent iff absent", (got == nil) == !present)
	vEnsures("value", !present || *got == v)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
	vEnsures("one nil byte", present || vEncPos(&e) == int(k)+1 && buf[k] == FormatNil)
}

//verif:prop C13
func H_opt_Float32(buf []byte, k uint32, present bool, v float32) {
	var p *float32
	if present {
		p = &v
	}
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	e.WriteNillableFloat32(p)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadNillableFloat32()
	vEnsures("noerror", e.Err() == nil && err == nil)
	vEnsures("absent iff absent", (got == nil) == !present)
	vEnsures("value", !present || math.Float32bits(*got) == math.Float32bits(v))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
	vEnsures("one nil byte", present || vEncPos(&e) == int(k)+1 && buf[k] == FormatNil)
}

//verif:prop C13
func H_opt_Float64(buf []byte, k uint32, present bool, v float64) {
	var p *float64
	if present {
		p = &v
	}
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteNillableFloat64(p)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadNillableFloat64()
	vEnsures("noerror", e.Err() == nil && err == nil)
	vEnsures("absent iff absent", (got == nil) == !present)
	vEnsures("value", !present || math.Float64bits(*got) == math.Float64bits(v))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
	vEnsures("one nil byte", present || vEncPos(&e) == int(k)+1 && buf[k] == FormatNil)
}

//verif:prop C13
func H_opt_String(buf []byte, k uint32, present bool, v string) {
	vRequires(len(v) <= math.MaxUint32)
	var p *string
	if present {
		p = &v
	}
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5+len(v)))
	e.WriteNillableString(p)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadNillableString()
	vEnsures("noerror", e.Err() == nil && err == nil)
	vEnsures("absent iff absent", (got == nil) == !present)
	vEnsures("value", !present || *got == v)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
	vEnsures("one nil byte", present || vEncPos(&e) == int(k)+1 && buf[k] == FormatNil)
}

//verif:prop C13
func H_opt_Int8(buf []byte, k uint32, present bool, v int8) {
	var p *int8
	if present {
		p = &v
	}
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 2))
	e.WriteNillableInt8(p)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadNillableInt8()
	vEnsures("noerror", e.Err() == nil && err == nil)
	vEnsures("absent iff absent", (got == nil) == !present)
	vEnsures("value", !present || *got == v)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
	vEnsures("one nil byte", present || vEncPos(&e) == int(k)+1 && buf[k] == FormatNil)
}

//verif:prop C13
func H_opt_Int16(buf []byte, k uint32, present bool, v int16) {
	var p *int16
	if present {
		p = &v
	}
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 3))
	e.WriteNillableInt16(p)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadNillableInt16()
	vEnsures("noerror", e.Err() == nil && err == nil)
	vEnsures("absent iff absent", (got == nil) == !present)
	vEnsures("value", !present || *got == v)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
	vEnsures("one nil byte", present || vEncPos(&e) == int(k)+1 && buf[k] == FormatNil)
}

//verif:prop C13
func H_opt_Int32(buf []byte, k uint32, present bool, v int32) {
	var p *int32
	if present {
		p = &v
	}
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	e.WriteNillableInt32(p)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadNillableInt32()
	vEnsures("noerror", e.Err() == nil && err == nil)
	vEnsures("absent iff absent", (got == nil) == !present)
	vEnsures("value", !present || *got == v)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
	vEnsures("one nil byte", present || vEncPos(&e) == int(k)+1 && buf[k] == FormatNil)
}

//verif:prop C13
func H_opt_Int64(buf []byte, k uint32, present bool, v int64) {
	var p *int64
	if present {
		p = &v
	}
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteNillableInt64(p)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadNillableInt64()
	vEnsures("noerror", e.Err() == nil && err == nil)
	vEnsures("absent iff absent", (got == nil) == !present)
	vEnsures("value", !present || *got == v)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
	vEnsures("one nil byte", present || vEncPos(&e) == int(k)+1 && buf[k] == FormatNil)
}

//verif:prop C13
func H_opt_Uint8(buf []byte, k uint32, present bool, v uint8) {
	var p *uint8
	if present {
		p = &v
	}
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 2))
	e.WriteNillableUint8(p)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadNillableUint8()
	vEnsures("noerror", e.Err() == nil && err == nil)
	vEnsures("absent iff absent", (got == nil) == !present)
	vEnsures("value", !present || *got == v)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
	vEnsures("one nil byte", present || vEncPos(&e) == int(k)+1 && buf[k] == FormatNil)
}

//verif:prop C13
func H_opt_Uint16(buf []byte, k uint32, present bool, v uint16) {
	var p *uint16
	if present {
		p = &v
	}
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 3))
	e.WriteNillableUint16(p)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadNillableUint16()
	vEnsures("noerror", e.Err() == nil && err == nil)
	vEnsures("absent iff absent", (got == nil) == !present)
	vEnsures("value", !present || *got == v)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
	vEnsures("one nil byte", present || vEncPos(&e) == int(k)+1 && buf[k] == FormatNil)
}

//verif:prop C13
func H_opt_Uint32(buf []byte, k uint32, present bool, v uint32) {
	var p *uint32
	if present {
		p = &v
	}
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	e.WriteNillableUint32(p)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadNillableUint32()
	vEnsures("noerror", e.Err() == nil && err == nil)
	vEnsures("absent iff absent", (got == nil) == !present)
	vEnsures("value", !present || *got == v)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
	vEnsures("one nil byte", present || vEncPos(&e) == int(k)+1 && buf[k] == FormatNil)
}

//verif:prop C13
func H_opt_Uint64(buf []byte, k uint32, present bool, v uint64) {
	var p *uint64
	if present {
		p = &v
	}
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteNillableUint64(p)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadNillableUint64()
	vEnsures("noerror", e.Err() == nil && err == nil)
	vEnsures("absent iff absent", (got == nil) == !present)
	vEnsures("value", !present || *got == v)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
	vEnsures("one nil byte", present || vEncPos(&e) == int(k)+1 && buf[k] == FormatNil)
}

//verif:prop C13
func H_opt_ByteArray(buf []byte, k uint32, present bool, v []byte) {
	vRequires(len(v) <= math.MaxUint32)
	var p []byte
	if present {
		vRequires(v != nil)
		p = v
	}
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5+len(v)))
	e.WriteNillableByteArray(p)
	d := vDecAt(buf, k)
	got, err := d.ReadNillableByteArray()
	vEnsures("noerror", e.Err() == nil && err == nil)
	vEnsures("absent iff absent", (got == nil) == !present)
	vEnsures("value", !present || vEq(got, v))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
	vEnsures("one nil byte", present || vEncPos(&e) == int(k)+1 && buf[k] == FormatNil)
}

//verif:prop C13
func H_opt_Time(buf []byte, k uint32, present bool, sec int64, nsec int64) {
	vRequires(nsec >= 0 && nsec < 1000000000)
	v := time.Unix(sec, nsec)
	var p *time.Time
	if present {
		p = &v
	}
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 15))
	e.WriteNillableTime(p)
	d := vDecAt(buf, k)
	got, err := d.ReadNillableTime()
	vEnsures("noerror", e.Err() == nil && err == nil)
	vEnsures("absent iff absent", (got == nil) == !present)
	vEnsures("value", !present || got.Unix() == v.Unix() && got.Nanosecond() == v.Nanosecond())
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
	vEnsures("one nil byte", present || vEncPos(&e) == int(k)+1 && buf[k] == FormatNil)
}
