//verif:pkg msgpack
package msgpack

// Generated by tools/gen_msgpack2.py.

import (
	"math"
)

// vSane: what holds after any read from arbitrary bytes.
func vSane(d *Decoder, buf []byte, k uint32) bool {
	return vDecPos(d) >= int(k) && vDecPos(d) <= len(buf)
}

//verif:prop C10
func H_any_Bool(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadBool()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadBool()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_Int8(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadInt8()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadInt8()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_Int16(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadInt16()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadInt16()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_Int32(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadInt32()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadInt32()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_Int64(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadInt64()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadInt64()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_Uint8(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadUint8()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadUint8()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_Uint16(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadUint16()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadUint16()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_Uint32(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadUint32()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadUint32()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_Uint64(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadUint64()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadUint64()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_Float32(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadFloat32()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadFloat32()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_Float64(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadFloat64()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadFloat64()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_String(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadString()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadString()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_ByteArray(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadByteArray()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadByteArray()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_Time(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadTime()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadTime()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_ArraySize(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadArraySize()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadArraySize()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_MapSize(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadMapSize()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadMapSize()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_NillableBool(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadNillableBool()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadNillableBool()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_NillableInt8(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadNillableInt8()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadNillableInt8()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_NillableInt16(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadNillableInt16()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadNillableInt16()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_NillableInt32(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadNillableInt32()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadNillableInt32()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_NillableInt64(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadNillableInt64()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadNillableInt64()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_NillableUint8(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadNillableUint8()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadNillableUint8()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_NillableUint16(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadNillableUint16()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadNillableUint16()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_NillableUint32(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadNillableUint32()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadNillableUint32()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_NillableUint64(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadNillableUint64()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadNillableUint64()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_NillableFloat32(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadNillableFloat32()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadNillableFloat32()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_NillableFloat64(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadNillableFloat64()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadNillableFloat64()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_NillableString(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadNillableString()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadNillableString()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_NillableByteArray(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadNillableByteArray()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadNillableByteArray()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_NillableTime(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.ReadNillableTime()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {
		pos := vDecPos(&d)
		_, err2 := d.ReadNillableTime()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}
}

//verif:prop C10
func H_any_IsNextNil(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	n, err := d.IsNextNil()
	vCover("returns")
	vEnsures("exact", err != nil && int(k) == len(buf) || err == nil && int(k) < len(buf) && n == (buf[k] == 0xc0))
	vEnsures("consumes the nil only", vDecPos(&d) == int(k)+map[bool]int{false: 0, true: 1}[n])
}

// Truncated input is an error: what a writer produced, cut short.

//verif:prop C10
func H_cut_Bool(buf []byte, k uint32, v bool, cut int) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteBool(v)
	vRequires(cut >= int(k) && cut < vEncPos(&e))
	d := vDecAt(buf[:cut], k)
	_, err := d.ReadBool()
	vEnsures("truncated is an error", err != nil)
	vEnsures("stays inside", vDecPos(&d) <= cut)
}

//verif:prop C10
func H_cut_Int64(buf []byte, k uint32, v int64, cut int) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteInt64(v)
	vRequires(cut >= int(k) && cut < vEncPos(&e))
	d := vDecAt(buf[:cut], k)
	_, err := d.ReadInt64()
	vEnsures("truncated is an error", err != nil)
	vEnsures("stays inside", vDecPos(&d) <= cut)
}

//verif:prop C10
func H_cut_Uint64(buf []byte, k uint32, v uint64, cut int) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteUint64(v)
	vRequires(cut >= int(k) && cut < vEncPos(&e))
	d := vDecAt(buf[:cut], k)
	_, err := d.ReadUint64()
	vEnsures("truncated is an error", err != nil)
	vEnsures("stays inside", vDecPos(&d) <= cut)
}

//verif:prop C10
func H_cut_Float32(buf []byte, k uint32, v float32, cut int) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	e.WriteFloat32(v)
	vRequires(cut >= int(k) && cut < vEncPos(&e))
	d := vDecAt(buf[:cut], k)
	_, err := d.ReadFloat32()
	vEnsures("truncated is an error", err != nil)
	vEnsures("stays inside", vDecPos(&d) <= cut)
}

//verif:prop C10
func H_cut_Float64(buf []byte, k uint32, v float64, cut int) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteFloat64(v)
	vRequires(cut >= int(k) && cut < vEncPos(&e))
	d := vDecAt(buf[:cut], k)
	_, err := d.ReadFloat64()
	vEnsures("truncated is an error", err != nil)
	vEnsures("stays inside", vDecPos(&d) <= cut)
}

//verif:prop C10
func H_cut_String(buf []byte, k uint32, v string, cut int) {
	vRequires(len(v) <= math.MaxUint32-5)
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5+len(v)))
	e.WriteString(v)
	vRequires(cut >= int(k) && cut < vEncPos(&e))
	d := vDecAt(buf[:cut], k)
	_, err := d.ReadString()
	vEnsures("truncated is an error", err != nil)
	vEnsures("stays inside", vDecPos(&d) <= cut)
}

//verif:prop C10
func H_cut_ByteArray(buf []byte, k uint32, v []byte, cut int) {
	vRequires(len(v) <= math.MaxUint32-5)
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5+len(v)))
	e.WriteByteArray(v)
	vRequires(cut >= int(k) && cut < vEncPos(&e))
	d := vDecAt(buf[:cut], k)
	_, err := d.ReadByteArray()
	vEnsures("truncated is an error", err != nil)
	vEnsures("stays inside", vDecPos(&d) <= cut)
}
