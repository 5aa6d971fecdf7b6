//verif:pkg msgpack
package msgpack

// Generated by tools/gen_msgpack.py.

// A signed value read as int8.
//
//verif:prop C14
func H_narrow_Int_Int8(buf []byte, k uint32, v int64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteInt64(v)
	d := vDecAt(buf, k)
	got, err := d.ReadInt8()
	fits := v >= -1<<7 && v <= 1<<7-1
	vEnsures("exact when it fits", !fits || err == nil && int64(got) == v)
	vEnsures("error when it does not", fits || err != nil)
}

// An unsigned value read as int8: never an altered number.
//
//verif:prop C14
func H_narrow_Uint_Int8(buf []byte, k uint32, v uint64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteUint64(v)
	d := vDecAt(buf, k)
	got, err := d.ReadInt8()
	fits := v <= uint64(1<<7-1)
	vEnsures("exact or an error", err != nil || fits && uint64(got) == v)
	vEnsures("error when it does not fit", fits || err != nil)
	vEnsures("small values are read", v > 127 || err == nil)
}

// A signed value read as int16.
//
//verif:prop C14
func H_narrow_Int_Int16(buf []byte, k uint32, v int64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteInt64(v)
	d := vDecAt(buf, k)
	got, err := d.ReadInt16()
	fits := v >= -1<<15 && v <= 1<<15-1
	vEnsures("exact when it fits", !fits || err == nil && int64(got) == v)
	vEnsures("error when it does not", fits || err != nil)
}

// An unsigned value read as int16: never an altered number.
//
//verif:prop C14
func H_narrow_Uint_Int16(buf []byte, k uint32, v uint64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteUint64(v)
	d := vDecAt(buf, k)
	got, err := d.ReadInt16()
	fits := v <= uint64(1<<15-1)
	vEnsures("exact or an error", err != nil || fits && uint64(got) == v)
	vEnsures("error when it does not fit", fits || err != nil)
	vEnsures("small values are read", v > 127 || err == nil)
}

// A signed value read as int32.
//
//verif:prop C14
func H_narrow_Int_Int32(buf []byte, k uint32, v int64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteInt64(v)
	d := vDecAt(buf, k)
	got, err := d.ReadInt32()
	fits := v >= -1<<31 && v <= 1<<31-1
	vEnsures("exact when it fits", !fits || err == nil && int64(got) == v)
	vEnsures("error when it does not", fits || err != nil)
}

// An unsigned value read as int32: never an altered number.
//
//verif:prop C14
func H_narrow_Uint_Int32(buf []byte, k uint32, v uint64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteUint64(v)
	d := vDecAt(buf, k)
	got, err := d.ReadInt32()
	fits := v <= uint64(1<<31-1)
	vEnsures("exact or an error", err != nil || fits && uint64(got) == v)
	vEnsures("error when it does not fit", fits || err != nil)
	vEnsures("small values are read", v > 127 || err == nil)
}

// A signed value read as int64.
//
//verif:prop C14
func H_narrow_Int_Int64(buf []byte, k uint32, v int64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteInt64(v)
	d := vDecAt(buf, k)
	got, err := d.ReadInt64()
	fits := v >= -1<<63 && v <= 1<<63-1
	vEnsures("exact when it fits", !fits || err == nil && int64(got) == v)
	vEnsures("error when it does not", fits || err != nil)
}

// An unsigned value read as int64: never an altered number.
//
//verif:prop C14
func H_narrow_Uint_Int64(buf []byte, k uint32, v uint64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteUint64(v)
	d := vDecAt(buf, k)
	got, err := d.ReadInt64()
	fits := v <= uint64(1<<63-1)
	vEnsures("exact or an error", err != nil || fits && uint64(got) == v)
	vEnsures("error when it does not fit", fits || err != nil)
	vEnsures("small values are read", v > 127 || err == nil)
}

// A signed value read as uint8.
//
//verif:prop C14
func H_narrow_Int_Uint8(buf []byte, k uint32, v int64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteInt64(v)
	d := vDecAt(buf, k)
	got, err := d.ReadUint8()
	fits := v >= 0 && uint64(v) <= 1<<8-1
	vEnsures("exact when it fits", !fits || err == nil && int64(got) == v)
	vEnsures("error when it does not", fits || err != nil)
}

// An unsigned value read as uint8: never an altered number.
//
//verif:prop C14
func H_narrow_Uint_Uint8(buf []byte, k uint32, v uint64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteUint64(v)
	d := vDecAt(buf, k)
	got, err := d.ReadUint8()
	fits := v <= 1<<8-1
	vEnsures("exact or an error", err != nil || fits && uint64(got) == v)
	vEnsures("error when it does not fit", fits || err != nil)
	vEnsures("exact when it fits", !fits || err == nil)
}

// A signed value read as uint16.
//
//verif:prop C14
func H_narrow_Int_Uint16(buf []byte, k uint32, v int64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteInt64(v)
	d := vDecAt(buf, k)
	got, err := d.ReadUint16()
	fits := v >= 0 && uint64(v) <= 1<<16-1
	vEnsures("exact when it fits", !fits || err == nil && int64(got) == v)
	vEnsures("error when it does not", fits || err != nil)
}

// An unsigned value read as uint16: never an altered number.
//
//verif:prop C14
func H_narrow_Uint_Uint16(buf []byte, k uint32, v uint64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteUint64(v)
	d := vDecAt(buf, k)
	got, err := d.ReadUint16()
	fits := v <= 1<<16-1
	vEnsures("exact or an error", err != nil || fits && uint64(got) == v)
	vEnsures("error when it does not fit", fits || err != nil)
	vEnsures("exact when it fits", !fits || err == nil)
}

// A signed value read as uint32.
//
//verif:prop C14
func H_narrow_Int_Uint32(buf []byte, k uint32, v int64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteInt64(v)
	d := vDecAt(buf, k)
	got, err := d.ReadUint32()
	fits := v >= 0 && uint64(v) <= 1<<32-1
	vEnsures("exact when it fits", !fits || err == nil && int64(got) == v)
	vEnsures("error when it does not", fits || err != nil)
}

// An unsigned value read as uint32: never an altered number.
//
//verif:prop C14
func H_narrow_Uint_Uint32(buf []byte, k uint32, v uint64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteUint64(v)
	d := vDecAt(buf, k)
	got, err := d.ReadUint32()
	fits := v <= 1<<32-1
	vEnsures("exact or an error", err != nil || fits && uint64(got) == v)
	vEnsures("error when it does not fit", fits || err != nil)
	vEnsures("exact when it fits", !fits || err == nil)
}

// A signed value read as uint64.
//
//verif:prop C14
func H_narrow_Int_Uint64(buf []byte, k uint32, v int64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteInt64(v)
	d := vDecAt(buf, k)
	got, err := d.ReadUint64()
	fits := v >= 0 && uint64(v) <= 1<<64-1
	vEnsures("exact when it fits", !fits || err == nil && int64(got) == v)
	vEnsures("error when it does not", fits || err != nil)
}

// An unsigned value read as uint64: never an altered number.
//
//verif:prop C14
func H_narrow_Uint_Uint64(buf []byte, k uint32, v uint64) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteUint64(v)
	d := vDecAt(buf, k)
	got, err := d.ReadUint64()
	fits := v <= 1<<64-1
	vEnsures("exact or an error", err != nil || fits && uint64(got) == v)
	vEnsures("error when it does not fit", fits || err != nil)
	vEnsures("exact when it fits", !fits || err == nil)
}

// Whatever the input bytes are, a returned number is the number they denote.
//
//verif:prop C14
func H_denotes_Int8(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	got, err := d.ReadInt8()
	isInt, neg, mag, size := vIntAt(buf, int(k))
	vEnsures("an integer was there", err != nil || isInt)
	vEnsures("exact", err != nil || neg == (got < 0) && (neg && uint64(-int64(got)) == mag || !neg && uint64(got) == mag))
	vEnsures("consumed", err != nil || vDecPos(&d) == int(k)+size)
}

// Whatever the input bytes are, a returned number is the number they denote.
//
//verif:prop C14
func H_denotes_Int16(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	got, err := d.ReadInt16()
	isInt, neg, mag, size := vIntAt(buf, int(k))
	vEnsures("an integer was there", err != nil || isInt)
	vEnsures("exact", err != nil || neg == (got < 0) && (neg && uint64(-int64(got)) == mag || !neg && uint64(got) == mag))
	vEnsures("consumed", err != nil || vDecPos(&d) == int(k)+size)
}

// Whatever the input bytes are, a returned number is the number they denote.
//
//verif:prop C14
func H_denotes_Int32(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	got, err := d.ReadInt32()
	isInt, neg, mag, size := vIntAt(buf, int(k))
	vEnsures("an integer was there", err != nil || isInt)
	vEnsures("exact", err != nil || neg == (got < 0) && (neg && uint64(-int64(got)) == mag || !neg && uint64(got) == mag))
	vEnsures("consumed", err != nil || vDecPos(&d) == int(k)+size)
}

// Whatever the input bytes are, a returned number is the number they denote.
//
//verif:prop C14
func H_denotes_Int64(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	got, err := d.ReadInt64()
	isInt, neg, mag, size := vIntAt(buf, int(k))
	vEnsures("an integer was there", err != nil || isInt)
	vEnsures("exact", err != nil || neg == (got < 0) && (neg && uint64(-int64(got)) == mag || !neg && uint64(got) == mag))
	vEnsures("consumed", err != nil || vDecPos(&d) == int(k)+size)
}

// Whatever the input bytes are, a returned number is the number they denote.
//
//verif:prop C14
func H_denotes_Uint8(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	got, err := d.ReadUint8()
	isInt, neg, mag, size := vIntAt(buf, int(k))
	vEnsures("an integer was there", err != nil || isInt)
	vEnsures("exact", err != nil || neg == (got < 0) && (neg && uint64(-int64(got)) == mag || !neg && uint64(got) == mag))
	vEnsures("consumed", err != nil || vDecPos(&d) == int(k)+size)
}

// Whatever the input bytes are, a returned number is the number they denote.
//
//verif:prop C14
func H_denotes_Uint16(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	got, err := d.ReadUint16()
	isInt, neg, mag, size := vIntAt(buf, int(k))
	vEnsures("an integer was there", err != nil || isInt)
	vEnsures("exact", err != nil || neg == (got < 0) && (neg && uint64(-int64(got)) == mag || !neg && uint64(got) == mag))
	vEnsures("consumed", err != nil || vDecPos(&d) == int(k)+size)
}

// Whatever the input bytes are, a returned number is the number they denote.
//
//verif:prop C14
func H_denotes_Uint32(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	got, err := d.ReadUint32()
	isInt, neg, mag, size := vIntAt(buf, int(k))
	vEnsures("an integer was there", err != nil || isInt)
	vEnsures("exact", err != nil || neg == (got < 0) && (neg && uint64(-int64(got)) == mag || !neg && uint64(got) == mag))
	vEnsures("consumed", err != nil || vDecPos(&d) == int(k)+size)
}

// Whatever the input bytes are, a returned number is the number they denote.
//
//verif:prop C14
func H_denotes_Uint64(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	got, err := d.ReadUint64()
	isInt, neg, mag, size := vIntAt(buf, int(k))
	vEnsures("an integer was there", err != nil || isInt)
	vEnsures("exact", err != nil || neg == (got < 0) && (neg && uint64(-int64(got)) == mag || !neg && uint64(got) == mag))
	vEnsures("consumed", err != nil || vDecPos(&d) == int(k)+size)
}

// vIntAt decodes the MessagePack integer at p according to the specification:
// whether there is one, its sign, its magnitude and the bytes it takes.
func vIntAt(b []byte, p int) (isInt bool, neg bool, mag uint64, size int) {
	if p >= len(b) {
		return false, false, 0, 0
	}
	c := b[p]
	n := len(b) - p
	switch {
	case c <= 0x7f:
		return true, false, uint64(c), 1
	case c >= 0xe0:
		return true, true, 256 - uint64(c), 1
	case c == 0xcc && n >= 2:
		return true, false, vBE(b, p+1, 1), 2
	case c == 0xcd && n >= 3:
		return true, false, vBE(b, p+1, 2), 3
	case c == 0xce && n >= 5:
		return true, false, vBE(b, p+1, 4), 5
	case c == 0xcf && n >= 9:
		return true, false, vBE(b, p+1, 8), 9
	case c == 0xd0 && n >= 2:
		v := int64(int8(vBE(b, p+1, 1)))
		return true, v < 0, vAbs(v), 2
	case c == 0xd1 && n >= 3:
		v := int64(int16(vBE(b, p+1, 2)))
		return true, v < 0, vAbs(v), 3
	case c == 0xd2 && n >= 5:
		v := int64(int32(vBE(b, p+1, 4)))
		return true, v < 0, vAbs(v), 5
	case c == 0xd3 && n >= 9:
		v := int64(vBE(b, p+1, 8))
		return true, v < 0, vAbs(v), 9
	}
	return false, false, 0, 0
}

func vAbs(v int64) uint64 {
	if v < 0 {
		return uint64(-v)
	}
	return uint64(v)
}
