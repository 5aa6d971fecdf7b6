//verif:pkg msgpack
package msgpack

// vpByte: the byte at p, 0 beyond the end.
func vpByte(b []byte, p int) uint64 {
	if p < 0 || p >= len(b) {
		return 0
	}
	return uint64(b[p])
}

// vpNum: the big-endian number of n bytes at p.
func vpNum1(b []byte, p int) uint64 { return vpByte(b, p) }
func vpNum2(b []byte, p int) uint64 { return vpByte(b, p)<<8 | vpByte(b, p+1) }
func vpNum4(b []byte, p int) uint64 {
	return vpByte(b, p)<<24 | vpByte(b, p+1)<<16 | vpByte(b, p+2)<<8 | vpByte(b, p+3)
}

// vpHead: how many bytes the value at p takes before its elements (as the MessagePack
// specification lays formats out), -1 for the one byte that is no format.
func vpHead(b []byte, p int) int {
	l := vpByte(b, p)
	switch {
	case l <= 0x7f || l >= 0xe0: // fixint
		return 1
	case l <= 0x8f || l <= 0x9f: // fixmap, fixarray
		return 1
	case l <= 0xbf: // fixstr
		return 1 + int(l&0x1f)
	}
	switch l {
	case 0xc0, 0xc2, 0xc3: // nil, false, true
		return 1
	case 0xc4, 0xd9: // bin 8, str 8
		return 2 + int(vpNum1(b, p+1))
	case 0xc5, 0xda: // bin 16, str 16
		return 3 + int(vpNum2(b, p+1))
	case 0xc6, 0xdb: // bin 32, str 32
		return 5 + int(vpNum4(b, p+1))
	case 0xc7: // ext 8
		return 3 + int(vpNum1(b, p+1))
	case 0xc8: // ext 16
		return 4 + int(vpNum2(b, p+1))
	case 0xc9: // ext 32
		return 6 + int(vpNum4(b, p+1))
	case 0xca: // float 32
		return 5
	case 0xcb: // float 64
		return 9
	case 0xcc, 0xd0: // (u)int 8
		return 2
	case 0xcd, 0xd1: // (u)int 16
		return 3
	case 0xce, 0xd2: // (u)int 32
		return 5
	case 0xcf, 0xd3: // (u)int 64
		return 9
	case 0xd4: // fixext 1
		return 3
	case 0xd5:
		return 4
	case 0xd6:
		return 6
	case 0xd7:
		return 10
	case 0xd8:
		return 18
	case 0xdc, 0xde: // array 16, map 16
		return 3
	case 0xdd, 0xdf: // array 32, map 32
		return 5
	}
	return -1
}

// vpCount: how many elements the value at p has.
func vpCount(b []byte, p int) uint64 {
	l := vpByte(b, p)
	switch {
	case l >= 0x80 && l <= 0x8f:
		return 2 * (l & 0xf)
	case l >= 0x90 && l <= 0x9f:
		return l & 0xf
	case l == 0xdc:
		return vpNum2(b, p+1)
	case l == 0xdd:
		return vpNum4(b, p+1)
	case l == 0xde:
		return 2 * vpNum2(b, p+1)
	case l == 0xdf:
		return 2 * vpNum4(b, p+1)
	}
	return 0
}

// vrEnd: where the value that starts at p ends; -1 when there is no complete value.
func vrEnd(b []byte, p int) int {
	if p < 0 || p >= len(b) {
		return -1
	}
	h := vpHead(b, p)
	if h < 0 || h > len(b)-p {
		return -1
	}
	n := vpCount(b, p)
	if n == 0 {
		return p + h
	}
	return vrEnds(b, p+h, n)
}

// vrEnds: where the n values from p on end.
func vrEnds(b []byte, p int, n uint64) int {
	if n == 0 {
		return p
	}
	q := vrEnd(b, p)
	if q < 0 {
		return -1
	}
	return vrEnds(b, q, n-1)
}

// Skipping moves past exactly one complete value, or is an error when there is none.
//
//verif:prop C11
//verif:contract (*msgpack.Decoder).Skip
func C_Skip(d *Decoder) error {
	b, p := d.reader.buffer, int(d.reader.byteOffset)
	vRequires(len(b) <= 1<<31 && p <= len(b))
	vNil(&d.reader.err)
	end := vrEnd(b, p)
	vModifies(&d.reader.byteOffset, &d.reader.err)
	n := vpCount(b, p)
	left := func(k int) bool { // after k elements
		q := int(d.reader.byteOffset)
		return vAnd(vAnd(d.reader.err == nil, vrEnds(b, q, n-uint64(k)) == end), vAnd(q <= len(b), q > p))
	}
	vInv("left", left)
	err := d.Skip()
	vEnsures("complete", (err == nil) == (end >= 0))
	vEnsures("position", err != nil || int(d.reader.byteOffset) == end)
	vEnsures("in range", err != nil || int(d.reader.byteOffset) <= len(b) && int(d.reader.byteOffset) > p)
	vEnsures("no error", err != nil || d.reader.err == nil)
	return err
}
