//verif:pkg msgpack
package msgpack

import "math"

func wBool(w Writer, v bool)       { w.WriteBool(v) }
func rBool(r Reader) (bool, error) { return r.ReadBool() }

// vpArrayHead is the number of bytes of the header of a list of n elements.
func vpArrayHead(n int) int {
	if n < 16 {
		return 1
	}
	if n < 65536 {
		return 3
	}
	return 5
}

// A list of any length is written as its header and then its elements in order.
//
//verif:prop C07
func H_slice_written(buf []byte, k uint32, vs []bool) {
	vRequires(len(vs) <= math.MaxUint32-16)
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, len(vs)+5))
	h := int(k) + vpArrayHead(len(vs))
	vInv("written", func(i int) bool {
		return vForall(0, i, func(j int) bool {
			return vAnd((buf[h+j] == 0xc3) == vs[j], (buf[h+j] == 0xc2) == !vs[j])
		})
	})
	err := WriteSlice(&e, vs, wBool)
	vEnsures("noerror", err == nil && e.Err() == nil)
	vEnsures("elements", vForall(0, len(vs), func(j int) bool {
		return vAnd((buf[h+j] == 0xc3) == vs[j], (buf[h+j] == 0xc2) == !vs[j])
	}))
	vEnsures("consumed", vEncPos(&e) == h+len(vs))
}

// A list of any length is read element by element, in order.
//
//verif:prop C07
func H_slice_read(buf []byte, k uint32, n int) {
	vRequires(n >= 0 && n <= math.MaxUint32-16)
	d := vDecAt(buf, k)
	vRequires(vRoom(buf, k, vpArrayHead(n)+n))
	h := int(k) + 1
	b := buf[k:]
	if n < 16 {
		vRequires(int(b[0]) == 0x90+n)
	} else if n < 65536 {
		h = int(k) + 3
		vRequires(b[0] == 0xdc && int(vBE(b, 1, 2)) == n)
	} else {
		h = int(k) + 5
		vRequires(b[0] == 0xdd && int(vBE(b, 1, 4)) == n)
	}
	vRequires(vForall(0, n, func(j int) bool { return vOr(buf[h+j] == 0xc2, buf[h+j] == 0xc3) }))
	vInv("read", func(i int, l []bool) bool {
		return vForall(0, i, func(j int) bool { return l[j] == (buf[h+j] == 0xc3) })
	})
	got, err := ReadSlice(Reader(&d), rBool)
	vEnsures("noerror", err == nil && d.Err() == nil)
	vEnsures("length", len(got) == n)
	vEnsures("elements", vForall(0, n, func(j int) bool { return got[j] == (buf[h+j] == 0xc3) }))
	vEnsures("consumed", vDecPos(&d) == h+n)
}

// Whatever the bytes are: what is read was read completely, or there is an error.
//
//verif:prop C10
func H_slice_any(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	got, err := ReadSlice(Reader(&d), rBool)
	vCover("read")
	vEnsures("errors reported", vImp(d.Err() != nil, err != nil))
	vEnsures("nothing partial", vImp(err != nil, got == nil))
}

// An item that cannot be read is an error of the list, and of the map.
//
//verif:prop C10
//verif:bounded at most three items
//verif:unroll 5
func H_slice_itemError(buf []byte, k uint32, at int) {
	d := vDecAt(buf, k)
	vRequires(vRoom(buf, k, 1) && buf[k] >= 0x90 && buf[k] <= 0x93)
	vRequires(at >= 0 && at < int(buf[k]-0x90))
	i := 0
	got, err := ReadSlice(Reader(&d), func(r Reader) (bool, error) {
		i++
		if i == at+1 {
			return true, ErrUnsupported
		}
		return true, nil
	})
	vEnsures("error", err == ErrUnsupported)
	vEnsures("nothing", got == nil)
	vEnsures("stopped", i == at+1)
}

//verif:prop C10
//verif:bounded at most two entries
//verif:unroll 5
func H_map_itemError(buf []byte, k uint32, at int) {
	d := vDecAt(buf, k)
	vRequires(vRoom(buf, k, 1) && buf[k] >= 0x80 && buf[k] <= 0x82)
	vRequires(at >= 0 && at < 2*int(buf[k]-0x80))
	i := 0
	item := func(r Reader) (uint8, error) {
		i++
		if i == at+1 {
			return 1, ErrUnsupported
		}
		return uint8(i), nil
	}
	got, err := ReadMap(Reader(&d), item, item)
	vEnsures("error", err == ErrUnsupported)
	vEnsures("nothing", got == nil)
	vEnsures("stopped", i == at+1)
}

// Every list length is announced, whatever the writer is.
//
//verif:prop C08
func H_slice_size(buf []byte, k uint32, start uint32, vs []bool) {
	vRequires(len(vs) <= math.MaxUint32-16)
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, len(vs)+5))
	vRequires(uint64(start)+uint64(len(vs)+5) <= math.MaxUint32)
	s := NewSizer()
	s.length = start
	err := WriteSlice(Writer(&e), vs, wBool)
	serr := WriteSlice(Writer(&s), vs, wBool)
	vEnsures("noerror", err == nil && serr == nil && e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

// Bytes behind the end of the input are not there, even when its backing array has them.
//
//verif:prop C10
func H_spare(all []byte, spare int, k uint32, n uint32) {
	vRequires(0 <= spare && spare <= len(all) && len(all) <= math.MaxUint32)
	buf := all[:len(all)-spare]
	vRequires(int(k) <= len(buf))
	d := NewDataReader(buf)
	d.Discard(k)
	got, err := d.GetBytes(n)
	vEnsures("error exactly when too short", (err != nil) == (int(n) > len(buf)-int(k)))
	vEnsures("the bytes asked for", err != nil || len(got) == int(n) && int(d.byteOffset) == int(k)+int(n))
	vEnsures("stays inside", int(d.byteOffset) <= len(buf))
	_, err = d.GetUint8()
	vEnsures("stays inside", int(d.byteOffset) <= len(buf))
}
