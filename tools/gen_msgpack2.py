#!/usr/bin/env python3
"""Generates the contracts of C09, C10, C11 (msgpack)."""
import os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D=os.path.join(here,'contracts','msgpack')
def out(name, body, imports=()):
    imp=''
    if imports: imp='\nimport (\n'+''.join('\t"%s"\n'%i for i in imports)+')\n'
    open(os.path.join(D,name),'w').write('//verif:pkg msgpack\npackage msgpack\n\n// Generated by tools/gen_msgpack2.py.\n'+imp+body)

# ---------------------------------------------------------------- C09
b='''
// vItem is the expected head of an item: n bytes of which the first is fmt and
// the others the big-endian number num.
func vItemIs(buf []byte, k uint32, pos int, n int, fmt byte, num uint64) bool {
	p := int(k)
	if pos != p+n || buf[p] != fmt {
		return false
	}
	return n == 1 || vBE(buf, p+1, n-1) == num
}

func vUintItem(buf []byte, k uint32, pos int, v uint64) bool {
	switch {
	case v < 128:
		return vItemIs(buf, k, pos, 1, byte(v), 0)
	case v <= 0xff:
		return vItemIs(buf, k, pos, 2, 0xcc, v)
	case v <= 0xffff:
		return vItemIs(buf, k, pos, 3, 0xcd, v)
	case v <= 0xffffffff:
		return vItemIs(buf, k, pos, 5, 0xce, v)
	}
	return vItemIs(buf, k, pos, 9, 0xcf, v)
}

func vIntItem(buf []byte, k uint32, pos int, v int64) bool {
	switch {
	case v >= -32 && v < 128:
		return vItemIs(buf, k, pos, 1, byte(v), 0)
	case v >= -128 && v < 128:
		return vItemIs(buf, k, pos, 2, 0xd0, uint64(byte(v)))
	case v >= -32768 && v < 32768:
		return vItemIs(buf, k, pos, 3, 0xd1, uint64(uint16(v)))
	case v >= -2147483648 && v < 2147483648:
		return vItemIs(buf, k, pos, 5, 0xd2, uint64(uint32(v)))
	}
	return vItemIs(buf, k, pos, 9, 0xd3, uint64(v))
}

// The bytes in front of the item and behind it are untouched.
func vOutside(old string, buf []byte, k uint32, pos int) bool {
	return vForall(0, len(buf), func(i int) bool { return i >= int(k) && i < pos || buf[i] == old[i] })
}
'''
def item(name, params, room, call, cond, pre=''):
    return f'''
//verif:prop C09
func H_wire_{name}(buf []byte, k uint32{params}) {{
{pre}	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, {room}))
	old := vSnap(buf)
	e.{call}
	vCover("written")
	vEnsures("no error", e.Err() == nil)
	vEnsures("wire format", {cond})
	vEnsures("nothing else changed", vOutside(old, buf, k, vEncPos(&e)))
}}
'''
P='vEncPos(&e)'
b+=item('Nil','',1,'WriteNil()',f'vItemIs(buf, k, {P}, 1, 0xc0, 0)')
b+=item('Bool',', v bool',1,'WriteBool(v)',f'v && vItemIs(buf, k, {P}, 1, 0xc3, 0) || !v && vItemIs(buf, k, {P}, 1, 0xc2, 0)')
for w in (8,16,32,64):
    n={8:2,16:3,32:5,64:9}[w]
    b+=item(f'Int{w}',f', v int{w}',n,f'WriteInt{w}(v)',f'vIntItem(buf, k, {P}, int64(v))')
    b+=item(f'Uint{w}',f', v uint{w}',n,f'WriteUint{w}(v)',f'vUintItem(buf, k, {P}, uint64(v))')
b+=item('Float32',', v float32',5,'WriteFloat32(v)',f'vItemIs(buf, k, {P}, 5, 0xca, uint64(math.Float32bits(v)))')
b+=item('Float64',', v float64',9,'WriteFloat64(v)',f'vItemIs(buf, k, {P}, 9, 0xcb, math.Float64bits(v))')
b+='''
func vHeadStr(buf []byte, k uint32, n int) int {
	p := int(k)
	switch {
	case n < 32:
		if buf[p] == 0xa0|byte(n) {
			return 1
		}
	case n <= 0xff:
		if buf[p] == 0xd9 && vBE(buf, p+1, 1) == uint64(n) {
			return 2
		}
	case n <= 0xffff:
		if buf[p] == 0xda && vBE(buf, p+1, 2) == uint64(n) {
			return 3
		}
	default:
		if buf[p] == 0xdb && vBE(buf, p+1, 4) == uint64(n) {
			return 5
		}
	}
	return -1
}

func vHeadBin(buf []byte, k uint32, n int) int {
	p := int(k)
	switch {
	case n <= 0xff:
		if buf[p] == 0xc4 && vBE(buf, p+1, 1) == uint64(n) {
			return 2
		}
	case n <= 0xffff:
		if buf[p] == 0xc5 && vBE(buf, p+1, 2) == uint64(n) {
			return 3
		}
	default:
		if buf[p] == 0xc6 && vBE(buf, p+1, 4) == uint64(n) {
			return 5
		}
	}
	return -1
}

//verif:prop C09
func H_wire_String(buf []byte, k uint32, v string) {
	vRequires(len(v) <= math.MaxUint32)
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5+len(v)))
	e.WriteString(v)
	h := vHeadStr(buf, k, len(v))
	vEnsures("no error", e.Err() == nil)
	vEnsures("head", h > 0)
	vEnsures("length", vEncPos(&e) == int(k)+h+len(v))
	vEnsures("content", vHasS(buf, int(k)+h, v))
}

//verif:prop C09
func H_wire_ByteArray(buf []byte, k uint32, v []byte) {
	vRequires(len(v) <= math.MaxUint32)
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5+len(v)))
	c := vSnap(v)
	e.WriteByteArray(v)
	h := vHeadBin(buf, k, len(v))
	vEnsures("no error", e.Err() == nil)
	vEnsures("head", h > 0)
	vEnsures("length", vEncPos(&e) == int(k)+h+len(v))
	vEnsures("content", vHasS(buf, int(k)+h, c))
}
'''
for nm,fix,f16 in (('ArraySize',0x90,0xdc),('MapSize',0x80,0xde)):
    b+=item(nm,', v uint32',5,f'Write{nm}(v)',f'v < 16 && vItemIs(buf, k, {P}, 1, {fix:#x}|byte(v), 0) || v >= 16 && v <= 0xffff && vItemIs(buf, k, {P}, 3, {f16:#x}, uint64(v)) || v > 0xffff && vItemIs(buf, k, {P}, 5, {f16+1:#x}, uint64(v))')
b+='''
// Timestamps: extension type -1 in the 4, 8 or 12 byte form.
//
//verif:prop C09
func H_wire_Time(buf []byte, k uint32, sec int64, nsec int64) {
	vRequires(nsec >= 0 && nsec < 1000000000)
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 15))
	e.WriteTime(time.Unix(sec, nsec))
	p := int(k)
	vEnsures("no error", e.Err() == nil)
	if uint64(sec) < 1<<32 && nsec == 0 {
		vCover("32")
		vEnsures("32 bit form", vEncPos(&e) == p+6 && buf[p] == 0xd6 && buf[p+1] == 0xff && vBE(buf, p+2, 4) == uint64(sec))
	} else if uint64(sec) < 1<<34 {
		vCover("64")
		vEnsures("64 bit form", vEncPos(&e) == p+10 && buf[p] == 0xd7 && buf[p+1] == 0xff && vBE(buf, p+2, 8) == uint64(nsec)<<34|uint64(sec))
	} else {
		vCover("96")
		vEnsures("96 bit form", vEncPos(&e) == p+15 && buf[p] == 0xc7 && buf[p+1] == 12 && buf[p+2] == 0xff && vBE(buf, p+3, 4) == uint64(nsec) && vBE(buf, p+7, 8) == uint64(sec))
	}
}
'''
out('c09.go',b,('math','time'))

# ---------------------------------------------------------------- C10
b='''
// vSane: what holds after any read from arbitrary bytes.
func vSane(d *Decoder, buf []byte, k uint32) bool {
	return vDecPos(d) >= int(k) && vDecPos(d) <= len(buf)
}
'''
reads=['Bool','Int8','Int16','Int32','Int64','Uint8','Uint16','Uint32','Uint64','Float32','Float64','String','ByteArray','Time','ArraySize','MapSize',
 'NillableBool','NillableInt8','NillableInt16','NillableInt32','NillableInt64','NillableUint8','NillableUint16','NillableUint32','NillableUint64','NillableFloat32','NillableFloat64','NillableString','NillableByteArray','NillableTime']
for r in reads:
    b+=f'''
//verif:prop C10
func H_any_{r}(buf []byte, k uint32) {{
	d := vDecAt(buf, k)
	vAllocLimit(len(buf) + 64)
	_, err := d.Read{r}()
	vCover("returns")
	vEnsures("stays inside", vSane(&d, buf, k))
	vEnsures("exhausted input is an error", int(k) < len(buf) || err != nil)
	vEnsures("reader error is reported", d.Err() == nil || err != nil)
	vEnsures("progress", err != nil || vDecPos(&d) > int(k))
	if d.Err() != nil {{
		pos := vDecPos(&d)
		_, err2 := d.Read{r}()
		vEnsures("errors stick", err2 != nil && vDecPos(&d) == pos)
	}}
}}
'''
b+='''
//verif:prop C10
func H_any_IsNextNil(buf []byte, k uint32) {
	d := vDecAt(buf, k)
	n, err := d.IsNextNil()
	vCover("returns")
	vEnsures("exact", err != nil && int(k) == len(buf) || err == nil && int(k) < len(buf) && n == (buf[k] == 0xc0))
	vEnsures("consumes the nil only", vDecPos(&d) == int(k)+map[bool]int{false: 0, true: 1}[n])
}
'''
b+='''
// Truncated input is an error: what a writer produced, cut short.
'''
for r,ty,room in (('Bool','bool',1),('Int64','int64',9),('Uint64','uint64',9),('Float32','float32',5),('Float64','float64',9)):
    b+=f'''
//verif:prop C10
func H_cut_{r}(buf []byte, k uint32, v {ty}, cut int) {{
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, {room}))
	e.Write{r}(v)
	vRequires(cut >= int(k) && cut < vEncPos(&e))
	d := vDecAt(buf[:cut], k)
	_, err := d.Read{r}()
	vEnsures("truncated is an error", err != nil)
	vEnsures("stays inside", vDecPos(&d) <= cut)
}}
'''
for r,ty in (('String','string'),('ByteArray','[]byte')):
    b+=f'''
//verif:prop C10
func H_cut_{r}(buf []byte, k uint32, v {ty}, cut int) {{
	vRequires(len(v) <= math.MaxUint32-5)
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5+len(v)))
	e.Write{r}(v)
	vRequires(cut >= int(k) && cut < vEncPos(&e))
	d := vDecAt(buf[:cut], k)
	_, err := d.Read{r}()
	vEnsures("truncated is an error", err != nil)
	vEnsures("stays inside", vDecPos(&d) <= cut)
}}
'''
out('c10.go',b,('math',))
