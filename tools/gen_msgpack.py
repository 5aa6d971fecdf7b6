#!/usr/bin/env python3
"""Writes the per-type msgpack contract files (C07, C08, C09, C13, C14)."""
import os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'contracts', 'msgpack')
HEAD = '//verif:pkg msgpack\npackage msgpack\n\n// Generated by tools/gen_msgpack.py.\n\n'
ints = ['Int8', 'Int16', 'Int32', 'Int64']
uints = ['Uint8', 'Uint16', 'Uint32', 'Uint64']
scal = {'Bool': ('bool', 1), 'Float32': ('float32', 5), 'Float64': ('float64', 9), 'String': ('string', None), 'ByteArray': ('[]byte', None)}
for t in ints + uints:
    scal[t] = (t.lower(), {'8': 2, '16': 3, '32': 5, '64': 9}[t.strip('IntUi')] )

def room(t):
    if t.endswith('Size'): return '5'
    gt, n = scal[t]
    return '5+len(v)' if n is None else str(n)
def eq(t, a, b):
    if t == 'ByteArray': return f'vEq({a}, {b})'
    if t == 'Float32': return f'math.Float32bits({a}) == math.Float32bits({b})'
    if t == 'Float64': return f'math.Float64bits({a}) == math.Float64bits({b})'
    return f'{a} == {b}'
def imp(body):
    r = ''
    if 'math.' in body: r += '\t"math"\n'
    if 'time.' in body: r += '\t"time"\n'
    return f'import (\n{r})\n\n' if r else ''
def out(name, body):
    open(os.path.join(D, name), 'w').write(HEAD + imp(body) + body)

# ---- C07
b = ''
for t, (gt, n) in scal.items():
    pre = '\tvRequires(len(v) <= math.MaxUint32)\n' if n is None else ''
    inp = 'v ' + gt
    b += f'''//verif:prop C07
func H_rt_{t}(buf []byte, k uint32, {inp}) {{
{pre}	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, {room(t)}))
	e.Write{t}(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.Read{t}()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", {eq(t, 'got', 'v')})
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}}

'''
for t, r in (('ArraySize', 5), ('MapSize', 5)):
    b += f'''//verif:prop C07
func H_rt_{t}(buf []byte, k uint32, v uint32) {{
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	e.Write{t}(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.Read{t}()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", got == v)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}}

'''
b += '''//verif:prop C07
func H_rt_Nil(buf []byte, k uint32) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1))
	e.WriteNil()
	d := vDecAt(buf, k)
	got, err := d.IsNextNil()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", got)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

//verif:prop C07
func H_rt_Time(buf []byte, k uint32, sec int64, nsec int64) {
	vRequires(nsec >= 0 && nsec < 1000000000)
	v := time.Unix(sec, nsec)
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 15))
	e.WriteTime(v)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadTime()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
	vEnsures("value", got.Unix() == v.Unix() && got.Nanosecond() == v.Nanosecond())
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}

'''
# a value written before leaves the next one readable: composition of two items
b += '''// Two items in a row: the second is found where the first ended, and writing
// the second leaves the first as it was.
//
//verif:prop C07
func H_rt_sequence(buf []byte, k uint32, v string, w int32, bs []byte) {
	vRequires(len(v) <= math.MaxUint32 && len(bs) <= math.MaxUint32)
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5+len(v)+5+5+len(bs)))
	e.WriteString(v)
	e.WriteInt32(w)
	e.WriteByteArray(bs)
	d := vDecAt(buf, k)
	v2, err1 := d.ReadString()
	w2, err2 := d.ReadInt32()
	bs2, err3 := d.ReadByteArray()
	vEnsures("noerror", e.Err() == nil && err1 == nil && err2 == nil && err3 == nil)
	vEnsures("first", v2 == v)
	vEnsures("second", w2 == w)
	vEnsures("third", vEq(bs2, bs))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}
'''
out('c07.go', b)

# ---- C08
b = ''
for t, (gt, n) in list(scal.items()) + [('ArraySize', ('uint32', 5)), ('MapSize', ('uint32', 5))]:
    pre = '\tvRequires(len(v) <= math.MaxUint32-16)\n' if n is None else ''
    b += f'''//verif:prop C08
func H_size_{t}(buf []byte, k uint32, start uint32, v {gt}) {{
{pre}	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, {room(t)}))
	vRequires(uint64(start)+uint64({room(t)}) <= math.MaxUint32)
	s.Write{t}(v)
	e.Write{t}(v)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}}

'''
for t, (gt, n) in scal.items():
    if t == 'ByteArray': ptr = '[]byte'
    else: ptr = '*' + gt
    arg = '&v'
    if t == 'ByteArray': arg = 'v'
    pre = '\tvRequires(len(v) <= math.MaxUint32-16)\n' if n is None else ''
    b += f'''//verif:prop C08
func H_size_Nillable{t}(buf []byte, k uint32, start uint32, present bool, v {gt}) {{
{pre}	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, {room(t)}))
	vRequires(uint64(start)+uint64({room(t)}) <= math.MaxUint32)
	var p {ptr}
	if present {{
		p = {arg}
	}}
	s.WriteNillable{t}(p)
	e.WriteNillable{t}(p)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}}

'''
b += '''//verif:prop C08
func H_size_Nil(buf []byte, k uint32, start uint32) {
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 1) && start < math.MaxUint32)
	s.WriteNil()
	e.WriteNil()
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k) && e.Err() == nil)
}

//verif:prop C08
func H_size_Time(buf []byte, k uint32, start uint32, sec int64, nsec int64, present bool) {
	vRequires(nsec >= 0 && nsec < 1000000000)
	v := time.Unix(sec, nsec)
	s := NewSizer()
	s.length = start
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 15) && start <= math.MaxUint32-15)
	if present {
		s.WriteTime(v)
		e.WriteTime(v)
	} else {
		s.WriteNillableTime(&v)
		e.WriteNillableTime(&v)
	}
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("size", int(s.Len())-int(start) == vEncPos(&e)-int(k))
}

// The two passes of ToBytes: a buffer of the size pass's length is filled exactly.
//
//verif:prop C08
func H_size_filled(name string, n int64, b []byte, ok bool) {
	vRequires(len(name) <= 1<<30 && len(b) <= 1<<30)
	s := NewSizer()
	s.WriteString(name)
	s.WriteInt64(n)
	s.WriteByteArray(b)
	s.WriteBool(ok)
	buf := make([]byte, s.Len())
	e := NewEncoder(buf)
	e.WriteString(name)
	e.WriteInt64(n)
	e.WriteByteArray(b)
	e.WriteBool(ok)
	vEnsures("noerror", e.Err() == nil && s.Err() == nil)
	vEnsures("filled", vEncPos(&e) == len(buf))
}
'''
out('c08.go', b)

# ---- C13
b = ''
for t, (gt, n) in scal.items():
    if t == 'ByteArray': continue
    pre = '\tvRequires(len(v) <= math.MaxUint32)\n' if n is None else ''
    b += f'''//verif:prop C13
func H_opt_{t}(buf []byte, k uint32, present bool, v {gt}) {{
{pre}	var p *{gt}
	if present {{
		p = &v
	}}
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, {room(t)}))
	e.WriteNillable{t}(p)
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadNillable{t}()
	vEnsures("noerror", e.Err() == nil && err == nil)
	vEnsures("absent iff absent", (got == nil) == !present)
	vEnsures("value", !present || {eq(t, '*got', 'v')})
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
	vEnsures("one nil byte", present || vEncPos(&e) == int(k)+1 && buf[k] == FormatNil)
}}

'''
b += '''//verif:prop C13
func H_opt_ByteArray(buf []byte, k uint32, present bool, v []byte) {
	vRequires(len(v) <= math.MaxUint32)
	var p []byte
	if present {
		vRequires(v != nil)
		p = v
	}
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5+len(v)))
	e.WriteNillableByteArray(p)
	d := vDecAt(buf, k)
	got, err := d.ReadNillableByteArray()
	vEnsures("noerror", e.Err() == nil && err == nil)
	vEnsures("absent iff absent", (got == nil) == !present)
	vEnsures("value", !present || vEq(got, v))
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
	vEnsures("one nil byte", present || vEncPos(&e) == int(k)+1 && buf[k] == FormatNil)
}

//verif:prop C13
func H_opt_Time(buf []byte, k uint32, present bool, sec int64, nsec int64) {
	vRequires(nsec >= 0 && nsec < 1000000000)
	v := time.Unix(sec, nsec)
	var p *time.Time
	if present {
		p = &v
	}
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 15))
	e.WriteNillableTime(p)
	d := vDecAt(buf, k)
	got, err := d.ReadNillableTime()
	vEnsures("noerror", e.Err() == nil && err == nil)
	vEnsures("absent iff absent", (got == nil) == !present)
	vEnsures("value", !present || got.Unix() == v.Unix() && got.Nanosecond() == v.Nanosecond())
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
	vEnsures("one nil byte", present || vEncPos(&e) == int(k)+1 && buf[k] == FormatNil)
}
'''
out('c13.go', b)

# ---- C14
b = ''
lim = {'Int8': ('-1<<7', '1<<7-1'), 'Int16': ('-1<<15', '1<<15-1'), 'Int32': ('-1<<31', '1<<31-1'), 'Int64': ('-1<<63', '1<<63-1')}
ulim = {'Uint8': '1<<8-1', 'Uint16': '1<<16-1', 'Uint32': '1<<32-1', 'Uint64': '1<<64-1'}
for t in ints + uints:
    g = t.lower()
    fit = f'v >= {lim[t][0]} && v <= {lim[t][1]}' if t in lim else (f'v >= 0 && uint64(v) <= {ulim[t]}')
    b += f'''// A signed value read as {g}.
//
//verif:prop C14
func H_narrow_Int_{t}(buf []byte, k uint32, v int64) {{
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteInt64(v)
	d := vDecAt(buf, k)
	got, err := d.Read{t}()
	fits := {fit}
	vEnsures("exact when it fits", !fits || err == nil && int64(got) == v)
	vEnsures("error when it does not", fits || err != nil)
}}

'''
    fitu = f'v <= {ulim[t]}' if t in ulim else f'v <= uint64({lim[t][1]})'
    b += f'''// An unsigned value read as {g}: never an altered number.
//
//verif:prop C14
func H_narrow_Uint_{t}(buf []byte, k uint32, v uint64) {{
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 9))
	e.WriteUint64(v)
	d := vDecAt(buf, k)
	got, err := d.Read{t}()
	fits := {fitu}
	vEnsures("exact or an error", err != nil || fits && uint64(got) == v)
	vEnsures("error when it does not fit", fits || err != nil)
''' + (f'''	vEnsures("exact when it fits", !fits || err == nil)
''' if t in ulim else '''	vEnsures("small values are read", v > 127 || err == nil)
''') + '''}

'''
# arbitrary bytes: the number returned is the one the bytes denote
for t in ints + uints:
    g = t.lower()
    b += f'''// Whatever the input bytes are, a returned number is the number they denote.
//
//verif:prop C14
func H_denotes_{t}(buf []byte, k uint32) {{
	d := vDecAt(buf, k)
	got, err := d.Read{t}()
	isInt, neg, mag, size := vIntAt(buf, int(k))
	vEnsures("an integer was there", err != nil || isInt)
	vEnsures("exact", err != nil || neg == (got < 0) && (neg && uint64(-int64(got)) == mag || !neg && uint64(got) == mag))
	vEnsures("consumed", err != nil || vDecPos(&d) == int(k)+size)
}}

'''
b += '''// vIntAt decodes the MessagePack integer at p according to the specification:
// whether there is one, its sign, its magnitude and the bytes it takes.
func vIntAt(b []byte, p int) (isInt bool, neg bool, mag uint64, size int) {
	if p >= len(b) {
		return false, false, 0, 0
	}
	c := b[p]
	n := len(b) - p
	switch {
	case c <= 0x7f:
		return true, false, uint64(c), 1
	case c >= 0xe0:
		return true, true, 256 - uint64(c), 1
	case c == 0xcc && n >= 2:
		return true, false, vBE(b, p+1, 1), 2
	case c == 0xcd && n >= 3:
		return true, false, vBE(b, p+1, 2), 3
	case c == 0xce && n >= 5:
		return true, false, vBE(b, p+1, 4), 5
	case c == 0xcf && n >= 9:
		return true, false, vBE(b, p+1, 8), 9
	case c == 0xd0 && n >= 2:
		v := int64(int8(vBE(b, p+1, 1)))
		return true, v < 0, vAbs(v), 2
	case c == 0xd1 && n >= 3:
		v := int64(int16(vBE(b, p+1, 2)))
		return true, v < 0, vAbs(v), 3
	case c == 0xd2 && n >= 5:
		v := int64(int32(vBE(b, p+1, 4)))
		return true, v < 0, vAbs(v), 5
	case c == 0xd3 && n >= 9:
		v := int64(vBE(b, p+1, 8))
		return true, v < 0, vAbs(v), 9
	}
	return false, false, 0, 0
}

func vAbs(v int64) uint64 {
	if v < 0 {
		return uint64(-v)
	}
	return uint64(v)
}
'''
out('c14.go', b)
