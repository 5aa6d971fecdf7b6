#!/usr/bin/env python3
"""Writes contracts/msgpack/c12.go: dynamically typed values."""
out = ['''//verif:pkg msgpack
package msgpack

// Generated by tools/gen_c12.py.

import (
	"math"
	"time"
)

''']
ints = ['int8', 'int16', 'int32', 'int64', 'int']
uints = ['uint8', 'uint16', 'uint32', 'uint64', 'uint']
def chk(t, got, v):
    if t in ints: return f'vIsInt({got}, int64({v}))'
    if t in uints: return f'vIsUint({got}, uint64({v}))'
    return {'bool': f'vIsBool({got}, {v})', 'float32': f'vIsFloat32({got}, {v})', 'float64': f'vIsFloat64({got}, {v})',
            'string': f'vIsString({got}, {v})', '[]byte': f'vIsBytes({got}, {v})', 'time.Time': f'vIsTime({got}, {v})'}[t]
size = {'int8':2,'int16':3,'int32':5,'int64':9,'int':9,'uint8':2,'uint16':3,'uint32':5,'uint64':9,'uint':9,'bool':1,'float32':5,'float64':9,'string':'5+len(v)','[]byte':'5+len(v)','time.Time':15}
def cap(t): return {'[]byte':'ByteArray','time.Time':'Time'}.get(t, t[0].upper()+t[1:])
out8 = ['''//verif:pkg msgpack
package msgpack

// Generated by tools/gen_c12.py: what the ToBytes functions make is exactly the encoding.

import (
	"math"
	"time"
)
''']
def h8(name, params, pre, call, read, checks, bounded=None):
    hdr = '//verif:prop C08\n' + (f'//verif:bounded {bounded}\n' if bounded else '')
    body = ''.join(f'\t{p}\n' for p in pre)
    cs = ''.join(f'\tvEnsures("{n}", {c})\n' if n else f'\t{c}\n' for n, c in checks)
    out8.append(f'''
{hdr}func H_bytes_{name}({", ".join(params)}) {{
{body}	enc, berr := {call}
	vEnsures("no error", berr == nil)
	d := NewDecoder(enc)
	got, err := {read}
	vEnsures("readable", err == nil && d.Err() == nil)
{cs}	vEnsures("exact size", vDecPos(&d) == len(enc))
}}
''')
def h(name, params, pre, value, checks, room, bounded=None, opts=()):
    h8('Any'+name, params, [p.replace('math.MaxUint32)','math.MaxUint32-16)') for p in pre], f'AnyToBytes({value})', 'd.ReadAny()', checks, bounded)
    hdr = '//verif:prop C12\n' + (f'//verif:bounded {bounded}\n' if bounded else '') + ''.join(f'//verif:{o}\n' for o in opts)
    body = ''.join(f'\t{p}\n' for p in pre)
    cs = ''.join(f'\tvEnsures("{n}", {c})\n' if n else f'\t{c}\n' for n, c in checks)
    out.append(f'''
{hdr}func H_dyn_{name}(buf []byte, k uint32{"".join(", "+p for p in params)}) {{
{body}	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, {room}))
	e.WriteAny({value})
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadAny()
	vEnsures("noerror", e.Err() == nil && err == nil && d.Err() == nil)
{cs}	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}}
''')
h('Nil', [], [], 'nil', [('value', 'got == nil')], 1)
for t in ['bool']+ints+uints+['float32','float64','string','[]byte']:
    pre = ['vRequires(len(v) <= math.MaxUint32)'] if t in ('string','[]byte') else []
    # the bytes written stay what they were when the source is changed afterwards
    h(cap(t), [f'v {t}'], pre, 'v', [('value', chk(t,'got','v'))], size[t])
h('Time', ['sec, nsec int64'], ['vRequires(nsec >= 0 && nsec < 1000000000)','v := time.Unix(sec, nsec)'], 'v', [('value', chk('time.Time','got','v'))], 15)
# a dynamic value inside lists and maps
B='lists of two elements'
h('SliceTime', ['s1, n1, s2, n2 int64'], ['vRequires(n1 >= 0 && n1 < 1000000000 && n2 >= 0 && n2 < 1000000000)','a, b := time.Unix(s1, n1), time.Unix(s2, n2)'], '[]time.Time{a, b}', [(None,'l, ok := vIsList(got, 2)'),('list','ok'),('first',chk('time.Time','l[0]','a')),('second',chk('time.Time','l[1]','b'))], 31, 'two elements')
h('EmptyTime', [], [], '[]time.Time{}', [(None,'_, ok := vIsList(got, 0)'),('list','ok')], 1)
h('Slice20', ['a bool'], [], 'make20(a)', [(None,'l, ok := vIsList(got, 20)'),('list','ok'),('first','l[0] == nil'),('last',chk('bool','l[19]','a'))], 23, 'twenty elements')

for t in ['string','bool','int','int8','int16','int32','int64','uint','uint16','uint32','uint64']:
    if t=='string':
        sz='11+len(a)+len(b)'
    else: sz=1+2*size[t]
    pre = ['vRequires(len(a) <= 40 && len(b) <= 40)'] if t=='string' else []
    h('Slice'+cap(t), [f'a, b {t}'], pre, f'[]{t}{{a, b}}', [(None,'l, ok := vIsList(got, 2)'),('list','ok'),('first',chk(t,'l[0]','a')),('second',chk(t,'l[1]','b'))], sz, 'two elements'+(', strings of at most 40 bytes' if t=='string' else ''))
    h('Empty'+cap(t), [], [], f'[]{t}{{}}', [(None,'_, ok := vIsList(got, 0)'),('list','ok')], 1)
h('SliceAny', ['a int32','b bool','c float64'], [], '[]any{a, []any{b, nil}, c}', [
  (None,'l, ok := vIsList(got, 3)'),('list','ok'),('first',chk('int32','l[0]','a')),
  (None,'m, ok := vIsList(l[1], 2)'),('inner list','ok'),('inner',chk('bool','m[0]','b')+' && m[1] == nil'),
  ('third',chk('float64','l[2]','c'))], 20, 'one nested list')
h('MapStringString', ['a, b string'], ['vRequires(len(a) <= 10 && len(b) <= 10)'], 'map[string]string{a: b}', [
  (None,'m, ok := got.(map[any]any)'),('map','ok && len(m) == 1'),('value','vIsString(m[a], b)')], 25, 'one entry of short strings')
h('MapStringAny', ['a int32', 'b bool'], [], 'map[string]any{"x": a, "yy": []any{b}}', [
  (None,'m, ok := got.(map[any]any)'),('map','ok && len(m) == 2'),('value',chk('int32','m["x"]','a')),
  (None,'l, ok := vIsList(m["yy"], 1)'),('list','ok'),('inner',chk('bool','l[0]','b'))], 25, 'two entries')
for t in ints+uints+['any']:
    at = 'uint16' if t=='any' else t
    if t in uints or t=='any': check='vKeyU(m, uint64(a), b)'
    else: check='vKeyI(m, int64(a), b)'
    h('Map'+cap(t), [f'a {at}','b bool'], [], f'map[{t}]any{{a: b}}', [
      (None,'m, ok := got.(map[any]any)'),('map','ok && len(m) == 1'),('entry',check)], 20, 'one entry')
    h('EmptyMap'+cap(t), [], [], f'map[{t}]any{{}}', [
      (None,'m, ok := got.(map[any]any)'),('map','ok && len(m) == 0')], 1)
out.append('''
// Values that cannot be encoded are errors, alone and inside lists and maps.
type vNoCodec struct{ a int }

func vUnsupported(value any, buf []byte, k uint32) {
	e := vEncAt(buf, k)
	e.WriteAny(value)
	vCover("written")
	vEnsures("error", e.Err() != nil)
	var s Sizer
	s.WriteAny(value)
	vEnsures("size error", s.Err() != nil)
	_, err := AnyToBytes(value)
	vEnsures("bytes error", err != nil)
}
''')
for n, v in [('Struct','vNoCodec{a}'),('Pointer','&a'),('Func','func() {}'),('Chan','make(chan int)'),('Array','[2]int{1, a}'),('Slice','[]vNoCodec{{a}}'),
             ('Map','map[vNoCodec]any{{a}: a}'),('InList','[]any{a, vNoCodec{a}, a}'),('InMap','map[string]any{"x": vNoCodec{a}}'),('Deep','[]any{[]any{map[string]any{"x": &a}}}'),
             ('Uintptr','uintptr(a)')]:
    out.append(f'''
//verif:prop C12
func H_unsup_{n}(buf []byte, k uint32, a int) {{
	vUnsupported({v}, buf, k)
}}
''')
out.append('''
// A Codec is written by its own Encode, and its errors are not lost.
//verif:prop C12
func H_dyn_Codec(buf []byte, k uint32, a int32, fail bool) {
	e := vEncAt(buf, k)
	vRequires(vRoom(buf, k, 5))
	var want error
	if fail {
		want = ErrUnsupported
	}
	e.WriteAny(vCodec{a, want})
	vEnsures("error", (e.Err() != nil) == fail)
	if fail {
		return
	}
	vCover("written")
	d := vDecAt(buf, k)
	got, err := d.ReadInt32()
	vEnsures("value", err == nil && got == a)
	vEnsures("consumed", vDecPos(&d) == vEncPos(&e))
}
''')

# every format an encoder may use, not only the shortest
def r(name, params, pre, checks, bounded=None):
    hdr = '//verif:prop C12\n' + (f'//verif:bounded {bounded}\n' if bounded else '')
    body = ''.join(f'\t{p}\n' for p in pre)
    cs = ''.join(f'\tvEnsures("{n}", {c})\n' if n else f'\t{c}\n' for n, c in checks)
    out.append(f'''
{hdr}func H_readany_{name}(buf []byte, k uint32{"".join(", "+p for p in params)}) {{
	d := vDecAt(buf, k)
	p := int(k)
{body}	got, err := d.ReadAny()
	vCover("read")
	vEnsures("noerror", err == nil && d.Err() == nil)
{cs}}}
''')
for nm, fmt, w in [('Str8',0xd9,1),('Str16',0xda,2),('Str32',0xdb,4)]:
    r(nm, [], [f'vRequires(p+{1+w} <= len(buf) && buf[p] == {fmt:#x})', f'n := int(vBE(buf, p+1, {w}))', f'vRequires(n <= len(buf)-p-{1+w})'],
      [(None,'g, ok := got.(string)'),('value', f'ok && vEqS(g, buf[p+{1+w}:p+{1+w}+n])'),('consumed',f'vDecPos(&d) == p+{1+w}+n')])
for nm, fmt, w in [('Bin8',0xc4,1),('Bin16',0xc5,2),('Bin32',0xc6,4)]:
    r(nm, [], [f'vRequires(p+{1+w} <= len(buf) && buf[p] == {fmt:#x})', f'n := int(vBE(buf, p+1, {w}))', f'vRequires(n <= len(buf)-p-{1+w})'],
      [(None,'g, ok := got.([]byte)'),('value', f'ok && vEq(g, buf[p+{1+w}:p+{1+w}+n])'),('consumed',f'vDecPos(&d) == p+{1+w}+n')])
for nm, fmt, w, g in [('Int8',0xd0,1,'int8'),('Int16',0xd1,2,'int16'),('Int32',0xd2,4,'int32'),('Int64',0xd3,8,'int64'),('Uint8',0xcc,1,'uint8'),('Uint16',0xcd,2,'uint16'),('Uint32',0xce,4,'uint32'),('Uint64',0xcf,8,'uint64')]:
    ck = f'vIsInt(got, int64({g}(v)))' if g[0]=='i' else 'vIsUint(got, v)'
    r(nm, [], [f'vRequires(p+{1+w} <= len(buf) && buf[p] == {fmt:#x})', f'v := vBE(buf, p+1, {w})'], [('value', ck),('consumed',f'vDecPos(&d) == p+{1+w}')])
r('Float32', [], ['vRequires(p+5 <= len(buf) && buf[p] == 0xca)'], [(None,'g, ok := got.(float32)'),('value','ok && uint64(math.Float32bits(g)) == vBE(buf, p+1, 4)'),('consumed','vDecPos(&d) == p+5')])
r('Float64', [], ['vRequires(p+9 <= len(buf) && buf[p] == 0xcb)'], [(None,'g, ok := got.(float64)'),('value','ok && math.Float64bits(g) == vBE(buf, p+1, 8)'),('consumed','vDecPos(&d) == p+9')])
for nm, fmt, w in [('Array16',0xdc,2),('Array32',0xdd,4)]:
    r(nm, ['n int'], [f'vRequires(n >= 0 && n <= 3 && p+{1+w}+n <= len(buf) && buf[p] == {fmt:#x} && int(vBE(buf, p+1, {w})) == n)', f'e := buf[p+{1+w}:]', 'vRequires((n < 1 || e[0] <= 0x7f) && (n < 2 || e[1] <= 0x7f) && (n < 3 || e[2] <= 0x7f))'],
      [(None,'l, ok := vIsList(got, n)'),('list','ok'),('elements','(n < 1 || vIsInt(l[0], int64(e[0]))) && (n < 2 || vIsInt(l[1], int64(e[1]))) && (n < 3 || vIsInt(l[2], int64(e[2])))'),('consumed',f'vDecPos(&d) == p+{1+w}+n')], 'at most three elements')
for nm, fmt, w in [('Map16',0xde,2),('Map32',0xdf,4)]:
    r(nm, [], [f'vRequires(p+{1+w}+2 <= len(buf) && buf[p] == {fmt:#x} && int(vBE(buf, p+1, {w})) == 1)', f'e := buf[p+{1+w}:]', 'vRequires(e[0] <= 0x7f && (e[1] == 0xc2 || e[1] == 0xc3))'],
      [(None,'m, ok := got.(map[any]any)'),('map','ok && len(m) == 1'),('entry','vKeyI(m, int64(e[0]), e[1] == 0xc3)'),('consumed',f'vDecPos(&d) == p+{1+w}+2')], 'one entry')
TB=[('I8','int8','Int8'),('I16','int16','Int16'),('I32','int32','Int32'),('I64','int64','Int64'),('U8','uint8','Uint8'),('U16','uint16','Uint16'),('U32','uint32','Uint32'),('U64','uint64','Uint64'),('Bool','bool','Bool'),('F32','float32','Float32'),('F64','float64','Float64'),('String','string','String'),('Bytes','[]byte','ByteArray')]
for n,t,r in TB:
    eq={'float32':'math.Float32bits(got) == math.Float32bits(v)','float64':'math.Float64bits(got) == math.Float64bits(v)','[]byte':'vEq(got, v)'}.get(t,'got == v')
    pre=['vRequires(len(v) <= math.MaxUint32-16)'] if t in('string','[]byte') else []
    h8(n,[f'v {t}'],pre,f'{n}ToBytes(v)',f'd.Read{r}()',[('value',eq)])
h8('Time',['sec, nsec int64'],['vRequires(nsec >= 0 && nsec < 1000000000)','v := time.Unix(sec, nsec)'],'TimeToBytes(v)','d.ReadTime()',[('value','got.Equal(v)')])
for n,t in [('Bool','bool'),('Int32','int32'),('String','string')]:
    pre=[f'v := []{t}{{}}','if n > 0 {\n\t\tv = append(v, x)\n\t}','if n > 1 {\n\t\tv = append(v, y)\n\t}']
    if t=='string': pre=['vRequires(len(x) <= 40 && len(y) <= 40)']+pre
    h8('Slice'+n,[f'x, y {t}','n int'],['vRequires(n >= 0 && n <= 2)']+pre,f'SliceToBytes(v, func(w Writer, e {t}) {{ w.Write{n}(e) }})',f'ReadSlice(Reader(&d), func(r Reader) ({t}, error) {{ return r.Read{n}() }})',
       [('length','len(got) == n'),('elements','(n < 1 || got[0] == x) && (n < 2 || got[1] == y)')],'at most two elements')
h8('Map',['a uint16','b bool','c uint16','e bool','n int'],['vRequires(n >= 0 && n <= 2 && a != c)','v := map[uint16]bool{}','if n > 0 {\n\t\tv[a] = b\n\t}','if n > 1 {\n\t\tv[c] = e\n\t}'],
   'MapToBytes(v, func(w Writer, e uint16) { w.WriteUint16(e) }, func(w Writer, e bool) { w.WriteBool(e) })',
   'ReadMap(Reader(&d), func(r Reader) (uint16, error) { return r.ReadUint16() }, func(r Reader) (bool, error) { return r.ReadBool() })',
   [('length','len(got) == n'),('entries','(n < 1 || got[a] == b) && (n < 2 || got[c] == e)')],'at most two entries')
out8.append('''
//verif:prop C08
func H_bytes_Codec(a int32, fail bool) {
	var want error
	if fail {
		want = ErrUnsupported
	}
	b, err := ToBytes(vCodec{a, want})
	vEnsures("error", (err != nil) == fail)
	if fail {
		return
	}
	d := NewDecoder(b)
	got, derr := d.ReadInt32()
	vEnsures("value", derr == nil && got == a)
	vEnsures("exact size", vDecPos(&d) == len(b))
}
''')
open('/verif/contracts/msgpack/c08b.go','w').write(''.join(out8))
open('/verif/contracts/msgpack/c12.go','w').write(''.join(out))
