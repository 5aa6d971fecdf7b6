def T(body, imports=()):
    return 'package msgpack\n\nimport (\n\t"testing"\n' + ''.join('\t"%s"\n' % i for i in imports) + ')\n\nfunc TestSeedDemo(t *testing.T) {\n' + body + '}\n'
SEEDS = [
 dict(id='s01', prop='C07', pkg='msgpack',
  edits=[('msgpack/encoder.go', '''func (e *Encoder) writeStringLength(length uint32) {
	if length < 32 {
		e.reader.SetUint8(uint8(length) | FormatFixString)
	} else if length <= math.MaxUint8 {
		e.reader.SetUint8(FormatString8)
		e.reader.SetUint8(uint8(length))
	} else if length <= math.MaxUint16 {''', '''func (e *Encoder) writeStringLength(length uint32) {
	if length < 32 {
		e.reader.SetUint8(uint8(length) | FormatFixString)
	} else if length <= math.MaxUint8 {
		e.reader.SetUint8(FormatString8)
		e.reader.SetUint8(uint8(length))
	} else if length>>16 <= 1 && length&0xffff == 0 || length <= math.MaxUint16 {''')],
  needs='a string of exactly 65536 bytes', breaks='its length is written as 0 and it reads back empty',
  test=T('''	for _, n := range []int{31, 32, 255, 256, 65535, 65536, 65537} {
		buf := make([]byte, n+8)
		e := NewEncoder(buf)
		e.WriteString(string(make([]byte, n)))
		d := NewDecoder(buf)
		got, err := d.ReadString()
		if err != nil || len(got) != n {
			t.Fatal(n, len(got), err)
		}
	}
''')),
 dict(id='s02', prop='C14', pkg='msgpack',
  edits=[('msgpack/decoder.go', '''	case FormatInt16:
		v, err := d.reader.GetInt16()
		if v < 0 {
			return 0, ReadError{"bad prefix for uint"}
		}
''', '''	case FormatInt16:
		v, err := d.reader.GetInt16()
		if v < math.MinInt8 {
			return 0, ReadError{"bad prefix for uint"}
		}
''')],
  needs='a negative int16 no smaller than -128 sent in 16 bit form by another encoder', breaks='reading it as unsigned yields a huge number instead of an error',
  test=T('''	d := NewDecoder([]byte{0xd1, 0xff, 0xfb})
	if v, err := d.ReadUint64(); err == nil {
		t.Fatal(v)
	}
''')),
 dict(id='s03', prop='C08', pkg='msgpack',
  edits=[('msgpack/sizer.go', '''func (s *Sizer) WriteMapSize(length uint32) {
	if length < 16 {
		s.length++
	} else if length <= math.MaxUint16 {''', '''func (s *Sizer) WriteMapSize(length uint32) {
	if length < 16 {
		s.length++
	} else if length <= math.MaxUint16+1 {''')],
  needs='a map of exactly 65536 entries', breaks='the size pass counts three bytes for the header where the encoder writes five, so the buffer is too short',
  test=T('''	for _, n := range []uint32{15, 16, 65535, 65536, 65537} {
		s := NewSizer()
		s.WriteMapSize(n)
		e := NewEncoder(make([]byte, s.Len()))
		e.WriteMapSize(n)
		if e.Err() != nil {
			t.Fatal(n, s.Len(), e.Err())
		}
	}
''')),
 dict(id='s04', prop='C09', pkg='msgpack',
  edits=[('msgpack/encoder.go', '''	if secs>>34 == 0 {
		data := uint64''', '''	if secs>>35 == 0 {
		data := uint64''')],
  needs='a time between the years 2514 and 3058', breaks='the seconds run into the nanoseconds of the 64 bit timestamp form',
  test=T('''	for y := 1990; y < 3200; y += 10 {
		tm := time.Date(y, 1, 1, 0, 0, 0, 1, time.UTC)
		buf := make([]byte, 32)
		e := NewEncoder(buf)
		e.WriteTime(tm)
		d := NewDecoder(buf)
		got, err := d.ReadTime()
		if err != nil || !got.Equal(tm) {
			t.Fatal(tm, got, err)
		}
	}
''', ['time'])),
 dict(id='s05', prop='C13', pkg='msgpack',
  edits=[('msgpack/decoder.go', '''func (d *Decoder) ReadNillableByteArray() ([]byte, error) {
	isNil, err := d.IsNextNil()
	if isNil || err != nil {
		return nil, err
	}
	return d.ReadByteArray()''', '''func (d *Decoder) ReadNillableByteArray() ([]byte, error) {
	v, err := d.ReadByteArray()
	if err != nil || len(v) == 0 {
		return nil, err
	}
	return v, nil''')],
  needs='an optional byte array that is present and empty', breaks='it reads back as absent',
  test=T('''	buf := make([]byte, 8)
	e := NewEncoder(buf)
	e.WriteNillableByteArray([]byte{})
	d := NewDecoder(buf)
	got, err := d.ReadNillableByteArray()
	if err != nil || got == nil {
		t.Fatal(got, err)
	}
''')),
]
