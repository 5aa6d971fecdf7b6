def T(pkg, body, imports=(), top=''):
    return 'package %s\n\nimport (\n\t"testing"\n' % pkg + ''.join('\t"%s"\n' % i for i in imports) + ')\n\n' + top + 'func TestSeedDemo(t *testing.T) {\n' + body + '}\n'
P='github.com/nanobus/iota/go/'
SEEDS = [
 dict(id='s06', prop='C19', pkg='internal/buffer',
  edits=[('internal/buffer/unbounded.go', '''	if len(b.backlog) == 0 {
		select {
		case b.c <- t:
			b.mu.Unlock()
			return
		default:
		}
	}
''','''	select {
	case b.c <- t:
		b.mu.Unlock()
		return
	default:
	}
''')],
  needs='a value put between reading from a backlogged queue and calling Load', breaks='the new value overtakes the backlog',
  test=T('buffer','''	b := NewUnbounded[int]()
	b.Put(1)
	b.Put(2)
	if v := <-b.Get(); v != 1 {
		t.Fatal(v)
	}
	b.Put(3)
	b.Load()
	if v := <-b.Get(); v != 2 {
		t.Fatal(v)
	}
''')),
 dict(id='s07', prop='C18', pkg='proxy',
  edits=[('proxy/lookup.go','''		nextNode.prev = nodeToDelete.prev
''','''		nextNode.prev = prevNode
		if prevNode == nil {
			nextNode.prev = nodeToDelete
		}
''')],
  needs='the first stream removed, then the one that followed it', breaks='the second removal leaves the stream in the table',
  test=T('proxy','''	l := &Lookup{}
	for id := uint32(1); id <= 3; id++ {
		l.Add(seedStream(id))
	}
	l.Remove(1)
	l.Remove(2)
	if _, ok := l.Get(2); ok || l.Size() != 1 {
		t.Fatal("still there")
	}
	if _, ok := l.Get(3); !ok {
		t.Fatal("lost")
	}
''',('context',P+'payload'),'''type seedStream uint32

func (s seedStream) StreamID() uint32         { return uint32(s) }
func (s seedStream) Context() context.Context { return nil }
func (s seedStream) OnNext(payload.Payload)   {}
func (s seedStream) OnComplete()              {}
func (s seedStream) OnError(error)            {}

''')),
 dict(id='s08', prop='C27', pkg='.', mod='types/uuid',
  edits=[('types/uuid/uuid.go','''		if b[0] != '{' || b[37] != '}' {''','''		if b[0] != '{' || b[len(b)-1] != '}' && b[len(b)-2] != '}' {''')],
  needs='38 bytes whose last but one is the closing brace', breaks='malformed text is accepted by ParseBytes as long as it reads as hexadecimal',
  test=T('uuid','''	s := []byte("{6ba7b810-9dad-11d1-80b4-00c04fd430c8}")
	if _, err := ParseBytes(s); err != nil {
		t.Fatal(err)
	}
	for i := range s {
		for _, c := range []byte{'x', '}', '{'} {
			b := append([]byte{}, s...)
			if b[i] == c {
				continue
			}
			b[i] = c
			if _, err := ParseBytes(b); err == nil {
				t.Fatal(string(b))
			}
		}
	}
	b := []byte("{6ba7b810-9dad-11d1-80b4-00c04fd430c8x")
	b[36] = '}'
	if _, err := ParseBytes(b); err == nil {
		t.Fatal(string(b))
	}
''')),
 dict(id='s09', prop='C17', pkg='internal/socket',
  edits=[('internal/socket/stream_id.go','''		return uint32(_maskStreamID & v), seed <= _halfSeed''','''		return uint32(v), seed <= _halfSeed''')],
  needs='a billion streams', breaks='the ids get a reserved bit',
  test=T('socket','''	p := ClientStreamIDs(1<<30)
	if id, _ := p.Next(); id >= 1<<31 || id%2 != 1 {
		t.Fatal(id)
	}
''')),
 dict(id='s10', prop='C15', pkg='operations',
  edits=[('operations/operatons.go','''		id := binary.BigEndian.Uint32(buf[2:6])''','''		id := uint32(binary.BigEndian.Uint16(buf[4:6]))''')],
  needs='an operation whose index is above 65535', breaks='it is parsed with another index',
  test=T('operations','''	b, err := FromBytes(Table{{Index: 1 << 16, Type: RequestStream, Direction: Export, Namespace: "n", Operation: "o"}}.ToBytes())
	if err != nil || b[0].Index != 1<<16 {
		t.Fatal(err, b)
	}
''')),
 dict(id='s11', prop='C20', pkg='rx/mono',
  edits=[('rx/mono/mono.go','''	s.err = err
	s.closed = true
	if s.doOnError != nil {
		s.doOnError(err)
	}
''','''	s.err = err
	if s.doOnError != nil {
		s.doOnError(err)
	}
	s.closed = true
''')],
  needs='a source that signals again while its error is handled', breaks='two terminal signals',
  test=T('mono','''	var sink Sink[int]
	n := 0
	Create(func(s Sink[int]) { sink = s }).Subscribe(Subscribe[int]{
		OnSuccess: func(int) { n++ },
		OnError:   func(error) { n++; sink.Success(1) },
	})
	sink.Error(errors.New("x"))
	if n != 1 {
		t.Fatal(n)
	}
''',('errors',))),
 dict(id='s12', prop='C30', pkg='invoke',
  edits=[('invoke/portio.go','''	binary.BigEndian.PutUint16(payload, uint16(len(f.Port)))''','''	binary.BigEndian.PutUint16(payload, uint16(len(f.Port)&0x7fff))''')],
  needs='a port name of 32768 bytes or more', breaks='part of the name is read as data',
  test=T('invoke','''	p := PortIO{Port: string(make([]byte, 40000)), Data: []byte{1}}
	var q PortIO
	if err := q.Decode(p.Encode()); err != nil || q.Port != p.Port || len(q.Data) != 1 {
		t.Fatal(len(q.Port), err)
	}
''')),
 dict(id='s13', prop='C35', pkg='transform',
  edits=[('transform/transform.go','''		sizer.WriteInt64(int64(value))
		buf := make([]byte, sizer.Len())
		encoder := msgpack.NewEncoder(buf)
		encoder.WriteInt64(int64(value))
''','''		sizer.WriteInt64(int64(int32(value)))
		buf := make([]byte, sizer.Len())
		encoder := msgpack.NewEncoder(buf)
		encoder.WriteInt64(int64(value))
''')],
  needs='an integer that needs more than 32 bits', breaks='its payload is too short and reads back wrong',
  test=T('transform','''	for _, v := range []int{0, 200, -200, 1 << 20, 1 << 40, -1 << 40} {
		p, err := Int.Encode(v)
		if err != nil {
			t.Fatal(v, err)
		}
		if got, err := Int.Decode(p); err != nil || got != v {
			t.Fatal(v, got, err)
		}
	}
''')),
 dict(id='s14', prop='C36', pkg='rx/flow',
  edits=[('rx/flow/flow.go','''	f.completed = 0
	step := f.steps[0]''','''	step := f.steps[0]'''),
         ('rx/flow/flow.go','''	if f.completed >= len(f.awaitables) {
		f.next()
	}
''','''	if f.completed >= len(f.awaitables) {
		f.completed = 0
		f.next()
	}
''')],
  needs='a step that waits for two things of which the first is already there when it starts, behind another such step', breaks='', 
  test=''),
 dict(id='s15', prop='C01', pkg='internal/frames',
  edits=[('internal/frames/frame_header.go','return FrameFlag(h.n() & 0x03FF)','return FrameFlag(h.n() & 0x01FF)')],
  needs='a frame with metadata read through its header', breaks='the metadata flag gets lost',
  test=T('frames','''	f := &Payload{StreamID: 1, Metadata: []byte{1, 2}, Data: []byte{3}, Next: true}
	b := make([]byte, f.Size())
	f.Encode(b)
	h := ParseFrameHeader(b)
	var g Payload
	if err := g.Decode(&h, b[FrameHeaderLen:]); err != nil || len(g.Metadata) != 2 || len(g.Data) != 1 {
		t.Fatal(g, err)
	}
''')),
 dict(id='s16', prop='C25', pkg='transport/wasmrs/host',
  edits=[('transport/wasmrs/host/instance.go','''	if len(metadata) < 8 { // 48 before... but why?''','''	if len(metadata) <= 8 { // 48 before... but why?''')],
  needs='', breaks='', test=''),
 dict(id='s17', prop='C28', pkg='.', mod='types/uuid',
  edits=[('types/uuid/version4.go','''		poolPos = 0
''','''		poolPos = 8
''')],
  needs='', breaks='', test=''),
 dict(id='s18', prop='C05', pkg='transport/rsocket',
  edits=[('transport/rsocket/decoder.go','''	maxBuffSize     = 16*1024*1024 + lengthFieldSize''','''	maxBuffSize     = 16*1024*1024''')],
  needs='a frame of nearly the greatest length', breaks='the stream ends with an error instead of the frame',
  test=T('rsocket','''	for _, n := range []int{100, 1<<24 - 1} {
		b := make([]byte, 3+n)
		b[0], b[1], b[2] = byte(n>>16), byte(n>>8), byte(n)
		d := NewLengthBasedFrameDecoder(bytes.NewReader(b))
		raw, err := d.Read()
		if err != nil || len(raw) != n {
			t.Fatal(n, len(raw), err)
		}
	}
''',('bytes',))),
 dict(id='s19', prop='C22', pkg='rx/mono',
  edits=[('rx/mono/mono.go','''		OnError:   sub.OnError,
		OnRequest: sub.OnRequest,
''','''		OnError: func(err error) {
			if sub.Finally == nil || sub.OnSuccess == nil {
				sub.OnError(err)
			}
		},
		OnRequest: sub.OnRequest,
''')],
  needs='', breaks='', test=''),
 dict(id='s20', prop='C29', pkg='.', mod='types/uuid',
  edits=[('types/uuid/time.go','''	nsec = (nsec % 10000000) * 100''','''	nsec = (nsec % 1000000) * 100''')], needs='',breaks='',test=''),
]
SEEDS=[s for s in SEEDS if s['test']]
