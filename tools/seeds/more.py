import os
_g = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath('/verif/tools/seeds/rest.py')),'rest.py')).read().split('SEEDS')[0], _g)
T, P = _g['T'], _g['P']
STREAM = '''type seedStream uint32

func (s seedStream) StreamID() uint32         { return uint32(s) }
func (s seedStream) Context() context.Context { return nil }
func (s seedStream) OnNext(payload.Payload)   {}
func (s seedStream) OnComplete()              {}
func (s seedStream) OnError(error)            {}

'''
SEEDS = [
 dict(id='s08', prop='C27', pkg='.', mod='types/uuid',
  edits=[('types/uuid/uuid.go', '''	if b[8] != '-' || b[13] != '-' || b[18] != '-' || b[23] != '-' {''', '''	if b[8] != '-' || b[13] != '-' || b[18] != '-' || b[22] == '-' {''')],
  needs='text with something else in place of its last hyphen', breaks='ParseBytes accepts it',
  test=T('uuid','''	if _, err := ParseBytes([]byte("6ba7b810-9dad-11d1-80b4-00c04fd430c8")); err != nil {
		t.Fatal(err)
	}
	if _, err := ParseBytes([]byte("6ba7b810-9dad-11d1-80b4_00c04fd430c8")); err == nil {
		t.Fatal("accepted")
	}
''')),
 dict(id='s14', prop='C28', pkg='.', mod='types/uuid',
  edits=[('types/uuid/version4.go','''	if poolPos == randPoolSize {
		_, err := io.ReadFull(rander, pool[:])
		if err != nil {
			poolMu.Unlock()
			return UUID{}, err
		}
		poolPos = 0
	}
''','''	if poolPos == randPoolSize {
		poolPos = 0
		_, err := io.ReadFull(rander, pool[:])
		if err != nil {
			poolMu.Unlock()
			return UUID{}, err
		}
	}
''')],
  needs='the random source failing once while the pool is filled', breaks='the call after it hands out bytes that were used before',
  test=T('uuid','''	EnableRandPool()
	defer DisableRandPool()
	defer SetRand(nil)
	SetRand(seedReader{})
	if _, err := NewRandom(); err == nil {
		t.Fatal("no error")
	}
	if _, err := NewRandom(); err == nil {
		t.Fatal("a UUID out of nothing")
	}
''',('errors',),'''type seedReader struct{}

func (seedReader) Read([]byte) (int, error) { return 0, errors.New("none") }

''')),
 dict(id='s15', prop='C02', pkg='internal/frames',
  edits=[('internal/frames/request_payload.go','''	if f.FrameType == FrameTypeRequestChannel && f.Complete {''','''	if f.FrameType >= FrameTypeRequestFNF && f.Complete {''')],
  needs='a fire-and-forget request marked complete', breaks='it is written with a flag that this kind of frame does not have',
  test=T('frames','''	f := &RequestPayload{FrameType: FrameTypeRequestFNF, StreamID: 1, Data: []byte{1}, Complete: true}
	b := make([]byte, f.Size())
	f.Encode(b)
	if b[5]&0x40 != 0 {
		t.Fatalf("%x", b)
	}
''')),
 dict(id='s16', prop='C25', pkg='handler',
  edits=[('handler/handler.go','''	if len(metadata) < 8 { // 48 before... but why?''','''	if len(metadata) < 4 { // 48 before... but why?''')],
  needs='metadata of four to seven bytes', breaks='the request is not answered with an error but panics',
  test=T('handler','''	h := New(context.Background(), ServerMode)
	answers := make(chan frames.Frame, 1)
	h.SetFrameSender(func(f frames.Frame) error { answers <- f; return nil })
	invoke.ExportFireAndForget("ns", "op", func(context.Context, payload.Payload) {})
	h.HandleFrame(&frames.RequestPayload{FrameType: frames.FrameTypeRequestFNF, StreamID: 1, Metadata: make([]byte, 6)})
	select {
	case f := <-answers:
		if f.Type() != frames.FrameTypeError {
			t.Fatal(f)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("no answer")
	}
''',('context','time',P+'internal/frames',P+'invoke',P+'payload'))),
 dict(id='s17', prop='C24', pkg='proxy',
  edits=[('proxy/flux.go','''		s.request.InitialN = uint32(n)
''','''		s.request.InitialN = uint32(uint16(n))
''')],
  needs='a first demand of more than 65535 items', breaks='the request asks for fewer',
  test=T('proxy','''	sent := make(chan frames.Frame, 1)
	f := Flux(context.Background(), frames.RequestPayload{FrameType: frames.FrameTypeRequestStream, StreamID: 1}, nil,
		func(f frames.Frame) error { sent <- f; return nil }, func(Stream) {})
	f.Subscribe(flux.Subscribe[payload.Payload]{OnRequest: func(s rx.Subscription) { s.Request(70000) }})
	if r := (<-sent).(*frames.RequestPayload); r.InitialN != 70000 {
		t.Fatal(r.InitialN)
	}
''',('context',P+'internal/frames',P+'payload',P+'rx',P+'rx/flux'))),
 dict(id='s19', prop='C21', pkg='rx/flux',
  edits=[('rx/flux/slice.go','''				for i := n; i > 0 && len(values) != 0; i-- {
					next := values[0]
					values = values[1:]
					sink.Next(next)
				}
''','''				for i := n; i > 0 && len(values) != 0; i-- {
					sink.Next(values[0])
					values = values[1:]
				}
''')],
  needs='a sink that requests more while it takes an item', breaks='the item is emitted again and another is lost',
  test=T('flux','''	s := &seedSink{}
	FromSlice([]int{1, 2, 3, 4}).(*flux[int]).source(s)
	s.sub.Request(1)
	if len(s.got) != 2 || s.got[0] != 1 || s.got[1] != 2 {
		t.Fatal(s.got)
	}
''',(),'''type seedSink struct {
	got []int
	sub OnSubscribe
}

func (s *seedSink) Next(v int) {
	s.got = append(s.got, v)
	if len(s.got) == 1 {
		s.sub.Request(1)
	}
}
func (s *seedSink) Complete()                   {}
func (s *seedSink) Error(err error)             {}
func (s *seedSink) OnSubscribe(sub OnSubscribe) { s.sub = sub }

''')),
 dict(id='s20', prop='C29', pkg='.', mod='types/uuid',
  edits=[('types/uuid/time.go','''	if now <= lasttime {''','''	if now < lasttime {''')],
  needs='two times taken within one tick of the clock', breaks='both have the same time and clock sequence',
  test=T('uuid','''	now := time.Now()
	timeNow = func() time.Time { return now }
	defer func() { timeNow = time.Now }()
	t1, s1, _ := GetTime()
	t2, s2, _ := GetTime()
	if t1 == t2 && s1 == s2 {
		t.Fatal(t1, s1)
	}
''',('time',))),
 dict(id='s21', prop='C16', pkg='handler',
  edits=[('handler/caller.go','''			op.Type == operations.RequestStream &&
			op.Namespace == namespace &&
''','''			op.Type == operations.RequestStream &&
			len(op.Namespace) == len(namespace) &&
''')],
  needs='two namespaces with names of one length that export the same operation', breaks='the import of one reaches the other',
  test=T('handler','''	h := &Handler{opTable: operations.Table{
		{Index: 3, Type: operations.RequestStream, Direction: operations.Export, Namespace: "a", Operation: "op"},
		{Index: 4, Type: operations.RequestStream, Direction: operations.Export, Namespace: "b", Operation: "op"},
	}}
	if got := h.ImportRequestStream("b", "op"); got != 4 {
		t.Fatal(got)
	}
''',(P+'operations',))),
 dict(id='s22', prop='C23', pkg='handler',
  edits=[('handler/handler.go','''			str.OnNext(payload.New(v.Data, v.Metadata))
		}

		if v.Complete {''','''			str.OnNext(payload.New(v.Data, v.Metadata))
		} else if v.Complete {''')],
  needs='an item that is also the last', breaks='its stream is never completed',
  test=T('handler','''	h := New(context.Background(), ServerMode)
	s := &seedStream{}
	h.registerStream(s)
	h.HandleFrame(&frames.Payload{StreamID: 2, Data: []byte{1}, Next: true, Complete: true})
	if s.n != 11 {
		t.Fatal(s.n)
	}
''',('context',P+'internal/frames',P+'payload'),'''type seedStream struct{ n int }

func (s *seedStream) StreamID() uint32         { return 2 }
func (s *seedStream) Context() context.Context { return nil }
func (s *seedStream) OnNext(payload.Payload)   { s.n++ }
func (s *seedStream) OnComplete()              { s.n += 10 }
func (s *seedStream) OnError(error)            { s.n += 100 }

''')),
 dict(id='s23', prop='C22', pkg='rx/mono',
  edits=[('rx/mono/mono.go','''	v, err := b.mono.Get()
	if err != nil {
		return d, err
	}
''','''	v, err := b.mono.Get()
	if err != nil {
		return d, nil
	}
''')],
  needs='Get on a mapped mono that has failed', breaks='the error is lost',
  test=T('mono','''	m := Map(Error[int](errors.New("x")), func(int) (int, error) { return 1, nil })
	if _, err := m.Get(); err == nil {
		t.Fatal("no error")
	}
''',('errors',))),
 dict(id='s24', prop='C11', pkg='msgpack',
  edits=[('msgpack/decoder.go','''objectsToDiscard = 2 * uint64(leadByte&FormatFourLeastSigBitsInByte)''','''objectsToDiscard = 2 * uint64(leadByte&0x7)''')],
  needs='skipping a map of eight to fifteen entries', breaks='the decoder stops inside the map',
  test=T('msgpack','''	e := NewEncoder(make([]byte, 100))
	e.WriteMapSize(9)
	for i := uint8(0); i < 9; i++ {
		e.WriteUint8(i)
		e.WriteUint8(i)
	}
	e.WriteString("end")
	d := NewDecoder(e.reader.buffer)
	if err := d.Skip(); err != nil {
		t.Fatal(err)
	}
	if s, err := d.ReadString(); err != nil || s != "end" {
		t.Fatal(s, err)
	}
''')),
 dict(id='s25', prop='C12', pkg='msgpack',
  edits=[('msgpack/decoder.go','''	case FormatUint32:
		return d.reader.GetUint32()
	case FormatUint64:
		return d.reader.GetUint64()
	case FormatFloat32''','''	case FormatUint32:
		return d.reader.GetInt32()
	case FormatUint64:
		return d.reader.GetUint64()
	case FormatFloat32''')],
  needs='an unsigned value of 2^31 or more read without a type', breaks='it comes back negative',
  test=T('msgpack','''	e := NewEncoder(make([]byte, 5))
	e.WriteUint32(1<<31 + 7)
	d := NewDecoder(e.reader.buffer)
	if v, err := d.ReadAny(); err != nil || v != uint32(1<<31+7) {
		t.Fatal(v, err)
	}
''')),
 dict(id='s26', prop='C26', pkg='transport/wasmrs/host',
  edits=[('transport/wasmrs/host/instance.go','''	if i.activeRequests.Add(-1) <= 0 && i.closing.Load() {''','''	if i.activeRequests.Add(-1) < 0 && i.closing.Load() {''')],
  needs='closing while the last request is running', breaks='the end of the request does not end the closing', test=''),
 dict(id='s27', prop='C34', pkg='msgpack/convert',
  edits=[('msgpack/convert/convert.go','''	return t.Format(time.RFC3339Nano)
}

func TimeToStringPtr''','''	return t.Format(time.RFC3339)
}

func TimeToStringPtr''')],
  needs='a time with a fraction of a second', breaks='the fraction gets lost',
  test=T('convert','''	v := time.Unix(5, 7).UTC()
	if got, err := StringToTime(TimeToString(v), nil); err != nil || !got.Equal(v) {
		t.Fatal(got, err)
	}
''',('time',))),
 dict(id='s28', prop='C31', pkg='transport/wasmrs/mesh',
  edits=[('transport/wasmrs/mesh/mesh.go','''			if ok := m.linkOperation(u.instance, u.oper); !ok {
				filtered = append(filtered, u)
			}
''','''			if ok := m.linkOperation(u.instance, u.oper); !ok {
				filtered = append(filtered, u)
				break
			}
''')],
  needs='', breaks='', test=''),
 dict(id='s29', prop='C03', pkg='internal/frames',
  edits=[('internal/frames/setup.go','if len(payload) < 12 {','if len(payload) < 8 {')], needs='',breaks='',test=''),
 dict(id='s30', prop='C33', pkg='invoke',
  edits=[('invoke/instances.go','''	delete(t.instances, ptr)
''','''	if len(t.instances) > 1 {
		delete(t.instances, ptr)
	}
''')], needs='removing the only instance',breaks='it is still returned',test=''),
]
SEEDS=[s for s in SEEDS if s['test']]
