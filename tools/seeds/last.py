import os
_g = {}
exec(open('/verif/tools/seeds/rest.py').read().split('SEEDS')[0], _g)
T, P = _g['T'], _g['P']
SEEDS = [
 dict(id='s28', prop='C01', pkg='internal/frames',
  edits=[('internal/frames/setup.go','''		copy(payload, f.Token)
		payload = payload[tokenLen:]
''','''		n := copy(payload[:byte(tokenLen)], f.Token)
		payload = payload[n:]
''')],
  needs='a resume token of 256 bytes or more', breaks='the token is cut and the strings behind it are read from the wrong place',
  test=T('frames','''	f := Setup{Token: make([]byte, 256), MimeData: "a", MimeMetadata: "b"}
	buf := make([]byte, f.Size())
	f.Encode(buf)
	h := ParseFrameHeader(buf)
	var g Setup
	if err := g.Decode(&h, buf[FrameHeaderLen:]); err != nil {
		t.Fatal(err)
	}
	if len(g.Token) != 256 || g.MimeData != "a" || g.MimeMetadata != "b" {
		t.Fatal(g)
	}
''')),
 dict(id='s29', prop='C03', pkg='transport/rsocket',
  edits=[('transport/rsocket/decoder.go','''	if len(raw) < frames.FrameHeaderLen {
''','''	if len(raw) <= frames.FrameHeaderLen-lengthFieldSize {
''')],
  needs='a frame of four or five bytes', breaks='reading it panics',
  test=T('rsocket','''	a, b := net.Pipe()
	go func() {
		a.Write([]byte{0, 0, 5, 0, 0, 0, 1, 0})
		a.Close()
	}()
	if _, err := NewTCPConn(b).Read(); err == nil {
		t.Fatal("no error")
	}
''',('net',))),
 dict(id='s30', prop='C04', pkg='internal/frames',
  edits=[('internal/frames/util.go','''		follows := nonDataSize+lenMd+lenData > maxFrameSize
''','''		follows := nonDataSize+lenMd+lenData >= maxFrameSize
''')],
  needs='a payload whose last fragment fills its frame exactly', breaks='the last fragment is marked as followed and does not complete',
  test=T('frames','''	f := Payload{Data: make([]byte, 16), Complete: true, Next: true}
	fs := f.Fragment(FrameHeaderLen + 8)
	if len(fs) != 2 {
		t.Fatal(len(fs))
	}
	if p := fs[1].(*Payload); p.Follows || !p.Complete {
		t.Fatal(p)
	}
''')),
 dict(id='s31', prop='C06', pkg='transport/rsocket',
  edits=[('transport/rsocket/tcp_conn.go','''	buffer := raw[frames.FrameHeaderLen:]
''','''	p.frame = append(p.frame[:0], raw[frames.FrameHeaderLen:]...)
	buffer := p.frame
'''),('transport/rsocket/tcp_conn.go','''	decoder *LengthBasedFrameDecoder
''','''	decoder *LengthBasedFrameDecoder
	frame   []byte
''')],
  needs='a frame that is read while an earlier one is still in use', breaks='the data of the earlier frame is overwritten',
  test=T('rsocket','''	a, b := net.Pipe()
	go func() {
		c := NewTCPConn(a)
		for _, s := range []string{"first", "later"} {
			c.Write(&frames.Payload{StreamID: 1, Next: true, Data: []byte(s)})
			c.Flush()
		}
	}()
	c := NewTCPConn(b)
	f, err := c.Read()
	if err != nil {
		t.Fatal(err)
	}
	if _, err = c.Read(); err != nil {
		t.Fatal(err)
	}
	if s := string(f.(*frames.Payload).Data); s != "first" {
		t.Fatal(s)
	}
''',('net',P+'internal/frames'))),
 dict(id='s32', prop='C10', pkg='msgpack',
  edits=[('msgpack/data_reader.go','''func (d *DataReader) GetFloat64() (float64, error) {
	if err := d.checkBufferSize(8); err != nil {
''','''func (d *DataReader) GetFloat64() (float64, error) {
	if err := d.checkBufferSize(4); err != nil {
''')],
  needs='a float64 cut short in its last four bytes', breaks='reading it panics',
  test=T('msgpack','''	d := NewDecoder([]byte{0xcb, 1, 2, 3, 4, 5})
	if _, err := d.ReadFloat64(); err == nil {
		t.Fatal("no error")
	}
''')),
 dict(id='s33', prop='C26', pkg='transport/wasmrs/host',
  edits=[('transport/wasmrs/host/instance.go','''	if i.activeRequests.Add(-1) <= 0 && i.closing.Load() {
''','''	if i.closing.Load() && i.activeRequests.Add(-1) <= 0 {
''')],
  needs='a request that ends before the instance is closed', breaks='it still counts as running, so closing waits for ever',
  test=T('host','''	i := &Instance{closed: make(chan struct{}), sendCh: make(chan frames.Frame), recvCh: make(chan []byte)}
	i.activeRequests.Add(1)
	i.reduceActiveRequests()
	done := make(chan struct{})
	go func() {
		i.Close()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("still waiting")
	}
''',('time',P+'internal/frames'))),
 dict(id='s35', prop='C32', pkg='transport/wasmrs/customsections',
  edits=[('transport/wasmrs/customsections/customsections.go','''				sections[name] = custom
''','''				if s, ok := sections[name]; !ok || len(s.Data) == 0 {
					sections[name] = custom
				}
''')],
  needs='two sections of one name', breaks='the first one is returned',
  test=T('customsections','''	m := []byte{0, 'a', 's', 'm', 1, 0, 0, 0, 0, 3, 1, 'x', 1, 0, 3, 1, 'x', 2}
	s, err := Read(m, "x")
	if err != nil || s["x"].Data[0] != 2 {
		t.Fatal(err, s)
	}
''')),
 dict(id='s36', prop='C33', pkg='invoke',
  edits=[('invoke/instances.go','''	_, ok = t.instances[ptr]
	if ok {
		inst = ptr.Ptr
	}
	return
}

func (t *LiveInstances[T]) Put''','''	_, ok = t.instances[ptr]
	if id != 0 {
		inst = ptr.Ptr
	}
	return
}

func (t *LiveInstances[T]) Put''')],
  needs='an id that was never given out', breaks='looking it up reads memory that is not an instance',
  test=T('invoke','''	l := NewLiveInstances[int]()
	a := l.Put(7)
	l.Remove(a)
	if v, ok := l.Get(a); ok || v != 0 {
		t.Fatal(v)
	}
	if _, ok := l.Get(8); ok {
		t.Fatal("found")
	}
''')),
 dict(id='s37', prop='C36', pkg='rx/flow',
  edits=[('rx/flow/flow.go','''	f.completed = 0
''','''	if f.awaitables == nil {
		f.completed = 0
	}
''')],
  needs='a step that waits for two tasks after one that waited for some', breaks='the step after it runs when only one task has ended',
  test=T('flow','''	var s1, s2, s3 mono.Sink[int]
	task := func(s *mono.Sink[int]) mono.Mono[int] {
		return mono.Create(func(x mono.Sink[int]) { *s = x }).Subscribe(mono.Subscribe[int]{})
	}
	a, b, c := task(&s1), task(&s2), task(&s3)
	ran := false
	f := New[int]()
	f.Steps(func() (await.Group, error) {
		return await.All(a)
	}, func() (await.Group, error) {
		return await.All(b, c)
	}, func() (await.Group, error) {
		ran = true
		return f.Success(1)
	})
	f.Mono().Subscribe(mono.Subscribe[int]{})
	s1.Success(1)
	s2.Success(2)
	if ran {
		t.Fatal("too early")
	}
	s3.Success(3)
	if !ran {
		t.Fatal("not run")
	}
''',(P+'rx/await',P+'rx/mono'))),
 dict(id='s38', prop='C37', pkg='transport/wasmrs/host',
  edits=[('transport/wasmrs/host/instance.go','''		buf := make([]byte, int(frameLength))
		copy(buf, buffer)
		i.recvCh <- buf
''','''		i.recvCh <- buffer[:frameLength:frameLength]
''')],
  needs='a guest that sends again before the frame was handled', breaks='the frame still lies in the guest\'s buffer and is overwritten',
  test=T('host','''	m := &seedGuest{}
	m.b = []byte{0, 0, 7, 'o', 'n', 'e', ' ', 'f', 'r', 'a', 0, 0}
	i := &Instance{m: m, recvCh: make(chan []byte, 10)}
	i.hostSend(context.Background(), 10)
	copy(m.b[3:], "two")
	if s := string(<-i.recvCh); s != "one fra" {
		t.Fatal(s)
	}
''',('context','github.com/tetratelabs/wazero/api'),'''type seedGuest struct {
	api.Module
	seedMemory
}

type seedMemory struct {
	api.Memory
	b []byte
}

func (m *seedGuest) Memory() api.Memory { return &m.seedMemory }

func (m *seedMemory) Read(offset, n uint32) ([]byte, bool) {
	return m.b[offset : offset+n], true
}

''')),
]
