_g = {}
exec(open('/verif/tools/seeds/rest.py').read().split('SEEDS')[0], _g)
T, P = _g['T'], _g['P']
SEEDS = [
 dict(id='s39', prop='C31', pkg='transport/wasmrs/mesh',
  edits=[('transport/wasmrs/mesh/mesh.go','''				m.exports[op.Namespace] = ns
			}
''','''				m.exports[op.Namespace] = ns
				numExported++
			}
'''),('transport/wasmrs/mesh/mesh.go','''			})
			numExported++

''','''			})

''')],
  needs='a module that waits for an export of a namespace of which another module exported something before', breaks='the import is never linked',
  test=T('mesh','''	load := func(ops ...operations.Operation) *host.Instance {
		i := &host.Instance{}
		f := reflect.ValueOf(i).Elem().FieldByName("operations")
		reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(operations.Table(ops)))
		return i
	}
	op := func(d operations.Direction, name string) operations.Operation {
		return operations.Operation{Type: operations.FireAndForget, Direction: d, Namespace: "ns", Operation: name}
	}
	m := New()
	m.linkOperations(load(op(operations.Export, "a")))
	m.linkOperations(load(op(operations.Import, "b")))
	m.linkOperations(load(op(operations.Export, "b")))
	if len(m.unsatisfied) != 0 {
		t.Fatal(m.unsatisfied)
	}
''',('reflect','unsafe','github.com/nanobus/iota/go/operations','github.com/nanobus/iota/go/transport/wasmrs/host'))),
 dict(id='s40', prop='C38', pkg='transport/rsocket',
  edits=[('transport/rsocket/transport.go','''			if err := p.handler.HandleFrame(setup); err != nil {
				return err
			}
''','''			framesBuffer.Put(setup)
''')],
  needs='a client whose setup frame the handler refuses', breaks='the server reports that it is ready and goes on',
  test=T('rsocket','''	a, b := net.Pipe()
	f := frames.Setup{Data: []byte("no operations")}
	raw := make([]byte, 3+f.Size())
	raw[2] = byte(f.Size())
	f.Encode(raw[3:])
	go a.Write(raw)
	tp := NewTransport(NewTCPConn(b), handler.New(context.Background(), handler.ServerMode), true)
	go func() {
		tp.Start(context.Background())
		a.Close()
	}()
	ready := make(chan struct{})
	go func() {
		tp.WaitUntilReady()
		close(ready)
	}()
	select {
	case <-ready:
		t.Fatal("ready")
	case <-time.After(time.Second):
	}
''',('context','net','time','github.com/nanobus/iota/go/handler','github.com/nanobus/iota/go/internal/frames'))),
]
