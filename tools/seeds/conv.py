SEEDS=[
 dict(id='s41', prop='C39', pkg='transform',
  edits=[('transform/transform.go','''	return mono.Create(func(sink mono.Sink[struct{}]) {
		f.Subscribe(flux.Subscribe[T]{
''','''	asked := false
	batch := func(s rx.Subscription) {
		if !asked {
			asked = true
			s.Request(16)
		}
	}
	return mono.Create(func(sink mono.Sink[struct{}]) {
		f.Subscribe(flux.Subscribe[T]{OnRequest: batch,
''')],
  needs='a flux of more than 16 items that sends what it is asked for', breaks='the void mono never ends',
  test='''package transform

import (
	"testing"
	"time"

	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

func TestSeedDemo(t *testing.T) {
	for _, n := range []int{1, 16, 40} {
		done := make(chan bool, 4)
		FluxToVoid(flux.FromSlice(make([]int, n))).Subscribe(mono.Subscribe[struct{}]{
			OnSuccess: func(struct{}) { done <- true },
			OnError:   func(error) { done <- false },
		})
		select {
		case ok := <-done:
			if !ok {
				t.Fatal("failed")
			}
		case <-time.After(5 * time.Second):
			t.Fatal(n, "never ended")
		}
	}
}
'''),

 dict(id='s42', prop='C39', pkg='transform',
  edits=[('transform/transform.go',"""			OnComplete: func() {
				sink.Success(struct{}{})
			},
			OnError: func(err error) {
				sink.Error(err)
			},
""","""			OnComplete: func() {
				end(sink, io.EOF)
			},
			OnError: func(err error) {
				end(sink, err)
			},
"""),('transform/transform.go',"""func FluxToVoid[""","""// end ends a void mono.
func end(sink mono.Sink[struct{}], err error) {
	if err == io.EOF {
		sink.Success(struct{}{})
		return
	}
	sink.Error(err)
}

func FluxToVoid["""),('transform/transform.go','	"time"\n','	"io"\n	"time"\n')],
  needs='a flux that fails with io.EOF', breaks='the void mono succeeds',
  test="""package transform

import (
	"errors"
	"io"
	"testing"

	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

func TestSeedDemo(t *testing.T) {
	for _, want := range []error{errors.New("x"), io.EOF} {
		var got error
		FluxToVoid(flux.Error[int](want)).Subscribe(mono.Subscribe[struct{}]{
			OnError: func(err error) { got = err },
		})
		if got != want {
			t.Fatal(want, got)
		}
	}
}
"""),
 dict(id='s24', prop='C11', pkg='msgpack',
  edits=[('msgpack/decoder.go',"		strLen := uint32(leadByte & 0x1f)","		strLen := uint32(leadByte & FormatFourLeastSigBitsInByte)")],
  needs='a string of 16 to 31 bytes that is skipped', breaks='the reader ends up inside the string',
  test="""package msgpack

import (
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	for _, n := range []int{3, 20} {
		e := NewEncoder(make([]byte, 100))
		e.WriteString(strings.Repeat("x", n))
		e.WriteString("end")
		d := NewDecoder(e.reader.buffer)
		if err := d.Skip(); err != nil {
			t.Fatal(err)
		}
		if s, err := d.ReadString(); err != nil || s != "end" {
			t.Fatal(s, err)
		}
	}
}
"""),
]
