//verif:pkg transport/wasmrs/host
package host

import (
	"context"

	"github.com/tetratelabs/wazero/api"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/operations"
)

// vModule is a guest with the functions of a module.
type vModule struct {
	*vGuest
	missing  string
	fail     string
	ctx      context.Context
	sizes    [3]uint32
	sendPtr  uint32
	recvPtr  uint32
	table    operations.Table
	sent     [4]string
	numSent  int
	requests int // of the list of operations
}

// vFunction is one of them.
type vFunction struct {
	api.Function
	m    *vModule
	name string
}

func (m *vModule) ExportedFunction(name string) api.Function {
	if name == m.missing {
		return nil
	}
	return &vFunction{m: m, name: name}
}

func (f *vFunction) Call(ctx context.Context, p ...uint64) ([]uint64, error) {
	m := f.m
	if f.name == m.fail {
		return nil, vErr
	}
	switch f.name {
	case "__wasmrs_init":
		vEnsures("buffer sizes", len(p) == 3)
		m.ctx = ctx
		m.sizes = [3]uint32{uint32(p[0]), uint32(p[1]), uint32(p[2])}
		vRequires(int(m.sendPtr)+int(m.sizes[0]) <= int(m.recvPtr) && int(m.recvPtr)+int(m.sizes[1]) <= len(m.mem.b))
		initBuffers(ctx, []uint64{uint64(m.sendPtr), uint64(m.recvPtr)})
	case "__wasmrs_op_list_request":
		vEnsures("the buffers are there", m.sizes[0] > 0)
		m.requests++
		b := m.table.ToBytes()
		copy(m.mem.b, b)
		opList(m.ctx, []uint64{0, uint64(len(b))})
	case "__wasmrs_send":
		if m.numSent < len(m.sent) {
			m.sent[m.numSent] = string(m.mem.b[m.sendPtr:][:p[0]])
		}
		m.numSent++
	default:
		vEnsures("a function of the protocol", false)
	}
	return nil, nil
}

// A new instance tells its guest the sizes of the buffers, learns where they are and what
// the guest can do, and then sends and receives frames through them.
//
//verif:prop C37
//verif:unroll 200
func H_NewInstance(sendPtr, recvPtr, x uint32, mem, data []byte) {
	vRequires(sendPtr >= 100 && len(mem) < 1<<31 && len(data) < 1000)
	m := &vModule{vGuest: &vGuest{mem: vMemory{b: mem}}, sendPtr: sendPtr, recvPtr: recvPtr}
	m.table = operations.Table{{Index: x, Type: operations.RequestStream, Direction: operations.Export, Namespace: "n", Operation: "o"}}
	i, err := NewInstance(context.Background(), m)
	vEnsures("no error", err == nil && i != nil)
	vEnsures("the guest's operations", m.requests == 1 && len(i.Operations()) == 1 && i.Operations()[0] == m.table[0])

	// To the guest.
	f := &frames.Payload{StreamID: 2, Data: data, Next: true}
	enc := vEnc(f)
	vEnsures("a frame is accepted", i.SendFrame(f) == nil)
	vRequires(m.sizes[0] >= 2000 && m.sizes[1] >= 2000)

	// From the guest.
	s := &vStream{id: 2}
	i.registerStream(s)
	vPut(mem[recvPtr:], enc)
	send(m.ctx, []uint64{uint64(3 + len(enc))})
	i.Close()
	vRunGo()
	vEnsures("the guest got it", m.numSent == 1 && m.sent[0][3:] == string(enc))
	vEnsures("the stream got it", s.next == 1)
}

// The size the guest is told is the size of the largest frame.
//
//verif:prop C37
//verif:unroll 200
func H_NewInstanceSize(sendPtr, recvPtr uint32, mem, data []byte) {
	vRequires(sendPtr >= 100 && len(mem) < 1<<31 && len(data) < 1<<24)
	m := &vModule{vGuest: &vGuest{mem: vMemory{b: mem}}, sendPtr: sendPtr, recvPtr: recvPtr}
	i, err := NewInstance(context.Background(), m)
	vEnsures("no error", err == nil && i != nil)
	f := &frames.Payload{StreamID: 2, Data: data, Next: true}
	fits := 3+int(f.Size()) <= int(m.sizes[0])
	vEnsures("what fits is sent, nothing else", (i.SendFrame(f) == nil) == fits)
	i.Close()
	vRunGo()
}

// A module that lacks a function, or whose function fails, gives an error.
//
//verif:prop C37
//verif:unroll 200
func H_NewInstanceFails(sendPtr, recvPtr uint32, mem []byte, which int, missing bool) {
	vRequires(sendPtr >= 100 && len(mem) < 1<<31 && which >= 0 && which <= 2)
	vRequires(missing || which != 2)
	m := &vModule{vGuest: &vGuest{mem: vMemory{b: mem}}, sendPtr: sendPtr, recvPtr: recvPtr}
	name := [3]string{"__wasmrs_init", "__wasmrs_op_list_request", "__wasmrs_send"}[which]
	if missing {
		m.missing = name
	} else {
		m.fail = name
	}
	i, err := NewInstance(context.Background(), m)
	vEnsures("an error", i == nil && err != nil)
}
