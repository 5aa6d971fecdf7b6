//verif:pkg transport/wasmrs/mesh
//verif:with transport/wasmrs/host
package mesh

import (
	"context"
	"strconv"
	"sync"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
)

var vKinds = [5]frames.FrameType{0, frames.FrameTypeRequestResponse, frames.FrameTypeRequestFNF, frames.FrameTypeRequestStream, frames.FrameTypeRequestChannel}

func vMD(index uint32) []byte {
	return []byte{byte(index >> 24), byte(index >> 16), byte(index >> 8), byte(index), 0, 0, 0, 0}
}

// vAsks: the guest of the instance calls its import.
func vAsks(i *host.Instance, kind operations.RequestType, index uint32, data []byte) {
	i.VReceive(&frames.RequestPayload{FrameType: vKinds[kind], StreamID: 1, Metadata: vMD(index), Data: data, InitialN: 5})
	vRunGo()
}

// vAsked: the frame asks the guest for its export.
func vAsked(f frames.Frame, kind operations.RequestType, index uint32, data []byte) bool {
	r, ok := f.(*frames.RequestPayload)
	return ok && r.FrameType == vKinds[kind] && vEq(r.Metadata, vMD(index)) && vEq(r.Data, data)
}

func vRefused(f frames.Frame) bool {
	r, ok := f.(*frames.Error)
	return ok && r.StreamID == 1 && r.Data == "not_found"
}

func vOp(kind operations.RequestType, dir operations.Direction, ns, op string, index uint32) operations.Operation {
	if dir == operations.Import {
		index = 1
	}
	return operations.Operation{Index: index, Type: kind, Direction: dir, Namespace: ns, Operation: op}
}

// Two modules with an operation each, loaded one after the other.
//
//verif:prop C31
//verif:bounded two modules with one operation each
func H_Pair(k1, k2 operations.RequestType, d1, d2 operations.Direction, ns1, ns2, op1, op2 string, x, y uint32, data []byte) {
	vRequires(k1 >= 1 && k1 <= 4 && k2 >= 1 && k2 <= 4 && d1 >= 1 && d1 <= 2 && d2 >= 1 && d2 <= 2 && len(data) < 8000)
	m := New()
	a := host.VInstance(operations.Table{vOp(k1, d1, ns1, op1, x)})
	b := host.VInstance(operations.Table{vOp(k2, d2, ns2, op2, y)})
	m.linkOperations(a)
	m.linkOperations(b)
	match := k1 == k2 && d1 != d2 && ns1 == ns2 && op1 == op2
	imports := 0
	if d1 == operations.Import {
		imports++
		vAsks(a, k1, 1, data)
		if match {
			vEnsures("an import reaches its export", vAsked(b.VSent(), k1, y, data) && b.VSent() == nil && a.VSent() == nil)
		} else {
			vEnsures("without an export it is refused", vRefused(a.VSent()) && b.VSent() == nil)
		}
	}
	if d2 == operations.Import {
		imports++
		vAsks(b, k2, 1, data)
		if match {
			vEnsures("an import reaches its export", vAsked(a.VSent(), k2, x, data) && a.VSent() == nil && b.VSent() == nil)
		} else {
			vEnsures("without an export it is refused", vRefused(b.VSent()) && a.VSent() == nil)
		}
	}
	if match {
		vEnsures("all are satisfied", len(m.unsatisfied) == 0)
	} else {
		vEnsures("imports without an export are noted", len(m.unsatisfied) == imports)
	}
}

// A module with two operations of the same name and a module that wants one of them.
//
//verif:prop C31
//verif:bounded a module with two exports and one with an import
func H_Kinds(k1, k2, k operations.RequestType, x, y uint32, data []byte, first bool) {
	vRequires(k1 >= 1 && k1 <= 4 && k2 >= 1 && k2 <= 4 && k1 != k2 && k >= 1 && k <= 4 && len(data) < 8000)
	m := New()
	a := host.VInstance(operations.Table{vOp(k1, operations.Export, "ns", "op", x), vOp(k2, operations.Export, "ns", "op", y)})
	b := host.VInstance(operations.Table{vOp(k, operations.Import, "ns", "op", 0)})
	if first {
		m.linkOperations(a)
		m.linkOperations(b)
	} else {
		m.linkOperations(b)
		m.linkOperations(a)
	}
	vAsks(b, k, 1, data)
	switch k {
	case k1:
		vEnsures("the export of its kind", vAsked(a.VSent(), k, x, data))
	case k2:
		vEnsures("the export of its kind", vAsked(a.VSent(), k, y, data))
	default:
		vEnsures("no export of its kind", vRefused(b.VSent()) && a.VSent() == nil && len(m.unsatisfied) == 1)
		return
	}
	vEnsures("all are satisfied", len(m.unsatisfied) == 0)
}

// Several imports wait for exports that come later, or partly.
//
//verif:prop C31
//verif:bounded a module with three imports and one with two exports
func H_Later(k operations.RequestType, o1, o2, o3, e1, e2 string, x, y uint32, data []byte) {
	vRequires(k >= 1 && k <= 4 && len(data) < 8000 && o1 != o2 && o1 != o3 && o2 != o3 && e1 != e2)
	m := New()
	a := host.VInstance(operations.Table{
		{Index: 0, Type: k, Direction: operations.Import, Namespace: "ns", Operation: o1},
		{Index: 1, Type: k, Direction: operations.Import, Namespace: "ns", Operation: o2},
		{Index: 2, Type: k, Direction: operations.Import, Namespace: "ns", Operation: o3},
	})
	b := host.VInstance(operations.Table{vOp(k, operations.Export, "ns", e1, x), vOp(k, operations.Export, "ns", e2, y)})
	m.linkOperations(a)
	vEnsures("all wait", len(m.unsatisfied) == 3)
	m.linkOperations(b)
	left := 0
	for i, o := range [3]string{o1, o2, o3} {
		vAsks(a, k, uint32(i), data)
		switch o {
		case e1:
			vEnsures("an import reaches its export", vAsked(b.VSent(), k, x, data) && a.VSent() == nil)
		case e2:
			vEnsures("an import reaches its export", vAsked(b.VSent(), k, y, data) && a.VSent() == nil)
		default:
			vEnsures("without an export it is refused", vRefused(a.VSent()) && b.VSent() == nil)
			vEnsures("and noted", left < len(m.unsatisfied) && m.unsatisfied[left].oper.Operation == o && m.unsatisfied[left].instance == a)
			left++
		}
	}
	vEnsures("the others are satisfied", len(m.unsatisfied) == left)
}

// The exporting module is loaded again.
//
//verif:prop C31
//verif:bounded one import, one export
func H_Again(k operations.RequestType, x, y uint32, data []byte) {
	vRequires(k >= 1 && k <= 4 && len(data) < 8000)
	m := New()
	a := host.VInstance(operations.Table{vOp(k, operations.Import, "ns", "op", 0)})
	b := host.VInstance(operations.Table{vOp(k, operations.Export, "ns", "op", x)})
	c := host.VInstance(operations.Table{vOp(k, operations.Export, "ns", "op", y)})
	m.linkOperations(b)
	m.linkOperations(a)
	m.linkOperations(c)
	vAsks(a, k, 1, data)
	vEnsures("the import reaches the new module", vAsked(c.VSent(), k, y, data) && b.VSent() == nil && a.VSent() == nil)
}

// Requests of the embedder.
//
//verif:prop C31
func H_Embedder(k, want operations.RequestType, ns, op, wantNS, wantOp string, x uint32, data, md []byte) {
	vRequires(k >= 1 && k <= 4 && want >= 1 && want <= 4 && len(data)+len(md) < 8000)
	m := New()
	a := host.VInstance(operations.Table{vOp(k, operations.Export, ns, op, x)})
	m.linkOperations(a)
	p := payload.New(data, md)
	ctx := context.Background()
	switch want {
	case operations.RequestResponse:
		if r := m.RequestResponse(ctx, wantNS, wantOp, p); r != nil {
			r.Subscribe(mono.Subscribe[payload.Payload]{})
		}
	case operations.FireAndForget:
		m.FireAndForget(ctx, wantNS, wantOp, p)
	case operations.RequestStream:
		if r := m.RequestStream(ctx, wantNS, wantOp, p); r != nil {
			r.Subscribe(flux.Subscribe[payload.Payload]{})
		}
	case operations.RequestChannel:
		if r := m.RequestChannel(ctx, wantNS, wantOp, p, flux.Create(func(flux.Sink[payload.Payload]) {})); r != nil {
			r.Subscribe(flux.Subscribe[payload.Payload]{})
		}
	}
	vRunGo()
	f := a.VSent()
	if k != want || ns != wantNS || op != wantOp {
		vEnsures("nothing is sent", f == nil)
		return
	}
	r, ok := f.(*frames.RequestPayload)
	vEnsures("the export is asked", ok && r.FrameType == vKinds[k] && vEq(r.Data, data) && len(r.Metadata) == len(md))
	vEnsures("by its index", len(md) < 4 || vEq(r.Metadata[:4], vMD(x)[:4]))
}

// Two modules export and one imports, loaded in any order.
//
//verif:prop C31
//verif:bounded three modules with one operation each
func H_Three(k, k1, k2 operations.RequestType, ns, ns1, ns2, o, o1, o2 string, x, y uint32, at int, data []byte) {
	vRequires(k >= 1 && k <= 4 && k1 >= 1 && k1 <= 4 && k2 >= 1 && k2 <= 4 && at >= 0 && at <= 2 && len(data) < 8000)
	m := New()
	a := host.VInstance(operations.Table{vOp(k, operations.Import, ns, o, 0)})
	b := host.VInstance(operations.Table{vOp(k1, operations.Export, ns1, o1, x)})
	c := host.VInstance(operations.Table{vOp(k2, operations.Export, ns2, o2, y)})
	if at == 0 {
		m.linkOperations(a)
	}
	m.linkOperations(b)
	if at == 1 {
		m.linkOperations(a)
	}
	m.linkOperations(c)
	if at == 2 {
		m.linkOperations(a)
	}
	vAsks(a, k, 1, data)
	// The module that was loaded last stands for those before it.
	if k == k2 && ns == ns2 && o == o2 {
		vEnsures("an import reaches its export", vAsked(c.VSent(), k, y, data) && b.VSent() == nil && a.VSent() == nil && len(m.unsatisfied) == 0)
	} else if k == k1 && ns == ns1 && o == o1 {
		vEnsures("an import reaches its export", vAsked(b.VSent(), k, x, data) && c.VSent() == nil && a.VSent() == nil && len(m.unsatisfied) == 0)
	} else {
		vEnsures("without an export it is refused", vRefused(a.VSent()) && b.VSent() == nil && c.VSent() == nil && len(m.unsatisfied) == 1)
	}
}

// A module is loaded while requests are made.
//
//verif:prop C31
//verif:bounded one import, two exports
func H_Live(k operations.RequestType, x, y uint32, data []byte) {
	vRequires(k >= 1 && k <= 4 && len(data) < 8000)
	m := New()
	a := host.VInstance(operations.Table{vOp(k, operations.Import, "ns", "op", 0)})
	b := host.VInstance(operations.Table{vOp(k, operations.Export, "ns", "op", x)})
	c := host.VInstance(operations.Table{vOp(k, operations.Export, "ns", "other", y)})
	vGuardedAll("the mesh", m)
	a.VGuardImports()
	m.linkOperations(a)
	vAsks(a, k, 1, data)
	vEnsures("refused so far", vRefused(a.VSent()))
	m.linkOperations(b)
	vAsks(a, k, 1, data)
	vEnsures("the import reaches its export", vAsked(b.VSent(), k, x, data) && a.VSent() == nil)
	m.linkOperations(c)
	p := payload.New(data, vMD(0))
	ctx := context.Background()
	switch k {
	case operations.RequestResponse:
		m.RequestResponse(ctx, "ns", "other", p).Subscribe(mono.Subscribe[payload.Payload]{})
	case operations.FireAndForget:
		m.FireAndForget(ctx, "ns", "other", p)
	case operations.RequestStream:
		m.RequestStream(ctx, "ns", "other", p).Subscribe(flux.Subscribe[payload.Payload]{})
	case operations.RequestChannel:
		m.RequestChannel(ctx, "ns", "other", p, flux.Create(func(flux.Sink[payload.Payload]) {})).Subscribe(flux.Subscribe[payload.Payload]{})
	}
	vRunGo()
	r, ok := c.VSent().(*frames.RequestPayload)
	vEnsures("the export is asked", ok && r.FrameType == vKinds[k] && vEq(r.Data, data) && vEq(r.Metadata[:4], vMD(y)[:4]))
	vEnsures("no lock is kept", vUnlocked())
	m.Close()
	vEnsures("no lock is kept by closing", vUnlocked())
}

// Concurrent use on the real code, run when an obligation above has failed.
//
//verif:prop C31
//verif:stress
func R_Live() {
	for round := 0; round < 20; round++ {
		m := New()
		a := host.VInstance(operations.Table{
			{Index: 0, Type: operations.FireAndForget, Direction: operations.Import, Namespace: "ns", Operation: "op0"},
			{Index: 1, Type: operations.FireAndForget, Direction: operations.Import, Namespace: "ns", Operation: "op1"},
		})
		m.linkOperations(a)
		var wg sync.WaitGroup
		wg.Add(3)
		go func() {
			defer wg.Done()
			for i := 0; i < 20; i++ {
				m.linkOperations(host.VInstance(operations.Table{vOp(operations.FireAndForget, operations.Export, "ns", "op"+strconv.Itoa(i%3), 1)}))
			}
		}()
		go func() {
			defer wg.Done()
			for i := 0; i < 20; i++ {
				m.FireAndForget(context.Background(), "ns", "op0", payload.New(nil, vMD(0)))
			}
		}()
		go func() {
			defer wg.Done()
			for i := 0; i < 20; i++ {
				a.VReceive(&frames.RequestPayload{FrameType: frames.FrameTypeRequestFNF, StreamID: 1, Metadata: vMD(1)})
				for a.VSent() != nil {
				}
			}
		}()
		wg.Wait()
	}
}
