//verif:pkg internal/frames
package frames

// Splitting requests and payloads into fragments.

// vTail: the fragments from the k-th on are payload fragments of the stream that hold,
// in order, what remains of the metadata and data; only the last ends it.
func vTail(fs []Frame, k int, id, max uint32, md, data []byte, next, complete bool) {
	m, d := 0, 0
	for i := k; i < len(fs); i++ {
		p, ok := fs[i].(*Payload)
		vEnsures("payload fragment", ok)
		last := i == len(fs)-1
		vEnsures("stream", p.StreamID == id)
		vEnsures("fits", p.Size() <= max)
		vEnsures("follows", p.Follows == !last)
		vEnsures("complete", p.Complete == (last && complete))
		vEnsures("next", p.Next == (last && next))
		vEnsures("not empty", len(p.Metadata)+len(p.Data) > 0)
		vEnsures("metadata", len(p.Metadata) <= len(md)-m && vEq(p.Metadata, md[m:m+len(p.Metadata)]))
		m += len(p.Metadata)
		vEnsures("data", len(p.Data) <= len(data)-d && vEq(p.Data, data[d:d+len(p.Data)]))
		d += len(p.Data)
	}
	vEnsures("all metadata", m == len(md))
	vEnsures("all data", d == len(data))
}

//verif:prop C04
//verif:bounded at most seven fragments, all contents and sizes
//verif:unroll 10
func H_frag_Payload(id, max uint32, md, data []byte, next, complete bool) {
	vRequires(max >= 14 && max <= 0xffffff)
	vRequires(len(md) <= 6*int(max)-60-8 && len(md)+len(data) <= 6*int(max)-60-8)
	f := &Payload{StreamID: id, Metadata: md, Data: data, Next: next, Complete: complete}
	fs := f.Fragment(max)
	if fs == nil {
		vEnsures("small enough", f.Size() <= max)
		vCover("whole")
		return
	}
	vCover("split")
	vEnsures("needed", f.Size() > max && len(fs) > 1)
	vTail(fs, 0, id, max, md, data, next, complete)
}

//verif:prop C04
//verif:bounded at most seven fragments, all contents and sizes
//verif:unroll 10
func H_frag_Request(kind FrameType, id, max, n uint32, md, data []byte, complete bool) {
	vRequires(vIsRequest(kind) && max >= 14 && max <= 0xffffff)
	vRequires(len(md) <= 6*int(max)-60-14 && len(md)+len(data) <= 6*int(max)-60-14)
	f := &RequestPayload{FrameType: kind, StreamID: id, Metadata: md, Data: data, InitialN: n, Complete: complete}
	fs := f.Fragment(max)
	if fs == nil {
		vEnsures("small enough", f.Size() <= max)
		vCover("whole")
		return
	}
	vCover("split")
	vEnsures("needed", f.Size() > max && len(fs) > 1)
	p, ok := fs[0].(*RequestPayload)
	vEnsures("first is the request", ok && p.FrameType == kind && p.StreamID == id && p.InitialN == n)
	vEnsures("first fits", p.Size() <= max)
	vEnsures("first is followed", p.Follows && !p.Complete)
	m, d := len(p.Metadata), len(p.Data)
	vEnsures("first metadata", m <= len(md) && vEq(p.Metadata, md[:m]))
	vEnsures("first data", d <= len(data) && vEq(p.Data, data[:d]))
	vTail(fs, 1, id, max, md[m:], data[d:], true, complete)
}
