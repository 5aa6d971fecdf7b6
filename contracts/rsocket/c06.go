//verif:pkg transport/rsocket
package rsocket

import "github.com/nanobus/iota/go/internal/frames"

// What is read next overwrites every byte of every buffer the connection's reads
// were given.
//
//verif:prop C06
//verif:unroll 4
func H_RawIsOwn(chunk, next []byte) {
	conn := &vConn{chunks: [][]byte{chunk}, errs: []error{nil}}
	d := NewLengthBasedFrameDecoder(conn)
	vRequires(len(chunk) >= 9 && len(chunk) <= 8192)
	n := vLen24(chunk)
	vRequires(n >= 6 && n+3 <= len(chunk))
	raw, err := d.Read()
	vEnsures("no error", err == nil)
	was := vSnap(raw)
	vRequires(len(next) == len(conn.last))
	copy(conn.last, next)
	vEnsures("the frame stays as it was", vEqS(was, raw))
}

//verif:prop C06
//verif:unroll 4
func H_PayloadIsOwn(chunk, next []byte) {
	conn := &vConn{chunks: [][]byte{chunk}, errs: []error{nil}}
	p := NewTCPConn(conn)
	vRequires(len(chunk) >= 9 && len(chunk) <= 8192)
	n := vLen24(chunk)
	vRequires(n >= 6 && n+3 <= len(chunk))
	f, err := p.Read()
	if err != nil {
		return
	}
	vRequires(len(next) == len(conn.last))
	switch v := f.(type) {
	case *frames.Payload:
		md, data := vSnap(v.Metadata), vSnap(v.Data)
		copy(conn.last, next)
		vEnsures("metadata of a payload", vEqS(md, v.Metadata))
		vEnsures("data of a payload", vEqS(data, v.Data))
	case *frames.RequestPayload:
		md, data := vSnap(v.Metadata), vSnap(v.Data)
		copy(conn.last, next)
		vEnsures("metadata of a request", vEqS(md, v.Metadata))
		vEnsures("data of a request", vEqS(data, v.Data))
	case *frames.Setup:
		md, data := vSnap(v.Metadata), vSnap(v.Data)
		mt, dt := vSnap([]byte(v.MimeMetadata)), vSnap([]byte(v.MimeData))
		tok := vSnap(v.Token)
		copy(conn.last, next)
		vEnsures("metadata of a setup frame", vEqS(md, v.Metadata))
		vEnsures("data of a setup frame", vEqS(data, v.Data))
		vEnsures("strings of a setup frame", v.MimeMetadata == mt && v.MimeData == dt)
		vEnsures("token of a setup frame", vEqS(tok, v.Token))
	case *frames.Error:
		d := vSnap([]byte(v.Data))
		copy(conn.last, next)
		vEnsures("text of an error frame", v.Data == d)
	}
}

// vKept remembers the contents of a frame and tells whether they are still the same.
func vKept(f frames.Frame) func() bool {
	switch v := f.(type) {
	case *frames.Payload:
		md, data := vSnap(v.Metadata), vSnap(v.Data)
		return func() bool { return vEqS(md, v.Metadata) && vEqS(data, v.Data) }
	case *frames.RequestPayload:
		md, data := vSnap(v.Metadata), vSnap(v.Data)
		return func() bool { return vEqS(md, v.Metadata) && vEqS(data, v.Data) }
	case *frames.Setup:
		md, data, tok := vSnap(v.Metadata), vSnap(v.Data), vSnap(v.Token)
		mt, dt := vSnap([]byte(v.MimeMetadata)), vSnap([]byte(v.MimeData))
		return func() bool {
			return vEqS(md, v.Metadata) && vEqS(data, v.Data) && vEqS(tok, v.Token) && v.MimeMetadata == mt && v.MimeData == dt
		}
	case *frames.Error:
		d := vSnap([]byte(v.Data))
		return func() bool { return v.Data == d }
	}
	return func() bool { return true }
}

// Two frames of any types arrive one after the other in one read.
//
//verif:prop C06
//verif:unroll 4
func H_NextFrame(chunk []byte) {
	vRequires(len(chunk) >= 18 && len(chunk) <= 8192)
	n := vLen24(chunk)
	vRequires(n >= 6 && n+3+9 <= len(chunk))
	m := vLen24(chunk[n+3:])
	vRequires(m >= 6 && n+3+m+3 <= len(chunk))
	conn := &vConn{chunks: [][]byte{chunk}, errs: []error{nil}}
	p := NewTCPConn(conn)
	f, err := p.Read()
	vRequires(err == nil)
	same := vKept(f)
	p.Read()
	vEnsures("the first frame stays as it was", same())
}
