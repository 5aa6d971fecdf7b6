//verif:pkg transport/rsocket
package rsocket

import (
	"errors"
	"io"
)

//verif:prop C05
func H_Split(data []byte, eof bool) {
	adv, tok, err := doSplit(data, eof)
	if len(data) >= 3 && vLen24(data) == 0 {
		vEnsures("a length of zero is an error", err != nil && tok == nil && adv == 0)
		return
	}
	vEnsures("no error", err == nil)
	if len(data) < 3 || vLen24(data)+3 > len(data) {
		vEnsures("an incomplete frame is never a token", adv == 0 && tok == nil)
		return
	}
	vEnsures("moves past exactly the frame", adv == vLen24(data)+3)
	vEnsures("the token is the frame", vEq(tok, data[:vLen24(data)+3]))
}

// The writer holds pending bytes: any number that its buffer can hold.
//
//verif:prop C05
//verif:unroll 3
func H_Write(pending, b []byte) {
	vRequires(len(pending) <= 8192 && len(b) <= 1<<31)
	vRequires(len(b) > 0)
	conn := &vConn{}
	p := NewTCPConn(conn)
	p.writer.Write(pending)
	vGuarded("the writer", &p.mu, &p.writer)
	err := p.Write(&vFrame{b})
	vEnsures("a frame is written in one step", vSections(&p.mu) <= 1)
	if len(b) > 16777215 {
		vEnsures("too long a frame is refused", err != nil)
		ferr := p.Flush()
		vEnsures("and leaves no trace", ferr == nil && vEq(conn.out, pending))
		return
	}
	vEnsures("no error", err == nil)
	ferr := p.Flush()
	vEnsures("flushed", ferr == nil)
	vEnsures("unlocked", vUnlocked())
	n := len(pending)
	vEnsures("length", len(conn.out) == n+3+len(b))
	vEnsures("what was written before comes first", vEq(conn.out[:n], pending))
	vEnsures("24-bit length", vLen24(conn.out[n:n+3]) == len(b))
	vEnsures("the frame follows", vEq(conn.out[n+3:], b))
}

// One frame arrives in one read, whatever follows it.
//
//verif:prop C05
func H_ReadOne(chunk []byte) {
	conn := &vConn{chunks: [][]byte{chunk}, errs: []error{nil}}
	d := NewLengthBasedFrameDecoder(conn)
	vRequires(len(chunk) >= 9 && len(chunk) <= 8192)
	n := vLen24(chunk)
	vRequires(n >= 6 && n+3 <= len(chunk))
	raw, err := d.Read()
	vEnsures("no error", err == nil)
	vEnsures("the frame", vEq(raw, chunk[3:3+n]))
}

// A frame arrives in two reads, split anywhere.
//
//verif:prop C05
//verif:bounded two reads
//verif:unroll 8
func H_ReadTwoParts(a, b []byte, eof bool) {
	conn := &vConn{chunks: [][]byte{a, b}, errs: []error{nil, nil}}
	if eof {
		conn.errs[1] = io.EOF
	}
	d := NewLengthBasedFrameDecoder(conn)
	vRequires(len(a) > 0 && len(b) > 0 && len(a) <= 8192 && len(b) <= 8192)
	all := append(append([]byte{}, a...), b...)
	vRequires(len(all) >= 3)
	n := vLen24(all)
	vRequires(n >= 6)
	raw, err := d.Read()
	if n+3 > len(all) {
		vEnsures("an incomplete frame is not delivered", raw == nil && err == io.EOF)
		return
	}
	vEnsures("no error", err == nil)
	vEnsures("the frame", vEq(raw, all[3:3+n]))
}

// Two frames, one after the other, whatever the reads.
//
//verif:prop C05
//verif:bounded two frames in one read
//verif:unroll 4
func H_ReadTwoFrames(a []byte, eof bool) {
	conn := &vConn{chunks: [][]byte{a}, errs: []error{nil}}
	if eof {
		conn.errs[0] = io.EOF
	}
	d := NewLengthBasedFrameDecoder(conn)
	vRequires(len(a) >= 9 && len(a) <= 8192)
	n := vLen24(a)
	vRequires(n >= 6 && n+3+3 <= len(a))
	m := vLen24(a[n+3:])
	vRequires(m >= 6)
	raw, err := d.Read()
	vEnsures("first: no error", err == nil)
	vEnsures("first frame", vEq(raw, a[3:3+n]))
	raw, err = d.Read()
	if n+3+m+3 > len(a) {
		vEnsures("an incomplete frame is not delivered", raw == nil && err == io.EOF)
		return
	}
	vEnsures("second: no error", err == nil)
	vEnsures("second frame", vEq(raw, a[n+6:n+6+m]))
}

// Frames of every expressible length are read.
//
//verif:prop C05
//verif:bounded one frame
//verif:unroll 40
func H_ReadLarge(all []byte) {
	conn := &vConn{chunks: [][]byte{all}, errs: []error{nil}}
	d := NewLengthBasedFrameDecoder(conn)
	vRequires(len(all) >= 9 && len(all) <= 16777215+3)
	n := vLen24(all)
	vRequires(n == len(all)-3)
	raw, err := d.Read()
	vEnsures("no error", err == nil)
	vEnsures("the frame", vEq(raw, all[3:]))
}

// A connection that fails is not mistaken for one that ended, nor the other way round.
//
//verif:prop C05
//verif:unroll 4
func H_ReadFails(a []byte, closed bool) {
	vRequires(len(a) < 3)
	conn := &vConn{chunks: [][]byte{a}, errs: []error{errors.New("reset by peer")}}
	if closed {
		conn.errs[0] = errors.New("use of closed network connection")
	}
	raw, err := NewTCPConn(conn).Read()
	vEnsures("nothing is delivered", raw == nil && err != nil)
	vEnsures("why", (err == io.EOF) == closed)
}
