//verif:pkg transport/rsocket
package rsocket

import (
	"io"

	"github.com/nanobus/iota/go/internal/frames"
)

// Whatever arrives on a connection: a frame of the type that its header says, or an error.
//
//verif:prop C03
//verif:unroll 8
func H_Arrives(chunk []byte, eof bool) {
	vRequires(len(chunk) <= 8192)
	conn := &vConn{chunks: [][]byte{chunk}, errs: []error{nil}}
	if eof {
		conn.errs[0] = io.EOF
	}
	p := NewTCPConn(conn)
	f, err := p.Read()
	if err != nil {
		vEnsures("no frame with an error", f == nil)
		return
	}
	vCover("frame")
	vEnsures("whole", len(chunk) >= 9 && vLen24(chunk) >= 6 && vLen24(chunk)+3 <= len(chunk))
	h := frames.ParseFrameHeader(chunk[3:9])
	vEnsures("type", f.Type() == h.Type())
	vEnsures("stream", f.GetStreamID() == h.StreamID() || f.Type() == frames.FrameTypeSetup)
}
