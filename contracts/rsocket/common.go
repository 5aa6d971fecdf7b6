//verif:pkg transport/rsocket
//verif:common
package rsocket

import (
	"io"
	"net"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
)

// vConn is a connection that keeps every byte written to it and whose reads are
// answered from the list of chunks.
type vConn struct {
	out    []byte
	chunks [][]byte
	errs   []error
	i      int
	last   []byte // buffer of the last read
	closed int
}

func (c *vConn) Read(p []byte) (int, error) {
	c.last = p
	if c.i >= len(c.chunks) {
		return 0, io.EOF
	}
	n := copy(p, c.chunks[c.i])
	if n < len(c.chunks[c.i]) {
		c.chunks[c.i] = c.chunks[c.i][n:]
		return n, nil
	}
	err := c.errs[c.i]
	c.i++
	return n, err
}
func (c *vConn) Write(p []byte) (int, error) {
	c.out = append(c.out, p...)
	return len(p), nil
}
func (c *vConn) Close() error                       { c.closed++; return nil }
func (c *vConn) LocalAddr() net.Addr                { return nil }
func (c *vConn) RemoteAddr() net.Addr               { return nil }
func (c *vConn) SetDeadline(t time.Time) error      { return nil }
func (c *vConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *vConn) SetWriteDeadline(t time.Time) error { return nil }

// vFrame is a frame with any encoding.
type vFrame struct {
	b []byte
}

func (f *vFrame) GetStreamID() uint32        { return 1 }
func (f *vFrame) Type() frames.FrameType     { return frames.FrameTypePayload }
func (f *vFrame) Size() uint32               { return uint32(len(f.b)) }
func (f *vFrame) Encode(buf []byte)          { copy(buf, f.b) }
func (f *vFrame) Decode(h *frames.FrameHeader, b []byte) error { return nil }

func vLen24(b []byte) int { return int(b[0])<<16 | int(b[1])<<8 | int(b[2]) }
