//verif:pkg transport/rsocket
package rsocket

import (
	"context"
	"io"
	"net"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
)

// vListener hands out some connections and then ends.
type vListener struct {
	net.Listener
	conns  []*vConn
	closed int
	fails  int    // failures before the next connection
	over   func() // called before the last connection is handed out
}

func (l *vListener) Accept() (net.Conn, error) {
	if l.fails > 0 {
		l.fails--
		return nil, vFailure
	}
	if len(l.conns) == 0 {
		return nil, io.EOF
	}
	c := l.conns[0]
	l.conns = l.conns[1:]
	if l.over != nil && len(l.conns) == 0 {
		l.over()
	}
	return c, nil
}

func (l *vListener) Close() error {
	l.closed++
	return nil
}

// vConnected is a connection on which a client's setup frame arrives.
func vConnected(index uint32) *vConn {
	table := operations.Table{{Index: index, Type: operations.FireAndForget, Direction: operations.Export, Namespace: "n", Operation: "o"}}
	f := frames.Setup{MinorVersion: 2, Data: table.ToBytes()}
	size := f.Size()
	b := make([]byte, 3+size)
	b[1], b[2] = byte(size>>8), byte(size)
	f.Encode(b[3:])
	return &vConn{chunks: [][]byte{b}, errs: []error{nil}}
}

// Every accepted connection is served with a handler of its own, which is handed on
// when the client has set it up.
//
//verif:prop C38
//verif:bounded up to two connections, served when the listener has ended
//verif:unroll 300
func H_Listen(n, fails int, x, y uint32) {
	vRequires(n >= 0 && n <= 2 && fails >= 0 && fails <= 2)
	conns := []*vConn{vConnected(x), vConnected(y)}[:n]
	index := [2]uint32{x, y}
	l := &vListener{conns: conns, fails: fails}
	t := NewTCPServerTransport(func(context.Context) (net.Listener, error) { return l, nil }, nil)
	var callers []invoke.Caller
	t.Accept(func(ctx context.Context, caller invoke.Caller, onClose func(*Transport)) {
		callers = append(callers, caller)
	})
	ok := make(chan bool, 1)
	err := t.Listen(context.Background(), ok)
	vEnsures("listening was told", <-ok)
	vRunGo()
	vEnsures("over", err == nil && l.closed == 1)
	vEnsures("each is handed on", len(callers) == n)
	for i := range conns {
		vEnsures("closed when it ended", conns[i].closed >= 1)
		vEnsures("with its own operations", callers[i].ImportFireAndForget("n", "o") == index[i])
		callers[i].FireAndForget(context.Background(), payload.New(nil))
		for j := range conns {
			vEnsures("on its own connection", len(conns[j].out) > 0 == (j <= i))
		}
	}
}

// A connection that is accepted when the server was closed is closed.
//
//verif:prop C38
//verif:bounded up to two connections
//verif:unroll 300
func H_ListenClosed(n int) {
	vRequires(n >= 1 && n <= 2)
	conns := []*vConn{vConnected(1), vConnected(2)}[:n]
	l := &vListener{conns: conns}
	t := NewTCPServerTransport(func(context.Context) (net.Listener, error) { return l, nil }, nil)
	called := 0
	t.Accept(func(ctx context.Context, caller invoke.Caller, onClose func(*Transport)) { called++ })
	l.over = func() { t.Close() }
	ok := make(chan bool, 1)
	err := t.Listen(context.Background(), ok)
	vRunGo()
	vEnsures("over", err == nil && l.closed == 1)
	vEnsures("it is not handed on", called <= n-1)
	for i := range conns {
		vEnsures("closed", conns[i].closed >= 1)
	}
	vEnsures("closing again is no error", t.Close() == nil && l.closed == 1)
}

// A server that cannot listen says so.
//
//verif:prop C38
func H_ListenFails() {
	t := NewTCPServerTransport(func(context.Context) (net.Listener, error) { return nil, vFailure }, nil)
	ok := make(chan bool, 1)
	err := t.Listen(context.Background(), ok)
	vEnsures("failure is told", err != nil && !<-ok)
}
