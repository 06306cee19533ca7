// Package memnet is the network the engine gives to the code it runs: one host, whose streams deliver
// every write at once, to be read in pieces of any size.
package memnet

import (
	"errors"
	"io"
	"net"
	"time"
)

var (
	// ErrClosed is what net.ErrClosed is in the engine.
	ErrClosed = errors.New("use of closed network connection")
	listeners = map[string]*listener{}
	changed   = make(chan struct{})
	// Open counts the streams that this side, or the other, has not closed.
	open int
)

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

type listener struct {
	at     addr
	queue  chan net.Conn
	done   chan struct{}
	closed bool
}

func fail(op string, a addr, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Addr: a, Err: err}
}

func Listen(network, address string) (net.Listener, error) {
	if listeners[address] != nil {
		return nil, fail("listen", addr(address), errors.New("address already in use"))
	}
	l := &listener{at: addr(address), queue: make(chan net.Conn, 8), done: make(chan struct{})}
	listeners[address] = l
	close(changed)
	changed = make(chan struct{})
	return l, nil
}

func (l *listener) Accept() (net.Conn, error) {
	if l.closed {
		return nil, fail("accept", l.at, ErrClosed)
	}
	select {
	case c := <-l.queue:
		return c, nil
	case <-l.done:
		return nil, fail("accept", l.at, ErrClosed)
	}
}

func (l *listener) Close() error {
	if l.closed {
		return fail("close", l.at, ErrClosed)
	}
	l.closed = true
	delete(listeners, string(l.at))
	close(l.done)
	for {
		select {
		case c := <-l.queue:
			c.Close()
		default:
			return nil
		}
	}
}

func (l *listener) Addr() net.Addr { return l.at }

// DialRetry waits until someone listens.
func DialRetry(address string) net.Conn {
	for listeners[address] == nil {
		<-changed
	}
	c, _ := Dial("tcp", address)
	return c
}

func Dial(network, address string) (net.Conn, error) {
	l := listeners[address]
	if l == nil {
		return nil, fail("dial", addr(address), errors.New("connection refused"))
	}
	a, b := newStream(), newStream()
	open += 2
	l.queue <- &conn{in: a, out: b, local: l.at, remote: "client:1", closed: make(chan struct{})}
	return &conn{in: b, out: a, local: "client:1", remote: l.at, closed: make(chan struct{})}, nil
}

// stream is one direction: what was written and not read, and whether its writer or reader is gone.
type stream struct {
	parts  chan []byte
	left   []byte
	eof    chan struct{}
	broken bool
}

func newStream() *stream {
	return &stream{parts: make(chan []byte, 64), eof: make(chan struct{})}
}

type conn struct {
	in, out       *stream
	local, remote addr
	closed        chan struct{}
	isClosed      bool
	halfClosed    bool
}

func (c *conn) Read(b []byte) (int, error) {
	if c.isClosed {
		return 0, fail("read", c.remote, ErrClosed)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if len(c.in.left) == 0 {
		select {
		case p := <-c.in.parts:
			c.in.left = p
		default:
			select {
			case p := <-c.in.parts:
				c.in.left = p
			case <-c.closed:
				return 0, fail("read", c.remote, ErrClosed)
			case <-c.in.eof:
				select {
				case p := <-c.in.parts:
					c.in.left = p
				default:
					return 0, io.EOF
				}
			}
		}
	}
	n := copy(b, c.in.left)
	c.in.left = c.in.left[n:]
	return n, nil
}

func (c *conn) Write(b []byte) (int, error) {
	if c.isClosed || c.halfClosed {
		return 0, fail("write", c.remote, ErrClosed)
	}
	if c.out.broken {
		return 0, fail("write", c.remote, errors.New("broken pipe"))
	}
	if len(b) > 0 {
		c.out.parts <- append([]byte{}, b...)
	}
	return len(b), nil
}

// CloseWrite tells the other side that nothing follows.
func (c *conn) CloseWrite() error {
	if !c.halfClosed && !c.isClosed {
		c.halfClosed = true
		close(c.out.eof)
	}
	return nil
}

func (c *conn) Close() error {
	if c.isClosed {
		return fail("close", c.remote, ErrClosed)
	}
	c.CloseWrite()
	c.isClosed = true
	c.in.broken = true
	open--
	close(c.closed)
	return nil
}

func (c *conn) LocalAddr() net.Addr                { return c.local }
func (c *conn) RemoteAddr() net.Addr               { return c.remote }
func (c *conn) SetDeadline(t time.Time) error      { return nil }
func (c *conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }

func FreePort() int { return 27017 }
