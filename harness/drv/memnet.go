//go:build verif

package main

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net"
	"net/http"
	"os"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/browles/drip/p2p"
)

// A network in memory: it runs on the virtual clock of a synctest bubble, and
// shows every write and close of the client at the moment it happens.

var (
	memListeners sync.Map // port -> *memListener
	memListened  sync.Map // port -> func(*memListener), called when the client listens
	memHosts     sync.Map // "ip:port" -> memHost
	memTrackers  sync.Map // host name -> func(*http.Request) (*http.Response, error)
)

type memHost func(ctx context.Context) (net.Conn, error)

func init() {
	p2p.Listen = func(network, address string) (net.Listener, error) {
		_, p, err := net.SplitHostPort(address)
		if err != nil {
			return nil, err
		}
		port, err := strconv.Atoi(p)
		if err != nil {
			return nil, err
		}
		if _, ok := memListened.Load(port); port < 100000 && !ok {
			return net.Listen(network, address)
		}
		l := &memListener{port: port}
		l.cond = sync.NewCond(&l.mu)
		if _, ok := memListeners.LoadOrStore(port, l); ok {
			return nil, syscall.EADDRINUSE
		}
		if f, ok := memListened.LoadAndDelete(port); ok {
			f.(func(*memListener))(l)
		}
		return l, nil
	}
	real := p2p.Dial
	p2p.Dial = func(d *net.Dialer, ctx context.Context, network, address string) (net.Conn, error) {
		if strings.HasPrefix(address, "127.") {
			return real(d, ctx, network, address)
		}
		if h, p, err := net.SplitHostPort(address); err == nil {
			if ip := net.ParseIP(h); ip != nil {
				address = net.JoinHostPort(ip.String(), p) // one spelling
			}
		}
		h, ok := memHosts.Load(address)
		if !ok {
			if f, ok := memHosts.Load(hostPrefix(address)); ok {
				f.(func(string))(address)
			}
			return nil, syscall.ECONNREFUSED
		}
		if d.Timeout > 0 {
			c, cancel := context.WithTimeout(ctx, d.Timeout)
			defer cancel()
			ctx = c
		}
		return h.(memHost)(ctx)
	}
	real2 := http.DefaultTransport
	http.DefaultTransport = roundTripper(func(req *http.Request) (*http.Response, error) {
		if f, ok := memTrackers.Load(req.URL.Host); ok {
			return f.(func(*http.Request) (*http.Response, error))(req)
		}
		return real2.RoundTrip(req)
	})
}

// hostPrefix is the part of an address that names the run it belongs to.
func hostPrefix(address string) string {
	p := strings.SplitN(address, ".", 3)
	if len(p) < 3 {
		return "?"
	}
	return p[0] + "." + p[1]
}

type roundTripper func(*http.Request) (*http.Response, error)

func (f roundTripper) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func response(status int, body string, req *http.Request) *http.Response {
	return &http.Response{Status: strconv.Itoa(status), StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: io.NopCloser(bytes.NewReader([]byte(body))), ContentLength: int64(len(body)), Request: req}
}

type memListener struct {
	port    int
	mu      sync.Mutex
	cond    *sync.Cond
	queue   []net.Conn
	closed  bool
	onClose func()
	err     error
}

func (l *memListener) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
		}
		if l.err != nil {
			return nil, l.err
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			return c, nil
		}
		l.cond.Wait()
	}
}

func (l *memListener) Close() error {
	l.mu.Lock()
	if l.closed {
		l.mu.Unlock()
		return net.ErrClosed
	}
	l.closed = true
	queue := l.queue
	l.queue = nil
	memListeners.Delete(l.port)
	l.cond.Broadcast()
	l.mu.Unlock()
	if l.onClose != nil {
		l.onClose()
	}
	for _, c := range queue { // never accepted: reset
		c.Close()
	}
	return nil
}

func (l *memListener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4zero, Port: l.port} }

// push offers a connection; false if nobody listens.
func (l *memListener) push(c net.Conn) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return false
	}
	l.queue = append(l.queue, c)
	l.cond.Broadcast()
	return true
}

func (l *memListener) fail(err error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.err = err
	l.cond.Broadcast()
}

// memConn is the client's end of a connection.
type memConn struct {
	local, remote *net.TCPAddr
	onWrite       func(b []byte)
	onClose       func()
	jitter        int // how much its calls disturb the order of events

	wmu    sync.Mutex
	mu     sync.Mutex
	cond   *sync.Cond
	in     []byte
	eof    bool // the remote closed its end
	closed bool
	stall  bool // the remote reads no more
	room   int  // bytes that a stalled connection still takes
	window int  // bytes that may be under way, if there is a limit
	flight int
	onRead func(n int)
	rdl    time.Time
	wdl    time.Time
	rt, wt *time.Timer
}

func newMemConn(local, remote *net.TCPAddr) *memConn {
	c := &memConn{local: local, remote: remote}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *memConn) op(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.remote, Err: err}
}

func (c *memConn) Read(b []byte) (int, error) {
	disturb(c.jitter)
	n, err := c.read(b)
	if n > 0 && c.onRead != nil {
		c.onRead(n)
	}
	return n, err
}

// took is the remote reading.
func (c *memConn) took(n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.flight -= n
	c.cond.Broadcast()
}

func (c *memConn) read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		switch {
		case c.closed:
			return 0, c.op("read", net.ErrClosed)
		case !c.rdl.IsZero() && !time.Now().Before(c.rdl):
			return 0, c.op("read", os.ErrDeadlineExceeded)
		case len(b) == 0:
			return 0, nil
		case len(c.in) > 0:
			n := copy(b, c.in)
			c.in = c.in[n:]
			return n, nil
		case c.eof:
			return 0, io.EOF
		}
		c.cond.Wait()
	}
}

func (c *memConn) Write(b []byte) (int, error) {
	disturb(c.jitter)
	done := 0
	for {
		c.mu.Lock()
		var err error
		n := len(b)
		for {
			switch {
			case c.closed:
				err = net.ErrClosed
			case !c.wdl.IsZero() && !time.Now().Before(c.wdl):
				err = os.ErrDeadlineExceeded
			case c.eof:
				err = syscall.EPIPE
			}
			if err != nil {
				c.mu.Unlock()
				return done, c.op("write", err)
			}
			n = len(b)
			if c.stall {
				n = min(n, c.room)
			}
			if c.window > 0 {
				n = min(n, c.window-c.flight)
			}
			if n > 0 || len(b) == 0 {
				break
			}
			c.cond.Wait()
		}
		if c.stall {
			c.room -= n
		}
		c.flight += n
		c.mu.Unlock()
		c.wmu.Lock()
		if n > 0 && c.onWrite != nil {
			c.onWrite(b[:n])
		}
		c.wmu.Unlock()
		b = b[n:]
		done += n
		if len(b) == 0 {
			return done, nil
		}
	}
}

// setStall makes the remote stop reading after room more bytes, or resume.
func (c *memConn) setStall(stall bool, room int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.stall, c.room = stall, room
	c.cond.Broadcast()
}

func (c *memConn) Close() error {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return c.op("close", net.ErrClosed)
	}
	c.closed = true
	for _, t := range []*time.Timer{c.rt, c.wt} {
		if t != nil {
			t.Stop()
		}
	}
	c.cond.Broadcast()
	c.mu.Unlock()
	if c.onClose != nil {
		c.onClose()
	}
	return nil
}

func (c *memConn) LocalAddr() net.Addr  { return c.local }
func (c *memConn) RemoteAddr() net.Addr { disturb(c.jitter); return c.remote }

func (c *memConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *memConn) arm(old *time.Timer, t time.Time) *time.Timer {
	if old != nil {
		old.Stop()
	}
	c.cond.Broadcast()
	if t.IsZero() || c.closed {
		return nil
	}
	return time.AfterFunc(time.Until(t), func() {
		c.mu.Lock()
		c.cond.Broadcast()
		c.mu.Unlock()
	})
}

func (c *memConn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return c.op("set", net.ErrClosed)
	}
	c.rdl = t
	c.rt = c.arm(c.rt, t)
	return nil
}

func (c *memConn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return c.op("set", net.ErrClosed)
	}
	c.wdl = t
	c.wt = c.arm(c.wt, t)
	return nil
}

// feed is the remote writing.
func (c *memConn) feed(b []byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.in = append(c.in, b...)
	c.cond.Broadcast()
}

// hangup is the remote closing its end.
func (c *memConn) hangup() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.eof = true
	c.cond.Broadcast()
}

func (c *memConn) isClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

var errRefused = errors.New("refused")
