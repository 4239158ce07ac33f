// Package net replaces the standard package in the instrumented raft library: under an
// execution, TCP is a network in memory, driven by the scheduler.
package net

import (
	"errors"
	"io"
	"net"
	"os"
	"strconv"
	"time"

	"vmc/sched"
)

type (
	Conn     = net.Conn
	Addr     = net.Addr
	Listener = net.Listener
	TCPAddr  = net.TCPAddr
	IP       = net.IP
	Error    = net.Error
	OpError  = net.OpError
)

// Network is the virtual network of one execution.
type Network struct {
	listeners map[string]*TCPListener
	conns     []*conn
	cut       func(a, b int) bool
	// OnWrite is told of every write before it takes effect.
	OnWrite func(from, to int)
}

func Of(e *sched.Exec) *Network {
	if e.Ext == nil {
		e.Ext = map[string]any{}
	}
	n, _ := e.Ext["net"].(*Network)
	if n == nil {
		n = &Network{listeners: map[string]*TCPListener{}}
		e.Ext["net"] = n
	}
	return n
}

// Cut says which pairs of groups cannot reach each other (nil: all can). Connections that
// cross the cut break.
func (n *Network) Cut(f func(a, b int) bool) {
	n.cut = f
	if f == nil {
		return
	}
	for _, c := range n.conns {
		if !c.closed && f(c.group, c.peer.group) {
			c.closed, c.peer.closed = true, true
		}
	}
}

// Crash closes everything of a group.
func (n *Network) Crash(g int) {
	for a, l := range n.listeners {
		if l.group == g {
			l.closed = true
			delete(n.listeners, a)
		}
	}
	for _, c := range n.conns {
		if c.group == g || c.peer.group == g {
			c.closed, c.peer.closed = true, true
		}
	}
}

type TCPListener struct {
	n       *net.TCPListener
	addr    string
	group   int
	pending []*conn
	closed  bool
}

func Listen(network, addr string) (Listener, error) {
	e := sched.Active()
	if e == nil {
		l, err := net.Listen(network, addr)
		if err != nil {
			return nil, err
		}
		return &TCPListener{n: l.(*net.TCPListener)}, nil
	}
	n := Of(e)
	if n.listeners[addr] != nil {
		return nil, errors.New("address already in use: " + addr)
	}
	l := &TCPListener{addr: addr, group: e.Group()}
	n.listeners[addr] = l
	return l, nil
}

func (l *TCPListener) Accept() (net.Conn, error) {
	if l.n != nil {
		return l.n.Accept()
	}
	e := sched.Active()
	e.Block("accept", func() bool { return l.closed || len(l.pending) > 0 })
	if l.closed {
		return nil, net.ErrClosed
	}
	c := l.pending[0]
	l.pending = l.pending[1:]
	return c, nil
}

func (l *TCPListener) Close() error {
	if l.n != nil {
		return l.n.Close()
	}
	l.closed = true
	if e := sched.Active(); e != nil {
		n := Of(e)
		if n.listeners[l.addr] == l {
			delete(n.listeners, l.addr)
		}
	}
	return nil
}

func (l *TCPListener) Addr() net.Addr {
	if l.n != nil {
		return l.n.Addr()
	}
	return addrOf(l.addr)
}

func addrOf(a string) net.Addr {
	h, p, _ := net.SplitHostPort(a)
	ip := net.ParseIP(h)
	if ip == nil {
		ip = net.IPv4(127, 0, 0, 1)
	}
	port, _ := strconv.Atoi(p)
	return &net.TCPAddr{IP: ip, Port: port}
}

type conn struct {
	peer          *conn
	group         int
	addr          string
	buf           []byte
	closed, eof   bool
	readD, writeD int64
}

func DialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	e := sched.Active()
	if e == nil {
		return net.DialTimeout(network, addr, d)
	}
	n := Of(e)
	e.Point("dial")
	l := n.listeners[addr]
	if l == nil || (n.cut != nil && n.cut(e.Group(), l.group)) {
		return nil, errors.New("connection refused: " + addr)
	}
	a, b := &conn{group: e.Group(), addr: addr}, &conn{group: l.group, addr: addr}
	a.peer, b.peer = b, a
	n.conns = append(n.conns, a)
	l.pending = append(l.pending, b)
	return a, nil
}

func (c *conn) Read(p []byte) (int, error) {
	e := sched.Active()
	if e == nil || e.Killing() {
		return 0, io.EOF
	}
	late := false
	if len(c.buf) == 0 && !c.closed && !c.eof && c.readD > 0 {
		t := e.AddTimer(c.readD-e.NowNanos(), "read-deadline", func() { late = true })
		defer t.Cancel()
	}
	e.Block("read", func() bool { return len(c.buf) > 0 || c.closed || c.eof || late })
	if c.closed {
		return 0, net.ErrClosed
	}
	if len(c.buf) > 0 {
		k := copy(p, c.buf)
		c.buf = c.buf[k:]
		return k, nil
	}
	if c.eof {
		return 0, io.EOF
	}
	return 0, os.ErrDeadlineExceeded
}

func (c *conn) Write(p []byte) (int, error) {
	e := sched.Active()
	if e == nil || e.Killing() {
		return 0, io.ErrClosedPipe
	}
	e.Point("write")
	if n := Of(e); n.OnWrite != nil {
		n.OnWrite(c.group, c.peer.group)
	}
	if c.closed || c.eof || c.peer.closed {
		return 0, net.ErrClosed
	}
	c.peer.buf = append(c.peer.buf, p...)
	return len(p), nil
}

func (c *conn) Close() error {
	c.closed = true
	c.peer.eof = true
	return nil
}

func (c *conn) LocalAddr() net.Addr  { return addrOf(c.addr) }
func (c *conn) RemoteAddr() net.Addr { return addrOf(c.addr) }
func (c *conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *conn) SetReadDeadline(t time.Time) error {
	c.readD = 0
	if !t.IsZero() {
		c.readD = t.UnixNano()
	}
	return nil
}
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }
