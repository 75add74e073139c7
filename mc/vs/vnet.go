package zzvs

import (
	"errors"
	"fmt"
	"io"
	"net"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

func stack() string { return string(debug.Stack()) }

// Net is the virtual network: reliable ordered byte streams between hosts.
type Net struct {
	ls         []*Listener
	eph        map[string]int
	Conns      []*Conn // dialed ends, in dial order
	Dials      []string
	Refused    []string // dials refused
	KeepWrites bool     // keep everything written in Conn.Wrote
	signals    []sigReg
	Via        map[string]string // where connections really go, by "host>address dialed"
	Listens    []ListenRec
}

// ListenRec records a successful listen.
type ListenRec struct {
	Host string
	Port int
	L    *Listener
}

// Listener is a virtual TCP listener.
type Listener struct {
	host, ip string
	Port     int
	q        []*Conn
	closed   bool
	o        obj
	w        *World
}

// Conn is one end of a virtual TCP connection.
type Conn struct {
	w             *World
	local, remote *net.TCPAddr
	peer          *Conn
	buf           []byte
	closed        bool // this end was closed
	reset         bool // the other end will have nothing any more
	resetErr      bool // and nobody was told yet
	o             obj  // writes into this end
	Wrote         []byte

	Host       string
	RemoteHost string
	stall      bool

	rdl, wdl int64 // deadlines
	rg, wg   *G    // who waits
	dlo      obj
}

func split(addr string) (string, int, error) {
	i := strings.LastIndexByte(addr, ':')
	if i < 0 {
		return "", 0, fmt.Errorf("address %s: missing port in address", addr)
	}
	p, err := strconv.Atoi(addr[i+1:])
	if err != nil || p < 0 || p > 65535 {
		return "", 0, fmt.Errorf("address %s: invalid port", addr)
	}
	return addr[:i], p, nil
}

func operr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Err: err}
}

// NetListen replaces net.Listen.
func NetListen(network, addr string) (net.Listener, error) {
	g := me()
	if g == nil {
		return nil, errors.New("listen outside an execution")
	}
	w := W
	w.point(g, "listen "+addr, nil)
	ip, port, err := split(addr)
	if err != nil {
		return nil, operr("listen", err)
	}
	if ip == "" {
		ip = "0.0.0.0"
	}
	if port == 0 {
		w.Net.eph[g.host]++
		port = 52000 + w.Net.eph[g.host]
	}
	for _, l := range w.Net.ls {
		if !l.closed && l.host == g.host && l.Port == port && (l.ip == ip || l.ip == "0.0.0.0" || ip == "0.0.0.0") {
			w.trace("listen %s: in use", addr)
			return nil, operr("listen", errors.New("bind: address already in use"))
		}
	}
	l := &Listener{host: g.host, ip: ip, Port: port, w: w}
	w.Net.ls = append(w.Net.ls, l)
	w.Net.Listens = append(w.Net.Listens, ListenRec{g.host, port, l})
	g.release(&l.o, 40)
	w.effects()
	w.envH += mix(g.h, 40)
	w.trace("listen %s on %s", addr, g.host)
	return l, nil
}

// Down cuts a host off: its connections and listeners are closed (both ends notice).
func Down(host string) {
	g := me()
	w := W
	w.point(g, "host down", nil)
	for _, l := range w.Net.ls {
		if l.host == host && !l.closed {
			l.closed = true
			g.release(&l.o, 51)
			for _, c := range l.q {
				c.closed = true
				g.release(&c.peer.o, 51)
			}
		}
	}
	for _, c := range w.Net.Conns {
		if (c.Host == host || c.RemoteHost == host) && !(c.closed && c.peer.closed) {
			c.closed, c.peer.closed = true, true
			g.release(&c.o, 51)
			g.release(&c.peer.o, 51)
		}
	}
	w.effects()
	w.envH += mix(g.h, 51)
	w.trace("host %s is down", host)
}

// Break cuts all connections between two hosts (both ends notice).
func Break(h1, h2 string) {
	g := me()
	w := W
	w.point(g, "break", nil)
	for _, c := range w.Net.Conns {
		if (c.Host == h1 && c.RemoteHost == h2 || c.Host == h2 && c.RemoteHost == h1) && !(c.closed && c.peer.closed) {
			c.closed, c.peer.closed = true, true
			g.release(&c.o, 52)
			g.release(&c.peer.o, 52)
		}
	}
	w.effects()
	w.envH += mix(g.h, 52)
	w.trace("connections between %s and %s break", h1, h2)
}

// OpenConns lists the connections with an open end on the host.
func (n *Net) OpenConns(host string) []string {
	var out []string
	for _, a := range n.Conns {
		for _, c := range []*Conn{a, a.peer} {
			if c.Host == host && !c.closed {
				out = append(out, fmt.Sprintf("%v-%v", c.local, c.remote))
			}
		}
	}
	return out
}

// OpenListeners lists the listeners open on the host.
func (n *Net) OpenListeners(host string) []int {
	var out []int
	for _, l := range n.ls {
		if l.host == host && !l.closed {
			out = append(out, l.Port)
		}
	}
	return out
}

// Open reports whether the listener is open.
func (l *Listener) Open() bool { return !l.closed }

func (l *Listener) Accept() (net.Conn, error) {
	g := me()
	if g == nil {
		return nil, net.ErrClosed
	}
	w := W
	w.point(g, "accept", func() bool { return l.closed || len(l.q) > 0 })
	w.effects()
	g.acquire(&l.o, 41)
	l.o.h = g.h
	if l.closed {
		return nil, operr("accept", net.ErrClosed)
	}
	c := l.q[0]
	l.q = l.q[1:]
	w.trace("accept %v", c.remote)
	return c, nil
}

func (l *Listener) Close() error {
	g := soft()
	if g == nil {
		return nil
	}
	w := W
	w.point(g, "listener.close", nil)
	w.effects()
	if l.closed {
		return operr("close", net.ErrClosed)
	}
	l.closed = true
	g.release(&l.o, 42)
	w.envH += mix(g.h, 42)
	for _, c := range l.q {
		c.closed = true
		c.peer.reset, c.peer.resetErr = true, true
		g.release(&c.peer.o, 42)
	}
	w.trace("listener closed :%d", l.Port)
	return nil
}

func (l *Listener) Addr() net.Addr { return &net.TCPAddr{IP: net.ParseIP(l.ip), Port: l.Port} }

// NetDialTimeout replaces net.DialTimeout.
func NetDialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	return NetDial(network, addr)
}

// NetDial replaces net.Dial.
func NetDial(network, addr string) (net.Conn, error) {
	g := me()
	if g == nil {
		return nil, errors.New("dial outside an execution")
	}
	w := W
	w.point(g, "dial "+addr, nil)
	g.h = mix(g.h, w.envH)
	ip, port, err := split(addr)
	if err != nil {
		return nil, operr("dial", err)
	}
	w.Net.Dials = append(w.Net.Dials, addr)
	if to, ok := w.Net.Via[g.host+">"+addr]; ok {
		ip, port, _ = split(to)
	}
	host, from := ip, g.host
	if ip == "127.0.0.1" || ip == "0.0.0.0" || ip == "" || ip == "localhost" {
		host, from = g.host, "127.0.0.1"
	}
	var l *Listener
	for _, x := range w.Net.ls {
		if !x.closed && x.host == host && x.Port == port && (x.ip == "0.0.0.0" || x.ip == ip || (from == "127.0.0.1" && x.ip == "127.0.0.1")) {
			l = x
		}
	}
	if l == nil {
		w.trace("dial %s refused", addr)
		w.Net.Refused = append(w.Net.Refused, fmt.Sprintf("%s from %s", addr, g.host))
		return nil, operr("dial", errors.New("connect: connection refused ("+addr+")"))
	}
	to := ip
	if from == "127.0.0.1" {
		to = "127.0.0.1"
	}
	w.Net.eph[g.host]++
	g.h = mix(g.h, uint64(w.Net.eph[g.host]))
	la := &net.TCPAddr{IP: net.ParseIP(from), Port: 50000 + w.Net.eph[g.host]}
	ra := &net.TCPAddr{IP: net.ParseIP(to), Port: port}
	a := &Conn{w: w, local: la, remote: ra, Host: g.host, RemoteHost: host}
	b := &Conn{w: w, local: ra, remote: la, Host: host, RemoteHost: g.host}
	a.peer, b.peer = b, a
	l.q = append(l.q, b)
	w.Net.Conns = append(w.Net.Conns, a)
	g.acquire(&l.o, 43)
	g.release(&l.o, 43)
	w.envH += mix(g.h, 43)
	w.effects()
	w.trace("dial %s", addr)
	return a, nil
}

func (c *Conn) Read(b []byte) (int, error) {
	g := me()
	if g == nil {
		return 0, net.ErrClosed
	}
	w := W
	in := c.await(g, "read", &c.rg, &c.rdl, func() bool { return c.closed || len(c.buf) > 0 || c.peer.closed })
	g.acquire(&c.o, 44)
	w.effects()
	if c.closed {
		return 0, operr("read", net.ErrClosed)
	}
	if !in {
		return 0, errDeadline
	}
	if len(c.buf) == 0 {
		g.h = mix(g.h, 45)
		if c.resetErr {
			c.resetErr = false
			c.o.h = mix(c.o.h, g.h)
			return 0, operr("read", errors.New("connection reset by peer"))
		}
		return 0, io.EOF
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := len(c.buf)
	if n > len(b) {
		n = len(b)
	}
	if w.ReadSplit != nil {
		if alts := w.ReadSplit(n); len(alts) > 0 {
			if k := Choose(1 + len(alts)); k > 0 {
				n = alts[k-1]
			}
		}
	}
	copy(b, c.buf[:n])
	c.buf = c.buf[n:]
	c.o.h = g.h
	w.trace("read %d bytes", n)
	return n, nil
}

func (c *Conn) Write(b []byte) (int, error) {
	g := me()
	if g == nil {
		return 0, net.ErrClosed
	}
	w := W
	done := 0
	for {
		in := c.await(g, "write", &c.wg, &c.wdl, func() bool {
			return c.closed || c.peer.closed || (!c.stall && (w.ConnCap == 0 || len(c.peer.buf) < w.ConnCap))
		})
		w.effects()
		if c.closed {
			g.acquire(&c.o, 46)
			return done, operr("write", net.ErrClosed)
		}
		if !in {
			return done, errDeadline
		}
		if c.peer.closed {
			// As with the kernel: the other end answers the first write with a reset, which it
			// has done already if it closed with something unread.
			g.acquire(&c.o, 47)
			c.o.h = mix(c.o.h, g.h)
			if c.resetErr {
				c.resetErr = false
				return done, operr("write", errors.New("connection reset by peer"))
			}
			if c.reset {
				return done, operr("write", errors.New("broken pipe"))
			}
			c.reset = true
			w.trace("write %d bytes to nobody", len(b)-done)
			return len(b), nil
		}
		p := c.peer
		k := len(b) - done
		if w.ConnCap > 0 && k > w.ConnCap-len(p.buf) {
			k = w.ConnCap - len(p.buf)
		}
		p.buf = append(p.buf, b[done:done+k]...)
		if w.Net.KeepWrites {
			c.Wrote = append(c.Wrote, b[done:done+k]...)
		}
		done += k
		g.release(&p.o, 48)
		w.trace("write %d bytes", k)
		if done == len(b) {
			return done, nil
		}
	}
}

// Stall blocks (or releases) all writes on this end: a peer that does not drain its buffer.
func (c *Conn) Stall(on bool) { c.stall = on; c.w.effect++; c.w.envH = mix(c.w.envH, 99) }

// IsClosed reports whether this end was closed.
func (c *Conn) IsClosed() bool { return c.closed }

// Peer is the other end.
func (c *Conn) Peer() *Conn { return c.peer }

func (c *Conn) Close() error {
	g := soft()
	if g == nil {
		return nil
	}
	w := W
	w.point(g, "conn.close", nil)
	w.effects()
	if c.closed {
		return operr("close", net.ErrClosed)
	}
	c.closed = true
	if len(c.buf) > 0 && !c.peer.closed {
		c.peer.reset, c.peer.resetErr = true, true
	}
	g.release(&c.o, 49)
	g.release(&c.peer.o, 49)
	w.trace("conn closed")
	return nil
}

func (c *Conn) LocalAddr() net.Addr  { return c.local }
func (c *Conn) RemoteAddr() net.Addr { return c.remote }
