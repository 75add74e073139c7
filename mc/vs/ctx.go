package zzvs

import (
	"context"
	"net"
	"os"
	"time"
)

// Contexts with cancellation, on virtual channels and the virtual clock.

type ctx struct {
	context.Context
	mu       Mutex
	done     chan struct{}
	err      error
	deadline time.Time
	children []*ctx
	timer    *Timer
}

func (c *ctx) Done() <-chan struct{} { return c.done }

func (c *ctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

func (c *ctx) Deadline() (time.Time, bool) {
	if !c.deadline.IsZero() {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

type ctxKey struct{}

func (c *ctx) Value(k interface{}) interface{} {
	if _, ok := k.(ctxKey); ok {
		return c
	}
	return c.Context.Value(k)
}

func (c *ctx) cancel(err error) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	c.err = err
	children := c.children
	c.children = nil
	Close((chan<- struct{})(c.done))
	c.mu.Unlock()
	for _, x := range children {
		x.cancel(err)
	}
	if c.timer != nil {
		c.timer.Stop()
	}
}

func newCtx(parent context.Context) *ctx {
	c := &ctx{Context: parent, done: make(chan struct{})}
	if p, ok := parent.Value(ctxKey{}).(*ctx); ok {
		p.mu.Lock()
		err := p.err
		if err == nil {
			p.children = append(p.children, c)
		}
		p.mu.Unlock()
		if err != nil {
			c.cancel(err)
		}
	}
	return c
}

// CtxWithCancel replaces context.WithCancel.
func CtxWithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(context.Canceled) }
}

// CtxWithDeadline replaces context.WithDeadline.
func CtxWithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	if cur, ok := parent.Deadline(); !ok || at.Before(cur) {
		c.deadline = at
		c.timer = AfterFunc(Until(at), func() { c.cancel(context.DeadlineExceeded) })
	}
	return c, func() { c.cancel(context.Canceled) }
}

// CtxWithTimeout replaces context.WithTimeout.
func CtxWithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return CtxWithDeadline(parent, Now().Add(d))
}

// Dialer replaces net.Dialer.
type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     net.Addr
	DualStack     bool
	FallbackDelay time.Duration
	KeepAlive     time.Duration
	Cancel        <-chan struct{}
}

func (d *Dialer) Dial(network, addr string) (net.Conn, error) { return NetDial(network, addr) }
func (d *Dialer) DialContext(c context.Context, network, addr string) (net.Conn, error) {
	if err := c.Err(); err != nil {
		return nil, operr("dial", err)
	}
	return NetDial(network, addr)
}

// ListenConfig replaces net.ListenConfig.
type ListenConfig struct {
	KeepAlive time.Duration
}

func (l *ListenConfig) Listen(c context.Context, network, addr string) (net.Listener, error) {
	return NetListen(network, addr)
}

// Deadlines of a virtual connection: virtual nanoseconds, 0 for none.

func (c *Conn) at(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	at := int64(t.Sub(epoch0))
	if at <= 0 {
		at = 1
	}
	return at
}

func (c *Conn) deadline(which *int64, g **G, t time.Time) error {
	x := soft()
	if x == nil {
		return nil
	}
	c.w.point(x, "set deadline", nil)
	if c.closed {
		return operr("set", net.ErrClosed)
	}
	*which = c.at(t)
	x.h = mix(x.h, uint64(*which)+0x13)
	x.release(&c.dlo, 52)
	c.w.effects()
	if *g != nil { // waiting already
		(*g).dl = -1
		if *which > 0 {
			(*g).dl = *which
		}
	}
	return nil
}

func (c *Conn) SetReadDeadline(t time.Time) error  { return c.deadline(&c.rdl, &c.rg, t) }
func (c *Conn) SetWriteDeadline(t time.Time) error { return c.deadline(&c.wdl, &c.wg, t) }
func (c *Conn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}

func (c *Conn) late(dl int64) bool { return dl > 0 && c.w.now >= dl }

// await is a scheduling point at which g waits for ok, a close, or the deadline.
func (c *Conn) await(g *G, what string, slot **G, dl *int64, ok func() bool) bool {
	if *dl > c.w.now {
		g.dl = *dl
	}
	*slot = g
	c.w.point(g, what, func() bool { return ok() || c.late(*dl) })
	*slot = nil
	g.dl = -1
	if c.late(*dl) {
		g.acquire(&c.dlo, 53)
		g.h = mix(g.h, uint64(c.w.now)+0x14)
		return false
	}
	return true
}

var errDeadline = operr("i/o", os.ErrDeadlineExceeded)
