package zzvs

import (
	"fmt"
	"unsafe"
)

type msgVC struct {
	vc []uint32
	h  uint64
}

type chanState struct {
	closed  bool
	closeVC msgVC
	sends   []msgVC // of buffered messages
	recvs   []msgVC // of past receives, for the k-th receive before the k+C-th send edge
	nsend   int
	cap     int
	recvq   []*waiter
	sendq   []*waiter
	h       uint64
	nsendq  uint64 // senders and receivers that ever came
	nrecvq  uint64
	keep    interface{}
}

type waiter struct {
	g       *G
	op      *selOp
	idx     int
	val     interface{}
	do      func()
	setRecv func(v interface{}, ok bool)
}

type selOp struct {
	matched int  // case index matched by a counterpart, -1
	queued  bool // everything was at rest while it waited
	cases   []*Case
	vc      []uint32
	h       uint64
}

// Case is one communication of a select.
type Case struct {
	cs      *chanState
	send    bool
	buf     bool
	length  func() int
	probe   func() bool // detects a channel closed outside the shim
	do      func()
	val     interface{}
	setRecv func(v interface{}, ok bool)
	strict  bool // only partners that may wait already
}

func state(p unsafe.Pointer, c int, keep interface{}) *chanState {
	if p == nil {
		return nil
	}
	s := W.chans[p]
	if s == nil {
		s = &chanState{cap: c, keep: keep}
		W.chans[p] = s
	}
	return s
}

func chanPtr[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func chanPtrS[T any](ch chan<- T) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&ch))
}

// RecvCase is a receive in a select.
type RecvCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
	c  *Case
}

func (r *RecvCase[T]) cas() *Case {
	if r.c != nil {
		return r.c
	}
	ch := r.ch
	c := &Case{cs: state(chanPtr(ch), cap(ch), ch), buf: cap(ch) > 0}
	c.length = func() int { return len(ch) }
	c.probe = func() bool {
		if len(ch) > 0 {
			return false
		}
		select {
		case _, ok := <-ch:
			return !ok
		default:
			return false
		}
	}
	c.do = func() {
		r.V, r.OK = <-ch
	}
	c.setRecv = func(v interface{}, ok bool) {
		if v != nil {
			r.V = v.(T)
		} else {
			var z T
			r.V = z
		}
		r.OK = ok
	}
	r.c = c
	return c
}

// RC makes a receive case.
func RC[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

// SendCase is a send in a select.
type SendCase[T any] struct {
	ch chan<- T
	v  T
	c  *Case
}

// SC makes a send case, to be completed by Val.
func SC[T any](ch chan<- T) *SendCase[T] { return &SendCase[T]{ch: ch} }

// Val sets the value to send.
func (s *SendCase[T]) Val(v T) *SendCase[T] { s.v = v; return s }

func (s *SendCase[T]) cas() *Case {
	if s.c != nil {
		return s.c
	}
	ch, v := s.ch, s.v
	c := &Case{cs: state(chanPtrS(ch), cap(ch), ch), send: true, buf: cap(ch) > 0, val: v}
	c.length = func() int { return len(ch) }
	c.do = func() { ch <- v }
	s.c = c
	return c
}

type caser interface{ cas() *Case }

func (c *Case) ready(g *G) bool {
	s := c.cs
	if s == nil {
		return false
	}
	if s.closed {
		return true
	}
	if c.buf {
		if c.send {
			return c.length() < s.cap
		}
		if c.length() > 0 {
			return true
		}
	} else {
		q := s.sendq
		if c.send {
			q = s.recvq
		}
		for _, x := range q {
			if x.g != g && x.op.matched < 0 && (!c.strict || x.waits()) {
				return true
			}
		}
	}
	if !c.send && c.probe() {
		s.closed = true
		return true
	}
	return false
}

// waits tells if the operation may be waiting: it could not have gone on when it came.
func (x *waiter) waits() bool {
	for _, c := range x.op.cases {
		if c.ready(x.g) && c.there(x.g) {
			return false
		}
	}
	return true
}

// there tells if a ready case is ready for certain: it does not depend on a partner that may just be about
// to come to the channel.
func (c *Case) there(g *G) bool {
	s := c.cs
	if s.closed || c.buf {
		return true
	}
	q := s.sendq
	if c.send {
		q = s.recvq
	}
	for _, x := range q {
		if x.g != g && x.op.matched < 0 && x.op.queued {
			return true
		}
	}
	return false
}

// put and get do the bookkeeping of a message entering and leaving the buffer.
func (s *chanState) put(g *G) {
	s.nsend++
	if s.nsend > s.cap && len(s.recvs) > 0 {
		g.vc = join(g.vc, s.recvs[0].vc)
		s.recvs = s.recvs[1:]
	}
	g.h = mix(mix(g.h, s.h), 21)
	s.h = g.h
	s.sends = append(s.sends, msgVC{append([]uint32(nil), g.vc...), g.h})
	g.tick()
}

func (s *chanState) get(g *G) {
	m := s.sends
	if len(m) > 0 {
		g.vc = join(g.vc, m[0].vc)
		g.h = mix(g.h, m[0].h)
		s.sends = m[1:]
	}
	g.h = mix(mix(g.h, s.h), 22)
	s.h = g.h
	s.recvs = append(s.recvs, msgVC{append([]uint32(nil), g.vc...), g.h})
	g.tick()
}

// first is the longest waiting operation of another goroutine.
func first(q []*waiter, g *G) *waiter {
	var best *waiter
	for _, x := range q {
		if x.g != g && x.op.matched < 0 && (best == nil || !best.op.queued && x.op.queued) {
			best = x
		}
	}
	return best
}

// atRest is called when nothing can run: what waits is really waiting.
func (w *World) atRest() {
	for _, x := range w.gs {
		if x.op != nil && !x.op.queued && x.op.matched < 0 && !x.ready() {
			x.op.queued = true
			x.h = mix(x.h, 28)
		}
	}
}

func (c *Case) exec(g *G, w *World) {
	s := c.cs
	w.effects()
	switch {
	case s.closed && c.send:
		panic(plainError("send on closed channel"))
	case c.buf && c.send:
		s.put(g)
		c.do()
	case c.buf && c.length() > 0:
		full := c.length() == s.cap
		s.get(g)
		c.do()
		if full {
			// the sender that has waited longest takes the place; one that was never at rest
			// while it waited may as well not have come to the channel yet
			if x := first(s.sendq, g); x != nil && x.op.queued {
				s.put(x.g)
				x.do()
				x.op.matched = x.idx
				x.op.vc, x.op.h = x.g.vc, x.g.h
			}
		}
	case s.closed:
		g.vc = join(g.vc, s.closeVC.vc)
		g.h = mix(mix(g.h, s.closeVC.h), 23)
		c.setRecv(nil, false)
	default:
		q := s.sendq
		if c.send {
			q = s.recvq
		}
		for _, x := range q {
			if x.g != g && x.op.matched < 0 && (!c.strict || x.waits()) {
				x.op.matched = x.idx
				x.op.vc = append([]uint32(nil), g.vc...)
				x.op.h = g.h
				if c.send {
					x.setRecv(c.val, true)
				} else {
					c.setRecv(x.val, true)
				}
				g.vc = join(g.vc, x.g.vc)
				g.h = mix(mix(g.h, x.g.h), 24)
				g.tick()
				return
			}
		}
		panic("zzvs: no rendezvous partner")
	}
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

func remove(q []*waiter, op *selOp) []*waiter {
	out := q[:0:0]
	for _, x := range q {
		if x.op != op {
			out = append(out, x)
		}
	}
	return out
}

func doSelect(what string, hasDefault bool, cs []caser) int {
	g := me()
	if g == nil {
		panic("zzvs: channel operation outside an execution")
	}
	w := W
	cases := make([]*Case, len(cs))
	for i, c := range cs {
		cases[i] = c.cas()
	}
	op := &selOp{matched: -1, cases: cases}
	reg := false
	if !hasDefault {
		for i, c := range cases {
			if c.cs != nil {
				reg = true
				x := &waiter{g: g, op: op, idx: i, val: c.val, do: c.do, setRecv: c.setRecv}
				if c.send {
					c.cs.nsendq++
					g.h = mix(g.h, c.cs.nsendq)
					c.cs.sendq = append(c.cs.sendq, x)
				} else {
					c.cs.nrecvq++
					g.h = mix(g.h, c.cs.nrecvq)
					c.cs.recvq = append(c.cs.recvq, x)
				}
			}
		}
	}
	g.op = op
	w.point(g, what, func() bool {
		if hasDefault || op.matched >= 0 {
			return true
		}
		for _, c := range cases {
			if c.ready(g) {
				return true
			}
		}
		return false
	})
	g.op = nil
	if reg {
		for _, c := range cases {
			if c.cs != nil {
				c.cs.sendq = remove(c.cs.sendq, op)
				c.cs.recvq = remove(c.cs.recvq, op)
			}
		}
	}
	if op.matched >= 0 {
		g.vc = join(g.vc, op.vc)
		g.h = mix(mix(g.h, op.h), 25)
		w.effects()
		w.trace("%s done (case %d)", what, op.matched)
		return op.matched
	}
	var ready []int
	for i, c := range cases {
		c.strict = true
		if c.ready(g) {
			ready = append(ready, i)
		}
		if c.cs != nil {
			g.h = mix(g.h, c.cs.h)
		}
	}
	if len(ready) == 0 && !hasDefault {
		// it would wait, and those who can choose may choose it
		for i, c := range cases {
			c.strict = false
			if c.ready(g) {
				ready = append(ready, i)
			}
		}
	}
	if hasDefault && len(ready) > 0 {
		// a partner that was never at rest may as well not have come to the channel yet
		there := false
		for _, i := range ready {
			there = there || cases[i].there(g)
		}
		if !there && Choose(2) == 1 {
			ready = nil
		}
	}
	if len(ready) == 0 {
		w.trace("%s default", what)
		return -1
	}
	i := ready[0]
	if len(ready) > 1 {
		i = ready[Choose(len(ready))]
	}
	w.trace("%s case %d", what, i)
	cases[i].exec(g, w)
	return i
}

// Select performs a select and returns the index of the chosen case, -1 for default.
func Select(hasDefault bool, cs ...caser) int { return doSelect("select", hasDefault, cs) }

// S starts a send statement.
func S[T any](ch chan<- T) *SendCase[T] { return &SendCase[T]{ch: ch} }

// Send completes a send statement.
func (s *SendCase[T]) Send(v T) {
	s.v = v
	doSelect("send", false, []caser{s})
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	r := &RecvCase[T]{ch: ch}
	doSelect("recv", false, []caser{r})
	return r.V
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	r := &RecvCase[T]{ch: ch}
	doSelect("recv", false, []caser{r})
	return r.V, r.OK
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	g := soft()
	if g == nil {
		return
	}
	w := W
	if ch == nil {
		close(ch)
	}
	s := state(chanPtrS(ch), cap(ch), ch)
	w.point(g, "close", nil)
	s.closed = true
	close(ch)
	g.h = mix(mix(g.h, s.h), 26)
	s.h = g.h
	s.closeVC = msgVC{append([]uint32(nil), g.vc...), g.h}
	g.tick()
	w.effects()
	w.trace("close")
}

// ChanLen is len(ch).
func ChanLen[T any](ch <-chan T) int {
	g := me()
	if g != nil && ch != nil {
		W.point(g, "len(chan)", nil)
		s := state(chanPtr(ch), cap(ch), ch)
		g.h = mix(mix(g.h, s.h), 27)
	}
	return len(ch)
}

// ChanIt ranges over a channel.
type ChanIt[T any] struct{ ch <-chan T }

// RangeChan starts `for v := range ch`.
func RangeChan[T any](ch <-chan T) (*ChanIt[T], T) { var z T; return &ChanIt[T]{ch}, z }

// RangeChan1 starts `for range ch`.
func RangeChan1[T any](ch <-chan T) *ChanIt[T] { return &ChanIt[T]{ch} }

func (it *ChanIt[T]) Next(p *T) bool {
	v, ok := Recv2(it.ch)
	if ok {
		*p = v
	}
	return ok
}
func (it *ChanIt[T]) Next1() bool { _, ok := Recv2(it.ch); return ok }

// BlockForever is select{}.
func BlockForever() {
	g := me()
	W.point(g, "select{}", func() bool { return false })
}

var _ = fmt.Sprint
