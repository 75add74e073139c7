//go:build zzinject

package main

import (
	"bytes"
	"fmt"
	"net"

	"github.com/muguangyi/ferry/network"
	. "github.com/muguangyi/ferry/zzharness/hk"
	"github.com/muguangyi/ferry/zzvs"
)

// side is what one end of a connection does: sizes of its writes in order, the sizes of the buffers
// it reads with in turn, and whether it closes after its writes (else after the other side).
type side struct {
	writes []int
	reads  []int
	closes bool
	slow   bool // starts reading when everything else is at rest
}

type end struct {
	side
	name    string
	c       net.Conn
	wrote   []byte // what was written successfully
	werr    error
	got     []byte
	rerr    error
	written bool
	ended   bool
	tail    int // how much of it was read after the other side had closed
}

func pattern(name string, from, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte((from+i)*13+(from+i)/251) ^ name[0]
	}
	return b
}

func (e *end) run(dones *int, go_ *bool) {
	zzvs.Go(e.name+" writer", func() {
		for _, n := range e.writes {
			b := pattern(e.name, len(e.wrote), n)
			m, err := e.c.Write(b)
			if err != nil {
				e.werr = err
				break
			}
			if m != n {
				zzvs.Fail("write", "%s wrote %d of %d bytes and no error", e.name, m, n)
			}
			e.wrote = append(e.wrote, b...)
			for i := range b {
				b[i] = 0xee // the bytes belong to the writer again
			}
		}
		e.written = true
		zzvs.Event(e.name + " written")
		if e.closes {
			e.c.Close()
		}
		*dones++
	})
	zzvs.Go(e.name+" reader", func() {
		if e.slow {
			zzvs.Await("slow", func() bool { return *go_ })
		}
		zero := 0
		for i := 0; ; i++ {
			b := make([]byte, e.reads[i%len(e.reads)])
			n, err := e.c.Read(b)
			e.got = append(e.got, b[:n]...)
			if err != nil {
				e.rerr = err
				break
			}
			if n == 0 {
				if zero++; zero > 20 {
					zzvs.Fail("read", "%s reads nothing again and again", e.name)
					break
				}
			}
		}
		e.ended = true
		zzvs.Event(e.name + " reader over")
		*dones++
	})
}

// every connection: a dialer's side and an accepter's side
func streams(d, a side, n int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		var ds, as []*end
		dones, conns, slow := 0, 0, false
		body := func() {
			network.Mock("tcp")
			nt, err := network.ZZNet()
			if err != nil {
				zzvs.Fail("net", "%v", err)
				return
			}
			l, err := nt.Listen("tcp", "10.0.0.1:7000")
			if err != nil {
				zzvs.Fail("listen", "%v", err)
				return
			}
			for i := 0; i < n; i++ {
				i := i
				zzvs.Go("dialer", func() {
					nt, _ := network.ZZNet()
					c, err := nt.Dial("tcp", "10.0.0.1:7000")
					if err != nil {
						zzvs.Fail("dial", "%v", err)
						return
					}
					e := &end{side: d, name: fmt.Sprintf("%cdialer", 'A'+i), c: c}
					ds = append(ds, e)
					conns++
					e.run(&dones, &slow)
				})
			}
			for i := 0; i < n; i++ {
				c, err := l.Accept()
				if err != nil {
					zzvs.Fail("accept", "%v", err)
					return
				}
				e := &end{side: a, name: fmt.Sprintf("%caccepter", 'a'+i), c: c}
				as = append(as, e)
				e.run(&dones, &slow)
			}
			// when both sides have written everything, and read all they will, the rest is closed
			zzvs.Settle()
			slow = true
			zzvs.Settle()
			for _, e := range append(append([]*end{}, ds...), as...) {
				e.c.Close()
			}
			l.Close()
		}
		return body, func(w *zzvs.World) {
			if len(ds) != n || len(as) != n {
				zzvs.Fail("connections", "%d dialed, %d accepted of %d", len(ds), len(as), n)
				return
			}
			if dones != 4*n {
				zzvs.Fail("blocked", "%d of %d readers and writers finished", dones, 4*n)
			}
			local := map[string]bool{}
			for _, x := range ds {
				at := x.c.LocalAddr().String()
				if local[at] {
					zzvs.Fail("addresses", "two connections have the local address %s", at)
				}
				local[at] = true
				var y *end
				for _, z := range as {
					if z.c.RemoteAddr().String() == at {
						y = z
					}
				}
				if y == nil {
					zzvs.Fail("addresses", "nobody accepted the connection of %s", at)
					continue
				}
				if l := y.c.LocalAddr().String(); l != x.c.RemoteAddr().String() {
					zzvs.Fail("addresses", "%s is connected to %s, which calls itself %s", at, x.c.RemoteAddr(), l)
				}
				check(x, y)
				check(y, x)
				w.Outcome += fmt.Sprintf("%d/%d ", len(x.got), len(y.got))
			}
		}
	}
}

// from's bytes as to has received them; they may be cut short only if a side was closed early
func check(from, to *end) {
	if !bytes.HasPrefix(pattern(from.name, 0, len(from.got)+len(to.got)+100000), to.got) {
		zzvs.Fail("stream", "%s received other bytes than %s wrote", to.name, from.name)
	}
	if len(to.got) > len(from.wrote) && from.werr == nil {
		zzvs.Fail("stream", "%s received %d bytes of %d", to.name, len(to.got), len(from.wrote))
	}
	if !to.closes && len(to.got) < len(from.wrote) {
		zzvs.Fail("stream", "%s received %d of the %d bytes that %s wrote", to.name, len(to.got), len(from.wrote), from.name)
	}
	if !to.closes && from.werr != nil {
		zzvs.Fail("stream", "%s could not write: %v", from.name, from.werr)
	}
	if to.ended && to.rerr == nil {
		zzvs.Fail("stream", "the end of the connection is no error for %s", to.name)
	}
}

func direct(mk func(name string, q, t int, m Maker, cfg ...func(w *zzvs.World))) {
	one := []int{1}
	mk("direct-bytes", 3, 4, streams(side{writes: []int{1, 1, 1}, reads: one}, side{reads: one}, 1))
	mk("direct-both-ways", 2, 3, streams(side{writes: []int{2, 1, 3}, reads: []int{2}}, side{writes: []int{1, 4}, reads: []int{3}}, 1))
	mk("direct-dialer-closes", 3, 4, streams(side{writes: []int{2, 3}, reads: one, closes: true}, side{reads: []int{1, 2}}, 1))
	mk("direct-accepter-closes", 3, 4, streams(side{reads: []int{1, 2}}, side{writes: []int{2, 3}, reads: one, closes: true}, 1))
	mk("direct-closes-unread", 3, 3, streams(side{writes: []int{5}, reads: one, closes: true}, side{reads: []int{1, 2}, slow: true}, 1))
	mk("direct-accepter-closes-unread", 3, 3, streams(side{reads: []int{2}, slow: true}, side{writes: []int{5}, reads: one, closes: true}, 1))
	mk("direct-closes-unread-2", 2, 3, streams(side{writes: []int{5, 1, 7}, reads: one, closes: true}, side{reads: []int{4}, slow: true}, 1))
	mk("direct-both-close", 3, 3, streams(side{writes: []int{1}, reads: one, closes: true}, side{writes: []int{2}, reads: one, closes: true}, 1))
	mk("direct-closes-at-once", 3, 4, streams(side{reads: one, closes: true}, side{writes: []int{1, 1}, reads: one}, 1))
	mk("direct-empty-writes", 3, 4, streams(side{writes: []int{0, 1, 0, 0, 2, 0}, reads: []int{2}}, side{writes: []int{0}, reads: one}, 1))
	mk("direct-empty-write-closes", 2, 3, streams(side{writes: []int{1, 0}, reads: []int{2}, closes: true}, side{reads: one}, 1))
	mk("direct-two", 2, 3, streams(side{writes: []int{2, 1}, reads: []int{2}}, side{writes: []int{3}, reads: []int{2}}, 2))
	mk("direct-three", 1, 1, streams(side{writes: []int{1}, reads: []int{2}}, side{writes: []int{1}, reads: []int{2}}, 3))
	still := func(w *zzvs.World) { w.Preempt = false }
	// every pair of sizes
	sizes := []int{1, 2, 3, 4, 5, 7, 8, 1023, 1024, 1025, 4095, 4096, 4097, 10239, 10240, 10241, 65537}
	for _, n := range sizes {
		for _, m := range sizes {
			if n > 100*m && m < 1000 {
				continue
			}
			mk(fmt.Sprintf("direct-%d-by-%d", n, m), 1, 2, streams(side{writes: []int{n, 1, n}, reads: []int{m}}, side{writes: []int{m, n}, reads: []int{n}}, 1), still)
		}
	}
}
