// C22: hubs in one process, or one network, and the docks registered with them do not mix.
package main

import (
	"fmt"
	"time"

	"github.com/muguangyi/ferry"
	. "github.com/muguangyi/ferry/zzharness/hk"
	"github.com/muguangyi/ferry/zzvs"
)

// sys is a hub with its docks: callers A0, A1... and providers of B, oldest first.
type sys struct {
	k     int
	hub   string
	port  int
	as    []*Feat
	bs    []*Feat
	calls *Calls
}

func newSys(k int) *sys {
	return &sys{k: k, hub: fmt.Sprintf("10.%d.0.1", k+1), port: HubPort, calls: &Calls{}}
}

func (s *sys) addr() string          { return fmt.Sprintf("%s:%d", s.hub, s.port) }
func (s *sys) host(i int) string     { return fmt.Sprintf("10.%d.1.%d", s.k+1, i+1) }
func (s *sys) provider(i int) string { return s.host(100 + i) }

func (s *sys) up(black ...int) { HubAt(s.hub, s.port, black...) }

// caller starts a dock with a feature A that calls B from its start hook.
func (s *sys) caller(calls int) *Feat {
	n := len(s.as)
	f := &Feat{Id: fmt.Sprintf("A%d", s.k)}
	s.as = append(s.as, f)
	f.OnUp = func(sl ferry.ISlot) {
		for i := 0; i < calls; i++ {
			i := i
			zzvs.Go("call", func() { s.calls.Echo(sl, f.Id, "B", 100*n+i, fmt.Sprint("of", s.k)) })
		}
	}
	DockTo(s.addr(), s.host(n), fmt.Sprint("a", n), ferry.Carry(fmt.Sprint("A", n), f, true))
	return f
}

func (s *sys) serve() *Feat {
	n := len(s.bs)
	f := &Feat{Id: fmt.Sprintf("B%d.%d", s.k, n)}
	s.bs = append(s.bs, f)
	DockTo(s.addr(), s.provider(n), fmt.Sprint("b", n), ferry.Carry("B", f, true))
	return f
}

// check: every call was executed once, by a provider of its own system (the one given, or any)
func check(w *zzvs.World, last bool, want int, all ...*sys) {
	made := 0
	for _, s := range all {
		var ids []string
		for i, b := range s.bs {
			if !last || i == len(s.bs)-1 {
				ids = append(ids, b.Id)
			}
		}
		made += len(s.calls.L)
		for _, x := range s.calls.L {
			if g := x.Good(ids...); g != "" {
				zzvs.Fail("outcome", "system %d: %s: %s", s.k, x.Desc(), g)
			}
		}
		for _, b := range s.bs {
			for _, e := range b.Execs {
				n := 0
				for _, x := range s.calls.L {
					if x.Exec() == e {
						n++
					}
				}
				if b.Count(e) != 1 || n != 1 {
					zzvs.Fail("executions", "%s ran %s %d times, its system called that %d times", b.Id, e, b.Count(e), n)
				}
			}
		}
		w.Outcome += s.calls.Outcome(s.bs...) + "/"
	}
	if made != want {
		zzvs.Fail("calls made", "%d calls were made instead of %d", made, want)
	}
	NoRefused(w)
}

// n systems start at once, each with callers and a provider of the same name
func atOnce(n, calls int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		var all []*sys
		body := func() {
			for k := 0; k < n; k++ {
				s := newSys(k)
				all = append(all, s)
				s.up()
			}
			for _, s := range all {
				s.caller(calls)
				s.serve()
			}
		}
		return body, func(w *zzvs.World) { check(w, true, n*calls, all...) }
	}
}

// two hubs on one host
func oneHost() Maker {
	return func() (func(), func(w *zzvs.World)) {
		p, q := newSys(0), newSys(1)
		body := func() {
			q.hub, q.port = p.hub, HubPort+1
			p.up(20001, 20003)
			q.up(20002)
			p.caller(1)
			q.caller(1)
			q.serve()
			p.serve()
		}
		return body, func(w *zzvs.World) {
			check(w, true, 2, p, q)
			for _, l := range w.Net.Listens {
				bad := map[string][]int{"10.1.": {20001, 20003}, "10.2.": {20002}}[l.Host[:5]]
				for _, b := range bad {
					if l.Port == b {
						zzvs.Fail("black list", "a dock on %s listens on %d", l.Host, l.Port)
					}
				}
				if l.Port > 20000 && l.Port != map[string]int{"10.1.": 20002, "10.2.": 20001}[l.Host[:5]] {
					zzvs.Fail("port", "the only dock on %s listens on %d", l.Host, l.Port)
				}
			}
		}
	}
}

// sameHosts: docks of both hubs on the same hosts; the black lists leave each hub ports the other one
// does not assign
func sameHosts(settle bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		p, q := newSys(0), newSys(1)
		body := func() {
			var even, odd []int
			for i := 20001; i < 20020; i += 2 {
				odd, even = append(odd, i), append(even, i+1)
			}
			p.up(even...)
			q.up(odd...)
			for i := 0; i < 2; i++ {
				for j := 0; j < 2; j++ {
					for _, s := range []*sys{p, q} {
						if j == 1 {
							s = map[*sys]*sys{p: q, q: p}[s]
						}
						f := &Feat{Id: fmt.Sprintf("B%d.%d", s.k, len(s.bs))}
						s.bs = append(s.bs, f)
						cs, as := []ferry.ISlot{ferry.Carry("B", f, true)}, s
						if i == 1 && j == 1 {
							a := &Feat{Id: fmt.Sprintf("A%d", s.k)}
							a.OnUp = func(sl ferry.ISlot) { as.calls.Echo(sl, a.Id, "C", 1, fmt.Sprint("of", as.k)) }
							cs = append(cs, ferry.Carry("A", a, true))
						}
						if i == 0 && j == 0 {
							cs = append(cs, ferry.Carry("C", f, true))
						}
						DockTo(s.addr(), Host(i), "d", cs...)
						if settle {
							zzvs.Settle()
						}
					}
				}
			}
		}
		return body, func(w *zzvs.World) {
			for _, s := range []*sys{p, q} {
				if len(s.calls.L) != 1 || s.calls.L[0].Good(s.bs[0].Id) != "" {
					zzvs.Fail("outcome", "system %d: %s", s.k, s.calls.Outcome(s.bs...))
				}
			}
			got := map[string]bool{}
			for _, l := range w.Net.Listens {
				if l.Port > 20000 {
					got[fmt.Sprint(l.Host, " ", l.Port)] = true
				}
			}
			for i := 0; i < 2; i++ {
				for port := 20001; port < 20005; port++ {
					if !got[fmt.Sprint(Host(i), " ", port)] {
						zzvs.Fail("port", "no dock of host %s listens on %d: %v", Host(i), port, got)
					}
				}
			}
		}
	}
}

// a feature is missing in one system while another one has it: its callers wait for their own
func missing(newer bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		p, q := newSys(0), newSys(1)
		body := func() {
			p.up()
			q.up()
			p.serve()
			p.caller(1)
			q.caller(2)
			zzvs.Settle()
			for _, x := range q.calls.L {
				if x.Returned {
					zzvs.Fail("outcome", "%s returned %v %v before its system had the feature", x.Desc(), x.Res, x.Err)
				}
			}
			if newer {
				p.serve()
				zzvs.Settle()
			}
			q.serve()
		}
		return body, func(w *zzvs.World) { check(w, false, 3, p, q) }
	}
}

// one system has several providers, the newest serves; the other system's come in between
func between() Maker {
	return func() (func(), func(w *zzvs.World)) {
		p, q := newSys(0), newSys(1)
		body := func() {
			p.up()
			q.up()
			for i := 0; i < 2; i++ {
				p.serve()
				zzvs.Settle()
				q.serve()
				zzvs.Settle()
			}
			p.caller(1)
			q.caller(1)
		}
		return body, func(w *zzvs.World) { check(w, true, 2, p, q) }
	}
}

// a host of one system goes away at any moment: the other one does not notice
func loses(what string) Maker {
	return func() (func(), func(w *zzvs.World)) {
		p, q := newSys(0), newSys(1)
		body := func() {
			p.up()
			q.up()
			p.serve()
			q.serve()
			zzvs.Settle()
			zzvs.Go("down", func() {
				switch what {
				case "hub":
					zzvs.Down(p.hub)
				case "provider":
					zzvs.Down(p.provider(0))
				}
			})
			if what == "provider" {
				zzvs.Go("other", func() { p.caller(0) })
			}
			q.caller(2)
			zzvs.Settle()
			q.calls.Echo(q.as[0].Slot, q.as[0].Id, "B", 50, fmt.Sprint("of", q.k))
		}
		return body, func(w *zzvs.World) { check(w, true, 3, q) }
	}
}

// a timeout set for a feature holds for it and not for the one of the same name elsewhere
func timeouts() Maker {
	return func() (func(), func(w *zzvs.World)) {
		p, q := newSys(0), newSys(1)
		body := func() {
			p.up()
			q.up()
			for _, s := range []*sys{p, q} {
				s := s
				f := s.serve()
				f.EchoWork = func(int) { zzvs.Sleep(500 * time.Millisecond) }
				if s == p {
					f.OnUp = func(sl ferry.ISlot) { sl.SetTimeout("Echo", 0.1) }
				}
			}
			zzvs.Settle()
			p.caller(1)
			q.caller(1)
		}
		return body, func(w *zzvs.World) {
			x, y := p.calls.L[0], q.calls.L[0]
			if !x.Returned || x.Err == nil || x.At-x.Began < int64(99*time.Millisecond) || x.At-x.Began > int64(101*time.Millisecond) {
				zzvs.Fail("timeout", "%s: %v %v after %d ms", x.Desc(), x.Res, x.Err, (x.At-x.Began)/1e6)
			}
			if g := y.Good(q.bs[0].Id); g != "" {
				zzvs.Fail("timeout", "%s: %s", y.Desc(), g)
			}
		}
	}
}

// private features of the same name, and slots visiting registered ones
func private() Maker {
	return func() (func(), func(w *zzvs.World)) {
		p, q := newSys(0), newSys(1)
		cs := []*Calls{{}, {}}
		body := func() {
			p.up()
			q.up()
			for i, s := range []*sys{p, q} {
				i, s := i, s
				f := &Feat{Id: fmt.Sprintf("P%d", s.k)}
				s.as = append(s.as, f)
				u := &Feat{Id: fmt.Sprintf("U%d", s.k), OnUp: func(sl ferry.ISlot) { cs[i].Echo(sl, "U", "P", i, "x") }}
				DockTo(s.addr(), s.host(0), "d", ferry.Carry("P", f, i == 0), ferry.Carry("U", u, false))
			}
		}
		return body, func(w *zzvs.World) {
			for i, s := range []*sys{p, q} {
				if len(cs[i].L) != 1 || cs[i].L[0].Good(s.as[0].Id) != "" || len(s.as[0].Execs) != 1 {
					zzvs.Fail("outcome", "system %d: %v, %v", i, cs[i].Outcome(), s.as[0].Execs)
				}
			}
		}
	}
}

func main() {
	var scs []*zzvs.Scenario
	mk := func(name string, q, th int, m Maker) {
		scs = append(scs, &zzvs.Scenario{Name: name, Quick: q, Thorough: th, New: m})
	}
	mk("two", 1, 2, atOnce(2, 1))
	mk("two-busy", 1, 1, atOnce(2, 3))
	mk("three", 1, 1, atOnce(3, 1))
	mk("ten", 0, 0, atOnce(10, 5))
	mk("one-host", 1, 2, oneHost())
	mk("same-hosts", 0, 1, sameHosts(true))
	mk("same-hosts-at-once", 1, 1, sameHosts(false))
	mk("missing", 1, 2, missing(false))
	mk("missing-newer", 1, 2, missing(true))
	mk("between", 1, 2, between())
	mk("loses-hub", 1, 2, loses("hub"))
	mk("loses-provider", 1, 2, loses("provider"))
	mk("timeouts", 1, 2, timeouts())
	mk("private", 2, 3, private())
	zzvs.Main("C22", scs, []string{"docks of different hubs run on different hosts, as both hubs assign ports from 20001 on"})
}
