// C13: every carried feature is started exactly once and destroyed exactly once; Close is safe at
// any moment.
package main

import (
	"fmt"
	"strings"

	"github.com/muguangyi/ferry"
	. "github.com/muguangyi/ferry/zzharness/hk"
	"github.com/muguangyi/ferry/zzvs"
)

type system struct {
	hosts []string
	docks [][]*Feat
	slots map[string]ferry.ISlot
	priv  map[string]bool
}

// parse reads docks separated by "|", features by ","; "-" makes a feature private, "" is a dock
// without features.
func parse(docks string) *system {
	s := &system{slots: map[string]ferry.ISlot{}, priv: map[string]bool{}}
	for i, d := range strings.Split(docks, "|") {
		s.hosts = append(s.hosts, Host(i))
		var fs []*Feat
		for _, n := range strings.Split(d, ",") {
			if n != "" {
				f := &Feat{Id: strings.TrimPrefix(n, "-")}
				s.priv[f.Id] = f.Id != n
				fs = append(fs, f)
			}
		}
		s.docks = append(s.docks, fs)
	}
	return s
}

func (s *system) feats() []*Feat {
	var out []*Feat
	for _, fs := range s.docks {
		out = append(out, fs...)
	}
	return out
}

// start starts the docks (each on its host); hooks check what has to hold when they run.
func (s *system) start(hooks bool) {
	for i, fs := range s.docks {
		host := s.hosts[i]
		var sl []ferry.ISlot
		for _, f := range fs {
			f := f
			s.slots[f.Id] = ferry.Carry(f.Id, f, !s.priv[f.Id])
			sl = append(sl, s.slots[f.Id])
			up := f.OnUp
			f.OnUp = func(x ferry.ISlot) {
				if x != s.slots[f.Id] {
					zzvs.Fail("slot", "%s was started with another slot than its own", f.Id)
				}
				if hooks && !ListeningDock(host) {
					zzvs.Fail("too early", "%s was started before its dock could accept connections", f.Id)
				}
				if up != nil {
					up(x)
				}
			}
			f.OnDown = func(x ferry.ISlot) {
				if x != s.slots[f.Id] {
					zzvs.Fail("slot", "%s was destroyed with another slot than its own", f.Id)
				}
			}
		}
		Dock(host, fmt.Sprint("d", i), sl...)
	}
}

func (s *system) counts(started, stopped int) {
	for _, f := range s.feats() {
		if started >= 0 && f.Started != started {
			zzvs.Fail("started", "%s was started %d times instead of %d", f.Id, f.Started, started)
		}
		if f.Started > 1 {
			zzvs.Fail("started", "%s was started %d times", f.Id, f.Started)
		}
		if stopped >= 0 && f.Stopped != stopped {
			zzvs.Fail("destroyed", "%s was destroyed %d times instead of %d", f.Id, f.Stopped, stopped)
		}
	}
}

// closed checks that nothing is left open.
func (s *system) closed(w *zzvs.World, hub string) {
	for _, h := range append([]string{hub}, s.hosts...) {
		if l := w.Net.OpenListeners(h); len(l) > 0 {
			zzvs.Fail("left open", "after Close %s still listens on %v", h, l)
		}
		if c := w.Net.OpenConns(h); len(c) > 0 {
			zzvs.Fail("left open", "after Close connections are still open: %v", c)
		}
	}
}

// start-up, rest, Close
func whole(docks string, calls ...string) Maker {
	return func() (func(), func(w *zzvs.World)) {
		s := parse(docks)
		cs := &Calls{}
		body := func() {
			for i, c := range calls {
				i, p := i, strings.Split(c, ">")
				for _, f := range s.feats() {
					if f.Id == p[0] {
						up := f.OnUp
						f.OnUp = func(x ferry.ISlot) {
							if up != nil {
								up(x)
							}
							zzvs.Go("call", func() { cs.Echo(x, p[0], p[1], i, "x") })
						}
					}
				}
			}
			Hub()
			s.start(true)
			zzvs.Settle()
			s.counts(1, 0)
			cs.Made(len(calls))
			for _, x := range cs.L {
				if g := x.Good(x.Name); g != "" {
					zzvs.Fail("outcome", "%s: %s", x.Desc(), g)
				}
			}
			ferry.Close()
			s.counts(1, 1)
			zzvs.Settle()
			s.closed(zzvs.W, HubHost)
			ferry.Close()
			s.counts(1, 1)
		}
		return body, func(w *zzvs.World) { s.counts(1, 1); s.closed(w, HubHost) }
	}
}

// Close at any moment after the docks reached the hub (the one before that, a dock has nobody to
// register with and gives up); what is started later is closed by the next Close
func during(docks string, calls ...string) Maker {
	return func() (func(), func(w *zzvs.World)) {
		s := parse(docks)
		cs := &Calls{}
		body := func() {
			for i, c := range calls {
				i, p := i, strings.Split(c, ">")
				for _, f := range s.feats() {
					if f.Id == p[0] {
						f.OnUp = func(x ferry.ISlot) {
							cs.Echo(x, p[0], p[1], i, "x")
							cs.Note(x, p[0], p[1], 10+i)
						}
					}
				}
			}
			Hub()
			s.start(false)
			zzvs.Await("docks dialed", func() bool {
				n := 0
				for _, c := range zzvs.W.Net.Conns {
					if c.RemoteHost == HubHost {
						n++
					}
				}
				return n >= len(s.docks)
			})
			ferry.Close()
			s.counts(-1, 1)
		}
		return body, func(w *zzvs.World) {
			s.counts(-1, 1)
			s.closed(w, HubHost)
			w.Outcome = outcome(s, cs)
		}
	}
}

func outcome(s *system, cs *Calls) string {
	o := ""
	for _, f := range s.feats() {
		o += fmt.Sprintf("%s started %d destroyed %d; ", f.Id, f.Started, f.Stopped)
	}
	return o + cs.Outcome(s.feats()...)
}

// Close while calls are made, lookups are under way and connections are set up between docks that
// are all at rest otherwise
func traffic(docks string, calls ...string) Maker {
	return func() (func(), func(w *zzvs.World)) {
		s := parse(docks)
		cs := &Calls{}
		body := func() {
			Hub()
			s.start(true)
			zzvs.Settle()
			for i, c := range calls {
				i, p := i, strings.Split(c, ">")
				zzvs.Go("call", func() {
					cs.Echo(s.slots[p[0]], p[0], p[1], i, "x")
					cs.Note(s.slots[p[0]], p[0], p[1], 10+i)
				})
			}
			zzvs.Go("closer", func() {
				ferry.Close()
				s.counts(1, 1)
			})
		}
		return body, func(w *zzvs.World) {
			s.counts(1, 1)
			s.closed(w, HubHost)
			for _, x := range cs.L {
				if x.Returned && x.Err == nil {
					if g := x.Good(x.Name); g != "" {
						zzvs.Fail("outcome", "%s: %s", x.Desc(), g)
					}
				}
			}
			w.Outcome = outcome(s, cs)
		}
	}
}

// Close overlaps the very start of hubs and docks (the docks dial a hub outside of the process, so
// that they always find one): what the first Close misses is closed by the second, made at rest
func starting(hub bool, docks string) Maker {
	return func() (func(), func(w *zzvs.World)) {
		s := parse(docks)
		const other = "10.0.0.9"
		body := func() {
			if docks != "" {
				zzvs.SetHost(other)
				l, err := zzvs.NetListen("tcp", fmt.Sprintf("%s:%d", other, HubPort))
				if err != nil {
					panic(err)
				}
				zzvs.Go("outside", func() {
					for {
						c, err := l.Accept()
						if err != nil {
							return
						}
						zzvs.Go("reader", func() {
							b := make([]byte, 512)
							for {
								if _, err := c.Read(b); err != nil {
									c.Close()
									return
								}
							}
						})
					}
				})
			}
			if hub {
				zzvs.Go("hub", func() {
					zzvs.SetHost(HubHost)
					ferry.Serve(HubAddr)
				})
			}
			if docks != "" {
				for i, fs := range s.docks {
					var sl []ferry.ISlot
					for _, f := range fs {
						s.slots[f.Id] = ferry.Carry(f.Id, f, true)
						sl = append(sl, s.slots[f.Id])
					}
					DockTo(fmt.Sprintf("%s:%d", other, HubPort), s.hosts[i], fmt.Sprint("d", i), sl...)
				}
			}
			zzvs.Go("closer", ferry.Close)
			zzvs.Settle()
			ferry.Close()
			s.counts(0, -1)
		}
		return body, func(w *zzvs.World) {
			s.counts(0, 1)
			s.closed(w, HubHost)
		}
	}
}

// two goroutines call Close
func twice(docks string) Maker {
	return func() (func(), func(w *zzvs.World)) {
		s := parse(docks)
		body := func() {
			Hub()
			s.start(true)
			zzvs.Settle()
			zzvs.Go("close1", ferry.Close)
			zzvs.Go("close2", ferry.Close)
		}
		return body, func(w *zzvs.World) { s.counts(1, 1); s.closed(w, HubHost) }
	}
}

// after Close everything can be started again, at the same address or elsewhere, and is not
// touched by what was closed
func again(same, rush bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		s1, s2 := parse("A|B"), parse("A|B")
		cs := &Calls{}
		body := func() {
			Hub()
			s1.start(true)
			zzvs.Settle()
			cs.Echo(s1.slots["A"], "A", "B", 1, "x")
			ferry.Close()
			if !rush {
				zzvs.Settle()
			}
			host := HubHost
			if !same {
				host = "10.0.0.2"
				s2.hosts = []string{Host(5), Host(6)}
			}
			HubAt(host, HubPort)
			for _, f := range s2.feats() {
				f.Id += ""
			}
			addr := fmt.Sprintf("%s:%d", host, HubPort)
			for i, fs := range s2.docks {
				var sl []ferry.ISlot
				for _, f := range fs {
					s2.slots[f.Id] = ferry.Carry(f.Id, f, true)
					sl = append(sl, s2.slots[f.Id])
				}
				DockTo(addr, s2.hosts[i], fmt.Sprint("e", i), sl...)
			}
			zzvs.Await("started again", func() bool { return s2.docks[0][0].Started > 0 && s2.docks[1][0].Started > 0 })
			zzvs.Settle()
			cs.Echo(s2.slots["A"], "A", "B", 2, "y")
			s1.counts(1, 1)
			s2.counts(1, 0)
			if len(s2.docks[1][0].Execs) != 1 {
				zzvs.Fail("outcome", "the call after the new start executed %v", s2.docks[1][0].Execs)
			}
			ferry.Close()
			s1.counts(1, 1)
			s2.counts(1, 1)
			zzvs.Settle()
			s2.closed(zzvs.W, host)
			s1.closed(zzvs.W, HubHost)
		}
		return body, func(w *zzvs.World) {
			cs.Made(2)
			for _, x := range cs.L {
				if g := x.Good("B"); g != "" {
					zzvs.Fail("outcome", "%s: %s", x.Desc(), g)
				}
			}
		}
	}
}

// several hubs, each with its docks, in one process
func hubs() Maker {
	return func() (func(), func(w *zzvs.World)) {
		s1, s2 := parse("A|B"), parse("C")
		s2.hosts = []string{Host(7)}
		body := func() {
			Hub()
			HubAt("10.0.0.2", 9001)
			s1.start(true)
			f := s2.docks[0][0]
			s2.slots["C"] = ferry.Carry("C", f, true)
			DockTo("10.0.0.2:9001", s2.hosts[0], "c", s2.slots["C"])
			zzvs.Settle()
			s1.counts(1, 0)
			s2.counts(1, 0)
			ferry.Close()
		}
		return body, func(w *zzvs.World) {
			s1.counts(1, 1)
			s2.counts(1, 1)
			s1.closed(w, HubHost)
			s2.closed(w, "10.0.0.2")
		}
	}
}

// hooks that call, visit and set timeouts, and a hook that takes its time
func busyHooks() Maker {
	return func() (func(), func(w *zzvs.World)) {
		s := parse("A,C|B")
		cs := &Calls{}
		body := func() {
			s.docks[0][0].OnUp = func(x ferry.ISlot) {
				x.SetTimeout("Echo", 2)
				x.Visit("nothing")
				cs.Echo(x, "A", "B", 1, "x")
				cs.Echo(x, "A", "C", 2, "x")
			}
			s.docks[1][0].OnUp = func(x ferry.ISlot) { zzvs.Sleep(5e9); cs.Echo(x, "B", "C", 3, "x") }
			Hub()
			s.start(true)
			zzvs.Sleep(6e9)
			s.counts(1, 0)
			cs.Made(3)
			ferry.Close()
		}
		return body, func(w *zzvs.World) {
			s.counts(1, 1)
			s.closed(w, HubHost)
			for _, x := range cs.L {
				if g := x.Good(x.Name); g != "" {
					zzvs.Fail("outcome", "%s: %s", x.Desc(), g)
				}
			}
		}
	}
}

// destroy hooks that call, visit and set timeouts: features of their own dock, and of another one
// that is closed later
func farewell(before bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		s := parse("B,D|A,C")
		cs := &Calls{}
		n := 0
		body := func() {
			Hub()
			for i, fs := range s.docks {
				var sl []ferry.ISlot
				for _, f := range fs {
					f := f
					s.slots[f.Id] = ferry.Carry(f.Id, f, true)
					sl = append(sl, s.slots[f.Id])
					f.OnDown = func(x ferry.ISlot) {
						if x != s.slots[f.Id] {
							zzvs.Fail("slot", "%s was destroyed with another slot than its own", f.Id)
						}
						x.SetTimeout("Echo", 3)
						x.Visit("nothing")
						switch f.Id {
						case "A":
							cs.Echo(x, "A", "C", 1, "x")
							cs.Echo(x, "A", "B", 2, "x")
						case "B":
							cs.Echo(x, "B", "D", 3, "x")
						case "C":
							cs.Echo(x, "C", "A", 4, "x")
						case "D":
							cs.Echo(x, "D", "B", 5, "x")
						}
					}
				}
				Dock(s.hosts[i], fmt.Sprint("d", i), sl...)
				Up(s.hosts[i])
			}
			n = 5
			if before {
				n++
				cs.Echo(s.slots["A"], "A", "B", 0, "x")
			}
			ferry.Close()
			s.counts(1, 1)
		}
		return body, func(w *zzvs.World) {
			s.counts(1, 1)
			s.closed(w, HubHost)
			cs.Made(n)
			for _, x := range cs.L {
				if g := x.Good(x.Name); g != "" {
					zzvs.Fail("outcome", "%s: %s", x.Desc(), g)
				}
			}
		}
	}
}

// A's dock is closed while it looks for B. The dock of B goes first, another program listens in its
// place: nothing of A's dock may stay connected to it.
func replaced(early bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		s := parse("B|A")
		cs := &Calls{}
		body := func() {
			zzvs.W.Net.KeepWrites = true
			Hub()
			for i, fs := range s.docks {
				f := fs[0]
				s.slots[f.Id] = ferry.Carry(f.Id, f, true)
				Dock(s.hosts[i], fmt.Sprint("d", i), s.slots[f.Id])
				Up(s.hosts[i])
			}
			zzvs.Go("other program", func() {
				zzvs.SetHost(s.hosts[0])
				zzvs.Await("B's dock gone", func() bool { return !ListeningDock(s.hosts[0]) })
				l, err := zzvs.NetListen("tcp", "0.0.0.0:20001")
				if err != nil {
					zzvs.Fail("left open", "%v", err)
				}
				for {
					if _, err := l.Accept(); err != nil {
						return
					}
				}
			})
			answered := func() (n int) {
				for _, c := range zzvs.W.Net.Conns {
					for _, e := range []*zzvs.Conn{c, c.Peer()} {
						if e.Host == HubHost && e.RemoteHost == s.hosts[1] {
							n += len(e.Wrote)
						}
					}
				}
				return
			}
			before := answered()
			zzvs.Go("call", func() { cs.Echo(s.slots["A"], "A", "B", 1, "x") })
			if !early {
				zzvs.Await("answered", func() bool { return answered() > before })
			}
			ferry.Close()
			s.counts(1, 1)
		}
		return body, func(w *zzvs.World) {
			s.counts(1, 1)
			if c := w.Net.OpenConns(s.hosts[1]); len(c) > 0 {
				zzvs.Fail("left open", "after Close connections are still open: %v", c)
			}
		}
	}
}

// docks that all know each other are closed: while the destroy hook of one takes its time, those
// that have been closed before have nothing open any more, whoever has not been closed yet
func oneAfterAnother(docks string) Maker {
	return func() (func(), func(w *zzvs.World)) {
		s := parse(docks)
		cs := &Calls{}
		body := func() {
			gone := map[string]int64{}
			Hub()
			for i, fs := range s.docks {
				f, host := fs[0], s.hosts[i]
				s.slots[f.Id] = ferry.Carry(f.Id, f, true)
				f.OnDown = func(x ferry.ISlot) {
					zzvs.Sleep(10e9)
					for _, h := range s.hosts {
						if at, ok := gone[h]; !ok || zzvs.NowNS()-at < 10e9 {
							continue
						}
						if l := zzvs.W.Net.OpenListeners(h); len(l) > 0 {
							zzvs.Fail("left open", "a closed dock still listens on %v", l)
						}
						if c := zzvs.W.Net.OpenConns(h); len(c) > 0 {
							zzvs.Fail("left open", "connections of a closed dock are still open: %v", c)
						}
					}
					gone[host] = zzvs.NowNS()
				}
				Dock(host, fmt.Sprint("d", i), s.slots[f.Id])
				Up(host)
			}
			for _, a := range s.feats() {
				for _, b := range s.feats() {
					if a != b {
						cs.Echo(s.slots[a.Id], a.Id, b.Id, len(cs.L), "x")
					}
				}
			}
			ferry.Close()
			s.counts(1, 1)
		}
		return body, func(w *zzvs.World) {
			s.counts(1, 1)
			s.closed(w, HubHost)
			for _, x := range cs.L {
				if g := x.Good(x.Name); g != "" {
					zzvs.Fail("outcome", "%s: %s", x.Desc(), g)
				}
			}
		}
	}
}

// the hub answers late and other docks come and go: still only one start
func restartedPeers() Maker {
	return func() (func(), func(w *zzvs.World)) {
		a, b, b2 := &Feat{Id: "A"}, &Feat{Id: "B"}, &Feat{Id: "B2"}
		cs := &Calls{}
		body := func() {
			Hub()
			Dock(Host(0), "a", ferry.Carry("A", a, true))
			Dock(Host(1), "b", ferry.Carry("B", b, true))
			zzvs.Settle()
			cs.Echo(a.Slot, "A", "B", 1, "x")
			cs.Echo(b.Slot, "B", "A", 2, "x")
			zzvs.Settle()
			zzvs.Down(Host(1))
			zzvs.Settle()
			Dock(Host(2), "b2", ferry.Carry("B", b2, true))
			zzvs.Settle()
			cs.Echo(a.Slot, "A", "B", 3, "x")
			cs.Echo(b2.Slot, "B", "A", 4, "x")
		}
		return body, func(w *zzvs.World) {
			for _, f := range []*Feat{a, b, b2} {
				if f.Started != 1 || f.Stopped != 0 {
					zzvs.Fail("started", "%s was started %d and destroyed %d times", f.Id, f.Started, f.Stopped)
				}
			}
			cs.Made(4)
		}
	}
}

func main() {
	var scs []*zzvs.Scenario
	mk := func(name string, q, t int, m Maker) {
		scs = append(scs, &zzvs.Scenario{Name: name, Quick: q, Thorough: t, New: m})
	}
	mo := func(name string, q, t int, m Maker) {
		scs = append(scs, &zzvs.Scenario{Name: name, Quick: q, Thorough: t, New: m,
			Config: func(w *zzvs.World) { w.MapOrders = true; w.Preempt = false }})
	}
	mk("one", 2, 3, whole("A"))
	mk("no-features", 2, 3, whole("|A"))
	mk("two", 1, 2, whole("A|B", "A>B"))
	mk("five", 1, 1, whole("A,B,-C|D,-E|-F", "A>D", "F>A", "C>B"))
	mo("orders", 2, 3, whole("A,B,C,D|E,F"))
	var fs, ds []string
	for i := 0; i < 60; i++ {
		fs = append(fs, fmt.Sprint([]string{"", "-"}[i%2], "F", i))
	}
	for i := 0; i < 30; i++ {
		ds = append(ds, fmt.Sprint("D", i))
	}
	mk("sixty-features", 0, 0, whole(strings.Join(fs, ",")+"|A", "A>F0", "F59>A"))
	mk("thirty-docks", 0, 0, whole(strings.Join(ds, "|"), "D0>D29", "D15>D3"))
	mk("close-anytime-one", 2, 3, during("A"))
	mk("close-anytime-two", 2, 3, during("A|B"))
	mk("close-anytime-calls", 2, 3, during("A|B", "A>B", "B>A"))
	mk("close-anytime-features", 2, 3, during("A,B,C", "A>B", "C>A"))
	mk("close-anytime-three", 1, 2, during("A|B|C", "A>B", "B>C", "C>A"))
	mk("close-starting-hub", 3, 4, starting(true, ""))
	mk("close-starting-dock", 3, 4, starting(false, "A"))
	mk("close-starting-all", 2, 3, starting(true, "A|B"))
	mk("close-in-local-calls", 2, 3, traffic("A,B", "A>B", "B>A"))
	mk("close-in-lookup", 2, 2, traffic("A|B", "A>B"))
	mk("close-in-crossing", 1, 2, traffic("A|B", "A>B", "B>A"))
	mk("close-in-hopeless-lookup", 2, 3, traffic("A", "A>Z"))
	mk("close-in-traffic-three", 1, 1, traffic("A|B|C", "A>B", "B>C", "C>B"))
	mk("close-twice", 2, 3, twice("A|B"))
	mk("again-same-place", 1, 2, again(true, false))
	mk("again-elsewhere", 1, 2, again(false, false))
	mk("again-at-once", 1, 2, again(false, true))
	mk("hubs", 1, 1, hubs())
	mk("busy-hooks", 1, 2, busyHooks())
	mk("replaced", 1, 2, replaced(false))
	mk("replaced-early", 1, 2, replaced(true))
	mk("one-after-another", 1, 2, oneAfterAnother("A|B|C"))
	mk("one-after-another-2", 1, 2, oneAfterAnother("A|B"))
	mk("farewell", 1, 2, farewell(false))
	mk("farewell-known", 1, 2, farewell(true))
	mo("farewell-orders", 2, 3, farewell(false))
	mk("peers-come-and-go", 1, 2, restartedPeers())
	zzvs.Main("C13", scs, []string{
		"the hub listens before docks start and Close is not called before they reached it (a dock that finds no hub ends its process by design)",
		"a Close that overlaps a dock's start-up may overtake its start hooks"})
}
