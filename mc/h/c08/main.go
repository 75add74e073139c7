// C08: every call runs its method exactly once and its result reaches its caller.
package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/muguangyi/ferry"
	. "github.com/muguangyi/ferry/zzharness/hk"
	"github.com/muguangyi/ferry/zzvs"
)

// callers in one dock, the feature in another; connected: the docks are already connected
func remote(nCallers, nCalls int, connected, void bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		a, b := &Feat{Id: "A"}, &Feat{Id: "B"}
		cs := &Calls{}
		calls := 0
		go1 := func(s ferry.ISlot) {
			Callers(nCallers, func(i int) {
				for k := 0; k < nCalls; k++ {
					if void && k%2 == 1 {
						cs.Note(s, "A", "B", 10*i+k)
					} else {
						cs.Echo(s, "A", "B", 10*i+k, fmt.Sprint("x", i, k))
					}
				}
			})
		}
		body := func() {
			if !connected {
				a.OnUp = go1
			}
			Hub()
			Dock(Host(1), "da", ferry.Carry("A", a, true))
			Dock(Host(2), "db", ferry.Carry("B", b, true))
			if connected {
				zzvs.Await("A started", func() bool { return a.Slot != nil })
				calls++
				cs.Echo(a.Slot, "A", "B", 99, "first")
				zzvs.Settle()
				go1(a.Slot)
			}
		}
		return body, func(w *zzvs.World) {
			cs.Made(nCallers*nCalls + calls)
			cs.CheckOnce(map[string]*Feat{"A": a, "B": b})
			w.Outcome = cs.Outcome(a, b)
		}
	}
}

// two docks call a third one at the same time, with the same arguments
func twoDocks(connected bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		a, b, c := &Feat{Id: "A"}, &Feat{Id: "B"}, &Feat{Id: "C"}
		cs := &Calls{}
		body := func() {
			if !connected {
				a.OnUp = func(s ferry.ISlot) { cs.Echo(s, "A", "B", 1, "x") }
				c.OnUp = func(s ferry.ISlot) { cs.Echo(s, "C", "B", 2, "x") }
			}
			Hub()
			Dock(Host(2), "db", ferry.Carry("B", b, true))
			Dock(Host(1), "da", ferry.Carry("A", a, true))
			Dock(Host(3), "dc", ferry.Carry("C", c, true))
			if connected {
				zzvs.Await("started", func() bool { return a.Slot != nil && c.Slot != nil })
				zzvs.Settle()
				zzvs.Go("a", func() { cs.Echo(a.Slot, "A", "B", 1, "x") })
				zzvs.Go("c", func() { cs.Echo(c.Slot, "C", "B", 2, "x") })
			}
		}
		return body, func(w *zzvs.World) {
			cs.Made(2)
			cs.CheckOnce(map[string]*Feat{"A": a, "B": b, "C": c})
			w.Outcome = cs.Outcome(a, b, c)
		}
	}
}

// calls within one dock from several goroutines
func local(nCallers, nCalls int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		a, b := &Feat{Id: "A"}, &Feat{Id: "B"}
		cs := &Calls{}
		body := func() {
			a.OnUp = func(s ferry.ISlot) {
				Callers(nCallers, func(i int) {
					for k := 0; k < nCalls; k++ {
						if k%2 == 1 {
							cs.Note(s, "A", "B", 10*i+k)
						} else {
							cs.Echo(s, "A", "B", 10*i+k, fmt.Sprint("x", i, k))
						}
					}
				})
			}
			Hub()
			Dock(Host(1), "da", ferry.Carry("A", a, true), ferry.Carry("B", b, true))
		}
		return body, func(w *zzvs.World) {
			cs.Made(nCallers * nCalls)
			cs.CheckOnce(map[string]*Feat{"A": a, "B": b})
			w.Outcome = cs.Outcome(a, b)
		}
	}
}

// one caller calls features of two other docks, another one only one of them
func fanOut() Maker {
	return func() (func(), func(w *zzvs.World)) {
		a, b, c := &Feat{Id: "A"}, &Feat{Id: "B"}, &Feat{Id: "C"}
		cs := &Calls{}
		body := func() {
			a.OnUp = func(s ferry.ISlot) {
				zzvs.Go("to b", func() { cs.Echo(s, "A", "B", 1, "x") })
				zzvs.Go("to c", func() { cs.Echo(s, "A", "C", 2, "x"); cs.Echo(s, "A", "B", 3, "y") })
			}
			Hub()
			Dock(Host(1), "da", ferry.Carry("A", a, true))
			Dock(Host(2), "db", ferry.Carry("B", b, true))
			Dock(Host(3), "dc", ferry.Carry("C", c, true))
		}
		return body, func(w *zzvs.World) {
			cs.Made(3)
			cs.CheckOnce(map[string]*Feat{"A": a, "B": b, "C": c})
			w.Outcome = cs.Outcome(a, b, c)
		}
	}
}

// docks calling each other at once
func crossed() Maker {
	return func() (func(), func(w *zzvs.World)) {
		a, b := &Feat{Id: "A"}, &Feat{Id: "B"}
		cs := &Calls{}
		body := func() {
			a.OnUp = func(s ferry.ISlot) { cs.Echo(s, "A", "B", 1, "x"); cs.Echo(s, "A", "B", 2, "y") }
			b.OnUp = func(s ferry.ISlot) { cs.Echo(s, "B", "A", 3, "x"); cs.Note(s, "B", "A", 4) }
			Hub()
			Dock(Host(1), "da", ferry.Carry("A", a, true))
			Dock(Host(2), "db", ferry.Carry("B", b, true))
		}
		return body, func(w *zzvs.World) {
			cs.Made(4)
			cs.CheckOnce(map[string]*Feat{"A": a, "B": b})
			w.Outcome = cs.Outcome(a, b)
		}
	}
}

// calls between long silences
func silences(rounds int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		a, b := &Feat{Id: "A"}, &Feat{Id: "B"}
		cs := &Calls{}
		body := func() {
			Hub()
			Dock(Host(1), "da", ferry.Carry("A", a, true))
			Dock(Host(2), "db", ferry.Carry("B", b, true))
			zzvs.Await("started", func() bool { return a.Slot != nil && b.Slot != nil })
			for i := 0; i < rounds; i++ {
				Silence()
				i := i
				zzvs.Go("a", func() { cs.Echo(a.Slot, "A", "B", 2*i, "x") })
				zzvs.Go("b", func() { cs.Echo(b.Slot, "B", "A", 2*i+1, "x") })
			}
		}
		return body, func(w *zzvs.World) {
			cs.Made(2 * rounds)
			cs.CheckOnce(map[string]*Feat{"A": a, "B": b})
			w.Outcome = cs.Outcome(a, b)
		}
	}
}

// one call is still running while many others are made to another feature of the same dock
func held(n int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		a, b, c := &Feat{Id: "A"}, &Feat{Id: "B"}, &Feat{Id: "C"}
		cs := &Calls{}
		release := false
		b.EchoWork = func(int) { zzvs.Await("release", func() bool { return release }) }
		body := func() {
			Hub()
			Dock(Host(1), "da", ferry.Carry("A", a, true))
			Dock(Host(2), "db", ferry.Carry("B", b, true), ferry.Carry("C", c, true))
			zzvs.Await("started", func() bool { return a.Slot != nil && b.Slot != nil && c.Slot != nil })
			zzvs.Settle()
			b.Slot.SetTimeout("Echo", 1e6)
			zzvs.Go("held", func() { cs.Echo(a.Slot, "A", "B", 1, "held") })
			zzvs.Settle()
			for i := 0; i < n; i++ {
				x := cs.Echo(a.Slot, "A", "C", 10+i, "x")
				if !x.Returned || x.Good("C") != "" {
					zzvs.Fail("outcome", "%s: %s", x.Desc(), x.Good("C"))
					break
				}
			}
			release = true
			zzvs.Settle()
			cs.Echo(a.Slot, "A", "B", 2, "then")
		}
		return body, func(w *zzvs.World) {
			cs.Made(n + 2)
			for _, x := range cs.L {
				if g := x.Good(x.Name); g != "" {
					zzvs.Fail("outcome", "%s: %s", x.Desc(), g)
				}
			}
			if len(b.Execs) != 2 || len(c.Execs) != n {
				zzvs.Fail("executions", "B ran %d calls of 2, C %d of %d", len(b.Execs), len(c.Execs), n)
			}
		}
	}
}

// n docks call one feature at once, and it calls all of them from its own goroutines
func manyDocks(n int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		feats := map[string]*Feat{"B": {Id: "B"}}
		var slots []ferry.ISlot
		cs := &Calls{}
		body := func() {
			Hub()
			Dock(Host(0), "b", ferry.Carry("B", feats["B"], true))
			Up(Host(0))
			for i := 0; i < n; i++ {
				id := fmt.Sprint("A", i)
				feats[id] = &Feat{Id: id}
				slots = append(slots, ferry.Carry(id, feats[id], true))
				Dock(Host(1+i), id, slots[i])
			}
			zzvs.Settle()
			for i, s := range slots {
				i, s := i, s
				for k := 0; k < 3; k++ {
					k := k
					zzvs.Go("a", func() { cs.Echo(s, fmt.Sprint("A", i), "B", 10*i+k, fmt.Sprint("x", i, k)) })
				}
				zzvs.Go("b", func() { cs.Echo(feats["B"].Slot, "B", fmt.Sprint("A", i), 10*i, "x") })
			}
		}
		return body, func(w *zzvs.World) {
			cs.Made(4 * n)
			cs.CheckOnce(feats)
		}
	}
}

// many calls in turn, with long arguments and results now and then
func inTurn(n int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		a, b, c := &Feat{Id: "A"}, &Feat{Id: "B"}, &Feat{Id: "C"}
		cs := &Calls{}
		body := func() {
			Hub()
			Dock(Host(1), "da", ferry.Carry("A", a, true), ferry.Carry("C", c, true))
			Dock(Host(2), "db", ferry.Carry("B", b, true))
			zzvs.Settle()
			for i := 0; i < n; i++ {
				x := fmt.Sprint("x", i)
				if i%50 == 49 {
					x = strings.Repeat(x, 300*(i%7))
				}
				cs.Echo(a.Slot, "A", "B", i, x)
				cs.Echo(a.Slot, "A", "C", i, x)
				cs.Note(b.Slot, "B", "A", i)
			}
		}
		return body, func(w *zzvs.World) {
			cs.Made(3 * n)
			for _, x := range cs.L {
				if g := x.Good(x.Name); g != "" {
					zzvs.Fail("outcome", "%s's call %d of %s: %s", x.Who, x.Tag, x.Name, g)
				}
			}
			for _, f := range []*Feat{a, b, c} {
				if len(f.Execs) != n {
					zzvs.Fail("executions", "%s ran %d calls of %d", f.Id, len(f.Execs), n)
				}
			}
		}
	}
}

// long arguments and results of several callers at once
func long(sizes ...int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		a, b := &Feat{Id: "A"}, &Feat{Id: "B"}
		cs := &Calls{}
		body := func() {
			Hub()
			Dock(Host(1), "da", ferry.Carry("A", a, true))
			Dock(Host(2), "db", ferry.Carry("B", b, true))
			zzvs.Settle()
			for i, n := range sizes {
				i, n := i, n
				zzvs.Go("a", func() { cs.Echo(a.Slot, "A", "B", i, strings.Repeat(fmt.Sprint(i%10), n)) })
				zzvs.Go("b", func() { cs.Echo(b.Slot, "B", "A", i, strings.Repeat(fmt.Sprint(i%10), n)) })
			}
		}
		return body, func(w *zzvs.World) {
			cs.Made(2 * len(sizes))
			cs.CheckOnce(map[string]*Feat{"A": a, "B": b})
		}
	}
}

// more calls at once than a connection's backlog holds
func burst(n int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		a, b := &Feat{Id: "A"}, &Feat{Id: "B"}
		cs := &Calls{}
		body := func() {
			Hub()
			Dock(Host(1), "da", ferry.Carry("A", a, true))
			Dock(Host(2), "db", ferry.Carry("B", b, true))
			zzvs.Await("A started", func() bool { return a.Slot != nil })
			cs.Echo(a.Slot, "A", "B", 99, "first")
			zzvs.Settle()
			Callers(n, func(i int) { cs.Echo(a.Slot, "A", "B", 100+i, fmt.Sprint("x", i)) })
		}
		return body, func(w *zzvs.World) {
			cs.Made(n + 1)
			lost := 0
			for _, x := range cs.L {
				m := b.Count(x.Exec())
				if g := x.Good("B"); !x.Returned && m <= 1 {
					lost++
				} else if g != "" {
					zzvs.Fail("outcome", "%s: %s", x.Desc(), g)
				} else if m != 1 {
					zzvs.Fail("executions", "%s executed %d times", x.Desc(), m)
				}
			}
			if lost > 0 {
				zzvs.Fail("backlog overflow", "%d of %d calls made at once never returned", lost, n)
			}
			w.Outcome = fmt.Sprint("lost ", lost)
		}
	}
}

// others send to a dock, at the same time, exactly what a caller's dock has sent: they are different
// callers, and each gets its own answers
func sameBytes(n int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		a, b := &Feat{Id: "A"}, &Feat{Id: "B"}
		cs := &Calls{}
		var answers []string // as they appear among the bytes
		got := make([][]byte, n)
		body := func() {
			zzvs.W.Net.KeepWrites = true
			Hub()
			Dock(Host(1), "da", ferry.Carry("A", a, true))
			Dock(Host(2), "db", ferry.Carry("B", b, true))
			zzvs.Await("started", func() bool { return a.Slot != nil && b.Slot != nil })
			zzvs.Settle()
			written := func(from, to string) (b []byte) {
				for _, c := range zzvs.W.Net.Conns {
					for _, e := range []*zzvs.Conn{c, c.Peer()} {
						if e.Host == from && e.RemoteHost == to {
							b = append(b, e.Wrote...)
						}
					}
				}
				return
			}
			for i := 0; i < 2; i++ {
				cs.Echo(a.Slot, "A", "B", i, fmt.Sprint("x", i))
				zzvs.Settle()
			}
			for i := 0; i < 2; i++ {
				r := fmt.Sprint("B/x", i)
				if bytes.Count(written(Host(2), Host(1)), []byte(r)) == 1 {
					answers = append(answers, r)
				}
			}
			sent := append([]byte{}, written(Host(1), Host(2))...)
			at := ""
			for _, l := range zzvs.W.Net.Listens {
				if l.Host == Host(2) {
					at = fmt.Sprintf("%s:%d", l.Host, l.Port)
				}
			}
			for i := 0; i < n; i++ {
				i := i
				zzvs.Go("other", func() {
					zzvs.SetHost(fmt.Sprintf("10.0.1.%d", i+1))
					c, err := zzvs.NetDial("tcp", at)
					if err != nil {
						zzvs.Fail("dial", "%v", err)
						return
					}
					c.Write(sent)
					buf := make([]byte, 10000)
					for {
						k, err := c.Read(buf)
						if err != nil {
							return
						}
						got[i] = append(got[i], buf[:k]...)
						zzvs.Eventf("got %x", buf[:k])
					}
				})
			}
		}
		return body, func(w *zzvs.World) {
			cs.Made(2)
			for _, x := range cs.L {
				if g := x.Good("B"); g != "" {
					zzvs.Fail("outcome", "%s: %s", x.Desc(), g)
				}
				if k := b.Count(x.Exec()); k != n+1 {
					zzvs.Fail("executions", "%s was called by %d docks and executed %d times", x.Exec(), n+1, k)
				}
			}
			for i := range got {
				for _, r := range answers {
					if k := bytes.Count(got[i], []byte(r)); k != 1 {
						zzvs.Fail("answers", "caller %d got the answer %q %d times, in %x", i, r, k, got[i])
					}
				}
			}
			w.Outcome = strings.Join(b.Execs, ",")
		}
	}
}

// callsMade, if known, sets the number of calls made so far in the process.
var callsMade func(n int64)

// calls when many were made before
func after() Maker {
	return func() (func(), func(w *zzvs.World)) {
		a, b := &Feat{Id: "A"}, &Feat{Id: "B"}
		cs := &Calls{}
		body := func() {
			Hub()
			Dock(Host(1), "da", ferry.Carry("A", a, true))
			Dock(Host(2), "db", ferry.Carry("B", b, true))
			zzvs.Await("started", func() bool { return a.Slot != nil && b.Slot != nil })
			cs.Echo(a.Slot, "A", "B", 1000, "first")
			for i, k := range []uint{7, 8, 12, 15, 16, 24, 31, 32, 47, 52, 53, 62} {
				if callsMade != nil {
					callsMade(1<<k - 4)
				}
				zzvs.Settle()
				Callers(8, func(j int) {
					if j%2 == 0 {
						cs.Echo(a.Slot, "A", "B", 10*i+j, "x")
					} else {
						cs.Note(b.Slot, "B", "A", 10*i+j)
					}
				})
			}
		}
		return body, func(w *zzvs.World) {
			cs.Made(97)
			cs.CheckOnce(map[string]*Feat{"A": a, "B": b})
		}
	}
}

// docks of different processes number their calls alike
func sameNumbers(callers int, connected bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		b, c := &Feat{Id: "B"}, &Feat{Id: "C"}
		var as []*Feat
		cs := &Calls{}
		n := 0
		all := map[string]*Feat{"B": b, "C": c}
		for i := 0; i < callers; i++ {
			a := &Feat{Id: fmt.Sprint("A", i)}
			as = append(as, a)
			all[a.Id] = a
		}
		body := func() {
			Hub()
			b.EchoWork = func(tag int) {
				if tag >= 1000 {
					zzvs.Sleep(4e8)
				}
			}
			Dock(Host(50), "p", ferry.Carry("B", b, true), ferry.Carry("C", c, true))
			Up(Host(50))
			for i, a := range as {
				Dock(Host(i), a.Id, ferry.Carry(a.Id, a, true))
				Up(Host(i))
				if connected {
					n++
					cs.Echo(a.Slot, a.Id, "C", n, "x")
				}
			}
			number := func(k int64) {
				if callsMade != nil {
					callsMade(k)
				}
			}
			// one after the other
			for k := int64(100); k < 103; k++ {
				for _, a := range as {
					n++
					number(k)
					if n%2 == 0 {
						cs.Echo(a.Slot, a.Id, "B", n, "x")
					} else {
						cs.Note(a.Slot, a.Id, "B", n)
					}
				}
			}
			zzvs.Settle()
			// at the same time: the first is being executed when the next are sent, and B's dock
			// calls, too
			for round, name := range []string{"B", "C"} {
				k := int64(200 + 100*round)
				number(k)
				n++
				first := n
				zzvs.Go("first", func() { cs.Echo(as[0].Slot, as[0].Id, "B", 1000+first, "x") })
				zzvs.Await("executed", func() bool { return b.Running > 0 })
				for _, a := range as[1:] {
					a := a
					n++
					m, made := n, len(cs.L)
					number(k)
					zzvs.Go("next", func() { cs.Echo(a.Slot, a.Id, name, m, "y") })
					zzvs.Await("called", func() bool { return len(cs.L) > made })
					zzvs.Sleep(1e6)
				}
				n++
				number(k)
				cs.Echo(b.Slot, "B", as[0].Id, n, "z")
				zzvs.Sleep(2e9)
			}
		}
		return body, func(w *zzvs.World) {
			cs.Made(n)
			cs.CheckOnce(all)
		}
	}
}

func endless(w *zzvs.World) { w.MaxSteps = 1 << 30 }

func main() {
	zzvs.Main("C08", []*zzvs.Scenario{
		{Name: "remote-1", Quick: 2, Thorough: 3, New: remote(1, 2, false, true)},
		{Name: "remote-2", Quick: 2, Thorough: 2, New: remote(2, 1, false, false)},
		{Name: "connected-2", Quick: 2, Thorough: 3, New: remote(2, 2, true, true)},
		{Name: "connected-3", Quick: 1, Thorough: 2, New: remote(3, 1, true, false)},
		{Name: "two-docks", Quick: 1, Thorough: 2, New: twoDocks(false)},
		{Name: "two-docks-connected", Quick: 1, Thorough: 2, New: twoDocks(true)},
		{Name: "local", Quick: 2, Thorough: 3, New: local(3, 2)},
		{Name: "fan-out", Quick: 1, Thorough: 2, New: fanOut()},
		{Name: "crossed", Quick: 1, Thorough: 2, New: crossed()},
		{Name: "20-at-once", Quick: 0, Thorough: 1, New: remote(20, 1, true, false)},
		{Name: "9-at-once-from-start", Quick: 0, Thorough: 1, New: remote(9, 1, false, false)},
		{Name: "local-100-callers", Quick: 0, Thorough: 0, New: local(100, 3), Config: endless},
		{Name: "thirty-docks", Quick: 0, Thorough: 0, New: manyDocks(30), Config: endless},
		{Name: "in-turn-400", Quick: 0, Thorough: 0, New: inTurn(400), Config: endless},
		{Name: "in-turn-4000", Quick: -1, Thorough: 0, New: inTurn(4000), Config: endless},
		{Name: "same-bytes", Quick: 1, Thorough: 2, New: sameBytes(2)},
		{Name: "after-many", Quick: 0, Thorough: 0, New: after(), Config: endless},
		{Name: "same-numbers-2", Quick: 1, Thorough: 2, New: sameNumbers(2, false)},
		{Name: "same-numbers-2-connected", Quick: 1, Thorough: 2, New: sameNumbers(2, true)},
		{Name: "same-numbers-4", Quick: 0, Thorough: 1, New: sameNumbers(4, false)},
		{Name: "long", Quick: 1, Thorough: 2, New: long(10200, 3), Config: endless},
		{Name: "longer", Quick: 0, Thorough: 1, New: long(0, 10238, 20480, 70000, 300000, 1), Config: endless},
		{Name: "silences", Quick: 1, Thorough: 2, New: silences(2)},
		{Name: "held-while-300", Quick: 0, Thorough: 0, New: held(300), Config: func(w *zzvs.World) { w.MaxSteps = 1 << 30 }},
		{Name: "held-while-4200", Quick: 0, Thorough: 0, New: held(4200), Config: func(w *zzvs.World) { w.MaxSteps = 1 << 30 }},
		{Name: "burst-of-60", Quick: 0, Thorough: 0, New: burst(60)},
	}, []string{"the hub's host and all dock hosts stay up and connected", "methods return within their timeout"})
}
