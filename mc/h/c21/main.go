// C21: losing a dock, or a connection, at any moment leaves no call waiting for it.
package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/muguangyi/ferry"
	. "github.com/muguangyi/ferry/zzharness/hk"
	"github.com/muguangyi/ferry/zzvs"
)

// world is what most scenarios share: one caller's dock, providers, and calls. Every call
// made has to return; what it returns is judged by where it may have been sent.
type world struct {
	a     *Feat
	fs    []*Feat
	lossy *Calls // may have been sent to what is lost: a good result or an error
	sure  *Calls // must succeed
}

func newWorld(ids ...string) *world {
	t := &world{a: &Feat{Id: "A"}, lossy: &Calls{}, sure: &Calls{}}
	for _, id := range ids {
		t.fs = append(t.fs, &Feat{Id: id})
	}
	return t
}

// dock starts a dock carrying a feature by the name of the first letter of its id.
func dock(host string, f *Feat) {
	Dock(host, strings.ToLower(f.Id), ferry.Carry(f.Id[:1], f, true))
}

func dockUp(host string, f *Feat) {
	dock(host, f)
	Up(host)
}

func (t *world) check(w *zzvs.World) {
	all := append([]*Feat{t.a}, t.fs...)
	times := func(name, e string) (n int, on []string) {
		for _, f := range all {
			if f.Id[:1] == name {
				if k := f.Count(e); k > 0 {
					n += k
					on = append(on, f.Id)
				}
			}
		}
		return
	}
	for _, c := range []*Calls{t.lossy, t.sure} {
		for _, x := range c.L {
			if !x.Returned {
				zzvs.Fail("never returns", "%s never returned", x.Desc())
			}
			n, on := times(x.Name, x.Exec())
			if n > 1 {
				zzvs.Fail("executed again", "%s was executed %d times (%v)", x.Desc(), n, on)
			}
			if x.Err == nil || c == t.sure {
				if n != 1 {
					zzvs.Fail("not executed", "%s returned %v %v and was executed %d times", x.Desc(), x.Res, x.Err, n)
				}
				if g := x.Good(on...); g != "" {
					zzvs.Fail("outcome", "%s: %s", x.Desc(), g)
				}
			}
		}
	}
	for _, f := range all {
		for _, e := range f.Execs {
			if f.Count(e) > 1 {
				zzvs.Fail("executed again", "%s was executed %d times on %s", e, f.Count(e), f.Id)
			}
		}
	}
	w.Outcome = t.lossy.Outcome() + "/" + t.sure.Outcome(t.fs...)
}

// several makes n calls at once, or in turn
func (c *Calls2) several(n int, s ferry.ISlot, who, name string, tag int, turn bool) {
	f := func(i int) {
		if i%3 == 2 {
			c.Note(s, who, name, tag+i)
		} else {
			c.Echo(s, who, name, tag+i, fmt.Sprint("x", i))
		}
	}
	if turn {
		zzvs.Go("calls", func() {
			for i := 0; i < n; i++ {
				f(i)
			}
		})
		return
	}
	Callers(n, f)
}

// Calls2 adds to Calls.
type Calls2 struct{ *Calls }

// only provider goes away at any moment; another one comes later
func only(calls int, turn, connected bool, same bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		t := newWorld("B1", "B2")
		body := func() {
			Hub()
			dockUp(Host(1), t.fs[0])
			dockUp(Host(3), t.a)
			if connected {
				t.sure.Echo(t.a.Slot, "A", "B", 900, "w")
				zzvs.Settle()
			}
			zzvs.Go("down", func() { zzvs.Down(Host(1)) })
			(&Calls2{t.lossy}).several(calls, t.a.Slot, "A", "B", 0, turn)
			zzvs.Settle()
			h := Host(2)
			if same {
				h = Host(1)
			}
			dockUp(h, t.fs[1])
			t.sure.Echo(t.a.Slot, "A", "B", 901, "y")
		}
		return body, t.check
	}
}

// the newest of several providers goes away at any moment: nobody else has to come
func newest(n, calls int, turn, connected bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		t := newWorld()
		for i := 0; i < n; i++ {
			t.fs = append(t.fs, &Feat{Id: fmt.Sprint("B", i)})
		}
		body := func() {
			Hub()
			for i, f := range t.fs {
				dockUp(Host(i), f)
			}
			dockUp(Host(30), t.a)
			if connected {
				t.sure.Echo(t.a.Slot, "A", "B", 900, "w")
				zzvs.Settle()
			}
			zzvs.Go("down", func() {
				for i := n - 1; i > 0; i-- {
					zzvs.Down(Host(i))
				}
			})
			(&Calls2{t.lossy}).several(calls, t.a.Slot, "A", "B", 0, turn)
			zzvs.Settle()
			t.sure.Echo(t.a.Slot, "A", "B", 901, "y")
		}
		return body, t.check
	}
}

// calls are in progress, and waiting behind each other, when the provider goes away: they
// return then, and not when the method or its timeout would have ended
func inProgress(calls, clients int, how string) Maker {
	return func() (func(), func(w *zzvs.World)) {
		t := newWorld("B1", "C1")
		at := int64(0)
		var as []*Feat
		body := func() {
			t.fs[0].EchoWork = func(int) { zzvs.Sleep(900 * time.Millisecond) }
			Hub()
			dockUp(Host(1), t.fs[0])
			dockUp(Host(2), t.fs[1])
			for i := 0; i < clients; i++ {
				f := &Feat{Id: fmt.Sprint("A", i)}
				as = append(as, f)
				dockUp(Host(10+i), f)
			}
			for i, f := range as {
				for k := 0; k < calls; k++ {
					i, f, k := i, f, k
					zzvs.Go("caller", func() { t.lossy.Echo(f.Slot, f.Id, "B", 100*i+k, "x") })
				}
			}
			zzvs.Settle()
			zzvs.Sleep(100 * time.Millisecond)
			at = zzvs.NowNS()
			switch how {
			case "down":
				zzvs.Down(Host(1))
			case "break":
				for i := range as {
					zzvs.Break(Host(1), Host(10+i))
				}
			case "hub":
				zzvs.Down(HubHost)
			}
			for i, f := range as {
				i, f := i, f
				if how != "hub" {
					zzvs.Go("other", func() { t.sure.Echo(f.Slot, f.Id, "C", 900+i, "x") })
				}
			}
		}
		return body, func(w *zzvs.World) {
			t.check(w)
			if len(t.lossy.L) != calls*clients {
				zzvs.Fail("calls made", "%d", len(t.lossy.L))
			}
			bad := 0
			for _, x := range t.lossy.L {
				if x.Err != nil {
					bad++
				}
				if how != "hub" && (x.Err == nil || x.At > at+int64(50*time.Millisecond)) {
					zzvs.Fail("late", "%s returned %v %v at %d ms, the connection was lost at %d ms", x.Desc(), x.Res, x.Err, x.At/1e6, at/1e6)
				}
			}
			if how == "hub" && bad > 0 && calls*clients == 1 {
				zzvs.Fail("hub", "%s failed with the hub: %v", t.lossy.L[0].Desc(), t.lossy.L[0].Err)
			}
			for _, x := range t.sure.L {
				if x.At > at+int64(50*time.Millisecond) {
					zzvs.Fail("late", "%s returned at %d ms, called at %d ms", x.Desc(), x.At/1e6, at/1e6)
				}
			}
		}
	}
}

// a host goes away while others call each other
func bystanders(which string) Maker {
	return func() (func(), func(w *zzvs.World)) {
		t := newWorld("B1", "C1", "D1")
		body := func() {
			Hub()
			for i, f := range t.fs {
				dockUp(Host(1+i), f)
			}
			dockUp(Host(9), t.a)
			b, c, d := t.fs[0], t.fs[1], t.fs[2]
			if which == "hub" {
				// everybody knows everybody
				for i, f := range []*Feat{t.a, b, c, d} {
					for k, g := range []*Feat{t.a, b, c, d} {
						if f != g {
							t.sure.Echo(f.Slot, f.Id, g.Id[:1], 500+10*i+k, "w")
						}
					}
				}
				zzvs.Settle()
			}
			down := map[string]string{"B": Host(1), "A": Host(9), "hub": HubHost}[which]
			zzvs.Go("down", func() { zzvs.Down(down) })
			to := func(f *Feat, name string, tag int) {
				cs := t.sure
				if f.Id[:1] == which || name == which {
					cs = t.lossy
				}
				zzvs.Go("caller", func() { cs.Echo(f.Slot, f.Id, name, tag, "x") })
			}
			if which == "hub" {
				to(t.a, "B", 1)
				to(b, "C", 2)
				to(c, "D", 3)
			} else if which == "B" {
				to(t.a, "C", 1)
				to(c, "D", 2)
				to(d, "A", 3)
			} else {
				to(b, "C", 1)
				to(c, "D", 2)
				to(d, "B", 3)
			}
		}
		return body, t.check
	}
}

// the caller's dock is lost: the provider and the other callers go on
func callerLost(connected bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		t := newWorld("B1", "D1")
		body := func() {
			Hub()
			dockUp(Host(1), t.fs[0])
			dockUp(Host(2), t.fs[1])
			dockUp(Host(9), t.a)
			b, d := t.fs[0], t.fs[1]
			if connected {
				t.sure.Echo(t.a.Slot, "A", "B", 900, "w")
				t.sure.Echo(d.Slot, "D", "B", 901, "w")
				zzvs.Settle()
			}
			zzvs.Go("down", func() { zzvs.Down(Host(9)) })
			zzvs.Go("a", func() {
				// it has lost its hub, too: nobody may be left to answer it
				t.a.Slot.Call("B", "Note", 1)
			})
			zzvs.Go("d", func() {
				t.sure.Echo(d.Slot, "D", "B", 2, "x")
				t.sure.Note(d.Slot, "D", "B", 3)
			})
			zzvs.Settle()
			t.sure.Echo(d.Slot, "D", "B", 4, "x")
			_ = b
		}
		return body, t.check
	}
}

// only connections between docks break: the next calls make new ones
func breaks(times, calls int, both bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		t := newWorld("B1")
		body := func() {
			Hub()
			dockUp(Host(1), t.fs[0])
			dockUp(Host(2), t.a)
			b := t.fs[0]
			for i := 0; i < times; i++ {
				i := i
				zzvs.Go("break", func() { zzvs.Break(Host(1), Host(2)) })
				(&Calls2{t.lossy}).several(calls, t.a.Slot, "A", "B", 100*i, false)
				if both {
					zzvs.Go("back", func() { t.lossy.Echo(b.Slot, "B", "A", 100*i+50, "b") })
				}
				zzvs.Settle()
				// what waits for the next look
				zzvs.Sleep(time.Second)
				zzvs.Settle()
			}
			t.sure.Echo(t.a.Slot, "A", "B", 900, "y")
			t.sure.Echo(b.Slot, "B", "A", 901, "y")
		}
		return body, t.check
	}
}

// a dock with several features, all of them called before, goes away or the connection to it breaks:
// all of them are looked up again
func severalFeatures(n int, what string, others int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		var ids []string
		for _, k := range []string{"1", "2"} {
			for i := 0; i < n; i++ {
				ids = append(ids, fmt.Sprintf("%c%s", 'B'+i, k))
			}
		}
		t := newWorld(ids...)
		body := func() {
			Hub()
			carry := func(host string, fs []*Feat) {
				var ss []ferry.ISlot
				for _, f := range fs {
					ss = append(ss, ferry.Carry(f.Id[:1], f, true))
				}
				Dock(host, host, ss...)
				Up(host)
			}
			carry(Host(1), t.fs[:n])
			dockUp(Host(9), t.a)
			for i := 0; i < n; i++ {
				t.sure.Echo(t.a.Slot, "A", fmt.Sprintf("%c", 'B'+i), 900+i, "w")
			}
			zzvs.Settle()
			if what == "break" {
				zzvs.Go("break", func() { zzvs.Break(Host(1), Host(9)) })
			} else {
				zzvs.Go("down", func() { zzvs.Down(Host(1)) })
			}
			Callers(others, func(i int) { t.lossy.Echo(t.a.Slot, "A", fmt.Sprintf("%c", 'B'+i%n), i, "x") })
			zzvs.Settle()
			zzvs.Sleep(time.Second)
			zzvs.Settle()
			if what != "break" {
				carry(Host(2), t.fs[n:])
			}
			for i := 0; i < n; i++ {
				t.sure.Echo(t.a.Slot, "A", fmt.Sprintf("%c", 'B'+i), 910+i, "y")
			}
		}
		return body, t.check
	}
}

// every history of n comings and goings: docks of these features come up, their hosts go down, their
// connections to the hub or to the caller break; after every so many steps the caller calls each
// feature that is to be had, and gets it from somebody who is there
func histories(n, every int, kinds ...string) Maker {
	return func() (func(), func(w *zzvs.World)) {
		type there struct {
			host  string
			known bool // to the hub
			fs    []*Feat
		}
		t := newWorld()
		e := &Feat{Id: "E"}
		body := func() {
			var live []*there
			var left []string
			var names []string
			seen := map[string]bool{}
			for _, k := range kinds {
				for _, f := range strings.Split(k, ",") {
					if !seen[f] {
						seen[f] = true
						names = append(names, f)
					}
				}
			}
			Hub()
			dockUp(Host(90), t.a)
			dockUp(Host(91), e)
			tag := 0
			call := func(f *Feat) {
				for _, name := range names {
					known := false
					var ids []string
					for _, d := range live {
						for _, g := range d.fs {
							if g.Id[:1] == name {
								known = known || d.known
								ids = append(ids, g.Id)
							}
						}
					}
					if !known {
						continue
					}
					tag++
					x := t.sure.Echo(f.Slot, f.Id, name, tag, "x")
					if g := x.Good(ids...); g != "" {
						zzvs.Fail("outcome", "%s: %s (there are %v)", x.Desc(), g, ids)
					}
				}
				zzvs.Settle()
			}
			for step := 0; step < n; step++ {
				c := zzvs.Choose(len(kinds) + 3*len(live))
				if c < len(kinds) {
					d := &there{host: Host(step), known: true}
					if len(left) > 0 {
						d.host, left = left[len(left)-1], left[:len(left)-1]
					}
					var sl []ferry.ISlot
					for _, f := range strings.Split(kinds[c], ",") {
						g := &Feat{Id: fmt.Sprint(f, "#", step)}
						t.fs = append(t.fs, g)
						d.fs = append(d.fs, g)
						sl = append(sl, ferry.Carry(f, g, true))
					}
					Dock(d.host, fmt.Sprint("d", step), sl...)
					Up(d.host)
					live = append(live, d)
				} else {
					c -= len(kinds)
					d := live[c/3]
					switch c % 3 {
					case 0:
						live = append(live[:c/3:c/3], live[c/3+1:]...)
						zzvs.Down(d.host)
						left = append(left, d.host)
					case 1:
						zzvs.Break(d.host, HubHost)
						d.known = false
					case 2:
						zzvs.Break(d.host, Host(90))
					}
				}
				zzvs.Settle()
				if step%every == every-1 {
					call(t.a)
				}
			}
			call(e)
			call(t.a)
		}
		return body, t.check
	}
}

// docks come and go, each served by the next; all is quiet in between
func comeAndGo(n int, same, called bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		t := newWorld()
		body := func() {
			Hub()
			dockUp(Host(99), t.a)
			for i := 0; i < n; i++ {
				f := &Feat{Id: fmt.Sprint("B", i)}
				t.fs = append(t.fs, f)
				h := Host(1)
				if !same {
					h = Host(1 + i)
				}
				dockUp(h, f)
				if called {
					t.sure.Echo(t.a.Slot, "A", "B", 2*i, "x")
					t.sure.Note(f.Slot, "B", "A", 2*i+1)
					zzvs.Settle()
				}
				if i+1 < n {
					zzvs.Down(h)
					zzvs.Settle()
				}
			}
			t.sure.Echo(t.a.Slot, "A", "B", 1000, "x")
		}
		return body, func(w *zzvs.World) {
			t.check(w)
			if k := t.fs[n-1].Count("Echo(1000,x)"); k != 1 {
				zzvs.Fail("outcome", "the last call was executed %d times by the dock that is left", k)
			}
		}
	}
}

// calls wait for a feature nobody carries when other connections are lost, and are answered
// once somebody does
func waiting(what string, n int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		t := newWorld("B1", "C1")
		body := func() {
			Hub()
			dockUp(Host(1), t.fs[1])
			dockUp(Host(9), t.a)
			t.sure.Echo(t.a.Slot, "A", "C", 900, "w")
			zzvs.Settle()
			Callers(n, func(i int) { t.sure.Echo(t.a.Slot, "A", "B", i, "x") })
			zzvs.Settle()
			zzvs.Go("down", func() {
				if what == "down" {
					zzvs.Down(Host(1))
				} else {
					zzvs.Break(Host(1), Host(9))
				}
			})
			dock(Host(2), t.fs[0])
		}
		return body, t.check
	}
}

// a dock is lost while it starts up and is being waited for
func starting(late bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		t := newWorld("B1", "B2")
		body := func() {
			Hub()
			dockUp(Host(9), t.a)
			Callers(2, func(i int) { t.lossy.Echo(t.a.Slot, "A", "B", i, "x") })
			if late {
				zzvs.Settle()
			}
			dock(Host(1), t.fs[0])
			zzvs.Go("down", func() { zzvs.Await("dialled", func() bool { return len(zzvs.W.Net.Dials) >= 2 }); zzvs.Down(Host(1)) })
			zzvs.Settle()
			dockUp(Host(2), t.fs[1])
			t.sure.Echo(t.a.Slot, "A", "B", 10, "y")
		}
		return body, t.check
	}
}

// all docks of a process are closed while calls are made: these return, too
func closing(connected bool, n int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		t := newWorld("B1", "C1")
		body := func() {
			Hub()
			dockUp(Host(1), t.fs[0])
			dockUp(Host(2), t.fs[1])
			dockUp(Host(9), t.a)
			if connected {
				t.sure.Echo(t.a.Slot, "A", "B", 900, "w")
				zzvs.Settle()
			}
			zzvs.Go("close", ferry.Close)
			Callers(n, func(i int) { t.lossy.Echo(t.a.Slot, "A", "B", i, "x") })
			zzvs.Go("back", func() { t.lossy.Echo(t.fs[0].Slot, "B", "C", 50, "x") })
		}
		return body, t.check
	}
}

func main() {
	var scs []*zzvs.Scenario
	mk := func(name string, q, th int, m Maker) {
		scs = append(scs, &zzvs.Scenario{Name: name, Quick: q, Thorough: th, New: m})
	}
	mk("only-one", 2, 3, only(1, false, false, false))
	mk("only-one-connected", 2, 3, only(1, false, true, false))
	mk("only-one-same-host", 2, 2, only(1, false, true, true))
	mk("only-several", 1, 2, only(3, false, true, false))
	mk("only-several-looked-up", 1, 2, only(3, false, false, false))
	mk("only-in-turn", 1, 2, only(3, true, true, false))
	mk("newest", 2, 3, newest(2, 1, false, false))
	mk("newest-connected", 2, 3, newest(2, 1, false, true))
	mk("newest-several", 1, 2, newest(2, 3, false, true))
	mk("newest-in-turn", 1, 2, newest(2, 3, true, false))
	mk("newest-two", 2, 2, newest(3, 1, false, false))
	for _, how := range []string{"down", "break", "hub"} {
		mk("in-progress-"+how, 1, 2, inProgress(1, 1, how))
		mk("in-progress-many-"+how, 0, 1, inProgress(12, 2, how))
	}
	mk("bystanders", 1, 2, bystanders("B"))
	mk("bystanders-caller", 1, 2, bystanders("A"))
	mk("bystanders-hub", 1, 2, bystanders("hub"))
	mk("caller-lost", 2, 2, callerLost(true))
	mk("caller-lost-early", 2, 2, callerLost(false))
	mk("break", 2, 3, breaks(1, 1, false))
	mk("break-both", 1, 2, breaks(1, 2, true))
	mk("break-again", 1, 2, breaks(3, 1, true))
	for _, what := range []string{"down", "break"} {
		mk("several-features-"+what, 2, 3, severalFeatures(3, what, 2))
		mk("many-features-"+what, 0, 1, severalFeatures(8, what, 0))
	}
	mk("come-and-go", 0, 1, comeAndGo(5, false, true))
	mk("come-and-go-unused", 0, 1, comeAndGo(5, false, false))
	mk("come-and-go-same-host", 0, 1, comeAndGo(5, true, true))
	mk("come-and-go-long", 0, 0, comeAndGo(30, true, true))
	quiet := func(name string, q, th int, m Maker) {
		scs = append(scs, &zzvs.Scenario{Name: name, Quick: q, Thorough: th, New: m,
			Config: func(w *zzvs.World) { w.Preempt = false }})
	}
	quiet("histories-one", 9, 9, histories(6, 1, "B"))
	quiet("histories-one-seldom", 9, 9, histories(6, 2, "B"))
	quiet("histories-two", 9, 9, histories(4, 1, "B,C", "B"))
	quiet("histories-two-seldom", 9, 9, histories(5, 2, "B,C", "C"))
	quiet("histories-three", 9, 9, histories(4, 1, "B,C,D", "D,C", "B"))
	quiet("histories-long", 0, 12, histories(7, 1, "B,C"))
	quiet("histories-wide", 0, 9, histories(6, 1, "B,C", "B"))
	mk("waiting-down", 1, 2, waiting("down", 2))
	mk("waiting-break", 1, 2, waiting("break", 2))
	mk("starting", 1, 2, starting(false))
	mk("starting-late", 1, 2, starting(true))
	mk("closing", 1, 2, closing(false, 2))
	mk("closing-connected", 1, 2, closing(true, 2))
	mk("closing-one", 2, 3, closing(false, 1))
	mk("closing-one-connected", 1, 2, closing(true, 1))
	zzvs.Main("C21", scs, []string{"a lost dock's host is cut off: both ends of its connections notice", "the hub goes down only in the scenarios named after it"})
}
