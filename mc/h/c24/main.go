// C24: a system at rest does no work, and nothing is left over of what is done with.
package main

import (
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/network"
	. "github.com/muguangyi/ferry/zzharness/hk"
	"github.com/muguangyi/ferry/zzvs"
)

const (
	stranger = "10.0.0.91"
)

// enough for every timeout of a method and every attempt to be over
const patience = 30 * time.Second

type left struct {
	alive map[string][]string
	conns map[string]int
	ports map[string][]int
}

// remains is what there is on the hosts when all has come to rest, which it has to.
func remains(hosts ...string) left {
	zzvs.Settle()
	zzvs.Sleep(patience)
	zzvs.Settle()
	rest()
	l := left{map[string][]string{}, map[string]int{}, map[string][]int{}}
	for _, h := range hosts {
		l.alive[h] = zzvs.Alive(h)
		l.conns[h] = len(zzvs.W.Net.OpenConns(h))
		l.ports[h] = zzvs.W.Net.OpenListeners(h)
		sort.Ints(l.ports[h])
	}
	return l
}

// rest: nothing happens though a long time passes.
func rest() {
	if s := zzvs.Spinning(); len(s) > 0 {
		zzvs.Fail("busy", "at rest these try again and again: %s", strings.Join(s, ", "))
	}
	before, ticks := zzvs.Steps(), zzvs.Ticks()
	zzvs.Sleep(time.Hour)
	zzvs.Settle()
	if n := zzvs.Steps() - before; n > 40 {
		zzvs.Fail("busy", "at rest %d steps were done in an hour", n)
	}
	if n := zzvs.Ticks() - ticks; n > 1000 {
		zzvs.Fail("busy", "at rest loops went round %d times in an hour", n)
	}
}

func (l left) more(than left) string {
	var out []string
	for h, a := range l.alive {
		b := than.alive[h]
		if len(a) > len(b) {
			out = append(out, fmt.Sprintf("%d instead of %d goroutines on %s: %s", len(a), len(b), h, strings.Join(beyond(a, b), ", ")))
		}
		if l.conns[h] > than.conns[h] {
			out = append(out, fmt.Sprintf("%d instead of %d open connections on %s", l.conns[h], than.conns[h], h))
		}
		if !reflect.DeepEqual(l.ports[h], than.ports[h]) {
			out = append(out, fmt.Sprintf("ports %v instead of %v on %s", l.ports[h], than.ports[h], h))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func beyond(a, b []string) (out []string) {
	n := map[string]int{}
	for _, x := range b {
		n[x]++
	}
	for _, x := range a {
		if n[x]--; n[x] < 0 {
			out = append(out, x)
		}
	}
	return
}

// again repeats something; whatever it is, more of it must not leave more behind.
func again(n int, hosts []string, what string, f func(i int)) {
	f(0)
	first := remains(hosts...)
	for i := 1; i < n; i++ {
		f(i)
		if m := remains(hosts...).more(first); m != "" {
			zzvs.Fail("left over", "after %s %d times: %s", what, i+1, m)
			return
		}
	}
}

type sys struct{ a, b *Feat }

func hosts(n int) (out []string) {
	out = []string{HubHost}
	for i := 1; i <= n; i++ {
		out = append(out, Host(i))
	}
	return
}

// setup: a hub, a dock with A and one with B
func setup() *sys {
	zzvs.SetHost("10.0.0.90") // what carries the features lives there
	y := &sys{&Feat{Id: "A"}, &Feat{Id: "B"}}
	y.b.EchoWork = func(tag int) {
		if tag == 7 {
			zzvs.Sleep(1500 * time.Millisecond)
		}
	}
	Hub()
	Dock(Host(1), "b", ferry.Carry("B", y.b, true))
	Up(Host(1))
	Dock(Host(2), "a", ferry.Carry("A", y.a, true))
	Up(Host(2))
	return y
}

// run makes the scenario; it has to come to its end.
func run(f func()) Maker {
	return func() (func(), func(w *zzvs.World)) {
		done := false
		body := func() {
			f()
			done = true
		}
		return body, func(w *zzvs.World) {
			if !done {
				zzvs.Fail("blocked", "a call did not return")
			}
			w.Outcome = "no more left"
		}
	}
}

// parallel runs f(0) .. f(n-1) at once and waits for them.
func parallel(n int, f func(i int)) {
	left := n
	for i := 0; i < n; i++ {
		i := i
		zzvs.Go("par", func() {
			f(i)
			left--
		})
	}
	zzvs.Await("all done", func() bool { return left == 0 })
}

func calls(name string, n int) Maker {
	return run(func() {
		y := setup()
		s := y.a.Slot
		again(n, hosts(2), "calls of "+name, func(i int) {
			parallel(6, func(k int) {
				switch k {
				case 0, 1:
					s.CallWithResult(name, "Echo", i, "x")
				case 2:
					s.Call(name, "Note", i)
				case 3:
					s.CallWithResult(name, "NoSuch", 1)
				case 4:
					s.CallWithResult(name, "Echo", "x")
				case 5:
					s.CallWithResult(name, "Echo", 7, "slow")
				}
			})
		})
	})
}

// docks that come, are called, and go
func comeAndGo(n int, kill func(host string)) Maker {
	return run(func() {
		setupHub()
		a := &Feat{Id: "A"}
		Dock(Host(2), "a", ferry.Carry("A", a, true))
		Up(Host(2))
		again(n, []string{HubHost, Host(2)}, "a dock came, was called and went", func(i int) {
			h := Host(10 + i)
			f := &Feat{Id: "B"}
			Dock(h, "b", ferry.Carry("B", f, true))
			Up(h)
			a.Slot.CallWithResult("B", "Echo", i, "x")
			f.Slot.CallWithResult("A", "Echo", i, "x")
			kill(h)
		})
	})
}

func setupHub() {
	zzvs.SetHost("10.0.0.90")
	Hub()
}

// a dock that comes and goes with a call in flight, or not yet sent
func goesMeanwhile(n int) Maker {
	return run(func() {
		setupHub()
		a := &Feat{Id: "A"}
		Dock(Host(2), "a", ferry.Carry("A", a, true))
		Up(Host(2))
		again(n, []string{HubHost, Host(2)}, "a dock went while it was called", func(i int) {
			h := Host(10 + i)
			f := &Feat{Id: "B"}
			Dock(h, "b", ferry.Carry("B", f, true))
			Up(h)
			over := false
			zzvs.Go("call", func() {
				a.Slot.CallWithResult("B", "Echo", i, "x")
				over = true
			})
			zzvs.Down(h)
			zzvs.Settle()
			zzvs.Sleep(time.Second)
			if !over {
				// it was not sent
				g := &Feat{Id: "B"}
				Dock(h, "b2", ferry.Carry("B", g, true))
				zzvs.Await("answer", func() bool { return over })
				zzvs.Settle()
				zzvs.Down(h)
			}
		})
	})
}

// others connect, send nothing, or half of something, or hang up at once
func dialers(n int) Maker {
	return run(func() {
		y := setup()
		y.a.Slot.CallWithResult("B", "Echo", 1, "x")
		again(n, hosts(2), "strangers dialed and hung up", func(i int) {
			for _, to := range places(HubHost, Host(1), Host(2)) {
				for k := 0; k < 4; k++ {
					zzvs.SetHost(stranger)
					c, err := zzvs.NetDial("tcp", to)
					if err != nil {
						zzvs.Fail("gone", "%v", err)
						return
					}
					switch k {
					case 1:
						zzvs.Settle()
					case 2:
						c.Write([]byte{9, 0, 0, 0, 1})
					case 3:
						zzvs.Settle()
						c.Write([]byte{9, 0})
						zzvs.Settle()
					}
					c.Close()
				}
			}
		})
	})
}

func places(hosts ...string) (out []string) {
	for _, h := range hosts {
		for _, l := range zzvs.W.Net.Listens {
			if l.Host == h && l.L.Open() {
				out = append(out, fmt.Sprintf("%s:%d", h, l.Port))
			}
		}
	}
	return
}

// docks asking for what nobody has, and going
func askers(n, each int) Maker {
	return run(func() {
		setupHub()
		again(n, []string{HubHost}, "a dock asked for what nobody has and went", func(i int) {
			h := Host(10 + i)
			f := &Feat{Id: "A"}
			Dock(h, "a", ferry.Carry("A", f, true))
			Up(h)
			for k := 0; k < each; k++ {
				k := k
				zzvs.Go("asks", func() { f.Slot.CallWithResult("Nobody", "Echo", k, "x") })
			}
			zzvs.Settle()
			rest()
			zzvs.Down(h)
		})
	})
}

// several docks ask at the same time for what nobody has, and go: as if they had not come
func askersAtOnce(n int) Maker {
	return run(func() {
		setupHub()
		// one that does not ask comes and goes first
		Dock(Host(9), "first", ferry.Carry("A", &Feat{Id: "A"}, true))
		Up(Host(9))
		zzvs.Down(Host(9))
		before := remains(HubHost)
		var fs []*Feat
		for i := 0; i < n; i++ {
			f := &Feat{Id: "A"}
			fs = append(fs, f)
			Dock(Host(10+i), "a", ferry.Carry("A", f, true))
			Up(Host(10 + i))
		}
		for k := 0; k < 2*n; k++ {
			k := k
			zzvs.Go("asks", func() { fs[k%n].Slot.CallWithResult(fmt.Sprint("Nobody", k/n%2), "Echo", k, "x") })
		}
		zzvs.Settle()
		rest()
		for i := 0; i < n; i++ {
			zzvs.Down(Host(10 + i))
		}
		if m := remains(HubHost).more(before); m != "" {
			zzvs.Fail("left over", "after %d docks asked for what nobody has and went: %s", n, m)
		}
	})
}

// docks that ask for what nobody has yet, and get it
func answered(n int) Maker {
	return run(func() {
		y := setup()
		again(n, hosts(2), "features were awaited by both docks", func(i int) {
			h := Host(10 + i)
			name := fmt.Sprint("Late", i)
			f := &Feat{Id: name}
			left := 4
			for k := 0; k < 4; k++ {
				s := y.a.Slot
				if k%2 == 1 {
					s = y.b.Slot
				}
				k := k
				zzvs.Go("asks", func() {
					s.CallWithResult(name, "Echo", k, "x")
					left--
				})
			}
			zzvs.Settle()
			rest()
			Dock(h, name, ferry.Carry(name, f, true))
			zzvs.Await("answered", func() bool { return left == 0 })
			zzvs.Settle()
			zzvs.Down(h)
		})
	})
}

// a call waits for what nobody has while connections between docks are lost
func lostMeanwhile(n, waiting int) Maker {
	return run(func() {
		y := setup()
		for k := 0; k < waiting; k++ {
			zzvs.Go("asks", func() { y.a.Slot.CallWithResult("Nobody", "Echo", 1, "x") })
		}
		again(n, hosts(2), "a connection was lost while a call waited", func(i int) {
			y.a.Slot.CallWithResult("B", "Echo", i, "x")
			zzvs.Settle()
			zzvs.Break(Host(1), Host(2))
		})
	})
}

// a dock has been told of a dock that can't be dialed
func undialable(n int) Maker {
	return run(func() {
		y := setup()
		y.a.Slot.CallWithResult("B", "Echo", 1, "x")
		zzvs.Settle()
		// a stranger registers like a dock, and does not listen
		var reg []byte
		for _, c := range zzvs.W.Net.Conns {
			for _, e := range []*zzvs.Conn{c, c.Peer()} {
				if e.Host == Host(1) && e.RemoteHost == HubHost {
					reg = e.Wrote
				}
			}
		}
		again(n, hosts(2), "a dock that can't be dialed was called", func(i int) {
			zzvs.SetHost(stranger)
			c, err := zzvs.NetDial("tcp", HubAddr)
			if err != nil {
				return
			}
			c.Write(reg)
			zzvs.Settle()
			zzvs.Break(Host(1), Host(2))
			over := false
			zzvs.Go("asks", func() {
				y.a.Slot.CallWithResult("B", "Echo", i, "x")
				over = true
			})
			zzvs.Settle()
			zzvs.Sleep(100 * time.Millisecond)
			c.Close()
			zzvs.Await("answer", func() bool { return over })
			zzvs.Settle()
			zzvs.Break(Host(1), Host(2)) // there may be more than one
		})
	})
}

// a connection is closed by either side while packets wait to be sent
func backlog(n int, closer string, cap int) Maker {
	return run(func() {
		zzvs.W.ConnCap = cap
		zzvs.SetHost("10.0.0.90")
		ends := []string{Host(1), Host(2)}
		// what is left of sockets that had nothing to do
		round := func(n int) {
			up, down := &Sink{Who: "server"}, &Sink{Who: "client"}
			srv := Serve(Host(1), "len", up)
			var c network.ISocket
			dialed := false
			On(Host(2), "client", func() {
				c = Client(Host(1), "len", down)
				c.Dial()
				dialed = true
			})
			zzvs.Await("connection", func() bool { return dialed && len(up.Ends) == 1 && len(down.Ends) == 1 })
			over := 0
			On(Host(2), "sender", func() {
				for i := 0; i < n; i++ {
					c.Send(&Msg{From: "C", Seq: i, Size: 2})
				}
				if closer == "sender" {
					c.Close()
				}
				over++
			})
			On(Host(1), "other", func() {
				if closer == "receiver" {
					zzvs.Settle()
					srv.Close()
				}
				over++
			})
			zzvs.Await("done", func() bool { return over == 2 })
			srv.Close()
			c.Close()
			zzvs.Settle()
		}
		round(0)
		first := remains(ends...)
		round(n)
		if m := remains(ends...).more(first); m != "" {
			zzvs.Fail("left over", "after a connection with %d packets waiting was closed: %s", n, m)
		}
	})
}

// after Close nothing is left but what the features are carried by, and what waits for the interrupt
func closed(pending bool) Maker {
	return run(func() {
		zzvs.SetHost("10.0.0.90")
		before := zzvs.Alive("10.0.0.90")
		y := setup()
		y.a.Slot.CallWithResult("B", "Echo", 1, "x")
		y.b.Slot.CallWithResult("A", "Echo", 1, "x")
		if pending {
			zzvs.Go("asks", func() { y.a.Slot.CallWithResult("Nobody", "Echo", 1, "x") })
			zzvs.Go("asks", func() { y.b.Slot.CallWithResult("A", "Echo", 7, "x") })
		}
		for _, to := range places(HubHost, Host(1), Host(2)) {
			zzvs.SetHost(stranger)
			zzvs.NetDial("tcp", to)
		}
		zzvs.SetHost("10.0.0.90")
		zzvs.Settle()
		ferry.Close()
		remains(hosts(2)...) // at rest
		zzvs.Signal(os.Interrupt)
		l := remains(hosts(2)...)
		var lib []string
		for _, h := range hosts(2) {
			for _, g := range l.alive[h] {
				// Serve and Startup themselves are C25's
				if !strings.HasPrefix(g, "hub (") && !strings.HasPrefix(g, "dock ") {
					lib = append(lib, g+" on "+h)
				}
			}
			if l.conns[h] > 0 || len(l.ports[h]) > 0 {
				zzvs.Fail("left over", "after everything is closed: %d connections, ports %v on %s", l.conns[h], l.ports[h], h)
			}
		}
		lib = append(lib, beyond(zzvs.Alive("10.0.0.90"), before)...)
		if len(lib) > 2 {
			zzvs.Fail("left over", "after everything is closed, with two features: %s", strings.Join(lib, ", "))
		}
	})
}

// every round of n steps: calls of all kinds, docks that come, ask, are called and go (or whose
// connections break, or who go while called), strangers; done three times, it leaves what it left the first time
func rounds(n int) Maker {
	return run(func() {
		y := setup()
		y.a.Slot.CallWithResult("B", "Echo", 1, "x")
		y.b.Slot.CallWithResult("A", "Echo", 1, "x")
		var plan []int
		again(3, hosts(2), "a round", func(i int) {
			var there []*Feat
			at := map[*Feat]string{}
			come := func(name string) {
				f := &Feat{Id: name}
				h := Host(10)
				if len(there) > 0 && at[there[len(there)-1]] == h {
					h = Host(11)
				}
				Dock(h, "c", ferry.Carry(name, f, true))
				Up(h)
				there = append(there, f)
				at[f] = h
			}
			for k := 0; k < n; k++ {
				if i == 0 {
					opts := 6
					if len(there) < 2 {
						opts++
					}
					if len(there) > 0 {
						opts += 5
					}
					c := zzvs.Choose(opts)
					if len(there) == 2 && c >= 6 {
						c++
					}
					plan = append(plan, c)
				}
				switch plan[k] {
				case 0:
					y.a.Slot.CallWithResult("B", "Echo", i, "x")
				case 1:
					y.b.Slot.CallWithResult("B", "Echo", i, "x")
					y.b.Slot.Call("A", "Note", i)
				case 2:
					y.a.Slot.CallWithResult("B", "NoSuch", 1)
					y.b.Slot.CallWithResult("A", "Echo", "x")
				case 3:
					y.a.Slot.CallWithResult("B", "Echo", 7, "slow")
				case 4:
					for _, to := range places(hosts(2)...) {
						zzvs.SetHost(stranger)
						c, err := zzvs.NetDial("tcp", to)
						if err != nil {
							zzvs.Fail("gone", "%v", err)
							return
						}
						c.Write([]byte{9, 0, 0})
						zzvs.Settle()
						c.Close()
					}
				case 5:
					zzvs.Break(Host(1), Host(2))
				case 6:
					come([]string{"C", "D"}[len(there)])
				case 7: // the first one goes
					zzvs.Down(at[there[0]])
					there = there[1:]
				case 8: // called, and calls
					f := there[0]
					y.a.Slot.CallWithResult(f.Id, "Echo", i, "x")
					f.Slot.CallWithResult("B", "Echo", i, "x")
				case 9: // asks for what nobody has
					f := there[len(there)-1]
					zzvs.Go("asks", func() { f.Slot.CallWithResult("Nobody", "Echo", 1, "x") })
				case 10: // its connections to another dock break
					zzvs.Break(at[there[0]], Host(2))
				case 11: // goes while called
					f := there[len(there)-1]
					y.a.Slot.CallWithResult(f.Id, "Echo", i, "x")
					f.EchoWork = func(int) { zzvs.Sleep(time.Second / 2) }
					zzvs.Go("calls", func() { y.a.Slot.CallWithResult(f.Id, "Echo", 1, "x") })
					zzvs.Settle()
					zzvs.Down(at[f])
					there = there[:len(there)-1]
				}
				zzvs.Settle()
			}
			for _, f := range there {
				zzvs.Down(at[f])
			}
			zzvs.Settle()
		})
	})
}

func main() {
	var scs []*zzvs.Scenario
	add := func(name string, quick, thorough int, mk Maker, cfg ...func(w *zzvs.World)) {
		s := &zzvs.Scenario{Name: name, Quick: quick, Thorough: thorough, New: mk}
		s.Config = func(w *zzvs.World) { w.MaxSteps = 1 << 30; w.Net.KeepWrites = true }
		scs = append(scs, s)
	}
	add("calls-remote", 1, 2, calls("B", 3))
	add("calls-local", 2, 3, calls("A", 3))
	add("come-and-go", 2, 3, comeAndGo(3, zzvs.Down))
	add("goes-meanwhile", 2, 3, goesMeanwhile(2))
	add("dialers", 1, 2, dialers(3))
	add("askers", 2, 3, askers(3, 2))
	add("askers-at-once", 2, 3, askersAtOnce(2))
	add("askers-many", 1, 1, askersAtOnce(5))
	add("answered", 1, 2, answered(3))
	add("lost-meanwhile", 2, 3, lostMeanwhile(4, 2))
	add("undialable", 2, 3, undialable(3))
	for _, n := range []int{1, 20, 21} {
		for _, who := range []string{"sender", "receiver"} {
			add(fmt.Sprint("backlog-", n, "-", who), 2, 3, backlog(n, who, 0))
			add(fmt.Sprint("backlog-slow-", n, "-", who), 2, 3, backlog(n, who, 16))
		}
	}
	add("closed", 1, 2, closed(false))
	add("closed-pending", 1, 2, closed(true))
	for n := 1; n <= 5; n++ {
		q := 0
		if n < 5 {
			q = 9
		}
		add(fmt.Sprint("rounds-", n), q, 9, rounds(n))
		c := scs[len(scs)-1].Config
		scs[len(scs)-1].Config = func(w *zzvs.World) { c(w); w.Preempt = false }
	}
	zzvs.Main("C24", scs, []string{"a goroutine that carries a feature's calls may outlive Close: its slot does, too"})
}
