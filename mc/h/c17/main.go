// C17: hubs, docks, slots and sockets are free of data races under concurrent use.
//
// Accesses of the library that conflict and are not ordered by synchronization are violations.  The
// scenarios wait with Sleep, which orders nothing (what the harnesses of the other properties wait
// with would hide races).
package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/chancall"
	"github.com/muguangyi/ferry/misc"
	"github.com/muguangyi/ferry/network"
	. "github.com/muguangyi/ferry/zzharness/hk"
	"github.com/muguangyi/ferry/zzvs"
)

func sleep(ms int) { zzvs.Sleep(time.Duration(ms) * time.Millisecond) }

func hub(host string, port int, black ...int) {
	zzvs.Go("hub", func() {
		zzvs.SetHost(host)
		ferry.Serve(fmt.Sprintf("%s:%d", host, port), black...)
	})
}

// feature is a feature without a memory of its own.
type feature struct {
	up, down func(s ferry.ISlot)
	work     func(n int)
}

func (f *feature) OnStart(s ferry.ISlot) {
	if f.up != nil {
		f.up(s)
	}
}

func (f *feature) OnDestroy(s ferry.ISlot) {
	if f.down != nil {
		f.down(s)
	}
}

func (f *feature) Echo(n int, s string) (int, string) {
	if f.work != nil {
		f.work(n)
	}
	return n, s
}

func (f *feature) Pass(v interface{}, l []interface{}, m map[interface{}]interface{}) (interface{}, []interface{}, map[interface{}]interface{}) {
	return v, l, m
}

func (f *feature) Slow(ms int) { sleep(ms) }

// tally counts what came back.
type tally struct{ want, ok int }

func (t *tally) echo(s ferry.ISlot, name string, n int) {
	res, err := s.CallWithResult(name, "Echo", n, "x")
	if err == nil && len(res) == 2 {
		t.ok++
	}
}

func (t *tally) check(w *zzvs.World) {
	if t.ok != t.want {
		zzvs.Fail("calls", "%d of %d calls worked", t.ok, t.want)
	}
}

// docks with one feature each ("A", "B", ...); every feature calls all others from callers goroutines,
// from its start hook; they come up at the same time or (gap>0) one after the other
func calls(n, callers, gap int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		t := &tally{want: n * (n - 1) * callers}
		body := func() {
			hub(HubHost, HubPort)
			sleep(1)
			for i := 0; i < n; i++ {
				i := i
				f := &feature{up: func(s ferry.ISlot) {
					for c := 0; c < callers; c++ {
						c := c
						zzvs.Go("caller", func() {
							for j := 0; j < n; j++ {
								if j != i {
									t.echo(s, name(j), c)
								}
							}
						})
					}
				}}
				Dock(Host(i), name(i), ferry.Carry(name(i), f, true))
				if gap > 0 {
					sleep(gap)
				}
			}
		}
		return body, t.check
	}
}

func name(i int) string { return string(rune('A' + i)) }

// several features in one dock, some private, calling one another and out
func features() Maker {
	return func() (func(), func(w *zzvs.World)) {
		t := &tally{want: 8}
		body := func() {
			hub(HubHost, HubPort)
			sleep(1)
			to := func(names ...string) *feature {
				return &feature{up: func(s ferry.ISlot) {
					zzvs.Go("caller", func() {
						for i, n := range names {
							t.echo(s, n, i)
						}
					})
				}}
			}
			Dock(Host(0), "a", ferry.Carry("A", to("B", "C"), true), ferry.Carry("B", to("A", "D"), true), ferry.Carry("P", to("A"), false))
			Dock(Host(1), "b", ferry.Carry("C", to("A", "D"), true), ferry.Carry("D", to("C"), true))
		}
		return body, t.check
	}
}

// timeouts set while calls run, and calls that time out
func timeouts(remote bool, loops int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		returned := 0
		body := func() {
			hub(HubHost, HubPort)
			sleep(1)
			f := &feature{}
			b := ferry.Carry("B", f, true)
			u := &feature{up: func(s ferry.ISlot) {
				zzvs.Go("setter", func() {
					for i := 0; i < loops; i++ {
						b.SetTimeout("Slow", float32(i)+0.5)
						s.SetTimeout("Echo", 2)
					}
				})
				for i := 0; i < 2; i++ {
					i := i
					zzvs.Go("caller", func() {
						for k := 0; k < loops; k++ {
							s.Call("B", "Slow", 400+400*i)
							s.CallWithResult("B", "Echo", 1, "x")
							returned++
						}
					})
				}
			}}
			a := ferry.Carry("A", u, true)
			if remote {
				Dock(Host(0), "a", a)
				Dock(Host(1), "b", b)
			} else {
				Dock(Host(0), "a", a, b)
			}
		}
		return body, func(w *zzvs.World) {
			if returned != 2*loops {
				zzvs.Fail("calls", "%d of %d calls returned", returned, 2*loops)
			}
		}
	}
}

// visits and registrations from several goroutines
func visits(makerVisits bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		n := 0
		body := func() {
			hub(HubHost, HubPort)
			sleep(1)
			ferry.Register("X", func(s ferry.ISlot) interface{} {
				if makerVisits {
					s.Visit("Y")
				}
				return s
			})
			var ss []ferry.ISlot
			for i := 0; i < 2; i++ {
				i := i
				f := &feature{up: func(s ferry.ISlot) {
					for k := 0; k < 2; k++ {
						k := k
						zzvs.Go("visitor", func() {
							ferry.Register(fmt.Sprint("Y", i, k), func(s ferry.ISlot) interface{} { return s })
							for _, v := range []string{"X", "Y", "Z", fmt.Sprint("Y", i, k)} {
								if s.Visit(v) != nil {
									n++
								}
							}
						})
					}
				}}
				ss = append(ss, ferry.Carry(name(i), f, true))
			}
			ferry.Register("Y", func(s ferry.ISlot) interface{} { return s })
			Dock(Host(0), "a", ss...)
		}
		return body, func(w *zzvs.World) {
			if n != 12 {
				zzvs.Fail("visits", "%d visits found something", n)
			}
		}
	}
}

// Close after ms milliseconds, and for gap > 0 again, with calls, lookups and start-ups going on
func closing(ms, gap int, restart bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		done := false
		body := func() {
			hub(HubHost, HubPort)
			sleep(1)
			for i := 0; i < 2; i++ {
				i := i
				f := &feature{up: func(s ferry.ISlot) {
					zzvs.Go("caller", func() {
						for k := 0; k < 3; k++ {
							s.Call(name(1-i), "Slow", k)
						}
					})
					zzvs.Go("caller", func() { s.Call("Z", "Slow", 1) })
				}}
				Dock(Host(i), name(i), ferry.Carry(name(i), f, true))
			}
			sleep(ms)
			ferry.Close()
			if gap > 0 {
				sleep(gap)
				ferry.Close()
			}
			if restart {
				sleep(1)
				hub("10.0.0.77", HubPort)
				sleep(1)
				DockTo("10.0.0.77:9000", Host(5), "n", ferry.Carry("N", &feature{}, true))
				sleep(5)
				ferry.Close()
			}
			done = true
		}
		return body, func(w *zzvs.World) {
			if !done {
				zzvs.Fail("blocked", "Close did not return")
			}
		}
	}
}

// several hubs and docks started at once, and closed
func many(hubs, docks int, close bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		t := &tally{}
		body := func() {
			for h := 0; h < hubs; h++ {
				hub(fmt.Sprintf("10.0.%d.1", 1+h), HubPort, 20001+h)
			}
			sleep(1)
			for h := 0; h < hubs; h++ {
				for d := 0; d < docks; d++ {
					d := d
					f := &feature{}
					if !close && d == 0 {
						t.want++
						f.up = func(s ferry.ISlot) { zzvs.Go("caller", func() { t.echo(s, name(docks-1), 1) }) }
					}
					DockTo(fmt.Sprintf("10.0.%d.1:%d", 1+h, HubPort), fmt.Sprintf("10.0.%d.%d", 1+h, 10+d), "d", ferry.Carry(name(d), f, true))
				}
			}
			if close {
				sleep(2)
				ferry.Close()
			}
		}
		return body, t.check
	}
}

// providers go away while others look them up and call them
func leaving() Maker {
	return func() (func(), func(w *zzvs.World)) {
		body := func() {
			hub(HubHost, HubPort)
			sleep(1)
			Dock(Host(1), "b", ferry.Carry("B", &feature{}, true))
			Dock(Host(2), "c", ferry.Carry("B", &feature{}, true), ferry.Carry("C", &feature{}, true))
			sleep(5)
			f := &feature{up: func(s ferry.ISlot) {
				for i := 0; i < 2; i++ {
					zzvs.Go("caller", func() {
						for k := 0; k < 2; k++ {
							s.Call("B", "Slow", 1)
							s.Call("C", "Slow", 1)
						}
					})
				}
			}}
			Dock(Host(0), "a", ferry.Carry("A", f, true))
			sleep(1)
			zzvs.Go("down", func() { zzvs.Down(Host(2)) })
		}
		return body, func(w *zzvs.World) {}
	}
}

// arguments and results that are containers
func containers(remote bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		n := 0
		body := func() {
			hub(HubHost, HubPort)
			sleep(1)
			u := &feature{up: func(s ferry.ISlot) {
				for i := 0; i < 2; i++ {
					zzvs.Go("caller", func() {
						l := []interface{}{1, "a", []interface{}{2}}
						m := map[interface{}]interface{}{"a": 1}
						for k := 0; k < 2; k++ {
							res, err := s.CallWithResult("B", "Pass", l, l, m)
							if err == nil && len(res) == 3 {
								n++
							}
						}
					})
				}
			}}
			a, b := ferry.Carry("A", u, true), ferry.Carry("B", &feature{}, true)
			if remote {
				Dock(Host(0), "a", a)
				Dock(Host(1), "b", b)
			} else {
				Dock(Host(0), "a", a, b)
			}
		}
		return body, func(w *zzvs.World) {
			if n != 4 {
				zzvs.Fail("calls", "%d of 4 calls worked", n)
			}
		}
	}
}

// sink is a sink of the user without a memory of its own.
type sink struct {
	up, down func(p network.IPeer)
	msg      func(p network.IPeer, o interface{})
}

func (s *sink) OnConnected(p network.IPeer) {
	p.LocalAddr().String()
	p.RemoteAddr().String()
	p.IsSelf()
	if s.up != nil {
		s.up(p)
	}
}
func (s *sink) OnClosed(p network.IPeer) {
	p.RemoteAddr()
	if s.down != nil {
		s.down(p)
	}
}
func (s *sink) OnPacket(p network.IPeer, o interface{}) {
	p.IsSelf()
	if s.msg != nil {
		s.msg(p, o)
	}
}

// sockets: n clients, everyone sends (from two goroutines and from its callbacks), someone closes
func sockets(n int, mock bool, clientCloses, serverCloses int, extend bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		body := func() {
			if mock {
				network.Mock("tcp")
			}
			network.ExtendSerializer("len", LenSer{})
			reply := func(p network.IPeer) { p.Send(&Msg{From: "R"}) }
			var server network.ISocket
			ready := make(chan bool, 1)
			_ = ready
			zzvs.Go("server", func() {
				zzvs.SetHost("10.0.0.1")
				s := network.NewSocket("10.0.0.1:7000", "len", &sink{up: reply, down: reply})
				s.Listen()
				for i := 0; i < 2; i++ {
					zzvs.Go("server sender", func() {
						s.Send(&Msg{From: "S"})
						sleep(1)
						s.Send(&Msg{From: "S"})
					})
				}
				zzvs.Go("server closer", func() {
					switch serverCloses {
					case 1:
						s.Close()
					case 2:
						sleep(2)
						s.Close()
						s.Close()
					}
				})
				server = s
			})
			_ = server
			sleep(1)
			for i := 0; i < n; i++ {
				i := i
				zzvs.Go("client", func() {
					zzvs.SetHost(Host(i))
					if extend {
						network.ExtendSerializer(fmt.Sprint("len", i), LenSer{})
					}
					c := network.NewSocket("10.0.0.1:7000", "len", &sink{up: reply, msg: func(p network.IPeer, o interface{}) {
						if m, ok := o.(*Msg); ok && m.From == "S" {
							p.Send(&Msg{From: "Q"})
						}
					}})
					for k := 0; k < 2; k++ {
						zzvs.Go("client sender", func() {
							c.Send(&Msg{From: "C"})
							sleep(1)
							c.Send(&Msg{From: "C"})
						})
					}
					zzvs.Go("client closer", func() {
						switch clientCloses {
						case 1:
							c.Close()
						case 2:
							sleep(1)
							c.Close()
						case 3:
							zzvs.Go("closer", func() { c.Close() })
							c.Close()
						}
					})
					c.TryDial()
				})
			}
		}
		return body, func(w *zzvs.World) {}
	}
}

// sockets of different goroutines opened at the same time
func sameTime(n int, mock bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		body := func() {
			if mock {
				network.Mock("tcp")
			}
			for i := 0; i < n; i++ {
				i := i
				zzvs.Go("opener", func() {
					zzvs.SetHost("10.0.0.1")
					network.ExtendSerializer(fmt.Sprint("len", i), LenSer{})
					s := network.NewSocket(fmt.Sprintf("10.0.0.1:%d", 7000+i), fmt.Sprint("len", i), &sink{})
					s.Listen()
					c := network.NewSocket(fmt.Sprintf("10.0.0.1:%d", 7000+i), fmt.Sprint("len", i), &sink{})
					c.Dial()
					c.Send(&Msg{From: "C"})
					sleep(1)
					c.Close()
					s.Close()
				})
			}
		}
		return body, func(w *zzvs.World) {}
	}
}

// callers of one callee, and its timeouts
func chans(callers int, timeouts bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		n := 0
		body := func() {
			c := chancall.NewCallee("c", &feature{})
			for i := 0; i < callers; i++ {
				i := i
				zzvs.Go("caller", func() {
					x := chancall.NewCaller(c)
					for k := 0; k < 2; k++ {
						if timeouts {
							x.Call("Slow", 500+1000*i)
						}
						x.CallWithResult("Echo", i, "x")
						x.Call("Nobody")
						c.Name()
						n++
					}
				})
			}
			zzvs.Go("setter", func() {
				c.SetTimeout("Echo", 2)
				c.SetTimeout("Slow", 0.75)
				c.SetTimeout("Nobody", 0.75)
				c.SetTimeout("Slow", 0.25)
			})
		}
		return body, func(w *zzvs.World) {
			if n != 2*callers {
				zzvs.Fail("calls", "%d of %d callers' rounds finished", n, 2*callers)
			}
		}
	}
}

// sets of different goroutines have nothing in common
func sets() Maker {
	return func() (func(), func(w *zzvs.World)) {
		body := func() {
			for i := 0; i < 2; i++ {
				zzvs.Go("user", func() {
					s := misc.NewSet()
					s.Add(1)
					s.Add(2)
					s.Remove(1)
					s.ToSlice()
				})
			}
		}
		return body, func(w *zzvs.World) {}
	}
}

func main() {
	var scs []*zzvs.Scenario
	mk := func(name string, q, t int, m Maker, cfg ...func(w *zzvs.World)) {
		scs = append(scs, &zzvs.Scenario{Name: name, Quick: q, Thorough: t, New: m, Races: true, CrashOK: strings.HasPrefix(name, "close") || strings.HasSuffix(name, "close"), Config: func(w *zzvs.World) {
			for _, c := range cfg {
				c(w)
			}
		}})
	}
	mk("calls-2-1", 2, 2, calls(2, 1, 0))
	mk("calls-2-2", 1, 2, calls(2, 2, 0))
	mk("calls-2-2-in-turn", 1, 2, calls(2, 2, 5))
	mk("calls-3-1", 1, 2, calls(3, 1, 0))
	mk("calls-3-2", 1, 1, calls(3, 2, 0))
	mk("features", 1, 2, features())
	mk("timeouts-local", 2, 3, timeouts(false, 2))
	mk("timeouts-remote", 1, 2, timeouts(true, 2))
	mk("visits", 2, 2, visits(false))
	mk("visits-in-makers", 1, 2, visits(true))
	for _, ms := range []int{0, 1, 2, 3} {
		mk(fmt.Sprint("close-after-", ms), 1, 2, closing(ms, 0, false))
	}
	mk("close-twice", 1, 2, closing(1, 1, false))
	mk("close-restart", 1, 2, closing(2, 0, true))
	mk("hubs", 1, 2, many(2, 1, false))
	mk("hubs-docks", 1, 1, many(2, 2, false))
	mk("hubs-docks-close", 1, 1, many(2, 2, true))
	mk("leaving", 1, 2, leaving())
	mk("containers-local", 1, 2, containers(false))
	mk("containers-remote", 1, 2, containers(true))
	for _, m := range []bool{false, true} {
		x := map[bool]string{false: "sockets", true: "mock"}[m]
		mk(x+"-1", 1, 2, sockets(1, m, 0, 0, false))
		mk(x+"-2", 1, 1, sockets(2, m, 0, 0, true))
		mk(x+"-client-closes", 1, 2, sockets(1, m, 1, 0, false))
		mk(x+"-client-closes-later", 1, 2, sockets(1, m, 2, 0, false))
		mk(x+"-client-closes-twice", 1, 2, sockets(1, m, 3, 0, false))
		mk(x+"-server-closes", 1, 2, sockets(2, m, 0, 1, false))
		mk(x+"-server-closes-later", 1, 2, sockets(2, m, 0, 2, false))
		mk(x+"-both-close", 1, 2, sockets(1, m, 2, 2, false))
		mk(x+"-same-time-2", 1, 2, sameTime(2, m))
		mk(x+"-same-time-3", 1, 1, sameTime(3, m))
	}
	mk("callers-2", 2, 3, chans(2, false))
	mk("callers-2-timeouts", 2, 3, chans(2, true))
	mk("callers-3", 1, 2, chans(3, true))
	mk("sets", 1, 2, sets())
	zzvs.Main("C17", scs, []string{"races within the user's own code and data are not looked at"})
}
