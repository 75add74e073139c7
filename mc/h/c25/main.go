// C25: Serve and Startup run until the process is interrupted, and only then return.
package main

import (
	"fmt"
	"os"
	"syscall"
	"time"

	"github.com/muguangyi/ferry"
	. "github.com/muguangyi/ferry/zzharness/hk"
	"github.com/muguangyi/ferry/zzvs"
)

// prog is a process that runs some hubs and docks, each in a goroutine like the main of the README: it
// calls Serve or Startup, and then Close.
type prog struct {
	n        int
	returned []string
	feats    []*Feat
	hosts    []string
	expect   bool // an interrupt was sent
	closes   bool
}

func (p *prog) back(who string) {
	p.returned = append(p.returned, who)
	zzvs.Event(who + " returned")
	if !p.expect {
		zzvs.Fail("returned", "%s returned though the process was not interrupted", who)
	}
	if p.closes {
		ferry.Close()
	}
}

func (p *prog) hub(host string) {
	p.n++
	p.hosts = append(p.hosts, host)
	zzvs.Go("hub", func() {
		zzvs.SetHost(host)
		ferry.Serve(fmt.Sprintf("%s:%d", host, HubPort))
		p.back("hub")
	})
	zzvs.Await("hub listening", func() bool { return Listening(host, HubPort) })
}

func (p *prog) dock(hub, host, name string) *Feat {
	p.n++
	f := &Feat{Id: name}
	p.feats = append(p.feats, f)
	p.hosts = append(p.hosts, host)
	zzvs.Go("dock "+name, func() {
		zzvs.SetHost(host)
		ferry.Startup(fmt.Sprintf("%s:%d", hub, HubPort), name, ferry.Carry(name, f, true))
		p.back(name)
	})
	return f
}

// ready: all of them wait for an interrupt
func (p *prog) ready() {
	zzvs.Await("all wait", func() bool { return zzvs.SigWaits(os.Interrupt) >= p.n })
}

func (p *prog) interrupt() {
	p.expect = true
	zzvs.Signal(os.Interrupt)
}

// noise: signals that do not end a process
func noise() {
	for _, s := range []os.Signal{syscall.SIGWINCH, syscall.SIGCHLD, syscall.SIGURG, syscall.SIGCONT, syscall.SIGPIPE} {
		zzvs.Signal(s)
	}
}

func (p *prog) over(w *zzvs.World) {
	if len(p.returned) != p.n {
		zzvs.Fail("did not return", "%d of %d returned after the interrupt: %v", len(p.returned), p.n, p.returned)
	}
	if !p.closes {
		return
	}
	for _, f := range p.feats {
		if f.Stopped != 1 {
			zzvs.Fail("destroyed", "%s was destroyed %d times", f.Id, f.Stopped)
		}
	}
	for _, h := range p.hosts {
		if l := w.Net.OpenListeners(h); len(l) > 0 {
			zzvs.Fail("left open", "%s still listens on %v", h, l)
		}
		if c := w.Net.OpenConns(h); len(c) > 0 {
			zzvs.Fail("left open", "connections are still open: %v", c)
		}
	}
}

// system: a hub and docks; the interrupt comes when they are at rest (after a long silence), or as soon
// as all wait for it, while calls are made
func system(docks int, rest, closes bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		p := &prog{closes: closes}
		body := func() {
			p.hub(HubHost)
			for i := 0; i < docks; i++ {
				i := i
				f := p.dock(HubHost, Host(i), fmt.Sprint("F", i))
				f.OnUp = func(s ferry.ISlot) {
					zzvs.Go("call", func() {
						res, err := s.CallWithResult(fmt.Sprint("F", (i+1)%docks), "Echo", i, "x")
						if rest && (err != nil || len(res) != 2) {
							zzvs.Fail("call", "%v %v", res, err)
						}
					})
				}
			}
			if rest {
				Silence()
				noise()
				zzvs.Settle()
			} else {
				p.ready()
			}
			p.interrupt()
		}
		return body, func(w *zzvs.World) {
			p.over(w)
			w.Outcome = fmt.Sprint(p.returned)
		}
	}
}

// only: n of one kind, nothing else
func only(hubs, docks int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		p := &prog{closes: true}
		body := func() {
			for i := 0; i < hubs; i++ {
				p.hub(fmt.Sprintf("10.0.2.%d", i+1))
			}
			for i := 0; i < docks; i++ {
				p.dock("10.0.2.1", Host(i), fmt.Sprint("F", i))
			}
			p.ready()
			noise()
			zzvs.Sleep(time.Minute)
			noise()
			zzvs.Settle()
			if len(p.returned) > 0 {
				return
			}
			p.interrupt()
		}
		return body, func(w *zzvs.World) {
			p.over(w)
			w.Outcome = fmt.Sprint(p.returned)
		}
	}
}

// early: interrupts may come before all wait for one; those that don't, wait for the next
func early(docks int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		p := &prog{}
		body := func() {
			p.hub(HubHost)
			zzvs.Go("interrupt", func() {
				zzvs.Await("one waits", func() bool { return zzvs.SigWaits(os.Interrupt) > 0 })
				p.interrupt()
				zzvs.Settle()
				p.interrupt()
			})
			for i := 0; i < docks; i++ {
				p.dock(HubHost, Host(i), fmt.Sprint("F", i))
			}
		}
		return body, func(w *zzvs.World) {
			p.over(w)
			w.Outcome = fmt.Sprint(p.returned)
		}
	}
}

// right: the interrupt comes as soon as it was asked for
func right() Maker {
	return func() (func(), func(w *zzvs.World)) {
		p := &prog{}
		body := func() {
			zzvs.Go("interrupt", func() {
				zzvs.Await("asked", func() bool { return zzvs.SigWaits(os.Interrupt) > 0 })
				noise()
				p.interrupt()
			})
			p.hub(HubHost)
		}
		return body, func(w *zzvs.World) {
			p.over(w)
			w.Outcome = fmt.Sprint(p.returned)
		}
	}
}

// again: after all have returned and are closed, a second system runs until the next interrupt
func again() Maker {
	return func() (func(), func(w *zzvs.World)) {
		p, q := &prog{closes: true}, &prog{closes: true}
		body := func() {
			p.hub(HubHost)
			p.dock(HubHost, Host(0), "A")
			p.ready()
			zzvs.Settle()
			p.interrupt()
			zzvs.Settle()
			p.over(zzvs.W)
			was := zzvs.SigWaits(os.Interrupt)
			q.hub("10.0.0.2")
			q.dock("10.0.0.2", Host(1), "B")
			zzvs.Await("all wait", func() bool { return zzvs.SigWaits(os.Interrupt) >= was+q.n || zzvs.SigWaits(os.Interrupt) == q.n })
			Silence()
			q.interrupt()
		}
		return body, func(w *zzvs.World) {
			q.over(w)
			w.Outcome = fmt.Sprint(p.returned, q.returned)
		}
	}
}

func main() {
	var scs []*zzvs.Scenario
	mk := func(name string, q, t int, m Maker) {
		scs = append(scs, &zzvs.Scenario{Name: name, Quick: q, Thorough: t, New: m})
	}
	mk("one-hub", 3, 5, only(1, 0))
	mk("two-hubs", 2, 4, only(2, 0))
	mk("hub-and-dock", 2, 3, only(1, 1))
	mk("hub-and-docks", 1, 2, only(1, 3))
	mk("at-rest", 1, 2, system(2, true, true))
	mk("calls", 2, 2, system(2, false, true))
	mk("calls-3", 1, 2, system(3, false, true))
	mk("not-closed", 1, 2, system(2, false, false))
	mk("early-1", 2, 3, early(1))
	mk("early-2", 2, 3, early(2))
	mk("right", 3, 5, right())
	mk("again", 1, 2, again())
	zzvs.Main("C25", scs, []string{"the interrupt comes after Serve or Startup has asked to be told of it"})
}
