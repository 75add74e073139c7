// C09: calls always complete, in any start-up order, without deadlock or crash.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/muguangyi/ferry"
	. "github.com/muguangyi/ferry/zzharness/hk"
	"github.com/muguangyi/ferry/zzvs"
)

// plan is a start-up order: "A>B" is a dock carrying A that calls B from its start hook, "AB>C>A"
// carries A and B, both of which call C and then A; "|" separates docks; "~" before a dock makes it
// start late (when all the others have come to rest).
func plan(p string, goroutines bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		feats := map[string]*Feat{}
		cs := &Calls{}
		want := 0
		type dk struct {
			host, name string
			late       bool
			slots      []ferry.ISlot
		}
		type spec struct {
			f     *Feat
			calls []string
		}
		var specs []spec
		var docks []func() dk
		for i, d := range strings.Split(p, "|") {
			i := i
			late := strings.HasPrefix(d, "~")
			d = strings.TrimPrefix(d, "~")
			parts := strings.Split(d, ">")
			var fs []*Feat
			for _, c := range parts[0] {
				f := &Feat{Id: string(c)}
				feats[f.Id] = f
				fs = append(fs, f)
				specs = append(specs, spec{f, parts[1:]})
				want += len(parts) - 1
			}
			docks = append(docks, func() dk {
				x := dk{host: Host(i), name: fmt.Sprint("d", i), late: late}
				for _, f := range fs {
					x.slots = append(x.slots, ferry.Carry(f.Id, f, true))
				}
				return x
			})
		}
		body := func() {
			for n, s := range specs {
				n, s := n, s
				s.f.OnUp = func(sl ferry.ISlot) {
					for k, c := range s.calls {
						k, c := k, c
						if goroutines {
							zzvs.Go("call", func() { cs.Echo(sl, s.f.Id, c, 10*n+k, "x") })
						} else {
							cs.Echo(sl, s.f.Id, c, 10*n+k, "x")
						}
					}
				}
			}
			Hub()
			for _, mk := range docks {
				d := mk()
				if d.late {
					zzvs.Settle()
				}
				Dock(d.host, d.name, d.slots...)
			}
		}
		return body, func(w *zzvs.World) {
			for _, f := range feats {
				if f.Started != 1 {
					zzvs.Fail("not started", "%s was started %d times", f.Id, f.Started)
				}
			}
			if c := cs.AllReturned(); c != "" {
				zzvs.Fail("never returns", "%s", c)
			}
			cs.Made(want)
			cs.CheckOnce(feats)
			NoRefused(w)
			w.Outcome = cs.Outcome()
		}
	}
}

// methods calling other features, wherever these are: A calls B whose method calls C whose
// method calls ...
func chain(docks string) Maker {
	return func() (func(), func(w *zzvs.World)) {
		feats := map[string]*Feat{}
		cs := &Calls{}
		slots := map[string]ferry.ISlot{}
		var names []string
		for _, d := range strings.Split(docks, "|") {
			for _, c := range d {
				feats[string(c)] = &Feat{Id: string(c)}
				names = append(names, string(c))
			}
		}
		sort.Strings(names)
		body := func() {
			for i, n := range names {
				f := feats[n]
				if i == 0 {
					f.OnUp = func(s ferry.ISlot) { cs.Echo(s, "A", names[1], 0, "x") }
				} else if i+1 < len(names) {
					next := names[i+1]
					tag := i
					f.EchoWork = func(int) {
						// Not f.Slot: the start hooks of a dock run one after another.
						cs.Echo(slots[f.Id], f.Id, next, tag, "x")
					}
				}
			}
			Hub()
			for i, d := range strings.Split(docks, "|") {
				var sl []ferry.ISlot
				for _, c := range d {
					slots[string(c)] = ferry.Carry(string(c), feats[string(c)], true)
					sl = append(sl, slots[string(c)])
				}
				Dock(Host(i), fmt.Sprint("d", i), sl...)
			}
		}
		return body, func(w *zzvs.World) {
			if c := cs.AllReturned(); c != "" {
				zzvs.Fail("never returns", "%s", c)
			}
			cs.Made(len(names) - 1)
			cs.CheckOnce(feats)
			w.Outcome = cs.Outcome()
		}
	}
}

// calls go on when the newest provider's host is gone
func gone(when int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		a, b1, b2 := &Feat{Id: "A"}, &Feat{Id: "B1"}, &Feat{Id: "B2"}
		cs := &Calls{}
		body := func() {
			Hub()
			Dock(Host(1), "b1", ferry.Carry("B", b1, true))
			Up(Host(1))
			Dock(Host(2), "b2", ferry.Carry("B", b2, true))
			Up(Host(2))
			Dock(Host(3), "a", ferry.Carry("A", a, true))
			Up(Host(3))
			switch when {
			case 0: // never called
			case 1: // connected
				cs.Echo(a.Slot, "A", "B", 1, "x")
				zzvs.Settle()
			}
			zzvs.Down(Host(2))
			zzvs.Settle()
			cs.Echo(a.Slot, "A", "B", 2, "y")
		}
		return body, func(w *zzvs.World) {
			for i, x := range cs.L {
				ids := []string{"B1"}
				if when == 1 && i == 0 {
					ids = []string{"B2"}
				}
				if g := x.Good(ids...); g != "" {
					zzvs.Fail("after a dock is gone", "%s: %s", x.Desc(), g)
				}
			}
			w.Outcome = cs.Outcome(b1, b2)
		}
	}
}

// the provider's host goes away at any moment of a lookup and a newer provider comes later:
// nothing crashes, and a call made afterwards is served
func flaky() Maker {
	return func() (func(), func(w *zzvs.World)) {
		a, b1, b2 := &Feat{Id: "A"}, &Feat{Id: "B1"}, &Feat{Id: "B2"}
		cs, late := &Calls{}, &Calls{}
		body := func() {
			Hub()
			Dock(Host(1), "b1", ferry.Carry("B", b1, true))
			Up(Host(1))
			Dock(Host(3), "a", ferry.Carry("A", a, true))
			Up(Host(3))
			zzvs.Go("down", func() { zzvs.Down(Host(1)) })
			zzvs.Go("early", func() { cs.Echo(a.Slot, "A", "B", 1, "x") })
			zzvs.Settle()
			Dock(Host(2), "b2", ferry.Carry("B", b2, true))
			Up(Host(2))
			late.Echo(a.Slot, "A", "B", 2, "y")
		}
		return body, func(w *zzvs.World) {
			for _, x := range late.L {
				if g := x.Good("B2"); g != "" {
					zzvs.Fail("after a dock is gone", "%s: %s", x.Desc(), g)
				}
			}
			late.Made(1)
			w.Outcome = cs.Outcome() + late.Outcome(b1, b2)
		}
	}
}

// allToAll is a plan of n features, k in a dock, each calling all the others.
func allToAll(n, k int) string {
	var docks []string
	for i := 0; i < n; i += k {
		d := ""
		for j := i; j < i+k; j++ {
			d += string(rune('A' + j))
		}
		for j := 0; j < n; j++ {
			if j < i || j >= i+k {
				d += ">" + string(rune('A'+j))
			}
		}
		docks = append(docks, d)
	}
	return strings.Join(docks, "|")
}

func far(w *zzvs.World) { w.MaxSteps = 1 << 30 }

func main() {
	zzvs.Main("C09", []*zzvs.Scenario{
		{Name: "mutual", Quick: 2, Thorough: 3, New: plan("A>B|B>A", false)},
		{Name: "mutual-goroutines", Quick: 1, Thorough: 2, New: plan("A>B>B|B>A", true)},
		{Name: "provider-late", Quick: 2, Thorough: 3, New: plan("A>B|~B", false)},
		{Name: "two-wait-for-late", Quick: 1, Thorough: 2, New: plan("A>C|B>C|~C", true)},
		{Name: "caller-late", Quick: 2, Thorough: 3, New: plan("B|~A>B>B", false)},
		{Name: "own-and-other", Quick: 1, Thorough: 2, New: plan("AB>C|C>A>B", true)},
		{Name: "same-dock", Quick: 2, Thorough: 3, New: plan("AB>A>B", true)},
		{Name: "ring", Quick: 1, Thorough: 2, New: plan("A>B|B>C|C>A", false)},
		{Name: "ring-late", Quick: 1, Thorough: 2, New: plan("A>B|~B>C|~C>A", false)},
		{Name: "all-to-all", Quick: 1, Thorough: 2, New: plan("A>B>C|B>C>A|C>A>B", true)},
		{Name: "four", Quick: 1, Thorough: 1, New: plan("A>B>D|B>D|C>A>D|D>C", true)},
		{Name: "chain-remote", Quick: 1, Thorough: 2, New: chain("A|B|C")},
		{Name: "chain-local", Quick: 2, Thorough: 3, New: chain("ABC")},
		{Name: "chain-back", Quick: 1, Thorough: 2, New: chain("AC|B")},
		{Name: "chain-back-and-forth", Quick: 1, Thorough: 2, New: chain("AC|BD")},
		{Name: "chain-zigzag", Quick: 1, Thorough: 1, New: chain("ADF|BE|C")},
		{Name: "chain-long", Quick: 0, Thorough: 1, New: chain("A|B|C|D|E|F|G|H|I|J"), Config: far},
		{Name: "chain-long-local", Quick: 0, Thorough: 1, New: chain("ABCDEFGHIJKLMNOPQRSTUVWXYZ"), Config: far},
		{Name: "chain-long-zigzag", Quick: 0, Thorough: 1, New: chain("ACEGIKMOQSU|BDFHJLNPRTV"), Config: far},
		{Name: "many-docks", Quick: 0, Thorough: 0, New: plan(allToAll(16, 1), true), Config: far},
		{Name: "many-docks-in-turn", Quick: 0, Thorough: 0, New: plan("~"+strings.ReplaceAll(allToAll(16, 1), "|", "|~"), true), Config: far},
		{Name: "many-docks-waiting", Quick: 0, Thorough: 0, New: plan(allToAll(16, 1), false), Config: far},
		{Name: "many-features", Quick: 0, Thorough: 0, New: plan(allToAll(24, 4), true), Config: far},
		{Name: "newest-gone-before", Quick: 1, Thorough: 2, New: gone(0)},
		{Name: "newest-gone-after", Quick: 1, Thorough: 2, New: gone(1)},
		{Name: "gone-at-any-moment", Quick: 2, Thorough: 3, New: flaky()},
	}, []string{"called methods return within their timeout", "the hub's host stays up; dock hosts stay up except in the scenarios about hosts going down"})
}
