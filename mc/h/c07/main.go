// C07: lookups reach only ready docks that announced the feature, newest first.
package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/muguangyi/ferry"
	. "github.com/muguangyi/ferry/zzharness/hk"
	"github.com/muguangyi/ferry/zzvs"
)

// providers come up one after another, each at rest before the next; the caller comes before or
// after them; calls go to the newest dock that announced exactly that feature.
//
// A dock serving one of the called features must not carry another one it does not serve: once
// connected to it, the caller needs no lookup.
//
// layout: docks separated by "|", features of a dock separated by ","; want maps a feature to the
// index of the dock that has to serve it.
func newest(layout string, callerFirst bool, sameHost bool, want map[string]int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		a := &Feat{Id: "A"}
		cs := &Calls{}
		var ds [][]*Feat
		for i, d := range strings.Split(layout, "|") {
			var fs []*Feat
			for _, n := range strings.Split(d, ",") {
				fs = append(fs, &Feat{Id: n + "@" + strconv.Itoa(i)})
			}
			ds = append(ds, fs)
		}
		host := func(i int) string {
			if sameHost {
				return Host(50)
			}
			return Host(i + 1)
		}
		body := func() {
			Hub()
			if callerFirst {
				Dock(Host(0), "a", ferry.Carry("A", a, true))
				Up(Host(0))
			}
			for i, fs := range ds {
				var sl []ferry.ISlot
				for _, f := range fs {
					sl = append(sl, ferry.Carry(strings.Split(f.Id, "@")[0], f, true))
				}
				Dock(host(i), fmt.Sprint("d", i), sl...)
				Up(host(i))
			}
			if !callerFirst {
				Dock(Host(0), "a", ferry.Carry("A", a, true))
				Up(Host(0))
			}
			var names []string
			for name := range want {
				names = append(names, name)
			}
			sort.Strings(names)
			for _, name := range names {
				name := name
				zzvs.Go("call "+name, func() {
					cs.Echo(a.Slot, "A", name, 1, "x")
					cs.Echo(a.Slot, "A", name, 2, "y")
				})
			}
		}
		return body, func(w *zzvs.World) {
			cs.Made(2 * len(want))
			for _, x := range cs.L {
				if g := x.Good(x.Name + "@" + strconv.Itoa(want[x.Name])); g != "" {
					zzvs.Fail("served by", "%s: %s (expected from dock %d)", x.Desc(), g, want[x.Name])
				}
			}
			NoRefused(w)
			w.Outcome = cs.Outcome()
		}
	}
}

// everything starts at once: calls are served by some dock that carries exactly the feature, every
// dial finds a listener, every lookup is answered
func atOnce(layout string, calls ...string) Maker {
	return func() (func(), func(w *zzvs.World)) {
		cs := &Calls{}
		callers := map[string]*Feat{}
		var ds [][]*Feat
		var callerList []string
		for _, c := range calls {
			k := strings.Split(c, ">")[0]
			if callers[k] == nil {
				callers[k] = &Feat{Id: k}
				callerList = append(callerList, k)
			}
		}
		for i, d := range strings.Split(layout, "|") {
			var fs []*Feat
			for _, n := range strings.Split(d, ",") {
				fs = append(fs, &Feat{Id: n + "@" + strconv.Itoa(i)})
			}
			ds = append(ds, fs)
		}
		body := func() {
			for _, c := range callerList {
				c := c
				callers[c].OnUp = func(s ferry.ISlot) {
					for i, k := range calls {
						i, p := i, strings.Split(k, ">")
						if p[0] == c {
							zzvs.Go("call", func() { cs.Echo(s, c, p[1], i, "x") })
						}
					}
				}
			}
			Hub()
			for i, c := range callerList {
				Dock(Host(20+i), c, ferry.Carry(c, callers[c], true))
			}
			for i, fs := range ds {
				var sl []ferry.ISlot
				for _, f := range fs {
					sl = append(sl, ferry.Carry(strings.Split(f.Id, "@")[0], f, true))
				}
				Dock(Host(i), fmt.Sprint("d", i), sl...)
			}
		}
		return body, func(w *zzvs.World) {
			cs.Made(len(calls))
			for _, x := range cs.L {
				var ids []string
				for _, fs := range ds {
					for _, f := range fs {
						if strings.Split(f.Id, "@")[0] == x.Name {
							ids = append(ids, f.Id)
						}
					}
				}
				if g := x.Good(ids...); g != "" {
					zzvs.Fail("served by", "%s: %s", x.Desc(), g)
				}
			}
			NoRefused(w)
			w.Outcome = cs.Outcome()
		}
	}
}

// providers on one host start at once (either may count as registered last); the lookup made when
// all are ready leads to one of them
func sameHostRace(n int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		a := &Feat{Id: "A"}
		cs := &Calls{}
		var fs []*Feat
		for i := 0; i < n; i++ {
			fs = append(fs, &Feat{Id: fmt.Sprint("B", i)})
		}
		body := func() {
			Hub()
			for i, f := range fs {
				Dock(Host(1), fmt.Sprint("b", i), ferry.Carry("B", f, true))
			}
			Dock(Host(2), "a", ferry.Carry("A", a, true))
			zzvs.Await("all started", func() bool {
				for _, f := range fs {
					if f.Started == 0 {
						return false
					}
				}
				return a.Started > 0
			})
			zzvs.Settle()
			cs.Echo(a.Slot, "A", "B", 1, "x")
		}
		return body, func(w *zzvs.World) {
			cs.Made(1)
			var ids []string
			for _, f := range fs {
				ids = append(ids, f.Id)
			}
			if g := cs.L[0].Good(ids...); g != "" {
				zzvs.Fail("served by", "%s", g)
			}
			NoRefused(w)
			w.Outcome = cs.Outcome()
		}
	}
}

// a newer provider registers while the lookup is made: whoever serves, it listens
func newerComing() Maker {
	return func() (func(), func(w *zzvs.World)) {
		a, b1, b2 := &Feat{Id: "A"}, &Feat{Id: "B1"}, &Feat{Id: "B2"}
		cs := &Calls{}
		body := func() {
			Hub()
			Dock(Host(1), "b1", ferry.Carry("B", b1, true))
			Up(Host(1))
			Dock(Host(3), "a", ferry.Carry("A", a, true))
			Up(Host(3))
			Dock(Host(2), "b2", ferry.Carry("B", b2, true))
			zzvs.Go("call", func() { cs.Echo(a.Slot, "A", "B", 1, "x") })
		}
		return body, func(w *zzvs.World) {
			cs.Made(1)
			if g := cs.L[0].Good("B1", "B2"); g != "" {
				zzvs.Fail("served by", "%s: %s", cs.L[0].Desc(), g)
			}
			NoRefused(w)
			w.Outcome = cs.Outcome()
		}
	}
}

// a lookup nobody will ever answer does not hold up the others
func neverProvided() Maker {
	return func() (func(), func(w *zzvs.World)) {
		a, b := &Feat{Id: "A"}, &Feat{Id: "B"}
		cs, never := &Calls{}, &Calls{}
		body := func() {
			a.OnUp = func(s ferry.ISlot) {
				zzvs.Go("never", func() { never.Echo(s, "A", "Z", 9, "x") })
				zzvs.Go("call", func() { cs.Echo(s, "A", "B", 1, "x"); cs.Echo(s, "A", "B", 2, "x") })
			}
			Hub()
			Dock(Host(1), "a", ferry.Carry("A", a, true))
			Dock(Host(2), "b", ferry.Carry("B", b, true))
		}
		return body, func(w *zzvs.World) {
			cs.Made(2)
			cs.CheckOnce(map[string]*Feat{"B": b})
			for _, x := range never.L {
				if x.Returned && x.Err == nil {
					zzvs.Fail("served by", "%s was served: %v", x.Desc(), x.Res)
				}
			}
			NoRefused(w)
		}
	}
}

// the newest ready provider's host is gone when the lookup is made
func newestGone(n int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		a := &Feat{Id: "A"}
		cs := &Calls{}
		var fs []*Feat
		body := func() {
			Hub()
			for i := 0; i < n; i++ {
				f := &Feat{Id: fmt.Sprint("B", i)}
				fs = append(fs, f)
				Dock(Host(i), fmt.Sprint("b", i), ferry.Carry("B", f, true))
				Up(Host(i))
			}
			Dock(Host(30), "a", ferry.Carry("A", a, true))
			Up(Host(30))
			for i := n - 1; i > 0; i-- {
				zzvs.Down(Host(i))
				zzvs.Settle()
			}
			cs.Echo(a.Slot, "A", "B", 1, "x")
		}
		return body, func(w *zzvs.World) {
			cs.Made(1)
			if g := cs.L[0].Good("B0"); g != "" {
				zzvs.Fail("served by", "%s: %s", cs.L[0].Desc(), g)
			}
			NoRefused(w)
		}
	}
}

// docks that have been there for long are still found, the newest first
func longAgo() Maker {
	return func() (func(), func(w *zzvs.World)) {
		a, b1, b2, e := &Feat{Id: "A"}, &Feat{Id: "B1"}, &Feat{Id: "B2"}, &Feat{Id: "E"}
		cs := &Calls{}
		body := func() {
			Hub()
			Dock(Host(1), "b1", ferry.Carry("B", b1, true))
			Up(Host(1))
			Silence()
			Dock(Host(2), "b2", ferry.Carry("B", b2, true))
			Up(Host(2))
			Dock(Host(3), "a", ferry.Carry("A", a, true))
			Up(Host(3))
			Silence()
			cs.Echo(a.Slot, "A", "B", 1, "x")
			Silence()
			Dock(Host(4), "e", ferry.Carry("E", e, true))
			Up(Host(4))
			cs.Echo(e.Slot, "E", "B", 2, "x")
			cs.Echo(e.Slot, "E", "A", 3, "x")
		}
		return body, func(w *zzvs.World) {
			cs.Made(3)
			for i, who := range []string{"B2", "B2", "A"} {
				if g := cs.L[i].Good(who); g != "" {
					zzvs.Fail("served by", "%s: %s", cs.L[i].Desc(), g)
				}
			}
			NoRefused(w)
		}
	}
}

// many docks in turn, each of the features by several of them
func manyDocks(docks, names int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		a := &Feat{Id: "A"}
		cs := &Calls{}
		body := func() {
			Hub()
			for i := 0; i < docks; i++ {
				n := fmt.Sprint("F", i%names)
				Dock(Host(i+1), n, ferry.Carry(n, &Feat{Id: fmt.Sprint("F@", i)}, true))
				Up(Host(i + 1))
			}
			Dock(Host(0), "a", ferry.Carry("A", a, true))
			Up(Host(0))
			for i := 0; i < names; i++ {
				cs.Echo(a.Slot, "A", fmt.Sprint("F", i), 2*i, "x")
				cs.Echo(a.Slot, "A", fmt.Sprint("F", i), 2*i+1, "x")
			}
		}
		return body, func(w *zzvs.World) {
			cs.Made(2 * names)
			for i, x := range cs.L {
				last := (docks-1-i/2)/names*names + i/2
				if g := x.Good(fmt.Sprint("F@", last)); g != "" {
					zzvs.Fail("served by", "%s: %s, expected from dock %d", x.Desc(), g, last)
				}
			}
			NoRefused(w)
		}
	}
}

// a dock with many features, all of which are called
func manyFeatures(n int, callFirst bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		a := &Feat{Id: "A"}
		cs := &Calls{}
		feats := map[string]*Feat{}
		body := func() {
			Hub()
			call := func(s ferry.ISlot) {
				for i := 0; i < n; i++ {
					cs.Echo(s, "A", fmt.Sprint("F", i), i, "x")
				}
			}
			if callFirst {
				a.OnUp = call
			}
			Dock(Host(0), "a", ferry.Carry("A", a, true))
			Up(Host(0))
			var sl []ferry.ISlot
			for i := 0; i < n; i++ {
				id := fmt.Sprint("F", i)
				feats[id] = &Feat{Id: id}
				sl = append(sl, ferry.Carry(id, feats[id], true))
			}
			Dock(Host(1), "f", sl...)
			Up(Host(1))
			if !callFirst {
				call(a.Slot)
			}
		}
		return body, func(w *zzvs.World) {
			cs.Made(n)
			cs.CheckOnce(feats)
			NoRefused(w)
		}
	}
}

// names of every kind
func oddNames() Maker {
	return func() (func(), func(w *zzvs.World)) {
		names := []string{"", " ", "a", "A", "a ", " a", "a,b", "a|b", "a:b", "a/b", "a.b", "a*", "*", "\x00", "\xff\xfe", "\n", "ferry", "seek", "hub", "true", "0", "nil",
			"\u00e9", "e\u0301", strings.Repeat("n", 255), strings.Repeat("n", 256), strings.Repeat("n", 11000), strings.Repeat("n", 70000)}
		a := &Feat{Id: "caller"}
		cs := &Calls{}
		body := func() {
			Hub()
			for i, n := range names {
				Dock(Host(i+1), fmt.Sprint("d", i), ferry.Carry(n, &Feat{Id: fmt.Sprint("F", i)}, true))
				Up(Host(i + 1))
			}
			Dock(Host(0), "a", ferry.Carry("caller", a, true))
			Up(Host(0))
			for i, n := range names {
				cs.Echo(a.Slot, "caller", n, i, "x")
			}
		}
		return body, func(w *zzvs.World) {
			cs.Made(len(names))
			for i, x := range cs.L {
				if g := x.Good(fmt.Sprint("F", i)); g != "" {
					if len(x.Name) > 40 {
						x.Name = x.Name[:40] + "..."
					}
					zzvs.Fail("served by", "%q: %s", x.Name, g)
				}
			}
			NoRefused(w)
		}
	}
}

func endless(w *zzvs.World) { w.MaxSteps = 1 << 30 }

// a lookup made long before the provider comes
func longWait() Maker {
	return func() (func(), func(w *zzvs.World)) {
		a, b := &Feat{Id: "A"}, &Feat{Id: "B"}
		cs := &Calls{}
		body := func() {
			Hub()
			Dock(Host(3), "a", ferry.Carry("A", a, true))
			Up(Host(3))
			zzvs.Go("call", func() { cs.Echo(a.Slot, "A", "B", 1, "x") })
			Silence()
			Dock(Host(1), "b", ferry.Carry("B", b, true))
		}
		return body, func(w *zzvs.World) {
			cs.Made(1)
			cs.CheckOnce(map[string]*Feat{"B": b})
			NoRefused(w)
		}
	}
}

// every history of n comings and goings of docks of these features (a dock goes with its host or
// loses its connection to the hub; the next one comes up at a place left), then somebody new for each
// feature: it gets to the newest dock still there
func comings(n int, kinds ...string) Maker {
	return func() (func(), func(w *zzvs.World)) {
		type there struct {
			host, id string
			names    []string
		}
		cs := &Calls{}
		var want []string
		body := func() {
			var live []there
			var left []string
			var names []string
			seen := map[string]bool{}
			for _, k := range kinds {
				for _, f := range strings.Split(k, ",") {
					if !seen[f] {
						seen[f] = true
						names = append(names, f)
					}
				}
			}
			Hub()
			for step := 0; step < n; step++ {
				c := zzvs.Choose(len(kinds) + 2*len(live))
				if c < len(kinds) {
					t := there{host: Host(step), id: fmt.Sprint("#", step), names: strings.Split(kinds[c], ",")}
					if len(left) > 0 {
						t.host, left = left[len(left)-1], left[:len(left)-1]
					}
					var sl []ferry.ISlot
					for _, f := range t.names {
						sl = append(sl, ferry.Carry(f, &Feat{Id: f + t.id}, true))
					}
					Dock(t.host, fmt.Sprint("d", step), sl...)
					Up(t.host)
					live = append(live, t)
					continue
				}
				c -= len(kinds)
				t := live[c/2]
				live = append(live[:c/2:c/2], live[c/2+1:]...)
				if c%2 == 0 {
					zzvs.Down(t.host)
					left = append(left, t.host)
				} else {
					zzvs.Break(t.host, HubHost)
				}
				zzvs.Settle()
			}
			for i, f := range names {
				last := ""
				for _, t := range live {
					for _, g := range t.names {
						if g == f {
							last = f + t.id
						}
					}
				}
				if last == "" {
					continue
				}
				a := &Feat{Id: "A" + f}
				Dock(Host(100+i), "a"+f, ferry.Carry("A"+f, a, true))
				Up(Host(100 + i))
				want = append(want, last)
				cs.Echo(a.Slot, "A"+f, f, i, "x")
			}
		}
		return body, func(w *zzvs.World) {
			cs.Made(len(want))
			for i, x := range cs.L {
				if g := x.Good(want[i]); g != "" {
					zzvs.Fail("served by", "%s: %s (expected %s)", x.Desc(), g, want[i])
				}
			}
			NoRefused(w)
			w.Outcome = cs.Outcome()
		}
	}
}

func quietly(w *zzvs.World) { w.Preempt = false }

func orders(w *zzvs.World) { w.Preempt = false; w.MapOrders = true }

func main() {
	zzvs.Main("C07", []*zzvs.Scenario{
		{Name: "two-in-turn", Quick: 1, Thorough: 2, New: newest("B|B", false, false, map[string]int{"B": 1})},
		{Name: "two-in-turn-caller-first", Quick: 1, Thorough: 2, New: newest("B|B", true, false, map[string]int{"B": 1})},
		{Name: "three-mixed", Quick: 1, Thorough: 2, New: newest("B,C|C|B,D|E", false, false, map[string]int{"B": 2, "C": 1, "D": 2, "E": 3})},
		{Name: "three-mixed-one-host", Quick: 1, Thorough: 2, New: newest("B,C|C|B,D|E", true, true, map[string]int{"B": 2, "C": 1, "D": 2, "E": 3})},
		{Name: "four-in-turn", Quick: 1, Thorough: 2, New: newest("B|B,C|B|C", false, false, map[string]int{"B": 2, "C": 3})},
		{Name: "similar-names", Quick: 1, Thorough: 2, New: newest("B|b|BB|B ,B.", false, false, map[string]int{"B": 0, "b": 1, "BB": 2, "B ": 3})},
		{Name: "orders", Quick: 1, Thorough: 2, Config: func(w *zzvs.World) { w.MapOrders = true; w.Preempt = false }, New: newest("B,C,D|C|B,D", true, false, map[string]int{"B": 2, "C": 1, "D": 2})},
		{Name: "one-starting", Quick: 2, Thorough: 3, New: atOnce("B", "A>B")},
		{Name: "several-starting", Quick: 1, Thorough: 2, New: atOnce("B,C|B|C,D", "A>B", "A>C", "A>D")},
		{Name: "two-callers-starting", Quick: 1, Thorough: 2, New: atOnce("B|B|C", "A>B", "E>B", "E>C")},
		{Name: "many-lookups-starting", Quick: 1, Thorough: 2, New: atOnce("B", "A>B", "A>B", "E>B", "F>B")},
		{Name: "similar-starting", Quick: 1, Thorough: 2, New: atOnce("B|BB|AB", "A>B", "A>BB")},
		{Name: "same-host-race-2", Quick: 2, Thorough: 3, New: sameHostRace(2)},
		{Name: "same-host-race-3", Quick: 1, Thorough: 2, New: sameHostRace(3)},
		{Name: "newer-coming", Quick: 2, Thorough: 3, New: newerComing()},
		{Name: "never-provided", Quick: 1, Thorough: 2, New: neverProvided()},
		{Name: "newest-gone", Quick: 1, Thorough: 2, New: newestGone(2)},
		{Name: "sixty-docks", Quick: 0, Thorough: 0, New: manyDocks(60, 20), Config: endless},
		{Name: "sixty-docks-of-two", Quick: 0, Thorough: 0, New: manyDocks(60, 2), Config: endless},
		{Name: "300-features", Quick: 0, Thorough: 0, New: manyFeatures(300, false), Config: endless},
		{Name: "300-features-waited-for", Quick: 0, Thorough: 0, New: manyFeatures(300, true), Config: endless},
		{Name: "odd-names", Quick: 0, Thorough: 1, New: oddNames(), Config: endless},
		{Name: "long-ago", Quick: 1, Thorough: 1, New: longAgo()},
		{Name: "long-wait", Quick: 1, Thorough: 2, New: longWait()},
		{Name: "comings-2", Quick: 9, Thorough: 9, New: comings(4, "B,C", "B"), Config: quietly},
		{Name: "comings-3", Quick: 9, Thorough: 9, New: comings(4, "B,C,D", "C", "D,B"), Config: quietly},
		{Name: "comings-5", Quick: 9, Thorough: 9, New: comings(5, "B,C", "B"), Config: quietly},
		{Name: "comings-6", Quick: 9, Thorough: 9, New: comings(6, "B,C"), Config: quietly},
		{Name: "comings-7", Thorough: 12, New: comings(6, "B,C", "B"), Config: quietly},
		{Name: "comings-orders", Quick: 3, Thorough: 4, New: comings(3, "B,C,D"), Config: orders},
		{Name: "two-newest-gone", Quick: 1, Thorough: 2, New: newestGone(3)},
	}, []string{"the hub's host stays up", "docks registering concurrently count as registered in either order"})
}
