// C15: visiting a feature yields its registered proxy, bound to the visiting slot.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/muguangyi/ferry"
	. "github.com/muguangyi/ferry/zzharness/hk"
	"github.com/muguangyi/ferry/zzvs"
)

// Proxy is what the makers make.
type Proxy struct {
	Name string
	Gen  int
	Slot ferry.ISlot
	No   int
}

// shop makes proxies and remembers them.
type shop struct{ made []*Proxy }

func (s *shop) register(name string, gen int) {
	ferry.Register(name, func(slot ferry.ISlot) interface{} {
		p := &Proxy{Name: name, Gen: gen, Slot: slot, No: len(s.made)}
		s.made = append(s.made, p)
		zzvs.Yield()
		return p
	})
}

// visit visits and checks everything one visit can tell.
func visit(s ferry.ISlot, name string) *Proxy {
	v := s.Visit(name)
	if v == nil {
		return nil
	}
	p, ok := v.(*Proxy)
	if !ok {
		zzvs.Fail("wrong object", "visiting %s returned %T", name, v)
	}
	if p.Name != name {
		zzvs.Fail("wrong maker", "visiting %s returned the proxy of %s", name, p.Name)
	}
	if p.Slot != s {
		zzvs.Fail("wrong slot", "visiting %s returned a proxy made with another slot", name)
	}
	return p
}

// every sequence of visits over slots and names, some registered late or never or twice
func sequences(n int, slots, names int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		body := func() {
			sh := &shop{}
			var ss []ferry.ISlot
			for i := 0; i < slots; i++ {
				ss = append(ss, ferry.Carry(fmt.Sprint("S", i), &Feat{Id: fmt.Sprint("S", i)}, true))
			}
			all := []string{"F", "f", "FF", "", "S0"}[:names]
			registered := map[string]int{}
			seen := map[string]*Proxy{} // slot/name -> proxy
			owner := map[*Proxy]string{}
			for step := 0; step < n; step++ {
				k := zzvs.Choose(slots*names + names)
				if k >= slots*names {
					nm := all[k-slots*names]
					registered[nm]++
					sh.register(nm, registered[nm])
					continue
				}
				si, nm := k/names, all[k%names]
				p := visit(ss[si], nm)
				key := fmt.Sprint(si, "/", nm)
				if registered[nm] == 0 {
					if p != nil {
						zzvs.Fail("not registered", "visiting %q, which is not registered, returned a proxy", nm)
					}
					continue
				}
				if p == nil {
					zzvs.Fail("nothing", "visiting the registered %q returned nothing", nm)
				}
				if q := seen[key]; q != nil && q != p {
					zzvs.Fail("not the same", "a later visit of %q from the same slot returned another object", nm)
				}
				if o, ok := owner[p]; ok && o != key {
					zzvs.Fail("shared", "slots %s and %s share a proxy", o, key)
				}
				if seen[key] == nil && p.Gen != registered[nm] {
					zzvs.Fail("wrong maker", "visiting %q used maker %d of %d", nm, p.Gen, registered[nm])
				}
				seen[key], owner[p] = p, key
			}
		}
		return body, func(w *zzvs.World) {}
	}
}

// goroutines visiting at once: plan is "slot,name" visits of each goroutine, goroutines by "|";
// "+name" registers
func atOnce(plan string, before ...string) Maker {
	return func() (func(), func(w *zzvs.World)) {
		sh := &shop{}
		type got struct {
			key  string
			name string
			p    *Proxy
		}
		var all []got
		runs := strings.Split(plan, "|")
		done := 0
		body := func() {
			ss := map[string]ferry.ISlot{}
			for _, r := range runs {
				for _, v := range strings.Fields(r) {
					if x := strings.Split(v, ","); len(x) == 2 && ss[x[0]] == nil {
						ss[x[0]] = ferry.Carry(x[0], &Feat{Id: x[0]}, true)
					}
				}
			}
			for _, b := range before {
				sh.register(b, 1)
			}
			for _, r := range runs {
				r := r
				zzvs.Go("visitor", func() {
					for _, v := range strings.Fields(r) {
						if strings.HasPrefix(v, "+") {
							sh.register(v[1:], 1)
							continue
						}
						x := strings.Split(v, ",")
						all = append(all, got{v, x[1], visit(ss[x[0]], x[1])})
					}
					done++
				})
			}
		}
		return body, func(w *zzvs.World) {
			if done != len(runs) {
				zzvs.Fail("never returned", "%d of %d visitors finished", done, len(runs))
			}
			by := map[string]*Proxy{}
			owner := map[*Proxy]string{}
			reg := map[string]bool{}
			for _, b := range before {
				reg[b] = true
			}
			var out []string
			for _, g := range all {
				out = append(out, fmt.Sprint(g.key, g.p == nil))
				if g.p == nil {
					if reg[g.name] {
						zzvs.Fail("nothing", "visiting the registered %q returned nothing", g.name)
					}
					continue
				}
				if !reg[g.name] && !strings.Contains(plan, "+"+g.name) {
					zzvs.Fail("not registered", "visiting %q returned a proxy", g.name)
				}
				if q := by[g.key]; q != nil && q != g.p {
					zzvs.Fail("not the same", "two visits of %q from one slot returned different objects", g.name)
				}
				if o, ok := owner[g.p]; ok && o != g.key {
					zzvs.Fail("shared", "%s and %s share a proxy", o, g.key)
				}
				by[g.key], owner[g.p] = g.p, g.key
			}
			sort.Strings(out)
			w.Outcome = strings.Join(out, " ")
		}
	}
}

// a maker that visits, from its own slot, another feature and the like
func makerVisits() Maker {
	return func() (func(), func(w *zzvs.World)) {
		done := 0
		var a, b interface{}
		body := func() {
			sh := &shop{}
			sh.register("G", 1)
			ferry.Register("F", func(s ferry.ISlot) interface{} {
				g := s.Visit("G")
				if g == nil {
					zzvs.Fail("nothing", "visiting G from a maker returned nothing")
				}
				if s.Visit("H") != nil {
					zzvs.Fail("not registered", "visiting H returned something")
				}
				return &Proxy{Name: "F", Slot: s}
			})
			s := ferry.Carry("S", &Feat{Id: "S"}, true)
			zzvs.Go("v1", func() { a = s.Visit("F"); done++ })
			zzvs.Go("v2", func() { b = s.Visit("F"); visit(s, "G"); done++ })
		}
		return body, func(w *zzvs.World) {
			if done != 2 {
				zzvs.Fail("never returned", "a visit did not return")
			}
			if a == nil || a != b {
				zzvs.Fail("not the same", "visits of F returned %v and %v", a, b)
			}
		}
	}
}

// visits from start hooks and methods of running docks; the proxy's calls go out through the slot
func running() Maker {
	return func() (func(), func(w *zzvs.World)) {
		a, b, c := &Feat{Id: "A"}, &Feat{Id: "B"}, &Feat{Id: "C"}
		var ps []*Proxy
		cs := &Calls{}
		body := func() {
			sh := &shop{}
			sh.register("C", 1)
			up := func(f *Feat) func(s ferry.ISlot) {
				return func(s ferry.ISlot) {
					for i := 0; i < 2; i++ {
						i := i
						zzvs.Go("visitor", func() {
							p := visit(s, "C")
							if p == nil {
								zzvs.Fail("nothing", "visiting C from %s returned nothing", f.Id)
							}
							ps = append(ps, p)
							cs.Echo(p.Slot, f.Id, "C", i, f.Id)
						})
					}
				}
			}
			a.OnUp, b.OnUp = up(a), up(b)
			Hub()
			Dock(Host(1), "d", ferry.Carry("A", a, true), ferry.Carry("B", b, true), ferry.Carry("C", c, true))
		}
		return body, func(w *zzvs.World) {
			cs.Made(4)
			cs.CheckOnce(map[string]*Feat{"C": c})
			n := map[*Proxy]bool{}
			for _, p := range ps {
				n[p] = true
			}
			if len(n) != 2 {
				zzvs.Fail("not the same", "two slots visiting twice each got %d proxies", len(n))
			}
		}
	}
}

// many slots and names, visited several times
func many(slots, names int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		body := func() {
			sh := &shop{}
			var ss []ferry.ISlot
			for i := 0; i < slots; i++ {
				ss = append(ss, ferry.Carry(fmt.Sprint("S", i), &Feat{Id: fmt.Sprint("S", i)}, true))
			}
			for i := 0; i < names; i++ {
				sh.register(fmt.Sprint("F", i), 1)
			}
			first := map[string]*Proxy{}
			for round := 0; round < 3; round++ {
				for i, s := range ss {
					for n := 0; n < names; n++ {
						name := fmt.Sprint("F", (n*7+i)%names)
						key := fmt.Sprint(i, "/", name)
						p := visit(s, name)
						if p == nil || (round > 0 && first[key] != p) {
							zzvs.Fail("not the same", "visit %d of %s from slot %d returned another object", round, name, i)
						}
						first[key] = p
					}
					if p := visit(s, fmt.Sprint("F", names)); p != nil {
						zzvs.Fail("not registered", "visiting a name that is not registered returned a proxy")
					}
				}
			}
		}
		return body, func(w *zzvs.World) {}
	}
}

func main() {
	enum := func(w *zzvs.World) { w.Preempt = false }
	scs := []*zzvs.Scenario{
		// every sequence: as many deviations as steps
		{Name: "sequences-2x2", Quick: 5, Thorough: 7, Config: enum, New: sequences(5, 2, 2)},
		{Name: "sequences-2x4", Quick: 4, Thorough: 5, Config: enum, New: sequences(4, 2, 4)},
		{Name: "sequences-3x3", Quick: 4, Thorough: 5, Config: enum, New: sequences(4, 3, 3)},
		{Name: "sequences-long", Quick: 3, Thorough: 5, Config: enum, New: sequences(8, 2, 3)},
		{Name: "many", Quick: 0, Thorough: 0, New: many(30, 90)},
		{Name: "two-first-visits", Quick: 4, Thorough: 6, New: atOnce("s,F|s,F", "F")},
		{Name: "visit-twice-each", Quick: 3, Thorough: 5, New: atOnce("s,F s,F|s,F s,F", "F")},
		{Name: "three-first-visits", Quick: 3, Thorough: 4, New: atOnce("s,F|s,F|s,F", "F")},
		{Name: "names", Quick: 3, Thorough: 5, New: atOnce("s,F s,G|s,G s,F", "F", "G")},
		{Name: "slots", Quick: 3, Thorough: 5, New: atOnce("s,F t,F|t,F s,F", "F")},
		{Name: "unregistered", Quick: 3, Thorough: 5, New: atOnce("s,F s,H|s,H s,f", "F")},
		{Name: "registered-meanwhile", Quick: 3, Thorough: 5, New: atOnce("s,F s,F|+F s,F|s,F", "G")},
		{Name: "others-registered-meanwhile", Quick: 3, Thorough: 4, New: atOnce("s,F s,G|+H +G s,H|t,F s,F", "F")},
		{Name: "maker-visits", Quick: 3, Thorough: 5, New: makerVisits()},
		{Name: "running", Quick: 1, Thorough: 3, New: running()},
	}
	zzvs.Main("C15", scs, nil)
}
