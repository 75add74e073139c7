// C14: features carried as not discoverable are private to their dock.
package main

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/muguangyi/ferry"
	. "github.com/muguangyi/ferry/zzharness/hk"
	"github.com/muguangyi/ferry/zzvs"
)

// layout: docks separated by "|", their features by ","; "-" before a name makes it private.
// calls: "A>B=2": A (a caller feature of its own dock, or feature A of the dock given as "A@1") calls
// B, which has to be carried out by dock 2; "=?" means that nobody may ever carry it out and "=1/2"
// that either may.
type layout struct {
	docks     string
	calls     []string
	inTurn    bool // docks come up one after another
	callFirst bool // the calls are made from the start hooks (not when everything is at rest)
	names     []string
}

func (l layout) new() Maker {
	return func() (func(), func(w *zzvs.World)) {
		type d struct {
			fs   []*Feat
			priv []bool
			sl   []ferry.ISlot
		}
		var ds []*d
		all := map[string]*Feat{}
		for i, x := range strings.Split(l.docks, "|") {
			k := &d{}
			for _, n := range strings.Split(x, ",") {
				f := &Feat{Id: strings.TrimPrefix(n, "-") + "@" + strconv.Itoa(i)}
				all[f.Id] = f
				k.fs = append(k.fs, f)
				k.priv = append(k.priv, strings.HasPrefix(n, "-"))
			}
			ds = append(ds, k)
		}
		type call struct {
			from, to, want string
			c              *Calls
		}
		var calls []*call
		for _, c := range l.calls {
			p := strings.FieldsFunc(c, func(r rune) bool { return r == '>' || r == '=' })
			calls = append(calls, &call{p[0], p[1], p[2], &Calls{}})
		}
		body := func() {
			for k, c := range calls {
				k, c := k, c
				if l.callFirst {
					f := all[c.from]
					up := f.OnUp
					f.OnUp = func(s ferry.ISlot) {
						if up != nil {
							up(s)
						}
						zzvs.Go("call", func() { c.c.Echo(s, c.from, c.to, k, "x") })
					}
				}
			}
			Hub()
			for i, k := range ds {
				for j, f := range k.fs {
					k.sl = append(k.sl, ferry.Carry(strings.Split(f.Id, "@")[0], f, !k.priv[j]))
				}
				Dock(Host(i), fmt.Sprint("d", i), k.sl...)
				if l.inTurn {
					Up(Host(i))
				}
			}
			if !l.callFirst {
				zzvs.Await("started", func() bool {
					for _, f := range all {
						if f.Started == 0 {
							return false
						}
					}
					return true
				})
				zzvs.Settle()
				for k, c := range calls {
					k, c := k, c
					zzvs.Go("call", func() { c.c.Echo(all[c.from].Slot, c.from, c.to, k, "x") })
				}
			}
		}
		return body, func(w *zzvs.World) {
			var out []string
			for k, c := range calls {
				ran := ""
				for id, f := range all {
					if n := f.Count(fmt.Sprintf("Echo(%d,x)", k)); n > 0 {
						ran += id + " "
					}
				}
				out = append(out, fmt.Sprint(c.from, ">", c.to, ":", ran))
				if len(c.c.L) != 1 {
					zzvs.Fail("not called", "%s did not call %s", c.from, c.to)
				}
				x := c.c.L[0]
				if c.want == "?" {
					if ran != "" {
						zzvs.Fail("private", "%s was carried out by %s", x.Desc(), ran)
					}
					if x.Returned && x.Err == nil {
						zzvs.Fail("private", "%s returned %v", x.Desc(), x.Res)
					}
					continue
				}
				var ids []string
				for _, i := range strings.Split(c.want, "/") {
					ids = append(ids, c.to+"@"+i)
				}
				if g := x.Good(ids...); g != "" {
					zzvs.Fail("routed", "%s: %s, it ran on %q (expected from dock %s)", x.Desc(), g, ran, c.want)
				}
			}
			NoRefused(w)
			for _, n := range l.names {
				for _, a := range w.Net.Conns {
					for _, c := range []*zzvs.Conn{a, a.Peer()} {
						if bytes.Contains(c.Wrote, []byte(n)) {
							zzvs.Fail("announced", "the name %s of a private feature left its dock", n)
						}
					}
				}
			}
			sort.Strings(out)
			w.Outcome = strings.Join(out, "; ")
		}
	}
}

// every assignment of discoverability to three features of a provider; one other dock calls all the
// discoverable ones, and the private ones too
func matrix() []*zzvs.Scenario {
	var out []*zzvs.Scenario
	for m := 0; m < 8; m++ {
		var fs, calls []string
		for i, n := range []string{"B", "C", "D"} {
			if m>>i&1 == 1 {
				fs = append(fs, "-"+n)
				calls = append(calls, "A@0>"+n+"=?")
			} else {
				fs = append(fs, n)
				calls = append(calls, "A@0>"+n+"=1")
			}
		}
		l := layout{docks: "A|" + strings.Join(fs, ","), calls: calls, inTurn: true}
		name := "provider " + strings.Join(fs, ",")
		out = append(out, &zzvs.Scenario{Name: name, Quick: 1, Thorough: 2, New: l.new()})
		out = append(out, &zzvs.Scenario{Name: name + " (map orders)", Quick: 1, Thorough: 2, New: l.new(),
			Config: func(w *zzvs.World) { w.MapOrders = true; w.Preempt = false }})
		l.inTurn, l.callFirst = false, true
		out = append(out, &zzvs.Scenario{Name: name + " starting", Quick: 1, Thorough: 1, New: l.new()})
	}
	return out
}

// a private and a discoverable feature of one name, in every pair of docks, every order of start
func twins() []*zzvs.Scenario {
	var out []*zzvs.Scenario
	for _, p := range [][3]string{{"-B", "B", "1"}, {"B", "-B", "0"}, {"-B,X", "B", "1"}, {"B", "-B,X", "0"}, {"X,-B", "Y,B", "1"}} {
		for _, first := range []bool{false, true} {
			l := layout{docks: p[0] + "|" + p[1] + "|A", inTurn: true, callFirst: first,
				calls: []string{"A@2>B=" + p[2], "B@0>B=0", "B@1>B=1"}}
			if strings.Contains(p[0]+p[1], "X") {
				l.calls = append(l.calls, "A@2>X="+map[bool]string{true: "0", false: "1"}[strings.Contains(p[0], "X")])
			}
			out = append(out, &zzvs.Scenario{Name: fmt.Sprintf("twins %s | %s first=%v", p[0], p[1], first), Quick: 1, Thorough: 2, New: l.new()})
			l.inTurn = false
			out = append(out, &zzvs.Scenario{Name: fmt.Sprintf("twins %s | %s first=%v at once", p[0], p[1], first), Quick: 1, Thorough: 2, New: l.new()})
		}
	}
	return out
}

func keep(w *zzvs.World) { w.Net.KeepWrites = true }

// the only discoverable provider's host goes away: calls do not fall back to the private one
func fallback() Maker {
	return func() (func(), func(w *zzvs.World)) {
		a, b0, b1, b2, x := &Feat{Id: "A"}, &Feat{Id: "B0"}, &Feat{Id: "B1"}, &Feat{Id: "B2"}, &Feat{Id: "X"}
		cs := &Calls{}
		body := func() {
			Hub()
			Dock(Host(0), "d0", ferry.Carry("B", b0, false), ferry.Carry("X", x, true))
			Up(Host(0))
			Dock(Host(1), "d1", ferry.Carry("B", b1, true))
			Up(Host(1))
			Dock(Host(2), "d2", ferry.Carry("A", a, true))
			Up(Host(2))
			cs.Echo(a.Slot, "A", "X", 1, "x")
			cs.Echo(a.Slot, "A", "B", 2, "x")
			zzvs.Settle()
			zzvs.Down(Host(1))
			zzvs.Settle()
			zzvs.Go("call", func() { cs.Echo(a.Slot, "A", "B", 3, "x") })
			zzvs.Settle()
			Dock(Host(3), "d3", ferry.Carry("B", b2, true))
		}
		return body, func(w *zzvs.World) {
			cs.Made(3)
			for i, id := range []string{"X", "B1", "B2"} {
				if g := cs.L[i].Good(id); g != "" {
					zzvs.Fail("routed", "%s: %s", cs.L[i].Desc(), g)
				}
			}
			if len(b0.Execs) > 0 {
				zzvs.Fail("private", "the private feature carried out %v for another dock", b0.Execs)
			}
		}
	}
}

// every history of n docks with these features ("-" before a private one) coming and their hosts going
// down, with a caller that looks for each of them after every step: only those who have it public
// answer, nobody does if there are none
func comings(n int, kinds ...string) Maker {
	return func() (func(), func(w *zzvs.World)) {
		type there struct {
			host   string
			public map[string]*Feat
			own    map[string]*Feat
		}
		return func() {
			var live []*there
			var left []string
			var names []string
			var secret []*Feat
			mine := map[*Feat]int{}
			seen := map[string]bool{}
			for _, k := range kinds {
				for _, f := range strings.Split(k, ",") {
					if f = strings.TrimPrefix(f, "-"); !seen[f] {
						seen[f] = true
						names = append(names, f)
					}
				}
			}
			Hub()
			a := &Feat{Id: "A"}
			Dock(Host(90), "a", ferry.Carry("A", a, true))
			Up(Host(90))
			tag := 0
			for step := 0; step < n; step++ {
				c := zzvs.Choose(len(kinds) + len(live))
				if c < len(kinds) {
					d := &there{host: Host(step), public: map[string]*Feat{}, own: map[string]*Feat{}}
					if len(left) > 0 {
						d.host, left = left[len(left)-1], left[:len(left)-1]
					}
					var sl []ferry.ISlot
					for _, name := range strings.Split(kinds[c], ",") {
						private := name[0] == '-'
						name = strings.TrimPrefix(name, "-")
						f := &Feat{Id: fmt.Sprint(name, "#", step)}
						d.own[name] = f
						if private {
							secret = append(secret, f)
						} else {
							d.public[name] = f
						}
						sl = append(sl, ferry.Carry(name, f, !private))
					}
					Dock(d.host, fmt.Sprint("d", step), sl...)
					Up(d.host)
					live = append(live, d)
				} else {
					c -= len(kinds)
					zzvs.Down(live[c].host)
					left = append(left, live[c].host)
					live = append(live[:c:c], live[c+1:]...)
					zzvs.Settle()
				}
				for _, name := range names {
					var ids []string
					for _, d := range live {
						if f := d.public[name]; f != nil {
							ids = append(ids, f.Id)
						}
					}
					if len(ids) > 0 {
						tag++
						cs := &Calls{}
						if g := cs.Echo(a.Slot, "A", name, tag, "x").Good(ids...); g != "" {
							zzvs.Fail("private", "A's call of %s: %s (there are %v)", name, g, ids)
						}
					} else if step == n-1 {
						// Nobody may ever answer.
						name := name
						zzvs.Go("never", func() {
							res, err := a.Slot.CallWithResult(name, "Echo", 9999, "x")
							zzvs.Fail("private", "A's call of %s, which nobody has for others, returned %v %v", name, res, err)
						})
						zzvs.Settle()
					}
				}
				// Within a dock all of them are to be had.
				for _, d := range live {
					for _, from := range names {
						for _, to := range names {
							if f, g := d.own[from], d.own[to]; f != nil && g != nil && f != g {
								tag++
								cs := &Calls{}
								if bad := cs.Echo(f.Slot, f.Id, to, tag, "y").Good(g.Id); bad != "" {
									zzvs.Fail("own", "%s's call of %s in its own dock: %s", f.Id, to, bad)
								}
								mine[g]++
							}
						}
					}
				}
			}
			zzvs.Settle()
			for _, f := range secret {
				if len(f.Execs) != mine[f] {
					zzvs.Fail("private", "%s, private, executed %v", f.Id, f.Execs)
				}
			}
		}, func(w *zzvs.World) {}
	}
}

func main() {
	scs := matrix()
	scs = append(scs, twins()...)
	mk := func(name string, q, t int, l layout) {
		scs = append(scs, &zzvs.Scenario{Name: name, Quick: q, Thorough: t, Config: keep, New: l.new()})
	}
	mk("own-private", 1, 2, layout{docks: "A,-B,-C|B", calls: []string{"A@0>B=0", "A@0>C=0", "B@0>C=0", "C@0>A=0", "B@1>A=0", "B@1>C=?"}})
	mk("own-private-starting", 1, 2, layout{docks: "A,-B,-C|B", callFirst: true, calls: []string{"A@0>B=0", "A@0>C=0", "B@0>C=0", "C@0>A=0", "B@1>A=0", "B@1>C=?"}})
	mk("all-private", 1, 2, layout{docks: "-A,-B|-A,-B,D", callFirst: true, calls: []string{"A@0>B=0", "A@1>B=1", "B@0>A=0", "B@1>A=1", "A@0>D=1"}})
	mk("names-on-the-wire", 1, 2, layout{docks: "A,-QprivA|B,-QprivB", callFirst: true, names: []string{"QprivA", "QprivB"}, calls: []string{"A@0>B=1", "B@1>A=0", "QprivA@0>B=1", "A@0>QprivA=0", "B@1>QprivB=1"}})
	mk("connected-then-private", 1, 2, layout{docks: "A|X,-B", inTurn: true, calls: []string{"A@0>X=1", "A@0>B=?"}})
	mk("private-caller", 2, 3, layout{docks: "-A|B", callFirst: true, calls: []string{"A@0>B=1"}})
	// 40 features in three docks, every third one private
	var docks [3][]string
	var cl []string
	for i := 0; i < 40; i++ {
		n, d := fmt.Sprint("N", i), i%2
		want := strconv.Itoa(d)
		if i%3 == 0 {
			docks[d] = append(docks[d], "-"+n)
			cl = append(cl, fmt.Sprint(n, "@", d, ">", "N", (i+2)%40, "=", d), "A@2>"+n+"=?")
		} else {
			docks[d] = append(docks[d], n)
			cl = append(cl, "A@2>"+n+"="+want)
		}
	}
	docks[2] = []string{"A"}
	for k, first := range []bool{false, true} {
		l := layout{callFirst: first, calls: cl}
		for i := range docks {
			l.docks += "|" + strings.Join(docks[i], ",")
		}
		l.docks = l.docks[1:]
		mk(fmt.Sprint("forty-", k), 0, 0, l)
		scs[len(scs)-1].Config = func(w *zzvs.World) { keep(w); w.MaxSteps = 1 << 30 }
	}
	for i, kinds := range [][]string{{"B", "-B"}, {"B,-C", "-B,C"}, {"B", "-B,C", "-C,D"}, {"-B,-C,D", "B,C", "-D"}} {
		scs = append(scs, &zzvs.Scenario{Name: fmt.Sprint("comings-", i), Quick: 9, Thorough: 9, New: comings(4, kinds...), Config: func(w *zzvs.World) { w.Preempt = false }})
		scs = append(scs, &zzvs.Scenario{Name: fmt.Sprint("comings-long-", i), Quick: 0, Thorough: 9, New: comings(5, kinds...), Config: func(w *zzvs.World) { w.Preempt = false }})
	}
	scs = append(scs, &zzvs.Scenario{Name: "no-fallback", Quick: 1, Thorough: 2, New: fallback()})
	zzvs.Main("C14", scs, []string{"the hub's host stays up"})
}
