// C11: a feature executes its calls one at a time, in arrival order.
package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/chancall"
	. "github.com/muguangyi/ferry/zzharness/hk"
	"github.com/muguangyi/ferry/zzvs"
)

func sleep(ns int64) { zzvs.Sleep(time.Duration(ns)) }

// feature with work that takes time and can be preempted
func worker(id string, took func(tag int) int64) *Feat {
	f := &Feat{Id: id}
	f.EchoWork = func(tag int) {
		zzvs.Yield()
		if d := took(tag); d > 0 {
			sleep(d)
		}
		zzvs.Yield()
	}
	return f
}

func noOverlap(fs ...*Feat) {
	for _, f := range fs {
		if f.MaxRun > 1 {
			zzvs.Fail("overlap", "%d calls of %s were executing at once: %v", f.MaxRun, f.Id, f.Execs)
		}
	}
}

// Echoer calls Echo(tag) somehow.
type echoer func(tag int) error

// open makes a way to call the feature: 0 chancall, 1 the same dock, 2 another dock
func open(way int, f *Feat, n int) []echoer {
	var out []echoer
	switch way {
	case 0:
		c := chancall.NewCallee("B", f)
		for i := 0; i < n; i++ {
			out = append(out, func(tag int) error {
				_, err := chancall.NewCaller(c).CallWithResult("Echo", tag, "x")
				return err
			})
		}
	case 1:
		Hub()
		var fs []ferry.ISlot
		var as []*Feat
		for i := 0; i < n; i++ {
			a := &Feat{Id: fmt.Sprint("A", i)}
			as = append(as, a)
			fs = append(fs, ferry.Carry(a.Id, a, true))
		}
		fs = append(fs, ferry.Carry("B", f, true))
		Dock(Host(1), "d", fs...)
		Up(Host(1))
		for _, a := range as {
			a := a
			out = append(out, func(tag int) error {
				_, err := a.Slot.CallWithResult("B", "Echo", tag, "x")
				return err
			})
		}
	case 2:
		Hub()
		Dock(Host(9), "b", ferry.Carry("B", f, true))
		Up(Host(9))
		var as []*Feat
		for i := 0; i < n; i++ {
			a := &Feat{Id: fmt.Sprint("A", i)}
			as = append(as, a)
			Dock(Host(i), a.Id, ferry.Carry(a.Id, a, true))
			Up(Host(i))
			a.Slot.CallWithResult("B", "Echo", 900+i, "x")
		}
		zzvs.Settle()
		for _, a := range as {
			a := a
			out = append(out, func(tag int) error {
				_, err := a.Slot.CallWithResult("B", "Echo", tag, "x")
				return err
			})
		}
	}
	return out
}

func tags(f *Feat) []int {
	var out []int
	for _, e := range f.Execs {
		var t int
		fmt.Sscanf(strings.TrimPrefix(strings.TrimPrefix(e, "Echo("), "Note("), "%d", &t)
		if t < 900 {
			out = append(out, t)
		}
	}
	return out
}

// callers at once: never two executions at a time; the calls of one caller in its order
func atOnce(way, callers, calls int, took func(tag int) int64) Maker {
	return func() (func(), func(w *zzvs.World)) {
		f := worker("B", took)
		done := 0
		body := func() {
			es := open(way, f, callers)
			for i := 0; i < callers; i++ {
				i := i
				zzvs.Go("caller", func() {
					for k := 0; k < calls; k++ {
						es[i](10*i + k) // fewer than 10 each
						done++
					}
				})
			}
		}
		return body, func(w *zzvs.World) {
			noOverlap(f)
			if done != callers*calls {
				zzvs.Fail("never returned", "%d of %d calls returned", done, callers*calls)
			}
			ts := tags(f)
			if len(ts) != callers*calls {
				zzvs.Fail("executions", "%d calls, executed %v", callers*calls, ts)
			}
			last := map[int]int{}
			for _, t := range ts {
				if p, ok := last[t/10]; ok && p >= t {
					zzvs.Fail("order", "caller %d's call %d was executed after its call %d: %v", t/10, t, p, ts)
				}
				last[t/10] = t
			}
			w.Outcome = fmt.Sprint(ts)
		}
	}
}

// calls arrive one after another while the feature is busy: executed in that order
func arrival(way, n int, first int64) Maker {
	return func() (func(), func(w *zzvs.World)) {
		f := worker("B", func(tag int) int64 {
			if tag == 0 {
				return first
			}
			return int64(tag%3) * Sec / 100
		})
		done := 0
		body := func() {
			es := open(way, f, 2)
			for i := 0; i < n; i++ {
				i := i
				zzvs.Go("caller", func() { es[i%2](i); done++ })
				zzvs.Settle()
			}
		}
		return body, func(w *zzvs.World) {
			noOverlap(f)
			ts := tags(f)
			if done != n || len(ts) != n {
				zzvs.Fail("executions", "%d calls, %d returned, executed %v", n, done, ts)
			}
			for i, t := range ts {
				if i != t {
					zzvs.Fail("order", "calls arrived in the order 0..%d and were executed in the order %v", n-1, ts)
				}
			}
		}
	}
}

// a call after one that timed out starts when the method has returned, not before
func afterTimeout(way int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		var starts []int64
		f := worker("B", nil)
		f.EchoWork = func(tag int) {
			if tag < 900 {
				starts = append(starts, zzvs.NowNS())
			}
			if tag == 0 || tag == 2 {
				sleep(3 * Sec)
			}
			zzvs.Yield()
		}
		var errs []error
		body := func() {
			es := open(way, f, 2)
			t0 := zzvs.NowNS()
			for i := 0; i < 4; i++ {
				errs = append(errs, es[i%2](i))
			}
			for i := range starts {
				starts[i] -= t0
			}
		}
		return body, func(w *zzvs.World) {
			noOverlap(f)
			if fmt.Sprint(tags(f)) != "[0 1 2 3]" {
				zzvs.Fail("order", "executed %v", tags(f))
			}
			want := []int64{0, 3 * Sec, 3 * Sec, 6 * Sec}
			for i := range want {
				if i >= len(starts) || starts[i] != want[i] {
					zzvs.Fail("start", "calls started at %v instead of %v", starts, want)
				}
			}
			for i, bad := range []bool{true, false, true, false} {
				if (errs[i] != nil) != bad {
					zzvs.Fail("outcome", "call %d returned %v", i, errs[i])
				}
			}
		}
	}
}

// B is busy for long and has calls waiting; calls to C do not notice
func independent(way, waiting int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		a, b, c := &Feat{Id: "A"}, worker("B", func(int) int64 { return 20 * Sec }), worker("C", func(int) int64 { return 0 })
		cs, bs := &Calls{}, &Calls{}
		n := 0
		body := func() {
			Hub()
			sb, sc := ferry.Carry("B", b, true), ferry.Carry("C", c, true)
			if way == 1 {
				Dock(Host(1), "d", ferry.Carry("A", a, true), sb, sc)
				Up(Host(1))
			} else {
				Dock(Host(2), "p", sb, sc)
				Up(Host(2))
				Dock(Host(1), "d", ferry.Carry("A", a, true))
				Up(Host(1))
				cs.Echo(a.Slot, "A", "C", 90, "x")
				n++
			}
			zzvs.Settle()
			for i := 0; i < waiting; i++ {
				i := i
				zzvs.Go("to B", func() { bs.Echo(a.Slot, "A", "B", i, "x") })
			}
			for i := 0; i < 2; i++ {
				i := i
				zzvs.Go("to C", func() {
					cs.Echo(a.Slot, "A", "C", 10*i, "x")
					cs.Note(a.Slot, "A", "C", 10*i+1)
				})
			}
		}
		return body, func(w *zzvs.World) {
			noOverlap(b, c)
			cs.Made(n + 4)
			for _, x := range cs.L {
				if g := x.Good("C"); g != "" {
					zzvs.Fail("outcome", "%s: %s", x.Desc(), g)
				}
				if x.At != x.Began {
					zzvs.Fail("delayed", "%s took %v while another feature was busy", x.Desc(), time.Duration(x.At-x.Began))
				}
			}
		}
	}
}

// features call each other while executing; each still one at a time
func crossing(way int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		a, b, c := &Feat{Id: "A"}, &Feat{Id: "B"}, &Feat{Id: "C"}
		cs := &Calls{}
		slots := map[string]ferry.ISlot{}
		body := func() {
			b.EchoWork = func(tag int) { zzvs.Yield(); cs.Echo(slots["B"], "B", "C", tag, "x") }
			c.EchoWork = func(tag int) { zzvs.Yield(); zzvs.Yield() }
			Hub()
			slots["A"], slots["B"], slots["C"] = ferry.Carry("A", a, true), ferry.Carry("B", b, true), ferry.Carry("C", c, true)
			if way == 1 {
				Dock(Host(1), "d", slots["A"], slots["B"], slots["C"])
			} else {
				Dock(Host(1), "d", slots["A"], slots["C"])
				Dock(Host(2), "e", slots["B"])
				Up(Host(2))
			}
			Up(Host(1))
			Callers(2, func(i int) { cs.Echo(slots["A"], "A", "B", i, "x"); cs.Echo(slots["A"], "A", "C", 10+i, "x") })
		}
		return body, func(w *zzvs.World) {
			noOverlap(a, b, c)
			cs.Made(6)
			cs.CheckOnce(map[string]*Feat{"B": b, "C": c})
			w.Outcome = cs.Outcome(b, c)
		}
	}
}

// W has methods of all shapes.
type W struct {
	ferry.Feature
	took    func() int64
	running int
	most    int
	execs   []string
}

func (w *W) run(name string) {
	w.running++
	if w.running > w.most {
		w.most = w.running
	}
	w.execs = append(w.execs, name)
	zzvs.Yield()
	sleep(w.took())
	zzvs.Yield()
	w.running--
}

func (w *W) None()                              { w.run("None") }
func (w *W) Get() int                           { w.run("Get"); return 1 }
func (w *W) One(a int)                          { w.run("One") }
func (w *W) Two(a int, b string) (int, string)  { w.run("Two"); return a, b }
func (w *W) Three(a, b, c int) (int, int, int)  { w.run("Three"); return a, b, c }
func (w *W) Four(a, b, c, d string) string      { w.run("Four"); return a }
func (w *W) Eight(a, b, c, d, e, f, g, h int)   { w.run("Eight") }
func (w *W) List(l []interface{}) []interface{} { w.run("List"); return l }
func (w *W) Dict(m map[string]int) int          { w.run("Dict"); return len(m) }
func (w *W) Any(v interface{}) interface{}      { w.run("Any"); return v }

// calls of methods of all shapes arrive one after another while another is executed, each of them
// being the first once
func kinds(way int, first int64) Maker {
	return func() (func(), func(w *zzvs.World)) {
		type kind struct {
			name   string
			result bool
			args   []interface{}
		}
		list := []kind{{"None", false, nil}, {"Get", true, nil}, {"One", false, []interface{}{1}}, {"Two", true, []interface{}{1, "x"}}, {"Three", true, []interface{}{1, 2, 3}},
			{"Four", true, []interface{}{"a", "", "c", "d"}}, {"Eight", false, []interface{}{1, 2, 3, 4, 5, 6, 7, 8}}, {"List", true, []interface{}{[]interface{}{1, "x", nil}}},
			{"Dict", true, []interface{}{map[string]int{"a": 1}}}, {"Any", true, []interface{}{nil}}, {"None", true, nil}, {"Get", false, nil}}
		done := 0
		body := func() {
			f := &W{}
			f.took = func() int64 {
				if len(f.execs) == 1 {
					return first
				}
				return Sec / 100
			}
			var call func(k kind)
			switch way {
			case 0:
				c := chancall.NewCallee("B", f)
				call = func(k kind) {
					if k.result {
						chancall.NewCaller(c).CallWithResult(k.name, k.args...)
					} else {
						chancall.NewCaller(c).Call(k.name, k.args...)
					}
				}
			default:
				Hub()
				a := &Feat{Id: "A"}
				if way == 1 {
					Dock(Host(1), "d", ferry.Carry("A", a, true), ferry.Carry("B", f, true))
				} else {
					Dock(Host(9), "b", ferry.Carry("B", f, true))
					Up(Host(9))
					Dock(Host(1), "a", ferry.Carry("A", a, true))
				}
				Up(Host(1))
				call = func(k kind) {
					if k.result {
						a.Slot.CallWithResult("B", k.name, k.args...)
					} else {
						a.Slot.Call("B", k.name, k.args...)
					}
				}
			}
			for r := range list {
				f.execs, f.most = nil, 0
				var want []string
				for i := range list {
					k := list[(r+i)%len(list)]
					want = append(want, k.name)
					zzvs.Go("caller", func() { call(k); done++ })
					zzvs.Settle()
				}
				sleep(10 * Sec)
				if f.most > 1 {
					zzvs.Fail("overlap", "%d calls were executing at once: %v", f.most, f.execs)
				}
				if a, b := fmt.Sprint(f.execs), fmt.Sprint(want); a != b {
					zzvs.Fail("order", "calls arrived in the order %s and were executed in the order %s", b, a)
				}
			}
		}
		return body, func(w *zzvs.World) {
			if done != len(list)*len(list) {
				zzvs.Fail("never returned", "%d calls returned", done)
			}
		}
	}
}

func main() {
	none := func(int) int64 { return 0 }
	half := func(tag int) int64 { return Sec / 2 }
	long := func(tag int) int64 { return 2 * Sec }
	var scs []*zzvs.Scenario
	mk := func(name string, q, t int, m Maker) {
		scs = append(scs, &zzvs.Scenario{Name: name, Quick: q, Thorough: t, New: m, Config: func(w *zzvs.World) { w.MaxSteps = 1 << 30 }})
	}
	for way, n := range []string{"chancall", "same dock", "other docks"} {
		d := func(a, b, c int) int { return []int{a, b, c}[way] }
		mk("two-callers "+n, d(4, 3, 1), d(6, 4, 2), atOnce(way, 2, 2, none))
		mk("three-callers "+n, d(3, 2, 1), d(4, 3, 2), atOnce(way, 3, 1, none))
		mk("three-callers-working "+n, d(3, 2, 1), d(4, 3, 2), atOnce(way, 3, 2, half))
		mk("overrunning "+n, d(3, 2, 1), d(4, 3, 2), atOnce(way, 3, 2, long))
		mk("arrival-7 "+n, d(2, 1, 1), d(3, 2, 1), arrival(way, 7, Sec/2))
		mk("arrival-5-overrunning "+n, d(2, 1, 1), d(3, 2, 2), arrival(way, 5, 2*Sec))
		mk("arrival-150 "+n, 0, 1, arrival(way, 150, Sec/2))
		mk("twelve-callers "+n, 0, 1, atOnce(way, 12, 8, func(tag int) int64 { return int64(tag%4) * Sec / 50 }))
		mk("after-timeout "+n, d(3, 2, 1), d(4, 3, 2), afterTimeout(way))
		mk("kinds "+n, 0, 1, kinds(way, Sec/2))
		mk("kinds-overrunning "+n, 0, 1, kinds(way, 2*Sec))
		if way > 0 {
			mk("independent-1 "+n, d(0, 2, 1), d(0, 3, 2), independent(way, 1))
			mk("independent-6 "+n, d(0, 1, 1), d(0, 2, 1), independent(way, 6))
			mk("crossing "+n, d(0, 2, 1), d(0, 3, 2), crossing(way))
		}
	}
	zzvs.Main("C11", scs, []string{"a call has arrived when everything is at rest after it was made", "virtual time: computing takes no time"})
}
