// C10: call timeouts are honoured and every call gets exactly one outcome.
package main

import (
	"fmt"
	"math"
	"time"

	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/chancall"
	. "github.com/muguangyi/ferry/zzharness/hk"
	"github.com/muguangyi/ferry/zzvs"
)

// Work is a feature whose methods take the (virtual) time they are told to.
type Work struct {
	ferry.Feature
	Slot ferry.ISlot
	up   func(s ferry.ISlot)
	Runs []int
	Ends []int
}

func (t *Work) OnStart(s ferry.ISlot) {
	t.Slot = s
	if t.up != nil {
		t.up(s)
	}
}

func (t *Work) run(tag int, ns int64) {
	t.Runs = append(t.Runs, tag)
	if ns > 0 {
		sleep(ns)
	}
	t.Ends = append(t.Ends, tag)
}

func sleep(ns int64) { zzvs.Sleep(time.Duration(ns)) }

// Do takes ns and returns what identifies the call.
func (t *Work) Do(tag int, ns int64) (int, string) { t.run(tag, ns); return tag, fmt.Sprint("r", tag) }

// Other is another method doing the same.
func (t *Work) Other(tag int, ns int64) (int, string) {
	t.run(tag, ns)
	return tag, fmt.Sprint("r", tag)
}

// Void has no results.
func (t *Work) Void(tag int, ns int64) { t.run(tag, ns) }

// Fails reports a problem as a result, not as an error.
func (t *Work) Fails(tag int, ns int64) error {
	t.run(tag, ns)
	return nil
}

// conn calls one feature in some way.
type conn interface {
	call(method string, tag int, ns int64) ([]interface{}, error)
	timeout(method string, s float32)
}

type direct struct {
	callee chancall.ICallee
	caller chancall.ICaller // nil: a new one for every call
}

func (d *direct) call(m string, tag int, ns int64) ([]interface{}, error) {
	c := d.caller
	if c == nil {
		c = chancall.NewCaller(d.callee)
	}
	if m == "Void" {
		return nil, c.Call(m, tag, ns)
	}
	return c.CallWithResult(m, tag, ns)
}
func (d *direct) timeout(m string, s float32) { d.callee.SetTimeout(m, s) }

type viaSlot struct {
	from, to ferry.ISlot
	name     string
}

func (d *viaSlot) call(m string, tag int, ns int64) ([]interface{}, error) {
	if m == "Void" {
		return nil, d.from.Call(d.name, m, tag, ns)
	}
	return d.from.CallWithResult(d.name, m, tag, ns)
}
func (d *viaSlot) timeout(m string, s float32) { d.to.SetTimeout(m, s) }

// open makes the way to call a fresh feature: 0 chancall with a caller per call, 1 chancall with one
// caller, 2 a feature of the same dock, 3 a feature of another dock
func open(way int, f *Work) conn {
	switch way {
	case 0:
		return &direct{chancall.NewCallee("W", f), nil}
	case 1:
		c := chancall.NewCallee("W", f)
		return &direct{c, chancall.NewCaller(c)}
	}
	a := &Work{}
	Hub()
	if way == 2 {
		Dock(Host(1), "d", ferry.Carry("A", a, true), ferry.Carry("W", f, true))
		Up(Host(1))
	} else {
		Dock(Host(2), "w", ferry.Carry("W", f, true))
		Up(Host(2))
		Dock(Host(1), "a", ferry.Carry("A", a, true))
		Up(Host(1))
	}
	return &viaSlot{a.Slot, f.Slot, "W"}
}

var ways = []string{"caller per call", "one caller", "same dock", "other dock"}

// call makes one call and checks its outcome; limit 0 is the default.
func call(c conn, m string, tag int, ns int64, limit float32) {
	lim := int64(math.Round(float64(limit) * 1e9))
	if limit == 0 {
		lim = Sec
	}
	began := zzvs.NowNS()
	res, err := c.call(m, tag, ns)
	took := zzvs.NowNS() - began
	judge(m, tag, ns, lim, res, err)
	want := ns
	if ns > lim {
		want = lim
	}
	if diff := took - want; diff > slack(lim) || diff < -slack(lim) {
		zzvs.Fail("moment", "a call of a method taking %v with timeout %v returned (%v, %v) after %v", time.Duration(ns), time.Duration(lim), res, err, time.Duration(took))
	}
	// let a late end happen
	if ns > lim {
		sleep(ns - lim + 1)
	}
}

// the timeout is given as a float32
func slack(lim int64) int64 { return lim/1e6 + 1000 }

func judge(m string, tag int, ns, lim int64, res []interface{}, err error) {
	late := ns > lim+slack(lim)
	early := ns < lim-slack(lim)
	if late && err == nil {
		zzvs.Fail("no timeout", "%s, taking %v with timeout %v, returned %v and no error", m, time.Duration(ns), time.Duration(lim), res)
	}
	if early && err != nil {
		zzvs.Fail("false timeout", "%s, taking %v with timeout %v, returned %v", m, time.Duration(ns), time.Duration(lim), err)
	}
	if err == nil && m != "Void" {
		ok := false
		if m == "Fails" {
			ok = len(res) == 1 && res[0] == nil
		} else if len(res) == 2 {
			n, isInt := Int(res[0])
			ok = isInt && n == int64(tag) && res[1] == fmt.Sprint("r", tag)
		}
		if !ok {
			zzvs.Fail("wrong result", "call %d of %s returned %v", tag, m, res)
		}
	}
	if err != nil && len(res) > 0 {
		zzvs.Fail("two outcomes", "call %d of %s returned both %v and %v", tag, m, res, err)
	}
}

// every timeout of the table against every duration around it, in turn on one feature
func table(way int, quick bool, own ...float32) Maker {
	return func() (func(), func(w *zzvs.World)) {
		f := &Work{}
		n := 0
		body := func() {
			c := open(way, f)
			limits := []float32{0, 0.1, 0.25, 0.5, 0.7, 0.999, 1, 1.5, 2, 2.75, 10, 0.001}
			if quick {
				limits = []float32{0, 0.25, 1.5}
			}
			if len(own) > 0 {
				limits = own
			}
			for _, l := range limits {
				for _, m := range []string{"Do", "Void", "Fails"} {
					if l != 0 {
						c.timeout(m, l)
					}
					lim := int64(float64(l) * 1e9)
					if l == 0 {
						lim = Sec
					}
					for _, ns := range []int64{0, lim / 2, lim - lim/100, lim + lim/100, 2*lim + 7, 5 * lim, 1} {
						call(c, m, n, ns, l)
						n++
					}
				}
			}
		}
		return body, func(w *zzvs.World) {
			if len(f.Runs) != n || len(f.Ends) != n {
				zzvs.Fail("executions", "%d calls, %d executions", n, len(f.Runs))
			}
			for i, t := range f.Runs {
				if t != i {
					zzvs.Fail("executions", "execution %d is of call %d", i, t)
				}
			}
		}
	}
}

// timeouts of methods are independent of each other and of another feature's; unknown names do no harm
func perMethod(way int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		f := &Work{}
		body := func() {
			c := open(way, f)
			c.timeout("Do", 0.25)
			c.timeout("Void", 3)
			c.timeout("Nothing", 0.01)
			c.timeout("", 0.01)
			c.timeout("do", 0.01)
			call(c, "Other", 0, Sec/2, 0)
			call(c, "Other", 1, 2*Sec, 0)
			call(c, "Do", 2, Sec/2, 0.25)
			call(c, "Do", 3, Sec/8, 0.25)
			call(c, "Void", 4, 2*Sec, 3)
			call(c, "Void", 5, 4*Sec, 3)
			c.timeout("Do", 2)
			call(c, "Do", 6, Sec, 2)
			call(c, "Do", 7, 3*Sec, 2)
			c.timeout("Do", 0.5)
			call(c, "Do", 8, Sec, 0.5)
			call(c, "Other", 9, 9*Sec/10, 0)
		}
		return body, func(w *zzvs.World) {
			if len(f.Ends) != 10 {
				zzvs.Fail("executions", "10 calls, executions %v", f.Ends)
			}
		}
	}
}

// a call made as soon as the one before timed out, and more: late results go nowhere
func late(way int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		f := &Work{}
		done := false
		body := func() {
			c := open(way, f)
			c.timeout("Do", 1)
			c.timeout("Void", 1)
			next := 0
			one := func(m string, ns int64) (int64, error) {
				t0 := zzvs.NowNS()
				tag := next
				next++
				res, err := c.call(m, tag, ns)
				judge(m, tag, ns, Sec, res, err)
				return zzvs.NowNS() - t0, err
			}
			for _, m := range []string{"Do", "Void", "Do"} {
				one(m, 11*Sec/10) // times out, ends 0.1 s later
				if d, err := one("Do", Sec/10); err == nil && d > Sec/2 {
					zzvs.Fail("moment", "the call after a timeout took %v", time.Duration(d))
				}
				one("Void", 12*Sec/10)
				one("Do", 0)
				one("Do", 0)
				one("Do", 15*Sec/10)
				sleep(Sec / 2) // the method ends
				one("Do", Sec/10)
				one("Do", 15*Sec/10)
				sleep(Sec / 5)
				one("Do", Sec/10) // queued while the method still runs
			}
			done = true
		}
		return body, func(w *zzvs.World) {
			if !done {
				zzvs.Fail("never returned", "a call did not return (executions %v)", f.Runs)
			}
		}
	}
}

// end and expiry at the same moment, or the clock running ahead: either outcome, but only one, and
// the calls that follow are not touched by it
func tie(way, n int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		f := &Work{}
		done := 0
		body := func() {
			c := open(way, f)
			for i := 0; i < n; i++ {
				res, err := c.call("Do", i, Sec)
				judge("Do", i, Sec, Sec, res, err)
				done++
			}
			res, err := c.call("Do", n, Sec/8)
			// the clock may have been ahead of a goroutine that was ready: anything but a wrong result
			judge("Do", n, Sec, Sec, res, err)
			done++
			sleep(10 * Sec)
			res, err = c.call("Do", n+1, 0)
			judge("Do", n+1, Sec, Sec, res, err)
			done++
		}
		return body, func(w *zzvs.World) {
			if done != n+2 {
				zzvs.Fail("never returned", "call %d did not return", done)
			}
			if len(f.Runs) != n+2 {
				zzvs.Fail("executions", "%d calls executed %v", n+2, f.Runs)
			}
		}
	}
}

// callers at once: each has one outcome, its own
func several(way int, ns ...int64) Maker {
	return func() (func(), func(w *zzvs.World)) {
		f := &Work{}
		done := 0
		body := func() {
			c := open(way, f)
			for i, d := range ns {
				i, d := i, d
				zzvs.Go("caller", func() {
					res, err := c.call("Do", i, d)
					judge("Do", i, d, Sec, res, err)
					done++
				})
			}
		}
		return body, func(w *zzvs.World) {
			if done != len(ns) {
				zzvs.Fail("never returned", "%d of %d calls returned", done, len(ns))
			}
			if len(f.Runs) != len(ns) || len(f.Ends) != len(ns) {
				zzvs.Fail("executions", "%d calls, executions %v", len(ns), f.Runs)
			}
		}
	}
}

// the timeout is changed while calls are running: they keep an outcome of their own, and the calls
// that start after the change use it
func changed(way int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		f := &Work{}
		done := 0
		body := func() {
			c := open(way, f)
			zzvs.Go("caller", func() {
				res, err := c.call("Do", 0, Sec/2)
				if err == nil {
					judge("Do", 0, 0, Sec, res, err)
				}
				done++
			})
			zzvs.Go("changer", func() { c.timeout("Do", 0.25); c.timeout("Do", 3) })
			sleep(5 * Sec)
			call(c, "Do", 1, 2*Sec, 3)
			call(c, "Do", 2, 4*Sec, 3)
			done++
		}
		return body, func(w *zzvs.World) {
			if done != 2 {
				zzvs.Fail("never returned", "only %d returned", done)
			}
		}
	}
}

// hundreds of calls, most of which time out: one outcome each, its own
func many(way, n int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		f := &Work{}
		done := 0
		body := func() {
			c := open(way, f)
			c.timeout("Do", 0.25)
			for ; done < n; done++ {
				ns := int64(Sec / 8)
				if done%4 > 0 {
					ns = int64(done%4) * 3 * Sec / 10
				}
				began := zzvs.NowNS()
				res, err := c.call("Do", done, ns)
				judge("Do", done, ns, Sec/4, res, err)
				if took := zzvs.NowNS() - began; took > Sec/4+slack(Sec/4) {
					zzvs.Fail("moment", "call %d returned after %v", done, time.Duration(took))
				}
				if done%2 == 0 || ns < Sec/2 {
					sleep(ns)
				} else {
					sleep(ns - Sec/4) // the method ends and the next call is made at the same moment
				}
			}
		}
		return body, func(w *zzvs.World) {
			if done != n || len(f.Ends) != n {
				zzvs.Fail("never returned", "%d of %d calls returned, %d were executed", done, n, len(f.Ends))
			}
			for i, t := range f.Runs {
				if t != i {
					zzvs.Fail("executions", "execution %d is of call %d", i, t)
				}
			}
		}
	}
}

// a method calling a slow one of another feature gets that one's timeout, in time to go on
func nested(way int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		f := &Work{}
		outer := &Outer{}
		var res []interface{}
		var err error
		var took int64
		body := func() {
			c := open(way, f)
			c.timeout("Do", 0.5)
			outer.c = c
			o := chancall.NewCallee("O", outer)
			t0 := zzvs.NowNS()
			res, err = chancall.NewCaller(o).CallWithResult("Go")
			took = zzvs.NowNS() - t0
		}
		return body, func(w *zzvs.World) {
			if err != nil || len(res) != 1 || res[0] != "inner timeout" || took > Sec*6/10 || took < Sec*4/10 {
				zzvs.Fail("nested", "the outer call returned %v, %v after %v", res, err, time.Duration(took))
			}
		}
	}
}

// Outer calls through to the feature under test.
type Outer struct{ c conn }

func (o *Outer) Go() string {
	_, err := o.c.call("Do", 0, 5*Sec)
	if err != nil {
		return "inner timeout"
	}
	return "inner done"
}

func main() {
	var scs []*zzvs.Scenario
	for way, name := range ways {
		loc, rem := way < 2, way == 3
		q := func(a, b, c int) int {
			switch {
			case loc:
				return a
			case rem:
				return c
			}
			return b
		}
		mk := func(s string, quick, thorough int, m Maker, cfg func(w *zzvs.World)) {
			scs = append(scs, &zzvs.Scenario{Name: s + " (" + name + ")", Quick: quick, Thorough: thorough, New: m, Config: cfg})
		}
		adv := func(w *zzvs.World) { w.TimeAdv = true }
		mk("table", 0, 0, table(way, false), nil)
		mk("table-long", 0, 0, table(way, false, 61, 601, 3601, 7300, 90000, 1e6), nil)
		mk("table-tiny", 0, 0, table(way, false, 0.0001, 0.00001, 1e-6), nil)
		mk("short-table", 1, 2, table(way, true), nil)
		mk("per-method", q(2, 2, 1), q(4, 3, 2), perMethod(way), nil)
		mk("late", q(2, 2, 1), q(3, 3, 2), late(way), nil)
		mk("tie", q(3, 3, 2), q(4, 3, 2), tie(way, 1), nil)
		mk("tie-3", q(2, 2, 1), q(3, 3, 2), tie(way, 3), nil)
		mk("tie-early-clock", q(3, 2, 2), q(4, 3, 2), tie(way, 1), adv)
		if way != 1 {
			mk("several", q(2, 2, 1), q(3, 3, 2), several(way, 2*Sec, Sec/2, 0, 3*Sec), nil)
			mk("several-ties", q(2, 2, 1), q(3, 3, 2), several(way, Sec, Sec, Sec/2), nil)
			mk("changed", q(2, 2, 1), q(3, 3, 2), changed(way), nil)
		}
		mk("many", 0, 0, many(way, 600), func(w *zzvs.World) { w.MaxSteps = 1 << 30 })
		mk("nested", q(2, 2, 1), q(3, 2, 2), nested(way), nil)
	}
	zzvs.Main("C10", scs, []string{
		"virtual time: computing takes no time, the clock moves when nothing can run (or, where stated, at any moment)",
		"a method's time counts from the moment it is executed"})
}
