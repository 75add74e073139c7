// Package hk is what the harnesses share: closed systems of hubs and docks on the virtual
// network, test features, and observations.
package hk

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/zzvs"
)

// HubHost and HubAddr locate the hub of the system.
const (
	HubHost = "10.0.0.1"
	HubPort = 9000
	HubAddr = "10.0.0.1:9000"
)

// ErrStr is "" for nil.
func ErrStr(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// Hub starts a hub and waits until it listens.
func Hub(black ...int) {
	HubAt(HubHost, HubPort, black...)
}

// HubAt starts a hub on a host.
func HubAt(host string, port int, black ...int) {
	zzvs.Go("hub", func() {
		zzvs.SetHost(host)
		ferry.Serve(fmt.Sprintf("%s:%d", host, port), black...)
	})
	zzvs.Await("hub listening", func() bool { return Listening(host, port) })
}

// Listening reports whether something listens.
func Listening(host string, port int) bool {
	for _, l := range zzvs.W.Net.Listens {
		if l.Host == host && l.Port == port && l.L.Open() {
			return true
		}
	}
	return false
}

// ListeningDock reports whether a dock on the host listens.
func ListeningDock(host string) bool {
	for _, l := range zzvs.W.Net.Listens {
		if l.Host == host && l.Port > 20000 && l.L.Open() {
			return true
		}
	}
	return false
}

// Dock starts a dock on a host in its own goroutine.
func Dock(host, name string, slots ...ferry.ISlot) {
	DockTo(HubAddr, host, name, slots...)
}

// DockTo starts a dock registering with the hub at addr.
func DockTo(addr, host, name string, slots ...ferry.ISlot) {
	zzvs.Go("dock "+name, func() {
		zzvs.SetHost(host)
		ferry.Startup(addr, name, slots...)
	})
}

// Feat is a feature that records what happens to it.
type Feat struct {
	Id       string
	Started  int
	Stopped  int
	Slot     ferry.ISlot
	OnUp     func(s ferry.ISlot)
	OnDown   func(s ferry.ISlot)
	Execs    []string // executions in order
	Running  int
	MaxRun   int
	EchoWork func(tag int) // runs inside Echo
}

func (f *Feat) OnStart(s ferry.ISlot) {
	f.Started++
	f.Slot = s
	zzvs.Event("start " + f.Id)
	if f.OnUp != nil {
		f.OnUp(s)
	}
}

func (f *Feat) OnDestroy(s ferry.ISlot) {
	f.Stopped++
	zzvs.Event("destroy " + f.Id)
	if f.OnDown != nil {
		f.OnDown(s)
	}
}

func (f *Feat) enter(what string) {
	f.Execs = append(f.Execs, what)
	f.Running++
	if f.Running > f.MaxRun {
		f.MaxRun = f.Running
	}
	zzvs.Event(f.Id + " runs " + what)
}

func (f *Feat) leave() { f.Running-- }

// Echo returns what identifies the feature and the call.
func (f *Feat) Echo(tag int, s string) (int, string) {
	f.enter(fmt.Sprintf("Echo(%d,%s)", tag, s))
	if f.EchoWork != nil {
		f.EchoWork(tag)
	}
	f.leave()
	return tag + 1000, f.Id + "/" + s
}

// Note has no results.
func (f *Feat) Note(tag int) {
	f.enter(fmt.Sprintf("Note(%d)", tag))
	f.leave()
}

// Count counts executions of one call.
func (f *Feat) Count(what string) int {
	n := 0
	for _, e := range f.Execs {
		if e == what {
			n++
		}
	}
	return n
}

// Int converts any integer representation.
func Int(v interface{}) (int64, bool) {
	switch x := v.(type) {
	case int:
		return int64(x), true
	case int8:
		return int64(x), true
	case int16:
		return int64(x), true
	case int32:
		return int64(x), true
	case int64:
		return x, true
	}
	return 0, false
}

// Call is one call made and its outcome.
type Call struct {
	Who, Name string
	Tag       int
	Arg       string
	Void      bool
	Returned  bool
	Res       []interface{}
	Err       error
	At, Began int64
}

// Calls are the calls of an execution.
type Calls struct{ L []*Call }

// Echo calls Echo on a feature through a slot and records the outcome.
func (c *Calls) Echo(s ferry.ISlot, who, name string, tag int, arg string) *Call {
	x := &Call{Who: who, Name: name, Tag: tag, Arg: arg, Began: zzvs.NowNS()}
	c.L = append(c.L, x)
	res, err := s.CallWithResult(name, "Echo", tag, arg)
	x.Returned, x.Res, x.Err, x.At = true, res, err, zzvs.NowNS()
	zzvs.Eventf("%s: %s.Echo(%d) -> %v %v", who, name, tag, res, err)
	return x
}

// Note calls Note.
func (c *Calls) Note(s ferry.ISlot, who, name string, tag int) *Call {
	x := &Call{Who: who, Name: name, Tag: tag, Void: true, Began: zzvs.NowNS()}
	c.L = append(c.L, x)
	x.Err = s.Call(name, "Note", tag)
	x.Returned, x.At = true, zzvs.NowNS()
	zzvs.Eventf("%s: %s.Note(%d) -> %v", who, name, tag, x.Err)
	return x
}

// Good reports how a successful Echo went wrong, "" if it did not.
func (x *Call) Good(ids ...string) string {
	if !x.Returned {
		return "never returned"
	}
	if x.Err != nil {
		return "error " + x.Err.Error()
	}
	if x.Void {
		return ""
	}
	if len(x.Res) != 2 {
		return fmt.Sprintf("returned %v", x.Res)
	}
	n, ok := Int(x.Res[0])
	s, ok2 := x.Res[1].(string)
	if !ok || !ok2 || n != int64(x.Tag)+1000 {
		return fmt.Sprintf("returned %v", x.Res)
	}
	for _, id := range ids {
		if s == id+"/"+x.Arg {
			return ""
		}
	}
	return fmt.Sprintf("returned %v", x.Res)
}

// Exec is the execution the call should have caused.
func (x *Call) Exec() string {
	if x.Void {
		return fmt.Sprintf("Note(%d)", x.Tag)
	}
	return fmt.Sprintf("Echo(%d,%s)", x.Tag, x.Arg)
}

// Desc names the call.
func (x *Call) Desc() string { return fmt.Sprintf("%s's call %s.%s", x.Who, x.Name, x.Exec()) }

// CheckOnce checks that every call ran exactly once on the feature expected to serve it and
// returned that execution's result.
func (c *Calls) CheckOnce(feats map[string]*Feat) {
	want := map[string]int{}
	for _, x := range c.L {
		f := feats[x.Name]
		if g := x.Good(f.Id); g != "" {
			zzvs.Fail("outcome", "%s: %s", x.Desc(), g)
		}
		want[f.Id+" "+x.Exec()]++
	}
	for _, f := range feats {
		seen := map[string]bool{}
		for _, e := range f.Execs {
			if n := f.Count(e); !seen[e] && n != want[f.Id+" "+e] {
				zzvs.Fail("executions", "%s executed %d times on %s, called %d times", e, n, f.Id, want[f.Id+" "+e])
			}
			seen[e] = true
		}
	}
	for k, n := range want {
		for _, f := range feats {
			if strings.HasPrefix(k, f.Id+" ") {
				if m := f.Count(k[len(f.Id)+1:]); m != n {
					zzvs.Fail("executions", "%s executed %d times, called %d times", k, m, n)
				}
			}
		}
	}
}

// AllReturned reports whether every call returned.
func (c *Calls) AllReturned() string {
	for _, x := range c.L {
		if !x.Returned {
			return x.Desc()
		}
	}
	return ""
}

// Outcome digests the observations for the coverage report.
func (c *Calls) Outcome(feats ...*Feat) string {
	var b []string
	for _, f := range feats {
		b = append(b, f.Id+":"+strings.Join(f.Execs, ","))
	}
	for _, x := range c.L {
		b = append(b, fmt.Sprintf("%s>%s=%v/%v", x.Who, x.Exec(), x.Res, x.Err))
	}
	sort.Strings(b)
	return strings.Join(b, "; ")
}

// StopAt keeps the clock from passing ns.
func StopAt(ns int64) func(w *zzvs.World) {
	return func(w *zzvs.World) { w.MaxTime = ns }
}

// Sec is a second in virtual ns.
const Sec = int64(1e9)

// Maker is what a scenario's New has to be.
type Maker = func() (func(), func(w *zzvs.World))

// Silence lets a day pass in which the harness does nothing, and everything come to rest.
func Silence() {
	zzvs.Settle()
	zzvs.Sleep(25 * 3600 * time.Second)
	zzvs.Settle()
}

// Callers starts goroutines each making calls in turn.
func Callers(n int, f func(i int)) {
	for i := 0; i < n; i++ {
		i := i
		zzvs.Go(fmt.Sprintf("caller%d", i), func() { f(i) })
	}
}

// Host is the i-th dock host.
func Host(i int) string { return fmt.Sprintf("10.0.0.%d", 10+i) }

// Up waits until a dock is listening and ready on the host and everything is quiet.
func Up(host string) {
	zzvs.Await("dock up", func() bool { return ListeningDock(host) })
	zzvs.Settle()
}

// NoRefused checks that no dial was refused.
func NoRefused(w *zzvs.World) {
	if len(w.Net.Refused) > 0 {
		zzvs.Fail("dial refused", "a dock was sent to a place nobody listens at: %v", w.Net.Refused)
	}
}

// Made checks the number of calls made.
func (c *Calls) Made(n int) {
	if len(c.L) != n {
		zzvs.Fail("calls made", "%d calls were made instead of %d", len(c.L), n)
	}
}
