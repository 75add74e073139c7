// Package zzvs is the controlled runtime the instrumented copy of the repository runs on:
// a cooperative scheduler, a virtual clock, a virtual network, synchronization objects and
// a happens-before data-race detector.  Exactly one goroutine runs at a time; every other
// one is parked at a scheduling point.
package zzvs

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"unsafe"
)

// W is the execution in progress (nil between executions).
var W *World

// World is one execution.
type World struct {
	// configuration, set by the harness before the body runs
	TimeAdv    bool                  // firing the clock early is a deviation
	MaxTime    int64                 // the clock never passes this (ns)
	MaxSteps   int                   // step horizon
	SpinBudget int                   // useless iterations of a waiting loop before it counts as blocked
	ReadSplit  func(avail int) []int // alternative sizes of a network read (besides avail)
	ConnCap    int                   // capacity of a connection's in-flight buffer, 0: unbounded
	MapOrders  bool                  // order of map iteration is a choice
	Preempt    bool                  // scheduling deviations are explored (default true)
	Freeze     bool                  // freezing a goroutine is a deviation (default true)

	Data    interface{} // harness state
	Part    int         // see Scenario.Parts
	Outcome string      // digest of what was observed, for the coverage report

	gs     []*G // live, ordered by path
	all    int
	cur    *G
	main   *G
	now    int64
	steps  int
	ticks  int64
	effect uint64
	doneH  uint64
	envH   uint64

	dead   bool
	reason string
	doneCh chan struct{}
	wg     sync.WaitGroup

	// choices
	devs    []Dev
	devi    int
	npos    int
	nalts   []int32 // alternatives of positions after the last deviation
	pruneOK bool
	ex      *Explorer

	mem   map[unsafe.Pointer]*shadow
	atoms map[unsafe.Pointer]*obj
	chans map[unsafe.Pointer]*chanState
	maps  map[unsafe.Pointer]*shadow
	Net   *Net
	rnd   uint64

	Doing    string // what the harness is trying, named when the process dies
	Crash    string // the process died: panic, fatal exit, ...
	Races    []Race
	raceSeen map[[2]int32]bool
	Log      []string // trace, when tracing
	Tracing  bool
	Faults   []string // failures recorded by the harness while running
}

// Dev is one deviation from the default execution: at choice number Pos take alternative Alt.
type Dev struct{ Pos, Alt int32 }

// G is a controlled goroutine.
type G struct {
	id     int
	path   string
	h      uint64
	vc     []uint32
	wake   chan struct{}
	en     func() bool
	what   string
	done   bool
	frozen bool
	dl     int64
	host   string
	nspawn int
	name   string
	daemon bool

	loopEff  map[int32]uint64
	loopOps  map[int32]uint64
	loopAt   map[int32]uint64
	points   int    // scheduling points
	ops      uint64 // scheduling points and reads of shared memory
	myEff    uint64 // effects caused by this goroutine
	spinning bool
	spinEff  uint64 // w.effect when the last useless iteration began
	spinLeft int
	spinSite int32
	op       *selOp // channel operation it waits in
	iterEff  uint64
}

type obj struct {
	vc []uint32
	h  uint64
}

func mix(a, b uint64) uint64 {
	x := a ^ (b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2))
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

func hstr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func join(dst []uint32, src []uint32) []uint32 {
	for len(dst) < len(src) {
		dst = append(dst, 0)
	}
	for i, v := range src {
		if v > dst[i] {
			dst[i] = v
		}
	}
	return dst
}

func (g *G) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func (g *G) acquire(o *obj, kind uint64) {
	g.vc = join(g.vc, o.vc)
	g.h = mix(mix(g.h, o.h), kind)
}

func (g *G) release(o *obj, kind uint64) {
	g.h = mix(mix(g.h, o.h), kind)
	o.vc = join(o.vc, g.vc)
	o.h = g.h
	g.tick()
}

func (w *World) effects() {
	w.effect++
	w.cur.myEff++
}

// me returns the running goroutine, nil outside an execution; a goroutine of a finished
// execution is unwound here.
func me() *G {
	w := W
	if w == nil {
		return nil
	}
	if w.dead {
		runtime.Goexit()
	}
	return w.cur
}

// soft is me for release operations that deferred code may run while being unwound.
func soft() *G {
	w := W
	if w == nil || w.dead {
		return nil
	}
	return w.cur
}

func (w *World) trace(f string, a ...interface{}) {
	if w.Tracing {
		n := "-"
		if w.cur != nil {
			n = w.cur.name
		}
		w.Log = append(w.Log, fmt.Sprintf("%6d %8.3fms %-22s ", w.steps, float64(w.now)/1e6, n)+plain(fmt.Sprintf(f, a...), 1000))
	}
}

// point parks the running goroutine at an operation until the scheduler picks it while the
// operation is enabled (en nil: always).
func (w *World) point(g *G, what string, en func() bool) {
	w.step()
	g.ops++
	g.points++
	g.h = mix(g.h, 9) // no state repeats within an execution
	if w.steps > w.MaxSteps {
		w.finish(g, "horizon")
	}
	g.en = en
	g.what = what
	next := w.schedule(g)
	if next != g {
		w.transfer(g, next)
	}
	g.en = nil
	g.spinning = false
}

func (w *World) transfer(g, next *G) {
	w.cur = next
	next.wake <- struct{}{}
	<-g.wake
	if w.dead {
		runtime.Goexit()
	}
}

func (g *G) ready() bool { return g.en == nil || g.en() }

// schedule picks the goroutine to run next; g is the running one (possibly just done).
func (w *World) schedule(g *G) *G {
	for {
		list := w.enabled(g, false)
		if len(list) == 0 {
			any := false
			for _, x := range w.gs {
				if x.frozen {
					x.frozen = false
					any = true
				}
			}
			if any {
				continue
			}
			list = w.enabled(g, true)
		}
		canAdv := false
		if len(list) == 0 || w.TimeAdv {
			canAdv = w.nextDeadline() >= 0
		}
		if len(list) == 0 {
			if canAdv {
				w.atRest()
				w.advance()
				continue
			}
			w.finish(g, "quiescent")
		}
		n := 1
		if w.Preempt {
			n = len(list)
		}
		frz := -1
		adv := -1
		if w.Preempt && w.Freeze && len(list) > 1 {
			frz = n
			n++
		}
		if w.TimeAdv && canAdv {
			adv = n
			n++
		}
		c := 0
		if n > 1 {
			c = w.choose(g, n, list[0])
		}
		if c == adv {
			w.trace("clock fires early")
			w.advance()
			continue
		}
		pick := list[0]
		if c == frz {
			w.trace("freeze %s at %s", list[0].name, list[0].what)
			list[0].frozen = true
			pick = list[1]
		} else {
			pick = list[c]
			if c > 0 {
				w.trace("run %s instead of %s (at %s)", pick.name, list[0].name, list[0].what)
			}
		}
		if pick.spinning && pick.spinEff == w.effect {
			pick.spinLeft--
		}
		return pick
	}
}

var enabledBuf []*G

func (w *World) enabled(g *G, spinners bool) []*G {
	list := enabledBuf[:0]
	n := len(w.gs)
	at := sort.Search(n, func(i int) bool { return w.gs[i].path >= g.path })
	for k := 0; k < n; k++ {
		x := w.gs[(at+k)%n]
		if x.frozen || x.done {
			continue
		}
		if x.spinning && x.spinEff == w.effect {
			if !spinners || x.spinLeft <= 0 {
				continue
			}
		}
		if x.ready() {
			list = append(list, x)
		}
	}
	enabledBuf = list
	return list
}

func (w *World) nextDeadline() int64 {
	m := int64(-1)
	for _, x := range w.gs {
		if x.dl > w.now && (m < 0 || x.dl < m) {
			m = x.dl
		}
	}
	if m > w.MaxTime {
		return -1
	}
	return m
}

func (w *World) advance() {
	w.now = w.nextDeadline()
	w.envH = mix(w.envH, uint64(w.now))
	w.effect++
	w.trace("-- clock %.3fms", float64(w.now)/1e6)
}

// stateKey identifies the reached state by the happens-before history of every goroutine.
func (w *World) stateKey(g *G, n int, first *G) uint64 {
	k := w.doneH
	for _, x := range w.gs {
		v := mix(hstr(x.path), x.h)
		if x.frozen {
			v = mix(v, 1)
		}
		if x.spinning {
			v = mix(v, uint64(2+x.spinLeft))
			if x.spinEff == w.effect {
				v = mix(v, 77)
			}
		}
		k += v
	}
	k = mix(k, hstr(g.path))
	if first != nil {
		k = mix(k, hstr(first.path))
	}
	k = mix(k, uint64(w.now))
	k = mix(k, w.envH)
	return mix(k, uint64(n))
}

func (w *World) choose(g *G, n int, first *G) int {
	pos := int32(w.npos)
	w.npos++
	c := 0
	if w.devi < len(w.devs) {
		d := w.devs[w.devi]
		if d.Pos == pos {
			if int(d.Alt) >= n {
				w.finish(g, "diverged")
			}
			w.devi++
			c = int(d.Alt)
		} else if d.Pos < pos {
			w.finish(g, "diverged")
		}
	} else {
		w.nalts = append(w.nalts, int32(n))
		if w.pruneOK && w.ex.visit(w.stateKey(g, n, first), n) {
			w.nalts = w.nalts[:len(w.nalts)-1]
			w.finish(g, "pruned")
		}
	}
	return c
}

// Choose is an environment choice: 0 is the default, anything else a deviation.
func Choose(n int) int {
	g := me()
	if g == nil || n <= 1 {
		return 0
	}
	c := W.choose(g, n, nil)
	g.h = mix(g.h, uint64(c)+0x5151)
	return c
}

// finish ends the execution; it never returns to a running goroutine.
func (w *World) finish(g *G, reason string) {
	w.reason = reason
	w.dead = true
	w.doneCh <- struct{}{}
	if g.done {
		runtime.Goexit()
	}
	<-g.wake
	runtime.Goexit()
}

func (w *World) newG(parent *G, name string) *G {
	x := &G{id: w.all, wake: make(chan struct{}, 1), dl: -1, name: name}
	w.all++
	if parent != nil {
		k := parent.nspawn
		parent.nspawn++
		x.path = parent.path + string([]byte{byte(1 + k>>8), byte(k)})
		x.host = parent.host
		x.vc = append([]uint32(nil), parent.vc...)
		x.h = mix(parent.h, uint64(k)+0x60)
		x.daemon = parent.daemon
		parent.tick()
		parent.h = mix(parent.h, uint64(k)+0x61)
	} else {
		x.path = "m"
		x.h = 1
		x.host = "10.0.0.1"
	}
	x.tick()
	i := sort.Search(len(w.gs), func(i int) bool { return w.gs[i].path >= x.path })
	w.gs = append(w.gs, nil)
	copy(w.gs[i+1:], w.gs[i:])
	w.gs[i] = x
	return x
}

func (w *World) start(x *G, f func()) {
	w.wg.Add(1)
	go func() {
		defer w.wg.Done()
		<-x.wake
		normal := false
		defer func() {
			r := recover()
			if !w.dead && !normal {
				if r != nil {
					w.crash(x, fmt.Sprintf("panic: %v", r), string(debug.Stack()))
				}
				// runtime.Goexit by the program itself
			}
			if w.dead {
				x.done = true
				return
			}
			w.exitG(x)
		}()
		if w.dead {
			return
		}
		f()
		normal = true
	}()
}

func (w *World) exitG(x *G) {
	x.done = true
	w.effects()
	w.doneH += mix(hstr(x.path), x.h)
	for i, y := range w.gs {
		if y == x {
			w.gs = append(w.gs[:i:i], w.gs[i+1:]...)
			break
		}
	}
	w.trace("exits")
	if len(w.gs) == 0 {
		w.reason = "quiescent"
		w.dead = true
		w.doneCh <- struct{}{}
		return
	}
	next := w.schedule(x)
	w.cur = next
	next.wake <- struct{}{}
}

// crash ends the execution because the (simulated) process died.
func (w *World) crash(g *G, msg, stack string) {
	if w.Crash == "" {
		if w.Doing != "" {
			msg += " (on " + w.Doing + ")"
		}
		w.Crash = msg + " in " + g.name + callers(stack)
		w.trace("CRASH %s", w.Crash)
	}
	w.reason = "crash"
	w.dead = true
	w.doneCh <- struct{}{}
	<-g.wake
}

func callers(stack string) string {
	var out []string
	for _, l := range strings.Split(stack, "\n") {
		if i := strings.Index(l, "/mcsrc/"); i >= 0 && !strings.Contains(l, "/zzvs/") && !strings.Contains(l, "/zzharness/") {
			s := l[i+7:]
			if j := strings.Index(s, " +"); j > 0 {
				s = s[:j]
			}
			out = append(out, s)
			if len(out) == 4 {
				break
			}
		}
	}
	if out == nil {
		return ""
	}
	return " at " + strings.Join(out, " < ")
}

// Go starts a controlled goroutine.
func Go(name string, f func()) {
	g := me()
	if g == nil {
		if W == nil {
			panic("zzvs: goroutine started outside an execution: " + name)
		}
		return
	}
	w := W
	x := w.newG(g, name)
	w.trace("go %s", name)
	w.start(x, f)
}

// SetHost sets the host the running goroutine (and its descendants) lives on.
func SetHost(ip string) { W.cur.host = ip }

// Name names the running goroutine.
func Name(s string) { W.cur.name = s }

// Now is the virtual time in ns.
func NowNS() int64 { return W.now }

// Yield is a plain scheduling point.
func Yield() {
	if g := me(); g != nil {
		W.point(g, "yield", nil)
	}
}

// Await blocks the running harness goroutine until cond holds.  It also synchronizes with
// everything that happened (the harness may read anything afterwards).
func Await(what string, cond func() bool) {
	g := me()
	W.point(g, "await "+what, cond)
	for _, x := range W.gs {
		g.vc = join(g.vc, x.vc)
		g.h = mix(g.h, x.h)
	}
}

// Settle blocks until nothing else can run without the clock advancing.
func Settle() {
	g := me()
	w := W
	w.point(g, "settle", func() bool {
		for _, x := range w.gs {
			if x == g || x.done {
				continue
			}
			if x.what == "settle" {
				continue
			}
			if x.spinning && x.spinEff == w.effect && x.spinLeft <= 0 {
				continue
			}
			if x.ready() {
				return false
			}
		}
		return true
	})
	w.atRest()
	for _, x := range w.gs {
		g.vc = join(g.vc, x.vc)
		g.h = mix(g.h, x.h)
	}
}

// LoopIn is called before such a loop begins.
func LoopIn(site int32) {
	if w := W; w != nil && !w.dead && w.cur != nil && w.cur.loopEff != nil {
		delete(w.cur.loopEff, site)
	}
}

// At is the value of a pointer.
func At[T any](p *T) uint64 { return uint64(uintptr(unsafe.Pointer(p))) }

// Loop is called at the head of loops that may wait by spinning; moves are the local variables
// the loop changes.
func Loop(site int32, moves ...uint64) {
	g := me()
	if g == nil {
		return
	}
	w := W
	w.tickCheck(g)
	if g.loopEff == nil {
		g.loopEff = map[int32]uint64{}
		g.loopOps = map[int32]uint64{}
		g.loopAt = map[int32]uint64{}
	}
	at := uint64(len(moves))
	for _, m := range moves {
		at = mix(at, m)
	}
	last, ok := g.loopEff[site]
	budget := w.SpinBudget
	if ok && at != g.loopAt[site] {
		budget *= 25 // a count of attempts, or real progress
	}
	if ok && last == g.myEff && g.loopOps[site] != g.ops {
		// one full iteration that looked at shared state without any effect of its own: it
		// is waiting for others
		if !g.wasSpin(site) {
			g.spinLeft = budget
			g.spinSite = site
		}
		g.spinning = true
		if g.spinEff != w.effect {
			g.spinLeft = budget
		}
		// it read shared state during the iteration that just ended; re-run it if anything
		// changed since that iteration began.
		g.spinEff = g.iterEff
		if g.iterEff != w.effect {
			g.spinLeft = budget
		}
		w.step()
		if w.steps > w.MaxSteps {
			w.finish(g, "horizon")
		}
		g.en = nil
		g.what = "spin " + siteName(site)
		next := w.schedule(g)
		if next != g {
			w.transfer(g, next)
		}
		g.en = nil
		g.spinning = false
	} else {
		g.spinSite = -1
	}
	g.loopEff[site] = g.myEff
	g.loopOps[site] = g.ops
	g.loopAt[site] = at
	g.iterEff = w.effect
}

// Tick is called at the head of other loops: a pure computation that never ends is reported.
func Tick() {
	if w := W; w != nil && w.cur != nil && !w.dead {
		w.tickCheck(w.cur)
	}
}

func (w *World) tickCheck(g *G) {
	w.ticks++
	if w.ticks > 30_000_000 {
		w.finish(g, "horizon")
	}
}

func (g *G) wasSpin(site int32) bool { return g.spinSite == site }

// stepWord is shared with the master: it moves as long as the execution does.
var stepWord *int64

func (w *World) step() {
	w.steps++
	if stepWord != nil {
		atomic.AddInt64(stepWord, 1)
	}
}
