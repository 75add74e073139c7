package zzvs

import (
	"context"
	"fmt"
	"os"
	"sort"
	"time"
)

var epoch0 = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

// Now replaces time.Now: it stands still while goroutines run (the coarsest legal clock).
func Now() time.Time {
	if g := me(); g != nil {
		g.h = mix(g.h, uint64(W.now)+0x11)
		return epoch0.Add(time.Duration(W.now))
	}
	return epoch0
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep replaces time.Sleep.
func Sleep(d time.Duration) {
	g := me()
	if g == nil {
		return
	}
	w := W
	if d <= 0 {
		w.point(g, "sleep", nil)
		return
	}
	sleepUntil(g, w.now+int64(d))
}

func sleepUntil(g *G, dl int64) {
	w := W
	if dl < w.now {
		dl = 1<<63 - 1
	}
	g.dl = dl
	w.point(g, "sleep", func() bool { return w.now >= dl })
	g.dl = -1
	g.h = mix(g.h, uint64(w.now)+0x12)
	w.effects()
}

// Timer replaces time.Timer.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	st *timerSt
}
type timerSt struct {
	g      *G
	active bool
	o      obj
}

func (t *Timer) arm(d time.Duration) {
	st := &timerSt{active: true}
	t.st = st
	w := W
	dl := w.now + int64(d)
	if dl < w.now {
		dl = w.now
	}
	g := me()
	g.release(&st.o, 30)
	Go("timer", func() {
		x := me()
		st.g = x
		if st.active {
			x.dl = dl
		}
		w.point(x, "timer", func() bool { return !st.active || w.now >= dl })
		x.dl = -1
		if !st.active {
			return
		}
		st.active = false
		x.acquire(&st.o, 31)
		w.effects()
		if t.f != nil {
			t.f()
			return
		}
		now := epoch0.Add(time.Duration(w.now))
		sc := SC((chan<- time.Time)(t.c)).Val(now)
		Select(true, sc)
	})
}
func (t *Timer) Stop() bool {
	g := me()
	if g == nil {
		return false
	}
	W.point(g, "Timer.Stop", nil)
	a := t.st.active
	t.st.active = false
	if t.st.g != nil {
		t.st.g.dl = -1
	}
	g.acquire(&t.st.o, 32)
	g.release(&t.st.o, 33)
	return a
}
func (t *Timer) Reset(d time.Duration) bool {
	a := t.Stop()
	if t.c != nil {
		// as of Go 1.23 no stale value is received after Reset; older modules may see one,
		// keep it
	}
	t.arm(d)
	return a
}
func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}
func AfterFunc(d time.Duration, f func()) *Timer { t := &Timer{f: f}; t.arm(d); return t }
func After(d time.Duration) <-chan time.Time     { return NewTimer(d).C }

// Ticker replaces time.Ticker.
type Ticker struct {
	C    <-chan time.Time
	stop bool
	g    *G
	d    time.Duration
}

func NewTicker(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, d: d}
	w := W
	Go("ticker", func() {
		t.g = me()
		next := w.now + int64(t.d)
		for !t.stop {
			t.g.dl = next
			dl := next
			w.point(t.g, "ticker", func() bool { return t.stop || w.now >= dl })
			t.g.dl = -1
			if t.stop {
				return
			}
			w.effects()
			Select(true, SC((chan<- time.Time)(c)).Val(epoch0.Add(time.Duration(w.now))))
			next += int64(t.d)
		}
	})
	return t
}
func (t *Ticker) Stop() {
	if g := soft(); g != nil {
		t.stop = true
		if t.g != nil {
			t.g.dl = -1
		}
	}
}
func (t *Ticker) Reset(d time.Duration)      { t.d = d }
func Tick_(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// Exit replaces os.Exit.
func Exit(code int) { exit(fmt.Sprintf("os.Exit(%d)", code)) }

func exit(msg string) {
	w := W
	if w == nil || w.dead || w.cur == nil {
		if w == nil {
			fmt.Println(msg)
			os.Exit(3)
		}
		me()
	}
	w.crash(w.cur, "process exit: "+msg, stack())
	me()
}

func Fatal(a ...interface{})            { exit("log.Fatal: " + fmt.Sprint(a...)) }
func Fatalf(f string, a ...interface{}) { exit("log.Fatal: " + fmt.Sprintf(f, a...)) }
func Fatalln(a ...interface{})          { exit("log.Fatal: " + fmt.Sprintln(a...)) }

type sigReg struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

// Notify replaces signal.Notify: no signal ever arrives unless the harness sends one.
func Notify(c chan<- os.Signal, sig ...os.Signal) {
	if g := me(); g != nil {
		W.point(g, "notify", nil)
		W.Net.signals = append(W.Net.signals, sigReg{c, sig})
	}
}

// SigStop replaces signal.Stop.
func SigStop(c chan<- os.Signal) {
	if g := me(); g != nil {
		var left []sigReg
		for _, r := range W.Net.signals {
			if r.c != c {
				left = append(left, r)
			}
		}
		W.Net.signals = left
	}
}
func Ignore(sig ...os.Signal) {}

// SigReset replaces signal.Reset.
func SigReset(sig ...os.Signal) {
	if g := me(); g != nil {
		var left []sigReg
		for _, r := range W.Net.signals {
			var keep []os.Signal
			for _, s := range r.sigs {
				out := len(sig) == 0
				for _, x := range sig {
					out = out || s == x
				}
				if !out {
					keep = append(keep, s)
				}
			}
			if len(keep) > 0 || len(r.sigs) == 0 && len(sig) > 0 {
				left = append(left, sigReg{r.c, keep})
			}
		}
		W.Net.signals = left
	}
}

// SigContext replaces signal.NotifyContext.
func SigContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	c, cancel := CtxWithCancel(parent)
	ch := make(chan os.Signal, 1)
	Notify(ch, sig...)
	Go("signal", func() {
		Select(false, RC((<-chan os.Signal)(ch)), RC(c.Done()))
		cancel()
	})
	return c, func() { SigStop(ch); cancel() }
}

// SigWaits is the number of registrations for the signal.
func SigWaits(sig os.Signal) int { return len(sigTo(sig)) }

func sigTo(sig os.Signal) (out []chan<- os.Signal) {
	for _, r := range W.Net.signals {
		hit := len(r.sigs) == 0
		for _, s := range r.sigs {
			hit = hit || s == sig
		}
		if hit {
			out = append(out, r.c)
		}
	}
	return
}

// Signal sends the process a signal.
func Signal(sig os.Signal) {
	if me() == nil {
		return
	}
	for _, c := range sigTo(sig) {
		Select(true, SC(c).Val(sig))
	}
}

func Gosched() { Yield() }

func rnd() uint64 {
	w := W
	if w == nil {
		return 4
	}
	w.rnd = mix(w.rnd, 0x1234567)
	return w.rnd
}
func RandInt() int             { return int(rnd() >> 1) }
func RandInt63() int64         { return int64(rnd() >> 1) }
func RandInt31() int32         { return int32(rnd() >> 33) }
func RandUint32() uint32       { return uint32(rnd()) }
func RandUint64() uint64       { return rnd() }
func RandIntn(n int) int       { return int(rnd()>>1) % n }
func RandInt63n(n int64) int64 { return int64(rnd()>>1) % n }
func RandInt31n(n int32) int32 { return int32(rnd()>>33) % n }
func RandFloat64() float64     { return float64(rnd()>>11) / (1 << 53) }
func RandSeed(int64)           {}

// Alive lists the goroutines on a host that are not over.
func Alive(host string) []string {
	var out []string
	for _, x := range W.gs {
		if !x.done && x.host == host && x.what != "settle" && x != W.main {
			out = append(out, x.name+" ("+x.what+")")
		}
	}
	sort.Strings(out)
	return out
}

// Spinning lists the goroutines that wait by trying again and again.
func Spinning() []string {
	var out []string
	for _, x := range W.gs {
		if !x.done && x.spinning {
			out = append(out, x.name+" ("+x.what+")")
		}
	}
	return out
}

// Steps is the number of scheduling points executed so far.
func Steps() int { return W.steps }

// Ticks is the number of loop iterations executed so far.
func Ticks() int64 { return W.ticks }
