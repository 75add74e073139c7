// Package litmus interprets small concurrent programs with Go's own primitives.  Built as it is, it
// shows what the Go runtime does; built through the rewriter, what the engine makes of it.
package litmus

import (
	"context"
	"fmt"
	"sync"
	"time"
)

// Unit of time.
var Unit = time.Millisecond

type T struct {
	Log  []string
	Over bool
}

// S is what the threads share.
type S struct {
	u, b chan string
	m    sync.Mutex
	rw   sync.RWMutex
	c    *sync.Cond
	wg   sync.WaitGroup
	once sync.Once
	ctx  context.Context
	stop context.CancelFunc
	T    []*T
	x    int

	done chan int
	pmu  sync.Mutex
	Pan  string
}

func get(v string, ok bool) string {
	if !ok {
		return "closed"
	}
	return v
}

func (s *S) op(t *T, id int, k int, o byte) {
	log := func(x string) { t.Log = append(t.Log, x) }
	val := fmt.Sprintf("%d%d", id, k)
	switch o {
	case 'S':
		s.u <- val
		log("S")
	case 'R':
		v, ok := <-s.u
		log(get(v, ok))
	case 'r':
		select {
		case v, ok := <-s.u:
			log(get(v, ok))
		default:
			log("none")
		}
	case 's':
		select {
		case s.u <- val:
			log("s")
		default:
			log("none")
		}
	case 'P':
		s.b <- val
		log("P")
	case 'G':
		v, ok := <-s.b
		log(get(v, ok))
	case 'g':
		select {
		case v, ok := <-s.b:
			log(get(v, ok))
		default:
			log("none")
		}
	case 'p':
		select {
		case s.b <- val:
			log("p")
		default:
			log("none")
		}
	case 'C':
		close(s.u)
		log("C")
	case 'D':
		close(s.b)
		log("D")
	case 'E':
		select {
		case v, ok := <-s.u:
			log("u" + get(v, ok))
		case v, ok := <-s.b:
			log("b" + get(v, ok))
		}
	case 'F':
		select {
		case s.u <- val:
			log("uS")
		case v, ok := <-s.b:
			log("b" + get(v, ok))
		}
	case 'e':
		select {
		case v, ok := <-s.u:
			log("u" + get(v, ok))
		case v, ok := <-s.b:
			log("b" + get(v, ok))
		default:
			log("none")
		}
	case 'L':
		s.m.Lock()
		log("L")
	case 'l':
		if s.m.TryLock() {
			log("l")
		} else {
			log("none")
		}
	case 'U':
		s.m.Unlock()
		log("U")
	case 'X':
		s.rw.Lock()
		log("X")
	case 'x':
		s.rw.Unlock()
		log("x")
	case 'Y':
		s.rw.RLock()
		log("Y")
	case 'y':
		s.rw.RUnlock()
		log("y")
	case '+':
		s.x = id
	case '-':
		if s.x > 100 {
			log("?")
		}
	case 'V':
		if s.rw.TryLock() {
			log("V")
		} else {
			log("none")
		}
	case 'v':
		if s.rw.TryRLock() {
			log("v")
		} else {
			log("none")
		}
	case 'W':
		s.m.Lock()
		s.c.Wait()
		s.m.Unlock()
		log("W")
	case '1':
		s.m.Lock()
		s.c.Signal()
		s.m.Unlock()
		log("1")
	case '2':
		s.c.Broadcast()
		log("2")
	case 'w':
		s.wg.Wait()
		log("w")
	case 'd':
		s.wg.Done()
		log("d")
	case 'a':
		s.wg.Add(1)
		log("a")
	case 'O':
		ran := "O"
		s.once.Do(func() { ran = "ran"; s.b <- val })
		log(ran)
	case 'z':
		time.Sleep(Unit)
		log("z")
	case 'Z':
		time.Sleep(3 * Unit)
		log("Z")
	case 'T':
		select {
		case v, ok := <-s.u:
			log(get(v, ok))
		case <-time.After(2 * Unit):
			log("late")
		}
	case 'A':
		time.AfterFunc(2*Unit, func() { s.b <- val })
		log("A")
	case 'K':
		s.stop()
		log("K")
	case 'Q':
		ctx, cancel := context.WithTimeout(s.ctx, 2*Unit)
		<-ctx.Done()
		log(ctx.Err().Error())
		cancel()
	}
}

func (s *S) thread(id int, prog string) {
	defer func() {
		if e := recover(); e != nil {
			s.pmu.Lock()
			s.Pan = fmt.Sprint(e)
			s.pmu.Unlock()
		}
	}()
	t := s.T[id]
	for k := 0; k < len(prog); k++ {
		s.op(t, id, k, prog[k])
	}
	t.Over = true
}

// New starts the threads.
func New(progs []string) *S {
	s := &S{u: make(chan string), b: make(chan string, 1)}
	s.c = sync.NewCond(&s.m)
	s.ctx, s.stop = context.WithCancel(context.Background())
	for _, p := range progs {
		for i := 0; i < len(p); i++ {
			if p[i] == 'd' {
				s.wg.Add(1)
			}
		}
		s.T = append(s.T, &T{})
	}
	for i, p := range progs {
		i, p := i, p
		go s.thread(i, p)
	}
	return s
}

// Outcome tells what the threads did; to be called when nothing runs any more.
func (s *S) Outcome() string {
	if s.Pan != "" {
		return "panic " + s.Pan
	}
	out := ""
	for _, t := range s.T {
		for _, l := range t.Log {
			out += l + " "
		}
		if !t.Over {
			out += "blocked"
		}
		out += "/"
	}
	return out
}
