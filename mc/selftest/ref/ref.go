// Package ref says what Go's specification and the documentation of sync, time and context allow small
// concurrent programs (see litmus) to do: all outcomes, by exploring an explicit model.
package ref

import (
	"fmt"
	"strings"
)

type thread struct {
	pc     int
	parked bool
	phase  int // of an operation with several steps
	dl     int // deadline, 0: none
	woken  bool
	log    string
	over   bool
	prog   string
	fn     bool // a function started by a timer
	id     int
}

type state struct {
	t       []thread
	uClosed bool
	buf     []string
	bClosed bool
	m       bool
	writer  bool
	readers int
	wm      bool // a writer has it or waits for the readers to leave
	wg      int
	once    int // 0 no, 1 running, 2 done
	cancel  bool
	now     int
	timers  []timer
	pan     string
}

type timer struct {
	at  int
	val string
}

func (s *state) clone() *state {
	n := *s
	n.t = append([]thread(nil), s.t...)
	n.buf = append([]string(nil), s.buf...)
	n.timers = append([]timer(nil), s.timers...)
	return &n
}

func (s *state) key() string { return fmt.Sprintf("%v", *s) }

func (s *state) val(i int) string { return fmt.Sprintf("%d%d", s.t[i].id, s.t[i].pc) }

// done ends thread i's operation.
func (s *state) done(i int, log string) {
	t := &s.t[i]
	if log != "" && !t.fn {
		t.log += log + " "
	}
	t.pc++
	t.parked, t.phase, t.dl, t.woken = false, 0, 0, false
	if t.pc == len(t.prog) {
		t.over = true
	}
}

func (s *state) cur(i int) byte {
	if s.t[i].over {
		return 0
	}
	return s.t[i].prog[s.t[i].pc]
}

const recvU, sendU, recvB, sendB = 1, 2, 4, 8

// waits tells what a parked thread waits for.
func (s *state) waits(i int) int {
	if !s.t[i].parked {
		return 0
	}
	switch s.cur(i) {
	case 'S':
		return sendU
	case 'R', 'T':
		return recvU
	case 'P':
		return sendB
	case 'O':
		return sendB
	case 'G':
		return recvB
	case 'E':
		return recvU | recvB
	case 'F':
		return sendU | recvB
	}
	return 0
}

// chan operations: every way they may succeed at once; l is the prefix of the log
func (s *state) sendU(i int, log string) (out []*state) {
	if s.uClosed {
		n := s.clone()
		n.pan = "send on closed channel"
		return []*state{n}
	}
	for j := range s.t {
		if j != i && s.waits(j)&recvU != 0 {
			n := s.clone()
			v := n.val(i)
			if n.cur(j) == 'E' {
				v = "u" + v
			}
			n.done(j, v)
			n.done(i, log)
			out = append(out, n)
		}
	}
	return
}

func (s *state) recvU(i int, p string) (out []*state) {
	for j := range s.t {
		if j != i && s.waits(j)&sendU != 0 {
			n := s.clone()
			v := n.val(j)
			l := "S"
			if n.cur(j) == 'F' {
				l = "uS"
			}
			n.done(j, l)
			n.done(i, p+v)
			out = append(out, n)
		}
	}
	if len(out) == 0 && s.uClosed {
		n := s.clone()
		n.done(i, p+"closed")
		out = append(out, n)
	}
	return
}

func (s *state) sendB(i int, log string) (out []*state) {
	if s.bClosed {
		n := s.clone()
		n.pan = "send on closed channel"
		return []*state{n}
	}
	for j := range s.t {
		if j != i && s.waits(j)&recvB != 0 {
			n := s.clone()
			v := n.val(i)
			switch n.cur(j) {
			case 'E', 'F':
				v = "b" + v
			}
			n.done(j, v)
			n.sent(i, log)
			out = append(out, n)
		}
	}
	if len(out) == 0 && len(s.buf) < 1 {
		n := s.clone()
		n.buf = append(n.buf, n.val(i))
		n.sent(i, log)
		out = append(out, n)
	}
	return
}

func (s *state) sent(i int, log string) {
	if s.cur(i) == 'O' {
		s.once = 2
	}
	s.done(i, log)
}

func (s *state) recvB(i int, p string) (out []*state) {
	if len(s.buf) > 0 {
		any := false
		for j := range s.t {
			if j != i && s.waits(j)&sendB != 0 {
				any = true
				n := s.clone()
				v := n.buf[0]
				n.buf[0] = n.val(j)
				l := "P"
				if n.cur(j) == 'O' {
					l = "ran"
				}
				n.sent(j, l)
				n.done(i, p+v)
				out = append(out, n)
			}
		}
		if !any {
			n := s.clone()
			v := n.buf[0]
			n.buf = nil
			n.done(i, p+v)
			out = append(out, n)
		}
		return
	}
	if s.bClosed {
		n := s.clone()
		n.done(i, p+"closed")
		out = append(out, n)
	}
	return
}

// all is what the alternatives of a select lead to; it parks, or takes the default, if there are none
func (s *state) all(i int, def bool, outs ...[]*state) (out []*state) {
	for _, o := range outs {
		out = append(out, o...)
	}
	if len(out) == 0 {
		n := s.clone()
		if def {
			n.done(i, "none")
		} else {
			n.t[i].parked = true
		}
		out = append(out, n)
	}
	return
}

func (s *state) one(i int, log string, f func(n *state)) []*state {
	n := s.clone()
	f(n)
	if n.pan == "" {
		n.done(i, log)
	}
	return []*state{n}
}

func (s *state) park(i int) []*state {
	n := s.clone()
	n.t[i].parked = true
	return []*state{n}
}

func (s *state) next(i int) []*state {
	t := &s.t[i]
	if t.over {
		return nil
	}
	nop := func(*state) {}
	o := s.cur(i)
	if t.parked {
		switch o {
		case 'S', 'R', 'G', 'E', 'F', 'P':
			return nil // somebody else completes it
		case 'T':
			if s.now >= t.dl {
				return s.one(i, "late", nop)
			}
			return nil
		case 'O':
			if t.phase == 1 {
				return nil // in the function, sending
			}
		}
	}
	switch o {
	case 'S':
		return s.all(i, false, s.sendU(i, "S"))
	case 's':
		return s.all(i, true, s.sendU(i, "s"))
	case 'R':
		return s.all(i, false, s.recvU(i, ""))
	case 'r':
		return s.all(i, true, s.recvU(i, ""))
	case 'P':
		return s.all(i, false, s.sendB(i, "P"))
	case 'p':
		return s.all(i, true, s.sendB(i, "p"))
	case 'G':
		return s.all(i, false, s.recvB(i, ""))
	case 'g':
		return s.all(i, true, s.recvB(i, ""))
	case 'E':
		return s.all(i, false, s.recvU(i, "u"), s.recvB(i, "b"))
	case 'e':
		return s.all(i, true, s.recvU(i, "u"), s.recvB(i, "b"))
	case 'F':
		return s.all(i, false, s.sendU(i, "uS"), s.recvB(i, "b"))
	case 'C':
		return s.one(i, "C", func(n *state) {
			if n.uClosed {
				n.pan = "close of closed channel"
				return
			}
			n.uClosed = true
			for j := range n.t {
				w := n.waits(j)
				if w&recvU != 0 {
					l := "closed"
					if n.cur(j) == 'E' {
						l = "uclosed"
					}
					n.done(j, l)
				} else if w&sendU != 0 {
					n.pan = "send on closed channel"
				}
			}
		})
	case 'D':
		return s.one(i, "D", func(n *state) {
			if n.bClosed {
				n.pan = "close of closed channel"
				return
			}
			n.bClosed = true
			for j := range n.t {
				w := n.waits(j)
				if w&recvB != 0 && len(n.buf) == 0 {
					l := "closed"
					if c := n.cur(j); c == 'E' || c == 'F' {
						l = "bclosed"
					}
					n.done(j, l)
				} else if w&sendB != 0 {
					n.pan = "send on closed channel"
				}
			}
		})
	case 'L':
		if s.m {
			return nil
		}
		return s.one(i, "L", func(n *state) { n.m = true })
	case 'l':
		if s.m {
			return s.one(i, "none", nop)
		}
		return s.one(i, "l", func(n *state) { n.m = true })
	case 'U':
		return s.one(i, "U", func(n *state) {
			if !n.m {
				n.pan = "fatal"
			}
			n.m = false
		})
	case 'X':
		if t.phase == 0 { // keeps out readers and writers to come
			if s.wm {
				return nil
			}
			n := s.clone()
			n.t[i].phase = 1
			n.wm = true
			return []*state{n}
		}
		if s.readers > 0 {
			return nil
		}
		return s.one(i, "X", func(n *state) { n.writer = true })
	case 'x':
		return s.one(i, "x", func(n *state) {
			if !n.writer {
				n.pan = "fatal"
			}
			n.writer, n.wm = false, false
			for j := range n.t { // those waiting come before the next writer
				if n.cur(j) == 'Y' && n.t[j].parked {
					n.readers++
					n.done(j, "Y")
				}
			}
		})
	case 'Y':
		if t.parked {
			return nil
		}
		if s.wm {
			return s.park(i)
		}
		return s.one(i, "Y", func(n *state) { n.readers++ })
	case 'y':
		return s.one(i, "y", func(n *state) {
			if n.readers == 0 {
				n.pan = "fatal"
			}
			n.readers--
		})
	case '+', '-':
		return s.one(i, "", nop)
	case 'V':
		if s.wm || s.readers > 0 {
			return s.one(i, "none", nop)
		}
		return s.one(i, "V", func(n *state) { n.writer, n.wm = true, true })
	case 'v':
		if s.wm {
			return s.one(i, "none", nop)
		}
		return s.one(i, "v", func(n *state) { n.readers++ })
	case 'W':
		n := s.clone()
		switch t.phase {
		case 0:
			if s.m {
				return nil
			}
			n.m = true
			n.t[i].phase = 1
		case 1: // waits, the mutex is free
			n.m = false
			n.t[i].phase = 2
		case 2:
			if !t.woken {
				return nil
			}
			if s.m {
				return nil
			}
			n.done(i, "W")
		}
		return []*state{n}
	case '1':
		n := s.clone()
		switch t.phase {
		case 0:
			if s.m {
				return nil
			}
			n.m = true
			n.t[i].phase = 1
		case 1:
			var out []*state
			for j := range s.t {
				if s.cur(j) == 'W' && s.t[j].phase == 2 && !s.t[j].woken {
					x := s.clone()
					x.t[j].woken = true
					x.t[i].phase = 2
					out = append(out, x)
				}
			}
			if out != nil {
				return out
			}
			n.t[i].phase = 2
		case 2:
			n.m = false
			n.done(i, "1")
		}
		return []*state{n}
	case '2':
		return s.one(i, "2", func(n *state) {
			for j := range n.t {
				if n.cur(j) == 'W' && n.t[j].phase == 2 {
					n.t[j].woken = true
				}
			}
		})
	case 'w':
		if s.wg > 0 {
			return nil
		}
		return s.one(i, "w", nop)
	case 'd':
		return s.one(i, "d", func(n *state) { n.wg-- })
	case 'O':
		switch s.once {
		case 2:
			return s.one(i, "O", nop)
		case 1:
			return nil
		}
		n := s.clone()
		n.once = 1
		n.t[i].phase = 1
		if out := n.sendB(i, "ran"); out != nil {
			for _, x := range out {
				if x.pan != "" {
					x.once = 2
				}
			}
			return out
		}
		n.t[i].parked = true
		return []*state{n}
	case 'z', 'Z':
		d := 1
		if o == 'Z' {
			d = 3
		}
		if t.dl == 0 {
			n := s.clone()
			n.t[i].dl = s.now + d
			return []*state{n}
		}
		if s.now < t.dl {
			return nil
		}
		return s.one(i, string(o), nop)
	case 'T':
		out := s.recvU(i, "")
		if len(out) > 0 {
			return out
		}
		n := s.clone()
		n.t[i].parked = true
		n.t[i].dl = s.now + 2
		return []*state{n}
	case 'A':
		return s.one(i, "A", func(n *state) { n.timers = append(n.timers, timer{n.now + 2, n.val(i)}) })
	case 'K':
		return s.one(i, "K", func(n *state) {
			n.cancel = true
			for j := range n.t {
				if n.cur(j) == 'Q' && n.t[j].dl != 0 {
					n.done(j, "context canceled")
				}
			}
		})
	case 'Q':
		if s.cancel {
			return s.one(i, "context canceled", nop)
		}
		if t.dl == 0 {
			n := s.clone()
			n.t[i].dl = s.now + 2
			return []*state{n}
		}
		if s.now < t.dl {
			return nil
		}
		return s.one(i, "context deadline exceeded", nop)
	}
	panic(string(o))
}

func (s *state) outcome() string {
	if s.pan != "" {
		return "panic " + s.pan
	}
	out := ""
	for _, t := range s.t {
		if t.fn {
			continue
		}
		out += t.log
		if !t.over {
			out += "blocked"
		}
		out += "/"
	}
	return out
}

// Outcomes lists the outcomes of the program and the number of states.
func Outcomes(progs []string) (map[string]bool, int) {
	s := &state{}
	for i, p := range progs {
		s.t = append(s.t, thread{prog: p, id: i, over: p == ""})
		s.wg += strings.Count(p, "d")
	}
	seen := map[string]bool{}
	out := map[string]bool{}
	var dfs func(s *state)
	dfs = func(s *state) {
		k := s.key()
		if seen[k] {
			return
		}
		seen[k] = true
		if s.pan != "" {
			out[s.outcome()] = true
			return
		}
		w, r := 0, 0
		for i := range s.t {
			switch s.cur(i) {
			case '+':
				w++
			case '-':
				r++
			}
		}
		if w > 1 || w == 1 && r > 0 {
			out["race"] = true
		}
		any := false
		for i := range s.t {
			for _, n := range s.next(i) {
				any = true
				dfs(n)
			}
		}
		for i, x := range s.timers {
			if x.at <= s.now {
				any = true
				n := s.clone()
				n.timers = append(append([]timer(nil), s.timers[:i]...), s.timers[i+1:]...)
				// the function sends val
				id, pc := int(x.val[0]-'0'), int(x.val[1]-'0')
				n.t = append(n.t, thread{prog: strings.Repeat(" ", pc) + "P", pc: pc, id: id, fn: true})
				dfs(n)
			}
		}
		if any {
			return
		}
		// time passes
		at := -1
		for i, t := range s.t {
			if !t.over && t.dl > s.now && (at < 0 || t.dl < at) {
				at = s.t[i].dl
			}
		}
		for _, x := range s.timers {
			if x.at > s.now && (at < 0 || x.at < at) {
				at = x.at
			}
		}
		if at >= 0 {
			n := s.clone()
			n.now = at
			dfs(n)
			return
		}
		out[s.outcome()] = true
	}
	dfs(s)
	return out, len(seen)
}
