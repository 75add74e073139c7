// C19: a set holds exactly the items added and not removed since.
package main

import (
	"fmt"
	"strings"

	"github.com/muguangyi/ferry/misc"
	"zzplain/pk"
)

type point struct{ X, Y int }
type wide struct {
	A string
	B interface{}
}

var ptr = new(int)
var ptr2 = new(int)

var universes = [][]interface{}{
	{1, 2, 3},
	{1, int64(1), "1"},
	{nil, false, 0},
	{"", point{0, 0}, [2]int{0, 0}},
	{ptr, ptr2, wide{"a", 1}},
	{1.5, float32(1.5), complex(1.5, 0)},
	{uint8(0), int8(0), uintptr(0)},
	{true, false, "true"},
	{"a", "b", "A"},
	{-1, 0, 1},
}

// step checks one operation against the model.
type model struct {
	set  misc.ISet
	in   []bool
	univ []interface{}
}

func newModel(u []interface{}) *model {
	return &model{misc.NewSet(), make([]bool, len(u)), u}
}

func (m *model) list() string {
	got := m.set.ToSlice()
	n := 0
	for i, in := range m.in {
		c := 0
		for _, g := range got {
			if g == m.univ[i] {
				c++
			}
		}
		want := 0
		if in {
			want = 1
			n++
		}
		if c != want {
			return fmt.Sprintf("listing holds %#v %d times, expected %d (listing %v)", m.univ[i], c, want, got)
		}
	}
	if n != len(got) {
		return fmt.Sprintf("listing %v has %d items, expected %d", got, len(got), n)
	}
	// the listing is the caller's
	for i := range got {
		got[i] = "scribbled"
	}
	got = append(got, "more")
	return ""
}

func (m *model) op(o int) string {
	n := len(m.univ)
	switch {
	case o < n:
		if r := m.set.Add(m.univ[o]); r != !m.in[o] {
			return fmt.Sprintf("Add(%#v) = %v, contained before: %v", m.univ[o], r, m.in[o])
		}
		m.in[o] = true
	case o < 2*n:
		o -= n
		if r := m.set.Remove(m.univ[o]); r != m.in[o] {
			return fmt.Sprintf("Remove(%#v) = %v, contained before: %v", m.univ[o], r, m.in[o])
		}
		m.in[o] = false
	default:
		return m.list()
	}
	return ""
}

func name(u []interface{}, o int) string {
	n := len(u)
	switch {
	case o < n:
		return fmt.Sprintf("Add(%#v)", u[o])
	case o < 2*n:
		return fmt.Sprintf("Remove(%#v)", u[o-n])
	}
	return "ToSlice()"
}

func seqs(t *pk.T, u []interface{}, depth int) {
	ops := 2*len(u) + 1
	seq := make([]int, depth)
	describe := func() string {
		var s []string
		for _, o := range seq {
			s = append(s, name(u, o))
		}
		return strings.Join(s, "; ")
	}
	seen := map[string]bool{}
	for {
		if t.Case(describe) {
			m := newModel(u)
			var msg string
			if crash := pk.Guard(func() {
				for _, o := range seq {
					t.Step(1)
					if msg = m.op(o); msg != "" {
						return
					}
					k := fmt.Sprint(m.in)
					if !seen[k] {
						seen[k] = true
						t.State()
					}
				}
				msg = m.list()
			}); crash != "" {
				msg = crash
			}
			t.Trace(1)
			if msg != "" {
				t.Fail("set", "%s", msg)
			}
		}
		i := depth - 1
		for ; i >= 0; i-- {
			if seq[i]++; seq[i] < ops {
				break
			}
			seq[i] = 0
		}
		if i < 0 || t.Stop() {
			return
		}
	}
}

// two interleaves operations on two sets.
func two(t *pk.T, depth int) {
	u := []interface{}{1, "1"}
	per := 2*len(u) + 1
	seq := make([]int, depth)
	describe := func() string {
		var s []string
		for _, o := range seq {
			s = append(s, fmt.Sprintf("set%d.%s", o/per, name(u, o%per)))
		}
		return strings.Join(s, "; ")
	}
	for {
		if t.Case(describe) {
			ms := []*model{newModel(u), newModel(u)}
			var msg string
			if crash := pk.Guard(func() {
				for _, o := range seq {
					t.Step(1)
					if msg = ms[o/per].op(o % per); msg != "" {
						return
					}
				}
				if msg = ms[0].list(); msg == "" {
					msg = ms[1].list()
				}
			}); crash != "" {
				msg = crash
			}
			t.Trace(1)
			t.State()
			if msg != "" {
				t.Fail("two", "%s", msg)
			}
		}
		i := depth - 1
		for ; i >= 0; i-- {
			if seq[i]++; seq[i] < 2*per {
				break
			}
			seq[i] = 0
		}
		if i < 0 || t.Stop() {
			return
		}
	}
}

// runs applies sequences of whole ranges of additions and removals to sets of many items.
func runs(t *pk.T, size, depth int) {
	var u []interface{}
	for i := 0; i < size; i++ {
		switch i % 4 {
		case 0:
			u = append(u, i)
		case 1:
			u = append(u, fmt.Sprint(i))
		case 2:
			u = append(u, float64(i))
		default:
			u = append(u, point{i, -i})
		}
	}
	type rng struct {
		add            bool
		from, to, step int
	}
	var rs []rng
	for _, add := range []bool{true, false} {
		for _, b := range [][3]int{{0, size, 1}, {0, size, 2}, {1, size, 2}, {0, size / 2, 1}, {size / 2, size, 1}, {0, size, 7}} {
			rs = append(rs, rng{add, b[0], b[1], b[2]})
		}
	}
	seq := make([]int, depth)
	for {
		if t.Case(func() string {
			s := fmt.Sprintf("%d items:", size)
			for _, o := range seq {
				s += fmt.Sprintf(" %+v", rs[o])
			}
			return s
		}) {
			m := newModel(u)
			var msg string
			if crash := pk.Guard(func() {
				for _, o := range seq {
					r := rs[o]
					for i := r.from; i < r.to; i += r.step {
						k := i
						if !r.add {
							k += size
						}
						t.Step(1)
						if msg = m.op(k); msg != "" {
							return
						}
					}
					got := m.set.ToSlice()
					have := map[interface{}]int{}
					for _, g := range got {
						have[g]++
					}
					n := 0
					for i, in := range m.in {
						if in {
							n++
						}
						if (have[u[i]] == 1) != in || have[u[i]] > 1 {
							msg = fmt.Sprintf("listing holds %#v %d times, contained: %v", u[i], have[u[i]], in)
							return
						}
					}
					if n != len(got) {
						msg = fmt.Sprintf("listing has %d items, expected %d", len(got), n)
						return
					}
				}
			}); crash != "" {
				msg = crash
			}
			t.State()
			t.Trace(1)
			if msg != "" {
				t.Fail("runs", "%s", msg)
			}
		}
		i := depth - 1
		for ; i >= 0; i-- {
			if seq[i]++; seq[i] < len(rs) {
				break
			}
			seq[i] = 0
		}
		if i < 0 || t.Stop() {
			return
		}
	}
}

func main() {
	pick := func(t *pk.T, a, b int) int {
		if t.Thorough {
			return b
		}
		return a
	}
	var scs []*pk.Scenario
	for i := range universes {
		u := universes[i]
		scs = append(scs, &pk.Scenario{Name: fmt.Sprintf("sequences-%d", i),
			Bound: fmt.Sprintf("all sequences of 7 operations (add, remove, list) over %#v", u),
			Deep:  fmt.Sprintf("all sequences of 9 operations (add, remove, list) over %#v", u),
			Run:   func(t *pk.T) { seqs(t, u, pick(t, 7, 9)) }})
	}
	scs = append(scs,
		&pk.Scenario{Name: "five-items", Bound: "all sequences of 6 operations over 5 items", Deep: "all sequences of 7",
			Run: func(t *pk.T) { seqs(t, []interface{}{0, "0", nil, 0.5, point{}}, pick(t, 6, 7)) }},
		&pk.Scenario{Name: "two-sets", Bound: "all interleavings of 6 operations on two sets of 2 items", Deep: "of 7",
			Run: func(t *pk.T) { two(t, pick(t, 5, 6)) }})
	for _, size := range []int{8, 9, 33, 200, 1000} {
		size := size
		scs = append(scs, &pk.Scenario{Name: fmt.Sprintf("runs-%d", size),
			Bound: fmt.Sprintf("all sequences of 3 out of 12 range additions and removals over %d items", size),
			Deep:  fmt.Sprintf("all sequences of 4 out of 12 range additions and removals over %d items", size),
			Run:   func(t *pk.T) { runs(t, size, pick(t, 3, 4)) }})
	}
	pk.Main("C19", scs, "explicit-state: the model set is a subset of the universe; every operation sequence within the bound was "+
		"replayed on the real set and each result and listing compared; states are distinct model states (per child process) or range sequences",
		[]string{"items are comparable and equal to themselves (no NaN)", "one goroutine uses a set at a time"})
}
