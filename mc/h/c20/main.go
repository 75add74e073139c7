// C20: calls that cannot be dispatched fail for their caller only.
package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/chancall"
	. "github.com/muguangyi/ferry/zzharness/hk"
	"github.com/muguangyi/ferry/zzvs"
)

type M = map[interface{}]interface{}
type A = []interface{}

// Kit is called in wrong ways.
type Kit struct {
	Feat
	n    int
	nils []bool // of the last call of Nil*
	bad  interface{}
}

func (k *Kit) Zero() int                                 { k.n++; return 1 }
func (k *Kit) Bool(a bool) int                           { k.n++; return 1 }
func (k *Kit) Str(a string) int                          { k.n++; return 1 }
func (k *Kit) Int(a int) int                             { k.n++; return 1 }
func (k *Kit) I8(a int8) int                             { k.n++; return 1 }
func (k *Kit) I64(a int64) int                           { k.n++; return 1 }
func (k *Kit) U16(a uint16) int                          { k.n++; return 1 }
func (k *Kit) U64(a uint64) int                          { k.n++; return 1 }
func (k *Kit) F32(a float32) int                         { k.n++; return 1 }
func (k *Kit) F64(a float64) int                         { k.n++; return 1 }
func (k *Kit) Arr(a []interface{}) int                   { k.n++; return 1 }
func (k *Kit) Ints(a []int) int                          { k.n++; return 1 }
func (k *Kit) Strs(a []string) int                       { k.n++; return 1 }
func (k *Kit) Map(a map[interface{}]interface{}) int     { k.n++; return 1 }
func (k *Kit) MapSI(a map[string]int) int                { k.n++; return 1 }
func (k *Kit) Two(a string, b int) int                   { k.n++; return 1 }
func (k *Kit) Three(a, b, c interface{}) int             { k.n++; return 1 }
func (k *Kit) Four(a int, b string, c []int, d bool) int { k.n++; return 1 }
func (k *Kit) Void(a int)                                { k.n++ }
func (k *Kit) hidden(a int) int                          { k.n++; return 1 }
func (k *Kit) NilAny(a interface{}) bool                 { k.n++; k.nils = []bool{a == nil}; return a == nil }
func (k *Kit) NilArr(a []interface{}) bool               { k.n++; k.nils = []bool{a == nil}; return a == nil }
func (k *Kit) NilInts(a []int) bool                      { k.n++; k.nils = []bool{a == nil}; return a == nil }
func (k *Kit) NilMap(a map[interface{}]interface{}) bool {
	k.n++
	k.nils = []bool{a == nil}
	return a == nil
}
func (k *Kit) NilMapSI(a map[string]int) bool { k.n++; k.nils = []bool{a == nil}; return a == nil }
func (k *Kit) NilMix(a int, b interface{}, c []string, d map[int]string, e string) bool {
	k.n++
	k.nils = []bool{b == nil, c == nil, d == nil}
	return b == nil && c == nil && d == nil
}

// Bad returns something that can't be sent.
func (k *Kit) Bad() interface{} { k.n++; return k.bad }

type thing struct{ X int }

// unsendable are values no other dock can get.
func unsendable() []interface{} {
	x := 1
	l := []interface{}{make(chan int), func() {}, thing{1}, &thing{1}, &x, complex(1, 2)}
	for _, v := range l[:4] {
		l = append(l, A{1, v}, M{"a": v}, A{A{M{"a": A{v}}}}, []interface{}{"ok", A{v}, 3})
	}
	l = append(l, M{thing{1}: 1}, []thing{{1}}, map[string]thing{"a": {1}}, []chan int{nil}, map[string]*thing{"a": nil})
	return l
}

// class is what decides whether a value can possibly become another type: nothing of one class can
// become something of another (a number as a string and bytes as a string are left out).
func class(t reflect.Type) string {
	switch t.Kind() {
	case reflect.Bool:
		return "bool"
	case reflect.String:
		return "string"
	case reflect.Slice:
		return "slice"
	case reflect.Map:
		return "map"
	case reflect.Interface:
		return "any"
	case reflect.Chan, reflect.Func, reflect.Struct, reflect.Ptr, reflect.Complex128:
		return t.Kind().String()
	}
	return "number"
}

func impossible(v interface{}, t reflect.Type) bool {
	to := class(t)
	if to == "any" {
		return false
	}
	if v == nil {
		return to != "slice" && to != "map"
	}
	from := class(reflect.TypeOf(v))
	switch {
	case from == to:
		if from == "slice" {
			x := reflect.ValueOf(v)
			for i := 0; i < x.Len(); i++ {
				if impossible(x.Index(i).Interface(), t.Elem()) {
					return true
				}
			}
		}
		if from == "map" {
			x := reflect.ValueOf(v)
			for _, k := range x.MapKeys() {
				if impossible(k.Interface(), t.Key()) || impossible(x.MapIndex(k).Interface(), t.Elem()) {
					return true
				}
			}
		}
		return false
	case from == "number" && to == "string":
		return false
	case from == "slice" && to == "string", from == "string" && to == "slice":
		// bytes and runes
		e := reflect.TypeOf(v)
		if to == "slice" {
			e = t
		}
		return e.Elem().Kind() != reflect.Uint8 && e.Elem().Kind() != reflect.Int32
	}
	return true
}

func values() []interface{} {
	return []interface{}{nil, true, "", "x", "12", 0, 5, int8(-1), uint16(9), int64(1) << 40, 0.5, float32(2), A{}, A{1}, A{"x"}, A{nil}, A{true, 1}, A{A{1}}, A{1, 2, "x"}, []int{1}, []string{"x"}, []float64{0.5},
		M{}, M{"a": 1}, M{1: "a"}, M{"a": "b"}, M{"a": nil}, M{"a": A{1}}, M{true: 1}, M{"a": 1, 2: 2}, map[string]int{"a": 1}, map[int]string{1: "a"}}
}

// system is a caller with the feature in its own dock ("here") and in another one ("there").
type system struct {
	u, v        ferry.ISlot
	here, there *Kit
	tag         int
}

func setup() *system {
	y := &system{here: &Kit{Feat: Feat{Id: "here"}}, there: &Kit{Feat: Feat{Id: "there"}}}
	Hub()
	Dock(Host(1), "b", ferry.Carry("there", y.there, true))
	Up(Host(1))
	y.u, y.v = ferry.Carry("U", &Feat{Id: "U"}, true), ferry.Carry("V", &Feat{Id: "V"}, true)
	Dock(Host(0), "a", y.u, y.v, ferry.Carry("here", y.here, true))
	Up(Host(0))
	return y
}

func (y *system) kit(at string) *Kit {
	if at == "here" {
		return y.here
	}
	return y.there
}

// fine makes a call that has to work.
func (y *system) fine(s ferry.ISlot, at string) bool {
	c := &Calls{}
	y.tag++
	return c.Echo(s, "U", at, y.tag, "x").Good(at) == ""
}

// call makes a call and tells whether it reported an error.
func (y *system) call(void bool, at, method string, args []interface{}) (int, []interface{}, error) {
	k := y.kit(at)
	k.n = 0
	if void {
		err := y.u.Call(at, method, args...)
		return k.n, nil, err
	}
	res, err := y.u.CallWithResult(at, method, args...)
	return k.n, res, err
}

// each makes the calls of a group, one execution, calls that have to work around each of them.
func each(cases func(f func(at []string, want string, method string, args ...interface{})), part, parts int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		n, seen, bad, last := 0, -1, 0, ""
		done := false
		body := func() {
			y := setup()
			cases(func(at []string, want string, method string, args ...interface{}) {
				seen++
				if seen%parts != part || bad > 2 {
					return
				}
				for _, p := range at {
					for _, void := range []bool{false, true} {
						n++
						last = fmt.Sprintf("%s.%s(%s)", p, method, strings.Join(descs(args), ", "))
						ran, res, err := y.call(void, p, method, args)
						switch want {
						case "error":
							if err == nil {
								bad++
								zzvs.Fail("success", "%s returned %v and no error", last, res)
							}
							if ran != 0 && method != "Bad" {
								bad++
								zzvs.Fail("executed", "%s was executed", last)
							}
							if len(res) > 0 {
								bad++
								zzvs.Fail("results", "%s returned %v and the error %v", last, res, err)
							}
						case "fine":
							if err != nil || ran != 1 {
								bad++
								zzvs.Fail("refused", "%s ran %d times, error %v", last, ran, err)
							}
						case "nil":
							if err != nil || ran != 1 {
								bad++
								zzvs.Fail("refused", "%s ran %d times, error %v", last, ran, err)
							}
							for _, b := range y.kit(p).nils {
								if !b {
									bad++
									zzvs.Fail("nil", "%s: a nil argument was not delivered as nil", last)
								}
							}
						}
						if !y.fine(y.u, p) {
							bad++
							zzvs.Fail("afterwards", "a good call after %s failed", last)
						}
					}
				}
				if seen%7 == 0 {
					for _, p := range []string{"here", "there"} {
						if !y.fine(y.v, p) {
							bad++
							zzvs.Fail("afterwards", "another feature's call to %s after %s failed", p, last)
						}
					}
				}
			})
			done = true
			zzvs.Eventf("%d cases", n)
		}
		return body, func(w *zzvs.World) {
			if !done {
				zzvs.Fail("blocked", "%s (call %d) or the call after it did not return", last, n)
			}
			w.Outcome = fmt.Sprintf("%d calls", n)
		}
	}
}

func descs(args []interface{}) []string {
	var b []string
	for _, a := range args {
		if a == nil {
			b = append(b, "nil")
			continue
		}
		b = append(b, fmt.Sprintf("%T", a))
		switch reflect.TypeOf(a).Kind() {
		case reflect.Chan, reflect.Func, reflect.Ptr:
		default:
			s := fmt.Sprint(a)
			if len(s) > 60 || strings.Contains(s, "0x") {
				s = "..."
			}
			b[len(b)-1] += "(" + s + ")"
		}
	}
	return b
}

// wrong is one call that has to fail.
type wrong struct {
	method string
	args   []interface{}
}

// together: bad and good calls at the same time, several callers each
func together(at []string, bads []wrong, good int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		type one struct {
			wrong
			at   string
			back bool
			err  error
		}
		var l []*one
		cs := &Calls{}
		here, there := &Kit{Feat: Feat{Id: "here"}}, &Kit{Feat: Feat{Id: "there"}}
		feats := map[string]*Feat{"here": &here.Feat, "there": &there.Feat}
		body := func() {
			Hub()
			Dock(Host(1), "b", ferry.Carry("there", there, true))
			Up(Host(1))
			u := ferry.Carry("U", &Feat{Id: "U"}, true)
			Dock(Host(0), "a", u, ferry.Carry("here", here, true))
			Up(Host(0))
			for _, p := range at {
				p := p
				for _, b := range bads {
					x := &one{wrong: b, at: p}
					l = append(l, x)
					zzvs.Go("bad", func() {
						_, x.err = u.CallWithResult(x.at, x.method, x.args...)
						x.back = true
					})
				}
				for i := 0; i < good; i++ {
					i := i
					zzvs.Go("good", func() { cs.Echo(u, "U", p, i, "x") })
				}
			}
		}
		return body, func(w *zzvs.World) {
			cs.Made(good * len(at))
			cs.CheckOnce(feats)
			for _, x := range l {
				if !x.back {
					zzvs.Fail("blocked", "%s.%s(%v) did not return", x.at, x.method, descs(x.args))
				}
				if x.err == nil {
					zzvs.Fail("success", "%s.%s(%v) reported no error", x.at, x.method, descs(x.args))
				}
				if k := map[string]*Kit{"here": here, "there": there}[x.at]; k.n != 0 && x.method != "Bad" {
					zzvs.Fail("executed", "%s.%s(%v) was executed", x.at, x.method, descs(x.args))
				}
			}
		}
	}
}

// first: the bad call is the first one, made while nobody has looked the feature up yet, from the
// start hook, the provider coming up later
func first(b wrong) Maker {
	return func() (func(), func(w *zzvs.World)) {
		cs := &Calls{}
		there := &Kit{Feat: Feat{Id: "there"}}
		back := false
		var err error
		body := func() {
			Hub()
			uf := &Feat{Id: "U", OnUp: func(s ferry.ISlot) {
				zzvs.Go("caller", func() {
					err = s.Call("there", b.method, b.args...)
					back = true
					cs.Echo(s, "U", "there", 1, "x")
				})
			}}
			Dock(Host(0), "a", ferry.Carry("U", uf, true))
			Dock(Host(1), "b", ferry.Carry("there", there, true))
		}
		return body, func(w *zzvs.World) {
			if !back || err == nil {
				zzvs.Fail("success", "%s(%v): returned %v, error %v", b.method, descs(b.args), back, err)
			}
			cs.Made(1)
			cs.CheckOnce(map[string]*Feat{"there": &there.Feat})
		}
	}
}

// plain callers and callees
func chans(bads []wrong, callers int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		k := &Kit{Feat: Feat{Id: "k"}}
		okays, fails, want := 0, 0, 0
		body := func() {
			c := chancall.NewCallee("k", k)
			for i := 0; i < callers; i++ {
				i := i
				want += len(bads)
				zzvs.Go("caller", func() {
					call := chancall.NewCaller(c)
					for j, b := range bads {
						if err := call.Call(b.method, b.args...); err != nil {
							fails++
						} else {
							zzvs.Fail("success", "%s(%v) reported no error", b.method, descs(b.args))
						}
						res, err := call.CallWithResult("Echo", 10*i+j, "x")
						if err == nil && len(res) == 2 && res[0] == 10*i+j+1000 && res[1] == "k/x" {
							okays++
						} else {
							zzvs.Fail("afterwards", "the call after %s(%v) returned %v, %v", b.method, descs(b.args), res, err)
						}
					}
				})
			}
		}
		return body, func(w *zzvs.World) {
			if fails != want || okays != want || k.n != 0 {
				zzvs.Fail("blocked", "%d bad calls failed and %d good calls worked of %d, %d executions", fails, okays, want, k.n)
			}
		}
	}
}

func main() {
	var scs []*zzvs.Scenario
	mk := func(name string, q, t int, m Maker, cfg ...func(w *zzvs.World)) {
		scs = append(scs, &zzvs.Scenario{Name: name, Quick: q, Thorough: t, New: m, Config: func(w *zzvs.World) {
			for _, c := range cfg {
				c(w)
			}
		}})
	}
	type call = func(at []string, want string, method string, args ...interface{})
	mkc := func(name string, cases func(f call)) {
		n := 0
		cases(func([]string, string, string, ...interface{}) { n++ })
		parts := (n + 99) / 100
		for p := 0; p < parts; p++ {
			x := name
			if parts > 1 {
				x = fmt.Sprintf("%s-%d", name, p)
			}
			mk(x, 0, 0, each(cases, p, parts), func(w *zzvs.World) { w.MaxSteps = 1 << 30 })
		}
	}
	both := []string{"here", "there"}
	mkc("unknown-methods", func(f call) {
		for _, m := range []string{"", "Nobody", "echo", "Ech", "Echoo", "ECHO", " Echo", "Echo ", "hidden", "Kit.Echo", "n", "Feat", "\x00", "Eché", strings.Repeat("Echo", 5000)} {
			f(both, "error", m)
			f(both, "error", m, 1)
			f(both, "error", m, 1, "x")
			f(both, "error", m, nil, nil, nil)
		}
	})
	kt := reflect.TypeOf(&Kit{})
	fitting := func(t reflect.Type) interface{} {
		switch class(t) {
		case "bool":
			return true
		case "string":
			return "s"
		case "number":
			return 1
		case "slice":
			return A{}
		case "map":
			return M{}
		}
		return "any"
	}
	mkc("wrong-numbers", func(f call) {
		for _, name := range []string{"Zero", "Bool", "Int", "Str", "Arr", "Map", "Two", "Three", "Four", "Void", "NilMix", "NilAny"} {
			m, _ := kt.MethodByName(name)
			var ok []interface{}
			for i := 1; i < m.Type.NumIn(); i++ {
				ok = append(ok, fitting(m.Type.In(i)))
			}
			for n := 0; n <= len(ok)+3; n++ {
				if n == len(ok) {
					if !strings.HasPrefix(name, "Nil") {
						f(both, "fine", name, ok...)
					}
					continue
				}
				for _, x := range []interface{}{nil, 1, "x", A{1}} {
					a := append([]interface{}{}, ok...)
					for len(a) < n {
						a = append(a, x)
					}
					f(both, "error", name, a[:n]...)
				}
				if n > len(ok) {
					continue
				}
			}
		}
	})
	mkc("wrong-kinds", func(f call) {
		for _, name := range []string{"Bool", "Str", "Int", "I8", "I64", "U16", "U64", "F32", "F64", "Arr", "Ints", "Strs", "Map", "MapSI", "Void"} {
			m, _ := kt.MethodByName(name)
			for _, v := range values() {
				if impossible(v, m.Type.In(1)) {
					f(both, "error", name, v)
				}
			}
		}
	})
	mkc("one-wrong-of-several", func(f call) {
		for _, name := range []string{"Two", "Four"} {
			m, _ := kt.MethodByName(name)
			for i := 1; i < m.Type.NumIn(); i++ {
				for _, v := range values() {
					if !impossible(v, m.Type.In(i)) {
						continue
					}
					var a []interface{}
					for j := 1; j < m.Type.NumIn(); j++ {
						if j == i {
							a = append(a, v)
						} else {
							a = append(a, fitting(m.Type.In(j)))
						}
					}
					f(both, "error", name, a...)
				}
			}
		}
	})
	mkc("nil-arguments", func(f call) {
		for _, name := range []string{"NilAny", "NilArr", "NilInts", "NilMap", "NilMapSI"} {
			f(both, "nil", name, nil)
		}
		f(both, "nil", "NilMix", 1, nil, nil, nil, "x")
		for _, name := range []string{"Bool", "Str", "Int", "U16", "F32"} {
			f(both, "error", name, nil)
		}
		f(both, "error", "NilMix", nil, nil, nil, nil, "x")
		f(both, "error", "NilMix", 1, nil, nil, nil, nil)
		f(both, "error", "Two", nil, 1)
		f(both, "error", "Two", "x", nil)
		f(both, "fine", "Three", nil, nil, nil)
	})
	mkc("unsendable-arguments", func(f call) {
		for _, v := range unsendable() {
			f([]string{"there"}, "error", "Three", v, 1, 2)
			f([]string{"there"}, "error", "Three", 1, 2, v)
			f([]string{"there"}, "error", "Nobody", v)
			f([]string{"here"}, "fine", "Three", 1, v, 2)
			f(both, "error", "Int", v)
			f(both, "error", "Bool", v)
		}
	})
	mk("unsendable-results", 0, 1, func() (func(), func(w *zzvs.World)) {
		done := false
		body := func() {
			y := setup()
			for _, v := range unsendable() {
				y.there.bad, y.here.bad = v, v
				if res, err := y.u.CallWithResult("there", "Bad"); err == nil {
					zzvs.Fail("success", "a result of type %T came back as %v", v, res)
				}
				if _, err := y.u.CallWithResult("here", "Bad"); err != nil {
					zzvs.Fail("refused", "a result of type %T in the same dock: %v", v, err)
				}
				if !y.fine(y.u, "there") || !y.fine(y.v, "there") || !y.fine(y.u, "here") {
					zzvs.Fail("afterwards", "a good call after a result of type %T failed", v)
				}
			}
			done = true
		}
		return body, func(w *zzvs.World) {
			if !done {
				zzvs.Fail("blocked", "a call did not return")
			}
		}
	})
	// every sequence of three calls, each one of these
	kinds := []wrong{{"Nobody", nil}, {"Two", A{"x"}}, {"Two", A{"x", 1, 2}}, {"Two", A{1, "x"}}, {"Bool", A{"x"}}, {"Str", A{nil}}, {"Three", A{func() {}, 1, 2}}, {"Echo", A{1}}, {"Map", A{A{1}}}}
	mkc("sequences", func(f call) {
		for _, a := range kinds {
			for _, b := range kinds {
				for _, c := range kinds {
					for _, x := range []wrong{a, b, c} {
						if _, isFunc := first0(x.args).(func()); isFunc {
							f([]string{"there"}, "error", x.method, x.args...)
						} else {
							f(both, "error", x.method, x.args...)
						}
					}
				}
			}
		}
	})
	for i, b := range kinds {
		here := both
		if _, isFunc := first0(b.args).(func()); isFunc {
			here = both[1:]
		}
		mk(fmt.Sprint("with-good-", i), 1, 2, together(here[len(here)-1:], []wrong{b}, 1))
		mk(fmt.Sprint("with-good-both-", i), 1, 2, together(here, []wrong{b, b}, 2))
		mk(fmt.Sprint("first-", i), 1, 3, first(b))
	}
	mk("all-at-once", 1, 1, together(both[1:], kinds, 2))
	mk("pairs", 1, 2, together(both, []wrong{kinds[0], kinds[3]}, 1))
	mk("callers", 3, 4, chans([]wrong{kinds[0], kinds[1]}, 1))
	mk("callers-2", 2, 3, chans([]wrong{kinds[3], kinds[4]}, 2))
	mk("callers-3", 1, 2, chans([]wrong{kinds[0], kinds[5], kinds[8]}, 3))
	zzvs.Main("C20", scs, []string{"methods do not panic themselves", "numbers may be converted to other numbers and to strings, bytes and runes to strings and back"})
}

func first0(a []interface{}) interface{} {
	if len(a) == 0 {
		return nil
	}
	return a[0]
}
