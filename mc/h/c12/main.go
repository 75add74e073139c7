// C12: a call has the same effect whether the feature is in the caller's dock or in another one.
package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/muguangyi/ferry"
	. "github.com/muguangyi/ferry/zzharness/hk"
	"github.com/muguangyi/ferry/zzvs"
)

type M = map[interface{}]interface{}
type A = []interface{}

// scalars: every kind, the edges of every width
func scalars() []interface{} {
	l := []interface{}{nil, true, false, "", "a", "0", "\x00", "\xff\xfe", "häß 漢", strings.Repeat("x", 255), strings.Repeat("y", 256), strings.Repeat("z\x00", 700)}
	for _, n := range []int64{0, 1, -1, 2, -2, 126, 127, 128, 129, -126, -127, -128, -129, -130, 254, 255, 256, 257, 32766, 32767, 32768, 32769, -32767, -32768, -32769, 65534, 65535, 65536, 65537,
		1<<31 - 2, 1<<31 - 1, 1 << 31, 1<<31 + 1, -1<<31 + 1, -1 << 31, -1<<31 - 1, 1<<32 - 2, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<53 + 1, 1<<63 - 1, 1<<63 - 2, -1 << 63, -1<<63 + 1} {
		l = append(l, n)
		if int64(int8(n)) == n {
			l = append(l, int8(n))
		}
		if int64(int16(n)) == n {
			l = append(l, int16(n))
		}
		if int64(int32(n)) == n {
			l = append(l, int32(n))
		}
		l = append(l, int(n))
		if n >= 0 {
			if int64(uint8(n)) == n {
				l = append(l, uint8(n))
			}
			if int64(uint16(n)) == n {
				l = append(l, uint16(n))
			}
			if int64(uint32(n)) == n {
				l = append(l, uint32(n))
			}
			l = append(l, uint(n), uint64(n))
		}
	}
	l = append(l, uint64(1<<63), uint64(math.MaxUint64), uint64(math.MaxUint64-1), uint(math.MaxUint64))
	for _, f := range []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 1.5, -2.25, 0.1, 3e7, 16777217, 1 << 53, 1e300, -1e300, math.MaxFloat32, math.MaxFloat64, math.SmallestNonzeroFloat32, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN()} {
		l = append(l, f, float32(f))
	}
	return l
}

// containers: empty, of one, of several kinds, nested
func containers() []interface{} {
	var l []interface{}
	some := []interface{}{nil, true, "a", 1, int8(-128), 300, uint8(200), uint16(300), int64(1) << 40, uint64(math.MaxUint64), 0.5, float32(0.25), 0.1, ""}
	l = append(l, A(nil), A{}, M(nil), M{})
	for _, x := range some {
		l = append(l, A{x}, A{x, x}, A{A{x}}, A{M{"k": x}}, M{"k": x}, M{"k": A{x}}, M{"k": M{"j": x}})
		if x != nil {
			l = append(l, M{x: "v"}, M{x: x})
		}
	}
	l = append(l, A(some), A{1, 2, 3}, A{"a", "b", ""}, A{true, false}, A{1.5, 2.5}, A{uint8(1), uint8(2)},
		A{A{1, 2}, A{}, A{3}}, A{A{}, A{A{}}, nil}, A{M{"a": 1}, M{}, M{"b": 2, "c": 3}}, A{1, "a"}, A{1, 300, 70000}, A{1, -1, nil},
		M{"a": 1, "b": 2, "c": 300}, M{1: "a", 2: "b", 300: "c"}, M{"a": A{"x", "y"}, "b": A{}}, M{true: 1, "a": 2, 3: 4, 0.5: nil}, M{uint16(1): true, uint16(2): false},
		M{1: 1, 2: 2, 300: 3, -5: 4, 70000: 5})
	deep := interface{}(1)
	for i := 0; i < 40; i++ {
		if i%2 == 0 {
			deep = A{deep, i}
		} else {
			deep = M{"d": deep, i: nil}
		}
	}
	long := A{}
	for i := 0; i < 300; i++ {
		long = append(long, i*3-200)
	}
	l = append(l, deep, long)
	return l
}

// typed containers
func typed() []interface{} {
	return []interface{}{
		[]string{}, []string{"a", ""}, []int{}, []int{0, 127, 128, -129, 1 << 40}, []uint8{}, []uint8{0, 127, 128, 255}, []uint16{0, 255, 256, 65535}, []int64{-1 << 63, 1<<63 - 1, 0},
		[]float64{}, []float64{0.5, 0.1, math.Inf(1)}, []float32{0.5, -0.25}, []bool{true, false}, [][]int{}, [][]int{{1, 2}, {}, {300}},
		map[string]int{}, map[string]int{"a": 1, "b": 300}, map[int]string{1: "a", -300: "b"}, map[string]interface{}{"a": nil, "b": 1, "c": A{1, "x"}, "d": M{1: 2}},
		map[string][]string{"a": {"x"}, "b": {}}, map[uint16]bool{1: true, 300: false}, []map[string]int{{"a": 1}, {}}, []string(nil), []int(nil), map[string]int(nil),
	}
}

// order: which argument each result is, unless these are the arguments backwards
var order = map[string][]int{"Three": {2, 0, 1}, "Four": {2, 3, 0, 1}, "Many": {15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0, 0}}

// run makes the calls one after the other, each locally and remotely, and compares.
func run(cases func(f func(void bool, method string, args ...interface{})), part, parts int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		n, bad, done := 0, 0, false
		seen := -1
		digest := uint64(1)
		body := func() {
			here, there := &Kit{Feat: Feat{Id: "here"}}, &Kit{Feat: Feat{Id: "there"}}
			Hub()
			b := ferry.Carry("there", there, true)
			Dock(Host(1), "b", b)
			Up(Host(1))
			u := ferry.Carry("U", &Feat{Id: "U"}, true)
			Dock(Host(0), "a", u, ferry.Carry("here", here, true))
			Up(Host(0))
			kt := reflect.TypeOf(here)
			one := func(name string, k *Kit, void bool, method string, args []interface{}) outcome {
				k.n, k.got = 0, nil
				var o outcome
				if void {
					o.err = u.Call(name, method, args...)
				} else {
					res, err := u.CallWithResult(name, method, args...)
					o.err = err
					for _, x := range res {
						o.res = append(o.res, full(x))
					}
				}
				o.ran, o.got = k.n, k.got
				return o
			}
			cases(func(void bool, method string, args ...interface{}) {
				seen++
				if bad > 2 || seen%parts != part {
					return
				}
				n++
				var keep []string
				for _, a := range args {
					keep = append(keep, full(a))
				}
				l := one("here", here, void, method, args)
				r := one("there", there, void, method, args)
				what := fmt.Sprintf("%s(%s)", method, strings.Join(descs(args), ", "))
				for i, a := range args {
					if full(a) != keep[i] {
						bad++
						failf("%s changed its caller's argument %d", what, i)
					}
				}
				same := fmt.Sprint(l.ran, l.got, l.res) == fmt.Sprint(r.ran, r.got, r.res) && (l.err == nil) == (r.err == nil)
				if !same {
					bad++
					failf("%s: locally %v, remotely %v", what, l, r)
				}
				m, ok := kt.MethodByName(method)
				if !ok {
					if l.err.Error() != r.err.Error() {
						bad++
						failf("%s: error locally %v, remotely %v", what, l.err, r.err)
					}
					return
				}
				if len(args) != m.Type.NumIn()-1 || m.Type.IsVariadic() {
					return
				}
				var want []string
				all := true
				for i, a := range args {
					s, ok := fits(reflect.ValueOf(a), m.Type.In(i+1))
					if !ok {
						all = false
						break
					}
					want = append(want, s)
				}
				if all {
					for _, o := range []outcome{l, r} {
						if o.ran != 1 || fmt.Sprint(o.got) != fmt.Sprint(want) || o.err != nil || (!void && len(o.res) != m.Type.NumOut()) {
							bad++
							failf("%s: %v", what, o)
						}
						if !void && o.ran == 1 && len(o.res) == m.Type.NumOut() && len(o.res) > 0 {
							for i := range o.res {
								from := len(o.got) - 1 - i
								if p, ok := order[method]; ok {
									from = p[i]
								}
								if o.res[i] != o.got[from] {
									bad++
									failf("%s: %v", what, o)
								}
							}
						}
					}
				}
				for _, c := range fmt.Sprint(what, l.got, l.res, l.err == nil) {
					digest = digest*1099511628211 + uint64(c)
				}
			})
			done = true
			zzvs.Eventf("%d cases", n)
		}
		return body, func(w *zzvs.World) {
			if !done {
				zzvs.Fail("stuck", "call %d did not return", n)
			}
			w.Outcome = fmt.Sprintf("%d calls, digest %x", n, digest)
		}
	}
}

func descs(args []interface{}) []string {
	var b []string
	for _, a := range args {
		s := fmt.Sprintf("%T(%v)", a, a)
		if len(s) > 80 {
			s = s[:80] + "..."
		}
		b = append(b, s)
	}
	return b
}

// calls of every kind at the same time, from both places: what was found above does not depend on the
// schedule
func mixed(n int) Maker {
	args := [][]interface{}{{"a", 1}, {"b", 300}, {"c", -70000}, {"", 1 << 40}}
	return func() (func(), func(w *zzvs.World)) {
		var out [8][2]string
		here, there := &Kit{Feat: Feat{Id: "here"}}, &Kit{Feat: Feat{Id: "there"}}
		body := func() {
			Hub()
			Dock(Host(1), "b", ferry.Carry("there", there, true))
			Up(Host(1))
			u := ferry.Carry("U", &Feat{Id: "U"}, true)
			Dock(Host(0), "a", u, ferry.Carry("here", here, true))
			Up(Host(0))
			for i := 0; i < n; i++ {
				i := i
				for j, at := range []string{"here", "there"} {
					j, at := j, at
					zzvs.Go("caller", func() {
						res, err := u.CallWithResult(at, "Two", args[i]...)
						out[i][j] = fmt.Sprint(full(res), err)
					})
				}
			}
		}
		return body, func(w *zzvs.World) {
			for i := 0; i < n; i++ {
				want := fmt.Sprint(full([]interface{}{args[i][1], args[i][0]}), error(nil))
				for j := range out[i] {
					if out[i][j] != want {
						failf("Two%v: locally %s, remotely %s", args[i], out[i][0], out[i][1])
					}
				}
			}
			if here.n != n || there.n != n {
				failf("%d local and %d remote executions of %d", here.n, there.n, n)
			}
		}
	}
}

// the outcome of a call that takes too long is the same
func slow(ns int64, timeout float32) Maker {
	return func() (func(), func(w *zzvs.World)) {
		var errs [2]error
		var res [2][]interface{}
		var took [2]int64
		here, there := &Feat{Id: "f"}, &Feat{Id: "f"}
		body := func() {
			for _, f := range []*Feat{here, there} {
				f.EchoWork = func(int) { zzvs.Sleep(time.Duration(ns)) }
			}
			Hub()
			b := ferry.Carry("there", there, true)
			Dock(Host(1), "b", b)
			Up(Host(1))
			u, h := ferry.Carry("U", &Feat{Id: "U"}, true), ferry.Carry("here", here, true)
			Dock(Host(0), "a", u, h)
			Up(Host(0))
			if timeout > 0 {
				b.SetTimeout("Echo", timeout)
				h.SetTimeout("Echo", timeout)
			}
			for i, n := range []string{"here", "there"} {
				t := zzvs.NowNS()
				res[i], errs[i] = u.CallWithResult(n, "Echo", 5, "x")
				took[i] = zzvs.NowNS() - t
			}
		}
		return body, func(w *zzvs.World) {
			if ErrStr(errs[0]) != ErrStr(errs[1]) || full(res[0]) != full(res[1]) || took[0] != took[1] {
				failf("locally %v, error %v after %d ns, remotely %v, error %v after %d ns", res[0], errs[0], took[0], res[1], errs[1], took[1])
			}
			w.Outcome = fmt.Sprint(full(res[0]), errs[0], took[0])
		}
	}
}

func main() {
	var scs []*zzvs.Scenario
	mk := func(name string, q, t int, m Maker) {
		scs = append(scs, &zzvs.Scenario{Name: name, Quick: q, Thorough: t, New: m, Config: func(w *zzvs.World) { w.MaxSteps = 1 << 30 }})
	}
	mkc := func(name string, cases func(f func(void bool, method string, args ...interface{}))) {
		n := 0
		cases(func(bool, string, ...interface{}) { n++ })
		parts := (n + 399) / 400
		for p := 0; p < parts; p++ {
			x := name
			if parts > 1 {
				x = fmt.Sprintf("%s-%d", name, p)
			}
			mk(x, 0, 0, run(cases, p, parts))
		}
	}
	sc, co, ty := scalars(), containers(), typed()
	all := append(append(append([]interface{}{}, sc...), co...), ty...)
	type call = func(void bool, method string, args ...interface{})
	kt := reflect.TypeOf(&Kit{})
	for i := 0; i < kt.NumMethod(); i++ {
		m := kt.Method(i)
		if m.Type.NumIn() != 2 || m.Type.NumOut() != 1 || m.Name == "Count" || m.Type.IsVariadic() {
			continue
		}
		generic := m.Type.In(1).Kind() != reflect.String
		mkc("one-argument-"+m.Name, func(f call) {
			for _, v := range all {
				if _, isTyped := v.([]uint8); isTyped && !generic {
					continue // bytes are a string here and an array there: not a generic array
				}
				f(false, m.Name, v)
			}
			f(true, m.Name, all[1])
			f(true, m.Name, all[4])
			f(true, m.Name, 7)
		})
	}
	// several arguments: all tuples over a few values
	few := []interface{}{nil, true, "a", 1, -300, uint8(200), uint64(1 << 40), 0.5, A{1, "x"}, M{"k": nil}}
	var tuples func(f call, void bool, m string, n int, vals []interface{}, t []interface{})
	tuples = func(f call, void bool, m string, n int, vals []interface{}, t []interface{}) {
		if len(t) == n {
			f(void, m, append([]interface{}{}, t...)...)
			return
		}
		for _, v := range vals {
			tuples(f, void, m, n, vals, append(t, v))
		}
	}
	mkc("no-argument", func(f call) {
		f(false, "None")
		f(true, "None")
		f(false, "None")
		f(false, "Nothing")
		f(true, "Nothing")
	})
	mkc("two-arguments", func(f call) { tuples(f, false, "Two", 2, sc[:40], nil) })
	mkc("no-result", func(f call) {
		tuples(f, false, "Gone", 2, few, nil)
		tuples(f, true, "Gone", 2, few, nil)
	})
	mkc("three-arguments", func(f call) { tuples(f, false, "Three", 3, few, nil) })
	mkc("four-arguments", func(f call) {
		tuples(f, false, "Four", 4, []interface{}{int8(-5), uint64(1 << 40), uint8(1), true, M{"k": 1}}, nil)
	})
	mkc("five-arguments", func(f call) {
		tuples(f, false, "Five", 5, []interface{}{nil, "a", -300, A{}}, nil)
		// every value at every place
		for i := 0; i < 5; i++ {
			for _, v := range all {
				a := []interface{}{0, 1, 2, 3, 4}
				a[i] = v
				f(false, "Five", a...)
			}
		}
	})
	mkc("nine-arguments", func(f call) {
		ok := []interface{}{true, "s", int16(-300), uint32(70000), float32(0.5), 0.1, nil, A{1, nil}, M{"k": 0.5}}
		f(false, "Nine", ok...)
		for i := range ok {
			for _, v := range append(append([]interface{}{}, few...), co...) {
				a := append([]interface{}{}, ok...)
				a[i] = v
				f(false, "Nine", a...)
			}
		}
	})
	mkc("sixteen-arguments", func(f call) {
		for i := 0; i < 16; i++ {
			for _, v := range few {
				a := make([]interface{}, 16)
				for j := range a {
					a[j] = 1000*j + 7
				}
				a[i] = v
				f(false, "Many", a...)
				f(true, "Many", a...)
			}
		}
		for n := 0; n < 40; n++ {
			f(false, "Many", make([]interface{}, n)...)
		}
	})
	mkc("any-number", func(f call) {
		for _, m := range []string{"Sum", "Join", "List", "Rows"} {
			f(false, m)
			for _, v := range all {
				if _, isBytes := v.([]uint8); !isBytes {
					f(false, m, v)
					f(true, m, v)
				}
			}
			for n := 2; n < 40; n++ {
				var ints, strs, lists []interface{}
				for i := 0; i < n; i++ {
					ints, strs, lists = append(ints, i*i*i-9), append(strs, strings.Repeat("s", i)), append(lists, A{i})
				}
				f(false, m, ints...)
				f(false, m, strs...)
				f(false, m, append(A{5, true}, lists...)...)
			}
			tuples(f, false, m, 2, few, nil)
			tuples(f, true, m, 3, few, nil)
		}
	})
	mkc("big", func(f call) {
		long := A{}
		for i := 0; i < 20000; i++ {
			long = append(long, i*i-1000)
		}
		for _, n := range []int{1000, 10200, 10230, 10240, 20480, 65535, 65536, 70000, 200000} {
			f(false, "Str", strings.Repeat("b", n))
			f(false, "Two", strings.Repeat("b", n), n)
		}
		f(false, "Arr", long)
		f(false, "Any", long)
		f(false, "Ints", long)
		f(false, "Any", M{"long": long, "x": strings.Repeat("q", 70000)})
	})
	mkc("wrong-number", func(f call) {
		for _, m := range []string{"None", "I", "Str", "Any", "Arr", "Two", "Three", "Five", "Nobody", ""} {
			for n := 0; n < 7; n++ {
				f(false, m, few[:n]...)
				f(true, m, few[:n]...)
			}
		}
	})
	// what they are told is the same as well
	mkc("unknown", func(f call) {
		for n := 0; n <= 300; n++ {
			f(n%2 == 0, strings.Repeat("n", n))
		}
		for _, n := range []int{511, 512, 513, 1000, 1024, 4095, 4096, 4097, 10200, 10240, 32767, 32768, 65535, 65536, 70000} {
			f(false, strings.Repeat("n", n))
			f(true, strings.Repeat("n", n), 1)
		}
		for c := 0; c < 256; c++ {
			f(c%2 == 0, string([]byte{byte(c)}))
			f(c%2 == 1, "Ec"+string([]byte{byte(c)})+"ho", "x")
		}
		for _, m := range []string{"%s", "%d%n", "%", "[x] %v!", "été", "日本", " Str", "Str ", "str", "STR", "St", "Strr", "Str\x00", "EOF", "<nil>", "nil", "function call timeout!"} {
			f(false, m)
			f(true, m)
			f(false, m, "x")
		}
	})
	// results on their own: a result that is not what was passed
	mk("results", 0, 0, func() (func(), func(w *zzvs.World)) {
		done := false
		body := func() {
			here, there := &Kit{Feat: Feat{Id: "here"}}, &Kit{Feat: Feat{Id: "there"}}
			Hub()
			Dock(Host(1), "b", ferry.Carry("there", there, true))
			Up(Host(1))
			u := ferry.Carry("U", &Feat{Id: "U"}, true)
			Dock(Host(0), "a", u, ferry.Carry("here", here, true))
			Up(Host(0))
			for _, v := range all {
				here.out, there.out = []interface{}{v}, []interface{}{v}
				l, lerr := u.CallWithResult("here", "Give")
				r, rerr := u.CallWithResult("there", "Give")
				want := full([]interface{}{v, 7, "seven"})
				if full(l) != want || full(r) != want || lerr != nil || rerr != nil {
					failf("results of %v: locally %v %v, remotely %v %v", descs([]interface{}{v}), l, lerr, r, rerr)
					break
				}
			}
			done = true
		}
		return body, func(w *zzvs.World) {
			if !done {
				zzvs.Fail("stuck", "a call did not return")
			}
		}
	})
	mk("mixed-1", 2, 3, mixed(1))
	mk("mixed-2", 1, 2, mixed(2))
	mk("mixed-4", 1, 1, mixed(4))
	for _, x := range []struct {
		ms int64
		t  float32
	}{{1500, 0}, {500, 0}, {999, 0}, {1001, 0}, {300, 0.25}, {200, 0.25}, {2000, 2.5}, {3000, 2.5}} {
		mk(fmt.Sprintf("slow-%d-of-%v", x.ms, x.t), 0, 1, slow(x.ms*1e6, x.t))
	}
	zzvs.Main("C12", scs, []string{"values of slices and maps of the caller are not changed while the call runs", "nil and empty slices and maps are one value", "a float32 may arrive as the float64 of the same value"})
}
