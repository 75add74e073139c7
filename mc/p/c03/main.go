// C03: typed accessors of a dynamic value return the exact value or an error.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"

	"github.com/muguangyi/ferry/codec"
	"zzplain/pk"
	"zzplain/val"
)

type access struct {
	name string
	kind reflect.Type
	get  func(a codec.IAny) (interface{}, error)
}

var arrT = reflect.TypeOf([]interface{}{})
var mapT = reflect.TypeOf(map[interface{}]interface{}{})

var accessors = []access{
	{"Bool", reflect.TypeOf(true), func(a codec.IAny) (interface{}, error) { return first(a.Bool()) }},
	{"String", reflect.TypeOf(""), func(a codec.IAny) (interface{}, error) { return first(a.String()) }},
	{"Int", reflect.TypeOf(int(0)), func(a codec.IAny) (interface{}, error) { return first(a.Int()) }},
	{"Int8", reflect.TypeOf(int8(0)), func(a codec.IAny) (interface{}, error) { return first(a.Int8()) }},
	{"Int16", reflect.TypeOf(int16(0)), func(a codec.IAny) (interface{}, error) { return first(a.Int16()) }},
	{"Int32", reflect.TypeOf(int32(0)), func(a codec.IAny) (interface{}, error) { return first(a.Int32()) }},
	{"Int64", reflect.TypeOf(int64(0)), func(a codec.IAny) (interface{}, error) { return first(a.Int64()) }},
	{"Uint", reflect.TypeOf(uint(0)), func(a codec.IAny) (interface{}, error) { return first(a.Uint()) }},
	{"Uint8", reflect.TypeOf(uint8(0)), func(a codec.IAny) (interface{}, error) { return first(a.Uint8()) }},
	{"Uint16", reflect.TypeOf(uint16(0)), func(a codec.IAny) (interface{}, error) { return first(a.Uint16()) }},
	{"Uint32", reflect.TypeOf(uint32(0)), func(a codec.IAny) (interface{}, error) { return first(a.Uint32()) }},
	{"Uint64", reflect.TypeOf(uint64(0)), func(a codec.IAny) (interface{}, error) { return first(a.Uint64()) }},
	{"Float32", reflect.TypeOf(float32(0)), func(a codec.IAny) (interface{}, error) { return first(a.Float32()) }},
	{"Float64", reflect.TypeOf(float64(0)), func(a codec.IAny) (interface{}, error) { return first(a.Float64()) }},
	{"Arr", arrT, func(a codec.IAny) (interface{}, error) { return first(a.Arr()) }},
	{"Map", mapT, func(a codec.IAny) (interface{}, error) { return first(a.Map()) }},
}

func first[V any](v V, err error) (interface{}, error) { return v, err }

// num is the exact value of a number (nil: none; "" family if not a predeclared type).
func num(v interface{}) (family string, n *big.Int) {
	switch x := v.(type) {
	case int:
		return "int", big.NewInt(int64(x))
	case int8:
		return "int", big.NewInt(int64(x))
	case int16:
		return "int", big.NewInt(int64(x))
	case int32:
		return "int", big.NewInt(int64(x))
	case int64:
		return "int", big.NewInt(x)
	case uint:
		return "uint", new(big.Int).SetUint64(uint64(x))
	case uint8:
		return "uint", new(big.Int).SetUint64(uint64(x))
	case uint16:
		return "uint", new(big.Int).SetUint64(uint64(x))
	case uint32:
		return "uint", new(big.Int).SetUint64(uint64(x))
	case uint64:
		return "uint", new(big.Int).SetUint64(x)
	case float32, float64:
		return "float", nil
	case bool:
		return "bool", nil
	case string:
		return "string", nil
	}
	if v == nil {
		return "nil", nil
	}
	switch reflect.TypeOf(v) {
	case arrT:
		return "array", nil
	case mapT:
		return "map", nil
	}
	return "", nil
}

func family(tp reflect.Type) string {
	switch tp.Kind() {
	case reflect.Slice:
		return "array"
	case reflect.Map:
		return "map"
	}
	f, _ := num(reflect.Zero(tp).Interface())
	return f
}

// judge compares what an accessor returned with the value held.
func judge(held interface{}, ac access, got interface{}, err error) string {
	fam, n := num(held)
	want := family(ac.kind)
	if err != nil {
		if fam != want {
			return ""
		}
		if n != nil {
			bits := uint(ac.kind.Bits())
			low, high := big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), bits)
			if want == "int" {
				low = new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), bits-1))
				high = new(big.Int).Lsh(big.NewInt(1), bits-1)
			}
			if n.Cmp(low) < 0 || n.Cmp(high) >= 0 {
				return ""
			}
		}
		if want == "float" && ac.kind.Bits() == 32 {
			if f, ok := held.(float64); ok && float64(float32(f)) != f {
				return "" // may be refused
			}
		}
		return fmt.Sprintf("refused: %v", err)
	}
	// success: the same value
	switch want {
	case "int", "uint":
		if n == nil {
			if exactNumber(held, got) {
				return ""
			}
			return fmt.Sprintf("returned %T(%v)", got, got)
		}
		_, g := num(got)
		if g.Cmp(n) != 0 {
			return fmt.Sprintf("returned %T(%v)", got, got)
		}
	case "float":
		if fam != "float" {
			if n != nil {
				f := new(big.Float).SetInt(n)
				g := new(big.Float).SetFloat64(reflect.ValueOf(got).Float())
				if f.Cmp(g) == 0 {
					return ""
				}
			}
			if exactNumber(held, got) {
				return ""
			}
			return fmt.Sprintf("returned %T(%v)", got, got)
		}
		h := reflect.ValueOf(held).Float()
		g := reflect.ValueOf(got).Float()
		if ac.kind.Bits() == 32 {
			h = float64(float32(h))
		}
		if h != g && !(h != h && g != g) || math.Signbit(h) != math.Signbit(g) && h == h {
			return fmt.Sprintf("returned %T(%v)", got, got)
		}
		if f, ok := held.(float64); ok && ac.kind.Bits() == 64 && math.Float64bits(f) != math.Float64bits(got.(float64)) {
			return fmt.Sprintf("returned other bits of %v", got)
		}
	case "array", "map":
		v := reflect.ValueOf(held)
		if m := val.Same(held, got, false); m != "" || !v.IsValid() {
			if v.IsValid() {
				return "returned " + fmt.Sprint(got) + ": " + m
			}
			return fmt.Sprintf("returned %T(%v) for nil", got, got)
		}
	default:
		if fam == want {
			if got != held {
				return fmt.Sprintf("returned %T(%v)", got, got)
			}
			return ""
		}
		// a named type of the same kind may be served
		if v := reflect.ValueOf(held); v.IsValid() && v.Kind() == ac.kind.Kind() && v.Convert(ac.kind).Interface() == got {
			return ""
		}
		return fmt.Sprintf("returned %T(%v)", got, got)
	}
	return ""
}

// exactNumber: a value of a named numeric type may be served if it's exact.
func exactNumber(held, got interface{}) bool {
	v, g := reflect.ValueOf(held), reflect.ValueOf(got)
	if !v.IsValid() {
		return false
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return g.Kind() >= reflect.Int && g.Kind() <= reflect.Int64 && g.Int() == v.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return g.Kind() >= reflect.Uint && g.Kind() <= reflect.Uint64 && g.Uint() == v.Uint()
	case reflect.Float32, reflect.Float64:
		return (g.Kind() == reflect.Float32 || g.Kind() == reflect.Float64) && (g.Float() == v.Float() || g.Float() != g.Float() && v.Float() != v.Float())
	}
	return false
}

// all judges every accessor on a value held.
func all(t *pk.T, a codec.IAny, held interface{}) {
	for _, ac := range accessors {
		ac := ac
		var got interface{}
		var err error
		t.Step(1)
		if crash := pk.Guard(func() { got, err = ac.get(a) }); crash != "" {
			t.Fail("crash-"+ac.name, "%s() of %s: %s", ac.name, val.Show(held), crash)
			continue
		}
		if m := judge(held, ac, got, err); m != "" {
			t.Fail("value-"+ac.name, "%s() of %s: %s", ac.name, val.Show(held), m)
		}
	}
}

// both judges a value freshly wrapped, after encoding it, and decoded.
func both(t *pk.T, v interface{}) {
	if !t.Case(func() string { return val.Show(v) }) {
		return
	}
	t.State()
	t.Trace(1)
	a := codec.NewAny(v)
	all(t, a, v)
	var buf bytes.Buffer
	var err error
	if crash := pk.Guard(func() { err = a.Encode(&buf) }); crash != "" {
		t.Fail("encode", "Encode of %s: %s", val.Show(v), crash)
		return
	}
	if err != nil {
		return
	}
	b := codec.NewAny("old")
	if b.Decode(&buf) == nil {
		all(t, b, b.Any())
	}
	all(t, a, v) // asking doesn't change it
}

func scalars(t *pk.T) {
	both(t, nil)
	for _, tp := range val.Scalars {
		for _, v := range val.Edges(tp) {
			both(t, v)
		}
	}
	for i := 0; i < 1<<16; i++ {
		if i < 256 {
			both(t, int8(i))
			both(t, uint8(i))
		}
		both(t, int16(i))
		both(t, uint16(i))
		if t.Thorough || i%16 < 2 || i%16 == 15 {
			both(t, int(i)-30000)
			both(t, uint(i))
			both(t, int64(i)<<16)
			both(t, uint64(i)<<16|0xffff)
			both(t, int32(uint32(i)<<16))
			both(t, uint32(i)<<16)
			both(t, math.Float32frombits(uint32(i)<<16))
			both(t, math.Float64frombits(uint64(i)<<48))
		}
	}
	pattern := []byte{0x00, 0x01, 0x7f, 0x80, 0xff}
	var rec func(i int, v uint64)
	rec = func(i int, v uint64) {
		if i == 8 {
			both(t, v)
			both(t, int64(v))
			if t.Thorough {
				both(t, uint(v))
				both(t, int(v))
				both(t, math.Float64frombits(v))
			}
			return
		}
		for _, b := range pattern {
			rec(i+1, v<<8|uint64(b))
		}
	}
	rec(0, 0)
}

type named int8
type namedS string
type namedB bool
type namedF float32
type namedA []interface{}
type namedM map[interface{}]interface{}
type rec struct{ A int }

func odd() []interface{} {
	x := 5
	s := "s"
	var np *int
	var ne error
	return []interface{}{named(-5), namedS("x"), namedB(true), namedF(2.5), namedA{1}, namedM{1: 2}, rec{1}, &rec{1}, &x, np, ne, &s, func() {},
		make(chan int), complex(1, 2), complex64(1), uintptr(7), errors.New("e"), reflect.ValueOf(5), [3]int{1, 2, 3}, [0]int{}, []byte("bytes"), []rune("runes"),
		[]rec{{1}}, map[string]rec{"a": {1}}, map[rec]int{{1}: 1}, []error{nil}, []func(){nil}, []chan int{nil}, []*int{nil, &x}, struct{}{}, []interface{}(nil),
		map[interface{}]interface{}(nil), []interface{}{func() {}}, map[interface{}]interface{}{1: make(chan int)}, codec.NewAny(5), []string(nil), map[string]int(nil),
		[1][]interface{}{{1}}, big.NewInt(5)}
}

func others(t *pk.T) {
	for _, v := range odd() {
		// containers of what cannot be encoded are compared by identity only
		if !t.Case(func() string { return val.Show(v) }) {
			continue
		}
		t.State()
		t.Trace(1)
		a := codec.NewAny(v)
		for _, ac := range accessors {
			ac := ac
			t.Step(1)
			var got interface{}
			var err error
			if crash := pk.Guard(func() { got, err = ac.get(a) }); crash != "" {
				t.Fail("crash-"+ac.name, "%s() of %s: %s", ac.name, val.Show(v), crash)
				continue
			}
			fam, _ := num(v)
			if fam == family(ac.kind) && (ac.name == "Arr" || ac.name == "Map") {
				if err != nil {
					t.Fail("value-"+ac.name, "%s() of %s: refused: %v", ac.name, val.Show(v), err)
				} else if reflect.ValueOf(got).Len() != reflect.ValueOf(v).Len() {
					t.Fail("value-"+ac.name, "%s() of %s: returned %s", ac.name, val.Show(v), val.Show(got))
				}
				continue
			}
			if err == nil {
				if m := judge(v, ac, got, nil); m != "" {
					t.Fail("value-"+ac.name, "%s() of %s: %s", ac.name, val.Show(v), m)
				}
			}
		}
	}
	val.Typed(1, func(v interface{}) { both(t, v) })
	if t.Thorough {
		val.Typed(2, func(v interface{}) { both(t, v) })
	}
	n := 3
	if t.Thorough {
		n = 4
	}
	for i := 1; i <= n; i++ {
		val.Trees(i, val.Leaves, func(v interface{}) { both(t, v) })
	}
}

// histories: one object decodes, fails to decode and is asked, in every order.
func histories(t *pk.T) {
	enc := func(v interface{}) []byte {
		var b bytes.Buffer
		codec.NewAny(v).Encode(&b)
		return b.Bytes()
	}
	starts := []interface{}{nil, true, "text", int8(-3), 70000, int64(math.MinInt64), uint8(9), uint64(math.MaxUint64), float32(1.5), 2.5,
		[]interface{}{1, "a"}, map[interface{}]interface{}{"k": 1}, []int{1}, rec{1}}
	type input struct {
		desc string
		data []byte
	}
	var ins []input
	for _, v := range starts[:len(starts)-1] {
		ins = append(ins, input{val.Show(v), enc(v)})
		if e := enc(v); len(e) > 1 {
			ins = append(ins, input{val.Show(v) + " cut", e[:len(e)-1]})
		}
	}
	ins = append(ins, input{"nothing", nil}, input{"an unknown code", []byte{0x01}}, input{"a list of an unknown code", []byte{0xdd, 0, 0, 0, 1, 0x01}})
	depth := 3
	if t.Thorough {
		depth = 4
	}
	for _, st := range starts {
		seq := make([]int, depth)
		for {
			if t.Case(func() string {
				s := val.Show(st)
				for _, i := range seq {
					s += ", then Decode of " + ins[i].desc
				}
				return s
			}) {
				t.State()
				t.Trace(1)
				a := codec.NewAny(st)
				for _, i := range seq {
					t.Step(1)
					var err error
					if crash := pk.Guard(func() { err = a.Decode(bytes.NewReader(ins[i].data)) }); crash != "" {
						t.Fail("crash", "%s", crash)
						break
					}
					_ = err
					if _, ok := a.Any().(rec); !ok {
						all(t, a, a.Any())
					}
				}
			}
			i := depth - 1
			for ; i >= 0; i-- {
				if seq[i]++; seq[i] < len(ins) {
					break
				}
				seq[i] = 0
			}
			if i < 0 || t.Stop() {
				break
			}
		}
	}
}

func main() {
	pk.Main("C03", []*pk.Scenario{
		{Name: "scalars", Bound: "every 8 and 16-bit integer, edges and byte patterns of every type, wrapped and decoded, times 16 accessors", Deep: "more patterns", Run: scalars},
		{Name: "others", Bound: "40 values of other types, all container types of depth 1, all trees of up to 3 nodes, times 16 accessors", Deep: "depth 2, 4 nodes", Run: others},
		{Name: "histories", Bound: "every start value, then every sequence of 3 decodes (28 inputs, half of them failing), asked after each", Deep: "4 decodes", Run: histories},
	}, "each state is one held value (or history), each transition one accessor call on the real code, judged by an independent table (math/big)",
		[]string{"a float64 that no float32 equals may be rounded to the nearest float32 or refused", "array and map mean []interface{} and map[interface{}]interface{}; other container types may be refused"})
}
