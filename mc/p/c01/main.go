// C01: encoding and then decoding any supported value gives back an equal value.
package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/muguangyi/ferry/codec"
	"zzplain/pk"
	"zzplain/val"
)

const sentinel = "\xc2\xd9end"

// trip encodes and decodes a value twice over (as it is, then what came back) and judges it.
func trip(v interface{}) (msg string) {
	if crash := pk.Guard(func() { msg = roundTrip(v) }); crash != "" {
		return crash
	}
	return msg
}

func roundTrip(v interface{}) string {
	var buf bytes.Buffer
	a := codec.NewAny(v)
	if err := a.Encode(&buf); err != nil {
		return "Encode: " + err.Error()
	}
	enc := append([]byte{}, buf.Bytes()...)
	buf.WriteString(sentinel)
	b := codec.NewAny(nil)
	if err := b.Decode(&buf); err != nil {
		return fmt.Sprintf("Decode of % x: %v", head(enc), err)
	}
	if buf.String() != sentinel {
		return fmt.Sprintf("decoding % x consumed %d of %d bytes", head(enc), len(enc)+len(sentinel)-buf.Len(), len(enc))
	}
	if m := val.Same(v, b.Any(), false); m != "" {
		return m
	}
	if m := val.Same(v, a.Any(), false); m != "" {
		return "encoding changed the value: " + m
	}
	// what came back is a value, too
	buf.Reset()
	if err := b.Encode(&buf); err != nil {
		return "Encode again: " + err.Error()
	}
	if err := a.Decode(&buf); err != nil {
		return "Decode again: " + err.Error()
	}
	if buf.Len() != 0 {
		return "decoding again left bytes"
	}
	if m := val.Same(v, a.Any(), nested(v)); m != "" {
		return "once more: " + m
	}
	return ""
}

func nested(v interface{}) bool { return false }

func head(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

func one(t *pk.T, v interface{}) {
	if t.Case(func() string { return val.Show(v) }) {
		t.State()
		t.Step(4)
		t.Trace(1)
		if m := trip(v); m != "" {
			t.Fail("value", "%s", m)
		}
	}
}

// around puts a scalar at the top, into an array, and into a map as value and as key.
func around(t *pk.T, v interface{}) {
	one(t, v)
	one(t, []interface{}{v})
	one(t, []interface{}{"x", v, v})
	one(t, map[interface{}]interface{}{"k": v})
	one(t, map[interface{}]interface{}{v: int8(1)})
	one(t, []interface{}{map[interface{}]interface{}{v: []interface{}{v}}})
}

// block treats many similar scalars as one case.
func block(t *pk.T, from, to uint64, desc string, mk func(uint64) interface{}) {
	if !t.Case(func() string { return fmt.Sprintf("%s from %#x to %#x", desc, from, to) }) {
		return
	}
	var buf bytes.Buffer
	b := codec.NewAny(nil)
	for i := from; i < to; i++ {
		v := mk(i)
		msg := ""
		if crash := pk.Guard(func() {
			buf.Reset()
			if err := codec.NewAny(v).Encode(&buf); err != nil {
				msg = "Encode: " + err.Error()
				return
			}
			if err := b.Decode(&buf); err != nil {
				msg = "Decode: " + err.Error()
				return
			}
			if buf.Len() != 0 {
				msg = "decoding left bytes"
				return
			}
			if !quick(v, b.Any()) {
				msg = val.Same(v, b.Any(), false)
			}
		}); crash != "" {
			msg = crash
		}
		if msg != "" {
			t.Fail("value", "%s: %s", val.Show(v), msg)
			return
		}
		t.State()
		t.Step(2)
	}
	t.Trace(int(to - from))
}

// quick settles the common equalities without reflection.
func quick(v, g interface{}) bool {
	switch x := v.(type) {
	case float32:
		y, ok := g.(float32)
		return ok && math.Float32bits(x) == math.Float32bits(y)
	}
	return false
}

var pattern = []byte{0x00, 0x01, 0x7f, 0x80, 0xff}

func patterns(n int, f func(uint64)) {
	var rec func(i int, v uint64)
	rec = func(i int, v uint64) {
		if i == n {
			f(v)
			return
		}
		for _, b := range pattern {
			rec(i+1, v<<8|uint64(b))
		}
	}
	rec(0, 0)
}

func scalars(t *pk.T) {
	one(t, nil)
	around(t, nil)
	for _, tp := range val.Scalars {
		for _, v := range val.Edges(tp) {
			around(t, v)
		}
	}
	// every value of the narrow types
	for i := 0; i < 1<<16; i++ {
		if i < 1<<8 {
			around(t, int8(i))
			around(t, uint8(i))
		}
		one(t, int16(i))
		one(t, uint16(i))
		one(t, []interface{}{int16(i), uint16(i)})
		// the same values in wide types
		one(t, []int64{int64(int16(i)), int64(i)})
		one(t, int(int16(i)))
		one(t, int(i))
		one(t, int32(int16(i)))
		one(t, uint(i))
		one(t, uint64(i))
	}
}

func words(t *pk.T) {
	patterns(8, func(v uint64) {
		one(t, v)
		one(t, int64(v))
		one(t, math.Float64frombits(v))
		one(t, []interface{}{v, int64(v), math.Float64frombits(v)})
	})
	patterns(4, func(v uint64) {
		one(t, uint32(v))
		one(t, int32(v))
		one(t, math.Float32frombits(uint32(v)))
		one(t, int(int32(v)))
		one(t, uint(v))
	})
	// every float32 with these low halves; every float64 with these ends
	for i := 0; i < 1<<16; i++ {
		for _, low := range []uint64{0, 1, 0x8000, 0xffff} {
			one(t, math.Float32frombits(uint32(uint64(i)<<16|low)))
			one(t, math.Float64frombits(uint64(i)<<48|low))
			one(t, int32(uint32(uint64(i)<<16|low)))
			one(t, uint32(uint64(i)<<16|low))
			one(t, int64(uint64(i)<<16|low))
			one(t, -int64(uint64(i)<<16|low))
		}
	}
}

func all32(t *pk.T) {
	const step = 1 << 16
	if !t.Thorough {
		for _, from := range []uint64{0, 0x7fff0000, 0x80000000, 0xffff0000, 0x3f800000, 0x7f800000, 0xff800000} {
			block(t, from, from+step, "float32", func(i uint64) interface{} { return math.Float32frombits(uint32(i)) })
			block(t, from, from+step, "int32", func(i uint64) interface{} { return int32(i) })
			block(t, from, from+step, "uint32", func(i uint64) interface{} { return uint32(i) })
			block(t, from, from+step, "int64", func(i uint64) interface{} { return int64(int32(i)) })
		}
		return
	}
	for from := uint64(0); from < 1<<32; from += step {
		block(t, from, from+step, "float32", func(i uint64) interface{} { return math.Float32frombits(uint32(i)) })
		block(t, from, from+step, "int32", func(i uint64) interface{} { return int32(i) })
		block(t, from, from+step, "uint32", func(i uint64) interface{} { return uint32(i) })
	}
}

func strs(t *pk.T) {
	for i := 0; i < 256; i++ {
		one(t, string([]byte{byte(i)}))
		for j := 0; j < 256; j++ {
			one(t, string([]byte{byte(i), byte(j)}))
		}
	}
	max := 9000
	if t.Thorough {
		max = 140000
	}
	for n := 0; n < max; n++ {
		s := strings.Repeat("0123456789abcde", n/15+1)[:n]
		one(t, s)
	}
	for _, n := range []int{32767, 32768, 65535, 65536, 65537, 100000, 1 << 20, 1<<24 - 1, 1 << 24, 1<<24 + 1} {
		one(t, strings.Repeat("\xff", n))
		one(t, []interface{}{strings.Repeat("z", n), "end"})
		one(t, map[interface{}]interface{}{strings.Repeat("z", n): "end"})
	}
}

// long: slices, arrays and maps whose sizes need every byte of their length
func long(t *pk.T) {
	for _, n := range []int{255, 256, 257, 65535, 65536, 65537, 1 << 20, 1<<24 - 1, 1 << 24, 1<<24 + 1} {
		b := make([]bool, n)
		b[n-1] = true
		one(t, b)
		if n <= 1<<20 {
			one(t, []interface{}{b, "end"})
		}
		if n <= 65537 || t.Thorough && n <= 1<<20 {
			m := map[int32]bool{}
			for i := 0; i < n; i++ {
				m[int32(i)] = i%2 == 0
			}
			one(t, m)
		}
	}
}

func typed(t *pk.T) {
	depth := 2
	val.Typed(depth, func(v interface{}) {
		one(t, v)
		one(t, []interface{}{v, "end"})
		one(t, map[string]interface{}{"k": v})
	})
	if t.Thorough {
		val.Typed(3, func(v interface{}) { one(t, v) })
	}
}

func trees(t *pk.T) {
	depth := 4
	if t.Thorough {
		depth = 5
	}
	for n := 1; n <= depth; n++ {
		val.Trees(n, val.Leaves, func(v interface{}) { one(t, v) })
	}
	// deeper ones over two leaves
	for n := depth + 1; n <= depth+3; n++ {
		val.Trees(n, []interface{}{"s", 300}, func(v interface{}) { one(t, v) })
	}
}

func keys(t *pk.T) {
	var ks []interface{}
	ks = append(ks, nil)
	for _, tp := range val.Scalars {
		for _, v := range val.Few(tp) {
			ks = append(ks, v)
		}
	}
	ks = append(ks, math.NaN(), math.Copysign(0, -1), "k", "K", "k ", int8(5), uint8(5), 5.0, "5")
	equal := func(a, b interface{}) bool {
		x, y := reflect.ValueOf(a), reflect.ValueOf(b)
		if !x.IsValid() || !y.IsValid() {
			return x.IsValid() == y.IsValid()
		}
		kind := func(v reflect.Value) int {
			switch v.Kind() {
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				return 1
			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				return 2
			case reflect.Float32, reflect.Float64:
				return 3
			case reflect.Bool:
				return 4
			}
			return 5
		}
		if kind(x) != kind(y) {
			return false
		}
		switch kind(x) {
		case 1:
			return x.Int() == y.Int()
		case 2:
			return x.Uint() == y.Uint()
		case 3:
			return x.Float() == y.Float() || x.Float() != x.Float() && y.Float() != y.Float()
		}
		return a == b
	}
	for i, a := range ks {
		for j, b := range ks {
			if i == j || equal(a, b) {
				continue
			}
			one(t, map[interface{}]interface{}{a: "first", b: []interface{}{1, 2}})
			for k, c := range ks {
				if k == i || k == j || equal(a, c) || equal(b, c) {
					continue
				}
				one(t, map[interface{}]interface{}{a: nil, b: map[interface{}]interface{}{}, c: ""})
			}
		}
	}
}

func sizes(t *pk.T) {
	max := 600
	if t.Thorough {
		max = 5000
	}
	for n := 0; n <= max; n++ {
		sized(t, n)
	}
	for _, n := range []int{1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 100000} {
		sized(t, n)
	}
}

func sized(t *pk.T, n int) {
	a := make([]interface{}, n)
	for i := range a {
		a[i] = i - n/2
	}
	one(t, a)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i)
	}
	one(t, b)
	m := make(map[int]string, n)
	for i := 0; i < n; i++ {
		m[i*7] = fmt.Sprint(i)
	}
	one(t, m)
	one(t, []interface{}{a, "end"})
}

func deep(t *pk.T) {
	ds := []int{}
	for d := 1; d < 200; d++ {
		ds = append(ds, d)
	}
	ds = append(ds, 255, 256, 257, 500, 999, 1000, 1001, 1023, 1024, 1025, 2000, 4999, 5000, 8000, 9000, 9990)
	for _, d := range ds {
		for k := 0; k < 3; k++ {
			var v interface{} = "leaf"
			for i := 0; i < d; i++ {
				switch {
				case k == 0 || k == 2 && i%2 == 0:
					v = []interface{}{v}
				default:
					v = map[interface{}]interface{}{int8(1): v}
				}
			}
			d, k := d, k
			if t.Case(func() string { return fmt.Sprintf("%d levels of kind %d", d, k) }) {
				t.State()
				t.Step(4)
				t.Trace(1)
				if m := trip(v); m != "" {
					if len(m) > 300 {
						m = m[len(m)-300:]
					}
					t.Fail("deep", "%s", m)
				}
			}
		}
	}
}

// streams writes sequences of values to one stream, then reads them back.
func streams(t *pk.T) {
	alpha := []interface{}{nil, true, false, "", "s", "longer text", int8(-1), 300, -70000, int64(math.MinInt64), uint8(7), uint16(300), uint64(math.MaxUint64),
		0.0, 1.5, float32(0.25), float32(0), []interface{}{}, []int{1, 2}, []interface{}{"a", []interface{}{nil}}, map[interface{}]interface{}{},
		map[string]int{"k": 1}, []byte{1, 2, 3}, [][]string{{"x"}, nil}}
	n := 4
	if t.Thorough {
		n = 5
	}
	for l := 1; l <= n; l++ {
		seq := make([]int, l)
		for {
			if t.Case(func() string {
				s := ""
				for _, i := range seq {
					s += val.Show(alpha[i]) + "; "
				}
				return s
			}) {
				msg := ""
				if crash := pk.Guard(func() { msg = stream(t, alpha, seq) }); crash != "" {
					msg = crash
				}
				t.State()
				t.Trace(1)
				if msg != "" {
					t.Fail("stream", "%s", msg)
				}
			}
			i := l - 1
			for ; i >= 0; i-- {
				if seq[i]++; seq[i] < len(alpha) {
					break
				}
				seq[i] = 0
			}
			if i < 0 || t.Stop() {
				break
			}
		}
	}
}

func stream(t *pk.T, alpha []interface{}, seq []int) string {
	var buf bytes.Buffer
	var ends []int
	for _, i := range seq {
		t.Step(2)
		if err := codec.NewAny(alpha[i]).Encode(&buf); err != nil {
			return "Encode: " + err.Error()
		}
		ends = append(ends, buf.Len())
	}
	total := buf.Len()
	r := bytes.NewReader(buf.Bytes())
	var got []interface{}
	shared := codec.NewAny(nil)
	for k := range seq {
		a := shared
		if k%2 == 1 {
			a = codec.NewAny("old")
		}
		if err := a.Decode(r); err != nil {
			return fmt.Sprintf("value %d: Decode: %v", k, err)
		}
		if total-r.Len() != ends[k] {
			return fmt.Sprintf("value %d: %d bytes consumed, %d written", k, total-r.Len(), ends[k])
		}
		got = append(got, a.Any())
	}
	// judged at the end: later values must not change earlier ones
	for k, i := range seq {
		if m := val.Same(alpha[i], got[k], false); m != "" {
			return fmt.Sprintf("value %d: %s", k, m)
		}
	}
	if err := codec.NewAny(nil).Decode(r); err == nil {
		return "a value was read from the end of the stream"
	}
	return ""
}

func main() {
	pk.Main("C01", []*pk.Scenario{
		{Name: "scalars", Bound: "every 8 and 16-bit integer, every type at and next to each power of two, at the top, in arrays, as map value and key", Run: scalars},
		{Name: "words", Bound: "all 4 and 8-byte patterns over {00,01,7f,80,ff} as integers and floats, all high halves", Run: words},
		{Name: "all-32-bit", Bound: "blocks of 65536 32-bit patterns", Deep: "all 2^32 float32, int32 and uint32", Run: all32},
		{Name: "strings", Bound: "all strings of up to 2 bytes, all lengths up to 9000, large lengths", Deep: "all lengths up to 140000", Run: strs},
		{Name: "long", Bound: "slices of up to 2^24+1 elements, maps of up to 65537", Deep: "maps of up to 2^20, too", Run: long},
		{Name: "typed", Bound: "all types of depth 2 over slices, arrays and maps of all scalars", Deep: "depth 3", Run: typed},
		{Name: "trees", Bound: "all trees of up to 4 nodes over 15 leaves, 7 over 2 leaves", Deep: "5 nodes over 15 leaves, 8 over 2", Run: trees},
		{Name: "keys", Bound: "all maps of two and three keys out of 50", Run: keys},
		{Name: "sizes", Bound: "containers of 0..600 and large numbers of elements", Deep: "0..5000", Run: sizes},
		{Name: "deep", Bound: "up to 9990 levels of arrays and maps", Run: deep},
		{Name: "streams", Bound: "all sequences of 1..4 out of 24 values in one stream", Deep: "1..5", Run: streams},
	}, "each state is one value (or stream of values), each transition one Encode or Decode of the real code; what came back was compared with "+
		"what went in by an independent reference (package val)",
		[]string{"map keys are scalars, no two of one map numerically equal and of the same kind", "nil and empty slices and maps count as equal",
			"a float32 inside a container may come back as the float64 of the same value"})
}
