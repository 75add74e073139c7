// Package val enumerates values and compares what came back, independently of the codec.
package val

import (
	"fmt"
	"math"
	"reflect"
)

// Same tells ("" or why not) if got is the value put in. Numbers keep their kind and value but
// not their width; inside containers a float32 may come back as the float64 of the same value.
func Same(in, got interface{}, nested bool) string {
	return same(reflect.ValueOf(in), got, nested)
}

func same(v reflect.Value, got interface{}, nested bool) string {
	for v.IsValid() && v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !v.IsValid() {
		if got != nil {
			return fmt.Sprintf("nil came back as %T(%v)", got, got)
		}
		return ""
	}
	bad := func() string { return fmt.Sprintf("%v(%v) came back as %T(%v)", v.Type(), v, got, got) }
	g := reflect.ValueOf(got)
	switch v.Kind() {
	case reflect.Bool:
		if b, ok := got.(bool); !ok || b != v.Bool() {
			return bad()
		}
	case reflect.String:
		if s, ok := got.(string); !ok || s != v.String() {
			if ok && (len(s) > 60 || v.Len() > 60) {
				return fmt.Sprintf("a string of %d bytes came back as another one of %d", v.Len(), len(s))
			}
			return bad()
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		switch g.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			if g.Int() != v.Int() {
				return bad()
			}
		default:
			return bad()
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		switch g.Kind() {
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			if g.Uint() != v.Uint() {
				return bad()
			}
		default:
			return bad()
		}
	case reflect.Float32:
		if f, ok := got.(float32); ok {
			if math.Float32bits(f) != math.Float32bits(float32(v.Float())) && !(f != f && v.Float() != v.Float()) {
				return bad()
			}
			return ""
		}
		f, ok := got.(float64)
		if !ok || !nested {
			return bad()
		}
		if f != v.Float() && !(f != f && v.Float() != v.Float()) || math.Signbit(f) != math.Signbit(v.Float()) {
			return bad()
		}
	case reflect.Float64:
		f, ok := got.(float64)
		if !ok || math.Float64bits(f) != math.Float64bits(v.Float()) {
			return bad()
		}
	case reflect.Slice, reflect.Array:
		if g.Kind() != reflect.Slice && g.Kind() != reflect.Array || g.Len() != v.Len() {
			return fmt.Sprintf("%v of %d came back as %s", v.Type(), v.Len(), brief(got))
		}
		for i := 0; i < v.Len(); i++ {
			if m := same(v.Index(i), g.Index(i).Interface(), true); m != "" {
				return fmt.Sprintf("[%d]: %s", i, m)
			}
		}
	case reflect.Map:
		if g.Kind() != reflect.Map || g.Len() != v.Len() {
			return fmt.Sprintf("%v of %d came back as %s", v.Type(), v.Len(), brief(got))
		}
		type kv struct{ k, v interface{} }
		var have []kv
		if v.Len() > 64 {
			// large ones: int or string keys only
			index := map[string]interface{}{}
			for i := g.MapRange(); i.Next(); {
				index[fmt.Sprint(i.Key())] = i.Value().Interface()
			}
			for i := v.MapRange(); i.Next(); {
				x, ok := index[fmt.Sprint(i.Key())]
				if !ok {
					return fmt.Sprintf("key %v is missing", i.Key())
				}
				if m := same(i.Value(), x, true); m != "" {
					return fmt.Sprintf("[%v]: %s", i.Key(), m)
				}
			}
			return ""
		}
		for i := g.MapRange(); i.Next(); {
			have = append(have, kv{i.Key().Interface(), i.Value().Interface()})
		}
	next:
		for i := v.MapRange(); i.Next(); {
			why := "no such key came back"
			for j, h := range have {
				if same(i.Key(), h.k, true) == "" {
					if why = same(i.Value(), h.v, true); why == "" {
						have = append(have[:j:j], have[j+1:]...)
						continue next
					}
				}
			}
			return fmt.Sprintf("entry %v: %s (%s)", i.Key(), why, brief(got))
		}
	default:
		return "reference: unsupported " + v.Type().String()
	}
	return ""
}

func brief(v interface{}) string {
	s := fmt.Sprintf("%T(%v)", v, v)
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

// Scalar types, nil aside.
var Scalars = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(""),
	reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)),
}

// Edges returns the values of a scalar type next to every power of two, and special ones.
func Edges(tp reflect.Type) []interface{} {
	var out []interface{}
	seen := map[interface{}]bool{}
	add := func(v reflect.Value) {
		x := v.Convert(tp).Interface()
		key := x
		switch f := x.(type) {
		case float32:
			key = math.Float32bits(f)
		case float64:
			key = math.Float64bits(f)
		}
		if !seen[key] {
			seen[key] = true
			out = append(out, x)
		}
	}
	switch tp.Kind() {
	case reflect.Bool:
		return []interface{}{false, true}
	case reflect.String:
		for _, s := range []string{"", "a", "ferry", "\x00", "\xff\xfe", "日本", "a\x00b", "\xc0\xdb"} {
			out = append(out, s)
		}
	case reflect.Float32, reflect.Float64:
		for _, f := range []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 0.5, 1.5, -2.25, 255, 256, 65536, 1e10, 1e-10, 1e38, -1e38, 1e300,
			math.MaxFloat32, math.SmallestNonzeroFloat32, math.MaxFloat64, math.SmallestNonzeroFloat64,
			math.Inf(1), math.Inf(-1), math.NaN(), math.Pi, 16777217, 9007199254740993} {
			if tp.Kind() == reflect.Float32 && math.Abs(f) > math.MaxFloat32 && !math.IsInf(f, 0) {
				continue
			}
			add(reflect.ValueOf(f))
		}
		// bits next to powers of two
		for k := uint(0); k < uint(tp.Bits()); k++ {
			for d := -1; d <= 1; d++ {
				b := uint64(1)<<k + uint64(d)
				if tp.Kind() == reflect.Float32 {
					out2 := math.Float32frombits(uint32(b))
					if !seen[uint32(b)] {
						seen[uint32(b)] = true
						out = append(out, out2)
					}
				} else if !seen[b] {
					seen[b] = true
					out = append(out, math.Float64frombits(b))
				}
			}
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		for k := uint(0); k <= uint(tp.Bits()); k++ {
			for d := -3; d <= 3; d++ {
				v := uint64(d)
				if k < 64 {
					v = uint64(1)<<k + uint64(d)
				}
				if tp.Bits() < 64 && v>>uint(tp.Bits()) != 0 {
					continue
				}
				add(reflect.ValueOf(v))
			}
		}
	default:
		for k := uint(0); k < uint(tp.Bits()); k++ {
			for d := -3; d <= 3; d++ {
				for _, s := range []int64{1, -1} {
					v := s*int64(uint64(1)<<k) + int64(d)
					if reflect.Zero(tp).OverflowInt(v) {
						continue
					}
					add(reflect.ValueOf(v))
				}
			}
		}
		for d := int64(-3); d <= 3; d++ {
			add(reflect.ValueOf(d))
		}
	}
	return out
}

// Few returns two or three values of a scalar type that differ in their encoded width.
func Few(tp reflect.Type) []interface{} {
	e := Edges(tp)
	switch tp.Kind() {
	case reflect.Bool:
		return e
	case reflect.String:
		return []interface{}{"", "a\x00b", "日本"}
	case reflect.Float32:
		return []interface{}{float32(0), float32(-1.5), float32(math.MaxFloat32)}
	case reflect.Float64:
		return []interface{}{0.0, -0.1, math.Inf(1)}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return []interface{}{reflect.ValueOf(uint64(0)).Convert(tp).Interface(), reflect.ValueOf(uint64(200)).Convert(tp).Interface(),
			reflect.ValueOf(uint64(1)<<uint(tp.Bits()) - 1).Convert(tp).Interface()}
	}
	min := int64(-1) << uint(tp.Bits()-1)
	return []interface{}{reflect.ValueOf(int64(0)).Convert(tp).Interface(), reflect.ValueOf(min).Convert(tp).Interface(),
		reflect.ValueOf(-(min + 1)).Convert(tp).Interface()}
}

var Iface = reflect.TypeOf((*interface{})(nil)).Elem()

// Typed calls f with values of every type built from the scalars by at most depth slices, arrays
// of two and maps keyed by any scalar.
func Typed(depth int, f func(v interface{})) {
	for _, tp := range Types(depth) {
		for _, v := range ValuesOf(tp) {
			f(v.Interface())
		}
	}
}

// Types lists those types.
func Types(depth int) []reflect.Type {
	base := append(append([]reflect.Type{}, Scalars...), Iface)
	if depth == 0 {
		return base
	}
	below := Types(depth - 1)
	if depth == 1 {
		below = base
	}
	var out []reflect.Type
	seen := map[reflect.Type]bool{}
	add := func(tp reflect.Type) {
		if !seen[tp] {
			seen[tp] = true
			out = append(out, tp)
		}
	}
	for _, tp := range below {
		add(tp)
	}
	for _, tp := range below {
		add(reflect.SliceOf(tp))
		add(reflect.ArrayOf(2, tp))
		add(reflect.ArrayOf(0, tp))
		for _, k := range base {
			add(reflect.MapOf(k, tp))
		}
	}
	return out
}

// ValuesOf lists a few values of a type.
func ValuesOf(tp reflect.Type) []reflect.Value {
	switch tp.Kind() {
	case reflect.Slice:
		e := ValuesOf(tp.Elem())
		one := reflect.MakeSlice(tp, 1, 1)
		one.Index(0).Set(e[len(e)-1])
		all := reflect.MakeSlice(tp, 0, len(e))
		for _, x := range e {
			all = reflect.Append(all, x)
		}
		return []reflect.Value{reflect.Zero(tp), reflect.MakeSlice(tp, 0, 0), one, all}
	case reflect.Array:
		v := reflect.New(tp).Elem()
		e := ValuesOf(tp.Elem())
		for i := 0; i < v.Len(); i++ {
			v.Index(i).Set(e[(len(e)-1+i)%len(e)])
		}
		return []reflect.Value{v}
	case reflect.Map:
		k, e := ValuesOf(tp.Key()), ValuesOf(tp.Elem())
		one, all := reflect.MakeMap(tp), reflect.MakeMap(tp)
		one.SetMapIndex(k[len(k)-1], e[len(e)-1])
		for i := range k {
			all.SetMapIndex(k[i], e[i%len(e)])
		}
		return []reflect.Value{reflect.Zero(tp), reflect.MakeMap(tp), one, all}
	case reflect.Interface:
		out := []reflect.Value{reflect.Zero(tp)}
		for _, x := range []interface{}{true, "x", int8(-5), uint16(999), 2.5} {
			v := reflect.New(tp).Elem()
			v.Set(reflect.ValueOf(x))
			out = append(out, v)
		}
		return out
	}
	var out []reflect.Value
	for _, x := range Few(tp) {
		out = append(out, reflect.ValueOf(x))
	}
	return out
}

// Leaves are the leaves of generic trees: every code at least once.
var Leaves = []interface{}{nil, true, false, "", "s", int8(-1), 300, int32(-70000), int64(1) << 40, uint8(7), uint16(300), uint32(70000), uint64(1) << 40, 1.5, float32(0.25)}

// Trees calls f with every generic tree of exactly n nodes over the leaves: slices of any number
// of children and maps (keys taken in turn from a fixed list of different kinds).
func Trees(n int, leaves []interface{}, f func(v interface{})) {
	if n == 1 {
		for _, l := range leaves {
			f(l)
		}
		f([]interface{}{})
		f(map[interface{}]interface{}{})
		return
	}
	keys := []interface{}{"k", int8(1), uint8(2), true, 0.5, nil, "", 1000}
	forests(n-1, leaves, nil, func(kids []interface{}) {
		f(append([]interface{}{}, kids...))
		m := map[interface{}]interface{}{}
		for i, k := range kids {
			m[keys[i%len(keys)]] = k
		}
		f(m)
	})
}

func forests(n int, leaves []interface{}, kids []interface{}, f func([]interface{})) {
	if n == 0 {
		f(kids)
		return
	}
	for first := 1; first <= n; first++ {
		Trees(first, leaves, func(v interface{}) {
			forests(n-first, leaves, append(kids[:len(kids):len(kids)], v), f)
		})
	}
}

// Show prints a value with its types.
func Show(v interface{}) string {
	s := fmt.Sprintf("%#v", v)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return fmt.Sprintf("%T %s", v, s)
}
