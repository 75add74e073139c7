package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	. "github.com/muguangyi/ferry/zzharness/hk"
	"github.com/muguangyi/ferry/zzvs"
)

// Kit is the feature called locally and remotely. Every method records what it receives and returns
// something made of it.
type Kit struct {
	Feat
	got []string // normal forms of the arguments of the last call, with types
	n   int
	out []interface{} // what Give returns
}

func (k *Kit) rec(v ...interface{}) {
	k.n++
	k.got = nil
	for _, x := range v {
		k.got = append(k.got, full(x))
	}
}

func (k *Kit) Bool(v bool) bool                  { k.rec(v); return v }
func (k *Kit) Str(v string) string               { k.rec(v); return v }
func (k *Kit) I(v int) int                       { k.rec(v); return v }
func (k *Kit) I8(v int8) int8                    { k.rec(v); return v }
func (k *Kit) I16(v int16) int16                 { k.rec(v); return v }
func (k *Kit) I32(v int32) int32                 { k.rec(v); return v }
func (k *Kit) I64(v int64) int64                 { k.rec(v); return v }
func (k *Kit) U(v uint) uint                     { k.rec(v); return v }
func (k *Kit) U8(v uint8) uint8                  { k.rec(v); return v }
func (k *Kit) U16(v uint16) uint16               { k.rec(v); return v }
func (k *Kit) U32(v uint32) uint32               { k.rec(v); return v }
func (k *Kit) U64(v uint64) uint64               { k.rec(v); return v }
func (k *Kit) F32(v float32) float32             { k.rec(v); return v }
func (k *Kit) F64(v float64) float64             { k.rec(v); return v }
func (k *Kit) Any(v interface{}) interface{}     { k.rec(v); return v }
func (k *Kit) Arr(v []interface{}) []interface{} { k.rec(v); return v }
func (k *Kit) Map(v map[interface{}]interface{}) map[interface{}]interface{} {
	k.rec(v)
	return v
}
func (k *Kit) Strs(v []string) []string                              { k.rec(v); return v }
func (k *Kit) Ints(v []int) []int                                    { k.rec(v); return v }
func (k *Kit) Bytes(v []uint8) []uint8                               { k.rec(v); return v }
func (k *Kit) U16s(v []uint16) []uint16                              { k.rec(v); return v }
func (k *Kit) I64s(v []int64) []int64                                { k.rec(v); return v }
func (k *Kit) F64s(v []float64) []float64                            { k.rec(v); return v }
func (k *Kit) F32s(v []float32) []float32                            { k.rec(v); return v }
func (k *Kit) Bools(v []bool) []bool                                 { k.rec(v); return v }
func (k *Kit) Grid(v [][]int) [][]int                                { k.rec(v); return v }
func (k *Kit) Arrs(v [][]interface{}) [][]interface{}                { k.rec(v); return v }
func (k *Kit) MapSI(v map[string]int) map[string]int                 { k.rec(v); return v }
func (k *Kit) MapIS(v map[int]string) map[int]string                 { k.rec(v); return v }
func (k *Kit) MapSA(v map[string]interface{}) map[string]interface{} { k.rec(v); return v }
func (k *Kit) MapSL(v map[string][]string) map[string][]string       { k.rec(v); return v }
func (k *Kit) MapUB(v map[uint16]bool) map[uint16]bool               { k.rec(v); return v }
func (k *Kit) Maps(v []map[string]int) []map[string]int              { k.rec(v); return v }

// types with names of their own
type (
	ID    int
	Small uint8
	Label string
	Flag  bool
	Score float64
	Row   []float64
	Cells []Label
	Attrs map[Label]ID
	Free  interface{}
)

func (k *Kit) ID(v ID) ID          { k.rec(v); return v }
func (k *Kit) Small(v Small) Small { k.rec(v); return v }
func (k *Kit) Label(v Label) Label { k.rec(v); return v }
func (k *Kit) Flag(v Flag) Flag    { k.rec(v); return v }
func (k *Kit) Score(v Score) Score { k.rec(v); return v }
func (k *Kit) Row(v Row) Row       { k.rec(v); return v }
func (k *Kit) Cells(v Cells) Cells { k.rec(v); return v }
func (k *Kit) Attrs(v Attrs) Attrs { k.rec(v); return v }
func (k *Kit) Free(v Free) Free    { k.rec(v); return v }

// any number of arguments
func (k *Kit) Sum(v ...int) int                    { k.rec(v); return len(v) }
func (k *Kit) Join(sep string, v ...string) string { k.rec(sep, v); return strings.Join(v, sep) }
func (k *Kit) List(v ...interface{}) []interface{} { k.rec(v); return v }
func (k *Kit) Rows(n int8, b bool, v ...[]interface{}) ([]interface{}, int8) {
	k.rec(n, b, v)
	return []interface{}{len(v), b}, n
}

// Many has many of both.
func (k *Kit) Many(a, b, c, d, e, f, g, h, i, j, l, m, n, o, p, q interface{}) (r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16, r17 interface{}) {
	k.rec(a, b, c, d, e, f, g, h, i, j, l, m, n, o, p, q)
	return q, p, o, n, m, l, j, i, h, g, f, e, d, c, b, a, a
}

// several parameters and results
func (k *Kit) None()                { k.rec() }
func (k *Kit) Gone(a int, s string) { k.rec(a, s) }
func (k *Kit) Two(a string, b int) (int, string) {
	k.rec(a, b)
	return b, a
}
func (k *Kit) Three(a interface{}, b []interface{}, c float64) (float64, interface{}, []interface{}) {
	k.rec(a, b, c)
	return c, a, b
}
func (k *Kit) Four(a int8, b uint64, c bool, d map[interface{}]interface{}) (bool, map[interface{}]interface{}, int8, uint64) {
	k.rec(a, b, c, d)
	return c, d, a, b
}
func (k *Kit) Five(a, b, c, d, e interface{}) (interface{}, interface{}, interface{}, interface{}, interface{}) {
	k.rec(a, b, c, d, e)
	return e, d, c, b, a
}
func (k *Kit) Nine(a bool, b string, c int16, d uint32, e float32, f float64, g interface{}, h []interface{}, i map[interface{}]interface{}) (map[interface{}]interface{}, []interface{}, interface{}, float64, float32, uint32, int16, string, bool) {
	k.rec(a, b, c, d, e, f, g, h, i)
	return i, h, g, f, e, d, c, b, a
}

// Give returns results that are no function of its arguments.
func (k *Kit) Give() (interface{}, int, string) { k.rec(); return k.out[0], 7, "seven" }

// full is the normal form of a value: with its type as far as it matters where a parameter's type
// does not settle it (only the width of a number may differ), byte for byte.
func full(v interface{}) string { return norm(reflect.ValueOf(v)) }

func norm(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return norm(v.Elem())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.String:
		s := v.String()
		if len(s) > 60 {
			h := uint64(14695981039346656037)
			for i := 0; i < len(s); i++ {
				h = (h ^ uint64(s[i])) * 1099511628211
			}
			return fmt.Sprintf("s%d#%x", len(s), h)
		}
		return fmt.Sprintf("s%q", s)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("i%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprintf("u%d", v.Uint())
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		if f != f {
			return "fNaN"
		}
		return fmt.Sprintf("f%x", math.Float64bits(f))
	case reflect.Slice, reflect.Array:
		var b []string
		for i := 0; i < v.Len(); i++ {
			b = append(b, norm(v.Index(i)))
		}
		return "[" + strings.Join(b, " ") + "]"
	case reflect.Map:
		var b []string
		for _, k := range v.MapKeys() {
			b = append(b, norm(k)+":"+norm(v.MapIndex(k)))
		}
		sort.Strings(b)
		return "{" + strings.Join(b, " ") + "}"
	}
	return fmt.Sprintf("?%s", v.Type())
}

// place is where a call is made to, locally or remotely.
type outcome struct {
	ran int
	got []string
	res []string
	err error
}

func (o outcome) String() string {
	return fmt.Sprintf("ran %d times with %v, returned %v, error %v", o.ran, o.got, o.res, o.err)
}

// fits tells whether a value is of the family of a parameter type and has a place in it, so that the
// call has to succeed and the method has to see exactly this value; want is the normal form of it.
func fits(v reflect.Value, t reflect.Type) (want string, ok bool) {
	if v.IsValid() && v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if t.Kind() == reflect.Interface {
		return norm(v), true
	}
	if !v.IsValid() {
		switch t.Kind() {
		case reflect.Slice:
			return "[]", true
		case reflect.Map:
			return "{}", true
		}
		return "", false
	}
	switch t.Kind() {
	case reflect.Bool:
		return norm(v), v.Kind() == reflect.Bool
	case reflect.String:
		return norm(v), v.Kind() == reflect.String
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		switch v.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return norm(v), !reflect.Zero(t).OverflowInt(v.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		switch v.Kind() {
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return norm(v), !reflect.Zero(t).OverflowUint(v.Uint())
		}
	case reflect.Float32:
		if v.Kind() == reflect.Float32 || v.Kind() == reflect.Float64 {
			return full(float32(v.Float())), true
		}
	case reflect.Float64:
		return norm(v), v.Kind() == reflect.Float32 || v.Kind() == reflect.Float64
	case reflect.Slice:
		if v.Kind() != reflect.Slice {
			return "", false
		}
		var b []string
		for i := 0; i < v.Len(); i++ {
			s, ok := fits(v.Index(i), t.Elem())
			if !ok {
				return "", false
			}
			b = append(b, s)
		}
		return "[" + strings.Join(b, " ") + "]", true
	case reflect.Map:
		if v.Kind() != reflect.Map {
			return "", false
		}
		var b []string
		for _, k := range v.MapKeys() {
			ks, ok1 := fits(k, t.Key())
			vs, ok2 := fits(v.MapIndex(k), t.Elem())
			if !ok1 || !ok2 {
				return "", false
			}
			b = append(b, ks+":"+vs)
		}
		sort.Strings(b)
		return "{" + strings.Join(b, " ") + "}", true
	}
	return "", false
}

func failf(f string, a ...interface{}) { zzvs.Fail("differs", f, a...) }
