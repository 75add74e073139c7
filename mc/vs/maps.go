package zzvs

import (
	"fmt"
	"reflect"
	"sort"
)

// MapIt iterates over a map in a deterministic or chosen order.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	site int32
}

func lessKey(a, b reflect.Value) bool {
	for a.Kind() == reflect.Interface {
		a = a.Elem()
	}
	for b.Kind() == reflect.Interface {
		b = b.Elem()
	}
	if !a.IsValid() || !b.IsValid() {
		return !a.IsValid() && b.IsValid()
	}
	if a.Kind() != b.Kind() {
		return a.Kind() < b.Kind()
	}
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() < b.Float()
	}
	return fmt.Sprint(a.Interface()) < fmt.Sprint(b.Interface())
}

func newIt[K comparable, V any](m map[K]V, site int32) *MapIt[K, V] {
	it := &MapIt[K, V]{m: m, site: site}
	if m == nil {
		return it
	}
	MR(m, site)
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sort.SliceStable(it.keys, func(i, j int) bool {
		return lessKey(reflect.ValueOf(&it.keys[i]).Elem(), reflect.ValueOf(&it.keys[j]).Elem())
	})
	if w := W; w != nil && !w.dead && w.cur != nil && w.MapOrders && len(it.keys) > 1 {
		n := len(it.keys)
		c := Choose(n) // rotations; for two keys that is every order
		it.keys = append(append([]K(nil), it.keys[c:]...), it.keys[:c]...)
	}
	return it
}

func (it *MapIt[K, V]) step() (k K, v V, ok bool) {
	for it.i < len(it.keys) {
		k = it.keys[it.i]
		it.i++
		MR(it.m, it.site)
		if v, ok = it.m[k]; ok {
			return k, v, true
		}
	}
	ok = false
	return
}

// MapIter3 starts `for k, v := range m`.
func MapIter3[M ~map[K]V, K comparable, V any](m M, site int32) (*MapIt[K, V], K, V) {
	var k K
	var v V
	return newIt(map[K]V(m), site), k, v
}

// MapIter2 starts `for k := range m`.
func MapIter2[M ~map[K]V, K comparable, V any](m M, site int32) (*MapIt[K, V], K) {
	var k K
	return newIt(map[K]V(m), site), k
}

// MapIterV starts `for _, v := range m`.
func MapIterV[M ~map[K]V, K comparable, V any](m M, site int32) (*MapIt[K, V], V) {
	var v V
	return newIt(map[K]V(m), site), v
}

// MapIter1 starts `for range m`.
func MapIter1[M ~map[K]V, K comparable, V any](m M, site int32) *MapIt[K, V] {
	return newIt(map[K]V(m), site)
}

func (it *MapIt[K, V]) Next3(kp *K, vp *V) bool {
	k, v, ok := it.step()
	if ok {
		*Wr(kp, it.site) = k
		*Wr(vp, it.site) = v
	}
	return ok
}
func (it *MapIt[K, V]) Next2(kp *K) bool {
	k, _, ok := it.step()
	if ok {
		*Wr(kp, it.site) = k
	}
	return ok
}
func (it *MapIt[K, V]) NextV(vp *V) bool {
	_, v, ok := it.step()
	if ok {
		*Wr(vp, it.site) = v
	}
	return ok
}
func (it *MapIt[K, V]) Next1() bool {
	_, _, ok := it.step()
	return ok
}

// MapVals2/Cur support `for k, v = range m` (assignment form).
func (it *MapIt[K, V]) Step() (K, V, bool) { return it.step() }
