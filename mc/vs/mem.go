package zzvs

import (
	"fmt"
	"unsafe"
)

// Race is a pair of conflicting accesses not ordered by synchronization.
type Race struct {
	A, B   int32
	AW, BW bool
	Map    bool
}

type epoch struct {
	g    int32
	c    uint32
	site int32
}

type shadow struct {
	w      epoch // last write, c==0: none
	r      []epoch
	h      uint64
	owner  int32
	shared bool
}

var siteNames []string

// Sites registers the source positions of one package's instrumentation points.
func Sites(base int, names []string) {
	for len(siteNames) < base+len(names) {
		siteNames = append(siteNames, "")
	}
	copy(siteNames[base:], names)
}

func siteName(s int32) string {
	if s >= 0 && int(s) < len(siteNames) {
		return siteNames[s]
	}
	return fmt.Sprint(s)
}

func (r Race) String() string {
	k := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	m := ""
	if r.Map {
		m = "map "
	}
	return fmt.Sprintf("%s%s at %s vs %s%s at %s", m, k(r.AW), siteName(r.A), m, k(r.BW), siteName(r.B))
}

func (w *World) access(p unsafe.Pointer, site int32, write, isMap bool) {
	g := w.cur
	if w.ex != nil && w.ex.racy[site] {
		w.point(g, "access "+siteName(site), nil)
	}
	tab := w.mem
	if isMap {
		tab = w.maps
	}
	s := tab[p]
	if s == nil {
		s = &shadow{owner: int32(g.id)}
		tab[p] = s
	} else if s.owner != int32(g.id) {
		s.shared = true
	}
	if s.shared {
		g.ops++
	}
	seen := func(e epoch) bool {
		return e.c == 0 || e.g == int32(g.id) || (int(e.g) < len(g.vc) && e.c <= g.vc[e.g])
	}
	if !seen(s.w) {
		w.race(Race{s.w.site, site, true, write, isMap})
	}
	me := epoch{int32(g.id), g.vc[g.id], site}
	if write {
		for _, e := range s.r {
			if !seen(e) {
				w.race(Race{e.site, site, false, true, isMap})
			}
		}
		s.r = s.r[:0]
		s.w = me
		g.h = mix(mix(g.h, s.h), 0x77)
		s.h = g.h
		if s.shared {
			w.effects()
		}
	} else {
		for i := range s.r {
			if s.r[i].g == me.g {
				s.r[i] = me
				goto done
			}
		}
		s.r = append(s.r, me)
	done:
		g.h = mix(mix(g.h, s.h), 0x72)
	}
}

func (w *World) race(r Race) {
	k := [2]int32{r.A, r.B}
	if w.raceSeen[k] {
		return
	}
	w.raceSeen[k] = true
	w.Races = append(w.Races, r)
	w.trace("RACE %s", r)
	if r.Map && w.ex != nil && !w.ex.MapRaceOK {
		w.crash(w.cur, "fatal error: concurrent map access: "+r.String(), "")
		me()
	}
}

// Rd records a read of *p and returns p.
func Rd[T any](p *T, site int32) *T {
	if w := W; w != nil && !w.dead && w.cur != nil && unsafe.Sizeof(*p) > 0 {
		if p == nil {
			return p
		}
		w.access(unsafe.Pointer(p), site, false, false)
	}
	return p
}

// Wr records a write of *p and returns p.
func Wr[T any](p *T, site int32) *T {
	if w := W; w != nil && !w.dead && w.cur != nil && unsafe.Sizeof(*p) > 0 {
		if p == nil {
			return p
		}
		w.access(unsafe.Pointer(p), site, true, false)
	}
	return p
}

// Wv records a write of *p after v was computed and returns v.
func Wv[T any, V any](p *T, v V, site int32) V {
	if w := W; w != nil && !w.dead && w.cur != nil && p != nil && unsafe.Sizeof(*p) > 0 {
		w.access(unsafe.Pointer(p), site, true, false)
	}
	return v
}

func mapPtr[K comparable, V any](m map[K]V) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// MR records a read of map m.
func MR[M ~map[K]V, K comparable, V any](m M, site int32) M {
	if w := W; w != nil && !w.dead && w.cur != nil && m != nil {
		w.access(mapPtr(map[K]V(m)), site, false, true)
	}
	return m
}

// MW records a write of map m.
func MW[M ~map[K]V, K comparable, V any](m M, site int32) M {
	if w := W; w != nil && !w.dead && w.cur != nil && m != nil {
		w.access(mapPtr(map[K]V(m)), site, true, true)
	}
	return m
}

// MWv records a write of map m after v was computed.
func MWv[M ~map[K]V, K comparable, V any, X any](m M, v X, site int32) X {
	MW[M, K, V](m, site)
	return v
}

// Obj records an access to the opaque object behind p (an uninstrumented type that is not
// safe for concurrent use) and returns p.
func Obj[T any](p *T, site int32, write bool) *T {
	if w := W; w != nil && !w.dead && w.cur != nil && p != nil {
		w.access(unsafe.Pointer(p), site, write, false)
	}
	return p
}

// Zero resets a package variable.
func Zero[T any](p *T) { var z T; *p = z }

var resets []func()

// RegisterReset adds a function that re-initializes a package's variables.
func RegisterReset(f func()) { resets = append(resets, f) }
