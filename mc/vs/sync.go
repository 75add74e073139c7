package zzvs

import (
	"sync"
	"unsafe"
)

func fatal(msg string) {
	w := W
	g := w.cur
	w.crash(g, "fatal error: "+msg, "")
	me()
}

// Mutex replaces sync.Mutex.
type Mutex struct {
	locked bool
	last   unlock
	o      obj
}

func (m *Mutex) Lock() {
	g := me()
	if g == nil {
		return
	}
	W.point(g, "Lock", func() bool { return !m.locked })
	m.locked = true
	g.acquire(&m.o, 1)
	W.trace("lock %p", m)
}

func (m *Mutex) TryLock() bool {
	g := me()
	if g == nil {
		return true
	}
	W.point(g, "TryLock", nil)
	if m.locked {
		g.h = mix(g.h, m.o.h+1)
		return false
	}
	// Unlock is no scheduling point: this may as well come right before it.
	if m.last.since(g) && Choose(2) == 1 {
		g.h = mix(g.h, m.o.h+1)
		return false
	}
	m.locked = true
	g.acquire(&m.o, 1)
	return true
}

func (m *Mutex) Unlock() {
	g := soft()
	if g == nil {
		return
	}
	if !m.locked {
		fatal("sync: unlock of unlocked mutex")
	}
	m.last = g.unlocked()
	g.release(&m.o, 2)
	m.locked = false
	W.trace("unlock %p", m)
}

// unlock remembers an unlock.
type unlock struct {
	g  *G
	at int // its scheduling points
	t  uint32
}

func (g *G) unlocked() unlock {
	u := unlock{g: g, at: g.points}
	if g.id < len(g.vc) {
		u.t = g.vc[g.id]
	}
	return u
}

// since tells if the unlock may as well come later: whoever unlocked has done nothing since that others
// could have seen, and g does not know of it.
func (u unlock) since(g *G) bool {
	return u.g != nil && u.g != g && (u.at == u.g.points || u.at+1 == u.g.points && !u.g.done) &&
		(u.g.id >= len(g.vc) || g.vc[u.g.id] < u.t)
}

func (m *RWMutex) rsince(g *G) bool {
	for _, u := range m.rlast {
		if u.since(g) {
			return true
		}
	}
	return false
}

// Locker is sync.Locker.
type Locker = sync.Locker

// RWMutex replaces sync.RWMutex.  As there, a writer keeps out readers that come after it, and those
// get in when it unlocks, before the next writer.
type RWMutex struct {
	w    bool // a writer has it or waits for the readers to leave
	has  bool // a writer has it
	r    int
	wait []*bool // readers waiting: whether they were let in
	ow   obj
	or   obj

	last  unlock
	rlast []unlock
}

func (m *RWMutex) Lock() {
	g := me()
	if g == nil {
		return
	}
	W.point(g, "Lock", func() bool { return !m.w })
	m.w = true
	if m.r > 0 {
		W.point(g, "Lock", func() bool { return m.r == 0 })
	}
	m.has = true
	g.acquire(&m.ow, 1)
	g.acquire(&m.or, 1)
}
func (m *RWMutex) Unlock() {
	g := soft()
	if g == nil {
		return
	}
	if !m.has {
		fatal("sync: Unlock of unlocked RWMutex")
	}
	m.last, m.rlast = g.unlocked(), nil
	g.release(&m.ow, 2)
	m.w, m.has = false, false
	for _, x := range m.wait {
		*x = true
		m.r++
	}
	m.wait = nil
}
func (m *RWMutex) RLock() {
	g := me()
	if g == nil {
		return
	}
	W.point(g, "RLock", nil)
	if m.w {
		in := false
		m.wait = append(m.wait, &in)
		W.point(g, "RLock", func() bool { return in })
	} else {
		m.r++
	}
	g.vc = join(g.vc, m.ow.vc)
	g.h = mix(mix(g.h, m.ow.h), 3)
}
func (m *RWMutex) RUnlock() {
	g := soft()
	if g == nil {
		return
	}
	if m.r <= 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	u := g.unlocked()
	m.or.vc = join(m.or.vc, g.vc)
	m.or.h += mix(g.h, 4)
	g.tick()
	m.r--
	last := []unlock{u}
	for _, u := range m.rlast {
		if u.since(g) {
			last = append(last, u)
		}
	}
	m.rlast = last
}
func (m *RWMutex) TryLock() bool {
	g := me()
	if g == nil {
		return true
	}
	W.point(g, "TryLock", nil)
	if m.w || m.r > 0 {
		g.h = mix(g.h, m.ow.h+m.or.h+1)
		return false
	}
	if (m.last.since(g) || m.rsince(g)) && Choose(2) == 1 {
		g.h = mix(g.h, m.ow.h+m.or.h+1)
		return false
	}
	m.w, m.has = true, true
	g.acquire(&m.ow, 1)
	g.acquire(&m.or, 1)
	return true
}
func (m *RWMutex) TryRLock() bool {
	g := me()
	if g == nil {
		return true
	}
	W.point(g, "TryRLock", nil)
	if m.w {
		g.h = mix(g.h, m.ow.h+1)
		return false
	}
	if m.last.since(g) && Choose(2) == 1 {
		g.h = mix(g.h, m.ow.h+1)
		return false
	}
	m.r++
	g.vc = join(g.vc, m.ow.vc)
	g.h = mix(mix(g.h, m.ow.h), 3)
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is the read half.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n int
	o obj
}

func (wg *WaitGroup) Add(d int) {
	g := soft()
	if g == nil {
		return
	}
	wg.n += d
	if wg.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	g.release(&wg.o, 5)
	W.effects()
}
func (wg *WaitGroup) Done() { wg.Add(-1) }
func (wg *WaitGroup) Wait() {
	g := me()
	if g == nil {
		return
	}
	W.point(g, "WaitGroup.Wait", func() bool { return wg.n == 0 })
	g.acquire(&wg.o, 6)
}
func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	Go("WaitGroup.Go", func() { defer wg.Done(); f() })
}

// Once replaces sync.Once.
type Once struct {
	st int
	o  obj
}

func (o *Once) Do(f func()) {
	g := me()
	if g == nil {
		if o.st == 0 {
			o.st = 2
			f()
		}
		return
	}
	W.point(g, "Once.Do", func() bool { return o.st != 1 })
	if o.st == 2 {
		g.acquire(&o.o, 7)
		return
	}
	o.st = 1
	W.effects()
	g.h = mix(g.h, 8)
	defer func() {
		o.st = 2
		if g := soft(); g != nil {
			g.release(&o.o, 9)
			W.effects()
		}
	}()
	f()
}

// OnceFunc replaces sync.OnceFunc (without the panic memory).
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Cond replaces sync.Cond.
type Cond struct {
	L  Locker
	ws []*condW
	o  obj
}
type condW struct{ ok bool }

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	g := me()
	x := &condW{}
	c.ws = append(c.ws, x)
	c.L.Unlock()
	W.point(g, "Cond.Wait", func() bool { return x.ok })
	g.acquire(&c.o, 10)
	c.L.Lock()
}
func (c *Cond) Signal() {
	g := me()
	if g == nil {
		return
	}
	W.point(g, "Cond.Signal", nil)
	if len(c.ws) > 0 {
		c.ws[0].ok = true
		c.ws = c.ws[1:]
		W.effects()
	}
	g.release(&c.o, 11)
}
func (c *Cond) Broadcast() {
	g := me()
	if g == nil {
		return
	}
	W.point(g, "Cond.Broadcast", nil)
	for _, x := range c.ws {
		x.ok = true
		W.effects()
	}
	c.ws = nil
	g.release(&c.o, 12)
}

// Pool replaces sync.Pool (last in, first out).
type Pool struct {
	New func() interface{}
	s   []interface{}
	o   obj
}

func (p *Pool) Get() interface{} {
	g := me()
	if g != nil {
		W.point(g, "Pool.Get", nil)
		g.acquire(&p.o, 13)
		p.o.h = g.h
	}
	if n := len(p.s); n > 0 {
		x := p.s[n-1]
		p.s = p.s[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	if g := soft(); g != nil {
		g.release(&p.o, 14)
	}
	p.s = append(p.s, x)
}

// Map replaces sync.Map.
type Map struct {
	m    map[interface{}]interface{}
	keys []interface{}
	o    obj
}

func (m *Map) op(write bool) {
	g := me()
	if g == nil {
		return
	}
	W.point(g, "sync.Map", nil)
	g.acquire(&m.o, 15)
	if write {
		g.release(&m.o, 16)
		W.effects()
	}
}
func (m *Map) put(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) del(k interface{}) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}
func (m *Map) Load(k interface{}) (interface{}, bool) { m.op(false); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v interface{})                 { m.op(true); m.put(k, v) }
func (m *Map) Delete(k interface{})                   { m.op(true); m.del(k) }
func (m *Map) Clear()                                 { m.op(true); m.m = nil; m.keys = nil }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.op(true)
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.put(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.op(true)
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.op(true)
	p, ok := m.m[k]
	m.put(k, v)
	return p, ok
}
func (m *Map) CompareAndSwap(k, old, v interface{}) bool {
	m.op(true)
	if x, ok := m.m[k]; ok && x == old {
		m.put(k, v)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old interface{}) bool {
	m.op(true)
	if x, ok := m.m[k]; ok && x == old {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.op(false)
	for _, k := range append([]interface{}(nil), m.keys...) {
		m.op(false)
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}

// atomics

func atomicOp(p unsafe.Pointer, write bool) {
	g := me()
	if g == nil {
		return
	}
	w := W
	w.point(g, "atomic", nil)
	o := w.atoms[p]
	if o == nil {
		o = &obj{}
		w.atoms[p] = o
	}
	g.acquire(o, 17)
	if write {
		g.release(o, 18)
		w.effects()
	}
}

type anyInt interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

func aLoad[T any](p *T) T     { atomicOp(unsafe.Pointer(p), false); return *p }
func aStore[T any](p *T, v T) { atomicOp(unsafe.Pointer(p), true); *p = v }
func aSwap[T any](p *T, v T) T {
	atomicOp(unsafe.Pointer(p), true)
	o := *p
	*p = v
	return o
}
func aAdd[T anyInt](p *T, d T) T { atomicOp(unsafe.Pointer(p), true); *p += d; return *p }
func aAnd[T anyInt](p *T, d T) T { atomicOp(unsafe.Pointer(p), true); o := *p; *p &= d; return o }
func aOr[T anyInt](p *T, d T) T  { atomicOp(unsafe.Pointer(p), true); o := *p; *p |= d; return o }
func aCas[T comparable](p *T, a, b T) bool {
	// a failing compare-and-swap changes nothing: not an effect
	g := me()
	if g == nil {
		if *p == a {
			*p = b
			return true
		}
		return false
	}
	w := W
	w.point(g, "atomic", nil)
	o := w.atoms[unsafe.Pointer(p)]
	if o == nil {
		o = &obj{}
		w.atoms[unsafe.Pointer(p)] = o
	}
	g.acquire(o, 17)
	if *p == a {
		*p = b
		g.release(o, 18)
		w.effects()
		return true
	}
	return false
}

func AtomicAddInt32(p *int32, d int32) int32                 { return aAdd(p, d) }
func AtomicAddInt64(p *int64, d int64) int64                 { return aAdd(p, d) }
func AtomicAddUint32(p *uint32, d uint32) uint32             { return aAdd(p, d) }
func AtomicAddUint64(p *uint64, d uint64) uint64             { return aAdd(p, d) }
func AtomicAddUintptr(p *uintptr, d uintptr) uintptr         { return aAdd(p, d) }
func AtomicLoadInt32(p *int32) int32                         { return aLoad(p) }
func AtomicLoadInt64(p *int64) int64                         { return aLoad(p) }
func AtomicLoadUint32(p *uint32) uint32                      { return aLoad(p) }
func AtomicLoadUint64(p *uint64) uint64                      { return aLoad(p) }
func AtomicLoadUintptr(p *uintptr) uintptr                   { return aLoad(p) }
func AtomicStoreInt32(p *int32, v int32)                     { aStore(p, v) }
func AtomicStoreInt64(p *int64, v int64)                     { aStore(p, v) }
func AtomicStoreUint32(p *uint32, v uint32)                  { aStore(p, v) }
func AtomicStoreUint64(p *uint64, v uint64)                  { aStore(p, v) }
func AtomicStoreUintptr(p *uintptr, v uintptr)               { aStore(p, v) }
func AtomicSwapInt32(p *int32, v int32) int32                { return aSwap(p, v) }
func AtomicSwapInt64(p *int64, v int64) int64                { return aSwap(p, v) }
func AtomicSwapUint32(p *uint32, v uint32) uint32            { return aSwap(p, v) }
func AtomicSwapUint64(p *uint64, v uint64) uint64            { return aSwap(p, v) }
func AtomicSwapUintptr(p *uintptr, v uintptr) uintptr        { return aSwap(p, v) }
func AtomicCompareAndSwapInt32(p *int32, a, b int32) bool    { return aCas(p, a, b) }
func AtomicCompareAndSwapInt64(p *int64, a, b int64) bool    { return aCas(p, a, b) }
func AtomicCompareAndSwapUint32(p *uint32, a, b uint32) bool { return aCas(p, a, b) }
func AtomicCompareAndSwapUint64(p *uint64, a, b uint64) bool { return aCas(p, a, b) }
func AtomicCompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	return aCas(p, a, b)
}
func AtomicLoadPointer(p *unsafe.Pointer) unsafe.Pointer     { return aLoad(p) }
func AtomicStorePointer(p *unsafe.Pointer, v unsafe.Pointer) { aStore(p, v) }
func AtomicSwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	return aSwap(p, v)
}
func AtomicCompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	return aCas(p, a, b)
}

type atomInt[T anyInt] struct{ v T }

func (a *atomInt[T]) Load() T                    { return aLoad(&a.v) }
func (a *atomInt[T]) Store(v T)                  { aStore(&a.v, v) }
func (a *atomInt[T]) Swap(v T) T                 { return aSwap(&a.v, v) }
func (a *atomInt[T]) Add(d T) T                  { return aAdd(&a.v, d) }
func (a *atomInt[T]) And(d T) T                  { return aAnd(&a.v, d) }
func (a *atomInt[T]) Or(d T) T                   { return aOr(&a.v, d) }
func (a *atomInt[T]) CompareAndSwap(x, y T) bool { return aCas(&a.v, x, y) }

type AtomicInt32 struct{ atomInt[int32] }
type AtomicInt64 struct{ atomInt[int64] }
type AtomicUint32 struct{ atomInt[uint32] }
type AtomicUint64 struct{ atomInt[uint64] }
type AtomicUintptr struct{ atomInt[uintptr] }
type AtomicBool struct{ v bool }

func (a *AtomicBool) Load() bool                    { return aLoad(&a.v) }
func (a *AtomicBool) Store(v bool)                  { aStore(&a.v, v) }
func (a *AtomicBool) Swap(v bool) bool              { return aSwap(&a.v, v) }
func (a *AtomicBool) CompareAndSwap(x, y bool) bool { return aCas(&a.v, x, y) }

type AtomicValue struct{ v interface{} }

func (a *AtomicValue) Load() interface{}              { return aLoad(&a.v) }
func (a *AtomicValue) Store(v interface{})            { aStore(&a.v, v) }
func (a *AtomicValue) Swap(v interface{}) interface{} { return aSwap(&a.v, v) }
func (a *AtomicValue) CompareAndSwap(x, y interface{}) bool {
	atomicOp(unsafe.Pointer(&a.v), true)
	if a.v == x {
		a.v = y
		return true
	}
	return false
}

type AtomicPointer[T any] struct{ v *T }

func (a *AtomicPointer[T]) Load() *T                    { return aLoad(&a.v) }
func (a *AtomicPointer[T]) Store(v *T)                  { aStore(&a.v, v) }
func (a *AtomicPointer[T]) Swap(v *T) *T                { return aSwap(&a.v, v) }
func (a *AtomicPointer[T]) CompareAndSwap(x, y *T) bool { return aCas(&a.v, x, y) }
