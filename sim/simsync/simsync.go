// Package simsync replaces package sync in the code under test: the same
// primitives, blocking through the simulator's scheduler.
package simsync

import (
	"sync"
	"unsafe"

	"verifsim/simrt"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex replaces sync.Mutex.
type Mutex struct {
	locked bool
	_      [7]byte
}

//go:norace
func (m *Mutex) Lock() {
	simrt.Yield()
	for m.locked {
		simrt.Block(unsafe.Pointer(m))
	}
	m.locked = true
	simrt.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	simrt.Yield()
	if m.locked {
		return false
	}
	m.locked = true
	simrt.RaceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	simrt.RaceRelease(unsafe.Pointer(m))
	m.locked = false
	simrt.Wake(unsafe.Pointer(m))
	simrt.Yield()
}

// RWMutex replaces sync.RWMutex. A waiting writer blocks new readers, as in
// package sync.
type RWMutex struct {
	w       bool
	readers int32
	waiting int32
	rs, ws  byte
}

//go:norace
func (m *RWMutex) RLock() {
	simrt.Yield()
	for m.w || m.waiting > 0 {
		simrt.Block(unsafe.Pointer(m))
	}
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(&m.rs))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	simrt.Yield()
	if m.w || m.waiting > 0 {
		return false
	}
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(&m.rs))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(&m.ws))
	m.readers--
	simrt.Wake(unsafe.Pointer(m))
	simrt.Yield()
}

//go:norace
func (m *RWMutex) Lock() {
	simrt.Yield()
	m.waiting++
	for m.w || m.readers > 0 {
		simrt.Block(unsafe.Pointer(m))
	}
	m.waiting--
	m.w = true
	simrt.RaceAcquire(unsafe.Pointer(&m.rs))
	simrt.RaceAcquire(unsafe.Pointer(&m.ws))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	simrt.Yield()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	simrt.RaceAcquire(unsafe.Pointer(&m.rs))
	simrt.RaceAcquire(unsafe.Pointer(&m.ws))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&m.rs))
	m.w = false
	simrt.Wake(unsafe.Pointer(m))
	simrt.Yield()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n int64
}

//go:norace
func (w *WaitGroup) Add(d int) {
	simrt.Yield()
	if d < 0 {
		simrt.RaceReleaseMerge(unsafe.Pointer(w))
	}
	w.n += int64(d)
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		simrt.Wake(unsafe.Pointer(w))
	}
}

// Done is WaitGroup.Done.
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	simrt.Yield()
	for w.n > 0 {
		simrt.Block(unsafe.Pointer(w))
	}
	simrt.RaceAcquire(unsafe.Pointer(w))
}

// Go is WaitGroup.Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Spawn()
	go func() {
		simrt.Start()
		defer simrt.End()
		defer w.Done()
		f()
	}()
	simrt.Spawned()
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) setDone() { o.done = true }

// Do is Once.Do.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Cond replaces sync.Cond.
type Cond struct {
	L   Locker
	gen int64
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait is Cond.Wait; a Signal may wake several waiters, which Cond permits
// callers not to rely on.
func (c *Cond) Wait() {
	g := c.cur()
	c.L.Unlock()
	for c.cur() == g {
		simrt.Block(unsafe.Pointer(c))
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) cur() int64 { return c.gen }

//go:norace
func (c *Cond) Signal() { c.Broadcast() }

//go:norace
func (c *Cond) Broadcast() {
	c.gen++
	simrt.Wake(unsafe.Pointer(c))
}

// Pool replaces sync.Pool by a deterministic stack: whatever is put back is
// handed out again first, which is the reuse that hides least.
type Pool struct {
	New   func() interface{}
	m     Mutex
	items []interface{}
}

// Get is Pool.Get.
func (p *Pool) Get() interface{} {
	p.m.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put is Pool.Put.
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.items = append(p.items, x)
	p.m.Unlock()
}

// Map replaces sync.Map; Range follows insertion order.
type Map struct {
	m    Mutex
	v    map[interface{}]interface{}
	keys []interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok := m.v[k]
	return v, ok
}

func (m *Map) store(k, v interface{}) {
	if m.v == nil {
		m.v = make(map[interface{}]interface{})
	}
	if _, ok := m.v[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.v[k] = v
}

func (m *Map) remove(k interface{}) {
	if _, ok := m.v[k]; !ok {
		return
	}
	delete(m.v, k)
	for i := range m.keys {
		if m.keys[i] == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) Store(k, v interface{}) {
	m.m.Lock()
	defer m.m.Unlock()
	m.store(k, v)
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if o, ok := m.v[k]; ok {
		return o, true
	}
	m.store(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	o, ok := m.v[k]
	m.remove(k)
	return o, ok
}

func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	o, ok := m.v[k]
	m.store(k, v)
	return o, ok
}

func (m *Map) CompareAndSwap(k, old, new interface{}) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if o, ok := m.v[k]; ok && o == old {
		m.v[k] = new
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old interface{}) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if o, ok := m.v[k]; ok && o == old {
		m.remove(k)
		return true
	}
	return false
}

func (m *Map) Clear() {
	m.m.Lock()
	defer m.m.Unlock()
	m.v, m.keys = nil, nil
}

func (m *Map) Range(f func(k, v interface{}) bool) {
	m.m.Lock()
	keys := append([]interface{}(nil), m.keys...)
	m.m.Unlock()
	for _, k := range keys {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}
