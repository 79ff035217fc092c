// Package vsync replaces sync in the instrumented code; the algorithms follow the standard library.
package vsync

import (
	"sync"
	"unsafe"

	"gzmc/vs"
)

type Locker = sync.Locker

type Mutex struct {
	locked bool
	epoch  int
}

func (m *Mutex) fresh() {
	if e := vs.Epoch(); m.epoch != e {
		m.epoch = e
		m.locked = false
	}
}

func (m *Mutex) Lock() {
	vs.Yield()
	if vs.Idle() {
		return
	}
	m.fresh()
	front := false
	for m.locked {
		vs.Park(unsafe.Pointer(m), "Mutex.Lock", front)
		front = true
	}
	m.locked = true
	vs.Cell(unsafe.Pointer(m)).Acquire()
}

func (m *Mutex) TryLock() bool {
	vs.Yield()
	if vs.Idle() {
		return true
	}
	m.fresh()
	if m.locked {
		return false
	}
	m.locked = true
	vs.Cell(unsafe.Pointer(m)).Acquire()
	return true
}

func (m *Mutex) Unlock() {
	if vs.Idle() {
		return
	}
	m.fresh()
	if !m.locked {
		vs.Fatal("sync: unlock of unlocked mutex")
	}
	vs.Cell(unsafe.Pointer(m)).Release()
	m.locked = false
	vs.Wake(unsafe.Pointer(m), 1)
}

// RWMutex follows sync.RWMutex: a pending writer blocks new readers.
type RWMutex struct {
	w       Mutex
	readers int
	pending bool // a writer holds or waits for the lock
	wait    int  // readers the pending writer still waits for
	epoch   int
	wsem    byte
	rsem    byte
}

func (rw *RWMutex) fresh() {
	if e := vs.Epoch(); rw.epoch != e {
		*rw = RWMutex{epoch: e}
	}
}

func (rw *RWMutex) Lock() {
	if vs.Idle() {
		return
	}
	rw.fresh()
	rw.w.Lock()
	rw.pending = true
	rw.wait = rw.readers
	if rw.wait > 0 {
		vs.Park(unsafe.Pointer(&rw.wsem), "RWMutex.Lock", false)
	}
	c := vs.Cell(unsafe.Pointer(rw))
	c.Acquire()
	vs.Cell(unsafe.Pointer(&rw.rsem)).Acquire()
}

func (rw *RWMutex) TryLock() bool {
	if vs.Idle() {
		return true
	}
	rw.fresh()
	vs.Yield()
	if rw.pending || rw.readers > 0 {
		return false
	}
	rw.Lock()
	return true
}

func (rw *RWMutex) Unlock() {
	if vs.Idle() {
		return
	}
	rw.fresh()
	if !rw.pending {
		vs.Fatal("sync: Unlock of unlocked RWMutex")
	}
	vs.Cell(unsafe.Pointer(rw)).Release()
	rw.pending = false
	rw.readers += vs.Wake(unsafe.Pointer(&rw.rsem), -1)
	rw.w.Unlock()
}

func (rw *RWMutex) RLock() {
	vs.Yield()
	if vs.Idle() {
		return
	}
	rw.fresh()
	if rw.pending {
		vs.Park(unsafe.Pointer(&rw.rsem), "RWMutex.RLock", false)
	} else {
		rw.readers++
	}
	vs.Cell(unsafe.Pointer(rw)).Acquire()
}

func (rw *RWMutex) TryRLock() bool {
	vs.Yield()
	if vs.Idle() {
		return true
	}
	rw.fresh()
	if rw.pending {
		return false
	}
	rw.readers++
	vs.Cell(unsafe.Pointer(rw)).Acquire()
	return true
}

func (rw *RWMutex) RUnlock() {
	if vs.Idle() {
		return
	}
	rw.fresh()
	if rw.readers <= 0 {
		vs.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	vs.Cell(unsafe.Pointer(&rw.rsem)).Release()
	rw.readers--
	if rw.pending {
		rw.wait--
		if rw.wait == 0 {
			vs.Wake(unsafe.Pointer(&rw.wsem), 1)
		}
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (rw *RWMutex) RLocker() Locker { return (*rlocker)(rw) }

type Once struct {
	done  bool
	m     Mutex
	epoch int
}

func (o *Once) Do(f func()) {
	if e := vs.Epoch(); o.epoch != e {
		*o = Once{epoch: e}
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

type WaitGroup struct {
	n     int
	epoch int
}

func (wg *WaitGroup) fresh() {
	if e := vs.Epoch(); wg.epoch != e {
		*wg = WaitGroup{epoch: e}
	}
}

func (wg *WaitGroup) Add(d int) {
	vs.Yield()
	if vs.Idle() {
		return
	}
	wg.fresh()
	wg.n += d
	if wg.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	vs.Cell(unsafe.Pointer(wg)).Release()
	if wg.n == 0 {
		vs.Wake(unsafe.Pointer(wg), -1)
	}
}
func (wg *WaitGroup) Done() { wg.Add(-1) }
func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	vs.Go(func() { defer wg.Done(); f() })
}
func (wg *WaitGroup) Wait() {
	vs.Yield()
	if vs.Idle() {
		return
	}
	wg.fresh()
	for wg.n > 0 {
		vs.Park(unsafe.Pointer(wg), "WaitGroup.Wait", false)
	}
	vs.Cell(unsafe.Pointer(wg)).Acquire()
}

type Cond struct {
	L Locker
	_ byte
	p byte
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	c.L.Unlock()
	if !vs.Idle() {
		vs.Park(unsafe.Pointer(&c.p), "Cond.Wait", false)
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	vs.Yield()
	if !vs.Idle() {
		vs.Wake(unsafe.Pointer(&c.p), 1)
	}
}
func (c *Cond) Broadcast() {
	vs.Yield()
	if !vs.Idle() {
		vs.Wake(unsafe.Pointer(&c.p), -1)
	}
}

// Pool never keeps anything.
type Pool struct {
	New func() any
}

func (p *Pool) Get() any {
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(any) {}

// Map is a synchronised map; ranges go in insertion order.
type Map struct {
	m     map[any]any
	keys  []any
	epoch int
}

func (m *Map) enter() {
	vs.Yield()
	if e := vs.Epoch(); m.epoch != e || m.m == nil {
		m.m, m.keys, m.epoch = map[any]any{}, nil, e
	}
	if !vs.Idle() {
		vs.Cell(unsafe.Pointer(m)).Acquire()
		vs.Cell(unsafe.Pointer(m)).Release()
	}
}
func (m *Map) Load(k any) (any, bool) { m.enter(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any) {
	m.enter()
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.enter()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.keys = append(m.keys, k)
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.enter()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) del(k any) {
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			return
		}
	}
}
func (m *Map) Delete(k any) { m.enter(); m.del(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.enter()
	o, ok := m.m[k]
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.enter()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.enter()
	for _, k := range append([]any(nil), m.keys...) {
		m.enter()
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}
