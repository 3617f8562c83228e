package verifsync

import (
	realsync "sync"
	"unsafe"
)

type (
	Locker    = realsync.Locker
	WaitGroup = realsync.WaitGroup
	Cond      = realsync.Cond
)

func NewCond(l Locker) *Cond { return realsync.NewCond(l) }

// Mutex is a sync.Mutex whose operations are scheduling points.
type Mutex struct {
	mu     realsync.Mutex
	locked bool
}

//go:norace
func (m *Mutex) Lock() {
	Point(KindSync)
	if wait(&m.locked) {
		m.locked = true
	}
	m.mu.Lock()
}

//go:norace
func (m *Mutex) TryLock() bool {
	Point(KindSync)
	ok := m.mu.TryLock()
	if ok && managed() {
		m.locked = true
	}
	return ok
}

//go:norace
func (m *Mutex) Unlock() {
	m.locked = false
	m.mu.Unlock()
	Point(KindSync)
}

// RWMutex is a sync.RWMutex whose operations are scheduling points.
type RWMutex struct {
	mu      realsync.RWMutex
	writing bool // a writer holds it
	busy    bool // a writer or reader holds it
	readers int
}

//go:norace
func (m *RWMutex) Lock() {
	Point(KindSync)
	if wait(&m.busy) {
		m.writing, m.busy = true, true
	}
	m.mu.Lock()
}

//go:norace
func (m *RWMutex) Unlock() {
	m.writing, m.busy = false, false
	m.mu.Unlock()
	Point(KindSync)
}

//go:norace
func (m *RWMutex) RLock() {
	Point(KindSync)
	if wait(&m.writing) {
		m.readers++
		m.busy = true
	}
	m.mu.RLock()
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers > 0 {
		m.readers--
		m.busy = m.readers > 0
	}
	m.mu.RUnlock()
	Point(KindSync)
}

//go:norace
func (m *RWMutex) TryLock() bool {
	Point(KindSync)
	ok := m.mu.TryLock()
	if ok && managed() {
		m.writing, m.busy = true, true
	}
	return ok
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	Point(KindSync)
	ok := m.mu.TryRLock()
	if ok && managed() {
		m.readers++
		m.busy = true
	}
	return ok
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once is a sync.Once whose Do is a scheduling point.
type Once struct {
	m    Mutex
	done bool
	o    realsync.Once
}

func (o *Once) Do(f func()) {
	Point(KindSync)
	o.m.Lock()
	defer o.m.Unlock()
	o.o.Do(f)
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// Map is a sync.Map whose operations are scheduling points.
type Map struct{ m realsync.Map }

func (m *Map) Load(k any) (any, bool)           { Point(KindSync); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { Point(KindSync); m.m.Store(k, v) }
func (m *Map) Clear()                           { Point(KindSync); m.m.Clear() }
func (m *Map) LoadOrStore(k, v any) (any, bool) { Point(KindSync); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { Point(KindSync); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { Point(KindSync); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { Point(KindSync); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { Point(KindSync); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { Point(KindSync); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { Point(KindSync); m.m.Range(f) }

// Pool is the most hostile sync.Pool: an element put back is handed out to the next caller of Get, whoever that is,
// and nothing is ever dropped.
type Pool struct {
	New func() any

	mu    realsync.Mutex
	items [64]any
	n     int
}

//go:norace
func (p *Pool) take() (any, bool) {
	raceOff()
	p.mu.Lock()
	var x any
	ok := p.n > 0
	if ok {
		p.n--
		x = p.items[p.n]
		p.items[p.n] = nil
	}
	p.mu.Unlock()
	raceOn()
	return x, ok
}

//go:norace
func (p *Pool) give(x any) {
	raceOff()
	p.mu.Lock()
	if p.n < len(p.items) {
		p.items[p.n] = x
		p.n++
	}
	p.mu.Unlock()
	raceOn()
}

// addr identifies an element as package sync does: by the data pointer of the interface.
//
//go:norace
func (p *Pool) addr(x any) unsafe.Pointer {
	ptr := uintptr((*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1])
	return unsafe.Pointer(&poolRace[uint32((uint64(uint32(ptr))*0x85ebca6b)>>16)%uint32(len(poolRace))])
}

var poolRace [1021]uint64

func (p *Pool) Get() any {
	Point(KindPool)
	if x, ok := p.take(); ok {
		raceAcquire(p.addr(x))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	raceRelease(p.addr(x))
	p.give(x)
	Point(KindPool)
}
