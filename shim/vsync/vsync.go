// Package vsync stands in for package sync in the instrumented build.
package vsync

import (
	"runtime"
	"unsafe"

	"github.com/spacemonkeygo/monkit/v3/internal/zv/sched"
)

type Locker interface {
	Lock()
	Unlock()
}

// live says whether scheduling applies; during teardown locks do not block.
//
//go:norace
func live() bool { return sched.Active() }

//go:norace
func tearing() bool { return sched.Cur() != nil && !sched.Active() }

type Mutex struct{ locked bool }

type mutexWait struct{ m *Mutex }

//go:norace
func (w mutexWait) Ready() bool { return !w.m.locked }

//go:norace
func (m *Mutex) Lock() {
	if live() {
		sched.Sync()
		for m.locked {
			if !live() {
				return
			}
			sched.Wait(mutexWait{m}, "Mutex.Lock")
		}
	} else if m.locked && !tearing() {
		panic("vsync: deadlock outside a session")
	}
	m.locked = true
	sched.Acquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	sched.Sync()
	if m.locked {
		return false
	}
	m.locked = true
	sched.Acquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	sched.Sync()
	if !m.locked && !tearing() {
		panic("sync: unlock of unlocked mutex")
	}
	sched.Release(unsafe.Pointer(m))
	m.locked = false
}

type RWMutex struct {
	writer  bool
	readers int32
	pending int32
	rkey    byte
}

type wWait struct{ m *RWMutex }

//go:norace
func (w wWait) Ready() bool { return !w.m.writer && w.m.readers == 0 }

type rWait struct{ m *RWMutex }

//go:norace
func (w rWait) Ready() bool { return !w.m.writer && w.m.pending == 0 }

//go:norace
func (m *RWMutex) Lock() {
	if live() {
		sched.Sync()
		m.pending++
		for m.writer || m.readers > 0 {
			if !live() {
				return
			}
			sched.Wait(wWait{m}, "RWMutex.Lock")
		}
		m.pending--
	}
	m.writer = true
	sched.Acquire(unsafe.Pointer(m))
	sched.Acquire(unsafe.Pointer(&m.rkey))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	sched.Sync()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	sched.Acquire(unsafe.Pointer(m))
	sched.Acquire(unsafe.Pointer(&m.rkey))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	sched.Sync()
	if !m.writer && !tearing() {
		panic("sync: Unlock of unlocked RWMutex")
	}
	sched.Release(unsafe.Pointer(m))
	m.writer = false
}

//go:norace
func (m *RWMutex) RLock() {
	if live() {
		sched.Sync()
		for m.writer || m.pending > 0 {
			if !live() {
				return
			}
			sched.Wait(rWait{m}, "RWMutex.RLock")
		}
	}
	m.readers++
	sched.Acquire(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	sched.Sync()
	if m.writer || m.pending > 0 {
		return false
	}
	m.readers++
	sched.Acquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	sched.Sync()
	if m.readers <= 0 && !tearing() {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	sched.ReleaseMerge(unsafe.Pointer(&m.rkey))
	m.readers--
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once keeps the call depth of sync.Once: Do -> doSlow -> f.
type Once struct {
	done bool
	m    Mutex
}

//go:norace
func (o *Once) isDone() bool {
	sched.Sync()
	if o.done {
		sched.Acquire(unsafe.Pointer(&o.done))
		return true
	}
	return false
}

//go:norace
func (o *Once) setDone() {
	sched.Sync()
	sched.Release(unsafe.Pointer(&o.done))
	o.done = true
}

//go:norace
func (o *Once) Do(f func()) {
	if !o.isDone() {
		o.doSlow(f)
	}
}

//go:norace
func (o *Once) doSlow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.setDone()
		f()
	}
}

func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p any
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	o := OnceFunc(func() { r = f() })
	return func() T { o(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var a T1
	var b T2
	o := OnceFunc(func() { a, b = f() })
	return func() (T1, T2) { o(); return a, b }
}

type WaitGroup struct{ n int }

type wgWait struct{ w *WaitGroup }

//go:norace
func (w wgWait) Ready() bool { return w.w.n <= 0 }

//go:norace
func (w *WaitGroup) Add(d int) {
	sched.Sync()
	sched.ReleaseMerge(unsafe.Pointer(w))
	w.n += d
	if w.n < 0 && !tearing() {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	sched.Sync()
	for w.n > 0 && live() {
		sched.Wait(wgWait{w}, "WaitGroup.Wait")
	}
	sched.Acquire(unsafe.Pointer(w))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sched.Go(func() { defer w.Done(); f() })
}

type Cond struct {
	L       Locker
	waiters [32]*condWait
	n       int
}

type condWait struct{ woken bool }

//go:norace
func (w *condWait) Ready() bool { return w.woken }

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	w := &condWait{}
	if c.n < len(c.waiters) {
		c.waiters[c.n] = w
		c.n++
	}
	c.L.Unlock()
	if live() {
		sched.Wait(w, "Cond.Wait")
	} else if tearing() {
		runtime.Goexit()
	}
	sched.Acquire(unsafe.Pointer(c))
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	sched.Sync()
	sched.ReleaseMerge(unsafe.Pointer(c))
	if c.n > 0 {
		c.waiters[0].woken = true
		for i := 1; i < c.n; i++ {
			c.waiters[i-1] = c.waiters[i]
		}
		c.n--
	}
}

//go:norace
func (c *Cond) Broadcast() {
	sched.Sync()
	sched.ReleaseMerge(unsafe.Pointer(c))
	for i := 0; i < c.n; i++ {
		c.waiters[i].woken = true
	}
	c.n = 0
}

// Pool hands back the most recently put item first.
type Pool struct {
	New   func() any
	items [64]any
	n     int
}

//go:norace
func (p *Pool) take() (any, bool) {
	sched.Sync()
	if p.n > 0 {
		p.n--
		x := p.items[p.n]
		p.items[p.n] = nil
		sched.Acquire(unsafe.Pointer(p))
		return x, true
	}
	return nil, false
}

func (p *Pool) Get() any {
	if x, ok := p.take(); ok {
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	sched.Sync()
	sched.ReleaseMerge(unsafe.Pointer(p))
	if p.n < len(p.items) {
		p.items[p.n] = x
		p.n++
	}
}

// Map is sync.Map over an insertion-ordered list, each operation atomic.
type Map struct {
	ents []*mapEnt
}

type mapEnt struct {
	k, v any
	live bool
}

//go:norace
func (m *Map) find(k any) *mapEnt {
	for _, e := range m.ents {
		if e.live && e.k == k {
			return e
		}
	}
	return nil
}

//go:norace
func (m *Map) enter() {
	sched.Sync()
	sched.Acquire(unsafe.Pointer(m))
}

//go:norace
func (m *Map) leave() { sched.ReleaseMerge(unsafe.Pointer(m)) }

//go:norace
func (m *Map) Load(k any) (any, bool) {
	m.enter()
	if e := m.find(k); e != nil {
		return e.v, true
	}
	return nil, false
}

//go:norace
func (m *Map) Store(k, v any) { m.Swap(k, v) }

//go:norace
func (m *Map) put(k, v any) {
	n := make([]*mapEnt, 0, len(m.ents)+1)
	for _, e := range m.ents {
		if e.live {
			n = append(n, e)
		}
	}
	m.ents = append(n, &mapEnt{k, v, true})
}

//go:norace
func (m *Map) Swap(k, v any) (any, bool) {
	m.enter()
	defer m.leave()
	if e := m.find(k); e != nil {
		old := e.v
		e.v = v
		return old, true
	}
	m.put(k, v)
	return nil, false
}

//go:norace
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.enter()
	if e := m.find(k); e != nil {
		return e.v, true
	}
	m.put(k, v)
	m.leave()
	return v, false
}

//go:norace
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.enter()
	defer m.leave()
	if e := m.find(k); e != nil {
		e.live = false
		return e.v, true
	}
	return nil, false
}

//go:norace
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

//go:norace
func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.enter()
	defer m.leave()
	if e := m.find(k); e != nil && e.v == old {
		e.v = new
		return true
	}
	return false
}

//go:norace
func (m *Map) CompareAndDelete(k, old any) bool {
	m.enter()
	defer m.leave()
	if e := m.find(k); e != nil && e.v == old {
		e.live = false
		return true
	}
	return false
}

//go:norace
func (m *Map) Clear() {
	m.enter()
	defer m.leave()
	m.ents = nil
}

//go:norace
func (m *Map) Range(f func(k, v any) bool) {
	m.enter()
	ents := m.ents
	for _, e := range ents {
		sched.Sync()
		if e.live && !f(e.k, e.v) {
			return
		}
	}
}
