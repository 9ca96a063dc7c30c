// Package simsync replaces package sync inside the code under test. Waiting is
// decided by the simulator's scheduler; the happens-before edges are those of
// the real package, so correctly synchronised code is race-free and nothing
// else is.
package simsync

import (
	"unsafe"

	"github.com/mearaj/bips/zzverif/simrt"
)

type Locker interface {
	Lock()
	Unlock()
}

// Mutex is a simulated mutual exclusion lock.
type Mutex struct {
	held bool
	w    simrt.Waiter
}

func (m *Mutex) Lock() {
	simrt.Y(0)
	for m.held {
		if !m.w.Wait("a mutex") {
			break
		}
	}
	m.held = true
	simrt.RaceAcquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	simrt.Y(0)
	if m.held {
		return false
	}
	m.held = true
	simrt.RaceAcquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	if !m.held {
		if simrt.Killed() {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	simrt.RaceReleaseX(unsafe.Pointer(m))
	m.held = false
	m.w.WakeOne()
	simrt.Y(0)
}

// RWMutex is a simulated reader/writer lock.
type RWMutex struct {
	writer  bool
	readers int
	pending int
	w       simrt.Waiter
	rsync   byte
	wsync   byte
}

func (m *RWMutex) Lock() {
	simrt.Y(0)
	m.pending++
	for m.writer || m.readers > 0 {
		if !m.w.Wait("a write lock") {
			break
		}
	}
	m.pending--
	m.writer = true
	simrt.RaceAcquire(unsafe.Pointer(&m.rsync))
	simrt.RaceAcquire(unsafe.Pointer(&m.wsync))
}

func (m *RWMutex) TryLock() bool {
	simrt.Y(0)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	simrt.RaceAcquire(unsafe.Pointer(&m.rsync))
	simrt.RaceAcquire(unsafe.Pointer(&m.wsync))
	return true
}

func (m *RWMutex) Unlock() {
	if !m.writer {
		if simrt.Killed() {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	simrt.RaceReleaseX(unsafe.Pointer(&m.wsync))
	m.writer = false
	m.w.WakeAll()
	simrt.Y(0)
}

func (m *RWMutex) RLock() {
	simrt.Y(0)
	for m.writer || m.pending > 0 {
		if !m.w.Wait("a read lock") {
			break
		}
	}
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(&m.wsync))
}

func (m *RWMutex) TryRLock() bool {
	simrt.Y(0)
	if m.writer || m.pending > 0 {
		return false
	}
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(&m.wsync))
	return true
}

func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		if simrt.Killed() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&m.rsync))
	m.readers--
	if m.readers == 0 {
		m.w.WakeAll()
	}
	simrt.Y(0)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is a simulated sync.Once.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	simrt.Y(0)
	if o.done {
		simrt.RaceAcquire(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			simrt.RaceReleaseX(unsafe.Pointer(o))
			o.done = true
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var (
		once  Once
		valid bool
		p     any
	)
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var (
		once   Once
		result T
	)
	return func() T {
		once.Do(func() { result = f() })
		return result
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var (
		once Once
		r1   T1
		r2   T2
	)
	return func() (T1, T2) {
		once.Do(func() { r1, r2 = f() })
		return r1, r2
	}
}

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct {
	n int
	w simrt.Waiter
}

func (g *WaitGroup) Add(d int) {
	if d < 0 {
		simrt.RaceRelease(unsafe.Pointer(g))
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		g.w.WakeAll()
	}
	simrt.Y(0)
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	simrt.Y(0)
	for g.n > 0 {
		if !g.w.Wait("a wait group") {
			break
		}
	}
	simrt.RaceAcquire(unsafe.Pointer(g))
}

// Pool hands out the most recently returned object, from whichever task: the
// legal behaviour that exposes a use after Put soonest.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	simrt.Y(0)
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items[n-1] = nil
		p.items = p.items[:n-1]
		simrt.RaceAcquire(unsafe.Pointer(p))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	simrt.RaceRelease(unsafe.Pointer(p))
	if len(p.items) == cap(p.items) {
		n := make([]any, len(p.items), 2*len(p.items)+8)
		for i := range p.items {
			n[i] = p.items[i]
		}
		p.items = n
	}
	p.items = p.items[:len(p.items)+1]
	p.items[len(p.items)-1] = x
	simrt.Y(0)
}

// Cond is a simulated sync.Cond. Who waits is listed before the lock is given
// up, as there, so that no wake-up in between is lost.
type Cond struct {
	L Locker
	q []*condWait
}

type condWait struct {
	woken bool
	w     simrt.Waiter
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	e := &condWait{}
	c.q = append(c.q, e)
	c.L.Unlock()
	for !e.woken {
		if !e.w.Wait("a condition") {
			return
		}
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	if len(c.q) > 0 {
		e := c.q[0]
		c.q = c.q[1:]
		e.woken = true
		e.w.WakeAll()
	}
	simrt.Y(0)
}

func (c *Cond) Broadcast() {
	q := c.q
	c.q = nil
	for _, e := range q {
		e.woken = true
		e.w.WakeAll()
	}
	simrt.Y(0)
}

// Map is a simulated sync.Map: each method is atomic, with a scheduling point
// before it. Values stored happen before values loaded.
type Map struct {
	m    mapImpl
	sync byte
}

type entry struct{ k, v any }

// mapImpl is a plain association list with a hash index avoided on purpose:
// built-in maps report to the race detector even from this package.
type mapImpl struct{ es []entry }

func (m *mapImpl) find(k any) int {
	for i := range m.es {
		if m.es[i].k == k {
			return i
		}
	}
	return -1
}

func (m *mapImpl) set(k, v any) {
	if i := m.find(k); i >= 0 {
		m.es[i].v = v
		return
	}
	if len(m.es) == cap(m.es) {
		n := make([]entry, len(m.es), 2*len(m.es)+8)
		for i := range m.es {
			n[i] = m.es[i]
		}
		m.es = n
	}
	m.es = m.es[:len(m.es)+1]
	m.es[len(m.es)-1] = entry{k, v}
}

func (m *mapImpl) del(i int) {
	n := len(m.es) - 1
	m.es[i] = m.es[n]
	m.es[n] = entry{}
	m.es = m.es[:n]
}

func (m *Map) in() {
	simrt.Y(0)
	simrt.RaceAcquire(unsafe.Pointer(&m.sync))
}
func (m *Map) outp() { simrt.RaceRelease(unsafe.Pointer(&m.sync)) }

func (m *Map) Load(k any) (any, bool) {
	m.in()
	if i := m.m.find(k); i >= 0 {
		return m.m.es[i].v, true
	}
	return nil, false
}
func (m *Map) Store(k, v any) {
	m.in()
	m.m.set(k, v)
	m.outp()
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.in()
	if i := m.m.find(k); i >= 0 {
		return m.m.es[i].v, true
	}
	m.m.set(k, v)
	m.outp()
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.in()
	if i := m.m.find(k); i >= 0 {
		v := m.m.es[i].v
		m.m.del(i)
		m.outp()
		return v, true
	}
	return nil, false
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.in()
	i := m.m.find(k)
	if i >= 0 {
		old := m.m.es[i].v
		m.m.es[i].v = v
		m.outp()
		return old, true
	}
	m.m.set(k, v)
	m.outp()
	return nil, false
}
func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.in()
	if i := m.m.find(k); i >= 0 && m.m.es[i].v == old {
		m.m.es[i].v = new
		m.outp()
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	m.in()
	if i := m.m.find(k); i >= 0 && m.m.es[i].v == old {
		m.m.del(i)
		m.outp()
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.in()
	es := make([]entry, len(m.m.es))
	for i := range es {
		es[i] = m.m.es[i]
	}
	for _, e := range es {
		if !f(e.k, e.v) {
			return
		}
	}
}
func (m *Map) Clear() {
	m.in()
	m.m.es = nil
	m.outp()
}
