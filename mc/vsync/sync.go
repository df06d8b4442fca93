//go:build go1.22

package vsync

import (
	"sync"
	"unsafe"
)

type Locker = sync.Locker

// Stuck is the panic value of a call that could never return because it runs
// alone and waits for something that nobody can provide.
type Stuck struct{ What string }

func (e Stuck) Error() string { return "blocks forever: " + e.What }

func need(ok bool, what string) {
	if !ok {
		panic(Stuck{what})
	}
}

// ---- Mutex ----

type Mutex struct {
	locked bool
	hb     int32
}

func (m *Mutex) ready(k int, t *Thread) bool { return k == 1 || !m.locked }

func (m *Mutex) Lock() {
	if s != nil {
		point(m, 0, "Mutex.Lock")
		touchObj(unsafe.Pointer(m), cExcl)
		if s.aborting {
			return
		}
	} else {
		need(!m.locked, "Lock of a held mutex")
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(&m.hb))
}

func (m *Mutex) TryLock() bool {
	if s != nil {
		point(m, 1, "Mutex.TryLock")
		touchObj(unsafe.Pointer(m), cExcl)
		if s.aborting {
			return true
		}
	}
	if m.locked {
		return false
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(&m.hb))
	return true
}

func (m *Mutex) Unlock() {
	if s != nil {
		if s.aborting {
			m.locked = false
			return
		}
		if s.cur.boot != nil || s.cur.toMain {
			point(m, 1, "Mutex.Unlock")
		}
		touch()
		touchObj(unsafe.Pointer(m), cExcl)
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(&m.hb))
	m.locked = false
}

// ---- RWMutex ----

type RWMutex struct {
	announced bool // a writer holds or waits for the lock
	readers   int
	held      bool
	rhb, whb  int32
}

const (
	kRLock = iota
	kAnnounce
	kWLock
	kFree
)

func (m *RWMutex) ready(k int, t *Thread) bool {
	switch k {
	case kRLock, kAnnounce:
		return !m.announced
	case kWLock:
		return m.readers == 0
	}
	return true
}

func (m *RWMutex) RLock() {
	if s != nil {
		point(m, kRLock, "RWMutex.RLock")
		touchObj(unsafe.Pointer(m), cRead)
		if s.aborting {
			return
		}
	} else {
		need(!m.announced, "RLock of a lock held for writing")
	}
	m.readers++
	raceAcquire(unsafe.Pointer(&m.rhb))
}

func (m *RWMutex) TryRLock() bool {
	if s != nil {
		point(m, kFree, "RWMutex.TryRLock")
		touchObj(unsafe.Pointer(m), cExcl)
		if s.aborting {
			return true
		}
	}
	if m.announced {
		return false
	}
	m.readers++
	raceAcquire(unsafe.Pointer(&m.rhb))
	return true
}

func (m *RWMutex) RUnlock() {
	if s != nil {
		if s.aborting {
			return
		}
		if s.cur.boot != nil || s.cur.toMain {
			point(m, kFree, "RWMutex.RUnlock")
		}
		touch()
		touchObj(unsafe.Pointer(m), cRead)
	}
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	raceReleaseMerge(unsafe.Pointer(&m.whb))
	m.readers--
}

func (m *RWMutex) Lock() {
	if s != nil {
		point(m, kAnnounce, "RWMutex.Lock")
		touchObj(unsafe.Pointer(m), cExcl)
		if s.aborting {
			return
		}
		m.announced = true
		if m.readers > 0 {
			point(m, kWLock, "RWMutex.Lock (waiting for readers)")
			touchObj(unsafe.Pointer(m), cExcl)
			if s.aborting {
				return
			}
		}
	} else {
		need(!m.announced && m.readers == 0, "Lock of a held read-write lock")
		m.announced = true
	}
	m.held = true
	raceAcquire(unsafe.Pointer(&m.rhb))
	raceAcquire(unsafe.Pointer(&m.whb))
}

func (m *RWMutex) TryLock() bool {
	if s != nil {
		point(m, kFree, "RWMutex.TryLock")
		touchObj(unsafe.Pointer(m), cExcl)
		if s.aborting {
			return true
		}
	}
	if m.announced || m.readers > 0 {
		return false
	}
	m.announced, m.held = true, true
	raceAcquire(unsafe.Pointer(&m.rhb))
	raceAcquire(unsafe.Pointer(&m.whb))
	return true
}

func (m *RWMutex) Unlock() {
	if s != nil {
		if s.aborting {
			m.announced, m.held = false, false
			return
		}
		if s.cur.boot != nil || s.cur.toMain {
			point(m, kFree, "RWMutex.Unlock")
		}
		touch()
		touchObj(unsafe.Pointer(m), cExcl)
	}
	if !m.held {
		panic("sync: Unlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.rhb))
	m.announced, m.held = false, false
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// ---- WaitGroup ----

type WaitGroup struct {
	n       int
	waiting int
	first   *Thread
	hb      int32
	sema    int32
}

func (w *WaitGroup) ready(k int, t *Thread) bool { return k == 1 || w.n == 0 }

func (w *WaitGroup) Add(d int) {
	if s != nil {
		if s.aborting {
			return
		}
		t := s.cur
		if w.first == nil {
			w.first = t
		}
		// releasing operations of a running thread need no switch before them
		if t.boot != nil || t.toMain || d > 0 && w.first != t {
			point(w, 1, "WaitGroup.Add")
		}
		touch()
		if d < 0 {
			touchObj(unsafe.Pointer(w), cDone)
		} else {
			touchObj(unsafe.Pointer(w), cExcl)
		}
	}
	if d < 0 {
		raceReleaseMerge(unsafe.Pointer(&w.hb))
	}
	w.n += d
	if d > 0 && w.n == d {
		raceRead(unsafe.Pointer(&w.sema))
	}
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if s != nil {
		touchObj(unsafe.Pointer(w), cExcl)
		if w.n > 0 {
			if w.waiting == 0 && !s.aborting {
				raceWrite(unsafe.Pointer(&w.sema))
			}
			w.waiting++
		}
		point(w, 0, "WaitGroup.Wait")
		touchObj(unsafe.Pointer(w), cExcl)
		if s.aborting {
			return
		}
		if w.waiting > 0 {
			w.waiting--
		}
	} else {
		need(w.n == 0, "WaitGroup.Wait")
	}
	raceAcquire(unsafe.Pointer(&w.hb))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// ---- Once ----

type Once struct {
	running, done bool
	hb            int32
}

func (o *Once) ready(k int, t *Thread) bool { return !o.running }

func (o *Once) Do(f func()) {
	if s != nil {
		point(o, 0, "Once.Do")
		touchObj(unsafe.Pointer(o), cExcl)
		if s.aborting {
			return
		}
	} else {
		need(!o.running, "Once.Do inside itself")
	}
	if o.done {
		raceAcquire(unsafe.Pointer(&o.hb))
		return
	}
	o.running = true
	defer func() {
		touchObj(unsafe.Pointer(o), cExcl)
		raceRelease(unsafe.Pointer(&o.hb))
		o.running, o.done = false, true
	}()
	f()
}

func OnceFunc(f func()) func() {
	o := new(Once)
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	o := new(Once)
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	o := new(Once)
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// ---- Cond ----

type Cond struct {
	L  Locker
	q  []*Thread
	hb int32
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) ready(k int, t *Thread) bool { return k == 1 || t.signal }

func (c *Cond) Wait() {
	if s == nil {
		panic(Stuck{"Cond.Wait"})
	}
	if s.aborting {
		return
	}
	t := s.cur
	if t.boot != nil || t.toMain {
		point(c, 1, "Cond.Wait")
		if s.aborting {
			return
		}
	}
	t.signal = false
	touchObj(unsafe.Pointer(c), cExcl)
	c.q = append(c.q, t)
	c.L.Unlock()
	point(c, 0, "Cond.Wait")
	touchObj(unsafe.Pointer(c), cExcl)
	if s.aborting {
		return
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	if s != nil {
		point(c, 1, "Cond.Signal")
		touchObj(unsafe.Pointer(c), cExcl)
		if s.aborting {
			return
		}
	}
	if len(c.q) > 0 {
		c.q[0].signal = true
		c.q = c.q[1:]
	}
}

func (c *Cond) Broadcast() {
	if s != nil {
		point(c, 1, "Cond.Broadcast")
		touchObj(unsafe.Pointer(c), cExcl)
		if s.aborting {
			return
		}
	}
	for _, t := range c.q {
		t.signal = true
	}
	c.q = nil
}

// ---- Pool ----

type Pool struct {
	New   func() any
	items []any
	hb    int32
}

func (p *Pool) Get() any {
	if s != nil {
		point(alwaysReady, 0, "Pool.Get")
		touchObj(unsafe.Pointer(p), cExcl)
		if s.aborting {
			return nil
		}
	}
	if n := len(p.items); n > 0 {
		raceAcquire(unsafe.Pointer(&p.hb))
		v := p.items[n-1]
		p.items = p.items[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	if s != nil {
		point(alwaysReady, 0, "Pool.Put")
		touchObj(unsafe.Pointer(p), cExcl)
		if s.aborting {
			return
		}
	}
	raceReleaseMerge(unsafe.Pointer(&p.hb))
	p.items = append(p.items, v)
}

// ---- Map ----

type Map struct{ m sync.Map }

func (m *Map) p(w string) {
	if s != nil {
		point(alwaysReady, 0, w)
		touchObj(unsafe.Pointer(m), cExcl)
	}
}

func (m *Map) Load(k any) (any, bool) { m.p("Map.Load"); return m.m.Load(k) }
func (m *Map) Store(k, v any)         { m.p("Map.Store"); m.m.Store(k, v) }
func (m *Map) Clear()                 { m.p("Map.Clear"); m.m.Clear() }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.p("Map.LoadOrStore")
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) { m.p("Map.LoadAndDelete"); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                    { m.p("Map.Delete"); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)       { m.p("Map.Swap"); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.p("Map.CompareAndSwap")
	return m.m.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.p("Map.CompareAndDelete")
	return m.m.CompareAndDelete(k, o)
}
func (m *Map) Range(f func(k, v any) bool) { m.p("Map.Range"); m.m.Range(f) }
