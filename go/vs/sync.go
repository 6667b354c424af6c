package vs

import (
	"sync"
)

type Locker = sync.Locker

type Mutex struct {
	locked bool
	vc     VC
}

func (m *Mutex) Lock() {
	if S == nil {
		m.locked = true
		return
	}
	if dying() {
		return
	}
	S.point("Lock", func() bool { return !m.locked })
	m.locked = true
	acq(&m.vc)
}

func (m *Mutex) TryLock() bool {
	if dying() {
		return true
	}
	S.point("TryLock", nil)
	if m.locked {
		return false
	}
	m.locked = true
	acq(&m.vc)
	return true
}

func (m *Mutex) Unlock() {
	if dying() {
		m.locked = false
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	rel(&m.vc)
	m.locked = false
}

type RWMutex struct {
	wheld   bool // a writer holds or waits for the lock
	readers int
	wvc     VC // released by writers
	rvc     VC // released by readers
}

func (m *RWMutex) Lock() {
	if dying() {
		return
	}
	S.point("Lock", func() bool { return !m.wheld })
	m.wheld = true
	if m.readers > 0 {
		S.point("Lock", func() bool { return m.readers == 0 })
	}
	acq(&m.wvc)
	acq(&m.rvc)
}

func (m *RWMutex) TryLock() bool {
	if dying() {
		return true
	}
	S.point("TryLock", nil)
	if m.wheld || m.readers > 0 {
		return false
	}
	m.wheld = true
	acq(&m.wvc)
	acq(&m.rvc)
	return true
}

func (m *RWMutex) Unlock() {
	if dying() {
		return
	}
	if !m.wheld || m.readers > 0 {
		panic("sync: Unlock of unlocked RWMutex")
	}
	rel(&m.wvc)
	m.wheld = false
}

func (m *RWMutex) RLock() {
	if dying() {
		return
	}
	S.point("RLock", func() bool { return !m.wheld })
	m.readers++
	acq(&m.wvc)
}

func (m *RWMutex) TryRLock() bool {
	if dying() {
		return true
	}
	S.point("TryRLock", nil)
	if m.wheld {
		return false
	}
	m.readers++
	acq(&m.wvc)
	return true
}

func (m *RWMutex) RUnlock() {
	if dying() {
		return
	}
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	rel(&m.rvc)
	m.readers--
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Map has the semantics of sync.Map: each operation atomic, Range not a snapshot.
type Map struct {
	m    map[any]*mapEnt
	keys []any
}

type mapEnt struct {
	v  any
	ok bool
	vc VC
}

func (m *Map) ent(k any) *mapEnt {
	if m.m == nil {
		m.m = map[any]*mapEnt{}
	}
	e := m.m[k]
	if e == nil {
		e = &mapEnt{}
		m.m[k] = e
		m.keys = append(m.keys, k)
	}
	return e
}

func mp(what string) {
	if S != nil && !S.killing {
		S.point(what, nil)
	}
}

func (m *Map) Load(k any) (any, bool) {
	_ = m.keys // nil receiver panics here as in sync.Map
	mp("Map.Load")
	e := m.ent(k)
	acq(&e.vc)
	return e.v, e.ok
}

func (m *Map) Store(k, v any) {
	_ = m.keys
	mp("Map.Store")
	e := m.ent(k)
	acq(&e.vc)
	e.v, e.ok = v, true
	rel(&e.vc)
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	_ = m.keys
	mp("Map.LoadOrStore")
	e := m.ent(k)
	acq(&e.vc)
	if e.ok {
		return e.v, true
	}
	e.v, e.ok = v, true
	rel(&e.vc)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	_ = m.keys
	mp("Map.LoadAndDelete")
	e := m.ent(k)
	acq(&e.vc)
	v, ok := e.v, e.ok
	e.v, e.ok = nil, false
	rel(&e.vc)
	return v, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v any) (any, bool) {
	_ = m.keys
	mp("Map.Swap")
	e := m.ent(k)
	acq(&e.vc)
	pv, pok := e.v, e.ok
	e.v, e.ok = v, true
	rel(&e.vc)
	return pv, pok
}

func (m *Map) CompareAndSwap(k, old, new any) bool {
	_ = m.keys
	mp("Map.CompareAndSwap")
	e := m.ent(k)
	acq(&e.vc)
	if !e.ok || e.v != old {
		return false
	}
	e.v = new
	rel(&e.vc)
	return true
}

func (m *Map) CompareAndDelete(k, old any) bool {
	_ = m.keys
	mp("Map.CompareAndDelete")
	e := m.ent(k)
	acq(&e.vc)
	if !e.ok || e.v != old {
		return false
	}
	e.v, e.ok = nil, false
	rel(&e.vc)
	return true
}

func (m *Map) Range(f func(k, v any) bool) {
	ks := append([]any(nil), m.keys...)
	for _, k := range ks {
		mp("Map.Range")
		e := m.ent(k)
		if !e.ok {
			continue
		}
		acq(&e.vc)
		if !f(k, e.v) {
			return
		}
	}
}

func (m *Map) Clear() {
	_ = m.keys
	mp("Map.Clear")
	for _, k := range m.keys {
		e := m.ent(k)
		acq(&e.vc)
		e.v, e.ok = nil, false
		rel(&e.vc)
	}
}

// Entries is for the state dumper.
func (m *Map) Entries() (ks, vs []any) {
	for _, k := range m.keys {
		if e := m.m[k]; e.ok {
			ks = append(ks, k)
			vs = append(vs, e.v)
		}
	}
	return
}

type Once struct {
	done, running bool
	vc            VC
}

func (o *Once) Do(f func()) {
	if dying() {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	S.point("Once", func() bool { return !o.running })
	if o.done {
		acq(&o.vc)
		return
	}
	o.running = true
	defer func() { o.running = false; o.done = true; rel(&o.vc) }()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type WaitGroup struct {
	n  int
	vc VC
}

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() {
	rel(&w.vc)
	w.Add(-1)
}
func (w *WaitGroup) Wait() {
	if dying() {
		return
	}
	S.point("WaitGroup.Wait", func() bool { return w.n == 0 })
	acq(&w.vc)
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}

type Cond struct {
	L    Locker
	seq  int
	woke map[int]bool
	wait []int
	vc   VC
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if dying() {
		return
	}
	c.seq++
	id := c.seq
	if c.woke == nil {
		c.woke = map[int]bool{}
	}
	c.wait = append(c.wait, id)
	c.L.Unlock()
	S.point("Cond.Wait", func() bool { return c.woke[id] })
	acq(&c.vc)
	c.L.Lock()
}
func (c *Cond) Signal() {
	if dying() {
		return
	}
	rel(&c.vc)
	if len(c.wait) > 0 {
		if c.woke == nil {
			c.woke = map[int]bool{}
		}
		c.woke[c.wait[0]] = true
		c.wait = c.wait[1:]
	}
}
func (c *Cond) Broadcast() {
	if dying() {
		return
	}
	rel(&c.vc)
	for _, id := range c.wait {
		c.woke[id] = true
	}
	c.wait = nil
}

// Pool hands back the most recently returned object: the adversarial choice for reuse bugs.
type Pool struct {
	New   func() any
	items []any
	vc    VC
}

func (p *Pool) Get() any {
	mp("Pool.Get")
	acq(&p.vc)
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.items = append(p.items, x)
	rel(&p.vc)
}
