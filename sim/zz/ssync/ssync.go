// Package ssync replaces sync. Blocking and wake-up order are decided by the
// simulator.
package ssync

import (
	"zzsim.local/rt"
)

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	locked bool
	vc     rt.VC
}

func point() (*rt.Sim, bool) {
	s := rt.Active()
	if s == nil {
		return nil, false
	}
	if rt.Dead() {
		return s, false
	}
	rt.Y(-1)
	return s, true
}

func (m *Mutex) Lock() {
	s, ok := point()
	if !ok {
		m.locked = true
		return
	}
	for m.locked {
		s.Block("a mutex", func() bool { return !m.locked })
	}
	m.locked = true
	m.vc.Acquire()
}

func (m *Mutex) TryLock() bool {
	point()
	if m.locked {
		return false
	}
	m.locked = true
	m.vc.Acquire()
	return true
}

func (m *Mutex) Unlock() {
	if s := rt.Active(); s != nil && !rt.Dead() {
		if !m.locked {
			s.Fail("unlock", "unlock of unlocked mutex")
		}
		m.vc.Release()
	}
	m.locked = false
	point()
}

type RWMutex struct {
	writer  bool
	readers int
	waiting int
	vc      rt.VC
	rvc     rt.VC
}

func (m *RWMutex) Lock() {
	s, ok := point()
	if !ok {
		m.writer = true
		return
	}
	if m.writer || m.readers > 0 {
		m.waiting++ // keeps new readers out
		done := false
		defer func() {
			if !done {
				m.waiting--
			}
		}()
		for m.writer || m.readers > 0 {
			s.Block("a write lock", func() bool { return !m.writer && m.readers == 0 })
		}
		done = true
		m.waiting--
	}
	m.writer = true
	m.vc.Acquire()
	m.rvc.Acquire()
}

func (m *RWMutex) TryLock() bool {
	point()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	m.vc.Acquire()
	m.rvc.Acquire()
	return true
}

func (m *RWMutex) Unlock() {
	if s := rt.Active(); s != nil && !rt.Dead() {
		if !m.writer {
			s.Fail("unlock", "unlock of unlocked RWMutex")
		}
		m.vc.Release()
	}
	m.writer = false
	point()
}

func (m *RWMutex) RLock() {
	s, ok := point()
	if !ok {
		m.readers++
		return
	}
	for m.writer || m.waiting > 0 {
		s.Block("a read lock", func() bool { return !m.writer && m.waiting == 0 })
	}
	m.readers++
	m.vc.Acquire()
}

func (m *RWMutex) TryRLock() bool {
	point()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	m.vc.Acquire()
	return true
}

func (m *RWMutex) RUnlock() {
	if s := rt.Active(); s != nil && !rt.Dead() {
		if m.readers == 0 {
			s.Fail("unlock", "read unlock of unlocked RWMutex")
		}
		m.rvc.Release()
	}
	if m.readers > 0 {
		m.readers--
	}
	point()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct {
	n  int
	vc rt.VC
}

func (w *WaitGroup) Add(d int) {
	point()
	w.vc.Release()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	s, ok := point()
	if !ok {
		return
	}
	s.Block("a wait group", func() bool { return w.n == 0 })
	w.vc.Acquire()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	done    bool
	running bool
	vc      rt.VC
}

func (o *Once) Do(f func()) {
	s, ok := point()
	if ok {
		for o.running {
			s.Block("a once", func() bool { return !o.running })
		}
	}
	if o.done {
		o.vc.Acquire()
		return
	}
	o.running = true
	defer func() {
		o.running = false
		o.done = true
		o.vc.Release()
	}()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

type Cond struct {
	L     Locker
	queue []*bool
	vc    rt.VC
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	woken := new(bool)
	c.queue = append(c.queue, woken)
	c.L.Unlock()
	if s, ok := point(); ok {
		s.Block("a condition", func() bool { return *woken })
		c.vc.Acquire()
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	point()
	c.vc.Release()
	if len(c.queue) > 0 {
		*c.queue[0] = true
		c.queue = c.queue[1:]
	}
}

func (c *Cond) Broadcast() {
	point()
	c.vc.Release()
	for _, w := range c.queue {
		*w = true
	}
	c.queue = nil
}

// Pool hands out any stored item, or a new one
type Pool struct {
	New   func() any
	items []any
	vc    rt.VC
}

func (p *Pool) Get() any {
	point()
	p.vc.Acquire()
	if n := len(p.items); n > 0 {
		i := rt.Perm(n)[0]
		v := p.items[i]
		p.items = append(p.items[:i:i], p.items[i+1:]...)
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	point()
	p.vc.Release()
	p.items = append(p.items, v)
}

// Map keeps its keys in insertion order, Range visits them in an order chosen
// by the simulator
type Map struct {
	m    map[any]any
	keys []any
	vc   rt.VC
}

func (m *Map) begin() {
	point()
	m.vc.Acquire()
	m.vc.Release()
}

func (m *Map) Load(key any) (value any, ok bool) {
	m.begin()
	value, ok = m.m[key]
	return
}

func (m *Map) store(key, value any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[key]; !ok {
		m.keys = append(m.keys, key)
	}
	m.m[key] = value
}

func (m *Map) remove(key any) {
	if _, ok := m.m[key]; !ok {
		return
	}
	delete(m.m, key)
	for i, k := range m.keys {
		if k == key {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) Store(key, value any) {
	m.begin()
	m.store(key, value)
}

func (m *Map) Clear() {
	m.begin()
	m.m = nil
	m.keys = nil
}

func (m *Map) LoadOrStore(key, value any) (actual any, loaded bool) {
	m.begin()
	if v, ok := m.m[key]; ok {
		return v, true
	}
	m.store(key, value)
	return value, false
}

func (m *Map) LoadAndDelete(key any) (value any, loaded bool) {
	m.begin()
	value, loaded = m.m[key]
	m.remove(key)
	return
}

func (m *Map) Delete(key any) {
	m.begin()
	m.remove(key)
}

func (m *Map) Swap(key, value any) (previous any, loaded bool) {
	m.begin()
	previous, loaded = m.m[key]
	m.store(key, value)
	return
}

func (m *Map) CompareAndSwap(key, old, new any) bool {
	m.begin()
	if v, ok := m.m[key]; !ok || v != old {
		return false
	}
	m.store(key, new)
	return true
}

func (m *Map) CompareAndDelete(key, old any) bool {
	m.begin()
	if v, ok := m.m[key]; !ok || v != old {
		return false
	}
	m.remove(key)
	return true
}

// Range is no snapshot: keys removed in the meantime are skipped, and keys
// added in the meantime may be visited.
func (m *Map) Range(f func(key, value any) bool) {
	m.begin()
	keys := append([]any{}, m.keys...)
	seen := map[any]bool{}
	visit := func(k any) bool {
		seen[k] = true
		m.begin()
		if v, ok := m.m[k]; ok {
			return f(k, v)
		}
		return true
	}
	for _, i := range rt.Perm(len(keys)) {
		if !visit(keys[i]) {
			return
		}
	}
	added := []any{}
	for _, k := range m.keys {
		if !seen[k] {
			added = append(added, k)
		}
	}
	if len(added) > 0 && rt.Perm(2)[0] == 1 {
		for _, k := range added {
			if !visit(k) {
				return
			}
		}
	}
}
