// Package simsync stands in for sync inside the instrumented library: every
// wait is a decision of the simulated scheduler, pools are as
// eager to recycle as the real one may be and as forgetful.
package simsync

import (
	"verif.local/sim/simrand"
	"verif.local/sim/simrt"
)

type Locker interface {
	Lock()
	Unlock()
}

type waiters struct{ ids []simrt.Client }

func (w *waiters) wait(why string) {
	w.ids = append(w.ids, simrt.Me())
	simrt.Block(why)
}

func (w *waiters) wake() {
	for _, id := range w.ids {
		simrt.Wake(id)
	}
	w.ids = w.ids[:0]
}

type Mutex struct {
	held bool
	w    waiters
}

func (m *Mutex) Lock() {
	simrt.Y(0)
	for m.held {
		m.w.wait("a mutex")
	}
	m.held = true
}

func (m *Mutex) TryLock() bool {
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	m.w.wake()
}

type RWMutex struct {
	w       bool
	r       int
	waiting waiters
}

func (m *RWMutex) Lock() {
	simrt.Y(0)
	for m.w || m.r > 0 {
		m.waiting.wait("a write lock")
	}
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.waiting.wake()
}
func (m *RWMutex) RLock() {
	simrt.Y(0)
	for m.w {
		m.waiting.wait("a read lock")
	}
	m.r++
}
func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.r++
	return true
}
func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	m.waiting.wake()
}

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()            { l.m.RLock() }
func (l rlocker) Unlock()          { l.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		simrt.Hold()
		defer func() { simrt.Release(); o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Pool hands out the most recently returned item, to whoever asks.
type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	simrt.Y(0)
	// mostly the last one; a real pool may give any, and a garbage collection
	// empties it
	if n := len(p.items); n > 0 {
		k := n - 1
		switch simrand.Intn(12) {
		case 0, 1:
			k = simrand.Intn(n)
		case 2:
			p.items, k = nil, -1
		}
		if k >= 0 {
			x := p.items[k]
			p.items = append(p.items[:k], p.items[k+1:]...)
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	if len(p.items) >= 64 {
		// nobody keeps this many
		p.items = append([]interface{}{}, p.items[32:]...)
	}
	p.items = append(p.items, x)
	simrt.Y(0)
}

type WaitGroup struct {
	n int
	w waiters
}

func (g *WaitGroup) Add(d int) {
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		g.w.wake()
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	for g.n > 0 {
		g.w.wait("a wait group")
	}
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	simrt.Go(func() { defer g.Done(); f() })
}

type Cond struct {
	L Locker
	w []simrt.Client
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	c.w = append(c.w, simrt.Me())
	c.L.Unlock()
	simrt.Block("a condition")
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.w) > 0 {
		simrt.Wake(c.w[0])
		c.w = c.w[1:]
	}
}
func (c *Cond) Broadcast() {
	for _, id := range c.w {
		simrt.Wake(id)
	}
	c.w = nil
}

// Map keeps its entries in insertion order.
type Map struct {
	m    map[interface{}]int
	keys []interface{}
	vals []interface{}
	live []bool

	ranging int
}

// tidy forgets the places of deleted entries; not while somebody ranges.
func (m *Map) tidy() {
	if m.ranging > 0 || len(m.keys) < 2*len(m.m)+64 {
		return
	}
	n := 0
	for i := range m.keys {
		if m.live[i] {
			m.keys[n], m.vals[n], m.live[n] = m.keys[i], m.vals[i], true
			m.m[m.keys[n]] = n
			n++
		}
	}
	for i := n; i < len(m.keys); i++ {
		m.keys[i], m.vals[i] = nil, nil
	}
	m.keys, m.vals, m.live = m.keys[:n], m.vals[:n], m.live[:n]
}

func (m *Map) find(k interface{}) int {
	if i, ok := m.m[k]; ok && m.live[i] {
		return i
	}
	return -1
}
func (m *Map) Load(k interface{}) (interface{}, bool) {
	simrt.Y(0)
	if i := m.find(k); i >= 0 {
		return m.vals[i], true
	}
	return nil, false
}
func (m *Map) Store(k, v interface{}) { m.Swap(k, v) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	simrt.Y(0)
	if i := m.find(k); i >= 0 {
		old := m.vals[i]
		m.vals[i] = v
		return old, true
	}
	if m.m == nil {
		m.m = map[interface{}]int{}
	}
	m.tidy()
	m.m[k] = len(m.keys)
	m.keys, m.vals, m.live = append(m.keys, k), append(m.vals, v), append(m.live, true)
	return nil, false
}
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	if i := m.find(k); i >= 0 {
		return m.vals[i], true
	}
	m.Swap(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	if i := m.find(k); i >= 0 {
		v := m.vals[i]
		m.live[i], m.vals[i] = false, nil
		delete(m.m, k)
		return v, true
	}
	return nil, false
}
func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	if i := m.find(k); i >= 0 && m.vals[i] == o {
		m.vals[i] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	if i := m.find(k); i >= 0 && m.vals[i] == o {
		m.Delete(k)
		return true
	}
	return false
}
func (m *Map) Clear() { m.m, m.keys, m.vals, m.live = nil, nil, nil, nil }
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.ranging++
	defer func() { m.ranging-- }()
	for i := 0; i < len(m.keys); i++ {
		if m.live[i] && !f(m.keys[i], m.vals[i]) {
			return
		}
	}
}
