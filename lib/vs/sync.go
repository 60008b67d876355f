package vs

import (
	"sync"
	"sync/atomic"
)

// P is a scheduling point before a visible operation.
func P() { point() }

// ---- Mutex ----

type Mutex struct {
	held bool
	ep   int64
	mu   sync.Mutex
}

//go:norace
func (m *Mutex) fresh() {
	if m.ep != ex.epoch {
		m.ep = ex.epoch
		if m.held {
			m.held = false
			m.mu = sync.Mutex{}
		}
	}
}

//go:norace
func (m *Mutex) Ready(*thread) bool { return !m.held }

//go:norace
func (m *Mutex) Lock() {
	switch Mode() {
	case 0:
		m.mu.Lock()
		m.held, m.ep = true, ex.epoch
		return
	case 2:
		return
	}
	m.fresh()
	point()
	if m.held {
		block(m, "mutex")
	}
	m.held = true
	m.mu.Lock()
}

//go:norace
func (m *Mutex) TryLock() bool {
	switch Mode() {
	case 0:
		if m.mu.TryLock() {
			m.held, m.ep = true, ex.epoch
			return true
		}
		return false
	case 2:
		return true
	}
	m.fresh()
	point()
	if m.held {
		return false
	}
	m.held = true
	m.mu.Lock()
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if Mode() == 2 {
		if m.held && m.ep == ex.epoch {
			m.held = false
			m.mu.Unlock()
		}
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.mu.Unlock()
	m.held = false
}

// ---- RWMutex ----

type RWMutex struct {
	w         bool // write-held
	announced bool // a writer has announced itself and waits for readers
	writers   int  // writers queued (including announced/holding)
	readers   int
	ep        int64
	mu        sync.RWMutex
}

//go:norace
func (m *RWMutex) fresh() {
	if m.ep != ex.epoch {
		if m.w || m.announced || m.writers != 0 || m.readers != 0 {
			*m = RWMutex{}
		}
		m.ep = ex.epoch
	}
}

type rwReader struct{ m *RWMutex }
type rwWriterQ struct{ m *RWMutex }
type rwWriter struct{ m *RWMutex }

// a reader waits until it is granted by the finishing writer
//
//go:norace
func (r rwReader) Ready(t *thread) bool { return t.granted }

// a queued writer waits for the internal writer mutex
//
//go:norace
func (r rwWriterQ) Ready(t *thread) bool { return !r.m.announced && !r.m.w }

//go:norace
func (r rwWriter) Ready(t *thread) bool { return r.m.readers == 0 }

//go:norace
func (m *RWMutex) RLock() {
	switch Mode() {
	case 0:
		m.mu.RLock()
		m.readers++
		m.ep = ex.epoch
		return
	case 2:
		return
	}
	m.fresh()
	point()
	if m.w || m.announced {
		t := ex.cur
		t.granted = false
		block(rwReader{m}, "rlock")
		t.granted = false
	} else {
		m.readers++
	}
	m.mu.RLock()
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	switch Mode() {
	case 0:
		if m.mu.TryRLock() {
			m.readers++
			return true
		}
		return false
	case 2:
		return true
	}
	m.fresh()
	point()
	if m.w || m.announced {
		return false
	}
	m.readers++
	m.mu.RLock()
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if Mode() == 2 {
		if m.readers > 0 && m.ep == ex.epoch {
			m.readers--
		}
		return
	}
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.mu.RUnlock()
	m.readers--
}

//go:norace
func (m *RWMutex) Lock() {
	switch Mode() {
	case 0:
		m.mu.Lock()
		m.w, m.ep = true, ex.epoch
		return
	case 2:
		return
	}
	m.fresh()
	point()
	if m.w || m.announced {
		block(rwWriterQ{m}, "rwmutex write lock")
	}
	m.announced = true
	if m.readers > 0 {
		block(rwWriter{m}, "rwmutex write lock (readers)")
	}
	m.announced = false
	m.w = true
	m.mu.Lock()
}

//go:norace
func (m *RWMutex) TryLock() bool {
	switch Mode() {
	case 0:
		if m.mu.TryLock() {
			m.w = true
			return true
		}
		return false
	case 2:
		return true
	}
	m.fresh()
	point()
	if m.w || m.announced || m.readers > 0 {
		return false
	}
	m.w = true
	m.mu.Lock()
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if Mode() == 2 {
		if m.w && m.ep == ex.epoch {
			m.w = false
			m.mu.Unlock()
		}
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.mu.Unlock()
	m.w = false
	if ex.active {
		for i := 0; i < ex.nthreads; i++ {
			t := ex.threads[i]
			if r, ok := t.w.(rwReader); ok && r.m == m && !t.granted && !t.done {
				t.granted = true
				m.readers++
			}
		}
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// ---- WaitGroup ----

type WaitGroup struct {
	n  int
	ep int64
	wg sync.WaitGroup
}

//go:norace
func (w *WaitGroup) Ready(*thread) bool { return w.n <= 0 }

//go:norace
func (w *WaitGroup) Add(d int) {
	if Mode() == 2 {
		return
	}
	point()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	w.wg.Add(d)
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	switch Mode() {
	case 0:
		w.wg.Wait()
		return
	case 2:
		return
	}
	point()
	if w.n > 0 {
		block(w, "waitgroup")
	}
	w.wg.Wait()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// ---- Once ----

type Once struct {
	m    Mutex
	done atomic.Bool
}

func (o *Once) Do(f func()) {
	if o.done.Load() {
		P()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

// ---- Cond ----

type Cond struct {
	L sync.Locker
	q []*condW
	m sync.Mutex
}

type condW struct{ sig bool }

//go:norace
func (c *condW) Ready(*thread) bool { return c.sig }

//go:norace
func (c *condW) signal() { c.sig = true }

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if Mode() != 1 {
		return
	}
	w := &condW{}
	c.m.Lock()
	c.q = append(c.q, w)
	c.m.Unlock()
	c.L.Unlock()
	block(w, "cond")
	c.L.Lock()
}

func (c *Cond) Signal() {
	if Mode() != 1 {
		return
	}
	P()
	c.m.Lock()
	if len(c.q) > 0 {
		c.q[0].signal()
		c.q = c.q[1:]
	}
	c.m.Unlock()
}

func (c *Cond) Broadcast() {
	if Mode() != 1 {
		return
	}
	P()
	c.m.Lock()
	for _, w := range c.q {
		w.signal()
	}
	c.q = nil
	c.m.Unlock()
}

// ---- Pool ----

// Pool keeps everything it is given (LIFO). PoolDrop makes Get choose, as an
// environment deviation, to behave as if the collector had emptied the pool.
type Pool struct {
	New   func() any
	mu    sync.Mutex
	ep    int64
	items []any
}

var poolDrop bool

func SetPoolDrop(b bool) { poolDrop = b }

func (p *Pool) sync() {
	if e := epoch(); p.ep != e {
		p.ep = e
		p.items = nil
	}
}

func (p *Pool) Get() any {
	P()
	p.mu.Lock()
	p.sync()
	var x any
	if n := len(p.items); n > 0 && !(poolDrop && ChooseDev(2) == 1) {
		x = p.items[n-1]
		p.items = p.items[:n-1]
	}
	p.mu.Unlock()
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	P()
	p.mu.Lock()
	p.sync()
	p.items = append(p.items, x)
	p.mu.Unlock()
}

// ---- Map ----

// Map has the semantics of sync.Map with a deterministic iteration order
// (insertion order, or its reverse).
type Map struct {
	mu   sync.Mutex
	idx  map[any]*mapEnt
	keys []any
}

type mapEnt struct{ v any }

func (m *Map) Load(key any) (value any, ok bool) {
	P()
	m.mu.Lock()
	defer m.mu.Unlock()
	if e := m.idx[key]; e != nil {
		return e.v, true
	}
	return nil, false
}

func (m *Map) put(key, v any) {
	if m.idx == nil {
		m.idx = map[any]*mapEnt{}
	}
	if e := m.idx[key]; e != nil {
		e.v = v
		return
	}
	m.idx[key] = &mapEnt{v}
	m.keys = append(m.keys, key)
}

func (m *Map) del(key any) {
	delete(m.idx, key)
	for i, k := range m.keys {
		if k == key {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			return
		}
	}
}

func (m *Map) Store(key, value any) { m.Swap(key, value) }

func (m *Map) LoadOrStore(key, value any) (actual any, loaded bool) {
	P()
	m.mu.Lock()
	defer m.mu.Unlock()
	if e := m.idx[key]; e != nil {
		return e.v, true
	}
	m.put(key, value)
	return value, false
}

func (m *Map) LoadAndDelete(key any) (value any, loaded bool) {
	P()
	m.mu.Lock()
	defer m.mu.Unlock()
	if e := m.idx[key]; e != nil {
		m.del(key)
		return e.v, true
	}
	return nil, false
}

func (m *Map) Delete(key any) { m.LoadAndDelete(key) }

func (m *Map) Swap(key, value any) (previous any, loaded bool) {
	P()
	m.mu.Lock()
	defer m.mu.Unlock()
	if e := m.idx[key]; e != nil {
		p := e.v
		e.v = value
		return p, true
	}
	m.put(key, value)
	return nil, false
}

func (m *Map) CompareAndSwap(key, old, new any) bool {
	P()
	m.mu.Lock()
	defer m.mu.Unlock()
	if e := m.idx[key]; e != nil && e.v == old {
		e.v = new
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(key, old any) bool {
	P()
	m.mu.Lock()
	defer m.mu.Unlock()
	if e := m.idx[key]; e != nil && e.v == old {
		m.del(key)
		return true
	}
	return false
}

func (m *Map) Clear() {
	P()
	m.mu.Lock()
	m.idx, m.keys = nil, nil
	m.mu.Unlock()
}

func (m *Map) Range(f func(key, value any) bool) {
	P()
	m.mu.Lock()
	keys := append([]any(nil), m.keys...)
	m.mu.Unlock()
	if getMapOrder() == 1 {
		for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	for i, k := range keys {
		if i > 0 {
			P()
		}
		m.mu.Lock()
		e := m.idx[k]
		var v any
		if e != nil {
			v = e.v
		}
		m.mu.Unlock()
		if e == nil {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}
