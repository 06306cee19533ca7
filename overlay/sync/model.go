package sync

// Model of package sync on top of engine primitives.

func symLock(*bool)
func symUnlock(*bool)
func symTryLock(*bool) bool
func symRLock(*bool, *int)
func symRUnlock(*bool, *int)
func symWLock(*bool, *int)
func symWaitZero(*int)
func symWaitTrue(*bool)
func symRelease(*int)
func symAcquire(*int)

type Locker interface {
	Lock()
	Unlock()
}

type noCopy struct{}

func (*noCopy) Lock()   {}
func (*noCopy) Unlock() {}

type Mutex struct{ locked bool }

func (m *Mutex) Lock()         { symLock(&m.locked) }
func (m *Mutex) Unlock()       { symUnlock(&m.locked) }
func (m *Mutex) TryLock() bool { return symTryLock(&m.locked) }

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock()    { symWLock(&m.w, &m.r) }
func (m *RWMutex) Unlock()  { symUnlock(&m.w) }
func (m *RWMutex) RLock()   { symRLock(&m.w, &m.r) }
func (m *RWMutex) RUnlock() { symRUnlock(&m.w, &m.r) }
func (m *RWMutex) TryLock() bool {
	if m.r > 0 {
		return false
	}
	return symTryLock(&m.w)
}
func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	symRLock(&m.w, &m.r)
	return true
}
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct{ n int }

func (wg *WaitGroup) Add(d int) {
	symRelease(&wg.n)
	wg.n += d
	if wg.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (wg *WaitGroup) Done() { wg.Add(-1) }
func (wg *WaitGroup) Wait() { symWaitZero(&wg.n) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T { o.Do(func() { r = f() }); return r }
}
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var r1 T1
	var r2 T2
	return func() (T1, T2) { o.Do(func() { r1, r2 = f() }); return r1, r2 }
}

// Pool hands back the most recently returned item: the most demanding legal behaviour for
// code that must not depend on the contents of recycled items.
type Pool struct {
	noCopy noCopy
	New    func() any
	items  []any
	sync   int
}

func (p *Pool) Get() any {
	symAcquire(&p.sync)
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	symRelease(&p.sync)
	p.items = append(p.items, x)
}

type Map struct {
	m Mutex
	d map[any]any
}

func (m *Map) Load(k any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok := m.d[k]
	return v, ok
}
func (m *Map) Store(k, v any) { m.Swap(k, v) }
func (m *Map) Clear()         { m.m.Lock(); m.d = nil; m.m.Unlock() }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if x, ok := m.d[k]; ok {
		return x, true
	}
	if m.d == nil {
		m.d = map[any]any{}
	}
	m.d[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	x, ok := m.d[k]
	delete(m.d, k)
	return x, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	x, ok := m.d[k]
	if m.d == nil {
		m.d = map[any]any{}
	}
	m.d[k] = v
	return x, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.m.Lock()
	defer m.m.Unlock()
	x, ok := m.d[k]
	if !ok || x != o {
		return false
	}
	m.d[k] = n
	return true
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.m.Lock()
	defer m.m.Unlock()
	x, ok := m.d[k]
	if !ok || x != o {
		return false
	}
	delete(m.d, k)
	return true
}
func (m *Map) Range(f func(k, v any) bool) {
	for k, v := range m.d {
		if !f(k, v) {
			return
		}
	}
}

type Cond struct {
	L Locker
	q []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	b := new(bool)
	c.q = append(c.q, b)
	c.L.Unlock()
	symWaitTrue(b)
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}
func (c *Cond) Broadcast() {
	for _, b := range c.q {
		*b = true
	}
	c.q = nil
}
