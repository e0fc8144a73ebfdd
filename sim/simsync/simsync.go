// Package simsync stands in for package sync in instrumented code: its locks
// are scheduling points of the simulator.
package simsync

import (
	"sync"
	"time"

	"verifsim/simrt"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is a simulated sync.Mutex.
type Mutex struct {
	held  bool
	owner *simrt.Task
	race  uint64
	run   *simrt.Kernel
}

// fresh frees a lock that an earlier run left held.
//
//go:norace
func (m *Mutex) fresh() {
	if k := simrt.Active(); m.run != k && k != nil {
		m.run, m.held, m.owner = k, false, nil
	}
}

// busy: a lock whose holder died with its process is free.
//
//go:norace
func (m *Mutex) busy() bool {
	return m.held && !(m.owner != nil && m.owner.Node != nil && m.owner.Node.Dead)
}

// wait blocks until pred holds.  A goroutine that belongs to no run, such as one
// of a provider made when the program was initialised, polls in real time.
//
//go:norace
func wait(label string, pred func() bool) {
	if k := simrt.Active(); k != nil && simrt.Self() != nil {
		k.WaitUntil(label, pred, time.Time{})
		return
	}
	for !pred() {
		time.Sleep(20 * time.Millisecond)
	}
}

func fatal(s string) { panic("fatal error: sync: " + s) }

//go:norace
func (m *Mutex) Lock() {
	m.fresh()
	k := simrt.Active()
	if k == nil || simrt.Self() == nil {
		wait("lock", func() bool { return !m.busy() })
		m.held, m.owner = true, nil
		return
	}
	k.Yield("lock")
	t := simrt.Self()
	if t.Zombie || t.Exiting() {
		return
	}
	for m.busy() {
		k.WaitUntil("lock", func() bool { return !m.busy() }, time.Time{})
		if t.Exiting() {
			return
		}
	}
	m.held, m.owner = true, t
	simrt.RaceAcquire(&m.race)
}

//go:norace
func (m *Mutex) TryLock() bool {
	m.fresh()
	k, t := simrt.Active(), simrt.Self()
	if k != nil && t != nil {
		k.Yield("lock")
		if t.Zombie || t.Exiting() {
			return true
		}
	}
	if m.busy() {
		return false
	}
	m.held, m.owner = true, t
	if t != nil {
		simrt.RaceAcquire(&m.race)
	}
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if t := simrt.Self(); t != nil && (t.Zombie || t.Exiting()) {
		m.held = false
		return
	}
	if !m.held {
		fatal("unlock of unlocked mutex")
	}
	simrt.RaceRelease(&m.race)
	m.held = false
}

// RWMutex is a simulated sync.RWMutex: a waiting writer holds off new readers.
// Those who hold it or wait for it as parts of a process that died do not count.
type RWMutex struct {
	writer  *simrt.Task
	locked  bool
	readers []*simrt.Task
	waiting []*simrt.Task
	race    uint64
	raceR   uint64
	run     *simrt.Kernel
}

//go:norace
func (m *RWMutex) fresh() {
	if k := simrt.Active(); m.run != k && k != nil {
		m.run, m.writer, m.locked, m.readers, m.waiting = k, nil, false, nil, nil
	}
}

//go:norace
func gone(t *simrt.Task) bool { return t != nil && t.Node != nil && t.Node.Dead }

//go:norace
func sweep(ts []*simrt.Task) []*simrt.Task {
	n := 0
	for _, t := range ts {
		if !gone(t) {
			ts[n] = t
			n++
		}
	}
	return ts[:n]
}

//go:norace
func drop(ts []*simrt.Task, t *simrt.Task) []*simrt.Task {
	at := len(ts) - 1
	for i := range ts {
		if ts[i] == t {
			at = i
		}
	}
	return append(ts[:at], ts[at+1:]...)
}

//go:norace
func (m *RWMutex) written() bool { return m.locked && !gone(m.writer) }

//go:norace
func (m *RWMutex) read() bool {
	m.readers = sweep(m.readers)
	return len(m.readers) > 0
}

//go:norace
func (m *RWMutex) wanted() bool {
	m.waiting = sweep(m.waiting)
	return len(m.waiting) > 0
}

//go:norace
func (m *RWMutex) Lock() {
	m.fresh()
	k := simrt.Active()
	if k == nil || simrt.Self() == nil {
		wait("lock", func() bool { return !m.written() && !m.read() })
		m.locked, m.writer = true, nil
		return
	}
	k.Yield("lock")
	t := simrt.Self()
	if t.Zombie || t.Exiting() {
		return
	}
	if m.written() || m.read() {
		m.waiting = append(m.waiting, t)
		for m.written() || m.read() {
			k.WaitUntil("lock", func() bool { return !m.written() && !m.read() }, time.Time{})
			if t.Exiting() {
				return
			}
		}
		m.waiting = drop(m.waiting, t)
	}
	m.locked, m.writer = true, t
	simrt.RaceAcquire(&m.race)
	simrt.RaceAcquire(&m.raceR)
}

//go:norace
func (m *RWMutex) TryLock() bool {
	m.fresh()
	k, t := simrt.Active(), simrt.Self()
	if k != nil && t != nil {
		k.Yield("lock")
		if t.Zombie || t.Exiting() {
			return true
		}
	}
	if m.written() || m.read() {
		return false
	}
	m.locked, m.writer = true, t
	if t != nil {
		simrt.RaceAcquire(&m.race)
		simrt.RaceAcquire(&m.raceR)
	}
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if t := simrt.Self(); t != nil && (t.Zombie || t.Exiting()) {
		m.locked = false
		return
	}
	if !m.locked {
		fatal("Unlock of unlocked RWMutex")
	}
	simrt.RaceRelease(&m.race)
	m.locked, m.writer = false, nil
}

//go:norace
func (m *RWMutex) RLock() {
	m.fresh()
	k := simrt.Active()
	t := simrt.Self()
	if k == nil || t == nil {
		wait("rlock", func() bool { return !m.written() })
		m.readers = append(m.readers, nil)
		return
	}
	k.Yield("rlock")
	if t.Zombie || t.Exiting() {
		return
	}
	for m.written() || m.wanted() {
		k.WaitUntil("rlock", func() bool { return !m.written() && !m.wanted() }, time.Time{})
		if t.Exiting() {
			return
		}
	}
	m.readers = append(m.readers, t)
	simrt.RaceAcquire(&m.race)
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	m.fresh()
	k, t := simrt.Active(), simrt.Self()
	if k != nil && t != nil {
		k.Yield("rlock")
		if t.Zombie || t.Exiting() {
			return true
		}
	}
	if m.written() || m.wanted() {
		return false
	}
	m.readers = append(m.readers, t)
	if t != nil {
		simrt.RaceAcquire(&m.race)
	}
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	t := simrt.Self()
	if t != nil && (t.Zombie || t.Exiting()) {
		if len(m.readers) > 0 {
			m.readers = drop(m.readers, t)
		}
		return
	}
	if len(m.readers) == 0 {
		fatal("RUnlock of unlocked RWMutex")
	}
	simrt.RaceReleaseMerge(&m.raceR)
	m.readers = drop(m.readers, t)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is a simulated sync.Once.
type Once struct {
	done bool
	m    Mutex
}

//go:norace
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct {
	n    int
	race uint64
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if d < 0 {
		simrt.RaceReleaseMerge(&w.race)
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if t := simrt.Self(); t == nil || !t.Zombie {
		wait("waitgroup", func() bool { return w.n == 0 })
	}
	simrt.RaceAcquire(&w.race)
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go simrt.Guard0(func() {
		defer w.Done()
		f()
	})
}

// Cond is a simulated sync.Cond.
type Cond struct {
	L       Locker
	gen     int
	waiters int
	wake    int
	race    uint64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	g := c.gen
	c.waiters++
	c.L.Unlock()
	wait("cond", func() bool { return c.gen != g || c.wake > 0 })
	if c.gen == g && c.wake > 0 {
		c.wake--
		c.waiters--
	}
	simrt.RaceAcquire(&c.race)
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	simrt.RaceReleaseMerge(&c.race)
	if c.wake < c.waiters {
		c.wake++
	}
}

//go:norace
func (c *Cond) Broadcast() {
	simrt.RaceReleaseMerge(&c.race)
	c.gen++
	c.wake, c.waiters = 0, 0
}

// Pool is a deterministic sync.Pool; what an earlier run left in it is gone.
type Pool struct {
	New   func() any
	items []pooled
	run   *simrt.Kernel
}

type pooled struct {
	x    any
	race *uint64
}

//go:norace
func (p *Pool) Get() any {
	if k := simrt.Active(); p.run != k {
		p.run, p.items = k, nil
	}
	if n := len(p.items); n > 0 {
		i := p.items[n-1]
		p.items[n-1] = pooled{}
		p.items = p.items[:n-1]
		simrt.RaceAcquire(i.race)
		return i.x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x any) {
	if k := simrt.Active(); p.run != k {
		p.run, p.items = k, nil
	}
	if x == nil || len(p.items) >= 64 {
		return
	}
	i := pooled{x, new(uint64)}
	simrt.RaceReleaseMerge(i.race)
	p.items = append(p.items, i)
}
