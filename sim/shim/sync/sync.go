// Package sync stands in for the standard sync package inside the simulator:
// blocking on a lock parks the task in the simulated scheduler.
package sync

import (
	"sync"
	"verif.local/sim/simrt"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
	Pool   = sync.Pool
)

func OnceFunc(f func()) func()                           { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return sync.OnceValue(f) }
func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return sync.OnceValues(f) }

// A lock may outlive the run that a task was killed in (package variables), so
// its state belongs to one run.
type Mutex struct {
	held bool
	gen  uint64
	real sync.Mutex
}

func (m *Mutex) fresh() {
	if g := simrt.Generation(); m.gen != g {
		m.gen, m.held = g, false
	}
}

func (m *Mutex) Lock() {
	t := simrt.Cur()
	if t == nil {
		m.real.Lock()
		return
	}
	m.fresh()
	simrt.LockPoint("lock")
	for m.held {
		simrt.LockWait("mutex", func() bool { return !m.held })
		if simrt.Dying() {
			return
		}
	}
	m.held = true
}

func (m *Mutex) TryLock() bool {
	if simrt.Cur() == nil {
		return m.real.TryLock()
	}
	m.fresh()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if simrt.Cur() == nil {
		m.real.Unlock()
		return
	}
	if !m.held && !simrt.Dying() {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	simrt.LockPoint("unlock")
}

type RWMutex struct {
	w    bool
	r    int
	gen  uint64
	real sync.RWMutex
}

func (m *RWMutex) fresh() {
	if g := simrt.Generation(); m.gen != g {
		m.gen, m.w, m.r = g, false, 0
	}
}

func (m *RWMutex) Lock() {
	if simrt.Cur() == nil {
		m.real.Lock()
		return
	}
	m.fresh()
	simrt.LockPoint("lock")
	for m.w || m.r > 0 {
		simrt.LockWait("rwmutex", func() bool { return !m.w && m.r == 0 })
		if simrt.Dying() {
			return
		}
	}
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	if simrt.Cur() == nil {
		return m.real.TryLock()
	}
	m.fresh()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if simrt.Cur() == nil {
		m.real.Unlock()
		return
	}
	if !m.w && !simrt.Dying() {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	simrt.LockPoint("unlock")
}

func (m *RWMutex) RLock() {
	if simrt.Cur() == nil {
		m.real.RLock()
		return
	}
	m.fresh()
	simrt.LockPoint("rlock")
	for m.w {
		simrt.LockWait("rwmutex-r", func() bool { return !m.w })
		if simrt.Dying() {
			return
		}
	}
	m.r++
}

func (m *RWMutex) TryRLock() bool {
	if simrt.Cur() == nil {
		return m.real.TryRLock()
	}
	m.fresh()
	if m.w {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	if simrt.Cur() == nil {
		m.real.RUnlock()
		return
	}
	if m.r == 0 && !simrt.Dying() {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	if m.r > 0 {
		m.r--
	}
	simrt.LockPoint("runlock")
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	n    int
	real sync.WaitGroup
}

func (w *WaitGroup) Add(d int) {
	if simrt.Cur() == nil {
		w.real.Add(d)
		return
	}
	w.n += d
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if simrt.Cur() == nil {
		w.real.Wait()
		return
	}
	simrt.LockWait("waitgroup", func() bool { return w.n <= 0 })
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() { defer w.Done(); f() }()
}

// Once outlives runs: what is done stays done.
type Once struct {
	done bool
	busy bool
	gen  uint64
	real sync.Once
}

func (o *Once) Do(f func()) {
	if simrt.Cur() == nil {
		if !o.done {
			o.real.Do(func() { f(); o.done = true })
		}
		return
	}
	if o.done {
		return
	}
	if g := simrt.Generation(); o.gen != g {
		o.gen, o.busy = g, false
	}
	for o.busy {
		simrt.LockWait("once", func() bool { return !o.busy })
		if simrt.Dying() {
			return
		}
	}
	if o.done {
		return
	}
	o.busy = true
	defer func() {
		if !simrt.Dying() {
			o.done = true
		}
		o.busy = false
	}()
	f()
}

type Cond struct {
	L     Locker
	waits []*bool
	real  *sync.Cond
}

func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

func (c *Cond) Wait() {
	if simrt.Cur() == nil {
		c.real.Wait()
		return
	}
	woken := false
	c.waits = append(c.waits, &woken)
	c.L.Unlock()
	simrt.LockWait("cond", func() bool { return woken })
	c.L.Lock()
}

func (c *Cond) Signal() {
	if simrt.Cur() == nil {
		c.real.Signal()
		return
	}
	if len(c.waits) > 0 {
		*c.waits[0] = true
		c.waits = c.waits[1:]
	}
}

func (c *Cond) Broadcast() {
	if simrt.Cur() == nil {
		c.real.Broadcast()
		return
	}
	for _, w := range c.waits {
		*w = true
	}
	c.waits = nil
}
