package simrt

import (
	"reflect"
	"time"
)

// Goroutines, channel operations and timers of the code under test.  The
// channels are real ones, used without blocking; a task that would block parks
// in the simulated scheduler instead, and rendezvous on unbuffered channels
// between tasks are kept here.

// Go starts a goroutine of the code under test.
func Go(fn func()) {
	t := cur
	if t == nil || t.dying {
		if t == nil {
			go fn()
		}
		return
	}
	t.k.spawned++
	n := t.k.Go(t.Name+"+go", t.Node, fn)
	n.Spawned = true
}

// waiter is a parked receiver; got is set by the sender that serves it.
type waiter struct {
	done *bool
	put  func(v interface{}, ok bool)
}

// offer is a parked sender on an unbuffered channel.
type offer struct {
	done *bool
	v    interface{}
	mark func()
}

type meeting struct {
	recv []*waiter
	send []*offer
}

func (k *Kernel) meet(ch interface{}) *meeting {
	p := reflect.ValueOf(ch).Pointer()
	if k.meetings == nil {
		k.meetings = map[uintptr]*meeting{}
	}
	m := k.meetings[p]
	if m == nil {
		m = &meeting{}
		k.meetings[p] = m
		k.keepAlive = append(k.keepAlive, ch) // no other channel gets this address
	}
	return m
}

func (m *meeting) waiting() *waiter {
	for len(m.recv) > 0 {
		w := m.recv[0]
		m.recv = m.recv[1:]
		if !*w.done {
			return w
		}
	}
	return nil
}

func (m *meeting) offered() *offer {
	for len(m.send) > 0 {
		o := m.send[0]
		m.send = m.send[1:]
		if !*o.done {
			return o
		}
	}
	return nil
}

// Case is one communication of a select statement.
type Case interface {
	try(k *Kernel) bool                        // performs it if it can happen now
	park(k *Kernel, done *bool, i *int, n int) // lets another task perform it
	real()                                     // performs it outside a simulation
	rcase() reflect.SelectCase
	got(v reflect.Value, ok bool)
}

type RecvCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

type SendCase[T any] struct {
	ch chan<- T
	v  T
}

func RecvOf[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }
func SendOf[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch, v} }
}

func (c *RecvCase[T]) real() { c.V, c.OK = <-c.ch }
func (c *RecvCase[T]) rcase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}
func (c *RecvCase[T]) got(v reflect.Value, ok bool) {
	if c.OK = ok; ok {
		reflect.ValueOf(&c.V).Elem().Set(v)
	}
}

func (c *RecvCase[T]) try(k *Kernel) bool {
	if c.ch == nil {
		return false
	}
	select {
	case c.V, c.OK = <-c.ch:
		return true
	default:
	}
	if cap(c.ch) == 0 {
		if o := k.meet(c.ch).offered(); o != nil {
			*o.done = true
			o.mark()
			if o.v != nil {
				c.V = o.v.(T)
			}
			c.OK = true
			return true
		}
	}
	return false
}

func (c *RecvCase[T]) park(k *Kernel, done *bool, i *int, n int) {
	if c.ch == nil || cap(c.ch) > 0 {
		return
	}
	m := k.meet(c.ch)
	m.recv = append(m.recv, &waiter{done, func(v interface{}, ok bool) {
		*i = n
		if v != nil {
			c.V = v.(T)
		}
		c.OK = ok
	}})
}

func (c *SendCase[T]) real() { c.ch <- c.v }
func (c *SendCase[T]) rcase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.v).Elem()}
}
func (c *SendCase[T]) got(reflect.Value, bool) {}

func (c *SendCase[T]) try(k *Kernel) bool {
	if c.ch == nil {
		return false
	}
	if cap(c.ch) == 0 {
		if w := k.meet(c.ch).waiting(); w != nil {
			*w.done = true
			w.put(c.v, true)
			return true
		}
	}
	select {
	case c.ch <- c.v:
		return true
	default:
		return false
	}
}

func (c *SendCase[T]) park(k *Kernel, done *bool, i *int, n int) {
	if c.ch == nil || cap(c.ch) > 0 {
		return
	}
	m := k.meet(c.ch)
	m.send = append(m.send, &offer{done, c.v, func() { *i = n }})
}

// Select performs one of the cases and returns its number, or -1 if none can
// happen and there is a default.
func Select(def bool, cases ...Case) int {
	t := cur
	if t == nil {
		rs := make([]reflect.SelectCase, 0, len(cases)+1)
		for _, c := range cases {
			rs = append(rs, c.rcase())
		}
		if def {
			rs = append(rs, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rs)
		if i == len(cases) {
			return -1
		}
		cases[i].got(v, ok)
		return i
	}
	k := t.k
	if t.dying {
		panic(killed{})
	}
	LockPoint("channel")
	at := 0
	if len(cases) > 1 {
		at = k.C.Intn("sched", len(cases))
	}
	first := func() int {
		for j := range cases {
			i := (at + j) % len(cases)
			if cases[i].try(k) {
				return i
			}
		}
		return -1
	}
	if i := first(); i >= 0 || def {
		return i
	}
	done, which := false, -1
	for i, c := range cases {
		c.park(k, &done, &which, i)
	}
	k.Block("channel", func() bool {
		if done {
			return true
		}
		if i := first(); i >= 0 {
			done, which = true, i
		}
		return done
	})
	return which
}

func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		c := &SendCase[T]{ch, v}
		if cur == nil {
			c.real()
			return
		}
		Select(false, c)
	}
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	c := &RecvCase[T]{ch: ch}
	if cur == nil {
		c.real()
	} else {
		Select(false, c)
	}
	return c.V, c.OK
}

// Forever is an empty select statement.
func Forever() {
	if cur == nil {
		select {}
	}
	cur.k.Block("select {}", func() bool { return false })
}

// Spawns counts the goroutines that the code under test has started.
func (k *Kernel) Spawns() int { return k.spawned }

// Tasks lists the tasks.
func (k *Kernel) Tasks() []*Task { return k.tasks }

// Running is the kernel of the running task.
func Running() *Kernel {
	if cur == nil {
		return nil
	}
	return cur.k
}

// Later runs fn in a task of its own, on the running task's node, after d.
// It reports false if it was called off.
func (k *Kernel) Later(d time.Duration, fn func()) (stop func() bool) {
	node := (*Node)(nil)
	name := "timer"
	if cur != nil {
		node, name = cur.Node, cur.Name+"+timer"
	}
	fired, off := false, false
	k.At(d, "timer", func() {
		if off {
			return
		}
		fired = true
		n := k.Go(name, node, fn)
		n.Spawned = true
	})
	return func() bool {
		was := !fired && !off
		off = true
		return was
	}
}
