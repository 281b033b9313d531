package simrt

import (
	"container/heap"
	"fmt"
	"hash/fnv"
	"net"
	"runtime/debug"
	"strings"
	"time"
)

// Hang is what a task panics with when it executes more statements than a run
// is allowed without the simulated system making it stop.
type Hang struct{ Steps int }

type killed struct{}

type TaskState int

const (
	Runnable TaskState = iota
	Blocked
	Done
)

type Task struct {
	ID    int
	Name  string
	Node  *Node
	k     *Kernel
	wake  chan struct{}
	state TaskState
	ready func() bool
	what  string
	dying bool
	Panic string // non-empty if the task ended in a panic
	Stack string

	Spawned bool // by the code under test
}

// Node is one simulated machine: tasks on a node share a clock.
type Node struct {
	Name string
	Skew time.Duration
}

type event struct {
	at  time.Duration
	seq uint64
	fn  func()
	why string
}

type eventHeap []*event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h eventHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *eventHeap) Push(x interface{}) { *h = append(*h, x.(*event)) }
func (h *eventHeap) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

// Seal is one AEAD encryption the code under test performed.
type Seal struct {
	Node       string
	Key, Nonce string
	Plain      []byte
	AAD        []byte
}

type Kernel struct {
	C     *Chooser
	Start time.Time
	now   time.Duration
	seq   uint64
	q     eventHeap
	tasks []*Task
	back  chan struct{}

	// knobs
	PreemptGap int // mean statements between forced preemptions; 0 = only at blocking points
	StepLimit  int // scheduler steps
	StmtLimit  int // instrumented statements without time passing: more is a hang; ten times as many end the run
	all        int
	JitterMax  time.Duration

	gap   int
	stmts int
	Steps int
	Stuck bool
	Limit bool // StepLimit hit
	kill  bool

	// trace
	hash    uint64
	Keep    bool
	Trace   []string
	nevents int

	Faults map[string]int
	Probes map[string]int
	Cover  map[string]bool

	OnSeal func(Seal)
	Tamper func(node string, plain []byte) []byte // what is sealed instead, of the same length
	OnStep func()
	HangAt string

	// OnDial and OnListen are the network of the code under test.
	OnDial   func(network, addr string, limit time.Time) (net.Conn, error)
	OnListen func(network, addr string) (net.Listener, error)

	spawned   int
	meetings  map[uintptr]*meeting
	keepAlive []interface{}
}

var cur *Task // the task that is running; the kernel guarantees there is one at most
var active bool

var generation uint64

// Generation numbers the runs of this process.
func Generation() uint64 { return generation }

func New(c *Chooser) *Kernel {
	generation++
	return &Kernel{
		C: c, back: make(chan struct{}), Start: time.Now(),
		StepLimit: 200000, StmtLimit: 30000000,
		Faults: map[string]int{}, Probes: map[string]int{}, Cover: map[string]bool{},
		hash: 14695981039346656037,
	}
}

func (k *Kernel) Now() time.Duration { return k.now }

func (k *Kernel) Fault(kind string) {
	k.Faults[kind]++
}
func (k *Kernel) Probe(name string) { k.Probes[name]++ }

// Logf appends to the event log.  It never draws a decision.
func (k *Kernel) Logf(format string, args ...interface{}) {
	s := fmt.Sprintf("%d ", k.now/time.Microsecond) + fmt.Sprintf(format, args...)
	h := k.hash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	k.hash = h
	k.nevents++
	if k.Keep {
		k.Trace = append(k.Trace, s)
	}
}

func (k *Kernel) TraceHash() uint64 { return k.hash }
func (k *Kernel) Events() int       { return k.nevents }

func HashBytes(b []byte) uint32 {
	h := fnv.New32a()
	h.Write(b)
	return h.Sum32()
}

func (k *Kernel) At(d time.Duration, why string, fn func()) {
	if d < 0 {
		d = 0
	}
	k.seq++
	heap.Push(&k.q, &event{k.now + d, k.seq, fn, why})
}

func (k *Kernel) Go(name string, node *Node, fn func()) *Task {
	t := &Task{ID: len(k.tasks), Name: name, Node: node, k: k, wake: make(chan struct{}), state: Runnable}
	k.tasks = append(k.tasks, t)
	go func() {
		<-t.wake
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(killed); !ok {
					if h, ok := r.(Hang); ok {
						t.Panic = fmt.Sprintf("hang: %d statements", h.Steps)
					} else {
						t.Panic = fmt.Sprint(r)
					}
					t.Stack = string(debug.Stack())
				}
			}
			t.state = Done
			active = false
			k.back <- struct{}{}
		}()
		if k.kill {
			panic(killed{})
		}
		fn()
	}()
	return t
}

// yieldTo hands control back to the kernel and waits to be resumed.
func (t *Task) yield() {
	active = false
	cur = nil
	t.k.back <- struct{}{}
	<-t.wake
	if t.k.kill {
		t.dying = true
		panic(killed{})
	}
}

// Cur returns the running task, or nil outside a simulation.
func Cur() *Task { return cur }

// Y is called before every statement of the instrumented code.
func Y() {
	if active {
		yslow()
	}
}

func yslow() {
	t := cur
	if t == nil || t.dying {
		return
	}
	k := t.k
	k.stmts++
	k.all++
	if k.stmts > k.StmtLimit {
		panic(Hang{k.stmts})
	}
	if k.gap > 0 {
		k.gap--
		if k.gap == 0 {
			t.what = "preempted"
			t.yield()
		}
	}
}

// Yield lets the scheduler pick another task.
func (k *Kernel) Yield(what string) {
	t := cur
	if t == nil || t.dying {
		return
	}
	t.what = what
	t.yield()
}

// Block parks the running task until ready() is true.
func (k *Kernel) Block(what string, ready func() bool) {
	t := cur
	if t == nil {
		panic("simrt: Block outside a task")
	}
	if t.dying {
		return
	}
	t.what = what
	t.ready = ready
	t.state = Blocked
	t.yield()
	t.ready = nil
}

// BlockUntil parks the running task until ready() or the timeout; it reports
// whether ready() held.
func (k *Kernel) BlockUntil(what string, d time.Duration, ready func() bool) bool {
	fired := false
	k.At(d, "timeout", func() { fired = true })
	k.Block(what, func() bool { return fired || ready() })
	return ready()
}

func (k *Kernel) Sleep(d time.Duration) {
	fired := false
	k.At(d, "sleep", func() { fired = true })
	k.Block("sleep", func() bool { return fired })
}

func (k *Kernel) nextGap() {
	k.gap = 0
	if k.PreemptGap > 0 {
		// 0 = run to the next blocking point
		switch k.C.Weighted("sched", 4, 2, 2, 2) {
		case 1:
			k.gap = 1 + k.C.Intn("sched", 8)
		case 2:
			k.gap = 1 + k.C.Intn("sched", k.PreemptGap)
		case 3:
			k.gap = 1 + k.C.Intn("sched", 8*k.PreemptGap)
		}
	}
}

// Run drives the simulation until every task is done, nothing can happen any
// more, the step limit is reached, or until() says so.
func (k *Kernel) Run(until func() bool) {
	for {
		if k.Steps >= k.StepLimit || k.all > 10*k.StmtLimit {
			k.Limit = true
			break
		}
		if until != nil && until() {
			break
		}
		for len(k.q) > 0 && k.q[0].at <= k.now {
			e := heap.Pop(&k.q).(*event)
			e.fn()
		}
		var run []*Task
		alive := 0
		for _, t := range k.tasks {
			if t.state == Blocked && t.ready() {
				t.state = Runnable
			}
			if t.state == Runnable {
				run = append(run, t)
			}
			if t.state != Done {
				alive++
			}
		}
		if alive == 0 {
			break
		}
		if len(run) == 0 {
			if len(k.q) == 0 {
				k.Stuck = true
				break
			}
			e := k.q[0]
			if d := e.at - k.now; d > 0 {
				time.Sleep(d) // fake clock: every other goroutine is parked
				k.now = e.at
				k.stmts = 0
			}
			continue
		}
		k.Steps++
		t := run[0]
		if len(run) > 1 {
			t = run[k.C.Intn("sched", len(run))]
		}
		k.nextGap()
		if k.JitterMax > 0 {
			// computing takes time
			if d := time.Duration(k.C.Intn("sched", 4)) * k.JitterMax / 4; d > 0 {
				time.Sleep(d)
				k.now += d
			}
		}
		k.resume(t)
		if k.OnStep != nil {
			k.OnStep()
		}
	}
}

func (k *Kernel) resume(t *Task) {
	cur = t
	active = true
	t.wake <- struct{}{}
	<-k.back
	active = false
	cur = nil
}

// Finish kills whatever is still parked so that the run leaves nothing behind.
func (k *Kernel) Finish() {
	k.kill = true
	for _, t := range k.tasks {
		for t.state != Done {
			k.resume(t)
		}
	}
}

// Panicked returns the first task that ended in a panic.
func (k *Kernel) Panicked() *Task {
	for _, t := range k.tasks {
		if t.Panic != "" {
			return t
		}
	}
	return nil
}

// Where describes what every unfinished task waits for.
func (k *Kernel) Where() string {
	var s []string
	for _, t := range k.tasks {
		if t.state != Done {
			s = append(s, t.Name+":"+t.what)
		}
	}
	return strings.Join(s, " ")
}

// Runnable: the task could run now.
func (t *Task) Runnable() bool { return t.state == Runnable }
func (t *Task) Finished() bool { return t.state == Done }

// NowFor is the running task's view of the clock.
func Skew() time.Duration {
	if t := cur; t != nil && t.Node != nil {
		return t.Node.Skew
	}
	return 0
}

// RecordSeal is called by the AEAD shim.
func RecordSeal(key string, nonce, plain, aad []byte) {
	t := cur
	if t == nil || t.k.OnSeal == nil {
		return
	}
	n := ""
	if t.Node != nil {
		n = t.Node.Name
	}
	t.k.OnSeal(Seal{n, key, string(nonce), append([]byte{}, plain...), append([]byte{}, aad...)})
}

// Tampered is what is to be sealed in place of plain.
func Tampered(plain []byte) []byte {
	t := cur
	if t == nil || t.k.Tamper == nil || t.Node == nil {
		return plain
	}
	p := t.k.Tamper(t.Node.Name, plain)
	if len(p) != len(plain) {
		panic("simrt: Tamper changed the length")
	}
	return p
}

// HarnessPanics returns tasks that ended in a panic raised by the harness
// rather than by the code under test.
func (k *Kernel) HarnessPanics() []*Task {
	var out []*Task
	for _, t := range k.tasks {
		if t.Panic == "" || strings.HasPrefix(t.Panic, "hang:") {
			continue
		}
		for _, l := range strings.Split(panicFrames(t.Stack), "\n") {
			if strings.HasPrefix(l, "github.com/bifurcation/mint") {
				break
			}
			if strings.HasPrefix(l, "verif.local/sim/engine") {
				out = append(out, t)
				break
			}
		}
	}
	return out
}

// panicFrames is the part of a stack below the panic itself.
func panicFrames(s string) string {
	if i := strings.LastIndex(s, "\npanic("); i >= 0 {
		return s[i+1:]
	}
	return s
}

// Stmts counts the instrumented statements of the run.
func (k *Kernel) Stmts() int { return k.all }

var resets []func()

// OnReset registers what makes the code under test start afresh.
func OnReset(fn func()) { resets = append(resets, fn) }

// Reset gives the package-level variables of the code under test the values
// they have when a process starts.
func Reset() {
	Entropy = nil
	for _, fn := range resets {
		fn()
	}
}
