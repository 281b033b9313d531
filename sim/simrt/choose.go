// Package simrt is the deterministic simulation kernel: it owns every source
// of nondeterminism (which task runs next, when, with what faults) and draws
// all of it from one seed.  The instrumented copy of mint calls into it.
package simrt

import "sort"

// Chooser hands out every decision of a run.  Decisions are grouped in named
// streams so that the minimiser can shrink one dimension without shifting the
// others.  Choice 0 is always the simplest alternative (no fault, no delay,
// no preemption, smallest size), and a replayed stream that has run out
// yields 0.
type Chooser struct {
	Seed    uint64
	streams map[string]*stream
	replay  map[string][]int
	total   int
}

type stream struct {
	rng  uint64
	tape []int
	pos  int
	from []int
	rep  bool
}

func NewChooser(seed uint64, replay map[string][]int) *Chooser {
	return &Chooser{Seed: seed, streams: map[string]*stream{}, replay: replay}
}

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (c *Chooser) stream(name string) *stream {
	s := c.streams[name]
	if s == nil {
		h := c.Seed*0x9e3779b97f4a7c15 + 0x1234567
		for i := 0; i < len(name); i++ {
			h = (h ^ uint64(name[i])) * 0x100000001b3
		}
		s = &stream{rng: h}
		splitmix(&s.rng)
		if c.replay != nil {
			s.rep = true
			s.from = c.replay[name]
		}
		c.streams[name] = s
	}
	return s
}

// Intn returns a choice in [0,n).
func (c *Chooser) Intn(name string, n int) int {
	if n <= 1 {
		return 0
	}
	s := c.stream(name)
	c.total++
	v := 0
	if s.rep {
		if s.pos < len(s.from) {
			v = s.from[s.pos]
		}
		s.pos++
		if v < 0 {
			v = 0
		}
		if v >= n {
			v = n - 1
		}
	} else {
		v = int(splitmix(&s.rng) % uint64(n))
	}
	s.tape = append(s.tape, v)
	return v
}

// Weighted picks an index with the given weights; index 0 is the simplest.
func (c *Chooser) Weighted(name string, w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	v := c.Intn(name, t)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// Prob is true with probability num/den; choice 0 (simplest) is false.
func (c *Chooser) Prob(name string, num, den int) bool {
	if num <= 0 {
		return false
	}
	return c.Intn(name, den) >= den-num
}

// Total is the number of decisions drawn so far.
func (c *Chooser) Total() int { return c.total }

// Tapes returns the recorded decisions.
func (c *Chooser) Tapes() map[string][]int {
	m := map[string][]int{}
	for k, s := range c.streams {
		t := s.tape
		for len(t) > 0 && t[len(t)-1] == 0 {
			t = t[:len(t)-1]
		}
		m[k] = append([]int{}, t...)
	}
	return m
}

// StreamNames returns the streams in a fixed order.
func StreamNames(m map[string][]int) []string {
	var n []string
	for k := range m {
		n = append(n, k)
	}
	sort.Strings(n)
	return n
}
