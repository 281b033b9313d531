// Package engine runs whole mint endpoints under the simulation kernel.
package engine

import (
	"fmt"
	"hash/fnv"
	"regexp"
	"strings"
	"time"

	"verif.local/sim/simrt"
)

// Violation is what a run reports when a property does not hold.
type Violation struct {
	Class  string // stable class; minimisation keeps it
	Detail string
}

// Sim is one run.
type Sim struct {
	K        *simrt.Kernel
	C        *simrt.Chooser
	Prop     string
	Scenario string
	V        *Violation
	Params   []string // the configuration of this run, in words
	NonTriv  bool     // the run did what its scenario is about
	FaultEnd time.Duration
	Thorough bool
}

// Fail records the first violation of a run.
func (s *Sim) Fail(class, format string, args ...interface{}) {
	if s.V == nil {
		s.V = &Violation{class, fmt.Sprintf(format, args...)}
		s.K.Logf("VIOLATION %s: %s", class, s.V.Detail)
	}
}

func (s *Sim) Failed() bool { return s.V != nil }

func (s *Sim) Param(format string, args ...interface{}) {
	p := fmt.Sprintf(format, args...)
	s.Params = append(s.Params, p)
	s.K.Logf("param %s", p)
}

// Cfg draws a configuration choice.
func (s *Sim) Cfg(n int) int            { return s.C.Intn("cfg", n) }
func (s *Sim) CfgW(w ...int) int        { return s.C.Weighted("cfg", w...) }
func (s *Sim) CfgP(num, den int) bool   { return s.C.Prob("cfg", num, den) }
func (s *Sim) Net(n int) int            { return s.C.Intn("net", n) }
func (s *Sim) NetP(num, den int) bool   { return s.C.Prob("net", num, den) }
func (s *Sim) Fault(n int) int          { return s.C.Intn("fault", n) }
func (s *Sim) FaultP(num, den int) bool { return s.C.Prob("fault", num, den) }
func (s *Sim) Op(n int) int             { return s.C.Intn("op", n) }
func (s *Sim) OpW(w ...int) int         { return s.C.Weighted("op", w...) }
func (s *Sim) OpP(num, den int) bool    { return s.C.Prob("op", num, den) }
func (s *Sim) Dur(stream string, max time.Duration) time.Duration {
	// a few orders of magnitude, 0 first
	switch s.C.Weighted(stream, 2, 3, 3, 2) {
	case 1:
		return time.Duration(1+s.C.Intn(stream, 1000)) * max / 100000
	case 2:
		return time.Duration(1+s.C.Intn(stream, 1000)) * max / 10000
	case 3:
		return time.Duration(1+s.C.Intn(stream, 1000)) * max / 1000
	}
	return 0
}

var digits = regexp.MustCompile(`0x[0-9a-f]+|[0-9]+`)
var frameRe = regexp.MustCompile(`(?m)^(github\.com/bifurcation/mint[^\s(]*(?:\([^)]*\))?[^\s(]*)\(`)

// panicClass names a panic by its message and the innermost function of the
// code under test.
func panicClass(t *simrt.Task) (string, string) {
	fn := "?"
	for _, l := range strings.Split(t.Stack, "\n") {
		if strings.HasPrefix(l, "github.com/bifurcation/mint") {
			fn = l
			if i := strings.LastIndex(fn, "("); i > 0 {
				fn = fn[:i]
			}
			fn = strings.TrimPrefix(fn, "github.com/bifurcation/mint")
			break
		}
	}
	msg := digits.ReplaceAllString(t.Panic, "N")
	return "panic " + msg, "in " + fn + " (task " + t.Name + "): " + t.Panic
}

// CheckPanics turns a panic of a task into a violation.
func (s *Sim) CheckPanics() bool {
	t := s.K.Panicked()
	if t == nil {
		return false
	}
	c, d := panicClass(t)
	if strings.HasPrefix(t.Panic, "hang:") {
		c = "hang"
	}
	if s.K.Keep && s.V == nil {
		for _, l := range strings.Split(t.Stack, "\n") {
			if strings.Contains(l, "/repo/") {
				l = strings.TrimSpace(l)
				if i := strings.Index(l, " +0x"); i > 0 {
					l = l[:i]
				}
				s.K.Trace = append(s.K.Trace, "stack "+l)
			}
		}
	}
	s.Fail(c, "%s", d)
	return true
}

// Pattern is a deterministic byte stream that makes every position
// recognisable: byte i of stream id.
func Pattern(id uint32, off, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		p := uint32(off + i)
		// every aligned 4-byte group encodes its own position
		x := (p / 4) * 2654435761
		x ^= id * 0x9e3779b1
		x ^= x >> 15
		b[i] = byte(x >> (8 * (p % 4)))
	}
	return b
}

func hash64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func short(b []byte) string {
	if len(b) <= 16 {
		return fmt.Sprintf("%x", b)
	}
	return fmt.Sprintf("%x..(%d)", b[:12], len(b))
}

// Scenario is one kind of run of a property.
type Scenario struct {
	Name   string
	Weight int
	Run    func(*Sim)
}

// Registry maps a property to its scenarios.
var Registry = map[string][]Scenario{}

func register(prop string, sc ...Scenario) { Registry[prop] = append(Registry[prop], sc...) }
func (s *Sim) FaultW(w ...int) int         { return s.C.Weighted("fault", w...) }
