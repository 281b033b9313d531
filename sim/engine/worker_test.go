package engine

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"testing"
	"testing/cryptotest"
	"testing/synctest"
	"time"

	"verif.local/sim/simrt"
)

// Job is one run to do.
type Job struct {
	ID       int
	Prop     string
	Seed     uint64
	Scenario string           // "" draws one
	Tapes    map[string][]int // nil: from the seed
	Keep     bool
	Thorough bool
}

// Result is what a run reports.
type Result struct {
	ID       int
	Seed     uint64
	Scenario string
	Class    string
	Detail   string
	Hash     string
	NonTriv  bool
	Params   []string
	Faults   map[string]int
	Probes   map[string]int
	Cover    []string
	Steps    int
	Events   int
	Choices  int
	SimMS    int64
	WallUS   int64
	Limit    bool
	Tapes    map[string][]int
	Trace    []string
	Fatal    string
}

// TestWorker reads jobs from stdin and writes results to the file
// descriptor the driver passes.
func TestWorker(t *testing.T) {
	path := os.Getenv("VSIM_PIPE")
	if path == "" {
		t.Skip("not started by the driver")
	}
	debug.SetMemoryLimit(2 << 30)
	debug.SetMaxStack(64 << 20)
	out := os.NewFile(3, "results")
	enc := json.NewEncoder(out)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dec := json.NewDecoder(in)
	for {
		var j Job
		if err := dec.Decode(&j); err != nil {
			return
		}
		r := runJob(t, j)
		if err := enc.Encode(r); err != nil {
			return
		}
	}
}

func runJob(t *testing.T, j Job) *Result {
	res := &Result{ID: j.ID, Seed: j.Seed}
	began := time.Now()
	// A run that does not end is an error of the check, with its stacks.
	dog := time.AfterFunc(150*time.Second, func() {
		buf := make([]byte, 1<<20)
		n := runtime.Stack(buf, true)
		fmt.Fprintf(os.Stderr, "vsim: run %s seed %d exceeded its wall-clock limit\n%s\n", j.Prop, j.Seed, buf[:n])
		os.Exit(3)
	})
	defer dog.Stop()
	ok := t.Run(fmt.Sprint(j.ID), func(t *testing.T) {
		cryptotest.SetGlobalRandom(t, j.Seed)
		synctest.Test(t, func(t *testing.T) {
			oneRun(j, res)
		})
	})
	if !ok && res.Fatal == "" {
		res.Fatal = "the run's test failed"
	}
	res.WallUS = int64(time.Since(began) / time.Microsecond)
	return res
}

func oneRun(j Job, res *Result) {
	c := simrt.NewChooser(j.Seed, j.Tapes)
	simrt.Reset()
	k := simrt.New(c)
	k.Keep = j.Keep
	s := &Sim{K: k, C: c, Prop: j.Prop, Thorough: j.Thorough}
	scs := Registry[j.Prop]
	if len(scs) == 0 {
		res.Fatal = "unknown property " + j.Prop
		return
	}
	var sc *Scenario
	if j.Scenario != "" {
		for i := range scs {
			if scs[i].Name == j.Scenario {
				sc = &scs[i]
			}
		}
		if sc == nil {
			res.Fatal = "unknown scenario " + j.Scenario
			return
		}
	} else {
		pick := simrt.NewChooser(j.Seed^0x5ce9a810, nil)
		var w []int
		for _, x := range scs {
			w = append(w, x.Weight)
		}
		sc = &scs[pick.Weighted("scen", w...)]
	}
	s.Scenario = sc.Name
	k.Logf("run %s %s", j.Prop, sc.Name)
	func() {
		defer func() {
			if r := recover(); r != nil {
				res.Fatal = fmt.Sprintf("harness panic: %v\n%s", r, debug.Stack())
			}
		}()
		sc.Run(s)
	}()
	k.Finish()
	if res.Fatal == "" {
		for _, t := range k.HarnessPanics() {
			res.Fatal = fmt.Sprintf("harness panic in %s: %s\n%s", t.Name, t.Panic, t.Stack)
		}
	}
	res.Scenario = sc.Name
	if s.V != nil {
		res.Class, res.Detail = s.V.Class, s.V.Detail
		res.Tapes = c.Tapes()
	}
	res.Hash = fmt.Sprintf("%016x", k.TraceHash())
	res.NonTriv = s.NonTriv
	res.Params = s.Params
	res.Faults, res.Probes = k.Faults, k.Probes
	for n := range k.Cover {
		res.Cover = append(res.Cover, n)
	}
	sort.Strings(res.Cover)
	res.Steps, res.Events, res.Choices = k.Steps, k.Events(), c.Total()
	res.SimMS = int64(k.Now() / time.Millisecond)
	res.Limit = k.Limit
	if j.Keep {
		res.Trace = k.Trace
		res.Tapes = c.Tapes()
	}
}
