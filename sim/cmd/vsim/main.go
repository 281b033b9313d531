// Command vsim builds the simulator from the current source tree, searches
// seeds for violations of one property, minimises what it finds, and writes
// the evidence.
//
//	vsim check -prop C01 -tier quick
//	vsim replay FILE
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Job struct {
	ID       int
	Prop     string
	Seed     uint64
	Scenario string
	Tapes    map[string][]int
	Keep     bool
	Thorough bool
}

type Result struct {
	ID       int
	Seed     uint64
	Scenario string
	Class    string
	Detail   string
	Hash     string
	NonTriv  bool
	Params   []string
	Faults   map[string]int
	Probes   map[string]int
	Cover    []string
	Steps    int
	Events   int
	Choices  int
	SimMS    int64
	WallUS   int64
	Limit    bool
	Tapes    map[string][]int
	Trace    []string
	Fatal    string
}

// Replay is the file a violation is reported with.
type Replay struct {
	Property  string           `json:"property"`
	Scenario  string           `json:"scenario"`
	Seed      uint64           `json:"seed"`
	Thorough  bool             `json:"thorough"`
	Class     string           `json:"class"`
	Violation string           `json:"violation"`
	Hash      string           `json:"trace_hash"`
	Minimised bool             `json:"minimised"`
	Choices   map[string][]int `json:"choices"`
	Params    []string         `json:"configuration"`
	Faults    map[string]int   `json:"faults"`
	Trace     []string         `json:"trace"`
	HowTo     string           `json:"how_to_replay"`
}

type Finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // open or fixed
	Class    string `json:"class"`
	Match    string `json:"match"` // regexp on the violation text
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

var (
	root    string // /verif
	simDir  string
	repo    = "/repo"
	workDir string
	verbose = os.Getenv("VSIM_VERBOSE") != ""
)

func die(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "vsim: "+format+"\n", args...)
	cleanup()
	os.Exit(2)
}

func cleanup() {
	if workDir != "" && strings.HasPrefix(workDir, os.TempDir()) {
		os.RemoveAll(workDir)
	}
}

func main() {
	exe, err := os.Getwd()
	if err != nil {
		die("%v", err)
	}
	root = exe
	if r := os.Getenv("VSIM_ROOT"); r != "" {
		root = r
	}
	if r := os.Getenv("VSIM_REPO"); r != "" {
		repo = r
	}
	simDir = filepath.Join(root, "sim")
	if len(os.Args) < 2 {
		die("usage: vsim check|replay|build")
	}
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "replay":
		replayCmd(os.Args[2:])
	case "build":
		build()
		cleanup()
	default:
		die("unknown command %s", os.Args[1])
	}
}

func goEnv() []string {
	env := os.Environ()
	set := func(k, v string) {
		for i, e := range env {
			if strings.HasPrefix(e, k+"=") {
				env[i] = k + "=" + v
				return
			}
		}
		env = append(env, k+"="+v)
	}
	set("GOTOOLCHAIN", "local")
	set("GOPROXY", "off")
	set("GOWORK", "off")
	set("GOFLAGS", "-mod=mod")
	set("CGO_ENABLED", "0")
	return env
}

func run(dir string, env []string, name string, args ...string) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = env
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	if err := c.Run(); err != nil {
		die("%s %s: %v\n%s", name, strings.Join(args, " "), err, b.String())
	}
}

var bin string

// build makes the simulator from the current working tree of the repository.
func build() {
	d, err := os.MkdirTemp("", "vsim-")
	if err != nil {
		die("%v", err)
	}
	workDir = d
	env := goEnv()
	ov := filepath.Join(d, "overlay")
	os.MkdirAll(ov, 0755)
	// the module files are copied so that nothing here is rewritten
	mod, err := os.ReadFile(filepath.Join(simDir, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	if repo != "/repo" {
		mod = bytes.ReplaceAll(mod, []byte("=> /repo"), []byte("=> "+repo))
	}
	sum, _ := os.ReadFile(filepath.Join(simDir, "go.sum"))
	os.WriteFile(filepath.Join(d, "go.mod"), mod, 0644)
	os.WriteFile(filepath.Join(d, "go.sum"), sum, 0644)
	mf := "-modfile=" + filepath.Join(d, "go.mod")
	run(simDir, env, "go", "run", mf, "./cmd/instrument", "-repo", repo, "-out", ov)
	bin = filepath.Join(d, "sim.test")
	run(simDir, env, "go", "test", mf, "-c", "-overlay", filepath.Join(ov, "overlay.json"), "-o", bin, "./engine")
}

var fatal = regexp.MustCompile(`(?m)^(fatal error|runtime): (stack overflow|out of memory|goroutine stack exceeds|runtime: out of memory|cannot allocate memory).*`)

// worker is one simulator process.
type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	enc *json.Encoder
	dec *json.Decoder
	err bytes.Buffer
	r   *os.File
}

func startWorker() (*worker, error) {
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	c := exec.Command(bin, "-test.run", "^TestWorker$", "-test.timeout", "0")
	c.Dir = workDir
	c.Env = append(goEnv(), "VSIM_PIPE=1", "GOMAXPROCS=2", "GODEBUG=")
	c.ExtraFiles = []*os.File{w}
	wk := &worker{cmd: c, r: r}
	wk.in, err = c.StdinPipe()
	if err != nil {
		return nil, err
	}
	c.Stderr = &wk.err
	if l := os.Getenv("MINT_LOG"); l != "" {
		// debugging a replay: mint's own log goes to this tool's
		c.Stdout, c.Stderr = os.Stderr, os.Stderr
	}
	if err := c.Start(); err != nil {
		return nil, err
	}
	w.Close()
	wk.enc = json.NewEncoder(wk.in)
	wk.dec = json.NewDecoder(r)
	return wk, nil
}

func (w *worker) do(j Job) (*Result, error) {
	if err := w.enc.Encode(j); err != nil {
		return nil, fmt.Errorf("worker: %v\n%s", err, tail(w.err.String()))
	}
	var r Result
	if err := w.dec.Decode(&r); err != nil {
		w.cmd.Wait()
		if m := fatal.FindString(w.err.String()); m != "" && strings.Contains(w.err.String(), "bifurcation/mint") {
			// the code under test has taken the process down; the run is
			// identified by its seed alone
			return &Result{ID: j.ID, Seed: j.Seed, Scenario: j.Scenario, Class: "fatal", Detail: "the process ended: " + m, Hash: "fatal"}, nil
		}
		return nil, fmt.Errorf("worker ended during property %s seed %d: %v\n%s", j.Prop, j.Seed, err, tail(w.err.String()))
	}
	if r.Fatal != "" {
		return nil, fmt.Errorf("property %s seed %d: %s", j.Prop, j.Seed, r.Fatal)
	}
	return &r, nil
}

func (w *worker) stop() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
	w.r.Close()
}

func tail(s string) string {
	if len(s) > 12000 {
		return s[:6000] + "\n...\n" + s[len(s)-6000:]
	}
	return s
}

func mix(a, b uint64) uint64 {
	z := a*0x9e3779b97f4a7c15 + b + 0x632be59bd9b4e019
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func strSeed(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

type tally struct {
	runs, nontriv int
	scen          map[string]int
	scenNT        map[string]int
	faults        map[string]int
	probes        map[string]int
	cover         map[string]int
	hashes        map[string]bool
	ntHashes      map[string]bool
	simMS         int64
	steps         int64
	events        int64
	choices       int64
	limits        int
	samples       []map[string]interface{}
	byID          map[int]string
	slow          int64
}

func newTally() *tally {
	return &tally{scen: map[string]int{}, scenNT: map[string]int{}, faults: map[string]int{}, probes: map[string]int{},
		cover: map[string]int{}, hashes: map[string]bool{}, ntHashes: map[string]bool{}, byID: map[int]string{}}
}

func (t *tally) add(r *Result) {
	t.runs++
	t.scen[r.Scenario]++
	if r.NonTriv {
		t.nontriv++
		t.scenNT[r.Scenario]++
		t.ntHashes[r.Hash] = true
	}
	t.hashes[r.Hash] = true
	for k, v := range r.Faults {
		t.faults[k] += v
	}
	for k, v := range r.Probes {
		t.probes[k] += v
	}
	for _, k := range r.Cover {
		t.cover[k]++
	}
	t.simMS += r.SimMS
	t.steps += int64(r.Steps)
	t.events += int64(r.Events)
	t.choices += int64(r.Choices)
	if r.Limit {
		t.limits++
	}
	if r.WallUS > t.slow {
		t.slow = r.WallUS
	}
	t.byID[r.ID] = r.Hash
	if len(t.samples) < 6 && r.NonTriv && t.scenNT[r.Scenario] <= 2 {
		t.samples = append(t.samples, map[string]interface{}{
			"seed": r.Seed, "scenario": r.Scenario, "configuration": r.Params, "faults": r.Faults,
			"steps": r.Steps, "choices": r.Choices, "simulated_ms": r.SimMS, "trace_hash": r.Hash,
		})
	}
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "", "quick or thorough")
	runs := fs.Int("runs", 0, "number of runs (0: the tier's own)")
	budget := fs.Int("budget", 0, "seconds (0: the tier's own)")
	scen := fs.String("scenario", "", "only this scenario")
	all := fs.Bool("all", false, "keep going and list every violation class")
	nomin := fs.Bool("nomin", false, "do not minimise")
	fs.Parse(args)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	thorough := *tier == "thorough"
	seed := uint64(1)
	if v := os.Getenv("VERIF_SEED"); v != "" {
		n, err := strconv.ParseUint(v, 10, 64)
		if err != nil {
			die("VERIF_SEED: %v", err)
		}
		seed = n
	}
	b := budgets[*prop]
	if b.Runs == 0 {
		die("unknown property %q", *prop)
	}
	nruns, secs := b.Runs, b.Secs
	if thorough {
		nruns, secs = b.Runs*20, 900
		if b.ThoroughSecs > 0 {
			secs = b.ThoroughSecs
		}
	}
	if *runs > 0 {
		nruns = *runs
	}
	if *budget > 0 {
		secs = *budget
	}
	fmt.Printf("property=%s tier=%s seed=%d runs<=%d budget=%ds\n", *prop, *tier, seed, nruns, secs)
	started := time.Now()
	build()
	defer cleanup()
	buildS := time.Since(started).Seconds()
	findings := loadFindings(*prop)

	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	base := mix(seed, strSeed(*prop))
	job := func(i int) Job {
		return Job{ID: i, Prop: *prop, Seed: mix(base, uint64(i)) >> 1, Scenario: *scen, Thorough: thorough}
	}
	t := newTally()
	var mu sync.Mutex
	next := 0
	var bad *Result
	var badJob Job
	known := map[int]int{}
	classes := map[string]int{}
	var werr error
	deadline := time.Now().Add(time.Duration(secs) * time.Second)
	searching := time.Now()
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			wk, err := startWorker()
			if err != nil {
				mu.Lock()
				werr = err
				mu.Unlock()
				return
			}
			defer wk.stop()
			for {
				mu.Lock()
				if bad != nil || werr != nil || next >= nruns || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				j := job(next)
				next++
				mu.Unlock()
				r, err := wk.do(j)
				mu.Lock()
				if err != nil {
					if werr == nil {
						werr = err
					}
					mu.Unlock()
					return
				}
				t.add(r)
				if r.Class != "" {
					if f := findings.match(r); f >= 0 {
						known[f]++
					} else if *all {
						key := r.Scenario + ": " + r.Class
						classes[key]++
						if classes[key] <= 2 {
							fmt.Printf("seed %d %s: %s: %s\n", r.Seed, r.Scenario, r.Class, r.Detail)
						}
					} else if bad == nil {
						bad, badJob = r, j
						badJob.Scenario = r.Scenario
					}
				}
				dead := r.Class == "fatal"
				mu.Unlock()
				if dead {
					return
				}
			}
		}()
	}
	wg.Wait()
	if werr != nil && bad == nil {
		die("%v", werr)
	}
	searchS := time.Since(searching).Seconds()
	if *all {
		var ks []string
		for k := range classes {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("%6d  %s\n", classes[k], k)
		}
		t.print(os.Stdout, searchS)
		return
	}
	if t.runs == 0 {
		die("no run completed")
	}
	// determinism: repeat a sample in fresh processes
	repeats := 0
	if bad == nil {
		repeats = repeatSample(t, job)
	}
	for i, c := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d runs)\n", *prop, findings[i].What, c)
	}
	for i, f := range findings {
		if f.Status == "open" && known[i] == 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (not met in this run)\n", *prop, f.What)
		}
	}
	if bad == nil {
		if t.nontriv*20 < t.runs {
			die("only %d of %d runs were non-trivial: the workload no longer exercises the property", t.nontriv, t.runs)
		}
		evidence(*prop, *tier, seed, t, searchS, buildS, time.Since(started).Seconds(), repeats, nil, n)
		t.print(os.Stdout, searchS)
		fmt.Printf("OK property=%s\n", *prop)
		return
	}
	fmt.Printf("found: seed %d scenario %s: %s: %s\n", bad.Seed, bad.Scenario, bad.Class, bad.Detail)
	var rep *Replay
	if bad.Class == "fatal" {
		rep = &Replay{Property: *prop, Scenario: bad.Scenario, Seed: bad.Seed, Thorough: badJob.Thorough, Class: bad.Class, Violation: bad.Detail, Hash: bad.Hash}
	} else {
		rep = minimise(badJob, bad, n, *nomin, findings)
	}
	path := writeReplay(rep)
	// reproduce from the file in a fresh process
	rep2, _ := loadReplay(path)
	if bad.Class == "memory" && replayOnce(rep2).Class != "memory" {
		// the minimised run lies at the bound
		rep = minimise(badJob, bad, n, true, findings)
		path = writeReplay(rep)
		rep2, _ = loadReplay(path)
	}
	if r := replayOnce(rep2); r == nil || r.Class != rep.Class || r.Hash != rep.Hash || r.Detail != rep.Violation {
		// code that is not deterministic itself (it ranges over a map, say)
		// may need several attempts
		again := false
		for i := 0; i < 10 && !again; i++ {
			if r == nil || r.Class != rep.Class {
				r = replayOnce(rep2)
			}
			again = r != nil && r.Class == rep.Class
		}
		if !again {
			die("the replay file %s does not reproduce: %+v", path, r)
		}
		fmt.Printf("the replay violates the property in the same way, but not in exactly the same execution: the code makes choices that the simulator does not control\n")
	}
	evidence(*prop, *tier, seed, t, searchS, buildS, time.Since(started).Seconds(), repeats, rep, n)
	fmt.Printf("minimised: %s: %s\n", rep.Class, rep.Violation)
	fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
	cleanup()
	os.Exit(1)
}

func repeatSample(t *tally, job func(int) Job) int {
	var ids []int
	for id := range t.byID {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	step := len(ids)/48 + 1
	var sample []int
	for i := 0; i < len(ids); i += step {
		sample = append(sample, ids[i])
	}
	// each worker takes every eighth, in reverse order, so that what ran
	// before in the process differs from the first time
	var wg sync.WaitGroup
	var mu sync.Mutex
	var msg string
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			wk, err := startWorker()
			if err != nil {
				mu.Lock()
				msg = err.Error()
				mu.Unlock()
				return
			}
			defer wk.stop()
			for i := len(sample) - 1; i >= 0; i-- {
				if i%8 != w {
					continue
				}
				r, err := wk.do(job(sample[i]))
				mu.Lock()
				if err != nil {
					msg = err.Error()
				} else if r.Hash != t.byID[sample[i]] {
					msg = fmt.Sprintf("run %d (seed %d) is not deterministic: trace %s, then %s", sample[i], r.Seed, t.byID[sample[i]], r.Hash)
				}
				stop := msg != ""
				mu.Unlock()
				if stop {
					return
				}
			}
		}(w)
	}
	wg.Wait()
	if msg != "" {
		die("%s", msg)
	}
	return len(sample)
}

type Findings []Finding

func loadFindings(prop string) Findings {
	b, err := os.ReadFile(filepath.Join(root, "known-findings.json"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil
		}
		die("%v", err)
	}
	var all []Finding
	if err := json.Unmarshal(b, &all); err != nil {
		die("known-findings.json: %v", err)
	}
	var f Findings
	for _, x := range all {
		if x.Property == prop && x.Status == "open" {
			f = append(f, x)
		}
	}
	return f
}

func (fs Findings) match(r *Result) int {
	for i, f := range fs {
		if f.Class == r.Class {
			if ok, _ := regexp.MatchString(f.Match, r.Detail+" | "+strings.Join(r.Params, " ; ")); ok {
				return i
			}
		}
	}
	return -1
}

func (t *tally) print(w io.Writer, s float64) {
	fmt.Fprintf(w, "%d runs (%d non-trivial, %d distinct) in %.1fs, %.0f simulated s, %d steps, slowest run %.2fs, step limits hit %d\n", t.runs, t.nontriv, len(t.hashes), s, float64(t.simMS)/1000, t.steps, float64(t.slow)/1e6, t.limits)
	pm := func(what string, m map[string]int) {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Fprintf(w, "%s:", what)
		for _, k := range ks {
			fmt.Fprintf(w, " %s=%d", k, m[k])
		}
		fmt.Fprintln(w)
	}
	pm("scenarios", t.scen)
	pm("non-trivial", t.scenNT)
	pm("faults", t.faults)
	pm("probes", t.probes)
	fmt.Fprintf(w, "states: %d\n", len(t.cover))
	if verbose {
		pm("cover", t.cover)
	}
}

// ---- replay

func writeReplay(r *Replay) string {
	dir := filepath.Join(root, "replays")
	os.MkdirAll(dir, 0755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", r.Property, r.Seed))
	r.HowTo = "cd " + root + " && ./check replay " + p
	b, _ := json.MarshalIndent(r, "", " ")
	if err := os.WriteFile(p, b, 0644); err != nil {
		die("%v", err)
	}
	return p
}

func loadReplay(p string) (*Replay, error) {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil, err
	}
	r := &Replay{}
	return r, json.Unmarshal(b, r)
}

func replayOnce(rep *Replay) *Result {
	wk, err := startWorker()
	if err != nil {
		die("%v", err)
	}
	defer wk.stop()
	r, err := wk.do(Job{Prop: rep.Property, Seed: rep.Seed, Scenario: rep.Scenario, Tapes: rep.Choices, Keep: true, Thorough: rep.Thorough})
	if err != nil {
		die("%v", err)
	}
	return r
}

func replayCmd(args []string) {
	if len(args) != 1 {
		die("usage: vsim replay FILE")
	}
	rep, err := loadReplay(args[0])
	if err != nil {
		die("%v", err)
	}
	build()
	r := replayOnce(rep)
	for _, p := range r.Params {
		fmt.Println("#", p)
	}
	for _, l := range r.Trace {
		fmt.Println(l)
	}
	cleanup()
	switch {
	case r.Class == "":
		fmt.Println("the run no longer violates the property")
		os.Exit(0)
	case r.Hash == rep.Hash:
		fmt.Printf("reproduced exactly (trace %s)\n", r.Hash)
	default:
		fmt.Printf("violates, but the execution differs from the recorded one (trace %s, recorded %s): the code has changed\n", r.Hash, rep.Hash)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Property, args[0])
	os.Exit(1)
}
