package main

import (
	"fmt"
	"sort"
	"sync"
	"time"
)

func copyTapes(m map[string][]int) map[string][]int {
	n := map[string][]int{}
	for k, v := range m {
		n[k] = append([]int{}, v...)
	}
	return n
}

func cost(m map[string][]int) int {
	c := 0
	for _, v := range m {
		c += len(v)
		for _, x := range v {
			if x != 0 {
				c += 2
				if x > 1 {
					c++
				}
				if x > 100 {
					c++
				}
			}
		}
	}
	return c
}

// minimise shrinks the decision tapes of a violation while the run keeps
// failing with the same class.
func minimise(j Job, first *Result, n int, skip bool, fs Findings) *Replay {
	j.Tapes = first.Tapes
	j.Keep = false
	best := copyTapes(first.Tapes)
	var ws []*worker
	for i := 0; i < n; i++ {
		w, err := startWorker()
		if err != nil {
			die("%v", err)
		}
		ws = append(ws, w)
	}
	defer func() {
		for _, w := range ws {
			w.stop()
		}
	}()
	tried := 0
	// tries candidates in parallel; the first in order that still fails wins
	try := func(cands []map[string][]int) bool {
		for at := 0; at < len(cands); at += n {
			hi := min(at+n, len(cands))
			ok := make([]map[string][]int, hi-at)
			var wg sync.WaitGroup
			for i := at; i < hi; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					jj := j
					jj.Tapes = cands[i]
					r, err := ws[i-at].do(jj)
					if err != nil {
						// a candidate that upsets the worker is not a smaller failure
						ws[i-at].stop()
						ws[i-at], err = startWorker()
						if err != nil {
							die("%v", err)
						}
						return
					}
					if r.Class == first.Class && fs.match(r) < 0 {
						ok[i-at] = r.Tapes
					}
				}(i)
			}
			wg.Wait()
			tried += hi - at
			for i, t := range ok {
				if t != nil && cost(t) < cost(best) {
					best = copyTapes(t)
					return true
				} else if c := cands[at+i]; t != nil && cost(c) < cost(best) {
					best = copyTapes(c)
					return true
				}
			}
		}
		return false
	}
	// baseline: the recorded tapes must fail by themselves
	end := time.Now().Add(60 * time.Second)
	if !skip {
		for round := 0; round < 40 && time.Now().Before(end); round++ {
			before := cost(best)
			names := []string{}
			for k := range best {
				names = append(names, k)
			}
			sort.Strings(names)
			var c []map[string][]int
			for _, k := range names {
				m := copyTapes(best)
				delete(m, k)
				c = append(c, m)
			}
			for try(c) && time.Now().Before(end) {
				c = c[:0]
				for _, k := range names {
					if len(best[k]) > 0 {
						m := copyTapes(best)
						delete(m, k)
						c = append(c, m)
					}
				}
			}
			for _, k := range names {
				// truncate, cut blocks, zero blocks
				for sz := len(best[k]); sz >= 1 && time.Now().Before(end); sz /= 2 {
					for progress := true; progress && time.Now().Before(end); {
						progress = false
						var c []map[string][]int
						t := best[k]
						lim := 0
						for off := len(t) - sz; off > -sz && lim < 160; off -= sz {
							lo, hi := max(off, 0), min(off+sz, len(t))
							if lo >= hi {
								continue
							}
							nz := false
							for _, x := range t[lo:hi] {
								nz = nz || x != 0
							}
							m := copyTapes(best)
							m[k] = append(append([]int{}, t[:lo]...), t[hi:]...)
							c = append(c, m)
							if nz {
								m = copyTapes(best)
								for i := lo; i < hi; i++ {
									m[k][i] = 0
								}
								c = append(c, m)
							}
							lim++
						}
						progress = try(c)
					}
				}
				// smaller values
				for progress := true; progress && time.Now().Before(end); {
					var c []map[string][]int
					for i, x := range best[k] {
						for _, y := range []int{1, x / 2, x - 1} {
							if y > 0 && y < x {
								m := copyTapes(best)
								m[k][i] = y
								c = append(c, m)
							}
						}
					}
					if len(c) > 400 {
						c = c[:400]
					}
					progress = try(c)
				}
			}
			if cost(best) == before {
				break
			}
		}
	}
	j.Tapes = best
	j.Keep = true
	w, err := startWorker()
	if err != nil {
		die("%v", err)
	}
	defer w.stop()
	r, err := w.do(j)
	if err != nil {
		die("%v", err)
	}
	if r.Class != first.Class {
		// fall back to the unminimised run
		if tried > 0 {
			return minimise(j2(j, first), first, n, true, fs)
		}
		die("the recorded decisions do not reproduce the violation: %q then %q", first.Class, r.Class)
	}
	if verbose {
		fmt.Printf("minimised %d -> %d in %d attempts\n", cost(first.Tapes), cost(best), tried)
	}
	return &Replay{Property: j.Prop, Scenario: r.Scenario, Seed: j.Seed, Thorough: j.Thorough, Class: r.Class, Violation: r.Detail,
		Hash: r.Hash, Minimised: !skip, Choices: best, Params: r.Params, Faults: r.Faults, Trace: r.Trace}
}

func j2(j Job, first *Result) Job { j.Tapes = first.Tapes; return j }
