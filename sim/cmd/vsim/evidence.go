package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type budget struct {
	Runs, Secs, ThoroughSecs int
	Rule                     string
	Real                     []string
	Stub                     []string
}

var realAll = []string{"mint: the whole package from the working tree (record layer, handshake layer, state machines, crypto, DTLS, timers), instrumented with scheduling points; crypto/*, math/big, crypto/x509 and golang.org/x/crypto as shipped"}

func evidence(prop, tier string, seed uint64, t *tally, searchS, buildS, wall float64, repeats int, rep *Replay, workers int) {
	b := budgets[prop]
	var zero []string
	for k, v := range t.probes {
		if v == 0 {
			zero = append(zero, k)
		}
	}
	sort.Strings(zero)
	edges := map[string]int{}
	states := map[string]int{}
	for k, v := range t.cover {
		if strings.Contains(k, ">") {
			edges[k] = v
		} else {
			states[k] = v
		}
	}
	cov := map[string]interface{}{
		"evaluations":          t.runs,
		"distinct_nontrivial":  len(t.ntHashes),
		"rule":                 b.Rule + " Distinct: different trace hashes (every transport event, decision-dependent API result and simulated time stamp enters the hash).",
		"samples":              t.samples,
		"simulated_seconds":    float64(t.simMS) / 1000,
		"seeds_per_hour":       int64(float64(t.runs) / searchS * 3600),
		"runs_per_scenario":    t.scen,
		"nontrivial_scenario":  t.scenNT,
		"faults_injected":      t.faults,
		"probes":               t.probes,
		"distinct_executions":  len(t.hashes),
		"state_transitions":    edges,
		"other_coverage":       states,
		"scheduler_steps":      t.steps,
		"trace_events":         t.events,
		"decisions_drawn":      t.choices,
		"step_limit_hits":      t.limits,
		"determinism_repeats":  repeats,
		"worker_processes":     workers,
		"real_components":      append(append([]string{}, realAll...), b.Real...),
		"simulated_components": append([]string{"transport (byte stream or datagram network)", "clock (testing/synctest bubble plus per-node offset)", "task scheduler", "entropy (testing/cryptotest, seeded per run)", "mutexes, sleeps and timers of the code under test", "application threads", "pre-shared-key stores"}, b.Stub...),
	}
	viol := 0
	if rep != nil {
		viol = 1
		cov["violation"] = map[string]interface{}{"class": rep.Class, "text": rep.Violation, "seed": rep.Seed, "scenario": rep.Scenario}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"seeded sampling: a clean batch is evidence, not proof",
			"threads interleave at statement boundaries and lock operations; data races below that granularity are not modelled",
			"the primitives of crypto/*, math/big and x/crypto are trusted",
		},
		"wall_s": wall, "violations": viol,
	}
	_ = buildS
	dir := filepath.Join(root, "evidence")
	os.MkdirAll(dir, 0755)
	out, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), out, 0644); err != nil {
		die("%v", err)
	}
	fmt.Printf("evidence/%s.json written\n", prop)
}
