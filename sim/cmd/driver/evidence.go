package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
)

func writeEvidence(id string, p *Property, wall float64, cases, nontrivial, distinct int64, kinds, probes map[string]int64, samples []map[string]any, violations int, slow int64) {
	if *evidenceFlag == "" {
		return
	}
	perHour := func(n int64) int64 { return int64(float64(n) / wall * 3600) }
	stub := p.stub
	if stub == nil {
		stub = []string{"clock and timers", "file system", "standard streams", "goroutine scheduler (channels, locks and atomics wrap the real ones)", "map iteration order", "getrusage", "number of processors"}
	}
	real := p.real
	if real == nil {
		real = []string{"the ivy command, unmodified in behaviour: config, scan, parse, exec, run, value, value/persist, demo and main"}
	}
	var instr any
	if *statsFlag != "" {
		if data, err := os.ReadFile(*statsFlag); err == nil {
			json.Unmarshal(data, &instr)
		}
	}
	var strategies []string
	for k, n := range totals.strategies {
		strategies = append(strategies, fmt.Sprintf("%s: %d", k, n))
	}
	sort.Strings(strategies)
	if samples == nil {
		samples = []map[string]any{}
	}
	assume := p.assume
	if assume == nil {
		assume = []string{}
	}
	assume = append(assume, "scheduling points are the boundaries between Go statements and the synchronisation operations; memory is sequentially consistent between them (weaker effects are the business of the race build)",
		"the instrumented copy of the code behaves as the original does: only the seams named under stub_components are replaced")
	ev := map[string]any{
		"property": id,
		"tier":     *tierFlag,
		"seed":     *seedFlag,
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":         cases,
			"distinct_nontrivial": distinct,
			"rule":                p.rule,
			"samples":             samples,
			"nontrivial_cases":    nontrivial,
			"case_kinds":          kinds,
			"probes":              probes,
		},
		"runs":                   totals.execs,
		"runs_per_hour":          perHour(totals.execs),
		"seeds_per_hour":         perHour(cases),
		"simulated_seconds":      float64(totals.simNS) / 1e9,
		"scheduling_points":      totals.steps,
		"context_switches":       totals.switches,
		"tasks":                  totals.tasks,
		"concurrent_runs":        totals.multi,
		"distinct_interleavings": len(totals.hashes),
		"interleaving_measure":   "hash of the sequence of (scheduling point, task) pairs at every switch, over executions with more than one task",
		"strategies":             strategies,
		"faults_injected":        totals.faults,
		"outcomes":               totals.outcomes,
		"model_comparisons":      totals.checks,
		"inconclusive_too_slow":  slow,
		"real_components":        real,
		"stub_components":        stub,
		"instrumentation":        instr,
		"wall_s":                 wall,
		"violations":             violations,
		"assumptions":            assume,
	}
	js, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		infra("%v", err)
	}
	os.MkdirAll(filepath.Dir(*evidenceFlag), 0o777)
	if err := os.WriteFile(*evidenceFlag, append(js, '\n'), 0o666); err != nil {
		infra("%v", err)
	}
}
