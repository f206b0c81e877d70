// Command driver searches for violations of one property: it generates cases
// from a seed, runs them in the simulator, judges the histories, minimises
// and reports what fails, and writes the evidence.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var (
	propFlag       = flag.String("prop", "", "property `id`")
	tierFlag       = flag.String("tier", "quick", "quick or thorough")
	seedFlag       = flag.Uint64("seed", 1, "seed")
	workerFlag     = flag.String("worker", "", "worker binary")
	raceWorkerFlag = flag.String("raceworker", "", "worker binary with the race detector")
	evidenceFlag   = flag.String("evidence", "", "evidence `file` to write")
	replayDirFlag  = flag.String("replaydir", "", "`directory` for replay files")
	replayFlag     = flag.String("replay", "", "replay this `file`")
	knownFlag      = flag.String("known", "", "known findings `file`")
	budgetFlag     = flag.Int("budget", 0, "seconds to search (0 means the tier's own)")
	casesFlag      = flag.Int64("cases", 0, "stop after this many cases")
	jobsFlag       = flag.Int("j", runtime.NumCPU(), "executions at a time")
	statsFlag      = flag.String("instrstats", "", "instrumenter's statistics `file`")
	onlyFlag       = flag.Int64("only", -1, "run just this case and print what it did")
	keepFlag       = flag.Bool("keepgoing", false, "report every violation, not just the first")
	selfFlag       = flag.Bool("determinism", false, "run every case's executions twice and compare")
)

// A Case is one simulated scenario, complete: checking it is a pure function
// of the case and the code.
type Case struct {
	Prop     string            `json:"prop"`
	Index    int64             `json:"index"`
	Seed     uint64            `json:"seed"`
	Kind     string            `json:"kind"` // scenario within the property
	Setup    []string          `json:"setup,omitempty"`
	Lines    []string          `json:"lines,omitempty"`
	Extra    []string          `json:"extra,omitempty"`
	Marks    []int             `json:"marks,omitempty"`
	Args     []string          `json:"args,omitempty"`
	Files    map[string]string `json:"files,omitempty"`
	Faults   []Fault           `json:"faults,omitempty"`
	FDLimit  int               `json:"fdLimit,omitempty"`
	KillOp   int               `json:"killOp,omitempty"`
	Short    int               `json:"short,omitempty"`
	Chunks   []int             `json:"chunks,omitempty"`
	StdinErr string            `json:"stdinErr,omitempty"`
	Off      int               `json:"off,omitempty"`
	Procs    int               `json:"procs,omitempty"`
	MinWork  bool              `json:"minWork,omitempty"`
	SeamSeed uint64            `json:"seamSeed,omitempty"`
	Sched    Sched             `json:"sched"`
	Clock    Clock             `json:"clock"`
	Mobile   []MobileCall      `json:"mobile,omitempty"`
	Persist  []POp             `json:"persist,omitempty"`
	Num      int64             `json:"num,omitempty"`
}

func (c *Case) clone() *Case {
	js, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	d := new(Case)
	if err := json.Unmarshal(js, d); err != nil {
		panic(err)
	}
	return d
}

// A Violation says how a case breaks the property.
type Violation struct {
	Class  string  `json:"class"`
	Detail string  `json:"detail"`
	sched  *Result // the execution whose schedule matters, if any
}

func viol(class, format string, args ...any) *Violation {
	return &Violation{Class: class, Detail: fmt.Sprintf(format, args...)}
}

// An Env gives a check access to the simulator and counts what it covered.
type Env struct {
	nontrivial bool
	key        string // identifies what was covered, for counting distinct ones
	probes     map[string]int64
	race       bool
	err        error
	execs      int
	twice      bool
	diverged   string
}

func (e *Env) probe(name string) {
	if e.probes == nil {
		e.probes = map[string]int64{}
	}
	e.probes[name]++
}

// run executes a specification; trouble is remembered in e.err.
func (e *Env) run(s *Spec) *Result {
	if e.err != nil {
		return nil
	}
	r, err := run(s, e.race)
	if err != nil {
		e.err = err
		return nil
	}
	e.execs++
	if r.Outcome == "crash" && os.Getenv("DBGCRASH") != "" {
		debugCrash(s, r)
	}
	if r.Outcome == "noprogress" && !e.race {
		// It may just be much work: see how much it is with nothing in the way.
		p := plain(s)
		maxLoops, maxSteps := s.Sched.MaxLoops, s.Sched.MaxSteps
		if maxLoops == 0 {
			maxLoops = 60e6
		}
		if maxSteps == 0 {
			maxSteps = 20e6
		}
		p.Sched.MaxLoops, p.Sched.MaxSteps = 4*maxLoops, 4*maxSteps
		q, err := run(p, false)
		if err != nil {
			e.err = err
			return nil
		}
		e.execs++
		if q.Outcome != "noprogress" && (q.Stats.Loops > maxLoops/20 || q.Stats.Loops > maxSteps/100) {
			e.probe("heavy")
			return nil
		}
	}
	if e.twice {
		r2, err := run(s, e.race)
		if err != nil {
			e.err = err
			return nil
		}
		a, _ := json.Marshal(r)
		b, _ := json.Marshal(r2)
		if !bytes.Equal(a, b) {
			e.diverged = fmt.Sprintf("two executions of one specification differ:\n%s\n%s", clip(string(a), 1500), clip(string(b), 1500))
		}
	}
	return r
}

// debugCrash prints the line that crashed and where.
func debugCrash(s *Spec, r *Result) {
	line := ""
	n := 0
	for _, l := range s.Stdin {
		if len(r.Reads) > 0 && n >= r.Reads[len(r.Reads)-1].In {
			break
		}
		line = l
		n += len(l)
	}
	if len(r.Reads) == 0 {
		line = "?"
	}
	frames := ""
	for _, l := range strings.Split(r.Msg, "\n") {
		if strings.HasPrefix(l, "robpike.io/ivy/") && !strings.Contains(l, "zzsim") && !strings.Contains(l, "run.Run") {
			f, _, _ := strings.Cut(l, "(0x")
			frames += " < " + strings.TrimPrefix(f, "robpike.io/ivy/")
		}
	}
	msg, _, _ := strings.Cut(r.Msg, "\n")
	fmt.Printf("CRASH %q: %s %s\n", clip(line, 120), clip(msg, 100), clip(frames, 200))
}

// A Property knows how to generate and check cases.
type Property struct {
	gen   func(r *RNG) *Case
	check func(e *Env, c *Case) *Violation
	race  bool
	rule  string
	// lines may be dropped by the minimiser only if this is not set
	quick, thorough int // seconds
	assume          []string
	real, stub      []string
}

var properties = map[string]*Property{}

func infra(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "driver: "+format+"\n", args...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	totals.faults = map[string]int64{}
	totals.outcomes = map[string]int64{}
	totals.hashes = map[uint64]bool{}
	totals.strategies = map[string]int64{}
	if *replayFlag != "" {
		replay(*replayFlag)
		return
	}
	p := properties[*propFlag]
	if p == nil {
		infra("no such property %q", *propFlag)
	}
	search(*propFlag, p)
}

type found struct {
	c *Case
	v *Violation
}

func makeCase(id string, p *Property, index int64) *Case {
	seed := *seedFlag*1000003 + uint64(index)
	h := uint64(0)
	for _, b := range []byte(id) {
		h = h*131 + uint64(b)
	}
	c := p.gen(newRNG(seed, h))
	c.Prop, c.Index, c.Seed = id, index, seed
	if c.Clock.Wall == 0 {
		c.Clock.Wall = 1700000000e9
	}
	return c
}

func search(id string, p *Property) {
	start := time.Now()
	budget := p.quick
	if *tierFlag == "thorough" {
		budget = p.thorough
	}
	if *budgetFlag > 0 {
		budget = *budgetFlag
	}
	fmt.Printf("driver: property %s tier %s seed %d budget %ds workers %d\n", id, *tierFlag, *seedFlag, budget, *jobsFlag)
	if *onlyFlag >= 0 {
		c := makeCase(id, p, *onlyFlag)
		js, _ := json.MarshalIndent(c, "", " ")
		fmt.Printf("%s\n", js)
		e := &Env{race: p.race}
		v := p.check(e, c)
		fmt.Printf("execs %d nontrivial %v key %s err %v probes %v\n", e.execs, e.nontrivial, e.key, e.err, e.probes)
		if v != nil {
			fmt.Printf("VIOLATES %s: %s\n", v.Class, v.Detail)
		}
		return
	}
	deadline := start.Add(time.Duration(budget) * time.Second)
	var next, evals atomic.Int64
	var mu sync.Mutex
	var all []found
	distinct := map[string]bool{}
	probes := map[string]int64{}
	nontrivial := int64(0)
	kinds := map[string]int64{}
	var samples []map[string]any
	var infraErr error
	var slowCases []int64
	panics := 0
	stop := false
	var wg sync.WaitGroup
	for range *jobsFlag {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				done := stop
				mu.Unlock()
				if done || time.Now().After(deadline) {
					return
				}
				i := next.Add(1) - 1
				if *casesFlag > 0 && i >= *casesFlag {
					return
				}
				c := makeCase(id, p, i)
				e := &Env{race: p.race, twice: *selfFlag}
				v := p.try(e, c)
				evals.Add(1)
				mu.Lock()
				if e.diverged != "" {
					fmt.Printf("NONDETERMINISM case %d: %s\n", i, e.diverged)
					infraErr = errInfra
					stop = true
				}
				if e.err != nil {
					if errors.Is(e.err, errPanic) {
						if panics++; panics == 1 {
							fmt.Printf("driver: case %d: %v\n", i, e.err)
						}
					} else if errors.Is(e.err, errSlow) {
						slowCases = append(slowCases, i)
					} else {
						infraErr = e.err
						stop = true
					}
				} else {
					kinds[c.Kind]++
					for k, n := range e.probes {
						probes[k] += n
					}
					if e.nontrivial {
						nontrivial++
						if e.key == "" {
							e.key = fmt.Sprint(i)
						}
						distinct[e.key] = true
						if len(samples) < 3 {
							samples = append(samples, map[string]any{"case": i, "kind": c.Kind, "lines": clipLines(c.Lines), "faults": c.Faults, "sched": stratName(c.Sched), "procs": c.Procs})
						}
					}
					if v != nil {
						all = append(all, found{c, v})
						if !*keepFlag {
							stop = true
						}
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if infraErr != nil {
		infra("%v", infraErr)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].c.Index < all[j].c.Index })
	known := loadKnown(id)
	var report []found
	for _, f := range all {
		if k := known.match(f); k != "" {
			continue
		}
		report = append(report, f)
	}
	// The search does not report a run that was too slow to judge, but if many
	// are, it has not searched.
	if n := int64(len(slowCases)); n > 3+evals.Load()/50 {
		infra("%d of %d cases too slow, such as %d", n, evals.Load(), slowCases[0])
	}
	if len(report) == 0 && panics > 0 {
		infra("%d of %d cases could not be judged: the check failed", panics, evals.Load())
	}
	if len(report) == 0 && nontrivial == 0 && evals.Load() >= 200 {
		infra("none of %d cases reached what is to be judged", evals.Load())
	}
	for _, k := range known.lines {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	wall := time.Since(start).Seconds()
	code := 0
	if len(report) > 0 {
		code = 1
		n := 1
		if *keepFlag {
			n = min(len(report), 8)
		}
		for _, f := range report[:n] {
			minimizeAndReport(p, f)
		}
	}
	writeEvidence(id, p, wall, evals.Load(), nontrivial, int64(len(distinct)), kinds, probes, samples, len(report), int64(len(slowCases)))
	fmt.Printf("driver: %s: %d cases, %d executions, %d interleavings, %d distinct nontrivial cases, %d violations, %d too slow, %.1fs\n",
		id, evals.Load(), totals.execs, len(totals.hashes), len(distinct), len(report), len(slowCases), wall)
	if len(slowCases) > 0 {
		fmt.Printf("driver: too slow to judge: cases %v\n", slowCases)
	}
	if len(totals.faults) > 0 {
		fmt.Printf("driver: faults injected: %v\n", totals.faults)
	}
	fmt.Printf("driver: probes: %v\n", probes)
	os.Exit(code)
}

func clipLines(l []string) []string {
	var out []string
	for i, s := range l {
		if i == 8 {
			break
		}
		out = append(out, clip(s, 100))
	}
	return out
}

// ---- Known findings ----

type knownSet struct {
	lines []string
	subs  []string
}

// loadKnown reads the lines "finding: property=ID match=<text> what=<description>".
func loadKnown(id string) *knownSet {
	k := &knownSet{}
	if *knownFlag == "" {
		return k
	}
	data, err := os.ReadFile(*knownFlag)
	if err != nil {
		infra("%v", err)
	}
	for _, line := range strings.Split(string(data), "\n") {
		rest, ok := strings.CutPrefix(line, "finding: property="+id+" match=")
		if !ok {
			continue
		}
		m, what, ok := strings.Cut(rest, " what=")
		if !ok {
			infra("bad line in known findings: %s", line)
		}
		k.subs = append(k.subs, m)
		k.lines = append(k.lines, what)
	}
	return k
}

func (k *knownSet) match(f found) string {
	for i, s := range k.subs {
		if strings.Contains(f.v.Class+": "+f.v.Detail, s) {
			return k.lines[i]
		}
	}
	return ""
}

// ---- Replay ----

type replayFile struct {
	Property  string     `json:"property"`
	Violation *Violation `json:"violation"`
	Original  string     `json:"original"` // how it was first seen
	Case      *Case      `json:"case"`
}

func replay(name string) {
	data, err := os.ReadFile(name)
	if err != nil {
		infra("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(data, &rf); err != nil {
		infra("%v", err)
	}
	p := properties[rf.Property]
	if p == nil {
		infra("no such property %q", rf.Property)
	}
	e := &Env{race: p.race}
	v := p.check(e, rf.Case)
	if e.err != nil {
		infra("%v", e.err)
	}
	if v == nil {
		fmt.Printf("replay: property %s held\n", rf.Property)
		return
	}
	fmt.Printf("%s: %s\n", v.Class, v.Detail)
	same := "exactly as recorded"
	if v.Class != rf.Violation.Class || v.Detail != rf.Violation.Detail {
		same = "differently from what was recorded"
	}
	fmt.Printf("replay: violation reproduced %s\n", same)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, name)
	os.Exit(1)
}

func minimizeAndReport(p *Property, f found) {
	c, v := minimize(p, f.c, f.v)
	rf := &replayFile{Property: c.Prop, Violation: v, Case: c,
		Original: fmt.Sprintf("seed %d case %d: %s: %s", *seedFlag, f.c.Index, f.v.Class, clip(f.v.Detail, 2000))}
	js, err := json.MarshalIndent(rf, "", " ")
	if err != nil {
		infra("%v", err)
	}
	if err := os.MkdirAll(*replayDirFlag, 0o777); err != nil {
		infra("%v", err)
	}
	name := filepath.Join(*replayDirFlag, fmt.Sprintf("%s-seed%d-case%d.json", c.Prop, *seedFlag, c.Index))
	if err := os.WriteFile(name, append(js, '\n'), 0o666); err != nil {
		infra("%v", err)
	}
	fmt.Printf("driver: seed %d case %d (%s): %s\n%s\n", *seedFlag, c.Index, c.Kind, v.Class, clip(v.Detail, 4000))
	for _, l := range c.Setup {
		fmt.Printf("  setup: %s\n", clip(l, 200))
	}
	for _, l := range c.Lines {
		fmt.Printf("  line: %s\n", clip(l, 200))
	}
	if len(c.Faults) > 0 {
		fmt.Printf("  faults: %+v\n", c.Faults)
	}
	if c.Sched.Replay {
		fmt.Printf("  schedule: preempt %v, choose %v\n", c.Sched.Pre, c.Sched.Forced)
	} else {
		fmt.Printf("  schedule: %s seed %d\n", stratName(c.Sched), c.Sched.Seed)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, name)
}
