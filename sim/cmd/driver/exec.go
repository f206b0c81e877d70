package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// These mirror the types of the worker and of the simulator runtime.

type Choice struct {
	At   int64 `json:"at"`
	Task int   `json:"t"`
}

type Sched struct {
	Seed     uint64   `json:"seed"`
	Strategy string   `json:"strategy"`
	Mean     int      `json:"mean,omitempty"`
	Depth    int      `json:"depth,omitempty"`
	Replay   bool     `json:"replay,omitempty"`
	Pre      []Choice `json:"pre,omitempty"`
	Forced   []Choice `json:"forced,omitempty"`
	MaxSteps int64    `json:"maxSteps,omitempty"`
	MaxLoops int64    `json:"maxLoops,omitempty"`
}

type Jump struct {
	Call  int64 `json:"call"`
	Delta int64 `json:"delta"`
}

type Clock struct {
	Wall  int64  `json:"wall"`
	Tick  int64  `json:"tick"`
	Jumps []Jump `json:"jumps,omitempty"`
	TZ    string `json:"tz,omitempty"`
}

type Fault struct {
	Op   string `json:"op"`
	N    int    `json:"n"`
	Err  string `json:"err"`
	Keep int    `json:"keep,omitempty"`
	File string `json:"file,omitempty"`
	All  bool   `json:"all,omitempty"`
	At   int    `json:"at,omitempty"`
}

type FS struct {
	Files   map[string]string `json:"files,omitempty"`
	Faults  []Fault           `json:"faults,omitempty"`
	FDLimit int               `json:"fdLimit,omitempty"`
	KillOp  int               `json:"killOp,omitempty"`
	Short   int               `json:"short,omitempty"`
	Seed    uint64            `json:"seed,omitempty"`
}

type MobileCall struct {
	Op  string `json:"op"`
	Arg string `json:"arg,omitempty"`
}

type MobileResult struct {
	Out string `json:"out"`
	Err string `json:"err,omitempty"`
}

type POp struct {
	Op  string  `json:"op"`
	T   int     `json:"t,omitempty"`
	S   int     `json:"s,omitempty"`
	I   int     `json:"i,omitempty"`
	J   int     `json:"j,omitempty"`
	N   int     `json:"n,omitempty"`
	V   int     `json:"v,omitempty"`
	Par [][]POp `json:"par,omitempty"`
}

type Spec struct {
	Kind     string       `json:"kind"`
	Args     []string     `json:"args,omitempty"`
	Stdin    []string     `json:"stdin,omitempty"`
	StdinErr string       `json:"stdinErr,omitempty"`
	FS       FS           `json:"fs"`
	Clock    Clock        `json:"clock"`
	Procs    int          `json:"procs,omitempty"`
	MinWork  bool         `json:"minWork,omitempty"`
	SeamSeed uint64       `json:"seamSeed,omitempty"`
	Sched    Sched        `json:"sched"`
	Mobile   []MobileCall `json:"mobile,omitempty"`
	Persist  []POp        `json:"persist,omitempty"`
}

type ReadEvent struct {
	Out  int   `json:"out"`
	Err  int   `json:"err"`
	In   int   `json:"in"`
	Clk  int   `json:"clk"`
	Mono int64 `json:"mono"`
}

type Stats struct {
	Steps    int64    `json:"steps"`
	Switches int64    `json:"switches"`
	Blocks   int64    `json:"blocks"`
	Tasks    int      `json:"tasks"`
	MaxTasks int      `json:"maxTasks"`
	Loops    int64    `json:"loops"`
	Hash     uint64   `json:"hash"`
	Pre      []Choice `json:"pre,omitempty"`
	Forced   []Choice `json:"forced,omitempty"`
	Live     int      `json:"live"`
}

type Result struct {
	Outcome   string            `json:"outcome"`
	Exit      int               `json:"exit"`
	Msg       string            `json:"msg,omitempty"`
	Stdout    string            `json:"stdout"`
	Stderr    string            `json:"stderr"`
	Reads     []ReadEvent       `json:"reads,omitempty"`
	Files     map[string]string `json:"files,omitempty"`
	Open      []string          `json:"open,omitempty"`
	MaxOpen   int               `json:"maxOpen,omitempty"`
	Opened    int               `json:"opened,omitempty"`
	FSOps     int               `json:"fsOps,omitempty"`
	Faults    map[string]int64  `json:"faults,omitempty"`
	Stats     Stats             `json:"stats"`
	SimNS     int64             `json:"simNS"`
	Readings  []int64           `json:"readings,omitempty"`
	Races     int               `json:"races,omitempty"`
	Mobile    []MobileResult    `json:"mobile,omitempty"`
	Violation string            `json:"violation,omitempty"`
	Checks    int64             `json:"checks,omitempty"`
	RaceText  string            `json:"-"`
}

// Text that need not be UTF-8 travels as bytes.

func (s *Spec) MarshalJSON() ([]byte, error) {
	type spec Spec
	type fs FS
	w := struct {
		*spec
		Stdin [][]byte `json:"stdin,omitempty"`
		FS    struct {
			*fs
			Files map[string][]byte `json:"files,omitempty"`
		} `json:"fs"`
	}{spec: (*spec)(s)}
	for _, x := range s.Stdin {
		w.Stdin = append(w.Stdin, []byte(x))
	}
	w.FS.fs = (*fs)(&s.FS)
	w.FS.Files = map[string][]byte{}
	for n, x := range s.FS.Files {
		w.FS.Files[n] = []byte(x)
	}
	return json.Marshal(&w)
}

func (r *Result) UnmarshalJSON(data []byte) error {
	type result Result
	w := struct {
		*result
		Stdout []byte            `json:"stdout"`
		Stderr []byte            `json:"stderr"`
		Files  map[string][]byte `json:"files"`
	}{result: (*result)(r)}
	if err := json.Unmarshal(data, &w); err != nil {
		return err
	}
	r.Stdout, r.Stderr = string(w.Stdout), string(w.Stderr)
	r.Files = map[string]string{}
	for n, x := range w.Files {
		r.Files[n] = string(x)
	}
	return nil
}

// errInfra marks trouble with the machinery itself; it is never a violation.
var errPanic = errors.New("the check panicked")

// try checks a case; a panic of the check itself is not a verdict.
func (p *Property) try(e *Env, c *Case) (v *Violation) {
	defer func() {
		if x := recover(); x != nil {
			v = nil
			e.err = fmt.Errorf("%w: %v\n%s", errPanic, x, debug.Stack())
		}
	}()
	return p.check(e, c)
}

var errInfra = errors.New("infrastructure")

// errSlow marks an execution abandoned because it took too long in real time.
var errSlow = errors.New("too slow")

// totals over all executions.
var totals struct {
	sync.Mutex
	execs      int64
	steps      int64
	switches   int64
	simNS      int64
	tasks      int64
	multi      int64 // executions with more than one task
	faults     map[string]int64
	outcomes   map[string]int64
	hashes     map[uint64]bool
	strategies map[string]int64
	checks     int64
	loops      int64
	clockReads int64
}

var slowCount atomic.Int64

const wedge = 40 * time.Second

// run executes one specification in a fresh worker process.
func run(s *Spec, race bool) (*Result, error) {
	js, err := json.Marshal(s)
	if err != nil {
		return nil, fmt.Errorf("%w: %v", errInfra, err)
	}
	bin := *workerFlag
	limit := wedge
	if race {
		bin = *raceWorkerFlag
		limit = 25 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Stdin = bytes.NewReader(js)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GORACE=atexit_sleep_ms=0 halt_on_error=0 exitcode=0 history_size=3", "GODEBUG=", "GOTRACEBACK=single")
	err = cmd.Run()
	if ctx.Err() != nil {
		slowCount.Add(1)
		return nil, errSlow
	}
	r := new(Result)
	if jerr := json.Unmarshal(out.Bytes(), r); jerr != nil || err != nil {
		// The process died: a fatal error of the Go runtime (stack overflow,
		// out of memory, ...) in the simulated program.
		text := errb.String()
		if strings.Contains(text, "fatal error:") || strings.Contains(text, "goroutine ") {
			r = &Result{Outcome: "crash", Exit: 2, Msg: clip(text, 3000)}
		} else {
			return nil, fmt.Errorf("%w: worker: %v: %s", errInfra, err, clip(text, 1000))
		}
	}
	if race {
		r.RaceText = errb.String()
	}
	totals.Lock()
	defer totals.Unlock()
	totals.execs++
	totals.steps += r.Stats.Steps
	totals.switches += r.Stats.Switches
	totals.simNS += r.SimNS
	totals.tasks += int64(r.Stats.Tasks)
	totals.checks += r.Checks
	totals.loops += r.Stats.Loops
	totals.clockReads += int64(len(r.Readings))
	if r.Stats.Tasks > 1 {
		totals.multi++
		if len(totals.hashes) < 5e6 {
			totals.hashes[r.Stats.Hash] = true
		}
		totals.strategies[stratName(s.Sched)]++
	}
	for k, v := range r.Faults {
		totals.faults[k] += v
	}
	totals.outcomes[r.Outcome]++
	return r, nil
}

func stratName(s Sched) string {
	if s.Replay {
		return "replay"
	}
	switch s.Strategy {
	case "random", "rr", "starve":
		return fmt.Sprintf("%s/%d", s.Strategy, s.Mean)
	case "pct":
		return fmt.Sprintf("pct/%d", s.Depth)
	}
	return s.Strategy
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
