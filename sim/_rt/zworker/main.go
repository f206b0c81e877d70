// Command zworker runs one simulated execution: it reads a JSON specification
// from standard input and writes a JSON result to standard output.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"runtime/debug"
	"strings"
	"time"
	_ "time/tzdata"

	"robpike.io/ivy/demo"
	"robpike.io/ivy/mobile"
	"robpike.io/ivy/value"
	"robpike.io/ivy/zzmain"
	"robpike.io/ivy/zzsim"
	"robpike.io/ivy/zzsim/zos"
	"robpike.io/ivy/zzsim/zruntime"
)

type Spec struct {
	Kind     string          `json:"kind"`
	Args     []string        `json:"args,omitempty"`
	Stdin    [][]byte        `json:"stdin,omitempty"`
	StdinErr string          `json:"stdinErr,omitempty"`
	FS       zzsim.FSSpec    `json:"fs"`
	Clock    zzsim.ClockSpec `json:"clock"`
	Procs    int             `json:"procs,omitempty"`
	MinWork  bool            `json:"minWork,omitempty"`
	SeamSeed uint64          `json:"seamSeed,omitempty"`
	Sched    zzsim.Sched     `json:"sched"`
	Mobile   []MobileCall    `json:"mobile,omitempty"`
	Persist  []POp           `json:"persist,omitempty"`
}

type MobileCall struct {
	Op  string `json:"op"` // eval, reset, demo, next
	Arg string `json:"arg,omitempty"`
}

type MobileResult struct {
	Out string `json:"out"`
	Err string `json:"err,omitempty"`
}

type Result struct {
	Outcome   string            `json:"outcome"`
	Exit      int               `json:"exit"`
	Msg       string            `json:"msg,omitempty"`
	Stdout    []byte            `json:"stdout"`
	Stderr    []byte            `json:"stderr"`
	Reads     []zzsim.ReadEvent `json:"reads,omitempty"`
	Files     map[string][]byte `json:"files,omitempty"`
	Open      []string          `json:"open,omitempty"`
	MaxOpen   int               `json:"maxOpen,omitempty"`
	Opened    int               `json:"opened,omitempty"`
	FSOps     int               `json:"fsOps,omitempty"`
	Faults    map[string]int64  `json:"faults,omitempty"`
	Stats     zzsim.Stats       `json:"stats"`
	SimNS     int64             `json:"simNS"`
	Readings  []int64           `json:"readings,omitempty"`
	Races     int               `json:"races,omitempty"`
	Mobile    []MobileResult    `json:"mobile,omitempty"`
	Violation string            `json:"violation,omitempty"` // found by an in-process model
	Checks    int64             `json:"checks,omitempty"`    // comparisons against it
}

var (
	mobileResults []MobileResult
	violation     string
	checks        int64
)

func main() {
	debug.SetGCPercent(400)
	data, err := io.ReadAll(os.Stdin)
	if err != nil {
		fmt.Fprintln(os.Stderr, "zworker:", err)
		os.Exit(3)
	}
	var s Spec
	if err := json.Unmarshal(data, &s); err != nil {
		fmt.Fprintln(os.Stderr, "zworker:", err)
		os.Exit(3)
	}
	zzsim.Finish = finish
	if s.Procs > 0 {
		zruntime.Procs = s.Procs
	}
	if s.Clock.TZ == "" {
		s.Clock.TZ = "UTC"
	}
	loc, err := time.LoadLocation(s.Clock.TZ)
	if err != nil {
		fmt.Fprintln(os.Stderr, "zworker:", err)
		os.Exit(3)
	}
	time.Local = loc
	zzsim.SetClock(s.Clock)
	zzsim.SetFS(s.FS)
	var stdin []string
	for _, b := range s.Stdin {
		stdin = append(stdin, string(b))
	}
	zzsim.SetStdin(stdin, s.StdinErr)
	zzsim.SeedSeams(s.SeamSeed)
	if s.MinWork {
		value.MaxParallelismForTesting()
	}
	os.Args = append([]string{"ivy"}, s.Args...)
	flag.CommandLine.Init("ivy", flag.PanicOnError)
	flag.CommandLine.SetOutput(zos.Stderr)
	var f func()
	switch s.Kind {
	case "main":
		f = func() {
			defer func() {
				// A bad flag: what flag.ExitOnError would have done.
				e := recover()
				if err, ok := e.(error); ok && strings.Contains(string(debug.Stack()), "flag.(*FlagSet)") {
					if err == flag.ErrHelp {
						zzsim.Exit(0)
					}
					zzsim.Exit(2)
				}
				if e != nil {
					panic(e)
				}
			}()
			zzmain.Main()
		}
	case "mobile":
		f = func() { runMobile(s.Mobile) }
	case "demotext":
		f = func() { zos.Stdout.Write([]byte(demo.Text())) }
	case "persist":
		f = func() { runPersist(s.Persist) }
	default:
		fmt.Fprintln(os.Stderr, "zworker: unknown kind", s.Kind)
		os.Exit(3)
	}
	zzsim.Run(s.Sched, f)
}

func finish(outcome string, code int, msg string) {
	r := Result{
		Outcome: outcome, Exit: code, Msg: msg,
		Stdout: zzsim.Stdout, Stderr: zzsim.Stderr,
		Reads: zzsim.Reads, Files: zzsim.Snapshot(), Open: zzsim.OpenNames(), MaxOpen: zzsim.MaxOpen, Opened: zzsim.Opened, FSOps: zzsim.FSOps(),
		Faults: zzsim.FaultCounts.Map(), Stats: zzsim.GetStats(), SimNS: zzsim.Mono, Readings: zzsim.Readings,
		Races: zzsim.RaceErrors(), Mobile: mobileResults, Violation: violation, Checks: checks,
	}
	if outcome == "exit" {
		zzsim.Drain(func(live int) {
			r.Stats.Live = live
			report(&r)
		})
	}
	report(&r)
}

func report(r *Result) {
	b, err := json.Marshal(r)
	if err != nil {
		fmt.Fprintln(os.Stderr, "zworker:", err)
		os.Exit(3)
	}
	os.Stdout.Write(b)
	os.Exit(0)
}

func runMobile(calls []MobileCall) {
	mobile.Reset()
	var d *mobile.Demo
	for _, c := range calls {
		var out string
		var err error
		switch c.Op {
		case "eval":
			out, err = mobile.Eval(c.Arg)
		case "reset":
			mobile.Reset()
		case "demo":
			d = mobile.NewDemo(c.Arg)
		case "next":
			if d == nil {
				continue
			}
			out, err = d.Next()
		case "help":
			out = mobile.Help()
		}
		r := MobileResult{Out: out}
		if err != nil {
			r.Err = err.Error()
		}
		mobileResults = append(mobileResults, r)
	}
}
