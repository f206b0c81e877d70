// Package zzsim is the deterministic simulator runtime. One process runs one
// simulated execution: every goroutine of the instrumented program is a task,
// exactly one task runs at a time, and a seeded scheduler (or a recorded
// schedule) decides at every scheduling point which.
//
// The package is compiled without race instrumentation and hands the token
// over with race synchronisation events disabled, so that in a race build
// only the program's own synchronisation orders its memory accesses.
package zzsim

import (
	"fmt"
	"runtime"
	"runtime/debug"
)

// Multi is set while more than one task can run.
var Multi bool

const maxTasks = 1 << 12

type task struct {
	id       int
	sem      chan struct{}
	state    int8 // 0 free, 1 runnable, 2 blocked
	keys     [16]uintptr
	nkeys    int
	deadline int64 // simulated monotonic time; 0 is none
	prio     int
	recvs    uintptr
}

var (
	tasks    [maxTasks]*task // live tasks, in increasing id order
	ntasks   int
	nrun     int
	cur      *task
	nextID   int
	steps    int64 // scheduling points passed while more than one task could run
	nextSlow int64
	loops    int64
	forced   int64 // forced choices made
	maxTask  int
	switches int64
	hash     uint64 = 14695981039346656037
	blocks   int64
	started  bool
)

// A Choice records a scheduling decision that differs from the default (keep
// running; when that is impossible, run the lowest numbered task).
type Choice struct {
	At   int64 `json:"at"`
	Task int   `json:"t"`
}

type Sched struct {
	Seed     uint64   `json:"seed"`
	Strategy string   `json:"strategy"` // default, random, pct, lifo, rr, sync, starve
	Mean     int      `json:"mean,omitempty"`
	Depth    int      `json:"depth,omitempty"`
	Replay   bool     `json:"replay,omitempty"`
	Pre      []Choice `json:"pre,omitempty"`    // preemptions, by step
	Forced   []Choice `json:"forced,omitempty"` // forced choices, by decision number
	MaxSteps int64    `json:"maxSteps,omitempty"`
	MaxLoops int64    `json:"maxLoops,omitempty"`
}

var (
	sched     Sched
	schedRNG  RNG
	traceP    []Choice
	nTraceP   int
	traceF    []Choice
	nTraceF   int
	preIdx    int
	forcedIdx int
	starved   int
	changes   [64]int64
	lowPrio   = -1
)

// RNG is splitmix64.
type RNG struct{ s uint64 }

func NewRNG(seed uint64) RNG { return RNG{seed} }

func (r *RNG) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *RNG) Intn(n int) int { return int(r.Uint64() >> 1 % uint64(n)) }

// Finish is called, once, with the outcome of the execution. It must not return.
var Finish func(outcome string, code int, msg string)

var finished bool

func finish(outcome string, code int, msg string) {
	if finished {
		if done := draining; done != nil {
			draining = nil
			done(ntasks)
		}
		select {}
	}
	finished = true
	Multi = false
	raceDisable()
	Finish(outcome, code, msg)
	panic("unreachable")
}

var draining func(live int)

// Drain lets the tasks that are left when the program ends run on for a while,
// in order, and tells done how many of all tasks are still there when no other
// can go on: a task that was told to stop but has not run since is not left
// behind. What the program did is to be taken down before.
func Drain(done func(live int)) {
	if ntasks <= 1 || cur == nil {
		done(ntasks)
	}
	draining = done
	sched.Strategy = "default"
	sched.Replay = false
	sched.MaxSteps = steps + 1e5
	sched.MaxLoops = loops + 1e5
	nextSlow = sched.MaxSteps
	me := cur
	me.state, me.nkeys, me.deadline = 2, 0, 0
	nrun--
	t := pick()
	cur = t
	t.sem <- struct{}{}
	select {}
}

// Exit ends the simulated process.
func Exit(code int) { finish("exit", code, "") }

// Kill ends the simulated process as a crash of the machine would.
func Kill() { finish("killed", 137, "") }

// Run runs main as the first task, under the given schedule.
func Run(s Sched, main func()) {
	sched = s
	if sched.MaxSteps == 0 {
		sched.MaxSteps = 20e6
	}
	if sched.MaxLoops == 0 {
		sched.MaxLoops = 60e6
	}
	if sched.Mean <= 0 {
		sched.Mean = 10
	}
	schedRNG = NewRNG(s.Seed ^ 0x5eed)
	traceP = make([]Choice, 1<<12)
	traceF = make([]Choice, 1<<12)
	if sched.Strategy == "pct" {
		for i := 0; i < sched.Depth && i < len(changes); i++ {
			changes[i] = 1 + int64(schedRNG.Intn(sched.Mean*20))
		}
	}
	if sched.Strategy == "starve" {
		starved = 1 + schedRNG.Intn(8)
	}
	t := newTask()
	cur = t
	started = true
	setNext()
	defer func() {
		if e := recover(); e != nil {
			crash(e)
		}
	}()
	main()
	finish("exit", 0, "")
}

func crash(e any) {
	finish("crash", 2, fmt.Sprintf("panic: %v\n%s", e, debug.Stack()))
}

func newTask() *task {
	t := &task{id: nextID, sem: make(chan struct{}, 1), state: 1}
	nextID++
	if ntasks == maxTasks {
		finish("noprogress", 2, "too many goroutines")
	}
	tasks[ntasks] = t
	ntasks++
	if ntasks > maxTask {
		maxTask = ntasks
	}
	nrun++
	Multi = nrun > 1
	if !sched.Replay && sched.Strategy == "pct" {
		t.prio = 1 + schedRNG.Intn(1<<20)
	}
	return t
}

// Go starts a task.
func Go(f func()) {
	if !started {
		// Package initialisation: not part of the simulation.
		panic("zzsim: goroutine started during initialisation")
	}
	t := newTask()
	go func() {
		raceDisable()
		<-t.sem
		raceEnable()
		ok := false
		defer func() {
			if e := recover(); e != nil {
				crash(e)
			}
			if !ok {
				// runtime.Goexit
			}
			exitTask(t)
		}()
		f()
		ok = true
	}()
	if !sched.Replay && sched.Strategy == "pct" && t.prio > cur.prio {
		nextSlow = steps + 1
	}
	Point()
}

func exitTask(t *task) {
	i := 0
	for tasks[i] != t {
		i++
	}
	for ; i+1 < ntasks; i++ {
		tasks[i] = tasks[i+1]
	}
	ntasks--
	tasks[ntasks] = nil
	nrun--
	t.state = 0
	next := pick()
	cur = next
	note(next.id)
	raceDisable()
	next.sem <- struct{}{}
	raceEnable()
}

func note(id int) {
	switches++
	hash = (hash ^ uint64(steps)) * 1099511628211
	hash = (hash ^ uint64(id)) * 1099511628211
}

// pick chooses the next task when the current one cannot go on.
func pick() *task {
	for nrun == 0 {
		var first *task
		for i := 0; i < ntasks; i++ {
			t := tasks[i]
			if t.state == 2 && t.deadline != 0 && (first == nil || t.deadline < first.deadline) {
				first = t
			}
		}
		if first == nil {
			msg := ""
			for i := 0; i < ntasks; i++ {
				msg += fmt.Sprintf("task %d blocked; ", tasks[i].id)
			}
			finish("deadlock", 2, msg)
		}
		if first.deadline > Mono {
			Advance(first.deadline - Mono)
		}
		wakeTimers()
	}
	Multi = nrun > 1
	var def *task
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == 1 {
			def = tasks[i]
			break
		}
	}
	if nrun == 1 {
		return def
	}
	n := forced
	forced++
	choice := def
	if sched.Replay {
		for forcedIdx < len(sched.Forced) && sched.Forced[forcedIdx].At < n {
			forcedIdx++
		}
		if forcedIdx < len(sched.Forced) && sched.Forced[forcedIdx].At == n {
			if t := runnable(sched.Forced[forcedIdx].Task); t != nil {
				choice = t
			}
		}
	} else {
		choice = strategyPick(nil)
	}
	if choice != def {
		traceF, nTraceF = record(traceF, nTraceF, Choice{n, choice.id})
	}
	return choice
}

func record(tr []Choice, n int, c Choice) ([]Choice, int) {
	if n == len(tr) {
		bigger := make([]Choice, 2*n)
		for i := range tr {
			bigger[i] = tr[i]
		}
		tr = bigger
	}
	tr[n] = c
	return tr, n + 1
}

func runnable(id int) *task {
	for i := 0; i < ntasks; i++ {
		if tasks[i].id == id && tasks[i].state == 1 {
			return tasks[i]
		}
	}
	return nil
}

// strategyPick chooses among the runnable tasks other than not.
func strategyPick(not *task) *task {
	var first, last, best *task
	n := 0
	for i := 0; i < ntasks; i++ {
		t := tasks[i]
		if t.state != 1 || t == not {
			continue
		}
		if first == nil {
			first = t
		}
		last = t
		if best == nil || t.prio > best.prio {
			best = t
		}
		n++
	}
	if n <= 1 {
		return first
	}
	switch sched.Strategy {
	case "", "default":
		return first
	case "lifo":
		return last
	case "pct":
		return best
	case "rr":
		// The next one after the current.
		for i := 0; i < ntasks; i++ {
			if t := tasks[i]; t.state == 1 && t != not && t.id > cur.id {
				return t
			}
		}
		return first
	}
	k := schedRNG.Intn(n)
	for i := 0; i < ntasks; i++ {
		t := tasks[i]
		if t.state != 1 || t == not {
			continue
		}
		if k == 0 {
			if sched.Strategy == "starve" && t.id%8 == starved%8 {
				if t == last {
					return first
				}
				return last
			}
			return t
		}
		k--
	}
	return first
}

// setNext sets the step at which the scheduler next considers a preemption.
func setNext() {
	nextSlow = sched.MaxSteps
	var at int64
	switch {
	case sched.Replay:
		for preIdx < len(sched.Pre) && sched.Pre[preIdx].At <= steps {
			preIdx++
		}
		if preIdx < len(sched.Pre) {
			at = sched.Pre[preIdx].At
		}
	case sched.Strategy == "random" || sched.Strategy == "starve":
		// Roughly geometric.
		at = steps + 1 + int64(schedRNG.Intn(2*sched.Mean))
	case sched.Strategy == "rr":
		at = steps + int64(sched.Mean)
	case sched.Strategy == "pct":
		for i := 0; i < sched.Depth && i < len(changes); i++ {
			if changes[i] > steps && (at == 0 || changes[i] < at) {
				at = changes[i]
			}
		}
	}
	if at != 0 && at < nextSlow {
		nextSlow = at
	}
}

// Y is a scheduling point between two statements.
//
//go:noinline
func Y() {
	steps++
	if steps >= nextSlow {
		slow(false)
	}
}

// Point is a scheduling point at a synchronisation operation.
//
//go:noinline
func Point() {
	if !Multi {
		return
	}
	steps++
	if steps >= nextSlow || sched.Strategy == "sync" && !sched.Replay {
		slow(true)
	}
}

func slow(sync bool) {
	if steps >= sched.MaxSteps {
		finish("noprogress", 2, fmt.Sprintf("more than %d scheduling points", sched.MaxSteps))
	}
	var t *task
	if sched.Replay {
		for preIdx < len(sched.Pre) && sched.Pre[preIdx].At < steps {
			preIdx++
		}
		if preIdx < len(sched.Pre) && sched.Pre[preIdx].At == steps {
			t = runnable(sched.Pre[preIdx].Task)
		}
	} else {
		switch sched.Strategy {
		case "random", "rr", "starve":
			t = strategyPick(cur)
		case "sync":
			if sync && schedRNG.Intn(2) == 0 {
				t = strategyPick(cur)
			}
		case "pct":
			for i := 0; i < sched.Depth && i < len(changes); i++ {
				if changes[i] == steps {
					cur.prio = lowPrio
					lowPrio--
				}
			}
			t = strategyPick(nil)
		}
	}
	setNext()
	if t == nil || t == cur {
		return
	}
	traceP, nTraceP = record(traceP, nTraceP, Choice{steps, t.id})
	switchTo(t)
}

func switchTo(t *task) {
	me := cur
	if t == me {
		return
	}
	cur = t
	note(t.id)
	raceDisable()
	t.sem <- struct{}{}
	<-me.sem
	raceEnable()
}

// L counts loop iterations, to stop an execution that makes no progress.
//
//go:noinline
func L() {
	loops++
	if loops > sched.MaxLoops && started {
		finish("noprogress", 2, fmt.Sprintf("more than %d loop iterations", sched.MaxLoops))
	}
}

// block makes the current task wait until one of its keys is woken or its
// deadline passes.
func block(deadline int64, nkeys int) {
	if !started {
		panic("zzsim: blocked during initialisation")
	}
	me := cur
	blocks++
	me.state = 2
	me.deadline = deadline
	me.nkeys = nkeys
	nrun--
	t := pick()
	if t == me {
		return
	}
	switchTo(t)
}

func wake(key uintptr) {
	for i := 0; i < ntasks; i++ {
		t := tasks[i]
		if t.state != 2 {
			continue
		}
		for k := 0; k < t.nkeys; k++ {
			if t.keys[k] == key {
				t.state = 1
				nrun++
				break
			}
		}
	}
	Multi = nrun > 1
}

func wakeTimers() {
	for i := 0; i < ntasks; i++ {
		t := tasks[i]
		if t.state == 2 && t.deadline != 0 && t.deadline <= Mono {
			t.state = 1
			nrun++
		}
	}
	Multi = nrun > 1
}

// WaitOn blocks the current task until Wake(key).
func WaitOn(key uintptr) {
	cur.keys[0] = key
	block(0, 1)
}

// Wake makes every task waiting on key runnable.
func Wake(key uintptr) { wake(key) }

// Sleep blocks the current task for d nanoseconds of simulated time.
func Sleep(d int64) {
	if d <= 0 {
		Point()
		return
	}
	block(Mono+d, 0)
}

// Gosched lets some other task run.
func Gosched() { Point() }

// Goexit ends the current task.
func Goexit() { runtime.Goexit() }

func NumTasks() int { return ntasks }

// Stats describes the schedule that was executed.
type Stats struct {
	Steps    int64    `json:"steps"`
	Switches int64    `json:"switches"`
	Blocks   int64    `json:"blocks"`
	Tasks    int      `json:"tasks"`
	MaxTasks int      `json:"maxTasks"`
	Loops    int64    `json:"loops"`
	Hash     uint64   `json:"hash"`
	Pre      []Choice `json:"pre,omitempty"`
	Forced   []Choice `json:"forced,omitempty"`
	Live     int      `json:"live"`
}

func GetStats() Stats {
	return Stats{
		Steps: steps, Switches: switches, Blocks: blocks, Tasks: nextID, MaxTasks: maxTask, Loops: loops, Hash: hash,
		Pre: traceP[:nTraceP], Forced: traceF[:nTraceF], Live: ntasks,
	}
}
