package main

import (
	"fmt"
	"strings"
	"sync"
)

// C11: the demo.

func init() {
	properties["C11"] = &Property{
		gen: genC11, check: checkC11, quick: 45, thorough: 900,
		rule: "a case is a session that runs the demo one or more times (blank lines that advance the script, lines of the user's own, some of them failing, defining operators, changing settings or computing in parallel; ended by quit, by the end of the script, by the end of the input or by a failing read), with the demo's interpreter running as a task of its own under a seeded schedule; it is non-trivial if the demo's interpreter was given a line; distinct by the input and the interleaving",
	}
}

var demoOnce struct {
	sync.Once
	lines []string
	err   error
}

// demoScript returns the lines of the demo.
func demoScript(e *Env) []string {
	demoOnce.Do(func() {
		r, err := run(&Spec{Kind: "demotext", Sched: Sched{Strategy: "default"}, Clock: Clock{Wall: 1700000000e9}}, e.race)
		if err != nil {
			demoOnce.err = err
			return
		}
		demoOnce.lines = strings.Split(strings.TrimSuffix(r.Stdout, "\n"), "\n")
	})
	if demoOnce.err != nil {
		e.err = demoOnce.err
		return nil
	}
	return demoOnce.lines
}

func genC11(r *RNG) *Case {
	c := &Case{Kind: r.pick("quit", "quit", "quit", "eof", "twice", "twice", "whole", "readerr", "edge"), Procs: r.rng(1, 4), MinWork: r.p(1, 2), Sched: genSched(r), SeamSeed: r.u64() >> 12}
	if c.Kind == "whole" && r.p(1, 2) {
		c.Kind = "quit"
	}
	c.Sched.MaxSteps = 40e6
	g := newGen(r, false)
	// Before.
	c.Setup = append(c.Setup, r.pick("x = 5", "x = 1 2 3"), "op sqr n = n*n", r.pick(")origin 0", ")format '%.3f'", ")seed 9", "y = 7", ")obase 16", ")prompt '> '", "a = 3"), r.pick("11+11", "'before'"))
	// In the demo.
	demo := func(n int) {
		for i := 0; i < n; i++ {
			switch r.n(10) {
			case 0:
				c.Lines = append(c.Lines, r.pick("2*3", "x", "x = 10", "y = x", "_", "_+1", "iota 5", "'text'", "a", "?100", "rand 3", "3?10", "sqr 4"))
			case 1:
				c.Lines = append(c.Lines, r.pick("1 +", "nope", "1/0", "(2", "'abc", ")nope", "2 3 + 1 2 3", "iota -1", ")get 'missing'"))
			case 2:
				c.Lines = append(c.Lines, r.pick(")origin 0", ")origin", ")base", ")obase 8", ")obase 0", ")prec 100", ")format '%.2f'", ")format ''", "op dbl x = x+x", "dbl 4", ")op dbl", ")var", ")seed 3", ")maxstack 40", ")help rho", "# comment", "   ", "op tri x =", " x*3", "tri 3"))
			case 3:
				c.Lines = append(c.Lines, r.pick("v = iota 30", "v * v", "v o.* v", "+/v", "(5 6 rho v) +.* 6 5 rho v", "v / v - 7", "-\\ v", "up v", "1000 rho 'abc'", "iota 300"))
			case 4:
				if r.p(1, 8) {
					c.Lines = append(c.Lines, longLine(r))
					break
				}
				c.Lines = append(c.Lines, r.pick(g.intLit()+" + "+g.intLit(), g.ratLit()+" * "+g.ratLit(), g.complexLit()+" - "+g.intLit()))
			default:
				c.Lines = append(c.Lines, "")
			}
		}
	}
	k := r.rng(1, 50)
	if c.Kind == "whole" {
		// To the end of the script, or near it, or beyond.
		n := r.rng(276, 290)
		for n > 0 {
			b := r.rng(1, 60)
			for ; b > 0 && n > 0; b-- {
				c.Lines = append(c.Lines, "")
				n--
			}
			demo(r.n(3))
		}
		k = r.n(4)
		c.Sched = Sched{Seed: r.u64() >> 12, Strategy: "random", Mean: r.rng(2000, 200000), MaxSteps: 400e6, MaxLoops: 200e6}
	}
	switch c.Kind {
	case "edge":
		for i := r.n(6); i > 0; i-- {
			c.Lines = append(c.Lines, r.pick("", "", "quit ", " quit", "quitx", "quit\r", "op q x =", "'abc"))
		}
		c.Lines = append(c.Lines, "quit")
	case "twice":
		for i := r.rng(2, 3); i > 0; i-- {
			demo(k / 2)
			c.Lines = append(c.Lines, "quit")
			if i > 1 {
				c.Lines = append(c.Lines, r.pick("x", "_", "1+1", "y = 8", "op sqr x = x+1"), ")demo")
			}
		}
	case "eof", "readerr":
		demo(k)
	default:
		demo(k)
		if c.Kind == "whole" && r.p(1, 2) {
			break
		}
		c.Lines = append(c.Lines, "quit")
	}
	if c.Kind == "readerr" {
		c.StdinErr = r.pick("EIO", "EINTR", "EISDIR", "EIO-once", "EINTR-once")
	}
	// After.
	c.Extra = append(c.Extra, "x", "_", ")origin", ")base", ")format", "sqr 3", "y", dumpCmd, ")seed 4", "?1000 1000", "dbl 3", ")op", "v", "a", "1+1")
	if c.Kind == "eof" || c.Kind == "readerr" {
		c.Extra = nil
	}
	return c
}

// A demoStep is what one line of input leads to.
type demoStep struct {
	line  string // as typed
	where string // main, demo, start or end
	echo  string // the line of the script shown
	sent  int    // the number of the line sent to the demo's interpreter, from 0
	run   int    // the number of the demo
}

// demoModel says where each line of input goes.
func demoModel(input, script []string) []demoStep {
	var steps []demoStep
	in := false
	var text []string
	runs, sent := -1, 0
	for _, l := range input {
		s := demoStep{line: l, where: "main", run: runs}
		switch {
		case !in && strings.TrimSpace(l) == ")demo":
			in = true
			runs++
			s.run, s.where, sent = runs, "start", 0
			text = script
			if len(text) > 0 {
				s.echo = text[0]
				text = text[1:]
			}
		case !in:
		case strings.TrimSuffix(l, "\r") != "":
			if strings.TrimSpace(l) == "quit" {
				s.where, in = "end", false
				break
			}
			s.where, s.sent = "demo", sent
			sent++
		case len(text) == 0:
			s.where, in = "end", false
		default:
			s.where, s.echo, s.sent = "demo", text[0], sent
			text = text[1:]
			sent++
		}
		steps = append(steps, s)
	}
	return steps
}

func checkC11(e *Env, c *Case) *Violation {
	script := demoScript(e)
	if e.err != nil {
		return nil
	}
	input := cat(c.Setup, []string{")demo"}, c.Lines, c.Extra)
	steps := demoModel(input, script)
	s := c.spec(input)
	s.StdinErr = c.StdinErr
	got := e.run(s)
	if got == nil {
		return nil
	}
	fail := func(v *Violation) *Violation { v.sched = got; return v }
	if got.Outcome == "noprogress" {
		p := plain(s)
		q := e.run(p)
		if q == nil || bad(q) {
			e.probe("baseline-noprogress")
			return nil
		}
	}
	if bad(got) {
		return badViol("running the demo", got)
	}
	// The same lines to fresh interpreters, and to one that runs no demo.
	var main []string
	sent := map[int][]string{}
	for _, st := range steps {
		switch st.where {
		case "main":
			main = append(main, st.line)
		case "demo":
			l := st.line
			if st.echo != "" || strings.TrimSuffix(l, "\r") == "" {
				l = st.echo
			}
			sent[st.run] = append(sent[st.run], l)
			e.nontrivial = true
		}
	}
	e.key = fmt.Sprint(got.Stats.Hash, input)
	e.probe(c.Kind)
	fresh := map[int][]LineOut{}
	for n, l := range sent {
		// The demo's interpreter starts with the default settings, not the
		// command's.
		lines := cat([]string{")seed 0", ")maxbits 1000000"}, l)
		p := plain(c.spec(lines))
		r := e.run(p)
		if r == nil {
			return nil
		}
		if bad(r) {
			return e.baseline(r)
		}
		fresh[n] = byLine(r, lines)
	}
	mr := e.run(plain(c.spec(main)))
	if mr == nil {
		return nil
	}
	if bad(mr) {
		return e.baseline(mr)
	}
	mainOut := byLine(mr, main)
	outs := byLine(got, input)
	if len(outs) != len(input)+1 && c.StdinErr == "" {
		return fail(viol("ended", "the session ends after %d lines of %d: %s", len(outs)-1, len(input), clip(tail2(got.Stderr, 300), 300)))
	}
	norm := func(s string) string { return squeeze(locRE.ReplaceAllString(s, "")) }
	mi := 0
	prompt := ""
	for i, st := range steps {
		if i+1 >= len(outs) {
			break
		}
		o := outs[i+1]
		wantOut, wantErr := "", ""
		switch st.where {
		case "main":
			mi++
			if mi >= len(mainOut) {
				return fail(viol("ended", "the session without the demo is shorter"))
			}
			wantOut, wantErr = mainOut[mi].Out, mainOut[mi].Err
			if j := strings.LastIndexByte(wantOut, '\n'); j >= 0 {
				prompt = wantOut[j+1:]
			}
			if i == len(steps)-1 && strings.TrimSpace(wantOut) == strings.TrimSpace(o.Out) {
				o.Out = wantOut
			}
			if a, b := locRE.ReplaceAllString(o.Err, ""), locRE.ReplaceAllString(wantErr, ""); o.Out != wantOut || a != b {
				return fail(viol("main", "after the demo, %q gives output %q errors %q, and output %q errors %q in a session without it", st.line, clip(o.Out, 400), clip(o.Err, 200), clip(wantOut, 400), clip(wantErr, 200)))
			}
			continue
		case "start":
			wantOut = st.echo
		case "end":
			wantOut = "Demo finished " + prompt
		case "demo":
			f := fresh[st.run]
			if st.sent+3 >= len(f) {
				return fail(viol("ended", "a fresh interpreter stops at %q", st.line))
			}
			wantOut, wantErr = st.echo+"\n"+f[st.sent+3].Out, f[st.sent+3].Err
		}
		last := i == len(steps)-1
		if last {
			// What comes at the end of the input is with the last line.
			if c.StdinErr != "" {
				if !strings.Contains(o.Err, "/dev/stdin") {
					return fail(viol("readerr", "an error reading the input during the demo is not reported: errors %q", o.Err))
				}
				continue
			}
			if st.where != "end" {
				wantOut += "\nDemo finished " + prompt
			}
		}
		if x, y := norm(o.Out), norm(wantOut); x != y {
			return fail(viol("demo", "in the demo, %q (script line %q) shows %q before the next line is read, instead of %q", st.line, st.echo, clip(x, 500), clip(y, 500)))
		}
		if st.where == "demo" && st.sent == len(sent[st.run])-1 && i+2 < len(outs) && steps[i+1].where == "end" {
			// An unfinished definition is an error only when the demo ends.
			o.Err += outs[i+2].Err
		}
		if x, y := norm(o.Err), norm(wantErr); x != y && !last && st.where != "end" {
			return fail(viol("demo", "in the demo, %q (script line %q) gives errors %q, instead of %q", st.line, st.echo, clip(x, 300), clip(y, 300)))
		}
		e.probe("step-" + st.where)
	}
	if got.Stats.Live > 1 {
		return fail(viol("leak", "when the session ends, %d tasks are still there: the demo's interpreter was not stopped", got.Stats.Live-1))
	}
	if c.StdinErr == "" && got.Exit != 0 {
		return fail(viol("exit", "exit status %d", got.Exit))
	}
	return nil
}
