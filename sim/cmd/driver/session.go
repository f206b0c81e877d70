package main

import (
	"fmt"
	"regexp"
	"strings"
)

// spec returns a specification that types the lines, one at a time.
func (c *Case) spec(lines []string) *Spec {
	s := &Spec{
		Kind: "main", Args: c.Args, Procs: c.Procs, MinWork: c.MinWork, SeamSeed: c.SeamSeed, Sched: c.Sched, Clock: c.Clock,
		FS: FS{Files: c.Files, Faults: c.Faults, FDLimit: c.FDLimit, KillOp: c.KillOp, Short: c.Short, Seed: c.Seed},
	}
	for _, l := range lines {
		s.Stdin = append(s.Stdin, l+"\n")
	}
	return s
}

// plain returns a copy of s with no concurrency, faults or adversity.
func plain(s *Spec) *Spec {
	t := *s
	t.Procs = 1
	t.Sched = Sched{Strategy: "default", MaxSteps: s.Sched.MaxSteps, MaxLoops: s.Sched.MaxLoops}
	t.FS.Faults = nil
	t.FS.FDLimit = 0
	t.FS.KillOp = 0
	t.FS.Short = 0
	t.Clock.Jumps = nil
	return &t
}

// LineOut is what a line of input produced.
type LineOut struct{ Out, Err string }

// A Window is what had been done before a line and after it.
type Window struct{ from, to ReadEvent }

// byLine splits the output of r by the line of input that produced it, using
// the output position at each read of the standard input. It returns what
// came before the first read as the first element, and what came at the end
// of input with the last line.
func byLine(r *Result, lines []string) []LineOut {
	outs, _ := byLineWindows(r, lines)
	return outs
}

func byLineWindows(r *Result, lines []string) (outs []LineOut, wins []Window) {
	at := func(in int) (ReadEvent, bool) {
		for _, e := range r.Reads {
			if e.In >= in {
				return e, true
			}
		}
		return ReadEvent{}, false
	}
	prev := ReadEvent{}
	end := ReadEvent{len(r.Stdout), len(r.Stderr), 0, len(r.Readings), r.SimNS}
	pos := 0
	for i := 0; i <= len(lines); i++ {
		e, ok := at(pos)
		if !ok {
			// Ended before reading this far.
			outs = append(outs, LineOut{r.Stdout[prev.Out:], r.Stderr[prev.Err:]})
			wins = append(wins, Window{prev, end})
			return
		}
		outs = append(outs, LineOut{r.Stdout[prev.Out:e.Out], r.Stderr[prev.Err:e.Err]})
		wins = append(wins, Window{prev, e})
		prev = e
		if i < len(lines) {
			pos += len(lines[i]) + 1
		}
	}
	last := &outs[len(outs)-1]
	last.Out += r.Stdout[prev.Out:]
	last.Err += r.Stderr[prev.Err:]
	wins[len(wins)-1].to = end
	return
}

// bad reports an outcome that is not an orderly end.
func bad(r *Result) bool { return r.Outcome != "exit" }

// outOfMemory says whether the execution ended because it asked for more memory
// than there is, which no property is about.
func outOfMemory(r *Result) bool {
	for _, s := range []string{"out of memory", "makeslice", "growslice", "cannot allocate"} {
		if strings.Contains(r.Msg, s) {
			return true
		}
	}
	return false
}

// baseline judges a session without any adversity that did not end in order.
// That it takes too long, or too much memory, says nothing; that it crashes or
// stops for ever, or ends before its last line, is not something a line can do.
func (e *Env) baseline(r *Result) *Violation {
	e.probe("baseline-" + r.Outcome)
	switch {
	case outOfMemory(r):
		e.probe("baseline-memory")
	case r.Outcome == "exit":
		return viol("ended", "the session ends before its last line, with errors %q", clip(tail2(r.Stderr, 300), 300))
	case r.Outcome == "crash", r.Outcome == "deadlock":
		return badViol("on one processor, with nothing failing", r)
	}
	return nil
}

func badViol(what string, r *Result) *Violation {
	v := viol(r.Outcome, "%s: %s: %s", what, r.Outcome, clip(r.Msg, 1500))
	v.sched = r
	return v
}

func diffText(a, b string) string {
	al, bl := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(al) || i < len(bl); i++ {
		var x, y string
		if i < len(al) {
			x = al[i]
		}
		if i < len(bl) {
			y = bl[i]
		}
		if x != y {
			return fmt.Sprintf("line %d of the output:\n\t%q\ninstead of\n\t%q", i+1, clip(y, 400), clip(x, 400))
		}
	}
	return "the output is the same"
}

// sameSession compares two transcripts of the same lines.
func sameSession(what string, lines []string, want, got *Result) *Violation {
	if bad(got) {
		return badViol(what, got)
	}
	a, b := byLine(want, lines), byLine(got, lines)
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			line := "(start)"
			if i > 0 {
				line = lines[i-1]
			}
			v := viol("differs", "%s: %q gives output %q errors %q instead of output %q errors %q", what, clip(line, 300), clip(b[i].Out, 600), clip(b[i].Err, 300), clip(a[i].Out, 600), clip(a[i].Err, 300))
			v.sched = got
			return v
		}
	}
	if len(a) != len(b) || want.Exit != got.Exit {
		v := viol("differs", "%s: the session ends differently: exit %d instead of %d, after %d lines instead of %d", what, got.Exit, want.Exit, len(b)-1, len(a)-1)
		v.sched = got
		return v
	}
	return nil
}

var dumpRE = regexp.MustCompile(`^([\pL_][\pL\pN_]*) = (.*)$`)

// dump parses what )save writes: the variables, and everything else.
func dump(text string) (vars map[string]string, rest string) {
	vars = map[string]string{}
	var r []string
	past := false
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, "# Set base 10") {
			past = true
		}
		if m := dumpRE.FindStringSubmatch(l); m != nil && past {
			vars[m[1]] = m[2]
			continue
		}
		r = append(r, l)
	}
	return vars, strings.Join(r, "\n")
}

func cat(ls ...[]string) []string {
	var out []string
	for _, l := range ls {
		out = append(out, l...)
	}
	return out
}
