package main

import (
	"fmt"
	"regexp"
	"strings"
)

// C16: the mobile interface.

func init() {
	properties["C16"] = &Property{
		gen: genC16, check: checkC16, quick: 45, thorough: 900,
		rule: "a case is a sequence of calls of the mobile interface (evaluations that compute, define, change settings and fail; resets; demos stepped line by line, past their ends and among other evaluations) under a seeded schedule; every stretch from one reset to the next is judged against the same calls in a fresh process and against the same text typed at the command; it is non-trivial if a reset or a demo came after an evaluation; distinct by the calls and the interleaving",
	}
}

func genC16(r *RNG) *Case {
	c := &Case{Kind: "calls", Procs: r.rng(1, 6), MinWork: r.p(1, 2), Sched: genSched(r), SeamSeed: r.u64() >> 12}
	c.Sched.MaxSteps = 40e6
	c.Files = map[string]string{"lib": "lib = 42\n'in lib'\nop lib2 x = x, lib\n"}
	g := newGen(r, false)
	setup := lineText(g.setup())
	line := func() string {
		switch r.n(12) {
		case 0:
			return r.pick(")origin 0", ")ibase 16", ")obase 8", ")format '%.3f'", ")prec 60", ")maxbits 70", ")maxdigits 3", ")maxstack 30", ")debug types 1", ")timezone 'Asia/Tokyo'", ")seed 5", ")prompt 'zz'", ")base 16")
		case 1:
			return r.pick(")origin", ")base", ")format", ")prec", ")maxbits", ")maxdigits", ")maxstack", ")debug", ")timezone", ")prompt", ")op", ")var", ")save '<conf.out>'", ")seed", "sys 'maxbits'", "'T' encode 3600")
		case 2:
			return r.pick("?100 100", "rand 3", "3?10", "?5 rho 1000")
		case 3:
			return r.pick("'a b  c'", "'a\\\\b'", "\"x\\ty\"", "'<b>&amp;</b>'", "3 3 rho iota 9", "'\\\\'", "-\\ iota 4", "'é ✓'", "op bs x = x, '\\\\'", "bs 'x'", ")op bs")
		case 4:
			return r.pick("1/0", "1 +", "nope", "'abc", "x = = 3", ")nope", "iota -1", "rr 100000", ")demo", ")get 'missing'")
		case 5:
			return r.pick("op rr n = n == 0: 0; 1 + rr n-1", "rr 20", "rr 40", "pi", "e", "pi = 3", "_", "z1 = iota 30; z1*z1", "z1 o.+ z1", "+/z1")
		default:
			if r.p(1, 50) {
				return longLine(r)
			}
			return append(progLines(r, g, 1, false, true), "3+4")[0]
		}
	}
	text := func(n int, multi bool) string {
		var l []string
		for i := 0; i < n; i++ {
			s := line()
			if !multi && strings.Contains(s, "\n") {
				s = "2+2"
			}
			l = append(l, s)
		}
		s := strings.Join(l, "\n")
		if r.p(1, 2) {
			s += "\n"
		}
		return s
	}
	add := func(op, arg string) { c.Mobile = append(c.Mobile, MobileCall{op, arg}) }
	for k := r.rng(1, 4); k > 0; k-- {
		if r.p(1, 2) {
			add("eval", setup)
		}
		for i := r.rng(1, 8); i > 0; i-- {
			switch r.n(12) {
			case 0:
				add("help", "")
			case 1:
				add("eval", r.pick("", "\n", "# just a comment", "   ", "1+1\r\n2+2\r\n"))
			default:
				add("eval", text(r.rng(1, 4), true))
			}
		}
		switch r.n(3) {
		case 0:
			n := r.rng(0, 6)
			d := text(n, false)
			add("demo", d)
			for i := r.n(n + 4); i > 0; i-- {
				add("next", "")
				if r.p(1, 6) {
					add("eval", text(1, false))
				}
			}
		default:
			add("reset", "")
		}
	}
	return c
}

var mobileLocRE = regexp.MustCompile(`(?m)^[^\n:]{0,8}:\d+: `)

func mobileEscape(s string) string {
	return strings.NewReplacer(" ", "\u00A0", "\t", "    ", "\\", "&#92;").Replace(s)
}

func checkC16(e *Env, c *Case) *Violation {
	spec := func(calls []MobileCall) *Spec {
		s := c.spec(nil)
		s.Kind, s.Mobile = "mobile", calls
		return s
	}
	got := e.run(spec(c.Mobile))
	if got == nil {
		return nil
	}
	fail := func(v *Violation) *Violation { v.sched = got; return v }
	if bad(got) {
		p := e.run(plain(spec(c.Mobile)))
		if p != nil && p.Outcome == got.Outcome && got.Outcome == "noprogress" {
			e.probe("baseline-noprogress")
			return nil
		}
		return badViol("mobile calls", got)
	}
	if len(got.Mobile) != len(c.Mobile) {
		// A next with no demo is no call.
		return nil
	}
	e.key = fmt.Sprint(got.Stats.Hash, c.Mobile)
	if got.Stdout != "" || got.Stderr != "" {
		return fail(viol("output", "evaluating prints %q on the standard output and %q on the standard error", clip(got.Stdout, 300), clip(got.Stderr, 300)))
	}
	// The stretches between resets, as evaluations.
	type call struct {
		i    int
		text string
	}
	var stretch []call
	var demo []string
	inDemo := false
	check := func() *Violation {
		if len(stretch) == 0 {
			return nil
		}
		var calls []MobileCall
		var lines []string
		ends := []int{}
		typable := true
		for _, s := range stretch {
			calls = append(calls, MobileCall{"eval", s.text})
			t := strings.TrimSuffix(s.text, "\n")
			for _, l := range strings.Split(t, "\n") {
				lines = append(lines, l)
				if strings.HasPrefix(l, ")prompt '") || l == ")demo" || strings.HasPrefix(l, ")timezone '") {
					typable = false
				}
			}
			lines = append(lines, "") // This ends a definition, as the end of the text does.
			ends = append(ends, len(lines))
		}
		fresh := e.run(plain(spec(calls)))
		if fresh == nil {
			return nil
		}
		if bad(fresh) {
			return e.baseline(fresh)
		}
		for k, s := range stretch {
			a, b := got.Mobile[s.i], fresh.Mobile[k]
			if a != b {
				return fail(viol("state", "call %d of %d, evaluating %q, gives %q error %q, and %q error %q in a fresh process", s.i+1, len(c.Mobile), clip(s.text, 300), clip(a.Out, 400), clip(a.Err, 200), clip(b.Out, 400), clip(b.Err, 200)))
			}
		}
		e.probe("stretch")
		if !typable {
			return nil
		}
		all := cat([]string{")seed 0"}, lines)
		m := e.run(plain(c.spec(all)))
		if m == nil {
			return nil
		}
		if bad(m) {
			return e.baseline(m)
		}
		outs := byLine(m, all)
		from := 0
		for k, s := range stretch {
			out, errs := "", ""
			for j := from; j < ends[k]; j++ {
				if j+2 >= len(outs) {
					return nil
				}
				o := outs[j+2]
				if j == len(lines)-1 {
					// What the end of the input prints.
					o.Out = strings.TrimSuffix(o.Out, "\n")
				}
				out += strings.TrimSuffix(o.Out, "\n")
				errs += o.Err
			}
			from = ends[k]
			a := got.Mobile[s.i]
			aerr := a.Err
			if x := mobileEscape(out); a.Out != x && strings.TrimRight(a.Out, "\n") != strings.TrimRight(x, "\n") {
				return fail(viol("typed", "call %d of %d, evaluating %q, gives %q; typing it prints %q, which is %q for the mobile interface", s.i+1, len(c.Mobile), clip(s.text, 300), clip(a.Out, 400), clip(out, 400), clip(x, 400)))
			}
			if x, y := mobileLocRE.ReplaceAllString(aerr, ""), mobileLocRE.ReplaceAllString(errs, ""); strings.TrimSpace(x) != strings.TrimSpace(y) {
				return fail(viol("typed", "call %d of %d, evaluating %q, gives the error %q; typing it gives %q", s.i+1, len(c.Mobile), clip(s.text, 300), clip(x, 400), clip(y, 400)))
			}
			e.probe("typed")
		}
		return nil
	}
	evals := 0
	for i, m := range c.Mobile {
		r := got.Mobile[i]
		switch m.Op {
		case "eval":
			stretch = append(stretch, call{i, m.Arg})
			evals++
		case "reset", "demo":
			if evals > 0 {
				e.nontrivial = true
			}
			if v := check(); v != nil || e.err != nil {
				return v
			}
			stretch = nil
			if m.Op == "demo" {
				demo = nil
				if m.Arg != "" {
					demo = strings.Split(strings.TrimSuffix(m.Arg, "\n"), "\n")
				}
				inDemo = true
			}
		case "next":
			if !inDemo {
				return nil
			}
			if len(demo) == 0 {
				if r.Out != "" || r.Err != "EOF" {
					return fail(viol("end", "after its last line, the demo gives %q error %q", r.Out, r.Err))
				}
				e.probe("end")
				continue
			}
			stretch = append(stretch, call{i, demo[0]})
			demo = demo[1:]
			evals++
		case "help":
			if r.Out == "" || r.Err != "" {
				return fail(viol("help", "there is no help"))
			}
		}
	}
	return check()
}
