package main

import (
	"fmt"
	"strings"
)

// C01: the number of processors and the schedule never show in the results.

func init() {
	properties["C01"] = &Property{
		gen: genC01, check: checkC01, quick: 70, thorough: 1500,
		rule: "a case is a generated ivy session (about 20 expressions and assignments over vectors, matrices and nested values) run once on one processor and then on 2 to 8 under a seeded schedule, with the parallel threshold lowered to 1 or left alone with data large enough to cross it; it is non-trivial if the second run had more than one task runnable at some point; distinct by the schedule's interleaving hash",
	}
	properties["C10"] = &Property{
		gen: genC10, check: checkC10, race: true, quick: 90, thorough: 1500,
		rule: "a case is a generated ivy session, a demo, a mobile session or a batch of concurrent persistent-slice updates, run in a race-instrumented build in which only the program's own synchronisation orders its accesses; it is non-trivial if more than one task ran; distinct by the schedule's interleaving hash",
	}
}

// shadowOps are user-defined operators that take the place of built-in ones
// and keep count, so that running them in any other order shows.
func shadowOps(g *Gen) []string {
	all := []string{
		"op a max b = total = total + 1; a + b + total mod 7",
		"op a min b = last = total; total = total + 1; a - b",
		"op floor x = total = total + 1; x + total mod 5",
		"op a mod b = total = total + 2; a - total",
		"op sgn x = total = total + 3; total mod 11",
		"op abs x = total = total * 2 + 1; x + total mod 10",
		"op a xor b = total = 1 + total; a + 2*b",
		"op flatten x = total = total + 1; ,x",
		"op ceil x = total = total + 1; total",
	}
	lines := []string{"total = 0", "last = 0"}
	for _, i := range perm(g.RNG, len(all))[:g.rng(1, 4)] {
		lines = append(lines, all[i])
	}
	return lines
}

func perm(r *RNG, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.n(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// badElems writes expressions in which several elements fail, differently.
func badElems(g *Gen) []string {
	lines := []string{"xv = w", "xm = ms"}
	for i := g.rng(1, 4); i > 0; i-- {
		lines = append(lines, fmt.Sprintf("xv[%d] = %s", g.rng(1, g.L), g.pick("'a'", "0", "0", "-1", "1j1", "1/2")))
		lines = append(lines, fmt.Sprintf("xm[%d; %d] = %s", g.rng(1, g.R), g.rng(1, g.C), g.pick("'a'", "0", "0", "-1", "1j1", "1/2")))
	}
	return lines
}

func badExpr(g *Gen) string {
	return g.pick("/xv", "1/xv", "w/xv", "xv mod 0", "w mod xv", "v div xv", "xv!5", "!xv", "^xv", "xv & 3", "1 << xv", "xv < 2", "code xv", "char xv", "char 1e9 * xv", "not xv", "log xv", "sqrt xv", "acos 'b' , xv", "/xm", "ms/xm", "+/xm", "+\\xm", "ms +.* transp xm", "(3 take xv) o./ xv", "xv o./ 3 take xv", "max/xv", "xm mod 2", "+/% xm", "-\\% xm", "xv ** -1", "0 ** xv", "xm or 0", "xv xor xv", "xm max.+ mt", "xv == 'a'", "up xv", "down xm", "w[xv]", "xm[;xv]", "v iota xv", "xv in v", "xv imod xv", "xm idiv ms", "2 decode xv", "2 encode xv")
}

// parProgram writes a session that exercises the parallel paths.
func parProgram(r *RNG, big bool) (g *Gen, setup, lines []string) {
	g = newGen(r, big)
	setup = g.setup()
	setup = append(setup, badElems(g)...)
	if r.p(1, 2) {
		setup = append(setup, g.userOps()...)
	}
	if r.p(1, 4) {
		setup = append(setup, shadowOps(g)...)
	}
	if r.p(1, 4) {
		setup = append(setup, r.pick(")prec 64", ")prec 1000", ")maxbits 200", ")origin 0", ")format '%.5g'", ")base 16", ")maxdigits 5", ")obase 2"))
	}
	n := r.rng(6, 22)
	if big {
		n = r.rng(3, 10)
	}
	for i := 0; i < n; i++ {
		switch {
		case r.p(1, 6):
			l, _ := g.assign()
			lines = append(lines, l)
		case r.p(1, 8):
			lines = append(lines, badExpr(g))
		case r.p(1, 4):
			lines = append(lines, parSpecial(g))
		default:
			lines = append(lines, g.expr())
		}
	}
	return g, setup, lines
}

// parSpecial writes expressions aimed at the particular places that run in parallel.
func parSpecial(g *Gen) string {
	switch g.n(23) {
	case 22:
		return g.pick("ms[(1 1) (2 2) (1 1)] = 5 6 7", "m[(1 1) (1 2)] = 3 4", "v[0 rho 1] = 3", "m[;0 rho 1] = 3", "v[1 2 1] = 7 8 9", "m[1 1;] = 3", "t[(1 1 1) (2 1 1)] = 5 6", "m[1 2 1; 1] = 4 5 6", "ms[(1 1) (2 2) (1 1)]", "v[0 rho 1]", "m[0 rho 1; 1]")
	case 16:
		return g.pick("2 3 4 encode m", "10 10 encode v", "2 encode m", "7 5 3 encode t", "(4 rho 3) encode w", "100 10 encode ms", "2 3 encode rv", "5 5 encode transp m", "(1 2 rho 10) encode w")
	case 17:
		return g.pick("10 decode m", fmt.Sprintf("(%d rho 3) decode m", g.R), "2 decode t", "7 decode transp m", "1 2 decode 2 rho 5", fmt.Sprintf("(iota %d) decode m", g.R), fmt.Sprintf("(iota %d) decode mt", g.C), fmt.Sprintf("1/2 decode %d 3 rho v", g.R), "10 decode v", "x decode ms", fmt.Sprintf("(%d take w) decode ms", g.R), "2 decode 3 2 1 transp t")
	case 18:
		return g.pick("v "+g.elemBinary()+" ms", "(1 rho 3) "+g.elemBinary()+" m", "m "+g.elemBinary()+" 1 rho 2", "m "+g.elemBinary()+" m", "3 "+g.elemBinary()+" t", "t "+g.elemBinary()+" 1/3", "m[1] "+g.elemBinary()+" m", "m "+g.elemBinary()+" m[1]", fmt.Sprintf("(%d take v) %s m", g.R, g.elemBinary()), fmt.Sprintf("m %s %d take v", g.elemBinary(), g.C))
	case 19:
		return fmt.Sprintf("m[%s; %s] = %s", g.idx(g.rng(2, g.R), g.R), g.idx(g.rng(2, g.C), g.C), g.small())
	case 20:
		return g.pick("m rot ms", "1 rot m", "1 2 rot v", "w[1] flip m", "2 rot t", "m , m", "m , 1", "m ,% m", "1 , m", "m ,% 3", "t , t", "t ,% t", "up m", "unique m", "unique v", "3 take m", "2 drop t", "m == m", "split m", "mix split m", "mix 2 3 rho v")
	case 21:
		return g.pick("(v , v) in v , m", "v iota v , v", "m iota m", "t in m", "m union m", "v union rv", "v intersect v", "m intersect m", "unique v , v", "v part v", "text v", "'%5.2f' text m", "up v , v", "down w , v", "m sel m", "(2 + v) part v", "partition v")
	case 0:
		return fmt.Sprintf("m[%s; ] = %s", g.idx(g.rng(2, 5), g.R), g.small())
	case 1:
		k := g.rng(2, 6)
		return fmt.Sprintf("v[%s] = %d take %s", g.idx(k, g.L), k, g.vec(1))
	case 2:
		return "mt +.* ms"
	case 3:
		return "t " + g.elemBinary() + " " + g.pick("t", "2", "rot t", "flip t")
	case 4:
		return g.pick("flip t", "rot t", "1 rot t", "1 flip t", "(2 1 rho 1) rot t")
	case 5:
		return fmt.Sprintf("b1 = v[%s]", g.idx(g.rng(2, 30), g.L))
	case 6:
		return fmt.Sprintf("t[%s; %s; %s]", g.idx(2, 2), g.idx(g.rng(2, g.R), g.R), g.idx(g.rng(2, g.C), g.C))
	case 7:
		return fmt.Sprintf("t[;%d;] = %d", g.rng(1, g.R), g.n(99))
	case 8:
		return "v sel v o.+ v"
	case 9:
		return g.pick("-/% t", "-\\% t", "-\\ t", "-/ t", "*\\ ms", ",\\ w", "/\\ w", "-\\ rv")
	case 10:
		return g.pick("v in rv", "m in w", "(m , mr) in v", "w iota m", "rv iota v", "nv in nv", "cv in s")
	case 11:
		return g.pick("2 1 3 transp t", "3 2 1 transp t", "transp m", "1 1 transp ms")
	case 12:
		return g.pick("bv fill v", "w sel v", "bv sel m[1]", "(count m) take w sel v")
	case 13:
		return fmt.Sprintf("%s[%s] = %s", "nv", "1", "box m")
	case 14:
		return "(transp m)[" + g.idx(2, g.C) + "]"
	default:
		return "m +.* (" + fmt.Sprint(g.C) + " 3 rho rv)"
	}
}

func genC01(r *RNG) *Case {
	c := &Case{Kind: "small", MinWork: true, Procs: r.rng(2, 8), Sched: genSched(r), SeamSeed: r.u64() >> 12}
	big := r.p(1, 6)
	if big {
		c.Kind, c.MinWork = "big", false
	}
	_, c.Setup, c.Lines = parProgram(r, big)
	c.Sched.MaxSteps = 40e6
	return c
}

func checkC01(e *Env, c *Case) *Violation {
	lines := cat(c.Setup, c.Lines, []string{`)save "end"`})
	s := c.spec(lines)
	base := e.run(plain(s))
	if base == nil {
		return nil
	}
	if bad(base) {
		return e.baseline(base)
	}
	sched := c.Sched
	tries := 3
	if base.Stats.Loops > 1e6 && !sched.Replay {
		// Much work: fewer switches, or this case takes the time of many.
		tries = 1
		sched.Strategy, sched.Mean = "random", max(sched.Mean, int(base.Stats.Loops/8000))
		e.probe("coarse")
	}
	for k := 0; k < tries; k++ {
		s.Sched = sched
		s.Sched.Seed += uint64(k) * 104729
		got := e.run(s)
		if got == nil {
			return nil
		}
		if got.Stats.Tasks > 1 {
			e.nontrivial = true
			e.key = fmt.Sprint(got.Stats.Hash)
			e.probe("concurrent")
		}
		what := fmt.Sprintf("with %d processors", c.Procs)
		v := sameSession(what, lines, base, got)
		if v == nil && base.Files["end"] != got.Files["end"] {
			v = viol("differs", "%s: the workspace at the end differs: %s", what, diffText(base.Files["end"], got.Files["end"]))
			v.sched = got
		}
		if v == nil && got.Stats.Live != 1 {
			v = viol("leak", "%s: %d goroutines left at the end", what, got.Stats.Live-1)
			v.sched = got
		}
		if v != nil {
			c.Sched = s.Sched
			return v
		}
		if sched.Replay || sched.Strategy == "default" || sched.Strategy == "lifo" || sched.Strategy == "rr" {
			break
		}
	}
	for _, o := range byLine(base, lines) {
		if o.Err != "" {
			e.probe("line-error")
		} else {
			e.probe("line-ok")
		}
	}
	return nil
}

// C10: no data races.

func genC10(r *RNG) *Case {
	switch k := r.n(10); {
	case k == 0:
		c := genC11(r)
		c.Kind = "demo"
		return c
	case k <= 3:
		c := genPersist(r, true)
		c.Kind = "persist"
		return c
	case k == 4:
		c := genC16(r)
		c.Kind = "mobile"
		c.Procs, c.MinWork, c.Sched = r.rng(2, 8), true, genSched(r)
		return c
	}
	c := genC01(r)
	if c.Kind == "small" && r.p(1, 8) {
		// Tracing, in calls within calls.
		g := newGen(r, false)
		c.Setup = append(c.Setup, ")debug trace "+r.pick("1", "2", "3"))
		for _, op := range []string{"aa", "bb", "cc"} {
			c.Setup = append(c.Setup, "op "+op+" x = "+g.pick("", "t = ")+g.pick("(sqrt x) , /x", "x + x", "+/ x o.* x", "x max 3", "(3 4 rho x) +.* 4 3 rho x", "x iota rot x"))
		}
		c.Setup = append(c.Setup, "op dd x = (aa x) , bb x", "op ee x = cc dd x", "op ff x = ee aa x")
		c.Lines = nil
		for i := r.rng(2, 5); i > 0; i-- {
			c.Lines = append(c.Lines, r.pick("aa", "dd", "ee", "ff")+" "+r.pick("iota 6", "4 rho 2", "iota 9", "1.5 2 3"))
		}
		return c
	}
	if c.Kind == "small" && r.p(1, 3) {
		c.Lines = append(c.Lines, "? 20 rho 6", "rand 20", "5?20", "? ms", "rand ms", "sys 'sec'", "'T' encode w * 1e8", "cv[up cv]", "'%d' text v", "text m")
	}
	return c
}

func checkC10(e *Env, c *Case) *Violation {
	var s *Spec
	switch c.Kind {
	case "persist":
		s = &Spec{Kind: "persist", Persist: c.Persist, Sched: c.Sched, Clock: c.Clock}
	case "mobile":
		s = &Spec{Kind: "mobile", Mobile: c.Mobile, Sched: c.Sched, Clock: c.Clock, Procs: c.Procs, MinWork: c.MinWork}
	case "demo":
		s = c.spec(cat(c.Setup, []string{")demo"}, c.Lines, c.Extra))
		s.StdinErr = c.StdinErr
	default:
		s = c.spec(cat(c.Setup, c.Lines))
	}
	s.Sched.MaxSteps = 1.5e6 // The race detector is slow.
	r := e.run(s)
	if r == nil {
		return nil
	}
	if r.Stats.Tasks > 1 {
		e.nontrivial = true
		e.key = fmt.Sprint(r.Stats.Hash)
		e.probe("concurrent-" + c.Kind)
	}
	if text := realRace(r.RaceText); text != "" {
		v := viol("race", "the race detector reports unsynchronised accesses:\n%s", clip(text, 3000))
		v.sched = r
		return v
	}
	return nil
}

// realRace returns the first report of a race in which both accesses are by
// the program rather than by the simulator.
func realRace(text string) string {
	for _, rep := range strings.Split(text, "==================") {
		if !strings.Contains(rep, "DATA RACE") {
			continue
		}
		ok := true
		lines := strings.Split(rep, "\n")
		for i, l := range lines {
			if !strings.Contains(l, " at 0x") || !strings.Contains(l, "by ") {
				continue
			}
			// The innermost frame outside the runtime.
			for j := i + 1; j+1 < len(lines) && strings.TrimSpace(lines[j]) != ""; j += 2 {
				f := strings.TrimSpace(lines[j])
				if strings.HasPrefix(f, "runtime.") || strings.HasPrefix(f, "internal/") || strings.HasPrefix(f, "sync") {
					continue
				}
				if (strings.Contains(f, "/zzsim.") || strings.Contains(f, "/zzsim/") || strings.HasPrefix(f, "main.")) && !strings.Contains(f, "zzsim.MapSeq") {
					ok = false
				}
				break
			}
		}
		if ok {
			return strings.TrimSpace(rep)
		}
	}
	return ""
}
