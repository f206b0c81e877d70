package main

import (
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"
)

// C04: random numbers are determined by the seed, and nothing else.

func init() {
	properties["C04"] = &Property{
		gen: genC04, check: checkC04, quick: 45, thorough: 900,
		rule: "a case is a session that sets a seed and draws random numbers (rolls, rand and deals, on scalars, vectors and matrices, directly and inside user operators, reductions and outer products) among expressions that use none, repeated with other processor counts, schedules, clocks and map orders, with the seed set again, with the other expressions left out, and with another seed; it is non-trivial if a random draw ran without error; distinct by the random lines",
	}
}

func randLine(g *Gen) string {
	k := func() string {
		return g.pick("1", "2", "6", "10", "52", "100", "1000000", "9223372036854775807", "100000000000000000000000", "7")
	}
	n := func() int { return g.rng(1, 60) }
	switch g.n(27) {
	case 24, 25:
		// Few of many, and many of many.
		m := g.pickInt(80, 150, 300, 1100, 5000, 20000)
		n := g.pickInt(1, 2, 5, 12, 40, m/30, m/7)
		return fmt.Sprintf("%d?%d", min(n, 400), m)
	case 26:
		return g.pick("3?100000", "5?9000", "2?1000000", "+/ 2500?2500", "x1 = 1200?1300", "10 take 4000?4000", "dice 1500", "? 40 40 rho 6", "+/ rand 1100 rho 1", "? 1200 rho 100000000000000000000000", "?90 rho 100000000000000000000000")
	case 0:
		return "?" + k()
	case 1, 2, 3:
		return fmt.Sprintf("?%d rho %s", n(), k())
	case 4:
		m := g.rng(1, 60)
		return fmt.Sprintf("%d?%d", g.rng(0, m), m)
	case 5:
		return fmt.Sprintf("? %d %d rho %s", g.rng(1, 6), g.rng(1, 6), k())
	case 6:
		return fmt.Sprintf("rand %s", g.pick("1", "10", "1/3", "0", "100000000000000000000000000", "5/2", "float 3", "sqrt 2", "float 1e30"))
	case 7:
		return fmt.Sprintf("rand %d rho %s", n(), g.pick("1", "10", "1/3", "100000000000000000000000000"))
	case 8:
		return fmt.Sprintf("rand %d %d rho 3", g.rng(1, 6), g.rng(1, 6))
	case 9:
		return fmt.Sprintf("? iota %d", n())
	case 10:
		return fmt.Sprintf("dice %d", n())
	case 11:
		return fmt.Sprintf("x1 = ?%d rho 100", n())
	case 12:
		return "+/?20 rho 6"
	case 13:
		return "(?6), (?6), ?6"
	case 14:
		return "?6; ?6; rand 1; 3?9"
	case 15:
		return "w[?5 rho count w]"
	case 16:
		return "(?10 rho 3) o.+ ?10 rho 3"
	case 17:
		return "?@ 3 4 5"
	case 18:
		return "rand@ iota 20"
	case 19:
		return "2 3 ?@ 10"
	case 20:
		return "3 ?@ 10 20 30"
	case 21:
		return "ivy '?100'"
	case 22:
		return g.pick("? t0", "?400 rho 6", "?300 rho 2")
	default:
		return fmt.Sprintf("shuf iota %d", g.rng(1, 30))
	}
}

func genC04(r *RNG) *Case {
	c := &Case{Kind: "generated", Procs: r.rng(2, 8), MinWork: r.p(2, 3), Sched: genSched(r), SeamSeed: r.u64() >> 12}
	c.Sched.MaxSteps = 40e6
	g := newGen(r, r.p(1, 10))
	c.Setup = append(g.setup(), "op dice n = ?n rho 6", "op shuf x = x[(count x)?count x]", "t0 = 2 3 4 rho 1000")
	if r.p(1, 3) {
		c.Setup = append(c.Setup, fmt.Sprintf(")origin %d", r.n(3)))
	}
	c.Num = int64(r.u64() >> r.rng(1, 62))
	for i := r.rng(4, 14); i > 0; i-- {
		if r.p(2, 3) {
			c.Lines = append(c.Lines, randLine(g))
		} else if r.p(1, 2) {
			c.Lines = append(c.Lines, g.expr())
		} else {
			c.Lines = append(c.Lines, corpus(r, pureFragments, 1)...)
		}
	}
	c.Clock.Wall = 1500000000e9 + int64(r.u64()>>12)
	c.Clock.Tick = int64(r.rng(1, 1e6))
	return c
}

var (
	rollRE = regexp.MustCompile(`^\? ?(?:(\d+)(?: (\d+))? rho )?(\d+)$`)
	dealRE = regexp.MustCompile(`^(\d+)\?(\d+)$`)
	realRE = regexp.MustCompile(`^rand (?:(\d+)(?: (\d+))? rho )?(\d+)$`)
)

func isRandom(l string) bool {
	return strings.Contains(l, "?") || strings.Contains(l, "rand") || strings.Contains(l, "dice") || strings.Contains(l, "shuf")
}

const sampleLine = "? 30 rho 1000000000"

func checkC04(e *Env, c *Case) *Violation {
	origin := int64(1)
	for _, l := range c.Setup {
		if s, ok := strings.CutPrefix(l, ")origin "); ok {
			origin, _ = strconv.ParseInt(s, 10, 64)
		}
	}
	seed := fmt.Sprintf(")seed %d", c.Num)
	lines := cat(c.Setup, []string{seed, sampleLine}, c.Lines, []string{seed, sampleLine}, c.Lines, []string{")seed"})
	s := c.spec(lines)
	p := plain(s)
	p.SeamSeed++
	p.Clock = Clock{Wall: 1600000000e9, Tick: 777}
	base := e.run(p)
	if base == nil {
		return nil
	}
	if bad(base) {
		return e.baseline(base)
	}
	outs := byLine(base, lines)
	if len(outs) != len(lines)+1 {
		return nil
	}
	at := func(i int) LineOut {
		o := outs[i+1]
		o.Err = locRE.ReplaceAllString(o.Err, "")
		return o
	}
	first := len(c.Setup) + 1
	second := first + len(c.Lines) + 2
	var key strings.Builder
	for i, l := range append([]string{sampleLine}, c.Lines...) {
		a, b := at(first+i), at(second+i)
		if a.Err == "" && isRandom(l) {
			e.nontrivial = true
			e.probe("draw")
			fmt.Fprintln(&key, l)
			if v := checkRange(l, a.Out, origin); v != nil {
				return v
			}
		}
		if a != b {
			return viol("reseed", "after %s again, %q gives output %q errors %q instead of output %q errors %q", seed, l, clip(b.Out, 400), clip(b.Err, 200), clip(a.Out, 400), clip(a.Err, 200))
		}
	}
	e.key = key.String()
	if got := strings.TrimSpace(at(len(lines) - 1).Out); got != fmt.Sprint(c.Num) {
		return viol("seed", "after %s the seed is shown as %q", seed, got)
	}
	// Other schedules, clocks, orders.
	got := e.run(s)
	if got == nil {
		return nil
	}
	if got.Stats.Tasks > 1 {
		e.probe("concurrent")
	}
	if v := sameSession(fmt.Sprintf("with %d processors and another clock", c.Procs), lines, base, got); v != nil {
		return v
	}
	// Without the lines that draw no random numbers.
	short := cat(c.Setup, []string{seed, sampleLine})
	var idx []int
	for i, l := range c.Lines {
		if isRandom(l) {
			short = append(short, l)
			idx = append(idx, i)
		}
	}
	short = append(short, fmt.Sprintf(")seed %d", c.Num^1), sampleLine)
	r := e.run(plain(c.spec(short)))
	if r == nil {
		return nil
	}
	if bad(r) {
		return badViol("the random lines alone", r)
	}
	so := byLine(r, short)
	if len(so) != len(short)+1 {
		return nil
	}
	for k, i := range idx {
		x := so[first+2+k]
		x.Err = locRE.ReplaceAllString(x.Err, "")
		if x != at(first+1+i) {
			y := at(first + 1 + i)
			return viol("noise", "without the lines that use no random numbers, %q gives output %q errors %q instead of output %q errors %q", c.Lines[i], clip(x.Out, 400), clip(x.Err, 200), clip(y.Out, 400), clip(y.Err, 200))
		}
	}
	if so[len(so)-1].Out == at(first).Out {
		return viol("same", "seeds %d and %d give the same numbers: %q", c.Num, c.Num^1, clip(so[len(so)-1].Out, 300))
	}
	// Without a seed, the start time chooses.
	if c.Index%8 == 0 {
		var o [2]string
		for k := range o {
			q := plain(c.spec([]string{sampleLine}))
			q.Clock = Clock{Wall: c.Clock.Wall + int64(k)*1234567, Tick: 1000}
			r := e.run(q)
			if r == nil || bad(r) {
				return nil
			}
			o[k] = r.Stdout
		}
		if o[0] == o[1] {
			return viol("unseeded", "sessions started at different times, with no seed set, draw the same numbers: %q", clip(o[0], 300))
		}
		e.probe("unseeded")
	}
	return nil
}

// checkRange checks the results of rolls, deals and rand.
func checkRange(l, out string, origin int64) *Violation {
	vals := strings.Fields(out)
	atoi := func(s string) int64 {
		if s == "" {
			return 1
		}
		n, _ := strconv.ParseInt(s, 10, 64)
		return n
	}
	if m := rollRE.FindStringSubmatch(l); m != nil {
		if int64(len(vals)) != atoi(m[1])*atoi(m[2]) {
			return viol("range", "%q gives %d numbers: %q", l, len(vals), clip(out, 300))
		}
		hi, _ := new(big.Int).SetString(m[3], 10)
		hi.Add(hi, big.NewInt(origin))
		lo := big.NewInt(origin)
		if len(m[3]) > 18 {
			// A big integer is rolled from zero whatever the origin.
			lo.SetInt64(0)
		}
		faces := map[string]bool{}
		if n := atoi(m[3]); n <= 6 && int64(len(vals)) >= 60*n {
			for _, v := range vals {
				faces[v] = true
			}
			if int64(len(faces)) != n {
				return viol("range", "%q gives only %d different numbers", l, len(faces))
			}
		}
		for _, v := range vals {
			x, ok := new(big.Int).SetString(v, 10)
			if !ok || x.Cmp(lo) < 0 || x.Cmp(hi) >= 0 {
				return viol("range", "%q gives %s, out of range", l, v)
			}
		}
	}
	if m := dealRE.FindStringSubmatch(l); m != nil {
		seen := map[string]bool{}
		if int64(len(vals)) != atoi(m[1]) {
			return viol("range", "%q deals %d numbers: %q", l, len(vals), clip(out, 300))
		}
		for _, v := range vals {
			x, err := strconv.ParseInt(v, 10, 64)
			if err != nil || seen[v] || x < origin || x >= origin+atoi(m[2]) {
				return viol("range", "%q deals %s: out of range or dealt twice: %q", l, v, clip(out, 300))
			}
			seen[v] = true
		}
	}
	if m := realRE.FindStringSubmatch(l); m != nil {
		hi, _ := new(big.Float).SetString(m[3])
		for _, v := range vals {
			x, ok := new(big.Float).SetString(v)
			if !ok || x.Sign() < 0 || x.Cmp(hi) > 0 {
				return viol("range", "%q gives %s, out of range", l, v)
			}
		}
	}
	return nil
}
