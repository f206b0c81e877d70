package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

// C02: values do not change behind the user's back.

func init() {
	properties["C02"] = &Property{
		gen: genC02, check: checkC02, quick: 60, thorough: 1200,
		rule: "a case is a generated session of expressions, assignments and indexed assignments (shared copies, nested values, user operators that assign to their arguments and to literals, or every operator applied to variables of every kind of number and shape, fragments of the project's own examples), with the whole workspace dumped after every line, run under a seeded schedule and processor count; it is non-trivial if some assignment changed the workspace; distinct by the lines that ran without error",
	}
}

func genC02(r *RNG) *Case {
	if r.p(1, 3) {
		return genC02ops(r)
	}
	c := &Case{Kind: "generated", Procs: r.rng(1, 6), MinWork: r.p(2, 3), Sched: genSched(r), SeamSeed: r.u64() >> 12}
	c.Sched.MaxSteps = 40e6
	g := newGen(r, r.p(1, 12))
	c.Setup = g.setup()
	c.Setup = append(c.Setup, g.userOps()...)
	c.Setup = append(c.Setup,
		"op lit2 x = k = 1 2 3; r = k; k[2] = x; r, k",
		"op acc x = k = 4 5 6; k[1] = k[1] + x; k",
		"op litm x = k = 2 2 rho 1 2 3 4; r = k; k[1; 2] = x; r, k",
		"op inner x = y = x; y[1] = 77; x, y",
		"op vglob x = v[1] = x; v[1]",
		"op (p1 p2) swap2 x = p1 = p2; x = p1; x",
		"op bump x = x[1] = x[1] + 1; x",
		"op rec x =\n\tx[1] <= 0: x\n\tx[1] = x[1]-1\n\trec x\n",
		"op cnt x = lst = lst, x; rho lst", "lst = 0",
		"op glob n = g1 = n; g2 = g1; g1[1] = 5; g2",
	)
	n := r.rng(8, 22)
	for i := 0; i < n; i++ {
		switch r.n(13) {
		case 0, 1, 2:
			l, _ := g.assign()
			c.Lines = append(c.Lines, l)
		case 3:
			// Checked element by element.
			switch r.n(4) {
			case 0:
				c.Lines = append(c.Lines, fmt.Sprintf("v[%d] = %s", r.rng(1, g.L), g.intLit()))
			case 1:
				c.Lines = append(c.Lines, fmt.Sprintf("v[%d %d %d] = %s", r.rng(1, g.L), r.rng(1, g.L), r.rng(1, g.L), g.intLit()))
			case 2:
				c.Lines = append(c.Lines, fmt.Sprintf("m[%d; %d] = %s", r.rng(1, g.R), r.rng(1, g.C), g.intLit()))
			case 3:
				c.Lines = append(c.Lines, fmt.Sprintf("m[%d %d; %d] = %s", r.rng(1, g.R), r.rng(1, g.R), r.rng(1, g.C), g.intLit()))
			}
		case 4:
			x := r.pick("v", "w", "rv", "nv", "cv", "t", "m", "ms", "b1", "b3", "b4")
			y := r.pick("b1", "b2", "b3", "b4", "b5", "b6")
			k := r.n(6)
			c.Lines = append(c.Lines, []string{
				y + " = " + x,
				y + " = " + x + " " + x,
				y + " = box " + x,
				fmt.Sprintf("%s = %s; %s[1] = %s", y, x, y, r.pick("9", "7", x+"[1]")),
				fmt.Sprintf("%s = rot %s", y, x),
				fmt.Sprintf("%s = , %s", y, x),
			}[k])
		case 5:
			c.Lines = append(c.Lines, r.pick("lit2 5", "acc 3", "litm 9", "inner v", "inner w", "inner m", "vglob 4", "v swap2 w", "bump v", "bump w", "bump nv", "bump m", "rec 3 take w", "cnt 7", "glob w", "acc w[1]", "inner 3 4 5", "v chg 3", "(box v) chg 3", "nv chg 5", "lit2 w", "bump iota 5"))
		case 6:
			c.Lines = append(c.Lines, corpus(r, pureFragments, r.rng(1, 3))...)
		case 7:
			c.Lines = append(c.Lines, r.pick("x1 = v; x2 = x1; x1[2] = 5; x2[2]", "x3 = nv; nv[2] = 4; x3", "v = v, v[1]", "v[1] = v[2]; v[2] = v[1]", "m[1] = m[2]", "nv[1] = nv[3]", "x4 = (v; w)", "t[1] = t[2]", "v = rot v", "x5 = transp m; m[1;1] = 0; x5", "x6 = m[1]; m[1;1] = 3; x6", "x7 = 3 take v; v[1] = 5; x7", "x8 = split m; m[1;2] = 6; x8", "x9 = v; v = v + 1; x9", "x10 = mix split m; x10[1;1] = 9; m", "b1 = v[iota 3]; b1[1] = 1e3; v"))
		default:
			c.Lines = append(c.Lines, g.expr())
		}
	}
	return c
}

// genC02ops applies every operator to variables of every kind.
func genC02ops(r *RNG) *Case {
	c := &Case{Kind: "operators", Procs: r.rng(1, 4), MinWork: r.p(2, 3), Sched: genSched(r), SeamSeed: r.u64() >> 12}
	c.Sched.MaxSteps = 40e6
	sign := func() string { return r.pick("", "", "-") }
	scalars := map[string]string{
		"i1": sign() + r.pick("0", "1", "2", "3", "7", "12"),
		"i2": fmt.Sprint(r.rng(1, 5)),
		"bi": fmt.Sprintf("%s(%d+2**%d)", sign(), r.n(100), r.rng(63, 90)),
		"bj": fmt.Sprintf("%s(%d+3**%d)", sign(), r.n(100), r.rng(41, 60)),
		"r1": fmt.Sprintf("%s%d/%d", sign(), r.rng(1, 20), r.rng(2, 9)),
		"r2": fmt.Sprintf("%s%d/%d", sign(), r.rng(10, 99), 7),
		"br": fmt.Sprintf("%s(1+2**70)/3**%d", sign(), r.rng(41, 50)),
		"f1": sign() + r.pick("(float 1/3)", "(sqrt 2)", "(float 7/2)", "(float 10)", "(float 1e30)"),
		"f2": sign() + r.pick("(float 5/2)", "(sqrt 200)", "pi", "(float 3)"),
		"f3": r.pick("(float 1/4)", "(sqrt 1/2)", "(float 1)", "(float 0)"),
		"c1": r.pick("3j4", "-2j1", "0j1", "1/2j-3/2"),
		"c2": r.pick("(float 21/2)j(float -3/2)", "(sqrt 2)j1", "1j(float 1/3)", "(2**70)j(1/3)"),
		"ch": "'" + r.pick("a", "Z", "é", "9") + "'",
	}
	var names []string
	for _, n := range []string{"i1", "i2", "bi", "bj", "r1", "r2", "br", "f1", "f2", "f3", "c1", "c2", "ch"} {
		c.Setup = append(c.Setup, n+" = "+scalars[n])
		names = append(names, n)
	}
	pick := func(l ...string) string { return l[r.n(len(l))] }
	some := func(n int) string {
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, pick(names[:12]...))
		}
		return strings.Join(l, ", ")
	}
	k := r.rng(2, 5)
	c.Setup = append(c.Setup,
		"v1 = "+some(k), "v2 = "+some(k), "fw = f1, f2, f3, f1, f2", "bw = bi, bj, bi+bj", "rw = r1, r2, br",
		"m1 = 2 2 rho "+some(4), "m2 = 2 2 rho "+some(4), fmt.Sprintf("t1 = 2 2 %d rho %s", k, some(5)),
		"h1 = "+r.pick("+/ t1", "max/ t1", "t1[1]", "-/% t1"), "h2 = "+r.pick("split t1", "+/ h1", "t1[; 1]", "split m1", "-\\ t1"), "h3 = "+r.pick("transp t1", "rot t1", "1 drop t1", "t1, t1", "t1 + 1", "2 take t1", "t1", "mix split t1"),
		"n1 = (box v1) "+r.pick("f1", "bi", "br", "c2")+" (box m1)", "s1 = 'some text'",
		fmt.Sprintf("tv = %d %d %d %d %d, %s", r.rng(1900, 2100), r.rng(1, 12), r.rng(1, 28), r.rng(0, 23), r.rng(0, 59), r.pick("float 21/4", "21/4", "5", "sqrt 300")),
		fmt.Sprintf("tw = tv, %s", r.pick("0", "3600", "-19800")),
		"ts = "+r.pick("float 1600000000.25", "1600000000", "1234567890123/1000", "-123456789.5"),
		// Literals in operators.
		"op k1 x = x + "+r.pick("1/3", "1e30", "12345678901234567890123", "1.5", "2j3"),
		"op k2 x = "+r.pick("12345678901234567890123", "1/3", "1 2 3", "1e30 2")+" "+pick("-", "*", "mod", "div", "/", "max", "+")+" x",
	)
	names = append(names, "v1", "v2", "fw", "bw", "rw", "m1", "m2", "t1", "n1", "s1", "tv", "tw", "ts", "h1", "h2", "h3", "h1", "h2")
	unary := []string{"j", "split", "mix", "+", "-", "/", "inv", "sgn", "conj", "^", "not", "abs", "real", "imag", "phase", "floor", "ceil", "rho", "count", "where", "flatten", "print", ",", "up", "down", "rot", "flip", "transp", "log", "cos", "sin", "tan", "asin", "acos", "atan", "**", "sinh", "cosh", "asinh", "acosh", "atanh", "tanh", "sqrt", "code", "text", "float", "unique", "box", "first", "+/", "-/", "*/", "max/", "min/", "+\\", "*\\", "-\\", ",/", "+/%", "k1", "k2"}
	binary := []string{"j", "+", "-", "*", "/", "idiv", "imod", "mdiv", "div", "mod", "log", "&", "|", "^", "==", "!=", "<", "<=", ">", ">=", "and", "or", "xor", "nand", "nor", "in", "iota", "min", "max", ",", ",%", "===", "!==", "intersect", "union", "o.+", "o.*", "o.-", "o.mod", "+.*", "-.+", "max.min", "+.mod", "@+", "+@", "@-", "@mod"}
	n := r.rng(20, 45)
	for i := 0; i < n; i++ {
		x, y := pick(names...), pick(names...)
		switch r.n(10) {
		case 0, 1, 2:
			c.Lines = append(c.Lines, pick(unary...)+" "+x)
		case 3, 4, 5, 6:
			c.Lines = append(c.Lines, x+" "+pick(binary...)+" "+y)
		case 7:
			small := r.pick("i2", "2", "-1", "3", "1/2", "f3", "0")
			c.Lines = append(c.Lines, pick(
				x+" ** "+small, "i2 ** "+pick("f1", "f2", "f3", "r1", "c1", "i1"), "f2 ** "+pick("f3", "r1", "i1", "c1"), pick("i2", "bi", "bj", "3")+" << i2", pick("bi", "bj", "i2")+" >> i2",
				"i2 rho "+x, "2 2 rho "+x, "1 take "+x, "-1 drop "+x, "i2 take "+x, "1 rot "+x, "1 flip "+x, "1 0 1 sel "+x, "1 1 fill "+x, "1 1 2 part "+x, "2 1 transp "+x, "3 2 1 transp "+x,
				"10 5 text "+x, "'%.5g' text "+x, "'%d' text "+x, "3 text "+x, "("+x+")[1]", x+"[1;1]", x+"[1 1]", "2 encode "+x, "10 10 10 encode "+x, "2 decode "+x, "f1 encode "+x, "f1 decode "+x, "(bi, bj) encode "+x, "i2 ! "+x, x+" ! i2", "! i2"))
		case 8:
			c.Lines = append(c.Lines, pick("'T' decode tv", "'T' decode tw", "'T' encode ts", "'T' encode f1", "'T' encode bi", "'T' decode 5 take tv", "'t' decode tv", "'t' encode ts", "'T' encode r1", "\"T\" decode tv, 3600", "tv + tw[iota 6]", "'T' encode 'T' decode tv"))
		default:
			c.Lines = append(c.Lines, pick("z1 = "+x, "z2 = "+x+" "+pick(binary...)+" "+y, "z3 = "+pick(unary...)+" "+x, "z4 = "+x+" "+y, "z5 = box "+x, "fw[2] = "+x, "v1[1] = "+x, "m1[1;2] = "+x, "z1 "+pick(binary...)+" "+x, x+" "+pick(binary...)+" z2", pick(unary...)+" z3"))
		}
	}
	return c
}

var (
	setVecRE = regexp.MustCompile(`^(v) *\[([\d ]+)\] = (-?\d+)$`)
	setMatRE = regexp.MustCompile(`^(m) *\[([\d ]+); ([\d ]+)\] = (-?\d+)$`)
	dumpCmd  = `)save "<conf.out>"`
)

func checkC02(e *Env, c *Case) *Violation {
	// Every line, then the dump, then the line again if it assigns nothing,
	// then the dump again.
	var lines []string
	type step struct {
		line        string
		out, after  int // indexes into lines
		out2, aftr2 int
	}
	var steps []step
	lines = append(lines, c.Setup...)
	lines = append(lines, dumpCmd)
	first := len(lines) - 1
	opAssigned := map[string]bool{"_": true}
	for _, l := range c.Setup {
		if strings.HasPrefix(l, "op ") {
			for n := range assigned(l) {
				opAssigned[n] = true
			}
		}
	}
	for _, l := range c.Lines {
		s := step{line: l}
		s.out = len(lines)
		lines = append(lines, l, dumpCmd)
		s.after = len(lines) - 1
		if pureLine(l) {
			s.out2 = len(lines)
			lines = append(lines, l, dumpCmd)
			s.aftr2 = len(lines) - 1
		}
		steps = append(steps, s)
	}
	r := e.run(c.spec(lines))
	if r == nil {
		return nil
	}
	if bad(r) {
		return e.baseline(r)
	}
	outs := byLine(r, lines)
	if len(outs) != len(lines)+1 {
		e.probe("short")
		return nil
	}
	at := func(i int) LineOut { return outs[i+1] }
	if at(first).Err != "" {
		e.probe("no-dump")
		return nil
	}
	prev, prevRest := dump(at(first).Out)
	var key strings.Builder
	compare := func(l string, idx int) *Violation {
		if at(idx).Err != "" {
			// Something that cannot be saved, such as an infinity.
			e.probe("no-dump")
			return nil
		}
		vars, rest := dump(at(idx).Out)
		may := assigned(l)
		ops := !strings.Contains(l, "ivy")
		_ = ops
		for n, val := range vars {
			old, had := prev[n]
			if had && old == val || may[n] || n == "_" {
				continue
			}
			if opAssigned[n] && callsOp(l) {
				continue
			}
			if strings.Contains(l, "ivy") && n == "x1" {
				continue
			}
			v := viol("changed", "after %q the variable %s, which it does not assign to, is %s instead of %s", clip(l, 300), n, clip(val, 300), clip(old, 300))
			v.sched = r
			return v
		}
		for n := range prev {
			if _, ok := vars[n]; !ok {
				v := viol("lost", "after %q the variable %s is gone", clip(l, 300), n)
				v.sched = r
				return v
			}
		}
		if rest != prevRest && !strings.HasPrefix(strings.TrimSpace(l), "op") {
			v := viol("state", "after %q the rest of the workspace differs: %s", clip(l, 300), diffText(prevRest, rest))
			v.sched = r
			return v
		}
		for n := range vars {
			if vars[n] != prev[n] && n != "_" {
				e.nontrivial = true
				e.probe("workspace-changed")
				break
			}
		}
		if v := checkSet(l, prev, vars, at(idx-1).Err); v != nil {
			v.sched = r
			return v
		}
		prev, prevRest = vars, rest
		return nil
	}
	for _, s := range steps {
		o := at(s.out)
		if o.Err == "" {
			fmt.Fprintf(&key, "%s\n", s.line)
			e.probe("line-ok")
		} else {
			e.probe("line-error")
		}
		if v := compare(s.line, s.after); v != nil {
			return v
		}
		if s.out2 > 0 {
			o2 := at(s.out2)
			o.Err, o2.Err = locRE.ReplaceAllString(o.Err, ""), locRE.ReplaceAllString(o2.Err, "")
			if o2 != o {
				v := viol("repeat", "evaluated again with nothing assigned between, %q gives output %q errors %q instead of output %q errors %q", clip(s.line, 300), clip(o2.Out, 500), clip(o2.Err, 300), clip(o.Out, 500), clip(o.Err, 300))
				v.sched = r
				return v
			}
			e.probe("repeated")
			if v := compare(s.line, s.aftr2); v != nil {
				return v
			}
		}
	}
	// The same lines without the dumps and repeats, on one processor.
	all := cat(c.Setup, c.Lines)
	b := e.run(plain(c.spec(all)))
	if b == nil {
		return nil
	}
	if !bad(b) {
		bo := byLine(b, all)
		for i, s := range steps {
			k := len(c.Setup) + i + 1
			if k >= len(bo) {
				break
			}
			x, y := bo[k], at(s.out)
			x.Err, y.Err = locRE.ReplaceAllString(x.Err, ""), locRE.ReplaceAllString(y.Err, "")
			if usesLast(s.line) {
				continue
			}
			if x != y {
				v := viol("history", "%q gives output %q errors %q after lines that assign nothing, and output %q errors %q without them", clip(s.line, 300), clip(y.Out, 500), clip(y.Err, 300), clip(x.Out, 500), clip(x.Err, 300))
				v.sched = r
				return v
			}
		}
	}
	e.key = key.String()
	return nil
}

// locRE matches the line number in an error message.
var locRE = regexp.MustCompile(`(?m)^[^\s:]*:\d+: `)

var lastRE = regexp.MustCompile(`(^|[^\pL\pN_])_([^\pL\pN_]|$)`)

func usesLast(l string) bool { return lastRE.MatchString(l) }

var callRE = regexp.MustCompile(`\b(tally|cnt|glob|vglob|bump|rec|inner|chg|swap2|lit2|litm|acc|loc|lit|pr)\b|\bop\b`)

func callsOp(l string) bool { return callRE.MatchString(l) }

func pureLine(l string) bool {
	if len(assigned(l)) > 0 || usesLast(l) || impureRE.MatchString(l) {
		return false
	}
	for _, n := range []string{"tally", "cnt", "glob", "vglob"} {
		if strings.Contains(l, n) {
			return false
		}
	}
	return true
}

// elems splits a dumped vector or matrix of scalars.
func elems(s string) (shape []int, data []string) {
	f := strings.Fields(s)
	for i, x := range f {
		if x == "rho" {
			for _, y := range f[:i] {
				n, _ := strconv.Atoi(y)
				shape = append(shape, n)
			}
			return shape, f[i+1:]
		}
	}
	return nil, f
}

// checkSet checks an indexed assignment of an integer element by element.
func checkSet(l string, old, now map[string]string, errText string) *Violation {
	if errText != "" {
		return nil
	}
	set := map[int]bool{}
	var name, val string
	if m := setVecRE.FindStringSubmatch(l); m != nil {
		name, val = m[1], m[3]
		for _, f := range strings.Fields(m[2]) {
			n, _ := strconv.Atoi(f)
			set[n-1] = true
		}
	} else if m := setMatRE.FindStringSubmatch(l); m != nil {
		name, val = m[1], m[4]
		shape, _ := elems(old[name])
		if len(shape) != 2 {
			return nil
		}
		for _, f := range strings.Fields(m[2]) {
			for _, h := range strings.Fields(m[3]) {
				i, _ := strconv.Atoi(f)
				j, _ := strconv.Atoi(h)
				set[(i-1)*shape[1]+j-1] = true
			}
		}
	} else {
		return nil
	}
	if strings.ContainsAny(old[name], `"'()`) || strings.Contains(old[name], "box") {
		return nil
	}
	_, a := elems(old[name])
	_, b := elems(now[name])
	if len(a) != len(b) {
		return viol("assign", "after %q the variable %s has %d elements instead of %d", l, name, len(b), len(a))
	}
	for i := range a {
		switch {
		case set[i] && b[i] != val:
			return viol("assign", "after %q element %d of %s is %s", l, i+1, name, b[i])
		case !set[i] && a[i] != b[i]:
			return viol("assign", "after %q element %d of %s, which it does not assign to, is %s instead of %s", l, i+1, name, b[i], a[i])
		}
	}
	return nil
}
