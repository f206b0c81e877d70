package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

// C15: the command line.

func init() {
	properties["C15"] = &Property{
		gen: genC15, check: checkC15, quick: 45, thorough: 900,
		rule: "a case is a command line (flags for the settings, -f, -i, -e, files, the standard input or -, in any combination), with programs that compute, define, fail, read and save files, and with files that are missing or whose opening or reading fails at a chosen point; judged against one run of the whole text in the documented order, with the settings made by commands; it is non-trivial if at least two sources of text were given, or a setting, or a fault hit; distinct by the command line and the texts",
	}
}

// progLines returns lines of a program that can stand in a file.
func progLines(r *RNG, g *Gen, n int, errs, expr bool) []string {
	var l []string
	for i := 0; i < n; i++ {
		switch r.n(14) {
		case 0:
			l = append(l, r.pick("a = 5", "a = 1 2 3", "b = a", "a = a, 1", "b = 'text'"))
		case 1:
			l = append(l, r.pick("op dbl x = x+x", "op x plus y = x+y", "op tri x =\n  x*3\n", "op dbl x = 2*x", "op cnt n = n <= 0: 0; 1 + cnt n-1"))
		case 2:
			l = append(l, r.pick("iota 5", "3 drop iota 6", "2 3 rho iota 6", "(iota 3)[1]", "up 3 1 2", "a"))
		case 3:
			l = append(l, r.pick("1/3", "2**100", "1.5", "sqrt 2", "1e20", "!30", "_", "_+1", "'abc'", "1j2", "255 4095", "2**200"))
		case 4:
			l = append(l, r.pick(")origin 0", ")obase 16", ")format '%.3f'", ")ibase 16", ")base 0", ")prec 100", ")origin", ")base", ")maxdigits 5", ")seed 7"))
		case 5:
			l = append(l, r.pick(")get 'lib'", ")save 'out'", ")var", ")op", ")var a"))
		case 6:
			l = append(l, r.pick("dbl 4", "3 plus 4", "tri 5", "cnt 20", "cnt 2000", "# a comment", "", "  ", "1; 2; 3", "a = 3; a+1"))
		case 7:
			if errs {
				l = append(l, r.pick("1/0", "1 +", "nope", "(1", "2 3 + 1 2 3", "iota -1", ")nope", "'abc", ")get 'missing'", "1; 2; 1/0; 4", "cnt -1 2", "2**10**20", ")origin -1"))
			}
		default:
			if expr {
				l = append(l, g.expr())
			} else {
				l = append(l, r.pick("1+1", "2*iota 4", "+/iota 10", "'x', 'y'", "3 rho 7"))
			}
		}
	}
	return l
}

func genC15(r *RNG) *Case {
	if r.p(1, 8) {
		return genC15line(r)
	}
	c := &Case{Kind: r.pick("texts", "texts", "texts", "texts", "stdin", "stdin", "fault", "fault", "usage", "dash"), Procs: r.rng(1, 3), Sched: Sched{Strategy: "default"}, SeamSeed: r.u64() >> 12}
	c.Sched.MaxSteps = 60e6
	g := newGen(r, false)
	c.Files = map[string]string{"lib": "lib = 42\n'in lib'\nop lib2 x = x, lib\n"}
	errs := r.p(1, 3) && c.Kind != "dash" && c.Kind != "fault"
	expr := r.p(1, 2)
	text := func() string {
		s := strings.Join(progLines(r, g, r.rng(0, 6), errs, expr), "\n")
		switch {
		case s == "":
			return "7"
		case r.p(4, 5) || strings.HasSuffix(s, "\n"):
			return s + "\n"
		}
		return s
	}
	if r.p(1, 3) {
		c.Files["lib"] += text()
	}
	// Settings.
	flags := [][]string{{"-origin", r.pick("0", "1", "5")}, {"-format", r.pick("%.2f", "%d", "%q", "%.12g")}, {"-g"}, {"-maxbits", r.pick("64", "100", "100000")}, {"-maxdigits", r.pick("0", "3", "20")}, {"-stack", r.pick("10", "100", "50000")}, {"-prompt", r.pick("> ", "?", "")}, {"-debug", r.pick("types", "types,trace", "cpu")}}
	for i := r.n(4); i > 0; i-- {
		f := flags[r.n(len(flags))]
		if f[0] == "-debug" && f[1] == "cpu" && c.Kind != "stdin" {
			f = []string{"-debug", "types"}
		}
		if f[0] == "-debug" && r.p(3, 4) {
			continue
		}
		if r.p(1, 3) && len(f) == 2 {
			f = []string{f[0] + "=" + f[1]}
		}
		c.Args = append(c.Args, f...)
	}
	if expr || r.p(2, 5) {
		c.Files["pre"] = text()
		if expr {
			c.Files["pre"] = lineText(g.setup()) + c.Files["pre"]
		}
		c.Args = append(c.Args, "-f", "pre")
	}
	if r.p(2, 5) {
		c.Args = append(c.Args, "-i", text())
	}
	if c.Kind == "usage" {
		bad := r.pick("-nope", "-origin=-1", "-origin=x", "-debug=nope", "-maxbits=-3", "-stack=1.5", "-h", "-debug=types,nope", "-maxdigits=q")
		i := 0
		if r.p(1, 2) {
			i = len(c.Args)
		}
		c.Args = append(c.Args[:i:i], append([]string{bad}, c.Args[i:]...)...)
	}
	if c.Kind != "stdin" {
		if r.p(1, 3) && c.Kind != "dash" {
			c.Args = append(c.Args, "-e", text())
		}
		for i := r.rng(0, 4); i > 0; i-- {
			n := fmt.Sprintf("f%d", i)
			c.Files[n] = text()
			c.Args = append(c.Args, n)
			if r.p(1, 8) {
				c.Args = append(c.Args, n)
			}
		}
		if c.Kind == "dash" {
			c.Args = append(c.Args, "-")
			if r.p(1, 2) {
				c.Files["last"] = text()
				c.Args = append(c.Args, "last")
			}
		}
		if r.p(1, 10) {
			c.Args = append(c.Args, "absent")
		}
		if c.Kind == "fault" {
			c.Files["f9"] = text()
			c.Args = append(c.Args, "f9")
			f := Fault{Op: "open", N: r.rng(1, 2), Err: r.pick("EACCES", "EIO", "EMFILE", "ENOENT", "EISDIR")}
			if r.p(1, 2) {
				f = Fault{Op: "read", N: r.rng(1, 3), Err: r.pick("EIO", "EISDIR", "EINTR")}
				if r.p(1, 2) {
					f.Keep = r.n(200)
				}
			}
			f.File = r.pick("f", "pre", "f9") // Not one that a program opens.
			c.Faults = append(c.Faults, f)
		}
	}
	for i := r.rng(0, 6); i > 0; i-- {
		c.Lines = append(c.Lines, progLines(r, g, 1, errs, expr)...)
	}
	var l []string
	for _, s := range c.Lines {
		l = append(l, strings.Split(s, "\n")...)
	}
	c.Lines = l
	return c
}

// genC15line makes a command line that runs a text that fails at a known line.
func genC15line(r *RNG) *Case {
	c := &Case{Kind: "line", Procs: r.rng(1, 3), Sched: Sched{Strategy: "default"}, SeamSeed: r.u64() >> 12}
	c.Sched.MaxSteps = 60e6
	c.Files = map[string]string{"lib": "lib = 42\n\n\n# a comment\nop lib2 x = x, lib\n"}
	nl := r.pick("\n", "\n", "\n", "\r\n")
	good := func(n int) string {
		s := ""
		for i := 0; i < n; i++ {
			t := r.pick("1+1", "2*iota 4", "# a comment", "#", "", "   ", "\t", "x = 3", "x = 3 # three", "op f x = x+1", "op f x = x+1 # inc", "op g x =\n  x+1\n  x*2\n", "op g x =\n  # a comment\n  x+1\n", "y = `raw\nstring\n\nfour`", "`one\n`", "`one`", "1; 2; 3", ")origin 1", ")get 'lib'", "'a # b'", "ivy '1+1'", "ivy '1\\n2\\n3'", "(1 2\t3)", ")base", "opdelete f _", "op f _", longLine(r))
			if t == "opdelete f _" {
				t = "op f x = 1\nopdelete f x"
			}
			s += t + "\n"
		}
		return strings.ReplaceAll(s, "\n", nl)
	}
	bad := r.pick("1/0", "1 + 1/0", "nope", "nope 3", "(1", "1 +", "1)", "1 ]", "x = = 3", "'abc", "1 2 'abc", "\"abc", "3x", "1 2 3x", "3 $ 4", "$", "@", "1; 2; 1/0; 4", "iota -1", ")nope", ")origin -1", ")get 'missing'", "2 3 + 1 2 3", "op", "op f", "op f x = 1 +", "opdelete nope x", "x[", "\x01", "1 \x7f", "ivy '1/0'", "1.2.3")
	text := func(fail bool) string {
		s := good(r.rng(0, 7))
		if fail {
			s += bad
			if r.p(1, 2) {
				s += nl + good(r.rng(0, 3))
				if r.p(1, 2) {
					s += "9900+99" + nl
				}
			}
		}
		return s
	}
	w := r.n(4)
	c.Args = nil
	if w == 0 {
		c.Files["pre"] = text(true)
		c.Args = append(c.Args, "-f", "pre")
		c.Extra = []string{"pre", bad}
	} else if r.p(1, 2) {
		c.Files["pre"] = text(false)
		c.Args = append(c.Args, "-f", "pre")
	}
	switch w {
	case 1:
		c.Args = append(c.Args, "-i", text(true))
		c.Extra = []string{"<args>", bad}
	case 2:
		c.Args = append(c.Args, "-e", text(true))
		c.Extra = []string{"<args>", bad}
	default:
		for i := r.n(3); i > 0; i-- {
			n := fmt.Sprintf("g%d", i)
			c.Files[n] = text(false)
			c.Args = append(c.Args, n)
		}
		if w == 3 {
			c.Files["f1"] = text(true)
			c.Args = append(c.Args, "f1")
			c.Extra = []string{"f1", bad}
		}
	}
	return c
}

// checkC15line judges where the error is said to be.
func checkC15line(e *Env, c *Case) *Violation {
	got := e.run(c.spec(nil))
	if got == nil || got.Outcome == "noprogress" {
		return nil
	}
	e.key = fmt.Sprint(c.Args, c.Files)
	e.nontrivial = true
	cmd := fmt.Sprintf("ivy %q with %q", c.Args, c.Files)
	if bad(got) {
		return badViol(cmd, got)
	}
	if len(c.Extra) != 2 {
		return nil
	}
	name, line := c.Extra[0], c.Extra[1]
	// The text before the failing line does not fail.
	before := c.clone()
	n := 0
	cut := func(t string) string {
		ls := strings.SplitAfter(t, "\n")
		for i, l := range ls {
			if strings.TrimRight(l, "\r\n") == line {
				n = i + 1
				return strings.Join(ls[:i], "")
			}
		}
		return t
	}
	if name == "<args>" {
		for i, a := range c.Args {
			if (a == "-i" || a == "-e") && i+1 < len(c.Args) {
				before.Args[i+1] = cut(c.Args[i+1])
				if before.Args[i+1] == "" {
					before.Args[i+1] = "# nothing\n"
				}
			}
		}
	} else if t, ok := c.Files[name]; ok {
		before.Files[name] = cut(t)
	}
	if n == 0 {
		return nil
	}
	for i, a := range before.Args {
		if a == "-i" || a == "-f" && name == "pre" {
			before.Args = append(before.Args[:i+2:i+2], "-e", "# nothing")
			break
		}
	}
	b := e.run(plain(before.spec(nil)))
	if b == nil || bad(b) || b.Exit != 0 || b.Stderr != "" {
		e.probe("line-baseline")
		return nil
	}
	e.probe("line")
	want := fmt.Sprintf("%s:%d: ", name, n)
	if got.Exit != 1 || !strings.HasPrefix(got.Stderr, want) {
		return viol("line", "%s: the error is in line %d of %s, %q; exit status %d, errors %q", cmd, n, name, line, got.Exit, clip(got.Stderr, 300))
	}
	if got.Stdout != b.Stdout && !strings.Contains(line, ";") || strings.Count(got.Stderr, "\n") != 1 {
		return viol("line", "%s: after the error in line %d of %s there is more: %q, errors %q", cmd, n, name, clip(got.Stdout, 300), clip(got.Stderr, 300))
	}
	return nil
}

// longLine returns a line longer than any buffer.
func longLine(r *RNG) string {
	n := r.rng(1000, 3000)
	if r.p(1, 4) {
		n = r.rng(16000, 36000)
	}
	return "+/ " + strings.TrimSpace(strings.Repeat(fmt.Sprintf("%d ", r.n(100)), n))
}

// A piece is text to run.
type piece struct {
	name, text string
	stdin      bool
	missing    bool
}

var settingSpecial = map[string]string{"origin": "origin", "format": "format", "maxbits": "maxbits", "maxdigits": "maxdigits", "stack": "maxstack", "prompt": "prompt"}

// commandLine says what the arguments mean: the commands that make the same
// settings, and the texts to run in order.
func commandLine(c *Case) (set []string, ps []piece, usage bool) {
	var pre, exec, cont string
	var hasE bool
	vals := map[string]string{}
	var rest []string
	for i := 0; i < len(c.Args); i++ {
		a := c.Args[i]
		if !strings.HasPrefix(a, "-") || a == "-" {
			rest = c.Args[i:]
			break
		}
		name, val, has := strings.Cut(strings.TrimPrefix(a, "-"), "=")
		if name == "g" {
			vals["g"] = "1"
			continue
		}
		if name == "nope" || name == "h" {
			return nil, nil, true
		}
		if !has {
			i++
			if i >= len(c.Args) {
				return nil, nil, true
			}
			val = c.Args[i]
		}
		switch name {
		case "f":
			pre = val
		case "i":
			cont = val
		case "e":
			exec = val
			hasE = val != ""
		case "debug", "origin", "format", "maxbits", "maxdigits", "stack", "prompt":
			switch name {
			case "maxbits", "maxdigits", "stack", "origin":
				if k, err := strconv.Atoi(val); err != nil || k < 0 && name != "origin" {
					return nil, nil, true
				}
			}
			vals[name] = val
		default:
			return nil, nil, true
		}
	}
	if vals["g"] != "" {
		vals["format"] = "%.12g"
	}
	if strings.HasPrefix(vals["origin"], "-") {
		return nil, nil, true
	}
	for _, n := range []string{"format", "maxbits", "maxdigits", "stack", "origin", "prompt"} {
		if v, ok := vals[n]; ok {
			if n == "format" || n == "prompt" {
				v = strconv.Quote(v)
			}
			set = append(set, fmt.Sprintf(")%s %s", settingSpecial[n], v))
		}
	}
	if v := vals["debug"]; v != "" {
		for _, d := range strings.Split(v, ",") {
			if d == "nope" {
				return nil, nil, true
			}
			set = append(set, fmt.Sprintf(")debug %s 1", d))
		}
	}
	file := func(n string) {
		if n == "-" {
			ps = append(ps, piece{name: "-", stdin: true, text: lineText(c.Lines)})
			return
		}
		t, ok := c.Files[n]
		ps = append(ps, piece{name: n, text: t, missing: !ok})
	}
	if pre != "" {
		file(pre)
	}
	if cont != "" {
		ps = append(ps, piece{name: "<args>", text: cont})
	}
	switch {
	case hasE:
		ps = append(ps, piece{name: "<args>", text: exec})
	case len(rest) > 0:
		for _, n := range rest {
			file(n)
		}
	default:
		ps = append(ps, piece{name: "<stdin>", stdin: true, text: lineText(c.Lines)})
	}
	return set, ps, false
}

func lineText(l []string) string {
	if len(l) == 0 {
		return ""
	}
	return strings.Join(l, "\n") + "\n"
}

var allLocRE = regexp.MustCompile(`^all:(\d+): `)

func checkC15(e *Env, c *Case) *Violation {
	if c.Kind == "line" {
		return checkC15line(e, c)
	}
	set, ps, usage := commandLine(c)
	s := c.spec(c.Lines)
	got := e.run(s)
	if got == nil {
		return nil
	}
	e.key = fmt.Sprint(c.Args, c.Files, c.Lines, c.Faults)
	cmd := fmt.Sprintf("ivy %q", c.Args)
	if got.Outcome == "noprogress" || got.Outcome == "crash" {
		// What the text does by itself is not what is judged here.
		return e.baseline(got)
	}
	if usage {
		e.nontrivial = true
		e.probe("usage")
		if got.Exit != 2 || got.Stdout != "" || got.Stderr == "" || len(got.Reads) > 0 {
			return viol("usage", "%s exits with status %d, output %q, errors %q", cmd, got.Exit, clip(got.Stdout, 200), clip(got.Stderr, 200))
		}
		return nil
	}
	if len(ps)+len(set) > 1 {
		e.nontrivial = true
	}
	// The text up to where the standard input comes in, in one file.
	all := ""
	var where []piece // of each line of all
	var lineNo []int
	add := func(p piece) {
		t := strings.TrimSuffix(p.text, "\n")
		for i, l := range strings.Split(t, "\n") {
			all += l + "\n"
			where = append(where, p)
			lineNo = append(lineNo, i+1)
		}
	}
	add(piece{name: "settings", text: strings.Join(set, "\n")})
	missing := ""
	var inter *piece
	var after []piece
	for i, p := range ps {
		if p.missing {
			missing = p.name
			break
		}
		if p.stdin {
			inter = &ps[i]
			after = ps[i+1:]
			break
		}
		if p.text != "" {
			add(p)
		}
	}
	b := c.spec(nil)
	b.Args = []string{"all"}
	b.FS.Faults = nil
	b.FS.Files = map[string]string{"all": all}
	for n, t := range c.Files {
		b.FS.Files[n] = t
	}
	want := e.run(plain(b))
	if want == nil {
		return nil
	}
	if bad(want) {
		return e.baseline(want)
	}
	if bad(got) {
		return badViol(cmd, got)
	}
	if len(got.Faults) > 0 {
		// Nothing but the first part of what would be printed, and a failure.
		e.nontrivial = true
		e.probe("fault")
		if !strings.HasPrefix(want.Stdout, got.Stdout) && !strings.Contains(all, ")") {
			return viol("fault", "%s, with %+v, prints %q, not the start of %q", cmd, c.Faults, clip(got.Stdout, 300), clip(want.Stdout, 300))
		}
		if got.Exit != 1 || got.Stderr == "" {
			return viol("fault", "%s, with %+v, exits with status %d, errors %q", cmd, c.Faults, got.Exit, clip(got.Stderr, 300))
		}
		return nil
	}
	before := ReadEvent{Out: len(got.Stdout), Err: len(got.Stderr)}
	if len(got.Reads) > 0 {
		before = got.Reads[0]
	}
	if inter == nil && len(got.Reads) > 0 {
		return viol("stdin", "%s reads the standard input", cmd)
	}
	o1, e1 := got.Stdout[:before.Out], got.Stderr[:before.Err]
	if inter != nil && len(got.Reads) > 0 {
		// The first prompt is there already.
		o1 = strings.TrimSuffix(o1, finalPrompt(c, set, all))
	}
	if o1 != want.Stdout {
		return viol("output", "%s prints %q; all the text in one file prints %q", cmd, clip(o1, 600), clip(want.Stdout, 600))
	}
	wantErr := want.Stderr
	// The error should be located in the right text.
	ls := strings.Split(wantErr, "\n")
	for i, l := range ls {
		if m := allLocRE.FindStringSubmatch(l); m != nil {
			n, _ := strconv.Atoi(m[1])
			if n >= 1 && n <= len(where) {
				ls[i] = fmt.Sprintf("%s:%d: %s", where[n-1].name, lineNo[n-1], l[len(m[0]):])
			}
		}
	}
	wantErr = strings.Join(ls, "\n")
	if want.Exit != 0 {
		e.probe("error")
		if got.Exit != 1 || len(got.Reads) > 0 {
			return viol("exit", "%s: after the error %q the exit status is %d, and the standard input was read %d times", cmd, clip(wantErr, 200), got.Exit, len(got.Reads))
		}
		if !sameErr(e1, wantErr) {
			return viol("output", "%s prints errors %q; all the text in one file gives errors %q", cmd, clip(e1, 600), clip(wantErr, 600))
		}
		return nil
	}
	if missing != "" {
		e.probe("missing")
		if got.Exit != 1 || !strings.Contains(e1, missing) {
			return viol("missing", "%s: there is no file %s; exit status %d, errors %q", cmd, missing, got.Exit, clip(e1, 300))
		}
		return nil
	}
	if !sameErr(e1, wantErr) {
		return viol("output", "%s prints errors %q; all the text in one file gives errors %q", cmd, clip(e1, 600), clip(wantErr, 600))
	}
	if inter == nil {
		if got.Exit != 0 {
			return viol("exit", "%s: exit status %d, errors %q", cmd, got.Exit, clip(got.Stderr, 300))
		}
		e.probe("texts")
		return nil
	}
	// Then the standard input, as if everything had been typed.
	typed := strings.Split(strings.TrimSuffix(all, "\n"), "\n")
	lines := cat(typed, c.Lines)
	t := c.spec(lines)
	t.Args = nil
	t.FS.Faults = nil
	r := e.run(plain(t))
	if r == nil {
		return nil
	}
	if bad(r) {
		return e.baseline(r)
	}
	a, bo := byLine(got, c.Lines), byLine(r, lines)
	dash := inter.name == "-"
	for i := range c.Lines {
		if i+1 >= len(a) || i+1+len(typed) >= len(bo) {
			break
		}
		x, y := a[i+1], bo[i+1+len(typed)]
		x.Out, y.Out = timingRE.ReplaceAllString(x.Out, ""), timingRE.ReplaceAllString(y.Out, "")
		last := i == len(c.Lines)-1
		if dash {
			if y.Err != "" {
				return nil // An error ends the run of a file.
			}
			if last {
				continue
			}
		}
		x.Err, y.Err = locRE.ReplaceAllString(x.Err, ""), locRE.ReplaceAllString(y.Err, "")
		if x != y {
			return viol("stdin", "%s: typing %q prints %q errors %q, and %q errors %q when everything before was typed too", cmd, c.Lines[i], clip(x.Out, 400), clip(x.Err, 200), clip(y.Out, 400), clip(y.Err, 200))
		}
	}
	if !dash {
		if len(a) != len(c.Lines)+1 || got.Exit != 0 {
			return viol("exit", "%s: the standard input ends with exit status %d after %d lines of %d", cmd, got.Exit, len(a)-1, len(c.Lines))
		}
		e.probe("stdin")
		return nil
	}
	e.probe("dash")
	if len(after) == 0 && got.Exit != 0 {
		return viol("exit", "%s: exit status %d", cmd, got.Exit)
	}
	return nil
}

// timingRE matches how long a line took.
var timingRE = regexp.MustCompile(`(?m)^\([0-9.]+(m[0-9]+)?(s|ms|µs)( \([^()]*\))?\)\n`)

// finalPrompt returns the prompt in force after the text.
func finalPrompt(c *Case, set []string, all string) string {
	p := ""
	for _, l := range set {
		if q, ok := strings.CutPrefix(l, ")prompt "); ok {
			p, _ = strconv.Unquote(q)
		}
	}
	return p
}

// sameErr compares errors; where a line is unfinished, it may be located at
// its start or its end.
func sameErr(a, b string) bool {
	if a == b {
		return true
	}
	if strings.Contains(a, "EOF") && strings.Contains(b, "EOF") {
		return true
	}
	if strings.Contains(a, "bad number syntax") && strings.Contains(b, "EOF") {
		return true // The end comes without a newline.
	}
	return strings.Contains(a, "unterminated") && locRE.ReplaceAllString(a, "") == locRE.ReplaceAllString(b, "")
}
