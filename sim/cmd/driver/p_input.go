package main

import (
	"fmt"
	"strings"
)

// C05: how the input is cut into reads never shows, and every line is
// answered before the next is read. C06: failing reads.

func init() {
	properties["C05"] = &Property{
		gen: genC05, check: checkC05, quick: 45, thorough: 900,
		rule: "a case is a session (expressions, assignments, failing lines, multi-line operator definitions, comments, blank lines, very long lines, non-ASCII text, with or without a final newline) delivered whole, cut at random byte positions, line by line, and with CRLF line endings; it is non-trivial if some read ended inside a line; distinct by the text and the cuts",
	}
	properties["C06"] = &Property{
		gen: genC06, check: checkC06, quick: 45, thorough: 900,
		rule: "a case is a session whose input (standard input, a file on the command line, a file run by )get, or one read by sys \"read\") fails with an I/O error at a chosen byte, or cannot be opened; it is non-trivial if the fault was injected; distinct by the text, the kind and the offset",
	}
}

// sessionUnits writes a varied session.
func sessionUnits(r *RNG, g *Gen, n int) []string {
	var out []string
	out = append(out, g.setup()...)
	if r.p(1, 2) {
		out = append(out, g.userOps()...)
	}
	if r.p(2, 3) {
		// Keep sessions short: only some of the setup.
		var l []string
		for _, s := range out {
			if r.p(1, 2) {
				l = append(l, s)
			}
		}
		out = l
	}
	for i := 0; i < n; i++ {
		switch r.n(20) {
		case 0:
			out = append(out, "")
		case 1:
			out = append(out, "# a comment, 世界 'quote \"")
		case 2:
			out = append(out, r.pick("op f9 x =\n\tx > 3: x*2\n\n", "op x g9 y =\n a = x\n # comment\n a+y\n", "op h9 x = x; x+1", "op f8 n =\n\tn <= 1: 1\n\tn * f8 n-1\n", "opdelete f9 x"))
		case 3:
			out = append(out, r.pick("1 +", "(2", "'abc", "nope", "1/0", ")nope", "2 3 + 1 2 3", "x[9]", "op f7 x = y +", "\"世", "1 2 @", ")origin -1", "é é"))
		case 4:
			k := r.pick("900", "2000", "5000", "20000")
			var nn int
			fmt.Sscan(k, &nn)
			out = append(out, "+/ "+strings.TrimSpace(strings.Repeat(fmt.Sprintf("%d ", r.n(100)), nn)))
		case 5:
			out = append(out, "# "+strings.Repeat("long comment ", r.rng(300, 6000)))
		case 6:
			out = append(out, "'"+strings.Repeat(r.pick("a", "é", "世"), r.rng(1, 6000))+"'")
		case 7:
			out = append(out, r.pick("\"世界\" , 'é'", "rot '日本語 text'", "  1   +  2  ", "\t3", "1;2;3", "; 1", "1 # tail", "'#'", "x = 'a # b'; x", "count 'αβγ'", "'\\n'", "code '\\u4e16'"))
		case 8:
			out = append(out, r.pick(")origin", ")prec", ")format", ")base 16\n1F\n)base 10", ")origin 0\niota 3\n)origin 1", ")op", ")var", ")ibase 16\nFF\n)ibase 0", ")obase 2\n10\n)obase 0", ")prompt '? '\n1+1", ")format '%.3f'\n1/3\n)format ''", ")help iota"))
		case 9:
			out = append(out, r.pick("ivy '1+1'", "ivy \"1\\n2\"", "ivy '1+'"))
		case 10, 11:
			l, _ := g.assign()
			out = append(out, l)
		case 12, 13:
			out = append(out, corpus(r, fragments, r.rng(1, 2))...)
		default:
			out = append(out, g.expr())
		}
	}
	return out
}

func genC05(r *RNG) *Case {
	c := &Case{Kind: "generated", Procs: r.rng(1, 4), MinWork: r.p(1, 2), Sched: genSched(r), SeamSeed: r.u64() >> 12}
	c.Sched.MaxSteps = 60e6
	c.Lines = sessionUnits(r, newGen(r, false), r.rng(3, 16))
	if r.p(1, 2) {
		c.Args = []string{"-prompt", r.pick("> ", "ivy: ", "\t", "世")}
	}
	for i := r.rng(1, 40); i > 0; i-- {
		switch r.n(5) {
		case 0:
			c.Chunks = append(c.Chunks, 1)
		case 1:
			c.Chunks = append(c.Chunks, r.rng(1, 5))
		case 2, 3:
			c.Chunks = append(c.Chunks, r.rng(1, 80))
		default:
			c.Chunks = append(c.Chunks, []int{4095, 4096, 4097, 1000, 8192}[r.n(5)])
		}
	}
	c.Num = int64(r.n(4)) // 0: no final newline
	for i := 0; i < 3; i++ {
		c.Marks = append(c.Marks, r.n(len(c.Lines)+1))
	}
	return c
}

// cut cuts text into chunks of the given sizes, over and over.
func cut(text string, sizes []int) []string {
	var out []string
	if len(sizes) == 0 {
		sizes = []int{1 << 30}
	}
	for i := 0; text != ""; i++ {
		n := min(len(text), sizes[i%len(sizes)])
		out = append(out, text[:n])
		text = text[n:]
	}
	return out
}

func checkC05(e *Env, c *Case) *Violation {
	text := strings.Join(c.Lines, "\n")
	if c.Num != 0 && len(c.Lines) > 0 {
		text += "\n"
	}
	s := c.spec(nil)
	p := plain(s)
	p.Stdin = []string{text}
	base := e.run(p)
	if base == nil {
		return nil
	}
	if bad(base) {
		return e.baseline(base)
	}
	same := func(what string, got *Result) *Violation {
		if bad(got) {
			return badViol(what, got)
		}
		var v *Violation
		switch {
		case got.Stdout != base.Stdout:
			v = viol("differs", "%s: %s", what, diffText(base.Stdout, got.Stdout))
		case got.Stderr != base.Stderr:
			v = viol("differs", "%s, in the errors: %s", what, diffText(base.Stderr, got.Stderr))
		case got.Exit != base.Exit:
			v = viol("differs", "%s: exit status %d instead of %d", what, got.Exit, base.Exit)
		}
		if v != nil {
			v.sched = got
		}
		return v
	}
	// Cut up.
	s.Stdin = cut(text, c.Chunks)
	for _, x := range s.Stdin {
		if !strings.HasSuffix(x, "\n") {
			e.nontrivial = true
		}
	}
	e.probe(fmt.Sprintf("chunks-%d", min(50, len(s.Stdin)/10*10)))
	e.key = fmt.Sprint(text, c.Chunks)
	got := e.run(s)
	if got == nil {
		return nil
	}
	if v := same("with the input cut into chunks", got); v != nil {
		return v
	}
	// With CRLF.
	p.Stdin = cut(strings.ReplaceAll(text, "\n", "\r\n"), c.Chunks)
	got = e.run(p)
	if got == nil {
		return nil
	}
	if v := same("with CRLF line endings", got); v != nil {
		return v
	}
	if c.Num == 0 && !strings.HasSuffix(text, "\n") && !strings.Contains(text, ")prompt") {
		// With a newline at the end, which may be missing.
		q := plain(c.spec(nil))
		q.Stdin = []string{text + "\n"}
		if got = e.run(q); got == nil {
			return nil
		}
		if bad(got) {
			return badViol("with a newline at the end", got)
		}
		prompt := ""
		for i, a := range c.Args {
			if a == "-prompt" {
				prompt = c.Args[i+1]
			}
		}
		e.probe("final-newline")
		strip := func(s string) string {
			for {
				t := strings.TrimSuffix(strings.TrimRight(s, "\n"), prompt)
				if t == s {
					return s
				}
				s = t
			}
		}
		if x, y := strip(got.Stdout), strip(base.Stdout); x != y {
			return viol("newline", "without a newline at the very end: %s", diffText(x, y))
		}
		if got.Stderr != base.Stderr {
			return viol("newline", "without a newline at the very end, in the errors: %s", diffText(got.Stderr, base.Stderr))
		}
	}
	if c.Num == 0 {
		// With CRLF but for the very last character.
		p.Stdin = cut(strings.ReplaceAll(text, "\n", "\r\n")+"\r", c.Chunks)
		if got = e.run(p); got == nil {
			return nil
		}
		if v := same("with CRLF line endings, the last of them without its newline", got); v != nil {
			return v
		}
	}
	if c.Num == 0 {
		return nil
	}
	// Line by line, each answered before the next is read.
	var lines []string
	for _, u := range c.Lines {
		lines = append(lines, strings.Split(u, "\n")...)
	}
	p.Stdin = nil
	for _, l := range lines {
		p.Stdin = append(p.Stdin, l+"\n")
	}
	got = e.run(p)
	if got == nil {
		return nil
	}
	if v := same("line by line", got); v != nil {
		return v
	}
	for _, m := range c.Marks {
		if m > len(c.Lines) {
			continue
		}
		q := *p
		var n, size int
		for _, u := range c.Lines[:m] {
			n += 1 + strings.Count(u, "\n")
			size += len(u) + 1
		}
		q.Stdin = p.Stdin[:n]
		pre := e.run(&q)
		if pre == nil {
			return nil
		}
		if bad(pre) {
			continue
		}
		for _, ev := range got.Reads {
			if ev.In != size {
				continue
			}
			e.probe("answered")
			if got.Stdout[:ev.Out] != pre.Stdout || got.Stderr[:ev.Err] != pre.Stderr {
				last := "(start)"
				if m > 0 {
					last = c.Lines[m-1]
				}
				return viol("late", "after %q, when it reads on, it has written %q and errors %q, but those lines alone give %q and errors %q", clip(last, 200), clip(tail(got.Stdout[:ev.Out]), 300), clip(tail(got.Stderr[:ev.Err]), 300), clip(tail(pre.Stdout), 300), clip(tail(pre.Stderr), 300))
			}
			break
		}
	}
	return nil
}

func tail(s string) string {
	if len(s) > 200 {
		return "..." + s[len(s)-200:]
	}
	return s
}

// ---- C06 ----

func genC06(r *RNG) *Case {
	c := &Case{Kind: r.pick("stdin", "stdin", "arg", "flag", "get", "get", "sysread", "open"), Procs: 1}
	g := newGen(r, false)
	if c.Kind == "sysread" || c.Kind == "open" {
		c.Lines = []string{"first line", "second", "", "1 2 3", strings.Repeat("x", r.rng(1, 9000)), "last"}
	} else {
		c.Lines = sessionUnits(r, g, r.rng(2, 12))
		// Lines whose execution shows.
		for i := range c.Lines {
			if r.p(1, 4) {
				c.Lines = append(c.Lines[:i], append([]string{fmt.Sprintf("shown%d = %d; shown%d, 123456789", i, i, i)}, c.Lines[i:]...)...)
			}
		}
	}
	n := len(strings.Join(c.Lines, "\n")) + 1
	c.Off = r.n(n + 1)
	if r.p(1, 6) {
		c.Off = min(n, 4096*r.rng(0, 2)+r.n(3))
	}
	c.StdinErr = r.pick("EIO", "EIO", "EISDIR", "EBADF", "EINTR")
	if c.Kind == "stdin" && r.p(1, 3) {
		c.StdinErr += "-once" // the next read gives the end
	}
	if c.Kind == "open" {
		c.StdinErr = r.pick("EACCES", "ENOENT", "EMFILE", "EIO", "EISDIR")
	}
	if r.p(1, 3) {
		c.Short = r.rng(1, 200)
	}
	for i := r.rng(1, 10); i > 0; i-- {
		c.Chunks = append(c.Chunks, r.rng(1, 300))
	}
	return c
}

func checkC06(e *Env, c *Case) *Violation {
	text := strings.Join(c.Lines, "\n") + "\n"
	off := min(c.Off, len(text))
	// The complete lines, and the complete units, before the error.
	whole := text[:strings.LastIndexByte(text[:off], '\n')+1]
	units, pos := "", 0
	for _, u := range c.Lines {
		pos += len(u) + 1
		if pos <= off {
			units = text[:pos]
		}
	}
	mid := units != whole // an incomplete unit has run in part
	e.key = fmt.Sprint(c.Kind, off, text)
	flt := []Fault{{Op: "read", At: off, Err: c.StdinErr, File: "prog"}}
	spec := func(args ...string) *Spec {
		return &Spec{Kind: "main", Args: args, Procs: 1, Sched: Sched{Strategy: "default"}, Clock: c.Clock, FS: FS{Files: map[string]string{}, Short: c.Short, Seed: c.Seed}}
	}
	var good, faulty *Spec
	session := false
	switch c.Kind {
	case "stdin":
		good, faulty = spec(), spec()
		good.Stdin = []string{units}
		faulty.Stdin = cut(text[:off], c.Chunks)
		faulty.StdinErr = c.StdinErr
	case "arg", "flag":
		args := []string{"prog.ivy"}
		if c.Kind == "flag" {
			args = []string{"-f", "prog.ivy", "-e", "'after'"}
		}
		good, faulty = spec(args...), spec(args...)
		good.FS.Files["prog.ivy"] = units
		faulty.FS.Files["prog.ivy"] = text
		faulty.FS.Faults = flt
	case "get":
		good, faulty = spec(), spec()
		session = true
		for i, s := range []*Spec{good, faulty} {
			s.Stdin = []string{"11+11\n", ")get 'prog.ivy'\n", dumpCmd + "\n", "22+22\n", ")get 'other'\n", dumpCmd + "\n"}
			s.FS.Files["other"] = "33+33\nzz = 5\n"
			s.FS.Files["prog.ivy"] = []string{units, text}[i]
		}
		faulty.FS.Faults = flt
	case "sysread", "open":
		// No value, an error, and nothing assigned.
		s := spec()
		s.FS.Files["prog"] = text
		s.FS.Files["other"] = "33+33\n"
		if c.Kind == "open" {
			flt = []Fault{{Op: "open", N: 1, All: true, Err: c.StdinErr, File: "prog"}}
		}
		s.FS.Faults = flt
		lines := []string{"x = 5", "x = sys 'read' 'prog'", "x", ")get 'prog'", "rho sys 'read' 'other'", ")get 'other'", "x"}
		for _, l := range lines {
			s.Stdin = append(s.Stdin, l+"\n")
		}
		r := e.run(s)
		if r == nil {
			return nil
		}
		if bad(r) {
			return badViol("with a file that cannot be read", r)
		}
		e.nontrivial = true
		e.probe(c.Kind)
		o := byLine(r, lines)
		if len(o) != len(lines)+1 {
			return viol("ended", "the session ends after %d lines", len(o)-1)
		}
		switch {
		case o[2].Err == "":
			return viol("silent", "%q says nothing of the read error %s at byte %d of %d: it writes %q", lines[1], c.StdinErr, off, len(text), clip(o[2].Out, 300))
		case strings.TrimSpace(o[3].Out) != "5" || strings.TrimSpace(o[7].Out) != "5":
			return viol("assigned", "after %q fails, x is %q", lines[1], clip(o[3].Out, 300))
		case o[4].Err == "":
			return viol("silent", "%q says nothing of the error %s at byte %d of %d", lines[3], c.StdinErr, off, len(text))
		case strings.TrimSpace(o[5].Out) != "1" || o[5].Err != "" || strings.TrimSpace(o[6].Out) != "66" || o[6].Err != "":
			return viol("after", "after a failed read, other files are not read: %q %q %q %q", o[5].Out, o[5].Err, o[6].Out, o[6].Err)
		case len(r.Open) > 0:
			return viol("open", "files left open: %v", r.Open)
		}
		return nil
	}
	want := e.run(good)
	if want == nil {
		return nil
	}
	if bad(want) {
		return e.baseline(want)
	}
	got := e.run(faulty)
	if got == nil {
		return nil
	}
	what := fmt.Sprintf("%s failing with %s at byte %d of %d", c.Kind, c.StdinErr, off, len(text))
	if bad(got) {
		return badViol(what, got)
	}
	if len(got.Faults) == 0 && c.Kind != "stdin" {
		// It stopped before reaching the bad place.
		e.probe("not-reached")
		return nil
	}
	e.nontrivial = true
	e.probe(c.Kind)
	if c.Kind == "stdin" {
		var ev ReadEvent
		for _, x := range got.Reads {
			if x.In == off {
				ev = x
				break
			}
		}
		if mid {
			// Part of a unit ran; the units before it must have.
			if !strings.HasPrefix(got.Stdout, strings.TrimSuffix(want.Stdout, "")) {
				return viol("lost", "%s: lines before it did not run as they should: %s", what, diffText(want.Stdout, got.Stdout))
			}
		} else {
			if got.Stdout[:ev.Out] != want.Stdout {
				return viol("ran", "%s: when the read fails it has written %q instead of %q", what, clip(tail(got.Stdout[:ev.Out]), 300), clip(tail(want.Stdout), 300))
			}
			if rest := strings.TrimSpace(got.Stdout[ev.Out:]); rest != "" && !strings.Contains(text, ")prompt") {
				return viol("ran", "%s: after the read failed it wrote %q", what, clip(rest, 300))
			}
			if !strings.HasPrefix(got.Stderr, want.Stderr) {
				return viol("ran", "%s: errors %q instead of %q", what, clip(tail(got.Stderr), 300), clip(tail(want.Stderr), 300))
			}
			if strings.TrimSpace(got.Stderr[len(want.Stderr):]) == "" {
				return viol("silent", "%s: nothing is said of the error", what)
			}
		}
		if partial := text[len(whole):off]; strings.Contains(partial, "123456789") && strings.Contains(got.Stdout[ev.Out:], "123456789") {
			return viol("ran", "%s: the incomplete line %q ran", what, clip(partial, 200))
		}
		return nil
	}
	if session {
		lines := []string{"11+11", ")get 'prog.ivy'", dumpCmd, "22+22", ")get 'other'", dumpCmd}
		a, b := byLine(want, lines), byLine(got, lines)
		if len(a) != 7 || len(b) != 7 {
			if len(a) == len(b) {
				return nil
			}
			return viol("ended", "%s: the session ends after %d lines instead of %d", what, len(b)-1, len(a)-1)
		}
		if strings.TrimSpace(a[2].Err) != "" {
			// The file has an error of its own, at which )get stops.
			e.probe("stops-itself")
			return nil
		}
		if strings.TrimSpace(b[2].Err) == "" {
			return viol("silent", "%s: nothing is said of the error; it writes %q", what, clip(tail(b[2].Out), 300))
		}
		if mid {
			return nil
		}
		for i := range a {
			if i == 2 {
				a[i].Err, b[i].Err = "", ""
				a[i].Out, b[i].Out = strings.TrimRight(a[i].Out, " \n"), strings.TrimRight(b[i].Out, " \n")
			}
			if a[i] != b[i] {
				return viol("ran", "%s: the session is not as if only the complete lines had run: line %d: %s%s", what, i, diffText(a[i].Out, b[i].Out), diffText(a[i].Err, b[i].Err))
			}
		}
		if len(got.Open) > 0 {
			return viol("open", "%s: files left open: %v", what, got.Open)
		}
		return nil
	}
	// A program file.
	if want.Exit != 0 {
		e.probe("stops-itself")
		return nil
	}
	if got.Exit == 0 {
		return viol("status", "%s: the exit status is 0", what)
	}
	if strings.TrimSpace(got.Stderr) == "" {
		return viol("silent", "%s: nothing is said of the error", what)
	}
	if !mid && got.Stdout != strings.TrimSuffix(want.Stdout, "after\n") {
		return viol("ran", "%s: %s", what, diffText(strings.TrimSuffix(want.Stdout, "after\n"), got.Stdout))
	}
	return nil
}
