package main

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// C13: listings, saved workspaces and everything else printed depend on the
// input alone.

func init() {
	properties["C13"] = &Property{
		gen: genC13, check: checkC13, quick: 40, thorough: 900,
		rule: "a case is a session that defines, redefines and deletes many operators and variables and lists, saves and restores them, run several times with different orders of map iteration and select, clocks, processor counts and schedules, the listings, and the settings made and refused, also compared with a model; it is non-trivial if at least three names were listed or saved; distinct by the input",
	}
}

var listNames = []string{"a", "b", "c", "d", "aa", "ab", "ba", "Z", "Y", "zeta", "x1", "x10", "x2", "α", "é", "_z", "n9", "long_name", "LONG", "m", "q", "w", "k", "tt", "Aa", "aA"}

// genC13settings makes settings, rightly and wrongly, and shows them.
func genC13settings(r *RNG) *Case {
	c := &Case{Kind: "settings", Procs: 1, Sched: genSched(r), SeamSeed: r.u64() >> 12}
	c.Lines = append(c.Lines, ")seed "+fmt.Sprint(r.n(1000)))
	for i := r.rng(8, 40); i > 0; i-- {
		n := r.pick("origin", "prec", "prompt", "format", "maxbits", "maxdigits", "maxstack", "seed", "debug", "base", "ibase", "obase")
		num := r.pick("0", "1", "2", "3", "5", "7", "8", "10", "16", "33", "64", "100", "256", "300", "1000", "99999", "123456", "0x10", "010", "2147483647", "-1", "1.5", "x", "3 3", "99999999999", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551616", "18446744073709551617", "99999999999999999999", "")
		str := r.pick(`""`, `"> "`, `"%d"`, `"%.3f"`, `"a\"b"`, `'x y'`, "`raw`", `"é"`, `"\t"`, "3", "nope", `"a" "b"`, `"%x"`, `"%s"`)
		switch r.n(5) {
		case 0, 1:
			switch n {
			case "prompt", "format":
				c.Lines = append(c.Lines, ")"+n+" "+str)
			case "debug":
				c.Lines = append(c.Lines, ")debug "+r.pick("types", "types", "types", "nope")+" "+r.pick("", "0", "1", "2", "x"))
			default:
				c.Lines = append(c.Lines, ")"+n+" "+num)
			}
		case 2, 3:
			c.Lines = append(c.Lines, ")"+n)
		default:
			c.Lines = append(c.Lines, r.pick("1+1", "1/0", "nope", "iota 3", "1/3", "sqrt 2", "x = 3", "op f x = x", "?10 10", ")op", "ivy ')origin'", "ivy ')origin 4'", ")get 'sets'", "rand 1", ")help", ")help unary", ")help settings", ")help rho"))
			if r.p(2, 3) {
				c.Lines = append(c.Lines, "sys '"+r.pick("origin", "prompt", "format", "maxbits", "maxdigits", "maxstack", "base", "ibase", "obase")+"'")
			}
		}
	}
	if r.p(1, 2) {
		c.Lines = append(c.Lines, ")format ''", ")base 0", ")maxdigits 100000", ")base", "sys 'origin'", "sys 'maxbits'", "sys 'maxstack'", "sys 'maxdigits'", "sys 'prompt'", "sys 'base'", "sys 'format'", ")base 10", "sys 'obase'", "sys 'ibase'", ")ibase 8", "sys 'base'", "sys 'ibase'")
	}
	for _, n := range []string{"origin", "prec", "prompt", "format", "maxbits", "maxdigits", "maxstack", "seed", "debug", "base"} {
		c.Lines = append(c.Lines, ")"+n)
	}
	return c
}

var setCmdRE = regexp.MustCompile("^\\)(origin|prec|maxbits|maxdigits|maxstack|seed|base|ibase|obase|prompt|format) (?:(0|[1-9][0-9]*)|\"([^\"\\\\]*)\"|'([^'\\\\]*)'|`([^`]*)`)$")

// checkSettings follows a session that makes and shows settings.
func checkSettings(lines []string, outs []LineOut) *Violation {
	// What is known of the settings; nothing to begin with.
	set := map[string]string{}
	for i, l := range lines {
		if i+1 >= len(outs) {
			break
		}
		o := outs[i+1]
		if strings.HasPrefix(o.Err, "warning: ") { // Not an error.
			_, o.Err, _ = strings.Cut(o.Err, "e and pi")
		}
		text := strings.TrimLeft(o.Out, "\n")
		first, _, _ := strings.Cut(text, "\n")
		m := setCmdRE.FindStringSubmatch(l)
		switch {
		case m != nil && o.Err == "":
			val := m[2]
			if m[1] == "prompt" || m[1] == "format" {
				val = strconv.Quote(m[3] + m[4] + m[5])
			}
			switch m[1] {
			case "base":
				set["ibase"], set["obase"] = val, val
			default:
				set[m[1]] = val
			}
		case m != nil:
			// A refusal changes nothing.
		case l == ")base" || l == ")ibase" || l == ")obase":
			f := strings.Fields(text)
			if o.Err != "" || len(f) < 4 || f[0] != "ibase" || f[2] != "obase" {
				return viol("setting", "%q gives output %q errors %q", l, o.Out, o.Err)
			}
			for j := 0; j < 4; j += 2 {
				if w, ok := set[f[j]]; ok && w != f[j+1] {
					return viol("setting", "%s was set to %s and %q shows %s", f[j], w, l, f[j+1])
				}
				set[f[j]] = f[j+1]
			}
		case l == ")debug":
			for _, x := range strings.Split(text, "\n") {
				n, v, ok := strings.Cut(x, "\t")
				if !ok {
					continue
				}
				if w, ok := set["debug "+n]; ok && w != v {
					return viol("setting", "debug flag %s is %s and )debug shows %s", n, w, v)
				}
				set["debug "+n] = v
			}
		case strings.HasPrefix(l, ")debug "):
			f := strings.Fields(l)
			k := "debug " + f[1]
			if _, known := set[k]; o.Err != "" || f[1] == "nope" || !known {
				delete(set, k)
				if len(f) == 3 && o.Err == "" && f[1] != "nope" {
					set[k] = f[2]
				}
				break
			}
			if len(f) == 3 {
				set[k] = f[2]
			} else if set[k] == "0" {
				set[k] = "1"
			} else {
				set[k] = "0"
			}
		case strings.HasPrefix(l, ")") && !strings.Contains(l, " ") && l != ")op":
			n := l[1:]
			if o.Err != "" {
				return viol("setting", "%q gives output %q errors %q", l, o.Out, o.Err)
			}
			if w, ok := set[n]; ok && w != first {
				return viol("setting", "%s was set to %s and %q shows %s", n, w, l, first)
			}
			set[n] = first
		case o.Err == "" && strings.HasPrefix(l, ")") && l != ")op":
			// Something the model does not follow.
			set = map[string]string{}
		case strings.HasPrefix(l, "sys '"):
			n := strings.Trim(l[4:], "'")
			if o.Err != "" {
				return viol("setting", "%q gives output %q errors %q", l, o.Out, o.Err)
			}
			if strings.HasPrefix(first, "value.") || strings.HasPrefix(first, "*value.") { // )debug types
				_, text, _ = strings.Cut(text, "\n")
				first, _, _ = strings.Cut(text, "\n")
			}
			want, known := set[n]
			if n == "base" {
				var k2 bool
				want, known = set["ibase"]+" "+set["obase"], set["ibase"] != ""
				_, k2 = set["obase"]
				known = known && k2
			}
			if n != "prompt" && n != "format" {
				// Numbers are shown as the settings say.
				digits, _ := strconv.Atoi(set["maxdigits"])
				if set["format"] != `""` || set["obase"] != "0" && set["obase"] != "10" || set["maxdigits"] != "0" && digits < 20 {
					known = false
				}
			}
			if known && want != first {
				return viol("setting", "%s was set to %s and %q shows %s", n, want, l, first)
			}
		case strings.HasPrefix(l, "ivy"):
			delete(set, "origin")
		}
		if p, err := strconv.Unquote(set["prompt"]); err == nil && !strings.Contains(l, "\n") && !strings.HasSuffix(o.Out, p) {
			return viol("setting", "the prompt is %q and what is written after %q is %q", p, l, o.Out)
		}
	}
	return nil
}

func genC13(r *RNG) *Case {
	if r.p(1, 6) {
		return genC13settings(r)
	}
	c := &Case{Kind: r.pick("names", "names", "names", "mixed", "many"), Procs: r.rng(1, 6), MinWork: true, Sched: genSched(r), SeamSeed: r.u64() >> 12}
	c.Sched.MaxSteps = 30e6
	g := newGen(r, false)
	if c.Kind == "mixed" {
		c.Setup = g.setup()
	}
	vars := map[string]bool{}
	if c.Kind == "many" {
		// A lot of names, many alike.
		n := []int{20, 40, 70, 130, 260, 400}[r.n(6)]
		ops := []int{0, 0, n / 4, n}[r.n(4)]
		for i := 0; i < n; i++ {
			name := r.pick("v", "V", "name", "Name", "x_", "é", "β") + fmt.Sprint(r.n(2*n))
			if r.n(n) < ops {
				name = "f" + name
				c.Lines = append(c.Lines, r.pick("op "+name+" x = x", "op x "+name+" y = y", "op "+name+" x"))
			} else {
				c.Lines = append(c.Lines, fmt.Sprintf("%s = %d", name, i+1))
			}
		}
	}
	uses := func() string {
		// Variables and operators by name; either may not exist.
		l := []string{"x", "x", "1"}
		for i := r.n(3); i > 0; i-- {
			l = append(l, listNames[r.n(len(listNames))])
		}
		return strings.Join(l[1:], r.pick("+", "*", ",", " max "))
	}
	for i := r.rng(6, 40); i > 0; i-- {
		n := listNames[r.n(len(listNames))]
		switch r.n(20) {
		case 0, 1, 2, 3:
			c.Lines = append(c.Lines, fmt.Sprintf("op %s x = %s", n, uses()))
		case 4, 5:
			c.Lines = append(c.Lines, fmt.Sprintf("op x %s y = y, %s", n, uses()))
		case 6:
			c.Lines = append(c.Lines, fmt.Sprintf("op %s x", n))
		case 7:
			c.Lines = append(c.Lines, r.pick("opdelete "+n+" x", "opdelete x "+n+" y"))
		case 8, 9, 10, 11, 12:
			vars[n] = true
			c.Lines = append(c.Lines, fmt.Sprintf("%s = %s", n, r.pick(g.scalarLit(), g.vecLit(r.rng(1, 6), "int"), g.str(), "2 3 rho iota 6", "1 'ab' (2 3)")))
		case 13:
			c.Lines = append(c.Lines, ")op")
		case 14:
			c.Lines = append(c.Lines, ")var")
		case 15:
			c.Lines = append(c.Lines, r.pick(")save 'ws'", ")save '<conf.out>'", ")get 'ws'"))
		case 16:
			c.Lines = append(c.Lines, r.pick(")op "+n, ")var "+n, ")debug", ")help rho", ")help +", ")help about rho", ")help about o", ")help nothing", ")help iota", ")help -", "sys 'help'", ")base", ")origin"))
		case 17:
			c.Lines = append(c.Lines, r.pick(n+" 3", "2 "+n+" 3", n, "nope", "1/0"))
		case 18:
			c.Lines = append(c.Lines, g.expr())
		case 19:
			c.Lines = append(c.Lines, r.pick(")seed 5", "?10 10 10", "rand 3", "nope 1 2", "op f x = y = x; z = y; q1 = z; nope z", "f 3", "sys 'sec' > 0", ")origin 0", ")obase 16", ")obase 0"))
		}
	}
	c.Lines = append([]string{")seed 1"}, c.Lines...)
	c.Lines = append(c.Lines, ")op", ")var")
	for i := r.n(8); i > 0; i-- {
		c.Lines = append(c.Lines, r.pick(")var ", ")op ")+listNames[r.n(len(listNames))])
	}
	c.Lines = append(c.Lines, ")save 'end'", ")save '<conf.out>'")
	return c
}

var (
	defRE   = regexp.MustCompile(`^op (?:x )?([^ ]+)(?: x| y)?( =.*)?$`)
	uniOpRE = regexp.MustCompile(`^op ([^ ]+) x(?: =.*)?$`)
	binOpRE = regexp.MustCompile(`^op x ([^ ]+) y(?: =.*)?$`)
	uniDlRE = regexp.MustCompile(`^opdelete ([^ ]+) x$`)
	binDlRE = regexp.MustCompile(`^opdelete x ([^ ]+) y$`)
	setRE   = regexp.MustCompile(`^([\pL_][\pL\pN_]*) = `)
)

func sortedKeys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func checkC13(e *Env, c *Case) *Violation {
	lines := cat(c.Setup, c.Lines)
	s := c.spec(lines)
	base := e.run(plain(s))
	if base == nil {
		return nil
	}
	if bad(base) {
		return e.baseline(base)
	}
	e.key = fmt.Sprint(lines)
	outs := byLine(base, lines)
	if c.Kind == "settings" {
		e.nontrivial = true
		e.probe("settings")
		if v := checkSettings(lines, outs); v != nil {
			return v
		}
	}
	// A model of the names.
	un, bin, vars := map[string]bool{}, map[string]bool{}, map[string]bool{}
	known := true // the model knows the names
	for i, l := range lines {
		if i+1 >= len(outs) || c.Kind == "settings" {
			break
		}
		o := outs[i+1]
		ok := o.Err == ""
		switch m := uniOpRE.FindStringSubmatch(l); {
		case strings.HasPrefix(l, ")get") || i < len(c.Setup):
			known = false
		case m != nil && ok:
			un[m[1]] = true
			delete(vars, m[1]) // A variable that is zero makes way.
		case binOpRE.MatchString(l) && ok:
			bin[binOpRE.FindStringSubmatch(l)[1]] = true
			delete(vars, binOpRE.FindStringSubmatch(l)[1])
		case uniDlRE.MatchString(l) && ok:
			delete(un, uniDlRE.FindStringSubmatch(l)[1])
		case binDlRE.MatchString(l) && ok:
			delete(bin, binDlRE.FindStringSubmatch(l)[1])
		case setRE.MatchString(l) && ok:
			vars[setRE.FindStringSubmatch(l)[1]] = true
		case l == ")op" && ok:
			want := ""
			if len(un) > 0 {
				want += " Unary: " + strings.Join(sortedKeys(un), " ")
			}
			if len(bin) > 0 {
				want += " Binary: " + strings.Join(sortedKeys(bin), " ")
			}
			if got := squeeze(o.Out); known && got != squeeze(want) {
				return viol("list", "the operators are %q and )op prints %q", squeeze(want), got)
			}
			f := strings.Fields(o.Out)
			for j := 1; j < len(f); j++ {
				if f[j-1] > f[j] && f[j] != "Binary:" && f[j-1] != "Unary:" && f[j-1] != "Binary:" {
					return viol("list", ")op prints %q, which is not in order", squeeze(o.Out))
				}
			}
			if len(f) > 3 {
				e.nontrivial = true
				e.probe("op-listed")
			}
		case l == ")var" && ok:
			var f []string
			for _, n := range strings.Fields(o.Out) {
				// These come and go by themselves.
				if n == "_" || n == "e" || n == "pi" {
					continue
				}
				f = append(f, n)
			}
			if !sort.StringsAreSorted(f) {
				return viol("list", ")var prints %q, which is not in order", squeeze(o.Out))
			}
			for n := range vars {
				if n == "_" || n == "e" || n == "pi" {
					delete(vars, n)
				}
			}
			if want := sortedKeys(vars); known && strings.Join(f, " ") != strings.Join(want, " ") {
				return viol("list", "the variables are %q and )var prints %q", want, f)
			}
			if len(f) > 3 {
				e.nontrivial = true
				e.probe("var-listed")
			}
		case !strings.HasPrefix(l, ")") && (strings.Contains(l, "ivy") || strings.HasPrefix(l, "op") || len(assigned(l)) > 0):
			// Something else that might define a name.
			known = known && (strings.HasPrefix(l, "op f x") && ok || !ok && defRE.MatchString(l))
			if strings.HasPrefix(l, "op f x") {
				un["f"] = true
			}
		}
	}
	if v := checkShown(e, c, lines, outs, base.Files["end"]); v != nil {
		return v
	}
	for k := uint64(1); k <= 4; k++ {
		t := c.spec(lines)
		if k != 4 {
			t = plain(t)
		}
		t.SeamSeed = c.SeamSeed + k*7919
		t.Clock.Wall += int64(k) * 1e15
		got := e.run(t)
		if got == nil {
			return nil
		}
		what := "with another order of map iteration"
		if k == 4 {
			what += " and several processors"
		}
		if v := sameSession(what, lines, base, got); v != nil {
			return v
		}
		for _, n := range []string{"ws", "end"} {
			if base.Files[n] != got.Files[n] {
				v := viol("differs", "%s: the saved workspace differs: %s", what, diffText(base.Files[n], got.Files[n]))
				v.sched = got
				return v
			}
		}
	}
	return nil
}

var showRE = regexp.MustCompile(`^\)(op|var) ([^ ]+)$`)

// checkShown compares what )op and )var show of a name just before the
// workspace is saved with what is saved.
func checkShown(e *Env, c *Case, lines []string, outs []LineOut, end string) *Violation {
	if c.Kind == "settings" || strings.Contains(strings.Join(lines, "\n"), "base") {
		return nil
	}
	at := -1
	for i, l := range lines {
		if l == ")save 'end'" {
			at = i
		}
	}
	if at < 0 || at+1 >= len(outs) || outs[at+1].Err != "" {
		return nil
	}
	// What is saved, by name.
	saved := map[string]string{}
	f := strings.Split(end, "\n")
	for i := 0; i < len(f); i++ {
		if m := setRE.FindStringSubmatch(f[i]); m != nil {
			text := f[i]
			for i+1 < len(f) && !setRE.MatchString(f[i+1]) && !strings.HasPrefix(f[i+1], "#") && !strings.HasPrefix(f[i+1], ")") {
				i++
				text += " " + f[i]
			}
			saved["var "+m[1]] = text
			continue
		}
		name := ""
		if m := uniOpRE.FindStringSubmatch(f[i]); m != nil {
			name = m[1]
		} else if m := binOpRE.FindStringSubmatch(f[i]); m != nil {
			name = m[1]
		}
		if name != "" && strings.Contains(f[i], "=") {
			saved["op "+name] += "\n" + f[i]
		}
	}
	for i := at - 1; i >= 0; i-- {
		m := showRE.FindStringSubmatch(lines[i])
		if m == nil {
			break
		}
		o := outs[i+1]
		want, ok := saved[m[1]+" "+m[2]]
		switch got := squeeze(o.Out); {
		case m[2] == "_" || m[2] == "e" || m[2] == "pi":
		case !ok && m[1] == "op":
			// It may be a declaration without a body.
		case !ok && o.Err == "":
			return viol("shown", "%s shows %q and nothing of that name is saved", lines[i], clip(got, 300))
		case ok && o.Err != "":
			return viol("shown", "%s gives the error %q and the workspace saved next has %q", lines[i], clip(o.Err, 200), clip(squeeze(want), 300))
		case ok && m[1] == "var" && got != squeeze(want), ok && m[1] == "op" && !hasAll(got, want):
			return viol("shown", "%s shows %q and the workspace saved next has %q", lines[i], clip(got, 300), clip(squeeze(want), 300))
		case ok:
			e.probe("shown")
		}
	}
	return nil
}

// hasAll says whether text has all of the definitions.
func hasAll(text, defs string) bool {
	for _, d := range strings.Split(defs, "\n") {
		if !strings.Contains(text, squeeze(d)) {
			return false
		}
	}
	return true
}
