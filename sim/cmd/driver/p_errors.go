package main

import (
	"fmt"
	"strings"
)

// C09: a line that fails leaves no trace but its error message.

func init() {
	properties["C09"] = &Property{
		gen: genC09, check: checkC09, quick: 60, thorough: 1200,
		rule: "a case is a session in which lines that fail (while being scanned, parsed, defined, evaluated on one or more processors, indexed, assigned, too deep in a recursion, beyond the limit on bits, or because a file is missing, unreadable, fails half way or cannot be written) are mixed with lines that do not, run under a seeded schedule with faults, and the same session without the lines that failed; it is non-trivial if some such line failed; distinct by the session",
	}
}

// failing writes a line that ought to fail and, failing, change nothing.
func failing(g *Gen) string {
	r := g.RNG
	switch r.n(15) {
	case 0: // Syntax.
		return r.pick("1 +", "(2", ")", "2)", "]", "'abc", "\"abc", "1 2 @", "x y z = 3", "3 = 4", "[1]", "v[", "v[1", "0x", "1e", "1/", "$", "1 + + ) 2 ; 4 'abc", "+", "*/", "o.*", "1 o. 2", "(1 2", "((1)", "v[1]]", "1 ;; (", "\\", "'ab\\q'", "1..2", "1.5.3", "99x", "1j", "::", "3:4", "é é", "_ _ = 3", "op", "op 3", "opdelete", "{", "~", "1 @@ 2", "3 'x", "v[1;;", "'\\u12'")
	case 1: // Syntax error after something that would have had an effect.
		return r.pick("a = 77; 1 +", "v[1] = 1000; (2", "tally 5; 3 3 @ (", "newvar1 = 3; 'abc", "m[1;1] = 8; ]", "s = 'new'; 1 2 [", "v = 0; 1 +", "total = 50; )", "_ = 9; (", "a = b = 4; 2 *")
	case 2: // Specials.
		return r.pick(")origin -1", ")origin x", ")origin 'a'", ")base 99", ")base 1", ")ibase 40", ")obase 17", ")obase x", ")base x", ")ibase 1", ")prec 0", ")prec -3", ")prec 99999999", ")prec x", ")maxbits -1", ")maxbits x", ")maxdigits x", ")maxdigits 99999999999", ")maxstack x", ")maxstack 'a'", ")debug 3", ")debug types x", ")format 3", ")format x", ")nope", ")nope 3", ")timezone \"Nowhere/Else\"", ")timezone 3", ")seed x", ")seed -1", ")prompt 3", ")prompt x", ")op nope", ")var nope", ")op 3", ")var 3", ")get 3", ")save 3", ")demo 3", ")", ")3", ")seed 99999999999999999999", ")origin 99999999999", ")base 1/2", ")origin 1.5",
			")origin 0 junk", ")origin 3 3", ")prec 100 3", ")prec 60 'a'", ")seed 5 5", ")base 16 1", ")ibase 8 8", ")obase 2 x", ")format '%d' 1", ")format '%x' x", ")maxbits 50 5", ")maxdigits 3 x", ")maxstack 10 y", ")prompt 'a' 'b'", ")timezone 'UTC' 3", ")debug types 1 1", ")debug cpu 1 x", ")get 'okfile' 3", ")save 'extra.ivy' 3", ")get 'effect' x", ")get 'effect' 'effect'")
	case 3: // Undefined names and wrong types.
		return r.pick("nope", "nope + 1", "1 + nope", "v + nope2", "nope 3", "3 nope 4", "nope[1] = 3", "nope[1]", "'a' + 1", "v + 'abc'", "s + 1", "!-1", "!1/2", "1/0", "0/0", "5 mod 0", "5 div 0", "v + 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41", "m +.* m +.* m", "m + t", "iota -1", "iota 'a'", "char -5", "code 5", "1 << -3", "2 ** 1e12", "1e9 ** 1e9", "1 2 rho 3 4 rho 'a' + 1", "-1 rho 5", "up t", "9 transp m", "text", "log 0", "'x' encode 3", "'zz' text 3", "sys 'nope'", "sys 3", "ivy 3", "split 'a' + 2", "mdiv 2 2 rho 1 1 1 1", "1 2 mdiv 2 2 rho 1", "decode 'a' + 1", "0 log 3", "-1 take 'a' + 1", "'T' decode 1", "flip nope", "0 ** -1", "float 'a'", "5?3", "acos 'a'", "sqrt 'z'", "huge - huge", "0 * huge", "huge / huge", "(3 rho huge) - huge", "v o.+ (huge - huge)", "ivy 'huge - huge'", "sqr huge - huge", "huge mod 3")
	case 4: // Indexing and indexed assignment.
		return r.pick("v[999]", "v[0]", "v[1;1]", "m[1;99]", "m[1;1;1]", "t[9]", "a[1]", "v['a']", "v[1/2]", "v[999] = 3", "v[1 2 999] = 7 8 9", "v[1 999] = 0", "m[1;99] = 5", "m[1 2;] = 1 2 3 4 5 6 7 8 9 10 11 12 13", "v[1 2] = 1 2 3", "v[1] = 1 2 3 4 5 nope", "m[1] = 1 2 3 4 5 6 7 8 9 10 11", "a[1] = 3", "v['a'] = 3", "v[1] = 1/0", "v[1/0] = 3", "v[0] = 3", "t[1;2] = 1 2", "t[1;1;999] = 4", "s[99] = 'a'", "nv[9] = 3", "v[-1] = 3", "m[1 1 99;1] = 3", "v[1 2 3 0] = 55", "x[1] = y", "sqr[1] = 3", "v[1][2] = 3", "(v)[1] = 3", "m[;99] = 0", "m[99;] = 0", "cv[1 2 99] = 'xyz'")
	case 5: // Assignment.
		return r.pick("v = 1/0", "v = nope", "newvar2 = 1/0", "newvar3 = v[999]", "a = 3 + 'a'", "v = v + 1 2 nope", "a = v = 1/0", "sqr = 3", "iota = 3", "3 = a", "v + 1 = 3", "s = 'abc", "m = m +.* 'a'", "a b = 1 2", "a = ", "= 3", "op v = 3", "total = total / 0", "a = nope; v = 3", "v = !-1; a = 4")
	case 6: // Operator definitions.
		return r.pick("op sqr x = 1 +", "op sqr x = (", "op newop1 x = 'abc", "op x newop2 y = x + ", "op a plus b c = 3", "op plus", "op sqr sqr = 3", "opdelete nope x", "opdelete x nope y", "opdelete sqr", "opdelete 3", "op sqr x =\n\t1 +\n", "op x plus y =\n\t(x\n", "op fact n = ]", "op 3 x = 5", "op x 3 y = 5", "op v x = 1 + (", "op newop3 newop3 = (", "op rec1 x = rec1 x +", "op x x x = 3 +", "op (a b sqr x = a", "op sqr x == 3", "op sqr x = x; x; )", "op sqr x = x # \n", "op iota x = 5 +", "op x + y = 3", "op newop5 x = x[", "op newop6 x = nope newop7 +", "op both1 x = x +", "op x both1 y = x +", "opdelete x sqr y", "op gcd x = 3 + (", "op x sqr y = 2 * )")
	case 7: // Inside operators.
		return r.pick("df 3", "df v", "1 dg 2", "shadow 3", "recf 20", "(recf 5) + recf 9", "inf 1", "inf 0 1 2", "1 inf2 2", "df@ 1 2 3", "dg/1 2 3", "1 2 o.dg 3 4", "locf 3", "nestf 3", "df inf 3", "argf 3", "(1 2 3) destr 4", "shadow v", "typef 3", "keepl 2", "keepl 2", "2 keepm 3", "keepl v", "usel 3", "3 keepm nope", "usel 9; nope", "(inf 1) + 5", "inf@ 1 2 3", "+/ df 3", "ivy 'df 3'", "ivy 'inf 1'", "destr2 5", "condf 3", "condf 1", "idxf v", "idxf 3", "asgf v")
	case 8:
		return badExpr(g)
	case 9: // Evaluating strings and text.
		return r.pick("ivy '1+'", "ivy '1/0'", "ivy '('", "ivy \"1\\n2 +\"", "ivy \"'abc\"", "ivy 'nope'", "ivy ')nope'", "ivy 'op sqr x = 1 +'", "ivy 3", "ivy 'ivy \"1/0\"'", "1 + ivy '2 *'", "ivy ')base 99'", "ivy 'v[999] = 3'", "ivy 'df 3'")
	case 10: // Files.
		return r.pick(")get 'missing'", ")get 'bad1'", ")get 'bad2'", ")get 'bad3'", ")get 'loop'", ")get 'loop2'", ")get 'unreadable'", ")get 'eio'", ")save 'nosave'", ")save 'full'", ")get ''", ")save ''", ")get 'badspecial'", ")get 'badop'", ")get 'badstr'", ")get 'nan'", ")get 'nan'", ")get 'nan2'", ")get 'deepfail'", "sys 'read' 'missing'", "sys 'read' 'eio'")
	case 11:
		return corpus(r, pureFragments, 1)[0]
	case 12:
		return "(" + g.expr() + ") + " + r.pick("nope", "1/0", "'a'", "v[0]", "(iota 77777)", "df 1")
	case 13:
		return r.pick("b1", "v", "m", "a", "nv[1]") + " = " + g.expr() + r.pick(" + nope", " / 0", " + 'abc'", " + 1 2 3 + 1 2", "[999]", " inf2 2")
	default:
		return fmt.Sprintf("%s[%s] = %s", r.pick("v", "w", "m", "t", "nv", "rv"), r.pick("1 2 999", "999", "0", "1;999", "nope", "1/0", "1 2 3 'a'"), g.expr())
	}
}

// mustFail are lines with no meaning in any of the sessions generated here,
// whatever was set or defined before: each has to be reported.
var mustFail = []string{
	"1 +", "(2", "2)", "]", "'abc", "v[", "v[1", "1 2 @", "3 = 4", "[1]", "1 ;; (", "1..2", "(1 2", "$", "'ab\\q'", "99x", "op", "op 3", "opdelete",
	"nope", "nope + 1", "1 + nope", "nope 3", "3 nope 4", "nope[1]", "nope[1] = 3", "'a' + 1", "!-1", "1/0", "0/0", "iota 'a'", "iota -1", "code 5", "char -5", "1 << -3", "log 0", "sqrt 'z'",
	"sys 'nope'", "sys 3", "sys 'read'", "sys 'read' 'missing'", "sys 'read' 3", "sys 'cpu' 3", "sys 'date' 3", "sys 'base' 3 4", "sys 'help' 3", "ivy 3", "ivy '1/0'", "ivy '1 +'", "ivy 'nope'",
	"1 1 1 + 1 1", "(10 rho 1)[99]", "(10 rho 1)[1;1]", "(10 rho 1)[-1]", "(10 rho 1)['a']", "(10 10 rho 1)[99;1]", "(10 10 rho 1)[1;99]", "(10 10 rho 1)[1;1;1]", "(10 10 rho 1)[1/10;1]", "(10 10 rho 1)[1;'a']", "1[1]",
	"1 1 1 +.* 1 1", "(10 10 rho 1) +.* 1 1", "-1 rho 1", "1 1 1 sel 1 1", "1 1 1 fill 1 1", "'a' rho 1", "'a' take 1 1", "'a' drop 1 1", "'a' rot 1 1", "1 1 transp 1", "mdiv 10 10 rho 1", "mdiv 10 11 rho 1", "inv 10 10 rho 1", "inv 10 11 rho 1",
	"'X' encode 1", "'X' decode 1", "'T' decode 1 1 1 1 1 1 1 1", "'T' encode 'a'", "'zz' text 1",
	")nope", ")nope 1", ")base 99", ")base 111", ")ibase 111", ")obase 111", ")base 1", ")ibase 1", ")obase 1", ")base 'a'", ")prec 0", ")prec -1", ")prec 'a'", ")prec 1111111111", ")origin -1", ")origin 'a'", ")origin 1 1", ")maxbits -1", ")maxbits 'a'", ")maxdigits 'a'", ")maxstack 'a'",
	")debug nope 1", ")debug 1", ")debug types nope", ")format 1", ")prompt 1", ")timezone 'Nowhere/Else'", ")timezone 1", ")seed 'a'", ")op nope", ")var nope", ")op 1", ")var 1", ")get 1", ")save 1", ")demo 1", ")get 'missing'", ")get 'unreadable'", ")get 'eio'", ")save 'nosave'", ")save 'full'", ")get ''",
	"pi[1] = 1", "iota = 1", "op pi x = x", "op x pi y = x", "op f1 (a1 a1) = a1", "op x1 o x2 = x1", "op x1 f1 x1 = x1", "op f1 f1 = 1", "op f1 = 1", "op f1 1 = 1", "op f1 x1 = 1 +", "op f1 x1 = (", "op a1 f1 b1 c1 = 1", "op x + y = 1", "opdelete nope x", "opdelete x nope y", "opdelete 1", "op x und1 y; 1 und1 1", "1 und2 1", "1 dg 1", "inf 1", "1 inf2 1",
}

var isMustFail = func() map[string]bool {
	m := map[string]bool{}
	for _, l := range mustFail {
		m[l] = true
	}
	return m
}()

func genC09(r *RNG) *Case {
	if r.p(1, 40) {
		return genC09limits(r)
	}
	c := &Case{Kind: "generated", Procs: r.rng(1, 4), MinWork: r.p(1, 2), Sched: genSched(r), SeamSeed: r.u64() >> 12}
	c.Sched.MaxSteps = 40e6
	g := newGen(r, false)
	c.Setup = g.setup()
	c.Setup = append(c.Setup, badElems(g)...)
	c.Setup = append(c.Setup, g.userOps()...)
	c.Setup = append(c.Setup,
		"y = 11", "z = 'zed'", "k = 4 5 6", "x = 1 2 3",
		"op df x = y = x; z = y + 1; z / 0", "op a dg b = k = a; k[1] = b; a + nope", "op shadow total = total = total + 1; total / 0",
		"op recf n =\n\tn <= 0: 1 / 0\n\tr = n\n\tr + recf n-1\n", "op inf x = 1 + inf x+1", "op a inf2 b = (a+1) inf2 b", "op locf x = y = 5; y[1] = x; y", "op nestf x = y = x; y + df y",
		"op argf x = x = 3; v2 = x; 'a' + x", "op (p1 p2) destr x = p1 + x", "op destr2 (p1 p2) = p1 / 0", "op typef x =\n\ty = x\n\ty == 3: y + 'abc'\n\ty\n",
		"op keepl x =\n\tx == 2: (ky = x) + nope\n\tx == 3: ky = 4\n\tky\n", "op a keepm b =\n\ta == 2: (kz = b) + nope\n\ta == 3: kz = b\n\tkz, a\n", "op usel x =\n\tx == 9: ul = 5\n\tul\n",
		"huge = float 10", "huge = huge ** 1e9", // An infinity.
		"op condf x =\n\tnope == x: 3\n\t4\n", "op idxf x = x[999]", "op asgf x = x[999] = 3", "op good x =\n\ty = x\n\tz = y*2\n\ty + z\n",
	)
	c.Setup = append(c.Setup, fmt.Sprintf(")maxstack %d", []int{30, 60, 200}[r.n(3)]))
	for i := r.n(3); i > 0; i-- {
		c.Setup = append(c.Setup, r.pick(")obase 16", ")ibase 8", ")base 8", ")base 16", ")origin 0", ")prec 100", ")format '%.3f'", ")maxdigits 20", ")prompt '% '", ")seed 42", ")ibase 10", ")obase 2", ")maxbits 2000"))
	}
	if r.p(1, 8) {
		d := r.pick(")debug parse 1", ")debug types 1", ")debug trace 1", ")debug parse 1")
		if r.p(1, 2) {
			c.Setup = append([]string{d}, c.Setup...)
		} else {
			c.Setup = append(c.Setup, d)
		}
	}
	c.Files = map[string]string{
		"bad1": "1 +\n'not reached'\n", "bad2": "nope\na = 99\n", "bad3": "v[999] = 3", "loop": ")get 'loop'\n", "loop2": ")get 'loop3'\n", "loop3": ")get 'loop2'\n", "unreadable": "a = 99\n", "eio": "a = 99\nv = 98\n",
		"badspecial": ")base 99\n", "badop": "op sqr x = 1 +\n", "badstr": "'abc\n", "nan": "huge - huge\n'not reached'\n", "nan2": ")get 'nan'\n", "deepfail": ")get 'bad1'\n", "okfile": "1+1\n", "effect": "a = 99\nv = 3 4\n)origin 0\nop sqr x = 5\n",
	}
	c.Faults = []Fault{
		{Op: "open", N: 1, Err: r.pick("EACCES", "EIO", "EMFILE"), File: "unreadable", All: true}, {Op: "read", N: 0, At: 0, Err: r.pick("EIO", "EISDIR"), File: "eio", All: true},
		{Op: "create", N: 1, Err: r.pick("EACCES", "ENOSPC", "EROFS"), File: "nosave", All: true}, {Op: "write", N: 1, Err: r.pick("ENOSPC", "EIO"), File: "full", All: true, Keep: r.n(50)},
	}
	n := r.rng(6, 30)
	for i := 0; i < n; i++ {
		if r.p(1, 2) {
			l := failing(g)
			if r.p(1, 4) {
				l = r.pick(mustFail...)
			}
			if r.p(1, 8) {
				// Again and again, so that anything left behind adds up.
				for k := r.rng(3, 25); k > 0; k-- {
					c.Lines = append(c.Lines, l)
				}
			}
			c.Lines = append(c.Lines, l)
			c.Extra = append(c.Extra, l)
			continue
		}
		switch r.n(9) {
		case 0, 1:
			l, _ := g.assign()
			c.Lines = append(c.Lines, l)
		case 2:
			c.Lines = append(c.Lines, r.pick("_", "_ + 1", "rho _", "_ _", "a _"))
		case 3:
			c.Lines = append(c.Lines, r.pick("fact 6", "sqr 3", "good 4", "y", "z", "k", "x", "12 gcd 18", "2 plus 3", "loc 4", "tally 1", "total", "good@ 1 2 3", "keepl 1", "keepl 3", "3 keepm 7", "1 keepm 2", "usel 9", "usel 2", "plus/1 2 3", "fact 20", "avg 1 2 3", "lit 4", "(1 2 3) chg 9"))
		case 4:
			c.Lines = append(c.Lines, r.pick(")origin", ")base", ")prec", ")format", ")maxstack", ")maxbits", ")seed", ")prompt", ")op sqr", ")op", ")var v", ")var", ")debug", ")timezone", ")maxdigits", dumpCmd, ")op fact", ")op df", ")get 'okfile'", ")op both1", ")op newop1"))
		case 5:
			c.Lines = append(c.Lines, r.pick("newvar1", "newvar2", "newvar3", "newop1 3", "1 newop2 3", "newvar1 = 5", "op newop1 x = x+1", "op newop3 x = x", "op newop1 x = newop1 x", "newop2 = 3", "rec1 = 4", "both1 = 3", "op both1 x = x", "op inf3 x = x", "op gcd x = x + 1", "op x sqr y = x+y", "gcd 3", "3 sqr 4", "v2", "r"))
		case 6:
			c.Lines = append(c.Lines, r.pick("? 6 6 6", "rand 3", "3?10", ")seed 5\n?100", "10?10"))
		case 7:
			c.Lines = append(c.Lines, r.pick("", "# comment", "1;2", "op sq2 x =\n\tx*x\n", "ivy '1+1'", "ivy 'a'"))
		default:
			c.Lines = append(c.Lines, g.expr())
		}
	}
	return c
}

// genC09limits writes lines whose results are far beyond the limit on bits,
// to be refused however much memory they would take.
func genC09limits(r *RNG) *Case {
	c := &Case{Kind: "limits", Procs: 1, Sched: Sched{Strategy: "default"}, SeamSeed: r.u64() >> 12}
	c.Sched.MaxSteps = 40e6
	c.Setup = append(c.Setup, fmt.Sprintf(")maxbits %d", []int{100, 1000, 10000, 100000}[r.n(4)]), "op sqr x = x*x", "x = 3", "v = 2 3 4")
	for i := r.rng(2, 8); i > 0; i-- {
		base := r.pick("2", "3", "-2", "-7", "(2**64)", "x", "1e9", "(1/3)", "(-7/2)", "v", "10", "(2**70)")
		exp := r.pick("1e12", "-1e12", "1e9", "-1e10", "(2**62)", "(-2**62)", "(2**63)-1", "4611686018427387904", "1e18", "2**2**2**2**2", "-1e15", "100000000")
		c.Lines = append(c.Lines, base+" ** "+exp)
		if r.p(1, 3) {
			c.Lines = append(c.Lines, r.pick("(!2000) * !2000", "*/ 1e5 rho 7", "sqr@ sqr@ sqr@ v ** 9000", "(sqr x) ** 1e11", "ivy '2**1e12'", "y = 2 ** 1e12", "+/ v ** 1e12"))
		}
	}
	return c
}

// traceless reports whether the line, if it fails, is one that must change nothing.
func traceless(c *Case) func(l string) bool {
	ok := map[string]bool{}
	for _, l := range c.Extra {
		// A draw of random numbers before the failure is an effect.
		ok[l] = !isRandom(l) && !strings.Contains(l, "x1 = 4") && !strings.Contains(l, "tally") || strings.HasPrefix(l, "tally 5; ")
	}
	return func(l string) bool { return ok[l] }
}

func checkC09(e *Env, c *Case) *Violation {
	tail := []string{"_", ")base", ")origin", ")prec", ")format", ")maxstack", ")maxbits", ")maxdigits", ")seed", ")debug", ")op", ")timezone", dumpCmd, "fact 20", "good 3", "keepl 1", "1 keepm 1", "usel 1", "keepl 5", "y", "z", "?1000 1000", ")get 'okfile'", "1+1"}
	lines := cat(c.Setup, c.Lines, tail)
	s := c.spec(lines)
	a := e.run(s)
	if a == nil {
		return nil
	}
	ao := byLine(a, lines)
	if bad(a) || len(ao) != len(lines)+1 {
		e.probe("whole-" + a.Outcome)
		if c.Kind == "limits" && a.Outcome == "crash" {
			return badViol("a result beyond the limit on bits ended the session", a)
		}
		if (a.Outcome == "crash" || a.Outcome == "deadlock") && !outOfMemory(a) {
			return badViol("a line ended the session", a)
		}
		if a.Outcome == "exit" {
			v := viol("ended", "the session ends after %d lines of %d, at %q, with errors %q", len(ao)-1, len(lines), clip(lines[max(0, len(ao)-2)], 200), clip(tail2(a.Stderr, 300), 300))
			v.sched = a
			return v
		}
		return nil
	}
	may := traceless(c)
	var kept []string
	var at []int
	prev := ""
	for i, l := range lines {
		if ao[i+1].Err != "" && may(l) {
			e.probe("failed")
			if bl := strings.Trim(ao[i+1].Out, "\n"); prev != l && strings.Contains(l, "\n") && bl != "" {
				e.probe("failed-with-output")
			}
			prev = l
			continue
		}
		if ao[i+1].Err == "" && isMustFail[l] && c.Kind == "generated" {
			v := viol("silent", "%q, which has no meaning, gives output %q and no error", l, clip(ao[i+1].Out, 300))
			v.sched = a
			return v
		}
		kept = append(kept, l)
		at = append(at, i+1)
	}
	if len(kept) == len(lines) {
		return nil
	}
	b := e.run(plain(c.spec(kept)))
	if b == nil {
		return nil
	}
	bo := byLine(b, kept)
	if bad(b) || len(bo) != len(kept)+1 {
		e.probe("kept-" + b.Outcome)
		return nil
	}
	e.nontrivial = true
	e.key = strings.Join(c.Lines, "\n")
	norm := func(o LineOut) LineOut {
		o.Err = locRE.ReplaceAllString(o.Err, "")
		return o
	}
	for i, l := range kept {
		x, y := norm(bo[i+1]), norm(ao[at[i]])
		if x != y {
			before := "(none)"
			for j := at[i] - 2; j >= 0; j-- {
				if ao[j+1].Err != "" && may(lines[j]) {
					before = lines[j]
					break
				}
			}
			v := viol("trace", "%q gives output %q errors %q, but output %q errors %q if the lines before it that failed, the last of them %q, are left out", clip(l, 200), clip(y.Out, 500), clip(y.Err, 200), clip(x.Out, 500), clip(x.Err, 200), clip(before, 200))
			v.sched = a
			return v
		}
	}
	if a.Exit != b.Exit {
		return viol("exit", "the session exits with status %d, but %d without the lines that failed", a.Exit, b.Exit)
	}
	if len(a.Open) > 0 {
		return viol("open", "files left open after errors: %v", a.Open)
	}
	return nil
}

func tail2(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
