package main

import (
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"
)

// C07: a )save that fails says so. C08: a saved workspace comes back.
// C14: )get is the same as typing the file.

func init() {
	properties["C07"] = &Property{
		gen: genC07, check: checkC07, quick: 45, thorough: 900,
		rule: "a case is a session that builds a workspace (sometimes of many kilobytes) and saves it, once with a healthy disk and once with a fault: the file cannot be created, some write fails after some of its bytes, closing fails, or the process is killed at some file operation of a later save; it is non-trivial if the fault was injected; distinct by the workspace and the fault",
	}
	properties["C08"] = &Property{
		gen: genC08, check: checkC08, quick: 60, thorough: 1200,
		rule: "a case is a session that builds a workspace (numbers of every kind, strings, matrices, nested values, operators of generated bodies, mutually recursive, redefined, deleted and merely declared operators, configuration), saves it, goes on or is killed, and a second process with other settings, clock and map order that reads it back, uses every operator and variable and saves again; it is non-trivial if the file was read back without error; distinct by the saved text",
	}
	properties["C14"] = &Property{
		gen: genC14, check: checkC14, quick: 45, thorough: 900,
		rule: "a case is a session typed at the terminal and the same lines read by )get from one file or from files that )get each other, with short reads, a small limit on open files and repeated )gets, or a session and files that set the bases and get one another, judged by a model of the bases; it is non-trivial if the file ran without error; distinct by the text and the splitting",
	}
}

// kinds are numbers of every representation, away from the limits of each.
var kinds = []string{"0", "1", "2", "7", "-7", "3/2", "100000000000000000000", "-100000000000000000000", "10000000000000", "1/3", "2j0", "1j2", "(1/3) (3/2) 4", "100000000000000000000 3 0 1"}

// workspace writes lines that define operators, variables and settings.
func workspace(r *RNG, g *Gen) (lines, probes []string) {
	lines = append(lines, g.setup()...)
	lines = append(lines, g.userOps()...)
	probes = append(probes, "sqr 1/3", "2 plus 3", "12 gcd 18", "fact 6", "avg 1 2 6", "(1 2 3) chg 9", "loc 4", "tally 3", "1 2 pr 5", "lit 7")
	// Operators of generated bodies.
	n := r.rng(0, 6)
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("u%d", i)
		switch r.n(9) {
		case 0, 1, 2:
			lines = append(lines, fmt.Sprintf("op %s x = %s", name, g.expr()))
			probes = append(probes, name+" 3")
		case 3, 4:
			lines = append(lines, fmt.Sprintf("op x %s y = (%s) , x , y", name, g.expr()))
			probes = append(probes, "4 "+name+" 5")
		case 5:
			lines = append(lines, fmt.Sprintf("op %s x =\n\tx > 3: %s\n\ty = %s\n\tx == 2: y\n\tx , rho y\n", name, g.expr(), g.expr()))
			probes = append(probes, name+" 4", name+" 2", name+" 1")
		case 6:
			lines = append(lines, fmt.Sprintf("op x %s y =\n\tz = x\n\tz[1] = %s\n\tz[2 1] = 5 6\n\tz , y\n", name, g.scalar(1)))
			probes = append(probes, "(1 2 3) "+name+" 5")
		case 7:
			lines = append(lines, fmt.Sprintf("op (a b) %s (c d) = a - b , c * d ; %s", name, g.expr()))
			probes = append(probes, "1 2 "+name+" 3 4")
		case 8:
			lines = append(lines, fmt.Sprintf("op %s x = \"%s\" , (text x) , '%s'", name, r.pick("a\\tb", "q\\\"q", "世界", "back\\\\slash", "x", "a\\x01\\u2028b", "\\x7f\\a\\u200b", "\\U0001F600\\r\\v"), r.pick("z", "\\n", "\\\"", "é", "#")))
			probes = append(probes, name+" 3")
		}
	}
	extra := [][2][]string{
		{{"op ev2 n", "op od2 n =\n\tn == 0: 0\n\tev2 n-1\n", "op ev2 n =\n\tn == 0: 1\n\tod2 n-1\n"}, {"ev2 6", "od2 6", "ev2 3"}},
		{{"op ra n", "op rb n", "op rc n =\n\tn <= 0: 'c'\n\tra n-1\n", "op rb n =\n\tn <= 0: 'b'\n\trc n-1\n", "op ra n =\n\tn <= 0: 'a'\n\trb n-1\n"}, {"ra 5", "rb 5", "rc 5", "(ra 3) rb 2"}},
		{{"op x ta y", "op tb x =\n\tx < 1: 0\n\tx ta x-1\n", "op x ta y = x + tb y"}, {"tb 5", "3 ta 4"}},
		{{"op later _"}, {")op later"}},
		{{"op _ later2 _"}, {")op later2"}},
		{{"op redef x = x+1", "op redef x = x+2"}, {"redef 1"}},
		{{"op wasop x = 7", "op wa1 x = wasop x", "opdelete wasop x", "op wb1 x = wasop + x", "op wasop x = x + 1"}, {"wa1 3", "wb1 3", "wasop 3"}},
		{{"op x wasop2 y = 7", "op wa2 x = x wasop2 1", "opdelete x wasop2 y", "op wb2 x = 2 wasop2 x", "wasop2 = 5", "op wc2 x = wasop2"}, {"wa2 3", "wb2 3", "wc2 3"}},
		{{"op both x = x+10", "op x both y = x*y"}, {"both 1", "2 both 3"}},
		{{"op gone x = x", "opdelete gone x"}, {"gone 3", ")op gone"}},
		{{"op x gone2 y = x", "opdelete x gone2 y"}, {"1 gone2 3"}},
		{{"op uses x = helper1 x", "helper1 = 5"}, {"uses 3"}},
		{{"op helper x = x*3", "op usesh x = helper x 1 2"}, {"usesh 3"}},
		{{"op vecb x = x y z", "y = 3", "z = 4"}, {"vecb 1"}},
		{{"op amb a = a b a"}, {"b = 5; amb 2"}},
		{{"op gg x = g1 = x; g1", "gg 3"}, {"g1", "gg 9; g1"}},
		{{"op multi x =\n\t# a comment\n\tx == 1 : 'one'\n\tx == 2 : 'two'\n\t'many'\n"}, {"multi 1", "multi 2", "multi 5"}},
		{{"op idx x = x[1 2; 2]", "op idx2 x = (x[1])[2]", "op idx3 x = x[;1]"}, {"idx m", "idx2 m", "idx3 m"}},
		{{"op each x = (rho@ x) , (count @ x)", "op outr x = x o.* x", "op innr x = x +.* x", "op red x = +/x", "op scn x = +\\x", "op redp x = +/%x", "op lasx x = x ,% x"}, {"each 1 2 3", "outr 1 2 3", "innr 1 2 3", "red 1 2 3", "scn 1 2 3", "redp ms", "lasx ms"}},
		{{"op usered x = plus/x", "op useout x = x o.plus x", "op useinn x = x plus.sqrb x", "op a sqrb b = a*b"}, {"usered 1 2 3", "useout 1 2", "useinn 1 2 3"}},
		{{"op emp x = ''", "op emp2 x = \"\"", "op neg x = -1 -2 , -x", "op par x = (((x)))", "op cplx x = 1j2 + x", "op bigc x = 123456789012345678901234567890 + x", "op ratc x = 1/3 + x", "op fltc x = 1.5 + x", "op hexc x = 0x1f + x"}, {"emp 1", "rho emp2 1", "neg 3", "par 4", "cplx 1", "bigc 1", "ratc 1", "fltc 1", "hexc 1"}},
		{{"op a max b = a+b", "op usemax x = 3 max x"}, {"usemax 4", "max/1 2 3"}},
		{{"op noret x =", "", "op sc x = x; 3; 4", "op ass x = y = x", "op asg x = k[2] = x", "k = 1 2 3"}, {"sc 1", "ass 3", "asg 7; k"}},
		{{"op qass x = qt = x", "op a qbss b = qt = a+b", "op a qcss b = a[1] = b; a", "qy1 = 1 (qass 3)", "qy2 = qass@ 1 2", "qy3 = qbss\\ 1 2 3", "qy4 = 1 2 o.qbss 3 4", "qy5 = (qass 3), 4", "7; qy6 = 3"}, {"qy1", "qass 3", "(qx = 1 2 3) qcss 7", "1 (qass 3)", "qbss/ 1 2 3"}},
		{{"op (a (b c)) deep d = a b c d", "op one (a b) = b a"}, {"(1 (2 3)) deep 4", "one 5 6"}},
		{{"op lt x =\n\tx < 3: 'small'; x > 10: 'big'\n\tx; x+1; x+2\n"}, {"lt 1", "lt 5", "lt 50"}},
		{{"op cmp x = (x < 3) and x >= 1", "op lg x = 2 log x", "op an x = not x", "op mm x = x mdiv x", "op enc x = 2 2 2 encode x", "op t1 x = 'T' encode x", "op sel1 x = (x > 2) sel x", "op rnd x = ?x", "op dl x = 2?x", "op iv x = ivy '1+1'"}, {"cmp 2", "an 0", "enc 5", "sel1 1 2 3 4", "iv 1"}},
	}
	for _, i := range perm(r, len(extra))[:r.rng(0, 7)] {
		lines = append(lines, extra[i][0]...)
		probes = append(probes, extra[i][1]...)
	}
	if r.p(1, 2) {
		l, p := opGraph(r)
		lines = append(lines, l...)
		probes = append(probes, p...)
	}
	// Odd values.
	odd := []string{
		"o1 = iota 0", "o2 = ''", "o3 = , 5", "o4 = , 'a'", "o5 = 1 1 rho 7", "o6 = 2 0 rho 1", "o7 = 0 3 rho 1", "o8 = 'a'", "o9 = \"it's \\\"q\\\"\"",
		"oa = 'x' 'y' 3", "ob = (1 2) (3 (4 5))", "oc = box box 3", "od = 'ab' 'cd'", "oe = 1 'ab' (box 'c')", "of = 3 rho box 1 2", "og = -1 -1/2 -1j-2", "oh = 2**200", "oi = -2**100",
		"oj = 1e20", "ok = 1/7j2/9", "ol = char 0 1 10 9 127 128 255 65533", "om = '\\u00e9\\U0001F600'", "on = 2 2 rho 'ab' 'cd' 1 2", "oo = 2 3 rho 'abcdef'", "op1 = 1 2 rho 'ab'",
		"oq = (2 2 rho iota 4) (3 rho 1)", "or1 = 1 1 1 rho 5", "os = , box 3", "ot = , , box 'abc'", "ou = ,box 1 2 3", "ov = 0", "ow = 1 == 2", "ox = up 3 1 2", "oy = 'é'", "oz = \"\\x00\\x01\"",
		"pa = '\\''", "pb = '\"'", "pc = \"\\\\\"", "pd = 4 rho ' '", "pe = \"tab\\there\"", "pf = 2 1 rho (1 2) 'xy'", "pg = transp 2 3 rho iota 6", "ph = 'T' encode 1e9", "_x = 5", "x_1 = 6", "été = 7", "pi2 = 22/7",
		"pj = 1 2 3 == 1 2 3", "pk = 10 take 1 2", "pl = 5 take 'ab'", "pm = 3 3 rho 'abc'", "pn = (iota 3) (iota 0) ''", "po = 0 0 rho 1", "pp = (box '') (box 'a')",
		"pq = 1 (pq1 = 3) 4", "pt = (pt1 = 'a') 'b'", "pu = (pu1 = 2 2 rho 1) , 5", "pv = print@ 1 2", "pw = (print 3) (print 'ab')", "px = ivy '7; px1 = 3'", "(py pz) = 1 (py1 = 2 3)",
		"qa = float 0", "qb = 1 2 , float 0", "qc = (float 0)j2", "qd = 2 2 rho (float 0) 1", "qe = box (float 0) 3", "qf = - float 0", "qg = 3 * float 0", "qh = 1j(float 0)", "qi = sin 0", "qj = (sqrt 2) - sqrt 2", "qk = (float 0) , 'a'", "ql = 0 * sqrt 3",
	}
	for _, i := range perm(r, len(odd))[:r.rng(0, 16)] {
		lines = append(lines, odd[i])
		if r.p(1, 3) {
			name, _, _ := strings.Cut(odd[i], " ")
			probes = append(probes, name, "rho "+name)
		}
	}
	// Whatever comes of operators on operands of every shape.
	for i := r.n(14); i > 0; i-- {
		name := fmt.Sprintf("sh%d", i)
		l := name + " = " + shapeExpr(r)
		lines = append(lines, l)
		if r.p(1, 3) {
			probes = append(probes, name, "rho "+name, name+" , 1")
		}
	}
	// Numbers that big numbers give, used as an index, which shows their type.
	for i := r.n(6); i > 0; i-- {
		name := fmt.Sprintf("nk%d", i)
		var l string
		if r.p(1, 3) {
			l = fmt.Sprintf("%s = %s %s", name, g.elemUnary(), r.pick(kinds...))
		} else {
			l = fmt.Sprintf("%s = %s %s %s", name, r.pick(kinds...), r.pick(g.elemBinary(), g.elemBinary(), "**", "max", "min", "mod", "idiv"), r.pick(kinds...))
		}
		lines = append(lines, l)
		probes = append(probes, "(iota 9)["+name+"]", "'a' < "+name)
	}
	if r.p(1, 3) {
		l, _ := g.assign()
		lines = append(lines, l)
	}
	if r.p(1, 5) {
		lines = append(lines, fmt.Sprintf("long = %d rho %s", r.rng(500, 4000), g.vecLit(20, "int")), fmt.Sprintf("longs = %d rho 'some text, 世界'", r.rng(500, 6000)))
	}
	return lines, probes
}

var (
	shapes      = []string{"5", "1 2 3", ",4", "1 1 rho 7", "2 3 rho iota 6", "1 3 rho 4 5 6", "3 1 rho 4 5 6", "1 1 1 rho 9", "2 2 2 rho iota 8", "'abc'", "(1 2) (3 4 5)", "iota 0", "0 3 rho 0", "3 0 rho 0", "0", "2 2 rho 1 2 3 5", "1 2", "box 3", "1 0 1", "1 rho 5", "(1 1 rho 7) 2", "0 1 rho 3", "1/3", "2 2 rho 'abcd'", "'a'", "1 1 rho 'a'", "'ab' 'cde'", "1j2 3"}
	shapeUnary  = strings.Fields("+ - ! ^ not abs sgn floor ceil , rho count flatten split mix box first unique rot flip up down transp text code char iota where +/ +/% +\\ +\\% rho@ rho@@ -@ box@ ,@ first@")
	shapeBinary = strings.Fields("+ - * / div mod idiv imod max min == < <= and or xor & | ^ , ,% rho take drop rot flip in iota sel fill intersect union decode encode mdiv o.+ +.* part ! j transp @+ +@ @rho rho@ @, @take @@+ +@@ @+@ === o., @part part@ @drop")
)

// shapeExpr applies something to operands of any shape.
func shapeExpr(r *RNG) string {
	x, y := r.pick(shapes...), r.pick(shapes...)
	switch r.n(8) {
	case 0:
		return fmt.Sprintf("(%s)[%s]", x, r.pick("1", "1;1", "1;", ";1", "1 2", "1 1", "1;1;1", "box 1 1", ";", "1;;1"))
	case 1, 2:
		return fmt.Sprintf("%s (%s)", r.pick(shapeUnary...), x)
	}
	return fmt.Sprintf("(%s) %s (%s)", y, r.pick(shapeBinary...), x)
}

// opGraph writes operators that use one another in every way, declared,
// defined, redefined and deleted in any order, so that what a name in a body
// meant depends on when the body was read.
func opGraph(r *RNG) (lines, probes []string) {
	names := []string{"qa", "qb", "qc", "qd", "qe"}[:r.rng(2, 5)]
	is := map[string]bool{} // Whether the name is an operator: "u:qa" or "b:qa".
	vars := map[string]bool{}
	use := func() string {
		n := r.pick(names...)
		u, b := is["u:"+n], is["b:"+n]
		forms := []string{n + " , n-1", "n " + n + " n-1", "(" + n + " n-1) - 1"}
		if u {
			forms = append(forms, n+" n-1", n+"@ 0 1", "(n "+n+" n-2)")
		}
		if b {
			forms = append(forms, "2 "+n+" n-1", n+"/ 1 2 (n-1)", n+"\\ 2 1 (n-1)", "1 2 o."+n+" 0 1", "1 2 +."+n+" 0 (n-1)", "1 2 "+n+".+ 1 0", "1 @"+n+"@ 0 1", "1 2 @"+n+" 0", n+"/% 2 2 rho 1 0", n+"@/ 1 0")
		}
		if !u && !b {
			forms = append(forms, "n , "+n, n+" n "+n, n+"[1]", "("+n+" = n) + 1")
		}
		return r.pick(forms...)
	}
	for i := r.rng(4, 14); i > 0; i-- {
		n := r.pick(names...)
		kind := r.pick("u:", "b:")
		head, guard := n+" n", "n"
		if kind == "b:" {
			head, guard = "m "+n+" n", "m"
		}
		switch k := r.n(10); {
		case k < 2:
			lines = append(lines, "op "+head)
			is[kind+n] = true
			delete(vars, n)
		case k < 7:
			if vars[n] {
				lines = append(lines, n+" = 0")
				delete(vars, n)
			}
			was := is[kind+n]
			is[kind+n] = true // It may call itself.
			body := use()
			if r.p(1, 2) {
				body = "(" + body + ") , " + use()
			}
			if !was && r.p(1, 6) {
				is[kind+n] = false
				body = use()
				is[kind+n] = true
			}
			lines = append(lines, "op "+head+" =\n\tn < 1: "+guard+"\n\t"+body+"\n")
		case k < 9:
			lines = append(lines, "opdelete "+head)
			delete(is, kind+n)
		default:
			lines = append(lines, n+" = "+fmt.Sprint(r.n(9)))
			vars[n] = true
		}
	}
	for _, n := range names {
		probes = append(probes, n, n+" 0", n+" 2", "3 "+n+" 1", n+"/ 1 2 0", ")op "+n)
	}
	return lines, probes
}

func settings(r *RNG) []string {
	var out []string
	add := func(s ...string) {
		if r.p(1, 4) {
			out = append(out, s[r.n(len(s))])
		}
	}
	add(")prec 100", ")prec 400", ")prec 53")
	add(")origin 0", ")origin 2", ")origin 7")
	add(")maxbits 5000", ")maxbits 100000", ")maxbits 0")
	add(")maxdigits 0", ")maxdigits 50", ")maxdigits 20")
	add(`)prompt "> "`, `)prompt "\t"`, `)prompt "世\"q"`, `)prompt 'a b'`)
	add(`)format "%.3f"`, `)format '%.8g'`, `)format "%5d"`, `)format '%x'`, `)format "%.20e"`)
	add(")base 16", ")base 8", ")ibase 16", ")obase 2", ")obase 16", ")ibase 8", ")ibase 3\n)obase 7", ")base 10")
	return out
}

// ---- C07 ----

func genC07(r *RNG) *Case {
	c := &Case{Kind: r.pick("create", "write", "write", "write", "write", "close", "close", "kill", "nofault", "limit", "folder", "any", "any", "any"), Procs: 1, SeamSeed: r.u64() >> 12}
	g := newGen(r, r.p(1, 4))
	c.Setup, _ = workspace(r, g)
	c.Setup = append(c.Setup, settings(r)...)
	f := Fault{N: 1, File: "file1"}
	switch c.Kind {
	case "create":
		f.Op, f.Err = "create", r.pick("EACCES", "EROFS", "EISDIR", "EMFILE", "ENOSPC", "ENOENT", "EDQUOT", "EIO")
	case "write":
		f.Op, f.Err = "write", r.pick("ENOSPC", "ENOSPC", "EIO", "EDQUOT", "EFBIG")
		f.N = r.rng(1, 4)
		if r.p(1, 2) {
			f.N = 1
		}
		if r.p(2, 3) {
			f.Keep = r.rng(0, 5000)
		}
		if r.p(1, 8) {
			f.Keep = 1 << 20 // everything, and yet an error
		}
	case "close":
		f.Op, f.Err = "close", r.pick("EIO", "ENOSPC", "EDQUOT")
	case "kill":
		c.KillOp = r.rng(1, 40)
		f.Op = ""
	case "limit":
		f.Op, f.Err, f.All = "create", "EMFILE", true
	case "any":
		// Whatever )save does with files, something in it fails.
		f = Fault{Op: "any", N: r.rng(1, 6), Err: r.pick("EIO", "ENOSPC", "EACCES", "EDQUOT"), All: r.p(1, 3)}
	default:
		f.Op = ""
	}
	if f.Op != "" {
		c.Faults = []Fault{f}
	}
	c.Num = int64(r.n(3))
	c.Files = map[string]string{"other": "precious\n"}
	if c.Kind != "folder" && r.p(1, 2) {
		c.Files["file1"] = "old text\n" + strings.Repeat("x = 1\n", r.n(3000))
	}
	return c
}

func checkC07(e *Env, c *Case) *Violation {
	name := `)save "file1"`
	lines := cat(c.Setup, []string{dumpCmd, name, dumpCmd, ")origin", name, `)save "file2"`, dumpCmd, ")get 'other2'"})
	files := map[string]string{"other2": "77\n"}
	for n, t := range c.Files {
		files[n] = t
	}
	n := len(c.Setup)
	s := c.spec(lines)
	s.FS.Files = files
	good := plain(s)
	want := e.run(good)
	if want == nil {
		return nil
	}
	a := byLine(want, lines)
	if bad(want) || len(a) != len(lines)+1 {
		return e.baseline(want)
	}
	if a[n+2].Err != "" || a[n+5].Err != "" {
		e.probe("cannot-save")
		return nil
	}
	full := want.Files["file1"]
	if got := strings.TrimSpace(a[n+1].Out); got != strings.TrimSpace(full) && strings.TrimSpace(full) != stripPrompt(got) {
		// The prompt comes after.
		if !strings.HasPrefix(got, strings.TrimSpace(full)) {
			return viol("incomplete", "what )save wrote is not the workspace: %s", diffText(got, strings.TrimSpace(full)))
		}
	}
	if want.Files["file2"] != full {
		return viol("incomplete", "saving the same workspace under another name gives another file: %s", diffText(full, want.Files["file2"]))
	}
	if len(want.Open) > 0 {
		return viol("open", "files left open: %v", want.Open)
	}
	e.key = fmt.Sprint(full, c.Faults, c.KillOp, c.Kind)
	switch c.Kind {
	case "any":
		return checkC07any(e, c, files, full, a[:n+4])
	case "folder":
		s.FS.Files = map[string]string{"file1/": "", "file1/x": "precious"}
		for n, t := range files {
			s.FS.Files[n] = t
		}
		got := e.run(s)
		if got == nil {
			return nil
		}
		if bad(got) {
			return badViol("saving under the name of a folder", got)
		}
		e.nontrivial = true
		b := byLine(got, lines)
		if len(b) != len(lines)+1 || b[n+2].Err == "" || b[n+5].Err == "" {
			return viol("silent", "saving under the name of a folder, which cannot work: )save says nothing")
		}
		for i := range a {
			if i != n+2 && i != n+5 && a[i] != b[i] {
				return viol("state", "after failing to save under the name of a folder: line %d, %q, gives output %q errors %q instead of output %q errors %q", i, clip(lines[max(0, i-1)], 200), clip(b[i].Out, 400), clip(b[i].Err, 200), clip(a[i].Out, 400), clip(a[i].Err, 200))
			}
		}
		if got.Files["file2"] != full || got.Files["other"] != files["other"] || got.Files["file1/x"] != "precious" {
			return viol("collateral", "after failing to save under the name of a folder, other files are not as they should be")
		}
		return nil
	}
	if c.Kind != "kill" && len(c.Faults) == 0 {
		e.nontrivial = true
		return nil
	}
	got := e.run(s)
	if got == nil {
		return nil
	}
	if c.Kind == "kill" {
		if got.Outcome != "killed" {
			if bad(got) {
				return badViol("saving", got)
			}
			e.probe("not-killed")
			return nil
		}
		e.nontrivial = true
		e.probe("killed")
		// What was saved when the prompt came back is saved.
		b := byLine(got, lines)
		if len(b) > n+5+1 && got.Files["file1"] != full {
			return viol("volatile", "the process was killed after %s was done, and the file is not what was saved: %s", name, diffText(full, got.Files["file1"]))
		}
		if len(b) > n+2+1 && len(b) <= n+5 && got.Files["file1"] != full {
			return viol("volatile", "the process was killed after %s was done, and the file is not what was saved: %s", name, diffText(full, got.Files["file1"]))
		}
		if len(b) > n+3 {
			e.probe("killed-after-save")
		}
		if got.Files["other"] != files["other"] || got.Files["other2"] != files["other2"] {
			return viol("collateral", "another file has changed: %q %q", clip(got.Files["other"], 200), clip(got.Files["other2"], 200))
		}
		return nil
	}
	what := fmt.Sprintf("with %s failing with %s", c.Faults[0].Op, c.Faults[0].Err)
	if bad(got) {
		return badViol(what, got)
	}
	b := byLine(got, lines)
	if len(b) != len(lines)+1 {
		return viol("ended", "%s: the session ends after %d lines", what, len(b)-1)
	}
	hit := len(got.Faults) > 0
	if hit {
		e.nontrivial = true
		e.probe(c.Kind)
	} else {
		e.probe("not-reached")
	}
	for i := range a {
		if i == n+2 || i == n+5 {
			continue
		}
		if a[i] != b[i] {
			return viol("state", "%s: line %d, %q, gives output %q errors %q instead of output %q errors %q", what, i, clip(lines[max(0, i-1)], 200), clip(b[i].Out, 400), clip(b[i].Err, 200), clip(a[i].Out, 400), clip(a[i].Err, 200))
		}
	}
	all := c.Faults[0].All
	if c.Kind == "write" && b[n+2].Err == "" && b[n+5].Err != "" {
		// Was it the second save that the fault hit?
		q := c.spec(lines[:n+2])
		q.FS.Files = files
		g := e.run(q)
		if g == nil {
			return nil
		}
		if len(g.Faults) > 0 {
			return viol("silent", "%s: )save says nothing, and the file has %d of %d bytes", what, len(g.Files["file1"]), len(full))
		}
		e.probe("second-save")
		return nil
	}
	if hit && b[n+2].Err == "" {
		return viol("silent", "%s: )save says nothing, and the file has %d of %d bytes", what, len(got.Files["file1"]), len(full))
	}
	if !hit && b[n+2].Err != "" {
		return viol("cried", "%s, which did not happen: )save says %q", what, clip(b[n+2].Err, 200))
	}
	if all {
		if b[n+5].Err == "" {
			return viol("silent", "%s: the second )save says nothing", what)
		}
	} else {
		if b[n+5].Err != "" {
			return viol("retry", "%s, once: saving again fails too: %q", what, clip(b[n+5].Err, 200))
		}
		if got.Files["file1"] != full {
			return viol("incomplete", "%s, once: after saving again without error the file is not the workspace: %s", what, diffText(full, got.Files["file1"]))
		}
	}
	if got.Files["file2"] != full {
		return viol("incomplete", "%s: a file saved without error is not the workspace: %s", what, diffText(full, got.Files["file2"]))
	}
	if got.Files["other"] != files["other"] || got.Files["other2"] != files["other2"] {
		return viol("collateral", "%s: another file has changed", what)
	}
	if len(got.Open) > 0 {
		return viol("open", "%s: files left open: %v", what, got.Open)
	}
	return nil
}

// checkC07any decides a case where some file operation of )save fails, whatever
// it is: if )save does not say so, it made no difference.
func checkC07any(e *Env, c *Case, files map[string]string, full string, a []LineOut) *Violation {
	n := len(c.Setup)
	lines := cat(c.Setup, []string{dumpCmd, `)save "file1"`, dumpCmd})
	s := c.spec(lines)
	s.FS.Files = files
	got := e.run(s)
	if got == nil {
		return nil
	}
	if len(c.Faults) == 0 {
		return nil
	}
	what := fmt.Sprintf("with operation %d on files failing with %s", c.Faults[0].N, c.Faults[0].Err)
	if bad(got) {
		return badViol(what, got)
	}
	b := byLine(got, lines)
	if len(b) != len(lines)+1 {
		return viol("ended", "%s: the session ends after %d lines", what, len(b)-1)
	}
	if len(got.Faults) > 0 {
		e.nontrivial = true
		for k := range got.Faults {
			e.probe("any-" + k)
		}
	} else if b[n+2].Err != "" {
		return viol("cried", "%s, which did not happen: )save says %q", what, clip(b[n+2].Err, 200))
	}
	if b[n+2].Err == "" && got.Files["file1"] != full {
		return viol("silent", "%s: )save says nothing, and the file is not the workspace: %s", what, diffText(full, got.Files["file1"]))
	}
	for i := range a {
		if i != n+2 && i < len(b)-1 && a[i] != b[i] {
			return viol("state", "%s: line %d, %q, gives output %q errors %q instead of output %q errors %q", what, i, clip(lines[max(0, i-1)], 200), clip(b[i].Out, 400), clip(b[i].Err, 200), clip(a[i].Out, 400), clip(a[i].Err, 200))
		}
	}
	if got.Files["other"] != files["other"] || got.Files["other2"] != files["other2"] {
		return viol("collateral", "%s: another file has changed", what)
	}
	if len(got.Open) > 0 {
		return viol("open", "%s: files left open: %v", what, got.Open)
	}
	return nil
}

func stripPrompt(s string) string {
	if i := strings.LastIndexByte(s, '\n'); i >= 0 {
		return strings.TrimSpace(s[:i])
	}
	return s
}

// ---- C08 ----

func genC08(r *RNG) *Case {
	c := &Case{Kind: r.pick("exit", "exit", "kill", "overwrite"), Procs: 1, SeamSeed: r.u64() >> 12, Seed: r.u64()}
	g := newGen(r, r.p(1, 10))
	c.Setup, c.Extra = workspace(r, g)
	c.Setup = append(c.Setup, settings(r)...)
	for i := r.rng(0, 4); i > 0; i-- {
		c.Setup = append(c.Setup, r.pick(g.expr(), "1+", "nope", "7", "'abc'", "op bad x = 1 +"))
	}
	if r.p(1, 3) {
		c.Args = []string{"-origin", "0", "-prompt", "XX ", "-maxbits", "300", "-maxdigits", "7", "-format", "%.2f"}
	}
	c.Short = []int{0, 0, 1, 7, 300}[r.n(5)]
	return c
}

func checkC08(e *Env, c *Case) *Violation {
	// Session one saves.
	ws, save, get := "ws", `)save "ws"`, `)get "ws"`
	if c.SeamSeed%5 == 0 {
		// The file that )save and )get use by default.
		ws, save, get = "save.ivy", ")save", ")get"
		e.probe("default-file")
	}
	pre := []string{}
	if c.Kind == "overwrite" {
		pre = append(pre, "junk = 20000 rho 'long text'", save, "junk = 0")
	}
	probes := c.Extra
	cfg := []string{")maxstack 200", ")prec", ")maxbits", ")maxdigits", ")origin", ")prompt", ")format", ")base", ")op", ")var"}
	post := cat([]string{save}, cfg, []string{dumpCmd}, probes, []string{dumpCmd})
	if c.Kind == "kill" {
		post = append(post, `)save "elsewhere"`)
	}
	lines := cat(pre, c.Setup, post)
	s := plain(c.spec(lines))
	s.Args = nil
	a := e.run(s)
	if a == nil {
		return nil
	}
	ao := byLine(a, lines)
	if bad(a) || len(ao) != len(lines)+1 {
		return e.baseline(a)
	}
	at := len(pre) + len(c.Setup)
	saved := a.Files[ws]
	if err := ao[at+1].Err; err != "" {
		return viol("cannot-save", "the workspace cannot be saved, with no failure of the file system: %s", clip(err, 300))
	}
	if strings.Contains(saved, "Inf") {
		e.probe("infinity")
		return nil
	}
	if c.Kind == "kill" {
		// Killed somewhere in the last )save; what was saved before survives.
		q := *s
		q.FS.KillOp = a.FSOps - 1
		k := e.run(&q)
		if k == nil {
			return nil
		}
		if k.Outcome == "killed" {
			e.probe("killed")
			if k.Files[ws] != saved {
				return viol("lost", "after the process was killed, the file saved before is not what it was: %s", diffText(saved, k.Files[ws]))
			}
		}
	}
	// Session two reads it.
	lines2 := cat([]string{get}, cfg, []string{dumpCmd}, probes, []string{dumpCmd, `)save "ws2"`})
	s2 := c.spec(lines2)
	s2.FS.Files = map[string]string{ws: saved}
	s2.FS.Faults, s2.FS.KillOp = nil, 0
	s2.SeamSeed = c.SeamSeed + 99
	s2.Clock.Wall += 1e15
	b := e.run(s2)
	if b == nil {
		return nil
	}
	if bad(b) {
		return badViol("reading back a saved workspace", b)
	}
	bo := byLine(b, lines2)
	if len(bo) != len(lines2)+1 {
		return viol("ended", "the session that reads the saved workspace ends after %d lines: %s", len(bo)-1, clip(b.Stderr, 300))
	}
	if bo[1].Err != "" {
		return viol("unreadable", "the saved workspace cannot be read back: %q", clip(bo[1].Err, 300))
	}
	e.nontrivial = true
	e.key = saved
	prec := 256
	fmt.Sscanf(saved, ")prec %d", &prec)
	digits := int(float64(prec)*0.3) - 6
	// The saved text comes back as it was, apart from floating-point numbers,
	// which come back as rationals of nearly the same value.
	norm := func(o LineOut) LineOut {
		o.Err = locRE.ReplaceAllString(o.Err, "")
		o.Err = strings.TrimSpace(strings.ReplaceAll(o.Err, "\n", " "))
		if strings.Contains(saved, "2147483648") {
			// At the edge of the small integers, the type that an error message
			// gives depends on how the number was computed.
			o.Err = strings.ReplaceAll(o.Err, "big int", "int")
			o.Err = strings.ReplaceAll(o.Err, "convert char to int", "convert int to char")
		}
		return o
	}
	skipped := false
	floaty := floatVars(saved)
	for n := range tainted(lines[:at]) {
		floaty[n] = true
	}
	for i := range bo[2:] {
		if i >= len(cfg)+len(probes)+2 {
			break
		}
		x, y := norm(ao[at+2+i]), norm(bo[2+i])
		line := lines2[1+i]
		if i > 0 && line != dumpCmd && i >= len(cfg) && mentions(line, floaty, saved) {
			e.probe("float-probe")
			skipped = true
			continue
		}
		if line == dumpCmd {
			if skipped {
				continue
			}
			if d := sameText(strings.TrimSpace(x.Out), strings.TrimSpace(y.Out), digits, len(floaty)); d != "" {
				return viol("values", "after saving and reading back, the workspace differs: %s", d)
			}
			continue
		}
		if x != y {
			return viol("behaviour", "after saving and reading back, %q gives output %q errors %q instead of output %q errors %q", line, clip(y.Out, 400), clip(y.Err, 200), clip(x.Out, 400), clip(x.Err, 200))
		}
		e.probe("probe-same")
	}
	if k := len(lines2); bo[k].Err != "" {
		return viol("again", "saving again fails: %q", bo[k].Err)
	}
	// Session three does so again.
	lines3 := []string{`)get "ws2"`, `)save "ws3"`}
	s3 := c.spec(lines3)
	s3.FS.Files = map[string]string{"ws2": b.Files["ws2"]}
	s3.FS.Faults, s3.FS.KillOp = nil, 0
	d := e.run(s3)
	if d == nil {
		return nil
	}
	if bad(d) {
		return badViol("reading back a workspace saved again", d)
	}
	do := byLine(d, lines3)
	if len(do) != 3 || do[1].Err != "" || do[2].Err != "" {
		return viol("again", "reading a workspace saved again and saving it fails: %q", clip(d.Stderr, 300))
	}
	if !skipped && len(floatVars(b.Files["ws2"])) == 0 && b.Files["ws2"] != d.Files["ws3"] {
		return viol("again", "a workspace read back and saved again changes: %s", diffText(b.Files["ws2"], d.Files["ws3"]))
	}
	if len(b.Open) > 0 {
		return viol("open", "files left open: %v", b.Open)
	}
	return nil
}

var floatTokRE = regexp.MustCompile(`\d\.\d|\de[+-]?\d`)

// floatVars returns the variables in a saved workspace with floating-point elements.
func floatVars(text string) map[string]bool {
	vars, _ := dump(text)
	out := map[string]bool{}
	for n, v := range vars {
		if floatTokRE.MatchString(stringRE.ReplaceAllString(v, " ")) && n != "e" && n != "pi" {
			out[n] = true
		}
	}
	return out
}

var floatWordRE = regexp.MustCompile(`\b(float|sqrt|sin|cos|tan|asin|acos|atan|sinh|cosh|tanh|asinh|acosh|atanh|log|pi|e|phase|rand|encode|text|sys)\b|\*\*|\d\.\d`)

// tainted returns the variables whose values may be floating-point numbers,
// although they may look like integers, given the lines that made them.
func tainted(lines []string) map[string]bool {
	t := map[string]bool{}
	for range 3 {
		for _, l := range lines {
			hot := floatWordRE.MatchString(stringRE.ReplaceAllString(l, " "))
			for _, w := range wordRE.FindAllString(stringRE.ReplaceAllString(l, " "), -1) {
				hot = hot || t[w]
			}
			if !hot {
				continue
			}
			names := assigned(l)
			if strings.HasPrefix(l, "op ") {
				for _, n := range []string{"op", "x", "y", "z", "n", "a", "b", "c", "d", "p1", "p2", "k"} {
					delete(names, n)
				}
			}
			for n := range names {
				t[n] = true
			}
			t["_"] = true
		}
	}
	return t
}

var wordRE = regexp.MustCompile(`[\pL_][\pL\pN_]*`)

// mentions reports whether evaluating the line may use one of the variables,
// following the operators defined in the saved text.
func mentions(line string, vars map[string]bool, saved string) bool {
	defs := map[string]string{}
	cur := ""
	for _, l := range strings.Split(saved, "\n") {
		if strings.HasPrefix(l, "op ") {
			cur = ""
			head, _, _ := strings.Cut(l, "=")
			for _, w := range wordRE.FindAllString(head[3:], -1) {
				defs[w] += " " + l
				cur += " " + w
			}
			continue
		}
		if strings.HasPrefix(l, ")") || strings.HasPrefix(l, "#") {
			cur = ""
		}
		for _, w := range strings.Fields(cur) {
			defs[w] += "\n" + l
		}
	}
	seen := map[string]bool{}
	var walk func(t string) bool
	walk = func(t string) bool {
		for _, w := range wordRE.FindAllString(stringRE.ReplaceAllString(t, " "), -1) {
			if vars[w] || w == "e" || w == "pi" {
				return true
			}
			if d, ok := defs[w]; ok && !seen[w] {
				seen[w] = true
				if walk(d) {
					return true
				}
			}
		}
		return false
	}
	return walk(line)
}

var tokRE = regexp.MustCompile("\"(?:\\\\.|[^\"\\\\])*\"|'(?:\\\\.|[^'\\\\])*'|-?\\d[\\d.]*(?:e[+-]?\\d+)?(?:/\\d+)?|[\\pL_][\\pL\\pN_]*|\\n|[^\\s]")

// sameText compares two saved workspaces, token by token, numbers by value:
// exactly if both are written exactly, to some digits if one is a decimal.
func sameText(a, b string, digits, nfloat int) string {
	a, b = complexRE.ReplaceAllString(a, "$1 j $2"), complexRE.ReplaceAllString(b, "$1 j $2")
	if a == b {
		return ""
	}
	ta, tb := tokRE.FindAllString(a, -1), tokRE.FindAllString(b, -1)
	line := 1
	where := func() string {
		al, bl := strings.Split(a, "\n"), strings.Split(b, "\n")
		if line <= len(al) && line <= len(bl) {
			return fmt.Sprintf("%q instead of %q", clip(bl[line-1], 400), clip(al[line-1], 400))
		}
		return fmt.Sprintf("line %d is missing", line)
	}
	for i := 0; i < len(ta) || i < len(tb); i++ {
		if i >= len(ta) || i >= len(tb) {
			return where()
		}
		x, y := ta[i], tb[i]
		if x == "\n" && y == "\n" {
			line++
		}
		if x == y {
			continue
		}
		if !floatTokRE.MatchString(x) && !floatTokRE.MatchString(y) {
			return where()
		}
		if bigExp(x) || bigExp(y) {
			continue
		}
		rx, ok1 := new(big.Rat).SetString(x)
		ry, ok2 := new(big.Rat).SetString(y)
		if !ok1 || !ok2 {
			return where()
		}
		d := new(big.Rat).Sub(rx, ry)
		if d.Sign() == 0 {
			continue
		}
		if rx.Sign() == 0 || ry.Sign() == 0 {
			return where()
		}
		d.Quo(d, rx)
		d.Abs(d)
		tol := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(digits)), nil))
		if d.Cmp(tol) > 0 {
			return where()
		}
	}
	return ""
}

var complexRE = regexp.MustCompile(`(\d)j(-?\d)`)

func bigExp(s string) bool {
	i := strings.IndexByte(s, 'e')
	if i < 0 {
		return false
	}
	n, err := strconv.Atoi(strings.TrimPrefix(s[i+1:], "+"))
	return err != nil || n > 3000 || n < -3000
}

// ---- C14 ----

// genC14bases writes files that set bases, one, both or none, and get one
// another, and a session with bases of its own that gets them.
func genC14bases(r *RNG) *Case {
	c := &Case{Kind: "bases", Procs: 1, SeamSeed: r.u64() >> 12, Files: map[string]string{}, Short: []int{0, 0, 1, 7}[r.n(4)]}
	set := func() string {
		return r.pick(")ibase ", ")obase ", ")base ", ")ibase ", ")obase ") + r.pick("0", "2", "3", "8", "10", "12", "16")
	}
	body := func(level, n int) []string {
		var l []string
		for i := 0; i < n; i++ {
			switch r.n(7) {
			case 0, 1:
				l = append(l, set())
			case 2, 3:
				l = append(l, r.pick("10", "11", "101", "110"))
			case 4, 5:
				if level < 4 {
					l = append(l, fmt.Sprintf(")get 'g%d'", r.rng(level+1, 4)))
				}
			default:
				l = append(l, r.pick("# comment", "", ")base 99", "nope", ")ibase", "zz = 10", ")get 'missing'"))
			}
		}
		return l
	}
	for i := 1; i <= 4; i++ {
		c.Files[fmt.Sprintf("g%d", i)] = strings.Join(body(i, r.rng(0, 5)), "\n") + r.pick("", "\n")
	}
	for i := r.rng(2, 6); i > 0; i-- {
		c.Lines = append(c.Lines, body(0, r.rng(1, 3))...)
		c.Lines = append(c.Lines, fmt.Sprintf(")get 'g%d'", r.rng(1, 4)), ")base", "11")
	}
	return c
}

type baseModel struct {
	i, o  int
	files map[string]string
}

// run follows one line and returns what it prints and whether it fails.
func (m *baseModel) run(l string) (out string, fails, iset, oset bool) {
	name, arg, _ := strings.Cut(strings.TrimPrefix(l, ")"), " ")
	switch {
	case !strings.HasPrefix(l, ")"):
		base := m.i
		if base == 0 {
			base = 10
		}
		n, err := strconv.ParseInt(l, base, 64)
		switch {
		case l == "" || l[0] == '#' || strings.HasPrefix(l, "zz"):
			return "", false, false, false
		case err != nil:
			return "", true, false, false
		}
		obase := m.o
		if obase == 0 {
			obase = 10
		}
		return strconv.FormatInt(n, obase), false, false, false
	case name == "get":
		i, o := m.i, m.o
		m.i, m.o = 0, 0
		text, ok := m.files[strings.Trim(arg, "'")]
		fails = !ok
		for _, x := range strings.Split(text, "\n") {
			t, bad, is, os := m.run(x)
			out += " " + t
			iset, oset = iset || is, oset || os
			if bad {
				// It is reported and ends the file, but is not an error of
				// the command that got the file.
				break
			}
		}
		if !iset {
			m.i = i
		}
		if !oset {
			m.o = o
		}
		return out, fails, iset, oset
	case arg == "":
		return fmt.Sprintf("ibase %d obase %d", m.i, m.o), false, false, false
	}
	n, _ := strconv.Atoi(arg)
	if n > 16 {
		return "", true, false, false
	}
	if name != "obase" {
		m.i, iset = n, true
	}
	if name != "ibase" {
		m.o, oset = n, true
	}
	return "", false, iset, oset
}

func checkC14bases(e *Env, c *Case) *Violation {
	s := c.spec(c.Lines)
	b := e.run(s)
	if b == nil {
		return nil
	}
	if bad(b) {
		return badViol("with )get", b)
	}
	outs := byLine(b, c.Lines)
	if len(outs) != len(c.Lines)+1 {
		return viol("ended", "with )get, the session ends after %d lines of %d: %s", len(outs)-1, len(c.Lines), clip(b.Stderr, 300))
	}
	m := &baseModel{files: c.Files}
	for i, l := range c.Lines {
		want, _, _, _ := m.run(l)
		if got := squeeze(outs[i+1].Out); got != squeeze(want) {
			return viol("bases", "after %q and with the files %q, %q prints %q instead of %q", c.Lines[:i], c.Files, l, got, squeeze(want))
		}
		if strings.HasPrefix(l, ")get") {
			e.nontrivial = true
			e.probe("bases")
		}
	}
	e.key = fmt.Sprint(c.Lines, c.Files)
	return nil
}

func genC14(r *RNG) *Case {
	if r.p(1, 6) {
		return genC14bases(r)
	}
	c := &Case{Kind: r.pick("flat", "flat", "nested", "nested", "nested", "error", "many", "deep"), Procs: 1, SeamSeed: r.u64() >> 12}
	g := newGen(r, false)
	for _, u := range sessionUnits(r, g, r.rng(3, 14)) {
		c.Lines = append(c.Lines, u)
	}
	for i := r.n(3); i > 0; i-- {
		c.Lines = append(c.Lines, settings(r)...)
	}
	if c.Kind == "nested" && r.p(1, 2) {
		// Bases set late, in an inner file.
		c.Lines = append(c.Lines, r.pick(")base 16", ")ibase 16", ")obase 8", ")ibase 8", ")obase 16", ")base 2", ")base 0", ")base 10"), "10 11", r.pick("77 + 1", ")obase 3", "zb = 101", ")ibase 2"), "11 + 1")
	}
	c.Lines = append(c.Lines, "1+1")
	if c.Kind == "error" {
		bad := r.pick("1 +", "nope", "1/0", "2 3 + 1 2 3", ")nope", ")origin -1", "op f7 x = y +", "'abc", "x = nope", ")base 99", ")ibase 1", "fact -1", ")get 'missing'", "(1 2", "v[999] = 3", "op x f7 y = (", "iota -1", "!-1", "op o o o = 3", ")prec 0")
		c.Lines = append(c.Lines, bad, "zq = 7", "op zq2 x = x", ")origin 5", "'not reached'", "2+")
		if r.p(1, 2) {
			i := r.n(len(c.Lines) - 5)
			c.Lines[i], c.Lines[len(c.Lines)-6] = c.Lines[len(c.Lines)-6], c.Lines[i]
		}
	}
	c.Short = []int{0, 0, 1, 5, 100}[r.n(5)]
	if r.p(1, 2) {
		c.FDLimit = 6
	}
	for i := 0; i < 4; i++ {
		c.Marks = append(c.Marks, r.n(len(c.Lines)+1))
		if r.p(1, 3) {
			c.Marks[i] = max(0, len(c.Lines)-r.n(10))
		}
	}
	c.Num = int64(r.n(4))
	c.Off = r.rng(12, 40)
	return c
}

func squeeze(s string) string { return strings.Join(strings.Fields(s), " ") }

func checkC14(e *Env, c *Case) *Violation {
	if c.Kind == "bases" {
		return checkC14bases(e, c)
	}
	// Typed. Units after the first that fails are left out, and the dump at
	// the end shows the state.
	units := c.Lines
	probe := []string{dumpCmd, ")base", ")seed", "'end'"}
	typed := cat(units, probe)
	a := e.run(plain(c.spec(typed)))
	if a == nil {
		return nil
	}
	ao := byLine(a, typed)
	if bad(a) || len(ao) != len(typed)+1 {
		return e.baseline(a)
	}
	stop := len(units)
	for i := range units {
		// The constants e and pi are set again by every special command,
		// so a session that assigns to them is not like others.
		if n := assigned(units[i]); ao[i+1].Err != "" || n["e"] || n["pi"] {
			stop = i
			break
		}
	}
	all := units
	fails, lines1 := "", 0
	if c.Kind == "error" && stop < len(units) && ao[stop+1].Err != "" && !strings.ContainsAny(units[stop], "\n;") {
		// Up to and with the first failing unit: the file goes on, but does
		// not run what follows.
		units = units[:stop+1]
		typed = cat(units, probe)
		a = e.run(plain(c.spec(typed)))
		if a == nil {
			return nil
		}
		ao = byLine(a, typed)
		if bad(a) || len(ao) != len(typed)+1 {
			return nil
		}
		fails, lines1 = squeeze(ao[stop+1].Err), strings.Count(ao[stop+1].Err, "\n")
	} else if stop < len(units) {
		// Up to the first failing unit: a file that ends there.
		units = units[:stop]
		typed = cat(units, probe)
		a = e.run(plain(c.spec(typed)))
		if a == nil {
			return nil
		}
		ao = byLine(a, typed)
		if bad(a) || len(ao) != len(typed)+1 {
			return nil
		}
	}
	var want strings.Builder
	semi := false
	prompt := false
	for i, u := range units {
		want.WriteString(ao[i+1].Out + "\n")
		if strings.Contains(u, ";") {
			semi = true
		}
		if strings.Contains(u, ")prompt") {
			prompt = true
		}
	}
	e.key = fmt.Sprint(c.Kind, c.Marks, strings.Join(units, "\n"))
	join := func(u []string) string {
		if len(u) == 0 {
			return ""
		}
		t := strings.Join(u, "\n")
		switch c.Num {
		case 0:
			return t
		case 1:
			return strings.ReplaceAll(t, "\n", "\r\n") + "\r\n"
		}
		return t + "\n"
	}
	files := map[string]string{}
	gets := []string{}
	switch c.Kind {
	case "flat", "many", "deep", "error":
		files["f"] = join(units)
		if fails != "" {
			files["f"] = join(all)
		}
		gets = append(gets, `)get "f"`)
		if c.Num == 3 {
			files["save.ivy"] = files["f"]
			gets[0] = ")get"
		}
	case "nested":
		setsBase := func(u []string) bool {
			t := strings.Join(u, "\n")
			return strings.Contains(t, "base") || strings.Contains(t, ")get") || strings.Contains(t, ")save")
		}
		// f gets f1, which gets f2, and so on: each runs part of the units
		// before and part after.
		var build func(depth int, u []string)
		build = func(depth int, u []string) {
			name := fmt.Sprintf("f%d", depth)
			if depth == 4 || len(u) < 3 || len(c.Marks) == 0 {
				files[name] = join(u)
				return
			}
			i := c.Marks[depth%len(c.Marks)] % len(u)
			j := i + (len(u)-i)/2 + 1
			j = min(j, len(u))
			if setsBase(u[:i]) {
				// A file is read in base 0, so the base of a file that gets
				// another does not apply to it.
				files[name] = join(u)
				return
			}
			if setsBase(u[i:j]) {
				e.probe("nested-base")
			}
			build(depth+1, u[i:j])
			files[name] = join(cat(u[:i], []string{fmt.Sprintf(`)get "f%d"`, depth+1)}, u[j:]))
		}
		build(0, units)
		gets = append(gets, `)get "f0"`)
	}
	pre := []string{}
	switch c.Kind {
	case "many":
		// Getting many files, some missing, first.
		files["tiny"] = "# nothing\n"
		files["bad"] = "1 +\n'not reached'\n"
		for i := 0; i < c.Off; i++ {
			pre = append(pre, []string{`)get "tiny"`, `)get "missing"`, `)get "bad"`}[i*7%3])
		}
	case "deep":
		files["loop"] = `)get "loop"` + "\n"
		for i := 0; i < c.Off/2; i++ {
			pre = append(pre, `)get "loop"`)
		}
	}
	lines := cat(pre, gets, probe)
	s := c.spec(lines)
	s.FS.Files = files
	b := e.run(s)
	if b == nil {
		return nil
	}
	if bad(b) {
		return badViol("with )get", b)
	}
	bo := byLine(b, lines)
	if len(bo) != len(lines)+1 {
		return viol("ended", "with )get, the session ends after %d lines of %d: %s", len(bo)-1, len(lines), clip(b.Stderr, 300))
	}
	n := len(pre) + 1
	if fails != "" {
		e.probe("error-reported")
		if err := squeeze(bo[n].Err); !strings.HasSuffix(err, fails) || strings.Count(bo[n].Err, "\n") != lines1 {
			return viol("error", "a line that gives the error %q typed gives %q in a file run with %s", fails, clip(err, 300), gets[0])
		}
	} else if bo[n].Err != "" {
		return viol("error", "lines that give no error typed give one from %s: %q", gets[0], clip(bo[n].Err, 300))
	}
	e.nontrivial = true
	e.probe(c.Kind)
	if x, y := squeeze(want.String()), squeeze(bo[n].Out); x != y && !prompt {
		return viol("output", "the lines print something else from %s than typed: %s", gets[0], diffText(strings.ReplaceAll(x, " ", "\n"), strings.ReplaceAll(y, " ", "\n")))
	}
	for i, l := range probe {
		x, y := ao[len(units)+1+i].Out, bo[n+1+i].Out
		if l == dumpCmd && (semi || true) {
			x, y = dropLast(x), dropLast(y)
		}
		if x != y && l != ")seed" {
			return viol("state", "after %s, %s shows another state than after typing the lines: %s", gets[0], l, diffText(x, y))
		}
	}
	if !semi {
		e.probe("last-value")
		x, _ := dump(ao[len(units)+1].Out)
		y, _ := dump(bo[n+1].Out)
		if x["_"] != y["_"] {
			return viol("state", "after %s the last value _ is %q, and %q after typing the lines", gets[0], clip(y["_"], 200), clip(x["_"], 200))
		}
	}
	for i := range pre {
		o := bo[1+i]
		if (o.Err == "") != strings.Contains(pre[i], "tiny") {
			return viol("error", "%s, number %d of them, gives errors %q", pre[i], i+1, clip(o.Err, 300))
		}
	}
	if len(b.Open) > 0 {
		return viol("open", "files left open: %v", b.Open)
	}
	return nil
}

var lastLineRE = regexp.MustCompile(`(?m)^_ = .*$`)

// dropLast removes the variable _ from a dump.
func dropLast(s string) string { return lastLineRE.ReplaceAllString(s, "") }
