package main

import (
	"fmt"
	"strings"
)

// RNG is splitmix64.
type RNG struct{ s uint64 }

func newRNG(seed ...uint64) *RNG {
	r := &RNG{0x1234}
	for _, s := range seed {
		r.s ^= s
		r.u64()
		r.s = r.u64()
	}
	return r
}

func (r *RNG) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *RNG) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.u64() >> 1 % uint64(n))
}

func (r *RNG) rng(lo, hi int) int      { return lo + r.n(hi-lo+1) }
func (r *RNG) p(num, den int) bool     { return r.n(den) < num }
func (r *RNG) pick(s ...string) string { return s[r.n(len(s))] }

// A Gen writes ivy programs.
type Gen struct {
	*RNG
	L, R, C int // vector length, rows and columns
	user    bool
	float   bool // use irrational functions
}

func newGen(r *RNG, big bool) *Gen {
	g := &Gen{RNG: r, float: r.p(2, 3)}
	if big {
		g.L = r.rng(200, 420)
		g.R = r.rng(12, 22)
		g.C = r.rng(12, 22)
	} else {
		g.L = r.rng(2, 40)
		g.R = r.rng(2, 7)
		g.C = r.rng(2, 7)
	}
	return g
}

func (g *Gen) intLit() string {
	switch g.n(12) {
	case 0:
		return "0"
	case 1:
		return fmt.Sprint(-g.n(50) - 1)
	case 2:
		return g.pick("4611686018427387903", "-4611686018427387904", "9223372036854775807", "-9223372036854775808", "4611686018427387904", "2147483648")
	case 3:
		return fmt.Sprint(g.u64()>>1) + fmt.Sprint(g.u64()>>1)
	case 4:
		return fmt.Sprint(g.n(1000000))
	default:
		return fmt.Sprint(g.n(30))
	}
}

func (g *Gen) small() string { return fmt.Sprint(g.rng(1, 9)) }

func (g *Gen) ratLit() string {
	return fmt.Sprintf("%s%d/%d", g.pick("", "", "-"), g.rng(1, 40), g.rng(2, 30))
}

func (g *Gen) floatLit() string {
	return g.pick("(float 1/3)", "(sqrt 2)", "(float -22/7)", "pi", "e", "(float 10)", "(- sqrt 5)", "(float 1e40)", "(float 1e-30)")
}

func (g *Gen) complexLit() string {
	return fmt.Sprintf("%dj%d", g.rng(-9, 9), g.rng(-9, 9))
}

func (g *Gen) str() string {
	n := g.rng(0, 8)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(g.pick("a", "b", "c", "x", " ", "Z", "é", "世", "0", "!", "\\n", "\\t", "\\\\", "\\\"", "'", "#"))
	}
	return `"` + b.String() + `"`
}

func (g *Gen) scalarLit() string {
	switch g.n(8) {
	case 0:
		return g.ratLit()
	case 1:
		if g.float {
			if g.p(1, 4) {
				return g.pick("fz[1]", "fz[2]", "zf", "fz[4]")
			}
			return g.floatLit()
		}
		return g.ratLit()
	case 2:
		return g.complexLit()
	default:
		return g.intLit()
	}
}

// vecLit writes an expression for a vector of length n.
func (g *Gen) vecLit(n int, kind string) string {
	var l []string
	for i := 0; i < n && i < 24; i++ {
		switch kind {
		case "int":
			l = append(l, g.intLit())
		case "rat":
			l = append(l, g.pick(g.ratLit(), g.ratLit(), g.intLit()))
		case "bool":
			l = append(l, g.pick("0", "1"))
		case "small":
			l = append(l, g.small())
		case "complex":
			l = append(l, g.pick(g.complexLit(), g.intLit()))
		case "mixed":
			l = append(l, g.scalarLit())
		}
	}
	s := strings.Join(l, " ")
	if len(l) < n || n == 1 {
		s = fmt.Sprintf("%d rho %s", n, s)
	}
	return s
}

// setup defines the variables that expressions use.
func (g *Gen) setup() []string {
	lines := []string{
		"a = " + g.intLit(),
		"q = " + g.ratLit(),
		"zc = " + g.complexLit(),
		"v = " + g.vecLit(g.L, "int"),
		"w = " + g.vecLit(g.L, "small"),
		"rv = " + g.vecLit(g.L, "rat"),
		"bv = " + g.vecLit(g.L, "bool"),
		"cz = " + g.vecLit(g.L, "complex"),
		fmt.Sprintf("m = %d %d rho %s", g.R, g.C, g.vecLit(min(24, g.R*g.C), "int")),
		fmt.Sprintf("mr = %d %d rho %s", g.R, g.C, g.vecLit(min(24, g.R*g.C), "rat")),
		fmt.Sprintf("ms = %d %d rho %s", g.R, g.C, g.vecLit(min(24, g.R*g.C), "small")),
		fmt.Sprintf("mt = %d %d rho %s", g.C, g.R, g.vecLit(min(24, g.R*g.C), "small")),
		fmt.Sprintf("sq = %d %d rho %s", min(g.R, 5), min(g.R, 5), g.vecLit(min(24, g.R*g.R), "small")),
		fmt.Sprintf("t = 2 %d %d rho %s", g.R, g.C, g.vecLit(min(24, 2*g.R*g.C), "int")),
		"s = " + g.str(),
		fmt.Sprintf("cv = %d rho %s", g.L, `"the quick brown fox"`),
		fmt.Sprintf("nv = (box %s) %s (box \"xy\") (box %d %d rho iota 6)", g.vecLit(3, "int"), g.scalarLit(), 2, 3),
		"cm = 3 4 rho 'abcdefghijkl'",
		"ev = iota 0",
		"e1 = " + g.pick("0 3 rho 1", "3 0 rho 1", "2 0 3 rho 1", "0 0 rho 1", "2 3 0 rho 1", "0 2 3 rho 1"),
	}
	lines = append(lines,
		"b1 = "+g.pick("+/ t", "t[1]", "max/% t", "+/ +/ t", "t", "v", "split t"),
		"b2 = "+g.pick("1 take t", "1 drop t", "transp t", "w", "m", "box m"),
		"b3 = "+g.pick("t o.+ 1 2", "m o.* m", "3 take v", "split m", "b1", "m", "m[1]", "nv"),
		"b4 = "+g.pick("+/ b3", "b3", "b3, b3", "m, m", "mix split m", "up w", "2 2 2 2 2 rho iota 32", "iota 2 3 2"),
		"b5 = "+g.pick("+/ b4", "b4[1]", "min/% b4", "rot b4", "b3, b4", "v"),
		"b6 = "+g.pick("b5 b4", "b5 o.+ b2", "2 1 2 3 rho iota 12", "+/ 2 1 2 3 rho iota 12", "m[; 1 2]", "b1"))
	if g.L > 100 { // Not too much work.
		lines[len(lines)-4] = "b3 = " + g.pick("(2 3 rho 5) o.+ 1 2", "3 take v", "split m", "m[1]", "m")
		lines[len(lines)-1] = "b6 = " + g.pick("2 1 2 3 rho iota 12", "+/ 2 1 2 3 rho iota 12", "m[; 1 2]", "b1")
	}
	if g.float {
		lines = append(lines, "fl = "+g.floatLit(), fmt.Sprintf("fv = (sqrt w) * %d rho 1 -1 9 1 1/2", g.L), "zf = (float 21/2)j(float -3/2)", "fz = (- sqrt 3) (sqrt 200) (float 1/3) (float -7/2)")
	} else {
		lines = append(lines, "fl = 5/4", "fv = w / 7", "zf = 1/2j-3/2", "fz = 1/2 -7/2 5/3 8")
	}
	return lines
}

// userOps defines operators.
func (g *Gen) userOps() []string {
	g.user = true
	lines := []string{
		"op sqr x = x*x",
		"op x plus y = x+y",
		"op x gcd y =\n\tx == y: x\n\tx > y: y gcd x-y\n\tx gcd y-x\n",
		"op fact n =\n\tn <= 1: 1\n\tn * fact n-1\n",
		"op avg x = (+/x)/rho x",
		"op a chg b =\n\ta[1] = b\n\ta\n",
		"op loc x = y = 2*x; z = y+1; y*z",
		"total = 0",
		"op tally x = total = total + x; total",
		"op (p1 p2) pr x = x*p1+p2",
		"op lit x = k = 1 2 3; k[2] = x; k",
	}
	return lines
}

// elemUnary are unary operators defined elementwise.
func (g *Gen) elemUnary() string {
	if g.float && g.p(1, 4) {
		return g.pick("sin", "cos", "tan", "atan", "sinh", "tanh", "asinh", "log", "sqrt", "cosh", "acosh", "asin", "acos", "atanh", "sin", "cos", "tan", "**")
	}
	return g.pick("-", "+", "abs", "sgn", "floor", "ceil", "not", "/", "real", "imag", "conj", "j", "float", "-", "abs")
}

func (g *Gen) elemBinary() string {
	return g.pick("+", "-", "*", "/", "max", "min", "<", "<=", "==", ">=", ">", "!=", "mod", "div", "idiv", "imod", "+", "-", "*", "or", "and", "xor", "nor", "nand", "&", "|", "^", "j")
}

func (g *Gen) reduceOp() string {
	return g.pick("+", "*", "max", "min", "-", "or", "and", "+", "max", ",", "==", "/", "xor", "|", "&")
}

func (g *Gen) scalar(d int) string {
	if d <= 0 {
		return g.pick("a", "q", "zc", "fl", "7", "2", "zf", g.scalarLit())
	}
	switch g.n(12) {
	case 0:
		return "(" + g.elemUnary() + " " + g.scalar(d-1) + ")"
	case 1, 2:
		return "(" + g.scalar(d-1) + " " + g.elemBinary() + " " + g.scalar(d-1) + ")"
	case 3, 4:
		return "(" + g.reduceOp() + "/ " + g.vec(d-1) + ")"
	case 5:
		return fmt.Sprintf("(%s)[%d]", g.vec(d-1), g.rng(1, g.L))
	case 6:
		return fmt.Sprintf("(%s)[%d; %d]", g.mat(d-1), g.rng(1, g.R), g.rng(1, g.C))
	case 7:
		return "(" + g.vec(d-1) + " " + g.pick("+.*", "max.+", "+.==", "-.min", "or.and", "+.-") + " " + g.vec(d-1) + ")"
	case 8:
		return "(" + g.pick("count", "first") + " " + g.vec(d-1) + ")"
	case 9:
		return "(" + g.any(d-1) + " " + g.pick("===", "!==") + " " + g.any(d-1) + ")"
	case 10:
		return fmt.Sprintf("(%s decode %s)", g.pick("10", "2", "a"), g.pick("1 0 2 3", "w", "bv"))
	default:
		return g.scalar(0)
	}
}

// vec writes an expression meant to have length L.
func (g *Gen) vec(d int) string {
	if d <= 0 {
		return g.pick("v", "w", "rv", "fv", "bv", "cz", "v", "w", fmt.Sprintf("(iota %d)", g.L))
	}
	switch g.n(20) {
	case 0, 1, 2:
		return "(" + g.elemUnary() + " " + g.vec(d-1) + ")"
	case 3, 4, 5:
		return "(" + g.vec(d-1) + " " + g.elemBinary() + " " + g.vec(d-1) + ")"
	case 6:
		return "(" + g.scalar(d-1) + " " + g.elemBinary() + " " + g.vec(d-1) + ")"
	case 7:
		return "(" + g.vec(d-1) + " " + g.elemBinary() + " " + g.scalar(d-1) + ")"
	case 8, 9:
		return "(" + g.reduceOp() + "\\ " + g.vec(d-1) + ")"
	case 10:
		return "(" + g.pick("rot", "flip", "3 rot", "-2 rot", ",") + " " + g.vec(d-1) + ")"
	case 11:
		return "(" + g.pick("up", "down") + " " + g.pick("v", "w", "rv", "cv") + ")"
	case 12:
		return "(" + g.vec(d-1) + ")[" + g.pick("up w", "down v", "w", "w min "+fmt.Sprint(g.L)) + "]"
	case 13:
		return "(" + g.vec(d-1) + " in " + g.vec(d-1) + ")"
	case 14:
		return "(" + g.vec(d-1) + " iota " + g.vec(d-1) + ")"
	case 15:
		return "(code " + g.pick("cv", "cv", "s") + ")"
	case 16:
		return fmt.Sprintf("(%d take %s, %s)", g.L, g.vec(d-1), g.any(d-1))
	case 17:
		return fmt.Sprintf("(%s ** %s)", g.vec(d-1), g.pick("2", "3", "-1", "0"))
	case 18:
		return fmt.Sprintf("(%s %s %s)", g.pick("w", "(abs v)"), g.pick("<<", ">>"), g.pick("2", "5", "w", "1"))
	default:
		if g.user {
			return "(" + g.pick("sqr ", "tally ", "loc ", "5 plus ", "1 2 pr ") + g.vec(d-1) + ")"
		}
		return g.vec(d - 1)
	}
}

// mat writes an expression meant to be an R by C matrix.
func (g *Gen) mat(d int) string {
	if d <= 0 {
		return g.pick("m", "mr", "ms", "m", "ms", fmt.Sprintf("(%d %d rho v)", g.R, g.C))
	}
	switch g.n(16) {
	case 0, 1, 2:
		return "(" + g.elemUnary() + " " + g.mat(d-1) + ")"
	case 3, 4, 5:
		return "(" + g.mat(d-1) + " " + g.elemBinary() + " " + g.mat(d-1) + ")"
	case 6:
		return "(" + g.scalar(d-1) + " " + g.elemBinary() + " " + g.mat(d-1) + ")"
	case 7:
		return "(" + g.mat(d-1) + " " + g.elemBinary() + " " + g.scalar(d-1) + ")"
	case 8:
		return "(" + g.reduceOp() + g.pick("\\ ", "\\% ") + g.mat(d-1) + ")"
	case 9:
		return "(" + g.pick("rot", "flip", "2 rot", "1 flip", "-1 rot") + " " + g.mat(d-1) + ")"
	case 10:
		return "(transp mt)"
	case 11:
		return fmt.Sprintf("(%s)[%s; %s]", g.mat(d-1), g.idx(g.R, g.R), g.idx(g.C, g.C))
	case 12:
		return fmt.Sprintf("(%d %d rho %s)", g.R, g.C, g.vec(d-1))
	case 13:
		return "(" + g.mat(d-1) + " in " + g.vec(d-1) + ")"
	case 14:
		return "(t[" + g.pick("1", "2") + "])"
	default:
		if g.user {
			return "(" + g.pick("sqr ", "loc ", "5 plus ") + g.mat(d-1) + ")"
		}
		return g.mat(d - 1)
	}
}

// idx writes an index selecting n positions out of size.
func (g *Gen) idx(n, size int) string {
	if g.p(1, 3) && n == size {
		return ""
	}
	if n == size && g.p(1, 3) {
		return fmt.Sprintf("rot iota %d", n)
	}
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, fmt.Sprint(g.rng(1, size)))
	}
	if n == 1 {
		return ", " + l[0]
	}
	return strings.Join(l, " ")
}

// derived names a value derived from another in the setup, with which it may
// share structure.
func (g *Gen) derived() string { return g.pick("b1", "b2", "b3", "b4", "b5", "b6") }

// wild applies an operator to whatever operands.
func (g *Gen) wild(d int) string {
	switch g.n(8) {
	case 0, 1:
		return "(" + g.pick("split", "mix", "+", "-", "/", "inv", "sgn", "conj", "not", "abs", "real", "imag", "phase", "floor", "ceil", "rho", "count", "where", "flatten", ",", "up", "down", "rot", "flip", "transp", "text", "float", "unique", "box", "first", "code") + " " + g.any(d-1) + ")"
	case 2, 3:
		return "(" + g.any(d-1) + " " + g.pick("j", "+", "-", "*", "/", "idiv", "imod", "mdiv", "div", "mod", "&", "|", "^", "==", "!=", "<", "<=", ">", ">=", "and", "or", "xor", "nand", "nor", "in", "iota", "min", "max", ",", ",%", "===", "!==", "intersect", "union") + " " + g.any(d-1) + ")"
	case 4:
		if g.L > 100 {
			return g.derived()
		}
		return "(" + g.any(d-1) + " o." + g.elemBinary() + " " + g.any(d-1) + ")"
	case 5:
		return "(" + g.any(d-1) + " " + g.reduceOp() + "." + g.elemBinary() + " " + g.any(d-1) + ")"
	case 6:
		return "(" + g.pick("1", "-1", "2", "-2", "1 1", "2 -1", "1 2 1", "0", "1 0") + " " + g.pick("take", "drop", "rot", "flip", "take", "drop") + " " + g.any(d-1) + ")"
	default:
		switch g.n(4) {
		case 0:
			return "(" + g.reduceOp() + g.pick("/ ", "/% ", "\\ ", "\\% ") + g.any(d-1) + ")"
		case 1:
			return "(" + g.pick("2 1", "1 1", "2 1 3", "3 1 2", "1 1 2", "1", "4 3 2 1", "1 2 2 1") + " transp " + g.any(d-1) + ")"
		case 2:
			return "(" + g.pick("bv", "1 0 1", "1", "w", "0", "1 1 1 2") + " " + g.pick("sel", "fill", "part") + " " + g.any(d-1) + ")"
		default:
			return "(" + g.any(d-1) + ")[" + g.pick("1", "2", "1; 1", "; 1", "1; ; 1", "1 1", "1;", "(box 1 1) (box 1 2)") + "]"
		}
	}
}

// any writes an expression of any shape.
func (g *Gen) any(d int) string {
	if d <= 0 {
		return g.pick(g.vec(0), g.mat(0), g.scalar(0), "nv", "s", "cv", "cm", "t", g.pick("ev", "e1"), g.derived(), g.derived())
	}
	if g.p(1, 4) {
		return g.wild(d)
	}
	v, m, s := func() string { return g.vec(d - 1) }, func() string { return g.mat(d - 1) }, func() string { return g.scalar(d - 1) }
	switch g.n(46) {
	case 0, 1, 2:
		return v()
	case 3, 4, 5:
		return m()
	case 6:
		return s()
	case 7, 8:
		n := g.rng(1, 9)
		return fmt.Sprintf("((%d take %s) o.%s %d take %s)", n, v(), g.elemBinary(), g.rng(1, 9), v())
	case 9, 10:
		return "(" + m() + " " + g.pick("+.*", "max.+", "+.==", "or.and", "+.-", "*.max", "==.+") + " mt)"
	case 11, 12, 13:
		return "(" + g.reduceOp() + g.pick("/ ", "/% ") + m() + ")"
	case 14:
		return "(" + g.reduceOp() + g.pick("/ ", "/% ", "\\ ", "\\% ") + "t)"
	case 15:
		return "(" + g.elemUnary() + " " + g.pick("t", "nv", "ev", "cm") + ")"
	case 16:
		return "(" + g.pick("bv sel ", "w sel ", "bv fill ", "bv part ", "w part ") + g.pick(v(), "cv") + ")"
	case 17:
		return "(" + g.pick("where bv", "where "+m()+" > 5", "unique "+v(), "where "+v()+" == 3") + ")"
	case 18:
		return "(" + v() + " " + g.pick("union", "intersect", ",") + " " + v() + ")"
	case 19:
		return "(" + m() + " " + g.pick(",", ",%") + " " + g.pick(m(), s(), v()) + ")"
	case 20:
		return fmt.Sprintf("(%d %s %s)", g.rng(-9, 9), g.pick("take", "drop"), g.pick(v(), m(), "cv", "nv", "t"))
	case 21:
		return fmt.Sprintf("(%d %d %s %s)", g.rng(-5, 5), g.rng(-5, 5), g.pick("take", "drop"), m())
	case 22:
		return "(" + g.pick("transp ", "2 1 transp ", "1 1 transp ") + m() + ")"
	case 23:
		return g.pick("(transp t)", "(3 1 2 transp t)", "(1 2 1 transp t)", "(2 1 3 transp t)", "(1 1 2 transp t)")
	case 24:
		return "(" + g.pick("inv sq", "sq mdiv sq", "(sq[1]) mdiv sq", "sq +.* inv sq") + ")"
	case 25:
		return "(" + g.pick("box ", "split ", "mix ", "flatten ", "first ") + g.pick(v(), m(), "nv", "split m", "box@ w", "nv nv") + ")"
	case 26:
		return fmt.Sprintf("(%s)[%s; %s]", m(), g.idx(g.rng(1, 4), g.R), g.idx(g.rng(1, 4), g.C))
	case 27:
		return fmt.Sprintf("(%s)[%s]", v(), g.idx(g.rng(1, 9), g.L))
	case 28:
		return fmt.Sprintf("t[%s; %s; %s]", g.idx(2, 2), g.idx(g.rng(1, 4), g.R), g.idx(g.rng(1, 4), g.C))
	case 29:
		return fmt.Sprintf("((%d take %s) %s %s)", g.rng(1, 6), v(), g.pick("@rho", "@,", "@+", "@take", "@rot", "@iota"), g.pick("w", "1 2 3", "5", "iota 4"))
	case 30:
		return fmt.Sprintf("(%s %s %s)", g.pick("w", "1 2 3", "5"), g.pick(",@", "+@", "rho@", "take@", "*@", "rot@"), g.pick("(iota 4)", "(1 2 3)", "(box 3 4) (box 1)"))
	case 31:
		return fmt.Sprintf("(%s %s %s)", g.pick("2", "10", "16", "2 2 2 2", "24 60 60", "10 10 10"), "encode", g.pick("w", "1000", "123 456 7", "(abs 3 take v)"))
	case 32:
		return fmt.Sprintf("(%s decode %s)", g.pick("2", "24 60 60", "10"), g.pick("1 2 3", "(3 4 rho w)"))
	case 33:
		return "(rho " + g.pick(v(), m(), "t", "nv", "s", g.any(d-1)) + ")"
	case 34:
		return "(" + g.pick("text ", "8 2 text ", "'%.3f' text ", "2 text ") + g.pick(v(), m(), s()) + ")"
	case 35:
		return "(char 96 + w)"
	case 36:
		return "(! " + g.pick("w", "7", "12") + ")"
	case 37:
		return "(" + g.pick("3 ! w", "w ! 9", "2 ! 10") + ")"
	case 38:
		return "(" + g.pick("cv", "cm", "s") + " " + g.pick("==", "!=", "<", "in", "===") + " " + g.pick("'a'", "cv", `"quick"`, "cm") + ")"
	case 39:
		return fmt.Sprintf("(%d rho %s)", g.rng(0, 12), g.any(d-1))
	case 40:
		return fmt.Sprintf("(ivy %q)", g.pick("2+3", "+/iota 10", "1 2 3 * 2", "x1 = 4"))
	case 41:
		return "(" + g.pick("iota 3 4", "iota 2 2 2", "up sq", "down cm", "up nv", "count nv") + ")"
	case 42:
		if g.float {
			return "(" + g.pick("log ", "sqrt ", "sin ", "** ", "cos ", "tan ", "asin ", "acos ", "atan ", "sinh ", "cosh ", "tanh ", "asinh ", "acosh ", "atanh ", "2 ** ", "-2 ** ", "real ", "phase ", "abs ", "/ ", "2 log ") + g.pick("w", "ms", "zc", "fv", "cz", "zf", "fz", "fl") + ")"
		}
		return "(" + g.elemUnary() + " " + g.any(d-1) + ")"
	case 43:
		if g.user {
			return "(" + g.pick("plus/ w", "plus\\ w", "ms plus.* mt", "w o.plus w", "gcd/ 3 take w", "gcd/ 12 18", "avg v", "v chg 9", "fact 7", "lit 5", "w tally@ 2", "sqr@ w", "plus/ ms", "plus\\% ms", "w o.gcd w") + ")"
		}
		return s()
	case 44:
		return "(" + g.any(d-1) + " , " + g.any(d-1) + ")"
	default:
		return "(" + g.any(d-1) + " " + g.elemBinary() + " " + g.any(d-1) + ")"
	}
}

// expr writes a pure expression: it assigns nothing and uses no random numbers.
// (With user operators it may call tally, which adds to total.)
func (g *Gen) expr() string {
	if g.p(1, 10) {
		return shapeExpr(g.RNG)
	}
	d := g.rng(1, 3)
	e := g.any(d)
	for strings.HasPrefix(e, "(") && strings.HasSuffix(e, ")") && balanced(e[1:len(e)-1]) && g.p(3, 4) {
		e = e[1 : len(e)-1]
	}
	return e
}

// balanced reports whether the parentheses in s match without going negative.
func balanced(s string) bool {
	n := 0
	for _, c := range s {
		switch c {
		case '(':
			n++
		case ')':
			n--
			if n < 0 {
				return false
			}
		}
	}
	return n == 0
}

// assign writes an assignment and names the variables it changes.
func (g *Gen) assign() (string, string) {
	switch g.n(12) {
	case 0:
		return fmt.Sprintf("v[%d] = %s", g.rng(1, g.L), g.scalar(1)), "v"
	case 1:
		return fmt.Sprintf("m[%d; %d] = %s", g.rng(1, g.R), g.rng(1, g.C), g.scalar(1)), "m"
	case 2:
		return fmt.Sprintf("m[%d] = %s", g.rng(1, g.R), g.scalar(1)), "m"
	case 3:
		return fmt.Sprintf("m[; %d] = %s", g.rng(1, g.C), g.scalar(1)), "m"
	case 4:
		return fmt.Sprintf("v[%s] = %s", g.idx(g.rng(1, 6), g.L), g.scalar(1)), "v"
	case 5:
		return fmt.Sprintf("ms[%s; %s] = %s", g.idx(2, g.R), g.idx(2, g.C), g.small()), "ms"
	case 6:
		return "b" + g.pick("1", "2", "3") + " = " + g.pick("v", "m", "w", "nv", "cv", "t"), ""
	case 7:
		return "b1 = v; b1[" + fmt.Sprint(g.rng(1, g.L)) + "] = " + g.scalar(1), "b1"
	case 8:
		return "nv[" + fmt.Sprint(g.rng(1, 4)) + "] = " + g.pick("7", "box 1 2 3", `box "q"`, "box v"), "nv"
	case 9:
		return "t[1; 2; 1] = " + g.scalar(0), "t"
	case 10:
		return "v = " + g.vec(1), "v"
	default:
		x := g.pick("b1", "b2", "b3", "b4")
		return x + " = " + g.expr(), x
	}
}

// sched chooses a scheduling strategy.
func genSched(r *RNG) Sched {
	s := Sched{Seed: r.u64() >> 12}
	switch r.n(12) {
	case 0:
		s.Strategy = "default"
	case 1:
		s.Strategy = "lifo"
	case 2:
		s.Strategy, s.Mean = "rr", []int{1, 2, 3, 7, 30}[r.n(5)]
	case 3, 4:
		s.Strategy, s.Depth, s.Mean = "pct", r.rng(1, 6), []int{5, 50, 500}[r.n(3)]
	case 5:
		s.Strategy = "sync"
	case 6:
		s.Strategy, s.Mean = "starve", []int{2, 10, 50}[r.n(3)]
	default:
		s.Strategy, s.Mean = "random", []int{1, 2, 5, 20, 100, 1000}[r.n(6)]
	}
	return s
}
