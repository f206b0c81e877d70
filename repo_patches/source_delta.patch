From 48a7a1c4f9a84540217221550816501ba7069e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:13 +0000
Subject: [PATCH 01/49] fix: mod, div and idiv no longer negate their operands
 in place

---
 value/eval.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/value/eval.go b/value/eval.go
index ee1fbc8..0e9ac5c 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -957,12 +957,12 @@ func QuoRem(op string, c Context, a, b Value) (div, rem Value) {
 		x := a.toType(op, c.Config(), bigRatType).(BigRat).Rat
 		y := b.toType(op, c.Config(), bigRatType).(BigRat).Rat
 		if x.Sign() < 0 {
-			x = x.Set(x) // Copy x.
+			x = new(big.Rat).Set(x) // Copy x.
 			x.Neg(x)
 			negX = true
 		}
 		if y.Sign() < 0 {
-			y = y.Set(y) // Copy y.
+			y = new(big.Rat).Set(y) // Copy y.
 			y.Neg(y)
 			negY = true
 		}
@@ -984,12 +984,12 @@ func QuoRem(op string, c Context, a, b Value) (div, rem Value) {
 		x := a.toType(op, c.Config(), bigFloatType).(BigFloat).Float
 		y := b.toType(op, c.Config(), bigFloatType).(BigFloat).Float
 		if x.Sign() < 0 {
-			x = x.Copy(x)
+			x = new(big.Float).Copy(x)
 			x.Neg(x)
 			negX = true
 		}
 		if y.Sign() < 0 {
-			y = y.Copy(y)
+			y = new(big.Float).Copy(y)
 			y.Neg(y)
 			negY = true
 		}
-- 
2.43.0


From 92e180de24794bd36b15fa172cbaa0549e586f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:28 +0000
Subject: [PATCH 02/49] fix: decoding a time vector no longer overwrites its
 seconds element

---
 value/sys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value/sys.go b/value/sys.go
index f95ced6..1a161c3 100644
--- a/value/sys.go
+++ b/value/sys.go
@@ -285,7 +285,7 @@ func decodeTime(c Context, u, v *Vector) Value {
 func secNsec(fs *big.Float) (sec, nsec int64) {
 	var s big.Int
 	fs.Int(&s)
-	fs.Sub(fs, big.NewFloat(0).SetInt(&s))
+	fs = new(big.Float).Sub(fs, big.NewFloat(0).SetInt(&s)) // Don't overwrite the argument.
 	fs.Mul(fs, big.NewFloat(1e9))
 	fs.Add(fs, big.NewFloat(0.5))
 	ns, _ := fs.Int64()
-- 
2.43.0


From b80912d816cf5ebe7eb0958c22e09b619a98ccbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:34 +0000
Subject: [PATCH 03/49] fix: round fractional seconds correctly for times
 before 1970

---
 value/sys.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/value/sys.go b/value/sys.go
index 1a161c3..b97cb8a 100644
--- a/value/sys.go
+++ b/value/sys.go
@@ -287,7 +287,11 @@ func secNsec(fs *big.Float) (sec, nsec int64) {
 	fs.Int(&s)
 	fs = new(big.Float).Sub(fs, big.NewFloat(0).SetInt(&s)) // Don't overwrite the argument.
 	fs.Mul(fs, big.NewFloat(1e9))
-	fs.Add(fs, big.NewFloat(0.5))
+	half := big.NewFloat(0.5)
+	if fs.Sign() < 0 { // Round away from zero; Int64 will truncate.
+		half.Neg(half)
+	}
+	fs.Add(fs, half)
 	ns, _ := fs.Int64()
 	return s.Int64(), ns
 }
-- 
2.43.0


From 9954395e866d670e703174c7c7b3f86f7287770e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:30 +0000
Subject: [PATCH 04/49] fix: a failed op definition leaves no trace

The declared arguments, the definition list used by )save and a variable
cleared for the op all survived the error.
---
 parse/function.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parse/function.go b/parse/function.go
index 5c1a957..06aed4c 100644
--- a/parse/function.go
+++ b/parse/function.go
@@ -60,6 +60,7 @@ func (p *Parser) functionDefn() {
 
 	// Prepare to declare arguments.
 	argNames := make(map[string]bool)
+	defer p.context.ForgetAll()
 	declare := func(x *value.VarExpr) {
 		if x.Name == fn.Name {
 			p.errorf("argument name %q is function name", fn.Name)
@@ -91,11 +92,16 @@ func (p *Parser) functionDefn() {
 
 	// Define it, but prepare to undefine if there's trouble.
 	prevDefn := installMap[fn.Name]
+	prevDefs := append([]exec.OpDef(nil), p.context.Defs...)
+	prevVar := p.context.Globals[fn.Name] // Define deletes a variable with value 0.
 	p.context.Define(fn)
-	defer p.context.ForgetAll()
 	succeeded := false
 	defer func() {
 		if !succeeded {
+			p.context.Defs = prevDefs
+			if prevVar != nil {
+				p.context.Globals[fn.Name] = prevVar
+			}
 			if prevDefn == nil {
 				delete(installMap, fn.Name)
 			} else {
-- 
2.43.0


From 92db33499433e68b67a32db183b1ba22ff207576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:47 +0000
Subject: [PATCH 05/49] fix: a local variable does not keep its value from an
 earlier call

---
 exec/context.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/exec/context.go b/exec/context.go
index bf7b06b..2f251d5 100644
--- a/exec/context.go
+++ b/exec/context.go
@@ -102,6 +102,12 @@ func (c *Context) push(fn *Function) {
 func (c *Context) pop() {
 	n := c.frameSizes[len(c.frameSizes)-1]
 	c.frameSizes = c.frameSizes[:len(c.frameSizes)-1]
+	// The next call will reuse these variables, but must not see their values.
+	for _, v := range c.stack[len(c.stack)-n:] {
+		if v != nil {
+			v.Assign(nil)
+		}
+	}
 	c.stack = c.stack[:len(c.stack)-n]
 }
 
-- 
2.43.0


From 9b3a1c7daf1a6523a94d08dc53dfb1ec30ce8bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:47 +0000
Subject: [PATCH 06/49] fix: save an op that is declared but not defined as
 just its declaration

---
 exec/function.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/exec/function.go b/exec/function.go
index 394ada0..5159545 100644
--- a/exec/function.go
+++ b/exec/function.go
@@ -54,6 +54,9 @@ func (fn *Function) String() string {
 	b.WriteString(fn.Name)
 	b.WriteRune(' ')
 	argProgString(&b, fn.Right)
+	if len(fn.Body) == 0 { // Declared but not defined.
+		return b.String()
+	}
 	b.WriteString(" = ")
 	if len(fn.Body) == 1 {
 		b.WriteString(fn.Body[0].ProgString())
-- 
2.43.0


From 92d3627ee1c3fd8da0fb97251aec2552946aa2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:51 +0000
Subject: [PATCH 07/49] fix: never run a user-defined op in parallel

A user-defined op that shadows a builtin was run by parallel reductions,
scans and products, and by builtins implemented in terms of others.
---
 value/complex.go |  7 ++++---
 value/eval.go    | 21 ++++++++++++++-------
 value/unary.go   |  2 +-
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/value/complex.go b/value/complex.go
index 3197751..44d8597 100644
--- a/value/complex.go
+++ b/value/complex.go
@@ -193,9 +193,10 @@ func (c Complex) div(ctx Context, d Complex) Complex {
 func (c Complex) floor(ctx Context) Complex {
 	r := c.real
 	i := c.imag
-	b := NewComplex(ctx.EvalUnary("floor", r), ctx.EvalUnary("floor", i))
-	x := ctx.EvalBinary(r, "mod", one)
-	y := ctx.EvalBinary(i, "mod", one)
+	floor, mod := UnaryOps["floor"], BinaryOps["mod"] // Not the user's.
+	b := NewComplex(floor.EvalUnary(ctx, r), floor.EvalUnary(ctx, i))
+	x := mod.EvalBinary(ctx, r, one)
+	y := mod.EvalBinary(ctx, i, one)
 	if isTrue("floor", ctx.EvalBinary(one, ">", ctx.EvalBinary(x, "+", y))) {
 		return b
 	}
diff --git a/value/eval.go b/value/eval.go
index 0e9ac5c..6953f5d 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -179,6 +179,13 @@ func safeUnary(op string) bool {
 	return UnaryOps[op] != nil && op != "?"
 }
 
+// builtinBinary reports whether the binary operator op is safe to parallelize
+// and has not been redefined by the user. User-defined operators share the
+// context's stack.
+func builtinBinary(c Context, op string) bool {
+	return safeBinary(op) && !c.UserDefined(op, true)
+}
+
 // knownAssoc reports whether the binary op is known to be associative.
 func knownAssoc(op string) bool {
 	switch op {
@@ -266,7 +273,7 @@ func innerProduct(c Context, u Value, left, right string, v Value) Value {
 		n := v.shape[0]
 		vstride := v.data.Len() / n
 		data := newVectorEditor(u.data.Len()/n*vstride, nil)
-		pfor(safeBinary(left) && safeBinary(right), 1, data.Len(), func(lo, hi int) {
+		pfor(builtinBinary(c, left) && builtinBinary(c, right), 1, data.Len(), func(lo, hi int) {
 			for x := lo; x < hi; x++ {
 				i := x / vstride * n
 				j := x % vstride
@@ -297,7 +304,7 @@ func outerProduct(c Context, u Value, op string, v Value) Value {
 	case *Vector:
 		v := v.(*Vector)
 		data := newVectorEditor(u.Len()*v.Len(), nil)
-		pfor(safeBinary(op), 1, data.Len(), func(lo, hi int) {
+		pfor(builtinBinary(c, op), 1, data.Len(), func(lo, hi int) {
 			for x := lo; x < hi; x++ {
 				data.Set(x, c.EvalBinary(u.At(x/v.Len()), op, v.At(x%v.Len())))
 			}
@@ -308,7 +315,7 @@ func outerProduct(c Context, u Value, op string, v Value) Value {
 		udata := u.Data()
 		vdata := v.Data()
 		data := newVectorEditor(udata.Len()*vdata.Len(), nil)
-		pfor(safeBinary(op), 1, data.Len(), func(lo, hi int) {
+		pfor(builtinBinary(c, op), 1, data.Len(), func(lo, hi int) {
 			for x := lo; x < hi; x++ {
 				data.Set(x, c.EvalBinary(udata.At(x/vdata.Len()), op, vdata.At(x%vdata.Len())))
 			}
@@ -345,7 +352,7 @@ func Reduce(c Context, op string, v Value) Value {
 		}
 		shape := v.shape[:v.Rank()-1]
 		data := newVectorEditor(size(shape), nil)
-		pfor(safeBinary(op), stride, data.Len(), func(lo, hi int) {
+		pfor(builtinBinary(c, op), stride, data.Len(), func(lo, hi int) {
 			for i := lo; i < hi; i++ {
 				index := stride * i
 				pos := index + stride - 1
@@ -389,7 +396,7 @@ func ReduceFirst(c Context, op string, v Value) Value {
 	}
 	shape := m.shape[1:m.Rank()]
 	data := newVectorEditor(size(shape), nil)
-	pfor(safeBinary(op), stride, data.Len(), func(lo, hi int) {
+	pfor(builtinBinary(c, op), stride, data.Len(), func(lo, hi int) {
 		for i := lo; i < hi; i++ {
 			pos := i + m.data.Len() - stride
 			acc := m.data.At(pos)
@@ -440,7 +447,7 @@ func Scan(c Context, op string, v Value) Value {
 		}
 		data := newVectorEditor(v.data.Len(), nil)
 		nrows := size(v.shape[:len(v.shape)-1])
-		pfor(safeBinary(op), stride, nrows, func(lo, hi int) {
+		pfor(builtinBinary(c, op), stride, nrows, func(lo, hi int) {
 			for i := lo; i < hi; i++ {
 				index := i * stride
 				// This is fundamentally O(n²) in the general case.
@@ -879,7 +886,7 @@ func isTrue(fnName string, v Value) bool {
 
 // sgn is a wrapper for calling "sgn v".
 func sgn(c Context, v Value) int {
-	return int(c.EvalUnary("sgn", v).(Int))
+	return int(UnaryOps["sgn"].EvalUnary(c, v).(Int))
 }
 
 // inverse returns 1/v for any scalar value, errors otherwise.
diff --git a/value/unary.go b/value/unary.go
index acc6ca4..577d181 100644
--- a/value/unary.go
+++ b/value/unary.go
@@ -820,7 +820,7 @@ func init() {
 					return NewVectorSeq(flatten(v.(*Vector)))
 				},
 				matrixType: func(c Context, v Value) Value {
-					return c.EvalUnary("flatten", v.(*Matrix).data)
+					return NewVectorSeq(flatten(v.(*Matrix).data))
 				},
 			},
 		},
-- 
2.43.0


From 51c0c695f0fadc2be27594631f4b5142f6d865d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:56 +0000
Subject: [PATCH 08/49] fix: rand of a vector or matrix is determined by the
 seed

---
 value/eval.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/value/eval.go b/value/eval.go
index 6953f5d..d1a6f7a 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -174,9 +174,9 @@ func safeBinary(op string) bool {
 
 // safeUnary reports whether the unary operator op is safe to parallelize.
 func safeUnary(op string) bool {
-	// ? uses the random number generator,
+	// ? and rand use the random number generator,
 	// which maintains global state.
-	return UnaryOps[op] != nil && op != "?"
+	return UnaryOps[op] != nil && op != "?" && op != "rand"
 }
 
 // builtinBinary reports whether the binary operator op is safe to parallelize
-- 
2.43.0


From 2c6241822ce068c6037a44f9f45f898e6c40c928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:02 +0000
Subject: [PATCH 09/49] fix: a parallel loop reports the same error as a
 sequential one

---
 value/eval.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/value/eval.go b/value/eval.go
index d1a6f7a..b4fbfe7 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -222,17 +222,20 @@ func pfor(ok bool, size, n int, f func(lo, hi int)) {
 	if q := n * size / pforMinWork; q < p {
 		p = q
 	}
-	c := make(chan interface{}, p)
+	c := make([]chan interface{}, p)
 	for i := 0; i < p; i++ {
 		lo, hi := i*n/p, (i+1)*n/p
+		c[i] = make(chan interface{}, 1)
 		go func() {
-			defer sendRecover(c)
+			defer sendRecover(c[i])
 			f(lo, hi)
 		}()
 	}
+	// Report the error from the lowest range, the one
+	// sequential execution would have stopped at.
 	var err interface{}
 	for i := 0; i < p; i++ {
-		if e := <-c; e != nil {
+		if e := <-c[i]; e != nil && err == nil {
 			err = e
 		}
 	}
-- 
2.43.0


From 8cc9539b9e3009c8a77b0d82d475752126abef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:01 +0000
Subject: [PATCH 10/49] fix: assigning to an element twice in one indexed
 assignment keeps the last value

---
 value/index.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/value/index.go b/value/index.go
index 718d617..5d4b742 100644
--- a/value/index.go
+++ b/value/index.go
@@ -332,7 +332,7 @@ func IndexAssign(context Context, top, left Expr, lvarx *VarExpr, index []Expr,
 
 	copySize := int(size(ix.shape[ix.indexDim:]))
 	n := ix.outSize / copySize
-	pfor(true, copySize, n, func(lo, hi int) {
+	pfor(ix.distinct(origin), copySize, n, func(lo, hi int) {
 		if ix.indexVector != nil {
 			for i := lo; i < hi; i++ {
 				v := ix.indexVector.At(i).(*Vector)
@@ -398,6 +398,35 @@ func IndexAssign(context Context, top, left Expr, lvarx *VarExpr, index []Expr,
 	})
 }
 
+// distinct reports whether no element is indexed twice. If one is, its
+// assignments must be done in order so the last one wins.
+func (ix *indexState) distinct(origin Int) bool {
+	if ix.indexVector != nil {
+		seen := make(map[int]bool, ix.indexVector.Len())
+		for _, v := range ix.indexVector.All() {
+			offset := 0
+			for j, vj := range v.(*Vector).All() {
+				offset = offset*ix.shape[j] + int(vj.(Int)-origin)
+			}
+			if seen[offset] {
+				return false
+			}
+			seen[offset] = true
+		}
+		return true
+	}
+	for _, v := range ix.indexes {
+		seen := make(map[Value]bool, v.Len())
+		for _, vj := range v.All() {
+			if seen[vj] {
+				return false
+			}
+			seen[vj] = true
+		}
+	}
+	return true
+}
+
 var (
 	iotaLock   sync.RWMutex
 	staticIota []Value
-- 
2.43.0


From b5bc83cbfd9b4987cbbfef9d44a1f8b98e9fa162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:38 +0000
Subject: [PATCH 11/49] fix: a )get nested too deep does not count against
 later ones

---
 parse/special.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parse/special.go b/parse/special.go
index 6beb0c8..39bfbf3 100644
--- a/parse/special.go
+++ b/parse/special.go
@@ -391,10 +391,10 @@ func (p *Parser) runFromFile(context value.Context, name string) {
 
 // runFromReader executes the contents of the io.Reader, identified by name.
 func (p *Parser) runFromReader(context value.Context, name string, reader io.Reader, stopOnError bool) {
-	runDepth++
-	if runDepth > 10 {
+	if runDepth >= 10 {
 		p.errorf("invocations of %q nested too deep", name)
 	}
+	runDepth++
 	defer func() {
 		runDepth--
 		err := recover()
@@ -417,10 +417,10 @@ func (p *Parser) runFromReader(context value.Context, name string, reader io.Rea
 }
 
 func (p *Parser) runUntilError(name string) error {
-	runDepth++
-	if runDepth > 10 {
+	if runDepth >= 10 {
 		p.errorf("get %q nested too deep", name)
 	}
+	runDepth++
 	defer func() {
 		runDepth--
 		err := recover()
-- 
2.43.0


From 2b284c109aa618d6e2557749eb941f65807e758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:43 +0000
Subject: [PATCH 12/49] fix: )var prints on the configured output

---
 parse/special.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse/special.go b/parse/special.go
index 39bfbf3..8bccf7e 100644
--- a/parse/special.go
+++ b/parse/special.go
@@ -359,9 +359,9 @@ Switch:
 		if value == nil {
 			p.errorf("undefined global variable %q", name)
 		}
-		fmt.Printf("%s = ", name)
+		p.Printf("%s = ", name)
 		put(conf, conf.Output(), value.Value(), false)
-		fmt.Print("\n")
+		p.Println("")
 	default:
 		p.errorf(")%s: not recognized", text)
 	}
-- 
2.43.0


From e46e34df0bfb85a29b8358d0d05181413e7f14ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:49 +0000
Subject: [PATCH 13/49] fix: )prompt prints the prompt

---
 parse/special.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/special.go b/parse/special.go
index 8bccf7e..02b6b93 100644
--- a/parse/special.go
+++ b/parse/special.go
@@ -312,7 +312,7 @@ Switch:
 		conf.SetFloatPrec(uint(prec))
 	case "prompt":
 		if p.peek().Type == scan.EOF {
-			p.Printf("%q\n", conf.Format())
+			p.Printf("%q\n", conf.Prompt())
 			break Switch
 		}
 		conf.SetPrompt(p.getString())
-- 
2.43.0


From feaf0ab8a512d3aa7ba55f673c1da92303cb482d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:18 +0000
Subject: [PATCH 14/49] fix: a floating point error in a file read by )get is
 reported, not a crash

---
 parse/special.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parse/special.go b/parse/special.go
index 02b6b93..e8a1bb4 100644
--- a/parse/special.go
+++ b/parse/special.go
@@ -10,6 +10,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math/big"
 	"os"
 	"sort"
 	"strings"
@@ -401,7 +402,8 @@ func (p *Parser) runFromReader(context value.Context, name string, reader io.Rea
 		if err == nil {
 			return
 		}
-		if err, ok := err.(value.Error); ok {
+		switch err.(type) {
+		case value.Error, big.ErrNaN: // big.ErrNaN is a floating point error from math/big.
 			fmt.Fprintf(p.context.Config().ErrOutput(), "%s%s\n", p.Loc(), err)
 			return
 		}
@@ -427,7 +429,8 @@ func (p *Parser) runUntilError(name string) error {
 		if err == nil {
 			return
 		}
-		if err, ok := err.(value.Error); ok {
+		switch err.(type) {
+		case value.Error, big.ErrNaN: // big.ErrNaN is a floating point error from math/big.
 			fmt.Fprintf(p.context.Config().ErrOutput(), "%s%s\n", p.Loc(), err)
 			return
 		}
-- 
2.43.0


From a6ddb2624a12d8eb61e21832bafb5b94c71f1e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:43 +0000
Subject: [PATCH 15/49] fix: )save reports an error writing the file

---
 parse/save.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/parse/save.go b/parse/save.go
index 847c312..cac90e2 100644
--- a/parse/save.go
+++ b/parse/save.go
@@ -57,19 +57,28 @@ Mutually recursive functions are an extra wrinkle but easy to resolve.
 // The format of the output is ivy source text.
 func save(c *exec.Context, file string) {
 	// "<conf.out>" is a special case for testing.
-	conf := c.Config()
-	out := conf.Output()
-	if file != "<conf.out>" {
-		fd, err := os.Create(file)
-		if err != nil {
-			value.Errorf("%s", err)
-		}
-		defer fd.Close()
-		buf := bufio.NewWriter(fd)
-		defer buf.Flush()
-		out = buf
+	if file == "<conf.out>" {
+		saveTo(c, c.Config().Output())
+		return
+	}
+	fd, err := os.Create(file)
+	if err != nil {
+		value.Errorf("%s", err)
+	}
+	defer fd.Close()
+	buf := bufio.NewWriter(fd)
+	saveTo(c, buf)
+	if err := buf.Flush(); err != nil {
+		value.Errorf("%s", err)
 	}
+	if err := fd.Close(); err != nil {
+		value.Errorf("%s", err)
+	}
+}
 
+// saveTo writes the state of the workspace to out.
+func saveTo(c *exec.Context, out io.Writer) {
+	conf := c.Config()
 	// Configuration settings. We will set the base below,
 	// after we have printed all numbers in base 10.
 	fmt.Fprintf(out, ")prec %d\n", conf.FloatPrec())
-- 
2.43.0


From 44bf294b41521ff4f82ba50d97340a11bb536253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:08 +0000
Subject: [PATCH 16/49] fix: save nested strings and one-element vectors so
 they can be read back

---
 parse/save.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parse/save.go b/parse/save.go
index cac90e2..b811496 100644
--- a/parse/save.go
+++ b/parse/save.go
@@ -182,7 +182,7 @@ func put(conf *config.Config, out io.Writer, val value.Value, withParens bool) {
 			// These have prec 0 and are easy.
 			// They shouldn't appear anyway, but be safe.
 			fmt.Fprintf(out, "%g", val)
-			return
+			break
 		}
 		// TODO The actual value might not have the same prec as
 		// the configuration, so we might not get this right
@@ -195,9 +195,15 @@ func put(conf *config.Config, out io.Writer, val value.Value, withParens bool) {
 		fmt.Fprintf(out, "j")
 		put(conf, out, imag, false)
 	case *value.Vector:
+		if val.Len() == 1 {
+			// On its own the element would come back as itself, not as a vector.
+			fmt.Fprint(out, "box ")
+			put(conf, out, val.At(0), !value.IsScalarType(val.At(0)))
+			break
+		}
 		if val.AllChars() {
 			fmt.Fprintf(out, "%q", val.Sprint(conf))
-			return
+			break
 		}
 		for i, v := range val.All() {
 			if i > 0 {
-- 
2.43.0


From 415aa627489565d98098485631fb7a1f09daaea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:47 +0000
Subject: [PATCH 17/49] fix: )get restores the saved base

---
 parse/parse.go   |  1 +
 parse/special.go | 23 ++++++++++++++++-------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index 827b126..0e9d815 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -81,6 +81,7 @@ type Parser struct {
 	fileName string
 	lineNum  int
 	context  *exec.Context
+	baseSet  bool // Whether the input has set the base.
 }
 
 // NewParser returns a new parser that will read from the scanner.
diff --git a/parse/special.go b/parse/special.go
index e8a1bb4..5a94452 100644
--- a/parse/special.go
+++ b/parse/special.go
@@ -168,6 +168,7 @@ Switch:
 		if base != 0 && (base < 2 || 16 < base) {
 			p.errorf("illegal base %d", base)
 		}
+		p.baseSet = true
 		switch text {
 		case "base":
 			ibase, obase = base, base
@@ -223,10 +224,14 @@ Switch:
 		}
 		conf.SetFormat(p.getString())
 	case "get":
-		if p.peek().Type == scan.EOF {
-			p.runFromFile(p.context, defaultFile)
-		} else {
-			p.runFromFile(p.context, p.getString())
+		name := defaultFile
+		if p.peek().Type != scan.EOF {
+			name = p.getString()
+		}
+		if p.runFromFile(p.context, name) {
+			// The file set the base, so don't restore the old one.
+			ibase, obase = conf.Base()
+			p.baseSet = true
 		}
 	case "maxbits":
 		if p.peek().Type == scan.EOF {
@@ -382,16 +387,19 @@ func (p *Parser) getString() string {
 var runDepth = 0
 
 // runFromFile executes the contents of the named file.
-func (p *Parser) runFromFile(context value.Context, name string) {
+// The return value reports whether it set the base.
+func (p *Parser) runFromFile(context value.Context, name string) bool {
 	fd, err := os.Open(name)
 	if err != nil {
 		p.errorf("%s", err)
 	}
-	p.runFromReader(context, name, fd, true)
+	defer fd.Close()
+	return p.runFromReader(context, name, fd, true)
 }
 
 // runFromReader executes the contents of the io.Reader, identified by name.
-func (p *Parser) runFromReader(context value.Context, name string, reader io.Reader, stopOnError bool) {
+// The return value reports whether it set the base.
+func (p *Parser) runFromReader(context value.Context, name string, reader io.Reader, stopOnError bool) (baseSet bool) {
 	if runDepth >= 10 {
 		p.errorf("invocations of %q nested too deep", name)
 	}
@@ -416,6 +424,7 @@ func (p *Parser) runFromReader(context value.Context, name string, reader io.Rea
 			break
 		}
 	}
+	return parser.baseSet
 }
 
 func (p *Parser) runUntilError(name string) error {
-- 
2.43.0


From c4f3eecfd117f588cf96c6b7d0a161223a3d864b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:31 +0000
Subject: [PATCH 18/49] fix: report an error reading input instead of treating
 it as end of file

---
 scan/scan.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/scan/scan.go b/scan/scan.go
index 7563958..c044a45 100644
--- a/scan/scan.go
+++ b/scan/scan.go
@@ -72,6 +72,7 @@ type Scanner struct {
 	context   value.Context
 	r         io.ByteReader
 	done      bool
+	err       error  // read error, to be reported by Next
 	name      string // the name of the input; used only for error reports
 	buf       []byte // I/O buffer, re-used.
 	input     string // the line of text being scanned.
@@ -93,6 +94,11 @@ func (l *Scanner) loadLine() {
 		c, err := l.r.ReadByte()
 		if err != nil {
 			l.done = true
+			if err != io.EOF {
+				// The line is incomplete. Discard it and report the error.
+				l.err = err
+				l.buf = l.buf[:0]
+			}
 			break
 		}
 		if c != '\r' { // There will never be a \r in l.input.
@@ -231,6 +237,10 @@ func (l *Scanner) Next() Token {
 	for {
 		state = state(l)
 		if state == nil {
+			if l.err != nil {
+				l.errorf("%s", l.err)
+				l.err = nil
+			}
 			return l.token
 		}
 	}
-- 
2.43.0


From 6450f8783f0ddbdb90eeee177acce6b2aeb45642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:54 +0000
Subject: [PATCH 19/49] fix: )demo shows each result before going on and stops
 its interpreter when done

---
 parse/special.go | 57 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/parse/special.go b/parse/special.go
index 5a94452..43977a8 100644
--- a/parse/special.go
+++ b/parse/special.go
@@ -212,7 +212,9 @@ Switch:
 		}
 		// Use a default configuration.
 		var conf config.Config
-		err := demo.Run(os.Stdin, DemoRunner(os.Stdin, conf.Output()), conf.Output())
+		runner := DemoRunner(os.Stdin, conf.Output())
+		err := demo.Run(os.Stdin, runner, conf.Output())
+		runner.Close()
 		if err != nil {
 			p.errorf("%v", err)
 		}
@@ -465,34 +467,55 @@ func (p *Parser) runUntilError(name string) error {
 }
 
 // A simple way to connect the user's input to the interpreter.
-// Sending one byte at a time is slow but very easy, and
-// it's just for a demo.
-type demoIO chan byte
+// Write returns only once the interpreter has finished with the text and
+// is waiting for more, so the user sees the result before going on.
+type demoIO struct {
+	text  chan []byte // To the interpreter.
+	ready chan bool   // From the interpreter, which is waiting for text. Closed when it exits.
+	buf   []byte      // Text not yet seen by the interpreter.
+	began bool        // Whether the interpreter has begun reading.
+}
 
-func (dio demoIO) Write(b []byte) (int, error) {
-	for _, c := range b {
-		dio <- c
-	}
+func (dio *demoIO) Write(b []byte) (int, error) {
+	dio.text <- append([]byte(nil), b...)
+	<-dio.ready
 	return len(b), nil
 }
 
-func (dio demoIO) Read(b []byte) (int, error) {
-	for i := range b {
-		b[i] = <-dio
-		if b[i] == '\n' {
-			return i + 1, nil
+func (dio *demoIO) Read(b []byte) (int, error) {
+	for len(dio.buf) == 0 {
+		if dio.began {
+			dio.ready <- true
+		}
+		dio.began = true
+		text, ok := <-dio.text
+		if !ok {
+			return 0, io.EOF
 		}
+		dio.buf = text
 	}
-	return len(b), nil
+	n := copy(b, dio.buf)
+	dio.buf = dio.buf[n:]
+	return n, nil
+}
+
+// Close tells the interpreter there is no more text and waits for it to exit.
+func (dio *demoIO) Close() error {
+	close(dio.text)
+	<-dio.ready
+	return nil
 }
 
-func DemoRunner(userInput io.Reader, userOutput io.Writer) io.Writer {
+func DemoRunner(userInput io.Reader, userOutput io.Writer) io.WriteCloser {
 	conf := &config.Config{}
 	conf.SetOutput(userOutput)
 	conf.SetRandomSeed(0)
 	context := exec.NewContext(conf)
-	dio := demoIO(make(chan byte, 1000))
+	dio := &demoIO{text: make(chan []byte), ready: make(chan bool)}
 	parser := NewParser("demo", nil, context) // Only needed for error prints in runFromReader.
-	go parser.runFromReader(context, "demo", dio, false)
+	go func() {
+		defer close(dio.ready)
+		parser.runFromReader(context, "demo", dio, false)
+	}()
 	return dio
 }
-- 
2.43.0


From 2e57e39e49c75b2d9e2633121b313cb3923decfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:11 +0000
Subject: [PATCH 20/49] fix: mobile.Reset clears the precision, stack limit,
 debug flags and time zone too

---
 mobile/mobile.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mobile/mobile.go b/mobile/mobile.go
index 42349bc..94fb937 100644
--- a/mobile/mobile.go
+++ b/mobile/mobile.go
@@ -85,6 +85,7 @@ func (d *Demo) Next() (result string, err error) {
 
 // Reset clears all state to the initial value.
 func Reset() {
+	conf = config.Config{}
 	conf.SetFormat("")
 	conf.SetMaxBits(1e9)
 	conf.SetMaxDigits(1e4)
-- 
2.43.0


From 48cd4e23d6f453df551af7669d6d74427bf7fb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:08 +0000
Subject: [PATCH 21/49] fix: decoding a time vector with a time zone does not
 depend on the current time

---
 value/sys.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/value/sys.go b/value/sys.go
index b97cb8a..7cac70d 100644
--- a/value/sys.go
+++ b/value/sys.go
@@ -210,7 +210,6 @@ func decodeTime(c Context, u, v *Vector) Value {
 	}
 	year, month, day, hour, min := 0, 1, 1, 0, 0
 	sec, nsec := int64(0), int64(0)
-	now := time.Now()
 	loc := c.Config().Location()
 	toInt := func(v Value) int {
 		i, ok := v.(Int)
@@ -228,12 +227,9 @@ func decodeTime(c Context, u, v *Vector) Value {
 		Errorf("invalid time vector %s", v)
 	case 7:
 		offset := toInt(v.At(6))
-		_, nowOffset := now.Zone()
-		if offset != nowOffset {
-			hour := offset / 3600
-			min := (offset - (3600 * hour)) / 60
-			loc = time.FixedZone(fmt.Sprintf("%d:%02d", hour, min), offset)
-		}
+		hour := offset / 3600
+		min := (offset - (3600 * hour)) / 60
+		loc = time.FixedZone(fmt.Sprintf("%d:%02d", hour, min), offset)
 		fallthrough
 	case 6:
 		switch s := v.At(5).(type) {
-- 
2.43.0


From ef0504ef5343f7d7c068ac704c2caa9d93f06f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:21 +0000
Subject: [PATCH 22/49] fix: a time zone set by the user follows daylight
 saving time

The offset was fixed when the zone was set. Also, use the system's own
location when the user has set none.
---
 config/config.go | 12 ++++++++++--
 value/sys.go     |  4 +++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/config/config.go b/config/config.go
index 7a020e7..29d7cf3 100644
--- a/config/config.go
+++ b/config/config.go
@@ -55,6 +55,7 @@ type Config struct {
 	sysTime     time.Duration  // System time of last interactive command.
 	timeZone    string         // For the user, derived from location.
 	location    *time.Location // The truth.
+	zoneSet     bool           // The user has set the time zone.
 	// Bases: 0 means C-like, base 10 with 07 for octal and 0xa for hex.
 	inputBase  int
 	outputBase int
@@ -412,9 +413,12 @@ func (c *Config) TimeZone() string {
 	return c.timeZone
 }
 
-// Location returns the default location.
+// Location returns the default location, as of the current time.
 func (c *Config) Location() *time.Location {
-	return c.location
+	if !c.zoneSet {
+		return c.location
+	}
+	return c.LocationAt(time.Now())
 }
 
 // SetLocation sets the time zone (and associated location) to the named location at the current time.
@@ -427,6 +431,7 @@ func (c *Config) SetLocation(zone string) error {
 	c.init()
 	c.location = loc
 	c.timeZone, _ = time.Now().In(loc).Zone()
+	c.zoneSet = true
 	return nil
 }
 
@@ -434,6 +439,9 @@ func (c *Config) SetLocation(zone string) error {
 // configured time zone, considering Daylight Savings Time and similar
 // irregularities.
 func (c *Config) LocationAt(t time.Time) *time.Location {
+	if !c.zoneSet { // The system's own location knows.
+		return c.location
+	}
 	loc, err := loadLocation(t, c.timeZone)
 	if err != nil {
 		fmt.Fprintf(c.errOutput, "%s: %v\n", c.timeZone, err)
diff --git a/value/sys.go b/value/sys.go
index 7cac70d..840535b 100644
--- a/value/sys.go
+++ b/value/sys.go
@@ -268,7 +268,9 @@ func decodeTime(c Context, u, v *Vector) Value {
 	// time.Time values can only extract int64s for UnixNano, which limits the range too much.
 	// So we use UnixMilli, which spans a big enough range, and add the nanoseconds manually.
 	t := time.Date(year, time.Month(month), day, hour, min, int(sec), 0, loc)
-	t = t.In(c.Config().LocationAt(t))
+	if v.Len() < 7 { // Use the time zone in effect then, not now.
+		t = time.Date(year, time.Month(month), day, hour, min, int(sec), 0, c.Config().LocationAt(t))
+	}
 	var s, tmp big.Float
 	s.SetInt64(t.UnixMilli())
 	s.Mul(&s, tmp.SetInt64(1e6))
-- 
2.43.0


From c94c989bb7aaf58bfa096fe42307b3c9500f1dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:31 +0000
Subject: [PATCH 23/49] fix: the error for a bad rotation count showed a memory
 address

---
 value/vector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value/vector.go b/value/vector.go
index d1c1562..b9be4e9 100644
--- a/value/vector.go
+++ b/value/vector.go
@@ -492,7 +492,7 @@ func (v *Vector) uintAt(i int, msg string) int {
 func (v *Vector) intAt(i int, msg string) int {
 	n, ok := v.At(i).(Int)
 	if !ok {
-		Errorf("%s must be a small integer: %d", msg, v.At(i))
+		Errorf("%s must be a small integer: %s", msg, v.At(i))
 	}
 	return int(n)
 }
-- 
2.43.0


From 214246b241b41dbe3fd1eddd2a7437d2ad1aab9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:27 +0000
Subject: [PATCH 24/49] fix: trigonometric functions changed their argument in
 place

---
 value/sin.go  | 7 +++++--
 value/sinh.go | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/value/sin.go b/value/sin.go
index b40ce30..84d193b 100644
--- a/value/sin.go
+++ b/value/sin.go
@@ -40,6 +40,7 @@ func tan(c Context, v Value) Value {
 		Errorf("tangent of infinity")
 	}
 	negate := false
+	x = newFloat(c).Set(x) // Don't modify argument!
 	if x.Sign() < 0 {
 		x.Neg(x)
 		negate = true
@@ -63,6 +64,7 @@ func floatSin(c Context, x *big.Float) *big.Float {
 		Errorf("sine of infinity")
 	}
 	negate := false
+	x = newFloat(c).Set(x) // Don't modify argument!
 	if x.Sign() < 0 {
 		x.Neg(x)
 		negate = true
@@ -87,6 +89,7 @@ func floatCos(c Context, x *big.Float) *big.Float {
 	if x.IsInf() {
 		Errorf("cosine of infinity")
 	}
+	x = newFloat(c).Abs(x) // Don't modify argument! Also cos(-x) == cos(x).
 	twoPiReduce(c, x)
 
 	// cos(x) = 1 - x²/2! + x⁴/4! - ...
@@ -187,8 +190,8 @@ func complexTan(c Context, v Complex) Value {
 	x := floatSelf(c, v.real).Float
 	y := floatSelf(c, v.imag).Float
 	// Double them - all the arguments are 2X.
-	x.Mul(x, floatTwo)
-	y.Mul(y, floatTwo)
+	x = newFloat(c).Mul(x, floatTwo) // Don't modify argument!
+	y = newFloat(c).Mul(y, floatTwo)
 	sin2X := floatSin(c, x)
 	sinh2Y := floatSinh(c, y)
 	cos2X := floatCos(c, x)
diff --git a/value/sinh.go b/value/sinh.go
index e006585..da10105 100644
--- a/value/sinh.go
+++ b/value/sinh.go
@@ -146,8 +146,8 @@ func complexTanh(c Context, v Complex) Value {
 	x := floatSelf(c, v.real).Float
 	y := floatSelf(c, v.imag).Float
 	// Double them - all the arguments are 2X.
-	x.Mul(x, floatTwo)
-	y.Mul(y, floatTwo)
+	x = newFloat(c).Mul(x, floatTwo) // Don't modify argument!
+	y = newFloat(c).Mul(y, floatTwo)
 	sinh2X := floatSinh(c, x)
 	sin2Y := floatSin(c, y)
 	cosh2X := floatCosh(c, x)
-- 
2.43.0


From 3cb2b386209e8be5a5e55283b2b4c7e3f78f3d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:36 +0000
Subject: [PATCH 25/49] fix: initialize the configuration used by String
 methods before concurrent use

---
 value/value.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/value/value.go b/value/value.go
index 4bff6db..51c9d1b 100644
--- a/value/value.go
+++ b/value/value.go
@@ -14,6 +14,11 @@ import (
 
 var debugConf = &config.Config{} // For debugging, e.g. to call a String method.
 
+func init() {
+	// Initialize it now, as String methods can be called concurrently, by pfor.
+	debugConf.SetFormat("")
+}
+
 type Value interface {
 	// String is for internal debugging only. It uses default configuration
 	// and puts parentheses around every value so it's clear when it is used.
-- 
2.43.0


From eb0451bef840a84f9f4b0157ae97f89d8bae8f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:00 +0000
Subject: [PATCH 26/49] fix: a saved recursive binary op can be read back

---
 parse/function.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse/function.go b/parse/function.go
index 06aed4c..edc3eab 100644
--- a/parse/function.go
+++ b/parse/function.go
@@ -65,7 +65,8 @@ func (p *Parser) functionDefn() {
 		if x.Name == fn.Name {
 			p.errorf("argument name %q is function name", fn.Name)
 		}
-		if argNames[x.Name] {
+		// A forward declaration may use _ for both arguments, as )save does.
+		if argNames[x.Name] && x.Name != "_" {
 			p.errorf("multiple arguments named %q", x.Name)
 		}
 		argNames[x.Name] = true
-- 
2.43.0


From a9e38d1928440c570586f7fa6c74c1ed05d99f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:58 +0000
Subject: [PATCH 27/49] fix: a complex constant in a listed or saved op keeps
 its meaning

---
 value/complex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value/complex.go b/value/complex.go
index 44d8597..8ee0a17 100644
--- a/value/complex.go
+++ b/value/complex.go
@@ -47,7 +47,7 @@ func (c Complex) Sprint(conf *config.Config) string {
 }
 
 func (c Complex) ProgString() string {
-	return fmt.Sprintf("%sj%s", c.real, c.imag)
+	return fmt.Sprintf("%sj%s", c.real.ProgString(), c.imag.ProgString())
 }
 
 func (c Complex) Eval(Context) Value {
-- 
2.43.0


From 0997039b537906224ffb848f702c849c8075ca3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:04 +0000
Subject: [PATCH 28/49] fix: defining a unary op with )debug parse no longer
 crashes

---
 parse/function.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse/function.go b/parse/function.go
index edc3eab..c9a884d 100644
--- a/parse/function.go
+++ b/parse/function.go
@@ -157,7 +157,11 @@ func (p *Parser) functionDefn() {
 	funcVars(fn)
 	succeeded = true
 	if p.context.Config().Debug("parse") > 0 {
-		p.Printf("op %s %s %s = %s\n", fn.Left.ProgString(), fn.Name, fn.Right.ProgString(), tree(fn.Body))
+		if fn.IsBinary {
+			p.Printf("op %s %s %s = %s\n", fn.Left.ProgString(), fn.Name, fn.Right.ProgString(), tree(fn.Body))
+		} else {
+			p.Printf("op %s %s = %s\n", fn.Name, fn.Right.ProgString(), tree(fn.Body))
+		}
 	}
 }
 
-- 
2.43.0


From cf4d01d5e2183df930b681bc21ce8c522a5f05fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:54 +0000
Subject: [PATCH 29/49] fix: )get of a file that sets only one of the bases
 keeps the other

---
 parse/parse.go   |  3 ++-
 parse/special.go | 35 ++++++++++++++++++++---------------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index 0e9d815..bb26c27 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -81,7 +81,8 @@ type Parser struct {
 	fileName string
 	lineNum  int
 	context  *exec.Context
-	baseSet  bool // Whether the input has set the base.
+	ibaseSet bool // Whether the input has set the input base.
+	obaseSet bool // Whether the input has set the output base.
 }
 
 // NewParser returns a new parser that will read from the scanner.
diff --git a/parse/special.go b/parse/special.go
index 43977a8..2de2cb5 100644
--- a/parse/special.go
+++ b/parse/special.go
@@ -168,14 +168,13 @@ Switch:
 		if base != 0 && (base < 2 || 16 < base) {
 			p.errorf("illegal base %d", base)
 		}
-		p.baseSet = true
-		switch text {
-		case "base":
-			ibase, obase = base, base
-		case "ibase":
+		if text != "obase" {
 			ibase = base
-		case "obase":
+			p.ibaseSet = true
+		}
+		if text != "ibase" {
 			obase = base
+			p.obaseSet = true
 		}
 	case "cpu":
 		p.Printf("%s\n", conf.PrintCPUTime())
@@ -230,10 +229,16 @@ Switch:
 		if p.peek().Type != scan.EOF {
 			name = p.getString()
 		}
-		if p.runFromFile(p.context, name) {
-			// The file set the base, so don't restore the old one.
-			ibase, obase = conf.Base()
-			p.baseSet = true
+		// If the file sets a base, don't restore the old one.
+		ibaseSet, obaseSet := p.runFromFile(p.context, name)
+		i, o := conf.Base()
+		if ibaseSet {
+			ibase = i
+			p.ibaseSet = true
+		}
+		if obaseSet {
+			obase = o
+			p.obaseSet = true
 		}
 	case "maxbits":
 		if p.peek().Type == scan.EOF {
@@ -389,8 +394,8 @@ func (p *Parser) getString() string {
 var runDepth = 0
 
 // runFromFile executes the contents of the named file.
-// The return value reports whether it set the base.
-func (p *Parser) runFromFile(context value.Context, name string) bool {
+// The return values report whether it set the input and output bases.
+func (p *Parser) runFromFile(context value.Context, name string) (ibaseSet, obaseSet bool) {
 	fd, err := os.Open(name)
 	if err != nil {
 		p.errorf("%s", err)
@@ -400,8 +405,8 @@ func (p *Parser) runFromFile(context value.Context, name string) bool {
 }
 
 // runFromReader executes the contents of the io.Reader, identified by name.
-// The return value reports whether it set the base.
-func (p *Parser) runFromReader(context value.Context, name string, reader io.Reader, stopOnError bool) (baseSet bool) {
+// The return values report whether it set the input and output bases.
+func (p *Parser) runFromReader(context value.Context, name string, reader io.Reader, stopOnError bool) (ibaseSet, obaseSet bool) {
 	if runDepth >= 10 {
 		p.errorf("invocations of %q nested too deep", name)
 	}
@@ -426,7 +431,7 @@ func (p *Parser) runFromReader(context value.Context, name string, reader io.Rea
 			break
 		}
 	}
-	return parser.baseSet
+	return parser.ibaseSet, parser.obaseSet
 }
 
 func (p *Parser) runUntilError(name string) error {
-- 
2.43.0


From ea76fcdb1bf2613ff68490f83fec462a477590f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:15 +0000
Subject: [PATCH 30/49] fix: a floating-point zero is saved so it can be read
 back

---
 parse/save.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/save.go b/parse/save.go
index b811496..1bca560 100644
--- a/parse/save.go
+++ b/parse/save.go
@@ -181,7 +181,7 @@ func put(conf *config.Config, out io.Writer, val value.Value, withParens bool) {
 		if val.Sign() == 0 || val.IsInf() {
 			// These have prec 0 and are easy.
 			// They shouldn't appear anyway, but be safe.
-			fmt.Fprintf(out, "%g", val)
+			fmt.Fprintf(out, "%g", val.Float)
 			break
 		}
 		// TODO The actual value might not have the same prec as
-- 
2.43.0


From b684a1696cfbb48fb9fe573594877efa009c28e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:27 +0000
Subject: [PATCH 31/49] fix: printing some nested values no longer crashes or
 misaligns columns

---
 value/vector.go | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/value/vector.go b/value/vector.go
index b9be4e9..05df721 100644
--- a/value/vector.go
+++ b/value/vector.go
@@ -254,24 +254,18 @@ func (v *Vector) multiLineSprint(conf *config.Config, allScalars, allChars, spac
 				lastColumn[n] = line.Len()
 			}
 		}
-		// By construction all lines have same length (except for empty lines, which
-		// are never the zeroth line.)
-		cols[i] = lines[0].Len()
-		if len(strs) < len(lines) {
-			// Right-fill the lines below this element.
-			padding := blanks(cols[i] - lines[len(lines)-1].Len())
-			for j := len(strs); j < len(lines); j++ {
-				lines[j].WriteString(padding)
-			}
-		}
 		if doParens {
 			last := len(strs) - 1
-			line := lines[last]
-			line.WriteString(")")
-			lastColumn[last] = line.Len()
-			if line.Len() > cols[i] {
-				cols[i] = line.Len()
-			}
+			lines[last].WriteString(")")
+			lastColumn[last] = lines[last].Len()
+		}
+		// Right-fill the lines below this element, and any blank ones in it,
+		// so all lines have the same length.
+		for _, line := range lines {
+			cols[i] = max(cols[i], line.Len())
+		}
+		for _, line := range lines {
+			line.WriteString(blanks(cols[i] - line.Len()))
 		}
 	}
 	s := make([]string, len(lines))
-- 
2.43.0


From 229cbdacdc6be824d7e96e0732da5ecc1d66abdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:06 +0000
Subject: [PATCH 32/49] fix: a huge power is an error and does not exhaust
 memory

---
 value/binary.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/value/binary.go b/value/binary.go
index e0f578d..e3be95b 100644
--- a/value/binary.go
+++ b/value/binary.go
@@ -133,6 +133,8 @@ func bigIntExp(c Context, i, j, k *big.Int) *big.Int {
 	if exp < 0 {
 		exp = -exp
 	}
+	// The result has at least exp bits. (And the product below could overflow.)
+	mustFit(c.Config(), exp)
 	// "2" is just shift. math/big should do this, really.
 	if j.Cmp(bigIntTwo.Int) == 0 && exp >= 0 {
 		return i.Lsh(big.NewInt(1), uint(exp))
-- 
2.43.0


From f2817aa4d625452f6497780890cd9dfba4a12a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:06 +0000
Subject: [PATCH 33/49] fix: an infinite quotient is an error, not a crash

---
 value/eval.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/value/eval.go b/value/eval.go
index b4fbfe7..5beada3 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -1004,6 +1004,9 @@ func QuoRem(op string, c Context, a, b Value) (div, rem Value) {
 			negY = true
 		}
 		quo := big.NewFloat(0).Quo(x, y)
+		if quo.IsInf() {
+			Errorf("%s: quotient is infinite", op)
+		}
 		iquo, _ := quo.Int(nil)
 		// quo is the division, iquo is its integer truncation. Remainder is (quo-iquo)*y.
 		rem := quo.Sub(quo, big.NewFloat(0).SetInt(iquo))
-- 
2.43.0


From 71c8238aef9983295c2cd775946274327772b971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:23 +0000
Subject: [PATCH 34/49] fix: catenating to a matrix with no rows no longer
 crashes

---
 value/matrix.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/value/matrix.go b/value/matrix.go
index 63fc2e6..76def1e 100644
--- a/value/matrix.go
+++ b/value/matrix.go
@@ -658,16 +658,14 @@ func (x *Matrix) catenate(y *Matrix) *Matrix {
 		setShape(x, 1)
 		data.Resize(x.data.Len() + y.data.Len())
 		xsize := x.shape[len(x.shape)-1]
-		ysize := y.Size() / nrows
-		copyElems(xsize, xsize, ysize, ysize)
+		copyElems(xsize, xsize, 1, 1)
 
 	case x.Rank()+1 == y.Rank() && sameShape(x.shape, y.shape[:len(y.shape)-1]):
 		// elem, list
 		setShape(y, 1)
 		data.Resize(y.data.Len() + x.data.Len())
-		xsize := x.Size() / nrows
 		ysize := y.shape[len(y.shape)-1]
-		copyElems(xsize, xsize, ysize, ysize)
+		copyElems(1, 1, ysize, ysize)
 
 	case x.Rank() == 1 && x.shape[0] == 1 && y.Rank() > 1:
 		// scalar extension, list
-- 
2.43.0


From a7078420949a31df986a77d0179e35902e8a9662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:30 +0000
Subject: [PATCH 35/49] fix: outer product and mix do not overwrite their
 operand's shape

---
 value/eval.go   | 3 ++-
 value/matrix.go | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/value/eval.go b/value/eval.go
index 5beada3..f62fba5 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -9,6 +9,7 @@ import (
 	"iter"
 	"math/big"
 	"runtime"
+	"slices"
 	"strings"
 )
 
@@ -323,7 +324,7 @@ func outerProduct(c Context, u Value, op string, v Value) Value {
 				data.Set(x, c.EvalBinary(udata.At(x/vdata.Len()), op, vdata.At(x%vdata.Len())))
 			}
 		})
-		return NewMatrix(append(u.Shape(), v.Shape()...), data.Publish())
+		return NewMatrix(slices.Concat(u.Shape(), v.Shape()), data.Publish())
 	}
 	Errorf("can't do outer product on %s", whichType(u))
 	panic("not reached")
diff --git a/value/matrix.go b/value/matrix.go
index 76def1e..2ca8be6 100644
--- a/value/matrix.go
+++ b/value/matrix.go
@@ -1027,7 +1027,7 @@ func (m *Matrix) mix(c Context) Value {
 			data.Append(elem)
 		}
 	}
-	return NewMatrix(append(m.shape, shape...), data.Publish())
+	return NewMatrix(slices.Concat(m.shape, shape), data.Publish())
 }
 
 // grade returns as a Vector the indexes that sort the rows of m
-- 
2.43.0


From f2b3298c6451ae9d94e1d7259f86f63cbff0ef35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:10 +0000
Subject: [PATCH 36/49] fix: operations on empty matrices no longer crash or
 loop

---
 value/binary.go | 26 +++++++++++++++++---------
 value/eval.go   |  3 +++
 value/index.go  |  6 ++++++
 value/matrix.go | 11 +++++++----
 value/sys.go    |  3 +++
 value/unary.go  |  2 +-
 6 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/value/binary.go b/value/binary.go
index e3be95b..6fd1add 100644
--- a/value/binary.go
+++ b/value/binary.go
@@ -996,7 +996,7 @@ func init() {
 						Errorf("decode of length %d and shape %s", A.Len(), NewIntVector(B.shape...))
 					}
 					shape := B.shape[1:]
-					elems := newVectorEditor(B.data.Len()/B.shape[0], nil)
+					elems := newVectorEditor(size(shape), nil)
 					get := func(v *Vector, i int) Value {
 						if v.Len() == 1 {
 							return v.At(0)
@@ -1007,6 +1007,9 @@ func init() {
 					if B.shape[0] > n {
 						n = B.shape[0]
 					}
+					if A.Len() == 0 || B.shape[0] == 0 {
+						n = 0
+					}
 					pfor(true, n, elems.Len(), func(lo, hi int) {
 						for j := lo; j < hi; j++ {
 							result := Value(zero)
@@ -1045,7 +1048,7 @@ func init() {
 					// of how modulo arithmetic works.
 					const op = "encode"
 					A, B := u.(*Vector), v.(*Vector)
-					if A.AllChars() {
+					if A.Len() > 0 && A.AllChars() {
 						// Special case for times.
 						return encodeTime(c, A, B)
 					}
@@ -1180,14 +1183,14 @@ func init() {
 					if len(shape) == 0 {
 						shape = []int{1}
 					}
-					n := A.data.Len() / A.shape[0] // elements in each comparison
-					indices := newVectorEditor(B.data.Len()/n, nil)
-					pfor(true, n, B.data.Len()/n, func(lo, hi int) {
+					n := size(A.shape[1:]) // elements in each comparison
+					indices := newVectorEditor(size(shape), nil)
+					pfor(true, n, indices.Len(), func(lo, hi int) {
 						for i := lo; i < hi; i++ {
 							indices.Set(i, Int(origin-1))
-							for j := 0; j < A.data.Len(); j += n {
-								if allEqual(c, A.data, j, B.data, i*n, n) {
-									indices.Set(i, Int(j/n+origin))
+							for j := 0; j < A.shape[0]; j++ {
+								if allEqual(c, A.data, j*n, B.data, i*n, n) {
+									indices.Set(i, Int(j+origin))
 									break
 								}
 							}
@@ -1522,7 +1525,12 @@ func init() {
 					result := m.data.sel(count.data, m.shape[len(m.shape)-1])
 					newShape := make([]int, len(m.shape))
 					copy(newShape, m.shape)
-					newShape[len(m.shape)-1] = result.Len() / size(m.shape[:len(m.shape)-1])
+					n := 0
+					for i := range m.shape[len(m.shape)-1] {
+						k := count.data.intAt(i%count.data.Len(), "sel count")
+						n += max(k, -k)
+					}
+					newShape[len(m.shape)-1] = n
 					return NewMatrix(newShape, result)
 				},
 			},
diff --git a/value/eval.go b/value/eval.go
index f62fba5..daa1a5b 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -275,6 +275,9 @@ func innerProduct(c Context, u Value, left, right string, v Value) Value {
 			Errorf("inner product: mismatched shapes %s and %s", NewIntVector(u.shape...), NewIntVector(v.shape...))
 		}
 		n := v.shape[0]
+		if n == 0 {
+			Errorf("empty inner product")
+		}
 		vstride := v.data.Len() / n
 		data := newVectorEditor(u.data.Len()/n*vstride, nil)
 		pfor(builtinBinary(c, left) && builtinBinary(c, right), 1, data.Len(), func(lo, hi int) {
diff --git a/value/index.go b/value/index.go
index 5d4b742..c40d056 100644
--- a/value/index.go
+++ b/value/index.go
@@ -222,6 +222,9 @@ func Index(context Context, top, left Expr, index []Expr) Value {
 	}
 
 	data := newVectorEditor(ix.outSize, nil)
+	if ix.outSize == 0 {
+		return NewMatrix(ix.outShape, data.Publish()).shrink()
+	}
 	copySize := int(size(ix.shape[ix.indexDim:]))
 	n := data.Len() / copySize
 
@@ -330,6 +333,9 @@ func IndexAssign(context Context, top, left Expr, lvarx *VarExpr, index []Expr,
 		return
 	}
 
+	if ix.outSize == 0 {
+		return
+	}
 	copySize := int(size(ix.shape[ix.indexDim:]))
 	n := ix.outSize / copySize
 	pfor(ix.distinct(origin), copySize, n, func(lo, hi int) {
diff --git a/value/matrix.go b/value/matrix.go
index 2ca8be6..dc6c087 100644
--- a/value/matrix.go
+++ b/value/matrix.go
@@ -454,6 +454,9 @@ func (m *Matrix) rotate(n int) Value {
 	if m.Rank() == 0 {
 		return &Matrix{}
 	}
+	if m.data.Len() == 0 {
+		return m
+	}
 	elems := newVectorEditor(m.data.Len(), nil)
 	dim := m.shape[m.Rank()-1]
 	n %= dim
@@ -475,7 +478,7 @@ func (m *Matrix) vrotate(n int) Value {
 	if m.Rank() == 0 {
 		return &Matrix{}
 	}
-	if m.Rank() == 1 {
+	if m.Rank() == 1 || m.data.Len() == 0 {
 		return m
 	}
 
@@ -504,7 +507,7 @@ func (m *Matrix) vrotate(n int) Value {
 // transpose returns (as a new matrix) the transposition of the argument.
 func (m *Matrix) transpose(c Context) *Matrix {
 	// Fast version for common 2d case.
-	if len(m.shape) == 2 {
+	if len(m.shape) == 2 && m.data.Len() > 0 {
 		data := newVectorEditor(m.data.Len(), nil)
 		xdim, ydim := m.shape[0], m.shape[1] // For new matrix.
 		pfor(true, 1, data.Len(), func(lo, hi int) {
@@ -1038,7 +1041,7 @@ func (m *Matrix) grade(c Context) *Vector {
 		x[i] = i
 	}
 	v := m.data
-	stride := v.Len() / m.shape[0]
+	stride := size(m.shape[1:])
 	sort.Slice(x, func(i, j int) bool {
 		i = x[i] * stride
 		j = x[j] * stride
@@ -1085,7 +1088,7 @@ func (m *Matrix) inverse(c Context) Value {
 		return NewMatrix(m.shape, m.data.inverse(c).(*Vector))
 	case 2:
 		// OK
-	case 3:
+	default:
 		Errorf("cannot compute inverse of matrix with dimension > 2")
 	}
 	dim := m.shape[0]
diff --git a/value/sys.go b/value/sys.go
index 840535b..edb71bc 100644
--- a/value/sys.go
+++ b/value/sys.go
@@ -184,6 +184,9 @@ func encodeTime(c Context, u, v *Vector) Value {
 	if r != 't' && r != 'T' {
 		Errorf("illegal left operand %s for encode", u)
 	}
+	if v.Len() == 0 {
+		Errorf("no time to encode")
+	}
 	// TODO: more than one value
 	return timeVec(timeFromValue(c, v.At(0)))
 }
diff --git a/value/unary.go b/value/unary.go
index 577d181..9def23d 100644
--- a/value/unary.go
+++ b/value/unary.go
@@ -902,7 +902,7 @@ func init() {
 				},
 				matrixType: func(c Context, v Value) Value {
 					m := v.(*Matrix)
-					if m.Rank() == 0 {
+					if m.Rank() == 0 || m.Size() == 0 {
 						return m
 					}
 					if m.Rank() == 1 {
-- 
2.43.0


From 7b9643a1422469a9a79e33d1203c8f23aa06c9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:11 +0000
Subject: [PATCH 37/49] fix: tracing a parallel evaluation is not a data race

---
 exec/context.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/exec/context.go b/exec/context.go
index 2f251d5..f291a49 100644
--- a/exec/context.go
+++ b/exec/context.go
@@ -111,15 +111,9 @@ func (c *Context) pop() {
 	c.stack = c.stack[:len(c.stack)-n]
 }
 
-var indent = "| "
-
 // TraceIndent returns an indentation marker showing the depth of the stack.
 func (c *Context) TraceIndent() string {
-	n := 2 * len(c.frameSizes)
-	if len(indent) < n {
-		indent = strings.Repeat("| ", n+10)
-	}
-	return indent[:n]
+	return strings.Repeat("| ", len(c.frameSizes))
 }
 
 // Eval evaluates a list of expressions.
-- 
2.43.0


From bb3717ec08af7ffde55fc98efb301f86c45114c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:19 +0000
Subject: [PATCH 38/49] fix: saved operators are read back with the parse they
 had

---
 parse/function.go | 48 +++++++++++++++++++++++++++++++++++++++--------
 parse/save.go     | 30 +++++++++++++++++++++++------
 2 files changed, 64 insertions(+), 14 deletions(-)

diff --git a/parse/function.go b/parse/function.go
index c9a884d..187132d 100644
--- a/parse/function.go
+++ b/parse/function.go
@@ -6,6 +6,7 @@ package parse
 
 import (
 	"fmt"
+	"strings"
 
 	"robpike.io/ivy/exec"
 	"robpike.io/ivy/scan"
@@ -183,28 +184,59 @@ func (p *Parser) funcArg() value.Expr {
 	return v
 }
 
-// references returns a list, in appearance order, of the user-defined ops
-// referenced by this function body. Only the first appearance creates an
-// entry in the list.
+// references returns a list, in appearance order, of the user-defined ops,
+// including those since deleted, referenced by this function body. Only the
+// first appearance creates an entry in the list.
 func references(c *exec.Context, body []value.Expr) []exec.OpDef {
 	var refs []exec.OpDef
+	unary := func(op string) {
+		if c.UnaryFn[op] != nil || value.UnaryOps[op] == nil {
+			addReference(&refs, op, false)
+		}
+	}
+	binary := func(op string) {
+		// The op may be a product, such as +.foo, or applied to each, such as @foo.
+		for _, op := range strings.Split(op, ".") {
+			op = strings.Trim(op, "@")
+			if op == "o" || op == "=" || op == ":" {
+				continue // Outer product, assignment or conditional.
+			}
+			if c.BinaryFn[op] != nil || value.BinaryOps[op] == nil {
+				addReference(&refs, op, true)
+			}
+		}
+	}
 	for _, expr := range body {
 		walk(expr, false, func(expr value.Expr, _ bool) {
 			switch e := expr.(type) {
 			case *value.UnaryExpr:
-				if c.UnaryFn[e.Op] != nil {
-					addReference(&refs, e.Op, false)
+				op := strings.TrimRight(e.Op, "@")
+				if s := strings.TrimSuffix(op, "%"); len(s) > 1 && (strings.HasSuffix(s, "/") || strings.HasSuffix(s, "\\")) {
+					binary(s[:len(s)-1]) // Reduction or scan.
+				} else {
+					unary(op)
 				}
 			case *value.BinaryExpr:
-				if c.BinaryFn[e.Op] != nil {
-					addReference(&refs, e.Op, true)
-				}
+				binary(e.Op)
 			}
 		})
 	}
 	return refs
 }
 
+// usesVar reports whether the function body mentions a variable with the name.
+func usesVar(body []value.Expr, name string) bool {
+	found := false
+	for _, expr := range body {
+		walk(expr, false, func(expr value.Expr, _ bool) {
+			if e, ok := expr.(*value.VarExpr); ok && e.Name == name {
+				found = true
+			}
+		})
+	}
+	return found
+}
+
 func addReference(refs *[]exec.OpDef, name string, isBinary bool) {
 	// If it's already there, ignore. This is n^2 but n is tiny.
 	for _, ref := range *refs {
diff --git a/parse/save.go b/parse/save.go
index 1bca560..b0df2c2 100644
--- a/parse/save.go
+++ b/parse/save.go
@@ -92,21 +92,35 @@ func saveTo(c *exec.Context, out io.Writer) {
 
 	// Ops.
 	printed := make(map[exec.OpDef]bool)
-	for _, def := range c.Defs {
+	declare := func(keyword string, ref exec.OpDef) {
+		if ref.IsBinary {
+			fmt.Fprintf(out, "%s _ %s _\n", keyword, ref.Name)
+		} else {
+			fmt.Fprintf(out, "%s %s _\n", keyword, ref.Name)
+		}
+	}
+	for i, def := range c.Defs {
 		var fn *exec.Function
 		if def.IsBinary {
 			fn = c.BinaryFn[def.Name]
 		} else {
 			fn = c.UnaryFn[def.Name]
 		}
+		// An op still to come may be a variable here.
+		for _, later := range c.Defs[i+1:] {
+			if printed[later] && usesVar(fn.Body, later.Name) {
+				declare("opdelete", later)
+				delete(printed, later)
+			}
+		}
+		var deleted []exec.OpDef
 		for _, ref := range references(c, fn.Body) {
 			if !printed[ref] {
-				if ref.IsBinary {
-					fmt.Fprintf(out, "op _ %s _\n", ref.Name)
-				} else {
-					fmt.Fprintf(out, "op %s _\n", ref.Name)
-				}
+				declare("op", ref)
 				printed[ref] = true
+				if !c.UserDefined(ref.Name, ref.IsBinary) {
+					deleted = append(deleted, ref)
+				}
 			}
 		}
 		printed[def] = true
@@ -116,6 +130,10 @@ func saveTo(c *exec.Context, out io.Writer) {
 			s += "\n"
 		}
 		fmt.Fprintln(out, s)
+		for _, ref := range deleted {
+			declare("opdelete", ref)
+			delete(printed, ref)
+		}
 	}
 
 	// Global variables.
-- 
2.43.0


From 39683e8b22ad8e189e1c3fbe0d598f6ee324e8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:22 +0000
Subject: [PATCH 39/49] fix: the difference of a one-element matrix and a
 scalar is a matrix

---
 value/eval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value/eval.go b/value/eval.go
index daa1a5b..0b6b490 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -722,7 +722,7 @@ func binaryMatrixOp(c Context, i Value, op string, j Value) Value {
 
 	// One or the other may be a scalar in disguise.
 	switch {
-	case isScalar(u):
+	case isScalar(u) && !(isScalar(v) && len(u.shape) > len(v.shape)):
 		// Scalar op Matrix.
 		shape = v.shape
 		n = newVectorEditor(v.data.Len(), nil)
-- 
2.43.0


From 4715c28dc341e8862f4c21b1c1b7d05f06a51e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:40 +0000
Subject: [PATCH 40/49] fix: the result of an assignment is an ordinary value
 once it is used

An element of a vector, such as 1 (x = 2), or the variable _ after
7; x = 3, kept the mark that stops an assignment from printing, and
)save and )var failed with an internal error. A left operand kept it
too, and could not be indexed.
---
 run/run.go      |  6 +++++-
 value/expr.go   |  2 +-
 value/vector.go | 17 +++++++++++++++--
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/run/run.go b/run/run.go
index 6722827..8cdf96a 100644
--- a/run/run.go
+++ b/run/run.go
@@ -85,7 +85,11 @@ func Run(p *parse.Parser, context value.Context, interactive bool) (success bool
 			conf.SetCPUTime(time.Since(start), user2-user, sys2-sys)
 		}
 		if printValues(conf, writer, values) {
-			context.AssignGlobal("_", values[len(values)-1])
+			for _, v := range values {
+				if _, ok := v.(value.QuietValue); !ok {
+					context.AssignGlobal("_", v)
+				}
+			}
 		}
 		if !ok {
 			return true
diff --git a/value/expr.go b/value/expr.go
index 153436c..101081c 100644
--- a/value/expr.go
+++ b/value/expr.go
@@ -55,7 +55,7 @@ func (b *BinaryExpr) Eval(context Context) Value {
 		return assign(context, b)
 	}
 	rhs := b.Right.Eval(context).Inner()
-	lhs := b.Left.Eval(context)
+	lhs := b.Left.Eval(context).Inner()
 	return context.EvalBinary(lhs, b.Op, rhs)
 }
 
diff --git a/value/vector.go b/value/vector.go
index 05df721..cdcbeee 100644
--- a/value/vector.go
+++ b/value/vector.go
@@ -71,10 +71,23 @@ func (v *vectorEditor) Len() int { return v.t.Len() }
 func (v *vectorEditor) At(i int) Value { return v.t.At(i) }
 
 // Set sets the i'th element of v to x.
-func (v *vectorEditor) Set(i int, x Value) { v.t.Set(i, x) }
+func (v *vectorEditor) Set(i int, x Value) {
+	if q, ok := x.(QuietValue); ok {
+		x = q.Value // An element is just a value, however it was made.
+	}
+	v.t.Set(i, x)
+}
 
 // Append appends the values to v.
-func (v *vectorEditor) Append(values ...Value) { v.t.Append(values...) }
+func (v *vectorEditor) Append(values ...Value) {
+	n := v.Len()
+	v.t.Append(values...)
+	for i, x := range values {
+		if _, ok := x.(QuietValue); ok {
+			v.Set(n+i, x)
+		}
+	}
+}
 
 // Resize resizes v to have n elements.
 // The value of newly accessible elements is undefined.
-- 
2.43.0


From 451009b1ab981b80cf540b8ed2fe1861304ebddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:42 +0000
Subject: [PATCH 41/49] fix: an operator at the very end of the input is read
 like one before a newline

---
 scan/scan.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scan/scan.go b/scan/scan.go
index c044a45..4c90a72 100644
--- a/scan/scan.go
+++ b/scan/scan.go
@@ -152,6 +152,7 @@ func (l *Scanner) peek() rune {
 // and if we see a newline we don't have an operator.
 func (l *Scanner) peek2() (rune, rune) {
 	pos := l.pos
+	lastRune := l.lastRune
 	lastWidth := l.lastWidth
 	r1 := l.next()
 	r2 := r1
@@ -159,6 +160,7 @@ func (l *Scanner) peek2() (rune, rune) {
 		r2 = l.next()
 	}
 	l.pos = pos
+	l.lastRune = lastRune
 	l.lastWidth = lastWidth
 	return r1, r2
 }
-- 
2.43.0


From 646148b066d532bd85c6312d1b80b9f3dd001609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:15 +0000
Subject: [PATCH 42/49] fix: scanning errors are reported with the line they
 are on

---
 parse/parse.go | 1 +
 scan/scan.go   | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/parse/parse.go b/parse/parse.go
index bb26c27..14277fa 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -189,6 +189,7 @@ func (p *Parser) readTokensToNewline(inFunction bool) bool {
 		tok := p.scanner.Next()
 		switch tok.Type {
 		case scan.Error:
+			p.lineNum = tok.Line
 			p.errorf("%s", tok)
 		case scan.Newline:
 			// Need a truly blank line to terminate the function body.
diff --git a/scan/scan.go b/scan/scan.go
index 4c90a72..f060681 100644
--- a/scan/scan.go
+++ b/scan/scan.go
@@ -211,7 +211,7 @@ func (l *Scanner) acceptRun(valid string) {
 
 // errorf returns an error token and empties the input.
 func (l *Scanner) errorf(format string, args ...interface{}) stateFn {
-	l.token = Token{Error, l.start, fmt.Sprintf(format, args...)}
+	l.token = Token{Error, l.line, fmt.Sprintf(format, args...)}
 	l.start = 0
 	l.pos = 0
 	l.input = l.input[:0]
@@ -623,6 +623,8 @@ func lexRawQuote(l *Scanner) stateFn {
 	for {
 		l.readOK = true // Here we do accept a newline mid-token.
 		switch l.next() {
+		case '\n':
+			l.line++
 		case eof:
 			return l.errorf("unterminated raw quoted string")
 		case '`':
-- 
2.43.0


From d882a998765e9c0ecac56607dc2dffadfc93713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:34 +0000
Subject: [PATCH 43/49] fix: the demo accepts lines of any length

---
 demo/demo.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/demo/demo.go b/demo/demo.go
index ba5db25..d21ea8f 100644
--- a/demo/demo.go
+++ b/demo/demo.go
@@ -12,6 +12,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 
 	_ "embed"
 )
@@ -36,6 +37,7 @@ func Run(userInput io.Reader, toIvy io.Writer, output io.Writer) error {
 	var scan *bufio.Scanner
 	if userInput != nil {
 		scan = bufio.NewScanner(userInput)
+		scan.Buffer(nil, math.MaxInt)
 	}
 	nextLine := func() (line []byte) {
 		nl := bytes.IndexByte(text, '\n')
-- 
2.43.0


From c807cb358f2069ffaeaba471966ecf82d2e2e4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:34 +0000
Subject: [PATCH 44/49] fix: the mobile demo accepts lines of any length

---
 mobile/mobile.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mobile/mobile.go b/mobile/mobile.go
index 94fb937..0707a96 100644
--- a/mobile/mobile.go
+++ b/mobile/mobile.go
@@ -18,6 +18,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 
 	"robpike.io/ivy/config"
@@ -66,8 +67,10 @@ func NewDemo(input string) *Demo {
 	// TODO: The state being reset should be local to the demo.
 	// but that's not worth doing until ivy itself has no global state.
 	Reset()
+	scanner := bufio.NewScanner(strings.NewReader(input))
+	scanner.Buffer(nil, math.MaxInt)
 	return &Demo{
-		scanner: bufio.NewScanner(strings.NewReader(input)),
+		scanner: scanner,
 	}
 }
 
-- 
2.43.0


From 10f66125c37d34ed2edc45bd46ba1ac8d50a0254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:25 +0000
Subject: [PATCH 45/49] fix: a command with something after its argument does
 nothing

---
 parse/special.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parse/special.go b/parse/special.go
index 2de2cb5..0ab0fe4 100644
--- a/parse/special.go
+++ b/parse/special.go
@@ -55,7 +55,7 @@ func (p *Parser) nextDecimalNumber() int {
 }
 
 // nextDecimalNumber64 returns the next number, which
-// must fit in a non-negative int64.
+// must fit in a non-negative int64 and be the last thing on the line.
 func (p *Parser) nextDecimalNumber64() int64 {
 	conf := p.context.Config()
 	ibase, obase := conf.Base()
@@ -65,6 +65,7 @@ func (p *Parser) nextDecimalNumber64() int64 {
 	if err != nil {
 		p.errorf("%s", err)
 	}
+	p.need(scan.EOF)
 	var n int64 = -1
 	switch num := v.(type) {
 	case value.Int:
@@ -386,9 +387,12 @@ Switch:
 	p.need(scan.EOF)
 }
 
-// getString returns the value of the string that must be next in the input.
+// getString returns the value of the string that must be next in the input,
+// and the last thing on the line.
 func (p *Parser) getString() string {
-	return value.ParseString(p.need(scan.String).Text)
+	str := value.ParseString(p.need(scan.String).Text)
+	p.need(scan.EOF)
+	return str
 }
 
 var runDepth = 0
-- 
2.43.0


From b8c5012b34ee246e504fce2eed422e032b3ad020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:21 +0000
Subject: [PATCH 46/49] fix: a matrix partitioned into parts has as many
 columns as parts

---
 value/vector.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/value/vector.go b/value/vector.go
index cdcbeee..ff6481a 100644
--- a/value/vector.go
+++ b/value/vector.go
@@ -523,7 +523,6 @@ func (v *Vector) partition(score *Vector) Value {
 func (v *Vector) doPartition(score *Vector) (*Vector, int) {
 	accum := newVectorEditor(0, nil)
 	result := newVectorEditor(0, nil)
-	dim := -1
 	for i, sc, prev := 0, 0, 0; i < v.Len(); i, prev = i+1, sc {
 		j := i % score.Len()
 		sc = score.uintAt(j, "part: score")
@@ -534,13 +533,19 @@ func (v *Vector) doPartition(score *Vector) (*Vector, int) {
 			}
 			accum.Append(v.At(i))
 		}
-		if dim < 0 && i > 0 && j == 0 { // Score rolled over for first time; set dim.
-			dim = result.Len()
-		}
 	}
 	if accum.Len() > 0 {
 		result.Append(accum.Publish())
 	}
+	// The width is the number of subvectors one run through the score makes.
+	dim := 0
+	for j, prev := 0, 0; j < score.Len(); j++ {
+		sc := score.uintAt(j, "part: score")
+		if sc > prev {
+			dim++
+		}
+		prev = sc
+	}
 	return result.Publish(), dim
 }
 
-- 
2.43.0


From 50328484d1800bafc91cde8a1efd1fb9da4303fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:21 +0000
Subject: [PATCH 47/49] fix: an operation whose result has one dimension gives
 a vector

---
 value/binary.go | 2 +-
 value/eval.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/value/binary.go b/value/binary.go
index 6fd1add..23e8676 100644
--- a/value/binary.go
+++ b/value/binary.go
@@ -1340,7 +1340,7 @@ func init() {
 					vv := v.(*Vector)
 					if uu.Len() != 1 {
 						// Need to expand to a matrix.
-						return NewMatrix([]int{vv.Len()}, vv).take(c, uu)
+						return NewMatrix([]int{vv.Len()}, vv).take(c, uu).shrink()
 					}
 					n := uu.intAt(0, "take count") // Number of elements in result.
 					len := vv.Len()                // Length of rhs vector.
diff --git a/value/eval.go b/value/eval.go
index 0b6b490..3598b2c 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -768,7 +768,7 @@ func binaryMatrixOp(c Context, i Value, op string, j Value) Value {
 			}
 		})
 	}
-	return NewMatrix(shape, n.Publish())
+	return NewMatrix(shape, n.Publish()).shrink()
 }
 
 // IsScalarType reports whether u is an actual scalar, an int or float etc.
-- 
2.43.0


From da6b523ddf97c14aba228e658dd006d1dcd4798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:00 +0000
Subject: [PATCH 48/49] fix: max of big integers leaves a small result a big
 integer

---
 value/binary.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/value/binary.go b/value/binary.go
index 23e8676..ca429a4 100644
--- a/value/binary.go
+++ b/value/binary.go
@@ -1265,9 +1265,9 @@ func init() {
 				bigIntType: func(c Context, u, v Value) Value {
 					i, j := u.(BigInt), v.(BigInt)
 					if i.Cmp(j.Int) > 0 {
-						return u
+						return i.shrink()
 					}
-					return v
+					return j.shrink()
 				},
 				bigRatType: func(c Context, u, v Value) Value {
 					i, j := u.(BigRat), v.(BigRat)
-- 
2.43.0


From c11bf536421ebbf5a505aab71908a9c03ec37fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:42 +0000
Subject: [PATCH 49/49] fix: 0 and 1 to a positive power stay a big integer

---
 value/binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value/binary.go b/value/binary.go
index ca429a4..58d9f9b 100644
--- a/value/binary.go
+++ b/value/binary.go
@@ -452,7 +452,7 @@ func init() {
 					}
 					x := u.(BigInt).Int
 					if x.Cmp(bigIntOne.Int) == 0 || x.Sign() == 0 {
-						return u
+						return u.(BigInt).shrink()
 					}
 					return binaryBigIntOp(u, bigIntExpOp(c), v)
 				},
-- 
2.43.0

