// Command instr copies a Go module's non-test packages into a scratch module,
// rewriting every source of nondeterminism (goroutines, channels, locks,
// atomics, clocks, files, standard streams, random numbers, map iteration
// order) so that it goes through the simulator runtime, and inserting a
// scheduling point before every statement.
//
// usage: instr -repo /repo -rt /verif/sim/_rt -out DIR
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkg struct {
	Dir        string
	ImportPath string
	Name       string
	Export     string
	Standard   bool
	GoFiles    []string
	EmbedFiles []string
	Imports    []string
	Module     *struct {
		Path string
		Main bool
		Dir  string
	}
}

// shims maps an import path to the shim that stands in for some of its names.
var shims = map[string]string{
	"sync":         "zsync",
	"sync/atomic":  "zatomic",
	"os":           "zos",
	"io/ioutil":    "zioutil",
	"time":         "ztime",
	"runtime":      "zruntime",
	"fmt":          "zfmt",
	"syscall":      "zsyscall",
	"math/rand":    "zrand",
	"math/rand/v2": "zrand2",
	"crypto/rand":  "zcrand",
	"log":          "zlog",
	"io":           "zio",
}

var (
	repo = flag.String("repo", "/repo", "module to instrument")
	rt   = flag.String("rt", "", "simulator runtime sources")
	out  = flag.String("out", "", "output directory")
)

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", args...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=Dir,ImportPath,Name,Export,Standard,GoFiles,EmbedFiles,Imports,Module", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	exports := map[string]string{}
	var mods []*pkg
	var modPath string
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		p := new(pkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			modPath = p.Module.Path
			mods = append(mods, p) // -deps lists dependencies first.
		}
	}
	shimNames := loadShims(modPath)

	// The simulator's own packages.
	copyTree(*rt, filepath.Join(*out, "zzsim"), modPath)
	gomod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		fatal("%v", err)
	}
	write(filepath.Join(*out, "go.mod"), gomod)
	if sum, err := os.ReadFile(filepath.Join(*repo, "go.sum")); err == nil {
		write(filepath.Join(*out, "go.sum"), sum)
	}

	fset := token.NewFileSet()
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	var stats struct{ Packages, Files, Yields, Seams int }
	for _, p := range mods {
		isMain := p.Name == "main"
		if isMain && p.ImportPath != modPath {
			continue // Some other command.
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/")
		dir := filepath.Join(*out, rel)
		if isMain {
			dir = filepath.Join(*out, "zzmain")
		}
		var files []*ast.File
		var srcs [][]byte
		for _, f := range p.GoFiles {
			src, err := os.ReadFile(filepath.Join(p.Dir, f))
			if err != nil {
				fatal("%v", err)
			}
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), src, parser.ParseComments)
			if err != nil {
				fatal("%v", err)
			}
			files = append(files, af)
			srcs = append(srcs, src)
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{},
			Uses:  map[*ast.Ident]types.Object{},
			Defs:  map[*ast.Ident]types.Object{},
		}
		conf := types.Config{Importer: gc, Sizes: types.SizesFor("gc", "amd64")}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			fatal("type checking %s: %v", p.ImportPath, err)
		}
		stats.Packages++
		for i, f := range files {
			r := &rewriter{
				fset: fset, file: f, src: srcs[i], info: info, pkg: tp, modPath: modPath,
				shimNames: shimNames, main: isMain, imports: map[string]bool{}, keep: map[string]string{},
			}
			r.tf = fset.File(f.Pos())
			text := r.rewrite()
			stats.Files++
			stats.Yields += r.yields
			stats.Seams += r.seams
			write(filepath.Join(dir, p.GoFiles[i]), []byte(text))
		}
		for _, f := range p.EmbedFiles {
			b, err := os.ReadFile(filepath.Join(p.Dir, f))
			if err != nil {
				fatal("%v", err)
			}
			write(filepath.Join(dir, f), b)
		}
	}
	js, _ := json.Marshal(stats)
	write(filepath.Join(*out, "zzstats.json"), js)
}

func write(name string, data []byte) {
	if err := os.MkdirAll(filepath.Dir(name), 0o777); err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(name, data, 0o666); err != nil {
		fatal("%v", err)
	}
}

func copyTree(src, dst, modPath string) {
	err := filepath.Walk(src, func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(src, path)
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		b = bytes.ReplaceAll(b, []byte("robpike.io/ivy/"), []byte(modPath+"/"))
		write(filepath.Join(dst, rel), b)
		return nil
	})
	if err != nil {
		fatal("%v", err)
	}
}

// loadShims returns the exported names of each shim package.
func loadShims(modPath string) map[string]map[string]bool {
	names := map[string]map[string]bool{}
	for path, shim := range shims {
		dir := filepath.Join(*rt, shim)
		fset := token.NewFileSet()
		ents, err := os.ReadDir(dir)
		if err != nil {
			continue
		}
		set := map[string]bool{}
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0)
			if err != nil {
				fatal("%v", err)
			}
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil && d.Name.IsExported() {
						set[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							set[s.Name.Name] = s.Name.IsExported()
						case *ast.ValueSpec:
							for _, n := range s.Names {
								set[n.Name] = n.IsExported()
							}
						}
					}
				}
			}
		}
		names[path] = set
	}
	return names
}

// An edit replaces the source in [start, end).
type edit struct {
	start, end int
	seq        int
	gen        func() string
}

type rewriter struct {
	fset      *token.FileSet
	tf        *token.File
	file      *ast.File
	src       []byte
	info      *types.Info
	pkg       *types.Package
	modPath   string
	main      bool
	shimNames map[string]map[string]bool
	edits     []*edit
	imports   map[string]bool   // shims used
	keep      map[string]string // import name -> statement keeping it used
	sim       bool
	yields    int
	seams     int
	tmp       int
}

func (r *rewriter) off(p token.Pos) int { return r.tf.Offset(p) }

func (r *rewriter) add(start, end int, gen func() string) {
	r.edits = append(r.edits, &edit{start, end, len(r.edits), gen})
}

func (r *rewriter) insert(pos token.Pos, text string) {
	o := r.off(pos)
	r.add(o, o, func() string { return text })
}

// render returns the rewritten text of [lo, hi), applying the edits strictly
// inside outer (or all of them if outer is nil).
func (r *rewriter) render(lo, hi int, outer *edit) string {
	var b strings.Builder
	pos := lo
	for _, e := range r.edits { // sorted: by start, then insertions, then longest first
		if e == outer || e.start < pos || e.start < lo || e.end > hi {
			continue
		}
		if outer != nil && e.start == outer.start && e.end >= outer.end && e.seq < outer.seq {
			continue
		}
		if e.start == hi && e.start == e.end && hi != lo {
			continue
		}
		if e.start == e.end && outer != nil && e.start == outer.start {
			// An insertion before the outer edit; already done.
			continue
		}
		b.Write(r.src[pos:e.start])
		b.WriteString(e.gen())
		pos = e.end
	}
	if pos < hi {
		b.Write(r.src[pos:hi])
	}
	return b.String()
}

func (r *rewriter) node(n ast.Node, outer *edit) string {
	return r.render(r.off(n.Pos()), r.off(n.End()), outer)
}

// replace registers an edit of n whose generator may render n's children.
func (r *rewriter) replace(n ast.Node, gen func(self *edit) string) {
	e := &edit{start: r.off(n.Pos()), end: r.off(n.End()), seq: len(r.edits)}
	e.gen = func() string { return gen(e) }
	r.edits = append(r.edits, e)
	r.seams++
	r.sim = true
}

func (r *rewriter) under(e ast.Expr) types.Type {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return nil
	}
	return tv.Type.Underlying()
}

func (r *rewriter) isChan(e ast.Expr) bool {
	_, ok := r.under(e).(*types.Chan)
	return ok
}

func (r *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rewriter) rewrite() string {
	recv2 := map[ast.Expr]bool{} // receives in two-value context
	inSelect := map[ast.Node]bool{}
	ast.Inspect(r.file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.FuncDecl:
			if r.main && n.Recv == nil && n.Name.Name == "main" {
				r.replace(n.Name, func(*edit) string { return "Main" })
			}
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				recv2[ast.Unparen(n.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				recv2[ast.Unparen(n.Values[0])] = true
			}
		case *ast.SelectorExpr:
			r.selector(n)
		case *ast.GoStmt:
			r.goStmt(n)
		case *ast.SendStmt:
			if !inSelect[n] {
				r.replace(n, func(self *edit) string {
					return "zzsim.Sender(" + r.node(n.Chan, self) + ")(" + r.node(n.Value, self) + ")"
				})
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !inSelect[n] {
				fn := "zzsim.Recv("
				if recv2[n] {
					fn = "zzsim.Recv2("
				}
				r.replace(n, func(self *edit) string { return fn + r.node(n.X, self) + ")" })
			}
		case *ast.CallExpr:
			r.call(n)
		case *ast.RangeStmt:
			r.rangeStmt(n)
		case *ast.ForStmt:
			r.loop(n.Body)
		case *ast.SelectStmt:
			r.selectStmt(n, inSelect)
		case *ast.BlockStmt:
			r.stmts(n.List)
		case *ast.CaseClause:
			r.stmts(n.Body)
		case *ast.CommClause:
			r.stmts(n.Body)
		}
		return true
	})
	sort.SliceStable(r.edits, func(i, j int) bool {
		a, b := r.edits[i], r.edits[j]
		if a.start != b.start {
			return a.start < b.start
		}
		if az, bz := a.start == a.end, b.start == b.end; az != bz {
			return az // insertions first
		}
		if a.end != b.end {
			return a.end > b.end
		}
		return a.seq < b.seq
	})
	body := r.render(0, len(r.src), nil)

	// Package clause and imports. Put everything on the line of the package
	// clause, so line numbers stay the same.
	nameOff := r.off(r.file.Name.Pos())
	nameEnd := r.off(r.file.Name.End())
	_ = nameOff
	var imp strings.Builder
	if r.sim {
		fmt.Fprintf(&imp, "; import zzsim %q", r.modPath+"/zzsim")
	}
	var names []string
	for s := range r.imports {
		names = append(names, s)
	}
	sort.Strings(names)
	for _, s := range names {
		fmt.Fprintf(&imp, "; import %s %q", s, r.modPath+"/zzsim/"+s)
	}
	// Nothing before the package name was edited, so its offset is unchanged.
	name := r.file.Name.Name
	if r.main {
		name = "zzmain"
	}
	head := body[:nameOff] + name
	rest := body[nameEnd:]
	// A trailing import comment on the package line would be moved; drop it.
	if i := strings.IndexByte(rest, '\n'); i >= 0 && strings.HasPrefix(strings.TrimSpace(rest[:i]), "//") {
		rest = rest[i:]
	}
	text := head + imp.String() + rest
	var keeps []string
	for _, k := range r.keep {
		keeps = append(keeps, k)
	}
	sort.Strings(keeps)
	return text + "\n" + strings.Join(keeps, "\n") + "\n"
}

func (r *rewriter) selector(n *ast.SelectorExpr) {
	id, ok := n.X.(*ast.Ident)
	if !ok {
		return
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	if !ok {
		return
	}
	path := pn.Imported().Path()
	if !r.shimNames[path][n.Sel.Name] {
		return
	}
	shim := shims[path]
	r.imports[shim] = true
	key := id.Name
	if _, ok := r.keep[key]; !ok {
		obj := pn.Imported().Scope().Lookup(n.Sel.Name)
		if tn, isType := obj.(*types.TypeName); isType {
			if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				r.keep[key] = fmt.Sprintf("var _ *%s.%s[int]", id.Name, n.Sel.Name)
			} else {
				r.keep[key] = fmt.Sprintf("var _ *%s.%s", id.Name, n.Sel.Name)
			}
		} else if fn, ok := obj.(*types.Func); ok && fn.Type().(*types.Signature).TypeParams().Len() > 0 {
			// A generic function; keep the package with something simpler.
			switch path {
			case "sync":
				r.keep[key] = fmt.Sprintf("var _ *%s.Mutex", id.Name)
			case "math/rand/v2":
				r.keep[key] = fmt.Sprintf("var _ *%s.Rand", id.Name)
			}
		} else {
			r.keep[key] = fmt.Sprintf("var _ = %s.%s", id.Name, n.Sel.Name)
		}
	}
	r.seams++
	o := r.off(id.Pos())
	r.add(o, r.off(id.End()), func() string { return shim })
}

func (r *rewriter) isConstOrNil(e ast.Expr) bool {
	tv := r.info.Types[e]
	return tv.Value != nil || tv.IsNil()
}

func (r *rewriter) goStmt(n *ast.GoStmt) {
	call := n.Call
	if _, ok := ast.Unparen(call.Fun).(*ast.FuncLit); ok && len(call.Args) == 0 {
		r.replace(n, func(self *edit) string { return "zzsim.Go(" + r.node(call.Fun, self) + ")" })
		return
	}
	r.tmp++
	base := "zz" + strconv.Itoa(r.tmp) + "_"
	r.replace(n, func(self *edit) string {
		var pre, args []string
		fun := base + "f"
		direct := false
		switch f := ast.Unparen(call.Fun).(type) {
		case *ast.Ident:
			switch r.info.Uses[f].(type) {
			case *types.Func, *types.Builtin:
				direct = true
			}
		case *ast.IndexExpr, *ast.IndexListExpr:
			direct = true
		case *ast.SelectorExpr:
			if id, ok := f.X.(*ast.Ident); ok {
				if _, ok := r.info.Uses[id].(*types.PkgName); ok {
					direct = true
				}
			}
		}
		if direct {
			fun = r.node(call.Fun, self)
			if r.isBuiltin(call.Fun, "close") {
				fun = "zzsim.Close"
			}
		} else {
			pre = append(pre, fun+" := "+r.node(call.Fun, self))
		}
		for i, a := range call.Args {
			if r.isConstOrNil(a) {
				args = append(args, r.node(a, self))
				continue
			}
			v := base + strconv.Itoa(i)
			pre = append(pre, v+" := "+r.node(a, self))
			args = append(args, v)
		}
		dots := ""
		if call.Ellipsis.IsValid() {
			dots = "..."
		}
		return "{ " + strings.Join(append(pre, ""), "; ") + "zzsim.Go(func() { " + fun + "(" + strings.Join(args, ", ") + dots + ") }) }"
	})
}

func (r *rewriter) call(n *ast.CallExpr) {
	switch {
	case r.isBuiltin(n.Fun, "make") && len(n.Args) > 0 && r.isChan(n.Args[0]):
		r.replace(n, func(self *edit) string {
			size := "0"
			if len(n.Args) > 1 {
				size = "int(" + r.node(n.Args[1], self) + ")"
			}
			return "zzsim.MakeChan[" + r.node(n.Args[0], self) + "](" + size + ")"
		})
	case r.isBuiltin(n.Fun, "close") && len(n.Args) == 1:
		r.replace(n.Fun, func(*edit) string { return "zzsim.Close" })
	case (r.isBuiltin(n.Fun, "len") || r.isBuiltin(n.Fun, "cap")) && len(n.Args) == 1 && r.isChan(n.Args[0]):
		fn := "zzsim.ChanLen"
		if r.isBuiltin(n.Fun, "cap") {
			fn = "zzsim.ChanCap"
		}
		r.replace(n.Fun, func(*edit) string { return fn })
	}
}

func (r *rewriter) loop(body *ast.BlockStmt) {
	r.sim = true
	r.insert(body.Lbrace+1, " zzsim.L(); ")
}

func (r *rewriter) rangeStmt(n *ast.RangeStmt) {
	r.loop(n.Body)
	switch r.under(n.X).(type) {
	case *types.Map:
		if n.Key == nil {
			return
		}
		r.replace(n.X, func(self *edit) string { return "zzsim.MapSeq(" + r.node(n.X, self) + ")" })
	case *types.Chan:
		r.replace(n.X, func(self *edit) string { return "zzsim.ChanSeq(" + r.node(n.X, self) + ")" })
	}
}

func (r *rewriter) selectStmt(n *ast.SelectStmt, inSelect map[ast.Node]bool) {
	r.tmp++
	base := "zzs" + strconv.Itoa(r.tmp) + "_"
	hasDefault := false
	type comm struct {
		clause *ast.CommClause
		send   *ast.SendStmt
		recv   *ast.UnaryExpr
		lhs    []ast.Expr
		tok    token.Token
	}
	var comms []comm
	for _, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		k := comm{clause: cc}
		switch s := cc.Comm.(type) {
		case nil:
			hasDefault = true
		case *ast.SendStmt:
			k.send = s
			inSelect[s] = true
		case *ast.ExprStmt:
			k.recv = ast.Unparen(s.X).(*ast.UnaryExpr)
		case *ast.AssignStmt:
			k.recv = ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr)
			k.lhs, k.tok = s.Lhs, s.Tok
		}
		if k.recv != nil {
			inSelect[k.recv] = true
		}
		comms = append(comms, k)
	}
	r.replace(n, func(self *edit) string {
		var b strings.Builder
		b.WriteString("{ ")
		var names []string
		for i, k := range comms {
			v := base + strconv.Itoa(i)
			switch {
			case k.send != nil:
				fmt.Fprintf(&b, "%s := zzsim.SendCase(%s); %s.Set(%s); ", v, r.node(k.send.Chan, self), v, r.node(k.send.Value, self))
				names = append(names, v)
			case k.recv != nil:
				fmt.Fprintf(&b, "%s := zzsim.RecvCase(%s); ", v, r.node(k.recv.X, self))
				names = append(names, v)
			}
		}
		fmt.Fprintf(&b, "switch zzsim.Select(%v, %s) { ", hasDefault, strings.Join(names, ", "))
		idx := 0
		for i, k := range comms {
			if k.send == nil && k.recv == nil {
				b.WriteString("case -1: ")
			} else {
				fmt.Fprintf(&b, "case %d: ", idx)
				idx++
			}
			v := base + strconv.Itoa(i)
			if len(k.lhs) == 1 {
				fmt.Fprintf(&b, "%s %s %s.Val; ", r.node(k.lhs[0], self), k.tok, v)
			} else if len(k.lhs) == 2 {
				fmt.Fprintf(&b, "%s, %s %s %s.Val, %s.Ok; ", r.node(k.lhs[0], self), r.node(k.lhs[1], self), k.tok, v, v)
			}
			lo := r.off(k.clause.Colon) + 1
			hi := r.off(k.clause.End())
			if i+1 < len(comms) {
				hi = r.off(comms[i+1].clause.Pos())
			} else {
				hi = r.off(n.Body.Rbrace)
			}
			b.WriteString(r.render(lo, hi, self))
			b.WriteString("\n")
		}
		b.WriteString("default: panic(\"unreachable\") } }")
		return b.String()
	})
}

func (r *rewriter) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		r.sim = true
		r.yields++
		r.insert(s.Pos(), "if zzsim.Multi { zzsim.Y() }; ")
	}
}
