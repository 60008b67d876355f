// Command instrument copies the non-test Go sources of a module into a scratch
// module and rewrites every source of nondeterminism (goroutines, channels,
// select, sync, atomics, time, contexts, randomness, map iteration) so that it
// goes through the controlled runtime in zzverif/vs.  It knows nothing about
// the module's own code.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

var shimmed = map[string]string{
	"sync":               "vsync",
	"sync/atomic":        "vatomic",
	"time":               "vtime",
	"context":            "vcontext",
	"crypto/rand":        "vrand",
	"math/rand":          "vmrand",
	"math/rand/v2":       "vmrand2",
	"runtime":            "vruntime",
	"os/signal":          "vsignal",
	"go.uber.org/atomic": "vuatomic",
}

// hooked functions ask vs.Hook first, which may answer in their place
var hooked = map[string]string{}

var pkgName = map[string]string{
	"sync": "sync", "sync/atomic": "atomic", "time": "time", "context": "context",
	"crypto/rand": "rand", "math/rand": "rand", "math/rand/v2": "rand", "runtime": "runtime", "os/signal": "signal", "go.uber.org/atomic": "atomic",
}

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	DepOnly    bool
	Error      *struct{ Err string }
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "instrument: "+format+"\n", a...)
	os.Exit(3)
}

func main() {
	src := flag.String("src", "/repo", "module root")
	out := flag.String("out", "", "output module root")
	lib := flag.String("lib", "", "directory copied to <out>/zzverif")
	hooks := flag.String("hooks", "", "functions (package path in the module.Func or .Type.Method, comma separated) whose calls go through vs.Hook")
	plain := flag.Bool("plain", false, "copy without rewriting")
	flag.Parse()
	if *out == "" || *lib == "" {
		die("need -out and -lib")
	}
	modBytes, err := os.ReadFile(filepath.Join(*src, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	module := ""
	for _, l := range strings.Split(string(modBytes), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			module = f[1]
		}
	}
	must(os.MkdirAll(*out, 0o755))
	must(os.WriteFile(filepath.Join(*out, "go.mod"), modBytes, 0o644))
	if b, err := os.ReadFile(filepath.Join(*src, "go.sum")); err == nil {
		must(os.WriteFile(filepath.Join(*out, "go.sum"), b, 0o644))
	}
	for _, h := range strings.Split(*hooks, ",") {
		if h != "" {
			hooked[module+"/"+h] = h
		}
	}
	copyLib(*lib, filepath.Join(*out, "zzverif"), module)

	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,DepOnly,Error", "./...")
	cmd.Dir = *src
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var mine []*listPkg
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if !p.Standard && (p.ImportPath == module || strings.HasPrefix(p.ImportPath, module+"/")) {
			q := p
			mine = append(mine, &q)
		}
	}
	stats := &stats{}
	for _, p := range mine {
		if len(p.GoFiles) == 0 {
			continue
		}
		rel, err := filepath.Rel(*src, p.Dir)
		if err != nil {
			die("%v", err)
		}
		dst := filepath.Join(*out, rel)
		must(os.MkdirAll(dst, 0o755))
		// embedded and other side files
		ents, _ := os.ReadDir(p.Dir)
		for _, e := range ents {
			if !e.IsDir() && !strings.HasSuffix(e.Name(), ".go") {
				if b, err := os.ReadFile(filepath.Join(p.Dir, e.Name())); err == nil && rel != "." {
					must(os.WriteFile(filepath.Join(dst, e.Name()), b, 0o644))
				}
			}
		}
		if *plain {
			for _, f := range p.GoFiles {
				b, err := os.ReadFile(filepath.Join(p.Dir, f))
				must(err)
				must(os.WriteFile(filepath.Join(dst, f), b, 0o644))
			}
			continue
		}
		rewritePackage(p, dst, module, exports, stats)
	}
	fmt.Printf("instrumented packages=%d files=%d go=%d chanops=%d selects=%d mapranges=%d imports=%d\n",
		stats.pkgs, stats.files, stats.gos, stats.chans, stats.selects, stats.maps, stats.imports)
}

type stats struct{ pkgs, files, gos, chans, selects, maps, imports int }

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func copyLib(lib, dst, module string) {
	must(filepath.WalkDir(lib, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(lib, p)
		t := filepath.Join(dst, rel)
		if d.IsDir() {
			return os.MkdirAll(t, 0o755)
		}
		if !strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, ".s") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(t, bytes.ReplaceAll(b, []byte("MODULE/"), []byte(module+"/")), 0o644)
	}))
}

func rewritePackage(p *listPkg, dst, module string, exports map[string]string, st *stats) {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		// comments are dropped except build constraints and directives
		file, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			die("parse: %v", err)
		}
		files = append(files, file)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{Importer: imp, Error: func(error) {}}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		fmt.Fprintf(os.Stderr, "instrument: type check %s: %v\n", p.ImportPath, err)
	}
	st.pkgs++
	rs := planResets(files, info)
	for i, file := range files {
		r := &rewriter{fset: fset, info: info, st: st, module: module}
		r.file(file)
		r.hooks(p.ImportPath, file)
		if file.Name.Name == "main" {
			r.importable(file)
		}
		if r.used || r.importsTouched {
			addImport(file, r.used, module)
		}
		st.files++
		keep := keptComments(file)
		file.Comments = nil
		stripDocs(file)
		var buf bytes.Buffer
		buf.WriteString(keep)
		must(format.Node(&buf, fset, file))
		rs.emit(&buf, fset, file)
		must(os.WriteFile(filepath.Join(dst, p.GoFiles[i]), buf.Bytes(), 0o644))
	}
	if len(rs.order) > 0 {
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\nimport \"%s/zzverif/vs\"\n\nfunc init() { vs.OnReset(zzReset) }\n\nfunc zzReset() {\n", files[0].Name.Name, module)
		for _, n := range rs.order {
			fmt.Fprintf(&b, "\tzzReset%d()\n", n)
		}
		b.WriteString("}\n")
		must(os.WriteFile(filepath.Join(dst, "zz_reset.go"), []byte(b.String()), 0o644))
	}
}

// resets re-creates the package-level variables of a package, so that every
// explored execution starts from the state of a fresh process.
type resets struct {
	order []int
	specs map[*ast.File][]resetSpec
}

type resetSpec struct {
	n    int
	lhs  []*ast.Ident
	typ  ast.Expr // of variables without initializer
	spec *ast.ValueSpec
	val  int // index of the value; -1: none
}

func planResets(files []*ast.File, info *types.Info) *resets {
	rs := &resets{specs: map[*ast.File][]resetSpec{}}
	byVar := map[types.Object]int{}
	inits := false
	for _, f := range files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				inits = true
			}
		}
	}
	n := 0
	isErr := func(o types.Object) bool {
		return o != nil && types.Identical(o.Type(), types.Universe.Lookup("error").Type())
	}
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				v, ok := s.(*ast.ValueSpec)
				if !ok || g.Doc != nil && strings.Contains(fmt.Sprint(commentTexts(g.Doc)), "go:embed") || v.Doc != nil && strings.Contains(fmt.Sprint(commentTexts(v.Doc)), "go:embed") {
					continue
				}
				add := func(ids []*ast.Ident, val int) {
					all := true
					for _, id := range ids {
						if id.Name != "_" && !isErr(info.Defs[id]) {
							all = false
						}
					}
					if all { // error values are compared by identity
						return
					}
					n++
					rs.specs[f] = append(rs.specs[f], resetSpec{n: n, lhs: ids, typ: v.Type, spec: v, val: val})
					for _, id := range ids {
						if o := info.Defs[id]; o != nil {
							byVar[o] = n
						}
					}
					if val < 0 {
						rs.order = append(rs.order, n)
					}
				}
				switch {
				case len(v.Values) == 0:
					if !inits && v.Type != nil { // an init function may have set it
						add(v.Names, -1)
					}
				case len(v.Values) == len(v.Names):
					for i := range v.Names {
						add(v.Names[i:i+1], i)
					}
				default:
					add(v.Names, 0)
				}
			}
		}
	}
	seen := map[int]bool{}
	for _, in := range info.InitOrder {
		for _, l := range in.Lhs {
			if k := byVar[l]; k != 0 && !seen[k] {
				seen[k] = true
				rs.order = append(rs.order, k)
			}
		}
	}
	// only what InitOrder knows is emitted
	for f, l := range rs.specs {
		var out []resetSpec
		for _, x := range l {
			if x.val < 0 || seen[x.n] {
				out = append(out, x)
			}
		}
		rs.specs[f] = out
	}
	return rs
}

func commentTexts(g *ast.CommentGroup) (l []string) {
	for _, c := range g.List {
		l = append(l, c.Text)
	}
	return
}

// emit appends the reset functions of a (rewritten) file to its text.
func (rs *resets) emit(b *bytes.Buffer, fset *token.FileSet, f *ast.File) {
	for _, x := range rs.specs[f] {
		fmt.Fprintf(b, "\nfunc zzReset%d() {\n", x.n)
		if x.val < 0 {
			for _, id := range x.lhs {
				if id.Name != "_" {
					var t bytes.Buffer
					must(format.Node(&t, fset, x.typ))
					fmt.Fprintf(b, "\t%s = *new(%s)\n", id.Name, t.String())
				}
			}
		} else {
			var names []string
			for _, id := range x.lhs {
				names = append(names, id.Name)
			}
			var e bytes.Buffer
			must(format.Node(&e, fset, x.spec.Values[x.val]))
			fmt.Fprintf(b, "\t%s = %s\n", strings.Join(names, ", "), e.String())
		}
		b.WriteString("}\n")
	}
}

// keptComments returns the build constraints of the file. Other directives
// (go:embed, go:linkname) are not used by instrumentable code; go:embed is
// re-attached by stripDocs keeping directive-only doc comments.
func keptComments(f *ast.File) string {
	var b strings.Builder
	for _, g := range f.Comments {
		if g.Pos() >= f.Package {
			break
		}
		for _, c := range g.List {
			if constraint.IsGoBuild(c.Text) {
				b.WriteString(c.Text + "\n\n")
			}
		}
	}
	return b.String()
}

func stripDocs(f *ast.File) {
	f.Doc = nil
	keep := func(g *ast.CommentGroup) *ast.CommentGroup {
		if g == nil {
			return nil
		}
		var l []*ast.Comment
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:embed") {
				l = append(l, c)
			}
		}
		if len(l) == 0 {
			return nil
		}
		ng := &ast.CommentGroup{List: l}
		f.Comments = append(f.Comments, ng)
		return ng
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			n.Doc = keep(n.Doc)
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
}

func addImport(f *ast.File, vs bool, module string) {
	if !vs {
		return
	}
	spec := &ast.ImportSpec{Name: ast.NewIdent("zzvs"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(module + "/zzverif/vs")}}
	f.Imports = append(f.Imports, spec)
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			if !g.Lparen.IsValid() {
				g.Lparen = g.Pos()
				g.Rparen = g.End()
			}
			g.Specs = append(g.Specs, spec)
			return
		}
	}
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
}

type rewriter struct {
	fset           *token.FileSet
	info           *types.Info
	st             *stats
	module         string
	used           bool
	importsTouched bool
	n              int
}

func (r *rewriter) file(f *ast.File) {
	for _, s := range f.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		shim, ok := shimmed[path]
		if !ok {
			continue
		}
		if s.Name == nil {
			s.Name = ast.NewIdent(pkgName[path])
		}
		s.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r.module + "/zzverif/" + shim)}
		s.EndPos = 0
		r.st.imports++
		r.importsTouched = true
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				r.block(d.Body)
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				if v, ok := s.(*ast.ValueSpec); ok {
					if len(v.Names) == 2 && len(v.Values) == 1 {
						v.Values[0] = r.recv2(v.Values[0])
						continue
					}
					for i := range v.Values {
						v.Values[i] = r.expr(v.Values[i])
					}
				}
			}
		}
	}
}

// importable turns a file of a command into one of a package a harness can
// import: main becomes ZZMain.
func (r *rewriter) importable(f *ast.File) {
	f.Name.Name = "zzmain"
	ast.Inspect(f, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name == "main" {
			o := r.info.Uses[id]
			if o == nil {
				o = r.info.Defs[id]
			}
			if fn, ok := o.(*types.Func); ok && fn.Type().(*types.Signature).Recv() == nil {
				id.Name = "ZZMain"
			}
		}
		return true
	})
}

// hooks makes the hooked functions of the package ask vs.Hook first.
func (r *rewriter) hooks(path string, f *ast.File) {
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		name := fd.Name.Name
		if fd.Recv != nil && len(fd.Recv.List) == 1 {
			t := fd.Recv.List[0].Type
			if s, ok := t.(*ast.StarExpr); ok {
				t = s.X
			}
			if id, ok := t.(*ast.Ident); ok {
				name = id.Name + "." + name
			}
		}
		h, ok := hooked[path+"."+name]
		if !ok {
			continue
		}
		args := []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(h)}}
		fields := fd.Type.Params.List
		if fd.Recv != nil {
			fields = append(append([]*ast.Field{}, fd.Recv.List...), fields...)
		}
		for _, p := range fields {
			if len(p.Names) == 0 {
				p.Names = []*ast.Ident{r.tmp("p")}
			}
			for i, id := range p.Names {
				if id.Name == "_" {
					p.Names[i] = r.tmp("p")
				}
				args = append(args, ast.NewIdent(p.Names[i].Name))
			}
		}
		res := r.tmp("r")
		ret := &ast.ReturnStmt{}
		if fd.Type.Results != nil {
			for _, p := range fd.Type.Results.List {
				for range max(1, len(p.Names)) {
					ret.Results = append(ret.Results, &ast.CallExpr{
						Fun:  &ast.IndexExpr{X: r.vs("As"), Index: p.Type},
						Args: []ast.Expr{res, &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(ret.Results))}},
					})
				}
			}
		}
		fd.Body.List = append([]ast.Stmt{&ast.IfStmt{
			Init: define(res, r.call("Hook", args...)),
			Cond: &ast.BinaryExpr{X: res, Op: token.NEQ, Y: ast.NewIdent("nil")},
			Body: &ast.BlockStmt{List: []ast.Stmt{ret}},
		}}, fd.Body.List...)
	}
}

func (r *rewriter) vs(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("zzvs"), Sel: ast.NewIdent(name)}
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.vs(name), Args: args}
}

func (r *rewriter) tmp(p string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("zz%s%d", p, r.n))
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func (r *rewriter) isChan(e ast.Expr) bool {
	t := r.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) isMap(e ast.Expr) bool {
	t := r.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (r *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

// ---- expressions ----

func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	switch e := e.(type) {
	case *ast.FuncLit:
		r.block(e.Body)
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			r.st.chans++
			return r.call("Recv", r.expr(e.X))
		}
		e.X = r.expr(e.X)
	case *ast.BinaryExpr:
		e.X = r.expr(e.X)
		e.Y = r.expr(e.Y)
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
	case *ast.CallExpr:
		if len(e.Args) == 1 {
			for _, b := range []struct{ n, f string }{{"close", "Close"}, {"len", "ChanLen"}, {"cap", "ChanCap"}} {
				if r.isBuiltin(e.Fun, b.n) && r.isChan(e.Args[0]) {
					r.st.chans++
					return r.call(b.f, r.expr(e.Args[0]))
				}
			}
		}
		e.Fun = r.expr(e.Fun)
		r.exprs(e.Args)
	case *ast.SelectorExpr:
		if fn, ok := r.info.Uses[e.Sel].(*types.Func); ok && fn.FullName() == "os.Exit" {
			return r.vs("Exit")
		}
		e.X = r.expr(e.X)
	case *ast.IndexExpr:
		e.X = r.expr(e.X)
		e.Index = r.expr(e.Index)
	case *ast.IndexListExpr:
		e.X = r.expr(e.X)
	case *ast.SliceExpr:
		e.X = r.expr(e.X)
		e.Low = r.expr(e.Low)
		e.High = r.expr(e.High)
		e.Max = r.expr(e.Max)
	case *ast.StarExpr:
		e.X = r.expr(e.X)
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
	case *ast.KeyValueExpr:
		e.Key = r.expr(e.Key)
		e.Value = r.expr(e.Value)
	case *ast.CompositeLit:
		r.exprs(e.Elts)
	}
	return e
}

// recv2 rewrites the right-hand side of a two-value assignment.
func (r *rewriter) recv2(e ast.Expr) ast.Expr {
	if u, ok := ast.Unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		r.st.chans++
		return r.call("Recv2", r.expr(u.X))
	}
	return r.expr(e)
}

// ---- statements ----

func (r *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.stmts(b.List)
}

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	for i := range l {
		l[i] = r.stmt(l[i])
	}
	return l
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		r.block(s)
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.SendStmt:
		r.st.chans++
		return &ast.ExprStmt{X: r.call("Send", r.expr(s.Chan), r.expr(s.Value))}
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
	case *ast.AssignStmt:
		r.exprs(s.Lhs)
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			s.Rhs[0] = r.recv2(s.Rhs[0])
		} else {
			r.exprs(s.Rhs)
		}
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		if len(s.Call.Args) == 1 && r.isBuiltin(s.Call.Fun, "close") {
			s.Call = r.call("Close", r.expr(s.Call.Args[0]))
			return s
		}
		s.Call.Fun = r.expr(s.Call.Fun)
		r.exprs(s.Call.Args)
	case *ast.ReturnStmt:
		r.exprs(s.Results)
	case *ast.IfStmt:
		s.Init = r.stmt(s.Init)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		s.Else = r.stmt(s.Else)
	case *ast.CaseClause:
		r.exprs(s.List)
		s.Body = r.stmts(s.Body)
	case *ast.SwitchStmt:
		s.Init = r.stmt(s.Init)
		s.Tag = r.expr(s.Tag)
		r.block(s.Body)
	case *ast.TypeSwitchStmt:
		s.Init = r.stmt(s.Init)
		s.Assign = r.stmt(s.Assign)
		r.block(s.Body)
	case *ast.SelectStmt:
		return r.selectStmt(s, nil)
	case *ast.LabeledStmt:
		if sel, ok := s.Stmt.(*ast.SelectStmt); ok {
			return r.selectStmt(sel, s.Label)
		}
		s.Stmt = r.stmt(s.Stmt)
	case *ast.ForStmt:
		s.Init = r.stmt(s.Init)
		s.Cond = r.expr(s.Cond)
		s.Post = r.stmt(s.Post)
		r.block(s.Body)
	case *ast.RangeStmt:
		isC, isM := r.isChan(s.X), r.isMap(s.X)
		s.X = r.expr(s.X)
		switch {
		case isC:
			r.st.chans++
			s.X = r.call("RangeChan", s.X)
		case isM:
			r.st.maps++
			s.X = r.call("RangeMap", s.X)
		}
		r.block(s.Body)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					if len(v.Names) == 2 && len(v.Values) == 1 {
						v.Values[0] = r.recv2(v.Values[0])
					} else {
						r.exprs(v.Values)
					}
				}
			}
		}
	}
	return s
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	r.st.gos++
	c := s.Call
	if lit, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		r.block(lit.Body)
		if lit.Type.Results == nil || len(lit.Type.Results.List) == 0 {
			return &ast.ExprStmt{X: r.call("Go", lit)}
		}
	}
	var pre []ast.Stmt
	fun := c.Fun
	static := false
	switch f := ast.Unparen(fun).(type) {
	case *ast.Ident:
		switch r.info.Uses[f].(type) {
		case *types.Func, *types.Builtin:
			static = true
		}
	case *ast.SelectorExpr:
		if o, ok := r.info.Uses[f.Sel].(*types.Func); ok && o.Type().(*types.Signature).Recv() == nil {
			static = true
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		static = true
	}
	call := &ast.CallExpr{Ellipsis: c.Ellipsis}
	if static {
		if r.isBuiltin(fun, "close") {
			fun = r.vs("Close")
		}
		call.Fun = fun
	} else {
		id := r.tmp("f")
		pre = append(pre, define(id, r.expr(fun)))
		call.Fun = id
	}
	for _, a := range c.Args {
		tv, ok := r.info.Types[a]
		if ok && (tv.Value != nil || tv.IsNil()) {
			call.Args = append(call.Args, a)
			continue
		}
		id := r.tmp("a")
		pre = append(pre, define(id, r.expr(a)))
		call.Args = append(call.Args, id)
	}
	if call.Ellipsis.IsValid() {
		call.Ellipsis = 1
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}
	pre = append(pre, &ast.ExprStmt{X: r.call("Go", lit)})
	return &ast.BlockStmt{List: pre}
}

func define(id *ast.Ident, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	r.st.selects++
	if len(s.Body.List) == 0 {
		return &ast.BlockStmt{List: []ast.Stmt{
			&ast.ExprStmt{X: r.call("BlockForever")},
			&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}},
		}}
	}
	var pre []ast.Stmt
	var args []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDefault := false
	idx := 0
	nComm := 0
	for _, cl := range s.Body.List {
		if cl.(*ast.CommClause).Comm == nil {
			hasDefault = true
		} else {
			nComm++
		}
	}
	for _, cl := range s.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: r.stmts(cc.Body)})
			continue
		}
		id := r.tmp("c")
		out := &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}}
		if !hasDefault && idx == nComm-1 {
			out.List = nil
		}
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, define(id, r.call("CaseSend", r.expr(cm.Chan), r.expr(cm.Value))))
		case *ast.ExprStmt:
			u := ast.Unparen(cm.X).(*ast.UnaryExpr)
			pre = append(pre, define(id, r.call("CaseRecv", r.expr(u.X))))
		case *ast.AssignStmt:
			u := ast.Unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			pre = append(pre, define(id, r.call("CaseRecv", r.expr(u.X))))
			rhs := []ast.Expr{&ast.SelectorExpr{X: id, Sel: ast.NewIdent("V")}}
			if len(cm.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: id, Sel: ast.NewIdent("Ok")})
			}
			r.exprs(cm.Lhs)
			out.Body = append(out.Body, &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: rhs})
		}
		args = append(args, id)
		out.Body = append(out.Body, r.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, out)
		idx++
	}
	hd := "false"
	if hasDefault {
		hd = "true"
	}
	sw.Tag = r.call("Select", append([]ast.Expr{ast.NewIdent(hd)}, args...)...)
	var st ast.Stmt = sw
	if label != nil {
		st = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{List: append(pre, st)}
}
