// instr rewrites Go packages so that everything that synchronizes goes through
// verif.local/mbv/vsched and its shims. It writes the rewritten files to a
// scratch directory and an overlay file for go build.
//
// usage: instr -mod DIR -out DIR -repo MODULEPATH pkg...
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const mbv = "verif.local/mbv/"

// import substitutions for the standard library and third-party code
var subst = map[string]string{
	"sync":                           mbv + "vsync",
	"sync/atomic":                    mbv + "vatomic",
	"context":                        mbv + "vctx",
	"time":                           mbv + "vtime",
	"runtime":                        mbv + "vruntime",
	"github.com/panjf2000/ants/v2":   mbv + "shim/ants",
	"golang.org/x/sync/singleflight": mbv + "inst/singleflight",
	"golang.org/x/sync/errgroup":     mbv + "inst/errgroup",
	"golang.org/x/sync/semaphore":    mbv + "inst/semaphore",
}

// third-party packages copied (instrumented) into the module under inst/
var copied = map[string]string{
	"golang.org/x/sync/singleflight": "inst/singleflight",
	"golang.org/x/sync/errgroup":     "inst/errgroup",
	"golang.org/x/sync/semaphore":    "inst/semaphore",
}

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	ImportMap  map[string]string
	Standard   bool
	Module     *struct{ Path, GoVersion string }
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	mod := flag.String("mod", ".", "module directory")
	out := flag.String("out", "", "output directory")
	repo := flag.String("repo", "github.com/chenquan/go-pkg", "module under test")
	flag.Parse()
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,GoFiles,ImportMap,Standard,Module"}, flag.Args()...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *mod
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	pkgs := map[string]*listPkg{}
	var order []*listPkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		pkgs[p.ImportPath] = p
		order = append(order, p)
	}
	overlay := map[string]string{}
	absmod, _ := filepath.Abs(*mod)
	n := 0
	for _, p := range order {
		if p.Standard || p.Module == nil {
			continue
		}
		inRepo := p.Module.Path == *repo
		drv := strings.HasPrefix(p.ImportPath, mbv+"drivers/")
		cp := copied[p.ImportPath]
		if !inRepo && !drv && cp == "" {
			continue
		}
		files := instrument(p, pkgs, inRepo)
		for i, src := range files {
			n++
			dst := filepath.Join(*out, fmt.Sprintf("f%03d_%s", n, p.GoFiles[i]))
			if err := os.WriteFile(dst, src, 0o644); err != nil {
				die("%v", err)
			}
			target := filepath.Join(p.Dir, p.GoFiles[i])
			if cp != "" {
				target = filepath.Join(absmod, cp, p.GoFiles[i])
			}
			overlay[target] = dst
		}
	}
	ob, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), ob, 0o644); err != nil {
		die("%v", err)
	}
}

type inst struct {
	fset   *token.FileSet
	info   *types.Info
	pkg    *types.Package
	yield  bool
	n      int
	used   bool
	errs   []string
	shared map[types.Object]bool
}

func goVer(p *listPkg) int {
	v := p.Module.GoVersion
	if v == "" {
		return 21
	}
	parts := strings.Split(v, ".")
	if len(parts) < 2 {
		return 21
	}
	m, _ := strconv.Atoi(parts[1])
	if m < 21 {
		m = 21
	}
	return m
}

func instrument(p *listPkg, pkgs map[string]*listPkg, repo bool) [][]byte {
	fset := token.NewFileSet()
	var files []*ast.File
	var cons []string
	for _, f := range p.GoFiles {
		name := filepath.Join(p.Dir, f)
		af, err := parser.ParseFile(fset, name, nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		con := ""
		for _, cg := range af.Comments {
			for _, c := range cg.List {
				if c.Pos() < af.Package && constraint.IsGoBuild(c.Text) {
					con = c.Text
				}
			}
		}
		cons = append(cons, con)
		af.Comments = nil
		stripDocs(af)
		files = append(files, af)
	}
	lookup := func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		q := pkgs[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(q.Export)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{},
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), Error: func(error) {}}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("type checking %s: %v", p.ImportPath, err)
	}
	var out [][]byte
	for i, f := range files {
		in := &inst{fset: fset, info: info, pkg: tp, yield: repo}
		in.findShared(f)
		in.file(f)
		var resets []ast.Stmt
		if repo {
			resets = in.resets(f, info)
		}
		for _, e := range in.errs {
			die("%s: %s", p.GoFiles[i], e)
		}
		src := in.render(f, cons[i], goVer(p), resets)
		out = append(out, src)
	}
	return out
}

func stripDocs(f *ast.File) {
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
}

// resets builds statements restoring package-level variables to their initial
// values so that every controlled run starts from the same state.
func (in *inst) resets(f *ast.File, info *types.Info) []ast.Stmt {
	var out []ast.Stmt
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			vs := s.(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					if n.Name != "_" {
						out = append(out, expr(call(sel("mbvSched", "Zero"), &ast.UnaryExpr{Op: token.AND, X: id(n.Name)})))
					}
				}
				continue
			}
			if len(vs.Values) != len(vs.Names) {
				continue
			}
			for i, n := range vs.Names {
				if n.Name == "_" {
					continue
				}
				if fresh(vs.Values[i]) {
					asg := &ast.AssignStmt{Lhs: []ast.Expr{id(n.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{vs.Values[i]}}
					out = append(out, expr(call(sel("mbvSched", "OnReset"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{asg}}})))
					continue
				}
				if o := info.Defs[n]; o != nil && holdsState(o.Type()) {
					out = append(out, expr(call(sel("mbvSched", "Restore"), &ast.UnaryExpr{Op: token.AND, X: id(n.Name)})))
				}
			}
		}
	}
	return out
}

// fresh: initializers that build a new object each time they are evaluated.
func fresh(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.CompositeLit:
		return true
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			_, ok := x.X.(*ast.CompositeLit)
			return ok
		}
	case *ast.CallExpr:
		if f, ok := x.Fun.(*ast.Ident); ok {
			return f.Name == "make" || f.Name == "new"
		}
	case *ast.ParenExpr:
		return fresh(x.X)
	}
	return false
}

// holdsState: variables worth restoring are those with shallow state of their
// own (numbers, structs, maps); pointers and interfaces are left alone.
func holdsState(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Map, *types.Slice, *types.Array:
		return true
	case *types.Struct:
		return false
	}
	return false
}

func (in *inst) errf(f string, a ...any) { in.errs = append(in.errs, fmt.Sprintf(f, a...)) }

func (in *inst) render(f *ast.File, con string, ver int, resets []ast.Stmt) []byte {
	// imports
	for _, s := range f.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		if to, ok := subst[path]; ok {
			if s.Name == nil {
				base := path[strings.LastIndex(path, "/")+1:]
				if path == "github.com/panjf2000/ants/v2" {
					base = "ants"
				}
				s.Name = id(base)
			}
			s.Path.Value = strconv.Quote(to)
		}
	}
	if len(resets) > 0 {
		f.Decls = append(f.Decls, &ast.FuncDecl{
			Name: id("init"), Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: resets},
		})
		in.used = true
	}
	var buf bytes.Buffer
	v := fmt.Sprintf("go1.%d", ver)
	if con != "" {
		fmt.Fprintf(&buf, "//go:build (%s) && %s\n\n", strings.TrimSpace(strings.TrimPrefix(con, "//go:build")), v)
	} else {
		fmt.Fprintf(&buf, "//go:build %s\n\n", v)
	}
	if in.used {
		g := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: id("mbvSched"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(mbv + "vsched")}}}}
		f.Decls = append([]ast.Decl{g}, f.Decls...)
	}
	clearPos(f)
	if err := format.Node(&buf, token.NewFileSet(), f); err != nil {
		die("print %s: %v", f.Name.Name, err)
	}
	return buf.Bytes()
}

func id(s string) *ast.Ident                       { return ast.NewIdent(s) }
func sel(p, n string) *ast.SelectorExpr            { return &ast.SelectorExpr{X: id(p), Sel: id(n)} }
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }
func expr(e ast.Expr) ast.Stmt                     { return &ast.ExprStmt{X: e} }
func define(lhs []ast.Expr, rhs ...ast.Expr) *ast.AssignStmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
}

func (in *inst) vs(n string) ast.Expr {
	in.used = true
	return sel("mbvSched", n)
}

func (in *inst) tmp(p string) *ast.Ident {
	in.n++
	return id(fmt.Sprintf("v_%s%d", p, in.n))
}

func (in *inst) file(f *ast.File) {
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Body != nil {
				in.block(x.Body)
			}
		case *ast.GenDecl:
			in.genDecl(x)
		}
	}
}

func (in *inst) genDecl(x *ast.GenDecl) {
	for _, s := range x.Specs {
		vs, ok := s.(*ast.ValueSpec)
		if !ok {
			continue
		}
		if len(vs.Names) == 2 && len(vs.Values) == 1 {
			if u := in.recvOf(vs.Values[0]); u != nil {
				vs.Values[0] = call(in.vs("Recv2"), in.expr(u.X))
				continue
			}
		}
		for i := range vs.Values {
			vs.Values[i] = in.expr(vs.Values[i])
		}
	}
}

func (in *inst) recvOf(e ast.Expr) *ast.UnaryExpr {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (in *inst) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = in.stmts(b.List)
	}
}

func (in *inst) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		y := in.yield && in.wantYield(s)
		ns := in.stmt(s)
		if y {
			out = append(out, expr(call(in.vs("Yield"))))
		}
		out = append(out, ns)
	}
	return out
}

// wantYield decides whether a scheduling point goes before s: statements that
// may touch shared memory and do not synchronize themselves.
func (in *inst) wantYield(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.EmptyStmt, *ast.BranchStmt, *ast.DeclStmt, *ast.BlockStmt, *ast.SelectStmt, *ast.GoStmt, *ast.SendStmt, *ast.DeferStmt:
		return false
	case *ast.LabeledStmt:
		return false
	case *ast.ForStmt, *ast.RangeStmt:
		return false
	case *ast.IfStmt:
		return touch(in, x.Init) || touchE(in, x.Cond)
	case *ast.SwitchStmt:
		return touch(in, x.Init) || touchE(in, x.Tag)
	case *ast.TypeSwitchStmt:
		return touch(in, x.Init) || touch(in, x.Assign)
	}
	return touch(in, s)
}

func touchE(in *inst, e ast.Expr) bool {
	if e == nil {
		return false
	}
	return touchN(in, e)
}

func touch(in *inst, s ast.Stmt) bool {
	if s == nil {
		return false
	}
	return touchN(in, s)
}

func touchN(in *inst, n ast.Node) bool {
	mem, syncs := false, false
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.SelectorExpr:
			if i, ok := x.X.(*ast.Ident); ok {
				if pn, ok := in.info.Uses[i].(*types.PkgName); ok {
					switch pn.Imported().Path() {
					case "sync", "sync/atomic":
						syncs = true
					}
					return false
				}
			}
			if s := in.info.Selections[x]; s != nil && s.Kind() != types.FieldVal {
				if o := s.Obj(); o.Pkg() != nil && (o.Pkg().Path() == "sync" || o.Pkg().Path() == "sync/atomic") {
					syncs = true
				}
			}
			mem = true
		case *ast.IndexExpr, *ast.StarExpr, *ast.SliceExpr:
			mem = true
		case *ast.Ident:
			if v, ok := in.info.Uses[x].(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
				mem = true
			}
			if v, ok := in.info.Uses[x].(*types.Var); ok && in.captured(v) {
				mem = true
			}
		case *ast.CallExpr:
			// a function value: often the user's, whose effects are visible
			if f, ok := x.Fun.(*ast.Ident); ok {
				if _, ok := in.info.Uses[f].(*types.Var); ok {
					mem = true
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				syncs = true
			}
		}
		return true
	})
	return mem && !syncs
}

// captured: locals that function literals share with their surroundings and
// that change after their declaration.
func (in *inst) captured(v *types.Var) bool { return in.shared[v] }

// findShared collects the locals captured by a nested function literal that
// are assigned to after their declaration.
func (in *inst) findShared(f *ast.File) {
	in.shared = map[types.Object]bool{}
	caught, written := map[types.Object]bool{}, map[types.Object]bool{}
	var lits []*ast.FuncLit
	root := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.Ident:
				if o := in.info.Uses[x]; o != nil {
					written[o] = true
				}
			}
			return
		}
	}
	var stack []ast.Node
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			if _, ok := stack[len(stack)-1].(*ast.FuncLit); ok {
				lits = lits[:len(lits)-1]
			}
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		switch x := n.(type) {
		case *ast.FuncLit:
			lits = append(lits, x)
		case *ast.Ident:
			v, ok := in.info.Uses[x].(*types.Var)
			if ok && !v.IsField() && len(lits) > 0 {
				if l := lits[len(lits)-1]; v.Pos() < l.Pos() || v.Pos() >= l.End() {
					if v.Pkg() != nil && v.Parent() != v.Pkg().Scope() {
						caught[v] = true
					}
				}
			}
		case *ast.AssignStmt:
			for _, e := range x.Lhs {
				root(e)
			}
		case *ast.IncDecStmt:
			root(x.X)
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				root(x.X)
			}
		case *ast.RangeStmt:
			if x.Tok == token.ASSIGN {
				root(x.Key)
				root(x.Value)
			}
		}
		return true
	})
	for o := range caught {
		if written[o] {
			in.shared[o] = true
		}
	}
}

func (in *inst) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		in.block(x)
	case *ast.ExprStmt:
		x.X = in.expr(x.X)
	case *ast.SendStmt:
		return expr(call(call(in.vs("Send"), in.expr(x.Chan)), in.expr(x.Value)))
	case *ast.IncDecStmt:
		x.X = in.expr(x.X)
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u := in.recvOf(x.Rhs[0]); u != nil {
				x.Rhs[0] = call(in.vs("Recv2"), in.expr(u.X))
				for i := range x.Lhs {
					x.Lhs[i] = in.expr(x.Lhs[i])
				}
				return x
			}
		}
		for i := range x.Lhs {
			x.Lhs[i] = in.expr(x.Lhs[i])
		}
		for i := range x.Rhs {
			x.Rhs[i] = in.expr(x.Rhs[i])
		}
	case *ast.GoStmt:
		return in.goStmt(x)
	case *ast.DeferStmt:
		e := in.expr(x.Call)
		if c, ok := e.(*ast.CallExpr); ok {
			x.Call = c
		} else {
			in.errf("defer of rewritten expression")
		}
	case *ast.ReturnStmt:
		for i := range x.Results {
			x.Results[i] = in.expr(x.Results[i])
		}
	case *ast.IfStmt:
		x.Init = in.stmt(x.Init)
		x.Cond = in.expr(x.Cond)
		in.block(x.Body)
		if x.Else != nil {
			x.Else = in.stmt(x.Else)
			if b, ok := x.Else.(*ast.BlockStmt); !ok {
				if _, ok := x.Else.(*ast.IfStmt); !ok {
					x.Else = &ast.BlockStmt{List: []ast.Stmt{b}}
				}
			}
		}
	case *ast.SwitchStmt:
		x.Init = in.stmt(x.Init)
		if x.Tag != nil {
			x.Tag = in.expr(x.Tag)
		}
		in.clauses(x.Body)
	case *ast.TypeSwitchStmt:
		x.Init = in.stmt(x.Init)
		x.Assign = in.stmt(x.Assign)
		in.clauses(x.Body)
	case *ast.SelectStmt:
		return in.selectStmt(x, nil)
	case *ast.LabeledStmt:
		if ss, ok := x.Stmt.(*ast.SelectStmt); ok {
			return in.selectStmt(ss, x)
		}
		x.Stmt = in.stmt(x.Stmt)
	case *ast.ForStmt:
		x.Init = in.stmt(x.Init)
		if x.Cond != nil {
			x.Cond = in.expr(x.Cond)
		}
		x.Post = in.stmt(x.Post)
		in.block(x.Body)
		in.loopYield(x.Body)
	case *ast.RangeStmt:
		return in.rangeStmt(x)
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			in.genDecl(g)
		}
	}
	return s
}

func (in *inst) loopYield(b *ast.BlockStmt) {
	if !in.yield {
		return
	}
	if len(b.List) > 0 {
		if e, ok := b.List[0].(*ast.ExprStmt); ok {
			if c, ok := e.X.(*ast.CallExpr); ok {
				if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Yield" {
					return
				}
			}
		}
	}
	b.List = append([]ast.Stmt{expr(call(in.vs("LoopYield")))}, b.List...)
}

func (in *inst) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		if cc, ok := c.(*ast.CaseClause); ok {
			for i := range cc.List {
				cc.List[i] = in.expr(cc.List[i])
			}
			cc.Body = in.stmts(cc.Body)
		}
	}
}

func (in *inst) constantLike(e ast.Expr) bool {
	tv, ok := in.info.Types[e]
	if !ok {
		return false
	}
	return tv.Value != nil || tv.IsNil()
}

func (in *inst) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	// go func(){...}()
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		isVoid := fl.Type.Results == nil || len(fl.Type.Results.List) == 0
		if isVoid {
			return expr(call(in.vs("Go"), in.expr(fl)))
		}
	}
	var pre []ast.Stmt
	fun := c.Fun
	builtin := false
	if tv, ok := in.info.Types[c.Fun]; ok && tv.IsBuiltin() {
		builtin = true
	}
	var inner ast.Expr
	args := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		if in.constantLike(a) {
			args[i] = a
			continue
		}
		v := in.tmp("a")
		pre = append(pre, define([]ast.Expr{v}, in.expr(a)))
		args[i] = v
	}
	if builtin {
		nc := &ast.CallExpr{Fun: fun, Args: args}
		if f, ok := fun.(*ast.Ident); ok && f.Name == "close" {
			inner = call(in.vs("Close"), args...)
		} else {
			inner = nc
		}
	} else {
		v := in.tmp("f")
		pre = append([]ast.Stmt{define([]ast.Expr{v}, in.expr(fun))}, pre...)
		nc := &ast.CallExpr{Fun: v, Args: args}
		if c.Ellipsis != token.NoPos {
			nc.Ellipsis = 1
		}
		inner = nc
	}
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{expr(inner)}}}
	pre = append(pre, expr(call(in.vs("Go"), body)))
	return &ast.BlockStmt{List: pre}
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (in *inst) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	t := in.info.Types[x.X].Type
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		i, ok := e.(*ast.Ident)
		return ok && i.Name == "_"
	}
	if isChan(t) {
		src := in.expr(x.X)
		in.block(x.Body)
		rc, v, ok := in.tmp("c"), in.tmp("v"), in.tmp("ok")
		f := &ast.ForStmt{Body: x.Body}
		pre := []ast.Stmt{}
		brk := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
		if blank(x.Key) {
			f.Init = define([]ast.Expr{rc, id("_")}, call(in.vs("RangeInit"), src))
			pre = append(pre, define([]ast.Expr{id("_"), ok}, call(in.vs("Recv2"), rc)), brk)
		} else {
			if x.Tok == token.DEFINE {
				f.Init = define([]ast.Expr{rc, x.Key}, call(in.vs("RangeInit"), src))
			} else {
				f.Init = define([]ast.Expr{rc, id("_")}, call(in.vs("RangeInit"), src))
			}
			pre = append(pre, define([]ast.Expr{v, ok}, call(in.vs("Recv2"), rc)), brk,
				&ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
		}
		f.Body.List = append(pre, f.Body.List...)
		return f
	}
	if _, ok := t.Underlying().(*types.Map); ok {
		src := in.expr(x.X)
		in.block(x.Body)
		it := in.tmp("it")
		f := &ast.ForStmt{Body: x.Body, Cond: call(&ast.SelectorExpr{X: it, Sel: id("Next")})}
		k, v := ast.Expr(id("_")), ast.Expr(id("_"))
		if !blank(x.Key) {
			k = x.Key
		}
		if !blank(x.Value) {
			v = x.Value
		}
		if x.Tok == token.DEFINE {
			f.Init = define([]ast.Expr{it, k, v}, call(in.vs("MapIter"), src))
		} else {
			f.Init = define([]ast.Expr{it, id("_"), id("_")}, call(in.vs("MapIter"), src))
		}
		var pre []ast.Stmt
		if !blank(x.Key) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{k}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.SelectorExpr{X: it, Sel: id("K")}}})
		}
		if !blank(x.Value) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.SelectorExpr{X: it, Sel: id("V")}}})
		}
		in.loopYield(f.Body)
		f.Body.List = append(pre, f.Body.List...)
		return f
	}
	x.X = in.expr(x.X)
	if x.Tok != token.DEFINE {
		if x.Key != nil {
			x.Key = in.expr(x.Key)
		}
		if x.Value != nil {
			x.Value = in.expr(x.Value)
		}
	}
	in.block(x.Body)
	in.loopYield(x.Body)
	return x
}

func (in *inst) selectStmt(x *ast.SelectStmt, label *ast.LabeledStmt) ast.Stmt {
	if len(x.Body.List) == 0 {
		return &ast.BlockStmt{List: []ast.Stmt{expr(call(in.vs("Block"))), expr(call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}))}}
	}
	hasDef := "false"
	for _, c := range x.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			hasDef = "true"
		}
	}
	s := in.tmp("s")
	list := []ast.Stmt{define([]ast.Expr{s}, call(in.vs("NewSelect"), id(hasDef)))}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}, Tag: call(&ast.SelectorExpr{X: s, Sel: id("Do")})}
	n := 0
	last := -1
	for i, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		body := in.stmts(cc.Body)
		nc := &ast.CaseClause{}
		switch cm := cc.Comm.(type) {
		case nil:
			nc.Body = body
			sw.Body.List = append(sw.Body.List, nc)
			continue
		case *ast.SendStmt:
			list = append(list, expr(call(call(in.vs("AddSend"), s, in.expr(cm.Chan)), in.expr(cm.Value))))
		case *ast.ExprStmt:
			u := in.recvOf(cm.X)
			if u == nil {
				in.errf("select: unexpected receive")
				return x
			}
			list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{call(in.vs("AddRecv"), s, in.expr(u.X))}})
		case *ast.AssignStmt:
			u := in.recvOf(cm.Rhs[0])
			if u == nil {
				in.errf("select: unexpected receive")
				return x
			}
			rc := in.tmp("rc")
			list = append(list, define([]ast.Expr{rc}, call(in.vs("AddRecv"), s, in.expr(u.X))))
			as := &ast.AssignStmt{Tok: cm.Tok}
			for j, l := range cm.Lhs {
				if cm.Tok != token.DEFINE {
					l = in.expr(l)
				}
				as.Lhs = append(as.Lhs, l)
				f := "V"
				if j == 1 {
					f = "Ok"
				}
				as.Rhs = append(as.Rhs, &ast.SelectorExpr{X: rc, Sel: id(f)})
			}
			allBlank := true
			for _, l := range as.Lhs {
				if i, ok := l.(*ast.Ident); !ok || i.Name != "_" {
					allBlank = false
				}
			}
			if allBlank {
				as.Tok = token.ASSIGN
			}
			body = append([]ast.Stmt{as}, body...)
		default:
			in.errf("select: unexpected clause")
			return x
		}
		nc.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}
		n++
		nc.Body = body
		last = i
		sw.Body.List = append(sw.Body.List, nc)
	}
	if hasDef == "false" && last >= 0 {
		sw.Body.List[last].(*ast.CaseClause).List = nil
	}
	var fin ast.Stmt = sw
	if label != nil {
		label.Stmt = sw
		fin = label
	}
	list = append(list, fin)
	return &ast.BlockStmt{List: list}
}

func (in *inst) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.FuncLit:
		in.block(x.Body)
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return call(in.vs("Recv"), in.expr(x.X))
		}
		x.X = in.expr(x.X)
	case *ast.ParenExpr:
		x.X = in.expr(x.X)
	case *ast.BinaryExpr:
		x.X, x.Y = in.expr(x.X), in.expr(x.Y)
	case *ast.StarExpr:
		x.X = in.expr(x.X)
	case *ast.SelectorExpr:
		x.X = in.expr(x.X)
	case *ast.IndexExpr:
		x.X, x.Index = in.expr(x.X), in.expr(x.Index)
	case *ast.SliceExpr:
		x.X = in.expr(x.X)
		if x.Low != nil {
			x.Low = in.expr(x.Low)
		}
		if x.High != nil {
			x.High = in.expr(x.High)
		}
		if x.Max != nil {
			x.Max = in.expr(x.Max)
		}
	case *ast.TypeAssertExpr:
		x.X = in.expr(x.X)
	case *ast.KeyValueExpr:
		x.Value = in.expr(x.Value)
		if _, ok := x.Key.(*ast.Ident); !ok {
			x.Key = in.expr(x.Key)
		}
	case *ast.CompositeLit:
		for i := range x.Elts {
			x.Elts[i] = in.expr(x.Elts[i])
		}
	case *ast.CallExpr:
		if tv, ok := in.info.Types[x.Fun]; ok && tv.IsBuiltin() {
			if f, ok := x.Fun.(*ast.Ident); ok {
				switch f.Name {
				case "close":
					return call(in.vs("Close"), in.expr(x.Args[0]))
				case "len":
					if isChan(in.info.Types[x.Args[0]].Type) {
						return call(in.vs("Len"), in.expr(x.Args[0]))
					}
				}
			}
		}
		if _, ok := in.info.Types[x.Fun]; ok && in.info.Types[x.Fun].IsType() {
			for i := range x.Args {
				x.Args[i] = in.expr(x.Args[i])
			}
			return x
		}
		x.Fun = in.expr(x.Fun)
		for i := range x.Args {
			x.Args[i] = in.expr(x.Args[i])
		}
	}
	return e
}

// clearPos removes positions so that the printer lays the file out afresh.
func clearPos(f *ast.File) { zeroPos(f) }

var _ = sort.Strings
