// instr rewrites the non-test sources of the named packages of /repo so that every
// synchronisation, timer, goroutine and storage operation goes through the verification
// scheduler, and writes a build overlay. It changes no other behaviour.
//
// usage: instr -repo /repo -out DIR pkg/queue pkg/raft ...
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

type listPkg struct {
	Dir, ImportPath, Export, Name string
	GoFiles                       []string
	Error                         *struct{ Err string }
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	depOut := flag.String("depout", "", "directory for the instrumented library")
	stmts := flag.Bool("stmts", false, "make every statement a scheduling point")
	flag.Parse()
	pkgs := flag.Args()
	args := []string{"list", "-e", "-export", "-deps", "-json=Dir,ImportPath,Export,Name,GoFiles,Error"}
	for _, p := range pkgs {
		if d, ok := strings.CutPrefix(p, "dep:"); ok {
			args = append(args, d)
		} else {
			args = append(args, "./"+p)
		}
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	exports := map[string]string{}
	byDir, byPath := map[string]*listPkg{}, map[string]*listPkg{}
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("%v", err)
		}
		exports[p.ImportPath] = p.Export
		byDir[p.Dir] = &p
		byPath[p.ImportPath] = &p
	}
	overlay := map[string]string{}
	for _, pk := range pkgs {
		dir := filepath.Join(*repo, pk)
		lp := byDir[dir]
		d, dep := strings.CutPrefix(pk, "dep:")
		if dep { // a library, with its network and random numbers
			lp = byPath[d]
			if lp != nil {
				dir = lp.Dir
				b, err := os.ReadFile(filepath.Join(dir, "go.mod"))
				if err != nil { // from before modules
					b = []byte("module " + d + "\n\ngo 1.16\n")
				}
				if err := os.MkdirAll(filepath.Join(*depOut, d), 0o755); err != nil {
					fatal("%v", err)
				}
				if err := os.WriteFile(filepath.Join(*depOut, d, "go.mod"), b, 0o644); err != nil {
					fatal("%v", err)
				}
			}
		}
		if lp == nil {
			fatal("package %s not found", pk)
		}
		fset := token.NewFileSet()
		var files []*ast.File
		var names []string
		for _, f := range lp.GoFiles {
			fn := filepath.Join(dir, f)
			af, err := parser.ParseFile(fset, fn, nil, parser.ParseComments)
			if err != nil {
				fatal("%v", err)
			}
			files = append(files, af)
			names = append(names, fn)
		}
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		})
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
			Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		}
		conf := types.Config{Importer: imp, Error: func(err error) {}, GoVersion: "go1.22"}
		if _, err := conf.Check(lp.ImportPath, fset, files, info); err != nil {
			fatal("type check %s: %v", pk, err)
		}
		for i, f := range files {
			rw := &rewriter{info: info, fset: fset, points: *stmts && !dep, dep: dep}
			rw.file(f)
			var buf bytes.Buffer
			// Comments are dropped: positions no longer match and none has meaning here
			// (directives other than go:build in these packages do not exist).
			f.Comments = keepDirectives(f)
			if err := (&printer.Config{Mode: printer.TabIndent | printer.UseSpaces, Tabwidth: 8}).Fprint(&buf, token.NewFileSet(), strip(f)); err != nil {
				fatal("print %s: %v", names[i], err)
			}
			o := filepath.Join(*out, strings.NewReplacer("/", "_", ":", "_").Replace(pk)+"_"+filepath.Base(names[i]))
			if err := os.WriteFile(o, buf.Bytes(), 0o644); err != nil {
				fatal("%v", err)
			}
			if dep { // written as a module of its own: see run.sh
				if err := os.WriteFile(filepath.Join(*depOut, d, filepath.Base(names[i])), buf.Bytes(), 0o644); err != nil {
					fatal("%v", err)
				}
				continue
			}
			overlay[names[i]] = o
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
}

func keepDirectives(f *ast.File) []*ast.CommentGroup { return nil }

func strip(f *ast.File) *ast.File {
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
	f.Doc = nil
	return f
}

var importMap = map[string]string{
	"sync":        "vmc/v/vsync",
	"time":        "vmc/v/vtime",
	"sync/atomic": "vmc/v/vatomic",
}
var depImportMap = map[string]string{"net": "vmc/v/vnet", "math/rand": "vmc/v/vrand"}
var importName = map[string]string{"sync": "sync", "time": "time", "sync/atomic": "atomic"}

type rewriter struct {
	info     *types.Info
	fset     *token.FileSet
	useSched bool
	useDB    bool
	points   bool
	dep      bool
	n        int
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }
func sel(p, n string) ast.Expr {
	return &ast.SelectorExpr{X: id(p), Sel: id(n)}
}
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }

func (r *rewriter) tmp(p string) *ast.Ident {
	r.n++
	return id(fmt.Sprintf("__%s%d", p, r.n))
}
func (r *rewriter) sched(n string) ast.Expr { r.useSched = true; return sel("__sched", n) }
func (r *rewriter) db(n string) ast.Expr    { r.useDB = true; return sel("__vdb", n) }

func (r *rewriter) file(f *ast.File) {
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if r.dep {
			if np, ok := depImportMap[p]; ok {
				im.Path.Value = strconv.Quote(np)
				continue
			}
		}
		if np, ok := importMap[p]; ok {
			im.Path.Value = strconv.Quote(np)
			if im.Name == nil {
				im.Name = id(importName[p])
			}
		}
	}
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Body != nil {
				r.block(x.Body)
			}
		case *ast.GenDecl:
			for _, s := range x.Specs {
				if vs, ok := s.(*ast.ValueSpec); ok {
					for i := range vs.Values {
						vs.Values[i] = r.expr(vs.Values[i])
					}
				}
			}
		}
	}
	add := func(name, path string) {
		spec := &ast.ImportSpec{Name: id(name), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}}
		d := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		f.Decls = append([]ast.Decl{d}, f.Decls...)
	}
	if r.useSched {
		add("__sched", "vmc/sched")
	}
	if r.useDB {
		add("__vdb", "vmc/v/vbadger")
	}
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}
func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for i := range l {
		clause := false
		switch l[i].(type) {
		case *ast.CaseClause, *ast.CommClause:
			clause = true
		}
		l[i] = r.stmt(l[i])
		if r.points && !clause {
			out = append(out, &ast.ExprStmt{X: call(r.sched("P"))})
		}
		out = append(out, l[i])
	}
	return out
}
func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rewriter) isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	u, ok := e.(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		r.block(x)
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(r.sched("Send"), r.expr(x.Chan)), r.expr(x.Value))}
	case *ast.IncDecStmt:
		x.X = r.expr(x.X)
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := r.isRecv(x.Rhs[0]); ok {
				x.Rhs[0] = call(r.sched("Recv2"), r.expr(u.X))
				r.exprs(x.Lhs)
				return x
			}
		}
		r.exprs(x.Lhs)
		r.exprs(x.Rhs)
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok {
					if len(vs.Names) == 2 && len(vs.Values) == 1 {
						if u, ok := r.isRecv(vs.Values[0]); ok {
							vs.Values[0] = call(r.sched("Recv2"), r.expr(u.X))
							continue
						}
					}
					r.exprs(vs.Values)
				}
			}
		}
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		c := r.expr(x.Call)
		if cc, ok := c.(*ast.CallExpr); ok {
			x.Call = cc
		}
	case *ast.ReturnStmt:
		r.exprs(x.Results)
	case *ast.IfStmt:
		x.Init = r.stmt(x.Init)
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		x.Else = r.stmt(x.Else)
	case *ast.ForStmt:
		x.Init = r.stmt(x.Init)
		if x.Cond != nil {
			x.Cond = r.expr(x.Cond)
		}
		x.Post = r.stmt(x.Post)
		r.block(x.Body)
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	case *ast.SwitchStmt:
		x.Init = r.stmt(x.Init)
		if x.Tag != nil {
			x.Tag = r.expr(x.Tag)
		}
		r.block(x.Body)
	case *ast.TypeSwitchStmt:
		x.Init = r.stmt(x.Init)
		x.Assign = r.stmt(x.Assign)
		r.block(x.Body)
	case *ast.CaseClause:
		r.exprs(x.List)
		x.Body = r.stmts(x.Body)
	case *ast.LabeledStmt:
		x.Stmt = r.stmt(x.Stmt)
	case *ast.SelectStmt:
		return r.selectStmt(x)
	}
	return s
}

func (r *rewriter) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		r.block(fl.Body)
		return &ast.ExprStmt{X: call(r.sched("Go"), fl)}
	}
	var pre []ast.Stmt
	fun := c.Fun
	plain := true
	if tv, ok := r.info.Types[c.Fun]; ok && (tv.IsBuiltin() || tv.IsType()) {
		plain = false
	}
	fun = r.expr(fun)
	if plain {
		f := r.tmp("f")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{f}, Tok: token.DEFINE, Rhs: []ast.Expr{fun}})
		fun = f
	}
	nc := &ast.CallExpr{Fun: fun, Ellipsis: 0}
	if c.Ellipsis.IsValid() {
		nc.Ellipsis = 1
	}
	for _, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			nc.Args = append(nc.Args, a)
			continue
		}
		v := r.tmp("a")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(a)}})
		nc.Args = append(nc.Args, v)
	}
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}}
	pre = append(pre, &ast.ExprStmt{X: call(r.sched("Go"), body)})
	return &ast.BlockStmt{List: pre}
}

func (r *rewriter) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	t := r.info.Types[x.X].Type
	x.X = r.expr(x.X)
	r.block(x.Body)
	if t == nil {
		return x
	}
	isBlank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		i, ok := e.(*ast.Ident)
		return ok && i.Name == "_"
	}
	switch t.Underlying().(type) {
	case *types.Chan:
		ch, ok := r.tmp("ch"), r.tmp("ok")
		var l []ast.Stmt
		recv := call(r.sched("Recv2"), ch)
		if isBlank(x.Key) {
			l = append(l, &ast.AssignStmt{Lhs: []ast.Expr{id("_"), ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}})
			l = append(l, brk(ok))
		} else if x.Tok == token.DEFINE {
			l = append(l, &ast.AssignStmt{Lhs: []ast.Expr{x.Key, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}})
			l = append(l, brk(ok), use(x.Key))
		} else {
			v := r.tmp("v")
			l = append(l, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}})
			l = append(l, brk(ok), &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
		}
		l = append(l, x.Body)
		return &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{x.X}},
			Body: &ast.BlockStmt{List: l},
		}
	case *types.Map:
		e := r.tmp("e")
		l := []ast.Stmt{&ast.IfStmt{
			Cond: &ast.UnaryExpr{Op: token.NOT, X: call(&ast.SelectorExpr{X: e, Sel: id("Live")})},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}},
		}}
		if !isBlank(x.Key) {
			l = append(l, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: x.Tok, Rhs: []ast.Expr{&ast.SelectorExpr{X: e, Sel: id("K")}}})
			if x.Tok == token.DEFINE {
				l = append(l, use(x.Key))
			}
		}
		if !isBlank(x.Value) {
			l = append(l, &ast.AssignStmt{Lhs: []ast.Expr{x.Value}, Tok: x.Tok, Rhs: []ast.Expr{call(&ast.SelectorExpr{X: e, Sel: id("V")})}})
			if x.Tok == token.DEFINE {
				l = append(l, use(x.Value))
			}
		}
		l = append(l, x.Body)
		return &ast.RangeStmt{Key: id("_"), Value: e, Tok: token.DEFINE, X: call(r.sched("MapEntries"), x.X), Body: &ast.BlockStmt{List: l}}
	}
	return x
}

func use(e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{e}}
}

func brk(ok ast.Expr) ast.Stmt {
	return &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
}

func (r *rewriter) selectStmt(x *ast.SelectStmt) ast.Stmt {
	if len(x.Body.List) == 0 {
		return &ast.ExprStmt{X: call(r.sched("BlockForever"))}
	}
	hasDefault := false
	var lhs, rhs []ast.Expr
	var cases []ast.Stmt
	args := []ast.Expr{nil}
	idx := 0
	for _, cl := range x.Body.List {
		cc := cl.(*ast.CommClause)
		var body []ast.Stmt
		tag := ""
		switch c := cc.Comm.(type) {
		case nil:
			hasDefault = true
			tag = "-1"
		case *ast.SendStmt:
			v := r.tmp("s")
			lhs = append(lhs, v)
			rhs = append(rhs, call(call(r.sched("SendCase"), r.expr(c.Chan)), r.expr(c.Value)))
			args = append(args, v)
			tag = strconv.Itoa(idx)
			idx++
		default:
			v := r.tmp("r")
			var u *ast.UnaryExpr
			switch y := c.(type) {
			case *ast.ExprStmt:
				u, _ = r.isRecv(y.X)
			case *ast.AssignStmt:
				u, _ = r.isRecv(y.Rhs[0])
				vals := []ast.Expr{&ast.SelectorExpr{X: v, Sel: id("Val")}}
				if len(y.Lhs) == 2 {
					vals = append(vals, &ast.SelectorExpr{X: v, Sel: id("OK")})
				}
				r.exprs(y.Lhs)
				body = append(body, &ast.AssignStmt{Lhs: y.Lhs, Tok: y.Tok, Rhs: vals})
				if y.Tok == token.DEFINE {
					for _, l := range y.Lhs {
						if i, ok := l.(*ast.Ident); ok && i.Name != "_" {
							body = append(body, use(l))
						}
					}
				}
			}
			lhs = append(lhs, v)
			rhs = append(rhs, call(r.sched("RecvCase"), r.expr(u.X)))
			args = append(args, v)
			tag = strconv.Itoa(idx)
			idx++
		}
		body = append(body, r.stmts(cc.Body)...)
		var tagE ast.Expr = &ast.BasicLit{Kind: token.INT, Value: tag}
		if tag == "-1" {
			// the default clause must catch every other value so that terminating
			// statement analysis still sees an exhaustive switch
			cases = append(cases, &ast.CaseClause{Body: body})
		} else {
			cases = append(cases, &ast.CaseClause{List: []ast.Expr{tagE}, Body: body})
		}
	}
	if !hasDefault {
		// a select without default never falls through: keep functions that end in it terminating
		cases = append(cases, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"sched: select"`})}}})
	}
	args[0] = id(strconv.FormatBool(hasDefault))
	sw := &ast.SwitchStmt{Tag: call(r.sched("Select"), args...), Body: &ast.BlockStmt{List: cases}}
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	return sw
}

const badgerPath = "github.com/dgraph-io/badger/v4"

// badgerMethod reports whether f is a method value of badger's DB or Txn.
func (r *rewriter) badgerMethod(f ast.Expr) string {
	s, ok := f.(*ast.SelectorExpr)
	if !ok {
		return ""
	}
	se := r.info.Selections[s]
	if se == nil || se.Kind() != types.MethodVal {
		return ""
	}
	fn, ok := se.Obj().(*types.Func)
	if !ok || fn.Pkg() == nil || fn.Pkg().Path() != badgerPath {
		return ""
	}
	rc := fn.Type().(*types.Signature).Recv()
	if rc == nil {
		return ""
	}
	t := rc.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return ""
	}
	return n.Obj().Name() + "." + fn.Name()
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return call(r.sched("Recv"), r.expr(x.X))
		}
		x.X = r.expr(x.X)
	case *ast.BinaryExpr:
		x.X = r.expr(x.X)
		x.Y = r.expr(x.Y)
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.SelectorExpr:
		x.X = r.expr(x.X)
	case *ast.IndexExpr:
		x.X = r.expr(x.X)
		x.Index = r.expr(x.Index)
	case *ast.SliceExpr:
		x.X = r.expr(x.X)
		x.Low, x.High, x.Max = r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
	case *ast.KeyValueExpr:
		x.Key = r.expr(x.Key)
		x.Value = r.expr(x.Value)
	case *ast.CompositeLit:
		r.exprs(x.Elts)
	case *ast.FuncLit:
		r.block(x.Body)
	case *ast.CallExpr:
		if i, ok := x.Fun.(*ast.Ident); ok && i.Name == "close" && len(x.Args) == 1 {
			if _, b := r.info.Uses[i].(*types.Builtin); b {
				return call(r.sched("Close"), r.expr(x.Args[0]))
			}
		}
		m := r.badgerMethod(x.Fun)
		x.Fun = r.expr(x.Fun)
		r.exprs(x.Args)
		switch m {
		case "DB.Update":
			return call(r.db("Update"), x.Fun, x.Args[0])
		case "DB.View":
			return call(r.db("View"), x.Fun, x.Args[0])
		case "Txn.Commit":
			return call(r.db("Commit"), x.Fun)
		case "Txn.Set":
			return call(r.db("Set"), append([]ast.Expr{x.Fun}, x.Args...)...)
		case "Txn.SetEntry":
			return call(r.db("SetEntry"), append([]ast.Expr{x.Fun}, x.Args...)...)
		case "Txn.Delete", "WriteBatch.Delete":
			return call(r.db("Delete"), append([]ast.Expr{x.Fun}, x.Args...)...)
		case "Txn.Get":
			return call(r.db("Get"), append([]ast.Expr{x.Fun}, x.Args...)...)
		case "Item.Value":
			return call(r.db("Value"), x.Fun, x.Args[0])
		case "Item.ValueCopy":
			return call(r.db("ValueCopy"), x.Fun, x.Args[0])
		case "WriteBatch.Set":
			return call(r.db("Set"), append([]ast.Expr{x.Fun}, x.Args...)...)
		case "WriteBatch.SetEntry":
			return call(r.db("SetEntry"), append([]ast.Expr{x.Fun}, x.Args...)...)
		case "WriteBatch.Flush":
			return call(r.db("Commit"), x.Fun)
		case "DB.DropPrefix":
			if !x.Ellipsis.IsValid() {
				return call(r.db("DropPrefix"), append([]ast.Expr{x.Fun}, x.Args...)...)
			}
		}
	}
	return e
}
