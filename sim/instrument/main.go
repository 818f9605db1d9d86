// Command instrument copies a Go module's non-test sources and redirects goroutines, channels,
// locks, time, files and map iteration to the simulator (package simrt and simos).
//
//	instrument -dir DIR -mod HARNESSDIR [-pkg PATTERN]
//
// DIR is the (already copied) module, rewritten in place; HARNESSDIR is the main module that
// replaces it, from which packages are listed and type-checked.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	ImportMap  map[string]string
	Module     *struct{ Path, GoVersion, Dir string }
	Error      *struct{ Err string }
	DepOnly    bool
	Standard   bool
}

func main() {
	dir := flag.String("dir", "", "module to rewrite in place")
	mod := flag.String("mod", "", "main module to resolve packages from")
	path := flag.String("path", "github.com/Redundancy/go-sync", "module path")
	flag.Parse()
	if err := run(*dir, *mod, *path); err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(2)
	}
}

func run(dir, mod, modpath string) error {
	if err := makeImportable(dir); err != nil {
		return err
	}
	cmd := exec.Command("go", "list", "-e", "-deps", "-export",
		"-json=ImportPath,Dir,Name,GoFiles,Export,ImportMap,Module,Error,DepOnly,Standard", modpath+"/...")
	cmd.Dir = mod
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return fmt.Errorf("go list: %v\n%s", err, errb.String())
	}
	exports := map[string]string{}
	var todo []*pkgInfo
	dec := json.NewDecoder(&out)
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.Module != nil && p.Module.Path == modpath {
			if p.Error != nil {
				return fmt.Errorf("%s: %s", p.ImportPath, p.Error.Err)
			}
			todo = append(todo, p)
		}
	}
	for _, p := range todo {
		if len(p.GoFiles) == 0 {
			continue
		}
		if err := rewritePackage(p, exports); err != nil {
			return fmt.Errorf("%s: %v", p.ImportPath, err)
		}
	}
	return nil
}

// makeImportable turns every main package into a library with SimMain.
func makeImportable(dir string) error {
	return filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		if f.Name.Name != "main" {
			return nil
		}
		off := fs.Position(f.Name.Pos()).Offset
		src = append(append(append([]byte{}, src[:off]...), "simcmd"...), src[off+4:]...)
		if err := os.WriteFile(p, src, 0644); err != nil {
			return err
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				return os.WriteFile(filepath.Join(filepath.Dir(p), "zz_simmain.go"),
					[]byte("package simcmd\n\n// SimMain runs the program.\nfunc SimMain() { main() }\n"), 0644)
			}
		}
		return nil
	})
}

func rewritePackage(p *pkgInfo, exports map[string]string) error {
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	for _, n := range p.GoFiles {
		fn := filepath.Join(p.Dir, n)
		f, err := parser.ParseFile(fset, fn, nil, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, f)
		names = append(names, fn)
	}
	conf := types.Config{
		Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			if m, ok := p.ImportMap[path]; ok {
				path = m
			}
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		}),
	}
	if p.Module.GoVersion != "" {
		conf.GoVersion = "go" + p.Module.GoVersion
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		return err
	}
	shared := sharedVars(files, info)
	rs := newResets(files, info)
	for i, f := range files {
		r := &rewriter{fset: fset, info: info, file: filepath.Base(names[i]), shared: shared}
		if rel := strings.TrimPrefix(p.ImportPath, p.Module.Path); rel != "" {
			r.file = strings.TrimPrefix(rel, "/") + "/" + r.file
		}
		r.run(f, rs)
		flatten(reflect.ValueOf(f))
		pfs := token.NewFileSet()
		pfs.AddFile("x.go", 1, 10)
		var buf bytes.Buffer
		if err := (&printer.Config{Mode: printer.TabIndent, Tabwidth: 8}).Fprint(&buf, pfs, f); err != nil {
			return err
		}
		if err := os.WriteFile(names[i], buf.Bytes(), 0644); err != nil {
			return err
		}
	}
	return nil
}

var posType = reflect.TypeOf(token.NoPos)

// flatten sets every valid position to the same value: the printer then never breaks lines in
// places of its own choosing, and dropped comments cannot confuse it.
func flatten(v reflect.Value) {
	seen := map[uintptr]bool{}
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				rec(v.Elem())
			}
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			if v.Type() == reflect.TypeOf((*ast.Object)(nil)) || v.Type() == reflect.TypeOf((*ast.Scope)(nil)) {
				return
			}
			seen[v.Pointer()] = true
			rec(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				f := v.Field(i)
				if f.Type() == posType {
					if f.Int() != 0 && f.CanSet() {
						f.SetInt(1)
					}
					continue
				}
				rec(f)
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
			}
		}
	}
	rec(v)
}

const (
	rtName  = "simrt__"
	osName  = "simos__"
	rtPath  = "verif.local/sim/simrt"
	osPath  = "verif.local/sim/simos"
	tmpName = "sim__"
)

type rewriter struct {
	fset     *token.FileSet
	info     *types.Info
	file     string
	n        int
	useRT    bool
	useOS    bool
	replaced map[types.Object]int
	shared   map[types.Object]bool
}

var (
	exprType = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtType = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
)

func (r *rewriter) run(f *ast.File, rs *resets) {
	r.replaced = map[types.Object]int{}
	uses := map[types.Object]int{}
	pkgNames := map[*ast.ImportSpec]types.Object{}
	ast.Inspect(f, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				uses[pn]++
			}
		}
		return true
	})
	byPath := map[string][]types.Object{}
	for o := range uses {
		byPath[o.(*types.PkgName).Imported().Path()] = append(byPath[o.(*types.PkgName).Imported().Path()], o)
	}
	for _, s := range f.Imports {
		if s.Name != nil && (s.Name.Name == "_" || s.Name.Name == ".") {
			continue
		}
		p, _ := strconv.Unquote(s.Path.Value)
		for _, o := range byPath[p] {
			if s.Name == nil || s.Name.Name == o.Name() {
				pkgNames[s] = o
			}
		}
	}
	for _, d := range f.Decls {
		r.children(reflect.ValueOf(d).Elem())
	}
	// imports
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		var keep []ast.Spec
		for _, s := range g.Specs {
			o := pkgNames[s.(*ast.ImportSpec)]
			if o != nil && r.replaced[o] == uses[o] {
				s.(*ast.ImportSpec).Name = ast.NewIdent("_")
			}
			keep = append(keep, s)
		}
		g.Specs = keep
	}
	add := func(name, path string) {
		spec := &ast.ImportSpec{Name: ast.NewIdent(name), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
	if os.Getenv("SIM_NOISE") != "" { // for testing the harness: every function may be slow to return
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				fd.Body.List = append([]ast.Stmt{&ast.DeferStmt{Call: call(r.rt("Noise"))}}, fd.Body.List...)
			}
		}
	}
	rs.addTo(r, f)
	if r.useOS {
		add(osName, osPath)
	}
	if r.useRT {
		add(rtName, rtPath)
	}
	f.Comments, f.Doc = nil, nil
}

func (r *rewriter) site(n ast.Node) *ast.BasicLit {
	p := r.fset.Position(n.Pos())
	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("%s:%d", r.file, p.Line))}
}

func (r *rewriter) rt(name string) ast.Expr {
	r.useRT = true
	return &ast.SelectorExpr{X: ast.NewIdent(rtName), Sel: ast.NewIdent(name)}
}

func (r *rewriter) os(name string) ast.Expr {
	r.useOS = true
	return &ast.SelectorExpr{X: ast.NewIdent(osName), Sel: ast.NewIdent(name)}
}

func (r *rewriter) tmp() *ast.Ident {
	r.n++
	return ast.NewIdent(tmpName + strconv.Itoa(r.n))
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

// children rewrites everything below a node, in place.
func (r *rewriter) children(v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		r.value(v.Field(i))
	}
}

func (r *rewriter) value(f reflect.Value) {
	switch f.Kind() {
	case reflect.Interface:
		if f.IsNil() {
			return
		}
		switch f.Type() {
		case exprType:
			f.Set(reflect.ValueOf(r.expr(f.Interface().(ast.Expr))))
			return
		case stmtType:
			f.Set(reflect.ValueOf(r.stmt(f.Interface().(ast.Stmt))))
			return
		}
		r.value(f.Elem())
	case reflect.Ptr:
		if f.IsNil() {
			return
		}
		switch x := f.Interface().(type) {
		case *ast.Object, *ast.Scope, *ast.CommentGroup:
			return
		case *ast.BlockStmt:
			r.block(x)
			return
		case *ast.CallExpr: // DeferStmt.Call; GoStmt is handled before
			e := r.expr(x)
			if c, ok := e.(*ast.CallExpr); ok {
				f.Set(reflect.ValueOf(c))
			} else {
				f.Set(reflect.ValueOf(call(&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
					Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: e}}}})))
			}
			return
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if c := r.recvOf(x.Values[0]); c != nil {
					x.Values[0] = r.recv2(x.Values[0], c)
					r.value(reflect.ValueOf(&x.Type).Elem())
					return
				}
			}
		}
		r.children(f.Elem())
	case reflect.Slice:
		if f.Type().Elem() == stmtType {
			// statement lists of case and communication clauses
			f.Set(reflect.ValueOf(r.list(f.Interface().([]ast.Stmt))))
			return
		}
		for i := 0; i < f.Len(); i++ {
			r.value(f.Index(i))
		}
	}
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	for _, s := range b.List {
		// the body of switch and select holds clauses, not statements
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			for _, c := range b.List {
				r.children(reflect.ValueOf(c).Elem())
			}
			return
		}
	}
	b.List = r.list(b.List)
}

func (r *rewriter) y() ast.Stmt { return &ast.ExprStmt{X: call(r.rt("Y"))} }

func (r *rewriter) list(in []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, 2*len(in))
	for _, s := range in {
		if _, ok := s.(*ast.EmptyStmt); ok {
			out = append(out, s)
			continue
		}
		out = append(out, r.y(), r.split(s))
	}
	return out
}

func (r *rewriter) loopBody(b *ast.BlockStmt) {
	if len(b.List) == 0 {
		b.List = []ast.Stmt{r.y()}
		return
	}
	r.block(b)
}

func (r *rewriter) isChan(e ast.Expr) *types.Chan {
	t := r.info.TypeOf(e)
	if t == nil {
		return nil
	}
	c, _ := t.Underlying().(*types.Chan)
	return c
}

// recvOf returns the channel of a (parenthesised) receive expression.
func (r *rewriter) recvOf(e ast.Expr) ast.Expr {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u.X
	}
	return nil
}

func (r *rewriter) recv2(at ast.Node, c ast.Expr) ast.Expr {
	s := r.site(at)
	return call(r.rt("Recv2"), s, r.expr(c))
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.SendStmt:
		site := r.site(x)
		return &ast.ExprStmt{X: call(call(r.rt("Sender"), site, r.expr(x.Chan)), r.expr(x.Value))}
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if c := r.recvOf(x.Rhs[0]); c != nil {
				for i := range x.Lhs {
					x.Lhs[i] = r.expr(x.Lhs[i])
				}
				x.Rhs[0] = r.recv2(x.Rhs[0], c)
				return x
			}
		}
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	case *ast.ForStmt:
		if x.Init != nil {
			x.Init = r.stmt(x.Init)
		}
		if x.Cond != nil {
			x.Cond = r.expr(x.Cond)
		}
		if x.Post != nil {
			x.Post = r.stmt(x.Post)
		}
		r.loopBody(x.Body)
		return x
	case *ast.BlockStmt:
		r.block(x)
		return x
	}
	r.children(reflect.ValueOf(s).Elem())
	return s
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rewriter) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	t := r.info.TypeOf(x.X)
	isChan, isMap := false, false
	if t != nil {
		switch t.Underlying().(type) {
		case *types.Chan:
			isChan = true
		case *types.Map:
			isMap = true
		}
	}
	if !isChan && !isMap {
		if x.Key != nil {
			x.Key = r.expr(x.Key)
		}
		if x.Value != nil {
			x.Value = r.expr(x.Value)
		}
		x.X = r.expr(x.X)
		r.loopBody(x.Body)
		return x
	}
	site := r.site(x)
	r.loopBody(x.Body)
	vars := []ast.Expr{x.Key}
	if isMap {
		vars = append(vars, x.Value)
	}
	var pre []ast.Stmt
	names := make([]ast.Expr, len(vars))
	for i, v := range vars {
		switch {
		case blank(v):
			names[i] = ast.NewIdent("_")
		case x.Tok == token.DEFINE:
			names[i] = v
		default:
			t := r.tmp()
			names[i] = t
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(v)}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}})
		}
	}
	it, ok := r.tmp(), r.tmp()
	var start ast.Expr
	if isChan {
		start = call(r.rt("RangeChan"), site, r.expr(x.X))
	} else {
		start = call(r.rt("MapRange"), r.expr(x.X))
	}
	next := call(&ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")})
	x.Body.List = append(pre, x.Body.List...)
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: append(append([]ast.Expr{it}, names...), ok), Tok: token.DEFINE, Rhs: []ast.Expr{start}},
		Cond: ok,
		Post: &ast.AssignStmt{Lhs: append(append([]ast.Expr{}, names...), ok), Tok: token.ASSIGN, Rhs: []ast.Expr{next}},
		Body: x.Body,
	}
}

func (r *rewriter) goStmt(x *ast.GoStmt) ast.Stmt {
	site := r.site(x)
	c := x.Call
	var pre []ast.Stmt
	fun := c.Fun
	hoistFun := true
	inner := fun
	for {
		if p, ok := inner.(*ast.ParenExpr); ok {
			inner = p.X
			continue
		}
		break
	}
	switch f := inner.(type) {
	case *ast.FuncLit:
		hoistFun = false
		if len(c.Args) == 0 && (f.Type.Results == nil || len(f.Type.Results.List) == 0) {
			return &ast.ExprStmt{X: call(r.rt("Go"), site, r.expr(f))}
		}
	case *ast.Ident:
		switch r.info.Uses[f].(type) {
		case *types.Func, *types.Builtin, *types.TypeName:
			hoistFun = false
		}
	case *ast.SelectorExpr:
		if fn, ok := r.info.Uses[f.Sel].(*types.Func); ok {
			if sig, ok := fn.Type().(*types.Signature); ok && sig.Recv() == nil {
				hoistFun = false
			}
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		if tv, ok := r.info.Types[inner]; ok && tv.IsValue() {
			if id := baseFunc(inner); id != nil {
				if _, ok := r.info.Uses[id].(*types.Func); ok {
					hoistFun = false
				}
			}
		}
	}
	// what the arguments are must be asked before they are rewritten
	type argKind struct{ inline, tuple bool }
	kinds := make([]argKind, len(c.Args))
	tupleLen := 0
	for i, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			kinds[i].inline = true
		}
		if t, ok := tv.Type.(*types.Tuple); ok {
			kinds[i].tuple = true
			tupleLen = t.Len()
		}
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			kinds[i].inline = true
		}
	}
	ncall := r.expr(c)
	nc, ok := ncall.(*ast.CallExpr)
	if !ok {
		return &ast.ExprStmt{X: call(r.rt("Go"), site, thunk(ncall))}
	}
	if id, ok := inner.(*ast.Ident); ok {
		if _, ok := r.info.Uses[id].(*types.Builtin); ok {
			return &ast.ExprStmt{X: call(r.rt("Go"), site, thunk(nc))}
		}
	}
	if hoistFun {
		t := r.tmp()
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{nc.Fun}})
		nc.Fun = t
	}
	for i := range kinds {
		switch {
		case kinds[i].inline:
		case kinds[i].tuple:
			var lhs []ast.Expr
			for k := 0; k < tupleLen; k++ {
				lhs = append(lhs, r.tmp())
			}
			pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{nc.Args[i]}})
			nc.Args = lhs
		default:
			t := r.tmp()
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{nc.Args[i]}})
			nc.Args[i] = t
		}
	}
	g := &ast.ExprStmt{X: call(r.rt("Go"), site, thunk(nc))}
	if len(pre) == 0 {
		return g
	}
	return &ast.BlockStmt{List: append(pre, g)}
}

func baseFunc(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.IndexExpr:
			e = x.X
		case *ast.IndexListExpr:
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		case *ast.Ident:
			return x
		case *ast.SelectorExpr:
			return x.Sel
		default:
			return nil
		}
	}
}

func thunk(e ast.Expr) ast.Expr {
	return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: e}}}}
}

func (r *rewriter) selectStmt(x *ast.SelectStmt) ast.Stmt {
	site := r.site(x)
	if len(x.Body.List) == 0 {
		return &ast.ForStmt{Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(r.rt("BlockForever"), site)}}}}
	}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	var lhs, rhs []ast.Expr
	hasDefault := false
	k := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		body := cc.Body
		var pre []ast.Stmt
		var v *ast.Ident
		switch comm := cc.Comm.(type) {
		case nil:
			hasDefault = true
		case *ast.SendStmt:
			v = r.tmp()
			lhs = append(lhs, v)
			rhs = append(rhs, call(call(r.rt("SendCase"), r.expr(comm.Chan)), r.expr(comm.Value)))
		case *ast.ExprStmt:
			v = r.tmp()
			lhs = append(lhs, v)
			rhs = append(rhs, call(r.rt("RecvCase"), r.expr(r.recvOf(comm.X))))
		case *ast.AssignStmt:
			v = r.tmp()
			lhs = append(lhs, v)
			rhs = append(rhs, call(r.rt("RecvCase"), r.expr(r.recvOf(comm.Rhs[0]))))
			vals := []ast.Expr{&ast.SelectorExpr{X: v, Sel: ast.NewIdent("V")}}
			if len(comm.Lhs) == 2 {
				vals = append(vals, &ast.SelectorExpr{X: v, Sel: ast.NewIdent("OK")})
			}
			l := make([]ast.Expr, len(comm.Lhs))
			all := true
			for i, e := range comm.Lhs {
				l[i] = r.expr(e)
				all = all && blank(e)
			}
			tok := comm.Tok
			if all {
				tok = token.ASSIGN
			}
			pre = append(pre, &ast.AssignStmt{Lhs: l, Tok: tok, Rhs: vals})
		}
		cl := &ast.CaseClause{Body: append(pre, r.list(body)...)}
		if v != nil {
			cl.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(k)}}
			k++
		}
		sw.Body.List = append(sw.Body.List, cl)
	}
	if !hasDefault {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{
			&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}})
	}
	d := "false"
	if hasDefault {
		d = "true"
	}
	args := []ast.Expr{site, ast.NewIdent(d)}
	args = append(args, lhs...)
	sw.Tag = call(r.rt("Select"), args...)
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	return sw
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			site := r.site(x)
			return call(r.rt("Recv"), site, r.expr(x.X))
		}
	case *ast.CallExpr:
		if n := r.builtin(x); n != nil {
			return n
		}
	case *ast.SelectorExpr:
		if n := r.selector(x); n != nil {
			return n
		}
		x.X = r.expr(x.X)
		return x
	case *ast.Ident, *ast.BasicLit:
		return e
	case *ast.KeyValueExpr:
		// a struct field name is not an expression
		if _, ok := x.Key.(*ast.Ident); !ok {
			x.Key = r.expr(x.Key)
		}
		x.Value = r.expr(x.Value)
		return x
	}
	r.children(reflect.ValueOf(e).Elem())
	return e
}

func (r *rewriter) builtin(x *ast.CallExpr) ast.Expr {
	id, ok := x.Fun.(*ast.Ident)
	if !ok {
		return nil
	}
	if _, ok := r.info.Uses[id].(*types.Builtin); !ok || len(x.Args) == 0 {
		return nil
	}
	c := r.isChan(x.Args[0])
	if c == nil {
		return nil
	}
	switch id.Name {
	case "close":
		site := r.site(x)
		return call(r.rt("Close"), site, r.expr(x.Args[0]))
	case "len":
		return call(r.rt("Len"), r.expr(x.Args[0]))
	case "cap":
		return call(r.rt("Cap"), r.expr(x.Args[0]))
	case "make":
		if c.Dir() != types.SendRecv {
			return nil
		}
		for i := range x.Args {
			x.Args[i] = r.expr(x.Args[i])
		}
		return call(r.rt("Made"), x)
	}
	return nil
}

func set(names string) map[string]string {
	m := map[string]string{}
	for _, n := range strings.Fields(names) {
		a, b, ok := strings.Cut(n, "=")
		if !ok {
			b = a
		}
		m[a] = b
	}
	return m
}

var rtMap = map[string]map[string]string{
	"sync":    set("Mutex RWMutex WaitGroup Once Cond NewCond Locker Pool Map OnceFunc OnceValue OnceValues"),
	"io":      set("Pipe PipeReader PipeWriter"),
	"context": set("WithTimeout WithDeadline"),
	"time":    set("Now Since Until Sleep NewTimer AfterFunc After NewTicker Tick Timer Ticker"),
	"runtime": set("Gosched GOMAXPROCS NumCPU NumGoroutine"),
	"bufio":   set("NewReader=BufReader NewReaderSize=BufReaderSize NewWriter=BufWriter NewWriterSize=BufWriterSize"),
}

var osMap = map[string]map[string]string{
	"os": set(`File Open Create OpenFile Stat Lstat SameFile Remove RemoveAll Rename Link Symlink Readlink Mkdir
		MkdirAll MkdirTemp Truncate Chmod Chown Lchown Chtimes CreateTemp TempDir Getwd Chdir ReadFile WriteFile
		ReadDir Exit Args Stdin Stdout Stderr Getpid`),
	"io/ioutil":     set("TempFile TempDir=MkdirTemp ReadFile WriteFile ReadDir=ReadDirInfo"),
	"fmt":           set("Print Printf Println"),
	"path/filepath": set("EvalSymlinks Abs"),
	"log":           set("Fatal=LogFatal Fatalf=LogFatalf Fatalln=LogFatalln Print=LogPrint Printf=LogPrintf Println=LogPrintln"),
	"net/http":      set("Transport Client DefaultClient Get=HTTPGet Head=HTTPHead"),
}

func (r *rewriter) selector(x *ast.SelectorExpr) ast.Expr {
	id, ok := x.X.(*ast.Ident)
	if !ok {
		return nil
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	if !ok {
		return nil
	}
	path := pn.Imported().Path()
	if n, ok := rtMap[path][x.Sel.Name]; ok {
		r.replaced[pn]++
		return r.rt(n)
	}
	if n, ok := osMap[path][x.Sel.Name]; ok {
		r.replaced[pn]++
		return r.os(n)
	}
	if path == "math/rand" || path == "math/rand/v2" {
		if fn, ok := r.info.Uses[x.Sel].(*types.Func); ok {
			if tn, ok := pn.Imported().Scope().Lookup("Rand").(*types.TypeName); ok {
				ms := types.NewMethodSet(types.NewPointer(tn.Type()))
				for i := 0; i < ms.Len(); i++ {
					if ms.At(i).Obj().Name() == fn.Name() {
						r.replaced[pn]++
						n := "Rand"
						if path != "math/rand" {
							n = "Rand2"
						}
						return &ast.SelectorExpr{X: call(r.rt(n)), Sel: ast.NewIdent(fn.Name())}
					}
				}
			}
		}
	}
	return nil
}
