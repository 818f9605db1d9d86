package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
)

// ---- package-level state

// resets makes every package register how its package-level variables and init functions are
// executed again, so that each simulated process starts from fresh ones.
type resets struct {
	first  *ast.File
	order  []*types.Initializer
	owner  map[ast.Expr]*ast.File // initialiser -> file
	names  map[ast.Expr]string    // initialiser -> reset function
	spec   map[ast.Expr]slot      // where the (rewritten) initialiser is
	bare   map[*ast.File][]*ast.ValueSpec
	inits  map[*ast.File][]*ast.FuncDecl
	all    []string // reset functions in order: zero values, initialisers
	ninit  int
	initFn []string
	files  []*ast.File
}

type slot struct {
	s *ast.ValueSpec
	i int
}

const resetName = "simreset__"

func newResets(files []*ast.File, info *types.Info) *resets {
	rs := &resets{first: files[0], order: info.InitOrder, owner: map[ast.Expr]*ast.File{}, names: map[ast.Expr]string{},
		spec: map[ast.Expr]slot{}, bare: map[*ast.File][]*ast.ValueSpec{}, inits: map[*ast.File][]*ast.FuncDecl{}, files: files}
	for _, f := range files {
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.GenDecl:
				if x.Tok != token.VAR {
					continue
				}
				for _, s := range x.Specs {
					v := s.(*ast.ValueSpec)
					if len(v.Values) == 0 {
						rs.bare[f] = append(rs.bare[f], v)
					}
					for i, e := range v.Values {
						rs.owner[e], rs.spec[e] = f, slot{v, i}
					}
				}
			case *ast.FuncDecl:
				if x.Recv == nil && x.Name.Name == "init" {
					rs.inits[f] = append(rs.inits[f], x)
				}
			}
		}
	}
	n := 0
	for _, f := range files {
		if len(rs.bare[f]) > 0 {
			rs.all = append(rs.all, resetName+"zero"+strconv.Itoa(n))
			n++
		}
	}
	for i, in := range rs.order {
		real := false
		for _, v := range in.Lhs {
			real = real || v.Name() != "_"
		}
		if _, ok := rs.owner[in.Rhs]; ok && real {
			rs.names[in.Rhs] = resetName + strconv.Itoa(i)
			rs.all = append(rs.all, rs.names[in.Rhs])
		}
	}
	for _, f := range files {
		for range rs.inits[f] {
			rs.initFn = append(rs.initFn, resetName+"init"+strconv.Itoa(len(rs.initFn)))
		}
	}
	return rs
}

func function(name string, body ...ast.Stmt) *ast.FuncDecl {
	return &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
}

// addTo appends the reset functions of a rewritten file to it.
func (rs *resets) addTo(r *rewriter, f *ast.File) {
	n := 0
	for _, g := range rs.files {
		if len(rs.bare[g]) == 0 {
			continue
		}
		if g == f {
			var body []ast.Stmt
			for _, s := range rs.bare[f] {
				for _, id := range s.Names {
					if id.Name != "_" {
						body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(id.Name)}, Tok: token.ASSIGN,
							Rhs: []ast.Expr{&ast.StarExpr{X: call(ast.NewIdent("new"), s.Type)}}})
					}
				}
			}
			f.Decls = append(f.Decls, function(resetName+"zero"+strconv.Itoa(n), body...))
		}
		n++
	}
	for _, in := range rs.order {
		name := rs.names[in.Rhs]
		if name == "" || rs.owner[in.Rhs] != f {
			continue
		}
		at := rs.spec[in.Rhs]
		var lhs []ast.Expr
		for _, v := range in.Lhs {
			lhs = append(lhs, ast.NewIdent(v.Name()))
		}
		f.Decls = append(f.Decls, function(name, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{at.s.Values[at.i]}}))
	}
	for _, d := range rs.inits[f] {
		name := rs.initFn[rs.ninit]
		rs.ninit++
		d.Name = ast.NewIdent(name)
		f.Decls = append(f.Decls, function("init", &ast.ExprStmt{X: call(ast.NewIdent(name))}))
	}
	if f == rs.first && len(rs.all)+len(rs.initFn) > 0 {
		var args []ast.Expr
		for _, n := range append(append([]string{}, rs.all...), rs.initFn...) {
			args = append(args, ast.NewIdent(n))
		}
		f.Decls = append(f.Decls, function("init", &ast.ExprStmt{X: call(r.rt("OnReset"), args...)}))
	}
}

// ---- read-modify-write

// sharedVars finds the variables that more than one function uses: package-level ones and those
// captured by function literals.
func sharedVars(files []*ast.File, info *types.Info) map[types.Object]bool {
	decl := map[types.Object]ast.Node{}
	shared := map[types.Object]bool{}
	walk := func(visit func(id *ast.Ident, fn ast.Node)) {
		for _, f := range files {
			var stack []ast.Node
			var fns []ast.Node
			ast.Inspect(f, func(n ast.Node) bool {
				if n == nil {
					last := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if len(fns) > 0 && fns[len(fns)-1] == last {
						fns = fns[:len(fns)-1]
					}
					return true
				}
				stack = append(stack, n)
				switch x := n.(type) {
				case *ast.FuncDecl, *ast.FuncLit:
					fns = append(fns, n)
				case *ast.Ident:
					var fn ast.Node
					if len(fns) > 0 {
						fn = fns[len(fns)-1]
					}
					visit(x, fn)
				}
				return true
			})
		}
	}
	walk(func(id *ast.Ident, fn ast.Node) {
		if v, ok := info.Defs[id].(*types.Var); ok && !v.IsField() {
			decl[v] = fn
		}
	})
	walk(func(id *ast.Ident, fn ast.Node) {
		if v, ok := info.Uses[id].(*types.Var); ok && !v.IsField() {
			if d, ok := decl[v]; !ok || d != fn || d == nil {
				shared[v] = true
			}
		}
	})
	return shared
}

// split makes an update of something shared read it, let others run, and write it.
func (r *rewriter) split(s ast.Stmt) ast.Stmt {
	var lhs, val ast.Expr
	switch x := s.(type) {
	case *ast.IncDecStmt:
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		if r.splittable(x.X) {
			lhs, val = x.X, &ast.BinaryExpr{X: x.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
		}
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 || !r.splittable(x.Lhs[0]) || !r.pure(x.Rhs[0]) {
			break
		}
		switch x.Tok {
		case token.DEFINE:
		case token.ASSIGN:
			lt, rt := r.info.TypeOf(x.Lhs[0]), r.info.TypeOf(x.Rhs[0])
			if lt != nil && rt != nil && types.Identical(lt, rt) && mentions(x.Rhs[0], types.ExprString(x.Lhs[0])) {
				lhs, val = x.Lhs[0], x.Rhs[0]
			}
		default:
			ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
				token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
				token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}
			lhs, val = x.Lhs[0], &ast.BinaryExpr{X: x.Lhs[0], Op: ops[x.Tok], Y: &ast.ParenExpr{X: x.Rhs[0]}}
		}
	}
	if lhs == nil {
		return r.stmt(s)
	}
	val = r.expr(val)
	t := r.tmp()
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{val}},
		r.y(),
		&ast.AssignStmt{Lhs: []ast.Expr{r.expr(lhs)}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}},
	}}
}

// splittable tells whether an assignable expression may be shared and can be evaluated twice.
func (r *rewriter) splittable(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return r.shared[r.info.Uses[x]]
	case *ast.ParenExpr:
		return r.splittable(x.X)
	case *ast.SelectorExpr:
		return r.pure(x.X)
	case *ast.StarExpr:
		return r.pure(x.X)
	case *ast.IndexExpr:
		return r.splittable(x.X) && r.pure(x.Index)
	}
	return false
}

// pure tells whether evaluating an expression has no effect and calls nothing of interest.
func (r *rewriter) pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			ok = ok && x.Op != token.ARROW
		case *ast.CallExpr:
			if tv, found := r.info.Types[x.Fun]; found && tv.IsType() {
				return true
			}
			id, isID := x.Fun.(*ast.Ident)
			if isID {
				if b, isB := r.info.Uses[id].(*types.Builtin); isB {
					switch b.Name() {
					case "append", "len", "cap", "min", "max":
						return true
					}
				}
			}
			ok = false
		}
		return ok
	})
	return ok
}

// mentions tells whether a part of e is written like text.
func mentions(e ast.Expr, text string) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if x, ok := n.(ast.Expr); ok && types.ExprString(x) == text {
			found = true
		}
		return !found
	})
	return found
}
