package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// The rewriter turns one type-checked package of the code under test into its
// instrumented form. Levels: 2 everything, 1 no statement points.

const zvBase = "github.com/spacemonkeygo/monkit/v3/internal/zv/"

type pkgRW struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	level int
	sites []string
	base  int // first site number
	nsym  int
	root  string

	captured map[types.Object]bool
	extra    map[string]string // alias -> path, per file
	labelled map[ast.Stmt]bool
}

var timeSel = map[string]bool{"Now": true, "Since": true, "Until": true, "Sleep": true, "NewTicker": true, "NewTimer": true,
	"After": true, "AfterFunc": true, "Tick": true, "Ticker": true, "Timer": true}
var randSkip = map[string]bool{"New": true, "NewSource": true, "Source": true, "Source64": true, "Rand": true, "NewZipf": true, "Zipf": true,
	"NewPCG": true, "NewChaCha8": true, "PCG": true, "ChaCha8": true, "N": true}

func (r *pkgRW) sym(p string) *ast.Ident {
	r.nsym++
	return ast.NewIdent(fmt.Sprintf("zv_%s_%d", p, r.nsym))
}

func (r *pkgRW) site(pos token.Pos) ast.Expr {
	p := r.fset.Position(pos)
	name := p.Filename
	if rel, err := filepath.Rel(r.root, p.Filename); err == nil {
		name = rel
	}
	r.sites = append(r.sites, fmt.Sprintf("%s:%d", name, p.Line))
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(r.base + len(r.sites) - 1)}
}

func (r *pkgRW) sel(alias, path, name string) ast.Expr {
	r.extra[alias] = path
	return &ast.SelectorExpr{X: ast.NewIdent(alias), Sel: ast.NewIdent(name)}
}

func (r *pkgRW) sched(name string) ast.Expr { return r.sel("zvsched", zvBase+"sched", name) }

func (r *pkgRW) call(f ast.Expr, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: f, Args: args}
}

func (r *pkgRW) point(pos token.Pos) ast.Stmt {
	return &ast.ExprStmt{X: r.call(r.sched("P"), r.site(pos))}
}

func (r *pkgRW) loopPoint(pos token.Pos) ast.Stmt {
	return &ast.ExprStmt{X: r.call(r.sched("L"), r.site(pos))}
}

// findCaptured records local variables used inside a function literal other
// than the one they are declared in.
func (r *pkgRW) findCaptured(f *ast.File) {
	decl := map[types.Object]ast.Node{}
	var stack []ast.Node
	var walk func(n ast.Node) bool
	var visit func(n ast.Node)
	pass := 0
	walk = func(n ast.Node) bool {
		if n == nil {
			return false
		}
		switch n := n.(type) {
		case *ast.FuncLit:
			stack = append(stack, n)
			visit(n.Type)
			visit(n.Body)
			stack = stack[:len(stack)-1]
			return false
		case *ast.FuncDecl:
			stack = append(stack, n)
			if n.Recv != nil {
				visit(n.Recv)
			}
			visit(n.Type)
			if n.Body != nil {
				visit(n.Body)
			}
			stack = stack[:len(stack)-1]
			return false
		case *ast.Ident:
			var top ast.Node
			if len(stack) > 0 {
				top = stack[len(stack)-1]
			}
			if pass == 0 {
				if o := r.info.Defs[n]; o != nil {
					decl[o] = top
				}
			} else if o := r.info.Uses[n]; o != nil {
				if d, ok := decl[o]; ok && d != nil && d != top {
					if v, ok := o.(*types.Var); ok && !v.IsField() {
						r.captured[o] = true
					}
				}
			}
		}
		return true
	}
	visit = func(n ast.Node) { ast.Inspect(n, walk) }
	visit(f)
	pass = 1
	visit(f)
}

// touches says whether evaluating n itself (not nested literals or blocks)
// may access memory other threads can reach.
func (r *pkgRW) touches(ns ...ast.Node) bool {
	found := false
	for _, n := range ns {
		if n == nil || reflect.ValueOf(n).IsNil() {
			continue
		}
		ast.Inspect(n, func(n ast.Node) bool {
			if found {
				return false
			}
			switch n := n.(type) {
			case *ast.FuncLit, *ast.BlockStmt, *ast.FuncType, *ast.StructType, *ast.InterfaceType:
				return false
			case *ast.SelectorExpr:
				if s := r.info.Selections[n]; s != nil && s.Kind() == types.FieldVal {
					found = true
				} else if o, ok := r.info.Uses[n.Sel].(*types.Var); ok && !o.IsField() {
					found = true // package variable of another package
				}
			case *ast.IndexExpr:
				if tv, ok := r.info.Types[n.X]; ok && tv.IsValue() {
					found = true
				}
			case *ast.StarExpr:
				if tv, ok := r.info.Types[n]; ok && tv.IsValue() {
					found = true
				}
			case *ast.SliceExpr:
				found = true
			case *ast.Ident:
				if o, ok := r.info.Uses[n].(*types.Var); ok {
					if r.captured[o] || (!o.IsField() && o.Parent() == r.pkg.Scope()) {
						found = true
					}
				}
			}
			return true
		})
	}
	return found
}

// syncCall says whether e is directly a call into sync or sync/atomic.
func (r *pkgRW) syncCall(e ast.Expr) bool {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return false
	}
	s, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	if o := r.info.Uses[s.Sel]; o != nil && o.Pkg() != nil {
		return o.Pkg().Path() == "sync" || o.Pkg().Path() == "sync/atomic"
	}
	return false
}

// ---- expressions ----

var exprType = reflect.TypeOf((*ast.Expr)(nil)).Elem()

func (r *pkgRW) expr(e ast.Expr) ast.Expr {
	if e == nil || reflect.ValueOf(e).IsNil() {
		return e
	}
	switch n := e.(type) {
	case *ast.FuncLit:
		n.Body.List = r.block(n.Body.List)
		return n
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			return r.call(r.sched("Recv"), r.expr(n.X))
		}
	case *ast.CallExpr:
		if id, ok := n.Fun.(*ast.Ident); ok {
			if b, ok := r.info.Uses[id].(*types.Builtin); ok && b.Name() == "close" {
				return r.call(r.sched("Close"), r.expr(n.Args[0]))
			}
		}
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				return r.pkgSel(n, pn.Imported().Path())
			}
		}
		n.X = r.expr(n.X)
		return n
	case *ast.KeyValueExpr:
		// struct field keys are not expressions
		if id, ok := n.Key.(*ast.Ident); !ok || r.info.Uses[id] != nil {
			n.Key = r.expr(n.Key)
		}
		n.Value = r.expr(n.Value)
		return n
	}
	r.fields(reflect.ValueOf(e).Elem())
	return e
}

// fields rewrites every expression field of a node.
func (r *pkgRW) fields(v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch {
		case f.Type() == exprType:
			if !f.IsNil() {
				f.Set(reflect.ValueOf(r.expr(f.Interface().(ast.Expr))))
			}
		case f.Kind() == reflect.Slice && f.Type().Elem() == exprType:
			for j := 0; j < f.Len(); j++ {
				f.Index(j).Set(reflect.ValueOf(r.expr(f.Index(j).Interface().(ast.Expr))))
			}
		case f.Type() == reflect.TypeOf((*ast.FieldList)(nil)):
			if fl := f.Interface().(*ast.FieldList); fl != nil {
				r.fieldList(fl)
			}
		case f.Type() == reflect.TypeOf((*ast.FuncType)(nil)):
			if ft := f.Interface().(*ast.FuncType); ft != nil {
				r.funcType(ft)
			}
		}
	}
}

func (r *pkgRW) fieldList(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		f.Type = r.expr(f.Type)
	}
}

func (r *pkgRW) funcType(ft *ast.FuncType) {
	r.fieldList(ft.TypeParams)
	r.fieldList(ft.Params)
	r.fieldList(ft.Results)
}

func (r *pkgRW) pkgSel(n *ast.SelectorExpr, path string) ast.Expr {
	name := n.Sel.Name
	switch path {
	case "time":
		if timeSel[name] {
			return r.sel("zvtime", zvBase+"vtime", name)
		}
	case "runtime":
		if name == "Gosched" {
			return r.sched("Gosched")
		}
		if name == "ReadMemStats" || name == "NumGoroutine" {
			return r.sel("zvenv", zvBase+"venv", name)
		}
	case "syscall":
		if name == "Getrusage" {
			return r.sel("zvenv", zvBase+"venv", name)
		}
	case "math/rand", "math/rand/v2":
		if !randSkip[name] && ast.IsExported(name) {
			if _, ok := r.info.Uses[n.Sel].(*types.Func); ok {
				return r.sel("zvrand", zvBase+"vrand", name)
			}
		}
	case "crypto/rand":
		if name == "Read" {
			return r.sel("zvrand", zvBase+"vrand", "CryptoRead")
		}
		if name == "Reader" {
			return r.sel("zvrand", zvBase+"vrand", "Reader")
		}
	case "runtime/debug":
		if name == "ReadGCStats" {
			return r.sel("zvenv", zvBase+"venv", name)
		}
	case "os":
		if name == "ReadFile" || name == "Open" || name == "OpenFile" || name == "ReadDir" {
			return r.sel("zvenv", zvBase+"venv", name)
		}
	case "io/ioutil":
		if name == "ReadDir" {
			return r.sel("zvenv", zvBase+"venv", "ReadDirInfo")
		}
		if name == "ReadFile" {
			return r.sel("zvenv", zvBase+"venv", name)
		}
	}
	return n
}

// ---- statements ----

func (r *pkgRW) block(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		pre, ns := r.stmt(s)
		out = append(out, pre...)
		out = append(out, ns)
	}
	return out
}

func (r *pkgRW) stmts(ns ast.Stmt) { // header statements: no hoisting
	if ns == nil || reflect.ValueOf(ns).IsNil() {
		return
	}
	switch n := ns.(type) {
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if u, ok := n.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				n.Rhs[0] = r.call(r.sched("Recv2"), r.expr(u.X))
				for i := range n.Lhs {
					n.Lhs[i] = r.expr(n.Lhs[i])
				}
				return
			}
		}
		r.fields(reflect.ValueOf(n).Elem())
	case *ast.DeclStmt:
		r.genDecl(n.Decl.(*ast.GenDecl))
	default:
		r.fields(reflect.ValueOf(ns).Elem())
	}
}

func (r *pkgRW) genDecl(d *ast.GenDecl) {
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.ValueSpec:
			s.Type = r.expr(s.Type)
			for i := range s.Values {
				s.Values[i] = r.expr(s.Values[i])
			}
		case *ast.TypeSpec:
			r.fieldList(s.TypeParams)
			s.Type = r.expr(s.Type)
		}
	}
}

// pure expressions may be evaluated twice.
func (r *pkgRW) pure(e ast.Expr) bool {
	switch n := e.(type) {
	case *ast.Ident:
		return true
	case *ast.BasicLit:
		return true
	case *ast.ParenExpr:
		return r.pure(n.X)
	case *ast.SelectorExpr:
		return r.pure(n.X)
	case *ast.StarExpr:
		return r.pure(n.X)
	case *ast.IndexExpr:
		return r.pure(n.X) && r.pure(n.Index)
	case *ast.BinaryExpr:
		return r.pure(n.X) && r.pure(n.Y)
	case *ast.CallExpr:
		if tv, ok := r.info.Types[n.Fun]; ok && tv.IsType() && len(n.Args) == 1 {
			return r.pure(n.Args[0])
		}
	}
	return false
}

func clone(e ast.Expr) ast.Expr {
	switch n := e.(type) {
	case *ast.Ident:
		return &ast.Ident{Name: n.Name}
	case *ast.BasicLit:
		return &ast.BasicLit{Kind: n.Kind, Value: n.Value}
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: clone(n.X)}
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: clone(n.X), Sel: ast.NewIdent(n.Sel.Name)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: clone(n.X)}
	case *ast.IndexExpr:
		return &ast.IndexExpr{X: clone(n.X), Index: clone(n.Index)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: clone(n.X), Op: n.Op, Y: clone(n.Y)}
	case *ast.CallExpr:
		return &ast.CallExpr{Fun: clone(n.Fun), Args: []ast.Expr{clone(n.Args[0])}}
	}
	return e
}

var opOf = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
	token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}

func isComparison(e ast.Expr) bool {
	switch n := e.(type) {
	case *ast.ParenExpr:
		return isComparison(n.X)
	case *ast.UnaryExpr:
		return n.Op == token.NOT
	case *ast.BinaryExpr:
		switch n.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ, token.LAND, token.LOR, token.SHL, token.SHR:
			return true
		}
	}
	return false
}

// hoistable says whether "z := e" keeps the value and type e has where it is.
func (r *pkgRW) hoistable(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil || !tv.IsValue() && !tv.HasOk() || tv.Value != nil || tv.IsNil() {
		return false
	}
	if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return false
	}
	if _, ok := tv.Type.(*types.Tuple); ok {
		return false
	}
	switch e.(type) {
	case *ast.FuncLit, *ast.CompositeLit, *ast.BasicLit:
		return false
	}
	return !isComparison(e)
}

func define(id *ast.Ident, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}

func (r *pkgRW) stmt(s ast.Stmt) (pre []ast.Stmt, out ast.Stmt) {
	pos := s.Pos()
	full := r.level >= 2
	pt := func(ns ...ast.Node) {
		if full && r.touches(ns...) {
			pre = append(pre, r.point(pos))
		}
	}
	switch n := s.(type) {
	case *ast.LabeledStmt:
		p, in := r.stmt(n.Stmt)
		n.Stmt = in
		if len(p) > 0 {
			return nil, &ast.BlockStmt{List: append(p, n)}
		}
		return nil, n
	case *ast.BlockStmt:
		n.List = r.block(n.List)
		return nil, n
	case *ast.IfStmt:
		pt(n.Init, n.Cond)
		r.stmts(n.Init)
		n.Cond = r.expr(n.Cond)
		n.Body.List = r.block(n.Body.List)
		switch el := n.Else.(type) {
		case *ast.IfStmt:
			p, in := r.stmt(el)
			if len(p) > 0 {
				n.Else = &ast.BlockStmt{List: append(p, in)}
			} else {
				n.Else = in
			}
		case *ast.BlockStmt:
			el.List = r.block(el.List)
		}
		return pre, n
	case *ast.ForStmt:
		pt(n.Init, n.Cond)
		r.stmts(n.Init)
		n.Cond = r.expr(n.Cond)
		r.stmts(n.Post)
		n.Body.List = append([]ast.Stmt{r.loopPoint(pos)}, r.block(n.Body.List)...)
		return pre, n
	case *ast.RangeStmt:
		return r.rangeStmt(n)
	case *ast.SwitchStmt:
		pt(n.Init, n.Tag)
		r.stmts(n.Init)
		n.Tag = r.expr(n.Tag)
		for _, c := range n.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = r.expr(cc.List[i])
			}
			cc.Body = r.block(cc.Body)
		}
		return pre, n
	case *ast.TypeSwitchStmt:
		pt(n.Init, n.Assign)
		r.stmts(n.Init)
		r.stmts(n.Assign)
		for _, c := range n.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = r.expr(cc.List[i])
			}
			cc.Body = r.block(cc.Body)
		}
		return pre, n
	case *ast.SelectStmt:
		return r.selectStmt(n)
	case *ast.GoStmt:
		return r.goStmt(n)
	case *ast.DeferStmt:
		pt(n.Call)
		c := r.expr(n.Call)
		if cc, ok := c.(*ast.CallExpr); ok {
			n.Call = cc
		}
		return pre, n
	case *ast.SendStmt:
		return nil, &ast.ExprStmt{X: r.call(r.sched("Send"), r.expr(n.Chan), r.expr(n.Value))}
	case *ast.ExprStmt:
		if !r.syncCall(n.X) {
			pt(n.X)
		}
		n.X = r.expr(n.X)
		return pre, n
	case *ast.IncDecStmt:
		if full && r.touches(n.X) && r.pure(n.X) {
			op := token.ADD
			if n.Tok == token.DEC {
				op = token.SUB
			}
			return r.rmw(n.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"}, pos)
		}
		n.X = r.expr(n.X)
		return pre, n
	case *ast.AssignStmt:
		return r.assign(n)
	case *ast.ReturnStmt:
		if len(n.Results) == 1 && r.syncCall(n.Results[0]) {
			n.Results[0] = r.expr(n.Results[0])
			return nil, n
		}
		pt(n)
		r.fields(reflect.ValueOf(n).Elem())
		return pre, n
	case *ast.DeclStmt:
		pt(n)
		r.stmts(n)
		return pre, n
	case *ast.BranchStmt, *ast.EmptyStmt:
		return nil, n
	}
	r.stmts(s)
	return pre, s
}

func (r *pkgRW) rmw(x ast.Expr, op token.Token, y ast.Expr, pos token.Pos) ([]ast.Stmt, ast.Stmt) {
	tmp := r.sym("rmw")
	rd := clone(x)
	pre := []ast.Stmt{r.point(pos), define(tmp, rd), r.point(pos)}
	if be, ok := y.(*ast.BinaryExpr); ok {
		y = &ast.ParenExpr{X: be}
	}
	return pre, &ast.AssignStmt{Lhs: []ast.Expr{x}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: ast.NewIdent(tmp.Name), Op: op, Y: y}}}
}

func (r *pkgRW) assign(n *ast.AssignStmt) (pre []ast.Stmt, out ast.Stmt) {
	pos := n.Pos()
	full := r.level >= 2
	if op, ok := opOf[n.Tok]; ok {
		if full && r.touches(n.Lhs[0]) && r.pure(n.Lhs[0]) && r.pure(n.Rhs[0]) {
			return r.rmw(n.Lhs[0], op, n.Rhs[0], pos)
		}
		if full && r.touches(n) {
			pre = append(pre, r.point(pos))
		}
		r.stmts(n)
		return pre, n
	}
	if full && len(n.Rhs) == 1 && len(n.Lhs) == 1 && r.syncCall(n.Rhs[0]) {
		r.stmts(n)
		return nil, n
	}
	if full && r.touches(n) {
		pre = append(pre, r.point(pos))
		lpure := true
		for _, l := range n.Lhs {
			if !r.pure(l) {
				lpure = false
			}
		}
		switch {
		case len(n.Lhs) == len(n.Rhs) && len(n.Rhs) > 1 && lpure:
			// reads one after the other, then the writes
			all := true
			cnt := 0
			for _, e := range n.Rhs {
				if r.touches(e) && r.pure(e) {
					cnt++
				} else if !r.pure(e) {
					all = false
				}
			}
			lshared := n.Tok == token.ASSIGN && r.touches(lhsNodes(n)...)
			if all && (cnt > 1 || cnt == 1 && lshared) {
				for i, e := range n.Rhs {
					if r.touches(e) && r.hoistable(e) {
						tmp := r.sym("v")
						pre = append(pre, define(tmp, r.expr(e)), r.point(pos))
						n.Rhs[i] = ast.NewIdent(tmp.Name)
					}
				}
			}
		case len(n.Lhs) == 1 && len(n.Rhs) == 1 && n.Tok == token.ASSIGN && lpure && r.touches(n.Lhs[0]) && r.touches(n.Rhs[0]) && r.hoistable(n.Rhs[0]):
			if id, ok := n.Lhs[0].(*ast.Ident); ok && id.Name == "_" {
				break
			}
			tmp := r.sym("v")
			pre = append(pre, define(tmp, r.expr(n.Rhs[0])), r.point(pos))
			n.Rhs[0] = ast.NewIdent(tmp.Name)
			n.Lhs[0] = r.expr(n.Lhs[0])
			return pre, n
		}
	}
	r.stmts(n)
	return pre, n
}

func lhsNodes(n *ast.AssignStmt) (out []ast.Node) {
	for _, l := range n.Lhs {
		out = append(out, l)
	}
	return out
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *pkgRW) rangeStmt(n *ast.RangeStmt) (pre []ast.Stmt, out ast.Stmt) {
	pos := n.Pos()
	if r.level >= 2 && r.touches(n.X) {
		pre = append(pre, r.point(pos))
	}
	tv := r.info.Types[n.X]
	body := func() []ast.Stmt { return append([]ast.Stmt{r.loopPoint(pos)}, r.block(n.Body.List)...) }
	switch tv.Type.Underlying().(type) {
	case *types.Map:
		m := r.sym("m")
		pre = append(pre, define(m, r.expr(n.X)))
		id := func(i *ast.Ident) *ast.Ident { return ast.NewIdent(i.Name) }
		key := r.sym("k")
		var head []ast.Stmt
		okv := r.sym("ok")
		// entries removed meanwhile are skipped
		head = append(head, &ast.IfStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), okv}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: id(m), Index: id(key)}}},
			Cond: &ast.UnaryExpr{Op: token.NOT, X: id(okv)},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		if n.Tok == token.DEFINE && !(blank(n.Key) && blank(n.Value)) {
			var l []ast.Expr
			l = append(l, orBlank(n.Key), orBlank(n.Value))
			pre = append(pre, &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: []ast.Expr{r.call(r.sched("KV"), id(m))}})
			for _, e := range l {
				if !blank(e) {
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{clone(e)}})
				}
			}
		}
		if !blank(n.Key) {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{clone(n.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(key)}})
		}
		if !blank(n.Value) {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{clone(n.Value)}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.IndexExpr{X: id(m), Index: id(key)}}})
		}
		loop := &ast.RangeStmt{Key: ast.NewIdent("_"), Value: key, Tok: token.DEFINE, X: r.call(r.sched("Keys"), id(m)),
			Body: &ast.BlockStmt{List: append(head, body()...)}}
		return r.scoped(pre, loop, n)
	case *types.Chan:
		c := r.sym("c")
		pre = append(pre, define(c, r.expr(n.X)))
		okv := r.sym("ok")
		v := r.sym("v")
		head := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{v, okv}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call(r.sched("Recv2"), ast.NewIdent(c.Name))}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(okv.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		}
		if blank(n.Key) {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v.Name)}})
		} else {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{n.Key}, Tok: n.Tok, Rhs: []ast.Expr{ast.NewIdent(v.Name)}})
		}
		return pre, &ast.ForStmt{Body: &ast.BlockStmt{List: append(head, body()...)}}
	}
	n.X = r.expr(n.X)
	if n.Tok == token.ASSIGN {
		if n.Key != nil {
			n.Key = r.expr(n.Key)
		}
		if n.Value != nil {
			n.Value = r.expr(n.Value)
		}
	}
	n.Body.List = body()
	return pre, n
}

func orBlank(e ast.Expr) ast.Expr {
	if e == nil {
		return ast.NewIdent("_")
	}
	return e
}

// scoped keeps hoisted declarations of user-visible names in a block of their
// own (for a labelled loop the label opens it).
func (r *pkgRW) scoped(pre []ast.Stmt, loop ast.Stmt, n *ast.RangeStmt) ([]ast.Stmt, ast.Stmt) {
	if r.labelled[n] {
		return pre, loop
	}
	return nil, &ast.BlockStmt{List: append(pre, loop)}
}

func (r *pkgRW) selectStmt(n *ast.SelectStmt) (pre []ast.Stmt, out ast.Stmt) {
	if len(n.Body.List) == 0 {
		return nil, &ast.ExprStmt{X: r.call(r.sched("Block"))}
	}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDef := "false"
	var cases []ast.Expr
	var def *ast.CaseClause
	for _, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			def = &ast.CaseClause{Body: r.block(cc.Body)}
			continue
		}
		id := r.sym("case")
		var head []ast.Stmt
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, define(id, r.call(r.sched("CaseSend"), r.expr(m.Chan), r.expr(m.Value))))
		case *ast.ExprStmt:
			u := unparen(m.X).(*ast.UnaryExpr)
			pre = append(pre, define(id, r.call(r.sched("CaseRecv"), r.expr(u.X))))
		case *ast.AssignStmt:
			u := unparen(m.Rhs[0]).(*ast.UnaryExpr)
			pre = append(pre, define(id, r.call(r.sched("CaseRecv"), r.expr(u.X))))
			rhs := []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(id.Name), Sel: ast.NewIdent("V")}}
			if len(m.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: ast.NewIdent(id.Name), Sel: ast.NewIdent("OK")})
			}
			for i := range m.Lhs {
				m.Lhs[i] = r.expr(m.Lhs[i])
			}
			head = append(head, &ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: rhs})
		}
		k := len(cases)
		cases = append(cases, ast.NewIdent(id.Name))
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(k)}},
			Body: append(head, r.block(cc.Body)...)})
	}
	if def == nil {
		def = &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: r.call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}}
	}
	sw.Body.List = append(sw.Body.List, def)
	sw.Tag = r.call(r.sched("Select"), append([]ast.Expr{ast.NewIdent(hasDef)}, cases...)...)
	return pre, sw
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *pkgRW) goStmt(n *ast.GoStmt) (pre []ast.Stmt, out ast.Stmt) {
	c := n.Call
	if r.level >= 2 && r.touches(c) {
		pre = append(pre, r.point(n.Pos()))
	}
	var hoist []ast.Stmt
	for i, a := range c.Args {
		if r.hoistableArg(a) {
			tmp := r.sym("a")
			hoist = append(hoist, define(tmp, r.expr(a)))
			c.Args[i] = ast.NewIdent(tmp.Name)
		} else {
			c.Args[i] = r.expr(a)
		}
	}
	if fl, ok := c.Fun.(*ast.FuncLit); ok {
		fl.Body.List = r.block(fl.Body.List)
		if len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
			return pre, &ast.ExprStmt{X: r.call(r.sched("Go"), fl)}
		}
	} else if tv, ok := r.info.Types[c.Fun]; ok && tv.IsValue() {
		tmp := r.sym("f")
		hoist = append(hoist, define(tmp, r.expr(c.Fun)))
		c.Fun = ast.NewIdent(tmp.Name)
	} else {
		c.Fun = r.expr(c.Fun)
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}}
	hoist = append(hoist, &ast.ExprStmt{X: r.call(r.sched("Go"), lit)})
	return pre, &ast.BlockStmt{List: hoist}
}

func (r *pkgRW) hoistableArg(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Value != nil || tv.IsNil() {
		return false
	}
	return true
}

// ---- files ----

func (r *pkgRW) file(f *ast.File) ([]byte, error) {
	r.extra = map[string]string{}
	r.labelled = map[ast.Stmt]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if l, ok := n.(*ast.LabeledStmt); ok {
			r.labelled[l.Stmt] = true
		}
		return true
	})
	r.findCaptured(f)
	var build []string
	for _, g := range f.Comments {
		if g.Pos() > f.Package {
			break
		}
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:build") {
				build = append(build, c.Text)
			}
		}
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			r.fieldList(d.Recv)
			r.funcType(d.Type)
			if d.Body != nil {
				d.Body.List = r.block(d.Body.List)
			}
			d.Doc = nil
		case *ast.GenDecl:
			if d.Tok != token.IMPORT {
				r.genDecl(d)
			}
			d.Doc = nil
		}
	}
	// imports
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				used[id.Name] = true
			}
		}
		return true
	})
	var specs []ast.Spec
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			local := ""
			if is.Name != nil {
				local = is.Name.Name
			} else if o, ok := r.info.Implicits[is].(*types.PkgName); ok {
				local = o.Name()
			}
			switch path {
			case "sync":
				is.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(zvBase + "vsync")}
				is.Name = ast.NewIdent(local)
			case "sync/atomic":
				is.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(zvBase + "vatomic")}
				is.Name = ast.NewIdent(local)
			}
			if local != "_" && local != "." && !used[local] {
				is.Name = ast.NewIdent("_")
			}
			is.Doc, is.Comment = nil, nil
			specs = append(specs, &ast.ImportSpec{Name: is.Name, Path: &ast.BasicLit{Kind: token.STRING, Value: is.Path.Value}})
		}
	}
	var als []string
	for a := range r.extra {
		als = append(als, a)
	}
	sort.Strings(als)
	for _, a := range als {
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(a), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r.extra[a])}})
	}
	var decls []ast.Decl
	for _, s := range specs {
		decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{s}})
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		decls = append(decls, d)
	}
	nf := &ast.File{Name: ast.NewIdent(f.Name.Name), Decls: decls}
	var buf bytes.Buffer
	for _, b := range build {
		buf.WriteString(b + "\n\n")
	}
	stripPos(nf)
	if err := format.Node(&buf, token.NewFileSet(), nf); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

// stripPos removes positions and comments so that the printer lays the file
// out afresh.
func stripPos(n ast.Node) {
	posT := reflect.TypeOf(token.Pos(0))
	ast.Inspect(n, func(n ast.Node) bool {
		if n == nil {
			return false
		}
		v := reflect.ValueOf(n).Elem()
		if v.Kind() != reflect.Struct {
			return true
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			name := v.Type().Field(i).Name
			if f.Type() == posT {
				keep := int64(0)
				// positions that carry meaning
				if (name == "Ellipsis" || name == "Assign" || name == "Lparen" || name == "Rparen" || name == "Arrow" || name == "TokPos") && f.Int() != 0 {
					if name == "Ellipsis" || name == "Assign" || name == "Lparen" && isGroup(n) {
						keep = 1
					}
				}
				f.SetInt(keep)
			}
			if f.Type() == reflect.TypeOf((*ast.CommentGroup)(nil)) {
				f.Set(reflect.Zero(f.Type()))
			}
		}
		return true
	})
}

func isGroup(n ast.Node) bool {
	g, ok := n.(*ast.GenDecl)
	return ok && len(g.Specs) > 0
}
