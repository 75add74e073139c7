package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
)

func (r *rw) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	b.List = r.stmts(b.List)
	return b
}

func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, r.stmt(s, nil)...)
	}
	return out
}

func (r *rw) fresh(p string) string { r.tmp++; return fmt.Sprintf("zz%s%d", p, r.tmp) }

func exprStmt(e ast.Expr) ast.Stmt { return &ast.ExprStmt{X: e} }

func define(n string, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}

func one(l []ast.Stmt) ast.Stmt {
	if len(l) == 1 {
		return l[0]
	}
	return &ast.BlockStmt{List: l}
}

// simple rewrites a statement in an init or post position, where only one statement fits.
func (r *rw) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	l := r.stmt(s, nil)
	if len(l) > 0 {
		return l[0]
	}
	return nil
}

func (r *rw) stmt(s ast.Stmt, label *ast.Ident) []ast.Stmt {
	lab := func(x ast.Stmt) ast.Stmt {
		if label != nil {
			return &ast.LabeledStmt{Label: label, Stmt: x}
		}
		return x
	}
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
		return []ast.Stmt{lab(x)}
	case *ast.SendStmt:
		return []ast.Stmt{lab(exprStmt(call(&ast.SelectorExpr{X: call(vs("S"), r.expr(x.Chan)), Sel: id("Send")}, r.expr(x.Value))))}
	case *ast.IncDecStmt:
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		return []ast.Stmt{lab(r.opAssign(x, x.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"}, func(l ast.Expr) ast.Stmt { x.X = l; return x }))}
	case *ast.AssignStmt:
		return r.assign(x, lab)
	case *ast.GoStmt:
		return []ast.Stmt{lab(r.goStmt(x))}
	case *ast.DeferStmt:
		r.deferCall(x.Call)
		return []ast.Stmt{lab(x)}
	case *ast.ReturnStmt:
		r.exprs(x.Results)
		return []ast.Stmt{lab(x)}
	case *ast.BranchStmt, *ast.EmptyStmt:
		return []ast.Stmt{lab(s)}
	case *ast.BlockStmt:
		return []ast.Stmt{lab(r.block(x))}
	case *ast.IfStmt:
		x.Init = r.simple(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Body = r.block(x.Body)
		if x.Else != nil {
			x.Else = one(r.stmt(x.Else, nil))
		}
		return []ast.Stmt{lab(x)}
	case *ast.SwitchStmt:
		x.Init = r.simple(x.Init)
		x.Tag = r.expr(x.Tag)
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			r.exprs(cc.List)
			cc.Body = r.stmts(cc.Body)
		}
		return []ast.Stmt{lab(x)}
	case *ast.TypeSwitchStmt:
		x.Init = r.simple(x.Init)
		switch a := x.Assign.(type) {
		case *ast.AssignStmt:
			ta := unparen(a.Rhs[0]).(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X)
		case *ast.ExprStmt:
			ta := unparen(a.X).(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X)
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				if t := r.info.Types[cc.List[i]]; t.IsType() {
					cc.List[i] = r.typ(cc.List[i])
				}
			}
			cc.Body = r.stmts(cc.Body)
		}
		return []ast.Stmt{lab(x)}
	case *ast.LabeledStmt:
		return r.stmt(x.Stmt, x.Label)
	case *ast.ForStmt:
		moves := r.moves(x)
		x.Init = r.simple(x.Init)
		cond := x.Cond
		x.Cond = r.expr(x.Cond)
		x.Post = r.simple(x.Post)
		x.Body = r.block(x.Body)
		var h ast.Stmt
		if x.Post == nil || cond == nil {
			site := r.site(x, "loop")
			h = exprStmt(call(vs("Loop"), append([]ast.Expr{site}, moves...)...))
			x.Body.List = append([]ast.Stmt{h}, x.Body.List...)
			return []ast.Stmt{exprStmt(call(vs("LoopIn"), site)), lab(x)}
		}
		h = exprStmt(call(vs("Tick")))
		x.Body.List = append([]ast.Stmt{h}, x.Body.List...)
		return []ast.Stmt{lab(x)}
	case *ast.RangeStmt:
		return r.rangeStmt(x, lab)
	case *ast.SelectStmt:
		return []ast.Stmt{r.selectStmt(x, lab)}
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				switch sp := sp.(type) {
				case *ast.ValueSpec:
					sp.Type = r.typ(sp.Type)
					if g.Tok == token.VAR {
						if len(sp.Values) == 1 && len(sp.Names) == 2 {
							sp.Values[0] = r.commaOK(sp.Values[0])
						} else {
							r.exprs(sp.Values)
						}
					}
				case *ast.TypeSpec:
					sp.Type = r.typ(sp.Type)
				}
			}
		}
		return []ast.Stmt{lab(x)}
	}
	return []ast.Stmt{lab(s)}
}

// moves lists the plain local variables the loop changes: while they do, it gets somewhere.
func (r *rw) moves(x *ast.ForStmt) (l []ast.Expr) {
	seen := map[types.Object]bool{}
	add := func(e ast.Expr) {
		i, ok := unparen(e).(*ast.Ident)
		if !ok || i.Name == "_" {
			return
		}
		v, ok := r.info.Uses[i].(*types.Var)
		if !ok || seen[v] || r.shared[v] || v.IsField() || v.Parent() == nil || v.Pkg() == nil || v.Parent() == v.Pkg().Scope() {
			return
		}
		if v.Pos() > x.Body.Pos() && v.Pos() < x.Body.End() {
			return
		}
		seen[v] = true
		switch t := under(v.Type()).(type) {
		case *types.Basic:
			if t.Info()&types.IsInteger != 0 {
				l = append(l, call(id("uint64"), id(i.Name)))
			} else if t.Info()&types.IsString != 0 {
				l = append(l, call(id("uint64"), call(id("len"), id(i.Name))))
			}
		case *types.Slice:
			l = append(l, call(id("uint64"), call(id("len"), id(i.Name))))
		case *types.Pointer:
			l = append(l, call(vs("At"), id(i.Name)))
		}
	}
	// a name hidden within the body means something else at its head only if it is declared
	// there, which has been excluded
	ast.Inspect(x.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.AssignStmt:
			for _, e := range n.Lhs {
				add(e)
			}
		case *ast.IncDecStmt:
			add(n.X)
		}
		return true
	})
	if x.Post != nil {
		switch n := x.Post.(type) {
		case *ast.AssignStmt:
			for _, e := range n.Lhs {
				add(e)
			}
		case *ast.IncDecStmt:
			add(n.X)
		}
	}
	return l
}

func (r *rw) deferCall(c *ast.CallExpr) {
	n := r.call(c)
	if nc, ok := n.(*ast.CallExpr); ok {
		*c = *nc
	}
}

// commaOK rewrites the right side of a two-valued assignment.
func (r *rw) commaOK(e ast.Expr) ast.Expr {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return call(vs("Recv2"), r.expr(u.X))
	}
	return r.expr(e)
}

// target rewrites an assignment target for the plain form of assignment.
func (r *rw) target(l ast.Expr) ast.Expr {
	l = unparen(l)
	if i, ok := l.(*ast.Ident); ok && i.Name == "_" {
		return l
	}
	if ix, ok := l.(*ast.IndexExpr); ok && r.isMap(ix.X) {
		s := r.site(l, "")
		m := r.expr(ix.X)
		k := r.expr(ix.Index)
		if !*syncOnly {
			m = call(vs("MW"), m, s)
		}
		return &ast.IndexExpr{X: m, Index: k}
	}
	if r.location(l) {
		s := r.site(l, "")
		return &ast.StarExpr{X: call(vs("Wr"), addr(r.lval(l)), s)}
	}
	return r.lval(l)
}

// dup makes a second, separately rewritable copy of an expression.
func (r *rw) dup(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.Ident:
		return x
	case *ast.BasicLit:
		return x
	case *ast.ParenExpr:
		n := *x
		n.X = r.dup(x.X)
		r.same(x, &n)
		return &n
	case *ast.SelectorExpr:
		n := *x
		n.X = r.dup(x.X)
		r.same(x, &n)
		if s := r.info.Selections[x]; s != nil {
			r.info.Selections[&n] = s
		}
		return &n
	case *ast.IndexExpr:
		n := *x
		n.X = r.dup(x.X)
		n.Index = r.dup(x.Index)
		r.same(x, &n)
		return &n
	case *ast.StarExpr:
		n := *x
		n.X = r.dup(x.X)
		r.same(x, &n)
		return &n
	case *ast.UnaryExpr:
		n := *x
		n.X = r.dup(x.X)
		r.same(x, &n)
		return &n
	case *ast.BinaryExpr:
		n := *x
		n.X = r.dup(x.X)
		n.Y = r.dup(x.Y)
		r.same(x, &n)
		return &n
	case *ast.CallExpr:
		n := *x
		n.Fun = r.dup(x.Fun)
		n.Args = nil
		for _, a := range x.Args {
			n.Args = append(n.Args, r.dup(a))
		}
		r.same(x, &n)
		return &n
	}
	return nil
}

func (r *rw) same(a, b ast.Expr) {
	if tv, ok := r.info.Types[a]; ok {
		r.info.Types[b] = tv
	}
}

func (r *rw) opAssign(n ast.Node, l ast.Expr, op token.Token, rhs ast.Expr, plain func(l ast.Expr) ast.Stmt) ast.Stmt {
	l = unparen(l)
	if ix, ok := l.(*ast.IndexExpr); ok && r.isMap(ix.X) && !*syncOnly {
		d := r.dupAll(l, 2)
		if r.pure(l) && d != nil {
			s1, s2 := r.site(l, ""), r.site(l, "")
			a, b, c := d[0].(*ast.IndexExpr), d[1].(*ast.IndexExpr), ix
			read := &ast.IndexExpr{X: call(vs("MR"), r.expr(a.X), s1), Index: r.expr(a.Index)}
			val := &ast.BinaryExpr{X: read, Op: op, Y: &ast.ParenExpr{X: r.expr(rhs)}}
			return &ast.AssignStmt{Lhs: []ast.Expr{&ast.IndexExpr{X: r.expr(c.X), Index: r.expr(c.Index)}}, Tok: token.ASSIGN,
				Rhs: []ast.Expr{call(vs("MWv"), r.expr(b.X), val, s2)}}
		}
		return plain(r.target(l))
	}
	if !r.location(l) {
		st := plain(r.lval(l))
		if a, ok := st.(*ast.AssignStmt); ok {
			a.Rhs[0] = r.expr(rhs)
		}
		return st
	}
	d := r.dupAll(l, 2)
	if r.pure(l) && d != nil {
		s1, s2 := r.site(l, ""), r.site(l, "")
		read := deref(call(vs("Rd"), addr(r.lval(d[0])), s1))
		val := &ast.BinaryExpr{X: read, Op: op, Y: &ast.ParenExpr{X: r.expr(rhs)}}
		return &ast.AssignStmt{Lhs: []ast.Expr{r.lval(l)}, Tok: token.ASSIGN,
			Rhs: []ast.Expr{call(vs("Wv"), addr(r.lval(d[1])), val, s2)}}
	}
	st := plain(r.target(l))
	if a, ok := st.(*ast.AssignStmt); ok {
		a.Rhs[0] = r.expr(rhs)
	}
	return st
}

func (r *rw) dupAll(e ast.Expr, n int) []ast.Expr {
	var out []ast.Expr
	for i := 0; i < n; i++ {
		d := r.dup(e)
		if !complete(d) {
			return nil
		}
		out = append(out, d)
	}
	return out
}

func complete(e ast.Expr) bool {
	switch x := e.(type) {
	case nil:
		return false
	case *ast.ParenExpr:
		return complete(x.X)
	case *ast.SelectorExpr:
		return complete(x.X)
	case *ast.IndexExpr:
		return complete(x.X) && complete(x.Index)
	case *ast.StarExpr:
		return complete(x.X)
	case *ast.UnaryExpr:
		return complete(x.X)
	case *ast.BinaryExpr:
		return complete(x.X) && complete(x.Y)
	case *ast.CallExpr:
		if !complete(x.Fun) {
			return false
		}
		for _, a := range x.Args {
			if !complete(a) {
				return false
			}
		}
	}
	return true
}

var opOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
	token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

// vType reports whether the value can pass through a generic call and keep being assignable
// to a location of type t.
func (r *rw) valueOK(l, v ast.Expr) bool {
	tv, ok := r.info.Types[v]
	if !ok || tv.IsNil() || tv.Value != nil || tv.Type == nil {
		return false
	}
	if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return false
	}
	if _, ok := tv.Type.(*types.Tuple); ok {
		return false
	}
	lt := r.info.TypeOf(l)
	if i, ok := unparen(l).(*ast.Ident); ok && lt == nil {
		if o := r.info.ObjectOf(i); o != nil {
			lt = o.Type()
		}
	}
	if lt == nil {
		return false
	}
	if types.Identical(lt, tv.Type) {
		// comparisons and shifts of untyped operands get a type only from their context
		switch x := unparen(v).(type) {
		case *ast.BinaryExpr:
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ, token.LAND, token.LOR, token.SHL, token.SHR:
				_, basic := lt.(*types.Basic)
				return basic && x.Op != token.SHL && x.Op != token.SHR
			}
		}
		return true
	}
	return types.AssignableTo(tv.Type, lt)
}

func (r *rw) assign(x *ast.AssignStmt, lab func(ast.Stmt) ast.Stmt) []ast.Stmt {
	if op, ok := opOf[x.Tok]; ok {
		rhs := x.Rhs[0]
		return []ast.Stmt{lab(r.opAssign(x, x.Lhs[0], op, rhs, func(l ast.Expr) ast.Stmt { x.Lhs[0] = l; x.Rhs[0] = rhs; return x }))}
	}
	if x.Tok == token.DEFINE {
		var after []ast.Stmt
		for _, l := range x.Lhs {
			if i, ok := l.(*ast.Ident); ok && i.Name != "_" && r.info.Defs[i] == nil && r.location(i) {
				after = append(after, exprStmt(call(vs("Wr"), addr(id(i.Name)), r.site(i, ""))))
			}
		}
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			x.Rhs[0] = r.commaOK(x.Rhs[0])
		} else {
			r.exprs(x.Rhs)
		}
		return append([]ast.Stmt{lab(x)}, after...)
	}
	// plain assignment
	if len(x.Lhs) == 1 && len(x.Rhs) == 1 {
		l := unparen(x.Lhs[0])
		ix, isIdx := l.(*ast.IndexExpr)
		if isIdx && r.isMap(ix.X) && !*syncOnly {
			if d := r.dupAll(ix.X, 1); r.pure(l) && d != nil && r.valueOK(l, x.Rhs[0]) {
				s := r.site(l, "")
				v := r.expr(x.Rhs[0])
				x.Lhs[0] = &ast.IndexExpr{X: r.expr(ix.X), Index: r.expr(ix.Index)}
				x.Rhs[0] = call(vs("MWv"), r.expr(d[0]), v, s)
				return []ast.Stmt{lab(x)}
			}
		} else if r.location(l) && r.pure(l) && r.valueOK(l, x.Rhs[0]) {
			if d := r.dupAll(l, 1); d != nil {
				s := r.site(l, "")
				v := r.expr(x.Rhs[0])
				x.Lhs[0] = r.lval(l)
				x.Rhs[0] = call(vs("Wv"), addr(r.lval(d[0])), v, s)
				return []ast.Stmt{lab(x)}
			}
		}
	}
	for i := range x.Lhs {
		x.Lhs[i] = r.target(x.Lhs[i])
	}
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		x.Rhs[0] = r.commaOK(x.Rhs[0])
	} else {
		r.exprs(x.Rhs)
	}
	return []ast.Stmt{lab(x)}
}

func (r *rw) goStmt(x *ast.GoStmt) ast.Stmt {
	p := r.fset.Position(x.Pos())
	gname := &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", fmt.Sprintf("%s:%d", r.fn, p.Line))}
	c := x.Call
	sig, _ := under(r.info.TypeOf(c.Fun)).(*types.Signature)
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && sig != nil && sig.Results().Len() == 0 {
		return exprStmt(call(vs("Go"), gname, r.expr(fl)))
	}
	var pre []ast.Stmt
	builtin := false
	if i, ok := unparen(c.Fun).(*ast.Ident); ok {
		_, builtin = r.info.Uses[i].(*types.Builtin)
	}
	if builtin {
		return exprStmt(call(vs("Go"), gname, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{exprStmt(r.call(c))}}}))
	}
	var f ast.Expr
	direct := false
	if se, ok := unparen(c.Fun).(*ast.SelectorExpr); ok && r.isQual(se) {
		direct = true
	}
	if i, ok := unparen(c.Fun).(*ast.Ident); ok {
		if _, isf := r.info.Uses[i].(*types.Func); isf {
			direct = true
		}
	}
	if direct {
		f = r.expr(c.Fun)
	} else {
		n := r.fresh("f")
		pre = append(pre, define(n, r.expr(c.Fun)))
		f = id(n)
	}
	inner := &ast.CallExpr{Fun: f, Ellipsis: c.Ellipsis}
	for _, a := range c.Args {
		tv := r.info.Types[a]
		inline := tv.Value != nil || tv.IsNil()
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			inline = true
		}
		if inline {
			inner.Args = append(inner.Args, r.expr(a))
			continue
		}
		if _, ok := tv.Type.(*types.Tuple); ok {
			inner.Args = append(inner.Args, r.expr(a))
			continue
		}
		n := r.fresh("a")
		pre = append(pre, define(n, r.expr(a)))
		inner.Args = append(inner.Args, id(n))
	}
	if c.Ellipsis.IsValid() {
		inner.Ellipsis = 1
	}
	g := exprStmt(call(vs("Go"), gname, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{exprStmt(inner)}}}))
	if len(pre) == 0 {
		return g
	}
	return &ast.BlockStmt{List: append(pre, g)}
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (r *rw) rangeStmt(x *ast.RangeStmt, lab func(ast.Stmt) ast.Stmt) []ast.Stmt {
	tick := exprStmt(call(vs("Tick")))
	// loop variables other goroutines may see are written by every iteration
	var writes []ast.Stmt
	for _, e := range []ast.Expr{x.Key, x.Value} {
		if e == nil || blank(e) {
			continue
		}
		if i, ok := e.(*ast.Ident); ok {
			if o := r.info.ObjectOf(i); o != nil && r.shared[o] && !*syncOnly && !syncType(o.Type()) {
				writes = append(writes, exprStmt(call(vs("Wr"), addr(id(i.Name)), r.site(i, ""))))
			}
		}
	}
	switch under(r.info.TypeOf(x.X)).(type) {
	case *types.Map:
		if *syncOnly {
			break
		}
		m := r.expr(x.X)
		s := r.site(x.X, "range")
		it := r.fresh("it")
		nk, nv := blank(x.Key), blank(x.Value)
		if x.Tok == token.ASSIGN && !(nk && nv) {
			a, b, ok := r.fresh("k"), r.fresh("v"), r.fresh("ok")
			head := []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{id(a), id(b), id(ok)}, Tok: token.DEFINE,
					Rhs: []ast.Expr{call(&ast.SelectorExpr{X: id(it), Sel: id("Step")})}},
				&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
			}
			l := []ast.Expr{id("_"), id("_")}
			if !nk {
				l[0] = r.target(x.Key)
			}
			if !nv {
				l[1] = r.target(x.Value)
			}
			head = append(head, &ast.AssignStmt{Lhs: l, Tok: token.ASSIGN, Rhs: []ast.Expr{id(a), id(b)}})
			body := r.block(x.Body)
			body.List = append(head, body.List...)
			return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{id(it), id("_"), id("_")}, Tok: token.DEFINE, Rhs: []ast.Expr{call(vs("MapIter3"), m, s)}},
				lab(&ast.ForStmt{Body: body})}}}
		}
		var lhs []ast.Expr
		var args []ast.Expr
		fn, nx := "MapIter1", "Next1"
		switch {
		case !nk && !nv:
			fn, nx = "MapIter3", "Next3"
			lhs = []ast.Expr{x.Key, x.Value}
			args = []ast.Expr{addr(id(x.Key.(*ast.Ident).Name)), addr(id(x.Value.(*ast.Ident).Name))}
		case !nk:
			fn, nx = "MapIter2", "Next2"
			lhs = []ast.Expr{x.Key}
			args = []ast.Expr{addr(id(x.Key.(*ast.Ident).Name))}
		case !nv:
			fn, nx = "MapIterV", "NextV"
			lhs = []ast.Expr{x.Value}
			args = []ast.Expr{addr(id(x.Value.(*ast.Ident).Name))}
		}
		body := r.block(x.Body)
		body.List = append([]ast.Stmt{tick}, body.List...)
		return []ast.Stmt{lab(&ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: append([]ast.Expr{id(it)}, lhs...), Tok: token.DEFINE, Rhs: []ast.Expr{call(vs(fn), m, s)}},
			Cond: call(&ast.SelectorExpr{X: id(it), Sel: id(nx)}, args...),
			Body: body})}
	case *types.Chan:
		ch := r.expr(x.X)
		it := r.fresh("it")
		if blank(x.Key) {
			body := r.block(x.Body)
			return []ast.Stmt{lab(&ast.ForStmt{Init: define(it, call(vs("RangeChan1"), ch)),
				Cond: call(&ast.SelectorExpr{X: id(it), Sel: id("Next1")}), Body: body})}
		}
		if x.Tok == token.ASSIGN {
			v, ok := r.fresh("v"), r.fresh("ok")
			head := []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{id(v), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(vs("Recv2"), id(it))}},
				&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
				&ast.AssignStmt{Lhs: []ast.Expr{r.target(x.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}},
			}
			body := r.block(x.Body)
			body.List = append(head, body.List...)
			return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{define(it, ch), lab(&ast.ForStmt{Body: body})}}}
		}
		body := r.block(x.Body)
		body.List = append(writes, body.List...)
		return []ast.Stmt{lab(&ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{id(it), x.Key}, Tok: token.DEFINE, Rhs: []ast.Expr{call(vs("RangeChan"), ch)}},
			Cond: call(&ast.SelectorExpr{X: id(it), Sel: id("Next")}, addr(id(x.Key.(*ast.Ident).Name))), Body: body})}
	case *types.Slice:
		if *syncOnly || blank(x.Value) || x.Tok == token.ASSIGN {
			break
		}
		if el, ok := under(r.info.TypeOf(x.X)).(*types.Slice).Elem().Underlying().(*types.Basic); ok && el.Kind() == types.Uint8 {
			break
		}
		s := r.site(x.X, "range "+types.ExprString(x.X))
		n := r.fresh("r")
		pre := define(n, r.expr(x.X))
		x.X = id(n)
		key := ""
		if blank(x.Key) {
			key = r.fresh("i")
			x.Key = id(key)
		} else {
			key = x.Key.(*ast.Ident).Name
		}
		rd := exprStmt(call(vs("Rd"), addr(&ast.IndexExpr{X: id(n), Index: id(key)}), s))
		x.Body = r.block(x.Body)
		x.Body.List = append(append([]ast.Stmt{tick}, append(writes, rd)...), x.Body.List...)
		return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{pre, lab(x)}}}
	}
	if _, ok := under(r.info.TypeOf(x.X)).(*types.Array); ok {
		x.X = r.lval(x.X)
	} else {
		x.X = r.expr(x.X)
	}
	if x.Tok == token.ASSIGN {
		if x.Key != nil {
			x.Key = r.lval(x.Key)
		}
		if x.Value != nil {
			x.Value = r.lval(x.Value)
		}
	}
	x.Body = r.block(x.Body)
	x.Body.List = append(append([]ast.Stmt{tick}, writes...), x.Body.List...)
	return []ast.Stmt{lab(x)}
}

func (r *rw) selectStmt(x *ast.SelectStmt, lab func(ast.Stmt) ast.Stmt) ast.Stmt {
	unreachable := exprStmt(call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}))
	if len(x.Body.List) == 0 {
		return &ast.BlockStmt{List: []ast.Stmt{exprStmt(call(vs("BlockForever"))), unreachable}}
	}
	var pre []ast.Stmt
	var args []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDefault := "false"
	n := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: r.stmts(cc.Body)})
			continue
		}
		v := r.fresh("c")
		var head []ast.Stmt
		recv := func(e ast.Expr) ast.Expr { return unparen(e).(*ast.UnaryExpr).X }
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, define(v, call(&ast.SelectorExpr{X: call(vs("SC"), r.expr(s.Chan)), Sel: id("Val")}, r.expr(s.Value))))
		case *ast.ExprStmt:
			pre = append(pre, define(v, call(vs("RC"), r.expr(recv(s.X)))))
		case *ast.AssignStmt:
			pre = append(pre, define(v, call(vs("RC"), r.expr(recv(s.Rhs[0])))))
			rhs := []ast.Expr{&ast.SelectorExpr{X: id(v), Sel: id("V")}}
			if len(s.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: id(v), Sel: id("OK")})
			}
			if s.Tok == token.ASSIGN {
				for i := range s.Lhs {
					s.Lhs[i] = r.target(s.Lhs[i])
				}
			}
			head = append(head, &ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok, Rhs: rhs})
		}
		args = append(args, id(v))
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{num(n)}, Body: append(head, r.stmts(cc.Body)...)})
		n++
	}
	if hasDefault == "false" {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{unreachable}})
	}
	sw.Tag = call(vs("Select"), append([]ast.Expr{id(hasDefault)}, args...)...)
	return &ast.BlockStmt{List: append(pre, lab(sw))}
}
