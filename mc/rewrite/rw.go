package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// replaced maps pkgpath.Name to the name in zzvs.
var replaced = map[string]string{
	"time.Sleep": "Sleep", "time.Now": "Now", "time.Since": "Since", "time.Until": "Until",
	"time.After": "After", "time.AfterFunc": "AfterFunc", "time.NewTimer": "NewTimer",
	"time.NewTicker": "NewTicker", "time.Tick": "Tick_", "time.Timer": "Timer", "time.Ticker": "Ticker",
	"sync.Mutex": "Mutex", "sync.RWMutex": "RWMutex", "sync.WaitGroup": "WaitGroup", "sync.Once": "Once",
	"sync.OnceFunc": "OnceFunc", "sync.Cond": "Cond", "sync.NewCond": "NewCond", "sync.Pool": "Pool", "sync.Map": "Map",
	"net.Listen": "NetListen", "net.Dial": "NetDial", "net.DialTimeout": "NetDialTimeout",
	"net.Dialer": "Dialer", "net.ListenConfig": "ListenConfig",
	"context.WithCancel": "CtxWithCancel", "context.WithTimeout": "CtxWithTimeout", "context.WithDeadline": "CtxWithDeadline",
	"os.Exit": "Exit", "os/signal.Notify": "Notify", "os/signal.Stop": "SigStop", "os/signal.Ignore": "Ignore",
	"os/signal.Reset": "SigReset", "os/signal.NotifyContext": "SigContext",
	"log.Fatal":       "Fatal", "log.Fatalf": "Fatalf", "log.Fatalln": "Fatalln",
	"runtime.Gosched": "Gosched",
	"math/rand.Int":   "RandInt", "math/rand.Int63": "RandInt63", "math/rand.Int31": "RandInt31",
	"math/rand.Uint32": "RandUint32", "math/rand.Uint64": "RandUint64", "math/rand.Intn": "RandIntn",
	"math/rand.Int63n": "RandInt63n", "math/rand.Int31n": "RandInt31n", "math/rand.Float64": "RandFloat64",
	"math/rand.Seed": "RandSeed",
}

var atomicNames = map[string]bool{}

func init() {
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		for _, o := range []string{"Add", "Load", "Store", "Swap", "CompareAndSwap"} {
			replaced["sync/atomic."+o+t] = "Atomic" + o + t
		}
		replaced["sync/atomic."+t] = "Atomic" + t
	}
	replaced["sync/atomic.Bool"] = "AtomicBool"
	replaced["sync/atomic.Value"] = "AtomicValue"
}

// opaque standard types whose methods are not safe for concurrent use
var opaque = map[string]bool{
	"bytes.Buffer": true, "bytes.Reader": true, "strings.Builder": true, "strings.Reader": true,
	"bufio.Reader": true, "bufio.Writer": true, "bufio.Scanner": true, "math/rand.Rand": true,
}

type rw struct {
	fset      *token.FileSet
	info      *types.Info
	pkg       *types.Package
	name      string
	base      int
	sites     []string
	redirects map[string]string
	shared    map[types.Object]bool
	fn        string
	fnKey     string
	used      map[string]bool // import names still in use in this file
	tmp       int
	nInit     int
	resetIni  []string
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func vs(name string) ast.Expr { return &ast.SelectorExpr{X: id("zzvs"), Sel: id(name)} }

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func num(n int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)} }

func (r *rw) site(n ast.Node, what string) ast.Expr {
	p := r.fset.Position(n.Pos())
	if what == "" {
		if e, ok := n.(ast.Expr); ok {
			what = types.ExprString(e)
		}
	}
	if len(what) > 40 {
		what = what[:40]
	}
	r.sites = append(r.sites, fmt.Sprintf("%s.%s: %s (%s:%d)", r.name, r.fn, what, filepath.Base(p.Filename), p.Line))
	return num(r.base + len(r.sites) - 1)
}

// ------------------------------------------------------------------ which locals are shared

func (r *rw) scan(files []*ast.File) {
	r.shared = map[types.Object]bool{}
	captured := map[types.Object]bool{}
	addrTaken := map[types.Object]bool{}
	assigned := map[types.Object]int{}
	depthOf := map[types.Object]*ast.FuncLit{}
	root := func(e ast.Expr) types.Object {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
			case *ast.SelectorExpr:
				if s := r.info.Selections[x]; s != nil && s.Kind() == types.FieldVal {
					if _, ok := r.info.TypeOf(x.X).Underlying().(*types.Pointer); !ok {
						e = x.X
						continue
					}
				}
				return nil
			case *ast.IndexExpr:
				if _, ok := r.info.TypeOf(x.X).Underlying().(*types.Array); ok {
					e = x.X
					continue
				}
				return nil
			case *ast.Ident:
				o := r.info.ObjectOf(x)
				if v, ok := o.(*types.Var); ok && !v.IsField() {
					return o
				}
				return nil
			default:
				return nil
			}
		}
	}
	for _, f := range files {
		var stack []*ast.FuncLit
		var walk func(n ast.Node) bool
		cur := func() *ast.FuncLit {
			if len(stack) == 0 {
				return nil
			}
			return stack[len(stack)-1]
		}
		walk = func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit:
				stack = append(stack, x)
				ast.Inspect(x.Type, walk)
				ast.Inspect(x.Body, walk)
				stack = stack[:len(stack)-1]
				return false
			case *ast.Ident:
				if o := r.info.Defs[x]; o != nil {
					depthOf[o] = cur()
				}
				if o := r.info.Uses[x]; o != nil {
					if v, ok := o.(*types.Var); ok && !v.IsField() {
						if d, ok := depthOf[o]; ok && d != cur() {
							captured[o] = true
						}
					}
				}
			case *ast.TypeSwitchStmt:
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					if o := root(x.X); o != nil {
						addrTaken[o] = true
					}
				}
			case *ast.SliceExpr:
				if _, ok := r.info.TypeOf(x.X).Underlying().(*types.Array); ok {
					if o := root(x.X); o != nil {
						addrTaken[o] = true
					}
				}
			case *ast.SelectorExpr:
				if s := r.info.Selections[x]; s != nil && s.Kind() == types.MethodVal {
					if fn, ok := s.Obj().(*types.Func); ok {
						if sig := fn.Type().(*types.Signature); sig.Recv() != nil {
							if _, ptr := sig.Recv().Type().(*types.Pointer); ptr {
								if _, isptr := s.Recv().Underlying().(*types.Pointer); !isptr {
									if o := root(x.X); o != nil {
										addrTaken[o] = true
									}
								}
							}
						}
					}
				}
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if i, ok := l.(*ast.Ident); ok && x.Tok == token.DEFINE && r.info.Defs[i] != nil {
						continue
					}
					if o := root(l); o != nil {
						assigned[o]++
					}
				}
			case *ast.IncDecStmt:
				if o := root(x.X); o != nil {
					assigned[o]++
				}
			case *ast.RangeStmt:
				for _, e := range []ast.Expr{x.Key, x.Value} {
					if e == nil {
						continue
					}
					if i, ok := e.(*ast.Ident); ok {
						if o := r.info.ObjectOf(i); o != nil {
							assigned[o]++
						}
					} else if o := root(e); o != nil {
						assigned[o]++
					}
				}
			}
			return true
		}
		for _, d := range f.Decls {
			ast.Inspect(d, walk)
		}
	}
	for o := range captured {
		if assigned[o] > 0 {
			r.shared[o] = true
		}
	}
	for o := range addrTaken {
		r.shared[o] = true
	}
	sc := r.pkg.Scope()
	for _, n := range sc.Names() {
		if v, ok := sc.Lookup(n).(*types.Var); ok {
			r.shared[v] = true
		}
	}
}

// ------------------------------------------------------------------ files

func (r *rw) initializers(files []*ast.File) map[*ast.ValueSpec]bool { return nil }

func (r *rw) file(f *ast.File, _ map[*ast.ValueSpec]bool) {
	r.used = map[string]bool{}
	// package variable initializers, evaluated again by every reset
	var extra []ast.Decl
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			r.fn = d.Name.Name
			if d.Recv != nil && len(d.Recv.List) > 0 {
				r.fn = types.ExprString(d.Recv.List[0].Type) + "." + r.fn
			}
			r.fieldList(d.Recv)
			r.funcType(d.Type)
			if d.Body != nil {
				d.Body = r.block(d.Body)
			}
			if d.Recv == nil && d.Name.Name == "init" {
				r.nInit++
				d.Name = id(fmt.Sprintf("zzinit%d", r.nInit))
			}
		case *ast.GenDecl:
			r.fn = "var"
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.ValueSpec:
					s.Type = r.typ(s.Type)
					if d.Tok == token.VAR {
						for i := range s.Values {
							s.Values[i] = r.expr(s.Values[i])
						}
						if len(s.Values) > 0 {
							extra = append(extra, r.initFunc(s)...)
						}
					}
				case *ast.TypeSpec:
					s.Type = r.typ(s.Type)
				}
			}
		}
	}
	f.Decls = append(f.Decls, extra...)
	f.Comments = nil
	f.Doc = nil
	// imports; some names survive where nothing is rewritten, as in constants
	ast.Inspect(f, func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok {
			if p, ok := r.info.Uses[i].(*types.PkgName); ok {
				r.used[p.Name()] = true
			}
		}
		return true
	})
	add := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
		Name: id("zzvs"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(modPath + "/zzvs")}}}}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			name := ""
			if is.Name != nil {
				name = is.Name.Name
			} else if o, ok := r.info.Implicits[is].(*types.PkgName); ok {
				name = o.Name()
			}
			if name != "_" && name != "." && !r.used[name] {
				is.Name = id("_")
			}
			if to := r.redirects[path]; to != "" {
				is.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(to)}
			}
		}
	}
	use := &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{vs("Yield")}}}}
	f.Decls = append(append([]ast.Decl{add}, f.Decls...), use)
	f.Imports = nil
	clean(f)
}

// initFunc makes a function that runs the initializer of s again; it is registered by name.
func (r *rw) initFunc(s *ast.ValueSpec) []ast.Decl {
	var out []ast.Decl
	mk := func(lhs []*ast.Ident, rhs []ast.Expr) {
		name := fmt.Sprintf("zziv_%s_%d", sanit(r.fset.Position(s.Pos()).Filename), s.Pos())
		name += fmt.Sprintf("_%d", len(out))
		var l []ast.Expr
		for _, n := range lhs {
			l = append(l, id(n.Name))
		}
		out = append(out, &ast.FuncDecl{Name: id(name), Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: l, Tok: token.ASSIGN, Rhs: rhs}}}})
		for _, n := range lhs {
			r.ivar()[n] = name
		}
	}
	if len(s.Values) == len(s.Names) {
		for i := range s.Names {
			if s.Type != nil && s.Names[i].Name == "_" {
				continue
			}
			if tv, ok := r.info.Types[s.Values[i]]; ok && tv.IsNil() {
				continue
			}
			mk(s.Names[i:i+1], s.Values[i:i+1])
		}
	} else {
		mk(s.Names, s.Values)
	}
	return out
}

var ivars map[*ast.Ident]string

func (r *rw) ivar() map[*ast.Ident]string {
	if ivars == nil {
		ivars = map[*ast.Ident]string{}
	}
	return ivars
}

func sanit(s string) string {
	return strings.Map(func(c rune) rune {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			return c
		}
		return '_'
	}, filepath.Base(s))
}

// finish writes the reset function and the site table of the package.
func (r *rw) finish(out string, _ map[*ast.ValueSpec]bool) {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport \"%s/zzvs\"\n\nfunc zzreset() {\n", r.name, modPath)
	sc := r.pkg.Scope()
	objs := map[types.Object]*ast.Ident{}
	for i, o := range r.info.Defs {
		if o != nil {
			objs[o] = i
		}
	}
	for _, n := range sc.Names() {
		if v, ok := sc.Lookup(n).(*types.Var); ok {
			fmt.Fprintf(&b, "\tzzvs.Zero(&%s)\n", v.Name())
		}
	}
	done := map[string]bool{}
	for _, in := range r.info.InitOrder {
		for _, v := range in.Lhs {
			if i := objs[v]; i != nil {
				if f := r.ivar()[i]; f != "" && !done[f] {
					done[f] = true
					fmt.Fprintf(&b, "\t%s()\n", f)
				}
			}
		}
	}
	for i := 1; i <= r.nInit; i++ {
		fmt.Fprintf(&b, "\tzzinit%d()\n", i)
	}
	fmt.Fprintf(&b, "}\n\nfunc init() {\n\tzzvs.Sites(%d, []string{\n", r.base)
	for _, s := range r.sites {
		fmt.Fprintf(&b, "\t\t%q,\n", s)
	}
	fmt.Fprintf(&b, "\t})\n\tzzvs.RegisterReset(zzreset)\n\tzzreset0()\n}\n")
	// inits of the original run once at start-up as well
	b.WriteString("\nfunc zzreset0() {\n")
	for i := 1; i <= r.nInit; i++ {
		fmt.Fprintf(&b, "\tzzinit%d()\n", i)
	}
	b.WriteString("}\n")
	if err := os.WriteFile(filepath.Join(out, "zz_reset.go"), []byte(b.String()), 0o644); err != nil {
		die("%v", err)
	}
}

// ------------------------------------------------------------------ types

func (r *rw) fieldList(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		f.Type = r.typ(f.Type)
	}
}

func (r *rw) funcType(t *ast.FuncType) {
	r.fieldList(t.TypeParams)
	r.fieldList(t.Params)
	r.fieldList(t.Results)
}

func (r *rw) typ(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.Ident:
		return x
	case *ast.SelectorExpr:
		return r.qual(x)
	case *ast.StarExpr:
		x.X = r.typ(x.X)
	case *ast.ParenExpr:
		x.X = r.typ(x.X)
	case *ast.ArrayType:
		x.Elt = r.typ(x.Elt)
		if x.Len != nil {
			if _, ok := x.Len.(*ast.Ellipsis); !ok {
				x.Len = r.expr(x.Len)
			}
		}
	case *ast.MapType:
		x.Key = r.typ(x.Key)
		x.Value = r.typ(x.Value)
	case *ast.ChanType:
		x.Value = r.typ(x.Value)
	case *ast.FuncType:
		r.funcType(x)
	case *ast.StructType:
		r.fieldList(x.Fields)
	case *ast.InterfaceType:
		r.fieldList(x.Methods)
	case *ast.Ellipsis:
		x.Elt = r.typ(x.Elt)
	case *ast.IndexExpr:
		x.X = r.typ(x.X)
		x.Index = r.typ(x.Index)
	case *ast.IndexListExpr:
		x.X = r.typ(x.X)
		for i := range x.Indices {
			x.Indices[i] = r.typ(x.Indices[i])
		}
	case *ast.BinaryExpr:
		x.X = r.typ(x.X)
		x.Y = r.typ(x.Y)
	case *ast.UnaryExpr:
		x.X = r.typ(x.X)
	}
	return e
}

// qual rewrites a package-qualified identifier; anything else is returned unchanged.
func (r *rw) qual(x *ast.SelectorExpr) ast.Expr {
	if i, ok := x.X.(*ast.Ident); ok {
		if p, ok := r.info.Uses[i].(*types.PkgName); ok {
			if to := replaced[p.Imported().Path()+"."+x.Sel.Name]; to != "" {
				return vs(to)
			}
			r.used[i.Name] = true
		}
	}
	return x
}

func (r *rw) isQual(x *ast.SelectorExpr) bool {
	if i, ok := x.X.(*ast.Ident); ok {
		_, ok := r.info.Uses[i].(*types.PkgName)
		return ok
	}
	return false
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (r *rw) isType(e ast.Expr) bool { tv, ok := r.info.Types[e]; return ok && tv.IsType() }

func namedPath(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// syncType reports whether values of type t are synchronization objects the runtime owns.
func syncType(t types.Type) bool {
	if _, ok := t.(*types.Pointer); ok {
		return false
	}
	p := namedPath(t)
	return replaced[p] != "" && (strings.HasPrefix(p, "sync"))
}

// ------------------------------------------------------------------ locations

// location reports whether e denotes memory that may be shared between goroutines.
func (r *rw) location(e ast.Expr) bool {
	if *syncOnly {
		return false
	}
	tv, ok := r.info.Types[e]
	if !ok || !tv.IsValue() && !tv.Addressable() || tv.Value != nil {
		if i, ok := e.(*ast.Ident); ok {
			o := r.info.ObjectOf(i)
			v, isv := o.(*types.Var)
			return isv && !v.IsField() && r.shared[o] && !syncType(v.Type())
		}
		return false
	}
	if syncType(tv.Type) {
		return false
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.location(x.X)
	case *ast.Ident:
		o := r.info.ObjectOf(x)
		v, ok := o.(*types.Var)
		return ok && !v.IsField() && r.shared[o]
	case *ast.SelectorExpr:
		if r.isQual(x) {
			i := r.info.ObjectOf(x.Sel)
			v, ok := i.(*types.Var)
			return ok && v.Pkg() != nil && (v.Pkg().Path() == modPath || strings.HasPrefix(v.Pkg().Path(), modPath+"/"))
		}
		s := r.info.Selections[x]
		if s == nil || s.Kind() != types.FieldVal {
			return false
		}
		if s.Indirect() {
			return true
		}
		return r.location(x.X) || r.structLoc(x.X)
	case *ast.IndexExpr:
		switch t := under(r.info.TypeOf(x.X)).(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			_, ok := t.Elem().Underlying().(*types.Array)
			return ok
		case *types.Array:
			return r.location(x.X)
		}
		return false
	case *ast.StarExpr:
		return !r.isType(x)
	}
	return false
}

func (r *rw) structLoc(e ast.Expr) bool { return false }

// lval rewrites e without recording an access to e itself.
func (r *rw) lval(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = r.lval(x.X)
		return x
	case *ast.Ident:
		return x
	case *ast.SelectorExpr:
		if r.isQual(x) {
			return r.qual(x)
		}
		if _, ptr := under(r.info.TypeOf(x.X)).(*types.Pointer); ptr {
			x.X = r.expr(x.X)
		} else if tv := r.info.Types[x.X]; tv.Addressable() {
			x.X = r.lval(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		return x
	case *ast.IndexExpr:
		switch under(r.info.TypeOf(x.X)).(type) {
		case *types.Array:
			if r.info.Types[x.X].Addressable() {
				x.X = r.lval(x.X)
			} else {
				x.X = r.expr(x.X)
			}
		default:
			x.X = r.expr(x.X)
		}
		x.Index = r.expr(x.Index)
		return x
	case *ast.StarExpr:
		x.X = r.expr(x.X)
		return x
	}
	return r.expr(e)
}

func addr(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }

func deref(e ast.Expr) ast.Expr { return &ast.ParenExpr{X: &ast.StarExpr{X: e}} }

func (r *rw) isMap(e ast.Expr) bool {
	_, ok := under(r.info.TypeOf(e)).(*types.Map)
	return ok
}

func (r *rw) isChan(e ast.Expr) bool {
	_, ok := under(r.info.TypeOf(e)).(*types.Chan)
	return ok
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// ------------------------------------------------------------------ expressions

func (r *rw) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

// expr rewrites e as a value.
func (r *rw) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if r.isType(e) {
		return r.typ(e)
	}
	if r.location(e) {
		if _, paren := e.(*ast.ParenExpr); !paren {
			s := r.site(e, "")
			return deref(call(vs("Rd"), addr(r.lval(e)), s))
		}
	}
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return x
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.SelectorExpr:
		if r.isQual(x) {
			return r.qual(x)
		}
		return r.selector(x)
	case *ast.FuncLit:
		r.funcType(x.Type)
		x.Body = r.block(x.Body)
	case *ast.CompositeLit:
		st := under(r.info.TypeOf(x))
		if p, ok := st.(*types.Pointer); ok {
			st = p.Elem().Underlying()
		}
		_, isStruct := st.(*types.Struct)
		x.Type = r.typ(x.Type)
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
			} else {
				x.Elts[i] = r.expr(el)
			}
		}
	case *ast.IndexExpr:
		if r.isMap(x.X) {
			s := r.site(x, "")
			m := r.expr(x.X)
			k := r.expr(x.Index)
			if !*syncOnly {
				m = call(vs("MR"), m, s)
			}
			return &ast.IndexExpr{X: m, Index: k}
		}
		x.X = r.expr(x.X)
		x.Index = r.expr(x.Index)
	case *ast.IndexListExpr:
		x.X = r.expr(x.X)
		for i := range x.Indices {
			x.Indices[i] = r.expr(x.Indices[i])
		}
	case *ast.SliceExpr:
		if _, ok := under(r.info.TypeOf(x.X)).(*types.Array); ok {
			x.X = r.lval(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		x.Low, x.High, x.Max = r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		x.Type = r.typ(x.Type)
	case *ast.CallExpr:
		return r.call(x)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			if _, ok := unparen(x.X).(*ast.CompositeLit); ok {
				x.X = r.expr(x.X)
			} else {
				x.X = r.lval(x.X)
			}
		case token.ARROW:
			return call(vs("Recv"), r.expr(x.X))
		default:
			x.X = r.expr(x.X)
		}
	case *ast.BinaryExpr:
		x.X = r.expr(x.X)
		x.Y = r.expr(x.Y)
	case *ast.KeyValueExpr:
		x.Key = r.expr(x.Key)
		x.Value = r.expr(x.Value)
	case *ast.Ellipsis:
		x.Elt = r.typ(x.Elt)
	default:
		return r.typ(e)
	}
	return e
}

// selector rewrites x.f that is not a shared location: a method value or a field of a value.
func (r *rw) selector(x *ast.SelectorExpr) ast.Expr {
	s := r.info.Selections[x]
	if s == nil {
		x.X = r.expr(x.X)
		return x
	}
	switch s.Kind() {
	case types.MethodExpr:
		x.X = r.typ(x.X)
	case types.MethodVal:
		fn, _ := s.Obj().(*types.Func)
		ptrRecv := false
		if fn != nil {
			if sig := fn.Type().(*types.Signature); sig.Recv() != nil {
				_, ptrRecv = sig.Recv().Type().(*types.Pointer)
			}
		}
		_, isPtr := under(r.info.TypeOf(x.X)).(*types.Pointer)
		if !isPtr && (ptrRecv || syncish(s)) && r.info.Types[x.X].Addressable() {
			x.X = r.lval(x.X)
		} else {
			x.X = r.expr(x.X)
		}
	default:
		if r.info.Types[x.X].Addressable() {
			if _, isPtr := under(r.info.TypeOf(x.X)).(*types.Pointer); !isPtr {
				x.X = r.lval(x.X)
				return x
			}
		}
		x.X = r.expr(x.X)
	}
	return x
}

func syncish(s *types.Selection) bool {
	return s.Obj().Pkg() != nil && strings.HasPrefix(s.Obj().Pkg().Path(), "sync")
}

func (r *rw) call(x *ast.CallExpr) ast.Expr {
	if r.isType(x.Fun) { // conversion
		x.Fun = r.typ(x.Fun)
		r.exprs(x.Args)
		return x
	}
	fun := unparen(x.Fun)
	if i, ok := fun.(*ast.Ident); ok {
		if b, ok := r.info.Uses[i].(*types.Builtin); ok {
			switch b.Name() {
			case "make", "new":
				x.Args[0] = r.typ(x.Args[0])
				for k := 1; k < len(x.Args); k++ {
					x.Args[k] = r.expr(x.Args[k])
				}
				return x
			case "close":
				return call(vs("Close"), r.expr(x.Args[0]))
			case "len":
				if r.isChan(x.Args[0]) {
					return call(vs("ChanLen"), r.expr(x.Args[0]))
				}
				if r.isMap(x.Args[0]) && !*syncOnly {
					s := r.site(x, "")
					x.Args[0] = call(vs("MR"), r.expr(x.Args[0]), s)
					return x
				}
			case "delete":
				s := r.site(x, "")
				x.Args[0] = r.expr(x.Args[0])
				if !*syncOnly {
					x.Args[0] = call(vs("MW"), x.Args[0], s)
				}
				x.Args[1] = r.expr(x.Args[1])
				return x
			}
			if tv := r.info.Types[x]; tv.Value != nil {
				return x
			}
			r.exprs(x.Args)
			return x
		}
	}
	if se, ok := fun.(*ast.SelectorExpr); ok && !*syncOnly {
		if s := r.info.Selections[se]; s != nil && s.Kind() == types.MethodVal && opaque[namedPath(s.Recv())] && len(s.Index()) == 1 {
			st := r.site(se, "")
			_, isPtr := under(r.info.TypeOf(se.X)).(*types.Pointer)
			if isPtr {
				se.X = call(vs("Obj"), r.expr(se.X), st, id("true"))
			} else if r.info.Types[se.X].Addressable() {
				se.X = call(vs("Obj"), addr(r.lval(se.X)), st, id("true"))
			} else {
				se.X = r.expr(se.X)
			}
			r.exprs(x.Args)
			return x
		}
	}
	x.Fun = r.expr(x.Fun)
	r.exprs(x.Args)
	return x
}

// pure reports whether evaluating the (original) expression twice is harmless.
func (r *rw) pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if r.isType(x.Fun) {
				return true
			}
			if i, isID := unparen(x.Fun).(*ast.Ident); isID {
				if b, isB := r.info.Uses[i].(*types.Builtin); isB && (b.Name() == "len" || b.Name() == "cap") {
					return true
				}
			}
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		case *ast.FuncLit:
			ok = false
		}
		return ok
	})
	return ok
}
