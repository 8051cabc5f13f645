// refac applies behaviour-preserving transformations to every non-test file of a
// copy of the repository: refac -mode M DIR
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

var mode = flag.String("mode", "", "")
var count, seq int

type xf struct {
	fset *token.FileSet
	info *types.Info
	pkg  *types.Package
	imps map[string]string // path -> local name
	sig  []*types.Signature
}

func fresh(p string) *ast.Ident { seq++; return ast.NewIdent(p + strconv.Itoa(seq) + "_") }

func main() {
	flag.Parse()
	dir := flag.Arg(0)
	cfg := &packages.Config{Mode: packages.LoadAllSyntax &^ packages.NeedDeps | packages.NeedImports | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedSyntax | packages.NeedName | packages.NeedFiles, Dir: dir,
		ParseFile: func(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
			return parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
		}}
	cfg.Fset = token.NewFileSet()
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	for _, p := range ps {
		if strings.Contains(p.PkgPath, "/example") || strings.Contains(p.PkgPath, "/testsuit") {
			continue
		}
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			if strings.HasSuffix(name, "_test.go") || !strings.HasPrefix(name, dir) {
				continue
			}
			x := &xf{fset: p.Fset, info: p.TypesInfo, pkg: p.Types, imps: map[string]string{}}
			for _, im := range f.Imports {
				path, _ := strconv.Unquote(im.Path.Value)
				if im.Name != nil {
					x.imps[path] = im.Name.Name
				} else if q := p.Imports[path]; q != nil {
					x.imps[path] = q.Name
				}
			}
			before := count
			x.file(f)
			if count == before {
				continue
			}
			var b bytes.Buffer
			if err := format.Node(&b, p.Fset, f); err != nil {
				panic(fmt.Sprint(name, err))
			}
			if err := os.WriteFile(name, b.Bytes(), 0o644); err != nil {
				panic(err)
			}
			_ = filepath.Base
		}
	}
	fmt.Println(*mode, count, "edits")
}

// typeExpr spells a type in the file, or nil.
func (x *xf) typeExpr(t types.Type) ast.Expr {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == x.pkg {
			return ""
		}
		n, in := x.imps[p.Path()]
		if !in {
			ok = false
		}
		return n
	})
	if !ok || strings.Contains(s, "invalid type") || strings.Contains(s, "untyped") {
		return nil
	}
	e, err := parser.ParseExpr(s)
	if err != nil {
		return nil
	}
	return e
}

// pure: evaluating e has no effects and cannot panic.
func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if id, is := n.Fun.(*ast.Ident); !is || id.Name != "len" {
				ok = false
			}
		case *ast.FuncLit, *ast.IndexExpr, *ast.StarExpr, *ast.TypeAssertExpr, *ast.SliceExpr, *ast.SelectorExpr:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func not(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}} }

func block(s ...ast.Stmt) *ast.BlockStmt { return &ast.BlockStmt{List: s} }

func define(id *ast.Ident, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}

func (x *xf) isSlice(e ast.Expr) bool {
	t := x.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func hasBreakTarget(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.SelectStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.FuncLit:
			if n != s {
				return false
			}
		case *ast.BranchStmt:
			if n.Tok == token.BREAK {
				found = true
			}
		}
		return true
	})
	return found
}

func (x *xf) file(f *ast.File) {
	if *mode == "outline" {
		x.outline(f)
		return
	}
	if *mode == "rename" {
		x.rename(f)
		return
	}
	if *mode == "noop" {
		ast.Inspect(f, func(n ast.Node) bool {
			var b *ast.BlockStmt
			switch n := n.(type) {
			case *ast.FuncDecl:
				b = n.Body
			case *ast.FuncLit:
				b = n.Body
			}
			if b != nil {
				id := fresh("noop")
				b.List = append([]ast.Stmt{define(id, &ast.BasicLit{Kind: token.INT, Value: "1"}), &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id}}}, b.List...)
				count++
			}
			return true
		})
		return
	}
	// keep a stack of signatures for returns
	astutil.Apply(f, func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.FuncDecl:
			x.sig = append(x.sig, x.info.Defs[n.Name].Type().(*types.Signature))
		case *ast.FuncLit:
			x.sig = append(x.sig, x.info.TypeOf(n).(*types.Signature))
		}
		return true
	}, func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.FuncDecl, *ast.FuncLit:
			x.sig = x.sig[:len(x.sig)-1]
		case *ast.IfStmt:
			x.ifStmt(c, n)
		case *ast.RangeStmt:
			x.rangeStmt(c, n)
		case *ast.ReturnStmt:
			x.ret(c, n)
		case *ast.AssignStmt:
			x.assign(c, n)
		case *ast.BinaryExpr:
			x.binary(c, n)
		case *ast.DeferStmt:
			x.deferStmt(c, n)
		case *ast.CallExpr:
			x.call(c, n)
		case *ast.ForStmt:
			x.forStmt(c, n)
		}
		return true
	})
}

func inList(c *astutil.Cursor) bool { return c.Index() >= 0 }

func (x *xf) ifStmt(c *astutil.Cursor, n *ast.IfStmt) {
	switch *mode {
	case "invert":
		count++
		n.Cond = not(n.Cond)
		els := n.Else
		if els == nil {
			els = block()
		}
		if _, ok := els.(*ast.BlockStmt); !ok {
			els = block(els.(ast.Stmt))
		}
		n.Else = n.Body
		n.Body = els.(*ast.BlockStmt)
	case "cond":
		count++
		id := fresh("cond")
		var l []ast.Stmt
		if n.Init != nil {
			l = append(l, n.Init)
		}
		l = append(l, define(id, n.Cond), &ast.IfStmt{Cond: id, Body: n.Body, Else: n.Else})
		c.Replace(block(l...))
	case "switch":
		if hasBreakTarget(n) {
			return
		}
		if inList(c) || isElse(c) {
			count++
			sw := &ast.SwitchStmt{Init: n.Init, Body: block(&ast.CaseClause{List: []ast.Expr{n.Cond}, Body: n.Body.List})}
			if n.Else != nil {
				var b []ast.Stmt
				if e, ok := n.Else.(*ast.BlockStmt); ok {
					b = e.List
				} else {
					b = []ast.Stmt{n.Else}
				}
				sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: b})
			}
			if isElse(c) {
				c.Replace(block(sw))
			} else {
				c.Replace(sw)
			}
		}
	case "nestand":
		if b, ok := n.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND && n.Else == nil {
			count++
			n.Cond = b.X
			n.Body = block(&ast.IfStmt{Cond: b.Y, Body: n.Body})
		}
		if b, ok := n.Cond.(*ast.BinaryExpr); ok && b.Op == token.LOR && n.Else == nil && endsInReturn(n.Body) && len(n.Body.List) == 1 && inList(c) && n.Init == nil {
			count++
			cp := &ast.IfStmt{Cond: b.Y, Body: n.Body}
			n.Cond = b.X
			c.InsertAfter(cp)
		}
	case "elseearly":
		// if c { ...return } rest  =>  if c { ...return } else { rest } is not done; the reverse is
		if n.Else == nil && inList(c) && endsInReturn(n.Body) {
			count++
			n.Else = block()
		}
	}
}

func isElse(c *astutil.Cursor) bool {
	p, ok := c.Parent().(*ast.IfStmt)
	return ok && p.Else == c.Node()
}

func endsInReturn(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	_, ok := b.List[len(b.List)-1].(*ast.ReturnStmt)
	return ok
}

func (x *xf) rangeStmt(c *astutil.Cursor, n *ast.RangeStmt) {
	if *mode != "index" && *mode != "indexn" || !x.isSlice(n.X) || n.Tok != token.DEFINE || !inList(c) {
		return
	}
	count++
	xs, i := fresh("xs"), fresh("i")
	if k, ok := n.Key.(*ast.Ident); ok && k.Name != "_" {
		i = k
	}
	var pre []ast.Stmt
	if v, ok := n.Value.(*ast.Ident); ok && v.Name != "_" {
		pre = append(pre, define(v, &ast.IndexExpr{X: xs, Index: i}))
	}
	var inc ast.Stmt = &ast.IncDecStmt{X: i, Tok: token.INC}
	f := &ast.ForStmt{Init: define(i, &ast.BasicLit{Kind: token.INT, Value: "0"}),
		Cond: &ast.BinaryExpr{X: i, Op: token.LSS, Y: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{xs}}},
		Post: inc, Body: block(append(pre, n.Body.List...)...)}
	c.Replace(block(define(xs, n.X), f))
}

func (x *xf) forStmt(c *astutil.Cursor, n *ast.ForStmt) {
	if *mode == "forbreak" && n.Cond != nil {
		count++
		n.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: not(n.Cond), Body: block(&ast.BranchStmt{Tok: token.BREAK})}}, n.Body.List...)
		n.Cond = nil
	}
}

func (x *xf) ret(c *astutil.Cursor, n *ast.ReturnStmt) {
	if *mode != "rettemp" || len(n.Results) == 0 || !inList(c) {
		return
	}
	s := x.sig[len(x.sig)-1]
	if len(n.Results) == 1 && s.Results().Len() > 1 {
		var ids []ast.Expr
		for i := 0; i < s.Results().Len(); i++ {
			ids = append(ids, fresh("r"))
		}
		count++
		c.InsertBefore(&ast.AssignStmt{Lhs: ids, Tok: token.DEFINE, Rhs: n.Results})
		n.Results = append([]ast.Expr(nil), ids...)
		return
	}
	var ts []ast.Expr
	for i := range n.Results {
		t := x.typeExpr(s.Results().At(i).Type())
		if t == nil {
			return
		}
		ts = append(ts, t)
	}
	for i, r := range n.Results {
		id := fresh("r")
		c.InsertBefore(&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id}, Type: ts[i], Values: []ast.Expr{r}}}}})
		n.Results[i] = id
		count++
	}
}

func (x *xf) assign(c *astutil.Cursor, n *ast.AssignStmt) {
	if !inList(c) || len(n.Lhs) != 1 || len(n.Rhs) != 1 {
		return
	}
	switch *mode {
	case "fields":
		// v := &T{A: x} => v := &T{}; v.A = x
		id, ok := n.Lhs[0].(*ast.Ident)
		if !ok || id.Name == "_" {
			return
		}
		e := n.Rhs[0]
		if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
			e = u.X
		}
		l, ok := e.(*ast.CompositeLit)
		if !ok || len(l.Elts) == 0 {
			return
		}
		if _, ok := x.info.TypeOf(l).Underlying().(*types.Struct); !ok {
			return
		}
		if usesIdent(l, id.Name) || !types.Identical(x.info.TypeOf(id), x.info.TypeOf(n.Rhs[0])) {
			return
		}
		for i := len(l.Elts) - 1; i >= 0; i-- {
			kv, ok := l.Elts[i].(*ast.KeyValueExpr)
			if !ok {
				return
			}
			c.InsertAfter(&ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: id, Sel: ast.NewIdent(kv.Key.(*ast.Ident).Name)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv.Value}})
		}
		l.Elts = nil
		count++
	case "makelit":
		if call, ok := n.Rhs[0].(*ast.CallExpr); ok {
			if f, ok := call.Fun.(*ast.Ident); ok && f.Name == "make" && len(call.Args) == 2 {
				if lit, ok := call.Args[1].(*ast.BasicLit); ok && lit.Value == "0" {
					n.Rhs[0] = &ast.CompositeLit{Type: call.Args[0]}
					count++
				}
			}
		}
	case "appendcopy":
		// xs = append(xs, v) => ys := xs; ys = append(ys, v); xs = ys
		if call, ok := n.Rhs[0].(*ast.CallExpr); ok && n.Tok == token.ASSIGN {
			if f, ok := call.Fun.(*ast.Ident); ok && f.Name == "append" && len(call.Args) == 2 {
				id := fresh("ys")
				c.InsertBefore(define(id, call.Args[0]))
				call.Args[0] = id
				nn := fresh("zs")
				c.InsertBefore(define(nn, call))
				n.Rhs[0] = nn
				count++
			}
		}
	}
}

func usesIdent(n ast.Node, name string) bool {
	f := false
	ast.Inspect(n, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name == name {
			f = true
		}
		return true
	})
	return f
}

func (x *xf) binary(c *astutil.Cursor, n *ast.BinaryExpr) {
	switch *mode {
	case "cmp":
		flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
		if op, ok := flip[n.Op]; ok && pureSel(n.X) && pureSel(n.Y) {
			n.X, n.Y, n.Op = n.Y, n.X, op
			count++
		}
	case "negcmp":
		neg := map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}
		if op, ok := neg[n.Op]; ok {
			if t := x.info.TypeOf(n.X); t != nil {
				if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
					return
				}
			}
			n.Op = op
			c.Replace(&ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: n}})
			count++
		}
	case "demorgan":
		if n.Op == token.LAND || n.Op == token.LOR {
			op := token.LOR
			if n.Op == token.LOR {
				op = token.LAND
			}
			c.Replace(not(&ast.BinaryExpr{X: not(n.X), Op: op, Y: not(n.Y)}))
			count++
		}
	case "lenzero":
		if call, ok := n.X.(*ast.CallExpr); ok {
			if f, ok := call.Fun.(*ast.Ident); ok && f.Name == "len" {
				if l, ok := n.Y.(*ast.BasicLit); ok && l.Value == "0" {
					switch n.Op {
					case token.EQL:
						n.Op, n.Y = token.LSS, &ast.BasicLit{Kind: token.INT, Value: "1"}
						count++
					case token.GTR:
						n.Op = token.NEQ
						count++
					}
				}
			}
		}
		if l, ok := n.Y.(*ast.BasicLit); ok && l.Value == `""` {
			n.X = &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{n.X}}
			n.Y = &ast.BasicLit{Kind: token.INT, Value: "0"}
			count++
		}
	}
}

func pureSel(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pureSel(e.X)
	case *ast.CallExpr:
		f, ok := e.Fun.(*ast.Ident)
		return ok && f.Name == "len" && pureSel(e.Args[0])
	}
	return false
}

func (x *xf) deferStmt(c *astutil.Cursor, n *ast.DeferStmt) {
	if *mode != "defer" {
		return
	}
	if _, ok := n.Call.Fun.(*ast.FuncLit); ok || len(n.Call.Args) > 0 {
		return
	}
	if s, ok := n.Call.Fun.(*ast.SelectorExpr); ok && !pureSel(s) {
		return
	}
	count++
	n.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: block(&ast.ExprStmt{X: n.Call})}}
}

func (x *xf) call(c *astutil.Cursor, n *ast.CallExpr) {
	if *mode != "iife" {
		return
	}
	// f(a) => func() T { return f(a) }() for calls with one result that are no conversions or builtins
	tv := x.info.Types[n.Fun]
	if tv.IsType() || tv.IsBuiltin() {
		return
	}
	switch c.Parent().(type) {
	case *ast.DeferStmt, *ast.GoStmt, *ast.ExprStmt:
		return
	}
	if len(x.sig) == 0 || n.Ellipsis.IsValid() && false {
		return
	}
	if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "recover" {
		return
	}
	if _, ok := n.Fun.(*ast.FuncLit); ok {
		return
	}
	ft := x.info.TypeOf(n.Fun)
	if ft == nil {
		return
	}
	s, ok := ft.Underlying().(*types.Signature)
	if !ok || s.Results().Len() != 1 {
		return
	}
	t := x.typeExpr(s.Results().At(0).Type())
	if t == nil {
		return
	}
	count++
	c.Replace(&ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: t}}}}, Body: block(&ast.ReturnStmt{Results: []ast.Expr{n}})}})
}

func (x *xf) outline(f *ast.File) {
	var add []ast.Decl
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || fd.Name.Name == "init" || fd.Name.Name == "main" || fd.Type.TypeParams != nil {
			continue
		}
		if fd.Recv != nil && len(fd.Recv.List[0].Names) == 0 {
			continue
		}
		bad := false
		var args []ast.Expr
		ell := token.NoPos
		for _, p := range fd.Type.Params.List {
			if len(p.Names) == 0 {
				bad = true
			}
			for _, n := range p.Names {
				if n.Name == "_" {
					bad = true
				}
				args = append(args, ast.NewIdent(n.Name))
			}
			if _, ok := p.Type.(*ast.Ellipsis); ok {
				ell = 1
			}
		}
		if bad {
			continue
		}
		count++
		impl := *fd
		impl.Name = ast.NewIdent("impl_" + fd.Name.Name)
		impl.Doc = nil
		fd.Doc = nil
		var fun ast.Expr = impl.Name
		if fd.Recv != nil {
			fun = &ast.SelectorExpr{X: ast.NewIdent(fd.Recv.List[0].Names[0].Name), Sel: impl.Name}
		}
		call := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: ell}
		var s ast.Stmt = &ast.ReturnStmt{Results: []ast.Expr{call}}
		if fd.Type.Results == nil || len(fd.Type.Results.List) == 0 {
			s = &ast.ExprStmt{X: call}
		}
		fd.Body = block(s)
		add = append(add, &impl)
	}
	f.Decls = append(f.Decls, add...)
}

// rename unexported package-level names, methods, fields and locals.
func (x *xf) rename(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		o := x.info.ObjectOf(id)
		if d, in := x.info.Defs[id]; in && d == nil && id != f.Name && id.Name != "_" {
			id.Name += "Renamed"
			return true
		}
		if o == nil || o.Pkg() != x.pkg || o.Exported() || id.Name == "_" || id.Name == "init" || id.Name == "main" {
			return true
		}
		if _, ok := o.(*types.PkgName); ok {
			return true
		}
		if v, ok := o.(*types.Var); ok && v.Embedded() {
			return true
		}
		id.Name = id.Name + "Renamed"
		count++
		return true
	})
}
