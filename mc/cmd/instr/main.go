// instr writes instrumented copies of Go packages and an overlay file that
// makes the go command build them instead of the originals: every operation
// another goroutine could observe is preceded by a scheduling point, mutexes
// and select statements are the explorer's. Nothing else changes.
//
//	instr OUTDIR PKGDIR...   (a trailing + on PKGDIR adds fine-grained points)
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const zzPath = "github.com/ipfs/go-unixfs/zzverif/zz"

type inst struct {
	fset  *token.FileSet
	file  string
	fine  bool
	n     int
	used  bool
	syncN string // local name of package sync
}

func main() {
	out := os.Args[1]
	repl := map[string]string{}
	for _, d := range os.Args[2:] {
		fine := strings.HasSuffix(d, "+")
		d = strings.TrimSuffix(d, "+")
		ents, err := os.ReadDir(d)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		for _, e := range ents {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			if ok, err := build.Default.MatchFile(d, n); err != nil || !ok {
				continue
			}
			p := filepath.Join(d, n)
			src, used, err := instrument(p, fine)
			if err != nil {
				fmt.Fprintln(os.Stderr, p, err)
				os.Exit(1)
			}
			if !used {
				continue
			}
			o := filepath.Join(out, fmt.Sprintf("i%03d_%s", len(repl), n))
			if err := os.WriteFile(o, src, 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			repl[p] = o
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func instrument(path string, fine bool) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, nil, parser.SkipObjectResolution)
	if err != nil {
		return nil, false, err
	}
	in := &inst{fset: fset, file: filepath.Base(path), fine: fine}
	for _, im := range f.Imports {
		if p, _ := strconv.Unquote(im.Path.Value); p == "sync" {
			in.syncN = "sync"
			if im.Name != nil {
				in.syncN = im.Name.Name
			}
		}
		if p, _ := strconv.Unquote(im.Path.Value); p == "C" || p == "unsafe" {
			return nil, false, nil
		}
	}
	// bodies first (selects contain types too)
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			in.block(fd.Body)
		}
		if gd, ok := d.(*ast.GenDecl); ok {
			in.funcLits(gd)
		}
	}
	in.mutexes(f)
	if !in.used {
		return nil, false, nil
	}
	spec := &ast.ImportSpec{Name: ast.NewIdent("zz"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(zzPath)}}
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	if in.syncN != "" && in.syncN != "_" && in.syncN != "." {
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
			Names: []*ast.Ident{ast.NewIdent("_")}, Type: sel(in.syncN, "Locker")}}})
	}
	f.Comments = nil
	var b bytes.Buffer
	if err := format.Node(&b, token.NewFileSet(), f); err != nil {
		return nil, false, err
	}
	return b.Bytes(), true, nil
}

func sel(a, b string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(a), Sel: ast.NewIdent(b)}
}

// mutexes replaces the mutex types of package sync.
func (in *inst) mutexes(f *ast.File) {
	if in.syncN == "" {
		return
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok && x.Name == in.syncN && (s.Sel.Name == "Mutex" || s.Sel.Name == "RWMutex") {
				x.Name = "zz"
				in.used = true
			}
		}
		return true
	})
}

func (in *inst) point(n ast.Node, fn string) ast.Stmt {
	in.used = true
	p := in.fset.Position(n.Pos())
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("zz", fn), Args: []ast.Expr{
		&ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("%s:%d", in.file, p.Line))}}}}
}

func (in *inst) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = in.list(b.List)
	}
}

func (in *inst) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, in.stmt(s)...)
	}
	return out
}

// stmt instruments s and returns what replaces it.
func (in *inst) stmt(s ast.Stmt) []ast.Stmt {
	var label *ast.LabeledStmt
	inner := s
	if ls, ok := s.(*ast.LabeledStmt); ok {
		label = ls
		inner = ls.Stmt
	}
	var pre []ast.Stmt
	if observable(inner) {
		pre = append(pre, in.point(s, "Point"))
	} else if in.fine && !trivial(inner) {
		pre = append(pre, in.point(s, "Fine"))
	}
	wrap := func(x ast.Stmt) ast.Stmt {
		if label == nil {
			return x
		}
		label.Stmt = x
		return label
	}
	switch x := inner.(type) {
	case *ast.BlockStmt:
		in.block(x)
		return []ast.Stmt{wrap(x)}
	case *ast.SelectStmt:
		if r, ok := in.selectStmt(x, wrap); ok {
			return []ast.Stmt{r}
		}
		return append(pre, wrap(x))
	case *ast.IfStmt:
		in.ifStmt(x)
	case *ast.ForStmt:
		in.exprs(x.Init, x.Cond, x.Post)
		in.block(x.Body)
		if observableNode(x.Cond) || observableStmt(x.Post) {
			x.Body.List = append([]ast.Stmt{in.point(x, "Point")}, x.Body.List...)
		}
	case *ast.RangeStmt:
		in.exprs(x.X)
		in.block(x.Body)
		if x.Value == nil {
			// possibly a channel: each round is a receive
			x.Body.List = append([]ast.Stmt{in.woke()}, append(x.Body.List, in.point(x, "Range"))...)
			return []ast.Stmt{in.point(x, "Range"), wrap(x), in.point(x, "Ended")}
		}
	case *ast.SwitchStmt:
		in.exprs(x.Init, x.Tag)
		in.cases(x.Body)
	case *ast.TypeSwitchStmt:
		in.exprs(x.Init, x.Assign)
		in.cases(x.Body)
	case *ast.GoStmt:
		if fl, ok := x.Call.Fun.(*ast.FuncLit); ok {
			in.funcLits(x.Call)
			fl.Body.List = append([]ast.Stmt{recov(), in.point(fl, "Start")}, fl.Body.List...)
		} else {
			in.funcLits(x.Call)
			return append(pre, wrap(in.goCall(x)))
		}
	case *ast.SendStmt:
		in.wakeExprs(x)
		in.funcLits(x)
		return append(pre, wrap(x), in.woke())
	case *ast.ExprStmt:
		blocks := blocking(x.X)
		if blocks {
			in.funcLits(x)
			return append(pre, wrap(x), in.woke())
		}
		in.wakeExprs(x)
		in.funcLits(x)
	case *ast.AssignStmt:
		if len(x.Lhs) > 1 && len(x.Rhs) == 1 && blocking(x.Rhs[0]) {
			in.funcLits(x)
			return append(pre, wrap(x), in.woke())
		}
		in.wakeExprs(x)
		in.funcLits(x)
	case *ast.DeferStmt:
		in.wakeExprs(inner)
		in.funcLits(inner)
		if observableNode(x.Call) {
			// the point is passed just before the deferred call
			return append(pre, wrap(inner), &ast.DeferStmt{Call: in.point(s, "Point").(*ast.ExprStmt).X.(*ast.CallExpr)})
		}
	default:
		in.wakeExprs(inner)
		in.funcLits(inner)
	}
	return append(pre, wrap(inner))
}

func recov() ast.Stmt {
	return &ast.DeferStmt{Call: &ast.CallExpr{Fun: sel("zz", "Recover")}}
}

func (in *inst) woke() ast.Stmt {
	in.used = true
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("zz", "Woke")}}
}

// goCall gives a goroutine that is not a function literal a starting point.
func (in *inst) goCall(x *ast.GoStmt) ast.Stmt {
	in.used = true
	in.n++
	var decls []ast.Stmt
	tmp := func(e ast.Expr, i int) ast.Expr {
		switch y := e.(type) {
		case *ast.BasicLit, *ast.FuncLit:
			return e
		case *ast.Ident:
			if y.Name == "nil" || y.Name == "true" || y.Name == "false" {
				return e
			}
		}
		id := ast.NewIdent(fmt.Sprintf("zzg%d_%d", in.n, i))
		decls = append(decls, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return id
	}
	for i, a := range x.Call.Args {
		x.Call.Args[i] = tmp(a, i+1)
	}
	if s, ok := x.Call.Fun.(*ast.SelectorExpr); !ok || s == nil {
		// a plain function or an expression giving one
	} else {
		x.Call.Fun = tmp(x.Call.Fun, 0)
	}
	fn := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{recov(), in.point(x, "Start"), &ast.ExprStmt{X: x.Call}}}}
	return &ast.BlockStmt{List: append(decls, &ast.GoStmt{Call: &ast.CallExpr{Fun: fn}})}
}

// blocking: e itself is an operation that can wait for another goroutine.
func blocking(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return blocking(x.X)
	case *ast.UnaryExpr:
		return x.Op == token.ARROW
	case *ast.CallExpr:
		if s, ok := x.Fun.(*ast.SelectorExpr); ok {
			return s.Sel.Name == "Wait" || s.Sel.Name == "Acquire"
		}
	}
	return false
}

// wakeExprs wraps blocking operations used as values.
func (in *inst) wakeExprs(ns ...ast.Node) {
	w := func(e *ast.Expr) {
		if *e != nil && blocking(*e) {
			in.used = true
			*e = &ast.CallExpr{Fun: sel("zz", "W"), Args: []ast.Expr{*e}}
		}
	}
	ws := func(l []ast.Expr) {
		for i := range l {
			w(&l[i])
		}
	}
	for _, n := range ns {
		if isNil(n) {
			continue
		}
		var wrapped = map[ast.Node]bool{}
		ast.Inspect(n, func(m ast.Node) bool {
			if wrapped[m] {
				return true
			}
			switch x := m.(type) {
			case *ast.FuncLit, *ast.BlockStmt:
				return false
			case *ast.CallExpr:
				if s, ok := x.Fun.(*ast.SelectorExpr); ok {
					if id, ok := s.X.(*ast.Ident); ok && id.Name == "zz" {
						for _, a := range x.Args {
							wrapped[a] = true
						}
						return true
					}
				}
				ws(x.Args)
			case *ast.BinaryExpr:
				w(&x.X)
				w(&x.Y)
			case *ast.ParenExpr:
			case *ast.UnaryExpr:
				w(&x.X)
			case *ast.StarExpr:
				w(&x.X)
			case *ast.SelectorExpr:
				w(&x.X)
			case *ast.IndexExpr:
				w(&x.X)
				w(&x.Index)
			case *ast.TypeAssertExpr:
				w(&x.X)
			case *ast.KeyValueExpr:
				w(&x.Value)
			case *ast.CompositeLit:
				ws(x.Elts)
			case *ast.ReturnStmt:
				ws(x.Results)
			case *ast.AssignStmt:
				if len(x.Lhs) == len(x.Rhs) {
					ws(x.Rhs)
				}
			case *ast.SendStmt:
				w(&x.Value)
			}
			return true
		})
	}
}

func (in *inst) ifStmt(x *ast.IfStmt) {
	in.exprs(x.Init, x.Cond)
	in.block(x.Body)
	switch e := x.Else.(type) {
	case *ast.BlockStmt:
		in.block(e)
	case *ast.IfStmt:
		in.ifStmt(e)
	}
}

func (in *inst) cases(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		for _, e := range cc.List {
			in.exprs(e)
		}
		cc.Body = in.list(cc.Body)
	}
}

func (in *inst) exprs(ns ...ast.Node) {
	in.wakeExprs(ns...)
	for _, n := range ns {
		in.funcLits(n)
	}
}

func isNil(n ast.Node) bool {
	switch x := n.(type) {
	case nil:
		return true
	case *ast.BlockStmt:
		return x == nil
	}
	return false
}

// funcLits instruments the function literals inside n.
func (in *inst) funcLits(n ast.Node) {
	if isNil(n) {
		return
	}
	ast.Inspect(n, func(m ast.Node) bool {
		switch x := m.(type) {
		case *ast.FuncLit:
			in.block(x.Body)
			return false
		case *ast.CallExpr:
			if s, ok := x.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Go" || s.Sel.Name == "TryGo") {
				for i, a := range x.Args {
					if fl, ok := a.(*ast.FuncLit); ok {
						p := in.point(fl, "Start")
						in.block(fl.Body)
						fl.Body.List = append([]ast.Stmt{recov(), p}, fl.Body.List...)
						continue
					}
					in.funcLits(a)
					if len(x.Args) == 1 {
						in.used = true
						pos := in.fset.Position(a.Pos())
						x.Args[i] = &ast.CallExpr{Fun: sel("zz", "GoFn"), Args: []ast.Expr{
							&ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("%s:%d", in.file, pos.Line))}, a}}
					}
				}
				in.funcLits(x.Fun)
				return false
			}
		}
		return true
	})
}

// selectStmt rewrites a select statement.
func (in *inst) selectStmt(x *ast.SelectStmt, wrap func(ast.Stmt) ast.Stmt) (ast.Stmt, bool) {
	if len(x.Body.List) == 0 {
		return nil, false
	}
	in.n++
	in.used = true
	id := in.n
	nm := func(s string, i int) *ast.Ident { return ast.NewIdent(fmt.Sprintf("zz%s%d_%d", s, id, i)) }
	idx, val, okv := nm("i", 0), nm("v", 0), nm("k", 0)
	var decls []ast.Stmt
	var args []ast.Expr
	sw := &ast.SwitchStmt{Tag: idx, Body: &ast.BlockStmt{}}
	hasDef := false
	k := 0
	define := func(id *ast.Ident, e ast.Expr) {
		decls = append(decls, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
	}
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		body := in.list(cc.Body)
		if cc.Comm == nil {
			hasDef = true
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: body})
			continue
		}
		cid := nm("c", k)
		recv := func(e ast.Expr) ast.Expr {
			for {
				p, ok := e.(*ast.ParenExpr)
				if !ok {
					break
				}
				e = p.X
			}
			u, ok := e.(*ast.UnaryExpr)
			if !ok || u.Op != token.ARROW {
				return nil
			}
			in.exprs(u.X)
			return u.X
		}
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			in.exprs(m.Chan, m.Value)
			// the value is converted to the element type by Send
			define(cid, m.Chan)
			args = append(args, &ast.CallExpr{Fun: sel("zz", "Send"), Args: []ast.Expr{cid, m.Value}})
		case *ast.ExprStmt:
			ch := recv(m.X)
			if ch == nil {
				return nil, false
			}
			define(cid, ch)
			args = append(args, &ast.CallExpr{Fun: sel("zz", "Recv"), Args: []ast.Expr{cid}})
		case *ast.AssignStmt:
			ch := recv(m.Rhs[0])
			if ch == nil {
				return nil, false
			}
			define(cid, ch)
			args = append(args, &ast.CallExpr{Fun: sel("zz", "Recv"), Args: []ast.Expr{cid}})
			rhs := []ast.Expr{&ast.CallExpr{Fun: sel("zz", "Val"), Args: []ast.Expr{cid, val}}}
			if len(m.Lhs) == 2 {
				rhs = append(rhs, okv)
			}
			body = append([]ast.Stmt{&ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: rhs}}, body...)
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(k)}}, Body: body})
		k++
	}
	def := "false"
	if hasDef {
		def = "true"
	} else {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"zz: select"`}}}}}})
	}
	decls = append(decls, &ast.AssignStmt{Lhs: []ast.Expr{idx, val, okv}, Tok: token.DEFINE, Rhs: []ast.Expr{
		&ast.CallExpr{Fun: sel("zz", "Select"), Args: append([]ast.Expr{ast.NewIdent(def)}, args...)}}})
	decls = append(decls, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{val, okv}})
	return &ast.BlockStmt{List: append(decls, wrap(sw))}, true
}

// observable tells whether executing s itself (not the blocks inside it) does
// something another goroutine can observe or be affected by.
func observable(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.IfStmt:
		return observableStmt(x.Init) || observableNode(x.Cond)
	case *ast.ForStmt:
		return observableStmt(x.Init) || observableNode(x.Cond)
	case *ast.RangeStmt:
		return observableNode(x.X)
	case *ast.SwitchStmt:
		return observableStmt(x.Init) || observableNode(x.Tag)
	case *ast.TypeSwitchStmt:
		return observableStmt(x.Init)
	case *ast.BlockStmt, *ast.SelectStmt:
		return false
	case *ast.GoStmt, *ast.SendStmt:
		return true
	case *ast.DeferStmt:
		return false
	}
	return observableNode(s)
}

func observableStmt(s ast.Stmt) bool {
	if s == nil {
		return false
	}
	return observableNode(s)
}

var obsCalls = map[string]bool{"Err": true, "Wait": true, "Go": true, "TryGo": true, "Acquire": true, "Release": true, "Done": true, "CompareAndSwap": true, "Load": true, "Store": true, "LoadOrStore": true}

func observableNode(n ast.Node) bool {
	if n == nil {
		return false
	}
	if e, ok := n.(ast.Expr); ok && e == nil {
		return false
	}
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch x := m.(type) {
		case *ast.FuncLit:
			return false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		case *ast.SendStmt:
			found = true
		case *ast.CallExpr:
			switch f := x.Fun.(type) {
			case *ast.Ident:
				if f.Name == "close" || strings.Contains(strings.ToLower(f.Name), "cancel") {
					found = true
				}
			case *ast.SelectorExpr:
				if obsCalls[f.Sel.Name] || strings.Contains(strings.ToLower(f.Sel.Name), "cancel") {
					found = true
				}
			}
		}
		return !found
	})
	return found
}

// trivial statements get no fine-grained point.
func trivial(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.BlockStmt, *ast.EmptyStmt, *ast.DeclStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.SelectStmt:
		return true
	case *ast.ReturnStmt:
		for _, r := range x.Results {
			if _, ok := r.(*ast.Ident); !ok {
				return false
			}
		}
		return true
	}
	return false
}
