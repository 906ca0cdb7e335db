// simgen copies the packages of a Go module and rewrites every source of
// nondeterminism to the simulation runtime.
//
//	simgen -src COPY -as /repo -out DIR -rt /verif/sim/simrt [-extra path,path]
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

var shims = map[string]string{
	"sync": "ssync", "time": "stime", "net": "snet", "os": "sos", "net/http": "shttp",
	"math/rand": "srand", "math/rand/v2": "srandv2", "crypto/rand": "scrand", "fmt": "sfmt",
	"log": "slog", "context": "scontext", "runtime": "sruntime",
	"io/ioutil": "sioutil", "io": "sio", "path/filepath": "sfilepath",
}

// names each shim overrides
var over = map[string]map[string]bool{}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simgen: "+f+"\n", a...)
	os.Exit(2)
}

func loadShims(rt string) {
	for p, d := range shims {
		fs := token.NewFileSet()
		pk, err := parser.ParseDir(fs, filepath.Join(rt, d), nil, 0)
		if err != nil {
			if os.IsNotExist(err) {
				continue
			}
			die("shim %s: %v", d, err)
		}
		m := map[string]bool{}
		for _, pkg := range pk {
			for _, f := range pkg.Files {
				for _, dc := range f.Decls {
					switch x := dc.(type) {
					case *ast.FuncDecl:
						if x.Recv == nil && x.Name.IsExported() {
							m[x.Name.Name] = true
						}
					case *ast.GenDecl:
						for _, s := range x.Specs {
							switch y := s.(type) {
							case *ast.TypeSpec:
								m[y.Name.Name] = true
							case *ast.ValueSpec:
								for _, n := range y.Names {
									m[n.Name] = true
								}
							}
						}
					}
				}
			}
		}
		over[p] = m
	}
}

type gen struct {
	pkg  *packages.Package
	info *types.Info
	file *ast.File
	used map[string]bool // shim dirs imported
	skip map[ast.Node]bool
	n    int
	err  error
}

func id(n string) *ast.Ident { return ast.NewIdent(n) }
func rt(n string) ast.Expr   { return &ast.SelectorExpr{X: id("simrt__"), Sel: id(n)} }
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: f, Args: a}
}
func (g *gen) tmp(p string) string { g.n++; return fmt.Sprintf("%s__%d", p, g.n) }

func (g *gen) typ(e ast.Expr) types.Type {
	t := g.info.TypeOf(e)
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (g *gen) isMap(e ast.Expr) bool { t, ok := g.typ(e).(*types.Map); return ok && t != nil }
func (g *gen) isChan(e ast.Expr) bool {
	t, ok := g.typ(e).(*types.Chan)
	return ok && t != nil
}
func (g *gen) builtin(e ast.Expr, name string) bool {
	i, ok := e.(*ast.Ident)
	if !ok || i.Name != name {
		return false
	}
	_, ok = g.info.Uses[i].(*types.Builtin)
	return ok
}

func (g *gen) rewrite() {
	g.skip = map[ast.Node]bool{}
	two := map[ast.Node]bool{}     // receive expressions in v, ok form
	mapW := map[ast.Node]bool{}    // index expressions that are written
	selPre := map[ast.Node]bool{}  // receives that belong to select clauses
	rangeDef := map[ast.Node]int{} // 1 map 2 chan
	markLHS := func(l ast.Expr) {
		if ix, ok := ast.Unparen(l).(*ast.IndexExpr); ok && g.isMap(ix.X) {
			mapW[ix] = true
		}
	}
	astutil.Apply(g.file, func(c *astutil.Cursor) bool {
		switch x := c.Node().(type) {
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := ast.Unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					two[u] = true
				}
			}
			for _, l := range x.Lhs {
				markLHS(l)
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := ast.Unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					two[u] = true
				}
			}
		case *ast.IncDecStmt:
			markLHS(x.X)
		case *ast.RangeStmt:
			if g.isMap(x.X) {
				rangeDef[x] = 1
			} else if g.isChan(x.X) {
				rangeDef[x] = 2
			}
		case *ast.SelectStmt:
			for _, cl := range x.Body.List {
				cc := cl.(*ast.CommClause)
				switch y := cc.Comm.(type) {
				case *ast.ExprStmt:
					selPre[ast.Unparen(y.X)] = true
				case *ast.AssignStmt:
					selPre[ast.Unparen(y.Rhs[0])] = true
				case *ast.SendStmt:
					selPre[y] = true
				}
			}
		}
		return true
	}, func(c *astutil.Cursor) bool {
		switch x := c.Node().(type) {
		case *ast.SelectorExpr:
			i, ok := x.X.(*ast.Ident)
			if !ok {
				break
			}
			pn, ok := g.info.Uses[i].(*types.PkgName)
			if !ok {
				break
			}
			p := pn.Imported().Path()
			if over[p][x.Sel.Name] {
				d := shims[p]
				g.used[d] = true
				c.Replace(&ast.SelectorExpr{X: &ast.Ident{NamePos: i.NamePos, Name: d + "__"}, Sel: &ast.Ident{NamePos: x.Sel.NamePos, Name: x.Sel.Name}})
			}
		case *ast.IndexExpr:
			if g.isMap(x.X) {
				f := "MR"
				if mapW[x] {
					f = "MW"
				}
				x.X = call(rt(f), x.X)
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !selPre[x] {
				f := "Recv"
				if two[x] {
					f = "Recv2"
				}
				c.Replace(call(rt(f), x.X))
			}
		case *ast.SendStmt:
			if !selPre[x] {
				c.Replace(&ast.ExprStmt{X: call(call(rt("SendTo"), x.Chan), x.Value)})
			}
		case *ast.CallExpr:
			switch {
			case g.builtin(x.Fun, "close") && len(x.Args) == 1:
				c.Replace(call(rt("Close"), x.Args[0]))
			case g.builtin(x.Fun, "delete") && len(x.Args) == 2:
				x.Args[0] = call(rt("MW"), x.Args[0])
			case g.builtin(x.Fun, "len") && len(x.Args) == 1 && g.isMap(x.Args[0]):
				x.Args[0] = call(rt("MR"), x.Args[0])
			case g.builtin(x.Fun, "make") && len(x.Args) > 1:
				if sl, ok := g.info.TypeOf(x.Args[0]).Underlying().(*types.Slice); ok {
					size := types.SizesFor("gc", "amd64").Sizeof(sl.Elem())
					for i, a := range x.Args[1:] {
						if tv := g.info.Types[a]; tv.Value == nil {
							x.Args[1+i] = call(rt("MakeLen"), a, &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(size)})
						}
					}
				}
			case g.builtin(x.Fun, "clear") && len(x.Args) == 1 && g.isMap(x.Args[0]):
				x.Args[0] = call(rt("MW"), x.Args[0])
			default:
				if se, ok := x.Fun.(*ast.SelectorExpr); ok {
					if s := g.info.Selections[se]; s != nil && s.Kind() == types.MethodVal && s.Recv().String() == "reflect.Value" {
						switch se.Sel.Name {
						case "MapKeys":
							c.Replace(call(rt("SortValues"), x))
						case "MapRange":
							c.Replace(call(rt("ReflectMapRange"), se.X))
						}
					}
				}
			}
		case *ast.RangeStmt:
			switch rangeDef[x] {
			case 1:
				c.Replace(g.rangeIter(x, "MapRange", true))
			case 2:
				c.Replace(g.rangeIter(x, "ChanRange", false))
			}
		case *ast.GoStmt:
			c.Replace(g.goStmt(x))
		case *ast.SelectStmt:
			c.Replace(g.selectStmt(x))
		case *ast.LabeledStmt:
			if b, ok := x.Stmt.(*ast.BlockStmt); ok && g.skip[b] {
				last := len(b.List) - 1
				b.List[last] = &ast.LabeledStmt{Label: x.Label, Colon: x.Colon, Stmt: b.List[last]}
				c.Replace(b)
			}
		case *ast.BlockStmt:
			if !g.skip[x] {
				x.List = yields(x.List)
			}
		case *ast.CaseClause:
			x.Body = yields(x.Body)
		case *ast.CommClause:
			x.Body = yields(x.Body)
		}
		return true
	})
}

func yields(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		switch y := s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			return l
		case *ast.EmptyStmt:
		case *ast.DeclStmt:
			if gd, ok := y.Decl.(*ast.GenDecl); !ok || gd.Tok == token.VAR {
				out = append(out, &ast.ExprStmt{X: call(rt("Y"))})
			}
		default:
			out = append(out, &ast.ExprStmt{X: call(rt("Y"))})
		}
		out = append(out, s)
	}
	return out
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (g *gen) rangeIter(x *ast.RangeStmt, fn string, isMap bool) ast.Stmt {
	it := g.tmp("it")
	vars := []ast.Expr{x.Key}
	if isMap {
		vars = append(vars, x.Value)
	}
	lhs := []ast.Expr{id(it)}
	var args []ast.Expr
	var asL, asR []ast.Expr
	for _, v := range vars {
		if blank(v) {
			lhs = append(lhs, id("_"))
			args = append(args, id("nil"))
			continue
		}
		if x.Tok == token.DEFINE {
			lhs = append(lhs, v)
			args = append(args, &ast.UnaryExpr{Op: token.AND, X: id(v.(*ast.Ident).Name)})
		} else {
			// assigned at the start of each iteration, as the statement does
			t := g.tmp("rv")
			lhs = append(lhs, id(t))
			args = append(args, &ast.UnaryExpr{Op: token.AND, X: id(t)})
			asL = append(asL, v)
			asR = append(asR, id(t))
		}
	}
	if len(asL) > 0 {
		x.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: asL, Tok: token.ASSIGN, Rhs: asR}}, x.Body.List...)
	}
	return &ast.ForStmt{For: x.For,
		Init: &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{call(rt(fn), x.X)}},
		Cond: call(&ast.SelectorExpr{X: id(it), Sel: id("Next")}, args...),
		Body: x.Body}
}

func (g *gen) goStmt(x *ast.GoStmt) ast.Stmt {
	cl := x.Call
	if fl, ok := cl.Fun.(*ast.FuncLit); ok && len(cl.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: call(rt("Go"), fl)}
	}
	b := &ast.BlockStmt{Lbrace: x.Go}
	g.skip[b] = true
	fun := cl.Fun
	inlineFun := false
	switch f := ast.Unparen(cl.Fun).(type) {
	case *ast.Ident:
		switch g.info.Uses[f].(type) {
		case *types.Func, *types.Builtin:
			inlineFun = true
		}
	case *ast.SelectorExpr:
		if i, ok := f.X.(*ast.Ident); ok {
			if _, ok := g.info.Uses[i].(*types.PkgName); ok {
				inlineFun = true
			}
			if strings.HasSuffix(i.Name, "__") {
				inlineFun = true
			}
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		inlineFun = true
	case *ast.CallExpr: // rewritten builtin such as close
	}
	if !inlineFun {
		n := g.tmp("f")
		b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{fun}})
		fun = id(n)
	}
	var args []ast.Expr
	for _, a := range cl.Args {
		tv, ok := g.info.Types[a]
		if ok && (tv.Value != nil && tv.Value.Kind() != constant.Unknown || tv.IsNil()) {
			args = append(args, a)
			continue
		}
		n := g.tmp("a")
		b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		args = append(args, id(n))
	}
	inner := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: cl.Ellipsis}
	if cl.Ellipsis != token.NoPos {
		inner.Ellipsis = 1
	}
	fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
	b.List = append(b.List, &ast.ExprStmt{X: call(rt("Go"), fl)})
	return b
}

func (g *gen) selectStmt(x *ast.SelectStmt) ast.Stmt {
	b := &ast.BlockStmt{Lbrace: x.Select}
	g.skip[b] = true
	s := g.tmp("s")
	hasDef := "false"
	var cases []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	g.skip[sw.Body] = true
	idx := 0
	var lastReal *ast.CaseClause
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		nc := &ast.CaseClause{}
		if cc.Comm == nil {
			hasDef = "true"
			nc.Body = cc.Body
			sw.Body.List = append(sw.Body.List, nc)
			continue
		}
		nc.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}
		idx++
		lastReal = nc
		hoist := func(ch ast.Expr) ast.Expr {
			n := g.tmp("c")
			b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{ch}})
			return id(n)
		}
		switch y := cc.Comm.(type) {
		case *ast.SendStmt:
			ch := hoist(y.Chan)
			cases = append(cases, call(call(rt("SendCaseTo"), ch), y.Value))
		case *ast.ExprStmt:
			u := ast.Unparen(y.X).(*ast.UnaryExpr)
			ch := hoist(u.X)
			cases = append(cases, call(rt("RecvCase"), ch))
		case *ast.AssignStmt:
			u := ast.Unparen(y.Rhs[0]).(*ast.UnaryExpr)
			ch := hoist(u.X)
			cases = append(cases, call(rt("RecvCase"), ch))
			rhs := []ast.Expr{call(rt("As"), ch, &ast.SelectorExpr{X: id(s), Sel: id("V")})}
			if len(y.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: id(s), Sel: id("OK")})
			}
			nc.Body = append(nc.Body, &ast.AssignStmt{Lhs: y.Lhs, Tok: y.Tok, Rhs: rhs})
		}
		nc.Body = append(nc.Body, cc.Body...)
		sw.Body.List = append(sw.Body.List, nc)
	}
	if hasDef == "false" && lastReal != nil {
		lastReal.List = nil // keeps terminating-statement analysis happy
	}
	selCall := call(rt("Sel"), append([]ast.Expr{id(hasDef)}, cases...)...)
	if len(x.Body.List) == 0 {
		b.List = append(b.List, &ast.ExprStmt{X: selCall}, &ast.ForStmt{Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(rt("Y"))}}}})
		return b
	}
	b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{id(s)}, Tok: token.DEFINE, Rhs: []ast.Expr{selCall}})
	sw.Tag = &ast.SelectorExpr{X: id(s), Sel: id("I")}
	b.List = append(b.List, sw)
	return b
}

// resets appends code that restores the package-level variables of the file.
func (g *gen) resets(fset *token.FileSet) {
	inFile := func(v *types.Var) bool { return v.Pos() >= g.file.FileStart && v.Pos() < g.file.FileEnd }
	var body []ast.Stmt
	reg := func(n int, s ast.Stmt) {
		fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{s}}}
		body = append(body, &ast.ExprStmt{X: call(rt("RegisterResetN"), &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(g.pkg.PkgPath)}, &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}, fl)})
	}
	done := map[*types.Var]bool{}
	for i, in := range g.info.InitOrder {
		ok := false
		var lhs []ast.Expr
		for _, v := range in.Lhs {
			done[v] = true
			if v.Name() != "_" {
				ok = true
			}
			lhs = append(lhs, id(v.Name()))
		}
		if !ok || !inFile(in.Lhs[0]) {
			continue
		}
		if isErrNew(in.Rhs) {
			continue
		}
		reg(i+1, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{in.Rhs}})
	}
	for _, d := range g.file.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) > 0 {
				continue
			}
			for _, n := range vs.Names {
				if n.Name != "_" {
					reg(0, &ast.ExprStmt{X: call(rt("Zero"), &ast.UnaryExpr{Op: token.AND, X: id(n.Name)})})
				}
			}
		}
	}
	if len(body) > 0 {
		g.file.Decls = append(g.file.Decls, &ast.FuncDecl{Name: id("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})
	}
}

func isErrNew(e ast.Expr) bool {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return false
	}
	s, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	i, ok := s.X.(*ast.Ident)
	return ok && i.Name == "errors" && s.Sel.Name == "New"
}

func (g *gen) imports() {
	used := map[string]bool{}
	ast.Inspect(g.file, func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok {
			if pn, ok := g.info.Uses[i].(*types.PkgName); ok {
				used[pn.Name()+"|"+pn.Imported().Path()] = true
			}
		}
		return true
	})
	for _, d := range g.file.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			continue
		}
		var keep []ast.Spec
		for _, sp := range gd.Specs {
			is := sp.(*ast.ImportSpec)
			p, _ := strconv.Unquote(is.Path.Value)
			if p == "C" {
				die("cgo is not supported")
			}
			if is.Name != nil && (is.Name.Name == "_" || is.Name.Name == ".") {
				keep = append(keep, sp)
				continue
			}
			var obj types.Object
			if is.Name != nil {
				obj = g.info.Defs[is.Name]
			} else {
				obj = g.info.Implicits[is]
			}
			if obj == nil || used[obj.Name()+"|"+p] {
				keep = append(keep, sp)
			}
		}
		gd.Specs = keep
		if len(keep) > 1 && !gd.Lparen.IsValid() {
			gd.Lparen = gd.Pos()
		}
	}
	// drop empty import declarations
	var ds []ast.Decl
	for _, d := range g.file.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT && len(gd.Specs) == 0 {
			continue
		}
		ds = append(ds, d)
	}
	var add []ast.Decl
	imp := func(name, p string) {
		add = append(add, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: id(name), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(p)}}}})
	}
	imp("simrt__", "verif/simrt")
	var l []string
	for d := range g.used {
		l = append(l, d)
	}
	sort.Strings(l)
	for _, d := range l {
		imp(d+"__", "verif/simrt/"+d)
	}
	add = append(add, ds...)
	add = append(add, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{rt("Y")}}}})
	g.file.Decls = add
}

func main() {
	src := flag.String("src", "", "")
	as := flag.String("as", "/repo", "")
	out := flag.String("out", "", "")
	rtd := flag.String("rt", "", "")
	extra := flag.String("extra", "", "comma-separated dependency packages to rewrite too")
	flag.Parse()
	loadShims(*rtd)
	fset := token.NewFileSet()
	cfg := &packages.Config{Dir: *src, Fset: fset, Tests: false,
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedExportFile,
		ParseFile: func(fset *token.FileSet, name string, b []byte) (*ast.File, error) {
			if r, err := filepath.Rel(*src, name); err == nil && !strings.HasPrefix(r, "..") {
				name = filepath.Join(*as, r)
			}
			return parser.ParseFile(fset, name, b, parser.SkipObjectResolution)
		}}
	pats := []string{"./..."}
	for _, e := range strings.Split(*extra, ",") {
		if e != "" {
			pats = append(pats, e)
		}
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		die("load: %v", err)
	}
	bad := false
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "simgen:", e)
			bad = true
		}
	}
	if bad {
		os.Exit(2)
	}
	for _, p := range pkgs {
		if p.Name == "main" || len(p.Syntax) == 0 {
			continue
		}
		if p.Module == nil {
			die("package %s has no module", p.PkgPath)
		}
		mod := p.Module.Path
		dir := filepath.Join(*out, strings.ReplaceAll(mod, "/", "_"), strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, mod), "/"))
		if err := os.MkdirAll(dir, 0755); err != nil {
			die("%v", err)
		}
		for i, f := range p.Syntax {
			g := &gen{pkg: p, info: p.TypesInfo, file: f, used: map[string]bool{}}
			g.rewrite()
			g.resets(fset)
			g.imports()
			f.Comments = nil
			var b bytes.Buffer
			pc := printer.Config{Mode: printer.SourcePos | printer.UseSpaces | printer.TabIndent, Tabwidth: 8}
			if err := pc.Fprint(&b, fset, f); err != nil {
				die("print %s: %v", p.CompiledGoFiles[i], err)
			}
			name := filepath.Join(dir, filepath.Base(p.CompiledGoFiles[i]))
			if err := os.WriteFile(name, b.Bytes(), 0644); err != nil {
				die("%v", err)
			}
		}
	}
}
