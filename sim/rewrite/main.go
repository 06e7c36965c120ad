// zrw copies a Go module's non-test sources to another directory, rewritten so
// that every source of nondeterminism goes through the simulator's runtime.
//
//	zrw SRC DST      rewrite
//	zrw -genshim DIR write the alias parts of the shim packages
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const Mod = "github.com/innerr/ticat"
const zs = Mod + "/zsim/"

var shims = map[string]string{
	"os": "os", "os/exec": "exec", "time": "time", "sync": "sync", "math/rand": "rand",
	"runtime": "runtime", "syscall": "syscall", "net": "net", "io/ioutil": "ioutil",
	"path/filepath": "filepath", "fmt": "fmt", "github.com/peterh/liner": "liner",
	"os/signal": "signal", "log": "log",
}

var pass = map[string]bool{}

func init() {
	for _, p := range strings.Fields(`bufio bytes strings strconv sort errors io io/fs math unicode unicode/utf8
		regexp reflect unsafe encoding/json encoding/hex encoding/base64 encoding/binary encoding/csv
		container/list container/heap hash hash/fnv hash/crc32 crypto/md5 crypto/sha1 crypto/sha256 text/template
		text/tabwriter path context sync/atomic github.com/mattn/go-shellwords math/bits slices maps cmp
		crypto/sha512 runtime/debug unicode/utf16 html regexp/syntax`) {
		pass[p] = true
	}
}

type pkgJSON struct {
	ImportPath string
	Export     string
	Dir        string
	GoFiles    []string
	Imports    []string
	Standard   bool
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "zrw: "+f+"\n", a...)
	os.Exit(2)
}

func goList(dir string, args ...string) []*pkgJSON {
	cmd := exec.Command("go", append([]string{"list", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles,Imports,Standard"}, args...)...)
	cmd.Dir = dir
	var e bytes.Buffer
	cmd.Stderr = &e
	out, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, e.String())
	}
	var res []*pkgJSON
	d := json.NewDecoder(bytes.NewReader(out))
	for {
		var p pkgJSON
		if err := d.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		res = append(res, &p)
	}
	return res
}

func main() {
	if len(os.Args) == 3 && os.Args[1] == "-genshim" {
		genShim(os.Args[2])
		return
	}
	if len(os.Args) != 3 {
		die("usage: zrw SRC DST")
	}
	src, dst := os.Args[1], os.Args[2]
	pkgs := goList(src, "./...")
	exports := map[string]string{}
	var mine []*pkgJSON
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
		if p.ImportPath == Mod || strings.HasPrefix(p.ImportPath, Mod+"/") {
			mine = append(mine, p)
		}
	}
	fset := token.NewFileSet()
	base := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	checked := map[string]*types.Package{}
	imp := impFunc(func(path string) (*types.Package, error) {
		if path == "unsafe" {
			return types.Unsafe, nil
		}
		if p, ok := checked[path]; ok {
			return p, nil
		}
		return base.Import(path)
	})
	type one struct {
		p     *pkgJSON
		files []*ast.File
		info  *types.Info
		names []string
	}
	var all []one
	// go list -deps prints dependencies before the packages that need them
	for _, p := range mine {
		o := one{p: p}
		for _, f := range p.GoFiles {
			fn := filepath.Join(p.Dir, f)
			af, err := parser.ParseFile(fset, fn, nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			o.files = append(o.files, af)
			o.names = append(o.names, f)
		}
		o.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
			Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: imp, GoVersion: "go1.21", Sizes: types.SizesFor("gc", "amd64")}
		tp, err := conf.Check(p.ImportPath, fset, o.files, o.info)
		if err != nil {
			die("type check %s: %v", p.ImportPath, err)
		}
		checked[p.ImportPath] = tp
		all = append(all, o)
	}
	var vars []string
	for _, o := range all {
		rel, _ := filepath.Rel(src, o.p.Dir)
		odir := filepath.Join(dst, rel)
		os.MkdirAll(odir, 0755)
		rw := &rewriter{fset: fset, info: o.info, pkg: checked[o.p.ImportPath], path: o.p.ImportPath, pvars: map[types.Object]string{}}
		for _, f := range o.files {
			rw.collectVars(f)
		}
		for i, f := range o.files {
			out := rw.file(f)
			if err := os.WriteFile(filepath.Join(odir, o.names[i]), out, 0644); err != nil {
				die("%v", err)
			}
		}
		for _, n := range rw.pvars {
			vars = append(vars, o.p.ImportPath+":"+n)
		}
	}
	sort.Strings(vars)
	fmt.Fprintf(os.Stderr, "zrw: %d packages, package variables: %v\n", len(all), vars)
}

type impFunc func(string) (*types.Package, error)

func (f impFunc) Import(p string) (*types.Package, error) { return f(p) }

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	path  string
	pvars map[types.Object]string
	n     int
	used  bool
	osName string
	needOS bool
	nInit int
}

// collectVars finds the package level variables that become per-process.
func (r *rewriter) collectVars(f *ast.File) {
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, sp := range g.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) != 0 && len(vs.Values) != len(vs.Names) {
				continue // a, b = f(): stays shared
			}
			for _, n := range vs.Names {
				if n.Name == "_" {
					continue
				}
				r.pvars[r.info.Defs[n]] = n.Name
			}
		}
	}
}

func id(n string) *ast.Ident { return ast.NewIdent(n) }
func sel(a, b string) ast.Expr {
	return &ast.SelectorExpr{X: id(a), Sel: id(b)}
}
func (r *rewriter) rt(name string) ast.Expr {
	r.used = true
	return sel("zrt", name)
}
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }
func (r *rewriter) tmp(p string) string {
	r.n++
	return fmt.Sprintf("z%s%d", p, r.n)
}
func define(names []string, vals ...ast.Expr) ast.Stmt {
	var l []ast.Expr
	for _, n := range names {
		l = append(l, id(n))
	}
	return &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: vals}
}

func (r *rewriter) file(f *ast.File) []byte {
	r.used = false
	r.needOS = false
	r.osName = "os"
	// comments are dropped: positions move
	f.Comments = nil
	isMain := f.Name.Name == "main"
	haveOS := false
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if sh, ok := shims[p]; ok {
			im.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(zs + "shim/" + sh)}
			if p == "os" {
				haveOS = true
				if im.Name != nil {
					r.osName = im.Name.Name
				}
			}
		} else if pass[p] || p == Mod || strings.HasPrefix(p, Mod+"/") {
		} else {
			die("%s imports %s, which the simulator does not model", r.fset.Position(f.Pos()).Filename, p)
		}
		im.EndPos = 0
	}
	_ = haveOS
	var decls []ast.Decl
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.GenDecl:
			x.Doc = nil
			if x.Tok == token.VAR {
				decls = append(decls, r.varDecl(x)...)
				continue
			}
			if x.Tok != token.IMPORT {
				r.walkExprs(x)
			}
			decls = append(decls, x)
		case *ast.FuncDecl:
			x.Doc = nil
			if x.Type != nil {
				r.walkExprs(x.Type)
			}
			if x.Recv != nil {
				r.walkExprs(x.Recv)
			}
			if x.Body != nil {
				r.block(x.Body)
			}
			if x.Recv == nil && x.Name.Name == "init" {
				r.nInit++
				n := fmt.Sprintf("zinit%s%d", sanitize(filepath.Base(r.fset.Position(f.Package).Filename)), r.nInit)
				x.Name = id(n)
				decls = append(decls, x, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
					Names: []*ast.Ident{id("_")}, Values: []ast.Expr{call(r.rt("RegisterInit"), id(n))}}}})
				continue
			}
			if isMain && x.Recv == nil && x.Name.Name == "main" {
				x.Name = id("Main")
			}
			decls = append(decls, x)
		default:
			decls = append(decls, d)
		}
	}
	f.Decls = decls
	if isMain {
		f.Name = id("zmain")
	}
	if r.used {
		spec := &ast.ImportSpec{Name: id("zrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(zs + "rt")}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
	stripPos(f)
	var buf bytes.Buffer
	if err := format.Node(&buf, token.NewFileSet(), f); err != nil {
		die("print: %v", err)
	}
	return buf.Bytes()
}

func sanitize(s string) string {
	out := ""
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			out += string(c)
		}
	}
	return out
}

// varDecl turns var x T = v into func zpv_x() *T.
func (r *rewriter) varDecl(g *ast.GenDecl) []ast.Decl {
	var out []ast.Decl
	for _, sp := range g.Specs {
		vs := sp.(*ast.ValueSpec)
		vs.Doc, vs.Comment = nil, nil
		if len(vs.Values) != 0 && len(vs.Values) != len(vs.Names) {
			r.walkExprs(vs)
			out = append(out, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{vs}})
			continue
		}
		for i, n := range vs.Names {
			obj := r.info.Defs[n]
			if n.Name == "_" {
				nv := &ast.ValueSpec{Names: []*ast.Ident{id("_")}, Type: vs.Type}
				if i < len(vs.Values) {
					nv.Values = []ast.Expr{r.expr(vs.Values[i])}
				}
				out = append(out, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{nv}})
				continue
			}
			typ := vs.Type
			if typ == nil {
				typ = r.typeExpr(obj.Type())
			}
			var body []ast.Stmt
			if i < len(vs.Values) {
				body = []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{r.expr(vs.Values[i])}}}
			} else {
				body = []ast.Stmt{
					&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("zv")}, Type: typ}}}},
					&ast.ReturnStmt{Results: []ast.Expr{id("zv")}}}
			}
			init := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: typ}}}},
				Body: &ast.BlockStmt{List: body}}
			if ast.IsExported(n.Name) {
				out = append(out, &ast.FuncDecl{Name: id("Zpv_" + n.Name),
					Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: &ast.StarExpr{X: typ}}}}},
					Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call(id("zpv_" + n.Name))}}}}})
			}
			out = append(out, &ast.FuncDecl{Name: id("zpv_" + n.Name),
				Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: &ast.StarExpr{X: typ}}}}},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{
					call(r.rt("PV"), &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r.path + "." + n.Name)}, init)}}}}})
		}
	}
	return out
}

// typeExpr spells a type; packages are referred to by their own names, which
// must be imported in the file (true when the initialiser mentions them).
func (r *rewriter) typeExpr(t types.Type) ast.Expr {
	s := types.TypeString(t, func(p *types.Package) string {
		if p == r.pkg {
			return ""
		}
		return p.Name()
	})
	e, err := parser.ParseExpr(s)
	if err != nil {
		die("cannot spell type %s", s)
	}
	return e
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.stmts(b.List)
}

func (r *rewriter) y() ast.Stmt { return &ast.ExprStmt{X: call(r.rt("Y"))} }

func (r *rewriter) stmts(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		out = append(out, r.y())
		out = append(out, r.stmt(s)...)
	}
	return out
}

func (r *rewriter) one(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	l := r.stmt(s)
	if len(l) == 1 {
		return l[0]
	}
	return &ast.BlockStmt{List: l}
}

func (r *rewriter) isChan(e ast.Expr) bool {
	t, ok := r.info.Types[e]
	if !ok || t.Type == nil {
		return false
	}
	_, ok = t.Type.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) isMap(e ast.Expr) bool {
	t, ok := r.info.Types[e]
	if !ok || t.Type == nil {
		return false
	}
	_, ok = t.Type.Underlying().(*types.Map)
	return ok
}

func recvOf(e ast.Expr) (ast.Expr, bool) {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	u, ok := e.(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u.X, true
	}
	return nil, false
}

func (r *rewriter) stmt(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case *ast.BlockStmt:
		r.block(x)
	case *ast.IfStmt:
		x.Init = r.one(x.Init)
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		if x.Else != nil {
			x.Else = r.one(x.Else)
		}
	case *ast.ForStmt:
		x.Init = r.one(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Post = r.one(x.Post)
		r.block(x.Body)
	case *ast.RangeStmt:
		return r.rangeStmt(x, nil)
	case *ast.SwitchStmt:
		x.Init = r.one(x.Init)
		x.Tag = r.expr(x.Tag)
		r.clauses(x.Body)
	case *ast.TypeSwitchStmt:
		x.Init = r.one(x.Init)
		x.Assign = r.one(x.Assign)
		r.clauses(x.Body)
	case *ast.SelectStmt:
		return r.selectStmt(x, nil)
	case *ast.LabeledStmt:
		switch y := x.Stmt.(type) {
		case *ast.RangeStmt:
			return r.rangeStmt(y, x.Label)
		case *ast.SelectStmt:
			return r.selectStmt(y, x.Label)
		}
		l := r.stmt(x.Stmt)
		if len(l) == 1 {
			x.Stmt = l[0]
			return []ast.Stmt{x}
		}
		x.Stmt = &ast.BlockStmt{List: l}
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.SendStmt:
		return []ast.Stmt{&ast.ExprStmt{X: call(r.rt("Send"), r.expr(x.Chan), r.expr(x.Value))}}
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if c, ok := recvOf(x.Rhs[0]); ok {
				x.Rhs[0] = call(r.rt("Recv2"), r.expr(c))
				for i := range x.Lhs {
					x.Lhs[i] = r.expr(x.Lhs[i])
				}
				return []ast.Stmt{x}
			}
		}
		// os.Stdout = f
		if len(x.Lhs) == 1 && len(x.Rhs) == 1 && x.Tok == token.ASSIGN {
			if n := r.osStd(x.Lhs[0]); n != "" && n != "Args" {
				return []ast.Stmt{&ast.ExprStmt{X: call(sel(r.osName, "Set"+n), r.expr(x.Rhs[0]))}}
			}
		}
		for i := range x.Lhs {
			x.Lhs[i] = r.expr(x.Lhs[i])
		}
		for i := range x.Rhs {
			x.Rhs[i] = r.expr(x.Rhs[i])
		}
	case *ast.DeclStmt:
		r.walkExprs(x.Decl)
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.IncDecStmt:
		x.X = r.expr(x.X)
	case *ast.ReturnStmt:
		for i := range x.Results {
			x.Results[i] = r.expr(x.Results[i])
		}
	case *ast.DeferStmt:
		x.Call = r.expr(x.Call).(*ast.CallExpr)
	}
	return []ast.Stmt{s}
}

func (r *rewriter) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		for i := range cc.List {
			cc.List[i] = r.expr(cc.List[i])
		}
		cc.Body = r.stmts(cc.Body)
	}
}

// goStmt evaluates the function value and the arguments first.
func (r *rewriter) goStmt(x *ast.GoStmt) []ast.Stmt {
	var out []ast.Stmt
	c := x.Call
	fun := r.expr(c.Fun)
	hoist := func(e ast.Expr, orig ast.Expr) ast.Expr {
		tv := r.info.Types[orig]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			return e
		}
		n := r.tmp("g")
		out = append(out, define([]string{n}, e))
		return id(n)
	}
	if tv := r.info.Types[c.Fun]; !tv.IsBuiltin() && !tv.IsType() {
		if _, lit := c.Fun.(*ast.FuncLit); !lit {
			fun = hoist(fun, c.Fun)
		}
	}
	var args []ast.Expr
	for _, a := range c.Args {
		args = append(args, hoist(r.expr(a), a))
	}
	inner := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: c.Ellipsis}
	if c.Ellipsis != token.NoPos {
		inner.Ellipsis = 1
	}
	body := []ast.Stmt{&ast.ExprStmt{X: inner}}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
	out = append(out, &ast.ExprStmt{X: call(r.rt("GoFunc"), lit)})
	return []ast.Stmt{&ast.BlockStmt{List: out}}
}

func lab(l *ast.Ident, s ast.Stmt) ast.Stmt {
	if l == nil {
		return s
	}
	return &ast.LabeledStmt{Label: l, Stmt: s}
}

func isBlank(e ast.Expr) bool {
	i, ok := e.(*ast.Ident)
	return e == nil || ok && i.Name == "_"
}

func (r *rewriter) rangeStmt(x *ast.RangeStmt, label *ast.Ident) []ast.Stmt {
	switch {
	case r.isMap(x.X):
		it := r.tmp("it")
		m := r.expr(x.X)
		r.block(x.Body)
		if x.Tok == token.DEFINE || isBlank(x.Key) && isBlank(x.Value) {
			k, v := "_", "_"
			ka, va := ast.Expr(id("nil")), ast.Expr(id("nil"))
			if !isBlank(x.Key) {
				k = x.Key.(*ast.Ident).Name
				ka = &ast.UnaryExpr{Op: token.AND, X: id(k)}
			}
			if !isBlank(x.Value) {
				v = x.Value.(*ast.Ident).Name
				va = &ast.UnaryExpr{Op: token.AND, X: id(v)}
			}
			f := &ast.ForStmt{Init: define([]string{k, v, it}, call(r.rt("MapIter"), m)),
				Cond: call(sel(it, "Next"), ka, va), Body: x.Body}
			return []ast.Stmt{lab(label, f)}
		}
		// k, v = range m: copy after each step
		k, v := r.tmp("k"), r.tmp("v")
		var l, rr []ast.Expr
		if !isBlank(x.Key) {
			l, rr = append(l, r.expr(x.Key)), append(rr, id(k))
		}
		if !isBlank(x.Value) {
			l, rr = append(l, r.expr(x.Value)), append(rr, id(v))
		}
		x.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: l, Tok: token.ASSIGN, Rhs: rr}}, x.Body.List...)
		f := &ast.ForStmt{Init: define([]string{k, v, it}, call(r.rt("MapIter"), m)),
			Cond: call(sel(it, "Next"), &ast.UnaryExpr{Op: token.AND, X: id(k)}, &ast.UnaryExpr{Op: token.AND, X: id(v)}), Body: x.Body}
		return []ast.Stmt{lab(label, f)}
	case r.isChan(x.X):
		c, v, ok := r.tmp("c"), r.tmp("v"), r.tmp("ok")
		ch := r.expr(x.X)
		r.block(x.Body)
		pre := []ast.Stmt{define([]string{v, ok}, call(r.rt("Recv2"), id(c))),
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}
		if isBlank(x.Key) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}})
		} else {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(x.Key)}, Tok: x.Tok, Rhs: []ast.Expr{id(v)}})
		}
		x.Body.List = append(pre, x.Body.List...)
		f := &ast.ForStmt{Init: define([]string{c}, ch), Body: x.Body}
		return []ast.Stmt{lab(label, f)}
	}
	x.X = r.expr(x.X)
	if x.Key != nil && x.Tok == token.ASSIGN {
		x.Key = r.expr(x.Key)
		if x.Value != nil {
			x.Value = r.expr(x.Value)
		}
	}
	r.block(x.Body)
	return []ast.Stmt{lab(label, x)}
}

func (r *rewriter) selectStmt(x *ast.SelectStmt, label *ast.Ident) []ast.Stmt {
	var pre []ast.Stmt
	var cases []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	zi, zv, zok := r.tmp("i"), r.tmp("v"), r.tmp("ok")
	use := &ast.AssignStmt{Lhs: []ast.Expr{id("_"), id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(zv), id(zok)}}
	hasDef := "false"
	n := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		body := []ast.Stmt{use}
		var idx ast.Expr
		if cc.Comm == nil {
			hasDef = "true"
			idx = &ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}
		} else {
			idx = &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}
			n++
			cv := r.tmp("c")
			switch y := cc.Comm.(type) {
			case *ast.SendStmt:
				sv := r.tmp("s")
				pre = append(pre, define([]string{cv}, r.expr(y.Chan)))
				val := r.expr(y.Value)
				tv := r.info.Types[y.Value]
				if tv.Value == nil && !tv.IsNil() {
					pre = append(pre, define([]string{sv}, val))
					val = id(sv)
				}
				cases = append(cases, call(r.rt("SelSend"), id(cv), val))
			case *ast.ExprStmt:
				ch, _ := recvOf(y.X)
				pre = append(pre, define([]string{cv}, r.expr(ch)))
				cases = append(cases, call(r.rt("SelRecv"), id(cv)))
			case *ast.AssignStmt:
				ch, _ := recvOf(y.Rhs[0])
				pre = append(pre, define([]string{cv}, r.expr(ch)))
				cases = append(cases, call(r.rt("SelRecv"), id(cv)))
				as := &ast.AssignStmt{Tok: y.Tok}
				as.Lhs = append(as.Lhs, r.expr(y.Lhs[0]))
				as.Rhs = append(as.Rhs, call(r.rt("SelVal"), id(cv), id(zv)))
				if len(y.Lhs) == 2 {
					as.Lhs = append(as.Lhs, r.expr(y.Lhs[1]))
					as.Rhs = append(as.Rhs, id(zok))
				}
				allBlank := true
				for _, l := range as.Lhs {
					if !isBlank(l) {
						allBlank = false
					}
				}
				if allBlank {
					as.Tok = token.ASSIGN
				}
				body = append(body, as)
			}
		}
		body = append(body, r.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{idx}, Body: body})
	}
	args := append([]ast.Expr{id(hasDef)}, cases...)
	sw.Init = define([]string{zi, zv, zok}, call(r.rt("Select"), args...))
	sw.Tag = id(zi)
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, lab(label, sw))}}
}

func (r *rewriter) osStd(e ast.Expr) string {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return ""
	}
	o := r.info.Uses[s.Sel]
	if o == nil || o.Pkg() == nil || o.Pkg().Path() != "os" {
		return ""
	}
	if _, ok := o.(*types.Var); !ok {
		return ""
	}
	switch o.Name() {
	case "Stdin", "Stdout", "Stderr", "Args":
		return o.Name()
	}
	return ""
}

// expr rewrites an expression.
func (r *rewriter) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	switch x := e.(type) {
	case *ast.Ident:
		if o := r.info.Uses[x]; o != nil {
			if n, ok := r.pvars[o]; ok {
				return &ast.ParenExpr{X: &ast.StarExpr{X: call(id("zpv_" + n))}}
			}
		}
		return x
	case *ast.SelectorExpr:
		if n := r.osStd(x); n != "" {
			return call(&ast.SelectorExpr{X: x.X, Sel: id("Get" + n)})
		}
		if pi, ok := x.X.(*ast.Ident); ok {
			if _, isPkg := r.info.Uses[pi].(*types.PkgName); isPkg {
				o := r.info.Uses[x.Sel]
				if v, ok := o.(*types.Var); ok && v.Pkg() != nil && strings.HasPrefix(v.Pkg().Path(), Mod) && v.Parent() == v.Pkg().Scope() {
					// package variable of another package of the module (tuple
					// declarations are not expected there)
					return &ast.ParenExpr{X: &ast.StarExpr{X: call(&ast.SelectorExpr{X: pi, Sel: id("Zpv_" + v.Name())})}}
				}
				return x
			}
		}
		x.X = r.expr(x.X)
		return x
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return call(r.rt("Recv"), r.expr(x.X))
		}
		x.X = r.expr(x.X)
		return x
	case *ast.CallExpr:
		if i, ok := x.Fun.(*ast.Ident); ok {
			if b, ok := r.info.Uses[i].(*types.Builtin); ok {
				switch b.Name() {
				case "close":
					return call(r.rt("Close"), r.expr(x.Args[0]))
				case "len":
					if r.isChan(x.Args[0]) {
						return call(r.rt("ChanLen"), r.expr(x.Args[0]))
					}
				case "println", "print":
					for k := range x.Args {
						x.Args[k] = r.expr(x.Args[k])
					}
					return call(r.rt("Println"), x.Args...)
				}
			}
		}
		x.Fun = r.expr(x.Fun)
		for k := range x.Args {
			x.Args[k] = r.expr(x.Args[k])
		}
		return x
	case *ast.FuncLit:
		r.walkExprs(x.Type)
		r.block(x.Body)
		return x
	case *ast.CompositeLit:
		x.Type = r.expr(x.Type)
		for k, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if kid, isID := kv.Key.(*ast.Ident); isID {
					if v, isVar := r.info.Uses[kid].(*types.Var); !(isVar && v.IsField()) {
						kv.Key = r.expr(kv.Key)
					}
				} else {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
			} else {
				x.Elts[k] = r.expr(el)
			}
		}
		return x
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
	case *ast.IndexExpr:
		x.X, x.Index = r.expr(x.X), r.expr(x.Index)
	case *ast.SliceExpr:
		x.X, x.Low, x.High, x.Max = r.expr(x.X), r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
	case *ast.TypeAssertExpr:
		x.X, x.Type = r.expr(x.X), r.expr(x.Type)
	case *ast.KeyValueExpr:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
	case *ast.ArrayType, *ast.StructType, *ast.FuncType, *ast.InterfaceType, *ast.MapType, *ast.ChanType:
		r.walkExprs(e)
	}
	return e
}

// walkExprs handles declarations and types: only initialisers and array sizes
// can hold something to rewrite.
func (r *rewriter) walkExprs(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ValueSpec:
			for i := range x.Values {
				x.Values[i] = r.expr(x.Values[i])
			}
			x.Doc, x.Comment = nil, nil
			return false
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
}
