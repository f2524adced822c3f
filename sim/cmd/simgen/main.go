// simgen rewrites gev and the modules it is made of into a form that runs under the simulator.
//
//	simgen -repo /repo -modfile F -out DIR
//
// writes DIR/gen/<import path>/*.go and DIR/over/<pkg>/zz_shim.go.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/constant"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	Standard   bool
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	ImportMap  map[string]string
	Error      *struct{ Err string }
}

var overrides = map[string]string{
	"sync":                           "gevsim/over/sync",
	"sync/atomic":                    "gevsim/over/atomic",
	"time":                           "gevsim/over/time",
	"context":                        "gevsim/over/context",
	"runtime":                        "gevsim/over/runtime",
	"os":                             "gevsim/over/os",
	"net":                            "gevsim/over/net",
	"syscall":                        "gevsim/over/syscall",
	"golang.org/x/sys/unix":          "gevsim/over/unix",
	"math/rand":                      "gevsim/over/rand",
	"log":                            "gevsim/over/stdlog",
	"github.com/libp2p/go-reuseport": "gevsim/over/reuseport",
}

// functions of overridden packages that are pure and may be taken from the original
var pureFuncs = map[string]bool{
	"time.Unix": true, "time.UnixMilli": true, "time.UnixMicro": true, "time.Date": true, "time.Parse": true, "time.ParseDuration": true,
	"net.ParseCIDR": true, "net.CIDRMask": true, "net.ResolveIPAddr": true, "net.LookupPort": false,
	"runtime.Callers": true, "runtime.FuncForPC": true, "runtime.CallersFrames": true, "runtime.Version": true,
	"os.IsNotExist": true, "os.IsTimeout": true,
}

// functions of dependencies outside the repository that run without preemption inside
var sections = map[string]bool{
	"github.com/RussellLuo/timingwheel.TimingWheel.add": true,
	"github.com/RussellLuo/timingwheel.bucket.Flush":    true,
}

// data-only dependencies: no preemption points
var quiet = map[string]bool{
	"github.com/gobwas/httphead": true, "github.com/pkg/errors": true, "github.com/Allenxuxu/toolkit/convert": true,
	"github.com/gobwas/pool/internal/pmath": true,
}

const genRoot = "gevsim/gen/"

var (
	cover    bool
	coverPos []string
	plain    bool
)

// packages whose memory accesses are recorded
var watched = func(path string) bool {
	return !plain && (strings.HasPrefix(path, "github.com/Allenxuxu/gev") || path == "github.com/Allenxuxu/ringbuffer")
}

func main() {
	repo := flag.String("repo", "/repo", "")
	modfile := flag.String("modfile", "", "")
	out := flag.String("out", "", "")
	flag.BoolVar(&cover, "cover", false, "count how often each statement of gev runs (development)")
	flag.BoolVar(&plain, "plain", false, "do not record memory accesses")
	flag.Parse()
	if err := run(*repo, *modfile, *out); err != nil {
		fmt.Fprintln(os.Stderr, "simgen:", err)
		os.Exit(1)
	}
}

func run(repo, modfile, out string) error {
	roots := []string{".", "./eventloop", "./poller", "./log", "./plugins/protobuf", "./plugins/websocket", "./plugins/websocket/ws", "./plugins/websocket/ws/util"}
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,Standard,GoFiles,CgoFiles,Imports,ImportMap,Error"}
	if modfile != "" {
		args = append(args, "-modfile="+modfile)
	}
	cmd := exec.Command("go", append(args, roots...)...)
	cmd.Dir = repo
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	b, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	var pkgs []*listPkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		if p.Error != nil {
			return fmt.Errorf("%s: %s", p.ImportPath, p.Error.Err)
		}
		pkgs = append(pkgs, p)
	}
	exports := map[string]string{}
	for _, p := range pkgs {
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
	}
	g := &gen{fset: token.NewFileSet(), done: map[string]*types.Package{}, out: out, used: map[string]map[string]types.Object{}}
	g.gc = importer.ForCompiler(g.fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	for _, p := range pkgs {
		if p.Standard || overrides[p.ImportPath] != "" || strings.HasPrefix(p.ImportPath, "golang.org/x/sys/") {
			continue
		}
		if len(p.CgoFiles) > 0 {
			return fmt.Errorf("%s uses cgo", p.ImportPath)
		}
		if err := g.pkg(p); err != nil {
			return fmt.Errorf("%s: %v", p.ImportPath, err)
		}
	}
	if cover {
		b, _ := json.Marshal(coverPos)
		if err := os.WriteFile(filepath.Join(out, "cover.json"), b, 0o644); err != nil {
			return err
		}
	}
	return g.shims()
}

type gen struct {
	fset *token.FileSet
	gc   types.Importer
	done map[string]*types.Package
	out  string
	used map[string]map[string]types.Object // overridden package -> used objects

	info    *types.Info
	path    string
	noY     bool
	watch   bool
	sizes   types.Sizes
	mapW    map[*ast.IndexExpr]bool
	tmp     int
	rewr    map[string]bool
	needs   bool
	lastErr error
}

func (g *gen) Import(path string) (*types.Package, error) {
	if p := g.done[path]; p != nil {
		return p, nil
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return g.gc.Import(path)
}

func (g *gen) pkg(p *listPkg) error {
	var files []*ast.File
	for _, n := range p.GoFiles {
		f, err := parser.ParseFile(g.fset, filepath.Join(p.Dir, n), nil, parser.SkipObjectResolution|parser.ParseComments)
		if err != nil {
			return err
		}
		for _, cg := range f.Comments {
			for _, c := range cg.List {
				if strings.HasPrefix(c.Text, "//go:linkname") {
					return fmt.Errorf("%s uses go:linkname", n)
				}
				_ = constraint.IsGoBuild
			}
		}
		files = append(files, f)
	}
	g.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	g.path = p.ImportPath
	g.noY = quiet[p.ImportPath]
	g.watch = watched(p.ImportPath)
	g.sizes = types.SizesFor("gc", "amd64")
	conf := types.Config{Importer: g, Sizes: types.SizesFor("gc", "amd64"), GoVersion: "go1.21"}
	tp, err := conf.Check(p.ImportPath, g.fset, files, g.info)
	if err != nil {
		return err
	}
	g.done[p.ImportPath] = tp
	for id, o := range g.info.Uses {
		_ = id
		if o.Pkg() == nil || overrides[o.Pkg().Path()] == "" {
			continue
		}
		if o.Parent() != o.Pkg().Scope() {
			continue
		}
		m := g.used[o.Pkg().Path()]
		if m == nil {
			m = map[string]types.Object{}
			g.used[o.Pkg().Path()] = m
		}
		m[o.Name()] = o
	}

	// package-level variables in initialisation order
	owner := map[types.Object]int{}
	for i, f := range files {
		for _, d := range f.Decls {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
				for _, s := range gd.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						if o := g.info.Defs[n]; o != nil {
							owner[o] = i
						}
					}
				}
			}
		}
	}
	perFile := map[int][]string{}
	hasInit := map[types.Object]bool{}
	initNo := 0
	var calls []string
	type pend struct {
		file int
		lhs  []string
		rhs  ast.Expr
		name string
	}
	var pends []*pend
	for _, in := range g.info.InitOrder {
		fi := -1
		var lhs []string
		for _, v := range in.Lhs {
			hasInit[v] = true
			lhs = append(lhs, v.Name())
			if o, ok := owner[v]; ok {
				fi = o
			}
		}
		if fi < 0 {
			for i, f := range files {
				if f.FileStart <= in.Rhs.Pos() && in.Rhs.Pos() <= f.FileEnd {
					fi = i
				}
			}
		}
		name := fmt.Sprintf("zzInit%d", initNo)
		initNo++
		calls = append(calls, name)
		pends = append(pends, &pend{fi, lhs, in.Rhs, name})
	}
	var zeros []string
	for _, n := range tp.Scope().Names() {
		if v, ok := tp.Scope().Lookup(n).(*types.Var); ok && !hasInit[v] {
			zeros = append(zeros, n)
		}
	}
	dir := filepath.Join(g.out, "gen", p.ImportPath)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	// initialisers are rewritten through a map so that the shared expression is only rewritten once
	rhsOf := map[ast.Expr]ast.Expr{}
	simInit := 0
	for i, f := range files {
		f.Comments = nil
		f.Doc = nil
		g.lastErr = nil
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				d.Doc = nil
				if d.Recv == nil && d.Name.Name == "init" {
					d.Name = ast.NewIdent(fmt.Sprintf("zzSimInit%d", simInit))
					simInit++
				}
				if d.Recv != nil {
					g.fields(d.Recv)
				}
				g.funcType(d.Type)
				if d.Body != nil {
					key := p.ImportPath + "." + recvName(d) + d.Name.Name
					d.Body.List = g.block(d.Body.List)
					if sections[key] {
						d.Body.List = append([]ast.Stmt{&ast.DeferStmt{Call: &ast.CallExpr{Fun: call("zzcore", "Section")}}}, d.Body.List...)
					}
				}
			case *ast.GenDecl:
				d.Doc = nil
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.ImportSpec:
						s.Doc, s.Comment = nil, nil
						g.importSpec(s, p)
					case *ast.ValueSpec:
						s.Doc, s.Comment = nil, nil
						s.Type = g.expr(s.Type)
						for k, v := range s.Values {
							n := g.expr(v)
							rhsOf[v] = n
							s.Values[k] = n
						}
					case *ast.TypeSpec:
						s.Doc, s.Comment = nil, nil
						s.Type = g.expr(s.Type)
					}
				}
			}
		}
		f.Imports = nil
		if g.lastErr != nil {
			return g.lastErr
		}
		for _, pe := range pends {
			if pe.file != i {
				continue
			}
			rhs := rhsOf[pe.rhs]
			if rhs == nil {
				return fmt.Errorf("lost initialiser of %v", pe.lhs)
			}
			as := &ast.AssignStmt{Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}
			for _, l := range pe.lhs {
				as.Lhs = append(as.Lhs, ast.NewIdent(l))
			}
			f.Decls = append(f.Decls, &ast.FuncDecl{Name: ast.NewIdent(pe.name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{as}}})
		}
		_ = perFile
		clearPos(reflect.ValueOf(f))
		// imports of the simulator
		imp := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1}
		for _, n := range []string{"core", "chans", "over/sim"} {
			base := n[strings.LastIndex(n, "/")+1:]
			imp.Specs = append(imp.Specs, &ast.ImportSpec{Name: ast.NewIdent("zz" + base), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("gevsim/" + n)}})
		}
		f.Decls = append([]ast.Decl{imp}, f.Decls...)
		var buf bytes.Buffer
		if err := format.Node(&buf, token.NewFileSet(), f); err != nil {
			return err
		}
		src := "//go:build go1.21\n\n" + buf.String() + "\nvar _ = zzcore.Y\nvar _ = zzsim.Set\nvar _ zzchans.Case\n"
		fmted, err := format.Source([]byte(src))
		if err != nil {
			_ = os.WriteFile(filepath.Join(dir, p.GoFiles[i]), []byte(src), 0o644)
			return fmt.Errorf("%s: %v", p.GoFiles[i], err)
		}
		if err := os.WriteFile(filepath.Join(dir, p.GoFiles[i]), fmted, 0o644); err != nil {
			return err
		}
	}
	var rb strings.Builder
	fmt.Fprintf(&rb, "//go:build go1.21\n\npackage %s\n\nimport (\n\tzzcore \"gevsim/core\"\n\tzzsim \"gevsim/over/sim\"\n)\n\nvar _ = zzsim.Set\n\nfunc init() { zzcore.RegisterReset(SimReset) }\n\n// SimReset puts the package into its initial state.\nfunc SimReset() {\n", p.Name)
	for _, z := range zeros {
		fmt.Fprintf(&rb, "\tzzsim.Zero(&%s)\n", z)
	}
	for _, c := range calls {
		fmt.Fprintf(&rb, "\t%s()\n", c)
	}
	for k := 0; k < simInit; k++ {
		fmt.Fprintf(&rb, "\tzzSimInit%d()\n", k)
	}
	rb.WriteString("}\n")
	return os.WriteFile(filepath.Join(dir, "zz_reset.go"), []byte(rb.String()), 0o644)
}

func recvName(d *ast.FuncDecl) string {
	if d.Recv == nil || len(d.Recv.List) == 0 {
		return ""
	}
	t := d.Recv.List[0].Type
	if s, ok := t.(*ast.StarExpr); ok {
		t = s.X
	}
	if id, ok := t.(*ast.Ident); ok {
		return id.Name + "."
	}
	return ""
}

func (g *gen) importSpec(s *ast.ImportSpec, p *listPkg) {
	path, _ := strconv.Unquote(s.Path.Value)
	if m := p.ImportMap[path]; m != "" {
		path = m
	}
	if o := overrides[path]; o != "" {
		s.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(o)}
		return
	}
	if _, ok := g.done[path]; ok {
		s.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(genRoot + path)}
	}
}

// clearPos removes all positions except those that carry syntax.
func clearPos(v reflect.Value) {
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	posT := reflect.TypeOf(token.Pos(0))
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Pointer:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			if v.Type() == reflect.TypeOf((*ast.Object)(nil)) || v.Type() == reflect.TypeOf((*ast.Scope)(nil)) {
				return
			}
			seen[v.Pointer()] = true
			walk(v.Elem())
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				f := v.Field(i)
				if f.Type() == posT {
					n := v.Type().Field(i).Name
					keep := (n == "Lparen" && v.Type().Name() == "GenDecl") || n == "Ellipsis" || n == "Assign"
					if keep && f.Int() != 0 {
						f.SetInt(1)
					} else if f.CanSet() {
						f.SetInt(0)
					}
					continue
				}
				walk(f)
			}
		}
	}
	walk(v)
}

// ---- helpers ----

func sel(p, n string) ast.Expr { return &ast.SelectorExpr{X: ast.NewIdent(p), Sel: ast.NewIdent(n)} }
func call(p, n string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: sel(p, n), Args: args}
}
func method(x ast.Expr, n string, args ...ast.Expr) *ast.CallExpr {
	switch x.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.CallExpr, *ast.IndexExpr, *ast.ParenExpr:
	default:
		x = &ast.ParenExpr{X: x}
	}
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: x, Sel: ast.NewIdent(n)}, Args: args}
}
func intLit(n int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)} }

func (g *gen) fresh(p string) *ast.Ident {
	g.tmp++
	return ast.NewIdent(fmt.Sprintf("zz%s%d", p, g.tmp))
}

func (g *gen) typeOf(e ast.Expr) types.Type {
	if tv, ok := g.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := g.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func chanOf(t types.Type) *types.Chan {
	if t == nil {
		return nil
	}
	c, _ := t.Underlying().(*types.Chan)
	return c
}

func (g *gen) isChan(e ast.Expr) bool { return chanOf(g.typeOf(e)) != nil }

func (g *gen) fail(n ast.Node, f string, a ...any) {
	if g.lastErr == nil {
		g.lastErr = fmt.Errorf("%s: %s", g.fset.Position(n.Pos()), fmt.Sprintf(f, a...))
	}
}

func (g *gen) fields(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		f.Doc, f.Comment = nil, nil
		f.Type = g.expr(f.Type)
	}
}

func (g *gen) funcType(t *ast.FuncType) {
	g.fields(t.TypeParams)
	g.fields(t.Params)
	g.fields(t.Results)
}

func (g *gen) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = g.expr(l[i])
	}
}

func (g *gen) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = g.info.Uses[id].(*types.Builtin)
	return ok
}

// expr rewrites an expression whose value is used.
func (g *gen) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if g.watch {
		if tv, ok := g.info.Types[e]; ok && tv.Value != nil {
			return e
		}
		if g.shared(e) {
			pos := g.pos(e)
			return &ast.ParenExpr{X: &ast.StarExpr{X: call("zzcore", "RR", &ast.UnaryExpr{Op: token.AND, X: g.loc(e)}, pos)}}
		}
	}
	return g.loc(e)
}

func (g *gen) pos(e ast.Expr) ast.Expr {
	p := g.fset.Position(e.Pos())
	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(filepath.Base(p.Filename) + ":" + strconv.Itoa(p.Line))}
}

// isPtr tells whether e denotes a pointer value.
func (g *gen) isPtr(e ast.Expr) bool {
	t := g.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// shared tells whether e denotes memory that other goroutines may see and whose address can be taken.
func (g *gen) shared(e ast.Expr) bool {
	return g.sharedLoc(e) && g.sized(e)
}

func (g *gen) sized(e ast.Expr) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false // size depends on a type parameter
		}
	}()
	t := g.typeOf(e)
	return t != nil && g.sizes.Sizeof(t) > 0
}

func (g *gen) sharedLoc(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return g.sharedLoc(e.X)
	case *ast.Ident:
		v, ok := g.info.Uses[e].(*types.Var)
		return ok && !v.IsField() && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
	case *ast.SelectorExpr:
		sel := g.info.Selections[e]
		if sel == nil {
			v, ok := g.info.Uses[e.Sel].(*types.Var)
			return ok && !v.IsField() && v.Pkg() != nil && watched(v.Pkg().Path())
		}
		if sel.Kind() != types.FieldVal {
			return false
		}
		if g.isPtr(e.X) {
			return true
		}
		return g.sharedLoc(e.X)
	case *ast.IndexExpr:
		if tv, ok := g.info.Types[e.X]; !ok || !tv.IsValue() {
			return false
		}
		switch t := g.typeOf(e.X).Underlying().(type) {
		case *types.Slice:
			b, isB := t.Elem().Underlying().(*types.Basic)
			return !isB || b.Kind() != types.Byte // bytes: too many
		case *types.Array:
			return g.sharedLoc(e.X)
		case *types.Pointer:
			return true
		}
	case *ast.StarExpr:
		tv, ok := g.info.Types[e]
		return ok && tv.IsValue()
	}
	return false
}

// touch returns statements which record the write of l (evaluated after the write, so only for
// operands without side effects).
func (g *gen) touch(l ast.Expr) []ast.Stmt {
	if !g.watch || l == nil {
		return nil
	}
	return []ast.Stmt{&ast.ExprStmt{X: call("zzcore", "RW", &ast.UnaryExpr{Op: token.AND, X: l}, g.pos(l))}}
}

// touchable returns a copy of l that touch can evaluate, or nil.
func (g *gen) touchable(l ast.Expr) ast.Expr {
	if !g.watch || !g.shared(l) {
		return nil
	}
	ok := true
	var cp func(e ast.Expr) ast.Expr
	cp = func(e ast.Expr) ast.Expr {
		switch e := e.(type) {
		case *ast.ParenExpr:
			return &ast.ParenExpr{X: cp(e.X)}
		case *ast.Ident:
			return &ast.Ident{NamePos: e.NamePos, Name: e.Name}
		case *ast.SelectorExpr:
			return &ast.SelectorExpr{X: cp(e.X), Sel: ast.NewIdent(e.Sel.Name)}
		case *ast.StarExpr:
			return &ast.StarExpr{Star: e.Star, X: cp(e.X)}
		case *ast.IndexExpr:
			if _, lit := e.Index.(*ast.BasicLit); lit {
				return &ast.IndexExpr{X: cp(e.X), Index: e.Index}
			}
			if id, is := e.Index.(*ast.Ident); is {
				return &ast.IndexExpr{X: cp(e.X), Index: ast.NewIdent(id.Name)}
			}
		}
		ok = false
		return e
	}
	c := cp(l)
	if !ok {
		return nil
	}
	return c
}

// clone copies an expression of the kind splittable accepts, with its type information.
func (g *gen) clone(e ast.Expr) ast.Expr {
	var c ast.Expr
	switch e := e.(type) {
	case *ast.Ident:
		n := &ast.Ident{NamePos: e.NamePos, Name: e.Name}
		if o := g.info.Uses[e]; o != nil {
			g.info.Uses[n] = o
		}
		c = n
	case *ast.ParenExpr:
		c = &ast.ParenExpr{X: g.clone(e.X)}
	case *ast.StarExpr:
		c = &ast.StarExpr{Star: e.Star, X: g.clone(e.X)}
	case *ast.SelectorExpr:
		n := &ast.SelectorExpr{X: g.clone(e.X), Sel: g.clone(e.Sel).(*ast.Ident)}
		if sl := g.info.Selections[e]; sl != nil {
			g.info.Selections[n] = sl
		}
		c = n
	case *ast.IndexExpr:
		c = &ast.IndexExpr{X: g.clone(e.X), Index: g.clone(e.Index)}
	case *ast.BasicLit:
		n := *e
		c = &n
	default:
		g.fail(e, "clone of %T", e)
		return e
	}
	if tv, ok := g.info.Types[e]; ok {
		g.info.Types[c] = tv
	}
	return c
}

// loc rewrites an expression that denotes a place: the place itself is not read.
func (g *gen) loc(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.Ident, *ast.BasicLit, *ast.BadExpr:
		return e
	case *ast.Ellipsis:
		e.Elt = g.expr(e.Elt)
	case *ast.FuncLit:
		g.funcType(e.Type)
		e.Body.List = g.block(e.Body.List)
	case *ast.CompositeLit:
		e.Type = g.expr(e.Type)
		g.exprs(e.Elts)
	case *ast.ParenExpr:
		e.X = g.loc(e.X)
	case *ast.SelectorExpr:
		e.X = g.base(e)
	case *ast.IndexExpr:
		m := g.isMap(e.X)
		if t := g.typeOf(e.X); t != nil {
			if _, arr := t.Underlying().(*types.Array); arr {
				e.X = g.loc(e.X)
			} else {
				e.X = g.expr(e.X)
			}
		} else {
			e.X = g.expr(e.X)
		}
		e.Index = g.expr(e.Index)
		if m && !g.noY {
			f := "MapR"
			if g.mapW[e] {
				f = "MapW"
			}
			e.X = call("zzsim", f, e.X)
		}
	case *ast.IndexListExpr:
		e.X = g.expr(e.X)
		g.exprs(e.Indices)
	case *ast.SliceExpr:
		if _, arr := g.typeOf(e.X).Underlying().(*types.Array); arr {
			e.X = g.loc(e.X)
		} else {
			e.X = g.expr(e.X)
		}
		e.Low = g.expr(e.Low)
		e.High = g.expr(e.High)
		e.Max = g.expr(e.Max)
	case *ast.TypeAssertExpr:
		e.X = g.expr(e.X)
		e.Type = g.expr(e.Type)
	case *ast.StarExpr:
		e.X = g.expr(e.X)
	case *ast.KeyValueExpr:
		if id, ok := e.Key.(*ast.Ident); ok {
			if v, ok := g.info.Uses[id].(*types.Var); ok && v.IsField() {
				e.Value = g.expr(e.Value)
				return e
			}
		}
		e.Key = g.expr(e.Key)
		e.Value = g.expr(e.Value)
	case *ast.BinaryExpr:
		e.X = g.expr(e.X)
		e.Y = g.expr(e.Y)
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			_, two := g.info.Types[e].Type.(*types.Tuple)
			x := g.expr(e.X)
			if two {
				return method(x, "Recv2")
			}
			return method(x, "Recv")
		}
		if e.Op == token.AND {
			e.X = g.loc(e.X)
			break
		}
		e.X = g.expr(e.X)
	case *ast.ArrayType:
		e.Len = g.expr(e.Len)
		e.Elt = g.expr(e.Elt)
	case *ast.StructType:
		g.fields(e.Fields)
	case *ast.FuncType:
		g.funcType(e)
	case *ast.InterfaceType:
		g.fields(e.Methods)
	case *ast.MapType:
		e.Key = g.expr(e.Key)
		e.Value = g.expr(e.Value)
	case *ast.ChanType:
		return &ast.StarExpr{X: &ast.IndexExpr{X: sel("zzchans", "Chan"), Index: g.expr(e.Value)}}
	case *ast.CallExpr:
		return g.call(e)
	default:
		g.fail(e, "unsupported expression %T", e)
	}
	return e
}

// base rewrites the operand of a selector.
func (g *gen) base(e *ast.SelectorExpr) ast.Expr {
	sel := g.info.Selections[e]
	if sel == nil || g.isPtr(e.X) {
		if sel == nil {
			return e.X // a package
		}
		return g.expr(e.X)
	}
	switch sel.Kind() {
	case types.FieldVal:
		return g.loc(e.X)
	case types.MethodVal:
		if t := g.typeOf(e.X); t != nil {
			if _, ok := t.Underlying().(*types.Interface); ok {
				return g.expr(e.X)
			}
		}
		if len(sel.Index()) > 1 {
			return g.loc(e.X)
		}
		if f, ok := sel.Obj().(*types.Func); ok {
			if r := f.Type().(*types.Signature).Recv(); r != nil {
				if _, ptr := r.Type().Underlying().(*types.Pointer); ptr {
					return g.loc(e.X)
				}
			}
		}
	}
	return g.expr(e.X)
}

func (g *gen) isMap(e ast.Expr) bool {
	if tv, ok := g.info.Types[e]; !ok || !tv.IsValue() {
		return false
	}
	t := g.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// writes marks the map elements which a statement writes.
func (g *gen) writes(l ...ast.Expr) {
	for _, e := range l {
		for {
			p, ok := e.(*ast.ParenExpr)
			if !ok {
				break
			}
			e = p.X
		}
		if x, ok := e.(*ast.IndexExpr); ok {
			if g.mapW == nil {
				g.mapW = map[*ast.IndexExpr]bool{}
			}
			g.mapW[x] = true
		}
	}
}

func (g *gen) call(e *ast.CallExpr) ast.Expr {
	switch {
	case !g.noY && (g.isBuiltin(e.Fun, "delete") || g.isBuiltin(e.Fun, "clear")) && g.isMap(e.Args[0]):
		g.exprs(e.Args)
		e.Args[0] = call("zzsim", "MapW", e.Args[0])
		return e
	case g.isBuiltin(e.Fun, "make") && g.isChan(e.Args[0]):
		ct, ok := e.Args[0].(*ast.ChanType)
		if !ok {
			g.fail(e, "make of a named channel type")
			return e
		}
		n := intLit(0)
		if len(e.Args) > 1 {
			n = &ast.CallExpr{Fun: ast.NewIdent("int"), Args: []ast.Expr{g.expr(e.Args[1])}}
		}
		return &ast.CallExpr{Fun: &ast.IndexExpr{X: sel("zzchans", "Make"), Index: g.expr(ct.Value)}, Args: []ast.Expr{n}}
	case g.isBuiltin(e.Fun, "make") && len(e.Args) > 1:
		e.Args[0] = g.expr(e.Args[0])
		for i := 1; i < len(e.Args); i++ {
			tv := g.info.Types[e.Args[i]]
			e.Args[i] = g.expr(e.Args[i])
			if tv.Value == nil {
				e.Args[i] = call("zzsim", "Alloc", e.Args[i])
			}
		}
		return e
	case g.watch && g.isBuiltin(e.Fun, "copy") && g.isBytes(e.Args[0]) && g.isBytes(e.Args[1]):
		pos := g.pos(e)
		g.exprs(e.Args)
		return call("zzsim", "Copy", e.Args[0], e.Args[1], pos)
	case g.isBuiltin(e.Fun, "close"):
		return method(g.expr(e.Args[0]), "Close")
	case g.isBuiltin(e.Fun, "len") && g.isChan(e.Args[0]):
		return method(g.expr(e.Args[0]), "Len")
	case g.isBuiltin(e.Fun, "cap") && g.isChan(e.Args[0]):
		return method(g.expr(e.Args[0]), "Cap")
	case g.watch && !g.noY && g.isBuiltin(e.Fun, "len") && g.isMap(e.Args[0]):
		pos := g.pos(e)
		return call("zzsim", "MapLen", g.expr(e.Args[0]), pos)
	case g.isBuiltin(e.Fun, "recover"):
		return call("zzcore", "Recovered", e)
	}
	e.Fun = g.expr(e.Fun)
	g.exprs(e.Args)
	return e
}

func (g *gen) isBytes(e ast.Expr) bool {
	t := g.typeOf(e)
	if t == nil {
		return false
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// ---- statements ----

func (g *gen) y() ast.Stmt { return &ast.ExprStmt{X: call("zzcore", "Y")} }

func (g *gen) block(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if cover && strings.HasPrefix(g.path, "github.com/Allenxuxu/gev") && s.Pos() != token.NoPos {
			out = append(out, &ast.ExprStmt{X: call("zzcore", "Cov", intLit(len(coverPos)))})
			coverPos = append(coverPos, g.fset.Position(s.Pos()).String())
		}
		if !g.noY && wantsY(s) {
			out = append(out, g.y())
		}
		out = append(out, g.stmt(s)...)
	}
	return out
}

func wantsY(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			return false
		}
		for _, sp := range gd.Specs {
			if len(sp.(*ast.ValueSpec).Values) > 0 {
				return true
			}
		}
		return false
	case *ast.EmptyStmt, *ast.BranchStmt, *ast.BlockStmt:
		return false
	}
	return true
}

// loopBody makes sure that a loop can be preempted.
func (g *gen) loopBody(b *ast.BlockStmt) {
	b.List = g.block(b.List)
	if len(b.List) == 0 {
		b.List = []ast.Stmt{g.y()}
	}
}

func one(l []ast.Stmt) ast.Stmt {
	if len(l) == 1 {
		return l[0]
	}
	return &ast.BlockStmt{List: l}
}

// simple rewrites a statement in a position where only one simple statement is allowed.
func (g *gen) simple(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.ExprStmt:
		s.X = g.expr(s.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: method(g.expr(s.Chan), "Send", g.expr(s.Value))}
	case *ast.IncDecStmt:
		g.writes(s.X)
		s.X = g.loc(s.X)
	case *ast.AssignStmt:
		g.writes(s.Lhs...)
		for i := range s.Lhs {
			s.Lhs[i] = g.loc(s.Lhs[i])
		}
		g.exprs(s.Rhs)
	case *ast.EmptyStmt:
	default:
		g.fail(s, "unsupported simple statement %T", s)
	}
	return s
}

func (g *gen) stmt(s ast.Stmt) []ast.Stmt {
	switch s := s.(type) {
	case *ast.ExprStmt, *ast.SendStmt, *ast.EmptyStmt:
		return []ast.Stmt{g.simple(s)}
	case *ast.IncDecStmt:
		if !g.noY && g.splittable(s.X) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			w, tc := g.clone(s.X), g.touchable(s.X)
			x := g.expr(s.X)
			t := g.fresh("t")
			return []ast.Stmt{&ast.BlockStmt{List: append([]ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BinaryExpr{X: x, Op: op, Y: intLit(1)}}},
				g.y(),
				&ast.AssignStmt{Lhs: []ast.Expr{g.loc(w)}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}},
			}, g.touch(tc)...)}}
		}
		tc := g.touchable(s.X)
		return append([]ast.Stmt{g.simple(s)}, g.touch(tc)...)
	case *ast.AssignStmt:
		return g.assign(s)
	case *ast.GoStmt:
		return g.goStmt(s)
	case *ast.DeferStmt:
		if x, ok := g.expr(s.Call).(*ast.CallExpr); ok {
			s.Call = x
		}
		return []ast.Stmt{s}
	case *ast.ReturnStmt:
		g.exprs(s.Results)
		return []ast.Stmt{s}
	case *ast.BranchStmt:
		return []ast.Stmt{s}
	case *ast.BlockStmt:
		s.List = g.block(s.List)
		return []ast.Stmt{s}
	case *ast.IfStmt:
		g.ifStmt(s)
		return []ast.Stmt{s}
	case *ast.SwitchStmt:
		s.Init = g.simple(s.Init)
		s.Tag = g.expr(s.Tag)
		g.clauses(s.Body)
		return []ast.Stmt{s}
	case *ast.TypeSwitchStmt:
		s.Init = g.simple(s.Init)
		s.Assign = g.simple(s.Assign)
		g.clauses(s.Body)
		return []ast.Stmt{s}
	case *ast.ForStmt:
		s.Init = g.simple(s.Init)
		s.Cond = g.expr(s.Cond)
		s.Post = g.simple(s.Post)
		g.loopBody(s.Body)
		return []ast.Stmt{s}
	case *ast.RangeStmt:
		return g.rangeStmt(s, nil)
	case *ast.SelectStmt:
		return g.selectStmt(s, nil)
	case *ast.LabeledStmt:
		switch in := s.Stmt.(type) {
		case *ast.RangeStmt:
			return g.rangeStmt(in, s.Label)
		case *ast.SelectStmt:
			return g.selectStmt(in, s.Label)
		}
		s.Stmt = one(g.stmt(s.Stmt))
		return []ast.Stmt{s}
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		gd.Doc = nil
		for _, sp := range gd.Specs {
			switch sp := sp.(type) {
			case *ast.ValueSpec:
				sp.Doc, sp.Comment = nil, nil
				sp.Type = g.expr(sp.Type)
				g.exprs(sp.Values)
			case *ast.TypeSpec:
				sp.Doc, sp.Comment = nil, nil
				sp.Type = g.expr(sp.Type)
			}
		}
		return []ast.Stmt{s}
	}
	g.fail(s, "unsupported statement %T", s)
	return []ast.Stmt{s}
}

func (g *gen) ifStmt(s *ast.IfStmt) {
	s.Init = g.simple(s.Init)
	s.Cond = g.expr(s.Cond)
	s.Body.List = g.block(s.Body.List)
	switch e := s.Else.(type) {
	case *ast.IfStmt:
		g.ifStmt(e)
	case *ast.BlockStmt:
		e.List = g.block(e.List)
	}
}

func (g *gen) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		g.exprs(cc.List)
		cc.Body = g.block(cc.Body)
	}
}

// splittable tells whether x denotes memory other goroutines may see and can be evaluated twice.
func (g *gen) splittable(x ast.Expr) bool {
	shared := false
	ok := true
	var walk func(e ast.Expr)
	walk = func(e ast.Expr) {
		switch e := e.(type) {
		case *ast.Ident:
			if v, is := g.info.Uses[e].(*types.Var); is && v.Parent() == v.Pkg().Scope() {
				shared = true
			}
		case *ast.SelectorExpr:
			if s := g.info.Selections[e]; s != nil {
				if _, p := g.typeOf(e.X).Underlying().(*types.Pointer); p || s.Indirect() {
					shared = true
				}
				walk(e.X)
			} else if v, is := g.info.Uses[e.Sel].(*types.Var); is && !v.IsField() {
				shared = true // variable of another package
			} else {
				ok = false
			}
		case *ast.StarExpr:
			shared = true
			walk(e.X)
		case *ast.ParenExpr:
			walk(e.X)
		case *ast.IndexExpr:
			t := g.typeOf(e.X)
			if t == nil {
				ok = false
				return
			}
			switch t.Underlying().(type) {
			case *types.Slice, *types.Array, *types.Pointer:
				if _, sl := t.Underlying().(*types.Slice); sl {
					// element writes of byte buffers are too frequent to be worth a switch
					if b, isB := t.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); isB && b.Kind() == types.Byte {
						ok = false
					}
				}
			default:
				ok = false
			}
			walk(e.X)
			switch i := e.Index.(type) {
			case *ast.Ident, *ast.BasicLit:
				_ = i
			default:
				ok = false
			}
		default:
			ok = false
		}
	}
	walk(x)
	return ok && shared
}

// settled tells whether rhs has the same type when evaluated on its own.
func (g *gen) settled(rhs ast.Expr, want types.Type) bool {
	tv, ok := g.info.Types[rhs]
	if !ok || tv.Value != nil || tv.IsNil() || want == nil || tv.Type == nil || !types.Identical(tv.Type, want) {
		return false
	}
	bad := false
	ast.Inspect(rhs, func(n ast.Node) bool {
		if b, ok := n.(*ast.BinaryExpr); ok {
			switch b.Op {
			case token.SHL, token.SHR:
				bad = true
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				if !types.Identical(tv.Type, types.Typ[types.Bool]) {
					bad = true
				}
			}
		}
		return true
	})
	return !bad
}

func (g *gen) assign(s *ast.AssignStmt) []ast.Stmt {
	var touched []ast.Expr
	if s.Tok != token.DEFINE {
		for _, l := range s.Lhs {
			if tc := g.touchable(l); tc != nil {
				touched = append(touched, tc)
			}
		}
	}
	marks := func(l []ast.Stmt) []ast.Stmt {
		for _, tc := range touched {
			l = append(l, g.touch(tc)...)
		}
		return l
	}
	plain := func() []ast.Stmt { return marks([]ast.Stmt{g.simple(s)}) }
	if g.noY || s.Tok == token.DEFINE {
		return plain()
	}
	if len(s.Lhs) != len(s.Rhs) {
		return plain()
	}
	if s.Tok != token.ASSIGN {
		// x op= e
		if !g.splittable(s.Lhs[0]) || s.Tok == token.SHL_ASSIGN || s.Tok == token.SHR_ASSIGN {
			return plain()
		}
		op := s.Tok - token.ADD_ASSIGN + token.ADD
		wr := g.clone(s.Lhs[0])
		x := g.expr(s.Lhs[0])
		e := g.expr(s.Rhs[0])
		t := g.fresh("t")
		return []ast.Stmt{&ast.BlockStmt{List: marks([]ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BinaryExpr{X: x, Op: op, Y: &ast.ParenExpr{X: e}}}},
			g.y(),
			&ast.AssignStmt{Lhs: []ast.Expr{g.loc(wr)}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}},
		})}}
	}
	any := false
	for i, l := range s.Lhs {
		if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
			if !g.standalone(s.Rhs[i]) {
				return plain()
			}
			continue
		}
		if !g.settled(s.Rhs[i], g.typeOf(l)) {
			return plain()
		}
		if g.splittable(l) {
			any = true
		} else if _, ok := l.(*ast.Ident); !ok {
			return plain()
		}
	}
	if !any {
		return plain()
	}
	if len(s.Lhs) == 1 {
		switch r := s.Rhs[0].(type) {
		case *ast.Ident, *ast.BasicLit, *ast.FuncLit, *ast.CompositeLit:
			_ = r
			return plain() // a plain store
		}
	}
	var list []ast.Stmt
	var ts []ast.Expr
	def := &ast.AssignStmt{Tok: token.DEFINE}
	for _, r := range s.Rhs {
		t := g.fresh("t")
		ts = append(ts, t)
		def.Lhs = append(def.Lhs, t)
		def.Rhs = append(def.Rhs, g.expr(r))
	}
	list = append(list, def)
	for i, l := range s.Lhs {
		list = append(list, g.y(), &ast.AssignStmt{Lhs: []ast.Expr{g.loc(l)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ts[i]}})
	}
	return []ast.Stmt{&ast.BlockStmt{List: marks(list)}}
}

func (g *gen) standalone(e ast.Expr) bool {
	tv := g.info.Types[e]
	return tv.Value == nil && !tv.IsNil()
}

func (g *gen) goStmt(s *ast.GoStmt) []ast.Stmt {
	c := s.Call
	name := &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(g.goName(c))}
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && len(fl.Type.Params.List) == 0 {
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			return []ast.Stmt{&ast.ExprStmt{X: call("zzcore", "Go2", name, g.expr(fl))}}
		}
	}
	if id, ok := c.Fun.(*ast.Ident); ok {
		if _, b := g.info.Uses[id].(*types.Builtin); b {
			body := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: g.expr(c)}}}
			return []ast.Stmt{&ast.ExprStmt{X: call("zzcore", "Go2", name, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body})}}
		}
	}
	var list []ast.Stmt
	f := g.fresh("f")
	var args []ast.Expr
	origArgs := append([]ast.Expr(nil), c.Args...)
	inner := &ast.CallExpr{Fun: f, Ellipsis: c.Ellipsis}
	list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{f}, Tok: token.DEFINE, Rhs: []ast.Expr{g.expr(c.Fun)}})
	for _, a := range origArgs {
		tv := g.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, g.expr(a))
			continue
		}
		if _, tup := tv.Type.(*types.Tuple); tup {
			g.fail(s, "go f(g()) with several results")
		}
		t := g.fresh("a")
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{g.expr(a)}})
		args = append(args, t)
	}
	inner.Args = args
	body := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}
	list = append(list, &ast.ExprStmt{X: call("zzcore", "Go2", name, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body})})
	return []ast.Stmt{&ast.BlockStmt{List: list}}
}

func (g *gen) goName(c *ast.CallExpr) string {
	short := g.path[strings.LastIndex(g.path, "/")+1:]
	switch f := c.Fun.(type) {
	case *ast.Ident:
		return short + "." + f.Name
	case *ast.SelectorExpr:
		return short + "." + f.Sel.Name
	}
	return short + ".func"
}

func (g *gen) label(l *ast.Ident, s ast.Stmt) ast.Stmt {
	if l == nil {
		return s
	}
	return &ast.LabeledStmt{Label: l, Stmt: s}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (g *gen) rangeStmt(s *ast.RangeStmt, lb *ast.Ident) []ast.Stmt {
	t := g.typeOf(s.X)
	if chanOf(t) != nil {
		c, ok := g.fresh("c"), g.fresh("ok")
		def := &ast.AssignStmt{Lhs: []ast.Expr{c}, Tok: token.DEFINE, Rhs: []ast.Expr{g.expr(s.X)}}
		recv := func() ast.Expr { return method(ast.NewIdent(c.Name), "Recv2") }
		if isBlank(s.Key) || s.Tok == token.DEFINE {
			var k ast.Expr = ast.NewIdent("_")
			if !isBlank(s.Key) {
				k = s.Key
			}
			g.loopBody(s.Body)
			f := &ast.ForStmt{
				Init: &ast.AssignStmt{Lhs: []ast.Expr{k, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv()}},
				Cond: ok,
				Post: &ast.AssignStmt{Lhs: []ast.Expr{k, ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{recv()}},
				Body: s.Body,
			}
			return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{def, g.label(lb, f)}}}
		}
		v := g.fresh("v")
		g.loopBody(s.Body)
		head := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv()}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{g.loc(s.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
		}
		s.Body.List = append(head, s.Body.List...)
		return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{def, g.label(lb, &ast.ForStmt{Body: s.Body})}}}
	}
	if _, ok := t.Underlying().(*types.Map); ok {
		m, k := g.fresh("m"), g.fresh("k")
		def := &ast.AssignStmt{Lhs: []ast.Expr{m}, Tok: token.DEFINE, Rhs: []ast.Expr{g.expr(s.X)}}
		var outer []ast.Stmt
		outer = append(outer, def)
		var head []ast.Stmt
		okv := g.fresh("ok")
		val := g.fresh("v")
		vlhs := ast.Expr(ast.NewIdent("_"))
		if !isBlank(s.Value) {
			vlhs = val
		}
		head = append(head,
			&ast.AssignStmt{Lhs: []ast.Expr{vlhs, okv}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: call("zzsim", "MapR", m), Index: k}}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: okv}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
		)
		// one variable per loop, as before Go 1.22
		if !isBlank(s.Key) {
			if s.Tok == token.DEFINE {
				outer = append(outer, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: token.DEFINE, Rhs: []ast.Expr{call("zzsim", "KeyOf", m)}})
				outer = append(outer, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{s.Key}})
			}
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{g.loc(s.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{k}})
		}
		if !isBlank(s.Value) {
			if s.Tok == token.DEFINE {
				outer = append(outer, &ast.AssignStmt{Lhs: []ast.Expr{s.Value}, Tok: token.DEFINE, Rhs: []ast.Expr{call("zzsim", "ElemOf", m)}})
				outer = append(outer, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{s.Value}})
			}
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{g.loc(s.Value)}, Tok: token.ASSIGN, Rhs: []ast.Expr{val}})
		}
		g.loopBody(s.Body)
		s.Body.List = append(head, s.Body.List...)
		loop := &ast.RangeStmt{Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE, X: call("zzsim", "MapKeys", m), Body: s.Body}
		outer = append(outer, g.label(lb, loop))
		return []ast.Stmt{&ast.BlockStmt{List: outer}}
	}
	s.Key = g.loc(s.Key)
	s.Value = g.loc(s.Value)
	if _, arr := t.Underlying().(*types.Array); arr {
		s.X = g.loc(s.X)
	} else {
		s.X = g.expr(s.X)
	}
	g.loopBody(s.Body)
	return []ast.Stmt{g.label(lb, s)}
}

func (g *gen) selectStmt(s *ast.SelectStmt, lb *ast.Ident) []ast.Stmt {
	var pre []ast.Stmt
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDefault := "false"
	var cases []ast.Expr
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: g.block(cc.Body)})
			continue
		}
		id := g.fresh("s")
		idx := intLit(len(cases))
		cases = append(cases, id)
		cl := &ast.CaseClause{List: []ast.Expr{idx}}
		recv := func(e ast.Expr) ast.Expr {
			for {
				p, ok := e.(*ast.ParenExpr)
				if !ok {
					break
				}
				e = p.X
			}
			return g.expr(e.(*ast.UnaryExpr).X)
		}
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{call("zzchans", "SendCase", g.expr(cm.Chan), g.expr(cm.Value))}})
		case *ast.ExprStmt:
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{call("zzchans", "RecvCase", recv(cm.X))}})
		case *ast.AssignStmt:
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{call("zzchans", "RecvCase", recv(cm.Rhs[0]))}})
			a := &ast.AssignStmt{Tok: cm.Tok, Rhs: []ast.Expr{&ast.SelectorExpr{X: id, Sel: ast.NewIdent("V")}}}
			a.Lhs = append(a.Lhs, g.loc(cm.Lhs[0]))
			if len(cm.Lhs) == 2 {
				a.Lhs = append(a.Lhs, g.loc(cm.Lhs[1]))
				a.Rhs = append(a.Rhs, &ast.SelectorExpr{X: id, Sel: ast.NewIdent("OK")})
			}
			cl.Body = append(cl.Body, a)
		}
		cl.Body = append(cl.Body, g.block(cc.Body)...)
		sw.Body.List = append(sw.Body.List, cl)
	}
	sw.Tag = call("zzchans", "Select", append([]ast.Expr{ast.NewIdent(hasDefault)}, cases...)...)
	if hasDefault == "false" {
		// keep the terminating-statement property of a select without break
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"select"`}}}}}})
	}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, g.label(lb, sw))}}
}

// ---- shims ----

func (g *gen) shims() error {
	for path, objs := range g.used {
		dir := filepath.Join(g.out, strings.TrimPrefix(overrides[path], "gevsim/"))
		declared, pkgName, err := exported(dir)
		if err != nil {
			return err
		}
		base := path[strings.LastIndex(path, "/")+1:]
		var names []string
		for n := range objs {
			if !declared[n] {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		if len(names) == 0 {
			continue
		}
		var b strings.Builder
		needStd := false
		for _, n := range names {
			o := objs[n]
			switch o := o.(type) {
			case *types.Const:
				v := constLit(o.Val())
				if nt, ok := o.Type().(*types.Named); ok {
					if nt.Obj().Pkg().Path() == path && path != "golang.org/x/sys/unix" {
						needStd = true
						fmt.Fprintf(&b, "const %s = std.%s\n", n, n)
					} else if nt.Obj().Name() == "Errno" || nt.Obj().Name() == "Signal" {
						fmt.Fprintf(&b, "const %s = %s(%s)\n", n, nt.Obj().Name(), v)
					} else {
						return fmt.Errorf("simulator does not provide %s.%s", path, n)
					}
				} else {
					fmt.Fprintf(&b, "const %s = %s\n", n, v)
				}
			case *types.TypeName:
				if path == "golang.org/x/sys/unix" {
					return fmt.Errorf("simulator does not provide type %s.%s", path, n)
				}
				needStd = true
				fmt.Fprintf(&b, "type %s = std.%s\n", n, n)
			case *types.Var:
				if path == "golang.org/x/sys/unix" {
					return fmt.Errorf("simulator does not provide %s.%s", path, n)
				}
				needStd = true
				fmt.Fprintf(&b, "var %s = std.%s\n", n, n)
			case *types.Func:
				if !pureFuncs[base+"."+n] {
					return fmt.Errorf("simulator does not provide %s.%s", path, n)
				}
				needStd = true
				fmt.Fprintf(&b, "var %s = std.%s\n", n, n)
			}
		}
		src := "package " + pkgName + "\n\n"
		if needStd {
			src += "import std " + strconv.Quote(path) + "\n\n"
		}
		src += b.String()
		if err := os.WriteFile(filepath.Join(dir, "zz_shim.go"), []byte(src), 0o644); err != nil {
			return err
		}
	}
	return nil
}

func constLit(v constant.Value) string {
	return v.ExactString()
}

func exported(dir string) (map[string]bool, string, error) {
	fset := token.NewFileSet()
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil, "", err
	}
	m := map[string]bool{}
	name := ""
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".go") || e.Name() == "zz_shim.go" {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, "", err
		}
		name = f.Name.Name
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					m[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						m[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							m[n.Name] = true
						}
					}
				}
			}
		}
	}
	return m, name, nil
}
