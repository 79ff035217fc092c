// Package instr rewrites the Go sources of the library under test so that every goroutine,
// channel operation, lock, timer, map access, file operation and (optionally) every access to a
// mutable shared field goes through the controlled scheduler in gzmc/vs. The sources on disk are
// not touched: the rewritten files are handed to the compiler through -overlay.
package instr

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"gzdriver/astutil"
)

// Level selects how much is rewritten.
type Level int

const (
	// Fine: synchronisation, maps, and accesses to mutable fields.
	Fine Level = iota
	// Coarse: synchronisation and maps only.
	Coarse
	// Bare: synchronisation only (no map tracking).
	Bare
)

type pkg struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct{ Path string }
}

const modPath = "github.com/stampzilla/gozwave"

var importMap = map[string]string{
	"sync":                    "gzmc/vsync",
	"sync/atomic":             "gzmc/vatomic",
	"time":                    "gzmc/vtime",
	"context":                 "gzmc/vcontext",
	"os":                      "gzmc/vos",
	"io/ioutil":               "gzmc/vioutil",
	"encoding/json":           "gzmc/vjson",
	"github.com/tarm/serial":  "gzmc/vserial",
	"github.com/pborman/uuid": "gzmc/vuuid",
	"github.com/google/uuid":  "gzmc/vuuid",
}

// Mains names the programs (import paths below the module) that are rewritten too, as packages that can
// be imported; their main function is exported as Main.
var Mains = map[string]string{}

// Packages lists the packages of the library (and export data of everything they need).
func Packages(repo string, env []string) ([]pkg, map[string]string, error) {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Name,Dir,GoFiles,Export,Standard,Module", "./...")
	cmd.Dir = repo
	cmd.Env = env
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return nil, nil, fmt.Errorf("go list: %v\n%s", err, errb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	var mine []pkg
	exports := map[string]string{}
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, nil, err
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.Module != nil && p.Module.Path == modPath && (p.Name != "main" || Mains[p.ImportPath] != "") {
			// The device database is one huge table, which is only looked into if it keeps state
			if strings.HasSuffix(p.ImportPath, "/database") && !stateful(p) {
				continue
			}
			mine = append(mine, p)
		}
	}
	return mine, exports, nil
}

// stateful tells if a package writes to maps or variables of its own, or uses goroutines, channels, locks or time.
func stateful(p pkg) bool {
	found := false
	fset := token.NewFileSet()
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, 0)
		if err != nil {
			return true
		}
		for _, i := range af.Imports {
			path, _ := strconv.Unquote(i.Path.Value)
			if _, ok := importMap[path]; ok {
				return true
			}
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					if _, ok := unparen(l).(*ast.IndexExpr); ok {
						found = true
					}
				}
			case *ast.GoStmt, *ast.SendStmt, *ast.ChanType:
				found = true
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear") {
					found = true
				}
			}
			return !found
		})
		if found {
			return true
		}
	}
	return false
}

type loaded struct {
	p     pkg
	fset  *token.FileSet
	files []*ast.File
	names []string
	info  *types.Info
	tpkg  *types.Package
}

// Run instruments everything into outDir and returns the overlay map.
func Run(repo, outDir string, level Level, env []string) (map[string]string, error) {
	pkgs, exports, err := Packages(repo, env)
	if err != nil {
		return nil, err
	}
	overlay := map[string]string{}
	mutable := map[string]bool{}
	var ls []*loaded
	for _, p := range pkgs {
		l := &loaded{p: p, fset: token.NewFileSet()}
		for _, f := range p.GoFiles {
			path := filepath.Join(p.Dir, f)
			af, err := parser.ParseFile(l.fset, path, nil, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			l.files = append(l.files, af)
			l.names = append(l.names, path)
		}
		l.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}}
		imp := importer.ForCompiler(l.fset, "gc", func(path string) (io.ReadCloser, error) {
			e, ok := exports[path]
			if !ok {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		})
		conf := types.Config{Importer: imp, GoVersion: "go1.21", Error: func(error) {}}
		l.tpkg, err = conf.Check(p.ImportPath, l.fset, l.files, l.info)
		if err != nil {
			return nil, fmt.Errorf("type check %s: %v", p.ImportPath, err)
		}
		for _, f := range l.files {
			collectMutable(l, f, mutable)
		}
		ls = append(ls, l)
	}
	for _, l := range ls {
		if name := Mains[l.p.ImportPath]; name != "" {
			out := filepath.Join(outDir, "main_"+name+".go")
			src := "package " + name + "\n\n// Main is the program.\nfunc Main() { main() }\n"
			if err := os.WriteFile(out, []byte(src), 0644); err != nil {
				return nil, err
			}
			overlay[filepath.Join(l.p.Dir, "zz_gzmc_main.go")] = out
			for _, f := range l.files {
				f.Name = ast.NewIdent(name)
			}
		}
		for i, f := range l.files {
			r := &rw{l: l, file: f, level: level, mutable: mutable, sends: map[ast.Stmt]*ast.SendStmt{}, recvs: map[ast.Expr]ast.Expr{}, labels: map[ast.Stmt]*ast.Ident{}}
			fine := level == Fine
			switch l.p.ImportPath {
			case modPath, modPath + "/nodes", modPath + "/serialrecorder":
			default:
				fine = fine && Mains[l.p.ImportPath] != ""
			}
			r.fine = fine
			if strings.HasSuffix(l.p.ImportPath, "/database") {
				r.consts = constMaps(l)
			}
			r.run()
			var buf bytes.Buffer
			f.Comments = nil
			if err := (&printer.Config{Mode: printer.SourcePos | printer.UseSpaces, Tabwidth: 4}).Fprint(&buf, l.fset, f); err != nil {
				return nil, err
			}
			out := filepath.Join(outDir, strings.ReplaceAll(strings.TrimPrefix(l.names[i], "/"), "/", "_"))
			if err := os.WriteFile(out, buf.Bytes(), 0644); err != nil {
				return nil, err
			}
			overlay[l.names[i]] = out
		}
	}
	return overlay, nil
}

func fieldKey(v *types.Var) string {
	p := ""
	if v.Pkg() != nil {
		p = v.Pkg().Path()
	}
	return p + "." + v.Name()
}

// collectMutable records the fields and package variables assigned outside declarations.
func collectMutable(l *loaded, f *ast.File, m map[string]bool) {
	mark := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				if s := l.info.Selections[x]; s != nil && s.Kind() == types.FieldVal {
					m[fieldKey(s.Obj().(*types.Var))] = true
					// what a package variable leads to changes too
					root := x.X
					for root != nil {
						switch y := root.(type) {
						case *ast.ParenExpr:
							root = y.X
						case *ast.SelectorExpr:
							root = y.X
						case *ast.IndexExpr:
							root = y.X
						case *ast.StarExpr:
							root = y.X
						case *ast.Ident:
							if v, ok := l.info.Uses[y].(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
								m["reset:"+fieldKey(v)] = true
							}
							root = nil
						default:
							root = nil
						}
					}
				} else if v, ok := l.info.Uses[x.Sel].(*types.Var); ok {
					m["var:"+fieldKey(v)] = true
				}
				return
			case *ast.Ident:
				if v, ok := l.info.Uses[x].(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
					m["var:"+fieldKey(v)] = true
				}
				return
			case *ast.IndexExpr:
				e = x.X
				continue
			case *ast.StarExpr:
				e = x.X
				continue
			}
			return
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, e := range n.Lhs {
				mark(e)
			}
		case *ast.IncDecStmt:
			mark(n.X)
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				mark(n.X)
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear" || id.Name == "copy") && len(n.Args) > 0 {
				mark(n.Args[0])
			}
			if se, ok := n.Fun.(*ast.SelectorExpr); ok {
				if s := l.info.Selections[se]; s != nil && s.Kind() == types.MethodVal {
					mark2 := func(id *ast.Ident) {
						if v, ok := l.info.Uses[id].(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
							m["var:"+fieldKey(v)] = true
						}
					}
					if id, ok := se.X.(*ast.Ident); ok {
						mark2(id)
					}
				}
			}
		}
		return true
	})
}

// constMaps finds the package's own map variables that are only ever looked up, iterated over or counted.
func constMaps(l *loaded) map[types.Object]bool {
	uses, safe := map[types.Object]int{}, map[types.Object]int{}
	obj := func(e ast.Expr) types.Object {
		id, ok := unparen(e).(*ast.Ident)
		if !ok {
			return nil
		}
		v, ok := l.info.Uses[id].(*types.Var)
		if !ok || v.Exported() || v.Pkg() != l.tpkg || v.Parent() != l.tpkg.Scope() || !isMap(v.Type()) {
			return nil
		}
		return v
	}
	for _, f := range l.files {
		written := map[ast.Expr]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.Ident:
				if o := obj(n); o != nil {
					uses[o]++
				}
			case *ast.AssignStmt:
				for _, e := range n.Lhs {
					written[unparen(e)] = true
				}
			case *ast.IncDecStmt:
				written[unparen(n.X)] = true
			case *ast.UnaryExpr:
				written[unparen(n.X)] = true
			case *ast.IndexExpr:
				if o := obj(n.X); o != nil && !written[n] {
					safe[o]++
				}
			case *ast.RangeStmt:
				if o := obj(n.X); o != nil {
					safe[o]++
				}
				for _, e := range []ast.Expr{n.Key, n.Value} {
					if e != nil {
						written[unparen(e)] = true
					}
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "len" && len(n.Args) == 1 {
					if o := obj(n.Args[0]); o != nil {
						safe[o]++
					}
				}
			}
			return true
		})
	}
	c := map[types.Object]bool{}
	for o, n := range uses {
		c[o] = n == safe[o]
	}
	return c
}

// tracked tells if e is a map whose accesses are to be tracked.
func (r *rw) tracked(e ast.Expr) bool {
	if !isMap(r.typeOf(e)) {
		return false
	}
	if id, ok := unparen(e).(*ast.Ident); ok && r.consts[r.l.info.Uses[id]] {
		return false
	}
	return true
}

type rw struct {
	consts  map[types.Object]bool // maps that are never written to
	l       *loaded
	file    *ast.File
	level   Level
	fine    bool
	mutable map[string]bool
	sends   map[ast.Stmt]*ast.SendStmt
	recvs   map[ast.Expr]ast.Expr // rewritten receive call -> channel expression
	labels  map[ast.Stmt]*ast.Ident
	n       int
	usesVS  bool

	rangeT  map[*ast.RangeStmt]types.Type
	writes  map[ast.Expr]bool // expressions in assignment position
	noaddr  map[ast.Expr]bool // operands that must stay as they are
	commT   map[ast.Expr]types.Type
	callT   map[*ast.CallExpr]*callInfo
	replace map[ast.Stmt][]ast.Stmt
}

type callInfo struct {
	builtin string
	arg0    types.Type
}

func (r *rw) id(p string) *ast.Ident { r.n++; return ast.NewIdent(fmt.Sprintf("vs_%s%d", p, r.n)) }

func (r *rw) vs(name string) ast.Expr {
	r.usesVS = true
	return &ast.SelectorExpr{X: ast.NewIdent("gzvs"), Sel: ast.NewIdent(name)}
}

func (r *rw) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.vs(name), Args: args}
}

func callOf(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.l.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.l.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.l.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func paramChan(t types.Type) bool { return isChan(t) }

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// addressable: &e is legal and denotes memory another goroutine may share.
func (r *rw) sharedAddr(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.sharedAddr(x.X)
	case *ast.Ident:
		v, ok := r.l.info.Uses[x].(*types.Var)
		return ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
	case *ast.SelectorExpr:
		s := r.l.info.Selections[x]
		if s == nil {
			v, ok := r.l.info.Uses[x.Sel].(*types.Var) // pkg.Var
			return ok && v != nil
		}
		if s.Kind() != types.FieldVal {
			return false
		}
		t := r.typeOf(x.X)
		if t == nil {
			return false
		}
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return true
		}
		if s.Indirect() {
			return true
		}
		return r.sharedAddr(x.X)
	case *ast.IndexExpr:
		t := r.typeOf(x.X)
		if t == nil {
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			return true
		case *types.Array:
			_ = u
			return r.sharedAddr(x.X)
		}
		return false
	case *ast.StarExpr:
		return true
	}
	return false
}

func pointable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Basic, *types.Pointer, *types.Chan, *types.Slice, *types.Map, *types.Interface, *types.Signature:
		return true
	}
	return false
}

// sharedField reports whether e reads or writes a mutable shared field or package variable.
func (r *rw) sharedField(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.SelectorExpr:
		if !r.fine {
			return false
		}
		s := r.l.info.Selections[x]
		if s == nil || s.Kind() != types.FieldVal {
			return false
		}
		v := s.Obj().(*types.Var)
		if !r.mutable[fieldKey(v)] || !pointable(v.Type()) {
			return false
		}
		return r.sharedAddr(x)
	case *ast.Ident:
		v, ok := r.l.info.Uses[x].(*types.Var)
		if !ok || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() || v.Pkg() != r.l.tpkg {
			return false
		}
		return r.level != Bare && r.mutable["var:"+fieldKey(v)] && pointable(v.Type()) // Variables of a package are shared by everyone
	}
	return false
}

func (r *rw) isConst(e ast.Expr) bool {
	tv, ok := r.l.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil() || tv.IsType() || tv.IsBuiltin())
}

func (r *rw) run() {
	r.rangeT = map[*ast.RangeStmt]types.Type{}
	r.writes = map[ast.Expr]bool{}
	r.noaddr = map[ast.Expr]bool{}
	r.callT = map[*ast.CallExpr]*callInfo{}
	isVarDecl := map[ast.Node]bool{}
	for _, d := range r.file.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
			isVarDecl[g] = true
		}
	}
	resets := r.resetFunc()
	pre := func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.GenDecl:
			if n.Tok == token.IMPORT {
				return false
			}
		case *ast.RangeStmt:
			r.rangeT[n] = r.typeOf(n.X)
			if n.Tok == token.ASSIGN {
				if n.Key != nil {
					r.writes[unparen(n.Key)] = true
				}
				if n.Value != nil {
					r.writes[unparen(n.Value)] = true
				}
			}
		case *ast.AssignStmt:
			if n.Tok != token.DEFINE {
				for _, e := range n.Lhs {
					r.writes[unparen(e)] = true
				}
			}
		case *ast.IncDecStmt:
			r.writes[unparen(n.X)] = true
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				r.noaddr[unparen(n.X)] = true
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok {
				if _, ok := r.l.info.Uses[id].(*types.Builtin); ok {
					ci := &callInfo{builtin: id.Name}
					if len(n.Args) > 0 {
						ci.arg0 = r.typeOf(n.Args[0])
					}
					r.callT[n] = ci
				}
			}
			// x.f.Method() with a pointer receiver takes the address of x.f
			if se, ok := n.Fun.(*ast.SelectorExpr); ok {
				if s := r.l.info.Selections[se]; s != nil && s.Kind() == types.MethodVal {
					if sig, ok := s.Obj().Type().(*types.Signature); ok && sig.Recv() != nil {
						_, ptrRecv := sig.Recv().Type().(*types.Pointer)
						t := r.typeOf(se.X)
						if ptrRecv && t != nil {
							if _, isPtr := t.Underlying().(*types.Pointer); !isPtr {
								if _, isI := t.Underlying().(*types.Interface); !isI {
									r.noaddr[unparen(se.X)] = true
								}
							}
						}
					}
				}
			}
		case *ast.SliceExpr:
			if t := r.typeOf(n.X); t != nil {
				if _, ok := t.Underlying().(*types.Array); ok {
					r.noaddr[unparen(n.X)] = true
				}
			}
		}
		return true
	}
	post := func(c *astutil.Cursor) bool { r.post(c); return true }
	astutil.Apply(r.file, pre, post)
	if resets != nil {
		r.file.Decls = append(r.file.Decls, resets)
	}
	r.imports()
}

// resetFunc re-initialises mutable package variables before every execution.
func (r *rw) resetFunc() ast.Decl {
	var body []ast.Stmt
	var roots []ast.Expr
	for _, d := range r.file.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			vsp := s.(*ast.ValueSpec)
			for i, nm := range vsp.Names {
				v, ok := r.l.info.Defs[nm].(*types.Var)
				if !ok || nm.Name == "_" || !r.mutable["var:"+fieldKey(v)] && !r.mutable["reset:"+fieldKey(v)] {
					continue
				}
				lhs := ast.NewIdent(nm.Name)
				roots = append(roots, &ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(nm.Name)})
				switch {
				case len(vsp.Values) == len(vsp.Names):
					// the initialiser is re-evaluated through a fresh copy of its source
					e, err := parser.ParseExpr(r.src(vsp.Values[i]))
					if err != nil {
						continue
					}
					if _, isFn := e.(*ast.FuncLit); isFn {
						continue
					}
					// initialisers that need rewriting themselves (channel makes do not) are kept simple
					body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{e}})
				case len(vsp.Values) == 0:
					if n, ok := v.Type().(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "sync") {
						continue // sync primitives reset themselves
					}
					if vsp.Type == nil {
						continue
					}
					e, err := parser.ParseExpr("*new(" + r.src(vsp.Type) + ")")
					if err != nil {
						continue
					}
					body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{e}})
				}
			}
		}
	}
	if len(body)+len(roots) == 0 {
		return nil
	}
	return &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{
		&ast.ExprStmt{X: r.call("Roots", roots...)},
		&ast.ExprStmt{X: r.call("OnReset", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})},
	}}}
}

func (r *rw) src(n ast.Node) string {
	var b bytes.Buffer
	printer.Fprint(&b, r.l.fset, n)
	return b.String()
}

func (r *rw) imports() {
	for _, im := range r.file.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		np, ok := importMap[path]
		if !ok {
			continue
		}
		if im.Name == nil {
			base := path[strings.LastIndex(path, "/")+1:]
			im.Name = ast.NewIdent(base)
		}
		im.Path.Value = strconv.Quote(np)
		im.EndPos = 0
	}
	if r.usesVS {
		spec := &ast.ImportSpec{Name: ast.NewIdent("gzvs"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"gzmc/vs"`}}
		g := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		r.file.Decls = append([]ast.Decl{g}, r.file.Decls...)
		r.file.Imports = append(r.file.Imports, spec)
	}
}

func (r *rw) post(c *astutil.Cursor) {
	switch n := c.Node().(type) {
	case *ast.GoStmt:
		c.Replace(r.goStmt(n))
	case *ast.SendStmt:
		s := &ast.ExprStmt{X: callOf(r.call("Sender", n.Chan), n.Value)}
		r.sends[s] = n
		c.Replace(s)
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			e := r.call("Recv", n.X)
			r.recvs[e] = n.X
			c.Replace(e)
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			r.twoValued(n.Values[0])
		}
	case *ast.AssignStmt:
		r.assign(c, n)
	case *ast.IncDecStmt:
		x := unparen(n.X)
		if r.sharedField(x) {
			op := token.ADD
			if n.Tok == token.DEC {
				op = token.SUB
			}
			addr := func() ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: x} }
			c.Replace(&ast.ExprStmt{X: callOf(r.call("Wr", addr()), &ast.BinaryExpr{X: r.call("Rd", addr()), Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}})})
		}
	case *ast.SelectStmt:
		if _, ok := c.Parent().(*ast.LabeledStmt); ok {
			return // handled at the label
		}
		c.Replace(r.selectStmt(n, nil))
	case *ast.RangeStmt:
		if _, ok := c.Parent().(*ast.LabeledStmt); ok {
			return
		}
		if s := r.rangeStmt(n, nil); s != nil {
			c.Replace(s)
		}
	case *ast.LabeledStmt:
		switch s := n.Stmt.(type) {
		case *ast.SelectStmt:
			c.Replace(r.selectStmt(s, n.Label))
		case *ast.RangeStmt:
			if x := r.rangeStmt(s, n.Label); x != nil {
				c.Replace(x)
			}
		}
	case *ast.CallExpr:
		r.callExpr(c, n)
	case *ast.IndexExpr:
		if r.level == Bare {
			return
		}
		if r.tracked(n.X) {
			fn := "MapR"
			if r.writes[n] {
				fn = "MapW"
			}
			if !isMap(r.origType(n)) {
				return
			}
			n.X = r.call(fn, n.X)
		}
	case *ast.SelectorExpr:
		if r.writes[n] || r.noaddr[n] {
			return
		}
		if r.sharedField(n) {
			c.Replace(r.keepType(n, r.call("Rd", &ast.UnaryExpr{Op: token.AND, X: n})))
		}
	case *ast.Ident:
		if r.writes[n] || r.noaddr[n] {
			return
		}
		if !r.sharedField(n) {
			return
		}
		switch p := c.Parent().(type) {
		case *ast.SelectorExpr:
			if p.Sel == n {
				return
			}
		case *ast.KeyValueExpr:
			if p.Key == n {
				return
			}
		}
		c.Replace(r.keepType(n, r.call("Rd", &ast.UnaryExpr{Op: token.AND, X: n})))
	}
}

// keepType lets later rewriting steps still see the type of a replaced expression.
func (r *rw) keepType(old, new ast.Expr) ast.Expr {
	if tv, ok := r.l.info.Types[old]; ok {
		r.l.info.Types[new] = types.TypeAndValue{Type: tv.Type}
	} else if t := r.typeOf(old); t != nil {
		r.l.info.Types[new] = types.TypeAndValue{Type: t}
	}
	return new
}

func (r *rw) origType(n *ast.IndexExpr) types.Type { return r.typeOf(n.X) }

func (r *rw) twoValued(e ast.Expr) {
	e = unparen(e)
	if _, ok := r.recvs[e]; ok {
		e.(*ast.CallExpr).Fun = r.vs("Recv2")
	}
}

func (r *rw) assign(c *astutil.Cursor, n *ast.AssignStmt) {
	if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
		r.twoValued(n.Rhs[0])
	}
	if n.Tok == token.DEFINE {
		return
	}
	// a comm clause keeps its assignment: the select rewriting takes it apart
	inComm := false
	if cc, ok := c.Parent().(*ast.CommClause); ok && cc.Comm == ast.Stmt(n) {
		inComm = true
	}
	if len(n.Lhs) == 1 && !inComm {
		x := unparen(n.Lhs[0])
		if r.sharedField(x) {
			addr := func() ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: x} }
			rhs := n.Rhs[0]
			if n.Tok != token.ASSIGN {
				ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}
				rhs = &ast.BinaryExpr{X: r.call("Rd", addr()), Op: ops[n.Tok], Y: &ast.ParenExpr{X: rhs}}
			}
			if _, ok := c.Parent().(*ast.BlockStmt); ok || r.stmtCtx(c) {
				c.Replace(&ast.ExprStmt{X: callOf(r.call("Wr", addr()), rhs)})
			}
			return
		}
		return
	}
	for i, e := range n.Lhs {
		x := unparen(e)
		if r.sharedField(x) {
			n.Lhs[i] = &ast.StarExpr{X: r.call("WrP", &ast.UnaryExpr{Op: token.AND, X: x})}
		}
	}
}

func (r *rw) stmtCtx(c *astutil.Cursor) bool {
	switch c.Parent().(type) {
	case *ast.CaseClause, *ast.CommClause, *ast.LabeledStmt, *ast.IfStmt, *ast.ForStmt, *ast.SwitchStmt:
		return true // a call is a simple statement too
	}
	return false
}

func (r *rw) callExpr(c *astutil.Cursor, n *ast.CallExpr) {
	ci := r.callT[n]
	if ci == nil {
		if se, ok := n.Fun.(*ast.SelectorExpr); ok {
			if id, ok := se.X.(*ast.Ident); ok && id.Name == "runtime" && se.Sel.Name == "Gosched" {
				_ = id
			}
		}
		return
	}
	switch ci.builtin {
	case "close":
		if isChan(ci.arg0) {
			n.Fun = r.vs("Close")
		}
	case "len":
		if isChan(ci.arg0) {
			n.Fun = r.vs("Len")
		} else if isMap(ci.arg0) && r.level != Bare && r.tracked(n.Args[0]) {
			n.Args[0] = r.call("MapR", n.Args[0])
		}
	case "delete", "clear":
		if isMap(ci.arg0) && r.level != Bare {
			n.Args[0] = r.call("MapW", n.Args[0])
		}
	}
}

func (r *rw) goStmt(n *ast.GoStmt) ast.Stmt {
	call := n.Call
	closure := func(body ast.Stmt) ast.Stmt {
		return &ast.ExprStmt{X: r.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{body}}})}
	}
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: r.call("Go", fl)}
	}
	if ci := r.callT[call]; ci != nil {
		return closure(&ast.ExprStmt{X: call})
	}
	if len(call.Args) == 1 {
		if t, ok := r.typeOf(call.Args[0]).(*types.Tuple); ok && t.Len() != 1 {
			return closure(&ast.ExprStmt{X: call})
		}
	}
	var pre []ast.Stmt
	fun := call.Fun
	switch fun.(type) {
	case *ast.FuncLit:
	case *ast.Ident:
		if _, isFn := r.l.info.Uses[fun.(*ast.Ident)].(*types.Func); !isFn {
			f := r.id("f")
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{f}, Tok: token.DEFINE, Rhs: []ast.Expr{fun}})
			fun = ast.NewIdent(f.Name)
		}
	default:
		f := r.id("f")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{f}, Tok: token.DEFINE, Rhs: []ast.Expr{fun}})
		fun = ast.NewIdent(f.Name)
	}
	nc := &ast.CallExpr{Fun: fun, Ellipsis: call.Ellipsis}
	for _, a := range call.Args {
		if r.isConst(a) {
			nc.Args = append(nc.Args, a)
			continue
		}
		if _, ok := a.(*ast.FuncLit); ok {
			nc.Args = append(nc.Args, a)
			continue
		}
		v := r.id("a")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		nc.Args = append(nc.Args, ast.NewIdent(v.Name))
	}
	g := closure(&ast.ExprStmt{X: nc})
	if len(pre) == 0 {
		return g
	}
	return &ast.BlockStmt{List: append(pre, g)}
}

func ident(s string) *ast.Ident { return ast.NewIdent(s) }

func (r *rw) labeled(l *ast.Ident, s ast.Stmt) ast.Stmt {
	if l == nil {
		return s
	}
	return &ast.LabeledStmt{Label: l, Stmt: s}
}

func (r *rw) selectStmt(n *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	if len(n.Body.List) == 0 {
		return &ast.BlockStmt{List: []ast.Stmt{
			&ast.ExprStmt{X: r.call("Block")},
			&ast.ExprStmt{X: callOf(ident("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})},
		}}
	}
	var pre []ast.Stmt
	args := []ast.Expr{nil}
	hasDefault := false
	var clauses []ast.Stmt
	k := 0
	total := 0
	for _, cl := range n.Body.List {
		if cl.(*ast.CommClause).Comm == nil {
			hasDefault = true
		} else {
			total++
		}
	}
	for _, cl := range n.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			clauses = append(clauses, &ast.CaseClause{Body: cc.Body})
			continue
		}
		cv := r.id("c")
		var body []ast.Stmt
		if sd, ok := r.sends[cc.Comm]; ok {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{cv}, Tok: token.DEFINE, Rhs: []ast.Expr{callOf(r.call("SendCase", sd.Chan), sd.Value)}})
		} else {
			var ch ast.Expr
			switch s := cc.Comm.(type) {
			case *ast.ExprStmt:
				ch = r.recvs[unparen(s.X)]
			case *ast.AssignStmt:
				ch = r.recvs[unparen(s.Rhs[0])]
				rhs := []ast.Expr{&ast.SelectorExpr{X: ident(cv.Name), Sel: ident("V")}}
				if len(s.Lhs) == 2 {
					rhs = append(rhs, &ast.SelectorExpr{X: ident(cv.Name), Sel: ident("OK")})
				}
				body = append(body, &ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok, Rhs: rhs})
			}
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{cv}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("RecvCase", ch)}})
		}
		args = append(args, ident(cv.Name))
		cl := &ast.CaseClause{Body: append(body, cc.Body...)}
		if hasDefault || k < total-1 {
			cl.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(k)}}
		}
		clauses = append(clauses, cl)
		k++
	}
	args[0] = ident(strconv.FormatBool(hasDefault))
	sw := &ast.SwitchStmt{Tag: r.call("Select", args...), Body: &ast.BlockStmt{List: clauses}}
	return &ast.BlockStmt{List: append(pre, r.labeled(label, sw))}
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rw) rangeStmt(n *ast.RangeStmt, label *ast.Ident) ast.Stmt {
	t := r.rangeT[n]
	switch {
	case isChan(t):
		ch := r.id("ch")
		ok := r.id("ok")
		pre := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{n.X}}}
		var key ast.Expr = ident("_")
		if !blank(n.Key) {
			key = n.Key
			if n.Tok == token.DEFINE {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{n.Key}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Zero", ident(ch.Name))}},
					&ast.AssignStmt{Lhs: []ast.Expr{ident("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{n.Key}})
			}
		}
		body := []ast.Stmt{
			&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ok}, Type: ident("bool")}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{key, ident(ok.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{r.call("Recv2", ident(ch.Name))}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ident(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		}
		f := &ast.ForStmt{Body: &ast.BlockStmt{List: append(body, n.Body.List...)}}
		return &ast.BlockStmt{List: append(pre, r.labeled(label, f))}
	case isMap(t) && r.level != Bare && r.tracked(n.X):
		m := r.id("m")
		k := r.id("k")
		v := r.id("v")
		ok := r.id("ok")
		pre := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{m}, Tok: token.DEFINE, Rhs: []ast.Expr{n.X}}}
		declared := n.Tok == token.DEFINE
		body := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("MapNext", ident(m.Name), ident(k.Name))}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ident(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{ident("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ident(v.Name)}},
		}
		if !blank(n.Key) {
			if declared {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{n.Key}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("MapZeroK", ident(m.Name))}},
					&ast.AssignStmt{Lhs: []ast.Expr{ident("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{n.Key}})
			}
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{n.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{ident(k.Name)}})
		}
		if !blank(n.Value) {
			if declared {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{n.Value}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("MapZeroV", ident(m.Name))}},
					&ast.AssignStmt{Lhs: []ast.Expr{ident("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{n.Value}})
			}
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{n.Value}, Tok: token.ASSIGN, Rhs: []ast.Expr{ident(v.Name)}})
		}
		f := &ast.RangeStmt{Key: ident("_"), Value: k, Tok: token.DEFINE, X: r.call("MapKeys", ident(m.Name)), Body: &ast.BlockStmt{List: append(body, n.Body.List...)}}
		return &ast.BlockStmt{List: append(pre, r.labeled(label, f))}
	}
	return nil
}
