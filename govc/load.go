package main

// Loading: parse and type-check every non-test package of the module in /repo.

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type Pkg struct {
	path  string
	name  string
	dir   string
	files []*ast.File
	tpkg  *types.Package
	info  *types.Info
}

type FuncInfo struct {
	key   string
	decl  *ast.FuncDecl
	pkg   *Pkg
	obj   *types.Func
	loops map[ast.Node]int // loop statement -> ordinal (1-based)
	addr  map[*types.Var]bool
}

type Loader struct {
	fset    *token.FileSet
	root    string
	module  string
	pkgs    map[string]*Pkg
	order   []*Pkg
	std     types.Importer
	funcs   map[string]*FuncInfo
	byObj   map[*types.Func]*FuncInfo
	byName  map[string]*Pkg
	globals map[*types.Var]*GlobalInit
}

type GlobalInit struct {
	pkg      *Pkg
	expr     ast.Expr
	assigned bool
}

func (l *Loader) Import(path string) (*types.Package, error) {
	if path == l.module || strings.HasPrefix(path, l.module+"/") {
		p, err := l.load(path)
		if err != nil {
			return nil, err
		}
		return p.tpkg, nil
	}
	return l.std.Import(path)
}

func (l *Loader) load(path string) (*Pkg, error) {
	if p, ok := l.pkgs[path]; ok {
		return p, nil
	}
	dir := filepath.Join(l.root, strings.TrimPrefix(strings.TrimPrefix(path, l.module), "/"))
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	p := &Pkg{path: path, dir: dir}
	var names []string
	for _, e := range ents {
		n := e.Name()
		if strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		f, err := parser.ParseFile(l.fset, filepath.Join(dir, n), nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		if skipByBuildTag(f) {
			continue
		}
		p.files = append(p.files, f)
	}
	if len(p.files) == 0 {
		return nil, fmt.Errorf("no files in %s", dir)
	}
	p.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Implicits: map[ast.Node]types.Object{},
		Instances: map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: l}
	p.tpkg, err = conf.Check(path, l.fset, p.files, p.info)
	if err != nil {
		return nil, err
	}
	p.name = p.tpkg.Name()
	l.pkgs[path] = p
	l.order = append(l.order, p)
	l.byName[p.name] = p
	return p, nil
}

func skipByBuildTag(f *ast.File) bool {
	for _, cg := range f.Comments {
		if cg.Pos() > f.Package {
			break
		}
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:build ") && !strings.Contains(c.Text, "!verif") {
				t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//go:build "))
				if t == "ignore" || strings.Contains(t, "verif") {
					return true
				}
			}
		}
	}
	return false
}

func loadRepo(root string) (*Loader, error) {
	l := &Loader{fset: token.NewFileSet(), root: root, pkgs: map[string]*Pkg{}, funcs: map[string]*FuncInfo{}, byObj: map[*types.Func]*FuncInfo{},
		byName: map[string]*Pkg{}, globals: map[*types.Var]*GlobalInit{}}
	mod, err := os.ReadFile(filepath.Join(root, "go.mod"))
	if err != nil {
		return nil, err
	}
	for _, ln := range strings.Split(string(mod), "\n") {
		if strings.HasPrefix(ln, "module ") {
			l.module = strings.TrimSpace(strings.TrimPrefix(ln, "module "))
		}
	}
	l.std = importer.ForCompiler(l.fset, "source", nil)
	var dirs []string
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && strings.HasPrefix(fi.Name(), ".") && p != root {
			return filepath.SkipDir
		}
		if !fi.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			d := filepath.Dir(p)
			if len(dirs) == 0 || dirs[len(dirs)-1] != d {
				dirs = append(dirs, d)
			}
		}
		return nil
	})
	sort.Strings(dirs)
	last := ""
	for _, d := range dirs {
		if d == last {
			continue
		}
		last = d
		rel, _ := filepath.Rel(root, d)
		path := l.module
		if rel != "." {
			path += "/" + filepath.ToSlash(rel)
		}
		if _, err := l.load(path); err != nil {
			return nil, err
		}
	}
	for _, p := range l.order {
		for _, f := range p.files {
			for _, d := range f.Decls {
				switch x := d.(type) {
				case *ast.FuncDecl:
					obj, _ := p.info.Defs[x.Name].(*types.Func)
					if obj == nil {
						continue
					}
					fi := &FuncInfo{decl: x, pkg: p, obj: obj, key: funcKey(obj)}
					fi.loops = map[ast.Node]int{}
					n := 0
					if x.Body != nil {
						ast.Inspect(x.Body, func(nd ast.Node) bool {
							switch nd.(type) {
							case *ast.ForStmt, *ast.RangeStmt:
								n++
								fi.loops[nd] = n
							}
							return true
						})
						fi.addr = addrTaken(p, x.Body)
					}
					l.funcs[fi.key] = fi
					l.byObj[obj] = fi
				case *ast.GenDecl:
					if x.Tok == token.VAR {
						for _, s := range x.Specs {
							vs := s.(*ast.ValueSpec)
							for i, nm := range vs.Names {
								v, _ := p.info.Defs[nm].(*types.Var)
								if v == nil {
									continue
								}
								gi := &GlobalInit{pkg: p}
								if i < len(vs.Values) && len(vs.Values) == len(vs.Names) {
									gi.expr = vs.Values[i]
								}
								l.globals[v] = gi
							}
						}
					}
				}
			}
		}
	}
	// globals assigned (or address-taken) anywhere are not constants
	for _, p := range l.order {
		mark := func(e ast.Expr) {
			if v := rootVar(p, e); v != nil {
				if g := l.globals[v]; g != nil {
					g.assigned = true
				}
			}
		}
		for _, f := range p.files {
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.AssignStmt:
					for _, e := range x.Lhs {
						mark(e)
					}
				case *ast.IncDecStmt:
					mark(x.X)
				case *ast.UnaryExpr:
					if x.Op == token.AND {
						mark(x.X)
					}
				case *ast.RangeStmt:
					if x.Tok == token.ASSIGN {
						if x.Key != nil {
							mark(x.Key)
						}
						if x.Value != nil {
							mark(x.Value)
						}
					}
				}
				return true
			})
		}
	}
	l.renames()
	return l, nil
}

func rootVar(p *Pkg, e ast.Expr) *types.Var {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok {
				if _, ok := p.info.Uses[id].(*types.PkgName); ok {
					v, _ := p.info.Uses[x.Sel].(*types.Var)
					return v
				}
			}
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.Ident:
			v, _ := p.info.Uses[x].(*types.Var)
			if v == nil {
				v, _ = p.info.Defs[x].(*types.Var)
			}
			return v
		default:
			return nil
		}
	}
}

func funcKey(obj *types.Func) string {
	if k, ok := renamed[obj.Origin()]; ok {
		return k
	}
	sig := obj.Type().(*types.Signature)
	pkg := ""
	if obj.Pkg() != nil {
		pkg = obj.Pkg().Name()
	}
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		switch n := t.(type) {
		case *types.Named:
			return pkg + "." + n.Obj().Name() + "." + obj.Name()
		}
		return pkg + ".?." + obj.Name()
	}
	return pkg + "." + obj.Name()
}

// addrTaken finds locals whose address is taken (explicitly, by a pointer-receiver call, or by slicing an array).
func addrTaken(p *Pkg, body ast.Node) map[*types.Var]bool {
	out := map[*types.Var]bool{}
	root := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				if s := p.info.Selections[x]; s != nil && s.Kind() == types.FieldVal {
					if isPtr(p.info.TypeOf(x.X)) || s.Indirect() {
						return
					}
					e = x.X
					continue
				}
				return
			case *ast.IndexExpr:
				if _, ok := under(p.info.TypeOf(x.X)).(*types.Array); ok {
					e = x.X
					continue
				}
				return
			case *ast.Ident:
				if v, ok := p.info.Uses[x].(*types.Var); ok && !v.IsField() {
					out[v] = true
				}
				return
			default:
				return
			}
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				root(x.X)
			}
		case *ast.SelectorExpr:
			if s := p.info.Selections[x]; s != nil && s.Kind() == types.MethodVal {
				sig := s.Obj().Type().(*types.Signature)
				if sig.Recv() != nil && isPtr(sig.Recv().Type()) && !isPtr(p.info.TypeOf(x.X)) {
					if _, isI := under(p.info.TypeOf(x.X)).(*types.Interface); !isI {
						root(x.X)
					}
				}
			}
		case *ast.SliceExpr:
			if _, ok := under(p.info.TypeOf(x.X)).(*types.Array); ok {
				root(x.X)
			}
		}
		return true
	})
	return out
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}
