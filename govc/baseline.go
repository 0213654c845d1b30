package main

import (
	"encoding/json"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// The baseline names what the contracts were written against: the functions of the repository and the local
// variables of each function under contract.  It only helps to keep proof hints (loop invariants, ghost steps)
// attached after a local variable was renamed or a loop moved into a new helper; a hint that ends up in
// the wrong place can fail to be proved but cannot make anything provable that is not.
type Local struct{ Name, Type string }

type Sig struct{ Func, Types string }

type Baseline struct {
	Funcs  map[string]bool
	Locals map[string][]Local
	Loops  map[string][]string // kind of each loop
	Sigs   []Sig               // the unexported functions in source order
	Fields map[string][]Local  // fields of the named structs
}

var baseline *Baseline

func localsOf(fi *FuncInfo) (ls []Local) {
	if fi.decl.Body == nil {
		return
	}
	ast.Inspect(fi.decl.Body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if v, ok := fi.pkg.info.Defs[id].(*types.Var); ok && !v.IsField() && id.Name != "_" {
				ls = append(ls, Local{id.Name, types.TypeString(v.Type(), nil)})
			}
		}
		return true
	})
	return
}

func baselineFile() string { return filepath.Join(*fSpecs, "baseline.json") }

func loadBaseline() {
	if baseline != nil {
		return
	}
	baseline = &Baseline{}
	if b, err := os.ReadFile(baselineFile()); err == nil {
		json.Unmarshal(b, baseline)
	}
}

func writeBaseline(l *Loader, db *SpecDB) error {
	b := Baseline{Funcs: map[string]bool{}, Locals: map[string][]Local{}, Loops: map[string][]string{}, Fields: map[string][]Local{}}
	for _, p := range l.order {
		for _, n := range p.tpkg.Scope().Names() {
			if o, ok := p.tpkg.Scope().Lookup(n).(*types.TypeName); ok && !o.IsAlias() {
				if st, ok := under(o.Type()).(*types.Struct); ok {
					b.Fields[p.tpkg.Path()+"."+n] = fieldsOf(st)
				}
			}
		}
	}
	for k, fi := range l.funcs {
		b.Funcs[k] = true
		if c := db.contracts[k]; c != nil {
			if ls := localsOf(fi); len(ls) > 0 {
				b.Locals[k] = ls
			}
			if len(fi.loops) > 0 {
				b.Loops[k] = make([]string, len(fi.loops))
				for n, i := range fi.loops {
					b.Loops[k][i-1] = loopKind(n)
				}
			}
		}
	}
	for _, k := range l.unexported() {
		b.Sigs = append(b.Sigs, Sig{k, sigTypes(l.funcs[k].obj)})
	}
	js, err := json.MarshalIndent(b, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(baselineFile(), append(js, '\n'), 0o644)
}

func fieldsOf(st *types.Struct) (fs []Local) {
	for i := 0; i < st.NumFields(); i++ {
		fs = append(fs, Local{st.Field(i).Name(), types.TypeString(st.Field(i).Type(), nil)})
	}
	return
}

func sigTypes(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	var b strings.Builder
	for _, t := range []*types.Tuple{sig.Params(), sig.Results()} {
		b.WriteByte('(')
		for i := 0; i < t.Len(); i++ {
			b.WriteString(types.TypeString(t.At(i).Type(), nil) + ",")
		}
		b.WriteByte(')')
	}
	if sig.Variadic() {
		b.WriteString("...")
	}
	return b.String()
}

// oldFields: the field names that struct had in the baseline.
func oldFields(t types.Type) (names []string) {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		loadBaseline()
		for _, f := range baseline.Fields[n.Obj().Pkg().Path()+"."+n.Obj().Name()] {
			names = append(names, f.Name)
		}
	}
	return
}

// renamedField: where the unexported field that the contracts call name is now, if it was only renamed: the struct has
// as many fields as before, and at that place one of the same type under a name that is new.
func renamedField(t types.Type, name string) (int, bool) {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || token.IsExported(name) {
		return 0, false
	}
	st, ok := under(n.Origin()).(*types.Struct)
	if !ok {
		return 0, false
	}
	loadBaseline()
	old := baseline.Fields[n.Obj().Pkg().Path()+"."+n.Obj().Name()]
	now := fieldsOf(st)
	if len(old) != len(now) {
		return 0, false
	}
	at := -1
	for i, f := range old {
		if f.Name == name {
			at = i
		}
	}
	if at < 0 || token.IsExported(now[at].Name) || now[at].Type != old[at].Type {
		return 0, false
	}
	for _, f := range old {
		if f.Name == now[at].Name {
			return 0, false
		}
	}
	return at, true
}

var renamed = map[*types.Func]string{}

// unexported: the unexported functions in source order.
func (l *Loader) unexported() (ks []string) {
	for k, fi := range l.funcs {
		if !fi.obj.Exported() {
			ks = append(ks, k)
		}
	}
	pos := func(k string) token.Position { return l.fset.Position(l.funcs[k].obj.Pos()) }
	sort.Slice(ks, func(i, j int) bool {
		a, b := pos(ks[i]), pos(ks[j])
		return a.Filename < b.Filename || a.Filename == b.Filename && a.Offset < b.Offset
	})
	return
}

// renames finds unexported functions that were only renamed: functions of the baseline are gone and as many of the same
// receiver, parameter and result types are new.  These then go by their old names in contracts and positions.
func (l *Loader) renames() {
	loadBaseline()
	class := func(key, sig string) string { return key[:strings.LastIndex(key, ".")] + " " + sig }
	gone, fresh := map[string][]string{}, map[string][]string{}
	for _, s := range baseline.Sigs {
		if l.funcs[s.Func] == nil {
			c := class(s.Func, s.Types)
			gone[c] = append(gone[c], s.Func)
		}
	}
	for _, k := range l.unexported() {
		if fi := l.funcs[k]; !baseline.Funcs[k] {
			c := class(k, sigTypes(fi.obj))
			fresh[c] = append(fresh[c], k)
		}
	}
	for c, g := range gone {
		f := fresh[c]
		if len(g) != len(f) {
			continue
		}
		for i := range g {
			fi := l.funcs[f[i]]
			delete(l.funcs, f[i])
			renamed[fi.obj] = g[i]
			fi.key = g[i]
			l.funcs[g[i]] = fi
		}
	}
}

func kind(s string) string { return strings.Split(s, ":")[0] }

func loopKind(n ast.Node) string {
	if _, ok := n.(*ast.RangeStmt); ok {
		return "range"
	}
	if f, ok := n.(*ast.ForStmt); ok {
		if inc, ok := f.Post.(*ast.IncDecStmt); ok && inc.Tok == token.INC {
			if as, ok := f.Init.(*ast.AssignStmt); ok && len(as.Lhs) == 1 && len(as.Rhs) == 1 {
				a, _ := as.Lhs[0].(*ast.Ident)
				b, _ := inc.X.(*ast.Ident)
				v := as.Rhs[0]
				if c, ok := v.(*ast.CallExpr); ok && len(c.Args) == 1 {
					v = c.Args[0]
				}
				if l, ok := v.(*ast.BasicLit); ok && l.Kind == token.INT && a != nil && b != nil && a.Name == b.Name {
					return "for:" + a.Name + ":" + l.Value
				}
			}
		}
	}
	return "for"
}

// oldCounter: the counter a loop had in the baseline, if it counted up by one from a constant.
func (x *Exec) oldCounter(key string) (name string, from int64, ok bool) {
	loadBaseline()
	ks := baseline.Loops[x.fi.key]
	k, err := strconv.Atoi(key)
	if err != nil || k < 1 || k > len(ks) {
		return "", 0, false
	}
	f := strings.Split(ks[k-1], ":")
	if len(f) != 3 {
		return "", 0, false
	}
	from, err = strconv.ParseInt(f[2], 0, 64)
	return f[1], from, err == nil
}

// lostCounter: the ghost that counts the rounds of a loop whose counter is gone.
func (x *Exec) lostCounter(st *State, name string) (Val, bool) {
	loadBaseline()
	for i := len(baseline.Loops[x.fi.key]); i > 0; i-- {
		key := strconv.Itoa(i)
		if n, _, ok := x.oldCounter(key); ok && n == name {
			if v, ok := st.ghost["count·"+key]; ok {
				return v, true
			}
		}
	}
	return Val{}, false
}

// counterNames: what a changed kind of loop calls its counter now.  A loop that was written with a counter variable
// and is a range loop now goes by the hidden counter, and the other way round.
func (x *Exec) counterNames(st *State, p *loopParts, key string, e *Env) {
	loadBaseline()
	ks := baseline.Loops[x.fi.key]
	k, err := strconv.Atoi(key)
	if err != nil || k < 1 || k > len(ks) || kind(ks[k-1]) == kind(loopKind(p.node)) {
		return
	}
	switch n := p.node.(type) {
	case *ast.RangeStmt:
		if id, ok := n.Key.(*ast.Ident); ok && p.iter != nil && id.Name != "_" {
			e.vals[id.Name] = st.vars[p.iter]
			for _, l := range baseline.Locals[x.fi.key] {
				if alias(x.fi, l.Name) == id.Name {
					e.vals[l.Name] = st.vars[p.iter]
				}
			}
		}
	case *ast.ForStmt:
		if val, _, lim, ok := x.counter(st, n); ok {
			e.vals["iter"] = val
			if c, ok := ast.Unparen(lim).(*ast.CallExpr); ok && len(c.Args) == 1 {
				if f, ok := c.Fun.(*ast.Ident); ok && f.Name == "len" {
					x.ev(st, c.Args[0], func(_ *State, v Val) { e.vals["rng"] = v })
				}
			}
		}
	}
}

// counter recognises for ...; i < limit; i++ and gives the value of i and the limit.
func (x *Exec) counter(st *State, n *ast.ForStmt) (val Val, typ types.Type, lim ast.Expr, ok bool) {
	inc, ok := n.Post.(*ast.IncDecStmt)
	if !ok || inc.Tok != token.INC {
		return val, nil, nil, false
	}
	id, ok := inc.X.(*ast.Ident)
	if !ok {
		return val, nil, nil, false
	}
	v, ok := st.fr.fi.pkg.info.Uses[id].(*types.Var)
	if !ok {
		return val, nil, nil, false
	}
	c, ok := ast.Unparen(n.Cond).(*ast.BinaryExpr)
	if !ok {
		return val, nil, nil, false
	}
	l, r := ast.Unparen(c.X), ast.Unparen(c.Y)
	op := c.Op
	if i, isId := r.(*ast.Ident); isId && st.fr.fi.pkg.info.Uses[i] == v && op == token.GTR {
		l, r, op = r, l, token.LSS
	}
	i, isId := l.(*ast.Ident)
	if !isId || st.fr.fi.pkg.info.Uses[i] != v || op != token.LSS {
		return val, nil, nil, false
	}
	pure := true
	ast.Inspect(r, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			f, ok := c.Fun.(*ast.Ident)
			pure = pure && ok && (f.Name == "len" || f.Name == "int")
		}
		return true
	})
	val, ok = x.varVal(st, st.fr.fi, v)
	return val, v.Type(), r, ok && pure
}

// countingLoop gives a loop that was a range loop when its contract was written and counts up to a limit now
// what the range loop had by itself: the bounds of its counter and a termination measure.
func (x *Exec) countingLoop(st *State, p *loopParts, n *ast.ForStmt) {
	if n.Cond == nil || n.Post == nil {
		return
	}
	spec, key := x.loopSpec(st, n)
	if spec == nil || spec.dec != nil || spec.nodec != "" {
		return
	}
	loadBaseline()
	ks := baseline.Loops[x.fi.key]
	if k, err := strconv.Atoi(key); err != nil || k < 1 || k > len(ks) || ks[k-1] != "range" {
		return
	}
	if _, typ, _, ok := x.counter(st, n); !ok || !types.Identical(under(typ), types.Typ[types.Int]) {
		return
	}
	ends := func(st *State) (i, lim *Term) {
		v, _, e, _ := x.counter(st, n)
		x.ev(st, e, func(_ *State, l Val) { lim = l.t() })
		return v.t(), lim
	}
	p.dec = func(st *State) *Term {
		i, lim := ends(st)
		return Sub(lim, i)
	}
	p.invs = func(st *State) []*Term {
		i, lim := ends(st)
		return []*Term{iLe(idxNum(0), i), iLe(i, lim)}
	}
}

// alias gives the present name of a local variable that had this name in the baseline.
func alias(fi *FuncInfo, name string) string {
	loadBaseline()
	old := baseline.Locals[fi.key]
	if len(old) == 0 {
		return ""
	}
	now := localsOf(fi)
	uniq := func(ls []Local, not []Local, typ string) (r []string) {
		seen := map[string]bool{}
		for _, x := range not {
			seen[x.Name] = true
		}
		for _, x := range ls {
			if x.Type == typ && !seen[x.Name] {
				seen[x.Name] = true
				r = append(r, x.Name)
			}
		}
		return
	}
	typ := ""
	for _, x := range old {
		if x.Name == name {
			typ = x.Type
			break
		}
	}
	if typ == "" {
		return ""
	}
	gone, fresh := uniq(old, now, typ), uniq(now, old, typ)
	for i, n := range gone {
		if n == name && i < len(fresh) {
			return fresh[i]
		}
	}
	return ""
}

// flatLoops numbers the loops of a function as if helpers that are not in the baseline and have no contract
// were still part of it; nil without such helpers.
// A helper may stand at several places: the calls that lead to it tell them apart.
type flatKey struct {
	calls string
	loop  ast.Node
}

func callChain(x *Exec, fr *Frame) string {
	s := ""
	for f := fr; f != nil; f = f.parent {
		if f.lit == nil && f.fi != x.fi {
			s = strconv.Itoa(int(f.callPos)) + "/" + s
		}
	}
	return s
}

func (x *Exec) flatLoops(fi *FuncInfo) map[flatKey]int {
	loadBaseline()
	if len(baseline.Funcs) == 0 {
		return nil
	}
	m := map[flatKey]int{}
	n, helpers := 0, false
	open := map[*FuncInfo]bool{fi: true}
	var walk func(f *FuncInfo, chain string)
	walk = func(f *FuncInfo, chain string) {
		// in the order of the text; a call counts where its name stands
		type ev struct {
			pos  int
			loop ast.Node
			f    *FuncInfo
		}
		var evs []ev
		ast.Inspect(f.decl.Body, func(nd ast.Node) bool {
			switch nd := nd.(type) {
			case *ast.ForStmt, *ast.RangeStmt:
				evs = append(evs, ev{int(nd.Pos()), nd, nil})
			case *ast.CallExpr:
				var id *ast.Ident
				switch f := nd.Fun.(type) {
				case *ast.Ident:
					id = f
				case *ast.SelectorExpr:
					id = f.Sel
				}
				if id == nil {
					return true
				}
				if o, ok := f.pkg.info.Uses[id].(*types.Func); ok {
					if h := x.l.byObj[o.Origin()]; h != nil && h.decl.Body != nil && !baseline.Funcs[h.key] && x.db.contracts[h.key] == nil && !open[h] {
						evs = append(evs, ev{int(nd.Pos()), nil, h})
					}
				}
			}
			return true
		})
		sort.SliceStable(evs, func(i, j int) bool { return evs[i].pos < evs[j].pos })
		for _, e := range evs {
			if e.loop != nil {
				n++
				m[flatKey{chain, e.loop}] = n
			} else {
				helpers = true
				open[e.f] = true
				walk(e.f, chain+strconv.Itoa(e.pos)+"/")
				open[e.f] = false
			}
		}
	}
	walk(fi, "")
	if !helpers {
		return nil
	}
	return m
}
