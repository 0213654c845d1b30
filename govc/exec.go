package main

// Symbolic execution of Go function bodies against their contracts (continuation-passing).

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

const (
	oNormal = iota
	oBreak
	oContinue
	oReturn
)

type Outcome struct {
	kind int
	vals []Val
}

type LoopCtx struct {
	key   string
	entry *State
	iter  *Val
	vals  map[string]Val
}

type Obl struct {
	kind  string
	name  string
	pos   string
	facts *Facts
	goal  *Term
	// result
	status string // proved, failed, unknown
	solver string
	ms     int64
	out    string
}

type Exec struct {
	l         *Loader
	db        *SpecDB
	noFacts   int
	noOracle  bool
	disc      []*WriteLog
	iterVars  map[*ast.RangeStmt]*types.Var
	frame     []ModLoc
	hasFrame  bool
	flat      map[flatKey]int
	flatDone  bool
	refusing  string // name of the refusal being checked
	baseTop   map[*Term]*Term
	top0      *Term
	heapSorts map[string]*Sort
	allocated map[*Term]bool
	byteArr   map[*Term]bool
	named     map[*Term]*Term
	intArr    map[*Term]rng
	scratch   *State
	fi        *FuncInfo
	con       *Contract
	obls      []*Obl
	oblSeen   map[string]bool
	entry     *State
	entryVals map[string]Val
	mergeOn   bool
	vac       map[string][2]int // per call site: states refuted / not refuted after the callee's postconditions
	paths     int
	orc       *Oracle
	used      map[string]bool // contracts relied on
	inlined   map[string]bool
	trusted   map[string]bool
	lemUsed   map[string]bool
	rets      int
	axioms    []*Term
	depth     int
	curPos    token.Pos
	globTab   map[*types.Var]*Term
	gids      int64
	usePosHit map[string]bool
	tpNames   map[string]types.Type
}

func newExec(l *Loader, db *SpecDB) *Exec {
	x := &Exec{l: l, db: db, vac: map[string][2]int{}, baseTop: map[*Term]*Term{}, heapSorts: map[string]*Sort{}, allocated: map[*Term]bool{}, byteArr: map[*Term]bool{}, named: map[*Term]*Term{},
		intArr: map[*Term]rng{}, oblSeen: map[string]bool{}, used: map[string]bool{}, inlined: map[string]bool{}, trusted: map[string]bool{},
		lemUsed: map[string]bool{}, globTab: map[*types.Var]*Term{}, usePosHit: map[string]bool{}}
	x.top0 = Const("top0", SInt)
	SetRange(x.top0, Num(1).num, nil)
	x.scratch = x.newState(&Frame{})
	return x
}

func (x *Exec) newState(fr *Frame) *State {
	return &State{x: x, vars: map[*types.Var]Val{}, ghost: map[string]Val{}, heap: map[string]*Term{}, top: x.top0, fr: fr}
}

func (x *Exec) pos(p token.Pos) string {
	q := x.l.fset.Position(p)
	rel, err := filepath.Rel(x.l.root, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// endsRun: kinds of obligations whose failure is a panic, that is, no normal return.
var endsRun = map[string]bool{"bounds": true, "nil": true, "div": true, "dyn": true, "make": true, "panic": true, "shift": true}

func (x *Exec) oblige(st *State, goal *Term, kind, name string, p token.Pos) {
	if x.refusing != "" {
		if endsRun[kind] {
			st.assume(goal)
			return
		}
		name = x.refusing + ": " + name
	}
	if x.discovering() || x.noFacts > 0 {
		st.assume(goal)
		return
	}
	if goal == True || st.dead {
		x.obls = append(x.obls, &Obl{kind: kind, name: name, pos: x.pos(p), goal: True, status: "proved", solver: "simplifier"})
		return
	}
	if st.quick(goal) {
		x.obls = append(x.obls, &Obl{kind: kind, name: name, pos: x.pos(p), goal: goal, facts: st.facts, status: "proved", solver: "simplifier"})
		st.assume(goal)
		return
	}
	k := fmt.Sprintf("%d|%p|%s", goal.id, st.facts, kind)
	if !x.oblSeen[k] {
		x.oblSeen[k] = true
		x.obls = append(x.obls, &Obl{kind: kind, name: name, pos: x.pos(p), facts: st.facts, goal: goal})
	}
	st.assume(goal)
}

// ---- verification of one function ----

func (x *Exec) verify(fi *FuncInfo, con *Contract) {
	x.fi, x.con = fi, con
	bvMode = con.mode == "bv"
	if fi.decl.Body == nil {
		fail("no body")
	}
	x.mergeOn = con.merge
	x.run(fi, con, con.requires, con.modifies)
	for _, c := range con.refuses {
		x.refusing = "refuses " + c.label + c.e.src
		x.run(fi, con, []Clause{c}, nil)
		x.refusing = ""
	}
	for _, u := range con.uses {
		if !x.usePosHit[u.pos] {
			fail("use position %q never reached", u.pos)
		}
	}
	for _, a := range con.asserts {
		if !x.usePosHit[a.pos] {
			fail("assert position %q never reached", a.pos)
		}
	}
	for _, g := range con.ghosts {
		if !x.usePosHit[g.pos] {
			fail("set position %q never reached", g.pos)
		}
	}
	for k := range con.loops {
		if !x.usePosHit["loopspec "+k] {
			fail("loop specification %q does not match any loop", k)
		}
	}
}

// run executes the body from the given preconditions.
func (x *Exec) run(fi *FuncInfo, con *Contract, requires []Clause, modifies []ModItem) {
	sig := fi.obj.Type().(*types.Signature)
	fr := &Frame{fi: fi, sig: sig}
	x.tpNames = map[string]types.Type{}
	for _, l := range []*types.TypeParamList{sig.TypeParams(), sig.RecvTypeParams()} {
		for i := 0; l != nil && i < l.Len(); i++ {
			x.tpNames[l.At(i).Obj().Name()] = l.At(i)
		}
	}
	st := x.newState(fr)
	x.entryVals = map[string]Val{}
	var pvars []*types.Var
	if r := sig.Recv(); r != nil {
		pvars = append(pvars, r)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		pvars = append(pvars, sig.Params().At(i))
	}
	if len(con.params) != len(pvars) {
		fail("contract header has %d parameters, code has %d", len(con.params), len(pvars))
	}
	st.assume(Le(Num(1), st.top))
	for i, v := range pvars {
		val := freshVal(v.Name(), v.Type())
		if dn, ok := con.dyn[con.params[i]]; ok && val.K == KIface {
			val.ts[0] = ifaceTag(x.typeByName(dn))
		}
		st.valFacts(val)
		x.entryVals[con.params[i]] = val
		if i == 0 && sig.Recv() != nil && val.K == KPtr && con.opts["nilrecv"] == "" {
			st.assume(Le(Num(1), val.t()))
		}
		x.bindVar(st, fi, v, val)
	}
	x.bindResults(st, fr, sig)
	for n, g := range x.db.ghosts {
		st.ghost[n] = x.ghostInit(st, n, g)
	}
	env := x.fnEnv(st)
	for _, c := range requires {
		st.assume((&*env).hypE(c.e))
	}
	x.entry = st.snap()
	env.old = x.entry
	x.frame = x.modLocs(env, modifies)
	x.hasFrame = true
	if x.refusing == "" {
		x.runGhost(st, "entry")
	}
	if st.infeasible() {
		fail("preconditions are contradictory")
	}
	x.block(st, fi.decl.Body.List, func(s *State, o Outcome) {
		x.ret(s, o, func(s *State, rv []Val) {
			x.atReturn(s, rv)
		})
	})
	if x.refusing != "" {
		x.obls = append(x.obls, &Obl{kind: "refuse", name: x.refusing, pos: x.pos(fi.decl.Pos()), goal: True, status: "proved", solver: "simplifier"})
	}
	if x.rets == 0 && x.refusing == "" {
		fail("no feasible return path: specification would be vacuous")
	}
}

func (e *Env) hypE(x *SExpr) *Term {
	n := *e
	n.hyp = true
	return n.boolE(x)
}
func (e *Env) goalE(x *SExpr) *Term {
	n := *e
	n.hyp = false
	return n.boolE(x)
}

func (x *Exec) ghostInit(st *State, n string, g GhostDecl) Val {
	s := sortByName(g.sort)
	return Val{K: KScalar, ts: []*Term{Const("ghost:"+n, s)}, spec: true}
}

func (x *Exec) ghostVal(st *State, n string) Val {
	if v, ok := st.ghost[n]; ok {
		return v
	}
	g, ok := x.db.ghosts[n]
	if !ok {
		fail("spec: no ghost %s", n)
	}
	v := x.ghostInit(st, n, g)
	st.ghost[n] = v
	return v
}

func (x *Exec) atReturn(st *State, rv []Val) {
	if st.dead {
		return
	}
	if x.discovering() {
		return
	}
	if x.refusing != "" {
		x.oblige(st, False, "refuse", "does not return", x.fi.decl.Pos())
		return
	}
	x.paths++
	if x.rets == 0 && st.infeasible() {
		return // dead path: its obligations hold trivially, and it does not count
	}
	x.rets++
	env := x.fnEnv(st)
	con := x.con
	if len(con.results) != len(rv) {
		fail("contract header has %d results, code has %d", len(con.results), len(rv))
	}
	env.vals = map[string]Val{}
	for k, v := range x.entryVals {
		env.vals[k] = v
	}
	for i, r := range con.results {
		env.vals[r] = rv[i]
	}
	x.applyUses(st, env, "exit")
	x.checkAsserts(st, env, "exit", x.fi.decl.End())
	x.setGhosts(st, env, "exit")
	for i, c := range con.results {
		if t, ok := con.dyn[c]; ok {
			if rv[i].K == KIface {
				x.oblige(st, Eq(rv[i].ts[0], ifaceTag(x.typeByName(t))), "post", "dynamic type of "+c, x.fi.decl.Pos())
			}
		}
	}
	for i, c := range con.ensures {
		nm := c.label
		if nm == "" {
			nm = fmt.Sprintf("ensures#%d", i+1)
		}
		x.oblige(st, env.goalE(c.e), "post", nm+": "+c.e.src, x.fi.decl.Pos())
	}
}

// fnEnv: names resolve to header parameters (entry values) then Go locals.
func (x *Exec) fnEnv(st *State) *Env {
	e := &Env{x: x, st: st, cur: st, old: x.entry, vals: map[string]Val{}, pre: x.entryVals, pkg: x.fi.pkg}
	for k, v := range x.entryVals {
		e.vals[k] = v
	}
	return e
}

// bodyEnv: names resolve to current values at a position in the current frame.
func (x *Exec) bodyEnv(st *State, p token.Pos) *Env {
	e := &Env{x: x, st: st, cur: st, old: x.entry, vals: map[string]Val{}, pre: x.entryVals, pkg: st.fr.fi.pkg}
	fr := st.fr
	e.local = func(s *State, name string) (Val, bool) {
		if v, ok := x.resolveLocal(s, fr, name, p); ok {
			return v, true
		}
		q := fr.callPos
		for f := fr.parent; f != nil; f = f.parent {
			if v, ok := x.resolveLocal(s, f, name, q); ok {
				return v, true
			}
			q = f.callPos
		}
		if v, ok := x.entryVals[name]; ok {
			return v, true
		}
		return Val{}, false
	}
	return e
}

func (x *Exec) resolveLocal(st *State, fr *Frame, name string, p token.Pos) (Val, bool) {
	fi := fr.fi
	if fi == nil {
		return Val{}, false
	}
	con := x.db.contracts[fi.key]
	if con != nil {
		sig := fi.obj.Type().(*types.Signature)
		var pv []*types.Var
		if r := sig.Recv(); r != nil {
			pv = append(pv, r)
		}
		for i := 0; i < sig.Params().Len(); i++ {
			pv = append(pv, sig.Params().At(i))
		}
		for i, n := range con.params {
			if n == name && i < len(pv) {
				if v, ok := x.varVal(st, fi, pv[i]); ok {
					return v, true
				}
			}
		}
		for i, n := range con.results {
			if n == name && i < sig.Results().Len() {
				if v, ok := x.varVal(st, fi, sig.Results().At(i)); ok {
					return v, true
				}
			}
		}
	}
	sc := fi.pkg.tpkg.Scope().Innermost(p)
	for sc != nil && sc != fi.pkg.tpkg.Scope() {
		if o := sc.Lookup(name); o != nil && o.Pos() < p {
			if v, ok := o.(*types.Var); ok {
				if val, ok := x.varVal(st, fi, v); ok {
					return val, true
				}
			}
		}
		sc = sc.Parent()
	}
	if now := alias(fi, name); now != "" {
		return x.resolveLocal(st, fr, now, p)
	}
	if fi == x.fi {
		return x.lostCounter(st, name)
	}
	return Val{}, false
}

func (x *Exec) varVal(st *State, fi *FuncInfo, v *types.Var) (Val, bool) {
	val, ok := st.vars[v]
	if !ok {
		return Val{}, false
	}
	if fi.addr[v] {
		el := ptrElem(val.T)
		if _, isS := under(el).(*types.Struct); isS {
			return val, true // a pointer: field access works the same
		}
		return st.loadAt(ptrPrefix(val), val.t(), el), true
	}
	return val, true
}

func (x *Exec) bindVar(st *State, fi *FuncInfo, v *types.Var, val Val) {
	if fi.addr[v] {
		t := substType(v.Type(), st.fr.sub)
		id := st.alloc(v.Name())
		p := Val{T: types.NewPointer(t), K: KPtr, ts: []*Term{id}}
		st.storeAt(ptrPrefix(p), id, val, t)
		st.setVar(v, p)
		return
	}
	st.setVar(v, val)
}

func (x *Exec) bindResults(st *State, fr *Frame, sig *types.Signature) {
	rs := sig.Results()
	if rs.Len() > 0 && rs.At(0).Name() != "" {
		for i := 0; i < rs.Len(); i++ {
			fr.results = append(fr.results, rs.At(i))
			x.bindVar(st, fr.fi, rs.At(i), zeroVal(substType(rs.At(i).Type(), fr.sub)))
		}
	}
	st.fr = fr
}

// ret finishes a function body: result values, deferred calls.
func (x *Exec) ret(st *State, o Outcome, k func(*State, []Val)) {
	fr := st.fr
	switch o.kind {
	case oNormal:
		if fr.sig.Results().Len() > 0 && fr.results == nil {
			fail("missing return")
		}
	case oReturn:
	default:
		fail("break/continue out of function")
	}
	vals := o.vals
	if fr.results != nil && o.kind == oReturn && len(vals) > 0 {
		for i, v := range fr.results {
			x.storeVar(st, v, vals[i])
		}
	}
	var run func(st *State)
	run = func(st *State) {
		n := len(st.fr.defers)
		if n == 0 {
			if st.fr.results != nil {
				vals = nil
				for _, v := range st.fr.results {
					vals = append(vals, x.loadVar(st, v))
				}
			}
			k(st, vals)
			return
		}
		d := st.fr.defers[n-1]
		st.fr.defers = st.fr.defers[:n-1]
		d.run(st, run)
	}
	run(st)
}

func (x *Exec) boxed(st *State, v *types.Var) bool {
	if st.fr.fi != nil && st.fr.fi.addr[v] {
		return true
	}
	for f := st.fr.parent; f != nil; f = f.parent {
		if f.fi != nil && f.fi.addr[v] {
			return true
		}
	}
	return false
}

func (x *Exec) loadVar(st *State, v *types.Var) Val {
	val, ok := st.vars[v]
	if !ok {
		fail("variable %s not bound", v.Name())
	}
	if x.boxed(st, v) {
		return st.loadAt(ptrPrefix(val), val.t(), ptrElem(val.T))
	}
	return val
}

func (x *Exec) storeVar(st *State, v *types.Var, val Val) {
	if x.boxed(st, v) {
		p := st.vars[v]
		st.storeAt(ptrPrefix(p), p.t(), val, ptrElem(p.T))
		return
	}
	st.setVar(v, val)
}

// ---- statements ----

func (x *Exec) block(st *State, list []ast.Stmt, k func(*State, Outcome)) {
	if st.dead {
		return
	}
	if len(list) == 0 {
		k(st, Outcome{})
		return
	}
	x.stmt(st, list[0], func(s *State, o Outcome) {
		if o.kind != oNormal {
			k(s, o)
			return
		}
		x.block(s, list[1:], k)
	})
}

func (x *Exec) typeOf(st *State, e ast.Expr) types.Type {
	t := st.fr.fi.pkg.info.TypeOf(e)
	if t == nil {
		fail("%s: no type", x.pos(e.Pos()))
	}
	return substType(t, st.fr.sub)
}

// branch splits on a condition.
func (x *Exec) branch(st *State, c *Term, yes, no func(*State)) {
	if st.dead {
		return
	}
	if c == True || st.quick(c) {
		yes(st)
		return
	}
	if c == False || st.quick(Not(c)) {
		no(st)
		return
	}
	a := st.clone()
	b := st
	a.assume(c)
	b.assume(Not(c))
	if a.infeasible() {
		no(b)
		return
	}
	if b.infeasible() {
		yes(a)
		return
	}
	yes(a)
	no(b)
}

// join runs f on both sides collecting normal outcomes to merge when merging is on.
func (x *Exec) joinBranch(st *State, c *Term, yes, no func(*State, func(*State, Outcome)), k func(*State, Outcome)) {
	if !x.mergeOn {
		x.branch(st, c, func(s *State) { yes(s, k) }, func(s *State) { no(s, k) })
		return
	}
	base := st.facts
	keep := map[*types.Var]Val{}
	for v, val := range st.vars {
		keep[v] = val
	}
	var norm []*State
	coll := func(s *State, o Outcome) {
		if o.kind == oNormal {
			if !s.dead {
				norm = append(norm, s)
			}
			return
		}
		k(s, o)
	}
	x.branch(st, c, func(s *State) { yes(s, coll) }, func(s *State) { no(s, coll) })
	if len(norm) == 0 {
		return
	}
	if len(norm) > 1 {
		// only merge states on the same facts spine
		k(mergeStates(norm, base, keep), Outcome{})
		return
	}
	k(norm[0], Outcome{})
}

func (x *Exec) stmt(st *State, s ast.Stmt, k func(*State, Outcome)) {
	x.depth++
	if x.depth > 200000 {
		fail("symbolic execution depth")
	}
	norm := func(s *State) { k(s, Outcome{}) }
	switch n := s.(type) {
	case *ast.BlockStmt:
		x.block(st, n.List, k)
	case *ast.EmptyStmt:
		norm(st)
	case *ast.ExprStmt:
		x.evMulti(st, n.X, func(s *State, v Val) { norm(s) })
	case *ast.DeclStmt:
		x.declStmt(st, n, norm)
	case *ast.AssignStmt:
		x.assign(st, n, norm)
	case *ast.IncDecStmt:
		op := token.ADD
		if n.Tok == token.DEC {
			op = token.SUB
		}
		x.lval(st, n.X, func(s *State, lv *LV) {
			v := x.load(s, lv, n.Pos())
			one := NumOf(Num(1).num, v.t().sort)
			x.store(s, lv, scalar(v.T, intBin(s, op, v.t(), one, v.T, v.T)), n.Pos())
			norm(s)
		})
	case *ast.IfStmt:
		run := func(st *State) {
			x.ev(st, n.Cond, func(st *State, c Val) {
				x.joinBranch(st, c.t(),
					func(s *State, k func(*State, Outcome)) { x.block(s, n.Body.List, k) },
					func(s *State, k func(*State, Outcome)) {
						if n.Else == nil {
							k(s, Outcome{})
							return
						}
						x.stmt(s, n.Else, k)
					}, k)
			})
		}
		if n.Init != nil {
			x.stmt(st, n.Init, func(s *State, o Outcome) { run(s) })
			return
		}
		run(st)
	case *ast.SwitchStmt:
		run := func(st *State) { x.switchStmt(st, n, k) }
		if n.Init != nil {
			x.stmt(st, n.Init, func(s *State, o Outcome) { run(s) })
			return
		}
		run(st)
	case *ast.ForStmt:
		if n.Init != nil {
			x.stmt(st, n.Init, func(s *State, o Outcome) { x.forStmt(s, n, k) })
			return
		}
		x.forStmt(st, n, k)
	case *ast.RangeStmt:
		x.rangeStmt(st, n, k)
	case *ast.ReturnStmt:
		sig := st.fr.sig
		if len(n.Results) == 0 {
			k(st, Outcome{kind: oReturn})
			return
		}
		rt := func(i int) types.Type { return substType(sig.Results().At(i).Type(), st.fr.sub) }
		if len(n.Results) == 1 && sig.Results().Len() > 1 {
			x.evMulti(st, n.Results[0], func(s *State, v Val) {
				var out []Val
				for i, f := range v.fs {
					out = append(out, x.conv(s, f, rt(i)))
				}
				k(s, Outcome{oReturn, out})
			})
			return
		}
		x.evs(st, n.Results, func(s *State, vs []Val) {
			var out []Val
			for i, v := range vs {
				out = append(out, x.conv(s, v, rt(i)))
			}
			k(s, Outcome{oReturn, out})
		})
	case *ast.BranchStmt:
		if n.Label != nil {
			fail("%s: labelled branch", x.pos(n.Pos()))
		}
		switch n.Tok {
		case token.BREAK:
			k(st, Outcome{kind: oBreak})
		case token.CONTINUE:
			k(st, Outcome{kind: oContinue})
		default:
			fail("%s: %s", x.pos(n.Pos()), n.Tok)
		}
	case *ast.DeferStmt:
		x.deferStmt(st, n, norm)
	default:
		fail("%s: statement %T", x.pos(s.Pos()), s)
	}
}

func (x *Exec) declStmt(st *State, n *ast.DeclStmt, k func(*State)) {
	g := n.Decl.(*ast.GenDecl)
	if g.Tok != token.VAR {
		k(st)
		return
	}
	var rec func(st *State, i int)
	rec = func(st *State, i int) {
		if i == len(g.Specs) {
			k(st)
			return
		}
		vs := g.Specs[i].(*ast.ValueSpec)
		info := st.fr.fi.pkg.info
		if len(vs.Values) == 0 {
			for _, nm := range vs.Names {
				if nm.Name == "_" {
					continue
				}
				v := info.Defs[nm].(*types.Var)
				x.bindVar(st, st.fr.fi, v, zeroVal(substType(v.Type(), st.fr.sub)))
			}
			rec(st, i+1)
			return
		}
		bind := func(st *State, vals []Val) {
			for j, nm := range vs.Names {
				if nm.Name == "_" {
					continue
				}
				v := info.Defs[nm].(*types.Var)
				x.bindVar(st, st.fr.fi, v, x.conv(st, vals[j], substType(v.Type(), st.fr.sub)))
			}
			rec(st, i+1)
		}
		if len(vs.Values) == 1 && len(vs.Names) > 1 {
			x.evMulti(st, vs.Values[0], func(st *State, v Val) { bind(st, v.fs) })
			return
		}
		x.evs(st, vs.Values, bind)
	}
	rec(st, 0)
}

func (x *Exec) assign(st *State, n *ast.AssignStmt, k func(*State)) {
	info := st.fr.fi.pkg.info
	if n.Tok != token.ASSIGN && n.Tok != token.DEFINE {
		op := assignOp(n.Tok)
		x.lval(st, n.Lhs[0], func(st *State, lv *LV) {
			cur := x.load(st, lv, n.Pos())
			x.ev(st, n.Rhs[0], func(st *State, r Val) {
				v := x.binop(st, op, cur, r, lv.T, n.Pos())
				x.store(st, lv, v, n.Pos())
				k(st)
			})
		})
		return
	}
	define := func(st *State, i int, v Val) bool {
		if n.Tok != token.DEFINE {
			return false
		}
		id, ok := n.Lhs[i].(*ast.Ident)
		if !ok {
			return false
		}
		if id.Name == "_" {
			return true
		}
		if d, ok := info.Defs[id].(*types.Var); ok && d != nil {
			x.bindVar(st, st.fr.fi, d, x.conv(st, v, substType(d.Type(), st.fr.sub)))
			return true
		}
		return false
	}
	// left-hand operands first
	var lvs []*LV
	var lhs func(st *State, i int, then func(*State))
	lhs = func(st *State, i int, then func(*State)) {
		if i == len(n.Lhs) {
			then(st)
			return
		}
		if id, ok := n.Lhs[i].(*ast.Ident); ok && (id.Name == "_" || (n.Tok == token.DEFINE && info.Defs[id] != nil)) {
			lvs = append(lvs[:i:i], nil)
			lhs(st, i+1, then)
			return
		}
		x.lval(st, n.Lhs[i], func(st *State, lv *LV) {
			lvs = append(lvs[:i:i], lv)
			lhs(st, i+1, then)
		})
	}
	lhs(st, 0, func(st *State) {
		my := append([]*LV{}, lvs...)
		fin := func(st *State, vals []Val) {
			for i := range n.Lhs {
				if my[i] == nil {
					if id, ok := n.Lhs[i].(*ast.Ident); ok && id.Name == "_" {
						continue
					}
					define(st, i, vals[i])
					continue
				}
				x.store(st, my[i], x.conv(st, vals[i], my[i].T), n.Pos())
			}
			k(st)
		}
		if len(n.Rhs) == 1 && len(n.Lhs) > 1 {
			x.evCommaOk(st, n.Rhs[0], len(n.Lhs), fin)
			return
		}
		x.evs(st, n.Rhs, fin)
	})
}

func assignOp(t token.Token) token.Token {
	switch t {
	case token.ADD_ASSIGN:
		return token.ADD
	case token.SUB_ASSIGN:
		return token.SUB
	case token.MUL_ASSIGN:
		return token.MUL
	case token.QUO_ASSIGN:
		return token.QUO
	case token.REM_ASSIGN:
		return token.REM
	case token.AND_ASSIGN:
		return token.AND
	case token.OR_ASSIGN:
		return token.OR
	case token.XOR_ASSIGN:
		return token.XOR
	case token.SHL_ASSIGN:
		return token.SHL
	case token.SHR_ASSIGN:
		return token.SHR
	case token.AND_NOT_ASSIGN:
		return token.AND_NOT
	}
	fail("assignment operator %s", t)
	return 0
}

func (x *Exec) switchStmt(st *State, n *ast.SwitchStmt, k func(*State, Outcome)) {
	end := func(s *State, o Outcome) {
		if o.kind == oBreak {
			o = Outcome{}
		}
		k(s, o)
	}
	for _, c := range n.Body.List {
		for _, b := range c.(*ast.CaseClause).Body {
			if br, ok := b.(*ast.BranchStmt); ok && br.Tok == token.FALLTHROUGH {
				fail("%s: fallthrough", x.pos(br.Pos()))
			}
		}
	}
	body := func(st *State, tag *Val) {
		var def *ast.CaseClause
		var rec func(st *State, ci, ei int, k func(*State, Outcome))
		rec = func(st *State, ci, ei int, k func(*State, Outcome)) {
			if st.dead {
				return
			}
			if ci == len(n.Body.List) {
				if def != nil {
					x.block(st, def.Body, k)
				} else {
					k(st, Outcome{})
				}
				return
			}
			cc := n.Body.List[ci].(*ast.CaseClause)
			if cc.List == nil {
				def = cc
				rec(st, ci+1, 0, k)
				return
			}
			// evaluate all alternatives as one condition when pure
			x.evs(st, cc.List, func(st *State, vs []Val) {
				var cs []*Term
				for i, v := range vs {
					if tag == nil {
						cs = append(cs, v.t())
					} else {
						r := x.binop(st, token.EQL, *tag, v, types.Typ[types.Bool], cc.List[i].Pos())
						cs = append(cs, r.t())
					}
				}
				x.joinBranch(st, Or(cs...),
					func(s *State, k func(*State, Outcome)) { x.block(s, cc.Body, k) },
					func(s *State, k func(*State, Outcome)) { rec(s, ci+1, 0, k) }, k)
			})
		}
		// default must be known before falling off the end
		for _, c := range n.Body.List {
			if cc := c.(*ast.CaseClause); cc.List == nil {
				def = cc
			}
		}
		rec(st, 0, 0, end)
	}
	if n.Tag == nil {
		body(st, nil)
		return
	}
	x.ev(st, n.Tag, func(st *State, v Val) { body(st, &v) })
}

func (x *Exec) deferStmt(st *State, n *ast.DeferStmt, k func(*State)) {
	if x.discovering() {
		for range st.loops {
			fail("%s: defer inside a loop", x.pos(n.Pos()))
		}
	}
	if len(st.loops) > 0 && len(st.fr.defers) >= 0 {
		for _, lc := range st.loops {
			if lc.entry != nil && lc.entry.fr.fi == st.fr.fi && lc.entry.fr.lit == st.fr.lit {
				fail("%s: defer inside a loop", x.pos(n.Pos()))
			}
		}
	}
	call := n.Call
	if lit, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		st.fr.defers = append(st.fr.defers, Deferred{run: func(s *State, k2 func(*State)) {
			x.callLit(s, &FuncVal{lit: lit, owner: s.fr.fi, sub: s.fr.sub}, nil, n.Pos(), func(s *State, _ Val) { k2(s) })
		}})
		k(st)
		return
	}
	x.evs(st, call.Args, func(st *State, args []Val) {
		st.fr.defers = append(st.fr.defers, Deferred{run: func(s *State, k2 func(*State)) {
			x.callWith(s, call, args, func(s *State, _ Val) { k2(s) })
		}})
		k(st)
	})
}

// ---- loops ----

func (x *Exec) loopSpec(st *State, n ast.Node) (*LoopSpec, string) {
	fi := st.fr.fi
	ord := fi.loops[n]
	if !x.flatDone {
		x.flat, x.flatDone = x.flatLoops(x.fi), true
	}
	if k, ok := x.flat[flatKey{callChain(x, st.fr), n}]; ok {
		if s := x.con.loops[itoa(k)]; s != nil {
			x.usePosHit["loopspec "+itoa(k)] = true
			return s, itoa(k)
		}
		return nil, itoa(k)
	}
	if fi == x.fi {
		k := itoa(ord)
		if s := x.con.loops[k]; s != nil {
			x.usePosHit["loopspec "+k] = true
			return s, k
		}
		return nil, k
	}
	k := fi.key + "." + itoa(ord)
	if s := x.con.loops[k]; s != nil {
		x.usePosHit["loopspec "+k] = true
		return s, k
	}
	if c := x.db.contracts[fi.key]; c != nil {
		if s := c.loops[itoa(ord)]; s != nil {
			return s, k
		}
	}
	return nil, k
}

type loopParts struct {
	node  ast.Node
	pos   token.Pos // scope position for names
	cond  func(st *State, k func(*State, *Term))
	body  func(st *State, k func(*State, Outcome))
	post  func(st *State, k func(*State))
	iter  *types.Var // hidden counter
	limit func(st *State) *Term
	vals  map[string]Val
	dec   func(st *State) *Term
	invs  func(st *State) []*Term
	visG  string
}

func (x *Exec) forStmt(st *State, n *ast.ForStmt, k func(*State, Outcome)) {
	p := &loopParts{node: n, pos: n.Body.Lbrace + 1}
	p.cond = func(st *State, k func(*State, *Term)) {
		if n.Cond == nil {
			k(st, True)
			return
		}
		x.ev(st, n.Cond, func(st *State, v Val) { k(st, v.t()) })
	}
	p.body = func(st *State, k func(*State, Outcome)) { x.block(st, n.Body.List, k) }
	p.post = func(st *State, k func(*State)) {
		if n.Post == nil {
			k(st)
			return
		}
		x.stmt(st, n.Post, func(s *State, o Outcome) { k(s) })
	}
	x.countingLoop(st, p, n)
	x.loop(st, p, k)
}

func (x *Exec) loop(st *State, p *loopParts, k func(*State, Outcome)) {
	if x.refusing != "" {
		fail("loop before a refusal")
	}
	if st.dead {
		return
	}
	spec, key := x.loopSpec(st, p.node)
	if spec == nil || spec.unroll {
		x.unroll(st, p, key, k)
		return
	}
	entry := st.snap()
	lc := &LoopCtx{key: key, entry: entry}
	env := func(s *State) *Env {
		e := x.bodyEnv(s, p.pos)
		e.lold = entry
		if p.iter != nil {
			e.vals["iter"] = s.vars[p.iter]
		}
		if p.visG != "" {
			e.vals["visited"] = s.ghost[p.visG]
		}
		for n, v := range p.vals {
			e.vals[n] = v
		}
		x.counterNames(s, p, key, e)
		return e
	}
	invG := func(s *State, what string) {
		if p.invs != nil {
			for i, t := range p.invs(s) {
				x.oblige(s, t, "inv-"+what, fmt.Sprintf("loop %s implicit#%d", key, i+1), p.pos)
			}
		}
		e := env(s)
		for i, c := range spec.invs {
			nm := c.label
			if nm == "" {
				nm = fmt.Sprintf("inv#%d", i+1)
			}
			x.oblige(s, e.goalE(c.e), "inv-"+what, fmt.Sprintf("loop %s %s: %s", key, nm, c.e.src), p.pos)
		}
	}
	invH := func(s *State) {
		if p.invs != nil {
			for _, t := range p.invs(s) {
				s.assume(t)
			}
		}
		e := env(s)
		for _, c := range spec.invs {
			s.assume(e.hypE(c.e))
		}
	}
	tick := func(s *State) {}
	if _, from, ok := x.oldCounter(key); ok && x.fi == st.fr.fi {
		g := "count·" + key
		st.setGhost(g, sInt(idxNum(from)))
		tick = func(s *State) { s.setGhost(g, sInt(Add(s.ghost[g].t(), idxNum(1)))) }
	}
	e0 := env(st)
	x.applyUses(st, e0, "loop "+key+" init")
	x.checkAsserts(st, e0, "loop "+key+" init", p.pos)
	x.setGhosts(st, e0, "loop "+key+" init")
	invG(st, "init")

	// discovery of what the loop writes
	run := func(s *State, lg *WriteLog) {
		x.disc = append(x.disc, lg)
		s.loops = append(s.loops, lc)
		invH(s)
		p.cond(s, func(s *State, c *Term) {
			s.assume(c)
			if s.dead {
				return
			}
			x.setGhosts(s, env(s), "loop "+key+" body")
			p.body(s, func(s *State, o Outcome) {
				if o.kind == oNormal || o.kind == oContinue {
					p.post(s, func(s *State) {
						tick(s)
						x.setGhosts(s, env(s), "loop "+key+" back")
					})
				}
			})
		})
		x.disc = x.disc[:len(x.disc)-1]
	}
	saveNO := x.noOracle
	lg := newLog()
	run(st.clone(), lg)
	for round := 0; ; round++ {
		if round > 6 {
			var names []string
			for v := range lg.vars {
				names = append(names, v.Name())
			}
			fail("loop %s: write discovery did not converge: %v %v %v %v", key, names, lg.ghost, sortedKeys(lg.keys), lg.top)
		}
		h := st.clone()
		x.havocLoop(h, entry, lg, true)
		lg2 := newLog()
		lg2.mark = freshCount
		// terms created by havocLoop itself must count as unstable
		lg2.mark = lg.hmark
		run(h, lg2)
		if lg2.subsumedBy(lg) {
			lg2.hmark = lg.hmark
			lg2.mark = lg.hmark
			lg2.keepAll(lg)
			lg = lg2
			break
		}
		lg2.keepAll(lg)
		lg = lg2
	}
	x.noOracle = saveNO

	h := st.clone()
	x.havocLoop(h, entry, lg, false)
	invH(h)
	h.loops = append(h.loops, lc)
	x.applyUses(h, env(h), "loop "+key)
	p.cond(h, func(s *State, c *Term) {
		x.branch(s, c, func(s *State) {
			var m0 *Term
			e := env(s)
			x.applyUses(s, e, "loop "+key+" body")
			x.checkAsserts(s, e, "loop "+key+" body", p.pos)
			x.setGhosts(s, e, "loop "+key+" body")
			if spec.dec != nil {
				m0 = env(s).intE(spec.dec)
			} else if p.dec != nil {
				m0 = p.dec(s)
			} else if spec.nodec == "" {
				fail("loop %s: no termination measure", key)
			}
			p.body(s, func(s *State, o Outcome) {
				switch o.kind {
				case oNormal, oContinue:
					p.post(s, func(s *State) {
						tick(s)
						e := env(s)
						x.applyUses(s, e, "loop "+key+" back")
						x.checkAsserts(s, e, "loop "+key+" back", p.pos)
						x.setGhosts(s, e, "loop "+key+" back")
						invG(s, "preserved")
						if m0 != nil {
							var m1 *Term
							if spec.dec != nil {
								m1 = env(s).intE(spec.dec)
							} else {
								m1 = p.dec(s)
							}
							z := NumOf(Num(0).num, m0.sort)
							x.oblige(s, And(iLe(z, m0), iLt(m1, m0)), "decreases", "loop "+key+" terminates", p.pos)
						}
						if !x.discovering() {
							x.paths++
						}
					})
				case oBreak:
					s.loops = s.loops[:len(s.loops)-1]
					x.applyUses(s, env(s), "loop "+key+" exit")
					x.checkAsserts(s, env(s), "loop "+key+" exit", p.pos)
					x.setGhosts(s, env(s), "loop "+key+" exit")
					k(s, Outcome{})
				default:
					k(s, o)
				}
			})
		}, func(s *State) {
			s.loops = s.loops[:len(s.loops)-1]
			x.applyUses(s, env(s), "loop "+key+" exit")
			x.checkAsserts(s, env(s), "loop "+key+" exit", p.pos)
			x.setGhosts(s, env(s), "loop "+key+" exit")
			k(s, Outcome{})
		})
	})
}

func (x *Exec) unroll(st *State, p *loopParts, key string, k func(*State, Outcome)) {
	const limit = 300
	var iter func(st *State, n int)
	iter = func(st *State, n int) {
		if n > limit {
			fail("%s: loop %s has no invariant and does not unroll", x.pos(p.pos), key)
		}
		p.cond(st, func(st *State, c *Term) {
			if c != True && c != False && !st.quick(c) && !st.quick(Not(c)) && n > 40 {
				fail("%s: loop %s has no invariant and does not unroll", x.pos(p.pos), key)
			}
			x.branch(st, c, func(st *State) {
				p.body(st, func(st *State, o Outcome) {
					switch o.kind {
					case oNormal, oContinue:
						p.post(st, func(st *State) { iter(st, n+1) })
					case oBreak:
						k(st, Outcome{})
					default:
						k(st, o)
					}
				})
			}, func(st *State) { k(st, Outcome{}) })
		})
	}
	iter(st, 0)
}

// stable: no constant created after mark
func stableTerm(t *Term, mark int) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		if t.op == "const" {
			if i := strings.LastIndexAny(t.name, "!?"); i >= 0 {
				var n int
				if _, err := fmt.Sscanf(t.name[i+1:], "%d", &n); err == nil && n > mark {
					return false
				}
			}
			return true
		}
		for _, a := range t.args {
			if !rec(a) {
				return false
			}
		}
		return true
	}
	return rec(t)
}

func (d *WriteLog) keepAll(o *WriteLog) {
	for v := range o.vars {
		d.vars[v] = true
	}
	for g := range o.ghost {
		d.ghost[g] = true
	}
	if o.top {
		d.top = true
	}
	for k, rs := range o.keys {
		if _, ok := d.keys[k]; !ok {
			d.keys[k] = rs
		}
	}
}

func (d *WriteLog) subsumedBy(o *WriteLog) bool {
	for v := range d.vars {
		if !o.vars[v] {
			return false
		}
	}
	for g := range d.ghost {
		if !o.ghost[g] {
			return false
		}
	}
	for k := range d.keys {
		if _, ok := o.keys[k]; !ok {
			return false
		}
	}
	return !d.top || o.top
}

// havocLoop forgets everything the loop may write. coarse: whole heap keys.
func (x *Exec) havocLoop(st, entry *State, lg *WriteLog, coarse bool) {
	if lg.hmark == 0 {
		lg.hmark = freshCount
	}
	save := x.disc
	if lg.top || coarse {
		nt := Const(freshName("top"), SInt)
		SetRange(nt, Num(1).num, nil)
		st.assume(Le(st.top, nt))
		st.top = nt
	}
	for _, v := range sortedVars(lg.vars) {
		cur, ok := st.vars[v]
		if !ok {
			continue
		}
		if x.boxed(st, v) {
			continue // the variable itself is a constant pointer
		}
		if cur.K == KFunc {
			fail("closure variable %s assigned in a loop", v.Name())
		}
		if cur.K == KPtr && cur.prefix != "" && cur.prefix != defPrefix(cur.T) || cur.via != nil {
			fail("interior pointer variable %s assigned in a loop", v.Name())
		}
		nv := freshVal(v.Name(), cur.T)
		for _, d := range save {
			d.vars[v] = true
		}
		st.vars[v] = nv
		st.valFacts(nv)
	}
	for g := range lg.ghost {
		if _, ok := st.ghost[g]; !ok && strings.HasPrefix(g, "count·") {
			continue // set by an inner loop
		}
		old := x.ghostVal(st, g)
		st.setGhost(g, Val{K: KScalar, ts: []*Term{Const(freshName("ghost:"+g), old.ts[0].sort)}, spec: true})
	}
	for _, key := range sortedKeys(lg.keys) {
		if strings.HasPrefix(key, "ghost:") {
			continue
		}
		s := x.heapSorts[key]
		rs := lg.keys[key]
		precise := !coarse
		var ptrs []*Term
		if precise {
			for _, r := range rs {
				if r.ptr == nil {
					precise = false
					break
				}
				if stableTerm(r.ptr, lg.hmark) {
					ptrs = append(ptrs, r.ptr)
					continue
				}
				if x.allocated[r.ptr] {
					continue // allocated inside the loop: beyond the old top, arbitrary anyway
				}
				if x.freshIn(r.ptr, lg.hmark) {
					continue
				}
				precise = false
			}
		}
		for _, d := range save {
			if precise {
				for _, p := range ptrs {
					d.add(WriteRec{key: key, ptr: p})
				}
			} else {
				d.add(WriteRec{key: key})
			}
		}
		if precise {
			h := st.heapGet(key, s)
			for _, p := range ptrs {
				c := Const(freshName("hv:"+key), s.E)
				h = Store(h, p, c)
			}
			st.heap[key] = h
			continue
		}
		c := Const(freshName("H:"+key), s)
		x.baseTop[c] = st.top
		st.heap[key] = c
	}
}

// freshIn: an ite/append-result of allocations inside the loop
func (x *Exec) freshIn(p *Term, mark int) bool { return false }

func (x *Exec) rangeStmt(st *State, n *ast.RangeStmt, k func(*State, Outcome)) {
	if x.refusing != "" {
		fail("loop before a refusal")
	}
	t := x.typeOf(st, n.X)
	info := st.fr.fi.pkg.info
	setVar := func(st *State, e ast.Expr, v Val, k func(*State)) {
		if e == nil {
			k(st)
			return
		}
		if id, ok := e.(*ast.Ident); ok {
			if id.Name == "_" {
				k(st)
				return
			}
			if n.Tok == token.DEFINE {
				d := info.Defs[id].(*types.Var)
				x.bindVar(st, st.fr.fi, d, x.conv(st, v, substType(d.Type(), st.fr.sub)))
				k(st)
				return
			}
		}
		x.lval(st, e, func(st *State, lv *LV) {
			x.store(st, lv, x.conv(st, v, lv.T), n.Pos())
			k(st)
		})
	}
	iterV := x.iterVars[n]
	if iterV == nil {
		iterV = types.NewVar(n.Pos(), nil, "iter·", types.Typ[types.Int])
		if x.iterVars == nil {
			x.iterVars = map[*ast.RangeStmt]*types.Var{}
		}
		x.iterVars[n] = iterV
	}
	loopOver := func(st *State, length *Term, get func(st *State, i *Term) Val, vals map[string]Val) {
		st.setVar(iterV, intVal(idxNum(0)))
		p := &loopParts{node: n, pos: n.Body.Lbrace + 1, iter: iterV, vals: vals}
		p.cond = func(st *State, k func(*State, *Term)) { k(st, iLt(st.vars[iterV].t(), length)) }
		p.body = func(st *State, k func(*State, Outcome)) {
			i := st.vars[iterV].t()
			setVar(st, n.Key, intVal(i), func(st *State) {
				if n.Value == nil {
					x.block(st, n.Body.List, k)
					return
				}
				setVar(st, n.Value, get(st, i), func(st *State) { x.block(st, n.Body.List, k) })
			})
		}
		p.post = func(st *State, k func(*State)) {
			st.setVar(iterV, intVal(Add(st.vars[iterV].t(), idxNum(1))))
			k(st)
		}
		p.dec = func(st *State) *Term { return Sub(length, st.vars[iterV].t()) }
		p.invs = func(st *State) []*Term {
			i := st.vars[iterV].t()
			return []*Term{iLe(idxNum(0), i), iLe(i, length)}
		}
		x.loop(st, p, k)
	}
	switch u := under(t).(type) {
	case *types.Slice:
		x.ev(st, n.X, func(st *State, v Val) {
			loopOver(st, v.len(), func(st *State, i *Term) Val {
				return st.elemAbs(u.Elem(), v.arr(), Add(v.off(), i))
			}, map[string]Val{"rng": v})
		})
	case *types.Array:
		x.ev(st, n.X, func(st *State, v Val) {
			loopOver(st, idxNum(u.Len()), func(st *State, i *Term) Val { return x.arrayAt(v, i) }, map[string]Val{"rng": v})
		})
	case *types.Map:
		x.ev(st, n.X, func(st *State, v Val) { x.rangeMap(st, n, v, u, setVar, k) })
	default:
		fail("%s: range over %s", x.pos(n.Pos()), t)
	}
}

func (x *Exec) arrayAt(v Val, i *Term) Val {
	el := under(v.T).(*types.Array).Elem()
	var ts []*Term
	for k, c := range comps(el) {
		t := Select(v.ts[k], i)
		compRange(t, c)
		ts = append(ts, t)
	}
	return mkVal(el, ts)
}

// rangeMap: each iteration visits an arbitrary not yet visited key of the (current) domain.
func (x *Exec) rangeMap(st *State, n *ast.RangeStmt, m Val, mt *types.Map, setVar func(*State, ast.Expr, Val, func(*State)), k func(*State, Outcome)) {
	ks := comps(mt.Key())
	if len(ks) != 1 {
		fail("map key with several components")
	}
	vs := SArr(ks[0].sort, SBool)
	mk := func(t *Term) Val { return Val{K: KScalar, ts: []*Term{t}, spec: true, T: nil} }
	visG := "visited·" + itoa(st.fr.fi.loops[n])
	st.setGhost(visG, mk(ConstArr(vs, False)))
	spec, key := x.loopSpec(st, n)
	if spec == nil {
		// constant table: expand over its literal keys
		fail("%s: range over map needs an invariant (loop %s)", x.pos(n.Pos()), key)
	}
	p := &loopParts{node: n, pos: n.Body.Lbrace + 1}
	p.cond = func(st *State, k func(*State, *Term)) {
		more := Const(freshName("more"), SBool)
		kb := Const(freshName("k")+"?", ks[0].sort)
		dom := x.mapDomArr(st, m, mt)
		// no more keys: every key of the domain has been visited
		done := Quant("forall", []*Term{kb}, Imp(Select(dom, kb), Select(st.ghost[visG].t(), kb)), [][]*Term{{Select(dom, kb)}})
		st.assume(Imp(Not(more), done))
		k(st, more)
	}
	p.body = func(st *State, k func(*State, Outcome)) {
		kv := freshVal("key", mt.Key())
		st.valFacts(kv)
		st.assume(And(Ne(m.t(), Num(0)), Select(x.mapDomArr(st, m, mt), kv.t())))
		st.assume(Not(Select(st.ghost[visG].t(), kv.t())))
		st.setGhost(visG, mk(Store(st.ghost[visG].t(), kv.t(), True)))
		setVar(st, n.Key, kv, func(st *State) {
			if n.Value == nil {
				x.block(st, n.Body.List, k)
				return
			}
			setVar(st, n.Value, x.mapRead(st, m, mt, kv.t()), func(st *State) { x.block(st, n.Body.List, k) })
		})
	}
	p.post = func(st *State, k func(*State)) { k(st) }
	x.loopMap(st, p, visG, spec, k)
}

func (x *Exec) loopMap(st *State, p *loopParts, visG string, spec *LoopSpec, k func(*State, Outcome)) {
	if x.refusing != "" {
		fail("loop before a refusal")
	}
	if spec.nodec == "" {
		spec.nodec = "range over a finite map"
	}
	p.dec = nil
	p.visG = visG
	x.loop(st, p, k)
}

// ---- lemma uses, asserts and ghost updates ----

func (x *Exec) applyUses(st *State, env *Env, pos string) {
	for _, u := range x.con.uses {
		if u.pos != pos {
			continue
		}
		x.usePosHit[pos] = true
		for _, it := range u.items {
			st.assume(x.lemmaInst(env, it, nil))
		}
	}
}

func (x *Exec) lemmaInst(env *Env, it *SExpr, guard func(*Env) *Term) *Term {
	if it.op == "call" && (it.name == "all" || it.name == "forall") {
		// quantified use:  all(i, lo, hi, lemma(...)) / forall(x, lemma(..))
		n := len(it.args) - 1
		ne := env
		var bvs []*Term
		rg := True
		if it.name == "all" {
			freshCount++
			bv := Const(fmt.Sprintf("%s?%d", it.args[0].name, freshCount), idxSort())
			bvs = append(bvs, bv)
			rg = And(iLe(env.intE(it.args[1]), bv), iLt(bv, env.intE(it.args[2])))
			ne = env.with(it.args[0].name, sInt(bv))
		} else {
			for _, v := range it.args[:n] {
				freshCount++
				bv := Const(fmt.Sprintf("%s?%d", v.name, freshCount), sortByName(v.src))
				bvs = append(bvs, bv)
				ne = ne.with(v.name, sInt(bv))
			}
		}
		x.noFacts++
		b := x.lemmaInst(ne, it.args[n], guard)
		x.noFacts--
		return mkQuant("forall", bvs, Imp(rg, b), true)
	}
	if it.op == "bin" && it.name == "==>" {
		return Imp(env.goalE(it.args[0]), x.lemmaInst(env, it.args[1], guard))
	}
	lm := x.db.lemmas[it.name]
	if it.op != "call" || lm == nil {
		fail("use: no lemma %s", it)
	}
	x.lemUsed[it.name] = true
	if len(lm.params) != len(it.args) {
		fail("use: %s expects %d arguments", it.name, len(lm.params))
	}
	e := &Env{x: x, st: env.st, cur: env.cur, old: env.old, vals: map[string]Val{}, pkg: env.pkg}
	var defs []*Term
	for i, p := range lm.params {
		e.vals[p] = env.eval(it.args[i])
		x.coerceParam(e, p, lm.psorts[i])
		if v := e.vals[p]; lm.psorts[i] == "arr" && x.noFacts == 0 && hasIte(v.ts[0]) {
			// a name for the array, so that patterns over it are legal
			c := x.named[v.ts[0]]
			if c == nil {
				c = Const(freshName("array"), v.ts[0].sort)
				x.named[v.ts[0]] = c
				x.byteArr[c] = x.isBytes(v.ts[0])
			}
			defs = append(defs, Eq(c, v.ts[0]))
			v.ts = []*Term{c}
			e.vals[p] = v
		}
	}
	var rs, es []*Term
	for _, r := range lm.requires {
		rs = append(rs, e.goalE(r.e))
	}
	for _, r := range lm.ensures {
		es = append(es, e.hypE(r.e))
	}
	if guard != nil && x.con == lm {
		rs = append(rs, guard(e))
	}
	return And(append(defs, Imp(And(rs...), And(es...)))...)
}

func hasIte(t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(t *Term) bool {
		if t.op == "ite" {
			return true
		}
		if len(t.args) == 0 || seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (x *Exec) coerceParam(e *Env, p, sort string) {
	if strings.HasPrefix(sort, "@") {
		return
	}
	v := e.vals[p]
	if sort == "val" || sort == "slice" {
		return
	}
	want := sortByName(sort)
	if len(v.ts) == 0 || v.ts[0].sort != want {
		if v.K == KScalar || v.K == KPtr {
			v = sInt(e.lift(v))
			e.vals[p] = v
		}
		if len(v.ts) == 0 || v.ts[0].sort != want {
			fail("lemma argument %s: sort mismatch", p)
		}
	}
	if sort == "arr" && !bvMode && !x.isBytes(e.vals[p].ts[0]) {
		fail("lemma argument %s: not known to be a byte array", p)
	}
}

// isBytes: every element of the array term lies in 0..255.
func (x *Exec) isBytes(t *Term) bool {
	switch {
	case x.byteArr[t]:
		return true
	case t.op == "const" && strings.HasPrefix(t.name, "ghost:"):
		n := strings.TrimPrefix(t.name, "ghost:")
		if i := strings.IndexByte(n, '!'); i >= 0 {
			n = n[:i]
		}
		return x.db.ghosts[n].sort == "arr" // setGhosts stores only byte arrays in it
	case t.op == "store":
		lo, hi := bounds(t.args[2])
		return lo != nil && hi != nil && lo.Sign() >= 0 && hi.BitLen() <= 8 && x.isBytes(t.args[0])
	case t.op == "app" && strings.HasPrefix(t.name, "spec.") && x.db.defs[strings.TrimPrefix(t.name, "spec.")] != nil && x.db.defs[strings.TrimPrefix(t.name, "spec.")].ret == "arr":
		return true // declared to give byte arrays
	case t.op == "ite":
		return x.isBytes(t.args[1]) && x.isBytes(t.args[2])
	}
	return false
}

func (x *Exec) checkAsserts(st *State, env *Env, pos string, p token.Pos) {
	for _, a := range x.con.asserts {
		if a.pos == pos {
			x.usePosHit[pos] = true
			x.oblige(st, env.goalE(a.c.e), "assert", "at "+pos+": "+a.c.e.src, p)
		}
	}
}

func (x *Exec) setGhosts(st *State, env *Env, pos string) {
	for _, g := range x.con.ghosts {
		if g.pos == pos {
			x.usePosHit[pos] = true
			e := *env
			e.hyp = false
			v := e.eval(g.e)
			if x.db.ghosts[g.name].sort == "arr" && !x.isBytes(v.ts[0]) {
				fail("ghost %s: not known to be a byte array", g.name)
			}
			st.setGhost(g.name, st.litVal(v))
			x.noteGhost(st, g.name)
		}
	}
}

func (x *Exec) noteGhost(st *State, name string) {
	if strings.HasPrefix(name, "$") {
		return
	}
	st.noteWriteR(WriteRec{key: "ghost:" + name, ptr: Num(0)})
}

func (x *Exec) runGhost(st *State, pos string) {
	env := x.fnEnv(st)
	x.applyUses(st, env, pos)
	x.setGhosts(st, env, pos)
	x.checkAsserts(st, env, pos, x.fi.decl.Pos())
}

// ---- lemmas ----

func (x *Exec) verifyLemma(lm *Contract) {
	bvMode = lm.mode == "bv"
	x.con = lm
	st := x.newState(&Frame{})
	env := &Env{x: x, st: st, cur: st, vals: map[string]Val{}}
	for _, p := range x.l.order {
		env.pkg = p
	}
	env.pkg = nil
	for i, p := range lm.params {
		s := lm.psorts[i]
		switch {
		case s == "slice":
			v := freshVal(p, types.NewSlice(types.Typ[types.Uint8]))
			st.valFacts(v)
			env.vals[p] = v
		case strings.HasPrefix(s, "@"):
			t := x.typeByName(s[1:])
			v := freshVal(p, t)
			st.valFacts(v)
			env.vals[p] = v
		default:
			k := Const(freshName(p), sortByName(s))
			if s == "arr" {
				x.byteArr[k] = true
				x.intArr[k] = rng{Num(0).num, Num(255).num}
			}
			v := sInt(k)
			if s == "bool" {
				v = sBool(k)
			}
			env.vals[p] = v
		}
	}
	for _, r := range lm.requires {
		st.assume(env.hypE(r.e))
	}
	if st.infeasible() {
		fail("lemma hypotheses are contradictory")
	}
	var m0 *Term
	if lm.induct != nil {
		m0 = env.intE(lm.induct)
	}
	guard := func(e *Env) *Term {
		if m0 == nil {
			fail("lemma %s uses itself without an induction measure", lm.key)
		}
		m1 := e.intE(lm.induct)
		return And(iLe(NumOf(Num(0).num, m1.sort), m1), iLt(m1, m0))
	}
	for _, u := range lm.uses {
		if u.pos != "" {
			continue
		}
		for _, it := range u.items {
			if ln := lemmaName(it); ln != lm.key {
				if x.lemmaIndex(ln) >= x.lemmaIndex(lm.key) {
					fail("lemma %s uses later lemma %s", lm.key, ln)
				}
			}
			st.assume(x.lemmaInst(env, it, guard))
		}
	}
	for _, a := range lm.asserts {
		x.obl0(st, env.goalE(a.c.e), "assert", a.c.e.src, lm)
	}
	for i, e := range lm.ensures {
		nm := e.label
		if nm == "" {
			nm = fmt.Sprintf("ensures#%d", i+1)
		}
		x.obl0(st, env.goalE(e.e), "lemma", nm+": "+e.e.src, lm)
	}
}

func (x *Exec) lemmaIndex(n string) int {
	for i, s := range x.db.lemmaSeq {
		if s == n {
			return i
		}
	}
	return -1
}

func lemmaName(it *SExpr) string {
	switch {
	case it.op == "call" && (it.name == "all" || it.name == "forall"):
		return lemmaName(it.args[len(it.args)-1])
	case it.op == "bin":
		return lemmaName(it.args[1])
	}
	return it.name
}

func (x *Exec) obl0(st *State, g *Term, kind, name string, lm *Contract) {
	o := &Obl{kind: kind, name: name, pos: lm.file + ":" + lm.key, facts: st.facts, goal: g}
	if g == True || st.quick(g) {
		o.status, o.solver = "proved", "simplifier"
	}
	x.obls = append(x.obls, o)
	st.assume(g)
}

// vacOn (development): report call sites after which every state is contradictory.
var vacOn = os.Getenv("GOVC_VAC") != ""
