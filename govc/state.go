package main

// Symbolic state: variables, heap maps, path facts.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"sort"
)

type Facts struct {
	prev *Facts
	t    *Term
	n    int
}

type Deferred struct {
	run func(st *State, k func(*State))
}

type Frame struct {
	fi      *FuncInfo
	sub     map[*types.TypeParam]types.Type
	defers  []Deferred
	results []*types.Var // named results (or nil)
	sig     *types.Signature
	parent  *Frame
	callPos token.Pos
	lit     *ast.FuncLit
}

type State struct {
	x      *Exec
	vars   map[*types.Var]Val
	ghost  map[string]Val
	heap   map[string]*Term
	top    *Term // all allocated ids are < top
	facts  *Facts
	fr     *Frame
	loops  []*LoopCtx
	dead   bool
	merged int
}

func (st *State) clone() *State {
	n := *st
	n.vars = make(map[*types.Var]Val, len(st.vars))
	for k, v := range st.vars {
		n.vars[k] = v
	}
	n.ghost = make(map[string]Val, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	n.heap = make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	f := *st.fr
	f.defers = append([]Deferred{}, st.fr.defers...)
	n.fr = &f
	n.loops = append([]*LoopCtx{}, st.loops...)
	return &n
}

// snapshot for old(): heap only matters, but keep everything
func (st *State) snap() *State { return st.clone() }

func (st *State) assume(t *Term) {
	if t == True || st.x.noFacts > 0 {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			st.assume(a)
		}
		return
	}
	if t == False {
		st.dead = true
	}
	n := 1
	if st.facts != nil {
		n = st.facts.n + 1
		if st.facts.t == t {
			return
		}
	}
	st.facts = &Facts{st.facts, t, n}
}

func (f *Facts) list(until *Facts) []*Term {
	var out []*Term
	for ; f != nil && f != until; f = f.prev {
		out = append(out, f.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---- quick proving ----

func (st *State) quick(g *Term) bool {
	if g == True || st.dead {
		return true
	}
	if g.op == "and" {
		for _, a := range g.args {
			if !st.quick(a) {
				return false
			}
		}
		return true
	}
	for f := st.facts; f != nil; f = f.prev {
		if f.t == g {
			return true
		}
	}
	if g.op == "<=" {
		gl := linOf(g.args[0])
		gs := g.args[0]
		for f := st.facts; f != nil; f = f.prev {
			if f.t.op != "<=" || f.t.args[0].sort != SInt {
				continue
			}
			fl := f.t.args[0]
			hit := false
			if fl.op == "+" {
				for _, a := range fl.args {
					b := a
					if a.op == "*c" {
						b = a.args[1]
					}
					if _, ok := gl.m[b]; ok {
						hit = true
						break
					}
				}
			} else {
				b := fl
				if fl.op == "*c" {
					b = fl.args[1]
				}
				_, hit = gl.m[b]
			}
			if !hit {
				continue
			}
			d := Sub(gs, fl)
			if _, hi := bounds(d); hi != nil && hi.Sign() <= 0 {
				return true
			}
		}
	}
	return false
}

func (st *State) prove(g *Term) bool {
	if st.quick(g) {
		return true
	}
	if g == False {
		return st.dead
	}
	if g.hasQ || g.sort != SBool {
		return false
	}
	if st.x.noOracle {
		return false
	}
	return st.x.oracle(st, g)
}

// infeasible reports that the facts are contradictory.
func (st *State) infeasible() bool {
	if st.dead {
		return true
	}
	if st.x.noOracle || st.x.con != nil && st.x.con.opts["lazy"] != "" {
		return false
	}
	return st.x.oracle(st, False)
}

// ---- heap ----

func heapSort(c *Sort) *Sort { return SArr(SInt, c) }

func (st *State) heapGet(key string, s *Sort) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	t := Const("H0:"+key, s)
	if _, ok := st.x.baseTop[t]; !ok {
		st.x.baseTop[t] = st.x.top0
	}
	st.heap[key] = t
	st.x.heapSorts[key] = s
	return t
}

func baseOf(h *Term) []*Term {
	switch h.op {
	case "store":
		return baseOf(h.args[0])
	case "ite":
		return append(baseOf(h.args[1]), baseOf(h.args[2])...)
	}
	return []*Term{h}
}

// loadFacts adds typing facts for a freshly loaded component value.
func (st *State) compFacts(t *Term, c Comp, guard *Term) {
	if t.isNum() {
		return
	}
	compRange(t, c)
	switch c.role {
	case "ptr", "arr", "data":
		if t.op == "ite" {
			for _, a := range t.args[1:] {
				st.compFacts(a, c, guard)
			}
			return
		}
		if !st.x.allocated[t] {
			st.assume(Imp(guard, Lt(t, st.top)))
		}
	}
}

func (st *State) baseFacts(h, p, val *Term, c Comp, inner *Term) {
	if c.role != "ptr" && c.role != "arr" && c.role != "data" {
		return
	}
	for _, b := range baseOf(h) {
		if tp, ok := st.x.baseTop[b]; ok {
			v := Select(b, p)
			if inner != nil {
				for _, ib := range baseOf(v) {
					w := Select(ib, inner)
					if !w.isNum() && w.op != "ite" {
						compRange(w, c)
						st.assume(Imp(Lt(p, tp), Lt(w, tp)))
					}
				}
				continue
			}
			if v.isNum() || v.op == "ite" {
				continue
			}
			compRange(v, c)
			st.assume(Imp(Lt(p, tp), Lt(v, tp)))
		}
	}
}

func (st *State) sliceFacts(v Val) {
	if v.K != KSlice || v.via != nil {
		return
	}
	if bvMode {
		for _, t := range []*Term{v.off(), v.len(), v.cap()} {
			if !t.isNum() {
				st.assume(BVCmp("bvule", t, BVNum(pow2(48), 64)))
			}
		}
		st.assume(iLe(v.len(), v.cap()))
		if !v.arr().isNum() {
			st.assume(Imp(Eq(v.arr(), Num(0)), Eq(v.cap(), idxNum(0))))
		}
		return
	}
	st.assume(Le(v.len(), v.cap()))
	if !v.arr().isNum() {
		st.assume(Imp(Eq(v.arr(), Num(0)), Eq(v.cap(), Num(0))))
	}
}

func (st *State) valFacts(v Val) { st.valFactsG(v, True) }

func (st *State) valFactsG(v Val, guard *Term) {
	switch v.K {
	case KStruct, KTuple:
		for _, f := range v.fs {
			st.valFactsG(f, guard)
		}
		return
	case KSlice:
		st.sliceFacts(v)
	case KFunc:
		return
	}
	if v.T == nil || v.via != nil {
		return
	}
	cs := comps(v.T)
	for i, c := range cs {
		if i < len(v.ts) {
			st.compFacts(v.ts[i], c, guard)
		}
	}
	if v.K == KIface {
		// nil interface has nil data
		if !v.ts[0].isNum() {
			st.assume(Imp(Eq(v.ts[0], Num(0)), Eq(v.ts[1], Num(0))))
		}
	}
}

func (st *State) loadAt(prefix string, p *Term, t types.Type) Val {
	cs := comps(t)
	ts := make([]*Term, len(cs))
	for i, c := range cs {
		h := st.heapGet(prefix+c.suf, heapSort(c.sort))
		ts[i] = Select(h, p)
		compRange(ts[i], c)
		st.baseFacts(h, p, ts[i], c, nil)
	}
	v := mkVal(t, ts)
	st.valFactsG(v, st.below(p))
	return v
}

// below: guard "p is allocated" for loads through p
func (st *State) below(p *Term) *Term {
	if st.x.allocated[p] || p.isNum() {
		return True
	}
	return Lt(p, st.top)
}

func (st *State) storeAt(prefix string, p *Term, v Val, t types.Type) {
	cs := comps(t)
	ts := flatten(v)
	if len(ts) != len(cs) {
		fail("store: component mismatch for %v", t)
	}
	for i, c := range cs {
		key := prefix + c.suf
		h := st.heapGet(key, heapSort(c.sort))
		st.noteWrite(key, p, nil)
		st.heap[key] = Store(h, p, ts[i])
	}
}

func elemPrefix(t types.Type) string { return "elem:" + typeKey(t) }

// elemAbs reads element at absolute index i of array id a.
func (st *State) elemAbs(t types.Type, a, i *Term) Val {
	cs := comps(t)
	ts := make([]*Term, len(cs))
	for k, c := range cs {
		h := st.heapGet(elemPrefix(t)+c.suf, heapSort(SArr(idxSort(), c.sort)))
		in := Select(h, a)
		st.markBytes(c, in)
		ts[k] = Select(in, i)
		compRange(ts[k], c)
		st.baseFacts(h, a, ts[k], c, i)
	}
	v := mkVal(t, ts)
	st.valFactsG(v, st.below(a))
	return v
}

func (st *State) setElemAbs(t types.Type, a, i *Term, v Val) {
	cs := comps(t)
	ts := flatten(v)
	for k, c := range cs {
		key := elemPrefix(t) + c.suf
		h := st.heapGet(key, heapSort(SArr(idxSort(), c.sort)))
		st.noteWrite(key, a, i)
		in := Select(h, a)
		st.heap[key] = Store(h, a, Store(in, i, ts[k]))
	}
}

// inner array terms of slice's backing array
func (st *State) innerArrs(t types.Type, a *Term) []*Term {
	var out []*Term
	for _, c := range comps(t) {
		h := st.heapGet(elemPrefix(t)+c.suf, heapSort(SArr(idxSort(), c.sort)))
		in := Select(h, a)
		st.markBytes(c, in)
		out = append(out, in)
	}
	return out
}

func (st *State) markBytes(c Comp, in *Term) {
	if c.role != "int" || c.sort != SInt {
		return
	}
	if _, ok := st.x.intArr[in]; !ok {
		lo, hi := intRange(c.t)
		st.x.intArr[in] = rng{lo, hi}
		if hi.Cmp(big.NewInt(255)) == 0 && lo.Sign() == 0 {
			st.x.byteArr[in] = true
		}
	}
}

// alloc returns a fresh id.
func (st *State) alloc(what string) *Term {
	id := Const(freshName("new:"+what), SInt)
	for _, d := range st.x.disc {
		d.top = true
	}
	SetRange(id, big.NewInt(1), nil)
	st.x.allocated[id] = true
	// id == top: deterministic bump keeps ids distinct
	st.assume(Eq(id, st.top))
	st.top = Add(id, Num(1))
	return id
}

// ---- write tracking ----

type WriteRec struct {
	key string
	ptr *Term
	idx *Term // absolute element index or nil (whole)
	lo  *Term
	hi  *Term
}

// noteWrite checks the frame (modifies) and records the write for loop discovery.
func (st *State) noteWrite(key string, ptr, idx *Term) {
	st.noteWriteR(WriteRec{key: key, ptr: ptr, idx: idx})
}

func (st *State) noteWriteR(w WriteRec) {
	x := st.x
	for _, d := range x.disc {
		d.add(w)
	}
	if x.discovering() || !x.hasFrame {
		return
	}
	x.checkFrame(st, w)
}

// ---- discovery log ----

type WriteLog struct {
	keys  map[string][]WriteRec
	vars  map[*types.Var]bool
	ghost map[string]bool
	top   bool
	mark  int
	hmark int
}

func newLog() *WriteLog {
	return &WriteLog{keys: map[string][]WriteRec{}, vars: map[*types.Var]bool{}, ghost: map[string]bool{}, mark: freshCount}
}

func (d *WriteLog) add(w WriteRec) {
	for _, o := range d.keys[w.key] {
		if o.ptr == w.ptr {
			return
		}
	}
	d.keys[w.key] = append(d.keys[w.key], w)
}

func (x *Exec) discovering() bool { return len(x.disc) > 0 }

func sortedKeys(m map[string][]WriteRec) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func sortedVars(m map[*types.Var]bool) []*types.Var {
	var vs []*types.Var
	for v := range m {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool {
		if vs[i].Pos() != vs[j].Pos() {
			return vs[i].Pos() < vs[j].Pos()
		}
		return vs[i].Name() < vs[j].Name()
	})
	return vs
}

func (st *State) setVar(v *types.Var, val Val) {
	for _, d := range st.x.disc {
		d.vars[v] = true
	}
	st.vars[v] = val
}

func (st *State) setGhost(n string, val Val) {
	for _, d := range st.x.disc {
		d.ghost[n] = true
	}
	st.ghost[n] = val
}

// ---- merging ----

func iteVal(c *Term, a, b Val) Val {
	if a.K != b.K {
		// closures / pointers with differing representation
		fail("merge of different value kinds")
	}
	r := a
	switch a.K {
	case KStruct, KTuple:
		r.fs = nil
		for i := range a.fs {
			r.fs = append(r.fs, iteVal(c, a.fs[i], b.fs[i]))
		}
		return r
	case KFunc:
		if a.fn != b.fn {
			fail("merge of different closures")
		}
		return a
	}
	if a.K == KPtr && a.prefix != b.prefix {
		pa, pb := a.prefix, b.prefix
		if pa == "" {
			pa = defPrefix(a.T)
		}
		if pb == "" {
			pb = defPrefix(b.T)
		}
		if pa != pb {
			fail("merge of interior pointers")
		}
	}
	if a.via != b.via {
		fail("merge of array slices")
	}
	r.ts = nil
	for i := range a.ts {
		r.ts = append(r.ts, Ite(c, a.ts[i], b.ts[i]))
	}
	return r
}

func sameVal(a, b Val) bool {
	if a.K != b.K || len(a.ts) != len(b.ts) || len(a.fs) != len(b.fs) || a.prefix != b.prefix || a.via != b.via || a.fn != b.fn {
		return false
	}
	for i := range a.ts {
		if a.ts[i] != b.ts[i] {
			return false
		}
	}
	for i := range a.fs {
		if !sameVal(a.fs[i], b.fs[i]) {
			return false
		}
	}
	return true
}

// mergeStates joins states that share the fact prefix base.
func mergeStates(sts []*State, base *Facts, keep map[*types.Var]Val) *State {
	if len(sts) == 1 {
		return sts[0]
	}
	a := sts[0]
	for _, b := range sts[1:] {
		a = merge2(a, b, base, keep)
	}
	return a
}

func merge2(a, b *State, base *Facts, keep map[*types.Var]Val) *State {
	fa, fb := a.facts.list(base), b.facts.list(base)
	// longest common prefix stays unguarded
	i := 0
	for i < len(fa) && i < len(fb) && fa[i] == fb[i] {
		i++
	}
	var g *Term
	if i < len(fa) && i < len(fb) && Not(fa[i]) == fb[i] {
		g = fa[i]
	} else {
		g = Const(freshName("path"), SBool)
	}
	m := a.clone()
	m.facts = base
	inB := map[*Term]bool{}
	for _, t := range fb {
		inB[t] = true
	}
	inA := map[*Term]bool{}
	for j, t := range fa {
		inA[t] = true
		if j < i || inB[t] {
			m.assume(t)
		} else {
			m.assume(Imp(g, t))
		}
	}
	for _, t := range fb {
		if !inA[t] {
			m.assume(Imp(Not(g), t))
		}
	}
	m.top = Ite(g, a.top, b.top)
	if m.top != a.top {
		nt := Const(freshName("top"), SInt)
		SetRange(nt, big.NewInt(1), nil)
		m.assume(Le(a.top, nt))
		m.assume(Le(b.top, nt))
		m.top = nt
	}
	m.vars = map[*types.Var]Val{}
	for k, va := range a.vars {
		vb, ok := b.vars[k]
		if !ok {
			continue
		}
		if sameVal(va, vb) {
			m.vars[k] = va
			continue
		}
		if keep != nil {
			if _, ok := keep[k]; !ok {
				continue
			}
		}
		m.vars[k] = iteVal(g, va, vb)
	}
	for k, va := range a.ghost {
		if vb, ok := b.ghost[k]; ok && !sameVal(va, vb) {
			m.ghost[k] = iteVal(g, a.litVal(va), b.litVal(vb))
		}
	}
	keys := map[string]bool{}
	for k := range a.heap {
		keys[k] = true
	}
	for k := range b.heap {
		keys[k] = true
	}
	for k := range keys {
		s := a.x.heapSorts[k]
		m.heap[k] = Ite(g, a.heapGet(k, s), b.heapGet(k, s))
	}
	if len(a.fr.defers) != len(b.fr.defers) {
		fail("merge with different defers")
	}
	return m
}

// litVal resolves the conditions in a ghost value that the facts decide literally.
func (st *State) litVal(v Val) Val {
	if v.K != KScalar || len(v.ts) != 1 || !hasIte(v.ts[0]) {
		return v
	}
	m := map[*Term]*Term{}
	for f := st.facts; f != nil; f = f.prev {
		if f.t.hasQ {
			continue
		}
		if f.t.op == "not" {
			m[f.t.args[0]] = False
		} else {
			m[f.t] = True
		}
	}
	delete(m, v.ts[0])
	r := v
	r.ts = []*Term{Subst(v.ts[0], m)}
	return r
}

func (st *State) dbg() string { return fmt.Sprintf("%d facts", st.facts.n) }
