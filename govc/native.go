package main

// Models of library functions that need more than a contract.

import (
	"go/ast"
	"go/types"
)

type native func(x *Exec, st *State, c *ast.CallExpr, k func(*State, Val))

var natives map[string]native

func init() {
	natives = map[string]native{
		"fmt.Printf":          natPrint,
		"fmt.Println":         natPrint,
		"sync.Pool.Get":       natPoolGet,
		"sync.Pool.Put":       natPoolPut,
		"sort.Slice":          natSort,
		"sort.SliceStable":    natSort,
		"fmt.Errorf":          natSink,
		"fmt.Sprintf":         natSink,
		"hex.EncodeToString":  natSink,
		"strconv.Itoa":        natSink,
		"errors.New":          natSink,
		"time.Time.UnixMilli": natSink,
		"time.Time.UnixNano":  natSink,
		"time.Now":            natSink,
	}
}

func natPrint(x *Exec, st *State, c *ast.CallExpr, k func(*State, Val)) {
	x.trusted["fmt.Printf (no effect on program state)"] = true
	x.evs(st, c.Args, func(st *State, vs []Val) {
		k(st, Val{K: KTuple, fs: []Val{intVal(Const(freshName("n"), idxSort())), {T: types.Universe.Lookup("error").Type(), K: KIface, ts: []*Term{Num(0), Num(0)}}}})
	})
}

// natSink evaluates the arguments (for their checks) and returns arbitrary results; an error result is non-nil.
func natSink(x *Exec, st *State, c *ast.CallExpr, k func(*State, Val)) {
	f := callee(st.fr.fi.pkg.info, c.Fun)
	key := funcKey(f)
	x.evs(st, c.Args, func(st *State, vs []Val) {
		x.trusted[key+" (arbitrary result, no effect; errors are non-nil)"] = true
		sig := f.Type().(*types.Signature)
		var rv []Val
		for i := 0; i < sig.Results().Len(); i++ {
			v := freshVal(f.Name(), sig.Results().At(i).Type())
			if v.K == KIface {
				id := st.alloc("err")
				v.ts[1] = id
				st.assume(Ne(v.ts[0], Num(0)))
			} else {
				st.valFacts(v)
			}
			rv = append(rv, v)
		}
		k(st, Val{K: KTuple, fs: rv})
	})
}

// A package-level sync.Pool hands out, exclusively, what its New makes or an object given back earlier. The spec
// definition pool_<variable>(p) is checked for every object given back and so holds of every recycled one.
func (x *Exec) poolOf(st *State, c *ast.CallExpr) (*types.Var, *ast.FuncLit, *GlobalInit) {
	x.trusted["sync.Pool (Get returns New's result or an object put back earlier, which nobody uses after putting it back)"] = true
	sel, _ := c.Fun.(*ast.SelectorExpr)
	if sel == nil {
		fail("%s: sync.Pool method", x.pos(c.Pos()))
	}
	var id *ast.Ident
	switch e := sel.X.(type) {
	case *ast.Ident:
		id = e
	case *ast.SelectorExpr:
		id = e.Sel
	}
	if id == nil {
		fail("%s: sync.Pool that is not a package variable", x.pos(c.Pos()))
	}
	v, _ := st.fr.fi.pkg.info.Uses[id].(*types.Var)
	gi := x.l.globals[v]
	if gi == nil || gi.assigned || x.db.defs["pool_"+id.Name] == nil {
		fail("%s: sync.Pool %s has no spec definition pool_%s or is assigned", x.pos(c.Pos()), id.Name, id.Name)
	}
	if cl, ok := gi.expr.(*ast.CompositeLit); ok {
		for _, e := range cl.Elts {
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				if k, ok := kv.Key.(*ast.Ident); ok && k.Name == "New" {
					if f, ok := kv.Value.(*ast.FuncLit); ok {
						return v, f, gi
					}
				}
			}
		}
	}
	fail("%s: sync.Pool %s has no New literal", x.pos(c.Pos()), id.Name)
	return nil, nil, nil
}

func (x *Exec) poolInv(st *State, name string, p Val) *SExpr {
	return &SExpr{op: "call", name: "pool_" + name, args: []*SExpr{{op: "ident", name: "$pooled"}}}
}

func natPoolGet(x *Exec, st *State, c *ast.CallExpr, k func(*State, Val)) {
	v, lit, gi := x.poolOf(st, c)
	var obj types.Type
	ast.Inspect(lit.Body, func(n ast.Node) bool {
		if r, ok := n.(*ast.ReturnStmt); ok && len(r.Results) == 1 {
			obj = gi.pkg.info.TypeOf(r.Results[0])
		}
		return true
	})
	if obj == nil || kindOf(obj) != KPtr {
		fail("%s: New of %s", x.pos(c.Pos()), v.Name())
	}
	rt := x.typeOf(st, c)
	re := st.clone()
	x.callLit(st, &FuncVal{lit: lit, owner: &FuncInfo{pkg: gi.pkg}}, nil, c.Pos(), func(st *State, r Val) {
		k(st, Val{K: KTuple, fs: []Val{x.conv(st, r.fs[0], rt)}})
	})
	p := Val{T: obj, K: KPtr, ts: []*Term{re.alloc("pooled")}}
	e := x.bodyEnv(re, c.Pos())
	e.vals["$pooled"] = p
	re.assume(e.hypE(x.poolInv(re, v.Name(), p)))
	k(re, Val{K: KTuple, fs: []Val{x.conv(re, p, rt)}})
}

func natPoolPut(x *Exec, st *State, c *ast.CallExpr, k func(*State, Val)) {
	v, _, _ := x.poolOf(st, c)
	x.evs(st, c.Args, func(st *State, vs []Val) {
		e := x.bodyEnv(st, c.Pos())
		p := vs[0]
		e.vals["$pooled"] = p
		x.nonNil(st, p.ts[0], "object given back to a pool", c.Pos())
		x.oblige(st, e.goalE(x.poolInv(st, v.Name(), p)), "pool", "object given back to "+v.Name()+" satisfies pool_"+v.Name(), c.Pos())
		k(st, Val{K: KTuple})
	})
}

// natSort: the elements of the slice are permuted; afterwards no element precedes a smaller one, and for
// SliceStable equal elements keep their order. The comparison is the closure's own code, run on two arbitrary
// positions of the permuted slice; that it is a strict weak order is an obligation. The permutation (by absolute
// position) is left in the ghosts sortP (from new to old position) and sortQ (from old to new), where declared.
func natSort(x *Exec, st *State, c *ast.CallExpr, k func(*State, Val)) {
	f := callee(st.fr.fi.pkg.info, c.Fun)
	stable := f.Name() == "SliceStable"
	x.trusted["sort."+f.Name()+" (permutes the slice into an order the comparison agrees with)"] = true
	if idxSort() != SInt {
		fail("%s: sort in bit-vector mode", x.pos(c.Pos()))
	}
	x.evs(st, c.Args, func(st *State, vs []Val) {
		s, less := vs[0], vs[1]
		if s.K == KIface || s.via != nil {
			fail("%s: sort of something other than a slice", x.pos(c.Pos()))
		}
		el := under(s.T).(*types.Slice).Elem()
		lo, hi := s.off(), Add(s.off(), s.len())
		ia := SArr(SInt, SInt)
		P, Q := Const(freshName("sortP"), ia), Const(freshName("sortQ"), ia)
		in := func(t *Term) *Term { return And(Le(lo, t), Lt(t, hi)) }
		old := st.innerArrs(el, s.arr())
		var nw []*Term
		for j, cc := range comps(el) {
			a := Const(freshName("sorted"), old[j].sort)
			if g, ok := x.intArr[old[j]]; ok {
				x.intArr[a] = g
			}
			st.markBytes(cc, a)
			nw = append(nw, a)
		}
		p := Const(freshName("p")+"?", SInt)
		q := Const(freshName("q")+"?", SInt)
		sp, sq := Select(P, p), Select(Q, p)
		st.assume(Quant("forall", []*Term{p}, Imp(in(p), And(in(sp), Eq(Select(Q, sp), p))), [][]*Term{{sp}}))
		st.assume(Quant("forall", []*Term{p}, Imp(in(p), And(in(sq), Eq(Select(P, sq), p))), [][]*Term{{sq}}))
		for j := range nw {
			st.assume(Quant("forall", []*Term{p}, Eq(Select(nw[j], p), Ite(in(p), Select(old[j], sp), Select(old[j], p))), [][]*Term{{Select(nw[j], p)}}))
			st.assume(Quant("forall", []*Term{p}, Imp(in(p), Eq(Select(nw[j], sq), Select(old[j], p))), [][]*Term{{Select(old[j], p)}}))
		}
		x.setInner(st, el, s.arr(), nw, lo, hi)
		for n, t := range map[string]*Term{"sortP": P, "sortQ": Q} {
			if _, ok := x.db.ghosts[n]; ok {
				st.setGhost(n, Val{K: KScalar, ts: []*Term{t}, spec: true})
				x.noteGhost(st, n)
			}
		}
		// the comparison of positions a and b
		var a, b *Term
		cmp := func(st *State, a, b *Term) *Term {
			t := st.clone()
			var rs []*State
			var vs []Val
			at := func(p *Term) Val { return scalar(types.Typ[types.Int], Sub(p, lo)) }
			x.callFunc(t, less, "sort.less", []Val{at(a), at(b)}, c, func(s *State, v Val) { rs = append(rs, s); vs = append(vs, v.fs[0]) })
			var res []*Term
			for i, s := range rs {
				if !x.sameHeap(st, s) {
					fail("%s: the comparison of sort changes memory", x.pos(c.Pos()))
				}
				if len(rs) == 1 {
					for _, f := range s.facts.list(st.facts) {
						st.assume(f)
					}
					return vs[0].ts[0]
				}
				res = append(res, And(append(s.facts.list(st.facts), vs[i].ts[0])...))
			}
			if len(rs) == 0 {
				fail("%s: the comparison of sort never returns", x.pos(c.Pos()))
			}
			return Or(res...)
		}
		t := st.clone()
		a, b = Const(freshName("sa"), SInt), Const(freshName("sb"), SInt)
		d := Const(freshName("sc"), SInt)
		t.assume(And(in(a), in(b), in(d)))
		mark := freshCount
		ab := cmp(t, a, b)
		bd, ad := Subst(ab, map[*Term]*Term{a: b, b: d}), Subst(ab, map[*Term]*Term{b: d})
		x.oblige(t, Not(Subst(ab, map[*Term]*Term{b: a})), "sort", "the comparison is irreflexive", c.Pos())
		x.oblige(t, Imp(And(ab, bd), ad), "sort", "the comparison is transitive", c.Pos())
		x.oblige(t, Imp(And(Not(ab), Not(bd)), Not(ad)), "sort", "incomparability is transitive", c.Pos())
		if !stableTerm(ab, mark) {
			fail("%s: the comparison of sort has an intermediate value", x.pos(c.Pos()))
		}
		pq, qp := Subst(ab, map[*Term]*Term{a: p, b: q}), Subst(ab, map[*Term]*Term{a: q, b: p})
		pats := [][]*Term{{Select(nw[0], p), Select(nw[0], q)}}
		st.assume(Quant("forall", []*Term{p, q}, Imp(And(Le(lo, p), Lt(p, q), Lt(q, hi)), Not(qp)), pats))
		if stable {
			st.assume(Quant("forall", []*Term{p, q}, Imp(And(Le(lo, p), Lt(p, q), Lt(q, hi)), Or(pq, Lt(Select(P, p), Select(P, q)))), pats))
		}
		k(st, Val{K: KTuple})
	})
}
