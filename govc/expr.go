package main

// Expressions and locations.

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
)

const (
	lvVar = iota
	lvField
	lvHeap
	lvElem
	lvArr
	lvMap
	lvGlobal
	lvBlank
)

type LV struct {
	kind   int
	T      types.Type
	v      *types.Var
	parent *LV
	fld    int
	prefix string
	base   *Term
	arr    *Term
	idx    *Term
	m      Val
	mt     *types.Map
	key    *Term
}

func globKey(v *types.Var) string { return "global:" + v.Pkg().Name() + "." + v.Name() }

func (x *Exec) load(st *State, lv *LV, p token.Pos) Val {
	switch lv.kind {
	case lvVar:
		v, ok := st.vars[lv.v]
		if !ok {
			fail("%s: variable %s not bound", x.pos(p), lv.v.Name())
		}
		return v
	case lvField:
		v := x.load(st, lv.parent, p)
		return v.fs[lv.fld]
	case lvHeap:
		return st.loadAt(lv.prefix, lv.base, lv.T)
	case lvElem:
		return st.elemAbs(lv.T, lv.arr, lv.idx)
	case lvArr:
		return x.arrayAt(x.load(st, lv.parent, p), lv.idx)
	case lvMap:
		return x.mapRead(st, lv.m, lv.mt, lv.key)
	case lvGlobal:
		return x.readGlobal(st, lv.v)
	}
	fail("%s: load", x.pos(p))
	return Val{}
}

func (x *Exec) store(st *State, lv *LV, v Val, p token.Pos) {
	switch lv.kind {
	case lvBlank:
	case lvVar:
		st.setVar(lv.v, v)
	case lvField:
		s := x.load(st, lv.parent, p)
		n := s
		n.fs = append([]Val{}, s.fs...)
		n.fs[lv.fld] = v
		x.store(st, lv.parent, n, p)
	case lvHeap:
		st.storeAt(lv.prefix, lv.base, v, lv.T)
	case lvElem:
		st.setElemAbs(lv.T, lv.arr, lv.idx, v)
	case lvArr:
		a := x.load(st, lv.parent, p)
		n := a
		n.ts = nil
		fs := flatten(v)
		for i, t := range a.ts {
			n.ts = append(n.ts, Store(t, lv.idx, fs[i]))
		}
		x.store(st, lv.parent, n, p)
	case lvMap:
		x.oblige(st, Ne(lv.m.t(), Num(0)), "nil-map", "assignment to nil map", p)
		x.mapWrite(st, lv.m, lv.mt, lv.key, v)
	case lvGlobal:
		st.storeAt(globKey(lv.v), Num(0), v, lv.T)
	default:
		fail("%s: store", x.pos(p))
	}
}

func (x *Exec) nonNil(st *State, p *Term, what string, pos token.Pos) {
	if x.allocated[p] {
		return
	}
	x.oblige(st, Ne(p, Num(0)), "nil", what, pos)
}

func (x *Exec) ptrLV(st *State, p Val, pos token.Pos) *LV {
	if p.K != KPtr {
		fail("%s: pointer expected", x.pos(pos))
	}
	x.nonNil(st, p.t(), "nil dereference", pos)
	return &LV{kind: lvHeap, T: ptrElem(p.T), prefix: ptrPrefix(p), base: p.t()}
}

// stepLV selects field i.
func (x *Exec) stepLV(st *State, lv *LV, i int, pos token.Pos) *LV {
	t := lv.T
	if _, ok := under(t).(*types.Pointer); ok {
		p := x.load(st, lv, pos)
		lv = x.ptrLV(st, p, pos)
		t = lv.T
	}
	s, ok := under(t).(*types.Struct)
	if !ok {
		fail("%s: field of %v", x.pos(pos), t)
	}
	f := s.Field(i)
	if lv.kind == lvHeap {
		return &LV{kind: lvHeap, T: f.Type(), prefix: lv.prefix + "." + f.Name(), base: lv.base}
	}
	return &LV{kind: lvField, T: f.Type(), parent: lv, fld: i}
}

func (x *Exec) lval(st *State, e ast.Expr, k func(*State, *LV)) {
	info := st.fr.fi.pkg.info
	switch n := e.(type) {
	case *ast.ParenExpr:
		x.lval(st, n.X, k)
		return
	case *ast.Ident:
		if n.Name == "_" {
			k(st, &LV{kind: lvBlank, T: types.Typ[types.UntypedNil]})
			return
		}
		o, _ := info.Uses[n].(*types.Var)
		if o == nil {
			o, _ = info.Defs[n].(*types.Var)
		}
		if o == nil {
			fail("%s: not a variable: %s", x.pos(e.Pos()), n.Name)
		}
		x.varLV(st, o, k)
		return
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if _, ok := info.Uses[id].(*types.PkgName); ok {
				o, _ := info.Uses[n.Sel].(*types.Var)
				if o == nil {
					fail("%s: selector", x.pos(e.Pos()))
				}
				x.varLV(st, o, k)
				return
			}
		}
		sel := info.Selections[n]
		if sel == nil || sel.Kind() != types.FieldVal {
			fail("%s: selector %s", x.pos(e.Pos()), n.Sel.Name)
		}
		path := sel.Index()
		step := func(st *State, lv *LV) {
			for _, i := range path {
				lv = x.stepLV(st, lv, i, n.Sel.Pos())
			}
			lv.T = substType(lv.T, st.fr.sub)
			k(st, lv)
		}
		bt := x.typeOf(st, n.X)
		if isPtr(bt) {
			x.ev(st, n.X, func(st *State, p Val) { step(st, x.ptrLV(st, p, n.X.Pos())) })
			return
		}
		x.lval(st, n.X, step)
		return
	case *ast.StarExpr:
		x.ev(st, n.X, func(st *State, p Val) { k(st, x.ptrLV(st, p, n.Pos())) })
		return
	case *ast.IndexExpr:
		bt := x.typeOf(st, n.X)
		switch u := under(bt).(type) {
		case *types.Slice:
			x.ev(st, n.X, func(st *State, s Val) {
				x.ev(st, n.Index, func(st *State, iv Val) {
					i := x.index(st, iv, s.len(), n.Index.Pos(), "index out of range")
					if s.via != nil {
						k(st, &LV{kind: lvArr, T: u.Elem(), parent: s.via, idx: Add(s.off(), i)})
						return
					}
					k(st, &LV{kind: lvElem, T: u.Elem(), arr: s.arr(), idx: Add(s.off(), i)})
				})
			})
			return
		case *types.Array:
			x.lval(st, n.X, func(st *State, a *LV) {
				x.ev(st, n.Index, func(st *State, iv Val) {
					i := x.index(st, iv, idxNum(u.Len()), n.Index.Pos(), "array index out of range")
					k(st, &LV{kind: lvArr, T: u.Elem(), parent: a, idx: i})
				})
			})
			return
		case *types.Map:
			x.ev(st, n.X, func(st *State, m Val) {
				x.ev(st, n.Index, func(st *State, kv Val) {
					kv = x.conv(st, kv, u.Key())
					k(st, &LV{kind: lvMap, T: u.Elem(), m: m, mt: u, key: x.mapKeyT(kv)})
				})
			})
			return
		}
	}
	fail("%s: not a location: %T", x.pos(e.Pos()), e)
}

func (x *Exec) varLV(st *State, o *types.Var, k func(*State, *LV)) {
	if g := x.l.globals[o]; g != nil || (o.Pkg() != nil && o.Parent() == o.Pkg().Scope()) {
		k(st, &LV{kind: lvGlobal, T: o.Type(), v: o})
		return
	}
	t := substType(o.Type(), st.fr.sub)
	if x.boxed(st, o) {
		p, ok := st.vars[o]
		if !ok {
			fail("variable %s not bound", o.Name())
		}
		k(st, &LV{kind: lvHeap, T: ptrElem(p.T), prefix: ptrPrefix(p), base: p.t()})
		return
	}
	k(st, &LV{kind: lvVar, T: t, v: o})
}

// idx64 brings an index value to the index sort.
func (x *Exec) idx64(st *State, v Val) *Term {
	t := v.t()
	if bvMode {
		w, s, _ := intInfo(v.T)
		if w < 64 {
			return bvExt(t, 64, s)
		}
	}
	return t
}

func (x *Exec) index(st *State, v Val, length *Term, p token.Pos, what string) *Term {
	i := x.idx64(st, v)
	if bvMode {
		// unsigned comparison covers negative values (lengths are below 2^48)
		x.oblige(st, BVCmp("bvult", i, length), "bounds", what, p)
		return i
	}
	x.oblige(st, And(Le(Num(0), i), Lt(i, length)), "bounds", what, p)
	return i
}

func (x *Exec) evs(st *State, es []ast.Expr, k func(*State, []Val)) {
	var rec func(st *State, i int, acc []Val)
	rec = func(st *State, i int, acc []Val) {
		if st.dead {
			return
		}
		if i == len(es) {
			k(st, acc)
			return
		}
		x.ev(st, es[i], func(st *State, v Val) {
			rec(st, i+1, append(acc[:i:i], v))
		})
	}
	rec(st, 0, nil)
}

// evMulti evaluates an expression that may be a call with 0 or several results.
func (x *Exec) evMulti(st *State, e ast.Expr, k func(*State, Val)) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if c, ok := e.(*ast.CallExpr); ok {
		x.call(st, c, k)
		return
	}
	x.ev(st, e, k)
}

// evCommaOk evaluates a multi-value right-hand side.
func (x *Exec) evCommaOk(st *State, e ast.Expr, n int, k func(*State, []Val)) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	switch c := e.(type) {
	case *ast.CallExpr:
		x.call(st, c, func(st *State, v Val) {
			if len(v.fs) != n {
				fail("%s: %d results expected", x.pos(e.Pos()), n)
			}
			k(st, v.fs)
		})
	case *ast.IndexExpr:
		mt, ok := under(x.typeOf(st, c.X)).(*types.Map)
		if !ok {
			fail("%s: comma-ok index", x.pos(e.Pos()))
		}
		x.ev(st, c.X, func(st *State, m Val) {
			x.ev(st, c.Index, func(st *State, kv Val) {
				kt := x.mapKeyT(x.conv(st, kv, mt.Key()))
				d := x.mapDom(st, m, mt, kt)
				k(st, []Val{x.mapRead(st, m, mt, kt), boolVal(d)})
			})
		})
	case *ast.TypeAssertExpr:
		x.ev(st, c.X, func(st *State, v Val) {
			t := x.typeOf(st, c.Type)
			ok, r := x.typeAssert(st, v, t)
			z := zeroVal(t)
			k(st, []Val{iteVal(ok, r, z), boolVal(ok)})
		})
	default:
		fail("%s: comma-ok %T", x.pos(e.Pos()), e)
	}
}

func (x *Exec) typeAssert(st *State, v Val, t types.Type) (*Term, Val) {
	if it, isI := under(t).(*types.Interface); isI {
		// satisfied iff the dynamic type implements it
		tag := v.ts[0]
		if tag.isNum() {
			dt := tagTypes[int(tag.num.Int64())]
			ok := dt != nil && types.Implements(dt, it)
			return BoolT(ok), Val{T: t, K: KIface, ts: v.ts}
		}
		fail("type assertion to interface %v", t)
	}
	ok := Eq(v.ts[0], ifaceTag(t))
	return ok, x.unbox(st, v, t)
}

func (x *Exec) unbox(st *State, v Val, t types.Type) Val {
	if kindOf(t) == KPtr {
		return Val{T: t, K: KPtr, ts: []*Term{v.ts[1]}}
	}
	return st.loadAt("box:"+typeKey(t), v.ts[1], t)
}

func (x *Exec) constVal(st *State, v constant.Value, t types.Type) Val {
	if b, ok := under(t).(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return scalar(t, BoolT(constant.BoolVal(v)))
		case b.Info()&types.IsInteger != 0:
			iv := constant.ToInt(v)
			n, ok := new(big.Int).SetString(iv.ExactString(), 10)
			if !ok {
				fail("constant %s", v)
			}
			return scalar(t, NumOf(n, intSort(t)))
		case b.Info()&types.IsFloat != 0:
			return scalar(t, Const("flt:"+v.ExactString(), SFloat))
		case b.Info()&types.IsString != 0:
			return scalar(t, strTerm(constant.StringVal(v)))
		}
	}
	fail("constant of type %v", t)
	return Val{}
}

// ev evaluates a single-valued expression.
func (x *Exec) ev(st *State, e ast.Expr, k func(*State, Val)) {
	if st.dead {
		return
	}
	info := st.fr.fi.pkg.info
	if tv, ok := info.Types[e]; ok && tv.Value != nil {
		t := substType(tv.Type, st.fr.sub)
		if _, isI := under(t).(*types.Interface); isI {
			t = types.Default(tv.Type)
		}
		k(st, x.constVal(st, tv.Value, t))
		return
	}
	switch n := e.(type) {
	case *ast.ParenExpr:
		x.ev(st, n.X, k)
	case *ast.Ident:
		if n.Name == "nil" {
			if _, ok := info.Uses[n].(*types.Nil); ok {
				k(st, nilVal)
				return
			}
		}
		switch o := info.Uses[n].(type) {
		case *types.Var:
			x.varLV(st, o, func(st *State, lv *LV) { k(st, x.load(st, lv, n.Pos())) })
		case *types.Func:
			k(st, Val{T: o.Type(), K: KFunc, fn: &FuncVal{fi: x.l.byObj[o.Origin()]}})
		default:
			fail("%s: identifier %s", x.pos(e.Pos()), n.Name)
		}
	case *ast.BasicLit:
		fail("%s: literal", x.pos(e.Pos()))
	case *ast.FuncLit:
		k(st, Val{T: x.typeOf(st, e), K: KFunc, fn: &FuncVal{lit: n, owner: st.fr.fi, sub: st.fr.sub}})
	case *ast.CompositeLit:
		x.composite(st, n, x.typeOf(st, e), k)
	case *ast.SelectorExpr:
		sel := info.Selections[n]
		if sel != nil && sel.Kind() == types.FieldVal {
			if isPtr(x.typeOf(st, n.X)) || x.addressable(st, n.X) {
				x.lval(st, e, func(st *State, lv *LV) { k(st, x.load(st, lv, n.Pos())) })
				return
			}
			x.ev(st, n.X, func(st *State, v Val) {
				for _, i := range sel.Index() {
					if v.K == KPtr {
						x.nonNil(st, v.t(), "nil dereference", n.Pos())
					}
					v = stepField(st, v, i)
				}
				if v.K == KPtr && v.prefix != "" {
					if _, isS := under(x.typeOf(st, e)).(*types.Struct); isS {
						v = st.loadAt(v.prefix, v.t(), ptrElem(v.T))
					}
				}
				k(st, v)
			})
			return
		}
		if sel != nil && sel.Kind() == types.MethodVal {
			// method value
			x.ev(st, n.X, func(st *State, r Val) {
				f := sel.Obj().(*types.Func)
				rr := r
				k(st, Val{T: x.typeOf(st, e), K: KFunc, fn: &FuncVal{fi: x.l.byObj[f.Origin()], recv: &rr}})
			})
			return
		}
		if o, ok := info.Uses[n.Sel].(*types.Func); ok {
			k(st, Val{T: o.Type(), K: KFunc, fn: &FuncVal{fi: x.l.byObj[o.Origin()]}})
			return
		}
		x.lval(st, e, func(st *State, lv *LV) { k(st, x.load(st, lv, n.Pos())) })
	case *ast.StarExpr:
		x.ev(st, n.X, func(st *State, p Val) { k(st, x.load(st, x.ptrLV(st, p, n.Pos()), n.Pos())) })
	case *ast.UnaryExpr:
		x.unary(st, n, k)
	case *ast.BinaryExpr:
		x.binary(st, n, k)
	case *ast.IndexExpr:
		bt := x.typeOf(st, n.X)
		if _, isF := under(bt).(*types.Signature); isF {
			// instantiated generic function
			if id, ok := n.X.(*ast.Ident); ok {
				o := info.Uses[id].(*types.Func)
				k(st, Val{T: x.typeOf(st, e), K: KFunc, fn: &FuncVal{fi: x.l.byObj[o.Origin()]}})
				return
			}
		}
		if b, ok := under(bt).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			x.evs(st, []ast.Expr{n.X, n.Index}, func(st *State, vs []Val) {
				ln := x.strLen(st, vs[0].t())
				i := x.index(st, vs[1], ln, n.Index.Pos(), "string index out of range")
				r := App("strbyte", intSort(types.Typ[types.Uint8]), vs[0].t(), i)
				compRange(r, Comp{role: "int", t: types.Typ[types.Uint8], sort: r.sort})
				k(st, scalar(types.Typ[types.Uint8], r))
			})
			return
		}
		if at, ok := under(bt).(*types.Array); ok && !x.addressable(st, n.X) {
			x.evs(st, []ast.Expr{n.X, n.Index}, func(st *State, vs []Val) {
				i := x.index(st, vs[1], idxNum(at.Len()), n.Index.Pos(), "array index out of range")
				k(st, x.arrayAt(vs[0], i))
			})
			return
		}
		x.lval(st, e, func(st *State, lv *LV) { k(st, x.load(st, lv, n.Pos())) })
	case *ast.SliceExpr:
		x.sliceExpr(st, n, k)
	case *ast.CallExpr:
		x.call(st, n, func(st *State, v Val) {
			if v.K == KTuple {
				if len(v.fs) != 1 {
					fail("%s: single value expected", x.pos(e.Pos()))
				}
				v = v.fs[0]
			}
			k(st, v)
		})
	case *ast.TypeAssertExpr:
		x.ev(st, n.X, func(st *State, v Val) {
			ok, r := x.typeAssert(st, v, x.typeOf(st, n.Type))
			x.oblige(st, ok, "type-assert", "type assertion holds", n.Pos())
			st.valFacts(r)
			k(st, r)
		})
	default:
		fail("%s: expression %T", x.pos(e.Pos()), e)
	}
}

func (x *Exec) strLen(st *State, s *Term) *Term {
	r := App("strlen", idxSort(), s)
	compRange(r, Comp{role: "len", sort: r.sort})
	return r
}

func (x *Exec) addressable(st *State, e ast.Expr) bool {
	info := st.fr.fi.pkg.info
	switch n := e.(type) {
	case *ast.ParenExpr:
		return x.addressable(st, n.X)
	case *ast.Ident:
		_, ok := info.Uses[n].(*types.Var)
		return ok
	case *ast.SelectorExpr:
		if sel := info.Selections[n]; sel != nil {
			return sel.Kind() == types.FieldVal && (isPtr(x.typeOf(st, n.X)) || x.addressable(st, n.X))
		}
		_, ok := info.Uses[n.Sel].(*types.Var)
		return ok
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		switch under(x.typeOf(st, n.X)).(type) {
		case *types.Slice, *types.Map:
			return true
		case *types.Array:
			return x.addressable(st, n.X)
		}
	}
	return false
}

func (x *Exec) unary(st *State, n *ast.UnaryExpr, k func(*State, Val)) {
	switch n.Op {
	case token.NOT:
		x.ev(st, n.X, func(st *State, v Val) { k(st, scalar(v.T, Not(v.t()))) })
	case token.SUB:
		x.ev(st, n.X, func(st *State, v Val) {
			if v.t().sort == SFloat {
				k(st, scalar(v.T, App("f.neg", SFloat, v.t())))
				return
			}
			z := NumOf(big.NewInt(0), v.t().sort)
			k(st, scalar(v.T, intBin(st, token.SUB, z, v.t(), v.T, v.T)))
		})
	case token.ADD:
		x.ev(st, n.X, k)
	case token.XOR:
		x.ev(st, n.X, func(st *State, v Val) {
			w, s, _ := intInfo(v.T)
			if bvMode {
				k(st, scalar(v.T, bvop2("bvnot", v.t().sort, v.t())))
				return
			}
			if s {
				k(st, scalar(v.T, Sub(Num(-1), v.t())))
				return
			}
			k(st, scalar(v.T, Sub(NumB(new(big.Int).Sub(pow2(w), big.NewInt(1))), v.t())))
		})
	case token.AND:
		e := n.X
		for {
			p, ok := e.(*ast.ParenExpr)
			if !ok {
				break
			}
			e = p.X
		}
		if cl, ok := e.(*ast.CompositeLit); ok {
			t := x.typeOf(st, cl)
			x.composite(st, cl, t, func(st *State, v Val) {
				id := st.alloc("lit")
				p := Val{T: x.ptrTo(st, n, t), K: KPtr, ts: []*Term{id}}
				st.storeAt(ptrPrefix(p), id, v, t)
				k(st, p)
			})
			return
		}
		x.lval(st, e, func(st *State, lv *LV) { k(st, x.addrOf(st, lv, n.Pos())) })
	default:
		fail("%s: unary %s", x.pos(n.Pos()), n.Op)
	}
}

func (x *Exec) ptrTo(st *State, n ast.Expr, t types.Type) types.Type {
	return types.NewPointer(t)
}

func (x *Exec) addrOf(st *State, lv *LV, p token.Pos) Val {
	switch lv.kind {
	case lvHeap:
		return Val{T: types.NewPointer(lv.T), K: KPtr, ts: []*Term{lv.base}, prefix: lv.prefix}
	case lvGlobal:
		return Val{T: types.NewPointer(lv.T), K: KPtr, ts: []*Term{Num(0)}, prefix: globKey(lv.v), via: lv}
	}
	fail("%s: address of this location", x.pos(p))
	return Val{}
}

// ---- binary operators ----

func (x *Exec) binary(st *State, n *ast.BinaryExpr, k func(*State, Val)) {
	if n.Op == token.LAND || n.Op == token.LOR {
		x.ev(st, n.X, func(st *State, a Val) {
			c := a.t()
			if n.Op == token.LOR {
				c = Not(c)
			}
			short := func(st *State) { k(st, boolVal(BoolT(n.Op == token.LOR))) }
			if c == False || st.quick(Not(c)) {
				short(st)
				return
			}
			if c == True || st.quick(c) {
				x.ev(st, n.Y, k)
				return
			}
			// try the right side as a pure term
			t := st.clone()
			t.assume(c)
			type res struct {
				s *State
				v Val
			}
			var rs []res
			nObl := len(x.obls)
			x.ev(t, n.Y, func(s *State, v Val) { rs = append(rs, res{s, v}) })
			if len(rs) == 0 {
				// right side never completes under c (dead)
				st.assume(Not(c))
				short(st)
				return
			}
			if len(rs) == 1 && x.sameHeap(st, rs[0].s) {
				for _, f := range rs[0].s.facts.list(st.facts) {
					if f != c {
						st.assume(Imp(c, f))
					}
				}
				if n.Op == token.LAND {
					k(st, boolVal(And(c, rs[0].v.t())))
				} else {
					k(st, boolVal(Or(Not(c), rs[0].v.t())))
				}
				return
			}
			_ = nObl
			for _, r := range rs {
				k(r.s, r.v)
			}
			st.assume(Not(c))
			if !st.infeasible() {
				short(st)
			}
		})
		return
	}
	x.ev(st, n.X, func(st *State, a Val) {
		x.ev(st, n.Y, func(st *State, b Val) {
			k(st, x.binop(st, n.Op, a, b, x.typeOf(st, n), n.OpPos))
		})
	})
}

func (x *Exec) sameHeap(a, b *State) bool {
	if a.top != b.top || a.fr != b.fr && (a.fr.fi != b.fr.fi || len(a.fr.defers) != len(b.fr.defers)) {
		return false
	}
	for k, h := range b.heap {
		if a.heap[k] == nil {
			if h.op == "const" && h.name == "H0:"+k {
				continue
			}
			return false
		}
		if a.heap[k] != h {
			return false
		}
	}
	for v, val := range a.vars {
		if w, ok := b.vars[v]; !ok || !sameVal(val, w) {
			return false
		}
	}
	for g, val := range a.ghost {
		if w, ok := b.ghost[g]; !ok || !sameVal(val, w) {
			return false
		}
	}
	return true
}

func isNilV(v Val) bool { return v.K == KScalar && v.T == types.Typ[types.UntypedNil] }

func (x *Exec) binop(st *State, op token.Token, a, b Val, T types.Type, pos token.Pos) Val {
	switch op {
	case token.EQL, token.NEQ:
		r := x.equal(st, a, b, pos)
		if op == token.NEQ {
			r = Not(r)
		}
		return scalar(types.Typ[types.Bool], r)
	}
	at, bt := a.t(), b.t()
	if at.sort == SFloat || bt.sort == SFloat {
		name := "f." + op.String()
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return boolVal(App(name, SBool, at, bt))
		}
		return scalar(T, App(name, SFloat, at, bt))
	}
	opT := a.T
	if bsc, ok := under(a.T).(*types.Basic); ok {
		if bsc.Info()&types.IsString != 0 {
			switch op {
			case token.ADD:
				r := App("strcat", SInt, at, bt)
				SetRange(r, big.NewInt(0), nil)
				return scalar(T, r)
			}
			return boolVal(App("str"+op.String(), SBool, at, bt))
		}
		if bsc.Info()&types.IsUntyped != 0 && op != token.SHL && op != token.SHR {
			opT = b.T
		}
	}
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return boolVal(cmpInt(op, at, bt, opT))
	}
	switch op {
	case token.SHL, token.SHR:
		if _, s, _ := intInfo(b.T); s && !bt.isNum() {
			z := NumOf(big.NewInt(0), bt.sort)
			x.oblige(st, cmpInt(token.LEQ, z, bt, b.T), "shift", "shift count non-negative", pos)
		}
	case token.QUO, token.REM:
		x.oblige(st, Ne(bt, NumOf(big.NewInt(0), bt.sort)), "div", "division by zero", pos)
	}
	if _, _, ok := intInfo(T); !ok {
		T = opT
	}
	if w, _, ok := intInfo(T); ok && bvMode && at.sort.Kind == "BV" && at.sort.W != w {
		T = opT
	}
	return scalar(T, intBin(st, op, at, bt, T, b.T))
}

func (x *Exec) equal(st *State, a, b Val, pos token.Pos) *Term {
	if isNilV(a) {
		a, b = b, a
	}
	if isNilV(b) {
		switch a.K {
		case KFunc:
			return False
		case KSlice, KIface, KPtr:
			return Eq(a.ts[0], Num(0))
		}
		return Eq(a.t(), Num(0))
	}
	if a.K == KIface && b.K != KIface {
		b = x.conv(st, b, a.T)
	}
	if b.K == KIface && a.K != KIface {
		a = x.conv(st, a, b.T)
	}
	if a.K == KIface {
		// pointers only: compare tag and data
		return And(Eq(a.ts[0], b.ts[0]), Eq(a.ts[1], b.ts[1]))
	}
	if a.K == KPtr && b.K == KPtr {
		if ptrPrefix(a) != ptrPrefix(b) {
			fail("%s: comparison of interior pointers", x.pos(pos))
		}
	}
	fa, fb := flatten(a), flatten(b)
	var cs []*Term
	for i := range fa {
		if fa[i].sort == SFloat {
			cs = append(cs, App("f.==", SBool, fa[i], fb[i]))
			continue
		}
		cs = append(cs, Eq(fa[i], fb[i]))
	}
	return And(cs...)
}

// ---- slices, composites, conversions ----

func (x *Exec) sliceExpr(st *State, n *ast.SliceExpr, k func(*State, Val)) {
	bt := x.typeOf(st, n.X)
	idx := func(st *State, base Val, k func(*State, *Term, *Term, *Term)) {
		var es []ast.Expr
		for _, e := range []ast.Expr{n.Low, n.High, n.Max} {
			if e != nil {
				es = append(es, e)
			}
		}
		x.evs(st, es, func(st *State, vs []Val) {
			var lo, hi, mx *Term
			j := 0
			if n.Low != nil {
				lo = x.idx64(st, vs[j])
				j++
			}
			if n.High != nil {
				hi = x.idx64(st, vs[j])
				j++
			}
			if n.Max != nil {
				mx = x.idx64(st, vs[j])
			}
			k(st, lo, hi, mx)
		})
	}
	switch u := under(bt).(type) {
	case *types.Slice:
		x.ev(st, n.X, func(st *State, s Val) {
			idx(st, s, func(st *State, lo, hi, mx *Term) {
				if lo == nil {
					lo = idxNum(0)
				}
				if hi == nil {
					hi = s.len()
				}
				lim := s.cap()
				if mx != nil {
					x.oblige(st, x.uLe(mx, s.cap()), "bounds", "slice bounds out of range (max)", n.Pos())
					lim = mx
				}
				if n.High != nil {
					x.oblige(st, x.uLe(hi, lim), "bounds", "slice bounds out of range (high)", n.Pos())
				}
				x.oblige(st, And(x.uLe(lo, hi), iLe(idxNum(0), lo)), "bounds", "slice bounds out of range (low)", n.Pos())
				r := Val{T: bt, K: KSlice, ts: []*Term{s.arr(), Add(s.off(), lo), Sub(hi, lo), Sub(lim, lo)}, via: s.via}
				x.nonNegLen(st, r)
				k(st, r)
			})
		})
	case *types.Array:
		x.lval(st, n.X, func(st *State, a *LV) {
			idx(st, Val{}, func(st *State, lo, hi, mx *Term) {
				if lo == nil {
					lo = idxNum(0)
				}
				if hi == nil {
					hi = idxNum(u.Len())
				}
				x.oblige(st, And(iLe(idxNum(0), lo), iLe(lo, hi), iLe(hi, idxNum(u.Len()))), "bounds", "slice bounds out of range", n.Pos())
				k(st, Val{T: types.NewSlice(u.Elem()), K: KSlice, ts: []*Term{Num(0), lo, Sub(hi, lo), Sub(idxNum(u.Len()), lo)}, via: a})
			})
		})
	case *types.Basic:
		x.ev(st, n.X, func(st *State, s Val) {
			idx(st, s, func(st *State, lo, hi, mx *Term) {
				if lo == nil {
					lo = idxNum(0)
				}
				if hi == nil {
					hi = x.strLen(st, s.t())
				}
				x.oblige(st, And(iLe(idxNum(0), lo), iLe(lo, hi), iLe(hi, x.strLen(st, s.t()))), "bounds", "string slice out of range", n.Pos())
				r := App("substr", SInt, s.t(), lo, hi)
				SetRange(r, big.NewInt(0), nil)
				k(st, scalar(s.T, r))
			})
		})
	default:
		fail("%s: slice of %v", x.pos(n.Pos()), bt)
	}
}

// nonNegLen registers the ranges of slice components after a checked slicing.
func (x *Exec) nonNegLen(st *State, s Val) {
	if bvMode {
		return
	}
	for _, t := range s.ts[1:] {
		st.assume(Le(Num(0), t))
	}
	st.assume(Le(s.len(), s.cap()))
}

// uLe: a <= b where b is known to lie in 0..2^48; covers negative a in BV mode
func (x *Exec) uLe(a, b *Term) *Term {
	if a.sort.Kind == "BV" {
		return BVCmp("bvule", a, b)
	}
	return Le(a, b)
}

func (x *Exec) composite(st *State, n *ast.CompositeLit, t types.Type, k func(*State, Val)) {
	switch u := under(t).(type) {
	case *types.Struct:
		v := zeroVal(t)
		var es []ast.Expr
		var fi []int
		for i, e := range n.Elts {
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				nm := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == nm {
						fi = append(fi, j)
					}
				}
				es = append(es, kv.Value)
			} else {
				fi = append(fi, i)
				es = append(es, e)
			}
		}
		x.evElts(st, es, func(i int) types.Type { return u.Field(fi[i]).Type() }, func(st *State, vs []Val) {
			r := v
			r.fs = append([]Val{}, v.fs...)
			for i, val := range vs {
				r.fs[fi[i]] = x.conv(st, val, u.Field(fi[i]).Type())
			}
			k(st, r)
		})
	case *types.Slice, *types.Array:
		var el types.Type
		ln := int64(-1)
		if s, ok := u.(*types.Slice); ok {
			el = s.Elem()
		} else {
			el = u.(*types.Array).Elem()
			ln = u.(*types.Array).Len()
		}
		var es []ast.Expr
		var pos []int64
		next := int64(0)
		for _, e := range n.Elts {
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				tv := st.fr.fi.pkg.info.Types[kv.Key]
				i, _ := constant.Int64Val(constant.ToInt(tv.Value))
				next = i
				e = kv.Value
			}
			es = append(es, e)
			pos = append(pos, next)
			next++
		}
		mx := int64(0)
		for _, p := range pos {
			if p+1 > mx {
				mx = p + 1
			}
		}
		if ln < 0 {
			ln = mx
		}
		x.evElts(st, es, func(int) types.Type { return el }, func(st *State, vs []Val) {
			cs := comps(el)
			var inner []*Term
			for _, c := range cs {
				inner = append(inner, ConstArr(SArr(idxSort(), c.sort), zeroTerm(c)))
			}
			for i, v := range vs {
				for j, f := range flatten(x.conv(st, v, el)) {
					inner[j] = Store(inner[j], idxNum(pos[i]), f)
				}
			}
			if _, isA := u.(*types.Array); isA {
				k(st, Val{T: t, K: KArray, ts: inner})
				return
			}
			id := st.alloc("slicelit")
			x.setInner(st, el, id, inner, nil, nil)
			k(st, Val{T: t, K: KSlice, ts: []*Term{id, idxNum(0), idxNum(ln), idxNum(ln)}})
		})
	case *types.Map:
		id := st.alloc("maplit")
		m := scalar(t, id)
		x.mapInit(st, m, u)
		var rec func(st *State, i int)
		rec = func(st *State, i int) {
			if i == len(n.Elts) {
				k(st, m)
				return
			}
			kv := n.Elts[i].(*ast.KeyValueExpr)
			x.evs(st, []ast.Expr{kv.Key, kv.Value}, func(st *State, vs []Val) {
				x.mapWrite(st, m, u, x.mapKeyT(x.conv(st, vs[0], u.Key())), x.conv(st, vs[1], u.Elem()))
				rec(st, i+1)
			})
		}
		rec(st, 0)
	case *types.Pointer:
		// &T elided in composite elements
		x.composite(st, n, u.Elem(), func(st *State, v Val) {
			id := st.alloc("lit")
			p := Val{T: t, K: KPtr, ts: []*Term{id}}
			st.storeAt(ptrPrefix(p), id, v, u.Elem())
			k(st, p)
		})
	default:
		fail("%s: composite %v", x.pos(n.Pos()), t)
	}
}

func (x *Exec) evElts(st *State, es []ast.Expr, typ func(int) types.Type, k func(*State, []Val)) {
	var rec func(st *State, i int, acc []Val)
	rec = func(st *State, i int, acc []Val) {
		if i == len(es) {
			k(st, acc)
			return
		}
		next := func(st *State, v Val) { rec(st, i+1, append(acc[:i:i], v)) }
		if cl, ok := es[i].(*ast.CompositeLit); ok {
			x.composite(st, cl, substType(typ(i), st.fr.sub), next)
			return
		}
		x.ev(st, es[i], next)
	}
	rec(st, 0, nil)
}

// setInner replaces the contents of array id.
func (x *Exec) setInner(st *State, el types.Type, id *Term, inner []*Term, lo, hi *Term) {
	for j, c := range comps(el) {
		key := elemPrefix(el) + c.suf
		h := st.heapGet(key, heapSort(SArr(idxSort(), c.sort)))
		st.noteWriteR(WriteRec{key: key, ptr: id, lo: lo, hi: hi})
		st.heap[key] = Store(h, id, inner[j])
	}
}

// conv adapts a value to a type for assignment (interface boxing, nil, untyped constants).
func (x *Exec) conv(st *State, v Val, t types.Type) Val {
	if t == nil || v.T == nil {
		return v
	}
	if isNilV(v) {
		if _, ok := under(t).(*types.Signature); ok {
			return scalar(t, Num(0))
		}
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return v
		}
		return zeroVal(t)
	}
	if _, isTP := t.(*types.TypeParam); isTP {
		return v
	}
	if _, ok := under(t).(*types.Interface); ok {
		if v.K == KIface {
			r := v
			r.T = t
			return r
		}
		if v.K == KPtr {
			if v.prefix != "" && v.prefix != defPrefix(v.T) {
				fail("interior pointer converted to interface")
			}
			return Val{T: t, K: KIface, ts: []*Term{ifaceTag(v.T), v.t()}}
		}
		if v.K == KFunc {
			return Val{T: t, K: KIface, ts: []*Term{ifaceTag(v.T), Num(1)}}
		}
		if _, isTP := v.T.(*types.TypeParam); isTP {
			fail("type parameter value boxed")
		}
		id := st.alloc("box")
		st.storeAt("box:"+typeKey(v.T), id, v, v.T)
		return Val{T: t, K: KIface, ts: []*Term{ifaceTag(v.T), id}}
	}
	if v.K == KScalar || v.K == KSlice || v.K == KArray {
		r := v
		if w, _, ok := intInfo(t); ok && bvMode && v.t().sort.Kind == "BV" && v.t().sort.W != w {
			_, sf, _ := intInfo(v.T)
			if w > v.t().sort.W {
				r.ts = []*Term{bvExt(v.t(), w, sf)}
			} else {
				r.ts = []*Term{bvTrunc(v.t(), w)}
			}
		}
		r.T = t
		return r
	}
	if v.K == KPtr && v.prefix == "" {
		if typeKey(v.T) == typeKey(t) {
			r := v
			r.T = t
			return r
		}
	}
	return v
}

// convert is an explicit conversion T(v).
func (x *Exec) convert(st *State, v Val, t types.Type, pos token.Pos) Val {
	if isNilV(v) {
		return zeroVal(t)
	}
	_, _, fi := intInfo(v.T)
	_, _, ti := intInfo(t)
	fb, _ := under(v.T).(*types.Basic)
	tb, _ := under(t).(*types.Basic)
	switch {
	case fi && ti:
		return scalar(t, convInt(st, v.t(), v.T, t))
	case fi && tb != nil && tb.Info()&types.IsFloat != 0:
		return scalar(t, App("f.ofint", SFloat, v.t()))
	case ti && fb != nil && fb.Info()&types.IsFloat != 0:
		r := App("f.toint."+typeKey(t), intSort(t), v.t())
		compRange(r, Comp{role: "int", t: t, sort: r.sort})
		return scalar(t, r)
	case fb != nil && tb != nil && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		return scalar(t, v.t())
	case tb != nil && tb.Info()&types.IsString != 0 && v.K == KSlice:
		r := Const(freshName("str"), SInt)
		SetRange(r, big.NewInt(0), nil)
		return scalar(t, r)
	case fb != nil && fb.Info()&types.IsString != 0 && kindOf(t) == KSlice:
		ln := x.strLen(st, v.t())
		el := under(t).(*types.Slice).Elem()
		id := st.alloc("bytes")
		var inner []*Term
		for _, c := range comps(el) {
			inner = append(inner, App("strbytes", SArr(idxSort(), c.sort), v.t()))
		}
		x.setInner(st, el, id, inner, nil, nil)
		return Val{T: t, K: KSlice, ts: []*Term{id, idxNum(0), ln, ln}}
	case ti && tb != nil && tb.Info()&types.IsString != 0:
	}
	if _, ok := under(t).(*types.Interface); ok {
		return x.conv(st, v, t)
	}
	if v.K == KFunc {
		v.T = t
		return v
	}
	if types.IdenticalIgnoreTags(under(v.T), under(t)) && v.K != KPtr {
		ts := flatten(v)
		return mkVal(t, ts)
	}
	if v.K == KPtr && types.Identical(v.T, t) {
		return v
	}
	if fb != nil && tb != nil && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
		return scalar(t, v.t())
	}
	fail("%s: conversion %v -> %v", x.pos(pos), v.T, t)
	return Val{}
}

// ---- maps ----

func (x *Exec) mapKeyT(k Val) *Term {
	fs := flatten(k)
	if len(fs) != 1 {
		fail("map key with several components")
	}
	return fs[0]
}

func mapPrefix(mt *types.Map) string { return "map:" + typeKey(mt) }

func mapKeySort(mt *types.Map) *Sort {
	cs := comps(mt.Key())
	if len(cs) != 1 {
		fail("map key with several components")
	}
	return cs[0].sort
}

func (x *Exec) mapDomArr(st *State, m Val, mt *types.Map) *Term {
	h := st.heapGet("mapdom:"+typeKey(mt), SArr(SInt, SArr(mapKeySort(mt), SBool)))
	return Select(h, m.t())
}

func (x *Exec) mapDom(st *State, m Val, mt *types.Map, key *Term) *Term {
	d := Select(x.mapDomArr(st, m, mt), key)
	return And(Ne(m.t(), Num(0)), d)
}

func (x *Exec) mapRead(st *State, m Val, mt *types.Map, key *Term) Val {
	cs := comps(mt.Elem())
	ts := make([]*Term, len(cs))
	d := x.mapDom(st, m, mt, key)
	for i, c := range cs {
		h := st.heapGet(mapPrefix(mt)+c.suf, SArr(SInt, SArr(mapKeySort(mt), c.sort)))
		t := Select(Select(h, m.t()), key)
		compRange(t, c)
		st.compFacts(t, c, And(d, st.below(m.t())))
		ts[i] = Ite(d, t, zeroTerm(c))
	}
	return mkVal(mt.Elem(), ts)
}

func (x *Exec) mapInit(st *State, m Val, mt *types.Map) {
	key := "mapdom:" + typeKey(mt)
	ds := SArr(mapKeySort(mt), SBool)
	h := st.heapGet(key, SArr(SInt, ds))
	st.noteWrite(key, m.t(), nil)
	st.heap[key] = Store(h, m.t(), ConstArr(ds, False))
}

func (x *Exec) mapWrite(st *State, m Val, mt *types.Map, key *Term, v Val) {
	dk := "mapdom:" + typeKey(mt)
	h := st.heapGet(dk, SArr(SInt, SArr(mapKeySort(mt), SBool)))
	st.noteWrite(dk, m.t(), nil)
	st.heap[dk] = Store(h, m.t(), Store(Select(h, m.t()), key, True))
	fs := flatten(v)
	for i, c := range comps(mt.Elem()) {
		vk := mapPrefix(mt) + c.suf
		h := st.heapGet(vk, SArr(SInt, SArr(mapKeySort(mt), c.sort)))
		st.noteWrite(vk, m.t(), nil)
		st.heap[vk] = Store(h, m.t(), Store(Select(h, m.t()), key, fs[i]))
	}
}

func (x *Exec) mapDelete(st *State, m Val, mt *types.Map, key *Term) {
	dk := "mapdom:" + typeKey(mt)
	h := st.heapGet(dk, SArr(SInt, SArr(mapKeySort(mt), SBool)))
	st.noteWrite(dk, m.t(), nil)
	st.heap[dk] = Store(h, m.t(), Store(Select(h, m.t()), key, False))
}

// ---- globals ----

// readGlobal: package variables that are never assigned are constants given by their literal.
func (x *Exec) readGlobal(st *State, v *types.Var) Val {
	gi := x.l.globals[v]
	if gi == nil || gi.assigned || gi.expr == nil {
		return st.loadAt(globKey(v), Num(0), v.Type())
	}
	if val, ok := x.constGlobal(st, v, gi); ok {
		return val
	}
	return st.loadAt(globKey(v), Num(0), v.Type())
}

func (x *Exec) constGlobal(st *State, v *types.Var, gi *GlobalInit) (Val, bool) {
	if tv, ok := gi.pkg.info.Types[gi.expr]; ok && tv.Value != nil {
		return x.constVal(st, tv.Value, v.Type()), true
	}
	cl, ok := gi.expr.(*ast.CompositeLit)
	if !ok {
		return Val{}, false
	}
	if !x.literalOnly(gi.pkg, cl) {
		return Val{}, false
	}
	id, ok := x.globIDs()[v]
	if !ok {
		x.gids++
		id = Num(-x.gids)
		x.globIDs()[v] = id
	}
	var out Val
	t := v.Type()
	switch u := under(t).(type) {
	case *types.Array, *types.Struct:
		sc := x.newState(&Frame{fi: &FuncInfo{pkg: gi.pkg}})
		done := false
		x.composite(sc, cl, t, func(_ *State, val Val) { out = val; done = true })
		if u == nil || !done {
			return Val{}, false
		}
		return out, true
	case *types.Slice:
		cs := comps(u.Elem())
		if len(cs) != 1 {
			return Val{}, false
		}
		sc := x.newState(&Frame{fi: &FuncInfo{pkg: gi.pkg}})
		at := types.NewArray(u.Elem(), int64(len(cl.Elts)))
		x.composite(sc, cl, at, func(_ *State, val Val) { out = val })
		for _, e := range cl.Elts {
			if _, ok := e.(*ast.KeyValueExpr); ok {
				return Val{}, false
			}
		}
		n := int64(len(cl.Elts))
		h := st.heapGet(elemPrefix(u.Elem())+cs[0].suf, heapSort(SArr(idxSort(), cs[0].sort)))
		in := Select(h, id)
		for i := int64(0); i < n; i++ {
			st.assume(Eq(Select(in, idxNum(i)), Select(out.ts[0], idxNum(i))))
		}
		return Val{T: t, K: KSlice, ts: []*Term{id, idxNum(0), idxNum(n), idxNum(n)}}, true
	case *types.Map:
		sc := x.newState(&Frame{fi: &FuncInfo{pkg: gi.pkg}})
		sc.facts = nil
		var mv Val
		x.noFacts++
		save := x.disc
		x.disc = append(x.disc, newLog()) // no frame checks
		x.composite(sc, cl, t, func(s *State, val Val) { mv = val; sc = s })
		x.disc = save
		x.noFacts--
		dom := x.mapDomArr(sc, mv, u)
		m := scalar(t, id)
		st.assume(Eq(x.mapDomArr(st, m, u), dom))
		for _, c := range comps(u.Elem()) {
			hk := mapPrefix(u) + c.suf
			s := SArr(SInt, SArr(mapKeySort(u), c.sort))
			lit := Select(sc.heapGet(hk, s), mv.t())
			cur := Select(st.heapGet(hk, s), id)
			for _, kt := range storeKeys(dom) {
				st.assume(Eq(Select(cur, kt), Select(lit, kt)))
			}
		}
		return m, true
	}
	return Val{}, false
}

func (x *Exec) globIDs() map[*types.Var]*Term { return x.globTab }

func storeKeys(a *Term) []*Term {
	var out []*Term
	for a.op == "store" {
		out = append(out, a.args[1])
		a = a.args[0]
	}
	return out
}

func (x *Exec) literalOnly(p *Pkg, e ast.Expr) bool {
	if tv, ok := p.info.Types[e]; ok && tv.Value != nil {
		return true
	}
	switch n := e.(type) {
	case *ast.CompositeLit:
		for _, el := range n.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if _, isS := under(p.info.TypeOf(n)).(*types.Struct); !isS {
					if !x.literalOnly(p, kv.Key) {
						return false
					}
				}
				el = kv.Value
			}
			if !x.literalOnly(p, el) {
				return false
			}
		}
		switch under(p.info.TypeOf(n)).(type) {
		case *types.Struct, *types.Array, *types.Slice, *types.Map:
			return true
		}
	}
	return false
}
