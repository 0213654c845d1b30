package main

// Evaluation of contract expressions in a symbolic state.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"
)

type Env struct {
	x     *Exec
	st    *State // state heap reads refer to
	cur   *State // current state (Go locals)
	old   *State // function entry / call pre-state
	lold  *State // loop entry
	vals  map[string]Val
	pre   map[string]Val
	local func(st *State, name string) (Val, bool)
	pkg   *Pkg
	hyp   bool // formula will be used as a hypothesis
	inQ   int
	depth int
}

func (e *Env) with(name string, v Val) *Env {
	n := *e
	n.vals = make(map[string]Val, len(e.vals)+1)
	for k, x := range e.vals {
		n.vals[k] = x
	}
	n.vals[name] = v
	return &n
}

func sInt(t *Term) Val  { return Val{K: KScalar, ts: []*Term{t}, spec: true} }
func sBool(t *Term) Val { return Val{T: types.Typ[types.Bool], K: KScalar, ts: []*Term{t}, spec: true} }

func sortByName(n string) *Sort {
	switch n {
	case "", "int":
		return idxSort()
	case "math":
		return SInt
	case "bool":
		return SBool
	case "u64":
		if bvMode {
			return SBV(64)
		}
		return SInt
	case "u8":
		if bvMode {
			return SBV(8)
		}
		return SInt
	case "arr":
		if bvMode {
			return SArr(SBV(64), SBV(8))
		}
		return SArr(SInt, SInt)
	case "iarr":
		return SArr(idxSort(), idxSort())
	case "barr":
		return SArr(idxSort(), SBool)
	case "marr":
		return SArr(SInt, SInt)
	case "aarr":
		return SArr(SInt, SArr(SInt, SInt))
	case "elem":
		return SU("T_T")
	case "earr":
		return SArr(idxSort(), SU("T_T"))
	}
	fail("unknown spec sort %q", n)
	return nil
}

// lift brings a value to the spec integer sort.
func (e *Env) lift(v Val) *Term {
	if v.K == KFunc {
		return Num(1)
	}
	if v.K != KScalar && v.K != KPtr {
		fail("spec: scalar expected, got %v", v.T)
	}
	t := v.t()
	if bvMode && t.sort.Kind == "BV" && t.sort.W < 64 {
		signed := false
		if v.T != nil {
			_, signed, _ = intInfo(v.T)
		}
		return bvExt(t, 64, signed)
	}
	return t
}

func (e *Env) boolE(x *SExpr) *Term {
	v := e.eval(x)
	if v.K != KScalar || v.t().sort != SBool {
		fail("spec: boolean expected in %s", x)
	}
	return v.t()
}
func (e *Env) intE(x *SExpr) *Term { return e.lift(e.eval(x)) }

func (e *Env) neg() *Env { n := *e; n.hyp = !e.hyp; return &n }

func (e *Env) inState(s *State) *Env {
	if s == nil {
		fail("spec: no such state here (old/lold)")
	}
	n := *e
	n.st = s
	return &n
}

func specEq(e *Env, a, b Val) *Term {
	isNil := func(v Val) bool { return v.K == KScalar && v.T == types.Typ[types.UntypedNil] }
	if isNil(a) {
		a, b = b, a
	}
	if isNil(b) {
		switch a.K {
		case KSlice, KIface, KPtr:
			return Eq(a.ts[0], Num(0))
		case KFunc:
			return False
		}
		return Eq(a.t(), Num(0))
	}
	if a.K == KScalar && b.K == KScalar || a.K == KPtr && b.K == KScalar || a.K == KScalar && b.K == KPtr {
		x, y := a.t(), b.t()
		if x.sort != y.sort {
			x, y = e.lift(a), e.lift(b)
		}
		return Eq(x, y)
	}
	fa, fb := flatten(a), flatten(b)
	if len(fa) != len(fb) {
		fail("spec: comparing %v with %v", a.T, b.T)
	}
	var cs []*Term
	for i := range fa {
		cs = append(cs, Eq(fa[i], fb[i]))
	}
	return And(cs...)
}

var nilVal = Val{T: types.Typ[types.UntypedNil], K: KScalar, ts: []*Term{Num(0)}, spec: true}

func (e *Env) eval(x *SExpr) Val {
	switch x.op {
	case "num":
		return sInt(NumOf(x.num, idxSort()))
	case "str":
		return Val{T: types.Typ[types.String], K: KScalar, ts: []*Term{strTerm(x.name)}}
	case "ident":
		return e.ident(x.name)
	case "field":
		// package-qualified constant or variable
		if x.args[0].op == "ident" {
			if _, ok := e.lookup(x.args[0].name); !ok {
				if p := e.x.l.byName[x.args[0].name]; p != nil {
					if v, ok := e.pkgObj(p, x.name); ok {
						return v
					}
				}
			}
		}
		return e.field(e.eval(x.args[0]), x.name)
	case "index":
		b := e.eval(x.args[0])
		return e.index(b, x.args[1])
	case "slice":
		b := e.eval(x.args[0])
		if b.K != KSlice {
			fail("spec: slicing %v", b.T)
		}
		lo := idxNum(0)
		if x.args[1] != nil {
			lo = e.intE(x.args[1])
		}
		hi := b.len()
		if x.args[2] != nil {
			hi = e.intE(x.args[2])
		}
		r := b
		r.ts = []*Term{b.arr(), Add(b.off(), lo), Sub(hi, lo), Sub(b.cap(), lo)}
		return r
	case "un":
		switch x.name {
		case "!":
			return sBool(Not(e.neg().boolE(x.args[0])))
		case "-":
			return sInt(Neg(e.intE(x.args[0])))
		case "*":
			p := e.eval(x.args[0])
			if p.K != KPtr {
				fail("spec: * of non-pointer")
			}
			return e.st.loadAt(ptrPrefix(p), p.t(), ptrElem(p.T))
		}
	case "bin":
		return e.bin(x)
	case "call":
		return e.call(x)
	}
	fail("spec: cannot evaluate %s", x)
	return Val{}
}

func ptrPrefix(p Val) string {
	if p.prefix != "" {
		return p.prefix
	}
	return defPrefix(p.T)
}

func (e *Env) lookup(n string) (Val, bool) {
	if v, ok := e.vals[n]; ok {
		return v, true
	}
	if e.local != nil {
		if v, ok := e.local(e.st, n); ok {
			return v, true
		}
		// a local declared after the entry: inside old(...) its current value over the entry's memory
		if e.cur != nil && e.cur != e.st {
			if v, ok := e.local(e.cur, n); ok {
				return v, true
			}
		}
	}
	if _, ok := e.x.db.ghosts[n]; ok {
		return e.x.ghostVal(e.st, n), true
	}
	return Val{}, false
}

func (e *Env) ident(n string) Val {
	switch n {
	case "true":
		return sBool(True)
	case "false":
		return sBool(False)
	case "nil":
		return nilVal
	}
	if v, ok := e.lookup(n); ok {
		return v
	}
	if d := e.x.db.defs[n]; d != nil && len(d.params) == 0 && d.body != nil {
		return e.eval(d.body)
	}
	if e.pkg != nil {
		if v, ok := e.pkgObj(e.pkg, n); ok {
			return v
		}
	}
	fail("spec: unknown name %s", n)
	return Val{}
}

func (e *Env) pkgObj(p *Pkg, n string) (Val, bool) {
	o := p.tpkg.Scope().Lookup(n)
	switch c := o.(type) {
	case *types.Const:
		if c.Val().Kind() == constant.Int {
			b, _ := new(big.Int).SetString(c.Val().ExactString(), 10)
			return sInt(NumOf(b, idxSort())), true
		}
		if c.Val().Kind() == constant.String {
			return Val{T: types.Typ[types.String], K: KScalar, ts: []*Term{strTerm(constant.StringVal(c.Val()))}}, true
		}
	case *types.Var:
		return e.x.readGlobal(e.st, c), true
	}
	return Val{}, false
}

// findField locates field name in struct type t through embedding; returns index path.
func findField(t types.Type, name string) ([]int, bool) {
	type item struct {
		t    types.Type
		path []int
	}
	q := []item{{t, nil}}
	for len(q) > 0 {
		var nq []item
		for _, it := range q {
			tt := it.t
			if p, ok := under(tt).(*types.Pointer); ok {
				tt = p.Elem()
			}
			s, ok := under(tt).(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if f.Name() == name {
					return append(append([]int{}, it.path...), i), true
				}
			}
			if i, ok := renamedField(tt, name); ok {
				return append(append([]int{}, it.path...), i), true
			}
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if f.Embedded() {
					nq = append(nq, item{f.Type(), append(append([]int{}, it.path...), i)})
				}
			}
		}
		q = nq
	}
	return nil, false
}

func (e *Env) field(v Val, name string) Val {
	if v.T == nil {
		fail("spec: field %s of spec value", name)
	}
	path, ok := findField(v.T, name)
	if !ok {
		fail("spec: no field %s in %v", name, v.T)
	}
	for _, i := range path {
		v = stepField(e.st, v, i)
	}
	return v
}

// stepField selects field i of a struct value or through a pointer, keeping nested structs as interior pointers.
func stepField(st *State, v Val, i int) Val {
	if v.K == KPtr {
		s := under(ptrElem(v.T)).(*types.Struct)
		f := s.Field(i)
		pre := ptrPrefix(v) + "." + f.Name()
		if _, ok := under(f.Type()).(*types.Struct); ok {
			if _, isTP := f.Type().(*types.TypeParam); !isTP {
				return Val{T: types.NewPointer(f.Type()), K: KPtr, ts: v.ts, prefix: pre}
			}
		}
		return st.loadAt(pre, v.t(), f.Type())
	}
	if v.K == KStruct {
		return v.fs[i]
	}
	fail("field of %v", v.T)
	return Val{}
}

func (e *Env) index(b Val, ix *SExpr) Val {
	switch {
	case b.K == KSlice && b.via == nil:
		i := e.intE(ix)
		return e.st.elemAbs(under(b.T).(*types.Slice).Elem(), b.arr(), Add(b.off(), i))
	case b.K == KArray:
		i := e.intE(ix)
		el := under(b.T).(*types.Array).Elem()
		var ts []*Term
		for k, c := range comps(el) {
			t := Select(b.ts[k], i)
			compRange(t, c)
			ts = append(ts, t)
		}
		return mkVal(el, ts)
	case b.K == KScalar && b.T != nil:
		if m, ok := under(b.T).(*types.Map); ok {
			k := e.eval(ix)
			return e.x.mapRead(e.st, b, m, e.mapKey(k))
		}
	case b.K == KScalar && b.ts[0].sort.Kind == "Arr":
		i := e.eval(ix).t()
		t := Select(b.ts[0], i)
		if b.ts[0].sort == SArr(SInt, SInt) && e.x.byteArr[b.ts[0]] {
			SetRange(t, big.NewInt(0), big.NewInt(255))
		}
		return sInt(t)
	}
	fail("spec: indexing %v", b.T)
	return Val{}
}

func (e *Env) mapKey(k Val) *Term { return k.t() }

func (e *Env) bin(x *SExpr) Val {
	switch x.name {
	case "==>":
		a := e.neg().boolE(x.args[0])
		if a == False {
			return sBool(True)
		}
		return sBool(Imp(a, e.boolE(x.args[1])))
	case "<==>":
		return sBool(Eq(e.boolE(x.args[0]), e.boolE(x.args[1])))
	case "&&":
		return sBool(And(e.boolE(x.args[0]), e.boolE(x.args[1])))
	case "||":
		return sBool(Or(e.boolE(x.args[0]), e.boolE(x.args[1])))
	case "==":
		return sBool(specEq(e, e.eval(x.args[0]), e.eval(x.args[1])))
	case "!=":
		return sBool(Not(specEq(e, e.eval(x.args[0]), e.eval(x.args[1]))))
	}
	a, b := e.intE(x.args[0]), e.intE(x.args[1])
	if a.sort != b.sort {
		fail("spec: mixed sorts in %s", x)
	}
	bv := a.sort.Kind == "BV"
	switch x.name {
	case "<":
		return sBool(iLt(a, b))
	case "<=":
		return sBool(iLe(a, b))
	case ">":
		return sBool(iLt(b, a))
	case ">=":
		return sBool(iLe(b, a))
	case "+":
		return sInt(Add(a, b))
	case "-":
		return sInt(Sub(a, b))
	case "*":
		return sInt(Mul(a, b))
	case "/":
		if bv {
			return sInt(bvop2("bvudiv", a.sort, a, b))
		}
		return sInt(Div(a, b))
	case "%":
		if bv {
			return sInt(bvop2("bvurem", a.sort, a, b))
		}
		return sInt(Mod(a, b))
	case "<<":
		if bv {
			return sInt(bvop2("bvshl", a.sort, a, b))
		}
		if b.isNum() {
			return sInt(Mul(a, NumB(pow2(int(b.num.Int64())))))
		}
		return sInt(shiftAmt(nil, b, 64, func(k int) *Term { return Mul(a, NumB(pow2(k))) }, Num(0)))
	case ">>":
		if bv {
			return sInt(bvop2("bvlshr", a.sort, a, b))
		}
		if b.isNum() {
			return sInt(Div(a, NumB(pow2(int(b.num.Int64())))))
		}
		return sInt(shiftAmt(nil, b, 64, func(k int) *Term { return Div(a, NumB(pow2(k))) }, Num(0)))
	case "&":
		if bv {
			return sInt(bvop2("bvand", a.sort, a, b))
		}
		return sInt(andTerm(nil, a, b))
	case "|":
		if bv {
			return sInt(bvop2("bvor", a.sort, a, b))
		}
	}
	fail("spec: operator in %s", x)
	return Val{}
}

func (e *Env) typeArg(x *SExpr) types.Type {
	n := x.String()
	ptr := false
	if strings.HasPrefix(n, "*") {
		ptr = true
		n = n[1:]
	}
	t := e.x.typeByName(n)
	if ptr {
		return types.NewPointer(t)
	}
	return t
}

func (e *Env) call(x *SExpr) Val {
	a := x.args
	switch x.name {
	case "len":
		v := e.eval(a[0])
		if v.K == KSlice {
			return sInt(v.len())
		}
		if v.K == KArray {
			return sInt(idxNum(under(v.T).(*types.Array).Len()))
		}
		fail("spec: len of %v", v.T)
	case "cap":
		return sInt(e.eval(a[0]).cap())
	case "off":
		return sInt(e.eval(a[0]).off())
	case "arr":
		return sInt(e.eval(a[0]).arr())
	case "ref":
		v := e.eval(a[0])
		return sInt(v.ts[0])
	case "tagof":
		return sInt(e.eval(a[0]).ts[0])
	case "dataof":
		return sInt(e.eval(a[0]).ts[1])
	case "bytes": // contents of the backing array
		v := e.eval(a[0])
		if v.K != KSlice {
			fail("spec: bytes of %v", v.T)
		}
		in := e.st.innerArrs(under(v.T).(*types.Slice).Elem(), v.arr())
		if len(in) != 1 {
			fail("spec: bytes() of multi-component elements")
		}
		if w, s, ok := intInfo(under(v.T).(*types.Slice).Elem()); ok && w == 8 && !s {
			e.x.byteArr[in[0]] = true
		}
		return Val{K: KScalar, ts: []*Term{in[0]}, spec: true}
	case "arrid": // contents of array with given id, as bytes
		id := e.intE(a[0])
		in := e.st.innerArrs(types.Typ[types.Uint8], id)
		e.x.byteArr[in[0]] = true
		return Val{K: KScalar, ts: []*Term{in[0]}, spec: true}
	case "arrs", "offs", "lens": // components of the backing array of a slice of slices
		v := e.eval(a[0])
		in := e.st.innerArrs(under(v.T).(*types.Slice).Elem(), v.arr())
		return Val{K: KScalar, ts: []*Term{in[map[string]int{"arrs": 0, "offs": 1, "lens": 2}[x.name]]}, spec: true}
	case "topid": // ids below are allocated
		return Val{K: KScalar, T: types.Typ[types.Int], ts: []*Term{e.st.top}, spec: true}
	case "mem8": // the contents of all byte arrays
		return Val{K: KScalar, ts: []*Term{e.st.heapGet(elemPrefix(types.Typ[types.Uint8]), heapSort(SArr(idxSort(), comps(types.Typ[types.Uint8])[0].sort)))}, spec: true}
	case "old":
		return e.inState(e.old).eval(a[0])
	case "lold":
		return e.inState(e.lold).eval(a[0])
	case "now":
		return e.inState(e.cur).eval(a[0])
	case "pre":
		if a[0].op == "ident" {
			if v, ok := e.pre[a[0].name]; ok {
				return v
			}
		}
		fail("spec: pre(%s)", a[0])
	case "all", "ex":
		return e.quant(x)
	case "ring": // ring(s, head, i): element i of the ring stored in s; opaque unless the contract says 'opt ring'
		b := e.eval(a[0])
		if b.K != KSlice || b.via != nil {
			fail("spec: ring of %v", b.T)
		}
		h, i := e.intE(a[1]), e.intE(a[2])
		el := under(b.T).(*types.Slice).Elem()
		if e.x.con.opts["ring"] != "" {
			ix := Ite(iLt(Add(h, i), b.cap()), Add(h, i), Sub(Add(h, i), b.cap()))
			return e.st.elemAbs(el, b.arr(), Add(b.off(), ix))
		}
		var ts []*Term
		for _, c := range comps(el) {
			hp := e.st.heapGet(elemPrefix(el)+c.suf, heapSort(SArr(idxSort(), c.sort)))
			t := App("ring."+sortTag(c.sort), c.sort, Select(hp, b.arr()), b.off(), b.cap(), h, i)
			compRange(t, c)
			ts = append(ts, t)
		}
		v := mkVal(el, ts)
		e.st.valFactsG(v, e.st.below(b.arr()))
		return v
	case "allx": // static expansion
		lo, hi := e.intE(a[1]), e.intE(a[2])
		if !lo.isNum() || !hi.isNum() {
			fail("spec: allx needs constant bounds")
		}
		var cs []*Term
		for i := lo.num.Int64(); i < hi.num.Int64(); i++ {
			cs = append(cs, e.with(a[0].name, sInt(idxNum(i))).boolE(a[3]))
		}
		return sBool(And(cs...))
	case "forall", "exists":
		n := len(a) - 1
		ne := e
		var bvs []*Term
		for _, v := range a[:n] {
			freshCount++
			k := Const(fmt.Sprintf("%s?%d", v.name, freshCount), sortByName(v.src))
			bvs = append(bvs, k)
			ne = ne.with(v.name, sInt(k))
		}
		ne2 := *ne
		ne2.inQ++
		e.x.noFacts++
		be, tps := ne2.trigs(a[n])
		body := ne2.boolE(be)
		e.x.noFacts--
		if tps != nil {
			return sBool(Quant(x.name, bvs, body, tps))
		}
		return sBool(mkQuant(x.name, bvs, body, e.hyp))
	case "ite":
		c := e.boolE(a[0])
		if c == True {
			return e.eval(a[1])
		}
		if c == False {
			return e.eval(a[2])
		}
		l, r := e.eval(a[1]), e.eval(a[2])
		if l.K == KScalar && r.K == KScalar {
			lt, rt := l.t(), r.t()
			if lt.sort != rt.sort {
				lt, rt = e.lift(l), e.lift(r)
			}
			return Val{T: l.T, K: KScalar, ts: []*Term{Ite(c, lt, rt)}, spec: true}
		}
		return iteVal(c, l, r)
	case "let":
		v := e.eval(a[1])
		return e.with(a[0].name, v).eval(a[2])
	case "same":
		l, r := e.eval(a[0]), e.eval(a[1])
		return sBool(specEq(e, l, r))
	case "fresh": // allocated since old
		v := e.eval(a[0])
		if e.old == nil {
			fail("spec: fresh without old state")
		}
		id := v.ts[0]
		if v.K == KIface {
			id = v.ts[1]
		}
		return sBool(And(Le(e.old.top, id), Lt(id, e.cur.top)))
	case "isalloc":
		v := e.eval(a[0])
		id := v.ts[0]
		if v.K == KIface {
			id = v.ts[1]
		}
		return sBool(And(Le(Num(0), id), Lt(id, e.st.top)))
	case "typeis":
		v := e.eval(a[0])
		return sBool(Eq(v.ts[0], ifaceTag(e.typeArg(a[1]))))
	case "as":
		v := e.eval(a[0])
		t := e.typeArg(a[1])
		if kindOf(t) != KPtr {
			return e.st.loadAt("box:"+typeKey(t), v.ts[1], t)
		}
		return Val{T: t, K: KPtr, ts: []*Term{v.ts[1]}}
	case "ptr": // reinterpret an id as a pointer to T
		v := e.eval(a[0])
		return Val{T: types.NewPointer(e.typeArg(a[1])), K: KPtr, ts: []*Term{v.t()}}
	case "ptrlike": // reinterpret an id as a pointer of the type of another
		return Val{T: e.eval(a[1]).T, K: KPtr, ts: []*Term{e.eval(a[0]).t()}}
	case "mkslice":
		return Val{T: types.NewSlice(types.Typ[types.Uint8]), K: KSlice, ts: []*Term{e.intE(a[0]), e.intE(a[1]), e.intE(a[2]), e.intE(a[3])}}
	case "sel":
		b := e.eval(a[0]).t()
		r := Select(b, e.eval(a[1]).t())
		if b.sort == SArr(SInt, SInt) && e.x.byteArr[b] && r.op == "select" {
			SetRange(r, big.NewInt(0), big.NewInt(255))
		}
		return sInt(r)
	case "upd":
		A := e.eval(a[0]).t()
		v := e.eval(a[2])
		t := v.t()
		if t.sort != A.sort.E {
			t = e.lift(v)
		}
		return Val{K: KScalar, ts: []*Term{Store(A, e.eval(a[1]).t(), t)}, spec: true}
	case "indom":
		m := e.eval(a[0])
		mt := under(m.T).(*types.Map)
		return sBool(e.x.mapDom(e.st, m, mt, e.eval(a[1]).t()))
	case "min", "max":
		l, r := e.intE(a[0]), e.intE(a[1])
		if x.name == "min" {
			return sInt(Ite(iLe(l, r), l, r))
		}
		return sInt(Ite(iLe(l, r), r, l))
	case "abs":
		l := e.intE(a[0])
		return sInt(Ite(iLe(NumOf(big.NewInt(0), l.sort), l), l, Neg(l)))
	case "tdiv": // truncated division
		return sInt(truncDiv(nil, e.intE(a[0]), e.intE(a[1])))
	case "pow2c":
		n := e.intE(a[0])
		return sInt(NumOf(pow2(int(n.num.Int64())), idxSort()))
	case "ult", "ule":
		return sBool(BVCmp("bv"+x.name, e.intE(a[0]), e.intE(a[1])))
	case "zeroof":
		return zeroVal(e.eval(a[0]).T)
	case "zero":
		return zeroVal(e.typeArg(a[0]))
	case "i64": // reinterpret
		t := e.intE(a[0])
		return Val{T: types.Typ[types.Int64], K: KScalar, ts: []*Term{wrapSpec(t, types.Typ[types.Int64])}}
	case "wrap64":
		return sInt(wrapSpec(e.intE(a[0]), types.Typ[types.Int64]))
	case "wrapu64":
		return sInt(wrapSpec(e.intE(a[0]), types.Typ[types.Uint64]))
	case "wrapu8":
		return sInt(wrapSpec(e.intE(a[0]), types.Typ[types.Uint8]))
	case "ghost":
		return e.x.ghostVal(e.st, a[0].name)
	}
	if d := e.x.db.defs[x.name]; d != nil {
		if len(d.params) != len(a) {
			fail("spec: %s expects %d arguments", x.name, len(d.params))
		}
		if !d.rec && !d.opaque {
			n := *e
			n.vals = map[string]Val{}
			n.local = nil
			n.depth++
			if n.depth > 60 {
				fail("spec: definition depth")
			}
			for i, p := range d.params {
				n.vals[p.name] = e.eval(a[i])
			}
			return n.eval(d.body)
		}
		var args []*Term
		for i, p := range d.params {
			v := e.eval(a[i])
			t := v.ts[0]
			if v.K == KScalar {
				want := sortByName(p.sort)
				if t.sort != want {
					t = e.lift(v)
				}
				if t.sort != want {
					fail("spec: argument %d of %s has sort %s", i, x.name, t.sort.str)
				}
			}
			args = append(args, t)
		}
		return sInt(e.x.specApp(d, args))
	}
	fail("spec: unknown function %s", x.name)
	return Val{}
}

func wrapSpec(t *Term, T types.Type) *Term {
	if t.sort.Kind == "BV" {
		return t
	}
	return wrapInt(nil, t, T)
}

func (x *Exec) specApp(d *SpecDef, args []*Term) *Term {
	nm := "spec." + d.name
	if bvMode {
		nm += ".bv"
	}
	r := App(nm, sortByName(d.ret), args...)
	if r.sort == SInt && (d.lo != nil || d.hi != nil) {
		env := &Env{x: x, st: x.scratch, cur: x.scratch, vals: map[string]Val{}}
		for i, p := range d.params {
			env.vals[p.name] = sInt(args[i])
		}
		var lo, hi *big.Int
		if d.lo != nil {
			if t := env.intE(d.lo); t.isNum() {
				lo = t.num
			}
		}
		if d.hi != nil {
			if t := env.intE(d.hi); t.isNum() {
				hi = t.num
			}
		}
		SetRange(r, lo, hi)
	}
	return r
}

// unfoldApp returns the defining equation of a rec application term.
func (x *Exec) unfoldApp(t *Term) (*Term, bool) {
	n := strings.TrimSuffix(strings.TrimPrefix(t.name, "spec."), ".bv")
	d := x.db.defs[n]
	if d == nil || !d.rec {
		return nil, false
	}
	env := &Env{x: x, st: x.scratch, cur: x.scratch, vals: map[string]Val{}, hyp: true}
	for i, p := range d.params {
		env.vals[p.name] = sInt(t.args[i])
		if p.sort == "arr" {
			x.byteArr[t.args[i]] = true
		}
		if p.sort == "bool" {
			env.vals[p.name] = sBool(t.args[i])
		}
	}
	x.noFacts++
	defer func() { x.noFacts-- }()
	v := env.eval(d.body)
	b := v.ts[0]
	if b.sort != t.sort {
		b = env.lift(v)
	}
	return Eq(t, b), true
}

func (e *Env) quant(x *SExpr) Val {
	a := x.args
	if len(a) != 4 {
		fail("spec: %s needs (i, lo, hi, body)", x.name)
	}
	lo, hi := e.intE(a[1]), e.intE(a[2])
	freshCount++
	bv := Const(fmt.Sprintf("%s?%d", a[0].name, freshCount), idxSort())
	n := e.with(a[0].name, sInt(bv))
	n.inQ++
	e.x.noFacts++
	be, tps := n.trigs(a[3])
	body := n.boolE(be)
	e.x.noFacts--
	rg := And(iLe(lo, bv), iLt(bv, hi))
	if rg == False {
		return sBool(BoolT(x.name == "all"))
	}
	if tps != nil && x.name == "all" {
		return sBool(Quant("forall", []*Term{bv}, Imp(rg, body), tps))
	}
	if x.name == "all" {
		return sBool(mkQuant("forall", []*Term{bv}, Imp(rg, body), e.hyp))
	}
	return sBool(mkQuant("exists", []*Term{bv}, And(rg, body), !e.hyp))
}

func sortTag(s *Sort) string {
	return strings.NewReplacer("(", "", ")", "", " ", "_").Replace(s.str)
}

// trigs strips explicit triggers: trig(p1, p2, body) is one multi-pattern; nesting gives alternatives.
func (e *Env) trigs(x *SExpr) (*SExpr, [][]*Term) {
	var out [][]*Term
	for x.op == "call" && x.name == "trig" {
		n := len(x.args) - 1
		var ps []*Term
		for _, a := range x.args[:n] {
			ps = append(ps, e.lift(e.eval(a)))
		}
		out = append(out, ps)
		x = x.args[n]
	}
	return x, out
}

// mkQuant builds a quantifier; for hypotheses, one version per index shape with a usable trigger.
func mkQuant(q string, bvs []*Term, body *Term, multi bool) *Term {
	if body == True || body == False {
		return body
	}
	if len(bvs) != 1 || bvs[0].sort != SInt {
		pats := collectPats(body, bvs)
		return Quant(q, bvs, body, pats)
	}
	bv := bvs[0]
	shifts := collectShifts(body, bv)
	if len(shifts) == 0 {
		return Quant(q, bvs, body, collectPats(body, bvs))
	}
	var vs []*Term
	for _, c := range shifts {
		freshCount++
		j := Const(fmt.Sprintf("j?%d", freshCount), SInt)
		nb := Subst(body, map[*Term]*Term{bv: Sub(j, c)})
		pats := simplePats(nb, j)
		vs = append(vs, Quant(q, []*Term{j}, nb, pats))
		if !multi {
			break
		}
	}
	if q == "forall" {
		return And(vs...)
	}
	return vs[0]
}

// collectShifts finds terms c such that (select A (bv + c)) occurs with A free of bv.
func collectShifts(body, bv *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	have := map[*Term]bool{}
	free := func(t *Term) bool { return !containsTerm(t, bv) }
	var rec func(t *Term, inner map[*Term]bool)
	rec = func(t *Term, inner map[*Term]bool) {
		if seen[t] {
			return
		}
		seen[t] = true
		idx := []*Term{}
		if t.op == "select" && free(t.args[0]) {
			idx = append(idx, t.args[1])
		} else if t.op == "app" {
			n := 0
			for _, a := range t.args {
				if !free(a) {
					n++
				}
			}
			if n == 1 {
				for _, a := range t.args {
					if !free(a) {
						idx = append(idx, a)
					}
				}
			}
		}
		for _, i := range idx {
			if i.sort != SInt {
				continue
			}
			l := linOf(i)
			if k := l.m[bv]; k != nil && k.Cmp(big.NewInt(1)) == 0 {
				c := Sub(i, bv)
				if free(c) && !hasBound(c) && !have[c] {
					have[c] = true
					out = append(out, c)
				}
			}
		}
		for _, a := range t.args {
			rec(a, inner)
		}
	}
	rec(body, nil)
	if len(out) > 4 {
		out = out[:4]
	}
	return out
}

// hasBound: mentions a quantified variable (names contain '?')
func hasBound(t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == "const" && strings.Contains(t.name, "?") {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func simplePats(body, j *Term) [][]*Term {
	var out [][]*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || t.op == "forall" || t.op == "exists" {
			return
		}
		seen[t] = true
		ok := false
		if t.op == "select" && t.args[1] == j && !containsTerm(t.args[0], j) {
			ok = true
		}
		if t.op == "app" {
			n := 0
			for _, a := range t.args {
				if a == j {
					n++
				} else if containsTerm(a, j) {
					n = -100
				}
			}
			ok = n == 1
		}
		if ok && patOK(t) {
			out = append(out, []*Term{t})
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(body)
	if len(out) > 3 {
		out = out[:3]
	}
	return out
}

// patOK: no interpreted boolean structure inside the pattern.
func patOK(t *Term) bool {
	switch t.op {
	case "ite", "and", "or", "not", "=", "<=", "=>", "forall", "exists", "store", "constarr":
		return t.op == "store" && patOK(t.args[0]) && patOK(t.args[1]) && patOK(t.args[2])
	}
	for _, a := range t.args {
		if !patOK(a) {
			return false
		}
	}
	return true
}

func collectPats(body *Term, bvs []*Term) [][]*Term {
	// one multi-pattern covering all variables from select/app terms
	var cands []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || t.op == "forall" || t.op == "exists" {
			return
		}
		seen[t] = true
		if t.op == "select" || t.op == "app" {
			if patOK(t) && plainIdx(t, bvs) {
				cands = append(cands, t)
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(body)
	var single [][]*Term
	for _, c := range cands {
		all := true
		for _, v := range bvs {
			if !containsTerm(c, v) {
				all = false
			}
		}
		if all {
			single = append(single, []*Term{c})
		}
	}
	if len(single) > 0 {
		if len(single) > 3 {
			single = single[:3]
		}
		return single
	}
	var mp []*Term
	need := map[*Term]bool{}
	for _, v := range bvs {
		need[v] = true
	}
	for _, c := range cands {
		use := false
		for v := range need {
			if containsTerm(c, v) {
				use = true
				delete(need, v)
			}
		}
		if use {
			mp = append(mp, c)
		}
	}
	if len(need) == 0 && len(mp) > 0 {
		return [][]*Term{mp}
	}
	return nil
}

// plainIdx: bound variables occur only as direct arguments (no arithmetic around them)
func plainIdx(t *Term, bvs []*Term) bool {
	isBV := func(a *Term) bool {
		for _, v := range bvs {
			if a == v {
				return true
			}
		}
		return false
	}
	any := false
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		for _, a := range t.args {
			if isBV(a) {
				if t.op != "select" && t.op != "app" {
					return false
				}
				any = true
				continue
			}
			if !rec(a) {
				return false
			}
		}
		return true
	}
	return rec(t) && any
}
