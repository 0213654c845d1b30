package main

// Calls: contracts, inlining, builtins, modelled library functions, frames.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

type ModLoc struct {
	key    string // heap key or prefix
	exact  bool
	ptr    *Term // nil: any
	lo, hi *Term // absolute element range (nil: all)
	cond   *Term
	src    string
	comps  []Comp
	kind   string // field elems ghost whole
}

func (x *Exec) typeByName(n string) types.Type {
	n = strings.TrimSpace(n)
	if strings.HasPrefix(n, "*") {
		return types.NewPointer(x.typeByName(n[1:]))
	}
	if strings.HasPrefix(n, "[]") {
		return types.NewSlice(x.typeByName(n[2:]))
	}
	if i := strings.Index(n, "["); i > 0 && strings.HasSuffix(n, "]") {
		g := x.typeByName(n[:i])
		a := x.typeByName(n[i+1 : len(n)-1])
		r, err := types.Instantiate(nil, g, []types.Type{a}, false)
		if err != nil {
			fail("instantiate %s: %v", n, err)
		}
		return r
	}
	if i := strings.Index(n, "."); i > 0 {
		p := x.l.byName[n[:i]]
		if p == nil {
			if n == "errors.errorString" || n == "fmt.wrapError" {
				return types.Typ[types.Int]
			}
			for _, q := range x.l.byName {
				for _, im := range q.tpkg.Imports() {
					if im.Name() == n[:i] {
						if o, ok := im.Scope().Lookup(n[i+1:]).(*types.TypeName); ok {
							return o.Type()
						}
					}
				}
			}
			fail("unknown package in type %s", n)
		}
		o, ok := p.tpkg.Scope().Lookup(n[i+1:]).(*types.TypeName)
		if !ok {
			fail("unknown type %s", n)
		}
		return o.Type()
	}
	if t, ok := x.tpNames[n]; ok {
		return t
	}
	if x.fi != nil {
		if o, ok := x.fi.pkg.tpkg.Scope().Lookup(n).(*types.TypeName); ok {
			return o.Type()
		}
	}
	if o, ok := types.Universe.Lookup(n).(*types.TypeName); ok {
		return o.Type()
	}
	fail("unknown type %s", n)
	return nil
}

// ---- frames ----

func (x *Exec) modLocs(env *Env, items []ModItem) []ModLoc {
	var out []ModLoc
	for _, m := range items {
		var cond *Term
		if m.cond != nil {
			cond = env.goalE(m.cond)
		}
		for _, l := range x.modLoc(env, m.e) {
			l.cond = cond
			l.src = m.e.String()
			out = append(out, l)
		}
	}
	return out
}

func (x *Exec) modLoc(env *Env, e *SExpr) []ModLoc {
	switch e.op {
	case "ident":
		if _, ok := x.db.ghosts[e.name]; ok {
			return []ModLoc{{key: "ghost:" + e.name, exact: true, kind: "ghost"}}
		}
		if env.pkg != nil {
			if v, ok := env.pkg.tpkg.Scope().Lookup(e.name).(*types.Var); ok {
				return []ModLoc{{key: globKey(v), kind: "field", ptr: Num(0), comps: comps(v.Type())}}
			}
		}
	case "un":
		if e.name == "*" {
			p := env.eval(e.args[0])
			return []ModLoc{{key: ptrPrefix(p), kind: "field", ptr: p.t(), comps: comps(ptrElem(p.T))}}
		}
	case "field":
		p := env.eval(e.args[0])
		path, ok := findField(p.T, e.name)
		if !ok {
			fail("modifies: no field %s in %v", e.name, p.T)
		}
		for _, i := range path[:len(path)-1] {
			p = stepField(env.st, p, i)
		}
		if p.K != KPtr {
			fail("modifies: %s is not reached through a pointer", e)
		}
		s := under(ptrElem(p.T)).(*types.Struct)
		f := s.Field(path[len(path)-1])
		return []ModLoc{{key: ptrPrefix(p) + "." + f.Name(), kind: "field", ptr: p.t(), comps: comps(f.Type())}}
	case "call":
		switch e.name {
		case "elems":
			s := env.eval(e.args[0])
			if s.K != KSlice {
				fail("modifies: elems of non-slice")
			}
			l := ModLoc{key: elemPrefix(under(s.T).(*types.Slice).Elem()), kind: "elems", ptr: s.arr(), comps: comps(under(s.T).(*types.Slice).Elem())}
			if len(e.args) == 3 {
				l.lo = Add(s.off(), env.intE(e.args[1]))
				l.hi = Add(s.off(), env.intE(e.args[2]))
			}
			return []ModLoc{l}
		case "mapof":
			m := env.eval(e.args[0])
			mt := under(m.T).(*types.Map)
			return []ModLoc{{key: "mapdom:" + typeKey(mt), exact: true, kind: "map", ptr: m.t()}, {key: mapPrefix(mt), kind: "map", ptr: m.t(), comps: comps(mt.Elem())}}
		case "all": // all(Type.field) or all(Type): every object
			n := e.args[0].String()
			if e.args[0].op == "str" {
				n = e.args[0].name
			}
			return []ModLoc{{key: n, kind: "whole"}}
		}
	}
	fail("modifies: cannot interpret %s", e)
	return nil
}

func (l ModLoc) matchesKey(k string) bool {
	if l.exact {
		return k == l.key
	}
	return k == l.key || strings.HasPrefix(k, l.key+".") || strings.HasPrefix(k, l.key+"#")
}

func (x *Exec) checkFrame(st *State, w WriteRec) {
	if strings.HasPrefix(w.key, "ghost:visited") {
		return
	}
	if w.ptr != nil && x.allocated[w.ptr] {
		return
	}
	var alts []*Term
	if w.ptr != nil && !strings.HasPrefix(w.key, "ghost:") && !strings.HasPrefix(w.key, "global:") {
		alts = append(alts, Le(x.top0, w.ptr))
	}
	for _, l := range x.frame {
		if !l.matchesKey(w.key) {
			continue
		}
		if l.ptr == nil {
			if l.cond == nil {
				return
			}
			alts = append(alts, l.cond)
			continue
		}
		if w.ptr == nil {
			continue
		}
		c := Eq(w.ptr, l.ptr)
		if l.lo != nil {
			if w.idx != nil {
				c = And(c, iLe(l.lo, w.idx), iLt(w.idx, l.hi))
			} else if w.lo != nil {
				c = And(c, Or(iLe(w.hi, w.lo), And(iLe(l.lo, w.lo), iLe(w.hi, l.hi))))
			} else {
				c = False
			}
		}
		if l.cond != nil {
			c = And(c, l.cond)
		}
		alts = append(alts, c)
	}
	g := Or(alts...)
	if w.lo != nil && w.hi != nil {
		g = Or(g, iLe(w.hi, w.lo))
	}
	if st.quick(g) {
		return
	}
	for _, a := range alts {
		if st.quick(a) {
			return
		}
	}
	x.oblige(st, g, "frame", "write to "+w.key+" is permitted by modifies", x.curPos)
}

// havocMod forgets the locations a callee may modify and checks that the caller may.
func (x *Exec) havocMod(st *State, ls []ModLoc) {
	for _, l := range ls {
		switch l.kind {
		case "ghost":
			g := strings.TrimPrefix(l.key, "ghost:")
			old := x.ghostVal(st, g)
			nv := Const(freshName(l.key), old.ts[0].sort)
			t := nv
			if l.cond != nil {
				t = Ite(l.cond, nv, old.ts[0])
			}
			st.setGhost(g, Val{K: KScalar, ts: []*Term{t}, spec: true, T: old.T})
			st.noteWriteCond(WriteRec{key: l.key, ptr: Num(0)}, l.cond)
		case "whole":
			var ks []string
			for k := range x.heapSorts {
				if l.matchesKey(k) {
					ks = append(ks, k)
				}
			}
			x.wholeTypeKeys(l.key, &ks)
			sort.Strings(ks)
			last := ""
			for _, k := range ks {
				if k == last {
					continue
				}
				last = k
				h := st.heapGet(k, x.heapSorts[k])
				st.noteWriteCond(WriteRec{key: k}, l.cond)
				c := Const(freshName("H:"+k), x.heapSorts[k])
				x.baseTop[c] = st.top
				if l.cond != nil {
					st.heap[k] = Ite(l.cond, c, h)
				} else {
					st.heap[k] = c
				}
			}
		case "field":
			for _, c := range l.comps {
				k := l.key + c.suf
				h := st.heapGet(k, heapSort(c.sort))
				st.noteWriteCond(WriteRec{key: k, ptr: l.ptr}, l.cond)
				nv := Const(freshName("hv:"+k), c.sort)
				compRange(nv, c)
				var t *Term = nv
				if l.cond != nil {
					t = Ite(l.cond, nv, Select(h, l.ptr))
				}
				st.heap[k] = Store(h, l.ptr, t)
			}
		case "elems", "map":
			if l.exact {
				h := st.heapGet(l.key, x.heapSorts[l.key])
				st.noteWriteCond(WriteRec{key: l.key, ptr: l.ptr}, l.cond)
				st.heap[l.key] = Store(h, l.ptr, Const(freshName("hv:"+l.key), h.sort.E))
				continue
			}
			for _, c := range l.comps {
				k := l.key + c.suf
				var h *Term
				if l.kind == "elems" {
					h = st.heapGet(k, heapSort(SArr(idxSort(), c.sort)))
				} else {
					h = st.heapGet(k, x.heapSorts[k])
				}
				st.noteWriteCond(WriteRec{key: k, ptr: l.ptr, lo: l.lo, hi: l.hi}, l.cond)
				nv := Const(freshName("hv:"+k), h.sort.E)
				old := Select(h, l.ptr)
				if l.kind == "elems" && c.role == "int" {
					st.markBytes(c, nv)
				}
				if l.lo != nil {
					j := Const(freshName("j?"), idxSort())
					q := Quant("forall", []*Term{j}, Or(And(iLe(l.lo, j), iLt(j, l.hi)), Eq(Select(nv, j), Select(old, j))), [][]*Term{{Select(nv, j)}})
					st.assume(q)
				}
				var t *Term = nv
				if l.cond != nil && l.kind == "elems" {
					// no conditional array: its selects would not be legal patterns
					st.assume(Or(l.cond, Eq(nv, old)))
				} else if l.cond != nil {
					t = Ite(l.cond, nv, old)
				}
				st.heap[k] = Store(h, l.ptr, t)
			}
		}
	}
}

// wholeTypeKeys makes sure every component key of a whole-type modifies item exists.
func (x *Exec) wholeTypeKeys(key string, ks *[]string) {
	tn, fld := key, ""
	var t types.Type
	try := func(n string) bool {
		defer func() { recover() }()
		t = x.typeByName(n)
		return t != nil
	}
	if strings.HasPrefix(key, "elem:") {
		if try(strings.TrimPrefix(key, "elem:")) {
			for _, c := range comps(t) {
				k := key + c.suf
				x.heapSorts[k] = heapSort(SArr(idxSort(), c.sort))
				*ks = append(*ks, k)
			}
		}
		return
	}
	if !try(tn) {
		i := strings.LastIndex(key, ".")
		if i < 0 {
			return
		}
		tn, fld = key[:i], key[i:]
		if !try(tn) {
			return
		}
	}
	for _, c := range comps(t) {
		if fld == "" || c.suf == fld || strings.HasPrefix(c.suf, fld+"#") || strings.HasPrefix(c.suf, fld+".") {
			k := tn + c.suf
			x.heapSorts[k] = heapSort(c.sort)
			*ks = append(*ks, k)
		}
	}
}

func (st *State) noteWriteCond(w WriteRec, cond *Term) {
	x := st.x
	for _, d := range x.disc {
		if w.lo != nil {
			w2 := w
			w2.lo, w2.hi = nil, nil
			d.add(w2)
		} else {
			d.add(w)
		}
	}
	if x.discovering() || !x.hasFrame {
		return
	}
	if cond != nil {
		// the write happens only under cond
		s2 := *st
		s2.assume(cond)
		x.checkFrame(&s2, w)
		return
	}
	x.checkFrame(st, w)
}

// ---- calls ----

func (x *Exec) call(st *State, c *ast.CallExpr, k func(*State, Val)) {
	x.curPos = c.Pos()
	info := st.fr.fi.pkg.info
	fun := c.Fun
	for {
		p, ok := fun.(*ast.ParenExpr)
		if !ok {
			break
		}
		fun = p.X
	}
	// conversion
	if tv, ok := info.Types[fun]; ok && tv.IsType() {
		x.ev(st, c.Args[0], func(st *State, v Val) { k(st, x.convert(st, v, substType(tv.Type, st.fr.sub), c.Pos())) })
		return
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := info.Uses[id].(*types.Builtin); ok {
			x.builtin(st, b.Name(), c, k)
			return
		}
	}
	if lit, ok := fun.(*ast.FuncLit); ok {
		x.evs(st, c.Args, func(st *State, args []Val) {
			x.callLit(st, &FuncVal{lit: lit, owner: st.fr.fi, sub: st.fr.sub}, args, c.Pos(), k)
		})
		return
	}
	if obj := callee(info, fun); obj != nil {
		if nat := natives[funcKey(obj.Origin())]; nat != nil {
			nat(x, st, c, k)
			return
		}
	}
	if len(c.Args) == 1 {
		if tup, ok := info.TypeOf(c.Args[0]).(*types.Tuple); ok && tup.Len() > 1 {
			x.evMulti(st, c.Args[0], func(st *State, v Val) { x.callWith(st, c, v.fs, k) })
			return
		}
	}
	// method receiver is evaluated before the arguments; receivers here are side-effect free or simple
	x.evs(st, c.Args, func(st *State, args []Val) { x.callWith(st, c, args, k) })
}

func callee(info *types.Info, fun ast.Expr) *types.Func {
	switch n := fun.(type) {
	case *ast.Ident:
		f, _ := info.Uses[n].(*types.Func)
		return f
	case *ast.SelectorExpr:
		if s := info.Selections[n]; s != nil {
			f, _ := s.Obj().(*types.Func)
			return f
		}
		f, _ := info.Uses[n.Sel].(*types.Func)
		return f
	case *ast.IndexExpr:
		return callee(info, n.X)
	case *ast.IndexListExpr:
		return callee(info, n.X)
	}
	return nil
}

func (x *Exec) callWith(st *State, c *ast.CallExpr, args []Val, k func(*State, Val)) {
	info := st.fr.fi.pkg.info
	fun := c.Fun
	for {
		p, ok := fun.(*ast.ParenExpr)
		if !ok {
			break
		}
		fun = p.X
	}
	switch n := fun.(type) {
	case *ast.SelectorExpr:
		if sel := info.Selections[n]; sel != nil && sel.Kind() == types.MethodVal {
			f := sel.Obj().(*types.Func)
			x.recvFor(st, n, sel, f, func(st *State, recv Val) {
				x.callMethod(st, f, recv, args, c, k)
			})
			return
		}
		if sel := info.Selections[n]; sel != nil && sel.Kind() == types.FieldVal {
			// function-typed field
			x.ev(st, fun, func(st *State, fv Val) {
				x.callFunc(st, fv, x.fieldCallbackKey(st, n), args, c, k)
			})
			return
		}
		if f, ok := info.Uses[n.Sel].(*types.Func); ok {
			x.callStatic(st, f, nil, x.instSub(st, n.Sel, f), args, c.Pos(), c, k)
			return
		}
		if v, ok := info.Uses[n.Sel].(*types.Var); ok {
			x.ev(st, fun, func(st *State, fv Val) { x.callFunc(st, fv, v.Pkg().Name()+"."+v.Name(), args, c, k) })
			return
		}
	case *ast.Ident:
		if f, ok := info.Uses[n].(*types.Func); ok {
			x.callStatic(st, f, nil, x.instSub(st, n, f), args, c.Pos(), c, k)
			return
		}
		x.ev(st, fun, func(st *State, fv Val) { x.callFunc(st, fv, st.fr.fi.key+"."+n.Name, args, c, k) })
		return
	case *ast.IndexExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if f, ok := info.Uses[id].(*types.Func); ok {
				x.callStatic(st, f, nil, x.instSub(st, id, f), args, c.Pos(), c, k)
				return
			}
		}
		if se, ok := n.X.(*ast.SelectorExpr); ok {
			if f, ok := info.Uses[se.Sel].(*types.Func); ok {
				x.callStatic(st, f, nil, x.instSub(st, se.Sel, f), args, c.Pos(), c, k)
				return
			}
		}
	}
	x.ev(st, fun, func(st *State, fv Val) { x.callFunc(st, fv, "", args, c, k) })
}

func (x *Exec) fieldCallbackKey(st *State, n *ast.SelectorExpr) string {
	t := x.typeOf(st, n.X)
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	// find the struct that declares the field
	sel := st.fr.fi.pkg.info.Selections[n]
	for _, i := range sel.Index()[:len(sel.Index())-1] {
		t = under(t).(*types.Struct).Field(i).Type()
		if p, ok := under(t).(*types.Pointer); ok {
			t = p.Elem()
		}
	}
	name := n.Sel.Name
	if st, ok := under(t).(*types.Struct); ok {
		for _, old := range oldFields(t) {
			if i, ok := renamedField(t, old); ok && st.Field(i).Name() == name {
				name = old
			}
		}
	}
	return typeKey(t) + "." + name
}

// instSub: type arguments of a generic function call.
func (x *Exec) instSub(st *State, id *ast.Ident, f *types.Func) map[*types.TypeParam]types.Type {
	sig := f.Origin().Type().(*types.Signature)
	tps := sig.TypeParams()
	if tps == nil || tps.Len() == 0 {
		return nil
	}
	inst, ok := st.fr.fi.pkg.info.Instances[id]
	if !ok {
		return nil
	}
	m := map[*types.TypeParam]types.Type{}
	for i := 0; i < tps.Len(); i++ {
		m[tps.At(i)] = substType(inst.TypeArgs.At(i), st.fr.sub)
	}
	return m
}

// recvFor evaluates the receiver, walking embedded fields, as the method's receiver type.
func (x *Exec) recvFor(st *State, n *ast.SelectorExpr, sel *types.Selection, f *types.Func, k func(*State, Val)) {
	path := sel.Index()
	path = path[:len(path)-1]
	sig := f.Type().(*types.Signature)
	wantPtr := sig.Recv() != nil && isPtr(sig.Recv().Type())
	bt := x.typeOf(st, n.X)
	finish := func(st *State, lv *LV) {
		for _, i := range path {
			lv = x.stepLV(st, lv, i, n.Pos())
		}
		lv.T = substType(lv.T, st.fr.sub)
		if _, isI := under(lv.T).(*types.Interface); isI {
			k(st, x.load(st, lv, n.Pos()))
			return
		}
		if isPtr(lv.T) {
			p := x.load(st, lv, n.Pos())
			if wantPtr {
				k(st, p)
				return
			}
			k(st, x.load(st, x.ptrLV(st, p, n.Pos()), n.Pos()))
			return
		}
		if wantPtr {
			k(st, x.addrOf(st, lv, n.Pos()))
			return
		}
		k(st, x.load(st, lv, n.Pos()))
	}
	if isPtr(bt) {
		x.ev(st, n.X, func(st *State, p Val) {
			if len(path) == 0 {
				if wantPtr {
					k(st, p)
					return
				}
				k(st, x.load(st, x.ptrLV(st, p, n.Pos()), n.Pos()))
				return
			}
			finish(st, x.ptrLV(st, p, n.X.Pos()))
		})
		return
	}
	if x.addressable(st, n.X) {
		x.lval(st, n.X, finish)
		return
	}
	x.ev(st, n.X, func(st *State, v Val) {
		for _, i := range path {
			v = stepField(st, v, i)
		}
		if v.K == KStruct && wantPtr {
			fail("%s: method on unaddressable value", x.pos(n.Pos()))
		}
		k(st, v)
	})
}

func (x *Exec) callMethod(st *State, f *types.Func, recv Val, args []Val, c *ast.CallExpr, k func(*State, Val)) {
	if recv.K == KIface {
		tag := recv.ts[0]
		if tag.isNum() && tag.num.Sign() != 0 {
			dt := tagTypes[int(tag.num.Int64())]
			if dt != nil {
				x.dispatch(st, f.Name(), dt, recv, args, c, k)
				return
			}
		}
		x.oblige(st, Ne(tag, Num(0)), "nil", "method call on nil interface", c.Pos())
		key := funcKey(f)
		if n, ok := recv.T.(*types.Named); ok {
			key2 := n.Obj().Name() + "." + f.Name()
			if n.Obj().Pkg() != nil {
				key2 = n.Obj().Pkg().Name() + "." + key2
			}
			if x.db.contracts[key2] != nil {
				key = key2
			}
		}
		con := x.db.contracts[key]
		if con == nil && f.Name() == "Error" && f.Pkg() == nil {
			x.trusted["error.Error (arbitrary text, no effect)"] = true
			k(st, freshVal("Error", types.Typ[types.String]))
			return
		}
		if con == nil {
			// closed world: the dynamic type is one of the module's implementations (checked)
			impls := x.implementers(under(recv.T).(*types.Interface))
			var live []types.Type
			var any []*Term
			for _, t := range impls {
				e := Eq(tag, ifaceTag(t))
				if !st.quick(Not(e)) {
					live = append(live, t)
					any = append(any, e)
				}
			}
			if len(live) == 0 {
				fail("%s: no contract for interface method %s", x.pos(c.Pos()), key)
			}
			x.oblige(st, Or(any...), "dyn", "dynamic type of the receiver of "+key, c.Pos())
			for i, t := range live {
				b := st
				if i < len(live)-1 {
					b = st.clone()
				}
				b.assume(any[i])
				if b.dead || b.infeasible() {
					continue
				}
				x.dispatch(b, f.Name(), t, recv, args, c, k)
			}
			return
		}
		x.applyContract(st, con, f, append([]Val{recv}, args...), nil, c.Pos(), c, k)
		return
	}
	sub := map[*types.TypeParam]types.Type{}
	rt := recv.T
	if p, ok := under(rt).(*types.Pointer); ok {
		rt = p.Elem()
	}
	if n, ok := rt.(*types.Named); ok && n.TypeArgs() != nil {
		osig := f.Origin().Type().(*types.Signature)
		for i := 0; i < osig.RecvTypeParams().Len(); i++ {
			sub[osig.RecvTypeParams().At(i)] = n.TypeArgs().At(i)
		}
	}
	x.callStatic(st, f, &recv, sub, args, c.Pos(), c, k)
}

// implementers lists the module's types (values and pointers) that implement the interface.
func (x *Exec) implementers(it *types.Interface) (ts []types.Type) {
	var names []string
	for n := range x.l.byName {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		p := x.l.byName[n]
		if p.tpkg == nil {
			continue
		}
		sc := p.tpkg.Scope()
		for _, o := range sc.Names() {
			tn, ok := sc.Lookup(o).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || nt.TypeParams() != nil || types.IsInterface(nt) {
				continue
			}
			if types.Implements(nt, it) {
				ts = append(ts, nt)
			}
			if types.Implements(types.NewPointer(nt), it) {
				ts = append(ts, types.NewPointer(nt))
			}
		}
	}
	return ts
}

func (x *Exec) dispatch(st *State, name string, dt types.Type, recv Val, args []Val, c *ast.CallExpr, k func(*State, Val)) {
	var pkg *types.Package
	b := dt
	if p, ok := b.(*types.Pointer); ok {
		b = p.Elem()
	}
	if n, ok := b.(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	obj, path, _ := types.LookupFieldOrMethod(dt, true, pkg, name)
	f, ok := obj.(*types.Func)
	if !ok {
		fail("no method %s on %v", name, dt)
	}
	v := x.unbox(st, recv, dt)
	for _, i := range path[:len(path)-1] {
		if v.K == KPtr {
			x.nonNil(st, v.t(), "nil embedded pointer", c.Pos())
		}
		v = stepField(st, v, i)
	}
	if v.K == KIface {
		x.callMethod(st, f, v, args, c, k)
		return
	}
	sig := f.Type().(*types.Signature)
	if v.K == KPtr && !isPtr(sig.Recv().Type()) {
		v = st.loadAt(ptrPrefix(v), v.t(), ptrElem(v.T))
	}
	x.callMethod(st, f, v, args, c, k)
}

// callFunc calls a function value.
func (x *Exec) callFunc(st *State, fv Val, key string, args []Val, c *ast.CallExpr, k func(*State, Val)) {
	if fv.K == KFunc {
		if fv.fn.lit != nil {
			x.callLit(st, fv.fn, args, c.Pos(), k)
			return
		}
		if fv.fn.fi != nil {
			if fv.fn.recv != nil {
				x.callStatic(st, fv.fn.fi.obj, fv.fn.recv, nil, args, c.Pos(), c, k)
			} else {
				x.callStatic(st, fv.fn.fi.obj, nil, nil, args, c.Pos(), c, k)
			}
			return
		}
		fail("%s: call of unknown function value", x.pos(c.Pos()))
	}
	x.oblige(st, Ne(fv.t(), Num(0)), "nil", "call of nil function", c.Pos())
	con := x.db.contracts[key]
	if con == nil || con.kind != "callback" {
		fail("%s: no callback contract %s", x.pos(c.Pos()), key)
	}
	x.applyContract(st, con, nil, args, under(fv.T).(*types.Signature), c.Pos(), c, k)
}

func (x *Exec) callLit(st *State, fn *FuncVal, args []Val, pos token.Pos, k func(*State, Val)) {
	lit := fn.lit.(*ast.FuncLit)
	info := fn.owner.pkg.info
	sig := info.TypeOf(lit).(*types.Signature)
	saved := st.fr
	fr := &Frame{fi: fn.owner, sub: fn.sub, sig: sig, parent: saved, callPos: pos, lit: lit}
	st.fr = fr
	i := 0
	for _, f := range lit.Type.Params.List {
		for _, nm := range f.Names {
			if nm.Name != "_" {
				v := info.Defs[nm].(*types.Var)
				x.bindVar(st, fn.owner, v, x.conv(st, args[i], substType(v.Type(), fn.sub)))
			}
			i++
		}
	}
	x.bindResults(st, fr, sig)
	x.runBody(st, lit.Body, saved, "literal", k)
}

// runBody executes an inlined body and returns to the caller frame.
func (x *Exec) runBody(st *State, body *ast.BlockStmt, saved *Frame, what string, k func(*State, Val)) {
	base := st.facts
	nd := 0
	for f := saved; f != nil; f = f.parent {
		nd++
	}
	if nd > 40 {
		fail("inlining depth at %s", what)
	}
	nloops := len(st.loops)
	back := func(s *State, rv []Val) {
		p := *saved
		p.defers = append([]Deferred{}, saved.defers...)
		s.fr = &p
		s.loops = s.loops[:nloops:nloops]
		k(s, Val{K: KTuple, fs: rv, T: types.NewTuple()})
	}
	if !x.mergeOn {
		x.block(st, body.List, func(s *State, o Outcome) { x.ret(s, o, back) })
		return
	}
	keep := map[*types.Var]Val{}
	for v, val := range st.vars {
		keep[v] = val
	}
	var sts []*State
	var n int
	var types0 []Val
	x.block(st, body.List, func(s *State, o Outcome) {
		x.ret(s, o, func(s *State, rv []Val) {
			if s.dead {
				return
			}
			n = len(rv)
			types0 = rv
			for i, v := range rv {
				s.ghost[fmt.Sprintf("$ret%d", i)] = v
			}
			sts = append(sts, s)
		})
	})
	if len(sts) == 0 {
		return
	}
	m := sts[0]
	if len(sts) > 1 {
		m = mergeStates(sts, base, keep)
	}
	_ = types0
	var rv []Val
	for i := 0; i < n; i++ {
		rv = append(rv, m.ghost[fmt.Sprintf("$ret%d", i)])
		delete(m.ghost, fmt.Sprintf("$ret%d", i))
	}
	back(m, rv)
}

func variadicArgs(x *Exec, st *State, sig *types.Signature, args []Val, c *ast.CallExpr) []Val {
	if !sig.Variadic() || (c != nil && c.Ellipsis.IsValid()) {
		return args
	}
	n := sig.Params().Len()
	if len(args) == n && c == nil {
		return args
	}
	el := sig.Params().At(n - 1).Type().(*types.Slice).Elem()
	rest := args[n-1:]
	out := append([]Val{}, args[:n-1]...)
	if len(rest) == 0 {
		return append(out, zeroVal(types.NewSlice(el)))
	}
	id := st.alloc("variadic")
	var inner []*Term
	cs := comps(el)
	for _, cc := range cs {
		inner = append(inner, ConstArr(SArr(idxSort(), cc.sort), zeroTerm(cc)))
	}
	for i, v := range rest {
		for j, f := range flatten(x.conv(st, v, el)) {
			inner[j] = Store(inner[j], idxNum(int64(i)), f)
		}
	}
	x.setInner(st, el, id, inner, nil, nil)
	ln := idxNum(int64(len(rest)))
	return append(out, Val{T: types.NewSlice(el), K: KSlice, ts: []*Term{id, idxNum(0), ln, ln}})
}

// callStatic calls a known function or method.
func (x *Exec) callStatic(st *State, f *types.Func, recv *Val, sub map[*types.TypeParam]types.Type, args []Val, pos token.Pos, c *ast.CallExpr, k func(*State, Val)) {
	f = f.Origin()
	key := funcKey(f)
	con := x.db.contracts[key]
	if x.con != nil && x.con.opts["inline:"+key] != "" {
		con = nil
	}
	sig := f.Type().(*types.Signature)
	if con == nil || con.inline {
		if fi := x.l.byObj[f]; fi == nil || fi.decl.Body == nil {
			if r := x.sink(st, f, key, sig, sub, k); r {
				return
			}
			fail("%s: no contract or model for %s", x.pos(pos), key)
		}
	}
	args = variadicArgs(x, st, sig, args, c)
	all := args
	var ptypes []types.Type
	if recv != nil {
		all = append([]Val{*recv}, args...)
		ptypes = append(ptypes, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ptypes = append(ptypes, sig.Params().At(i).Type())
	}
	conv := make([]Val, len(all))
	for i, a := range all {
		conv[i] = a
		if i < len(ptypes) {
			conv[i] = x.conv(st, a, substType(ptypes[i], sub))
		}
	}
	if con != nil && !con.inline {
		x.applyContract2(st, con, f, conv, sig, sub, pos, c, k)
		return
	}
	fi := x.l.byObj[f]
	// recursion guard
	for fr := st.fr; fr != nil; fr = fr.parent {
		if fr.fi == fi && fr.lit == nil && fr.parent != nil {
			fail("%s: recursive call of %s without contract", x.pos(pos), key)
		}
	}
	if fi == x.fi {
		fail("%s: recursive call of %s", x.pos(pos), key)
	}
	x.inlined[key] = true
	saved := st.fr
	fr := &Frame{fi: fi, sub: sub, sig: sig, parent: saved, callPos: pos}
	st.fr = fr
	i := 0
	if recv != nil {
		if r := sig.Recv(); r.Name() != "" && r.Name() != "_" {
			x.bindVar(st, fi, r, conv[0])
		}
		i = 1
	}
	for j := 0; j < sig.Params().Len(); j++ {
		v := sig.Params().At(j)
		if v.Name() != "" && v.Name() != "_" {
			x.bindVar(st, fi, v, conv[i+j])
		}
	}
	x.bindResults(st, fr, sig)
	x.runBody(st, fi.decl.Body, saved, key, k)
}

// sink: library calls whose only relevant effect is an arbitrary result.
func (x *Exec) sink(st *State, f *types.Func, key string, sig *types.Signature, sub map[*types.TypeParam]types.Type, k func(*State, Val)) bool {
	if !sinks[key] {
		return false
	}
	x.trusted[key+" (arbitrary result, no effect)"] = true
	var rv []Val
	for i := 0; i < sig.Results().Len(); i++ {
		v := freshVal(f.Name(), sig.Results().At(i).Type())
		st.valFacts(v)
		if types.Identical(sig.Results().At(i).Type(), types.Universe.Lookup("error").Type()) {
			st.assume(Ne(v.ts[0], Num(0)))
		}
		rv = append(rv, v)
	}
	k(st, Val{K: KTuple, fs: rv})
	return true
}

// sinks: functions without effect on modelled state. Those returning an error return a non-nil one.
var sinks = map[string]bool{
	"fmt.Errorf": true, "errors.New": true, "fmt.Sprintf": true, "hex.EncodeToString": true, "strconv.Itoa": true,
	"time.Now": true, "math.Floor": true,
}

func (x *Exec) applyContract(st *State, con *Contract, f *types.Func, args []Val, sig *types.Signature, pos token.Pos, c *ast.CallExpr, k func(*State, Val)) {
	if f != nil {
		sig = f.Type().(*types.Signature)
	}
	ps := sig.Params().Len()
	off := len(args) - ps
	if off < 0 || off > 1 {
		// variadic
		r := args
		if off == 1 || sig.Recv() != nil && f != nil {
			r = append([]Val{args[0]}, variadicArgs(x, st, sig, args[1:], c)...)
		} else {
			r = variadicArgs(x, st, sig, args, c)
		}
		args = r
		off = len(args) - ps
	}
	conv := append([]Val{}, args...)
	for i := 0; i < ps; i++ {
		conv[off+i] = x.conv(st, args[off+i], sig.Params().At(i).Type())
	}
	x.applyContract2(st, con, f, conv, sig, nil, pos, c, k)
}

func (x *Exec) applyContract2(st *State, con *Contract, f *types.Func, args []Val, sig *types.Signature, sub map[*types.TypeParam]types.Type, pos token.Pos, c *ast.CallExpr, k func(*State, Val)) {
	x.used[con.key] = true
	savedTP := x.tpNames
	x.tpNames = map[string]types.Type{}
	for tp, t := range sub {
		x.tpNames[tp.Obj().Name()] = t
	}
	if sig.Recv() != nil && len(args) > 0 && args[0].T != nil {
		t := args[0].T
		if isPtr(t) {
			t = ptrElem(t)
		}
		if n, ok := t.(*types.Named); ok && n.TypeArgs() != nil {
			for i := 0; i < n.TypeArgs().Len(); i++ {
				x.tpNames[n.Origin().TypeParams().At(i).Obj().Name()] = n.TypeArgs().At(i)
			}
		}
	}
	k0 := k
	k = func(st *State, v Val) {
		x.tpNames = savedTP
		k0(st, v)
	}
	defer func() { x.tpNames = savedTP }()
	if len(con.params) != len(args) {
		fail("%s: contract %s has %d parameters, call has %d", x.pos(pos), con.key, len(con.params), len(args))
	}
	// a slice of an array variable or field is passed as a new array, copied back after the call (the callee keeps no reference)
	for i, a := range args {
		if a.K != KSlice || a.via == nil {
			continue
		}
		via, el := a.via, under(a.T).(*types.Slice).Elem()
		arrv := x.load(st, via, pos)
		id := st.alloc("array")
		for j, c := range comps(el) {
			key := elemPrefix(el) + c.suf
			h := st.heapGet(key, heapSort(SArr(idxSort(), c.sort)))
			st.noteWriteR(WriteRec{key: key, ptr: id})
			st.markBytes(c, arrv.ts[j])
			st.heap[key] = Store(h, id, arrv.ts[j])
		}
		args = append([]Val{}, args...)
		args[i] = Val{T: a.T, K: KSlice, ts: []*Term{id, a.off(), a.len(), a.cap()}}
		k1 := k
		k = func(st *State, v Val) {
			x.store(st, via, Val{T: arrv.T, K: KArray, ts: st.innerArrs(el, id)}, pos)
			k1(st, v)
		}
	}
	env := &Env{x: x, st: st, cur: st, vals: map[string]Val{}}
	if f != nil && f.Pkg() != nil {
		env.pkg = x.l.byName[f.Pkg().Name()]
	}
	for i, p := range con.params {
		env.vals[p] = args[i]
	}
	env.pre = env.vals
	if con.kind == "func" && sig.Recv() != nil && isPtr(sig.Recv().Type()) && con.opts["nilrecv"] == "" {
		x.nonNil(st, args[0].t(), "receiver of "+con.key+" non-nil", pos)
	}
	ce := x.bodyEnv(st, pos)
	for n, v := range env.vals {
		ce.vals["$"+n] = v
	}
	x.applyUses(st, ce, "call "+con.key)
	x.checkAsserts(st, ce, "call "+con.key, pos)
	for i, p := range con.params {
		if dn, ok := con.dyn[p]; ok && args[i].K == KIface {
			x.oblige(st, Eq(args[i].ts[0], ifaceTag(x.typeByName(dn))), "pre", con.key+": dynamic type of "+p, pos)
		}
	}
	for _, r := range con.refuses {
		if x.refusing != "" {
			st.assume(Not(env.goalE(r.e)))
		}
	}
	if st.dead {
		return
	}
	for i, r := range con.requires {
		nm := r.label
		if nm == "" {
			nm = fmt.Sprintf("requires#%d", i+1)
		}
		x.oblige(st, env.goalE(r.e), "pre", con.key+" "+nm+": "+r.e.src, pos)
	}
	if st.dead {
		return
	}
	old := st.snap()
	env.old = old
	env.st = old
	x.curPos = pos
	mods := x.modLocs(env, con.modifies)
	x.havocMod(st, mods)
	env.st = st
	if con.opts["pure"] == "" {
		nt := Const(freshName("top"), SInt)
		SetRange(nt, big.NewInt(1), nil)
		st.assume(Le(st.top, nt))
		st.top = nt
		for _, d := range x.disc {
			d.top = true
		}
	}
	var rv []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := substType(sig.Results().At(i).Type(), sub)
		nm := "r"
		if i < len(con.results) {
			nm = con.results[i]
		}
		v := freshVal(lastPart(con.key)+"."+nm, t)
		if dn, ok := con.dyn[nm]; ok {
			if kindOf(t) == KIface {
				v.ts[0] = ifaceTag(x.typeByName(dn))
			}
		}
		st.valFacts(v)
		rv = append(rv, v)
	}
	if len(con.results) != len(rv) {
		fail("%s: contract %s has %d results, code has %d", x.pos(pos), con.key, len(con.results), len(rv))
	}
	post := *env
	post.vals = map[string]Val{}
	for n, v := range env.vals {
		post.vals[n] = v
	}
	for i, r := range con.results {
		post.vals[r] = rv[i]
	}
	for _, e := range con.ensures {
		st.assume(post.hypE(e.e))
	}
	if vacOn && !x.noOracle {
		c := x.vac[x.pos(pos)+" "+con.key]
		if st.dead || x.oracle(st, False) {
			c[0]++
		} else {
			c[1]++
		}
		x.vac[x.pos(pos)+" "+con.key] = c
	}
	if con.trusted != "" || con.kind == "iface" || con.kind == "callback" {
		x.trusted[con.kind+" "+con.key+": "+con.trusted] = true
	}
	ce = x.bodyEnv(st, pos)
	ce.old = x.entry
	for n, v := range post.vals {
		ce.vals["$"+n] = v
	}
	ce.lold = old
	x.setGhosts(st, ce, "call "+con.key)
	x.setGhosts(st, ce, "after "+con.key)
	x.applyUses(st, ce, "after "+con.key)
	x.checkAsserts(st, ce, "after "+con.key, pos)
	if st.dead {
		return
	}
	k(st, Val{K: KTuple, fs: rv})
}

func lastPart(s string) string { return s[strings.LastIndex(s, ".")+1:] }

// ---- builtins ----

func (x *Exec) builtin(st *State, name string, c *ast.CallExpr, k func(*State, Val)) {
	one := func(st *State, v Val) { k(st, v) }
	rt := func() types.Type { return x.typeOf(st, c) }
	switch name {
	case "len", "cap":
		at := x.typeOf(st, c.Args[0])
		if a, ok := under(at).(*types.Array); ok {
			one(st, intVal(idxNum(a.Len())))
			return
		}
		x.ev(st, c.Args[0], func(st *State, v Val) {
			switch {
			case v.K == KSlice && name == "len":
				one(st, intVal(v.len()))
			case v.K == KSlice:
				one(st, intVal(v.cap()))
			case v.K == KScalar:
				if m, ok := under(v.T).(*types.Map); ok {
					d := x.mapDomArr(st, v, m)
					r := App("card:"+typeKey(m.Key()), idxSort(), d)
					compRange(r, Comp{role: "len", sort: r.sort})
					one(st, intVal(Ite(Eq(v.t(), Num(0)), idxNum(0), r)))
					return
				}
				one(st, intVal(x.strLen(st, v.t())))
			default:
				fail("%s: len", x.pos(c.Pos()))
			}
		})
	case "append":
		x.ev(st, c.Args[0], func(st *State, s Val) {
			if isNilV(s) {
				s = zeroVal(rt())
			}
			if c.Ellipsis.IsValid() {
				x.ev(st, c.Args[1], func(st *State, t Val) {
					if b, ok := under(t.T).(*types.Basic); ok && b.Info()&types.IsString != 0 {
						t = x.convert(st, t, rt(), c.Pos())
					}
					k(st, x.appendSlice(st, s, t, c.Pos()))
				})
				return
			}
			x.evs(st, c.Args[1:], func(st *State, vs []Val) {
				k(st, x.appendVals(st, s, vs, c.Pos()))
			})
		})
	case "copy":
		x.evs(st, c.Args, func(st *State, vs []Val) {
			k(st, intVal(x.copySlice(st, vs[0], vs[1], c.Pos())))
		})
	case "make":
		t := rt()
		switch u := under(t).(type) {
		case *types.Slice:
			x.evs(st, c.Args[1:], func(st *State, vs []Val) {
				n := x.idx64(st, vs[0])
				cp := n
				if len(vs) > 1 {
					cp = x.idx64(st, vs[1])
					x.oblige(st, And(iLe(idxNum(0), n), iLe(n, cp)), "make", "make: 0 <= len <= cap", c.Pos())
				} else {
					x.oblige(st, iLe(idxNum(0), n), "make", "make: length non-negative", c.Pos())
				}
				st.assume(iLe(cp, idxNum(1<<48)))
				id := st.alloc("make")
				var inner []*Term
				for _, cc := range comps(u.Elem()) {
					inner = append(inner, ConstArr(SArr(idxSort(), cc.sort), zeroTerm(cc)))
				}
				x.setInner(st, u.Elem(), id, inner, nil, nil)
				k(st, Val{T: t, K: KSlice, ts: []*Term{id, idxNum(0), n, cp}})
			})
		case *types.Map:
			id := st.alloc("map")
			m := scalar(t, id)
			x.mapInit(st, m, u)
			k(st, m)
		default:
			fail("%s: make %v", x.pos(c.Pos()), t)
		}
	case "new":
		t := ptrElem(rt())
		id := st.alloc("new")
		p := Val{T: rt(), K: KPtr, ts: []*Term{id}}
		st.storeAt(ptrPrefix(p), id, zeroVal(t), t)
		k(st, p)
	case "panic":
		x.ev(st, c.Args[0], func(st *State, v Val) {
			x.oblige(st, False, "panic", "panic is unreachable", c.Pos())
			st.dead = true
		})
	case "print", "println":
		x.evs(st, c.Args, func(st *State, vs []Val) { k(st, Val{K: KTuple}) })
	case "delete":
		x.evs(st, c.Args, func(st *State, vs []Val) {
			mt := under(vs[0].T).(*types.Map)
			x.mapDelete(st, vs[0], mt, x.mapKeyT(x.conv(st, vs[1], mt.Key())))
			k(st, Val{K: KTuple})
		})
	case "min", "max":
		x.evs(st, c.Args, func(st *State, vs []Val) {
			r := vs[0]
			for _, v := range vs[1:] {
				lt := cmpInt(token.LEQ, r.t(), v.t(), rt())
				if name == "max" {
					lt = Not(lt)
				}
				r = scalar(rt(), Ite(lt, r.t(), v.t()))
			}
			k(st, r)
		})
	case "clear":
		fail("%s: clear", x.pos(c.Pos()))
	default:
		fail("%s: builtin %s", x.pos(c.Pos()), name)
	}
}

// grow computes the result array of an append of n elements: in place when capacity allows, else a new array at the same offset.
func (x *Exec) grow(st *State, s Val, n *Term, pos token.Pos) (arr *Term, capT *Term, newLen *Term) {
	newLen = Add(s.len(), n)
	fits := iLe(newLen, s.cap())
	if bvMode {
		fits = iLe(newLen, s.cap())
	}
	if st.prove(fits) {
		return s.arr(), s.cap(), newLen
	}
	id := st.alloc("append")
	nc := Const(freshName("cap"), idxSort())
	compRange(nc, Comp{role: "cap", sort: nc.sort})
	st.assume(iLe(newLen, nc))
	st.assume(iLe(nc, idxNum(1<<48)))
	if st.prove(Not(fits)) {
		return id, nc, newLen
	}
	r := Const(freshName("apparr"), SInt)
	SetRange(r, big.NewInt(0), nil)
	st.assume(Eq(r, Ite(fits, s.arr(), id)))
	return r, Ite(fits, s.cap(), nc), newLen
}

func (x *Exec) appendWrite(st *State, s Val, el types.Type, arr *Term, inner []*Term, newLen *Term) {
	lo, hi := Add(s.off(), s.len()), Add(s.off(), newLen)
	for j, c := range comps(el) {
		key := elemPrefix(el) + c.suf
		h := st.heapGet(key, heapSort(SArr(idxSort(), c.sort)))
		if arr == s.arr() || x.allocated[arr] {
			st.noteWriteR(WriteRec{key: key, ptr: arr, lo: lo, hi: hi})
		} else {
			// either a new array or the old one
			st.noteWriteCond(WriteRec{key: key, ptr: s.arr(), lo: lo, hi: hi}, Eq(arr, s.arr()))
		}
		st.markBytes(c, inner[j])
		st.heap[key] = Store(h, arr, inner[j])
	}
}

func (x *Exec) appendVals(st *State, s Val, vs []Val, pos token.Pos) Val {
	if s.via != nil {
		fail("append to array slice")
	}
	el := under(s.T).(*types.Slice).Elem()
	arr, cp, nl := x.grow(st, s, idxNum(int64(len(vs))), pos)
	inner := st.innerArrs(el, s.arr())
	for i, v := range vs {
		for j, f := range flatten(x.conv(st, v, el)) {
			inner[j] = Store(inner[j], Add(Add(s.off(), s.len()), idxNum(int64(i))), f)
		}
	}
	x.appendWrite(st, s, el, arr, inner, nl)
	return Val{T: s.T, K: KSlice, ts: []*Term{arr, s.off(), nl, cp}}
}

// blit(A, pos, B, from, n): A with A[pos..pos+n) replaced by B[from..from+n)
func (x *Exec) blit(st *State, A, pos, B, from, n *Term) *Term {
	if n.isNum() && n.num.Cmp(big.NewInt(24)) <= 0 {
		r := A
		m := n.num.Int64()
		for i := int64(0); i < m; i++ {
			r = Store(r, Add(pos, idxNum(i)), Select(B, Add(from, idxNum(i))))
		}
		return r
	}
	r := App("blit", A.sort, A, pos, B, from, n)
	if g, ok := x.intArr[A]; ok {
		x.intArr[r] = g
	}
	if x.byteArr[A] {
		x.byteArr[r] = true
	}
	j := Const("j?blit", idxSort())
	q := Quant("forall", []*Term{j}, Eq(Select(r, j), Ite(And(iLe(pos, j), iLt(j, Add(pos, n))), Select(B, Add(from, Sub(j, pos))), Select(A, j))), [][]*Term{{Select(r, j)}})
	st.assume(q)
	// the copied part seen from the source side
	i := Const("i?blit", idxSort())
	if !B.isNum() && A.sort.I == SInt {
		q2 := Quant("forall", []*Term{i}, Imp(And(iLe(from, i), iLt(i, Add(from, n))), Eq(Select(r, Add(pos, Sub(i, from))), Select(B, i))), [][]*Term{{Select(B, i)}})
		_ = q2
	}
	return r
}

func (x *Exec) appendSlice(st *State, s, t Val, pos token.Pos) Val {
	if s.via != nil || t.via != nil {
		fail("append of array slice")
	}
	if isNilV(t) {
		return s
	}
	el := under(s.T).(*types.Slice).Elem()
	n := t.len()
	if n.isNum() && n.num.Sign() == 0 {
		return s
	}
	arr, cp, nl := x.grow(st, s, n, pos)
	inner := st.innerArrs(el, s.arr())
	src := st.innerArrs(el, t.arr())
	for j := range inner {
		inner[j] = x.blit(st, inner[j], Add(s.off(), s.len()), src[j], t.off(), n)
	}
	x.appendWrite(st, s, el, arr, inner, nl)
	r := Val{T: s.T, K: KSlice, ts: []*Term{arr, s.off(), nl, cp}}
	return r
}

func (x *Exec) copySlice(st *State, d, s Val, pos token.Pos) *Term {
	if b, ok := under(s.T).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		fail("copy from string")
	}
	if d.via != nil || s.via != nil {
		fail("copy with array slice")
	}
	el := under(d.T).(*types.Slice).Elem()
	var n *Term
	switch {
	case st.prove(iLe(s.len(), d.len())):
		n = s.len()
	case st.prove(iLe(d.len(), s.len())):
		n = d.len()
	default:
		n = Ite(iLe(d.len(), s.len()), d.len(), s.len())
	}
	if n.isNum() && n.num.Sign() == 0 {
		return n
	}
	src := st.innerArrs(el, s.arr())
	dst := st.innerArrs(el, d.arr())
	for j, c := range comps(el) {
		key := elemPrefix(el) + c.suf
		h := st.heapGet(key, heapSort(SArr(idxSort(), c.sort)))
		st.noteWriteR(WriteRec{key: key, ptr: d.arr(), lo: d.off(), hi: Add(d.off(), n)})
		in := x.blit(st, dst[j], d.off(), src[j], s.off(), n)
		st.markBytes(c, in)
		st.heap[key] = Store(h, d.arr(), in)
	}
	return n
}
