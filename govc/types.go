package main

// Go types -> logical components; symbolic values.

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"
)

var bvMode bool // machine integers are bit-vectors in the function being verified

func idxSort() *Sort {
	if bvMode {
		return SBV(64)
	}
	return SInt
}
func idxNum(n int64) *Term { return NumOf(big.NewInt(n), idxSort()) }

type Comp struct {
	suf  string
	sort *Sort
	role string
	t    types.Type
}

func qual(p *types.Package) string { return p.Name() }

func typeKey(t types.Type) string {
	s := types.TypeString(t, qual)
	if strings.Contains(s, "uint8") || strings.Contains(s, "rune") {
		s = aliasName.ReplaceAllStringFunc(s, func(m string) string {
			if m == "rune" {
				return "int32"
			}
			return "byte"
		})
	}
	return s
}

var aliasName = regexp.MustCompile(`\b(uint8|rune)\b`)

// intInfo returns width and signedness of an integer type.
func intInfo(t types.Type) (w int, signed bool, ok bool) {
	b, isB := under(t).(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

func intRange(t types.Type) (lo, hi *big.Int) {
	w, s, ok := intInfo(t)
	if !ok {
		panic("intRange of " + t.String())
	}
	if s {
		return new(big.Int).Neg(pow2(w - 1)), new(big.Int).Sub(pow2(w-1), big.NewInt(1))
	}
	return big.NewInt(0), new(big.Int).Sub(pow2(w), big.NewInt(1))
}

func intSort(t types.Type) *Sort {
	if bvMode {
		w, _, _ := intInfo(t)
		return SBV(w)
	}
	return SInt
}

var SFloat = SU("Float")
var compCache = map[string][]Comp{}

func comps(t types.Type) []Comp {
	key := typeKey(t)
	if bvMode {
		key = "bv:" + key
	}
	if c, ok := compCache[key]; ok {
		return c
	}
	c := comps1(t)
	compCache[key] = c
	return c
}

func comps1(t types.Type) []Comp {
	if tp, ok := t.(*types.TypeParam); ok {
		return []Comp{{"", SU("T_" + tp.Obj().Name()), "param", t}}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return []Comp{{"", intSort(t), "int", t}}
		case u.Info()&types.IsBoolean != 0:
			return []Comp{{"", SBool, "bool", t}}
		case u.Info()&types.IsFloat != 0:
			return []Comp{{"", SFloat, "float", t}}
		case u.Info()&types.IsString != 0:
			return []Comp{{"", SInt, "str", t}}
		case u.Kind() == types.UntypedNil, u.Kind() == types.UnsafePointer:
			return []Comp{{"", SInt, "ptr", t}}
		}
	case *types.Pointer:
		return []Comp{{"", SInt, "ptr", t}}
	case *types.Slice:
		return []Comp{{"#arr", SInt, "arr", t}, {"#off", idxSort(), "off", t}, {"#len", idxSort(), "len", t}, {"#cap", idxSort(), "cap", t}}
	case *types.Array:
		var out []Comp
		for _, c := range comps(u.Elem()) {
			out = append(out, Comp{c.suf, SArr(idxSort(), c.sort), "array", t})
		}
		return out
	case *types.Struct:
		var out []Comp
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, c := range comps(f.Type()) {
				out = append(out, Comp{"." + f.Name() + c.suf, c.sort, c.role, c.t})
			}
		}
		return out
	case *types.Map:
		return []Comp{{"", SInt, "ptr", t}}
	case *types.Chan:
		return []Comp{{"", SInt, "ptr", t}}
	case *types.Signature:
		return []Comp{{"", SInt, "func", t}}
	case *types.Interface:
		return []Comp{{"#tag", SInt, "tag", t}, {"#data", SInt, "data", t}}
	case *types.Tuple:
		var out []Comp
		for i := 0; i < u.Len(); i++ {
			out = append(out, comps(u.At(i).Type())...)
		}
		return out
	}
	panic(unsupported{fmt.Sprintf("type %s", t)})
}

type unsupported struct{ msg string }

func fail(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

var maxLen = pow2(48)

// compRange registers the range a well-typed component has.
func compRange(t *Term, c Comp) {
	if t.sort != SInt {
		return
	}
	switch c.role {
	case "int":
		lo, hi := intRange(c.t)
		SetRange(t, lo, hi)
	case "ptr", "arr", "tag", "data", "func", "str":
		SetRange(t, big.NewInt(0), nil)
	case "off", "len", "cap":
		SetRange(t, big.NewInt(0), maxLen)
	}
}

type Kind int

const (
	KScalar Kind = iota
	KPtr
	KSlice
	KStruct
	KArray
	KIface
	KFunc
	KTuple
	KType // spec only: a type
	KPkg
)

type FuncVal struct {
	lit   interface{} // *ast.FuncLit
	pkg   *Pkg
	fi    *FuncInfo
	recv  *Val
	owner *FuncInfo
	sub   map[*types.TypeParam]types.Type
}

type Val struct {
	T      types.Type
	K      Kind
	ts     []*Term
	fs     []Val
	prefix string // KPtr: heap key prefix of the pointee ("" = default)
	fn     *FuncVal
	via    *LV // KSlice over an addressable array
	spec   bool
}

func scalar(t types.Type, x *Term) Val { return Val{T: t, K: KScalar, ts: []*Term{x}} }
func boolVal(x *Term) Val              { return Val{T: types.Typ[types.Bool], K: KScalar, ts: []*Term{x}} }
func intVal(x *Term) Val               { return Val{T: types.Typ[types.Int], K: KScalar, ts: []*Term{x}} }
func (v Val) t() *Term {
	if len(v.ts) == 0 {
		if v.K == KFunc {
			return Num(1)
		}
		fail("value of type %v has no scalar term", v.T)
	}
	return v.ts[0]
}
func (v Val) arr() *Term { return v.ts[0] }
func (v Val) off() *Term { return v.ts[1] }
func (v Val) len() *Term { return v.ts[2] }
func (v Val) cap() *Term { return v.ts[3] }

func kindOf(t types.Type) Kind {
	if _, ok := t.(*types.TypeParam); ok {
		return KScalar
	}
	switch under(t).(type) {
	case *types.Pointer:
		return KPtr
	case *types.Slice:
		return KSlice
	case *types.Struct:
		return KStruct
	case *types.Array:
		return KArray
	case *types.Interface:
		return KIface
	case *types.Tuple:
		return KTuple
	}
	return KScalar
}

func flatten(v Val) []*Term {
	switch v.K {
	case KStruct, KTuple:
		var out []*Term
		for _, f := range v.fs {
			out = append(out, flatten(f)...)
		}
		return out
	case KPtr:
		if v.prefix != "" && v.prefix != defPrefix(v.T) {
			fail("interior pointer (%s) stored", v.prefix)
		}
		return v.ts
	case KFunc:
		return []*Term{Num(1)}
	case KSlice:
		if v.via != nil {
			fail("slice of an array stored")
		}
		return v.ts
	}
	return v.ts
}

func unflatten(t types.Type, ts []*Term) (Val, []*Term) {
	switch kindOf(t) {
	case KStruct:
		u := under(t).(*types.Struct)
		v := Val{T: t, K: KStruct}
		for i := 0; i < u.NumFields(); i++ {
			var f Val
			f, ts = unflatten(u.Field(i).Type(), ts)
			v.fs = append(v.fs, f)
		}
		return v, ts
	case KTuple:
		u := under(t).(*types.Tuple)
		v := Val{T: t, K: KTuple}
		for i := 0; i < u.Len(); i++ {
			var f Val
			f, ts = unflatten(u.At(i).Type(), ts)
			v.fs = append(v.fs, f)
		}
		return v, ts
	}
	n := len(comps(t))
	return Val{T: t, K: kindOf(t), ts: append([]*Term{}, ts[:n]...)}, ts[n:]
}

func mkVal(t types.Type, ts []*Term) Val {
	v, rest := unflatten(t, ts)
	if len(rest) != 0 {
		panic("mkVal: leftover")
	}
	return v
}

func ptrElem(t types.Type) types.Type {
	p, ok := under(t).(*types.Pointer)
	if !ok {
		fail("not a pointer: %v", t)
	}
	return p.Elem()
}

func prefixFor(elem types.Type) string {
	if _, ok := elem.(*types.TypeParam); !ok {
		if _, ok := under(elem).(*types.Struct); ok {
			return typeKey(elem)
		}
	}
	return "cell:" + typeKey(elem)
}
func defPrefix(ptrT types.Type) string { return prefixFor(ptrElem(ptrT)) }

func zeroTerm(c Comp) *Term {
	switch {
	case c.sort == SBool:
		return False
	case c.sort == SInt:
		return Num(0)
	case c.sort.Kind == "BV":
		return BVNum(big.NewInt(0), c.sort.W)
	case c.sort.Kind == "U":
		return Const("zero:"+c.sort.Name, c.sort)
	case c.sort.Kind == "Arr":
		return ConstArr(c.sort, zeroTerm(Comp{sort: c.sort.E}))
	}
	panic("zeroTerm " + c.sort.str)
}

func zeroVal(t types.Type) Val {
	var ts []*Term
	for _, c := range comps(t) {
		ts = append(ts, zeroTerm(c))
	}
	return mkVal(t, ts)
}

var freshCount int

func freshName(base string) string {
	freshCount++
	return fmt.Sprintf("%s!%d", base, freshCount)
}

func freshVal(base string, t types.Type) Val {
	var ts []*Term
	for _, c := range comps(t) {
		k := Const(freshName(base+c.suf), c.sort)
		compRange(k, c)
		ts = append(ts, k)
	}
	return mkVal(t, ts)
}

// substType replaces type parameters.
func substType(t types.Type, m map[*types.TypeParam]types.Type) types.Type {
	if len(m) == 0 || t == nil {
		return t
	}
	switch x := t.(type) {
	case *types.TypeParam:
		if r, ok := m[x]; ok {
			return r
		}
		return t
	case *types.Pointer:
		return types.NewPointer(substType(x.Elem(), m))
	case *types.Slice:
		return types.NewSlice(substType(x.Elem(), m))
	case *types.Array:
		return types.NewArray(substType(x.Elem(), m), x.Len())
	case *types.Map:
		return types.NewMap(substType(x.Key(), m), substType(x.Elem(), m))
	case *types.Tuple:
		var vs []*types.Var
		for i := 0; i < x.Len(); i++ {
			v := x.At(i)
			vs = append(vs, types.NewVar(v.Pos(), v.Pkg(), v.Name(), substType(v.Type(), m)))
		}
		return types.NewTuple(vs...)
	case *types.Named:
		if ta := x.TypeArgs(); ta != nil && ta.Len() > 0 {
			var args []types.Type
			for i := 0; i < ta.Len(); i++ {
				args = append(args, substType(ta.At(i), m))
			}
			r, err := types.Instantiate(nil, x.Origin(), args, false)
			if err != nil {
				fail("instantiate: %v", err)
			}
			return r
		}
		return t
	}
	return t
}

func isUnsignedT(t types.Type) bool { _, s, ok := intInfo(t); return ok && !s }

func ifaceTag(t types.Type) *Term {
	k := typeKey(t)
	if n, ok := tagTab[k]; ok {
		return Num(int64(n))
	}
	n := len(tagTab) + 1
	tagTab[k] = n
	tagTypes[n] = t
	return Num(int64(n))
}

var tagTab = map[string]int{}
var tagTypes = map[int]types.Type{}

var strTab = map[string]int{"": 0}

func strTerm(s string) *Term {
	n, ok := strTab[s]
	if !ok {
		n = len(strTab)
		strTab[s] = n
	}
	return Num(int64(n))
}

func shortKey(s string) string { return strings.ReplaceAll(s, "github.com/lkmio/avformat/", "") }
