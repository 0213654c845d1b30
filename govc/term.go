package main

// Terms: hash-consed first-order terms with light simplification, printed as SMT-LIB 2.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort struct {
	Kind string // Int Bool BV Arr U
	W    int
	I, E *Sort
	Name string
	str  string
}

var sortTab = map[string]*Sort{}

func mkSort(s Sort) *Sort {
	switch s.Kind {
	case "Int", "Bool":
		s.str = s.Kind
	case "BV":
		s.str = fmt.Sprintf("(_ BitVec %d)", s.W)
	case "Arr":
		s.str = fmt.Sprintf("(Array %s %s)", s.I.str, s.E.str)
	case "U":
		s.str = s.Name
	}
	if x, ok := sortTab[s.str]; ok {
		return x
	}
	p := new(Sort)
	*p = s
	sortTab[s.str] = p
	return p
}

var (
	SInt  = mkSort(Sort{Kind: "Int"})
	SBool = mkSort(Sort{Kind: "Bool"})
)

func SBV(w int) *Sort       { return mkSort(Sort{Kind: "BV", W: w}) }
func SArr(i, e *Sort) *Sort { return mkSort(Sort{Kind: "Arr", I: i, E: e}) }
func SU(n string) *Sort     { return mkSort(Sort{Kind: "U", Name: n}) }

type Term struct {
	id   int
	op   string // "const" "num" "app" "true" "false" or SMT operator
	sort *Sort
	args []*Term
	num  *big.Int
	name string
	bvs  []*Term   // bound variables of a quantifier
	pats [][]*Term // patterns
	hasQ bool
	size int
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
)

func intern(t Term) *Term {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte('|')
	b.WriteString(t.sort.str)
	b.WriteByte('|')
	b.WriteString(t.name)
	if t.num != nil {
		b.WriteByte('#')
		b.WriteString(t.num.String())
	}
	for _, a := range t.args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	for _, a := range t.bvs {
		fmt.Fprintf(&b, ";%d", a.id)
	}
	for _, p := range t.pats {
		b.WriteByte('!')
		for _, a := range p {
			fmt.Fprintf(&b, ",%d", a.id)
		}
	}
	k := b.String()
	if x, ok := termTab[k]; ok {
		return x
	}
	p := new(Term)
	*p = t
	p.id = len(termList) + 1
	p.size = 1
	for _, a := range t.args {
		if a.hasQ {
			p.hasQ = true
		}
		p.size += a.size
	}
	if len(t.bvs) > 0 {
		p.hasQ = true
	}
	termTab[k] = p
	termList = append(termList, p)
	return p
}

var (
	True  = intern(Term{op: "true", sort: SBool})
	False = intern(Term{op: "false", sort: SBool})
)

func Num(n int64) *Term     { return NumB(big.NewInt(n)) }
func NumB(n *big.Int) *Term { return intern(Term{op: "num", sort: SInt, num: new(big.Int).Set(n)}) }
func BVNum(n *big.Int, w int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	v := new(big.Int).Mod(n, m)
	return intern(Term{op: "num", sort: SBV(w), num: v})
}
func NumOf(n *big.Int, s *Sort) *Term {
	if s.Kind == "BV" {
		return BVNum(n, s.W)
	}
	return NumB(n)
}

// Const is a free constant (declared).
func Const(name string, s *Sort) *Term { return intern(Term{op: "const", sort: s, name: name}) }
func App(name string, s *Sort, args ...*Term) *Term {
	return intern(Term{op: "app", sort: s, name: name, args: args})
}
func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}
func (t *Term) isNum() bool { return t.op == "num" }

// ---- linear integer arithmetic normal form ----

type lin struct {
	m map[*Term]*big.Int
	c *big.Int
}

func linOf(t *Term) lin {
	l := lin{map[*Term]*big.Int{}, new(big.Int)}
	l.add(t, big.NewInt(1))
	return l
}
func (l *lin) add(t *Term, k *big.Int) {
	if k.Sign() == 0 {
		return
	}
	switch t.op {
	case "num":
		l.c.Add(l.c, new(big.Int).Mul(k, t.num))
	case "+":
		for _, a := range t.args {
			l.add(a, k)
		}
	case "*c":
		l.add(t.args[1], new(big.Int).Mul(k, t.args[0].num))
	default:
		o := l.m[t]
		if o == nil {
			o = new(big.Int)
		}
		n := new(big.Int).Add(o, k)
		if n.Sign() == 0 {
			delete(l.m, t)
		} else {
			l.m[t] = n
		}
	}
}
func (l *lin) sorted() []*Term {
	var ks []*Term
	for k := range l.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}
func (l *lin) term() *Term {
	var args []*Term
	for _, k := range l.sorted() {
		c := l.m[k]
		if c.Cmp(big.NewInt(1)) == 0 {
			args = append(args, k)
		} else {
			args = append(args, intern(Term{op: "*c", sort: SInt, args: []*Term{NumB(c), k}}))
		}
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, NumB(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return intern(Term{op: "+", sort: SInt, args: args})
}

func bvop(op string, s *Sort, a ...*Term) *Term {
	return intern(Term{op: op, sort: s, args: a})
}

func Add(a, b *Term) *Term {
	if a.sort.Kind == "BV" {
		if a.isNum() && b.isNum() {
			return BVNum(new(big.Int).Add(a.num, b.num), a.sort.W)
		}
		if b.isNum() && b.num.Sign() == 0 {
			return a
		}
		if a.isNum() && a.num.Sign() == 0 {
			return b
		}
		// (x + c1) + c2
		if b.isNum() && a.op == "bvadd" && a.args[1].isNum() {
			return Add(a.args[0], Add(a.args[1], b))
		}
		if a.isNum() {
			a, b = b, a
		}
		return bvop("bvadd", a.sort, a, b)
	}
	l := linOf(a)
	l.add(b, big.NewInt(1))
	return l.term()
}
func Sub(a, b *Term) *Term {
	if a.sort.Kind == "BV" {
		if a == b {
			return BVNum(big.NewInt(0), a.sort.W)
		}
		if b.isNum() {
			return Add(a, BVNum(new(big.Int).Neg(b.num), a.sort.W))
		}
		return bvop("bvsub", a.sort, a, b)
	}
	l := linOf(a)
	l.add(b, big.NewInt(-1))
	return l.term()
}
func Neg(a *Term) *Term {
	if a.sort.Kind == "BV" {
		if a.isNum() {
			return BVNum(new(big.Int).Neg(a.num), a.sort.W)
		}
		return bvop("bvneg", a.sort, a)
	}
	return Sub(Num(0), a)
}
func Mul(a, b *Term) *Term {
	if a.sort.Kind == "BV" {
		if a.isNum() && b.isNum() {
			return BVNum(new(big.Int).Mul(a.num, b.num), a.sort.W)
		}
		return bvop("bvmul", a.sort, a, b)
	}
	if a.isNum() {
		a, b = b, a
	}
	if b.isNum() {
		l := lin{map[*Term]*big.Int{}, new(big.Int)}
		l.add(a, b.num)
		return l.term()
	}
	for _, p := range [2][2]*Term{{a, b}, {b, a}} {
		if numLeaves(p[0], 5) > 0 {
			return mulLeaves(p[0], p[1])
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(Term{op: "*", sort: SInt, args: []*Term{a, b}})
}

// numLeaves counts the leaves of a tree of conditionals over constants; 0 for anything else.
func numLeaves(t *Term, max int) int {
	if t.isNum() {
		return 1
	}
	if t.op != "ite" || max < 2 {
		return 0
	}
	l := numLeaves(t.args[1], max-1)
	if l == 0 {
		return 0
	}
	r := numLeaves(t.args[2], max-l)
	if r == 0 {
		return 0
	}
	return l + r
}

func mulLeaves(t, b *Term) *Term {
	if t.isNum() {
		return Mul(t, b)
	}
	return Ite(t.args[0], mulLeaves(t.args[1], b), mulLeaves(t.args[2], b))
}

// Div/Mod are SMT-LIB (Euclidean) div and mod on Int; divisor constants are positive.
func Div(a, b *Term) *Term {
	if a.isNum() && b.isNum() && b.num.Sign() != 0 {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(a.num, b.num, m)
		return NumB(q)
	}
	if b.isNum() && b.num.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if b.isNum() && b.num.Sign() > 0 {
		// (c*k*x + r) div c when every coefficient is divisible
		l := linOf(a)
		div := new(big.Int).Mod(l.c, b.num).Sign() == 0
		for _, k := range l.m {
			if new(big.Int).Mod(k, b.num).Sign() != 0 {
				div = false
			}
		}
		if div {
			for t, k := range l.m {
				l.m[t] = new(big.Int).Div(k, b.num)
			}
			l.c = new(big.Int).Div(l.c, b.num)
			return l.term()
		}
		if lo, hi := bounds(a); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.num) < 0 {
			return Num(0)
		}
		if a.op == "div" && a.args[1].isNum() && a.args[1].num.Sign() > 0 {
			return Div(a.args[0], NumB(new(big.Int).Mul(a.args[1].num, b.num)))
		}
	}
	return intern(Term{op: "div", sort: SInt, args: []*Term{a, b}})
}
func Mod(a, b *Term) *Term {
	if a.isNum() && b.isNum() && b.num.Sign() != 0 {
		return NumB(new(big.Int).Mod(a.num, new(big.Int).Abs(b.num)))
	}
	if b.isNum() && b.num.Sign() > 0 {
		if b.num.Cmp(big.NewInt(1)) == 0 {
			return Num(0)
		}
		// drop multiples of the modulus
		l := linOf(a)
		ch := false
		for t, k := range l.m {
			r := new(big.Int).Mod(k, b.num)
			if r.Cmp(k) != 0 {
				ch = true
				if r.Sign() == 0 {
					delete(l.m, t)
				} else {
					l.m[t] = r
				}
			}
		}
		r := new(big.Int).Mod(l.c, b.num)
		if r.Cmp(l.c) != 0 {
			ch = true
			l.c = r
		}
		if ch {
			return Mod(l.term(), b)
		}
		if lo, hi := bounds(a); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.num) < 0 {
			return a
		}
		if a.op == "mod" && a.args[1].isNum() && new(big.Int).Mod(a.args[1].num, b.num).Sign() == 0 {
			return Mod(a.args[0], b)
		}
	}
	return intern(Term{op: "mod", sort: SInt, args: []*Term{a, b}})
}

// Le on Int: normal form  (<= L 0).
func Le(a, b *Term) *Term {
	l := linOf(a)
	l.add(b, big.NewInt(-1))
	if len(l.m) == 0 {
		return BoolT(l.c.Sign() <= 0)
	}
	// bounds-based folding
	t := l.term()
	if lo, hi := bounds(t); true {
		if hi != nil && hi.Sign() <= 0 {
			return True
		}
		if lo != nil && lo.Sign() > 0 {
			return False
		}
	}
	return intern(Term{op: "<=", sort: SBool, args: []*Term{t, Num(0)}})
}
func Lt(a, b *Term) *Term { return Le(Add(a, Num(1)), b) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %s / %s", a.sort.str, b.sort.str, a, b))
	}
	if a.isNum() && b.isNum() {
		return BoolT(a.num.Cmp(b.num) == 0)
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.sort == SInt {
		l := linOf(a)
		l.add(b, big.NewInt(-1))
		if len(l.m) == 0 {
			return BoolT(l.c.Sign() == 0)
		}
		if lo, hi := bounds(l.term()); (lo != nil && lo.Sign() > 0) || (hi != nil && hi.Sign() < 0) {
			return False
		}
	}
	if a.op == "ite" && b.isNum() && (a.args[1].isNum() || a.args[2].isNum()) {
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if b.op == "ite" && a.isNum() && (b.args[1].isNum() || b.args[2].isNum()) {
		return Ite(b.args[0], Eq(b.args[1], a), Eq(b.args[2], a))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(Term{op: "=", sort: SBool, args: []*Term{a, b}})
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }
func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.args[0]
	case "<=":
		// not (L <= 0)  ==  1 - L <= 0
		if a.args[0].sort == SInt {
			return Le(Sub(Num(1), a.args[0]), Num(0))
		}
	}
	return intern(Term{op: "not", sort: SBool, args: []*Term{a}})
}
func flat(op string, ts []*Term, unit, zero *Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == zero {
			return false
		}
		if t == unit || seen[t] {
			return true
		}
		if t.op == op {
			for _, a := range t.args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !rec(t) {
			return zero
		}
	}
	for _, t := range out {
		if t.op == "not" && seen[t.args[0]] {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(Term{op: op, sort: SBool, args: out})
}
func And(ts ...*Term) *Term { return flat("and", ts, True, False) }
func Or(ts ...*Term) *Term  { return flat("or", ts, False, True) }
func Imp(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	if b.op == "=>" {
		return Imp(And(a, b.args[0]), b.args[1])
	}
	return intern(Term{op: "=>", sort: SBool, args: []*Term{a, b}})
}
func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Ite sorts %s %s", a.sort.str, b.sort.str))
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if a.sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	if a.op == "ite" && a.args[0] == c {
		return Ite(c, a.args[1], b)
	}
	if b.op == "ite" && b.args[0] == c {
		return Ite(c, a, b.args[2])
	}
	return intern(Term{op: "ite", sort: a.sort, args: []*Term{c, a, b}})
}
func distinctIdx(i, j *Term) bool {
	if i.sort == SInt {
		l := linOf(i)
		l.add(j, big.NewInt(-1))
		if len(l.m) == 0 {
			return l.c.Sign() != 0
		}
		if lo, hi := bounds(l.term()); (lo != nil && lo.Sign() > 0) || (hi != nil && hi.Sign() < 0) {
			return true
		}
		return false
	}
	return i.isNum() && j.isNum() && i != j
}
func Select(a, i *Term) *Term {
	if a.sort.Kind != "Arr" {
		panic("select from " + a.sort.str + " " + a.String())
	}
	if a.sort.I != i.sort {
		panic("select index sort " + a.sort.str + " by " + i.sort.str + " " + i.String())
	}
	for {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if distinctIdx(a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		if a.op == "ite" {
			return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
		}
		break
	}
	return intern(Term{op: "select", sort: a.sort.E, args: []*Term{a, i}})
}
func Store(a, i, v *Term) *Term {
	if a.sort.I != i.sort || a.sort.E != v.sort {
		panic(fmt.Sprintf("store sorts: %s [%s] = %s", a.sort.str, i.sort.str, v.sort.str))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return intern(Term{op: "store", sort: a.sort, args: []*Term{a, i, v}})
}
func ConstArr(s *Sort, v *Term) *Term {
	return intern(Term{op: "constarr", sort: s, args: []*Term{v}})
}

var qcount int

// Forall builds a quantifier; pats may be nil.
func Quant(q string, bvs []*Term, body *Term, pats [][]*Term) *Term {
	if body == True || body == False {
		return body
	}
	used := map[*Term]bool{}
	freeIn(body, used, map[*Term]bool{})
	any := false
	for _, v := range bvs {
		if used[v] {
			any = true
		}
	}
	if !any {
		return body
	}
	return intern(Term{op: q, sort: SBool, args: []*Term{body}, bvs: bvs, pats: pats})
}

func freeIn(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "const" {
		out[t] = true
	}
	for _, a := range t.args {
		freeIn(a, out, seen)
	}
}

func containsTerm(t, x *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// Subst replaces terms, rebuilding with simplification.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		var pats [][]*Term
		for _, p := range t.pats {
			var q []*Term
			for _, a := range p {
				b := rec(a)
				if b != a {
					ch = true
				}
				q = append(q, b)
			}
			pats = append(pats, q)
		}
		if ch {
			r = rebuild(t, args, pats)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term, pats [][]*Term) *Term {
	switch t.op {
	case "+":
		r := a[0]
		for _, x := range a[1:] {
			r = Add(r, x)
		}
		return r
	case "*c":
		return Mul(a[0], a[1])
	case "*":
		return Mul(a[0], a[1])
	case "div":
		return Div(a[0], a[1])
	case "mod":
		return Mod(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "=":
		return Eq(a[0], a[1])
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Imp(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "forall", "exists":
		return Quant(t.op, t.bvs, a[0], pats)
	}
	return intern(Term{op: t.op, sort: t.sort, args: a, num: t.num, name: t.name})
}

// ---- known ranges of terms (valid in every context) ----

type rng struct{ lo, hi *big.Int }

var ranges = map[*Term]rng{}

func SetRange(t *Term, lo, hi *big.Int) {
	if t.isNum() || t.sort != SInt {
		return
	}
	ranges[t] = rng{lo, hi}
}

func bounds(t *Term) (lo, hi *big.Int) {
	if r, ok := ranges[t]; ok {
		return r.lo, r.hi
	}
	switch t.op {
	case "num":
		return t.num, t.num
	case "+":
		lo, hi = new(big.Int), new(big.Int)
		for _, a := range t.args {
			l, h := bounds(a)
			if lo != nil {
				if l == nil {
					lo = nil
				} else {
					lo = new(big.Int).Add(lo, l)
				}
			}
			if hi != nil {
				if h == nil {
					hi = nil
				} else {
					hi = new(big.Int).Add(hi, h)
				}
			}
			if lo == nil && hi == nil {
				return
			}
		}
		return
	case "*c":
		l, h := bounds(t.args[1])
		k := t.args[0].num
		if k.Sign() < 0 {
			l, h = h, l
		}
		if l != nil {
			lo = new(big.Int).Mul(l, k)
		}
		if h != nil {
			hi = new(big.Int).Mul(h, k)
		}
		return
	case "mod":
		if t.args[1].isNum() && t.args[1].num.Sign() > 0 {
			return big.NewInt(0), new(big.Int).Sub(t.args[1].num, big.NewInt(1))
		}
	case "div":
		if t.args[1].isNum() && t.args[1].num.Sign() > 0 {
			l, h := bounds(t.args[0])
			if l != nil {
				lo = new(big.Int).Div(l, t.args[1].num)
			}
			if h != nil {
				hi = new(big.Int).Div(h, t.args[1].num)
			}
			return
		}
	case "ite":
		if t.sort != SInt {
			return nil, nil
		}
		l1, h1 := bounds(t.args[1])
		l2, h2 := bounds(t.args[2])
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(lo) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(hi) > 0 {
				hi = h2
			}
		}
		return
	}
	return nil, nil
}

// ---- printing ----

func smtName(s string) string {
	ok := len(s) > 0
	for i, r := range s {
		if !(r == '_' || r == '.' || r == '$' || r == '!' || r == '@' || (r >= 'a' && r <= 'z') || (r >= 'A' && r <= 'Z') || (i > 0 && r >= '0' && r <= '9')) {
			ok = false
		}
	}
	if ok {
		return s
	}
	return "|" + s + "|"
}

func numStr(t *Term) string {
	if t.sort.Kind == "BV" {
		return fmt.Sprintf("(_ bv%s %d)", t.num.String(), t.sort.W)
	}
	if t.num.Sign() < 0 {
		return "(- " + new(big.Int).Neg(t.num).String() + ")"
	}
	return t.num.String()
}

func (t *Term) String() string {
	var b strings.Builder
	printTerm(&b, t, nil, 0)
	s := b.String()
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func printTerm(b *strings.Builder, t *Term, names map[*Term]string, depth int) {
	if names == nil && b.Len() > 4000 {
		return // only for a reader's eyes
	}
	if names != nil {
		if n, ok := names[t]; ok {
			b.WriteString(n)
			return
		}
	}
	switch t.op {
	case "num":
		b.WriteString(numStr(t))
		return
	case "const":
		b.WriteString(smtName(t.name))
		return
	case "true", "false":
		b.WriteString(t.op)
		return
	case "forall", "exists":
		b.WriteString("(" + t.op + " (")
		for _, v := range t.bvs {
			b.WriteString("(" + smtName(v.name) + " " + v.sort.str + ")")
		}
		b.WriteString(") ")
		if len(t.pats) > 0 {
			b.WriteString("(! ")
		}
		printTerm(b, t.args[0], names, depth+1)
		if len(t.pats) > 0 {
			for _, p := range t.pats {
				b.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						b.WriteByte(' ')
					}
					printTerm(b, x, names, depth+1)
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		}
		b.WriteString(")")
		return
	case "constarr":
		b.WriteString("((as const " + t.sort.str + ") ")
		printTerm(b, t.args[0], names, depth+1)
		b.WriteString(")")
		return
	case "app":
		if len(t.args) == 0 {
			b.WriteString(smtName(t.name))
			return
		}
		b.WriteString("(" + smtName(t.name))
	case "*c":
		b.WriteString("(*")
	default:
		b.WriteString("(" + t.op)
	}
	for _, a := range t.args {
		b.WriteByte(' ')
		printTerm(b, a, names, depth+1)
	}
	b.WriteString(")")
}
