package main

// Machine integer arithmetic in both encodings.

import (
	"go/token"
	"go/types"
	"math/big"
)

func wrapInt(st *State, r *Term, T types.Type) *Term {
	w, signed, _ := intInfo(T)
	lo, hi := intRange(T)
	bl, bh := bounds(r)
	okLo := bl != nil && bl.Cmp(lo) >= 0
	okHi := bh != nil && bh.Cmp(hi) <= 0
	if okLo && okHi {
		return r
	}
	if st != nil {
		if !okLo && st.prove(Le(NumB(lo), r)) {
			okLo = true
		}
		if !okHi && st.prove(Le(r, NumB(hi))) {
			okHi = true
		}
	}
	if okLo && okHi {
		return r
	}
	m := NumB(pow2(w))
	if !signed {
		return Mod(r, m)
	}
	// signed: ((r + 2^(w-1)) mod 2^w) - 2^(w-1)
	h := NumB(pow2(w - 1))
	return Sub(Mod(Add(r, h), m), h)
}

func nonneg(t *Term) bool { lo, _ := bounds(t); return lo != nil && lo.Sign() >= 0 }

// tz: number of known trailing zero bits (t is a multiple of 2^tz)
func tz(t *Term) int {
	l := linOf(t)
	r := 64
	upd := func(n *big.Int) {
		if n.Sign() != 0 {
			k := int(new(big.Int).Abs(n).TrailingZeroBits())
			if k < r {
				r = k
			}
		}
	}
	upd(l.c)
	for x, k := range l.m {
		n := int(new(big.Int).Abs(k).TrailingZeroBits())
		if x.op == "ite" {
			a, b := tz(x.args[1]), tz(x.args[2])
			if b < a {
				a = b
			}
			n += a
		}
		if x.op == "mod" && x.args[1].isNum() {
			a, b := tz(x.args[0]), tz(x.args[1])
			if b < a {
				a = b
			}
			n += a
		}
		if n < r {
			r = n
		}
	}
	return r
}

func bitLenHi(t *Term) int { // t < 2^n, t>=0
	lo, hi := bounds(t)
	if lo == nil || hi == nil || lo.Sign() < 0 {
		return -1
	}
	return hi.BitLen()
}

func andConst(a *Term, m *big.Int) *Term {
	if m.Sign() == 0 {
		return Num(0)
	}
	// contiguous runs of ones
	res := Num(0)
	i := 0
	n := m.BitLen()
	for i < n {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && m.Bit(j) == 1 {
			j++
		}
		part := Mod(Div(a, NumB(pow2(i))), NumB(pow2(j-i)))
		res = Add(res, Mul(part, NumB(pow2(i))))
		i = j
	}
	return res
}

// powLeaf: t is x * 2^k with x in 0..1
func powLeaf(st *State, t *Term) (x *Term, k int, ok bool) {
	l := linOf(t)
	if l.c.Sign() != 0 || len(l.m) != 1 {
		return nil, 0, false
	}
	for x, c := range l.m {
		if c.Sign() <= 0 || new(big.Int).And(c, new(big.Int).Sub(c, big.NewInt(1))).Sign() != 0 {
			return nil, 0, false
		}
		lo, hi := bounds(x)
		if lo == nil || lo.Sign() < 0 {
			return nil, 0, false
		}
		if hi == nil || hi.Cmp(big.NewInt(1)) > 0 {
			if st == nil || !st.prove(Le(x, Num(1))) {
				return nil, 0, false
			}
		}
		return x, int(c.TrailingZeroBits()), true
	}
	return nil, 0, false
}

// powLeaves: an ite tree whose leaves are numbers >= 0 or 0/1 terms times a power of two
func powLeaves(st *State, t *Term) bool {
	if t.isNum() {
		return t.num.Sign() >= 0
	}
	if t.op == "ite" {
		return powLeaves(st, t.args[1]) && powLeaves(st, t.args[2])
	}
	_, _, ok := powLeaf(st, t)
	return ok
}

func andLeaves(a, t *Term) *Term {
	if t.isNum() {
		return andConst(a, t.num)
	}
	if t.op == "ite" {
		return Ite(t.args[0], andLeaves(a, t.args[1]), andLeaves(a, t.args[2]))
	}
	for x, c := range linOf(t).m {
		return Ite(Eq(x, Num(0)), Num(0), andConst(a, c))
	}
	return nil
}

func andTerm(st *State, a, b *Term) *Term {
	if a.isNum() {
		a, b = b, a
	}
	if b.isNum() && b.num.Sign() >= 0 {
		return andConst(a, b.num)
	}
	if bl, bh := bounds(b); bl != nil && bh != nil && bl.Sign() >= 0 && bh.Cmp(big.NewInt(1)) <= 0 {
		return Ite(Eq(b, Num(0)), Num(0), Mod(a, Num(2)))
	}
	if bl, bh := bounds(a); bl != nil && bh != nil && bl.Sign() >= 0 && bh.Cmp(big.NewInt(1)) <= 0 {
		return Ite(Eq(a, Num(0)), Num(0), Mod(b, Num(2)))
	}
	if a == b {
		return a
	}
	if n := bitLenHi(b); n >= 0 && tz(a) >= n {
		return Num(0)
	}
	if n := bitLenHi(a); n >= 0 && tz(b) >= n {
		return Num(0)
	}
	if st != nil && nonneg(a) && nonneg(b) {
		if n := tz(a); n > 0 && n < 64 && st.prove(Lt(b, NumB(pow2(n)))) {
			return Num(0)
		}
		if n := tz(b); n > 0 && n < 64 && st.prove(Lt(a, NumB(pow2(n)))) {
			return Num(0)
		}
	}
	if b.op == "ite" && powLeaves(st, b) {
		return andLeaves(a, b)
	}
	if a.op == "ite" && powLeaves(st, a) {
		return andLeaves(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	r := App("bitand", SInt, a, b)
	if nonneg(a) && nonneg(b) {
		_, ha := bounds(a)
		_, hb := bounds(b)
		h := ha
		if h == nil || (hb != nil && hb.Cmp(h) < 0) {
			h = hb
		}
		SetRange(r, big.NewInt(0), h)
		if st != nil {
			st.assume(Le(r, a))
			st.assume(Le(r, b))
		}
	}
	return r
}

func shiftAmt(st *State, b *Term, w int, f func(k int) *Term, over *Term) *Term {
	if b.isNum() {
		if b.num.Cmp(big.NewInt(int64(w))) >= 0 {
			return over
		}
		return f(int(b.num.Int64()))
	}
	lo, hi := bounds(b)
	l, h := 0, w
	if lo != nil && lo.Sign() > 0 && lo.Cmp(big.NewInt(int64(w))) <= 0 {
		l = int(lo.Int64())
	}
	if hi != nil && hi.Cmp(big.NewInt(int64(w))) < 0 {
		h = int(hi.Int64())
	}
	r := over
	if h < w {
		r = f(h)
		h--
	}
	for k := h; k >= l; k-- {
		if k >= w {
			continue
		}
		r = Ite(Eq(b, Num(int64(k))), f(k), r)
	}
	return r
}

// intBin computes a op b of integer type T (b's own type TB for shifts).
func intBin(st *State, op token.Token, a, b *Term, T, TB types.Type) *Term {
	w, signed, _ := intInfo(T)
	if bvMode {
		return bvBin(op, a, b, w, signed, TB)
	}
	switch op {
	case token.ADD:
		return wrapInt(st, Add(a, b), T)
	case token.SUB:
		return wrapInt(st, Sub(a, b), T)
	case token.MUL:
		return wrapInt(st, smallMul(st, a, b), T)
	case token.QUO:
		return wrapInt(st, truncDiv(st, a, b), T)
	case token.REM:
		return truncRem(st, a, b)
	case token.AND:
		if !signed || (nonneg(a) && nonneg(b)) || a.isNum() && a.num.Sign() >= 0 || b.isNum() && b.num.Sign() >= 0 {
			return andTerm(st, a, b)
		}
		if a.isNum() && b.isNum() {
			return NumB(new(big.Int).And(a.num, b.num))
		}
		r := App("bitand", SInt, a, b)
		lo, hi := intRange(T)
		SetRange(r, lo, hi)
		return r
	case token.OR, token.XOR:
		if a.isNum() && b.isNum() {
			if op == token.OR {
				return NumB(new(big.Int).Or(a.num, b.num))
			}
			return NumB(new(big.Int).Xor(a.num, b.num))
		}
		if a.isNum() && a.num.Sign() == 0 {
			return b
		}
		if b.isNum() && b.num.Sign() == 0 {
			return a
		}
		if op == token.OR && !(nonneg(a) && nonneg(b)) {
			// a|b = a + b - a&b in two's complement, when the conjunction is known
			if n := bitLenHi(b); n >= 0 && tz(a) >= n {
				return Add(a, b)
			}
			if n := bitLenHi(a); n >= 0 && tz(b) >= n {
				return Add(a, b)
			}
			if a.isNum() && a.num.Sign() > 0 || b.isNum() && b.num.Sign() > 0 {
				r := Sub(Add(a, b), andTerm(st, a, b))
				lo, hi := intRange(T)
				SetRange(r, lo, hi)
				return r
			}
		}
		if nonneg(a) && nonneg(b) {
			x := andTerm(st, a, b)
			if op == token.OR {
				r := Sub(Add(a, b), x)
				if st != nil && !x.isNum() {
					st.assume(Le(a, r))
					st.assume(Le(b, r))
				}
				if x.isNum() && x.num.Sign() == 0 {
					return r
				}
				_, hi := intRange(T)
				if ha, hb := bitLenHi(a), bitLenHi(b); ha >= 0 && hb >= 0 {
					if hb > ha {
						ha = hb
					}
					hi = new(big.Int).Sub(pow2(ha), big.NewInt(1))
				}
				SetRange(r, big.NewInt(0), hi)
				return r
			}
			r := Sub(Add(a, b), Mul(Num(2), x))
			_, hi := intRange(T)
			SetRange(r, big.NewInt(0), hi)
			return r
		}
		nm := "bitor"
		if op == token.XOR {
			nm = "bitxor"
		}
		r := App(nm, SInt, a, b)
		lo, hi := intRange(T)
		SetRange(r, lo, hi)
		return r
	case token.AND_NOT:
		if nonneg(a) && nonneg(b) {
			return Sub(a, andTerm(st, a, b))
		}
		r := App("bitandnot", SInt, a, b)
		lo, hi := intRange(T)
		SetRange(r, lo, hi)
		return r
	case token.SHL:
		return shiftAmt(st, b, w, func(k int) *Term { return wrapInt(st, Mul(a, NumB(pow2(k))), T) }, Num(0))
	case token.SHR:
		over := Num(0)
		if signed && !nonneg(a) {
			over = Ite(Lt(a, Num(0)), Num(-1), Num(0))
		}
		return shiftAmt(st, b, w, func(k int) *Term { return Div(a, NumB(pow2(k))) }, over)
	}
	fail("integer operator %s", op)
	return nil
}

func truncDiv(st *State, a, b *Term) *Term {
	if nonneg(a) && nonneg(b) || (st != nil && st.prove(Le(Num(0), a)) && st.prove(Le(Num(0), b))) {
		return Div(a, b)
	}
	if b.isNum() && b.num.Sign() > 0 {
		return Ite(Le(Num(0), a), Div(a, b), Neg(Div(Neg(a), b)))
	}
	absb := Ite(Le(Num(0), b), b, Neg(b))
	q := Ite(Le(Num(0), a), Div(a, absb), Neg(Div(Neg(a), absb)))
	return Ite(Le(Num(0), b), q, Neg(q))
}

func truncRem(st *State, a, b *Term) *Term {
	an := nonneg(a) || (st != nil && st.prove(Le(Num(0), a)))
	bn := nonneg(b) || (st != nil && st.prove(Le(Num(0), b)))
	if an && bn {
		if !b.isNum() && st != nil {
			if st.prove(Lt(a, b)) {
				return a
			}
			if st.prove(Lt(a, Mul(Num(2), b))) {
				return Ite(Lt(a, b), a, Sub(a, b))
			}
		}
		return Mod(a, b)
	}
	return Sub(a, Mul(b, truncDiv(st, a, b)))
}

func bvBin(op token.Token, a, b *Term, w int, signed bool, TB types.Type) *Term {
	s := SBV(w)
	pick := func(x, y string) string {
		if signed {
			return x
		}
		return y
	}
	if op == token.SHL || op == token.SHR {
		// bring the count to width w, saturating
		bw := b.sort.W
		var cnt *Term
		if bw == w {
			cnt = b
		} else if bw < w {
			cnt = bvExt(b, w, false)
		} else {
			big1 := BVNum(pow2(w), bw)
			if w < 64 && bw > 7 {
				cnt = Ite(BVCmp("bvuge", b, BVNum(big.NewInt(int64(w)), bw)), BVNum(big.NewInt(int64(w)), w), bvTrunc(b, w))
			} else {
				cnt = bvTrunc(b, w)
			}
			_ = big1
		}
		if op == token.SHL {
			return bvop2("bvshl", s, a, cnt)
		}
		return bvop2(pick("bvashr", "bvlshr"), s, a, cnt)
	}
	switch op {
	case token.ADD:
		return Add(a, b)
	case token.SUB:
		return Sub(a, b)
	case token.MUL:
		return Mul(a, b)
	case token.QUO:
		return bvop2(pick("bvsdiv", "bvudiv"), s, a, b)
	case token.REM:
		return bvop2(pick("bvsrem", "bvurem"), s, a, b)
	case token.AND:
		return bvop2("bvand", s, a, b)
	case token.OR:
		return bvop2("bvor", s, a, b)
	case token.XOR:
		return bvop2("bvxor", s, a, b)
	case token.AND_NOT:
		return bvop2("bvand", s, a, bvop2("bvnot", s, b))
	}
	fail("bv operator %s", op)
	return nil
}

func bvop2(op string, s *Sort, a ...*Term) *Term {
	if len(a) == 2 && a[0].isNum() && a[1].isNum() {
		x, y := a[0].num, a[1].num
		switch op {
		case "bvand":
			return BVNum(new(big.Int).And(x, y), s.W)
		case "bvor":
			return BVNum(new(big.Int).Or(x, y), s.W)
		case "bvxor":
			return BVNum(new(big.Int).Xor(x, y), s.W)
		case "bvshl":
			if y.Cmp(big.NewInt(int64(s.W))) >= 0 {
				return BVNum(big.NewInt(0), s.W)
			}
			return BVNum(new(big.Int).Lsh(x, uint(y.Int64())), s.W)
		case "bvlshr":
			if y.Cmp(big.NewInt(int64(s.W))) >= 0 {
				return BVNum(big.NewInt(0), s.W)
			}
			return BVNum(new(big.Int).Rsh(x, uint(y.Int64())), s.W)
		}
	}
	if len(a) == 1 && a[0].isNum() && op == "bvnot" {
		m := new(big.Int).Sub(pow2(s.W), big.NewInt(1))
		return BVNum(new(big.Int).Xor(a[0].num, m), s.W)
	}
	return bvop(op, s, a...)
}

func BVCmp(op string, a, b *Term) *Term {
	if a == b {
		return BoolT(op == "bvule" || op == "bvsle" || op == "bvuge" || op == "bvsge")
	}
	if a.isNum() && b.isNum() {
		x, y := a.num, b.num
		if op[2] == 's' {
			x, y = toSigned(x, a.sort.W), toSigned(y, a.sort.W)
		}
		c := x.Cmp(y)
		switch op[3:] {
		case "le":
			return BoolT(c <= 0)
		case "lt":
			return BoolT(c < 0)
		case "ge":
			return BoolT(c >= 0)
		case "gt":
			return BoolT(c > 0)
		}
	}
	return intern(Term{op: op, sort: SBool, args: []*Term{a, b}})
}

func toSigned(x *big.Int, w int) *big.Int {
	if x.Bit(w-1) == 1 {
		return new(big.Int).Sub(x, pow2(w))
	}
	return x
}

func bvExt(a *Term, w int, signed bool) *Term {
	d := w - a.sort.W
	if d == 0 {
		return a
	}
	if a.isNum() {
		if signed {
			return BVNum(toSigned(a.num, a.sort.W), w)
		}
		return BVNum(a.num, w)
	}
	op := "zero_extend"
	if signed {
		op = "sign_extend"
	}
	return intern(Term{op: "(_ " + op + " " + itoa(d) + ")", sort: SBV(w), args: []*Term{a}})
}
func bvTrunc(a *Term, w int) *Term {
	if a.sort.W == w {
		return a
	}
	if a.isNum() {
		return BVNum(a.num, w)
	}
	return intern(Term{op: "(_ extract " + itoa(w-1) + " 0)", sort: SBV(w), args: []*Term{a}})
}

// convInt converts integer a of type F to type T.
func convInt(st *State, a *Term, F, T types.Type) *Term {
	wf, sf, _ := intInfo(F)
	wt, _, _ := intInfo(T)
	if bvMode {
		if wt > wf {
			return bvExt(a, wt, sf)
		}
		return bvTrunc(a, wt)
	}
	return wrapInt(st, a, T)
}

// cmpInt compares machine integers of type T.
func cmpInt(op token.Token, a, b *Term, T types.Type) *Term {
	if a.sort.Kind == "BV" {
		_, s, _ := intInfo(T)
		p := "bvu"
		if s {
			p = "bvs"
		}
		switch op {
		case token.LSS:
			return BVCmp(p+"lt", a, b)
		case token.LEQ:
			return BVCmp(p+"le", a, b)
		case token.GTR:
			return BVCmp(p+"lt", b, a)
		case token.GEQ:
			return BVCmp(p+"le", b, a)
		}
	}
	switch op {
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Lt(b, a)
	case token.GEQ:
		return Le(b, a)
	}
	panic("cmpInt")
}

// index-sort helpers (64-bit signed in BV mode; all index quantities are non-negative and below 2^49)
func iLe(a, b *Term) *Term {
	if a.sort.Kind == "BV" {
		return BVCmp("bvsle", a, b)
	}
	return Le(a, b)
}
func iLt(a, b *Term) *Term {
	if a.sort.Kind == "BV" {
		return BVCmp("bvslt", a, b)
	}
	return Lt(a, b)
}

func itoa(n int) string { return big.NewInt(int64(n)).String() }

// smallMul multiplies; with opt smallmul a factor provably in 0..4 is split into cases.
func smallMul(st *State, a, b *Term) *Term {
	if a.isNum() || b.isNum() || a.sort != SInt || st == nil || st.x.con == nil || st.x.con.opts["smallmul"] == "" {
		return Mul(a, b)
	}
	for _, p := range [2][2]*Term{{a, b}, {b, a}} {
		if numLeaves(p[0], 5) > 0 {
			return Mul(a, b)
		}
		if st.prove(And(Le(Num(0), p[0]), Le(p[0], Num(4)))) {
			r := Mul(Num(4), p[1])
			for k := int64(3); k >= 0; k-- {
				r = Ite(Eq(p[0], Num(k)), Mul(Num(k), p[1]), r)
			}
			return r
		}
	}
	return Mul(a, b)
}
