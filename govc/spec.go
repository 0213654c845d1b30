package main

// Contract language: lexer, parser, data structures.

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type SExpr struct {
	op   string // num ident call field index slice un bin str
	name string
	num  *big.Int
	args []*SExpr
	src  string
}

func (e *SExpr) String() string {
	switch e.op {
	case "num":
		return e.num.String()
	case "ident", "str":
		return e.name
	case "call":
		var a []string
		for _, x := range e.args {
			a = append(a, x.String())
		}
		return e.name + "(" + strings.Join(a, ", ") + ")"
	case "field":
		return e.args[0].String() + "." + e.name
	case "index":
		return e.args[0].String() + "[" + e.args[1].String() + "]"
	case "slice":
		s := e.args[0].String() + "["
		if e.args[1] != nil {
			s += e.args[1].String()
		}
		s += ":"
		if e.args[2] != nil {
			s += e.args[2].String()
		}
		return s + "]"
	case "un":
		return e.name + e.args[0].String()
	case "bin":
		return "(" + e.args[0].String() + " " + e.name + " " + e.args[1].String() + ")"
	}
	return "?"
}

type tok struct {
	k string // id num op str eof
	s string
}

func lexSpec(s string) ([]tok, error) {
	var out []tok
	i := 0
	ops := []string{"<==>", "==>", "&&", "||", "==", "!=", "<=", ">=", "<<", ">>", "<", ">", "+", "-", "*", "/", "%", "!", "(", ")", "[", "]", ",", ".", ":", "&", "|", "="}
outer:
	for i < len(s) {
		c := s[i]
		if c == ' ' || c == '\t' || c == '\n' {
			i++
			continue
		}
		if c >= '0' && c <= '9' {
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'f' || s[j] >= 'A' && s[j] <= 'F' || s[j] == 'x') {
				j++
			}
			out = append(out, tok{"num", s[i:j]})
			i = j
			continue
		}
		if c == '"' {
			j := i + 1
			for j < len(s) && s[j] != '"' {
				j++
			}
			out = append(out, tok{"str", s[i+1 : j]})
			i = j + 1
			continue
		}
		if isIdent(c) {
			j := i
			for j < len(s) && (isIdent(s[j]) || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
			continue
		}
		for _, o := range ops {
			if strings.HasPrefix(s[i:], o) {
				out = append(out, tok{"op", o})
				i += len(o)
				continue outer
			}
		}
		return nil, fmt.Errorf("bad character %q in %q", c, s)
	}
	return append(out, tok{"eof", ""}), nil
}

func isIdent(c byte) bool {
	return c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

type sparser struct {
	ts  []tok
	i   int
	src string
}

func parseExpr(s string) (e *SExpr, err error) {
	ts, err := lexSpec(s)
	if err != nil {
		return nil, err
	}
	p := &sparser{ts: ts, src: s}
	defer func() {
		if r := recover(); r != nil {
			if er, ok := r.(error); ok {
				err = fmt.Errorf("%v in %q", er, s)
				return
			}
			panic(r)
		}
	}()
	e = p.expr(0)
	if p.peek().k != "eof" {
		return nil, fmt.Errorf("trailing %q in %q", p.peek().s, s)
	}
	e.src = strings.Join(strings.Fields(s), " ")
	return e, nil
}

func (p *sparser) peek() tok { return p.ts[p.i] }
func (p *sparser) next() tok { t := p.ts[p.i]; p.i++; return t }
func (p *sparser) isOp(s string) bool {
	return p.peek().k == "op" && p.peek().s == s
}
func (p *sparser) expect(s string) {
	if !p.isOp(s) {
		panic(fmt.Errorf("expected %q, got %q", s, p.peek().s))
	}
	p.i++
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "|": 6, "*": 7, "/": 7, "%": 7, "<<": 7, ">>": 7, "&": 7}

func (p *sparser) expr(min int) *SExpr {
	l := p.unary()
	for {
		t := p.peek()
		if t.k != "op" {
			return l
		}
		pr, ok := prec[t.s]
		if !ok || pr < min {
			return l
		}
		p.i++
		var r *SExpr
		if t.s == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		if pr == 5 {
			// comparison chains
			e := &SExpr{op: "bin", name: t.s, args: []*SExpr{l, r}}
			for p.peek().k == "op" && prec[p.peek().s] == 5 {
				o := p.next().s
				r2 := p.expr(6)
				e = &SExpr{op: "bin", name: "&&", args: []*SExpr{e, {op: "bin", name: o, args: []*SExpr{r, r2}}}}
				r = r2
			}
			l = e
			continue
		}
		l = &SExpr{op: "bin", name: t.s, args: []*SExpr{l, r}}
	}
}

func (p *sparser) unary() *SExpr {
	if p.isOp("!") || p.isOp("-") || p.isOp("*") {
		o := p.next().s
		return &SExpr{op: "un", name: o, args: []*SExpr{p.unary()}}
	}
	return p.postfix()
}

func (p *sparser) postfix() *SExpr {
	var e *SExpr
	t := p.next()
	switch {
	case t.k == "num":
		n, ok := new(big.Int).SetString(t.s, 0)
		if !ok {
			panic(fmt.Errorf("bad number %q", t.s))
		}
		e = &SExpr{op: "num", num: n}
	case t.k == "str":
		e = &SExpr{op: "str", name: t.s}
	case t.k == "id":
		e = &SExpr{op: "ident", name: t.s}
	case t.k == "op" && t.s == "(":
		e = p.expr(0)
		p.expect(")")
	default:
		panic(fmt.Errorf("unexpected %q", t.s))
	}
	for {
		switch {
		case p.isOp("("):
			if e.op != "ident" {
				panic(fmt.Errorf("call of non-identifier"))
			}
			p.i++
			c := &SExpr{op: "call", name: e.name}
			for !p.isOp(")") {
				c.args = append(c.args, p.expr(0))
				if p.isOp(",") {
					p.i++
				} else if p.isOp(":") { // typed binder  x: sort
					p.i++
					s := p.next()
					last := c.args[len(c.args)-1]
					last.src = s.s
					if p.isOp(",") {
						p.i++
					}
				}
			}
			p.expect(")")
			e = c
		case p.isOp("."):
			p.i++
			n := p.next()
			e = &SExpr{op: "field", name: n.s, args: []*SExpr{e}}
		case p.isOp("["):
			p.i++
			var lo, hi *SExpr
			if !p.isOp(":") {
				lo = p.expr(0)
			}
			if p.isOp(":") {
				p.i++
				if !p.isOp("]") {
					hi = p.expr(0)
				}
				p.expect("]")
				e = &SExpr{op: "slice", args: []*SExpr{e, lo, hi}}
			} else {
				p.expect("]")
				e = &SExpr{op: "index", args: []*SExpr{e, lo}}
			}
		default:
			return e
		}
	}
}

// ---- declarations ----

type Param struct {
	name, sort string
}

type SpecDef struct {
	name   string
	params []Param
	ret    string
	body   *SExpr // nil: uninterpreted
	rec    bool
	lo, hi *SExpr
	mode   string
	opaque bool
}

type Clause struct {
	label string
	e     *SExpr
}

type UseItem struct {
	pos   string // "entry", "exit", "loop 1 body", ...
	items []*SExpr
}

type LoopSpec struct {
	invs   []Clause
	dec    *SExpr
	unroll bool
	nodec  string
}

type ModItem struct {
	e    *SExpr
	cond *SExpr
}

type Contract struct {
	key      string
	kind     string // func iface callback lemma
	params   []string
	psorts   []string
	results  []string
	tags     []string
	requires []Clause
	ensures  []Clause
	refuses  []Clause // under such a condition the function does not return and changes nothing
	modifies []ModItem
	loops    map[string]*LoopSpec // "1" or "pkg.F.1"
	uses     []UseItem
	asserts  []struct {
		pos string
		c   Clause
	}
	ghosts []struct {
		pos, name string
		e         *SExpr
	}
	dyn     map[string]string
	inline  bool
	trusted string
	mode    string
	merge   bool
	fuel    int
	induct  *SExpr
	nopanic bool
	note    string
	file    string
	opts    map[string]string
}

type GhostDecl struct{ name, sort string }

type SpecDB struct {
	defs      map[string]*SpecDef
	contracts map[string]*Contract
	lemmas    map[string]*Contract
	order     []string
	ghosts    map[string]GhostDecl
	lemmaSeq  []string
}

var clauseKw = map[string]bool{"tags": true, "requires": true, "ensures": true, "refuses": true, "modifies": true, "loop": true, "inv": true, "decreases": true, "use": true,
	"assert": true, "inline": true, "mode": true, "trusted": true, "merge": true, "fuel": true, "ghost": true, "set": true, "dyn": true, "unroll": true, "nodecreases": true,
	"induct": true, "note": true, "end": true, "opt": true}
var topKw = map[string]bool{"func": true, "iface": true, "callback": true, "lemma": true, "def": true, "rec": true, "opaque": true, "ghostvar": true}

func loadSpecs(dir string) (*SpecDB, error) {
	db := &SpecDB{defs: map[string]*SpecDef{}, contracts: map[string]*Contract{}, lemmas: map[string]*Contract{}, ghosts: map[string]GhostDecl{}}
	fs, err := filepath.Glob(filepath.Join(dir, "*.spec"))
	if err != nil {
		return nil, err
	}
	sort.Strings(fs)
	for _, f := range fs {
		if err := db.loadFile(f); err != nil {
			return nil, fmt.Errorf("%s: %v", filepath.Base(f), err)
		}
	}
	return db, nil
}

type logical struct {
	kw, text string
	line     int
	top      bool
}

func (db *SpecDB) loadFile(f string) error {
	b, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	var ls []logical
	for n, ln := range strings.Split(string(b), "\n") {
		if i := strings.Index(ln, "#"); i >= 0 {
			// '#' starts a comment when preceded by space or at line start
			if i == 0 || ln[i-1] == ' ' || ln[i-1] == '\t' {
				ln = ln[:i]
			}
		}
		t := strings.TrimSpace(ln)
		if t == "" {
			continue
		}
		w := t
		if i := strings.IndexAny(t, " \t"); i >= 0 {
			w = t[:i]
		}
		lead := len(ln) - len(strings.TrimLeft(ln, " \t"))
		if lead == 0 && topKw[w] {
			ls = append(ls, logical{w, strings.TrimSpace(t[len(w):]), n + 1, true})
		} else if clauseKw[w] && lead > 0 {
			ls = append(ls, logical{w, strings.TrimSpace(t[len(w):]), n + 1, false})
		} else if len(ls) > 0 {
			ls[len(ls)-1].text += " " + t
		} else {
			return fmt.Errorf("line %d: unexpected %q", n+1, t)
		}
	}
	var cur *Contract
	curLoop := ""
	for _, l := range ls {
		if l.top {
			cur = nil
			curLoop = ""
			switch l.kw {
			case "def", "rec", "opaque":
				d, err := parseDef(l.kw, l.text)
				if err != nil {
					return fmt.Errorf("line %d: %v", l.line, err)
				}
				if db.defs[d.name] != nil {
					return fmt.Errorf("line %d: duplicate %s", l.line, d.name)
				}
				db.defs[d.name] = d
			case "ghostvar":
				ps := strings.SplitN(l.text, ":", 2)
				if len(ps) != 2 {
					return fmt.Errorf("line %d: ghostvar", l.line)
				}
				n := strings.TrimSpace(ps[0])
				db.ghosts[n] = GhostDecl{n, strings.TrimSpace(ps[1])}
			case "func", "iface", "callback", "lemma":
				c, err := parseHeader(l.kw, l.text)
				if err != nil {
					return fmt.Errorf("line %d: %v", l.line, err)
				}
				c.file = filepath.Base(f)
				cur = c
				if l.kw == "lemma" {
					db.lemmas[c.key] = c
					db.lemmaSeq = append(db.lemmaSeq, c.key)
				} else {
					if db.contracts[c.key] != nil {
						return fmt.Errorf("line %d: duplicate contract %s", l.line, c.key)
					}
					db.contracts[c.key] = c
					db.order = append(db.order, c.key)
				}
			}
			continue
		}
		if cur == nil {
			return fmt.Errorf("line %d: clause outside a contract", l.line)
		}
		label, rest := "", l.text
		if strings.HasPrefix(rest, "[") {
			if i := strings.Index(rest, "]"); i > 0 {
				label = rest[1:i]
				rest = strings.TrimSpace(rest[i+1:])
			}
		}
		pe := func(s string) (*SExpr, error) {
			e, err := parseExpr(s)
			if err != nil {
				return nil, fmt.Errorf("line %d: %v", l.line, err)
			}
			return e, nil
		}
		switch l.kw {
		case "end":
		case "tags":
			cur.tags = strings.Fields(l.text)
		case "inline":
			cur.inline = true
		case "merge":
			cur.merge = true
		case "mode":
			cur.mode = l.text
		case "trusted":
			cur.trusted = l.text
			if cur.trusted == "" {
				cur.trusted = "trusted"
			}
		case "note":
			cur.note = l.text
		case "opt":
			kv := strings.SplitN(l.text, "=", 2)
			if len(kv) == 2 {
				cur.opts[strings.TrimSpace(kv[0])] = strings.TrimSpace(kv[1])
			} else {
				cur.opts[l.text] = "1"
			}
		case "fuel":
			fmt.Sscanf(l.text, "%d", &cur.fuel)
		case "requires", "ensures", "refuses":
			e, err := pe(rest)
			if err != nil {
				return err
			}
			if l.kw == "refuses" {
				cur.refuses = append(cur.refuses, Clause{label, e})
			} else if l.kw == "requires" {
				cur.requires = append(cur.requires, Clause{label, e})
			} else {
				cur.ensures = append(cur.ensures, Clause{label, e})
			}
		case "induct":
			e, err := pe(rest)
			if err != nil {
				return err
			}
			cur.induct = e
		case "modifies":
			cond := ""
			if i := strings.Index(rest, " if "); i >= 0 {
				cond = rest[i+4:]
				rest = rest[:i]
			}
			for _, it := range splitTop(rest) {
				e, err := pe(it)
				if err != nil {
					return err
				}
				m := ModItem{e: e}
				if cond != "" {
					if m.cond, err = pe(cond); err != nil {
						return err
					}
				}
				cur.modifies = append(cur.modifies, m)
			}
		case "loop":
			curLoop = l.text
			if cur.loops[curLoop] == nil {
				cur.loops[curLoop] = &LoopSpec{}
			}
		case "inv", "decreases", "unroll", "nodecreases":
			lp := cur.loops[curLoop]
			if lp == nil {
				return fmt.Errorf("line %d: %s outside loop", l.line, l.kw)
			}
			switch l.kw {
			case "unroll":
				lp.unroll = true
			case "nodecreases":
				lp.nodec = l.text
				if lp.nodec == "" {
					lp.nodec = "termination not claimed"
				}
			default:
				e, err := pe(rest)
				if err != nil {
					return err
				}
				if l.kw == "inv" {
					lp.invs = append(lp.invs, Clause{label, e})
				} else {
					lp.dec = e
				}
			}
		case "use":
			i := strings.Index(rest, ":")
			pos := "entry"
			if cur.kind == "lemma" {
				pos = ""
			}
			if i > 0 && !strings.Contains(rest[:i], "(") {
				pos = strings.TrimSpace(rest[:i])
				rest = rest[i+1:]
			}
			u := UseItem{pos: pos}
			for _, it := range splitTop(rest) {
				e, err := pe(it)
				if err != nil {
					return err
				}
				u.items = append(u.items, e)
			}
			cur.uses = append(cur.uses, u)
		case "assert":
			i := strings.Index(rest, ":")
			if i < 0 {
				return fmt.Errorf("line %d: assert needs a position", l.line)
			}
			e, err := pe(rest[i+1:])
			if err != nil {
				return err
			}
			cur.asserts = append(cur.asserts, struct {
				pos string
				c   Clause
			}{strings.TrimSpace(rest[:i]), Clause{label, e}})
		case "ghost", "set":
			i := strings.Index(rest, ":")
			pos := "entry"
			if l.kw == "set" {
				if i < 0 {
					return fmt.Errorf("line %d: set needs a position", l.line)
				}
				pos = strings.TrimSpace(rest[:i])
				rest = rest[i+1:]
			}
			j := strings.Index(rest, "=")
			e, err := pe(rest[j+1:])
			if err != nil {
				return err
			}
			cur.ghosts = append(cur.ghosts, struct {
				pos, name string
				e         *SExpr
			}{pos, strings.TrimSpace(rest[:j]), e})
		case "dyn":
			fs := strings.Fields(l.text)
			cur.dyn[fs[0]] = fs[1]
		}
	}
	return nil
}

func splitTop(s string) []string {
	var out []string
	d := 0
	st := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',', ';':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[st:]); t != "" {
		out = append(out, t)
	}
	return out
}

func parseParams(s string) []Param {
	var ps []Param
	for _, p := range splitTop(s) {
		kv := strings.SplitN(p, ":", 2)
		q := Param{name: strings.TrimSpace(kv[0])}
		if len(kv) == 2 {
			q.sort = strings.TrimSpace(kv[1])
		}
		ps = append(ps, q)
	}
	return ps
}

func parseDef(kw, s string) (*SpecDef, error) {
	i := strings.Index(s, "(")
	if i < 0 {
		// constant def
		j := strings.Index(s, "=")
		if j < 0 {
			return nil, fmt.Errorf("bad def %q", s)
		}
		e, err := parseExpr(s[j+1:])
		return &SpecDef{name: strings.TrimSpace(s[:j]), body: e}, err
	}
	d := &SpecDef{name: strings.TrimSpace(s[:i])}
	j := matchParen(s, i)
	if j < 0 {
		return nil, fmt.Errorf("bad def %q", s)
	}
	d.params = parseParams(s[i+1 : j])
	rest := strings.TrimSpace(s[j+1:])
	if strings.HasPrefix(rest, ":") {
		rest = strings.TrimSpace(rest[1:])
		k := strings.IndexAny(rest, " =")
		if k < 0 {
			d.ret = rest
			rest = ""
		} else {
			d.ret = rest[:k]
			rest = strings.TrimSpace(rest[k:])
		}
	}
	if strings.HasPrefix(rest, "in ") { // range:  in lo..hi
		k := strings.Index(rest, "=")
		r := rest[3:]
		if k >= 0 {
			r = rest[3:k]
			rest = rest[k:]
		} else {
			rest = ""
		}
		lh := strings.SplitN(r, "..", 2)
		var err error
		if d.lo, err = parseExpr(lh[0]); err != nil {
			return nil, err
		}
		if len(lh) > 1 && strings.TrimSpace(lh[1]) != "" {
			if d.hi, err = parseExpr(lh[1]); err != nil {
				return nil, err
			}
		}
	}
	if strings.HasPrefix(rest, "=") {
		e, err := parseExpr(rest[1:])
		if err != nil {
			return nil, err
		}
		d.body = e
	}
	d.rec = kw == "rec"
	d.opaque = kw == "opaque"
	return d, nil
}

func matchParen(s string, i int) int {
	d := 0
	for j := i; j < len(s); j++ {
		if s[j] == '(' {
			d++
		}
		if s[j] == ')' {
			d--
			if d == 0 {
				return j
			}
		}
	}
	return -1
}

func parseHeader(kw, s string) (*Contract, error) {
	i := strings.Index(s, "(")
	if i < 0 {
		return nil, fmt.Errorf("bad header %q", s)
	}
	j := matchParen(s, i)
	c := &Contract{key: strings.TrimSpace(s[:i]), kind: kw, loops: map[string]*LoopSpec{}, dyn: map[string]string{}, fuel: 1, opts: map[string]string{}}
	for _, p := range parseParams(s[i+1 : j]) {
		c.params = append(c.params, p.name)
		c.psorts = append(c.psorts, p.sort)
	}
	rest := strings.TrimSpace(s[j+1:])
	if strings.HasPrefix(rest, "(") {
		k := matchParen(rest, 0)
		for _, p := range parseParams(rest[1:k]) {
			c.results = append(c.results, p.name)
		}
	} else if rest != "" {
		c.results = []string{rest}
	}
	return c, nil
}
