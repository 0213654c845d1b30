package main

// SMT back ends: an incremental oracle for path pruning and simple obligations, and one-shot queries for the rest.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---- printer with sharing and declarations ----

type printer struct {
	out    *strings.Builder
	decl   map[string]bool
	names  map[*Term]string
	rng    map[*Term]bool // range facts already emitted
	bound  map[*Term]int8 // memo: mentions a bound variable
	x      *Exec
	quants bool // emit quantified facts about byte arrays
	defs   bool
}

func newPrinter(x *Exec) *printer {
	return &printer{out: &strings.Builder{}, decl: map[string]bool{}, names: map[*Term]string{}, rng: map[*Term]bool{}, bound: map[*Term]int8{}, x: x}
}

func (p *printer) mentionsBound(t *Term) bool {
	if v, ok := p.bound[t]; ok {
		return v == 1
	}
	r := false
	if t.op == "const" && strings.Contains(t.name, "?") {
		r = true
	} else {
		for _, a := range t.args {
			if p.mentionsBound(a) {
				r = true
				break
			}
		}
		if r && (t.op == "forall" || t.op == "exists") {
			// closed quantifiers are ground
			free := map[*Term]bool{}
			freeIn(t, free, map[*Term]bool{})
			for _, b := range t.bvs {
				delete(free, b)
			}
			r = false
			for f := range free {
				if strings.Contains(f.name, "?") && !boundInside(t, f) {
					r = true
				}
			}
		}
	}
	if r {
		p.bound[t] = 1
	} else {
		p.bound[t] = 0
	}
	return r
}

// boundInside: every occurrence of v in t is under a binder of v (fresh names make one binder enough)
func boundInside(t, v *Term) bool {
	found := false
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, b := range t.bvs {
			if b == v {
				found = true
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return found
}

// prep declares symbols, emits range facts and names shared subterms of t.
func (p *printer) prep(ts []*Term) {
	cnt := map[*Term]int{}
	var order []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, pt := range t.pats {
			for _, a := range pt {
				rec(a)
			}
		}
		order = append(order, t)
	}
	for _, t := range ts {
		rec(t)
	}
	for _, t := range order {
		p.declare(t)
	}
	for _, t := range order {
		if _, ok := p.names[t]; ok {
			continue
		}
		if len(t.args) > 0 && !p.mentionsBound(t) {
			if t.op != "forall" && t.op != "exists" && cnt[t] > 1 && t.size > 4 {
				nm := fmt.Sprintf("d!%d", t.id)
				p.out.WriteString("(define-fun " + nm + " () " + t.sort.str + " ")
				printTerm(p.out, t, p.names, 0)
				p.out.WriteString(")\n")
				p.names[t] = nm
			}
		}
		p.ranges(t)
		p.modFacts(t)
	}
}

// modFacts: small-quotient facts about division by a variable (true for all integers).
func (p *printer) modFacts(t *Term) {
	if (t.op != "mod" && t.op != "div") || t.args[1].isNum() || t.sort != SInt || p.mentionsBound(t) || p.rng[t] {
		return
	}
	p.rng[t] = true
	str := func(t *Term) string {
		var b strings.Builder
		printTerm(&b, t, p.names, 0)
		return b.String()
	}
	a, b, m := str(t.args[0]), str(t.args[1]), str(t)
	v := [4]string{a, "(- " + a + " " + b + ")", "(+ " + a + " " + b + ")", ""}
	if t.op == "div" {
		v = [4]string{"0", "1", "(- 1)", ""}
	}
	fmt.Fprintf(p.out, "(assert (and (=> (and (<= 0 %[1]s) (< %[1]s %[2]s)) (= %[3]s %[4]s)) (=> (and (< 0 %[2]s) (<= %[2]s %[1]s) (< %[1]s (* 2 %[2]s))) (= %[3]s %[5]s)) (=> (and (< %[1]s 0) (<= (- %[2]s) %[1]s)) (= %[3]s %[6]s))))\n", a, b, m, v[0], v[1], v[2])
	if t.op == "mod" {
		fmt.Fprintf(p.out, "(assert (=> (< 0 %[1]s) (and (<= 0 %[2]s) (< %[2]s %[1]s))))\n", b, m)
	}
}

func (p *printer) ranges(t *Term) {
	if p.rng[t] {
		return
	}
	r, ok := ranges[t]
	if ok && t.op != "num" && (r.lo != nil || r.hi != nil) {
		p.rng[t] = true
		var cs []string
		var b strings.Builder
		printTerm(&b, t, p.names, 0)
		s := b.String()
		if r.lo != nil {
			cs = append(cs, "(<= "+numStr(NumB(r.lo))+" "+s+")")
		}
		if r.hi != nil {
			cs = append(cs, "(<= "+s+" "+numStr(NumB(r.hi))+")")
		}
		f := cs[0]
		if len(cs) > 1 {
			f = "(and " + strings.Join(cs, " ") + ")"
		}
		if !p.mentionsBound(t) {
			p.out.WriteString("(assert " + f + ")\n")
		} else if p.quants && (t.op == "select" || t.op == "app") && patOK(t) {
			free := map[*Term]bool{}
			freeIn(t, free, map[*Term]bool{})
			var vs []string
			bad := false
			var bvs []*Term
			for v := range free {
				if strings.Contains(v.name, "?") {
					bvs = append(bvs, v)
				}
			}
			sort.Slice(bvs, func(i, j int) bool { return bvs[i].id < bvs[j].id })
			if !plainIdx(t, bvs) {
				bad = true
			}
			for _, v := range bvs {
				vs = append(vs, "("+smtName(v.name)+" "+v.sort.str+")")
			}
			if !bad {
				p.out.WriteString("(assert (forall (" + strings.Join(vs, " ") + ") (! " + f + " :pattern (" + s + "))))\n")
			}
		}
	}
	if p.quants && t.sort.Kind == "Arr" && !p.mentionsBound(t) {
		if g, ok := p.x.intArr[t]; ok && t.sort.E == SInt && t.sort.I == SInt && t.op != "store" {
			p.rng[t] = true
			var b strings.Builder
			printTerm(&b, t, p.names, 0)
			s := "(select " + b.String() + " j?)"
			p.out.WriteString("(assert (forall ((j? Int)) (! (and (<= " + numStr(NumB(g.lo)) + " " + s + ") (<= " + s + " " + numStr(NumB(g.hi)) + ")) :pattern (" + s + "))))\n")
		}
	}
}

func (p *printer) declSort(s *Sort) {
	switch s.Kind {
	case "U":
		if !p.decl["sort "+s.Name] {
			p.decl["sort "+s.Name] = true
			p.out.WriteString("(declare-sort " + s.Name + " 0)\n")
		}
	case "Arr":
		p.declSort(s.I)
		p.declSort(s.E)
	}
}

func (p *printer) declare(t *Term) {
	switch t.op {
	case "const":
		if strings.Contains(t.name, "?") && p.mentionsBound(t) {
			p.declSort(t.sort)
			return
		}
		k := "c " + t.name
		if !p.decl[k] {
			p.decl[k] = true
			p.declSort(t.sort)
			p.out.WriteString("(declare-const " + smtName(t.name) + " " + t.sort.str + ")\n")
		}
	case "app":
		var as []string
		for _, a := range t.args {
			as = append(as, a.sort.str)
		}
		k := "f " + t.name
		if !p.decl[k] {
			p.decl[k] = true
			for _, a := range t.args {
				p.declSort(a.sort)
			}
			p.declSort(t.sort)
			p.out.WriteString("(declare-fun " + smtName(t.name) + " (" + strings.Join(as, " ") + ") " + t.sort.str + ")\n")
		}
	case "constarr":
		p.declSort(t.sort)
	}
}

func (p *printer) assert(t *Term) {
	p.out.WriteString("(assert ")
	printTerm(p.out, t, p.names, 0)
	p.out.WriteString(")\n")
}

func (p *printer) take() string {
	s := p.out.String()
	p.out.Reset()
	return s
}

// ---- incremental oracle ----

type Oracle struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stack  []*Facts // synchronised facts nodes, one push level each
	p      *printer
	levels []oracleLevel
	x      *Exec
	calls  int
	ms     int64
	dead   bool
	memo   map[string]bool
}

type oracleLevel struct {
	names []*Term
	rng   []*Term
}

func (x *Exec) getOracle() *Oracle {
	if x.orc != nil {
		return x.orc
	}
	o := &Oracle{x: x, p: newPrinter(x), memo: map[string]bool{}}
	o.cmd = exec.Command(z3new, "-in", "-smt2")
	o.in, _ = o.cmd.StdinPipe()
	if f := os.Getenv("GOVC_ORACLELOG"); f != "" {
		w, _ := os.Create(f)
		o.in = tee{o.in, w}
	}
	op, _ := o.cmd.StdoutPipe()
	o.out = bufio.NewReaderSize(op, 1<<16)
	if err := o.cmd.Start(); err != nil {
		o.dead = true
	}
	fmt.Fprintf(o.in, "(set-option :global-declarations true)\n(set-option :timeout 3000)\n(set-option :rlimit 3000000)\n(set-option :smt.auto_config true)\n")
	x.orc = o
	return o
}

func (o *Oracle) close() {
	if o == nil || o.cmd == nil || o.cmd.Process == nil {
		return
	}
	o.in.Close()
	o.cmd.Process.Kill()
	o.cmd.Wait()
}

func (o *Oracle) sync(f *Facts) {
	// deepest synchronised ancestor
	anc := map[*Facts]bool{}
	for g := f; g != nil; g = g.prev {
		anc[g] = true
	}
	n := len(o.stack)
	for n > 0 && o.stack[n-1] != nil && !anc[o.stack[n-1]] {
		n--
	}
	if d := len(o.stack) - n; d > 0 {
		fmt.Fprintf(o.in, "(pop %d)\n", d)
		o.stack = o.stack[:n]
		o.popLevels(n)
	}
	var base *Facts
	if n > 0 {
		base = o.stack[n-1]
	}
	if base == f {
		return
	}
	ts := f.list(base)
	fmt.Fprintf(o.in, "(push 1)\n")
	o.stack = append(o.stack, f)
	o.assertAll(ts)
}

func (o *Oracle) popLevels(n int) {
	// range facts are asserted inside levels: forget those of popped levels
	for len(o.levels) > n {
		l := o.levels[len(o.levels)-1]
		for _, t := range l.rng {
			delete(o.p.rng, t)
		}
		o.levels = o.levels[:len(o.levels)-1]
	}
}

func (o *Oracle) assertAll(ts []*Term) {
	var gs []*Term
	for _, t := range ts {
		if !t.hasQ {
			gs = append(gs, t)
		}
	}
	before := map[*Term]bool{}
	for t := range o.p.rng {
		before[t] = true
	}
	o.p.prep(gs)
	for _, t := range gs {
		o.p.assert(t)
	}
	var lv oracleLevel
	for t := range o.p.rng {
		if !before[t] {
			lv.rng = append(lv.rng, t)
		}
	}
	o.levels = append(o.levels, lv)
	io.WriteString(o.in, o.p.take())
}

func (x *Exec) oracle(st *State, g *Term) bool {
	o := x.getOracle()
	if o.dead {
		return false
	}
	key := fmt.Sprintf("%p|%d", st.facts, g.id)
	if r, ok := o.memo[key]; ok {
		return r
	}
	t0 := time.Now()
	o.calls++
	o.sync(st.facts)
	fmt.Fprintf(o.in, "(push 1)\n")
	o.assertAll([]*Term{Not(g)})
	if os.Getenv("GOVC_ORACLE") != "" {
		fmt.Fprintf(os.Stderr, "oracle: %s\n", g)
	}
	fmt.Fprintf(o.in, "(check-sat)\n(pop 1)\n")
	o.popLevels(len(o.stack))
	r := false
	for {
		ln, err := o.out.ReadString('\n')
		if err != nil {
			o.dead = true
			break
		}
		ln = strings.TrimSpace(ln)
		if ln == "unsat" {
			r = true
			break
		}
		if ln == "sat" || ln == "unknown" {
			break
		}
		if strings.HasPrefix(ln, "(error") {
			fail("solver error in oracle: %s", ln)
		}
	}
	o.ms += time.Since(t0).Milliseconds()
	o.memo[key] = r
	return r
}

// ---- one-shot queries ----

var z3new, z3old, cvc5bin = "z3-new", "z3", "cvc5"

func (x *Exec) unfoldAll(ts []*Term, fuel int) []*Term {
	if fuel <= 0 {
		return nil
	}
	done := map[*Term]bool{}
	var eqs []*Term
	cur := ts
	p := newPrinter(x)
	for r := 0; r < fuel; r++ {
		var next []*Term
		seen := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			for _, a := range t.args {
				rec(a)
			}
			if t.op == "app" && strings.HasPrefix(t.name, "spec.") && !done[t] && !p.mentionsBound(t) {
				if e, ok := x.unfoldApp(t); ok {
					done[t] = true
					next = append(next, e)
				}
			}
		}
		for _, t := range cur {
			rec(t)
		}
		if len(next) == 0 {
			break
		}
		eqs = append(eqs, next...)
		cur = next
	}
	return eqs
}

// splitGoal breaks a goal into simpler goals with extra hypotheses.
type subgoal struct {
	hyps []*Term
	goal *Term
}

func splitGoal(g *Term, hyps []*Term, depth int) []subgoal {
	switch g.op {
	case "true":
		return nil
	case "and":
		var out []subgoal
		for _, a := range g.args {
			out = append(out, splitGoal(a, hyps, depth)...)
		}
		return out
	case "=>":
		return splitGoal(g.args[1], append(hyps[:len(hyps):len(hyps)], g.args[0]), depth)
	case "forall":
		m := map[*Term]*Term{}
		for _, b := range g.bvs {
			nm := b.name
			if i := strings.Index(nm, "?"); i >= 0 {
				nm = nm[:i]
			}
			m[b] = Const(freshName("sk:"+nm), b.sort)
		}
		return splitGoal(Subst(g.args[0], m), hyps, depth+1)
	case "=":
		if g.args[0].sort == SBool && depth < 6 {
			a, b := g.args[0], g.args[1]
			if a.hasQ || b.hasQ {
				return append(splitGoal(b, append(hyps[:len(hyps):len(hyps)], a), depth+1), splitGoal(a, append(hyps[:len(hyps):len(hyps)], b), depth+1)...)
			}
		}
	}
	return []subgoal{{hyps, g}}
}

func (x *Exec) query(facts []*Term, hyps []*Term, goal *Term, fuel int) string {
	all := append(append([]*Term{}, facts...), hyps...)
	neg := Not(goal)
	all = append(all, neg)
	eqs := x.unfoldAll(all, fuel)
	all = append(all, eqs...)
	q := false
	for _, t := range all {
		if t.hasQ {
			q = true
		}
	}
	p := newPrinter(x)
	p.quants = q
	p.prep(all)
	for _, t := range all {
		p.assert(t)
	}
	return p.take()
}

// relevant keeps the facts connected to the goal through shared constants (a sound weakening of the hypotheses).
func relevant(facts []*Term, goal []*Term, rounds int) []*Term {
	cs := func(t *Term) map[*Term]bool {
		m := map[*Term]bool{}
		freeIn(t, m, map[*Term]bool{})
		return m
	}
	cur := map[*Term]bool{}
	for _, g := range goal {
		for c := range cs(g) {
			cur[c] = true
		}
	}
	fm := make([]map[*Term]bool, len(facts))
	for i, f := range facts {
		fm[i] = cs(f)
	}
	in := make([]bool, len(facts))
	for r := 0; r < rounds; r++ {
		add := map[*Term]bool{}
		for i := range facts {
			if in[i] {
				continue
			}
			for c := range fm[i] {
				if cur[c] && !strings.HasPrefix(c.name, "H0:") && c.name != "top0" {
					in[i] = true
					break
				}
			}
			if len(fm[i]) == 0 {
				in[i] = true
			}
			if in[i] {
				for c := range fm[i] {
					add[c] = true
				}
			}
		}
		for c := range add {
			cur[c] = true
		}
	}
	var out []*Term
	for i, f := range facts {
		if in[i] {
			out = append(out, f)
		}
	}
	return out
}

type solverCfg struct {
	name string
	bin  string
	args []string
	pre  string
}

func z3cfg(name, bin string, extra ...string) solverCfg {
	return solverCfg{name, bin, append([]string{"-in", "-smt2"}, extra...), ""}
}

func runSolver(parent context.Context, c solverCfg, body string, tmo time.Duration) (res string, out string) {
	ctx, cancel := context.WithTimeout(parent, tmo+2*time.Second)
	defer cancel()
	args := append([]string{}, c.args...)
	pre := c.pre
	if strings.Contains(c.bin, "cvc5") {
		args = append(args, fmt.Sprintf("--tlimit=%d", tmo.Milliseconds()))
		pre = "(set-logic ALL)\n" + pre
	} else {
		args = append(args, fmt.Sprintf("-T:%d", int(tmo.Seconds()+0.999)), "-memory:3000")
	}
	cmd := exec.CommandContext(ctx, c.bin, args...)
	cmd.Stdin = strings.NewReader(pre + body + "(check-sat)\n")
	var b bytes.Buffer
	cmd.Stdout = &b
	cmd.Stderr = &b
	cmd.Run()
	out = b.String()
	for _, ln := range strings.Split(out, "\n") {
		switch strings.TrimSpace(ln) {
		case "unsat", "sat", "unknown":
			return strings.TrimSpace(ln), out
		}
	}
	if strings.Contains(out, "(error") {
		return "error", out
	}
	return "timeout", out
}

var failCount atomic.Int32

type job struct {
	o     *Obl
	qs    []string // one per subgoal
	qall  string
	desc  []string
	small []string
}

var (
	tmoQuick = 4 * time.Second
	tmoLong  = 25 * time.Second
	parN     = 3
)

// discharge runs the solvers on every pending obligation.
func (x *Exec) discharge() {
	failCount.Store(0)
	fuel := x.con.fuel
	var jobs []*job
	for _, o := range x.obls {
		if o.status != "" {
			continue
		}
		facts := o.facts.list(nil)
		facts = append(facts, x.axioms...)
		j := &job{o: o}
		for _, sg := range splitGoal(o.goal, nil, 0) {
			if sg.goal == True {
				continue
			}
			j.qs = append(j.qs, x.query(facts, sg.hyps, sg.goal, fuel))
			j.desc = append(j.desc, sg.goal.String())
			rel := relevant(append(facts[:len(facts):len(facts)], sg.hyps...), append([]*Term{sg.goal}, sg.hyps...), 2)
			if len(rel) < len(facts)*3/4 {
				j.small = append(j.small, x.query(rel, nil, sg.goal, fuel))
			} else {
				j.small = append(j.small, "")
			}
		}
		jobs = append(jobs, j)
	}
	sem := make(chan bool, parN)
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		sem <- true
		go func(j *job) {
			defer wg.Done()
			defer func() { <-sem }()
			solveJob(j)
		}(j)
	}
	wg.Wait()
}

func solveJob(j *job) {
	t0 := time.Now()
	used := map[string]bool{}
	ok := true
	for i, q := range j.qs {
		t1 := time.Now()
		r, s, out := portfolio(q, j.small[i], int(failCount.Load()))
		if d := os.Getenv("GOVC_DUMPSLOW"); d != "" && time.Since(t1) > 2*time.Second {
			nm := fmt.Sprintf("%s/slow-%s-%s-%d.smt2", d, strings.ReplaceAll(j.o.pos, "/", "_"), j.o.kind, i)
			os.WriteFile(nm, []byte(q+"(check-sat)\n"), 0o644)
		}
		if r != "unsat" {
			ok = false
			j.o.status = "failed"
			failCount.Add(1)
			j.o.solver = s
			j.o.out = r + "\nsubgoal: " + j.desc[i] + "\n" + trunc(out, 600)
			if d := os.Getenv("GOVC_DUMP"); d != "" {
				nm := fmt.Sprintf("%s/%s-%s-%d.smt2", d, strings.ReplaceAll(j.o.pos, "/", "_"), j.o.kind, i)
				os.WriteFile(nm, []byte(q+"(check-sat)\n"), 0o644)
			}
			break
		}
		used[s] = true
	}
	if ok {
		j.o.status = "proved"
		var ss []string
		for s := range used {
			ss = append(ss, s)
		}
		sort.Strings(ss)
		j.o.solver = strings.Join(ss, "+")
		if len(ss) == 0 {
			j.o.solver = "simplifier"
		}
	}
	j.o.ms = time.Since(t0).Milliseconds()
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// portfolio races the solvers, started one after another; the first unsat (or sat of the full query) decides.
func portfolio(q, small string, failed int) (res, solver, out string) {
	z := z3cfg("z3-5.3", z3new)
	zo := z3cfg("z3-4.8", z3old)
	cv := solverCfg{"cvc5", cvc5bin, []string{"--lang=smt2"}, ""}
	type step struct {
		c   solverCfg
		q   string
		tmo time.Duration
	}
	steps := []step{
		{z, q, tmoQuick},
		{zo, q, tmoQuick},
		{z3cfg("z3-5.3/arith2", z3new, "smt.arith.solver=2"), q, tmoQuick},
		{z, small, tmoQuick},
		{cv, q, tmoQuick * 2},
		{z3cfg("z3-5.3/mbqi-off", z3new, "smt.mbqi=false", "auto_config=false"), q, tmoQuick},
		{cv, small, tmoQuick},
		{z, q, tmoLong},
		{z3cfg("z3-5.3/seed7", z3new, "smt.random_seed=7", "sat.random_seed=7"), q, tmoLong},
		{z3cfg("z3-4.8/seed3", z3old, "smt.random_seed=3", "sat.random_seed=3"), q, tmoLong},
	}
	if failed >= 6 {
		steps = steps[:3]
	} else if failed >= 2 {
		steps = steps[:7]
	}
	type ans struct {
		r, o, n string
		full    bool
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan ans, len(steps))
	running := 0
	next := 0
	worst := "timeout"
	late := false
	for {
		for next < len(steps) && steps[next].q == "" {
			next++
		}
		if next < len(steps) && (running == 0 || running < 3 && late) {
			late = false
			s := steps[next]
			next++
			running++
			go func() {
				r, o := runSolver(ctx, s.c, s.q, s.tmo)
				ch <- ans{r, o, s.c.name, s.q == q}
			}()
		}
		if running == 0 && next >= len(steps) {
			return worst, "all", out
		}
		var stagger <-chan time.Time
		if running < 3 && next < len(steps) {
			d := 250 * time.Millisecond
			if running > 1 {
				d = time.Second
			}
			stagger = time.After(d)
		}
		select {
		case a := <-ch:
			running--
			if a.r == "unsat" {
				return a.r, a.n, a.o
			}
			if a.r == "sat" && a.full {
				return "sat", a.n, a.o
			}
			if a.r == "error" {
				out = a.o
			}
			if a.r == "unknown" {
				worst = "unknown"
			}
		case <-stagger:
			late = true
		}
	}
}

var _ = big.NewInt

type tee struct {
	io.WriteCloser
	w io.Writer
}

func (t tee) Write(b []byte) (int, error) {
	t.w.Write(b)
	return t.WriteCloser.Write(b)
}
