package main

// Command line: verify functions, run property checks, write evidence.

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

type OblRes struct {
	Kind, Name, Pos, Status, Solver, Out string
	Ms                                   int64
}

type FuncRes struct {
	Key     string
	Lemma   bool
	Err     string
	Obls    []OblRes
	Used    []string
	Lemmas  []string
	Inlined []string
	Trusted []string
	Paths   int
	Rets    int
	Ms      int64
	OraMs   int64
	OraN    int
	Mode    string
}

func (r *FuncRes) ok() bool {
	if r.Err != "" {
		return false
	}
	for _, o := range r.Obls {
		if o.Status != "proved" {
			return false
		}
	}
	return true
}

func resetTables() {
	termTab = map[string]*Term{}
	termList = nil
	ranges = map[*Term]rng{}
	freshCount = 0
	True = intern(Term{op: "true", sort: SBool})
	False = intern(Term{op: "false", sort: SBool})
	bvMode = false
	nilVal = Val{T: types.Typ[types.UntypedNil], K: KScalar, ts: []*Term{Num(0)}, spec: true}
	tagTab = map[string]int{}
	tagTypes = map[int]types.Type{}
	strTab = map[string]int{"": 0}
	compCache = map[string][]Comp{}
}

func verifyOne(l *Loader, db *SpecDB, key string) (res *FuncRes) {
	t0 := time.Now()
	resetTables()
	x := newExec(l, db)
	res = &FuncRes{Key: key}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				res.Err = u.msg
				if os.Getenv("GOVC_TRACE") != "" {
					debug.PrintStack()
				}
			} else {
				res.Err = fmt.Sprintf("engine: %v", r)
				if os.Getenv("GOVC_TRACE") != "" {
					debug.PrintStack()
				}
			}
		}
		x.orc.close()
		if x.orc != nil {
			res.OraMs, res.OraN = x.orc.ms, x.orc.calls
		}
		for _, o := range x.obls {
			s := o.status
			if s == "" {
				s = "open"
			}
			res.Obls = append(res.Obls, OblRes{o.kind, o.name, o.pos, s, o.solver, o.out, o.ms})
		}
		res.Used = keysOf(x.used)
		for k, c := range x.vac {
			if c[0] > 0 && c[1] == 0 {
				fmt.Fprintf(os.Stderr, "VACUOUS %s after %s (%d states)\n", key, k, c[0])
			}
		}
		res.Lemmas = keysOf(x.lemUsed)
		res.Inlined = keysOf(x.inlined)
		res.Trusted = keysOf(x.trusted)
		res.Paths, res.Rets = x.paths, x.rets
		res.Ms = time.Since(t0).Milliseconds()
	}()
	if strings.HasPrefix(key, "lemma ") {
		res.Lemma = true
		lm := db.lemmas[strings.TrimPrefix(key, "lemma ")]
		if lm == nil {
			fail("no such lemma")
		}
		if lm.trusted != "" {
			x.trusted["lemma "+lm.key+": "+lm.trusted] = true
			return
		}
		res.Mode = lm.mode
		x.verifyLemma(lm)
		x.discharge()
		return
	}
	con := db.contracts[key]
	if con == nil {
		fail("no contract for %s", key)
	}
	res.Mode = con.mode
	if con.trusted != "" {
		x.trusted[con.kind+" "+con.key+": "+con.trusted] = true
		return
	}
	if con.kind != "func" {
		x.trusted[con.kind+" "+con.key] = true
		return
	}
	fi := l.funcs[key]
	if fi == nil {
		fail("function %s is no longer in the code", key)
	}
	x.verify(fi, con)
	x.discharge()
	return
}

func keysOf(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---- worker pool ----

type pool struct {
	args []string
	n    int
}

type worker struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	out *bufio.Reader
}

func startWorker(args []string) (*worker, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	c := exec.Command(self, append([]string{"worker"}, args...)...)
	ip, _ := c.StdinPipe()
	op, _ := c.StdoutPipe()
	c.Stderr = os.Stderr
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &worker{c, bufio.NewWriter(ip), bufio.NewReaderSize(op, 1<<20)}, nil
}

func (w *worker) run(key string) (*FuncRes, error) {
	fmt.Fprintln(w.in, key)
	w.in.Flush()
	ln, err := w.out.ReadBytes('\n')
	if err != nil {
		return nil, err
	}
	r := &FuncRes{}
	if err := json.Unmarshal(ln, r); err != nil {
		return nil, err
	}
	return r, nil
}

// runAll verifies the keys and everything they rely on.
func runAll(db *SpecDB, roots []string, args []string, n int, follow bool, deadline time.Time, sep map[string]bool) map[string]*FuncRes {
	res := map[string]*FuncRes{}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	var queue []string
	seen := map[string]bool{}
	busy := 0
	add := func(k string) {
		if !seen[k] {
			seen[k] = true
			queue = append(queue, k)
		}
	}
	for _, k := range roots {
		add(k)
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			defer func() {
				if w != nil {
					w.cmd.Process.Kill()
					w.cmd.Wait()
				}
			}()
			for {
				mu.Lock()
				for len(queue) == 0 && busy > 0 {
					cond.Wait()
				}
				if len(queue) == 0 {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				k := queue[0]
				queue = queue[1:]
				busy++
				mu.Unlock()
				var r *FuncRes
				var err error
				if w == nil {
					w, err = startWorker(args)
				}
				if err == nil {
					tm := time.AfterFunc(time.Until(deadline), func() { w.cmd.Process.Kill() })
					r, err = w.run(k)
					tm.Stop()
				}
				if err != nil {
					r = &FuncRes{Key: k, Err: "engine: worker failed: " + err.Error()}
					if time.Now().After(deadline) {
						r.Err = "engine: out of time"
					}
					if w != nil {
						w.cmd.Process.Kill()
						w.cmd.Wait()
					}
					w = nil
				}
				mu.Lock()
				res[k] = r
				if follow {
					for _, u := range r.Used {
						if c := db.contracts[u]; c != nil && !c.inline {
							if sep != nil && c.opts["sep"] != "" && !seen[u] {
								sep[u] = true // its contract is discharged by other checks
								continue
							}
							add(u)
						}
					}
					for _, u := range r.Lemmas {
						add("lemma " + u)
					}
				}
				busy--
				mu.Unlock()
				cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	return res
}

var (
	fRepo   = flag.String("repo", "/repo", "")
	fSpecs  = flag.String("specs", "/verif/contracts", "")
	fVerif  = flag.String("verif", "/verif", "")
	fJ      = flag.Int("j", 6, "workers")
	fP      = flag.Int("p", 2, "solvers per worker")
	fV      = flag.Bool("v", false, "")
	fFollow = flag.Bool("follow", false, "")
	fQ      = flag.Int("tq", 4000, "short solver timeout ms")
	fL      = flag.Int("tl", 25000, "long solver timeout ms")
	fProp   = flag.String("prop", "", "")
	fTier   = flag.String("tier", "", "")
)

func commonArgs() []string {
	return []string{"-repo", *fRepo, "-specs", *fSpecs, "-p", fmt.Sprint(*fP), "-tq", fmt.Sprint(*fQ), "-tl", fmt.Sprint(*fL)}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: govc worker|verify|check|list")
		os.Exit(2)
	}
	cmd := os.Args[1]
	flag.CommandLine.Parse(os.Args[2:])
	parN = *fP
	tmoQuick = time.Duration(*fQ) * time.Millisecond
	tmoLong = time.Duration(*fL) * time.Millisecond
	switch cmd {
	case "worker":
		mainWorker()
	case "verify":
		mainVerify()
	case "check":
		mainCheck()
	case "list":
		mainList()
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

func mainWorker() {
	debug.SetGCPercent(200)
	if f := os.Getenv("GOVC_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() { time.Sleep(40 * time.Second); pprof.StopCPUProfile() }()
	}
	l, err := loadRepo(*fRepo)
	var db *SpecDB
	if err == nil {
		db, err = loadSpecs(*fSpecs)
	}
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<16), 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for sc.Scan() {
		k := sc.Text()
		var r *FuncRes
		if err != nil {
			r = &FuncRes{Key: k, Err: "load: " + err.Error()}
		} else {
			r = verifyOne(l, db, k)
		}
		b, _ := json.Marshal(r)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

func mainList() {
	l, err := loadRepo(*fRepo)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	db, err := loadSpecs(*fSpecs)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if flag.Arg(0) == "write-baseline" {
		if err := writeBaseline(l, db); err != nil {
			fmt.Println(err)
		}
		return
	}
	var ks []string
	for k := range l.funcs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	n := 0
	for _, k := range ks {
		s := "-"
		if c := db.contracts[k]; c != nil {
			s = "contract " + strings.Join(c.tags, ",")
			if c.inline {
				s = "inline"
			}
			if c.trusted != "" {
				s = "TRUSTED " + c.trusted
			}
			n++
		}
		fmt.Printf("%-70s loops=%d %s\n", k, len(l.funcs[k].loops), s)
	}
	fmt.Printf("%d functions, %d with contracts, %d lemmas\n", len(ks), n, len(db.lemmas))
	for k, c := range db.contracts {
		if c.kind == "func" && l.funcs[k] == nil && c.trusted == "" {
			fmt.Println("contract for unknown function", k)
		}
	}
}

func matchKeys(db *SpecDB, pats []string) []string {
	var ks []string
	for _, p := range pats {
		hit := false
		all := append([]string{}, db.order...)
		for _, k := range all {
			c := db.contracts[k]
			if c.kind != "func" || c.inline {
				continue
			}
			if m, _ := filepath.Match(p, k); m || k == p {
				ks = append(ks, k)
				hit = true
			}
			for _, t := range c.tags {
				if t == p {
					ks = append(ks, k)
					hit = true
				}
			}
		}
		for _, k := range db.lemmaSeq {
			if m, _ := filepath.Match(p, "lemma "+k); m {
				ks = append(ks, "lemma "+k)
				hit = true
			}
			for _, t := range db.lemmas[k].tags {
				if t == p {
					ks = append(ks, "lemma "+k)
					hit = true
				}
			}
		}
		if !hit {
			fmt.Fprintln(os.Stderr, "no match:", p)
		}
	}
	return ks
}

func mainVerify() {
	db, err := loadSpecs(*fSpecs)
	if err != nil {
		fmt.Println("spec error:", err)
		os.Exit(1)
	}
	ks := matchKeys(db, flag.Args())
	res := runAll(db, ks, commonArgs(), *fJ, *fFollow, time.Now().Add(2*time.Hour), nil)
	var keys []string
	for k := range res {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	bad := 0
	for _, k := range keys {
		r := res[k]
		pr := 0
		by := map[string]int{}
		var slow int64
		for _, o := range r.Obls {
			if o.Status == "proved" {
				pr++
				by[o.Solver]++
			}
			if o.Ms > slow {
				slow = o.Ms
			}
		}
		st := "ok  "
		if !r.ok() {
			st = "FAIL"
			bad++
		}
		fmt.Printf("%s %-60s %d/%d obligations, %d paths, %d ms (oracle %d/%d ms, slowest %d)", st, k, pr, len(r.Obls), r.Paths, r.Ms, r.OraN, r.OraMs, slow)
		if *fV {
			fmt.Printf(" %v", by)
		}
		fmt.Println()
		if r.Err != "" {
			fmt.Println("   ERROR", r.Err)
		}
		for _, o := range r.Obls {
			if o.Status != "proved" {
				fmt.Printf("   %s %s [%s] %s\n      %s\n", o.Status, o.Kind, o.Pos, o.Name, strings.ReplaceAll(trunc(o.Out, 900), "\n", "\n      "))
			} else if *fV && o.Ms > 3000 {
				fmt.Printf("   slow %d ms %s %s [%s] %s\n", o.Ms, o.Solver, o.Kind, o.Pos, trunc(o.Name, 150))
			}
		}
	}
	fmt.Printf("%d verified, %d failed\n", len(keys)-bad, bad)
	if bad > 0 {
		os.Exit(1)
	}
}
