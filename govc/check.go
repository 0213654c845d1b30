package main

// Per-property check: verify every contract the property rests on, cross-check with
// the property's driver on the real code, write evidence, report violations.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type drvRes struct {
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct"`
	Rule        string   `json:"rule"`
	Samples     []string `json:"samples"`
	Fail        string   `json:"fail"`
	Class       string   `json:"class"`
	err         string
	absent      bool
	raw         string
}

// runDriver builds the driver of a property against the current tree and runs it.
func runDriver(prop string, seed int64, budget time.Duration, hard time.Duration) (r drvRes) {
	dir := filepath.Join(*fVerif, "drivers", strings.ToLower(prop))
	if _, err := os.Stat(dir); err != nil {
		r.absent = true
		return
	}
	bin := filepath.Join(*fVerif, "bin", "drv-"+prop)
	b := exec.Command("go", "build", "-o", bin, "./"+strings.ToLower(prop))
	b.Dir = filepath.Join(*fVerif, "drivers")
	b.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	if out, err := b.CombinedOutput(); err != nil {
		r.err = "driver does not build: " + trunc(string(out), 2000)
		return
	}
	c := exec.Command(bin, "-seed", fmt.Sprint(seed), "-budget", budget.String())
	c.Env = append(os.Environ(), "GOMEMLIMIT=4GiB")
	var so bytes.Buffer
	var se tailBuf
	c.Stdout, c.Stderr = &so, &se
	if err := c.Start(); err != nil {
		r.err = err.Error()
		return
	}
	tm := time.AfterFunc(hard, func() { c.Process.Kill() })
	err := c.Wait()
	tm.Stop()
	r.raw = so.String()
	lines := strings.Split(strings.TrimSpace(so.String()), "\n")
	if jerr := json.Unmarshal([]byte(lines[len(lines)-1]), &r); jerr != nil {
		r.err = fmt.Sprintf("driver ended without a result (%v): %s", err, trunc(se.String(), 2000))
	}
	return
}

// tailBuf keeps the end of what is written (the code under test may print a lot).
type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<20 {
		t.b = append([]byte{}, t.b[len(t.b)-1<<19:]...)
	}
	return len(p), nil
}

func (t *tailBuf) String() string {
	s := string(t.b)
	if i := strings.LastIndex(s, "fatal error: "); i >= 0 {
		return s[i:]
	}
	if len(s) > 2000 {
		return s[len(s)-2000:]
	}
	return s
}

type known struct{ prop, obl, class, text string }

func loadKnown() (ks []known) {
	b, err := os.ReadFile(filepath.Join(*fVerif, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, ln := range strings.Split(string(b), "\n") {
		ln = strings.TrimSpace(ln)
		if !strings.HasPrefix(ln, "known:") {
			continue
		}
		var k known
		rest := strings.TrimSpace(ln[6:])
		for {
			f := strings.SplitN(rest, " ", 2)
			if strings.HasPrefix(f[0], "property=") {
				k.prop = f[0][9:]
			} else if strings.HasPrefix(f[0], "obligation=") {
				k.obl = f[0][11:]
			} else if strings.HasPrefix(f[0], "class=") {
				k.class = f[0][6:]
			} else {
				break
			}
			rest = strings.TrimSpace(f[len(f)-1])
			if len(f) < 2 {
				rest = ""
				break
			}
		}
		k.text = rest
		ks = append(ks, k)
	}
	return
}

// oblID is a stable name: function, kind and clause, no line numbers.
func oblID(fn string, o OblRes) string {
	return strings.ReplaceAll(fn+"#"+o.Kind+"#"+o.Name, " ", "")
}

func mainCheck() {
	t0 := time.Now()
	prop := *fProp
	if v := os.Getenv("VERIF_TIER"); v != "" && *fTier == "" {
		*fTier = v
	}
	if *fTier != "thorough" {
		*fTier = "quick"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	replayDir := filepath.Join(*fVerif, "evidence", "replay")
	os.MkdirAll(replayDir, 0o755)
	replay := filepath.Join(replayDir, prop+".txt")
	os.Remove(replay)
	deadline := t0.Add(500 * time.Second)
	bud, bud2 := 4*time.Second, 60*time.Second
	if *fTier == "thorough" {
		*fQ, *fL = 15000, 120000
		deadline = t0.Add(6 * time.Hour)
		bud, bud2 = 120*time.Second, 300*time.Second
	}

	dch := make(chan drvRes, 1)
	go func() { dch <- runDriver(prop, seed, bud, bud+120*time.Second) }()

	var problems []string // undischarged obligations and engine failures
	var knownHits []string
	kf := loadKnown()
	db, err := loadSpecs(*fSpecs)
	var res map[string]*FuncRes
	var sep map[string]bool
	if err != nil {
		problems = append(problems, "contracts do not parse: "+err.Error())
	} else {
		if _, lerr := loadRepo(*fRepo); lerr != nil {
			problems = append(problems, "the tree does not load: "+lerr.Error())
		} else {
			roots := matchKeys(db, []string{prop})
			if *fTier != "thorough" {
				sep = map[string]bool{}
			}
			res = runAll(db, roots, commonArgs(), *fJ, true, deadline, sep)
			// a busy machine can make a solver run out of time: again, alone and with more time
			var again []string
			for k, r := range res {
				delete(sep, k)
				if r.Err != "" {
					continue
				}
				for _, o := range r.Obls {
					if o.Status != "proved" {
						again = append(again, k)
						break
					}
				}
			}
			if len(again) > 0 && len(again) <= 3 {
				d := <-dch
				dch <- d
				if d.Fail != "" {
					again = nil // a failing input is known already
				}
			}
			if len(again) > 0 && len(again) <= 3 {
				rd := time.Now().Add(120 * time.Second)
				if rd.After(deadline) {
					rd = deadline
				}
				l, p := *fL, *fP
				*fL, *fP = 3*l, 6
				r2 := runAll(db, again, commonArgs(), len(again), false, rd, nil)
				*fL, *fP = l, p
				for k, r := range r2 {
					if r.Err == "" {
						res[k] = r
					}
				}
			}
		}
	}
	var keys []string
	for k := range res {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	obls, done := 0, 0
	by := map[string]int{}
	kinds := map[string]int{}
	trusted := map[string]bool{}
	var solverMs int64
	nf, nl := 0, 0
	var under, detail, lemmas []string
	usedKnown := map[string]bool{}
	for _, k := range keys {
		r := res[k]
		for _, t := range r.Trusted {
			trusted[t] = true
		}
		if r.Err != "" {
			problems = append(problems, fmt.Sprintf("%s: %s", k, r.Err))
		}
		pr := 0
		for _, o := range r.Obls {
			obls++
			kinds[o.Kind]++
			solverMs += o.Ms
			if o.Status == "proved" {
				done++
				pr++
				by[o.Solver]++
				continue
			}
			id := oblID(k, o)
			hit := false
			for _, kn := range kf {
				if kn.prop == prop && kn.obl == id {
					hit = true
					if !usedKnown[kn.text] {
						usedKnown[kn.text] = true
						knownHits = append(knownHits, kn.text)
					}
				}
			}
			if !hit {
				problems = append(problems, fmt.Sprintf("%s: obligation not discharged: %s [%s] at %s (%s)\n    id %s\n    verifier output: %s",
					k, o.Kind, o.Name, o.Pos, o.Solver, id, strings.ReplaceAll(o.Out, "\n", "\n    ")))
			}
		}
		if len(r.Obls) == 0 {
			continue
		}
		if r.Lemma {
			nl++
			lemmas = append(lemmas, fmt.Sprintf("%s %d/%d", k, pr, len(r.Obls)))
		} else {
			nf++
			under = append(under, k)
			detail = append(detail, fmt.Sprintf("%s %d/%d, %d paths", k, pr, len(r.Obls), r.Paths))
		}
	}
	if len(problems) == 0 && obls == 0 {
		problems = append(problems, "no obligations were generated: the check would be vacuous")
	}
	d := <-dch
	if d.Fail == "" && d.err == "" && !d.absent && len(problems) > 0 {
		d2 := runDriver(prop, seed+1, bud2, bud2+120*time.Second)
		if d2.Fail != "" || d2.err != "" {
			d = d2
		} else {
			d.Evaluations += d2.Evaluations
			d.Distinct += d2.Distinct
		}
	}
	if d.Fail != "" {
		for _, kn := range kf {
			if kn.prop == prop && kn.class != "" && kn.class == d.Class {
				if !usedKnown[kn.text] {
					knownHits = append(knownHits, kn.text)
				}
				d.Fail = ""
			}
		}
	}

	// evidence
	if len(detail) > 120 {
		detail = append(detail[:120], fmt.Sprintf("... and %d more", len(detail)-120))
	}
	tb := []string{"govc: the condition generator in /verif/govc (semantics of Go statements, memory model)", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2 (unsat answers)", "go/types front end, Go compiler"}
	ass := []string{
		"the integer types have their Go widths on amd64 (int is 64 bits); every arithmetic operation wraps in the model as in Go, nothing is treated as an unbounded integer",
		"memory exhaustion and stack overflow are not modelled; a slice or array has at most 2^48 elements",
		"append that reallocates is modelled as a fresh array of arbitrary larger capacity",
		"single goroutine per object unless the property is about concurrency (C27)",
	}
	ass = append(ass, keysOf(trusted)...)
	cov := map[string]any{
		"obligations": obls, "discharged": done,
		"checker_cmd":              fmt.Sprintf("bash check.sh %s %s (govc check; every obligation to z3-new, z3, cvc5)", prop, *fTier),
		"trusted_base":             tb,
		"functions_under_contract": nf,
		"functions":                under,
		"per_function":             detail,
		"lemmas":                   lemmas,
		"lemmas_proved":            nl,
		"discharged_by":            by,
		"obligation_kinds":         kinds,
		"solver_s":                 float64(solverMs) / 1000,
		"undischarged":             len(problems),
	}
	if len(sep) > 0 {
		var ss []string
		for k := range sep {
			tg := strings.Join(db.contracts[k].tags, ",")
			ss = append(ss, k+" ("+tg+")")
		}
		sort.Strings(ss)
		cov["contracts_discharged_by_other_checks"] = ss
	}
	if !d.absent {
		sm := d.Samples
		if len(sm) > 5 {
			sm = sm[:5]
		}
		cov["cross_check"] = map[string]any{"what": "bounded cross-check of the same statement on the compiled code, used to find failing inputs; not counted as proof", "evaluations": d.Evaluations, "distinct_nontrivial": d.Distinct, "rule": d.Rule, "samples": sm}
	}
	viol := 0
	if len(problems) > 0 || d.Fail != "" || d.err != "" {
		viol = 1
	}
	ev := map[string]any{"property": prop, "tier": *fTier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": ass,
		"wall_s": time.Since(t0).Seconds(), "violations": viol}
	b, _ := json.MarshalIndent(ev, "", " ")
	if len(b) > 60000 {
		delete(cov, "per_function")
		b, _ = json.MarshalIndent(ev, "", " ")
	}
	os.WriteFile(filepath.Join(*fVerif, "evidence", prop+".json"), b, 0o644)

	for _, k := range knownHits {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	fmt.Printf("%s %s: %d functions and %d lemmas, %d/%d obligations discharged, driver %d evaluations, %.1f s\n", prop, *fTier, nf, nl, done, obls, d.Evaluations, time.Since(t0).Seconds())
	if viol == 0 {
		os.Exit(0)
	}
	var rep strings.Builder
	fmt.Fprintf(&rep, "property %s\n\n", prop)
	if d.Fail != "" {
		fmt.Fprintf(&rep, "failing input replayed on the real code (drivers/%s, seed %d):\n%s\n\n", strings.ToLower(prop), seed, d.Fail)
	}
	if d.err != "" {
		fmt.Fprintf(&rep, "driver: %s\n\n", d.err)
	}
	for _, p := range problems {
		fmt.Fprintf(&rep, "%s\n\n", p)
	}
	os.WriteFile(replay, []byte(rep.String()), 0o644)
	for i, p := range problems {
		if i < 8 {
			fmt.Println("  " + trunc(strings.SplitN(p, "\n", 2)[0], 300))
		}
	}
	if d.Fail != "" {
		fmt.Println("  failing input:", trunc(strings.ReplaceAll(d.Fail, "\n", "\n    "), 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
	} else {
		if d.err != "" {
			fmt.Println("  " + trunc(d.err, 500))
		}
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
	}
	os.Exit(1)
}
