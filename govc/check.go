package main

// The check command: decide one property on /repo's current tree.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type Harness struct {
	Property string
	Files    []string
	Test     string
	Bounded  string // what it explores and within which bound
	Role     string // "bounded" (stands in for functions out of reach) or "replay" (also run as a cross-check)
	Seconds  float64
}

type Known struct {
	Property string
	ID       string
	What     string
	Fixed    string `json:",omitempty"`
}

type PropInfo struct {
	Level string
	Note  string
}

func loadHarness(dir string) []Harness {
	var hs []Harness
	b, err := os.ReadFile(filepath.Join(dir, "harness.json"))
	if err == nil {
		if err := json.Unmarshal(b, &hs); err != nil {
			fatal("harness.json:", err)
		}
	}
	return hs
}

func loadKnown(dir string) []Known {
	var ks []Known
	f, err := os.Open(filepath.Join(dir, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		var k Known
		if strings.TrimSpace(sc.Text()) == "" {
			continue
		}
		if json.Unmarshal(sc.Bytes(), &k) == nil {
			ks = append(ks, k)
		}
	}
	return ks
}

type harnessResult struct {
	H     Harness
	Cases int
	Fails [][2]string // name, detail
	Note  string
	Time  float64
}

func runHarness(p *Prog, h Harness, work, tier string) harnessResult {
	t0 := time.Now()
	res := harnessResult{H: h}
	var files []string
	for _, f := range h.Files {
		files = append(files, filepath.Join(filepath.Dir(specDir()), "harness", f))
	}
	bin, msg := buildTestBinary(p, work, "h_"+h.Test, files, false)
	if bin == "" {
		res.Note = "does not compile against this tree: " + short(msg, 500)
		return res
	}
	sec := h.Seconds
	if sec == 0 {
		sec = 10
	}
	if tier == "thorough" {
		sec *= 12
	}
	to := time.Duration((sec*3+40)*1000) * time.Millisecond
	out, err := runBinary(bin, work, []string{fmt.Sprintf("VERIF_BUDGET=%g", sec), fmt.Sprintf("VERIF_SEED=%d", seed()), "GOMEMLIMIT=3GiB"}, to, "-test.run", "^"+h.Test+"$", "-test.timeout", to.String())
	seen := map[string]bool{}
	done := false
	for _, l := range strings.Split(out, "\n") {
		switch {
		case strings.HasPrefix(l, "VERIF-CASES "):
			fmt.Sscanf(l, "VERIF-CASES %d", &res.Cases)
			done = true
		case strings.HasPrefix(l, "VERIF-FAIL "):
			f := strings.SplitN(strings.TrimPrefix(l, "VERIF-FAIL "), ": ", 2)
			if len(f) < 2 {
				f = append(f, "")
			}
			if !seen[f[0]] {
				seen[f[0]] = true
				res.Fails = append(res.Fails, [2]string{f[0], f[1]})
			}
		}
	}
	if err != nil && len(res.Fails) == 0 {
		// a crash or hang of the code under test
		i := strings.Index(out, "panic:")
		if i < 0 {
			i = strings.Index(out, "fatal error:")
		}
		switch {
		case i >= 0:
			res.Fails = append(res.Fails, [2]string{"panic", short(out[i:], 1500)})
		case !done:
			res.Fails = append(res.Fails, [2]string{"hang", "no answer within " + to.String() + ": " + short(out, 500)})
		}
	}
	res.Time = time.Since(t0).Seconds()
	return res
}

type violation struct {
	id     string
	detail string
	input  string // concrete input; "" when none was found
	output string
}

func cmdCheck(args []string) int {
	if len(args) < 1 {
		fatal("usage: govc check <property> [quick|thorough]")
	}
	prop := args[0]
	tier := os.Getenv("VERIF_TIER")
	if len(args) > 1 {
		tier = args[1]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	t0 := time.Now()
	root := filepath.Dir(specDir())
	p, err := Load(repoDir())
	if err != nil {
		fmt.Println("cannot load /repo:", err)
		return 2
	}
	sp, err := ParseSpecs(specDir())
	if err != nil {
		fmt.Println(err)
		return 2
	}
	sp.LoadLock(specDir())
	work, err := os.MkdirTemp("", "govc-"+prop+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(work)

	// harnesses and the runtime cross-check run beside the proofs
	var hres []harnessResult
	var hwg sync.WaitGroup
	var hmu sync.Mutex
	for _, h := range loadHarness(specDir()) {
		if h.Property != prop {
			continue
		}
		hwg.Add(1)
		go func(h Harness) {
			defer hwg.Done()
			r := runHarness(p, h, work, tier)
			hmu.Lock()
			hres = append(hres, r)
			hmu.Unlock()
		}(h)
	}

	// obligations
	results := map[string]*FuncResult{}
	var order []string
	var gen func(k string, direct bool)
	isDirect := map[string]bool{}
	elsewhere := map[string][]string{} // callee contracts discharged by another property's check
	gen = func(k string, direct bool) {
		if direct {
			isDirect[k] = true
		}
		if results[k] != nil {
			return
		}
		c := sp.Contracts[k]
		if c == nil || c.Kind != "func" {
			return
		}
		if c.Own && !c.hasProp(prop) {
			elsewhere[k] = c.Props
			return
		}
		r := Generate(p, sp, c)
		results[k] = r
		order = append(order, k)
		for _, u := range r.Used {
			gen(u, false)
		}
	}
	for _, k := range sp.Order {
		if sp.Contracts[k].hasProp(prop) {
			gen(k, true)
		}
	}
	var obls []*Obligation
	var viols []violation
	missing := []string{}
	relevant := func(o *Obligation) bool {
		if !isDirect[o.Func] {
			return true
		}
		if o.Kind != "ensures" && o.Kind != "lemma" {
			return true
		}
		for _, q := range o.Props {
			if q == prop {
				return true
			}
		}
		// other properties' clauses are needed when a caller assumes them
		return usedBy(results, o.Func)
	}
	failedFuncs := map[string]map[string]bool{} // func -> failed clause names ("*" other kinds)
	fail := func(f, clause string) {
		if failedFuncs[f] == nil {
			failedFuncs[f] = map[string]bool{}
		}
		failedFuncs[f][clause] = true
	}
	for _, k := range order {
		r := results[k]
		if r.Missing {
			missing = append(missing, k)
			if isDirect[k] && exportedKey(k) {
				// a public function is gone: nothing is left to carry its clauses
				// (an internal helper that disappears is judged through its callers, which now carry its code)
				fail(k, "*")
				viols = append(viols, violation{id: k + "/missing/function", detail: "the function under contract no longer exists"})
			}
			continue
		}
		if r.Err != "" {
			fail(k, "*")
			viols = append(viols, violation{id: k + "/translate/" + r.Err, detail: "no proof could be generated: " + r.Err})
			continue
		}
		for _, o := range r.Obls {
			if relevant(o) {
				obls = append(obls, o)
			}
		}
	}
	genTime := time.Since(t0).Seconds()
	def := 30.0
	budget := 400.0
	if tier == "thorough" {
		def = 60
		budget = 3000
	}
	var fmu sync.Mutex
	failIDs := map[string]*Obligation{}
	nfail := 0
	Discharge(obls, func(o *Obligation) float64 {
		fmu.Lock()
		nf := nfail
		fmu.Unlock()
		t := def
		if c := sp.Contracts[o.Func]; c != nil && c.Timeout > 0 {
			t = c.Timeout
		}
		if nf >= 4 || time.Since(t0).Seconds() > budget {
			return 4
		}
		return t
	}, nil, func(o *Obligation) {
		if o.Result.Status != "unsat" {
			fmu.Lock()
			nfail++
			if failIDs[o.ID()] == nil {
				failIDs[o.ID()] = o
			}
			fmu.Unlock()
		}
	})
	tOb := time.Since(t0).Seconds()
	// vacuity
	var vwg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, k := range order {
		vwg.Add(1)
		go func(r *FuncResult) {
			defer vwg.Done()
			sem <- struct{}{}
			r.CheckVacuity()
			<-sem
		}(results[k])
	}
	vwg.Wait()
	proveTime := time.Since(t0).Seconds() - genTime
	if os.Getenv("GOVC_TIMES") != "" {
		for _, o := range obls {
			if o.Result.Time > 1 {
				fmt.Printf("  %.1fs %s %s %s\n", o.Result.Time, o.ID(), o.Result.Status, o.Result.Backend)
			}
		}
		fmt.Printf("  obligations done at %.1fs, vacuity at %.1fs\n", tOb, time.Since(t0).Seconds())
	}
	for _, k := range order {
		if v := results[k].Vacuous; v != "" {
			fail(k, "*")
			viols = append(viols, violation{id: k + "/vacuity/" + v, detail: v})
		}
	}
	var ids []string
	for id := range failIDs {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	models := map[string][]map[string]float64{}
	for _, id := range ids {
		o := failIDs[id]
		cl := "*"
		if o.Kind == "ensures" {
			cl = strings.SplitN(o.Name, ".", 2)[0]
		}
		fail(o.Func, cl)
		if o.Result.Status == "sat" && o.Result.Model != "" {
			models[o.Func] = append(models[o.Func], parseModel(o.Result.Model))
		}
		viols = append(viols, violation{id: id, detail: fmt.Sprintf("obligation not discharged (%s %s) at %s on path %s\n  goal: %s", o.Result.Status, o.Result.Detail, o.Pos, o.Path, short(o.Goal.String(), 3000)), output: o.Result.Model})
	}
	hwg.Wait()

	// runtime assertion checking: long on the functions that failed, short on the others
	racRep := map[string]*racReport{}
	racNote := ""
	runR := func(keys []string, sec float64, cases int, timeout time.Duration) {
		var cs []*racContract
		for _, k := range keys {
			c := sp.Contracts[k]
			if c == nil || c.NoRac || p.funcs[k] == nil {
				continue
			}
			rc := racOf(c)
			rc.Models = models[k]
			cs = append(cs, rc)
		}
		reps, note := runRac(p, sp, cs, work, sec, cases, timeout)
		if note != "" {
			racNote += note
		}
		for _, r := range reps {
			racRep[r.Func] = r
		}
	}
	var failKeys, okKeys []string
	for _, k := range order {
		if failedFuncs[k] != nil {
			failKeys = append(failKeys, k)
		} else if isDirect[k] {
			okKeys = append(okKeys, k)
		}
	}
	if len(failKeys) > 0 {
		// callees assumed by the failed proofs are searched as well
		runR(failKeys, 12, 400000, 150*time.Second)
	}
	sec, cases := 0.15, 300
	if tier == "thorough" {
		sec, cases = 8, 200000
	}
	if len(okKeys) > 0 && len(failKeys) == 0 {
		runR(okKeys, sec, cases, 120*time.Second+time.Duration(float64(len(okKeys))*sec*2)*time.Second)
	}
	var confirmed []violation
	racCases, racFuncs := 0, 0
	var racKeys []string
	for k := range racRep {
		racKeys = append(racKeys, k)
	}
	sort.Strings(racKeys)
	for _, k := range racKeys {
		r := racRep[k]
		racCases += r.Cases
		if r.Cases > 0 {
			racFuncs++
		}
		for _, f := range r.Findings {
			if c := sp.Contracts[k]; c != nil && isDirect[k] && f.Clause != "frame" && f.Clause != "panic" && f.Clause != "termination" {
				// a clause of another property
				ok := false
				for _, e := range c.Ensures {
					if e.Name == f.Clause {
						for _, q := range clauseProps(e, c.Props) {
							ok = ok || q == prop
						}
					}
				}
				if !ok && !usedBy(results, k) {
					continue
				}
			}
			confirmed = append(confirmed, violation{id: "rac:" + k + "/" + f.Clause, detail: fmt.Sprintf("contract clause %q of %s is false on the real code: %s; seed %d case %d", f.Text, k, f.Detail, f.Seed, f.Case), input: f.Inputs})
		}
	}
	for _, h := range hres {
		for _, f := range h.Fails {
			confirmed = append(confirmed, violation{id: "run:" + h.H.Test + "/" + f[0], detail: f[1], input: fmt.Sprintf("history of %s with VERIF_SEED=%d: %s", h.H.Test, seed(), f[1])})
		}
	}

	// known findings
	known := map[string]Known{}
	for _, k := range loadKnown(root) {
		if k.Property == prop && k.Fixed == "" {
			known[k.ID] = k
		}
	}
	printed := map[string]bool{}
	filter := func(vs []violation) []violation {
		var out []violation
		for _, v := range vs {
			if k, ok := known[v.id]; ok {
				if !printed[k.ID] {
					printed[k.ID] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
				}
				continue
			}
			out = append(out, v)
		}
		return out
	}
	confirmed = filter(confirmed)
	viols = filter(viols)

	nd := 0
	by := map[string]int{}
	for _, o := range obls {
		if o.Result.Status == "unsat" {
			nd++
			by[o.Result.Backend]++
		}
	}
	fmt.Printf("%s: %d functions under contract, %d obligations, %d discharged, %.1fs generation, %.1fs proving", prop, len(order)-len(missing), len(obls), nd, genTime, proveTime)
	fmt.Printf("; runtime cross-check %d calls of %d functions", racCases, racFuncs)
	for _, h := range hres {
		fmt.Printf("; %s %d cases %.1fs", h.H.Test, h.Cases, h.Time)
		if h.Note != "" {
			fmt.Printf(" (%s)", h.Note)
		}
	}
	fmt.Println()
	if racNote != "" {
		fmt.Println("note:", short(racNote, 1000))
	}
	// an undischarged or empty check is never silent
	if len(obls) == 0 && len(hres) == 0 {
		viols = append(viols, violation{id: prop + "/vacuity/no obligations", detail: "no obligation was generated"})
	}
	for _, h := range hres {
		if h.Note != "" && h.H.Role == "bounded" {
			fmt.Println("note: bounded stand-in", h.H.Test, "could not run:", h.Note)
		}
		if h.H.Role == "bounded" && h.Note == "" && len(h.Fails) == 0 && h.Cases == 0 {
			viols = append(viols, violation{id: prop + "/bounded/" + h.H.Test, detail: "the bounded check explored nothing"})
		}
	}
	if os.Getenv("GOVC_NOWRITE") == "" {
		writeEvidence(root, prop, tier, results, elsewhere, order, isDirect, obls, hres, racCases, racFuncs, racRep, genTime, proveTime, time.Since(t0).Seconds(), len(confirmed)+len(viols), missing)
	}
	if len(confirmed) == 0 && len(viols) == 0 {
		return 0
	}
	outDir := filepath.Join(root, "out", prop)
	os.MkdirAll(outDir, 0o755)
	write := func(name string, v violation) string {
		f := filepath.Join(outDir, sanitize(name)+".json")
		m := map[string]any{"property": prop, "obligation": v.id, "detail": v.detail, "input": v.input, "seed": seed(), "verifier_output": v.output,
			"reproduce": fmt.Sprintf("cd %s && VERIF_SEED=%d ./check.sh %s %s", root, seed(), prop, tier)}
		var failed []string
		for _, w := range viols {
			failed = append(failed, w.id+": "+short(w.detail, 400))
		}
		m["failed_obligations"] = failed
		b, _ := json.MarshalIndent(m, "", " ")
		os.WriteFile(f, append(b, '\n'), 0o644)
		return f
	}
	for _, v := range viols {
		fmt.Printf("failed obligation: %s: %s\n", v.id, short(v.detail, 240))
	}
	if len(confirmed) > 0 {
		for i, v := range confirmed {
			if i >= 8 {
				break
			}
			f := write(v.id, v)
			fmt.Printf("  %s: %s\n  input: %s\n", v.id, short(v.detail, 400), short(v.input, 400))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		}
		return 1
	}
	for i, v := range viols {
		if i >= 8 {
			break
		}
		f := write(v.id, v)
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, f)
	}
	return 1
}

func usedBy(rs map[string]*FuncResult, k string) bool {
	for _, r := range rs {
		for _, u := range r.Used {
			if u == k {
				return true
			}
		}
	}
	return false
}

func exportedKey(k string) bool {
	n := k[strings.LastIndexByte(k, '.')+1:]
	return n != "" && n[0] >= 'A' && n[0] <= 'Z'
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '.' || c == '-' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	r := sb.String()
	if len(r) > 100 {
		r = r[:100]
	}
	return r
}

func writeEvidence(root, prop, tier string, results map[string]*FuncResult, elsewhere map[string][]string, order []string, direct map[string]bool, obls []*Obligation, hres []harnessResult, racCases, racFuncs int, racRep map[string]*racReport, genTime, proveTime, wall float64, nviol int, missing []string) {
	level := manifestLevel(root, prop)
	cov := map[string]any{}
	nd := 0
	by := map[string]int{}
	kinds := map[string]int{}
	solver := 0.0
	for _, o := range obls {
		kinds[o.Kind]++
		solver += o.Result.Time
		if o.Result.Status == "unsat" {
			nd++
			by[o.Result.Backend]++
		}
	}
	assumed := map[string]bool{}
	inlined := map[string]bool{}
	var funcs, trusted []string
	for _, k := range order {
		r := results[k]
		if r.Missing {
			continue
		}
		if r.C.Trusted {
			trusted = append(trusted, k)
		}
		role := "callee"
		if direct[k] {
			role = "property"
		}
		funcs = append(funcs, fmt.Sprintf("%s (%s, %d obligations, %d paths)", k, role, len(r.Obls), r.Paths))
		for _, a := range r.Assumed {
			assumed[a] = true
		}
		for _, a := range r.Inlined {
			inlined[a] = true
		}
	}
	tb := []string{"govc (the verification condition generator in /verif/govc)", "go/types", "z3 4.8.12, z3-new, cvc5 1.1.2", "float64 read as real numbers (no rounding, overflow or NaN); signed integers read as mathematical; unsigned wrap"}
	for _, t := range trusted {
		tb = append(tb, "trusted contract: "+t)
	}
	cov["obligations"] = len(obls)
	cov["discharged"] = nd
	cov["checker_cmd"] = fmt.Sprintf("cd /verif && ./check.sh %s %s", prop, tier)
	cov["trusted_base"] = tb
	cov["functions_under_contract"] = funcs
	cov["inlined_functions"] = keysOf(inlined)
	cov["obligations_by_kind"] = kinds
	cov["discharged_by_backend"] = by
	cov["solver_seconds"] = round1(solver)
	cov["generation_seconds"] = round1(genTime)
	cov["proving_seconds"] = round1(proveTime)
	if len(missing) > 0 {
		cov["missing_functions"] = missing
	}
	statMu.Lock()
	st := map[string]any{}
	for n, s := range solverStat {
		st[n] = map[string]any{"calls": s.Calls, "first_answers": s.Won, "seconds": round1(s.Time)}
	}
	statMu.Unlock()
	cov["solver_calls"] = st
	clauses := 0
	for _, r := range racRep {
		clauses += len(r.Checked)
	}
	cov["runtime_cross_check"] = map[string]any{"calls_meeting_precondition": racCases, "functions": racFuncs, "clauses_decided": clauses, "note": "bounded: seeded random calls of the compiled functions against the same contract text; not counted as proved"}
	var bounded []map[string]any
	evals := 0
	for _, h := range hres {
		bounded = append(bounded, map[string]any{"test": h.H.Test, "role": h.H.Role, "bound": h.H.Bounded, "cases": h.Cases, "seconds": round1(h.Time), "note": h.Note})
		evals += h.Cases
	}
	if bounded != nil {
		cov["bounded"] = bounded
	}
	if level == "exploration" || level == "fault_enumeration" {
		cov["evaluations"] = evals + racCases
		cov["distinct_nontrivial"] = evals
		cov["rule"] = "seeded random histories; a case is one completed history or query comparison against the reference oracle"
		var samples []string
		for _, h := range hres {
			samples = append(samples, h.H.Test+": "+h.H.Bounded)
		}
		cov["samples"] = samples
	}
	if level == "other" {
		cov["explanation"] = "per-function obligations proved deductively, history-level part explored within the stated bound (see bounded)"
	}
	var as []string
	for a := range assumed {
		as = append(as, a)
	}
	for k, ps := range elsewhere {
		as = append(as, fmt.Sprintf("the contract of %s is assumed here and discharged by the check of %s", k, strings.Join(ps, ", ")))
	}
	sort.Strings(as)
	as = append(as, "sqrt, sin, cos, acos, atan2, exp, pow are characterised by their defining algebraic facts only", "memory is a heap of typed objects; no unsafe, no concurrency in the functions under contract")
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed(), "level": level, "coverage": cov, "assumptions": as, "wall_s": round1(wall), "violations": nviol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0o644)
}

func round1(f float64) float64 { return float64(int(f*10+0.5)) / 10 }

func manifestLevel(root, prop string) string {
	b, err := os.ReadFile(filepath.Join(root, "MANIFEST.json"))
	if err == nil {
		var m struct {
			Checks []struct{ Property, Level string }
		}
		if json.Unmarshal(b, &m) == nil {
			for _, c := range m.Checks {
				if c.Property == prop {
					return c.Level
				}
			}
		}
	}
	return "proof"
}

// cmdRac runs the contracts on the unchanged tree (development aid).
func cmdRac(args []string) {
	p, err := Load(repoDir())
	if err != nil {
		fatal(err)
	}
	sp, err := ParseSpecs(specDir())
	if err != nil {
		fatal(err)
	}
	work, _ := os.MkdirTemp("", "govc-rac-")
	defer os.RemoveAll(work)
	sec := 1.0
	var cs []*racContract
	for _, k := range sp.Order {
		c := sp.Contracts[k]
		if c.NoRac || p.funcs[k] == nil {
			continue
		}
		if len(args) > 0 {
			ok := false
			for _, a := range args {
				ok = ok || a == k || c.hasProp(a)
			}
			if !ok {
				continue
			}
		}
		cs = append(cs, racOf(c))
	}
	if s := os.Getenv("RACSEC"); s != "" {
		fmt.Sscan(s, &sec)
	}
	reps, note := runRac(p, sp, cs, work, sec, 1000000, 20*time.Minute)
	fmt.Println(note)
	for _, r := range reps {
		c := sp.Contracts[r.Func]
		var never []string
		for _, e := range c.Ensures {
			if r.Checked[e.Name] == 0 {
				never = append(never, e.Name)
			}
		}
		fmt.Printf("%-40s cases %d/%d undecided clauses %v %s\n", r.Func, r.Cases, r.Tried, never, r.Note)
		for _, f := range r.Findings {
			fmt.Printf("   FINDING %s: %s\n     input %s\n     %s\n", f.Clause, short(f.Text, 200), short(f.Inputs, 600), short(f.Detail, 500))
		}
	}
}
