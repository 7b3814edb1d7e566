package main

// SMT-LIB emission and the solver portfolio.

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

var maxFloatRat, _ = new(big.Rat).SetString(new(big.Float).SetFloat64(math.MaxFloat64).Text('f', 0))
var negMaxFloatRat = new(big.Rat).Neg(maxFloatRat)

func smtNum(r *big.Rat, s Sort, asReal bool) string {
	if r.Cmp(maxFloatRat) == 0 {
		return "INFTY"
	}
	if r.Cmp(negMaxFloatRat) == 0 {
		return "(- INFTY)"
	}
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var str string
	if s == SReal || asReal {
		if a.IsInt() {
			str = a.Num().String() + ".0"
		} else {
			str = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
		}
	} else {
		str = a.Num().String()
	}
	if neg {
		str = "(- " + str + ")"
	}
	return str
}

var opName = map[Op]string{OAdd: "+", OMul: "*", ODiv: "/", OIDiv: "div", OIMod: "mod", OLe: "<=", OLt: "<", OEq: "=", ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OFloor: "to_int", OToReal: "to_real"}

func smtSym(s string) string {
	switch s {
	case "sqrt", "cos", "sin", "tan", "acos", "asin", "atan", "exp", "pow", "log", "abs", "and", "or", "not", "ite", "let", "par", "min", "max", "div", "mod", "select", "store":
		return "f_" + s
	}
	ok := true
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_.!$@", c)) {
			ok = false
		}
	}
	if ok && s != "" && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	return "|" + s + "|"
}

type printer struct {
	names  map[*Term]string // shared nodes already named
	asReal bool
}

func (p *printer) str(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	return p.node(t)
}
func (p *printer) node(t *Term) string {
	switch t.op {
	case OConst:
		return smtNum(t.rat, t.sort, p.asReal)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar, OBound:
		return smtSym(t.name)
	case OSel, OApp:
		if len(t.args) == 0 {
			return smtSym(t.name)
		}
		var sb strings.Builder
		sb.WriteString("(" + smtSym(t.name))
		for _, a := range t.args {
			sb.WriteString(" " + p.str(a))
		}
		sb.WriteString(")")
		return sb.String()
	case OForall, OExists:
		var sb strings.Builder
		q := "forall"
		if t.op == OExists {
			q = "exists"
		}
		sb.WriteString("(" + q + " (")
		n := len(t.args)
		for _, b := range t.args[:n-1] {
			s := b.sort
			if p.asReal && s == SInt {
				s = SReal
			}
			fmt.Fprintf(&sb, "(%s %s)", smtSym(b.name), s)
		}
		sb.WriteString(") " + p.str(t.args[n-1]) + ")")
		return sb.String()
	case OToReal:
		if p.asReal {
			return p.str(t.args[0])
		}
	case MBase, MStore, MIte, MHavoc:
		var sb strings.Builder
		fmt.Fprintf(&sb, "(map%d %s", t.op, t.name)
		for _, a := range t.args {
			sb.WriteString(" " + p.str(a))
		}
		return sb.String() + ")"
	}
	var sb strings.Builder
	sb.WriteString("(" + opName[t.op])
	for _, a := range t.args {
		sb.WriteString(" " + p.str(a))
	}
	sb.WriteString(")")
	return sb.String()
}

func smtString(t *Term) string {
	p := &printer{names: map[*Term]string{}}
	s := p.str(t)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

// ---- query preparation

type Query struct {
	facts []*Term
	goal  *Term // to be proved; asserted negated
}

// applications in a set of terms, ground only
func collect(ts []*Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			rec(a)
		}
		f(t)
	}
	for _, t := range ts {
		rec(t)
	}
}

var (
	// value range facts for base-map symbols and variables
	symRange = map[string]func(*Term) *Term{}
	symFacts = map[*Term][]*Term{} // extra facts attached to a variable (definitions)
)

var tPi = func() *Term {
	r, _ := new(big.Rat).SetString("3.141592653589793")
	return Num(r, SReal)
}()

// axiomsFor yields the defining facts of interpreted function applications.
func axiomsFor(t *Term) []*Term {
	zero, one := RealC(0), RealC(1)
	switch t.op {
	case OApp:
		switch t.name {
		case "sqrt":
			x := t.args[0]
			return []*Term{Implies(Le(zero, x), And(Le(zero, t), Eq(Mul(t, t), x)))}
		case "cos", "sin":
			c, s := App("cos", SReal, t.args[0]), App("sin", SReal, t.args[0])
			fs := []*Term{Eq(Add(Mul(c, c), Mul(s, s)), one)}
			if t.args[0].isZero() {
				fs = append(fs, Eq(c, one), Eq(s, zero))
			}
			return fs
		case "acos":
			x := t.args[0]
			c := App("cos", SReal, t)
			s := App("sin", SReal, t)
			return []*Term{Implies(And(Le(RealC(-1), x), Le(x, one)), And(Le(zero, t), Le(t, tPi), Implies(Lt(x, one), Lt(zero, t)), Implies(Lt(RealC(-1), x), Lt(t, tPi)), Implies(Eq(x, one), Eq(t, zero)), Eq(c, x), Le(zero, s), Eq(Mul(s, s), Sub(one, Mul(x, x)))))}
		case "atan2":
			y, x := t.args[0], t.args[1]
			r := App("sqrt", SReal, Add(Mul(x, x), Mul(y, y)))
			return []*Term{Eq(Mul(r, App("cos", SReal, t)), x), Eq(Mul(r, App("sin", SReal, t)), y), Le(Neg(tPi), t), Le(t, tPi)}
		case "exp":
			return []*Term{Lt(zero, t), Implies(Le(t.args[0], zero), Le(t, one)), Implies(Eq(t.args[0], zero), Eq(t, one))}
		case "pow":
			x, y := t.args[0], t.args[1]
			return []*Term{Implies(Le(zero, x), Le(zero, t)), Implies(Lt(zero, x), Lt(zero, t)), Implies(And(Le(zero, x), Le(x, one), Lt(zero, y)), Le(t, one)),
				Implies(And(Lt(zero, x), Eq(y, zero)), Eq(t, one)), Implies(Eq(x, one), Eq(t, one)), Implies(And(Eq(x, zero), Lt(zero, y)), Eq(t, zero)),
				Implies(And(Lt(zero, x), Lt(x, one), Lt(zero, y)), Lt(t, one))}
		}
	}
	return nil
}

type prepared struct {
	facts   []*Term
	neg     *Term
	quant   bool
	nonlin  bool
	intOps  bool
	divVars map[*Term]*Term
}

// the remainder of a non-negative number lies below the (positive) divisor
var imodAxiom = func() *Term {
	a, b, z := Bound("ma", SInt), Bound("mb", SInt), IntC(0)
	r := App("imod", SInt, a, b)
	return Forall([]*Term{a, b}, Implies(And(Le(z, a), Lt(z, b)), And(Le(z, r), Lt(r, b))))
}()

var divCache = map[*Term]*Term{}
var divMu sync.Mutex
var termMu sync.Mutex

func allSerialFacts(t *Term) []*Term {
	if t.op == OSel || t.op == OVar || t.op == OApp {
		if f, ok := symRange[t.name]; ok {
			return []*Term{f(t)}
		}
	}
	return nil
}

// prepare purifies divisions and adds defining axioms. Must hold termMu.
func prepare(q Query) *prepared {
	pr := &prepared{}
	ts := append([]*Term{}, q.facts...)
	ts = append(ts, Not(q.goal))
	done := map[*Term]bool{}
	unfolded := 0
	// axioms to fixpoint
	for round := 0; round < 4; round++ {
		var add []*Term
		collect(ts, func(t *Term) {
			if done[t] {
				return
			}
			done[t] = true
			if len(boundVars(t)) > 0 {
				if t.op == OApp && t.name == "imod" && !done[imodAxiom] {
					done[imodAxiom] = true
					add = append(add, imodAxiom)
				}
				return
			}
			add = append(add, axiomsFor(t)...)
			add = append(add, allSerialFacts(t)...)
			if fs, ok := symFacts[t]; ok {
				add = append(add, fs...)
			}
			if t.op == OApp && round < 3 && unfolded < 200 {
				if d := recUnfold(t); d != nil {
					unfolded++
					add = append(add, d)
				}
			}
		})
		if len(add) == 0 {
			break
		}
		ts = append(ts, add...)
	}
	// purify ground divisions
	sub := map[*Term]*Term{}
	var defs []*Term
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		na := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = rec(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, na)
		}
		if r.op == ODiv && len(boundVars(r)) == 0 {
			v, ok := divCache[r]
			if !ok {
				v = Var(fmt.Sprintf("quot!%d", r.id), SReal)
				divCache[r] = v
			}
			if _, ok := sub[v]; !ok {
				sub[v] = r
				defs = append(defs, Implies(Ne(r.args[1], RealC(0)), Eq(Mul(v, r.args[1]), r.args[0])))
			}
			r = v
		}
		memo[t] = r
		return r
	}
	for i, t := range ts {
		ts[i] = rec(t)
	}
	ts = append(ts, defs...)
	n := len(q.facts)
	pr.neg = ts[n]
	for i, t := range ts {
		if i != n && t != tTrue {
			pr.facts = append(pr.facts, t)
		}
	}
	collect(append(append([]*Term{}, pr.facts...), pr.neg), func(t *Term) {
		switch t.op {
		case OForall, OExists:
			pr.quant = true
		case OMul:
			n := 0
			for _, a := range t.args {
				if a.op != OConst {
					n++
				}
			}
			if n > 1 {
				pr.nonlin = true
			}
		case ODiv:
			pr.nonlin = true
		case OIDiv, OIMod, OFloor:
			pr.intOps = true
		}
	})
	return pr
}

// ackermannize replaces ground applications by fresh variables with congruence.
func ackermannize(fs []*Term) []*Term {
	byFn := map[string][]*Term{}
	repl := map[*Term]*Term{}
	memo := map[*Term]*Term{}
	var out []*Term
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		na := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = rec(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, na)
		}
		if (r.op == OSel || r.op == OApp) && len(r.args) > 0 {
			v, ok := repl[r]
			if !ok {
				v = Var(fmt.Sprintf("ack!%d", r.id), r.sort)
				repl[r] = v
				key := fmt.Sprintf("%d:%s", r.op, r.name)
				for _, o := range byFn[key] {
					var eqs []*Term
					for i := range r.args {
						eqs = append(eqs, Eq(o.args[i], r.args[i]))
					}
					c := Implies(And(eqs...), Eq(repl[o], v))
					if c != tTrue {
						out = append(out, c)
					}
				}
				byFn[key] = append(byFn[key], r)
			}
			r = v
		}
		memo[t] = r
		return r
	}
	var res []*Term
	for _, f := range fs {
		res = append(res, rec(f))
	}
	return append(res, out...)
}

// slice keeps the facts connected to the goal through shared symbols.
func sliceFacts(facts []*Term, goal *Term, depth int) []*Term {
	reach := map[*Term]bool{}
	for s := range Syms(goal) {
		reach[s] = true
	}
	in := make([]bool, len(facts))
	for d := 0; depth < 0 || d < depth; d++ {
		ch := false
		var newSyms []*Term
		for i, f := range facts {
			if in[i] {
				continue
			}
			hit := false
			for s := range Syms(f) {
				if reach[s] {
					hit = true
					break
				}
			}
			if hit {
				in[i] = true
				ch = true
				for s := range Syms(f) {
					newSyms = append(newSyms, s)
				}
			}
		}
		for _, s := range newSyms {
			reach[s] = true
		}
		if !ch {
			break
		}
	}
	var out []*Term
	for i, f := range facts {
		if in[i] {
			out = append(out, f)
		}
	}
	return out
}

// sliceSub keeps only the facts all of whose symbols occur in the goal cone at depth 1
func sliceNarrow(facts []*Term, goal *Term) []*Term {
	gs := Syms(goal)
	var out []*Term
	for _, f := range facts {
		ok := true
		for s := range Syms(f) {
			if !gs[s] {
				ok = false
				break
			}
		}
		if ok {
			out = append(out, f)
		}
	}
	return out
}

func emit(fs []*Term, logic string, asReal bool, model bool) string {
	var sb strings.Builder
	if model {
		sb.WriteString("(set-option :produce-models true)\n")
	}
	if logic != "" {
		sb.WriteString("(set-logic " + logic + ")\n")
	}
	inftyUsed := false
	declared := map[string]bool{}
	var decls []string
	refs := map[*Term]int{}
	var order []*Term
	seen := map[*Term]bool{}
	so := func(s Sort) string {
		if asReal && s == SInt {
			return "Real"
		}
		return s.String()
	}
	var rec func(t *Term)
	rec = func(t *Term) {
		refs[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			rec(a)
		}
		order = append(order, t)
		switch t.op {
		case OConst:
			if t.rat.Cmp(maxFloatRat) == 0 || t.rat.Cmp(negMaxFloatRat) == 0 {
				inftyUsed = true
			}
		case OVar:
			if !declared[t.name] {
				declared[t.name] = true
				decls = append(decls, fmt.Sprintf("(declare-fun %s () %s)", smtSym(t.name), so(t.sort)))
			}
		case OSel, OApp:
			if !declared[t.name] {
				declared[t.name] = true
				var as []string
				for _, a := range t.args {
					as = append(as, so(a.sort))
				}
				decls = append(decls, fmt.Sprintf("(declare-fun %s (%s) %s)", smtSym(t.name), strings.Join(as, " "), so(t.sort)))
			}
		}
	}
	for _, f := range fs {
		rec(f)
	}
	sort.Strings(decls)
	if inftyUsed {
		sb.WriteString("(declare-fun INFTY () Real)\n(assert (> INFTY 1000000000000000000000000000000.0))\n")
	}
	for _, d := range decls {
		sb.WriteString(d + "\n")
	}
	p := &printer{names: map[*Term]string{}, asReal: asReal}
	for _, t := range order {
		if refs[t] > 1 && len(t.args) > 0 && len(boundVars(t)) == 0 {
			s := p.node(t)
			n := fmt.Sprintf("$s%d", t.id)
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, so(t.sort), s)
			p.names[t] = n
		}
	}
	for _, f := range fs {
		sb.WriteString("(assert " + p.str(f) + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if model {
		sb.WriteString("(get-model)\n")
	}
	return sb.String()
}

// ---- running solvers

type SolverStat struct {
	Calls int
	Won   int
	Time  float64
}

var (
	statMu     sync.Mutex
	solverStat = map[string]*SolverStat{}
	procSem    = make(chan struct{}, 10)
)

type attempt struct {
	kind    string
	weak    bool // a weakened problem: its models mean nothing
	backend string
	args    []string
	text    string
}

func backendCmd(b string, tsec float64) (string, []string) {
	ms := int(tsec * 1000)
	switch b {
	case "z3-new":
		return "z3-new", []string{"-in", "-smt2", fmt.Sprintf("-t:%d", ms), "-memory:2500"}
	case "z3":
		return "z3", []string{"-in", "-smt2", fmt.Sprintf("-t:%d", ms), "-memory:2500"}
	case "cvc5":
		return "cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-"}
	case "cvc5-cov":
		return "cvc5", []string{"--lang=smt2", "--nl-cov", fmt.Sprintf("--tlimit=%d", ms), "-"}
	}
	panic("backend " + b)
}

func runOne(ctx context.Context, b, text string, tsec float64) string {
	name, args := backendCmd(b, tsec)
	select {
	case procSem <- struct{}{}:
	case <-ctx.Done():
		return "unknown"
	}
	defer func() { <-procSem }()
	if ctx.Err() != nil {
		return "unknown"
	}
	c, cancel := context.WithTimeout(ctx, time.Duration((tsec+2)*float64(time.Second)))
	defer cancel()
	cmd := exec.CommandContext(c, name, args...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	el := time.Since(t0).Seconds()
	statMu.Lock()
	st := solverStat[b]
	if st == nil {
		st = &SolverStat{}
		solverStat[b] = st
	}
	st.Calls++
	st.Time += el
	statMu.Unlock()
	return out.String()
}

type SolveResult struct {
	Kind    string
	Status  string // unsat, sat, unknown
	Backend string
	Model   string
	Detail  string
	Time    float64
}

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// race runs attempts in parallel; the first unsat wins; sat from a complete
// attempt (full facts) is remembered.
func race(as []attempt, tsec float64) SolveResult {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type rr struct {
		a   attempt
		out string
	}
	t0 := time.Now()
	ch := make(chan rr, len(as))
	for _, a := range as {
		go func(a attempt) {
			ch <- rr{a, runOne(ctx, a.backend, a.text, tsec)}
		}(a)
	}
	res := SolveResult{Status: "unknown"}
	for range as {
		r := <-ch
		fl := firstLine(r.out)
		if os.Getenv("GOVC_DEBUG") == "all" {
			fmt.Fprintln(os.Stderr, "ATTEMPT", r.a.backend, r.a.kind, r.a.weak, len(r.a.text), fl, time.Since(t0).Seconds())
			os.WriteFile("/tmp/att_"+r.a.backend+"_"+r.a.kind+".smt2", []byte(r.a.text), 0o644)
		}
		switch fl {
		case "unsat":
			statMu.Lock()
			solverStat[r.a.backend].Won++
			statMu.Unlock()
			return SolveResult{Status: "unsat", Backend: r.a.backend, Kind: r.a.kind, Time: time.Since(t0).Seconds()}
		case "sat":
			if res.Status != "sat" && !r.a.weak {
				res = SolveResult{Status: "sat", Backend: r.a.backend, Model: r.out}
			}
		default:
			if res.Detail == "" {
				res.Detail = r.a.backend + ": " + fl
			}
			if strings.Contains(fl, "error") && os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "SOLVER ERROR", r.a.backend, fl)
				os.WriteFile("/tmp/govc_err.smt2", []byte(r.a.text), 0o644)
			}
		}
	}
	res.Time = time.Since(t0).Seconds()
	return res
}

// Prove tries to discharge facts => goal: the goal is split into sequents, all of which must be proved.
func Prove(q Query, tsec float64) SolveResult {
	if q.goal == tTrue {
		return SolveResult{Status: "unsat", Backend: "simplifier"}
	}
	termMu.Lock()
	facts := addFact(nil, And(q.facts...))
	n := 0
	qs := sequents(facts, q.goal, &n)
	termMu.Unlock()
	total := SolveResult{Status: "unsat", Backend: "simplifier"}
	for _, s := range qs {
		r := proveOne(s, tsec)
		total.Time += r.Time
		if r.Status != "unsat" {
			r.Time = total.Time
			return r
		}
		if r.Backend != "simplifier" {
			total.Kind += r.Kind + " "
			total.Backend = r.Backend
		}
	}
	return total
}

func proveOne(q Query, tsec float64) SolveResult {
	termMu.Lock()
	facts, goal := constSubst(q.facts, q.goal)
	facts, goal = resolveIte(facts, goal)
	q.goal = goal
	if goal == tTrue {
		termMu.Unlock()
		return SolveResult{Status: "unsat", Backend: "simplifier"}
	}
	ng := Not(goal)
	for _, f := range facts {
		if f == q.goal || f == tFalse {
			termMu.Unlock()
			return SolveResult{Status: "unsat", Backend: "simplifier"}
		}
	}
	_ = ng
	if ringEqual(facts, q.goal) {
		termMu.Unlock()
		return SolveResult{Status: "unsat", Backend: "ring-normalizer"}
	}
	full := prepare(Query{facts, q.goal})
	sl := sliceFacts(full.facts, full.neg, -1)
	nar := sliceFacts(full.facts, full.neg, 1)
	weak := func(a attempt) attempt { a.weak = true; return a }
	build := func(p *prepared, fs []*Term, mode string, model bool) attempt {
		all := append(append([]*Term{}, fs...), p.neg)
		switch mode {
		case "nra":
			return attempt{backend: "z3-new", kind: "nra", text: emit(ackermannize(all), "QF_NRA", true, model)}
		case "nra-cvc5":
			return attempt{backend: "cvc5-cov", text: emit(ackermannize(all), "QF_NRA", true, false)}
		case "nra-z3":
			return attempt{backend: "z3", text: emit(ackermannize(all), "QF_NRA", true, false)}
		}
		b := strings.TrimPrefix(mode, "uf-")
		lg := ""
		if b == "cvc5" {
			lg = "ALL"
		}
		return attempt{backend: b, kind: mode, text: emit(all, lg, false, model)}
	}
	var first, second []attempt
	if !full.quant {
		if um, any := uninterpretedMul(append(append([]*Term{}, sl...), full.neg)); any {
			first = append(first, attempt{backend: "z3-new", kind: "umul", text: emit(um, "", false, false), weak: true})
		}
		if full.nonlin && !full.intOps {
			first = append(first, build(full, sl, "nra", true))
			if ab, any := abstractApps(append(append([]*Term{}, full.facts...), full.neg)); any {
				af, an := ab[:len(ab)-1], ab[len(ab)-1]
				af = sliceFacts(af, an, -1)
				first = append(first, attempt{backend: "z3-new", text: emit(ackermannize(append(append([]*Term{}, af...), an)), "QF_NRA", true, false), weak: true})
				first = append(first, attempt{backend: "z3-new", kind: "smt", text: strings.Replace(emit(ackermannize(append(append([]*Term{}, af...), an)), "", true, false), "(check-sat)", "(check-sat-using smt)", 1), weak: true})
			}
			if len(nar) < len(sl) {
				first = append(first, weak(build(full, nar, "nra", false)))
			}
			first = append(first, attempt{backend: "z3-new", kind: "smt", text: strings.Replace(emit(ackermannize(append(append([]*Term{}, sl...), full.neg)), "", true, false), "(check-sat)", "(check-sat-using smt)", 1), weak: true})
			second = append(second, build(full, sl, "nra-z3", false), build(full, sl, "uf-cvc5", false), build(full, sl, "uf-z3-new", true))
			if len(nar) < len(sl) {
				second = append(second, weak(build(full, nar, "uf-cvc5", false)))
			}
		} else {
			first = append(first, build(full, sl, "uf-z3-new", true))
			if full.nonlin {
				first = append(first, build(full, sl, "uf-z3", false))
			}
			second = append(second, build(full, sl, "uf-cvc5", false), build(full, sl, "uf-z3", false))
			if full.nonlin {
				second = append(second, weak(build(full, nar, "uf-cvc5", false)))
			}
		}
	} else {
		first = append(first, build(full, sl, "uf-z3-new", false), build(full, sl, "uf-cvc5", false))
		second = append(second, build(full, sl, "uf-z3", false))
		if len(nar) < len(sl) {
			first = append(first, weak(build(full, nar, "uf-z3-new", false)))
		}
		var plain []*Term
		for _, f := range append(append([]*Term{}, full.facts...), full.neg) {
			if !hasQuant(f) {
				plain = append(plain, f)
			}
		}
		if len(plain) > 0 {
			um, any := uninterpretedMul(plain)
			if !any {
				um = plain
			}
			first = append(first, attempt{backend: "z3-new", kind: "plain", text: emit(um, "", false, false), weak: true})
		}
		if um, any := uninterpretedMul(append(append([]*Term{}, sl...), full.neg)); any {
			first = append(first, attempt{backend: "z3-new", kind: "umulq", text: emit(um, "", false, false), weak: true})
		}
		// instantiating by hand is slow and holds the lock: only when the solvers' own does not do at once
		termMu.Unlock()
		if r := race(first, math.Min(1, tsec/4)); r.Status == "unsat" {
			return r
		}
		termMu.Lock()
		for _, rp := range [][2]int{{1, 4}, {3, 8}} {
			g := groundInst(facts, q.goal, rp[0], rp[1])
			if g == nil {
				break
			}
			gf := prepare(Query{g, tFalse})
			if gf.quant {
				continue
			}
			if um, any := uninterpretedMul(gf.facts); any {
				first = append(first, attempt{backend: "z3-new", kind: "umul", text: emit(um, "", false, false), weak: true})
				if rp[0] == 1 && !gf.intOps {
					first = append(first, weak(build(gf, gf.facts, "nra", false)))
					first = append(first, attempt{backend: "z3-new", kind: "smt", text: strings.Replace(emit(ackermannize(append([]*Term{}, gf.facts...)), "", true, false), "(check-sat)", "(check-sat-using smt)", 1), weak: true})
				}
			} else {
				first = append(first, attempt{backend: "z3-new", kind: "inst", text: emit(gf.facts, "", false, false), weak: true})
			}
		}
	}
	if len(sl) < len(full.facts) && !full.quant {
		mode := "uf-z3-new"
		if full.nonlin && !full.intOps {
			mode = "nra"
		}
		first = append(first, build(full, full.facts, mode, true))
	}
	termMu.Unlock()
	t0 := time.Now()
	short := tsec / 4
	if short > 4 {
		short = 4
	}
	r := race(first, short)
	if r.Status == "unsat" {
		return r
	}
	if r.Status == "sat" && len(sl) == len(full.facts) && !full.quant {
		// the relaxed/real problem has a model: other back ends may still refute (ints), try once
		if !full.nonlin || full.intOps {
			return r
		}
	}
	if full.quant {
		termMu.Lock()
		if g := groundInst(facts, q.goal, 2, 12); g != nil {
			if gf := prepare(Query{g, tFalse}); !gf.quant {
				um, any := uninterpretedMul(gf.facts)
				if !any {
					um = gf.facts
				}
				second = append(second, attempt{backend: "z3-new", kind: "inst4", text: emit(um, "", false, false), weak: true})
			}
		}
		termMu.Unlock()
	}
	r2 := race(append(append([]attempt{}, first...), second...), tsec)
	r2.Time = time.Since(t0).Seconds()
	if r2.Status == "unsat" {
		return r2
	}
	if len(sl) < len(full.facts) && !full.quant {
		termMu.Lock()
		var at []attempt
		if full.nonlin && !full.intOps {
			at = append(at, build(full, full.facts, "nra", true), build(full, full.facts, "uf-z3-new", true))
		} else {
			at = append(at, build(full, full.facts, "uf-z3-new", true))
		}
		termMu.Unlock()
		r3 := race(at, short)
		if r3.Status == "unsat" {
			return r3
		}
		if r3.Status == "sat" {
			return r3
		}
	}
	if r.Status == "sat" && r2.Status != "sat" {
		r2 = r
	}
	return r2
}

// Sat checks satisfiability (vacuity / feasibility); returns "unsat" only when proved.
func CheckSat(facts []*Term, tsec float64) SolveResult {
	termMu.Lock()
	flat := And(facts...)
	if flat == tFalse {
		termMu.Unlock()
		return SolveResult{Status: "unsat", Backend: "simplifier"}
	}
	if flat.op == OAnd {
		facts = flat.args
	} else {
		facts = []*Term{flat}
	}
	p := prepare(Query{facts, tFalse})
	var at []attempt
	if !p.quant && p.nonlin && !p.intOps {
		at = append(at, attempt{backend: "z3-new", text: emit(ackermannize(p.facts), "QF_NRA", true, true)})
	} else {
		at = append(at, attempt{backend: "z3-new", text: emit(p.facts, "", false, !p.quant)})
	}
	termMu.Unlock()
	return race(at, tsec)
}

// hasQuant: a quantifier occurs in t.
func hasQuant(t *Term) bool {
	seen := map[*Term]bool{}
	var walk func(*Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OForall || t.op == OExists {
			return true
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}
