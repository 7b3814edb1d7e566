package main

// Per-function verification: VC generation and discharge.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

func sortStrings(s []string) { sort.Strings(s) }

type FuncResult struct {
	Key      string
	C        *Contract
	Obls     []*Obligation
	Used     []string
	Inlined  []string
	Assumed  []string
	Err      string // untranslatable
	Missing  bool
	PreFacts []*Term
	Exits    [][]*Term
	Vacuous  string
	Paths    int
	GenTime  float64
	Inputs   []sval
	InNames  []string
}

// Generate produces the obligations of one function under contract.
func Generate(p *Prog, specs *Specs, c *Contract) (fres *FuncResult) {
	fres = &FuncResult{Key: c.Key, C: c}
	t0 := time.Now()
	defer func() { fres.GenTime = time.Since(t0).Seconds() }()
	decl := p.funcs[c.Key]
	if decl == nil || decl.Body == nil {
		fres.Missing = true
		return
	}
	fn := p.info.Defs[decl.Name].(*types.Func)
	sig := fn.Type().(*types.Signature)
	ex := &Exec{p: p, specs: specs, contract: c, counter: map[string]int{}, oblSeen: map[string]bool{}, used: map[string]bool{}, inlined: map[string]bool{},
		assumed: map[string]bool{}, closures: map[string]*Closure{}, ghost: map[string]bool{}, varTypes: map[varKey]types.Type{}, ctx: c.Key + ":"}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupp); ok {
				fres.Err = u.Error()
			} else if se, ok := r.(specErr); ok {
				fres.Err = "specification: " + se.msg
			} else {
				panic(r)
			}
		}
		fres.Obls = ex.obls
		fres.Used = keysOf(ex.used)
		fres.Inlined = keysOf(ex.inlined)
		fres.Assumed = keysOf(ex.assumed)
	}()
	nparams := sig.Params().Len()
	if sig.Recv() != nil {
		nparams++
	}
	if len(c.Params) != nparams {
		fres.Err = fmt.Sprintf("signature changed: contract names %d parameters, function has %d", len(c.Params), nparams)
		return
	}
	st := &State{lits: map[*Term]bool{}, consts: map[*Term]*Term{}, vars: map[varKey]Val{}, heap: map[string]*Term{}}
	next0 := Var("next0", SInt)
	ex.next0 = next0
	st.next = next0
	st.assume(Lt(IntC(0), next0), false)
	ex.serial = 1
	ex.frameSeq = 1
	fr := &Frame{id: 1, name: c.Key, sig: sig, contr: c, loops: numberLoopsDeep(p, specs, decl.Body, map[string]bool{c.Key: true})}
	fr.results = ex.hiddenResults(sig)
	fr.specFrame = fr
	ex.frames = []*Frame{fr}
	env := &specEnv{ex: ex, names: map[string]sval{}}
	i := 0
	bind := func(v *types.Var, recv bool) {
		t := v.Type()
		var val Val
		for _, l := range p.layout(t) {
			x := Var("p."+c.Params[i]+l.path, l.sort)
			x.serial = 1
			symSerial[x.name] = 1
			st.assume(ex.leafRange(x, l, next0), false)
			val = append(val, x)
		}
		ex.wellFormed(st, val, t)
		if recv && !c.NilRecv {
			if _, ok := t.Underlying().(*types.Pointer); ok {
				st.assume(Ne(val[0], IntC(0)), false)
			}
		}
		env.names[c.Params[i]] = sval{val, t}
		fres.Inputs = append(fres.Inputs, sval{val, t})
		fres.InNames = append(fres.InNames, c.Params[i])
		ex.declare(st, v, val)
		i++
	}
	if r := sig.Recv(); r != nil {
		bind(r, true)
	}
	for j := 0; j < sig.Params().Len(); j++ {
		bind(sig.Params().At(j), false)
	}
	env.st = st
	env.old = st
	for _, g := range ex.ghostsOf(c) {
		if g.Obj && g.Sort == SBool {
			st.assume(g.notYet(ex, ex.heapMap(st, ex.ghostReg(g), nil), next0), false)
		}
	}
	for _, r := range c.Assumes {
		ex.assumed[c.Key+": at entry, not demanded of callers: "+r.Text] = true
	}
	for _, r := range c.AssumesExit {
		ex.assumed[c.Key+": at exit: "+r.Text] = true
	}
	for k, r := range append(append([]*Clause{}, c.Requires...), c.Assumes...) {
		var g *Term
		if err := ex.withSpec(func() { g = env.evalBool(r.Expr) }); err != "" {
			fres.Err = fmt.Sprintf("requires %d: %s", k, err)
			return
		}
		st.assume(g, false)
	}
	old := st.clone()
	fr.old = old
	env.old = old
	ex.oldState = old
	fres.PreFacts = st.facts()
	if c.Dec != nil {
		if err := ex.withSpec(func() { ex.dec0 = env.evalNum(c.Dec.Expr) }); err != "" {
			fres.Err = "decreases: " + err
			return
		}
	}
	// stand-alone lemmas over the contract's vocabulary (no code)
	for _, lm := range c.Lemmas {
		var g *Term
		if err := ex.withSpec(func() { g = env.evalBool(lm.Expr) }); err != "" {
			fres.Err = "lemma " + lm.Name + ": " + err
			return
		}
		ex.assertOb(st, "lemma", lm.Name, clauseProps(lm, c.Props), g, lm, decl.Pos())
		st.assume(g, false)
	}
	if c.Trusted {
		ex.assumed["contract of "+c.Key+" is trusted"] = true
		return
	}
	ends := ex.explore(st, func(s *State) {
		f2 := *fr
		f2.specFrame = &f2
		ex.frames = []*Frame{&f2}
		ret := ex.runBody(s, &f2, decl.Body)
		ex.frames = []*Frame{&f2}
		e2 := *env
		e2.names = map[string]sval{}
		for k, v := range env.names {
			e2.names[k] = v
		}
		e2.st = s
		var rs []sval
		off := 0
		for j := 0; j < sig.Results().Len(); j++ {
			t := sig.Results().At(j).Type()
			n := len(p.layout(t))
			rs = append(rs, sval{ret[off : off+n], t})
			off += n
		}
		e2.bindResults(rs)
		for _, cl := range c.AssumesExit {
			if err := ex.withSpec(func() { s.assume(e2.evalBool(cl.Expr), false) }); err != "" {
				ex.assertOb(s, "ensures", "assumes exit ["+err+"]", c.Props, tFalse, cl, decl.Pos())
			}
		}
		var once []*Clause
		for _, cl := range c.Post {
			var g *Term
			if cl.Kind == "use" && cl.Once {
				once = append(once, cl)
				continue
			}
			props := clauseProps(cl, c.Props)
			if cl.Kind == "set" {
				if err := ex.withSpec(func() { e2.ghostSet(cl) }); err != "" {
					ex.assertOb(s, "ensures", "set ["+err+"]", props, tFalse, cl, decl.Pos())
				}
				continue
			}
			if cl.Kind == "use" {
				if err := ex.useTheorem(s, &e2, cl); err != "" {
					ex.assertOb(s, "ensures", "use ["+err+"]", props, tFalse, cl, decl.Pos())
				}
				continue
			}
			if err := ex.withSpec(func() { g = e2.evalBool(cl.Expr) }); err != "" {
				ex.assertOb(s, "ensures", cl.Name+" ["+err+"]", props, tFalse, cl, decl.Pos())
				continue
			}
			at := s
			if len(once) > 0 {
				at = s.clone()
				for _, u := range once {
					if err := ex.useTheorem(at, &e2, u); err != "" {
						ex.assertOb(s, "ensures", "use ["+err+"]", props, tFalse, u, decl.Pos())
					}
				}
				once = nil
			}
			for k, part := range topConj(g) {
				nm := cl.Name
				if k > 0 {
					nm = fmt.Sprintf("%s.%d", cl.Name, k)
				}
				ex.assertOb(at, "ensures", nm, props, part, cl, decl.Pos())
			}
			if strings.HasPrefix(cl.Name, "step") {
				s.assume(g, false)
			}
		}
		if c.NoAlloc {
			ex.assertOb(s, "frame", "no allocation", c.Props, Eq(s.next, ex.oldState.next), nil, decl.Pos())
		}
		ex.frameCheck(s, &e2, c, decl)
		ex.frames = nil
	})
	ex.frames = nil
	for _, e := range ends {
		fres.Exits = append(fres.Exits, e.facts())
	}
	fres.Paths = len(ends)
	return
}

// ghostsOf lists the ghost maps the contract mentions, directly or through spec functions.
func (ex *Exec) ghostsOf(c *Contract) []*GhostMap {
	seen := map[string]bool{}
	var out []*GhostMap
	var scan func(e ast.Node)
	scan = func(e ast.Node) {
		ast.Inspect(e, func(n ast.Node) bool {
			if se, ok := n.(*ast.SelectorExpr); ok {
				scan(se.X) // a field may share its name with a ghost map
				return false
			}
			if id, ok := n.(*ast.Ident); ok && !seen[id.Name] {
				seen[id.Name] = true
				if g := ex.specs.Ghosts[id.Name]; g != nil {
					out = append(out, g)
				}
				if m := ex.specs.Macros[id.Name]; m != nil && m.Expr != nil {
					scan(m.Expr)
				}
			}
			return true
		})
	}
	for _, cls := range [][]*Clause{c.Requires, c.Assumes, c.AssumesExit, c.Post, c.Lemmas} {
		for _, cl := range cls {
			if cl.Expr != nil {
				scan(cl.Expr)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

// useTheorem assumes instances of theorems at st; each theorem is proved on its own, with no facts.
func (ex *Exec) useTheorem(st *State, env *specEnv, cl *Clause) (fail string) {
	var names []string
	var walk func(e ast.Expr) bool
	walk = func(e ast.Expr) bool {
		switch e := ast.Unparen(e).(type) {
		case *ast.BinaryExpr:
			return e.Op == token.LAND && walk(e.X) && walk(e.Y)
		case *ast.CallExpr:
			id, ok := e.Fun.(*ast.Ident)
			if !ok {
				return false
			}
			switch id.Name {
			case "forallT", "forall", "let", "imp", "old":
				return walk(e.Args[len(e.Args)-1])
			}
			m := ex.specs.Macros[id.Name]
			if m != nil && m.Theorem {
				names = append(names, id.Name)
				return true
			}
		}
		return false
	}
	if !walk(cl.Expr) {
		return "only applications of theorems can be used: " + cl.Text
	}
	for _, n := range names {
		if err := ex.theorem(ex.specs.Macros[n]); err != "" {
			return err
		}
	}
	var g *Term
	if err := ex.withSpec(func() { g = env.evalBool(cl.Expr) }); err != "" {
		return err
	}
	st.assume(g, false)
	return ""
}

// theorem states the proof obligation of m.
func (ex *Exec) theorem(m *Macro) string {
	if ex.theorems == nil {
		ex.theorems = map[string]bool{}
	}
	if ex.theorems[m.Name] {
		return ""
	}
	ex.theorems[m.Name] = true
	st := &State{lits: map[*Term]bool{}, consts: map[*Term]*Term{}, vars: map[varKey]Val{}, heap: map[string]*Term{}}
	st.next = ex.next0
	env := &specEnv{ex: ex, names: map[string]sval{}, st: st, old: st}
	var g *Term
	err := ex.withSpec(func() {
		var args []sval
		for i, p := range m.Params {
			te, e := parseSpecExpr(m.PTypes[i])
			if e != nil {
				sfail("theorem %s: %v", m.Name, e)
			}
			t := env.typeExpr(te)
			var v Val
			for _, l := range ex.p.layout(t) {
				v = append(v, Var("thm."+m.Name+"."+p+l.path, l.sort))
			}
			args = append(args, sval{v, t})
		}
		g = env.macro(m, args).v[0]
		if m.By == nil {
			return
		}
		// strong induction on the measure
		at := func(a []sval) specEnv {
			n := *env
			n.names = map[string]sval{}
			for i, p := range m.Params {
				n.names[p] = a[i]
			}
			return n
		}
		n := at(args)
		top := n.eval(m.By).v[0]
		for _, inst := range m.With {
			var ia []sval
			for _, x := range inst {
				ia = append(ia, n.eval(x))
			}
			k := at(ia)
			low := k.eval(m.By).v[0]
			st.assume(Implies(And(Le(IntC(0), low), Lt(low, top)), env.macro(m, ia).v[0]), false)
		}
	})
	if err != "" {
		return err
	}
	for k, part := range topConj(g) {
		ex.assertOb(st, "theorem", fmt.Sprintf("%s.%d", m.Name, k), ex.contract.Props, part, nil, token.NoPos)
	}
	return ""
}

func topConj(g *Term) []*Term {
	if g.op == OAnd {
		return g.args
	}
	return []*Term{g}
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// frameCheck: everything not listed in modifies and not freshly allocated is unchanged.
func (ex *Exec) frameCheck(st *State, env *specEnv, c *Contract, decl *ast.FuncDecl) {
	if c.ModAll {
		return
	}
	old := ex.oldState
	if st.epoch != old.epoch {
		ex.assertOb(st, "frame", "modifies: unknown code may change anything", c.Props, tFalse, nil, decl.Pos())
		return
	}
	var mods []modTarget
	for _, m := range c.Modifies {
		e := env.with(old)
		if err := ex.withSpec(func() { mods = append(mods, e.modTargets(m)...) }); err != "" {
			ex.assertOb(st, "frame", "modifies ["+err+"]", c.Props, tFalse, nil, decl.Pos())
			return
		}
	}
	var names []string
	for n := range st.heap {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		init := ex.heapMap(old, n, nil)
		fin := st.heap[n]
		if fin == init || init == nil {
			continue
		}
		allowed := func(keys []*Term) *Term {
			a := tFalse
			if !strings.HasPrefix(n, "ghost.") {
				a = Or(Le(ex.next0, keys[0]), Eq(keys[0], IntC(0))) // nil is no object
			} else if g := ex.specs.Ghosts[n[len("ghost."):]]; g == nil || !g.Obj {
				a = Le(ex.next0, keys[0])
			}
			if _, ok := allocSerial[keys[0]]; ok {
				return tTrue
			}
			for _, m := range mods {
				if m.name != n {
					continue
				}
				if m.keys == nil {
					a = Or(a, m.cond)
					continue
				}
				es := []*Term{m.cond}
				for i, k := range m.keys {
					if k != nil {
						es = append(es, Eq(k, keys[i]))
					}
				}
				a = Or(a, And(es...))
			}
			return st.simp(a)
		}
		if ex.frameSyntactic(st, fin, init, allowed) {
			continue
		}
		keys := make([]*Term, init.arity)
		for i := range keys {
			keys[i] = Var(fmt.Sprintf("sk%d", i), SInt)
			keys[i].serial = 0
		}
		g := Or(allowed(keys), Eq(Select(fin, keys, nil), Select(init, keys, nil)))
		if n == "" {
			continue
		}
		ex.assertOb(st, "frame", "unchanged "+n, c.Props, g, nil, decl.Pos())
	}
}

func (ex *Exec) frameSyntactic(st *State, m, init *Term, allowed func([]*Term) *Term) bool {
	for {
		if m == init {
			return true
		}
		switch m.op {
		case MStore:
			if allowed(m.args[1:len(m.args)-1]) != tTrue {
				return false
			}
			m = m.args[0]
		case MIte:
			return ex.frameSyntactic(st, m.args[1], init, allowed) && ex.frameSyntactic(st, m.args[2], init, allowed)
		case MCopy:
			if allowed([]*Term{m.args[1], Var("sk1", SInt)}) != tTrue {
				return false
			}
			m = m.args[0]
		default:
			return false
		}
	}
}

// numberLoopsDeep numbers loops in source order, descending into calls of functions without a contract.
func numberLoopsDeep(p *Prog, specs *Specs, b *ast.BlockStmt, seen map[string]bool) map[ast.Node]int {
	m := map[ast.Node]int{}
	var rec func(n ast.Node)
	rec = func(root ast.Node) {
		ast.Inspect(root, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ForStmt, *ast.RangeStmt:
				if _, ok := m[n]; !ok {
					m[n] = len(m)
				}
			case *ast.CallExpr:
				for _, a := range n.Args {
					rec(a)
				}
				var fn *types.Func
				switch f := ast.Unparen(n.Fun).(type) {
				case *ast.Ident:
					fn, _ = p.info.Uses[f].(*types.Func)
				case *ast.SelectorExpr:
					rec(f.X)
					fn, _ = p.info.Uses[f.Sel].(*types.Func)
				case *ast.FuncLit:
					rec(f)
				}
				if fn != nil && fn.Pkg() == p.pkg {
					k := funcKey(fn)
					c := specs.Contracts[k]
					if (c == nil) && !seen[k] {
						if d := p.fobj[fn.Origin()]; d != nil && d.Body != nil {
							seen[k] = true
							rec(d.Body)
						}
					}
				}
				return false
			}
			return true
		})
	}
	rec(b)
	return m
}

// ---- discharging

func (o *Obligation) ID() string { return o.Func + "/" + o.Kind + "/" + o.Name }

func Discharge(obls []*Obligation, tsec func(*Obligation) float64, stop func(*Obligation) bool, progress func(*Obligation)) {
	type key struct{ s string }
	var wg sync.WaitGroup
	ch := make(chan *Obligation)
	var mu sync.Mutex
	failed := map[string]int{}
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for o := range ch {
				mu.Lock()
				skip := failed[o.ID()] >= 2
				mu.Unlock()
				if skip {
					o.Result = SolveResult{Status: "skipped", Detail: "another path of the same obligation already failed"}
					continue
				}
				o.Result = Prove(Query{o.Facts, o.Goal}, tsec(o))
				if o.Result.Status != "unsat" {
					mu.Lock()
					failed[o.ID()]++
					mu.Unlock()
				}
				if progress != nil {
					mu.Lock()
					progress(o)
					mu.Unlock()
				}
			}
		}()
	}
	for _, o := range obls {
		ch <- o
	}
	close(ch)
	wg.Wait()
}

// Vacuity checks that the precondition is satisfiable and some exit is reachable.
func (r *FuncResult) CheckVacuity() {
	if r.Missing || r.Err != "" || r.C.Trusted {
		return
	}
	if s := CheckSat(r.PreFacts, 2); s.Status == "unsat" {
		r.Vacuous = "precondition is unsatisfiable"
		return
	}
	if len(r.Exits) == 0 {
		r.Vacuous = "no path returns"
		return
	}
	for i, e := range r.Exits {
		if i > 12 {
			return
		}
		if s := CheckSat(e, 1.5); s.Status != "unsat" {
			return
		}
	}
	if len(r.Exits) <= 13 {
		r.Vacuous = "no return is reachable under the precondition and the assumed contracts"
	}
}

// ---- renamed locals

func lockPath(dir string) string { return filepath.Join(dir, "locals.json") }

func (sp *Specs) LoadLock(dir string) {
	b, err := os.ReadFile(lockPath(dir))
	if err == nil {
		json.Unmarshal(b, &sp.Lock)
	}
}

func localsOf(p *Prog, key string) []LocalInfo {
	d := p.funcs[key]
	if d == nil || d.Body == nil {
		return nil
	}
	var out []LocalInfo
	ast.Inspect(d.Body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if v, ok := p.info.Defs[id].(*types.Var); ok && !v.IsField() {
				out = append(out, LocalInfo{v.Name(), types.TypeString(v.Type(), func(*types.Package) string { return "" })})
			}
		}
		return true
	})
	return out
}

func (sp *Specs) renamed(p *Prog, key, name string) string {
	oldL := sp.Lock[key]
	if oldL == nil {
		return ""
	}
	typ := ""
	oldNames := map[string]bool{}
	for _, l := range oldL {
		oldNames[l.Name] = true
		if l.Name == name {
			typ = l.Type
		}
	}
	if typ == "" {
		return ""
	}
	var gone []string // old names of that type that no longer exist, in order
	cur := localsOf(p, key)
	curNames := map[string]bool{}
	for _, l := range cur {
		curNames[l.Name] = true
	}
	for _, l := range oldL {
		if l.Type == typ && !curNames[l.Name] && !contains(gone, l.Name) {
			gone = append(gone, l.Name)
		}
	}
	var fresh []string
	for _, l := range cur {
		if l.Type == typ && !oldNames[l.Name] && !contains(fresh, l.Name) {
			fresh = append(fresh, l.Name)
		}
	}
	for i, g := range gone {
		if g == name && i < len(fresh) {
			return fresh[i]
		}
	}
	return ""
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func WriteLock(p *Prog, sp *Specs, dir string) error {
	m := map[string][]LocalInfo{}
	for k, c := range sp.Contracts {
		if len(c.Loops) > 0 {
			m[k] = localsOf(p, k)
		}
	}
	b, _ := json.MarshalIndent(m, "", " ")
	return os.WriteFile(lockPath(dir), append(b, '\n'), 0o644)
}

func short(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
