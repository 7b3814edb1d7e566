package main

// Symbolic execution of the typed AST (statements, control flow, state).

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"hash/fnv"
	"sort"
	"strings"
)

type Val []*Term

type PC struct {
	t      *Term
	branch bool
}

type varKey struct {
	frame int
	obj   types.Object
}

type State struct {
	pc     []PC
	lits   map[*Term]bool
	consts map[*Term]*Term
	vars   map[varKey]Val
	heap   map[string]*Term
	next   *Term
	epoch  string
}

func (s *State) clone() *State {
	n := &State{pc: append([]PC{}, s.pc...), lits: make(map[*Term]bool, len(s.lits)), consts: make(map[*Term]*Term, len(s.consts)),
		vars: make(map[varKey]Val, len(s.vars)), heap: make(map[string]*Term, len(s.heap)), next: s.next, epoch: s.epoch}
	for k, v := range s.lits {
		n.lits[k] = v
	}
	for k, v := range s.consts {
		n.consts[k] = v
	}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

func (s *State) facts() []*Term {
	out := make([]*Term, len(s.pc))
	for i, p := range s.pc {
		out[i] = p.t
	}
	return out
}

func (s *State) assume(t *Term, branch bool) {
	if t == tTrue {
		return
	}
	if t.op == OAnd && !branch {
		for _, a := range t.args {
			s.assume(a, false)
		}
		return
	}
	if s.lits[t] {
		return
	}
	s.pc = append(s.pc, PC{t, branch})
	s.addLit(t)
}

func (s *State) addLit(t *Term) {
	if s.lits[t] {
		return
	}
	s.lits[t] = true
	switch t.op {
	case OAnd:
		for _, a := range t.args {
			s.addLit(a)
		}
	case OEq:
		if t.args[0].isConst() {
			s.consts[t.args[1]] = t.args[0]
		} else if t.args[1].isConst() {
			s.consts[t.args[0]] = t.args[1]
		}
	}
}

// simp simplifies a boolean term by the literals of the path condition.
func (s *State) simp(t *Term) *Term {
	if s.lits[t] {
		return tTrue
	}
	if s.lits[Not(t)] {
		return tFalse
	}
	switch t.op {
	case ONot:
		return Not(s.simp(t.args[0]))
	case OAnd:
		var o []*Term
		for _, a := range t.args {
			o = append(o, s.simp(a))
		}
		return And(o...)
	case OOr:
		var o []*Term
		for _, a := range t.args {
			o = append(o, s.simp(a))
		}
		return Or(o...)
	case OEq:
		a, b := t.args[0], t.args[1]
		if c, ok := s.consts[a]; ok {
			a = c
		}
		if c, ok := s.consts[b]; ok {
			b = c
		}
		if a != t.args[0] || b != t.args[1] {
			e := Eq(a, b)
			if e == tTrue || e == tFalse {
				return e
			}
		}
	case OLt:
		if s.lits[Eq(t.args[0], t.args[1])] {
			return tFalse
		}
		// x < y is implied by not (y <= x): handled by Not; by negated equality with <=: skip
	case OLe:
		if s.lits[Lt(t.args[0], t.args[1])] || s.lits[Eq(t.args[0], t.args[1])] {
			return tTrue
		}
	case OIte:
		if t.sort == SBool {
			c := s.simp(t.args[0])
			if c == tTrue {
				return s.simp(t.args[1])
			}
			if c == tFalse {
				return s.simp(t.args[2])
			}
		}
	}
	return t
}

// simpVal resolves ites of a value by the path condition
func (s *State) simpTerm(t *Term) *Term {
	if t.op == OIte {
		c := s.simp(t.args[0])
		if c == tTrue {
			return s.simpTerm(t.args[1])
		}
		if c == tFalse {
			return s.simpTerm(t.args[2])
		}
	}
	return t
}

// ---- frames and execution context

type Frame struct {
	id        int
	name      string
	parent    *Frame // lexically enclosing (closures)
	sig       *types.Signature
	results   []types.Object
	ret       Val
	defers    []func(st *State)
	tsub      map[*types.TypeParam]types.Type
	contr     *Contract // contract whose loop clauses apply
	loops     map[ast.Node]int
	old       *State
	depth     int
	lit       *ast.FuncLit
	recvObj   types.Object
	specFrame *Frame // frame of the contract whose loop clauses apply
}

type Obligation struct {
	Func   string
	Name   string
	Props  []string
	Kind   string // ensures, requires, invariant, bounds, frame, unwinding, vacuity ...
	Facts  []*Term
	Goal   *Term
	Path   string
	Result SolveResult
	Clause *Clause
	Pos    string
	Inputs []string
}

type pathEnd struct{ why string }

type Exec struct {
	recorders   []map[string]bool
	recording   []string
	p           *Prog
	specs       *Specs
	contract    *Contract // being verified
	script      []int     // decisions
	sizes       []int
	pos         int
	ctx         string
	counter     map[string]int
	obls        []*Obligation
	oblSeen     map[string]bool
	frameSeq    int
	frames      []*Frame
	serial      int
	dry         int // >0: no obligations recorded
	writes      []map[string][][]*Term
	steps       int
	theorems    map[string]bool
	callDepth   int
	used        map[string]bool // contracts used (callees)
	inlined     map[string]bool
	assumed     map[string]bool // trusted things
	closures    map[string]*Closure
	pathNotes   []string
	deadline    int
	ghost       map[string]bool
	exitVac     bool
	vacFacts    []*Term
	dec0        *Term // value of the function's own measure at entry
	oldState    *State
	specDepth   int
	varTypes    map[varKey]types.Type
	loopEntries []*State
	next0       *Term
}

type Closure struct {
	lit   *ast.FuncLit
	frame *Frame
	fn    *types.Func
	recv  Val
	recvT types.Type
	term  *Term
}

func (ex *Exec) fresh(prefix string, s Sort) *Term {
	h := fnv.New32a()
	h.Write([]byte(ex.ctx))
	key := fmt.Sprintf("%s@%08x", prefix, h.Sum32())
	ex.counter[key]++
	ex.serial++
	n := fmt.Sprintf("%s.%d", key, ex.counter[key])
	symSerial[n] = ex.serial
	return Var(n, s)
}

func (ex *Exec) freshName(prefix string) string {
	h := fnv.New32a()
	h.Write([]byte(ex.ctx))
	key := fmt.Sprintf("%s@%08x", prefix, h.Sum32())
	ex.counter[key]++
	ex.serial++
	n := fmt.Sprintf("%s.%d", key, ex.counter[key])
	symSerial[n] = ex.serial
	return n
}

// choose makes an n-way nondeterministic decision.
func (ex *Exec) choose(n int) int {
	if ex.pos < len(ex.script) {
		d := ex.script[ex.pos]
		ex.pos++
		ex.ctx += fmt.Sprintf("%d", d)
		return d
	}
	ex.script = append(ex.script, 0)
	ex.sizes = append(ex.sizes, n)
	ex.pos++
	ex.ctx += "0"
	return 0
}

func (ex *Exec) branch(st *State, c *Term) bool {
	c = st.simp(c)
	if c == tTrue {
		return true
	}
	if c == tFalse {
		return false
	}
	if ex.choose(2) == 0 {
		st.assume(c, true)
		return true
	}
	st.assume(Not(c), true)
	return false
}

const maxPaths = 6000

// explore runs f over all decision scripts starting from st; collects end states.
func (ex *Exec) explore(st *State, f func(st *State)) []*State {
	saveScript, saveSizes, savePos, saveCtx := ex.script, ex.sizes, ex.pos, ex.ctx
	saveCounter := ex.counter
	saveSerial := ex.serial
	var ends []*State
	var script, sizes []int
	baseDepth := len(ex.frames)
	saveFS := ex.frameSeq
	maxFS := saveFS
	maxSerial := saveSerial
	for n := 0; ; n++ {
		if n > maxPaths {
			panic(unsupported("too many paths"))
		}
		ex.script, ex.sizes, ex.pos = script, sizes, 0
		ex.ctx = saveCtx + "("
		ex.counter = map[string]int{}
		ex.frameSeq = saveFS
		ex.serial = saveSerial
		s := st.clone()
		ended := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(pathEnd); ok {
						ended = true
						ex.frames = ex.frames[:baseDepth]
						return
					}
					panic(r)
				}
			}()
			f(s)
		}()
		if !ended {
			ends = append(ends, s)
		}
		if ex.frameSeq > maxFS {
			maxFS = ex.frameSeq
		}
		if ex.serial > maxSerial {
			maxSerial = ex.serial
		}
		script, sizes = ex.script, ex.sizes
		// next script
		i := len(script) - 1
		for i >= 0 && script[i]+1 >= sizes[i] {
			i--
		}
		if i < 0 {
			break
		}
		script = append([]int{}, script[:i+1]...)
		sizes = append([]int{}, sizes[:i+1]...)
		script[i]++
	}
	ex.script, ex.sizes, ex.pos = saveScript, saveSizes, savePos
	ex.ctx = saveCtx
	ex.counter = saveCounter
	ex.frameSeq = maxFS
	ex.serial = maxSerial
	return ends
}

// mergeRegion runs f over all its paths and merges the results into st.
func (ex *Exec) mergeRegion(st *State, f func(st *State)) {
	base := len(st.pc)
	ends := ex.explore(st, f)
	ex.ctx += "m" + fmt.Sprint(len(ends))
	if len(ends) == 0 {
		panic(pathEnd{"no path"})
	}
	*st = *ex.merge(ends, base)
}

func (ex *Exec) merge(ends []*State, base int) *State {
	if len(ends) == 1 {
		return ends[0]
	}
	conds := make([]*Term, len(ends))
	for i, e := range ends {
		var bs []*Term
		for _, p := range e.pc[base:] {
			if p.branch {
				bs = append(bs, p.t)
			}
		}
		conds[i] = And(bs...)
	}
	out := &State{pc: append([]PC{}, ends[0].pc[:base]...), lits: map[*Term]bool{}, consts: map[*Term]*Term{}, vars: map[varKey]Val{}, heap: map[string]*Term{}}
	for _, p := range out.pc {
		out.addLit(p.t)
	}
	out.assume(Or(conds...), false)
	// facts common to all keep unconditional
	common := map[*Term]int{}
	for _, e := range ends {
		seen := map[*Term]bool{}
		for _, p := range e.pc[base:] {
			if !p.branch && !seen[p.t] {
				seen[p.t] = true
				common[p.t]++
			}
		}
	}
	for i, e := range ends {
		for _, p := range e.pc[base:] {
			if !p.branch {
				if common[p.t] == len(ends) {
					out.assume(p.t, false)
				} else {
					out.assume(Implies(conds[i], p.t), false)
				}
			}
		}
	}
	sel := func(get func(*State) *Term) *Term {
		n := len(ends)
		t := get(ends[n-1])
		for i := n - 2; i >= 0; i-- {
			g := get(ends[i])
			if g == nil || t == nil {
				return nil
			}
			if g != t {
				t = Ite(conds[i], g, t)
			}
		}
		return t
	}
	// variables present in all
	for k, v := range ends[0].vars {
		ok := true
		for _, e := range ends[1:] {
			if w, has := e.vars[k]; !has || len(w) != len(v) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		nv := make(Val, len(v))
		for j := range v {
			nv[j] = sel(func(s *State) *Term { return s.vars[k][j] })
		}
		out.vars[k] = nv
	}
	names := map[string]bool{}
	out.epoch = ends[0].epoch
	for _, e := range ends {
		if e.epoch != ends[0].epoch {
			out.epoch = ex.freshName("E")
			for n := range mapInfos {
				names[n] = true
			}
		}
		for n := range e.heap {
			names[n] = true
		}
	}
	var ns []string
	for n := range names {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		out.heap[n] = sel(func(s *State) *Term { return ex.heapMap(s, n, nil) })
	}
	out.next = sel(func(s *State) *Term { return s.next })
	return out
}

func (ex *Exec) assertOb(st *State, kind, name string, props []string, goal *Term, cl *Clause, pos token.Pos) {
	if ex.dry > 0 || ex.specDepth > 0 {
		return
	}
	goal = st.simp(goal)
	key := fmt.Sprintf("%s|%s|%d|", kind, name, goal.id)
	facts := st.facts()
	h := fnv.New64a()
	for _, f := range facts {
		fmt.Fprintf(h, "%d,", f.id)
	}
	key += fmt.Sprint(h.Sum64())
	if ex.oblSeen[key] {
		return
	}
	ex.oblSeen[key] = true
	ps := ""
	if pos.IsValid() {
		pp := ex.p.fset.Position(pos)
		ps = fmt.Sprintf("%s:%d", pp.Filename, pp.Line)
	}
	ex.obls = append(ex.obls, &Obligation{Func: ex.contract.Key, Name: name, Kind: kind, Props: props, Facts: facts, Goal: goal, Path: ex.ctx, Clause: cl, Pos: ps})
}

// ---- statements

type ctlKind int

const (
	cNormal ctlKind = iota
	cBreak
	cContinue
	cReturn
	cFall
)

type ctl struct {
	k     ctlKind
	label string
}

func (ex *Exec) frame() *Frame { return ex.frames[len(ex.frames)-1] }

func (ex *Exec) execBlock(st *State, list []ast.Stmt) ctl {
	for _, s := range list {
		if c := ex.exec(st, s); c.k != cNormal {
			return c
		}
	}
	return ctl{}
}

func (ex *Exec) exec(st *State, s ast.Stmt) ctl {
	ex.steps++
	if ex.steps > 4000000 {
		panic(unsupported("execution too long"))
	}
	switch s := s.(type) {
	case nil:
	case *ast.BlockStmt:
		return ex.execBlock(st, s.List)
	case *ast.EmptyStmt:
	case *ast.ExprStmt:
		ex.evalMulti(st, s.X)
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		for _, sp := range gd.Specs {
			vs, ok := sp.(*ast.ValueSpec)
			if !ok {
				continue
			}
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					if o := ex.p.info.Defs[n]; o != nil {
						ex.declare(st, o, ex.zero(ex.subT(o.Type())))
					}
				}
				continue
			}
			if len(vs.Values) == 1 && len(vs.Names) > 1 {
				v := ex.evalMulti(st, vs.Values[0])
				tt := ex.typeOf(vs.Values[0]).(*types.Tuple)
				off := 0
				for i, n := range vs.Names {
					l := len(ex.p.layout(tt.At(i).Type()))
					if o := ex.p.info.Defs[n]; o != nil {
						ex.declare(st, o, v[off:off+l])
					}
					off += l
				}
				continue
			}
			for i, n := range vs.Names {
				o := ex.p.info.Defs[n]
				v := ex.eval(st, vs.Values[i])
				if o != nil {
					ex.declare(st, o, ex.convertTo(st, v, ex.typeOf(vs.Values[i]), ex.subT(o.Type())))
				}
			}
		}
	case *ast.AssignStmt:
		ex.assign(st, s)
	case *ast.IncDecStmt:
		loc := ex.lvalue(st, s.X)
		v := ex.read(st, loc)
		one := IntC(1)
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		t := ex.typeOf(s.X)
		if v[0].sort == SReal {
			one = RealC(1)
		}
		ex.write(st, loc, Val{ex.arith(st, op, v[0], one, t)})
	case *ast.IfStmt:
		if s.Init != nil {
			ex.exec(st, s.Init)
		}
		if ex.mergeIf(s) {
			ex.mergeRegion(st, func(st *State) {
				c := ex.eval(st, s.Cond)
				if ex.branch(st, c[0]) {
					ex.execBlock(st, s.Body.List)
				} else if s.Else != nil {
					ex.exec(st, s.Else)
				}
			})
			return ctl{}
		}
		c := ex.eval(st, s.Cond)
		if ex.branch(st, c[0]) {
			return ex.execBlock(st, s.Body.List)
		}
		if s.Else != nil {
			return ex.exec(st, s.Else)
		}
	case *ast.ForStmt:
		return ex.execFor(st, s, "")
	case *ast.RangeStmt:
		return ex.execRange(st, s, "")
	case *ast.LabeledStmt:
		switch b := s.Stmt.(type) {
		case *ast.ForStmt:
			return ex.execFor(st, b, s.Label.Name)
		case *ast.RangeStmt:
			return ex.execRange(st, b, s.Label.Name)
		}
		c := ex.exec(st, s.Stmt)
		if c.k == cBreak && c.label == s.Label.Name {
			return ctl{}
		}
		return c
	case *ast.BranchStmt:
		lbl := ""
		if s.Label != nil {
			lbl = s.Label.Name
		}
		switch s.Tok {
		case token.BREAK:
			return ctl{cBreak, lbl}
		case token.CONTINUE:
			return ctl{cContinue, lbl}
		case token.FALLTHROUGH:
			return ctl{cFall, ""}
		}
		panic(unsupported("goto"))
	case *ast.ReturnStmt:
		ex.execReturn(st, s)
		return ctl{k: cReturn}
	case *ast.SwitchStmt:
		return ex.execSwitch(st, s)
	case *ast.TypeSwitchStmt:
		return ex.execTypeSwitch(st, s)
	case *ast.DeferStmt:
		fr := ex.frame()
		call := s.Call
		// evaluate function and args now, run later
		args := make([]Val, len(call.Args))
		for i, a := range call.Args {
			args[i] = ex.eval(st, a)
		}
		key := varKey{fr.id, nil}
		_ = key
		if se, ok := ast.Unparen(call.Fun).(*ast.SelectorExpr); ok {
			if sel := ex.p.info.Selections[se]; sel != nil && sel.Kind() == types.MethodVal {
				recv := ex.recvFor(st, se, sel)
				fn := sel.Obj().(*types.Func)
				fr.defers = append(fr.defers, func(st *State) { ex.callFunc(st, fn, recv, args, call.Pos(), nil) })
				return ctl{}
			}
		}
		panic(unsupported("defer of non-method"))
	case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt:
		panic(unsupported("concurrency"))
	default:
		panic(unsupported(fmt.Sprintf("statement %T", s)))
	}
	return ctl{}
}

// mergeIf: an if statement without control transfer, when merging is asked for.
func (ex *Exec) mergeIf(s *ast.IfStmt) bool {
	c := ex.frame().contr
	mode := ""
	if ex.contract != nil {
		mode = ex.contract.Merge
	}
	_ = c
	if mode != "all" {
		return false
	}
	bad := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt, *ast.BranchStmt:
			bad = true
		}
		return true
	})
	return !bad
}

func (ex *Exec) execReturn(st *State, s *ast.ReturnStmt) {
	fr := ex.frame()
	res := fr.sig.Results()
	if len(s.Results) == 0 {
		return
	}
	var ret Val
	if len(s.Results) == 1 && res.Len() > 1 {
		ret = ex.evalMulti(st, s.Results[0])
	} else {
		for i, r := range s.Results {
			v := ex.evalSplit(st, r)
			ret = append(ret, ex.convertTo(st, v, ex.typeOf(r), ex.subT(res.At(i).Type()))...)
		}
	}
	// assign named/hidden result vars
	off := 0
	for i, o := range fr.results {
		l := len(ex.p.layout(ex.subT(res.At(i).Type())))
		ex.setVar(st, o, ret[off:off+l])
		off += l
	}
}

func (ex *Exec) assign(st *State, s *ast.AssignStmt) {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
			token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR}
		rv := ex.evalSplit(st, s.Rhs[0])
		loc := ex.lvalue(st, s.Lhs[0])
		lv := ex.read(st, loc)
		t := ex.typeOf(s.Lhs[0])
		if lv[0].sort == SReal {
			rv = Val{coerce(rv[0], SReal)}
		}
		ex.write(st, loc, Val{ex.arith(st, ops[s.Tok], lv[0], rv[0], t)})
		return
	}
	if len(s.Rhs) == 1 && len(s.Lhs) == 1 && s.Tok == token.ASSIGN {
		// x.buf = [N]T{} on an array kept out of line
		if cl, ok := ast.Unparen(s.Rhs[0]).(*ast.CompositeLit); ok && len(cl.Elts) == 0 {
			if at, ok := ex.typeOf(cl).Underlying().(*types.Array); ok {
				if loc := ex.lvalue(st, s.Lhs[0]); loc.outArr() {
					ex.zeroArray(st, ex.subT(at.Elem()), loc.base)
					return
				}
			}
		}
	}
	var vals []Val
	var tys []types.Type
	if len(s.Rhs) == 1 && len(s.Lhs) > 1 {
		// tuple, comma-ok
		v := ex.evalMulti(st, s.Rhs[0])
		tt, ok := ex.typeOf(s.Rhs[0]).(*types.Tuple)
		if !ok {
			panic(unsupported("tuple assign"))
		}
		off := 0
		for i := 0; i < tt.Len(); i++ {
			t := ex.subT(tt.At(i).Type())
			l := len(ex.p.layout(t))
			vals = append(vals, v[off:off+l])
			tys = append(tys, t)
			off += l
		}
	} else {
		for _, r := range s.Rhs {
			vals = append(vals, ex.evalSplit(st, r))
			tys = append(tys, ex.typeOf(r))
		}
	}
	// evaluate lvalues first (index operands), then write
	type target struct {
		loc  *Loc
		decl types.Object
		typ  types.Type
	}
	var tg []target
	for i, l := range s.Lhs {
		if id, ok := ast.Unparen(l).(*ast.Ident); ok {
			if id.Name == "_" {
				tg = append(tg, target{})
				continue
			}
			if s.Tok == token.DEFINE {
				if o := ex.p.info.Defs[id]; o != nil {
					tg = append(tg, target{nil, o, ex.subT(o.Type())})
					continue
				}
			}
		}
		loc := ex.lvalue(st, l)
		tg = append(tg, target{loc, nil, ex.typeOf(l)})
		_ = i
	}
	for i, t := range tg {
		if t.loc == nil && t.decl == nil {
			continue
		}
		v := ex.convertTo(st, vals[i], tys[i], t.typ)
		if t.decl != nil {
			ex.declare(st, t.decl, v)
		} else {
			ex.write(st, t.loc, v)
		}
	}
}

func (ex *Exec) execSwitch(st *State, s *ast.SwitchStmt) ctl {
	if s.Init != nil {
		ex.exec(st, s.Init)
	}
	var tag Val
	var tagT types.Type
	if s.Tag != nil {
		tag = ex.eval(st, s.Tag)
		tagT = ex.typeOf(s.Tag)
	}
	var def *ast.CaseClause
	clauses := s.Body.List
	run := func(i int) ctl {
		for {
			cc := clauses[i].(*ast.CaseClause)
			c := ex.execBlock(st, cc.Body)
			if c.k == cFall {
				i++
				continue
			}
			if c.k == cBreak && c.label == "" {
				return ctl{}
			}
			return c
		}
	}
	defI := -1
	for i, c := range clauses {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			defI = i
			continue
		}
		for _, e := range cc.List {
			v := ex.eval(st, e)
			var cond *Term
			if tag == nil {
				cond = v[0]
			} else {
				cond = ex.equal(st, tag, v, tagT, ex.typeOf(e))
			}
			if ex.branch(st, cond) {
				return run(i)
			}
		}
	}
	if def != nil {
		return run(defI)
	}
	return ctl{}
}

func (ex *Exec) execTypeSwitch(st *State, s *ast.TypeSwitchStmt) ctl {
	if s.Init != nil {
		ex.exec(st, s.Init)
	}
	var x ast.Expr
	switch a := s.Assign.(type) {
	case *ast.ExprStmt:
		x = ast.Unparen(a.X).(*ast.TypeAssertExpr).X
	case *ast.AssignStmt:
		x = ast.Unparen(a.Rhs[0]).(*ast.TypeAssertExpr).X
	}
	v := ex.eval(st, x)
	run := func(cc *ast.CaseClause, val Val) ctl {
		if o := ex.p.info.Implicits[cc]; o != nil {
			ex.declare(st, o, val)
		}
		c := ex.execBlock(st, cc.Body)
		if c.k == cBreak && c.label == "" {
			return ctl{}
		}
		return c
	}
	var def *ast.CaseClause
	for _, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			continue
		}
		for _, e := range cc.List {
			if id, ok := e.(*ast.Ident); ok && id.Name == "nil" {
				if ex.branch(st, Eq(v[0], IntC(0))) {
					return run(cc, v)
				}
				continue
			}
			t := ex.typeOf(e)
			if ex.branch(st, Eq(v[0], ex.p.tagOf(t))) {
				if len(cc.List) == 1 {
					return run(cc, ex.unbox(st, v, t))
				}
				return run(cc, v)
			}
		}
	}
	if def != nil {
		return run(def, v)
	}
	return ctl{}
}

// ---- loops

func (ex *Exec) loopClauses(n ast.Node) (int, *LoopSpec) {
	fr := ex.frame()
	if fr.loops == nil {
		return -1, nil
	}
	k, ok := fr.loops[n]
	if !ok || fr.contr == nil {
		return -1, nil
	}
	return k, fr.contr.Loops[k]
}

func (ex *Exec) execFor(st *State, s *ast.ForStmt, label string) ctl {
	if s.Init != nil {
		ex.exec(st, s.Init)
	}
	k, ls := ex.loopClauses(s)
	body := func(st *State) ctl { return ex.execBlock(st, s.Body.List) }
	cond := func(st *State) *Term {
		if s.Cond == nil {
			return tTrue
		}
		return ex.eval(st, s.Cond)[0]
	}
	post := func(st *State) {
		if s.Post != nil {
			ex.exec(st, s.Post)
		}
	}
	return ex.loop(st, s, k, ls, label, cond, body, post, nil)
}

func (ex *Exec) execRange(st *State, s *ast.RangeStmt, label string) ctl {
	k, ls := ex.loopClauses(s)
	xt := ex.typeOf(s.X)
	xv := ex.eval(st, s.X)
	fr := ex.frame()
	hid := types.NewVar(s.Pos(), ex.p.pkg, fmt.Sprintf("$i%d", s.Pos()), types.Typ[types.Int])
	key := varKey{fr.id, rangeIdx(s)}
	_ = hid
	st.vars[key] = Val{IntC(0)}
	var n *Term
	var elem func(st *State, i *Term) Val
	switch u := xt.Underlying().(type) {
	case *types.Slice:
		n = xv[2]
		elem = func(st *State, i *Term) Val {
			return ex.readElem(st, u.Elem(), xv[0], Add(xv[1], i))
		}
	case *types.Array:
		n = IntC(u.Len())
		elem = func(st *State, i *Term) Val { return ex.arrayGet(xv, u, i) }
	case *types.Basic:
		if u.Info()&types.IsInteger == 0 {
			panic(unsupported("range over " + xt.String()))
		}
		n = xv[0]
		elem = func(st *State, i *Term) Val { return nil }
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			_ = a
		}
		panic(unsupported("range over pointer"))
	default:
		panic(unsupported("range over " + xt.String()))
	}
	set := func(st *State, e ast.Expr, v Val) {
		if e == nil {
			return
		}
		if id, ok := e.(*ast.Ident); ok {
			if id.Name == "_" {
				return
			}
			if s.Tok == token.DEFINE {
				if o := ex.p.info.Defs[id]; o != nil {
					ex.declare(st, o, v)
					return
				}
			}
		}
		ex.write(st, ex.lvalue(st, e), v)
	}
	cond := func(st *State) *Term { return Lt(st.vars[key][0], n) }
	body := func(st *State) ctl {
		i := st.vars[key][0]
		set(st, s.Key, Val{i})
		if s.Value != nil {
			set(st, s.Value, elem(st, i))
		}
		return ex.execBlock(st, s.Body.List)
	}
	post := func(st *State) { st.vars[key] = Val{Add(st.vars[key][0], IntC(1))} }
	inv := func(st *State) *Term {
		return And(Le(IntC(0), st.vars[key][0]), Or(Le(st.vars[key][0], n), And(Le(n, IntC(0)), Eq(st.vars[key][0], IntC(0)))))
	}
	return ex.loop(st, s, k, ls, label, cond, body, post, inv)
}

var rangeObjs = map[*ast.RangeStmt]types.Object{}

func rangeIdx(s *ast.RangeStmt) types.Object {
	if o, ok := rangeObjs[s]; ok {
		return o
	}
	o := types.NewVar(s.Pos(), nil, "$i", types.Typ[types.Int])
	rangeObjs[s] = o
	return o
}

func (ex *Exec) loop(st *State, node ast.Node, k int, ls *LoopSpec, label string, cond func(*State) *Term, body func(*State) ctl, post func(*State), auto func(*State) *Term) ctl {
	matches := func(c ctl) bool { return c.label == "" || c.label == label }
	// concrete / bounded unrolling
	unroll := 0
	if ls != nil && ls.Unroll > 0 {
		unroll = ls.Unroll
	}
	hasInv := ls != nil && len(ls.Inv) > 0
	if !hasInv {
		limit := 70
		if unroll > 0 {
			limit = unroll
		}
		for it := 0; ; it++ {
			c := st.simp(cond(st))
			if c == tFalse {
				return ctl{}
			}
			if c != tTrue && unroll == 0 {
				break // symbolic: fall through to havoc from here (sound: loop resumes)
			}
			if it >= limit {
				if unroll > 0 {
					ex.assertOb(st, "unwinding", fmt.Sprintf("loop%d.unwind%d", k, unroll), ex.contract.Props, Not(c), nil, node.Pos())
					st.assume(Not(c), false)
					return ctl{}
				}
				if c == tTrue && it < 3000 && unroll == 0 && ex.concreteLoopOK() {
					goto run
				}
				break
			}
		run:
			if c != tTrue {
				if !ex.branch(st, c) {
					return ctl{}
				}
			}
			r := body(st)
			switch r.k {
			case cBreak:
				if matches(r) {
					return ctl{}
				}
				return r
			case cContinue:
				if !matches(r) {
					return r
				}
			case cReturn:
				return r
			}
			post(st)
		}
	}
	props := ex.contract.Props
	fr := ex.frame()
	if fr.specFrame != nil {
		fr = fr.specFrame
	}
	// 1. invariants hold on entry
	assertInv := func(st *State, when string) {
		if ls == nil {
			return
		}
		for i, inv := range ls.Inv {
			g, err := ex.specBool(st, fr, inv, node)
			name := inv.Name
			if name == "" {
				name = fmt.Sprintf("inv%d", i)
			}
			if err != "" {
				ex.assertOb(st, "invariant", fmt.Sprintf("loop%d.%s.%s [%s]", k, name, when, err), clauseProps(inv, props), tFalse, inv, node.Pos())
				continue
			}
			ex.assertOb(st, "invariant", fmt.Sprintf("loop%d.%s.%s", k, name, when), clauseProps(inv, props), g, inv, node.Pos())
			st.assume(g, false)
		}
	}
	loopEntry := st.clone()
	if fr.contr != nil || true {
		ex.loopEntries = append(ex.loopEntries, loopEntry)
		defer func() { ex.loopEntries = ex.loopEntries[:len(ex.loopEntries)-1] }()
	}
	assertInv(st, "init")
	// 2. havoc what the body may modify
	hv := ex.findModified(st, cond, body, post, ls, fr, node)
	ex.havocLoop(st, hv)
	// 3. assume invariants
	if auto != nil {
		st.assume(auto(st), false)
	}
	if ls != nil {
		for _, inv := range ls.Inv {
			g, err := ex.specBool(st, fr, inv, node)
			if err == "" {
				st.assume(g, false)
			}
		}
		for _, gh := range ls.Assume {
			g, err := ex.specBool(st, fr, gh, node)
			if err == "" {
				st.assume(g, false)
			}
		}
	}
	var dec0 *Term
	if ls != nil && ls.Dec != nil {
		v, _, err := ex.specTerm(st, fr, ls.Dec, node)
		if err == "" {
			dec0 = v[0]
		}
	}
	c := cond(st)
	if !ex.branch(st, c) {
		return ctl{}
	}
	r := body(st)
	switch r.k {
	case cBreak:
		if matches(r) {
			return ctl{}
		}
		return r
	case cContinue:
		if !matches(r) {
			return r
		}
	case cReturn:
		return r
	}
	post(st)
	if ls != nil {
		for _, g := range ls.Ghost {
			ex.ghostAssign(st, fr, g, node)
		}
	}
	if ls != nil {
		// chained facts about the state after one iteration
		for _, cl := range ls.Steps {
			if cl.Kind == "use" {
				env := ex.frameEnv(st, fr, node)
				if err := ex.useTheorem(st, env, cl); err != "" {
					ex.assertOb(st, "invariant", fmt.Sprintf("loop%d.use [%s]", k, err), props, tFalse, cl, node.Pos())
				}
				continue
			}
			g, err := ex.specBool(st, fr, cl, node)
			if err != "" {
				ex.assertOb(st, "invariant", fmt.Sprintf("loop%d.%s [%s]", k, cl.Name, err), props, tFalse, cl, node.Pos())
				continue
			}
			for j, part := range topConj(g) {
				ex.assertOb(st, "invariant", fmt.Sprintf("loop%d.%s.%d", k, cl.Name, j), clauseProps(cl, props), part, cl, node.Pos())
			}
			st.assume(g, false)
		}
	}
	if ex.contract.NoAlloc {
		ex.assertOb(st, "frame", fmt.Sprintf("loop%d: no allocation", k), props, Eq(st.next, loopEntry.next), nil, node.Pos())
	}
	assertInv(st, "preserved")
	if ls != nil && ls.Dec != nil {
		v, _, err := ex.specTerm(st, fr, ls.Dec, node)
		if err != "" || dec0 == nil {
			ex.assertOb(st, "termination", fmt.Sprintf("loop%d.decreases [%s]", k, err), clauseProps(ls.Dec, props), tFalse, ls.Dec, node.Pos())
		} else {
			ex.assertOb(st, "termination", fmt.Sprintf("loop%d.decreases", k), clauseProps(ls.Dec, props), And(Le(IntC(0), dec0), Lt(v[0], dec0)), ls.Dec, node.Pos())
		}
	}
	panic(pathEnd{"loop iteration"})
}

func (ex *Exec) concreteLoopOK() bool { return ex.contract.MaxUnroll > 70 }

type writeRec struct {
	name string
	keys []*Term
}

type modSet struct {
	vars  map[varKey]bool
	maps  map[string]*mapMod
	alloc bool // an iteration may allocate
}
type mapMod struct {
	arity int
	esort Sort
	whole bool
	keys  [][]*Term // each: key pattern; nil component = any
}

// findModified determines by dry symbolic runs what an arbitrary iteration can change.
func (ex *Exec) findModified(st0 *State, cond func(*State) *Term, body func(*State) ctl, post func(*State), ls *LoopSpec, fr *Frame, node ast.Node) *modSet {
	ms := &modSet{vars: map[varKey]bool{}, maps: map[string]*mapMod{}}
	ex.dry++
	defer func() { ex.dry-- }()
	startSerial := ex.serial
	saveCtx := ex.ctx
	for round := 0; round < 12; round++ {
		changed := false
		st := st0.clone()
		ex.ctx = saveCtx + fmt.Sprintf("d%d", round)
		mark := "hv" + fmt.Sprint(len(ex.ctx)) + "r" + fmt.Sprint(round)
		hsyms := ex.havocLoopMark(st, ms, mark)
		ex.writes = append(ex.writes, map[string][][]*Term{})
		lvl := len(ex.writes) - 1
		w := map[string][][]*Term{}
		ends := ex.explore(st, func(s *State) {
			// only writes on paths that come back to the loop head matter
			ex.writes = append(ex.writes[:lvl], map[string][][]*Term{})
			if ls != nil {
				for _, inv := range ls.Inv {
					g, err := ex.specBool(s, fr, inv, node)
					if err == "" {
						s.assume(g, false)
					}
				}
			}
			if !ex.branch(s, cond(s)) {
				panic(pathEnd{""})
			}
			r := body(s)
			if r.k == cBreak || r.k == cReturn {
				panic(pathEnd{""})
			}
			post(s)
			if ls != nil {
				for _, g := range ls.Ghost {
					ex.ghostAssign(s, fr, g, node)
				}
			}
			for n, ks := range ex.writes[lvl] {
				w[n] = append(w[n], ks...)
			}
		})
		ex.writes = ex.writes[:lvl]
		for _, e := range ends {
			if e.next != st.next && !ms.alloc {
				ms.alloc = true
				changed = true
			}
			for k, v := range st.vars {
				nv, ok := e.vars[k]
				if !ok {
					continue
				}
				if ms.vars[k] {
					continue
				}
				for j := range v {
					if j < len(nv) && nv[j] != v[j] {
						ms.vars[k] = true
						changed = true
						break
					}
				}
			}
		}
		var names []string
		for n := range w {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			mm := ms.maps[n]
			if mm == nil {
				mm = &mapMod{}
				ms.maps[n] = mm
				changed = true
			}
			for _, keys := range w[n] {
				if keys == nil {
					if !mm.whole {
						mm.whole = true
						changed = true
					}
					continue
				}
				pat := make([]*Term, len(keys))
				freshAlloc := false
				for i, kt := range keys {
					if s, ok := allocSerial[kt]; ok && s > startSerial && i == 0 {
						freshAlloc = true
					}
					if ex.invariantTerm(kt, hsyms, st, startSerial) {
						pat[i] = kt
					}
				}
				if freshAlloc {
					continue // new objects only: covered by advancing next
				}
				mm.arity = len(keys)
				all := true
				for _, x := range pat {
					if x != nil {
						all = false
					}
				}
				if all && len(pat) > 0 {
					if !mm.whole {
						mm.whole = true
						changed = true
					}
					continue
				}
				dup := false
				for _, o := range mm.keys {
					same := true
					for i := range o {
						if o[i] != pat[i] {
							same = false
						}
					}
					if same {
						dup = true
					}
				}
				if !dup {
					mm.keys = append(mm.keys, pat)
					changed = true
				}
			}
		}
		if !changed {
			break
		}
		if round == 11 {
			for _, mm := range ms.maps {
				mm.whole = true
			}
		}
	}
	ex.ctx = saveCtx
	return ms
}

// invariantTerm: does not depend on anything havocked by the loop or created inside it
func (ex *Exec) invariantTerm(t *Term, hs map[*Term]bool, st *State, serial int) bool {
	if len(boundVars(t)) > 0 {
		return false
	}
	for s := range Syms(t) {
		if hs[s] {
			return false
		}
		if s.op == OSel && hs[mk(OVar, SMap, "fn:"+s.name, nil)] {
			return false
		}
		if k, ok := symSerial[strings.TrimPrefix(s.name, "fn:")]; ok && k > serial {
			return false
		}
	}
	return true
}

var symSerial = map[string]int{}

func (ex *Exec) havocLoop(st *State, ms *modSet) { ex.havocLoopMark(st, ms, "lp") }

func (ex *Exec) havocLoopMark(st *State, ms *modSet, mark string) map[*Term]bool {
	hs := map[*Term]bool{}
	ex.serial++
	// next advances
	oldNext := st.next
	nn := oldNext
	if !ex.contract.NoAlloc && ms.alloc {
		nn = ex.fresh(mark+".next", SInt)
		hs[nn] = true
		st.assume(Le(st.next, nn), false)
	}
	st.next = nn
	var keys []varKey
	for k := range ms.vars {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		if keys[i].frame != keys[j].frame {
			return keys[i].frame < keys[j].frame
		}
		return keys[i].obj.Name()+fmt.Sprint(keys[i].obj.Pos()) < keys[j].obj.Name()+fmt.Sprint(keys[j].obj.Pos())
	})
	for _, k := range keys {
		t := ex.varType(k)
		ls := ex.p.layout(t)
		old := st.vars[k]
		nv := make(Val, len(old))
		for i := range old {
			nm := k.obj.Name()
			var f *Term
			f = ex.fresh(mark+"."+nm, old[i].sort)
			hs[f] = true
			f.serial = ex.serial
			if i < len(ls) {
				st.assume(ex.leafRange(f, ls[i], st.next), false)
			}
			nv[i] = f
		}
		st.vars[k] = nv
		if i, ok := isSlice(t); ok && i == 0 {
			st.assume(sliceFacts4(nv), false)
		}
	}
	if ms.maps["*"] != nil {
		st.epoch = ex.freshName("E")
		st.heap = map[string]*Term{}
		hs[Var("epoch", SInt)] = true
		return hs
	}
	var names []string
	for n := range ms.maps {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		mm := ms.maps[n]
		cur := ex.heapMap(st, n, nil)
		if cur == nil {
			continue
		}
		nb := ex.newBase(mark+"."+n, n, cur.arity, cur.esort)
		for _, t := range []*Term{nb} {
			hs[t] = true
			hs[mk(OVar, SMap, "fn:"+t.name, nil)] = true
		}
		if g := ex.specs.Ghosts[strings.TrimPrefix(n, "ghost.")]; g != nil && g.Obj && g.Sort == SBool {
			st.assume(g.notYet(ex, nb, nn), false)
		}
		if mm.whole {
			// fresh objects and everything
			st.heap[n] = nb
			continue
		}
		bvs := make([]*Term, cur.arity)
		for i := range bvs {
			bvs[i] = Bound(fmt.Sprintf("k%d", i), SInt)
		}
		var cs []*Term
		// objects allocated inside the loop: contents unconstrained
		cs = append(cs, And(Le(oldNext, bvs[0]), Lt(bvs[0], nn)))
		for _, pat := range mm.keys {
			var es []*Term
			for i, kt := range pat {
				if kt != nil {
					es = append(es, Eq(bvs[i], kt))
				}
			}
			cs = append(cs, And(es...))
		}
		st.heap[n] = HavocMap(cur, nb, bvs, Or(cs...))
	}
	return hs
}

func isSlice(t types.Type) (int, bool) {
	_, ok := t.Underlying().(*types.Slice)
	return 0, ok
}
func sliceFacts4(v Val) *Term {
	z := IntC(0)
	return And(Le(z, v[1]), Le(z, v[2]), Le(v[2], v[3]), Implies(Eq(v[0], z), Eq(v[3], z)))
}

func (ex *Exec) noteWrite(name string, keys []*Term) {
	for _, w := range ex.writes {
		w[name] = append(w[name], keys)
	}
}
