package main

// Evaluation of specification expressions and application of contracts.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

type sval struct {
	v Val
	t types.Type
}

type specEnv struct {
	ex    *Exec
	st    *State
	old   *State
	entry *State
	fr    *Frame
	names map[string]sval
	node  ast.Node
	quals int
	depth int
	inOld bool
}

type specErr struct{ msg string }

func sfail(f string, a ...any) { panic(specErr{fmt.Sprintf(f, a...)}) }

var (
	tInt   = types.Typ[types.Int]
	tBool  = types.Typ[types.Bool]
	tReal  = types.Typ[types.Float64]
	tNilT  = types.Typ[types.UntypedNil]
	tIface = types.NewInterfaceType(nil, nil)
)

func (ex *Exec) withSpec(f func()) (err string) {
	ex.specDepth++
	frames := len(ex.frames)
	defer func() {
		ex.specDepth--
		if r := recover(); r != nil {
			switch r := r.(type) {
			case specErr:
				err = r.msg
			case unsupp:
				err = r.msg
			default:
				panic(r)
			}
			ex.frames = ex.frames[:frames]
		}
	}()
	f()
	return ""
}

// paramEnv binds contract parameter names to the current values of the frame's parameters.
func (ex *Exec) paramNames(c *Contract, sig *types.Signature) []*types.Var {
	var vs []*types.Var
	if r := sig.Recv(); r != nil {
		vs = append(vs, r)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		vs = append(vs, sig.Params().At(i))
	}
	return vs
}

func (ex *Exec) frameEnv(st *State, fr *Frame, node ast.Node) *specEnv {
	env := &specEnv{ex: ex, st: st, old: fr.old, fr: fr, names: map[string]sval{}, node: node}
	if len(ex.loopEntries) > 0 {
		env.entry = ex.loopEntries[len(ex.loopEntries)-1]
	}
	return env
}

func (ex *Exec) specBool(st *State, fr *Frame, c *Clause, node ast.Node) (*Term, string) {
	v, _, err := ex.specTerm(st, fr, c, node)
	if err != "" {
		return tFalse, err
	}
	if len(v) != 1 || v[0].sort != SBool {
		return tFalse, "not a boolean: " + c.Text
	}
	return v[0], ""
}

func (ex *Exec) specTerm(st *State, fr *Frame, c *Clause, node ast.Node) (Val, types.Type, string) {
	var r sval
	err := ex.withSpec(func() {
		env := ex.frameEnv(st, fr, node)
		r = env.eval(c.Expr)
	})
	return r.v, r.t, err
}

func (ex *Exec) ghostAssign(st *State, fr *Frame, c *Clause, node ast.Node) {
	err := ex.withSpec(func() {
		ex.frameEnv(st, fr, node).ghostSet(c)
	})
	if err != "" {
		panic(unsupported("ghost: " + err))
	}
}

// ghostSet carries out the ghost assignment c in the state of env.
func (env *specEnv) ghostSet(c *Clause) {
	b, ok := c.Expr.(*ast.BinaryExpr)
	if !ok || b.Op != token.EQL {
		sfail("bad ghost assignment")
	}
	r := env.eval(b.Y)
	g, keys := env.ghostRef(b.X)
	if g == nil {
		sfail("bad ghost assignment target")
	}
	env.ex.ghostWrite(env.st, g, keys, r.v[0])
}

func ghostMapName(g *GhostMap) string { return "ghost." + g.Name }

func (ex *Exec) ghostReg(g *GhostMap) string {
	n := ghostMapName(g)
	ex.regMap(n, g.Arity, Leaf{sort: g.Sort, typ: tInt})
	return n
}

func (ex *Exec) ghostWrite(st *State, g *GhostMap, keys []*Term, v *Term) {
	n := ex.ghostReg(g)
	st.heap[n] = Store(ex.heapMap(st, n, nil), keys, v)
	ex.noteWrite(n, keys)
}

func (env *specEnv) ghostRef(e ast.Expr) (*GhostMap, []*Term) {
	c, ok := ast.Unparen(e).(*ast.CallExpr)
	if !ok {
		return nil, nil
	}
	id, ok := c.Fun.(*ast.Ident)
	if !ok {
		return nil, nil
	}
	g := env.ex.specs.Ghosts[id.Name]
	if g == nil {
		return nil, nil
	}
	var keys []*Term
	for _, a := range c.Args {
		keys = append(keys, env.key(env.eval(a)))
	}
	if len(keys) == 0 {
		keys = []*Term{IntC(0)}
	}
	return g, keys
}

func (env *specEnv) key(s sval) *Term {
	if isIface(s.t) {
		return s.v[1]
	}
	if len(s.v) == 3 {
		return s.v[1]
	}
	return s.v[0]
}

func (env *specEnv) with(st *State) *specEnv {
	n := *env
	n.st = st
	return &n
}

func (env *specEnv) bind(name string, s sval) *specEnv {
	n := *env
	n.names = make(map[string]sval, len(env.names)+1)
	for k, v := range env.names {
		n.names[k] = v
	}
	n.names[name] = s
	return &n
}

func (env *specEnv) evalBool(e ast.Expr) *Term {
	r := env.eval(e)
	if len(r.v) != 1 || r.v[0].sort != SBool {
		sfail("not a boolean: %s", exprStr(e))
	}
	return r.v[0]
}

func (env *specEnv) evalNum(e ast.Expr) *Term {
	r := env.eval(e)
	if len(r.v) != 1 || r.v[0].sort == SBool {
		sfail("not a number: %s", exprStr(e))
	}
	return r.v[0]
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func numType(t *Term) types.Type {
	if t.sort == SReal {
		return tReal
	}
	return tInt
}

func (env *specEnv) lookup(name string) (sval, bool) {
	if s, ok := env.names[name]; ok {
		return s, true
	}
	ex := env.ex
	if env.fr != nil {
		if rs, ok := env.node.(*ast.RangeStmt); ok {
			if id, ok := rs.Key.(*ast.Ident); ok && id.Name == name || name == "LI" {
				if v, ok := env.st.vars[varKey{ex.frame().id, rangeIdx(rs)}]; ok {
					return sval{v, tInt}, true
				}
			}
		}
		if fs, ok := env.node.(*ast.ForStmt); ok && name == "LI" {
			if id, ok := fs.Post.(*ast.IncDecStmt); ok {
				if x, ok := id.X.(*ast.Ident); ok {
					name = x.Name
				}
			}
		}
		if env.fr.contr != nil {
			for i, v := range ex.paramNames(env.fr.contr, env.fr.sig) {
				if i < len(env.fr.contr.Params) && env.fr.contr.Params[i] == name {
					k := varKey{env.fr.id, v}
					if _, ok := env.st.vars[k]; ok {
						return sval{ex.read(env.st, ex.varLoc(env.st, k, v)), ex.subT(v.Type())}, true
					}
				}
			}
		}
		if o := ex.localByName(env.st, env.fr, name, env.node); o != nil {
			for _, f := range ex.scopeFrames(env.fr) {
				k := varKey{f.id, o}
				if _, ok := env.st.vars[k]; ok {
					return sval{ex.read(env.st, ex.varLoc(env.st, k, o)), ex.varTypeIn(f, o)}, true
				}
			}
			sfail("local %s not in scope", name)
		}
	}
	return sval{}, false
}

func (ex *Exec) varTypeIn(f *Frame, o types.Object) types.Type {
	if len(f.tsub) > 0 {
		return substType(o.Type(), f.tsub)
	}
	return o.Type()
}

// scopeFrames lists the frames whose variables an invariant may mention: the
// current frame outwards to the frame under contract (helpers inlined in between).
func (ex *Exec) scopeFrames(fr *Frame) []*Frame {
	var out []*Frame
	for i := len(ex.frames) - 1; i >= 0; i-- {
		out = append(out, ex.frames[i])
		if ex.frames[i] == fr {
			break
		}
	}
	return out
}

// localByName finds the local variable an invariant calls name.
func (ex *Exec) localByName(st *State, fr *Frame, name string, node ast.Node) types.Object {
	var best types.Object
	frames := ex.scopeFrames(fr)
	try := func(name string) types.Object {
		for _, f := range frames {
			best = nil
			for k := range st.vars {
				if k.frame == f.id && k.obj != nil && k.obj.Name() == name {
					// innermost declaration before the loop
					if node != nil && k.obj.Pos() > node.End() {
						continue
					}
					if best == nil || k.obj.Pos() > best.Pos() {
						best = k.obj
					}
				}
			}
			if best != nil {
				return best
			}
		}
		return nil
	}
	if o := try(name); o != nil {
		return o
	}
	if fr.contr != nil {
		if alt := ex.specs.renamed(ex.p, fr.contr.Key, name); alt != "" {
			return try(alt)
		}
	}
	return nil
}

func (env *specEnv) typeExpr(e ast.Expr) types.Type {
	switch e := e.(type) {
	case *ast.Ident:
		if o := env.ex.p.pkg.Scope().Lookup(e.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
		switch e.Name {
		case "int":
			return tInt
		case "float64", "real":
			return tReal
		case "bool":
			return tBool
		}
		if o := types.Universe.Lookup(e.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		var x ast.Expr
		var args []ast.Expr
		if ie, ok := e.(*ast.IndexExpr); ok {
			x, args = ie.X, []ast.Expr{ie.Index}
		} else {
			il := e.(*ast.IndexListExpr)
			x, args = il.X, il.Indices
		}
		var targs []types.Type
		for _, a := range args {
			targs = append(targs, env.typeExpr(a))
		}
		t, err := types.Instantiate(nil, env.typeExpr(x), targs, false)
		if err != nil {
			sfail("%v", err)
		}
		return t
	case *ast.StarExpr:
		return types.NewPointer(env.typeExpr(e.X))
	case *ast.ArrayType:
		if e.Len == nil {
			return types.NewSlice(env.typeExpr(e.Elt))
		}
	case *ast.ParenExpr:
		return env.typeExpr(e.X)
	}
	sfail("unknown type %s", exprStr(e))
	return nil
}

func (env *specEnv) eval(e ast.Expr) sval {
	ex := env.ex
	switch e := e.(type) {
	case *ast.ParenExpr:
		return env.eval(e.X)
	case *ast.BasicLit:
		if e.Kind == token.INT || e.Kind == token.FLOAT {
			r, ok := new(big.Rat).SetString(e.Value)
			if !ok {
				sfail("bad number %s", e.Value)
			}
			if e.Kind == token.INT {
				return sval{Val{Num(r, SInt)}, tInt}
			}
			return sval{Val{Num(r, SReal)}, tReal}
		}
		if e.Kind == token.STRING {
			s := constant.StringVal(constant.MakeFromLiteral(e.Value, token.STRING, 0))
			return sval{Val{internString(s)}, types.Typ[types.String]}
		}
		sfail("literal")
	case *ast.Ident:
		switch e.Name {
		case "true":
			return sval{Val{tTrue}, tBool}
		case "false":
			return sval{Val{tFalse}, tBool}
		case "nil":
			return sval{Val{IntC(0)}, tNilT}
		}
		if s, ok := env.lookup(e.Name); ok {
			return s
		}
		if m := ex.specs.Macros[e.Name]; m != nil && len(m.Params) == 0 {
			return env.macro(m, nil)
		}
		if e.Name == "PI" {
			return sval{Val{tPi}, tReal}
		}
		if te := ex.specs.Consts[e.Name]; te != nil {
			t := env.typeExpr(te)
			var v Val
			for _, l := range ex.p.layout(t) {
				v = append(v, Var("const."+e.Name+l.path, l.sort))
			}
			return sval{v, t}
		}
		if o := ex.p.pkg.Scope().Lookup(e.Name); o != nil {
			switch o := o.(type) {
			case *types.Const:
				return sval{Val{constTerm(o.Val(), o.Type())}, o.Type()}
			case *types.Var:
				if v, at := ex.constTableVar(o); at != nil {
					return sval{v, at}
				}
				if v, ok := ex.constGlobal(env.st, o); ok {
					return sval{v, o.Type()}
				}
				return sval{ex.read(env.st, ex.globalLoc(o)), o.Type()}
			case *types.Func:
				return sval{Val{ex.closureTerm(&Closure{fn: o})}, o.Type()}
			}
		}
		sfail("unknown name %s", e.Name)
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok && id.Name == "math" {
			switch e.Sel.Name {
			case "Pi":
				return sval{Val{tPi}, tReal}
			case "MaxFloat64":
				return sval{Val{Num(maxFloatRat, SReal)}, tReal}
			}
		}
		return env.field(env.eval(e.X), e.Sel.Name)
	case *ast.StarExpr:
		x := env.eval(e.X)
		pt, ok := x.t.Underlying().(*types.Pointer)
		if !ok {
			sfail("not a pointer: %s", exprStr(e.X))
		}
		return sval{ex.readLoc(env.st, ex.ptrLoc(x.v, pt.Elem())), pt.Elem()}
	case *ast.IndexExpr:
		x := env.eval(e.X)
		i := env.evalNum(e.Index)
		return env.index(x, i)
	case *ast.SliceExpr:
		sfail("slice expression")
	case *ast.UnaryExpr:
		x := env.eval(e.X)
		switch e.Op {
		case token.NOT:
			return sval{Val{Not(x.v[0])}, tBool}
		case token.SUB:
			out := make(Val, len(x.v))
			for i := range x.v {
				out[i] = Neg(x.v[i])
			}
			return sval{out, x.t}
		case token.ADD:
			return x
		}
	case *ast.BinaryExpr:
		return env.binary(e)
	case *ast.TypeAssertExpr:
		x := env.eval(e.X)
		t := env.typeExpr(e.Type)
		if !isIface(x.t) {
			sfail("type assertion on non-interface")
		}
		return sval{ex.unbox(env.st, x.v, t), t}
	case *ast.CallExpr:
		return env.call(e)
	case *ast.CompositeLit:
		t := env.typeExpr(e.Type)
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			sfail("composite literal")
		}
		var out Val
		for i, el := range e.Elts {
			v := env.eval(el)
			ls := ex.p.layout(st.Field(i).Type())
			if len(ls) != len(v.v) {
				sfail("composite literal field")
			}
			for j := range ls {
				out = append(out, coerce(v.v[j], ls[j].sort))
			}
		}
		return sval{out, t}
	}
	sfail("cannot evaluate %s", exprStr(e))
	return sval{}
}

// location of a spec expression, when it denotes one
func (env *specEnv) loc(e ast.Expr) (*Loc, types.Type) {
	ex := env.ex
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		if _, local := env.lookup(e.Name); !local {
			if v, ok := ex.p.pkg.Scope().Lookup(e.Name).(*types.Var); ok {
				return ex.globalLoc(v), v.Type()
			}
		}
	case *ast.StarExpr:
		x := env.eval(e.X)
		pt, ok := x.t.Underlying().(*types.Pointer)
		if !ok {
			return nil, nil
		}
		return ex.ptrLoc(x.v, pt.Elem()), pt.Elem()
	case *ast.SelectorExpr:
		if l, t := env.loc(e.X); l != nil {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				v := ex.readLoc(env.st, l)
				return env.locField(ex.ptrLoc(v, pt.Elem()), pt.Elem(), e.Sel.Name)
			}
			if _, ok := t.Underlying().(*types.Struct); ok {
				return env.locField(l, t, e.Sel.Name)
			}
			return nil, nil
		}
		x := env.eval(e.X)
		if pt, ok := x.t.Underlying().(*types.Pointer); ok {
			return env.locField(ex.ptrLoc(x.v, pt.Elem()), pt.Elem(), e.Sel.Name)
		}
	case *ast.IndexExpr:
		if l, t := env.loc(e.X); l != nil {
			if at, ok := t.Underlying().(*types.Array); ok {
				return ex.arrayElemLoc(env.st, l, at, env.evalNum(e.Index)), at.Elem()
			}
		}
		x := env.eval(e.X)
		if st, ok := x.t.Underlying().(*types.Slice); ok {
			return &Loc{tag: IntC(kElem), base: x.v[0], idx: Add(x.v[1], env.evalNum(e.Index)), root: st.Elem(), typ: st.Elem()}, st.Elem()
		}
	}
	return nil, nil
}

func (env *specEnv) locField(l *Loc, t types.Type, name string) (*Loc, types.Type) {
	obj, index, _ := types.LookupFieldOrMethod(t, true, env.ex.p.pkg, name)
	f, ok := obj.(*types.Var)
	if !ok {
		sfail("no field %s in %s", name, t)
	}
	return env.ex.fieldLoc(env.st, l, t, index), f.Type()
}

func (env *specEnv) field(x sval, name string) sval {
	ex := env.ex
	obj, index, _ := types.LookupFieldOrMethod(x.t, true, ex.p.pkg, name)
	f, ok := obj.(*types.Var)
	if !ok {
		sfail("no field %s in %s", name, x.t)
	}
	if pt, ok := x.t.Underlying().(*types.Pointer); ok {
		l := ex.fieldLoc(env.st, ex.ptrLoc(x.v, pt.Elem()), pt.Elem(), index)
		if l.outArr() {
			return sval{Val{l.base}, f.Type()}
		}
		return sval{ex.readLoc(env.st, l), l.typ}
	}
	// struct value
	cur := x
	for n, ix := range index {
		if pt, ok := cur.t.Underlying().(*types.Pointer); ok && n > 0 {
			l := ex.fieldLoc(env.st, ex.ptrLoc(cur.v, pt.Elem()), pt.Elem(), index[n:])
			return sval{ex.readLoc(env.st, l), l.typ}
		}
		st := cur.t.Underlying().(*types.Struct)
		off := 0
		for j := 0; j < ix; j++ {
			if !ex.p.isOutlined(cur.t, st.Field(j)) {
				off += len(ex.p.layout(st.Field(j).Type()))
			}
		}
		n := len(ex.p.layout(st.Field(ix).Type()))
		cur = sval{cur.v[off : off+n], st.Field(ix).Type()}
	}
	return cur
}

func (env *specEnv) index(x sval, i *Term) sval {
	ex := env.ex
	switch u := x.t.Underlying().(type) {
	case *types.Slice:
		return sval{ex.readElem(env.st, u.Elem(), x.v[0], Add(x.v[1], i)), u.Elem()}
	case *types.Array:
		if len(x.v) == 1 && u.Len() > 1 && len(ex.p.layout(u.Elem())) != 0 && len(ex.p.layout(x.t)) != len(x.v) {
			return sval{ex.readElem(env.st, u.Elem(), x.v[0], i), u.Elem()}
		}
		return sval{ex.arrayGet(x.v, u, i), u.Elem()}
	case *types.Pointer:
		if at, ok := u.Elem().Underlying().(*types.Array); ok {
			return sval{ex.readLoc(env.st, ex.arrayElemLoc(env.st, ex.ptrLoc(x.v, u.Elem()), at, i)), at.Elem()}
		}
	}
	sfail("cannot index %s", x.t)
	return sval{}
}

func allReal(ex *Exec, s sval) bool {
	for _, t := range s.v {
		if t.sort != SReal {
			return false
		}
	}
	_, ok := s.t.Underlying().(*types.Struct)
	return ok
}

func (env *specEnv) binary(e *ast.BinaryExpr) sval {
	ex := env.ex
	switch e.Op {
	case token.LAND:
		l := env.evalBool(e.X)
		if l == tFalse {
			return sval{Val{tFalse}, tBool}
		}
		return sval{Val{And(l, env.evalBool(e.Y))}, tBool}
	case token.LOR:
		l := env.evalBool(e.X)
		if l == tTrue {
			return sval{Val{tTrue}, tBool}
		}
		return sval{Val{Or(l, env.evalBool(e.Y))}, tBool}
	}
	x, y := env.eval(e.X), env.eval(e.Y)
	switch e.Op {
	case token.EQL:
		return sval{Val{ex.equal(env.st, x.v, y.v, x.t, y.t)}, tBool}
	case token.NEQ:
		return sval{Val{Not(ex.equal(env.st, x.v, y.v, x.t, y.t))}, tBool}
	}
	_, xs := x.t.Underlying().(*types.Struct)
	_, ys := y.t.Underlying().(*types.Struct)
	if xs || ys {
		switch {
		case xs && ys && (e.Op == token.ADD || e.Op == token.SUB) && len(x.v) == len(y.v):
			out := make(Val, len(x.v))
			for i := range x.v {
				if e.Op == token.ADD {
					out[i] = Add(x.v[i], y.v[i])
				} else {
					out[i] = Sub(x.v[i], y.v[i])
				}
			}
			return sval{out, x.t}
		case (e.Op == token.MUL || e.Op == token.QUO) && (xs != ys):
			s, k := x, y
			if ys {
				s, k = y, x
			}
			out := make(Val, len(s.v))
			for i := range s.v {
				if e.Op == token.MUL {
					out[i] = Mul(s.v[i], coerce(k.v[0], SReal))
				} else {
					out[i] = Div(s.v[i], coerce(k.v[0], SReal))
				}
			}
			return sval{out, s.t}
		}
		sfail("bad operands: %s", exprStr(e))
	}
	if len(x.v) != 1 || len(y.v) != 1 {
		sfail("bad operands: %s", exprStr(e))
	}
	a, b := numSort(x.v[0], y.v[0])
	switch e.Op {
	case token.LSS:
		return sval{Val{Lt(a, b)}, tBool}
	case token.LEQ:
		return sval{Val{Le(a, b)}, tBool}
	case token.GTR:
		return sval{Val{Lt(b, a)}, tBool}
	case token.GEQ:
		return sval{Val{Le(b, a)}, tBool}
	case token.ADD:
		r := Add(a, b)
		return sval{Val{r}, numType(r)}
	case token.SUB:
		r := Sub(a, b)
		return sval{Val{r}, numType(r)}
	case token.MUL:
		r := Mul(a, b)
		return sval{Val{r}, numType(r)}
	case token.QUO:
		return sval{Val{Div(coerce(a, SReal), coerce(b, SReal))}, tReal}
	case token.AND, token.OR, token.XOR, token.REM, token.SHL, token.SHR:
		t := x.t
		if x.v[0].isConst() {
			t = y.t
		}
		r := ex.arith(env.st, e.Op, a, b, t)
		return sval{Val{r}, t}
	}
	sfail("operator %s", e.Op)
	return sval{}
}

func (env *specEnv) call(e *ast.CallExpr) sval {
	ex := env.ex
	id, ok := e.Fun.(*ast.Ident)
	if !ok {
		if pe, ok := e.Fun.(*ast.ParenExpr); ok {
			t := env.typeExpr(pe.X)
			return env.conv(e.Args[0], t)
		}
		sfail("call of %s", exprStr(e.Fun))
	}
	nargs := func(n int) {
		if len(e.Args) != n {
			sfail("%s: %d arguments expected", id.Name, n)
		}
	}
	switch id.Name {
	case "imp":
		nargs(2)
		a := env.evalBool(e.Args[0])
		if a == tFalse {
			return sval{Val{tTrue}, tBool}
		}
		return sval{Val{Implies(a, env.evalBool(e.Args[1]))}, tBool}
	case "ite":
		nargs(3)
		c := env.evalBool(e.Args[0])
		if c == tTrue {
			return env.eval(e.Args[1])
		}
		if c == tFalse {
			return env.eval(e.Args[2])
		}
		a, b := env.eval(e.Args[1]), env.eval(e.Args[2])
		if isUntypedNil(a.t) && !isUntypedNil(b.t) {
			a = sval{ex.zero(b.t), b.t}
		}
		if isUntypedNil(b.t) && !isUntypedNil(a.t) {
			b = sval{ex.zero(a.t), a.t}
		}
		if len(a.v) != len(b.v) {
			sfail("ite arity")
		}
		out := make(Val, len(a.v))
		t := a.t
		for i := range out {
			if a.v[i].sort != SBool {
				x, y := numSort(a.v[i], b.v[i])
				out[i] = Ite(c, x, y)
			} else {
				out[i] = Ite(c, a.v[i], b.v[i])
			}
		}
		if len(out) == 1 && out[0].sort == SReal {
			t = tReal
		}
		return sval{out, t}
	case "old":
		nargs(1)
		if env.old == nil {
			sfail("old() not available")
		}
		return env.with(env.old).eval(e.Args[0])
	case "entry":
		nargs(1)
		if env.entry == nil {
			sfail("entry() not available")
		}
		return env.with(env.entry).eval(e.Args[0])
	case "forall", "exists":
		nargs(4)
		v, ok := e.Args[0].(*ast.Ident)
		if !ok {
			sfail("quantified variable")
		}
		lo, hi := env.evalNum(e.Args[1]), env.evalNum(e.Args[2])
		if lo.isConst() && hi.isConst() {
			n := new(big.Rat).Sub(hi.rat, lo.rat)
			if n.Cmp(big.NewRat(40, 1)) <= 0 {
				var cs []*Term
				for i := lo.rat.Num().Int64(); i < hi.rat.Num().Int64(); i++ {
					cs = append(cs, env.bind(v.Name, sval{Val{IntC(i)}, tInt}).evalBool(e.Args[3]))
				}
				if id.Name == "forall" {
					return sval{Val{And(cs...)}, tBool}
				}
				return sval{Val{Or(cs...)}, tBool}
			}
		}
		b := FreshBound(v.Name, SInt)
		body := env.bind(v.Name, sval{Val{b}, tInt}).evalBool(e.Args[3])
		rng := And(Le(lo, b), Lt(b, hi))
		if id.Name == "forall" {
			return sval{Val{Forall([]*Term{b}, Implies(rng, body))}, tBool}
		}
		return sval{Val{Exists([]*Term{b}, And(rng, body))}, tBool}
	case "forallT", "existsT":
		// forallT(x, T, P)
		nargs(3)
		v, ok := e.Args[0].(*ast.Ident)
		if !ok {
			sfail("quantified variable")
		}
		t := env.typeExpr(e.Args[1])
		ls := ex.p.layout(t)
		var bs []*Term
		var val Val
		rng := tTrue
		for _, l := range ls {
			b := FreshBound(v.Name, l.sort)
			if l.role == "tag" {
				val = append(val, IntC(kObj))
				continue
			}
			if l.role == "idx" {
				val = append(val, IntC(0))
				continue
			}
			bs = append(bs, b)
			val = append(val, b)
			if l.ref {
				rng = And(rng, Lt(IntC(0), b), Lt(b, env.st.next))
			} else {
				rng = And(rng, ex.leafRange(b, l, nil))
			}
		}
		body := env.bind(v.Name, sval{val, t}).evalBool(e.Args[2])
		if id.Name == "forallT" {
			return sval{Val{Forall(bs, Implies(rng, body))}, tBool}
		}
		return sval{Val{Exists(bs, And(rng, body))}, tBool}
	case "let":
		// let(x, e, body)
		nargs(3)
		v, ok := e.Args[0].(*ast.Ident)
		if !ok {
			sfail("let variable")
		}
		return env.bind(v.Name, env.eval(e.Args[1])).eval(e.Args[2])
	case "typeis":
		nargs(2)
		x := env.eval(e.Args[0])
		return sval{Val{Eq(x.v[0], ex.p.tagOf(env.typeExpr(e.Args[1])))}, tBool}
	case "fresh":
		nargs(1)
		x := env.eval(e.Args[0])
		r := x.v[0]
		if len(x.v) == 3 || isIface(x.t) {
			r = x.v[1]
		}
		if env.old == nil {
			sfail("fresh() needs a pre-state")
		}
		return sval{Val{And(Le(env.old.next, r), Lt(r, env.st.next))}, tBool}
	case "allocated":
		nargs(1)
		x := env.eval(e.Args[0])
		r := x.v[0]
		if len(x.v) == 3 || isIface(x.t) {
			r = x.v[1]
		}
		return sval{Val{And(Lt(IntC(0), r), Lt(r, env.st.next))}, tBool}
	case "len":
		nargs(1)
		x := env.eval(e.Args[0])
		switch u := x.t.Underlying().(type) {
		case *types.Slice:
			return sval{Val{x.v[2]}, tInt}
		case *types.Array:
			return sval{Val{IntC(u.Len())}, tInt}
		}
		sfail("len")
	case "cap":
		nargs(1)
		return sval{Val{env.eval(e.Args[0]).v[3]}, tInt}
	case "arr":
		nargs(1)
		return sval{Val{env.eval(e.Args[0]).v[0]}, tInt}
	case "off":
		nargs(1)
		return sval{Val{env.eval(e.Args[0]).v[1]}, tInt}
	case "idx":
		// index part of a pointer to a slice element
		nargs(1)
		v := env.eval(e.Args[0]).v
		return sval{Val{v[len(v)-1]}, tInt}
	case "same":
		// identical slice headers / values
		nargs(2)
		a, b := env.eval(e.Args[0]), env.eval(e.Args[1])
		var cs []*Term
		for i := range a.v {
			cs = append(cs, Eq(a.v[i], b.v[i]))
		}
		return sval{Val{And(cs...)}, tBool}
	case "addr":
		// location identity: addr(x.f) as a pointer value
		nargs(1)
		l, t := env.loc(e.Args[0])
		if l == nil {
			sfail("addr of non-location")
		}
		return sval{ex.addrOf(env.st, l), types.NewPointer(t)}
	case "ref":
		nargs(1)
		x := env.eval(e.Args[0])
		return sval{Val{env.key(x)}, tInt}
	case "real":
		nargs(1)
		return sval{Val{coerce(env.evalNum(e.Args[0]), SReal)}, tReal}
	case "floor":
		nargs(1)
		return sval{Val{Floor(coerce(env.evalNum(e.Args[0]), SReal))}, tInt}
	case "mod":
		nargs(2)
		return sval{Val{IMod(env.evalNum(e.Args[0]), env.evalNum(e.Args[1]))}, tInt}
	case "div":
		nargs(2)
		return sval{Val{IDiv(env.evalNum(e.Args[0]), env.evalNum(e.Args[1]))}, tInt}
	case "rem":
		nargs(2)
		return sval{Val{ex.arith(env.st, token.REM, env.evalNum(e.Args[0]), env.evalNum(e.Args[1]), tInt)}, tInt}
	case "min", "max":
		r := env.evalNum(e.Args[0])
		for _, a := range e.Args[1:] {
			x, y := numSort(r, env.evalNum(a))
			if id.Name == "min" {
				r = Ite(Le(x, y), x, y)
			} else {
				r = Ite(Le(x, y), y, x)
			}
		}
		return sval{Val{r}, numType(r)}
	case "abs":
		nargs(1)
		x := env.evalNum(e.Args[0])
		r := Ite(Le(coerce(IntC(0), x.sort), x), x, Neg(x))
		return sval{Val{r}, numType(r)}
	case "sqrt", "cos", "sin", "acos", "exp":
		nargs(1)
		return sval{Val{App(id.Name, SReal, coerce(env.evalNum(e.Args[0]), SReal))}, tReal}
	case "atan2", "pow":
		nargs(2)
		return sval{Val{App(id.Name, SReal, coerce(env.evalNum(e.Args[0]), SReal), coerce(env.evalNum(e.Args[1]), SReal))}, tReal}
	case "fmod":
		nargs(2)
		return sval{Val{ex.mathFn(env.st, "Mod", []*Term{env.evalNum(e.Args[0]), env.evalNum(e.Args[1])})}, tReal}
	case "callfn":
		// callfn(key, f, args...): result of a pure function value
		k := constant.StringVal(constant.MakeFromLiteral(e.Args[0].(*ast.BasicLit).Value, token.STRING, 0))
		c := ex.specs.Functypes[k]
		if c == nil || !c.Pure {
			sfail("no pure functype %s", k)
		}
		f := env.eval(e.Args[1])
		sig, ok := f.t.Underlying().(*types.Signature)
		if !ok {
			sfail("not a function value")
		}
		var args []*Term
		args = append(args, f.v[0])
		for _, a := range e.Args[2:] {
			args = append(args, env.eval(a).v...)
		}
		rt := sig.Results().At(0).Type()
		return sval{ex.pureCall(env.st, k, rt, args), rt}
	case "code":
		// code(F, args...): the current body of a function, inlined
		nm := exprStr(e.Args[0])
		fd := ex.p.funcs[nm]
		if fd == nil {
			sfail("no function %s", nm)
		}
		fo := ex.p.info.Defs[fd.Name].(*types.Func)
		sig := fo.Type().(*types.Signature)
		var args []Val
		for i, a := range e.Args[1:] {
			s := env.eval(a)
			j := i
			if sig.Recv() != nil {
				j--
			}
			if j >= 0 {
				s.v = ex.convertTo(env.st, s.v, s.t, sig.Params().At(j).Type())
			}
			args = append(args, s.v)
		}
		var recv Val
		if sig.Recv() != nil {
			recv = args[0]
			args = args[1:]
		}
		st := env.st.clone()
		key := varKey{-1, codeRes}
		ex.mergeRegion(st, func(st *State) { st.vars[key] = ex.inlineCall(st, fo, fd, recv, args, fd.Pos(), nil) })
		return sval{st.vars[key], sig.Results().At(0).Type()}
	}
	if g, keys := env.ghostRef(e); g != nil {
		n := ex.ghostReg(g)
		t := Select(ex.heapMap(env.st, n, nil), keys, env.st.simp)
		return sval{Val{t}, map[Sort]types.Type{SInt: tInt, SBool: tBool, SReal: tReal}[g.Sort]}
	}
	if m := ex.specs.Macros[id.Name]; m != nil {
		var args []sval
		for _, a := range e.Args {
			args = append(args, env.eval(a))
		}
		return env.macro(m, args)
	}
	if o, ok := ex.p.pkg.Scope().Lookup(id.Name).(*types.TypeName); ok {
		return env.conv(e.Args[0], o.Type())
	}
	switch id.Name {
	case "int", "float64", "uint", "uint32", "uint64", "uintptr":
		return env.conv(e.Args[0], env.typeExpr(id))
	}
	sfail("unknown function %s", id.Name)
	return sval{}
}

var codeRes = types.NewVar(0, nil, "$code", tInt)

func (env *specEnv) conv(a ast.Expr, t types.Type) sval {
	x := env.eval(a)
	ls := env.ex.p.layout(t)
	if isIface(t) && !isIface(x.t) {
		return sval{env.ex.convertTo(env.st, x.v, x.t, t), t}
	}
	if len(ls) != len(x.v) {
		sfail("conversion to %s", t)
	}
	out := make(Val, len(ls))
	for i := range ls {
		if x.v[i].sort == SReal && ls[i].sort == SInt {
			sfail("float to int conversion in a specification: use floor()")
		}
		out[i] = coerce(x.v[i], ls[i].sort)
	}
	return sval{out, t}
}

func (ex *Exec) pureCall(st *State, key string, rt types.Type, args []*Term) Val {
	var out Val
	for _, l := range ex.p.layout(rt) {
		t := App("call:"+key+l.path, l.sort, args...)
		if len(boundVars(t)) == 0 {
			if r := ex.leafRange(t, l, nil); r != tTrue {
				symFactAdd(t, r)
			}
		}
		out = append(out, t)
	}
	return out
}

func (env *specEnv) macro(m *Macro, args []sval) sval {
	ex := env.ex
	if len(args) != len(m.Params) {
		sfail("%s: %d arguments expected", m.Name, len(m.Params))
	}
	if env.depth > 60 {
		sfail("macro recursion: %s (declare it rec)", m.Name)
	}
	n := *env
	n.depth++
	n.names = map[string]sval{}
	n.fr = nil
	n.node = nil
	for i, p := range m.Params {
		a := args[i]
		if pt := m.PTypes[i]; pt != "" {
			te, err := parseSpecExpr(pt)
			if err == nil {
				t := env.typeExpr(te)
				if isUntypedNil(a.t) {
					a = sval{ex.zero(t), t}
				} else if len(ex.p.layout(t)) == len(a.v) {
					nv := make(Val, len(a.v))
					for j, l := range ex.p.layout(t) {
						nv[j] = coerce(a.v[j], l.sort)
					}
					if _, ok := a.t.(*types.TypeParam); !ok {
						a = sval{nv, t}
					}
				} else {
					sfail("%s: argument %d has type %s", m.Name, i, a.t)
				}
			}
		}
		n.names[p] = a
	}
	if !m.Rec {
		r := n.eval(m.Expr)
		if m.RType == "float64" && len(r.v) == 1 {
			r = sval{Val{coerce(r.v[0], SReal)}, tReal}
		}
		return r
	}
	// recursive specification function: uninterpreted, unfolded once per ground occurrence
	var rt types.Type
	var leaves []Leaf
	switch m.RType {
	case "int":
		rt, leaves = tInt, []Leaf{{sort: SInt}}
	case "float64":
		rt, leaves = tReal, []Leaf{{sort: SReal}}
	case "bool":
		rt, leaves = tBool, []Leaf{{sort: SBool}}
	default:
		te, err := parseSpecExpr(m.RType)
		if err != nil {
			sfail("rec %s: result type", m.Name)
		}
		rt = env.typeExpr(te)
		leaves = ex.p.layout(rt)
	}
	var ts []*Term
	for _, p := range m.Params {
		ts = append(ts, n.names[p].v...)
	}
	sig := env.heapSig(m, &n)
	apps := make(Val, len(leaves))
	for i, l := range leaves {
		apps[i] = App("rec:"+m.Name+l.path+sig, l.sort, ts...)
	}
	if sig != "?" && recTempl[apps[0].name] == nil {
		tm := &recTemplate{}
		for _, l := range leaves {
			recTempl["rec:"+m.Name+l.path+sig] = tm
		}
		for _, p := range m.Params {
			v := n.names[p]
			nv := make(Val, len(v.v))
			for i, t := range v.v {
				nv[i] = Bound(fmt.Sprintf("%s?r%d", p, i), t.sort)
				tm.params = append(tm.params, nv[i])
			}
			n.names[p] = sval{nv, v.t}
		}
		b := n.eval(m.Expr)
		if len(b.v) != len(apps) {
			sfail("rec %s: result type", m.Name)
		}
		tm.body = map[string]*Term{}
		for i, l := range leaves {
			tm.body["rec:"+m.Name+l.path+sig] = coerce(b.v[i], l.sort)
		}
	}
	return sval{apps, rt}
}

// recTemplate is the definition of a specification function declared rec: ground
// occurrences are unfolded when a query is prepared.
type recTemplate struct {
	params []*Term
	body   map[string]*Term
}

var recTempl = map[string]*recTemplate{}

// recUnfold returns the defining equation of a ground application of a rec function.
func recUnfold(t *Term) *Term {
	tm := recTempl[t.name]
	if tm == nil || tm.body == nil {
		return nil
	}
	sub := map[*Term]*Term{}
	for i, p := range tm.params {
		sub[p] = t.args[i]
	}
	return Eq(t, Subst(tm.body[t.name], sub))
}

// heapSig identifies the heap maps a recursive specification function may read, so that
// applications in states differing elsewhere coincide.
func (env *specEnv) heapSig(m *Macro, n *specEnv) string {
	ex, st := env.ex, env.st
	var names []string
	for nm := range env.recReads(m, n) {
		names = append(names, nm)
		for _, r := range ex.recorders {
			r[nm] = true
		}
	}
	if len(ex.recorders) > 0 {
		return "?"
	}
	sortStrings(names)
	var sb strings.Builder
	sb.WriteString(st.epoch)
	for _, n := range names {
		t := ex.heapMap(st, n, nil)
		if t != nil && !(t.op == MBase && t.name == "H"+st.epoch+"."+n) {
			fmt.Fprintf(&sb, "#%d", t.id)
		}
	}
	return sb.String()
}

// recReads returns the names of the heap maps the body of a rec function reads, found by
// evaluating the body once on arbitrary arguments and recording every map consulted.
func (env *specEnv) recReads(m *Macro, n *specEnv) map[string]bool {
	if r, ok := recReadSets[m.Name]; ok {
		for i, nm := range env.ex.recording {
			if nm == m.Name && i != len(env.ex.recording)-1 {
				sfail("mutually recursive specification functions")
			}
		}
		return r
	}
	rec := map[string]bool{}
	recReadSets[m.Name] = rec
	ex := env.ex
	ex.recorders = append(ex.recorders, rec)
	ex.recording = append(ex.recording, m.Name)
	c := *n
	c.names = map[string]sval{}
	for i, p := range m.Params {
		v := n.names[p]
		nv := make(Val, len(v.v))
		for k, t := range v.v {
			nv[k] = Bound(fmt.Sprintf("%s?s%d_%d", p, i, k), t.sort)
		}
		c.names[p] = sval{nv, v.t}
	}
	func() {
		defer func() {
			ex.recorders = ex.recorders[:len(ex.recorders)-1]
			ex.recording = ex.recording[:len(ex.recording)-1]
		}()
		c.eval(m.Expr)
	}()
	return rec
}

var recReadSets = map[string]map[string]bool{}

// ---- contracts at calls

func (ex *Exec) contractEnv(st *State, c *Contract, sig *types.Signature, recv Val, recvT types.Type, args []Val, ts map[*types.TypeParam]types.Type) *specEnv {
	env := &specEnv{ex: ex, st: st, names: map[string]sval{}}
	i := 0
	bind := func(v Val, t types.Type) {
		if i < len(c.Params) {
			if len(ts) > 0 {
				t = substType(t, ts)
			}
			env.names[c.Params[i]] = sval{v, ex.subT(t)}
		}
		i++
	}
	if recv != nil {
		bind(recv, recvT)
	}
	for j := 0; j < sig.Params().Len(); j++ {
		bind(args[j], sig.Params().At(j).Type())
	}
	return env
}

type modTarget struct {
	cond *Term
	name string
	keys []*Term // nil component = any; nil slice = whole map
	leaf Leaf
}

// modTargets evaluates a modifies clause in env.st.
func (env *specEnv) modTargets(c *Clause) []modTarget {
	ex := env.ex
	e := ast.Unparen(c.Expr)
	if ce, ok := e.(*ast.CallExpr); ok {
		if id, ok := ce.Fun.(*ast.Ident); ok {
			if g := ex.specs.Ghosts[id.Name]; g != nil {
				_, keys := env.ghostRef(e)
				return []modTarget{{tTrue, ex.ghostReg(g), keys, Leaf{sort: g.Sort, typ: tInt}}}
			}
			switch id.Name {
			case "ghostall":
				g := ex.specs.Ghosts[exprStr(ce.Args[0])]
				if g == nil {
					sfail("no ghost map %s", exprStr(ce.Args[0]))
				}
				return []modTarget{{tTrue, ex.ghostReg(g), nil, Leaf{sort: g.Sort, typ: tInt}}}
			case "elems":
				x := env.eval(ce.Args[0])
				var et types.Type
				switch u := x.t.Underlying().(type) {
				case *types.Slice:
					et = u.Elem()
				case *types.Array:
					et = u.Elem()
				default:
					sfail("elems of %s", x.t)
				}
				var out []modTarget
				for _, l := range ex.p.layout(et) {
					n := "[]" + typeName(et) + dot(l.path)
					ex.regMap(n, 2, l)
					out = append(out, modTarget{tTrue, n, []*Term{x.v[0], nil}, l})
				}
				return out
			case "all", "allelems":
				var t types.Type
				path := ""
				if se, ok := ce.Args[0].(*ast.SelectorExpr); ok {
					t = env.typeExpr(se.X)
					path = promoted(t, ex.p.pkg, se.Sel.Name)
				} else {
					t = env.typeExpr(ce.Args[0])
				}
				var out []modTarget
				for _, l := range ex.p.layout(t) {
					if path != "" && l.path != path && !strings.HasPrefix(l.path, path+".") && !strings.HasPrefix(l.path, path+"#") && !strings.HasPrefix(l.path, path+"[") {
						continue
					}
					n := objPrefix(t) + dot(l.path)
					ar := 1
					if id.Name == "allelems" {
						n = "[]" + typeName(t) + dot(l.path)
						ar = 2
					}
					ex.regMap(n, ar, l)
					out = append(out, modTarget{tTrue, n, nil, l})
				}
				if len(out) == 0 {
					sfail("modifies: nothing matches %s", c.Text)
				}
				return out
			}
		}
	}
	l, t := env.loc(e)
	if l == nil {
		sfail("modifies: not a location: %s", c.Text)
	}
	var out []modTarget
	var add func(l *Loc, cond *Term)
	add = func(l *Loc, cond *Term) {
		if l.alts != nil {
			for _, a := range l.alts {
				add(a.loc, And(cond, a.cond))
			}
			return
		}
		for _, lf := range ex.p.layout(t) {
			cs, rs := ex.heapTargets(env.st, l.tag, l.base, l.idx, l.root, joinPath(l.path, lf.path))
			for k := range rs {
				ex.regMap(rs[k].name, len(rs[k].keys), lf)
				out = append(out, modTarget{And(cond, cs[k]), rs[k].name, rs[k].keys, lf})
			}
		}
	}
	add(l, tTrue)
	return out
}

func (ex *Exec) resultTypes(sig *types.Signature, ts map[*types.TypeParam]types.Type) []types.Type {
	var out []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if len(ts) > 0 {
			t = substType(t, ts)
		}
		out = append(out, ex.subT(t))
	}
	return out
}

func (env *specEnv) bindResults(vals []sval) {
	for i, s := range vals {
		env.names[fmt.Sprintf("result%d", i)] = s
	}
	if len(vals) == 1 {
		env.names["result"] = vals[0]
	}
}

func (ex *Exec) callContract(st *State, c *Contract, fn *types.Func, recv Val, args []Val, pos token.Pos, ts map[*types.TypeParam]types.Type) Val {
	ex.used[c.Key] = true
	sig := fn.Type().(*types.Signature)
	o := fn.Origin().Type().(*types.Signature)
	_ = o
	var recvT types.Type
	if sig.Recv() != nil {
		recvT = sig.Recv().Type()
	}
	return ex.applyContract(st, c, sig, recv, recvT, args, pos, ts)
}

func (ex *Exec) applyContract(st *State, c *Contract, sig *types.Signature, recv Val, recvT types.Type, args []Val, pos token.Pos, ts map[*types.TypeParam]types.Type) Val {
	env := ex.contractEnv(st, c, sig, recv, recvT, args, ts)
	env.old = st
	for i, r := range c.Requires {
		var g *Term
		err := ex.withSpec(func() { g = env.evalBool(r.Expr) })
		nm := r.Name
		if nm == "" {
			nm = fmt.Sprintf("pre%d", i)
		}
		if err != "" {
			ex.assertOb(st, "requires", c.Key+"."+nm+" ["+err+"]", ex.contract.Props, tFalse, r, pos)
			continue
		}
		ex.assertOb(st, "requires", c.Key+"."+nm, ex.contract.Props, g, r, pos)
		st.assume(g, false)
	}
	if c.Dec != nil && c == ex.contract && ex.dec0 != nil {
		var g *Term
		err := ex.withSpec(func() { d := env.evalNum(c.Dec.Expr); g = And(Le(IntC(0), d), Lt(d, ex.dec0)) })
		if err != "" {
			g = tFalse
			err = " [" + err + "]"
		}
		ex.assertOb(st, "termination", "recursion"+err, clauseProps(c.Dec, c.Props), g, c.Dec, pos)
	}
	old := st.clone()
	env.old = old
	// modifies
	if c.ModAll {
		ex.havocAll(st)
	} else {
		oldEnv := *env
		oldEnv.st = old
		nn := st.next
		if !c.NoAlloc {
			nn = ex.fresh("next", SInt)
		}
		var allocs bool
		for _, cl := range c.Ensures {
			if strings.Contains(cl.Text, "fresh(") {
				allocs = true
			}
		}
		for _, o := range c.Options {
			if o == "allocates" {
				allocs = true
			}
		}
		_ = allocs
		st.assume(Le(st.next, nn), false)
		var mods []modTarget
		for _, m := range c.Modifies {
			err := ex.withSpec(func() { mods = append(mods, oldEnv.modTargets(m)...) })
			if err != "" {
				panic(unsupported("modifies of " + c.Key + ": " + err))
			}
		}
		for _, m := range mods {
			cur := ex.heapMap(st, m.name, &m.leaf)
			ex.noteWrite(m.name, keysOrAny(m))
			any := m.keys == nil
			for _, k := range m.keys {
				if k == nil {
					any = true
				}
			}
			if !any {
				f := ex.fresh("m", m.leaf.sort)
				f.serial = ex.serial
				st.assume(ex.leafRange(f, m.leaf, nil), false)
				if m.leaf.ref {
					st.assume(Lt(f, nn), false)
				}
				v := f
				if m.cond != tTrue {
					v = Ite(m.cond, f, ex.sel(st, cur, m.keys, m.leaf))
				}
				st.heap[m.name] = Store(cur, m.keys, v)
				continue
			}
			nb := ex.newBase("m."+m.name, m.name, cur.arity, cur.esort)
			if m.keys == nil && m.cond == tTrue {
				st.heap[m.name] = nb
				if g := ex.specs.Ghosts[strings.TrimPrefix(m.name, "ghost.")]; g != nil && g.Obj && g.Sort == SBool {
					st.assume(g.notYet(ex, nb, nn), false)
				}
				continue
			}
			bvs := make([]*Term, cur.arity)
			var cs []*Term
			for i := range bvs {
				bvs[i] = Bound(fmt.Sprintf("k%d", i), SInt)
				if m.keys != nil && m.keys[i] != nil {
					cs = append(cs, Eq(bvs[i], m.keys[i]))
				}
			}
			cs = append(cs, m.cond)
			st.heap[m.name] = HavocMap(cur, nb, bvs, And(cs...))
		}
		st.next = nn
	}
	// results
	rts := ex.resultTypes(sig, ts)
	var results []sval
	for i, t := range rts {
		var part Val
		freshRes := false
		for _, cl := range c.Ensures {
			if cl.Text == "fresh(result)" && len(rts) == 1 || cl.Text == fmt.Sprintf("fresh(result%d)", i) {
				freshRes = true
			}
		}
		for _, l := range ex.p.layout(t) {
			if freshRes && l.ref {
				r := ex.alloc(st)
				part = append(part, r)
				if pt, ok := t.Underlying().(*types.Pointer); ok {
					// the new object's contents are whatever the contract says
					et := pt.Elem()
					var v Val
					for _, fl := range ex.p.layout(et) {
						f := ex.fresh("nf", fl.sort)
						f.serial = ex.serial
						st.assume(ex.leafRange(f, fl, st.next), false)
						v = append(v, f)
					}
					ex.write(st, &Loc{tag: IntC(kObj), base: r, idx: IntC(0), root: et, typ: et}, v)
				}
				continue
			}
			if freshRes && l.role == "tag" {
				part = append(part, IntC(kObj))
				continue
			}
			if freshRes && l.role == "idx" {
				part = append(part, IntC(0))
				continue
			}
			f := ex.fresh("r", l.sort)
			f.serial = ex.serial
			st.assume(ex.leafRange(f, l, st.next), false)
			part = append(part, f)
		}
		ex.wellFormed(st, part, t)
		results = append(results, sval{part, t})
	}
	env.st = st
	env.bindResults(results)
	// defining equations first
	done := map[*Clause]bool{}
	for _, cl := range c.Ensures {
		for _, eqn := range conjuncts(cl.Expr) {
			b, ok := eqn.(*ast.BinaryExpr)
			if !ok || b.Op != token.EQL {
				continue
			}
			if id, ok := b.X.(*ast.Ident); ok && strings.HasPrefix(id.Name, "result") {
				for i := range results {
					if id.Name == fmt.Sprintf("result%d", i) || id.Name == "result" && len(results) == 1 {
						var y sval
						err := ex.withSpec(func() { y = env.eval(b.Y) })
						if err != "" || len(y.v) != len(results[i].v) || isUntypedNil(y.t) || isIface(y.t) != isIface(results[i].t) {
							continue
						}
						self := false
						for _, yt := range y.v {
							for _, r := range results {
								for _, rt := range r.v {
									if Syms(yt)[rt] {
										self = true
									}
								}
							}
						}
						if !self {
							nv := make(Val, len(y.v))
							for j := range nv {
								nv[j] = coerce(y.v[j], results[i].v[j].sort)
							}
							results[i].v = nv
							env.bindResults(results)
							if len(conjuncts(cl.Expr)) == 1 {
								done[cl] = true
							}
						}
					}
				}
				continue
			}
			// location == E, for a location listed in modifies
			for _, m := range c.Modifies {
				if exprStr(m.Expr) != exprStr(b.X) {
					continue
				}
				var y sval
				var l *Loc
				var t types.Type
				err := ex.withSpec(func() {
					y = env.eval(b.Y)
					l, t = env.with(old).loc(b.X)
				})
				if err != "" || l == nil || len(y.v) != len(ex.p.layout(t)) || isUntypedNil(y.t) || isIface(y.t) != isIface(t) {
					continue
				}
				cur := ex.readLoc(st, l)
				self := false
				for _, yt := range y.v {
					for _, ct := range cur {
						if Syms(yt)[ct] {
							self = true
						}
					}
				}
				if self {
					continue
				}
				fresh := true
				for _, ct := range cur {
					if ct.op != OVar {
						fresh = false
					}
				}
				if !fresh {
					continue
				}
				ex.write(st, l, y.v)
				if len(conjuncts(cl.Expr)) == 1 {
					done[cl] = true
				}
			}
		}
	}
	for _, cl := range c.Ensures {
		if done[cl] {
			continue
		}
		var g *Term
		err := ex.withSpec(func() { g = env.evalBool(cl.Expr) })
		if err != "" {
			panic(unsupported("ensures of " + c.Key + ": " + err))
		}
		st.assume(g, false)
	}
	var out Val
	for _, r := range results {
		out = append(out, r.v...)
	}
	return out
}

func keysOrAny(m modTarget) []*Term {
	if m.keys == nil {
		return nil
	}
	out := make([]*Term, len(m.keys))
	for i, k := range m.keys {
		if k == nil {
			k = Bound("any", SInt)
		}
		out[i] = k
	}
	return out
}

func conjuncts(e ast.Expr) []ast.Expr {
	e = ast.Unparen(e)
	if b, ok := e.(*ast.BinaryExpr); ok && b.Op == token.LAND {
		return append(conjuncts(b.X), conjuncts(b.Y)...)
	}
	return []ast.Expr{e}
}

// callOpaque: a call of an unknown function value under a functype contract.
func (ex *Exec) callOpaque(st *State, c *Contract, fv *Term, t types.Type, args []Val, pos token.Pos) Val {
	sig := t.Underlying().(*types.Signature)
	ex.assumed["callbacks of type "+c.Key+" satisfy the functype contract in "+c.File] = true
	if c.Pure {
		a := []*Term{fv}
		for _, v := range args {
			a = append(a, v...)
		}
		var out Val
		for i := 0; i < sig.Results().Len(); i++ {
			out = append(out, ex.pureCall(st, c.Key, ex.subT(sig.Results().At(i).Type()), a)...)
		}
		return out
	}
	if len(c.Params) == sig.Params().Len() {
		return ex.applyContract(st, c, sig, nil, nil, args, pos, nil)
	}
	// one more parameter: the function value itself comes first
	return ex.applyContract(st, c, sig, Val{fv}, types.NewSignatureType(nil, nil, nil, nil, nil, false), args, pos, nil)
}

// promoted is the path of a field of t, through the structs it is embedded in.
func promoted(t types.Type, pkg *types.Package, name string) string {
	o, index, indirect := types.LookupFieldOrMethod(t, true, pkg, name)
	if v, ok := o.(*types.Var); !ok || !v.IsField() || indirect {
		return name
	}
	var parts []string
	for _, i := range index {
		f := t.Underlying().(*types.Struct).Field(i)
		parts = append(parts, f.Name())
		t = f.Type()
	}
	return strings.Join(parts, ".")
}
