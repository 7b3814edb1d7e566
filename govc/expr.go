package main

// Expression evaluation and calls.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strconv"
)

func constTerm(v constant.Value, t types.Type) *Term {
	switch v.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(v))
	case constant.String:
		return internString(constant.StringVal(v))
	}
	s := SInt
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		s = SReal
	}
	r := new(big.Rat)
	switch x := constant.Val(constant.ToFloat(v)).(type) {
	case int64:
		r.SetInt64(x)
	case *big.Int:
		r.SetInt(x)
	case *big.Rat:
		r.Set(x)
	case *big.Float:
		x.Rat(r)
	}
	if s == SReal {
		// a float constant is read as the shortest decimal that denotes it, as specifications write it
		if f, _ := constant.Float64Val(v); !math.IsInf(f, 0) && math.Abs(f) != math.MaxFloat64 {
			if d, ok := new(big.Rat).SetString(strconv.FormatFloat(f, 'g', -1, 64)); ok {
				r = d
			}
		}
	}
	if s == SInt && v.Kind() == constant.Int {
		if bi, ok := constant.Val(v).(*big.Int); ok {
			r.SetInt(bi)
		}
	}
	return Num(r, s)
}

var strIDs = map[string]int64{}

func internString(s string) *Term {
	if _, ok := strIDs[s]; !ok {
		strIDs[s] = int64(len(strIDs) + 1)
	}
	return IntC(strIDs[s])
}

func isIface(t types.Type) bool {
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func isUntypedNil(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

// convertTo adapts a value to an assignment target (interface boxing, nil, numeric sort).
func (ex *Exec) convertTo(st *State, v Val, from, to types.Type) Val {
	if isUntypedNil(from) {
		return ex.zero(to)
	}
	if isIface(to) && !isIface(from) {
		return ex.box(st, v, from)
	}
	ls := ex.p.layout(to)
	if len(ls) != len(v) {
		if _, ok := types.Unalias(from).(*types.TypeParam); ok {
			return v
		}
		panic(unsupported(fmt.Sprintf("convert %s to %s", from, to)))
	}
	out := make(Val, len(v))
	for i := range v {
		out[i] = coerce(v[i], ls[i].sort)
	}
	return out
}

func (ex *Exec) box(st *State, v Val, from types.Type) Val {
	tag := ex.p.tagOf(from)
	if pt, ok := from.Underlying().(*types.Pointer); ok {
		if !ex.p.multi[typeName(pt.Elem())] {
			return Val{tag, v[0]}
		}
		if v[0].isConst() && v[0].rat.Cmp(ratOne) == 0 {
			return Val{tag, v[1]}
		}
		if v[0].op == OApp && v[0].name == "mkref.tag" {
			return Val{tag, v[0].args[0]}
		}
		return Val{tag, App("mkref", SInt, v...)}
	}
	return Val{tag, App("box:"+typeName(from), SInt, v...)}
}

func (ex *Exec) unbox(st *State, v Val, t types.Type) Val {
	if isIface(t) {
		return v
	}
	ref := v[1]
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if !ex.p.multi[typeName(pt.Elem())] {
			return Val{ref}
		}
		if ref.op == OApp && ref.name == "mkref" {
			return Val{ref.args[0], ref.args[1], ref.args[2]}
		}
		return Val{Ite(Eq(ref, IntC(0)), IntC(0), IntC(kObj)), ref, IntC(0)}
	}
	if ref.op == OApp && ref.name == "box:"+typeName(t) {
		return Val(ref.args)
	}
	ls := ex.p.layout(t)
	out := make(Val, len(ls))
	for i, l := range ls {
		out[i] = App("unbox:"+typeName(t)+l.path, l.sort, ref)
		st.assume(ex.leafRange(out[i], l, nil), false)
	}
	return out
}

func (ex *Exec) isNil(v Val, t types.Type) *Term { return Eq(v[0], IntC(0)) }

func (ex *Exec) equal(st *State, a, b Val, ta, tb types.Type) *Term {
	if isUntypedNil(ta) && isUntypedNil(tb) {
		return tTrue
	}
	if isUntypedNil(ta) {
		return ex.isNil(b, tb)
	}
	if isUntypedNil(tb) {
		return ex.isNil(a, ta)
	}
	if isIface(ta) && !isIface(tb) {
		b = ex.box(st, b, tb)
	} else if isIface(tb) && !isIface(ta) {
		a = ex.box(st, a, ta)
	}
	if len(a) != len(b) {
		panic(unsupported("comparison arity"))
	}
	var cs []*Term
	for i := range a {
		x, y := numSort(a[i], b[i])
		if ex.ieee() && x.sort == SReal {
			x, y = ex.resolve(st, x), ex.resolve(st, y)
			if x == nanTerm || y == nanTerm {
				return tFalse
			}
		}
		cs = append(cs, Eq(x, y))
	}
	return And(cs...)
}

// nanTerm is the float value "not a number"; it only arises under "option ieee".
var nanTerm = App("nan!", SReal)

func (ex *Exec) ieee() bool { return ex.contract != nil && ex.contract.IEEE && ex.specDepth == 0 }

// resolve forks until t is nanTerm or certainly a number.
func (ex *Exec) resolve(st *State, t *Term) *Term {
	for t != nanTerm && Syms(t)[nanTerm] {
		t = st.simp(t)
		if t == nanTerm || !Syms(t)[nanTerm] {
			break
		}
		if t.op != OIte {
			panic(unsupported("a value that may be NaN inside a larger term"))
		}
		if ex.branch(st, t.args[0]) {
			t = t.args[1]
		} else {
			t = t.args[2]
		}
	}
	return t
}

func (ex *Exec) resolveAll(st *State, v Val) (Val, bool) {
	nan := false
	out := append(Val{}, v...)
	for i, t := range out {
		if t.sort == SReal {
			out[i] = ex.resolve(st, t)
			nan = nan || out[i] == nanTerm
		}
	}
	return out, nan
}

func unsBits(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Uint, types.Uint64, types.Uintptr:
		return 64
	case types.Uint32:
		return 32
	case types.Uint16:
		return 16
	case types.Uint8:
		return 8
	}
	return 0
}

func pow2(n int) *Term {
	return Num(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(n))), SInt)
}

func (ex *Exec) arith(st *State, op token.Token, x, y *Term, t types.Type) *Term {
	if x.sort == SReal || y.sort == SReal {
		x, y = coerce(x, SReal), coerce(y, SReal)
		if ex.ieee() {
			x, y = ex.resolve(st, x), ex.resolve(st, y)
			if x == nanTerm || y == nanTerm {
				return nanTerm
			}
			if op == token.QUO && !ex.branch(st, Ne(y, RealC(0))) {
				// x/0: not a number, or an infinity with the sign of x (the divisor is taken as +0)
				switch {
				case ex.branch(st, Eq(x, RealC(0))):
					return nanTerm
				case ex.branch(st, Lt(RealC(0), x)):
					return Num(maxFloatRat, SReal)
				}
				return Num(negMaxFloatRat, SReal)
			}
		}
		switch op {
		case token.ADD:
			return Add(x, y)
		case token.SUB:
			return Sub(x, y)
		case token.MUL:
			return Mul(x, y)
		case token.QUO:
			ex.defCheck(st, Ne(y, RealC(0)), "divisor is not zero")
			return Div(x, y)
		}
		panic(unsupported("float op " + op.String()))
	}
	bits := unsBits(t)
	wrap := func(r *Term) *Term {
		if bits > 0 {
			return IMod(r, pow2(bits))
		}
		return r
	}
	bothC := x.isConst() && y.isConst() && x.rat.IsInt() && y.rat.IsInt()
	switch op {
	case token.ADD:
		return wrap(Add(x, y))
	case token.SUB:
		return wrap(Sub(x, y))
	case token.MUL:
		return wrap(Mul(x, y))
	case token.QUO:
		if bits > 0 || y.isConst() && st.simp(Le(IntC(0), x)) == tTrue {
			return IDiv(x, y)
		}
		if bothC && y.rat.Sign() != 0 {
			return Num(new(big.Rat).SetInt(new(big.Int).Quo(x.rat.Num(), y.rat.Num())), SInt)
		}
		// truncated
		return Ite(Le(IntC(0), x), IDiv(x, y), Neg(IDiv(Neg(x), y)))
	case token.REM:
		if bothC && y.rat.Sign() != 0 {
			return Num(new(big.Rat).SetInt(new(big.Int).Rem(x.rat.Num(), y.rat.Num())), SInt)
		}
		if y.isConst() {
			if bits > 0 || st.simp(Le(IntC(0), x)) == tTrue {
				return IMod(x, y)
			}
			return Ite(Le(IntC(0), x), IMod(x, y), Neg(IMod(Neg(x), y)))
		}
		r := App("imod", SInt, x, y)
		// facts for the common uses
		z := IntC(0)
		pos := And(Le(z, x), Lt(z, y))
		facts := And(Implies(pos, And(Le(z, r), Lt(r, y))),
			Implies(And(pos, Lt(x, y)), Eq(r, x)),
			Implies(And(pos, Le(y, x), Lt(x, Add(y, y))), Eq(r, Sub(x, y))))
		if len(boundVars(r)) == 0 {
			symFactAdd(r, facts)
		}
		return r
	case token.SHL:
		if y.isConst() {
			k := int(y.rat.Num().Int64())
			return wrap(Mul(x, pow2(k)))
		}
		return wrap(App("shl", SInt, x, y))
	case token.SHR:
		if y.isConst() {
			k := int(y.rat.Num().Int64())
			return IDiv(x, pow2(k))
		}
		return App("shr", SInt, x, y)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if bothC && x.rat.Sign() >= 0 && y.rat.Sign() >= 0 {
			r := new(big.Int)
			switch op {
			case token.AND:
				r.And(x.rat.Num(), y.rat.Num())
			case token.OR:
				r.Or(x.rat.Num(), y.rat.Num())
			case token.XOR:
				r.Xor(x.rat.Num(), y.rat.Num())
			default:
				r.AndNot(x.rat.Num(), y.rat.Num())
			}
			return Num(new(big.Rat).SetInt(r), SInt)
		}
		if op == token.AND_NOT {
			return App("bandnot", SInt, x, y)
		}
		if x.isConst() || (!y.isConst() && x.id > y.id) {
			x, y = y, x
		}
		if y.isZero() {
			if op == token.AND {
				return IntC(0)
			}
			return x
		}
		if x == y {
			if op == token.XOR {
				return IntC(0)
			}
			return x
		}
		name := map[token.Token]string{token.AND: "band", token.OR: "bor", token.XOR: "bxor"}[op]
		if y.isConst() && op == token.AND {
			// mask 2^k-1
			m := new(big.Int).Add(y.rat.Num(), big.NewInt(1))
			if m.Sign() > 0 && new(big.Int).And(m, y.rat.Num()).Sign() == 0 && bits > 0 {
				return IMod(x, Num(new(big.Rat).SetInt(m), SInt))
			}
		}
		r := App(name, SInt, x, y)
		if bits > 0 && len(boundVars(r)) == 0 {
			f := And(Le(IntC(0), r), Lt(r, pow2(bits)))
			f = And(f, Eq(r, App(name, SInt, y, x)))
			if op == token.AND {
				f = And(f, Le(r, x), Le(r, y))
			}
			if op == token.OR {
				f = And(f, Le(x, r), Le(y, r))
			}
			symFactAdd(r, f)
		}
		return r
	}
	panic(unsupported("int op " + op.String()))
}

func symFactAdd(t, f *Term) {
	for _, g := range symFacts[t] {
		if g == f {
			return
		}
	}
	symFacts[t] = append(symFacts[t], f)
}

// defCheck: the real-number reading of a float operation needs its argument in the domain.
func (ex *Exec) defCheck(st *State, g *Term, what string) {
	if ex.contract == nil || ex.contract.NoDef || ex.contract.IEEE || ex.specDepth > 0 {
		return
	}
	g = st.simp(g)
	if g == tTrue {
		return
	}
	ex.assertOb(st, "defined", what, ex.contract.Props, g, nil, token.NoPos)
	st.assume(g, false)
}

// isSimple: evaluating e has no side effect, forks nothing and is total
func (ex *Exec) isSimple(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if tv, has := ex.p.info.Types[n.Fun]; has && tv.IsType() {
				return true
			}
			if id, isId := ast.Unparen(n.Fun).(*ast.Ident); isId {
				if b, isB := ex.p.info.Uses[id].(*types.Builtin); isB && (b.Name() == "len" || b.Name() == "cap" || b.Name() == "min" || b.Name() == "max") {
					return true
				}
			}
			if se, isS := ast.Unparen(n.Fun).(*ast.SelectorExpr); isS {
				if f, isF := ex.p.info.Uses[se.Sel].(*types.Func); isF && f.Pkg() != nil && f.Pkg().Path() == "math" && f.Name() != "Sqrt" && f.Name() != "Acos" && f.Name() != "Mod" {
					return true
				}
			}
			ok = false
		case *ast.FuncLit, *ast.TypeAssertExpr:
			ok = false
		case *ast.BinaryExpr:
			if ex.contract != nil && ex.contract.IEEE {
				switch n.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ, token.ADD, token.SUB, token.MUL:
					ok = false
				}
			}
			if n.Op == token.QUO {
				if tv, has := ex.p.info.Types[n.Y]; !has || tv.Value == nil {
					ok = false
				}
			}
		case *ast.IndexExpr:
			if ex.contract != nil && ex.contract.Safety {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (ex *Exec) eval(st *State, e ast.Expr) Val { return ex.evalX(st, e, true) }

// evalSplit lets calls at the top of e fork the path instead of being merged.
func (ex *Exec) evalSplit(st *State, e ast.Expr) Val { return ex.evalX(st, e, false) }

func (ex *Exec) evalMulti(st *State, e ast.Expr) Val { return ex.evalX(st, e, false) }

func (ex *Exec) evalX(st *State, e ast.Expr, merge bool) Val {
	if tv, ok := ex.p.info.Types[e]; ok && tv.Value != nil {
		return Val{constTerm(tv.Value, tv.Type)}
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return ex.evalX(st, e.X, merge)
	case *ast.Ident:
		return ex.evalIdent(st, e)
	case *ast.BasicLit:
		panic(unsupported("literal"))
	case *ast.SelectorExpr:
		return ex.evalSelector(st, e)
	case *ast.StarExpr:
		return ex.read(st, ex.lvalue(st, e))
	case *ast.UnaryExpr:
		return ex.evalUnary(st, e)
	case *ast.BinaryExpr:
		return ex.evalBinary(st, e)
	case *ast.IndexExpr:
		if tv, ok := ex.p.info.Types[e.X]; ok {
			if _, isSig := tv.Type.Underlying().(*types.Signature); isSig {
				return ex.evalFuncRef(st, e.X)
			}
		}
		if v, at := ex.constTable(e.X); at != nil {
			i := ex.eval(st, e.Index)[0]
			ex.boundsCheck(st, i, IntC(at.Len()), e)
			return ex.arrayGet(v, at, i)
		}
		if at, ok := ex.typeOf(e.X).Underlying().(*types.Array); ok && (!isAddressable(e.X) || ex.isConstGlobal(e.X)) {
			v := ex.eval(st, e.X)
			i := ex.eval(st, e.Index)[0]
			return ex.arrayGet(v, at, i)
		}
		return ex.read(st, ex.lvalue(st, e))
	case *ast.SliceExpr:
		return ex.evalSlice(st, e)
	case *ast.CallExpr:
		return ex.evalCall(st, e, merge)
	case *ast.CompositeLit:
		return ex.evalComposite(st, e, ex.typeOf(e))
	case *ast.FuncLit:
		return Val{ex.closureTerm(&Closure{lit: e, frame: ex.frame()})}
	case *ast.TypeAssertExpr:
		v := ex.eval(st, e.X)
		t := ex.typeOf(e)
		if tt, ok := t.(*types.Tuple); ok {
			target := ex.subT(tt.At(0).Type())
			var okT *Term
			if isIface(target) {
				okT = ex.implTags(v[0], target)
				u := v
				out := Val{}
				z := ex.zero(target)
				for i := range u {
					out = append(out, Ite(okT, u[i], z[i]))
				}
				return append(out, okT)
			}
			okT = Eq(v[0], ex.p.tagOf(target))
			u := ex.unbox(st, v, target)
			z := ex.zero(target)
			out := Val{}
			for i := range u {
				out = append(out, Ite(okT, u[i], z[i]))
			}
			return append(out, okT)
		}
		if isIface(t) {
			return v
		}
		g := Eq(v[0], ex.p.tagOf(t))
		if ex.contract != nil && ex.contract.Safety {
			ex.assertOb(st, "typeassert", "type assertion", ex.contract.Props, g, nil, e.Pos())
		}
		st.assume(g, false)
		return ex.unbox(st, v, t)
	}
	panic(unsupported(fmt.Sprintf("expression %T", e)))
}

func (ex *Exec) implTags(tag *Term, iface types.Type) *Term {
	it := iface.Underlying().(*types.Interface)
	if it.NumMethods() == 0 {
		return Ne(tag, IntC(0))
	}
	var cs []*Term
	for _, nd := range ex.p.impls[typeName(iface)] {
		cs = append(cs, Eq(tag, ex.p.tagOf(types.NewPointer(nd))))
	}
	return Or(cs...)
}

func isAddressable(e ast.Expr) bool {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return true
	case *ast.IndexExpr:
		return true
	case *ast.StarExpr:
		return true
	default:
		_ = e
	}
	return false
}

func (ex *Exec) arrayGet(v Val, u *types.Array, i *Term) Val {
	n := len(ex.p.layout(ex.subT(u.Elem())))
	if i.isConst() {
		k := int(i.rat.Num().Int64())
		return v[k*n : (k+1)*n]
	}
	var out Val
	for k := int(u.Len()) - 1; k >= 0; k-- {
		s := v[k*n : (k+1)*n]
		if out == nil {
			out = append(Val{}, s...)
			continue
		}
		for j := range out {
			out[j] = Ite(Eq(i, IntC(int64(k))), s[j], out[j])
		}
	}
	return out
}

func (ex *Exec) evalIdent(st *State, e *ast.Ident) Val {
	o := ex.p.info.Uses[e]
	if o == nil {
		o = ex.p.info.Defs[e]
	}
	switch o := o.(type) {
	case *types.Nil:
		return Val{IntC(0)}
	case *types.Var:
		if k, ok := ex.findVar(st, o); ok {
			return ex.read(st, ex.varLoc(st, k, o))
		}
		if o.Parent() == ex.p.pkg.Scope() {
			if v, ok := ex.constGlobal(st, o); ok {
				return v
			}
			return ex.read(st, ex.globalLoc(o))
		}
		panic(unsupported("unknown variable " + e.Name))
	case *types.Func:
		return ex.evalFuncRef(st, e)
	case *types.Const:
		return Val{constTerm(o.Val(), ex.typeOf(e))}
	}
	panic(unsupported("identifier " + e.Name))
}

// constGlobal evaluates package variables that are never assigned after their initialiser.
func (ex *Exec) constGlobal(st *State, o *types.Var) (Val, bool) {
	init, ok := ex.p.globalInit()[o]
	if !ok {
		return nil, false
	}
	v := ex.eval(st, init)
	return ex.convertTo(st, v, ex.typeOf(init), o.Type()), true
}

func (ex *Exec) isConstGlobal(e ast.Expr) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return false
	}
	o, ok := ex.p.info.Uses[id].(*types.Var)
	if !ok || o.Parent() != ex.p.pkg.Scope() {
		return false
	}
	_, ok = ex.p.globalInit()[o]
	return ok
}

// constTable: package-level slices of constants that are only indexed, measured and ranged over.
func (ex *Exec) constTable(e ast.Expr) (Val, *types.Array) {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return nil, nil
	}
	o, ok := ex.p.info.Uses[id].(*types.Var)
	if !ok {
		return nil, nil
	}
	return ex.constTableVar(o)
}

func (ex *Exec) constTableVar(o *types.Var) (Val, *types.Array) {
	if o.Parent() != ex.p.pkg.Scope() {
		return nil, nil
	}
	cl := ex.p.constTables()[o]
	if cl == nil {
		return nil, nil
	}
	et := o.Type().Underlying().(*types.Slice).Elem()
	var v Val
	for _, el := range cl.Elts {
		v = append(v, constTerm(ex.p.info.Types[el].Value, et))
	}
	return v, types.NewArray(et, int64(len(v)))
}

var constTabs map[*types.Var]*ast.CompositeLit

func (p *Prog) constTables() map[*types.Var]*ast.CompositeLit {
	if constTabs != nil {
		return constTabs
	}
	m := map[*types.Var]*ast.CompositeLit{}
	for _, f := range p.files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Names) != 1 || len(vs.Values) != 1 {
					continue
				}
				cl, ok := vs.Values[0].(*ast.CompositeLit)
				v, ok2 := p.info.Defs[vs.Names[0]].(*types.Var)
				if !ok || !ok2 || v.Exported() || len(cl.Elts) == 0 {
					continue
				}
				st, ok := v.Type().Underlying().(*types.Slice)
				if !ok {
					continue
				}
				if _, ok := st.Elem().Underlying().(*types.Basic); !ok {
					continue
				}
				good := true
				for _, el := range cl.Elts {
					if tv, ok := p.info.Types[el]; !ok || tv.Value == nil {
						good = false
					}
				}
				if good {
					m[v] = cl
				}
			}
		}
	}
	for _, f := range p.files {
		allowed := map[*ast.Ident]bool{}
		allow := func(e ast.Expr) {
			if id, ok := ast.Unparen(e).(*ast.Ident); ok {
				allowed[id] = true
			}
		}
		forbid := map[ast.Expr]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					forbid[ast.Unparen(l)] = true
				}
			case *ast.IncDecStmt:
				forbid[ast.Unparen(n.X)] = true
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					forbid[ast.Unparen(n.X)] = true
				}
			case *ast.IndexExpr:
				if !forbid[n] {
					allow(n.X)
				}
			case *ast.RangeStmt:
				allow(n.X)
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "len" && len(n.Args) == 1 {
					allow(n.Args[0])
				}
			}
			return true
		})
		ast.Inspect(f, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok && !allowed[id] {
				if v, ok := p.info.Uses[id].(*types.Var); ok {
					delete(m, v)
				}
			}
			return true
		})
	}
	constTabs = m
	return m
}

var globalInits map[*types.Var]ast.Expr

func (p *Prog) globalInit() map[*types.Var]ast.Expr {
	if globalInits != nil {
		return globalInits
	}
	m := map[*types.Var]ast.Expr{}
	for _, f := range p.files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for i, n := range vs.Names {
					if v, ok := p.info.Defs[n].(*types.Var); ok && i < len(vs.Values) {
						m[v] = vs.Values[i]
					}
				}
			}
		}
	}
	// drop those assigned or addressed anywhere (exported function variables stay: listed as an assumption)
	for _, f := range p.files {
		ast.Inspect(f, func(n ast.Node) bool {
			drop := func(e ast.Expr) {
				for {
					switch x := ast.Unparen(e).(type) {
					case *ast.Ident:
						if v, ok := p.info.Uses[x].(*types.Var); ok {
							delete(m, v)
						}
						return
					case *ast.SelectorExpr:
						e = x.X
					case *ast.IndexExpr:
						e = x.X
					case *ast.StarExpr:
						e = x.X
					default:
						return
					}
				}
			}
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					drop(l)
				}
			case *ast.IncDecStmt:
				drop(n.X)
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					drop(n.X)
				}
			}
			return true
		})
	}
	// heap-allocating initialisers stay symbolic
	for v, e := range m {
		bad := false
		ast.Inspect(e, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.CallExpr:
				if tv, ok := p.info.Types[n.Fun]; !ok || !tv.IsType() {
					if tv2, ok := p.info.Types[ast.Expr(n)]; !ok || tv2.Value == nil {
						bad = true
					}
				}
			case *ast.CompositeLit:
				if _, ok := p.info.TypeOf(n).Underlying().(*types.Slice); ok {
					bad = true
				}
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					bad = true
				}
			}
			return true
		})
		if bad {
			delete(m, v)
		}
	}
	globalInits = m
	return m
}

func (ex *Exec) closureTerm(c *Closure) *Term {
	var key string
	if c.fn != nil {
		key = "fn:" + funcKey(c.fn)
		if c.recv != nil {
			key += fmt.Sprint("@", c.recv)
		}
	} else {
		key = fmt.Sprintf("lit:%d:%d", c.lit.Pos(), c.frame.id)
	}
	id, ok := closureIDs[key]
	if !ok {
		id = int64(len(closureIDs) + 1000001)
		closureIDs[key] = id
	}
	t := IntC(id)
	c.term = t
	ex.closures[t.rat.RatString()] = c
	return t
}

var closureIDs = map[string]int64{}

func (ex *Exec) evalFuncRef(st *State, e ast.Expr) Val {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		if f, ok := ex.p.info.Uses[e].(*types.Func); ok {
			return Val{ex.closureTerm(&Closure{fn: f})}
		}
	case *ast.SelectorExpr:
		if f, ok := ex.p.info.Uses[e.Sel].(*types.Func); ok {
			return Val{ex.closureTerm(&Closure{fn: f})}
		}
	}
	panic(unsupported("function reference"))
}

func (ex *Exec) evalSelector(st *State, e *ast.SelectorExpr) Val {
	sel := ex.p.info.Selections[e]
	if sel == nil {
		// qualified identifier or package-level
		switch o := ex.p.info.Uses[e.Sel].(type) {
		case *types.Const:
			return Val{constTerm(o.Val(), ex.typeOf(e))}
		case *types.Func:
			return ex.evalFuncRef(st, e)
		case *types.Var:
			return Val{App("ext:"+o.Pkg().Name()+"."+o.Name(), SInt)}
		}
		panic(unsupported("selector " + e.Sel.Name))
	}
	switch sel.Kind() {
	case types.FieldVal:
		if _, isPtr := ex.typeOf(e.X).Underlying().(*types.Pointer); !isPtr && !isAddressable(e.X) {
			return ex.read(st, ex.fieldLoc(st, ex.lvalue(st, e.X), ex.typeOf(e.X), sel.Index()))
		}
		return ex.read(st, ex.lvalue(st, e))
	case types.MethodVal:
		fn := sel.Obj().(*types.Func)
		recv := ex.recvFor(st, e, sel)
		return Val{ex.closureTerm(&Closure{fn: fn, recv: recv, recvT: ex.typeOf(e.X)})}
	case types.MethodExpr:
		fn := sel.Obj().(*types.Func)
		return Val{ex.closureTerm(&Closure{fn: fn})}
	}
	panic(unsupported("selector kind"))
}

func (ex *Exec) addrOf(st *State, l *Loc) Val {
	if l.local {
		panic(unsupported("address of unboxed local"))
	}
	if l.alts != nil {
		var v Val
		for i := len(l.alts) - 1; i >= 0; i-- {
			a := ex.addrOf(st, l.alts[i].loc)
			if v == nil {
				v = a
				continue
			}
			nv := Val{}
			for j := range a {
				nv = append(nv, Ite(l.alts[i].cond, a[j], v[j]))
			}
			v = nv
		}
		return v
	}
	if l.path == "" {
		if ex.p.multi[typeName(l.typ)] {
			return Val{l.tag, l.base, l.idx}
		}
		return Val{l.base}
	}
	k := ex.p.fieldKindIndex(typeName(l.typ), "field:"+typeName(l.root)+"."+l.path)
	if nt, ok := l.typ.(*types.Named); k < 0 && ok && nt.Obj().Pkg() != nil && nt.Obj().Pkg() != ex.p.pkg {
		// an object of another package: nothing here looks inside
		return Val{App("addr:"+typeName(l.root)+"."+l.path, SInt, l.base)}
	}
	if k < 0 {
		panic(unsupported("address of field " + typeName(l.root) + "." + l.path))
	}
	return Val{IntC(k), l.base, IntC(0)}
}

func (ex *Exec) evalUnary(st *State, e *ast.UnaryExpr) Val {
	switch e.Op {
	case token.AND:
		if cl, ok := ast.Unparen(e.X).(*ast.CompositeLit); ok {
			t := ex.typeOf(cl)
			v := ex.evalComposite(st, cl, t)
			r := ex.allocObj(st, t, v)
			return ex.ptrVal(t, kObj, r, IntC(0))
		}
		return ex.addrOf(st, ex.lvalue(st, e.X))
	case token.NOT:
		return Val{Not(ex.eval(st, e.X)[0])}
	case token.SUB:
		v := ex.eval(st, e.X)[0]
		if b := unsBits(ex.typeOf(e)); b > 0 {
			return Val{IMod(Neg(v), pow2(b))}
		}
		if ex.ieee() && v.sort == SReal {
			if v = ex.resolve(st, v); v == nanTerm {
				return Val{v}
			}
		}
		return Val{Neg(v)}
	case token.ADD:
		return ex.eval(st, e.X)
	case token.XOR:
		v := ex.eval(st, e.X)[0]
		if b := unsBits(ex.typeOf(e)); b > 0 {
			return Val{Sub(Sub(pow2(b), IntC(1)), v)}
		}
		return Val{Sub(Neg(v), IntC(1))}
	}
	panic(unsupported("unary " + e.Op.String()))
}

func (ex *Exec) tmpVar(e ast.Node, n int) types.Object {
	k := fmt.Sprintf("%d:%d", e.Pos(), n)
	if o, ok := tmpVars[k]; ok {
		return o
	}
	o := types.NewVar(e.Pos(), nil, "$t", types.Typ[types.Int])
	tmpVars[k] = o
	return o
}

var tmpVars = map[string]types.Object{}

func (ex *Exec) evalBinary(st *State, e *ast.BinaryExpr) Val {
	switch e.Op {
	case token.LAND, token.LOR:
		l := ex.eval(st, e.X)[0]
		l = st.simp(l)
		if e.Op == token.LAND && l == tFalse || e.Op == token.LOR && l == tTrue {
			return Val{l}
		}
		if l == tTrue || l == tFalse || ex.isSimple(e.Y) {
			r := ex.eval(st, e.Y)[0]
			if e.Op == token.LAND {
				return Val{And(l, r)}
			}
			return Val{Or(l, r)}
		}
		key := varKey{ex.frame().id, ex.tmpVar(e, 0)}
		ex.varTypes[key] = types.Typ[types.Bool]
		ex.mergeRegion(st, func(st *State) {
			if ex.branch(st, l) == (e.Op == token.LAND) {
				st.vars[key] = Val{ex.eval(st, e.Y)[0]}
			} else {
				st.vars[key] = Val{Bool(e.Op == token.LOR)}
			}
		})
		r := st.vars[key]
		delete(st.vars, key)
		return Val{st.simp(r[0])}
	}
	x := ex.eval(st, e.X)
	y := ex.eval(st, e.Y)
	tx, ty := ex.typeOf(e.X), ex.typeOf(e.Y)
	switch e.Op {
	case token.EQL:
		return Val{ex.equal(st, x, y, tx, ty)}
	case token.NEQ:
		return Val{Not(ex.equal(st, x, y, tx, ty))}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		a, b := numSort(x[0], y[0])
		if ex.ieee() && a.sort == SReal {
			a, b = ex.resolve(st, a), ex.resolve(st, b)
			if a == nanTerm || b == nanTerm {
				return Val{tFalse}
			}
		}
		switch e.Op {
		case token.LSS:
			return Val{Lt(a, b)}
		case token.LEQ:
			return Val{Le(a, b)}
		case token.GTR:
			return Val{Lt(b, a)}
		}
		return Val{Le(b, a)}
	}
	if b, ok := tx.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return Val{App("strcat", SInt, x[0], y[0])}
	}
	if (e.Op == token.QUO || e.Op == token.REM) && x[0].sort == SInt && y[0].sort == SInt && ex.contract != nil && ex.contract.Safety {
		ex.assertOb(st, "div", "division by zero", ex.contract.Props, Ne(y[0], IntC(0)), nil, e.Pos())
	}
	return Val{ex.arith(st, e.Op, x[0], y[0], ex.typeOf(e))}
}

func (ex *Exec) evalSlice(st *State, e *ast.SliceExpr) Val {
	xt := ex.typeOf(e.X)
	var lo, hi *Term
	if e.Low != nil {
		lo = ex.eval(st, e.Low)[0]
	} else {
		lo = IntC(0)
	}
	if e.High != nil {
		hi = ex.eval(st, e.High)[0]
	}
	if pt, ok := xt.Underlying().(*types.Pointer); ok {
		xt = pt.Elem()
	}
	switch u := xt.Underlying().(type) {
	case *types.Slice:
		v := ex.eval(st, e.X)
		if hi == nil {
			hi = v[2]
		}
		if ex.contract != nil && ex.contract.Safety {
			g := And(Le(IntC(0), lo), Le(lo, hi), Le(hi, v[3]))
			ex.assertOb(st, "bounds", "slice bounds", ex.contract.Props, g, nil, e.Pos())
			st.assume(g, false)
		} else {
			st.assume(And(Le(IntC(0), lo), Le(lo, hi), Le(hi, v[3])), false)
		}
		out := Val{v[0], Add(v[1], lo), Sub(hi, lo), Sub(v[3], lo)}
		return out
	case *types.Array:
		l := ex.lvalue(st, e.X)
		if hi == nil {
			hi = IntC(u.Len())
		}
		if !l.outArr() {
			panic(unsupported("slice of array"))
		}
		g := And(Le(IntC(0), lo), Le(lo, hi), Le(hi, IntC(u.Len())))
		if ex.contract != nil && ex.contract.Safety {
			ex.assertOb(st, "bounds", "slice bounds", ex.contract.Props, g, nil, e.Pos())
		}
		st.assume(g, false)
		return Val{l.base, lo, Sub(hi, lo), Sub(IntC(u.Len()), lo)}
	}
	panic(unsupported("slice of " + xt.String()))
}

func (ex *Exec) evalComposite(st *State, e *ast.CompositeLit, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Pointer: // elided &T in nested literal
		et := ex.subT(u.Elem())
		v := ex.evalComposite(st, e, et)
		return ex.ptrVal(et, kObj, ex.allocObj(st, et, v), IntC(0))
	case *types.Struct:
		vals := make([]Val, u.NumFields())
		for i, el := range e.Elts {
			fi := i
			ve := el
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				ve = kv.Value
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == kv.Key.(*ast.Ident).Name {
						fi = j
					}
				}
			}
			ft := ex.subFieldT(t, u.Field(fi).Type())
			if ex.p.isOutlined(t, u.Field(fi)) {
				panic(unsupported("outlined array in literal"))
			}
			if typeName(ft) == "Pool" {
				vals[fi] = Val{}
				continue
			}
			vals[fi] = ex.evalElem(st, ve, ft)
		}
		var out Val
		for j := 0; j < u.NumFields(); j++ {
			if ex.p.isOutlined(t, u.Field(j)) {
				continue
			}
			if vals[j] == nil {
				out = append(out, ex.zero(ex.subFieldT(t, u.Field(j).Type()))...)
			} else {
				out = append(out, vals[j]...)
			}
		}
		return out
	case *types.Array:
		et := ex.subT(u.Elem())
		n := len(ex.p.layout(et))
		out := make(Val, 0, int(u.Len())*n)
		for i := int64(0); i < u.Len(); i++ {
			out = append(out, ex.zero(et)...)
		}
		for i, el := range e.Elts {
			k := i
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				kc := constTerm(ex.p.info.Types[kv.Key].Value, types.Typ[types.Int])
				k = int(kc.rat.Num().Int64())
				el = kv.Value
			}
			copy(out[k*n:], ex.evalElem(st, el, et))
		}
		return out
	case *types.Slice:
		et := ex.subT(u.Elem())
		vs := []Val{}
		for _, el := range e.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				panic(unsupported("keyed slice literal"))
			}
			vs = append(vs, ex.evalElem(st, el, et))
		}
		r := ex.alloc(st)
		for i, v := range vs {
			ex.write(st, &Loc{tag: IntC(kElem), base: r, idx: IntC(int64(i)), root: et, typ: et}, v)
		}
		n := IntC(int64(len(vs)))
		return Val{r, IntC(0), n, n}
	}
	panic(unsupported("composite literal " + t.String()))
}

func (ex *Exec) evalElem(st *State, e ast.Expr, t types.Type) Val {
	if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
		return ex.evalComposite(st, cl, t)
	}
	v := ex.eval(st, e)
	return ex.convertTo(st, v, ex.typeOf(e), t)
}

// recvFor evaluates the receiver operand of a method selection.
func (ex *Exec) recvFor(st *State, se *ast.SelectorExpr, sel *types.Selection) Val {
	fn := sel.Obj().(*types.Func)
	sig := fn.Type().(*types.Signature)
	idx := sel.Index()
	xt := ex.typeOf(se.X)
	cur := xt
	_, recvPtr := sig.Recv().Type().Underlying().(*types.Pointer)
	if len(idx) == 1 {
		_, isPtr := cur.Underlying().(*types.Pointer)
		if isIface(cur) {
			return ex.eval(st, se.X)
		}
		if recvPtr == isPtr {
			return ex.eval(st, se.X)
		}
		if isPtr { // value receiver through pointer
			v := ex.eval(st, se.X)
			return ex.read(st, ex.ptrLoc(v, ex.subT(deref(cur))))
		}
		return ex.addrOf(st, ex.lvalue(st, se.X))
	}
	// promoted through embedded fields
	l := ex.fieldLoc(st, ex.baseLoc(st, se.X), xt, idx[:len(idx)-1])
	ft := l.typ
	if isIface(ft) {
		return ex.read(st, l)
	}
	_, isPtr := ft.Underlying().(*types.Pointer)
	if recvPtr == isPtr {
		return ex.read(st, l)
	}
	if isPtr {
		return ex.read(st, ex.ptrLoc(ex.read(st, l), ex.subT(deref(ft))))
	}
	return ex.addrOf(st, l)
}

func (ex *Exec) evalCall(st *State, e *ast.CallExpr, merge bool) Val {
	fun := ast.Unparen(e.Fun)
	// conversion
	if tv, ok := ex.p.info.Types[fun]; ok && tv.IsType() {
		return ex.conversion(st, e.Args[0], ex.subT(types.Unalias(tv.Type)))
	}
	if ix, ok := fun.(*ast.IndexExpr); ok { // explicit instantiation
		if _, isSig := ex.p.info.TypeOf(ix).Underlying().(*types.Signature); isSig {
			if _, isFn := ex.p.info.TypeOf(ix.X).(*types.Signature); isFn {
				fun = ast.Unparen(ix.X)
			}
		}
	}
	if ix, ok := fun.(*ast.IndexListExpr); ok {
		fun = ast.Unparen(ix.X)
	}
	switch f := fun.(type) {
	case *ast.Ident:
		switch o := ex.p.info.Uses[f].(type) {
		case *types.Builtin:
			return ex.builtin(st, o.Name(), e)
		case *types.Func:
			if d := ex.p.funcs[o.Name()]; d != nil && o.Pkg() == ex.p.pkg && d.Body != nil && len(d.Body.List) == 0 && d.Type.Results == nil && ex.specs.Contracts[o.Name()] == nil {
				// an empty function (assert): its arguments are evaluated and dropped
				for _, a := range e.Args {
					ex.eval(st, a)
				}
				return nil
			}
			args := ex.evalArgs(st, e, o.Type().(*types.Signature), f)
			return ex.doCall(st, e, merge, func(st *State) Val { return ex.callFunc(st, o, nil, args, e.Pos(), ex.instSub(o, f)) })
		}
	case *ast.SelectorExpr:
		if sel := ex.p.info.Selections[f]; sel != nil {
			if sel.Kind() == types.MethodVal {
				fn := sel.Obj().(*types.Func)
				if fn.Pkg() != nil && fn.Pkg() != ex.p.pkg {
					return ex.external(st, fn, e)
				}
				recv := ex.recvFor(st, f, sel)
				args := ex.evalArgs(st, e, ex.typeOf(f).(*types.Signature), nil)
				ts := ex.recvSub(fn, sel, ex.typeOf(f.X))
				return ex.doCall(st, e, merge, func(st *State) Val { return ex.callFunc(st, fn, recv, args, e.Pos(), ts) })
			}
		} else if fn, ok := ex.p.info.Uses[f.Sel].(*types.Func); ok {
			if fn.Pkg() != ex.p.pkg {
				return ex.external(st, fn, e)
			}
		}
	case *ast.FuncLit:
		fv := ex.eval(st, f)
		args := ex.evalArgs(st, e, ex.typeOf(f).Underlying().(*types.Signature), nil)
		return ex.doCall(st, e, merge, func(st *State) Val { return ex.callValue(st, fv[0], ex.typeOf(f), args, e.Pos(), nil) })
	}
	// function value
	fv := ex.eval(st, fun)
	t := ex.typeOf(fun)
	sig := t.Underlying().(*types.Signature)
	args := ex.evalArgs(st, e, sig, nil)
	var keys []string
	switch f := fun.(type) {
	case *ast.SelectorExpr:
		if sel := ex.p.info.Selections[f]; sel != nil {
			keys = append(keys, typeName(deref(ex.typeOf(f.X)))+"."+f.Sel.Name)
			if r, path := ex.p.fieldRoot(f); r != nil {
				keys = append(keys, typeName(r)+"."+path)
			}
		}
	case *ast.Ident:
		fr := ex.frame()
		for fr != nil {
			keys = append(keys, fr.name+"."+f.Name)
			fr = fr.parent
		}
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		keys = append(keys, n.Obj().Name())
	}
	return ex.doCall(st, e, merge, func(st *State) Val { return ex.callValue(st, fv[0], t, args, e.Pos(), keys) })
}

// doCall runs a call, merging the paths of an inlined callee when asked to.
func (ex *Exec) doCall(st *State, e ast.Node, merge bool, f func(*State) Val) Val {
	if !merge && !(ex.contract != nil && ex.contract.Merge == "calls") {
		return f(st)
	}
	key := varKey{ex.frame().id, ex.tmpVar(e, 1)}
	ex.mergeRegion(st, func(st *State) {
		v := f(st)
		if v == nil {
			v = Val{}
		}
		st.vars[key] = v
	})
	v := st.vars[key]
	delete(st.vars, key)
	return v
}

func (ex *Exec) evalArgs(st *State, e *ast.CallExpr, sig *types.Signature, id *ast.Ident) []Val {
	if id != nil {
		if inst, ok := ex.p.info.Instances[id]; ok {
			sig = inst.Type.(*types.Signature)
		}
	}
	var out []Val
	np := sig.Params().Len()
	if len(e.Args) == 1 && np > 1 {
		if tt, ok := ex.typeOf(e.Args[0]).(*types.Tuple); ok {
			v := ex.eval(st, e.Args[0])
			off := 0
			for i := 0; i < tt.Len(); i++ {
				t := ex.subT(tt.At(i).Type())
				n := len(ex.p.layout(t))
				out = append(out, ex.convertTo(st, v[off:off+n], t, ex.subT(sig.Params().At(i).Type())))
				off += n
			}
			return out
		}
	}
	for i, a := range e.Args {
		var pt types.Type
		if sig.Variadic() && i >= np-1 {
			if e.Ellipsis.IsValid() {
				pt = sig.Params().At(np - 1).Type()
			} else {
				pt = sig.Params().At(np - 1).Type().(*types.Slice).Elem()
			}
		} else {
			pt = sig.Params().At(i).Type()
		}
		v := ex.eval(st, a)
		out = append(out, ex.convertTo(st, v, ex.typeOf(a), ex.subT(pt)))
	}
	if sig.Variadic() && !e.Ellipsis.IsValid() {
		vs := out[np-1:]
		et := ex.subT(sig.Params().At(np - 1).Type().(*types.Slice).Elem())
		rest := append([]Val{}, vs...)
		out = out[:np-1]
		if len(rest) == 0 {
			out = append(out, Val{IntC(0), IntC(0), IntC(0), IntC(0)})
		} else {
			r := ex.alloc(st)
			for i, v := range rest {
				ex.write(st, &Loc{tag: IntC(kElem), base: r, idx: IntC(int64(i)), root: et, typ: et}, v)
			}
			n := IntC(int64(len(rest)))
			out = append(out, Val{r, IntC(0), n, n})
		}
	}
	return out
}

func (ex *Exec) instSub(fn *types.Func, id *ast.Ident) map[*types.TypeParam]types.Type {
	inst, ok := ex.p.info.Instances[id]
	if !ok {
		return nil
	}
	tps := fn.Origin().Type().(*types.Signature).TypeParams()
	m := map[*types.TypeParam]types.Type{}
	for i := 0; i < tps.Len(); i++ {
		m[tps.At(i)] = ex.subT(inst.TypeArgs.At(i))
	}
	return m
}

func (ex *Exec) recvSub(fn *types.Func, sel *types.Selection, xt types.Type) map[*types.TypeParam]types.Type {
	o := fn.Origin()
	rtp := o.Type().(*types.Signature).RecvTypeParams()
	if rtp.Len() == 0 {
		return nil
	}
	// receiver's static type after embedding
	cur := xt
	idx := sel.Index()
	for _, ix := range idx[:len(idx)-1] {
		cur = deref(cur).Underlying().(*types.Struct).Field(ix).Type()
	}
	n, ok := types.Unalias(deref(cur)).(*types.Named)
	if !ok {
		return nil
	}
	m := map[*types.TypeParam]types.Type{}
	for i := 0; i < rtp.Len() && i < n.TypeArgs().Len(); i++ {
		m[rtp.At(i)] = ex.subT(n.TypeArgs().At(i))
	}
	return m
}

func (ex *Exec) conversion(st *State, a ast.Expr, t types.Type) Val {
	from := ex.typeOf(a)
	v := ex.eval(st, a)
	if isUntypedNil(from) {
		return ex.zero(t)
	}
	if isIface(t) {
		return ex.convertTo(st, v, from, t)
	}
	tb, tok := t.Underlying().(*types.Basic)
	fb, fok := from.Underlying().(*types.Basic)
	if tok && fok {
		switch {
		case tb.Info()&types.IsFloat != 0:
			return Val{coerce(v[0], SReal)}
		case tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsFloat != 0:
			x := v[0]
			r := Ite(Le(RealC(0), x), Floor(x), Neg(Floor(Neg(x))))
			if b := unsBits(t); b > 0 {
				r = IMod(r, pow2(b))
			}
			return Val{r}
		case tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0:
			b := unsBits(t)
			fbits := unsBits(from)
			if b > 0 && (fbits == 0 || fbits > b) {
				return Val{IMod(v[0], pow2(b))}
			}
			return v
		case tb.Info()&types.IsString != 0 && fb.Info()&types.IsString != 0:
			return v
		case fb.Kind() == types.UnsafePointer && tb.Info()&types.IsInteger != 0:
			x := v[0]
			r := App("addr", SInt, x)
			if len(boundVars(r)) == 0 {
				symFactAdd(r, And(Le(IntC(0), r), Lt(r, pow2(64))))
			}
			return Val{r}
		}
	}
	if tok && tb.Kind() == types.UnsafePointer {
		if len(v) == 3 {
			return Val{App("mkref", SInt, v...)}
		}
		return Val{v[0]}
	}
	if len(ex.p.layout(t)) == len(v) {
		return v
	}
	panic(unsupported(fmt.Sprintf("conversion %s to %s", from, t)))
}

func (ex *Exec) builtin(st *State, name string, e *ast.CallExpr) Val {
	switch name {
	case "len", "cap":
		t := ex.typeOf(e.Args[0])
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		switch u := t.Underlying().(type) {
		case *types.Array:
			return Val{IntC(u.Len())}
		case *types.Slice:
			if _, at := ex.constTable(e.Args[0]); at != nil {
				return Val{IntC(at.Len())}
			}
			v := ex.eval(st, e.Args[0])
			if name == "len" {
				return Val{v[2]}
			}
			return Val{v[3]}
		}
		panic(unsupported(name + " of " + t.String()))
	case "min", "max":
		r := ex.eval(st, e.Args[0])[0]
		for _, a := range e.Args[1:] {
			x, y := numSort(r, ex.eval(st, a)[0])
			if name == "min" {
				r = Ite(Le(x, y), x, y)
			} else {
				r = Ite(Le(x, y), y, x)
			}
		}
		return Val{r}
	case "new":
		t := ex.typeOf(e.Args[0])
		return ex.ptrVal(t, kObj, ex.allocObj(st, t, ex.zero(t)), IntC(0))
	case "make":
		t := ex.typeOf(e.Args[0])
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			panic(unsupported("make " + t.String()))
		}
		n := ex.eval(st, e.Args[1])[0]
		c := n
		if len(e.Args) > 2 {
			c = ex.eval(st, e.Args[2])[0]
		}
		r := ex.alloc(st)
		ex.zeroArray(st, ex.subT(sl.Elem()), r)
		st.assume(And(Le(IntC(0), n), Le(n, c)), false)
		return Val{r, IntC(0), n, c}
	case "append":
		return ex.appendBuiltin(st, e)
	case "copy":
		d := ex.eval(st, e.Args[0])
		s := ex.eval(st, e.Args[1])
		et := ex.subT(ex.typeOf(e.Args[0]).Underlying().(*types.Slice).Elem())
		n := Ite(Le(d[2], s[2]), d[2], s[2])
		ex.copyElems(st, et, d[0], d[1], s[0], s[1], n)
		return Val{n}
	case "panic":
		for _, a := range e.Args {
			ex.eval(st, a)
		}
		if ex.contract != nil && ex.contract.Safety {
			ex.assertOb(st, "panic", "panic unreachable", ex.contract.Props, tFalse, nil, e.Pos())
		}
		ex.assumed["a path that panics does not return (panics are not part of the contract unless the function says `option safety`)"] = true
		panic(pathEnd{"panic"})
	case "print", "println":
		return nil
	case "delete", "close", "recover":
	}
	panic(unsupported("builtin " + name))
}

func (ex *Exec) copyElems(st *State, et types.Type, dArr, dOff, sArr, sOff, n *Term) {
	src := map[string]*Term{}
	for _, lf := range ex.p.layout(et) {
		name := "[]" + typeName(et) + dot(lf.path)
		ex.regMap(name, 2, lf)
		src[name] = ex.heapMap(st, name, &lf)
	}
	for _, lf := range ex.p.layout(et) {
		name := "[]" + typeName(et) + dot(lf.path)
		m := src[name]
		if n.isConst() && n.rat.Num().Int64() <= 8 {
			cur := m
			for i := int64(0); i < n.rat.Num().Int64(); i++ {
				cur = Store(cur, []*Term{dArr, Add(dOff, IntC(i))}, ex.sel(st, m, []*Term{sArr, Add(sOff, IntC(i))}, lf))
				ex.noteWrite(name, []*Term{dArr, Add(dOff, IntC(i))})
			}
			st.heap[name] = cur
			continue
		}
		st.heap[name] = CopyMap(m, dArr, dOff, m, sArr, sOff, n)
		ex.noteWrite(name, []*Term{dArr, Bound("any", SInt)})
	}
}

func (ex *Exec) appendBuiltin(st *State, e *ast.CallExpr) Val {
	s := ex.eval(st, e.Args[0])
	t := ex.typeOf(e.Args[0])
	if isUntypedNil(t) {
		t = ex.typeOf(e)
		s = ex.zero(t)
	}
	et := ex.subT(t.Underlying().(*types.Slice).Elem())
	var add Val
	var vals []Val
	var k *Term
	if e.Ellipsis.IsValid() {
		add = ex.eval(st, e.Args[1])
		k = add[2]
	} else {
		for _, a := range e.Args[1:] {
			v := ex.eval(st, a)
			vals = append(vals, ex.convertTo(st, v, ex.typeOf(a), et))
		}
		k = IntC(int64(len(vals)))
	}
	nl := Add(s[2], k)
	inplace := st.simp(Le(nl, s[3]))
	var arr, off, cp *Term
	if inplace != tTrue {
		r := ex.alloc(st)
		// contents copied to the new array in the growing case
		ex.copyElems(st, et, r, IntC(0), s[0], s[1], s[2])
		nc := ex.fresh("cap", SInt)
		st.assume(Le(nl, nc), false)
		arr, off, cp = Ite(inplace, s[0], r), Ite(inplace, s[1], IntC(0)), Ite(inplace, s[3], nc)
	} else {
		arr, off, cp = s[0], s[1], s[3]
	}
	if add != nil {
		ex.copyElems(st, et, arr, Add(off, s[2]), add[0], add[1], add[2])
	} else {
		for i, v := range vals {
			ex.write(st, &Loc{tag: IntC(kElem), base: arr, idx: Add(off, s[2], IntC(int64(i))), root: et, typ: et}, v)
		}
	}
	return Val{arr, off, nl, cp}
}

func (ex *Exec) mathFn(st *State, name string, a []*Term) *Term {
	if ex.ieee() {
		for i := range a {
			if a[i].sort != SReal {
				continue
			}
			if a[i] = ex.resolve(st, a[i]); a[i] == nanTerm {
				if name == "IsNaN" {
					return tTrue
				}
				if name == "IsInf" {
					return tFalse
				}
				return nanTerm
			}
		}
		switch name {
		case "Sqrt":
			if !ex.branch(st, Le(RealC(0), coerce(a[0], SReal))) {
				return nanTerm
			}
		case "Acos", "Asin":
			if x := coerce(a[0], SReal); !ex.branch(st, And(Le(RealC(-1), x), Le(x, RealC(1)))) {
				return nanTerm
			}
		case "Mod":
			if !ex.branch(st, Ne(coerce(a[1], SReal), RealC(0))) {
				return nanTerm
			}
		}
	}
	switch name {
	case "Abs":
		x := coerce(a[0], SReal)
		return Ite(Le(RealC(0), x), x, Neg(x))
	case "Min":
		x, y := coerce(a[0], SReal), coerce(a[1], SReal)
		return Ite(Le(x, y), x, y)
	case "Max":
		x, y := coerce(a[0], SReal), coerce(a[1], SReal)
		return Ite(Le(x, y), y, x)
	case "Floor":
		return ToReal(Floor(coerce(a[0], SReal)))
	case "Ceil":
		return Neg(ToReal(Floor(Neg(coerce(a[0], SReal)))))
	case "Trunc":
		x := coerce(a[0], SReal)
		return Ite(Le(RealC(0), x), ToReal(Floor(x)), Neg(ToReal(Floor(Neg(x)))))
	case "Mod":
		x, y := coerce(a[0], SReal), coerce(a[1], SReal)
		ex.defCheck(st, Ne(y, RealC(0)), "divisor of Mod is not zero")
		q := Div(x, y)
		tr := Ite(Le(RealC(0), q), ToReal(Floor(q)), Neg(ToReal(Floor(Neg(q)))))
		return Sub(x, Mul(y, tr))
	case "Hypot":
		x, y := coerce(a[0], SReal), coerce(a[1], SReal)
		return App("sqrt", SReal, Add(Mul(x, x), Mul(y, y)))
	case "IsNaN":
		return tFalse
	case "IsInf":
		return tFalse
	case "Sqrt", "Cos", "Sin", "Acos", "Asin", "Exp", "Tan":
		x := coerce(a[0], SReal)
		if name == "Sqrt" {
			ex.defCheck(st, Le(RealC(0), x), "argument of Sqrt is not negative")
		}
		if name == "Acos" || name == "Asin" {
			ex.defCheck(st, And(Le(RealC(-1), x), Le(x, RealC(1))), "argument of Acos is in [-1,1]")
		}
		n := map[string]string{"Sqrt": "sqrt", "Cos": "cos", "Sin": "sin", "Acos": "acos", "Asin": "asin", "Exp": "exp", "Tan": "tan"}[name]
		return App(n, SReal, x)
	case "Atan2", "Pow":
		n := map[string]string{"Atan2": "atan2", "Pow": "pow"}[name]
		return App(n, SReal, coerce(a[0], SReal), coerce(a[1], SReal))
	}
	return nil
}

func (ex *Exec) external(st *State, fn *types.Func, e *ast.CallExpr) Val {
	pkg := fn.Pkg().Path()
	name := fn.Name()
	switch pkg {
	case "math":
		var a []*Term
		for _, x := range e.Args {
			a = append(a, ex.eval(st, x)[0])
		}
		if r := ex.mathFn(st, name, a); r != nil {
			return Val{r}
		}
	case "fmt", "log":
		for _, x := range e.Args {
			ex.eval(st, x)
		}
		sig := fn.Type().(*types.Signature)
		var out Val
		for i := 0; i < sig.Results().Len(); i++ {
			for _, l := range ex.p.layout(sig.Results().At(i).Type()) {
				out = append(out, ex.fresh("ext", l.sort))
			}
		}
		return out
	case "sync":
		switch name {
		case "Get":
			r := ex.alloc(st)
			tag := ex.fresh("pooltag", SInt)
			ex.assumed["sync.Pool.Get returns an object of the pool's type that nothing else references, with arbitrary contents"] = true
			return Val{tag, r}
		case "Put", "Lock", "Unlock":
			for _, x := range e.Args {
				ex.eval(st, x)
			}
			return nil
		}
	}
	panic(unsupported("external " + pkg + "." + name))
}

// ---- calls to functions of the package

func (ex *Exec) callFunc(st *State, fn *types.Func, recv Val, args []Val, pos token.Pos, ts map[*types.TypeParam]types.Type) Val {
	sig := fn.Type().(*types.Signature)
	if sig.Recv() != nil && isIface(sig.Recv().Type()) {
		return ex.dispatch(st, fn, recv, args, pos)
	}
	if fn.Pkg() != ex.p.pkg {
		panic(unsupported("external function value " + fn.FullName()))
	}
	key := funcKey(fn)
	nan := false
	if ex.ieee() {
		var n bool
		if recv != nil {
			recv, nan = ex.resolveAll(st, recv)
		}
		args = append([]Val{}, args...)
		for i := range args {
			args[i], n = ex.resolveAll(st, args[i])
			nan = nan || n
		}
	}
	// contracts speak of numbers: a call with NaN goes through the body
	if c := ex.specs.Contracts[key]; c != nil && !nan && !c.Inline && !ex.contract.InlineCallees[key] && len(c.Ensures)+len(c.Modifies) > 0 {
		if ex.specs.usable(c, ex.contract) {
			return ex.callContract(st, c, fn, recv, args, pos, ts)
		}
	}
	decl := ex.p.fobj[fn.Origin()]
	if decl == nil || decl.Body == nil {
		panic(unsupported("no body for " + key))
	}
	return ex.inlineCall(st, fn.Origin(), decl, recv, args, pos, ts)
}

func (ex *Exec) dispatch(st *State, fn *types.Func, recv Val, args []Val, pos token.Pos) Val {
	iface := typeName(fn.Type().(*types.Signature).Recv().Type())
	tag := recv[0]
	if c, ok := st.consts[tag]; ok {
		tag = c
	}
	tag = st.simpTerm(tag)
	key := iface + "." + fn.Name()
	if !tag.isConst() {
		if c := ex.specs.Contracts[key]; c != nil {
			return ex.callContract(st, c, fn, recv, args, pos, nil)
		}
	}
	impls := ex.p.impls[iface]
	if len(impls) == 0 {
		panic(unsupported("no implementation of " + iface))
	}
	ex.assumed["closed world: a "+iface+" value is one of this package's implementations and not nil"] = true
	var ts []*Term
	for _, nd := range impls {
		ts = append(ts, Eq(tag, ex.p.tagOf(types.NewPointer(nd))))
	}
	if !tag.isConst() {
		st.assume(Or(ts...), false)
	}
	for i, nd := range impls {
		if ex.branch(st, ts[i]) {
			pt := types.NewPointer(nd)
			obj, index, _ := types.LookupFieldOrMethod(pt, true, ex.p.pkg, fn.Name())
			m, ok := obj.(*types.Func)
			if !ok {
				panic(unsupported("method " + fn.Name() + " of " + nd.Obj().Name()))
			}
			rv := ex.unbox(st, recv, pt)
			if len(index) > 1 {
				l := ex.fieldLoc(st, ex.ptrLoc(rv, nd), pt, index[:len(index)-1])
				if _, isPtr := l.typ.Underlying().(*types.Pointer); isPtr || isIface(l.typ) {
					rv = ex.read(st, l)
				} else {
					rv = ex.addrOf(st, l)
				}
			}
			return ex.callFunc(st, m, rv, args, pos, nil)
		}
	}
	panic(pathEnd{"no dynamic type"})
}

func (ex *Exec) callValue(st *State, fv *Term, t types.Type, args []Val, pos token.Pos, keys []string) Val {
	if c, ok := st.consts[fv]; ok {
		fv = c
	}
	fv = st.simpTerm(fv)
	if fv.op == OIte {
		if ex.branch(st, fv.args[0]) {
			return ex.callValue(st, fv.args[1], t, args, pos, keys)
		}
		return ex.callValue(st, fv.args[2], t, args, pos, keys)
	}
	if fv.isConst() {
		if fv.isZero() {
			panic(pathEnd{"nil function"})
		}
		c := ex.closures[fv.rat.RatString()]
		if c == nil {
			panic(unsupported("unknown function value"))
		}
		if c.fn != nil {
			if c.recv == nil && c.fn.Type().(*types.Signature).Recv() != nil {
				return ex.callFunc(st, c.fn, args[0], args[1:], pos, nil)
			}
			return ex.callFunc(st, c.fn, c.recv, args, pos, nil)
		}
		return ex.inlineClosure(st, c, args, pos)
	}
	for _, k := range keys {
		if c := ex.specs.Functypes[k]; c != nil {
			return ex.callOpaque(st, c, fv, t, args, pos)
		}
	}
	ex.assumed["a callback ("+fmt.Sprint(keys)+") may change anything reachable but returns normally"] = true
	ex.havocAll(st)
	return ex.freshResults(st, t.Underlying().(*types.Signature), "cb")
}

func (ex *Exec) freshResults(st *State, sig *types.Signature, prefix string) Val {
	var out Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := ex.subT(sig.Results().At(i).Type())
		var part Val
		for _, l := range ex.p.layout(t) {
			f := ex.fresh(prefix, l.sort)
			f.serial = ex.serial
			st.assume(ex.leafRange(f, l, st.next), false)
			part = append(part, f)
		}
		ex.wellFormed(st, part, t)
		out = append(out, part...)
	}
	return out
}

// wellFormed assumes the structural facts every value of type t satisfies.
func (ex *Exec) wellFormed(st *State, v Val, t types.Type) {
	ls := ex.p.layout(t)
	for i, l := range ls {
		if l.role == "arr" && i+3 < len(v) {
			st.assume(sliceFacts4(v[i:i+4]), false)
		}
		if l.role == "tag" && i+2 < len(v) {
			pt, ok := l.typ.Underlying().(*types.Pointer)
			if ok {
				n := len(ex.p.ptrKinds[typeName(pt.Elem())])
				st.assume(And(Le(IntC(0), v[i]), Le(v[i], IntC(int64(2+n))), Eq(Eq(v[i], IntC(0)), Eq(v[i+1], IntC(0)))), false)
				st.assume(Or(Eq(v[i], IntC(kElem)), Eq(v[i+2], IntC(0))), false)
			}
		}
		if l.role == "type" && i+1 < len(v) {
			st.assume(Implies(Eq(v[i], IntC(0)), Eq(v[i+1], IntC(0))), false)
		}
	}
}

// havocAll forgets the whole heap.
func (ex *Exec) havocAll(st *State) {
	ex.noteWrite("*", nil)
	st.epoch = ex.freshName("E")
	st.heap = map[string]*Term{}
	nn := ex.fresh("next", SInt)
	st.assume(Le(st.next, nn), false)
	st.next = nn
	// boxed locals stay reachable only through their addresses: forgotten as well (sound)
}

func (ex *Exec) hiddenResults(sig *types.Signature) []types.Object {
	if r, ok := hiddenRes[sig]; ok {
		return r
	}
	var out []types.Object
	for i := 0; i < sig.Results().Len(); i++ {
		v := sig.Results().At(i)
		if v.Name() == "" || v.Name() == "_" {
			out = append(out, types.NewVar(token.NoPos, nil, fmt.Sprintf("$r%d", i), v.Type()))
		} else {
			out = append(out, v)
		}
	}
	hiddenRes[sig] = out
	return out
}

var hiddenRes = map[*types.Signature][]types.Object{}

func hasFuncLit(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			r = true
		}
		return !r
	})
	return r
}

func (ex *Exec) inlineCall(st *State, fn *types.Func, decl *ast.FuncDecl, recv Val, args []Val, pos token.Pos, ts map[*types.TypeParam]types.Type) Val {
	key := funcKey(fn)
	sig := fn.Type().(*types.Signature)
	n := 0
	for _, f := range ex.frames {
		if f.name == key {
			n++
		}
	}
	if n > 0 {
		panic(unsupported("recursion through " + key + " without a contract"))
	}
	ex.inlined[key] = true
	ex.frameSeq++
	fr := &Frame{id: ex.frameSeq, name: key, sig: sig, tsub: ts, depth: len(ex.frames)}
	if c := ex.specs.Contracts[key]; c != nil {
		fr.contr = c
		fr.loops = numberLoopsDeep(ex.p, ex.specs, decl.Body, map[string]bool{key: true})
		fr.specFrame = fr
	} else if len(ex.frames) > 0 {
		p := ex.frame()
		fr.contr, fr.loops, fr.specFrame = p.contr, p.loops, p.specFrame
	}
	fr.results = ex.hiddenResults(sig)
	ex.frames = append(ex.frames, fr)
	if r := sig.Recv(); r != nil && recv != nil {
		fr.recvObj = r
		ex.declare(st, r, recv)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ex.declare(st, sig.Params().At(i), args[i])
	}
	if fr.specFrame == fr {
		fr.old = st.clone()
	}
	return ex.runBody(st, fr, decl.Body)
}

func (ex *Exec) runBody(st *State, fr *Frame, body *ast.BlockStmt) Val {
	for _, o := range fr.results {
		ex.declare(st, o, ex.zero(ex.subT(o.Type())))
	}
	ex.execBlock(st, body.List)
	for i := len(fr.defers) - 1; i >= 0; i-- {
		fr.defers[i](st)
	}
	var ret Val
	for _, o := range fr.results {
		k, _ := ex.findVar(st, o)
		ret = append(ret, ex.read(st, ex.varLoc(st, k, o))...)
	}
	ex.frames = ex.frames[:len(ex.frames)-1]
	if !hasFuncLit(body) {
		for k := range st.vars {
			if k.frame == fr.id {
				delete(st.vars, k)
			}
		}
	}
	return ret
}

func (ex *Exec) inlineClosure(st *State, c *Closure, args []Val, pos token.Pos) Val {
	ex.frameSeq++
	sig := ex.p.info.TypeOf(c.lit).(*types.Signature)
	depth := 0
	for _, f := range ex.frames {
		if f.lit == c.lit {
			depth++
		}
	}
	if depth > 2 {
		panic(unsupported("recursive closure"))
	}
	fr := &Frame{id: ex.frameSeq, name: c.frame.name + "$lit", parent: c.frame, sig: sig, tsub: c.frame.tsub, lit: c.lit, contr: c.frame.contr, loops: c.frame.loops, specFrame: c.frame.specFrame}
	fr.results = ex.hiddenResults(sig)
	ex.frames = append(ex.frames, fr)
	for i := 0; i < sig.Params().Len(); i++ {
		ex.declare(st, sig.Params().At(i), args[i])
	}
	return ex.runBody(st, fr, c.lit.Body)
}

// numberLoops assigns ordinals to the loops of a body in source order (closures excluded).
func numberLoops(b *ast.BlockStmt) map[ast.Node]int {
	m := map[ast.Node]int{}
	ast.Inspect(b, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			m[n] = len(m)
		}
		return true
	})
	return m
}
