package main

// Locations, heap maps, reading and writing.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
)

type Loc struct {
	local bool
	key   varKey
	off   int
	// heap
	tag, base, idx *Term
	root           types.Type
	path           string
	typ            types.Type
	alts           []locAlt
}
type locAlt struct {
	cond *Term
	loc  *Loc
}

const (
	kNil  = 0
	kObj  = 1
	kElem = 2
)

func (p *Prog) fieldKindIndex(elem, kind string) int64 {
	for i, k := range p.ptrKinds[elem] {
		if k == kind {
			return int64(3 + i)
		}
	}
	return -1
}

type mapInfo struct {
	arity int
	leaf  Leaf
}

var mapInfos = map[string]mapInfo{}

func (ex *Exec) rangeOf(l Leaf) func(*Term) *Term {
	if l.uns > 0 {
		max := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(l.uns)))
		return func(t *Term) *Term { return And(Le(IntC(0), t), Lt(t, Num(max, SInt))) }
	}
	if l.ref || l.role == "len" || l.role == "cap" || l.role == "off" || l.role == "tag" || l.role == "type" {
		return func(t *Term) *Term { return Le(IntC(0), t) }
	}
	return nil
}

func (ex *Exec) leafRange(t *Term, l Leaf, next *Term) *Term {
	f := ex.rangeOf(l)
	r := tTrue
	if f != nil {
		r = f(t)
	}
	if next != nil && l.ref {
		r = And(r, Lt(t, next))
	}
	return r
}

// newBase creates a fresh base map for heap map `name`.
func (ex *Exec) newBase(prefix, name string, arity int, es Sort) *Term {
	n := ex.freshName(prefix)
	m := BaseMap(n, arity, es)
	if mi, ok := mapInfos[name]; ok {
		if f := ex.rangeOf(mi.leaf); f != nil {
			symRange[n] = f
		}
	}
	return m
}

func (ex *Exec) heapMap(st *State, name string, l *Leaf) *Term {
	for _, r := range ex.recorders {
		r[name] = true
	}
	if m, ok := st.heap[name]; ok {
		return m
	}
	mi, ok := mapInfos[name]
	if !ok {
		if l == nil {
			return nil
		}
		panic("heapMap: unregistered " + name)
	}
	n := "H" + st.epoch + "." + name
	m := BaseMap(n, mi.arity, mi.leaf.sort)
	if f := ex.rangeOf(mi.leaf); f != nil {
		symRange[n] = f
	}
	st.heap[name] = m
	return m
}

func (ex *Exec) regMap(name string, arity int, l Leaf) {
	if _, ok := mapInfos[name]; !ok {
		mapInfos[name] = mapInfo{arity, l}
	}
}

func objPrefix(t types.Type) string {
	if _, ok := t.Underlying().(*types.Struct); ok {
		return typeName(t)
	}
	return "box:" + typeName(t)
}

type mapRef struct {
	name string
	keys []*Term
}

// heapTargets lists the map/keys a leaf of (root,path) may denote, with conditions.
func (ex *Exec) heapTargets(st *State, tag, base, idx *Term, root types.Type, leafPath string) ([]*Term, []mapRef) {
	tn := typeName(root)
	one := func(k int64) mapRef {
		switch k {
		case kObj:
			return mapRef{objPrefix(root) + dot(leafPath), []*Term{base}}
		case kElem:
			return mapRef{"[]" + tn + dot(leafPath), []*Term{base, idx}}
		}
		kind := ex.p.ptrKinds[tn][k-3]
		f := kind[len("field:"):]
		return mapRef{joinPath(f, leafPath), []*Term{base}}
	}
	if c, ok := st.consts[tag]; ok {
		tag = c
	}
	tag = st.simpTerm(tag)
	if tag.isConst() {
		k := tag.rat.Num().Int64()
		if k == 0 {
			k = kObj
		}
		return []*Term{tTrue}, []mapRef{one(k)}
	}
	var cs []*Term
	var rs []mapRef
	add := func(k int64) {
		cs = append(cs, Eq(tag, IntC(k)))
		rs = append(rs, one(k))
	}
	add(kObj)
	for i, kind := range ex.p.ptrKinds[tn] {
		if kind == "elem" {
			add(kElem)
		} else {
			add(int64(3 + i))
		}
	}
	return cs, rs
}

func dot(p string) string {
	if p == "" {
		return ""
	}
	if p[0] == '#' || p[0] == '[' {
		return p
	}
	return "." + p
}

func (ex *Exec) sel(st *State, m *Term, keys []*Term, leaf Leaf) *Term {
	t := Select(m, keys, st.simp)
	if leaf.ref || leaf.role == "opaque" {
		markSerial(t)
	}
	return t
}

func markSerial(t *Term) {
	switch t.op {
	case OSel:
		if t.serial == 0 {
			s := symSerial[t.name]
			if s == 0 {
				s = 1
			}
			t.serial = s
		}
	case OIte:
		markSerial(t.args[1])
		markSerial(t.args[2])
		a, b := t.args[1], t.args[2]
		if t.serial == 0 && (a.serial > 0 || a.isConst()) && (b.serial > 0 || b.isConst()) {
			t.serial = max(a.serial, b.serial)
		}
	}
}

func (ex *Exec) readLoc(st *State, l *Loc) Val {
	if l.alts != nil {
		var v Val
		for i := len(l.alts) - 1; i >= 0; i-- {
			a := ex.readLoc(st, l.alts[i].loc)
			if v == nil {
				v = append(Val{}, a...)
				continue
			}
			for j := range v {
				v[j] = Ite(l.alts[i].cond, a[j], v[j])
			}
		}
		return v
	}
	ls := ex.p.layout(l.typ)
	if l.local {
		v := st.vars[l.key]
		if v == nil {
			panic(unsupported("read of unknown variable " + l.key.obj.Name()))
		}
		return v[l.off : l.off+len(ls)]
	}
	out := make(Val, len(ls))
	for i, lf := range ls {
		full := joinPath(l.path, lf.path)
		cs, rs := ex.heapTargets(st, l.tag, l.base, l.idx, l.root, full)
		var t *Term
		for k := len(rs) - 1; k >= 0; k-- {
			ex.regMap(rs[k].name, len(rs[k].keys), lf)
			x := ex.sel(st, ex.heapMap(st, rs[k].name, &lf), rs[k].keys, lf)
			if t == nil {
				t = x
			} else {
				t = Ite(cs[k], x, t)
			}
		}
		out[i] = t
	}
	if ex.specDepth == 0 || !hasBound(out) {
		if _, ok := l.typ.Underlying().(*types.Slice); ok {
			ex.assumeSlice(st, out)
		} else if stt, ok := l.typ.Underlying().(*types.Struct); ok {
			_ = stt
			for i, lf := range ls {
				if lf.role == "arr" && i+3 < len(out) {
					ex.assumeSlice(st, out[i:i+4])
				}
			}
		}
		for i, lf := range ls {
			if lf.ref && out[i].op == OSel && out[i].name[:2] == "H." && ex.next0 != nil && !hasBound(out[i:i+1]) {
				symFactOnce(out[i], Lt(out[i], ex.next0))
			}
		}
	}
	return out
}

func symFactOnce(t, f *Term) {
	if _, ok := symFacts[t]; !ok {
		symFacts[t] = []*Term{f}
	}
}

func hasBound(v Val) bool {
	for _, t := range v {
		if len(boundVars(t)) > 0 {
			return true
		}
	}
	return false
}

func (ex *Exec) assumeSlice(st *State, v Val) {
	if hasBound(v) {
		return
	}
	f := sliceFacts4(v)
	if f != tTrue {
		st.assume(f, false)
	}
}

func (ex *Exec) read(st *State, l *Loc) Val { return ex.readLoc(st, l) }

func (ex *Exec) write(st *State, l *Loc, v Val) {
	if l == nil {
		return
	}
	if l.alts != nil {
		for _, a := range l.alts {
			old := ex.readLoc(st, a.loc)
			nv := make(Val, len(v))
			for i := range v {
				nv[i] = Ite(a.cond, coerce(v[i], old[i].sort), old[i])
			}
			ex.write(st, a.loc, nv)
		}
		return
	}
	ls := ex.p.layout(l.typ)
	if len(v) != len(ls) {
		panic(unsupported(fmt.Sprintf("write arity %d vs %d for %s", len(v), len(ls), l.typ)))
	}
	if l.local {
		old := st.vars[l.key]
		nv := append(Val{}, old...)
		for i := range v {
			nv[l.off+i] = coerce(v[i], ls[i].sort)
		}
		st.vars[l.key] = nv
		return
	}
	for i, lf := range ls {
		full := joinPath(l.path, lf.path)
		cs, rs := ex.heapTargets(st, l.tag, l.base, l.idx, l.root, full)
		for k := range rs {
			ex.regMap(rs[k].name, len(rs[k].keys), lf)
			m := ex.heapMap(st, rs[k].name, &lf)
			val := coerce(v[i], lf.sort)
			if cs[k] != tTrue {
				val = Ite(cs[k], val, ex.sel(st, m, rs[k].keys, lf))
			}
			st.heap[rs[k].name] = Store(m, rs[k].keys, val)
			ex.noteWrite(rs[k].name, rs[k].keys)
		}
	}
}

func (ex *Exec) readElem(st *State, t types.Type, arr, idx *Term) Val {
	return ex.readLoc(st, &Loc{tag: IntC(kElem), base: arr, idx: idx, root: t, typ: t})
}

func (ex *Exec) zero(t types.Type) Val {
	ls := ex.p.layout(t)
	out := make(Val, len(ls))
	for i, l := range ls {
		switch l.sort {
		case SBool:
			out[i] = tFalse
		case SReal:
			out[i] = RealC(0)
		default:
			out[i] = IntC(0)
		}
	}
	return out
}

// alloc returns a fresh reference.
func (ex *Exec) alloc(st *State) *Term {
	r := ex.fresh("new", SInt)
	allocSerial[r] = ex.serial
	st.assume(Le(st.next, r), false)
	st.next = Add(r, IntC(1))
	return r
}

// allocObj allocates a T object with contents v.
func (ex *Exec) allocObj(st *State, t types.Type, v Val) *Term {
	r := ex.alloc(st)
	ex.write(st, &Loc{tag: IntC(kObj), base: r, idx: IntC(0), root: t, typ: t}, v)
	// outlined arrays: zero
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if ex.p.isOutlined(t, s.Field(i)) {
				// the array lies right behind its object
				o := ex.outArrRef(t, s.Field(i).Name(), r)
				st.assume(Eq(o, st.next), false)
				st.next = Add(st.next, IntC(1))
				ex.zeroArray(st, s.Field(i).Type().Underlying().(*types.Array).Elem(), o)
			}
		}
	}
	return r
}

func (ex *Exec) outArrRef(t types.Type, field string, base *Term) *Term {
	r := App("arrOf:"+typeName(t)+"."+field, SInt, base)
	if st, ok := t.Underlying().(*types.Struct); ok {
		// the arrays of an object lie right behind it: distinct objects have distinct arrays
		k := 0
		for i := 0; i < st.NumFields(); i++ {
			if ex.p.isOutlined(t, st.Field(i)) {
				k++
				if st.Field(i).Name() == field {
					r = Add(base, IntC(int64(k)))
				}
			}
		}
	}
	if s, ok := allocSerial[base]; ok {
		allocSerial[r] = s
	} else if base.serial > 0 {
		r.serial = base.serial
	}
	return r
}

func (ex *Exec) zeroArray(st *State, et types.Type, arr *Term) {
	z := ex.zero(et)
	for i, lf := range ex.p.layout(et) {
		name := "[]" + typeName(et) + dot(lf.path)
		ex.regMap(name, 2, lf)
		m := ex.heapMap(st, name, &lf)
		// all elements of arr become zero
		zb := constMap(z[i])
		k0, k1 := Bound("k0", SInt), Bound("k1", SInt)
		_ = k1
		st.heap[name] = HavocMap(m, zb, []*Term{k0, k1}, Eq(k0, arr))
		ex.noteWrite(name, []*Term{arr, Bound("any", SInt)})
	}
}

// constMap: a map that yields t for every key, written as a store-free node
func constMap(t *Term) *Term {
	m := mk(MConst, SMap, "", nil, t)
	m.esort, m.arity = t.sort, 2
	return m
}

func (ex *Exec) ptrVal(elem types.Type, tag int64, base, idx *Term) Val {
	if ex.p.multi[typeName(elem)] {
		return Val{IntC(tag), base, idx}
	}
	return Val{base}
}

func (ex *Exec) ptrLoc(v Val, elem types.Type) *Loc {
	if ex.p.multi[typeName(elem)] {
		return &Loc{tag: v[0], base: v[1], idx: v[2], root: elem, typ: elem}
	}
	return &Loc{tag: IntC(kObj), base: v[0], idx: IntC(0), root: elem, typ: elem}
}

func isNilTerm(ex *Exec, v Val, t types.Type) *Term { return Eq(v[0], IntC(0)) }

// ---- variables

func (ex *Exec) findVar(st *State, o types.Object) (varKey, bool) {
	for f := ex.frame(); f != nil; f = f.parent {
		k := varKey{f.id, o}
		if _, ok := st.vars[k]; ok {
			return k, true
		}
	}
	return varKey{}, false
}

func (ex *Exec) varType(k varKey) types.Type {
	if t, ok := ex.varTypes[k]; ok {
		return t
	}
	return k.obj.Type()
}

// declare binds a new variable in the current frame.
func (ex *Exec) declare(st *State, o types.Object, v Val) {
	if o.Name() == "_" {
		return
	}
	fr := ex.frame()
	t := ex.subT(o.Type())
	k := varKey{fr.id, o}
	if ex.p.boxed[o] {
		r := ex.allocObj(st, t, v)
		st.vars[k] = Val{r}
		ex.varTypes[k] = types.Typ[types.Uintptr]
		return
	}
	ls := ex.p.layout(t)
	nv := make(Val, len(v))
	for i := range v {
		nv[i] = v[i]
		if i < len(ls) {
			nv[i] = coerce(v[i], ls[i].sort)
		}
	}
	st.vars[k] = nv
	ex.varTypes[k] = t
}

func (ex *Exec) setVar(st *State, o types.Object, v Val) {
	k, ok := ex.findVar(st, o)
	if !ok {
		ex.declare(st, o, v)
		return
	}
	ex.write(st, ex.varLoc(st, k, o), v)
}

func (ex *Exec) varLoc(st *State, k varKey, o types.Object) *Loc {
	t := ex.subT(o.Type())
	if ex.p.boxed[o] {
		return &Loc{tag: IntC(kObj), base: st.vars[k][0], idx: IntC(0), root: t, typ: t}
	}
	return &Loc{local: true, key: k, typ: t}
}

// globals live on the heap as singletons
func (ex *Exec) globalLoc(o types.Object) *Loc {
	return &Loc{tag: IntC(kObj), base: App("global:"+o.Name(), SInt), idx: IntC(0), root: globalRoot{o}.typ(), path: "", typ: o.Type()}
}

type globalRoot struct{ o types.Object }

func (g globalRoot) typ() types.Type { return g.o.Type() }

func (ex *Exec) lvalue(st *State, e ast.Expr) *Loc {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		if e.Name == "_" {
			return nil
		}
		o := ex.p.info.Uses[e]
		if o == nil {
			o = ex.p.info.Defs[e]
		}
		if k, ok := ex.findVar(st, o); ok {
			return ex.varLoc(st, k, o)
		}
		if v, ok := o.(*types.Var); ok && v.Parent() == ex.p.pkg.Scope() {
			return ex.globalLoc(v)
		}
		panic(unsupported("variable " + e.Name))
	case *ast.SelectorExpr:
		sel := ex.p.info.Selections[e]
		if sel == nil || sel.Kind() != types.FieldVal {
			panic(unsupported("lvalue selector " + e.Sel.Name))
		}
		return ex.fieldLoc(st, ex.baseLoc(st, e.X), ex.typeOf(e.X), sel.Index())
	case *ast.StarExpr:
		v := ex.eval(st, e.X)
		return ex.ptrLoc(v, ex.subT(deref(ex.typeOf(e.X))))
	case *ast.IndexExpr:
		xt := ex.typeOf(e.X)
		switch u := xt.Underlying().(type) {
		case *types.Slice:
			sv := ex.eval(st, e.X)
			iv := ex.eval(st, e.Index)[0]
			ex.boundsCheck(st, iv, sv[2], e)
			et := ex.subT(u.Elem())
			return &Loc{tag: IntC(kElem), base: sv[0], idx: Add(sv[1], iv), root: et, typ: et}
		case *types.Array:
			iv := ex.eval(st, e.Index)[0]
			ex.boundsCheck(st, iv, IntC(u.Len()), e)
			return ex.arrayElemLoc(st, ex.lvalue(st, e.X), u, iv)
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				pv := ex.eval(st, e.X)
				iv := ex.eval(st, e.Index)[0]
				ex.boundsCheck(st, iv, IntC(a.Len()), e)
				return ex.arrayElemLoc(st, ex.ptrLoc(pv, u.Elem()), a, iv)
			}
		}
		panic(unsupported("index lvalue"))
	case *ast.CompositeLit:
		v := ex.eval(st, e)
		t := ex.typeOf(e)
		r := ex.allocObj(st, t, v)
		return &Loc{tag: IntC(kObj), base: r, idx: IntC(0), root: t, typ: t}
	case *ast.CallExpr:
		v := ex.eval(st, e)
		k := varKey{ex.frame().id, types.NewVar(e.Pos(), nil, "$tmp", ex.typeOf(e))}
		st.vars[k] = v
		ex.varTypes[k] = ex.typeOf(e)
		return &Loc{local: true, key: k, typ: ex.typeOf(e)}
	}
	panic(unsupported(fmt.Sprintf("lvalue %T", e)))
}

func (ex *Exec) arrayElemLoc(st *State, l *Loc, u *types.Array, iv *Term) *Loc {
	et := ex.subT(u.Elem())
	if l.outArr() {
		return &Loc{tag: IntC(kElem), base: l.base, idx: iv, root: et, typ: et}
	}
	iv = st.simpTerm(iv)
	if c, ok := st.consts[iv]; ok {
		iv = c
	}
	n := len(ex.p.layout(et))
	mkLoc := func(i int64) *Loc {
		l2 := *l
		l2.typ = et
		if l.local {
			l2.off = l.off + int(i)*n
		} else {
			l2.path = joinPath(l.path, fmt.Sprintf("[%d]", i))
		}
		return &l2
	}
	if iv.isConst() {
		i := iv.rat.Num().Int64()
		if i < 0 || i >= u.Len() {
			panic(pathEnd{"array index out of range"})
		}
		return mkLoc(i)
	}
	out := &Loc{typ: et}
	for i := int64(0); i < u.Len(); i++ {
		out.alts = append(out.alts, locAlt{Eq(iv, IntC(i)), mkLoc(i)})
	}
	return out
}

func (l *Loc) outArr() bool { return l.path == "#outarr" }

// baseLoc: location designated by x in x.f (dereferencing handled by fieldLoc)
func (ex *Exec) baseLoc(st *State, x ast.Expr) *Loc {
	t := ex.typeOf(x)
	if _, ok := t.Underlying().(*types.Pointer); ok {
		v := ex.eval(st, x)
		return ex.ptrLoc(v, ex.subT(deref(t)))
	}
	return ex.lvalue(st, x)
}

// fieldLoc follows a selection path; t is the type of the base expression.
func (ex *Exec) fieldLoc(st *State, l *Loc, t types.Type, index []int) *Loc {
	cur := deref(t)
	for n, ix := range index {
		s := cur.Underlying().(*types.Struct)
		f := s.Field(ix)
		ft := ex.subFieldT(cur, f.Type())
		if ex.p.isOutlined(cur, f) {
			return &Loc{tag: IntC(kObj), base: ex.outArrRef(cur, f.Name(), l.base), idx: IntC(0), root: ft, path: "#outarr", typ: ft}
		}
		nl := *l
		nl.typ = ft
		if l.alts != nil {
			nl.alts = nil
			for _, a := range l.alts {
				nl.alts = append(nl.alts, locAlt{a.cond, ex.fieldLoc(st, a.loc, cur, []int{ix})})
			}
		} else if l.local {
			off := 0
			for j := 0; j < ix; j++ {
				if !ex.p.isOutlined(cur, s.Field(j)) {
					off += len(ex.p.layout(ex.subFieldT(cur, s.Field(j).Type())))
				}
			}
			nl.off = l.off + off
		} else {
			nl.path = joinPath(l.path, f.Name())
		}
		l = &nl
		cur = ft
		if n < len(index)-1 {
			if pt, ok := cur.Underlying().(*types.Pointer); ok {
				v := ex.read(st, l)
				ex.nilCheck(st, v, token.NoPos)
				cur = ex.subT(pt.Elem())
				l = ex.ptrLoc(v, cur)
			}
		}
	}
	return l
}

func (ex *Exec) nilCheck(st *State, v Val, pos token.Pos) {}

func (ex *Exec) boundsCheck(st *State, i, n *Term, e ast.Expr) {
	if ex.contract == nil || !ex.contract.Safety {
		return
	}
	g := And(Le(IntC(0), i), Lt(i, n))
	ex.assertOb(st, "bounds", "bounds", ex.contract.Props, g, nil, e.Pos())
	st.assume(g, false)
}

// subT substitutes type parameters of the current frame.
func (ex *Exec) subT(t types.Type) types.Type {
	if len(ex.frames) == 0 {
		return t
	}
	ts := ex.frame().tsub
	if len(ts) == 0 {
		return t
	}
	return substType(t, ts)
}

func substType(t types.Type, m map[*types.TypeParam]types.Type) types.Type {
	switch u := t.(type) {
	case *types.TypeParam:
		if r, ok := m[u]; ok {
			return r
		}
	case *types.Pointer:
		if e := substType(u.Elem(), m); e != u.Elem() {
			return types.NewPointer(e)
		}
	case *types.Slice:
		if e := substType(u.Elem(), m); e != u.Elem() {
			return types.NewSlice(e)
		}
	case *types.Named:
		if ta := u.TypeArgs(); ta.Len() > 0 {
			var args []types.Type
			ch := false
			for i := 0; i < ta.Len(); i++ {
				a := substType(ta.At(i), m)
				if a != ta.At(i) {
					ch = true
				}
				args = append(args, a)
			}
			if ch {
				r, err := types.Instantiate(nil, u.Origin(), args, false)
				if err == nil {
					return r
				}
			}
		}
	}
	return t
}

func (ex *Exec) subFieldT(owner, t types.Type) types.Type { return ex.subT(t) }

func (ex *Exec) typeOf(e ast.Expr) types.Type {
	t := ex.p.info.TypeOf(e)
	if t == nil {
		panic(unsupported("no type for expression"))
	}
	return ex.subT(types.Unalias(t))
}
