package main

// Hash-consed terms with a light simplifier.  Sorts: Bool, Int, Real, Map.
// Heap maps never reach the solver: select-over-store is expanded when the
// select term is built, so only applications of base map symbols (uninterpreted
// functions) remain.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort uint8

const (
	SBool Sort = iota
	SInt
	SReal
	SMap
)

func (s Sort) String() string { return [...]string{"Bool", "Int", "Real", "Map"}[s] }

type Op uint8

const (
	OConst  Op = iota // numeric constant (rat)
	OTrue             //
	OFalse            //
	OVar              // symbolic constant (name)
	OBound            // quantified variable (name)
	OApp              // uninterpreted / interpreted function application (name)
	OAdd              //
	OMul              //
	ODiv              // real division
	OIDiv             // SMT-LIB div
	OIMod             // SMT-LIB mod
	OLe               //
	OLt               //
	OEq               //
	ONot              //
	OAnd              //
	OOr               //
	OIte              //
	OToReal           //
	OFloor            // to_int
	OForall           // args[0..n-1] bound vars, args[n] body
	OExists           //
	OSel              // base map application: name = map symbol, args = keys
	MBase             // base map symbol
	MStore            // args[0]=map, keys..., value
	MIte              // cond, m1, m2
	MHavoc            // args[0]=map, args[1]=base(new), bound vars..., cond
	MConst            // every key yields args[0]
	MCopy             // args: m, dstArr, dstOff, src map, srcArr, srcOff, n
)

type Term struct {
	id    int
	op    Op
	sort  Sort
	args  []*Term
	name  string
	rat   *big.Rat
	esort Sort // element sort of a map
	arity int  // key count of a map
	// free symbols cache
	syms   map[*Term]bool
	hasQ   bool
	serial int // for refs: terms known to denote refs allocated before this serial (0 unknown)
	nb     map[*Term]bool
}

var termTab = map[string]*Term{}
var termCount int

func mk(op Op, sort Sort, name string, rat *big.Rat, args ...*Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%d|%s|", op, sort, name)
	if rat != nil {
		sb.WriteString(rat.RatString())
	}
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCount++
	t := &Term{id: termCount, op: op, sort: sort, name: name, rat: rat, args: args}
	if op == OForall || op == OExists {
		t.hasQ = true
	}
	for _, a := range args {
		if a.hasQ {
			t.hasQ = true
		}
	}
	termTab[k] = t
	return t
}

var (
	tTrue  = mk(OTrue, SBool, "", nil)
	tFalse = mk(OFalse, SBool, "", nil)
)

func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func Num(r *big.Rat, s Sort) *Term { return mk(OConst, s, "", r) }
func IntC(i int64) *Term           { return Num(new(big.Rat).SetInt64(i), SInt) }
func RealC(i int64) *Term          { return Num(new(big.Rat).SetInt64(i), SReal) }
func Var(name string, s Sort) *Term {
	return mk(OVar, s, name, nil)
}
func Bound(name string, s Sort) *Term { return mk(OBound, s, name, nil) }

var freshCtr = map[string]int{}

func Fresh(prefix string, s Sort) *Term {
	freshCtr[prefix]++
	return Var(fmt.Sprintf("%s!%d", prefix, freshCtr[prefix]), s)
}
func FreshBound(prefix string, s Sort) *Term {
	freshCtr["?"+prefix]++
	return Bound(fmt.Sprintf("%s?%d", prefix, freshCtr["?"+prefix]), s)
}
func App(name string, s Sort, args ...*Term) *Term { return mk(OApp, s, name, nil, args...) }

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isZero() bool  { return t.op == OConst && t.rat.Sign() == 0 }
func (t *Term) isOne() bool   { return t.op == OConst && t.rat.Cmp(ratOne) == 0 }

var ratOne = big.NewRat(1, 1)
var ratZero = new(big.Rat)

func byID(ts []*Term) { sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id }) }

// linear view: coefficient and rest
func coefOf(t *Term) (*big.Rat, *Term) {
	if t.op == OConst {
		return t.rat, nil
	}
	if t.op == OMul && t.args[0].op == OConst {
		if len(t.args) == 2 {
			return t.args[0].rat, t.args[1]
		}
		return t.args[0].rat, mk(OMul, t.sort, "", nil, t.args[1:]...)
	}
	return ratOne, t
}

func Add(ts ...*Term) *Term {
	if len(ts) == 0 {
		panic("Add()")
	}
	s := ts[0].sort
	for _, t := range ts {
		if t.sort != s {
			if t.sort == SReal || s == SReal {
				s = SReal
			}
		}
	}
	c := new(big.Rat)
	coefs := map[*Term]*big.Rat{}
	var order []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		t = coerce(t, s)
		if t.op == OAdd {
			for _, a := range t.args {
				rec(a)
			}
			return
		}
		k, r := coefOf(t)
		if r == nil {
			c = new(big.Rat).Add(c, k)
			return
		}
		if o, ok := coefs[r]; ok {
			coefs[r] = new(big.Rat).Add(o, k)
		} else {
			coefs[r] = k
			order = append(order, r)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	var out []*Term
	for _, r := range order {
		k := coefs[r]
		if k.Sign() == 0 {
			continue
		}
		out = append(out, scale(k, r))
	}
	byID(out)
	if c.Sign() != 0 {
		out = append(out, Num(c, s))
	}
	if len(out) == 0 {
		return Num(ratZero, s)
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(OAdd, s, "", nil, out...)
}

func scale(k *big.Rat, r *Term) *Term {
	if k.Cmp(ratOne) == 0 {
		return r
	}
	if r.op == OMul {
		return mk(OMul, r.sort, "", nil, append([]*Term{Num(k, r.sort)}, r.args...)...)
	}
	return mk(OMul, r.sort, "", nil, Num(k, r.sort), r)
}

func coerce(t *Term, s Sort) *Term {
	if t.sort == s {
		return t
	}
	if t.sort == SInt && s == SReal {
		return ToReal(t)
	}
	return t
}

func Neg(t *Term) *Term    { return Mul(Num(big.NewRat(-1, 1), t.sort), t) }
func Sub(a, b *Term) *Term { return Add(a, Neg(b)) }

func Mul(ts ...*Term) *Term {
	s := ts[0].sort
	for _, t := range ts {
		if t.sort == SReal {
			s = SReal
		}
	}
	c := new(big.Rat).Set(ratOne)
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		t = coerce(t, s)
		if t.op == OMul {
			for _, a := range t.args {
				rec(a)
			}
			return
		}
		if t.op == OConst {
			c = new(big.Rat).Mul(c, t.rat)
			return
		}
		out = append(out, t)
	}
	for _, t := range ts {
		rec(t)
	}
	if c.Sign() == 0 {
		return Num(ratZero, s)
	}
	if len(out) == 0 {
		return Num(c, s)
	}
	byID(out)
	if len(out) == 1 && out[0].op == OAdd {
		// distribute constants over sums
		if c.Cmp(ratOne) == 0 {
			return out[0]
		}
		var ns []*Term
		for _, a := range out[0].args {
			ns = append(ns, Mul(Num(c, s), a))
		}
		return Add(ns...)
	}
	if c.Cmp(ratOne) != 0 {
		out = append([]*Term{Num(c, s)}, out...)
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(OMul, s, "", nil, out...)
}

func Div(a, b *Term) *Term {
	a, b = coerce(a, SReal), coerce(b, SReal)
	if b.op == OConst && b.rat.Sign() != 0 {
		return Mul(Num(new(big.Rat).Inv(b.rat), SReal), a)
	}
	return mk(ODiv, SReal, "", nil, a, b)
}

func IDiv(a, b *Term) *Term { // SMT euclidean
	if a.op == OConst && b.op == OConst && b.rat.Sign() > 0 {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(a.rat.Num(), b.rat.Num(), m)
		return Num(new(big.Rat).SetInt(q), SInt)
	}
	if b.isOne() {
		return a
	}
	return mk(OIDiv, SInt, "", nil, a, b)
}
func IMod(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && b.rat.Sign() > 0 {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(a.rat.Num(), b.rat.Num(), m)
		return Num(new(big.Rat).SetInt(m), SInt)
	}
	if b.isOne() {
		return IntC(0)
	}
	if a.op == OIMod && a.args[1] == b {
		return a
	}
	return mk(OIMod, SInt, "", nil, a, b)
}

func ToReal(t *Term) *Term {
	if t.sort == SReal {
		return t
	}
	if t.op == OConst {
		return Num(t.rat, SReal)
	}
	return mk(OToReal, SReal, "", nil, t)
}

func Floor(t *Term) *Term {
	if t.sort == SInt {
		return t
	}
	if t.op == OToReal {
		return t.args[0]
	}
	if t.op == OConst {
		q := new(big.Int).Div(t.rat.Num(), t.rat.Denom())
		return Num(new(big.Rat).SetInt(q), SInt)
	}
	return mk(OFloor, SInt, "", nil, t)
}

func numSort(a, b *Term) (x, y *Term) {
	if a.sort == SReal || b.sort == SReal {
		return coerce(a, SReal), coerce(b, SReal)
	}
	return a, b
}

func Le(a, b *Term) *Term {
	a, b = numSort(a, b)
	d := Sub(a, b)
	if d.op == OConst {
		return Bool(d.rat.Sign() <= 0)
	}
	return mk(OLe, SBool, "", nil, a, b)
}
func Lt(a, b *Term) *Term {
	a, b = numSort(a, b)
	d := Sub(a, b)
	if d.op == OConst {
		return Bool(d.rat.Sign() < 0)
	}
	return mk(OLt, SBool, "", nil, a, b)
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort == SBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
		if a == Not(b) {
			return tFalse
		}
	} else {
		a, b = numSort(a, b)
		if a == b {
			return tTrue
		}
		d := Sub(a, b)
		if d.op == OConst {
			return Bool(d.rat.Sign() == 0)
		}
		// ite with constant branches vs constant
		if b.op == OConst && a.op == OIte {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
		if a.op == OConst && b.op == OIte {
			return Ite(b.args[0], Eq(a, b.args[1]), Eq(a, b.args[2]))
		}
		if a.sort == SInt && distinctRefs(a, b) {
			return tFalse
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, SBool, "", nil, a, b)
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

// distinctRefs decides inequality from allocation serials: a term that denotes
// a reference existing before allocation s differs from the s-th allocation.
func distinctRefs(a, b *Term) bool {
	sa, oka := allocSerial[a]
	sb, okb := allocSerial[b]
	if oka && okb {
		return sa != sb
	}
	if oka && b.serial > 0 && b.serial <= sa {
		return true
	}
	if okb && a.serial > 0 && a.serial <= sb {
		return true
	}
	if oka && b.isConst() || okb && a.isConst() {
		return true // allocations are not nil / not small constants
	}
	return false
}

var allocSerial = map[*Term]int{}

func Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return tFalse
	case OFalse:
		return tTrue
	case ONot:
		return a.args[0]
	case OLe:
		return Lt(a.args[1], a.args[0])
	case OLt:
		return Le(a.args[1], a.args[0])
	}
	return mk(ONot, SBool, "", nil, a)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == tFalse {
			return false
		}
		if t == tTrue || seen[t] {
			return true
		}
		if t.op == OAnd {
			for _, a := range t.args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !rec(t) {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(OAnd, SBool, "", nil, out...)
}
func Or(ts ...*Term) *Term {
	var ns []*Term
	for _, t := range ts {
		ns = append(ns, Not(t))
	}
	n := And(ns...)
	if n == tFalse {
		return tTrue
	}
	if n == tTrue {
		return tFalse
	}
	if n.op == OAnd {
		var os []*Term
		for _, a := range n.args {
			os = append(os, Not(a))
		}
		return mk(OOr, SBool, "", nil, os...)
	}
	return Not(n)
}
func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.sort != b.sort {
		a, b = numSort(a, b)
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.sort == SMap {
		t := mk(MIte, SMap, "", nil, c, a, b)
		t.esort, t.arity = a.esort, a.arity
		return t
	}
	if a.sort == SBool {
		if a == tTrue {
			return Or(c, b)
		}
		if a == tFalse {
			return And(Not(c), b)
		}
		if b == tTrue {
			return Or(Not(c), a)
		}
		if b == tFalse {
			return And(c, a)
		}
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	t := mk(OIte, a.sort, "", nil, c, a, b)
	if t.serial == 0 && a.serial > 0 && b.serial > 0 {
		if a.serial > b.serial {
			t.serial = a.serial
		} else {
			t.serial = b.serial
		}
	}
	return t
}

func Forall(vars []*Term, body *Term) *Term { return quant(OForall, vars, body) }
func Exists(vars []*Term, body *Term) *Term { return quant(OExists, vars, body) }
func quant(op Op, vars []*Term, body *Term) *Term {
	if body == tTrue || body == tFalse || len(vars) == 0 {
		return body
	}
	used := boundVars(body)
	var vs []*Term
	for _, v := range vars {
		if used[v] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	return mk(op, SBool, "", nil, append(append([]*Term{}, vs...), body)...)
}

func boundVars(t *Term) map[*Term]bool {
	if t.nb != nil {
		return t.nb
	}
	m := map[*Term]bool{}
	if t.op == OBound {
		m[t] = true
	}
	for _, a := range t.args {
		for k := range boundVars(a) {
			m[k] = true
		}
	}
	if t.op == OForall || t.op == OExists {
		for _, b := range t.args[:len(t.args)-1] {
			delete(m, b)
		}
	}
	t.nb = m
	return m
}

// ---- maps

func BaseMap(name string, arity int, es Sort) *Term {
	t := mk(MBase, SMap, name, nil)
	t.esort, t.arity = es, arity
	return t
}
func Store(m *Term, keys []*Term, v *Term) *Term {
	if v.sort != m.esort {
		v = coerce(v, m.esort)
	}
	// overwrite of the same key
	if m.op == MStore {
		same := true
		for i := range keys {
			if m.args[1+i] != keys[i] {
				same = false
			}
		}
		if same {
			m = m.args[0]
		}
	}
	args := append([]*Term{m}, keys...)
	args = append(args, v)
	t := mk(MStore, SMap, "", nil, args...)
	t.esort, t.arity = m.esort, m.arity
	return t
}
func HavocMap(m, nb *Term, bvs []*Term, cond *Term) *Term {
	if cond == tTrue {
		return nb
	}
	if cond == tFalse {
		return m
	}
	args := append([]*Term{m, nb}, bvs...)
	args = append(args, cond)
	t := mk(MHavoc, SMap, "", nil, args...)
	t.esort, t.arity = m.esort, m.arity
	return t
}

// Select expands to applications of base maps.  decide(c) may settle key
// equalities from the path condition.
func Select(m *Term, keys []*Term, decide func(*Term) *Term) *Term {
	switch m.op {
	case MBase:
		return mk(OSel, m.esort, m.name, nil, keys...)
	case MStore:
		var eqs []*Term
		n := len(keys)
		for i := range keys {
			e := Eq(m.args[1+i], keys[i])
			if decide != nil && e.op == OEq {
				e = decide(e)
			}
			if e == tFalse {
				return Select(m.args[0], keys, decide)
			}
			eqs = append(eqs, e)
		}
		c := And(eqs...)
		if c == tTrue {
			return m.args[1+n]
		}
		return Ite(c, m.args[1+n], Select(m.args[0], keys, decide))
	case MConst:
		return m.args[0]
	case MCopy:
		d, do, src, sa, so, n := m.args[1], m.args[2], m.args[3], m.args[4], m.args[5], m.args[6]
		c := And(Eq(keys[0], d), Le(do, keys[1]), Lt(keys[1], Add(do, n)))
		if decide != nil {
			c = decide(c)
		}
		if c == tFalse {
			return Select(m.args[0], keys, decide)
		}
		v := Select(src, []*Term{sa, Add(Sub(keys[1], do), so)}, decide)
		if c == tTrue {
			return v
		}
		return Ite(c, v, Select(m.args[0], keys, decide))
	case MIte:
		c := m.args[0]
		if decide != nil {
			c = decide(c)
		}
		if c == tTrue {
			return Select(m.args[1], keys, decide)
		}
		if c == tFalse {
			return Select(m.args[2], keys, decide)
		}
		return Ite(c, Select(m.args[1], keys, decide), Select(m.args[2], keys, decide))
	case MHavoc:
		n := len(m.args)
		sub := map[*Term]*Term{}
		for i, bv := range m.args[2 : n-1] {
			sub[bv] = keys[i]
		}
		c := Subst(m.args[n-1], sub)
		if decide != nil {
			c = decide(c)
		}
		if c == tTrue {
			return Select(m.args[1], keys, decide)
		}
		if c == tFalse {
			return Select(m.args[0], keys, decide)
		}
		return Ite(c, Select(m.args[1], keys, decide), Select(m.args[0], keys, decide))
	}
	panic("Select on " + fmt.Sprint(m.op))
}

func CopyMap(m, dArr, dOff, src, sArr, sOff, n *Term) *Term {
	if n.isZero() {
		return m
	}
	t := mk(MCopy, SMap, "", nil, m, dArr, dOff, src, sArr, sOff, n)
	t.esort, t.arity = m.esort, m.arity
	return t
}

// Subst replaces terms (vars or bound vars) simultaneously and re-simplifies.
func Subst(t *Term, sub map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := sub[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		na := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = rec(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OAdd:
		return Add(a...)
	case OMul:
		return Mul(a...)
	case ODiv:
		return Div(a[0], a[1])
	case OIDiv:
		return IDiv(a[0], a[1])
	case OIMod:
		return IMod(a[0], a[1])
	case OLe:
		return Le(a[0], a[1])
	case OLt:
		return Lt(a[0], a[1])
	case OEq:
		return Eq(a[0], a[1])
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OIte, MIte:
		return Ite(a[0], a[1], a[2])
	case OToReal:
		return ToReal(a[0])
	case OFloor:
		return Floor(a[0])
	case OForall:
		return Forall(a[:len(a)-1], a[len(a)-1])
	case OExists:
		return Exists(a[:len(a)-1], a[len(a)-1])
	case MStore:
		return Store(a[0], a[1:len(a)-1], a[len(a)-1])
	case MHavoc:
		return HavocMap(a[0], a[1], a[2:len(a)-1], a[len(a)-1])
	case OApp:
		r := mk(t.op, t.sort, t.name, nil, a...)
		return r
	case OSel:
		r := mk(t.op, t.sort, t.name, nil, a...)
		if r.serial == 0 {
			r.serial = t.serial
		}
		return r
	}
	r := mk(t.op, t.sort, t.name, t.rat, a...)
	r.esort, r.arity = t.esort, t.arity
	return r
}

// Syms returns the free symbols of a term: variables, and base-map/function names
// applied to ground or non-ground arguments (as the application terms themselves when ground).
func Syms(t *Term) map[*Term]bool {
	if t.syms != nil {
		return t.syms
	}
	m := map[*Term]bool{}
	switch t.op {
	case OVar:
		m[t] = true
	case OSel, OApp:
		if len(boundVars(t)) == 0 {
			m[t] = true
		} else {
			m[mk(OVar, SMap, "fn:"+t.name, nil)] = true
		}
	}
	for _, a := range t.args {
		for k := range Syms(a) {
			m[k] = true
		}
	}
	t.syms = m
	return m
}

func (t *Term) String() string {
	return smtString(t)
}
