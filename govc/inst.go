package main

// Quantifier instantiation: a ground weakening of facts && not goal.
// Quantified facts are replaced by finitely many of their instances (sound: the facts only get weaker).

import (
	"fmt"
	"sort"
	"strings"
)

type instCands struct {
	reals, ints []*Term
}

func gatherCands(ts []*Term) instCands {
	type sc struct {
		t *Term
		n int
	}
	var rs, is []sc
	seen := map[*Term]bool{}
	consider := func(t *Term, pri int) {
		if seen[t] || len(boundVars(t)) > 0 {
			return
		}
		seen[t] = true
		switch t.sort {
		case SReal:
			rs = append(rs, sc{t, pri})
		case SInt:
			is = append(is, sc{t, pri})
		}
	}
	collect(ts, func(t *Term) {
		switch t.op {
		case OVar:
			p := 5
			if strings.HasPrefix(t.name, "sk!") {
				p = 0
			} else if strings.HasPrefix(t.name, "r@") {
				p = 1
			}
			consider(t, p)
		case OSel, OApp:
			if t.sort == SInt || t.sort == SReal {
				consider(t, 6)
			}
			for _, a := range t.args {
				if a.sort == SInt && a.op != OConst {
					consider(a, 3)
				}
			}
		}
	})
	pick := func(l []sc, max int) []*Term {
		sort.SliceStable(l, func(i, j int) bool { return l[i].n < l[j].n })
		var out []*Term
		for _, x := range l {
			if len(out) >= max {
				break
			}
			out = append(out, x.t)
		}
		return out
	}
	return instCands{pick(rs, 6), pick(is, 6)}
}

// linOff returns rest when t = rest + b with rest free of b.
func linOff(t, b *Term) *Term {
	if t == b {
		if b.sort == SReal {
			return RealC(0)
		}
		return IntC(0)
	}
	if t.op != OAdd {
		return nil
	}
	var rest []*Term
	found := false
	for _, a := range t.args {
		if a == b && !found {
			found = true
			continue
		}
		if boundVars(a)[b] {
			return nil
		}
		rest = append(rest, a)
	}
	if !found {
		return nil
	}
	r := rest[0]
	for _, x := range rest[1:] {
		r = Add(r, x)
	}
	return r
}

type selKey struct {
	name string
	pos  int
}

// family names relate the versions of one map.
func family(n string) string {
	n = strings.TrimPrefix(n, "lp.")
	n = strings.TrimPrefix(n, "H.")
	if i := strings.IndexByte(n, '@'); i >= 0 {
		n = n[:i]
	}
	return n
}

// groundInst returns a ground weakening of facts && not goal, or nil when nothing was instantiated.
// Integer quantifiers are instantiated by matching their index terms against ground ones.
func groundInst(facts []*Term, goal *Term, rounds, perVar int) []*Term {
	neg := addFact(nil, Not(goal))
	var base, quant []*Term
	for _, f := range append(append([]*Term{}, neg...), facts...) {
		if f.hasQ {
			quant = append(quant, f)
		} else {
			base = append(base, f)
		}
	}
	if len(quant) == 0 {
		return nil
	}
	gc := gatherCands(neg)
	all := gatherCands(append(append([]*Term{}, neg...), base...))
	reals := mergeTerms(gc.reals, all.reals, 6)
	ints := mergeTerms(gc.ints, all.ints, 4)
	ground := map[selKey][]*Term{}
	inGround := map[selKey]map[*Term]bool{}
	visited := map[*Term]bool{}
	note := func(ts []*Term) {
		collect(ts, func(t *Term) {
			if visited[t] {
				return
			}
			visited[t] = true
			if (t.op == OSel || t.op == OApp) && len(boundVars(t)) == 0 {
				for i, a := range t.args {
					k := selKey{family(t.name), i}
					if inGround[k] == nil {
						inGround[k] = map[*Term]bool{}
					}
					if !inGround[k][a] {
						inGround[k][a] = true
						ground[k] = append(ground[k], a)
					}
				}
			}
		})
	}
	var negBase []*Term
	for _, f := range neg {
		if !f.hasQ {
			negBase = append(negBase, f)
		}
	}
	note(negBase)
	note(base)
	any := false
	budget := 600
	var weaken func(t *Term, pos bool) *Term // nil: cannot be made ground
	inst := func(q *Term, pos bool) *Term {
		n := len(q.args)
		bs := q.args[:n-1]
		body := q.args[n-1]
		subs := []map[*Term]*Term{{}}
		for _, b := range bs {
			var cs []*Term
			have := map[*Term]bool{}
			if b.sort == SInt {
				collect([]*Term{body}, func(t *Term) {
					if t.op != OSel && t.op != OApp {
						return
					}
					for i, a := range t.args {
						if !boundVars(a)[b] {
							continue
						}
						rest := linOff(a, b)
						if rest == nil {
							continue
						}
						if len(boundVars(rest)) > 0 {
							continue
						}
						gs := ground[selKey{family(t.name), i}]
						if perVar > 8 {
							gs = skolemFirst(gs)
						}
						for _, g := range gs {
							if len(cs) >= perVar {
								return
							}
							c := Sub(g, rest)
							if !have[c] {
								have[c] = true
								cs = append(cs, c)
							}
						}
					}
				})
				if len(cs) < perVar {
					for _, c := range ints {
						if !have[c] && len(cs) < perVar {
							have[c] = true
							cs = append(cs, c)
						}
					}
				}
			} else if b.sort == SReal {
				cs = reals
			}
			if len(cs) == 0 {
				return nil
			}
			if n-1 > 1 && len(cs) > 5 {
				cs = cs[:5]
			}
			var ns []map[*Term]*Term
			for _, s := range subs {
				for _, c := range cs {
					m := map[*Term]*Term{}
					for k, v := range s {
						m[k] = v
					}
					m[b] = c
					ns = append(ns, m)
				}
			}
			subs = ns
			if len(subs) > 60 {
				subs = subs[:60]
			}
		}
		var out []*Term
		for _, s := range subs {
			if budget <= 0 {
				break
			}
			budget--
			x := weaken(Subst(body, s), pos)
			if x != nil {
				out = append(out, x)
			}
		}
		if len(out) == 0 {
			return nil
		}
		any = true
		if pos {
			return And(out...)
		}
		return Or(out...)
	}
	weaken = func(t *Term, pos bool) *Term {
		if !t.hasQ {
			return t
		}
		switch t.op {
		case OAnd, OOr:
			var out []*Term
			for _, a := range t.args {
				x := weaken(a, pos)
				if x == nil {
					// dropping a conjunct weakens a positive conjunction; dropping a disjunct weakens a negated disjunction
					if (t.op == OAnd) == pos {
						continue
					}
					return nil
				}
				out = append(out, x)
			}
			if t.op == OAnd {
				return And(out...)
			}
			return Or(out...)
		case ONot:
			x := weaken(t.args[0], !pos)
			if x == nil {
				return nil
			}
			return Not(x)
		case OForall:
			if pos {
				return inst(t, true)
			}
			if len(boundVars(t)) == 0 {
				return weaken(skolem(t), false)
			}
		case OExists:
			if !pos {
				return inst(t, false)
			}
			if len(boundVars(t)) == 0 {
				return weaken(skolem(t), true)
			}
		}
		return nil
	}
	var out []*Term
	for r := 0; r < rounds; r++ {
		budget = 600
		if perVar > 8 {
			budget = 3000
		}
		out = append([]*Term{}, base...)
		var insts []*Term
		for _, f := range quant {
			if x := weaken(f, true); x != nil {
				insts = append(insts, x)
			}
		}
		out = append(out, insts...)
		if !any {
			return nil
		}
		before := len(visited)
		note(insts)
		if len(visited) == before {
			break
		}
	}
	return out
}

// skolemFirst moves the terms built from skolem constants to the front.
func skolemFirst(ts []*Term) []*Term {
	var a, b []*Term
	for _, t := range ts {
		sk := false
		collect([]*Term{t}, func(x *Term) { sk = sk || x.op == OVar && strings.HasPrefix(x.name, "sk!") })
		if sk {
			a = append(a, t)
		} else {
			b = append(b, t)
		}
	}
	return append(a, b...)
}

func mergeTerms(a, b []*Term, max int) []*Term {
	m := map[*Term]bool{}
	var out []*Term
	for _, t := range append(append([]*Term{}, a...), b...) {
		if !m[t] && len(out) < max {
			m[t] = true
			out = append(out, t)
		}
	}
	return out
}

// uninterpretedMul replaces nonlinear products by an uninterpreted function (a weakening).
func uninterpretedMul(fs []*Term) ([]*Term, bool) {
	memo := map[*Term]*Term{}
	any := false
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		na := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = rec(a)
			ch = ch || na[i] != a
		}
		r := t
		if t.op == OMul {
			var cs, vs []*Term
			for i, a := range t.args {
				if a.op == OConst {
					cs = append(cs, a)
				} else {
					vs = append(vs, na[i])
				}
			}
			if len(vs) > 1 {
				any = true
				r = vs[0]
				for _, v := range vs[1:] {
					r = App("umul", SReal, coerce(r, SReal), coerce(v, SReal))
				}
				for _, c := range cs {
					r = Mul(c, r)
				}
			} else if ch {
				r = rebuild(t, na)
			}
		} else if ch {
			r = rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	out := make([]*Term, len(fs))
	for i, f := range fs {
		out[i] = rec(f)
	}
	return out, any
}

// abstractApps replaces outermost ground applications by fresh symbols (a weakening: only their axioms remain).
func abstractApps(fs []*Term) ([]*Term, bool) {
	memo := map[*Term]*Term{}
	any := false
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.args) == 0 || t.op == OForall || t.op == OExists {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.op == OApp && len(boundVars(t)) == 0 && t.sort == SReal {
			any = true
			r = Var(fmt.Sprintf("abs!%d", t.id), SReal)
		} else {
			na := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				na[i] = rec(a)
				ch = ch || na[i] != a
			}
			r = t
			if ch {
				r = rebuild(t, na)
			}
		}
		memo[t] = r
		return r
	}
	out := make([]*Term, len(fs))
	for i, f := range fs {
		out[i] = rec(f)
	}
	return out, any
}
