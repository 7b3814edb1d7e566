package main

// A small polynomial normaliser used as the first back end: an equality goal
// between real polynomials is decided by expanding both sides to a canonical sum
// of monomials (division-free; anything non-polynomial is an atom).

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
)

type poly map[string]*mono
type mono struct {
	coef *big.Rat
	vars []*Term
}

func monoKey(vs []*Term) string {
	var sb strings.Builder
	for _, v := range vs {
		fmt.Fprintf(&sb, "%d.", v.id)
	}
	return sb.String()
}

func (p poly) add(m *mono) {
	k := monoKey(m.vars)
	if o, ok := p[k]; ok {
		c := new(big.Rat).Add(o.coef, m.coef)
		if c.Sign() == 0 {
			delete(p, k)
		} else {
			p[k] = &mono{c, o.vars}
		}
		return
	}
	if m.coef.Sign() != 0 {
		p[k] = m
	}
}

const polyLimit = 4000

func toPoly(t *Term, memo map[*Term]poly) poly {
	if p, ok := memo[t]; ok {
		return p
	}
	var p poly
	switch t.op {
	case OConst:
		p = poly{}
		p.add(&mono{t.rat, nil})
	case OAdd:
		p = poly{}
		for _, a := range t.args {
			q := toPoly(a, memo)
			if q == nil {
				return nil
			}
			for _, m := range q {
				p.add(m)
			}
			if len(p) > polyLimit {
				return nil
			}
		}
	case OMul:
		p = poly{}
		p.add(&mono{ratOne, nil})
		for _, a := range t.args {
			q := toPoly(a, memo)
			if q == nil {
				return nil
			}
			r := poly{}
			for _, m1 := range p {
				for _, m2 := range q {
					vs := append(append([]*Term{}, m1.vars...), m2.vars...)
					sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
					r.add(&mono{new(big.Rat).Mul(m1.coef, m2.coef), vs})
				}
				if len(r) > polyLimit {
					return nil
				}
			}
			p = r
		}
	default:
		p = poly{}
		p.add(&mono{ratOne, []*Term{t}})
	}
	memo[t] = p
	return p
}

func ringEqual(facts []*Term, goal *Term) bool {
	switch goal.op {
	case OAnd:
		for _, a := range goal.args {
			if !ringEqual(facts, a) {
				return false
			}
		}
		return true
	case OEq:
		a, b := goal.args[0], goal.args[1]
		if a.sort == SBool {
			return false
		}
		memo := map[*Term]poly{}
		p := toPoly(Sub(a, b), memo)
		if p == nil || len(p) == 0 {
			return p != nil
		}
		return a.sort == SReal && eliminate(facts, p, memo)
	}
	return false
}

func (p poly) atoms(into map[*Term]bool) {
	for _, m := range p {
		for _, v := range m.vars {
			into[v] = true
		}
	}
}

// pivot finds an atom that p = 0 determines as a polynomial of the other atoms.
func (p poly) pivot() (*Term, *big.Rat) {
	var best *Term
	var coef *big.Rat
	for _, m := range p {
		if len(m.vars) != 1 || best != nil && m.vars[0].id < best.id {
			continue
		}
		v, alone := m.vars[0], true
		for _, o := range p {
			if o != m {
				for _, w := range o.vars {
					if w == v {
						alone = false
					}
				}
			}
		}
		if alone {
			best, coef = v, m.coef
		}
	}
	return best, coef
}

// subst replaces v by q in p; nil when the result gets too large.
func (p poly) subst(v *Term, q poly) poly {
	out := poly{}
	for _, m := range p {
		cur := poly{}
		var rest []*Term
		n := 0
		for _, w := range m.vars {
			if w == v {
				n++
			} else {
				rest = append(rest, w)
			}
		}
		cur.add(&mono{m.coef, rest})
		for ; n > 0; n-- {
			r := poly{}
			for _, m1 := range cur {
				for _, m2 := range q {
					vs := append(append([]*Term{}, m1.vars...), m2.vars...)
					sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
					r.add(&mono{new(big.Rat).Mul(m1.coef, m2.coef), vs})
				}
			}
			cur = r
		}
		for _, m1 := range cur {
			out.add(m1)
		}
		if len(out) > polyLimit {
			return nil
		}
	}
	return out
}

// eliminate reduces the goal polynomial by the equalities among the facts, each solved for one atom.
func eliminate(facts []*Term, goal poly, memo map[*Term]poly) bool {
	var eqs []poly
	var collect func(f *Term)
	collect = func(f *Term) {
		switch f.op {
		case OAnd:
			for _, a := range f.args {
				collect(a)
			}
		case OEq:
			if f.args[0].sort == SReal {
				if p := toPoly(Sub(f.args[0], f.args[1]), memo); p != nil && len(p) > 0 && len(p) <= 200 {
					eqs = append(eqs, p)
				}
			}
		}
	}
	for _, f := range facts {
		collect(f)
	}
	// keep the equalities connected to the goal
	seen := map[*Term]bool{}
	goal.atoms(seen)
	used := make([]bool, len(eqs))
	var rel []poly
	for again := true; again && len(rel) < 60; {
		again = false
		for i, e := range eqs {
			if used[i] {
				continue
			}
			at := map[*Term]bool{}
			e.atoms(at)
			hit := false
			for a := range at {
				if seen[a] {
					hit = true
				}
			}
			if hit {
				used[i], again = true, true
				rel = append(rel, e)
				for a := range at {
					seen[a] = true
				}
			}
		}
	}
	sort.SliceStable(rel, func(i, j int) bool { return len(rel[i]) < len(rel[j]) })
	type sub struct {
		v *Term
		q poly
	}
	var subs []sub
	reduce := func(p poly) poly {
		for _, s := range subs {
			if p = p.subst(s.v, s.q); p == nil {
				return nil
			}
		}
		return p
	}
	for _, e := range rel {
		if e = reduce(e); e == nil {
			continue
		}
		v, c := e.pivot()
		if v == nil {
			continue
		}
		q := poly{}
		for _, m := range e {
			if len(m.vars) == 1 && m.vars[0] == v {
				continue
			}
			q.add(&mono{new(big.Rat).Neg(new(big.Rat).Quo(m.coef, c)), m.vars})
		}
		subs = append(subs, sub{v, q})
		if len(subs) > 40 {
			break
		}
	}
	p := reduce(goal)
	if os.Getenv("GOVC_RING") != "" && len(p) > 0 {
		fmt.Fprintln(os.Stderr, "RING", len(eqs), len(rel), len(subs))
		for _, m := range p {
			fmt.Fprint(os.Stderr, "   ", m.coef)
			for _, v := range m.vars {
				fmt.Fprint(os.Stderr, " ", v)
			}
			fmt.Fprintln(os.Stderr)
		}
	}
	return p != nil && len(p) == 0
}
