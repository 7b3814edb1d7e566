package main

// Query preprocessing: goals are split into sequents, outer universals of goals and
// existentials of facts are skolemised, and facts `x == constant` are substituted.

import (
	"fmt"
	"math/big"
)

func skolem(q *Term) *Term {
	n := len(q.args)
	sub := map[*Term]*Term{}
	for _, b := range q.args[:n-1] {
		sub[b] = Var(fmt.Sprintf("sk!%s!%d", b.name, q.id), b.sort)
	}
	return Subst(q.args[n-1], sub)
}

// addFact appends a fact in pieces; reports false when it is contradictory.
func addFact(fs []*Term, f *Term) []*Term {
	switch f.op {
	case OTrue:
		return fs
	case OAnd:
		for _, a := range f.args {
			fs = addFact(fs, a)
		}
		return fs
	case OExists:
		return addFact(fs, skolem(f))
	case ONot:
		if f.args[0].op == OForall {
			return addFact(fs, Not(skolem(f.args[0])))
		}
		if f.args[0].op == OOr {
			for _, a := range f.args[0].args {
				fs = addFact(fs, Not(a))
			}
			return fs
		}
	}
	return append(fs, f)
}

const maxSplit = 64

// sequents splits facts => goal.
func sequents(facts []*Term, goal *Term, n *int) []Query {
	*n++
	if *n < maxSplit {
		switch goal.op {
		case OForall:
			return sequents(facts, skolem(goal), n)
		case OAnd:
			var out []Query
			for _, a := range goal.args {
				out = append(out, sequents(facts, a, n)...)
			}
			return out
		case OOr:
			// assume the negations of all disjuncts but one (prefer to keep a complex positive one)
			best := -1
			score := func(t *Term) int {
				switch t.op {
				case OAnd, OForall, OIte:
					return 5
				case OExists:
					return 1
				case ONot:
					switch t.args[0].op {
					case OOr, OExists:
						return 4
					}
					return 0
				case OEq:
					if t.args[0].sort == SBool {
						return 5
					}
					return 3
				}
				return 2
			}
			for i, a := range goal.args {
				if best < 0 || score(a) > score(goal.args[best]) {
					best = i
				}
			}
			if score(goal.args[best]) < 1 {
				break
			}
			fs := append([]*Term{}, facts...)
			for i, a := range goal.args {
				if i != best {
					fs = addFact(fs, Not(a))
				}
			}
			return sequents(fs, goal.args[best], n)
		case ONot:
			x := goal.args[0]
			switch x.op {
			case OOr:
				var out []Query
				for _, a := range x.args {
					out = append(out, sequents(facts, Not(a), n)...)
				}
				return out
			case OAnd:
				fs := append([]*Term{}, facts...)
				for _, a := range x.args[:len(x.args)-1] {
					fs = addFact(fs, a)
				}
				return sequents(fs, Not(x.args[len(x.args)-1]), n)
			case OExists:
				return sequents(facts, Not(skolem(x)), n)
			case OEq:
				if x.args[0].sort == SBool {
					a, b := x.args[0], x.args[1]
					return append(sequents(addFact(append([]*Term{}, facts...), a), Not(b), n), sequents(addFact(append([]*Term{}, facts...), Not(a)), b, n)...)
				}
			}
		case OEq:
			if goal.args[0].sort == SBool {
				a, b := goal.args[0], goal.args[1]
				return append(sequents(addFact(append([]*Term{}, facts...), a), b, n), sequents(addFact(append([]*Term{}, facts...), b), a, n)...)
			}
		case OIte:
			c := goal.args[0]
			return append(sequents(addFact(append([]*Term{}, facts...), c), goal.args[1], n), sequents(addFact(append([]*Term{}, facts...), Not(c)), goal.args[2], n)...)
		}
	}
	return []Query{{facts, goal}}
}

// constSubst replaces variables and ground selects known equal to constants.
func constSubst(facts []*Term, goal *Term) ([]*Term, *Term) {
	for round := 0; round < 3; round++ {
		sub := map[*Term]*Term{}
		for _, f := range facts {
			if f.op == OEq && f.args[0].sort != SBool {
				a, b := f.args[0], f.args[1]
				if a.isConst() {
					a, b = b, a
				}
				if b.isConst() && a.op == OVar {
					sub[a] = b
				}
			}
		}
		if len(sub) == 0 {
			return facts, goal
		}
		var nf []*Term
		for _, f := range facts {
			if f.op == OEq && (sub[f.args[0]] != nil || sub[f.args[1]] != nil) {
				if sub[f.args[0]] == f.args[1] || sub[f.args[1]] == f.args[0] {
					// keep for axioms about the symbol itself
					nf = append(nf, f)
					continue
				}
			}
			nf = addFact(nf, Subst(f, sub))
		}
		ng := Subst(goal, sub)
		same := ng == goal && len(nf) == len(facts)
		if same {
			for i := range nf {
				if nf[i] != facts[i] {
					same = false
				}
			}
		}
		facts, goal = nf, ng
		if same {
			break
		}
	}
	return facts, goal
}

// atomKey canonicalises a linear-looking atom a <= b / a < b / a = b up to scaling.
func atomKey(t *Term) (string, bool) {
	neg := false
	if t.op == ONot {
		neg = true
		t = t.args[0]
	}
	if t.op != OLe && t.op != OLt && t.op != OEq || t.args[0].sort == SBool {
		return "", false
	}
	p := toPoly(Sub(t.args[1], t.args[0]), map[*Term]poly{})
	if p == nil {
		return "", false
	}
	op := map[Op]string{OLe: "<=", OLt: "<", OEq: "="}[t.op]
	sign := 1
	if neg {
		switch op {
		case "<=":
			op, sign = "<", -1
		case "<":
			op, sign = "<=", -1
		default:
			op = "!="
		}
	}
	var ks []string
	for k := range p {
		if k != "" {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return "", false
	}
	sortStrings(ks)
	lead := p[ks[0]].coef
	if sign < 0 {
		lead = new(big.Rat).Neg(lead)
	}
	sc := new(big.Rat).Abs(lead)
	if op == "=" || op == "!=" {
		sc = lead
	}
	if sign < 0 {
		sc = new(big.Rat).Neg(sc)
	}
	if (op == "=" || op == "!=") && sign < 0 {
		sc = new(big.Rat).Neg(sc)
	}
	sb := op
	if m, ok := p[""]; ok {
		sb += new(big.Rat).Quo(m.coef, sc).RatString()
	}
	for _, k := range ks {
		sb += "|" + k + ":" + new(big.Rat).Quo(p[k].coef, sc).RatString()
	}
	return sb, true
}

// resolveIte decides conditions of conditional terms that follow literally from a fact.
func resolveIte(facts []*Term, goal *Term) ([]*Term, *Term) {
	known := map[string]bool{}
	for _, f := range facts {
		if k, ok := atomKey(f); ok {
			known[k] = true
		}
	}
	if len(known) == 0 {
		return facts, goal
	}
	decide := func(c *Term) int {
		k, ok := atomKey(c)
		if !ok {
			return 0
		}
		nk, _ := atomKey(Not(c))
		has := func(k string) bool {
			if known[k] {
				return true
			}
			if len(k) > 2 && k[:2] == "<=" { // a < b gives a <= b
				return known["<"+k[2:]] || known["="+k[2:]]
			}
			return false
		}
		if has(k) {
			return 1
		}
		if has(nk) {
			return -1
		}
		return 0
	}
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.args) == 0 || t.sort == SMap {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.op == OIte {
			c := rec(t.args[0])
			switch d := decide(c); {
			case c == tTrue || d > 0:
				r = rec(t.args[1])
			case c == tFalse || d < 0:
				r = rec(t.args[2])
			default:
				r = Ite(c, rec(t.args[1]), rec(t.args[2]))
			}
		} else {
			na := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				na[i] = rec(a)
				ch = ch || na[i] != a
			}
			r = t
			if ch {
				r = rebuild(t, na)
			}
		}
		memo[t] = r
		return r
	}
	var nf []*Term
	for _, f := range facts {
		nf = addFact(nf, rec(f))
	}
	return nf, rec(goal)
}
