package main

import (
	"go/ast"
)

// A contract may be stated for integers it does not otherwise name (given K): its clauses hold for
// whatever value they have. In the function's own verification each is an unknown constant; a caller
// may use the postconditions for all values.

func (u *Unit) given(name string) *Term {
	if u.givenVals == nil {
		u.givenVals = map[string]*Term{}
	}
	t := u.givenVals[name]
	if t == nil {
		t = Fresh("given:"+name, SInt, nil)
		u.givenVals[name] = t
	}
	return t
}

// bindGivens makes the contract's givens known to its clauses, in its own verification.
func (c *ctx) bindGivens(ct *Contract) {
	for _, n := range ct.givens {
		c.names[n] = ti(c.u.given(n))
	}
}

// givenDeps lists the givens and the lets that depend on them.
func (ct *Contract) givenDeps() map[string]bool {
	if len(ct.givens) == 0 {
		return nil
	}
	m := map[string]bool{}
	for _, n := range ct.givens {
		m[n] = true
	}
	for _, lt := range ct.lets {
		if mentions(lt.c.expr, m) {
			m[lt.name] = true
		}
	}
	return m
}

func mentions(x ast.Expr, m map[string]bool) bool {
	found := false
	ast.Inspect(x, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && m[id.Name] {
			found = true
		}
		return !found
	})
	return found
}

// evalGiven evaluates a postcondition for all values of the contract's givens.
func (c *ctx) evalGiven(ct *Contract, pre *ctx, e ast.Expr) *Term {
	n, p := c.sub(), pre.sub()
	n.names = map[string]TV{}
	for k, v := range c.names {
		n.names[k] = v
	}
	p.names = map[string]TV{}
	for k, v := range pre.names {
		p.names[k] = v
	}
	deps := ct.givenDeps()
	var ks []*Term
	for _, g := range ct.givens {
		k := BoundVar(g)
		ks = append(ks, k)
		n.bound[g], p.bound[g] = k, k
	}
	for _, lt := range ct.lets {
		if deps[lt.name] {
			v := p.eval(lt.c.expr)
			p.names[lt.name], n.names[lt.name] = v, v
		}
	}
	t := n.evalBool(e)
	for i := len(ks) - 1; i >= 0; i-- {
		t = mkQuant(true, ks[i], nil, nil, t)
	}
	return t
}

// A quantified invariant or postcondition about a given, when it is labelled, is of use mostly to the
// clauses of the same label: it is left out of the first attempt at the others (privateFacts, by label).

func (u *Unit) markPrivate(cl *clause, t *Term) {
	if cl == nil || !cl.named || u.ct == nil || !mentions(cl.expr, u.ct.givenDeps()) || !hasQuantifier(t) {
		return
	}
	if u.private == nil {
		u.private = map[*Term]string{}
	}
	u.private[t] = cl.label
}

func (u *Unit) withoutPrivate(facts []Fact, label string) ([]Fact, bool) {
	if len(u.private) == 0 {
		return facts, false
	}
	var out []Fact
	for i, f := range facts {
		l, ok := u.private[f.f]
		if !ok || l == label {
			if out != nil {
				out = append(out, f)
			}
			continue
		}
		if out == nil {
			out = append(make([]Fact, 0, len(facts)), facts[:i]...)
		}
	}
	if out == nil {
		return facts, false
	}
	return out, true
}

// markLabel remembers what a proved clause is called, for the clauses that say what they follow from.
func (u *Unit) markLabel(cl *clause, t *Term) {
	if cl.named {
		if u.labels == nil {
			u.labels = map[*Term]string{}
		}
		u.labels[t] = cl.label
	}
}

// factsFrom keeps the facts with these labels and those without quantifiers; and tells whether a theorem
// is among the labels.
func (u *Unit) factsFrom(facts []Fact, from []string) (out []Fact, thms bool) {
	in := map[string]bool{}
	for _, l := range from {
		in[l] = true
	}
	for _, f := range facts {
		if l, ok := u.labels[f.f]; ok && in[l] || !hasQuantifier(f.f) {
			out = append(out, f)
		}
	}
	for _, th := range theoremAx {
		thms = thms || in[th.name]
	}
	return out, thms
}

func hasQuantifier(t *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OForall || t.op == OExists {
			return true
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}
