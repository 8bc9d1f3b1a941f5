package main

// Theorems: facts about recursively defined functions, for all arguments (arrays included), proved by
// induction among the obligations of the contract that states them and then available everywhere.

import (
	"fmt"
	"go/ast"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const noTheorem = "no-theorem?"

type theorem struct {
	name   string
	props  []string
	params []string
	arr    map[string]bool
	trig   []ast.Expr
	indVar string
	lo, hi ast.Expr
	ind    ast.Expr
	body   ast.Expr
}

type thmAx struct {
	name  string
	names []string
	ax    *Term
}

var theoremAx []*thmAx

// parseTheorem reads: [props] name(a[], x, ...) on T1, T2 by k, lo, hi, P: HYP ==> CONCL
func parseTheorem(s string) (*theorem, error) {
	th := &theorem{arr: map[string]bool{}}
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[") {
		j := strings.IndexByte(s, ']')
		for _, p := range strings.Split(s[1:j], ",") {
			th.props = append(th.props, strings.TrimSpace(p))
		}
		s = strings.TrimSpace(s[j+1:])
	}
	i, on, by := strings.IndexByte(s, '('), strings.Index(s, " on "), strings.Index(s, " by ")
	col := -1
	if by > 0 {
		col = strings.Index(s[by:], ": ")
	}
	if i < 0 || on < i || by < on || col < 0 {
		return nil, fmt.Errorf("bad theorem")
	}
	th.name = s[:i]
	for _, p := range strings.Split(s[i+1:strings.IndexByte(s, ')')], ",") {
		p = strings.TrimSpace(p)
		if strings.HasSuffix(p, "[]") {
			p = strings.TrimSuffix(p, "[]")
			th.arr[p] = true
		}
		th.params = append(th.params, p)
	}
	for _, t := range splitTop(s[on+4 : by]) {
		e, err := parseSpecExpr(t)
		if err != nil {
			return nil, err
		}
		th.trig = append(th.trig, e)
	}
	ps := splitTop(s[by+4 : by+col])
	if len(ps) != 4 {
		return nil, fmt.Errorf("theorem: by k, lo, hi, P")
	}
	th.indVar = strings.TrimSpace(ps[0])
	for j, d := range []*ast.Expr{&th.lo, &th.hi, &th.ind} {
		e, err := parseSpecExpr(ps[j+1])
		if err != nil {
			return nil, err
		}
		*d = e
	}
	e, err := parseSpecExpr(s[by+col+2:])
	if err != nil {
		return nil, err
	}
	th.body = e
	return th, nil
}

func (u *Unit) theoremCtx(th *theorem, st *State, mk func(n string, s Sort) *Term) (*ctx, []*Term) {
	c := u.newCtx(st, st)
	c.names = map[string]TV{}
	var vs []*Term
	for _, p := range th.params {
		s := SInt
		if th.arr[p] {
			s = SArr
		}
		v := mk(p, s)
		vs = append(vs, v)
		c.names[p] = ti(v)
	}
	return c, vs
}

func (e *Engine) setupTheorems() {
	var any *ssa.Function
	for _, f := range e.fns {
		any = f
		break
	}
	for _, th := range e.specs.theorems {
		u := e.newUnit("theorem "+th.name, any)
		st := &State{gset: map[*Term]bool{}, heap: map[string]*Term{}, mark: Num(0), objs: map[int]*ConcObj{}, env: map[ssa.Value]Val{}}
		n := 0
		c, vs := u.theoremCtx(th, st, func(p string, s Sort) *Term {
			n++
			return Sym(fmt.Sprintf("%s?th%d", p, n), s, &SymMeta{isBound: true})
		})
		c.inRec = true
		a := &thmAx{name: th.name}
		var pats []*Term
		for _, t := range th.trig {
			x := c.evalInt(t)
			a.names = append(a.names, x.name)
			pats = append(pats, x)
		}
		a.ax = quantRaw(vs, c.evalBool(th.body), [][]*Term{pats})
		theoremAx = append(theoremAx, a)
	}
}

func (u *Unit) checkTheorems(fn *ssa.Function, ct *Contract, pre *State) {
	for _, th := range ct.theorems {
		c, _ := u.theoremCtx(th, pre, func(p string, s Sort) *Term { return Fresh(p, s, nil) })
		hyp, concl := tTrue, tTrue
		if b, ok := th.body.(*ast.CallExpr); ok && exprStr(b.Fun) == "imp" && len(b.Args) == 2 {
			hyp, concl = c.evalBool(b.Args[0]), c.evalBool(b.Args[1])
		} else {
			concl = c.evalBool(th.body)
		}
		at := func(i *Term) *Term {
			n := c.sub()
			n.bound[th.indVar] = i
			return n.evalBool(th.ind)
		}
		lo, hi := c.evalInt(th.lo), c.evalInt(th.hi)
		plain := mk(&Term{op: OSym, sort: SBool, name: noTheorem, meta: &SymMeta{}})
		ob := func(part string, hs []*Term, g *Term) {
			u.oblige(pre, "lemma", "theorem "+th.name+": "+part, fn.Pos(), Imp(And(append(hs, plain)...), g), th.props...)
		}
		v := Fresh("ind", SInt, nil)
		ob("base", []*Term{hyp, Le(lo, hi)}, at(lo))
		ob("step", []*Term{hyp, Le(lo, v), Lt(v, hi), at(v)}, at(AddI(v, 1)))
		ob("end", []*Term{hyp, Imp(Le(lo, hi), at(hi))}, concl)
	}
}
