package main

// SMT-LIB printing and solver processes.

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type query struct {
	asserts []*Term
	syms    map[*Term]bool
	apps    map[string]*Term
	extra   []*Term
	copies  map[*Term]*Term // OCopy -> symbol
	seen    map[*Term]bool
	qsel    map[*Term]bool // array symbols selected with bound index
	done    map[*Term]bool
	out     bytes.Buffer
	names   map[*Term]string
}

func numStr(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func rangeFact(t *Term, lo, hi *big.Int) []*Term {
	var out []*Term
	raw := func(op Op, d *Term) *Term { return mk(&Term{op: op, sort: SBool, args: []*Term{d}}) }
	if lo != nil {
		out = append(out, raw(OLe0, Sub(NumB(lo), t)))
	}
	if hi != nil {
		out = append(out, raw(OLe0, Sub(t, NumB(hi))))
	}
	return out
}

// baseSym returns the array symbol under nested selects, or nil.
func baseSym(a *Term) *Term {
	for a.op == OSelect {
		a = a.args[0]
	}
	if a.op == OSym {
		return a
	}
	if a.op == OApp && !a.bound {
		if _, ok := appRange[a.name]; ok {
			return a
		}
	}
	return nil
}

// metaOf returns what is known about an array symbol or array-valued application.
func metaOf(b *Term) *SymMeta {
	if b.op == OApp {
		return appRange[b.name]
	}
	return b.meta
}

func rawLe(a, b *Term) *Term {
	return mk(&Term{op: OLe0, sort: SBool, args: []*Term{Sub(a, b)}})
}

// collect walks a term, registering symbols and emitting the metadata facts about ground subterms.
func (q *query) collect(t *Term) {
	if q.seen[t] {
		return
	}
	q.seen[t] = true
	switch t.op {
	case OSym:
		if t.meta.isBound {
			return
		}
		q.syms[t] = true
		m := t.meta
		if t.sort == SInt {
			for _, f := range rangeFact(t, m.lo, m.hi) {
				q.extra = append(q.extra, f)
			}
			if m.refUB != nil {
				q.add(rawLe(t, m.refUB))
			}
			for _, l := range m.refLBs {
				q.add(rawLe(l, t))
			}
		}
		for _, a := range m.axioms {
			q.add(a)
		}
		return
	case OCopy:
		if !t.bound {
			if _, ok := q.copies[t]; !ok {
				s := Sym(fmt.Sprintf("copy!%d", t.id), t.sort, nil)
				q.copies[t] = s
				q.syms[s] = true
				j := Sym("cpj?", SInt, &SymMeta{isBound: true})
				lhs := mk(&Term{op: OSelect, sort: t.sort.elem(), args: []*Term{s, j}})
				rhs := Select(t, j)
				q.add(quantRaw([]*Term{j}, mk(&Term{op: eqOp(t.sort.elem()), sort: SBool, args: eqArgs(t.sort.elem(), lhs, rhs)}), [][]*Term{{lhs}}))
			}
		}
	case OApp:
		if _, ok := q.apps[t.name]; !ok {
			q.apps[t.name] = t
		}
		if ax := recAx[t]; ax != nil {
			q.add(ax)
		}
		if m, ok := appRange[t.name]; ok && !t.bound && t.sort == SInt {
			q.extra = append(q.extra, rangeFact(t, m.lo, m.hi)...)
		}
	}
	for _, a := range t.args {
		q.collect(a)
	}
	for _, p := range t.pats {
		for _, x := range p {
			q.collect(x)
		}
	}
	if t.op == OSelect {
		b := baseSym(t)
		if b != nil {
			if t.bound {
				if !q.qsel[b] {
					q.qsel[b] = true
					q.quantAxioms(b)
				}
			} else {
				if t.sort == SInt {
					bm := metaOf(b)
					q.extra = append(q.extra, rangeFact(t, bm.lo, bm.hi)...)
					if bm.refUB != nil {
						q.add(rawLe(t, bm.refUB))
					}
				}
				q.frameInst(t)
			}
		}
	}
}

// frameInst adds the frame instance for a ground select directly on a framed symbol.
func (q *query) frameInst(t *Term) {
	b := t.args[0]
	if b.op != OSym || b.meta.frameBase == nil {
		return
	}
	i := t.args[1]
	m := b.meta
	g := []*Term{Le(i, m.frameUB)}
	for _, x := range m.frameExc {
		g = append(g, Ne(i, x))
	}
	v := Select(m.frameBase, i)
	q.add(Imp(And(g...), Eq(t, v)))
}

func eqOp(s Sort) Op {
	if s == SInt {
		return OEq0
	}
	return OEqB
}
func eqArgs(s Sort, a, b *Term) []*Term {
	if s == SInt {
		return []*Term{Sub(a, b)}
	}
	return []*Term{a, b}
}

func quantRaw(vars []*Term, body *Term, pats [][]*Term) *Term {
	args := append(append([]*Term{}, vars...), body)
	t := mk(&Term{op: OForall, sort: SBool, args: args, pats: pats})
	t.bound = hasOtherBound(body, vars)
	return t
}

// quantAxioms: element range / reference bound / frame of an array symbol, quantified.
func (q *query) quantAxioms(b *Term) {
	m := metaOf(b)
	j := Sym("qj?", SInt, &SymMeta{isBound: true})
	k := Sym("qk?", SInt, &SymMeta{isBound: true})
	var sel *Term
	vars := []*Term{j}
	switch b.sort {
	case SArr:
		sel = mk(&Term{op: OSelect, sort: SInt, args: []*Term{b, j}})
	case SArr2:
		row := mk(&Term{op: OSelect, sort: SArr, args: []*Term{b, j}})
		sel = mk(&Term{op: OSelect, sort: SInt, args: []*Term{row, k}})
		vars = append(vars, k)
	}
	if sel != nil {
		fs := rangeFact(sel, m.lo, m.hi)
		if m.refUB != nil {
			fs = append(fs, rawLe(sel, m.refUB))
		}
		if len(fs) > 0 {
			body := fs[0]
			if len(fs) > 1 {
				body = mk(&Term{op: OAnd, sort: SBool, args: fs})
			}
			q.add(quantRaw(vars, body, [][]*Term{{sel}}))
		}
	}
	if m.frameBase != nil {
		row := mk(&Term{op: OSelect, sort: b.sort.elem(), args: []*Term{b, j}})
		g := []*Term{Le(j, m.frameUB)}
		for _, x := range m.frameExc {
			g = append(g, Ne(j, x))
		}
		v := Select(m.frameBase, j)
		body := Imp(And(g...), mk(&Term{op: eqOp(b.sort.elem()), sort: SBool, args: eqArgs(b.sort.elem(), row, v)}))
		q.add(quantRaw([]*Term{j}, body, [][]*Term{{row}}))
	}
}

func (q *query) add(t *Term) {
	if t == tTrue || q.done[t] {
		return
	}
	q.done[t] = true
	q.asserts = append(q.asserts, t)
	q.collect(t)
}

// skolem replaces a negated universal assertion by its instance at new constants, and mentions the
// instances of its triggers so that hypotheses with the same triggers are instantiated there.
func skolem(a *Term, n *int) []*Term {
	if a.op == OAnd {
		var out []*Term
		for _, d := range a.args {
			out = append(out, skolem(d, n)...)
		}
		return out
	}
	if a.op != ONot {
		return []*Term{a}
	}
	f := a.args[0]
	if f.op == OOr {
		var out []*Term
		for _, d := range f.args {
			out = append(out, skolem(Not(d), n)...)
		}
		return out
	}
	if f.op != OForall {
		return []*Term{a}
	}
	sub := map[*Term]*Term{}
	for _, v := range f.args[:len(f.args)-1] {
		*n++
		sub[v] = Sym(fmt.Sprintf("sk?%d", *n), v.sort, nil)
	}
	var out []*Term
	for _, p := range f.pats {
		for _, x := range p {
			x = Subst(x, sub)
			if !x.bound {
				out = append(out, App("touch"+sanitize(x.sort.String()), SBool, x))
			}
		}
	}
	return append(out, skolem(Not(Subst(f.args[len(f.args)-1], sub)), n)...)
}

// instances adds to the hypotheses their instances at the constants the goal's universal quantifiers
// are replaced by, and at their neighbours (nil if there are none).
func instances(asserts []*Term) []*Term {
	n := 0
	goal := skolem(asserts[len(asserts)-1], &n)
	sks := map[*Term]bool{}
	var givens []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OSym && t.sort == SInt && strings.HasPrefix(t.name, "sk?") {
			sks[t] = true
		}
		if t.op == OSym && t.sort == SInt && strings.HasPrefix(t.name, "given:") {
			givens = append(givens, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, g := range goal {
		walk(g)
	}
	if len(sks) == 0 && len(givens) == 0 || len(sks) > 3 {
		return nil
	}
	var at []*Term
	for i := 1; i <= n; i++ {
		for t := range sks {
			if t.name == fmt.Sprintf("sk?%d", i) {
				at = append(at, t, AddI(t, -1), AddI(t, 1))
			}
		}
	}
	at = append(at, givens...)
	var out []*Term
	var inst func(t *Term, x *Term) *Term
	inst = func(t *Term, x *Term) *Term {
		switch t.op {
		case OForall:
			if len(t.args) == 2 && t.args[0].sort == SInt {
				return Subst(t.args[1], map[*Term]*Term{t.args[0]: x})
			}
		case OOr:
			for i, a := range t.args {
				if y := inst(a, x); y != nil {
					as := append([]*Term{}, t.args...)
					as[i] = y
					return Or(as...)
				}
			}
		}
		return nil
	}
	hyps := asserts[:len(asserts)-1]
	out = append(out, hyps...)
	for _, h := range hyps {
		for _, x := range at {
			if y := inst(h, x); y != nil {
				out = append(out, y)
			}
		}
	}
	return append(out, goal...)
}

func buildQuery(asserts []*Term) string {
	q := &query{syms: map[*Term]bool{}, apps: map[string]*Term{}, copies: map[*Term]*Term{}, seen: map[*Term]bool{}, qsel: map[*Term]bool{}, done: map[*Term]bool{}, names: map[*Term]string{}}
	n := 0
	for _, a := range asserts {
		for _, x := range skolem(a, &n) {
			q.add(x)
		}
	}
	plain := false
	for _, a := range q.asserts {
		plain = plain || a.op == OSym && a.name == noTheorem
	}
	for _, th := range theoremAx {
		use := !plain
		for _, n := range th.names {
			_, has := q.apps[n]
			use = use && has
		}
		if use {
			q.add(th.ax)
		}
	}
	all := q.asserts
	ex := map[*Term]bool{}
	for _, t := range q.extra {
		if !ex[t] && !q.done[t] {
			ex[t] = true
			all = append(all, t)
			q.collect(t)
		}
	}
	o := &q.out
	o.WriteString("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-logic ALL)\n")
	var ss []*Term
	for s := range q.syms {
		ss = append(ss, s)
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i].name < ss[j].name })
	for _, s := range ss {
		fmt.Fprintf(o, "(declare-fun |%s| () %s)\n", s.name, s.sort)
	}
	var an []string
	for n := range q.apps {
		an = append(an, n)
	}
	sort.Strings(an)
	for _, n := range an {
		t := q.apps[n]
		var as []string
		for _, a := range t.args {
			as = append(as, a.sort.String())
		}
		fmt.Fprintf(o, "(declare-fun |%s| (%s) %s)\n", n, strings.Join(as, " "), t.sort)
	}
	// sharing
	cnt := map[*Term]int{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				walk(x)
			}
		}
		order = append(order, t)
	}
	for _, a := range all {
		walk(a)
	}
	// conditionals inside triggers get a constant of their own
	inPat := map[*Term]bool{}
	patSeen := map[*Term]bool{}
	var patWalk func(t *Term)
	patWalk = func(t *Term) {
		if patSeen[t] {
			return
		}
		patSeen[t] = true
		if t.op == OIte && !t.bound && t.sort != SBool {
			inPat[t] = true
			return
		}
		for _, a := range t.args {
			patWalk(a)
		}
	}
	for _, t := range order {
		for _, p := range t.pats {
			for _, x := range p {
				patWalk(x)
			}
		}
	}
	for _, t := range order {
		if inPat[t] {
			n := fmt.Sprintf("d%d", t.id)
			var b bytes.Buffer
			q.print(&b, t, nil)
			fmt.Fprintf(o, "(declare-fun %s () %s)\n(assert (= %s %s))\n", n, t.sort, n, b.String())
			q.names[t] = n
			continue
		}
		if t.bound || cnt[t] < 2 || len(t.args) == 0 {
			continue
		}
		if t.op == OCopy {
			continue
		}
		n := fmt.Sprintf("d%d", t.id)
		var b bytes.Buffer
		q.print(&b, t, nil)
		fmt.Fprintf(o, "(define-fun %s () %s %s)\n", n, t.sort, b.String())
		q.names[t] = n
	}
	for _, a := range all {
		o.WriteString("(assert ")
		q.print(o, a, nil)
		o.WriteString(")\n")
	}
	return o.String()
}

func (q *query) print(b *bytes.Buffer, t *Term, lets map[*Term]string) {
	if n, ok := q.names[t]; ok {
		b.WriteString(n)
		return
	}
	if lets != nil {
		if n, ok := lets[t]; ok {
			b.WriteString(n)
			return
		}
	}
	app := func(op string, as ...*Term) {
		b.WriteString("(" + op)
		for _, a := range as {
			b.WriteByte(' ')
			q.print(b, a, lets)
		}
		b.WriteByte(')')
	}
	mono := func(c *big.Int, a *Term) {
		if c.Cmp(one) == 0 {
			q.print(b, a, lets)
		} else {
			b.WriteString("(* " + numStr(c) + " ")
			q.print(b, a, lets)
			b.WriteByte(')')
		}
	}
	sum := func(l []*Term, cs []*big.Int, k *big.Int) {
		n := len(l)
		if k.Sign() != 0 {
			n++
		}
		if n == 0 {
			b.WriteString("0")
			return
		}
		if n > 1 {
			b.WriteString("(+")
		}
		for i, a := range l {
			if n > 1 {
				b.WriteByte(' ')
			}
			mono(cs[i], a)
		}
		if k.Sign() != 0 {
			if n > 1 {
				b.WriteByte(' ')
			}
			b.WriteString(numStr(k))
		}
		if n > 1 {
			b.WriteByte(')')
		}
	}
	switch t.op {
	case OConst:
		b.WriteString(numStr(t.n))
	case OTrue:
		b.WriteString("true")
	case OFalse:
		b.WriteString("false")
	case OSym:
		b.WriteString("|" + t.name + "|")
	case OAdd:
		sum(t.args, t.coefs, t.n)
	case OMul:
		app("*", t.args...)
	case ODiv:
		b.WriteString("(div ")
		q.print(b, t.args[0], lets)
		b.WriteString(" " + numStr(t.n) + ")")
	case OMod:
		b.WriteString("(mod ")
		q.print(b, t.args[0], lets)
		b.WriteString(" " + numStr(t.n) + ")")
	case ODivT:
		app("div", t.args...)
	case OModT:
		app("mod", t.args...)
	case OIte:
		app("ite", t.args...)
	case OEq0, OLe0:
		d := t.args[0]
		op := "="
		if t.op == OLe0 {
			op = "<="
		}
		b.WriteString("(" + op + " ")
		if d.op == OAdd {
			var lp, rp []*Term
			var lc, rc []*big.Int
			for i, a := range d.args {
				if d.coefs[i].Sign() > 0 {
					lp = append(lp, a)
					lc = append(lc, d.coefs[i])
				} else {
					rp = append(rp, a)
					rc = append(rc, new(big.Int).Neg(d.coefs[i]))
				}
			}
			lk, rk := new(big.Int), new(big.Int)
			if d.n.Sign() > 0 {
				lk = d.n
			} else {
				rk = new(big.Int).Neg(d.n)
			}
			sum(lp, lc, lk)
			b.WriteByte(' ')
			sum(rp, rc, rk)
		} else {
			q.print(b, d, lets)
			b.WriteString(" 0")
		}
		b.WriteByte(')')
	case OEqB:
		app("=", t.args...)
	case OAnd:
		app("and", t.args...)
	case OOr:
		app("or", t.args...)
	case ONot:
		app("not", t.args...)
	case OSelect:
		app("select", t.args...)
	case OStore:
		app("store", t.args...)
	case OConstArr:
		b.WriteString("((as const " + t.sort.String() + ") ")
		q.print(b, t.args[0], lets)
		b.WriteByte(')')
	case OCopy:
		if s, ok := q.copies[t]; ok {
			b.WriteString("|" + s.name + "|")
		} else {
			j := Sym("lamj?", SInt, &SymMeta{isBound: true})
			b.WriteString("(lambda ((|lamj?| Int)) ")
			q.print(b, Select(t, j), lets)
			b.WriteByte(')')
		}
	case OApp:
		if len(t.args) == 0 {
			b.WriteString("|" + t.name + "|")
		} else {
			app("|"+t.name+"|", t.args...)
		}
	case OForall, OExists:
		kw := "forall"
		if t.op == OExists {
			kw = "exists"
		}
		vars, body := t.args[:len(t.args)-1], t.args[len(t.args)-1]
		b.WriteString("(" + kw + " (")
		for _, v := range vars {
			b.WriteString("(|" + v.name + "| " + v.sort.String() + ")")
		}
		b.WriteString(") ")
		// lets for shared bound nodes of the body
		nl := map[*Term]string{}
		for k, v := range lets {
			nl[k] = v
		}
		cnt := map[*Term]int{}
		var order []*Term
		var walk func(x *Term)
		walk = func(x *Term) {
			if !x.bound {
				return
			}
			if _, ok := nl[x]; ok {
				return
			}
			cnt[x]++
			if cnt[x] > 1 {
				return
			}
			if x.op == OForall || x.op == OExists {
				return // inner scopes handle their own sharing
			}
			for _, a := range x.args {
				walk(a)
			}
			order = append(order, x)
		}
		walk(body)
		nlets := 0
		hasPat := len(t.pats) > 0
		if hasPat {
			b.WriteString("(! ")
		}
		for _, x := range order {
			if cnt[x] > 1 && len(x.args) > 0 && x.op != OCopy {
				n := fmt.Sprintf("l%d", x.id)
				b.WriteString("(let ((" + n + " ")
				q.print(b, x, nl)
				b.WriteString(")) ")
				nl[x] = n
				nlets++
			}
		}
		q.print(b, body, nl)
		b.WriteString(strings.Repeat(")", nlets))
		if hasPat {
			for _, p := range t.pats {
				b.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						b.WriteByte(' ')
					}
					q.print(b, x, lets)
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		}
		b.WriteString(")")
	default:
		panic("print op")
	}
}

// ---------- solving ----------

type solveResult struct {
	status string // unsat sat unknown
	solver string
	dur    time.Duration
	output string
}

var (
	solverSem   = make(chan struct{}, 8)
	nQueries    int64
	solverNanos int64
	backendUse  = map[string]int{}
	backendMu   sync.Mutex
	queryCache  sync.Map
	dumpDir     string
)

func runSolver(ctx0 context.Context, name string, args []string, input string, to time.Duration) (string, string) {
	ctx, cancel := context.WithTimeout(ctx0, to+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Stdin = strings.NewReader(input)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	s := out.String()
	first := strings.TrimSpace(strings.SplitN(s, "\n", 2)[0])
	if strings.HasPrefix(first, "(error") {
		fmt.Fprintln(os.Stderr, "SOLVER ERROR:", first)
		if dumpDir != "" {
			os.WriteFile(fmt.Sprintf("%s/err%d.smt2", dumpDir, time.Now().UnixNano()), []byte(input), 0644)
		}
	}
	return first, s
}

// solve checks whether the asserts are unsatisfiable.
func solve(asserts []*Term, to time.Duration, label string) solveResult {
	for _, a := range asserts {
		if a == tFalse {
			return solveResult{status: "unsat", solver: "simplifier"}
		}
	}
	termMu.Lock()
	text := buildQuery(asserts)
	termMu.Unlock()
	return solveText(text, to, label)
}

var termMu sync.Mutex

// solveSplit decides the query; when the solvers give up it distinguishes the two cases of a condition
// on which values depend (the one most values depend on), and so on a few levels deep.
func solveSplit(asserts []*Term, to time.Duration, label string, depth int) solveResult {
	r := solve(asserts, to, label)
	if r.status == "unsat" || r.status == "sat" || depth == 0 {
		return r
	}
	termMu.Lock()
	c := splitCond(asserts)
	var cases [2][]*Term
	if c != nil {
		for i, v := range []*Term{tTrue, tFalse} {
			m := map[*Term]*Term{c: v}
			lit := c
			if i == 1 {
				lit = Not(c)
			}
			m[lit] = tTrue
			m[Not(lit)] = tFalse
			cases[i] = []*Term{lit}
			for _, a := range asserts {
				cases[i] = append(cases[i], Subst(a, m))
			}
		}
	}
	termMu.Unlock()
	if c == nil {
		return r
	}
	t0 := time.Now()
	var rs [2]solveResult
	for i := range cases {
		rs[i] = solveSplit(cases[i], to, label+" (case)", depth-1)
		if rs[i].status != "unsat" {
			r.dur += time.Since(t0)
			return r
		}
	}
	return solveResult{status: "unsat", solver: rs[0].solver, dur: r.dur + time.Since(t0)}
}

func splitCond(asserts []*Term) *Term {
	cnt := map[*Term]int{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OIte && t.sort != SBool && !t.args[0].bound {
			n := 1
			if t.sort != SInt {
				n = 3
			}
			cnt[t.args[0]] += n
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				walk(x)
			}
		}
	}
	for _, a := range asserts {
		walk(a)
	}
	var best *Term
	for c, n := range cnt {
		if best == nil || n > cnt[best] || n == cnt[best] && c.id < best.id {
			best = c
		}
	}
	return best
}

func solveText(text string, to time.Duration, label string) solveResult {
	if r, ok := queryCache.Load(text); ok {
		rr := r.(solveResult)
		if rr.status == "unsat" || rr.dur >= to/2 {
			return rr
		}
	}
	atomic.AddInt64(&nQueries, 1)
	start := time.Now()
	sec := int(to.Seconds())
	if sec < 1 {
		sec = 1
	}
	res := solveResult{status: "unknown"}
	full := text + "(check-sat)\n"
	type att struct {
		tag  string
		name string
		args []string
	}
	first := sec
	if first > 2 {
		first = 1
	}
	run := func(ctx context.Context, a att, t int) (string, string) {
		solverSem <- struct{}{}
		defer func() { <-solverSem }()
		if ctx.Err() != nil {
			return "unknown", "cancelled"
		}
		args := append([]string{}, a.args...)
		if a.name == "cvc5" {
			args = append(args, fmt.Sprintf("--tlimit=%d", t*1000))
		} else {
			args = append(args, fmt.Sprintf("-T:%d", t), "-memory:3000")
		}
		return runSolver(ctx, a.name, args, full, time.Duration(t)*time.Second)
	}
	st, out := run(context.Background(), att{"z3-new", "z3-new", []string{"-in"}}, first)
	res.output = out
	if st == "unsat" || st == "sat" {
		res.status, res.solver = st, "z3-new"
	} else if first < sec {
		ctx, cancel := context.WithCancel(context.Background())
		type ans struct {
			tag, st, out string
		}
		atts := []att{
			{"z3", "z3", []string{"-in"}},
			{"z3-new(arith2)", "z3-new", []string{"-in", "smt.arith.solver=2"}},
			{"z3-new", "z3-new", []string{"-in"}},
		}
		ch := make(chan ans, len(atts))
		for _, a := range atts {
			a := a
			go func() {
				st, out := run(ctx, a, sec)
				ch <- ans{a.tag, st, out}
			}()
		}
		for range atts {
			r := <-ch
			if r.st == "unsat" || r.st == "sat" {
				res.status, res.solver, res.output = r.st, r.tag, r.out
				break
			}
			res.output = r.out
		}
		cancel()
	}
	res.dur = time.Since(start)
	if slowLog && res.dur > 500*time.Millisecond {
		fmt.Fprintf(os.Stderr, "  slow %.1fs %s %s %s\n", res.dur.Seconds(), res.status, res.solver, label)
	}
	atomic.AddInt64(&solverNanos, int64(res.dur))
	if dumpDir != "" && res.status != "unsat" {
		os.WriteFile(fmt.Sprintf("%s/%s.smt2", dumpDir, sanitizeFile(label)), []byte("; "+label+" "+res.status+"\n"+full), 0644)
	}
	if res.status == "unsat" {
		backendMu.Lock()
		backendUse[res.solver]++
		backendMu.Unlock()
	}
	queryCache.Store(text, res)
	return res
}

var slowLog = os.Getenv("GOVC_SLOW") != ""

func sanitizeFile(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '-' || c == '.' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	r := b.String()
	if len(r) > 120 {
		r = r[:120]
	}
	return r
}

// lastResort tries configurations that are rarely needed.
func lastResort(asserts []*Term, to time.Duration) solveResult {
	termMu.Lock()
	full := buildQuery(asserts) + "(check-sat)\n"
	termMu.Unlock()
	start := time.Now()
	sec := int(to.Seconds())
	if sec < 1 {
		sec = 1
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type ans struct{ tag, st string }
	ch := make(chan ans, 2)
	for _, a := range []struct {
		tag, name string
		args      []string
	}{
		{"z3-new(relevancy0)", "z3-new", []string{"-in", "smt.relevancy=0", fmt.Sprintf("-T:%d", sec), "-memory:3000"}},
		{"cvc5", "cvc5", []string{"--lang=smt2", "-q", fmt.Sprintf("--tlimit=%d", sec*1000)}},
	} {
		a := a
		go func() {
			solverSem <- struct{}{}
			defer func() { <-solverSem }()
			if ctx.Err() != nil {
				ch <- ans{a.tag, "unknown"}
				return
			}
			in := full
			if a.name == "cvc5" {
				in = strings.Replace(strings.Replace(full, "(set-option :auto_config false)\n", "", 1), "(set-option :smt.mbqi false)\n", "", 1)
			}
			st, _ := runSolver(ctx, a.name, a.args, in, time.Duration(sec)*time.Second)
			ch <- ans{a.tag, st}
		}()
	}
	for i := 0; i < 2; i++ {
		if r := <-ch; r.st == "unsat" {
			backendMu.Lock()
			backendUse[r.tag]++
			backendMu.Unlock()
			return solveResult{status: "unsat", solver: r.tag, dur: time.Since(start)}
		}
	}
	return solveResult{status: "unknown", dur: time.Since(start)}
}
