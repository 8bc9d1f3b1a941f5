package main

// govc: contract-based deductive verification of Go code (go/ssa -> verification conditions -> SMT).

import (
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Summary struct {
	keys   map[string]*sumKey
	allocs bool
}
type sumKey struct{ fresh, old bool }

func loadEngine(repo, specDir string) (*Engine, error) {
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedExportFile, Dir: repo}
	// Ghost clients: functions of ours, laid over the packages, that call the real ones; their
	// contracts are lemmas over the contracts of what they call.
	cfg.Overlay = map[string][]byte{}
	gs, _ := filepath.Glob(filepath.Join(specDir, "ghost", "*.go"))
	for _, g := range gs {
		b, err := os.ReadFile(g)
		if err != nil {
			return nil, err
		}
		dir := strings.TrimSuffix(filepath.Base(g), ".go")
		if dir == "root" {
			dir = ""
		}
		cfg.Overlay[filepath.Join(repo, strings.ReplaceAll(dir, "_", "/"), "zz_verif_ghost.go")] = b
	}
	pkgs, err := packages.Load(cfg, ".", "./internal/...", "unicode/utf16")
	if err != nil {
		return nil, err
	}
	bad := false
	for _, p := range pkgs {
		bad = bad || len(p.Errors) > 0
	}
	if bad && len(cfg.Overlay) > 0 {
		// the clients no longer fit the code: do without (their contracts then fail by name)
		cfg.Overlay = nil
		if pkgs, err = packages.Load(cfg, ".", "./internal/...", "unicode/utf16"); err != nil {
			return nil, err
		}
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%v", e)
		}
	}
	prog, ps := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	db, err := loadSpecs(specDir)
	if err != nil {
		return nil, err
	}
	e := &Engine{prog: prog, specs: db, typeIDs: map[string]int64{}, typeByID: map[int64]types.Type{}, strLits: map[string]*Term{}, strNames: map[int64]string{}, sums: map[*Contract]*Summary{}, globals: map[*ssa.Global]*globalInfo{}, loopInfo: map[*ssa.Function]*fnLoops{}, trusted: map[string]int{}, trustedNote: map[string]string{}, inlined: map[string]map[string]bool{}, keyInfo: map[string]keyInfo{}, constIDs: map[string]int64{}, sliceLits: map[*ssa.Global]int{}, typeNames: map[string]types.Type{}}
	for _, p := range ps {
		if p != nil {
			e.pkgs = append(e.pkgs, p)
		}
	}
	e.fns = map[string]*ssa.Function{}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks == nil {
			continue
		}
		n := fnName(f)
		if o, ok := e.fns[n]; ok && o.Synthetic == "" {
			continue
		}
		e.fns[n] = f
	}
	e.setupTheorems()
	// package-level slices: literal lengths; globals assigned outside init
	e.mutGlobals = map[*ssa.Global]bool{}
	for _, f := range e.fns {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						e.mutGlobals[g] = true
					}
				}
			}
		}
	}
	for i, p := range pkgs {
		if ps[i] == nil {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok {
					continue
				}
				for _, sp := range gd.Specs {
					vs, ok := sp.(*ast.ValueSpec)
					if !ok || len(vs.Values) != len(vs.Names) {
						continue
					}
					for k, v := range vs.Values {
						cl, ok := v.(*ast.CompositeLit)
						if !ok {
							continue
						}
						keyed := false
						for _, el := range cl.Elts {
							if _, ok := el.(*ast.KeyValueExpr); ok {
								keyed = true
							}
						}
						if keyed {
							continue
						}
						if g, ok := ps[i].Members[vs.Names[k].Name].(*ssa.Global); ok {
							e.sliceLits[g] = len(cl.Elts)
						}
					}
				}
			}
		}
	}
	return e, nil
}

func (e *Engine) typeNamed(s string) types.Type {
	if t, ok := e.typeNames[s]; ok {
		return t
	}
	var t types.Type
	switch {
	case strings.HasPrefix(s, "*"):
		if x := e.typeNamed(s[1:]); x != nil {
			t = types.NewPointer(x)
		}
	case strings.HasPrefix(s, "[]"):
		if x := e.typeNamed(s[2:]); x != nil {
			t = types.NewSlice(x)
		}
	default:
		if o := types.Universe.Lookup(s); o != nil {
			t = o.Type()
		} else {
			for _, p := range e.pkgs {
				if o, ok := p.Pkg.Scope().Lookup(s).(*types.TypeName); ok {
					t = o.Type()
					break
				}
			}
		}
	}
	e.typeNames[s] = t
	return t
}

func (e *Engine) newUnit(name string, fn *ssa.Function) *Unit {
	return &Unit{eng: e, name: name, fn: fn, factSet: map[string]bool{}, initHeap: map[string]*Term{}, contractsUsed: map[string]bool{}, inlineUsed: map[string]bool{}, nameCnt: map[string]int{}, trustUsed: map[string]bool{}, curRange: map[ssa.Value]int{}, houdiniDead: map[string]map[string]int{}, rangeVis: map[int]*Term{}, houdini: map[string][]bool{}, trivial: map[string]int{}}
}

// entry builds the arbitrary pre-state of a contracted function.
func (u *Unit) entry(fn *ssa.Function, ct *Contract) (*State, []Val) {
	st := &State{gset: map[*Term]bool{}, heap: map[string]*Term{}, mark: Num(0), objs: map[int]*ConcObj{}, env: map[ssa.Value]Val{}}
	var args []Val
	for _, p := range fn.Params {
		if ts, ok := ct.inst[p.Name()]; ok {
			t := u.eng.typeNamed(ts)
			if t == nil {
				specFail("unknown type %s", ts)
			}
			args = append(args, &IfaceV{typ: t, val: u.freshVal(st, t, p.Name(), Num(0))})
			if pv, ok := args[len(args)-1].(*IfaceV).val.(*PtrV); ok {
				st.assume(Ne(pv.ref, Num(0)))
			}
			continue
		}
		v := u.freshVal(st, p.Type(), p.Name(), Num(0))
		if pv, ok := v.(*PtrV); ok && !ct.nilable[p.Name()] {
			st.assume(Ne(pv.ref, Num(0)))
		}
		args = append(args, v)
	}
	c := u.newCtx(st, st)
	c.bindParams(fn, args)
	c.bindGivens(ct)
	for _, lt := range ct.lets {
		c.names[lt.name] = c.eval(lt.c.expr)
	}
	for _, r := range ct.requires {
		t := c.evalBool(r.expr)
		n0 := len(st.guard)
		if !st.assume(t) {
			specFail("contradictory requires: %s", r.label)
		}
		if strings.HasPrefix(r.label, "pre") { // only of use to the calls that require it
			if u.hidden == nil {
				u.hidden = map[*Term]bool{}
			}
			for _, g := range st.guard[n0:] {
				u.hidden[g] = true
			}
		}
	}
	for _, d := range ct.decreases {
		if !strings.HasPrefix(d.label, "loop") {
			u.decr = append(u.decr, c.evalInt(d.expr))
		}
	}
	return st, args
}

func (e *Engine) summary(fn *ssa.Function, ct *Contract) *Summary {
	if s, ok := e.sums[ct]; ok {
		return s
	}
	s := &Summary{keys: map[string]*sumKey{}}
	e.sums[ct] = s
	for round := 0; round < 4; round++ {
		before := len(s.keys)
		al := s.allocs
		u := e.newUnit("summary "+ct.name, fn)
		u.discover = 1
		u.ct = ct
		var logs []storeLog
		u.logs = append(u.logs, &logs)
		st, args := u.entry(fn, ct)
		outs := u.execFunc(nil, st, fn, args, nil)
		for _, o := range outs {
			if o.st.mark != st.mark {
				s.allocs = true
			}
		}
		for _, l := range logs {
			if strings.HasPrefix(l.key, "$visited") {
				continue
			}
			k := s.keys[l.key]
			if k == nil {
				k = &sumKey{}
				s.keys[l.key] = k
			}
			noteRef(k, l.ref)
		}
		if len(s.keys) == before && al == s.allocs && round > 0 {
			break
		}
		if !u.recursive && round > 0 {
			break
		}
		if !u.recursive {
			break
		}
	}
	if debugSum {
		fmt.Fprintf(os.Stderr, "summary %s allocs=%v", ct.name, s.allocs)
		for k, v := range s.keys {
			fmt.Fprintf(os.Stderr, " %s(%v,%v)", k, v.fresh, v.old)
		}
		fmt.Fprintln(os.Stderr)
	}
	return s
}

var debugSum = os.Getenv("GOVC_SUM") != ""

func noteRef(k *sumKey, r *Term) {
	if r.op == OIte {
		noteRef(k, r.args[1])
		noteRef(k, r.args[2])
		return
	}
	if refLe(r, Num(0)) {
		k.old = true
		return
	}
	k.fresh = true
	if !refLe(Num(1), r) {
		k.old = true
	}
}

type UnitResult struct {
	Name    string
	Func    string
	Obligs  []*Oblig
	Invs    int
	Err     string
	Dur     float64
	Used    map[string]bool
	Inlined map[string]bool
	Trusted map[string]bool
	Vacuous bool
	Notes   map[string]string
	Trivial map[string]int // obligations the simplifier discharged, by kind
}

func (e *Engine) verify(ct *Contract) (res *UnitResult) {
	start := time.Now()
	res = &UnitResult{Name: ct.name, Func: ct.fname}
	fn := e.fns[ct.fname]
	if fn == nil {
		res.Err = "function " + ct.fname + " not found in the source"
		return
	}
	u := e.newUnit(ct.name, fn)
	u.ct = ct
	defer func() {
		res.Dur = time.Since(start).Seconds()
		res.Used = u.contractsUsed
		res.Inlined = u.inlineUsed
		res.Trusted = u.trustUsed
		res.Invs = u.invCount
		res.Trivial = u.trivial
		res.Notes = map[string]string{}
		for n := range u.trustUsed {
			if t := u.eng.trustedNote[n]; t != "" {
				res.Notes[n] = t
			}
		}
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				res.Err = "outside the verifier's subset: " + x.msg + " (in " + u.where() + ")"
			case specErr:
				res.Err = "specification does not apply: " + x.msg
			default:
				res.Err = fmt.Sprintf("internal error: %v (in %s)", r, u.where())
				if os.Getenv("GOVC_TRACE") != "" {
					debug.PrintStack()
				}
			}
			if os.Getenv("GOVC_TRACE") != "" {
				debug.PrintStack()
			}
		}
	}()
	st, args := u.entry(fn, ct)
	u.assumeGlobals(fn, ct, st)
	pre := st.clone()
	outs := u.execFunc(nil, st, fn, args, nil)
	u.checkEnds(fn, ct, pre, args, outs)
	u.checkGlobals(fn, ct, outs)
	u.checkTheorems(fn, ct, pre)
	u.frameObligs(fn, ct, pre, args)
	res.Obligs = u.obligs
	u.discharge()
	// vacuity
	if len(outs) > 0 {
		// some way out must not be refutable: a successful one where the function reports errors
		any := false
		sig := fn.Signature.Results()
		n := sig.Len()
		for i := len(outs) - 1; i >= 0; i-- {
			o := outs[i]
			g := append([]*Term{}, o.st.guard...)
			if n > 0 && isErrorType(sig.At(n-1).Type()) {
				if e, ok := o.res[n-1].(*Term); ok {
					ok0 := Eq(e, Num(0))
					if ok0 == tFalse {
						continue
					}
					g = append(g, ok0)
				}
			}
			r := solve(assemble(u.facts, g, tFalse), 2*time.Second, "cover")
			if r.status != "unsat" {
				any = true
				break
			}
		}
		res.Vacuous = !any
	} else {
		res.Vacuous = true
	}
	return
}

func (u *Unit) where() string {
	var s []string
	for _, f := range u.stack {
		s = append(s, fnName(f))
	}
	return strings.Join(s, " > ")
}

func (u *Unit) checkEnds(fn *ssa.Function, ct *Contract, pre *State, args []Val, outs []*Outcome) {
	all := u.facts
	defer func() { u.facts = all }()
	for _, o := range outs {
		if u.facts = all; o.facts != nil {
			u.facts = o.facts
		}
		c := u.newCtx(o.st, pre)
		c.bindParams(fn, args)
		p := u.newCtx(pre, pre)
		p.bindParams(fn, args)
		p.bindGivens(ct)
		c.bindGivens(ct)
		for _, lt := range ct.lets {
			v := p.eval(lt.c.expr)
			p.names[lt.name] = v
			c.names[lt.name] = v
		}
		c.bindResults(fn, o.res)
		for _, en := range ct.ensures {
			g := c.evalBool(en.expr)
			props := en.props
			for _, part := range conj(g) {
				n := len(u.obligs)
				u.oblige(o.st, "post", "ensures "+en.label, fn.Pos(), part, props...)
				u.markPrivate(en, part)
				if len(u.obligs) > n && en.named {
					u.obligs[n].label, u.obligs[n].from = en.label, en.from
				}
			}
		}
		if ct.noerr {
			sig := fn.Signature.Results()
			if n := sig.Len(); n > 0 && isErrorType(sig.At(n-1).Type()) {
				u.oblige(o.st, "post", "never fails", fn.Pos(), Eq(o.res[n-1].(*Term), Num(0)))
			}
		}
	}
}

func conj(t *Term) []*Term {
	if t.op == OAnd {
		var out []*Term
		for _, a := range t.args {
			if a.op == OOr {
				out = append(out, conj(a)...)
			} else {
				out = append(out, a)
			}
		}
		return out
	}
	if t.op == OOr {
		// a disjunction with one conjunction distributes
		at := -1
		for i, d := range t.args {
			if d.op == OAnd {
				if at >= 0 || len(d.args) > 24 {
					return []*Term{t}
				}
				at = i
			}
		}
		if at >= 0 {
			var out []*Term
			for _, c := range t.args[at].args {
				ds := append([]*Term{}, t.args...)
				ds[at] = c
				out = append(out, conj(Or(ds...))...)
			}
			return out
		}
	}
	return []*Term{t}
}

func (u *Unit) frameObligs(fn *ssa.Function, ct *Contract, pre *State, args []Val) {
	if ct.anyframe {
		return
	}
	c := u.newCtx(pre, pre)
	c.bindParams(fn, args)
	c.bindGivens(ct)
	for _, lt := range ct.lets {
		c.names[lt.name] = c.eval(lt.c.expr)
	}
	exc := map[string][]*Term{}
	anyKey := map[string]bool{}
	for _, m := range ct.modifies {
		for _, p := range c.evalPlaces(m) {
			if p.lv != nil {
				specFail("frame place")
			}
			if p.any {
				anyKey[p.key] = true
				continue
			}
			exc[p.key] = append(exc[p.key], p.ref)
		}
	}
	seen := map[string]bool{}
	for _, l := range u.frameLog {
		if strings.HasPrefix(l.key, "$visited") {
			continue
		}
		if refLe(Num(1), l.ref) || anyKey[l.key] {
			continue
		}
		g := []*Term{Lt(Num(0), l.ref), Eq(l.ref, Num(0))}
		for _, r := range exc[l.key] {
			g = append(g, Eq(l.ref, r))
		}
		goal := Or(g...)
		if goal == tTrue {
			continue
		}
		k := fmt.Sprintf("%s %d", l.key, goal.id)
		for _, x := range l.guard {
			k += fmt.Sprintf(",%d", x.id)
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		u.obligs = append(u.obligs, &Oblig{Name: u.name + ": writes " + l.key + " only where its contract allows", Kind: "frame", Detail: l.key, facts: l.facts, guard: l.guard, goal: goal})
	}
}

var obligTO = 10 * time.Second
var obligScale = time.Duration(1)
var verbose bool

// unhide drops the preconditions that only serve the calls that require them.
func (u *Unit) unhide(g []*Term) []*Term {
	var r []*Term
	for _, t := range g {
		if !u.hidden[t] {
			r = append(r, t)
		}
	}
	return r
}

// wantsTheorem: the goal speaks of a function some theorem is about.
func wantsTheorem(goal *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OApp {
			for _, th := range theoremAx {
				for _, n := range th.names {
					if n == t.name {
						return true
					}
				}
			}
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(goal)
}

// discharge asks the solvers for every obligation. The few that are left undecided are tried once
// more with more time and no company.
func (u *Unit) discharge() {
	run := func(os []*Oblig, par int, scale time.Duration) {
		var wg sync.WaitGroup
		sem := make(chan bool, par)
		for _, o := range os {
			o := o
			wg.Add(1)
			sem <- true
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				u.decide(o, scale)
			}()
		}
		wg.Wait()
	}
	run(u.obligs, 16, 1)
	var left []*Oblig
	for _, o := range u.obligs {
		if o.Status == "failed" {
			left = append(left, o)
		}
	}
	if len(left) > 0 && len(left) <= 4 {
		run(left, 2, 3)
	}
}

func (u *Unit) decide(o *Oblig, scale time.Duration) {
	if onlyProp != "" && !o.relevant(onlyProp) {
		o.Status = "other" // decided where the property it bears on is checked
		return
	}
	termMu.Lock()
	facts, guard := o.facts, o.guard
	if len(u.hidden) > 0 && o.Kind != "pre" {
		guard = u.unhide(guard)
		facts = make([]Fact, len(o.facts))
		for i, f := range o.facts {
			facts[i] = Fact{u.unhide(f.guard), f.f}
		}
	}
	all, theorems := facts, wantsTheorem(o.goal)
	facts, hid := u.withoutPrivate(facts, o.label)
	if o.from != nil {
		var thms bool
		facts, thms = u.factsFrom(all, o.from)
		theorems, hid = theorems && thms, true
	}
again:
	as := assemble(facts, guard, o.goal)
	if !theorems {
		as = append([]*Term{mk(&Term{op: OSym, sort: SBool, name: noTheorem, meta: &SymMeta{}})}, as...)
	}
	if in := instances(as); hid && o.from != nil && in != nil {
		as = in
	}
	termMu.Unlock()
	to := obligTO
	if u.ct != nil && u.ct.timeout > 0 {
		to = time.Duration(u.ct.timeout) * time.Second * obligScale
	}
	to *= scale
	r := solve(as, to, o.Name)
	if hid && r.status != "unsat" {
		facts, hid, theorems = all, false, wantsTheorem(o.goal)
		termMu.Lock()
		goto again
	}
	undecided := func() bool { return r.status != "unsat" && r.status != "sat" }
	if undecided() {
		termMu.Lock()
		in := instances(as)
		termMu.Unlock()
		if in != nil {
			if x := solve(in, to, o.Name+" (inst)"); x.status == "unsat" {
				x.dur += r.dur
				r = x
			}
		}
		if undecided() {
			r = solveSplit(as, to, o.Name, 2)
		}
		if in != nil {
			as = in
		}
	}
	if undecided() {
		if x := lastResort(as, to); x.status == "unsat" {
			x.dur += r.dur
			r = x
		}
	}
	o.Ms += r.dur.Milliseconds()
	o.Solver = r.solver
	if r.status == "unsat" {
		o.Status = "proved"
	} else {
		o.Status = "failed"
		o.Output = r.status + ": " + r.output
	}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	specs := flag.String("specs", "/verif/contracts", "")
	unit := flag.String("unit", "", "verify only units whose name contains this")
	dumpFn := flag.String("ssa", "", "dump SSA of a function")
	prop := flag.String("prop", "", "")
	out := flag.String("out", "", "result file (JSON)")
	flag.BoolVar(&verbose, "v", false, "")
	flag.StringVar(&dumpDir, "dump", "", "")
	to := flag.Int("t", 10, "timeout")
	list := flag.Bool("list", false, "")
	worker := flag.Bool("worker", false, "read unit names from stdin and verify them")
	jobs := flag.Int("j", 4, "worker processes")
	flag.BoolVar(&violated, "violated", false, "an input that breaks the property is known")
	flag.Parse()
	obligTO = time.Duration(*to) * time.Second
	if dumpDir != "" {
		os.MkdirAll(dumpDir, 0755)
	}
	e, err := loadEngine(*repo, *specs)
	if err != nil {
		fmt.Fprintln(os.Stderr, "LOAD:", err)
		os.Exit(3)
	}
	if *dumpFn != "" {
		for n, f := range e.fns {
			if n == *dumpFn || f.Name() == *dumpFn {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	if *list {
		var ns []string
		for n, f := range e.fns {
			if (&Unit{}).inModule(f) {
				ns = append(ns, n)
			}
		}
		sort.Strings(ns)
		fmt.Println(strings.Join(ns, "\n"))
		return
	}
	onlyProp = *prop
	if *worker {
		runWorker(e)
		return
	}
	if *prop != "" && *unit == "" {
		os.Exit(runProp(e, *prop, *out, *jobs))
	}
	for _, ct := range e.specs.all {
		if x, exact := strings.CutPrefix(*unit, "="); exact && ct.name != x || !exact && !strings.Contains(ct.name, *unit) {
			continue
		}
		r := e.verify(ct)
		printUnit(r)
	}
}

func printUnit(r *UnitResult) {
	ok, bad := 0, 0
	for _, o := range r.Obligs {
		if o.Status == "proved" {
			ok++
		} else {
			bad++
		}
	}
	fmt.Printf("%-60s proved %d failed %d inv %d  %.1fs %s", r.Name, ok, bad, r.Invs, r.Dur, r.Err)
	if r.Vacuous && r.Err == "" {
		fmt.Print(" VACUOUS")
	}
	fmt.Println()
	for _, o := range r.Obligs {
		if o.Status != "proved" {
			f := strings.SplitN(o.Output, "\n", 2)[0]
			fmt.Printf("   FAILED %-10s %-10v %s (%s) %s\n", o.Kind, o.Props, o.Name, o.Pos, f)
		} else if verbose {
			fmt.Printf("   ok     %-10s %-10v %s (%s) %dms\n", o.Kind, o.Props, o.Name, o.Pos, o.Ms)
		}
	}
}
