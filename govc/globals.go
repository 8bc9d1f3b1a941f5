package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Package-level data. A `global` clause in the contract of an initialiser (the synthesised package
// initialiser "init", or a user's init function) is an obligation at its end, and a fact every other
// function of the package may use, provided nothing else can change the variables it names.

func isInitFn(fn *ssa.Function) bool {
	return fn.Parent() == nil && fn.Signature.Recv() == nil && (fn.Name() == "init" && fn.Synthetic != "" || strings.HasPrefix(fn.Name(), "init#"))
}

// globalsIn lists the package-level variables a specification expression names.
func (e *Engine) globalsIn(pkg *ssa.Package, x ast.Expr) []*ssa.Global {
	set := map[*ssa.Global]bool{}
	var visit func(x ast.Node, depth int)
	visit = func(x ast.Node, depth int) {
		if depth > 50 {
			return
		}
		ast.Inspect(x, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if g, ok := pkg.Members[id.Name].(*ssa.Global); ok {
					set[g] = true
				}
				if m, ok := e.specs.macros[id.Name]; ok {
					visit(m.body, depth+1)
				}
				if m, ok := e.specs.recs[id.Name]; ok {
					visit(m.body, depth+10)
				}
			}
			return true
		})
	}
	visit(x, 0)
	var out []*ssa.Global
	for g := range set {
		out = append(out, g)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// changedOutside reports how a variable might be changed other than by one initialiser that runs
// no later than fn.
func (e *Engine) changedOutside(g *ssa.Global, fn *ssa.Function) string {
	var own *ssa.Function
	var fns []*ssa.Function
	for _, f := range e.fns {
		if f.Pkg == g.Pkg {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	uses := func(f *ssa.Function, do func(in ssa.Instruction)) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == g {
						do(in)
					}
				}
			}
		}
	}
	bad := ""
	for _, f := range fns {
		uses(f, func(in ssa.Instruction) {
			if _, ok := in.(*ssa.Store); ok {
				if own != nil && own != f || !isInitFn(f) {
					bad = "assigned in " + fnName(f)
				}
				own = f
			}
		})
	}
	if own == nil && bad == "" {
		return "never assigned"
	}
	if bad == "" && own.Name() > fn.Name() {
		return "assigned later, in " + fnName(own)
	}
	for _, f := range fns {
		if f == own {
			continue
		}
		uses(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.DebugRef, *ssa.Store:
			case *ssa.UnOp:
				if x.Op != token.MUL || !onlyRead(x, 0) {
					bad = "may be changed through a value loaded in " + fnName(f)
				}
			default:
				bad = "address used in " + fnName(f)
			}
		})
	}
	return bad
}

// onlyRead: is a loaded map or slice used only to read from it?
func onlyRead(v ssa.Value, depth int) bool {
	if depth > 5 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef, *ssa.Range, *ssa.BinOp:
		case *ssa.Lookup:
			if x.X != v {
				return false
			}
		case *ssa.IndexAddr:
			for _, q := range *x.Referrers() {
				switch y := q.(type) {
				case *ssa.DebugRef:
				case *ssa.UnOp:
					if y.Op != token.MUL {
						return false
					}
				default:
					return false
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "cap" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// usesGlobal: does fn (or what is inlined into it) read one of the variables?
func (e *Engine) usesGlobal(fn *ssa.Function, gs []*ssa.Global) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					switch x := (*op).(type) {
					case *ssa.Global:
						for _, g := range gs {
							if x == g {
								return true
							}
						}
					case *ssa.Function:
						if x.Pkg == fn.Pkg && x.Pkg != nil && !isInitFn(x) && walk(x) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return walk(fn)
}

type globalFact struct {
	by *Contract
	cl *clause
}

// globalFacts lists the facts a unit may assume about package-level data.
func (e *Engine) globalFacts(fn *ssa.Function, ct *Contract) []globalFact {
	var out []globalFact
	for _, o := range e.specs.all {
		if len(o.globals) == 0 || o == ct {
			continue
		}
		f := e.fns[o.fname]
		if f == nil || f.Pkg != fn.Pkg {
			continue
		}
		if isInitFn(fn) && fn.Name() <= f.Name() {
			continue // not established yet
		}
		for _, cl := range o.globals {
			gs := e.globalsIn(f.Pkg, cl.expr)
			use := e.usesGlobal(fn, gs)
			for _, cs := range [][]*clause{ct.requires, ct.ensures, ct.invs} {
				for _, c := range cs {
					for _, g := range e.globalsIn(f.Pkg, c.expr) {
						for _, h := range gs {
							use = use || g == h
						}
					}
				}
			}
			if use {
				out = append(out, globalFact{o, cl})
			}
		}
	}
	return out
}

// assumeGlobals gives a unit the facts about package-level data.
func (u *Unit) assumeGlobals(fn *ssa.Function, ct *Contract, st *State) {
	for _, gf := range u.eng.globalFacts(fn, ct) {
		c := u.newCtx(st, st)
		for _, f := range conj(c.evalBool(gf.cl.expr)) {
			u.fact(st, f)
		}
		u.contractsUsed[gf.by.name] = true
	}
}

// checkGlobals: obligations of an initialiser.
func (u *Unit) checkGlobals(fn *ssa.Function, ct *Contract, outs []*Outcome) {
	seen := map[*ssa.Global]bool{}
	for _, cl := range ct.globals {
		for _, g := range u.eng.globalsIn(fn.Pkg, cl.expr) {
			if seen[g] {
				continue
			}
			seen[g] = true
			goal := tTrue
			d := g.Name() + " is set only by its initialiser"
			if w := u.eng.changedOutside(g, fn); w != "" {
				goal = tFalse
				d += " (" + w + ")"
			}
			u.obligs = append(u.obligs, &Oblig{Name: u.name + ": " + d, Kind: "global", Detail: d, Props: cl.props, goal: goal})
		}
		for _, o := range outs {
			c := u.newCtx(o.st, o.st)
			for _, part := range conj(c.evalBool(cl.expr)) {
				u.oblige(o.st, "post", "global "+cl.label, fn.Pos(), part, cl.props...)
			}
		}
	}
}

// storeGlobal: the variables an initialiser sets.
func (u *Unit) storeGlobal(fr *frame, s *State, x *ssa.Store, g *ssa.Global) bool {
	if !isInitFn(fr.fn) || len(u.stack) != 1 {
		return false
	}
	if g.Name() == "init$guard" {
		return true
	}
	switch g.Type().(*types.Pointer).Elem().Underlying().(type) {
	case *types.Map, *types.Slice:
	default:
		return true
	}
	if u.eng.loopsOf(fr.fn).inner[x.Block()] != nil {
		unsup("package variable %s set in a loop", g.Name())
	}
	if u.gvals == nil {
		u.gvals = map[*ssa.Global]Val{}
	}
	if u.gvals[g] != nil {
		unsup("package variable %s set twice", g.Name())
	}
	if x.Block().Index != 0 && !(fr.fn.Synthetic != "" && x.Block().Comment == "init.start") {
		unsup("package variable %s set conditionally", g.Name())
	}
	u.gvals[g] = u.val(fr, s, x.Val)
	return true
}
