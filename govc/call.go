package main

// Calls: builtins, inlining of in-module functions, contracts.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (u *Unit) inModule(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path() == "unicode/utf16" || strings.HasPrefix(fn.Pkg.Pkg.Path(), "github.com/unidoc/unitype")
	}
	if fn.Parent() != nil {
		return u.inModule(fn.Parent())
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path() == "unicode/utf16" || strings.HasPrefix(fn.Object().Pkg().Path(), "github.com/unidoc/unitype")
	}
	return false
}

func setRes(s *State, x ssa.Value, res []Val) {
	if x == nil {
		return
	}
	switch len(res) {
	case 0:
		s.env[x] = TupleV{}
	case 1:
		s.env[x] = res[0]
	default:
		s.env[x] = TupleV(res)
	}
}

func (u *Unit) deferOK(c *ssa.CallCommon) bool {
	if f := c.StaticCallee(); f != nil {
		return fnName(f) == "(*os.File).Close"
	}
	return false
}

func (u *Unit) call(fr *frame, s *State, x *ssa.Call, c *ssa.CallCommon, pos token.Pos) []*State {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return u.builtin(fr, s, x, b.Name(), c, pos)
	}
	if c.IsInvoke() {
		var args []Val
		for _, a := range c.Args {
			args = append(args, u.val(fr, s, a))
		}
		recv := u.val(fr, s, c.Value)
		return u.invoke(fr, s, x, c, recv, args, pos)
	}
	fn := c.StaticCallee()
	var args []Val
	for _, a := range c.Args {
		args = append(args, u.val(fr, s, a))
	}
	var binds []Val
	if fv, ok := u.val(fr, s, c.Value).(*FuncV); ok {
		if fn == nil {
			fn = fv.fn
		}
		binds = fv.binds
	}
	if fn != nil && len(u.stack) == 1 && fr.fn.Synthetic != "" && isInitFn(fr.fn) && strings.HasPrefix(fn.Name(), "init") && fn.Signature.Params().Len() == 0 {
		return []*State{s} // other initialisers: later ones, and those of imported packages
	}
	if fn == nil {
		unsup("dynamic call %s", c.String())
	}
	return u.callFn(fr, s, x, fn, args, binds, pos)
}

func (u *Unit) callFn(fr *frame, s *State, x *ssa.Call, fn *ssa.Function, args, binds []Val, pos token.Pos) []*State {
	if !u.inModule(fn) || len(fn.Blocks) == 0 {
		return u.trusted(fr, s, x, fn, args, pos)
	}
	for _, ct := range u.eng.specs.contractsFor(fn) {
		if ct.callable(fn, args) {
			return u.callContract(fr, s, x, fn, ct, args, pos)
		}
	}
	n := 0
	for _, f := range u.stack {
		if f == fn {
			n++
		}
	}
	if n > 2 || len(u.stack) > 30 {
		unsup("recursion without a contract: %s", fnName(fn))
	}
	u.inlineUsed[fnName(fn)] = true
	outs := u.execFunc(fr, s, fn, args, binds)
	var res []*State
	env := s.env
	for _, o := range outs {
		ne := make(map[ssa.Value]Val, len(env)+1)
		for k, v := range env {
			ne[k] = v
		}
		o.st.env = ne
		o.st.pred = s.pred
		if x != nil {
			setRes(o.st, x, o.res)
		}
		res = append(res, o.st)
	}
	if x == nil {
		return res
	}
	return u.mergeCall(x, res)
}

func valErr(t types.Type, v Val) (*Term, bool) {
	if isErrorType(t) {
		x, ok := v.(*Term)
		return x, ok
	}
	return nil, false
}

// resSig classifies the result of a call: error results nil / non-nil, pointers nil / non-nil.
func resSig(s *State, x *ssa.Call) string {
	sig := ""
	add := func(t types.Type, v Val) {
		if e, ok := valErr(t, v); ok {
			sig += string(errSig(s, e))
		} else if st, ok := v.(*SliceV); ok && st.obj > 0 {
			sig += fmt.Sprintf("o%d", st.obj)
		}
	}
	v := s.env[x]
	if tv, ok := v.(TupleV); ok {
		tt, ok := x.Type().(*types.Tuple)
		if ok {
			for i := range tv {
				add(tt.At(i).Type(), tv[i])
			}
		}
		return sig
	}
	add(x.Type(), v)
	return sig
}

func (u *Unit) mergeCall(x *ssa.Call, sts []*State) []*State {
	if len(sts) <= 1 {
		return sts
	}
	groups := map[string][]*State{}
	var order []string
	for _, s := range sts {
		k := resSig(s, x)
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], s)
	}
	var out []*State
	for _, k := range order {
		g := groups[k]
		var acc []*State
		for _, s := range g {
			done := false
			for i := range acc {
				u.mergeBlk = x.Block()
				if m := u.mergeStates(acc[i], s); m != nil {
					m.pred = s.pred
					if strings.Contains(k, "E") {
						// keep the error known non-nil
						mv := m.env[x]
						if t, ok := valErr(x.Type(), mv); ok {
							m.assume(Ne(t, Num(0)))
						} else if tv, ok := mv.(TupleV); ok {
							tt := x.Type().(*types.Tuple)
							for j := range tv {
								if t, ok := valErr(tt.At(j).Type(), tv[j]); ok && k[len(k)-1] == 'E' {
									m.assume(Ne(t, Num(0)))
								}
							}
						}
					}
					acc[i] = m
					done = true
					break
				}
			}
			if !done {
				acc = append(acc, s)
			}
		}
		out = append(out, acc...)
	}
	return out
}

// execFunc runs the body of fn and returns its outcomes.
func (u *Unit) execFunc(caller *frame, s *State, fn *ssa.Function, args, binds []Val) []*Outcome {
	fr := &frame{fn: fn, args: args, loops: u.eng.loopsOf(fn), caller: caller}
	st := s.clone()
	st.env = map[ssa.Value]Val{}
	for i, p := range fn.Params {
		st.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		st.env[p] = binds[i]
	}
	fr.pre = st.clone()
	u.stack = append(u.stack, fn)
	saveBlk := u.mergeBlk
	u.runRegion(fr, nil, fn.Blocks[0], []*State{st})
	u.mergeBlk = saveBlk
	u.stack = u.stack[:len(u.stack)-1]
	return fr.rets
}

// ---------- builtins ----------

func (u *Unit) builtin(fr *frame, s *State, x *ssa.Call, name string, c *ssa.CallCommon, pos token.Pos) []*State {
	one := []*State{s}
	var args []Val
	for _, a := range c.Args {
		args = append(args, u.val(fr, s, a))
	}
	switch name {
	case "len":
		switch v := args[0].(type) {
		case *SliceV:
			s.env[x] = v.len
		case *Term:
			if mt, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				s.env[x] = Ite(Eq(v, Num(0)), Num(0), u.mapLen(s, mt, v))
			} else {
				s.env[x] = u.strLen(v)
			}
		default:
			unsup("len of %T", v)
		}
	case "cap":
		s.env[x] = args[0].(*SliceV).cap
	case "append":
		d := args[0].(*SliceV)
		var src *SliceV
		switch v := args[1].(type) {
		case *SliceV:
			src = v
		case *Term:
			src = u.strToSlice(s, v, d.elem).(*SliceV)
		}
		s.env[x] = u.appendOp(s, d, src)
	case "copy":
		d := args[0].(*SliceV)
		var src *SliceV
		switch v := args[1].(type) {
		case *SliceV:
			src = v
		case *Term:
			src = u.strToSlice(s, v, d.elem).(*SliceV)
		}
		n := Ite(Le(src.len, d.len), src.len, d.len)
		u.copyInto(s, d, Num(0), src, n)
		s.env[x] = n
	case "delete":
		unsup("delete on maps")
	case "print", "println":
	default:
		unsup("builtin %s", name)
	}
	return one
}

func (u *Unit) mapLen(s *State, mt *types.Map, m *Term) *Term {
	t := Select(u.mapCard(s, mt), m)
	if b, ok := mt.Key().Underlying().(*types.Basic); ok && !t.bound {
		if _, _, bits, _, ok := intRange(b); ok && bits <= 32 {
			u.fact(s, Le(t, NumB(pow2(bits))))
		}
	}
	return t
}

// elemAt reads element i of a slice as leaf terms of its element type.
func (u *Unit) elemPtr(v *SliceV, i *Term) *PtrV {
	if v.obj > 0 {
		k, ok := Add(v.off, i).i64()
		if !ok {
			unsup("symbolic index into a concrete slice")
		}
		return &PtrV{root: v.elem, ref: Num(0), obj: v.obj, oidx: int(k)}
	}
	return &PtrV{root: v.elem, ref: v.ref, idx: Add(v.off, i), oidx: -1}
}

// copyInto copies n elements of src to d at element offset o (o relative to d).
func (u *Unit) copyInto(s *State, d *SliceV, o *Term, src *SliceV, n *Term) {
	if k, ok := n.i64(); ok && (k <= 16 || d.obj > 0 || src.obj > 0) {
		var vs []Val
		for i := int64(0); i < k; i++ {
			vs = append(vs, u.load(s, u.elemPtr(src, Num(i))))
		}
		for i := int64(0); i < k; i++ {
			u.store(s, u.elemPtr(d, AddI(o, i)), vs[i])
		}
		return
	}
	if d.obj > 0 {
		dl, ok1 := d.len.i64()
		o0, ok2 := o.i64()
		if !ok1 || !ok2 || dl > 64 || src.obj > 0 {
			unsup("copy of symbolic length into a local array")
		}
		var vs []Val
		for i := int64(0); o0+i < dl; i++ {
			nv, ok := u.mergeVal(Lt(Num(i), n), u.load(s, u.elemPtr(src, Num(i))), u.load(s, u.elemPtr(d, Num(o0+i))))
			if !ok {
				unsup("conditional copy")
			}
			vs = append(vs, nv)
		}
		for i := int64(0); o0+i < dl; i++ {
			u.store(s, u.elemPtr(d, Num(o0+i)), vs[i])
		}
		return
	}
	if src.obj > 0 {
		// n elements of a concrete slice, n symbolic: element-wise conditional
		ln, _ := src.len.i64()
		for i := int64(0); i < ln; i++ {
			p := u.elemPtr(d, AddI(o, i))
			nv, ok := u.mergeVal(Lt(Num(i), n), u.load(s, u.elemPtr(src, Num(i))), u.load(s, p))
			if !ok {
				unsup("conditional copy")
			}
			u.store(s, p, nv)
		}
		return
	}
	for _, e := range u.elemLeaves(d.elem) {
		k := e.key + e.l.name
		c := u.getComp(s, k, e.l, true)
		if c.op == OConstArr {
			continue
		}
		u.logStore(s, k, d.ref, nil)
		s.heap[k] = Store(c, d.ref, CopyArr(Select(c, d.ref), Add(d.off, o), Select(c, src.ref), src.off, n))
	}
}

// appendOp: the result shares d's backing array when it fits in d's capacity.
func (u *Unit) appendOp(s *State, d, src *SliceV) *SliceV {
	if d.obj > 0 {
		// concrete: new object with the elements (a literal's capacity equals its length unless sliced)
		nl := Add(d.len, src.len)
		if k, ok := nl.i64(); ok && src.obj > 0 {
			o := &ConcObj{elem: d.elem}
			dl, _ := d.len.i64()
			for i := int64(0); i < dl; i++ {
				o.elems = append(o.elems, u.load(s, u.elemPtr(d, Num(i))))
			}
			for i := int64(0); i < k-dl; i++ {
				o.elems = append(o.elems, u.load(s, u.elemPtr(src, Num(i))))
			}
			cap, _ := d.cap.i64()
			if k <= cap {
				unsup("append within the capacity of a concrete slice")
			}
			u.objCnt++
			s.objs[u.objCnt] = o
			return &SliceV{elem: d.elem, obj: u.objCnt, ref: Num(0), off: Num(0), len: nl, cap: nl}
		}
		if c, ok := d.cap.i64(); !ok || c != 0 {
			unsup("append to a concrete slice")
		}
		d = &SliceV{elem: d.elem, ref: u.newRef(s), off: Num(0), len: Num(0), cap: Num(0)}
	}
	if k, ok := src.len.i64(); ok && k == 0 {
		return d
	}
	n := Add(d.len, src.len)
	fits := s.simp(Le(n, d.cap))
	if d.ref.isNum() && d.ref.n.Sign() == 0 {
		fits = tFalse
	}
	var empty *Term = tFalse
	if !src.len.isNum() {
		empty = s.simp(Le(src.len, Num(0)))
	}
	nr := u.newRef(s)
	ncap := Fresh("cap", SInt, &SymMeta{lo: zeroB, hi: maxLen})
	ref := Ite(fits, d.ref, nr)
	res := &SliceV{elem: d.elem, ref: ref, off: d.off, len: n, cap: Ite(fits, d.cap, ncap)}
	u.fact(s, Imp(Not(fits), Le(n, ncap)))
	if empty != tFalse && !(fits == tTrue) {
		// append of nothing returns d itself
		ref = Ite(Or(fits, empty), d.ref, nr)
		res.ref = ref
		res.cap = Ite(Or(fits, empty), d.cap, ncap)
	}
	offZero := d.off.isNum() && d.off.n.Sign() == 0
	if !offZero && fits != tTrue {
		// a reallocated slice starts at 0; keep the model's offset by treating the new row as the
		// old one shifted: contents at off+i are unchanged, which is all that is observable.
	}
	for _, e := range u.elemLeaves(d.elem) {
		k := e.key + e.l.name
		c := u.getComp(s, k, e.l, true)
		if c.op == OConstArr {
			continue
		}
		base := Select(c, d.ref)
		var row *Term
		if src.obj > 0 {
			row = base
			ln, _ := src.len.i64()
			for i := int64(0); i < ln; i++ {
				lv := u.leafOf(s, src, i, e.key[len(u.elemKey(d.elem)):], e.l)
				row = Store(row, Add(d.off, d.len, Num(i)), lv)
			}
		} else {
			row = CopyArr(base, Add(d.off, d.len), Select(c, src.ref), src.off, src.len)
		}
		u.logStore(s, k, ref, nil)
		if empty != tFalse {
			row = Ite(empty, Select(c, ref), row)
		}
		s.heap[k] = Store(c, ref, row)
	}
	return res
}

// leafOf extracts one leaf of element i of a concrete slice.
func (u *Unit) leafOf(s *State, src *SliceV, i int64, path string, l leaf) *Term {
	v := u.load(s, u.elemPtr(src, Num(i)))
	t := src.elem
	for path != "" && path != "." {
		path = strings.TrimPrefix(path, ".")
		nm := path
		if j := strings.IndexByte(path, '.'); j >= 0 {
			nm, path = path[:j], path[j:]
		} else {
			path = ""
		}
		st, ok := isStruct(t)
		if !ok {
			unsup("leafOf path")
		}
		found := false
		for k := 0; k < st.NumFields(); k++ {
			if st.Field(k).Name() == nm {
				v = v.(*StructV).f[k]
				t = st.Field(k).Type()
				found = true
				break
			}
		}
		if !found {
			unsup("leafOf field %s", nm)
		}
	}
	ls := scalarLeaves(t)
	ts := u.toLeaves(s, t, v)
	for k := range ls {
		if ls[k].name == l.name {
			return ts[k]
		}
	}
	unsup("leafOf leaf")
	return nil
}

// ---------- contracts at call sites ----------

func (u *Unit) callContract(fr *frame, s *State, x *ssa.Call, fn *ssa.Function, ct *Contract, args []Val, pos token.Pos) []*State {
	u.contractsUsed[ct.name] = true
	ctx := u.newCtx(s, s)
	ctx.bindParams(fn, args)
	given := ct.givenDeps()
	for _, lt := range ct.lets {
		if !given[lt.name] {
			ctx.names[lt.name] = ctx.eval(lt.c.expr)
		}
	}
	// pointer parameters are non-nil
	for i, p := range fn.Params {
		if pv, ok := args[i].(*PtrV); ok && pv.obj == 0 && pv.idx == nil && !ct.nilable[p.Name()] {
			g := Ne(pv.ref, Num(0))
			u.oblige(s, "pre", "call of "+fnName(fn)+": "+p.Name()+" is not nil", pos, g, "C01")
		}
	}
	for _, r := range ct.requires {
		g := ctx.evalBool(r.expr)
		props := r.props
		u.oblige(s, "pre", "call of "+fnName(fn)+": requires "+r.label, pos, g, props...)
	}
	if len(ct.decreases) > 0 && u.onStackContract(fn) {
		var m []*Term
		for _, d := range ct.decreases {
			if strings.HasPrefix(d.label, "loop") {
				continue
			}
			m = append(m, ctx.evalInt(d.expr))
		}
		if len(u.decr) == len(m) {
			u.oblige(s, "term", "recursion in call of "+fnName(fn)+" decreases", pos, lexLess(m, u.decr), "C01")
		}
	}
	sum := u.eng.summary(fn, ct)
	pre := s.clone()
	// modified places
	exc := map[string][]*Term{}
	anyKey := map[string]bool{}
	ctx0 := u.newCtx(pre, pre)
	ctx0.names = ctx.names
	ctx0.fn = fn
	var lvs []*PtrV
	for _, m := range ct.modifies {
		for _, pl := range ctx0.evalPlaces(m) {
			if pl.lv != nil {
				lvs = append(lvs, pl.lv)
				continue
			}
			if pl.any {
				anyKey[pl.key] = true
				continue
			}
			exc[pl.key] = append(exc[pl.key], pl.ref)
		}
	}
	mark0 := s.mark
	id0 := termCnt
	if sum.allocs {
		s.mark = Fresh("mark", SInt, &SymMeta{refLBs: []*Term{mark0}, isMark: true})
	}
	allKeys := map[string]bool{}
	for k := range sum.keys {
		allKeys[k] = true
	}
	for k := range exc {
		allKeys[k] = true
	}
	for _, k := range sortedSet(allKeys) {
		ki, ok := u.eng.keyInfo[k]
		if !ok {
			continue // never accessed
		}
		old := u.getComp(s, k, ki.l, ki.two)
		if old.op == OConstArr && ki.l.name == "#off" {
			continue
		}
		sk := sum.keys[k]
		if sk == nil {
			continue // allowed but never written
		}
		if (ct.anyframe || anyKey[k]) && sk.old {
			m := &SymMeta{lo: ki.l.lo, hi: ki.l.hi}
			if ki.l.ref {
				m.refUB = s.mark
			}
			s.heap[k] = Fresh("c:"+k, old.sort, m)
			u.logStore(s, k, Fresh("anyref", SInt, &SymMeta{refUB: s.mark}), nil)
			continue
		}
		arr := old
		if !sk.old {
			delete(exc, k) // allowed, but only objects allocated by the callee are written
		}
		if sk.fresh {
			m := &SymMeta{lo: ki.l.lo, hi: ki.l.hi, frameBase: old, frameUB: mark0, frameExc: exc[k]}
			if ki.l.ref {
				m.refUB = s.mark
			}
			arr = Fresh("c:"+k, old.sort, m)
			u.logStore(s, k, AddI(mark0, 1), nil)
		}
		for _, r := range exc[k] {
			m := &SymMeta{lo: ki.l.lo, hi: ki.l.hi}
			if ki.l.ref {
				m.refUB = s.mark
			}
			arr = Store(arr, r, Fresh("m:"+k, old.sort.elem(), m))
			u.logStore(s, k, r, nil)
		}
		s.heap[k] = arr
	}
	for _, lv := range lvs {
		_, t := ptrBase(lv)
		u.store(s, lv, u.freshVal(s, t, "mod", s.mark))
	}
	// results
	mk := func(st *State, errNil int) []Val {
		var rs []Val
		sig := fn.Signature.Results()
		for i := 0; i < sig.Len(); i++ {
			t := sig.At(i).Type()
			if isErrorType(t) && i == sig.Len()-1 {
				if errNil == 0 {
					rs = append(rs, Num(0))
				} else {
					rs = append(rs, Fresh("err", SInt, &SymMeta{lo: one}))
				}
				continue
			}
			rs = append(rs, u.freshVal(st, t, fn.Name(), st.mark))
		}
		return rs
	}
	sig := fn.Signature.Results()
	hasErr := sig.Len() > 0 && isErrorType(sig.At(sig.Len()-1).Type())
	var outs []*State
	kinds := []int{0}
	if hasErr && !ct.noerr {
		kinds = []int{0, 1}
		if ct.alwaysErr {
			kinds = []int{1}
		}
	}
	for _, kd := range kinds {
		st := s
		if len(kinds) > 1 {
			st = s.clone()
			if kd == 0 {
				sel := Fresh("ok", SBool, nil)
				u.lastSel = sel
				st.assume(sel)
			} else {
				st.assume(Not(u.lastSel))
			}
		}
		rs := mk(st, kd)
		c2 := u.newCtx(st, pre)
		c2.fn = fn
		for k, v := range ctx.names {
			c2.names[k] = v
		}
		c2.bindResults(fn, rs)
		var facts []*Term
		for _, en := range ct.ensures {
			if u.ct != nil && u.ct.thin[fn.Name()] != nil && !u.ct.thin[fn.Name()][en.label] {
				continue
			}
			g := tTrue
			if len(given) > 0 && mentions(en.expr, given) {
				g = c2.evalGiven(ct, ctx0, en.expr)
			} else {
				g = c2.evalBool(en.expr)
			}
			facts = append(facts, conj(st.simp(g))...)
		}
		for _, d := range ct.defs {
			// the callee is deterministic: its result is a function of what the clause names
			r, ok := rs[0].(*Term)
			if !ok {
				unsup("defines: result of %s", fnName(fn))
			}
			u.trust("defines: "+fnName(fn), "its result is a function of "+d.src+" (deterministic code without effects)")
			facts = append(facts, Eq(r, c2.eval(d.expr).v.(*Term)))
		}
		facts, rs = u.solveFresh(st, facts, rs, id0)
		for _, f := range facts {
			u.fact(st, f)
		}
		if x != nil {
			setRes(st, x, rs)
		}
		outs = append(outs, st)
	}
	return outs
}

func (u *Unit) onStackContract(fn *ssa.Function) bool {
	return len(u.decr) > 0
}

func lexLess(a, b []*Term) *Term {
	if len(a) == 0 {
		return tFalse
	}
	first := And(Lt(a[0], b[0]), Le(Num(0), b[0]))
	return Or(first, And(Eq(a[0], b[0]), lexLess(a[1:], b[1:])))
}

func sortedSet(m map[string]bool) []string {
	t := map[string]*Term{}
	for k := range m {
		t[k] = nil
	}
	return sortedKeys(t)
}

// solveFresh uses equalities "fresh symbol = term" among the facts to eliminate the symbol.
func (u *Unit) solveFresh(s *State, facts []*Term, rs []Val, id0 int) ([]*Term, []Val) {
	for _, f := range facts { // constant bounds of the results
		if f.op != OLe0 {
			continue
		}
		if l := toLin(f.args[0]); len(l.c) == 1 {
			for t, c := range l.c {
				if t.op != OSym || t.id <= id0 || t.meta == nil || t.meta.isMark || t.sort != SInt || c.CmpAbs(one) != 0 {
					continue
				}
				b := new(big.Int).Set(l.k)
				if c.Sign() > 0 {
					if b.Neg(b); t.meta.hi == nil || b.Cmp(t.meta.hi) < 0 {
						t.meta.hi, t.bdone = b, false
					}
				} else if t.meta.lo == nil || b.Cmp(t.meta.lo) > 0 {
					t.meta.lo, t.bdone = b, false
				}
			}
		}
	}
	sub := map[*Term]*Term{}
	var rest []*Term
	for _, f := range facts {
		if len(sub) > 0 {
			f = Subst(f, sub)
		}
		done := false
		if f.op == OEq0 && !f.bound {
			l := toLin(f.args[0])
			for t, c := range l.c {
				if t.op != OSym || t.id <= id0 || t.meta.isMark || c.CmpAbs(one) != 0 {
					continue
				}
				// t = -(rest)/c
				e := Sub(t, f.args[0])
				if c.Sign() < 0 {
					e = Add(t, f.args[0])
				}
				if occurs(t, e) {
					continue
				}
				ns := map[*Term]*Term{t: e}
				for k, v := range sub {
					sub[k] = Subst(v, ns)
				}
				sub[t] = e
				// the symbol's own range still holds
				if t.meta.lo != nil {
					rest = append(rest, Le(NumB(t.meta.lo), e))
				}
				if t.meta.hi != nil {
					rest = append(rest, Le(e, NumB(t.meta.hi)))
				}
				if t.meta.refUB != nil {
					rest = append(rest, Le(e, t.meta.refUB))
				}
				done = true
				break
			}
		}
		if f.op == OSym && f.id > id0 {
			sub[f] = tTrue
			done = true
		}
		if f.op == ONot && f.args[0].op == OSym && f.args[0].id > id0 {
			sub[f.args[0]] = tFalse
			done = true
		}
		if !done {
			rest = append(rest, f)
		}
	}
	if len(sub) == 0 {
		return facts, rs
	}
	for i, f := range rest {
		rest[i] = Subst(f, sub)
	}
	for k, v := range s.heap {
		if v.id > id0 {
			s.heap[k] = Subst(v, sub)
		}
	}
	for i, f := range u.facts {
		if f.f.id > id0 {
			_ = i
		}
	}
	out := make([]Val, len(rs))
	for i, r := range rs {
		out[i] = flatten(r, "", func(_ string, t *Term) *Term { return Subst(t, sub) })
	}
	// facts recorded about the fresh symbols while they were created still mention them: keep the
	// defining equations for those
	for t, e := range sub {
		if t.sort == SBool {
			if e == tTrue {
				rest = append(rest, t)
			} else {
				rest = append(rest, Not(t))
			}
			continue
		}
		rest = append(rest, mk(&Term{op: OEq0, sort: SBool, args: []*Term{Sub(t, e)}}))
	}
	return rest, out
}
