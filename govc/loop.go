package main

// Loops: concrete unrolling, discovery of modified locations, Houdini-style invariant checking.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

const maxUnroll = 300

var houdiniTO = 1500 * time.Millisecond
var houdiniUserTO = 8 * time.Second

type cand struct {
	name string
	src  *clause
	eval func(st *State) (*Term, bool) // over a state positioned at the header (phis evaluated)
	dead bool
	user bool
}

func lastInstr(b *ssa.BasicBlock) ssa.Instruction { return b.Instrs[len(b.Instrs)-1] }

// peekHeader executes only the header block and reports which successors are possible.
func (u *Unit) peekHeader(fr *frame, l *loop, s *State) (n int, cond *Term) {
	iff, ok := lastInstr(l.header).(*ssa.If)
	if !ok {
		return 2, nil
	}
	if l.body[l.header.Succs[0]] && l.body[l.header.Succs[1]] {
		return 2, nil
	}
	nf, nq := len(u.facts), u.quiet
	u.quiet++
	saveLogs := u.logs
	u.logs = nil
	st := s.clone()
	succ := map[*ssa.BasicBlock]bool{}
	cnt := 0
	var c *Term
	u.execBlock(fr, st, l.header, func(x *State, from, to *ssa.BasicBlock) {
		succ[to] = true
		cnt++
		if t, ok := x.env[iff.Cond].(*Term); ok {
			c = t
		}
	})
	u.logs = saveLogs
	u.quiet = nq
	u.facts = u.facts[:nf:nf]
	if cnt == 0 {
		return 0, c
	}
	return len(succ), c
}

// enter notes the iteration number under which the body of a loop is now run.
func (fr *frame) enter(l *loop, iter *Term) {
	if fr.iters == nil {
		fr.iters = map[*loop]*Term{}
	}
	fr.iters[l] = iter
}

// outerIter is the iteration number of the loop directly around l.
func (fr *frame) outerIter(l *loop) *Term {
	var best *loop
	for o := range fr.iters {
		if o != l && o.body[l.header] && (best == nil || len(o.body) < len(best.body)) {
			best = o
		}
	}
	if best == nil {
		return nil
	}
	return fr.iters[best]
}

func (u *Unit) runLoop(fr *frame, l *loop, s *State) map[*ssa.BasicBlock][]*State {
	exits := map[*ssa.BasicBlock][]*State{}
	work := []*State{s}
	for it := 0; len(work) > 0; it++ {
		var next []*State
		for _, st := range work {
			n, _ := u.peekHeader(fr, l, st)
			if n >= 2 || it >= maxUnroll {
				ex := u.loopInv(fr, l, st)
				for b, ss := range ex {
					exits[b] = append(exits[b], ss...)
				}
				continue
			}
			back, ex := u.runRegion(fr, l, l.header, []*State{st})
			for b, ss := range ex {
				exits[b] = append(exits[b], ss...)
			}
			for _, b := range back {
				u.evalPhis(fr, b, l.header)
			}
			if len(back) > 0 {
				next = append(next, u.mergeGroup(fr, l.header, back)...)
			}
		}
		work = next
	}
	return exits
}

var traceLoops = os.Getenv("GOVC_TRACE") != ""

// isOld: the term only mentions symbols created before the given point.
func (u *Unit) isOld(t *Term, mark int, memo map[*Term]bool) bool {
	if t.id <= mark {
		return true
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := true
	if t.op == OSym {
		r = t.id <= mark || strings.HasPrefix(t.name, "H:") || strings.HasPrefix(t.name, "G:") || t.meta.isBound
	}
	for _, a := range t.args {
		if !r {
			break
		}
		r = u.isOld(a, mark, memo)
	}
	memo[t] = r
	return r
}

type cell struct {
	key string
	ref *Term
}

type loopPlan struct {
	keys   map[string]*keyPlan
	affine map[string]*Term // loop variable name -> step (constant)
	alloc  bool
	objs   map[int]bool // concrete objects modified
	mono   map[string]int
}

type keyPlan struct {
	inv     []*Term // loop-invariant references stored to
	variant bool    // stored to at other references that may be old
	frame   bool    // attempt the frame although variant stores exist (checked)
	fresh   bool
}

func (p *loopPlan) sig() string {
	var ks []string
	for k, v := range p.keys {
		var is []string
		for _, r := range v.inv {
			is = append(is, fmt.Sprint(r.id))
		}
		sort.Strings(is)
		ks = append(ks, fmt.Sprintf("%s:%v:%v:%v", k, is, v.variant, v.fresh))
	}
	sort.Strings(ks)
	var as []string
	for k, v := range p.affine {
		as = append(as, fmt.Sprintf("%s=%v", k, v))
	}
	sort.Strings(as)
	return strings.Join(ks, " ") + "|" + fmt.Sprint(p.alloc, len(p.objs)) + "|" + strings.Join(as, " ")
}

// flatten lists the integer leaves of a value with suffixes; the returned setter rebuilds it.
func flatten(v Val, name string, f func(name string, t *Term) *Term) Val {
	switch x := v.(type) {
	case *Term:
		return f(name, x)
	case *SliceV:
		if x.obj > 0 {
			return x
		}
		return &SliceV{elem: x.elem, ref: f(name+"#ref", x.ref), off: x.off, len: f(name+"#len", x.len), cap: f(name+"#cap", x.cap)}
	case *PtrV:
		if x.obj > 0 {
			return x
		}
		n := *x
		n.ref = f(name+"#ref", x.ref)
		if x.idx != nil {
			n.idx = f(name+"#idx", x.idx)
		}
		return &n
	case *StructV:
		n := &StructV{t: x.t}
		for i := range x.f {
			n.f = append(n.f, flatten(x.f[i], fmt.Sprintf("%s.%d", name, i), f))
		}
		return n
	case TupleV:
		var n TupleV
		for i := range x {
			n = append(n, flatten(x[i], fmt.Sprintf("%s_%d", name, i), f))
		}
		return n
	case *IfaceV:
		if x.typ != nil {
			return &IfaceV{typ: x.typ, val: flatten(x.val, name, f)}
		}
		return &IfaceV{tag: f(name+"#tag", x.tag), ref: f(name+"#ref", x.ref)}
	}
	return v
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			ps = append(ps, p)
		} else {
			break
		}
	}
	return ps
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

// havocVal: a fresh value of the same shape.
func (u *Unit) havocVal(s *State, v Val, t types.Type, name string, pl *loopPlan, iter *Term) Val {
	// slices whose header value is the nil pointer etc. keep their type-driven representation
	lo := map[string]leaf{}
	var rec func(n string, t types.Type)
	rec = func(n string, t types.Type) {
		if t == nil {
			return
		}
		if st, ok := isStruct(t); ok {
			if _, op := opaqueLeaves(t); op {
				return
			}
			for i := 0; i < st.NumFields(); i++ {
				rec(fmt.Sprintf("%s.%d", n, i), st.Field(i).Type())
			}
			return
		}
		if tp, ok := t.(*types.Tuple); ok {
			for i := 0; i < tp.Len(); i++ {
				rec(fmt.Sprintf("%s_%d", n, i), tp.At(i).Type())
			}
			return
		}
		if _, ok := t.Underlying().(*types.Pointer); ok {
			lo[n+"#ref"] = leaf{ref: true, sort: SInt}
			return
		}
		if _, ok := t.Underlying().(*types.Array); ok && !isByteArr4(t) {
			return
		}
		for _, l := range scalarLeaves(t) {
			lo[n+l.name] = l
		}
	}
	rec(name, t)
	r := flatten(v, name, func(n string, t0 *Term) *Term {
		if d, ok := pl.affine[n]; ok {
			return Add(t0, Mul(d, iter))
		}
		l := lo[n]
		m := &SymMeta{lo: l.lo, hi: l.hi}
		if l.ref {
			m.refUB = s.mark
		}
		return Fresh(n, t0.sort, m)
	})
	u.valFacts(s, r)
	return r
}

func (u *Unit) valFacts(s *State, v Val) {
	switch x := v.(type) {
	case *SliceV:
		if x.obj == 0 {
			u.sliceFacts(s, x)
		}
	case *StructV:
		for _, f := range x.f {
			u.valFacts(s, f)
		}
	case TupleV:
		for _, f := range x {
			u.valFacts(s, f)
		}
	}
}

// makeHead builds the arbitrary-iteration header state.
func (u *Unit) makeHead(fr *frame, l *loop, s0 *State, pl *loopPlan, iter *Term) *State {
	h := s0.clone()
	h.objs = map[int]*ConcObj{}
	for k, o := range s0.objs {
		if !pl.objs[k] {
			h.objs[k] = o
			continue
		}
		n := &ConcObj{elem: o.elem}
		for i := range o.elems {
			n.elems = append(n.elems, u.havocVal(h, o.elems[i], o.elem, fmt.Sprintf("obj%d_%d", k, i), pl, iter))
		}
		h.objs[k] = n
	}
	if pl.alloc {
		h.mark = Fresh("lmark", SInt, &SymMeta{refLBs: []*Term{s0.mark}, isMark: true})
	}
	var ks []string
	for k := range pl.keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		kp := pl.keys[k]
		ki, ok := u.eng.keyInfo[k]
		if !ok {
			if strings.HasPrefix(k, "$visited") {
				if _, has := s0.heap[k]; !has {
					continue // a range started inside the loop body
				}
				if strings.HasSuffix(k, "s") {
					h.heap[k] = Fresh(k, SArr, nil)
				} else {
					h.heap[k] = Fresh(k, SArrB, nil)
				}
				continue
			}
			unsup("no key info for %s", k)
		}
		old := u.getComp(s0, k, ki.l, ki.two)
		if old.op == OConstArr && ki.l.name == "#off" {
			continue
		}
		m := &SymMeta{lo: ki.l.lo, hi: ki.l.hi}
		if ki.l.ref {
			m.refUB = h.mark
		}
		var arr *Term
		if !kp.variant && !kp.fresh {
			// only loop-invariant references: keep the array, replace those cells
			arr = old
		} else {
			if !kp.variant || kp.frame {
				m.frameBase = old
				m.frameUB = s0.mark
				m.frameExc = kp.inv
			}
			arr = Fresh("L:"+k, old.sort, m)
		}
		for _, r := range kp.inv {
			es := arr.sort.elem()
			var nv *Term
			cn := fmt.Sprintf("%s@%d", k, r.id)
			if d, ok := pl.affine[cn]; ok && es == SInt {
				nv = Add(Select(old, r), Mul(d, iter))
			} else {
				em := &SymMeta{lo: ki.l.lo, hi: ki.l.hi}
				if ki.l.ref {
					em.refUB = h.mark
				}
				nv = Fresh("C:"+k, es, em)
			}
			arr = Store(arr, r, nv)
		}
		h.heap[k] = arr
	}
	if l == nil {
		return h
	}
	for _, p := range phisOf(l.header) {
		h.env[p] = u.havocVal(h, s0.env[p], p.Type(), phiName(p), pl, iter)
	}
	return h
}

func (u *Unit) cellVal(s *State, c cell) *Term {
	ki := u.eng.keyInfo[c.key]
	return Select(u.getComp(s, c.key, ki.l, ki.two), c.ref)
}

func (u *Unit) loopInv(fr *frame, l *loop, s0 *State) map[*ssa.BasicBlock][]*State {
	if len(fr.fn.Blocks) == 0 {
		unsup("loop")
	}
	pl := &loopPlan{keys: map[string]*keyPlan{}, affine: map[string]*Term{}, objs: map[int]bool{}}
	if traceLoops {
		t0 := time.Now()
		fmt.Fprintf(os.Stderr, "%*s> loop %d of %s (q%d d%d) from %v\n", 2*(u.quiet+u.discover), "", l.idx, fnName(fr.fn), u.quiet, u.discover, s0.pred)
		defer func() {
			fmt.Fprintf(os.Stderr, "%*s< loop %d %.1fs terms %d\n", 2*(u.quiet+u.discover), "", l.idx, time.Since(t0).Seconds(), termCnt)
		}()
	}
	// ---- discovery ----
	noAffine := map[string]bool{}
	shape := map[*ssa.Phi]Val{}
	_ = shape
	for round := 0; ; round++ {
		if round > 25 {
			unsup("loop discovery does not stabilise in %s", fnName(fr.fn))
		}
		before := pl.sig()
		nf := len(u.facts)
		tmark := termCnt
		iter := Fresh("iter", SInt, &SymMeta{lo: zeroB})
		h := u.makeHead(fr, l, s0, pl, iter)
		var logs []storeLog
		u.logs = append(u.logs, &logs)
		u.discover++
		fr.enter(l, iter)
		back, exd := u.runRegion(fr, l, l.header, []*State{h.clone()})
		_ = exd
		u.discover--
		u.logs = u.logs[:len(u.logs)-1]
		memo := map[*Term]bool{}
		ent := map[*Term]*Term{} // what the references carried round the loop are at first
		for _, p := range phisOf(l.header) {
			hv := map[string]*Term{}
			flatten(h.env[p], "", func(n string, t *Term) *Term { hv[n] = t; return t })
			flatten(s0.env[p], "", func(n string, t *Term) *Term {
				if strings.HasSuffix(n, "#ref") && hv[n] != nil && hv[n] != t {
					ent[hv[n]] = t
				}
				return t
			})
		}
		for _, lg := range logs {
			if _, has := s0.heap[lg.key]; !has && strings.HasPrefix(lg.key, "$visited") {
				continue // a range started inside the loop body
			}
			kp := pl.keys[lg.key]
			if kp == nil {
				kp = &keyPlan{}
				pl.keys[lg.key] = kp
			}
			kp.add(u, lg.ref, s0, tmark, memo, ent)
		}
		for _, b := range back {
			if b.mark != h.mark {
				pl.alloc = true
			}
			for k, o := range b.objs {
				if h.objs[k] != nil && h.objs[k] != o {
					pl.objs[k] = true
				}
			}
		}
		// affine detection
		if round >= 1 {
			u.detectAffine(fr, l, s0, h, back, pl, noAffine)
		}
		u.facts = u.facts[:nf:nf]
		if round >= 2 && pl.sig() == before {
			break
		}
	}
	if u.discover > 0 {
		// inside an outer discovery: run once more for the exit states
		iter := Fresh("iter", SInt, &SymMeta{lo: zeroB})
		h := u.makeHead(fr, l, s0, pl, iter)
		fr.enter(l, iter)
		_, ex := u.runRegion(fr, l, l.header, []*State{h})
		return ex
	}
	return u.loopVerify(fr, l, s0, pl)
}

func (u *Unit) affineVals(fr *frame, l *loop, st *State, pl *loopPlan) map[string]*Term {
	out := map[string]*Term{}
	for _, p := range phisOf(l.header) {
		if v, ok := st.env[p]; ok {
			flatten(v, phiName(p), func(n string, t *Term) *Term { out[n] = t; return t })
		}
	}
	for k, kp := range pl.keys {
		ki, ok := u.eng.keyInfo[k]
		if !ok || ki.two || ki.l.sort != SInt {
			continue
		}
		for _, r := range kp.inv {
			out[fmt.Sprintf("%s@%d", k, r.id)] = u.cellVal(st, cell{k, r})
		}
	}
	return out
}

func (kp *keyPlan) add(u *Unit, ref *Term, s0 *State, tmark int, memo map[*Term]bool, ent map[*Term]*Term) {
	if ref.op == OIte {
		kp.add(u, ref.args[1], s0, tmark, memo, ent)
		kp.add(u, ref.args[2], s0, tmark, memo, ent)
		return
	}
	if ref.isNum() && ref.n.Sign() == 0 {
		return // nil: never a real store
	}
	if refLe(AddI(s0.mark, 1), ref) {
		kp.fresh = true
		return
	}
	if u.isOld(ref, tmark, memo) {
		for _, r := range kp.inv {
			if r == ref {
				return
			}
		}
		kp.inv = append(kp.inv, ref)
		return
	}
	if e := ent[ref]; e != nil && u.isOld(e, tmark, memo) {
		kp.add(u, e, s0, tmark, memo, nil)
	}
	kp.variant = true
}

// detectAffine looks for loop variables that change by the same constant on every back edge.
func (u *Unit) detectAffine(fr *frame, l *loop, s0, h *State, back []*State, pl *loopPlan, no map[string]bool) {
	step := map[string]*Term{}
	bad := map[string]bool{}
	note := func(n string, hv, bv *Term) {
		if hv.sort != SInt || bad[n] {
			return
		}
		d := Sub(bv, hv)
		if !d.isNum() {
			// invariant step (e.g. + len of something fixed) not attempted
			bad[n] = true
			return
		}
		if o, ok := step[n]; ok && o != d {
			bad[n] = true
			return
		}
		step[n] = d
	}
	for _, b := range back {
		bs := b.clone()
		u.evalPhis(fr, bs, l.header)
		for _, p := range phisOf(l.header) {
			hv := map[string]*Term{}
			flatten(h.env[p], phiName(p), func(n string, t *Term) *Term { hv[n] = t; return t })
			got := map[string]bool{}
			flatten(bs.env[p], phiName(p), func(n string, t *Term) *Term {
				got[n] = true
				if x, ok := hv[n]; ok {
					note(n, x, t)
				}
				return t
			})
			for n := range hv {
				if !got[n] {
					bad[n] = true
				}
			}
		}
		for k, kp := range pl.keys {
			ki, ok := u.eng.keyInfo[k]
			if !ok || ki.two || ki.l.sort != SInt {
				continue
			}
			for _, r := range kp.inv {
				c := cell{k, r}
				note(fmt.Sprintf("%s@%d", k, r.id), u.cellVal(h, c), u.cellVal(b, c))
			}
		}
	}
	// allocation counter values etc. never appear here; wrapping types keep their range
	for n := range bad {
		no[n] = true
	}
	for n := range pl.affine {
		if no[n] || step[n] == nil {
			delete(pl.affine, n)
			no[n] = true
		}
	}
	for n, d := range step {
		if !no[n] && pl.affine[n] == nil {
			pl.affine[n] = d
		}
	}
	if len(back) == 0 {
		pl.affine = map[string]*Term{}
	}
}

// ---- names at a loop header ----

func (u *Unit) localResolver(fr *frame, blk *ssa.BasicBlock, st *State) func(string) (TV, bool) {
	return u.localResolver2(fr, blk, st, false)
}

// localResolverAt finds locals by name at the end of a block.
func (u *Unit) localResolverAt(fr *frame, blk *ssa.BasicBlock, st *State) func(string) (TV, bool) {
	return u.localResolver2(fr, blk, st, true)
}

func (u *Unit) localResolver2(fr *frame, blk *ssa.BasicBlock, st *State, own bool) func(string) (TV, bool) {
	return func(name string) (TV, bool) {
		for b := blk; b != nil; b = b.Idom() {
			if b != blk || own {
				// last reference in the block
				for i := len(b.Instrs) - 1; i >= 0; i-- {
					d, ok := b.Instrs[i].(*ssa.DebugRef)
					if !ok || d.Object() == nil || d.Object().Name() != name {
						continue
					}
					if _, isVar := d.Object().(*types.Var); !isVar || d.Object().(*types.Var).IsField() {
						continue
					}
					v, ok := u.tryVal(fr, st, d.X)
					if !ok {
						continue
					}
					if d.IsAddr {
						p, ok := v.(*PtrV)
						if !ok {
							continue
						}
						return TV{u.load(st, p), p.pointee()}, true
					}
					return unwrapTV(v, d.X.Type()), true
				}
			}
			for _, p := range phisOf(b) {
				if p.Comment == name {
					if v, ok := st.env[p]; ok {
						return TV{v, p.Type()}, true
					}
				}
			}
		}
		for i, p := range fr.fn.Params {
			if p.Name() == name {
				return unwrapTV(fr.args[i], p.Type()), true
			}
		}
		for _, p := range fr.fn.FreeVars {
			if p.Name() == name {
				if pv, ok := st.env[p].(*PtrV); ok {
					return TV{u.load(st, pv), pv.pointee()}, true
				}
			}
		}
		// variables whose address is taken
		for _, b := range fr.fn.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && a.Comment == name && b.Dominates(blk) {
					if pv, ok := st.env[a].(*PtrV); ok {
						return TV{u.load(st, pv), pv.pointee()}, true
					}
				}
			}
		}
		return TV{}, false
	}
}

func (u *Unit) tryVal(fr *frame, st *State, v ssa.Value) (r Val, ok bool) {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function:
		return u.val(fr, st, v), true
	}
	r, ok = st.env[v]
	return
}

func (u *Unit) loopCtx(fr *frame, l *loop, st, s0 *State, iter *Term) *ctx {
	c := u.newCtx(st, fr.pre)
	c.fn = fr.fn
	c.resolve = u.localResolver(fr, l.header, st)
	c.names["iter"] = ti(iter)
	if o := fr.outerIter(l); o != nil {
		c.names["outer"] = ti(o)
	}
	for _, k := range sortedKeys(st.heap) {
		if strings.HasPrefix(k, "$visited") && u.rangeLoop(l, k) {
			if strings.HasSuffix(k, "s") {
				c.names["spos"] = ti(Select(st.heap[k], Num(0)))
				c.names["scnt"] = ti(Select(st.heap[k], Num(1)))
			} else {
				c.names["$visited"] = TV{st.heap[k], nil}
			}
		}
	}
	if s0 != nil {
		e := u.newCtx(s0, fr.pre)
		e.fn = fr.fn
		e.resolve = u.localResolver(fr, l.header, s0)
		e.names["iter"] = ti(Num(0))
		c.ent = e
	}
	// parameters and lets of the contract of this function
	for _, ct := range u.eng.specs.contractsFor(fr.fn) {
		u.bindLets(c, ct, fr)
	}
	return c
}

func (u *Unit) bindLets(c *ctx, ct *Contract, fr *frame) {
	c.bindGivens(ct)
	if len(ct.lets) == 0 {
		return
	}
	p := u.newCtx(fr.pre, fr.pre)
	p.bindParams(fr.fn, fr.args)
	p.bindGivens(ct)
	for _, lt := range ct.lets {
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(specErr); !ok {
						panic(e)
					}
				}
			}()
			v := p.eval(lt.c.expr)
			p.names[lt.name] = v
			c.names[lt.name] = v
		}()
	}
}

// rangeLoop: does the map iterator with this visited key drive the loop?
func (u *Unit) rangeLoop(l *loop, key string) bool {
	for b := range l.body {
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok && u.eng.loopsOf(l.header.Parent()).inner[b] == l {
				if v, ok := u.curRange[n.Iter]; ok && fmt.Sprintf("$visited%d", v) == strings.TrimSuffix(key, "s") {
					return true
				}
			}
		}
	}
	return false
}

func (u *Unit) evalCand(fr *frame, l *loop, c *clause, st, s0 *State, iter *Term) (t *Term, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case specErr:
				ok = false
				if os.Getenv("GOVC_INV") != "" {
					fmt.Fprintf(os.Stderr, "inv skipped in %s: %s: %s\n", fnName(fr.fn), x.msg, c.src)
				}
				return
			case unsupported:
				ok = false
				return
			}
			panic(e)
		}
	}()
	return u.loopCtx(fr, l, st, s0, iter).evalBool(c.expr), true
}

// refCands: reference-valued loop variables stay at their entry value or are freshly allocated.
func (u *Unit) candidates(fr *frame, l *loop, s0, h *State, pl *loopPlan, iter *Term) []*cand {
	var cs []*cand
	add := func(name string, f func(st *State) (*Term, bool)) {
		cs = append(cs, &cand{name: name, eval: f})
	}
	for _, p := range phisOf(l.header) {
		p := p
		n := phiName(p)
		ent := map[string]*Term{}
		flatten(s0.env[p], n, func(k string, t *Term) *Term { ent[k] = t; return t })
		get := func(st *State, k string) *Term {
			var r *Term
			flatten(st.env[p], n, func(kk string, t *Term) *Term {
				if kk == k {
					r = t
				}
				return t
			})
			return r
		}
		var ks []string
		for k := range ent {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			k, e := k, ent[k]
			if e.sort != SInt {
				continue
			}
			if strings.HasSuffix(k, "#ref") {
				add(k+" unchanged or fresh", func(st *State) (*Term, bool) {
					v := get(st, k)
					if v == nil {
						return nil, false
					}
					return Or(Eq(v, e), Lt(s0.mark, v)), true
				})
				if !(e.isNum() && e.n.Sign() == 0) {
					add(k+" unchanged, nil or fresh", func(st *State) (*Term, bool) {
						v := get(st, k)
						if v == nil {
							return nil, false
						}
						return Or(Eq(v, e), Eq(v, Num(0)), Lt(s0.mark, v)), true
					})
				}
				if Eq(e, Num(0)) == tFalse || u.knownNonZero(s0, e) {
					add(k+" not nil", func(st *State) (*Term, bool) {
						v := get(st, k)
						if v == nil {
							return nil, false
						}
						return Ne(v, Num(0)), true
					})
				}
				continue
			}
			if _, aff := pl.affine[k]; aff {
				continue
			}
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				add(k+" = entry + iter", func(st *State) (*Term, bool) {
					return Eq(get(st, k), Add(e, st.iterOf(iter))), true
				})
				add(k+" >= entry", func(st *State) (*Term, bool) { return Le(e, get(st, k)), true })
				add(k+" <= entry", func(st *State) (*Term, bool) { return Le(get(st, k), e), true })
			}
			if isErrorType(p.Type()) {
				add(k+" unchanged", func(st *State) (*Term, bool) { return Eq(get(st, k), e), true })
			}
			if strings.HasSuffix(k, "#len") {
				add(k+" >= entry", func(st *State) (*Term, bool) { return Le(e, get(st, k)), true })
			}
		}
	}
	var keys []string
	for k := range pl.keys {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		ki, ok := u.eng.keyInfo[k]
		if !ok || ki.two || ki.l.sort != SInt {
			continue
		}
		for _, r := range pl.keys[k].inv {
			c := cell{k, r}
			if _, aff := pl.affine[fmt.Sprintf("%s@%d", k, r.id)]; aff {
				continue
			}
			e := u.cellVal(s0, c)
			if ki.l.ref {
				add(k+" unchanged or fresh", func(st *State) (*Term, bool) {
					v := u.cellVal(st, c)
					return Or(Eq(v, e), Lt(s0.mark, v)), true
				})
				if u.knownNonZero(s0, e) {
					add(k+" not nil", func(st *State) (*Term, bool) { return Ne(u.cellVal(st, c), Num(0)), true })
				}
			} else {
				add(k+" >= entry", func(st *State) (*Term, bool) { return Le(e, u.cellVal(st, c)), true })
			}
		}
	}
	// streams: buffered readers in step stay in step
	if g, ok := pl.keys["$stream.gen"]; ok {
		for _, rs := range g.inv {
			rs := rs
			if rd, ok := pl.keys["byteReader.reader"]; ok {
				for _, r := range rd.inv {
					r := r
					add("reader in step", func(st *State) (*Term, bool) {
						br := u.cellVal(st, cell{"byteReader.reader", r})
						ki := u.eng.keyInfo["bufio.Reader.$gen"]
						kr := u.eng.keyInfo["bufio.Reader.$rs"]
						return And(Eq(Select(u.getComp(st, "bufio.Reader.$gen", ki.l, false), br), u.streamGen(st, rs)), Eq(Select(u.getComp(st, "bufio.Reader.$rs", kr.l, false), br), rs)), true
					})
				}
			}
		}
	}
	// header condition held before the last step
	if iff, ok := lastInstr(l.header).(*ssa.If); ok {
		if b, ok := iff.Cond.(*ssa.BinOp); ok {
			for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				v, bnd := pr[0], pr[1]
				p, isPhi := v.(*ssa.Phi)
				inc, isInc := v.(*ssa.BinOp) // rangeindex: idx+1 < len
				if isInc {
					if q, ok := inc.X.(*ssa.Phi); ok {
						p, isPhi = q, true
					}
				}
				if !isPhi || p.Block() != l.header {
					continue
				}
				bt, ok := p.Type().Underlying().(*types.Basic)
				if !ok || bt.Info()&types.IsInteger == 0 {
					continue
				}
				bv := bnd
				evalB := func(st *State) (*Term, bool) {
					if x, ok := u.tryVal(fr, st, bv); ok {
						t, ok := x.(*Term)
						return t, ok
					}
					// evaluated inside the header: execute it
					return u.headerVal(fr, l, st, bv)
				}
				lower := b.Op == token.LSS && v == b.X || b.Op == token.GTR && v == b.Y
				upperEq := b.Op == token.LEQ && v == b.X || b.Op == token.GEQ && v == b.Y
				low := b.Op == token.GTR && v == b.X || b.Op == token.LSS && v == b.Y
				lowEq := b.Op == token.GEQ && v == b.X || b.Op == token.LEQ && v == b.Y
				e, ok2 := s0.env[p].(*Term)
				if !ok2 {
					continue
				}
				val := func(st *State) *Term { t, _ := st.env[p].(*Term); return t }
				k := Num(0)
				if isInc {
					k = Num(1)
				}
				if lower || b.Op == token.NEQ {
					add(phiName(p)+" within its bound", func(st *State) (*Term, bool) {
						bt, ok := evalB(st)
						if !ok {
							return nil, false
						}
						return Or(Eq(val(st), e), Le(Add(val(st), k), bt)), true
					})
				}
				if upperEq {
					add(phiName(p)+" within its bound", func(st *State) (*Term, bool) {
						bt, ok := evalB(st)
						if !ok {
							return nil, false
						}
						return Or(Eq(val(st), e), Le(Add(val(st), k), AddI(bt, 1))), true
					})
				}
				if low || b.Op == token.NEQ {
					add(phiName(p)+" above its bound", func(st *State) (*Term, bool) {
						bt, ok := evalB(st)
						if !ok {
							return nil, false
						}
						return Or(Eq(val(st), e), Le(bt, val(st))), true
					})
				}
				if lowEq {
					add(phiName(p)+" above its bound", func(st *State) (*Term, bool) {
						bt, ok := evalB(st)
						if !ok {
							return nil, false
						}
						return Or(Eq(val(st), e), Le(AddI(bt, -1), val(st))), true
					})
				}
			}
		}
	}
	// user invariants: those of this function, and those of the functions on the call stack
	seen := map[*clause]bool{}
	for i := len(u.stack) - 1; i >= 0; i-- {
		for _, ct := range u.eng.specs.contractsFor(u.stack[i]) {
			for _, iv := range ct.invs {
				if !iv.bears() {
					continue
				}
				iv := iv
				if seen[iv] {
					continue
				}
				seen[iv] = true
				if loopHints && iv.loops != nil && fr.fn == u.stack[i] && !iv.loops[l.idx] {
					continue
				}
				if _, ok := u.evalCand(fr, l, iv, h, s0, iter); !ok {
					continue
				}
				cs = append(cs, &cand{name: "inv " + iv.label, src: iv, user: true, eval: func(st *State) (*Term, bool) {
					return u.evalCand(fr, l, iv, st, s0, st.iterOf(iter))
				}})
			}
		}
	}
	return cs
}

// loopHints: use the loop numbers of invariants (off when a unit is tried again, since a change to the
// code may have reordered its loops).
var loopHints = true

func (u *Unit) knownNonZero(s *State, t *Term) bool {
	return s.simp(Eq(t, Num(0))) == tFalse
}

// iterOf: number of completed iterations in this state (set on back states).
func (s *State) iterOf(iter *Term) *Term {
	if s.iter != nil {
		return s.iter
	}
	return iter
}

func (u *Unit) headerVal(fr *frame, l *loop, st *State, v ssa.Value) (*Term, bool) {
	nf, nq := len(u.facts), u.quiet
	u.quiet++
	saveLogs := u.logs
	u.logs = nil
	var r *Term
	u.execBlock(fr, st.clone(), l.header, func(x *State, from, to *ssa.BasicBlock) {
		if t, ok := x.env[v].(*Term); ok {
			r = t
		}
	})
	u.logs = saveLogs
	u.quiet = nq
	u.facts = u.facts[:nf:nf]
	return r, r != nil
}

func (u *Unit) loopVerify(fr *frame, l *loop, s0 *State, pl *loopPlan) map[*ssa.BasicBlock][]*State {
	key := ""
	for _, f := range u.stack {
		key += fnName(f) + "/"
	}
	key += fmt.Sprintf("%s#%d", fnName(fr.fn), l.idx)
	iter := Fresh("iter", SInt, &SymMeta{lo: zeroB})
	nf0 := len(u.facts)
	// Guesses (not written invariants) that have failed here every one of the
	// first few times are not tried again: dropping one is always allowed.
	score := u.houdiniDead[key]
	if score == nil {
		score = map[string]int{}
		u.houdiniDead[key] = score
	}
	hopeless := func(c *cand) bool { return !c.user && score[c.name] <= -3 }
	// entry check
	s0e := s0.clone()
	s0e.iter = Num(0)
	frameDead := map[string]bool{}
	dl := map[string]bool{}
	first := true
	for round := 0; ; round++ {
		u.facts = u.facts[:nf0:nf0]
		for k, kp := range pl.keys {
			if kp.variant {
				kp.frame = !frameDead[k]
			}
		}
		h := u.makeHead(fr, l, s0, pl, iter)
		cs := u.candidates(fr, l, s0, h, pl, iter)
		var live []*cand
		for i, c := range cs {
			c.name = fmt.Sprintf("%s (%d)", c.name, i)
			if hopeless(c) {
				dl[c.name] = true
			}
			if !dl[c.name] {
				live = append(live, c)
			}
		}
		if first {
			// establish
			var checks []*hcheck
			for _, c := range live {
				t, ok := c.eval(s0e)
				if !ok {
					dl[c.name] = true
					continue
				}
				checks = append(checks, &hcheck{c: c, goal: t, guard: s0.guard, gset: s0.gset, facts: u.facts[:len(u.facts):len(u.facts)], what: "entry"})
			}
			u.runChecks(key, checks)
			for _, ck := range checks {
				if !ck.ok {
					dl[ck.c.name] = true
					score[ck.c.name]--
					u.noteDrop(fr, l, ck)
				}
			}
			first = false
			u.facts = u.facts[:nf0:nf0]
			var l2 []*cand
			for _, c := range live {
				if !dl[c.name] {
					l2 = append(l2, c)
				}
			}
			live = l2
		}
		for _, c := range live {
			t, ok := c.eval(h)
			if !ok {
				dl[c.name] = true
				continue
			}
			u.fact(h, t)
			u.markPrivate(c.src, t)
			if c.src != nil {
				u.markLabel(c.src, t)
			}
		}
		// body without obligations
		var logs []storeLog
		u.logs = append(u.logs, &logs)
		u.quiet++
		fr.enter(l, iter)
		back, _ := u.runRegion(fr, l, l.header, []*State{h.clone()})
		u.quiet--
		u.logs = u.logs[:len(u.logs)-1]
		var checks []*hcheck
		for _, b := range back {
			u.evalPhis(fr, b, l.header)
		}
		if len(back) > 1 {
			back = u.mergeGroup(fr, l.header, back)
		}
		for _, b := range back {
			b.iter = AddI(iter, 1)
			for _, c := range live {
				if dl[c.name] {
					continue
				}
				t, ok := c.eval(b)
				if !ok {
					dl[c.name] = true
					continue
				}
				checks = append(checks, &hcheck{c: c, goal: t, guard: b.guard, gset: b.gset, facts: u.facts[:len(u.facts):len(u.facts)], what: "preserved"})
			}
		}
		planBad := false
		for _, lg := range logs {
			kp := pl.keys[lg.key]
			if _, has := s0.heap[lg.key]; kp == nil && !has && strings.HasPrefix(lg.key, "$visited") {
				continue // a range started inside the loop body
			}
			if kp == nil {
				kp = &keyPlan{}
				pl.keys[lg.key] = kp
				planBad = true
			}
			if strings.HasPrefix(lg.key, "$visited") {
				continue
			}
			if kp.variant && !kp.frame {
				continue
			}
			ref := lg.ref
			if refLe(AddI(s0.mark, 1), ref) && kp.fresh {
				continue
			}
			g := []*Term{Eq(ref, Num(0))}
			if kp.fresh || kp.variant {
				g = append(g, Lt(s0.mark, ref))
			}
			for _, r := range kp.inv {
				g = append(g, Eq(ref, r))
			}
			goal := Or(g...)
			if goal == tTrue {
				continue
			}
			checks = append(checks, &hcheck{frameKey: lg.key, goal: goal, guard: lg.guard, facts: lg.facts, what: "frame " + lg.key})
		}
		// the plan itself: allocation, local arrays, constant steps
		for _, b := range back {
			if b.mark != h.mark && !pl.alloc {
				pl.alloc = true
				planBad = true
			}
			for k, o := range b.objs {
				if s0.objs[k] != nil && h.objs[k] != o && !pl.objs[k] {
					pl.objs[k] = true
					planBad = true
				}
			}
			var affs []string
			for n := range pl.affine {
				affs = append(affs, n)
			}
			sort.Strings(affs)
			vals := u.affineVals(fr, l, h, pl)
			bvals := u.affineVals(fr, l, b, pl)
			for _, n := range affs {
				hv, bv := vals[n], bvals[n]
				if hv == nil || bv == nil {
					delete(pl.affine, n)
					planBad = true
					continue
				}
				goal := Eq(bv, Add(hv, pl.affine[n]))
				if goal == tTrue {
					continue
				}
				checks = append(checks, &hcheck{frameKey: "affine " + n, goal: goal, guard: b.guard, facts: u.facts[:len(u.facts):len(u.facts)], what: "step of " + n})
			}
		}
		if planBad {
			if round > 60 {
				unsup("the plan of loop %d of %s does not stabilise", l.idx, fnName(fr.fn))
			}
			continue
		}
		checks = dedupChecks(checks)
		u.runChecks(key, checks)
		changed := false
		for _, ck := range checks {
			if ck.ok {
				continue
			}
			changed = true
			if ck.c != nil {
				if !dl[ck.c.name] {
					score[ck.c.name]--
				}
				dl[ck.c.name] = true
			} else if strings.HasPrefix(ck.frameKey, "affine ") {
				delete(pl.affine, ck.frameKey[7:])
			} else {
				frameDead[ck.frameKey] = true
				pl.keys[ck.frameKey].variant = true
			}
			u.noteDrop(fr, l, ck)
		}
		for _, c := range live {
			if dl[c.name] {
				changed = true
			}
		}
		if !changed {
			break
		}
		if round > 40 {
			unsup("invariant inference does not converge")
		}
	}
	// final run with obligations
	u.facts = u.facts[:nf0:nf0]
	h := u.makeHead(fr, l, s0, pl, iter)
	cs := u.candidates(fr, l, s0, h, pl, iter)
	kept := 0
	for i, c := range cs {
		c.name = fmt.Sprintf("%s (%d)", c.name, i)
		if dl[c.name] {
			continue
		}
		t, ok := c.eval(h)
		if !ok {
			continue
		}
		kept++
		score[c.name] += 1000
		u.fact(h, t)
		u.markPrivate(c.src, t)
		if c.src != nil {
			u.markLabel(c.src, t)
		}
		if u.quiet == 0 && u.discover == 0 {
			u.invCount++
		}
	}
	h.iter = nil
	fr.enter(l, iter)
	back, exits := u.runRegion(fr, l, l.header, []*State{h.clone()})
	if u.quiet == 0 && u.discover == 0 {
		for _, b := range back {
			u.evalPhis(fr, b, l.header)
		}
		if len(back) > 1 {
			back = u.mergeGroup(fr, l.header, back)
		}
		u.termination(fr, l, s0, h, back, iter, pl)
	}
	return exits
}

func (u *Unit) noteDrop(fr *frame, l *loop, ck *hcheck) {
	if os.Getenv("GOVC_INV") == "" {
		return
	}
	n := ck.frameKey
	if ck.c != nil {
		n = ck.c.name
	}
	fmt.Fprintf(os.Stderr, "  drop [%s loop %d, q%d] %s: %s (%s)\n", fnName(fr.fn), l.idx, u.quiet, ck.what, n, ck.status)
}

type hcheck struct {
	c        *cand
	frameKey string
	goal     *Term
	guard    []*Term
	gset     map[*Term]bool
	facts    []Fact
	what     string
	ok       bool
	status   string
}

func dedupChecks(cs []*hcheck) []*hcheck {
	seen := map[string]bool{}
	var out []*hcheck
	for _, c := range cs {
		var g strings.Builder
		for _, x := range c.guard {
			fmt.Fprintf(&g, "%d,", x.id)
		}
		n := c.frameKey
		if c.c != nil {
			n = c.c.name
		}
		k := fmt.Sprintf("%s|%d|%s|%s", n, c.goal.id, g.String(), c.what)
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, c)
	}
	return out
}

// runChecks decides all checks (in parallel).
func (u *Unit) runChecks(key string, cs []*hcheck) {
	var wg sync.WaitGroup
	for _, c := range cs {
		if c.goal == tTrue {
			c.ok = true
			continue
		}
		for _, f := range frameDone(c) {
			_ = f
		}
		c := c
		wg.Add(1)
		go func() {
			defer wg.Done()
			to := houdiniTO
			if c.c != nil && c.c.user {
				to = houdiniUserTO
			}
			name := u.name + " " + key + " " + c.what + " "
			if c.c != nil {
				name += c.c.name
			}
			c.ok = true
			termMu.Lock()
			parts := conj(c.goal)
			termMu.Unlock()
			for _, g := range parts {
				termMu.Lock()
				facts, hid := u.withoutPrivate(c.facts, c.label())
				as := assemble(facts, c.guard, g)
				termMu.Unlock()
				if hid {
					if r := solve(as, to, name+" (private)"); r.status == "unsat" {
						c.status = r.status
						continue
					}
					termMu.Lock()
					as = assemble(c.facts, c.guard, g)
					termMu.Unlock()
				}
				depth := 0
				if c.c != nil && c.c.user {
					depth = 1
				}
				r := solveSplit(as, to, name, depth)
				c.status = r.status
				if r.status != "unsat" {
					c.ok = false
					break
				}
			}
		}()
	}
	wg.Wait()
}

func (c *hcheck) label() string {
	if c.c != nil && c.c.src != nil && c.c.src.named {
		return c.c.src.label
	}
	return ""
}

func frameDone(c *hcheck) []int { return nil }

// assemble builds the assertion list for guard /\ facts /\ not goal.
func assemble(facts []Fact, guard []*Term, goal *Term) []*Term {
	gs := map[*Term]bool{}
	neg := map[*Term]bool{}
	for _, g := range guard {
		gs[g] = true
		neg[Not(g)] = true
	}
	as := append([]*Term{}, guard...)
	seen := map[*Term]bool{}
	for _, f := range facts {
		skip := false
		var rest []*Term
		for _, g := range f.guard {
			if gs[g] {
				continue
			}
			if neg[g] {
				skip = true
				break
			}
			rest = append(rest, g)
		}
		if skip {
			continue
		}
		t := f.f
		if len(rest) > 0 {
			t = Imp(And(rest...), t)
		}
		if t == tTrue || seen[t] {
			continue
		}
		seen[t] = true
		as = append(as, t)
	}
	return append(as, Not(goal))
}

// termination: the loop cannot run forever.
func (u *Unit) termination(fr *frame, l *loop, s0, h *State, back []*State, iter *Term, pl *loopPlan) {
	if len(back) == 0 {
		return
	}
	pos := token.NoPos
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			pos = in.Pos()
			break
		}
	}
	name := fmt.Sprintf("loop %d of %s terminates", l.idx+1, fnName(fr.fn))
	// map / string ranges
	for b := range l.body {
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok && u.eng.loopsOf(fr.fn).inner[b] == l {
				if n.IsString {
					return
				}
				r, ok := n.Iter.(*ssa.Range)
				if !ok {
					continue
				}
				mt := r.X.Type().Underlying().(*types.Map)
				kp := pl.keys[mapKey(mt)+".dom"]
				if kp == nil {
					return // iterated map is not written: finitely many keys
				}
				rv, ok := h.env[n.Iter].(*RangeV)
				if ok && !kp.variant {
					bad := false
					for _, x := range kp.inv {
						if Eq(x, rv.m) != tFalse {
							bad = true
						}
					}
					if !bad && refLe(rv.m, s0.mark) {
						return
					}
				}
			}
		}
	}
	// user measures
	for i := len(u.stack) - 1; i >= 0; i-- {
		for _, ct := range u.eng.specs.contractsFor(u.stack[i]) {
			for _, d := range ct.decreases {
				if !strings.HasPrefix(d.label, "loop") {
					continue
				}
				if d.loops != nil && fr.fn == u.stack[i] && !d.loops[l.idx] {
					continue
				}
				m0, ok := u.evalIntCand(fr, l, d, h, s0, iter)
				if !ok {
					continue
				}
				for _, b := range back {
					m1, ok := u.evalIntCand(fr, l, d, b, s0, AddI(iter, 1))
					if !ok {
						continue
					}
					u.oblige(b, "term", name, pos, And(Lt(m1, m0), Le(Num(0), m0)), "C01")
				}
				return
			}
		}
	}
	iff, ok := lastInstr(l.header).(*ssa.If)
	if ok {
		_, c0 := u.peekHeader(fr, l, h)
		neg := !l.body[l.header.Succs[0]]
		if c0 != nil {
			if neg {
				c0 = Not(c0)
			}
			if m0 := measureOf(c0); m0 != nil {
				for _, b := range back {
					t, ok := u.headerVal(fr, l, b, iff.Cond)
					if !ok {
						u.oblige(b, "term", name, pos, tFalse, "C01")
						continue
					}
					if neg {
						t = Not(t)
					}
					if t == tFalse {
						continue
					}
					m1 := measureOf(t)
					if m1 == nil {
						u.oblige(b, "term", name, pos, tFalse, "C01")
						continue
					}
					u.oblige(b, "term", name, pos, Or(Not(t), Lt(m1, m0)), "C01")
				}
				return
			}
		}
	}
	for _, b := range back {
		u.oblige(b, "term", name+" (no measure)", pos, tFalse, "C01")
	}
}

// measureOf turns "t <= 0" into the non-negative measure -t.
func measureOf(c *Term) *Term {
	switch c.op {
	case OLe0:
		return Sub(Num(0), c.args[0])
	case ONot:
		if c.args[0].op == OLe0 { // t > 0
			return c.args[0].args[0]
		}
		if c.args[0].op == OEq0 {
			return c.args[0].args[0]
		}
	case OAnd:
		for _, a := range c.args {
			if m := measureOf(a); m != nil {
				return m
			}
		}
	}
	return nil
}

func (u *Unit) evalIntCand(fr *frame, l *loop, c *clause, st, s0 *State, iter *Term) (t *Term, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case specErr, unsupported:
				ok = false
				return
			}
			panic(e)
		}
	}()
	return u.loopCtx(fr, l, st, s0, iter).evalInt(c.expr), true
}
