package main

// Cuts: straight-line code that repeats one pattern many times is verified piece by piece. At the
// cut points (after the calls of one function, at the joins behind conditional ones) the cut
// invariants are obligations; what the piece changed is then forgotten and the invariants assumed.

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cutState struct {
	s0       *State // where the cuts start
	seg      *State // where the current piece starts
	tmark    int
	facts    int // what is known where the cuts start
	segFacts int // and with the invariants of the current piece
	logs     []storeLog
	calls    []*ssa.BasicBlock // the counted calls
	last     []*ssa.BasicBlock // every call
	instr    map[*ssa.Call]int
	reach    map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

func (u *Unit) cutting(fr *frame) bool {
	return u.ct != nil && len(u.ct.cuts) > 0 && len(u.stack) == 1 && fr.fn == u.fn
}

func (u *Unit) cutSites(fr *frame) {
	c := &cutState{instr: map[*ssa.Call]int{}, reach: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fr.loops.rpo {
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if f := x.Call.StaticCallee(); f == nil || f.Name() != u.ct.cutFn {
				continue
			}
			c.last = append(c.last, b)
			if len(c.calls) < u.ct.cutMax {
				c.calls = append(c.calls, b)
				c.instr[x] = len(c.calls)
			}
		}
	}
	for i := len(fr.loops.rpo) - 1; i >= 0; i-- {
		b := fr.loops.rpo[i]
		m := map[*ssa.BasicBlock]bool{}
		for _, n := range b.Succs {
			m[n] = true
			for k := range c.reach[n] {
				m[k] = true
			}
		}
		c.reach[b] = m
	}
	u.cut = c
}

// unconditional: every later call is behind this block.
func (c *cutState) unconditional(b *ssa.BasicBlock) bool {
	for _, l := range c.last {
		if c.reach[b][l] && !b.Dominates(l) {
			return false
		}
	}
	// and some way to a return that avoids errors exists: a join
	return true
}

func (c *cutState) joinIdx(b *ssa.BasicBlock) int {
	if len(b.Preds) < 2 || b.Idom() == nil {
		return 0
	}
	n, in := 0, false
	for _, k := range c.calls {
		if k == b || !c.reach[k][b] {
			continue
		}
		n++
		if d := b.Idom(); d != k && d.Dominates(k) && !b.Dominates(k) {
			in = true
		}
	}
	if !in || !c.unconditional(b) {
		return 0
	}
	return n
}

func (u *Unit) cutEval(fr *frame, b *ssa.BasicBlock, own bool, s *State, idx int, cl *clause) (t *Term, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if x, is := e.(specErr); is {
				if os.Getenv("GOVC_INV") != "" {
					fmt.Fprintf(os.Stderr, "cut skipped in %s: %s: %s\n", fnName(fr.fn), x.msg, cl.src)
				}
				ok = false
				return
			}
			panic(e)
		}
	}()
	c := u.newCtx(s, fr.pre)
	c.fn = fr.fn
	c.resolve = u.localResolver2(fr, b, s, own)
	u.bindLets(c, u.ct, fr)
	c.names["cutidx"] = ti(Num(int64(idx)))
	e := u.newCtx(u.cut.seg, fr.pre)
	e.fn = fr.fn
	e.resolve = u.localResolver2(fr, b, u.cut.seg, own)
	c.ent = e
	return c.evalBool(cl.expr), true
}

func (u *Unit) cutOblige(fr *frame, b *ssa.BasicBlock, own bool, s *State, idx int) {
	for _, cl := range u.ct.cuts {
		t, ok := u.cutEval(fr, b, own, s, idx, cl)
		if !ok {
			unsup("cut invariant does not apply: %s", cl.src)
		}
		for _, p := range conj(t) {
			n := len(u.obligs)
			u.markLabel(cl, s.simp(p))
			u.oblige(s, "cut", fmt.Sprintf("invariant %s after piece %d", cl.label, idx), fr.fn.Pos(), p, cl.props...)
			if len(u.obligs) > n {
				u.obligs[n].from = cl.from
			}
		}
	}
}

func (u *Unit) cutStart(s *State) {
	u.cut.s0 = s.clone()
	u.cut.seg = u.cut.s0
	u.cut.tmark = termCnt
	u.cut.facts = len(u.facts)
	u.cut.segFacts = u.cut.facts
	u.cut.logs = nil
}

func (u *Unit) cutCall(fr *frame, b *ssa.BasicBlock, x *ssa.Call, sts []*State) []*State {
	if !u.cutting(fr) {
		return sts
	}
	if u.cut == nil {
		u.cutSites(fr)
	}
	if u.cut.s0 == nil {
		if f := x.Call.StaticCallee(); f != nil && f.Name() == u.ct.cutFrom && len(sts) == 1 {
			u.logs = append(u.logs, &u.cut.logs)
			u.cutStart(sts[0])
		}
		return sts
	}
	idx := u.cut.instr[x]
	if idx == 0 || !u.cut.unconditional(b) {
		return sts
	}
	if len(sts) != 1 {
		unsup("cut: %d states", len(sts))
	}
	u.cutOblige(fr, b, true, sts[0], idx)
	return []*State{u.cutForget(fr, b, true, sts[0], idx)}
}

// cutCheck: obligations at a join, before the states are merged.
func (u *Unit) cutCheck(fr *frame, b *ssa.BasicBlock, sts []*State) {
	if !u.cutting(fr) || u.cut == nil || u.cut.s0 == nil {
		return
	}
	if idx := u.cut.joinIdx(b); idx > 0 {
		for _, s := range sts {
			u.cutOblige(fr, b, false, s, idx)
		}
	}
}

func (u *Unit) cutJoin(fr *frame, b *ssa.BasicBlock, pre, sts []*State) []*State {
	if !u.cutting(fr) || u.cut == nil || u.cut.s0 == nil {
		return sts
	}
	idx := u.cut.joinIdx(b)
	if idx == 0 {
		return sts
	}
	if len(sts) != 1 {
		unsup("cut: %d states", len(sts))
	}
	return []*State{u.cutForget(fr, b, false, sts[0], idx)}
}

func (u *Unit) cutForget(fr *frame, b *ssa.BasicBlock, own bool, m *State, idx int) *State {
	h := u.forgotten(fr, m)
	c := u.cut
	u.facts = u.facts[:c.facts:c.facts]
	u.cutStartAt(fr, b, own, h, idx)
	return h
}

// forgotten is a state about which nothing is known but what cannot have changed since the cuts started.
func (u *Unit) forgotten(fr *frame, m *State) *State {
	c := u.cut
	pl := &loopPlan{keys: map[string]*keyPlan{}, affine: map[string]*Term{}, objs: map[int]bool{}, alloc: m.mark != c.s0.mark}
	memo := map[*Term]bool{}
	for _, lg := range c.logs {
		kp := pl.keys[lg.key]
		if kp == nil {
			kp = &keyPlan{}
			pl.keys[lg.key] = kp
		}
		kp.add(u, lg.ref, c.s0, c.tmark, memo, nil)
	}
	for k, o := range m.objs {
		if c.s0.objs[k] != nil && c.s0.objs[k] != o {
			pl.objs[k] = true
		}
	}
	// everything since the start is forgotten, not only this piece: one layer of memory
	h := u.makeHead(fr, nil, c.s0, pl, Num(0))
	for k, o := range m.objs {
		if h.objs[k] == nil {
			h.objs[k] = o
		}
	}
	for v, x := range m.env {
		if _, ok := h.env[v]; !ok {
			h.env[v] = x
		}
	}
	h.pred = m.pred
	return h
}

func (u *Unit) cutStartAt(fr *frame, b *ssa.BasicBlock, own bool, h *State, idx int) {
	for _, cl := range u.ct.cuts {
		if strings.HasPrefix(cl.label, "step") { // relates the piece to its start: of use up to here
			continue
		}
		if t, ok := u.cutEval(fr, b, own, h, idx, cl); ok {
			for _, p := range conj(t) {
				u.markLabel(cl, p)
				u.fact(h, p)
			}
		}
	}
	u.cut.seg = h.clone()
	u.cut.segFacts = len(u.facts)
}
