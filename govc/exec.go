package main

// Symbolic execution of go/ssa with state merging.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Fact struct {
	guard []*Term
	f     *Term
}

type Oblig struct {
	Name   string
	Kind   string
	Props  []string
	Pos    string
	Detail string
	facts  []Fact
	guard  []*Term
	goal   *Term
	label  string // of the clause, if it has one
	from   []string
	Status string // proved, failed
	Solver string
	Ms     int64
	Output string
	cover  bool
}

type storeLog struct {
	key   string
	ref   *Term
	idx   *Term
	guard []*Term
	facts []Fact
}

type Engine struct {
	prog        *ssa.Program
	pkgs        []*ssa.Package
	typeIDs     map[string]int64
	strLits     map[string]*Term
	strNames    map[int64]string
	specs       *SpecDB
	sums        map[*Contract]*Summary
	typeByID    map[int64]types.Type
	keyInfo     map[string]keyInfo
	constIDs    map[string]int64
	sliceLits   map[*ssa.Global]int
	typeNames   map[string]types.Type
	globals     map[*ssa.Global]*globalInfo
	loopInfo    map[*ssa.Function]*fnLoops
	trusted     map[string]int
	trustedNote map[string]string
	inlined     map[string]map[string]bool
	fns         map[string]*ssa.Function
	mutGlobals  map[*ssa.Global]bool
}

type keyInfo struct {
	l   leaf
	two bool
}

type Unit struct {
	givenVals   map[string]*Term
	hidden      map[*Term]bool   // preconditions labelled pre…: see unhide
	private     map[*Term]string // see markPrivate
	labels      map[*Term]string // see markLabel
	bufIface    bool             // a *bytes.Buffer has been converted to an interface
	gvals       map[*ssa.Global]Val
	lastSel     *Term
	trustUsed   map[string]bool
	curRange    map[ssa.Value]int
	houdiniDead map[string]map[string]int
	trivial     map[string]int
	invCount    int
	frameLog    []storeLog
	ct          *Contract

	eng           *Engine
	name          string
	fn            *ssa.Function
	facts         []Fact
	factSet       map[string]bool
	obligs        []*Oblig
	initHeap      map[string]*Term
	objCnt        int
	depth         int
	stack         []*ssa.Function
	quiet         int // >0: no obligations
	discover      int // >0: no invariants, no obligations
	logs          []*[]storeLog
	allocLogs     []map[string]bool
	mergeBlk      *ssa.BasicBlock
	loopSeq       int
	houdini       map[string][]bool
	warn          []string
	steps         int
	rangeVis      map[int]*Term
	loopNotes     []string
	contractsUsed map[string]bool
	inlineUsed    map[string]bool
	topFrame      *frame
	nameCnt       map[string]int
	decr          []*Term
	cut           *cutState
	termCheck     bool
	recursive     bool
}

type frame struct {
	fn     *ssa.Function
	args   []Val
	rets   []*Outcome
	params map[string]Val
	pre    *State // state at entry (for old())
	loops  *fnLoops
	caller *frame
	defers []*ssa.Defer
	entry  map[string]Val
	iters  map[*loop]*Term // the iteration number of each loop being run
}

type Outcome struct {
	facts []Fact // what the postconditions may use (nil: everything known)
	st    *State
	res   []Val
}

// mayBeNil: the error result can be nil.
func mayBeNil(rs []Val) bool {
	if len(rs) == 0 {
		return true
	}
	t, ok := rs[len(rs)-1].(*Term)
	return !ok || Eq(t, Num(0)) != tFalse
}

func (u *Unit) fact(s *State, f *Term) {
	if f == tTrue {
		return
	}
	u.facts = append(u.facts, Fact{s.guard[:len(s.guard):len(s.guard)], f})
}

func (u *Unit) logStore(s *State, key string, ref, idx *Term) {
	if u.quiet == 0 && u.discover == 0 {
		u.frameLog = append(u.frameLog, storeLog{key, ref, idx, s.guard[:len(s.guard):len(s.guard)], u.facts[:len(u.facts):len(u.facts)]})
	}
	for _, l := range u.logs {
		*l = append(*l, storeLog{key, ref, idx, s.guard[:len(s.guard):len(s.guard)], u.facts[:len(u.facts):len(u.facts)]})
	}
}
func (u *Unit) logAlloc(s *State, t types.Type) {}

func (u *Unit) oblige(s *State, kind, detail string, pos token.Pos, goal *Term, props ...string) {
	goal = s.simp(goal)
	if goal == tTrue {
		if u.quiet == 0 && u.discover == 0 {
			u.trivial[kind]++
		}
		return
	}
	if u.quiet == 0 && u.discover == 0 {
		p := u.eng.prog.Fset.Position(pos)
		ps := ""
		if p.IsValid() {
			f := p.Filename
			if i := strings.LastIndexByte(f, '/'); i >= 0 {
				f = f[i+1:]
			}
			ps = fmt.Sprintf("%s:%d", f, p.Line)
		}
		in := ""
		if n := len(u.stack); n > 0 && u.stack[n-1] != u.fn {
			in = " in " + fnName(u.stack[n-1])
		}
		u.obligs = append(u.obligs, &Oblig{Name: u.name + in + ": " + detail, Kind: kind, Props: props, Pos: ps, Detail: detail,
			facts: u.facts[:len(u.facts):len(u.facts)], guard: s.guard[:len(s.guard):len(s.guard)], goal: goal})
	}
	u.fact(s, goal)
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	n := f.RelString(nil)
	n = strings.ReplaceAll(n, "github.com/unidoc/unitype/internal/", "")
	n = strings.ReplaceAll(n, "github.com/unidoc/unitype.", "")
	n = strings.ReplaceAll(n, "github.com/unidoc/unitype", "unitype")
	return n
}

func (e *Engine) strLit(s string) *Term {
	if t, ok := e.strLits[s]; ok {
		return t
	}
	id := int64(1000000 + len(e.strLits))
	t := Num(id)
	e.strLits[s] = t
	e.strNames[id] = s
	return t
}

func init() {
	appRange["strlen"] = &SymMeta{lo: zeroB, hi: maxLen}
}

// ---------- loops of a function ----------

type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	parent *loop
	idx    int
}

type fnLoops struct {
	rpo      []*ssa.BasicBlock
	byHeader map[*ssa.BasicBlock]*loop
	inner    map[*ssa.BasicBlock]*loop // innermost loop containing the block
	reach    map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	debug    map[string][]*ssa.DebugRef
}

func (e *Engine) loopsOf(fn *ssa.Function) *fnLoops {
	if l, ok := e.loopInfo[fn]; ok {
		return l
	}
	fl := &fnLoops{byHeader: map[*ssa.BasicBlock]*loop{}, inner: map[*ssa.BasicBlock]*loop{}, reach: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, debug: map[string][]*ssa.DebugRef{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i := len(post) - 1; i >= 0; i-- {
		fl.rpo = append(fl.rpo, post[i])
	}
	for _, b := range fl.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fl.byHeader[s]
				if l == nil {
					l = &loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					fl.byHeader[s] = l
				}
				stk := []*ssa.BasicBlock{b}
				for len(stk) > 0 {
					x := stk[len(stk)-1]
					stk = stk[:len(stk)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					stk = append(stk, x.Preds...)
				}
			}
		}
	}
	var ls []*loop
	for _, b := range fl.rpo {
		if l, ok := fl.byHeader[b]; ok {
			l.idx = len(ls)
			ls = append(ls, l)
		}
	}
	for _, l := range ls {
		for _, p := range ls {
			if p != l && p.body[l.header] {
				if l.parent == nil || len(p.body) < len(l.parent.body) {
					l.parent = p
				}
			}
		}
	}
	for _, b := range fl.rpo {
		for _, l := range ls {
			if l.body[b] && (fl.inner[b] == nil || len(l.body) < len(fl.inner[b].body)) {
				fl.inner[b] = l
			}
		}
		r := map[*ssa.BasicBlock]bool{}
		stk := []*ssa.BasicBlock{b}
		for len(stk) > 0 {
			x := stk[len(stk)-1]
			stk = stk[:len(stk)-1]
			if r[x] {
				continue
			}
			r[x] = true
			stk = append(stk, x.Succs...)
		}
		fl.reach[b] = r
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.DebugRef); ok {
				if o := d.Object(); o != nil {
					fl.debug[o.Name()] = append(fl.debug[o.Name()], d)
				}
			}
		}
	}
	e.loopInfo[fn] = fl
	return fl
}

func (u *Unit) liveMatters(v ssa.Value) bool {
	b := u.mergeBlk
	if b == nil {
		return false
	}
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	fl := u.eng.loopsOf(b.Parent())
	for _, r := range *refs {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		rb := r.Block()
		if rb != nil && fl.reach[b] != nil && fl.reach[b][rb] {
			return true
		}
	}
	return false
}

// ---------- regions ----------

// runRegion executes the blocks of region l (nil: whole function), starting from the states in
// `start` at block `entry` whose phis are already evaluated. It returns the states on edges to the
// region header (back edges) and on edges leaving the region.
func (u *Unit) runRegion(fr *frame, l *loop, entry *ssa.BasicBlock, start []*State) (back []*State, exits map[*ssa.BasicBlock][]*State) {
	fl := fr.loops
	in := map[*ssa.BasicBlock][]*State{}
	exits = map[*ssa.BasicBlock][]*State{}
	route := func(st *State, from, to *ssa.BasicBlock) {
		st.pred = from
		if l != nil && to == l.header {
			back = append(back, st)
			return
		}
		if l != nil && !l.body[to] {
			exits[to] = append(exits[to], st)
			return
		}
		in[to] = append(in[to], st)
	}
	for _, b := range fl.rpo {
		if l != nil && !l.body[b] {
			continue
		}
		var sts []*State
		if b == entry {
			sts = start
		} else {
			if len(in[b]) == 0 {
				continue
			}
			for _, s := range in[b] {
				u.evalPhis(fr, s, b)
			}
			if l == nil {
				u.cutCheck(fr, b, in[b])
			}
			sts = u.mergeGroup(fr, b, in[b])
		}
		if l == nil && b != entry {
			sts = u.cutJoin(fr, b, in[b], sts)
		}
		if il := fl.byHeader[b]; il != nil && il != l {
			for _, s := range sts {
				ex := u.runLoop(fr, il, s)
				for _, tb := range sortedBlocks(ex) {
					for _, e := range ex[tb] {
						route(e, e.pred, tb)
					}
				}
			}
			continue
		}
		for _, s := range sts {
			u.execBlock(fr, s, b, route)
		}
	}
	return
}

func sortedBlocks(m map[*ssa.BasicBlock][]*State) []*ssa.BasicBlock {
	var bs []*ssa.BasicBlock
	for b := range m {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	return bs
}

func (u *Unit) evalPhis(fr *frame, s *State, b *ssa.BasicBlock) {
	pi := -1
	for i, p := range b.Preds {
		if p == s.pred {
			pi = i
		}
	}
	var ps []*ssa.Phi
	var vs []Val
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vs = append(vs, u.val(fr, s, p.Edges[pi]))
	}
	for i, p := range ps {
		s.env[p] = vs[i]
	}
}

// errSig: 'N' known nil, 'E' known non-nil, 'U' unknown.
func errSig(s *State, t *Term) byte {
	e := s.simp(Eq(t, Num(0)))
	if e == tTrue {
		return 'N'
	}
	if e == tFalse {
		return 'E'
	}
	return 'U'
}

func (u *Unit) stateSig(s *State, b *ssa.BasicBlock) string {
	sig := ""
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if isErrorType(p.Type()) {
			if t, ok := s.env[p].(*Term); ok {
				sig += string(errSig(s, t))
			}
		}
	}
	// error values defined earlier, live here and not yet tested
	var vs []string
	for v, x := range s.env {
		if _, isPhi := v.(*ssa.Phi); isPhi && v.(*ssa.Phi).Block() == b {
			continue
		}
		if isErrorType(v.Type()) {
			if t, ok := x.(*Term); ok && u.liveMatters(v) {
				vs = append(vs, v.Name()+string(errSig(s, t)))
			}
		}
	}
	sort.Strings(vs)
	return sig + strings.Join(vs, ",")
}

func (u *Unit) mergeGroup(fr *frame, b *ssa.BasicBlock, sts []*State) []*State {
	u.mergeBlk = b
	if len(sts) == 1 || u.ct != nil && u.ct.nomerge && fr.fn == u.fn && len(sts) <= 16 {
		return sts
	}
	groups := map[string][]*State{}
	var order []string
	for _, s := range sts {
		k := u.stateSig(s, b)
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], s)
	}
	var out []*State
	for _, k := range order {
		out = append(out, u.mergeList(fr, b, groups[k])...)
	}
	if len(out) > 400 {
		unsup("too many unmergeable states (%d) in %s", len(out), fnName(fr.fn))
	}
	return out
}

func (u *Unit) mergeList(fr *frame, b *ssa.BasicBlock, g []*State) []*State {
	var out []*State
	for _, s := range g {
		done := false
		for i := range out {
			u.mergeBlk = b
			if m := u.mergeStates(out[i], s); m != nil {
				// error values known nil / non-nil in both stay so
				u.keepErr(out[i], s, m)
				out[i] = m
				done = true
				break
			}
		}
		if !done {
			out = append(out, s)
		}
	}
	return out
}

func (u *Unit) keepErr(a, b, m *State) {
	for v, x := range m.env {
		if !isErrorType(v.Type()) {
			continue
		}
		t, ok := x.(*Term)
		if !ok {
			continue
		}
		at, ok1 := a.env[v].(*Term)
		bt, ok2 := b.env[v].(*Term)
		if ok1 && ok2 && errSig(a, at) == 'E' && errSig(b, bt) == 'E' {
			m.assume(Ne(t, Num(0)))
		}
	}
}

func (u *Unit) execBlock(fr *frame, s *State, b *ssa.BasicBlock, route func(*State, *ssa.BasicBlock, *ssa.BasicBlock)) {
	states := []*State{s}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if _, ok := in.(*ssa.DebugRef); ok {
			continue
		}
		switch x := in.(type) {
		case *ssa.If:
			for _, st := range states {
				c := st.simp(u.val(fr, st, x.Cond).(*Term))
				switch c {
				case tTrue:
					route(st, b, b.Succs[0])
				case tFalse:
					route(st, b, b.Succs[1])
				default:
					t := st.clone()
					if t.assume(c) {
						route(t, b, b.Succs[0])
					}
					if st.assume(Not(c)) {
						route(st, b, b.Succs[1])
					}
				}
			}
			return
		case *ssa.Jump:
			for _, st := range states {
				route(st, b, b.Succs[0])
			}
			return
		case *ssa.Return:
			for _, st := range states {
				var rs []Val
				for _, r := range x.Results {
					rs = append(rs, u.val(fr, st, r))
				}
				o := &Outcome{st: st, res: rs}
				if c := u.cut; u.ct != nil && u.ct.focus && c != nil && c.seg != nil && fr.fn == u.fn && mayBeNil(rs) {
					// the postconditions follow from the last cut and the lemmas: forget the rest
					u.lemmas(fr, b, st, rs, true)
					keep := u.facts
					u.facts = append([]Fact{}, u.facts[:c.segFacts]...)
					o.st = u.forgotten(fr, st)
					u.lemmas(fr, b, o.st, rs, false)
					o.facts = u.facts
					u.facts = keep
				} else {
					u.lemmas(fr, b, st, rs, true)
				}
				fr.rets = append(fr.rets, o)
			}
			return
		case *ssa.Panic:
			for _, st := range states {
				u.oblige(st, "panic", "explicit panic unreachable", x.Pos(), tFalse, "C01")
			}
			return
		}
		var next []*State
		for _, st := range states {
			next = append(next, u.execInstr(fr, st, in)...)
		}
		states = next
		if c, ok := in.(*ssa.Call); ok {
			states = u.cutCall(fr, b, c, states)
		}
		if len(states) == 0 {
			return
		}
	}
}

func (u *Unit) val(fr *frame, s *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return u.constVal(s, x)
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Global:
		return &PtrV{root: x.Type().(*types.Pointer).Elem(), ref: Sym("G:"+sanitize(x.String()), SInt, &SymMeta{lo: nil, hi: big64(-1)}), oidx: -1}
	case *ssa.Builtin:
		return x
	}
	if r, ok := s.env[v]; ok {
		return r
	}
	unsup("value %s (%s) not available in %s", v.Name(), v.String(), fnName(fr.fn))
	return nil
}

func (u *Unit) constVal(s *State, c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return u.zero(s, t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return App("fconst:"+c.Value.ExactString(), SInt)
		}
		n, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			unsup("const %s", c)
		}
		return NumB(n)
	case constant.String:
		return u.eng.strLit(constant.StringVal(c.Value))
	case constant.Float:
		return App("fconst:"+c.Value.ExactString(), SInt)
	}
	unsup("const %s", c)
	return nil
}

func (u *Unit) nonNil(s *State, p *PtrV, pos token.Pos, what string) {
	if p.obj > 0 {
		return
	}
	if p.idx != nil {
		return
	}
	g := Ne(p.ref, Num(0))
	if s.simp(g) == tTrue {
		return
	}
	u.oblige(s, "nil", "nil dereference: "+what, pos, g, "C01")
	s.assume(g)
}

func (u *Unit) wrap(t *Term, typ types.Type) *Term {
	b, ok := typ.Underlying().(*types.Basic)
	if !ok {
		return t
	}
	lo, hi, bits, signed, ok := intRange(b)
	if !ok {
		return t
	}
	l, h := t.bounds()
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return t
	}
	if signed {
		if bits == 64 {
			return t // int/int64 treated as mathematical integers (stated assumption)
		}
		half := pow2(bits - 1)
		return Sub(Mod(Add(t, NumB(half)), pow2(bits)), NumB(half))
	}
	return Mod(t, pow2(bits))
}

func srcName(v ssa.Value) string {
	// a stable readable name for a value
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Name()
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return srcName(x.X) + "." + st.Field(x.Field).Name()
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		return srcName(x.X) + "." + st.Field(x.Field).Name()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return srcName(x.X)
		}
	case *ssa.IndexAddr:
		return srcName(x.X) + "[]"
	case *ssa.Alloc:
		return x.Comment
	case *ssa.Phi:
		return x.Comment
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			return f.Name() + "()"
		}
	case *ssa.Extract:
		return srcName(x.Tuple)
	case *ssa.Global:
		return x.Name()
	case *ssa.MakeSlice, *ssa.MakeMap:
		return "new"
	case *ssa.Slice:
		return srcName(x.X) + "[:]"
	case *ssa.Convert:
		return srcName(x.X)
	case *ssa.Lookup:
		return srcName(x.X) + "[]"
	}
	return "value"
}

func (u *Unit) execInstr(fr *frame, s *State, in ssa.Instruction) []*State {
	u.steps++
	if u.steps > 3000000 {
		unsup("execution budget exceeded")
	}
	one := []*State{s}
	switch x := in.(type) {
	case *ssa.Alloc:
		et := x.Type().(*types.Pointer).Elem()
		if a, ok := et.Underlying().(*types.Array); ok {
			if x.Comment == "makeslice" && a.Len() > 8 || x.Comment == "slicelit" && a.Len() > 64 {
				// only ever sliced
				s.env[x] = u.newSlice(s, a.Elem(), Num(a.Len()), Num(a.Len()))
				return one
			}
			if a.Len() > 64 {
				unsup("large array")
			}
			u.objCnt++
			o := &ConcObj{elem: a.Elem()}
			for i := int64(0); i < a.Len(); i++ {
				o.elems = append(o.elems, u.zero(s, a.Elem()))
			}
			s.objs[u.objCnt] = o
			s.env[x] = &PtrV{root: et, ref: Num(0), obj: u.objCnt, oidx: -1}
			return one
		}
		s.env[x] = u.alloc(s, et)
		return one
	case *ssa.FieldAddr:
		p := u.val(fr, s, x.X).(*PtrV)
		u.nonNil(s, p, x.Pos(), srcName(x.X))
		s.env[x] = p.field(x.Field)
	case *ssa.Field:
		v := u.val(fr, s, x.X).(*StructV)
		s.env[x] = v.f[x.Field]
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if g, ok := x.X.(*ssa.Global); ok {
				if g.Name() == "init$guard" {
					s.env[x] = tFalse
					return one
				}
				s.env[x] = u.globalVal(s, g)
				return one
			}
			p := u.val(fr, s, x.X).(*PtrV)
			u.nonNil(s, p, x.Pos(), srcName(x.X))
			s.env[x] = u.load(s, p)
		case token.NOT:
			s.env[x] = Not(u.val(fr, s, x.X).(*Term))
		case token.SUB:
			v := u.val(fr, s, x.X).(*Term)
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
				s.env[x] = App("fneg", SInt, v)
			} else {
				s.env[x] = u.wrap(Sub(Num(0), v), x.Type())
			}
		case token.XOR:
			v := u.val(fr, s, x.X).(*Term)
			s.env[x] = u.wrap(Sub(Num(-1), v), x.Type())
		default:
			unsup("unop %s", x.Op)
		}
	case *ssa.BinOp:
		s.env[x] = u.binop(fr, s, x)
	case *ssa.Store:
		if g, ok := x.Addr.(*ssa.Global); ok && u.storeGlobal(fr, s, x, g) {
			return one
		}
		p := u.val(fr, s, x.Addr).(*PtrV)
		u.nonNil(s, p, x.Pos(), srcName(x.Addr))
		u.store(s, p, u.val(fr, s, x.Val))
	case *ssa.ChangeType:
		v := u.val(fr, s, x.X)
		if sv, ok := v.(*StructV); ok {
			v = &StructV{t: x.Type(), f: sv.f}
		}
		s.env[x] = v
	case *ssa.ChangeInterface:
		s.env[x] = u.val(fr, s, x.X)
	case *ssa.Convert:
		s.env[x] = u.convert(fr, s, x)
	case *ssa.MakeInterface:
		v := u.val(fr, s, x.X)
		if isErrorType(x.Type()) {
			t := Fresh("err", SInt, &SymMeta{lo: big64(1)})
			s.env[x] = t
			return one
		}
		if typeKey(x.X.Type()) == "*bytes.Buffer" {
			u.bufIface = true
		}
		s.env[x] = &IfaceV{typ: x.X.Type(), val: v}
	case *ssa.MakeClosure:
		f := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.binds = append(f.binds, u.val(fr, s, b))
		}
		s.env[x] = f
	case *ssa.MakeMap:
		s.env[x] = u.newMap(s, x.Type().Underlying().(*types.Map))
	case *ssa.MakeSlice:
		n := u.val(fr, s, x.Len).(*Term)
		c := u.val(fr, s, x.Cap).(*Term)
		u.oblige(s, "makeslice", "make with non-negative length: "+srcName(x.Len), x.Pos(), Le(Num(0), n), "C01")
		if n != c {
			u.oblige(s, "makeslice", "make with length within capacity", x.Pos(), Le(n, c), "C01")
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		s.env[x] = u.newSlice(s, et, n, c)
	case *ssa.Slice:
		s.env[x] = u.sliceOp(fr, s, x)
	case *ssa.IndexAddr:
		i := u.val(fr, s, x.Index).(*Term)
		switch b := u.val(fr, s, x.X).(type) {
		case *PtrV:
			if b.obj > 0 {
				o := s.objs[b.obj]
				k, ok := i.i64()
				if !ok {
					unsup("symbolic index into a local array")
				}
				if k < 0 || k >= int64(len(o.elems)) {
					u.oblige(s, "index", "index in range: "+srcName(x), x.Pos(), tFalse, "C01")
					return nil
				}
				s.env[x] = &PtrV{root: o.elem, ref: Num(0), obj: b.obj, oidx: int(k)}
				return one
			}
			unsup("index of heap array %s", x.X.Type())
		case *SliceV:
			u.oblige(s, "index", "index in range: "+srcName(x), x.Pos(), And(Le(Num(0), i), Lt(i, b.len)), "C01")
			if b.obj > 0 {
				k, ok := Add(b.off, i).i64()
				if !ok {
					unsup("symbolic index into a concrete slice")
				}
				if k < 0 || k >= int64(len(s.objs[b.obj].elems)) {
					return nil
				}
				s.env[x] = &PtrV{root: b.elem, ref: Num(0), obj: b.obj, oidx: int(k)}
				return one
			}
			s.env[x] = &PtrV{root: b.elem, ref: b.ref, idx: Add(b.off, i), oidx: -1}
		default:
			unsup("IndexAddr on %T", b)
		}
	case *ssa.Index:
		i := u.val(fr, s, x.Index).(*Term)
		switch b := u.val(fr, s, x.X).(type) {
		case *Term:
			if isByteArr4(x.X.Type()) {
				k, ok := i.i64()
				if !ok || k < 0 || k > 3 {
					unsup("array index")
				}
				s.env[x] = byteOf(b, 3-int(k))
				return one
			}
			// string index
			u.oblige(s, "index", "string index in range", x.Pos(), And(Le(Num(0), i), Lt(i, u.strLen(b))), "C01")
			s.env[x] = u.strAt(b, i)
		default:
			unsup("Index on %T", b)
		}
	case *ssa.Lookup:
		return u.lookup(fr, s, x)
	case *ssa.MapUpdate:
		m := u.val(fr, s, x.Map).(*Term)
		u.oblige(s, "nilmap", "write to nil map: "+srcName(x.Map), x.Pos(), Ne(m, Num(0)), "C01")
		u.mapStore(s, x.Map.Type().Underlying().(*types.Map), m, u.keyTerm(s, u.val(fr, s, x.Key)), u.val(fr, s, x.Value))
	case *ssa.Range:
		mt, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			u.objCnt++
			s.env[x] = &RangeV{id: u.objCnt, isStr: true, m: u.val(fr, s, x.X).(*Term)}
			u.curRange[x] = u.objCnt
			s.heap[fmt.Sprintf("$visited%ds", u.objCnt)] = ConstArr(SArr, Num(0))
			return one
		}
		u.objCnt++
		s.env[x] = &RangeV{m: u.val(fr, s, x.X).(*Term), mt: mt, id: u.objCnt}
		u.curRange[x] = u.objCnt
		s.heap[fmt.Sprintf("$visited%d", u.objCnt)] = ConstArr(SArrB, tFalse)
	case *ssa.Next:
		return u.next(fr, s, x)
	case *ssa.TypeAssert:
		return u.typeAssert(fr, s, x)
	case *ssa.Extract:
		tv, ok := u.val(fr, s, x.Tuple).(TupleV)
		if !ok {
			unsup("extract of %T", u.val(fr, s, x.Tuple))
		}
		s.env[x] = tv[x.Index]
	case *ssa.Call:
		return u.call(fr, s, x, &x.Call, x.Pos())
	case *ssa.Defer:
		if !u.deferOK(&x.Call) {
			unsup("defer of %s", x.Call.String())
		}
	case *ssa.RunDefers:
	default:
		unsup("instruction %T", in)
	}
	return one
}

func (u *Unit) binop(fr *frame, s *State, x *ssa.BinOp) Val {
	a := u.val(fr, s, x.X)
	b := u.val(fr, s, x.Y)
	switch x.Op {
	case token.EQL:
		return u.eqVal(s, a, b, x.X.Type())
	case token.NEQ:
		return Not(u.eqVal(s, a, b, x.X.Type()))
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsup("binop on %T", a)
	}
	bt, _ := x.X.Type().Underlying().(*types.Basic)
	if bt != nil && bt.Info()&types.IsFloat != 0 {
		switch x.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return Fresh("fcmp", SBool, nil)
		}
		return App("f"+x.Op.String(), SInt, p, q)
	}
	if bt != nil && bt.Info()&types.IsString != 0 {
		switch x.Op {
		case token.ADD:
			return App("strcat", SInt, p, q)
		}
		return Fresh("strcmp", SBool, nil)
	}
	typ := x.Type()
	switch x.Op {
	case token.ADD:
		return u.wrap(Add(p, q), typ)
	case token.SUB:
		return u.wrap(Sub(p, q), typ)
	case token.MUL:
		return u.wrap(Mul(p, q), typ)
	case token.QUO:
		u.oblige(s, "div", "division by zero", x.Pos(), Ne(q, Num(0)), "C01")
		return u.wrap(TDiv(p, q), typ)
	case token.REM:
		u.oblige(s, "div", "division by zero", x.Pos(), Ne(q, Num(0)), "C01")
		return u.wrap(TRem(p, q), typ)
	case token.LSS:
		return Lt(p, q)
	case token.LEQ:
		return Le(p, q)
	case token.GTR:
		return Lt(q, p)
	case token.GEQ:
		return Le(q, p)
	case token.AND:
		return bitAnd(p, q)
	case token.OR:
		r := bitOr(p, q, typ)
		if r.op == OApp {
			// operands that turn out to occupy disjoint bits
			for _, pq := range [][2]*Term{{p, q}, {q, p}} {
				for k := uint(32); k > 0; k-- {
					if m := Mod(pq[0], pow2(k)); m.isNum() && m.n.Sign() == 0 {
						u.fact(s, Imp(And(Le(Num(0), pq[1]), Lt(pq[1], NumB(pow2(k)))), Eq(r, Add(p, q))))
						break
					}
				}
			}
		}
		return r
	case token.SHL:
		if k, ok := q.i64(); ok && k >= 0 && k < 64 {
			return u.wrap(MulC(p, pow2(uint(k))), typ)
		}
	case token.SHR:
		if k, ok := q.i64(); ok && k >= 0 && k < 64 {
			return Div(p, pow2(uint(k)))
		}
	}
	m := &SymMeta{}
	if bt, ok := typ.Underlying().(*types.Basic); ok {
		m.lo, m.hi, _, _, _ = intRange(bt)
	}
	n := "bit" + x.Op.String() + typeKey(typ)
	appRange[n] = m
	return App(n, SInt, p, q)
}

func bitAnd(p, q *Term) *Term {
	if p.isNum() {
		p, q = q, p
	}
	if q.isNum() && q.n.Sign() >= 0 {
		lo, _ := p.bounds()
		_ = lo
		// sum over runs of set bits (two's complement agrees with euclidean mod/div)
		var parts []*Term
		n := q.n
		i := 0
		for i < n.BitLen() {
			if n.Bit(i) == 0 {
				i++
				continue
			}
			j := i
			for j < n.BitLen() && n.Bit(j) == 1 {
				j++
			}
			parts = append(parts, MulC(Mod(Div(p, pow2(uint(i))), pow2(uint(j-i))), pow2(uint(i))))
			i = j
		}
		return Add(parts...)
	}
	m := &SymMeta{}
	lo1, hi1 := p.bounds()
	lo2, hi2 := q.bounds()
	if lo1 != nil && lo2 != nil && lo1.Sign() >= 0 && lo2.Sign() >= 0 {
		m.lo = zeroB
		m.hi = hi1
		if m.hi == nil || hi2 != nil && hi2.Cmp(hi1) < 0 {
			m.hi = hi2
		}
	}
	n := "bitand"
	if m.hi != nil {
		n += m.hi.String()
	}
	appRange[n] = m
	return App(n, SInt, p, q)
}

// bitOr: exact when the operands occupy disjoint bits.
func bitOr(p, q *Term, typ types.Type) *Term {
	if p.isNum() && p.n.Sign() == 0 {
		return q
	}
	if q.isNum() && q.n.Sign() == 0 {
		return p
	}
	try := func(a, b *Term) *Term {
		lo, hi := b.bounds()
		if lo == nil || hi == nil || lo.Sign() < 0 {
			return nil
		}
		m := pow2(uint(hi.BitLen()))
		if Mod(a, m).isNum() && Mod(a, m).n.Sign() == 0 {
			return Add(a, b)
		}
		return nil
	}
	if r := try(p, q); r != nil {
		return r
	}
	if r := try(q, p); r != nil {
		return r
	}
	m := &SymMeta{}
	if bt, ok := typ.Underlying().(*types.Basic); ok {
		m.lo, m.hi, _, _, _ = intRange(bt)
	}
	n := "bitor" + typeKey(typ)
	appRange[n] = m
	return App(n, SInt, p, q)
}

func (u *Unit) eqVal(s *State, a, b Val, t types.Type) *Term {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			unsup("eq %T %T", a, b)
		}
		return Eq(x, y)
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok {
			unsup("eq %T %T", a, b)
		}
		if x.obj > 0 || y.obj > 0 || len(x.path) > 0 || len(y.path) > 0 || x.idx != nil || y.idx != nil {
			if y.ref.isNum() && y.ref.n.Sign() == 0 && y.obj == 0 && y.idx == nil && len(y.path) == 0 {
				return tFalse
			}
			unsup("comparison of interior pointers")
		}
		return Eq(x.ref, y.ref)
	case *SliceV:
		y, ok := b.(*SliceV)
		if ok && y.ref != nil && y.ref.isNum() {
			if x.obj > 0 {
				return tFalse
			}
			return Eq(x.ref, Num(0))
		}
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if ok {
			if y.typ == nil && y.tag.isNum() && y.tag.n.Sign() == 0 {
				if x.typ != nil {
					return tFalse
				}
				return Eq(x.tag, Num(0))
			}
		}
	case *FuncV:
		return tFalse
	}
	unsup("equality of %s", t)
	return nil
}

func (u *Unit) convert(fr *frame, s *State, x *ssa.Convert) Val {
	v := u.val(fr, s, x.X)
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	tb, okT := to.(*types.Basic)
	fb, okF := from.(*types.Basic)
	if okT && okF {
		t := v.(*Term)
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			return u.convInt(t, x.Type())
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0 {
			return App("i2f", SInt, t)
		}
		if fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0 {
			m := &SymMeta{}
			m.lo, m.hi, _, _, _ = intRange(tb)
			n := "f2i" + tb.Name()
			appRange[n] = m
			return App(n, SInt, t)
		}
		if fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0 {
			return t
		}
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return t
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0 {
			return App("str1r", SInt, t)
		}
	}
	if okT && tb.Info()&types.IsString != 0 {
		if sv, ok := v.(*SliceV); ok {
			return u.bytesToStr(s, sv)
		}
	}
	if okF && fb.Info()&types.IsString != 0 {
		if sl, ok := to.(*types.Slice); ok {
			return u.strToSlice(s, v.(*Term), sl.Elem())
		}
	}
	unsup("convert %s -> %s", x.X.Type(), x.Type())
	return nil
}

func (u *Unit) convInt(t *Term, typ types.Type) *Term {
	b := typ.Underlying().(*types.Basic)
	lo, hi, bits, signed, _ := intRange(b)
	l, h := t.bounds()
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return t
	}
	if bits == 64 && signed {
		if h != nil && h.Cmp(hi) <= 0 || h == nil {
			return t
		}
	}
	if signed {
		half := pow2(bits - 1)
		return Sub(Mod(Add(t, NumB(half)), pow2(bits)), NumB(half))
	}
	return Mod(t, pow2(bits))
}

func (u *Unit) strLen(t *Term) *Term {
	if k, ok := t.i64(); ok {
		if l, ok := u.eng.strNames[k]; ok {
			return Num(int64(len(l)))
		}
	}
	return App("strlen", SInt, t)
}

func (u *Unit) strAt(t, i *Term) *Term {
	appRange["strat"] = &SymMeta{lo: zeroB, hi: big64(255)}
	if k, ok := t.i64(); ok {
		if l, ok := u.eng.strNames[k]; ok {
			if j, ok := i.i64(); ok && j >= 0 && j < int64(len(l)) {
				return Num(int64(l[j]))
			}
		}
	}
	return App("strat", SInt, t, i)
}

// runeAt is the rune at byte position p of string t, and the number of bytes it takes.
func (u *Unit) runeAt(t, p *Term) (*Term, *Term) {
	appRange["runeat"] = &SymMeta{lo: zeroB, hi: big64(0x10ffff)}
	appRange["runesz"] = &SymMeta{lo: big64(1), hi: big64(4)}
	return App("runeat", SInt, t, p), App("runesz", SInt, t, p)
}

// nrunes is the number of runes of string t.
func (u *Unit) nrunes(s *State, t *Term) *Term {
	appRange["nrunes"] = &SymMeta{lo: zeroB, hi: maxLen}
	n := App("nrunes", SInt, t)
	u.fact(s, Le(n, u.strLen(t)))
	if u.eng.specs.recs["rpos"] != nil {
		u.fact(s, Eq(u.recTerm(s, "rpos", TV{t, types.Typ[types.String]}, ti(n)), u.strLen(t)))
	}
	return n
}

// lemmas proves the contract's inductive lemmas at a return of the unit's function and adds them
// to the facts. A lemma naming a local that is not in scope at this return is left out.
// If prove is false they were proved before and are only added.
func (u *Unit) lemmas(fr *frame, blk *ssa.BasicBlock, s *State, rs []Val, prove bool) {
	if u.ct == nil || len(u.stack) != 1 || fr.fn != u.stack[0] || len(u.ct.lemmas) == 0 {
		return
	}
	ob := u.oblige
	if !prove {
		ob = func(*State, string, string, token.Pos, *Term, ...string) {}
	}
	for _, l := range u.ct.lemmas {
		func() {
			defer func() {
				if e := recover(); e != nil {
					if x, ok := e.(specErr); ok {
						if os.Getenv("GOVC_INV") != "" {
							fmt.Fprintf(os.Stderr, "lemma skipped in %s: %s: %s\n", fnName(fr.fn), x.msg, l.src)
						}
						return
					}
					panic(e)
				}
			}()
			x, ok := l.expr.(*ast.CallExpr)
			c := u.newCtx(s, fr.pre)
			c.fn = fr.fn
			c.resolve = u.localResolverAt(fr, blk, s)
			u.bindLets(c, u.ct, fr)
			c.bindResults(fr.fn, rs)
			if u.cut != nil && u.cut.seg != nil { // entry(e): after the last cut
				e := u.newCtx(u.cut.seg, fr.pre)
				e.fn = fr.fn
				e.resolve = u.localResolverAt(fr, blk, u.cut.seg)
				c.ent = e
			}
			if ok && exprStr(x.Fun) == "define" && len(x.Args) == 4 {
				// define(y, F(...), guard, cond): F(...) names the one value for which cond holds
				g := c.evalBool(x.Args[2])
				if s.simp(g).op == OFalse {
					return
				}
				y, f := c.eval(x.Args[0]).v.(*Term), c.eval(x.Args[1]).v.(*Term)
				for _, p := range conj(c.evalBool(x.Args[3])) {
					ob(s, "lemma", l.label, fr.fn.Pos(), Imp(g, p), l.props...)
				}
				u.fact(s, Imp(g, Eq(y, f)))
				return
			}
			if !ok || exprStr(x.Fun) != "induct" || len(x.Args) != 4 {
				for _, p := range conj(c.evalBool(l.expr)) {
					n := len(u.obligs)
					ob(s, "lemma", l.label, fr.fn.Pos(), p, l.props...)
					if len(u.obligs) > n {
						u.obligs[n].from = l.from
					}
					u.markLabel(l, p)
					u.fact(s, p)
				}
				return
			}
			k := x.Args[0].(*ast.Ident).Name
			lo, hi := c.evalInt(x.Args[1]), c.evalInt(x.Args[2])
			at := func(i *Term) *Term {
				n := c.sub()
				n.bound[k] = i
				return n.evalBool(x.Args[3])
			}
			ob(s, "lemma", l.label+": base", fr.fn.Pos(), Imp(Le(lo, hi), at(lo)), l.props...)
			v := Fresh("ind", SInt, nil)
			ob(s, "lemma", l.label+": step", fr.fn.Pos(), Imp(And(Le(lo, v), Lt(v, hi), at(v)), at(AddI(v, 1))), l.props...)
			bv := BoundVar(k)
			u.fact(s, mkQuant(true, bv, lo, AddI(hi, 1), at(bv)))
		}()
	}
}

func (u *Unit) elemKey(et types.Type) string { return "[]" + typeKey(et) }

// rowOf returns the backing row of a byte-like slice (single-leaf element type).
func (u *Unit) rowOf(s *State, v *SliceV) *Term {
	ls := scalarLeaves(v.elem)
	c := u.getComp(s, u.elemKey(v.elem), ls[0], true)
	return Select(c, v.ref)
}

func (u *Unit) bytesToStr(s *State, v *SliceV) *Term {
	if v.obj > 0 {
		o := s.objs[v.obj]
		lo, _ := v.off.i64()
		n, _ := v.len.i64()
		if n == 4 && lo == 0 {
			w := o.whole
			if w == nil {
				w = u.concWhole(o)
			}
			if k, ok := w.i64(); ok {
				return u.eng.strLit(string([]byte{byte(k >> 24), byte(k >> 16), byte(k >> 8), byte(k)}))
			}
			return App("str4", SInt, w)
		}
		allc := true
		var bs []byte
		for i := lo; i < lo+n; i++ {
			if k, ok := o.elems[i].(*Term).i64(); ok {
				bs = append(bs, byte(k))
			} else {
				allc = false
			}
		}
		if allc {
			return u.eng.strLit(string(bs))
		}
		unsup("string of concrete bytes")
	}
	if len(scalarLeaves(v.elem)) != 1 || typeKey(v.elem.Underlying()) == "int32" || typeKey(v.elem.Underlying()) == "rune" {
		if len(scalarLeaves(v.elem)) == 1 {
			return u.rstr(s, u.rowOf(s, v), v.off, v.len)
		}
		return Fresh("str", SInt, nil)
	}
	return u.bstr(s, u.rowOf(s, v), v.off, v.len)
}

// rstr is the string of the n runes of row from off (invalid ones replaced).
func (u *Unit) rstr(s *State, row, off, n *Term) *Term {
	r := App("rstr", SInt, row, off, n)
	u.fact(s, Eq(u.nrunes(s, r), n))
	if u.eng.specs.recs["rpos"] != nil {
		j := BoundVar("j")
		at := App("runeat", SInt, r, u.recTerm(s, "rpos", TV{r, types.Typ[types.String]}, ti(j)))
		v := Select(row, Add(off, j))
		scalar := Or(And(Le(Num(0), v), Lt(v, Num(0xd800))), And(Le(Num(0xe000), v), Le(v, Num(0x10ffff))))
		u.runeAt(r, n)
		u.fact(s, Forall([]*Term{j}, Imp(And(Le(Num(0), j), Lt(j, n)), Eq(at, Ite(scalar, v, Num(0xfffd)))), []*Term{at}))
	}
	return r
}

// bstr is the string of the n bytes of row from off.
func (u *Unit) bstr(s *State, row, off, n *Term) *Term {
	r := App("bstr", SInt, row, off, n)
	appRange["strat"] = &SymMeta{lo: zeroB, hi: big64(255)}
	u.fact(s, Eq(App("strlen", SInt, r), n))
	j := BoundVar("j")
	at := App("strat", SInt, r, j)
	u.fact(s, Forall([]*Term{j}, Imp(And(Le(Num(0), j), Lt(j, n)), Eq(at, Select(row, Add(off, j)))), []*Term{at}))
	return r
}

func (u *Unit) strToSlice(s *State, t *Term, et types.Type) Val {
	if k, ok := t.i64(); ok {
		if l, ok := u.eng.strNames[k]; ok && typeKey(et.Underlying()) == "uint8" || ok && typeKey(et.Underlying()) == "byte" {
			u.objCnt++
			o := &ConcObj{elem: et}
			for i := 0; i < len(l); i++ {
				o.elems = append(o.elems, Num(int64(l[i])))
			}
			s.objs[u.objCnt] = o
			return &SliceV{elem: et, obj: u.objCnt, ref: Num(0), off: Num(0), len: Num(int64(len(l))), cap: Num(int64(len(l)))}
		}
	}
	n := u.strLen(t)
	if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() != types.Uint8 {
		// the runes of the string in order
		n = u.nrunes(s, t)
		sl := u.newSliceRaw(s, et, n, n)
		ls := scalarLeaves(et)
		key := u.elemKey(et)
		c := u.getComp(s, key, ls[0], true)
		u.runeAt(t, n)
		row := App("srunes", SArr, t)
		if u.eng.specs.recs["rpos"] != nil {
			rpos := func(k *Term) *Term { return u.recTerm(s, "rpos", TV{t, types.Typ[types.String]}, ti(k)) }
			j := BoundVar("j")
			u.fact(s, Forall([]*Term{j}, Imp(And(Le(Num(0), j), Lt(j, n)), And(Eq(Select(row, j), App("runeat", SInt, t, rpos(j))), Le(Num(0), rpos(j)), Lt(rpos(j), u.strLen(t)), Le(Num(0), Select(row, j)), Le(Select(row, j), Num(0x10ffff)), Or(Lt(Select(row, j), Num(0xd800)), Le(Num(0xe000), Select(row, j))))), []*Term{Select(row, j)}))
		}
		u.logStore(s, key, sl.ref, nil)
		s.heap[key] = Store(c, sl.ref, row)
		return sl
	}
	sl := u.newSliceRaw(s, et, n, n)
	if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		ls := scalarLeaves(et)
		key := u.elemKey(et)
		c := u.getComp(s, key, ls[0], true)
		row := Fresh("strbytes", SArr, &SymMeta{lo: zeroB, hi: big64(255)})
		j := BoundVar("j")
		appRange["strat"] = &SymMeta{lo: zeroB, hi: big64(255)}
		u.fact(s, Forall([]*Term{j}, Imp(And(Le(Num(0), j), Lt(j, n)), Eq(Select(row, j), App("strat", SInt, t, j))), []*Term{Select(row, j)}))
		u.logStore(s, key, sl.ref, nil)
		s.heap[key] = Store(c, sl.ref, row)
	}
	return sl
}

// elemLeaves enumerates (key suffix, leaf) of a slice element type.
func (u *Unit) elemLeaves(et types.Type) []struct {
	key string
	l   leaf
} {
	var out []struct {
		key string
		l   leaf
	}
	var rec func(k string, t types.Type)
	rec = func(k string, t types.Type) {
		if ls, ok := opaqueLeaves(t); ok {
			for _, l := range ls {
				out = append(out, struct {
					key string
					l   leaf
				}{k + ".", l})
			}
			return
		}
		if st, ok := isStruct(t); ok {
			for i := 0; i < st.NumFields(); i++ {
				rec(k+"."+st.Field(i).Name(), st.Field(i).Type())
			}
			return
		}
		for _, l := range scalarLeaves(t) {
			out = append(out, struct {
				key string
				l   leaf
			}{k, l})
		}
	}
	rec(u.elemKey(et), et)
	return out
}

func (u *Unit) newSliceRaw(s *State, et types.Type, n, c *Term) *SliceV {
	r := u.newRef(s)
	return &SliceV{elem: et, ref: r, off: Num(0), len: n, cap: c}
}

func (u *Unit) newSlice(s *State, et types.Type, n, c *Term) *SliceV {
	v := u.newSliceRaw(s, et, n, c)
	for _, e := range u.elemLeaves(et) {
		k := e.key + e.l.name
		comp := u.getComp(s, k, e.l, true)
		u.logStore(s, k, v.ref, nil)
		var z *Term
		if e.l.sort == SBool {
			z = ConstArr(SArrB, tFalse)
		} else if isStr(e.l.typ) {
			z = ConstArr(SArr, u.eng.strLit(""))
		} else {
			z = ConstArr(SArr, Num(0))
		}
		s.heap[k] = Store(comp, v.ref, z)
		if comp.op == OConstArr && s.heap[k].args[2] == comp.args[0] {
			s.heap[k] = comp
		}
	}
	return v
}

func isStr(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (u *Unit) sliceOp(fr *frame, s *State, x *ssa.Slice) Val {
	var lo, hi *Term
	if x.Low != nil {
		lo = u.val(fr, s, x.Low).(*Term)
	} else {
		lo = Num(0)
	}
	if x.High != nil {
		hi = u.val(fr, s, x.High).(*Term)
	}
	switch b := u.val(fr, s, x.X).(type) {
	case *PtrV:
		if b.obj > 0 {
			o := s.objs[b.obj]
			n := int64(len(o.elems))
			if hi == nil {
				hi = Num(n)
			}
			l, ok1 := lo.i64()
			h, ok2 := hi.i64()
			if !ok1 || !ok2 || l < 0 || h < l || h > n {
				unsup("symbolic slicing of a local array")
			}
			return &SliceV{elem: o.elem, obj: b.obj, ref: Num(0), off: lo, len: Num(h - l), cap: Num(n - l)}
		}
		unsup("slice of heap array")
	case *SliceV:
		if hi == nil {
			hi = b.len
		}
		max := b.cap
		if x.Max != nil {
			max = u.val(fr, s, x.Max).(*Term)
		}
		g := And(Le(Num(0), lo), Le(lo, hi), Le(hi, max), Le(max, b.cap))
		u.oblige(s, "slice", "slice bounds in range: "+srcName(x.X), x.Pos(), g, "C01")
		return &SliceV{elem: b.elem, obj: b.obj, ref: b.ref, off: Add(b.off, lo), len: Sub(hi, lo), cap: Sub(max, lo)}
	case *Term: // string
		n := u.strLen(b)
		if hi == nil {
			hi = n
		}
		if lo.isNum() && lo.n.Sign() == 0 && hi == n {
			return b
		}
		u.oblige(s, "slice", "string slice bounds", x.Pos(), And(Le(Num(0), lo), Le(lo, hi), Le(hi, n)), "C01")
		r := App("substr", SInt, b, lo, hi)
		u.fact(s, Eq(App("strlen", SInt, r), Sub(hi, lo)))
		return r
	}
	unsup("slice op")
	return nil
}

// ---------- maps ----------

func (u *Unit) keyTerm(s *State, v Val) *Term {
	t, ok := v.(*Term)
	if !ok {
		unsup("map key %T", v)
	}
	return t
}

func mapKey(mt *types.Map) string { return "map[" + typeKey(mt.Key()) + "]" + typeKey(mt.Elem()) }

func (u *Unit) mapDom(s *State, mt *types.Map) *Term {
	return u.getComp(s, mapKey(mt)+".dom", leaf{sort: SBool}, true)
}
func (u *Unit) mapCard(s *State, mt *types.Map) *Term {
	return u.getComp(s, mapKey(mt)+".card", leaf{sort: SInt, lo: zeroB, hi: maxLen}, false)
}

func (u *Unit) mapValLeaves(mt *types.Map) []struct {
	key string
	l   leaf
} {
	var out []struct {
		key string
		l   leaf
	}
	if st, ok := isStruct(mt.Elem()); ok {
		if st.NumFields() == 0 {
			return nil
		}
		unsup("map of structs")
	}
	for _, l := range scalarLeaves(mt.Elem()) {
		out = append(out, struct {
			key string
			l   leaf
		}{mapKey(mt) + ".val", l})
	}
	return out
}

func (u *Unit) newMap(s *State, mt *types.Map) *Term {
	r := u.newRef(s)
	d := u.mapDom(s, mt)
	u.logStore(s, mapKey(mt)+".dom", r, nil)
	s.heap[mapKey(mt)+".dom"] = Store(d, r, ConstArr(SArrB, tFalse))
	c := u.mapCard(s, mt)
	u.logStore(s, mapKey(mt)+".card", r, nil)
	s.heap[mapKey(mt)+".card"] = Store(c, r, Num(0))
	return r
}

func (u *Unit) mapHas(s *State, mt *types.Map, m, k *Term) *Term {
	return And(Ne(m, Num(0)), Select(Select(u.mapDom(s, mt), m), k))
}

func (u *Unit) mapGet(s *State, mt *types.Map, m, k *Term) Val {
	var ts []*Term
	for _, e := range u.mapValLeaves(mt) {
		c := u.getComp(s, e.key+e.l.name, e.l, true)
		ts = append(ts, Select(Select(c, m), k))
	}
	if len(ts) == 0 {
		return u.zero(s, mt.Elem())
	}
	return u.fromLeaves(s, mt.Elem(), ts)
}

func (u *Unit) mapStore(s *State, mt *types.Map, m, k *Term, v Val) {
	dk := mapKey(mt) + ".dom"
	d := u.mapDom(s, mt)
	had := Select(Select(d, m), k)
	u.logStore(s, dk, m, nil)
	s.heap[dk] = Store(d, m, Store(Select(d, m), k, tTrue))
	ck := mapKey(mt) + ".card"
	c := u.mapCard(s, mt)
	u.logStore(s, ck, m, nil)
	s.heap[ck] = Store(c, m, Add(Select(c, m), Ite(had, Num(0), Num(1))))
	ls := u.mapValLeaves(mt)
	if len(ls) == 0 {
		return
	}
	ts := u.toLeaves(s, mt.Elem(), v)
	for i, e := range ls {
		key := e.key + e.l.name
		cc := u.getComp(s, key, e.l, true)
		u.logStore(s, key, m, nil)
		s.heap[key] = Store(cc, m, Store(Select(cc, m), k, ts[i]))
	}
}

func (u *Unit) lookup(fr *frame, s *State, x *ssa.Lookup) []*State {
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		t := u.val(fr, s, x.X).(*Term)
		i := u.val(fr, s, x.Index).(*Term)
		u.oblige(s, "index", "string index in range", x.Pos(), And(Le(Num(0), i), Lt(i, u.strLen(t))), "C01")
		s.env[x] = u.strAt(t, i)
		return []*State{s}
	}
	m := u.val(fr, s, x.X).(*Term)
	k := u.keyTerm(s, u.val(fr, s, x.Index))
	has := s.simp(u.mapHas(s, mt, m, k))
	got := u.mapGet(s, mt, m, k)
	z := u.zero(s, mt.Elem())
	v, ok2 := u.mergeVal(has, got, z)
	if !ok2 {
		unsup("map value merge")
	}
	if x.CommaOk {
		s.env[x] = TupleV{v, has}
	} else {
		s.env[x] = v
	}
	return []*State{s}
}

func (u *Unit) next(fr *frame, s *State, x *ssa.Next) []*State {
	r := u.val(fr, s, x.Iter).(*RangeV)
	if r.isStr {
		// element 0 of the cursor array is the byte position of the next rune
		vk := fmt.Sprintf("$visited%ds", r.id)
		cur := s.heap[vk]
		p := Select(cur, Num(0))
		ok := s.simp(Lt(p, u.strLen(r.m)))
		ru, sz := u.runeAt(r.m, p)
		u.fact(s, Imp(ok, Le(Add(p, sz), u.strLen(r.m))))
		u.fact(s, Le(Num(0), p))
		// element 1 counts the runes before it
		cnt := Select(cur, Num(1))
		u.nrunes(s, r.m)
		u.fact(s, And(Le(Num(0), cnt), Imp(ok, Lt(cnt, App("nrunes", SInt, r.m))), Imp(Not(ok), Eq(cnt, App("nrunes", SInt, r.m)))))
		if u.eng.specs.recs["rpos"] != nil {
			u.fact(s, Eq(p, u.recTerm(s, "rpos", TV{r.m, types.Typ[types.String]}, ti(cnt))))
		}
		u.logStore(s, vk, Num(0), nil)
		s.heap[vk] = Ite(ok, Store(Store(cur, Num(0), Add(p, sz)), Num(1), AddI(cnt, 1)), cur)
		s.env[x] = TupleV{ok, p, ru}
		return []*State{s}
	}
	vk := fmt.Sprintf("$visited%d", r.id)
	vis := s.heap[vk]
	ok := Fresh("next", SBool, nil)
	lo, hi := (*big.Int)(nil), (*big.Int)(nil)
	if b, isb := r.mt.Key().Underlying().(*types.Basic); isb {
		lo, hi, _, _, _ = intRange(b)
	}
	k := Fresh("key", SInt, &SymMeta{lo: lo, hi: hi})
	dom := Select(u.mapDom(s, r.mt), r.m)
	u.fact(s, Imp(ok, And(Ne(r.m, Num(0)), Select(dom, k), Not(Select(vis, k)))))
	j := BoundVar("k")
	u.fact(s, Imp(And(Not(ok), Ne(r.m, Num(0))), Forall([]*Term{j}, Imp(Select(dom, j), Select(vis, j)), []*Term{Select(dom, j)})))
	v := u.mapGet(s, r.mt, r.m, k)
	u.logStore(s, vk, Num(0), nil)
	s.heap[vk] = Ite(ok, Store(vis, k, tTrue), vis)
	s.env[x] = TupleV{ok, k, v}
	return []*State{s}
}

func (u *Unit) typeAssert(fr *frame, s *State, x *ssa.TypeAssert) []*State {
	v := u.val(fr, s, x.X).(*IfaceV)
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	var ok *Term
	var res Val
	if v.typ != nil {
		if toIface {
			it := x.AssertedType.Underlying().(*types.Interface)
			ok = Bool(types.Implements(v.typ, it))
			res = v
		} else {
			ok = Bool(types.Identical(v.typ, x.AssertedType))
			if ok == tTrue {
				res = v.val
			}
		}
	} else {
		if toIface {
			unsup("type assert symbolic interface to interface")
		}
		ok = s.simp(Eq(v.tag, Num(u.eng.typeID(x.AssertedType))))
		if ok != tFalse {
			if _, st := isStruct(x.AssertedType); st {
				p := &PtrV{root: x.AssertedType, ref: v.ref, oidx: -1}
				res = u.load(s, p)
			} else if pt, isp := x.AssertedType.Underlying().(*types.Pointer); isp {
				res = &PtrV{root: pt.Elem(), ref: v.ref, oidx: -1}
			} else {
				res = v.ref
			}
		}
	}
	if !x.CommaOk {
		u.oblige(s, "typeassert", "type assertion to "+typeKey(x.AssertedType), x.Pos(), ok, "C01")
		if res == nil {
			return nil
		}
		s.assume(ok)
		s.env[x] = res
		return []*State{s}
	}
	// split on ok so that the value is usable
	if ok == tTrue {
		s.env[x] = TupleV{res, tTrue}
		return []*State{s}
	}
	z := u.zeroOrNil(s, x.AssertedType)
	if ok == tFalse {
		s.env[x] = TupleV{z, tFalse}
		return []*State{s}
	}
	t := s.clone()
	var out []*State
	if t.assume(ok) {
		t.env[x] = TupleV{res, tTrue}
		out = append(out, t)
	}
	if s.assume(Not(ok)) {
		s.env[x] = TupleV{z, tFalse}
		out = append(out, s)
	}
	return out
}

func (u *Unit) zeroOrNil(s *State, t types.Type) Val {
	if _, ok := t.Underlying().(*types.Interface); ok && !isErrorType(t) {
		return &IfaceV{tag: Num(0), ref: Num(0)}
	}
	return u.zero(s, t)
}
