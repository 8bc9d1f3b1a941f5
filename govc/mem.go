package main

// Values, heap components, states.

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type SliceV struct {
	elem               types.Type
	ref, off, len, cap *Term
	obj                int // >0: slice over a concrete object (off/len constant)
	wholeStr           *Term
}

type StructV struct {
	t types.Type
	f []Val
}

type TupleV []Val

type PtrV struct {
	root types.Type // type of the heap object (or of the slice element if idx != nil)
	ref  *Term
	idx  *Term
	path []int
	obj  int // concrete object
	oidx int // element of the concrete object or -1 for the whole
}

type IfaceV struct {
	typ      types.Type // known dynamic type, nil if symbolic
	val      Val
	tag, ref *Term
}

type FuncV struct {
	fn    *ssa.Function
	binds []Val
}

// RangeV is the iterator of a map range.
type RangeV struct {
	m     *Term
	mt    *types.Map
	id    int
	isStr bool
}

type ConcObj struct {
	elem  types.Type
	elems []Val
	whole *Term // for [4]uint8: the big-endian value, if still valid
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// ---------- types ----------

func typeKey(t types.Type) string {
	if k, ok := typeKeys.Load(t); ok {
		return k.(string)
	}
	k := types.TypeString(t, func(p *types.Package) string {
		if p.Name() == "unitype" {
			return ""
		}
		return p.Name()
	})
	// byte and rune are the same types as uint8 and int32
	k = reByte.ReplaceAllString(k, "uint8")
	k = reRune.ReplaceAllString(k, "int32")
	typeKeys.Store(t, k)
	return k
}

var typeKeys sync.Map
var reByte = regexp.MustCompile(`\bbyte\b`)
var reRune = regexp.MustCompile(`\brune\b`)

type leaf struct {
	name string // suffix, e.g. "" or "#len"
	sort Sort
	lo   *big.Int
	hi   *big.Int
	ref  bool
	typ  types.Type
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func namedIs(t types.Type, s string) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	if o.Pkg() == nil {
		return o.Name() == s
	}
	return o.Pkg().Path()+"."+o.Name() == s
}

func isByteArr4(t types.Type) bool {
	a, ok := t.Underlying().(*types.Array)
	if !ok || a.Len() != 4 {
		return false
	}
	b, ok := a.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func intRange(b *types.Basic) (lo, hi *big.Int, bits uint, signed bool, ok bool) {
	switch b.Kind() {
	case types.Int8:
		bits, signed = 8, true
	case types.Int16:
		bits, signed = 16, true
	case types.Int32:
		bits, signed = 32, true
	case types.UntypedRune:
		bits, signed = 32, true
	case types.Int, types.Int64, types.UntypedInt:
		bits, signed = 64, true
	case types.Uint8:
		bits = 8
	case types.Uint16:
		bits = 16
	case types.Uint32:
		bits = 32
	case types.Uint, types.Uint64, types.Uintptr:
		bits = 64
	default:
		return nil, nil, 0, false, false
	}
	if signed {
		hi = new(big.Int).Sub(pow2(bits-1), one)
		lo = new(big.Int).Neg(pow2(bits - 1))
	} else {
		lo = new(big.Int)
		hi = new(big.Int).Sub(pow2(bits), one)
	}
	return lo, hi, bits, signed, true
}

var zeroB = new(big.Int)
var maxLen = pow2(62)

var opaqueStructs = map[string][]leaf{
	"bytes.Buffer": {{name: "$arr", sort: SArr, lo: zeroB, hi: big64(255)}, {name: "$len", sort: SInt, lo: zeroB, hi: maxLen}},
	"bufio.Reader": {{name: "$rs", sort: SInt}, {name: "$pos", sort: SInt, lo: zeroB}, {name: "$gen", sort: SInt}},
	"os.File":      {{name: "$x", sort: SInt}},
	"bytes.Reader": {{name: "$x", sort: SInt}},
}

func opaqueLeaves(t types.Type) ([]leaf, bool) {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil, false
	}
	k := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	if l, ok := opaqueStructs[k]; ok {
		return l, true
	}
	if _, st := n.Underlying().(*types.Struct); st && n.Obj().Pkg().Name() != "unitype" && n.Obj().Pkg().Name() != "strutils" {
		return []leaf{{name: "$x", sort: SInt}}, true
	}
	return nil, false
}

// leafKind gives the leaves of a non-struct type.
func scalarLeaves(t types.Type) []leaf {
	if isErrorType(t) {
		return []leaf{{sort: SInt, lo: zeroB, typ: t}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return []leaf{{sort: SBool, typ: t}}
		}
		if lo, hi, _, _, ok := intRange(u); ok {
			return []leaf{{sort: SInt, lo: lo, hi: hi, typ: t}}
		}
		return []leaf{{sort: SInt, typ: t}} // float, string
	case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
		return []leaf{{sort: SInt, ref: true, typ: t}}
	case *types.Slice:
		return []leaf{{name: "#ref", sort: SInt, ref: true, typ: t}, {name: "#off", sort: SInt, lo: zeroB, hi: maxLen}, {name: "#len", sort: SInt, lo: zeroB, hi: maxLen}, {name: "#cap", sort: SInt, lo: zeroB, hi: maxLen}}
	case *types.Interface:
		return []leaf{{name: "#tag", sort: SInt, lo: zeroB}, {name: "#ref", sort: SInt, ref: true}}
	case *types.Array:
		if isByteArr4(t) {
			return []leaf{{sort: SInt, lo: zeroB, hi: new(big.Int).Sub(pow2(32), one), typ: t}}
		}
	}
	unsup("no heap representation for type %s", t)
	return nil
}

func isStruct(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

// ---------- states ----------

type State struct {
	guard []*Term
	gset  map[*Term]bool
	heap  map[string]*Term
	mark  *Term
	objs  map[int]*ConcObj
	env   map[ssa.Value]Val
	pred  *ssa.BasicBlock
	iter  *Term
}

func (s *State) clone() *State {
	n := &State{mark: s.mark, pred: s.pred}
	n.guard = s.guard[:len(s.guard):len(s.guard)]
	n.gset = make(map[*Term]bool, len(s.gset))
	for k := range s.gset {
		n.gset[k] = true
	}
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.objs = make(map[int]*ConcObj, len(s.objs))
	for k, v := range s.objs {
		n.objs[k] = v
	}
	n.env = make(map[ssa.Value]Val, len(s.env))
	for k, v := range s.env {
		n.env[k] = v
	}
	return n
}

// assume adds a literal to the guard; returns false if it is contradictory.
func (s *State) assume(c *Term) bool {
	c = s.simp(c)
	if c == tFalse {
		return false
	}
	if c == tTrue {
		return true
	}
	if c.op == OAnd {
		for _, a := range c.args {
			if !s.assume(a) {
				return false
			}
		}
		return true
	}
	s.guard = append(s.guard, c)
	s.gset[c] = true
	return true
}

// simp decides a condition from the guard's literals where that is syntactic.
func (s *State) simp(c *Term) *Term {
	if c == tTrue || c == tFalse {
		return c
	}
	if s.gset[c] {
		return tTrue
	}
	if s.gset[Not(c)] {
		return tFalse
	}
	switch c.op {
	case OAnd, OOr:
		var out []*Term
		ch := false
		for _, a := range c.args {
			b := s.simp(a)
			if b != a {
				ch = true
			}
			out = append(out, b)
		}
		if ch {
			if c.op == OAnd {
				return And(out...)
			}
			return Or(out...)
		}
	case OEq0:
		// linear equality with a known stronger/weaker bound is left to the solver
	}
	return c
}

// ---------- heap access ----------

func (u *Unit) compSym(key string, l leaf, rowSort Sort) *Term {
	if t, ok := u.initHeap[key]; ok {
		return t
	}
	m := &SymMeta{lo: l.lo, hi: l.hi}
	if l.ref {
		m.refUB = Num(0)
	}
	var t *Term
	if l.name == "#off" {
		c := Num(0)
		a := ConstArr(SArr, c)
		if rowSort == SArr2 {
			a = ConstArr(SArr2, a)
		}
		t = a
	} else {
		t = Sym("H:"+sanitize(key), rowSort, m)
	}
	u.initHeap[key] = t
	return t
}

func (u *Unit) getComp(s *State, key string, l leaf, two bool) *Term {
	if _, ok := u.eng.keyInfo[key]; !ok {
		u.eng.keyInfo[key] = keyInfo{l, two}
	}
	if t, ok := s.heap[key]; ok {
		return t
	}
	srt := arrOf(l.sort)
	if two {
		srt = arrOf(srt)
	}
	t := u.compSym(key, l, srt)
	return t
}

func (u *Unit) setComp(s *State, key string, v *Term) { s.heap[key] = v }

func ptrBase(p *PtrV) (string, types.Type) {
	t := p.root
	k := typeKey(t)
	if p.idx != nil {
		k = "[]" + k
	} else if _, ok := isStruct(t); !ok {
		k = "*" + k
	}
	for _, f := range p.path {
		st, _ := isStruct(t)
		k += "." + st.Field(f).Name()
		t = st.Field(f).Type()
	}
	return k, t
}

func (p *PtrV) pointee() types.Type {
	_, t := ptrBase(p)
	return t
}

func (p *PtrV) field(i int) *PtrV {
	q := *p
	q.path = append(append([]int{}, p.path...), i)
	return &q
}

func (u *Unit) loadLeaf(s *State, p *PtrV, key string, l leaf) *Term {
	c := u.getComp(s, key+l.name, l, p.idx != nil)
	if p.idx != nil {
		return Select(Select(c, p.ref), p.idx)
	}
	return Select(c, p.ref)
}

func (u *Unit) storeLeaf(s *State, p *PtrV, key string, l leaf, v *Term) {
	k := key + l.name
	c := u.getComp(s, k, l, p.idx != nil)
	u.logStore(s, k, p.ref, p.idx)
	if p.idx != nil {
		s.heap[k] = Store(c, p.ref, Store(Select(c, p.ref), p.idx, v))
	} else {
		s.heap[k] = Store(c, p.ref, v)
	}
	if c.op == OConstArr && s.heap[k].op == OStore {
		// storing the constant it already holds (slice offsets)
		if s.heap[k].args[2] == c.args[0] {
			s.heap[k] = c
		}
	}
}

// load reads a value of type t at p.
func (u *Unit) load(s *State, p *PtrV) Val {
	if p.obj > 0 {
		o := s.objs[p.obj]
		if p.oidx < 0 {
			if len(o.elems) == 4 && o.whole != nil {
				return o.whole
			}
			if len(o.elems) == 4 {
				return u.concWhole(o)
			}
			// arrays other than [4]uint8 as values
			return &SliceV{elem: o.elem, obj: p.obj, off: Num(0), len: Num(int64(len(o.elems))), cap: Num(int64(len(o.elems)))}
		}
		if p.oidx >= len(o.elems) && len(p.path) == 0 { // only a specification can get here: nothing is known
			return u.freshVal(s, o.elem, "beyond", s.mark)
		}
		v := o.elems[p.oidx]
		for _, f := range p.path {
			v = v.(*StructV).f[f]
		}
		return v
	}
	key, t := ptrBase(p)
	return u.loadT(s, p, key, t)
}

func (u *Unit) loadT(s *State, p *PtrV, key string, t types.Type) Val {
	if ls, ok := opaqueLeaves(t); ok {
		v := &StructV{t: t}
		for _, l := range ls {
			v.f = append(v.f, u.loadLeaf(s, p, key+".", l))
		}
		return v
	}
	if st, ok := isStruct(t); ok {
		v := &StructV{t: t}
		for i := 0; i < st.NumFields(); i++ {
			v.f = append(v.f, u.loadT(s, p, key+"."+st.Field(i).Name(), st.Field(i).Type()))
		}
		return v
	}
	ls := scalarLeaves(t)
	var ts []*Term
	for _, l := range ls {
		ts = append(ts, u.loadLeaf(s, p, key, l))
	}
	return u.fromLeaves(s, t, ts)
}

func (u *Unit) fromLeaves(s *State, t types.Type, ts []*Term) Val {
	if isErrorType(t) {
		return ts[0]
	}
	switch x := t.Underlying().(type) {
	case *types.Pointer:
		return &PtrV{root: x.Elem(), ref: ts[0], oidx: -1}
	case *types.Slice:
		v := &SliceV{elem: x.Elem(), ref: ts[0], off: ts[1], len: ts[2], cap: ts[3]}
		u.sliceFacts(s, v)
		return v
	case *types.Interface:
		return &IfaceV{tag: ts[0], ref: ts[1]}
	}
	return ts[0]
}

// sliceFacts records the representation invariant of a slice value.
func (u *Unit) sliceFacts(s *State, v *SliceV) {
	if v.len.bound || v.ref.bound || v.cap.bound || v.off.bound {
		return
	}
	if v.len == v.cap && v.ref.isNum() {
		return
	}
	u.fact(s, Le(v.len, v.cap))
	u.fact(s, Imp(Eq(v.ref, Num(0)), Eq(v.cap, Num(0))))
}

func (u *Unit) store(s *State, p *PtrV, v Val) {
	if p.obj > 0 {
		o := s.objs[p.obj]
		n := &ConcObj{elem: o.elem, elems: append([]Val{}, o.elems...), whole: nil}
		if p.oidx < 0 {
			switch x := v.(type) {
			case *Term:
				n.whole = x
				for i := range n.elems {
					n.elems[i] = byteOf(x, 3-i)
				}
			case *SliceV:
				n.elems = append([]Val{}, s.objs[x.obj].elems...)
			default:
				unsup("store of %T into array", v)
			}
		} else if len(p.path) == 0 {
			n.elems[p.oidx] = v
		} else {
			n.elems[p.oidx] = setPath(n.elems[p.oidx], p.path, v)
		}
		s.objs[p.obj] = n
		return
	}
	key, t := ptrBase(p)
	u.storeT(s, p, key, t, v)
}

func setPath(v Val, path []int, x Val) Val {
	if len(path) == 0 {
		return x
	}
	o := v.(*StructV)
	n := &StructV{t: o.t, f: append([]Val{}, o.f...)}
	n.f[path[0]] = setPath(o.f[path[0]], path[1:], x)
	return n
}

func (u *Unit) storeT(s *State, p *PtrV, key string, t types.Type, v Val) {
	if ls, ok := opaqueLeaves(t); ok {
		sv := v.(*StructV)
		for i, l := range ls {
			u.storeLeaf(s, p, key+".", l, sv.f[i].(*Term))
		}
		return
	}
	if st, ok := isStruct(t); ok {
		sv, ok := v.(*StructV)
		if !ok {
			unsup("store of %T as struct %s", v, t)
		}
		for i := 0; i < st.NumFields(); i++ {
			u.storeT(s, p, key+"."+st.Field(i).Name(), st.Field(i).Type(), sv.f[i])
		}
		return
	}
	ls := scalarLeaves(t)
	ts := u.toLeaves(s, t, v)
	for i, l := range ls {
		u.storeLeaf(s, p, key, l, ts[i])
	}
}

// toLeaves flattens a non-struct value.
func (u *Unit) toLeaves(s *State, t types.Type, v Val) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *PtrV:
		return []*Term{u.ptrRef(x)}
	case *SliceV:
		if x.obj > 0 {
			unsup("concrete slice escapes to the heap")
		}
		return []*Term{x.ref, x.off, x.len, x.cap}
	case *IfaceV:
		tg, rf := u.ifaceTerms(s, x)
		return []*Term{tg, rf}
	case *FuncV:
		return []*Term{Num(-1)}
	}
	unsup("toLeaves %T", v)
	return nil
}

func (u *Unit) ptrRef(p *PtrV) *Term {
	if p.obj > 0 || p.idx != nil || len(p.path) > 0 {
		unsup("interior pointer (%s) escapes to the heap", typeKey(p.root))
	}
	return p.ref
}

func (e *Engine) typeID(t types.Type) int64 {
	k := typeKey(t)
	if id, ok := e.typeIDs[k]; ok {
		return id
	}
	id := int64(len(e.typeIDs) + 1)
	e.typeIDs[k] = id
	e.typeByID[id] = t
	return id
}

func (u *Unit) ifaceTerms(s *State, v *IfaceV) (*Term, *Term) {
	if v.typ == nil {
		return v.tag, v.ref
	}
	tg := Num(u.eng.typeID(v.typ))
	if _, ok := isStruct(v.typ); ok {
		// box
		p := u.alloc(s, v.typ)
		u.store(s, p, v.val)
		return tg, p.ref
	}
	switch x := v.val.(type) {
	case *PtrV:
		return tg, u.ptrRef(x)
	case *Term:
		return tg, x
	}
	unsup("interface holding %T escapes", v.val)
	return nil, nil
}

// alloc allocates a zeroed object of type t.
func (u *Unit) alloc(s *State, t types.Type) *PtrV {
	s.mark = AddI(s.mark, 1)
	p := &PtrV{root: t, ref: s.mark, oidx: -1}
	key, _ := ptrBase(p)
	u.logAlloc(s, t)
	u.storeT(s, p, key, t, u.zero(s, t))
	return p
}

func (u *Unit) newRef(s *State) *Term {
	s.mark = AddI(s.mark, 1)
	return s.mark
}

func (u *Unit) zero(s *State, t types.Type) Val {
	if ls, ok := opaqueLeaves(t); ok {
		v := &StructV{t: t}
		for _, l := range ls {
			if l.sort == SArr {
				v.f = append(v.f, ConstArr(SArr, Num(0)))
			} else {
				v.f = append(v.f, Num(0))
			}
		}
		return v
	}
	if st, ok := isStruct(t); ok {
		v := &StructV{t: t}
		for i := 0; i < st.NumFields(); i++ {
			v.f = append(v.f, u.zero(s, st.Field(i).Type()))
		}
		return v
	}
	if isErrorType(t) {
		return Num(0)
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		if x.Info()&types.IsBoolean != 0 {
			return tFalse
		}
		if x.Info()&types.IsString != 0 {
			return u.eng.strLit("")
		}
		return Num(0)
	case *types.Pointer:
		return &PtrV{root: x.Elem(), ref: Num(0), oidx: -1}
	case *types.Slice:
		return &SliceV{elem: x.Elem(), ref: Num(0), off: Num(0), len: Num(0), cap: Num(0)}
	case *types.Interface:
		return &IfaceV{tag: Num(0), ref: Num(0)}
	case *types.Map, *types.Signature, *types.Chan:
		return Num(0)
	case *types.Array:
		if isByteArr4(t) {
			return Num(0)
		}
	}
	unsup("zero of %s", t)
	return nil
}

// freshVal makes an unconstrained value of type t (refs bounded by ub).
func (u *Unit) freshVal(s *State, t types.Type, name string, ub *Term) Val {
	if ls, ok := opaqueLeaves(t); ok {
		v := &StructV{t: t}
		for _, l := range ls {
			v.f = append(v.f, Fresh(name+l.name, l.sort, &SymMeta{lo: l.lo, hi: l.hi}))
		}
		return v
	}
	if st, ok := isStruct(t); ok {
		v := &StructV{t: t}
		for i := 0; i < st.NumFields(); i++ {
			v.f = append(v.f, u.freshVal(s, st.Field(i).Type(), name+"."+st.Field(i).Name(), ub))
		}
		return v
	}
	if tp, ok := t.(*types.Tuple); ok {
		var tv TupleV
		for i := 0; i < tp.Len(); i++ {
			tv = append(tv, u.freshVal(s, tp.At(i).Type(), fmt.Sprintf("%s_%d", name, i), ub))
		}
		return tv
	}
	ls := scalarLeaves(t)
	var ts []*Term
	for _, l := range ls {
		m := &SymMeta{lo: l.lo, hi: l.hi}
		if l.ref {
			m.refUB = ub
		}
		if l.name == "#off" {
			ts = append(ts, Num(0))
			continue
		}
		ts = append(ts, Fresh(name+l.name, l.sort, m))
	}
	return u.fromLeaves(s, t, ts)
}

func byteOf(x *Term, k int) *Term { // k-th byte, 0 = least significant
	return Mod(Div(x, pow2(uint(8*k))), big64(256))
}

func (u *Unit) concWhole(o *ConcObj) *Term {
	var ts []*Term
	for i, e := range o.elems {
		ts = append(ts, MulC(e.(*Term), pow2(uint(8*(3-i)))))
	}
	return Add(ts...)
}

// ---------- merging ----------

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && x.ref == y.ref && x.off == y.off && x.len == y.len && x.cap == y.cap && x.obj == y.obj
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !sameVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok || x.ref != y.ref || x.idx != y.idx || x.obj != y.obj || x.oidx != y.oidx || len(x.path) != len(y.path) {
			return false
		}
		for i := range x.path {
			if x.path[i] != y.path[i] {
				return false
			}
		}
		return true
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			return false
		}
		if x.typ == nil && y.typ == nil {
			return x.tag == y.tag && x.ref == y.ref
		}
		return x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) && sameVal(x.val, y.val)
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.fn != y.fn || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !sameVal(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	case *RangeV:
		y, ok := b.(*RangeV)
		return ok && x.id == y.id
	case nil:
		return b == nil
	}
	return false
}

// mergeVal: value equal to a when c, else b. ok=false when they cannot be represented together.
func (u *Unit) mergeVal(c *Term, a, b Val) (Val, bool) {
	if sameVal(a, b) {
		return a, true
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.sort != y.sort {
			return nil, false
		}
		return Ite(c, x, y), true
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok || x.obj != y.obj || x.obj > 0 {
			return nil, false
		}
		return &SliceV{elem: x.elem, ref: Ite(c, x.ref, y.ref), off: Ite(c, x.off, y.off), len: Ite(c, x.len, y.len), cap: Ite(c, x.cap, y.cap)}, true
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return nil, false
		}
		n := &StructV{t: x.t}
		for i := range x.f {
			v, ok := u.mergeVal(c, x.f[i], y.f[i])
			if !ok {
				return nil, false
			}
			n.f = append(n.f, v)
		}
		return n, true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		var n TupleV
		for i := range x {
			v, ok := u.mergeVal(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			n = append(n, v)
		}
		return n, true
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok || x.obj > 0 || y.obj > 0 || len(x.path) != len(y.path) || (x.idx == nil) != (y.idx == nil) || !types.Identical(x.root, y.root) {
			return nil, false
		}
		for i := range x.path {
			if x.path[i] != y.path[i] {
				return nil, false
			}
		}
		n := *x
		n.ref = Ite(c, x.ref, y.ref)
		if x.idx != nil {
			n.idx = Ite(c, x.idx, y.idx)
		}
		return &n, true
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			return nil, false
		}
		if x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) {
			v, ok := u.mergeVal(c, x.val, y.val)
			if !ok {
				return nil, false
			}
			return &IfaceV{typ: x.typ, val: v}, true
		}
		if x.typ == nil && y.typ == nil {
			return &IfaceV{tag: Ite(c, x.tag, y.tag), ref: Ite(c, x.ref, y.ref)}, true
		}
		return nil, false
	}
	return nil, false
}

func guardDiff(a, b *State) (common, ra, rb []*Term) {
	for _, l := range a.guard {
		if b.gset[l] {
			common = append(common, l)
		} else {
			ra = append(ra, l)
		}
	}
	for _, l := range b.guard {
		if !a.gset[l] {
			rb = append(rb, l)
		}
	}
	return
}

// mergeStates joins b into a; nil if not representable.
func (u *Unit) mergeStates(a, b *State) *State {
	common, ra, rb := guardDiff(a, b)
	if len(ra) == 0 {
		return nil
	}
	if len(rb) == 0 {
		return nil
	}
	c := And(ra...)
	for _, l := range ra {
		if b.gset[Not(l)] {
			c = l
			break
		}
	}
	n := &State{}
	n.guard = append([]*Term{}, common...)
	n.gset = map[*Term]bool{}
	for _, l := range common {
		n.gset[l] = true
	}
	disj := Or(And(ra...), And(rb...))
	if disj != tTrue {
		n.guard = append(n.guard, disj)
		n.gset[disj] = true
	}
	n.env = map[ssa.Value]Val{}
	for k, v := range a.env {
		w, ok := b.env[k]
		if !ok {
			continue
		}
		m, ok := u.mergeVal(c, v, w)
		if !ok {
			if !u.liveMatters(k) {
				continue
			}
			return nil
		}
		n.env[k] = m
	}
	n.objs = map[int]*ConcObj{}
	for k, v := range a.objs {
		w, ok := b.objs[k]
		if !ok {
			continue
		}
		if v == w {
			n.objs[k] = v
			continue
		}
		if len(v.elems) != len(w.elems) {
			return nil
		}
		o := &ConcObj{elem: v.elem}
		for i := range v.elems {
			m, ok := u.mergeVal(c, v.elems[i], w.elems[i])
			if !ok {
				return nil
			}
			o.elems = append(o.elems, m)
		}
		if v.whole != nil && w.whole != nil {
			o.whole = Ite(c, v.whole, w.whole)
		}
		n.objs[k] = o
	}
	n.heap = map[string]*Term{}
	keys := map[string]bool{}
	for k := range a.heap {
		keys[k] = true
	}
	for k := range b.heap {
		keys[k] = true
	}
	for k := range keys {
		x, ok1 := a.heap[k]
		y, ok2 := b.heap[k]
		if !ok1 {
			x = u.initHeap[k]
		}
		if !ok2 {
			y = u.initHeap[k]
		}
		if strings.HasPrefix(k, "$visited") && (x == nil || y == nil) {
			continue // an iteration that is over
		}
		if x == nil || y == nil {
			panic("merge: comp " + k)
		}
		n.heap[k] = u.mergeArr(c, x, y, a, b)
	}
	n.mark = u.mergeMark(a.mark, b.mark)
	return n
}

// mergeArr merges two heap arrays, keeping a shared base when one extends the other by stores.
// The states are given when the arrays are indexed by references.
func (u *Unit) mergeArr(c, x, y *Term, a, b *State) *Term {
	if x == y {
		return x
	}
	// x = store*(base), y = store*(base): rebuild as stores of ites over the common base
	xs := map[*Term]int{}
	n := 0
	for t := x; ; t = t.args[0] {
		xs[t] = n
		n++
		if t.op != OStore {
			break
		}
	}
	for t := y; ; t = t.args[0] {
		if _, ok := xs[t]; ok {
			base := t
			// collect written indices in order
			var idx []*Term
			seen := map[*Term]bool{}
			coll := func(z *Term) {
				var l []*Term
				for w := z; w != base; w = w.args[0] {
					l = append(l, w.args[1])
				}
				for i := len(l) - 1; i >= 0; i-- {
					if !seen[l[i]] {
						seen[l[i]] = true
						idx = append(idx, l[i])
					}
				}
			}
			coll(x)
			coll(y)
			if len(idx) > 40 {
				return Ite(c, x, y)
			}
			// indices must be pairwise distinct for reordering
			for i := range idx {
				for j := i + 1; j < len(idx); j++ {
					if Eq(idx[i], idx[j]) != tFalse {
						return Ite(c, x, y)
					}
				}
			}
			r := base
			for _, i := range idx {
				// an object allocated in only one branch needs no merging
				r = Store(r, i, u.mergeCell(c, Select(x, i), Select(y, i), i, a, b))
			}
			return r
		}
		if t.op != OStore {
			break
		}
	}
	return Ite(c, x, y)
}

func (u *Unit) mergeCell(c, x, y, i *Term, a, b *State) *Term {
	// If the reference was allocated only in one of the two branches, the other side's content is
	// irrelevant (no live reference to it can exist there).
	if a != nil {
		if refLe(AddI(a.mark, 1), i) {
			return y
		}
		if refLe(AddI(b.mark, 1), i) {
			return x
		}
	}
	if x.sort == SArr || x.sort == SArrB {
		return u.mergeArr(c, x, y, nil, nil) // its indices are no references
	}
	return Ite(c, x, y)
}

func (u *Unit) mergeMark(a, b *Term) *Term {
	if a == b {
		return a
	}
	d := Sub(a, b)
	if d.isNum() {
		if d.n.Sign() > 0 {
			return a
		}
		return b
	}
	if refLe(a, b) {
		return b
	}
	if refLe(b, a) {
		return a
	}
	return Fresh("mark", SInt, &SymMeta{refLBs: []*Term{a, b}, isMark: true})
}

func sortedKeys(m map[string]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func shortType(t types.Type) string {
	return strings.ReplaceAll(typeKey(t), "*", "p")
}
