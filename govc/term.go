package main

// Hash-consed first-order terms with a simplifying constructor layer.
//
// Sorts: Bool, Int, Arr (Int->Int), ArrB (Int->Bool), Arr2 (Int->Arr), Arr2B (Int->ArrB).
// Every rewrite below is an equivalence of the theory of integers and arrays, except where it
// uses symbol metadata (interval, reference bounds); that metadata is also what is emitted to the
// solver as axioms about the symbol, so the two agree.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort int

const (
	SBool Sort = iota
	SInt
	SArr
	SArrB
	SArr2
	SArr2B
)

func (s Sort) String() string {
	switch s {
	case SBool:
		return "Bool"
	case SInt:
		return "Int"
	case SArr:
		return "(Array Int Int)"
	case SArrB:
		return "(Array Int Bool)"
	case SArr2:
		return "(Array Int (Array Int Int))"
	case SArr2B:
		return "(Array Int (Array Int Bool))"
	}
	panic("sort")
}

func (s Sort) elem() Sort {
	switch s {
	case SArr:
		return SInt
	case SArrB:
		return SBool
	case SArr2:
		return SArr
	case SArr2B:
		return SArrB
	}
	panic("elem of " + s.String())
}

func arrOf(s Sort) Sort {
	switch s {
	case SInt:
		return SArr
	case SBool:
		return SArrB
	case SArr:
		return SArr2
	case SArrB:
		return SArr2B
	}
	panic("arrOf " + s.String())
}

type Op int

const (
	OConst Op = iota // integer constant
	OTrue
	OFalse
	OSym
	OAdd  // sum coefs[i]*args[i] + n
	OMul  // nonlinear product of two
	ODiv  // euclidean div by positive constant n
	OMod  // euclidean mod by positive constant n
	ODivT // div by term
	OModT
	OIte
	OEq0 // args[0] == 0 (linear)
	OLe0 // args[0] <= 0 (linear)
	OEqB // bool/array equality
	OAnd
	OOr
	ONot
	OSelect
	OStore
	OConstArr
	OCopy // args: base, dstOff, src, srcOff, n : base with [dstOff,dstOff+n) taken from src[srcOff..)
	OApp
	OForall
	OExists
)

type Term struct {
	id    int
	op    Op
	sort  Sort
	args  []*Term
	n     *big.Int
	coefs []*big.Int
	name  string
	pats  [][]*Term
	meta  *SymMeta
	// cached
	bdone  bool
	lo, hi *big.Int
	bound  bool // contains bound variables
	key    string
	qd     int // quantifier nesting depth
}

// SymMeta is what is known about a symbol by construction.
type SymMeta struct {
	lo, hi *big.Int // for Int symbols: range; for array symbols: range of every element (leaf)
	// refUB: for Int refs: value <= refUB; for arrays of refs: every element <= refUB.
	refUB *Term
	// refLBs: for allocation marks: value >= each of these.
	refLBs []*Term
	// frame: this array symbol agrees with base at r when r <= frameUB and r not in exc.
	frameBase *Term
	frameUB   *Term
	frameExc  []*Term
	isBound   bool
	axioms    []*Term // emitted whenever the symbol occurs
	isMark    bool
}

var termTab = map[string]*Term{}
var termCnt int

func mk(t *Term) *Term {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%d|", t.op, t.sort)
	if t.n != nil {
		b.WriteString(t.n.String())
	}
	b.WriteByte('|')
	b.WriteString(t.name)
	for i, a := range t.args {
		if t.coefs != nil {
			fmt.Fprintf(&b, ",%s*%d", t.coefs[i].String(), a.id)
		} else {
			fmt.Fprintf(&b, ",%d", a.id)
		}
	}
	if t.pats != nil {
		b.WriteByte('P')
		for _, p := range t.pats {
			b.WriteByte(';')
			for _, x := range p {
				fmt.Fprintf(&b, ",%d", x.id)
			}
		}
	}
	k := b.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	termCnt++
	t.id = termCnt
	t.key = k
	for _, a := range t.args {
		if a.bound {
			t.bound = true
		}
		if a.qd > t.qd {
			t.qd = a.qd
		}
	}
	if t.op == OForall || t.op == OExists {
		t.qd++
	}
	if t.op == OSym && t.meta != nil && t.meta.isBound {
		t.bound = true
	}
	termTab[k] = t
	return t
}

var (
	tTrue  = mk(&Term{op: OTrue, sort: SBool})
	tFalse = mk(&Term{op: OFalse, sort: SBool})
)

func big64(n int64) *big.Int { return big.NewInt(n) }

func Num(n int64) *Term     { return mk(&Term{op: OConst, sort: SInt, n: big64(n)}) }
func NumB(n *big.Int) *Term { return mk(&Term{op: OConst, sort: SInt, n: new(big.Int).Set(n)}) }
func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

var symCnt = map[string]int{}

// Sym makes (or finds) the symbol with this exact name.
func Sym(name string, s Sort, m *SymMeta) *Term {
	t := &Term{op: OSym, sort: s, name: name}
	if m == nil {
		m = &SymMeta{}
	}
	t.meta = m
	return mk(t)
}

// Fresh makes a new symbol.
func Fresh(base string, s Sort, m *SymMeta) *Term {
	base = sanitize(base)
	for {
		symCnt[base]++
		n := fmt.Sprintf("%s!%d", base, symCnt[base])
		if m == nil {
			m = &SymMeta{}
		}
		return Sym(n, s, m)
	}
}

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_', c == '.', c == '$', c == '!', c == '#', c == '@', c == '%', c == '~', c == '-', c == '+', c == '/', c == '<', c == '>', c == '=', c == '&', c == '^', c == '?', c == '*', c == ':':
			b.WriteRune(c)
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

func BoundVar(name string) *Term {
	symCnt["bv:"+name]++
	return Sym(fmt.Sprintf("%s?%d", sanitize(name), symCnt["bv:"+name]), SInt, &SymMeta{isBound: true})
}

func (t *Term) isNum() bool { return t.op == OConst }
func (t *Term) i64() (int64, bool) {
	if t.op == OConst && t.n.IsInt64() {
		return t.n.Int64(), true
	}
	return 0, false
}

// ---------- linear arithmetic ----------

type lin struct {
	c map[*Term]*big.Int
	k *big.Int
}

func newLin() *lin { return &lin{c: map[*Term]*big.Int{}, k: new(big.Int)} }

func (l *lin) add(t *Term, m *big.Int) {
	if m.Sign() == 0 {
		return
	}
	switch t.op {
	case OConst:
		l.k.Add(l.k, new(big.Int).Mul(m, t.n))
	case OAdd:
		for i, a := range t.args {
			l.add1(a, new(big.Int).Mul(m, t.coefs[i]))
		}
		l.k.Add(l.k, new(big.Int).Mul(m, t.n))
	default:
		l.add1(t, m)
	}
}

func (l *lin) add1(t *Term, m *big.Int) {
	if o, ok := l.c[t]; ok {
		s := new(big.Int).Add(o, m)
		if s.Sign() == 0 {
			delete(l.c, t)
		} else {
			l.c[t] = s
		}
	} else if m.Sign() != 0 {
		l.c[t] = new(big.Int).Set(m)
	}
}

func (l *lin) recombine() {
	// c*Mod(y,m) + (c*m)*Div(y,m)  ->  c*y
	for changed := true; changed; {
		changed = false
		for t, c := range l.c {
			if t.op != OMod {
				continue
			}
			y := t.args[0]
			d := Div(y, t.n)
			cm := new(big.Int).Mul(c, t.n)
			if d.op == OConst {
				continue
			}
			if d.op == OAdd {
				continue
			}
			if o, ok := l.c[d]; ok && o.Cmp(cm) == 0 {
				delete(l.c, t)
				delete(l.c, d)
				l.add(y, c)
				changed = true
				break
			}
			// c*Mod(y,m) + (c*m)*Mod(Div(y,m),m2)  ->  c*Mod(y,m*m2)
			for t2, o := range l.c {
				if t2.op == OMod && t2.args[0] == d && o.Cmp(cm) == 0 {
					delete(l.c, t)
					delete(l.c, t2)
					l.add(Mod(y, new(big.Int).Mul(t.n, t2.n)), c)
					changed = true
					break
				}
			}
			if changed {
				break
			}
		}
	}
}

func (l *lin) term() *Term {
	hasMod := false
	for t := range l.c {
		if t.op == OMod {
			hasMod = true
			break
		}
	}
	if hasMod && len(l.c) > 1 {
		l.recombine()
	}
	if len(l.c) == 0 {
		return NumB(l.k)
	}
	var ts []*Term
	for t := range l.c {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if len(ts) == 1 && l.k.Sign() == 0 && l.c[ts[0]].Cmp(big64(1)) == 0 {
		return ts[0]
	}
	cs := make([]*big.Int, len(ts))
	for i, t := range ts {
		cs[i] = l.c[t]
	}
	return mk(&Term{op: OAdd, sort: SInt, args: ts, coefs: cs, n: l.k})
}

func toLin(t *Term) *lin {
	l := newLin()
	l.add(t, big64(1))
	return l
}

var one = big64(1)
var mone = big64(-1)

func Add(ts ...*Term) *Term {
	l := newLin()
	for _, t := range ts {
		l.add(t, one)
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	if a == b {
		return Num(0)
	}
	l := newLin()
	l.add(a, one)
	l.add(b, mone)
	return l.term()
}
func MulC(a *Term, c *big.Int) *Term {
	l := newLin()
	l.add(a, c)
	return l.term()
}
func AddI(a *Term, k int64) *Term { return Add(a, Num(k)) }

func Mul(a, b *Term) *Term {
	if a.isNum() {
		return MulC(b, a.n)
	}
	if b.isNum() {
		return MulC(a, b.n)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{op: OMul, sort: SInt, args: []*Term{a, b}})
}

// Div is euclidean division by a positive constant (floor for positive divisors).
func Div(t *Term, m *big.Int) *Term {
	if m.Sign() <= 0 {
		panic("Div by nonpositive")
	}
	if m.Cmp(one) == 0 {
		return t
	}
	if t.isNum() {
		return NumB(floorDiv(t.n, m))
	}
	lo, hi := t.bounds()
	if lo != nil && hi != nil {
		a, b := floorDiv(lo, m), floorDiv(hi, m)
		if a.Cmp(b) == 0 {
			return NumB(a)
		}
	}
	if t.op == ODiv {
		return Div(t.args[0], new(big.Int).Mul(m, t.n))
	}
	if t.op == OIte && (t.args[1].isNum() || t.args[2].isNum()) {
		return Ite(t.args[0], Div(t.args[1], m), Div(t.args[2], m))
	}
	l := toLin(t)
	out := newLin()
	rem := newLin()
	for a, c := range l.c {
		q, r := new(big.Int).DivMod(c, m, new(big.Int))
		if r.Sign() == 0 {
			out.add1(a, q)
		} else {
			rem.add1(a, c)
		}
	}
	q, r := new(big.Int).DivMod(l.k, m, new(big.Int))
	out.k = q
	rem.k = r
	if len(out.c) == 0 && out.k.Sign() == 0 {
		return mk(&Term{op: ODiv, sort: SInt, args: []*Term{t}, n: new(big.Int).Set(m)})
	}
	rt := rem.term()
	out.add(Div(rt, m), one)
	return out.term()
}

func floorDiv(a, m *big.Int) *big.Int {
	q, _ := new(big.Int).DivMod(a, m, new(big.Int)) // euclid = floor for m>0
	return q
}

// Mod is the euclidean remainder by a positive constant.
func Mod(t *Term, m *big.Int) *Term {
	if m.Cmp(one) == 0 {
		return Num(0)
	}
	if t.isNum() {
		return NumB(new(big.Int).Mod(t.n, m))
	}
	lo, hi := t.bounds()
	if lo != nil && hi != nil {
		a, b := floorDiv(lo, m), floorDiv(hi, m)
		if a.Cmp(b) == 0 {
			return Sub(t, NumB(new(big.Int).Mul(a, m)))
		}
	}
	if t.op == OIte && (t.args[1].isNum() || t.args[2].isNum()) {
		return Ite(t.args[0], Mod(t.args[1], m), Mod(t.args[2], m))
	}
	l := toLin(t)
	out := newLin()
	changed := false
	for a, c := range l.c {
		r := new(big.Int).Mod(c, m)
		if r.Sign() == 0 {
			changed = true
			continue
		}
		// keep small negative coefficients as they are: prefer c if |c| < m
		cc := c
		if new(big.Int).Abs(c).Cmp(m) >= 0 {
			cc = r
			changed = true
		}
		if a.op == OMod {
			// c*Mod(x,m2) == c*x (mod m) when m | c*m2
			p := new(big.Int).Mul(cc, a.n)
			if new(big.Int).Mod(p, m).Sign() == 0 {
				out.add(a.args[0], cc)
				changed = true
				continue
			}
		}
		out.add1(a, cc)
	}
	k := new(big.Int).Set(l.k)
	if new(big.Int).Abs(k).Cmp(m) >= 0 {
		k.Mod(k, m)
		changed = true
	}
	out.k.Add(out.k, k)
	if changed {
		return Mod(out.term(), m)
	}
	return mk(&Term{op: OMod, sort: SInt, args: []*Term{t}, n: new(big.Int).Set(m)})
}

// TDiv, TRem: Go's truncated division.
func TDiv(a, b *Term) *Term {
	if b.isNum() && b.n.Sign() > 0 {
		lo, _ := a.bounds()
		if lo != nil && lo.Sign() >= 0 {
			return Div(a, b.n)
		}
		return Ite(Le(Num(0), a), Div(a, b.n), Sub(Num(0), Div(Sub(Num(0), a), b.n)))
	}
	return mk(&Term{op: ODivT, sort: SInt, args: []*Term{a, b}})
}
func TRem(a, b *Term) *Term {
	if b.isNum() && b.n.Sign() > 0 {
		lo, _ := a.bounds()
		if lo != nil && lo.Sign() >= 0 {
			return Mod(a, b.n)
		}
		return Ite(Le(Num(0), a), Mod(a, b.n), Sub(Num(0), Mod(Sub(Num(0), a), b.n)))
	}
	return mk(&Term{op: OModT, sort: SInt, args: []*Term{a, b}})
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(one, n) }

// bounds returns the interval known for t from symbol metadata alone (nil = unbounded).
func (t *Term) bounds() (*big.Int, *big.Int) {
	if t.bdone {
		return t.lo, t.hi
	}
	t.bdone = true
	switch t.op {
	case OConst:
		t.lo, t.hi = t.n, t.n
	case OSym:
		t.lo, t.hi = t.meta.lo, t.meta.hi
		if t.meta.refUB != nil && t.hi == nil {
			_, t.hi = t.meta.refUB.bounds()
		}
		for _, l := range t.meta.refLBs {
			a, _ := l.bounds()
			if a != nil && (t.lo == nil || a.Cmp(t.lo) > 0) {
				t.lo = a
			}
		}
	case OAdd:
		lo, hi := new(big.Int).Set(t.n), new(big.Int).Set(t.n)
		for i, a := range t.args {
			al, ah := a.bounds()
			c := t.coefs[i]
			if c.Sign() < 0 {
				al, ah = ah, al
			}
			if lo != nil {
				if al == nil {
					lo = nil
				} else {
					lo.Add(lo, new(big.Int).Mul(al, c))
				}
			}
			if hi != nil {
				if ah == nil {
					hi = nil
				} else {
					hi.Add(hi, new(big.Int).Mul(ah, c))
				}
			}
		}
		t.lo, t.hi = lo, hi
	case OMul:
		al, ah := t.args[0].bounds()
		bl, bh := t.args[1].bounds()
		if al != nil && bl != nil && al.Sign() >= 0 && bl.Sign() >= 0 {
			t.lo = new(big.Int).Mul(al, bl)
			if ah != nil && bh != nil {
				t.hi = new(big.Int).Mul(ah, bh)
			}
		}
	case ODiv:
		lo, hi := t.args[0].bounds()
		if lo != nil {
			t.lo = floorDiv(lo, t.n)
		}
		if hi != nil {
			t.hi = floorDiv(hi, t.n)
		}
	case OMod:
		t.lo, t.hi = new(big.Int), new(big.Int).Sub(t.n, one)
	case OIte:
		if t.sort == SInt {
			al, ah := t.args[1].bounds()
			bl, bh := t.args[2].bounds()
			if al != nil && bl != nil {
				if al.Cmp(bl) < 0 {
					t.lo = al
				} else {
					t.lo = bl
				}
			}
			if ah != nil && bh != nil {
				if ah.Cmp(bh) > 0 {
					t.hi = ah
				} else {
					t.hi = bh
				}
			}
		}
	case OSelect:
		t.lo, t.hi = elemBounds(t.args[0])
	case OApp:
		if m, ok := appRange[t.name]; ok {
			t.lo, t.hi = m.lo, m.hi
		}
	}
	return t.lo, t.hi
}

var appRange = map[string]*SymMeta{}

func elemBounds(a *Term) (lo, hi *big.Int) {
	switch a.op {
	case OSym:
		lo, hi = a.meta.lo, a.meta.hi
		if hi == nil && a.meta.refUB != nil {
			_, hi = a.meta.refUB.bounds()
		}
		return
	case OSelect:
		return elemBounds(a.args[0])
	case OApp:
		if m, ok := appRange[a.name]; ok {
			return m.lo, m.hi
		}
		return nil, nil
	case OStore:
		l1, h1 := elemBounds(a.args[0])
		var l2, h2 *big.Int
		if a.args[2].sort == SInt {
			l2, h2 = a.args[2].bounds()
		} else {
			l2, h2 = elemBounds(a.args[2])
		}
		return minB(l1, l2), maxB(h1, h2)
	case OIte:
		l1, h1 := elemBounds(a.args[1])
		l2, h2 := elemBounds(a.args[2])
		return minB(l1, l2), maxB(h1, h2)
	case OConstArr:
		if a.args[0].sort == SInt {
			return a.args[0].bounds()
		}
		return elemBounds(a.args[0])
	case OCopy:
		l1, h1 := elemBounds(a.args[0])
		l2, h2 := elemBounds(a.args[2])
		return minB(l1, l2), maxB(h1, h2)
	}
	return nil, nil
}

func minB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// ---------- references: provable order from metadata ----------

// lowers returns terms known to be <= t; uppers terms known to be >= t.
func uppers(t *Term) []*Term {
	out := []*Term{t}
	l := toLin(t)
	if len(l.c) == 1 {
		for b, c := range l.c {
			if c.Cmp(one) == 0 {
				if u := refUBOf(b); u != nil {
					out = append(out, Add(u, NumB(l.k)))
				}
			}
		}
	}
	_, hi := t.bounds()
	if hi != nil {
		out = append(out, NumB(hi))
	}
	return out
}

func refUBOf(t *Term) *Term {
	switch t.op {
	case OSym:
		return t.meta.refUB
	case OSelect:
		return elemUB(t.args[0])
	case OIte:
		a, b := t.args[1], t.args[2]
		ua, ub := refUBOf(a), refUBOf(b)
		if ua == nil && a.op == OConst {
			ua = a
		}
		if ub == nil && b.op == OConst {
			ub = b
		}
		if ua == nil || ub == nil {
			return nil
		}
		if refLe(ua, ub) {
			return ub
		}
		if refLe(ub, ua) {
			return ua
		}
	}
	return nil
}

func elemUB(a *Term) *Term {
	switch a.op {
	case OSym:
		return a.meta.refUB
	case OSelect:
		return elemUB(a.args[0])
	case OStore:
		u := elemUB(a.args[0])
		if u == nil {
			return nil
		}
		v := a.args[2]
		if v.sort != SInt {
			uv := elemUB(v)
			if uv == nil {
				return nil
			}
			if refLe(uv, u) {
				return u
			}
			if refLe(u, uv) {
				return uv
			}
			return nil
		}
		if refLe(v, u) {
			return u
		}
		if refLe(u, v) {
			return v
		}
		return nil
	case OIte:
		u, v := elemUB(a.args[1]), elemUB(a.args[2])
		if u == nil || v == nil {
			return nil
		}
		if refLe(u, v) {
			return v
		}
		if refLe(v, u) {
			return u
		}
	case OConstArr:
		return a.args[0]
	}
	return nil
}

func lowers(t *Term, depth int) []*Term {
	out := []*Term{t}
	l := toLin(t)
	if depth > 0 && len(l.c) == 1 {
		for b, c := range l.c {
			if c.Cmp(one) == 0 && b.op == OSym {
				for _, lb := range b.meta.refLBs {
					out = append(out, lowers(Add(lb, NumB(l.k)), depth-1)...)
				}
			}
		}
	}
	lo, _ := t.bounds()
	if lo != nil {
		out = append(out, NumB(lo))
	}
	return out
}

// refLe: a <= b provable from metadata.
func refLe(a, b *Term) bool {
	if a == b {
		return true
	}
	ls := lowers(b, 4)
	for _, u := range uppers(a) {
		for _, l := range ls {
			d := Sub(u, l)
			if d.op == OConst && d.n.Sign() <= 0 {
				return true
			}
		}
	}
	return false
}

func refDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	return refLe(AddI(a, 1), b) || refLe(AddI(b, 1), a)
}

// ---------- booleans ----------

func Not(t *Term) *Term {
	switch t.op {
	case OTrue:
		return tFalse
	case OFalse:
		return tTrue
	case ONot:
		return t.args[0]
	case OLe0:
		// not (x<=0)  ==  -x+1 <= 0
		return le0(Add(MulC(t.args[0], mone), Num(1)))
	case OAnd:
		// keep as Not(And) to avoid losing sharing, but push if small
		if len(t.args) <= 3 {
			var o []*Term
			for _, a := range t.args {
				o = append(o, Not(a))
			}
			return Or(o...)
		}
	case OOr:
		var o []*Term
		for _, a := range t.args {
			o = append(o, Not(a))
		}
		return And(o...)
	}
	return mk(&Term{op: ONot, sort: SBool, args: []*Term{t}})
}

func And(ts ...*Term) *Term { return nary(OAnd, ts) }
func Or(ts ...*Term) *Term  { return nary(OOr, ts) }

func nary(op Op, ts []*Term) *Term {
	neutral, absorb := tTrue, tFalse
	if op == OOr {
		neutral, absorb = tFalse, tTrue
	}
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(ts []*Term) bool
	rec = func(ts []*Term) bool {
		for _, t := range ts {
			if t == neutral || seen[t] {
				continue
			}
			if t == absorb {
				return false
			}
			if t.op == op {
				if !rec(t.args) {
					return false
				}
				continue
			}
			if seen[Not(t)] {
				return false
			}
			seen[t] = true
			out = append(out, t)
		}
		return true
	}
	if !rec(ts) {
		return absorb
	}
	if len(out) == 0 {
		return neutral
	}
	if len(out) == 1 {
		return out[0]
	}
	// absorption: in Or, And-args whose negated-literal complement appear ; x or (not x and y) -> x or y
	if len(out) <= 12 {
		changed := false
		for i, t := range out {
			dual := OAnd
			if op == OAnd {
				dual = OOr
			}
			if t.op == dual {
				var keep []*Term
				absorbed := false
				for _, a := range t.args {
					if seen[a] {
						absorbed = true
						break
					}
					if seen[Not(a)] {
						continue
					}
					keep = append(keep, a)
				}
				if absorbed {
					out[i] = neutral
					changed = true
				} else if len(keep) != len(t.args) {
					out[i] = nary(dual, keep)
					changed = true
				}
			}
		}
		if changed {
			return nary(op, out)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk(&Term{op: op, sort: SBool, args: out})
}

func Imp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue {
		return tTrue
	}
	return Or(Not(a), b)
}

func gcdNorm(l *lin) *big.Int {
	g := new(big.Int)
	for _, c := range l.c {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	return g
}

// le0: t <= 0
func le0(t *Term) *Term {
	lo, hi := t.bounds()
	if hi != nil && hi.Sign() <= 0 {
		return tTrue
	}
	if lo != nil && lo.Sign() > 0 {
		return tFalse
	}
	l := toLin(t)
	g := gcdNorm(l)
	if g.Cmp(one) > 0 {
		// sum g*ci*xi + k <= 0  <=> sum ci xi <= floor(-k/g)
		out := newLin()
		for a, c := range l.c {
			out.c[a] = new(big.Int).Quo(c, g)
		}
		out.k = new(big.Int).Neg(floorDiv(new(big.Int).Neg(l.k), g))
		t = out.term()
	}
	if t.op == OIte && (t.args[1].isNum() || t.args[2].isNum()) {
		return Ite(t.args[0], le0(t.args[1]), le0(t.args[2]))
	}
	return mk(&Term{op: OLe0, sort: SBool, args: []*Term{t}})
}

func Le(a, b *Term) *Term { return le0(Sub(a, b)) }
func Lt(a, b *Term) *Term { return le0(Add(Sub(a, b), Num(1))) }

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	switch a.sort {
	case SInt:
		d := Sub(a, b)
		if d.isNum() {
			return Bool(d.n.Sign() == 0)
		}
		lo, hi := d.bounds()
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return tFalse
		}
		if refDistinct(a, b) {
			return tFalse
		}
		if a.op == OIte && b.isNum() && (a.args[1].isNum() || a.args[2].isNum()) {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
		if b.op == OIte && a.isNum() && (b.args[1].isNum() || b.args[2].isNum()) {
			return Ite(b.args[0], Eq(b.args[1], a), Eq(b.args[2], a))
		}
		l := toLin(d)
		g := gcdNorm(l)
		if g.Cmp(one) > 0 {
			if new(big.Int).Mod(l.k, g).Sign() != 0 {
				return tFalse
			}
			out := newLin()
			for x, c := range l.c {
				out.c[x] = new(big.Int).Quo(c, g)
			}
			out.k = new(big.Int).Quo(l.k, g)
			d = out.term()
			l = toLin(d)
		}
		// canonical sign: coefficient of the first (smallest id) positive
		var first *Term
		for x := range l.c {
			if first == nil || x.id < first.id {
				first = x
			}
		}
		if first != nil && l.c[first].Sign() < 0 {
			d = MulC(d, mone)
		}
		return mk(&Term{op: OEq0, sort: SBool, args: []*Term{d}})
	case SBool:
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
		if a == Not(b) {
			return tFalse
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{op: OEqB, sort: SBool, args: []*Term{a, b}})
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func Ite(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.sort == SBool {
		if a == tTrue {
			return Or(c, b)
		}
		if a == tFalse {
			return And(Not(c), b)
		}
		if b == tTrue {
			return Or(Not(c), a)
		}
		if b == tFalse {
			return And(c, a)
		}
		return And(Or(Not(c), a), Or(c, b))
	}
	if a.op == OIte {
		if a.args[0] == c {
			return Ite(c, a.args[1], b)
		}
		if a.args[0] == Not(c) {
			return Ite(c, a.args[2], b)
		}
		if a.args[2] == b { // ite(c, ite(d,x,b), b) = ite(c&&d, x, b)
			return Ite(And(c, a.args[0]), a.args[1], b)
		}
	}
	if b.op == OIte {
		if b.args[0] == c {
			return Ite(c, a, b.args[2])
		}
		if b.args[0] == Not(c) {
			return Ite(c, a, b.args[1])
		}
		if b.args[1] == a { // ite(c,a,ite(d,a,y)) = ite(c||d,a,y)
			return Ite(Or(c, b.args[0]), a, b.args[2])
		}
	}
	return mk(&Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}})
}

// ---------- arrays ----------

var selMemo = map[[2]int]*Term{}

func Select(a, i *Term) *Term {
	k := [2]int{a.id, i.id}
	if t, ok := selMemo[k]; ok {
		return t
	}
	t := select1(a, i)
	selMemo[k] = t
	return t
}

// plainIte says that a is a choice between arrays none of which is a store or a copy: selecting from
// it under a quantifier keeps it as one array (named in queries), which can serve as a trigger.
func plainIte(a *Term) bool {
	switch a.op {
	case OIte:
		return plainIte(a.args[1]) && plainIte(a.args[2])
	case OSym:
		return true
	case OSelect:
		return plainIte(a.args[0])
	}
	return false
}

func select1(a, i *Term) *Term {
	switch a.op {
	case OStore:
		e := Eq(a.args[1], i)
		if e == tTrue {
			return a.args[2]
		}
		rest := Select(a.args[0], i)
		if e == tFalse {
			return rest
		}
		return Ite(e, a.args[2], rest)
	case OIte:
		x, y := Select(a.args[1], i), Select(a.args[2], i)
		if i.bound && !a.bound && x != y && plainIte(a) {
			return mk(&Term{op: OSelect, sort: a.sort.elem(), args: []*Term{a, i}})
		}
		return Ite(a.args[0], x, y)
	case OConstArr:
		return a.args[0]
	case OCopy:
		base, dst, src, so, n := a.args[0], a.args[1], a.args[2], a.args[3], a.args[4]
		in := And(Le(dst, i), Lt(i, Add(dst, n)))
		if in == tFalse {
			return Select(base, i)
		}
		v := Select(src, Add(Sub(i, dst), so))
		if in == tTrue {
			return v
		}
		return Ite(in, v, Select(base, i))
	case OSym:
		m := a.meta
		if m.frameBase != nil {
			if refLe(i, m.frameUB) {
				ok := true
				for _, x := range m.frameExc {
					if !refDistinct(i, x) {
						ok = false
						break
					}
				}
				if ok {
					return Select(m.frameBase, i)
				}
			}
		}
	}
	return mk(&Term{op: OSelect, sort: a.sort.elem(), args: []*Term{a, i}})
}

func Store(a, i, v *Term) *Term {
	if a.op == OStore && a.args[1] == i {
		return Store(a.args[0], i, v)
	}
	if v.op == OSelect && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk(&Term{op: OStore, sort: a.sort, args: []*Term{a, i, v}})
}

func ConstArr(s Sort, v *Term) *Term {
	return mk(&Term{op: OConstArr, sort: s, args: []*Term{v}})
}

func CopyArr(base, dst, src, so, n *Term) *Term {
	if k, ok := n.i64(); ok {
		if k == 0 {
			return base
		}
		if k <= 16 {
			r := base
			for j := int64(0); j < k; j++ {
				r = Store(r, AddI(dst, j), Select(src, AddI(so, j)))
			}
			return r
		}
	}
	if base == src && dst == so {
		return base
	}
	return mk(&Term{op: OCopy, sort: base.sort, args: []*Term{base, dst, src, so, n}})
}

func App(name string, s Sort, args ...*Term) *Term {
	return mk(&Term{op: OApp, sort: s, name: name, args: args})
}

// Forall over integer bound variables.
func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term { return quant(OForall, vars, body, pats) }
func Exists(vars []*Term, body *Term, pats ...[]*Term) *Term { return quant(OExists, vars, body, pats) }

func quant(op Op, vars []*Term, body *Term, pats [][]*Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	used := false
	for _, v := range vars {
		if occurs(v, body) {
			used = true
		}
	}
	if !used {
		return body
	}
	if op == OForall && body.op == OAnd {
		var out []*Term
		for _, b := range body.args {
			out = append(out, quant(op, vars, b, pats))
		}
		return And(out...)
	}
	if op == OForall && body.op == OOr {
		for i, d := range body.args {
			if d.op == OAnd && len(d.args) <= 12 {
				var out []*Term
				for _, c := range d.args {
					ds := append([]*Term{}, body.args...)
					ds[i] = c
					out = append(out, quant(op, vars, Or(ds...), pats))
				}
				return And(out...)
			}
		}
	}
	// Canonical variable names (by nesting depth), so that equal quantified formulas are one term.
	ren := map[*Term]*Term{}
	for i, v := range vars {
		c := Sym(fmt.Sprintf("bv?%d.%d", body.qd+1, i), SInt, &SymMeta{isBound: true})
		if v != c {
			ren[v] = c
		}
	}
	if len(ren) > 0 {
		body = Subst(body, ren)
		var nv []*Term
		for _, v := range vars {
			if c, ok := ren[v]; ok {
				v = c
			}
			nv = append(nv, v)
		}
		var np [][]*Term
		for _, p := range pats {
			var q []*Term
			for _, x := range p {
				q = append(q, Subst(x, ren))
			}
			np = append(np, q)
		}
		return quant(op, nv, body, np)
	}
	var okp [][]*Term
	for _, p := range pats {
		ok := true
		for _, x := range p {
			ok = ok && patOK(x)
		}
		if ok {
			okp = append(okp, p)
		}
	}
	pats = okp
	args := append(append([]*Term{}, vars...), body)
	t := mk(&Term{op: op, sort: SBool, args: args, pats: pats})
	// bound-ness: recompute (closed unless other bound vars occur)
	t.bound = hasOtherBound(body, vars)
	return t
}

// patOK: can t be (part of) a trigger? Logical structure over bound variables cannot.
func patOK(t *Term) bool {
	if !t.bound {
		return true
	}
	switch t.op {
	case OSym, OConst, OSelect, OApp, OAdd, OMul, OStore:
	default:
		return false
	}
	for _, a := range t.args {
		if !patOK(a) {
			return false
		}
	}
	return true
}

func hasOtherBound(t *Term, vars []*Term) bool {
	if !t.bound {
		return false
	}
	vs := map[*Term]bool{}
	for _, v := range vars {
		vs[v] = true
	}
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if !t.bound || seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OSym {
			return t.meta.isBound && !vs[t]
		}
		if t.op == OForall || t.op == OExists {
			inner := append(append([]*Term{}, vars...), t.args[:len(t.args)-1]...)
			return hasOtherBound(t.args[len(t.args)-1], inner)
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func occurs(v, t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		if v.bound && !t.bound {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// Subst replaces symbols (or arbitrary subterms) by terms, rebuilding with the constructors.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = rec(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, as)
			if r.op == OForall || r.op == OExists {
				var ps [][]*Term
				for _, p := range t.pats {
					var q []*Term
					for _, x := range p {
						q = append(q, rec(x))
					}
					ps = append(ps, q)
				}
				if r.op == t.op && len(r.args) == len(t.args) {
					r = quant(r.op, r.args[:len(r.args)-1], r.args[len(r.args)-1], ps)
				}
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case OAdd:
		l := newLin()
		l.k.Set(t.n)
		for i, a := range as {
			l.add(a, t.coefs[i])
		}
		return l.term()
	case OMul:
		return Mul(as[0], as[1])
	case ODiv:
		return Div(as[0], t.n)
	case OMod:
		return Mod(as[0], t.n)
	case ODivT:
		return TDiv(as[0], as[1])
	case OModT:
		return TRem(as[0], as[1])
	case OIte:
		return Ite(as[0], as[1], as[2])
	case OEq0:
		return Eq(as[0], Num(0))
	case OLe0:
		return le0(as[0])
	case OEqB:
		return Eq(as[0], as[1])
	case OAnd:
		return And(as...)
	case OOr:
		return Or(as...)
	case ONot:
		return Not(as[0])
	case OSelect:
		return Select(as[0], as[1])
	case OStore:
		return Store(as[0], as[1], as[2])
	case OConstArr:
		return ConstArr(t.sort, as[0])
	case OCopy:
		return CopyArr(as[0], as[1], as[2], as[3], as[4])
	case OApp:
		return App(t.name, t.sort, as...)
	case OForall, OExists:
		return quant(t.op, as[:len(as)-1], as[len(as)-1], nil)
	}
	panic("rebuild")
}
