package main

// Models (assumed contracts) of functions outside the module. Every model used is counted in
// Engine.trusted and reported in the evidence.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var (
	leafPos = leaf{sort: SInt, lo: zeroB}
	leafGen = leaf{sort: SInt, lo: zeroB}
	byteHi  = big64(255)
)

func init() {
	appRange["fdata"] = &SymMeta{lo: zeroB, hi: byteHi}
	appRange["flen"] = &SymMeta{lo: zeroB, hi: maxLen}
	appRange["decrow"] = &SymMeta{lo: zeroB, hi: byteHi}
	appRange["declen"] = &SymMeta{lo: zeroB, hi: big64(1024)}
	appRange["decrune"] = &SymMeta{lo: zeroB, hi: big64(0x10ffff)}
	appRange["utf8dr"] = &SymMeta{lo: zeroB, hi: big64(0x10ffff)}
	appRange["utf8sz"] = &SymMeta{lo: zeroB, hi: big64(4)}
	appRange["macdec"] = &SymMeta{lo: zeroB, hi: big64(0x10ffff)}
}

func (u *Unit) trust(name, note string) {
	u.eng.trusted[name]++
	if note != "" {
		u.eng.trustedNote[name] = note
	}
	if u.trustUsed != nil {
		u.trustUsed[name] = true
	}
}

func one1(s *State) []*State { return []*State{s} }

// ---------- streams ----------

func fdata(rs *Term) *Term    { return App("fdata", SArr, rs) }
func flen(rs *Term) *Term     { return App("flen", SInt, rs) }
func reliable(rs *Term) *Term { return App("reliable", SBool, rs) }

func (u *Unit) streamPos(s *State, rs *Term) *Term {
	return Select(u.getComp(s, "$stream.pos", leafPos, false), rs)
}
func (u *Unit) streamGen(s *State, rs *Term) *Term {
	return Select(u.getComp(s, "$stream.gen", leafGen, false), rs)
}
func (u *Unit) setStream(s *State, what string, rs, v *Term) {
	k := "$stream." + what
	c := u.getComp(s, k, leafPos, false)
	u.logStore(s, k, rs, nil)
	s.heap[k] = Store(c, rs, v)
}

type bufRd struct {
	p            *PtrV
	rs, pos, gen *Term
}

func (u *Unit) bufReader(s *State, v Val, pos token.Pos) *bufRd {
	if iv, ok := v.(*IfaceV); ok {
		iv = u.resolveIface(s, iv)
		if iv.typ == nil || typeKey(iv.typ) != "*bufio.Reader" {
			unsup("reader of unknown dynamic type")
		}
		v = iv.val
	}
	p, ok := v.(*PtrV)
	if !ok {
		unsup("bufio reader %T", v)
	}
	u.nonNil(s, p, pos, "bufio.Reader")
	sv := u.load(s, p).(*StructV)
	return &bufRd{p, sv.f[0].(*Term), sv.f[1].(*Term), sv.f[2].(*Term)}
}

func (u *Unit) inSync(s *State, b *bufRd) *Term { return Eq(b.gen, u.streamGen(s, b.rs)) }

// bufAdvance records that the logical position is now np (the stream itself is at or after it).
func (u *Unit) bufAdvance(s *State, b *bufRd, np *Term) {
	key, _ := ptrBase(b.p)
	u.storeLeaf(s, b.p, key+".", opaqueStructs["bufio.Reader"][1], np)
	sp := Fresh("spos", SInt, &SymMeta{lo: zeroB})
	u.fact(s, Le(np, sp))
	u.setStream(s, "pos", b.rs, sp)
}

// readBytesModel: reading exactly n bytes. ok state: all n bytes delivered; error state: fewer.
func (u *Unit) readN(s *State, b *bufRd, n *Term, pos token.Pos, what string) (okS, errS *State) {
	u.oblige(s, "sync", "buffered reader in step with its stream at "+what, pos, u.inSync(s, b), "C06", "C18")
	if n.isNum() && n.n.Sign() == 0 {
		return s, nil
	}
	end := Add(b.pos, n)
	okc := Fresh("rdok", SBool, nil)
	okS = s.clone()
	okS.assume(okc)
	u.fact(okS, Le(end, flen(b.rs)))
	u.bufAdvance(okS, b, end)
	errS = s
	errS.assume(Not(okc))
	u.fact(errS, Imp(reliable(b.rs), Lt(flen(b.rs), end)))
	np := Fresh("bpos", SInt, &SymMeta{lo: zeroB})
	u.fact(errS, And(Le(b.pos, np)))
	u.bufAdvance(errS, b, np)
	return
}

func streamInt(rs, pos *Term, n int) *Term {
	var ts []*Term
	for i := 0; i < n; i++ {
		ts = append(ts, MulC(Select(fdata(rs), AddI(pos, int64(i))), pow2(uint(8*(n-1-i)))))
	}
	return Add(ts...)
}

func signedOf(t *Term, bits uint) *Term {
	half := pow2(bits - 1)
	return Sub(Mod(Add(t, NumB(half)), pow2(bits)), NumB(half))
}

func (u *Unit) freshErr() *Term { return Fresh("err", SInt, &SymMeta{lo: one}) }

func (u *Unit) resolveIface(s *State, v *IfaceV) *IfaceV {
	if v.typ != nil {
		return v
	}
	k, ok := v.tag.i64()
	if !ok {
		return v
	}
	t, ok := u.eng.typeByID[k]
	if !ok {
		return v
	}
	if pt, isp := t.Underlying().(*types.Pointer); isp {
		return &IfaceV{typ: t, val: &PtrV{root: pt.Elem(), ref: v.ref, oidx: -1}}
	}
	return v
}

func ifRef(v *IfaceV) *Term {
	if v.typ != nil {
		if p, ok := v.val.(*PtrV); ok {
			return p.ref
		}
		unsup("interface ref")
	}
	return v.ref
}

// ---------- bytes.Buffer ----------

type bbuf struct {
	p       *PtrV
	arr, ln *Term
}

func (u *Unit) bytesBuf(s *State, v Val, pos token.Pos) *bbuf {
	if iv, ok := v.(*IfaceV); ok {
		iv = u.resolveIface(s, iv)
		if iv.typ == nil {
			unsup("buffer of unknown dynamic type")
		}
		v = iv.val
	}
	p := v.(*PtrV)
	if namedKey(p.pointee()) != "bytes.Buffer" {
		unsup("not a bytes.Buffer: %s", p.pointee())
	}
	u.nonNil(s, p, pos, "bytes.Buffer")
	sv := u.load(s, p).(*StructV)
	return &bbuf{p, sv.f[0].(*Term), sv.f[1].(*Term)}
}

func namedKey(t types.Type) string {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name()
}

func (u *Unit) setBuf(s *State, b *bbuf, arr, ln *Term) {
	key, _ := ptrBase(b.p)
	ls := opaqueStructs["bytes.Buffer"]
	u.storeLeaf(s, b.p, key+".", ls[0], arr)
	u.storeLeaf(s, b.p, key+".", ls[1], ln)
}

// bufAppend appends bytes of a slice.
func (u *Unit) bufAppend(s *State, b *bbuf, src *SliceV) {
	if src.obj > 0 {
		arr := b.arr
		n, _ := src.len.i64()
		for i := int64(0); i < n; i++ {
			arr = Store(arr, AddI(b.ln, i), u.load(s, u.elemPtr(src, Num(i))).(*Term))
		}
		u.setBuf(s, b, arr, AddI(b.ln, n))
		return
	}
	u.setBuf(s, b, CopyArr(b.arr, b.ln, u.rowOf(s, src), src.off, src.len), Add(b.ln, src.len))
}

func (u *Unit) bufAppendInt(s *State, b *bbuf, x *Term, n int) {
	arr := b.arr
	for i := 0; i < n; i++ {
		arr = Store(arr, AddI(b.ln, int64(i)), byteOf(x, n-1-i))
	}
	u.setBuf(s, b, arr, AddI(b.ln, int64(n)))
}

// snapshot makes a byte slice whose contents are a copy of arr[0..n).
func (u *Unit) byteSlice(s *State, arr, off, n *Term) *SliceV {
	et := types.Typ[types.Byte]
	r := u.newRef(s)
	key := u.elemKey(et)
	c := u.getComp(s, key, scalarLeaves(et)[0], true)
	u.logStore(s, key, r, nil)
	row := arr
	if !(off.isNum() && off.n.Sign() == 0) {
		row = CopyArr(ConstArr(SArr, Num(0)), Num(0), arr, off, n)
	}
	s.heap[key] = Store(c, r, row)
	cap := Fresh("cap", SInt, &SymMeta{lo: zeroB, hi: maxLen})
	u.fact(s, Le(n, cap))
	return &SliceV{elem: et, ref: r, off: Num(0), len: n, cap: cap}
}

func intBytes(t types.Type) (int, bool, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	_, _, bits, signed, ok := intRange(b)
	if !ok || b.Kind() == types.Int || b.Kind() == types.Uint || b.Kind() == types.Uintptr {
		return 0, false, false
	}
	return int(bits / 8), signed, true
}

// ---------- interface calls ----------

func (u *Unit) invoke(fr *frame, s *State, x *ssa.Call, c *ssa.CallCommon, recv Val, args []Val, pos token.Pos) []*State {
	name := c.Method.Name()
	it := typeKey(c.Value.Type())
	if isErrorType(c.Value.Type()) {
		s.env[x] = Fresh("errstr", SInt, nil)
		return one1(s)
	}
	iv, ok := recv.(*IfaceV)
	if !ok {
		unsup("invoke on %T", recv)
	}
	iv = u.resolveIface(s, iv)
	if iv.typ == nil {
		u.oblige(s, "nil", "nil interface: call of "+name, pos, Ne(iv.tag, Num(0)), "C01")
	}
	switch {
	case name == "NewDecoder" && it == "encoding.Encoding":
		u.trust("x/text encodings", "decoders are opaque values identified by their encoding")
		return u.textEncoding(s, x, nil, []Val{iv})
	case name == "Seek":
		u.trust("io.Seeker.Seek", "a successful Seek positions the stream; a reliable stream fails only for negative positions")
		rs := ifRef(iv)
		off, wh := args[0].(*Term), args[1].(*Term)
		w, ok := wh.i64()
		if !ok {
			unsup("Seek whence")
		}
		var np *Term
		switch w {
		case 0:
			np = off
		case 1:
			np = Add(u.streamPos(s, rs), off)
		default:
			np = Add(flen(rs), off)
		}
		if w == 1 && off.isNum() && off.n.Sign() == 0 {
			// position query
			e := Fresh("seekerr", SInt, &SymMeta{lo: zeroB})
			u.fact(s, Imp(reliable(rs), Eq(e, Num(0))))
			p := Fresh("seekpos", SInt, nil)
			u.fact(s, Imp(Eq(e, Num(0)), Eq(p, u.streamPos(s, rs))))
			s.env[x] = TupleV{p, e}
			return one1(s)
		}
		okc := Fresh("seekok", SBool, nil)
		a := s.clone()
		a.assume(okc)
		u.fact(a, Le(Num(0), np))
		u.setStream(a, "pos", rs, np)
		u.setStream(a, "gen", rs, AddI(u.streamGen(a, rs), 1))
		a.env[x] = TupleV{np, Num(0)}
		s.assume(Not(okc))
		u.fact(s, Imp(reliable(rs), Lt(np, Num(0))))
		u.setStream(s, "pos", rs, Fresh("spos", SInt, &SymMeta{lo: zeroB}))
		u.setStream(s, "gen", rs, AddI(u.streamGen(s, rs), 1))
		s.env[x] = TupleV{Fresh("seekpos", SInt, nil), u.freshErr()}
		return []*State{a, s}
	case name == "Write" && strings.HasSuffix(it, "io.Writer"):
		if iv.typ != nil && typeKey(iv.typ) == "*bytes.Buffer" {
			u.trust("(*bytes.Buffer).Write", "appends its argument, never fails")
			b := u.bytesBuf(s, iv, pos)
			sl := args[0].(*SliceV)
			u.bufAppend(s, b, sl)
			s.env[x] = TupleV{sl.len, Num(0)}
			return one1(s)
		}
		if iv.typ == nil {
			u.trust("io.Writer.Write", "returns n == len(p) when err == nil; the accepted bytes are the first n of p")
			sl := args[0].(*SliceV)
			rf := iv.ref
			if u.bufIface {
				// a buffer of this function has become an interface value: the sink must not be it
				for id, t := range u.eng.typeByID {
					if typeKey(t) == "*bytes.Buffer" {
						u.oblige(s, "model", "writer of unknown type is not a local bytes.Buffer", pos, Ne(iv.tag, Num(id)))
					}
				}
			}
			okc := Fresh("wrok", SBool, nil)
			lA, lL := leaf{sort: SInt, lo: zeroB, hi: byteHi}, leaf{sort: SInt, lo: zeroB, hi: maxLen}
			ca := u.getComp(s, "$sink.arr", lA, true)
			cl := u.getComp(s, "$sink.len", lL, false)
			upd := func(st *State, n *Term) {
				u.logStore(st, "$sink.arr", rf, nil)
				u.logStore(st, "$sink.len", rf, nil)
				st.heap["$sink.arr"] = Store(ca, rf, CopyArr(Select(ca, rf), Select(cl, rf), u.rowOf(st, sl), sl.off, n))
				st.heap["$sink.len"] = Store(cl, rf, Add(Select(cl, rf), n))
			}
			a := s.clone()
			a.assume(okc)
			upd(a, sl.len)
			a.env[x] = TupleV{sl.len, Num(0)}
			s.assume(Not(okc))
			n := Fresh("nwr", SInt, &SymMeta{lo: zeroB})
			u.fact(s, Le(n, sl.len))
			upd(s, n)
			s.env[x] = TupleV{n, u.freshErr()}
			return []*State{a, s}
		}
	}
	unsup("interface call %s.%s (dynamic type %v)", it, name, iv.typ)
	return nil
}

// ---------- functions ----------

func (u *Unit) trusted(fr *frame, s *State, x *ssa.Call, fn *ssa.Function, args []Val, pos token.Pos) []*State {
	n := fnName(fn)
	if strings.HasPrefix(n, "github.com/sirupsen/logrus.") {
		u.trust("logrus.*", "no effect on program state")
		if fn.Signature.Results().Len() > 0 {
			s.env[x] = u.freshVal(s, x.Type(), "log", Num(0))
		}
		return one1(s)
	}
	set := func(v Val) []*State {
		if x != nil {
			s.env[x] = v
		}
		return one1(s)
	}
	term := func(i int) *Term {
		t, ok := args[i].(*Term)
		if !ok {
			unsup("argument %d of %s", i, n)
		}
		return t
	}
	switch n {
	case "errors.New":
		u.trust("errors.New", "returns a non-nil error")
		return set(u.freshErr())
	case "fmt.Errorf":
		u.trust("fmt.Errorf", "returns a non-nil error")
		return set(u.freshErr())
	case "fmt.Sprintf":
		u.trust("fmt.Sprintf", "a deterministic function of its arguments; \"%d,%d,%d\" is injective")
		return set(u.sprintf(s, args))
	case "bufio.NewReader":
		u.trust("bufio.NewReader", "starts at the stream's current position")
		iv := u.resolveIface(s, args[0].(*IfaceV))
		rs := ifRef(iv)
		rt := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		p := u.alloc(s, rt)
		g := AddI(u.streamGen(s, rs), 1)
		u.setStream(s, "gen", rs, g)
		u.store(s, p, &StructV{t: rt, f: []Val{rs, u.streamPos(s, rs), g}})
		return set(p)
	case "(*bufio.Reader).Buffered":
		u.trust(n, "underlying position minus delivered position")
		b := u.bufReader(s, args[0], pos)
		u.oblige(s, "sync", "buffered reader in step with its stream at Buffered", pos, u.inSync(s, b), "C06", "C18")
		return set(Sub(u.streamPos(s, b.rs), b.pos))
	case "(*bufio.Reader).Discard":
		u.trust(n, "skips exactly n bytes or fails")
		b := u.bufReader(s, args[0], pos)
		k := term(1)
		if k.isNum() && k.n.Sign() < 0 {
			unsup("negative discard")
		}
		a, e := u.readN(s, b, k, pos, "Discard")
		var out []*State
		if a != nil {
			a.env[x] = TupleV{k, Num(0)}
			out = append(out, a)
		}
		if e != nil {
			e.env[x] = TupleV{Fresh("ndisc", SInt, nil), u.freshErr()}
			out = append(out, e)
		}
		return out
	case "io.ReadFull":
		u.trust(n, "fills the buffer with the next len(buf) bytes or returns an error; io.Reader contract of the source")
		b := u.bufReader(s, args[0], pos)
		sl := args[1].(*SliceV)
		a, e := u.readN(s, b, sl.len, pos, "ReadFull")
		var out []*State
		if a != nil {
			if sl.obj > 0 {
				k, _ := sl.len.i64()
				for i := int64(0); i < k; i++ {
					u.store(a, u.elemPtr(sl, Num(i)), Select(fdata(b.rs), AddI(b.pos, i)))
				}
			} else if !(sl.len.isNum() && sl.len.n.Sign() == 0) {
				key := u.elemKey(sl.elem)
				c := u.getComp(a, key, scalarLeaves(sl.elem)[0], true)
				u.logStore(a, key, sl.ref, nil)
				a.heap[key] = Store(c, sl.ref, CopyArr(Select(c, sl.ref), sl.off, fdata(b.rs), b.pos, sl.len))
			}
			a.env[x] = TupleV{sl.len, Num(0)}
			out = append(out, a)
		}
		if e != nil {
			if sl.obj == 0 {
				key := u.elemKey(sl.elem)
				c := u.getComp(e, key, scalarLeaves(sl.elem)[0], true)
				u.logStore(e, key, sl.ref, nil)
				e.heap[key] = Store(c, sl.ref, Fresh("partial", SArr, &SymMeta{lo: zeroB, hi: byteHi}))
			} else {
				k, _ := sl.len.i64()
				for i := int64(0); i < k; i++ {
					u.store(e, u.elemPtr(sl, Num(i)), Fresh("partial", SInt, &SymMeta{lo: zeroB, hi: byteHi}))
				}
			}
			e.env[x] = TupleV{Fresh("nread", SInt, nil), u.freshErr()}
			out = append(out, e)
		}
		return out
	case "encoding/binary.Read":
		u.trust(n, "decodes a fixed-size value, big endian, from exactly its size in bytes, or returns an error")
		b := u.bufReader(s, args[0], pos)
		u.wantBigEndian(args[1])
		d := args[2].(*IfaceV)
		if d.typ == nil {
			unsup("binary.Read into unknown type")
		}
		p, ok := d.val.(*PtrV)
		if !ok {
			unsup("binary.Read into %s", d.typ)
		}
		t := p.pointee()
		var nb int
		var signed bool
		if isByteArr4(t) {
			nb = 4
		} else if nb, signed, ok = intBytes(t); !ok {
			unsup("binary.Read into %s", t)
		}
		a, e := u.readN(s, b, Num(int64(nb)), pos, "binary.Read")
		v := streamInt(b.rs, b.pos, nb)
		if signed {
			v = signedOf(v, uint(8*nb))
		}
		u.store(a, p, v)
		a.env[x] = Num(0)
		e.env[x] = u.freshErr()
		return []*State{a, e}
	case "encoding/binary.Write":
		u.trust(n, "appends the big-endian encoding of a fixed-size value (bytes.Buffer destination never fails)")
		b := u.bytesBuf(s, args[0], pos)
		u.wantBigEndian(args[1])
		d := args[2].(*IfaceV)
		if d.typ == nil {
			unsup("binary.Write of unknown type")
		}
		switch v := d.val.(type) {
		case *Term:
			if isByteArr4(d.typ) {
				u.bufAppendInt(s, b, v, 4)
				return set(Num(0))
			}
			nb, _, ok := intBytes(d.typ)
			if !ok {
				unsup("binary.Write of %s", d.typ)
			}
			u.bufAppendInt(s, b, v, nb)
			return set(Num(0))
		case *SliceV:
			nb, _, ok := intBytes(v.elem)
			if !ok {
				unsup("binary.Write of %s", d.typ)
			}
			k, ok := v.len.i64()
			if !ok {
				if nb == 1 && v.obj == 0 {
					u.bufAppend(s, b, v)
					return set(Num(0))
				}
				unsup("binary.Write of a slice of symbolic length")
			}
			for i := int64(0); i < k; i++ {
				e := u.load(s, u.elemPtr(v, Num(i))).(*Term)
				u.bufAppendInt(s, b, e, nb)
				b = u.bytesBuf(s, args[0], pos)
			}
			return set(Num(0))
		}
		unsup("binary.Write of %s", d.typ)
	case "bytes.NewReader":
		u.trust(n, "a reliable stream over the slice's current contents")
		sl := args[0].(*SliceV)
		rt := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		p := u.alloc(s, rt)
		u.setStream(s, "pos", p.ref, Num(0))
		u.setStream(s, "gen", p.ref, Num(0))
		u.fact(s, Eq(flen(p.ref), sl.len))
		u.fact(s, reliable(p.ref))
		if sl.obj > 0 {
			k, _ := sl.len.i64()
			for i := int64(0); i < k; i++ {
				u.fact(s, Eq(Select(fdata(p.ref), Num(i)), u.load(s, u.elemPtr(sl, Num(i))).(*Term)))
			}
		} else {
			j := BoundVar("j")
			row := u.rowOf(s, sl)
			pt := mk(&Term{op: OSelect, sort: SInt, args: []*Term{fdata(p.ref), j}})
			u.fact(s, Forall([]*Term{j}, Imp(And(Le(Num(0), j), Lt(j, sl.len)), Eq(pt, Select(row, Add(sl.off, j)))), []*Term{pt}))
		}
		return set(p)
	case "bytes.NewBuffer":
		u.trust(n, "a buffer holding the slice's current contents")
		sl := args[0].(*SliceV)
		rt := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		p := u.alloc(s, rt)
		b := u.bytesBuf(s, p, pos)
		u.bufAppend(s, b, sl)
		return set(p)
	case "(*bytes.Buffer).Bytes":
		u.trust(n, "the buffer's contents (modelled as a copy)")
		b := u.bytesBuf(s, args[0], pos)
		return set(u.byteSlice(s, b.arr, Num(0), b.ln))
	case "(*bytes.Buffer).String":
		u.trust(n, "")
		b := u.bytesBuf(s, args[0], pos)
		return set(u.bstr(s, b.arr, Num(0), b.ln))
	case "(*bytes.Buffer).Len":
		u.trust(n, "")
		return set(u.bytesBuf(s, args[0], pos).ln)
	case "(*bytes.Buffer).Reset":
		u.trust(n, "")
		b := u.bytesBuf(s, args[0], pos)
		u.setBuf(s, b, b.arr, Num(0))
		return one1(s)
	case "(*bytes.Buffer).Write":
		u.trust(n, "appends its argument, never fails")
		b := u.bytesBuf(s, args[0], pos)
		sl := args[1].(*SliceV)
		u.bufAppend(s, b, sl)
		return set(TupleV{sl.len, Num(0)})
	case "(*bytes.Buffer).WriteByte":
		u.trust(n, "appends its argument, never fails")
		b := u.bytesBuf(s, args[0], pos)
		u.bufAppendInt(s, b, term(1), 1)
		return set(Num(0))
	case "(*bytes.Buffer).WriteRune":
		u.trust(n, "appends the one to four bytes of the rune's UTF-8 form, never fails")
		b := u.bytesBuf(s, args[0], pos)
		k := utf8len(term(1))
		src := App("utf8b", SArr, term(1))
		u.setBuf(s, b, CopyArr(b.arr, b.ln, src, Num(0), k), Add(b.ln, k))
		return set(TupleV{k, Num(0)})
	case "(*bytes.Buffer).WriteString":
		u.trust(n, "appends its argument, never fails")
		b := u.bytesBuf(s, args[0], pos)
		t := term(1)
		k := u.strLen(t)
		src := App("strbytes", SArr, t)
		appRange["strbytes"] = &SymMeta{lo: zeroB, hi: byteHi}
		j := BoundVar("j")
		u.fact(s, Forall([]*Term{j}, Imp(And(Le(Num(0), j), Lt(j, k)), Eq(Select(src, j), App("strat", SInt, t, j))), []*Term{Select(src, j)}))
		u.setBuf(s, b, CopyArr(b.arr, b.ln, src, Num(0), k), Add(b.ln, k))
		return set(TupleV{k, Num(0)})
	case "(*bytes.Buffer).WriteTo":
		u.trust(n, "moves all contents to the destination")
		b := u.bytesBuf(s, args[0], pos)
		iv := u.resolveIface(s, args[1].(*IfaceV))
		if iv.typ == nil || typeKey(iv.typ) != "*bytes.Buffer" {
			unsup("WriteTo a non-buffer")
		}
		d := u.bytesBuf(s, iv, pos)
		u.setBuf(s, d, CopyArr(d.arr, d.ln, b.arr, Num(0), b.ln), Add(d.ln, b.ln))
		nn := b.ln
		b = u.bytesBuf(s, args[0], pos)
		u.setBuf(s, b, b.arr, Num(0))
		return set(TupleV{nn, Num(0)})
	case "io.Copy":
		u.trust(n, "copies until end of input")
		d := u.bytesBuf(s, args[0], pos)
		iv := u.resolveIface(s, args[1].(*IfaceV))
		if iv.typ != nil && typeKey(iv.typ) == "*bytes.Buffer" {
			b := u.bytesBuf(s, iv, pos)
			u.setBuf(s, d, CopyArr(d.arr, d.ln, b.arr, Num(0), b.ln), Add(d.ln, b.ln))
			nn := b.ln
			b = u.bytesBuf(s, iv, pos)
			u.setBuf(s, b, b.arr, Num(0))
			return set(TupleV{nn, Num(0)})
		}
		b := u.bufReader(s, iv, pos)
		u.oblige(s, "sync", "buffered reader in step with its stream at io.Copy", pos, u.inSync(s, b), "C06", "C18")
		okc := Fresh("cpok", SBool, nil)
		a := s.clone()
		a.assume(okc)
		m := Ite(Le(b.pos, flen(b.rs)), Sub(flen(b.rs), b.pos), Num(0))
		u.setBuf(a, d, CopyArr(d.arr, d.ln, fdata(b.rs), b.pos, m), Add(d.ln, m))
		u.bufAdvance(a, b, Add(b.pos, m))
		a.env[x] = TupleV{m, Num(0)}
		s.assume(Not(okc))
		u.fact(s, Not(reliable(b.rs)))
		m2 := Fresh("ncopied", SInt, &SymMeta{lo: zeroB, hi: maxLen})
		u.setBuf(s, d, CopyArr(d.arr, d.ln, fdata(b.rs), b.pos, m2), Add(d.ln, m2))
		np := Fresh("bpos", SInt, &SymMeta{lo: zeroB})
		u.fact(s, Le(b.pos, np))
		u.bufAdvance(s, b, np)
		s.env[x] = TupleV{m2, u.freshErr()}
		return []*State{a, s}
	case "(encoding/binary.bigEndian).Uint16", "(encoding/binary.bigEndian).Uint32":
		u.trust(n, "")
		k := 2
		if strings.HasSuffix(n, "32") {
			k = 4
		}
		sl := args[len(args)-1].(*SliceV)
		u.oblige(s, "index", "binary.BigEndian read within the slice", pos, Le(Num(int64(k)), sl.len), "C01")
		var ts []*Term
		for i := 0; i < k; i++ {
			ts = append(ts, MulC(u.load(s, u.elemPtr(sl, Num(int64(i)))).(*Term), pow2(uint(8*(k-1-i)))))
		}
		return set(Add(ts...))
	case "(encoding/binary.bigEndian).PutUint16", "(encoding/binary.bigEndian).PutUint32":
		u.trust(n, "")
		k := 2
		if strings.HasSuffix(n, "32") {
			k = 4
		}
		sl := args[len(args)-2].(*SliceV)
		v := args[len(args)-1].(*Term)
		u.oblige(s, "index", "binary.BigEndian write within the slice", pos, Le(Num(int64(k)), sl.len), "C01")
		for i := 0; i < k; i++ {
			u.store(s, u.elemPtr(sl, Num(int64(i))), byteOf(v, k-1-i))
		}
		return one1(s)
	case "strings.TrimSpace":
		u.trust(n, "a function of the string (evaluated on literals)")
		t := term(0)
		if k, ok := t.i64(); ok {
			if l, ok := u.eng.strNames[k]; ok {
				return set(u.eng.strLit(strings.TrimSpace(l)))
			}
		}
		return set(App("trimspace", SInt, t))
	case "sort.Slice":
		u.trust(n, "permutes the slice so that it is sorted under the given order")
		u.sortSlice(fr, s, args, pos)
		return one1(s)
	case "math.Log2", "math.Floor", "math.Pow":
		u.trust("math.*", "uninterpreted floating point")
		var ts []*Term
		for i := range args {
			ts = append(ts, term(i))
		}
		return set(App(n, SInt, ts...))
	case "unicode.IsPrint":
		u.trust(n, "")
		return set(App("isprint", SBool, term(0)))
	case "strconv.QuoteRune":
		u.trust(n, "")
		return set(App("quoterune", SInt, term(0)))
	case "unicode/utf8.DecodeRune":
		u.trust(n, "a function of the bytes; consumes at least one byte of a non-empty slice and at most its length")
		sl := args[0].(*SliceV)
		if sl.obj > 0 {
			unsup("DecodeRune on a concrete slice")
		}
		row := u.rowOf(s, sl)
		r := App("utf8dr", SInt, row, sl.off, sl.len)
		if row.op == OApp && row.name == "decrow" && sl.off.isNum() && sl.off.n.Sign() == 0 && sl.len.op == OApp && sl.len.name == "declen" && len(row.args) == 3 {
			r = App("decrune", SInt, row.args...)
			u.trust("x/text decoders", "UTF-16 and UTF-32 (big endian) decode a unit to the character it stands for, or U+FFFD; Macintosh decodes a byte by its table")
			u.fact(s, u.decSem(r, row.args))
		}
		z := App("utf8sz", SInt, row, sl.off, sl.len)
		u.fact(s, And(Le(z, sl.len), Imp(Lt(Num(0), sl.len), Le(Num(1), z))))
		return set(TupleV{r, z})
	case "(*golang.org/x/text/encoding.Decoder).Bytes":
		u.trust(n, "a function of the decoder's encoding and the input bytes")
		return u.decoderBytes(s, x, args, pos)
	case "(*golang.org/x/text/encoding/charmap.Charmap).DecodeByte":
		u.trust(n, "a function of the byte")
		return set(App("macdec", SInt, term(1)))
	case "os.Open", "os.Create":
		u.trust("os.*", "returns a file or an error; the file is a stream")
		okc := Fresh("openok", SBool, nil)
		a := s.clone()
		a.assume(okc)
		p := u.alloc(a, fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		u.setStream(a, "pos", p.ref, Num(0))
		a.env[x] = TupleV{p, Num(0)}
		s.assume(Not(okc))
		s.env[x] = TupleV{u.zero(s, fn.Signature.Results().At(0).Type()), u.freshErr()}
		return []*State{a, s}
	}
	if strings.HasPrefix(n, "golang.org/x/text/encoding/") || strings.HasSuffix(n, ".NewDecoder") || strings.Contains(n, "golang.org/x/text/encoding") {
		u.trust("x/text encodings", "decoders are opaque values identified by their encoding")
		return u.textEncoding(s, x, fn, args)
	}
	if strings.HasPrefix(n, "fmt.") {
		u.trust("fmt.*", "no effect on program state")
		if fn.Signature.Results().Len() > 0 {
			s.env[x] = u.freshVal(s, x.Type(), "fmt", Num(0))
		}
		return one1(s)
	}
	unsup("no model for %s", n)
	return nil
}

func utf8len(r *Term) *Term {
	appRange["utf8len"] = &SymMeta{lo: one, hi: big64(4)}
	appRange["utf8b"] = &SymMeta{lo: zeroB, hi: byteHi}
	return App("utf8len", SInt, r)
}

func (u *Unit) freshRow(s *State, v *SliceV) {
	for _, e := range u.elemLeaves(v.elem) {
		k := e.key + e.l.name
		c := u.getComp(s, k, e.l, true)
		u.logStore(s, k, v.ref, nil)
		s.heap[k] = Store(c, v.ref, Fresh("row", SArr, &SymMeta{lo: e.l.lo, hi: e.l.hi}))
	}
}

func (u *Unit) wantBigEndian(v Val) {
	iv, ok := v.(*IfaceV)
	if !ok || iv.typ == nil || !strings.HasSuffix(typeKey(iv.typ), "binary.bigEndian") {
		unsup("byte order is not binary.BigEndian")
	}
}

func (u *Unit) decoderBytes(s *State, x *ssa.Call, args []Val, pos token.Pos) []*State {
	p := args[0].(*PtrV)
	u.nonNil(s, p, pos, "encoding.Decoder")
	id := u.load(s, p).(*StructV).f[0].(*Term)
	sl := args[1].(*SliceV)
	var keys []*Term
	keys = append(keys, id)
	k, ok := sl.len.i64()
	if !ok && sl.obj == 0 { // a code of 1, 2 or 4 bytes
		b := func(n int64) *Term {
			var ts []*Term
			for i := int64(0); i < n; i++ {
				ts = append(ts, MulC(u.load(s, u.elemPtr(sl, Num(i))).(*Term), pow2(uint(8*(n-1-i)))))
			}
			return Add(ts...)
		}
		v := Fresh("bytesid", SInt, nil)
		for _, n := range []int64{1, 2, 4} {
			v = Ite(Eq(sl.len, Num(n)), b(n), v)
		}
		keys = append(keys, sl.len, v)
	} else if ok && k <= 8 {
		var ts []*Term
		for i := int64(0); i < k; i++ {
			ts = append(ts, MulC(u.load(s, u.elemPtr(sl, Num(i))).(*Term), pow2(uint(8*(k-1-i)))))
		}
		keys = append(keys, Num(k), Add(ts...))
	} else {
		keys = append(keys, sl.len, Fresh("bytesid", SInt, nil))
	}
	n := App("declen", SInt, keys...)
	row := App("decrow", SArr, keys...)
	v := u.newSliceRaw(s, types.Typ[types.Byte], n, n)
	key := u.elemKey(types.Typ[types.Byte])
	c := u.getComp(s, key, scalarLeaves(types.Typ[types.Byte])[0], true)
	u.logStore(s, key, v.ref, nil)
	s.heap[key] = Store(c, v.ref, row)
	e := Fresh("decerr", SInt, &SymMeta{lo: zeroB})
	s.env[x] = TupleV{v, e}
	return one1(s)
}

// decSem: what the decoders that have a specification here make of one code.
func (u *Unit) decSem(r *Term, k []*Term) *Term {
	id, n, v := k[0], k[1], k[2]
	is := func(enc string, n0 int64) *Term {
		return And(Eq(id, Num(-u.eng.constID(enc))), Eq(n, Num(n0)))
	}
	surr := And(Le(Num(0xd800), v), Le(v, Num(0xdfff)))
	bad := Or(surr, Lt(Num(0x10ffff), v))
	return And(
		Imp(is("enc:UTF16:false:0", 2), Eq(r, Ite(surr, Num(0xfffd), v))),
		Imp(is("enc:UTF32:false:0", 4), Eq(r, Ite(bad, Num(0xfffd), v))),
		Imp(is("g:golang.org/x/text/encoding/charmap.Macintosh", 1), Eq(r, App("macdec", SInt, v))))
}

func (u *Unit) textEncoding(s *State, x *ssa.Call, fn *ssa.Function, args []Val) []*State {
	rt := x.Type()
	switch t := rt.Underlying().(type) {
	case *types.Pointer: // *encoding.Decoder
		p := u.alloc(s, t.Elem())
		id := Num(0)
		if len(args) > 0 {
			switch v := args[0].(type) {
			case *IfaceV:
				if v.typ == nil {
					id = v.ref
				}
			case *PtrV:
				id = v.ref
			case *Term:
				id = v
			default:
				id = Fresh("enc", SInt, nil)
			}
		}
		if _, ok := opaqueLeaves(t.Elem()); ok {
			u.store(s, p, &StructV{t: t.Elem(), f: []Val{id}})
		}
		s.env[x] = p
		return one1(s)
	case *types.Interface:
		nm := fn.Name()
		for _, a := range args {
			if at, ok := a.(*Term); ok {
				if at.op == OTrue || at.op == OFalse {
					nm += ":" + fmt.Sprint(at.op == OTrue)
				} else {
					nm += ":" + fmt.Sprint(at.n)
				}
			}
		}
		s.env[x] = &IfaceV{tag: Num(u.eng.typeID(rt)), ref: Num(-u.eng.constID("enc:" + nm))}
		return one1(s)
	}
	unsup("text encoding %s", fnName(fn))
	return nil
}

func (u *Unit) sprintf(s *State, args []Val) *Term {
	f, ok := args[0].(*Term)
	if ok {
		if k, ok := f.i64(); ok && u.eng.strNames[k] == "%d,%d,%d" {
			sl := args[1].(*SliceV)
			if n, ok := sl.len.i64(); ok && n == 3 && sl.obj > 0 {
				var ts []*Term
				for i := int64(0); i < 3; i++ {
					iv, ok := u.load(s, u.elemPtr(sl, Num(i))).(*IfaceV)
					if !ok || iv.typ == nil {
						return Fresh("sprintf", SInt, nil)
					}
					ts = append(ts, iv.val.(*Term))
				}
				r := App("fmt3", SInt, ts...)
				for i := range ts {
					u.fact(s, Eq(App(fmt.Sprintf("fmt3inv%d", i), SInt, r), ts[i]))
				}
				return r
			}
		}
	}
	return Fresh("sprintf", SInt, nil)
}

// sortSlice: the result is a permutation (same values, same multiplicity is not modelled beyond
// mutual containment and, when all elements were distinct, distinctness) ordered by less.
func (u *Unit) sortSlice(fr *frame, s *State, args []Val, pos token.Pos) {
	iv := args[0].(*IfaceV)
	if iv.typ == nil {
		unsup("sort.Slice on unknown type")
	}
	sl := iv.val.(*SliceV)
	ls := u.elemLeaves(sl.elem)
	if len(ls) != 1 || sl.obj > 0 {
		unsup("sort.Slice on %s", sl.elem)
	}
	if !(sl.off.isNum() && sl.off.n.Sign() == 0) {
		unsup("sort.Slice on a resliced slice")
	}
	k := ls[0].key + ls[0].l.name
	c := u.getComp(s, k, ls[0].l, true)
	old := Select(c, sl.ref)
	row := Fresh("sorted", SArr, &SymMeta{lo: ls[0].l.lo, hi: ls[0].l.hi})
	u.logStore(s, k, sl.ref, nil)
	s.heap[k] = Store(c, sl.ref, row)
	perm := Fresh("perm", SArr, &SymMeta{lo: zeroB})
	inv := Fresh("perminv", SArr, &SymMeta{lo: zeroB})
	j := BoundVar("j")
	in := And(Le(Num(0), j), Lt(j, sl.len))
	pj, ij := Select(perm, j), Select(inv, j)
	u.fact(s, Forall([]*Term{j}, Imp(in, And(Lt(pj, sl.len), Eq(Select(row, j), Select(old, pj)), Eq(Select(inv, pj), j))), []*Term{Select(row, j)}))
	u.fact(s, Forall([]*Term{j}, Imp(in, And(Lt(ij, sl.len), Eq(Select(old, j), Select(row, ij)), Eq(Select(perm, ij), j))), []*Term{Select(old, j)}))
	// order: evaluate less(a,b) symbolically on bound indices is not possible through execution;
	// run the closure once on two fresh indices and generalise.
	less, ok := args[1].(*FuncV)
	if !ok {
		unsup("sort.Slice with unknown order")
	}
	a, b := Fresh("sa", SInt, &SymMeta{lo: zeroB}), Fresh("sb", SInt, &SymMeta{lo: zeroB})
	st := s.clone()
	st.assume(Lt(a, sl.len))
	st.assume(Lt(b, sl.len))
	nf := len(u.facts)
	outs := u.execFunc(fr, st, less.fn, []Val{a, b}, less.binds)
	u.facts = u.facts[:nf:nf]
	if len(outs) != 1 {
		unsup("sort.Slice order with branches")
	}
	r := outs[0].res[0].(*Term)
	ba, bb := BoundVar("a"), BoundVar("b")
	lt := Subst(r, map[*Term]*Term{a: bb, b: ba}) // less(row[b], row[a]) must be false for a<b
	u.fact(s, Forall([]*Term{ba, bb}, Imp(And(Le(Num(0), ba), Lt(ba, bb), Lt(bb, sl.len)), Not(lt)), []*Term{Select(row, ba), Select(row, bb)}))
}

func (e *Engine) constID(k string) int64 {
	if id, ok := e.constIDs[k]; ok {
		return id
	}
	id := int64(10000 + len(e.constIDs))
	e.constIDs[k] = id
	return id
}

// ---------- globals ----------

type globalInfo struct {
	val Val
}

func (u *Unit) globalVal(s *State, g *ssa.Global) Val {
	if v := u.gvals[g]; v != nil {
		return v
	}
	t := g.Type().(*types.Pointer).Elem()
	if isErrorType(t) {
		return Num(100 + u.eng.constID("g:"+g.String()))
	}
	switch tt := t.Underlying().(type) {
	case *types.Slice:
		n, ok := u.eng.sliceLits[g]
		if !ok {
			unsup("global slice %s", g.Name())
		}
		r := Num(-u.eng.constID("g:" + g.String()))
		return &SliceV{elem: tt.Elem(), ref: r, off: Num(0), len: Num(int64(n)), cap: Num(int64(n))}
	case *types.Map:
		return Num(-u.eng.constID("g:" + g.String()))
	case *types.Pointer:
		return &PtrV{root: tt.Elem(), ref: Num(-u.eng.constID("g:" + g.String())), oidx: -1}
	case *types.Interface:
		return &IfaceV{tag: Num(u.eng.typeID(t)), ref: Num(-u.eng.constID("g:" + g.String()))}
	case *types.Struct:
		if g.Pkg.Pkg.Path() == "encoding/binary" {
			return u.zero(s, t)
		}
	}
	unsup("global %s", g.Name())
	return nil
}

var _ = big.NewInt
