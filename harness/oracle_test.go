package unitype_test

// Independent reference reading of sfnt files, written from the OpenType specification. Nothing here uses the
// library under test.

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
	"unicode"
	"unicode/utf16"
	"unicode/utf8"

	"golang.org/x/text/encoding/charmap"
)

type oRec struct {
	tag           string // raw four bytes
	sum, off, len uint32
}

type oFont struct {
	b    []byte
	recs []oRec
	tab  map[string]oRec // by tag without trailing spaces; last one wins
}

func u16(b []byte, p int) int { return int(binary.BigEndian.Uint16(b[p:])) }
func i16(b []byte, p int) int { return int(int16(binary.BigEndian.Uint16(b[p:]))) }
func u32(b []byte, p int) int { return int(binary.BigEndian.Uint32(b[p:])) }
func be16(v int) []byte       { return []byte{byte(v >> 8), byte(v)} }
func be32(v int) []byte       { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }
func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

// oOpen reads the table directory.
func oOpen(b []byte) (f *oFont, err error) {
	if len(b) < 12 {
		return nil, fmt.Errorf("no offset table")
	}
	n := u16(b, 4)
	if len(b) < 12+16*n {
		return nil, fmt.Errorf("directory of %d records exceeds the file (%d bytes)", n, len(b))
	}
	f = &oFont{b: b, tab: map[string]oRec{}}
	for i := 0; i < n; i++ {
		p := 12 + 16*i
		r := oRec{string(b[p : p+4]), uint32(u32(b, p+4)), uint32(u32(b, p+8)), uint32(u32(b, p+12))}
		f.recs = append(f.recs, r)
		f.tab[strings.TrimSpace(r.tag)] = r
	}
	return f, nil
}

func (f *oFont) has(t string) bool { _, ok := f.tab[t]; return ok }

// data returns the bytes of a table as far as the file has them.
func (f *oFont) data(t string) []byte {
	r, ok := f.tab[t]
	if !ok || int(r.off) > len(f.b) {
		return nil
	}
	e := int(r.off) + int(r.len)
	if e > len(f.b) {
		e = len(f.b)
	}
	return f.b[r.off:e]
}

// at returns the bytes from the start of a table to the end of the file.
func (f *oFont) at(t string) []byte {
	r, ok := f.tab[t]
	if !ok || int(r.off) > len(f.b) {
		return nil
	}
	return f.b[r.off:]
}

func oSum(b []byte) uint32 {
	var s uint32
	for i := 0; i < len(b); i += 4 {
		var w [4]byte
		copy(w[:], b[i:])
		s += binary.BigEndian.Uint32(w[:])
	}
	return s
}

// oChecks decides whether all checksums of the file are right.
func (f *oFont) oChecks() error {
	h, ok := f.tab["head"]
	if !ok {
		return fmt.Errorf("no head table")
	}
	if int(h.off)+12 > len(f.b) {
		return fmt.Errorf("head beyond the file")
	}
	z := append([]byte{}, f.b...)
	adj := uint32(u32(z, int(h.off)+8))
	copy(z[h.off+8:], []byte{0, 0, 0, 0})
	if s := oSum(z); 0xB1B0AFBA-s != adj {
		return fmt.Errorf("adjustment is %#x, the file needs %#x", adj, 0xB1B0AFBA-s)
	}
	for _, r := range f.recs {
		if int(r.off)+int(r.len) > len(f.b) {
			return fmt.Errorf("table %q (%d+%d) reaches beyond the file (%d)", r.tag, r.off, r.len, len(f.b))
		}
		d := f.b[r.off : int(r.off)+int(r.len)]
		if strings.TrimSpace(r.tag) == "head" {
			if len(d) < 12 {
				return fmt.Errorf("head too short")
			}
			d = append([]byte{}, d...)
			copy(d[8:], []byte{0, 0, 0, 0})
		}
		if s := oSum(d); s != r.sum {
			return fmt.Errorf("table %q: checksum %#x recorded, %#x found", r.tag, r.sum, s)
		}
	}
	return nil
}

// oContainer decides whether the file is a self-consistent container.
func (f *oFont) oContainer() error {
	type iv struct {
		a, b int
		t    string
	}
	var ivs []iv
	seen := map[string]bool{}
	dir := 12 + 16*len(f.recs)
	for _, r := range f.recs {
		if seen[r.tag] {
			return fmt.Errorf("two records for table %q", r.tag)
		}
		seen[r.tag] = true
		if int(r.off)+int(r.len) > len(f.b) {
			return fmt.Errorf("table %q (%d+%d) reaches beyond the file (%d bytes)", r.tag, r.off, r.len, len(f.b))
		}
		if int(r.off) < dir {
			return fmt.Errorf("table %q at %d overlaps the directory (%d bytes)", r.tag, r.off, dir)
		}
		if r.len > 0 {
			ivs = append(ivs, iv{int(r.off), int(r.off) + int(r.len), r.tag})
		}
	}
	sort.Slice(ivs, func(i, j int) bool { return ivs[i].a < ivs[j].a })
	for i := 1; i < len(ivs); i++ {
		if ivs[i].a < ivs[i-1].b {
			return fmt.Errorf("tables %q and %q overlap", ivs[i-1].t, ivs[i].t)
		}
	}
	return f.oChecks()
}

func (f *oFont) numGlyphs() int {
	d := f.at("maxp")
	if len(d) < 6 {
		return -1
	}
	return u16(d, 4)
}

// loca returns the numGlyphs+1 byte offsets.
func (f *oFont) loca() ([]int, error) {
	h, l, n := f.at("head"), f.at("loca"), f.numGlyphs()
	if len(h) < 54 || n < 0 {
		return nil, fmt.Errorf("no head or maxp")
	}
	var o []int
	for i := 0; i <= n; i++ {
		if u16(h, 50) == 0 {
			if len(l) < 2*i+2 {
				return nil, fmt.Errorf("loca too short")
			}
			o = append(o, 2*u16(l, 2*i))
		} else {
			if len(l) < 4*i+4 {
				return nil, fmt.Errorf("loca too short")
			}
			o = append(o, u32(l, 4*i))
		}
	}
	return o, nil
}

// glyph returns the outline bytes of a glyph.
func (f *oFont) glyph(o []int, g int) ([]byte, error) {
	d := f.at("glyf")
	if o[g+1] < o[g] {
		return nil, fmt.Errorf("decreasing loca offsets at glyph %d", g)
	}
	if o[g+1] > len(d) {
		if o[g+1] == o[g] {
			return nil, nil
		}
		return nil, fmt.Errorf("glyph %d beyond the file", g)
	}
	return d[o[g]:o[g+1]], nil
}

func (f *oFont) glyphs() ([][]byte, error) {
	o, err := f.loca()
	if err != nil {
		return nil, err
	}
	gs := [][]byte{}
	for i := 0; i+1 < len(o); i++ {
		g, err := f.glyph(o, i)
		if err != nil {
			return nil, err
		}
		gs = append(gs, g)
	}
	return gs, nil
}

// oComponents lists the glyphs a composite refers to; ok is false for a malformed composite.
func oComponents(g []byte) (cs []int, ok bool) {
	if len(g) == 0 {
		return nil, true
	}
	if len(g) < 10 {
		return nil, false
	}
	if i16(g, 0) >= 0 {
		return nil, true
	}
	p := 10
	instr := false
	for {
		if len(g) < p+4 {
			return nil, false
		}
		fl := u16(g, p)
		cs = append(cs, u16(g, p+2))
		p += 4
		if fl&1 != 0 {
			p += 4
		} else {
			p += 2
		}
		if fl&8 != 0 {
			p += 2
		} else if fl&0x40 != 0 {
			p += 4
		} else if fl&0x80 != 0 {
			p += 8
		}
		if p > len(g) {
			return nil, false
		}
		if fl&0x100 != 0 {
			instr = true
		}
		if fl&0x20 == 0 {
			break
		}
	}
	if instr && p >= len(g) {
		return nil, false
	}
	return cs, true
}

// oClosure returns the glyphs reachable from the requested ones; ok is false when a reached composite is malformed.
func oClosure(gs [][]byte, want []int) (in map[int]bool, ok bool) {
	in = map[int]bool{}
	todo := append([]int{}, want...)
	for len(todo) > 0 {
		g := todo[0]
		todo = todo[1:]
		if in[g] {
			continue
		}
		in[g] = true
		if g >= len(gs) {
			continue
		}
		cs, ok := oComponents(gs[g])
		if !ok {
			return nil, false
		}
		todo = append(todo, cs...)
	}
	return in, true
}

// metric returns advance width and left side bearing of a glyph and whether the file has them.
func (f *oFont) metric(g int) (adv, lsb int, hasAdv, hasLsb bool) {
	hh := f.at("hhea")
	if len(hh) < 36 || !f.has("hmtx") {
		return
	}
	n := u16(hh, 34)
	d := f.at("hmtx")
	k := g
	if k >= n {
		k = n - 1
	}
	if k >= 0 && len(d) >= 4*k+4 {
		adv, hasAdv = u16(d, 4*k), true
	}
	if g < n {
		if len(d) >= 4*g+4 {
			lsb, hasLsb = i16(d, 4*g+2), true
		}
	} else if p := 4*n + 2*(g-n); len(d) >= p+2 && g < f.numGlyphs() {
		lsb, hasLsb = i16(d, p), true
	}
	return
}

type oCmap struct {
	plat, enc, format int
	order             []int // codes in the order listed (with repeats)
	gids              []int // the glyphs they map to
	runes             map[rune]int
	increasing        bool // codes strictly increasing
	distinct          bool // every code stands for its own character
	known             bool // Unicode or Macintosh encoding
	bad               bool // references outside the subtable or the glyphs
	segs              int  // minimal number of runs
}

func oRune(plat, enc, code int) (rune, bool) {
	switch {
	case plat == 1:
		return charmap.Macintosh.DecodeByte(byte(code)), true
	case plat == 0 && (enc == 4 || enc == 6), plat == 3 && enc == 10:
		if code > unicode.MaxRune || code >= 0xD800 && code < 0xE000 {
			return utf8.RuneError, true
		}
		return rune(code), true
	case plat == 0, plat == 3 && (enc == 0 || enc == 1):
		code &= 0xFFFF
		if code >= 0xD800 && code < 0xE000 {
			return utf8.RuneError, true
		}
		return rune(code), true
	}
	return 0, false
}

// cmaps decodes every subtable of a supported format; ok is false when the table cannot be read.
func (f *oFont) cmaps() (cs []*oCmap, ok bool) {
	d := f.at("cmap")
	ng := f.numGlyphs()
	if len(d) < 4 || ng < 0 {
		return nil, false
	}
	n := u16(d, 2)
	if len(d) < 4+8*n {
		return nil, false
	}
	for i := 0; i < n; i++ {
		c := &oCmap{plat: u16(d, 4+8*i), enc: u16(d, 6+8*i), runes: map[rune]int{}}
		off := u32(d, 8+8*i)
		if off > len(d) {
			return nil, false
		}
		s := d[off:]
		if len(s) < 2 {
			return nil, false
		}
		c.format = u16(s, 0)
		add := func(code, gid int) { c.order = append(c.order, code); c.gids = append(c.gids, gid) }
		switch c.format {
		case 0:
			if len(s) < 262 {
				return nil, false
			}
			for k := 0; k < 256; k++ {
				if s[6+k] != 0 {
					add(k, int(s[6+k]))
				}
			}
		case 4:
			if len(s) < 14 {
				return nil, false
			}
			sc := u16(s, 6) / 2
			length := u16(s, 2)
			arr := ((length - (16 + 8*sc)) & 0xFFFF) / 2
			if len(s) < 16+8*sc+2*arr {
				return nil, false
			}
			end, start, delta, ro := s[14:], s[16+2*sc:], s[16+4*sc:], s[16+6*sc:]
			for k := 0; k+1 < sc; k++ {
				for code := u16(start, 2*k); code <= u16(end, 2*k); code++ {
					g := 0
					if r := u16(ro, 2*k); r == 0 {
						g = (code + u16(delta, 2*k)) & 0xFFFF
					} else {
						idx := r/2 + code - u16(start, 2*k) + k - sc
						if idx < 0 || idx >= arr {
							c.bad = true
							break
						}
						if g = u16(s, 16+8*sc+2*idx); g != 0 {
							g = (g + u16(delta, 2*k)) & 0xFFFF
						}
					}
					if g >= ng {
						c.bad = true
					}
					if g != 0 {
						add(code, g)
					}
				}
			}
		case 6:
			if len(s) < 10 {
				return nil, false
			}
			first, cnt := u16(s, 6), u16(s, 8)
			if len(s) < 10+2*cnt {
				return nil, false
			}
			for k := 0; k < cnt; k++ {
				add((first+k)&0xFFFF, u16(s, 10+2*k))
			}
		case 12:
			if len(s) < 16 {
				return nil, false
			}
			ngr := u32(s, 12)
			if len(s) < 16+12*ngr {
				return nil, false
			}
			for k := 0; k < ngr; k++ {
				p := 16 + 12*k
				a, b, g := u32(s, p), u32(s, p+4), u32(s, p+8)
				if g >= ng {
					c.bad = true
					break
				}
				for code := a; code <= b && g < ng; code++ {
					add(code, g)
					g++
				}
			}
		default:
			continue
		}
		c.increasing, c.distinct, c.known = true, true, true
		seen := map[rune]bool{}
		for k, code := range c.order {
			if k > 0 && code <= c.order[k-1] {
				c.increasing = false
			}
			if k == 0 || code != c.order[k-1]+1 || c.gids[k] != c.gids[k-1]+1 {
				c.segs++
			}
			r, ok := oRune(c.plat, c.enc, code)
			if !ok {
				c.known = false
				continue
			}
			if seen[r] {
				c.distinct = false
				continue
			}
			seen[r] = true
			c.runes[r] = c.gids[k]
		}
		cs = append(cs, c)
	}
	return cs, true
}

type oName struct {
	plat, enc, lang, id int
	data                []byte
}

func (f *oFont) names() (format int, ns []oName, langs [][]byte, ok bool) {
	d := f.data("name")
	if len(d) < 6 {
		return
	}
	format = u16(d, 0)
	n, st := u16(d, 2), u16(d, 4)
	if len(d) < 6+12*n {
		return
	}
	for i := 0; i < n; i++ {
		p := 6 + 12*i
		a := st + u16(d, p+10)
		if a+u16(d, p+8) > len(d) {
			return
		}
		ns = append(ns, oName{u16(d, p), u16(d, p+2), u16(d, p+4), u16(d, p+6), d[a : a+u16(d, p+8)]})
	}
	if format == 1 {
		p := 6 + 12*n
		if len(d) < p+2 || len(d) < p+2+4*u16(d, p) {
			return
		}
		for i := 0; i < u16(d, p); i++ {
			l, o := u16(d, p+2+4*i), st+u16(d, p+4+4*i)
			if o+l > len(d) {
				return
			}
			langs = append(langs, d[o:o+l])
		}
	}
	return format, ns, langs, true
}

// oUTF16 decodes UTF-16BE.
func oUTF16(b []byte) []rune {
	if len(b) == 1 {
		return []rune{rune(b[0])}
	}
	b = append([]byte{}, b...)
	if len(b)%2 == 1 {
		b = append(b, 0)
	}
	out := []rune{}
	for i := 0; i < len(b); i += 2 {
		c := rune(u16(b, i))
		switch {
		case c >= 0xD800 && c < 0xDC00 && i+4 <= len(b) && u16(b, i+2) >= 0xDC00 && u16(b, i+2) < 0xE000:
			out = append(out, 0x10000+(c-0xD800)<<10+rune(u16(b, i+2))-0xDC00)
			i += 2
		case c >= 0xD800 && c < 0xE000:
			out = append(out, 0xFFFD)
		default:
			out = append(out, c)
		}
	}
	return out
}

func oUTF16Enc(rs []rune) []byte {
	var b []byte
	for _, u := range utf16.Encode(rs) {
		b = append(b, byte(u>>8), byte(u))
	}
	return b
}

// text is the decoded form of a name; claimed is false where the property says nothing.
func (n oName) text() (s string, claimed bool) {
	var rs []rune
	switch {
	case n.plat == 3 && (n.enc == 0 || n.enc == 1):
		rs = oUTF16(n.data)
	case n.plat == 1:
		for _, c := range n.data {
			rs = append(rs, charmap.Macintosh.DecodeByte(c))
		}
	default:
		return "", false
	}
	var sb strings.Builder
	for _, r := range rs {
		if unicode.IsPrint(r) || r == '\n' {
			sb.WriteRune(r)
		} else {
			sb.WriteString(quoteRune(r))
		}
	}
	return sb.String(), true
}

// glyphNames gives the post names; ok is false when the table cannot be used.
func (f *oFont) glyphNames() (names []string, ok bool) {
	d := f.data("post")
	ng := f.numGlyphs()
	if len(d) < 32 || ng < 0 {
		return nil, false
	}
	switch u32(d, 0) {
	case 0x00010000:
		if ng != 258 {
			return nil, false
		}
		return append([]string{}, oMacNames...), true
	case 0x00020000:
		if len(d) < 34 || u16(d, 32) != ng || len(d) < 34+2*ng {
			return nil, false
		}
		var strs []string
		need := 0
		for i := 0; i < ng; i++ {
			if k := u16(d, 34+2*i); k >= 258 && k <= 32767 {
				need++
			}
		}
		p := 34 + 2*ng
		for len(strs) < need {
			if p >= len(d) || d[p] == 0 || p+1+int(d[p]) > len(d) {
				return nil, false
			}
			strs = append(strs, string(d[p+1:p+1+int(d[p])]))
			p += 1 + int(d[p])
		}
		for i := 0; i < ng; i++ {
			k := u16(d, 34+2*i)
			switch {
			case k < 258:
				names = append(names, oMacNames[k])
			case k <= 32767:
				if k-258 >= len(strs) {
					return nil, false
				}
				names = append(names, strs[k-258])
			default:
				names = append(names, "")
			}
		}
		return names, true
	case 0x00025000:
		if len(d) < 34 || u16(d, 32) != ng || len(d) < 34+ng {
			return nil, false
		}
		for i := 0; i < ng; i++ {
			k := i + 1 + int(int8(d[34+i]))
			if k >= 0 && k < 258 {
				names = append(names, oMacNames[k])
			} else {
				names = append(names, "")
			}
		}
		return names, true
	}
	return nil, true
}
