package unitype_test

// Random well-formed fonts.

import (
	"math/rand"
	"sort"
)

type synTab struct {
	tag  string
	data []byte
}

type synOpt struct {
	bigRaw      bool // long cvt, fpgm, prep more often
	maxGlyphs   int
	noCmap      bool
	cmaps       [][3]int // platform, encoding, format to include exactly
	postVersion int      // 0: any
	manyCmaps   bool
	deep        bool // many composites
	long        bool
}

// r16 picks 16-bit values with a bias to the edges.
func r16(rg *rand.Rand) int {
	switch rg.Intn(6) {
	case 0:
		return []int{0, 1, 2, 0x7FFF, 0x8000, 0xFFFF, 0xFFFE, 0xFF, 0x100, 0x80}[rg.Intn(10)]
	case 1:
		return rg.Intn(64)
	}
	return rg.Intn(65536)
}

func r32(rg *rand.Rand) int { return r16(rg)<<16 | r16(rg) }

// rawLen is a table length: mostly short, sometimes around a power of two.
func rawLen(rg *rand.Rand, o synOpt, short int) int {
	odds := 100
	if o.bigRaw {
		odds = 4
	}
	if rg.Intn(odds) != 0 {
		return rg.Intn(short)
	}
	return 1<<(5+rg.Intn(13)) + rg.Intn(5) - 2
}

func rbytes(rg *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch rg.Intn(4) {
		case 0:
			b[i] = []byte{0, 0xFF, 0x80, 0x7F, 1}[rg.Intn(5)]
		default:
			b[i] = byte(rg.Intn(256))
		}
	}
	return b
}

func synGlyph(rg *rand.Rand, ng int, deep bool) []byte {
	p := rg.Intn(10)
	if deep {
		p = 5 + rg.Intn(6)
	}
	switch {
	case p < 2:
		return nil
	case p < 7:
		g := cat(be16(rg.Intn(20)), rbytes(rg, 8+rg.Intn(30)))
		return g
	}
	g := cat(be16(0xFFFF), rbytes(rg, 8))
	if rg.Intn(3) == 0 {
		copy(g, be16(0x8000+rg.Intn(0x7FFF)))
	}
	n := 1 + rg.Intn(4)
	instr := rg.Intn(3) == 0
	for i := 0; i < n; i++ {
		fl := rg.Intn(65536) &^ (0x20 | 0x100 | 8 | 0x40 | 0x80)
		switch rg.Intn(6) {
		case 0:
			fl |= 8
		case 1:
			fl |= 0x40
		case 2:
			fl |= 0x80
		case 3:
			fl |= []int{8 | 0x40, 8 | 0x80, 0x40 | 0x80, 8 | 0x40 | 0x80}[rg.Intn(4)]
		}
		if i < n-1 {
			fl |= 0x20
		}
		if instr && (i == n-1 || rg.Intn(2) == 0) {
			fl |= 0x100
		}
		ref := rg.Intn(ng)
		if rg.Intn(30) == 0 {
			ref = r16(rg)
		}
		g = cat(g, be16(fl), be16(ref))
		if fl&1 != 0 {
			g = cat(g, rbytes(rg, 4))
		} else {
			g = cat(g, rbytes(rg, 2))
		}
		switch {
		case fl&8 != 0:
			g = cat(g, rbytes(rg, 2))
		case fl&0x40 != 0:
			g = cat(g, rbytes(rg, 4))
		case fl&0x80 != 0:
			g = cat(g, rbytes(rg, 8))
		}
	}
	if instr {
		g = cat(g, rbytes(rg, 1+rg.Intn(9)))
	}
	return g
}

func codesAndGids(rg *rand.Rand, maxCode, ng int) (codes []int, gids map[int]int) {
	gids = map[int]int{}
	n := rg.Intn(40)
	for i := 0; i < n; i++ {
		c := rg.Intn(maxCode + 1)
		switch rg.Intn(5) {
		case 0:
			c = rg.Intn(300)
		case 1:
			c = maxCode - rg.Intn(3)
		case 2:
			c = []int{0, 0x41, 0xFF, 0x100, 0x3B1, 0xF041, 0xFFFF, 0xFFFE, 0xD7FF, 0xE000}[rg.Intn(10)]
		}
		if c > maxCode {
			c = maxCode
		}
		g := rg.Intn(ng)
		run := 1 + rg.Intn(6)
		for k := 0; k < run && c+k <= maxCode; k++ {
			if c+k >= 0xD800 && c+k < 0xE000 {
				continue
			}
			gg := g + k
			if rg.Intn(8) == 0 {
				gg = rg.Intn(ng)
			}
			if gg < ng && gg > 0 {
				gids[c+k] = gg
			}
		}
	}
	for c := range gids {
		codes = append(codes, c)
	}
	sort.Ints(codes)
	return
}

func synFmt0(rg *rand.Rand, ng int) []byte {
	b := cat(be16(0), be16(262), be16(rg.Intn(3)))
	for i := 0; i < 256; i++ {
		g := 0
		if rg.Intn(3) != 0 {
			if g = rg.Intn(ng); g > 255 {
				g = rg.Intn(256)
			}
		}
		b = append(b, byte(g))
	}
	return b
}

func synFmt4(rg *rand.Rand, ng int) []byte {
	codes, gids := codesAndGids(rg, 0xFFFF, ng)
	type seg struct{ a, b, delta, ro int }
	var segs []seg
	var arr []int
	type fix struct{ seg, pos int }
	var fixes []fix
	for i := 0; i < len(codes); {
		if rg.Intn(2) == 0 {
			// delta run
			j := i + 1
			for j < len(codes) && codes[j] == codes[i]+(j-i) && gids[codes[j]] == gids[codes[i]]+(j-i) {
				j++
			}
			segs = append(segs, seg{codes[i], codes[j-1], (gids[codes[i]] - codes[i]) & 0xFFFF, 0})
			i = j
			continue
		}
		// glyph array run, possibly with holes
		j := i + 1
		for j < len(codes) && codes[j]-codes[j-1] <= 3 && j-i < 20 {
			j++
		}
		delta := 0
		if rg.Intn(2) == 0 {
			delta = r16(rg)
		}
		fixes = append(fixes, fix{len(segs), len(arr)})
		segs = append(segs, seg{codes[i], codes[j-1], delta, 1})
		for c := codes[i]; c <= codes[j-1]; c++ {
			v := 0
			if g, ok := gids[c]; ok {
				// a stored zero means no glyph whatever the delta is
				v = (g - delta) & 0xFFFF
			}
			arr = append(arr, v)
		}
		i = j
	}
	switch rg.Intn(3) {
	case 0:
		segs = append(segs, seg{0xFFFF, 0xFFFF, 1, 0})
	case 1:
		segs = append(segs, seg{0xFFFF, 0xFFFF, 0, 0})
	default:
		segs = append(segs, seg{0xFFFF, 0xFFFF, 1, 0})
	}
	for _, x := range fixes {
		segs[x.seg].ro = 2 * (len(segs) - x.seg + x.pos)
	}
	n := len(segs)
	sr, es := 2, 0
	for sr*2 <= n*2 {
		sr *= 2
		es++
	}
	b := cat(be16(4), be16(16+8*n+2*len(arr)), be16(rg.Intn(2)), be16(2*n), be16(sr), be16(es), be16(2*n-sr))
	for _, s := range segs {
		b = cat(b, be16(s.b))
	}
	b = cat(b, be16(0))
	for _, s := range segs {
		b = cat(b, be16(s.a))
	}
	for _, s := range segs {
		b = cat(b, be16(s.delta))
	}
	for _, s := range segs {
		b = cat(b, be16(s.ro))
	}
	for _, v := range arr {
		b = cat(b, be16(v))
	}
	return b
}

func synFmt6(rg *rand.Rand, ng int) []byte {
	n := rg.Intn(40)
	first := rg.Intn(65536 - n)
	if rg.Intn(2) == 0 {
		first = rg.Intn(200)
	} else if rg.Intn(4) == 0 {
		first = 65536 - n
		if first > 65535 {
			first = 65535
		}
	}
	b := cat(be16(6), be16(10+2*n), be16(rg.Intn(2)), be16(first), be16(n))
	for i := 0; i < n; i++ {
		b = cat(b, be16(rg.Intn(ng)))
	}
	return b
}

func synFmt12(rg *rand.Rand, ng int) []byte {
	codes, gids := codesAndGids(rg, 0x10FFFF, ng)
	var gr []byte
	n := 0
	for i := 0; i < len(codes); {
		j := i + 1
		for j < len(codes) && codes[j] == codes[i]+(j-i) && gids[codes[j]] == gids[codes[i]]+(j-i) && rg.Intn(10) != 0 {
			j++
		}
		end := codes[j-1]
		if rg.Intn(12) == 0 && (j == len(codes) || codes[j] > end+ng+4) && codes[i] < 0x100000 {
			end += ng - gids[codes[i]] + rg.Intn(3) // beyond the last glyph
		}
		gr = cat(gr, be32(codes[i]), be32(end), be32(gids[codes[i]]))
		n++
		i = j
	}
	return cat(be16(12), be16(0), be32(16+12*n), be32(rg.Intn(3)), be32(n), gr)
}

func synCmap(rg *rand.Rand, ng int, o synOpt) []byte {
	combos := o.cmaps
	if combos == nil {
		all := [][3]int{{0, 3, 4}, {0, 0, 4}, {0, 1, 6}, {0, 4, 12}, {0, 6, 12}, {1, 0, 0}, {1, 0, 6}, {1, 0, 4}, {3, 0, 4}, {3, 1, 4}, {3, 1, 6}, {3, 1, 0}, {3, 10, 12}, {0, 3, 12}, {3, 1, 12}, {3, 10, 4}, {0, 3, 0}, {1, 1, 0}, {3, 5, 4}, {3, 2, 4}, {7, 0, 6}}
		n := 1 + rg.Intn(3)
		if rg.Intn(10) == 0 {
			n = 0
		}
		if o.manyCmaps {
			n = 3 + rg.Intn(5)
		}
		for i := 0; i < n; i++ {
			combos = append(combos, all[rg.Intn(len(all))])
		}
	}
	type sub struct {
		c [3]int
		b []byte
	}
	var subs []sub
	for _, c := range combos {
		var b []byte
		switch c[2] {
		case 0:
			b = synFmt0(rg, ng)
		case 4:
			b = synFmt4(rg, ng)
		case 6:
			b = synFmt6(rg, ng)
		case 12:
			b = synFmt12(rg, ng)
		}
		subs = append(subs, sub{c, b})
	}
	if rg.Intn(8) == 0 { // unsupported format
		subs = append(subs, sub{[3]int{0, 5, 14}, cat(be16(14), be32(10), be32(0))})
	}
	if rg.Intn(3) != 0 {
		sort.SliceStable(subs, func(i, j int) bool {
			a, b := subs[i].c, subs[j].c
			return a[0] < b[0] || a[0] == b[0] && a[1] < b[1]
		})
	}
	hdr := cat(be16(0), be16(len(subs)))
	var body []byte
	off := 4 + 8*len(subs)
	order := rg.Perm(len(subs))
	offs := make([]int, len(subs))
	for _, k := range order {
		for rg.Intn(4) == 0 {
			body = append(body, byte(rg.Intn(256)))
		}
		offs[k] = off + len(body)
		body = append(body, subs[k].b...)
	}
	for k, s := range subs {
		hdr = cat(hdr, be16(s.c[0]), be16(s.c[1]), be32(offs[k]))
	}
	return cat(hdr, body)
}

func synName(rg *rand.Rand) []byte {
	n := rg.Intn(12)
	format := rg.Intn(2)
	var storage []byte
	str := func(plat int) (off, l int) {
		var b []byte
		switch rg.Intn(6) {
		case 0:
			b = rbytes(rg, rg.Intn(20))
		case 1:
			b = nil
		case 2:
			b = rbytes(rg, 1+rg.Intn(3))
		default:
			if plat == 3 {
				var rs []rune
				for i := rg.Intn(12); i > 0; i-- {
					rs = append(rs, []rune{'A', 'z', 'é', 'Ж', 0x1F600, 0x10FFFF, '\n', 7, 0x200B, 0xFFFD, 0x10000}[rg.Intn(11)])
				}
				b = oUTF16Enc(rs)
				if rg.Intn(8) == 0 {
					b = cat(b, be16(0xD800+rg.Intn(0x800)))
				}
			} else {
				b = rbytes(rg, rg.Intn(15))
			}
		}
		if len(storage) > 0 && rg.Intn(5) == 0 { // shared or overlapping
			off = rg.Intn(len(storage))
			l = rg.Intn(len(storage) - off + 1)
			return
		}
		off = len(storage)
		storage = append(storage, b...)
		return off, len(b)
	}
	var recs, langs []byte
	for i := 0; i < n; i++ {
		p := []int{0, 1, 3, 3, 3, 1, 2, 4}[rg.Intn(8)]
		e := []int{0, 1, 1, 1, 0, 3, 10}[rg.Intn(7)]
		off, l := str(p)
		recs = cat(recs, be16(p), be16(e), be16([]int{0, 0x409, 0x407, 0x8000}[rg.Intn(4)]), be16(rg.Intn(7)), be16(l), be16(off))
	}
	if format == 1 {
		k := rg.Intn(4)
		langs = be16(k)
		for i := 0; i < k; i++ {
			off, l := str(3)
			langs = cat(langs, be16(l), be16(off))
		}
	}
	gap := rbytes(rg, rg.Intn(4))
	return cat(be16(format), be16(n), be16(6+12*n+len(langs)+len(gap)), recs, langs, gap, storage)
}

func synPost(rg *rand.Rand, ng, version int) []byte {
	if version == 0 {
		version = []int{0x10000, 0x20000, 0x20000, 0x25000, 0x25000, 0x30000, 0x40000}[rg.Intn(7)]
	}
	if version == 0x10000 && ng != 258 {
		version = 0x20000
	}
	h := cat(be32(version), be32(r32(rg)), be16(r16(rg)), be16(r16(rg)), be32(r32(rg)), be32(r32(rg)), be32(r32(rg)), be32(r32(rg)), be32(r32(rg)))
	switch version {
	case 0x20000:
		h = cat(h, be16(ng))
		var strs []byte
		idx := make([]int, ng)
		var custom []int
		for i := range idx {
			switch rg.Intn(5) {
			case 0, 1:
				idx[i] = rg.Intn(258)
			case 2:
				if rg.Intn(4) == 0 {
					idx[i] = 32768 + rg.Intn(32768)
				} else {
					idx[i] = []int{0, 257, 256, 1}[rg.Intn(4)]
				}
			default:
				custom = append(custom, i)
			}
		}
		perm := rg.Perm(len(custom))
		for k, i := range custom {
			idx[i] = 258 + perm[k]
		}
		for range custom {
			l := 1 + rg.Intn(12)
			if rg.Intn(15) == 0 {
				l = []int{255, 127, 128, 200}[rg.Intn(4)]
			}
			nm := make([]byte, l)
			for j := range nm {
				nm[j] = byte('a' + rg.Intn(26))
			}
			strs = append(strs, byte(l))
			strs = append(strs, nm...)
		}
		for _, v := range idx {
			h = cat(h, be16(v))
		}
		h = cat(h, strs)
	case 0x25000:
		h = cat(h, be16(ng))
		for i := 0; i < ng; i++ {
			h = append(h, byte(rg.Intn(256)))
		}
	}
	return h
}

func synOS2(rg *rand.Rand) []byte {
	v := rg.Intn(6)
	if rg.Intn(4) == 0 {
		v = 5 + rg.Intn(6) // later versions keep the layout of version 5
	}
	n := 78
	switch {
	case v == 0:
		n = 78
	case v == 1:
		n = 86
	case v < 5:
		n = 96
	default:
		n = 100
	}
	var b []byte
	for len(b) < n {
		b = cat(b, be16(r16(rg)))
	}
	b = b[:n]
	copy(b, be16(v))
	return b
}

// synFont builds a random well-formed font.
func synFont(rg *rand.Rand, o synOpt) []byte {
	mg := o.maxGlyphs
	if mg == 0 {
		mg = 40
	}
	ng := 1 + rg.Intn(mg)
	switch rg.Intn(12) {
	case 0:
		ng = 1
	case 1:
		ng = 2
	case 2, 3:
		ng = 258
	}
	if o.postVersion == 0x10000 {
		ng = 258
	}
	short := rg.Intn(2) == 0 && !o.long
	var tabs []synTab
	add := func(tag string, d []byte) { tabs = append(tabs, synTab{tag, d}) }

	locfmt := 1
	if short {
		locfmt = 0
	}
	add("head", cat(be16(r16(rg)), be16(r16(rg)), be32(r32(rg)), be32(0), be32(0x5F0F3CF5), be16(r16(rg)), be16(r16(rg)),
		be32(r32(rg)), be32(r32(rg)), be32(r32(rg)), be32(r32(rg)), be16(r16(rg)), be16(r16(rg)), be16(r16(rg)), be16(r16(rg)),
		be16(r16(rg)), be16(r16(rg)), be16(r16(rg)), be16(locfmt), be16(r16(rg))))
	mx := cat(be32(0x10000), be16(ng))
	for i := 0; i < 13; i++ {
		mx = cat(mx, be16(r16(rg)))
	}
	add("maxp", mx)

	nm := 1 + rg.Intn(ng)
	switch rg.Intn(6) {
	case 0:
		nm = ng
	case 1:
		nm = 1
	case 2:
		nm = ng
		if rg.Intn(4) == 0 {
			nm = ng + rg.Intn(3)
		}
	}
	if rg.Intn(25) == 0 {
		nm = 0
	}
	hh := cat(be16(1), be16(r16(rg)))
	for i := 0; i < 10; i++ {
		hh = cat(hh, be16(r16(rg)))
	}
	hh = cat(hh, be16(0), be16(0), be16(0), be16(0), be16(r16(rg)), be16(nm))
	add("hhea", hh)
	if rg.Intn(15) != 0 {
		var hm []byte
		w := r16(rg)
		for i := 0; i < nm; i++ {
			if rg.Intn(3) == 0 {
				w = r16(rg)
			}
			if i > nm/2 && rg.Intn(8) != 0 && i > 0 {
				w = u16(hm, 4*i-4)
			}
			hm = cat(hm, be16(w), be16(r16(rg)))
		}
		for i := nm; i < ng; i++ {
			hm = cat(hm, be16(r16(rg)))
		}
		add("hmtx", hm)
	}

	// glyphs
	var glyf, loca []byte
	if rg.Intn(6) == 0 {
		glyf = rbytes(rg, 2*(1+rg.Intn(6))) // first glyph not at the start
	}
	put := func() {
		if short {
			loca = cat(loca, be16(len(glyf)/2))
		} else {
			loca = cat(loca, be32(len(glyf)))
		}
	}
	put()
	for i := 0; i < ng; i++ {
		g := synGlyph(rg, ng, o.deep)
		if short && len(g)%2 == 1 {
			g = append(g, byte(rg.Intn(256)))
		}
		glyf = append(glyf, g...)
		put()
	}
	if rg.Intn(4) == 0 {
		glyf = append(glyf, rbytes(rg, 2*rg.Intn(4))...)
	}
	add("loca", loca)
	add("glyf", glyf)

	if !o.noCmap && (o.cmaps != nil || rg.Intn(8) != 0) {
		add("cmap", synCmap(rg, ng, o))
	}
	if rg.Intn(8) != 0 {
		add("name", synName(rg))
	}
	if o.postVersion != 0 || rg.Intn(8) != 0 {
		add("post", synPost(rg, ng, o.postVersion))
	}
	if rg.Intn(6) != 0 {
		add("OS/2", synOS2(rg))
	}
	if rg.Intn(3) != 0 {
		add("cvt ", rbytes(rg, rawLen(rg, o, 25)))
	}
	if rg.Intn(3) != 0 {
		add("fpgm", rbytes(rg, rawLen(rg, o, 25)))
	}
	if rg.Intn(3) != 0 {
		add("prep", rbytes(rg, rawLen(rg, o, 25)))
	}
	if rg.Intn(3) == 0 {
		add("GPOS", rbytes(rg, rg.Intn(25)))
	}
	return assembleFont(rg, tabs)
}

// assembleFont lays the tables out and fills in all checksums.
func assembleFont(rg *rand.Rand, tabs []synTab) []byte {
	n := len(tabs)
	dirOrder := make([]int, n)
	for i := range dirOrder {
		dirOrder[i] = i
	}
	if rg.Intn(2) == 0 {
		sort.Slice(dirOrder, func(a, b int) bool { return tabs[dirOrder[a]].tag < tabs[dirOrder[b]].tag })
	} else {
		rg.Shuffle(n, func(a, b int) { dirOrder[a], dirOrder[b] = dirOrder[b], dirOrder[a] })
	}
	offs := make([]int, n)
	body := []byte{}
	base := 12 + 16*n
	style := rg.Intn(3)
	for _, k := range rg.Perm(n) {
		offs[k] = base + len(body)
		body = append(body, tabs[k].data...)
		switch style {
		case 0:
			for len(body)%4 != 0 {
				body = append(body, 0)
			}
		case 1:
			for rg.Intn(3) == 0 {
				body = append(body, byte(rg.Intn(256)))
			}
		}
	}
	sr, es := 16, 0
	for sr*2 <= 16*n {
		sr *= 2
		es++
	}
	ver := []int{0x00010000, 0x74727565, r32(rg)}[rg.Intn(3)]
	out := cat(be32(ver), be16(n), be16(sr), be16(es), be16(16*n-sr))
	for _, k := range dirOrder {
		out = cat(out, []byte(tabs[k].tag), be32(0), be32(offs[k]), be32(len(tabs[k].data)))
	}
	out = append(out, body...)
	fixSums(out)
	return out
}

// fixSums recomputes all checksums of a file in place.
func fixSums(b []byte) {
	f, err := oOpen(b)
	if err != nil {
		return
	}
	h, ok := f.tab["head"]
	if ok && int(h.off)+12 <= len(b) {
		copy(b[h.off+8:], []byte{0, 0, 0, 0})
	}
	for i, r := range f.recs {
		if int(r.off)+int(r.len) <= len(b) {
			copy(b[12+16*i+4:], be32(int(oSum(b[r.off:int(r.off)+int(r.len)]))))
		}
	}
	if ok && int(h.off)+12 <= len(b) {
		copy(b[h.off+8:], be32(int(0xB1B0AFBA-oSum(b))))
	}
}

// mutate changes a few fields of a font, preferring structural ones.
func mutate(rg *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	n := 1 + rg.Intn(4)
	for i := 0; i < n && len(b) > 0; i++ {
		p := rg.Intn(len(b))
		switch rg.Intn(3) {
		case 0:
			if d := 12 + 16*16; len(b) > d {
				p = rg.Intn(d)
			}
		case 1:
			if f, err := oOpen(b); err == nil && len(f.recs) > 0 {
				r := f.recs[rg.Intn(len(f.recs))]
				l := int(r.len)
				if l > 64 && rg.Intn(2) == 0 {
					l = 64
				}
				if l > 0 && int(r.off)+l <= len(b) {
					p = int(r.off) + rg.Intn(l)
					if rg.Intn(2) == 0 {
						p &^= 1
						if int(r.off)%2 == 1 {
							p++
						}
					}
				}
			}
		}
		switch rg.Intn(5) {
		case 0:
			if p < len(b) {
				b[p] ^= 1 << uint(rg.Intn(8))
			}
		case 1:
			if p < len(b) {
				b[p] = byte(rg.Intn(256))
			}
		case 2, 3:
			if p+2 <= len(b) {
				copy(b[p:], be16(r16(rg)))
			}
		case 4:
			if p+4 <= len(b) {
				copy(b[p:], be32([]int{0, 1, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, len(b), len(b) - 1, rg.Intn(len(b) + 1)}[rg.Intn(8)]))
			}
		}
	}
	switch rg.Intn(12) {
	case 0:
		b = b[:rg.Intn(len(b)+1)]
	case 1:
		fixSums(b)
	case 2:
		// drop a table record by renaming it
		if f, err := oOpen(b); err == nil && len(f.recs) > 0 {
			copy(b[12+16*rg.Intn(len(f.recs)):], []byte{byte('a' + rg.Intn(26)), 'x'})
		}
	case 3:
		// two records for one table, or a table moved onto another
		if f, err := oOpen(b); err == nil && len(f.recs) > 1 {
			i, j := rg.Intn(len(f.recs)), rg.Intn(len(f.recs))
			w := []int{4, 12, 8}[rg.Intn(3)]
			copy(b[12+16*i:12+16*i+w], append([]byte{}, b[12+16*j:12+16*j+w]...))
		}
	}
	return b
}
