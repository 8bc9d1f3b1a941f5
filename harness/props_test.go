package unitype_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
	"unsafe"

	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/internal/strutils"
)

type gid = unitype.GlyphIndex

// cs is one case.
type cs struct {
	rg     *rand.Rand
	data   []byte // the font
	desc   []string
	triv   bool // nothing of interest was exercised
	isReal bool
}

func (c *cs) say(f string, a ...interface{}) { c.desc = append(c.desc, fmt.Sprintf(f, a...)) }

func (c *cs) parse() (*unitype.Font, error) {
	f, err := unitype.Parse(bytes.NewReader(c.data))
	if err == nil && f == nil {
		return nil, fmt.Errorf("Parse returned neither a font nor an error")
	}
	if err != nil && f != nil {
		return nil, fmt.Errorf("Parse returned a font and an error")
	}
	return f, err
}

func write(f *unitype.Font) ([]byte, error) {
	var b bytes.Buffer
	err := f.Write(&b)
	return b.Bytes(), err
}

func reparse(f *unitype.Font) (*unitype.Font, []byte, error) {
	b, err := write(f)
	if err != nil {
		return nil, nil, fmt.Errorf("writing: %v", err)
	}
	g, err := unitype.Parse(bytes.NewReader(b))
	if err != nil {
		return nil, b, fmt.Errorf("parsing the written font: %v", err)
	}
	return g, b, nil
}

func (c *cs) gids(n int) []gid {
	k := c.rg.Intn(6)
	var out []gid
	for i := 0; i < k; i++ {
		switch c.rg.Intn(8) {
		case 0:
			out = append(out, gid(n-1))
		case 1:
			if c.rg.Intn(4) == 0 {
				out = append(out, gid(n+c.rg.Intn(5)))
			}
		default:
			out = append(out, gid(c.rg.Intn(n)))
		}
	}
	if len(out) > 0 && c.rg.Intn(3) == 0 {
		out = append(out, out[0])
	}
	return out
}

func (c *cs) runes(o *oFont) []rune {
	var out []rune
	ms, _ := o.cmaps()
	for i := c.rg.Intn(8); i >= 0; i-- {
		if len(ms) > 0 && c.rg.Intn(4) != 0 {
			m := ms[c.rg.Intn(len(ms))]
			if len(m.order) > 0 {
				if r, ok := oRune(m.plat, m.enc, m.order[c.rg.Intn(len(m.order))]); ok {
					out = append(out, r)
					continue
				}
			}
		}
		out = append(out, []rune{0, 'A', 'z', -1, 0xFFFD, 0x10FFFF, 0x110000, 0x4E00, rune(c.rg.Intn(0x3000))}[c.rg.Intn(9)])
	}
	return out
}

// valid parses a well-formed font; failing to is a failure of the property.
func (c *cs) valid() (*unitype.Font, *oFont, error) {
	f, err := c.parse()
	if err != nil {
		return nil, nil, fmt.Errorf("a well-formed font does not parse: %v", err)
	}
	o, err := oOpen(c.data)
	if err != nil {
		return nil, nil, err
	}
	return f, o, nil
}

var allTables = []string{"head", "maxp", "hhea", "hmtx", "loca", "glyf", "prep", "cvt", "fpgm", "name", "OS/2", "post", "cmap"}

// ---- C01

func useEverything(c *cs, f *unitype.Font, o *oFont, depth int) {
	n := 1
	if o != nil && o.numGlyphs() > 0 {
		n = o.numGlyphs()
	}
	if o == nil {
		o = &oFont{}
	}
	for i := 0; i < 6; i++ {
		switch c.rg.Intn(12) {
		case 0:
			f.LookupRunes(c.runes(o))
		case 1:
			for p := -1; p < 5; p++ {
				for e := 0; e < 12; e++ {
					f.GetCmap(p, e)
				}
			}
		case 2:
			f.GetNameByID(c.rg.Intn(30) - 1)
			f.GetNameRecords()
		case 3:
			for _, t := range []string{"trec", "head", "os2", "hhea", "hmtx", "cmap", "loca", "name", "glyf", "post", "none"} {
				_ = f.TableInfo(t)
			}
			_ = f.String()
		case 4, 5, 6:
			var s *unitype.Font
			var err error
			switch c.rg.Intn(3) {
			case 0:
				s, err = f.SubsetKeepIndices(c.gids(n))
			case 1:
				s, err = f.SubsetKeepRunes(c.runes(o))
			default:
				s, err = f.SubsetFirst([]int{-1, 0, 1, n - 1, n, n + 1, 65535, 65536, 1 << 40, -1 << 40, c.rg.Intn(n + 1)}[c.rg.Intn(11)])
			}
			if err == nil && depth < 3 {
				useEverything(c, s, o, depth+1)
			}
		case 7:
			_ = f.Optimize()
		case 8:
			_ = f.PruneTables([]string{"cmap", "post", "name", "glyf", "", "head"}[c.rg.Intn(6)])
		case 9, 10:
			_, _ = write(f)
		case 11:
			_, _, _ = f.GetGlyphDataOffset(gid(c.rg.Intn(65536)))
			_, _, _ = f.Subset(nil)
		}
	}
}

func propC01(c *cs) error {
	switch c.rg.Intn(10) {
	case 0:
		c.data = rbytes(c.rg, c.rg.Intn(400))
	case 1, 2:
	default:
		c.data = mutate(c.rg, c.data)
		if c.rg.Intn(3) == 0 {
			hostile(c)
		}
	}
	_ = unitype.ValidateBytes(c.data)
	f, err := c.parse()
	if err != nil {
		if f != nil {
			return err
		}
		return nil
	}
	o, _ := oOpen(c.data)
	useEverything(c, f, o, 0)
	return nil
}

// hostile rewrites one table with contents that fit the parser's expectations but not its assumptions.
func hostile(c *cs) {
	f, err := oOpen(c.data)
	if err != nil {
		return
	}
	rg := c.rg
	set := func(tag string, d []byte) {
		for i, r := range f.recs {
			if strings.TrimSpace(r.tag) == tag {
				copy(c.data[12+16*i+8:], cat(be32(len(c.data)), be32(len(d))))
				c.data = append(c.data, d...)
				return
			}
		}
	}
	ng := f.numGlyphs()
	if ng < 1 {
		ng = 1
	}
	switch rg.Intn(8) {
	case 0: // a segment that ends at 0xFFFF before the last one
		a := 0xFFFF - rg.Intn(3)
		g := 1 + rg.Intn(ng)
		sub := cat(be16(4), be16(32), be16(0), be16(4), be16(4), be16(1), be16(0), be16(0xFFFF), be16(0xFFFF), be16(0), be16(a), be16(0xFFFF), be16(g-a), be16(1), be16(0), be16(0))
		set("cmap", cat(be16(0), be16(1), be16(3), be16(1), be32(12), sub))
	case 1: // groups at the end of the code space
		st := []int{0xFFFFFFFF, 0xFFFFFFFE, 0x10FFFF, 0}[rg.Intn(4)]
		sub := cat(be16(12), be16(0), be32(28), be32(0), be32(1), be32(st), be32(0xFFFFFFFF), be32([]int{0, ng - 1, ng, 0x10000, 0xFFFFFFFF}[rg.Intn(5)]))
		set("cmap", cat(be16(0), be16(1), be16(3), be16(10), be32(12), sub))
	case 2: // fmt 4 with range offsets pointing anywhere
		sub := cat(be16(4), be16(r16(rg)), be16(0), be16(r16(rg)&7), be16(4), be16(1), be16(0), rbytes(rg, 60))
		set("cmap", cat(be16(0), be16(1), be16(3), be16(1), be32(12), sub))
	case 3:
		set("post", cat(be32([]int{0x10000, 0x20000, 0x25000}[rg.Intn(3)]), rbytes(rg, 28), be16(ng), rbytes(rg, rg.Intn(600))))
	case 4:
		set("name", cat(be16(rg.Intn(2)), be16(rg.Intn(4)), be16(rg.Intn(80)), rbytes(rg, rg.Intn(90))))
	case 5:
		set("loca", rbytes(rg, 4*(ng+1)))
	case 6: // self-referring and mutually referring composites
		gl := []byte{}
		loc := be32(0)
		for i := 0; i < ng; i++ {
			g := cat(be16(0xFFFF), rbytes(rg, 8), be16(0x20|rg.Intn(2)), be16((i+1)%ng), be32(rg.Intn(9)), be16(rg.Intn(512)), be16(i), rbytes(rg, 14))
			gl = append(gl, g...)
			loc = cat(loc, be32(len(gl)))
		}
		set("glyf", gl)
		set("loca", loc)
		if h, ok := f.tab["head"]; ok && int(h.off)+52 <= len(c.data) {
			copy(c.data[h.off+50:], be16(1))
		}
	case 7:
		set("hmtx", rbytes(rg, rg.Intn(40)))
	}
}

// ---- histories used by several properties

// derive applies random subsetting, optimising and pruning; pruned lists the tables taken away.
func derive(c *cs, f *unitype.Font, n int, o *oFont) (*unitype.Font, int, error) {
	for i := c.rg.Intn(4); i > 0; i-- {
		switch c.rg.Intn(5) {
		case 0:
			g := c.gids(n)
			c.say("SubsetKeepIndices(%v)", g)
			s, err := f.SubsetKeepIndices(g)
			if err != nil {
				return nil, 0, fmt.Errorf("SubsetKeepIndices: %v", err)
			}
			f = s
		case 1:
			k := c.rg.Intn(n + 2)
			c.say("SubsetFirst(%d)", k)
			s, err := f.SubsetFirst(k)
			if err != nil {
				return nil, 0, fmt.Errorf("SubsetFirst: %v", err)
			}
			f = s
		case 2:
			c.say("Optimize")
			if err := f.Optimize(); err != nil {
				return nil, 0, err
			}
		case 3:
			t := []string{"cmap", "post", "name"}[c.rg.Intn(3)]
			c.say("PruneTables(%s)", t)
			if err := f.PruneTables(t); err != nil {
				return nil, 0, err
			}
		case 4:
			c.say("Write")
			if _, err := write(f); err != nil {
				return nil, 0, fmt.Errorf("writing: %v", err)
			}
		}
	}
	return f, n, nil
}

// composites well-formed: subsetting may not fail
func sound(o *oFont) bool {
	gs, err := o.glyphs()
	if err != nil {
		return false
	}
	for _, g := range gs {
		if _, ok := oComponents(g); !ok {
			return false
		}
	}
	return true
}

// ---- C02

func propC02(c *cs) error {
	if c.rg.Intn(4) == 0 && !c.isReal { // fonts that parse though they are not well-formed
		c.data = mutate(c.rg, c.data)
		f, err := c.parse()
		if err != nil {
			c.triv = true
			return nil
		}
		for k := 0; k < 2; k++ {
			b, err := write(f)
			if err != nil {
				c.triv = true
				return nil
			}
			w, err := oOpen(b)
			if err != nil {
				return fmt.Errorf("written file: %v", err)
			}
			if err := w.oContainer(); err != nil {
				return fmt.Errorf("written file %d: %v", k+1, err)
			}
		}
		return nil
	}
	f, o, err := c.valid()
	if err != nil {
		return err
	}
	if f, _, err = derive(c, f, o.numGlyphs(), o); err != nil {
		return err
	}
	for k := 0; k < 2; k++ {
		b, err := write(f)
		if err != nil {
			return fmt.Errorf("writing: %v", err)
		}
		w, err := oOpen(b)
		if err != nil {
			return fmt.Errorf("written file: %v", err)
		}
		if err := w.oContainer(); err != nil {
			return fmt.Errorf("written file: %v", err)
		}
		for _, r := range w.recs {
			t := strings.TrimSpace(r.tag)
			if !o.has(t) {
				return fmt.Errorf("written file has a table %q that the source lacks", r.tag)
			}
			if pad := (t + "    ")[:4]; pad != r.tag {
				return fmt.Errorf("tag %q is not padded with spaces", r.tag)
			}
			d := w.data(t)
			ok := true
			switch t {
			case "head":
				ok = len(d) == 54 && u32(d, 12) == 0x5F0F3CF5
			case "maxp":
				ok = len(d) == 32 && bytes.Equal(d[6:], o.at("maxp")[6:32])
			case "hhea":
				ok = len(d) == 36 && bytes.Equal(d[:24], o.at("hhea")[:24])
			case "OS/2":
				ok = len(d) >= 78 && bytes.Equal(d[:78], o.at("OS/2")[:78])
			case "cvt", "fpgm", "prep":
				s := o.data(t)
				if t == "cvt" {
					s = s[:len(s)&^1]
				}
				ok = bytes.Equal(d, s)
			case "post":
				ok = len(d) >= 32 && bytes.Equal(d[4:32], o.data(t)[4:32])
			case "loca":
				l, e := w.loca()
				ok = e == nil && l[len(l)-1] == len(w.data("glyf"))
			case "hmtx":
				nn := u16(w.at("hhea"), 34)
				ok = len(d) >= 4*nn
			case "cmap":
				_, ok = w.cmaps()
			case "name":
				_, _, _, ok = w.names()
			}
			if !ok {
				return fmt.Errorf("the data of table %q (%d bytes at %d) is not a %s table", r.tag, r.len, r.off, t)
			}
		}
		for _, t := range []string{"head", "maxp", "hhea", "loca"} {
			if !w.has(t) {
				return fmt.Errorf("written file lacks %s", t)
			}
		}
		if err := unitype.ValidateBytes(b); err != nil {
			return fmt.Errorf("validation of the written file: %v", err)
		}
	}
	return nil
}

// ---- C03

func propC03(c *cs) error {
	rg := c.rg
	o, err := oOpen(c.data)
	if err != nil {
		return err
	}
	for k := rg.Intn(3); k > 0; k-- {
		r := o.recs[rg.Intn(len(o.recs))]
		switch rg.Intn(6) {
		case 0, 1: // a byte of a table
			if r.len > 0 {
				p := int(r.off) + rg.Intn(int(r.len))
				if rg.Intn(3) == 0 {
					p = int(r.off+r.len) - 1
				}
				c.data[p] ^= 1 << uint(rg.Intn(8))
				c.say("flip a bit of byte %d (table %q)", p, r.tag)
			}
		case 2: // a recorded checksum
			i := rg.Intn(len(o.recs))
			c.data[12+16*i+4+rg.Intn(4)] ^= 1 << uint(rg.Intn(8))
			c.say("flip a bit of the checksum of %q", o.recs[i].tag)
		case 3: // the adjustment
			c.data[int(o.tab["head"].off)+8+rg.Intn(4)] ^= 1 << uint(rg.Intn(8))
			c.say("flip a bit of the adjustment")
		case 4: // two changes that cancel in the sum
			if r.len >= 8 {
				a := int(r.off) + 4*rg.Intn(int(r.len)/4)
				b := int(r.off) + 4*rg.Intn(int(r.len)/4)
				if a != b && c.data[a+3] < 255 && c.data[b+3] > 0 && (r.tag != "head" || (a-int(r.off) != 8 && b-int(r.off) != 8)) {
					c.data[a+3]++
					c.data[b+3]--
					c.say("move 1 from byte %d to %d", b+3, a+3)
				}
			}
		case 5: // repair some of the sums
			switch rg.Intn(3) {
			case 0:
				fixSums(c.data)
				c.say("fix all checksums")
			case 1:
				h := o.tab["head"]
				copy(c.data[h.off+8:], []byte{0, 0, 0, 0})
				copy(c.data[h.off+8:], be32(int(0xB1B0AFBA-oSum(c.data))))
				c.say("fix the adjustment")
			default: // a record that reaches beyond the end, with a matching sum over what is there
				i := rg.Intn(len(o.recs))
				t := strings.TrimSpace(o.recs[i].tag)
				if t != "cvt" && t != "fpgm" && t != "prep" {
					copy(c.data[12+16*i+12:], be32(len(c.data)-int(o.recs[i].off)+1+rg.Intn(3)))
					copy(c.data[12+16*i+4:], be32(int(oSum(c.data[o.recs[i].off:]))))
					h := o.tab["head"]
					copy(c.data[h.off+8:], []byte{0, 0, 0, 0})
					copy(c.data[h.off+8:], be32(int(0xB1B0AFBA-oSum(c.data))))
					c.say("let %q reach beyond the file", t)
				}
			}
		}
	}
	o, err = oOpen(c.data)
	if err != nil {
		return nil
	}
	_, perr := c.parse()
	verr := unitype.ValidateBytes(c.data)
	want := o.oChecks()
	if perr != nil {
		if verr == nil {
			return fmt.Errorf("validation accepts a file that does not parse (%v)", perr)
		}
		return nil
	}
	if want == nil && verr != nil {
		return fmt.Errorf("validation rejects a file whose checksums are all right: %v", verr)
	}
	if want != nil && verr == nil {
		return fmt.Errorf("validation accepts a file although %v", want)
	}
	return nil
}

// ---- C04

type fld struct {
	name string
	off  int
	kind string
}

var layouts = map[string][]fld{
	"head": {{"majorVersion", 0, "u16"}, {"minorVersion", 2, "u16"}, {"fontRevision", 4, "i32"}, {"checksumAdjustment", 8, "u32"}, {"magicNumber", 12, "u32"},
		{"flags", 16, "u16"}, {"unitsPerEm", 18, "u16"}, {"created", 20, "i64"}, {"modified", 28, "i64"}, {"xMin", 36, "i16"}, {"yMin", 38, "i16"},
		{"xMax", 40, "i16"}, {"yMax", 42, "i16"}, {"macStyle", 44, "u16"}, {"lowestRecPPEM", 46, "u16"}, {"fontDirectionHint", 48, "i16"},
		{"indexToLocFormat", 50, "i16"}, {"glyphDataFormat", 52, "i16"}},
	"maxp": {{"version", 0, "i32"}, {"numGlyphs", 4, "u16"}, {"maxPoints", 6, "u16"}, {"maxContours", 8, "u16"}, {"maxCompositePoints", 10, "u16"},
		{"maxCompositeContours", 12, "u16"}, {"maxZones", 14, "u16"}, {"maxTwilightPoints", 16, "u16"}, {"maxStorage", 18, "u16"},
		{"maxFunctionDefs", 20, "u16"}, {"maxInstructionDefs", 22, "u16"}, {"maxStackElements", 24, "u16"}, {"maxSizeOfInstructions", 26, "u16"},
		{"maxComponentElements", 28, "u16"}, {"maxComponentDepth", 30, "u16"}},
	"hhea": {{"majorVersion", 0, "u16"}, {"minorVersion", 2, "u16"}, {"ascender", 4, "i16"}, {"descender", 6, "i16"}, {"lineGap", 8, "i16"},
		{"advanceWidthMax", 10, "u16"}, {"minLeftSideBearing", 12, "i16"}, {"minRightSideBearing", 14, "i16"}, {"xMaxExtent", 16, "i16"},
		{"caretSlopeRise", 18, "i16"}, {"caretSlopeRun", 20, "i16"}, {"caretOffset", 22, "i16"}, {"metricDataFormat", 32, "i16"}, {"numberOfHMetrics", 34, "u16"}},
	"os2": {{"version", 0, "u16"}, {"xAvgCharWidth", 2, "i16"}, {"usWeightClass", 4, "u16"}, {"usWidthClass", 6, "u16"}, {"fsType", 8, "u16"},
		{"ySubscriptXSize", 10, "i16"}, {"ySubscriptYSize", 12, "i16"}, {"ySubscriptXOffset", 14, "i16"}, {"ySubscriptYOffset", 16, "i16"},
		{"ySuperscriptXSize", 18, "i16"}, {"ySuperscriptYSize", 20, "i16"}, {"ySuperscriptXOffset", 22, "i16"}, {"ySuperscriptYOffset", 24, "i16"},
		{"yStrikeoutSize", 26, "i16"}, {"yStrikeoutPosition", 28, "i16"}, {"sFamilyClass", 30, "i16"}, {"ulUnicodeRange1", 42, "u32"},
		{"ulUnicodeRange2", 46, "u32"}, {"ulUnicodeRange3", 50, "u32"}, {"ulUnicodeRange4", 54, "u32"}, {"fsSelection", 62, "u16"},
		{"usFirstCharIndex", 64, "u16"}, {"usLastCharIndex", 66, "u16"}, {"sTypoAscender", 68, "i16"}, {"sTypoDescender", 70, "i16"},
		{"sTypoLineGap", 72, "i16"}, {"usWinAscent", 74, "u16"}, {"usWinDescent", 76, "u16"}, {"ulCodePageRange1", 78, "u32"}, {"ulCodePageRange2", 82, "u32"},
		{"sxHeight", 86, "i16"}, {"sCapHeight", 88, "i16"}, {"usDefaultChar", 90, "u16"}, {"usBreakChar", 92, "u16"}, {"usMaxContext", 94, "u16"},
		{"usLowerOpticalPointSize", 96, "u16"}, {"usUpperOpticalPointSize", 98, "u16"}},
	"post": {{"italicAngle", 4, "i32"}, {"underlinePosition", 8, "i16"}, {"underlineThickness", 10, "i16"}, {"isFixedPitch", 12, "u32"},
		{"minMemType42", 16, "u32"}, {"maxMemType42", 20, "u32"}, {"minMemType1", 24, "u32"}, {"maxMemType1", 28, "u32"}},
	"ot": {{"sfntVersion", 0, "u32"}, {"numTables", 4, "u16"}, {"searchRange", 6, "u16"}, {"entrySelector", 8, "u16"}, {"rangeShift", 10, "u16"}},
}

func val(d []byte, f fld) (v int64, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	switch f.kind {
	case "u16":
		return int64(u16(d, f.off)), true
	case "i16":
		return int64(i16(d, f.off)), true
	case "u32":
		return int64(u32(d, f.off)), true
	case "i32":
		return int64(int32(u32(d, f.off))), true
	case "i64":
		return int64(uint64(u32(d, f.off))<<32 | uint64(u32(d, f.off+4))), true
	}
	return 0, false
}

// inner finds an unexported structure of the font by name.
func inner(f *unitype.Font, name string) (v reflect.Value, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	v = reflect.ValueOf(f).Elem().FieldByName("font")
	v = v.Elem().FieldByName(name)
	if !v.IsValid() {
		return v, false
	}
	v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	return v, true
}

// fieldsMatch compares the fields of a decoded table with their bytes (fields the structure does not have are skipped).
func fieldsMatch(f *unitype.Font, table string, d []byte, have int) error {
	v, ok := inner(f, table)
	if !ok || v.Kind() != reflect.Ptr {
		return nil
	}
	if v.IsNil() {
		return fmt.Errorf("table %s is not decoded", table)
	}
	v = v.Elem()
	for _, l := range layouts[table] {
		w := map[string]int{"u16": 2, "i16": 2, "u32": 4, "i32": 4, "i64": 8}[l.kind]
		want, ok := val(d, l)
		if !ok || l.off+w > have {
			want = 0
		}
		x := v.FieldByName(l.name)
		if !x.IsValid() {
			continue
		}
		var got int64
		switch x.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			got = x.Int()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			got = int64(x.Uint())
		default:
			continue
		}
		if got != want {
			return fmt.Errorf("%s.%s is %d, the file says %d", table, l.name, got, want)
		}
	}
	return nil
}

func os2Len(v int) int {
	switch {
	case v == 0:
		return 78
	case v == 1:
		return 86
	case v < 5:
		return 96
	}
	return 100
}

func propC04(c *cs) error {
	f, o, err := c.valid()
	if err != nil {
		return err
	}
	if err := fieldsMatch(f, "ot", c.data, 12); err != nil {
		return err
	}
	for _, t := range []string{"head", "maxp", "hhea"} {
		if err := fieldsMatch(f, t, o.at(t), 1000); err != nil {
			return err
		}
	}
	ol := 0
	if o.has("OS/2") {
		ol = os2Len(u16(o.at("OS/2"), 0))
		if err := fieldsMatch(f, "os2", o.at("OS/2"), ol); err != nil {
			return err
		}
	}
	if tr, ok := inner(f, "trec"); ok && tr.Kind() == reflect.Ptr && !tr.IsNil() {
		if l := tr.Elem().FieldByName("list"); l.IsValid() && l.Kind() == reflect.Slice {
			if l.Len() != len(o.recs) {
				return fmt.Errorf("%d table records decoded, the file has %d", l.Len(), len(o.recs))
			}
			for i := 0; i < l.Len(); i++ {
				x := l.Index(i).Elem()
				for n, want := range map[string]uint32{"checksum": o.recs[i].sum, "offset": o.recs[i].off, "length": o.recs[i].len} {
					if y := x.FieldByName(n); y.IsValid() && y.Uint() != uint64(want) {
						return fmt.Errorf("record %d: %s is %d, the file says %d", i, n, y.Uint(), want)
					}
				}
				if y := x.FieldByName("tableTag"); y.IsValid() && y.Kind() == reflect.Array {
					var s []byte
					for k := 0; k < y.Len(); k++ {
						s = append(s, byte(y.Index(k).Uint()))
					}
					if string(s) != o.recs[i].tag {
						return fmt.Errorf("record %d: tag %q, the file says %q", i, s, o.recs[i].tag)
					}
				}
			}
		}
	}
	b, err := write(f)
	if err != nil {
		return fmt.Errorf("writing: %v", err)
	}
	w, err := oOpen(b)
	if err != nil {
		return err
	}
	if !bytes.Equal(b[:4], c.data[:4]) {
		return fmt.Errorf("sfnt version %x written as %x", c.data[:4], b[:4])
	}
	eq := func(t string, n int, mask ...[2]int) error {
		if !o.has(t) {
			if w.has(t) {
				return fmt.Errorf("%s appears from nowhere", t)
			}
			return nil
		}
		x, y := append([]byte{}, o.at(t)[:n]...), append([]byte{}, w.data(t)...)
		if len(y) != n {
			return fmt.Errorf("%s written with %d bytes instead of %d", t, len(y), n)
		}
		for _, m := range mask {
			for i := m[0]; i < m[1]; i++ {
				x[i], y[i] = 0, 0
			}
		}
		for i := range x {
			if x[i] != y[i] {
				return fmt.Errorf("byte %d of %s is %#x in the file and written as %#x", i, t, x[i], y[i])
			}
		}
		return nil
	}
	if err := eq("head", 54, [2]int{8, 12}); err != nil {
		return err
	}
	if err := eq("maxp", 32); err != nil {
		return err
	}
	if err := eq("hhea", 36, [2]int{24, 32}); err != nil {
		return err
	}
	if err := eq("OS/2", ol); err != nil {
		return err
	}
	return nil
}

// ---- C05

func rawTables(o, w *oFont, in string) error {
	for _, t := range []string{"cvt", "fpgm", "prep"} {
		if o.has(t) != w.has(t) {
			return fmt.Errorf("%s present %v in the source, %v in %s", t, o.has(t), w.has(t), in)
		}
		s := o.data(t)
		if t == "cvt" {
			s = s[:len(s)&^1]
		}
		if !bytes.Equal(s, w.data(t)) {
			return fmt.Errorf("%s is %x in the source and %x in %s", t, s, w.data(t), in)
		}
	}
	return nil
}

func propC05(c *cs) error {
	f, o, err := c.valid()
	if err != nil {
		return err
	}
	s, _, err := derive(c, f, o.numGlyphs(), o)
	if err != nil {
		return err
	}
	for i, x := range []*unitype.Font{s, f} {
		b, err := write(x)
		if err != nil {
			return fmt.Errorf("writing: %v", err)
		}
		w, err := oOpen(b)
		if err != nil {
			return err
		}
		if err := rawTables(o, w, []string{"the derived font", "the font"}[i]); err != nil {
			return err
		}
		g, err := unitype.Parse(bytes.NewReader(b))
		if err != nil {
			return fmt.Errorf("parsing the written font: %v", err)
		}
		b2, err := write(g)
		if err != nil {
			return err
		}
		w2, err := oOpen(b2)
		if err != nil {
			return err
		}
		if err := rawTables(o, w2, "the font written again"); err != nil {
			return err
		}
	}
	c.triv = !o.has("cvt") && !o.has("fpgm") && !o.has("prep")
	return nil
}

// ---- C06

func propC06(c *cs) error {
	f, o, err := c.valid()
	if err != nil {
		return err
	}
	l, err := o.loca()
	if err != nil {
		return err
	}
	n := o.numGlyphs()
	for g := 0; g < n; g++ {
		off, ln, err := f.GetGlyphDataOffset(gid(g))
		if err != nil || off != int64(l[g]) || ln != int64(l[g+1]-l[g]) {
			return fmt.Errorf("glyph %d: GetGlyphDataOffset gives %d, %d, %v; loca says %d, %d", g, off, ln, err, l[g], l[g+1]-l[g])
		}
	}
	for _, g := range []int{n, n + 1, 65535} {
		if g <= 65535 {
			if _, _, err := f.GetGlyphDataOffset(gid(g)); err == nil {
				return fmt.Errorf("GetGlyphDataOffset accepts glyph %d of %d", g, n)
			}
		}
	}
	if !o.has("glyf") {
		c.triv = true
		return nil
	}
	b, err := write(f)
	if err != nil {
		return fmt.Errorf("writing: %v", err)
	}
	return sameOutlines(o, b, n, nil)
}

// sameOutlines compares the outlines of a written font with those of the source.
func sameOutlines(o *oFont, b []byte, n int, keep map[int]bool) error {
	w, err := oOpen(b)
	if err != nil {
		return err
	}
	if w.numGlyphs() != n {
		return fmt.Errorf("the written font has %d glyphs instead of %d", w.numGlyphs(), n)
	}
	gs, err := o.glyphs()
	if err != nil {
		return err
	}
	wl, err := w.loca()
	if err != nil {
		return fmt.Errorf("written font: %v", err)
	}
	if ls := len(w.data("loca")); u16(w.at("head"), 50) == 0 && ls != 2*(n+1) || u16(w.at("head"), 50) != 0 && ls != 4*(n+1) {
		return fmt.Errorf("written loca has %d bytes for %d glyphs", ls, n)
	}
	if wl[0] != 0 || wl[n] != len(w.data("glyf")) {
		return fmt.Errorf("written loca runs from %d to %d, glyf has %d bytes", wl[0], wl[n], len(w.data("glyf")))
	}
	for g := 0; g < n; g++ {
		d, err := w.glyph(wl, g)
		if err != nil {
			return fmt.Errorf("written font: %v", err)
		}
		var want []byte
		if keep == nil || keep[g] {
			want = gs[g]
		}
		if !bytes.Equal(d, want) {
			return fmt.Errorf("glyph %d: outline %x, expected %x", g, d, want)
		}
	}
	return nil
}

// ---- C07

func metricsKept(o *oFont, b []byte, upto int) error {
	w, err := oOpen(b)
	if err != nil {
		return err
	}
	if !o.has("hmtx") {
		if w.has("hmtx") {
			return fmt.Errorf("hmtx appears from nowhere")
		}
		return nil
	}
	if !w.has("hmtx") {
		return fmt.Errorf("hmtx is gone")
	}
	nh, n := u16(w.at("hhea"), 34), w.numGlyphs()
	ln := len(w.data("hmtx"))
	rest := n - nh
	if rest < 0 {
		rest = 0
	}
	okLen := ln == 4*nh+2*rest
	if onh, on := u16(o.at("hhea"), 34), o.numGlyphs(); onh > on && ln > 4*nh+2*rest {
		// the source has more full records than glyphs: those folded into bearings may all be kept
		okLen = (ln-4*nh)%2 == 0 && nh+(ln-4*nh)/2 <= onh
	}
	if !okLen {
		return fmt.Errorf("hmtx has %d bytes, hhea announces %d full records and maxp %d glyphs", ln, nh, n)
	}
	for g := 0; g < n && g < upto; g++ {
		a, l, ha, hl := o.metric(g)
		a2, l2, ha2, hl2 := w.metric(g)
		if ha && (!ha2 || a != a2) {
			return fmt.Errorf("glyph %d: advance width %d became %d (present %v)", g, a, a2, ha2)
		}
		if hl && (!hl2 || l != l2) {
			return fmt.Errorf("glyph %d: left side bearing %d became %d (present %v)", g, l, l2, hl2)
		}
	}
	return nil
}

func propC07(c *cs) error {
	f, o, err := c.valid()
	if err != nil {
		return err
	}
	c.triv = !o.has("hmtx")
	s, _, err := derive(c, f, o.numGlyphs(), o)
	if err != nil {
		return err
	}
	if c.rg.Intn(2) == 0 {
		c.say("Optimize")
		if err := s.Optimize(); err != nil {
			return err
		}
	}
	b, err := write(s)
	if err != nil {
		return fmt.Errorf("writing: %v", err)
	}
	if err := metricsKept(o, b, 1<<20); err != nil {
		return err
	}
	g, b2, err := reparse(s)
	if err != nil {
		return err
	}
	_ = g.Optimize()
	if b2, err = write(g); err != nil {
		return err
	}
	return metricsKept(o, b2, 1<<20)
}

// ---- C08

func propC08(c *cs) error {
	f, o, err := c.valid()
	if err != nil {
		return err
	}
	n := o.numGlyphs()
	gs, err := o.glyphs()
	if err != nil {
		return err
	}
	var want []int
	var s *unitype.Font
	if c.rg.Intn(3) == 0 {
		rs := c.runes(o)
		c.say("SubsetKeepRunes(%v)", rs)
		exp, ok := oLookup(o, rs)
		if !ok {
			c.triv = true
			return nil
		}
		want = exp
		s, err = f.SubsetKeepRunes(rs)
	} else {
		ids := c.gids(n)
		if len(ids) == 0 {
			ids = append(ids, gid(c.rg.Intn(n)))
		}
		c.say("SubsetKeepIndices(%v)", ids)
		for _, g := range ids {
			want = append(want, int(g))
		}
		s, err = f.SubsetKeepIndices(ids)
	}
	in, ok := oClosure(gs, want)
	if !ok {
		c.triv = true
		return nil
	}
	if err != nil {
		return fmt.Errorf("subsetting: %v", err)
	}
	max := 0
	for g := range in {
		if g > max {
			max = g
		}
	}
	if max+1 < n {
		n = max + 1
	}
	b, err := write(s)
	if err != nil {
		return fmt.Errorf("writing the subset: %v", err)
	}
	if err := sameOutlines(o, b, n, in); err != nil {
		return fmt.Errorf("%v (kept: %v)", err, in)
	}
	c.triv = len(in) == len(want)
	return nil
}

// oLookup gives the expected answer of a rune lookup.
func oLookup(o *oFont, rs []rune) ([]int, bool) {
	var ms []*oCmap
	if o.has("cmap") {
		var ok bool
		if ms, ok = o.cmaps(); !ok {
			return nil, false
		}
	}
	var out []int
	for _, r := range rs {
		g := 0
	search:
		for _, k := range [][2]int{{3, 1}, {1, 0}, {0, 3}, {3, 10}} {
			for _, m := range ms {
				if m.plat == k[0] && m.enc == k[1] {
					if x, ok := m.runes[r]; ok {
						g = x
						break search
					}
					break // only the first with this platform and encoding
				}
			}
		}
		out = append(out, g)
	}
	return out, true
}

// ---- C09

var glyphNamesRe = regexp.MustCompile(`post glyphNames: (\d+)`)

func propC09(c *cs) error {
	f, o, err := c.valid()
	if err != nil {
		return err
	}
	n := o.numGlyphs()
	if _, err := f.SubsetFirst(-1 - c.rg.Intn(70000)); err == nil {
		return fmt.Errorf("SubsetFirst of a negative number succeeds")
	}
	k := c.rg.Intn(n + 3)
	switch c.rg.Intn(5) {
	case 0:
		k = n - 1
	case 1:
		k = u16(o.at("hhea"), 34) - 1 + c.rg.Intn(3)
		if k < 0 {
			k = 0
		}
	case 2:
		k = n + c.rg.Intn(3)*65536
	}
	c.say("SubsetFirst(%d) of %d", k, n)
	s, err := f.SubsetFirst(k)
	if err != nil {
		return fmt.Errorf("SubsetFirst(%d): %v", k, err)
	}
	if k > n {
		k = n
	}
	if k < n {
		if m := glyphNamesRe.FindStringSubmatch(s.TableInfo("post")); m != nil {
			if x, _ := strconv.Atoi(m[1]); x > k {
				return fmt.Errorf("%d glyph names for %d glyphs", x, k)
			}
		}
	}
	for g := 0; g < k; g++ {
		if _, _, err := s.GetGlyphDataOffset(gid(g)); err != nil {
			return fmt.Errorf("GetGlyphDataOffset(%d) of the subset: %v", g, err)
		}
	}
	if k <= 65535 {
		if _, _, err := s.GetGlyphDataOffset(gid(k)); err == nil {
			return fmt.Errorf("GetGlyphDataOffset(%d) of the subset succeeds", k)
		}
	}
	g, b, err := reparse(s)
	if err != nil {
		return err
	}
	_ = g
	w, err := oOpen(b)
	if err != nil {
		return err
	}
	if w.numGlyphs() != k {
		return fmt.Errorf("the written subset announces %d glyphs instead of %d", w.numGlyphs(), k)
	}
	if o.has("glyf") {
		if err := sameOutlines(o, b, k, nil); err != nil {
			return err
		}
	}
	if nh := u16(w.at("hhea"), 34); k < n && nh > k {
		return fmt.Errorf("%d metric records for %d glyphs", nh, k)
	}
	if err := metricsKept(o, b, k); err != nil {
		return err
	}
	if o.has("post") {
		if nm, ok := w.glyphNames(); !ok || nm != nil && len(nm) != k {
			return fmt.Errorf("post table of the subset names %d glyphs of %d (readable: %v)", len(nm), k, ok)
		}
	}
	return nil
}

// ---- C10

func firstCmaps(ms []*oCmap) (out []*oCmap) {
	seen := map[[2]int]bool{}
	for _, m := range ms {
		k := [2]int{m.plat, m.enc}
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, m)
	}
	return
}

func sameMap(got map[rune]gid, want map[rune]int) error {
	for r, g := range want {
		if x, ok := got[r]; !ok || int(x) != g {
			return fmt.Errorf("%U should map to %d, maps to %d (present: %v)", r, g, x, ok)
		}
	}
	for r, g := range got {
		if _, ok := want[r]; !ok {
			return fmt.Errorf("%U should not be mapped, maps to %d", r, g)
		}
	}
	return nil
}

func propC10(c *cs) error {
	f, o, err := c.valid()
	if err != nil {
		return err
	}
	if !o.has("cmap") {
		c.triv = true
		return nil
	}
	ms, ok := o.cmaps()
	if !ok {
		return fmt.Errorf("oracle cannot read the cmap table")
	}
	g, b, err := reparse(f)
	if err != nil {
		return err
	}
	w, err := oOpen(b)
	if err != nil {
		return err
	}
	wms, ok := w.cmaps()
	if !ok || len(wms) != len(ms) {
		return fmt.Errorf("the written cmap table has %d readable subtables instead of %d", len(wms), len(ms))
	}
	for i, m := range ms {
		x := wms[i]
		if x.plat != m.plat || x.enc != m.enc || x.format != m.format || !reflect.DeepEqual(x.order, m.order) || !reflect.DeepEqual(x.gids, m.gids) {
			return fmt.Errorf("subtable %d (%d,%d format %d) is written differently: (%d,%d format %d)", i, m.plat, m.enc, m.format, x.plat, x.enc, x.format)
		}
	}
	c.triv = true
	for _, m := range firstCmaps(ms) {
		if !m.known {
			if f.GetCmap(m.plat, m.enc) == nil {
				return fmt.Errorf("cmap (%d,%d) of format %d is missing", m.plat, m.enc, m.format)
			}
			continue
		}
		c.triv = c.triv && len(m.order) == 0
		for i, x := range []*unitype.Font{f, g} {
			got := x.GetCmap(m.plat, m.enc)
			if got == nil {
				return fmt.Errorf("cmap (%d,%d) of format %d is missing", m.plat, m.enc, m.format)
			}
			if err := sameMap(got, m.runes); err != nil {
				return fmt.Errorf("cmap (%d,%d) of format %d %s: %v", m.plat, m.enc, m.format, []string{"", "after writing"}[i], err)
			}
		}
	}
	return nil
}

// ---- C11

func propC11(c *cs) error {
	f, o, err := c.valid()
	if err != nil {
		return err
	}
	ms, ok := o.cmaps()
	if !ok || len(ms) == 0 {
		c.triv = true
		return nil
	}
	n := o.numGlyphs()
	k := c.rg.Intn(n + 1)
	c.say("SubsetFirst(%d) of %d", k, n)
	s, err := f.SubsetFirst(k)
	if err != nil {
		return fmt.Errorf("SubsetFirst: %v", err)
	}
	g, _, err := reparse(s)
	if err != nil {
		return err
	}
	c.triv = true
	for _, m := range firstCmaps(ms) {
		if !m.known || !m.increasing || !m.distinct {
			continue
		}
		for i, x := range []*unitype.Font{s, g} {
			got := x.GetCmap(m.plat, m.enc)
			where := fmt.Sprintf("cmap (%d,%d) of format %d limited to %d glyphs%s", m.plat, m.enc, m.format, k, []string{"", ", written and parsed"}[i])
			if got == nil {
				return fmt.Errorf("%s is missing", where)
			}
			for r, gg := range m.runes {
				if gg > 0 && gg < k {
					c.triv = false
					if y, ok := got[r]; !ok || int(y) != gg {
						return fmt.Errorf("%s: %U should map to %d, maps to %d (present: %v)", where, r, gg, y, ok)
					}
				}
			}
			for r, y := range got {
				if int(y) >= k && !(k == n) && !(y == 0) {
					return fmt.Errorf("%s: %U maps to the removed glyph %d", where, r, y)
				}
				if y != 0 {
					if gg, ok := m.runes[r]; !ok || gg != int(y) {
						return fmt.Errorf("%s: %U maps to %d, to %d before (present: %v)", where, r, y, gg, ok)
					}
				}
			}
		}
	}
	return nil
}

// ---- C12

type snap struct {
	bytes   []byte
	werr    string
	cmaps   map[string]map[rune]gid
	names   map[uint16]map[uint16]string
	lookups []gid
	offs    []string
	info    string
}

func takeSnap(f *unitype.Font, rs []rune, n int, withWrite bool) snap {
	s := snap{cmaps: map[string]map[rune]gid{}}
	for p := 0; p < 5; p++ {
		for e := 0; e < 11; e++ {
			if m := f.GetCmap(p, e); m != nil {
				cp := map[rune]gid{}
				for k, v := range m {
					cp[k] = v
				}
				s.cmaps[fmt.Sprintf("%d,%d", p, e)] = cp
			}
		}
	}
	s.names = f.GetNameRecords()
	s.lookups = f.LookupRunes(rs)
	for g := 0; g <= n; g++ {
		a, b, err := f.GetGlyphDataOffset(gid(g))
		s.offs = append(s.offs, fmt.Sprint(a, b, err))
	}
	for _, t := range []string{"hhea", "hmtx", "loca", "glyf", "cmap"} {
		s.info += f.TableInfo(t)
	}
	if withWrite {
		b, err := write(f)
		s.bytes, s.werr = b, fmt.Sprint(err)
	}
	return s
}

func (a snap) diff(b snap) error {
	switch {
	case !reflect.DeepEqual(a.cmaps, b.cmaps):
		return fmt.Errorf("the character maps changed")
	case !reflect.DeepEqual(a.names, b.names):
		return fmt.Errorf("the names changed")
	case !reflect.DeepEqual(a.lookups, b.lookups):
		return fmt.Errorf("lookups changed")
	case !reflect.DeepEqual(a.offs, b.offs):
		return fmt.Errorf("outline locations changed")
	case a.info != b.info:
		return fmt.Errorf("the table summaries changed: %q became %q", a.info, b.info)
	case a.bytes != nil && b.bytes != nil && !bytes.Equal(a.bytes, b.bytes):
		return fmt.Errorf("writing it gives different bytes")
	case a.bytes != nil && b.bytes != nil && a.werr != b.werr:
		return fmt.Errorf("writing it gives %s instead of %s", b.werr, a.werr)
	}
	return nil
}

func propC12(c *cs) error {
	f, o, err := c.valid()
	if err != nil {
		return err
	}
	n := o.numGlyphs()
	rs := c.runes(o)
	twin, err := c.parse() // never derived from
	if err != nil {
		return err
	}
	ref := takeSnap(twin, rs, n, true)
	before := takeSnap(f, rs, n, c.rg.Intn(2) == 0)
	if err := ref.diff(before); err != nil {
		return fmt.Errorf("two fonts parsed from the same bytes: %v", err)
	}
	var subs []*unitype.Font
	for i := 1 + c.rg.Intn(4); i > 0; i-- {
		var s *unitype.Font
		switch c.rg.Intn(3) {
		case 0:
			k := c.rg.Intn(n)
			c.say("SubsetFirst(%d)", k)
			s, err = f.SubsetFirst(k)
		case 1:
			ids := c.gids(n)
			c.say("SubsetKeepIndices(%v)", ids)
			s, err = f.SubsetKeepIndices(ids)
		default:
			c.say("SubsetKeepRunes(%v)", rs)
			s, err = f.SubsetKeepRunes(rs)
		}
		if err != nil {
			return fmt.Errorf("deriving: %v", err)
		}
		subs = append(subs, s)
		if err := ref.diff(takeSnap(f, rs, n, c.rg.Intn(3) == 0)); err != nil {
			return fmt.Errorf("after deriving a subset, the source is different: %v", err)
		}
		t := subs[c.rg.Intn(len(subs))]
		for j := c.rg.Intn(4); j > 0; j-- {
			switch c.rg.Intn(4) {
			case 0:
				c.say("Optimize the subset")
				_ = t.Optimize()
			case 1:
				c.say("prune the subset")
				_ = t.PruneTables("cmap", "post", "name")
			case 2:
				c.say("write the subset")
				if _, err := write(t); err != nil {
					return fmt.Errorf("writing: %v", err)
				}
			case 3:
				c.say("derive from the subset")
				if _, err := t.SubsetFirst(c.rg.Intn(n)); err != nil {
					return fmt.Errorf("deriving: %v", err)
				}
			}
		}
		if err := ref.diff(takeSnap(f, rs, n, c.rg.Intn(3) == 0)); err != nil {
			return fmt.Errorf("after using a subset, the source is different: %v", err)
		}
	}
	if err := ref.diff(takeSnap(f, rs, n, true)); err != nil {
		return fmt.Errorf("at the end, the source is different: %v", err)
	}
	for i := 0; i < 2; i++ {
		if err := ref.diff(takeSnap(f, rs, n, true)); err != nil {
			return fmt.Errorf("written again, the source is different: %v", err)
		}
	}
	// subsets do not disturb each other either: each must write the same twice
	for _, s := range subs {
		a, e1 := write(s)
		b, e2 := write(s)
		if !bytes.Equal(a, b) || fmt.Sprint(e1) != fmt.Sprint(e2) {
			return fmt.Errorf("a subset written twice gives different bytes")
		}
	}
	return nil
}

// ---- C13

func propC13(c *cs) error {
	f, o, err := c.valid()
	if err != nil {
		return err
	}
	var ms []*oCmap
	if o.has("cmap") {
		var ok bool
		if ms, ok = o.cmaps(); !ok {
			return fmt.Errorf("oracle cannot read the cmap table")
		}
	}
	for k := 0; k < 3; k++ {
		rs := c.runes(o)
		if c.rg.Intn(8) == 0 {
			rs = nil
		}
		want, _ := oLookup(o, rs)
		got := f.LookupRunes(rs)
		if len(got) != len(rs) {
			return fmt.Errorf("LookupRunes(%v) gives %d indices", rs, len(got))
		}
		for i := range rs {
			if int(got[i]) != want[i] {
				return fmt.Errorf("LookupRunes(%v): %U gives %d instead of %d", rs, rs[i], got[i], want[i])
			}
		}
	}
	present := map[[2]int]*oCmap{}
	for _, m := range firstCmaps(ms) {
		present[[2]int{m.plat, m.enc}] = m
	}
	for p := 0; p < 9; p++ {
		for e := 0; e < 12; e++ {
			got := f.GetCmap(p, e)
			m := present[[2]int{p, e}]
			if m == nil {
				if got != nil {
					return fmt.Errorf("GetCmap(%d,%d) gives a map, the font has none", p, e)
				}
				continue
			}
			if got == nil {
				return fmt.Errorf("GetCmap(%d,%d) gives nothing", p, e)
			}
			if m.known {
				if err := sameMap(got, m.runes); err != nil {
					return fmt.Errorf("GetCmap(%d,%d): %v", p, e, err)
				}
			}
		}
	}
	c.triv = len(ms) < 2
	return nil
}

// ---- C14

func checkNames(f *unitype.Font, ns []oName) error {
	seen := map[int]bool{}
	last := map[[2]int]oName{}
	for _, x := range ns {
		last[[2]int{x.lang, x.id}] = x
		if seen[x.id] {
			continue
		}
		seen[x.id] = true
		if want, ok := x.text(); ok {
			if got := f.GetNameByID(x.id); got != want {
				return fmt.Errorf("name %d (platform %d, encoding %d, bytes %x) is %q, expected %q", x.id, x.plat, x.enc, x.data, got, want)
			}
		}
	}
	for id := 0; id < 9; id++ {
		if !seen[id] && f.GetNameByID(id) != "" {
			return fmt.Errorf("name %d does not exist but is %q", id, f.GetNameByID(id))
		}
	}
	rec := f.GetNameRecords()
	cnt := 0
	for _, m := range rec {
		cnt += len(m)
	}
	if cnt != len(last) {
		return fmt.Errorf("%d name entries listed, %d exist", cnt, len(last))
	}
	for k, x := range last {
		got, ok := rec[uint16(k[0])][uint16(k[1])]
		if !ok {
			return fmt.Errorf("name %d of language %d is not listed", k[1], k[0])
		}
		if want, ok := x.text(); ok && got != want {
			return fmt.Errorf("name %d of language %d is listed as %q, expected %q", k[1], k[0], got, want)
		}
	}
	return nil
}

func propC14(c *cs) error {
	f, o, err := c.valid()
	if err != nil {
		return err
	}
	if !o.has("name") {
		c.triv = true
		if f.GetNameByID(1) != "" || len(f.GetNameRecords()) != 0 {
			return fmt.Errorf("names without a name table")
		}
		return nil
	}
	format, ns, langs, ok := o.names()
	if !ok {
		return fmt.Errorf("oracle cannot read the name table")
	}
	if err := checkNames(f, ns); err != nil {
		return err
	}
	for k := 0; k < 2; k++ {
		g, b, err := reparse(f)
		if err != nil {
			return err
		}
		w, err := oOpen(b)
		if err != nil {
			return err
		}
		f2, ns2, langs2, ok := w.names()
		if !ok {
			return fmt.Errorf("the written name table cannot be read")
		}
		if f2 != format || len(ns2) != len(ns) || len(langs2) != len(langs) {
			return fmt.Errorf("format, records, language tags: %d, %d, %d became %d, %d, %d", format, len(ns), len(langs), f2, len(ns2), len(langs2))
		}
		for i := range ns {
			a, b := ns[i], ns2[i]
			if a.plat != b.plat || a.enc != b.enc || a.lang != b.lang || a.id != b.id || !bytes.Equal(a.data, b.data) {
				return fmt.Errorf("record %d: %v became %v", i, a, b)
			}
		}
		for i := range langs {
			if !bytes.Equal(langs[i], langs2[i]) {
				return fmt.Errorf("language tag %d: %x became %x", i, langs[i], langs2[i])
			}
		}
		if err := checkNames(g, ns); err != nil {
			return fmt.Errorf("after writing: %v", err)
		}
		f = g
	}
	return nil
}

// ---- C15

func propC15(c *cs) error {
	f, o, err := c.valid()
	if err != nil {
		return err
	}
	if !o.has("post") {
		c.triv = true
		return nil
	}
	d := o.at("post")
	names, ok := o.glyphNames()
	if !ok {
		return fmt.Errorf("oracle cannot read the post table")
	}
	check := func(f *unitype.Font, names []string, where string) error {
		if err := fieldsMatch(f, "post", d, 32); err != nil {
			return fmt.Errorf("%s%v", where, err)
		}
		if p, ok := inner(f, "post"); ok && p.Kind() == reflect.Ptr && !p.IsNil() {
			if g := p.Elem().FieldByName("glyphNames"); g.IsValid() && g.Kind() == reflect.Slice {
				if g.Len() != len(names) {
					return fmt.Errorf("%s%d glyph names instead of %d", where, g.Len(), len(names))
				}
				for i, n := range names {
					if g.Index(i).String() != n {
						return fmt.Errorf("%sglyph %d is named %q instead of %q", where, i, g.Index(i).String(), n)
					}
				}
			}
		}
		if m := glyphNamesRe.FindStringSubmatch(f.TableInfo("post")); m != nil && m[1] != fmt.Sprint(len(names)) {
			return fmt.Errorf("%s%s glyph names instead of %d", where, m[1], len(names))
		}
		return nil
	}
	if err := check(f, names, ""); err != nil {
		return err
	}
	g, b, err := reparse(f)
	if err != nil {
		return err
	}
	w, err := oOpen(b)
	if err != nil {
		return err
	}
	wd := w.data("post")
	if len(wd) < 32 || !bytes.Equal(wd[4:32], d[4:32]) {
		return fmt.Errorf("post header written as %x, was %x", wd, d[:32])
	}
	wn, ok := w.glyphNames()
	if !ok {
		return fmt.Errorf("the written post table (version %#x, %d bytes) is incomplete", u32(wd, 0), len(wd))
	}
	if v := u32(wd, 0); v == 0x10000 && (u32(d, 0) != 0x10000 || len(wd) != 32) {
		return fmt.Errorf("version %#x was written as version 1", u32(d, 0))
	}
	if u32(d, 0) == 0x10000 && u32(wd, 0) != 0x10000 {
		return fmt.Errorf("version 1 was written as version %#x", u32(wd, 0))
	}
	if wn != nil && !reflect.DeepEqual(wn, names) {
		return fmt.Errorf("written glyph names differ")
	}
	return check(g, wn, "after writing: ")
}

// ---- C16

func propC16(c *cs) error {
	rg := c.rg
	for k := 0; k < 20; k++ {
		b := rbytes(rg, rg.Intn(14))
		if rg.Intn(2) == 0 {
			for i := 0; i+1 < len(b); i += 2 {
				switch rg.Intn(3) {
				case 0:
					copy(b[i:], be16(0xD800+rg.Intn(0x400)))
				case 1:
					copy(b[i:], be16(0xDC00+rg.Intn(0x400)))
				}
			}
		}
		buf := append(append([]byte{}, b...), 0xAA, 0xBB, 0xCC)
		got := strutils.UTF16ToRunes(buf[:len(b)])
		if want := oUTF16(b); string(got) != string(want) || len(got) != len(want) {
			return fmt.Errorf("UTF16ToRunes(%x) = %U, expected %U", b, got, want)
		}
		if !bytes.Equal(buf, append(append([]byte{}, b...), 0xAA, 0xBB, 0xCC)) {
			return fmt.Errorf("UTF16ToRunes(%x) changed the caller's bytes", b)
		}
		if s := strutils.UTF16ToString(b); s != string(oUTF16(b)) {
			return fmt.Errorf("UTF16ToString(%x) = %q", b, s)
		}
		var rs []rune
		for i := rg.Intn(8); i > 0; i-- {
			r := rune(rg.Intn(0x110000))
			switch rg.Intn(4) {
			case 0:
				r = []rune{0, 0x7F, 0xFF, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0xFFFD}[rg.Intn(9)]
			case 1:
				r = rune(rg.Intn(256))
			case 2:
				r = []rune{0x2D8, 0x20AC, 0xFB01, 0x2022, 0x141, 0xAD, 0x9F, 0x2212}[rg.Intn(8)]
			}
			if r >= 0xD800 && r < 0xE000 {
				continue
			}
			rs = append(rs, r)
		}
		s := string(rs)
		e := strutils.StringToUTF16(s)
		if want := oUTF16Enc(rs); e != string(want) {
			return fmt.Errorf("StringToUTF16(%q) = %x, expected %x", s, e, want)
		}
		if d := strutils.UTF16ToString([]byte(e)); d != s {
			return fmt.Errorf("UTF-16: %q became %q", s, d)
		}
		// PDFDocEncoding
		p := rbytes(rg, rg.Intn(10))
		for i := range p {
			if p[i] == 0 || rg.Intn(2) == 0 {
				p[i] = byte(1 + rg.Intn(255))
			}
		}
		var want []rune
		for _, x := range p {
			if r, ok := oPDFDoc(x); ok {
				want = append(want, r)
			}
		}
		if got := strutils.PDFDocEncodingToRunes(p); string(got) != string(want) {
			return fmt.Errorf("PDFDocEncodingToRunes(%x) = %U, expected %U", p, got, want)
		}
		if got := strutils.PDFDocEncodingToString(p); got != string(want) {
			return fmt.Errorf("PDFDocEncodingToString(%x) = %q, expected %q", p, got, string(want))
		}
		var enc []byte
		for _, r := range rs {
			if x, ok := oPDFDocInv[r]; ok {
				enc = append(enc, x)
			}
		}
		if got := strutils.StringToPDFDocEncoding(s); !bytes.Equal(got, enc) && !(bytes.IndexByte(got, 0) >= 0) {
			return fmt.Errorf("StringToPDFDocEncoding(%q) = %x, expected %x", s, got, enc)
		}
	}
	// every byte and every character once
	for x := 1; x < 256; x++ {
		got := strutils.PDFDocEncodingToRunes([]byte{byte(x)})
		r, ok := oPDFDoc(byte(x))
		if ok != (len(got) == 1) || ok && got[0] != r {
			return fmt.Errorf("PDFDocEncoding byte %#x decodes to %U", x, got)
		}
	}
	for r := rune(1); r < 0x3000; r++ {
		got := strutils.StringToPDFDocEncoding(string(r))
		x, ok := oPDFDocInv[r]
		if ok != (len(got) == 1) || ok && got[0] != x {
			return fmt.Errorf("PDFDocEncoding of %U is %x", r, got)
		}
	}
	_ = utf8.RuneError
	return nil
}

var oPDFDocInv = func() map[rune]byte {
	m := map[rune]byte{}
	for i := 1; i < 256; i++ {
		if r, ok := oPDFDoc(byte(i)); ok {
			m[r] = byte(i)
		}
	}
	return m
}()

// oPDFDoc is PDF 32000-1:2008, table D.2.
func oPDFDoc(b byte) (rune, bool) {
	switch {
	case b >= 1 && b < 0x18, b >= 0x20 && b < 0x7F:
		return rune(b), true
	case b >= 0x18 && b < 0x20:
		return []rune{0x2D8, 0x2C7, 0x2C6, 0x2D9, 0x2DD, 0x2DB, 0x2DA, 0x2DC}[b-0x18], true
	case b >= 0x80 && b < 0x9F:
		return []rune{0x2022, 0x2020, 0x2021, 0x2026, 0x2014, 0x2013, 0x192, 0x2044, 0x2039, 0x203A, 0x2212, 0x2030, 0x201E, 0x201C, 0x201D, 0x2018,
			0x2019, 0x201A, 0x2122, 0xFB01, 0xFB02, 0x141, 0x152, 0x160, 0x178, 0x17D, 0x131, 0x142, 0x153, 0x161, 0x17E}[b-0x80], true
	case b == 0xA0:
		return 0x20AC, true
	case b > 0xA0 && b != 0xAD:
		return rune(b), true
	}
	return 0, false
}

// ---- C17

func propC17(c *cs) error {
	f, o, err := c.valid()
	if err != nil {
		return err
	}
	twin, err := c.parse()
	if err != nil {
		return err
	}
	ref, err := write(twin)
	if err != nil {
		return fmt.Errorf("writing: %v", err)
	}
	var list []string
	gone := map[string]bool{}
	for i := c.rg.Intn(5); i > 0; i-- {
		t := []string{"cmap", "post", "name", "cmap", "post", "name", "glyf", "head", "", "CMAP", "name ", "xyz", "hmtx"}[c.rg.Intn(13)]
		list = append(list, t)
		if t == "cmap" || t == "post" || t == "name" {
			gone[t] = true
		}
	}
	if c.rg.Intn(3) == 0 {
		c.say("Write")
		if _, err := write(f); err != nil {
			return err
		}
	}
	c.say("PruneTables(%q)", list)
	if c.rg.Intn(2) == 0 {
		err = f.PruneTables(list...)
	} else {
		for _, t := range list {
			if err = f.PruneTables(t); err != nil {
				break
			}
		}
	}
	if err != nil {
		return fmt.Errorf("PruneTables: %v", err)
	}
	b, err := write(f)
	if err != nil {
		return fmt.Errorf("writing: %v", err)
	}
	r, err := oOpen(ref)
	if err != nil {
		return err
	}
	w, err := oOpen(b)
	if err != nil {
		return err
	}
	for _, t := range allTables {
		if w.has(t) != (o.has(t) && !gone[t]) {
			return fmt.Errorf("after pruning %q, table %s present: %v", list, t, w.has(t))
		}
		x, y := append([]byte{}, r.data(t)...), append([]byte{}, w.data(t)...)
		if t == "head" {
			copy(x[8:12], []byte{0, 0, 0, 0})
			copy(y[8:12], []byte{0, 0, 0, 0})
		}
		if w.has(t) && !bytes.Equal(x, y) {
			return fmt.Errorf("after pruning %q, table %s is different", list, t)
		}
	}
	if gone["cmap"] && (f.GetCmap(3, 1) != nil || f.GetCmap(1, 0) != nil) {
		return fmt.Errorf("character maps survive pruning")
	}
	if gone["name"] && len(f.GetNameRecords()) != 0 {
		return fmt.Errorf("names survive pruning")
	}
	if !gone["cmap"] && o.has("cmap") {
		for _, k := range [][2]int{{3, 1}, {1, 0}, {0, 3}, {3, 10}} {
			if !reflect.DeepEqual(f.GetCmap(k[0], k[1]), twin.GetCmap(k[0], k[1])) {
				return fmt.Errorf("character map (%d,%d) changed by pruning %q", k[0], k[1], list)
			}
		}
	}
	if !gone["name"] && !reflect.DeepEqual(f.GetNameRecords(), twin.GetNameRecords()) {
		return fmt.Errorf("names changed by pruning %q", list)
	}
	c.triv = len(gone) == 0
	return nil
}

// ---- C18

var errInjected = errors.New("injected failure")

// faultReader fails after a number of bytes, or delivers bytes in small pieces.
type faultReader struct {
	b       []byte
	pos     int64
	left    int // bytes until the failure, -1 for never
	chunk   int
	seekErr int // fail at this seek, -1 for never
	seeks   int
	hit     bool
}

func (r *faultReader) Read(p []byte) (int, error) {
	if r.pos >= int64(len(r.b)) {
		return 0, io.EOF
	}
	if r.left == 0 {
		r.hit = true
		return 0, errInjected
	}
	if r.chunk > 0 && len(p) > r.chunk {
		p = p[:r.chunk]
	}
	if r.left > 0 && len(p) > r.left {
		p = p[:r.left]
	}
	n := copy(p, r.b[r.pos:])
	r.pos += int64(n)
	if r.left > 0 {
		r.left -= n
	}
	return n, nil
}

func (r *faultReader) Seek(o int64, w int) (int64, error) {
	r.seeks++
	if r.seekErr >= 0 && r.seeks > r.seekErr {
		r.hit = true
		return 0, errInjected
	}
	switch w {
	case io.SeekStart:
	case io.SeekCurrent:
		o += r.pos
	case io.SeekEnd:
		o += int64(len(r.b))
	}
	if o < 0 {
		return 0, errors.New("negative position")
	}
	r.pos = o
	return o, nil
}

type faultWriter struct {
	n     int // bytes accepted before failing
	short bool
	got   int
	hit   bool
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.got+len(p) > w.n {
		k := w.n - w.got
		if k < 0 {
			k = 0
		}
		w.got += k
		w.hit = true
		if w.short {
			return k, nil // io.ErrShortWrite situation
		}
		return k, errInjected
	}
	w.got += len(p)
	return len(p), nil
}

// neededEnd returns the offsets (in the file) that parsing must be able to read up to.
func neededEnd(o *oFont) (int, bool) {
	end := 12 + 16*len(o.recs)
	up := func(t string, n int) {
		if r, ok := o.tab[t]; ok && int(r.off)+n > end && n > 0 {
			end = int(r.off) + n
		}
	}
	up("head", 54)
	up("maxp", 32)
	up("hhea", 36)
	n := o.numGlyphs()
	nh := u16(o.at("hhea"), 34)
	if n > nh {
		up("hmtx", 4*nh+2*(n-nh))
	} else {
		up("hmtx", 4*nh)
	}
	if u16(o.at("head"), 50) == 0 {
		up("loca", 2*(n+1))
	} else {
		up("loca", 4*(n+1))
	}
	l, err := o.loca()
	if err != nil {
		return 0, false
	}
	for g := 0; g < n; g++ {
		if l[g+1] > l[g] {
			up("glyf", l[g+1])
		}
	}
	for _, t := range []string{"cvt", "fpgm", "prep"} {
		k := int(o.tab[t].len)
		if t == "cvt" {
			k &^= 1
		}
		up(t, k)
	}
	if o.has("OS/2") {
		up("OS/2", os2Len(u16(o.at("OS/2"), 0)))
	}
	if o.has("post") {
		up("post", 32)
		d := o.at("post")
		switch u32(d, 0) {
		case 0x20000:
			p := 34 + 2*n
			up("post", p)
			for i, k := 0, 0; i < n; i++ {
				if x := u16(d, 34+2*i); x >= 258 && x <= 32767 {
					if p >= len(d) {
						return 0, false
					}
					p += 1 + int(d[p])
					k++
				}
			}
			up("post", p)
		case 0x25000:
			up("post", 34+n)
		}
	}
	if o.has("name") {
		d := o.at("name")
		k := u16(d, 2)
		p := 6 + 12*k
		if u16(d, 0) == 1 {
			p += 2 + 4*u16(d, p)
		}
		up("name", p)
		for i := 0; i < k; i++ {
			if ln := u16(d, 6+12*i+8); ln > 0 {
				up("name", u16(d, 4)+u16(d, 6+12*i+10)+ln)
			}
		}
		if u16(d, 0) == 1 {
			q := 6 + 12*k
			for i := 0; i < u16(d, q); i++ {
				if ln := u16(d, q+2+4*i); ln > 0 {
					up("name", u16(d, 4)+u16(d, q+2+4*i+2)+ln)
				}
			}
		}
	}
	if o.has("cmap") {
		d := o.at("cmap")
		k := u16(d, 2)
		up("cmap", 4+8*k)
		for i := 0; i < k; i++ {
			off := u32(d, 4+8*i+4)
			s := d[off:]
			switch u16(s, 0) {
			case 0:
				up("cmap", off+262)
			case 4:
				up("cmap", off+u16(s, 2))
			case 6:
				up("cmap", off+10+2*u16(s, 8))
			case 12:
				up("cmap", off+16+12*u32(s, 12))
			default:
				up("cmap", off+2)
			}
		}
	}
	return end, true
}

func propC18(c *cs) error {
	rg := c.rg
	f, o, err := c.valid()
	if err != nil {
		return err
	}
	out, err := write(f)
	if err != nil {
		return fmt.Errorf("writing: %v", err)
	}
	end, ok := neededEnd(o)
	if !ok {
		return fmt.Errorf("oracle cannot tell what is needed")
	}
	// truncated files
	for k := 0; k < 6; k++ {
		cut := rg.Intn(end)
		switch rg.Intn(3) {
		case 0:
			cut = end - 1 - rg.Intn(4)
		case 1:
			r := o.recs[rg.Intn(len(o.recs))]
			cut = int(r.off) + rg.Intn(int(r.len)+1)
		}
		if cut < 0 || cut >= end {
			continue
		}
		g, err := unitype.Parse(bytes.NewReader(c.data[:cut]))
		if err == nil {
			return fmt.Errorf("the file truncated to %d bytes parses, %d are needed", cut, end)
		}
		if g != nil {
			return fmt.Errorf("the file truncated to %d bytes gives a font and an error", cut)
		}
		if unitype.ValidateBytes(c.data[:cut]) == nil {
			return fmt.Errorf("the file truncated to %d bytes validates", cut)
		}
	}
	// what is not needed may be missing
	if end < len(c.data) {
		if _, err := unitype.Parse(bytes.NewReader(c.data[:end])); err != nil {
			return fmt.Errorf("the first %d bytes are all that is needed, but do not parse: %v", end, err)
		}
	}
	// readers that fail or deliver little at a time
	for k := 0; k < 6; k++ {
		r := &faultReader{b: c.data, left: -1, seekErr: -1}
		switch rg.Intn(4) {
		case 0:
			r.seekErr = rg.Intn(12)
		case 1:
			r.chunk = 1 + rg.Intn(7)
			if len(c.data) > 100000 {
				r.chunk = 1000 + rg.Intn(3000)
			}
		case 2:
			r.left = rg.Intn(len(c.data) + 1)
		case 3:
			r.left = rg.Intn(len(c.data)*2 + 1)
			r.chunk = 1 + rg.Intn(200)
			if len(c.data) > 100000 {
				r.chunk += 1000
			}
		}
		g, err := unitype.Parse(r)
		if r.hit {
			// Read-ahead may swallow a failure that comes after everything that was needed.
			if err == nil {
				b, werr := write(g)
				if werr != nil || !bytes.Equal(b, out) {
					return fmt.Errorf("a failing reader (%+v) gives a different font without an error", struct{ left, chunk, seekErr int }{r.left, r.chunk, r.seekErr})
				}
			} else if g != nil {
				return fmt.Errorf("a failing reader gives a font and an error")
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("a reader that does not fail (chunk %d) gives %v", r.chunk, err)
		}
		b, werr := write(g)
		if werr != nil || !bytes.Equal(b, out) {
			return fmt.Errorf("a reader that delivers %d bytes at a time gives a different font", r.chunk)
		}
	}
	// writers that fail
	for k := 0; k < 6; k++ {
		n := rg.Intn(len(out))
		switch rg.Intn(3) {
		case 0:
			n = len(out) - 1
		case 1:
			n = rg.Intn(16)
			if n >= len(out) {
				n = 0
			}
		}
		w := &faultWriter{n: n, short: rg.Intn(2) == 0}
		if err := f.Write(w); err == nil {
			return fmt.Errorf("writing to a destination that takes %d of %d bytes (short count: %v) succeeds", n, len(out), w.short)
		}
	}
	w := &faultWriter{n: len(out)}
	if err := f.Write(w); err != nil || w.got != len(out) {
		return fmt.Errorf("writing to a destination with just enough room: %v (%d of %d bytes)", err, w.got, len(out))
	}
	return nil
}
