package unitype_test

import (
	"bytes"
	"encoding/binary"
	"sort"
	"testing"

	"github.com/unidoc/unitype"
)

func b16(vs ...int) []byte {
	var o []byte
	for _, v := range vs {
		o = append(o, byte(v>>8), byte(v))
	}
	return o
}
func b32(vs ...int) []byte {
	var o []byte
	for _, v := range vs {
		o = append(o, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	}
	return o
}
func cat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }
func g16(b []byte, p int) int { return int(binary.BigEndian.Uint16(b[p:])) }
func g32(b []byte, p int) int { return int(binary.BigEndian.Uint32(b[p:])) }
func sum(b []byte) uint32 {
	var s uint32
	for i := 0; i < len(b); i += 4 {
		var w [4]byte
		copy(w[:], b[i:])
		s += binary.BigEndian.Uint32(w[:])
	}
	return s
}

type tables map[string][]byte

// base is a font of the given glyph descriptions, long loca, one metric record per glyph.
func base(glyphs ...[]byte) tables {
	n := len(glyphs)
	t := tables{}
	t["head"] = cat(b32(0x10000, 0x20000, 0, 0x5F0F3CF5), b16(3, 1000), b32(1, 2, 3, 4), b16(-5, -6, 700, 800, 1, 9, 2, 1, 0))
	t["maxp"] = cat(b32(0x10000), b16(n, 1, 2, 3, 4, 1, 0, 7, 8, 9, 10, 11, 12, 13))
	t["hhea"] = cat(b32(0x10000), b16(800, -200, 90, 1000, -1, -2, 990, 1, 0, 0, 0, 0, 0, 0, 0, n))
	off := 0
	for i, g := range glyphs {
		t["hmtx"] = append(t["hmtx"], b16(500+10*i, i-3)...)
		t["loca"] = append(t["loca"], b32(off)...)
		t["glyf"] = append(t["glyf"], g...)
		off += len(g)
	}
	t["loca"] = append(t["loca"], b32(off)...)
	return t
}

// simple is a recognisable outline of one point; comp a composite of the components given as records.
func simple(k int) []byte { return cat(b16(1, 0, 0, 10, 10, 0, 0), []byte{0x31, byte(k)}) }
func comp(recs ...[]byte) []byte {
	return cat(b16(-1, 0, 0, 10, 10), cat(recs...))
}

func (t tables) with(tag string, b []byte) tables { t[tag] = b; return t }

func (t tables) file() []byte {
	var tags []string
	for k := range t {
		tags = append(tags, k)
	}
	sort.Strings(tags)
	dir := cat(b32(0x10000), b16(len(tags), 16, 0, 0))
	off := 12 + 16*len(tags)
	var body []byte
	head := 0
	for _, k := range tags {
		for len(body)%4 != 0 {
			body = append(body, 0)
		}
		name := []byte(k + "    ")[:4]
		if k == "head" {
			head = off + len(body)
			copy(t[k][8:], []byte{0, 0, 0, 0})
		}
		dir = cat(dir, name, b32(int(sum(t[k])), off+len(body), len(t[k])))
		body = append(body, t[k]...)
	}
	f := append(dir, body...)
	binary.BigEndian.PutUint32(f[head+8:], 0xB1B0AFBA-sum(f))
	return f
}

func parse(t *testing.T, b []byte) *unitype.Font {
	t.Helper()
	f, err := unitype.Parse(bytes.NewReader(b))
	if err != nil {
		t.Fatalf("parse: %v", err)
	}
	return f
}
func write(t *testing.T, f *unitype.Font) []byte {
	t.Helper()
	var w bytes.Buffer
	if err := f.Write(&w); err != nil {
		t.Fatalf("write: %v", err)
	}
	return w.Bytes()
}

// table returns the bytes of a table of a font file, nil when absent.
func table(b []byte, tag string) []byte {
	for i := 0; i < g16(b, 4); i++ {
		r := b[12+16*i:]
		if string(r[:4]) == (tag + "    ")[:4] {
			return b[g32(r, 8) : g32(r, 8)+g32(r, 12)]
		}
	}
	return nil
}
func glyph(b []byte, i int) []byte {
	l, g := table(b, "loca"), table(b, "glyf")
	if g16(table(b, "head"), 50) == 0 {
		return g[2*g16(l, 2*i) : 2*g16(l, 2*i+2)]
	}
	return g[g32(l, 4*i):g32(l, 4*i+4)]
}
