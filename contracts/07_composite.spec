// Composite glyph descriptions: component records of variable size after the 10 byte header.
def csize(fl) = 4 + ite(bit(fl,0), 4, 2) + ite(bit(fl,3), 2, ite(bit(fl,6), 4, ite(bit(fl,7), 8, 0)))

rec cpos(raw, k) = ite(k <= 0, 10, cpos(raw, k-1) + csize(d16(raw, cpos(raw, k-1))))
def compIs(c, raw, k) = c.flags == d16(raw, cpos(raw, k)) && c.glyphIndex == d16(raw, cpos(raw, k)+2)
def compOk(c, raw) = c != nil && len(c.components) >= 1 && forall(k, 0, len(c.components), compIs(c.components[k], raw, k) && (k < len(c.components)-1) == bit(c.components[k].flags, 5))
def parsedGlyph(g) = g.header == nil || len(g.raw) >= 10 && g.header.numberOfContours == signed16(d16(g.raw, 0)) && (g.header.numberOfContours >= 0 || compOk(g.composite, g.raw))
def onRaw(r, g) = flen(r) == len(g.raw) && forall(j, 0, len(g.raw), fbyte(r, j) == g.raw[j])

func (*glyphDescription).parseHeader
  requires rd(r) && pos(r) == 0 && onRaw(r, gd) && gd.header == nil
  modifies reader(r), gd.header
  ensures [C08] header: err == nil ==> gd.header != nil && fresh(gd.header) && len(gd.raw) >= 10 && gd.header.numberOfContours == signed16(d16(gd.raw, 0)) && pos(r) == 10
  ensures [C08] kept: err != nil ==> gd.header == nil
  ensures rd(r)

func (*glyphDescription).parseComposite
  decreases loop: flen(r) - pos(r)
  requires rd(r) && pos(r) == 10 && len(gd.raw) >= 10 && onRaw(r, gd) && reliable(r)
  modifies reader(r), gd.composite
  inv rd(r)
  inv pos(r) == cpos(gd.raw, len(composite.components)) && pos(r) >= 10 && pos(r) <= flen(r)
  inv forall(k, 0, len(composite.components), compIs(composite.components[k], gd.raw, k) && bit(composite.components[k].flags, 5))
  ensures [C08] components: err == nil ==> compOk(gd.composite, gd.raw)
  ensures rd(r)

func (*glyphDescription).parse
  requires parsedGlyph(gd)
  modifies gd.header, gd.composite
  ensures [C08] parsed: parsedGlyph(gd)
  ensures [C08] loaded: err == nil ==> gd.header != nil
  ensures [C08] failed: err != nil ==> gd.header == nil

func (glyphDescription).IsSimple
  ensures [C08] simple: gd.header != nil ==> ret0 == (gd.header.numberOfContours >= 0)

def parsedAll(t) = forall(k, 0, len(t.descs), t.descs[k] != nil && parsedGlyph(t.descs[k]))
func (*glyfTable).GetComponents
  timeout 30
  nilable glyf
  requires glyf != nil ==> parsedAll(glyf)
  modifies glyf.descs[gid].header, glyf.descs[gid].composite
  inv len(components) == iter
  inv forall(k, 0, iter, components[k] == gdesc.composite.components[k].glyphIndex)
  ensures [C08] outside: glyf == nil || gid >= len(glyf.descs) ==> err == nil && len(ret0) == 0
  ensures [C08] empty: glyf != nil && gid < len(glyf.descs) && len(glyf.descs[gid].raw) == 0 ==> err == nil && len(ret0) == 0
  ensures [C08] simple: err == nil && glyf != nil && gid < len(glyf.descs) && len(glyf.descs[gid].raw) > 0 && signed16(d16(glyf.descs[gid].raw, 0)) >= 0 ==> len(ret0) == 0
  ensures [C08] composite: err == nil && glyf != nil && gid < len(glyf.descs) && len(glyf.descs[gid].raw) > 0 && signed16(d16(glyf.descs[gid].raw, 0)) < 0 ==> len(ret0) >= 1
  ensures [C08] parts: err == nil && glyf != nil && gid < len(glyf.descs) && len(glyf.descs[gid].raw) > 0 && signed16(d16(glyf.descs[gid].raw, 0)) < 0 ==> forall(k, 0, len(ret0), ret0[k] == glyf.descs[gid].composite.components[k].glyphIndex && compIs(glyf.descs[gid].composite.components[k], glyf.descs[gid].raw, k))
  ensures [C08] last: err == nil && glyf != nil && gid < len(glyf.descs) && len(glyf.descs[gid].raw) > 0 && signed16(d16(glyf.descs[gid].raw, 0)) < 0 ==> forall(k, 0, len(ret0), (k < len(ret0)-1) == bit(glyf.descs[gid].composite.components[k].flags, 5))
  ensures [C08] parsed: glyf != nil ==> parsedAll(glyf)
