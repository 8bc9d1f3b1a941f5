// Hinting programs and control values: exactly the bytes of the table.

func (*font).parseCvt
  requires rd(r) && recok(f)
  modifies reader(r), r.reader
  ensures [C05] present: err == nil ==> (ret0 != nil) == hasTable(f, "cvt")
  ensures [C05] count: err == nil && ret0 != nil ==> fresh(ret0) && len(ret0.controlValues) == div(f.trec.trMap["cvt"].length, 2)
  ensures [C05] values: err == nil && ret0 != nil ==> forall(k, 0, len(ret0.controlValues), ret0.controlValues[k] == i16(r, tabOff(f, "cvt")+2*k))
  ensures [C18] whole: err == nil && ret0 != nil && len(ret0.controlValues) > 0 ==> tabOff(f, "cvt") + 2*len(ret0.controlValues) <= flen(r)
  ensures [C18] nothing: err != nil ==> ret0 == nil
  ensures rdsame(r)
  ensures err == nil ==> rd(r)

func (*font).parseFpgm
  requires rd(r) && recok(f)
  modifies reader(r), r.reader
  ensures [C05] present: err == nil ==> (ret0 != nil) == hasTable(f, "fpgm")
  ensures [C05] count: err == nil && ret0 != nil ==> fresh(ret0) && len(ret0.instructions) == f.trec.trMap["fpgm"].length
  ensures [C05] bytes: err == nil && ret0 != nil ==> forall(k, 0, len(ret0.instructions), ret0.instructions[k] == u8(r, tabOff(f, "fpgm")+k))
  ensures [C18] whole: err == nil && ret0 != nil && len(ret0.instructions) > 0 ==> tabOff(f, "fpgm") + len(ret0.instructions) <= flen(r)
  ensures [C18] nothing: err != nil ==> ret0 == nil
  ensures rdsame(r)
  ensures err == nil ==> rd(r)

func (*font).parsePrep
  requires rd(r) && recok(f)
  modifies reader(r), r.reader
  ensures [C05] present: err == nil ==> (ret0 != nil) == hasTable(f, "prep")
  ensures [C05] count: err == nil && ret0 != nil ==> fresh(ret0) && len(ret0.instructions) == f.trec.trMap["prep"].length
  ensures [C05] bytes: err == nil && ret0 != nil ==> forall(k, 0, len(ret0.instructions), ret0.instructions[k] == u8(r, tabOff(f, "prep")+k))
  ensures [C18] whole: err == nil && ret0 != nil && len(ret0.instructions) > 0 ==> tabOff(f, "prep") + len(ret0.instructions) <= flen(r)
  ensures [C18] nothing: err != nil ==> ret0 == nil
  ensures rdsame(r)
  ensures err == nil ==> rd(r)

func (*font).writeCvt
  modifies buffer(w), w.len
  ensures [C05] absent: f.cvt == nil ==> bl(w) == old(bl(w))
  ensures [C05] len: f.cvt != nil ==> bl(w) == old(bl(w)) + 2*len(f.cvt.controlValues)
  ensures [C05] values: f.cvt != nil ==> forall(k, 0, len(f.cvt.controlValues), b16(w, old(bl(w))+2*k) == u16(f.cvt.controlValues[k]))
  ensures kept(w)
  noerr

func (*font).writeFpgm
  modifies buffer(w), w.len
  ensures [C05] absent: f.fpgm == nil ==> bl(w) == old(bl(w))
  ensures [C05] len: f.fpgm != nil ==> bl(w) == old(bl(w)) + len(f.fpgm.instructions)
  ensures [C05] bytes: f.fpgm != nil ==> forall(k, 0, len(f.fpgm.instructions), b8(w, old(bl(w))+k) == f.fpgm.instructions[k])
  ensures kept(w)
  noerr

func (*font).writePrep
  modifies buffer(w), w.len
  ensures [C05] absent: f.prep == nil ==> bl(w) == old(bl(w))
  ensures [C05] len: f.prep != nil ==> bl(w) == old(bl(w)) + len(f.prep.instructions)
  ensures [C05] bytes: f.prep != nil ==> forall(k, 0, len(f.prep.instructions), b8(w, old(bl(w))+k) == f.prep.instructions[k])
  ensures kept(w)
  noerr

// Horizontal metrics.

def nHM(f) = f.hhea.numberOfHMetrics
def lsbN(f) = max(f.maxp.numGlyphs - f.hhea.numberOfHMetrics, 0)

func (*font).parseHmtx
  requires rd(r) && recok(f)
  modifies reader(r), r.reader
  inv len(t.hMetrics) == iter && pos(r) == tabOff(f, "hmtx") + 4*iter
  inv iter > 0 ==> pos(r) <= flen(r)
  inv forall(k, 0, len(t.hMetrics), t.hMetrics[k].advanceWidth == u16(r, tabOff(f, "hmtx")+4*k) && t.hMetrics[k].lsb == i16(r, tabOff(f, "hmtx")+4*k+2))
  ensures [C18] missing: f.maxp == nil || f.hhea == nil ==> err != nil
  ensures [C07] present: err == nil ==> (ret0 != nil) == hasTable(f, "hmtx")
  ensures [C07] count: err == nil && ret0 != nil ==> fresh(ret0) && len(ret0.hMetrics) == nHM(f) && len(ret0.leftSideBearings) == lsbN(f)
  ensures [C07] metrics: err == nil && ret0 != nil ==> forall(k, 0, len(ret0.hMetrics), ret0.hMetrics[k].advanceWidth == u16(r, tabOff(f, "hmtx")+4*k) && ret0.hMetrics[k].lsb == i16(r, tabOff(f, "hmtx")+4*k+2))
  ensures [C07] bearings: err == nil && ret0 != nil ==> forall(k, 0, len(ret0.leftSideBearings), ret0.leftSideBearings[k] == i16(r, tabOff(f, "hmtx")+4*nHM(f)+2*k))
  ensures [C18] nothing: err != nil ==> ret0 == nil
  ensures rdsame(r)
  ensures err == nil ==> rd(r)

func (*font).writeHmtx
  modifies buffer(w), w.len
  inv bl(w) == old(bl(w)) + 4*iter
  inv kept(w)
  inv forall(k, 0, iter, b16(w, old(bl(w))+4*k) == f.hmtx.hMetrics[k].advanceWidth && b16(w, old(bl(w))+4*k+2) == u16(f.hmtx.hMetrics[k].lsb))
  ensures [C07] absent: f.hmtx == nil || f.hhea == nil ==> bl(w) == old(bl(w))
  ensures [C07] len: f.hmtx != nil && f.hhea != nil ==> bl(w) == old(bl(w)) + 4*len(f.hmtx.hMetrics) + 2*len(f.hmtx.leftSideBearings)
  ensures [C07] metrics: f.hmtx != nil && f.hhea != nil ==> forall(k, 0, len(f.hmtx.hMetrics), b16(w, old(bl(w))+4*k) == f.hmtx.hMetrics[k].advanceWidth && b16(w, old(bl(w))+4*k+2) == u16(f.hmtx.hMetrics[k].lsb))
  ensures [C07] bearings: f.hmtx != nil && f.hhea != nil ==> forall(k, 0, len(f.hmtx.leftSideBearings), b16(w, old(bl(w))+4*len(f.hmtx.hMetrics)+2*k) == u16(f.hmtx.leftSideBearings[k]))
  ensures kept(w)
  noerr

// Advance width and left side bearing of glyph g as the table defines them.
def hasHmtx(f) = f.hmtx != nil && f.hhea != nil
def adv(m, g) = m.hMetrics[min(g, len(m.hMetrics)-1)].advanceWidth
def lsbOf(m, g) = ite(g < len(m.hMetrics), m.hMetrics[g].lsb, m.leftSideBearings[g-len(m.hMetrics)])

func (*font).optimizeHmtx
  modifies f.hmtx.hMetrics, f.hmtx.leftSideBearings, f.hhea.numberOfHMetrics
  requires f.hmtx != nil && f.hhea != nil ==> len(f.hmtx.hMetrics) <= 65535
  inv j < i && j >= 0-1
  inv forall(k, j+1, len(f.hmtx.hMetrics), f.hmtx.hMetrics[k].advanceWidth == lastWidth)
  inv len(lsbPrepend) == k-j-2 && k >= j+2 && k <= i+1
  inv forall(q, 0, len(lsbPrepend), lsbPrepend[q] == f.hmtx.hMetrics[j+2+q].lsb)
  ensures [C07] count: hasHmtx(f) ==> len(f.hmtx.hMetrics)+len(f.hmtx.leftSideBearings) == old(len(f.hmtx.hMetrics)+len(f.hmtx.leftSideBearings)) && len(f.hmtx.hMetrics) <= old(len(f.hmtx.hMetrics)) && (len(f.hmtx.hMetrics) > 0) == old(len(f.hmtx.hMetrics) > 0)
  ensures [C07] announced: hasHmtx(f) && old(len(f.hmtx.hMetrics)) == old(nHM(f)) ==> len(f.hmtx.hMetrics) == nHM(f)
  ensures [C07] announced2: hasHmtx(f) ==> len(f.hmtx.hMetrics) == nHM(f) || nHM(f) == old(nHM(f)) && len(f.hmtx.hMetrics) == old(len(f.hmtx.hMetrics))
  ensures [C07] width: hasHmtx(f) && len(f.hmtx.hMetrics) > 0 ==> forall(g, 0, len(f.hmtx.hMetrics)+len(f.hmtx.leftSideBearings), adv(f.hmtx, g) == old(adv(f.hmtx, g)))
  ensures [C07] bearing: hasHmtx(f) ==> forall(g, 0, len(f.hmtx.hMetrics)+len(f.hmtx.leftSideBearings), lsbOf(f.hmtx, g) == old(lsbOf(f.hmtx, g)))
