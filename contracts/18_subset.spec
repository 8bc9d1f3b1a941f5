// ---- Subsets.
def wfSubs(f) = f.cmap != nil ==> forall(k, 0, len(f.cmap.subtableKeys), has(f.cmap.subtables, f.cmap.subtableKeys[k]) && f.cmap.subtables[f.cmap.subtableKeys[k]] != nil)
func (*cmapSubtable).limitedTo
  given C, R
  inv @0 limited.cmap != nil && fresh(limited.cmap)
  inv @0 forallk(x, has(limited.cmap, x) ==> has(subt.cmap, x) && limited.cmap[x] == subt.cmap[x] && limited.cmap[x] < numGlyphs)
  inv @0 visited(R) && has(subt.cmap, R) && subt.cmap[R] < numGlyphs ==> has(limited.cmap, R)
  inv @1 forallk(x, has(limited.charcodeToGID, x) ==> has(subt.charcodeToGID, x) && limited.charcodeToGID[x] == subt.charcodeToGID[x] && limited.charcodeToGID[x] < numGlyphs)
  inv @1 visited(C) && has(subt.charcodeToGID, C) && subt.charcodeToGID[C] < numGlyphs ==> has(limited.charcodeToGID, C)
  ensures ret0 != nil && fresh(ret0) && fresh(ret0.cmap) && fresh(ret0.charcodeToGID)
  ensures ret0.ctx == subt.ctx && ret0.format == subt.format && ret0.platformID == subt.platformID && ret0.encodingID == subt.encodingID
  ensures [C11] lost: forallk(x, has(ret0.cmap, x) ==> has(subt.cmap, x) && ret0.cmap[x] == subt.cmap[x] && ret0.cmap[x] < numGlyphs)
  ensures [C11] kept: has(subt.cmap, R) && subt.cmap[R] < numGlyphs ==> has(ret0.cmap, R)
  ensures [C11] lostCode: forallk(x, has(ret0.charcodeToGID, x) ==> has(subt.charcodeToGID, x) && ret0.charcodeToGID[x] == subt.charcodeToGID[x] && ret0.charcodeToGID[x] < numGlyphs)
  ensures [C11] keptCode: has(subt.charcodeToGID, C) && subt.charcodeToGID[C] < numGlyphs ==> has(ret0.charcodeToGID, C)

def limits(d, s, n, C, R) = d != nil && fresh(d) && d.format == s.format && d.platformID == s.platformID && d.encodingID == s.encodingID && (has(d.charcodeToGID, C) == (has(s.charcodeToGID, C) && s.charcodeToGID[C] < n)) && (has(d.charcodeToGID, C) ==> d.charcodeToGID[C] == s.charcodeToGID[C]) && (has(d.cmap, R) == (has(s.cmap, R) && s.cmap[R] < n)) && (has(d.cmap, R) ==> d.cmap[R] == s.cmap[R])
func (*Font).SubsetFirst
  timeout 10
  given I, C, R
  requires f.font != nil && f.ot != nil && f.trec != nil && f.maxp != nil
  requires f.hmtx != nil && f.hhea != nil ==> len(f.hmtx.hMetrics) <= 65535
  requires f.glyf != nil && f.loca != nil ==> wfGlyf(f)
  requires wfSubs(f)
  let n = numGlyphs
  let sub = numGlyphs < f.maxp.numGlyphs
  let g = f.glyf != nil && f.loca != nil
  let cm = f.cmap
  inv @0 newfnt.loca != nil && fresh(newfnt.loca) && newfnt.glyf != nil && fresh(newfnt.glyf)
  inv @0 isShort ==> len(newfnt.loca.offsetsShort) == n + 1 && fresh(newfnt.loca.offsetsShort) && forall(k, 0, iter+1, newfnt.loca.offsetsShort[k] == f.loca.offsetsShort[k])
  inv @0 !isShort ==> len(newfnt.loca.offsetsLong) == n + 1 && fresh(newfnt.loca.offsetsLong) && forall(k, 0, iter+1, newfnt.loca.offsetsLong[k] == f.loca.offsetsLong[k])
  inv @1 newfnt.cmap != nil && fresh(newfnt.cmap) && newfnt.cmap.subtables != nil && fresh(newfnt.cmap.subtables) && len(newfnt.cmap.subtableKeys) == iter
  inv @1 [C11] keys: forall(k, 0, iter, newfnt.cmap.subtableKeys[k] == cm.subtableKeys[k])
  inv @1 [C11] limited: 0 <= I && I < iter ==> has(newfnt.cmap.subtables, cm.subtableKeys[I]) && limits(newfnt.cmap.subtables[cm.subtableKeys[I]], cm.subtables[cm.subtableKeys[I]], n, C, R)
  ensures [C09] all: !sub ==> err == nil && ret0 == f
  ensures [C09] negative: numGlyphs < 0 ==> err != nil
  ensures [C12] own: err == nil && sub ==> fresh(ret0) && fresh(ret0.font) && fresh(ret0.ot) && fresh(ret0.trec) && (f.head != nil ==> fresh(ret0.head)) && (f.maxp != nil ==> fresh(ret0.maxp)) && (f.hhea != nil ==> fresh(ret0.hhea)) && (f.hmtx != nil ==> fresh(ret0.hmtx)) && (f.name != nil ==> fresh(ret0.name)) && (f.post != nil ==> fresh(ret0.post)) && (f.cmap != nil ==> fresh(ret0.cmap)) && (f.os2 != nil ==> fresh(ret0.os2))
  ensures [C09] kept: err == nil && sub ==> ((ret0.head == nil) == (f.head == nil)) && ((ret0.hhea == nil) == (f.hhea == nil)) && ((ret0.hmtx == nil) == (f.hmtx == nil)) && ((ret0.name == nil) == (f.name == nil)) && ((ret0.post == nil) == (f.post == nil)) && ((ret0.os2 == nil) == (f.os2 == nil)) && ((ret0.cmap == nil) == (f.cmap == nil))
  ensures [C05] hints: err == nil && sub ==> ((ret0.prep == nil) == (f.prep == nil)) && ((ret0.cvt == nil) == (f.cvt == nil)) && ((ret0.fpgm == nil) == (f.fpgm == nil))
  ensures [C05] prep: err == nil && sub && f.prep != nil ==> len(ret0.prep.instructions) == len(f.prep.instructions) && forall(k, 0, len(f.prep.instructions), ret0.prep.instructions[k] == f.prep.instructions[k])
  ensures [C05] cvt: err == nil && sub && f.cvt != nil ==> len(ret0.cvt.controlValues) == len(f.cvt.controlValues) && forall(k, 0, len(f.cvt.controlValues), ret0.cvt.controlValues[k] == f.cvt.controlValues[k])
  ensures [C05] fpgm: err == nil && sub && f.fpgm != nil ==> len(ret0.fpgm.instructions) == len(f.fpgm.instructions) && forall(k, 0, len(f.fpgm.instructions), ret0.fpgm.instructions[k] == f.fpgm.instructions[k])
  ensures [C14] names: err == nil && sub && f.name != nil ==> len(ret0.name.nameRecords) == len(f.name.nameRecords) && forall(k, 0, len(f.name.nameRecords), ret0.name.nameRecords[k] == f.name.nameRecords[k])
  ensures [C09] count: err == nil && sub ==> ret0.maxp != nil && ret0.maxp.numGlyphs == n
  ensures [C09] glyphs: err == nil && sub && g ==> ret0.glyf != nil && len(ret0.glyf.descs) == n && forall(k, 0, n, ret0.glyf.descs[k] == f.glyf.descs[k])
  ensures [C09] placed: err == nil && sub && g ==> ret0.loca != nil && wfGlyf(ret0)
  ensures [C09] start: err == nil && sub && g ==> locOff(ret0, 0) == locOff(f, 0)
  ensures [C09,C07] widths: err == nil && sub && hasHmtx(f) && len(f.hmtx.hMetrics) > 0 ==> forall(q, 0, min(n, len(f.hmtx.hMetrics)+len(f.hmtx.leftSideBearings)), adv(ret0.hmtx, q) == adv(f.hmtx, q))
  ensures [C09,C07] bearings: err == nil && sub && hasHmtx(f) ==> forall(q, 0, min(n, len(f.hmtx.hMetrics)+len(f.hmtx.leftSideBearings)), lsbOf(ret0.hmtx, q) == lsbOf(f.hmtx, q))
  ensures [C09,C07] metrics: err == nil && sub && hasHmtx(f) && len(f.hmtx.hMetrics) <= f.maxp.numGlyphs ==> len(ret0.hmtx.hMetrics) + len(ret0.hmtx.leftSideBearings) == min(n, len(f.hmtx.hMetrics)+len(f.hmtx.leftSideBearings))
  ensures [C09,C07] announced: err == nil && sub && hasHmtx(f) && len(f.hmtx.hMetrics) == nHM(f) ==> len(ret0.hmtx.hMetrics) == nHM(ret0)
  ensures [C09,C15] names: err == nil && sub && f.post != nil ==> len(ret0.post.glyphNames) == min(n, len(f.post.glyphNames)) && forall(k, 0, len(ret0.post.glyphNames), ret0.post.glyphNames[k] == f.post.glyphNames[k])
  ensures [C09,C15] nameCount: err == nil && sub && f.post != nil && f.post.numGlyphs > 0 ==> ret0.post.numGlyphs == n
  ensures [C11] keys: err == nil && sub && cm != nil ==> len(ret0.cmap.subtableKeys) == len(cm.subtableKeys) && forall(k, 0, len(cm.subtableKeys), ret0.cmap.subtableKeys[k] == cm.subtableKeys[k])
  ensures [C11] limited: err == nil && sub && cm != nil && 0 <= I && I < len(cm.subtableKeys) ==> has(ret0.cmap.subtables, cm.subtableKeys[I]) && limits(ret0.cmap.subtables[cm.subtableKeys[I]], cm.subtables[cm.subtableKeys[I]], n, C, R)
