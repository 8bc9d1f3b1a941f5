// ---- Character maps: writing.
def wfSub(s) = s != nil && (s.format == 0 || s.format == 4 || s.format == 6 || s.format == 12) && (s.format == 0 ==> istype(s.ctx, "cmapSubtableFormat0")) && (s.format == 4 ==> istype(s.ctx, "cmapSubtableFormat4")) && (s.format == 6 ==> istype(s.ctx, "cmapSubtableFormat6")) && (s.format == 12 ==> istype(s.ctx, "cmapSubtableFormat12"))
def wfCmapW(t) = forall(k, 0, len(t.subtableKeys), has(t.subtables, t.subtableKeys[k]) && wfSub(t.subtables[t.subtableKeys[k]]))

func writeCmapSubtableFormat0
  requires subtable != nil && istype(subtable.ctx, "cmapSubtableFormat0")
  let s = as(subtable.ctx, "cmapSubtableFormat0")
  let o = bl(w)
  modifies buffer(w), w.len
  ensures [C10] header: b16(w, o) == 0 && b16(w, o+2) == 262 && b16(w, o+4) == s.language
  ensures [C10] glyphs: forall(k, 0, len(s.glyphIDArray), b8(w, o+6+k) == s.glyphIDArray[k])
  ensures [C10] len: bl(w) == o + 6 + len(s.glyphIDArray)
  ensures kept(w)
  noerr

func writeCmapSubtableFormat4
  requires subtable != nil && istype(subtable.ctx, "cmapSubtableFormat4")
  let s = as(subtable.ctx, "cmapSubtableFormat4")
  let o = bl(w)
  let n = len(s.endCode)
  let n2 = len(s.startCode)
  let n3 = len(s.idDelta)
  let n4 = len(s.idRangeOffset)
  modifies buffer(w), w.len
  ensures [C10] header: b16(w, o) == 4 && b16(w, o+2) == mod(16 + 4*s.segCountX2 + 2*len(s.glyphIDArray), 65536) && b16(w, o+4) == s.language && b16(w, o+6) == s.segCountX2
  ensures [C10] ends: forall(k, 0, n, b16(w, o+14+2*k) == s.endCode[k])
  ensures [C10] starts: forall(k, 0, n2, b16(w, o+16+2*n+2*k) == s.startCode[k])
  ensures [C10] deltas: forall(k, 0, n3, b16(w, o+16+2*n+2*n2+2*k) == s.idDelta[k])
  ensures [C10] ranges: forall(k, 0, n4, b16(w, o+16+2*n+2*n2+2*n3+2*k) == s.idRangeOffset[k])
  ensures [C10] glyphs: forall(k, 0, len(s.glyphIDArray), b16(w, o+16+2*n+2*n2+2*n3+2*n4+2*k) == s.glyphIDArray[k])
  ensures [C10] len: bl(w) == o + 16 + 2*n + 2*n2 + 2*n3 + 2*n4 + 2*len(s.glyphIDArray)
  ensures kept(w)
  noerr

func writeCmapSubtableFormat6
  requires subtable != nil && istype(subtable.ctx, "cmapSubtableFormat6")
  let s = as(subtable.ctx, "cmapSubtableFormat6")
  let o = bl(w)
  modifies buffer(w), w.len
  ensures [C10] header: b16(w, o) == 6 && b16(w, o+4) == s.language && b16(w, o+6) == s.firstCode && b16(w, o+8) == s.entryCount
  ensures [C10] glyphs: forall(k, 0, len(s.glyphIDArray), b16(w, o+10+2*k) == s.glyphIDArray[k])
  ensures [C10] len: bl(w) == o + 10 + 2*len(s.glyphIDArray)
  ensures kept(w)
  noerr

def grpOut(w, p, g) = b32(w, p) == g.startCharCode && b32(w, p+4) == g.endCharCode && b32(w, p+8) == g.startGlyphID
func writeCmapSubtableFormat12
  requires subtable != nil && istype(subtable.ctx, "cmapSubtableFormat12")
  let s = as(subtable.ctx, "cmapSubtableFormat12")
  let o = bl(w)
  modifies buffer(w), w.len
  inv bl(w) == o + 16 + 12*iter && kept(w)
  inv b16(w, o) == 12 && b16(w, o+2) == s.reserved && b32(w, o+4) == mod(16 + 12*len(s.groups), 4294967296) && b32(w, o+8) == s.language && b32(w, o+12) == s.numGroups
  inv forall(k, 0, iter, grpOut(w, o+16+12*k, s.groups[k]))
  ensures [C10] header: b16(w, o) == 12 && b16(w, o+2) == s.reserved && b32(w, o+4) == mod(16 + 12*len(s.groups), 4294967296) && b32(w, o+8) == s.language && b32(w, o+12) == s.numGroups
  ensures [C10] groups: forall(k, 0, len(s.groups), grpOut(w, o+16+12*k, s.groups[k]))
  ensures [C10] len: bl(w) == o + 16 + 12*len(s.groups)
  ensures kept(w)
  noerr

// the subtables of a table in order, and how each is encoded at p
def sub(t, k) = t.subtables[t.subtableKeys[k]]
def f0(s) = as(s.ctx, "cmapSubtableFormat0")
def f4(s) = as(s.ctx, "cmapSubtableFormat4")
def f6(s) = as(s.ctx, "cmapSubtableFormat6")
def f12(s) = as(s.ctx, "cmapSubtableFormat12")
def h0(w, p, s) = b16(w, p) == 0 && b16(w, p+2) == 262 && b16(w, p+4) == s.language
def g0(w, p, s) = forall(j, 0, len(s.glyphIDArray), b8(w, p+6+j) == s.glyphIDArray[j])
def h4(w, p, s) = b16(w, p) == 4 && b16(w, p+2) == mod(16 + 4*s.segCountX2 + 2*len(s.glyphIDArray), 65536) && b16(w, p+4) == s.language && b16(w, p+6) == s.segCountX2
def e4(w, p, s) = forall(j, 0, len(s.endCode), b16(w, p+14+2*j) == s.endCode[j])
def p4(s) = 16 + 2*len(s.endCode)
def s4(w, p, s) = forall(j, 0, len(s.startCode), b16(w, p+p4(s)+2*j) == s.startCode[j])
def d4(w, p, s) = forall(j, 0, len(s.idDelta), b16(w, p+p4(s)+2*len(s.startCode)+2*j) == s.idDelta[j])
def r4(w, p, s) = forall(j, 0, len(s.idRangeOffset), b16(w, p+p4(s)+2*len(s.startCode)+2*len(s.idDelta)+2*j) == s.idRangeOffset[j])
def g4(w, p, s) = forall(j, 0, len(s.glyphIDArray), b16(w, p+p4(s)+2*len(s.startCode)+2*len(s.idDelta)+2*len(s.idRangeOffset)+2*j) == s.glyphIDArray[j])
def h6(w, p, s) = b16(w, p) == 6 && b16(w, p+4) == s.language && b16(w, p+6) == s.firstCode && b16(w, p+8) == s.entryCount
def g6(w, p, s) = forall(j, 0, len(s.glyphIDArray), b16(w, p+10+2*j) == s.glyphIDArray[j])
def h12(w, p, s) = b16(w, p) == 12 && b16(w, p+2) == s.reserved && b32(w, p+4) == mod(16 + 12*len(s.groups), 4294967296) && b32(w, p+8) == s.language && b32(w, p+12) == s.numGroups
def g12(w, p, s) = forall(j, 0, len(s.groups), grpOut(w, p+16+12*j, s.groups[j]))
def len4(s) = 16 + 2*len(s.endCode) + 2*len(s.startCode) + 2*len(s.idDelta) + 2*len(s.idRangeOffset) + 2*len(s.glyphIDArray)

func (*font).writeCmap
  nomerge
  timeout 12
  given K
  requires f.cmap != nil ==> wfCmapW(f.cmap)
  let t = f.cmap
  let n = len(f.cmap.subtableKeys)
  let o = bl(w)
  let s = sub(t, K)
  let in = 0 <= K && K < n
  modifies buffer(w), w.len
  inv @0,1 kept(w)
  inv @0 len(encodingRecords) == iter
  inv @0 [C10] infile: bl(mockWriter) < 4294967296 ==> forall(k, 0, iter, encodingRecords[k].offset + 6 <= bl(mockWriter))
  inv @0 [C10] forall(k, 0, iter, encodingRecords[k].platformID == u16(sub(t, k).platformID) && encodingRecords[k].encodingID == u16(sub(t, k).encodingID))
  inv @0 [C10] in && K < iter && bl(mockWriter) < 4294967296 && s.format == 0 ==> encodingRecords[K].offset + 6 + len(f0(s).glyphIDArray) <= bl(mockWriter)
  inv @0 [C10] h0: in && K < iter && bl(mockWriter) < 4294967296 && s.format == 0 ==> h0(mockWriter, encodingRecords[K].offset, f0(s))
  inv @0 [C10] g0: in && K < iter && bl(mockWriter) < 4294967296 && s.format == 0 ==> g0(mockWriter, encodingRecords[K].offset, f0(s))
  inv @0 [C10] in && K < iter && bl(mockWriter) < 4294967296 && s.format == 4 ==> encodingRecords[K].offset + len4(f4(s)) <= bl(mockWriter)
  inv @0 [C10] h4: in && K < iter && bl(mockWriter) < 4294967296 && s.format == 4 ==> h4(mockWriter, encodingRecords[K].offset, f4(s))
  inv @0 [C10] e4: in && K < iter && bl(mockWriter) < 4294967296 && s.format == 4 ==> e4(mockWriter, encodingRecords[K].offset, f4(s))
  inv @0 [C10] s4: in && K < iter && bl(mockWriter) < 4294967296 && s.format == 4 ==> s4(mockWriter, encodingRecords[K].offset, f4(s))
  inv @0 [C10] d4: in && K < iter && bl(mockWriter) < 4294967296 && s.format == 4 ==> d4(mockWriter, encodingRecords[K].offset, f4(s))
  inv @0 [C10] r4: in && K < iter && bl(mockWriter) < 4294967296 && s.format == 4 ==> r4(mockWriter, encodingRecords[K].offset, f4(s))
  inv @0 [C10] g4: in && K < iter && bl(mockWriter) < 4294967296 && s.format == 4 ==> g4(mockWriter, encodingRecords[K].offset, f4(s))
  inv @0 [C10] in && K < iter && bl(mockWriter) < 4294967296 && s.format == 6 ==> encodingRecords[K].offset + 10 + 2*len(f6(s).glyphIDArray) <= bl(mockWriter)
  inv @0 [C10] h6: in && K < iter && bl(mockWriter) < 4294967296 && s.format == 6 ==> h6(mockWriter, encodingRecords[K].offset, f6(s))
  inv @0 [C10] g6: in && K < iter && bl(mockWriter) < 4294967296 && s.format == 6 ==> g6(mockWriter, encodingRecords[K].offset, f6(s))
  inv @0 [C10] in && K < iter && bl(mockWriter) < 4294967296 && s.format == 12 ==> encodingRecords[K].offset + 16 + 12*len(f12(s).groups) <= bl(mockWriter)
  inv @0 [C10] h12: in && K < iter && bl(mockWriter) < 4294967296 && s.format == 12 ==> h12(mockWriter, encodingRecords[K].offset, f12(s))
  inv @0 [C10] g12: in && K < iter && bl(mockWriter) < 4294967296 && s.format == 12 ==> g12(mockWriter, encodingRecords[K].offset, f12(s))
  inv @1 bl(w) == o + 4 + 8*iter
  inv @1 len(encodingRecords) == n && b16(w, o) == t.version && b16(w, o+2) == mod(n, 65536)
  inv @1 [C10] recs: forall(k, 0, iter, b16(w, o+4+8*k) == encodingRecords[k].platformID && b16(w, o+6+8*k) == encodingRecords[k].encodingID && b32(w, o+8+8*k) == mod(encodingRecords[k].offset + 4 + 8*n, 4294967296))
  lemma [C10] length: err == nil ==> bl(w) == o + 4 + 8*n + bl(mockBuffer)
  lemma [C10] copied: err == nil ==> forall(j, o+4+8*n, bl(w), b8(w, j) == b8(mockBuffer, j-o-4-8*n))
  lemma [C10] err == nil && in && bl(mockBuffer) < 4294967296 && s.format == 0 ==> encodingRecords[K].offset + 6 + len(f0(s).glyphIDArray) <= bl(mockBuffer)
  lemma [C10] h0: err == nil && in && bl(mockBuffer) < 4294967296 && s.format == 0 ==> h0(mockBuffer, encodingRecords[K].offset, f0(s))
  lemma [C10] g0: err == nil && in && bl(mockBuffer) < 4294967296 && s.format == 0 ==> g0(mockBuffer, encodingRecords[K].offset, f0(s))
  lemma [C10] err == nil && in && bl(mockBuffer) < 4294967296 && s.format == 4 ==> encodingRecords[K].offset + len4(f4(s)) <= bl(mockBuffer)
  lemma [C10] h4: err == nil && in && bl(mockBuffer) < 4294967296 && s.format == 4 ==> h4(mockBuffer, encodingRecords[K].offset, f4(s))
  lemma [C10] e4: err == nil && in && bl(mockBuffer) < 4294967296 && s.format == 4 ==> e4(mockBuffer, encodingRecords[K].offset, f4(s))
  lemma [C10] s4: err == nil && in && bl(mockBuffer) < 4294967296 && s.format == 4 ==> s4(mockBuffer, encodingRecords[K].offset, f4(s))
  lemma [C10] d4: err == nil && in && bl(mockBuffer) < 4294967296 && s.format == 4 ==> d4(mockBuffer, encodingRecords[K].offset, f4(s))
  lemma [C10] r4: err == nil && in && bl(mockBuffer) < 4294967296 && s.format == 4 ==> r4(mockBuffer, encodingRecords[K].offset, f4(s))
  lemma [C10] g4: err == nil && in && bl(mockBuffer) < 4294967296 && s.format == 4 ==> g4(mockBuffer, encodingRecords[K].offset, f4(s))
  lemma [C10] err == nil && in && bl(mockBuffer) < 4294967296 && s.format == 6 ==> encodingRecords[K].offset + 10 + 2*len(f6(s).glyphIDArray) <= bl(mockBuffer)
  lemma [C10] h6: err == nil && in && bl(mockBuffer) < 4294967296 && s.format == 6 ==> h6(mockBuffer, encodingRecords[K].offset, f6(s))
  lemma [C10] g6: err == nil && in && bl(mockBuffer) < 4294967296 && s.format == 6 ==> g6(mockBuffer, encodingRecords[K].offset, f6(s))
  lemma [C10] err == nil && in && bl(mockBuffer) < 4294967296 && s.format == 12 ==> encodingRecords[K].offset + 16 + 12*len(f12(s).groups) <= bl(mockBuffer)
  lemma [C10] h12: err == nil && in && bl(mockBuffer) < 4294967296 && s.format == 12 ==> h12(mockBuffer, encodingRecords[K].offset, f12(s))
  lemma [C10] g12: err == nil && in && bl(mockBuffer) < 4294967296 && s.format == 12 ==> g12(mockBuffer, encodingRecords[K].offset, f12(s))
  lemma [C10] recs2: err == nil ==> forall(k, 0, n, b16(w, o+4+8*k) == encodingRecords[k].platformID && b16(w, o+6+8*k) == encodingRecords[k].encodingID && b32(w, o+8+8*k) == mod(encodingRecords[k].offset + 4 + 8*n, 4294967296))
  lemma [C10] infile: err == nil && bl(mockBuffer) < 4294967296 ==> forall(k, 0, n, encodingRecords[k].offset + 6 <= bl(mockBuffer))
  lemma [C10] offs from recs2, infile: err == nil && bl(w) - o < 4294967296 ==> forall(k, 0, n, b32(w, o+8+8*k) == encodingRecords[k].offset + 4 + 8*n)
  lemma [C10] offK from offs: err == nil && in && bl(w) - o < 4294967296 ==> b32(w, o+8+8*K) == encodingRecords[K].offset + 4 + 8*n
  ensures [C10] absent: f.cmap == nil ==> err == nil && bl(w) == o
  ensures [C10] header from none: f.cmap != nil ==> b16(w, o) == t.version && b16(w, o+2) == mod(n, 65536)
  ensures [C10] records from recs2: f.cmap != nil ==> forall(k, 0, n, b16(w, o+4+8*k) == u16(sub(t, k).platformID) && b16(w, o+6+8*k) == u16(sub(t, k).encodingID))
  ensures [C10] inside from offs, infile: f.cmap != nil && bl(w) - o < 4294967296 ==> forall(k, 0, n, 4 + 8*n <= b32(w, o+8+8*k) && o + b32(w, o+8+8*k) + 6 <= bl(w))
  ensures [C10] inside0 from none: f.cmap != nil && in && bl(w) - o < 4294967296 && s.format == 0 ==> o + b32(w, o+8+8*K) + 6 + len(f0(s).glyphIDArray) <= bl(w)
  ensures [C10] h0 from h0, copied: f.cmap != nil && in && bl(w) - o < 4294967296 && s.format == 0 ==> h0(w, o + b32(w, o+8+8*K), f0(s))
  ensures [C10] g0 from g0, copied: f.cmap != nil && in && bl(w) - o < 4294967296 && s.format == 0 ==> g0(w, o + b32(w, o+8+8*K), f0(s))
  ensures [C10] inside4 from none: f.cmap != nil && in && bl(w) - o < 4294967296 && s.format == 4 ==> o + b32(w, o+8+8*K) + len4(f4(s)) <= bl(w)
  ensures [C10] h4 from h4, copied: f.cmap != nil && in && bl(w) - o < 4294967296 && s.format == 4 ==> h4(w, o + b32(w, o+8+8*K), f4(s))
  ensures [C10] e4 from e4, copied: f.cmap != nil && in && bl(w) - o < 4294967296 && s.format == 4 ==> e4(w, o + b32(w, o+8+8*K), f4(s))
  ensures [C10] s4 from s4, copied: f.cmap != nil && in && bl(w) - o < 4294967296 && s.format == 4 ==> s4(w, o + b32(w, o+8+8*K), f4(s))
  ensures [C10] d4 from d4, copied: f.cmap != nil && in && bl(w) - o < 4294967296 && s.format == 4 ==> d4(w, o + b32(w, o+8+8*K), f4(s))
  ensures [C10] r4 from r4, copied: f.cmap != nil && in && bl(w) - o < 4294967296 && s.format == 4 ==> r4(w, o + b32(w, o+8+8*K), f4(s))
  ensures [C10] g4 from g4, copied: f.cmap != nil && in && bl(w) - o < 4294967296 && s.format == 4 ==> g4(w, o + b32(w, o+8+8*K), f4(s))
  ensures [C10] inside6 from none: f.cmap != nil && in && bl(w) - o < 4294967296 && s.format == 6 ==> o + b32(w, o+8+8*K) + 10 + 2*len(f6(s).glyphIDArray) <= bl(w)
  ensures [C10] h6 from h6, copied: f.cmap != nil && in && bl(w) - o < 4294967296 && s.format == 6 ==> h6(w, o + b32(w, o+8+8*K), f6(s))
  ensures [C10] g6 from g6, copied: f.cmap != nil && in && bl(w) - o < 4294967296 && s.format == 6 ==> g6(w, o + b32(w, o+8+8*K), f6(s))
  ensures [C10] inside12 from none: f.cmap != nil && in && bl(w) - o < 4294967296 && s.format == 12 ==> o + b32(w, o+8+8*K) + 16 + 12*len(f12(s).groups) <= bl(w)
  ensures [C10] h12 from h12, copied: f.cmap != nil && in && bl(w) - o < 4294967296 && s.format == 12 ==> h12(w, o + b32(w, o+8+8*K), f12(s))
  ensures [C10] g12 from g12, copied: f.cmap != nil && in && bl(w) - o < 4294967296 && s.format == 12 ==> g12(w, o + b32(w, o+8+8*K), f12(s))
  ensures kept(w)
  noerr
