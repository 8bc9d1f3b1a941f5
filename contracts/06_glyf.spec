// Glyph locations and outlines.
def isShort(f) = f.head.indexToLocFormat == 0
def locOff(f, k) = ite(isShort(f), 2*f.loca.offsetsShort[k], f.loca.offsetsLong[k])
def wfLoca(f) = f.head != nil && f.maxp != nil && f.loca != nil && ite(isShort(f), len(f.loca.offsetsShort), len(f.loca.offsetsLong)) == f.maxp.numGlyphs+1
def wfDescs(f) = f.glyf != nil && f.maxp != nil && len(f.glyf.descs) == f.maxp.numGlyphs && forall(k, 0, len(f.glyf.descs), f.glyf.descs[k] != nil)
def wfGlyf(f) = wfLoca(f) && wfDescs(f) && forall(k, 0, len(f.glyf.descs), locOff(f,k+1) == locOff(f,k) + len(f.glyf.descs[k].raw)) && forall(k, 0, len(f.glyf.descs)+1, locOff(f,0) <= locOff(f,k))

func (*font).GetGlyphDataOffset
  requires f.loca != nil && f.head != nil ==> wfLoca(f)
  ensures [C06] range: f.loca != nil && f.head != nil && gid < f.maxp.numGlyphs ==> err == nil && offset == locOff(f, gid) && len == locOff(f, gid+1) - locOff(f, gid)
  ensures [C06] outside: f.loca == nil || f.head == nil || gid >= f.maxp.numGlyphs ==> err != nil

def lShort(f, l) = ite(isShort(f), len(l.offsetsShort), len(l.offsetsLong))
func (*font).parseLoca
  requires rd(r) && recok(f)
  modifies reader(r), r.reader
  ensures [C06,C18] missing: f.head == nil || f.maxp == nil ==> err != nil
  ensures [C06] present: err == nil ==> (ret0 != nil) == hasTable(f, "loca")
  ensures [C06] count: err == nil && ret0 != nil ==> fresh(ret0) && ite(isShort(f), len(ret0.offsetsShort), len(ret0.offsetsLong)) == f.maxp.numGlyphs+1
  ensures [C06] format: err == nil && ret0 != nil ==> f.head.indexToLocFormat == 0 && len(ret0.offsetsLong) == 0 || f.head.indexToLocFormat == 1 && len(ret0.offsetsShort) == 0
  ensures [C06] short: err == nil && ret0 != nil && isShort(f) ==> forall(k, 0, f.maxp.numGlyphs+1, ret0.offsetsShort[k] == u16(r, tabOff(f, "loca")+2*k))
  ensures [C06] long: err == nil && ret0 != nil && !isShort(f) ==> forall(k, 0, f.maxp.numGlyphs+1, ret0.offsetsLong[k] == u32(r, tabOff(f, "loca")+4*k))
  ensures [C18] nothing: err != nil ==> ret0 == nil
  ensures rdsame(r)
  ensures err == nil ==> rd(r)

func (*font).writeLoca
  requires f.loca != nil && f.head != nil && f.maxp != nil ==> wfLoca(f)
  modifies buffer(w), w.len
  inv isShort(f) ==> forall(k, 0, iter, offsets[k] == u16(t.offsetsShort[k] - t.offsetsShort[0]))
  inv !isShort(f) ==> forall(k, 0, iter, offsets[k] == u32(t.offsetsLong[k] - t.offsetsLong[0]))
  ensures [C18] missing: f.loca == nil || f.head == nil || f.maxp == nil ==> err != nil
  ensures [C18] ok: f.loca != nil && f.head != nil && f.maxp != nil ==> err == nil
  ensures [C06,C09] len: err == nil ==> bl(w) == old(bl(w)) + ite(isShort(f), 2, 4)*(f.maxp.numGlyphs+1)
  ensures [C06] short: err == nil && isShort(f) ==> forall(k, 0, f.maxp.numGlyphs+1, b16(w, old(bl(w))+2*k) == u16(f.loca.offsetsShort[k] - f.loca.offsetsShort[0]))
  ensures [C06] long: err == nil && !isShort(f) ==> forall(k, 0, f.maxp.numGlyphs+1, b32(w, old(bl(w))+4*k) == u32(f.loca.offsetsLong[k] - f.loca.offsetsLong[0]))
  ensures kept(w)

func (*font).parseGlyf
  requires rd(r) && recok(f) && (f.maxp != nil && f.loca != nil ==> wfLoca(f))
  modifies reader(r), r.reader
  inv rd(r) && rdsame(r)
  inv len(glyf.descs) == iter
  inv forall(k, 0, len(glyf.descs), glyf.descs[k] != nil && glyf.descs[k].header == nil && glyf.descs[k].composite == nil)
  inv forall(k, 0, len(glyf.descs), len(glyf.descs[k].raw) == locOff(f,k+1) - locOff(f,k))
  inv forall(k, 0, iter+1, locOff(f,0) <= locOff(f,k))
  inv forall(k, 0, len(glyf.descs), forall(j, 0, len(glyf.descs[k].raw), glyf.descs[k].raw[j] == u8(r, tabOff(f, "glyf")+locOff(f,k)+j)))
  ensures [C18] missing: f.maxp == nil || f.loca == nil ==> err != nil
  ensures [C06] present: err == nil ==> (ret0 != nil) == hasTable(f, "glyf")
  ensures [C06,C09] count: err == nil && ret0 != nil ==> fresh(ret0) && len(ret0.descs) == f.maxp.numGlyphs
  ensures [C06,C08] lens: err == nil && ret0 != nil ==> forall(k, 0, len(ret0.descs), ret0.descs[k] != nil && len(ret0.descs[k].raw) == locOff(f,k+1) - locOff(f,k))
  ensures [C06] bytes: err == nil && ret0 != nil ==> forall(k, 0, len(ret0.descs), forall(j, 0, len(ret0.descs[k].raw), ret0.descs[k].raw[j] == u8(r, tabOff(f, "glyf")+locOff(f,k)+j)))
  ensures [C06] monotone: err == nil && ret0 != nil ==> forall(k, 0, len(ret0.descs)+1, locOff(f,0) <= locOff(f,k))
  ensures [C08] unparsed: err == nil && ret0 != nil ==> forall(k, 0, len(ret0.descs), ret0.descs[k].header == nil && ret0.descs[k].composite == nil)
  ensures [C18] nothing: err != nil ==> ret0 == nil
  ensures rdsame(r)
  ensures err == nil ==> rd(r)

func (*font).writeGlyf
  requires f.glyf != nil && f.maxp != nil && f.loca != nil ==> wfGlyf(f)
  modifies buffer(w), w.len
  inv kept(w)
  inv bl(w) == old(bl(w)) + locOff(f, iter) - locOff(f, 0)
  inv forall(k, 0, iter+1, locOff(f, k) <= locOff(f, iter))
  inv forall(k, 0, iter, forall(j, 0, len(f.glyf.descs[k].raw), b8(w, old(bl(w))+locOff(f,k)-locOff(f,0)+j) == f.glyf.descs[k].raw[j]))
  ensures [C18] missing: f.glyf == nil || f.maxp == nil || f.loca == nil ==> err != nil
  ensures [C06] ok: f.glyf != nil && f.maxp != nil && f.loca != nil ==> err == nil
  ensures [C06] len: err == nil ==> bl(w) == old(bl(w)) + locOff(f, f.maxp.numGlyphs) - locOff(f, 0)
  ensures [C06] bytes: err == nil ==> forall(k, 0, len(f.glyf.descs), forall(j, 0, len(f.glyf.descs[k].raw), b8(w, old(bl(w))+locOff(f,k)-locOff(f,0)+j) == f.glyf.descs[k].raw[j]))
  ensures kept(w)
