// Table directory.
def recok(f) = f.trec != nil && forallk(k, has(f.trec.trMap, k) ==> f.trec.trMap[k] != nil)
def hasTable(f, name) = has(f.trec.trMap, name)
def tabOff(f, name) = f.trec.trMap[name].offset

func (*font).seekToTable
  requires rd(r) && recok(f)
  modifies reader(r), r.reader
  ensures [C04,C05,C06] has: err == nil ==> has == hasTable(f, tableName)
  ensures [C04,C05,C06,C14] at: err == nil && has ==> tr == f.trec.trMap[tableName] && tr != nil && pos(r) == tr.offset
  ensures [C18] err != nil ==> !has
  ensures rdsame(r)
  ensures err == nil ==> rd(r)

func (*font).parseOffsetTable
  let p = pos(r)
  requires rd(r)
  modifies reader(r)
  ensures [C04] sfntVersion: err == nil ==> ret0 != nil && ret0.sfntVersion == u32(r, p)
  ensures [C04] numTables: err == nil ==> ret0.numTables == u16(r, p+4)
  ensures [C04] searchRange: err == nil ==> ret0.searchRange == u16(r, p+6)
  ensures [C04] entrySelector: err == nil ==> ret0.entrySelector == u16(r, p+8)
  ensures [C04] rangeShift: err == nil ==> ret0.rangeShift == u16(r, p+10)
  ensures [C04,C18] whole: err == nil ==> pos(r) == p + 12 && pos(r) <= flen(r)
  ensures rd(r)

func (*font).writeOffsetTable
  modifies buffer(w), w.len
  ensures [C18] missing: f.ot == nil ==> err != nil
  ensures [C02,C18] ok: f.ot != nil ==> err == nil
  ensures [C02,C04] len: f.ot != nil ==> bl(w) == old(bl(w)) + 12
  ensures [C02,C04] sfntVersion: f.ot != nil ==> b32(w, old(bl(w))) == f.ot.sfntVersion
  ensures [C02,C04] numTables: f.ot != nil ==> b16(w, old(bl(w))+4) == f.ot.numTables
  ensures [C04] searchRange: f.ot != nil ==> b16(w, old(bl(w))+6) == f.ot.searchRange
  ensures [C04] entrySelector: f.ot != nil ==> b16(w, old(bl(w))+8) == f.ot.entrySelector
  ensures [C04] rangeShift: f.ot != nil ==> b16(w, old(bl(w))+10) == f.ot.rangeShift
  ensures kept(w)

func (*tableRecord).read
  let p = pos(r)
  requires rd(r)
  modifies reader(r), *tr
  ensures [C04] tag: err == nil ==> tr.tableTag == u32(r, p)
  ensures [C04] checksum: err == nil ==> tr.checksum == u32(r, p+4)
  ensures [C04] offset: err == nil ==> tr.offset == u32(r, p+8)
  ensures [C04] length: err == nil ==> tr.length == u32(r, p+12)
  ensures [C04,C18] whole: err == nil ==> pos(r) == p + 16 && pos(r) <= flen(r)
  ensures rd(r)

func (*tableRecord).write
  modifies buffer(w), w.len
  ensures [C02,C04] tag: b32(w, old(bl(w))) == tr.tableTag
  ensures [C02,C04] checksum: b32(w, old(bl(w))+4) == tr.checksum
  ensures [C02,C04] offset: b32(w, old(bl(w))+8) == tr.offset
  ensures [C02,C04] length: b32(w, old(bl(w))+12) == tr.length
  ensures [C02,C04] len: bl(w) == old(bl(w)) + 16
  ensures kept(w)
  noerr

func (*font).parseTableRecords
  let p = pos(r)
  requires rd(r) && f.ot != nil
  modifies reader(r)
  inv forallk(k, has(trs.trMap, k) ==> trs.trMap[k] != nil && trimtag(trs.trMap[k].tableTag) == k)
  inv pos(r) == p + 16*len(trs.list)
  inv len(trs.list) > 0 ==> pos(r) <= flen(r)
  inv forall(j, 0, len(trs.list), trs.list[j] != nil && has(trs.trMap, trimtag(trs.list[j].tableTag)))
  inv forall(j, 0, len(trs.list), trs.list[j].tableTag == u32(r, p+16*j) && trs.list[j].checksum == u32(r, p+16*j+4) && trs.list[j].offset == u32(r, p+16*j+8) && trs.list[j].length == u32(r, p+16*j+12))
  ensures [C04] count: err == nil ==> ret0 != nil && fresh(ret0) && len(ret0.list) == f.ot.numTables
  ensures [C04] records: err == nil ==> forall(j, 0, len(ret0.list), ret0.list[j] != nil && ret0.list[j].tableTag == u32(r, p+16*j) && ret0.list[j].checksum == u32(r, p+16*j+4) && ret0.list[j].offset == u32(r, p+16*j+8) && ret0.list[j].length == u32(r, p+16*j+12))
  ensures [C04] lookup: err == nil ==> forallk(k, has(ret0.trMap, k) ==> ret0.trMap[k] != nil && trimtag(ret0.trMap[k].tableTag) == k)
  ensures [C04] listed: err == nil ==> forall(j, 0, len(ret0.list), has(ret0.trMap, trimtag(ret0.list[j].tableTag)))
  ensures rd(r)

func (*font).writeTableRecords
  requires f.trec != nil ==> forall(j, 0, len(f.trec.list), f.trec.list[j] != nil)
  modifies buffer(w), w.len
  inv bl(w) == old(bl(w)) + 16*iter
  inv kept(w)
  inv forall(j, 0, iter, b32(w, old(bl(w))+16*j) == f.trec.list[j].tableTag && b32(w, old(bl(w))+16*j+4) == f.trec.list[j].checksum && b32(w, old(bl(w))+16*j+8) == f.trec.list[j].offset && b32(w, old(bl(w))+16*j+12) == f.trec.list[j].length)
  ensures [C18] missing: f.trec == nil ==> err != nil
  ensures [C02,C18] ok: f.trec != nil ==> err == nil
  ensures [C02,C04] len: f.trec != nil ==> bl(w) == old(bl(w)) + 16*len(f.trec.list)
  ensures [C02,C04] records: f.trec != nil ==> forall(j, 0, len(f.trec.list), b32(w, old(bl(w))+16*j) == f.trec.list[j].tableTag && b32(w, old(bl(w))+16*j+4) == f.trec.list[j].checksum && b32(w, old(bl(w))+16*j+8) == f.trec.list[j].offset && b32(w, old(bl(w))+16*j+12) == f.trec.list[j].length)
  ensures kept(w)
