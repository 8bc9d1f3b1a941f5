// ---- Writing a font: the directory describes the file it heads.
def h1(f) = ite(f.head != nil, 1, 0)
def cnt(f, j) = ite(j >= 1 && f.head != nil, 1, 0) + ite(j >= 2 && f.maxp != nil, 1, 0) + ite(j >= 3 && f.hhea != nil, 1, 0) + ite(j >= 4 && f.hmtx != nil, 1, 0) + ite(j >= 5 && f.loca != nil, 1, 0) + ite(j >= 6 && f.glyf != nil, 1, 0) + ite(j >= 7 && f.prep != nil, 1, 0) + ite(j >= 8 && f.cvt != nil, 1, 0) + ite(j >= 9 && f.fpgm != nil, 1, 0) + ite(j >= 10 && f.name != nil, 1, 0) + ite(j >= 11 && f.os2 != nil, 1, 0) + ite(j >= 12 && f.post != nil, 1, 0) + ite(j >= 13 && f.cmap != nil, 1, 0)
def rank(t) = ite(t == tagv("head"), 1, ite(t == tagv("maxp"), 2, ite(t == tagv("hhea"), 3, ite(t == tagv("hmtx"), 4, ite(t == tagv("loca"), 5, ite(t == tagv("glyf"), 6, ite(t == tagv("prep"), 7, ite(t == tagv("cvt "), 8, ite(t == tagv("fpgm"), 9, ite(t == tagv("name"), 10, ite(t == tagv("OS/2"), 11, ite(t == tagv("post"), 12, ite(t == tagv("cmap"), 13, 99)))))))))))))

func (*font).numTablesToWrite
  ensures ret0 >= 0 && ret0 <= 13
  ensures [C02] ret0 <= cnt(f, 13) && ret0 >= cnt(f, 13)

def wrec(l, k) = l[k] != nil && fresh(l[k])
func (*font).write
  timeout 8
  requires f.ot != nil && f.head != nil
  requires pre1: f.loca != nil && f.head != nil && f.maxp != nil ==> wfLoca(f)
  requires pre2: f.glyf != nil && f.maxp != nil && f.loca != nil ==> wfGlyf(f)
  requires pre3: f.name != nil ==> wfName(f)
  requires pre4: f.cmap != nil ==> wfCmapW(f.cmap)
  let o = bl(w)
  let n = cnt(f, 13)
  let so = 12 + 16*n
  modifies buffer(w), f.ot.numTables, f.head.checksumAdjustment, f.post.version, f.name.count, f.name.langTagCount, f.name.stringOffset, any(f.name.nameRecords[0].offset), any(f.name.nameRecords[0].length), any(f.name.langTagRecords[0].offset), any(f.name.langTagRecords[0].length)
  thin writeHead: len, checksumAdjustment, ok
  thin writeMaxp: missing
  thin writeHhea, writeHmtx, writeLoca, writeGlyf, writePrep, writeCvt, writeFpgm, writeNameTable, writeOS2, writePost, writeCmap: none
  focus
  cutat flush, 13, newByteWriter
  cut bl(bufw) == 0 && bufw.flushedLen == bl(buf)
  cut fresh(trec.trMap) && fresh(trec.list)
  cut [C02] count: len(trec.list) == cnt(f, cutidx)
  cut [C02] step1: forall(k, 0, entry(len(trec.list)), trec.list[k] == entry(trec.list[k]) && trec.list[k].offset == entry(trec.list[k].offset) && trec.list[k].length == entry(trec.list[k].length) && trec.list[k].checksum == entry(trec.list[k].checksum) && trec.list[k].tableTag == entry(trec.list[k].tableTag))
  cut [C02] step2: bl(buf) >= entry(bl(buf)) && forall(k, 0, entry(bl(buf)), b8(buf, k) == entry(b8(buf, k)))
  cut [C02] step3: len(trec.list) == entry(len(trec.list)) && bl(buf) == entry(bl(buf)) || len(trec.list) == entry(len(trec.list)) + 1 && trec.list[len(trec.list)-1].offset == u32(startOffset + entry(bl(buf))) && trec.list[len(trec.list)-1].length == u32(bl(buf) - entry(bl(buf)))
  cut [C02] step4: len(trec.list) > entry(len(trec.list)) ==> trec.list[len(trec.list)-1].checksum == csum(barr(buf), entry(bl(buf)), bl(buf) - entry(bl(buf)))
  cut [C02] records: forall(k, 0, len(trec.list), trec.list[k] != nil && fresh(trec.list[k]))
  cut [C02] ranks: forall(k, 0, len(trec.list), 1 <= rank(trec.list[k].tableTag) && rank(trec.list[k].tableTag) <= cutidx)
  cut [C02] order: forall(k, 1, len(trec.list), rank(trec.list[k-1].tableTag) < rank(trec.list[k].tableTag))
  cut [C02] first: trec.list[0].tableTag == tagv("head") && trec.list[0].offset == startOffset && trec.list[0].length == 54 && bl(buf) >= 54
  cut [C02] adj: b32(buf, 8) == 0
  cut [C02] next from next, step1, step3, end, inside: startOffset + bl(buf) < 4294967296 ==> forall(k, 1, len(trec.list), trec.list[k].offset == trec.list[k-1].offset + trec.list[k-1].length)
  cut [C02] inside from inside, step1, step3, end: startOffset + bl(buf) < 4294967296 ==> forall(k, 0, len(trec.list), startOffset <= trec.list[k].offset && trec.list[k].offset + trec.list[k].length <= startOffset + bl(buf))
  cut [C02] tail from tail, step1, step3, end, first, inside: startOffset + bl(buf) < 4294967296 ==> forall(k, 1, len(trec.list), startOffset + 54 <= trec.list[k].offset)
  cut [C02] end from end, step3, step1: startOffset + bl(buf) < 4294967296 ==> trec.list[len(trec.list)-1].offset + trec.list[len(trec.list)-1].length == startOffset + bl(buf)
  cut [C02] sums from sums, step1, step2, step3, step4, inside, end, count, samebytes: startOffset + bl(buf) < 4294967296 ==> forall(k, 0, len(trec.list), trec.list[k].checksum == csum(barr(buf), trec.list[k].offset - startOffset, trec.list[k].length))
  lemma [C02] so: err == nil ==> startOffset == so && entry(len(trec.list)) == n
  lemma [C02] header: err == nil ==> b16(w, o+4) == n && b32(w, o) == f.ot.sfntVersion
  lemma [C02] size: err == nil ==> bl(w) == o + so + entry(bl(buf))
  lemma [C02] records: err == nil ==> forall(k, 0, n, b32(w, o+12+16*k) == entry(trec.list[k].tableTag) && b32(w, o+16+16*k) == entry(trec.list[k].checksum) && b32(w, o+20+16*k) == entry(trec.list[k].offset) && b32(w, o+24+16*k) == entry(trec.list[k].length))
  lemma [C02] bytes: err == nil ==> forall(j, 0, entry(bl(buf)), j < 8 || 12 <= j ==> b8(w, o+so+j) == sel(entry(barr(buf)), j))
  lemma [C02] adj: err == nil ==> b32(w, o+so+8) == mod(0xB1B0AFBA - fontChecksum, 4294967296)
  lemma [C02] total: err == nil ==> fontChecksum == csumz(barr(w), o, bl(w) - o, so + 8)
  lemma [C02] place from inside, tail, end: err == nil && bl(w) - o < 4294967296 ==> forall(k, 1, n, so + 54 <= entry(trec.list[k].offset) && entry(trec.list[k].offset) + entry(trec.list[k].length) <= so + entry(bl(buf)))
  lemma [C02] sums1 from sums, inside, tail: err == nil && bl(w) - o < 4294967296 ==> forall(k, 1, n, entry(trec.list[k].checksum) == csum(entry(barr(buf)), entry(trec.list[k].offset) - so, entry(trec.list[k].length)))
  lemma [C02] sums2 from place, bytes, samebytes: err == nil && bl(w) - o < 4294967296 ==> forall(k, 1, n, csumz(barr(w), o + entry(trec.list[k].offset), entry(trec.list[k].length), 0-8) == csum(entry(barr(buf)), entry(trec.list[k].offset) - so, entry(trec.list[k].length)))
  ensures [C02] header: err == nil ==> b16(w, o+4) == n && b32(w, o) == f.ot.sfntVersion
  ensures [C02] size: err == nil ==> bl(w) >= o + so + 54
  ensures [C02] first: err == nil ==> b32(w, o+12) == tagv("head") && b32(w, o+20) == so && b32(w, o+24) == 54
  ensures [C02] order from order, ranks, records: err == nil ==> forall(k, 1, n, rank(b32(w, o+12+16*k-16)) < rank(b32(w, o+12+16*k))) && forall(k, 0, n, 1 <= rank(b32(w, o+12+16*k)) && rank(b32(w, o+12+16*k)) <= 13)
  ensures [C02] next from next, records: err == nil && bl(w) - o < 4294967296 ==> forall(k, 1, n, b32(w, o+20+16*k) == b32(w, o+20+16*k-16) + b32(w, o+24+16*k-16))
  ensures [C02] inside from inside, records: err == nil && bl(w) - o < 4294967296 ==> forall(k, 0, n, so <= b32(w, o+20+16*k) && b32(w, o+20+16*k) + b32(w, o+24+16*k) <= bl(w) - o)
  ensures [C02] end from end, records: err == nil && bl(w) - o < 4294967296 ==> b32(w, o+20+16*n-16) + b32(w, o+24+16*n-16) == bl(w) - o
  ensures [C02] headsum from records, bytes, sums, first, samebytes: err == nil && bl(w) - o < 4294967296 ==> b32(w, o+16) == csumz(barr(w), o + b32(w, o+20), b32(w, o+24), 8)
  ensures [C02] sums from sums1, sums2, records: err == nil && bl(w) - o < 4294967296 ==> forall(k, 1, n, b32(w, o+16+16*k) == csumz(barr(w), o + b32(w, o+20+16*k), b32(w, o+24+16*k), 0-8))
  ensures [C02] adjustment from none: err == nil && bl(w) - o < 4294967296 ==> b32(w, o+so+8) == mod(0xB1B0AFBA - csumz(barr(w), o, bl(w) - o, so+8), 4294967296)
