// Checksums: the sum of the big-endian 32-bit words, the last one padded with zeros, with the four
// bytes at z (if any) taken as zero.
def zb(a, o, n, z, j) = ite(j < n && (j < z || z + 4 <= j), sel(a, o+j), 0)
def zword(a, o, n, z, j) = zb(a, o, n, z, j)*16777216 + zb(a, o, n, z, j+1)*65536 + zb(a, o, n, z, j+2)*256 + zb(a, o, n, z, j+3)
rec zsum(a, o, n, z, k) = ite(k <= 0, 0, mod(zsum(a, o, n, z, k-1) + zword(a, o, n, z, 4*k-4), 4294967296))
rec csumz(a, o, n, z) = zsum(a, o, n, z, div(n+3, 4))
def csum(a, o, n) = csumz(a, o, n, 0-8)

func (*byteWriter).checksum
  theorem [C02,C03] samebytes(a[], p, n, z, b[], q, m, y) on csumz(a, p, n, z), csumz(b, q, m, y) by k, 0, div(n+3, 4), zsum(a, p, n, z, k) == zsum(b, q, m, y, k): n == m && forall(j, 0, n, zb(a, p, n, z, j) == zb(b, q, n, y, j)) ==> csumz(a, p, n, z) == csumz(b, q, m, y)
  inv mod(i, 4) == 0 && i <= bl(w) + 3
  inv sum == zsum(barr(w), 0, bl(w), 0-8, div(i, 4))
  ensures [C02,C03] ret0 == csum(barr(w), 0, bl(w))

def padded(s, i) = ite(i < len(s), s[i], 32)

func makeTag
  inv len(bb) <= 4 && (len(s) >= 4 ==> len(bb) == 4) && (len(s) < 4 ==> len(bb) >= len(s))
  inv forall(k, 0, len(bb), bb[k] == padded(s, k))
  ensures [C02] ret0 == tagv(s)

func (*tableRecords).Set
  requires forall(k, 0, len(trs.list), trs.list[k] != nil)
  let n = len(trs.list)
  let there = exists(k, 0, len(trs.list), trimtag(trs.list[k].tableTag) == table)
  modifies trs.list, trs.trMap, rows(trs.list), rows(trs.trMap)
  inv len(trs.list) == n && forall(k, 0, n, trs.list[k] != nil)
  inv forall(k, 0, n, k < iter && trimtag(old(trs.list[k].tableTag)) == table ==> trs.list[k] == newRec)
  inv forall(k, 0, n, k >= iter || trimtag(old(trs.list[k].tableTag)) != table ==> trs.list[k] == old(trs.list[k]))
  inv found == exists(k, 0, iter, trimtag(old(trs.list[k].tableTag)) == table)
  ensures trs.trMap != nil && (old(trs.trMap) == nil || trs.trMap == old(trs.trMap)) && (old(trs.trMap) == nil ==> fresh(trs.trMap))
  ensures ref(trs.list) == old(ref(trs.list)) || fresh(trs.list)
  ensures [C02] new: !there ==> len(trs.list) == n + 1 && fresh(trs.list[n]) && trs.list[n] != nil && trs.list[n].tableTag == tagv(table) && trs.list[n].offset == u32(offset) && trs.list[n].length == u32(length) && trs.list[n].checksum == checksum
  ensures [C02] kept: !there ==> forall(k, 0, n, trs.list[k] == old(trs.list[k]))
  ensures [C02] replaced: there ==> len(trs.list) == n && forall(k, 0, n, trs.list[k] != nil)

// Validation: the checksum of the whole file and of every table.
def recsum(r, t) = csumz(farr(r), t.offset, t.length, ite(trimtag(t.tableTag) == "head", 8, 0-8))
def reccheck(r, t) = t.offset + t.length <= flen(r) && t.checksum == recsum(r, t)
def fileadj(r, hoff) = mod(0xB1B0AFBA - csumz(farr(r), 0, flen(r), hoff+8), 4294967296)

func (*font).validate
  requires rd(r)
  requires f.trec != nil ==> forall(k, 0, len(f.trec.list), f.trec.list[k] != nil) && (has(f.trec.trMap, "head") ==> f.trec.trMap["head"] != nil && f.trec.trMap["head"].offset + 12 <= flen(r))
  let l = f.trec.list
  let h = f.trec.trMap["head"]
  let all = f.trec != nil && f.ot != nil && f.head != nil && has(f.trec.trMap, "head")
  modifies reader(r), r.reader
  inv rd(r)
  inv forall(k, 0, iter, reccheck(r, l[k]))
  ensures [C03] whole: err == nil && flen(r) <= 4294967296 ==> all && f.head.checksumAdjustment == fileadj(r, h.offset)
  ensures [C03] tables: err == nil ==> forall(k, 0, len(l), reccheck(r, l[k]))
  ensures [C03] accepts: all && flen(r) <= 4294967296 && reliable(r) && f.head.checksumAdjustment == fileadj(r, h.offset) && forall(k, 0, len(l), reccheck(r, l[k]) && (trimtag(l[k].tableTag) == "head" ==> l[k].length >= 12)) ==> err == nil
