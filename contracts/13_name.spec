// Naming table.

// makePrintable: printable characters as they are, the others quoted.
def shown(v) = isprint(v) || v == 10
def plen(v) = ite(shown(v), utf8len(v), len(quoterune(v)))
rec mlen(s, k) = ite(k <= 0, 0, mlen(s, k-1) + plen(rune(s, k-1)))

func makePrintable
  inv bl(buf) == mlen(str, scnt)
  inv forall(k, 0, scnt, mlen(str, k) >= 0 && mlen(str, k) + plen(rune(str, k)) <= bl(buf))
  inv forall(k, 0, scnt, shown(rune(str, k)) ==> forall(j, 0, utf8len(rune(str, k)), b8(buf, mlen(str, k)+j) == utf8byte(rune(str, k), j)))
  inv forall(k, 0, scnt, !shown(rune(str, k)) ==> forall(j, 0, len(quoterune(rune(str, k))), b8(buf, mlen(str, k)+j) == quoterune(rune(str, k))[j]))
  ensures [C14] len: len(ret0) == mlen(str, nrunes(str))
  ensures [C14] plain: forall(k, 0, nrunes(str), shown(rune(str, k)) ==> forall(j, 0, utf8len(rune(str, k)), ret0[mlen(str, k)+j] == utf8byte(rune(str, k), j)))
  ensures [C14] quoted: forall(k, 0, nrunes(str), !shown(rune(str, k)) ==> forall(j, 0, len(quoterune(rune(str, k))), ret0[mlen(str, k)+j] == quoterune(rune(str, k))[j]))
  defines ufstr(printable, str)

// the text of Macintosh Roman bytes: the UTF-8 encodings of their characters, one after another
rec macpos(b, o, k) = ite(k <= 0, 0, macpos(b, o, k-1) + utf8len(macdec(sel(b, o+k-1))))
def macText(s, d) = len(s) == macpos(row(d), off(d), len(d)) && forall(k, 0, len(d), forall(j, 0, utf8len(macdec(d[k])), s[macpos(row(d), off(d), k)+j] == utf8byte(macdec(d[k]), j)))
def utf16Of(d) = ufstr(utf16be, row(d), off(d), len(d))
def macOf(d) = ufstr(macroman, row(d), off(d), len(d))

func (nameRecord).Decoded
  inv bl(decoded) == macpos(row(nr.data), off(nr.data), iter)
  inv forall(k, 0, iter, macpos(row(nr.data), off(nr.data), k) >= 0 && macpos(row(nr.data), off(nr.data), k) + utf8len(macdec(nr.data[k])) <= bl(decoded))
  inv forall(k, 0, iter, forall(j, 0, utf8len(macdec(nr.data[k])), b8(decoded, macpos(row(nr.data), off(nr.data), k)+j) == utf8byte(macdec(nr.data[k]), j)))
  inv len(dup) <= len(nr.data)
  lemma [C14] mac: define(argof(ret0, 0), macOf(nr.data), nr.platformID == 1, macText(argof(ret0, 0), nr.data))
  ensures [C14] windows: nr.platformID == 3 && nr.encodingID <= 1 && len(nr.data) > 0 ==> ret0 == ufstr(printable, utf16Of(nr.data))
  ensures [C14] macintosh: nr.platformID == 1 ==> ret0 == ufstr(printable, macOf(nr.data))
  ensures [C14] others: nr.platformID != 0 && nr.platformID != 1 && (nr.platformID != 3 || nr.encodingID > 1 || len(nr.data) == 0) ==> ret0 == ufstr(printable, bytestr(nr.data))
  defines ufstr(decoded, nr.platformID, nr.encodingID, row(nr.data), off(nr.data), len(nr.data))

// the k-th name record of a table at offset o; the k-th language tag record of a table with n names
def nmAt(o, k) = o + 6 + 12*k
def ltAt(o, n, k) = o + 8 + 12*n + 4*k
def nmRec(nr, r, p) = nr.platformID == u16(r, p) && nr.encodingID == u16(r, p+2) && nr.languageID == u16(r, p+4) && nr.nameID == u16(r, p+6) && nr.length == u16(r, p+8) && nr.offset == u16(r, p+10)
def ltRec(lt, r, p) = lt.length == u16(r, p) && lt.offset == u16(r, p+2)
def apart(s) = forall(k, 0, len(s), forall(j, 0, k, ref(s[j]) < ref(s[k])))
def noff(f) = tabOff(f, "name")

func (*font).parseNameTable
  requires rd(r) && recok(f)
  modifies reader(r), r.reader
  inv rd(r) && rdsame(r)
  inv @1,2,3,4 len(t.nameRecords) == t.count
  inv @0 len(t.langTagRecords) == 0
  inv @0 len(t.nameRecords) == i && pos(r) == nmAt(noff(f), i)
  inv @1 len(t.langTagRecords) == i && pos(r) == ltAt(noff(f), t.count, i)
  inv forall(k, 0, len(t.nameRecords), t.nameRecords[k] != nil && fresh(t.nameRecords[k]))
  inv @1,2,3,4 forall(k, 0, len(t.langTagRecords), t.langTagRecords[k] != nil && fresh(t.langTagRecords[k]))
  inv apart(t.nameRecords)
  inv @1,2,3,4 apart(t.langTagRecords)
  inv forall(k, 0, len(t.nameRecords), nmRec(t.nameRecords[k], r, nmAt(noff(f), k)))
  inv @1,2,3,4 forall(k, 0, len(t.langTagRecords), ltRec(t.langTagRecords[k], r, ltAt(noff(f), t.count, k)))
  inv @2 forall(k, 0, iter, len(t.nameRecords[k].data) == t.nameRecords[k].length)
  inv @3,4 forall(k, 0, len(t.nameRecords), len(t.nameRecords[k].data) == t.nameRecords[k].length)
  inv @2 forall(k, 0, iter, forall(j, 0, len(t.nameRecords[k].data), t.nameRecords[k].data[j] == u8(r, noff(f) + t.stringOffset + t.nameRecords[k].offset + j)))
  inv @3,4 forall(k, 0, len(t.nameRecords), forall(j, 0, len(t.nameRecords[k].data), t.nameRecords[k].data[j] == u8(r, noff(f) + t.stringOffset + t.nameRecords[k].offset + j)))
  inv @3 forall(k, 0, iter, len(t.langTagRecords[k].data) == t.langTagRecords[k].length)
  inv @4 forall(k, 0, len(t.langTagRecords), len(t.langTagRecords[k].data) == t.langTagRecords[k].length)
  inv @3 forall(k, 0, iter, forall(j, 0, len(t.langTagRecords[k].data), t.langTagRecords[k].data[j] == u8(r, noff(f) + t.stringOffset + t.langTagRecords[k].offset + j)))
  inv @4 forall(k, 0, len(t.langTagRecords), forall(j, 0, len(t.langTagRecords[k].data), t.langTagRecords[k].data[j] == u8(r, noff(f) + t.stringOffset + t.langTagRecords[k].offset + j)))
  ensures [C14] present: err == nil ==> (ret0 != nil) == hasTable(f, "name")
  ensures [C14] header: err == nil && ret0 != nil ==> fresh(ret0) && ret0.format == u16(r, noff(f)) && ret0.count == u16(r, noff(f)+2) && ret0.stringOffset == u16(r, noff(f)+4) && ret0.format <= 1
  ensures [C14] count: err == nil && ret0 != nil ==> len(ret0.nameRecords) == ret0.count
  ensures [C14] records: err == nil && ret0 != nil ==> forall(k, 0, len(ret0.nameRecords), ret0.nameRecords[k] != nil && nmRec(ret0.nameRecords[k], r, nmAt(noff(f), k)))
  ensures [C14] lens: err == nil && ret0 != nil ==> forall(k, 0, len(ret0.nameRecords), len(ret0.nameRecords[k].data) == ret0.nameRecords[k].length)
  ensures [C14] strings: err == nil && ret0 != nil ==> forall(k, 0, len(ret0.nameRecords), forall(j, 0, len(ret0.nameRecords[k].data), ret0.nameRecords[k].data[j] == u8(r, noff(f) + ret0.stringOffset + ret0.nameRecords[k].offset + j)))
  ensures [C14] noTags: err == nil && ret0 != nil && ret0.format == 0 ==> len(ret0.langTagRecords) == 0
  ensures [C14] tagCount: err == nil && ret0 != nil && ret0.format == 1 ==> ret0.langTagCount == u16(r, noff(f) + 6 + 12*ret0.count) && len(ret0.langTagRecords) == ret0.langTagCount
  ensures [C14] tags: err == nil && ret0 != nil ==> forall(k, 0, len(ret0.langTagRecords), ret0.langTagRecords[k] != nil && ltRec(ret0.langTagRecords[k], r, ltAt(noff(f), ret0.count, k)) && len(ret0.langTagRecords[k].data) == ret0.langTagRecords[k].length)
  ensures [C14] tagStrings: err == nil && ret0 != nil ==> forall(k, 0, len(ret0.langTagRecords), forall(j, 0, len(ret0.langTagRecords[k].data), ret0.langTagRecords[k].data[j] == u8(r, noff(f) + ret0.stringOffset + ret0.langTagRecords[k].offset + j)))
  ensures [C14] apart: err == nil && ret0 != nil ==> apart(ret0.nameRecords) && apart(ret0.langTagRecords)
  ensures [C18] nothing: err != nil ==> ret0 == nil
  ensures rdsame(r)
  ensures err == nil ==> rd(r)

// where the strings start in a written table
def strStart(t) = 6 + 12*len(t.nameRecords) + ite(t.format == 1, 2 + 4*len(t.langTagRecords), 0)
def nmOut(w, p, nr) = b16(w, p) == nr.platformID && b16(w, p+2) == nr.encodingID && b16(w, p+4) == nr.languageID && b16(w, p+6) == nr.nameID && b16(w, p+8) == nr.length && b16(w, p+10) == nr.offset
def wfName(f) = forall(k, 0, len(f.name.nameRecords), f.name.nameRecords[k] != nil) && forall(k, 0, len(f.name.langTagRecords), f.name.langTagRecords[k] != nil) && apart(f.name.nameRecords) && apart(f.name.langTagRecords)

func (*font).writeNameTable
  requires f.name != nil ==> wfName(f)
  let o = bl(w)
  let so = strStart(f.name)
  let n = len(f.name.nameRecords)
  let m = len(f.name.langTagRecords)
  modifies buffer(w), w.len, f.name.count, f.name.langTagCount, f.name.stringOffset, any(f.name.nameRecords[0].offset), any(f.name.nameRecords[0].length), any(f.name.langTagRecords[0].offset), any(f.name.langTagRecords[0].length)
  inv @0,1,2,3 kept(w)
  inv @0 bl(bufw) <= 65535 ==> forall(k, 0, iter, t.nameRecords[k].length == len(t.nameRecords[k].data) && t.nameRecords[k].offset + len(t.nameRecords[k].data) <= bl(bufw))
  inv @0 bl(bufw) <= 65535 ==> forall(k, 0, iter, forall(j, 0, len(t.nameRecords[k].data), b8(bufw, t.nameRecords[k].offset + j) == t.nameRecords[k].data[j]))
  inv @1 bl(bufw) <= 65535 ==> forall(k, 0, n, t.nameRecords[k].length == len(t.nameRecords[k].data) && t.nameRecords[k].offset + len(t.nameRecords[k].data) <= bl(bufw))
  inv @1 bl(bufw) <= 65535 ==> forall(k, 0, n, forall(j, 0, len(t.nameRecords[k].data), b8(bufw, t.nameRecords[k].offset + j) == t.nameRecords[k].data[j]))
  inv @1 bl(bufw) <= 65535 ==> forall(k, 0, iter, t.langTagRecords[k].length == len(t.langTagRecords[k].data) && t.langTagRecords[k].offset + len(t.langTagRecords[k].data) <= bl(bufw))
  inv @1 bl(bufw) <= 65535 ==> forall(k, 0, iter, forall(j, 0, len(t.langTagRecords[k].data), b8(bufw, t.langTagRecords[k].offset + j) == t.langTagRecords[k].data[j]))
  inv @2 bl(w) == o + 6 + 12*iter
  inv @2 forall(k, 0, iter, nmOut(w, o+6+12*k, t.nameRecords[k]))
  inv @2,3 b16(w, o) == t.format && b16(w, o+2) == n && b16(w, o+4) == so
  inv @3 bl(w) == o + 8 + 12*n + 4*iter && b16(w, o+6+12*n) == m
  inv @3 forall(k, 0, n, nmOut(w, o+6+12*k, t.nameRecords[k]))
  inv @3 forall(k, 0, iter, b16(w, o+8+12*n+4*k) == t.langTagRecords[k].length && b16(w, o+8+12*n+4*k+2) == t.langTagRecords[k].offset)
  ensures [C14] absent: f.name == nil ==> err == nil && bl(w) == o
  ensures [C14] header: err == nil && f.name != nil ==> b16(w, o) == f.name.format && b16(w, o+2) == n && b16(w, o+4) == so
  ensures [C14] records: err == nil && f.name != nil ==> forall(k, 0, n, nmOut(w, o+6+12*k, f.name.nameRecords[k]))
  ensures [C14] lens: err == nil && f.name != nil ==> forall(k, 0, n, f.name.nameRecords[k].length == len(f.name.nameRecords[k].data) && o + so + f.name.nameRecords[k].offset + len(f.name.nameRecords[k].data) <= bl(w))
  ensures [C14] strings: err == nil && f.name != nil ==> forall(k, 0, n, forall(j, 0, len(f.name.nameRecords[k].data), b8(w, o + so + f.name.nameRecords[k].offset + j) == f.name.nameRecords[k].data[j]))
  ensures [C14] tags: err == nil && f.name != nil && f.name.format == 1 ==> b16(w, o+6+12*n) == m && forall(k, 0, m, b16(w, o+8+12*n+4*k) == f.name.langTagRecords[k].length && b16(w, o+8+12*n+4*k+2) == f.name.langTagRecords[k].offset)
  ensures [C14] tagLens: err == nil && f.name != nil ==> forall(k, 0, m, f.name.langTagRecords[k].length == len(f.name.langTagRecords[k].data) && o + so + f.name.langTagRecords[k].offset + len(f.name.langTagRecords[k].data) <= bl(w))
  ensures [C14] tagStrings: err == nil && f.name != nil ==> forall(k, 0, m, forall(j, 0, len(f.name.langTagRecords[k].data), b8(w, o + so + f.name.langTagRecords[k].offset + j) == f.name.langTagRecords[k].data[j]))
  ensures [C14] size: err == nil && f.name != nil ==> bl(w) <= o + so + 65535
  ensures kept(w)

// ---- name lookup
def nmText(nr) = ufstr(decoded, nr.platformID, nr.encodingID, row(nr.data), off(nr.data), len(nr.data))

func (*font).GetNameByID
  nilable f
  requires f != nil && f.name != nil ==> wfName(f)
  inv forall(k, 0, iter, f.name.nameRecords[k].nameID != nameID)
  ensures [C14] none: f == nil || f.name == nil ==> len(ret0) == 0
  ensures [C14] missing: f != nil && f.name != nil && forall(k, 0, len(f.name.nameRecords), f.name.nameRecords[k].nameID != nameID) ==> len(ret0) == 0
  ensures [C14] first: f != nil && f.name != nil ==> forall(k, 0, len(f.name.nameRecords), f.name.nameRecords[k].nameID == nameID && forall(j, 0, k, f.name.nameRecords[j].nameID != nameID) ==> ret0 == nmText(f.name.nameRecords[k]))

func (*font).GetNameRecords
  nilable f
  requires f != nil && f.name != nil ==> wfName(f)
  let rs = f.name.nameRecords
  inv forallk(l, has(nameRecords, l) ==> fresh(nameRecords[l]) && ref(nameRecords[l]) != ref(nameRecords))
  inv forallk(l, has(nameRecords, l) ==> forallk(m, has(nameRecords, m) && l != m ==> ref(nameRecords[l]) != ref(nameRecords[m])))
  inv forallk(l, has(nameRecords, l) ==> exists(k, 0, iter, f.name.nameRecords[k].languageID == l))
  inv forall(k, 0, iter, has(nameRecords, f.name.nameRecords[k].languageID))
  inv forall(k, 0, iter, has(nameRecords[f.name.nameRecords[k].languageID], f.name.nameRecords[k].nameID))
  inv forallk(l, has(nameRecords, l) ==> forallk(i, has(nameRecords[l], i) ==> exists(k, 0, iter, f.name.nameRecords[k].languageID == l && f.name.nameRecords[k].nameID == i)))
  inv forall(k, 0, iter, forall(j, k+1, iter, f.name.nameRecords[j].languageID != f.name.nameRecords[k].languageID || f.name.nameRecords[j].nameID != f.name.nameRecords[k].nameID) ==> nameRecords[f.name.nameRecords[k].languageID][f.name.nameRecords[k].nameID] == nmText(f.name.nameRecords[k]))
  ensures [C14] none: f == nil || f.name == nil ==> len(ret0) == 0
  ensures [C14] all: f != nil && f.name != nil ==> forall(k, 0, len(rs), has(ret0, rs[k].languageID) && has(ret0[rs[k].languageID], rs[k].nameID))
  ensures [C14] only: f != nil && f.name != nil ==> forallk(l, has(ret0, l) ==> forallk(i, has(ret0[l], i) ==> exists(k, 0, len(rs), rs[k].languageID == l && rs[k].nameID == i)))
  ensures [C14] last: f != nil && f.name != nil ==> forall(k, 0, len(rs), forall(j, k+1, len(rs), rs[j].languageID != rs[k].languageID || rs[j].nameID != rs[k].nameID) ==> ret0[rs[k].languageID][rs[k].nameID] == nmText(rs[k]))
