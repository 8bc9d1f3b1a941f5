// Text codecs.

// byte position of the k-th rune of string s
rec rpos(s, k) = ite(k <= 0, 0, rpos(s, k-1) + runesz(s, rpos(s, k-1)))

// UTF-16 (Unicode standard, definition D91): n code units in row a from o.
def high(u) = 0xd800 <= u && u < 0xdc00
def low(u) = 0xdc00 <= u && u < 0xe000
def pairAt(a, o, n, i) = high(sel(a, o+i)) && i+1 < n && low(sel(a, o+i+1))
def cpAt(a, o, n, i) = ite(pairAt(a, o, n, i), 0x10000 + (sel(a, o+i)-0xd800)*1024 + (sel(a, o+i+1)-0xdc00), ite(high(sel(a, o+i)) || low(sel(a, o+i)), 0xfffd, sel(a, o+i)))
// index of the first code unit of the k-th code point
rec upos(a, o, n, k) = ite(k <= 0, 0, upos(a, o, n, k-1) + ite(pairAt(a, o, n, upos(a, o, n, k-1)), 2, 1))

func unicode/utf16.decode
  requires len(buf) == 0
  modifies rows(buf)
  inv len(buf) <= i && i <= len(s)
  inv i == upos(row(s), off(s), len(s), len(buf))
  inv forall(k, 0, len(buf), 0 <= upos(row(s), off(s), len(s), k) && upos(row(s), off(s), len(s), k) < len(s))
  inv forall(k, 0, len(buf), buf[k] == cpAt(row(s), off(s), len(s), upos(row(s), off(s), len(s), k)))
  ensures [C16] units: upos(row(s), off(s), len(s), len(ret0)) == len(s) && len(ret0) <= len(s)
  ensures [C16] inside: forall(k, 0, len(ret0), 0 <= upos(row(s), off(s), len(s), k) && upos(row(s), off(s), len(s), k) < len(s))
  ensures [C16] points: forall(k, 0, len(ret0), ret0[k] == cpAt(row(s), off(s), len(s), upos(row(s), off(s), len(s), k)))
  ensures ref(ret0) == ref(buf) || fresh(ret0)

func unicode/utf16.Decode
  ensures [C16] units: upos(row(s), off(s), len(s), len(ret0)) == len(s) && len(ret0) <= len(s)
  ensures [C16] inside: forall(k, 0, len(ret0), 0 <= upos(row(s), off(s), len(s), k) && upos(row(s), off(s), len(s), k) < len(s))
  ensures [C16] points: forall(k, 0, len(ret0), ret0[k] == cpAt(row(s), off(s), len(s), upos(row(s), off(s), len(s), k)))
  ensures fresh(ret0)

// UTF-16 encoding of n code points in row a from o
def supp(v) = 0x10000 <= v && v <= 0x10ffff
def scalar(v) = 0 <= v && v < 0xd800 || 0xe000 <= v && v <= 0x10ffff
rec nbig(a, o, k) = ite(k <= 0, 0, nbig(a, o, k-1) + ite(sel(a, o+k-1) >= 0x10000, 1, 0))
// index of the first code unit of the k-th code point
rec epos(a, o, k) = ite(k <= 0, 0, epos(a, o, k-1) + ite(supp(sel(a, o+k-1)), 2, 1))
// x are the code units of code point v, at index i
def encAt(x, i, v) = ite(supp(v), x[i] == 0xd800 + div(v-0x10000, 1024) && x[i+1] == 0xdc00 + mod(v-0x10000, 1024), x[i] == ite(scalar(v), v, 0xfffd))

func unicode/utf16.Encode
  inv n == len(s) + nbig(row(s), off(s), iter) && nbig(row(s), off(s), iter) >= 0
  inv forall(k, 0, len(s), k <= iter ==> nbig(row(s), off(s), k) <= nbig(row(s), off(s), iter))
  inv n == epos(row(s), off(s), iter)
  inv iter <= n && n <= iter + nbig(row(s), off(s), iter)
  inv forall(k, 0, iter, epos(row(s), off(s), k) >= 0)
  inv forall(k, 0, iter, epos(row(s), off(s), k) < n)
  inv forall(k, 0, iter, encAt(a, epos(row(s), off(s), k), s[k]) && epos(row(s), off(s), k) + ite(supp(s[k]), 2, 1) <= n)
  ensures [C16] len: len(ret0) == epos(row(s), off(s), len(s)) && len(ret0) >= len(s)
  ensures forall(k, 0, len(s), epos(row(s), off(s), k) >= 0)
  ensures forall(k, 0, len(s), epos(row(s), off(s), k) < len(ret0))
  ensures [C16] units: forall(k, 0, len(s), encAt(ret0, epos(row(s), off(s), k), s[k]) && epos(row(s), off(s), k) + ite(supp(s[k]), 2, 1) <= len(ret0))
  ensures fresh(ret0)

// Big-endian code units in n bytes of row a from o, an odd trailing byte padded with zero.
def unit(a, o, n, i) = 256*sel(a, o+2*i) + ite(2*i+1 < n, sel(a, o+2*i+1), 0)
def nunits(n) = div(n+1, 2)
def bpair(a, o, n, i) = high(unit(a, o, n, i)) && i+1 < nunits(n) && low(unit(a, o, n, i+1))
def bpoint(a, o, n, i) = ite(bpair(a, o, n, i), 0x10000 + (unit(a, o, n, i)-0xd800)*1024 + (unit(a, o, n, i+1)-0xdc00), ite(high(unit(a, o, n, i)) || low(unit(a, o, n, i)), 0xfffd, unit(a, o, n, i)))
rec bpos(a, o, n, k) = ite(k <= 0, 0, bpos(a, o, n, k-1) + ite(bpair(a, o, n, bpos(a, o, n, k-1)), 2, 1))

func strutils.UTF16ToRunes
  let in = b
  let a = row(b)
  let o = off(b)
  let m = len(b)
  inv len(chars) == nunits(m) && n == len(chars)
  inv forall(j, 0, i, chars[j] == unit(a, o, m, j))
  lemma [C16] same: induct(k, 0, len(ret0), bpos(a, o, m, k) == upos(row(chars), off(chars), len(chars), k))
  ensures [C16] single: m == 1 ==> len(ret0) == 1 && ret0[0] == sel(a, o)
  ensures [C16] whole: m != 1 ==> bpos(a, o, m, len(ret0)) == nunits(m)
  ensures [C16] inside: m != 1 ==> forall(k, 0, len(ret0), bpos(a, o, m, k) < nunits(m))
  ensures [C16] points: m != 1 ==> forall(k, 0, len(ret0), ret0[k] == bpoint(a, o, m, bpos(a, o, m, k)))
  ensures [C16] unchanged: row(in) == a && (m != 1 ==> fresh(ret0))

func strutils.UTF16ToString
  let in = b
  let a = row(b)
  let o = off(b)
  let m = len(b)
  ensures [C16] single: m == 1 ==> nrunes(ret0) == 1 && rune(ret0, 0) == sel(a, o)
  ensures [C16] whole: m != 1 ==> bpos(a, o, m, nrunes(ret0)) == nunits(m)
  ensures [C16] inside: m != 1 ==> forall(k, 0, nrunes(ret0), bpos(a, o, m, k) < nunits(m))
  ensures [C16] points: m != 1 ==> forall(k, 0, nrunes(ret0), runeat(ret0, rpos(ret0, k)) == bpoint(a, o, m, bpos(a, o, m, k)))
  ensures [C16] unchanged: row(in) == a
  defines ufstr(utf16be, a, o, m)

// the encoding of string s: the index of the first code unit of its k-th character
def rune(s, k) = runeat(s, rpos(s, k))
// bytes j, j+1 of string x are code unit v, big-endian
def unitIs(x, j, v) = x[j] == div(v, 256) && x[j+1] == mod(v, 256)
def encIs(x, j, v) = ite(supp(v), unitIs(x, j, 0xd800 + div(v-0x10000, 1024)) && unitIs(x, j+2, 0xdc00 + mod(v-0x10000, 1024)), unitIs(x, j, ite(scalar(v), v, 0xfffd)))

func strutils.StringToUTF16
  inv bl(buf) == 2*iter
  inv forall(k, 0, iter, b16(buf, 2*k) == encoded[k])
  ensures [C16] len: len(ret0) == 2*epos(runesof(s), 0, nrunes(s))
  ensures [C16] rising: forall(k, 0, nrunes(s), 0 <= epos(runesof(s), 0, k) && 2*epos(runesof(s), 0, k) < len(ret0))
  ensures [C16] places: forall(k, 0, nrunes(s), 0 <= epos(runesof(s), 0, k) && 2*epos(runesof(s), 0, k) + ite(supp(sel(runesof(s), k)), 4, 2) <= len(ret0))
  ensures [C16] chars: forall(k, 0, nrunes(s), encIs(ret0, 2*epos(runesof(s), 0, k), sel(runesof(s), k)) && sel(runesof(s), k) == rune(s, k) && scalar(sel(runesof(s), k)))

// Encoding and decoding again gives the same characters (ghost client, see contracts/ghost).
func strutils.ghostUTF16
  lemma [C16] steps: induct(k, 0, nrunes(s), bpos(row(b), off(b), len(b), k) == epos(runesof(s), 0, k))
  lemma [C16] count: nrunes(ret0) == nrunes(s)
  ensures [C16] number: nrunes(ret0) == nrunes(s)
  ensures [C16] same: forall(k, 0, nrunes(s), rune(ret0, k) == sel(runesof(s), k) && sel(runesof(s), k) == rune(s, k))
