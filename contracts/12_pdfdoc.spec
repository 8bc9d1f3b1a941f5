
// PDFDocEncoding (ISO 32000-1, annex D.3): the character of every byte, -1 where undefined.
list pdfDoc = -1, 0x1, 0x2, 0x3, 0x4, 0x5, 0x6, 0x7, 0x8, 0x9, 0xa, 0xb, 0xc, 0xd, 0xe, 0xf,
| 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x2d8, 0x2c7, 0x2c6, 0x2d9, 0x2dd, 0x2db, 0x2da, 0x2dc,
| 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x2f,
| 0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x3b, 0x3c, 0x3d, 0x3e, 0x3f,
| 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f,
| 0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x5b, 0x5c, 0x5d, 0x5e, 0x5f,
| 0x60, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f,
| 0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0x7b, 0x7c, 0x7d, 0x7e, -1,
| 0x2022, 0x2020, 0x2021, 0x2026, 0x2014, 0x2013, 0x192, 0x2044, 0x2039, 0x203a, 0x2212, 0x2030, 0x201e, 0x201c, 0x201d, 0x2018,
| 0x2019, 0x201a, 0x2122, 0xfb01, 0xfb02, 0x141, 0x152, 0x160, 0x178, 0x17d, 0x131, 0x142, 0x153, 0x161, 0x17e, -1,
| 0x20ac, 0xa1, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6, 0xa7, 0xa8, 0xa9, 0xaa, 0xab, 0xac, -1, 0xae, 0xaf,
| 0xb0, 0xb1, 0xb2, 0xb3, 0xb4, 0xb5, 0xb6, 0xb7, 0xb8, 0xb9, 0xba, 0xbb, 0xbc, 0xbd, 0xbe, 0xbf,
| 0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf,
| 0xd0, 0xd1, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf,
| 0xe0, 0xe1, 0xe2, 0xe3, 0xe4, 0xe5, 0xe6, 0xe7, 0xe8, 0xe9, 0xea, 0xeb, 0xec, 0xed, 0xee, 0xef,
| 0xf0, 0xf1, 0xf2, 0xf3, 0xf4, 0xf5, 0xf6, 0xf7, 0xf8, 0xf9, 0xfa, 0xfb, 0xfc, 0xfd, 0xfe, 0xff

func strutils.init
  ensures [C16] table: each(b, 0, 256, has(pdfDocEncoding, b) == (pdfDoc(b) >= 0) && (pdfDoc(b) >= 0 ==> pdfDocEncoding[b] == pdfDoc(b)))
  global [C16] distinct: forallk(b, has(pdfDocEncoding, b) ==> findlist(pdfDoc, pdfDocEncoding[b]) == b)
  global [C16] scalars: forallk(b, has(pdfDocEncoding, b) ==> scalar(pdfDocEncoding[b]))

func strutils.init#1
  inv forallk(b, visited(b) ==> has(pdfdocEncodingRuneMap, pdfDocEncoding[b]) && pdfdocEncodingRuneMap[pdfDocEncoding[b]] == b)
  inv forallk(r, has(pdfdocEncodingRuneMap, r) ==> has(pdfDocEncoding, pdfdocEncodingRuneMap[r]) && pdfDocEncoding[pdfdocEncodingRuneMap[r]] == r)
  global [C16] into: forallk(b, has(pdfDocEncoding, b) ==> has(pdfdocEncodingRuneMap, pdfDocEncoding[b]) && pdfdocEncodingRuneMap[pdfDocEncoding[b]] == b)
  global [C16] onto: forallk(r, has(pdfdocEncodingRuneMap, r) ==> has(pdfDocEncoding, pdfdocEncodingRuneMap[r]) && pdfDocEncoding[pdfdocEncodingRuneMap[r]] == r)

// how many of the first k bytes are defined, of the first k characters of s are encodable
rec ndef(h, a, o, k) = ite(k <= 0, 0, ndef(h, a, o, k-1) + ite(sel(h, sel(a, o+k-1)), 1, 0))
rec nenc(h, s, k) = ite(k <= 0, 0, nenc(h, s, k-1) + ite(sel(h, rune(s, k-1)), 1, 0))

func strutils.PDFDocEncodingToRunes
  let h = hasrow(pdfDocEncoding)
  let a = row(b)
  let o = off(b)
  inv len(runes) == ndef(h, a, o, iter)
  inv forall(k, 0, iter, has(pdfDocEncoding, b[k]) ==> 0 <= ndef(h, a, o, k) && ndef(h, a, o, k) < len(runes) && runes[ndef(h, a, o, k)] == pdfDocEncoding[b[k]])
  inv forall(j, 0, len(runes), has(pdfdocEncodingRuneMap, runes[j]))
  ensures [C16] defined: forall(j, 0, len(ret0), has(pdfdocEncodingRuneMap, ret0[j]))
  ensures [C16] len: len(ret0) == ndef(h, a, o, len(b))
  ensures [C16] places: forall(k, 0, len(b), has(pdfDocEncoding, b[k]) ==> 0 <= ndef(h, a, o, k) && ndef(h, a, o, k) < len(ret0))
  ensures [C16] chars: forall(k, 0, len(b), has(pdfDocEncoding, b[k]) ==> ret0[ndef(h, a, o, k)] == pdfDocEncoding[b[k]])
  ensures fresh(ret0) || len(ret0) == 0

func strutils.PDFDocEncodingToString
  let h = hasrow(pdfDocEncoding)
  let a = row(b)
  let o = off(b)
  ensures [C16] defined: forall(j, 0, nrunes(ret0), has(pdfdocEncodingRuneMap, rune(ret0, j)))
  ensures [C16] len: nrunes(ret0) == ndef(h, a, o, len(b))
  ensures [C16] places: forall(k, 0, len(b), has(pdfDocEncoding, b[k]) ==> 0 <= ndef(h, a, o, k) && ndef(h, a, o, k) < nrunes(ret0))
  ensures [C16] chars: forall(k, 0, len(b), has(pdfDocEncoding, b[k]) ==> rune(ret0, ndef(h, a, o, k)) == pdfDocEncoding[b[k]])

func strutils.StringToPDFDocEncoding
  let h = hasrow(pdfdocEncodingRuneMap)
  inv bl(buf) == nenc(h, s, scnt)
  inv forall(k, 0, scnt, has(pdfdocEncodingRuneMap, rune(s, k)) ==> 0 <= nenc(h, s, k) && nenc(h, s, k) < bl(buf) && b8(buf, nenc(h, s, k)) == pdfdocEncodingRuneMap[rune(s, k)])
  inv forall(j, 0, bl(buf), has(pdfDocEncoding, b8(buf, j)))
  ensures [C16] defined: forall(j, 0, len(ret0), has(pdfDocEncoding, ret0[j]))
  ensures [C16] places: forall(k, 0, nrunes(s), has(pdfdocEncodingRuneMap, rune(s, k)) ==> 0 <= nenc(h, s, k) && nenc(h, s, k) < len(ret0))
  ensures [C16] len: len(ret0) == nenc(h, s, nrunes(s))
  ensures [C16] bytes: forall(k, 0, nrunes(s), has(pdfdocEncodingRuneMap, rune(s, k)) ==> ret0[nenc(h, s, k)] == pdfdocEncodingRuneMap[rune(s, k)])

// Decoding and encoding again gives the defined bytes back; encoding and decoding again gives the
// encodable characters back.
func strutils.ghostPDFDoc
  let h = hasrow(pdfDocEncoding)
  let h2 = hasrow(pdfdocEncodingRuneMap)
  let a = row(b)
  let o = off(b)
  lemma [C16] all: induct(k, 0, nrunes(s), nenc(h2, s, k) == k)
  ensures [C16] same: len(ret0) == ndef(h, a, o, len(b)) && forall(k, 0, len(b), has(pdfDocEncoding, b[k]) ==> ret0[ndef(h, a, o, k)] == b[k])

func strutils.ghostPDFDocBack
  let h = hasrow(pdfDocEncoding)
  let h2 = hasrow(pdfdocEncodingRuneMap)
  lemma [C16] all: induct(k, 0, len(b), ndef(h, row(b), off(b), k) == k)
  ensures [C16] same: nrunes(ret0) == nenc(h2, s, nrunes(s)) && forall(k, 0, nrunes(s), has(pdfdocEncodingRuneMap, rune(s, k)) ==> rune(ret0, nenc(h2, s, k)) == rune(s, k))
