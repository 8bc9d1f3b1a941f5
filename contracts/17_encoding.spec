// ---- Character codes and the characters they stand for.
def encOf(p, e) = ite(p == 0, ite(e == 4 || e == 6, 1, 0), ite(p == 1, 2, ite(p != 3, 7, ite(e == 0 || e == 1, 0, ite(e == 2, 3, ite(e == 3, 4, ite(e == 4, 5, ite(e == 5, 6, ite(e == 10, 1, 7)))))))))
def nb(e) = ite(e == 0 || e == 3 || e == 4 || e == 5, 2, ite(e == 1, 4, 1))
def dk(e) = ite(e == 0, encid("enc:UTF16:false:0"), ite(e == 1, encid("enc:UTF32:false:0"), ite(e == 2, encid("g:golang.org/x/text/encoding/charmap.Macintosh"), ite(e == 3, encid("g:golang.org/x/text/encoding/japanese.ShiftJIS"), ite(e == 4, encid("g:golang.org/x/text/encoding/simplifiedchinese.GBK"), ite(e == 5, encid("g:golang.org/x/text/encoding/traditionalchinese.Big5"), encid("g:golang.org/x/text/encoding/unicode.UTF8")))))))
def cut8(n, c) = ite(n == 1, mod(c, 256), ite(n == 2, mod(c, 65536), c))
// the character that code c stands for in encoding e
def chr(e, c) = decrune(dk(e), nb(e), cut8(nb(e), c))

func getCmapEncoding
  ensures [C10] ret0 == encOf(platformID, encodingID)
  ensures ret0 >= 0 && ret0 <= 7

func (cmapEncoding).GetRuneDecoder
  ensures ret0.Decoder != nil && fresh(ret0.Decoder)
  ensures ret0.charcodeBytes == nb(e)
  ensures [C10] decid(ret0.Decoder) == dk(e)

func (runeDecoder).ToBytes
  requires d.charcodeBytes == 1 || d.charcodeBytes == 2 || d.charcodeBytes == 4
  ensures len(ret0) == d.charcodeBytes && fresh(ret0)
  ensures [C10] one: d.charcodeBytes == 1 ==> ret0[0] == mod(charcode, 256)
  ensures [C10] two: d.charcodeBytes == 2 ==> d16(ret0, 0) == mod(charcode, 65536)
  ensures [C10] four: d.charcodeBytes == 4 ==> d32(ret0, 0) == charcode

func (runeDecoder).DecodeRune
  requires d.Decoder != nil
  requires len(b) == 1 || len(b) == 2 || len(b) == 4
  ensures ret0 >= 0 && ret0 <= 1114111
  ensures [C10] ret0 == decrune(decid(d.Decoder), len(b), ite(len(b) == 1, b[0], ite(len(b) == 2, d16(b, 0), d32(b, 0))))
  ensures [C10] ucs2: len(b) == 2 && decid(d.Decoder) == dk(0) ==> ret0 == ite(0xd800 <= d16(b, 0) && d16(b, 0) <= 0xdfff, 0xfffd, d16(b, 0))
  ensures [C10] ucs4: len(b) == 4 && decid(d.Decoder) == dk(1) ==> ret0 == ite(0xd800 <= d32(b, 0) && d32(b, 0) <= 0xdfff || d32(b, 0) > 0x10ffff, 0xfffd, d32(b, 0))
  ensures [C10] mac: len(b) == 1 && decid(d.Decoder) == dk(2) ==> ret0 == macdec(b[0])
