// PostScript table: header fields, and glyph names as the version defines them.

// position of the length byte of the k-th stored string of a version 2 table
rec spos(a, p, k) = ite(k <= 0, p, spos(a, p, k-1) + 1 + sel(a, spos(a, p, k-1)))
// x is the k-th stored string
def stored(x, r, p, k) = len(x) == u8(r, spos(farr(r), p, k)) && forall(j, 0, len(x), x[j] == u8(r, spos(farr(r), p, k)+1+j))

// x is the name a version 2 table with n glyphs at offset o gives to index ni
def named2(x, r, o, n, ni) = ite(ni < 258, x == macGlyphNames[ni], ite(ni <= 32767, stored(x, r, o+34+2*n, ni-258), x == ""))
// x is the name a version 2.5 table gives to standard index ni
def named25(x, ni) = ite(0 <= ni && ni < 258, x == macGlyphNames[ni], x == "")

func (*font).parsePost
  requires rd(r) && recok(f)
  modifies reader(r), r.reader
  inv forall(k, 0, iter, t.glyphNames[k] == macGlyphNames[k])
  inv rd(r) && rdsame(r)
  inv pos(r) == spos(farr(r), tabOff(f, "post")+34+2*t.numGlyphs, len(names))
  inv pos(r) <= flen(r)
  inv forall(k, 0, len(names), stored(names[k], r, tabOff(f, "post")+34+2*t.numGlyphs, k))
  inv len(names) == i
  inv forall(k, 0, i, named2(t.glyphNames[k], r, tabOff(f, "post"), t.numGlyphs, t.glyphNameIndex[k]))
  inv forall(k, 0, i, named25(t.glyphNames[k], k+1+t.offsets[k]))
  inv forall(k, i, len(t.glyphNames), t.glyphNames[k] == "")
  ensures [C18] missing: f.maxp == nil ==> err != nil
  ensures [C15] present: err == nil ==> (ret0 != nil) == hasTable(f, "post")
  ensures [C15,C18] whole: err == nil && ret0 != nil ==> fresh(ret0) && tabOff(f, "post") + 32 <= flen(r)
  ensures [C15] version: err == nil && ret0 != nil ==> ret0.version == i32(r, tabOff(f, "post"))
  ensures [C15] italicAngle: err == nil && ret0 != nil ==> ret0.italicAngle == i32(r, tabOff(f, "post")+4)
  ensures [C15] underlinePosition: err == nil && ret0 != nil ==> ret0.underlinePosition == i16(r, tabOff(f, "post")+8)
  ensures [C15] underlineThickness: err == nil && ret0 != nil ==> ret0.underlineThickness == i16(r, tabOff(f, "post")+10)
  ensures [C15] isFixedPitch: err == nil && ret0 != nil ==> ret0.isFixedPitch == u32(r, tabOff(f, "post")+12)
  ensures [C15] minMemType42: err == nil && ret0 != nil ==> ret0.minMemType42 == u32(r, tabOff(f, "post")+16)
  ensures [C15] maxMemType42: err == nil && ret0 != nil ==> ret0.maxMemType42 == u32(r, tabOff(f, "post")+20)
  ensures [C15] minMemType1: err == nil && ret0 != nil ==> ret0.minMemType1 == u32(r, tabOff(f, "post")+24)
  ensures [C15] maxMemType1: err == nil && ret0 != nil ==> ret0.maxMemType1 == u32(r, tabOff(f, "post")+28)
  ensures [C15] v1: err == nil && ret0 != nil && u32(r, tabOff(f, "post")) == 0x00010000 ==> ret0.numGlyphs == 258 && f.maxp.numGlyphs == 258 && len(ret0.glyphNames) == 258 && forall(k, 0, 258, ret0.glyphNames[k] == macGlyphNames[k])
  ensures [C15] v2: err == nil && ret0 != nil && u32(r, tabOff(f, "post")) == 0x00020000 ==> ret0.numGlyphs == u16(r, tabOff(f, "post")+32) && ret0.numGlyphs == f.maxp.numGlyphs && len(ret0.glyphNames) == ret0.numGlyphs && len(ret0.glyphNameIndex) == ret0.numGlyphs && forall(k, 0, len(ret0.glyphNameIndex), ret0.glyphNameIndex[k] == u16(r, tabOff(f, "post")+34+2*k))
  ensures [C15] v2names: err == nil && ret0 != nil && u32(r, tabOff(f, "post")) == 0x00020000 ==> forall(k, 0, len(ret0.glyphNames), named2(ret0.glyphNames[k], r, tabOff(f, "post"), ret0.numGlyphs, ret0.glyphNameIndex[k]))
  ensures [C15] v25: err == nil && ret0 != nil && u32(r, tabOff(f, "post")) == 0x00025000 ==> ret0.numGlyphs == u16(r, tabOff(f, "post")+32) && ret0.numGlyphs == f.maxp.numGlyphs && len(ret0.glyphNames) == ret0.numGlyphs && len(ret0.offsets) == ret0.numGlyphs && forall(k, 0, len(ret0.offsets), ret0.offsets[k] == i8(r, tabOff(f, "post")+34+k))
  ensures [C15] v25names: err == nil && ret0 != nil && u32(r, tabOff(f, "post")) == 0x00025000 ==> forall(k, 0, len(ret0.glyphNames), named25(ret0.glyphNames[k], k+1+ret0.offsets[k]))
  ensures [C15] v3: err == nil && ret0 != nil && u32(r, tabOff(f, "post")) != 0x00010000 && u32(r, tabOff(f, "post")) != 0x00020000 && u32(r, tabOff(f, "post")) != 0x00025000 ==> len(ret0.glyphNames) == 0
  ensures [C18] nothing: err != nil ==> ret0 == nil
  ensures rdsame(r)
  ensures err == nil ==> rd(r)

func (*font).writePost
  let o = bl(w)
  let keep = f.post.version == 0x00010000 && f.post.numGlyphs == 258
  modifies buffer(w), w.len, f.post.version
  ensures [C15] absent: f.post == nil ==> bl(w) == o
  ensures [C15] len: f.post != nil ==> bl(w) == o + 32
  ensures [C15] version: f.post != nil ==> b32(w, o) == ite(keep, 0x00010000, 0x00030000)
  ensures [C12,C15] kept: f.post != nil && keep ==> f.post.version == old(f.post.version)
  ensures [C15] fields: f.post != nil ==> b32(w, o+4) == u32(f.post.italicAngle) && b16(w, o+8) == u16(f.post.underlinePosition) && b16(w, o+10) == u16(f.post.underlineThickness) && b32(w, o+12) == f.post.isFixedPitch && b32(w, o+16) == f.post.minMemType42 && b32(w, o+20) == f.post.maxMemType42 && b32(w, o+24) == f.post.minMemType1 && b32(w, o+28) == f.post.maxMemType1
  ensures kept(w)
  noerr

// The standard Macintosh glyph ordering (Apple TrueType reference, 'post' table).
list macStd = ".notdef", ".null", "nonmarkingreturn", "space", "exclam", "quotedbl", "numbersign", "dollar",
| "percent", "ampersand", "quotesingle", "parenleft", "parenright", "asterisk", "plus", "comma",
| "hyphen", "period", "slash", "zero", "one", "two", "three", "four",
| "five", "six", "seven", "eight", "nine", "colon", "semicolon", "less",
| "equal", "greater", "question", "at", "A", "B", "C", "D",
| "E", "F", "G", "H", "I", "J", "K", "L",
| "M", "N", "O", "P", "Q", "R", "S", "T",
| "U", "V", "W", "X", "Y", "Z", "bracketleft", "backslash",
| "bracketright", "asciicircum", "underscore", "grave", "a", "b", "c", "d",
| "e", "f", "g", "h", "i", "j", "k", "l",
| "m", "n", "o", "p", "q", "r", "s", "t",
| "u", "v", "w", "x", "y", "z", "braceleft", "bar",
| "braceright", "asciitilde", "Adieresis", "Aring", "Ccedilla", "Eacute", "Ntilde", "Odieresis",
| "Udieresis", "aacute", "agrave", "acircumflex", "adieresis", "atilde", "aring", "ccedilla",
| "eacute", "egrave", "ecircumflex", "edieresis", "iacute", "igrave", "icircumflex", "idieresis",
| "ntilde", "oacute", "ograve", "ocircumflex", "odieresis", "otilde", "uacute", "ugrave",
| "ucircumflex", "udieresis", "dagger", "degree", "cent", "sterling", "section", "bullet",
| "paragraph", "germandbls", "registered", "copyright", "trademark", "acute", "dieresis", "notequal",
| "AE", "Oslash", "infinity", "plusminus", "lessequal", "greaterequal", "yen", "mu",
| "partialdiff", "summation", "product", "pi", "integral", "ordfeminine", "ordmasculine", "Omega",
| "ae", "oslash", "questiondown", "exclamdown", "logicalnot", "radical", "florin", "approxequal",
| "Delta", "guillemotleft", "guillemotright", "ellipsis", "nonbreakingspace", "Agrave", "Atilde", "Otilde",
| "OE", "oe", "endash", "emdash", "quotedblleft", "quotedblright", "quoteleft", "quoteright",
| "divide", "lozenge", "ydieresis", "Ydieresis", "fraction", "currency", "guilsinglleft", "guilsinglright",
| "fi", "fl", "daggerdbl", "periodcentered", "quotesinglbase", "quotedblbase", "perthousand", "Acircumflex",
| "Ecircumflex", "Aacute", "Edieresis", "Egrave", "Iacute", "Icircumflex", "Idieresis", "Igrave",
| "Oacute", "Ocircumflex", "apple", "Ograve", "Uacute", "Ucircumflex", "Ugrave", "dotlessi",
| "circumflex", "tilde", "macron", "breve", "dotaccent", "ring", "cedilla", "hungarumlaut",
| "ogonek", "caron", "Lslash", "lslash", "Scaron", "scaron", "Zcaron", "zcaron",
| "brokenbar", "Eth", "eth", "Yacute", "yacute", "Thorn", "thorn", "minus",
| "multiply", "onesuperior", "twosuperior", "threesuperior", "onehalf", "onequarter", "threequarters", "franc",
| "Gbreve", "gbreve", "Idotaccent", "Scedilla", "scedilla", "Cacute", "cacute", "Ccaron",
| "ccaron", "dcroat"

func init
  ensures [C15] names: len(macGlyphNames) == 258 && each(k, 0, 258, macGlyphNames[k] == macStd(k))
  global [C15] fixed: len(macGlyphNames) == 258
