import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("C01","Untrusted font bytes never crash or hang the library",
 "For every byte string, Parse, ParseFile and the validation functions return (a font or an error) after work bounded by the input: they never panic and never loop forever. Whenever parsing succeeds, every read-only query (rune lookup, cmap and name access, printable summaries), every subsetting operation with any arguments, optimisation, pruning and writing on that font also returns without panicking or hanging.",
 ["inputs","histories"],"all byte strings, valid or hostile, and all sequences of public operations with any arguments on the fonts they parse into",
 "Tests parse a couple of well-formed fonts; panics and endless loops sit in field combinations (a last code of 0xFFFF, decreasing offsets, missing optional tables) that no sample font contains.",
 ["byte_reader.go","font.go","export.go","table_*.go","validate.go","encoding.go","internal/strutils/encoding.go"],
 [("bounds checks before indexing and sized reads","byte_reader.go readBytes/readSlice; table_*.go parsers"),("loop variants of the segment, record and glyph loops","table_cmap.go, table_name.go, table_glyf.go, export.go")],
 obs=["unitype.Parse","unitype.ValidateBytes","Font methods"])
p("C02","A written font is a self-consistent sfnt container",
 "Whenever writing a parsed, optimised, pruned or subset font succeeds, the output starts with a table directory whose count equals the number of its records and of the tables present, each record's offset and length lie inside the file, no two tables and no table and the directory overlap, and every table is the one its tag names. Every record's checksum is the checksum of that table's bytes (head with its adjustment taken as zero) and the head adjustment is 0xB1B0AFBA minus the checksum of the whole file with the adjustment zero, so validation accepts any output that parses.",
 ["inputs","histories"],"all fonts that parse and all sequences of subsetting, optimising, pruning and (repeated) writing on them",
 "Tests write two real fonts and read them back; offsets, padding of odd-length tables and checksums depend on every table's length and bytes.",
 ["font.go","table_record.go","table_offset.go","byte_writer.go","export.go"],
 [("table offsets, lengths and checksums gathered while writing","font.go (*font).write, table_record.go (*tableRecords).Set"),("checksum over big-endian words with zero padding","byte_writer.go (*byteWriter).checksum")],
 obs=["Font.Write","Font.WriteFile"])
p("C03","Validation accepts a font exactly when its checksums are right",
 "For every byte string that parses as a font, validation succeeds if and only if the checksum recorded for every table equals the checksum of exactly that table's bytes (head with the adjustment field taken as zero, last partial word padded with zeros) and the head adjustment equals 0xB1B0AFBA minus the checksum of the whole file with the adjustment zero. Validation of a byte string that does not parse, or whose records reach beyond its end, fails.",
 ["inputs"],"all byte strings, including every corruption of a valid font",
 "Tests validate good fonts only; acceptance of a corrupted byte anywhere, in any table at any alignment, is never tried.",
 ["validate.go","byte_writer.go","export.go"],
 [("whole-file and per-table checksum comparison","validate.go (*font).validate"),("checksum","byte_writer.go (*byteWriter).checksum")],
 obs=["unitype.ValidateBytes","unitype.ValidateFile"])
p("C04","Fixed-layout fields are decoded and encoded exactly",
 "For every font, each field of the offset table, table records, head, maxp, hhea and OS/2 tables has the value that the OpenType layout assigns to its position, width, signedness and the table's version, read at the file offset the table directory gives for that table. Writing puts each field back at its OpenType position with the same value, except those that must be recomputed (number of tables, records, checksums and the adjustment, metric counts), so a parse, write, parse cycle changes nothing else.",
 ["inputs"],"all table contents: every value of every field, every version, every table order in the file",
 "Tests compare a handful of fields of two fonts, with small positive values; sign, width, byte order and version-dependent presence need values the samples do not hold.",
 ["byte_reader.go","byte_writer.go","table_offset.go","table_record.go","table_head.go","table_maxp.go","table_hhea.go","table_os2.go","type.go"],
 [("big-endian field readers","byte_reader.go"),("big-endian field writers","byte_writer.go"),("field lists per table","table_head.go, table_maxp.go, table_hhea.go, table_os2.go")],
 obs=["Parse","Font.Write"])
p("C05","Hinting programs and control values survive byte for byte",
 "For every font, the cvt, fpgm and prep tables read from the file are exactly the bytes the table directory assigns to them, as many values as the recorded length holds, and absent tables stay absent. Writing the font, or any subset or optimised copy of it, writes exactly those bytes back.",
 ["inputs","histories"],"all contents and lengths of the three tables, in any order in the file, through any sequence of deriving and writing",
 "Tests only check that sample fonts parse; a lost tail, a shared slice or a wrong element width shows for particular lengths and values only.",
 ["table_cvt.go","table_fpgm.go","table_prep.go","byte_reader.go","byte_writer.go","export.go","font.go"],
 [("slice readers and writers","byte_reader.go readSlice, byte_writer.go writeSlice"),("table copies when deriving fonts","export.go SubsetKeepIndices, SubsetFirst")],
 obs=["Parse","Font.Write"])
p("C06","Glyph outlines are the bytes located by loca, before and after writing",
 "For every font that parses and every glyph index, the outline data held is exactly the bytes of the glyf table between the glyph's two loca offsets (offsets times two in the short format), an empty range meaning no outline. After writing, the loca and glyf tables of the output locate the very same bytes for every glyph, offsets never decrease, start at zero and end at the length of the glyf table.",
 ["inputs"],"all loca formats, offsets, glyph counts and glyph lengths",
 "Tests look at one or two fonts with a dense loca table; gaps, empty glyphs, a non-zero first offset and large tables never occur in them.",
 ["table_loca.go","table_glyf.go","font.go","export.go"],
 [("offset computation","table_loca.go GetGlyphDataOffset"),("glyph data read","table_glyf.go parseGlyf"),("rebasing and writing","table_loca.go writeLoca, table_glyf.go writeGlyf")],
 obs=["Font.GetGlyphDataOffset","Font.Write"])
p("C07","Horizontal metrics of every glyph survive optimisation, subsetting, writing",
 "For every font and every glyph kept, the advance width (the last full record's for glyphs beyond the full records) and the left side bearing are the same before and after Optimize, subsetting, and writing and parsing again. The number of full records announced in hhea always equals the number present in the hmtx table written, and together with the bearings covers every glyph for which the source had data.",
 ["inputs","histories"],"all metric arrays and glyph counts, repeated equal widths anywhere, any sequence of optimising, subsetting and writing",
 "One test checks a few metric arrays; runs of equal widths, single records, and subset sizes around the boundary between full records and bearings vary independently.",
 ["table_hmtx.go","table_hhea.go","export.go"],
 [("compaction of repeated widths","table_hmtx.go optimizeHmtx"),("truncation when subsetting","export.go SubsetFirst")],
 [("numberOfHMetrics","number of full metric records","table_hhea.go hheaTable")],
 ["Font.Optimize","Font.SubsetFirst","Font.SubsetKeepIndices","Font.Write"])
p("C08","Keeping glyphs keeps everything they are made of, at the same indices",
 "For every font and every list of glyph indices or runes, the subset that keeps them retains, unchanged and at its original index, the outline of every requested glyph and of every glyph any kept composite refers to, directly or through other composites. Every other glyph in the subset has no outline, and the subset ends right after the highest kept index (or where the source ends).",
 ["inputs"],"all fonts, composite structures (nesting depth, sharing, cycles, every flag combination), and requested lists (order, repetition, out-of-range indices)",
 "Tests keep a few runes and look at sizes; closure over nested components with every argument and scale layout is not sampled.",
 ["export.go","table_glyf.go"],
 [("closure over components","export.go SubsetKeepIndices"),("component decoding","table_glyf.go parseComposite, GetComponents")],
 obs=["Font.SubsetKeepIndices","Font.SubsetKeepRunes"])
p("C09","Keeping the first n glyphs yields n glyphs in every table",
 "For every font and n below its glyph count, the font limited to the first n glyphs announces n glyphs, has n outlines equal to the source's first n with loca entries that locate them, at most n metric records, and glyph name data for no more than n glyphs, so that writing it gives a font that parses with n glyphs. With n at or above the glyph count the font comes back with all its glyphs, and a negative n is an error.",
 ["inputs"],"all fonts, both loca formats, every n from negative to beyond the glyph count",
 "Tests use two or three values of n on two fonts and compare sizes.",
 ["export.go","table_glyf.go","table_loca.go","table_post.go","table_maxp.go","table_hhea.go"],
 [("truncation of every per-glyph table","export.go SubsetFirst")],
 obs=["Font.SubsetFirst","Font.Write"])
p("C10","Character maps decode as their formats define",
 "For every font, the map of a subtable in format 0, 4, 6 or 12 sends a character to glyph g exactly when the OpenType rules for that format (segments, deltas, range offsets, trimmed arrays, groups limited to existing glyphs) send the character code to g, the code being read as Unicode for Unicode-encoded subtables and as Mac Roman for Macintosh ones; format 0 and 4 codes with glyph 0, and the segment that ends a format 4 list, map nothing. Every supported subtable of the file is available under its platform and encoding, earlier subtables winning when two share both; after writing, the same maps are read back.",
 ["inputs"],"all subtable contents: segment counts, code ranges including 0xFFFF, deltas that wrap, range offsets, group ranges, several subtables in any order",
 "Tests probe some codes in two fonts; wrapping deltas, range offsets into the glyph array, formats 0 and 6 with gaps and codes above 0xFFFF are not in them.",
 ["table_cmap.go","encoding.go","export.go"],
 [("subtable decoding","table_cmap.go parseCmapSubtableFormat0/4/6/12"),("code to rune decoding","encoding.go getCmapEncoding, DecodeRune"),("subtable encoding","table_cmap.go writeCmap*")],
 [("subtables","decoded subtables keyed by format, platform and encoding","table_cmap.go cmapTable")],
 ["Font.GetCmap","Font.Write"])
p("C11","Subsetting keeps exactly the character mappings of surviving glyphs",
 "After limiting a font to its first n glyphs, and after writing and parsing the result, every character of a Unicode or Macintosh subtable (its codes increasing and standing for distinct characters) that mapped to a glyph below n (other than glyph 0) maps to the same glyph, no character maps to a removed glyph, and no character gains a mapping to a glyph other than 0 that it did not have. A subset whose mapping cannot be represented is reported as an error.",
 ["inputs"],"all character maps of all four formats and every n",
 "Tests subset two fonts and check sizes or a few runes; rebuilt segments depend on the exact set of surviving codes and their runs.",
 ["export.go","table_cmap.go"],
 [("limited copies","table_cmap.go limitedTo"),("segment and group rebuilding","export.go SubsetFirst")],
 obs=["Font.SubsetFirst","Font.GetCmap","Font.Write"])
p("C12","Deriving or writing a subset leaves the source font unaffected",
 "Subsetting by indices, runes or count never changes the font it is called on: every lookup, name, metric, cmap and outline of the source is the same, and writing it gives the same bytes, before and after any number of subsets were derived, optimised, pruned or written, provided fewer glyphs were kept than the source has. Writing a font does not change what its queries answer nor what writing it again produces.",
 ["inputs","histories"],"all fonts and all sequences of deriving, optimising, pruning and writing derived fonts",
 "Tests derive one subset per parsed font and never look back at the source.",
 ["export.go","font.go","table_cmap.go","table_hmtx.go","table_name.go"],
 [("copies of table structures, fresh glyph and cmap containers","export.go SubsetKeepIndices, SubsetFirst"),("copy of the offset table and records when writing","font.go (*font).write")],
 obs=["Font.SubsetFirst","Font.SubsetKeepIndices","Font.Write"])
p("C13","Rune lookup answers every rune from the best character map",
 "For every font and list of runes, lookup returns exactly one glyph index per rune, in order: the mapping of the first among the Windows Unicode BMP, Macintosh Roman, Unicode BMP and Windows full Unicode maps that contains the rune, and 0 when none does. A cmap request returns the map of the first subtable with that platform and encoding, and nothing when there is none; the same call always gives the same answer.",
 ["inputs"],"all combinations of present, absent and overlapping maps, and all rune lists including repeats and invalid runes",
 "Tests look up Latin letters in fonts whose maps agree with one another, so priority and fallback never matter.",
 ["export.go"],
 [("search order","export.go LookupRunes"),("subtable selection","export.go GetCmap")],
 obs=["Font.LookupRunes","Font.GetCmap"])
p("C14","Name records read and written faithfully",
 "For every font, each name record carries the identifiers stored in the file and the string its offset and length locate in the string storage; querying a name gives the first record with that identifier, decoded as UTF-16 for Windows Unicode and symbol records and as Mac Roman for Macintosh records with unprintable characters quoted, and the record listing holds for every language and identifier the last such record. After writing and parsing, all identifiers, language tags and string bytes are the same.",
 ["inputs"],"all record counts, identifiers, string lengths and bytes, both table formats, shared and overlapping strings",
 "Tests print names of sample fonts; overlapping storage, language tags, empty and odd-length strings, surrogates and repeated identifiers are not sampled.",
 ["table_name.go","internal/strutils/encoding.go"],
 [("record and storage parsing","table_name.go parseNameTable"),("storage rebuilt on writing","table_name.go writeNameTable"),("decoding","table_name.go Decoded")],
 obs=["Font.GetNameByID","Font.GetNameRecords","Font.Write"])
p("C15","Glyph names come from the post table as its version defines",
 "For every font with a post table, the header fields have the stored values and the glyph names are: the 258 standard Macintosh names for version 1, for version 2 the standard name for indices below 258 and otherwise the stored string with that number, for version 2.5 the standard name at the glyph's index plus one plus its signed offset, and none otherwise. Writing keeps the other header fields and either the version 1 table or a version without names, never a table whose version promises data that is missing.",
 ["inputs"],"all versions, glyph counts, name indices, string lengths up to 255 bytes and offsets of both signs",
 "Sample fonts use versions 2 and 3 with short names; other versions and long names never occur.",
 ["table_post.go","encoding.go"],
 [("name resolution","table_post.go parsePost"),("version chosen on writing","table_post.go writePost")],
 obs=["Parse","Font.Write"])
p("C16","Text codecs are exact and inverse to one another",
 "For every byte string, decoding UTF-16BE gives the code points the Unicode standard assigns (surrogate pairs combined, lone surrogates replaced, an odd trailing byte padded with zero, a single byte taken as its code), without changing the caller's bytes, and encoding then decoding gives back every string without lone surrogates. PDFDocEncoding decodes each defined byte to its assigned character and skips undefined ones, and encoding a string skips unmapped characters and inverts decoding on the rest.",
 ["inputs"],"all byte strings and all strings",
 "Tests encode a few words; odd lengths, surrogate pairs, undefined bytes and the 256-entry table are not covered.",
 ["internal/strutils/encoding.go","internal/strutils/pdfdocenc.go"],
 [("UTF-16 conversion","internal/strutils/encoding.go UTF16ToRunes, StringToUTF16"),("PDFDocEncoding table and its inverse","internal/strutils/pdfdocenc.go, encoding.go init")],
 obs=["strutils functions","Font.GetNameByID"])
p("C17","Pruning removes exactly the named tables",
 "For every font and list of table names, pruning removes cmap, post and name when (and only when) they are named, ignores unknown names and repetitions, and leaves every other table's content as it was. Writing the pruned font gives a file without the removed tables in which all other tables have the bytes they would have had without pruning, apart from offsets and checksums.",
 ["inputs"],"all fonts and all lists of table names, in any order and repeated",
 "Tests prune one list and look at the file size.",
 ["export.go","font.go"],
 [("table removal","export.go PruneTables"),("presence-driven writing","font.go numTablesToWrite, write")],
 obs=["Font.PruneTables","Font.Write"])
p("C18","Failures and truncated input are reported, never turned into data",
 "A read error or a file that ends inside the data a table's own counts require makes parsing return that failure rather than a font with missing or invented values, and no partially filled font comes with an error. An error or short count from the destination while writing is returned by the write call, and a font that lacks what a written table needs gives an error rather than a broken file.",
 ["inputs","fault_sequences"],"all truncation points of all fonts, every position at which the reader or the writer fails, including short reads and writes",
 "Tests never inject failures: in-memory readers and buffers do not fail.",
 ["byte_reader.go","byte_writer.go","font.go","export.go","table_*.go"],
 [("full reads and error returns","byte_reader.go readBytes and readX"),("error propagation through table writers and flush","byte_writer.go flush, font.go write, export.go Write")],
 obs=["Parse","Font.Write"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
