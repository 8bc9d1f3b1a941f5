COMMON = " Sequential execution and a contract-abiding io.ReadSeeker/io.Writer are assumed; contracts assumed on the standard library are listed in the evidence. Functions without a contract are only covered by the bounded leg."
NOTE = {
 "C01": "Proved: no index, slice, nil, type-assertion, division or conversion fault and termination of every loop, in every function under contract (readers, writers, table parsers and writers listed in the evidence), for all inputs.",
 "C02": "Proved: (*font).write - record count, tag order, contiguous records inside the file, every checksum and the head adjustment - for every font it succeeds on, plus the table directory, records, and the bytes each table writer puts out.",
 "C03": "Proved: validate succeeds exactly when every table checksum and the head adjustment are right, fails when a record reaches beyond the file, for all files below 4 GiB and all records; ValidateBytes/ValidateFile themselves are thin wrappers covered by the bounded leg.",
 "C04": "Proved: every field of offset table, records, head, maxp, hhea, OS/2, for all inputs, both directions.",
 "C05": "Proved: cvt, fpgm, prep parse and write, for all inputs.",
 "C06": "Proved: loca/glyf parse and write, glyph data lookup, for all inputs.",
 "C07": "Proved: hmtx parse, write, optimise, for all inputs.",
 "C08": "Proved: composite glyph component lists are exactly the ones encoded, for all inputs.",
 "C09": "Proved: SubsetFirst for every font and every n - glyph count, outlines, glyph locations, metrics, glyph names, and that a count at or above the font's returns the font itself and a negative one an error. That writing and parsing the result agrees rests on the contracts of the writers and table parsers (C04-C07, C15); the composition as a whole is bounded.",
 "C10": "Proved: writing of the cmap table - header, encoding records, offsets, every field and array of every format 0, 4, 6, 12 subtable - for all tables; the parsing side is bounded only.",
 "C11": "Proved: the mappings the subset carries in memory are exactly the source's below n, for every subtable of every font; the rebuilt subtable bytes after writing and parsing are bounded only, as far as the evidence lists no obligation for them.",
 "C12": "Proved: SubsetFirst writes nothing that exists before the call (frame), and gives the subset its own copy of every table it may later change; Optimize and PruneTables change only the font they are called on; write changes only the fields its contract lists. Histories of several operations follow by composing these; sequences are also run in the bounded leg.",
 "C13": "Proved: GetCmap and LookupRunes, for all fonts and inputs.",
 "C14": "Proved: name table parse (records, strings, language tags) and write (header, records, offsets and lengths, string bytes), decoding of every platform, GetNameByID and GetNameRecords, for all inputs.",
 "C15": "Proved: post table parse (versions 1, 2, 2.5, others) and write, for all inputs.",
 "C16": "Proved: UTF-16BE and PDFDocEncoding encoding and decoding (the standard library's UTF-16 code included) and both round trips, for all inputs.",
 "C17": "Proved: PruneTables and Optimize, for all fonts and table lists; the written bytes are covered by the bounded leg.",
 "C18": "Proved: in every parser and writer under contract, a failing read, short data or failing write gives an error, for all inputs.",
}
NA = {i: "contracts for the functions it rests on are not discharged yet" for i in ["C%02d" % k for k in range(1, 19)]}
