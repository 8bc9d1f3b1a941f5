From 38af6537d24ae1eabb78bd945ecf179d40cf8450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 01/29] fix: makeTag: pad tags shorter than three characters to
 four bytes with spaces

---
 type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/type.go b/type.go
index 754972c..3af9623 100644
--- a/type.go
+++ b/type.go
@@ -84,7 +84,7 @@ func makeTag(s string) tag {
 	}
 	if len(bb) < 4 {
 		// Pad with spaces to fill 4 bytes.
-		for i := 0; i < 4-len(bb); i++ {
+		for len(bb) < 4 {
 			bb = append(bb, ' ')
 		}
 	}
-- 
2.43.0


From f0086e7789f9b1af8e13ab400dbeed7c92ca145a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 02/29] fix: cmap format 4: terminate on a segment whose end
 code is 0xFFFF

---
 table_cmap.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/table_cmap.go b/table_cmap.go
index d5359ef..37e7b1a 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -287,7 +287,8 @@ func (f *font) parseCmapSubtableFormat4(r *byteReader, platformID, encodingID in
 
 		logrus.Debugf("Segment %d/%d, c1: %d, c2: %d, d: %d, rangeOffset: %d", i+1, segCount, c1, c2, d, rangeOffset)
 
-		for c := c1; c <= c2; c++ {
+		for code := uint32(c1); code <= uint32(c2); code++ {
+			c := uint16(code)
 			var gid uint16
 
 			if rangeOffset == 0 {
-- 
2.43.0


From f8a871fb72c4021135750c1b89353fb73f75eb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 03/29] fix: cmap format 4: do not wrap the glyph array index
 at 16 bits

---
 table_cmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index 37e7b1a..08d6533 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -294,9 +294,9 @@ func (f *font) parseCmapSubtableFormat4(r *byteReader, platformID, encodingID in
 			if rangeOffset == 0 {
 				gid = (c + d) & 0xFFFF
 			} else {
-				index := int(rangeOffset/2 + (c - c1) + uint16(i) - uint16(len(st.idRangeOffset)))
+				index := int(rangeOffset/2) + int(c-c1) + i - len(st.idRangeOffset)
 
-				if index >= len(st.glyphIDArray) {
+				if index < 0 || index >= len(st.glyphIDArray) {
 					logrus.Debugf("c1=%d c=%d c2=%d", c1, c, c2)
 					logrus.Debugf("ERROR: index outside bounds (%d/%d)", index, len(st.glyphIDArray))
 					return nil, errors.New("outside bounds")
-- 
2.43.0


From ef0af728e4a0cc872f7573faa450721e349b0a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:06 +0000
Subject: [PATCH 04/29] fix: glyf: reject decreasing loca offsets instead of
 panicking

---
 table_glyf.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/table_glyf.go b/table_glyf.go
index 196d396..ff89359 100644
--- a/table_glyf.go
+++ b/table_glyf.go
@@ -59,6 +59,10 @@ func (f *font) parseGlyf(r *byteReader) (*glyfTable, error) {
 			return nil, err
 		}
 
+		if gdLen < 0 {
+			logrus.Debugf("gid: %d, negative glyph data length: %d", gid, gdLen)
+			return nil, errRangeCheck
+		}
 		if gdOffset > int64(tr.length) {
 			logrus.Debugf("gid: %d, gdOffset: %d, tr len: %d, gd len: %d", gid, gdOffset, tr.length, gdLen)
 			logrus.Debugf("Range check error (glyf): %d > %d", gdOffset, tr.length)
-- 
2.43.0


From 9b3011fa7f52cbb604410c9c0a05358ebc9fdc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:06 +0000
Subject: [PATCH 05/29] fix: post version 2.0: glyph name lengths are unsigned

---
 table_post.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table_post.go b/table_post.go
index 261ea65..b95005b 100644
--- a/table_post.go
+++ b/table_post.go
@@ -123,7 +123,7 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 				logrus.Debugf("%d > %d", r.Offset()-start, tr.length)
 				return nil, errors.New("reading outside table")
 			}
-			var numChars int8
+			var numChars uint8
 			err = r.read(&numChars)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 3aa765134e790d350f32358dddcb825b9e331ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:06 +0000
Subject: [PATCH 06/29] fix: post version 2.5: support reading the int8 offset
 array

---
 byte_reader.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/byte_reader.go b/byte_reader.go
index 48c5d43..fbb7f61 100644
--- a/byte_reader.go
+++ b/byte_reader.go
@@ -73,6 +73,14 @@ func (r *byteReader) readSlice(slice interface{}, length int) error {
 			}
 			*t = append(*t, val)
 		}
+	case *[]int8:
+		for i := 0; i < length; i++ {
+			val, err := r.readInt8()
+			if err != nil {
+				return err
+			}
+			*t = append(*t, val)
+		}
 	case *[]uint16:
 		for i := 0; i < length; i++ {
 			val, err := r.readUint16()
-- 
2.43.0


From 9a234d6efaad78e83ecbf14f84e459b197aed324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 07/29] fix: post version 1.0: take the number of glyphs from
 maxp, write it only for the 258 standard glyphs

---
 table_post.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/table_post.go b/table_post.go
index b95005b..3190724 100644
--- a/table_post.go
+++ b/table_post.go
@@ -84,6 +84,7 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 	logrus.Debugf("Version: %v %v 0x%X", t.version, t.version.Float64(), t.version)
 	switch uint32(t.version) {
 	case 0x00010000: // 1.0 - font files contains exactly the 258 standard Macintosh glyphs.
+		t.numGlyphs = f.maxp.numGlyphs
 		if t.numGlyphs != 258 {
 			logrus.Debug("Should have the mac number of glyph names")
 			// TODO(gunnsth): If this is too strict, can just set the first 258 glyphnames.
@@ -209,7 +210,7 @@ func (f *font) writePost(w *byteWriter) error {
 
 	// TODO(gunnsth): Write out with v1.0 or v2.0.
 	version := t.version
-	if version != 0x00010000 {
+	if version != 0x00010000 || t.numGlyphs != 258 {
 		// Include no postscript data.
 		// TODO(gunnsth): support writing v2.0.
 		version = 0x00030000
-- 
2.43.0


From 91618a5f174cd6e384950e817c30230340c6810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 08/29] fix: cmap: write the number of encoding records
 actually written and report header write errors

---
 table_cmap.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index 08d6533..74af03e 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -558,8 +558,6 @@ func (f *font) writeCmap(w *byteWriter) error {
 	}
 	t := f.cmap
 
-	err := w.write(t.version, t.numTables)
-
 	// Write the cmap subtables to an in-memory mock buffer to calculate offsets.
 	var mockBuffer bytes.Buffer
 	mockWriter := newByteWriter(&mockBuffer)
@@ -603,7 +601,13 @@ func (f *font) writeCmap(w *byteWriter) error {
 			encodingRecords = append(encodingRecords, rec)
 		}
 	}
-	err = mockWriter.flush()
+	err := mockWriter.flush()
+	if err != nil {
+		return err
+	}
+
+	// The header counts the encoding records that are actually written.
+	err = w.write(t.version, uint16(len(encodingRecords)))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 8d02bdc31ebdf020a2583494510efd691758224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 09/29] fix: cmap format 4: report write errors

---
 table_cmap.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index 74af03e..b596d2d 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -364,19 +364,19 @@ func writeCmapSubtableFormat4(subtable *cmapSubtable, w *byteWriter) error {
 	}
 	err = w.write(subt.reservedPad)
 	if err != nil {
-		return nil
+		return err
 	}
 	err = w.writeSlice(subt.startCode)
 	if err != nil {
-		return nil
+		return err
 	}
 	err = w.writeSlice(subt.idDelta)
 	if err != nil {
-		return nil
+		return err
 	}
 	err = w.writeSlice(subt.idRangeOffset)
 	if err != nil {
-		return nil
+		return err
 	}
 	// TODO: Problem: the following slice is not populated.
 	return w.writeSlice(subt.glyphIDArray)
-- 
2.43.0


From 93d9877b2cb62bc2e57d404f512e38572480f9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:08 +0000
Subject: [PATCH 10/29] fix: cmap format 0: the glyph array is indexed by
 character code

---
 table_cmap.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index b596d2d..ed9b44a 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -166,15 +166,19 @@ func (f *font) parseCmapSubtableFormat0(r *byteReader, platformID, encodingID in
 	charcodes := make([]CharCode, len(st.glyphIDArray))
 	charcodeToGID := map[CharCode]GlyphIndex{}
 
-	for glyphID, code := range st.glyphIDArray {
-		charcodeToGID[CharCode(code)] = GlyphIndex(glyphID)
+	for code, gid := range st.glyphIDArray {
 		codeBytes := runeDecoder.ToBytes(uint32(code))
 		r := runeDecoder.DecodeRune(codeBytes)
-		runes[glyphID] = r
-		charcodes[glyphID] = CharCode(code)
+		runes[code] = r
+		charcodes[code] = CharCode(code)
+		if gid == 0 {
+			// Not mapped.
+			continue
+		}
+		charcodeToGID[CharCode(code)] = GlyphIndex(gid)
 		if _, has := cmap[r]; !has {
 			// Avoid overwrite, if get same twice, use the earlier entry.
-			cmap[r] = GlyphIndex(glyphID)
+			cmap[r] = GlyphIndex(gid)
 			runeToCharcodeBytes[r] = codeBytes
 		}
 	}
-- 
2.43.0


From 93507a048753935a468c85e9b23e88ef2d2e10c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:08 +0000
Subject: [PATCH 11/29] fix: cmap format 12: check the start glyph before
 truncating it to 16 bits

---
 table_cmap.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index ed9b44a..73d4a62 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -498,12 +498,12 @@ func (f *font) parseCmapSubtableFormat12(r *byteReader, platformID, encodingID i
 	charcodes := make([]CharCode, f.maxp.numGlyphs)
 	charcodeMap := make(map[CharCode]GlyphIndex, f.maxp.numGlyphs)
 	for _, group := range st.groups {
-		gid := GlyphIndex(group.startGlyphID)
-		if int(gid) >= int(f.maxp.numGlyphs) {
-			logrus.Debugf("gid >= numGlyphs (%d > %d)", gid, f.maxp.numGlyphs)
+		if group.startGlyphID >= uint32(f.maxp.numGlyphs) {
+			logrus.Debugf("gid >= numGlyphs (%d > %d)", group.startGlyphID, f.maxp.numGlyphs)
 			logrus.Debugf("Error: %v", errRangeCheck)
 			return nil, errRangeCheck
 		}
+		gid := GlyphIndex(group.startGlyphID)
 		for charcode := group.startCharCode; charcode <= group.endCharCode; charcode++ {
 			if int(gid) >= int(f.maxp.numGlyphs) {
 				break
-- 
2.43.0


From bb0dd53c949f604da6a7def6ff156f3d03f382bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:08 +0000
Subject: [PATCH 12/29] fix: cmap: decode Unicode full repertoire subtables
 without truncating to 16 bits

---
 encoding.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encoding.go b/encoding.go
index 3f90ae7..1da6a4c 100644
--- a/encoding.go
+++ b/encoding.go
@@ -77,6 +77,10 @@ const (
 func getCmapEncoding(platformID, encodingID int) cmapEncoding {
 	switch platformID {
 	case platformIDUnicode:
+		switch encodingID {
+		case 4, 6: // Unicode full repertoire.
+			return cmapEncodingUCS4
+		}
 		return cmapEncodingUCS2
 	case platformIDMacintosh:
 		return cmapEncodingMacRoman
-- 
2.43.0


From 35cb684ce2bde9577983878d847f62b51d0db9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:09 +0000
Subject: [PATCH 13/29] fix: GetCmap: pick the first matching subtable in file
 order rather than a random one

---
 export.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/export.go b/export.go
index 72b111b..40bee15 100644
--- a/export.go
+++ b/export.go
@@ -84,7 +84,8 @@ func (f *Font) GetCmap(platformID, encodingID int) map[rune]GlyphIndex {
 		return nil
 	}
 
-	for _, subt := range f.cmap.subtables {
+	for _, key := range f.cmap.subtableKeys {
+		subt := f.cmap.subtables[key]
 		if subt.platformID == platformID && subt.encodingID == encodingID {
 			return subt.cmap
 		}
-- 
2.43.0


From c6d99834c26b47ce0f6939cc317b4455e0960fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:09 +0000
Subject: [PATCH 14/29] fix: PDFDocEncoding: code 0x16 is U+0016

---
 internal/strutils/pdfdocenc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/strutils/pdfdocenc.go b/internal/strutils/pdfdocenc.go
index 7b51bbf..6c0c61c 100644
--- a/internal/strutils/pdfdocenc.go
+++ b/internal/strutils/pdfdocenc.go
@@ -30,7 +30,7 @@ var pdfDocEncoding = map[byte]rune{
 	0x13: '\u0013', //     "controlDC3"
 	0x14: '\u0014', //     "controlDC4"
 	0x15: '\u0015', //     "controlNAK"
-	0x16: '\u0017', //     "controlETB"
+	0x16: '\u0016', //     "controlSYN"
 	0x17: '\u0017', //     "controlETB"
 	0x18: '\u02d8', //  ˘  "breve"
 	0x19: '\u02c7', //  ˇ  "caron"
-- 
2.43.0


From 9ae9a569c7890cc10f8404e19b3a177435bc4692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:09 +0000
Subject: [PATCH 15/29] fix: UTF16ToRunes: do not write to the caller's memory
 when padding

---
 internal/strutils/encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/strutils/encoding.go b/internal/strutils/encoding.go
index ec350af..587dc95 100644
--- a/internal/strutils/encoding.go
+++ b/internal/strutils/encoding.go
@@ -28,7 +28,7 @@ func UTF16ToRunes(b []byte) []rune {
 		return []rune{rune(b[0])}
 	}
 	if len(b)%2 != 0 {
-		b = append(b, 0)
+		b = append(b[:len(b):len(b)], 0)
 		logrus.Debug("ERROR: UTF16ToRunes. Padding with zeros.")
 	}
 	n := len(b) >> 1
-- 
2.43.0


From 82d9c24d31350640d45fcf7d0bcbf632aa49384d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 16/29] fix: GetNameRecords: no panic when the font has no name
 table

---
 table_name.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/table_name.go b/table_name.go
index dfa7be2..09787b5 100644
--- a/table_name.go
+++ b/table_name.go
@@ -69,6 +69,10 @@ func (f *font) GetNameByID(nameID int) string {
 // that contais name ID and it's value.
 func (f *font) GetNameRecords() map[uint16]map[uint16]string {
 	var nameRecords = make(map[uint16]map[uint16]string, 0)
+	if f == nil || f.name == nil {
+		logrus.Debug("ERROR: Font or name not set")
+		return nameRecords
+	}
 	for _, nr := range f.name.nameRecords {
 		nameRec, ok := nameRecords[nr.languageID]
 		if ok {
-- 
2.43.0


From 00d47b525d80348a13f4fd8ca38e7a791db7825f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 17/29] fix: Optimize: no panic when the font has no hmtx table

---
 table_hmtx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/table_hmtx.go b/table_hmtx.go
index 3789369..a53d4d7 100644
--- a/table_hmtx.go
+++ b/table_hmtx.go
@@ -60,6 +60,9 @@ func (f *font) parseHmtx(r *byteReader) (*hmtxTable, error) {
 
 // optimizeHmtx optimizes the htmx table.
 func (f *font) optimizeHmtx() {
+	if f.hmtx == nil || f.hhea == nil {
+		return
+	}
 	i := len(f.hmtx.hMetrics) - 1
 	if i <= 0 {
 		return
-- 
2.43.0


From 764b96aba071f837d0e65014944c024a4f67b52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 18/29] fix: SubsetKeepIndices: no panic when the font has no
 glyf table

---
 table_glyf.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/table_glyf.go b/table_glyf.go
index ff89359..e708666 100644
--- a/table_glyf.go
+++ b/table_glyf.go
@@ -249,6 +249,10 @@ func (f compositeGlyphFlag) IsSet(flag compositeGlyphFlag) bool {
 
 // Returns list of glyphs that `gid` depends on (other than itself).
 func (glyf *glyfTable) GetComponents(gid GlyphIndex) ([]GlyphIndex, error) {
+	if glyf == nil {
+		logrus.Debug("glyf table not present")
+		return nil, nil
+	}
 	if int(gid) >= len(glyf.descs) {
 		logrus.Debugf("GID not accessible (%d > %d)", gid, len(glyf.descs))
 		return nil, nil
-- 
2.43.0


From aac6b6fc71f37b24cf156cb8b19a83f52813858e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 19/29] fix: SubsetFirst: reject a negative number of glyphs
 instead of panicking

---
 export.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/export.go b/export.go
index 40bee15..78d544c 100644
--- a/export.go
+++ b/export.go
@@ -286,6 +286,10 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 		logrus.Debugf("Attempting to subset font with same number of glyphs - Ignoring, returning same back")
 		return f, nil
 	}
+	if numGlyphs < 0 {
+		logrus.Debugf("Invalid number of glyphs: %d", numGlyphs)
+		return nil, errRangeCheck
+	}
 	newfnt := font{}
 
 	newfnt.ot = &offsetTable{}
-- 
2.43.0


From fcaeb91f92ecf29baa582a7f2d40c1e822ba6a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:11 +0000
Subject: [PATCH 20/29] fix: subset: glyph data of 64 kB or more in a short
 loca table

---
 export.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/export.go b/export.go
index 78d544c..813f2b6 100644
--- a/export.go
+++ b/export.go
@@ -219,7 +219,7 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 		}
 		for i, desc := range newfnt.glyf.descs {
 			if isShort {
-				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw))/2
+				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw)/2)
 			} else {
 				newfnt.loca.offsetsLong[i+1] = newfnt.loca.offsetsLong[i] + offset32(len(desc.raw))
 			}
@@ -350,7 +350,7 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 		}
 		for i, desc := range newfnt.glyf.descs {
 			if isShort {
-				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw))/2
+				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw)/2)
 			} else {
 				newfnt.loca.offsetsLong[i+1] = newfnt.loca.offsetsLong[i] + offset32(len(desc.raw))
 			}
-- 
2.43.0


From f6db721625362dfcf7d5269586539ef74e6c4255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:11 +0000
Subject: [PATCH 21/29] fix: loca: write offsets that match the written glyf
 table when the first glyph is not at offset 0

---
 table_loca.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/table_loca.go b/table_loca.go
index 9940b6b..b972eed 100644
--- a/table_loca.go
+++ b/table_loca.go
@@ -109,7 +109,16 @@ func (f *font) writeLoca(w *byteWriter) error {
 		if numGlyphs+1 != len(t.offsetsShort) {
 			logrus.Debug("Unexpected length")
 		}
-		return w.writeSlice(t.offsetsShort)
+		// Glyph data is written contiguously from the start of the glyf table.
+		offsets := make([]offset16, len(t.offsetsShort))
+		for i, offset := range t.offsetsShort {
+			offsets[i] = offset - t.offsetsShort[0]
+		}
+		return w.writeSlice(offsets)
+	}
+	offsets := make([]offset32, len(t.offsetsLong))
+	for i, offset := range t.offsetsLong {
+		offsets[i] = offset - t.offsetsLong[0]
 	}
-	return w.writeSlice(t.offsetsLong)
+	return w.writeSlice(offsets)
 }
-- 
2.43.0


From eff7dff4aa9e9bd51663d824a5e1962c7d94c980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:11 +0000
Subject: [PATCH 22/29] fix: glyf: do not hide the error of a broken composite
 glyph on later accesses

---
 table_glyf.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/table_glyf.go b/table_glyf.go
index e708666..5f67e73 100644
--- a/table_glyf.go
+++ b/table_glyf.go
@@ -124,7 +124,12 @@ func (gd *glyphDescription) parse() error {
 		return nil
 	}
 
-	return gd.parseComposite(r)
+	err = gd.parseComposite(r)
+	if err != nil {
+		// Not loaded: report the error again on the next attempt.
+		gd.header = nil
+	}
+	return err
 }
 
 func (gd *glyphDescription) parseHeader(r *byteReader) error {
-- 
2.43.0


From 946bd7fb8fc0d2b786d8a34cee8ffe04d3a7563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:12 +0000
Subject: [PATCH 23/29] fix: name: report string storage that 16-bit offsets
 cannot address

---
 table_name.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/table_name.go b/table_name.go
index 09787b5..48e1e65 100644
--- a/table_name.go
+++ b/table_name.go
@@ -7,6 +7,7 @@ package unitype
 
 import (
 	"bytes"
+	"math"
 	"strconv"
 	"unicode"
 	"unicode/utf8"
@@ -282,6 +283,10 @@ func (f *font) writeNameTable(w *byteWriter) error {
 				return err
 			}
 		}
+		if bufw.bufferedLen() > math.MaxUint16 {
+			logrus.Debug("name string storage too large")
+			return errRangeCheck
+		}
 		err := bufw.flush()
 		if err != nil {
 			return err
-- 
2.43.0


From 5bdfc9ffab953feb044774da76e724d4698944d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:08 +0000
Subject: [PATCH 24/29] fix: name: report record counts that put the strings
 beyond a 16-bit offset

---
 table_name.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/table_name.go b/table_name.go
index 48e1e65..7551b73 100644
--- a/table_name.go
+++ b/table_name.go
@@ -299,10 +299,15 @@ func (f *font) writeNameTable(w *byteWriter) error {
 	t.langTagCount = uint16(len(t.langTagRecords))
 
 	// 2+2+2+count*(6*2) + (format=1) 2+langTagCount*2
-	t.stringOffset = 6 + offset16(t.count)*12
+	stringOffset := 6 + len(t.nameRecords)*12
 	if t.format == 1 {
-		t.stringOffset += 2 + offset16(t.langTagCount)*4
+		stringOffset += 2 + len(t.langTagRecords)*4
 	}
+	if stringOffset > math.MaxUint16 {
+		logrus.Debug("too many name records")
+		return errRangeCheck
+	}
+	t.stringOffset = offset16(stringOffset)
 
 	logrus.Debugf("w @ %d", w.bufferedLen())
 	err := w.write(t.format, t.count, t.stringOffset)
-- 
2.43.0


From e71b69783014b7b16c306362f534cc04f2fd91d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:08 +0000
Subject: [PATCH 25/29] fix: SubsetKeepIndices: leave the glyph data of the
 source font alone

---
 export.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/export.go b/export.go
index 813f2b6..2be63c9 100644
--- a/export.go
+++ b/export.go
@@ -197,15 +197,16 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 	if f.font.glyf != nil && f.font.loca != nil {
 		newfnt.loca = &locaTable{}
 		newfnt.glyf = &glyfTable{}
-		*newfnt.glyf = *f.font.glyf
 
 		// Empty glyf contents for non-included glyphs.
-		for i := range newfnt.glyf.descs {
+		newfnt.glyf.descs = make([]*glyphDescription, len(f.font.glyf.descs))
+		for i, desc := range f.font.glyf.descs {
 			if _, has := gidIncludedMap[GlyphIndex(i)]; has {
+				newfnt.glyf.descs[i] = desc
 				continue
 			}
 
-			newfnt.glyf.descs[i].raw = nil
+			newfnt.glyf.descs[i] = &glyphDescription{}
 		}
 
 		// Update loca offsets.
-- 
2.43.0


From f19a5115af93a52dad4a4d68c1f0df87e99beffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:09 +0000
Subject: [PATCH 26/29] fix: SubsetFirst: leave the character maps of the
 source font alone and drop removed glyphs from the subset's

---
 export.go     |  9 +++++++--
 table_cmap.go | 18 ++++++++++++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/export.go b/export.go
index 2be63c9..2f9716d 100644
--- a/export.go
+++ b/export.go
@@ -408,14 +408,17 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 		}
 
 		for _, name := range f.cmap.subtableKeys {
-			subt := f.cmap.subtables[name]
+			// Work on a copy: the source font keeps its own subtables.
+			subt := f.cmap.subtables[name].limitedTo(numGlyphs)
 			switch t := subt.ctx.(type) {
 			case cmapSubtableFormat0:
+				t.glyphIDArray = append([]uint8{}, t.glyphIDArray...)
 				for i := range t.glyphIDArray {
-					if i > numGlyphs {
+					if int(t.glyphIDArray[i]) >= numGlyphs {
 						t.glyphIDArray[i] = 0
 					}
 				}
+				subt.ctx = t
 			case cmapSubtableFormat4:
 				newt := cmapSubtableFormat4{}
 				// Generates a new table: going from glyph index 0 up to numGlyphs.
@@ -472,11 +475,13 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 				newt.rangeShift = uint16(segments*2) - newt.searchRange
 				subt.ctx = newt
 			case cmapSubtableFormat6:
+				t.glyphIDArray = append([]uint16{}, t.glyphIDArray...)
 				for i := range t.glyphIDArray {
 					if int(t.glyphIDArray[i]) >= numGlyphs {
 						t.glyphIDArray[i] = 0
 					}
 				}
+				subt.ctx = t
 			case cmapSubtableFormat12:
 				newt := cmapSubtableFormat12{}
 				groups := 0
diff --git a/table_cmap.go b/table_cmap.go
index 73d4a62..ab4d3c6 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -127,6 +127,24 @@ type cmapSubtable struct {
 	runeToCharcodeBytes map[rune][]byte // Quick for going rune -> encoded bytes (charcodes).
 }
 
+// limitedTo returns a copy of `subt` with the mappings to glyphs beyond the first `numGlyphs` removed.
+func (subt *cmapSubtable) limitedTo(numGlyphs int) *cmapSubtable {
+	limited := *subt
+	limited.cmap = make(map[rune]GlyphIndex, len(subt.cmap))
+	for r, gid := range subt.cmap {
+		if int(gid) < numGlyphs {
+			limited.cmap[r] = gid
+		}
+	}
+	limited.charcodeToGID = make(map[CharCode]GlyphIndex, len(subt.charcodeToGID))
+	for code, gid := range subt.charcodeToGID {
+		if int(gid) < numGlyphs {
+			limited.charcodeToGID[code] = gid
+		}
+	}
+	return &limited
+}
+
 // cmapSubtableFormat0 represents format 0: Byte encoding table.
 // This is the Apple standard character to glyph index mapping table.
 type cmapSubtableFormat0 struct {
-- 
2.43.0


From 3c3cabb3a3c4aa0a33114606ba5c6cb1f71cf5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:09 +0000
Subject: [PATCH 27/29] fix: SubsetFirst: always terminate a rebuilt cmap
 format 4 subtable, report one that does not fit

---
 export.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/export.go b/export.go
index 2f9716d..50e17c5 100644
--- a/export.go
+++ b/export.go
@@ -459,12 +459,15 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 					i = j
 				}
 
-				if segments > 0 && newt.endCode[segments-1] < 65535 {
-					newt.endCode = append(newt.endCode, 65535)
-					newt.startCode = append(newt.startCode, 65535)
-					newt.idDelta = append(newt.idDelta, 1)
-					newt.idRangeOffset = append(newt.idRangeOffset, 0)
-					segments++
+				// The last segment only terminates the list.
+				newt.endCode = append(newt.endCode, 65535)
+				newt.startCode = append(newt.startCode, 65535)
+				newt.idDelta = append(newt.idDelta, 1)
+				newt.idRangeOffset = append(newt.idRangeOffset, 0)
+				segments++
+				if 2*segments > math.MaxUint16 {
+					logrus.Debugf("Too many segments for cmap format 4: %d", segments)
+					return nil, errRangeCheck
 				}
 
 				newt.length = uint16(2*8 + 2*4*segments)
-- 
2.43.0


From 92125a89fe12010815e5e23af7bd8c3fc6a4a44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:57 +0000
Subject: [PATCH 28/29] fix: cmap: keep every subtable when several share
 format, platform and encoding

---
 table_cmap.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/table_cmap.go b/table_cmap.go
index ab4d3c6..08c7cb5 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -26,7 +26,7 @@ type cmapTable struct {
 
 	// Processed data:
 	subtables    map[string]*cmapSubtable
-	subtableKeys []string // "format,platformID,encodingID".
+	subtableKeys []string // "format,platformID,encodingID" (and a number when used already).
 }
 
 type encodingRecord struct {
@@ -102,6 +102,10 @@ func (f *font) parseCmap(r *byteReader) (*cmapTable, error) {
 		}
 		if cmap != nil {
 			key := fmt.Sprintf("%d,%d,%d", format, enc.platformID, enc.encodingID)
+			if _, has := t.subtables[key]; has {
+				// E.g. Macintosh subtables for different languages.
+				key = fmt.Sprintf("%s,%d", key, len(t.subtableKeys))
+			}
 			t.subtables[key] = cmap
 			t.subtableKeys = append(t.subtableKeys, key)
 			logrus.Debugf("KEY: %s <-> %T", key, cmap.ctx)
-- 
2.43.0


From bcc059524dac1bbef17c07dcdaeec41685839691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:46 +0000
Subject: [PATCH 29/29] fix: report a short write of the destination

---
 byte_writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/byte_writer.go b/byte_writer.go
index 4fec70c..0d8548c 100644
--- a/byte_writer.go
+++ b/byte_writer.go
@@ -35,6 +35,9 @@ func (w *byteWriter) flush() error {
 	if err != nil {
 		return err
 	}
+	if n < len(b) {
+		return io.ErrShortWrite
+	}
 	w.flushedLen += int64(n)
 
 	w.buffer.Reset()
-- 
2.43.0

