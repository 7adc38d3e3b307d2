From 9a11c77fbc401fd934ca2dd5cf5f8063f14235f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 01/42] fix: refuse glyph locations that decrease or leave the
 glyf table

---
 table_glyf.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/table_glyf.go b/table_glyf.go
index 196d396..338cdca 100644
--- a/table_glyf.go
+++ b/table_glyf.go
@@ -59,9 +59,9 @@ func (f *font) parseGlyf(r *byteReader) (*glyfTable, error) {
 			return nil, err
 		}
 
-		if gdOffset > int64(tr.length) {
+		if gdLen < 0 || gdOffset+gdLen > int64(tr.length) {
 			logrus.Debugf("gid: %d, gdOffset: %d, tr len: %d, gd len: %d", gid, gdOffset, tr.length, gdLen)
-			logrus.Debugf("Range check error (glyf): %d > %d", gdOffset, tr.length)
+			logrus.Debugf("Range check error (glyf): %d > %d", gdOffset+gdLen, tr.length)
 			return nil, errRangeCheck
 		}
 
-- 
2.43.0


From 3e3d543b9481eaeeb0bcf70976a9da358eac3a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 02/42] fix: do not allocate what a length field claims before
 the data is read

---
 byte_reader.go | 17 +++++++++++++++++
 table_glyf.go  |  1 -
 validate.go    |  4 ++--
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/byte_reader.go b/byte_reader.go
index 48c5d43..9ffd613 100644
--- a/byte_reader.go
+++ b/byte_reader.go
@@ -7,6 +7,7 @@ package unitype
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/binary"
 	"io"
 
@@ -21,6 +22,9 @@ type byteReader struct {
 	reader *bufio.Reader
 }
 
+// maxPrealloc is the largest size that is allocated on the word of a length field alone.
+const maxPrealloc = 64 * 1024
+
 func newByteReader(rs io.ReadSeeker) *byteReader {
 	return &byteReader{
 		rs:     rs,
@@ -53,6 +57,19 @@ func (r *byteReader) Skip(n int) error {
 
 // readBytes reads bytes straight from `r`.
 func (r *byteReader) readBytes(bp *[]byte, length int) error {
+	if length < 0 {
+		return errRangeCheck
+	}
+	if length > maxPrealloc {
+		// Let the buffer grow with the data that is really there.
+		var buf bytes.Buffer
+		_, err := io.CopyN(&buf, r.reader, int64(length))
+		*bp = buf.Bytes()
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+		return err
+	}
 	*bp = make([]byte, length)
 	_, err := io.ReadFull(r.reader, *bp)
 	if err != nil {
diff --git a/table_glyf.go b/table_glyf.go
index 338cdca..a057e05 100644
--- a/table_glyf.go
+++ b/table_glyf.go
@@ -72,7 +72,6 @@ func (f *font) parseGlyf(r *byteReader) (*glyfTable, error) {
 		}
 
 		var desc glyphDescription
-		desc.raw = make([]byte, gdLen)
 		err = r.readBytes(&desc.raw, int(gdLen))
 		if err != nil {
 			logrus.Debugf("ERROR: %v", err)
diff --git a/validate.go b/validate.go
index 7b7260e..61aa368 100644
--- a/validate.go
+++ b/validate.go
@@ -88,8 +88,8 @@ func (f *font) validate(r *byteReader) error {
 		}
 		logrus.Debugf("Offset: %d", r.Offset())
 
-		b := make([]byte, tr.length)
-		_, err = io.ReadFull(r.reader, b)
+		var b []byte
+		err = r.readBytes(&b, int(tr.length))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 22c797579aae274cc5543ceb1365e1147b5a7706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 03/42] fix: post names longer than 127 bytes were taken as
 negative lengths

---
 table_post.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table_post.go b/table_post.go
index 261ea65..b95005b 100644
--- a/table_post.go
+++ b/table_post.go
@@ -123,7 +123,7 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 				logrus.Debugf("%d > %d", r.Offset()-start, tr.length)
 				return nil, errors.New("reading outside table")
 			}
-			var numChars int8
+			var numChars uint8
 			err = r.read(&numChars)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 72d54ddebad3fe027da0c6e39a7994a902552d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:58 +0000
Subject: [PATCH 04/42] fix: load post names that several glyphs share or none
 uses

---
 table_post.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/table_post.go b/table_post.go
index b95005b..f0aa965 100644
--- a/table_post.go
+++ b/table_post.go
@@ -109,10 +109,11 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 		if err != nil {
 			return nil, err
 		}
+		// Number of names to load: several glyphs can share a name, and a name need not be used.
 		newGlyphs := 0
 		for _, ni := range t.glyphNameIndex {
-			if ni >= 258 && ni <= 32767 {
-				newGlyphs++
+			if ni >= 258 && ni <= 32767 && int(ni)-257 > newGlyphs {
+				newGlyphs = int(ni) - 257
 			}
 		}
 		logrus.Tracef("newGlyphs: %d", newGlyphs)
-- 
2.43.0


From a1c8c8091fdd85687613c43a0abb80fbd196e6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:00 +0000
Subject: [PATCH 05/42] fix: post 2.5 offsets are relative to the glyph index

---
 table_post.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table_post.go b/table_post.go
index f0aa965..21ea9ba 100644
--- a/table_post.go
+++ b/table_post.go
@@ -184,7 +184,7 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 		}
 		t.glyphNames = make([]GlyphName, int(t.numGlyphs))
 		for i := 0; i < int(t.numGlyphs); i++ {
-			nameIndex := i + 1 + int(t.offsets[i])
+			nameIndex := i + int(t.offsets[i])
 			if nameIndex < 0 || nameIndex > 257 {
 				logrus.Debugf("ERROR: name index outside range (%d)", nameIndex)
 				continue
-- 
2.43.0


From 6ed324b2dcfdba2c1552bd452ae232886eadbf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 06/42] fix: accept post 1.0, and write it only for the 258
 standard glyphs

---
 table_post.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/table_post.go b/table_post.go
index 21ea9ba..1713f57 100644
--- a/table_post.go
+++ b/table_post.go
@@ -84,7 +84,8 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 	logrus.Debugf("Version: %v %v 0x%X", t.version, t.version.Float64(), t.version)
 	switch uint32(t.version) {
 	case 0x00010000: // 1.0 - font files contains exactly the 258 standard Macintosh glyphs.
-		if t.numGlyphs != 258 {
+		t.numGlyphs = f.maxp.numGlyphs
+		if int(t.numGlyphs) != len(macGlyphNames) {
 			logrus.Debug("Should have the mac number of glyph names")
 			// TODO(gunnsth): If this is too strict, can just set the first 258 glyphnames.
 			return nil, errRangeCheck
@@ -210,14 +211,13 @@ func (f *font) writePost(w *byteWriter) error {
 
 	// TODO(gunnsth): Write out with v1.0 or v2.0.
 	version := t.version
-	if version != 0x00010000 {
+	if version != 0x00010000 || f.maxp == nil || int(f.maxp.numGlyphs) != len(macGlyphNames) {
 		// Include no postscript data.
 		// TODO(gunnsth): support writing v2.0.
 		version = 0x00030000
-		t.version = version
 	}
 
-	err := w.write(t.version, t.italicAngle, t.underlinePosition, t.underlineThickness, t.isFixedPitch)
+	err := w.write(version, t.italicAngle, t.underlinePosition, t.underlineThickness, t.isFixedPitch)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 803dfe65ff61e60d61a63cb0c464b7160fb40710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:00 +0000
Subject: [PATCH 07/42] fix: cmap format 4 segments ending at 0xFFFF no longer
 loop forever

---
 table_cmap.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index d5359ef..8b7563d 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -280,8 +280,8 @@ func (f *font) parseCmapSubtableFormat4(r *byteReader, platformID, encodingID in
 	charcodeMap := make(map[CharCode]GlyphIndex, f.maxp.numGlyphs)
 	logrus.Debugf("Number of glyphs in font: %d\n", f.maxp.numGlyphs)
 	for i := 0; i < segCount-1; i++ {
-		c1 := st.startCode[i]
-		c2 := st.endCode[i]
+		c1 := int(st.startCode[i])
+		c2 := int(st.endCode[i])
 		d := st.idDelta[i]
 		rangeOffset := st.idRangeOffset[i]
 
@@ -291,11 +291,11 @@ func (f *font) parseCmapSubtableFormat4(r *byteReader, platformID, encodingID in
 			var gid uint16
 
 			if rangeOffset == 0 {
-				gid = (c + d) & 0xFFFF
+				gid = uint16(c) + d
 			} else {
-				index := int(rangeOffset/2 + (c - c1) + uint16(i) - uint16(len(st.idRangeOffset)))
+				index := int(rangeOffset/2) + (c - c1) + i - len(st.idRangeOffset)
 
-				if index >= len(st.glyphIDArray) {
+				if index < 0 || index >= len(st.glyphIDArray) {
 					logrus.Debugf("c1=%d c=%d c2=%d", c1, c, c2)
 					logrus.Debugf("ERROR: index outside bounds (%d/%d)", index, len(st.glyphIDArray))
 					return nil, errors.New("outside bounds")
-- 
2.43.0


From 23edb5eb9ca449be28f32b00b486f366c3904f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 08/42] fix: cmap states the number of subtables it contains
 when written

---
 table_cmap.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index 8b7563d..cd83fb4 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -557,8 +557,6 @@ func (f *font) writeCmap(w *byteWriter) error {
 	}
 	t := f.cmap
 
-	err := w.write(t.version, t.numTables)
-
 	// Write the cmap subtables to an in-memory mock buffer to calculate offsets.
 	var mockBuffer bytes.Buffer
 	mockWriter := newByteWriter(&mockBuffer)
@@ -602,12 +600,16 @@ func (f *font) writeCmap(w *byteWriter) error {
 			encodingRecords = append(encodingRecords, rec)
 		}
 	}
-	err = mockWriter.flush()
+	err := mockWriter.flush()
 	if err != nil {
 		return err
 	}
 
-	// Output the encoding records and the mock buffer.
+	// Output the header with the number of subtables written, the encoding records and the mock buffer.
+	err = w.write(t.version, uint16(len(encodingRecords)))
+	if err != nil {
+		return err
+	}
 	for _, rec := range encodingRecords {
 		rec.offset += offset32(4 + 8*len(encodingRecords)) // Add static part.
 		err := w.write(rec.platformID, rec.encodingID, rec.offset)
-- 
2.43.0


From 62ef8623059565cd28fcf723937149b08d18abd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:04 +0000
Subject: [PATCH 09/42] fix: cmap format 0 array holds glyph ids by character
 code

---
 table_cmap.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index cd83fb4..9616af5 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -166,15 +166,19 @@ func (f *font) parseCmapSubtableFormat0(r *byteReader, platformID, encodingID in
 	charcodes := make([]CharCode, len(st.glyphIDArray))
 	charcodeToGID := map[CharCode]GlyphIndex{}
 
-	for glyphID, code := range st.glyphIDArray {
-		charcodeToGID[CharCode(code)] = GlyphIndex(glyphID)
+	for code, gid := range st.glyphIDArray {
 		codeBytes := runeDecoder.ToBytes(uint32(code))
 		r := runeDecoder.DecodeRune(codeBytes)
-		runes[glyphID] = r
-		charcodes[glyphID] = CharCode(code)
+		runes[code] = r
+		charcodes[code] = CharCode(code)
+		if gid == 0 {
+			// Not mapped.
+			continue
+		}
+		charcodeToGID[CharCode(code)] = GlyphIndex(gid)
 		if _, has := cmap[r]; !has {
 			// Avoid overwrite, if get same twice, use the earlier entry.
-			cmap[r] = GlyphIndex(glyphID)
+			cmap[r] = GlyphIndex(gid)
 			runeToCharcodeBytes[r] = codeBytes
 		}
 	}
-- 
2.43.0


From dc595a3ba0874ae1b2120d093a18817da0fdc3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 10/42] fix: cmap format 12 start glyph id is not cut to 16
 bits

---
 table_cmap.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index 9616af5..3c4e08d 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -497,12 +497,12 @@ func (f *font) parseCmapSubtableFormat12(r *byteReader, platformID, encodingID i
 	charcodes := make([]CharCode, f.maxp.numGlyphs)
 	charcodeMap := make(map[CharCode]GlyphIndex, f.maxp.numGlyphs)
 	for _, group := range st.groups {
-		gid := GlyphIndex(group.startGlyphID)
-		if int(gid) >= int(f.maxp.numGlyphs) {
-			logrus.Debugf("gid >= numGlyphs (%d > %d)", gid, f.maxp.numGlyphs)
+		if group.startGlyphID >= uint32(f.maxp.numGlyphs) {
+			logrus.Debugf("gid >= numGlyphs (%d > %d)", group.startGlyphID, f.maxp.numGlyphs)
 			logrus.Debugf("Error: %v", errRangeCheck)
 			return nil, errRangeCheck
 		}
+		gid := GlyphIndex(group.startGlyphID)
 		for charcode := group.startCharCode; charcode <= group.endCharCode; charcode++ {
 			if int(gid) >= int(f.maxp.numGlyphs) {
 				break
-- 
2.43.0


From f54e2115020a8f2f7bf61348026524c880d3b55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 11/42] fix: full repertoire Unicode cmaps use 4-byte codes

---
 encoding.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encoding.go b/encoding.go
index 3f90ae7..673380b 100644
--- a/encoding.go
+++ b/encoding.go
@@ -77,6 +77,10 @@ const (
 func getCmapEncoding(platformID, encodingID int) cmapEncoding {
 	switch platformID {
 	case platformIDUnicode:
+		switch encodingID {
+		case 4, 6: // Full Unicode repertoire.
+			return cmapEncodingUCS4
+		}
 		return cmapEncodingUCS2
 	case platformIDMacintosh:
 		return cmapEncodingMacRoman
-- 
2.43.0


From 8a1815da862558adbb6d203747f8b39a77729051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:10 +0000
Subject: [PATCH 12/42] fix: keep and order cmap subtables of the same format
 and encoding

---
 export.go     | 3 ++-
 table_cmap.go | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/export.go b/export.go
index 72b111b..40bee15 100644
--- a/export.go
+++ b/export.go
@@ -84,7 +84,8 @@ func (f *Font) GetCmap(platformID, encodingID int) map[rune]GlyphIndex {
 		return nil
 	}
 
-	for _, subt := range f.cmap.subtables {
+	for _, key := range f.cmap.subtableKeys {
+		subt := f.cmap.subtables[key]
 		if subt.platformID == platformID && subt.encodingID == encodingID {
 			return subt.cmap
 		}
diff --git a/table_cmap.go b/table_cmap.go
index 3c4e08d..5cc47ed 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -26,7 +26,7 @@ type cmapTable struct {
 
 	// Processed data:
 	subtables    map[string]*cmapSubtable
-	subtableKeys []string // "format,platformID,encodingID".
+	subtableKeys []string // "format,platformID,encodingID" (with "#n" added when it repeats).
 }
 
 type encodingRecord struct {
@@ -102,6 +102,10 @@ func (f *font) parseCmap(r *byteReader) (*cmapTable, error) {
 		}
 		if cmap != nil {
 			key := fmt.Sprintf("%d,%d,%d", format, enc.platformID, enc.encodingID)
+			if _, has := t.subtables[key]; has {
+				// Same format and encoding for another language.
+				key = fmt.Sprintf("%s#%d", key, len(t.subtableKeys))
+			}
 			t.subtables[key] = cmap
 			t.subtableKeys = append(t.subtableKeys, key)
 			logrus.Debugf("KEY: %s <-> %T", key, cmap.ctx)
-- 
2.43.0


From 6b52e15e09d1e6df98b0208d4cf43bbdf897988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 13/42] fix: a rune one cmap maps to notdef is looked up in the
 next

---
 export.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/export.go b/export.go
index 40bee15..3ca2924 100644
--- a/export.go
+++ b/export.go
@@ -110,8 +110,8 @@ func (f *Font) LookupRunes(runes []rune) []GlyphIndex {
 	for _, r := range runes {
 		index := GlyphIndex(0)
 		for _, cmap := range maps {
-			ind, has := cmap[r]
-			if has {
+			ind := cmap[r]
+			if ind != 0 {
 				index = ind
 				break
 			}
-- 
2.43.0


From c2698e68999276ca777418b9081c6e570a81be85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:08 +0000
Subject: [PATCH 14/42] fix: optimising a font without hmtx table no longer
 panics

---
 table_hmtx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/table_hmtx.go b/table_hmtx.go
index 3789369..26f8cd2 100644
--- a/table_hmtx.go
+++ b/table_hmtx.go
@@ -60,6 +60,9 @@ func (f *font) parseHmtx(r *byteReader) (*hmtxTable, error) {
 
 // optimizeHmtx optimizes the htmx table.
 func (f *font) optimizeHmtx() {
+	if f.hmtx == nil {
+		return
+	}
 	i := len(f.hmtx.hMetrics) - 1
 	if i <= 0 {
 		return
-- 
2.43.0


From 81fd85eee0ebffc471c38aac3bebc01709d49544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:09 +0000
Subject: [PATCH 15/42] fix: subsetting a font without glyf table no longer
 panics

---
 export.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export.go b/export.go
index 3ca2924..0fd4f34 100644
--- a/export.go
+++ b/export.go
@@ -149,7 +149,7 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 	}
 
 	// Find dependencies of core sets of glyph, and expand until have all relations.
-	for len(toscan) > 0 {
+	for len(toscan) > 0 && f.glyf != nil {
 		var newgids []GlyphIndex
 		for _, gid := range toscan {
 			components, err := f.glyf.GetComponents(gid)
-- 
2.43.0


From 38fcc447778a6269180a4f5e0cb5ecb3a29f1eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:11 +0000
Subject: [PATCH 16/42] fix: refuse a negative glyph count instead of panicking

---
 export.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/export.go b/export.go
index 0fd4f34..e4874f5 100644
--- a/export.go
+++ b/export.go
@@ -282,6 +282,10 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 // Prunes out the glyphs from the previous font beyond that number.
 // NOTE: If any of the first numGlyphs depend on later glyphs, it can lead to incorrect rendering.
 func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
+	if numGlyphs < 0 {
+		logrus.Debugf("Negative number of glyphs: %d", numGlyphs)
+		return nil, errRangeCheck
+	}
 	if int(f.maxp.numGlyphs) <= numGlyphs {
 		logrus.Debugf("Attempting to subset font with same number of glyphs - Ignoring, returning same back")
 		return f, nil
-- 
2.43.0


From a9eeb068df2544638eec2588b9ea59a3711ae6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:13 +0000
Subject: [PATCH 17/42] fix: subsetting does not empty the glyphs of the source
 font

---
 export.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/export.go b/export.go
index e4874f5..103df9c 100644
--- a/export.go
+++ b/export.go
@@ -197,15 +197,14 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 	if f.font.glyf != nil && f.font.loca != nil {
 		newfnt.loca = &locaTable{}
 		newfnt.glyf = &glyfTable{}
-		*newfnt.glyf = *f.font.glyf
 
-		// Empty glyf contents for non-included glyphs.
-		for i := range newfnt.glyf.descs {
+		// Empty glyf contents for non-included glyphs (without touching the glyphs of `f`).
+		for i, desc := range f.font.glyf.descs {
+			newdesc := &glyphDescription{}
 			if _, has := gidIncludedMap[GlyphIndex(i)]; has {
-				continue
+				newdesc.raw = desc.raw
 			}
-
-			newfnt.glyf.descs[i].raw = nil
+			newfnt.glyf.descs = append(newfnt.glyf.descs, newdesc)
 		}
 
 		// Update loca offsets.
@@ -336,8 +335,9 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 
 	if f.font.glyf != nil && f.font.loca != nil {
 		newfnt.loca = &locaTable{}
-		newfnt.glyf = &glyfTable{
-			descs: f.font.glyf.descs[0:numGlyphs],
+		newfnt.glyf = &glyfTable{}
+		for _, desc := range f.font.glyf.descs[0:numGlyphs] {
+			newfnt.glyf.descs = append(newfnt.glyf.descs, &glyphDescription{raw: desc.raw})
 		}
 		// Update loca offsets.
 		isShort := f.font.head.indexToLocFormat == 0
-- 
2.43.0


From 66f9e5544683d3ebfd09955072626f4a396fe6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 18/42] fix: subsetting filters cmaps completely and leaves
 those of the source alone

---
 export.go     |  8 ++++++--
 table_cmap.go | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/export.go b/export.go
index 103df9c..df6d64f 100644
--- a/export.go
+++ b/export.go
@@ -407,14 +407,16 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 		}
 
 		for _, name := range f.cmap.subtableKeys {
-			subt := f.cmap.subtables[name]
+			subt := f.cmap.subtables[name].subsetFirst(numGlyphs)
 			switch t := subt.ctx.(type) {
 			case cmapSubtableFormat0:
+				t.glyphIDArray = append([]uint8(nil), t.glyphIDArray...)
 				for i := range t.glyphIDArray {
-					if i > numGlyphs {
+					if int(t.glyphIDArray[i]) >= numGlyphs {
 						t.glyphIDArray[i] = 0
 					}
 				}
+				subt.ctx = t
 			case cmapSubtableFormat4:
 				newt := cmapSubtableFormat4{}
 				// Generates a new table: going from glyph index 0 up to numGlyphs.
@@ -471,11 +473,13 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 				newt.rangeShift = uint16(segments*2) - newt.searchRange
 				subt.ctx = newt
 			case cmapSubtableFormat6:
+				t.glyphIDArray = append([]uint16(nil), t.glyphIDArray...)
 				for i := range t.glyphIDArray {
 					if int(t.glyphIDArray[i]) >= numGlyphs {
 						t.glyphIDArray[i] = 0
 					}
 				}
+				subt.ctx = t
 			case cmapSubtableFormat12:
 				newt := cmapSubtableFormat12{}
 				groups := 0
diff --git a/table_cmap.go b/table_cmap.go
index 5cc47ed..883d128 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -131,6 +131,39 @@ type cmapSubtable struct {
 	runeToCharcodeBytes map[rune][]byte // Quick for going rune -> encoded bytes (charcodes).
 }
 
+// subsetFirst returns a copy of `subt` with the mappings to the first `numGlyphs` glyphs only.
+// The format specific data (ctx) is that of `subt`.
+func (subt *cmapSubtable) subsetFirst(numGlyphs int) *cmapSubtable {
+	newt := &cmapSubtable{}
+	*newt = *subt
+
+	newt.cmap = map[rune]GlyphIndex{}
+	for r, gid := range subt.cmap {
+		if int(gid) < numGlyphs {
+			newt.cmap[r] = gid
+		}
+	}
+	newt.charcodeToGID = map[CharCode]GlyphIndex{}
+	for code, gid := range subt.charcodeToGID {
+		if int(gid) < numGlyphs {
+			newt.charcodeToGID[code] = gid
+		}
+	}
+
+	switch subt.format {
+	case 4, 12:
+		// Indexed by GID.
+		if len(newt.runes) > numGlyphs {
+			newt.runes = newt.runes[0:numGlyphs]
+		}
+		if len(newt.charcodes) > numGlyphs {
+			newt.charcodes = newt.charcodes[0:numGlyphs]
+		}
+	}
+
+	return newt
+}
+
 // cmapSubtableFormat0 represents format 0: Byte encoding table.
 // This is the Apple standard character to glyph index mapping table.
 type cmapSubtableFormat0 struct {
-- 
2.43.0


From 4ea15db328451bdafbd0752b70e14becf4afecf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:17 +0000
Subject: [PATCH 19/42] fix: subset format 4 cmaps stay in 16-bit range and are
 always terminated

---
 export.go     |  56 ++------------------------
 table_cmap.go | 107 ++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 110 insertions(+), 53 deletions(-)

diff --git a/export.go b/export.go
index df6d64f..12692a6 100644
--- a/export.go
+++ b/export.go
@@ -9,7 +9,6 @@ import (
 	"bytes"
 	"errors"
 	"io"
-	"math"
 	"os"
 	"sort"
 
@@ -418,59 +417,10 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 				}
 				subt.ctx = t
 			case cmapSubtableFormat4:
-				newt := cmapSubtableFormat4{}
-				// Generates a new table: going from glyph index 0 up to numGlyphs.
-				// Makes continous entries with deltas.
-				// Does not use glyphIDData, but only the deltas.  Can lead to many segments, but should not
-				// be too bad (especially since subsetting).
-				charcodes := make([]CharCode, 0, len(subt.charcodeToGID))
-				for cc, gid := range subt.charcodeToGID {
-					if int(gid) >= numGlyphs {
-						continue
-					}
-					charcodes = append(charcodes, cc)
-				}
-				sort.Slice(charcodes, func(i, j int) bool {
-					return charcodes[i] < charcodes[j]
-				})
-
-				segments := 0
-				i := 0
-				for i < len(charcodes) {
-					j := i + 1
-					for ; j < len(charcodes); j++ {
-						if int(charcodes[j]-charcodes[i]) != j-i ||
-							int(subt.charcodeToGID[charcodes[j]]-subt.charcodeToGID[charcodes[i]]) != j-i {
-							break
-						}
-					}
-					// from i:j-1 maps to subt.charcodes[i]:subt.charcodes[i]+j-i-1
-					startCode := uint16(charcodes[i])
-					endCode := uint16(charcodes[i]) + uint16(j-i-1)
-					idDelta := uint16(subt.charcodeToGID[charcodes[i]]) - uint16(charcodes[i])
-
-					newt.startCode = append(newt.startCode, startCode)
-					newt.endCode = append(newt.endCode, endCode)
-					newt.idDelta = append(newt.idDelta, idDelta)
-					newt.idRangeOffset = append(newt.idRangeOffset, 0)
-					segments++
-					i = j
-				}
-
-				if segments > 0 && newt.endCode[segments-1] < 65535 {
-					newt.endCode = append(newt.endCode, 65535)
-					newt.startCode = append(newt.startCode, 65535)
-					newt.idDelta = append(newt.idDelta, 1)
-					newt.idRangeOffset = append(newt.idRangeOffset, 0)
-					segments++
+				newt, err := makeCmapSubtableFormat4(subt.charcodeToGID, t.language)
+				if err != nil {
+					return nil, err
 				}
-
-				newt.length = uint16(2*8 + 2*4*segments)
-				newt.language = t.language
-				newt.segCountX2 = uint16(segments * 2)
-				newt.searchRange = 2 * uint16(math.Pow(2, math.Floor(math.Log2(float64(segments)))))
-				newt.entrySelector = uint16(math.Log2(float64(newt.searchRange) / 2.0))
-				newt.rangeShift = uint16(segments*2) - newt.searchRange
 				subt.ctx = newt
 			case cmapSubtableFormat6:
 				t.glyphIDArray = append([]uint16(nil), t.glyphIDArray...)
diff --git a/table_cmap.go b/table_cmap.go
index 883d128..dfef377 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -9,6 +9,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"sort"
 
 	"github.com/sirupsen/logrus"
 )
@@ -381,6 +382,112 @@ func (f *font) parseCmapSubtableFormat4(r *byteReader, platformID, encodingID in
 	}, nil
 }
 
+// makeCmapSubtableFormat4 makes the smallest format 4 subtable for `charcodeToGID` (disregarding any
+// sharing of glyph ids between segments).  Segments either map their codes by delta or, where that
+// takes less space, through the glyph id array.
+func makeCmapSubtableFormat4(charcodeToGID map[CharCode]GlyphIndex, language uint16) (cmapSubtableFormat4, error) {
+	st := cmapSubtableFormat4{language: language}
+
+	charcodes := make([]CharCode, 0, len(charcodeToGID))
+	for cc := range charcodeToGID {
+		charcodes = append(charcodes, cc)
+	}
+	sort.Slice(charcodes, func(i, j int) bool {
+		return charcodes[i] < charcodes[j]
+	})
+
+	// Minimum number of bytes for the charcodes so far with the last one in a delta or in an array segment,
+	// and where the segment with charcode `i` starts in each case.
+	const segSize = 8
+	type choice struct {
+		start     int  // index of first charcode of segment.
+		prevArray bool // whether the segment before is an array segment.
+	}
+	deltaCost, arrayCost := 0, 0
+	deltas := make([]choice, len(charcodes))
+	arrays := make([]choice, len(charcodes))
+	for i, cc := range charcodes {
+		best := choice{start: i, prevArray: arrayCost < deltaCost}
+		newCost := segSize + deltaCost
+		if best.prevArray {
+			newCost = segSize + arrayCost
+		}
+		newDelta, newArray := newCost, newCost+2
+		deltas[i], arrays[i] = best, best
+		if i > 0 {
+			gap := int(cc - charcodes[i-1])
+			follows := gap == 1 && charcodeToGID[cc] == charcodeToGID[charcodes[i-1]]+1
+			if follows && deltaCost <= newDelta {
+				newDelta = deltaCost
+				deltas[i] = deltas[i-1]
+			}
+			if arrayCost+2*gap <= newArray {
+				newArray = arrayCost + 2*gap
+				arrays[i] = arrays[i-1]
+			}
+		}
+		deltaCost, arrayCost = newDelta, newArray
+	}
+
+	// Segments from last to first.
+	type segment struct {
+		first, last int
+		isArray     bool
+	}
+	var segments []segment
+	isArray := arrayCost < deltaCost
+	for i := len(charcodes) - 1; i >= 0; {
+		c := deltas[i]
+		if isArray {
+			c = arrays[i]
+		}
+		segments = append(segments, segment{first: c.start, last: i, isArray: isArray})
+		i = c.start - 1
+		isArray = c.prevArray
+	}
+
+	segCount := len(segments) + 1 // With terminating segment.
+	for k := len(segments) - 1; k >= 0; k-- {
+		seg := segments[k]
+		startCode, endCode := charcodes[seg.first], charcodes[seg.last]
+		st.startCode = append(st.startCode, uint16(startCode))
+		st.endCode = append(st.endCode, uint16(endCode))
+		if !seg.isArray {
+			st.idDelta = append(st.idDelta, uint16(charcodeToGID[startCode])-uint16(startCode))
+			st.idRangeOffset = append(st.idRangeOffset, 0)
+			continue
+		}
+		st.idDelta = append(st.idDelta, 0)
+		rangeOffset := 2 * (segCount - len(st.idRangeOffset) + len(st.glyphIDArray))
+		if rangeOffset > 65535 {
+			return st, errRangeCheck
+		}
+		st.idRangeOffset = append(st.idRangeOffset, uint16(rangeOffset))
+		for cc := startCode; cc <= endCode; cc++ {
+			st.glyphIDArray = append(st.glyphIDArray, uint16(charcodeToGID[cc]))
+		}
+	}
+	st.startCode = append(st.startCode, 65535)
+	st.endCode = append(st.endCode, 65535)
+	st.idDelta = append(st.idDelta, 1)
+	st.idRangeOffset = append(st.idRangeOffset, 0)
+
+	length := 2*8 + 2*4*segCount + 2*len(st.glyphIDArray)
+	if length > 65535 {
+		return st, errRangeCheck
+	}
+	st.length = uint16(length)
+	st.segCountX2 = uint16(2 * segCount)
+	st.searchRange = 2
+	for 2*int(st.searchRange) <= 2*segCount {
+		st.searchRange *= 2
+		st.entrySelector++
+	}
+	st.rangeShift = st.segCountX2 - st.searchRange
+
+	return st, nil
+}
+
 func writeCmapSubtableFormat4(subtable *cmapSubtable, w *byteWriter) error {
 	subt := subtable.ctx.(cmapSubtableFormat4)
 	var (
-- 
2.43.0


From 49e18b69f3f129f6085b1970444d2ee0085105c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:59 +0000
Subject: [PATCH 20/42] fix: glyph locations are written relative to the
 written glyph data

---
 table_loca.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/table_loca.go b/table_loca.go
index 9940b6b..16a9201 100644
--- a/table_loca.go
+++ b/table_loca.go
@@ -109,7 +109,16 @@ func (f *font) writeLoca(w *byteWriter) error {
 		if numGlyphs+1 != len(t.offsetsShort) {
 			logrus.Debug("Unexpected length")
 		}
-		return w.writeSlice(t.offsetsShort)
+		// The glyph data is written from the start of the glyf table.
+		offsets := make([]offset16, len(t.offsetsShort))
+		for i := range offsets {
+			offsets[i] = t.offsetsShort[i] - t.offsetsShort[0]
+		}
+		return w.writeSlice(offsets)
+	}
+	offsets := make([]offset32, len(t.offsetsLong))
+	for i := range offsets {
+		offsets[i] = t.offsetsLong[i] - t.offsetsLong[0]
 	}
-	return w.writeSlice(t.offsetsLong)
+	return w.writeSlice(offsets)
 }
-- 
2.43.0


From 9edebc08ea9fc7daef171bea76876339693edcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:01 +0000
Subject: [PATCH 21/42] fix: lengths of glyphs over 64 kB in subsets with short
 locations

---
 export.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/export.go b/export.go
index 12692a6..fc237d5 100644
--- a/export.go
+++ b/export.go
@@ -217,7 +217,7 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 		}
 		for i, desc := range newfnt.glyf.descs {
 			if isShort {
-				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw))/2
+				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw)/2)
 			} else {
 				newfnt.loca.offsetsLong[i+1] = newfnt.loca.offsetsLong[i] + offset32(len(desc.raw))
 			}
@@ -349,7 +349,7 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 		}
 		for i, desc := range newfnt.glyf.descs {
 			if isShort {
-				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw))/2
+				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw)/2)
 			} else {
 				newfnt.loca.offsetsLong[i+1] = newfnt.loca.offsetsLong[i] + offset32(len(desc.raw))
 			}
-- 
2.43.0


From 5af0b950e523d09a7875a4e0b0a50aa112caf5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:03 +0000
Subject: [PATCH 22/42] fix: listing the names of a font without name table no
 longer panics

---
 table_name.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/table_name.go b/table_name.go
index dfa7be2..6fe8bd9 100644
--- a/table_name.go
+++ b/table_name.go
@@ -69,6 +69,9 @@ func (f *font) GetNameByID(nameID int) string {
 // that contais name ID and it's value.
 func (f *font) GetNameRecords() map[uint16]map[uint16]string {
 	var nameRecords = make(map[uint16]map[uint16]string, 0)
+	if f == nil || f.name == nil {
+		return nameRecords
+	}
 	for _, nr := range f.name.nameRecords {
 		nameRec, ok := nameRecords[nr.languageID]
 		if ok {
-- 
2.43.0


From 78f6f101ae27e6a6e87d4b2de5a1c84fedd5de1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 23/42] fix: decode names of the Unicode platform and full
 Unicode Windows names as UTF-16BE

---
 table_name.go | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/table_name.go b/table_name.go
index 6fe8bd9..f0afab2 100644
--- a/table_name.go
+++ b/table_name.go
@@ -9,7 +9,6 @@ import (
 	"bytes"
 	"strconv"
 	"unicode"
-	"unicode/utf8"
 
 	"github.com/sirupsen/logrus"
 
@@ -113,18 +112,8 @@ func makePrintable(str string) string {
 func (nr nameRecord) Decoded() string {
 	switch nr.platformID {
 	case 0: // unicode
-		// TODO(gunnsth): Untested as have not encountered this yet.
-		dup := make([]byte, len(nr.data))
-		copy(dup, nr.data)
-		var decoded bytes.Buffer
-
-		for len(dup) > 0 {
-			r, size := utf8.DecodeRune(dup)
-			dup = dup[size:]
-			decoded.WriteRune(r)
-		}
-
-		return makePrintable(decoded.String())
+		// All encodings of the Unicode platform use UTF-16BE for strings.
+		return makePrintable(strutils.UTF16ToString(nr.data))
 	case 1: // macintosh
 		var decoded bytes.Buffer
 		for _, val := range nr.data {
@@ -146,7 +135,8 @@ func (nr nameRecord) Decoded() string {
 		// and the referenced string data must be encoded in UTF-16BE. When building a symbol font for Windows,
 		// the platform ID should be 3 and the encoding ID should be 0, and the referenced string data must be
 		// encoded in UTF-16BE. (https://docs.microsoft.com/en-us/typography/opentype/spec/name).
-		if nr.encodingID == 0 || nr.encodingID == 1 {
+		// The same goes for full Unicode fonts (encoding ID 10).
+		if nr.encodingID == 0 || nr.encodingID == 1 || nr.encodingID == 10 {
 			if len(nr.data) > 0 {
 				decoded := strutils.UTF16ToString(nr.data)
 				return makePrintable(decoded)
-- 
2.43.0


From 0bcc50ac3bc8051462c13d183cba9e8194586bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:07 +0000
Subject: [PATCH 24/42] fix: UTF16ToRunes does not write behind the slice it is
 given

---
 internal/strutils/encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/strutils/encoding.go b/internal/strutils/encoding.go
index ec350af..cda19a7 100644
--- a/internal/strutils/encoding.go
+++ b/internal/strutils/encoding.go
@@ -28,7 +28,7 @@ func UTF16ToRunes(b []byte) []rune {
 		return []rune{rune(b[0])}
 	}
 	if len(b)%2 != 0 {
-		b = append(b, 0)
+		b = append(b[:len(b):len(b)], 0) // Without writing to the array behind `b`.
 		logrus.Debug("ERROR: UTF16ToRunes. Padding with zeros.")
 	}
 	n := len(b) >> 1
-- 
2.43.0


From 4d6968b9500d3e57ddb3e90f51e80ac7b0fb1915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:09 +0000
Subject: [PATCH 25/42] fix: PDFDocEncoding 0x16 is U+0016

---
 internal/strutils/pdfdocenc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/strutils/pdfdocenc.go b/internal/strutils/pdfdocenc.go
index 7b51bbf..6c0c61c 100644
--- a/internal/strutils/pdfdocenc.go
+++ b/internal/strutils/pdfdocenc.go
@@ -30,7 +30,7 @@ var pdfDocEncoding = map[byte]rune{
 	0x13: '\u0013', //     "controlDC3"
 	0x14: '\u0014', //     "controlDC4"
 	0x15: '\u0015', //     "controlNAK"
-	0x16: '\u0017', //     "controlETB"
+	0x16: '\u0016', //     "controlSYN"
 	0x17: '\u0017', //     "controlETB"
 	0x18: '\u02d8', //  ˘  "breve"
 	0x19: '\u02c7', //  ˇ  "caron"
-- 
2.43.0


From bc4dde8b87d579e136e5a51a4cb6750a25cd5b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 26/42] fix: a glyph that failed to load does not load as empty
 composite the next time

---
 table_glyf.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/table_glyf.go b/table_glyf.go
index a057e05..632959a 100644
--- a/table_glyf.go
+++ b/table_glyf.go
@@ -119,7 +119,12 @@ func (gd *glyphDescription) parse() error {
 		return nil
 	}
 
-	return gd.parseComposite(r)
+	err = gd.parseComposite(r)
+	if err != nil {
+		gd.header = nil // Not loaded.
+		return err
+	}
+	return nil
 }
 
 func (gd *glyphDescription) parseHeader(r *byteReader) error {
-- 
2.43.0


From 1f690ea5a2d0f8ce1d7f24ad44281b722b807d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:13 +0000
Subject: [PATCH 27/42] fix: write aligned tables with sorted table records and
 their search fields

---
 byte_writer.go  | 11 +++++++++++
 font.go         | 40 ++++++++++++++++++++++------------------
 table_offset.go | 12 ++++++++++++
 3 files changed, 45 insertions(+), 18 deletions(-)

diff --git a/byte_writer.go b/byte_writer.go
index 4fec70c..758ffba 100644
--- a/byte_writer.go
+++ b/byte_writer.go
@@ -41,6 +41,17 @@ func (w *byteWriter) flush() error {
 	return nil
 }
 
+// padAndFlush pads the current buffer with zeros to a multiple of 4 bytes and flushes it.
+func (w *byteWriter) padAndFlush() error {
+	for w.bufferedLen()%4 != 0 {
+		err := w.writeUint8(0)
+		if err != nil {
+			return err
+		}
+	}
+	return w.flush()
+}
+
 // bufferedLen returns the length of the current buffer.
 func (w *byteWriter) bufferedLen() int {
 	return w.buffer.Len()
diff --git a/font.go b/font.go
index c8b6bff..6728d8f 100644
--- a/font.go
+++ b/font.go
@@ -10,6 +10,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"sort"
 
 	"github.com/sirupsen/logrus"
 )
@@ -208,12 +209,10 @@ func (f *font) write(w *byteWriter) error {
 	logrus.Debug("Writing font")
 	numTables := f.numTablesToWrite()
 	otTable := &offsetTable{
-		sfntVersion:   f.ot.sfntVersion,
-		numTables:     uint16(numTables),
-		searchRange:   f.ot.searchRange,
-		entrySelector: f.ot.entrySelector,
-		rangeShift:    f.ot.rangeShift,
+		sfntVersion: f.ot.sfntVersion,
+		numTables:   uint16(numTables),
 	}
+	otTable.setSearchFields()
 	trec := &tableRecords{}
 
 	f.ot.numTables = uint16(numTables)
@@ -245,7 +244,7 @@ func (f *font) write(w *byteWriter) error {
 		}
 		headChecksum = bufw.checksum()
 		trec.Set("head", offset, bufw.bufferedLen(), headChecksum)
-		err = bufw.flush()
+		err = bufw.padAndFlush()
 		if err != nil {
 			return err
 		}
@@ -257,7 +256,7 @@ func (f *font) write(w *byteWriter) error {
 			return err
 		}
 		trec.Set("maxp", offset, bufw.bufferedLen(), bufw.checksum())
-		err = bufw.flush()
+		err = bufw.padAndFlush()
 		if err != nil {
 			return err
 		}
@@ -270,7 +269,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("hhea", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.padAndFlush()
 			if err != nil {
 				return err
 			}
@@ -284,7 +283,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("hmtx", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.padAndFlush()
 			if err != nil {
 				return err
 			}
@@ -298,7 +297,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("loca", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.padAndFlush()
 			if err != nil {
 				return err
 			}
@@ -312,7 +311,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("glyf", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.padAndFlush()
 			if err != nil {
 				return err
 			}
@@ -326,7 +325,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("prep", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.padAndFlush()
 			if err != nil {
 				return err
 			}
@@ -340,7 +339,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("cvt", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.padAndFlush()
 			if err != nil {
 				return err
 			}
@@ -354,7 +353,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("fpgm", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.padAndFlush()
 			if err != nil {
 				return err
 			}
@@ -368,7 +367,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("name", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.padAndFlush()
 			if err != nil {
 				return err
 			}
@@ -382,7 +381,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("OS/2", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.padAndFlush()
 			if err != nil {
 				return err
 			}
@@ -396,7 +395,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("post", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.padAndFlush()
 			if err != nil {
 				return err
 			}
@@ -410,7 +409,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("cmap", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.padAndFlush()
 			if err != nil {
 				return err
 			}
@@ -418,6 +417,11 @@ func (f *font) write(w *byteWriter) error {
 	}
 	logrus.Trace("Write 3")
 
+	// The table records are sorted by tag.
+	sort.Slice(trec.list, func(i, j int) bool {
+		return bytes.Compare(trec.list[i].tableTag[:], trec.list[j].tableTag[:]) < 0
+	})
+
 	// Write the offset and table records to another mock buffer.
 	var bufh bytes.Buffer
 	{
diff --git a/table_offset.go b/table_offset.go
index 2bd0fae..2a06692 100644
--- a/table_offset.go
+++ b/table_offset.go
@@ -18,6 +18,18 @@ func (t *offsetTable) Size() int64 {
 	return 4 + 4*2 // 4+8=12
 }
 
+// setSearchFields sets the fields for binary search of the table records based on the number of tables.
+func (t *offsetTable) setSearchFields() {
+	t.searchRange, t.entrySelector = 0, 0
+	for num := uint16(1); num <= t.numTables; num *= 2 {
+		t.searchRange = num * 16
+		if num > 1 {
+			t.entrySelector++
+		}
+	}
+	t.rangeShift = t.numTables*16 - t.searchRange
+}
+
 func (f *font) parseOffsetTable(r *byteReader) (*offsetTable, error) {
 	ot := &offsetTable{}
 
-- 
2.43.0


From eb8bf66a3213e5983ae92c293e52118f754a2c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:15 +0000
Subject: [PATCH 28/42] fix: write names sharing strings, and refuse strings
 out of offset range

---
 table_name.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/table_name.go b/table_name.go
index f0afab2..3e59446 100644
--- a/table_name.go
+++ b/table_name.go
@@ -251,25 +251,38 @@ func (f *font) writeNameTable(w *byteWriter) error {
 	}
 	t := f.name
 
-	// Preprocess: Write to buffer and update offsets.
+	// Preprocess: Write to buffer and update offsets. Records with the same data share it.
 	var buf bytes.Buffer
 	{
 		bufw := newByteWriter(&buf)
+		offsets := map[string]offset16{}
+		place := func(data []byte) (offset16, error) {
+			if offset, has := offsets[string(data)]; has {
+				return offset, nil
+			}
+			if bufw.bufferedLen() > 65535 {
+				logrus.Debug("Name strings exceed offset range")
+				return 0, errRangeCheck
+			}
+			offset := offset16(bufw.bufferedLen())
+			offsets[string(data)] = offset
+			return offset, bufw.writeSlice(data)
+		}
 		for _, nr := range t.nameRecords {
-			nr.offset = offset16(bufw.bufferedLen())
-			nr.length = uint16(len(nr.data))
-			err := bufw.writeSlice(nr.data)
+			offset, err := place(nr.data)
 			if err != nil {
 				return err
 			}
+			nr.offset = offset
+			nr.length = uint16(len(nr.data))
 		}
 		for _, ltr := range t.langTagRecords {
-			ltr.offset = offset16(bufw.bufferedLen())
-			ltr.length = uint16(len(ltr.data))
-			err := bufw.writeSlice(ltr.data)
+			offset, err := place(ltr.data)
 			if err != nil {
 				return err
 			}
+			ltr.offset = offset
+			ltr.length = uint16(len(ltr.data))
 		}
 		err := bufw.flush()
 		if err != nil {
-- 
2.43.0


From 6a3fc951418f16caf896c8cc15ee8ff772f17a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:17 +0000
Subject: [PATCH 29/42] fix: writing does not modify the font

---
 font.go       |  9 ++++-----
 table_name.go | 13 ++++++++++++-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/font.go b/font.go
index 6728d8f..1dcdf3a 100644
--- a/font.go
+++ b/font.go
@@ -215,8 +215,6 @@ func (f *font) write(w *byteWriter) error {
 	otTable.setSearchFields()
 	trec := &tableRecords{}
 
-	f.ot.numTables = uint16(numTables)
-
 	// Starting offset after offset table and table records.
 	startOffset := int64(12 + numTables*16)
 
@@ -235,10 +233,11 @@ func (f *font) write(w *byteWriter) error {
 	{
 		bufw := newByteWriter(&buf)
 
-		// head.
-		f.head.checksumAdjustment = 0
+		// head (with zero checksumAdjustment, not modifying the original entry of `f`).
+		head := *f.head
+		head.checksumAdjustment = 0
 		offset := startOffset
-		err := f.writeHead(bufw)
+		err := (&font{head: &head}).writeHead(bufw)
 		if err != nil {
 			return err
 		}
diff --git a/table_name.go b/table_name.go
index 3e59446..f87e3ba 100644
--- a/table_name.go
+++ b/table_name.go
@@ -249,7 +249,18 @@ func (f *font) writeNameTable(w *byteWriter) error {
 		logrus.Debug("name is nil")
 		return nil
 	}
-	t := f.name
+	// Work on a copy: writing does not change the table.
+	t := &nameTable{}
+	*t = *f.name
+	t.nameRecords, t.langTagRecords = nil, nil
+	for _, nr := range f.name.nameRecords {
+		dup := *nr
+		t.nameRecords = append(t.nameRecords, &dup)
+	}
+	for _, ltr := range f.name.langTagRecords {
+		dup := *ltr
+		t.langTagRecords = append(t.langTagRecords, &dup)
+	}
 
 	// Preprocess: Write to buffer and update offsets. Records with the same data share it.
 	var buf bytes.Buffer
-- 
2.43.0


From b4cf29fc41f6c7e3b2418a8f1d008dc13bd9e6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 30/42] fix: validation refuses empty tables beyond the end of
 the file

---
 validate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/validate.go b/validate.go
index 61aa368..ed2b488 100644
--- a/validate.go
+++ b/validate.go
@@ -29,6 +29,8 @@ func (f *font) validate(r *byteReader) error {
 		return errRequiredField
 	}
 
+	var fileLen int64
+
 	// Validate the font.
 	logrus.Debug("Validating entire font")
 	{
@@ -44,6 +46,7 @@ func (f *font) validate(r *byteReader) error {
 		}
 
 		data := buf.Bytes()
+		fileLen = int64(len(data))
 
 		headRec, ok := f.trec.trMap["head"]
 		if !ok {
@@ -76,7 +79,7 @@ func (f *font) validate(r *byteReader) error {
 
 		bw := newByteWriter(&bytes.Buffer{})
 
-		if tr.offset < 0 || tr.length < 0 {
+		if int64(tr.offset)+int64(tr.length) > fileLen {
 			logrus.Debug("Range check error")
 			return errRangeCheck
 		}
-- 
2.43.0


From fef17018443f3720589ff2ce568792e1755baae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 31/42] fix: truecli refuses glyph ids above 65535

---
 truecli/cmd/subset_gids.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/truecli/cmd/subset_gids.go b/truecli/cmd/subset_gids.go
index c983ff4..a9f3d1b 100644
--- a/truecli/cmd/subset_gids.go
+++ b/truecli/cmd/subset_gids.go
@@ -48,7 +48,7 @@ var subsetGIDsCmd = &cobra.Command{
 	Run: func(cmd *cobra.Command, args []string) {
 		var gids []unitype.GlyphIndex
 		for i := 1; i < len(args); i++ {
-			gid, err := strconv.ParseUint(args[i], 10, 32)
+			gid, err := strconv.ParseUint(args[i], 10, 16)
 			if err != nil {
 				fatalf("Invalid gid: %v\n", err)
 			}
-- 
2.43.0


From 29a7498040e4bae5003d8012be64f47e4ad58e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 32/42] fix: truecli exits with failure when the font cannot be
 written

---
 truecli/cmd/readwrite.go     | 3 +--
 truecli/cmd/subset_gids.go   | 3 +--
 truecli/cmd/subset_runes.go  | 3 +--
 truecli/cmd/subset_simple.go | 3 +--
 4 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/truecli/cmd/readwrite.go b/truecli/cmd/readwrite.go
index c942078..d307a6d 100644
--- a/truecli/cmd/readwrite.go
+++ b/truecli/cmd/readwrite.go
@@ -54,8 +54,7 @@ var readwriteCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 
 		err = unitype.ValidateBytes(buf.Bytes())
diff --git a/truecli/cmd/subset_gids.go b/truecli/cmd/subset_gids.go
index a9f3d1b..2a9dc43 100644
--- a/truecli/cmd/subset_gids.go
+++ b/truecli/cmd/subset_gids.go
@@ -66,8 +66,7 @@ var subsetGIDsCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 
 		err = unitype.ValidateBytes(buf.Bytes())
diff --git a/truecli/cmd/subset_runes.go b/truecli/cmd/subset_runes.go
index 350209f..c545c4d 100644
--- a/truecli/cmd/subset_runes.go
+++ b/truecli/cmd/subset_runes.go
@@ -59,8 +59,7 @@ var subsetRunesCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 		origSize := buf.Len()
 
diff --git a/truecli/cmd/subset_simple.go b/truecli/cmd/subset_simple.go
index 6349a81..c4134bf 100644
--- a/truecli/cmd/subset_simple.go
+++ b/truecli/cmd/subset_simple.go
@@ -54,8 +54,7 @@ var subsetSimpleCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 
 		err = unitype.ValidateBytes(buf.Bytes())
-- 
2.43.0


From 0858a1767873f236110a8d3d94eac61bfe761cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:28 +0000
Subject: [PATCH 33/42] fix: read the offsets of post 2.5

---
 byte_reader.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/byte_reader.go b/byte_reader.go
index 9ffd613..f03b05b 100644
--- a/byte_reader.go
+++ b/byte_reader.go
@@ -90,6 +90,14 @@ func (r *byteReader) readSlice(slice interface{}, length int) error {
 			}
 			*t = append(*t, val)
 		}
+	case *[]int8:
+		for i := 0; i < length; i++ {
+			val, err := r.readInt8()
+			if err != nil {
+				return err
+			}
+			*t = append(*t, val)
+		}
 	case *[]uint16:
 		for i := 0; i < length; i++ {
 			val, err := r.readUint16()
-- 
2.43.0


From a83da82159caa6d07ed481bc5fedbdc2abffaf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:59 +0000
Subject: [PATCH 34/42] fix: take back the change to cmap format 4 segments
 ending at 0xFFFF, which already were refused

---
 table_cmap.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index dfef377..c05fe3c 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -322,8 +322,8 @@ func (f *font) parseCmapSubtableFormat4(r *byteReader, platformID, encodingID in
 	charcodeMap := make(map[CharCode]GlyphIndex, f.maxp.numGlyphs)
 	logrus.Debugf("Number of glyphs in font: %d\n", f.maxp.numGlyphs)
 	for i := 0; i < segCount-1; i++ {
-		c1 := int(st.startCode[i])
-		c2 := int(st.endCode[i])
+		c1 := st.startCode[i]
+		c2 := st.endCode[i]
 		d := st.idDelta[i]
 		rangeOffset := st.idRangeOffset[i]
 
@@ -333,11 +333,11 @@ func (f *font) parseCmapSubtableFormat4(r *byteReader, platformID, encodingID in
 			var gid uint16
 
 			if rangeOffset == 0 {
-				gid = uint16(c) + d
+				gid = (c + d) & 0xFFFF
 			} else {
-				index := int(rangeOffset/2) + (c - c1) + i - len(st.idRangeOffset)
+				index := int(rangeOffset/2 + (c - c1) + uint16(i) - uint16(len(st.idRangeOffset)))
 
-				if index < 0 || index >= len(st.glyphIDArray) {
+				if index >= len(st.glyphIDArray) {
 					logrus.Debugf("c1=%d c=%d c2=%d", c1, c, c2)
 					logrus.Debugf("ERROR: index outside bounds (%d/%d)", index, len(st.glyphIDArray))
 					return nil, errors.New("outside bounds")
-- 
2.43.0


From b9603d1ddd2ff399fccec57ea545e73bdc37ffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 35/42] fix: scan requested glyphs in the order of the request,
 so that the error of a failing subset does not vary

The glyphs were scanned in map iteration order, so with several damaged
glyphs among the requested ones, repeating the call gave another error.
---
 export.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/export.go b/export.go
index fc237d5..bf67a8a 100644
--- a/export.go
+++ b/export.go
@@ -138,13 +138,12 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 	// Expand the set of indices if any of the indices are composite
 	// glyphs depending on other glyphs.
 	gidIncludedMap := make(map[GlyphIndex]struct{}, len(indices))
+	toscan := make([]GlyphIndex, 0, len(indices))
 	for _, gid := range indices {
-		gidIncludedMap[gid] = struct{}{}
-	}
-
-	toscan := make([]GlyphIndex, 0, len(gidIncludedMap))
-	for gid := range gidIncludedMap {
-		toscan = append(toscan, gid)
+		if _, has := gidIncludedMap[gid]; !has {
+			gidIncludedMap[gid] = struct{}{}
+			toscan = append(toscan, gid)
+		}
 	}
 
 	// Find dependencies of core sets of glyph, and expand until have all relations.
-- 
2.43.0


From 1455606023b4117ee7e059618166d1ed63da5ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 36/42] fix: report a destination that takes less than it is
 given

---
 byte_writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/byte_writer.go b/byte_writer.go
index 758ffba..d722ab6 100644
--- a/byte_writer.go
+++ b/byte_writer.go
@@ -35,6 +35,9 @@ func (w *byteWriter) flush() error {
 	if err != nil {
 		return err
 	}
+	if n < len(b) {
+		return io.ErrShortWrite
+	}
 	w.flushedLen += int64(n)
 
 	w.buffer.Reset()
-- 
2.43.0


From f08475c016d46428e6fadab6ed11f57f973ee10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:02 +0000
Subject: [PATCH 37/42] fix: info lists every character map entry when several
 runes have the same glyph

---
 truecli/cmd/info.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/truecli/cmd/info.go b/truecli/cmd/info.go
index 4992ba4..24f54ed 100644
--- a/truecli/cmd/info.go
+++ b/truecli/cmd/info.go
@@ -94,22 +94,20 @@ var infoCmd = &cobra.Command{
 			mapNames = append(mapNames, "3,1")
 
 			for i := range maps {
-				var gids []unitype.GlyphIndex
-				gidMap := map[unitype.GlyphIndex]rune{}
-				for rune, gid := range maps[i] {
-					gidMap[gid] = rune
-					gids = append(gids, gid)
+				var runes []rune
+				for r := range maps[i] {
+					runes = append(runes, r)
 				}
-				sort.Slice(gids, func(i, j int) bool {
-					return gids[i] < gids[j]
+				// Sort by GID, several runes can have the same one.
+				sort.Slice(runes, func(j, k int) bool {
+					gid1, gid2 := maps[i][runes[j]], maps[i][runes[k]]
+					if gid1 != gid2 {
+						return gid1 < gid2
+					}
+					return runes[j] < runes[k]
 				})
-				cnt := 0
-				for _, gid := range gids {
-					//if cnt > 100 {
-					//	break
-					//	}
-					fmt.Printf("%d/%s: %d - %c\n", i, mapNames[i], gid, gidMap[gid])
-					cnt++
+				for _, r := range runes {
+					fmt.Printf("%d/%s: %d - %c\n", i, mapNames[i], maps[i][r], r)
 				}
 			}
 		}
-- 
2.43.0


From 2361fdf678a239b0cfaa1916f55894dd7405868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:25 +0000
Subject: [PATCH 38/42] fix: a font can be subset from several goroutines at
 once

---
 table_glyf.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/table_glyf.go b/table_glyf.go
index 632959a..c5bbd75 100644
--- a/table_glyf.go
+++ b/table_glyf.go
@@ -255,7 +255,8 @@ func (glyf *glyfTable) GetComponents(gid GlyphIndex) ([]GlyphIndex, error) {
 	}
 
 	var components []GlyphIndex
-	gdesc := glyf.descs[int(gid)]
+	// Parsed in a copy, so that a font can be subset from several goroutines.
+	gdesc := *glyf.descs[int(gid)]
 
 	if gdesc.header == nil {
 		if len(gdesc.raw) == 0 {
-- 
2.43.0


From 8f5cde32a8dfdcd182745c6b3fbcafdf64e919c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:26 +0000
Subject: [PATCH 39/42] fix: a character map with an odd segment count is
 written with the count it has

---
 table_cmap.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/table_cmap.go b/table_cmap.go
index c05fe3c..c252d85 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -496,6 +496,7 @@ func writeCmapSubtableFormat4(subtable *cmapSubtable, w *byteWriter) error {
 	format = 4
 	// TODO(gunnsth): Not the place to generate this?  Somewhere else should have ability to generate
 	//       based on character codes.
+	subt.segCountX2 = 2 * uint16(len(subt.endCode)) // An odd value is for the whole segments only.
 	subt.length = 7*2 + subt.segCountX2 + 2 + 3*subt.segCountX2 + 2*uint16(len(subt.glyphIDArray))
 	err := w.write(format, subt.length, subt.language)
 	if err != nil {
-- 
2.43.0


From ac9d029062f3a03e52a575a7a99661b57bf6f7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:26 +0000
Subject: [PATCH 40/42] fix: names that do not fit behind their records are not
 written elsewhere

---
 table_name.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/table_name.go b/table_name.go
index f87e3ba..a57dbfd 100644
--- a/table_name.go
+++ b/table_name.go
@@ -307,10 +307,15 @@ func (f *font) writeNameTable(w *byteWriter) error {
 	t.langTagCount = uint16(len(t.langTagRecords))
 
 	// 2+2+2+count*(6*2) + (format=1) 2+langTagCount*2
-	t.stringOffset = 6 + offset16(t.count)*12
+	stringOffset := 6 + int(t.count)*12
 	if t.format == 1 {
-		t.stringOffset += 2 + offset16(t.langTagCount)*4
+		stringOffset += 2 + int(t.langTagCount)*4
 	}
+	if stringOffset > 65535 {
+		logrus.Debug("Name records exceed offset range")
+		return errRangeCheck
+	}
+	t.stringOffset = offset16(stringOffset)
 
 	logrus.Debugf("w @ %d", w.bufferedLen())
 	err := w.write(t.format, t.count, t.stringOffset)
-- 
2.43.0


From 69bd0d0cfbc7d9ede3c964ed731ca0dec0f0feb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:26 +0000
Subject: [PATCH 41/42] fix: a code that is mapped twice keeps its glyph when
 the font is subset

---
 table_cmap.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index c252d85..2a843df 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -360,7 +360,9 @@ func (f *font) parseCmapSubtableFormat4(r *byteReader, platformID, encodingID in
 				}
 				runes[int(gid)] = r
 				charcodes[int(gid)] = CharCode(c)
-				charcodeMap[CharCode(c)] = GlyphIndex(gid)
+				if _, has := charcodeMap[CharCode(c)]; !has {
+					charcodeMap[CharCode(c)] = GlyphIndex(gid)
+				}
 
 				if _, has := cmap[r]; !has {
 					// Avoid overwrite, if get same twice, use the earlier entry.
@@ -656,7 +658,9 @@ func (f *font) parseCmapSubtableFormat12(r *byteReader, platformID, encodingID i
 			r := runeDecoder.DecodeRune(b)
 			runes[gid] = r
 			charcodes[gid] = CharCode(charcode)
-			charcodeMap[CharCode(charcode)] = gid
+			if _, has := charcodeMap[CharCode(charcode)]; !has {
+				charcodeMap[CharCode(charcode)] = gid
+			}
 			if _, has := cmap[r]; !has {
 				// Avoid overwrite, if get same twice, use the earlier entry.
 				cmap[r] = gid
-- 
2.43.0


From 70e86209be14c567aad2fa0dc3334fb7f7c78c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:25 +0000
Subject: [PATCH 42/42] fix: a code of a format 6 map that has no glyph does
 not hide U+FFFD

---
 table_cmap.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index 2a843df..4c20fc0 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -568,8 +568,9 @@ func (f *font) parseCmapSubtableFormat6(r *byteReader, platformID, encodingID in
 		runes[i] = r
 		charcodes[i] = CharCode(code)
 		charcodeMap[CharCode(code)] = gid
-		if _, has := cmap[r]; !has {
-			// Avoid ovewriting (stick to first gid).
+		if cmap[r] == 0 {
+			// Avoid overwriting (stick to first gid, disregarding codes without a glyph: those that are no
+			// characters decode to U+FFFD).
 			cmap[r] = gid
 		}
 	}
-- 
2.43.0

