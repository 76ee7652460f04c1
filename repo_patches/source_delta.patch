From 30adf16f1170e9efbdf6791d333547dfa87b0492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:59 +0000
Subject: [PATCH 01/24] fix: insert zero-context text fragments after the named
 line

---
 gitdiff/apply_text.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gitdiff/apply_text.go b/gitdiff/apply_text.go
index 0948178..86985cd 100644
--- a/gitdiff/apply_text.go
+++ b/gitdiff/apply_text.go
@@ -66,6 +66,10 @@ func (a *TextApplier) ApplyFragment(f *TextFragment) error {
 
 	// lines are 0-indexed, positions are 1-indexed (but new files have position = 0)
 	fragStart := f.OldPosition - 1
+	if f.OldLines == 0 {
+		// without old lines, the position is the line before the new content
+		fragStart = f.OldPosition
+	}
 	if fragStart < 0 {
 		fragStart = 0
 	}
-- 
2.43.0


From cb3ddc7b924c16f09366ac3809b486f0ea684c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:44 +0000
Subject: [PATCH 02/24] fix: accept io.EOF together with a full read of the
 source

---
 gitdiff/apply_binary.go | 2 +-
 gitdiff/io.go           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gitdiff/apply_binary.go b/gitdiff/apply_binary.go
index 4864b69..55e4c9e 100644
--- a/gitdiff/apply_binary.go
+++ b/gitdiff/apply_binary.go
@@ -211,7 +211,7 @@ func applyBinaryDeltaCopy(w io.Writer, op byte, delta []byte, src io.ReaderAt) (
 
 	// TODO(bkeyes): consider pooling these buffers
 	b := make([]byte, size)
-	if _, err := src.ReadAt(b, offset); err != nil {
+	if nr, err := src.ReadAt(b, offset); err != nil && !(err == io.EOF && nr == len(b)) {
 		return 0, delta, err
 	}
 
diff --git a/gitdiff/io.go b/gitdiff/io.go
index 8143238..6b3040f 100644
--- a/gitdiff/io.go
+++ b/gitdiff/io.go
@@ -129,7 +129,7 @@ func (r *lineReaderAt) readBytes(line, n int64) (b []byte, offset int64, err err
 	}
 
 	b = make([]byte, size)
-	if _, err := r.r.ReadAt(b, offset); err != nil {
+	if nr, err := r.r.ReadAt(b, offset); err != nil && !(err == io.EOF && nr == len(b)) {
 		if err == io.EOF {
 			err = errors.New("ReadLinesAt: corrupt line index or changed source data")
 		}
-- 
2.43.0


From 48771e3504fc11f5ba000f9081ec705ac316975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:44 +0000
Subject: [PATCH 03/24] fix: return an *ApplyError for every Apply failure

---
 gitdiff/apply.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gitdiff/apply.go b/gitdiff/apply.go
index e1c7209..2d21d52 100644
--- a/gitdiff/apply.go
+++ b/gitdiff/apply.go
@@ -117,7 +117,7 @@ func Apply(dst io.Writer, src io.ReaderAt, f *File, opts ...ApplyOption) error {
 		if err := applier.ApplyFragment(f.BinaryFragment); err != nil {
 			return err
 		}
-		return applier.Close()
+		return applyError(applier.Close())
 
 	case len(f.TextFragments) > 0:
 		frags := make([]*TextFragment, len(f.TextFragments))
@@ -137,11 +137,11 @@ func Apply(dst io.Writer, src io.ReaderAt, f *File, opts ...ApplyOption) error {
 				return applyError(err, fragNum(i))
 			}
 		}
-		return applier.Close()
+		return applyError(applier.Close())
 
 	default:
 		// nothing to apply, just copy all the data
 		_, err := copyFrom(dst, src, 0)
-		return err
+		return applyError(err)
 	}
 }
-- 
2.43.0


From f4316bb367fcfe8558235cbbbe5c603812676762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:44 +0000
Subject: [PATCH 04/24] fix: do not report source errors that wrap io.EOF as
 conflicts

---
 gitdiff/apply_text.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdiff/apply_text.go b/gitdiff/apply_text.go
index 86985cd..fcfaafb 100644
--- a/gitdiff/apply_text.go
+++ b/gitdiff/apply_text.go
@@ -161,7 +161,7 @@ func readPreimage(r LineReaderAt, start int64, lines int64) ([][]byte, error) {
 		if err != nil {
 			// an EOF indicates that source file is shorter than the patch expects,
 			// which should be reported as a conflict rather than a generic error
-			if errors.Is(err, io.EOF) {
+			if err == io.EOF {
 				err = &Conflict{"src has fewer lines than required by fragment"}
 			}
 			return nil, applyError(err, lineNum(start+int64(n)))
-- 
2.43.0


From 1a6662fa36d708bc788103f76c3ab89849728e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:44 +0000
Subject: [PATCH 05/24] fix: reject incomplete and oversized binary delta
 headers

---
 gitdiff/apply_binary.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gitdiff/apply_binary.go b/gitdiff/apply_binary.go
index 55e4c9e..74a90f5 100644
--- a/gitdiff/apply_binary.go
+++ b/gitdiff/apply_binary.go
@@ -94,6 +94,9 @@ func (a *BinaryApplier) Close() (err error) {
 
 func applyBinaryDeltaFragment(dst io.Writer, src io.ReaderAt, frag []byte, limit int64) error {
 	srcSize, delta := readBinaryDeltaSize(frag)
+	if srcSize < 0 {
+		return errors.New("corrupt binary delta: invalid source size")
+	}
 	if err := checkBinarySrcSize(src, srcSize); err != nil {
 		return err
 	}
@@ -103,6 +106,9 @@ func applyBinaryDeltaFragment(dst io.Writer, src io.ReaderAt, frag []byte, limit
 	// size against the limit. Then, while executing instructions, stop as soon
 	// as a write exceeds the expected limit.
 	dstSize, delta := readBinaryDeltaSize(delta)
+	if dstSize < 0 {
+		return errors.New("corrupt binary delta: invalid result size")
+	}
 	if limit >= 0 && dstSize > limit {
 		return fmt.Errorf("binary delta size of %d exceeds %d byte limit", dstSize, limit)
 	}
@@ -142,17 +148,21 @@ func applyBinaryDeltaFragment(dst io.Writer, src io.ReaderAt, frag []byte, limit
 //
 //	[[1xxxxxxx]...] [0xxxxxxx]
 //
-// in little-endian order, with 7 bits of the value per byte.
+// in little-endian order, with 7 bits of the value per byte. The size is
+// negative if the data is incomplete or does not fit the type.
 func readBinaryDeltaSize(d []byte) (size int64, rest []byte) {
 	shift := uint(0)
 	for i, b := range d {
+		if shift >= 63 && b&0x7F != 0 {
+			return -1, nil
+		}
 		size |= int64(b&0x7F) << shift
 		shift += 7
 		if b <= 0x7F {
 			return size, d[i+1:]
 		}
 	}
-	return size, nil
+	return -1, nil
 }
 
 // applyBinaryDeltaAdd applies an add opcode in a delta-encoded binary
-- 
2.43.0


From 88a62ef4abff475cf39bae7d373e9cab7d9441e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:58 +0000
Subject: [PATCH 06/24] fix: reject base85 sequences that overflow four bytes

---
 gitdiff/base85.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gitdiff/base85.go b/gitdiff/base85.go
index 86db117..8116cef 100644
--- a/gitdiff/base85.go
+++ b/gitdiff/base85.go
@@ -2,6 +2,7 @@ package gitdiff
 
 import (
 	"fmt"
+	"math"
 )
 
 var (
@@ -22,16 +23,19 @@ func init() {
 // alphabet defined by base85.c in the Git source tree. src must contain at
 // least len(dst) bytes of encoded data.
 func base85Decode(dst, src []byte) error {
-	var v uint32
+	var v uint64
 	var n, ndst int
 	for i, b := range src {
 		if b, ok := b85Table[b]; ok {
-			v = 85*v + uint32(b)
+			v = 85*v + uint64(b)
 			n++
 		} else {
 			return fmt.Errorf("invalid base85 byte at index %d: 0x%X", i, src[i])
 		}
 		if n == 5 {
+			if v > math.MaxUint32 {
+				return fmt.Errorf("invalid base85 sequence at index %d: value overflows", i-4)
+			}
 			rem := len(dst) - ndst
 			for j := 0; j < 4 && j < rem; j++ {
 				dst[ndst] = byte(v >> 24)
-- 
2.43.0


From 10655025c42011e06aa449d65da640396b3420a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 07/24] fix: reject signed numbers in text fragment headers

---
 gitdiff/text.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gitdiff/text.go b/gitdiff/text.go
index d9ddfb7..eb6915b 100644
--- a/gitdiff/text.go
+++ b/gitdiff/text.go
@@ -167,6 +167,10 @@ func removeLastNewline(frag *TextFragment) {
 func parseRange(s string) (start int64, end int64, err error) {
 	parts := strings.SplitN(s, ",", 2)
 
+	if strings.ContainsAny(s, "+-") {
+		return 0, 0, fmt.Errorf("bad range: %s: signed number", s)
+	}
+
 	if start, err = strconv.ParseInt(parts[0], 10, 64); err != nil {
 		nerr := err.(*strconv.NumError)
 		return 0, 0, fmt.Errorf("bad start of range: %s: %v", parts[0], nerr.Err)
-- 
2.43.0


From f6e0d21a9fdc134f6a983c45a309a37e2a273b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 08/24] fix: reject negative positions in TextFragment.Validate

---
 gitdiff/gitdiff.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gitdiff/gitdiff.go b/gitdiff/gitdiff.go
index d7a3432..ee4819c 100644
--- a/gitdiff/gitdiff.go
+++ b/gitdiff/gitdiff.go
@@ -142,6 +142,10 @@ func (f *TextFragment) Validate() error {
 		return lineCountErr("deleted", deletedLines, f.LinesDeleted)
 	}
 
+	if f.OldPosition < 0 || f.NewPosition < 0 {
+		return errors.New("fragment has a negative position")
+	}
+
 	// if a file is being created, it can only contain additions
 	if f.OldPosition == 0 && f.OldLines != 0 {
 		return errors.New("file creation fragment contains context or deletion lines")
-- 
2.43.0


From dc486e3112d79e6cc079ef417f7c6b05b80cf78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:24 +0000
Subject: [PATCH 09/24] fix: keep returning io.EOF after the end of binary
 fragment data

---
 gitdiff/binary_reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gitdiff/binary_reader.go b/gitdiff/binary_reader.go
index b57df40..cf7c5db 100644
--- a/gitdiff/binary_reader.go
+++ b/gitdiff/binary_reader.go
@@ -15,6 +15,7 @@ type binaryReader struct {
 	c    io.Closer
 	size int64
 	raw  []byte
+	done bool
 }
 
 func newBinaryReader(f *BinaryFragment) io.Reader {
@@ -37,6 +38,10 @@ func (r *binaryReader) Read(p []byte) (int, error) {
 		r.c = zr
 	}
 
+	if r.done {
+		return 0, io.EOF
+	}
+
 	n, err := r.r.Read(p)
 	if err == io.EOF {
 		// If we reached the "end", first check that we read the correct amount
@@ -51,6 +56,7 @@ func (r *binaryReader) Read(p []byte) (int, error) {
 		if err := r.c.Close(); err != nil {
 			return n, err
 		}
+		r.done = true
 	}
 	return n, err
 }
-- 
2.43.0


From 39dc7f565266c4bb79dde90fc41f7f6786c5328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:47 +0000
Subject: [PATCH 10/24] fix: reject signed numbers in git file headers

---
 gitdiff/file_header.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index 7ae4bc9..fabd534 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -370,6 +370,9 @@ func parseGitHeaderRenameTo(f *File, line, defaultName string) (err error) {
 }
 
 func parseGitHeaderScore(f *File, line, defaultName string) error {
+	if strings.ContainsAny(line, "+-") {
+		return fmt.Errorf("invalid score line: signed number")
+	}
 	score, err := strconv.ParseInt(strings.TrimSuffix(line, "%"), 10, 32)
 	if err != nil {
 		nerr := err.(*strconv.NumError)
@@ -403,6 +406,9 @@ func parseGitHeaderIndex(f *File, line, defaultName string) error {
 }
 
 func parseMode(s string) (os.FileMode, error) {
+	if strings.ContainsAny(s, "+-") {
+		return os.FileMode(0), fmt.Errorf("invalid mode line: signed number")
+	}
 	mode, err := strconv.ParseInt(s, 8, 32)
 	if err != nil {
 		nerr := err.(*strconv.NumError)
-- 
2.43.0


From 93412afe52aca0e7a09e41a687caa4053d46e925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:37 +0000
Subject: [PATCH 11/24] fix: mark new and deleted files without a mode when
 formatting

---
 gitdiff/format.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gitdiff/format.go b/gitdiff/format.go
index 4999000..dab3eb2 100644
--- a/gitdiff/format.go
+++ b/gitdiff/format.go
@@ -120,6 +120,16 @@ func (fm *formatter) FormatFile(f *File) {
 		}
 	}
 
+	// A missing mode must still be marked as a new or deleted file, or the
+	// names of the file have no meaning. Git and this library both treat a mode
+	// of zero as an unknown mode.
+	if f.IsDelete && f.OldMode == 0 {
+		fm.WriteString("deleted file mode 000000\n")
+	}
+	if f.IsNew && f.NewMode == 0 {
+		fm.WriteString("new file mode 000000\n")
+	}
+
 	if f.Score > 0 {
 		if f.IsCopy || f.IsRename {
 			fmt.Fprintf(fm, "similarity index %d%%\n", f.Score)
-- 
2.43.0


From ea09fbab6827c3003abd6fc681917734a4b9e978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:37 +0000
Subject: [PATCH 12/24] fix: find the end of quoted names that end with a
 backslash

---
 gitdiff/file_header.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index fabd534..f73d27f 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -442,11 +442,13 @@ func parseName(s string, term byte, dropPrefix int) (name string, n int, err err
 }
 
 func parseQuotedName(s string) (name string, n int, err error) {
+	escaped := false
 	for n = 1; n < len(s); n++ {
-		if s[n] == '"' && s[n-1] != '\\' {
+		if s[n] == '"' && !escaped {
 			n++
 			break
 		}
+		escaped = s[n] == '\\' && !escaped
 	}
 	if n == 2 {
 		return "", 0, fmt.Errorf("missing name")
-- 
2.43.0


From ef4e305954543fd31e7896f6808538c72988b176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 13/24] fix: keep bytes of quoted names that are not valid
 UTF-8

---
 gitdiff/file_header.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index f73d27f..14db4a3 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -453,12 +453,28 @@ func parseQuotedName(s string) (name string, n int, err error) {
 	if n == 2 {
 		return "", 0, fmt.Errorf("missing name")
 	}
-	if name, err = strconv.Unquote(s[:n]); err != nil {
+	// names are bytes, but Unquote replaces bytes that are not valid UTF-8
+	if name, err = strconv.Unquote(escapeHighBytes(s[:n])); err != nil {
 		return "", 0, err
 	}
 	return name, n, err
 }
 
+// escapeHighBytes replaces non-ASCII bytes with escape sequences.
+func escapeHighBytes(s string) string {
+	var b strings.Builder
+	escaped := false
+	for i := 0; i < len(s); i++ {
+		if s[i] < 0x80 || escaped {
+			b.WriteByte(s[i])
+		} else {
+			fmt.Fprintf(&b, `\x%02x`, s[i])
+		}
+		escaped = s[i] == '\\' && !escaped
+	}
+	return b.String()
+}
+
 func parseUnquotedName(s string, term byte) (name string, n int, err error) {
 	for n = 0; n < len(s); n++ {
 		if s[n] == '\n' {
-- 
2.43.0


From 0079df3817f89ba4596fc6e7035f014d2999f4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 14/24] fix: report read errors that follow an invalid fragment
 header

---
 gitdiff/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gitdiff/parser.go b/gitdiff/parser.go
index d5986e1..3ace2c0 100644
--- a/gitdiff/parser.go
+++ b/gitdiff/parser.go
@@ -79,6 +79,7 @@ type parser struct {
 	r stringReader
 
 	eof    bool
+	err    error
 	lineno int64
 	lines  [3]string
 }
@@ -96,6 +97,10 @@ func (p *parser) Next() error {
 	if p.eof {
 		return io.EOF
 	}
+	if p.err != nil {
+		// never continue after a failed read, even if the reader would
+		return p.err
+	}
 
 	if p.lineno == 0 {
 		// on first call to next, need to shift in all lines
@@ -124,6 +129,9 @@ func (p *parser) shiftLines() (err error) {
 		p.lines[i] = p.lines[i+1]
 	}
 	p.lines[len(p.lines)-1], err = p.r.ReadString('\n')
+	if err != nil && err != io.EOF {
+		p.err = err
+	}
 	return
 }
 
-- 
2.43.0


From 4b0c10a6eff74b5aa1264d49645d6777bf95f5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:16 +0000
Subject: [PATCH 15/24] fix: accept the Z zone of strict ISO dates

Git writes Z for offset zero in this format.
---
 gitdiff/patch_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index 9f42c90..d2fccf6 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -75,7 +75,7 @@ func (h *PatchHeader) Message() string {
 func ParsePatchDate(s string) (time.Time, error) {
 	const (
 		isoFormat          = "2006-01-02 15:04:05 -0700"
-		isoStrictFormat    = "2006-01-02T15:04:05-07:00"
+		isoStrictFormat    = "2006-01-02T15:04:05Z07:00"
 		rfc2822Format      = "Mon, 2 Jan 2006 15:04:05 -0700"
 		shortFormat        = "2006-01-02"
 		defaultFormat      = "Mon Jan 2 15:04:05 2006 -0700"
-- 
2.43.0


From e5a52cc1804196680955b3339faf84359898d0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:13 +0000
Subject: [PATCH 16/24] fix: keep the zone offset of raw dates

time.Parse may answer with the local zone, whose offset at the instant of
the date can differ from the offset in the string.
---
 gitdiff/patch_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index d2fccf6..cd319bc 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -107,7 +107,7 @@ func ParsePatchDate(s string) (time.Time, error) {
 	// raw format
 	if space := strings.IndexByte(s, ' '); space > 0 {
 		unix, uerr := strconv.ParseInt(s[:space], 10, 64)
-		zone, zerr := time.Parse("-0700", s[space+1:])
+		zone, zerr := time.ParseInLocation("-0700", s[space+1:], time.UTC)
 		if uerr == nil && zerr == nil {
 			return time.Unix(unix, 0).In(zone.Location()), nil
 		}
-- 
2.43.0


From 15a68af294ed101a6160aa9a80a3a619501ad69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:10 +0000
Subject: [PATCH 17/24] fix: find the address when the name of an identity
 contains an @

Such names are quoted in mail headers and written as they are in commit
headers; the part of the name around the @ was taken for the address.
---
 gitdiff/patch_identity.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gitdiff/patch_identity.go b/gitdiff/patch_identity.go
index 018f80c..674276f 100644
--- a/gitdiff/patch_identity.go
+++ b/gitdiff/patch_identity.go
@@ -38,6 +38,14 @@ func ParsePatchIdentity(s string) (PatchIdentity, error) {
 
 	var name, email string
 	if at := strings.IndexByte(s, '@'); at >= 0 {
+		// If the input ends with an address in angle brackets, any '@' that
+		// appears before it is part of the name
+		if open := strings.LastIndexByte(s, '<'); open > at && strings.HasSuffix(s, ">") {
+			if i := strings.IndexByte(s[open:], '@'); i >= 0 {
+				at = open + i
+			}
+		}
+
 		start, end := at, at
 		for start >= 0 && !isRFC5332Space(s[start]) && s[start] != '<' {
 			start--
-- 
2.43.0


From efcc8d7db24071fd195edbfcda2320d6f975ad59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:55 +0000
Subject: [PATCH 18/24] fix: keep the indent of body lines when the title of a
 commit is indented

The space before the title was taken for the indent of the whole message, so
body lines kept the four spaces that git log adds.
---
 gitdiff/patch_header.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index cd319bc..4e90850 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -17,6 +17,7 @@ import (
 const (
 	mailHeaderPrefix        = "From "
 	prettyHeaderPrefix      = "commit "
+	prettyMessageIndent     = "    "
 	mailMinimumHeaderPrefix = "From:"
 )
 
@@ -308,6 +309,11 @@ func scanMessageTitle(s *bufio.Scanner) (title string, indent string) {
 		if i == 0 {
 			if start := strings.IndexFunc(line, func(c rune) bool { return !unicode.IsSpace(c) }); start > 0 {
 				indent = line[:start]
+				// Git indents messages by four spaces, any additional space
+				// before the title is not part of the indent of the body
+				if strings.HasPrefix(indent, prettyMessageIndent) {
+					indent = prettyMessageIndent
+				}
 			}
 		}
 		if b.Len() > 0 {
-- 
2.43.0


From 579e699708a3f44212f0cd97b7c2ea594be81f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:56 +0000
Subject: [PATCH 19/24] fix: accept lines of any length in patch headers

---
 gitdiff/patch_header.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index 4e90850..92217b3 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"math"
 	"mime/quotedprintable"
 	"net/mail"
 	"strconv"
@@ -230,6 +231,7 @@ func parseHeaderPretty(prettyLine string, r io.Reader) (*PatchHeader, error) {
 	}
 
 	s := bufio.NewScanner(r)
+	s.Buffer(nil, math.MaxInt) // lines may have any length
 	for s.Scan() {
 		line := s.Text()
 
@@ -397,6 +399,7 @@ func parseHeaderMail(mailLine string, r io.Reader, opts patchHeaderOptions) (*Pa
 	h.SubjectPrefix, h.Title = cleanSubject(subject, opts.subjectCleanMode)
 
 	s := bufio.NewScanner(msg.Body)
+	s.Buffer(nil, math.MaxInt) // lines may have any length
 	h.Body, h.BodyAppendix = scanMessageBody(s, "", true)
 	if s.Err() != nil {
 		return nil, s.Err()
-- 
2.43.0


From dbe372aea3546a0c20b20a956ea843b435a2d66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:15 +0000
Subject: [PATCH 20/24] fix: decode encoded words that do not start the subject

SubjectCleanWhitespace and SubjectCleanPatchOnly leave text in front of the
encoded title, which was then not decoded.
---
 gitdiff/patch_header.go | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index 92217b3..a624f94 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -5,9 +5,8 @@ import (
 	"errors"
 	"fmt"
 	"io"
-	"io/ioutil"
 	"math"
-	"mime/quotedprintable"
+	"mime"
 	"net/mail"
 	"strconv"
 	"strings"
@@ -453,27 +452,18 @@ func cleanSubject(s string, mode SubjectCleanMode) (prefix string, subject strin
 	return
 }
 
-// Decodes a subject line. Currently only supports quoted-printable UTF-8. This format is the result
-// of a `git format-patch` when the commit title has a non-ASCII character (i.e. an emoji).
+// Decodes a subject line that contains RFC 2047 encoded words. This format is the result of a
+// `git format-patch` when the commit title has a non-ASCII character (i.e. an emoji).
 // See for reference: https://stackoverflow.com/questions/27695749/gmail-api-not-respecting-utf-encoding-in-subject
 func decodeSubject(encoded string) string {
-	if !strings.HasPrefix(encoded, "=?UTF-8?q?") {
-		// not UTF-8 encoded
-		return encoded
-	}
-
 	// If the subject is too long, `git format-patch` may produce a subject line across
 	// multiple lines. When parsed, this can look like the following:
 	// <UTF8-prefix><first-line> <UTF8-prefix><second-line>
-	payload := " " + encoded
-	payload = strings.ReplaceAll(payload, " =?UTF-8?q?", "")
-	payload = strings.ReplaceAll(payload, "?=", "")
-
-	decoded, err := ioutil.ReadAll(quotedprintable.NewReader(strings.NewReader(payload)))
+	decoded, err := new(mime.WordDecoder).DecodeHeader(encoded)
 	if err != nil {
 		// if err, abort decoding and return original subject
 		return encoded
 	}
 
-	return string(decoded)
+	return decoded
 }
-- 
2.43.0


From 5e12e42765dd2202d13728a30d077f43095281ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:09 +0000
Subject: [PATCH 21/24] fix: decode encoded words in the author name of mail
 headers

---
 gitdiff/patch_header.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index a624f94..f6cd7b0 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -382,6 +382,7 @@ func parseHeaderMail(mailLine string, r io.Reader, opts patchHeaderOptions) (*Pa
 		if err != nil {
 			return nil, err
 		}
+		u.Name = decodeWords(u.Name)
 		h.Author = &u
 	}
 
@@ -411,7 +412,7 @@ func cleanSubject(s string, mode SubjectCleanMode) (prefix string, subject strin
 	switch mode {
 	case SubjectCleanAll, SubjectCleanPatchOnly:
 	case SubjectCleanWhitespace:
-		return "", strings.TrimSpace(decodeSubject(s))
+		return "", strings.TrimSpace(decodeWords(s))
 	default:
 		panic(fmt.Sprintf("unknown clean mode: %d", mode))
 	}
@@ -448,14 +449,14 @@ func cleanSubject(s string, mode SubjectCleanMode) (prefix string, subject strin
 	}
 
 	prefix = strings.TrimLeftFunc(s[:at], unicode.IsSpace)
-	subject = strings.TrimRightFunc(decodeSubject(s[at:]), unicode.IsSpace)
+	subject = strings.TrimRightFunc(decodeWords(s[at:]), unicode.IsSpace)
 	return
 }
 
-// Decodes a subject line that contains RFC 2047 encoded words. This format is the result of a
-// `git format-patch` when the commit title has a non-ASCII character (i.e. an emoji).
+// Decodes a subject line or name that contains RFC 2047 encoded words. This format is the result of
+// a `git format-patch` when the commit title has a non-ASCII character (i.e. an emoji).
 // See for reference: https://stackoverflow.com/questions/27695749/gmail-api-not-respecting-utf-encoding-in-subject
-func decodeSubject(encoded string) string {
+func decodeWords(encoded string) string {
 	// If the subject is too long, `git format-patch` may produce a subject line across
 	// multiple lines. When parsed, this can look like the following:
 	// <UTF8-prefix><first-line> <UTF8-prefix><second-line>
-- 
2.43.0


From cef99ea4d260a2835d4fbdafef56f86d3f30ea69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:04 +0000
Subject: [PATCH 22/24] fix: find the default name of git headers in linear
 time

---
 gitdiff/file_header.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index 14db4a3..6275052 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -244,11 +244,15 @@ func parseGitHeaderName(header string) (string, error) {
 	// since names may contain spaces, we can't use a known separator
 	// instead, look for a split that produces two equal names
 
+	start := 0 // of the second name, the same for all splits before it
 	for i := 0; i < len(first)-1; i++ {
 		if !isSpace(first[i]) {
 			continue
 		}
-		second = trimTreePrefix(first[i+1:], 1)
+		if i >= start {
+			start = len(first) - len(trimTreePrefix(first[i+1:], 1))
+		}
+		second = first[start:]
 		if name := first[:i]; name == second {
 			return name, nil
 		}
-- 
2.43.0


From 4caf3a2602f04d597befd1682e502f5c34ea8d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 23/24] fix: report miscounted fragments at the line of their
 header

The distance to the header was taken from the larger of the two line
counts, which is too short for fragments with both old and new lines.
---
 gitdiff/text.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gitdiff/text.go b/gitdiff/text.go
index eb6915b..bda56d5 100644
--- a/gitdiff/text.go
+++ b/gitdiff/text.go
@@ -79,6 +79,7 @@ func (p *parser) ParseTextChunk(frag *TextFragment) error {
 		return p.Errorf(0, "no content following fragment header")
 	}
 
+	start := p.lineno
 	oldLines, newLines := frag.OldLines, frag.NewLines
 	for oldLines > 0 || newLines > 0 {
 		line := p.Line(0)
@@ -132,8 +133,8 @@ func (p *parser) ParseTextChunk(frag *TextFragment) error {
 	}
 
 	if oldLines != 0 || newLines != 0 {
-		hdr := max(frag.OldLines-oldLines, frag.NewLines-newLines) + 1
-		return p.Errorf(-hdr, "fragment header miscounts lines: %+d old, %+d new", -oldLines, -newLines)
+		// the header is the line before the first line of the fragment
+		return p.Errorf(start-1-p.lineno, "fragment header miscounts lines: %+d old, %+d new", -oldLines, -newLines)
 	}
 	if frag.LinesAdded == 0 && frag.LinesDeleted == 0 {
 		return p.Errorf(0, "fragment contains no changes")
-- 
2.43.0


From 6340b749a8769da7488d1ceb4162fc7001d3db7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 24/24] fix: report invalid names in traditional headers at
 their line

The parser is already past both lines when it parses the names.
---
 gitdiff/file_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index 6275052..2200b00 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -135,12 +135,12 @@ func (p *parser) ParseTraditionalFileHeader() (*File, error) {
 
 	oldName, _, err := parseName(oldLine[len(oldPrefix):], '\t', 0)
 	if err != nil {
-		return nil, p.Errorf(0, "file header: %v", err)
+		return nil, p.Errorf(-2, "file header: %v", err)
 	}
 
 	newName, _, err := parseName(newLine[len(newPrefix):], '\t', 0)
 	if err != nil {
-		return nil, p.Errorf(1, "file header: %v", err)
+		return nil, p.Errorf(-1, "file header: %v", err)
 	}
 
 	f := &File{}
-- 
2.43.0

