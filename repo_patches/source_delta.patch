From 0b79f9db53b7da857d91ab50d9b3342833e22fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:39 +0000
Subject: [PATCH 1/9] fix: Join must not drop a third rune that is no tail
 consonant

---
 hangul.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hangul.go b/hangul.go
index 1f5c089..054b3ae 100644
--- a/hangul.go
+++ b/hangul.go
@@ -37,7 +37,11 @@ func Join(l, m, t rune) rune {
 		return rune(0xFFFD)
 	}
 
-	ti, ok := tailIdx(Tail(t))
+	tail := Tail(t)
+	if t != 0 && tail == 0 {
+		return rune(0xFFFD)
+	}
+	ti, ok := tailIdx(tail)
 	if !ok {
 		return rune(0xFFFD)
 	}
-- 
2.43.0


From f30c00b1b2fa3571358950da57cc4c59a4b75afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 2/9] fix: Split of a rune that is no syllable returns no
 components

---
 hangul.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hangul.go b/hangul.go
index 054b3ae..33316ec 100644
--- a/hangul.go
+++ b/hangul.go
@@ -49,8 +49,13 @@ func Join(l, m, t rune) rune {
 	return rune(0xAC00 + (li*21+mi)*28 + ti)
 }
 
-// Split converts NFC to NFD
+// Split converts NFC to NFD.
+// It returns 0, 0, 0 if given rune is not a Hangul syllable.
 func Split(c rune) (l, m, t rune) {
+	if c < 0xAC00 || 0xD7A3 < c {
+		return 0, 0, 0
+	}
+
 	t = (c - 0xAC00) % 28
 	m = ((c - 0xAC00 - t) % 588) / 28
 	l = (c - 0xAC00) / 588
-- 
2.43.0


From f61f9eb465aa5b5cfed56200a5e6f2b521938729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 3/9] fix: the vowel WE consists of U, EO and I

---
 jamo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jamo.go b/jamo.go
index 0f56d37..3406de6 100644
--- a/jamo.go
+++ b/jamo.go
@@ -77,7 +77,7 @@ var multiElements = map[rune][]rune{
 	WAE: []rune{O, A, I},
 	OE:  []rune{O, I},
 	WEO: []rune{U, EO},
-	WE:  []rune{U, E},
+	WE:  []rune{U, EO, I},
 	WI:  []rune{U, I},
 	YI:  []rune{EU, I},
 }
-- 
2.43.0


From e6762b717effdee39e1a2cc7611403d14fb1f1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:44 +0000
Subject: [PATCH 4/9] fix: encode every character outside the code page as
 exactly one '?'

---
 encoding/cp949/cp949.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/encoding/cp949/cp949.go b/encoding/cp949/cp949.go
index e4793c8..4d41190 100644
--- a/encoding/cp949/cp949.go
+++ b/encoding/cp949/cp949.go
@@ -81,19 +81,14 @@ func (p *translateToCp949) Translate(data []byte) (int, []byte, error) {
 		}
 
 		r, s := utf8.DecodeRune(data)
-		rUcs2 := uint16(r)
 		fi := sort.Search(len(p.table), func(i int) bool {
-			if rUcs2 <= p.table[i].ucs2 {
+			if r <= rune(p.table[i].ucs2) {
 				return true
 			}
 			return false
 		})
 
-		if fi >= len(p.table) {
-			p.scratch = append(p.scratch, '?')
-		}
-
-		if fi < len(p.table) && rUcs2 == p.table[fi].ucs2 {
+		if fi < len(p.table) && r == rune(p.table[fi].ucs2) {
 			f := p.table[fi]
 			p.scratch = append(p.scratch,
 				byte(f.cp949>>8), byte(f.cp949&0xff))
-- 
2.43.0


From 335c7c5af57a63358380bb1cb43b12c6394c4390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:12 +0000
Subject: [PATCH 5/9] fix: an empty read is not the end of a CP949 stream

---
 encoding/cp949/public.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index c1b213d..362a5c9 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -57,6 +57,9 @@ func NewReader(r io.Reader) (io.Reader, error) {
 }
 
 func (r *cp949Reader) Read(buf []byte) (int, error) {
+	if len(buf) == 0 {
+		return 0, nil
+	}
 	for {
 		if len(r.cdata) > 0 {
 			n := copy(buf, r.cdata)
@@ -66,9 +69,9 @@ func (r *cp949Reader) Read(buf []byte) (int, error) {
 		if r.err == nil {
 			r.rdata = ensureCap(r.rdata, len(r.rdata)+len(buf))
 			n, err := r.r.Read(r.rdata[len(r.rdata):cap(r.rdata)])
-			// Guard against non-compliant Readers.
+			// Nothing happened; this is no end of the stream.
 			if n == 0 && err == nil {
-				err = io.EOF
+				return 0, nil
 			}
 			r.rdata = r.rdata[0 : len(r.rdata)+n]
 			r.err = err
-- 
2.43.0


From 7ef726ee4e2f4c5b46fa657e8a42c1ab5ea036fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:34 +0000
Subject: [PATCH 6/9] fix: deliver the text before a truncated character and
 report the truncation

---
 encoding/cp949/cp949.go  | 2 +-
 encoding/cp949/public.go | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/encoding/cp949/cp949.go b/encoding/cp949/cp949.go
index 4d41190..827f9e2 100644
--- a/encoding/cp949/cp949.go
+++ b/encoding/cp949/cp949.go
@@ -43,7 +43,7 @@ func (p *translateFromCp949) Translate(data []byte) (int, []byte, error) {
 		}
 
 		if len(data) < 2 {
-			return 0, nil, ErrCP949UnexpectedStream
+			return c, p.scratch, ErrCP949UnexpectedStream
 		}
 
 		n := uint16(data[0])<<8 | uint16(data[1])
diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index 362a5c9..1f20c3c 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -79,15 +79,15 @@ func (r *cp949Reader) Read(buf []byte) (int, error) {
 			break
 		}
 		nc, cdata, cvterr := r.tr.Translate(r.rdata)
-		if cvterr != nil {
-			// TODO
-		}
 		r.cdata = cdata
 
 		// Ensure that we consume all bytes at eof
 		// if the converter refuses them.
 		if nc == 0 && r.err != nil {
 			nc = len(r.rdata)
+			if r.err == io.EOF && cvterr != nil {
+				r.err = cvterr
+			}
 		}
 
 		// Copy unconsumed data to the start of the rdata buffer.
-- 
2.43.0


From fa79c23e1dc5e4adb217ed3a416756807f525452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 7/9] fix: keep characters whole that are split over two Writes

---
 encoding/cp949/public.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index 1f20c3c..448b2e8 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -6,6 +6,7 @@ package cp949
 
 import (
 	"io"
+	"unicode/utf8"
 )
 
 // From converts cp949 stream to utf-8 stream
@@ -114,17 +115,20 @@ func NewWriter(w io.Writer) (io.Writer, error) {
 
 func (w *cp949Writer) Write(data []byte) (int, error) {
 	wdata := data
-	if len(w.buf) > 0 {
+	held := len(w.buf)
+	if held > 0 {
 		w.buf = append(w.buf, data...)
 		wdata = w.buf
 	}
-	n, cdata, err := w.tr.Translate(wdata)
+	// Hold back an incomplete last character for the next Write.
+	n, cdata, err := w.tr.Translate(wdata[:len(wdata)-incompleteTail(wdata)])
 	if err != nil {
 		// TODO
 	}
 	if n > 0 {
 		_, err = w.w.Write(cdata)
 		if err != nil {
+			w.buf = w.buf[:held]
 			return 0, err
 		}
 	}
@@ -134,3 +138,18 @@ func (w *cp949Writer) Write(data []byte) (int, error) {
 	}
 	return len(data), nil
 }
+
+// incompleteTail returns the length of the incomplete character
+// at the end of data, 0 if there is none.
+func incompleteTail(data []byte) int {
+	for i := 1; i < utf8.UTFMax && i <= len(data); i++ {
+		tail := data[len(data)-i:]
+		if utf8.RuneStart(tail[0]) {
+			if utf8.FullRune(tail) {
+				return 0
+			}
+			return i
+		}
+	}
+	return 0
+}
-- 
2.43.0


From 048266dd1631af1358062b57744d866f67a32a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:00 +0000
Subject: [PATCH 8/9] fix: honour the transform.Transformer contract in the
 CP949 decoder and encoder

---
 encoding/cp949/encoding.go | 55 +++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/encoding/cp949/encoding.go b/encoding/cp949/encoding.go
index dcf33a0..91b0799 100644
--- a/encoding/cp949/encoding.go
+++ b/encoding/cp949/encoding.go
@@ -1,7 +1,10 @@
 package cp949
 
 import (
+	"unicode/utf8"
+
 	"golang.org/x/text/encoding"
+	"golang.org/x/text/transform"
 )
 
 // CP949Encoding provides the Encoding interface for CP949 encoding.
@@ -26,30 +29,62 @@ type cp949Decoder struct{}
 
 // Transform converts data from CP949 to UTF-8.
 func (d *cp949Decoder) Transform(dst, src []byte, atEOF bool) (nDst, nSrc int, err error) {
-	// Use the From function to convert CP949 to UTF-8.
-	converted, err := From(src)
+	tr, err := fromCp949()
 	if err != nil {
 		return 0, 0, err
 	}
 
-	// Copy the converted data to dst.
-	copy(dst, converted)
-	return len(converted), len(src), nil
+	for nSrc < len(src) {
+		size := 1
+		if src[nSrc]&0x80 != 0 {
+			size = 2
+		}
+		if size > len(src)-nSrc {
+			if atEOF {
+				return nDst, nSrc, ErrCP949UnexpectedStream
+			}
+			return nDst, nSrc, transform.ErrShortSrc
+		}
+
+		_, converted, err := tr.Translate(src[nSrc : nSrc+size])
+		if err != nil {
+			return nDst, nSrc, err
+		}
+		if len(converted) > len(dst)-nDst {
+			return nDst, nSrc, transform.ErrShortDst
+		}
+		nDst += copy(dst[nDst:], converted)
+		nSrc += size
+	}
+	return nDst, nSrc, nil
 }
 
 type cp949Encoder struct{}
 
 // Transform converts data from UTF-8 to CP949.
 func (e *cp949Encoder) Transform(dst, src []byte, atEOF bool) (nDst, nSrc int, err error) {
-	// Use the To function to convert UTF-8 to CP949.
-	converted, err := To(src)
+	tr, err := toCp949()
 	if err != nil {
 		return 0, 0, err
 	}
 
-	// Copy the converted data to dst.
-	copy(dst, converted)
-	return len(converted), len(src), nil
+	for nSrc < len(src) {
+		if !atEOF && !utf8.FullRune(src[nSrc:]) {
+			return nDst, nSrc, transform.ErrShortSrc
+		}
+		_, size := utf8.DecodeRune(src[nSrc:])
+
+		_, converted, err := tr.Translate(src[nSrc : nSrc+size])
+		if err != nil {
+			return nDst, nSrc, err
+		}
+		if len(converted) > len(dst)-nDst {
+			return nDst, nSrc, transform.ErrShortDst
+		}
+		nDst += copy(dst[nDst:], converted)
+		nSrc += size
+	}
+	return nDst, nSrc, nil
 }
 
 // Reset resets the state of the Transformer.
-- 
2.43.0


From 1edcf143b8410154b317f636f81e260065ae3f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 9/9] fix: SplitMultiElement must not hand out the package's
 own table

Writing to the returned slice changed the result of every later call of
SplitMultiElement and Stroke.
---
 jamo.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jamo.go b/jamo.go
index 3406de6..c2ea264 100644
--- a/jamo.go
+++ b/jamo.go
@@ -82,11 +82,12 @@ var multiElements = map[rune][]rune{
 	YI:  []rune{EU, I},
 }
 
-// SplitMultiElement splits multi-element compatibility jamo
+// SplitMultiElement splits multi-element compatibility jamo.
+// The caller owns the returned elements.
 func SplitMultiElement(r rune) ([]rune, bool) {
 	r = CompatJamo(r)
 	es, ok := multiElements[r]
-	return es, ok
+	return append([]rune(nil), es...), ok
 }
 
 var toCompatJamo = map[rune]rune{
-- 
2.43.0

