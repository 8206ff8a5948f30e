From 53f64e7c0a033c8cfaab67c424f4968c46c6913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 01/85] fix: emit vertical-only cursor moves

Cursor.To computed dy from the X coordinates, so moving straight up or down
produced no control sequence while still updating the tracked position.
---
 state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/state.go b/state.go
index 5104884..112acf7 100644
--- a/state.go
+++ b/state.go
@@ -158,7 +158,7 @@ func (cs *Cursor) To(pt ansi.Point) ansi.Seq {
 		return ansi.CUB.WithInts(-dx)
 	}
 
-	dy := pt.X - cs.X
+	dy := pt.Y - cs.Y
 	cs.Y = pt.Y
 	switch {
 	case dy == 0:
-- 
2.43.0


From 3fd5fdf4df83d26046ea099655b855bf56964022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 02/85] fix: forget cursor position after writing the last
 column

---
 render.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/render.go b/render.go
index 3157ac4..bfe7d7e 100644
--- a/render.go
+++ b/render.go
@@ -31,9 +31,19 @@ func writeGrid(aw ansiWriter, g Grid, prior Screen, style Style) (int, Screen) {
 	if len(prior.Attr) == 0 || len(prior.Rune) == 0 || prior.Rect.Empty() || !prior.Rect.Eq(g.Rect) {
 		var n int
 		n, prior.Cursor = writeGridFull(aw, prior.Cursor, g, style)
-		return n, prior
+		return n, forgetMargin(prior, g)
 	}
-	return writeGridDiff(aw, g, prior, style)
+	n, sc := writeGridDiff(aw, g, prior, style)
+	return n, forgetMargin(sc, g)
+}
+
+// forgetMargin forgets cursor position after writing into the last column: the
+// terminal's cursor stays in that column with a wrap pending, not past it.
+func forgetMargin(sc Screen, g Grid) Screen {
+	if sc.Cursor.X >= g.Rect.Max.X {
+		sc.Cursor.Point = ansi.ZP
+	}
+	return sc
 }
 
 func writeGridFull(aw ansiWriter, cur Cursor, g Grid, style Style) (int, Cursor) {
-- 
2.43.0


From 319683da4e26424fe635a2884153bab3959a15bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 03/85] fix: do not erase a full redraw with a leftover
 background color

---
 render.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/render.go b/render.go
index bfe7d7e..d181b74 100644
--- a/render.go
+++ b/render.go
@@ -52,7 +52,12 @@ func writeGridFull(aw ansiWriter, cur Cursor, g Grid, style Style) (int, Cursor)
 		style = Styles(style, ZeroRuneStyle(empty))
 	}
 	style = Styles(style, DefaultRuneStyle(empty))
-	n := aw.WriteSeq(ansi.ED.With('2'))
+	n := 0
+	if _, set := cur.Attr.BG(); set {
+		// terminals may erase with the current background color
+		n += aw.WriteSGR(cur.MergeSGR(0))
+	}
+	n += aw.WriteSeq(ansi.ED.With('2'))
 	// TODO support writing a sub-grid
 	for i, pt := 0, ansi.Pt(1, 1); i < len(g.Rune); {
 		if gr, ga := style.Style(pt, 0, g.Rune[i], 0, g.Attr[i]); gr != 0 {
-- 
2.43.0


From 40ecd4878619b41e83b398ebc3f648e91de60575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:34 +0000
Subject: [PATCH 04/85] fix: keep pending screen output apart from emulated
 input

---
 screen.go | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/screen.go b/screen.go
index dd4a073..ceadc4c 100644
--- a/screen.go
+++ b/screen.go
@@ -24,6 +24,8 @@ type ScreenDiffer struct {
 
 	VirtualScreen
 	Real Screen
+
+	out Buffer // assembled output, not yet fully written
 }
 
 // VirtualScreen implements minimal terminal emulation around ScreenState.
@@ -87,32 +89,27 @@ func (sc *ScreenDiffer) WriteTo(w io.Writer) (n int64, err error) {
 		return 0, errSubScreenDiff
 	}
 
-	state := sc.Real
-	defer func() {
-		if err == nil {
-			sc.Real = state
-		}
-	}()
-
 	aw, haveAW := w.(ansiWriter)
 
 	// if caller didn't pass a buffered ansi writer, use internal buffer and
 	// then flush to the given io.Writer
 	if !haveAW {
 		defer func() {
-			n, err = sc.buf.WriteTo(w)
+			n, err = sc.out.WriteTo(w)
 			if err != nil && unwrapOSError(err) != syscall.EWOULDBLOCK {
+				sc.out.Reset()
+				sc.Real.Cursor = Cursor{} // unknown, depending on how much was written
 				sc.Reset()
 				sc.Invalidate()
 			}
 		}()
 
 		// continue prior write (e.g. after isEWouldBlock(err) above)
-		if sc.buf.Len() > 0 {
+		if sc.out.Len() > 0 {
 			return
 		}
 
-		aw = &sc.buf
+		aw = &sc.out
 	}
 
 	// enforce final user cursor state
@@ -120,7 +117,7 @@ func (sc *ScreenDiffer) WriteTo(w io.Writer) (n int64, err error) {
 
 	// perform (full or differential) update
 	var m int
-	m, state = sc.VirtualScreen.update(aw, state)
+	m, sc.Real = sc.VirtualScreen.update(aw, sc.Real)
 	return int64(m), err
 }
 
@@ -201,10 +198,10 @@ func (tsc *TermScreen) Exit(term *Term) error {
 	// discard all virtual state...
 	tsc.Reset()
 	// ...and restore real cursor state
-	n := tsc.buf.WriteSGR(tsc.Real.Cursor.MergeSGR(0))
-	n += tsc.buf.WriteSeq(tsc.Real.Cursor.Show())
-	if n > 0 {
-		return term.Flush(&tsc.buf)
+	tsc.out.WriteSGR(tsc.Real.Cursor.MergeSGR(0))
+	tsc.out.WriteSeq(tsc.Real.Cursor.Show())
+	if tsc.out.Len() > 0 {
+		return term.Flush(&tsc.out)
 	}
 	return nil
 }
-- 
2.43.0


From 69b5630fada0ccde54042faa6783dc0901513d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:36 +0000
Subject: [PATCH 05/85] fix: do not process applied cursor output again

---
 cursor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cursor.go b/cursor.go
index 815ba18..e7217c9 100644
--- a/cursor.go
+++ b/cursor.go
@@ -124,7 +124,9 @@ func (c *VirtualCursor) Hide() {
 // Apply the given cursor state, writing any necessary escape sequences into
 // the internal buffer.
 func (c *VirtualCursor) Apply(cs Cursor) {
-	_, c.Cursor = cs.applyTo(&c.buf, c.Cursor)
+	var n int
+	n, c.Cursor = cs.applyTo(&c.buf, c.Cursor)
+	c.buf.Skip(n)
 }
 
 var _ ansiWriter = &VirtualCursor{}
-- 
2.43.0


From bed28ad1ced148ad948f361309ca43da7f4aacb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 06/85] fix: do not track a user cursor past the screen edge

---
 state.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/state.go b/state.go
index 112acf7..2d55985 100644
--- a/state.go
+++ b/state.go
@@ -236,7 +236,15 @@ func (sc *Screen) update(aw ansiWriter, prior Screen) (int, Screen) {
 	n += aw.WriteSeq(prior.Cursor.Hide())
 	m, prior = writeGrid(aw, sc.Grid, prior, NoopStyle)
 	n += m
-	m, prior.Cursor = sc.Cursor.applyTo(aw, prior.Cursor)
+	if sc.Cursor.Visible && !sc.Cursor.Point.In(sc.Grid.Bounds()) {
+		// the terminal will keep its cursor on screen: do not move there
+		// relatively, nor away from there relatively the next time
+		prior.Cursor.Point = ansi.ZP
+		m, prior.Cursor = sc.Cursor.applyTo(aw, prior.Cursor)
+		prior.Cursor.Point = ansi.ZP
+	} else {
+		m, prior.Cursor = sc.Cursor.applyTo(aw, prior.Cursor)
+	}
 	n += m
 	prior.Resize(sc.Grid.Bounds().Size())
 	copy(prior.Rune, sc.Rune)
-- 
2.43.0


From 0d36885a89b5972eed779464569594e72fb7cc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:34 +0000
Subject: [PATCH 07/85] fix: do not panic decoding an escape from no bytes

---
 ansi/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ansi/decode.go b/ansi/decode.go
index 6a80a96..f6ed868 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -64,7 +64,7 @@ func DecodeEscape(p []byte) (e Escape, arg []byte, n int) {
 			return Escape(r), sa, m + sn
 		}
 	}
-	if p[0] == 0x1B {
+	if len(p) > 0 && p[0] == 0x1B {
 		// Encode translated C1 control character so that caller can act on it.
 		utf8.EncodeRune(p[:m], r)
 	}
-- 
2.43.0


From 01751e6cf0ad9bfcf4bcbf4ddebfdcab4241187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:36 +0000
Subject: [PATCH 08/85] fix: decode past invalid bytes within escapes and
 strings

---
 ansi/decode.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ansi/decode.go b/ansi/decode.go
index f6ed868..720d4d4 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -96,9 +96,9 @@ func decodeESC(p []byte) (e Escape, a []byte, n int) {
 		// decode and process the next rune
 		r, m := utf8.DecodeRune(p[ni:])
 		switch {
-		case r == utf8.RuneError: // may be fixed by more bytes, caller can choose
+		case r == utf8.RuneError && !utf8.FullRune(p[ni:]): // may be fixed by more bytes, caller can choose
 			return 0, nil, ei
-		case r > 0xFF: // higher codepoint not part of an escape sequence
+		case r > 0xFF: // higher codepoint (or invalid byte) not part of an escape sequence
 			rshift(m)
 			return 0, nil, ei
 		case 0x80 <= r && r <= 0xFF: // C1 and G1: Treat the same as their 7-bit counterparts
@@ -205,10 +205,10 @@ term:
 func decodeString(p []byte) (a []byte, n int) {
 	r, m := DecodeRune(p)
 	for {
-		switch r {
-		case utf8.RuneError:
+		switch {
+		case r == utf8.RuneError && !utf8.FullRune(p[n:]):
 			return nil, 0
-		case 0x9C:
+		case r == 0x9C:
 			return p[:n], n + m
 		}
 		n += m
-- 
2.43.0


From 61666cea495f2fed5fca95580bb130dd533195a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:38 +0000
Subject: [PATCH 09/85] fix: return the documented errors when decoding a bad
 number

---
 ansi/decode.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ansi/decode.go b/ansi/decode.go
index 720d4d4..6222573 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -266,6 +266,10 @@ func DecodeNumber(p []byte) (r, n int, _ error) {
 	)
 	var un uint64
 
+	if p[0] < '0' || '9' < p[0] {
+		return 0, 0, errSyntax
+	}
+
 	for _, c := range p {
 		if c < '0' || '9' < c {
 			break
@@ -279,12 +283,10 @@ func DecodeNumber(p []byte) (r, n int, _ error) {
 				continue
 			} // else un+v overflows
 		} // else un*10 overflows
-		if !neg && maxVal >= cutoff {
-			return int(cutoff - 1), n, errRange
-		}
-		if neg && maxVal > cutoff {
-			return -int(cutoff), n, errRange
+		if neg {
+			return -int(maxVal), n, errRange
 		}
+		return int(maxVal), n, errRange
 	}
 
 	if neg {
-- 
2.43.0


From e5a32820b528a3478572db31887c21948ad92005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 10/85] fix: decode the SGR conceal attribute

---
 ansi/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ansi/decode.go b/ansi/decode.go
index 6222573..1d690f2 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -333,7 +333,7 @@ func DecodeSGR(a []byte) (attr SGRAttr, n int, _ error) {
 					0, // slow blink not supported
 					0, // fast blink not supported
 					SGRAttrNegative,
-					0, // concealed not supported
+					SGRAttrConceal,
 				}[a[n]-'0']; at {
 				case 0:
 				case SGRAttrClear:
-- 
2.43.0


From 9685a22183c5e06f204cd741dc0827e45f412fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:43 +0000
Subject: [PATCH 11/85] fix: decode an SGR sequence without parameters as clear

---
 ansi/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ansi/decode.go b/ansi/decode.go
index 1d690f2..375a5d7 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -310,6 +310,9 @@ func DecodePoint(a []byte) (p Point, n int, err error) {
 // DecodeSGR decodes an SGR attribute value from the given byte buffer; if
 // non-nil error is returned, then n indicates the index of the offending byte.
 func DecodeSGR(a []byte) (attr SGRAttr, n int, _ error) {
+	if len(a) == 0 {
+		return SGRAttrClear, 0, nil // no parameter means 0
+	}
 	for n < len(a) {
 		switch a[n] {
 		case ';':
-- 
2.43.0


From 883ee731efce80450bc7d6fcf5c8603a462b2252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:45 +0000
Subject: [PATCH 12/85] fix: wait for the rest of an incomplete rune or
 sequence when processing

---
 buffer.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/buffer.go b/buffer.go
index 9f85fb6..7a88055 100644
--- a/buffer.go
+++ b/buffer.go
@@ -148,17 +148,28 @@ func (b *Buffer) Process(proc Processor) {
 
 // Process decodes ansi escapes and utf8 runes from p, passing them to proc.
 func Process(proc Processor, p []byte) (n int) {
-	for n < len(p) {
+	for last := -1; n < len(p); {
 		e, a, m := ansi.DecodeEscape(p[n:])
 		n += m
 		if e == 0 {
-			switch r, m := utf8.DecodeRune(p[n:]); r {
+			if !utf8.FullRune(p[n:]) {
+				return n // nothing, or an incomplete rune
+			}
+			r, m := utf8.DecodeRune(p[n:])
+			switch r {
 			case '\x1b':
-				return n
-			default:
-				n += m
-				e = ansi.Escape(r)
+				if n+1 == len(p) || p[n+1] != '\x1b' {
+					return n // incomplete escape sequence
+				}
+			case 0x90, 0x9B, 0x9D, 0x9E, 0x9F: // DCS, CSI, OSC, PM, APC
+				if n == last {
+					return n // incomplete control sequence or string
+				}
+				last = n // only just shuffled out of an escape sequence?
+				continue
 			}
+			n += m
+			e = ansi.Escape(r)
 		}
 		proc.ProcessANSI(e, a)
 	}
-- 
2.43.0


From e67c25c7ba949c07240a30f27097cdd9604acb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 13/85] fix: erase from the cursor inclusive, also without a
 parameter

---
 state.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/state.go b/state.go
index 2d55985..6c5e41f 100644
--- a/state.go
+++ b/state.go
@@ -394,16 +394,16 @@ func (sc *Screen) ProcessANSI(e ansi.Escape, a []byte) {
 func (sc *Screen) processEscape(e ansi.Escape, a []byte) {
 	switch e {
 	case ansi.ED:
-		var val byte
+		val := byte('0')
 		if len(a) == 1 {
 			val = a[0]
-		} else {
+		} else if len(a) > 1 {
 			return
 		}
 		switch val {
 		case '0': // Erase from current position to bottom of screen inclusive
 			if i, ok := sc.CellOffset(sc.Cursor.Point); ok {
-				sc.clearRegion(i+1, len(sc.Rune))
+				sc.clearRegion(i, len(sc.Rune))
 			}
 		case '1': // Erase from top of screen to current position inclusive
 			if i, ok := sc.CellOffset(sc.Cursor.Point); ok {
@@ -414,10 +414,10 @@ func (sc *Screen) processEscape(e ansi.Escape, a []byte) {
 		}
 
 	case ansi.EL:
-		var val byte
+		val := byte('0')
 		if len(a) == 1 {
 			val = a[0]
-		} else {
+		} else if len(a) > 1 {
 			return
 		}
 
-- 
2.43.0


From 1ac6f39c1e5200345e75ae595ecfa96319622bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 14/85] fix: encode the boundary escape identifiers

---
 ansi/control.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ansi/control.go b/ansi/control.go
index 960eaa4..54c80c3 100644
--- a/ansi/control.go
+++ b/ansi/control.go
@@ -28,7 +28,7 @@ type Seq struct {
 
 func (id Escape) seq() Seq {
 	switch {
-	case 0x0000 < id && id < 0x001F,
+	case 0x0000 < id && id <= 0x001F,
 		0xEF00 < id && id < 0xEFFF:
 		return Seq{id: id}
 	}
@@ -122,11 +122,11 @@ func (seq Seq) WithPoint(p Point) Seq { return seq.WithInts(p.Y, p.X) }
 func (id Escape) AppendTo(p []byte) []byte {
 	// TODO stricter
 	switch {
-	case 0x0000 < id && id < 0x001F: // C0 controls
+	case 0x0000 < id && id <= 0x001F: // C0 controls
 		return append(p, byte(id&0x1F))
-	case 0x0080 < id && id < 0x009F: // C1 controls
+	case 0x0080 <= id && id <= 0x009F: // C1 controls
 		return append(p, '\x1b', byte(0x40|id&0x1F))
-	case 0xEF20 < id && id < 0xEF7E: // ESC + byte
+	case 0xEF20 <= id && id <= 0xEF7E: // ESC + byte
 		return append(p, '\x1b', byte(id&0x7F))
 	case 0xEF80 < id && id < 0xEFFF: // CSI + arg (if any)
 		return append(p, '\x1b', '[', byte(id&0x7F))
@@ -141,9 +141,9 @@ func (id Escape) AppendWith(p []byte, arg ...byte) []byte {
 	switch {
 	case 0x0000 < id && id <= 0x001F: // C0 controls
 		return append(p, byte(id&0x1F))
-	case 0x0080 < id && id <= 0x009F: // C1 controls
+	case 0x0080 <= id && id <= 0x009F: // C1 controls
 		return append(p, '\x1b', byte(0x40|id&0x1F))
-	case 0xEF20 < id && id < 0xEF7E: // ESC + byte
+	case 0xEF20 <= id && id <= 0xEF7E: // ESC + byte
 		return append(append(append(p, '\x1b'), arg...), byte(id&0x7F))
 	case 0xEF80 < id && id < 0xEFFF: // CSI + arg (if any)
 		return append(append(append(p, '\x1b', '['), arg...), byte(id&0x7F))
@@ -158,7 +158,7 @@ func (seq Seq) AppendTo(p []byte) []byte {
 	}
 	switch id := seq.id; {
 	case id == 0:
-	case 0x0000 < id && id < 0x001F: // C0 controls
+	case 0x0000 < id && id <= 0x001F: // C0 controls
 		p = append(p, byte(id))
 		p = seq.appendArgBytes(p)
 	case 0xEF80 < id && id < 0xEFFF: // CSI
@@ -220,9 +220,9 @@ func (id Escape) Size() int {
 	switch {
 	case 0x0000 < id && id <= 0x001F: // C0 controls
 		return 1
-	case 0x0080 < id && id <= 0x009F: // C1 controls
+	case 0x0080 <= id && id <= 0x009F: // C1 controls
 		return 2
-	case 0xEF20 < id && id < 0xEF7E: // ESC + byte
+	case 0xEF20 <= id && id <= 0xEF7E: // ESC + byte
 		return 2
 	case 0xEF80 < id && id < 0xEFFF: // CSI + arg (if any)
 		return 3
-- 
2.43.0


From 9cc3955893eb583dd7265ec536a449f9a266cfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 15/85] fix: encode character set selection arguments after the
 escape byte

---
 ansi/control.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ansi/control.go b/ansi/control.go
index 54c80c3..ec66e49 100644
--- a/ansi/control.go
+++ b/ansi/control.go
@@ -143,6 +143,8 @@ func (id Escape) AppendWith(p []byte, arg ...byte) []byte {
 		return append(p, byte(id&0x1F))
 	case 0x0080 <= id && id <= 0x009F: // C1 controls
 		return append(p, '\x1b', byte(0x40|id&0x1F))
+	case 0xEF20 <= id && id <= 0xEF2F: // ESC character set control + arg
+		return append(append(p, '\x1b', byte(id&0x7F)), arg...)
 	case 0xEF20 <= id && id <= 0xEF7E: // ESC + byte
 		return append(append(append(p, '\x1b'), arg...), byte(id&0x7F))
 	case 0xEF80 < id && id < 0xEFFF: // CSI + arg (if any)
@@ -166,15 +168,16 @@ func (seq Seq) AppendTo(p []byte) []byte {
 		p = seq.appendArgBytes(p)
 		p = seq.appendArgNums(p)
 		p = append(p, byte(id&0x7F))
+	case 0xEF20 <= id && id <= 0xEF2F: // ESC character set control
+		// NOTE character set selection sequences are special, in that they're
+		// always a 3 byte sequence, and identified by the first
+		// (intermediate range) byte after the ESC
+		p = append(p, '\x1b', byte(id&0x7F))
+		p = seq.appendArgBytes(p)
 	case 0xEF00 < id && id < 0xEF7F: // ESC
 		p = append(p, '\x1b')
 		p = seq.appendArgBytes(p)
 		p = append(p, byte(id&0x7F))
-	case 0xEF20 < id && id < 0xEF2F: // ESC character set control
-		// NOTE character set selection sequences are special, in that they're
-		// always a 3 byte sequence, and identified by the first
-		// (intermediate range) byte after the ESC
-		p = append(p, '\x1b', byte(id&0x7F), seq.argBytes[0])
 	default:
 		panic("inconceivable: should not be able to construct a Seq like that")
 	}
-- 
2.43.0


From 7d9f012b124fcece42c6fd6c1d88832a49c6f56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 16/85] fix: encode control string arguments

---
 ansi/control.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ansi/control.go b/ansi/control.go
index ec66e49..a84b9e1 100644
--- a/ansi/control.go
+++ b/ansi/control.go
@@ -142,7 +142,14 @@ func (id Escape) AppendWith(p []byte, arg ...byte) []byte {
 	case 0x0000 < id && id <= 0x001F: // C0 controls
 		return append(p, byte(id&0x1F))
 	case 0x0080 <= id && id <= 0x009F: // C1 controls
-		return append(p, '\x1b', byte(0x40|id&0x1F))
+		p = append(p, '\x1b', byte(0x40|id&0x1F))
+		switch id {
+		case 0x90, 0x9D, 0x9E, 0x9F: // DCS, OSC, PM, APC strings
+			if arg != nil {
+				p = append(append(p, arg...), '\x1b', '\\') // ST
+			}
+		}
+		return p
 	case 0xEF20 <= id && id <= 0xEF2F: // ESC character set control + arg
 		return append(append(p, '\x1b', byte(id&0x7F)), arg...)
 	case 0xEF20 <= id && id <= 0xEF7E: // ESC + byte
-- 
2.43.0


From bec149df6a912809bf133f77533419421c17c6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 17/85] fix: decode an escape right after a canceled one

---
 buffer.go |  3 +++
 input.go  | 13 +++++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/buffer.go b/buffer.go
index 7a88055..7aaac0b 100644
--- a/buffer.go
+++ b/buffer.go
@@ -152,6 +152,9 @@ func Process(proc Processor, p []byte) (n int) {
 		e, a, m := ansi.DecodeEscape(p[n:])
 		n += m
 		if e == 0 {
+			if m > 0 {
+				continue // what remains after a canceled escape may be another one
+			}
 			if !utf8.FullRune(p[n:]) {
 				return n // nothing, or an incomplete rune
 			}
diff --git a/input.go b/input.go
index d7e20a4..855a029 100644
--- a/input.go
+++ b/input.go
@@ -141,11 +141,16 @@ func (in *Input) decodeEscape() (e ansi.Escape, a []byte) {
 	if in.buf.Len() == 0 {
 		return 0, nil
 	}
-	e, a, n := ansi.DecodeEscape(in.buf.Bytes())
-	if n > 0 {
-		in.buf.Next(n)
+	for {
+		e, a, n := ansi.DecodeEscape(in.buf.Bytes())
+		if n > 0 {
+			in.buf.Next(n)
+		}
+		if e != 0 || n == 0 || in.buf.Len() == 0 {
+			return e, a
+		}
+		// what remains after a canceled escape may be another one
 	}
-	return e, a
 }
 
 func (in *Input) decodeRune() (rune, bool) {
-- 
2.43.0


From b97680ddc02b14250652293e3813870b5b3330b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:10 +0000
Subject: [PATCH 18/85] fix: decode an escaped C1 control after an ignored
 delete

---
 ansi/decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ansi/decode.go b/ansi/decode.go
index 375a5d7..c515ca7 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -112,6 +112,10 @@ func decodeESC(p []byte) (e Escape, a []byte, n int) {
 		// dispatch the rune, now known <= utf8.RuneSelf
 		switch {
 		case 0x30 <= r && r <= 0x7E: // End of an escape sequence.
+			if ei > 0 && ai == 0 && 0x40 <= r && r <= 0x5F { // a C1 control, once any deletes are ignored
+				e, a, n = DecodeEscape(p[ei:])
+				return e, a, ei + n
+			}
 			if ai != 0 {
 				if ni-ai == 1 && 0x20 <= p[ai] && p[ai] <= 0x2F {
 					// name the character selection block after its
-- 
2.43.0


From 892de49148638110e26e8c3dfc695e1babdbdb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 19/85] fix: do not track a cursor from an unknown position

---
 state.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/state.go b/state.go
index 6c5e41f..e1d6b25 100644
--- a/state.go
+++ b/state.go
@@ -271,7 +271,9 @@ func (cs *Cursor) ProcessANSI(e ansi.Escape, a []byte) {
 	case e.IsEscape():
 		cs.processEscape(e, a, ptID)
 	case e == '\x0A': // LF
-		cs.Y++
+		if cs.Y > 0 { // an unknown row stays unknown
+			cs.Y++
+		}
 	case e == '\x0D': // CR
 		cs.X = 1
 	// TODO anything for other control runes?
@@ -290,6 +292,9 @@ func (cs *Cursor) processEscape(
 ) {
 	switch e {
 	case ansi.CUU, ansi.CUD, ansi.CUF, ansi.CUB: // relative cursor motion
+		if !cs.Point.Valid() {
+			return // an unknown position stays unknown
+		}
 		b, _ := e.CSI()
 		d := cursorMoves[b-'A']
 		if len(a) > 0 {
-- 
2.43.0


From 28619aa73f948bd4da417c02ea33aece99723a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:49 +0000
Subject: [PATCH 20/85] fix: pass SGR differences through to writers that track
 their own cursor

---
 render.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/render.go b/render.go
index d181b74..cd20498 100644
--- a/render.go
+++ b/render.go
@@ -175,8 +175,12 @@ func withAnsiCursorWriter(
 	w io.Writer, cur Cursor,
 	f func(aw ansiWriter, cur Cursor) (int, Cursor),
 ) (n int, _ Cursor, err error) {
-	aw, ok := w.(ansiWriter)
-	if !ok {
+	var aw ansiWriter
+	if b, ok := w.(*Buffer); ok {
+		aw = b
+	} else {
+		// NOTE not even another ansiWriter may be used directly: they track a
+		// cursor of their own, and so do not take SGR differences as is
 		var buf Buffer
 		defer func() {
 			var m int64
-- 
2.43.0


From c8465a187b7761a7ce35148305efcde2ef3244d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:49 +0000
Subject: [PATCH 21/85] fix: wait for the rest of an incomplete input rune

---
 input.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/input.go b/input.go
index 855a029..7172a99 100644
--- a/input.go
+++ b/input.go
@@ -159,6 +159,9 @@ func (in *Input) decodeRune() (rune, bool) {
 	}
 	r, n := utf8.DecodeRune(in.buf.Bytes())
 	if !in.ateof {
+		if !utf8.FullRune(in.buf.Bytes()) {
+			return 0, false // wait for the rest of it
+		}
 		switch r {
 		case 0x90, 0x9B, 0x9D, 0x9E, 0x9F: // DCS, CSI, OSC, PM, APC
 			return 0, false
-- 
2.43.0


From 6f3c964e2df308d8065570fffa6b78b42d6a6bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:51 +0000
Subject: [PATCH 22/85] fix: clear input file flags that are no longer wanted

---
 input.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/input.go b/input.go
index 7172a99..d9209f6 100644
--- a/input.go
+++ b/input.go
@@ -397,9 +397,13 @@ func (in *Input) setFlags() (prior uintptr, _ error) {
 func (in *Input) buildFlags(flags uintptr) uintptr {
 	if in.nonblock {
 		flags |= syscall.O_NONBLOCK
+	} else {
+		flags &^= syscall.O_NONBLOCK
 	}
 	if in.async {
 		flags |= syscall.O_ASYNC
+	} else {
+		flags &^= syscall.O_ASYNC
 	}
 	return flags
 }
-- 
2.43.0


From ccef9c48ba8cde359e5c05ff330702ac50e3afcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 23/85] fix: block in ReadMore after a non-blocking read

---
 input.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/input.go b/input.go
index d9209f6..5532044 100644
--- a/input.go
+++ b/input.go
@@ -203,9 +203,11 @@ func (in *Input) ReadMore() (int, error) {
 			if n > 0 {
 				return n, nil
 			}
+			in.nonblock = true // evidently, whoever set it so
 			if err := in.setNonblock(false); err != nil {
 				return 0, err
 			}
+			continue // reading again, now blocking
 
 		case nil:
 			in.ateof = false
-- 
2.43.0


From edc7b165822cbc6e369aa59e0c3c361ec2fcbaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:40 +0000
Subject: [PATCH 24/85] fix: find the closest palette color exactly

---
 ansi/colors.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ansi/colors.go b/ansi/colors.go
index 71cb641..f6236ef 100644
--- a/ansi/colors.go
+++ b/ansi/colors.go
@@ -718,8 +718,9 @@ func (p Palette) Index(c SGRColor) int {
 	return ret
 }
 
-// sqDiff borrowed from image/color
+// sqDiff adapted from image/color; 8-bit components need no shift to not
+// overflow, and it would round small differences down to none.
 func sqDiff(x, y uint8) uint32 {
 	d := uint32(x) - uint32(y)
-	return (d * d) >> 2
+	return d * d
 }
-- 
2.43.0


From 93e327b29fe14d751350a2c7353fe9d395b9b302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:42 +0000
Subject: [PATCH 25/85] fix: do not share storage between combined color models

---
 ansi/colors.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ansi/colors.go b/ansi/colors.go
index f6236ef..fc6cf9e 100644
--- a/ansi/colors.go
+++ b/ansi/colors.go
@@ -465,9 +465,9 @@ func ColorModels(models ...ColorModel) ColorModel {
 		as, haveAs := a.(colorModels)
 		bs, haveBs := b.(colorModels)
 		if haveAs && haveBs {
-			a = append(as, bs...)
+			a = append(as[:len(as):len(as)], bs...)
 		} else if haveAs {
-			a = append(as, b)
+			a = append(as[:len(as):len(as)], b)
 		} else if haveBs {
 			a = append(colorModels{a}, bs...)
 		} else {
-- 
2.43.0


From f8826b7ad2b42950076a638c3742d7cc5239dc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:54 +0000
Subject: [PATCH 26/85] fix: do not share storage between combined contexts

---
 context.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index 7c6da8d..4c9f1ff 100644
--- a/context.go
+++ b/context.go
@@ -38,9 +38,9 @@ func Contexts(cs ...Context) Context {
 		as, haveAs := a.(contexts)
 		bs, haveBs := b.(contexts)
 		if haveAs && haveBs {
-			a = append(as, bs...)
+			a = append(as[:len(as):len(as)], bs...)
 		} else if haveAs {
-			a = append(as, b)
+			a = append(as[:len(as):len(as)], b)
 		} else if haveBs {
 			a = append(contexts{a}, bs...)
 		} else {
-- 
2.43.0


From 9c07d5e98895457c370f828f51aae0c1eb7869b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:55 +0000
Subject: [PATCH 27/85] fix: make the X10 mouse mode private

---
 ansi/modes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ansi/modes.go b/ansi/modes.go
index 5e2ec9b..6db8a5e 100644
--- a/ansi/modes.go
+++ b/ansi/modes.go
@@ -27,7 +27,7 @@ func (mode Mode) Reset() Seq {
 // private mode constants
 // TODO more coverage
 const (
-	ModeMouseX10 Mode = 9
+	ModeMouseX10 = ModePrivate | 9
 )
 
 // xterm mode constants; see http://invisible-island.net/xterm/ctlseqs/ctlseqs.html.
-- 
2.43.0


From 8e1f8bed27823b5bb573c5af2c9a05772194a8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:26 +0000
Subject: [PATCH 28/85] fix: convert rectangles in RectFromImage

---
 ansi/geom.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ansi/geom.go b/ansi/geom.go
index fe69b07..28f86ff 100644
--- a/ansi/geom.go
+++ b/ansi/geom.go
@@ -45,6 +45,8 @@ func RectFromImage(ir image.Rectangle) (r Rectangle) {
 	if ir.Min.X < 0 || ir.Min.Y < 0 || ir.Max.X < 0 || ir.Max.Y < 0 {
 		panic("out of bounds image.Rectangle value")
 	}
+	r.Min.X, r.Min.Y = ir.Min.X+1, ir.Min.Y+1
+	r.Max.X, r.Max.Y = ir.Max.X+1, ir.Max.Y+1
 	return r
 }
 
-- 
2.43.0


From b29261c8750e5ad05581cfc1a3e9127a06a3d3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:27 +0000
Subject: [PATCH 29/85] fix: stop a styled grid draw at the end of the source

---
 draw.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/draw.go b/draw.go
index 9c96863..ffe525d 100644
--- a/draw.go
+++ b/draw.go
@@ -34,6 +34,7 @@ func DrawGrid(dst, src Grid, styles ...Style) {
 		}
 		si += src.Stride
 		di += dst.Stride
+		sp.Y++
 		dp.Y++
 	}
 }
-- 
2.43.0


From fa92a8c95adc3eddea65b8132df4e692cb848714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:29 +0000
Subject: [PATCH 30/85] fix: pad the last row when loading a bitmap

---
 bitmap.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bitmap.go b/bitmap.go
index 2df4c15..0004fb5 100644
--- a/bitmap.go
+++ b/bitmap.go
@@ -15,8 +15,11 @@ type Bitmap struct {
 
 // Load the given bit data into the bitmap.
 func (bi *Bitmap) Load(stride int, data []bool) {
-	h := len(data) / stride
-	for i, n := 0, len(data)%h; i < n; i++ {
+	h := 0
+	if stride > 0 {
+		h = (len(data) + stride - 1) / stride
+	}
+	for data = data[:len(data):len(data)]; len(data) < h*stride; {
 		data = append(data, false)
 	}
 	bi.Bit = data
-- 
2.43.0


From dd997de70ca79c9a389771b1a2d2e28b5b6281f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:30 +0000
Subject: [PATCH 31/85] fix: do not start a written sub-bitmap with a line
 break

---
 render.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render.go b/render.go
index cd20498..c204f15 100644
--- a/render.go
+++ b/render.go
@@ -149,7 +149,7 @@ func WriteBitmap(w io.Writer, bi Bitmap, styles ...Style) (int, error) {
 
 func writeBitmap(aw ansiWriter, cur Cursor, bi Bitmap, style Style) (n int, _ Cursor) {
 	for bp := bi.Rect.Min; bp.Y < bi.Rect.Max.Y; bp.Y += 4 {
-		if bp.Y > 0 {
+		if bp.Y > bi.Rect.Min.Y {
 			n += aw.WriteSeq(cur.NewLine())
 		}
 		for bp.X = bi.Rect.Min.X; bp.X < bi.Rect.Max.X; bp.X += 2 {
-- 
2.43.0


From 24b043a3564afd61fd57431f90baf0c30cde3064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 32/85] fix: clear the rendition of unstyled bitmap cells

---
 render.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render.go b/render.go
index c204f15..be3f29f 100644
--- a/render.go
+++ b/render.go
@@ -157,7 +157,7 @@ func writeBitmap(aw ansiWriter, cur Cursor, bi Bitmap, style Style) (n int, _ Cu
 			sr := bi.Rune(bp)
 			r, a := style.Style(sp, 0, sr, 0, 0)
 
-			if a != 0 {
+			if a != 0 || cur.Attr != 0 {
 				ad := cur.MergeSGR(a)
 				n += aw.WriteSGR(ad)
 			}
-- 
2.43.0


From 34eeaeef63afa037b16b373a3455b5fe97737878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:33 +0000
Subject: [PATCH 33/85] fix: close terminal context only at the end of the
 first RunWith

---
 term.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/term.go b/term.go
index 13481b8..bd47eb7 100644
--- a/term.go
+++ b/term.go
@@ -103,16 +103,16 @@ func (term *Term) RunWith(within func(*Term) error) (err error) {
 		defer func() {
 			term.under = false
 		}()
-	}
 
-	term.initContext()
+		term.initContext()
 
-	if cl, ok := term.ctx.(interface{ Close() error }); ok {
-		defer func() {
-			if cerr := cl.Close(); err == nil {
-				err = cerr
-			}
-		}()
+		if cl, ok := term.ctx.(interface{ Close() error }); ok {
+			defer func() {
+				if cerr := cl.Close(); err == nil {
+					err = cerr
+				}
+			}()
+		}
 	}
 
 	defer func() {
-- 
2.43.0


From 46c211e0e3a58aeb3131a0eac0b48379a57d7723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:35 +0000
Subject: [PATCH 34/85] fix: do not miss the signal resuming a suspended
 process

---
 term.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/term.go b/term.go
index bd47eb7..9345b0e 100644
--- a/term.go
+++ b/term.go
@@ -174,7 +174,7 @@ func (term *Term) Suspend() error {
 		return term.RunWithout((*Term).Suspend)
 	}
 
-	cont := make(chan os.Signal)
+	cont := make(chan os.Signal, 1)
 	signal.Notify(cont, syscall.SIGCONT)
 	defer signal.Stop(cont)
 	log.Printf("suspending")
-- 
2.43.0


From 44f3ed95f19a1c9f137ae3569166aa1d224b82f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:36 +0000
Subject: [PATCH 35/85] fix: allow resizing a grid without columns

---
 grid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grid.go b/grid.go
index c2c3db4..bb04da5 100644
--- a/grid.go
+++ b/grid.go
@@ -98,7 +98,7 @@ func (g *Grid) IsSub() bool {
 
 func (g *Grid) fullSize() image.Point {
 	if g.Stride == 0 {
-		return image.ZP
+		return image.Pt(0, g.Rect.Dy())
 	}
 	return image.Pt(g.Stride, len(g.Rune)/g.Stride)
 }
-- 
2.43.0


From 0a1eab7f4b4064dae084b10c8320226310668054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:38 +0000
Subject: [PATCH 36/85] fix: resize a sub-grid only within the full grid

---
 grid.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/grid.go b/grid.go
index bb04da5..95d7d8e 100644
--- a/grid.go
+++ b/grid.go
@@ -22,11 +22,12 @@ func (g *Grid) Resize(size image.Point) bool {
 		return false
 	}
 	if g.IsSub() {
-		if size.X > g.Stride {
-			size.X = g.Stride
+		room := g.Full().Rect.Max.Diff(g.Rect.Min)
+		if size.X > room.X {
+			size.X = room.X
 		}
-		if g.Stride*size.Y > len(g.Rune) {
-			size.Y = len(g.Rune) / g.Stride
+		if size.Y > room.Y {
+			size.Y = room.Y
 		}
 		g.Rect.Max = g.Rect.Min.Add(size)
 	} else {
-- 
2.43.0


From 84eac6c096c34860f5655197decbafbe2b3ea594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:55 +0000
Subject: [PATCH 37/85] fix: compare size and only the cells within in Grid.Eq

---
 grid.go | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/grid.go b/grid.go
index 95d7d8e..e4289e6 100644
--- a/grid.go
+++ b/grid.go
@@ -148,25 +148,30 @@ func (g Grid) SubRect(r ansi.Rectangle) Grid {
 // Eq returns true only if the other grid has the same size and contents as the
 // receiver.
 func (g Grid) Eq(other Grid, zero rune) bool {
-	n := len(g.Rune)
-	if n != len(other.Rune) {
+	size := g.Rect.Size()
+	if size != other.Rect.Size() {
 		return false
 	}
-	i := 0
-	for ; i < n; i++ {
-		if g.Attr[i] != other.Attr[i] {
-			return false
-		}
-		gr, or := g.Rune[i], other.Rune[i]
-		if gr == 0 {
-			gr = zero
-		}
-		if or == 0 {
-			or = zero
-		}
-		if gr != or {
-			return false
+	gi, _ := g.CellOffset(g.Rect.Min)
+	oi, _ := other.CellOffset(other.Rect.Min)
+	for y := 0; y < size.Y; y++ {
+		for i, j := gi, oi; i < gi+size.X; i, j = i+1, j+1 {
+			if g.Attr[i] != other.Attr[j] {
+				return false
+			}
+			gr, or := g.Rune[i], other.Rune[j]
+			if gr == 0 {
+				gr = zero
+			}
+			if or == 0 {
+				or = zero
+			}
+			if gr != or {
+				return false
+			}
 		}
+		gi += g.Stride
+		oi += other.Stride
 	}
 	return true
 }
-- 
2.43.0


From bf2cb743f33c743f8cad91cb98e0788f37e3ef34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:56 +0000
Subject: [PATCH 38/85] fix: style bitmap cells by their point within the grid

---
 draw.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/draw.go b/draw.go
index ffe525d..acaa45e 100644
--- a/draw.go
+++ b/draw.go
@@ -85,9 +85,8 @@ func DrawBitmap(dst Grid, src Bitmap, styles ...Style) {
 		for gp.X < dst.Rect.Max.X && bp.X < src.Rect.Max.X {
 			if i, ok := dst.CellOffset(gp); ok {
 				r, a := src.Rune(bp), dst.Attr[i]
-				sp := ansi.PtFromImage(bp)
 				pr, pa := dst.Rune[i], dst.Attr[i]
-				if r, a = style.Style(sp, pr, r, pa, a); r != 0 {
+				if r, a = style.Style(gp, pr, r, pa, a); r != 0 {
 					dst.Rune[i], dst.Attr[i] = r, a
 				}
 			}
-- 
2.43.0


From aa7cc05a48c9bd1c259b73b64965b35580032fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 39/85] fix: stop a styled grid draw at the right edge of the
 destination

The destination point was not advanced along a row: cells past a narrower
destination were overwritten, and styles were given the wrong point.
---
 draw.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/draw.go b/draw.go
index acaa45e..261900d 100644
--- a/draw.go
+++ b/draw.go
@@ -31,6 +31,7 @@ func DrawGrid(dst, src Grid, styles ...Style) {
 			sii++
 			dii++
 			sp.X++
+			dp.X++
 		}
 		si += src.Stride
 		di += dst.Stride
-- 
2.43.0


From 4bcb3339e9e1d5f3b558cf663ff1e341ce542fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:10 +0000
Subject: [PATCH 40/85] fix: do not report a sub-grid resize that changes
 nothing

---
 grid.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grid.go b/grid.go
index e4289e6..e27b4ab 100644
--- a/grid.go
+++ b/grid.go
@@ -29,6 +29,9 @@ func (g *Grid) Resize(size image.Point) bool {
 		if size.Y > room.Y {
 			size.Y = room.Y
 		}
+		if size == g.Rect.Size() {
+			return false
+		}
 		g.Rect.Max = g.Rect.Min.Add(size)
 	} else {
 		if g.Rect.Min.Point == image.ZP {
-- 
2.43.0


From 789fd955f07859a7f22c2313bc726cf329d405df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 41/85] fix: resize a grid by the capacity of both its slices

---
 grid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grid.go b/grid.go
index e27b4ab..4199e46 100644
--- a/grid.go
+++ b/grid.go
@@ -40,7 +40,7 @@ func (g *Grid) Resize(size image.Point) bool {
 		g.Rect.Max = g.Rect.Min.Add(size)
 		g.Stride = size.X
 		n := g.Stride * size.Y
-		if n > cap(g.Rune) {
+		if n > cap(g.Rune) || n > cap(g.Attr) {
 			as := make([]ansi.SGRAttr, n)
 			rs := make([]rune, n)
 			copy(as, g.Attr)
-- 
2.43.0


From 97407a73ec97201c2937c02e39f8825df5b39be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:45 +0000
Subject: [PATCH 42/85] fix: keep styled spaces in a full grid write with a
 space fill

---
 render.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/render.go b/render.go
index be3f29f..cbc0158 100644
--- a/render.go
+++ b/render.go
@@ -49,7 +49,12 @@ func forgetMargin(sc Screen, g Grid) Screen {
 func writeGridFull(aw ansiWriter, cur Cursor, g Grid, style Style) (int, Cursor) {
 	const empty = ' '
 	if fillRune, _ := style.Style(ansi.ZP, 0, 0, 0, 0); fillRune == empty {
-		style = Styles(style, ZeroRuneStyle(empty))
+		style = Styles(style, StyleFunc(func(_ ansi.Point, _, r rune, _, a ansi.SGRAttr) (rune, ansi.SGRAttr) {
+			if r == empty && a == 0 {
+				r = 0
+			}
+			return r, a
+		}))
 	}
 	style = Styles(style, DefaultRuneStyle(empty))
 	n := 0
-- 
2.43.0


From 8829d638a610a83f8dc83721bc10b7b5de9dda9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:46 +0000
Subject: [PATCH 43/85] fix: blank cells that a style elides in a differential
 grid write

---
 render.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/render.go b/render.go
index cbc0158..65161c6 100644
--- a/render.go
+++ b/render.go
@@ -88,9 +88,8 @@ func writeGridDiff(aw ansiWriter, g Grid, prior Screen, style Style) (int, Scree
 	const empty = ' '
 	if fillRune == 0 {
 		fillRune = empty
-		style = Styles(style, FillRuneStyle(fillRune))
 	}
-	style = Styles(style, DefaultRuneStyle(empty))
+	style = Styles(style, FillRuneStyle(empty))
 	n, diffing := 0, true
 	// TODO support writing a sub-grid
 	for i, pt := 0, ansi.Pt(1, 1); i < len(g.Rune); /* next: */ {
-- 
2.43.0


From ba888ce52c6ffdf5128337ae0907e5ac8714ad7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:26 +0000
Subject: [PATCH 44/85] fix: keep recorded input bytes, errors and frames when
 reading a replay

---
 input.go | 113 ++++++++++++++++++++++++-------------------------------
 1 file changed, 49 insertions(+), 64 deletions(-)

diff --git a/input.go b/input.go
index 5532044..d558753 100644
--- a/input.go
+++ b/input.go
@@ -73,6 +73,8 @@ const (
 	recMarkEnd   = "\x1b\\"        // ST
 	recMarkSize  = 2 + 8 + len(time.RFC3339Nano) + 2
 
+	apcStart = "\x1b_" // APC
+
 	recReadErrStart = "\x1b_recReadErr:" // APC "recReadErr:"
 	recReadErrEnd   = "\x1b\\"           // ST
 	recReadErrSize  = 2 + 11 + 256 + 2
@@ -473,84 +475,67 @@ func ReadInputReplay(f *os.File) (InputReplay, error) {
 		return nil, err
 	}
 
-	estBytes := int(fi.Size())
-	estFrames := estBytes / recMarkSize
-
-	type protoFrame struct {
-		InputFrame
-		e [2]int
-		b [2]int
-		m [2]int
+	bs := make([]byte, 0, int(fi.Size())+bytes.MinRead)
+	buf := bytes.NewBuffer(bs)
+	if _, err := buf.ReadFrom(f); err != nil {
+		return nil, err
 	}
+	bs = buf.Bytes()
 
 	var (
-		in     = Input{File: f, MinReadSize: 1024}
-		frames = make([]protoFrame, 0, estFrames)
-		bs     = make([]byte, 0, estBytes)
-		off    int
-		prot   protoFrame
+		result = make(InputReplay, 0, len(bs)/recMarkSize)
+		start  int
+		frm    InputFrame
 	)
 
-	push := func() {
-		if prot.m != [2]int{} || !prot.T.IsZero() || off < len(bs) {
-			prot.b = [2]int{off, len(bs)}
-			frames = append(frames, prot)
-			prot = protoFrame{}
-			off = len(bs)
+	push := func(end int) {
+		if frm.E != nil || frm.M != nil || !frm.T.IsZero() || start < end {
+			frm.B = bs[start:end:end]
+			result = append(result, frm)
+			frm = InputFrame{}
 		}
 	}
 
-	for {
-		e, a, ok := in.Decode()
-		if !ok {
-			if _, err := in.ReadMore(); err == io.EOF {
-				push()
-				break
-			} else if err != nil {
-				return nil, err
-			}
+	// NOTE recorded bytes are not decoded, since the recording must not change
+	// them, and marks may be anywhere within: even inside of an escape sequence
+	// or a rune that was split between reads.
+	for off := 0; ; {
+		i := bytes.Index(bs[off:], []byte(apcStart))
+		if i < 0 {
+			break
+		}
+		i += off
+		off = i + len(apcStart)
+		n := bytes.IndexByte(bs[off:], '\x1b')
+		if n < 0 {
+			break
 		}
+		a, end := bs[off:off+n:off+n], off+n
+		if !bytes.HasPrefix(bs[end:], []byte(recMarkEnd)) {
+			off = end // not an APC, input that merely starts like one
+			continue
+		}
+		off = end + len(recMarkEnd)
 
-		if e == 0x9F { // APC
-			switch {
-			case bytes.HasPrefix(a, []byte("recTime:")):
-				push()
-				if parseErr := prot.T.UnmarshalText(a[8:]); parseErr != nil {
-					return nil, fmt.Errorf("invalid recTime value %q", a[8:])
-				}
-			case bytes.HasPrefix(a, []byte("recReadErr:")):
-				bs = append(bs, a[11:]...)
-				prot.m = [2]int{off, len(bs)}
-				off = len(bs)
-				push()
-			default:
-				push()
-				bs = append(bs, a...)
-				prot.m = [2]int{off, len(bs)}
-				off = len(bs)
+		switch {
+		case bytes.HasPrefix(a, []byte("recTime:")):
+			push(i)
+			if parseErr := frm.T.UnmarshalText(a[8:]); parseErr != nil {
+				return nil, fmt.Errorf("invalid recTime value %q", a[8:])
 			}
-		} else if e.IsEscape() {
-			bs = e.AppendWith(bs, a...)
-		} else {
-			var tmp [4]byte
-			n := utf8.EncodeRune(tmp[:], rune(e))
-			bs = append(bs, tmp[:n]...)
+		case bytes.HasPrefix(a, []byte("recReadErr:")):
+			if start < i {
+				push(i)
+			}
+			frm.E = InputError(a[11:])
+		default:
+			push(i)
+			frm.M = a
 		}
+		start = off
 	}
+	push(len(bs))
 
-	result := make(InputReplay, len(frames))
-	for i, frm := range frames {
-		if frm.e != [2]int{} {
-			prot.E = InputError(bs[frm.e[0]:frm.e[1]])
-		}
-		if frm.b != [2]int{} {
-			frm.B = bs[frm.b[0]:frm.b[1]]
-		}
-		if frm.m != [2]int{} {
-			frm.M = bs[frm.m[0]:frm.m[1]]
-		}
-		result[i] = frm.InputFrame
-	}
 	return result, nil
 }
 
-- 
2.43.0


From a451eee4d9db1163fee0f4bb8ddddcb56fa38388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:28 +0000
Subject: [PATCH 45/85] fix: show the bytes of an input frame

---
 input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/input.go b/input.go
index d558753..cdc9952 100644
--- a/input.go
+++ b/input.go
@@ -463,7 +463,7 @@ func (frm InputFrame) String() string {
 	if len(frm.B) == 0 {
 		_, _ = buf.WriteString(" mark")
 	} else {
-		_, _ = fmt.Fprintf(&buf, " %q", frm.M)
+		_, _ = fmt.Fprintf(&buf, " %q", frm.B)
 	}
 	return buf.String()
 }
-- 
2.43.0


From 070242cd9a6d08252e77f6eefcb4d2919e678aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:06 +0000
Subject: [PATCH 46/85] fix: count a rune event once, even if asked for more
 than once

---
 x/platform/event.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/platform/event.go b/x/platform/event.go
index 5baed5c..cd5cc52 100644
--- a/x/platform/event.go
+++ b/x/platform/event.go
@@ -79,6 +79,7 @@ func (es *Events) CountRune(rs ...rune) (n int) {
 			if es.esc[i] == ansi.Escape(r) {
 				es.Type[i] = EventNone
 				n++
+				break
 			}
 		}
 	}
-- 
2.43.0


From 6c781577fd2223eef40e1e911d0f5a212e8ad109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:07 +0000
Subject: [PATCH 47/85] fix: keep escape arguments in the event queue

---
 x/platform/event.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/platform/event.go b/x/platform/event.go
index cd5cc52..dcb3443 100644
--- a/x/platform/event.go
+++ b/x/platform/event.go
@@ -226,6 +226,6 @@ func (es *Events) add(e ansi.Escape, a []byte) {
 
 	es.Type = append(es.Type, kind)
 	es.esc = append(es.esc, e)
-	es.arg = append(es.arg, a)
+	es.arg = append(es.arg, append([]byte(nil), a...)) // NOTE a is invalidated by further reading
 	es.mouse = append(es.mouse, m)
 }
-- 
2.43.0


From b9542e4ca655a2cf723babfbe72f9a204a4de79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:09 +0000
Subject: [PATCH 48/85] fix: decode what follows a canceled escape into events

---
 x/platform/event.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/platform/event.go b/x/platform/event.go
index dcb3443..ef5d24f 100644
--- a/x/platform/event.go
+++ b/x/platform/event.go
@@ -191,6 +191,9 @@ func (es *Events) DecodeBytes(b []byte) {
 		e, a, n := ansi.DecodeEscape(b)
 		b = b[n:]
 		if e == 0 {
+			if n > 0 {
+				continue // canceled, what remains (if anything) may be another escape
+			}
 			r, n := utf8.DecodeRune(b)
 			b = b[n:]
 			e = ansi.Escape(r)
-- 
2.43.0


From 96c42c1976c2ea592762534b3899b9011aba0819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:30 +0000
Subject: [PATCH 49/85] fix: delete the rune before the edit line cursor, not
 the one at it

---
 x/platform/editline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/platform/editline.go b/x/platform/editline.go
index e87a76c..8954224 100644
--- a/x/platform/editline.go
+++ b/x/platform/editline.go
@@ -179,7 +179,7 @@ func (edl *EditLine) handleControlRune(ctx *Context, eid int) {
 		if edl.Cur > 0 {
 			if edl.Cur < utf8.RuneCount(edl.Buf) {
 				in := edl.Buf
-				for j := 0; j < edl.Cur; j++ {
+				for j := 0; j < edl.Cur-1; j++ {
 					_, n := utf8.DecodeRune(in)
 					in = in[n:]
 				}
-- 
2.43.0


From d087078e4162d49a323e0188432ab3846e4e9d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:32 +0000
Subject: [PATCH 50/85] fix: leave input after the end of an edit line alone

---
 x/platform/editline.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/platform/editline.go b/x/platform/editline.go
index 8954224..000bc7e 100644
--- a/x/platform/editline.go
+++ b/x/platform/editline.go
@@ -57,6 +57,9 @@ func (edl *EditLine) Update(ctx *Context) {
 		edl.handleEvent = defaultBehavior
 	}
 	for eid := range ctx.Input.Type {
+		if edl.State != EditLineReady {
+			break
+		}
 		edl.handleEvent(edl, ctx, eid)
 	}
 
-- 
2.43.0


From 669b1fb8dcd0039a93a6082503e1be621869dd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:34 +0000
Subject: [PATCH 51/85] fix: do not blank a cell on another row when drawing an
 empty edit line

---
 x/platform/editline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/platform/editline.go b/x/platform/editline.go
index 000bc7e..2ee2d4f 100644
--- a/x/platform/editline.go
+++ b/x/platform/editline.go
@@ -115,7 +115,7 @@ func (edl *EditLine) Update(ctx *Context) {
 
 	ctx.Output.UserCursor.Visible = true
 	ctx.Output.UserCursor.Point = ansi.Pt(edl.Box.Min.X+edl.Cur-edl.View, edl.Box.Min.Y)
-	if ctx.Output.Cursor.X == ctx.Output.UserCursor.X {
+	if ctx.Output.Cursor.Point == ctx.Output.UserCursor.Point {
 		ctx.Output.WriteRune(' ')
 	}
 
-- 
2.43.0


From 716e9cd80222da52c5015569d1127769abd0707c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:36 +0000
Subject: [PATCH 52/85] fix: keep the edit line cursor and text within the box

---
 x/platform/editline.go | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/x/platform/editline.go b/x/platform/editline.go
index 2ee2d4f..8cf8f2d 100644
--- a/x/platform/editline.go
+++ b/x/platform/editline.go
@@ -67,8 +67,11 @@ func (edl *EditLine) Update(ctx *Context) {
 		return
 	}
 
-	// TODO clamp to box, showing cursor
 	n := utf8.RuneCount(edl.Buf)
+	w := edl.Box.Dx()
+	if w <= 0 {
+		return // no room to draw in
+	}
 
 	// ensure cursor past left rune offset
 	if edl.Cur < edl.View {
@@ -80,22 +83,15 @@ func (edl *EditLine) Update(ctx *Context) {
 	}
 
 	// ensure cursor within right rune offset
-	hi := edl.View + n
-	if w := edl.Box.Dx(); n > w {
-		hi = edl.View + w
-	}
-	if edl.Cur >= hi {
-		d := edl.Cur - hi
-		if hi < n {
-			d++
+	if reclaim := edl.View + w - n; reclaim > 0 {
+		if edl.View -= reclaim; edl.View < 0 {
+			edl.View = 0
 		}
-		hi += d
-		edl.View += d
-	} else if reclaim := hi - n; reclaim > 0 {
-		edl.View -= reclaim
-		hi -= reclaim
 	}
-	lo := edl.View
+	if over := edl.Cur - (edl.View + w); over >= 0 {
+		edl.View += over + 1
+	}
+	lo, hi := edl.View, edl.View+w
 
 	// TODO ellipses
 
-- 
2.43.0


From 1c04c62dfca782350d5a4e8fd2c9b18182cf7316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:37 +0000
Subject: [PATCH 53/85] fix: keep what ioctl reads and writes in place while
 the stack grows

---
 attr.go       | 7 +++++--
 attr_bsd.go   | 6 +++---
 attr_linux.go | 6 +++---
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/attr.go b/attr.go
index bbf46c0..3c186c2 100644
--- a/attr.go
+++ b/attr.go
@@ -6,6 +6,7 @@ import (
 	"image"
 	"os"
 	"syscall"
+	"unsafe"
 )
 
 var errAttrNoFile = errors.New("anansi.Attr.ioctl: no File set")
@@ -149,11 +150,13 @@ func (at *Attr) Exit(term *Term) error {
 	return nil
 }
 
-func (at Attr) ioctl(request, arg1, arg2, arg3, arg4 uintptr) error {
+func (at Attr) ioctl(request uintptr, arg unsafe.Pointer) error {
 	if at.file == nil {
 		return errAttrNoFile
 	}
-	if _, _, e := syscall.Syscall6(syscall.SYS_IOCTL, at.file.Fd(), request, arg1, arg2, arg3, arg4); e != 0 {
+	// NOTE arg may only become an uintptr within the call expression: before
+	// that, what it points to may still move as the stack grows
+	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, at.file.Fd(), request, uintptr(arg)); e != 0 {
 		return e
 	}
 	return nil
diff --git a/attr_bsd.go b/attr_bsd.go
index affb1f6..96b41f6 100644
--- a/attr_bsd.go
+++ b/attr_bsd.go
@@ -15,7 +15,7 @@ func (at Attr) getSize() (size image.Point, err error) {
 		xpixels uint16
 		ypixels uint16
 	}
-	err = at.ioctl(syscall.TIOCGWINSZ, uintptr(unsafe.Pointer(&dim)), 0, 0, 0)
+	err = at.ioctl(syscall.TIOCGWINSZ, unsafe.Pointer(&dim))
 	if err == nil {
 		size.X = int(dim.cols)
 		size.Y = int(dim.rows)
@@ -24,10 +24,10 @@ func (at Attr) getSize() (size image.Point, err error) {
 }
 
 func (at Attr) getAttr() (attr syscall.Termios, err error) {
-	err = at.ioctl(syscall.TIOCGETA, uintptr(unsafe.Pointer(&attr)), 0, 0, 0)
+	err = at.ioctl(syscall.TIOCGETA, unsafe.Pointer(&attr))
 	return
 }
 
 func (at Attr) setAttr(attr syscall.Termios) error {
-	return at.ioctl(syscall.TIOCSETA, uintptr(unsafe.Pointer(&attr)), 0, 0, 0)
+	return at.ioctl(syscall.TIOCSETA, unsafe.Pointer(&attr))
 }
diff --git a/attr_linux.go b/attr_linux.go
index cb2f442..078a835 100644
--- a/attr_linux.go
+++ b/attr_linux.go
@@ -15,7 +15,7 @@ func (at Attr) getSize() (size image.Point, err error) {
 		xpixels uint16
 		ypixels uint16
 	}
-	err = at.ioctl(syscall.TIOCGWINSZ, uintptr(unsafe.Pointer(&dim)), 0, 0, 0)
+	err = at.ioctl(syscall.TIOCGWINSZ, unsafe.Pointer(&dim))
 	if err == nil {
 		size.X = int(dim.cols)
 		size.Y = int(dim.rows)
@@ -24,10 +24,10 @@ func (at Attr) getSize() (size image.Point, err error) {
 }
 
 func (at Attr) getAttr() (attr syscall.Termios, err error) {
-	err = at.ioctl(syscall.TCGETS, uintptr(unsafe.Pointer(&attr)), 0, 0, 0)
+	err = at.ioctl(syscall.TCGETS, unsafe.Pointer(&attr))
 	return
 }
 
 func (at Attr) setAttr(attr syscall.Termios) error {
-	return at.ioctl(syscall.TCSETS, uintptr(unsafe.Pointer(&attr)), 0, 0, 0)
+	return at.ioctl(syscall.TCSETS, unsafe.Pointer(&attr))
 }
-- 
2.43.0


From b6d53deb6737ee11f4ce9bfe994a809076398494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:48 +0000
Subject: [PATCH 54/85] fix: keep notifying a channel that Input.Notify is
 given again

---
 input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/input.go b/input.go
index cdc9952..92eccfa 100644
--- a/input.go
+++ b/input.go
@@ -98,7 +98,7 @@ func (in *Input) Notify(sigio chan os.Signal) error {
 	if sigio != nil {
 		signal.Notify(in.sigio, syscall.SIGIO)
 	}
-	if prior != nil {
+	if prior != nil && prior != sigio {
 		signal.Stop(prior)
 	}
 	return in.setAsync(sigio != nil)
-- 
2.43.0


From c1779b6b4b31e254e66546c9a058a0e04d0e869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:16 +0000
Subject: [PATCH 55/85] fix: let log lines be written in pieces and read to the
 end

---
 x/platform/log.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/platform/log.go b/x/platform/log.go
index 5aaf33e..7730bc3 100644
--- a/x/platform/log.go
+++ b/x/platform/log.go
@@ -37,7 +37,7 @@ func (logs *LogSink) Contents() ([]byte, []int) {
 func (logs *LogSink) Read(p []byte) (n int, err error) {
 	n, err = logs.buf.Read(p)
 	i := 0
-	for ; i < len(logs.bufEOLs) && n > logs.bufEOLs[i]; i++ {
+	for ; i < len(logs.bufEOLs) && (n > logs.bufEOLs[i] || logs.buf.Len() == 0); i++ {
 	}
 	logs.bufEOLs = logs.bufEOLs[:copy(logs.bufEOLs, logs.bufEOLs[i:])]
 	for i = 0; i < len(logs.bufEOLs); i++ {
@@ -62,7 +62,7 @@ func (logs *LogSink) Write(p []byte) (n int, _ error) {
 
 	b := logs.buf.Bytes()
 	// unwind any implicit EOL-at-EOF
-	if i := len(logs.bufEOLs) - 1; i >= 0 && b[logs.bufEOLs[i]] != '\n' {
+	if i := len(logs.bufEOLs) - 1; i >= 0 && logs.bufEOLs[i] == len(b) {
 		logs.bufEOLs = logs.bufEOLs[:i]
 	}
 	for off := 0; off < len(p); off++ {
-- 
2.43.0


From c65223f2e1505a2850513b417f2bdf629ae9e7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:52 +0000
Subject: [PATCH 56/85] fix: end background workers that are busy when stopped

---
 x/platform/bg.go   | 10 ++++++++++
 x/platform/diag.go | 14 +++++++-------
 x/platform/log.go  | 10 +++++-----
 3 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/x/platform/bg.go b/x/platform/bg.go
index 28f4d68..ec70eb9 100644
--- a/x/platform/bg.go
+++ b/x/platform/bg.go
@@ -82,6 +82,16 @@ func (core *bgWorkerCore) Stop() error {
 	return <-core.e
 }
 
+// reportError reports a worker error, unless one is already pending. Worker
+// goroutines must use this and be passed the channels that Start made: the
+// core's fields may have been cleared by the time a worker looks.
+func reportError(e chan<- error, err error) {
+	select {
+	case e <- err:
+	default:
+	}
+}
+
 func (core *bgWorkerCore) Error() error {
 	select {
 	case err := <-core.e:
diff --git a/x/platform/diag.go b/x/platform/diag.go
index ff16794..96c7e76 100644
--- a/x/platform/diag.go
+++ b/x/platform/diag.go
@@ -356,20 +356,20 @@ func (coll *telemetryCollector) Start() error {
 	if err := coll.bgWorkerCore.Start(); err != nil {
 		return err
 	}
-	go coll.worker()
 	coll.buf.Grow(64 * 1024)
+	go coll.worker(coll.w, coll.e)
 	return nil
 }
 
-func (coll *telemetryCollector) worker() {
-	defer close(coll.e)
+func (coll *telemetryCollector) worker(w <-chan struct{}, e chan<- error) {
+	defer close(e)
 	for open := true; open; {
-		_, open = <-coll.w
-		coll.logData()
+		_, open = <-w
+		coll.logData(e)
 	}
 }
 
-func (coll *telemetryCollector) logData() {
+func (coll *telemetryCollector) logData(e chan<- error) {
 	coll.Lock()
 	defer coll.Unlock()
 
@@ -426,7 +426,7 @@ func (coll *telemetryCollector) logData() {
 		}
 
 		if _, err := coll.buf.WriteTo(coll.f); err != nil {
-			coll.e <- err
+			reportError(e, err)
 		}
 		return
 	}
diff --git a/x/platform/log.go b/x/platform/log.go
index 7730bc3..7186469 100644
--- a/x/platform/log.go
+++ b/x/platform/log.go
@@ -89,7 +89,7 @@ func (logs *LogSink) Start() error {
 	err := logs.bgWorkerCore.Start()
 	if err == nil {
 		logs.direct = false
-		go logs.flushWorker()
+		go logs.flushWorker(logs.w, logs.e)
 	}
 	return err
 }
@@ -105,15 +105,15 @@ func (logs *LogSink) Stop() error {
 	return err
 }
 
-func (logs *LogSink) flushWorker() {
-	defer close(logs.e)
+func (logs *LogSink) flushWorker(w <-chan struct{}, e chan<- error) {
+	defer close(e)
 	for open := true; open; {
-		_, open = <-logs.w
+		_, open = <-w
 		if logs.f == nil {
 			break
 		}
 		if err := logs.flush(); err != nil {
-			logs.e <- err
+			reportError(e, err)
 		}
 	}
 }
-- 
2.43.0


From cca1c070be62b0e6dea219c2b4b6a17b6821d6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:10 +0000
Subject: [PATCH 57/85] fix: guard the log sink's buffers and flush what comes
 in while stopping

---
 x/platform/log.go | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/x/platform/log.go b/x/platform/log.go
index 7186469..e54f716 100644
--- a/x/platform/log.go
+++ b/x/platform/log.go
@@ -16,7 +16,9 @@ func init() {
 // Logs is the LogSink installed as the output for the standard "logs" package.
 var Logs LogSink
 
-// LogSink implements an in-memory log buffer.
+// LogSink implements an in-memory log buffer. Writing, reading, and getting
+// contents may be done by any goroutine; starting, stopping, and changing the
+// file must be done by one at a time.
 type LogSink struct {
 	// TODO cap buffer size
 	buf     bytes.Buffer
@@ -24,17 +26,22 @@ type LogSink struct {
 
 	direct bool
 	bgWorkerCore
-	fbuf bytes.Buffer
+	fbuf bytes.Buffer // deferred bytes to write
+	wbuf bytes.Buffer // deferred bytes being written
 	f    *os.File
 }
 
 // Contents all in-memory buffered bytes and a slice containing the index of
 // all newlines within those bytes.
 func (logs *LogSink) Contents() ([]byte, []int) {
+	logs.Lock()
+	defer logs.Unlock()
 	return logs.buf.Bytes(), logs.bufEOLs
 }
 
 func (logs *LogSink) Read(p []byte) (n int, err error) {
+	logs.Lock()
+	defer logs.Unlock()
 	n, err = logs.buf.Read(p)
 	i := 0
 	for ; i < len(logs.bufEOLs) && (n > logs.bufEOLs[i] || logs.buf.Len() == 0); i++ {
@@ -50,6 +57,8 @@ func (logs *LogSink) Write(p []byte) (n int, _ error) {
 	if len(p) == 0 {
 		return 0, nil
 	}
+	logs.Lock()
+	defer logs.Unlock()
 	if logs.f != nil {
 		if logs.direct {
 			if n, err := logs.f.Write(p); err != nil {
@@ -86,9 +95,12 @@ func (logs *LogSink) Start() error {
 	if logs.f == nil || logs.w != nil {
 		return nil
 	}
+	_ = logs.bgWorkerCore.Stop() // wait for any prior failed worker to end
 	err := logs.bgWorkerCore.Start()
 	if err == nil {
+		logs.Lock()
 		logs.direct = false
+		logs.Unlock()
 		go logs.flushWorker(logs.w, logs.e)
 	}
 	return err
@@ -97,10 +109,15 @@ func (logs *LogSink) Start() error {
 // Stop the any background file-writing goroutine, transitioning back to direct
 // file writes.
 func (logs *LogSink) Stop() error {
-	if logs.f == nil || logs.w == nil {
+	if logs.f == nil {
 		return nil
 	}
 	err := logs.bgWorkerCore.Stop()
+	logs.Lock()
+	defer logs.Unlock()
+	// whatever came in after the worker's last flush
+	logs.take()
+	err = errOr(err, logs.flush(logs.f))
 	logs.direct = true
 	return err
 }
@@ -109,17 +126,29 @@ func (logs *LogSink) flushWorker(w <-chan struct{}, e chan<- error) {
 	defer close(e)
 	for open := true; open; {
 		_, open = <-w
-		if logs.f == nil {
+		logs.Lock()
+		f := logs.f
+		logs.take()
+		logs.Unlock()
+		if f == nil {
 			break
 		}
-		if err := logs.flush(); err != nil {
+		if err := logs.flush(f); err != nil {
 			reportError(e, err)
 		}
 	}
 }
 
-func (logs *LogSink) flush() error {
-	_, err := logs.fbuf.WriteTo(logs.f)
+// take moves deferred bytes over into the write buffer; must be called with
+// lock held.
+func (logs *LogSink) take() {
+	_, _ = logs.fbuf.WriteTo(&logs.wbuf)
+}
+
+// flush the write buffer; must only be called by the flush worker, or when
+// there is none.
+func (logs *LogSink) flush(f *os.File) error {
+	_, err := logs.wbuf.WriteTo(f)
 	return err
 }
 
-- 
2.43.0


From 5ff1c4d7e1755f65cd6d709420305587c8619028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:32 +0000
Subject: [PATCH 58/85] fix: flush the log file before closing it

---
 x/platform/log.go | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/x/platform/log.go b/x/platform/log.go
index e54f716..55d19ce 100644
--- a/x/platform/log.go
+++ b/x/platform/log.go
@@ -158,20 +158,26 @@ func (logs *LogSink) SetFile(f *os.File) error {
 	if logs.f == f {
 		return nil
 	}
-	if logs.f != nil {
-		if err := logs.f.Close(); err != nil {
-			return fmt.Errorf("failed to close log file %q: %v", logs.f.Name(), err)
-		}
-	}
-	if f != nil {
+	if logs.f != nil && f == nil {
+		log.Printf("disabling log file output")
+	} else if f != nil {
 		log.Printf("logging to %q", f.Name())
-		logs.f = f
-		return logs.Start()
 	}
-	if logs.f != nil {
-		log.Printf("disabling log file output")
-		logs.f = nil
-		return logs.Stop()
+
+	// stop before closing, so that everything written so far gets flushed; any
+	// writes after that go directly to whichever file is set
+	err := logs.Stop()
+	old := logs.f
+	logs.Lock()
+	logs.f = f
+	logs.Unlock()
+	if old != nil {
+		if cerr := old.Close(); cerr != nil && err == nil {
+			err = fmt.Errorf("failed to close log file %q: %v", old.Name(), cerr)
+		}
+	}
+	if err != nil {
+		return err
 	}
-	return nil
+	return logs.Start()
 }
-- 
2.43.0


From 3817e25c514c037907c255875b245f2213104f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:36 +0000
Subject: [PATCH 59/85] fix: wait for failing background workers to end when
 stopping

---
 x/platform/bg.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/x/platform/bg.go b/x/platform/bg.go
index ec70eb9..cc05fc5 100644
--- a/x/platform/bg.go
+++ b/x/platform/bg.go
@@ -79,7 +79,11 @@ func (core *bgWorkerCore) Stop() error {
 	if core.e == nil {
 		return nil
 	}
-	return <-core.e
+	// wait for the worker to end, not just for its first error
+	err := <-core.e
+	for range core.e {
+	}
+	return err
 }
 
 // reportError reports a worker error, unless one is already pending. Worker
-- 
2.43.0


From c13581000cfa94ad46d2e1365973a9185fd4e76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 60/85] fix: show the log view on small screens and with few or
 fewer lines

---
 x/platform/hud.go | 76 ++++++++++++++++++++++++-----------------------
 1 file changed, 39 insertions(+), 37 deletions(-)

diff --git a/x/platform/hud.go b/x/platform/hud.go
index 3fe3570..c8d8963 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -2,7 +2,6 @@ package platform
 
 import (
 	"fmt"
-	"image"
 	"log"
 	"os"
 	"runtime/pprof"
@@ -604,71 +603,71 @@ func NewLogView(logs *LogSink) *LogView {
 // Update the log view, processing input, and drawing.
 func (lv *LogView) Update(ctx *Context) error {
 	outBounds := ctx.Output.Bounds()
+	content, eolOffsets := lv.logs.Contents()
+	lines := len(eolOffsets)
 
-	// view calc input handling
-	viewLines := lv.ViewLines
-	if viewLines == 0 {
-		viewLines = 10
-		lv.ViewLines = viewLines
+	if lv.ViewLines == 0 {
+		lv.ViewLines = 10
 	}
-	height := viewLines
-
-	topLeft := ansi.Pt(1, outBounds.Max.Y-1)
-	if lv.Expanded {
-		height++
-		topLeft.Y -= height - 1
-	} else {
-		height = 1
+	viewLines, height := lv.viewSize(lines, outBounds.Dy())
+	if height > outBounds.Dy() {
+		return nil
 	}
+	topLeft := ansi.Pt(1, outBounds.Max.Y-height)
 
 	// TODO drag resizing
 	if n := ctx.Input.CountPressesIn(ansi.Rect(topLeft.X, topLeft.Y, outBounds.Max.X, topLeft.Y+1), 1); n%2 == 1 {
-		topLeft.Y = outBounds.Max.Y - 1
-		height = 1
-		if lv.Expanded = !lv.Expanded; lv.Expanded {
-			height += viewLines
-		}
-		topLeft.Y -= height - 1
+		lv.Expanded = !lv.Expanded
+		viewLines, height = lv.viewSize(lines, outBounds.Dy())
+		topLeft.Y = outBounds.Max.Y - height
 	}
-
-	if !lv.Expanded {
-		viewLines = 1
-	}
-
-	bounds := ansi.Rectangle{Min: topLeft, Max: outBounds.Max}
-	bounds.Max = bounds.Max.Add(image.Pt(0, 1)) // TODO ideally utilize the final column too
-
-	content, eolOffsets := lv.logs.Contents()
-	lines := len(eolOffsets)
 	if lines <= 0 {
 		return nil
 	}
-	if diff := bounds.Dy() - lines + 1; diff > 0 {
-		bounds.Min.Y += diff
-	}
+
+	bounds := ansi.Rectangle{Min: topLeft, Max: outBounds.Max}
 	if delta := ctx.Input.TotalScrollIn(bounds); delta != 0 {
 		lv.scrollBy(lines, delta)
 	}
 
 	// render
 	start, end := lv.viewWindow(lines, viewLines)
-	ctx.Output.To(bounds.Min)
+	at, w := bounds.Min, bounds.Dx()
 	if height > 1 {
-		fmt.Fprintf(ctx.Output, "Logs (%v-%v/%v):", start, end, lines)
+		ctx.Output.To(at)
+		writeTruncated(ctx, w, []byte(fmt.Sprintf("Logs (%v-%v/%v):", start, end, lines)))
+		at.Y++
 	}
 	off := 0
 	if start > 1 {
 		off = eolOffsets[start-2] + 1
 	}
 	for _, eol := range eolOffsets[start-1 : end] {
-		ctx.Output.To(ansi.Pt(1, ctx.Output.Cursor.Y+1))
-		w := bounds.Max.X - ctx.Output.Cursor.X
+		ctx.Output.To(at)
+		at.Y++
 		writeTruncated(ctx, w, content[off:eol])
 		off = eol + 1
 	}
 	return nil
 }
 
+// viewSize returns the number of log lines to show and the height needed to do
+// so: a single line when not expanded; otherwise up to ViewLines, as far as
+// there are such lines and room for them, under a title line.
+func (lv *LogView) viewSize(lines, room int) (viewLines, height int) {
+	viewLines = lv.ViewLines
+	if viewLines > lines {
+		viewLines = lines
+	}
+	if viewLines > room-1 {
+		viewLines = room - 1
+	}
+	if !lv.Expanded || viewLines < 1 {
+		return 1, 1
+	}
+	return viewLines, viewLines + 1
+}
+
 func (lv *LogView) scrollBy(lines, delta int) {
 	start := lv.Line
 	if start == 0 {
@@ -690,6 +689,9 @@ func (lv *LogView) viewWindow(lines, viewLines int) (int, int) {
 		}
 		return 1, lines
 	}
+	if lv.Line > lines {
+		lv.Line = lines
+	}
 	start, end := lv.Line, lv.Line
 	for end < lines && end-start+1 < viewLines {
 		end++
-- 
2.43.0


From 216be446a2a8117a4fb6df0f7ea55c29affb0c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 61/85] fix: give each frame just its own input events, and all
 of them

---
 x/platform/platform.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index d8e1cac..9206325 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -195,6 +195,9 @@ func (p *Platform) Run(client Client) (err error) {
 
 		ctx := p.Context()
 
+		// whatever is left from the prior frame was available to it
+		p.events.Clear()
+
 		// poll for signals
 		for polling := true; polling; {
 			select {
@@ -203,7 +206,6 @@ func (p *Platform) Run(client Client) (err error) {
 			case <-p.resize.C:
 				ctx.Err = errOr(ctx.Err, p.screen.SizeToTerm(p.term))
 			case <-p.sigio.C:
-				p.events.Clear()
 				n, err := p.term.ReadAny()
 				if n > 0 {
 					p.events.DecodeInput(&p.term.Input)
-- 
2.43.0


From 22b5ca4d0016d311ae6268530ca741c23f32c28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 62/85] fix: leave the input flags as they were when the
 platform ends, and let it run again

---
 x/platform/platform.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index 9206325..d4bddb1 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -41,17 +41,13 @@ func New(in, out *os.File, opts ...Option) (*Platform, error) {
 	p.term = anansi.NewTerm(in, out,
 		&p.stop,
 		&p.resize,
+		&p.sigio,
 		&p.screen,
 		&p.Config,
 		&p.ticker,
 		&p.bg,
 	)
 
-	p.sigio.C = make(chan os.Signal, 1)
-	if err := p.term.Notify(p.sigio.C); err != nil {
-		return nil, err
-	}
-
 	_ = p.term.SetRaw(true)
 	p.term.AddMode(
 		ansi.ModeAlternateScreen,
@@ -103,7 +99,7 @@ type Platform struct {
 	term   *anansi.Term
 	stop   anansi.Signal
 	resize anansi.Signal
-	sigio  anansi.Signal
+	sigio  anansi.InputSignal
 	buf    anansi.Buffer
 	events Events
 	ticker Ticker
-- 
2.43.0


From c90c01dd2472d1c87268a24535a38da980dad920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:23 +0000
Subject: [PATCH 63/85] fix: record changes of size, not just the first one

---
 x/platform/platform.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index d4bddb1..708d7fa 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -200,7 +200,7 @@ func (p *Platform) Run(client Client) (err error) {
 			case sig := <-p.stop.C:
 				ctx.Err = errOr(ctx.Err, anansi.SigErr(sig))
 			case <-p.resize.C:
-				ctx.Err = errOr(ctx.Err, p.screen.SizeToTerm(p.term))
+				ctx.Err = errOr(ctx.Err, p.sizeToTerm())
 			case <-p.sigio.C:
 				n, err := p.term.ReadAny()
 				if n > 0 {
@@ -229,6 +229,17 @@ func (p *Platform) Run(client Client) (err error) {
 	return nil
 }
 
+// sizeToTerm resizes the screen to the terminal, noting any change of size in
+// any recording.
+func (p *Platform) sizeToTerm() error {
+	prior := p.screen.Bounds().Size()
+	err := p.screen.SizeToTerm(p.term)
+	if err == nil && p.screen.Bounds().Size() != prior {
+		err = p.recordSize()
+	}
+	return err
+}
+
 // Context returns a new Context bound to the platform.
 func (p *Platform) Context() Context {
 	return Context{
@@ -272,7 +283,7 @@ func (ctx *Context) Update() {
 	}
 
 	if ctx.Redraw {
-		ctx.Err = errOr(ctx.Err, ctx.Output.SizeToTerm(ctx.term))
+		ctx.Err = errOr(ctx.Err, ctx.sizeToTerm())
 	}
 
 	// recording / replaying toggle on Ctrl-R
-- 
2.43.0


From 0bba93072cf353f4bb81756b7856d4401b77e7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 64/85] fix: replay runes and sequences that were read in
 pieces

---
 x/platform/event.go    | 25 +++++++++++++++++++++++++
 x/platform/platform.go |  1 +
 x/platform/replay.go   |  3 ++-
 3 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/x/platform/event.go b/x/platform/event.go
index ef5d24f..66ef2a4 100644
--- a/x/platform/event.go
+++ b/x/platform/event.go
@@ -202,6 +202,31 @@ func (es *Events) DecodeBytes(b []byte) {
 	}
 }
 
+// decodeSome parses like DecodeInput would from the given byte slice, returning
+// any tail that needs more bytes after it.
+func (es *Events) decodeSome(b []byte) []byte {
+	for len(b) > 0 {
+		e, a, n := ansi.DecodeEscape(b)
+		b = b[n:]
+		if e == 0 {
+			if n > 0 {
+				continue // canceled, what remains (if anything) may be another escape
+			}
+			r, n := utf8.DecodeRune(b)
+			switch {
+			case !utf8.FullRune(b):
+				return b
+			case r == 0x90, r == 0x9B, r == 0x9D, r == 0x9E, r == 0x9F: // DCS, CSI, OSC, PM, APC
+				return b
+			}
+			b = b[n:]
+			e = ansi.Escape(r)
+		}
+		es.add(e, a)
+	}
+	return nil
+}
+
 // DecodeInput decodes all input currently read into the given input.
 func (es *Events) DecodeInput(in *anansi.Input) {
 	for e, a, ok := in.Decode(); ok; e, a, ok = in.Decode() {
diff --git a/x/platform/platform.go b/x/platform/platform.go
index 708d7fa..75f9617 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -176,6 +176,7 @@ func (p *Platform) Run(client Client) (err error) {
 			return err
 		}
 		p.replay.cur = p.replay.input
+		p.replay.rest = nil
 	}
 
 	log.Printf("running %T", p.client)
diff --git a/x/platform/replay.go b/x/platform/replay.go
index 95a0854..252d249 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -26,6 +26,7 @@ type replay struct {
 	input  anansi.InputReplay
 	cur    anansi.InputReplay
 	frame  anansi.InputFrame
+	rest   []byte // of an escape sequence or rune cut by the end of a frame
 	pause  time.Time
 	size   image.Point
 	mouse  struct {
@@ -92,7 +93,7 @@ func (rep *replay) update(ctx *Context) {
 
 		// load replay frame input
 		ctx.events.Clear()
-		ctx.events.DecodeBytes(rep.frame.B)
+		rep.rest = append([]byte(nil), ctx.events.decodeSome(append(rep.rest, rep.frame.B...))...)
 
 		// update mouse cursor state
 		if m, have := ctx.events.LastMouse(false); have {
-- 
2.43.0


From 01f422a4b890286f4872137ff12b8d9ba768b92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 65/85] fix: keep the platform's own keys from a replayed
 client, and redraw when a replay resizes or stops

---
 x/platform/replay.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/x/platform/replay.go b/x/platform/replay.go
index 252d249..1772f50 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -45,6 +45,7 @@ func (rep *replay) update(ctx *Context) {
 	if ctx.Input.HasTerminal('\x03') {
 		log.Printf("stopping replay")
 		ctx.Platform.replay = nil
+		ctx.Redraw = true // at terminal size
 		return
 	}
 
@@ -95,6 +96,10 @@ func (rep *replay) update(ctx *Context) {
 		ctx.events.Clear()
 		rep.rest = append([]byte(nil), ctx.events.decodeSome(append(rep.rest, rep.frame.B...))...)
 
+		// strike out what the platform handled while recording, rather than the
+		// client: redraw (the size is recorded), and the end of recording
+		_ = ctx.Input.CountRune('\x0c', '\x12')
+
 		// update mouse cursor state
 		if m, have := ctx.events.LastMouse(false); have {
 			rep.mouse.Mouse = m
@@ -111,8 +116,10 @@ func (rep *replay) update(ctx *Context) {
 
 func (rep *replay) runClient(ctx *Context) error {
 	ctx.Time = rep.frame.T
-	ctx.Output.Resize(rep.size) // TODO better afford size difference
-	err := rep.frame.E          // TODO wrap so that it can be non-fatal to looper?
+	if ctx.Output.Resize(rep.size) { // TODO better afford size difference
+		ctx.Redraw = true
+	}
+	err := rep.frame.E // TODO wrap so that it can be non-fatal to looper?
 	return errOr(err, ctx.runClient())
 }
 
-- 
2.43.0


From bba7c0d3bbcea477c681feefc827d9bbe0a731c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 66/85] fix: never let the time go back when the platform runs
 again

---
 x/platform/platform.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index 75f9617..d231c3a 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -184,7 +184,7 @@ func (p *Platform) Run(client Client) (err error) {
 		log.Printf("run done: %v", err)
 	}()
 
-	for p.Time = time.Now(); !p.Time.IsZero(); p.Time = p.ticker.Wait() {
+	for p.Time = time.Now(); !p.Time.IsZero(); p.Time = p.nextTime() {
 		// update performance data
 		if err := p.Telemetry.update(p); err != nil {
 			return err
@@ -230,6 +230,16 @@ func (p *Platform) Run(client Client) (err error) {
 	return nil
 }
 
+// nextTime waits for the next frame time, passing over any tick that was already
+// due when the prior frame started.
+func (p *Platform) nextTime() time.Time {
+	for {
+		if t := p.ticker.Wait(); t.IsZero() || t.After(p.Time) {
+			return t
+		}
+	}
+}
+
 // sizeToTerm resizes the screen to the terminal, noting any change of size in
 // any recording.
 func (p *Platform) sizeToTerm() error {
-- 
2.43.0


From 379f6b66b38b53bc5101402aeb108b99a88d306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 67/85] fix: keep the HUD within the screen

On a screen too small for all of it, the HUD paniced on invalid points, or
scrolled the screen by writing up to the end of the last row.
---
 x/platform/hud.go | 60 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 10 deletions(-)

diff --git a/x/platform/hud.go b/x/platform/hud.go
index c8d8963..b2720e1 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -83,7 +83,7 @@ func (hud *HUD) Update(ctx *Context, client Client) error {
 	// but still have full (mouse) input priority.
 	err := client.Update(ctx)
 
-	if !hud.Visible {
+	if !hud.Visible || outBounds.Empty() {
 		hud.Active = 0
 		return err
 	}
@@ -175,9 +175,15 @@ func (hud *HUD) updateProfilers(p *Platform) {
 	}
 }
 
+// calcKVBox returns boxes for a key and its value within the current row; both
+// are empty when there's no room for them. The last row isn't used, since
+// writing up to its end would scroll the screen.
 func (hud *HUD) calcKVBox(ctx *Context, key string) (kbox, vbox ansi.Rectangle) {
 	outBounds := ctx.Output.Bounds()
 	n := utf8.RuneCountInString(key)
+	if outBounds.Dx() < n+1+hud.detailWidth || ctx.Output.Cursor.Y >= outBounds.Max.Y-1 {
+		return kbox, vbox
+	}
 	kbox.Min = ansi.Pt(outBounds.Max.X-hud.detailWidth-n-1, ctx.Output.Cursor.Y)
 	vbox.Min = ansi.Pt(outBounds.Max.X-hud.detailWidth, ctx.Output.Cursor.Y)
 	kbox.Max = ansi.Pt(kbox.Min.X+n, ctx.Output.Cursor.Y+1)
@@ -187,6 +193,9 @@ func (hud *HUD) calcKVBox(ctx *Context, key string) (kbox, vbox ansi.Rectangle)
 
 func (hud *HUD) detailHeader(ctx *Context, title string) (box ansi.Rectangle) {
 	kbox, vbox := hud.calcKVBox(ctx, title)
+	if vbox.Empty() {
+		return box
+	}
 	box.Min = kbox.Min
 	box.Max = vbox.Max
 	ctx.Output.To(kbox.Min)
@@ -200,28 +209,37 @@ func (hud *HUD) detailHeader(ctx *Context, title string) (box ansi.Rectangle) {
 
 func (hud *HUD) detailRow(ctx *Context, key string, val string) (box ansi.Rectangle) {
 	kbox, vbox := hud.calcKVBox(ctx, key)
+	if vbox.Empty() {
+		return box
+	}
 	box.Min = kbox.Min
 	box.Max = vbox.Max
-	n := utf8.RuneCountInString(key) + 2 + hud.detailWidth
-	ctx.Output.To(ansi.Pt(ctx.Output.Cursor.X-n+1, ctx.Output.Cursor.Y))
+	ctx.Output.To(kbox.Min)
 	ctx.Output.WriteString(key)
 	ctx.Output.WriteRune(' ')
 	for i := utf8.RuneCountInString(val); i < hud.detailWidth; i++ {
 		ctx.Output.WriteRune(' ')
 	}
-	ctx.Output.WriteString(val)
+	writeTruncated(ctx, hud.detailWidth, []byte(val))
 	ctx.Output.To(box.Max)
 	return box
 }
 
+// rightSegment writes s leftwards of the cursor, and moves there; it does
+// neither and returns an empty box if there's no room for it.
 func (hud *HUD) rightSegment(ctx *Context, s string) (box ansi.Rectangle) {
 	outBounds := ctx.Output.Bounds()
-	box.Min = ctx.Output.Cursor.Point
-	if box.Min.X+1 < outBounds.Max.X {
-		box.Min.X--
+	min := ctx.Output.Cursor.Point
+	if min.X+1 < outBounds.Max.X {
+		min.X--
+	}
+	n := utf8.RuneCountInString(s)
+	if min.X-n < outBounds.Min.X {
+		return box
 	}
+	box.Min = min
 	box.Max = ansi.Pt(box.Min.X, box.Min.Y+1)
-	box.Min.X -= utf8.RuneCountInString(s)
+	box.Min.X -= n
 	ctx.Output.To(box.Min)
 	ctx.Output.WriteString(s)
 	ctx.Output.To(box.Min)
@@ -237,6 +255,9 @@ func (hud *HUD) drawTimingDetail(ctx *Context) (err error) {
 
 	// Play/Pause control
 	kbox, box := hud.calcKVBox(ctx, "paused")
+	if box.Empty() {
+		return nil
+	}
 	ctx.Output.To(kbox.Min)
 	ctx.Output.WriteString("paused ")
 	ctx.Output.To(box.Min)
@@ -252,6 +273,9 @@ func (hud *HUD) drawTimingDetail(ctx *Context) (err error) {
 
 	// Record/Replay control
 	kbox, box = hud.calcKVBox(ctx, "replaying") // NOTE same size as "recording"
+	if box.Empty() {
+		return nil
+	}
 	ctx.Output.To(kbox.Min)
 
 	if ctx.replay != nil {
@@ -301,12 +325,15 @@ func (hud *HUD) drawProfDetail(ctx *Context) {
 func (hud *HUD) drawPProfSelector(ctx *Context) {
 	outBounds := ctx.Output.Bounds()
 
+	id := hud.nextID()
 	kbox, box := hud.calcKVBox(ctx, "PProf")
+	if box.Empty() {
+		return
+	}
 	ctx.Output.To(kbox.Min)
 	ctx.Output.WriteString("PProf ")
 	ctx.Output.To(box.Min)
 
-	id := hud.nextID()
 	selecting := false
 	if hud.Active != id {
 		if n := ctx.Input.CountPressesIn(box, 1); n%2 == 1 {
@@ -341,11 +368,14 @@ func (hud *HUD) drawPProfSelector(ctx *Context) {
 					ansi.Rect(box.Min.X, ctx.Output.Cursor.Y, box.Max.X, ctx.Output.Cursor.Y+1),
 					hud.ButtonAttr, hud.SelectAttr,
 					func(ctx *Context, _ bool) {
-						ctx.Output.WriteString(prof.Name())
+						writeTruncated(ctx, box.Dx()-1, []byte(prof.Name()))
 						ctx.Output.WriteString(strings.Repeat(" ", outBounds.Max.X-1-ctx.Output.Cursor.X))
 					})
 				ctx.Output.To(ansi.Pt(box.Min.X, ctx.Output.Cursor.Y+1))
 				box.Max.Y = ctx.Output.Cursor.Y
+				if box.Max.Y >= outBounds.Max.Y-1 {
+					break // no room for more
+				}
 			}
 		})
 
@@ -480,6 +510,9 @@ type fileable interface {
 
 func (hud *HUD) drawToggleRow(ctx *Context, name string, flag *bool) (kbox, box ansi.Rectangle) {
 	kbox, box = hud.calcKVBox(ctx, name)
+	if box.Empty() {
+		return kbox, box
+	}
 	if n := ctx.Input.CountPressesIn(box, 1); n%2 == 1 {
 		*flag = !*flag
 	}
@@ -497,6 +530,10 @@ func (hud *HUD) drawToggleRow(ctx *Context, name string, flag *bool) (kbox, box
 func (hud *HUD) drawFileEditRow(ctx *Context, fil fileable, label string) (kbox, box ansi.Rectangle) {
 	name := fil.name()
 	kbox, box = hud.calcKVBox(ctx, name)
+	if box.Empty() {
+		hud.nextID() // keep those of what follows
+		return kbox, box
+	}
 	ctx.Output.To(kbox.Min)
 	ctx.Output.WriteString(name)
 	ctx.Output.To(box.Min)
@@ -710,6 +747,9 @@ type hudProfileControl struct {
 
 func (hud hudProfileControl) update(ctx *Context) {
 	kbox, box := hud.drawFileEditRow(ctx, hud.prof, "")
+	if box.Empty() {
+		return
+	}
 	hud.drawSpinner(ctx, ansi.Rect(kbox.Max.X, kbox.Min.Y, box.Min.X, kbox.Max.Y))
 	ctx.Output.To(box.Max)
 }
-- 
2.43.0


From 83fd60ba062e545f6411b93dd07b7e1d8155d92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 68/85] fix: enable timing and its logging when asked to

The timing.log flag and the HUD's Log Timing toggle set Config.LogTiming, but
only Telemetry.LogTiming has any effect; the timing flag was not used at all.
---
 x/platform/config.go | 6 +++++-
 x/platform/diag.go   | 2 +-
 x/platform/hud.go    | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/x/platform/config.go b/x/platform/config.go
index d715f5b..2a248cd 100644
--- a/x/platform/config.go
+++ b/x/platform/config.go
@@ -74,6 +74,9 @@ func (cfg *Config) Merge(other Config) {
 	if other.MemProfileName != "" && cfg.MemProfileName == "" {
 		cfg.MemProfileName = other.MemProfileName
 	}
+	if other.StartTiming {
+		cfg.StartTiming = true
+	}
 	if other.LogTiming {
 		cfg.LogTiming = true
 	}
@@ -83,7 +86,8 @@ func (cfg *Config) Merge(other Config) {
 }
 
 func (cfg *Config) setup(p *Platform) error {
-	p.SetTimingEnabled(cfg.LogTiming)
+	p.Telemetry.LogTiming = cfg.LogTiming
+	p.SetTimingEnabled(cfg.StartTiming || cfg.LogTiming)
 
 	if cfg.TelemetryLogFileName != "" {
 		if err := p.Telemetry.coll.create(cfg.TelemetryLogFileName); err != nil {
diff --git a/x/platform/diag.go b/x/platform/diag.go
index 96c7e76..696bf6d 100644
--- a/x/platform/diag.go
+++ b/x/platform/diag.go
@@ -170,7 +170,7 @@ func (tel *Telemetry) FPS() float64 {
 func (p *Platform) SetTimingEnabled(enabled bool) {
 	if p.TimingEnabled != enabled {
 		p.TimingEnabled = enabled
-		if !p.TimingEnabled && !p.LogTiming {
+		if !p.TimingEnabled && !p.Telemetry.LogTiming {
 			p.Timing.reset()
 		}
 	}
diff --git a/x/platform/hud.go b/x/platform/hud.go
index b2720e1..2bcb1b6 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -415,7 +415,7 @@ func (hud *HUD) drawFPSDetail(ctx *Context) {
 func (hud *HUD) drawTelemetry(ctx *Context) {
 	hud.detailHeader(ctx, "# Telemetry:")
 	hud.drawFileEditRow(ctx, &ctx.Telemetry.coll, "Go Log")
-	hud.drawToggleRow(ctx, "Log Timing", &ctx.LogTiming)
+	hud.drawToggleRow(ctx, "Log Timing", &ctx.Telemetry.LogTiming)
 	hud.drawToggleRow(ctx, "Log Stalls", &ctx.Telemetry.LogStallData)
 }
 
-- 
2.43.0


From 78ca18908f916823c0ce09fe60a2eb83f79d9d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 69/85] fix: count and log each output stall once

Stalls were told and logged again every frame until a timing round consumed
them, and the telemetry worker was handed the output's own buffer, which the
next stall writes into.
---
 x/platform/diag.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/x/platform/diag.go b/x/platform/diag.go
index 696bf6d..9d03441 100644
--- a/x/platform/diag.go
+++ b/x/platform/diag.go
@@ -214,13 +214,14 @@ func (tel *Telemetry) update(p *Platform) error {
 	tel.FPSEstimate.update(p)
 	if tel.TimingEnabled || tel.LogTiming {
 		timingFrame := tel.Timing.update(p)
-		consumeStalls := timingFrame
 		if tel.LogTiming && timingFrame {
 			tel.coll.timing = tel.Timing.ds
 		}
-		if stalls := p.term.Stalls(consumeStalls); stalls != nil {
+		// only process stalls that won't be returned again next frame
+		if stalls := p.term.Stalls(timingFrame); stalls != nil && (timingFrame || len(stalls) == cap(stalls)) {
 			if tel.LogStallData {
-				tel.coll.stalls = stalls
+				// the output reuses its buffer, while the worker logs later
+				tel.coll.stalls = append(tel.coll.stalls, stalls...)
 			}
 			if tel.StallDataEnabled {
 				tel.Stalls.update(p, stalls)
-- 
2.43.0


From 757fff2ffdad76e12cd8200dab49f78cc33f05da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 70/85] fix: keep at least one frame per timing round

A frame rate below 4 made for empty timing buffers, and so for a panic once
timing got enabled.
---
 x/platform/options.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/platform/options.go b/x/platform/options.go
index e0794ce..98caa8b 100644
--- a/x/platform/options.go
+++ b/x/platform/options.go
@@ -17,6 +17,9 @@ func (f optionFunc) apply(p *Platform) error { return f(p) }
 func FrameRate(fps int) Option {
 	return optionFunc(func(p *Platform) error {
 		timingPeriod := fps / 4
+		if timingPeriod < 1 {
+			timingPeriod = 1
+		}
 		p.ticker.d = time.Second / time.Duration(fps)
 		p.FPSEstimate.data = make([]float64, fps)
 		p.Timing.ts = make([]time.Time, timingPeriod)
-- 
2.43.0


From 28dadf9779db1456bd08f7f2efd5ed5e8ad35ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:29 +0000
Subject: [PATCH 71/85] fix: load builtin terminfo if reading the database
 fails

As documented: an unreadable entry made Load fail, hid any later ones, and an
empty name panicked.
---
 terminfo/terminfo.go | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/terminfo/terminfo.go b/terminfo/terminfo.go
index df62ccc..9124707 100644
--- a/terminfo/terminfo.go
+++ b/terminfo/terminfo.go
@@ -139,7 +139,25 @@ func Load(term string) (*Terminfo, error) {
 	if ti, def := cache[term]; def {
 		return ti, nil
 	}
-	paths := SearchPath()
+	var rerr error
+	if term != "" {
+		ti, err := loadFromPaths(term, SearchPath())
+		if ti != nil {
+			cache[term] = ti
+			return ti, nil
+		}
+		rerr = err
+	}
+	ti, err := GetBuiltin(term)
+	if err != nil && rerr != nil {
+		err = rerr
+	}
+	return ti, err
+}
+
+// loadFromPaths returns the first readable entry, or any first error if there
+// are only unreadable ones.
+func loadFromPaths(term string, paths []string) (_ *Terminfo, rerr error) {
 	for _, path := range paths {
 		for _, fp := range []string{
 			filepath.Join(path, term[0:1], term),                            // the typical *nix path
@@ -147,20 +165,20 @@ func Load(term string) (*Terminfo, error) {
 		} {
 			if f, err := os.Open(fp); err == nil {
 				var ti Terminfo
-				if err == nil {
-					err = ti.ReadFrom(f)
-					if cerr := f.Close(); err == nil {
-						err = cerr
-					}
+				err = ti.ReadFrom(f)
+				if cerr := f.Close(); err == nil {
+					err = cerr
 				}
 				if err == nil {
-					cache[term] = &ti
+					return &ti, nil
+				}
+				if rerr == nil {
+					rerr = err
 				}
-				return &ti, err
 			}
 		}
 	}
-	return GetBuiltin(term)
+	return nil, rerr
 }
 
 // FuncMap builds and returns a string-string map of the control sequence
-- 
2.43.0


From a5fb2bb99c26976a729d31e0bfc08704ca2bd7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:29 +0000
Subject: [PATCH 72/85] fix: read absent terminfo strings as empty

Absent, cancelled and trailing strings were read from wherever their index led
within the file, section sizes could overflow, and a string at the end of the
file could be missed.
---
 terminfo/read.go | 64 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 22 deletions(-)

diff --git a/terminfo/read.go b/terminfo/read.go
index 0b20719..abbd93b 100644
--- a/terminfo/read.go
+++ b/terminfo/read.go
@@ -84,16 +84,24 @@ func (ti *Terminfo) ReadFrom(rs io.ReadSeeker) error {
 		return fmt.Errorf("invalid magic number %07o", header[0])
 	}
 
-	if (header[1]+header[2])%2 != 0 {
+	for _, n := range header[1:] {
+		if n < 0 {
+			return fmt.Errorf("invalid section size %v", n)
+		}
+	}
+
+	dataOffset := headerLength + int64(header[1]) + int64(header[2])
+	if dataOffset%2 != 0 {
 		// old quirk to align everything on word boundaries
-		header[2]++
+		dataOffset++
 	}
 
-	strOffset := headerLength + uint16(header[1]+header[2]+2*header[3])
-	tableOffset := strOffset + 2*uint16(header[4])
+	tab := stringTable{rs: rs, n: int(header[4]), size: int(header[5])}
+	tab.indexOffset = dataOffset + 2*int64(header[3])
+	tab.offset = tab.indexOffset + 2*int64(header[4])
 
 	for i := 1; i < len(tiKeys); i++ {
-		key, err := readTableString(rs, strOffset+2*tiKeys[i], tableOffset)
+		key, err := tab.read(int(tiKeys[i]))
 		if err != nil {
 			return err
 		}
@@ -101,7 +109,7 @@ func (ti *Terminfo) ReadFrom(rs io.ReadSeeker) error {
 	}
 
 	for i := 1; i < len(tiFuncs); i++ {
-		fnc, err := readTableString(rs, strOffset+2*tiFuncs[i], tableOffset)
+		fnc, err := tab.read(int(tiFuncs[i]))
 		if err != nil {
 			return err
 		}
@@ -114,25 +122,35 @@ func (ti *Terminfo) ReadFrom(rs io.ReadSeeker) error {
 	return nil
 }
 
-func readTableString(rs io.ReadSeeker, off, table uint16) (s string, err error) {
-	index, err := readUint16(rs, off)
-	if err != nil {
+type stringTable struct {
+	rs          io.ReadSeeker
+	n, size     int
+	indexOffset int64
+	offset      int64
+}
+
+// read the i-th string, which is empty if it isn't defined.
+func (tab stringTable) read(i int) (string, error) {
+	if i >= tab.n {
+		return "", nil // trailing undefined strings aren't stored
+	}
+	if _, err := tab.rs.Seek(tab.indexOffset+2*int64(i), io.SeekStart); err != nil {
 		return "", err
 	}
-	if _, err := rs.Seek(int64(table+index), 0); err != nil {
+	var index int16
+	if err := binary.Read(tab.rs, binary.LittleEndian, &index); err != nil {
 		return "", err
 	}
-	return readNullString(rs)
-}
-
-func readUint16(rs io.ReadSeeker, off uint16) (uint16, error) {
-	if _, err := rs.Seek(int64(off), 0); err != nil {
-		return 0, err
+	if index < 0 {
+		return "", nil // absent or cancelled
 	}
-	if err := binary.Read(rs, binary.LittleEndian, &off); err != nil {
-		return 0, err
+	if int(index) >= tab.size {
+		return "", fmt.Errorf("invalid string offset %v", index)
 	}
-	return off, nil
+	if _, err := tab.rs.Seek(tab.offset+int64(index), io.SeekStart); err != nil {
+		return "", err
+	}
+	return readNullString(io.LimitReader(tab.rs, int64(tab.size)-int64(index)))
 }
 
 func readNullString(r io.Reader) (s string, err error) {
@@ -140,9 +158,6 @@ func readNullString(r io.Reader) (s string, err error) {
 	var buf [8]byte
 	for {
 		n, err := r.Read(buf[:])
-		if err != nil {
-			return "", err
-		}
 		for i, b := range buf[:n] {
 			if b == 0 {
 				bs = append(bs, buf[:i]...)
@@ -150,5 +165,10 @@ func readNullString(r io.Reader) (s string, err error) {
 			}
 		}
 		bs = append(bs, buf[:n]...)
+		if err == io.EOF {
+			return "", io.ErrUnexpectedEOF
+		} else if err != nil {
+			return "", err
+		}
 	}
 }
-- 
2.43.0


From 64c6b169b5e48fd5976a61d2410d04e3628a96aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:29 +0000
Subject: [PATCH 73/85] fix: set the name of a terminfo entry when reading it

---
 terminfo/read.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/terminfo/read.go b/terminfo/read.go
index abbd93b..35adb06 100644
--- a/terminfo/read.go
+++ b/terminfo/read.go
@@ -1,6 +1,7 @@
 package terminfo
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"io"
@@ -90,6 +91,15 @@ func (ti *Terminfo) ReadFrom(rs io.ReadSeeker) error {
 		}
 	}
 
+	names := make([]byte, header[1])
+	if _, err := io.ReadFull(rs, names); err != nil {
+		return err
+	}
+	if i := bytes.IndexAny(names, "|\x00"); i >= 0 {
+		names = names[:i]
+	}
+	ti.Name = string(names)
+
 	dataOffset := headerLength + int64(header[1]) + int64(header[2])
 	if dataOffset%2 != 0 {
 		// old quirk to align everything on word boundaries
-- 
2.43.0


From 8a2f0019581a9c7769ea0b3cc71da8b091880860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 74/85] fix: to24bit: convert background colors

---
 cmd/to24bit/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/to24bit/main.go b/cmd/to24bit/main.go
index cd9b39b..bc7b370 100644
--- a/cmd/to24bit/main.go
+++ b/cmd/to24bit/main.go
@@ -89,7 +89,7 @@ func process(e ansi.Escape, a []byte) error {
 
 			// maybe convert background
 			if bg, hasBG := attr.BG(); hasBG {
-				if newc := bg.To24Bit(); newc != bg.To24Bit() {
+				if newc := bg.To24Bit(); newc != bg {
 					attr = attr.SansBG() | newc.BG()
 					needed = true
 				}
-- 
2.43.0


From 8e60bb634acecc1c37a142cf0fd417dc5e21930e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 75/85] fix: to24bit: keep controls, invalid bytes, and what is
 split between reads

C1 controls and strings were written as a bare control character, without
their arguments; sequences and runes cut by a read boundary were passed on as
text; and a sequence that followed a cancelled one was not processed.
---
 cmd/to24bit/main.go | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/cmd/to24bit/main.go b/cmd/to24bit/main.go
index bc7b370..3790fd2 100644
--- a/cmd/to24bit/main.go
+++ b/cmd/to24bit/main.go
@@ -51,22 +51,40 @@ func processMore(ateof bool) (err error) {
 	for err == nil && readBuf.Len() > 0 {
 		e, a, n := ansi.DecodeEscape(readBuf.Bytes())
 		readBuf.Next(n)
-		if e == 0 {
-			r, n := utf8.DecodeRune(readBuf.Bytes())
-			const esc = 0x1b
-			if r == esc && readBuf.Len() == 1 && !ateof {
-				break // readMore, try to complete escape sequence
+		if e != 0 {
+			err = process(e, a)
+			continue
+		} else if n > 0 {
+			continue // cancelled; what remains may be another escape
+		}
+
+		b := readBuf.Bytes()
+		r, n := utf8.DecodeRune(b)
+		if !ateof {
+			if !utf8.FullRune(b) {
+				break // readMore, try to complete rune
 			}
-			readBuf.Next(n)
-			e = ansi.Escape(r)
+			switch r {
+			case 0x90, 0x9B, 0x9D, 0x9E, 0x9F: // DCS, CSI, OSC, PM, APC
+				return nil // readMore, try to complete escape sequence
+			case 0x1B: // ESC
+				if len(b) == 1 || b[1] != 0x1B { // not just interrupted by another
+					return nil // readMore, try to complete escape sequence
+				}
+			}
+		}
+		readBuf.Next(n)
+		if 0x80 <= r && r <= 0x9F { // C1 control
+			err = process(ansi.Escape(r), nil)
+		} else {
+			_, err = outBuf.Write(b[:n])
 		}
-		err = process(e, a)
 	}
 	return err
 }
 
 func process(e ansi.Escape, a []byte) error {
-	if !e.IsEscape() {
+	if !e.IsEscape() && (e < 0x80 || e > 0x9F) {
 		_, err := outBuf.WriteRune(rune(e))
 		return err
 	}
-- 
2.43.0


From 2e32a49864c77a486117f42f171739de6b25d480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 76/85] fix: decode: succeed at the end of batch input

---
 cmd/decode/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/decode/main.go b/cmd/decode/main.go
index 5692913..94ce07f 100644
--- a/cmd/decode/main.go
+++ b/cmd/decode/main.go
@@ -77,6 +77,9 @@ func runBatch(in, out *os.File) (err error) {
 	if buf.Len() > 0 {
 		log.Printf("undecoded trailer content: %q", buf.Bytes())
 	}
+	if err == io.EOF {
+		err = nil
+	}
 	return err
 }
 
-- 
2.43.0


From 5b67e3edc178deb842025f2de563bd35594c35c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 77/85] fix: decode: keep runes that are within or split by
 reads of batch input

Runes from within an escape sequence were treated as escapes, invalid bytes
rewritten, runes and sequences cut by a read boundary mangled, and 7-bit C1
controls kept as text; a sequence that followed a cancelled one was not
decoded.
---
 cmd/decode/main.go | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/cmd/decode/main.go b/cmd/decode/main.go
index 94ce07f..9e1de4c 100644
--- a/cmd/decode/main.go
+++ b/cmd/decode/main.go
@@ -84,34 +84,37 @@ func runBatch(in, out *os.File) (err error) {
 }
 
 func processBatch(buf *bytes.Buffer, w io.Writer) (err error) {
-	writeRune := func(r rune) (size int, err error) {
-		var b [4]byte
-		n := utf8.EncodeRune(b[:], r)
-		return w.Write(b[:n])
-	}
-	if rw := w.(interface {
-		WriteRune(r rune) (size int, err error)
-	}); rw != nil {
-		writeRune = rw.WriteRune
-	}
-
 	for err == nil && buf.Len() > 0 {
 		e, a, n := ansi.DecodeEscape(buf.Bytes())
 		if n > 0 {
 			buf.Next(n)
+			if e == 0 {
+				continue // cancelled; what remains may be another escape
+			}
 		}
 		if e == 0 {
-			r, n := utf8.DecodeRune(buf.Bytes())
+			b := buf.Bytes()
+			r, n := utf8.DecodeRune(b)
+			if !utf8.FullRune(b) {
+				return // read more
+			}
 			switch r {
 			case 0x90, 0x9B, 0x9D, 0x9E, 0x9F: // DCS, CSI, OSC, PM, APC
-				return
+				return // read more
 			case 0x1B: // ESC
-				if p := buf.Bytes(); len(p) == cap(p) {
-					return
+				if len(b) == 1 || b[1] != 0x1B { // not just interrupted by another
+					return // read more
 				}
 			}
 			buf.Next(n)
-			_, err = writeRune(r)
+			if r < 0x80 || r > 0x9F {
+				_, err = w.Write(b[:n])
+				continue
+			}
+			e = ansi.Escape(r) // C1 control
+		}
+		if !e.IsEscape() && (e < 0x80 || e > 0x9F) {
+			_, err = fmt.Fprintf(w, "%c", rune(e)) // from within an escape sequence
 		} else if !*stripMode {
 			if e == ansi.SGR {
 				attr, _, decErr := ansi.DecodeSGR(a)
-- 
2.43.0


From d0d4e463f1f1b2a8f7af61927aa587f68560ca77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:21 +0000
Subject: [PATCH 78/85] fix: SignalError: exit code 128+n, rather than one out
 of range

ExitCode gave -n, so that the process exited with 256-n.
---
 signal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signal.go b/signal.go
index 3b34a37..8030aab 100644
--- a/signal.go
+++ b/signal.go
@@ -102,11 +102,11 @@ func (sig SignalError) Error() string  { return fmt.Sprintf("signal %v", sig.Sig
 func (sig SignalError) Signal() {}
 
 // ExitCode returns the corresponding value that the program should exit with
-// due to the wrapped signal.
+// due to the wrapped signal: 128 plus its number, as shells have it.
 func (sig SignalError) ExitCode() int {
 	switch impl := sig.Sig.(type) {
 	case syscall.Signal:
-		return -int(impl)
+		return 128 + int(impl)
 	}
 	return 1
 }
-- 
2.43.0


From 3fe2626af5f73d1ea2e435a20b00c98dd6d7269c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:21 +0000
Subject: [PATCH 79/85] fix: Ticker.Wait: return zero time when inactive

It blocked forever, rather than as documented; as it also could when exited
meanwhile.
---
 x/platform/tick.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/x/platform/tick.go b/x/platform/tick.go
index 2bee957..9b04775 100644
--- a/x/platform/tick.go
+++ b/x/platform/tick.go
@@ -1,6 +1,7 @@
 package platform
 
 import (
+	"sync"
 	"time"
 
 	"github.com/jcorbin/anansi"
@@ -10,8 +11,10 @@ import (
 // terminal enter/exit.
 type Ticker struct {
 	d time.Duration
-	t *time.Ticker
-	c chan struct{}
+
+	mu sync.Mutex // Wait may be running while Exit is called
+	t  *time.Ticker
+	c  chan struct{}
 	// TODO useful to indirect t.C so that Enter can provide an immediate initial tick?
 }
 
@@ -19,6 +22,8 @@ type Ticker struct {
 // always returns nil error.
 func (ct *Ticker) Enter(term *anansi.Term) error {
 	_ = ct.Exit(term)
+	ct.mu.Lock()
+	defer ct.mu.Unlock()
 	if ct.d == 0 {
 		ct.d = time.Second / defaultFrameRate
 	}
@@ -29,6 +34,8 @@ func (ct *Ticker) Enter(term *anansi.Term) error {
 
 // Exit stops any running ticker; always returns nil error.
 func (ct *Ticker) Exit(term *anansi.Term) error {
+	ct.mu.Lock()
+	defer ct.mu.Unlock()
 	if ct.t != nil {
 		ct.t.Stop()
 		ct.t = nil
@@ -43,14 +50,16 @@ func (ct *Ticker) Exit(term *anansi.Term) error {
 // Wait blocks for the next ticker time, returning zero time if the Ticker
 // isn't active, or is Exit-ed first.
 func (ct *Ticker) Wait() time.Time {
-	var tc <-chan time.Time
-	if ct.t != nil {
-		tc = ct.t.C
+	ct.mu.Lock()
+	t, c := ct.t, ct.c
+	ct.mu.Unlock()
+	if t == nil {
+		return time.Time{}
 	}
 	select {
-	case t := <-tc:
+	case t := <-t.C:
 		return t
-	case <-ct.c:
+	case <-c:
 	}
 	return time.Time{}
 }
-- 
2.43.0


From 6228463507daebfb16b010fd39b474db65755df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 80/85] fix: interact: do not panic without a command, or on a
 low screen

---
 cmd/interact/main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/interact/main.go b/cmd/interact/main.go
index 715dfd2..74e024a 100644
--- a/cmd/interact/main.go
+++ b/cmd/interact/main.go
@@ -100,7 +100,7 @@ func (in *inspect) haveAllArgVals() bool {
 
 func (in *inspect) runCmd() {
 	in.cmdOutput.Clear()
-	if in.cmdOutput.Bounds().Empty() {
+	if len(in.cmd) == 0 || in.cmdOutput.Bounds().Empty() {
 		return
 	}
 	in.cmdOutput.To(ansi.Pt(1, 1))
@@ -241,7 +241,9 @@ func (in *inspect) Update(ctx *platform.Context) (err error) {
 	p.Y++
 
 	sz := ctx.Output.Bounds().Size()
-	sz.Y -= p.Y
+	if sz.Y -= p.Y; sz.Y < 0 {
+		sz.Y = 0
+	}
 	if !in.cmdOutput.Bounds().Size().Eq(sz) {
 		log.Printf("resize cmd out %v", sz)
 		in.cmdOutput.Resize(sz)
-- 
2.43.0


From f8852f1bb56ac33469e3681a024fa9444a04802a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 81/85] fix: lolwut: follow changes of screen height too

---
 cmd/lolwut/interact.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/lolwut/interact.go b/cmd/lolwut/interact.go
index 65b429c..fa478fb 100644
--- a/cmd/lolwut/interact.go
+++ b/cmd/lolwut/interact.go
@@ -52,7 +52,7 @@ func (sd *schotterDemoUI) Update(ctx *platform.Context) (err error) {
 
 	canvasSize := sd.canvas.Rect.Size()
 
-	if screenSize := ctx.Output.Bounds().Size(); screenSize.X != canvasSize.X/2 || zoomed {
+	if screenSize := ctx.Output.Bounds().Size(); screenSize.X != canvasSize.X/2 || screenSize.Y != canvasSize.Y/4 || zoomed {
 		sd.padding = 0
 		if screenSize.X > 2 {
 			sd.padding = 2
-- 
2.43.0


From 0accce036d94feed3b7d090d8dcc0d169f4be4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 82/85] fix: demo: draw test pattern rows from the first column

---
 cmd/demo/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/demo/main.go b/cmd/demo/main.go
index b2149f6..d430ad5 100644
--- a/cmd/demo/main.go
+++ b/cmd/demo/main.go
@@ -76,8 +76,9 @@ func (d *demo) Update(ctx *platform.Context) (err error) {
 	r := ctx.Output.Bounds()
 	for p := r.Min; p.Y < r.Max.Y; p.Y++ {
 		line := p.Y%16 == 0
+		p.X = r.Min.X
 		i, _ := d.Grid.CellOffset(p)
-		for p.X = r.Min.X; p.X < r.Max.X; p.X++ {
+		for ; p.X < r.Max.X; p.X++ {
 			a := ansi.RGB(0, uint8(p.X), uint8(p.Y)).BG()
 			var r rune
 			if line {
-- 
2.43.0


From 15e3226ca3a943fbb4a87933738fd69ae513fa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:27 +0000
Subject: [PATCH 83/85] fix: Ctrl-C pressed after the last frame of a replay
 was lost

---
 x/platform/replay.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/x/platform/replay.go b/x/platform/replay.go
index 1772f50..99c8fe7 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -36,12 +36,7 @@ type replay struct {
 }
 
 func (rep *replay) update(ctx *Context) {
-	if len(rep.cur) == 0 {
-		ctx.Err = errReplayDone
-		return
-	}
-
-	// Ctrl-C stops replay
+	// Ctrl-C stops replay, even if pressed after its last frame
 	if ctx.Input.HasTerminal('\x03') {
 		log.Printf("stopping replay")
 		ctx.Platform.replay = nil
@@ -49,6 +44,11 @@ func (rep *replay) update(ctx *Context) {
 		return
 	}
 
+	if len(rep.cur) == 0 {
+		ctx.Err = errReplayDone
+		return
+	}
+
 	defer func() {
 		if ctx.Err == nil {
 			rep.drawOverlay(ctx)
-- 
2.43.0


From a3cc404bbcf66aa1b0334cc6d100461a5e172df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:21 +0000
Subject: [PATCH 84/85] fix: reading a file known to the runtime poller blocked
 the platform

ReadAny waited for more input on files opened by os.OpenFile (e.g. /dev/tty):
File.Read waits in the poller whatever the file's mode, which File.Fd moreover
resets to blocking each time it is called.
---
 attr.go   | 10 ++++-----
 input.go  | 65 +++++++++++++++++++++++++++++++++++++++++++++++++++----
 output.go |  6 +----
 3 files changed, 67 insertions(+), 14 deletions(-)

diff --git a/attr.go b/attr.go
index 3c186c2..ebc6a71 100644
--- a/attr.go
+++ b/attr.go
@@ -154,10 +154,10 @@ func (at Attr) ioctl(request uintptr, arg unsafe.Pointer) error {
 	if at.file == nil {
 		return errAttrNoFile
 	}
-	// NOTE arg may only become an uintptr within the call expression: before
-	// that, what it points to may still move as the stack grows
-	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, at.file.Fd(), request, uintptr(arg)); e != 0 {
+	return withFd(at.file, func(fd uintptr) syscall.Errno {
+		// NOTE arg may only become an uintptr within the call expression:
+		// before that, what it points to may still move as the stack grows
+		_, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, request, uintptr(arg))
 		return e
-	}
-	return nil
+	})
 }
diff --git a/input.go b/input.go
index 92eccfa..fe23b66 100644
--- a/input.go
+++ b/input.go
@@ -250,7 +250,7 @@ func (in *Input) ReadAny() (n int, err error) {
 	for err == nil {
 		var m int
 		p := in.readBuf()
-		m, err = in.File.Read(p)
+		m, err = in.readNow(p)
 		if m == 0 {
 			break
 		}
@@ -285,6 +285,36 @@ func (in *Input) ReadAny() (n int, err error) {
 	return n, err
 }
 
+// readNow reads like File.Read, but without ever waiting in the runtime poller,
+// which File.Read does regardless of non-blocking mode if the file is pollable
+// (e.g. was opened by os.OpenFile).
+func (in *Input) readNow(p []byte) (n int, err error) {
+	rc, err := in.File.SyscallConn()
+	if err != nil {
+		return 0, err
+	}
+	cerr := rc.Read(func(fd uintptr) bool {
+		for {
+			if n, err = syscall.Read(int(fd), p); err != syscall.EINTR {
+				return true
+			}
+		}
+	})
+	if n < 0 {
+		n = 0
+	}
+	if cerr != nil {
+		return n, cerr
+	}
+	if err != nil {
+		return n, &os.PathError{Op: "read", Path: in.File.Name(), Err: err}
+	}
+	if n == 0 && len(p) > 0 {
+		return 0, io.EOF
+	}
+	return n, nil
+}
+
 // Enter gets the current fcntl flags for restoration during Exit(), and sets
 // non-blocking/async modes if needed.
 func (in *Input) Enter(term *Term) error {
@@ -413,13 +443,40 @@ func (in *Input) buildFlags(flags uintptr) uintptr {
 }
 
 func (in *Input) fcntl(a2, a3 uintptr) (r1, r2 uintptr, err error) {
-	r1, r2, e := syscall.Syscall(syscall.SYS_FCNTL, in.File.Fd(), a2, a3)
-	if e != 0 {
-		return 0, 0, e
+	return fcntl(in.File, a2, a3)
+}
+
+// fcntl calls the namesake system call, without changing the file's mode as
+// File.Fd may.
+func fcntl(f *os.File, a2, a3 uintptr) (r1, r2 uintptr, err error) {
+	err = withFd(f, func(fd uintptr) (e syscall.Errno) {
+		r1, r2, e = syscall.Syscall(syscall.SYS_FCNTL, fd, a2, a3)
+		return e
+	})
+	if err != nil {
+		return 0, 0, err
 	}
 	return r1, r2, nil
 }
 
+// withFd calls the given function with the file's descriptor; unlike using
+// File.Fd, that does not set it to blocking mode if the file was opened by
+// os.OpenFile.
+func withFd(f *os.File, op func(fd uintptr) syscall.Errno) error {
+	rc, err := f.SyscallConn()
+	if err != nil {
+		return err
+	}
+	var e syscall.Errno
+	if err := rc.Control(func(fd uintptr) { e = op(fd) }); err != nil {
+		return err
+	}
+	if e != 0 {
+		return e
+	}
+	return nil
+}
+
 // InputReplay is a session of recorded input.
 type InputReplay []InputFrame
 
diff --git a/output.go b/output.go
index da45cc0..0617730 100644
--- a/output.go
+++ b/output.go
@@ -102,9 +102,5 @@ func (out *Output) recordStall(t0 time.Time) {
 }
 
 func (out *Output) fcntl(a2, a3 uintptr) (r1, r2 uintptr, err error) {
-	r1, r2, e := syscall.Syscall(syscall.SYS_FCNTL, out.File.Fd(), a2, a3)
-	if e != 0 {
-		return 0, 0, e
-	}
-	return r1, r2, nil
+	return fcntl(out.File, a2, a3)
 }
-- 
2.43.0


From 2ee1281796b064979f8cb4ba1ae07a2a635ea4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:44 +0000
Subject: [PATCH 85/85] fix: ParseBitmap took an empty first line along with
 longer ones

---
 bitmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitmap.go b/bitmap.go
index 0004fb5..350217a 100644
--- a/bitmap.go
+++ b/bitmap.go
@@ -56,7 +56,7 @@ func ParseBitmap(set string, lines ...string) (stride int, data []bool, err erro
 	}
 
 	var n int
-	for _, line := range lines {
+	for i, line := range lines {
 		m := utf8.RuneCountInString(line)
 		if len(pat) == 2 {
 			if m%2 == 1 {
@@ -64,7 +64,7 @@ func ParseBitmap(set string, lines ...string) (stride int, data []bool, err erro
 			}
 			m /= 2
 		}
-		if stride == 0 {
+		if i == 0 {
 			stride = m
 		} else if m != stride {
 			return 0, nil, errors.New("inconsistent line length")
-- 
2.43.0

