package c01

import (
	"bytes"
	"image"
	"testing"

	"github.com/jcorbin/anansi"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
	"verif/scr"
	"verif/vt"
)

func TestMain(m *testing.M) { hx.Main(m) }

const rule = "random frame histories (cell sets, text writes, segments, blanks, clears, resizes, user cursor) on a random-size screen, flushed frame by frame into a reference terminal; non-trivial = at least 2 frames flushed and at least one differential (non-redraw) frame that changed a cell"

// TestHistory: after every flush the terminal shows the virtual screen.
func TestHistory(t *testing.T) {
	hx.Check(t, 40000, rule, func(t *rapid.T, c *hx.Case) {
		m := scr.New(t, c)
		frames := rapid.IntRange(1, 7).Draw(t, "frames")
		diffs := 0
		var shown []vt.Cell
		for f := 0; f < frames; f++ {
			if f > 0 && rapid.IntRange(0, 7).Draw(t, "resize") == 0 {
				w, h := scr.Size(t)
				m.T.Resize(w, h)
				if m.SC.Resize(image.Pt(w, h)) {
					shown = nil
				}
				m.SC.Clear() // contents are unspecified after a resize
				c.Logf("resize %dx%d", w, h)
				c.Label("resize")
			}
			m.Draw(t, 6)
			scrolls := m.T.Scrolls
			printed := record(m.T)
			m.Flush(t)
			m.T.OnPrint = nil
			m.Check(t)
			if m.T.Scrolls != scrolls {
				t.Fatalf("rendering a frame scrolled the terminal")
			}
			want := scr.Want(m.SC.Grid)
			if shown != nil {
				changed := 0
				for i := range want {
					if want[i] != shown[i] {
						changed++
					}
				}
				if changed > 0 {
					diffs++
				}
				for pt := range printed {
					i := (pt.Y-1)*m.T.W + pt.X - 1
					if want[i] == shown[i] {
						t.Fatalf("differential frame reprinted unchanged cell %v", pt)
					}
				}
				if changed == 0 && !m.SC.UserCursor.Visible && prevHidden(c) && m.Bytes != 0 {
					t.Fatalf("nothing changed, but %d bytes were emitted", m.Bytes)
				}
				c.LabelIf(changed == 0, "frame-unchanged")
				c.LabelIf(changed > 0, "frame-diff")
			} else {
				c.Label("frame-full")
			}
			setHidden(c, !m.SC.UserCursor.Visible)
			shown = want
		}
		c.NT(frames >= 2 && diffs > 0)
	})
}

// whether the previous frame left the cursor hidden
var hidden = map[*hx.Case]bool{}

func prevHidden(c *hx.Case) bool   { return hidden[c] }
func setHidden(c *hx.Case, h bool) { clear(hidden); hidden[c] = h }

func record(term *vt.Term) map[image.Point]bool {
	m := map[image.Point]bool{}
	term.OnPrint = func(x, y int) { m[image.Pt(x, y)] = true }
	return m
}

const updateRule = "random pairs/sequences of whole screens passed through Screen.Update, each call's returned screen being the next call's prior; non-trivial = at least one differential step that changed a cell"

// TestUpdate: the lower level Screen.Update returns a final state equal to the
// receiver's, and its output takes a terminal there.
func TestUpdate(t *testing.T) {
	hx.Check(t, 20000, updateRule, func(t *rapid.T, c *hx.Case) {
		w, h := scr.Size(t)
		term := vt.New(w, h)
		var prior anansi.Screen
		steps := rapid.IntRange(1, 4).Draw(t, "steps")
		diffs := 0
		var last anansi.Grid
		for i := 0; i < steps; i++ {
			var sc anansi.Screen
			sc.Resize(image.Pt(w, h))
			if i > 0 && rapid.IntRange(0, 2).Draw(t, "base") > 0 {
				copy(sc.Rune, last.Rune)
				copy(sc.Attr, last.Attr)
			}
			for k, n := 0, rapid.IntRange(0, 5).Draw(t, "nset"); k < n; k++ {
				pt := scr.Point(t, w, h)
				j, _ := sc.CellOffset(pt)
				sc.Rune[j], sc.Attr[j] = gen.Rune().Draw(t, "r"), gen.SGR(gen.Attr().Draw(t, "a"))
				c.Logf("set %v %q %v", pt, sc.Rune[j], sc.Attr[j])
			}
			if rapid.Bool().Draw(t, "visible") {
				sc.Cursor.Visible = true
				sc.Cursor.Point = scr.Point(t, w, h)
				sc.Cursor.Attr = gen.SGR(gen.Attr().Draw(t, "ca"))
			}
			var out bytes.Buffer
			n, next, err := sc.Update(&out, prior)
			if err != nil {
				t.Fatalf("Update: %v", err)
			}
			if n != out.Len() {
				t.Fatalf("Update returned %d bytes, wrote %d", n, out.Len())
			}
			c.Logf("update %q", out.Bytes())
			term.Write(out.Bytes())
			if err := scr.Diff(term, sc.Grid, sc.Cursor); err != nil {
				t.Fatalf("%v", err)
			}
			if !next.Grid.Eq(sc.Grid, ' ') || next.Rect != sc.Rect {
				t.Fatalf("returned screen contents differ from the receiver's")
			}
			if next.Cursor.Visible != sc.Cursor.Visible {
				t.Fatalf("returned cursor visibility %v, want %v", next.Cursor.Visible, sc.Cursor.Visible)
			}
			if sc.Cursor.Visible && (next.Cursor.Point != sc.Cursor.Point || gen.Back(next.Cursor.Attr) != gen.Back(sc.Cursor.Attr)) {
				t.Fatalf("returned cursor %v, want %v", next.Cursor, sc.Cursor)
			}
			if i > 0 && !last.Eq(sc.Grid, ' ') {
				diffs++
			}
			last = anansi.Grid{Rune: append([]rune(nil), sc.Rune...), Attr: append(sc.Attr[:0:0], sc.Attr...), Stride: sc.Stride, Rect: sc.Rect}
			prior = next
		}
		c.NT(diffs > 0)
	})
}
