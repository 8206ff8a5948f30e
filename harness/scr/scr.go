// Package scr drives a differential screen against the reference terminal.
package scr

import (
	"bytes"
	"fmt"
	"image"
	"io"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
	"verif/vt"
)

// M pairs a screen with the terminal that shows it.
type M struct {
	SC      *anansi.TermScreen
	T       *vt.Term
	C       *hx.Case
	Printed map[image.Point]bool
	Shown   []vt.Cell // cells of the last flushed frame; nil when a full redraw is due
	Bytes   int
	via     int
}

// Drawable is what the drawing operations act on.
type Drawable interface {
	To(pt ansi.Point)
	WriteString(s string) (int, error)
	WriteRune(r rune) (int, error)
	WriteByte(b byte) error
	WriteSGR(attrs ...ansi.SGRAttr) int
	WriteSeq(seqs ...ansi.Seq) int
	Clear()
}

// New makes a screen of a generated size and a terminal in a generated state.
func New(t *rapid.T, c *hx.Case) *M {
	w, h := Size(t)
	m := &M{SC: &anansi.TermScreen{}, T: vt.New(w, h), C: c}
	m.T.BCE = rapid.Bool().Draw(t, "bce")
	if rapid.Bool().Draw(t, "noautowrap") {
		m.T.Wrap = vt.Clamp
	}
	m.SC.Resize(image.Pt(w, h))
	m.Scribble(t)
	c.Logf("new %dx%d bce=%v wrap=%v", w, h, m.T.BCE, m.T.Wrap)
	return m
}

// Size generates a screen size, mostly small.
func Size(t *rapid.T) (w, h int) {
	if rapid.IntRange(0, 19).Draw(t, "bigSize") == 0 {
		return rapid.IntRange(1, 130).Draw(t, "W"), rapid.IntRange(1, 40).Draw(t, "H")
	}
	return rapid.IntRange(1, 9).Draw(t, "w"), rapid.IntRange(1, 6).Draw(t, "h")
}

// Scribble puts unrelated content on the terminal and moves its cursor, as
// another program sharing it would (leaving rendition plain).
func (m *M) Scribble(t *rapid.T) {
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "nscribble"); i < n; i++ {
		at := rapid.IntRange(0, len(m.T.Cells)-1).Draw(t, "at")
		m.T.Cells[at] = vt.Cell{R: 'Q', A: gen.Attr().Draw(t, "attr")}
	}
	m.T.X = rapid.IntRange(1, m.T.W).Draw(t, "tx")
	m.T.Y = rapid.IntRange(1, m.T.H).Draw(t, "ty")
	m.T.Pending = m.T.Wrap == vt.Deferred && m.T.X == m.T.W && rapid.Bool().Draw(t, "pending")
}

// Point generates an in-bounds point of a w x h screen, favouring edges.
func Point(t *rapid.T, w, h int) ansi.Point {
	x, y := rapid.IntRange(1, w).Draw(t, "x"), rapid.IntRange(1, h).Draw(t, "y")
	switch rapid.IntRange(0, 9).Draw(t, "edge") {
	case 0:
		x = w
	case 1:
		y = h
	case 2:
		x, y = w, h
	case 3:
		x = 1
	}
	return ansi.Pt(x, y)
}

// Draw applies a few drawing operations to the virtual screen.
func (m *M) Draw(t *rapid.T, maxOps int) {
	sc := m.SC
	w, h := m.T.W, m.T.H
	if rapid.IntRange(0, 2).Draw(t, "clear") == 0 {
		sc.Clear()
		m.C.Logf("clear")
	}
	for i, n := 0, rapid.IntRange(0, maxOps).Draw(t, "nops"); i < n; i++ {
		switch rapid.IntRange(0, 6).Draw(t, "op") {
		case 0, 1, 2: // set a cell
			pt := Point(t, w, h)
			j, ok := sc.CellOffset(pt)
			if !ok {
				t.Fatalf("no cell at in-bounds point %v of %v", pt, sc.Bounds())
			}
			r, a := gen.Rune().Draw(t, "rune"), gen.Attr().Draw(t, "attr")
			if rapid.IntRange(0, 4).Draw(t, "zero") == 0 {
				r = 0
			}
			sc.Grid.Rune[j], sc.Grid.Attr[j] = r, gen.SGR(a)
			m.C.Logf("set %v %q %v", pt, r, a)
		case 3: // write text
			pt := Point(t, w, h)
			s := rapid.StringOfN(gen.Rune(), 0, 2*w, -1).Draw(t, "text")
			sc.To(pt)
			sc.WriteSGR(gen.SGR(gen.Attr().Draw(t, "attr")))
			sc.WriteString(s)
			m.C.Logf("text %v %q", pt, s)
		case 4: // fill a column or row segment
			pt := Point(t, w, h)
			r, a := gen.Rune().Draw(t, "rune"), gen.SGR(gen.Attr().Draw(t, "attr"))
			vertical := rapid.Bool().Draw(t, "vertical")
			for k := rapid.IntRange(1, 4).Draw(t, "len"); k > 0; k-- {
				if j, ok := sc.CellOffset(pt); ok {
					sc.Grid.Rune[j], sc.Grid.Attr[j] = r, a
				}
				if vertical {
					pt.Y++
				} else {
					pt.X++
				}
			}
			m.C.Logf("segment to %v %q", pt, r)
		case 5: // blank a cell
			pt := Point(t, w, h)
			if j, ok := sc.CellOffset(pt); ok {
				sc.Grid.Rune[j], sc.Grid.Attr[j] = 0, 0
			}
			m.C.Logf("blank %v", pt)
		case 6: // rewrite a cell with the rendition it has
			pt := Point(t, w, h)
			if j, ok := sc.CellOffset(pt); ok {
				sc.Grid.Rune[j] = gen.Rune().Draw(t, "rune")
			}
			m.C.Logf("rerune %v", pt)
		}
	}
	m.UserCursor(t)
}

// UserCursor generates the final user cursor.
func (m *M) UserCursor(t *rapid.T) {
	switch rapid.IntRange(0, 3).Draw(t, "userCursor") {
	case 0, 1:
		return // keep
	case 2:
		m.SC.UserCursor.Visible = false
		m.C.Logf("user cursor hidden")
	case 3:
		m.SC.UserCursor.Point = Point(t, m.T.W, m.T.H)
		m.SC.UserCursor.Visible = true
		if rapid.IntRange(0, 15).Draw(t, "outside") == 0 {
			m.SC.UserCursor.Point = ansi.Pt(m.T.W+rapid.IntRange(0, 3).Draw(t, "ox"), m.T.H+rapid.IntRange(0, 3).Draw(t, "oy"))
			m.C.Label("cursor-outside")
		}
		m.SC.UserCursor.Attr = gen.SGR(gen.Attr().Draw(t, "cursorAttr"))
		m.C.Logf("user cursor %v", m.SC.UserCursor)
	}
}

// Want is what the terminal should display for the virtual screen.
func Want(g anansi.Grid) []vt.Cell {
	out := make([]vt.Cell, len(g.Rune))
	for i := range out {
		r := g.Rune[i]
		if r == 0 {
			r = ' '
		}
		out[i] = vt.Cell{R: r, A: gen.Back(g.Attr[i])}
	}
	return out
}

// Flush renders the frame to the terminal by one of the supported paths.
func (m *M) Flush(t *rapid.T) {
	var out bytes.Buffer
	m.via = rapid.IntRange(0, 2).Draw(t, "via")
	switch m.via {
	case 0, 1: // plain io.Writer: assembled in the screen's own buffer
		if _, err := m.SC.WriteTo(&out); err != nil {
			t.Fatalf("WriteTo: %v", err)
		}
	case 2: // a buffered ansi writer
		var buf anansi.Buffer
		if _, err := m.SC.WriteTo(&buf); err != nil {
			t.Fatalf("WriteTo(Buffer): %v", err)
		}
		if _, err := buf.WriteTo(&out); err != nil {
			t.Fatalf("Buffer.WriteTo: %v", err)
		}
	}
	m.Bytes = out.Len()
	m.C.Logf("flush %q", cut(out.Bytes()))
	m.T.Write(out.Bytes())
}

func cut(p []byte) []byte {
	if len(p) > 400 {
		return append(append([]byte(nil), p[:400]...), "..."...)
	}
	return p
}

// Check compares the terminal with the virtual screen.
func (m *M) Check(t *rapid.T) {
	if err := Diff(m.T, m.SC.Grid, m.SC.UserCursor); err != nil {
		t.Fatalf("%v", err)
	}
}

// Diff compares the terminal with a virtual grid and user cursor.
func Diff(term *vt.Term, g anansi.Grid, uc anansi.Cursor) error {
	if len(term.Trace) > 0 {
		return fmt.Errorf("unexpected control functions emitted: %q", term.Trace)
	}
	if !term.Idle() {
		return fmt.Errorf("output ended inside an escape sequence or rune")
	}
	want := Want(g)
	if len(want) != len(term.Cells) {
		return fmt.Errorf("grid has %d cells, terminal %d", len(want), len(term.Cells))
	}
	for i, c := range want {
		if got := term.Cells[i]; got != c {
			return fmt.Errorf("cell (%d,%d): terminal shows %q %v, virtual screen has %q %v\nterminal:\n%v",
				i%term.W+1, i/term.W+1, got.R, got.A, c.R, c.A, term)
		}
	}
	if uc.Visible && uc.Point.Valid() {
		if !term.Visible {
			return fmt.Errorf("user cursor %v should be visible", uc)
		}
		if uc.X > term.W || uc.Y > term.H {
			// off screen: where it shows is up to the terminal
		} else if term.X != uc.X || term.Y != uc.Y || term.Pending {
			return fmt.Errorf("terminal cursor at %d,%d (pending wrap %v), user cursor at %v", term.X, term.Y, term.Pending, uc.Point)
		}
		if term.A != gen.Back(uc.Attr) {
			return fmt.Errorf("terminal rendition %v, user cursor rendition %v", term.A, uc.Attr)
		}
	} else if term.Visible {
		return fmt.Errorf("terminal cursor visible, user cursor is hidden")
	}
	return nil
}

var _ io.Writer = &vt.Term{}
