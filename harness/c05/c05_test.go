package c05

import (
	"image"
	"testing"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
	"verif/ops"
	"verif/scr"
	"verif/vt"
)

func TestMain(m *testing.M) { hx.Main(m) }

const rule = "random well-formed output streams (text, CR/LF, cursor moves, CUP, ED, EL, SGR, modes, sequences to ignore, in 7 and 8 bit form) written to a virtual screen of random size, through every write method, piecewise or whole, interleaved with To/Clear/Resize; non-trivial = text written with a non-plain rendition and at least one erase or move"

func compare(t *rapid.T, sc *anansi.VirtualScreen, m *ops.Model) {
	if sc.Bounds().Size() != image.Pt(m.W, m.H) {
		t.Fatalf("screen is %v, want %dx%d", sc.Bounds(), m.W, m.H)
	}
	for i, want := range m.Cells {
		got := vt.Cell{R: sc.Rune[i], A: gen.Back(sc.Attr[i])}
		if got != want {
			t.Fatalf("cell (%d,%d) is %q %v, want %q %v", i%m.W+1, i/m.W+1, got.R, got.A, want.R, want.A)
		}
	}
	pt := sc.Cursor.Point
	if pt == ansi.ZP {
		pt = ansi.Pt(1, 1) // nowhere: the origin, as far as output is concerned
	}
	if pt != ansi.Pt(m.X, m.Y) {
		t.Fatalf("cursor at %v, want (%d,%d)", sc.Cursor.Point, m.X, m.Y)
	}
	if gen.Back(sc.Cursor.Attr) != m.A {
		t.Fatalf("cursor rendition %v, want %v", sc.Cursor.Attr, m.A)
	}
	if sc.Cursor.Visible != m.Vis {
		t.Fatalf("cursor visible %v, want %v", sc.Cursor.Visible, m.Vis)
	}
}

// TestStream: the virtual screen ends up as the stream says.
func TestStream(t *testing.T) {
	hx.Check(t, 100000, rule, func(t *rapid.T, c *hx.Case) {
		w, h := scr.Size(t)
		var sd anansi.ScreenDiffer
		sd.Resize(image.Pt(w, h))
		sc := &sd.VirtualScreen
		m := ops.NewModel(w, h)
		styled, shaped := false, false
		steps := rapid.IntRange(1, 12).Draw(t, "steps")
		for i := 0; i < steps; i++ {
			switch rapid.IntRange(0, 11).Draw(t, "step") {
			case 0:
				pt := ansi.Pt(rapid.IntRange(1, w+2).Draw(t, "x"), rapid.IntRange(1, h+2).Draw(t, "y"))
				sc.To(pt)
				m.X, m.Y = pt.X, pt.Y
				m.Clamp()
				c.Logf("To %v", pt)
			case 1:
				a := gen.Attr().Draw(t, "attr")
				sc.WriteSGR(gen.SGR(a))
				m.A = a // WriteSGR switches to exactly this rendition
				c.Logf("WriteSGR %v", a)
			case 2:
				if rapid.IntRange(0, 3).Draw(t, "clear") == 0 {
					sc.Clear()
					m = ops.NewModel(w, h)
					sc.To(ansi.Pt(1, 1))
					c.Logf("Clear")
				}
			case 3:
				pt := ansi.Pt(rapid.IntRange(1, w).Draw(t, "x"), rapid.IntRange(1, h).Draw(t, "y"))
				sc.WriteSeq(ansi.CUP.WithPoint(pt))
				m.Do(ops.Op{Kind: ops.Pos, X: pt.X, Y: pt.Y})
				c.Logf("WriteSeq CUP %v", pt)
			default:
				var p []byte
				for k, n := 0, rapid.IntRange(1, 8).Draw(t, "nops"); k < n; k++ {
					o := ops.Gen(w, h).Draw(t, "op")
					m.Do(o)
					p = append(p, o.Enc...)
					styled = styled || o.Kind == ops.Text && m.A != (vt.Attr{})
					shaped = shaped || o.Kind == ops.Move || o.Kind == ops.ED || o.Kind == ops.EL
				}
				c.Logf("write %q", p)
				write(t, sc, p)
			}
			if m.Bottoms > 0 && scrolls() {
				c.Label("scrolled")
				return // the finding is gone: what scrolling shows is not modelled
			}
			compare(t, sc, m)
		}
		c.LabelIf(m.Bottoms > 0, "bottom-linefeed")
		c.NT(styled && shaped)
	})
}

// write sends bytes by one of the write methods.
func write(t *rapid.T, sc *anansi.VirtualScreen, p []byte) {
	switch rapid.IntRange(0, 3).Draw(t, "how") {
	case 0:
		if n, err := sc.Write(p); n != len(p) || err != nil {
			t.Fatalf("Write returned %d, %v for %d bytes", n, err, len(p))
		}
	case 1:
		if n, err := sc.WriteString(string(p)); n != len(p) || err != nil {
			t.Fatalf("WriteString returned %d, %v for %d bytes", n, err, len(p))
		}
	case 2:
		for _, b := range p {
			if err := sc.WriteByte(b); err != nil {
				t.Fatalf("WriteByte: %v", err)
			}
		}
	case 3:
		for _, r := range string(p) {
			if _, err := sc.WriteRune(r); err != nil {
				t.Fatalf("WriteRune: %v", err)
			}
		}
	}
}

// TestScroll: a line feed on the bottom row, and text past the last cell.
// Listed as a known finding: the emulation does not scroll.
func TestScroll(t *testing.T) {
	hx.Each(t, "fixed probe of the listed finding: line feed on the bottom row", false, func(check func(func(c *hx.Case) error)) {
		check(func(c *hx.Case) error {
			c.NT(true)
			c.Logf("probe: 2x2 screen, rows filled, line feed on the bottom row")
			hx.Known(t, "C05", "no-scroll", !scrolls(), "a line feed on the bottom row leaves the screen unscrolled")
			return nil
		})
	})
}

func scrolls() bool {
	var sc anansi.VirtualScreen
	sc.Resize(image.Pt(2, 2))
	sc.WriteString("a\r\nb\r\n")
	return string(sc.Rune) != "a\x00b\x00"
}
