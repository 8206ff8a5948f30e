package c18

import (
	"bytes"
	"errors"
	"image"
	"testing"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/grd"
	"verif/hx"
	"verif/sty"
	"verif/vt"
)

func TestMain(m *testing.M) { hx.Main(m) }

var errSink = errors.New("sink failed")

// failing is a writer that takes Left bytes before it fails.
type failing struct {
	Left, Took int
	failed     bool
}

func (f *failing) Write(p []byte) (int, error) {
	n := len(p)
	if n > f.Left {
		n = f.Left
	}
	f.Left -= n
	f.Took += n
	if n < len(p) {
		f.failed = true
		return n, errSink
	}
	return n, nil
}

// writer is an io.Writer and nothing more.
type writer struct{ w *bytes.Buffer }

func (w writer) Write(p []byte) (int, error) { return w.w.Write(p) }

const gridRule = "sequences of frames (changed a little, entirely or not at all, sometimes resized) written with style compositions to a plain writer, a Buffer or a virtual cursor, from known or unknown cursor states, with failed writes; non-trivial = a differential frame that changes some but not all cells"

// TestGrid: the terminal shows the styled grid after every write, the returned
// cursor is the terminal's.
func TestGrid(t *testing.T) {
	hx.Check(t, 15000, gridRule, func(t *rapid.T, c *hx.Case) {
		w, h := rapid.IntRange(1, 7).Draw(t, "w"), rapid.IntRange(1, 5).Draw(t, "h")
		ss, all := sty.Some(t, sty.Fixed, 3)
		if all.F != nil && all.F(0, 0, grd.Cell{}, grd.Cell{}).A != 0 {
			ss, all = nil, sty.Combine() // a default rendition for blanks is left alone
		}
		c.Logf("%dx%d with %s", w, h, all.Name)
		term := vt.New(w, h)
		term.BCE = rapid.Bool().Draw(t, "bce")
		if rapid.Bool().Draw(t, "clamp") {
			term.Wrap = vt.Clamp
		}
		for i := range term.Cells {
			term.Cells[i] = vt.Cell{R: 'g', A: vt.Attr{Bold: true}}
		}
		var vc anansi.VirtualCursor
		var prior anansi.Screen
		shown := []grd.Cell(nil) // displayed, when known
		g, f := grd.New(t, w, h)
		for n := rapid.IntRange(1, 5).Draw(t, "frames"); n > 0; n-- {
			switch rapid.IntRange(0, 9).Draw(t, "change") {
			case 0: // resize
				w, h = rapid.IntRange(1, 7).Draw(t, "w"), rapid.IntRange(1, 5).Draw(t, "h")
				g, f = grd.New(t, w, h)
				if w != term.W || h != term.H {
					term.Resize(w, h)
					shown = nil
					prior.Cursor.Point = ansi.ZP
				}
				c.Logf("resize %dx%d", w, h)
			case 1: // all new
				g, f = grd.New(t, w, h)
			case 2: // the same
			default:
				for k := rapid.IntRange(1, 4).Draw(t, "k"); k > 0; k-- {
					i := rapid.IntRange(0, w*h-1).Draw(t, "i")
					f.Cells[i] = grd.GenCell(t)
					g.Rune[i], g.Attr[i] = f.Cells[i].R, f.Cells[i].A
				}
			}
			// what happened to the terminal cursor in between
			switch rapid.IntRange(0, 5).Draw(t, "cursor") {
			case 0: // moved, unknown
				term.X, term.Y, term.Pending = rapid.IntRange(1, w).Draw(t, "cx"), rapid.IntRange(1, h).Draw(t, "cy"), false
				prior.Cursor.Point = ansi.ZP
			case 1: // moved, known
				term.X, term.Y, term.Pending = rapid.IntRange(1, w).Draw(t, "cx"), rapid.IntRange(1, h).Draw(t, "cy"), false
				prior.Cursor.Point = ansi.Pt(term.X, term.Y)
			case 2: // other rendition, known
				term.A = gen.Attr().Draw(t, "ca")
				prior.Cursor.Attr = gen.SGR(term.A)
			case 3:
				term.A = vt.Attr{}
				prior.Cursor = anansi.Cursor{}
			}
			if rapid.IntRange(0, 5).Draw(t, "force") == 0 {
				prior.Grid = anansi.Grid{}
				shown = nil
			}
			if shown == nil {
				prior.Grid = anansi.Grid{}
			} else {
				prior.Grid = anansi.Grid{}
				prior.Grid.Resize(image.Pt(w, h))
				for i, cell := range shown {
					prior.Grid.Rune[i], prior.Grid.Attr[i] = cell.R, cell.A
				}
			}
			want := make([]grd.Cell, w*h)
			for i, cell := range f.Cells {
				if all.F != nil {
					cell = all.F(i%w+1, i/w+1, grd.Cell{}, cell)
				}
				if cell.R == 0 {
					cell.R = ' '
				}
				want[i] = cell
			}
			changed := 0
			for i := range want {
				if shown == nil || shown[i] != want[i] {
					changed++
				}
			}
			c.NT(shown != nil && changed > 0 && changed < w*h)
			c.LabelIf(shown != nil && changed == 0, "unchanged frame")
			if rapid.IntRange(0, 7).Draw(t, "fail") == 0 {
				fw := &failing{Left: rapid.SampledFrom([]int{0, 1, 2, 5, 9, 20}).Draw(t, "takes")}
				n, _, err := anansi.WriteGrid(fw, g, prior, sty.List(ss)...)
				if fw.failed != (err == errSink) || !fw.failed && err != nil {
					t.Fatalf("a write that failed (%v) reports %v", fw.failed, err)
				}
				if changed > 0 && fw.Took == 0 && !fw.failed {
					t.Fatalf("%d cells changed, nothing written", changed)
				}
				if n != fw.Took {
					t.Fatalf("a failed write got %d bytes out, reported %d", fw.Took, n)
				}
				c.Label("failed write")
			}
			var out bytes.Buffer
			var n int
			var sc anansi.Screen
			var err error
			switch rapid.IntRange(0, 2).Draw(t, "to") {
			case 0:
				n, sc, err = anansi.WriteGrid(writer{&out}, g, prior, sty.List(ss)...)
				if n != out.Len() {
					t.Fatalf("wrote %d bytes, reported %d", out.Len(), n)
				}
			case 1:
				var b anansi.Buffer
				b.WriteString("")
				n, sc, err = anansi.WriteGrid(&b, g, prior, sty.List(ss)...)
				if n != b.Len() {
					t.Fatalf("wrote %d bytes, reported %d", b.Len(), n)
				}
				b.WriteTo(&out)
			case 2:
				vc = anansi.VirtualCursor{}
				_, sc, err = anansi.WriteGrid(&vc, g, prior, sty.List(ss)...)
				vc.WriteTo(&out)
			}
			if err != nil {
				t.Fatalf("writing: %v", err)
			}
			c.Logf("%q", out.String())
			if shown != nil && changed == 0 && out.Len() > 0 {
				t.Fatalf("wrote %q though nothing changed", out.String())
			}
			term.OnPrint = func(x, y int) {
				if shown != nil && shown[(y-1)*w+x-1] == want[(y-1)*w+x-1] {
					t.Fatalf("unchanged cell (%d,%d) printed again", x, y)
				}
			}
			term.Write(out.Bytes())
			term.OnPrint = nil
			if len(term.Trace) > 0 || !term.Idle() || term.Scrolls > 0 {
				t.Fatalf("unexpected output: %q, scrolled %d", term.Trace, term.Scrolls)
			}
			for i, cell := range want {
				if got := term.Cells[i]; got != (vt.Cell{R: cell.R, A: gen.Back(cell.A)}) {
					t.Fatalf("cell (%d,%d) shows %q %v, should be %q %v (grid has %q %v)\n%v", i%w+1, i/w+1, got.R, got.A, cell.R, cell.A, f.Cells[i].R, f.Cells[i].A, term)
				}
			}
			if sc.Cursor.Valid() && (term.X != sc.Cursor.X || term.Y != sc.Cursor.Y || term.Pending) {
				t.Fatalf("cursor at (%d,%d) pending %v, returned %v", term.X, term.Y, term.Pending, sc.Cursor)
			}
			if gen.Back(sc.Cursor.Attr) != term.A {
				t.Fatalf("rendition %v, returned %v", term.A, sc.Cursor.Attr)
			}
			if err := f.Check(g); err != nil {
				t.Fatalf("the grid changed: %v", err)
			}
			prior.Cursor = sc.Cursor
			shown = want
		}
	})
}

const bitmapRule = "random (sub-)bitmaps written with style compositions to a plain writer, a Buffer or a virtual cursor; non-trivial = two or more lines with a style"

// TestBitmap: the terminal shows the styled runes line by line.
func TestBitmap(t *testing.T) {
	hx.Check(t, 20000, bitmapRule, func(t *rapid.T, c *hx.Case) {
		w, h := rapid.IntRange(1, 9).Draw(t, "w"), rapid.IntRange(1, 14).Draw(t, "h")
		var bi anansi.Bitmap
		bi.Resize(image.Pt(w, h))
		seed := rapid.Uint64().Draw(t, "bits")
		for i := range bi.Bit {
			bi.Bit[i] = seed>>(uint(i)%64)&1 != 0
			seed += seed << 7
		}
		if rapid.Bool().Draw(t, "sub") {
			bi = bi.SubAt(image.Pt(rapid.IntRange(0, w-1).Draw(t, "x"), rapid.IntRange(0, h-1).Draw(t, "y")))
			bi = bi.SubSize(image.Pt(rapid.IntRange(1, w).Draw(t, "sw"), rapid.IntRange(1, h).Draw(t, "sh")))
		}
		ss, all := sty.Some(t, sty.Static, 3)
		rw, rh := (bi.Rect.Dx()+1)/2, (bi.Rect.Dy()+3)/4
		c.Logf("%v of %dx%d with %s", bi.Rect, w, h, all.Name)
		c.NT(rh > 1 && all.F != nil)
		var out bytes.Buffer
		var n int
		var err error
		switch rapid.IntRange(0, 2).Draw(t, "to") {
		case 0:
			n, err = anansi.WriteBitmap(writer{&out}, bi, sty.List(ss)...)
			if n != out.Len() {
				t.Fatalf("wrote %d bytes, reported %d", out.Len(), n)
			}
		case 1:
			var b anansi.Buffer
			n, err = anansi.WriteBitmap(&b, bi, sty.List(ss)...)
			if n != b.Len() {
				t.Fatalf("wrote %d bytes, reported %d", b.Len(), n)
			}
			b.WriteTo(&out)
		case 2:
			var vc anansi.VirtualCursor
			_, err = anansi.WriteBitmap(&vc, bi, sty.List(ss)...)
			vc.WriteTo(&out)
		}
		if err != nil {
			t.Fatalf("writing: %v", err)
		}
		c.Logf("%q", out.String())
		fw := &failing{Left: rapid.IntRange(0, out.Len()-1).Draw(t, "takes")}
		if n, err := anansi.WriteBitmap(fw, bi, sty.List(ss)...); err != errSink {
			t.Fatalf("failed write reports %v", err)
		} else if n != fw.Took {
			t.Fatalf("a failed write got %d bytes out, reported %d", fw.Took, n)
		}
		term := vt.New(rw+rapid.IntRange(1, 3).Draw(t, "wide"), rh+rapid.IntRange(0, 2).Draw(t, "tall"))
		term.Write(out.Bytes())
		if len(term.Trace) > 0 || !term.Idle() || term.Scrolls > 0 {
			t.Fatalf("unexpected output: %q, scrolled %d", term.Trace, term.Scrolls)
		}
		for y := 1; y <= term.H; y++ {
			for x := 1; x <= term.W; x++ {
				want := grd.Cell{R: ' '}
				if x <= rw && y <= rh {
					want.R = bi.Rune(bi.Rect.Min.Add(image.Pt(2*(x-1), 4*(y-1))))
					if all.F != nil {
						want = all.F(x, y, grd.Cell{}, want)
					}
					if want.R == 0 {
						want = grd.Cell{R: ' '}
					}
				}
				if got := term.At(x, y); got != (vt.Cell{R: want.R, A: gen.Back(want.A)}) {
					t.Fatalf("cell (%d,%d) shows %q %v, should be %q %v\n%v", x, y, got.R, got.A, want.R, want.A, term)
				}
			}
		}
	})
}
