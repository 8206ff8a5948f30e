package c33

import (
	"fmt"
	"testing"
	"unicode/utf8"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	anansitest "github.com/jcorbin/anansi/test"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/grd"
	"verif/hx"
	"verif/ops"
	"verif/ref"
	"verif/vt"
)

func TestMain(m *testing.M) { hx.Main(m) }

// cells are what a terminal would show of the lines, one below the other, the
// rendition going on from line to line; only SGR sequences may be among them.
func cells(lines []string) (rows [][]vt.Cell, err error) {
	var a vt.Attr
	for _, l := range lines {
		evs, left := ref.Tokenize([]byte(l))
		if left != 0 {
			return nil, fmt.Errorf("%q ends within a sequence", l)
		}
		term := vt.New(len(evs)+2, 1)
		term.A = a
		n := 0
		for _, ev := range evs {
			switch {
			case ev.ID == rune(ansi.SGR):
			case ansi.Escape(ev.ID).IsEscape(), ev.ID < 0x20, 0x7F <= ev.ID && ev.ID < 0xA0:
				return nil, fmt.Errorf("%q has %v in it", l, ev)
			default:
				n++
			}
		}
		term.Write([]byte(l))
		a = term.A
		row := make([]vt.Cell, n)
		for i := range row {
			row[i] = term.At(1+i, 1)
		}
		rows = append(rows, row)
	}
	return rows, nil
}

func sub(t *rapid.T, g anansi.Grid, r grd.R) (anansi.Grid, grd.R) {
	for n := rapid.IntRange(0, 2).Draw(t, "subs"); n > 0; n-- {
		want, in, ok := grd.Sub(t, r)
		if !ok || in.W < 1 || in.H < 1 {
			continue
		}
		g, r = g.SubRect(want.Rect()), in
	}
	return g, r
}

const gridRule = "grids and sub-grids of all kinds of cells turned into lines, rows and control strings; non-trivial = a sub-grid narrower than its grid, of two rows or more, with two renditions or more"

// TestLines: the lines and rows of a grid have its cells, and change nothing.
func TestLines(t *testing.T) {
	hx.Check(t, 6000, gridRule, func(t *rapid.T, c *hx.Case) {
		w, h := rapid.IntRange(0, 7).Draw(t, "w"), rapid.IntRange(0, 5).Draw(t, "h")
		if w == 0 || h == 0 {
			w, h = 0, 0
		}
		g, f := grd.New(t, w, h)
		// more often than not, cells differ a little from the one before
		for i := 1; i < len(f.Cells); i++ {
			a := gen.Back(f.Cells[i-1].A)
			switch rapid.IntRange(0, 7).Draw(t, "near") {
			case 0:
				a.Bold = !a.Bold
			case 1:
				a.Neg = !a.Neg
			case 2:
				a.FG = vt.Idx(1)
			case 3:
				a.FG = vt.Color{}
			case 4:
				a.BG = vt.Color{}
			default:
				continue
			}
			f.Cells[i].A = gen.SGR(a)
			g.Attr[i] = f.Cells[i].A
		}
		s, r := sub(t, g, grd.R{X: 1, Y: 1, W: w, H: h})
		fill := gen.Rune().Draw(t, "fill")
		c.Logf("%v of %dx%d, %q for unset: %s", r, w, h, fill, f.Dump(r))
		at := func(x, y int) grd.Cell { return *f.At(r.X+x, r.Y+y) }
		or := func(a, b rune) rune {
			if a == 0 {
				return b
			}
			return a
		}

		lines := anansitest.GridLines(s, fill)
		if err := f.Check(g); err != nil {
			t.Fatalf("GridLines changed the grid: %v", err)
		}
		got, err := cells(lines)
		if err != nil {
			t.Fatalf("GridLines: %v", err)
		}
		if len(got) != r.H {
			t.Fatalf("GridLines: %d lines %q", len(got), lines)
		}
		attrs := map[ansi.SGRAttr]bool{}
		for y, row := range got {
			if len(row) != r.W {
				t.Fatalf("GridLines: line %d %q shows %d cells", y, lines[y], len(row))
			}
			for x, cl := range row {
				attrs[at(x, y).A] = true
				if want := (vt.Cell{R: or(at(x, y).R, fill), A: gen.Back(at(x, y).A)}); cl != want {
					t.Fatalf("GridLines: cell %d of line %d %q shows as %v, should be %v", x, y, lines[y], cl, want)
				}
			}
		}

		// parsing them gives the cells back
		if r.W > 0 && r.H > 0 {
			back := anansitest.ParseGridLines(anansitest.GridLines(s, 0))
			if back.Bounds() != (grd.R{X: 1, Y: 1, W: r.W, H: r.H}).Rect() || back.Stride != r.W || len(back.Rune) != r.W*r.H || len(back.Attr) != r.W*r.H {
				t.Fatalf("parsed back as %v stride %d", back.Bounds(), back.Stride)
			}
			for i := range back.Rune {
				x, y := i%r.W, i/r.W
				if back.Rune[i] != at(x, y).R || gen.Back(back.Attr[i]) != gen.Back(at(x, y).A) {
					t.Fatalf("cell %d,%d parsed back as %q %v, was %v", x, y, back.Rune[i], back.Attr[i], at(x, y))
				}
			}
		}

		if r.W < w { // known: it takes no sub-grids; their cells as a grid, then
			own := anansi.Grid{Stride: r.W, Rect: (grd.R{X: 1, Y: 1, W: r.W, H: r.H}).Rect()}
			for i := 0; i < r.W*r.H; i++ {
				own.Rune = append(own.Rune, at(i%r.W, i/r.W).R)
				own.Attr = append(own.Attr, at(i%r.W, i/r.W).A)
			}
			s = own
		}
		rs, as := anansitest.GridRowData(s)
		if len(rs) != r.H || len(as) != r.H {
			t.Fatalf("GridRowData: %d and %d rows", len(rs), len(as))
		}
		for y := range rs {
			if len(rs[y]) != r.W || len(as[y]) != r.W {
				t.Fatalf("GridRowData: row %d has %d runes, %d attributes", y, len(rs[y]), len(as[y]))
			}
			for x := range rs[y] {
				if rs[y][x] != at(x, y).R || as[y][x] != at(x, y).A {
					t.Fatalf("GridRowData: cell %d,%d is %q %v, was %v", x, y, rs[y][x], as[y][x], at(x, y))
				}
			}
		}

		for y := range rs { // known: it writes into them
			rs[y] = append([]rune(nil), rs[y]...)
		}
		text := anansitest.RunesToLines(rs, fill)
		if err := f.Check(g); err != nil {
			t.Fatalf("RunesToLines changed the grid: %v", err)
		}
		if len(text) != r.H {
			t.Fatalf("RunesToLines: %q", text)
		}
		for y := range text {
			want := ""
			for x := 0; x < r.W; x++ {
				want += string(or(at(x, y).R, fill))
			}
			if text[y] != want {
				t.Fatalf("RunesToLines: line %d is %q, should be %q", y, text[y], want)
			}
		}

		ctls := anansitest.AttrsToCtls(as)
		if err := f.Check(g); err != nil {
			t.Fatalf("AttrsToCtls changed the grid: %v", err)
		}
		got, err = cells(ctls)
		if err != nil {
			t.Fatalf("AttrsToCtls: %v", err)
		}
		if len(got) != r.H {
			t.Fatalf("AttrsToCtls: %q", ctls)
		}
		for y, row := range got {
			if len(row) != r.W {
				t.Fatalf("AttrsToCtls: line %d %q shows %d cells", y, ctls[y], len(row))
			}
			for x, cl := range row {
				if want := (vt.Cell{R: ' ', A: gen.Back(at(x, y).A)}); cl != want {
					t.Fatalf("AttrsToCtls: cell %d of line %d %q shows as %v, should be %v", x, y, ctls[y], cl, want)
				}
			}
		}
		c.LabelIf(w == 0, "empty")
		c.LabelIf(r.W < w, "sub")
		c.NT(r.W > 0 && r.W < w && r.H > 1 && len(attrs) > 1)
	})
}

const parseRule = "lines of runes and SGR sequences (in any form and order), sometimes uneven, or with a control or other sequence in them; non-trivial = two lines or more with a rendition that goes on from one to the next, or lines that are to be refused"

// TestParse: lines parse to the cells a terminal would show, or not at all.
func TestParse(t *testing.T) {
	hx.Check(t, 8000, parseRule, func(t *rapid.T, c *hx.Case) {
		w, h := rapid.IntRange(1, 6).Draw(t, "w"), rapid.IntRange(1, 5).Draw(t, "h")
		bad := ""
		badLine, badCol := -1, 0
		if h > 0 && rapid.IntRange(0, 3).Draw(t, "bad") == 0 {
			bad = rapid.SampledFrom([]string{"\n", "\t", "\a", "\x7f", "\u0084", "\x1b[H", "\x1b[2;3H", "\u009b5C", "\x1b7", "\x1b[?25l", "\x1b[7x", "uneven"}).Draw(t, "what")
			badLine, badCol = rapid.IntRange(0, h-1).Draw(t, "line"), rapid.IntRange(0, w).Draw(t, "col")
			if bad == "uneven" && h < 2 {
				bad, badLine = "", -1
			}
		}
		var lines []string
		var want []vt.Cell
		var a vt.Attr
		on := false
		sgr := func() (s string) {
			for rapid.IntRange(0, 3).Draw(t, "sgr") == 0 {
				o := ops.Op{A: gen.Attr().Draw(t, "a"), Fresh: rapid.Bool().Draw(t, "fresh")}
				if ps := ops.SGRParams(t, o.A, o.Fresh); ps != "" || o.Fresh {
					a = ops.Merge(a, o)
					intro := "\x1b["
					if rapid.IntRange(0, 5).Draw(t, "c1") == 0 {
						intro = "\u009b"
					}
					s += intro + ps + "m"
				}
			}
			return s
		}
		for y := 0; y < h; y++ {
			l := ""
			on = on || y > 0 && a != vt.Attr{}
			n := w
			if y == badLine && bad == "uneven" {
				n += rapid.SampledFrom([]int{1, 2}).Draw(t, "more")
				if n > 2 && rapid.Bool().Draw(t, "less") {
					n = w - 1
				}
			}
			for x := 0; x < n; x++ {
				l += sgr()
				if y == badLine && x == badCol && bad != "uneven" {
					l += bad
				}
				r := gen.Rune().Draw(t, "r")
				if rapid.IntRange(0, 9).Draw(t, "unset") == 0 {
					r = 0
				}
				l += string(r)
				want = append(want, vt.Cell{R: r, A: a})
			}
			l += sgr()
			if y == badLine && badCol == w && bad != "uneven" {
				l += bad
			}
			if !utf8.ValidString(l) {
				panic("HX-INFRA invalid line generated")
			}
			lines = append(lines, l)
		}
		c.Logf("%q", lines)
		var g anansi.Grid
		boom := func() (boom interface{}) {
			defer func() { boom = recover() }()
			g = anansitest.ParseGridLines(lines)
			return nil
		}()
		if bad != "" {
			if boom == nil {
				t.Fatalf("%q parsed in spite of %q", lines, bad)
			}
			if _, ok := boom.(error); ok { // runtime errors are; what it panics with is text
				t.Fatalf("%q with %q: %v", lines, bad, boom)
			}
			c.Label("refused")
			c.NT(true)
			return
		}
		if boom != nil {
			t.Fatalf("%q: %v", lines, boom)
		}
		if b := g.Bounds(); b.Dx() != w && h > 0 || b.Dy() != h || len(g.Rune) != w*h || len(g.Attr) != w*h || g.Rect.Min != ansi.Pt(1, 1) {
			t.Fatalf("%q parsed as %v, with %d runes", lines, b, len(g.Rune))
		}
		for i, cl := range want {
			off, ok := g.CellOffset(ansi.Pt(1+i%w, 1+i/w))
			if !ok {
				t.Fatalf("%q: cell %d not in %v", lines, i, g.Bounds())
			}
			if g.Rune[off] != cl.R || gen.Back(g.Attr[off]) != cl.A {
				t.Fatalf("%q: cell %d is %q %v, should be %v", lines, i, g.Rune[off], g.Attr[off], cl)
			}
		}
		c.NT(h > 1 && w > 0 && on)
	})
}

// TestKnown: what is known not to hold.
func TestKnown(t *testing.T) {
	try := func(f func() bool) (broken bool) {
		defer func() {
			if recover() != nil {
				broken = true
			}
		}()
		return f()
	}
	grid := func() anansi.Grid { return anansitest.ParseGridLines([]string{"abc", "d\x00f"}) }
	hx.Known(t, "C33", "sub-rows", try(func() bool {
		var r ansi.Rectangle
		r.Min.X, r.Min.Y, r.Max.X, r.Max.Y = 2, 1, 4, 3
		rs, _ := anansitest.GridRowData(grid().SubRect(r))
		return len(rs) != 2 || string(rs[0]) != "bc" || string(rs[1]) != "\x00f"
	}), "GridRowData of a sub-grid gives rows as wide as the whole grid, or panics")
	hx.Known(t, "C33", "fill-in-place", try(func() bool {
		g := grid()
		rs, _ := anansitest.GridRowData(g)
		anansitest.RunesToLines(rs, '_')
		return g.Rune[4] != 0
	}), "RunesToLines writes what stands for unset runes into the rows it is given, so into their grid")
	hx.Known(t, "C33", "no-cells", try(func() bool {
		return anansitest.ParseGridLines(nil).Bounds().Dy() != 0
	}) || try(func() bool {
		return anansitest.ParseGridLines([]string{"", ""}).Bounds().Dy() != 2
	}), "ParseGridLines panics for no lines, and for empty ones")
}
