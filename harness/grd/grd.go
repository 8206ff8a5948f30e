// Package grd generates grids along with an independent model of their cells.
package grd

import (
	"fmt"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"pgregory.net/rapid"

	"verif/gen"
)

// Cell is a grid cell.
type Cell struct {
	R rune
	A ansi.SGRAttr
}

// Full is the model of a full grid: its cells by row.
type Full struct {
	W, H  int
	Cells []Cell
}

// At returns the cell at a 1-based position.
func (f *Full) At(x, y int) *Cell { return &f.Cells[(y-1)*f.W+x-1] }

// R is a rectangle: 1-based minimum, size.
type R struct{ X, Y, W, H int }

// Rect returns it as the library's.
func (r R) Rect() ansi.Rectangle {
	var a ansi.Rectangle
	a.Min.X, a.Min.Y, a.Max.X, a.Max.Y = r.X, r.Y, r.X+r.W, r.Y+r.H
	return a
}

func (r R) String() string { return fmt.Sprintf("%dx%d@%d,%d", r.W, r.H, r.X, r.Y) }

// GenCell draws a cell: often unset, or with only one half set.
func GenCell(t *rapid.T) (c Cell) {
	k := rapid.IntRange(0, 7).Draw(t, "cell")
	if k != 0 && k != 1 {
		c.R = gen.Rune().Draw(t, "r")
	}
	if k&1 == 1 {
		c.A = gen.SGR(gen.Attr().Draw(t, "a"))
	}
	if k == 6 {
		c.R = ' '
	}
	return c
}

// New draws a grid of the size, and its model. The spare capacity of its
// slices is arbitrary.
func New(t *rapid.T, w, h int) (anansi.Grid, *Full) {
	f := &Full{W: w, H: h, Cells: make([]Cell, w*h)}
	base := GenCell(t)
	rs := make([]rune, w*h, w*h+rapid.IntRange(0, 9).Draw(t, "spareR"))
	as := make([]ansi.SGRAttr, w*h, w*h+rapid.IntRange(0, 9).Draw(t, "spareA"))
	for i := range f.Cells {
		f.Cells[i] = base
		if i < 40 && rapid.IntRange(0, 2).Draw(t, "other") != 0 {
			f.Cells[i] = GenCell(t)
		}
		rs[i], as[i] = f.Cells[i].R, f.Cells[i].A
	}
	g := anansi.Grid{Rune: rs, Attr: as, Stride: w}
	g.Rect = R{1, 1, w, h}.Rect()
	return g, f
}

// Sub draws a rectangle to take from a grid with bounds b, possibly reaching
// beyond it, and what is left of it within; ok is false when there is nothing.
func Sub(t *rapid.T, b R) (r, in R, ok bool) {
	r.X = b.X + rapid.IntRange(-1, b.W+1).Draw(t, "x")
	r.Y = b.Y + rapid.IntRange(-1, b.H+1).Draw(t, "y")
	if rapid.IntRange(0, 3).Draw(t, "inside") != 0 {
		r.X, r.Y = b.X, b.Y
		if b.W > 0 {
			r.X += rapid.IntRange(0, b.W-1).Draw(t, "xi")
		}
		if b.H > 0 {
			r.Y += rapid.IntRange(0, b.H-1).Draw(t, "yi")
		}
	}
	r.W = rapid.IntRange(0, b.W+2).Draw(t, "w")
	r.H = rapid.IntRange(0, b.H+2).Draw(t, "h")
	in, ok = Clip(b, r)
	return r, in, ok
}

// Clip is the part of r within b; nothing when r does not start within b.
func Clip(b, r R) (in R, ok bool) {
	if r.X < b.X || r.X >= b.X+b.W || r.Y < b.Y || r.Y >= b.Y+b.H {
		return R{}, false
	}
	in = r
	if in.X+in.W > b.X+b.W {
		in.W = b.X + b.W - in.X
	}
	if in.Y+in.H > b.Y+b.H {
		in.H = b.Y + b.H - in.Y
	}
	return in, true
}

// Dump names the cells of a grid within its bounds.
func (f *Full) Dump(r R) string {
	s := ""
	for y := 0; y < r.H; y++ {
		for x := 0; x < r.W; x++ {
			c := f.At(r.X+x, r.Y+y)
			s += fmt.Sprintf("%q/%v ", c.R, c.A)
		}
		s += "| "
	}
	return s
}

// Check compares all storage of a grid with its model.
func (f *Full) Check(g anansi.Grid) error {
	if len(g.Rune) != len(f.Cells) || len(g.Attr) != len(f.Cells) {
		return fmt.Errorf("storage of %d runes, %d attributes for %dx%d cells", len(g.Rune), len(g.Attr), f.W, f.H)
	}
	for i, c := range f.Cells {
		if g.Rune[i] != c.R || g.Attr[i] != c.A {
			return fmt.Errorf("cell (%d,%d) is %q %v, should be %q %v", i%f.W+1, i/f.W+1, g.Rune[i], g.Attr[i], c.R, c.A)
		}
	}
	return nil
}
