package c16

import (
	"testing"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"pgregory.net/rapid"

	"verif/grd"
	"verif/hx"
	"verif/sty"
)

func TestMain(m *testing.M) { hx.Main(m) }

// sub takes a random sub-grid, sometimes the whole.
func sub(t *rapid.T, g anansi.Grid, f *grd.Full) (anansi.Grid, grd.R) {
	all := grd.R{X: 1, Y: 1, W: f.W, H: f.H}
	if rapid.IntRange(0, 2).Draw(t, "whole") == 0 {
		return g, all
	}
	r, in, ok := grd.Sub(t, all)
	if !ok {
		return anansi.Grid{}, grd.R{}
	}
	return g.SubRect(r.Rect()), in
}

const rule = "random (sub-)grids drawn with random style compositions, source and destination also disjoint parts of one grid; all destination storage is checked; non-trivial = at least 2x2 cells drawn with an effective style, or onto a proper sub-grid"

// TestDraw: drawing does to each cell what its styles say, and nothing else.
func TestDraw(t *testing.T) {
	hx.Check(t, 40000, rule, func(t *rapid.T, c *hx.Case) {
		size := rapid.IntRange(0, 7)
		dg, df := grd.New(t, size.Draw(t, "dw"), size.Draw(t, "dh"))
		sg, sf := dg, df
		shared := rapid.IntRange(0, 4).Draw(t, "shared") == 0
		if !shared {
			sg, sf = grd.New(t, size.Draw(t, "sw"), size.Draw(t, "sh"))
		}
		dst, dr := sub(t, dg, df)
		src, sr := sub(t, sg, sf)
		if shared {
			apart := dr.X+dr.W <= sr.X || sr.X+sr.W <= dr.X || dr.Y+dr.H <= sr.Y || sr.Y+sr.H <= dr.Y
			if !apart {
				return
			}
		}
		before := append([]grd.Cell(nil), sf.Cells...)
		ss, all := sty.Some(t, sty.Any, 4)
		c.Logf("%v of %dx%d onto %v of %dx%d with %v", sr, sf.W, sf.H, dr, df.W, df.H, all.Name)
		was := df.Dump(dr)
		w, h := min(dr.W, sr.W), min(dr.H, sr.H)
		c.NT(w > 1 && h > 1 && (all.F != nil || dr.W != df.W))
		c.LabelIf(all.F == nil, "opaque")
		c.LabelIf(shared, "shared")
		c.LabelIf(sr.W > dr.W && w > 0, "cut on the right")
		c.LabelIf(sr.H > dr.H && w > 0 && h > 0, "cut at the bottom")
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				d := df.At(dr.X+x, dr.Y+y)
				cell := before[(sr.Y+y-1)*sf.W+sr.X+x-1]
				if all.F != nil {
					cell = all.F(dr.X+x, dr.Y+y, *d, cell)
					if cell.R == 0 {
						continue
					}
				}
				*d = cell
			}
		}
		anansi.DrawGrid(dst, src, sty.List(ss)...)
		if err := df.Check(dg); err != nil {
			t.Fatalf("drawing %s with %s onto %s: %v", sf.Dump(sr), all.Name, was, err)
		}
		if !shared {
			if err := sf.Check(sg); err != nil {
				t.Fatalf("the source changed: %v", err)
			}
		}
		for _, s := range ss {
			if s.Calls == nil {
				continue
			}
			for _, p := range *s.Calls {
				if p.X < dr.X || p.X >= dr.X+w || p.Y < dr.Y || p.Y >= dr.Y+h {
					t.Fatalf("style called for %v, drawing %dx%d at %v", p, w, h, dr)
				}
			}
		}
	})
}

const styleRule = "random trees of combined styles, all of them evaluated after all are built; non-trivial = two or more effective styles in a combination"

// TestStyles: a combination applies its styles in order, whatever else is built
// from it, and the basic styles do as documented.
func TestStyles(t *testing.T) {
	hx.Check(t, 40000, styleRule, func(t *rapid.T, c *hx.Case) {
		var ss []sty.Style
		for n := rapid.IntRange(1, 4).Draw(t, "n"); n > 0; n-- {
			ss = append(ss, sty.One(t, sty.Any))
		}
		for n := rapid.IntRange(1, 5).Draw(t, "combos"); n > 0; n-- {
			var in []sty.Style
			eff := 0
			for k := rapid.IntRange(0, 4).Draw(t, "k"); k > 0; k-- {
				i := rapid.IntRange(-1, len(ss)-1).Draw(t, "i")
				if i < 0 {
					in = append(in, sty.Noop)
					continue
				}
				in = append(in, ss[i])
				if ss[i].F != nil {
					eff++
				}
			}
			cb := sty.Combine(in...)
			if cb.F == nil && cb.S != anansi.NoopStyle {
				t.Fatalf("%s is %v", cb.Name, cb.S)
			}
			c.NT(eff > 1)
			ss = append(ss, cb)
		}
		for k := 0; k < 4; k++ {
			x, y := rapid.IntRange(1, 9).Draw(t, "x"), rapid.IntRange(1, 9).Draw(t, "y")
			p, cell := grd.GenCell(t), grd.GenCell(t)
			if rapid.IntRange(0, 3).Draw(t, "special") == 0 {
				cell.R = rapid.SampledFrom([]rune{0, ' ', '.', 'x', '\u2800', '⣿'}).Draw(t, "r")
			}
			for _, s := range ss {
				if s.F == nil {
					// no effect on runes; what it says of the rendition is for DrawGrid
					if r, _ := s.S.Style(ansi.Pt(x, y), p.R, cell.R, p.A, cell.A); r != cell.R {
						t.Fatalf("%s gives %q for %q", s.Name, r, cell.R)
					}
					continue
				}
				want := s.F(x, y, p, cell)
				r, a := s.S.Style(ansi.Pt(x, y), p.R, cell.R, p.A, cell.A)
				if r != want.R || a != want.A {
					t.Fatalf("%s of %q %v over %q %v at %d,%d is %q %v, should be %q %v", s.Name, cell.R, cell.A, p.R, p.A, x, y, r, a, want.R, want.A)
				}
			}
			c.Logf("%q %v over %q %v: %v", cell.R, cell.A, p.R, p.A, ss[len(ss)-1].Name)
		}
	})
}
