package c15

import (
	"image"
	"testing"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"pgregory.net/rapid"

	"verif/grd"
	"verif/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

type view struct {
	g anansi.Grid
	f *grd.Full
	r grd.R
}

func (v view) sub() bool { return v.r.W != v.f.W || v.r.H != v.f.H }

func size(t *rapid.T, name string) (int, int) {
	lo := 1
	if rapid.IntRange(0, 9).Draw(t, name+"empty") == 0 {
		lo = 0
	}
	return rapid.IntRange(lo, 7).Draw(t, name+"w"), rapid.IntRange(lo, 6).Draw(t, name+"h")
}

const rule = "random histories of sub-grids of sub-grids, cell writes, clears, resizes (sub and full) and comparisons over two grids, with all storage checked after each; non-trivial = writing or clearing through a proper sub-grid"

// TestViews: sub-grids are windows on the one full grid, nothing happens
// outside of them.
func TestViews(t *testing.T) {
	hx.Check(t, 25000, rule, func(t *rapid.T, c *hx.Case) {
		var vs []view
		add := func(g anansi.Grid, f *grd.Full) {
			vs = append(vs, view{g, f, grd.R{X: 1, Y: 1, W: f.W, H: f.H}})
		}
		for i := 0; i < 2; i++ {
			w, h := size(t, "g")
			if i == 1 && rapid.Bool().Draw(t, "same") {
				// a copy, elsewhere
				o := vs[0]
				f := &grd.Full{W: o.f.W, H: o.f.H, Cells: append([]grd.Cell(nil), o.f.Cells...)}
				g := anansi.Grid{Stride: f.W, Rect: o.g.Rect, Rune: append([]rune(nil), o.g.Rune...), Attr: append([]ansi.SGRAttr(nil), o.g.Attr...)}
				add(g, f)
				break
			}
			g, f := grd.New(t, w, h)
			if w+h > 0 && rapid.IntRange(0, 4).Draw(t, "fresh") == 0 {
				f = &grd.Full{W: w, H: h, Cells: make([]grd.Cell, w*h)}
				g = anansi.Grid{}
				if ch := g.Resize(image.Pt(w, h)); !ch {
					t.Fatalf("resizing a new grid to %dx%d reports %v", w, h, ch)
				}
			}
			add(g, f)
		}
		for n := rapid.IntRange(2, 20).Draw(t, "n"); n > 0; n-- {
			i := rapid.IntRange(0, len(vs)-1).Draw(t, "view")
			v := vs[i]
			switch op := rapid.IntRange(0, 9).Draw(t, "op"); op {
			case 0, 1: // sub
				r, in, ok := grd.Sub(t, v.r)
				var g anansi.Grid
				switch rapid.IntRange(0, 2).Draw(t, "how") {
				case 0:
					g = v.g.SubRect(r.Rect())
				case 1:
					r.W, r.H = v.r.X+v.r.W-r.X, v.r.Y+v.r.H-r.Y
					in, ok = grd.Clip(v.r, r)
					g = v.g.SubAt(r.Rect().Min)
				case 2:
					r.X, r.Y = v.r.X, v.r.Y
					in, ok = grd.Clip(v.r, r)
					g = v.g.SubSize(image.Pt(r.W, r.H))
				}
				c.Logf("sub %v of %v: %v", r, v.r, in)
				if !ok {
					if g.Rect != ansi.ZR || g.Rune != nil || g.Attr != nil || g.Stride != 0 {
						t.Fatalf("sub-grid %v of %v is %v", r, v.r, g.Rect)
					}
					break
				}
				vs = append(vs, view{g, v.f, in})
			case 2, 3: // write
				if v.r.W == 0 || v.r.H == 0 {
					break
				}
				x, y := v.r.X+rapid.IntRange(0, v.r.W-1).Draw(t, "x"), v.r.Y+rapid.IntRange(0, v.r.H-1).Draw(t, "y")
				cell := grd.GenCell(t)
				o, ok := v.g.CellOffset(ansi.Pt(x, y))
				if !ok || o < 0 || o >= len(v.g.Rune) {
					t.Fatalf("cell (%d,%d) of %v is at %d, %v", x, y, v.r, o, ok)
				}
				v.g.Rune[o], v.g.Attr[o] = cell.R, cell.A
				*v.f.At(x, y) = cell
				c.Logf("write %d,%d in %v", x, y, v.r)
				c.NT(v.sub())
			case 4: // clear
				v.g.Clear()
				for y := 0; y < v.r.H; y++ {
					for x := 0; x < v.r.W; x++ {
						*v.f.At(v.r.X+x, v.r.Y+y) = grd.Cell{}
					}
				}
				c.Logf("clear %v", v.r)
				c.NT(v.sub() && v.r.W > 0 && v.r.H > 0)
			case 5: // resize
				w, h := rapid.IntRange(0, 9).Draw(t, "w"), rapid.IntRange(0, 8).Draw(t, "h")
				if !v.sub() {
					was := v.r
					ch := v.g.Resize(image.Pt(w, h))
					c.Logf("resize full %v to %dx%d", was, w, h)
					if ch != (w != was.W || h != was.H) {
						t.Fatalf("resize from %v to %dx%d reports %v", was, w, h, ch)
					}
					if !ch {
						break
					}
					if len(v.g.Rune) != w*h || len(v.g.Attr) != w*h {
						t.Fatalf("resize from %v to %dx%d has %d runes, %d attributes", was, w, h, len(v.g.Rune), len(v.g.Attr))
					}
					// other views of the grid are void, contents are unspecified
					var keep []view
					for _, o := range vs {
						if o.f != v.f {
							keep = append(keep, o)
						}
					}
					vs = keep
					f := &grd.Full{W: w, H: h, Cells: make([]grd.Cell, w*h)}
					v.g.Clear()
					add(v.g, f)
					break
				}
				room := grd.R{X: v.r.X, Y: v.r.Y, W: v.f.W + 1 - v.r.X, H: v.f.H + 1 - v.r.Y}
				nr := grd.R{X: v.r.X, Y: v.r.Y, W: min(w, room.W), H: min(h, room.H)}
				ch := v.g.Resize(image.Pt(w, h))
				c.Logf("resize %v to %dx%d: %v", v.r, w, h, nr)
				if ch != (nr != v.r) {
					t.Fatalf("resize of %v in %dx%d to %dx%d reports %v", v.r, v.f.W, v.f.H, w, h, ch)
				}
				v.r = nr
				vs[i] = v
			case 6: // full
				g := v.g.Full()
				c.Logf("full of %v", v.r)
				vs = append(vs, view{g, v.f, grd.R{X: 1, Y: 1, W: v.f.W, H: v.f.H}})
			case 7, 8: // compare
				j := rapid.IntRange(0, len(vs)-1).Draw(t, "other")
				o := vs[j]
				if rapid.Bool().Draw(t, "like") {
					if in, ok := grd.Clip(grd.R{X: 1, Y: 1, W: o.f.W, H: o.f.H}, v.r); ok {
						o.g, o.r = o.g.Full().SubRect(v.r.Rect()), in
					}
				}
				zero := rapid.SampledFrom([]rune{0, ' ', 'x'}).Draw(t, "zero")
				want := v.r.W == o.r.W && v.r.H == o.r.H
				for y := 0; want && y < v.r.H; y++ {
					for x := 0; want && x < v.r.W; x++ {
						a, b := *v.f.At(v.r.X+x, v.r.Y+y), *o.f.At(o.r.X+x, o.r.Y+y)
						if a.R == 0 {
							a.R = zero
						}
						if b.R == 0 {
							b.R = zero
						}
						want = a == b
					}
				}
				c.Logf("compare %v with %v: %v", v.r, o.r, want)
				c.LabelIf(want, "equal")
				if got := v.g.Eq(o.g, zero); got != want {
					t.Fatalf("%v equals %v (0 is %q): %v", v.f.Dump(v.r), o.f.Dump(o.r), zero, got)
				}
			case 9: // offsets
				seen := map[int]bool{}
				x0, y0 := v.r.X-2, v.r.Y-2
				for y := y0; y < v.r.Y+v.r.H+3; y++ {
					for x := x0; x < v.r.X+v.r.W+3; x++ {
						p := ansi.Point{Point: image.Pt(x, y)}
						in := x >= v.r.X && x < v.r.X+v.r.W && y >= v.r.Y && y < v.r.Y+v.r.H
						o, ok := v.g.CellOffset(p)
						if ok != in {
							t.Fatalf("(%d,%d) in %v: %v", x, y, v.r, ok)
						}
						if !ok {
							continue
						}
						if seen[o] || o < 0 || o >= len(v.g.Rune) {
							t.Fatalf("(%d,%d) of %v is at %d, twice or out of range", x, y, v.r, o)
						}
						seen[o] = true
						if fo, ok := v.g.Full().CellOffset(p); !ok || fo != o {
							t.Fatalf("(%d,%d) is at %d in %v but at %d in full", x, y, o, v.r, fo)
						}
					}
				}
			}
			for _, v := range vs {
				if v.g.Bounds() != v.r.Rect() || v.g.Rect != v.r.Rect() {
					t.Fatalf("view %v has bounds %v", v.r, v.g.Bounds())
				}
				if v.g.IsSub() != v.sub() {
					t.Fatalf("view %v of %dx%d is sub: %v", v.r, v.f.W, v.f.H, v.g.IsSub())
				}
				if full := v.g.Full(); full.Rect != (grd.R{X: 1, Y: 1, W: v.f.W, H: v.f.H}).Rect() || full.IsSub() {
					t.Fatalf("full grid of %v is %v, should be %dx%d", v.r, full.Rect, v.f.W, v.f.H)
				}
				if err := v.f.Check(v.g); err != nil {
					t.Fatalf("view %v: %v", v.r, err)
				}
				for y := 0; y < v.r.H; y++ {
					for x := 0; x < v.r.W; x++ {
						o, ok := v.g.CellOffset(ansi.Pt(v.r.X+x, v.r.Y+y))
						cell := *v.f.At(v.r.X+x, v.r.Y+y)
						if !ok || v.g.Rune[o] != cell.R || v.g.Attr[o] != cell.A {
							t.Fatalf("cell (%d,%d) of %v: offset %d %v", v.r.X+x, v.r.Y+y, v.r, o, ok)
						}
					}
				}
			}
		}
	})
}
