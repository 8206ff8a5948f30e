package c17

import (
	"fmt"
	"image"
	"strings"
	"testing"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"pgregory.net/rapid"

	"verif/grd"
	"verif/hx"
	"verif/sty"
)

func TestMain(m *testing.M) { hx.Main(m) }

// bits models a bitmap's full data.
type bits struct {
	w, h int
	b    []bool
}

func (b *bits) get(r image.Rectangle, x, y int) bool {
	return x >= r.Min.X && x < r.Max.X && y >= r.Min.Y && y < r.Max.Y && b.b[y*b.w+x]
}

// dots is the numbering of braille dots: dot n is bit n-1 of the code point.
var dots = [4][2]uint{{1, 4}, {2, 5}, {3, 6}, {7, 8}}

func (b *bits) rune(r image.Rectangle, x, y int) rune {
	c := rune(0x2800)
	for dy := range dots {
		for dx, n := range dots[dy] {
			if b.get(r, x+dx, y+dy) {
				c += 1 << (n - 1)
			}
		}
	}
	return c
}

func clip(b, r image.Rectangle) (image.Rectangle, bool) {
	in, ok := grd.Clip(grd.R{X: b.Min.X, Y: b.Min.Y, W: b.Dx(), H: b.Dy()}, grd.R{X: r.Min.X, Y: r.Min.Y, W: r.Dx(), H: r.Dy()})
	if !ok {
		return image.Rectangle{}, false
	}
	return image.Rect(in.X, in.Y, in.X+in.W, in.Y+in.H), true
}

func newBits(t *rapid.T, wmax, hmax int) *bits {
	b := &bits{w: rapid.IntRange(1, wmax).Draw(t, "w"), h: rapid.IntRange(0, hmax).Draw(t, "h")}
	seed := rapid.Uint64().Draw(t, "bits")
	density := rapid.IntRange(0, 4).Draw(t, "density")
	b.b = make([]bool, b.w*b.h)
	for i := range b.b {
		seed = seed*6364136223846793005 + 1442695040888963407
		b.b[i] = int(seed>>40)%4 < density
	}
	return b
}

const viewRule = "random histories of setting bits (also out of bounds) through (sub-)bitmaps of sub-bitmaps, resizes and loads, with every bit and rune read back; non-trivial = a bit set through a proper sub-bitmap"

// TestBits: a bitmap holds the bits set, its runes show them.
func TestBits(t *testing.T) {
	hx.Check(t, 8000, viewRule, func(t *rapid.T, c *hx.Case) {
		f := newBits(t, 9, 10)
		var bi anansi.Bitmap
		if rapid.Bool().Draw(t, "load") {
			data := append([]bool(nil), f.b...)
			bi.Load(f.w, data)
		} else {
			bi.Resize(image.Pt(f.w, f.h))
			for i := range f.b {
				bi.Set(image.Pt(i%f.w, i/f.w), f.b[i])
			}
		}
		type view struct {
			bi anansi.Bitmap
			r  image.Rectangle
		}
		vs := []view{{bi, image.Rect(0, 0, f.w, f.h)}}
		for n := rapid.IntRange(1, 10).Draw(t, "n"); n > 0; n-- {
			v := vs[rapid.IntRange(0, len(vs)-1).Draw(t, "view")]
			switch rapid.IntRange(0, 4).Draw(t, "op") {
			case 0, 1:
				at := image.Pt(rapid.IntRange(v.r.Min.X-1, v.r.Max.X+1).Draw(t, "x"), rapid.IntRange(v.r.Min.Y-1, v.r.Max.Y+1).Draw(t, "y"))
				sz := image.Pt(rapid.IntRange(0, v.r.Dx()+2).Draw(t, "w"), rapid.IntRange(0, v.r.Dy()+2).Draw(t, "h"))
				var r image.Rectangle
				var got anansi.Bitmap
				switch rapid.IntRange(0, 2).Draw(t, "how") {
				case 0:
					r = image.Rectangle{Min: at, Max: at.Add(sz)}
					got = v.bi.SubRect(r)
				case 1:
					if at.X > v.r.Max.X || at.Y > v.r.Max.Y {
						at = v.r.Max
					}
					r = image.Rectangle{Min: at, Max: v.r.Max}
					got = v.bi.SubAt(at)
				case 2:
					r = image.Rectangle{Min: v.r.Min, Max: v.r.Min.Add(sz)}
					got = v.bi.SubSize(sz)
				}
				in, ok := clip(v.r, r)
				c.Logf("sub %v of %v: %v", r, v.r, in)
				if !ok {
					if got.Bit != nil || got.Stride != 0 || got.Rect != image.ZR {
						t.Fatalf("sub-bitmap %v of %v is %v", r, v.r, got.Rect)
					}
					break
				}
				if got.Rect != in {
					t.Fatalf("sub-bitmap %v of %v is %v", r, v.r, got.Rect)
				}
				vs = append(vs, view{got, in})
			default:
				p := image.Pt(rapid.IntRange(v.r.Min.X-2, v.r.Max.X+2).Draw(t, "x"), rapid.IntRange(v.r.Min.Y-2, v.r.Max.Y+2).Draw(t, "y"))
				b := rapid.Bool().Draw(t, "b")
				v.bi.Set(p, b)
				c.Logf("set %v of %v to %v", p, v.r, b)
				if p.In(v.r) {
					f.b[p.Y*f.w+p.X] = b
					c.NT(v.r != vs[0].r)
				}
			}
		}
		for _, v := range vs {
			if sz := v.bi.RuneSize(); sz != image.Pt((v.r.Dx()+1)/2, (v.r.Dy()+3)/4) {
				t.Fatalf("rune size of %v is %v", v.r, sz)
			}
			for y := v.r.Min.Y - 2; y < v.r.Max.Y+2; y++ {
				for x := v.r.Min.X - 2; x < v.r.Max.X+2; x++ {
					p := image.Pt(x, y)
					if got := v.bi.Get(p); got != f.get(v.r, x, y) {
						t.Fatalf("bit %v of %v: %v", p, v.r, got)
					}
					want := rune(0x2800)
					if p.In(v.r) {
						want = f.rune(v.r, x, y)
					} else {
						continue
					}
					if got := v.bi.Rune(p); got != want {
						t.Fatalf("rune at %v of %v is %q %x, should be %q", p, v.r, got, got, want)
					}
				}
			}
		}
		if len(vs[0].bi.Bit) != len(f.b) {
			t.Fatalf("%d bits for %dx%d", len(vs[0].bi.Bit), f.w, f.h)
		}
		for i, b := range vs[0].bi.Bit {
			if b != f.b[i] {
				t.Fatalf("bit %d is %v", i, b)
			}
		}
	})
}

const loadRule = "bits of any length loaded with any stride; non-trivial = the last row is incomplete"

// TestLoad: loading completes the last row and leaves the caller's data alone.
func TestLoad(t *testing.T) {
	hx.Check(t, 20000, loadRule, func(t *rapid.T, c *hx.Case) {
		n, stride := rapid.IntRange(0, 40).Draw(t, "n"), rapid.IntRange(1, 12).Draw(t, "stride")
		seed := rapid.Uint64().Draw(t, "bits")
		back := make([]bool, n+rapid.IntRange(0, 20).Draw(t, "spare"))
		for i := range back {
			back[i] = seed>>(uint(i)%64)&1 != 0
		}
		was := append([]bool(nil), back...)
		c.Logf("%d bits by %d", n, stride)
		c.NT(n%stride != 0)
		var bi anansi.Bitmap
		if rapid.Bool().Draw(t, "used") {
			bi.Resize(image.Pt(3, 3))
			bi.Set(image.Pt(1, 1), true)
		}
		bi.Load(stride, back[:n])
		for i := range back {
			if back[i] != was[i] {
				t.Fatalf("loading changed the data at %d of %d", i, n)
			}
		}
		h := (n + stride - 1) / stride
		if bi.Rect != image.Rect(0, 0, stride, h) && !(n == 0 && bi.Rect.Empty()) {
			t.Fatalf("%d bits by %d are %v", n, stride, bi.Rect)
		}
		for y := -1; y <= h; y++ {
			for x := -1; x <= stride; x++ {
				want := false
				if i := y*stride + x; x >= 0 && x < stride && y >= 0 && i < n {
					want = was[i]
				}
				if bi.Get(image.Pt(x, y)) != want {
					t.Fatalf("bit (%d,%d) of %d by %d is %v", x, y, n, stride, !want)
				}
			}
		}
		for y := 0; y < h; y += 4 {
			for x := 0; x < stride; x += 2 {
				f := &bits{stride, h, append(append([]bool(nil), was[:n]...), make([]bool, h*stride-n)...)}
				if got := bi.Rune(image.Pt(x, y)); got != f.rune(bi.Rect, x, y) {
					t.Fatalf("rune at (%d,%d) is %q", x, y, got)
				}
			}
		}
	})
}

const parseRule = "bitmaps rendered as text with one or two set runes and arbitrary others, or with bad set strings or line lengths; non-trivial = a good one of two or more lines"

// TestParse: parsing gives the bits drawn, or an error.
func TestParse(t *testing.T) {
	hx.Check(t, 20000, parseRule, func(t *rapid.T, c *hx.Case) {
		alpha := []rune{'#', '.', ' ', '█', 'é', 'x', '\U0001F600'}
		rn := func(name string) rune { return alpha[rapid.IntRange(0, len(alpha)-1).Draw(t, name)] }
		k := rapid.IntRange(1, 2).Draw(t, "k")
		set := make([]rune, k)
		for i := range set {
			set[i] = rn("set")
		}
		w, h := rapid.IntRange(1, 6).Draw(t, "w"), rapid.IntRange(0, 5).Draw(t, "h")
		var lines []string
		var want []bool
		for y := 0; y < h; y++ {
			var l []rune
			for x := 0; x < w; x++ {
				cell := make([]rune, k)
				same := true
				for i := range cell {
					cell[i] = set[i]
					if rapid.IntRange(0, 2).Draw(t, "off") == 0 {
						cell[i] = rn("r")
					}
					same = same && cell[i] == set[i]
				}
				l = append(l, cell...)
				want = append(want, same)
			}
			lines = append(lines, string(l))
		}
		bad := ""
		sets := string(set)
		switch rapid.IntRange(0, 7).Draw(t, "bad") {
		case 0:
			sets, bad = "", "no set rune"
		case 1:
			sets, bad = strings.Repeat(string(set), 3), "too many set runes"
		case 2:
			if h > 1 {
				i := rapid.IntRange(0, h-1).Draw(t, "line")
				switch rapid.IntRange(0, 2).Draw(t, "ragged") {
				case 0:
					lines[i] += strings.Repeat(string(rn("extra")), k)
				case 1:
					lines[i] = string([]rune(lines[i])[k:])
				case 2:
					lines[i] = ""
				}
				bad = "inconsistent lines"
			}
		case 3:
			if k == 2 && h > 0 {
				i := rapid.IntRange(0, h-1).Draw(t, "line")
				lines[i] += string(rn("extra"))
				bad = "odd line"
			}
		}
		c.Logf("%q %q %s", sets, lines, bad)
		stride, data, err := anansi.ParseBitmap(sets, lines...)
		panicked := func() (p bool) {
			defer func() { p = recover() != nil }()
			s, d := anansi.MustParseBitmap(sets, lines...)
			if s != stride || len(d) != len(data) {
				t.Fatalf("MustParseBitmap differs")
			}
			return false
		}()
		if bad != "" {
			if err == nil || !panicked {
				t.Fatalf("%s: no error", bad)
			}
			return
		}
		c.NT(h > 1)
		if h == 0 {
			w = 0
		}
		if err != nil || panicked || stride != w || len(data) != len(want) {
			t.Fatalf("%q: stride %d, %d bits, %v", lines, stride, len(data), err)
		}
		for i := range data {
			if data[i] != want[i] {
				t.Fatalf("%q: bit %d is %v", lines, i, data[i])
			}
		}
	})
}

const drawRule = "random (sub-)bitmaps drawn onto (sub-)grids with random style compositions, all destination storage is checked; non-trivial = at least 2x2 runes drawn with an effective style"

// TestDraw: drawing puts the runes into the cells as the styles say, and
// nothing else.
func TestDraw(t *testing.T) {
	hx.Check(t, 25000, drawRule, func(t *rapid.T, c *hx.Case) {
		size := rapid.IntRange(0, 6)
		dg, df := grd.New(t, size.Draw(t, "dw"), size.Draw(t, "dh"))
		dst, dr := dg, grd.R{X: 1, Y: 1, W: df.W, H: df.H}
		if rapid.Bool().Draw(t, "sub") {
			r, in, ok := grd.Sub(t, dr)
			dst, dr = dg.SubRect(r.Rect()), in
			if !ok {
				dst, dr = anansi.Grid{}, grd.R{}
			}
		}
		f := newBits(t, 10, 16)
		var bi anansi.Bitmap
		bi.Load(f.w, append([]bool(nil), f.b...))
		r := image.Rect(0, 0, f.w, f.h)
		if rapid.Bool().Draw(t, "subBitmap") {
			at := image.Pt(rapid.IntRange(0, f.w).Draw(t, "bx"), rapid.IntRange(0, f.h).Draw(t, "by"))
			sz := image.Pt(rapid.IntRange(0, f.w).Draw(t, "bw"), rapid.IntRange(0, f.h).Draw(t, "bh"))
			in, ok := clip(r, image.Rectangle{Min: at, Max: at.Add(sz)})
			bi, r = bi.SubRect(image.Rectangle{Min: at, Max: at.Add(sz)}), in
			if !ok {
				r = image.ZR
			}
		}
		ss, all := sty.Some(t, sty.Any, 4)
		c.Logf("%v of %dx%d onto %v of %dx%d with %s", r, f.w, f.h, dr, df.W, df.H, all.Name)
		was := df.Dump(dr)
		w, h := min(dr.W, (r.Dx()+1)/2), min(dr.H, (r.Dy()+3)/4)
		c.NT(w > 1 && h > 1 && all.F != nil)
		anansi.DrawBitmap(dst, bi, sty.List(ss)...)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				d := df.At(dr.X+x, dr.Y+y)
				cell := grd.Cell{R: f.rune(r, r.Min.X+2*x, r.Min.Y+4*y), A: d.A}
				if all.F != nil {
					if cell = all.F(dr.X+x, dr.Y+y, *d, cell); cell.R == 0 {
						continue
					}
				} else if o, ok := dst.CellOffset(ansi.Pt(dr.X+x, dr.Y+y)); ok && dst.Attr[o] == 0 {
					cell.A = 0 // either is fine without a style
				}
				*d = cell
			}
		}
		if err := df.Check(dg); err != nil {
			t.Fatalf("drawing with %s onto %s: %v", all.Name, was, err)
		}
		for _, s := range ss {
			if s.Calls == nil {
				continue
			}
			for _, p := range *s.Calls {
				if p.X < dr.X || p.X >= dr.X+w || p.Y < dr.Y || p.Y >= dr.Y+h {
					t.Fatalf("style called for %v, drawing %dx%d at %v", p, w, h, dr)
				}
			}
		}
	})
}

// TestRune: every pattern of dots, whole and cut by the bitmap's edges.
func TestRune(t *testing.T) {
	hx.Each(t, "all 256 patterns cut to every size and shifted within a full bitmap; all are non-trivial", true, func(check func(func(c *hx.Case) error)) {
		for pat := 0; pat < 256; pat++ {
			for w := 1; w <= 2; w++ {
				for h := 1; h <= 4; h++ {
					for off := 0; off < 3; off++ {
						pat, w, h, off := pat, w, h, off
						check(func(c *hx.Case) error {
							c.NT(true)
							c.Logf("%02x %dx%d at %d", pat, w, h, off)
							var bi anansi.Bitmap
							bi.Resize(image.Pt(6, 8))
							for i := range bi.Bit {
								bi.Bit[i] = true
							}
							want := rune(0x2800)
							for y := range dots {
								for x, n := range dots[y] {
									on := pat>>(n-1)&1 != 0
									bi.Set(image.Pt(off+x, off+y), on)
									if on && x < w && y < h {
										want |= 1 << (n - 1)
									}
								}
							}
							v := bi.SubRect(image.Rect(off, off, off+w, off+h))
							if got := v.Rune(image.Pt(off, off)); got != want {
								return fmt.Errorf("pattern %02x cut to %dx%d at %d is %q, should be %q", pat, w, h, off, got, want)
							}
							return nil
						})
					}
				}
			}
		}
	})
}
