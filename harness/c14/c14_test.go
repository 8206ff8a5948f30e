package c14

import (
	"fmt"
	"image"
	"testing"

	"github.com/jcorbin/anansi/ansi"
	"pgregory.net/rapid"

	"verif/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

const N = 9 // the plane rectangles are compared on, point by point

type set [N + 2][N + 2]bool

func points(r ansi.Rectangle) (s set, n int) {
	for y := range s {
		for x := range s[y] {
			p := ansi.Point{Point: image.Pt(x, y)}
			if p.In(r) {
				s[y][x] = true
				n++
			}
		}
	}
	return s, n
}

func rect(t *rapid.T, name string) ansi.Rectangle {
	co := func(n string) int { return rapid.IntRange(1, N).Draw(t, name+n) }
	r := ansi.Rectangle{Min: ansi.Pt(co("x0"), co("y0")), Max: ansi.Pt(co("x1"), co("y1"))}
	if rapid.IntRange(0, 3).Draw(t, name+"canon") > 0 {
		if r.Min.X > r.Max.X {
			r.Min.X, r.Max.X = r.Max.X, r.Min.X
		}
		if r.Min.Y > r.Max.Y {
			r.Min.Y, r.Max.Y = r.Max.Y, r.Min.Y
		}
	}
	return r
}

const rule = "random pairs of small rectangles (empty and ill-formed ones included) compared as sets of points; non-trivial = both have points"

// TestSets: rectangles behave as the sets of points they contain.
func TestSets(t *testing.T) {
	hx.Check(t, 60000, rule, func(t *rapid.T, c *hx.Case) {
		r, s := rect(t, "r"), rect(t, "s")
		c.Logf("%v %v", r, s)
		rs, rn := points(r)
		ss, sn := points(s)
		c.NT(rn > 0 && sn > 0)
		wf := func(r ansi.Rectangle) bool { return r.Min.X <= r.Max.X && r.Min.Y <= r.Max.Y }
		in := func(p image.Point, r ansi.Rectangle) bool {
			return p.X >= r.Min.X && p.X < r.Max.X && p.Y >= r.Min.Y && p.Y < r.Max.Y
		}
		both, bn, either, sub := set{}, 0, set{}, true
		for y := range rs {
			for x := range rs[y] {
				if rs[y][x] != in(image.Pt(x, y), r) {
					t.Fatalf("(%d,%d) in %v: %v", x, y, r, rs[y][x])
				}
				both[y][x] = rs[y][x] && ss[y][x]
				either[y][x] = rs[y][x] || ss[y][x]
				if both[y][x] {
					bn++
				}
				sub = sub && (!rs[y][x] || ss[y][x])
			}
		}
		if r.Empty() != (rn == 0) {
			t.Fatalf("%v empty: %v, %d points", r, r.Empty(), rn)
		}
		if wf(r) && (r.Dx()*r.Dy() != rn || r.Size() != image.Pt(r.Dx(), r.Dy())) {
			t.Fatalf("%v: %dx%d, size %v, %d points", r, r.Dx(), r.Dy(), r.Size(), rn)
		}
		if got, _ := points(r.Intersect(s)); got != both {
			t.Fatalf("%v intersected with %v is %v", r, s, r.Intersect(s))
		}
		if r.Overlaps(s) != (bn > 0) || s.Overlaps(r) != (bn > 0) {
			t.Fatalf("%v overlaps %v: %v", r, s, r.Overlaps(s))
		}
		if r.In(s) != sub {
			t.Fatalf("%v in %v: %v", r, s, r.In(s))
		}
		if r.Eq(s) != (rs == ss) {
			t.Fatalf("%v equals %v: %v", r, s, r.Eq(s))
		}
		u := r.Union(s)
		us, _ := points(u)
		for y := range us {
			for x := range us[y] {
				if either[y][x] && !us[y][x] {
					t.Fatalf("(%d,%d) not in the union of %v and %v", x, y, r, s)
				}
			}
		}
		if rn+sn > 0 { // smallest: every border touches a point of either
			e := image.Rectangle{}
			for _, q := range []ansi.Rectangle{r, s} {
				if !q.Empty() {
					e = e.Union(image.Rectangle{Min: q.Min.Point, Max: q.Max.Point})
				}
			}
			if u.Min.Point != e.Min || u.Max.Point != e.Max {
				t.Fatalf("union of %v and %v is %v", r, s, u)
			}
		} else if !u.Empty() {
			t.Fatalf("union of empty %v and %v is %v", r, s, u)
		}
		cr := r.Canon()
		if !wf(cr) || cr.Canon() != cr || wf(r) && cr != r ||
			min(r.Min.X, r.Max.X) != cr.Min.X || max(r.Min.X, r.Max.X) != cr.Max.X || min(r.Min.Y, r.Max.Y) != cr.Min.Y || max(r.Min.Y, r.Max.Y) != cr.Max.Y {
			t.Fatalf("%v is canonically %v", r, cr)
		}
		if k := ansi.Rect(r.Min.X, r.Min.Y, r.Max.X, r.Max.Y); k != cr {
			t.Fatalf("Rect of %v is %v", r, k)
		}
		d := image.Pt(rapid.IntRange(-5, 5).Draw(t, "dx"), rapid.IntRange(-5, 5).Draw(t, "dy"))
		mv := r.Add(d)
		if mv.Min != r.Min.Add(d) || mv.Max != r.Max.Add(d) || mv.Sub(d) != r || r.Min.Add(d).Sub(d) != r.Min || r.Min.Add(d).Diff(r.Min) != d || r.Min.Diff(r.Min.Add(d)) != d.Mul(-1) {
			t.Fatalf("%v moved by %v is %v", r, d, mv)
		}
		if wf(r) {
			n := rapid.IntRange(-3, 6).Draw(t, "inset")
			is := r.Inset(n)
			want := image.Rectangle{Min: r.Min.Point, Max: r.Max.Point}.Inset(n)
			if is.Min.Point != want.Min || is.Max.Point != want.Max {
				t.Fatalf("%v inset by %d is %v, want %v", r, n, is, want)
			}
		}
		if str := r.String(); str != fmt.Sprintf("(%d,%d)-(%d,%d)", r.Min.X, r.Min.Y, r.Max.X, r.Max.Y) {
			t.Fatalf("%v named %q", r, str)
		}
	})
}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return false
}

const convRule = "random points and rectangles, valid or not, converted between 1-based screen and 0-based image coordinates; non-trivial = valid and not at the origin"

// TestConvert: conversions are inverse to each other, and refuse invalid
// values.
func TestConvert(t *testing.T) {
	hx.Check(t, 40000, convRule, func(t *rapid.T, c *hx.Case) {
		co := rapid.OneOf(rapid.IntRange(-3, 4), rapid.IntRange(0, 1<<20))
		x0, y0, x1, y1 := co.Draw(t, "x0"), co.Draw(t, "y0"), co.Draw(t, "x1"), co.Draw(t, "y1")
		c.Logf("%d %d %d %d", x0, y0, x1, y1)
		ok := x0 >= 1 && y0 >= 1
		rok := ok && x1 >= 1 && y1 >= 1
		c.NT(rok)
		raw := ansi.Point{Point: image.Pt(x0, y0)}
		if raw.Valid() != ok {
			t.Fatalf("%v valid: %v", raw, raw.Valid())
		}
		if panics(func() { ansi.Pt(x0, y0) }) == ok || panics(func() { raw.ToImage() }) == ok {
			t.Fatalf("%v accepted or refused wrongly", raw)
		}
		if ok {
			p := ansi.Pt(x0, y0)
			if p != raw || p.ToImage() != image.Pt(x0-1, y0-1) || ansi.PtFromImage(p.ToImage()) != p || !p.Eq(raw) {
				t.Fatalf("%v converts to %v", p, p.ToImage())
			}
			k := rapid.IntRange(1, 9).Draw(t, "k")
			if m := p.Mul(k); m.Point != p.Point.Mul(k) || m.Div(k) != p || p.Div(k).Point != p.Point.Div(k) {
				t.Fatalf("%v times %d is %v", p, k, m)
			}
		}
		im := image.Pt(x0, y0)
		iok := x0 >= 0 && y0 >= 0
		if panics(func() { ansi.PtFromImage(im) }) == iok {
			t.Fatalf("image point %v accepted or refused wrongly", im)
		}
		if iok && ansi.PtFromImage(im) != ansi.Pt(x0+1, y0+1) {
			t.Fatalf("image point %v converts to %v", im, ansi.PtFromImage(im))
		}
		r := ansi.Rectangle{Min: raw, Max: ansi.Point{Point: image.Pt(x1, y1)}}
		if panics(func() { ansi.Rect(x0, y0, x1, y1) }) == rok || panics(func() { r.ToImage() }) == rok {
			t.Fatalf("%v accepted or refused wrongly", r)
		}
		if rok {
			r = r.Canon()
			ir := r.ToImage()
			if ir != (image.Rectangle{Min: r.Min.ToImage(), Max: r.Max.ToImage()}) || ansi.RectFromImage(ir) != r {
				t.Fatalf("%v converts to %v and back to %v", r, ir, ansi.RectFromImage(ir))
			}
		}
		ir := image.Rectangle{Min: im, Max: image.Pt(x1, y1)}
		irok := iok && x1 >= 0 && y1 >= 0
		if panics(func() { ansi.RectFromImage(ir) }) == irok {
			t.Fatalf("image rectangle %v accepted or refused wrongly", ir)
		}
		if irok && ansi.RectFromImage(ir).Canon().ToImage() != ir.Canon() {
			t.Fatalf("image rectangle %v converts to %v", ir, ansi.RectFromImage(ir))
		}
		if ansi.ZP.Valid() || !ansi.ZR.Empty() {
			t.Fatalf("zero values")
		}
	})
}
