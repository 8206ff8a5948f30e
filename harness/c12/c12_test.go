package c12

import (
	"fmt"
	"image/color"
	"testing"

	"github.com/jcorbin/anansi/ansi"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
	"verif/vt"
)

func TestMain(m *testing.M) { hx.Main(m) }

type rgb struct{ r, g, b uint8 }

// def is the standard definition of a palette color (the classic VGA-like 16,
// then a 6x6x6 cube and 24 grays).
func def(i uint8) rgb {
	switch {
	case i < 16:
		lo := []rgb{
			{0, 0, 0}, {128, 0, 0}, {0, 128, 0}, {128, 128, 0}, {0, 0, 128}, {128, 0, 128}, {0, 128, 128}, {192, 192, 192},
			{128, 128, 128}, {255, 0, 0}, {0, 255, 0}, {255, 255, 0}, {0, 0, 255}, {255, 0, 255}, {0, 255, 255}, {255, 255, 255},
		}
		return lo[i]
	case i < 232:
		level := []uint8{0, 95, 135, 175, 215, 255}
		i -= 16
		return rgb{level[i/36], level[i/6%6], level[i%6]}
	}
	v := 8 + 10*(i-232)
	return rgb{v, v, v}
}

func of(c ansi.SGRColor) rgb {
	r, g, b := c.RGB()
	return rgb{r, g, b}
}

func is24(c ansi.SGRColor) bool { return c == ansi.RGB(c.RGB()) }

func colorOf(t *rapid.T, name string) (ansi.SGRColor, rgb) {
	c := gen.Color().Draw(t, name)
	if c.Kind == 2 {
		return gen.SGRColor(c), rgb{c.R, c.G, c.B}
	}
	return gen.SGRColor(c), def(c.Idx)
}

// TestPalette: the indexed colors have their standard definitions.
func TestPalette(t *testing.T) {
	hx.Each(t, "every indexed color; all are non-trivial", true, func(check func(func(c *hx.Case) error)) {
		for i := 0; i < 256; i++ {
			i := i
			check(func(c *hx.Case) error {
				c.Logf("%d", i)
				c.NT(true)
				col := ansi.SGRColor(i)
				fail := func(what string, got interface{}) error {
					return errorf("color %d (%v): %s %v", i, def(uint8(i)), what, got)
				}
				if of(col) != def(uint8(i)) {
					return fail("RGB", of(col))
				}
				if n := col.To24Bit(); n != ansi.RGB(col.RGB()) || !is24(n) || is24(col) {
					return fail("To24Bit", n)
				}
				if ansi.ColorModel24.Convert(col) != col.To24Bit() || ansi.ColorModelID.Convert(col) != col {
					return fail("model", nil)
				}
				for j, p := range []ansi.Palette{ansi.Palette3, ansi.Palette4, ansi.Palette8} {
					n := []int{8, 16, 256}[j]
					if len(p) != n {
						return fail("palette size", len(p))
					}
					if i < n && p[i] != col {
						return fail("palette entry", p[i])
					}
				}
				// the canonical form of a definition is an alias for it
				can := ansi.SGRColorCanon.Convert(col.To24Bit())
				if is24(can) || of(can) != def(uint8(i)) {
					return fail("canonical", can)
				}
				if ansi.SGRColorCanon.Convert(col) != col {
					return fail("canonical of an alias", ansi.SGRColorCanon.Convert(col))
				}
				return nil
			})
		}
	})
}

// TestColor: component accessors and conversions agree.
func TestColor(t *testing.T) {
	hx.Check(t, 60000, "random colors of all kinds and 16-bit components; non-trivial = components differ", func(t *rapid.T, c *hx.Case) {
		col, want := colorOf(t, "c")
		c.Logf("%v", want)
		c.NT(want.r != want.g || want.g != want.b)
		if of(col) != want {
			t.Fatalf("%v has components %v", want, of(col))
		}
		r, g, b, a := color.Color(col).RGBA()
		er, eg, eb, ea := color.RGBA{want.r, want.g, want.b, 255}.RGBA()
		if r != er || g != eg || b != eb || a != ea {
			t.Fatalf("%v as RGBA %x %x %x %x", want, r, g, b, a)
		}
		if n := ansi.RGBA(r, g, b, a); of(n) != want || !is24(n) {
			t.Fatalf("%v back from RGBA is %v", want, n)
		}
		if n := col.To24Bit(); of(n) != want || n.To24Bit() != n || !is24(n) {
			t.Fatalf("%v in 24 bit is %v", want, n)
		}
		var v [3]uint32
		var e [3]uint8
		for i := range v {
			v[i] = rapid.OneOf(rapid.Uint32Range(0, 0xffff), rapid.SampledFrom([]uint32{0, 0xff, 0x100, 0xffff, 0x10000, 0x1ffff, 0xffffffff})).Draw(t, "v")
			e[i] = uint8(min(v[i], 0xffff) >> 8)
		}
		if n := ansi.RGBA(v[0], v[1], v[2], 7); of(n) != (rgb{e[0], e[1], e[2]}) || !is24(n) {
			t.Fatalf("RGBA%v is %v", v, n)
		}
		// a definition no alias has stays as it is
		if can := ansi.SGRColorCanon.Convert(col); of(can) != want {
			t.Fatalf("canonical of %v is %v", want, can)
		}
		// foreground and background keep the color
		if fg, ok := col.FG().FG(); !ok || fg != col {
			t.Fatalf("foreground %v", fg)
		}
		if bg, ok := col.BG().BG(); !ok || bg != col {
			t.Fatalf("background %v", bg)
		}
		if _, ok := col.FG().BG(); ok {
			t.Fatalf("foreground sets the background")
		}
	})
}

func dist(a, b rgb) int {
	d := func(x, y uint8) int { return (int(x) - int(y)) * (int(x) - int(y)) }
	return d(a.r, b.r) + d(a.g, b.g) + d(a.b, b.b)
}

// TestClosest: palettes convert to their closest color.
func TestClosest(t *testing.T) {
	hx.Check(t, 60000, "random colors and palettes, some with near duplicates; non-trivial = the color is not in the palette", func(t *rapid.T, c *hx.Case) {
		var p ansi.Palette
		var defs []rgb
		switch rapid.IntRange(0, 5).Draw(t, "which") {
		case 0:
			p = []ansi.Palette{ansi.Palette3, ansi.Palette4, ansi.Palette8}[rapid.IntRange(0, 2).Draw(t, "n")]
			for i := range p {
				defs = append(defs, def(uint8(i)))
			}
		default:
			n := rapid.IntRange(1, 12).Draw(t, "n")
			for i := 0; i < n; i++ {
				if i > 0 && rapid.Bool().Draw(t, "near") {
					d := defs[rapid.IntRange(0, i-1).Draw(t, "of")]
					d.r += uint8(rapid.IntRange(-2, 2).Draw(t, "dr"))
					d.b += uint8(rapid.IntRange(-2, 2).Draw(t, "db"))
					p = append(p, ansi.RGB(d.r, d.g, d.b))
					defs = append(defs, d)
					continue
				}
				col, d := colorOf(t, "p")
				p, defs = append(p, col), append(defs, d)
			}
		}
		col, d := colorOf(t, "c")
		if rapid.Bool().Draw(t, "nearby") {
			d = defs[rapid.IntRange(0, len(defs)-1).Draw(t, "of")]
			d.g += uint8(rapid.IntRange(-2, 2).Draw(t, "dg"))
			d.b += uint8(rapid.IntRange(-2, 2).Draw(t, "db"))
			col = ansi.RGB(d.r, d.g, d.b)
		}
		c.Logf("%v in %v", d, defs)
		best := 1 << 30
		for _, e := range defs {
			best = min(best, dist(d, e))
		}
		c.NT(best > 0)
		i := p.Index(col)
		if i < 0 || i >= len(p) || dist(d, defs[i]) != best {
			t.Fatalf("closest to %v in %v: index %d, but %d is possible", d, defs, i, best)
		}
		if got := p.Convert(col); got != p[i] {
			t.Fatalf("%v converts to %v, index %d is %v", d, got, i, p[i])
		}
	})
}

// TestModels: combined models apply each in order, whatever else is built from
// the same parts; maps and themes convert what they hold.
func TestModels(t *testing.T) {
	hx.Check(t, 30000, "random trees of combined models (nil ones included), all checked after all are built; non-trivial = a combination of combinations", func(t *rapid.T, c *hx.Case) {
		type model struct {
			m    ansi.ColorModel
			path []byte // what it applies, in order
		}
		// each leaf appends its own digit to what went through
		trace := []byte{}
		var pool []model
		for i := 0; i < 4; i++ {
			b := byte('a' + i)
			pool = append(pool, model{ansi.ColorModelFunc(func(c ansi.SGRColor) ansi.SGRColor {
				trace = append(trace, b)
				return (c*31 + ansi.SGRColor(b)) & 0xffff
			}), []byte{b}})
		}
		nested := false
		for k := rapid.IntRange(1, 6).Draw(t, "n"); k > 0; k-- {
			var ms []ansi.ColorModel
			var path []byte
			for j := rapid.IntRange(0, 4).Draw(t, "parts"); j > 0; j-- {
				if rapid.IntRange(0, 5).Draw(t, "nil") == 0 {
					ms = append(ms, nil)
					continue
				}
				q := pool[rapid.IntRange(0, len(pool)-1).Draw(t, "part")]
				nested = nested || len(q.path) > 1
				ms = append(ms, q.m)
				path = append(path, q.path...)
			}
			m := ansi.ColorModels(ms...)
			if m == nil {
				if len(path) > 0 {
					t.Fatalf("combination of %q is nil", path)
				}
				continue
			}
			c.Logf("%q", path)
			pool = append(pool, model{m, path})
		}
		c.NT(nested)
		for _, q := range pool {
			trace = trace[:0]
			in := ansi.SGRColor(rapid.IntRange(0, 0xffff).Draw(t, "in"))
			want := in
			for _, b := range q.path {
				want = (want*31 + ansi.SGRColor(b)) & 0xffff
			}
			if got := q.m.Convert(in); got != want || string(trace) != string(q.path) {
				t.Fatalf("combination of %q applies %q: %v, want %v", q.path, trace, got, want)
			}
		}
		// maps and themes
		m := ansi.SGRColorMap{}
		for k := rapid.IntRange(0, 4).Draw(t, "nmap"); k > 0; k-- {
			a, _ := colorOf(t, "from")
			b, _ := colorOf(t, "to")
			m[a] = b
		}
		var theme ansi.ColorTheme
		for k := rapid.IntRange(0, 16).Draw(t, "ntheme"); k > 0; k-- {
			b, _ := colorOf(t, "theme")
			theme = append(theme, b)
		}
		col, d := colorOf(t, "c")
		want, ok := m[col]
		if !ok {
			want = col
		}
		if got := m.Convert(col); got != want {
			t.Fatalf("map converts %v to %v, want %v", col, got, want)
		}
		got := theme.Convert(col)
		switch {
		case !is24(col) && int(col) < len(theme):
			if got != theme[col] {
				t.Fatalf("theme converts %v to %v, has %v", col, got, theme[col])
			}
		case is24(col):
			if got != col {
				t.Fatalf("theme converts 24-bit %v to %v", col, got)
			}
		default:
			if of(got) != d {
				t.Fatalf("theme without %v converts it to %v", col, got)
			}
		}
		_ = vt.Attr{}
	})
}

func errorf(f string, a ...interface{}) error { return fmt.Errorf(f, a...) }
