// Package sty generates drawing styles along with an independent model.
package sty

import (
	"fmt"
	"strings"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/grd"
	"verif/vt"
)

// Func models a style.
type Func func(x, y int, prior, c grd.Cell) grd.Cell

// Style is a style and its model; F is nil for one that has no effect.
type Style struct {
	S    anansi.Style
	Name string
	F    Func
	// Fixed styles do not look at the prior cell.
	Fixed bool
	// Calls records the points the style was called for.
	Calls *[]ansi.Point
}

func noFG(a vt.Attr) bool {
	b := a
	b.BG = vt.Color{}
	return b == vt.Attr{}
}

func transparent(bg, fg bool) Func {
	return func(x, y int, prior, c grd.Cell) grd.Cell {
		a, p := gen.Back(c.A), gen.Back(prior.A)
		hasBG, hasFG := a.BG != vt.Color{}, !noFG(a)
		has := bg && hasBG || fg && hasFG
		if has {
			return c
		}
		r := p // everything of the prior, except what is not transparent
		if !bg {
			r.BG = a.BG
		}
		if !fg {
			q := a
			q.BG = r.BG
			r = q
		}
		c.A = gen.SGR(r)
		return c
	}
}

// Kinds of styles to draw from.
const (
	Static = 3 // depend on the cell only
	Fixed  = 4 // and its position
	Any    = 8 // and the prior cell
)

// One draws a basic style.
func One(t *rapid.T, hi int) Style {
	rr := func() rune { return rapid.SampledFrom([]rune{' ', '.', 'x', '\u2800', '⣿'}).Draw(t, "rune") }
	switch rapid.IntRange(0, hi).Draw(t, "style") {
	case 0:
		z := rr()
		return Style{S: anansi.ZeroRuneStyle(z), Name: fmt.Sprintf("zero %q", z), Fixed: true, F: func(x, y int, _, c grd.Cell) grd.Cell {
			if c.R == z {
				return grd.Cell{}
			}
			return c
		}}
	case 1:
		z := rr()
		return Style{S: anansi.FillRuneStyle(z), Name: fmt.Sprintf("fill %q", z), Fixed: true, F: func(x, y int, _, c grd.Cell) grd.Cell {
			if c.R == 0 {
				c.R = z
			}
			return c
		}}
	case 2:
		z := rr()
		return Style{S: anansi.DefaultRuneStyle(z), Name: fmt.Sprintf("default %q", z), Fixed: true, F: func(x, y int, _, c grd.Cell) grd.Cell {
			if c.R == 0 && c.A != 0 {
				c.R = z
			}
			return c
		}}
	case 3:
		a := gen.SGR(gen.Attr().Draw(t, "attr"))
		return Style{S: anansi.AttrStyle(a), Name: fmt.Sprintf("attr %v", a), Fixed: true, F: func(x, y int, _, c grd.Cell) grd.Cell {
			if c.R != 0 {
				c.A = a
			}
			return c
		}}
	case 4: // by position
		a := gen.SGR(gen.Attr().Draw(t, "attr"))
		m, k := rapid.IntRange(1, 3).Draw(t, "m"), rapid.IntRange(1, 3).Draw(t, "k")
		f := func(x, y int, _, c grd.Cell) grd.Cell {
			if (x*m+y*k)%3 == 0 && c.R != 0 {
				c.A = a
			}
			return c
		}
		calls := new([]ansi.Point)
		return Style{
			S: anansi.StyleFunc(func(p ansi.Point, pr, r rune, pa, a ansi.SGRAttr) (rune, ansi.SGRAttr) {
				*calls = append(*calls, p)
				n := f(p.X, p.Y, grd.Cell{R: pr, A: pa}, grd.Cell{R: r, A: a})
				return n.R, n.A
			}),
			Name: fmt.Sprintf("%v where (%dx+%dy)%%3=0", a, m, k), F: f, Fixed: true, Calls: calls,
		}
	case 5:
		return Style{S: anansi.TransparentRunes, Name: "transparent runes", F: func(x, y int, p, c grd.Cell) grd.Cell {
			if c.R == 0 {
				c.R = p.R
			}
			return c
		}}
	case 6:
		return Style{S: anansi.TransparentAttrBG, Name: "transparent BG", F: transparent(true, false)}
	case 7:
		return Style{S: anansi.TransparentAttrFG, Name: "transparent FG", F: transparent(false, true)}
	}
	return Style{S: anansi.TransparentAttrBGFG, Name: "transparent BGFG", F: transparent(true, true)}
}

// Noop is the style without effect.
var Noop = Style{S: anansi.NoopStyle, Name: "noop", Fixed: true}

// Some draws a list of styles, some of them combined already, and the combined
// model (nil when there is no effective one).
func Some(t *rapid.T, hi, max int) (ss []Style, all Style) {
	for n := rapid.IntRange(0, max).Draw(t, "nstyles"); n > 0; n-- {
		switch rapid.IntRange(0, 6).Draw(t, "kind") {
		case 0:
			ss = append(ss, Noop)
		case 1:
			in, c := Some(t, hi, 3)
			_ = in
			ss = append(ss, c)
		default:
			ss = append(ss, One(t, hi))
		}
	}
	return ss, Combine(ss...)
}

// Combine combines styles with the library and the model.
func Combine(ss ...Style) (r Style) {
	var names []string
	var fs []Func
	r.Fixed = true
	for _, s := range ss {
		names = append(names, s.Name)
		r.Fixed = r.Fixed && s.Fixed
		if s.F != nil {
			fs = append(fs, s.F)
		}
	}
	r.Name = "[" + strings.Join(names, ", ") + "]"
	r.S = anansi.Styles(List(ss)...)
	if len(fs) > 0 {
		r.F = func(x, y int, p, c grd.Cell) grd.Cell {
			for _, f := range fs {
				c = f(x, y, p, c)
			}
			return c
		}
	}
	return r
}

// List returns the library styles.
func List(ss []Style) (r []anansi.Style) {
	for _, s := range ss {
		r = append(r, s.S)
	}
	return r
}
