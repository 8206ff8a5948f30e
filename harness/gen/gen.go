// Package gen holds generators shared by the checks, and the bridge between
// the reference terminal's attributes and the library's.
package gen

import (
	"github.com/jcorbin/anansi/ansi"
	"pgregory.net/rapid"

	"verif/vt"
)

// SGRColor builds the library color for a reference color.
func SGRColor(c vt.Color) ansi.SGRColor {
	if c.Kind == 2 {
		return ansi.RGB(c.R, c.G, c.B)
	}
	return ansi.SGRColor(c.Idx)
}

// SGR builds the library attribute for a reference attribute.
func SGR(a vt.Attr) (r ansi.SGRAttr) {
	if a.Bold {
		r |= ansi.SGRAttrBold
	}
	if a.Dim {
		r |= ansi.SGRAttrDim
	}
	if a.Italic {
		r |= ansi.SGRAttrItalic
	}
	if a.Under {
		r |= ansi.SGRAttrUnderscore
	}
	if a.Neg {
		r |= ansi.SGRAttrNegative
	}
	if a.Conceal {
		r |= ansi.SGRAttrConceal
	}
	if a.FG.Kind != 0 {
		r |= SGRColor(a.FG).FG()
	}
	if a.BG.Kind != 0 {
		r |= SGRColor(a.BG).BG()
	}
	return r
}

// Back converts a library attribute into a reference attribute, ignoring any
// explicit clear bit.
func Back(a ansi.SGRAttr) (r vt.Attr) {
	r.Bold = a&ansi.SGRAttrBold != 0
	r.Dim = a&ansi.SGRAttrDim != 0
	r.Italic = a&ansi.SGRAttrItalic != 0
	r.Under = a&ansi.SGRAttrUnderscore != 0
	r.Neg = a&ansi.SGRAttrNegative != 0
	r.Conceal = a&ansi.SGRAttrConceal != 0
	if c, set := a.FG(); set {
		r.FG = backColor(c)
	}
	if c, set := a.BG(); set {
		r.BG = backColor(c)
	}
	return r
}

func backColor(c ansi.SGRColor) vt.Color {
	if c>>24 != 0 {
		r, g, b := c.RGB()
		return vt.RGB(r, g, b)
	}
	return vt.Idx(uint8(c))
}

var byteEdge = rapid.OneOf(rapid.SampledFrom([]uint8{0, 1, 7, 8, 9, 15, 16, 17, 99, 100, 127, 128, 231, 232, 254, 255}), rapid.Uint8())

// Color generates a set color.
func Color() *rapid.Generator[vt.Color] {
	return rapid.Custom(func(t *rapid.T) vt.Color {
		switch rapid.IntRange(0, 3).Draw(t, "colorKind") {
		case 0:
			return vt.Idx(uint8(rapid.IntRange(0, 7).Draw(t, "c3")))
		case 1:
			return vt.Idx(uint8(rapid.IntRange(8, 15).Draw(t, "c4")))
		case 2:
			return vt.Idx(byteEdge.Draw(t, "c8"))
		default:
			return vt.RGB(byteEdge.Draw(t, "r"), byteEdge.Draw(t, "g"), byteEdge.Draw(t, "b"))
		}
	})
}

// Attr generates attributes, often plain, often small changes.
func Attr() *rapid.Generator[vt.Attr] {
	return rapid.Custom(func(t *rapid.T) (a vt.Attr) {
		switch rapid.IntRange(0, 5).Draw(t, "attrKind") {
		case 0:
			return a
		case 1:
			a.FG = Color().Draw(t, "fg")
			return a
		case 2:
			a.BG = Color().Draw(t, "bg")
			return a
		case 3:
			flag(t, &a)
			return a
		}
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "nflags"); i < n; i++ {
			flag(t, &a)
		}
		if rapid.Bool().Draw(t, "hasFG") {
			a.FG = Color().Draw(t, "fg")
		}
		if rapid.Bool().Draw(t, "hasBG") {
			a.BG = Color().Draw(t, "bg")
		}
		return a
	})
}

func flag(t *rapid.T, a *vt.Attr) {
	switch rapid.IntRange(0, 5).Draw(t, "flag") {
	case 0:
		a.Bold = true
	case 1:
		a.Dim = true
	case 2:
		a.Italic = true
	case 3:
		a.Under = true
	case 4:
		a.Neg = true
	case 5:
		a.Conceal = true
	}
}

// Runes are printable, single-width, and outside the code range the library
// reserves for escapes.
var Runes = []rune("aBz09 ~!#|\u00a1\u00e9\u03bb\u0416\u2022\u2500\u2502\u253c\u2588\u2801\u28ff\u2192\U00010348")

// Rune generates a printable rune.
func Rune() *rapid.Generator[rune] {
	return rapid.OneOf(rapid.RuneFrom([]rune("abcdXYZ")), rapid.SampledFrom(Runes))
}
