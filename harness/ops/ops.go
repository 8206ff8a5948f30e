// Package ops generates well-formed terminal output streams, as typed
// operations with their own independent byte encodings, and a small model of
// what the library's screen emulation documents for them.
package ops

import (
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"verif/gen"
	"verif/vt"
)

// Kind of an operation.
type Kind int

// Operation kinds.
const (
	Text Kind = iota
	CR
	LF
	Move   // cursor up/down/forward/back by N (0: no parameter)
	Pos    // CUP to X,Y (0,0: no parameters)
	ED     // erase display, Arg "", "0", "1", "2"
	EL     // erase line
	SGR    // set rendition
	Vis    // show/hide cursor
	Ignore // recognised but without effect on a screen
	NKind
)

// Op is one operation.
type Op struct {
	Kind  Kind
	R     rune
	Dir   byte
	N     int
	X, Y  int
	Arg   string
	A     vt.Attr
	Fresh bool // SGR starts from a clear
	On    bool
	Raw   string
	Enc   []byte
}

func (o Op) String() string { return strconv.Quote(string(o.Enc)) }

var ignored = []string{
	"\x1b]0;some title\x1b\\", "\x1b]2;t\u00e9l\xc2\x9c", "\x1bPq#0;2\x1b\\", "\x1b_app\x1b\\", "\x1b^pm\x1b\\",
	"\x1b(B", "\x1b)0", "\x1b=", "\x1b>", "\x1b7", "\x1b8", "\x1bc",
	"\x1b[5n", "\x1b[?1049h", "\x1b[?1000;1006h", "\x1b[?1l", "\x1b[4h", "\x1b[20l", "\x1b[!p", "\x1b[2 q", "\x1b[>c", "\x1b[3g",
	"\a", "\x00", "\x0e", "\x0f", "\x7f", "\x05",
}

// Gen generates one operation for a w x h screen.
func Gen(w, h int) *rapid.Generator[Op] {
	return rapid.Custom(func(t *rapid.T) (o Op) {
		switch k := rapid.IntRange(0, 19).Draw(t, "opKind"); {
		case k < 8:
			o.Kind, o.R = Text, gen.Rune().Draw(t, "r")
			o.Enc = []byte(string(o.R))
		case k == 8:
			o.Kind, o.Enc = CR, []byte("\r")
		case k == 9:
			o.Kind, o.Enc = LF, []byte("\n")
		case k == 10:
			o.Kind, o.Dir = Move, "ABCD"[rapid.IntRange(0, 3).Draw(t, "dir")]
			o.N = rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(0, 300)).Draw(t, "n")
			o.Enc = []byte(csi(intro(t)) + num(o.N) + string(o.Dir))
		case k == 11, k == 12:
			o.Kind = Pos
			if rapid.IntRange(0, 7).Draw(t, "home") > 0 {
				o.X, o.Y = rapid.IntRange(1, w+2).Draw(t, "x"), rapid.IntRange(1, h+2).Draw(t, "y")
				o.Enc = []byte(csi(intro(t)) + num(o.Y) + ";" + num(o.X) + "H")
			} else {
				o.Enc = []byte(csi(intro(t)) + "H")
			}
		case k == 13:
			o.Kind, o.Arg = ED, []string{"", "0", "1", "2"}[rapid.IntRange(0, 3).Draw(t, "how")]
			o.Enc = []byte(csi(intro(t)) + o.Arg + "J")
		case k == 14:
			o.Kind, o.Arg = EL, []string{"", "0", "1", "2"}[rapid.IntRange(0, 3).Draw(t, "how")]
			o.Enc = []byte(csi(intro(t)) + o.Arg + "K")
		case k < 18:
			o.Kind = SGR
			o.A = gen.Attr().Draw(t, "attr")
			o.Fresh = o.A == (vt.Attr{}) || rapid.Bool().Draw(t, "fresh")
			o.Enc = []byte(csi(intro(t)) + SGRParams(t, o.A, o.Fresh) + "m")
		case k == 18:
			o.Kind, o.On = Vis, rapid.Bool().Draw(t, "on")
			f := "l"
			if o.On {
				f = "h"
			}
			mode := []string{"25", "25;1000", "7;25", "1006;25;1"}[rapid.IntRange(0, 3).Draw(t, "modes")]
			o.Enc = []byte(csi(intro(t)) + "?" + mode + f)
		default:
			o.Kind = Ignore
			o.Raw = rapid.SampledFrom(ignored).Draw(t, "ignored")
			o.Enc = []byte(o.Raw)
		}
		return o
	})
}

func intro(t *rapid.T) bool { return rapid.IntRange(0, 9).Draw(t, "c1") == 0 }

func csi(c1 bool) string {
	if c1 {
		return "\u009b"
	}
	return "\x1b["
}

func num(n int) string {
	if n == 0 {
		return ""
	}
	return strconv.Itoa(n)
}

// SGRParams renders an attribute as SGR parameters, in a random order.
func SGRParams(t *rapid.T, a vt.Attr, fresh bool) string {
	var ps []string
	for _, f := range []struct {
		on bool
		s  string
	}{{a.Bold, "1"}, {a.Dim, "2"}, {a.Italic, "3"}, {a.Under, "4"}, {a.Neg, "7"}, {a.Conceal, "8"}} {
		if f.on {
			ps = append(ps, f.s)
		}
	}
	col := func(c vt.Color, base int) {
		switch {
		case c.Kind == 0:
		case c.Kind == 2:
			ps = append(ps, fmt.Sprintf("%d;2;%d;%d;%d", base+8, c.R, c.G, c.B))
		case c.Idx < 8 && rapid.Bool().Draw(t, "classic"):
			ps = append(ps, strconv.Itoa(base+int(c.Idx)))
		case c.Idx < 16 && rapid.Bool().Draw(t, "bright") && c.Idx >= 8:
			ps = append(ps, strconv.Itoa(base+60+int(c.Idx)-8))
		default:
			ps = append(ps, fmt.Sprintf("%d;5;%d", base+8, c.Idx))
		}
	}
	col(a.FG, 30)
	col(a.BG, 40)
	if len(ps) > 1 {
		ps = rapid.Permutation(ps).Draw(t, "order")
	}
	if fresh {
		if len(ps) == 0 && rapid.Bool().Draw(t, "emptySGR") {
			return ""
		}
		ps = append([]string{"0"}, ps...)
	}
	return strings.Join(ps, ";")
}

// Merge applies an SGR operation to a rendition.
func Merge(a vt.Attr, o Op) vt.Attr {
	if o.Fresh {
		a = vt.Attr{}
	}
	a.Bold = a.Bold || o.A.Bold
	a.Dim = a.Dim || o.A.Dim
	a.Italic = a.Italic || o.A.Italic
	a.Under = a.Under || o.A.Under
	a.Neg = a.Neg || o.A.Neg
	a.Conceal = a.Conceal || o.A.Conceal
	if o.A.FG.Kind != 0 {
		a.FG = o.A.FG
	}
	if o.A.BG.Kind != 0 {
		a.BG = o.A.BG
	}
	return a
}

// Model is the screen the operations should produce.
type Model struct {
	W, H  int
	Cells []vt.Cell // R == 0 where nothing was written
	X, Y  int
	A     vt.Attr
	Vis   bool
	// Bottoms counts line feeds that would have scrolled a full terminal.
	Bottoms int
}

// NewModel makes an empty screen.
func NewModel(w, h int) *Model { return &Model{W: w, H: h, X: 1, Y: 1, Cells: make([]vt.Cell, w*h)} }

// Clamp keeps the cursor on the screen.
func (m *Model) Clamp() {
	m.X = min(max(m.X, 1), m.W)
	m.Y = min(max(m.Y, 1), m.H)
}

func (m *Model) lf() {
	if m.Y < m.H {
		m.Y++
	} else {
		m.Bottoms++
	}
}

// Do applies an operation.
func (m *Model) Do(o Op) {
	at := (m.Y-1)*m.W + m.X - 1
	row := (m.Y - 1) * m.W
	clear := func(i, j int) {
		for ; i < j; i++ {
			m.Cells[i] = vt.Cell{}
		}
	}
	switch o.Kind {
	case Text:
		m.Cells[at] = vt.Cell{R: o.R, A: m.A}
		if m.X++; m.X > m.W {
			m.X = 1
			m.lf()
		}
	case CR:
		m.X = 1
	case LF:
		m.lf()
	case Move:
		n := max(o.N, 1)
		switch o.Dir {
		case 'A':
			m.Y -= n
		case 'B':
			m.Y += n
		case 'C':
			m.X += n
		case 'D':
			m.X -= n
		}
		m.Clamp()
	case Pos:
		m.X, m.Y = max(o.X, 1), max(o.Y, 1)
		m.Clamp()
	case ED:
		switch o.Arg {
		case "", "0":
			clear(at, len(m.Cells))
		case "1":
			clear(0, at+1)
		case "2":
			clear(0, len(m.Cells))
		}
	case EL:
		switch o.Arg {
		case "", "0":
			clear(at, row+m.W)
		case "1":
			clear(row, at+1)
		case "2":
			clear(row, row+m.W)
		}
	case SGR:
		m.A = Merge(m.A, o)
	case Vis:
		m.Vis = o.On
	}
}
