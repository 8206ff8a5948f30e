// Package vt is an independent reference terminal: a small model of what an
// xterm-like terminal does with the bytes it is sent. It shares no code with
// the library under test.
package vt

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Color is an absolute color: Kind 0 is the terminal default, 1 is a palette
// index, 2 is 24-bit.
type Color struct {
	Kind    uint8
	Idx     uint8
	R, G, B uint8
}

// Idx makes a palette color.
func Idx(i uint8) Color { return Color{Kind: 1, Idx: i} }

// RGB makes a 24-bit color.
func RGB(r, g, b uint8) Color { return Color{Kind: 2, R: r, G: g, B: b} }

// Attr is graphic rendition state.
type Attr struct {
	Bold, Dim, Italic, Under, Neg, Conceal bool
	FG, BG                                 Color
}

func (c Color) String() string {
	switch c.Kind {
	case 1:
		return "#" + strconv.Itoa(int(c.Idx))
	case 2:
		return fmt.Sprintf("rgb(%d,%d,%d)", c.R, c.G, c.B)
	}
	return "-"
}

func (a Attr) String() string {
	if a == (Attr{}) {
		return "plain"
	}
	s := ""
	for i, b := range []bool{a.Bold, a.Dim, a.Italic, a.Under, a.Neg, a.Conceal} {
		if b {
			s += string("BDIUNC"[i])
		}
	}
	return s + "/" + a.FG.String() + "/" + a.BG.String()
}

// Cell is one displayed cell; a blank cell is a space.
type Cell struct {
	R rune
	A Attr
}

// Wrap selects what happens at the right margin.
type Wrap int

const (
	// Deferred is xterm: the cursor stays on the last column until the next
	// printable character arrives.
	Deferred Wrap = iota
	// Clamp never wraps: printing at the margin keeps overwriting it (DECAWM off).
	Clamp
)

// Term is the terminal.
type Term struct {
	W, H    int
	Cells   []Cell
	X, Y    int // 1-based
	Pending bool
	A       Attr
	Visible bool
	BCE     bool // erased cells take the current background
	Wrap    Wrap
	Scrolls int // count of scroll events
	Modes   map[string]bool
	Trace   []string // every control function seen, by name
	OnPrint func(x, y int)

	st    int
	param []byte
	inter []byte
	u8    []byte
	str   byte
	strs  []string
	sbuf  []byte
}

const (
	ground = iota
	esc
	csi
	csiIgnore
	str
	strEsc
)

// New makes a cleared terminal.
func New(w, h int) *Term {
	t := &Term{W: w, H: h, X: 1, Y: 1, Visible: true, Modes: map[string]bool{}}
	t.Cells = make([]Cell, w*h)
	for i := range t.Cells {
		t.Cells[i].R = ' '
	}
	return t
}

// Resize changes the size, keeping the top-left content.
func (t *Term) Resize(w, h int) {
	n := make([]Cell, w*h)
	for i := range n {
		n[i].R = ' '
	}
	for y := 0; y < h && y < t.H; y++ {
		for x := 0; x < w && x < t.W; x++ {
			n[y*w+x] = t.Cells[y*t.W+x]
		}
	}
	t.Cells, t.W, t.H = n, w, h
	t.Pending = false
	t.clamp()
}

func (t *Term) clamp() {
	if t.X > t.W {
		t.X = t.W
	}
	if t.Y > t.H {
		t.Y = t.H
	}
	if t.X < 1 {
		t.X = 1
	}
	if t.Y < 1 {
		t.Y = 1
	}
}

// Write feeds bytes to the terminal.
func (t *Term) Write(p []byte) (int, error) {
	for _, b := range p {
		t.feed(b)
	}
	return len(p), nil
}

func (t *Term) feed(b byte) {
	if len(t.u8) > 0 || (b >= 0x80) {
		if len(t.u8) > 0 && (b < 0x80 || b >= 0xC0) {
			t.u8 = t.u8[:0]
			t.rune(utf8.RuneError)
			t.feed(b)
			return
		}
		t.u8 = append(t.u8, b)
		if !utf8.FullRune(t.u8) {
			return
		}
		r, n := utf8.DecodeRune(t.u8)
		rest := append([]byte(nil), t.u8[n:]...)
		t.u8 = t.u8[:0]
		t.rune(r)
		for _, c := range rest {
			t.feed(c)
		}
		return
	}
	t.rune(rune(b))
}

func (t *Term) rune(r rune) {
	// anywhere transitions
	switch r {
	case 0x18, 0x1A:
		t.st = ground
		return
	case 0x1B:
		if t.st == str {
			t.st = strEsc
			return
		}
		t.st, t.inter, t.param = esc, t.inter[:0], t.param[:0]
		return
	}
	switch t.st {
	case str:
		if r == 0x9C {
			t.endString()
			return
		}
		t.sbuf = utf8.AppendRune(t.sbuf, r)
		return
	case strEsc:
		if r == '\\' {
			t.endString()
			return
		}
		t.st, t.inter, t.param = esc, t.inter[:0], t.param[:0]
		// fall through to esc handling of r
	}
	if r < 0x20 {
		t.c0(r)
		return
	}
	if r == 0x7F {
		return
	}
	if 0x80 <= r && r <= 0x9F {
		t.c1(r)
		return
	}
	switch t.st {
	case ground:
		t.print(r)
	case esc:
		switch {
		case r <= 0x2F:
			t.inter = append(t.inter, byte(r))
		case r <= 0x7E:
			if len(t.inter) == 0 && r >= 0x40 && r <= 0x5F {
				t.st = ground
				t.c1(r + 0x40)
				return
			}
			t.st = ground
			t.Trace = append(t.Trace, "ESC"+string(t.inter)+string(r))
		default:
			t.st = ground
		}
	case csi, csiIgnore:
		switch {
		case r <= 0x2F:
			t.inter = append(t.inter, byte(r))
		case r <= 0x3F:
			if len(t.inter) > 0 {
				t.st = csiIgnore
			}
			t.param = append(t.param, byte(r))
		case r <= 0x7E:
			ign := t.st == csiIgnore
			t.st = ground
			if !ign {
				t.csi(byte(r))
			}
		default:
		}
	}
}

func (t *Term) c1(r rune) {
	switch r {
	case 0x9B:
		t.st, t.inter, t.param = csi, t.inter[:0], t.param[:0]
	case 0x90, 0x9D, 0x9E, 0x9F, 0x98:
		t.st, t.str, t.sbuf = str, byte(r), t.sbuf[:0]
	case 0x84: // IND
		t.st = ground
		t.lf()
	case 0x85: // NEL
		t.st = ground
		t.X = 1
		t.lf()
	default:
		t.st = ground
		t.Trace = append(t.Trace, fmt.Sprintf("C1+%02X", r))
	}
}

func (t *Term) endString() {
	t.st = ground
	t.Trace = append(t.Trace, fmt.Sprintf("STR%02X%q", t.str, t.sbuf))
}

func (t *Term) c0(r rune) {
	switch r {
	case '\n', 0x0B, 0x0C:
		t.lf()
	case '\r':
		t.X, t.Pending = 1, false
	case '\b':
		if t.X > 1 {
			t.X--
		}
		t.Pending = false
	}
}

func (t *Term) blank() Cell {
	c := Cell{R: ' '}
	if t.BCE {
		c.A.BG = t.A.BG
	}
	return c
}

func (t *Term) lf() {
	t.Pending = false
	if t.Y < t.H {
		t.Y++
		return
	}
	t.Scrolls++
	copy(t.Cells, t.Cells[t.W:])
	for i := (t.H - 1) * t.W; i < t.H*t.W; i++ {
		t.Cells[i] = t.blank()
	}
}

func (t *Term) print(r rune) {
	if t.W == 0 || t.H == 0 {
		return
	}
	if t.Pending {
		t.X = 1
		t.lf()
		t.Pending = false
	}
	t.Cells[(t.Y-1)*t.W+t.X-1] = Cell{r, t.A}
	if t.OnPrint != nil {
		t.OnPrint(t.X, t.Y)
	}
	if t.X < t.W {
		t.X++
	} else if t.Wrap == Deferred {
		t.Pending = true
	}
}

func (t *Term) nums() (ns []int, ok bool) {
	if len(t.param) == 0 {
		return nil, true
	}
	for _, s := range strings.Split(string(t.param), ";") {
		if s == "" {
			ns = append(ns, -1)
			continue
		}
		n, err := strconv.Atoi(s)
		if err != nil || n < 0 {
			return nil, false
		}
		ns = append(ns, n)
	}
	return ns, true
}

func arg(ns []int, i, def int) int {
	if i < len(ns) && ns[i] > 0 {
		return ns[i]
	}
	return def
}

func (t *Term) csi(final byte) {
	if len(t.inter) > 0 {
		t.Trace = append(t.Trace, "CSI"+string(t.inter)+string(final))
		return
	}
	if len(t.param) > 0 && t.param[0] >= '<' {
		t.private(final)
		return
	}
	ns, ok := t.nums()
	if !ok {
		t.Trace = append(t.Trace, "CSI?bad"+string(final)+string(t.param))
		return
	}
	switch final {
	case 'A':
		t.Y -= arg(ns, 0, 1)
		t.Pending = false
		t.clamp()
	case 'B':
		t.Y += arg(ns, 0, 1)
		t.Pending = false
		t.clamp()
	case 'C':
		t.X += arg(ns, 0, 1)
		t.Pending = false
		t.clamp()
	case 'D':
		t.X -= arg(ns, 0, 1)
		t.Pending = false
		t.clamp()
	case 'H':
		t.Y, t.X = arg(ns, 0, 1), arg(ns, 1, 1)
		t.Pending = false
		t.clamp()
	case 'J':
		at := (t.Y-1)*t.W + t.X - 1
		switch arg(ns, 0, 0) {
		case 0:
			t.erase(at, len(t.Cells))
		case 1:
			t.erase(0, at+1)
		case 2:
			t.erase(0, len(t.Cells))
		}
	case 'K':
		row := (t.Y - 1) * t.W
		switch arg(ns, 0, 0) {
		case 0:
			t.erase(row+t.X-1, row+t.W)
		case 1:
			t.erase(row, row+t.X)
		case 2:
			t.erase(row, row+t.W)
		}
	case 'm':
		t.sgr(ns)
	default:
		t.Trace = append(t.Trace, "CSI"+string(t.param)+string(final))
	}
}

func (t *Term) erase(i, j int) {
	for ; i < j && i < len(t.Cells); i++ {
		t.Cells[i] = t.blank()
	}
}

func (t *Term) private(final byte) {
	if (final != 'h' && final != 'l') || t.param[0] != '?' {
		t.Trace = append(t.Trace, "CSI"+string(t.param)+string(final))
		return
	}
	for _, m := range strings.Split(string(t.param[1:]), ";") {
		if m == "25" {
			t.Visible = final == 'h'
		}
		t.Modes["?"+m] = final == 'h'
	}
}

func (t *Term) sgr(ns []int) {
	if len(ns) == 0 {
		ns = []int{0}
	}
	for i := 0; i < len(ns); i++ {
		n := ns[i]
		switch {
		case n <= 0:
			t.A = Attr{}
		case n == 1:
			t.A.Bold = true
		case n == 2:
			t.A.Dim = true
		case n == 3:
			t.A.Italic = true
		case n == 4:
			t.A.Under = true
		case n == 7:
			t.A.Neg = true
		case n == 8:
			t.A.Conceal = true
		case n == 22:
			t.A.Bold, t.A.Dim = false, false
		case n == 23:
			t.A.Italic = false
		case n == 24:
			t.A.Under = false
		case n == 27:
			t.A.Neg = false
		case n == 28:
			t.A.Conceal = false
		case 30 <= n && n <= 37:
			t.A.FG = Idx(uint8(n - 30))
		case n == 39:
			t.A.FG = Color{}
		case 40 <= n && n <= 47:
			t.A.BG = Idx(uint8(n - 40))
		case n == 49:
			t.A.BG = Color{}
		case 90 <= n && n <= 97:
			t.A.FG = Idx(uint8(n - 90 + 8))
		case 100 <= n && n <= 107:
			t.A.BG = Idx(uint8(n - 100 + 8))
		case n == 38 || n == 48:
			var c Color
			if i+2 < len(ns) && ns[i+1] == 5 && ns[i+2] >= 0 && ns[i+2] <= 255 {
				c = Idx(uint8(ns[i+2]))
				i += 2
			} else if i+4 < len(ns) && ns[i+1] == 2 && ns[i+2] <= 255 && ns[i+3] <= 255 && ns[i+4] <= 255 {
				c = RGB(uint8(max(ns[i+2], 0)), uint8(max(ns[i+3], 0)), uint8(max(ns[i+4], 0)))
				i += 4
			} else {
				t.Trace = append(t.Trace, "SGR?bad"+string(t.param))
				return
			}
			if n == 38 {
				t.A.FG = c
			} else {
				t.A.BG = c
			}
		default:
			t.Trace = append(t.Trace, "SGR?"+strconv.Itoa(n))
		}
	}
}

// At returns the displayed cell.
func (t *Term) At(x, y int) Cell { return t.Cells[(y-1)*t.W+x-1] }

// Idle says whether the parser is between sequences.
func (t *Term) Idle() bool { return t.st == ground && len(t.u8) == 0 }

func (t *Term) String() string {
	var b strings.Builder
	for y := 1; y <= t.H; y++ {
		b.WriteString("|")
		for x := 1; x <= t.W; x++ {
			b.WriteRune(t.At(x, y).R)
		}
		b.WriteString("|\n")
	}
	fmt.Fprintf(&b, "cursor %d,%d pending=%v visible=%v attr=%v", t.X, t.Y, t.Pending, t.Visible, t.A)
	return b.String()
}
