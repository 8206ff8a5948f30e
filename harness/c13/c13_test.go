package c13

import (
	"bytes"
	"fmt"
	"image"
	"math/big"
	"strconv"
	"strings"
	"testing"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"pgregory.net/rapid"

	"verif/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

// number generates a decimal number with its value; big ones included.
func number(t *rapid.T) (string, *big.Int) {
	s := ""
	switch rapid.IntRange(0, 5).Draw(t, "numKind") {
	case 0:
		s = rapid.SampledFrom([]string{"4294967294", "4294967295", "4294967296", "42949672950", "4294967300", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "2147483648", "1844674407370955162"}).Draw(t, "edge")
	case 1:
		for k := rapid.IntRange(1, 25).Draw(t, "nd"); k > 0; k-- {
			s += string(rune('0' + rapid.IntRange(0, 9).Draw(t, "d")))
		}
	default:
		s = strconv.Itoa(rapid.IntRange(0, 3000).Draw(t, "small"))
		s = strings.Repeat("0", rapid.SampledFrom([]int{0, 0, 0, 1, 12, 30}).Draw(t, "zeros")) + s
	}
	v, _ := new(big.Int).SetString(s, 10)
	return s, v
}

var limit = big.NewInt(1<<32 - 1)

const numRule = "decimal numbers with signs, leading separators and zeros, around the 32-bit limit and far beyond, followed by anything, and non-numbers; non-trivial = signed, separated, or out of range"

// TestNumber: numbers decode to their value, or fail.
func TestNumber(t *testing.T) {
	hx.Check(t, 80000, numRule, func(t *rapid.T, c *hx.Case) {
		if rapid.IntRange(0, 5).Draw(t, "bad") == 0 {
			p := rapid.SampledFrom([]string{"", ";", "-", "+", ";-", ";+", ";;1", "x", ";x", "-x", "--1", "+-1", " 1", ":", "-;1", "\x00"}).Draw(t, "p")
			c.Logf("bad %q", p)
			if _, n, err := ansi.DecodeNumber([]byte(p)); err == nil || n < 0 || n > len(p) {
				t.Fatalf("%q decodes with %d bytes, %v", p, n, err)
			}
			return
		}
		sep := rapid.SampledFrom([]string{"", ";"}).Draw(t, "sep")
		sign := rapid.SampledFrom([]string{"", "", "-", "+"}).Draw(t, "sign")
		num, v := number(t)
		rest := rapid.SampledFrom([]string{"", ";", ";5", "x", "-3", ":", " ", "\xff"}).Draw(t, "rest")
		p := sep + sign + num + rest
		c.Logf("%q", p)
		over := v.Cmp(limit) > 0
		c.NT(over || sep != "" || sign != "")
		r, n, err := ansi.DecodeNumber([]byte(p))
		if over {
			if err == nil || n < 0 || n > len(p) {
				t.Fatalf("%q decodes as %d with %d bytes, %v", p, r, n, err)
			}
			return
		}
		want := int(v.Int64())
		if sign == "-" {
			want = -want
		}
		if err != nil || r != want || n != len(p)-len(rest) {
			t.Fatalf("%q decodes as %d with %d bytes, %v", p, r, n, err)
		}
	})
}

const pointRule = "points and cardinal moves, encoded with the library's sequence builders or by hand, with missing and malformed numbers; non-trivial = well-formed and not 1"

// TestPoint: positions and moves survive encoding and decoding.
func TestPoint(t *testing.T) {
	hx.Check(t, 60000, pointRule, func(t *rapid.T, c *hx.Case) {
		co := rapid.OneOf(rapid.IntRange(1, 300), rapid.IntRange(1, 1<<31-1))
		p := ansi.Pt(co.Draw(t, "x"), co.Draw(t, "y"))
		c.Logf("%v", p)
		c.NT(p.X > 1 && p.Y > 1)
		enc := ansi.CUP.WithPoint(p).AppendTo(nil)
		if want := fmt.Sprintf("\x1b[%d;%dH", p.Y, p.X); string(enc) != want {
			t.Fatalf("position %v encodes as %q, want %q", p, enc, want)
		}
		e, arg, n := ansi.DecodeEscape(enc)
		if e != ansi.CUP || n != len(enc) {
			t.Fatalf("%q decodes as %v, %d bytes", enc, e, n)
		}
		rest := rapid.SampledFrom([]string{"", ";7", ";", " q"}).Draw(t, "rest")
		arg = append(append([]byte(nil), arg...), rest...)
		q, n, err := ansi.DecodePoint(arg)
		if err != nil || q != p || n != len(arg)-len(rest) {
			t.Fatalf("%q decodes as %v with %d bytes, %v", arg, q, n, err)
		}
		for _, bad := range []string{"", fmt.Sprint(p.Y), fmt.Sprintf("%d;", p.Y), fmt.Sprintf("x;%d", p.X), fmt.Sprintf("%d;x", p.Y), fmt.Sprintf("99999999999;%d", p.X)} {
			if q, _, err := ansi.DecodePoint([]byte(bad)); err == nil {
				t.Fatalf("%q decodes as %v", bad, q)
			}
		}
		i := rapid.IntRange(0, 3).Draw(t, "dir")
		id := []ansi.Escape{ansi.CUU, ansi.CUD, ansi.CUF, ansi.CUB}[i]
		unit := []image.Point{{0, -1}, {0, 1}, {1, 0}, {-1, 0}}[i]
		k := co.Draw(t, "k")
		enc = id.WithInts(k).AppendTo(nil)
		e, arg, _ = ansi.DecodeEscape(enc)
		if d, ok := ansi.DecodeCursorCardinal(e, arg); !ok || d != unit.Mul(k) {
			t.Fatalf("%q is a move of %v, %v", enc, d, ok)
		}
		if d, ok := ansi.DecodeCursorCardinal(id, nil); !ok || d != unit {
			t.Fatalf("%v without argument is a move of %v, %v", id, d, ok)
		}
		other := rapid.SampledFrom([]ansi.Escape{ansi.CUP, ansi.SGR, ansi.ED, ansi.ESC('A'), ansi.CSI('E'), ansi.Escape('A'), 0}).Draw(t, "other")
		if d, ok := ansi.DecodeCursorCardinal(other, []byte("3")); ok || d != image.ZP {
			t.Fatalf("%v is a move of %v", other, d)
		}
	})
}

const mouseRule = "all mouse states, 1-based positions and malformed arguments; non-trivial = a valid report"

func stateName(b int) string {
	mods := []string{}
	if b&16 != 0 {
		mods = append(mods, "ctrl")
	}
	if b&4 != 0 {
		mods = append(mods, "shift")
	}
	if b&8 != 0 {
		mods = append(mods, "meta")
	}
	s := ""
	switch {
	case b&64 != 0:
		s = []string{"wheelUp", "wheelDown", "thirdWheel"}[b&3]
	case b&3 < 3:
		s = []string{"left", "middle", "right"}[b&3]
	}
	switch b & (32 | 128) {
	case 32:
		if s == "" {
			s = "motion"
		} else {
			s += "-drag"
		}
	case 128:
		if s == "" {
			s = "??? release"
		} else {
			s += "-release"
		}
	}
	if len(mods) > 0 {
		return strings.Join(mods, "+") + "+" + s
	}
	return s
}

// TestMouse: extended mouse reports decode to what they say.
func TestMouse(t *testing.T) {
	hx.Check(t, 60000, mouseRule, func(t *rapid.T, c *hx.Case) {
		b := rapid.IntRange(0, 127).Draw(t, "b")
		release := rapid.Bool().Draw(t, "release")
		co := rapid.OneOf(rapid.IntRange(1, 300), rapid.IntRange(1, 1<<31-1))
		p := ansi.Pt(co.Draw(t, "x"), co.Draw(t, "y"))
		final := byte('M')
		want := ansi.MouseState(b)
		if release {
			final = 'm'
			want |= ansi.MouseRelease
		}
		arg := fmt.Sprintf("<%d;%d;%d", b, p.X, p.Y)
		if rapid.IntRange(0, 3).Draw(t, "bad") == 0 {
			bad := rapid.SampledFrom([]string{
				"<", "<1", "<1;", "<1;2", "<1;2;", "<256;1;1", "<-1;1;1", "<99999999999;1;1", "<x;1;1", "<1;x;1", "<1;1;x",
				arg + ";", arg + ";1", arg + "x", "<1;99999999999;1", "<1;1;99999999999", "<;;", "<-99999999999;1;1",
			}).Draw(t, "arg")
			c.Logf("bad %q", bad)
			m, q, err := ansi.DecodeXtermExtendedMouse(ansi.CSI(final), []byte(bad))
			if err == nil {
				t.Fatalf("%q decodes as %v at %v", bad, m, q)
			}
			if !strings.Contains(err.Error(), "mouse") {
				t.Fatalf("%q: error %v", bad, err)
			}
			return
		}
		c.Logf("%q %c", arg, final)
		c.NT(true)
		e, a, n := ansi.DecodeEscape([]byte("\x1b[" + arg + string(rune(final))))
		if e != ansi.CSI(final) || n != len(arg)+3 {
			t.Fatalf("%q decodes as %v, %d bytes", arg, e, n)
		}
		m, q, err := ansi.DecodeXtermExtendedMouse(e, a)
		if err != nil || m != want || q != p {
			t.Fatalf("%q%c decodes as %v at %v, %v", arg, final, m, q, err)
		}
		// other sequences are none of its business
		for _, o := range []struct {
			id  ansi.Escape
			arg string
		}{{ansi.CSI('H'), arg}, {ansi.CSI(final), arg[1:]}, {ansi.CSI(final), ""}, {ansi.ESC(final), arg}} {
			if m, q, err := ansi.DecodeXtermExtendedMouse(o.id, []byte(o.arg)); m != 0 || q != ansi.ZP || err != nil {
				t.Fatalf("%v %q decodes as %v at %v, %v", o.id, o.arg, m, q, err)
			}
		}
		if b&64 != 0 && b&3 == 3 {
			return
		}
		all := b
		if release {
			all |= 128
		}
		motion := b&32 != 0
		id := uint8(0)
		switch {
		case b&64 != 0:
			id = uint8(b&3) + 4
		case b&3 < 3:
			id = uint8(b&3) + 1
		}
		pid, press := m.IsPress()
		if m.ButtonID() != id || m.IsMotion() != motion || m.IsRelease() != release || press != (!motion && !release) ||
			press && pid != id || m.IsDrag() != (motion && !release && id != 0) || int(m.Modifier()) != b&28 {
			t.Fatalf("state %d: button %d motion %v release %v press %d %v drag %v mod %d", all, m.ButtonID(), m.IsMotion(), m.IsRelease(), pid, press, m.IsDrag(), m.Modifier())
		}
		if !(motion && release) && m.String() != stateName(all) {
			t.Fatalf("state %d is named %q, should be %q", all, m.String(), stateName(all))
		}
	})
}

var modes = []struct {
	m ansi.Mode
	s string
}{
	{ansi.ModeMouseX10, "?9"}, {ansi.ModeMouseVt200, "?1000"}, {ansi.ModeMouseVt200Highlight, "?1001"}, {ansi.ModeMouseBtnEvent, "?1002"},
	{ansi.ModeMouseAnyEvent, "?1003"}, {ansi.ModeMouseFocusEvent, "?1004"}, {ansi.ModeMouseExt, "?1005"}, {ansi.ModeMouseSgrExt, "?1006"},
	{ansi.ModeMouseUrxvtExt, "?1015"}, {ansi.ModeAlternateScroll, "?1007"}, {ansi.ModeMetaReporting, "?1036"}, {ansi.ModeAlternateScreen, "?1049"},
	{ansi.ModeBracketedPaste, "?2004"}, {ansi.ShowCursor, "?25"},
}

const modeRule = "random lists of modes, pairs and sequences added to a Mode in random groups; non-trivial = three or more added"

// TestModes: modes encode as documented, decode back, and a Mode undoes in
// reverse order what it did.
func TestModes(t *testing.T) {
	hx.Check(t, 40000, modeRule, func(t *rapid.T, c *hx.Case) {
		var mode anansi.Mode
		var set, reset string
		one := func() (ansi.Mode, string) {
			if rapid.Bool().Draw(t, "named") {
				m := modes[rapid.IntRange(0, len(modes)-1).Draw(t, "mode")]
				return m.m, m.s
			}
			v := rapid.IntRange(1, 99999).Draw(t, "v")
			private := rapid.Bool().Draw(t, "private")
			m, n, err := ansi.DecodeMode(private, []byte(strconv.Itoa(v)))
			if err != nil || n != len(strconv.Itoa(v)) {
				t.Fatalf("mode %d: %d bytes, %v", v, n, err)
			}
			if private {
				if m != ansi.ModePrivate|ansi.Mode(v) {
					t.Fatalf("private mode %d decodes as %x", v, uint64(m))
				}
				return m, "?" + strconv.Itoa(v)
			}
			if m != ansi.Mode(v) {
				t.Fatalf("mode %d decodes as %x", v, uint64(m))
			}
			return m, strconv.Itoa(v)
		}
		n := rapid.IntRange(0, 8).Draw(t, "n")
		c.NT(n > 2)
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 2).Draw(t, "how") {
			case 0:
				var ms []ansi.Mode
				for k := rapid.IntRange(0, 4).Draw(t, "k"); k > 0; k-- {
					m, s := one()
					ms = append(ms, m)
					set += "\x1b[" + s + "h"
					reset = "\x1b[" + s + "l" + reset
				}
				mode.AddMode(ms...)
			case 1:
				m, s := one()
				o, r := one()
				mode.AddModePair(m.Set(), o.Set())
				set += "\x1b[" + s + "h"
				reset = "\x1b[" + r + "h" + reset
			case 2:
				var ss []ansi.Seq
				for k := rapid.IntRange(0, 4).Draw(t, "k"); k > 0; k-- {
					x := rapid.IntRange(1, 500).Draw(t, "x")
					ss = append(ss, ansi.CUP.WithInts(x, 1))
					s := fmt.Sprintf("\x1b[%d;1H", x)
					set += s
					reset = s + reset
				}
				mode.AddModeSeq(ss...)
			}
			if string(mode.Set) != set || string(mode.Reset) != reset {
				t.Fatalf("mode sets %q, should %q; resets %q, should %q", mode.Set, set, mode.Reset, reset)
			}
		}
		c.Logf("%q %q", set, reset)
		if _, _, err := ansi.DecodeMode(true, nil); err == nil {
			t.Fatalf("no mode decodes")
		}
		if bytes.Contains(mode.Set, []byte{0}) {
			t.Fatalf("NUL in %q", mode.Set)
		}
	})
}
