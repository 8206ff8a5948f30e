package c11

import (
	"fmt"
	"strconv"
	"strings"
	"testing"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
	"verif/vt"
)

func TestMain(m *testing.M) { hx.Main(m) }

// colorCode is the standard's encoding of a color selection.
func colorCode(c vt.Color, base int) string {
	switch {
	case c.Kind == 2:
		return fmt.Sprintf("%d;2;%d;%d;%d", base+8, c.R, c.G, c.B)
	case c.Idx < 8:
		return strconv.Itoa(base + int(c.Idx))
	case c.Idx < 16:
		return strconv.Itoa(base + 60 + int(c.Idx) - 8)
	}
	return fmt.Sprintf("%d;5;%d", base+8, c.Idx)
}

// code encodes a rendition, as changes to a cleared one or not.
func code(a vt.Attr, clear bool) string {
	var ps []string
	if clear {
		ps = append(ps, "0")
	}
	for i, on := range []bool{a.Bold, a.Dim, a.Italic, a.Under, false, false, a.Neg, a.Conceal} {
		if on {
			ps = append(ps, strconv.Itoa(i+1))
		}
	}
	if a.FG.Kind != 0 {
		ps = append(ps, colorCode(a.FG, 30))
	}
	if a.BG.Kind != 0 {
		ps = append(ps, colorCode(a.BG, 40))
	}
	if len(ps) == 0 {
		ps = []string{"0"}
	}
	return strings.Join(ps, ";")
}

func attr(t *rapid.T, name string) (vt.Attr, bool, ansi.SGRAttr) {
	var a vt.Attr
	if rapid.IntRange(0, 3).Draw(t, name+"Dense") == 0 {
		m := rapid.IntRange(0, 63).Draw(t, name+"Flags")
		a = vt.Attr{Bold: m&1 != 0, Dim: m&2 != 0, Italic: m&4 != 0, Under: m&8 != 0, Neg: m&16 != 0, Conceal: m&32 != 0}
		a.FG = gen.Color().Draw(t, name+"FG")
		a.BG = gen.Color().Draw(t, name+"BG")
	} else {
		a = gen.Attr().Draw(t, name)
	}
	clear := rapid.IntRange(0, 3).Draw(t, name+"Clear") == 0
	s := gen.SGR(a)
	if clear {
		s |= ansi.SGRAttrClear
	}
	return a, clear, s
}

// related generates an attribute that shares parts with another.
func related(t *rapid.T, a vt.Attr) vt.Attr {
	b, _, _ := attr(t, "b")
	m := rapid.IntRange(0, 255).Draw(t, "keep")
	for i, f := range []func(){
		func() { b.Bold = a.Bold }, func() { b.Dim = a.Dim }, func() { b.Italic = a.Italic },
		func() { b.Under = a.Under }, func() { b.Neg = a.Neg }, func() { b.Conceal = a.Conceal },
		func() { b.FG = a.FG }, func() { b.BG = a.BG },
	} {
		if m&(1<<i) != 0 {
			f()
		}
	}
	return b
}

const rule = "random attributes (all flags, 3/4/8/24-bit colors on either ground, explicit clear); non-trivial = two or more of them set"

func weight(a vt.Attr) (n int) {
	for _, on := range []bool{a.Bold, a.Dim, a.Italic, a.Under, a.Neg, a.Conceal, a.FG.Kind != 0, a.BG.Kind != 0} {
		if on {
			n++
		}
	}
	return n
}

// TestEncode: attributes encode as the standard says, at the announced size,
// and decode back.
func TestEncode(t *testing.T) {
	hx.Check(t, 80000, rule, func(t *rapid.T, c *hx.Case) {
		a, clear, s := attr(t, "a")
		c.Logf("%v clear=%v", a, clear)
		c.NT(weight(a) > 1)
		want := "\x1b[" + code(a, clear) + "m"
		n := rapid.IntRange(0, 70).Draw(t, "prior")
		p := make([]byte, n, n+rapid.IntRange(0, 60).Draw(t, "room"))
		for i := range p {
			p[i] = 'P'
		}
		p = s.AppendTo(p)
		if string(p) != strings.Repeat("P", n)+want {
			t.Fatalf("%v (clear %v) appended after %d bytes as %q, want %q", a, clear, n, p, want)
		}
		p = p[n:]
		if cs := s.ControlString(); cs != want {
			t.Fatalf("%v ControlString %q, want %q", a, cs, want)
		}
		if s.Size() != len(want) {
			t.Fatalf("%q has Size %d, is %d bytes", want, s.Size(), len(want))
		}
		e, arg, m := ansi.DecodeEscape(p)
		if e != ansi.SGR || m != len(p) {
			t.Fatalf("%q decodes as %v %q of %d bytes", want, e, arg, m)
		}
		back, m, err := ansi.DecodeSGR(arg)
		if err != nil || m != len(arg) {
			t.Fatalf("%q: decoded %d of %d bytes, %v", want, m, len(arg), err)
		}
		full := s
		if s == 0 {
			full = ansi.SGRAttrClear
		}
		if back != full {
			t.Fatalf("%q decodes as %v, was %v", want, back, s)
		}
		// accessors
		fg, hasFG := s.FG()
		bg, hasBG := s.BG()
		if hasFG != (a.FG.Kind != 0) || hasBG != (a.BG.Kind != 0) || hasFG && fg != gen.SGRColor(a.FG) || hasBG && bg != gen.SGRColor(a.BG) {
			t.Fatalf("%v has colors %v %v, %v %v", a, fg, hasFG, bg, hasBG)
		}
		sf, sb := a, a
		sf.FG, sb.BG = vt.Color{}, vt.Color{}
		if gen.Back(s.SansFG()) != sf || gen.Back(s.SansBG()) != sb || (s.SansFG()|s.SansBG())&ansi.SGRAttrClear != s&ansi.SGRAttrClear {
			t.Fatalf("%v SansFG %v SansBG %v", a, s.SansFG(), s.SansBG())
		}
		if str := s.String(); str != name(a, clear) {
			t.Fatalf("%q is named %q, should be %q", want, str, name(a, clear))
		}
		// what is written is what was encoded, unless there is nothing to do
		var buf anansi.Buffer
		buf.WriteSGR(s)
		if s != 0 && string(buf.Bytes()) != want {
			t.Fatalf("%v written as %q, want %q", a, buf.Bytes(), want)
		}
	})
}

var names = strings.Fields("black red green yellow blue magenta cyan white")

func colorName(c vt.Color) string {
	switch {
	case c.Kind == 2:
		return c.String()
	case c.Idx < 8:
		return names[c.Idx]
	case c.Idx < 16:
		return "bright-" + names[c.Idx-8]
	}
	return fmt.Sprintf("color%d", c.Idx)
}

func name(a vt.Attr, clear bool) string {
	var ps []string
	for i, on := range []bool{clear, a.Bold, a.Dim, a.Italic, a.Under, a.Neg, a.Conceal} {
		if on {
			ps = append(ps, strings.Fields("clear bold dim italic underscore negative conceal")[i])
		}
	}
	if a.FG.Kind != 0 {
		ps = append(ps, "fg:"+colorName(a.FG))
	}
	if a.BG.Kind != 0 {
		ps = append(ps, "bg:"+colorName(a.BG))
	}
	return strings.Join(ps, " ")
}

const decodeRule = "random sequences of SGR parameters in any order, with repeats, clears in the middle and blinks; non-trivial = three or more parameters, one of them overriding another"

// param generates one parameter (group) and applies it.
func param(t *rapid.T, a *vt.Attr, cleared *bool) string {
	flags := []*bool{&a.Bold, &a.Dim, &a.Italic, &a.Under, nil, nil, &a.Neg, &a.Conceal}
	zero := func(s string) string { // leading zeros do not matter
		if rapid.IntRange(0, 9).Draw(t, "zeros") == 0 {
			return strings.Repeat("0", rapid.IntRange(1, 4).Draw(t, "z")) + s
		}
		return s
	}
	switch rapid.IntRange(0, 6).Draw(t, "param") {
	case 0:
		*a, *cleared = vt.Attr{}, true
		return zero("0")
	case 1:
		a.FG = gen.Color().Draw(t, "fg")
		return anyForm(t, a.FG, 30)
	case 2:
		a.BG = gen.Color().Draw(t, "bg")
		return anyForm(t, a.BG, 40)
	}
	i := rapid.IntRange(0, 7).Draw(t, "flag")
	if flags[i] != nil {
		*flags[i] = true
	}
	return zero(strconv.Itoa(i + 1))
}

// anyForm encodes a color in any form that selects it.
func anyForm(t *rapid.T, c vt.Color, base int) string {
	num := func(v int) string { // leading zeros do not matter
		if rapid.IntRange(0, 9).Draw(t, "zeros") == 0 {
			return strings.Repeat("0", rapid.IntRange(1, 4).Draw(t, "z")) + strconv.Itoa(v)
		}
		return strconv.Itoa(v)
	}
	if c.Kind == 1 && rapid.IntRange(0, 3).Draw(t, "long") == 0 {
		return fmt.Sprintf("%d;5;%s", base+8, num(int(c.Idx)))
	}
	if c.Kind == 2 {
		return fmt.Sprintf("%d;2;%s;%s;%s", base+8, num(int(c.R)), num(int(c.G)), num(int(c.B)))
	}
	return colorCode(c, base)
}

// TestDecode: parameters apply one after the other.
func TestDecode(t *testing.T) {
	hx.Check(t, 80000, decodeRule, func(t *rapid.T, c *hx.Case) {
		var a vt.Attr
		cleared := false
		var ps []string
		n := rapid.IntRange(0, 7).Draw(t, "n")
		for i := 0; i < n; i++ {
			ps = append(ps, param(t, &a, &cleared))
		}
		if n == 0 {
			cleared = true // no parameter means 0
		}
		arg := strings.Join(ps, ";")
		c.Logf("%q", arg)
		c.NT(n > 2 && weight(a) < n)
		got, m, err := ansi.DecodeSGR([]byte(arg))
		if err != nil || m != len(arg) {
			t.Fatalf("%q: decoded %d of %d bytes, %v", arg, m, len(arg), err)
		}
		if gen.Back(got) != a || (got&ansi.SGRAttrClear != 0) != cleared {
			t.Fatalf("%q decodes as %v, should be %v (cleared %v)", arg, got, a, cleared)
		}
		// the same on top of any prior rendition
		prior := gen.Attr().Draw(t, "prior")
		want := a
		if !cleared {
			want = over(prior, a)
		}
		if m := gen.Back(gen.SGR(prior).Merge(got)); m != want {
			t.Fatalf("%v merged with %q is %v, should be %v", prior, arg, m, want)
		}
	})
}

func over(a, b vt.Attr) vt.Attr {
	b.Bold = b.Bold || a.Bold
	b.Dim = b.Dim || a.Dim
	b.Italic = b.Italic || a.Italic
	b.Under = b.Under || a.Under
	b.Neg = b.Neg || a.Neg
	b.Conceal = b.Conceal || a.Conceal
	if b.FG.Kind == 0 {
		b.FG = a.FG
	}
	if b.BG.Kind == 0 {
		b.BG = a.BG
	}
	return b
}

const badRule = "good parameters around one that is not valid, and arbitrary bytes; non-trivial = a bad parameter after a good one"

// TestInvalid: invalid parameters are reported where they are, and nothing
// else goes wrong.
func TestInvalid(t *testing.T) {
	bad := rapid.OneOf(
		rapid.Custom(func(t *rapid.T) string { return strconv.Itoa(rapid.IntRange(60, 89).Draw(t, "v")) }),
		rapid.Custom(func(t *rapid.T) string { return strconv.Itoa(rapid.IntRange(108, 999).Draw(t, "v")) }),
		rapid.SampledFrom([]string{"98", "99", "9", "38;5;256", "48;5;1000", "38;2;256;1;1", "38;2;1;300;1", "48;2;1;1;256", "38;3;1", "38;5;x", "38", "48;9", "?1", "1:2", "x", "<", "31x", "97x", "107x", "301", "401", "38:5", "38;2;1;x;1"}),
	)
	hx.Check(t, 40000, badRule, func(t *rapid.T, c *hx.Case) {
		if rapid.IntRange(0, 2).Draw(t, "garbage") == 0 {
			p := rapid.SliceOfN(rapid.SampledFrom([]byte("0123456789;;;:x\x00")), 0, 14).Draw(t, "p")
			c.Logf("garbage %q", p)
			q := string(p)
			_, n, err := ansi.DecodeSGR(p)
			if n < 0 || n > len(p) || err == nil && n != len(p) || string(p) != q {
				t.Fatalf("%q: decoded %d of %d bytes, %v", q, n, len(p), err)
			}
			return
		}
		var a vt.Attr
		var cl bool
		arg := ""
		for i := rapid.IntRange(0, 3).Draw(t, "before"); i > 0; i-- {
			arg += param(t, &a, &cl) + ";"
		}
		start := len(arg)
		b := bad.Draw(t, "bad")
		arg += b
		end := len(arg)
		if b != "38" && b != "48" {
			for i := rapid.IntRange(0, 2).Draw(t, "after"); i > 0; i-- {
				arg += ";" + param(t, &a, &cl)
			}
		}
		c.Logf("%q", arg)
		c.NT(start > 0)
		_, n, err := ansi.DecodeSGR([]byte(arg))
		if err == nil {
			t.Fatalf("%q: no error for %q", arg, b)
		}
		if n < start || n > end {
			t.Fatalf("%q: error %v at %d, bad parameter is %q at %d", arg, err, n, b, start)
		}
	})
}

const diffRule = "random pairs of renditions, often sharing parts; non-trivial = they differ and both have something set"

// TestDiff: merging the difference gives the target, and the difference holds
// nothing that is not needed.
func TestDiff(t *testing.T) {
	hx.Check(t, 80000, diffRule, func(t *rapid.T, c *hx.Case) {
		a, _, _ := attr(t, "a")
		b := related(t, a)
		sa, sb := gen.SGR(a), gen.SGR(b)
		explicit := rapid.IntRange(0, 4).Draw(t, "explicit") == 0
		if explicit {
			sb |= ansi.SGRAttrClear
		}
		c.Logf("%v to %v (clear %v)", a, b, explicit)
		c.NT(a != b && weight(a) > 0 && weight(b) > 0)
		d := sa.Diff(sb)
		got := sa.Merge(d)
		if gen.Back(got) != b {
			t.Fatalf("from %v to %v: difference %v gives %v", a, b, d, got)
		}
		if explicit {
			if d != sb {
				t.Fatalf("difference to %v with a clear is %v", sb, d)
			}
			return
		}
		if got != sb {
			t.Fatalf("from %v to %v: merged as %x, is %x", a, b, uint64(got), uint64(sb))
		}
		gone := a.Bold && !b.Bold || a.Dim && !b.Dim || a.Italic && !b.Italic || a.Under && !b.Under || a.Neg && !b.Neg || a.Conceal && !b.Conceal ||
			a.FG.Kind != 0 && b.FG.Kind == 0 || a.BG.Kind != 0 && b.BG.Kind == 0
		if (d&ansi.SGRAttrClear != 0) != gone {
			t.Fatalf("from %v to %v: difference %v", a, b, d)
		}
		if !gone {
			w := gen.Back(d)
			if w.Bold && a.Bold || w.Dim && a.Dim || w.Italic && a.Italic || w.Under && a.Under || w.Neg && a.Neg || w.Conceal && a.Conceal ||
				w.FG.Kind != 0 && w.FG == a.FG || w.BG.Kind != 0 && w.BG == a.BG {
				t.Fatalf("from %v to %v: difference %v repeats what is there", a, b, d)
			}
		}
		// and on a terminal
		term := vt.New(2, 1)
		term.A = a
		var buf anansi.Buffer
		buf.WriteSGR(d)
		buf.WriteTo(term)
		if term.A != b || len(term.Trace) > 0 {
			t.Fatalf("from %v to %v: a terminal ends up with %v (%v)", a, b, term.A, term.Trace)
		}
	})
}

const mergeRule = "random renditions and changes; non-trivial = the change overrides something"

// TestMerge: a change overrides what it sets and keeps the rest.
func TestMerge(t *testing.T) {
	hx.Check(t, 60000, mergeRule, func(t *rapid.T, c *hx.Case) {
		a, _, _ := attr(t, "a")
		b := related(t, a)
		sb := gen.SGR(b)
		clear := rapid.IntRange(0, 3).Draw(t, "clear") == 0
		want := over(a, b)
		if clear {
			sb |= ansi.SGRAttrClear
			want = b
		}
		c.Logf("%v merge %v (clear %v)", a, b, clear)
		c.NT(want != a && want != b || clear && weight(a) > 0)
		if got := gen.SGR(a).Merge(sb); gen.Back(got) != want {
			t.Fatalf("%v merged with %v (clear %v) is %v, should be %v", a, b, clear, got, want)
		}
	})
}
