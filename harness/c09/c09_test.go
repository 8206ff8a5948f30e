package c09

import (
	"bytes"
	"fmt"
	"strconv"
	"testing"
	"unicode/utf8"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
	"verif/ref"
)

func TestMain(m *testing.M) { hx.Main(m) }

// prefixed appends with f to a slice of generated length and capacity, and
// returns what was appended.
func prefixed(t *rapid.T, f func(p []byte) []byte) []byte {
	n := rapid.IntRange(0, 9).Draw(t, "prior")
	buf := bytes.Repeat([]byte{'P'}, n+rapid.IntRange(0, 24).Draw(t, "room"))
	out := f(buf[:n])
	if len(out) < n || !bytes.Equal(out[:n], bytes.Repeat([]byte{'P'}, n)) {
		t.Fatalf("appending after %d bytes gave %q", n, out)
	}
	return out[n:]
}

func pick(t *rapid.T, name string, lo, hi int) byte {
	return byte(rapid.IntRange(lo, hi).Draw(t, name))
}

// id generates an escape with an argument it may carry.
func id(t *rapid.T) (e ansi.Escape, arg []byte, enc string) {
	switch rapid.IntRange(0, 5).Draw(t, "class") {
	case 0: // CSI
		for k := rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(0, 40)).Draw(t, "np"); k > 0; k-- {
			arg = append(arg, pick(t, "param", 0x30, 0x3F))
		}
		for k := rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "ni"); k > 0; k-- {
			arg = append(arg, pick(t, "inter", 0x20, 0x2F))
		}
		b := pick(t, "final", 0x40, 0x7E)
		return ansi.CSI(b), arg, "\x1b[" + string(arg) + string(rune(b))
	case 1: // ESC final
		b := pick(t, "final", 0x30, 0x7E)
		if 0x40 <= b && b <= 0x5F {
			b += 0x20
		}
		if b > 0x7E {
			b = 0x7E
		}
		return ansi.ESC(b), nil, "\x1b" + string(rune(b))
	case 2: // ESC with several intermediates
		for k := rapid.IntRange(2, 3).Draw(t, "ni"); k > 0; k-- {
			arg = append(arg, pick(t, "inter", 0x20, 0x2F))
		}
		b := pick(t, "final", 0x30, 0x7E)
		return ansi.ESC(b), arg, "\x1b" + string(arg) + string(rune(b))
	case 3: // character set selection
		b := pick(t, "inter", 0x20, 0x2F)
		arg = []byte{pick(t, "final", 0x30, 0x7E)}
		return ansi.ESC(b), arg, "\x1b" + string(rune(b)) + string(arg)
	case 4: // control string
		r := rapid.SampledFrom([]rune{0x90, 0x9D, 0x9E, 0x9F}).Draw(t, "string")
		arg = []byte{}
		for k := rapid.IntRange(0, 20).Draw(t, "ns"); k > 0; k-- {
			if rapid.IntRange(0, 5).Draw(t, "uni") == 0 {
				arg = append(arg, "\u00e9\u4e16"...)
			} else {
				arg = append(arg, pick(t, "chr", 0x20, 0x7E))
			}
		}
		return ansi.Escape(r), arg, "\x1b" + string(r-0x40) + string(arg) + "\x1b\\"
	}
	// a single control
	if rapid.Bool().Draw(t, "c1") {
		r := rune(pick(t, "c1", 0x80, 0x9F))
		switch r {
		case 0x90, 0x9B, 0x9D, 0x9E, 0x9F:
			r = 0x84
		}
		return ansi.Escape(r), nil, "\x1b" + string(r-0x40)
	}
	r := rune(pick(t, "c0", 1, 0x1F))
	if r == 0x1B {
		r = '\t'
	}
	return ansi.Escape(r), nil, string(r)
}

func decode1(p []byte) (ref.Ev, int) {
	e, a, n := ansi.DecodeEscape(p)
	if e == 0 {
		r, m := utf8.DecodeRune(p[n:])
		return ref.Ev{ID: r}, n + m
	}
	return ref.Ev{ID: rune(e), Arg: string(a)}, n
}

const rule = "every class of escape identifier with arguments it may carry, appended to slices of arbitrary length and capacity; non-trivial = carries an argument"

// TestRoundTrip: encoding yields the sequence, and decodes back to itself.
func TestRoundTrip(t *testing.T) {
	hx.Check(t, 100000, rule, func(t *rapid.T, c *hx.Case) {
		e, arg, want := id(t)
		c.Logf("%v %q", e, arg)
		c.NT(len(arg) > 0)
		got := prefixed(t, func(p []byte) []byte { return e.AppendWith(p, arg...) })
		if string(got) != want {
			t.Fatalf("%v with %q encoded as %q, want %q", e, arg, got, want)
		}
		if ev, n := decode1(append([]byte(nil), got...)); rune(e) != ev.ID || string(arg) != ev.Arg || n != len(got) {
			t.Fatalf("%v with %q encoded as %q, decoded as %v after %d bytes", e, arg, got, ev, n)
		}
		if len(arg) > 0 {
			return
		}
		if e == ansi.Escape(0x90) || e == ansi.Escape(0x9D) || e == ansi.Escape(0x9E) || e == ansi.Escape(0x9F) {
			return // only an introducer
		}
		bare := prefixed(t, func(p []byte) []byte { return e.AppendTo(p) })
		if string(bare) != want || e.Size() != len(want) {
			t.Fatalf("%v encoded as %q with size %d, want %q", e, bare, e.Size(), want)
		}
	})
}

const reRule = "token streams decoded, re-encoded event by event and decoded again; non-trivial = two or more escapes with arguments"

// TestReencode: what was decoded can be passed on.
func TestReencode(t *testing.T) {
	hx.Check(t, 60000, reRule, func(t *rapid.T, c *hx.Case) {
		var p []byte
		for k := rapid.IntRange(1, 8).Draw(t, "n"); k > 0; k-- {
			switch rapid.IntRange(0, 3).Draw(t, "token") {
			case 0:
				p = append(p, ref.CSI(t)...)
			case 1:
				p = append(p, ref.ESC(t)...)
			case 2:
				p = append(p, ref.String(t)...)
			default:
				p = append(p, string(gen.Rune().Draw(t, "r"))...)
			}
		}
		c.Logf("%q", p)
		var one, two rec
		var enc []byte
		args := 0
		one.each = func(e ansi.Escape, a []byte) {
			if e.IsEscape() || 0x80 <= e && e <= 0x9F {
				if len(a) > 0 {
					args++
				}
				enc = e.AppendWith(enc, a...)
			} else {
				enc = append(enc, string(rune(e))...)
			}
		}
		if n := anansi.Process(&one, append([]byte(nil), p...)); n != len(p) {
			t.Fatalf("%q not decoded whole", p)
		}
		if n := anansi.Process(&two, append([]byte(nil), enc...)); n != len(enc) {
			t.Fatalf("%q re-encoded as %q, which is not decoded whole", p, enc)
		}
		if fmt.Sprint(one.evs) != fmt.Sprint(two.evs) {
			t.Fatalf("%q decoded as %v, re-encoded as %q, decoded as %v", p, one.evs, enc, two.evs)
		}
		c.NT(args >= 2)
	})
}

type rec struct {
	evs  []ref.Ev
	each func(e ansi.Escape, a []byte)
}

func (r *rec) ProcessANSI(e ansi.Escape, a []byte) {
	if r.each != nil {
		r.each(e, a)
	}
	r.evs = append(r.evs, ref.Ev{ID: rune(e), Arg: string(a)})
}

type mseq struct {
	seq  ansi.Seq
	id   ansi.Escape
	args []byte
	ints []int
}

func (m mseq) want() string {
	var b bytes.Buffer
	b.Write(m.args)
	for i, n := range m.ints {
		if i > 0 {
			b.WriteByte(';')
		}
		b.WriteString(strconv.Itoa(n))
	}
	switch {
	case m.id <= 0x1F:
		return string(rune(m.id)) + b.String()
	case 0xEF20 <= m.id && m.id <= 0xEF2F:
		return "\x1b" + string(rune(m.id&0x7F)) + b.String()
	case m.id < 0xEF80:
		return "\x1b" + b.String() + string(rune(m.id&0x7F))
	}
	return "\x1b[" + b.String() + string(rune(m.id&0x7F))
}

const seqRule = "trees of sequences derived from one another by adding byte, integer and point arguments, sharing ancestors; non-trivial = two sequences with more than three byte or integer arguments share an ancestor"

// TestSeq: a sequence encodes all arguments it was given, whatever was derived
// from it or from its siblings, and buffers take sequences as their encoding.
func TestSeq(t *testing.T) {
	hx.Check(t, 60000, seqRule, func(t *rapid.T, c *hx.Case) {
		base := rapid.SampledFrom([]ansi.Escape{ansi.CUP, ansi.SGR, ansi.SM, ansi.CSI('t'), ansi.CSI('@'), ansi.CSI('~'), ansi.ESC('='), ansi.ESC('('), ansi.ESC('~'), ansi.Escape('\r'), ansi.Escape(7)}).Draw(t, "id")
		_, isCSI := base.CSI()
		all := []mseq{{seq: base.With(), id: base}}
		plain := ansi.Escape(rapid.OneOf(gen.Rune(), rapid.Int32Range(0x20, 0xD7FF), rapid.Int32Range(0xF000, 0x10FFFF), rapid.Just(rune(0))).Draw(t, "plain"))
		panics(t, func() { plain.With() }, "%U built with nothing", rune(plain))
		panics(t, func() { plain.With('1') }, "%U built with an argument", rune(plain))
		panics(t, func() { plain.WithInts(1) }, "%U built with a number", rune(plain))
		long := 0
		for k := rapid.IntRange(1, 8).Draw(t, "n"); k > 0; k-- {
			m := all[rapid.IntRange(0, len(all)-1).Draw(t, "from")]
			m.args = append([]byte(nil), m.args...)
			m.ints = append([]int(nil), m.ints...)
			switch rapid.IntRange(0, 3).Draw(t, "add") {
			case 0, 1:
				arg := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) byte { return pick(t, "b", 0x20, 0x3F) }), 0, 5).Draw(t, "arg")
				m.seq, m.args = m.seq.With(arg...), append(m.args, arg...)
			case 2:
				if !isCSI {
					if rapid.Bool().Draw(t, "point") {
						panics(t, func() { m.seq.WithPoint(ansi.Pt(1, 2)) }, "%v with a point", m.id)
					}
					panics(t, func() { m.seq.WithInts(1) }, "%v with a number", m.id)
					continue
				}
				ints := rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 99), rapid.IntRange(-1<<31, 1<<31)), 0, 5).Draw(t, "ints")
				m.seq, m.ints = m.seq.WithInts(ints...), append(m.ints, ints...)
			case 3:
				if !isCSI {
					continue
				}
				p := ansi.Pt(rapid.IntRange(1, 500).Draw(t, "x"), rapid.IntRange(1, 500).Draw(t, "y"))
				m.seq, m.ints = m.seq.WithPoint(p), append(m.ints, p.Y, p.X)
			}
			if len(m.args) > 3 || len(m.ints) > 3 {
				long++
			}
			all = append(all, m)
		}
		c.NT(long >= 2)
		for _, m := range all {
			c.Logf("%q", m.want())
			if got := prefixed(t, m.seq.AppendTo); string(got) != m.want() {
				t.Fatalf("sequence encoded as %q, want %q", got, m.want())
			}
			if m.seq.ID() != m.id {
				t.Fatalf("ID %v, want %v", m.seq.ID(), m.id)
			}
			small := true
			for _, n := range m.ints {
				small = small && -9999999 <= n && n <= 99999999
			}
			if small && m.seq.Size() < len(m.want()) {
				t.Fatalf("%q is longer than its Size %d", m.want(), m.seq.Size())
			}
		}
	})
}

// panics wants f to panic, with a message rather than by a runtime error.
func panics(t *rapid.T, f func(), what string, args ...interface{}) {
	defer func() {
		e := recover()
		if _, odd := e.(error); e == nil || odd {
			t.Fatalf("%s: panicked with %v", fmt.Sprintf(what, args...), e)
		}
	}()
	f()
}

const bufRule = "random sequences of Buffer writes (bytes, strings, runes, escapes, control sequences, SGR), growth, resets and partial or whole WriteTo; non-trivial = three or more kinds of write before a WriteTo"

// short takes at most n bytes a call.
type short struct {
	bytes.Buffer
	n int
}

func (s *short) Write(p []byte) (int, error) {
	if len(p) > s.n {
		n, _ := s.Buffer.Write(p[:s.n])
		return n, fmt.Errorf("short")
	}
	return s.Buffer.Write(p)
}

// TestBuffer: a Buffer is the concatenation of what was written to it.
func TestBuffer(t *testing.T) {
	hx.Check(t, 50000, bufRule, func(t *rapid.T, c *hx.Case) {
		var b anansi.Buffer
		var want []byte
		kinds := map[int]bool{}
		for i, n := 0, rapid.IntRange(1, 15).Draw(t, "n"); i < n; i++ {
			k := rapid.IntRange(0, 9).Draw(t, "op")
			if k <= 5 {
				kinds[k] = true
			}
			var got int
			var add []byte
			switch k {
			case 0:
				add = rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "bytes")
				got, _ = b.Write(add)
			case 1:
				s := rapid.StringN(0, 6, -1).Draw(t, "s")
				add = []byte(s)
				got, _ = b.WriteString(s)
			case 2:
				r := gen.Rune().Draw(t, "r")
				add = []byte(string(r))
				if rapid.Bool().Draw(t, "byte") {
					add, got = []byte{byte(r)}, 1
					b.WriteByte(byte(r))
				} else {
					got, _ = b.WriteRune(r)
				}
			case 3:
				var es []ansi.Escape
				for j := rapid.IntRange(0, 3).Draw(t, "ne"); j > 0; j-- {
					e, _, enc := id(t)
					if e == 0x90 || e > 0x9A && e < 0xA0 {
						continue
					}
					if 0xEF20 <= e && e <= 0xEF2F {
						enc = "\x1b" + string(rune(e&0x7F))
					} else if e >= 0xEF80 {
						enc = "\x1b[" + string(rune(e&0x7F))
					} else if e >= 0xEF30 {
						enc = "\x1b" + string(rune(e&0x7F))
					}
					es, add = append(es, e), append(add, enc...)
				}
				got = b.WriteESC(es...)
			case 4:
				var qs []ansi.Seq
				for j := rapid.IntRange(0, 3).Draw(t, "nq"); j > 0; j-- {
					if rapid.IntRange(0, 4).Draw(t, "zero") == 0 {
						qs = append(qs, ansi.Seq{})
						continue
					}
					m := mseq{id: ansi.CSI(pick(t, "f", 0x40, 0x7E)), ints: rapid.SliceOfN(rapid.IntRange(-5, 1<<40), 0, 5).Draw(t, "ints")}
					qs, add = append(qs, m.id.WithInts(m.ints...)), append(add, m.want()...)
				}
				got = b.WriteSeq(qs...)
			case 5:
				var as []ansi.SGRAttr
				for j := rapid.IntRange(0, 3).Draw(t, "na"); j > 0; j-- {
					a := gen.SGR(gen.Attr().Draw(t, "a"))
					if rapid.Bool().Draw(t, "clear") {
						a |= ansi.SGRAttrClear
					}
					as = append(as, a)
					if a != 0 {
						add = append(add, a.ControlString()...)
					}
				}
				got = b.WriteSGR(as...)
			case 6:
				b.Grow(rapid.IntRange(0, 200).Draw(t, "grow"))
			case 7:
				b.Reset()
				want = nil
			default:
				w := short{n: rapid.OneOf(rapid.Just(1<<20), rapid.IntRange(0, 12)).Draw(t, "accept")}
				n, err := b.WriteTo(&w)
				if int(n) > len(want) || !bytes.Equal(w.Bytes(), want[:n]) {
					t.Fatalf("WriteTo %d: wrote %q of %q", n, w.Bytes(), want)
				}
				if (err == nil) != (int(n) == len(want)) {
					t.Fatalf("WriteTo %d of %d bytes: %v", n, len(want), err)
				}
				want = want[n:]
			}
			if got != len(add) {
				t.Fatalf("write of %q returned %d", add, got)
			}
			want = append(want, add...)
			c.Logf("%d %q", k, add)
			if b.Len() != len(want) || !bytes.Equal(b.Bytes(), want) {
				t.Fatalf("buffer holds %q, want %q", b.Bytes(), want)
			}
		}
		c.NT(len(kinds) >= 3)
	})
}

// TestIDs: the identifier ranges, exhaustively.
func TestIDs(t *testing.T) {
	hx.Each(t, "every 16-bit identifier and every byte; non-trivial = an escape", true, func(check func(func(c *hx.Case) error)) {
		for i := 0; i < 256; i++ {
			b := byte(i)
			check(func(c *hx.Case) error {
				c.NT(true)
				c.Logf("byte %#x", b)
				if e := ansi.ESC(b); e != ansi.Escape(0xEF00+rune(b&0x7F)) {
					return fmt.Errorf("ESC(%#x) is %U", b, e)
				}
				if e := ansi.CSI(b); e != ansi.Escape(0xEF80+rune(b&0x7F)) {
					return fmt.Errorf("CSI(%#x) is %U", b, e)
				}
				return nil
			})
		}
		for i := 0; i <= 0xFFFF; i++ {
			e := ansi.Escape(i)
			check(func(c *hx.Case) error {
				isEsc := 0xEF00 <= i && i <= 0xEFFF
				c.NT(isEsc)
				c.Logf("%U", i)
				if e.IsEscape() != isEsc {
					return fmt.Errorf("%U IsEscape %v", i, e.IsEscape())
				}
				if b, ok := e.ESC(); ok != (0xEF00 < i && i < 0xEF7F) || ok && int(b) != i-0xEF00 || !ok && b != 0 {
					return fmt.Errorf("%U ESC() %#x %v", i, b, ok)
				}
				if b, ok := e.CSI(); ok != (0xEF80 < i && i < 0xEFFF) || ok && int(b) != i-0xEF80 || !ok && b != 0 {
					return fmt.Errorf("%U CSI() %#x %v", i, b, ok)
				}
				if (e.Size() == 0) != (len(e.AppendTo(nil)) == 0) || e.Size() != len(e.AppendTo(nil)) {
					return fmt.Errorf("%U is sized %d, encoded as %q", i, e.Size(), e.AppendTo(nil))
				}
				want := ""
				switch {
				case i <= 0x1F:
					want = "^" + string(rune('@'+i))
				case i == 0x7F:
					want = "^?"
				case 0x80 <= i && i <= 0x9F:
					want = "<" + names[i-0x80] + ">"
				case 0xEF20 <= i && i <= 0xEF7E:
					want = "ESC+" + string(rune(i&0x7F))
				case i == 0xEF7F:
					want = "ESC+INVALID"
				case 0xEFC0 <= i && i <= 0xEFFE:
					want = "CSI+" + string(rune(i&0x7F))
				case i == 0xEFFF:
					want = "CSI+INVALID"
				}
				if want != "" && e.String() != want {
					return fmt.Errorf("%U is named %q, want %q", i, e.String(), want)
				}
				return nil
			})
		}
	})
}

// names of the C1 controls, as in the library's documentation (ansicode.txt).
var names = [32]string{
	"RES@", "RESA", "RESB", "RESC", "IND", "NEL", "SSA", "ESA", "HTS", "HTJ", "VTS", "PLD", "PLU", "RI", "SS2", "SS3",
	"DCS", "PU1", "PU2", "STS", "CCH", "MW", "SPA", "EPA", "RESX", "RESY", "RESZ", "CSI", "ST", "OSC", "PM", "APC",
}
