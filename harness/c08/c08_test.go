package c08

import (
	"bytes"
	"testing"
	"unicode/utf8"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/ref"
)

func TestMain(m *testing.M) { hx.Main(m) }

// consume is the documented consumer loop.
func consume(t *rapid.T, p []byte) (evs []ref.Ev) {
	for limit := 4*len(p) + 4; len(p) > 0; limit-- {
		if limit == 0 {
			t.Fatalf("no progress at %q", p)
		}
		e, a, n := ansi.DecodeEscape(p)
		if n < 0 || n > len(p) {
			t.Fatalf("DecodeEscape consumed %d of %d bytes", n, len(p))
		}
		arg := string(a)
		p = p[n:]
		if e != 0 {
			evs = append(evs, ref.Ev{ID: rune(e), Arg: arg})
			continue
		}
		if len(a) != 0 {
			t.Fatalf("argument %q without an escape", a)
		}
		if len(p) == 0 {
			break
		}
		if n > 0 {
			continue // a canceled escape was dropped: what follows may be another
		}
		r, m := utf8.DecodeRune(p)
		p = p[m:]
		evs = append(evs, ref.Ev{ID: r})
	}
	return evs
}

func same(a, b []ref.Ev) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type rec struct{ evs []ref.Ev }

func (r *rec) ProcessANSI(e ansi.Escape, a []byte) {
	r.evs = append(r.evs, ref.Ev{ID: rune(e), Arg: string(a)})
}

const rule = "random streams of complete tokens (text, controls, invalid bytes, ESC/CSI sequences and control strings in 7 and 8 bit form, ESC sequences with controls, DEL, CAN and high runes mixed in); non-trivial = at least two different classes of escape in one stream"

// TestStream: decoding agrees with an independent tokenizer.
func TestStream(t *testing.T) {
	hx.Check(t, 100000, rule, func(t *rapid.T, c *hx.Case) {
		var p []byte
		for k := rapid.IntRange(1, 10).Draw(t, "ntok"); k > 0; k-- {
			p = append(p, ref.Token(t)...)
		}
		c.Logf("%q", p)
		want, left := ref.Tokenize(p)
		if left != 0 {
			t.Skip("generator left an open sequence") // cannot happen
		}
		classes := map[rune]bool{}
		for _, e := range want {
			switch {
			case e.ID >= 0xEF80 && e.ID <= 0xEFFF:
				classes['c'] = true
			case e.ID >= 0xEF00 && e.ID <= 0xEFFF:
				classes['e'] = true
			case e.ID >= 0x80 && e.ID <= 0x9F:
				classes['s'] = true
			}
		}
		c.NT(len(classes) >= 2)
		if got := consume(t, append([]byte(nil), p...)); !same(got, want) {
			t.Fatalf("decoding %q\n got %v\nwant %v", p, got, want)
		}
		var r rec
		q := append([]byte(nil), p...)
		if n := anansi.Process(&r, q); n != len(p) {
			t.Fatalf("Process of %q consumed %d of %d bytes", p, n, len(p))
		}
		if !same(r.evs, want) {
			t.Fatalf("processing %q\n got %v\nwant %v", p, r.evs, want)
		}
	})
}

const prefixRule = "one well-formed sequence or control string with arbitrary bytes after it; every proper prefix is decoded too; non-trivial = the sequence carries an argument"

// TestPrefix: a complete sequence is decoded whole and nothing after it is
// touched; no proper prefix of it decodes as something else.
func TestPrefix(t *testing.T) {
	hx.Check(t, 60000, prefixRule, func(t *rapid.T, c *hx.Case) {
		var seq []byte
		switch rapid.IntRange(0, 2).Draw(t, "kind") {
		case 0:
			seq = ref.CSI(t)
		case 1:
			seq = ref.ESC(t)
			if len(seq) == 2 && seq[1] < 0x60 && seq[1] >= 0x40 {
				return // a C1 control, left to the rune decoder
			}
		case 2:
			seq = ref.String(t)
		}
		rest := ref.Soup(t, 4)
		c.Logf("%q + %q", seq, rest)
		want, _ := ref.Tokenize(seq)
		if len(want) != 1 {
			t.Fatalf("HX-INFRA reference decodes %q as %v", seq, want)
		}
		p := append(append([]byte(nil), seq...), rest...)
		canary := append(p, "CANARY"...)
		p = canary[:len(p)]
		e, a, n := ansi.DecodeEscape(p)
		if rune(e) != want[0].ID || string(a) != want[0].Arg || n != len(seq) {
			t.Fatalf("decoded %q as %v %q using %d bytes, want %v using %d", seq, e, a, n, want[0], len(seq))
		}
		if !bytes.Equal(p[n:], rest) || string(canary[len(p):]) != "CANARY" {
			t.Fatalf("decoding %q changed the bytes after it to %q", seq, canary[n:])
		}
		c.NT(len(a) > 0)
		for i := 1; i < len(seq); i++ {
			q := append(append([]byte(nil), seq[:i]...), "CANARY"...)
			e, a, n := ansi.DecodeEscape(q[:i])
			if e != 0 || a != nil || n != 0 {
				t.Fatalf("prefix %q of %q decoded as %v %q using %d bytes", seq[:i], seq, e, a, n)
			}
			if string(q[i:]) != "CANARY" {
				t.Fatalf("decoding prefix %q wrote past its end", seq[:i])
			}
			// more bytes complete it, from the same buffer
			copy(q, q[:i])
			q = append(q[:i:i], seq[i:]...)
			e, a, n = ansi.DecodeEscape(q)
			if rune(e) != want[0].ID || string(a) != want[0].Arg || n != len(seq) {
				t.Fatalf("after prefix %q, the completed %q decoded as %v %q using %d bytes", seq[:i], seq, e, a, n)
			}
		}
	})
}

const totalRule = "arbitrary bytes biased to introducers, terminators, truncated UTF-8 and huge numbers; non-trivial = contains an ESC or a C1 introducer"

// TestTotal: no input makes decoding panic, run on, or step outside its slice;
// whatever is left over is an unfinished sequence that later bytes complete.
func TestTotal(t *testing.T) {
	hx.Check(t, 100000, totalRule, func(t *rapid.T, c *hx.Case) {
		p := ref.Soup(t, 16)
		c.Logf("%q", p)
		c.NT(bytes.ContainsAny(p, "\x1b\u009b\u009d\u0090"))
		ansi.DecodeEscape(nil)
		ansi.DecodeRune(nil)
		consume(t, append([]byte(nil), p...))
		var r rec
		q := append(append([]byte(nil), p...), "CANARY"...)
		n := anansi.Process(&r, q[:len(p)])
		if n < 0 || n > len(p) || string(q[len(p):]) != "CANARY" {
			t.Fatalf("Process consumed %d of %d bytes, and left %q after them", n, len(p), q[len(p):])
		}
		rest := append(append([]byte(nil), q[n:len(p)]...), "a\x1b\\mc"...)
		var r2 rec
		if m := anansi.Process(&r2, rest); m != len(rest) {
			t.Fatalf("%q stuck: Process consumed %d of %q", p, m, rest)
		}
		ansi.DecodeSGR(p)
		ansi.DecodeNumber(p)
		ansi.DecodePoint(p)
		ansi.DecodeMode(true, p)
		ansi.DecodeCursorCardinal(ansi.CUU, p)
		ansi.DecodeXtermExtendedMouse('M', p)
	})
}
