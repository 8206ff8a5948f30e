package c30

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/jcorbin/anansi/ansi"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
	"verif/pipes"
	"verif/ref"
	"verif/vt"
)

func TestMain(m *testing.M) { hx.Main(m) }

// token is a complete token of a stream.
type token struct {
	b    []byte
	text bool
	evs  []ref.Ev
}

func (k token) String() string { return fmt.Sprintf("%q", k.b) }

// sgr tells of the arguments of an SGR token that they are all supported.
type sgr struct{ plain bool }

func color(t *rapid.T, lead int) string {
	n := rapid.IntRange(0, 255)
	if rapid.Bool().Draw(t, "rgb") {
		return fmt.Sprintf("%d;2;%d;%d;%d", lead, n.Draw(t, "r"), n.Draw(t, "g"), n.Draw(t, "b"))
	}
	return fmt.Sprintf("%d;5;%d", lead, n.Draw(t, "n"))
}

// SGR generates an SGR sequence; odd ones have what to24bit is not to know.
func SGR(t *rapid.T) []byte {
	var args []string
	odd := rapid.IntRange(0, 9).Draw(t, "odd") == 0
	for n := rapid.IntRange(0, 5).Draw(t, "args"); n > 0; n-- {
		var s string
		switch rapid.IntRange(0, 9).Draw(t, "arg") {
		case 0, 1:
			s = fmt.Sprint(rapid.SampledFrom([]int{0, 1, 2, 3, 4, 7, 8}).Draw(t, "flag"))
		case 2, 3, 4:
			s = fmt.Sprint(rapid.SampledFrom([]int{30, 40, 90, 100}).Draw(t, "base") + rapid.IntRange(0, 7).Draw(t, "color"))
		case 5, 6:
			s = color(t, 38)
		case 7, 8:
			s = color(t, 48)
		case 9:
			s = "0"
			if odd {
				s = fmt.Sprint(rapid.SampledFrom([]int{22, 23, 24, 27, 28, 39, 49}).Draw(t, "unset"))
			}
		}
		args = append(args, s)
	}
	return []byte(rapid.SampledFrom([]string{"\x1b[", "\u009b"}).Draw(t, "csi") + strings.Join(args, ";") + "m")
}

func Tokens(t *rapid.T) (ks []token) {
	n := rapid.IntRange(1, 25).Draw(t, "tokens")
	if rapid.IntRange(0, 39).Draw(t, "many") == 39 {
		n = rapid.IntRange(400, 1200).Draw(t, "manyTokens")
	}
	for ; n > 0; n-- {
		var k token
		switch rapid.IntRange(0, 11).Draw(t, "kind") {
		case 0, 1, 2, 3:
			k.b = SGR(t)
		case 4:
			k.b = ref.CSI(t)
			if k.b[len(k.b)-1] == 'm' {
				k.b[len(k.b)-1] = 'n'
			}
		case 5:
			k.b = ref.ESC(t)
		case 6:
			k.b = ref.String(t)
		case 7:
			k.b = ref.Messy(t)
		default:
			k.b = ref.Plain(t)
			k.text = string(k.b) != "\u0085"
		}
		k.evs, _ = ref.Tokenize(k.b)
		ks = append(ks, k)
	}
	return ks
}

// run runs a command on input that arrives in pieces, or from a file.
func run(t *rapid.T, parts [][]byte, name string, args ...string) []byte {
	ctx, cancel := context.WithTimeout(context.Background(), 2*hx.Patience())
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(os.Getenv("HX_BIN"), name), args...)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	var w *os.File
	if len(parts) == 1 {
		f, err := os.CreateTemp("", "c30")
		if err == nil {
			defer os.Remove(f.Name())
			defer f.Close()
			if _, err = f.Write(parts[0]); err == nil {
				_, err = f.Seek(0, 0)
			}
		}
		if err != nil {
			panic("HX-INFRA " + err.Error())
		}
		cmd.Stdin = f
	} else {
		r, pw, err := os.Pipe()
		if err != nil {
			panic("HX-INFRA " + err.Error())
		}
		defer r.Close()
		cmd.Stdin, w = r, pw
	}
	if err := cmd.Start(); err != nil {
		panic("HX-INFRA " + err.Error())
	}
	if w != nil {
		cmd.Stdin.(*os.File).Close()
		for _, p := range parts {
			if _, err := w.Write(p); err != nil {
				break
			}
			for ctx.Err() == nil && pipes.Pending(w) {
				time.Sleep(5 * time.Microsecond)
			}
		}
		w.Close()
	}
	if err := cmd.Wait(); err != nil {
		t.Fatalf("%s %v: %v\n%s", name, args, err, errs.Bytes())
	}
	return out.Bytes()
}

func join(ks []token) (p []byte) {
	for _, k := range ks {
		p = append(p, k.b...)
	}
	return p
}

// canon is the 7-bit form of what was decoded.
func canon(evs []ref.Ev) (p []byte) {
	for _, ev := range evs {
		switch id := ev.ID; {
		case id == 0x90 || 0x9D <= id && id <= 0x9F:
			p = append(p, 0x1B, byte(id-0x40))
			p = append(append(p, ev.Arg...), 0x1B, '\\')
		case 0x80 <= id && id <= 0x9F:
			p = append(p, 0x1B, byte(id-0x40))
		case 0xEF80 <= id && id <= 0xEFFF:
			p = append(append(append(p, 0x1B, '['), ev.Arg...), byte(id&0x7F))
		case 0xEF20 <= id && id <= 0xEF2F:
			p = append(append(p, 0x1B, byte(id&0x7F)), ev.Arg...)
		case 0xEF00 <= id && id <= 0xEF7F:
			p = append(append(append(p, 0x1B), ev.Arg...), byte(id&0x7F))
		default:
			p = utf8.AppendRune(p, id)
		}
	}
	return p
}

// apply is what an SGR makes of an attribute; known if it is all of a kind that
// the library has.
func apply(a vt.Attr, b []byte) (r vt.Attr, known bool) {
	term := vt.New(1, 1)
	term.A = a
	term.Write(b)
	known = len(term.Trace) == 0
	i := bytes.IndexByte(b, '[') + 1
	if i == 0 {
		i = 2
	}
	args := strings.Split(string(b[i:len(b)-1]), ";")
	for j := 0; j < len(args); j++ {
		switch args[j] {
		case "22", "23", "24", "27", "28", "39", "49":
			known = false
		case "38", "48":
			if args[j+1] == "2" {
				j += 4
			} else {
				j += 2
			}
		}
	}
	return term.A, known
}

func to24(c vt.Color) vt.Color {
	if c.Kind == 1 {
		c = vt.RGB(gen.SGRColor(c).RGB())
	}
	return c
}

const to24Rule = "streams of text, invalid bytes, controls, strings and sequences of all forms, most of them SGRs, that arrive in pieces or from a file; non-trivial = an SGR with an indexed color"

// TestTo24bit: to24bit changes nothing but the colors of SGRs, to 24 bits.
func TestTo24bit(t *testing.T) {
	hx.Check(t, 800, to24Rule, func(t *rapid.T, c *hx.Case) {
		ks := Tokens(t)
		in := join(ks)
		parts := split(t, in)
		out := run(t, parts, "to24bit")
		rest := out
		some := false
		starts := []vt.Attr{{}, {FG: vt.Idx(200), BG: vt.Idx(9), Bold: true, Under: true}, {FG: vt.RGB(1, 2, 3), BG: vt.RGB(9, 8, 7), Neg: true, Dim: true, Italic: true, Conceal: true}}
		for i, k := range ks {
			switch {
			case bytes.HasPrefix(rest, k.b) && (k.text || k.evs == nil || k.evs[0].ID != 0xEF80|'m'):
				rest = rest[len(k.b):]
			case !k.text && len(k.evs) > 0 && k.evs[0].ID == 0xEF80|'m':
				n := bytes.IndexByte(rest, 'm') + 1
				got := rest[:n]
				if evs, left := ref.Tokenize(got); len(evs) != 1 || evs[0].ID != 0xEF80|'m' || left > 0 {
					t.Fatalf("%d. %v: output goes on as %q", i, k, cut(rest))
				}
				for _, a := range starts {
					want, known := apply(a, k.b)
					have, _ := apply(a, got)
					wk, hk := want, have
					if wk.FG == a.FG && hk.FG == a.FG {
						wk.FG, hk.FG = vt.Color{}, vt.Color{}
					} else if known {
						wk.FG = to24(wk.FG)
					} else {
						wk.FG, hk.FG = to24(wk.FG), to24(hk.FG)
					}
					if wk.BG == a.BG && hk.BG == a.BG {
						wk.BG, hk.BG = vt.Color{}, vt.Color{}
					} else if known {
						wk.BG = to24(wk.BG)
					} else {
						wk.BG, hk.BG = to24(wk.BG), to24(hk.BG)
					}
					if wk != hk {
						t.Fatalf("%d. %v: became %q: on %v that makes %v, should be %v", i, k, got, a, have, want)
					}
					some = some || known && (want.FG != a.FG && want.FG.Kind == 1 || want.BG != a.BG && want.BG.Kind == 1)
				}
				rest = rest[n:]
			default:
				for j, ev := range k.evs {
					want := canon(k.evs[j : j+1])
					if ev.ID == utf8.RuneError && len(rest) > 0 && rest[0] == 0xFF {
						want = rest[:1] // kept as it was
					}
					if !bytes.HasPrefix(rest, want) {
						t.Fatalf("%d. %v: output goes on as %q, should be %q, in %q in %d pieces", i, k, cut(rest), want, cut(in), len(parts))
					}
					rest = rest[len(want):]
				}
			}
		}
		if len(rest) > 0 {
			t.Fatalf("output goes on as %q", cut(rest))
		}
		c.NT(some)
		c.LabelIf(len(in) > 4096, "long")
		c.LabelIf(len(parts) > 1, "pieces")
		c.Logf("%q in %d pieces", cut(in), len(parts))
		if again := run(t, [][]byte{out}, "to24bit"); tokens(again) != tokens(out) {
			o, w := diff(out, again)
			t.Fatalf("%q ... in the output becomes %q when done again", cut(o), cut(w))
		}
	})
}

func split(t *rapid.T, in []byte) [][]byte {
	if len(in) > 600 || rapid.IntRange(0, 3).Draw(t, "file") == 0 {
		return [][]byte{in}
	}
	return ref.Split(t, in)
}

func cut(p []byte) []byte {
	if len(p) > 300 {
		return p[:300]
	}
	return p
}

func tail(p []byte) []byte { return p[max(0, len(p)-80):] }

func tokens(p []byte) string {
	evs, left := ref.Tokenize(p)
	return fmt.Sprint(evs, left)
}

// diff returns what is left of a and b after what they have in common.
func diff(a, b []byte) ([]byte, []byte) {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	for n > 0 && (n >= len(a) || a[n]&0xC0 == 0x80) {
		n--
	}
	return a[n:], b[n:]
}

const decodeRule = "streams as of TestTo24bit, decoded or stripped; non-trivial = at least two sequences"

// TestDecode: decode writes text as it is, and names, or strips, all else.
func TestDecode(t *testing.T) {
	hx.Check(t, 800, decodeRule, func(t *rapid.T, c *hx.Case) {
		ks := Tokens(t)
		in := join(ks)
		strip := rapid.Bool().Draw(t, "strip")
		var want []byte
		seqs := 0
		for _, k := range ks {
			if k.text {
				want = append(want, k.b...)
				continue
			}
			seqs++
			for _, ev := range k.evs {
				e := ansi.Escape(ev.ID)
				switch {
				case ev.ID < 0x80 || ev.ID > 0x9F && (ev.ID < 0xEF00 || ev.ID > 0xEFFF):
					want = utf8.AppendRune(want, ev.ID) // from within a sequence
				case strip:
				case e == ansi.SGR:
					attr, _, err := ansi.DecodeSGR([]byte(ev.Arg))
					if err != nil {
						want = append(want, fmt.Sprintf("[ansi:SGR ERR:%v %q]", err, ev.Arg)...)
					} else {
						want = append(want, fmt.Sprintf("[ansi:SGR %v]", attr)...)
					}
				case ev.Arg != "":
					want = append(want, fmt.Sprintf("[ansi:%v %q]", e, ev.Arg)...)
				default:
					want = append(want, fmt.Sprintf("[ansi:%v]", e)...)
				}
			}
		}
		parts := split(t, in)
		args := []string{}
		if strip {
			args = append(args, "-strip")
		}
		c.NT(seqs > 1)
		c.LabelIf(strip, "stripped")
		c.LabelIf(len(in) > 4096, "long")
		c.Logf("%q in %d pieces, strip %v", cut(in), len(parts), strip)
		out := run(t, parts, "decode", args...)
		// an invalid byte within a sequence may become U+FFFD
		norm := func(p []byte) []byte { return bytes.ReplaceAll(p, []byte{0xFF}, []byte("\ufffd")) }
		if !bytes.Equal(norm(out), norm(want)) || bytes.Count(out, []byte{0xFF}) < bytes.Count(want, []byte{0xFF}) {
			o, w := diff(norm(out), norm(want))
			t.Fatalf("%q in %d pieces, strip %v: after %d bytes came %q, should be %q, at the end of %q", cut(in), len(parts), strip, len(norm(out))-len(o), cut(o), cut(w), tail(in))
		}
	})
}

const tailRule = "streams that end within a token; non-trivial = there is such a tail"

// TestTail: a stream that ends within a token comes through up to there, and
// out of to24bit, which keeps all, entirely.
func TestTail(t *testing.T) {
	hx.Check(t, 300, tailRule, func(t *rapid.T, c *hx.Case) {
		var in []byte
		for n := rapid.IntRange(0, 4).Draw(t, "tokens"); n > 0; n-- {
			in = append(in, rapid.SampledFrom([]string{"text", "\u4e16", "\x1b[1m", "\x1b[?25l", "\x1b]0;x\x1b\\"}).Draw(t, "token")...)
		}
		tail := ref.Tail(t)
		all := append(append([]byte(nil), in...), tail...)
		c.NT(len(tail) > 0)
		c.Logf("%q %q", in, tail)
		parts := split(t, all)
		out := run(t, parts, "to24bit")
		want, got := ref.AtEOF(all), ref.AtEOF(out)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			t.Fatalf("%q: became %q: %v, should be %v", all, out, got, want)
		}
		text := in
		for _, s := range []string{"\x1b[1m", "\x1b[?25l", "\x1b]0;x\x1b\\"} {
			text = bytes.ReplaceAll(text, []byte(s), nil)
		}
		out = run(t, parts, "decode", "-strip")
		if !bytes.HasPrefix(out, text) || len(out) > len(text)+len(tail)+3 {
			t.Fatalf("%q: stripped to %q, should be %q at least", all, out, text)
		}
	})
}
