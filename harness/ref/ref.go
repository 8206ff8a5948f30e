// Package ref is an independent tokenizer for terminal streams, and generators
// of such streams.
package ref

import (
	"fmt"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif/gen"
)

// Ev is one decoded event: an escape or a rune.
type Ev struct {
	ID  rune
	Arg string
}

func (e Ev) String() string {
	if e.Arg == "" {
		return fmt.Sprintf("%U", e.ID)
	}
	return fmt.Sprintf("%U(%q)", e.ID, e.Arg)
}

// Tokenize decodes a stream that ends between sequences, per the documented
// mapping: C1 controls as their rune, strings as their introducer with their
// content, ESC sequences at U+EF00, CSI sequences at U+EF80, character set
// selections named by their intermediate; controls inside an ESC sequence come
// out first, CAN cancels it.
func Tokenize(p []byte) (evs []Ev, left int) {
	i := 0
	for i < len(p) {
		r, m := utf8.DecodeRune(p[i:])
		switch {
		case r == 0x1B:
			start := i
			i += m
			var inter []byte
			done := false
			for !done {
				if i >= len(p) {
					return evs, len(p) - start
				}
				r, m := utf8.DecodeRune(p[i:])
				i += m
				switch {
				case r > 0xFF:
					evs = append(evs, Ev{ID: r})
				case len(inter) == 0 && 0x40 <= r && r <= 0x5F:
					var ok bool
					evs, i, ok = c1(evs, p, i, r+0x40)
					if !ok {
						return evs, len(p) - start
					}
					done = true
				case r == 0x18:
					done = true
				case r < 0x20:
					evs = append(evs, Ev{ID: r})
				case r <= 0x2F:
					inter = append(inter, byte(r))
				case r == 0x7F:
				default:
					r &= 0x7F
					switch len(inter) {
					case 0:
						evs = append(evs, Ev{ID: 0xEF00 | r})
					case 1:
						evs = append(evs, Ev{0xEF00 | rune(inter[0]), string(p[i-m : i])})
					default:
						evs = append(evs, Ev{0xEF00 | r, string(inter)})
					}
					done = true
				}
			}
		case 0x80 <= r && r <= 0x9F && m > 1:
			start := i
			var ok bool
			evs, i, ok = c1(evs, p, i+m, r)
			if !ok {
				return evs, len(p) - start
			}
		default:
			evs = append(evs, Ev{ID: r})
			i += m
		}
	}
	return evs, 0
}

func c1(evs []Ev, p []byte, i int, r rune) ([]Ev, int, bool) {
	switch r {
	case 0x9B:
		j := i
		for j < len(p) && 0x30 <= p[j] && p[j] <= 0x3F {
			j++
		}
		for j < len(p) && 0x20 <= p[j] && p[j] <= 0x2F {
			j++
		}
		if j >= len(p) {
			return evs, i, false
		}
		return append(evs, Ev{0xEF80 | rune(p[j]), string(p[i:j])}), j + 1, true
	case 0x90, 0x9D, 0x9E, 0x9F:
		for j := i; j < len(p); j++ {
			if p[j] == 0x1B && j+1 < len(p) && p[j+1] == '\\' {
				return append(evs, Ev{r, string(p[i:j])}), j + 2, true
			}
			if p[j] == 0xC2 && j+1 < len(p) && p[j+1] == 0x9C {
				return append(evs, Ev{r, string(p[i:j])}), j + 2, true
			}
		}
		return evs, i, false
	}
	return append(evs, Ev{ID: r}), i, true
}

func pick(t *rapid.T, name string, lo, hi int) byte {
	return byte(rapid.IntRange(lo, hi).Draw(t, name))
}

// CSI generates a well-formed control sequence.
func CSI(t *rapid.T) []byte {
	p := []byte("\x1b[")
	if rapid.IntRange(0, 3).Draw(t, "c1") == 0 {
		p = []byte("\u009b")
	}
	for k := rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(0, 40)).Draw(t, "nparam"); k > 0; k-- {
		p = append(p, pick(t, "param", 0x30, 0x3F))
	}
	for k := rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "ninter"); k > 0; k-- {
		p = append(p, pick(t, "inter", 0x20, 0x2F))
	}
	return append(p, pick(t, "final", 0x40, 0x7E))
}

// ESC generates a well-formed escape sequence (which may be a C1 control other
// than an introducer).
func ESC(t *rapid.T) []byte {
	p := []byte{0x1B}
	n := rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(t, "ninter")
	for k := n; k > 0; k-- {
		p = append(p, pick(t, "inter", 0x20, 0x2F))
	}
	f := pick(t, "final", 0x30, 0x7E)
	if n == 0 {
		switch f {
		case '[', 'P', ']', '^', '_':
			f = 'M'
		}
	}
	return append(p, f)
}

// String generates a control string.
func String(t *rapid.T) []byte {
	var p []byte
	r := rapid.SampledFrom([]rune{0x90, 0x9D, 0x9E, 0x9F}).Draw(t, "string")
	if rapid.Bool().Draw(t, "c1") {
		p = utf8.AppendRune(p, r)
	} else {
		p = append(p, 0x1B, byte(r-0x40))
	}
	for k := rapid.OneOf(rapid.IntRange(0, 6), rapid.IntRange(0, 60)).Draw(t, "nstr"); k > 0; k-- {
		switch rapid.IntRange(0, 9).Draw(t, "chr") {
		case 0:
			p = append(p, []byte("\u00e9")...)
		case 1:
			p = append(p, ";?:\x07\n\x1b["[rapid.IntRange(0, 6).Draw(t, "p")])
			if p[len(p)-1] == 0x1B {
				p = append(p, 'q') // an ESC in a string that is no ST
			}
		case 2:
			p = append(p, []byte("\ufffd")...)
		case 3:
			p = append(p, 0xFF)
		default:
			p = append(p, pick(t, "asc", 0x20, 0x7E))
		}
	}
	if rapid.Bool().Draw(t, "st8") {
		return append(p, 0xC2, 0x9C)
	}
	return append(p, 0x1B, '\\')
}

// Messy generates an ESC sequence with controls, DEL, CAN and high runes mixed
// in, that still ends by itself.
func Messy(t *rapid.T) []byte {
	p := []byte{0x1B}
	inter := 0
	for k := rapid.IntRange(0, 4).Draw(t, "nmess"); k > 0; k-- {
		switch rapid.IntRange(0, 5).Draw(t, "mess") {
		case 0:
			c := pick(t, "c0", 0, 0x1F)
			if c == 0x18 {
				return append(p, c)
			}
			p = append(p, c)
		case 1:
			p = append(p, []byte(string(rapid.SampledFrom([]rune("\u201c\u4e16\U0001f600\ufffd")).Draw(t, "hi")))...)
		case 2:
			p = append(p, 0x7F)
		case 3:
			p = append(p, 0xFF) // never valid UTF-8
		default:
			p = append(p, pick(t, "inter", 0x20, 0x2F))
			inter++
		}
	}
	if rapid.IntRange(0, 9).Draw(t, "cancel") == 0 {
		return append(p, 0x18)
	}
	if inter == 0 && rapid.IntRange(0, 3).Draw(t, "g1") == 0 {
		return append(p, []byte(string(rune(rapid.IntRange(0xE0, 0xFE).Draw(t, "g1final"))))...)
	}
	f := pick(t, "final", 0x40, 0x7E)
	switch f {
	case '[', 'P', ']', '^', '_':
		f = 'M'
	}
	return append(p, f)
}

// Plain generates text, controls and invalid bytes.
func Plain(t *rapid.T) []byte {
	switch rapid.IntRange(0, 7).Draw(t, "plain") {
	case 0:
		c := pick(t, "c0", 0, 0x1F)
		if c == 0x1B {
			c = '\n'
		}
		return []byte{c}
	case 1:
		return []byte{0x7F}
	case 2:
		return []byte("\u0085")
	case 3:
		return []byte{[]byte{0xFF, 0xC0, 0xFE, 0xF8}[rapid.IntRange(0, 3).Draw(t, "inval")]}
	case 4:
		return []byte("\ufffd")
	}
	return []byte(string(gen.Rune().Draw(t, "r")))
}

// Token generates one complete token.
func Token(t *rapid.T) []byte {
	switch rapid.IntRange(0, 19).Draw(t, "token") {
	case 10: // cancelled, right before another sequence
		p := append([]byte{0x1B}, rapid.SampledFrom([]string{"", "(", "#", "(\x7f"}).Draw(t, "begun")...)
		return append(append(p, 0x18), Token(t)...)
	case 0, 1, 11, 12:
		return CSI(t)
	case 2, 3, 13, 14:
		return ESC(t)
	case 4, 15:
		return String(t)
	case 5, 16:
		return Messy(t)
	}
	return Plain(t)
}

// Soup generates arbitrary bytes, biased to those that matter.
func Soup(t *rapid.T, n int) []byte {
	frag := rapid.SampledFrom([]string{
		"\x1b", "\x1b", "\x1b[", "\x1b]", "\x1bP", "\x1b_", "\x1b\\", "\u009b", "\u009c", "\u009d", "\u0090", "\x18", "\x7f", "\x03", "(", "#", "m", "H", "1", ";", "?", "25",
		"\xe2", "\x80", "\x9c", "\xc2", "\xf0\x9f", "\xff", "\ufffd", "\u00f8", "\u201c", "a", " ", "38;5;", "\x1b[M", "99999999999999999999",
	})
	var p []byte
	for k := rapid.IntRange(0, n).Draw(t, "nsoup"); k > 0; k-- {
		if rapid.IntRange(0, 5).Draw(t, "raw") == 0 {
			p = append(p, rapid.Byte().Draw(t, "byte"))
		} else {
			p = append(p, frag.Draw(t, "frag")...)
		}
	}
	return p
}

// Split cuts p into pieces at generated points.
func Split(t *rapid.T, p []byte) (parts [][]byte) {
	if rapid.IntRange(0, 3).Draw(t, "bytewise") == 0 {
		for i := range p {
			parts = append(parts, p[i:i+1])
		}
		return parts
	}
	for len(p) > 0 {
		n := rapid.IntRange(1, min(len(p), 12)).Draw(t, "cut")
		parts = append(parts, p[:n])
		p = p[n:]
	}
	return parts
}

// AtEOF is what a stream decodes as when it has ended: after all that is
// complete, the introducer of what is not, and then whatever follows it as if
// on its own.
func AtEOF(p []byte) (evs []Ev) {
	for {
		es, left := Tokenize(p)
		evs = append(evs, es...)
		if left == 0 {
			return evs
		}
		p = p[len(p)-left:]
		r, m := utf8.DecodeRune(p)
		if r == 0x1B && len(p) > 1 && 0x40 <= p[1] && p[1] <= 0x5F {
			r, m = rune(p[1])+0x40, 2
		}
		evs = append(evs, Ev{ID: r})
		p = p[m:]
	}
}

// Tail generates the beginning of a sequence that will never be completed.
func Tail(t *rapid.T) []byte {
	switch rapid.IntRange(0, 4).Draw(t, "tail") {
	case 0:
		return nil
	case 1:
		p := CSI(t)
		if p[0] == 0x1B && len(p) > 3 {
			return p[:rapid.IntRange(1, len(p)-1).Draw(t, "cut")]
		}
		return p[:len(p)-1]
	case 2:
		p := String(t)
		return p[:rapid.IntRange(2, len(p)-1).Draw(t, "cut")]
	case 3:
		return []byte{0x1B, ' ', '#'}[:rapid.IntRange(1, 3).Draw(t, "cut")]
	}
	return []byte("\U0001f600")[:rapid.IntRange(1, 3).Draw(t, "cut")]
}
