package c23

import (
	"fmt"
	"image"
	"io"
	"log"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"github.com/jcorbin/anansi/x/platform"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
	"verif/ref"
)

var plat *platform.Platform

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	p, err := platform.New(nil, nil, platform.Config{})
	if err != nil {
		panic("HX-INFRA " + err.Error())
	}
	plat = p
	hx.Main(m)
}

// line is the model of an edit line.
type line struct {
	text  []rune
	cur   int
	state platform.EditLineState
}

// input applies an event, telling whether it was used.
func (l *line) input(e ref.Ev) bool {
	if l.state != platform.EditLineReady {
		return false
	}
	switch {
	case e.ID == 0x0D:
		l.state = platform.EditLineDone
	case e.ID == 0x1B:
		l.state = platform.EditLineCanceled
	case e.ID == 0x7F:
		if l.cur > 0 {
			l.text = append(l.text[:l.cur-1:l.cur-1], l.text[l.cur:]...)
			l.cur--
		}
	case 0xEF80|'A' <= e.ID && e.ID <= 0xEF80|'D':
		n := 1
		if e.Arg != "" {
			fmt.Sscanf(e.Arg, "%d", &n)
		}
		switch e.ID {
		case 0xEF80 | 'C':
			l.cur = min(l.cur+n, len(l.text))
		case 0xEF80 | 'D':
			l.cur = max(l.cur-n, 0)
		}
	case 0xEF00 <= e.ID && e.ID <= 0xEFFF:
		return false
	case unicode.IsGraphic(e.ID):
		text := append([]rune(nil), l.text[:l.cur]...)
		text = append(text, e.ID)
		l.text = append(text, l.text[l.cur:]...)
		l.cur++
	default:
		return false
	}
	return true
}

// key generates a key press, as bytes.
func key(t *rapid.T) string {
	switch rapid.IntRange(0, 13).Draw(t, "key") {
	case 0, 1, 2, 3:
		return string(gen.Rune().Draw(t, "r"))
	case 4:
		return rapid.StringMatching(`[a-z ,]{1,9}`).Draw(t, "word")
	case 5, 6:
		return strings.Repeat("\x7f", rapid.IntRange(1, 4).Draw(t, "bs"))
	case 7, 8, 9:
		return "\x1b[" + rapid.SampledFrom([]string{"", "", "1", "2", "3", "5", "12", "80"}).Draw(t, "n") + string("DDCCAB"[rapid.IntRange(0, 5).Draw(t, "dir")])
	case 10:
		return rapid.SampledFrom([]string{"\t", "\x01", "\u200b", "\u0085", "\x1b[3~", "\x1bOP", "\x1b[<0;3;4M", "\x1b[H", "\x00"}).Draw(t, "other")
	case 11:
		return rapid.SampledFrom([]string{"\u00a0", "\ufffd", "é", "世", "\xff"}).Draw(t, "odd")
	case 12:
		if rapid.IntRange(0, 5).Draw(t, "end") == 0 {
			return rapid.SampledFrom([]string{"\r", "\x1b"}).Draw(t, "endkey")
		}
	}
	return "a"
}

const rule = "histories of frames of keys (text, deletes, cursor moves, unrelated events, the end amid more input) put to an edit line in boxes of changing place and width among other drawing; non-trivial = text longer than its box edited away from its end"

// TestEditLine: the line is what was typed, and shown around its cursor within
// its box.
func TestEditLine(t *testing.T) {
	hx.Check(t, 12000, rule, func(t *rapid.T, c *hx.Case) {
		ctx := plat.Context()
		sw, sh := rapid.IntRange(4, 24).Draw(t, "sw"), rapid.IntRange(1, 4).Draw(t, "sh")
		ctx.Output.Resize(image.Pt(sw, sh))
		var edl platform.EditLine
		var l line
		var box ansi.Rectangle
		move := func() {
			x := rapid.IntRange(1, sw-1).Draw(t, "bx")
			y := rapid.IntRange(1, sh).Draw(t, "by")
			w := rapid.IntRange(1, min(12, sw-x)).Draw(t, "bw") // leaving the last column alone
			box = ansi.Rect(x, y, x+w, y+rapid.IntRange(1, sh-y+1).Draw(t, "bh"))
		}
		move()
		edited := false
		for k := rapid.IntRange(1, 9).Draw(t, "frames"); k > 0; k-- {
			switch rapid.IntRange(0, 11).Draw(t, "op") {
			case 0:
				move()
			case 1:
				if l.state != platform.EditLineReady || rapid.Bool().Draw(t, "reset") {
					c.Logf("reset")
					edl.Reset()
					l = line{}
				}
			}
			edl.Box = box
			noroom := rapid.IntRange(0, 19).Draw(t, "noroom") == 0
			if noroom {
				edl.Box.Max.X = edl.Box.Min.X
			}

			// a frame: what others draw, then the edit line
			ctx.Output.Reset()
			ctx.Input.Clear()
			for j := rapid.IntRange(0, 3).Draw(t, "others"); j > 0; j-- {
				y := rapid.IntRange(1, sh).Draw(t, "oy")
				x, s := rapid.IntRange(1, sw).Draw(t, "ox"), rapid.StringMatching(`[A-Z]{1,8}`).Draw(t, "os")
				end := sw
				if y == box.Min.Y {
					if x < box.Min.X {
						end = box.Min.X
					} else if x < box.Max.X {
						continue
					}
				}
				if x+len(s) > end {
					s = s[:max(0, end-x)]
				}
				ctx.Output.To(ansi.Pt(x, y))
				ctx.Output.WriteSGR(gen.SGR(gen.Attr().Draw(t, "oa")))
				ctx.Output.WriteString(s)
			}
			rs := append([]rune(nil), ctx.Output.Grid.Rune...)
			as := append([]ansi.SGRAttr(nil), ctx.Output.Grid.Attr...)
			var in string
			for j := rapid.IntRange(0, 5).Draw(t, "keys"); j > 0; j-- {
				k := key(t)
				if in += k; k == "\x1b" {
					break // with anything after it, it would be part of a sequence
				}
			}
			c.Logf("%q in %v of %dx%d", in, edl.Box, sw, sh)
			evs := ref.AtEOF([]byte(in))
			ctx.Input.DecodeBytes([]byte(in))
			if len(evs) != len(ctx.Input.Type) {
				t.Skip("decoding is not the matter here")
			}
			kinds := append([]platform.EventType(nil), ctx.Input.Type...)
			was := l.state
			for i, e := range evs {
				if l.input(e) {
					if l.cur < len(l.text) && l.cur > 0 && l.state == platform.EditLineReady && (e.ID == 0x7F || unicode.IsGraphic(e.ID)) && len(l.text) > box.Dx() {
						edited = true
					}
					kinds[i] = platform.EventNone
				}
			}

			edl.Update(&ctx)

			if edl.State != l.state || edl.Active() != (l.state == platform.EditLineReady) ||
				edl.Done() != (l.state == platform.EditLineDone) || edl.Canceled() != (l.state == platform.EditLineCanceled) {
				t.Fatalf("state %v, should be %v", edl.State, l.state)
			}
			if string(edl.Buf) != string(l.text) {
				t.Fatalf("line %q, should be %q", edl.Buf, string(l.text))
			}
			if l.state == platform.EditLineReady && edl.Cur != l.cur {
				t.Fatalf("cursor at %d of %q, should be at %d", edl.Cur, edl.Buf, l.cur)
			}
			for i, k := range kinds {
				if ctx.Input.Type[i] != k {
					if id := evs[i].ID; k != platform.EventNone || ctx.Input.Type[i] != platform.EventEscape || id > 0xEF80|'B' {
						t.Fatalf("event %v has type %d, should be %d", evs[i], ctx.Input.Type[i], k)
					}
				}
			}

			// what is shown
			w := edl.Box.Dx()
			var shown []rune
			active := l.state == platform.EditLineReady && was == platform.EditLineReady && w > 0
			at := l.cur - edl.View
			if active {
				if edl.View < 0 || at < 0 || at >= w {
					t.Fatalf("cursor at %d is not in view from %d by %d", l.cur, edl.View, w)
				}
				if edl.View > 0 && edl.View+w > len(l.text)+1 {
					t.Fatalf("view from %d by %d leaves room for the %d runes of %q", edl.View, w, len(l.text), string(l.text))
				}
				shown = l.text[edl.View:min(edl.View+w, len(l.text))]
				uc := ctx.Output.UserCursor
				if !uc.Visible || uc.X != box.Min.X+at || uc.Y != box.Min.Y {
					t.Fatalf("user cursor %v, should be %d in %v", uc, at, box)
				}
			} else if ctx.Output.UserCursor.Visible {
				t.Fatalf("user cursor %v is visible", ctx.Output.UserCursor)
			}
			for y := 1; y <= sh; y++ {
				for x := 1; x <= sw; x++ {
					i := (y-1)*sw + x - 1
					got, a := ctx.Output.Grid.Rune[i], ctx.Output.Grid.Attr[i]
					j := x - box.Min.X
					if active && y == box.Min.Y && 0 <= j && j < w {
						if j < len(shown) {
							if got != shown[j] {
								t.Fatalf("cell %d of %v is %q, should be %q of %q", j, box, got, shown[j], string(shown))
							}
						} else if got != 0 && got != ' ' {
							t.Fatalf("cell %d of %v is %q beyond %q", j, box, got, string(shown))
						}
						continue
					}
					if got != rs[i] || a != as[i] {
						t.Fatalf("cell (%d,%d) outside of %v changed from %q %v to %q %v", x, y, box, rs[i], as[i], got, a)
					}
				}
			}
		}
		c.NT(edited)
	})
}

var (
	_ = utf8.RuneError
	_ anansi.Cursor
)
