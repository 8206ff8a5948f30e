package c06

import (
	"bytes"
	"image"
	"syscall"
	"testing"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"pgregory.net/rapid"

	"verif/fault"
	"verif/hx"
	"verif/ops"
	"verif/ref"
	"verif/scr"
)

func TestMain(m *testing.M) { hx.Main(m) }

type rec struct{ evs []ref.Ev }

func (r *rec) ProcessANSI(e ansi.Escape, a []byte) {
	r.evs = append(r.evs, ref.Ev{ID: rune(e), Arg: string(a)})
}

type sink []byte

func (s *sink) Write(p []byte) (int, error) {
	*s = append(*s, p...)
	return len(p), nil
}

const rule = "arbitrary byte streams (well-formed tokens and biased garbage mixed) processed whole and cut at arbitrary points, byte by byte included; non-trivial = a cut fell inside an escape sequence or rune"

func stream(t *rapid.T) []byte {
	var p []byte
	for k := rapid.IntRange(1, 8).Draw(t, "n"); k > 0; k-- {
		if rapid.IntRange(0, 3).Draw(t, "soup") == 0 {
			p = append(p, ref.Soup(t, 6)...)
		} else {
			p = append(p, ref.Token(t)...)
		}
	}
	return p
}

// TestBuffer: the events a processor sees do not depend on how the bytes were
// cut into writes, nor on when processed bytes are discarded.
func TestBuffer(t *testing.T) {
	hx.Check(t, 60000, rule, func(t *rapid.T, c *hx.Case) {
		p := stream(t)
		c.Logf("%q", p)
		var whole rec
		var wb anansi.Buffer
		wb.Write(p)
		wb.Process(&whole)
		wb.Discard()

		var pieces rec
		var pb, left anansi.Buffer // left keeps only what is not processed
		inside := false
		discard := rapid.Bool().Draw(t, "discard")
		drain := rapid.Bool().Draw(t, "drain")
		var drained []byte
		for _, part := range ref.Split(t, p) {
			pb.Write(part)
			pb.Process(&pieces)
			left.Write(part)
			left.Process(&rec{})
			left.Discard()
			if drain && rapid.IntRange(0, 2).Draw(t, "drains") == 0 {
				// write out some of what has been processed, if not all
				done := pb.Len() - left.Len()
				if done < pb.Len() || rapid.Bool().Draw(t, "part") {
					done = rapid.IntRange(0, done).Draw(t, "accept")
				}
				before := append([]byte(nil), pb.Bytes()...)
				w := fault.Writer{W: (*sink)(&drained)}
				if done < len(before) {
					w.Plan = []fault.Step{{N: done, Err: syscall.EWOULDBLOCK}}
				}
				n, err := pb.WriteTo(&w)
				if int(n) != done || (err == nil) != (done == len(before)) {
					t.Fatalf("%q: WriteTo %d %v of %d, accepted %d", p, n, err, len(before), done)
				}
				if string(pb.Bytes()) != string(before[done:]) || !bytes.HasSuffix(drained, before[:done]) {
					t.Fatalf("%q: wrote %q of %q, kept %q", p, drained, before, pb.Bytes())
				}
			}
			if discard {
				pb.Discard()
				inside = inside || pb.Len() > 0
			}
		}
		pb.Discard()
		c.NT(inside)
		c.LabelIf(inside, "cut-inside")
		if len(whole.evs) != len(pieces.evs) {
			t.Fatalf("%q: whole %v, in pieces %v", p, whole.evs, pieces.evs)
		}
		for i := range whole.evs {
			if whole.evs[i] != pieces.evs[i] {
				t.Fatalf("%q: whole %v, in pieces %v", p, whole.evs, pieces.evs)
			}
		}
		if wb.Len() != pb.Len() {
			t.Fatalf("%q: %d bytes left over whole, %d in pieces", p, wb.Len(), pb.Len())
		}
	})
}

const emuRule = "random streams written to a virtual screen or cursor whole and in pieces; non-trivial = more than one piece and a visible effect on the screen"

// TestEmulation: the same for what the virtual screen and cursor end up as.
func TestEmulation(t *testing.T) {
	hx.Check(t, 30000, emuRule, func(t *rapid.T, c *hx.Case) {
		w, h := scr.Size(t)
		var p []byte
		for k := rapid.IntRange(1, 10).Draw(t, "n"); k > 0; k-- {
			switch rapid.IntRange(0, 5).Draw(t, "kind") {
			case 0:
				p = append(p, ref.Soup(t, 4)...)
			case 1:
				p = append(p, ref.Token(t)...)
			default:
				p = append(p, ops.Gen(w, h).Draw(t, "op").Enc...)
			}
		}
		c.Logf("%dx%d %q", w, h, p)
		var a, b anansi.VirtualScreen
		var ca, cb anansi.VirtualCursor
		a.Resize(image.Pt(w, h))
		b.Resize(image.Pt(w, h))
		a.Write(p)
		ca.Write(p)
		parts := ref.Split(t, p)
		for _, part := range parts {
			if rapid.Bool().Draw(t, "string") {
				b.WriteString(string(part))
				cb.WriteString(string(part))
			} else {
				b.Write(part)
				cb.Write(part)
			}
		}
		effect := false
		for i := range a.Rune {
			effect = effect || a.Rune[i] != 0
			if a.Rune[i] != b.Rune[i] || a.Attr[i] != b.Attr[i] {
				t.Fatalf("cell %d is %q %v whole, %q %v in pieces", i, a.Rune[i], a.Attr[i], b.Rune[i], b.Attr[i])
			}
		}
		if a.Cursor != b.Cursor {
			t.Fatalf("screen cursor %v whole, %v in pieces", a.Cursor, b.Cursor)
		}
		if ca.Cursor != cb.Cursor {
			t.Fatalf("cursor %v whole, %v in pieces", ca.Cursor, cb.Cursor)
		}
		if !a.Cursor.Point.In(a.Bounds()) && a.Cursor.Point != ansi.ZP {
			t.Fatalf("cursor %v off the screen %v", a.Cursor.Point, a.Bounds())
		}
		c.NT(effect && len(parts) > 1)
	})
}
