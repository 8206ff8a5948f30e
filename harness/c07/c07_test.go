package c07

import (
	"bytes"
	"testing"
	"unicode/utf8"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
	"verif/ops"
	"verif/vt"
)

func TestMain(m *testing.M) { hx.Main(m) }

// known is what a cursor's history establishes about the terminal's cursor.
type known struct {
	pos, attr, vis bool
	x, y           int
	a              vt.Attr
	v              bool
}

// W, H: the area drawn in is far from the edges of a 300x200 terminal.
const W, H = 60, 40

func point(t *rapid.T) ansi.Point {
	return ansi.Pt(rapid.IntRange(1, W).Draw(t, "x"), rapid.IntRange(1, H).Draw(t, "y"))
}

// near generates a point related to the current one.
func near(t *rapid.T, k known) ansi.Point {
	if !k.pos || rapid.IntRange(0, 2).Draw(t, "far") == 0 {
		return point(t)
	}
	x, y := k.x, k.y
	switch rapid.IntRange(0, 4).Draw(t, "near") {
	case 0:
		x += rapid.IntRange(-3, 3).Draw(t, "dx")
	case 1:
		y += rapid.IntRange(-3, 3).Draw(t, "dy")
	case 2:
		x, y = 1, y+1
	case 3:
		x, y = x+rapid.IntRange(-1, 1).Draw(t, "dx"), y+rapid.IntRange(-1, 1).Draw(t, "dy")
	}
	return ansi.Pt(min(max(x, 1), W), min(max(y, 1), H))
}

func (k *known) to(p ansi.Point) { k.pos, k.x, k.y = true, p.X, p.Y }
func (k *known) sgr(a vt.Attr)   { k.attr, k.a = true, a }
func (k *known) show(v bool)     { k.vis, k.v = true, v }
func (k *known) text(n int)      { k.x += n }
func (k known) fits(n int) bool  { return !k.pos || k.x+n < 250 }
func (k known) down(n int) bool  { return !k.pos || k.y+n < 150 }
func (k known) matches(t *rapid.T, cur anansi.Cursor, term *vt.Term, cells bool) {
	if k.pos && (cur.X != k.x || cur.Y != k.y) {
		t.Fatalf("cursor tracked at %v, should be at (%d,%d)", cur.Point, k.x, k.y)
	}
	if k.attr && gen.Back(cur.Attr) != k.a {
		t.Fatalf("rendition tracked as %v, should be %v", cur.Attr, k.a)
	}
	if k.vis && cur.Visible != k.v {
		t.Fatalf("visibility tracked as %v, should be %v", cur.Visible, k.v)
	}
	if !cells {
		return
	}
	if !term.Idle() || len(term.Trace) > 0 {
		t.Fatalf("terminal left inside a sequence, or unexpected %q", term.Trace)
	}
	if k.pos && (term.X != k.x || term.Y != k.y) {
		t.Fatalf("terminal cursor at (%d,%d), should be at (%d,%d)", term.X, term.Y, k.x, k.y)
	}
	if k.attr && term.A != k.a {
		t.Fatalf("terminal rendition %v, should be %v", term.A, k.a)
	}
	if k.vis && term.Visible != k.v {
		t.Fatalf("terminal cursor visibility %v, should be %v", term.Visible, k.v)
	}
}

var shared *vt.Term

func freshTerm(t *rapid.T) *vt.Term {
	// the cells do not matter here, so one terminal serves all cases
	term := shared
	if term == nil || !term.Idle() {
		term = vt.New(300, 200)
		shared = term
	}
	term.Trace, term.Pending = nil, false
	term.X, term.Y = rapid.IntRange(1, W).Draw(t, "tx"), rapid.IntRange(1, H).Draw(t, "ty")
	term.A = gen.Attr().Draw(t, "ta")
	term.Visible = rapid.Bool().Draw(t, "tv")
	return term
}

const rule = "random histories of typed cursor operations (To, Show, Hide, WriteSGR, Apply), text and raw ANSI output through every write method, Reset and WriteTo, from a terminal in an unknown state; non-trivial = a move or rendition change after raw output, and at least one Reset or two completed writes"

// TestVirtualCursor: the tracked state is the terminal's.
func TestVirtualCursor(t *testing.T) {
	hx.Check(t, 60000, rule, func(t *rapid.T, c *hx.Case) {
		term := freshTerm(t)
		var cur anansi.VirtualCursor
		var k, real known
		raw, afterRaw := false, false
		resets, writes := 0, 0
		for i, n := 0, rapid.IntRange(1, 20).Draw(t, "n"); i < n; i++ {
			switch rapid.IntRange(0, 11).Draw(t, "op") {
			case 0, 1:
				p := near(t, k)
				c.Logf("To %v", p)
				cur.To(p)
				k.to(p)
				afterRaw = afterRaw || raw
			case 2:
				var as []ansi.SGRAttr
				for j := rapid.IntRange(1, 3).Draw(t, "na"); j > 0; j-- {
					a := gen.Attr().Draw(t, "a")
					as = append(as, gen.SGR(a))
					k.sgr(a)
				}
				c.Logf("WriteSGR %v", as)
				cur.WriteSGR(as...)
				afterRaw = afterRaw || raw
			case 3:
				v := rapid.Bool().Draw(t, "v")
				if v {
					cur.Show()
				} else {
					cur.Hide()
				}
				c.Logf("Show %v", v)
				k.show(v)
			case 4:
				cs := anansi.Cursor{Visible: rapid.Bool().Draw(t, "v")}
				a := gen.Attr().Draw(t, "a")
				cs.Attr = gen.SGR(a)
				if rapid.IntRange(0, 4).Draw(t, "nowhere") > 0 {
					cs.Point = near(t, k)
				}
				c.Logf("Apply %v", cs)
				cur.Apply(cs)
				if cs.Visible && cs.Point.Valid() {
					k.to(cs.Point)
					k.sgr(a)
					k.show(true)
				} else {
					k.show(false)
				}
			case 5, 6, 7, 8:
				raw = rawOp(t, c, &cur, &k) || raw
			case 9:
				c.Logf("Reset")
				cur.Reset()
				k = real
				resets++
				if cur.Cursor != cur.Real {
					t.Fatalf("cursor %v after Reset, Real %v", cur.Cursor, cur.Real)
				}
				if n, err := cur.WriteTo(term); n != 0 || err != nil {
					t.Fatalf("WriteTo after Reset wrote %d bytes, %v", n, err)
				}
			default:
				c.Logf("WriteTo")
				before := cur.Cursor
				if _, err := cur.WriteTo(term); err != nil {
					t.Fatalf("WriteTo: %v", err)
				}
				writes++
				if cur.Cursor != before || cur.Real != before {
					t.Fatalf("WriteTo changed cursor %v to %v, Real %v", before, cur.Cursor, cur.Real)
				}
				real = k
				k.matches(t, cur.Cursor, term, true)
			}
			k.matches(t, cur.Cursor, term, false)
		}
		// whatever is known now, an explicit state can always be reached
		p, a, v := near(t, k), gen.Attr().Draw(t, "a"), rapid.Bool().Draw(t, "v")
		c.Logf("finally To %v SGR %v Show %v", p, a, v)
		cur.To(p)
		cur.WriteSGR(gen.SGR(a))
		if v {
			cur.Show()
		} else {
			cur.Hide()
		}
		k.to(p)
		k.sgr(a)
		k.show(v)
		if _, err := cur.WriteTo(term); err != nil {
			t.Fatalf("WriteTo: %v", err)
		}
		k.matches(t, cur.Cursor, term, true)
		// and reaching it again takes nothing
		cur.To(p)
		cur.WriteSGR(gen.SGR(a))
		if v {
			cur.Show()
			cur.Apply(cur.Cursor)
		} else {
			cur.Hide()
		}
		var buf bytes.Buffer
		if cur.WriteTo(&buf); buf.Len() > 0 {
			t.Fatalf("repeating the current cursor state wrote %q", buf.Bytes())
		}
		c.NT(afterRaw && (resets > 0 || writes > 1))
		c.LabelIf(resets > 0, "reset")
	})
}

// rawOp writes plain bytes, reporting whether they moved or restyled the cursor.
func rawOp(t *rapid.T, c *hx.Case, cur *anansi.VirtualCursor, k *known) bool {
	o := ops.Gen(W, H).Draw(t, "raw")
	switch o.Kind {
	case ops.Text:
		if !k.fits(1) {
			return false
		}
		k.text(1)
	case ops.CR:
		k.x = 1
	case ops.LF:
		if !k.down(1) {
			return false
		}
		k.y++
	case ops.Move:
		n := max(o.N, 1)
		switch o.Dir {
		case 'A':
			if k.pos && k.y-n < 1 {
				return false
			}
			k.y -= n
		case 'B':
			if !k.down(n) {
				return false
			}
			k.y += n
		case 'C':
			if !k.fits(n) {
				return false
			}
			k.x += n
		case 'D':
			if k.pos && k.x-n < 1 {
				return false
			}
			k.x -= n
		}
	case ops.Pos:
		k.pos, k.x, k.y = true, max(o.X, 1), max(o.Y, 1)
	case ops.SGR:
		if o.Fresh {
			k.attr = true
		}
		k.a = ops.Merge(k.a, o)
	case ops.Vis:
		k.show(o.On)
	case ops.ED, ops.EL:
	default:
		return false
	}
	c.Logf("raw %q", o.Enc)
	switch how := rapid.IntRange(0, 4).Draw(t, "how"); {
	case how == 0:
		if n, err := cur.WriteString(string(o.Enc)); n != len(o.Enc) || err != nil {
			t.Fatalf("WriteString returned %d %v", n, err)
		}
	case how == 1:
		for _, b := range o.Enc {
			if err := cur.WriteByte(b); err != nil {
				t.Fatalf("WriteByte: %v", err)
			}
		}
	case how == 2 && utf8.Valid(o.Enc):
		for _, r := range string(o.Enc) {
			if n, err := cur.WriteRune(r); n != utf8.RuneLen(r) || err != nil {
				t.Fatalf("WriteRune returned %d %v", n, err)
			}
		}
	case how == 3 && o.Kind == ops.Move:
		esc := ansi.CSI(o.Dir)
		if o.N == 0 {
			cur.WriteESC(esc)
		} else {
			cur.WriteSeq(esc.WithInts(o.N))
		}
	case how == 3 && o.Kind == ops.Pos && o.X > 0:
		cur.WriteSeq(ansi.CUP.WithPoint(ansi.Pt(o.X, o.Y)))
	default:
		if n, err := cur.Write(o.Enc); n != len(o.Enc) || err != nil {
			t.Fatalf("Write returned %d %v", n, err)
		}
	}
	return o.Kind != ops.Text && o.Kind != ops.ED && o.Kind != ops.EL
}

const applyRule = "random pairs of cursor states applied one after another into a plain writer, a buffer or a virtual cursor; non-trivial = both visible and different in position and rendition"

// TestApplyTo: applying a cursor to a writer makes the terminal's cursor it.
func TestApplyTo(t *testing.T) {
	hx.Check(t, 30000, applyRule, func(t *rapid.T, c *hx.Case) {
		term := freshTerm(t)
		var prior anansi.Cursor
		var k known
		vis := 0
		for i, n := 0, rapid.IntRange(1, 5).Draw(t, "n"); i < n; i++ {
			cs := anansi.Cursor{Visible: rapid.IntRange(0, 3).Draw(t, "v") > 0, Point: near(t, k)}
			a := gen.Attr().Draw(t, "a")
			cs.Attr = gen.SGR(a)
			c.Logf("%v", cs)
			if cs.Visible {
				vis++
				k.to(cs.Point)
				k.sgr(a)
				k.show(true)
			} else {
				k.show(false)
			}
			var m int
			var err error
			var sent bytes.Buffer
			switch rapid.IntRange(0, 2).Draw(t, "writer") {
			case 0:
				m, prior, err = cs.ApplyTo(&sent, prior)
			case 1:
				var b anansi.Buffer
				m, prior, err = cs.ApplyTo(&b, prior)
				b.WriteTo(&sent)
			case 2:
				var b anansi.VirtualCursor
				b.Cursor, b.Real = prior, prior
				m, prior, err = cs.ApplyTo(&b, prior)
				b.WriteTo(&sent)
			}
			if err != nil || m != sent.Len() {
				t.Fatalf("ApplyTo returned %d, %v after writing %q", m, err, sent.Bytes())
			}
			term.Write(sent.Bytes())
			k.matches(t, prior, term, true)
			if m, p2, err := cs.ApplyTo(&sent, prior); m != 0 || err != nil || p2 != prior {
				t.Fatalf("applying %v again wrote %d bytes, %v", cs, m, err)
			}
		}
		c.NT(vis >= 2)
	})
}
