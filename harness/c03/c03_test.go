package c03

import (
	"errors"
	"image"
	"maps"
	"os"
	"syscall"
	"testing"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"pgregory.net/rapid"

	"verif/fault"
	"verif/gen"
	"verif/hx"
	"verif/scr"
	"verif/vt"
)

func TestMain(m *testing.M) { hx.Main(m) }

func wouldBlock(err error) bool {
	return errors.Is(err, syscall.EWOULDBLOCK) || errors.Is(err, os.ErrDeadlineExceeded)
}

const rule = "random frame histories flushed into a writer that takes an arbitrary prefix and then would-block (possibly several times, with drawing, clearing, resizing or invalidating in between) or fails outright; non-trivial = at least one fault that cut a frame after some but not all of its bytes"

type snap struct {
	g  anansi.Grid
	uc anansi.Cursor
}

func shot(sc *anansi.TermScreen) snap {
	return snap{anansi.Grid{
		Rune: append([]rune(nil), sc.Rune...), Attr: append([]ansi.SGRAttr(nil), sc.Attr...),
		Stride: sc.Stride, Rect: sc.Rect}, sc.UserCursor}
}

// TestScreen: partial writes resume exactly, hard errors recover by redraw.
func TestScreen(t *testing.T) {
	hx.Check(t, 30000, rule, func(t *rapid.T, c *hx.Case) {
		m := scr.New(t, c)
		cuts := 0
		m.T.BCE = false
		w := &fault.Writer{W: m.T}
		var pending *snap // the frame being written
		invalid := false
		for f, n := 0, rapid.IntRange(1, 6).Draw(t, "frames"); f < n; f++ {
			if pending == nil && rapid.IntRange(0, 9).Draw(t, "resize") == 0 {
				tw, th := scr.Size(t)
				m.T.Resize(tw, th)
				m.SC.Resize(image.Pt(tw, th))
				c.Logf("resize %dx%d", tw, th)
			}
			if pending != nil && rapid.IntRange(0, 5).Draw(t, "inval") == 0 {
				m.SC.Invalidate()
				c.Logf("invalidate with output pending")
				c.Label("invalidate-pending")
				invalid = true
			}
			m.Draw(t, 5)
			resume := pending
			if pending == nil {
				s := shot(m.SC)
				pending = &s
			}
			w.Log = nil
			switch rapid.IntRange(0, 4).Draw(t, "fault") {
			case 0, 1:
				w.Plan = nil
			case 2, 3:
				w.Plan = []fault.Step{{N: rapid.IntRange(0, 40).Draw(t, "accept"), Err: fault.Block(t)}}
			case 4:
				w.Plan = []fault.Step{{N: rapid.IntRange(0, 40).Draw(t, "accept"), Err: fault.Fatal(t)}}
			}
			planned := len(w.Plan) > 0
			var planErr error
			if planned {
				planErr = w.Plan[0].Err
			}
			before := w.Got
			nn, err := m.SC.WriteTo(w)
			took := w.Got - before
			c.Logf("WriteTo: %d bytes, %v %q", nn, err, w.Log)
			if int(nn) != took {
				t.Fatalf("WriteTo reported %d bytes, the writer took %d", nn, took)
			}
			hit := planned && len(w.Plan) == 0
			w.Plan = nil
			if hit && took > 0 {
				cuts++
			}
			switch {
			case err == nil:
				if hit {
					t.Fatalf("write error %v was swallowed", planErr)
				}
				if e := scr.Diff(m.T, pending.g, pending.uc); e != nil {
					t.Fatalf("after a completed write (resumed: %v): %v", resume != nil, e)
				}
				c.LabelIf(resume != nil, "resumed")
				pending = nil
			case wouldBlock(err):
				if !hit || !wouldBlock(planErr) {
					t.Fatalf("spurious %v", err)
				}
				c.Label("blocked")
			default:
				if !hit || wouldBlock(planErr) {
					t.Fatalf("spurious %v", err)
				}
				pending = nil
				c.Label("failed")
				for i := range m.SC.Rune {
					if m.SC.Rune[i] != 0 || m.SC.Attr[i] != 0 {
						t.Fatalf("virtual screen not reset after a write error")
					}
				}
			}
		}
		// whatever happened, one or two clean writes bring the terminal up to date
		for i := 0; i < 2; i++ {
			if _, err := m.SC.WriteTo(w); err != nil {
				t.Fatalf("clean WriteTo: %v", err)
			}
			if pending == nil {
				break
			}
			if e := scr.Diff(m.T, pending.g, pending.uc); e != nil {
				t.Fatalf("after the pending write completed: %v", e)
			}
			pending = nil
		}
		if e := scr.Diff(m.T, m.SC.Grid, m.SC.UserCursor); e != nil {
			t.Fatalf("after a final clean write (invalidated %v): %v", invalid, e)
		}
		c.NT(cuts > 0)
	})
}

const cursorRule = "random cursor operations and text buffered in a virtual cursor and written through a faulty writer; non-trivial = at least one fault, and a successful write after it"

// TestCursor: the same for the virtual cursor.
func TestCursor(t *testing.T) {
	hx.Check(t, 30000, cursorRule, func(t *rapid.T, c *hx.Case) {
		const W, H = 120, 40
		term := vt.New(W, H)
		term.X, term.Y = rapid.IntRange(1, W).Draw(t, "tx"), rapid.IntRange(1, H).Draw(t, "ty")
		term.A = gen.Attr().Draw(t, "attr0")
		w := &fault.Writer{W: term}
		var cur anansi.VirtualCursor
		want := map[image.Point]vt.Cell{} // every cell the buffered text covers
		stale := map[image.Point]bool{}   // cells a failed write may or may not have reached
		faults, oks, pend := 0, 0, false
		drawn := map[image.Point]bool{}   // cells drawn since then
		base := map[image.Point]vt.Cell{} // as of the last write that completed
		fresh := true                     // position and rendition must be (re)established
		for i, n := 0, rapid.IntRange(1, 8).Draw(t, "steps"); i < n; i++ {
			for k, m := 0, rapid.IntRange(0, 4).Draw(t, "ops"); k < m || fresh; k++ {
				if fresh {
					fresh = false
					pt := ansi.Pt(rapid.IntRange(1, 40).Draw(t, "x"), rapid.IntRange(1, H).Draw(t, "y"))
					a := gen.Attr().Draw(t, "a")
					cur.To(pt)
					cur.WriteSGR(gen.SGR(a))
					if rapid.Bool().Draw(t, "vis") {
						cur.Show()
					} else {
						cur.Hide()
					}
					c.Logf("start %v %v", pt, a)
					continue
				}
				switch rapid.IntRange(0, 4).Draw(t, "op") {
				case 0:
					pt := ansi.Pt(rapid.IntRange(1, 40).Draw(t, "x"), rapid.IntRange(1, H).Draw(t, "y"))
					cur.To(pt)
					c.Logf("to %v", pt)
				case 1:
					a := gen.Attr().Draw(t, "a")
					cur.WriteSGR(gen.SGR(a))
					c.Logf("sgr %v", a)
				case 2:
					s := rapid.StringOfN(gen.Rune(), 0, 6, -1).Draw(t, "s")
					pt := cur.Cursor.Point
					if pt.X+len([]rune(s)) >= W-8 {
						continue
					}
					for _, r := range s {
						want[pt.Point] = vt.Cell{R: r, A: gen.Back(cur.Attr)}
						drawn[pt.Point] = true
						pt.X++
					}
					cur.WriteString(s)
					c.Logf("text %q", s)
				case 3:
					if rapid.Bool().Draw(t, "vis") {
						cur.Show()
					} else {
						cur.Hide()
					}
				case 4:
					cs := anansi.Cursor{Visible: rapid.Bool().Draw(t, "vis"),
						Point: ansi.Pt(rapid.IntRange(1, 40).Draw(t, "x"), rapid.IntRange(1, H).Draw(t, "y")),
						Attr:  gen.SGR(gen.Attr().Draw(t, "a"))}
					cur.Apply(cs)
					c.Logf("apply %v", cs)
				}
			}
			switch rapid.IntRange(0, 4).Draw(t, "fault") {
			case 2, 3:
				w.Plan = []fault.Step{{N: rapid.IntRange(0, 20).Draw(t, "accept"), Err: fault.Block(t)}}
			case 4:
				w.Plan = []fault.Step{{N: rapid.IntRange(0, 20).Draw(t, "accept"), Err: fault.Fatal(t)}}
			}
			if rapid.IntRange(0, 7).Draw(t, "reset") == 0 {
				c.Logf("Reset")
				real := cur.Real
				cur.Reset()
				if cur.Cursor != real || cur.Real != real {
					t.Fatalf("cursor %v / %v after Reset, should be %v", cur.Cursor, cur.Real, real)
				}
				if pend { // some of it may have been written
					maps.Copy(stale, drawn)
				}
				clear(drawn)
				want = maps.Clone(base)
				fresh = pend || !real.Point.Valid()
				pend = false
				continue
			}
			planned := len(w.Plan) > 0
			n, err := cur.WriteTo(w)
			hit := planned && len(w.Plan) == 0
			w.Plan = nil
			c.Logf("WriteTo %d %v", n, err)
			if hit {
				faults++
			}
			if (err != nil) != hit {
				t.Fatalf("WriteTo returned %v, fault hit %v", err, hit)
			}
			switch {
			case err == nil:
				oks++
				pend = false
				for pt := range drawn {
					delete(stale, pt)
				}
				clear(drawn)
				check(t, c, term, &cur, want, stale)
				base = maps.Clone(want)
			case wouldBlock(err):
				if cur.Real != (anansi.Cursor{}) {
					t.Fatalf("real cursor state %v not forgotten after a partial write", cur.Real)
				}
				pend = true
			default:
				// anything written since the last success may or may not be there
				if cur.Cursor != (anansi.Cursor{}) || cur.Real != (anansi.Cursor{}) {
					t.Fatalf("cursor state not forgotten after a write error: %v / %v", cur.Cursor, cur.Real)
				}
				maps.Copy(stale, drawn)
				clear(drawn)
				fresh, pend = true, false
			}
		}
		if !fresh {
			if _, err := cur.WriteTo(w); err != nil {
				t.Fatalf("clean WriteTo: %v", err)
			}
			for pt := range drawn {
				delete(stale, pt)
			}
			check(t, c, term, &cur, want, stale)
		}
		_ = pend
		c.NT(faults > 0 && oks > 0)
	})
}

func check(t *rapid.T, c *hx.Case, term *vt.Term, cur *anansi.VirtualCursor, want map[image.Point]vt.Cell, stale map[image.Point]bool) {
	if !term.Idle() || len(term.Trace) > 0 {
		t.Fatalf("terminal not idle, or unexpected %q", term.Trace)
	}
	if cur.Real != cur.Cursor {
		t.Fatalf("Real cursor %v differs from %v after a completed write", cur.Real, cur.Cursor)
	}
	if image.Pt(term.X, term.Y) != cur.Real.Point.Point {
		t.Fatalf("terminal cursor at (%d,%d), tracked at %v", term.X, term.Y, cur.Real.Point)
	}
	if term.A != gen.Back(cur.Real.Attr) {
		t.Fatalf("terminal rendition %v, tracked %v", term.A, cur.Real.Attr)
	}
	if term.Visible != cur.Real.Visible {
		t.Fatalf("terminal cursor visible %v, tracked %v", term.Visible, cur.Real.Visible)
	}
	for y := 1; y <= term.H; y++ {
		for x := 1; x <= term.W; x++ {
			pt := image.Pt(x, y)
			if stale[pt] {
				continue
			}
			w, ok := want[pt]
			if !ok {
				w = vt.Cell{R: ' '}
			}
			if got := term.At(x, y); got != w {
				t.Fatalf("cell %v: %q %v, want %q %v", pt, got.R, got.A, w.R, w.A)
			}
		}
	}
}
