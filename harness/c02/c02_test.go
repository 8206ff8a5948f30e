package c02

import (
	"errors"
	"image"
	"os"
	"testing"

	"github.com/jcorbin/anansi"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
	"verif/pty"
	"verif/scr"
	"verif/vt"
)

func TestMain(m *testing.M) { hx.Main(m) }

const rule = "random frame histories in which the terminal's content and cursor are overwritten behind the library's back, followed by Invalidate or a size change; non-trivial = a redraw happened after at least one earlier flushed frame, with foreign content on the terminal"

// overwrite puts foreign content all over the terminal.
func overwrite(t *rapid.T, m *scr.M) {
	if rapid.Bool().Draw(t, "overwriteAll") {
		a := gen.Attr().Draw(t, "overAttr")
		for i := range m.T.Cells {
			m.T.Cells[i] = vt.Cell{R: '%', A: a}
		}
	}
	m.Scribble(t)
}

// TestInvalidate: a flush after Invalidate/Resize repaints everything.
func TestInvalidate(t *testing.T) {
	hx.Check(t, 40000, rule, func(t *rapid.T, c *hx.Case) {
		m := scr.New(t, c)
		frames := rapid.IntRange(2, 7).Draw(t, "frames")
		flushed, redraws := 0, 0
		for f := 0; f < frames; f++ {
			switch rapid.IntRange(0, 3).Draw(t, "event") {
			case 0: // another program wrote on the terminal
				overwrite(t, m)
				if rapid.IntRange(0, 9).Draw(t, "late") == 0 {
					m.Draw(t, 3)
				}
				m.SC.Invalidate()
				c.Logf("overwritten, invalidated")
				if flushed > 0 {
					redraws++
				}
				c.Label("invalidate")
			case 1:
				w, h := scr.Size(t)
				m.T.Resize(w, h)
				if m.SC.Resize(image.Pt(w, h)) {
					overwrite(t, m) // reflow is up to the terminal
					if flushed > 0 {
						redraws++
					}
					c.Label("resize")
				}
				c.Logf("resized %dx%d", w, h)
				if rapid.Bool().Draw(t, "clearAfter") {
					m.SC.Clear()
				}
				if m.SC.Bounds().Size() != image.Pt(w, h) {
					t.Fatalf("screen is %v after Resize(%d, %d)", m.SC.Bounds().Size(), w, h)
				}
			}
			m.Draw(t, 5)
			m.Flush(t)
			m.Check(t)
			flushed++
		}
		c.NT(redraws > 0)
	})
}

const suspendRule = "random frame histories on a real pseudo terminal under Term.RunWith, suspended with RunWithout while foreign content is written and the size possibly changed; non-trivial = at least one suspension between flushed frames"

var errStop = errors.New("stop")

// TestSuspend: leaving the context restores the terminal's cursor and
// rendition; coming back repaints the screen at its then size.
func TestSuspend(t *testing.T) {
	hx.Check(t, 3000, suspendRule, func(t *rapid.T, c *hx.Case) {
		p, err := pty.Open()
		if err != nil {
			panic(err)
		}
		defer p.Close()
		w, h := scr.Size(t)
		p.SetSize(w, h)
		in, out := p.File(os.O_RDONLY), p.File(os.O_WRONLY)
		defer in.Close()
		defer out.Close()
		m := &scr.M{SC: &anansi.TermScreen{}, T: vt.New(w, h), C: c}
		m.T.BCE = rapid.Bool().Draw(t, "bce")
		m.Scribble(t)
		term := anansi.NewTerm(in, out, m.SC)
		c.Logf("pty %dx%d", w, h)
		suspends, flushed := 0, 0
		sync := func() { m.T.Write(p.Output()) }
		restored := func(when string) {
			sync()
			if !m.T.Visible {
				t.Fatalf("terminal cursor left hidden %s", when)
			}
			if m.T.A != (vt.Attr{}) {
				t.Fatalf("terminal rendition left at %v %s", m.T.A, when)
			}
			if !m.T.Idle() || len(m.T.Trace) > 0 {
				t.Fatalf("unexpected output %s: %q", when, m.T.Trace)
			}
		}
		steps := rapid.IntRange(1, 6).Draw(t, "steps")
		fail := rapid.IntRange(0, 3).Draw(t, "fail") == 0
		err = term.RunWith(func(term *anansi.Term) error {
			if got := m.SC.Bounds().Size(); got != image.Pt(m.T.W, m.T.H) {
				t.Fatalf("screen is %v on entry, terminal is %dx%d", got, m.T.W, m.T.H)
			}
			for i := 0; i < steps; i++ {
				if rapid.IntRange(0, 2).Draw(t, "suspend") == 0 {
					err := term.RunWithout(func(*anansi.Term) error {
						restored("while suspended")
						if rapid.Bool().Draw(t, "newSize") {
							w, h := scr.Size(t)
							p.SetSize(w, h)
							m.T.Resize(w, h)
							c.Logf("suspended resize %dx%d", w, h)
						}
						overwrite(t, m)
						return nil
					})
					if err != nil {
						t.Fatalf("RunWithout: %v", err)
					}
					c.Logf("suspended")
					if got := m.SC.Bounds().Size(); got != image.Pt(m.T.W, m.T.H) {
						t.Fatalf("screen is %v after resume, terminal is %dx%d", got, m.T.W, m.T.H)
					}
					if flushed > 0 {
						suspends++
					}
				}
				m.Draw(t, 5)
				if err := term.Flush(m.SC); err != nil {
					t.Fatalf("Flush: %v", err)
				}
				c.Logf("flush")
				sync()
				m.Check(t)
				flushed++
			}
			if fail {
				return errStop
			}
			return nil
		})
		if fail != (err == errStop) || (!fail && err != nil) {
			t.Fatalf("RunWith returned %v", err)
		}
		restored("after RunWith")
		c.NT(suspends > 0)
	})
}
