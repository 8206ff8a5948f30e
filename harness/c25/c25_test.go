package c25

import (
	"errors"
	"fmt"
	"image"
	"io"
	"log"
	"syscall"
	"testing"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/x/platform"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/plat"
	"verif/scr"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	plat.Init()
	hx.Main(m)
}

func diff(got, want []string) error {
	for i := range got {
		if i >= len(want) {
			return fmt.Errorf("event %d %q is one too many: %q", i, got[i], got[:i])
		}
		if got[i] != want[i] {
			return fmt.Errorf("event %d is %q, should be %q", i, got[i], want[i])
		}
	}
	return nil
}

// hist checks what must be so of all frames.
func hist(fs []plat.Frame, w, h, refreshes int) error {
	extra := 0
	for i, f := range fs {
		if now := f.Now; f.Paused && i > 0 {
			// time stands still for the client, while all else goes on
			if !f.Time.Equal(fs[i-1].Time) {
				return fmt.Errorf("frame %d: time while paused went from %v to %v", i, fs[i-1].Time, f.Time)
			}
		} else if !f.Time.Equal(now) {
			return fmt.Errorf("frame %d: context time is %v, platform's %v", i, f.Time, now)
		}
		if i == 0 {
			if !f.Redraw {
				return fmt.Errorf("first frame is no redraw")
			}
			if f.Size != image.Pt(w, h) {
				return fmt.Errorf("first frame has size %v, terminal is %dx%d", f.Size, w, h)
			}
			continue
		}
		p := fs[i-1]
		if f.Time.Before(p.Time) {
			return fmt.Errorf("frame %d: time went back from %v to %v", i, p.Time, f.Time)
		}
		if !f.LastTime.Equal(p.Time) {
			return fmt.Errorf("frame %d: last time is %v, should be %v", i, f.LastTime, p.Time)
		}
		if f.Size != p.Size && !f.Redraw {
			return fmt.Errorf("frame %d: size went from %v to %v without a redraw", i, p.Size, f.Size)
		}
		if f.Size == p.Size && f.Redraw {
			extra++
		}
	}
	if extra > refreshes {
		return fmt.Errorf("%d frames were redraws, but %d refreshes were asked for", extra, refreshes)
	}
	return nil
}

const rule = "histories of typed input (in pieces cut within sequences and runes), window size changes, refresh keys, drawings, failing clients, panics and stop signals on a real pseudo terminal with a platform running at 1000 frames/s; non-trivial = at least three such steps of two or more kinds, one of them input"

// TestLoop: the run loop hands all input to the client once, shows what it
// draws, keeps its size that of the terminal, and leaves the terminal restored.
func TestLoop(t *testing.T) {
	hx.Check(t, 900, rule, func(t *rapid.T, c *hx.Case) {
		w, h := scr.Size(t)
		s, err := plat.New(w, h, rapid.Bool().Draw(t, "sharedFile"))
		if err != nil {
			t.Fatalf("New: %v", err)
		}
		defer s.Close()
		defer s.Kill()
		w0, h0 := w, h
		c.Logf("terminal %dx%d", w, h)

		cl := &plat.Client{}
		var want []string
		refreshes, steps := 0, 0
		kinds := map[string]bool{}
		s.Draw(plat.Draws(t, w, h))
		s.Start(cl)
		s.Entered(t)

		// got are the events of the current client
		got := func(fs []plat.Frame) (evs []string) {
			for _, f := range fs {
				if f.Client == s.ID() {
					evs = append(evs, f.Evs...)
				}
			}
			return evs
		}
		arrived := func(what string) {
			s.Wait(t, what, func(fs []plat.Frame) bool {
				g := got(fs)
				if err := diff(g, want); err != nil {
					t.Fatalf("%s: %v", what, err)
				}
				return len(g) >= len(want)
			})
		}
		redraws := func(fs []plat.Frame) (n int) {
			for _, f := range fs {
				if f.Redraw {
					n++
				}
			}
			return n
		}

		for n := rapid.IntRange(1, 8).Draw(t, "steps"); n > 0; n-- {
			kind := rapid.SampledFrom([]string{"type", "type", "type", "size", "refresh", "quietsize", "draw", "draw", "again", "restart", "step", "pause"}).Draw(t, "step")
			steps++
			kinds[kind] = true
			c.Label(kind)
			switch kind {
			case "type":
				all, pieces := plat.Input(t, 12)
				if rapid.IntRange(0, 3).Draw(t, "mixed") == 0 {
					// a refresh within
					pieces = append(pieces, []byte("\x0c"))
					refreshes++
				}
				c.Logf("type %q", pieces)
				want = append(want, plat.Events(all)...)
				for _, p := range pieces {
					s.Pair.Input(p)
					if rapid.IntRange(0, 3).Draw(t, "pause") == 0 {
						s.Step(t, 1)
					}
				}
				arrived(fmt.Sprintf("%q", all))

			case "size":
				w, h = scr.Size(t)
				s.Settle(t)
				s.SetSize(w, h)
				plat.Scribble(t, s)
				c.Logf("size %dx%d", w, h)
				plat.Raise(syscall.SIGWINCH)
				s.Wait(t, "the new size", func(fs []plat.Frame) bool { return fs[len(fs)-1].Size == image.Pt(w, h) })
				if s.Frames()[0].Size != image.Pt(w, h) {
					s.Settle(t)
				}

			case "quietsize": // only asked for on refresh
				s.Settle(t)
				w, h = scr.Size(t)
				s.SetSize(w, h)
				c.Logf("size %dx%d, no signal", w, h)
				fallthrough

			case "refresh":
				if kind == "refresh" {
					s.Settle(t)
				}
				plat.Scribble(t, s)
				k := rapid.IntRange(1, 3).Draw(t, "keys")
				refreshes += k
				c.Logf("refresh x%d", k)
				n := redraws(s.Frames())
				s.Pair.Input([]byte("\x0c\x0c\x0c")[:k])
				s.Wait(t, "a refresh", func(fs []plat.Frame) bool { return redraws(fs) > n })
				s.Settle(t)

			case "draw":
				s.Draw(plat.Draws(t, w, h))
				c.Logf("draw")
				s.Settle(t)

			case "step":
				s.Step(t, rapid.IntRange(1, 5).Draw(t, "frames"))

			case "pause": // or go on
				toggled := false
				s.SetHook(func(ctx *platform.Context) error {
					if !toggled {
						ctx.Paused = !ctx.Paused
						toggled = true
					}
					return nil
				})
				s.Step(t, rapid.IntRange(1, 5).Draw(t, "frames"))
				s.SetHook(nil)
				c.Logf("pause or go on")

			case "again": // the client fails, another is run
				err := errors.New("client failed")
				s.Fail(err)
				if e := s.Ret(t); e != err {
					t.Fatalf("Run returned %v, the client %v", e, err)
				}
				c.Logf("run another client")
				want = nil
				s.Next(&plat.Client{})
				s.Step(t, 1)

			case "restart":
				err := errors.New("client failed")
				s.Fail(err)
				if e := s.Ret(t); e != err {
					t.Fatalf("Run returned %v, the client %v", e, err)
				}
				if e, _ := s.End(t); e != err {
					t.Fatalf("RunWith returned %v, its function %v", e, err)
				}
				s.Restored(t)
				c.Logf("restart")
				if rapid.Bool().Draw(t, "overwrite") {
					plat.Scribble(t, s)
				}
				if rapid.IntRange(0, 2).Draw(t, "resized") == 0 {
					w, h = scr.Size(t)
					s.SetSize(w, h)
				}
				want = nil
				s.Start(&plat.Client{})
				s.Entered(t)
				s.Settle(t)
			}
		}
		arrived("all input")

		var werr error
		boom := false
		switch kind := rapid.IntRange(0, 3).Draw(t, "end"); kind {
		case 0, 1:
			werr = errors.New("client failed at last")
			s.Fail(werr)
			if e := s.Ret(t); e != werr {
				t.Fatalf("Run returned %v, the client %v", e, werr)
			}
		case 2:
			sig := rapid.SampledFrom([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP}).Draw(t, "signal")
			c.Logf("signal %v", sig)
			if rapid.Bool().Draw(t, "held") {
				// what was typed before the signal still gets to the client, even
				// in the frame of the signal
				all, _ := plat.Input(t, 5)
				s.Step(t, 1)
				hx.Eventually(func() bool { return s.Pair.Readable() == 0 }) // a refresh may be left
				hold := make(chan struct{})
				held := make(chan struct{})
				once := false
				s.SetHook(func(*platform.Context) error {
					if !once {
						once = true
						close(held)
						<-hold
					}
					return nil
				})
				<-held
				plat.Until(syscall.SIGIO, func() { s.Pair.Input(all) })
				if !hx.Eventually(func() bool { return s.Pair.Readable() >= len(all) }) {
					panic("HX-INFRA input never came")
				}
				plat.Raise(sig)
				close(hold)
				want = append(want, plat.Events(all)...)
				c.Label("input with the stop signal")
			} else {
				plat.Raise(sig)
			}
			werr = s.Ret(t)
			if g := got(s.Frames()); len(g) != len(want) {
				t.Fatalf("client got %q until the signal, should %q", g, want)
			} else if err := diff(g, want); err != nil {
				t.Fatalf("until the signal: %v", err)
			}
			if se, ok := werr.(anansi.SignalError); !ok || se.Sig != sig {
				t.Fatalf("Run returned %#v after signal %v", werr, sig)
			}
		case 3:
			boom = true
			s.Fail(nil)
		}
		c.Logf("end %v, panic %v", werr, boom)
		e, p := s.End(t)
		if e != werr || (p != nil) != boom {
			t.Fatalf("RunWith returned %v, panic %v; should be %v, panic %v", e, p, werr, boom)
		}
		s.Restored(t)
		if err := hist(s.Frames(), w0, h0, refreshes); err != nil {
			t.Fatalf("%v", err)
		}
		c.NT(steps >= 3 && len(kinds) >= 2 && kinds["type"])
	})
}

const pipeRule = "input piped into a platform on a pseudo terminal, in pieces, up to its end, which comes alone or with the last of the input; non-trivial = it came with input"

// TestPiped: input that is no terminal gets to the client up to its end, which
// Run returns.
func TestPiped(t *testing.T) {
	hx.Check(t, 150, pipeRule, func(t *rapid.T, c *hx.Case) {
		w, h := scr.Size(t)
		s, err := plat.NewPiped(w, h)
		if err != nil {
			t.Fatalf("New: %v", err)
		}
		defer s.Close()
		defer s.Kill()
		s.Draw(plat.Draws(t, w, h))
		s.Start(&plat.Client{})
		s.Entered(t)
		all, pieces := plat.Input(t, 20)
		last := pieces[len(pieces)-1]
		for _, p := range pieces[:len(pieces)-1] {
			s.Pipe.Write(p)
			if rapid.IntRange(0, 3).Draw(t, "pause") == 0 {
				s.Step(t, 1)
			}
		}
		together := rapid.Bool().Draw(t, "together")
		c.Logf("%q, end with the last: %v", pieces, together)
		if together {
			hold, held := make(chan struct{}), make(chan struct{})
			once := false
			s.SetHook(func(*platform.Context) error {
				if !once {
					once = true
					close(held)
					<-hold
				}
				return nil
			})
			<-held
			s.Pipe.Write(last)
			s.Pipe.Close()
			close(hold)
		} else {
			s.Pipe.Write(last)
			s.Step(t, rapid.IntRange(0, 3).Draw(t, "frames"))
			s.Pipe.Close()
		}
		err = s.Ret(t)
		if err != io.EOF {
			t.Fatalf("Run returned %v at the end of input", err)
		}
		var got []string
		for _, f := range s.Frames() {
			got = append(got, f.Evs...)
		}
		if want := plat.Events(all); len(got) != len(want) {
			t.Fatalf("client got %q up to the end of input, should %q", got, want)
		} else if err := diff(got, want); err != nil {
			t.Fatalf("%v", err)
		}
		if e, _ := s.End(t); e != io.EOF {
			t.Fatalf("RunWith returned %v, its function EOF", e)
		}
		s.Restored(t)
		c.NT(together)
	})
}
