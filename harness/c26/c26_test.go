package c26

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"image"
	"io"
	"log"
	"os"
	"syscall"
	"testing"
	"time"

	"github.com/jcorbin/anansi/x/platform"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/plat"
	"verif/scr"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	plat.Init()
	hx.Main(m)
}

// at is an event and the size of the screen it was seen at.
type at struct {
	ev   string
	size image.Point
}

func events(fs []plat.Frame, id int) (r []at) {
	for _, f := range fs {
		if f.Client == id {
			for _, ev := range f.Evs {
				r = append(r, at{ev, f.Size})
			}
		}
	}
	return r
}

func of(fs []plat.Frame, id int) (r []plat.Frame) {
	for _, f := range fs {
		if f.Client == id {
			r = append(r, f)
		}
	}
	return r
}

// prefix compares as far as got goes.
func prefix(got, want []at) error {
	for i, g := range got {
		if i >= len(want) {
			return fmt.Errorf("event %d %q is one too many", i, g)
		}
		if g != want[i] {
			return fmt.Errorf("event %d is %q, should be %q", i, g, want[i])
		}
	}
	return nil
}

func same(got, want []string) error {
	if len(got) != len(want) {
		return fmt.Errorf("%q should be %q", got, want)
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Errorf("%q should be %q", got, want)
		}
	}
	return nil
}

const recording = "auto.rec"

const rule = "sessions on a real pseudo terminal of typing (in pieces cut within sequences and runes), size changes and refreshes, of which a part is recorded and then replayed into fresh clients once or more, until stopped with Ctrl-C or given up, and recorded again; non-trivial = a recording of two or more steps with input replayed at least twice or with a change of size"

// TestReplay: a replay gives a fresh client just what the recorded one got.
func TestReplay(t *testing.T) {
	hx.Check(t, 500, rule, func(t *rapid.T, c *hx.Case) {
		os.Remove(recording)
		w, h := scr.Size(t)
		s, err := plat.New(w, h, rapid.Bool().Draw(t, "sharedFile"))
		if err != nil {
			t.Fatalf("New: %v", err)
		}
		defer s.Close()
		defer s.Kill()
		c.Logf("terminal %dx%d", w, h)
		cl := &plat.Client{}
		s.Draw(plat.Draws(t, w, h))
		s.Start(cl)
		s.Entered(t)

		// base are the events the client began with, at is where it now is
		var base []string
		var want []at
		arrived := func(what string) {
			s.Wait(t, what, func(fs []plat.Frame) bool {
				g := events(fs, s.ID())
				if err := prefix(g, want); err != nil {
					t.Fatalf("%s: %v", what, err)
				}
				return len(g) == len(want)
			})
		}
		inputs, sizes := 0, 0
		live := func(n int) {
			for ; n > 0; n-- {
				switch kind := rapid.SampledFrom([]string{"type", "type", "type", "type", "size", "refresh", "step"}).Draw(t, "step"); kind {
				case "type":
					all, pieces := plat.Input(t, 8)
					c.Logf("type %q", pieces)
					for _, ev := range plat.Events(all) {
						want = append(want, at{ev, image.Pt(w, h)})
					}
					for _, p := range pieces {
						s.Pair.Input(p)
						if rapid.IntRange(0, 2).Draw(t, "pause") == 0 {
							s.Step(t, 1)
						}
					}
					arrived(fmt.Sprintf("%q", all))
					inputs++
				case "size":
					w, h = scr.Size(t)
					c.Logf("size %dx%d", w, h)
					s.SetSize(w, h)
					if rapid.IntRange(0, 2).Draw(t, "quiet") == 0 {
						s.Pair.Input([]byte("\x0c"))
					} else {
						plat.Raise(syscall.SIGWINCH)
					}
					s.Wait(t, "the new size", func(fs []plat.Frame) bool { return fs[len(fs)-1].Size == image.Pt(w, h) })
					sizes++
				case "refresh":
					c.Logf("refresh")
					n := len(s.Frames())
					s.Pair.Input([]byte("\x0c"))
					s.Wait(t, "a refresh", func(fs []plat.Frame) bool {
						for ; n < len(fs); n++ {
							if fs[n].Redraw {
								return true
							}
						}
						return false
					})
				case "step":
					s.Step(t, rapid.IntRange(1, 5).Draw(t, "frames"))
				}
			}
		}

		replays, best, sized := 0, 0, false
		for sessions := rapid.IntRange(1, 2).Draw(t, "sessions"); sessions > 0; sessions-- {
			live(rapid.IntRange(0, 3).Draw(t, "before"))

			// start recording
			if err := os.Remove(recording); err != nil && !os.IsNotExist(err) {
				panic("HX-INFRA " + err.Error())
			}
			mark := rapid.IntRange(0, 1000).Draw(t, "mark")
			cl.SetMark(mark)
			s.Step(t, 1)
			t0 := time.Now()
			s.Pair.Input([]byte("\x12"))
			c.Logf("record")
			s.Wait(t, "a recording", func([]plat.Frame) bool {
				fi, err := os.Stat(recording)
				return err == nil && fi.Size() > 8
			})
			s.Step(t, 2)
			state := append(append([]string(nil), base...), strs(events(s.Frames(), s.ID()))...)
			want0 := len(want)
			inputs, sizes = 0, 0
			n := rapid.IntRange(0, 5).Draw(t, "during")
			live(n)
			rec := append([]at(nil), want[want0:]...)
			all := of(s.Frames(), s.ID())

			// stop recording
			s.Pair.Input([]byte("\x12"))
			if err := s.Ret(t); !platform.IsReplayDone(err) {
				t.Fatalf("Run returned %v when recording stopped", err)
			}
			t1 := time.Now()
			if err := prefix(events(s.Frames(), s.ID()), want); err != nil {
				t.Fatalf("after recording: %v", err)
			}
			c.Logf("recorded %d events", len(rec))

			// replay
			var first []plat.Frame
			stop, pressed := false, false
			// what is typed during the first replay is neither for the client, nor
			// left over for when it goes live
			typed := 0
			if rapid.IntRange(0, 2).Draw(t, "typeAlong") == 0 {
				typed = 1
				noise, k := plat.Token(t), rapid.IntRange(1, 6).Draw(t, "frames")
				c.Logf("type %q along", noise)
				c.Label("typed-along")
				s.Hook = func(*platform.Context) error {
					if k--; k >= 0 {
						// it has to be there by the next frame, else it may come
						// after all replays
						plat.Until(syscall.SIGIO, func() {
							s.Pair.Input(noise)
							hx.Eventually(func() bool { return s.Pair.Readable() > 0 })
						})
						time.Sleep(time.Millisecond)
					}
					return nil
				}
			}
			for k := 0; !stop; k++ {
				cl = &plat.Client{}
				stop = k >= 1+typed && rapid.IntRange(0, 2).Draw(t, "stop") > 0 || k > 3
				if stop && len(first) > 0 && rapid.IntRange(0, 2).Draw(t, "stopAt") == 0 {
					// pressed in some frame, the last one more often than not
					left := rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "left")
					n := 0
					s.Hook = func(*platform.Context) error {
						if n++; n == max(1, len(first)-left) {
							s.Pair.Input([]byte("\x03"))
							time.Sleep(3 * time.Millisecond)
						}
						return nil
					}
					pressed = true
				}
				s.Next(cl)
				if stop {
					break
				}
				if err := s.Ret(t); !platform.IsReplayDone(err) {
					t.Fatalf("Run returned %v after a replay", err)
				}
				s.Hook = nil
				replays++
				fs := of(s.Frames(), s.ID())
				got := events(fs, s.ID())
				if err := prefix(got, rec); err != nil {
					t.Fatalf("replay %d: %v", k, err)
				}
				if len(got) != len(rec) {
					t.Fatalf("replay %d: %d events, %d were recorded, missing %q", k, len(got), len(rec), rec[len(got):])
				}
				if cl.Mark != mark {
					t.Fatalf("replay %d: client restored with mark %d, was %d", k, cl.Mark, mark)
				}
				if err := same(cl.Evs, append(append([]string(nil), state...), strs(rec)...)); err != nil {
					t.Fatalf("replay %d: client ended up with %v", k, err)
				}
				if err := times(fs, all, t0, t1); err != nil {
					t.Fatalf("replay %d: %v", k, err)
				}
				if k == 0 {
					first = fs
				} else if err := equal(fs, first); err != nil {
					t.Fatalf("replay %d: %v", k, err)
				}
			}
			if inputs > 0 && n >= 2 && (replays > 1 || sizes > 0) {
				best++
			}
			sized = sized || sizes > 0

			// stop it: what was replayed until then was a part of the recording
			c.Logf("stop")
			for late := 0; ; {
				from := len(s.Frames())
				if !pressed {
					s.Pair.Input([]byte("\x03"))
				}
				// once is enough, even if that is after a replay
				pressed = true
				ended := false
				hx.Eventually(func() bool {
					select {
					case err := <-s.Rets():
						if !platform.IsReplayDone(err) {
							t.Fatalf("Run returned %v while replaying", err)
						}
						ended = true
						return true
					default:
					}
					fs := s.Frames()
					// live frames go on at the size of the terminal and the time of day
					n := len(fs)
					return n > from && fs[n-1].Client == s.ID() && fs[n-1].Time.After(t1) && fs[n-1].Size == image.Pt(w, h)
				})
				if !ended {
					break
				}
				if late++; late > 2 {
					t.Fatalf("replayed on, %d times, after Ctrl-C", late)
				}
				c.Label("stopped-late")
				cl = &plat.Client{}
				s.Next(cl)
			}
			// it went live from wherever it was
			s.Settle(t)
			got := events(s.Frames(), s.ID())
			for i, g := range got {
				if i < len(rec) && g != rec[i] {
					t.Fatalf("stopped replay: event %d is %q, should be %q", i, g, rec[i])
				}
			}
			if len(got) > len(rec) {
				t.Fatalf("stopped replay: more events than recorded: %q", got[len(rec):])
			}
			base, want = state, got
			c.LabelIf(len(got) == len(rec), "stopped-at-end")
			c.LabelIf(len(got) < len(rec), "stopped-early")
		}
		live(rapid.IntRange(0, 3).Draw(t, "after"))
		arrived("all input")
		werr := errors.New("enough")
		s.Fail(werr)
		if err := s.Ret(t); err != werr {
			t.Fatalf("Run returned %v, the client %v", err, werr)
		}
		if err := same(cl.Evs, append(append([]string(nil), base...), strs(want)...)); err != nil {
			t.Fatalf("client ended up with %v", err)
		}
		if err, _ := s.End(t); err != werr {
			t.Fatalf("RunWith returned %v, its function %v", err, werr)
		}
		s.Restored(t)
		c.LabelIf(sized, "resized")
		c.NT(best > 0)
	})
}

// times checks the times of a replay against those of what was recorded.
func times(fs, live []plat.Frame, t0, t1 time.Time) error {
	t0, t1 = t0.Round(0), t1.Round(0)
	for i, f := range fs {
		if f.Time.Before(t0) || f.Time.After(t1) {
			return fmt.Errorf("frame %d has time %v, recorded from %v to %v", i, f.Time, t0, t1)
		}
		if i > 0 && f.Time.Before(fs[i-1].Time) {
			return fmt.Errorf("frame %d: time went back from %v to %v", i, fs[i-1].Time, f.Time)
		}
		if i > 0 && !f.LastTime.Equal(fs[i-1].Time) {
			return fmt.Errorf("frame %d: last time %v, but the last frame was at %v", i, f.LastTime, fs[i-1].Time)
		}
		if i > 0 && f.Size != fs[i-1].Size && !f.Redraw {
			return fmt.Errorf("frame %d: size went from %v to %v without a redraw", i, fs[i-1].Size, f.Size)
		}
	}
	if len(fs) > 0 {
		ok := false
		for _, f := range live {
			ok = ok || f.Time.Round(0).Equal(fs[0].LastTime.Round(0))
		}
		if !ok {
			return fmt.Errorf("last time before the replay %v is none of a live frame", fs[0].LastTime)
		}
	}
	return nil
}

// equal compares the frames of two replays.
func equal(a, b []plat.Frame) error {
	if len(a) != len(b) {
		return fmt.Errorf("%d frames, %d the first time", len(a), len(b))
	}
	for i := range a {
		if !a[i].Time.Equal(b[i].Time) || a[i].Size != b[i].Size {
			return fmt.Errorf("frame %d was at %v of size %v, the first time at %v of size %v", i, a[i].Time, a[i].Size, b[i].Time, b[i].Size)
		}
		if err := same(a[i].Evs, b[i].Evs); err != nil {
			return fmt.Errorf("frame %d: %v the first time", i, err)
		}
	}
	return nil
}

func strs(as []at) (r []string) {
	for _, a := range as {
		r = append(r, a.ev)
	}
	return r
}

const pauseRule = "recorded sessions of several reads replayed with pauses and single steps; non-trivial = paused before the end"

// TestPause: pausing, stepping and resuming a replay changes nothing of what
// the client gets.
func TestPause(t *testing.T) {
	hx.Check(t, 24, pauseRule, func(t *rapid.T, c *hx.Case) {
		os.Remove(recording)
		w, h := scr.Size(t)
		s, err := plat.New(w, h, true, platform.FrameRate(200))
		if err != nil {
			t.Fatalf("New: %v", err)
		}
		defer s.Close()
		defer s.Kill()
		s.Draw(plat.Draws(t, w, h))
		s.Start(&plat.Client{})
		s.Entered(t)
		s.Pair.Input([]byte("\x12"))
		s.Wait(t, "a recording", func([]plat.Frame) bool {
			fi, err := os.Stat(recording)
			return err == nil && fi.Size() > 8
		})
		s.Step(t, 2)
		n := rapid.IntRange(2, 12).Draw(t, "reads")
		var rec []string
		for i := 0; i < n; i++ {
			p := plat.Token(t)
			rec = append(rec, plat.Events(p)...)
			s.Pair.Input(p)
			s.Wait(t, "input", func(fs []plat.Frame) bool { return len(events(fs, s.ID())) >= len(rec) })
		}
		if err := same(strs(events(s.Frames(), s.ID())), rec); err != nil {
			t.Fatalf("recording: %v", err)
		}
		s.Pair.Input([]byte("\x12"))
		if err := s.Ret(t); !platform.IsReplayDone(err) {
			t.Fatalf("Run returned %v when recording stopped", err)
		}

		cl := &plat.Client{}
		s.Next(cl)
		var ended error
		got := func() int { return len(events(s.Frames(), s.ID())) }
		over := func() bool {
			if ended == nil {
				select {
				case ended = <-s.Rets():
				default:
				}
			}
			return ended != nil
		}
		// frames waits for that many frames or the end
		frames := func(n int) {
			from := len(of(s.Frames(), s.ID()))
			if !hx.Eventually(func() bool { return over() || len(of(s.Frames(), s.ID())) >= from+n }) {
				t.Fatalf("no more frames while replaying")
			}
		}
		// still waits until the recording stands still, or is over
		still := func() bool {
			if !hx.Eventually(func() bool {
				fs := of(s.Frames(), s.ID())
				if over() {
					return true
				}
				if len(fs) < 8 {
					return false
				}
				for _, f := range fs[len(fs)-7:] {
					if !f.Time.Equal(fs[len(fs)-1].Time) {
						return false
					}
				}
				return true
			}) {
				t.Fatalf("replay neither stands still nor ends: %d events", got())
			}
			return !over()
		}
		paused := false
		for k := rapid.IntRange(1, 3).Draw(t, "pauses"); k > 0 && !over(); k-- {
			if at := rapid.IntRange(0, n).Draw(t, "at"); !hx.Eventually(func() bool { return over() || got() >= min(at, len(rec)) && len(of(s.Frames(), s.ID())) > 1 }) {
				t.Fatalf("replay gets nowhere: %d events", got())
			}
			if over() {
				break
			}
			s.Pair.Input([]byte(" "))
			c.Logf("pause at about %d", got())
			if !still() {
				break
			}
			if rapid.IntRange(0, 2).Draw(t, "look") == 0 {
				// meanwhile it is the client that is shown, but for the mouse, and
				// Ctrl-L repaints all of it
				c.Label("looked")
				s.Own = func(x, y int) bool { return s.Term.At(x, y).R == 'X' }
				if rapid.Bool().Draw(t, "redraw") {
					s.Draw(plat.Draws(t, w, h))
				}
				s.Settle(t)
				plat.Scribble(t, s)
				s.Pair.Input([]byte("\x0c"))
				s.Settle(t)
			}
			paused = paused || got() < len(rec)
			// each step is one frame of the recording, at most
			from, steps := len(of(s.Frames(), s.ID())), rapid.IntRange(0, 4).Draw(t, "steps")
			for j := 1; j <= steps && !over(); j++ {
				s.Pair.Input([]byte("."))
				frames(3)
				with := 0
				for _, f := range of(s.Frames(), s.ID())[from:] {
					if len(f.Evs) > 0 {
						with++
					}
				}
				c.Logf("step %d: %d frames, at %d", j, with, got())
				if with > j {
					t.Fatalf("%d steps made %d frames", j, with)
				}
				c.LabelIf(with > 0, "stepped")
			}
			if !over() {
				s.Pair.Input([]byte(" "))
			}
		}
		if !hx.Eventually(over) {
			t.Fatalf("replay does not end: %d events", got())
		}
		if !platform.IsReplayDone(ended) {
			t.Fatalf("Run returned %v after a replay", ended)
		}
		if err := same(strs(events(s.Frames(), s.ID())), rec); err != nil {
			t.Fatalf("replayed: %v", err)
		}
		if err := same(cl.Evs, rec); err != nil {
			t.Fatalf("client: %v", err)
		}
		c.NT(paused)

		// paused before it begins again, unless the key came too late
		for k := 0; ; k++ {
			if k == 8 {
				t.Fatalf("%d replays were not paused by Space", k)
			}
			s.Pair.Input([]byte(" "))
			time.Sleep(2 * time.Millisecond)
			cl, ended = &plat.Client{}, nil
			s.Next(cl)
			if still() {
				break
			}
		}
		last := time.Time{}
		if !hx.Eventually(func() bool {
			if !over() && time.Since(last) > 300*time.Millisecond {
				s.Pair.Input([]byte(" "))
				last = time.Now()
			}
			return over()
		}) {
			t.Fatalf("replay does not go on")
		}
		if err := same(cl.Evs, rec); err != nil {
			t.Fatalf("resumed: client: %v", err)
		}
		_, _ = s.End(t)
		s.Restored(t)
	})
}

const badRule = "recordings whose file is damaged before they are replayed; all are non-trivial"

// TestDamaged: a recording that cannot be read is an error of Run, and of
// nothing else.
func TestDamaged(t *testing.T) {
	hx.Check(t, 40, badRule, func(t *rapid.T, c *hx.Case) {
		os.Remove(recording)
		w, h := scr.Size(t)
		s, err := plat.New(w, h, true)
		if err != nil {
			t.Fatalf("New: %v", err)
		}
		defer s.Close()
		defer s.Kill()
		s.Start(&plat.Client{})
		s.Entered(t)
		s.Pair.Input([]byte("\x12"))
		s.Wait(t, "a recording", func([]plat.Frame) bool {
			fi, err := os.Stat(recording)
			return err == nil && fi.Size() > 8
		})
		s.Step(t, 2)
		typed, _ := plat.Input(t, 4)
		s.Pair.Input(typed)
		s.Step(t, 2)
		b, err := os.ReadFile(recording)
		if err != nil || len(b) < 16 {
			t.Fatalf("recording %q: %v", b, err)
		}
		size := int(binary.BigEndian.Uint64(b))
		if size <= 0 || size > len(b)-8 {
			t.Fatalf("state of %d in recording of %d bytes", size, len(b))
		}
		kind := rapid.SampledFrom([]string{"gone", "empty", "cut", "garbled"}).Draw(t, "damage")
		c.Label(kind)
		c.NT(true)
		f, err := os.OpenFile(recording, os.O_RDWR, 0)
		if err != nil {
			panic("HX-INFRA " + err.Error())
		}
		switch kind {
		case "gone":
			err = os.Remove(recording)
		case "empty":
			err = f.Truncate(0)
		case "cut":
			// what comes after leaves a hole, or is missing
			err = f.Truncate(int64(8 + rapid.IntRange(0, size/2).Draw(t, "cut")))
		case "garbled":
			_, err = f.WriteAt(bytes.Repeat([]byte{0xff}, size), 8)
		}
		f.Close()
		if err != nil {
			panic("HX-INFRA " + err.Error())
		}
		s.Pair.Input([]byte("\x12"))
		rerr := s.Ret(t)
		if rerr == nil {
			t.Fatalf("%s: Run returned nil", kind)
		}
		cl := &plat.Client{}
		s.Next(cl)
		if platform.IsReplayDone(rerr) {
			// it was loaded
			if rerr = s.Ret(t); rerr == nil || platform.IsReplayDone(rerr) && kind != "empty" {
				t.Fatalf("%s: Run returned %v", kind, rerr)
			}
		} else {
			// nothing was: the client is live
			s.Entered(t)
			s.Pair.Input([]byte("x"))
			s.Wait(t, "live input", func(fs []plat.Frame) bool { return len(events(fs, s.ID())) > 0 })
			werr := errors.New("enough")
			s.Fail(werr)
			if err := s.Ret(t); err != werr {
				t.Fatalf("Run returned %v, the client %v", err, werr)
			}
		}
		_, _ = s.End(t)
		s.Restored(t)
	})
}
