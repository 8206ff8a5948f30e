package c04

import (
	"bytes"
	"errors"
	"image"
	"io"
	"os"
	"syscall"
	"testing"
	"time"

	"github.com/jcorbin/anansi"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/pty"
	"verif/scr"
	"verif/vt"
)

func TestMain(m *testing.M) { hx.Main(m) }

const rule = "random sequences of flushes (payload sizes around the pipe's capacity, from a buffer, virtual cursor or screen) into a small pipe in blocking or non-blocking mode with a random amount already in it, the reader starting late or hanging up; non-trivial = at least one flush found the pipe full"

// reader drains a descriptor until told to stop.
type reader struct {
	fd    int
	start chan struct{}
	want  int
	got   []byte
	done  chan struct{}
	quit  chan struct{}
}

func (r *reader) run() {
	defer close(r.done)
	select {
	case <-r.start:
	case <-r.quit:
		return
	}
	var b [8192]byte
	for {
		n, err := syscall.Read(r.fd, b[:])
		if n > 0 {
			r.got = append(r.got, b[:n]...)
		}
		if n == 0 || (err != nil && err != syscall.EINTR) {
			return
		}
	}
}

// source counts WriteTo calls and starts the reader on the second one.
type source struct {
	w       io.WriterTo
	calls   int
	onAgain func()
	onFirst func()
}

func (s *source) WriteTo(w io.Writer) (int64, error) {
	s.calls++
	if s.calls == 1 && s.onFirst != nil {
		s.onFirst()
	}
	if s.calls == 2 {
		s.onAgain()
	}
	return s.w.WriteTo(w)
}

const pipeSize = 4096

func pattern(seed, n int) []byte {
	p := make([]byte, n)
	for i := range p {
		p[i] = 'a' + byte((i+seed*7)%26)
	}
	return p
}

// TestPipe: every byte arrives exactly once and in order, and the file's flags
// come out as they went in.
func TestPipe(t *testing.T) {
	hx.Check(t, 8000, rule, func(t *rapid.T, c *hx.Case) {
		var fds [2]int
		if err := syscall.Pipe2(fds[:], syscall.O_CLOEXEC); err != nil {
			panic("HX-INFRA pipe: " + err.Error())
		}
		if _, _, e := syscall.Syscall(syscall.SYS_FCNTL, uintptr(fds[1]), 1031 /* F_SETPIPE_SZ */, pipeSize); e != 0 {
			panic("HX-INFRA F_SETPIPE_SZ: " + e.Error())
		}
		f := os.NewFile(uintptr(fds[1]), "pipe")
		extra := 0
		if rapid.Bool().Draw(t, "append") {
			extra = syscall.O_APPEND
		}
		setFlags := func(nonblock bool) {
			fl := extra
			if nonblock {
				fl |= syscall.O_NONBLOCK
			}
			if _, _, e := syscall.Syscall(syscall.SYS_FCNTL, uintptr(fds[1]), syscall.F_SETFL, uintptr(fl)); e != 0 {
				panic("HX-INFRA F_SETFL: " + e.Error())
			}
		}
		closed := false
		hangup := func() {
			if !closed {
				closed = true
				syscall.Close(fds[0])
			}
		}
		rd := &reader{fd: fds[0], start: make(chan struct{}), done: make(chan struct{}), quit: make(chan struct{})}
		started := false
		start := func() {
			if !started {
				started = true
				close(rd.start)
			}
		}
		go rd.run()
		defer func() {
			f.Close() // reader sees EOF
			if !started {
				close(rd.quit)
			}
			<-rd.done
			hangup()
		}()

		out := anansi.Output{File: f}
		track := rapid.IntRange(0, 3).Draw(t, "track")
		out.TrackStalls(track)
		stalls, tracked := 0, 0
		var want []byte
		doHangup := rapid.IntRange(0, 4).Draw(t, "hangup") == 0
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "flushes"); i < n; i++ {
			nonblock := rapid.IntRange(0, 3).Draw(t, "nonblock") > 0
			if !started && rapid.Bool().Draw(t, "prefill") {
				k := rapid.IntRange(0, 4096).Draw(t, "prefillBytes")
				setFlags(true)
				junk := bytes.Repeat([]byte{'#'}, k)
				m, _ := syscall.Write(fds[1], junk)
				if m > 0 {
					want = append(want, junk[:m]...)
				}
			}
			setFlags(nonblock)
			size := rapid.OneOf(rapid.IntRange(0, 300), rapid.IntRange(0, 3*pipeSize)).Draw(t, "size")
			payload := pattern(i, size)
			var wer io.WriterTo
			kind := rapid.IntRange(0, 1).Draw(t, "kind")
			if kind == 0 {
				var b anansi.Buffer
				b.Write(payload)
				wer = &b
			} else {
				var v anansi.VirtualCursor
				v.Write(payload)
				wer = &v
			}
			before := pty.FDFlags(uintptr(fds[1]))
			src := &source{w: wer, onAgain: start}
			last := doHangup && i == n-1 && !started
			leaving, left := false, make(chan struct{})
			takes := 0
			if last {
				src.onAgain = hangup
				// either at once, or after taking some more
				if leaving = rapid.Bool().Draw(t, "takesSome"); leaving {
					takes = rapid.IntRange(1, 2*pipeSize).Draw(t, "takes")
					src.onAgain = func() {
						go func() {
							defer close(left)
							b := make([]byte, takes)
							for k := 0; k < takes; {
								m, err := syscall.Read(fds[0], b[k:])
								if m <= 0 && err != syscall.EINTR {
									break
								}
								k += m
								time.Sleep(50 * time.Microsecond) // let the writer go on
							}
							hangup()
						}()
					}
				}
			}
			if !nonblock {
				src.onFirst = start
			}
			err := out.Flush(src)
			c.Logf("flush %d bytes nonblock=%v: %v after %d writes", size, nonblock, err, src.calls)
			if after := pty.FDFlags(uintptr(fds[1])); after != before {
				t.Fatalf("file flags %#x after Flush, %#x before", after, before)
			}
			if src.calls > 1 {
				stalls++
				c.Label("stalled")
			}
			if leaving && src.calls > 1 {
				if f.Close(); true { // a reader still waiting for more sees the end
					<-left
				}
				if err == nil && out.Flushed != size {
					t.Fatalf("Flush returned nil with %d of %d bytes written", out.Flushed, size)
				}
				if len(want)+size > pipeSize+takes && !errors.Is(err, syscall.EPIPE) {
					t.Fatalf("Flush of %d bytes with %d already in the pipe, to a reader that closed after %d: %v, %d flushed", size, len(want), takes, err, out.Flushed)
				}
				if err != nil && !errors.Is(err, syscall.EPIPE) {
					t.Fatalf("Flush to a closed pipe returned %v", err)
				}
				if out.Flushed > size {
					t.Fatalf("Flushed %d of %d bytes", out.Flushed, size)
				}
				c.Label("hangup")
				c.LabelIf(out.Flushed > 0, "hangup midway")
				break
			}
			if closed { // reader gone mid-flush
				if err == nil || !errors.Is(err, syscall.EPIPE) {
					t.Fatalf("Flush to a closed pipe returned %v", err)
				}
				if out.Flushed > size {
					t.Fatalf("Flushed %d of %d bytes", out.Flushed, size)
				}
				c.Label("hangup")
				break
			}
			if err != nil {
				t.Fatalf("Flush: %v", err)
			}
			if out.Flushed != size {
				t.Fatalf("Flushed counts %d of %d bytes", out.Flushed, size)
			}
			if !nonblock && src.calls != 1 {
				t.Fatalf("blocking flush wrote %d times", src.calls)
			}
			want = append(want, payload...)
			if src.calls > 1 && tracked < track {
				tracked++
			}
			consume := rapid.Bool().Draw(t, "consume")
			got := out.Stalls(consume)
			if track == 0 {
				if got != nil {
					t.Fatalf("stalls reported without tracking")
				}
			} else {
				if len(got) != tracked {
					t.Fatalf("%d stalls reported, %d happened", len(got), tracked)
				}
				for _, d := range got {
					if d < 0 || d > time.Hour {
						t.Fatalf("stall of %v", d)
					}
				}
				if consume || tracked == track {
					tracked = 0
				}
			}
		}
		if !closed {
			start()
			f.Close()
			<-rd.done
			if !bytes.Equal(rd.got, want) {
				t.Fatalf("reader got %d bytes, %d were flushed (first difference at %d)", len(rd.got), len(want), diffAt(rd.got, want))
			}
		}
		c.NT(stalls > 0)
	})
}

func diffAt(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

const screenRule = "random frame histories flushed through a full non-blocking pipe into the reference terminal; non-trivial = at least one frame stalled midway"

// TestScreen: frames that stall arrive complete, exactly once.
func TestScreen(t *testing.T) {
	hx.Check(t, 2500, screenRule, func(t *rapid.T, c *hx.Case) {
		var fds [2]int
		if err := syscall.Pipe2(fds[:], syscall.O_CLOEXEC); err != nil {
			panic("HX-INFRA pipe: " + err.Error())
		}
		if _, _, e := syscall.Syscall(syscall.SYS_FCNTL, uintptr(fds[1]), 1031, pipeSize); e != 0 {
			panic("HX-INFRA F_SETPIPE_SZ: " + e.Error())
		}
		f := os.NewFile(uintptr(fds[1]), "pipe")
		defer syscall.Close(fds[0])
		defer f.Close()
		syscall.SetNonblock(fds[1], true)
		syscall.SetNonblock(fds[0], true)
		out := anansi.Output{File: f}
		w, h := rapid.IntRange(1, 60).Draw(t, "w"), rapid.IntRange(1, 20).Draw(t, "h")
		m := &scr.M{SC: &anansi.TermScreen{}, T: vt.New(w, h), C: c}
		m.SC.Resize(image.Pt(w, h))
		stalls := 0
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "frames"); i < n; i++ {
			m.Draw(t, 8)
			// fill the pipe, leaving a little room
			fill := bytes.Repeat([]byte{0}, pipeSize-rapid.IntRange(0, 60).Draw(t, "room"))
			k, _ := syscall.Write(fds[1], fill)
			if k < 0 {
				k = 0
			}
			var got []byte
			drain := func() {
				var b [8192]byte
				for {
					n, _ := syscall.Read(fds[0], b[:])
					if n <= 0 {
						return
					}
					got = append(got, b[:n]...)
				}
			}
			stop, done := make(chan struct{}), make(chan struct{})
			src := &source{w: m.SC}
			src.onAgain = func() {
				go func() {
					defer close(done)
					for {
						drain()
						select {
						case <-stop:
							drain()
							return
						default:
							time.Sleep(20 * time.Microsecond)
						}
					}
				}()
			}
			err := out.Flush(src)
			if src.calls > 1 {
				stalls++
				close(stop)
				<-done
			} else {
				drain()
			}
			if err != nil {
				t.Fatalf("Flush: %v", err)
			}
			if out.Flushed != len(got)-k {
				t.Fatalf("Flushed counts %d bytes, %d arrived", out.Flushed, len(got)-k)
			}
			m.T.Write(got[k:])
			m.Check(t)
		}
		c.NT(stalls > 0)
	})
}
