package c21

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/jcorbin/anansi"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/ref"
)

func TestMain(m *testing.M) { hx.Main(m) }

// source is a pipe kept out of the runtime poller, as a terminal is.
type source struct {
	w int
	f *os.File
}

func newSource(pollable bool) *source {
	if pollable { // as a file opened by os.OpenFile
		r, w, err := os.Pipe()
		if err != nil {
			panic("HX-INFRA pipe: " + err.Error())
		}
		fd, err := syscall.Dup(int(w.Fd()))
		if err != nil {
			panic("HX-INFRA dup: " + err.Error())
		}
		w.Close()
		return &source{w: fd, f: r}
	}
	var fds [2]int
	if err := syscall.Pipe2(fds[:], syscall.O_CLOEXEC); err != nil {
		panic("HX-INFRA pipe: " + err.Error())
	}
	return &source{w: fds[1], f: os.NewFile(uintptr(fds[0]), "pipe")}
}

func (s *source) write(p []byte) {
	for len(p) > 0 {
		n, err := syscall.Write(s.w, p)
		if err != nil && err != syscall.EINTR {
			panic("HX-INFRA pipe write: " + err.Error())
		}
		p = p[max(n, 0):]
	}
}

func (s *source) hangup() {
	if s.w >= 0 {
		syscall.Close(s.w)
		s.w = -1
	}
}

func (s *source) close() { s.hangup(); s.f.Close() }

// a complete application command in the input would be a message of the
// recording, not input: that is how the format is defined.
var apc = regexp.MustCompile("\x1b_[^\x1b]*\x1b\\\\")

// input draws arbitrary bytes that hold no complete application command.
func input(t *rapid.T, n int) (p []byte) {
	for k := rapid.IntRange(0, n).Draw(t, "pieces"); k > 0; k-- {
		switch rapid.IntRange(0, 3).Draw(t, "what") {
		case 0:
			p = append(p, ref.Soup(t, 6)...)
		case 1:
			p = append(p, ref.Token(t)...)
		case 2:
			p = append(p, rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "bytes")...)
		case 3:
			p = append(p, rapid.StringMatching(`[a-z ]{0,8}`).Draw(t, "text")...)
			if rapid.IntRange(0, 9).Draw(t, "long") == 0 {
				p = bytes.Repeat(p, rapid.IntRange(1, 200).Draw(t, "rep"))
			}
			if len(p) > 8000 {
				p = p[:8000] // far from filling a pipe
			}
		}
	}
	for {
		loc := apc.FindIndex(p)
		if loc == nil {
			return p
		}
		p[loc[0]+1] = '-'
	}
}

// frame is what a recording should hold.
type frame struct {
	lo, hi time.Time // bounds of the time; zero for a message
	err    string
	b      string
	m      string
}

func (f frame) String() string { return fmt.Sprintf("{err %q in %q mess %q}", f.err, f.b, f.m) }

func cmp(got anansi.InputReplay, want []frame) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d frames, should be %d: %v vs %v", len(got), len(want), got, want)
	}
	for i, w := range want {
		g := got[i]
		e := ""
		if g.E != nil {
			e = g.E.Error()
		}
		if e != w.err || string(g.B) != w.b || string(g.M) != w.m {
			return fmt.Errorf("frame %d of %d is {err %q in %q mess %q}, should be %v", i, len(want), e, g.B, g.M, w)
		}
		if w.lo.IsZero() != g.T.IsZero() {
			return fmt.Errorf("frame %d has time %v, should be about %v", i, g.T, w.lo)
		}
		if !w.lo.IsZero() && (g.T.Before(w.lo) || g.T.After(w.hi)) {
			return fmt.Errorf("frame %d has time %v, not within %v to %v", i, g.T, w.lo, w.hi)
		}
	}
	return nil
}

// parse reads a recording as documented, independently.
func parse(p []byte) (fs []string, err error) {
	const st = "\x1b\\"
	s := string(p)
	for s != "" {
		if !strings.HasPrefix(s, "\x1b_") {
			return nil, fmt.Errorf("no mark at %.40q", s)
		}
		i := strings.Index(s, st)
		if i < 0 {
			return nil, fmt.Errorf("mark without end: %.40q", s)
		}
		mark := s[2:i]
		s = s[i+2:]
		if strings.HasPrefix(mark, "msg:") {
			fs = append(fs, mark)
			continue
		}
		if !strings.HasPrefix(mark, "recTime:") {
			return nil, fmt.Errorf("unexpected %q", mark)
		}
		if _, err := time.Parse(time.RFC3339Nano, mark[8:]); err != nil {
			return nil, err
		}
		e := ""
		if r := "\x1b_recReadErr:"; strings.HasPrefix(s, r) {
			i := strings.Index(s[2:], "\x1b\\")
			if i < 0 {
				return nil, fmt.Errorf("error without end: %.40q", s)
			}
			e = s[len(r) : i+2]
			s = s[i+4:]
		}
		// input ends where the next mark (or message) begins
		n := len(s)
		for _, m := range []string{"\x1b_recTime:", "\x1b_msg:"} {
			if i := strings.Index(s, m); i >= 0 && i < n {
				n = i
			}
		}
		fs = append(fs, fmt.Sprintf("err %q in %q", e, s[:n]))
		s = s[n:]
	}
	return fs, nil
}

func drain(in *anansi.Input) (evs []ref.Ev) {
	for {
		e, a, ok := in.Decode()
		if !ok {
			return evs
		}
		evs = append(evs, ref.Ev{ID: rune(e), Arg: string(a)})
	}
}

var errDisk = errors.New("disk full")

// dest is where a recording goes; it can be made to fail.
type dest struct {
	bytes.Buffer
	fail bool
}

func (d *dest) Write(p []byte) (int, error) {
	if d.fail {
		return 0, errDisk
	}
	return d.Buffer.Write(p)
}

func replay(t *rapid.T, p []byte) (anansi.InputReplay, error) {
	pre := rapid.SampledFrom([]int{0, 0, 1, 8, 3000}).Draw(t, "offset")
	name := filepath.Join(os.Getenv("HX_TMP"), "rec")
	if err := os.WriteFile(name, append(bytes.Repeat([]byte("\x1b_x\x1b\\"), pre), p...), 0600); err != nil {
		panic("HX-INFRA " + err.Error())
	}
	f, err := os.Open(name)
	if err != nil {
		panic("HX-INFRA " + err.Error())
	}
	defer f.Close()
	if _, err := f.Seek(int64(5*pre), io.SeekStart); err != nil {
		panic("HX-INFRA " + err.Error())
	}
	return anansi.ReadInputReplay(f)
}

const rule = "arbitrary input bytes cut anywhere, read with a random mix of ReadAny and ReadMore while recording is turned on, off and elsewhere, with messages between reads, failing recordings, read errors and the end of the input; non-trivial = two or more recorded frames with input, one of them cut inside a token"

// TestRecord: a recording holds every read, with its time, error and bytes, and
// is replayed as exactly that; and it does not change what is read.
func TestRecord(t *testing.T) {
	hx.Check(t, 20000, rule, func(t *rapid.T, c *hx.Case) {
		src := newSource(rapid.IntRange(0, 3).Draw(t, "pollable") == 0)
		defer src.close()
		min := rapid.SampledFrom([]int{0, 1, 2, 7, 64, 128, 1000}).Draw(t, "min")
		in := anansi.Input{File: src.f, MinReadSize: min}
		plain := newSource(rapid.IntRange(0, 3).Draw(t, "pollable") == 0) // the same without recording
		defer plain.close()
		pin := anansi.Input{File: plain.f, MinReadSize: min}

		recs := []*dest{{}, {}}
		want := make([][]frame, 2)
		on := -1
		var input0 []byte
		inputs := 0
		for k := rapid.IntRange(1, 14).Draw(t, "ops"); k > 0; k-- {
			op := rapid.IntRange(0, 11).Draw(t, "op")
			switch {
			case op == 0: // turn recording on, off or elsewhere
				on = rapid.IntRange(-1, 1).Draw(t, "on")
				c.Logf("record to %d", on)
				if on < 0 {
					in.SetRecording(nil)
				} else {
					in.SetRecording(recs[on])
				}
				if in.IsRecording(nil) != (on >= 0) {
					t.Fatalf("IsRecording %v", in.IsRecording(nil))
				}
			case op == 1 && on >= 0:
				m := "msg:" + rapid.StringMatching(`[a-zA-Z:;,. 0-9]{0,9}`).Draw(t, "msg")
				c.Logf("message %q", m)
				fmt.Fprintf(&recs[on].Buffer, "\x1b_%s\x1b\\", m)
				want[on] = append(want[on], frame{m: m})
			case op == 2 && on >= 0:
				recs[on].fail = !recs[on].fail
				c.Logf("failing %v", recs[on].fail)
			case op == 3:
				evs, pevs := drain(&in), drain(&pin)
				c.Logf("decode")
				if fmt.Sprint(evs) != fmt.Sprint(pevs) {
					t.Fatalf("decoded %v, without recording %v", evs, pevs)
				}
			default:
				p := input(t, 4)
				more := op%2 == 0 && len(p) > 0
				late := more && rapid.IntRange(0, 63).Draw(t, "late") == 63
				c.Logf("read more=%v late=%v %q", more, late, p)
				var wrote atomic.Pointer[time.Time]
				if late {
					done := make(chan struct{})
					go func() {
						time.Sleep(2 * time.Millisecond)
						now := time.Now()
						wrote.Store(&now)
						src.write(p)
						close(done)
					}()
					defer func() { <-done }()
					c.Label("ReadMore blocks")
				} else {
					src.write(p)
				}
				plain.write(p)
				for left := p; ; {
					lo := time.Now()
					var n, pn int
					var err error
					if more {
						n, err = in.ReadMore()
						if w := wrote.Load(); w != nil {
							lo = *w
						}
						pn, _ = pin.ReadMore()
					} else {
						n, err = in.ReadAny()
						pn, _ = pin.ReadAny()
					}
					hi := time.Now()
					if late && n < pn {
						pn = n // arrived in parts
						t.Skip("arrived in parts")
					}
					if n != pn || n > len(left) {
						t.Fatalf("read %d bytes of %d, %d without recording", n, len(left), pn)
					}
					if on >= 0 && recs[on].fail {
						if err != errDisk {
							t.Fatalf("failed recording reports %v", err)
						}
					} else {
						if err != nil {
							t.Fatalf("reading: %v", err)
						}
						if on >= 0 {
							want[on] = append(want[on], frame{lo: lo.Round(0), hi: hi.Round(0), b: string(left[:n])})
							if n > 0 {
								inputs++
								if len(input0) > 0 {
									_, l := ref.Tokenize(input0)
									c.NT(inputs > 1 && l > 0)
								}
								input0 = append(input0[:0], left[:n]...)
							}
						}
					}
					left = left[n:]
					if !more || len(left) == 0 {
						if len(left) != 0 {
							t.Fatalf("%d bytes left unread", len(left))
						}
						break
					}
				}
			}
		}

		// the end of the input, or an error
		if on >= 0 && !recs[on].fail {
			var err error
			lo := time.Now()
			any := rapid.Bool().Draw(t, "any")
			p := []byte{}
			switch rapid.IntRange(0, 3).Draw(t, "end") {
			case 0:
				src.hangup()
			case 1:
				if any {
					p = input(t, 4)
					src.write(p)
				}
				src.hangup()
			case 2:
				f, oerr := os.OpenFile("/dev/null", os.O_WRONLY, 0)
				if oerr != nil {
					panic("HX-INFRA " + oerr.Error())
				}
				defer f.Close()
				in.File = f
			case 3:
				f, oerr := os.Open(os.Getenv("HX_TMP"))
				if oerr != nil {
					panic("HX-INFRA " + oerr.Error())
				}
				defer f.Close()
				in.File = f
			}
			n := 0
			if any {
				n, err = in.ReadAny()
			} else {
				n, err = in.ReadMore()
			}
			c.Logf("end any=%v %d %v %q", any, n, err, p)
			if err == nil || n != len(p) {
				t.Fatalf("read %d bytes, %v", n, err)
			}
			want[on] = append(want[on], frame{lo: lo.Round(0), hi: time.Now().Round(0), b: string(p), err: err.Error()})
		}

		for i, rec := range recs {
			fs, err := parse(rec.Bytes())
			if err != nil {
				t.Fatalf("recording %q: %v", rec.Bytes(), err)
			}
			for k, f := range want[i] {
				w := f.m
				if !f.lo.IsZero() {
					w = fmt.Sprintf("err %q in %q", f.err, f.b)
				}
				if k >= len(fs) || fs[k] != w {
					t.Fatalf("recording %q: frame %d should be %v, has %v", rec.Bytes(), k, w, fs)
				}
			}
			if len(fs) != len(want[i]) {
				t.Fatalf("recording %q has %d frames, should have %d", rec.Bytes(), len(fs), len(want[i]))
			}
			rep, err := replay(t, rec.Bytes())
			if err != nil {
				t.Fatalf("replaying %q: %v", rec.Bytes(), err)
			}
			if err := cmp(rep, want[i]); err != nil {
				t.Fatalf("replaying %q: %v", rec.Bytes(), err)
			}
		}
	})
}

const writtenRule = "recordings written by hand as documented: marks with times of any zone and precision, errors, messages, arbitrary input, also without any marks or with a bad time; non-trivial = three or more timed frames"

// TestReplay: a recording is read as documented, whatever wrote it.
func TestReplay(t *testing.T) {
	hx.Check(t, 20000, writtenRule, func(t *rapid.T, c *hx.Case) {
		var p []byte
		var want []frame
		if b := input(t, 2); rapid.IntRange(0, 3).Draw(t, "untimed") == 0 && len(b) > 0 {
			p = append(p, b...)
			want = append(want, frame{b: string(b)})
		}
		timed := 0
		bad := false
		var first, last time.Time
		for k := rapid.IntRange(0, 8).Draw(t, "frames"); k > 0; k-- {
			switch rapid.IntRange(0, 9).Draw(t, "frame") {
			case 0:
				m := "resize:" + rapid.StringMatching(`[0-9,]{0,6}`).Draw(t, "m")
				p = append(p, "\x1b_"+m+"\x1b\\"...)
				want = append(want, frame{m: m})
			case 1:
				if !bad && rapid.IntRange(0, 3).Draw(t, "badtime") == 0 {
					p = append(p, "\x1b_recTime:"+rapid.StringMatching(`[0-9TZ:-]{0,9}`).Draw(t, "bad")+"\x1b\\"...)
					bad = true
				}
			default:
				at := time.Unix(rapid.Int64Range(0, 1<<34).Draw(t, "sec"), rapid.SampledFrom([]int64{0, 1, 1000, 500000000, 999999999}).Draw(t, "ns"))
				at = at.In(time.FixedZone("", 900*rapid.IntRange(-48, 48).Draw(t, "zone")))
				f := frame{lo: at, hi: at, b: string(input(t, 3))}
				p = append(p, "\x1b_recTime:"+at.Format(time.RFC3339Nano)+"\x1b\\"...)
				if rapid.IntRange(0, 3).Draw(t, "err") == 0 {
					f.err = rapid.StringMatching(`[a-zA-Z/:é]{1,20}`).Draw(t, "errtext")
					p = append(p, "\x1b_recReadErr:"+f.err+"\x1b\\"...)
				}
				p = append(p, f.b...)
				want = append(want, f)
				timed++
				if len(want) == 1 {
					first = at
				}
				last = at
			}
		}
		c.Logf("%q", p)
		c.NT(timed >= 3)
		rep, err := replay(t, p)
		if bad {
			if err == nil {
				t.Fatalf("no error for a bad time")
			}
			return
		}
		if err != nil {
			t.Fatal(err)
		}
		if err := cmp(rep, want); err != nil {
			t.Fatal(err)
		}
		if len(want) == 0 && rep.Duration() != 0 {
			t.Fatalf("duration of nothing is %v", rep.Duration())
		}
		if len(want) > 0 && !want[0].lo.IsZero() && !want[len(want)-1].lo.IsZero() {
			if d := rep.Duration(); d != last.Sub(first) {
				t.Fatalf("duration %v, should be %v", d, last.Sub(first))
			}
		}
		for i, f := range rep {
			s := f.String()
			for _, part := range []string{want[i].err, want[i].m} {
				if !strings.Contains(s, part) {
					t.Fatalf("frame %d is shown as %q, without %q", i, s, part)
				}
			}
			if len(f.B) > 0 && !strings.Contains(s, fmt.Sprintf("%q", f.B)) {
				t.Fatalf("frame %d is shown as %q, without %q", i, s, f.B)
			}
		}
	})
}
