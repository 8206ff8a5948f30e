package c10

import (
	"fmt"
	"io"
	"os"
	"os/signal"
	"syscall"
	"testing"
	"time"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/pty"
	"verif/ref"
)

func TestMain(m *testing.M) {
	signal.Notify(witness, syscall.SIGIO)
	hx.Main(m)
}

// witness gets every SIGIO
var witness = make(chan os.Signal, 1)

// raise sends a SIGIO and waits until it was handed out to all channels.
func raise() {
	select {
	case <-witness:
	default:
	}
	if err := syscall.Kill(syscall.Getpid(), syscall.SIGIO); err != nil {
		panic("HX-INFRA kill: " + err.Error())
	}
	select {
	case <-witness:
	case <-time.After(30 * time.Second):
		panic("HX-INFRA no SIGIO")
	}
	signal.Stop(make(chan os.Signal)) // handing out holds the lock that this takes
}

// source is a pipe whose read end an Input reads from. The descriptor is kept
// out of the runtime poller, as a terminal's is, so that non-blocking reads
// fail with EWOULDBLOCK.
type source struct {
	w int
	f *os.File
}

func newSource(pollable bool) *source {
	if pollable { // as a file opened by os.OpenFile
		r, w, err := os.Pipe()
		if err != nil {
			panic("HX-INFRA pipe: " + err.Error())
		}
		fd, err := syscall.Dup(int(w.Fd()))
		if err != nil {
			panic("HX-INFRA dup: " + err.Error())
		}
		w.Close()
		return &source{w: fd, f: r}
	}
	var fds [2]int
	if err := syscall.Pipe2(fds[:], syscall.O_CLOEXEC); err != nil {
		panic("HX-INFRA pipe: " + err.Error())
	}
	return &source{w: fds[1], f: os.NewFile(uintptr(fds[0]), "pipe")}
}

func (s *source) write(p []byte) {
	for len(p) > 0 {
		n, err := syscall.Write(s.w, p)
		if err != nil && err != syscall.EINTR {
			panic("HX-INFRA pipe write: " + err.Error())
		}
		p = p[max(n, 0):]
	}
}

func (s *source) hangup() {
	if s.w >= 0 {
		syscall.Close(s.w)
		s.w = -1
	}
}

func (s *source) close() { s.hangup(); s.f.Close() }

func drain(in *anansi.Input) (evs []ref.Ev) {
	for {
		e, a, ok := in.Decode()
		if !ok {
			return evs
		}
		evs = append(evs, ref.Ev{ID: rune(e), Arg: string(a)})
	}
}

// cuts says where a stream of tokens may be cut without the timing of the
// input being significant: anywhere but between an ESC and the byte that
// decides what it introduces.
func cuts(tok []byte) (ok []bool) {
	ok = make([]bool, len(tok)+1)
	ok[0], ok[len(tok)] = true, true
	if tok[0] != 0x1B {
		for i := range ok {
			ok[i] = true
		}
		// an ESC within an incomplete string is no matter
		return ok
	}
	if len(tok) > 1 {
		switch tok[1] {
		case '[', 'P', ']', '^', '_':
			for i := 2; i < len(tok); i++ {
				ok[i] = true
			}
		}
	}
	return ok
}

type stream struct {
	p    []byte
	ok   []bool // may cut before byte i
	soft bool   // has a cut inside a token available
}

func (s *stream) add(tok []byte) {
	if len(tok) == 0 {
		return
	}
	ok := cuts(tok)
	s.p = append(s.p, tok...)
	s.ok = append(s.ok, ok[:len(tok)]...)
}

func token(t *rapid.T) []byte {
	if rapid.IntRange(0, 3).Draw(t, "wide") == 0 {
		return []byte(string(rapid.SampledFrom([]rune("é世\U0001f600\u0085\u00ff\u009c")).Draw(t, "r")))
	}
	return ref.Token(t)
}

func split(t *rapid.T, s *stream) (parts [][]byte) {
	most := rapid.SampledFrom([]int{1, 1, 3, 12, 80, 400}).Draw(t, "most")
	i := 0
	for i < len(s.p) {
		j := i + rapid.IntRange(1, most).Draw(t, "cut")
		for j < len(s.p) && !s.ok[j] {
			j++
		}
		j = min(j, len(s.p))
		parts = append(parts, s.p[i:j])
		i = j
	}
	return parts
}

func diff(got, want []ref.Ev) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(got) || i >= len(want) || got[i] != want[i] {
			return fmt.Sprintf("event %d differs:\n got %v\nwant %v", i, got[min(i, len(got)):], want[min(i, len(want)):])
		}
	}
	return ""
}

const rule = "token streams (escapes, control strings, UTF-8, controls, invalid bytes) delivered over a pipe in pieces cut anywhere except right after an ESC, read with a random mix of ReadAny and ReadMore and random buffer sizes, then ended in the middle of a sequence or not; non-trivial = a piece ended inside a token"

// TestDecode: what is decoded does not depend on how the input arrived, every
// decodable token is available at once, and everything is delivered at the end
// of the input.
func TestDecode(t *testing.T) {
	hx.Check(t, 40000, rule, func(t *rapid.T, c *hx.Case) {
		var s stream
		ends := map[int]bool{}
		for k := rapid.IntRange(1, 12).Draw(t, "n"); k > 0; k-- {
			s.add(token(t))
			ends[len(s.p)] = true
		}
		whole := len(s.p)
		tl := ref.Tail(t)
		s.add(tl)
		parts := split(t, &s)
		src := newSource(rapid.IntRange(0, 3).Draw(t, "pollable") == 0)
		defer src.close()
		in := anansi.Input{File: src.f, MinReadSize: rapid.SampledFrom([]int{0, 1, 2, 7, 64, 128, 1000}).Draw(t, "min")}
		var got []ref.Ev
		c.Logf("%q + %q min=%d", s.p[:whole], tl, in.MinReadSize)
		pos := 0
		more := rapid.IntRange(0, 2).Draw(t, "mode") // 0 any, 1 more, 2 mixed
		for _, part := range parts {
			src.write(part)
			if more == 1 || more == 2 && rapid.Bool().Draw(t, "more") {
				total := 0
				for total < len(part) {
					n, err := in.ReadMore()
					if err != nil || n < 1 {
						t.Fatalf("ReadMore of available input: %d, %v", n, err)
					}
					total += n
					got = append(got, drain(&in)...)
				}
				if total != len(part) {
					t.Fatalf("ReadMore read %d of %d bytes", total, len(part))
				}
			} else {
				n, err := in.ReadAny()
				if err != nil || n != len(part) {
					t.Fatalf("ReadAny: %d, %v with %d bytes available", n, err, len(part))
				}
				got = append(got, drain(&in)...)
			}
			if in.AtEOF() {
				t.Fatalf("at EOF with the writer still there")
			}
			pos += len(part)
			c.NT(!ends[pos] && pos < len(s.p))
			if ends[pos] {
				// all of it is decodable, unless the buffer filled up to the byte
				// and might continue
				want, left := ref.Tokenize(s.p[:pos])
				if left != 0 {
					t.Fatalf("HX-INFRA tokenizer left %d", left)
				}
				if d := diff(got, want); d != "" {
					t.Fatalf("after %q: %s", s.p[:pos], d)
				}
			}
		}
		src.hangup()
		useMore := rapid.Bool().Draw(t, "eofMore")
		for i := rapid.IntRange(1, 3).Draw(t, "eofs"); i > 0; i-- {
			var n int
			var err error
			if useMore {
				n, err = in.ReadMore()
			} else {
				n, err = in.ReadAny()
			}
			if n != 0 || err != io.EOF || !in.AtEOF() {
				t.Fatalf("reading at the end of the input: %d, %v, AtEOF %v", n, err, in.AtEOF())
			}
		}
		got = append(got, drain(&in)...)
		want := ref.AtEOF(s.p)
		if len(tl) > 0 && tl[0] == 0x1B && (len(tl) == 1 || tl[1] == ' ') {
			c.Label("lone-escape-tail")
		}
		if d := diff(got, want); d != "" {
			t.Fatalf("at the end of %q: %s", s.p, d)
		}
	})
}

const modeRule = "random histories of Enter, Exit, Close, Notify, ReadAny, ReadMore (with input there or not) and input arriving, on a pipe or pty with random initial flags; non-trivial = a blocked ReadMore after a ReadAny, or a notification"

// TestModes: reads block or not as documented whatever came before, file flags
// say so, are restored on Exit, and notifications go to the current channel
// only.
func TestModes(t *testing.T) {
	hx.Check(t, 12000, modeRule, func(t *rapid.T, c *hx.Case) {
		pollable := rapid.IntRange(0, 3).Draw(t, "pollable") == 0
		src := newSource(pollable)
		defer src.close()
		fd := src.f.Fd()
		extra := rapid.SampledFrom([]int{0, syscall.O_APPEND, syscall.O_NOATIME, syscall.O_NONBLOCK}).Draw(t, "flags")
		if extra != 0 {
			if _, _, e := syscall.Syscall(syscall.SYS_FCNTL, fd, syscall.F_SETFL, uintptr(extra)); e != 0 {
				panic("HX-INFRA F_SETFL: " + e.Error())
			}
		}
		var term anansi.Term
		term.Input.File = src.f
		in := &term.Input
		defer in.Close()
		var is anansi.InputSignal
		initial := pty.Flags(src.f)
		var cur chan os.Signal
		var stale []chan os.Signal // given before, must not get any more
		retire := func(old chan os.Signal) {
			for i, ch := range stale {
				if ch == cur {
					stale = append(stale[:i:i], stale[i+1:]...)
					break
				}
			}
			if old != nil && old != cur {
				select { // may have got one before
				case <-old:
				default:
				}
				stale = append(stale, old)
			}
			if len(stale) == 0 {
				return
			}
			raise()
			for _, ch := range stale {
				select {
				case <-ch:
					t.Fatalf("notification on a channel given before")
				default:
				}
			}
		}
		entered := false
		pending := 0 // unread bytes
		seq := byte(0)
		var sent, got []byte
		feed := func(n int) {
			p := make([]byte, n)
			for i := range p {
				p[i] = 'a' + seq%26
				seq++
			}
			sent = append(sent, p...)
			src.write(p)
			pending += n
		}
		clear := func() {
			if cur != nil {
				select {
				case <-cur:
				default:
				}
			}
		}
		take := func() {
			for _, ev := range drain(in) {
				got = append(got, byte(ev.ID))
			}
			if string(got) != string(sent[:len(sent)-pending]) {
				t.Fatalf("decoded %q of %q", got, sent[:len(sent)-pending])
			}
		}
		flags := func(what string, async bool) {
			fl := pty.Flags(src.f)
			if (fl&syscall.O_ASYNC != 0) != async {
				t.Fatalf("after %s: O_ASYNC is %v", what, !async)
			}
			if fl&^(syscall.O_ASYNC|syscall.O_NONBLOCK) != initial&^syscall.O_NONBLOCK {
				t.Fatalf("after %s: flags %#x, were %#x", what, fl, initial)
			}
		}
		enter := func() {
			if err := in.Enter(&term); err != nil {
				t.Fatalf("Enter: %v", err)
			}
			entered = true
		}
		exit := func() {
			if err := in.Exit(&term); err != nil {
				t.Fatalf("Exit: %v", err)
			}
			if fl := pty.Flags(src.f); fl != initial {
				t.Fatalf("Exit left flags %#x, were %#x at Enter", fl, initial)
			}
			entered = false
		}
		enter()
		for k := rapid.IntRange(1, 12).Draw(t, "n"); k > 0; k-- {
			op := rapid.IntRange(0, 6).Draw(t, "op")
			if !entered {
				op = 6
			}
			switch op {
			case 0:
				n := rapid.IntRange(1, 300).Draw(t, "n")
				c.Logf("input %d", n)
				clear()
				feed(n)
				if cur != nil {
					select {
					case <-cur:
						c.NT(true)
					case <-time.After(30 * time.Second):
						t.Fatalf("no notification of new input")
					}
				}
			case 1:
				n, err := in.ReadAny()
				c.Logf("ReadAny %d of %d", n, pending)
				if err != nil || n != pending {
					t.Fatalf("ReadAny: %d, %v with %d available", n, err, pending)
				}
				pending = 0
				take()
				if pty.Flags(src.f)&syscall.O_NONBLOCK == 0 {
					t.Fatalf("ReadAny without O_NONBLOCK")
				}
				flags("ReadAny", cur != nil)
			case 2:
				if pending > 0 {
					n, err := in.ReadMore()
					c.Logf("ReadMore %d of %d", n, pending)
					if err != nil || n < 1 || n > pending {
						t.Fatalf("ReadMore: %d, %v with %d available", n, err, pending)
					}
					pending -= n
					take()
					break
				}
				c.Logf("ReadMore blocked")
				c.NT(true)
				type res struct {
					n   int
					err error
				}
				done := make(chan res, 1)
				go func() {
					n, err := in.ReadMore()
					done <- res{n, err}
				}()
				// (the runtime poller may do the waiting)
				for start := time.Now(); !pollable && pty.Flags(src.f)&syscall.O_NONBLOCK != 0; {
					select {
					case r := <-done:
						t.Fatalf("ReadMore returned %d, %v with nothing to read", r.n, r.err)
					case <-time.After(20 * time.Microsecond):
					}
					if time.Since(start) > 20*time.Second {
						feed(1)
						<-done
						t.Fatalf("ReadMore waits with non-blocking reads")
					}
				}
				n := rapid.IntRange(1, 20).Draw(t, "n")
				feed(n)
				r := <-done
				if r.err != nil || r.n < 1 || r.n > n {
					t.Fatalf("ReadMore: %d, %v with %d arriving", r.n, r.err, n)
				}
				pending -= r.n
				take()
				flags("ReadMore", cur != nil)
			case 3:
				old := cur
				switch rapid.IntRange(0, 3).Draw(t, "how") {
				case 0:
					c.Logf("Notify")
					cur = make(chan os.Signal, 1)
					if err := in.Notify(cur); err != nil {
						t.Fatalf("Notify: %v", err)
					}
				case 1:
					if cur == nil {
						continue
					}
					c.Logf("Notify again")
					if err := in.Notify(cur); err != nil {
						t.Fatalf("Notify: %v", err)
					}
				default: // as entered with a term, or left and entered again
					c.Logf("InputSignal.Enter")
					if err := is.Enter(&term); err != nil {
						t.Fatalf("InputSignal.Enter: %v", err)
					}
					cur = is.C
				}
				flags("Notify", true)
				retire(old)
				clear()
				feed(1)
				select {
				case <-cur:
				case <-time.After(30 * time.Second):
					t.Fatalf("no notification of new input")
				}
			case 4:
				c.Logf("Notify nil")
				if err := in.Notify(nil); err != nil {
					t.Fatalf("Notify(nil): %v", err)
				}
				old := cur
				cur = nil
				flags("Notify(nil)", false)
				retire(old)
			case 5:
				c.Logf("Exit")
				exit()
			case 6:
				if entered {
					break
				}
				c.Logf("Enter")
				enter()
				flags("Enter", cur != nil)
			}
		}
		if entered {
			exit()
		}
		if cur != nil {
			if err := in.Close(); err != nil {
				t.Fatalf("Close: %v", err)
			}
			old := cur
			cur = nil
			retire(old)
		}
	})
}

const fileRule = "regular files that grow between reads; non-trivial = input arrived after the end was seen"

// TestGrowing: the end of the input is not final, and is reported only when
// nothing was read or along with what was.
func TestGrowing(t *testing.T) {
	hx.Check(t, 10000, fileRule, func(t *rapid.T, c *hx.Case) {
		f, err := os.CreateTemp(os.Getenv("HX_TMP"), "grow")
		if err != nil {
			panic("HX-INFRA " + err.Error())
		}
		defer os.Remove(f.Name())
		defer f.Close()
		r, err := os.Open(f.Name())
		if err != nil {
			panic("HX-INFRA " + err.Error())
		}
		defer r.Close()
		in := anansi.Input{File: r, MinReadSize: rapid.SampledFrom([]int{0, 1, 16}).Draw(t, "min")}
		var all, got []ref.Ev
		for k := rapid.IntRange(1, 5).Draw(t, "n"); k > 0; k-- {
			var p []byte
			for j := rapid.IntRange(0, 6).Draw(t, "k"); j > 0; j-- {
				p = append(p, token(t)...)
			}
			es, _ := ref.Tokenize(p)
			all = append(all, es...)
			f.Write(p)
			c.Logf("%q", p)
			c.NT(len(p) > 0 && in.AtEOF())
			read := 0
			if rapid.Bool().Draw(t, "any") {
				n, err := in.ReadAny()
				if n != len(p) || err != io.EOF || !in.AtEOF() {
					t.Fatalf("ReadAny: %d, %v, AtEOF %v of %d bytes", n, err, in.AtEOF(), len(p))
				}
			} else {
				for {
					n, err := in.ReadMore()
					read += n
					if n > 0 && (err != nil || in.AtEOF()) {
						t.Fatalf("ReadMore: %d, %v, AtEOF %v", n, err, in.AtEOF())
					}
					got = append(got, drain(&in)...)
					if n == 0 {
						if err != io.EOF || !in.AtEOF() {
							t.Fatalf("ReadMore: %d, %v, AtEOF %v", n, err, in.AtEOF())
						}
						break
					}
				}
				if read != len(p) {
					t.Fatalf("ReadMore read %d of %d bytes", read, len(p))
				}
			}
			got = append(got, drain(&in)...)
			if d := diff(got, all); d != "" {
				t.Fatalf("%q: %s", p, d)
			}
		}
	})
}

var _ = ansi.ZP
