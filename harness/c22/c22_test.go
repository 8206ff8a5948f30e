package c22

import (
	"fmt"
	"image"
	"io"
	"log"
	"os"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"unicode/utf8"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"github.com/jcorbin/anansi/x/platform"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/ref"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	hx.Main(m)
}

// ev is an event of the model.
type ev struct {
	kind  platform.EventType
	id    rune
	arg   string
	state uint8
	x, y  int
}

func (e ev) String() string {
	switch e.kind {
	case platform.EventNone:
		return "struck"
	case platform.EventMouse:
		return fmt.Sprintf("mouse %d@%d,%d", e.state, e.x, e.y)
	}
	return ref.Ev{ID: e.id, Arg: e.arg}.String()
}

// event is the queue's event of a token.
func event(r ref.Ev) ev {
	e := ev{id: r.ID, arg: r.Arg, kind: platform.EventRune}
	if 0xEF00 <= r.ID && r.ID <= 0xEFFF {
		e.kind = platform.EventEscape
	}
	if (r.ID == 0xEF80|'M' || r.ID == 0xEF80|'m') && strings.HasPrefix(r.Arg, "<") {
		var n []int
		for _, s := range strings.Split(r.Arg[1:], ";") {
			if len(s) == 0 || strings.Trim(s, "0123456789") != "" {
				return e
			}
			v, err := strconv.ParseUint(s, 10, 32)
			if err != nil {
				return e
			}
			n = append(n, int(v))
		}
		if len(n) != 3 || n[0] > 255 {
			return e
		}
		e.state, e.x, e.y = uint8(n[0]), n[1], n[2]
		if r.ID == 0xEF80|'m' {
			e.state |= 128
		}
		if e.state != 0 || e.x > 0 && e.y > 0 {
			e.kind = platform.EventMouse
		}
	}
	return e
}

func events(rs []ref.Ev) (es []ev) {
	for _, r := range rs {
		es = append(es, event(r))
	}
	return es
}

// check compares the queue with the model.
func check(es *platform.Events, want []ev) error {
	if len(es.Type) != len(want) {
		return fmt.Errorf("%d events, should be %d: %v", len(es.Type), len(want), want)
	}
	empty := true
	for i, w := range want {
		if es.Type[i] != w.kind {
			return fmt.Errorf("event %d has type %v, should be %d for %v", i, es.Type[i], w.kind, w)
		}
		if w.kind != platform.EventNone {
			empty = false
		}
		if r := es.Rune(i); r != w.id {
			return fmt.Errorf("event %d is %U, should be %v", i, r, w)
		}
		if e := es.Escape(i); e.ID != ansi.Escape(w.id) || string(e.Arg) != w.arg {
			return fmt.Errorf("event %d is %v %q, should be %v", i, e.ID, e.Arg, w)
		}
		if w.kind == platform.EventMouse {
			if m := es.Mouse(i); uint8(m.State) != w.state || m.X != w.x || m.Y != w.y {
				return fmt.Errorf("event %d is %v, should be %v", i, m, w)
			}
		}
	}
	if es.Empty() != empty {
		return fmt.Errorf("queue of %v is empty: %v", want, es.Empty())
	}
	return nil
}

// mouse generates a mouse report.
func mouse(t *rapid.T) []byte {
	b := rapid.SampledFrom([]int{0, 1, 2, 64, 65, 32, 33, 35}).Draw(t, "button") | rapid.SampledFrom([]int{0, 0, 0, 4, 8, 16, 28}).Draw(t, "mod")
	final := "M"
	if b < 32 && rapid.IntRange(0, 2).Draw(t, "release") == 0 {
		final = "m"
	}
	c := rapid.IntRange(1, 12)
	return []byte(fmt.Sprintf("\x1b[<%d;%d;%d%s", b, c.Draw(t, "x"), c.Draw(t, "y"), final))
}

// arrow generates a cursor key.
func arrow(t *rapid.T) []byte {
	arg := rapid.SampledFrom([]string{"", "", "", "1", "2", "5", "10", "1;2", "80"}).Draw(t, "arg")
	return []byte("\x1b[" + arg + string("ABCD"[rapid.IntRange(0, 3).Draw(t, "dir")]))
}

func token(t *rapid.T) []byte {
	switch rapid.IntRange(0, 7).Draw(t, "kind") {
	case 0:
		return mouse(t)
	case 1:
		return arrow(t)
	case 2, 3, 4:
		return []byte{rapid.SampledFrom([]byte("aab\x03\x0c  q\r\x1a")).Draw(t, "key")}
	case 5:
		if rapid.IntRange(0, 3).Draw(t, "bad") == 0 {
			return []byte(rapid.SampledFrom([]string{"\x1b[<1;2M", "\x1b[<256;1;1M", "\x1b[<1;x;3m", "\x1b[M", "\x1b[3M", "\x1b[<0;0;0M", "\x1b[<;;M", "\x1b[<1;1;1;1M"}).Draw(t, "badmouse"))
		}
	}
	return ref.Token(t)
}

type source struct {
	w int
	f *os.File
}

func newSource(pollable bool) *source {
	if pollable { // as a file opened by os.OpenFile
		r, w, err := os.Pipe()
		if err != nil {
			panic("HX-INFRA pipe: " + err.Error())
		}
		fd, err := syscall.Dup(int(w.Fd()))
		if err != nil {
			panic("HX-INFRA dup: " + err.Error())
		}
		w.Close()
		return &source{w: fd, f: r}
	}
	var fds [2]int
	if err := syscall.Pipe2(fds[:], syscall.O_CLOEXEC); err != nil {
		panic("HX-INFRA pipe: " + err.Error())
	}
	return &source{w: fds[1], f: os.NewFile(uintptr(fds[0]), "pipe")}
}

func (s *source) close() { syscall.Close(s.w); s.f.Close() }

func write(fd int, p []byte) {
	for len(p) > 0 {
		n, err := syscall.Write(fd, p)
		if err != nil && err != syscall.EINTR {
			panic("HX-INFRA pipe write: " + err.Error())
		}
		p = p[max(n, 0):]
	}
}

// esc says whether p ends in an escape byte: timing would matter there.
func esc(p []byte) bool { return len(p) > 0 && p[len(p)-1] == 0x1B }

const decodeRule = "streams of keys, escapes, control strings, mouse reports (bad ones too) and invalid bytes, decoded in batches of bytes or through an Input in pieces cut anywhere, with the queue kept or cleared; non-trivial = three or more batches into one queue, with mouse and other events"

// TestDecode: the queue holds every event in order, and they stay what they are
// until cleared.
func TestDecode(t *testing.T) {
	hx.Check(t, 20000, decodeRule, func(t *rapid.T, c *hx.Case) {
		var es platform.Events
		var want []ev
		src := newSource(rapid.IntRange(0, 3).Draw(t, "pollable") == 0)
		defer src.close()
		in := anansi.Input{File: src.f, MinReadSize: rapid.SampledFrom([]int{0, 1, 16, 64}).Draw(t, "min")}
		var stream []byte // what went through the Input
		var fed, before int
		batches := 0
		for k := rapid.IntRange(1, 8).Draw(t, "batches"); k > 0; k-- {
			var p []byte
			for j := rapid.IntRange(0, 5).Draw(t, "n"); j > 0; j-- {
				p = append(p, token(t)...)
			}
			switch rapid.IntRange(0, 9).Draw(t, "op") {
			case 0:
				c.Logf("clear")
				es.Clear()
				want = want[:0]
				batches = 0
			case 1, 2, 3, 4:
				if rapid.IntRange(0, 3).Draw(t, "partial") == 0 {
					p = append(p, ref.Tail(t)...)
				}
				c.Logf("bytes %q", p)
				want = append(want, events(ref.AtEOF(p))...)
				es.DecodeBytes(p)
				for i := range p {
					p[i] = '#' // the bytes are the caller's to reuse
				}
				batches++
			default:
				stream = append(stream, p...)
				// some of it, as far as not ending in an escape byte
				n := len(stream)
				if n > fed {
					n = rapid.IntRange(fed, len(stream)).Draw(t, "upto")
				}
				for n < len(stream) && (esc(stream[:n]) || !settled(stream[:n])) {
					n++
				}
				c.Logf("input %q", stream[fed:n])
				write(src.w, stream[fed:n])
				fed = n
				if _, err := in.ReadAny(); err != nil {
					t.Fatalf("ReadAny: %v", err)
				}
				es.DecodeInput(&in)
				all, _ := ref.Tokenize(stream[:fed])
				want = append(want, events(all[before:])...)
				before = len(all)
				batches++
			}
			if err := check(&es, want); err != nil {
				t.Fatal(err)
			}
		}
		mice := 0
		for _, w := range want {
			if w.kind == platform.EventMouse {
				mice++
			}
		}
		c.NT(batches >= 3 && mice > 0 && mice < len(want))
	})
}

// settled says that what Tokenize makes of an unfinished sequence cannot
// change with what follows: it is not inside an ESC sequence or a rune.
func settled(p []byte) bool {
	_, left := ref.Tokenize(p)
	if left == 0 {
		for i := 1; i <= 3 && i <= len(p); i++ {
			if q := p[len(p)-i:]; utf8.RuneStart(q[0]) && !utf8.FullRune(q) {
				return false
			}
		}
		return true
	}
	q := p[len(p)-left:]
	if q[0] != 0x1B {
		return true
	}
	return len(q) > 1 && strings.IndexByte("[P]^_", q[1]) >= 0
}

const strikeRule = "queues of keys, arrows and mouse events put to random queries that strike events out; non-trivial = four or more events struck by three or more queries"

// TestStrike: each query finds exactly its events among those left, and strikes
// exactly those.
func TestStrike(t *testing.T) {
	hx.Check(t, 40000, strikeRule, func(t *rapid.T, c *hx.Case) {
		var es platform.Events
		var q []ev
		struck, queries := 0, 0
		strike := func(i int) {
			q[i].kind = platform.EventNone
			struck++
		}
		for k := rapid.IntRange(1, 10).Draw(t, "ops"); k > 0; k-- {
			hit := struck
			c1 := rapid.IntRange(-1, 12)
			box := image.Rect(c1.Draw(t, "x0"), c1.Draw(t, "y0"), c1.Draw(t, "x1"), c1.Draw(t, "y1"))
			if rapid.IntRange(0, 2).Draw(t, "wide") == 0 {
				box = image.Rect(1, 1, 9, 13)
			}
			var abox ansi.Rectangle
			abox.Min.X, abox.Min.Y, abox.Max.X, abox.Max.Y = box.Min.X, box.Min.Y, box.Max.X, box.Max.Y
			in := func(e ev) bool {
				return box.Min.X <= e.x && e.x < box.Max.X && box.Min.Y <= e.y && e.y < box.Max.Y
			}
			op := rapid.IntRange(0, 10).Draw(t, "op")
			if len(q) == 0 {
				op = 0
			}
			switch op {
			case 0, 1:
				var p []byte
				for j := rapid.IntRange(1, 12).Draw(t, "n"); j > 0; j-- {
					p = append(p, token(t)...)
				}
				c.Logf("decode %q", p)
				rs, _ := ref.Tokenize(p)
				q = append(q, events(rs)...)
				es.DecodeBytes(p)
			case 2:
				r := rapid.SampledFrom([]rune{'\x03', 'a', ' ', '\r', 0xEF80 | 'A'}).Draw(t, "r")
				c.Logf("HasTerminal %q", r)
				want := false
				for i, e := range q {
					if e.kind == platform.EventRune && e.id == r {
						want = true
						for ; i < len(q); i++ {
							if q[i].kind != platform.EventNone {
								strike(i)
							}
						}
						break
					}
				}
				if got := es.HasTerminal(r); got != want {
					t.Fatalf("HasTerminal %q: %v", r, got)
				}
			case 3, 4:
				rs := rapid.SliceOfN(rapid.SampledFrom([]rune{'a', 'b', ' ', '\x0c', 'q', '\x1a', 0xEF80 | 'A'}), 0, 4).Draw(t, "rs")
				c.Logf("CountRune %q", rs)
				want := 0
				for i, e := range q {
					if e.kind == platform.EventRune && strings.ContainsRune(string(rs), e.id) {
						want++
						strike(i)
					}
				}
				if got := es.CountRune(rs...); got != want {
					t.Fatalf("CountRune %q: %d, should be %d", rs, got, want)
				}
			case 5:
				b := rapid.IntRange(1, 3).Draw(t, "b")
				c.Logf("CountPressesIn %v %d", box, b)
				want := 0
				for i, e := range q {
					if e.kind == platform.EventMouse && e.state&(32|64|128) == 0 && int(e.state&3)+1 == b && in(e) {
						want++
						strike(i)
					}
				}
				if got := es.CountPressesIn(abox, uint8(b)); got != want {
					t.Fatalf("CountPressesIn %v %d: %d, should be %d", box, b, got, want)
				}
			case 6:
				c.Logf("AnyPressesOutside %v", box)
				want, wheel := false, false
				for _, e := range q {
					if e.kind == platform.EventMouse && e.state&(32|128) == 0 && !in(e) {
						if e.state&64 != 0 || e.state&3 == 3 {
							wheel = true // whether the wheel is pressed is a matter of opinion
						} else {
							want = true
						}
					}
				}
				if got := es.AnyPressesOutside(abox); got != want && (want || !wheel) {
					t.Fatalf("AnyPressesOutside %v: %v", box, got)
				}
			case 7:
				c.Logf("TotalScrollIn %v", box)
				want := 0
				for i, e := range q {
					if e.kind == platform.EventMouse && in(e) && e.state&(64|32|128) == 64 && e.state&3 < 2 {
						want += int(e.state&3)*2 - 1
						strike(i)
					}
				}
				if got := es.TotalScrollIn(abox); got != want {
					t.Fatalf("TotalScrollIn %v: %d, should be %d", box, got, want)
				}
			case 8:
				c.Logf("TotalCursorMovement")
				var want image.Point
				skip := false
				for i, e := range q {
					if e.kind == platform.EventEscape && 0xEF80|'A' <= e.id && e.id <= 0xEF80|'D' {
						n := 1
						if s := strings.SplitN(e.arg, ";", 2)[0]; s != "" || e.arg != "" {
							v, err := strconv.ParseUint(s, 10, 31)
							if err != nil || v == 0 || v > 1<<20 {
								skip = true // not a count
							}
							n = int(v)
						}
						d := []image.Point{{0, -1}, {0, 1}, {1, 0}, {-1, 0}}[e.id-(0xEF80|'A')]
						want = want.Add(d.Mul(n))
						strike(i)
					}
				}
				if got := es.TotalCursorMovement(); got != want && !skip {
					t.Fatalf("TotalCursorMovement: %v, should be %v", got, want)
				}
			case 9:
				eat := rapid.Bool().Draw(t, "consume")
				c.Logf("LastMouse %v", eat)
				last := -1
				for i, e := range q {
					if e.kind == platform.EventMouse {
						last = i
						if eat {
							strike(i)
						}
					}
				}
				m, have := es.LastMouse(eat)
				if have != (last >= 0) {
					t.Fatalf("LastMouse: %v", have)
				}
				if have && (uint8(m.State) != q[last].state || m.X != q[last].x || m.Y != q[last].y) {
					t.Fatalf("LastMouse: %v, should be %v", m, q[last])
				}
				if !have && m != platform.ZM {
					t.Fatalf("no last mouse is %v", m)
				}
			case 10:
				i := rapid.IntRange(0, len(q)-1).Draw(t, "i")
				if q[i].kind != platform.EventNone {
					c.Logf("strike %d", i)
					strike(i)
					es.Type[i] = platform.EventNone
				}
			}
			if struck > hit {
				queries++
			}
			// a struck mouse event's data is still there, but not required
			if err := check(&es, q); err != nil {
				t.Fatal(err)
			}
		}
		c.NT(struck >= 4 && queries >= 3)
		c.LabelIf(queries >= 3, "three queries that hit")
	})
}
