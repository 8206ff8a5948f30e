package c24

import (
	"bytes"
	"fmt"
	"image"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"unsafe"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/x/platform"
	"pgregory.net/rapid"

	"verif/hx"
)

var installed = log.Writer() // that the package has set

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	hx.Main(m)
}

// chunk draws something to log: lines, a part of one, or several.
func chunk(t *rapid.T) string {
	return rapid.OneOf(
		rapid.StringMatching(`[a-z]{0,8}\n`),
		rapid.StringMatching(`([a-z]{0,3}\n?){0,5}`),
		rapid.Just("\n"), rapid.Just("\n\n"), rapid.Just(""),
		rapid.StringMatching(`[a-z]{1,4}`),
	).Draw(t, "chunk")
}

// eols are the ends of the lines of b, an unterminated last one included.
func eols(b string) (is []int) {
	for i := 0; i < len(b); i++ {
		if b[i] == '\n' {
			is = append(is, i)
		}
	}
	if n := len(b); n > 0 && b[n-1] != '\n' {
		is = append(is, n)
	}
	return is
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

const standardRule = "random lines to the standard logger; all are non-trivial"

// TestStandard: the standard logger logs to Logs.
func TestStandard(t *testing.T) {
	defer log.SetOutput(io.Discard)
	defer log.SetFlags(log.Flags())
	hx.Check(t, 100, standardRule, func(t *rapid.T, c *hx.Case) {
		c.NT(true)
		_, _ = io.Copy(io.Discard, &platform.Logs)
		log.SetOutput(installed)
		log.SetFlags(0)
		want := ""
		for n := rapid.IntRange(1, 5).Draw(t, "n"); n > 0; n-- {
			s := rapid.StringMatching(`[a-z]{1,9}`).Draw(t, "line")
			log.Print(s)
			want += s + "\n"
		}
		if b, _ := platform.Logs.Contents(); string(b) != want {
			t.Fatalf("logged %q, Logs has %q", want, b)
		}
	})
}

const memRule = "random writes (whole, partial and several lines) and reads of any size; non-trivial = a line written in pieces, or a read that ends within a line"

// TestMemory: what is kept in memory is what was written and not read, with
// its line ends.
func TestMemory(t *testing.T) {
	hx.Check(t, 15000, memRule, func(t *rapid.T, c *hx.Case) {
		var logs platform.LogSink
		have := ""
		for n := rapid.IntRange(1, 20).Draw(t, "n"); n > 0; n-- {
			if rapid.IntRange(0, 3).Draw(t, "op") > 0 {
				s := chunk(t)
				c.Logf("write %q", s)
				c.NT(have != "" && have[len(have)-1] != '\n' && s != "")
				p := []byte(s)
				if m, err := logs.Write(p); m != len(s) || err != nil {
					t.Fatalf("Write returned %d %v", m, err)
				}
				for i := range p {
					p[i] = '!' // the buffer is the caller's
				}
				have += s
			} else {
				p := make([]byte, rapid.IntRange(0, 20).Draw(t, "size"))
				m, err := logs.Read(p)
				c.Logf("read %d: %d %v", len(p), m, err)
				if want := min(len(p), len(have)); m != want || string(p[:m]) != have[:m] {
					t.Fatalf("Read returned %q, should %q", p[:m], have[:want])
				}
				if len(p) > 0 && (err != nil) != (have == "") || err != nil && err != io.EOF {
					t.Fatalf("Read of %d of %d: error %v", len(p), len(have), err)
				}
				have = have[m:]
				c.NT(m > 0 && have != "" && p[m-1] != '\n')
			}
			b, is := logs.Contents()
			if string(b) != have {
				t.Fatalf("contents %q, should be %q", b, have)
			}
			if want := eols(have); !sameInts(is, want) {
				t.Fatalf("line ends of %q are %v, should be %v", have, is, want)
			}
		}
	})
}

// dest is a log file the check made.
type dest struct {
	f      *os.File
	name   string
	want   string // what was written while it was set
	synced string // what must be in the file
	upto   string // what may be in the file
	closed bool
	armed  bool // a flush was asked for
}

func (d *dest) content() string {
	b, err := os.ReadFile(d.name)
	if err != nil {
		panic("HX-INFRA " + err.Error())
	}
	return string(b)
}

const fileRule = "random histories of writes, file changes, starting, stopping and notifying; non-trivial = something was written while deferred and then stopped or moved to another file"

// TestFile: what is written while a file is set ends up in that file exactly
// once and in order, deferred only until Notify or Stop.
func TestFile(t *testing.T) {
	dir, err := os.MkdirTemp("", "c24")
	if err != nil {
		panic("HX-INFRA " + err.Error())
	}
	defer os.RemoveAll(dir)
	hx.Check(t, 10000, fileRule, func(t *rapid.T, c *hx.Case) {
		var logs platform.LogSink
		var files []*dest
		var cur *dest
		running := false
		mem := ""
		defer func() {
			hx.Within(func() { logs.Stop() })
			for _, d := range files {
				d.f.Close()
				os.Remove(d.name)
			}
		}()
		do := func(what string, f func() error) {
			var err error
			if stacks, ok := hx.Within(func() { err = f() }); !ok {
				t.Fatalf("%s never returns\n%s", what, stacks)
			}
			if err != nil {
				t.Fatalf("%s: %v", what, err)
			}
		}
		sync := func() { cur.synced, cur.upto, cur.armed = cur.want, cur.want, false }
		for n := rapid.IntRange(1, 15).Draw(t, "n"); n > 0; n-- {
			switch op := rapid.IntRange(0, 11).Draw(t, "op"); op {
			default:
				s := chunk(t)
				c.Logf("write %q", s)
				do("Write", func() error {
					m, err := logs.Write([]byte(s))
					if err == nil && m != len(s) {
						err = fmt.Errorf("wrote %d of %d", m, len(s))
					}
					return err
				})
				mem += s
				if cur != nil {
					cur.want += s
					if !running {
						sync()
					} else if cur.armed {
						cur.upto = cur.want // a flush may still be to come
					}
				}
			case 5, 6:
				var d *dest
				switch rapid.IntRange(0, 3).Draw(t, "to") {
				case 0:
				case 1:
					d = cur
				default:
					name := filepath.Join(dir, fmt.Sprint(len(files)))
					f, err := os.Create(name)
					if err != nil {
						panic("HX-INFRA " + err.Error())
					}
					d = &dest{f: f, name: name}
					files = append(files, d)
				}
				c.Logf("file %v to %v", cur != nil, d != nil)
				var f *os.File
				if d != nil {
					f = d.f
				}
				do("SetFile", func() error { return logs.SetFile(f) })
				if d == cur {
					break
				}
				if cur != nil {
					c.NT(running && cur.want != cur.synced)
					sync()
					cur.closed = true
				}
				cur, running = d, d != nil
			case 7, 8:
				c.Logf("stop")
				do("Stop", logs.Stop)
				if cur != nil {
					c.NT(running && cur.want != cur.synced)
					running = false
					sync()
				}
			case 9:
				c.Logf("start")
				do("Start", logs.Start)
				running = cur != nil
			case 10, 11:
				c.Logf("notify")
				do("Notify", logs.Notify)
				if cur != nil && running {
					cur.armed, cur.upto = true, cur.want
					if rapid.Bool().Draw(t, "await") {
						if !hx.Eventually(func() bool { return cur.content() == cur.want }) {
							t.Fatalf("after Notify the file has %q, should get %q", cur.content(), cur.want)
						}
						cur.synced = cur.want
					}
				}
			}
			for i, d := range files {
				got := d.content()
				if !strings.HasPrefix(got, d.synced) || !strings.HasPrefix(d.upto, got) {
					t.Fatalf("file %d has %q; it was written %q, of which %q should be there by now, and at most %q", i, got, d.want, d.synced, d.upto)
				}
				if d.closed && d.f.Close() == nil {
					t.Fatalf("file %d was not closed", i)
				}
			}
			b, is := logs.Contents()
			if string(b) != mem || !sameInts(is, eols(mem)) {
				t.Fatalf("contents %q %v, should be %q", b, is, mem)
			}
		}
	})
}

const slowRule = "log files on a pipe that is full while the worker flushes, with writes, notifications, stops and file changes meanwhile; non-trivial = the worker was still writing when stopped"

// TestSlow: a file that takes its time delays Stop and SetFile, but loses
// nothing, and blocks neither logging nor notifying.
func TestSlow(t *testing.T) {
	hx.Check(t, 1500, slowRule, func(t *rapid.T, c *hx.Case) {
		var logs platform.LogSink
		r, w, err := os.Pipe()
		if err != nil {
			panic("HX-INFRA " + err.Error())
		}
		defer r.Close()
		defer w.Close()
		if _, _, e := syscall.Syscall(syscall.SYS_FCNTL, w.Fd(), 1031 /* F_SETPIPE_SZ */, 4096); e != 0 {
			panic("HX-INFRA F_SETPIPE_SZ: " + e.Error())
		}
		pending := func() int {
			var n int32
			if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, r.Fd(), 0x541B /* FIONREAD */, uintptr(unsafe.Pointer(&n))); e != 0 {
				panic("HX-INFRA FIONREAD: " + e.Error())
			}
			return int(n)
		}
		do := func(what string, f func()) {
			if stacks, ok := hx.Within(f); !ok {
				t.Fatalf("%s never returns\n%s", what, stacks)
			}
		}
		do("SetFile", func() {
			if err := logs.SetFile(w); err != nil {
				t.Fatalf("SetFile: %v", err)
			}
		})
		var want bytes.Buffer
		write := func(n int) {
			s := strings.Repeat(string(rune('a'+want.Len()%26)), n) + "\n"
			want.WriteString(s)
			do("Write", func() { logs.Write([]byte(s)) })
		}
		size := rapid.OneOf(rapid.IntRange(0, 4000), rapid.IntRange(4096, 10000)).Draw(t, "size")
		write(size)
		do("Notify", func() { logs.Notify() })
		c.Logf("%d written", size)
		busy := size > 4095 && rapid.Bool().Draw(t, "settle")
		if busy && !hx.Eventually(func() bool { return pending() == 4096 }) {
			t.Fatalf("after Notify the file got %d bytes", pending())
		}
		for n := rapid.IntRange(0, 3).Draw(t, "more"); n > 0; n-- {
			if rapid.Bool().Draw(t, "notify") {
				do("Notify", func() { logs.Notify() })
			} else {
				write(rapid.IntRange(0, 100).Draw(t, "bytes"))
			}
			c.Logf("more")
		}
		kind := rapid.IntRange(0, 2).Draw(t, "kind")
		c.Logf("busy %v ending %d", busy, kind)
		c.NT(busy)
		ended := make(chan error, 1)
		go func() {
			switch kind {
			case 0:
				ended <- logs.Stop()
			case 1:
				ended <- logs.SetFile(nil)
			case 2:
				null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
				if err != nil {
					panic("HX-INFRA " + err.Error())
				}
				ended <- logs.SetFile(null)
			}
		}()
		if rapid.Bool().Draw(t, "early") {
			// give it time to get going
			hx.Within(func() {
				for i := 0; i < 50; i++ {
					syscall.Select(0, nil, nil, nil, &syscall.Timeval{Usec: 20})
				}
			})
		}
		var got bytes.Buffer
		var wg sync.WaitGroup
		wg.Add(1)
		go func() { defer wg.Done(); io.Copy(&got, r) }()
		do("ending", func() {
			if err := <-ended; err != nil {
				t.Fatalf("ending: %v", err)
			}
		})
		w.Close()
		do("reading", wg.Wait)
		if got.String() != want.String() {
			t.Fatalf("the file got %d bytes, should %d", got.Len(), want.Len())
		}
		do("Stop", func() { logs.SetFile(nil); logs.Stop() })
	})
}

const concRule = "writers logging at once, through the log package or directly, while the file is changed, started, stopped and notified and the contents looked at; non-trivial = several files"

// TestConcurrent: whoever logs, and whatever happens meanwhile, every line is
// kept once, whole and in order, in memory and in the files.
func TestConcurrent(t *testing.T) {
	dir, err := os.MkdirTemp("", "c24")
	if err != nil {
		panic("HX-INFRA " + err.Error())
	}
	defer os.RemoveAll(dir)
	hx.Check(t, 6000, concRule, func(t *rapid.T, c *hx.Case) {
		var logs platform.LogSink
		var names []string
		next := func() *os.File {
			name := filepath.Join(dir, fmt.Sprint(len(names)))
			f, err := os.Create(name)
			if err != nil {
				panic("HX-INFRA " + err.Error())
			}
			names = append(names, name)
			return f
		}
		if err := logs.SetFile(next()); err != nil {
			t.Fatalf("SetFile: %v", err)
		}
		writers := rapid.IntRange(1, 3).Draw(t, "writers")
		lines := rapid.IntRange(1, 60).Draw(t, "lines")
		ops := rapid.SliceOfN(rapid.IntRange(0, 9), 0, 40).Draw(t, "ops")
		c.Logf("%d writers of %d lines, ops %v", writers, lines, ops)
		var wg sync.WaitGroup
		var lmu sync.Mutex // the log package's
		fails := make(chan string, 100)
		for i := 0; i < writers; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < lines; j++ {
					p := []byte(fmt.Sprintf("w%d line %d\n", i, j))
					lmu.Lock()
					n, err := logs.Write(p)
					lmu.Unlock()
					if n != len(p) || err != nil {
						fails <- fmt.Sprintf("Write returned %d %v", n, err)
						return
					}
				}
			}()
		}
		seen := 0
		stacks, ok := hx.Within(func() {
			for _, op := range ops {
				var err error
				switch op {
				case 0:
					err = logs.SetFile(next())
				case 1:
					err = logs.Stop()
				case 2, 3:
					err = logs.Start()
				case 4, 5, 6:
					err = logs.Notify()
				default:
					b, is := logs.Contents()
					if len(b) < seen || !sameInts(is, eols(string(b))) {
						fails <- fmt.Sprintf("contents %q %v", b, is)
						return
					}
					seen = len(b)
				}
				if err != nil {
					fails <- fmt.Sprintf("operation %d: %v", op, err)
					return
				}
			}
		})
		if !ok {
			t.Fatalf("hangs\n%s", stacks)
		}
		stacks, ok = hx.Within(func() {
			wg.Wait()
			if err := logs.SetFile(nil); err != nil {
				fails <- fmt.Sprintf("SetFile: %v", err)
			}
			if err := logs.Stop(); err != nil {
				fails <- fmt.Sprintf("Stop: %v", err)
			}
		})
		if !ok {
			t.Fatalf("hangs\n%s", stacks)
		}
		select {
		case f := <-fails:
			t.Fatalf("%s", f)
		default:
		}
		c.NT(len(names) > 1)
		b, is := logs.Contents()
		filed := ""
		for _, name := range names {
			b, err := os.ReadFile(name)
			if err != nil {
				panic("HX-INFRA " + err.Error())
			}
			filed += string(b)
			os.Remove(name)
		}
		if filed != string(b) {
			t.Fatalf("files got\n%s\nmemory\n%s", filed, b)
		}
		if !sameInts(is, eols(string(b))) {
			t.Fatalf("line ends %v of %q", is, b)
		}
		at := make([]int, writers)
		for _, l := range strings.SplitAfter(string(b), "\n") {
			if l == "" {
				continue
			}
			var i, j int
			if n, _ := fmt.Sscanf(l, "w%d line %d\n", &i, &j); n != 2 || i < 0 || i >= writers || at[i] != j {
				t.Fatalf("line %q out of place in\n%s", l, b)
			}
			at[i]++
		}
		for i := range at {
			if at[i] != lines {
				t.Fatalf("writer %d: %d of %d lines", i, at[i], lines)
			}
		}
	})
}

const failRule = "log files that cannot be written, with writes, notifications and stops; all are non-trivial"

// TestFailing: a file that cannot be written is reported, not waited for, and
// takes nothing from what is in memory.
func TestFailing(t *testing.T) {
	hx.Check(t, 3000, failRule, func(t *rapid.T, c *hx.Case) {
		c.NT(true)
		var logs platform.LogSink
		f, err := os.OpenFile(os.DevNull, os.O_RDONLY, 0)
		if err != nil {
			panic("HX-INFRA " + err.Error())
		}
		defer f.Close()
		do := func(what string, f func() error) (err error) {
			stacks, ok := hx.Within(func() { err = f() })
			if !ok {
				t.Fatalf("%s never returns\n%s", what, stacks)
			}
			c.Logf("%s: %v", what, err)
			return err
		}
		if err := do("SetFile", func() error { return logs.SetFile(f) }); err != nil {
			t.Fatalf("SetFile: %v", err)
		}
		wrote, reported, mem := false, false, ""
		for n := rapid.IntRange(0, 8).Draw(t, "n"); n > 0; n-- {
			if rapid.Bool().Draw(t, "write") {
				s := chunk(t)
				if err := do("Write", func() error { _, err := logs.Write([]byte(s)); return err }); err != nil {
					t.Fatalf("deferred Write: %v", err)
				}
				wrote = wrote || s != ""
				mem += s
			} else if do("Notify", logs.Notify) != nil {
				reported = true
			}
			if rapid.IntRange(0, 3).Draw(t, "wait") == 0 {
				syscall.Select(0, nil, nil, nil, &syscall.Timeval{Usec: 50})
			}
		}
		if reported && !wrote {
			t.Fatalf("an error was reported though nothing was written")
		}
		if do("Stop", logs.Stop) != nil {
			reported = true
		}
		if wrote != reported {
			t.Fatalf("wrote %v, but error reported: %v", wrote, reported)
		}
		if b, is := logs.Contents(); string(b) != mem || !sameInts(is, eols(mem)) {
			t.Fatalf("contents %q %v, should be %q", b, is, mem)
		}
		do("Stop", logs.Stop)
	})
}

// row is the text of a screen row.
func row(sc *anansi.TermScreen, y int) string {
	var sb strings.Builder
	for x := 0; x < sc.Grid.Rect.Dx(); x++ {
		if r := sc.Grid.Rune[y*sc.Grid.Stride+x]; r == 0 {
			sb.WriteByte(' ')
		} else {
			sb.WriteRune(r)
		}
	}
	return strings.TrimRight(sb.String(), " ")
}

// cut is what of a line fits in a row.
func cut(s string, w int) string {
	if r := []rune(s); len(r) > w {
		return string(r[:w-1]) + "…"
	}
	return s
}

const viewRule = "random logs growing under a log view on screens of changing size, with scrolls, clicks and restored states; non-trivial = more lines than fit, scrolled or resized"

// TestView: the log view shows the logs, on any screen.
func TestView(t *testing.T) {
	p, err := platform.New(nil, nil, platform.Config{})
	if err != nil {
		t.Fatal(err)
	}
	hx.Check(t, 8000, viewRule, func(t *rapid.T, c *hx.Case) {
		var logs platform.LogSink
		lv := platform.NewLogView(&logs)
		var es platform.Events
		var sc anansi.TermScreen
		var lines []string
		w, h := 0, 0
		resize := func() {
			w, h = rapid.IntRange(1, 40).Draw(t, "w"), rapid.IntRange(1, 14).Draw(t, "h")
			sc.Resize(image.Pt(w, h))
		}
		resize()
		add := func() {
			for n := rapid.IntRange(0, 12).Draw(t, "lines"); n > 0; n-- {
				s := fmt.Sprintf("%d%s", len(lines)+1, rapid.StringMatching(`[a-zé]{0,12}`).Draw(t, "text"))
				if rapid.IntRange(0, 5).Draw(t, "fill") == 0 {
					s += strings.Repeat("#", max(0, w-len(s)))
				}
				lines = append(lines, s)
				logs.Write([]byte(s + "\n"))
			}
		}
		following := true
		lastStart := 0
		for n := rapid.IntRange(1, 10).Draw(t, "n"); n > 0; n-- {
			es.Clear()
			op := rapid.IntRange(0, 8).Draw(t, "op")
			expanded := lv.Expanded
			scroll := 0
			switch op {
			case 0, 1, 2:
				add()
			case 3:
				resize()
			case 4:
				lv.Expanded = rapid.Bool().Draw(t, "expand")
				lv.ViewLines = rapid.IntRange(0, 12).Draw(t, "viewLines")
				if lv.Line = rapid.IntRange(0, 20).Draw(t, "line"); lv.Line > 0 {
					following = false
				}
				expanded = lv.Expanded
				c.Logf("restored %+v", lv.LogViewState)
			case 5, 6:
				k := rapid.SampledFrom([]int{1, 2, 100}).Draw(t, "by")
				b := 64
				if scroll = -k; rapid.Bool().Draw(t, "down") {
					b, scroll = 65, k
				}
				// the last row is always the view's
				es.DecodeBytes([]byte(strings.Repeat(fmt.Sprintf("\x1b[<%d;%d;%dM", b, rapid.IntRange(1, w).Draw(t, "x"), h), k)))
				c.Logf("scroll %d", scroll)
			case 7, 8:
				// anywhere
				x, y := rapid.IntRange(1, w).Draw(t, "x"), rapid.IntRange(1, h).Draw(t, "y")
				es.DecodeBytes([]byte(fmt.Sprintf("\x1b[<0;%d;%dM", x, y)))
				vl := min(lv.ViewLines, len(lines), h-1)
				if lv.ViewLines == 0 {
					vl = min(10, len(lines), h-1)
				}
				top := h
				if lv.Expanded && vl > 0 {
					top = h - vl
				}
				if y == top {
					expanded = !expanded
				}
				c.Logf("press at %d,%d", x, y)
			}
			if scroll < 0 {
				following = false
			}
			shown := len(lines) > 0
			sc.Clear()
			if err := lv.Update(&platform.Context{Platform: p, Input: &es, Output: &sc}); err != nil {
				t.Fatalf("Update: %v", err)
			}
			c.Logf("%d lines on %dx%d: %+v", len(lines), w, h, lv.LogViewState)
			var got []string
			for y := 0; y < h; y++ {
				got = append(got, row(&sc, y))
			}
			if !shown {
				if s := strings.Join(got, ""); s != "" {
					t.Fatalf("no logs, but shows %q", s)
				}
				continue
			}
			if lv.Expanded != expanded {
				t.Fatalf("expanded %v, should be %v", lv.Expanded, expanded)
			}
			vl := 1
			if lv.Expanded {
				vl = max(1, min(lv.ViewLines, len(lines), h-1))
			}
			// which lines?
			last := 0
			for i, l := range lines {
				if cut(l, w) == got[h-1] {
					last = i + 1
				}
			}
			if following && cut(lines[len(lines)-1], w) != got[h-1] {
				t.Fatalf("the last row is %q, should be the last line %q", got[h-1], lines[len(lines)-1])
			}
			var want []string
			ok := false
			for e := vl; e <= len(lines); e++ {
				want = nil
				for y := 0; y < h; y++ {
					want = append(want, "")
				}
				for i := 0; i < vl; i++ {
					want[h-vl+i] = cut(lines[e-vl+i], w)
				}
				if lv.Expanded && h > 1 {
					want[h-vl-1] = cut(fmt.Sprintf("Logs (%d-%d/%d):", e-vl+1, e, len(lines)), w)
				}
				if strings.Join(want, "\n") == strings.Join(got, "\n") {
					ok = true
					last = e
					if !following || e == len(lines) {
						break
					}
				}
			}
			if !ok {
				t.Fatalf("shows\n%s\nlogs are\n%s", strings.Join(got, "\n"), strings.Join(lines, "\n"))
			}
			start := last - vl + 1
			switch {
			case scroll <= -100 && start != 1 && cut(lines[0], w) != got[h-vl]:
				t.Fatalf("scrolled all the way up, but starts at line %d", start)
			case scroll >= 100 && last != len(lines) && cut(lines[len(lines)-1], w) != got[h-1]:
				t.Fatalf("scrolled all the way down, but ends at line %d of %d", last, len(lines))
			}
			if scroll < 0 && w > 4 && start > lastStart && lastStart > 0 && op > 4 && op < 7 {
				t.Fatalf("scrolled up, but went from line %d to %d", lastStart, start)
			}
			lastStart = start
			c.NT(len(lines) > vl && (scroll != 0 || op == 3))
		}
	})
}
