package c32

import (
	"bytes"
	"fmt"
	"image"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/jcorbin/anansi/ansi"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
	"verif/pipes"
	"verif/plat"
	"verif/pty"
	"verif/ref"
	"verif/vt"
)

func TestMain(m *testing.M) { hx.Main(m) }

func size(t *rapid.T) (w, h int) {
	if rapid.IntRange(0, 4).Draw(t, "small") == 0 {
		return rapid.IntRange(1, 12).Draw(t, "w"), rapid.IntRange(1, 5).Draw(t, "h")
	}
	return rapid.IntRange(1, 140).Draw(t, "w"), rapid.IntRange(1, 60).Draw(t, "h")
}

// keys generates input to a program, some of it for the platform.
func keys(t *rapid.T, w, h int) (all []byte) {
	for n := rapid.IntRange(1, 12).Draw(t, "keys"); n > 0; n-- {
		var p []byte
		switch rapid.IntRange(0, 9).Draw(t, "key") {
		case 0:
			p = []byte{0x0b} // the HUD
		case 1:
			p = []byte(rapid.SampledFrom([]string{"\x0c", "\r", "\x1b", "\x7f", "\x01", "\x05", "\x04", "\x15", "\x17", ".", " "}).Draw(t, "control"))
		case 2, 3, 4:
			x, y := rapid.IntRange(1, w).Draw(t, "x"), rapid.IntRange(1, h).Draw(t, "y")
			if rapid.Bool().Draw(t, "top") {
				y = 1
			}
			p = []byte(fmt.Sprintf("\x1b[<0;%d;%dM\x1b[<0;%d;%dm", x, y, x, y))
		case 5:
			p = []byte(fmt.Sprintf("\x1b[<%d;%d;%dM", rapid.IntRange(64, 65).Draw(t, "wheel"), rapid.IntRange(1, w).Draw(t, "x"), rapid.IntRange(1, h).Draw(t, "y")))
		default:
			p = plat.Token(t)
		}
		all = append(all, p...)
	}
	return all
}

const progRule = "demo, lolwut -i and interact on terminals of all sizes, with random keys, mouse, HUD use, suspensions and resizes, ended by Ctrl-C or a signal; non-trivial = resized and given input"

// TestPrograms: the interactive programs keep running whatever is done to
// them, end when told to, and leave the terminal as it was.
func TestPrograms(t *testing.T) {
	hx.Check(t, 120, progRule, func(t *rapid.T, c *hx.Case) {
		w, h := size(t)
		name := rapid.SampledFrom([]string{"demo", "lolwut", "interact"}).Draw(t, "program")
		var args []string
		switch name {
		case "lolwut":
			args = append(args, "-i")
		case "interact":
			for n := rapid.IntRange(0, 4).Draw(t, "args"); n > 0; n-- {
				args = append(args, rapid.SampledFrom([]string{"$x", "$", "$long_name", "some", "\\$x", "\u4e16", strings.Repeat("wide", 30)}).Draw(t, "arg"))
			}
			if len(args) > 0 || rapid.Bool().Draw(t, "run") {
				args = append([]string{rapid.SampledFrom([]string{"echo", "false", "no-such-command"}).Draw(t, "cmd")}, args...)
			}
		}
		c.Logf("%s %q on %dx%d", name, args, w, h)
		p := start(t, w, h, func(a *syscall.Termios) {
			if rapid.Bool().Draw(t, "cooked") {
				a.Lflag |= syscall.ICANON | syscall.ECHO
				a.Iflag |= syscall.ICRNL
				a.Oflag |= syscall.OPOST | syscall.ONLCR
			}
		}, nil, name, args...)
		defer p.close()
		p.up(t)
		resized, typed, zs := false, false, false
		// a session of its own is never stopped, but waits all the same
		go func() {
			for !p.ended() {
				_ = p.cmd.Process.Signal(syscall.SIGCONT)
				time.Sleep(3 * time.Millisecond)
			}
		}()
		for n := rapid.IntRange(0, 8).Draw(t, "steps"); n > 0; n-- {
			p.alive(t)
			switch op := rapid.IntRange(0, 9).Draw(t, "step"); {
			case op < 3:
				w, h = size(t)
				c.Logf("resize to %dx%d", w, h)
				p.resize(w, h)
				resized = true
			case op == 3:
				c.Logf("suspend")
				zs = true
				p.input([]byte{0x1a})
			case op == 4:
				n := rapid.IntRange(0, 60).Draw(t, "ms")
				time.Sleep(time.Duration(n) * time.Millisecond)
			default:
				k := keys(t, w, h)
				c.Logf("type %q", k)
				p.input(k)
				typed = true
			}
		}
		p.alive(t)
		c.NT(resized && typed)
		c.Label(name)
		if name == "demo" && !typed && !zs {
			p.sees(t, "pattern", func(term *vt.Term) error { return pattern(term) })
		}
		sig := rapid.SampledFrom([]syscall.Signal{0, 0, syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP}).Draw(t, "signal")
		c.Logf("end by %v", sig)
		if sig != 0 {
			_ = p.cmd.Process.Signal(sig)
		}
		ws := p.end(t, func() {
			if sig == 0 {
				p.input([]byte{0x03})
			}
		})
		want := 0
		switch {
		case sig != 0:
			want = 128 + int(sig)
		case name == "lolwut":
			want = 1
		}
		if !ws.Exited() || ws.ExitStatus() != want {
			t.Fatalf("%s: status %#x, should be exit status %d\n%s", name, ws, want, p.errs.Bytes())
		}
		p.restored(t)
	})
}

const suspendRule = "demo, lolwut -i and interact suspended by Ctrl-Z among typing and resizes, some while suspended; non-trivial = suspended twice, or resized while suspended"

// TestSuspend: Ctrl-Z gives the terminal back as it was, and stays that way
// until the program is continued, which then is as before.
func TestSuspend(t *testing.T) {
	hx.Check(t, 60, suspendRule, func(t *rapid.T, c *hx.Case) {
		w, h := size(t)
		name := rapid.SampledFrom([]string{"demo", "lolwut", "interact"}).Draw(t, "program")
		args := map[string][]string{"lolwut": {"-i"}, "interact": {"echo", "$v", "words"}}[name]
		c.Logf("%s %q on %dx%d", name, args, w, h)
		p := start(t, w, h, func(a *syscall.Termios) {
			if rapid.Bool().Draw(t, "cooked") {
				a.Lflag |= syscall.ICANON | syscall.ECHO
				a.Iflag |= syscall.ICRNL
				a.Oflag |= syscall.OPOST | syscall.ONLCR
			}
		}, nil, name, args...)
		defer p.close()
		p.up(t)
		zs := 0
		state := func() (draws, ins, outs int) {
			p.mu.Lock()
			defer p.mu.Unlock()
			return p.draws, p.ins, p.outs
		}
		for n := rapid.IntRange(1, 5).Draw(t, "steps"); n > 0; n-- {
			switch op := rapid.IntRange(0, 5).Draw(t, "step"); op {
			case 0:
				w, h = size(t)
				c.Logf("resize to %dx%d", w, h)
				p.resize(w, h)
			case 1:
				k := rapid.StringMatching(`[a-z ]{1,5}`).Draw(t, "keys")
				c.Logf("type %q", k)
				p.input([]byte(k))
			default:
				k := rapid.StringMatching(`[a-z]{0,2}\x1a{1,2}[a-z]{0,2}`).Draw(t, "keys")
				c.Logf("suspend by %q", k)
				draws, ins, outs := state()
				p.input([]byte(k))
				p.sees(t, "suspended", func(*vt.Term) error {
					if p.outs == outs {
						return fmt.Errorf("alternate screen not left")
					}
					return nil
				})
				p.asWas(t)
				if zs++; zs > 1 {
					c.NT(true)
				}
				if rapid.Bool().Draw(t, "idle") {
					time.Sleep(time.Duration(rapid.IntRange(0, 40).Draw(t, "ms")) * time.Millisecond)
				}
				if rapid.Bool().Draw(t, "resize") {
					w, h = size(t)
					c.Logf("resize to %dx%d", w, h)
					p.resize(w, h)
					c.NT(true)
				}
				if _, i, o := state(); i != ins || o != outs+1 {
					t.Fatalf("%s: entered %d and left %d times while suspended", name, i-ins, o-outs)
				}
				p.asWas(t)
				c.Logf("continue")
				p.sees(t, "continued", func(*vt.Term) error {
					_ = p.cmd.Process.Signal(syscall.SIGCONT)
					if p.ins == ins {
						return fmt.Errorf("alternate screen not entered")
					}
					return nil
				})
				p.upAfter(t, draws)
				if _, i, o := state(); i != ins+1 || o != outs+1 {
					t.Fatalf("%s: entered %d and left %d times by one suspension", name, i-ins, o-outs)
				}
			}
			if name == "demo" && rapid.Bool().Draw(t, "look") {
				p.sees(t, "pattern", pattern)
			}
		}
		p.alive(t)
		if name == "demo" {
			p.sees(t, "pattern", pattern)
		}
		c.Label(name)
		ws := p.end(t, func() { p.input([]byte{0x03}) })
		want := 0
		if name == "lolwut" {
			want = 1
		}
		if !ws.Exited() || ws.ExitStatus() != want {
			t.Fatalf("%s: status %#x, should be exit status %d\n%s", name, ws, want, p.errs.Bytes())
		}
		p.restored(t)
	})
}

const replayRule = "demo recording itself with Ctrl-R for some frames, with keys and a HUD in them, and replaying that over and over until Ctrl-C; non-trivial = keys typed in the recording"

// TestReplay: the demo replays what was recorded over and over, and is live
// after Ctrl-C.
func TestReplay(t *testing.T) {
	hx.Check(t, 16, replayRule, func(t *rapid.T, c *hx.Case) {
		w, h := rapid.IntRange(60, 140).Draw(t, "w"), rapid.IntRange(12, 60).Draw(t, "h")
		c.Logf("%dx%d", w, h)
		p := start(t, w, h, nil, nil, "demo")
		defer p.close()
		p.up(t)
		// show what is replayed, by the HUD's time panel
		row := func(term *vt.Term, what string) string {
			for y := 1; y <= term.H; y++ {
				line := ""
				for x := 1; x <= term.W; x++ {
					line += string(term.At(x, y).R)
				}
				if i := strings.Index(line, what); i >= 0 {
					return strings.TrimSpace(line[i+len(what):])
				}
			}
			return ""
		}
		p.input([]byte{0x0b})
		p.sees(t, "HUD", func(term *vt.Term) error {
			if row(term, "FPS:") == "" {
				return fmt.Errorf("no HUD")
			}
			return nil
		})
		p.input([]byte(fmt.Sprintf("\x1b[<0;%d;1M\x1b[<0;%d;1m", w-3, w-3)))
		p.sees(t, "panel", func(term *vt.Term) error {
			if row(term, "recording ") == "" {
				return fmt.Errorf("no record control")
			}
			return nil
		})
		p.input([]byte{0x12})
		p.sees(t, "recording", func(*vt.Term) error {
			fi, err := os.Stat(filepath.Join(p.dir, "auto.rec"))
			if err == nil && fi.Size() <= 8 {
				err = fmt.Errorf("empty")
			}
			return err
		})
		for n := rapid.IntRange(0, 3).Draw(t, "n"); n > 0; n-- {
			k := rapid.StringMatching(`[a-z]{1,3}`).Draw(t, "keys")
			c.Logf("type %q", k)
			c.NT(true)
			p.input([]byte(k))
			time.Sleep(time.Duration(rapid.IntRange(0, 40).Draw(t, "ms")) * time.Millisecond)
		}
		clicked := image.Pt(rapid.IntRange(1, 20).Draw(t, "x"), rapid.IntRange(3, h-2).Draw(t, "y"))
		p.input([]byte(fmt.Sprintf("\x1b[<0;%d;%dM", clicked.X, clicked.Y)))
		time.Sleep(time.Duration(rapid.IntRange(30, 120).Draw(t, "last")) * time.Millisecond)
		p.input([]byte{0x12})
		last, loops, of, crossed := 0, 0, 0, false
		p.sees(t, "replays", func(term *vt.Term) error {
			crossed = crossed || term.At(clicked.X, clicked.Y).R == 'X'
			var i, n int
			if _, err := fmt.Sscanf(row(term, "replaying "), "%d/%d", &i, &n); err != nil || i > n {
				return fmt.Errorf("no progress of it shown")
			}
			if i < last {
				loops++
			}
			if last = i; of == 0 {
				of = n
			}
			switch {
			case n != of:
				return fmt.Errorf("of %d frames, not %d", n, of)
			case loops < 3:
				return fmt.Errorf("was only repeated %d times", loops)
			case !crossed:
				return fmt.Errorf("no X where the mouse was pressed, at %v", clicked)
			}
			return nil
		})
		p.alive(t)
		p.input([]byte{0x03})
		p.sees(t, "live", func(term *vt.Term) error {
			if row(term, "recording ") == "" {
				return fmt.Errorf("still replaying")
			}
			return nil
		})
		ws := p.end(t, func() { p.input([]byte{0x03}) })
		if !ws.Exited() || ws.ExitStatus() != 0 {
			t.Fatalf("status %#x\n%s", ws, p.errs.Bytes())
		}
		p.restored(t)
	})
}

// pattern is the demo's test pattern.
func pattern(term *vt.Term) error {
	for y := 1; y <= term.H; y++ {
		for x := 1; x <= term.W; x++ {
			c := term.At(x, y)
			if y%16 != 0 {
				want := vt.Cell{R: ' ', A: vt.Attr{BG: vt.RGB(0, uint8(x), uint8(y))}}
				if c != want {
					return fmt.Errorf("%d,%d is %q %v, should be %v", x, y, c.R, c.A, want.A)
				}
			} else if c.R < '0' || c.R > '9' {
				return fmt.Errorf("%d,%d is %q", x, y, c.R)
			}
		}
	}
	return nil
}

const patternRule = "demo on terminals of all sizes after series of resizes; non-trivial = at least one resize"

// TestDemo: the demo shows its test pattern on all of the terminal.
func TestDemo(t *testing.T) {
	hx.Check(t, 40, patternRule, func(t *rapid.T, c *hx.Case) {
		w, h := size(t)
		p := start(t, w, h, nil, nil, "demo")
		defer p.close()
		p.up(t)
		c.Logf("%dx%d", w, h)
		p.sees(t, "pattern", pattern)
		for n := rapid.IntRange(0, 6).Draw(t, "n"); n > 0; n-- {
			w, h = size(t)
			c.Logf("resize to %dx%d", w, h)
			p.resize(w, h)
			c.NT(true)
			if rapid.Bool().Draw(t, "look") {
				p.sees(t, "pattern", pattern)
			}
		}
		p.sees(t, "pattern", pattern)
	})
}

const lolwutRule = "lolwut with arguments from small to large, and lolwut -i on terminals of all sizes, resized and zoomed; non-trivial = more than one row of squares, or a resize"

// TestLolwut: the drawing has the size asked for, its first row of squares in
// place; interactively, it fills the terminal.
func TestLolwut(t *testing.T) {
	hx.Check(t, 150, lolwutRule, func(t *rapid.T, c *hx.Case) {
		if rapid.IntRange(0, 4).Draw(t, "batch") > 1 {
			lolwut(t, c)
			return
		}
		w, h := size(t)
		c.Logf("%dx%d", w, h)
		p := start(t, w, h, nil, nil, "lolwut", "-i")
		defer p.close()
		p.up(t)
		side := 20
		filled := func(term *vt.Term) error {
			cw, ch := max(side, 12), (max(side, 12)+1)/2 // two squares
			for y := 1; y+ch-1 <= term.H; y++ {
			next:
				for x := 1; x+cw-1 <= term.W; x++ {
					for yy := y; yy < y+ch; yy++ {
						for xx := x; xx < x+cw; xx++ {
							if r := term.At(xx, yy).R; r > 0x2800 && r <= 0x28FF {
								continue next
							}
						}
					}
					return fmt.Errorf("nothing shown in %dx%d cells at %d,%d", cw, ch, x, y)
				}
			}
			return firstRow(term, side)
		}
		p.sees(t, "drawing", filled)
		for n := rapid.IntRange(0, 5).Draw(t, "n"); n > 0; n-- {
			switch rapid.IntRange(0, 3).Draw(t, "op") / 2 * rapid.IntRange(1, 2).Draw(t, "size") {
			case 0:
				// with squares of one dot each, all of the first row is dots
				d := rapid.SampledFrom([]int{-30, -19, -5, -1, 1, 4, 30, 60}).Draw(t, "wheel")
				if side+d < 1 && n > 1 {
					// too far only in the end: with more to come, what is
					// left of that depends on how it is read
					if d = 1 - side; d == 0 {
						d = 7
					}
				}
				c.Logf("wheel %d", d)
				b := 65
				if d < 0 {
					b = 64
				}
				for i := 0; i < max(d, -d); i++ {
					p.input([]byte(fmt.Sprintf("\x1b[<%d;1;1M", b)))
				}
				side = max(1, side+d)
				if n == 1 || rapid.Bool().Draw(t, "wait") {
					time.Sleep(120 * time.Millisecond) // not to look at what was shown before
					p.sees(t, "zoomed", filled)
				}
			case 1:
				h = rapid.IntRange(1, 60).Draw(t, "h")
				c.Logf("resize to %dx%d", w, h)
				p.resize(w, h)
				c.NT(true)
			default:
				w, h = size(t)
				c.Logf("resize to %dx%d", w, h)
				p.resize(w, h)
				c.NT(true)
			}
			if rapid.Bool().Draw(t, "look") {
				p.sees(t, "drawing", filled)
			}
		}
		p.sees(t, "drawing", filled)
		// the squares turn, leaving nothing behind
		if n, whole := squares(w, h, side); side >= 16 && whole && rapid.IntRange(0, 2).Draw(t, "watch") == 0 {
			c.Label("watched")
			var before string
			p.sees(t, "drawing", func(term *vt.Term) error {
				err := filled(term)
				before = upper(term, side)
				return err
			})
			p.sees(t, "turned", func(term *vt.Term) error {
				if upper(term, side) == before {
					return fmt.Errorf("squares of %d don't turn", side)
				}
				return filled(term)
			})
			time.Sleep(500 * time.Millisecond)
			p.sees(t, "outlines", func(term *vt.Term) error {
				if dots := strings.Count(upper(term, side), "#"); dots > n*(side*5/2+8) {
					return fmt.Errorf("%d dots for the upper parts of %d squares of %d", dots, n, side)
				}
				return filled(term)
			})
		}
	})
}

// squares returns how many squares the first row has, and whether the upper
// part of at least one is shown.
func squares(w, h, side int) (int, bool) {
	pad := 0
	if w > 2 {
		pad = 2
	}
	return ((w-pad)*2 + side - 1) / side, h > pad && 2*w >= pad+side+side/4 && 4*h-1 >= pad+side*9/20-3
}

// upper returns the dots in the upper part of the first row of squares.
func upper(term *vt.Term, side int) string {
	pad := 0
	if term.W > 2 {
		pad = 2
	}
	top := min(4*term.H-1, pad+side*9/20-3)
	var sb strings.Builder
	for y := 0; y <= top; y++ {
		for x := 0; x < 2*term.W; x++ {
			r := term.At(x/2+1, y/4+1).R
			bit := []rune{1, 8, 2, 16, 4, 32, 64, 128}[y%4*2+x%2]
			if r > 0x2800 && r <= 0x28FF && r&bit != 0 {
				sb.WriteByte('#')
			} else {
				sb.WriteByte(' ')
			}
		}
	}
	return sb.String()
}

// firstRow checks the upper part of the first row of squares, which turn in
// place, and which those below don't reach up to.
func firstRow(term *vt.Term, side int) error {
	pad := 0
	if term.W > 2 {
		pad = 2
	}
	if side == 1 {
		for y := 1; y <= term.H-pad; y++ {
			for x := 1 + pad; x <= term.W-pad; x++ {
				if r := term.At(x, y).R; r <= 0x2800 {
					return fmt.Errorf("%d,%d is %q with squares of one dot", x, y, r)
				}
			}
		}
	}
	if side < 8 {
		return nil
	}
	f := math.Round(float64(side) / math.Sqrt2)
	lo, hi := f/math.Sqrt2-1.5, f+1.5
	top := min(4*term.H-1, pad+side*9/20-3)
	if (term.H-pad)*4+side-1 < side {
		top = -1 // no rows at all
	}
	n := ((term.W-pad)*2 + side - 1) / side
	has := make([]bool, n+1)
	cy := side/2 + pad
	for y := 0; y <= top; y++ {
		for x := 0; x < 2*term.W; x++ {
			r := term.At(x/2+1, y/4+1).R
			bit := []rune{1, 8, 2, 16, 4, 32, 64, 128}[y%4*2+x%2]
			if r < 0x2800 || r > 0x28FF || r&bit == 0 {
				continue
			}
			ok := false
			for i := 0; i < n; i++ {
				d := math.Hypot(float64(x-(i*side+side/2+pad)), float64(y-cy))
				if d >= lo && d <= hi {
					ok, has[i] = true, true
				}
			}
			if !ok {
				return fmt.Errorf("dot %d,%d belongs to no square of %d in the first row of %d", x, y, side, n)
			}
		}
	}
	for i := 0; i < n && top >= pad+2; i++ {
		if x := i*side + side/2 + pad; float64(x)+hi < float64(2*term.W) && float64(x) > hi && !has[i] {
			return fmt.Errorf("square %d of %d, of %d dots, isn't there", i, n, side)
		}
	}
	return nil
}

func output(t *rapid.T, name string, args ...string) (string, int) {
	cmd := exec.Command(filepath.Join(os.Getenv("HX_BIN"), name), args...)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if err := cmd.Start(); err != nil {
		panic("HX-INFRA start: " + err.Error())
	}
	if _, ok := hx.Within(func() { _ = cmd.Wait() }); !ok {
		_ = cmd.Process.Kill()
		t.Fatalf("%s %v does not end", name, args)
	}
	if strings.Contains(errs.String(), "goroutine ") {
		t.Fatalf("%s %v: %s", name, args, errs.Bytes())
	}
	return out.String(), cmd.ProcessState.ExitCode()
}

func lolwut(t *rapid.T, c *hx.Case) {
	val := []int{60, 8, 12}
	var args []string
	bad := false
	for i := 0; i < rapid.IntRange(0, 3).Draw(t, "args"); i++ {
		s := ""
		switch rapid.IntRange(0, 9).Draw(t, "arg") {
		case 0:
			s = ""
		case 1:
			s = rapid.SampledFrom([]string{"x", "1.5", "0x", "-", "--"}).Draw(t, "bad")
			bad = bad || !strings.HasPrefix(s, "-")
			if s[0] == '-' {
				s = "7"
				val[i] = 7
			}
		case 2:
			val[i] = 1
			s = rapid.SampledFrom([]string{"0", "1"}).Draw(t, "least")
		default:
			val[i] = rapid.IntRange(1, []int{160, 40, 40}[i]).Draw(t, "n")
			s = fmt.Sprint(val[i])
		}
		args = append(args, s)
	}
	c.Logf("%q", args)
	out, code := output(t, "lolwut", args...)
	if bad {
		if code != 1 || out != "" {
			t.Fatalf("%q: status %d, %d bytes", args, code, len(out))
		}
		c.Label("bad")
		return
	}
	if again, _ := output(t, "lolwut", args...); code != 0 || again != out {
		t.Fatalf("%q: status %d, the same again: %v", args, code, again == out)
	}
	cols, per, rows := val[0], val[1], val[2]
	pad := 0
	if cols > 2 {
		pad = 2
	}
	side := (2*cols - 2*pad) / per
	height := side*rows + 2*pad
	c.NT(rows > 1 && side > 2)
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	if height == 0 {
		lines = nil
	}
	if len(lines) != (height+3)/4 {
		t.Fatalf("%q: %d lines, should be %d", args, len(lines), (height+3)/4)
	}
	bits := map[image.Point]bool{}
	for y, line := range lines {
		n := 0
		for _, r := range strings.TrimSuffix(line, "\r") {
			if r != ' ' && (r < 0x2800 || r > 0x28FF) {
				t.Fatalf("%q: %q in line %d", args, r, y)
			}
			for i := 0; r != ' ' && i < 8; i++ {
				if r&(1<<i) != 0 {
					bits[image.Pt(2*n+[]int{0, 0, 0, 1, 1, 1, 0, 1}[i], 4*y+[]int{0, 1, 2, 0, 1, 2, 3, 3}[i])] = true
				}
			}
			n++
		}
		if n != cols {
			t.Fatalf("%q: line %d has %d columns, should have %d", args, y, n, cols)
		}
	}
	half := int(math.Round(math.Sin(math.Pi/4) * math.Round(float64(side)/math.Sqrt2)))
	for i := 0; i < per; i++ {
		mid := image.Pt(i*side+side/2+pad, side/2+pad)
		for d := -half; d <= half; d++ {
			for _, pt := range []image.Point{{d, half}, {d, -half}, {half, d}, {-half, d}} {
				if pt = mid.Add(pt); pt.In(image.Rect(0, 0, 2*cols, height)) && !bits[pt] {
					t.Fatalf("%q: square %d lacks dot %v\n%s", args, i, pt, out)
				}
			}
		}
	}
}

const interactRule = "interact with commands of words and variables, which are clicked on, given values and given them again, with resizes; non-trivial = all of several variables defined"

// TestInteract: values typed for the variables are what the command shown was
// run with, once all are defined.
func TestInteract(t *testing.T) {
	script := "#!/bin/sh\necho x >> runs\necho \"$@\"\n"
	if err := os.WriteFile(filepath.Join(os.TempDir(), "counts"), []byte(script), 0o755); err != nil {
		panic("HX-INFRA " + err.Error())
	}
	script = "#!/bin/sh\ni=0\nwhile [ $i -lt 30 ]; do printf '%s\\r\\n' \"$i $*\"; i=$((i+1)); done\n"
	if err := os.WriteFile(filepath.Join(os.TempDir(), "lines"), []byte(script), 0o755); err != nil {
		panic("HX-INFRA " + err.Error())
	}
	hx.Check(t, 80, interactRule, func(t *rapid.T, c *hx.Case) {
		type word struct {
			s   string
			v   bool
			val string
		}
		words := []word{{s: rapid.SampledFrom([]string{"echo", "../counts", "../counts", "../lines", "../lines", "false", "no-such-command"}).Draw(t, "cmd")}}
		vars := 0
		args := []string{words[0].s}
		for n := rapid.IntRange(1, 4).Draw(t, "words"); n > 0; n-- {
			s := rapid.SampledFrom([]string{"plain", "-x", "$v", "$name", "$four", "$w", "\\$lit"}).Draw(t, "word")
			wd := word{s: s, v: s[0] == '$'}
			if s[0] == '\\' {
				wd.s = s[1:]
			}
			if wd.v {
				vars++
			}
			words = append(words, wd)
			args = append(args, s)
		}
		w, h := rapid.IntRange(100, 140).Draw(t, "w"), rapid.IntRange(5, 20).Draw(t, "h")
		c.Logf("%q on %dx%d", args, w, h)
		p := start(t, w, h, nil, nil, "interact", args...)
		defer p.close()
		runs := filepath.Join(p.dir, "runs")
		p.up(t)
		row := func(term *vt.Term, y int) string {
			s := ""
			for x := 1; x <= term.W; x++ {
				s += string(term.At(x, y).R)
			}
			return strings.TrimRight(s, " ")
		}
		at := func(i int) int { // column of a word
			x := 1
			for _, wd := range words[:i] {
				x += len(wd.s) + 1
				if wd.val != "" {
					x += 1 + len(wd.val)
				}
			}
			return x
		}
		top := 1 // row of the command, below the HUD
		shown := func(what string) {
			p.sees(t, what, func(term *vt.Term) error {
				last := term.H - 1
				line := words[0].s
				ran := []string{words[0].s}
				undef := false
				for _, wd := range words[1:] {
					line += " " + wd.s
					arg := wd.s
					if wd.v {
						undef = undef || wd.val == ""
						arg = wd.val
						if wd.val != "" {
							line += "=" + wd.val
						}
					}
					ran = append(ran, arg)
				}
				want := []string{line}
				switch {
				case undef:
					want = append(want, "Define variables to run")
				case ran[0] == "echo", ran[0] == "../counts":
					want = append(want, "status: exit status 0", strings.TrimRight(strings.Join(ran[1:], " "), " "))
				case ran[0] == "../lines":
					want = append(want, "status: exit status 0")
					for i := 0; i < 30; i++ {
						want = append(want, strings.TrimRight(fmt.Sprint(i, " ", strings.Join(ran[1:], " ")), " "))
					}
					last-- // it need not scroll
				case ran[0] == "false":
					want = append(want, "status: exit status 1", "error: exit status 1")
				default:
					want = append(want, "status: <nil>", "error: exec: \"no-such-command\": executable file not found in $PATH")
				}
				for y, s := range want {
					if y += top; y > last {
						break
					}
					if got := row(term, y); got != s {
						return fmt.Errorf("row %d is %q, should be %q", y, got, s)
					}
				}
				if hud := row(term, 1); top == 2 && hud == words[0].s {
					return fmt.Errorf("no HUD")
				}
				return nil
			})
		}
		click := func(x int) {
			p.input([]byte(fmt.Sprintf("\x1b[<0;%d;%dM\x1b[<0;%d;%dm", x, top, x, top)))
		}
		editing := func() {
			p.sees(t, "editing", func(term *vt.Term) error {
				if !term.Visible {
					return fmt.Errorf("no cursor")
				}
				return nil
			})
		}
		shown("start")
		for n := rapid.IntRange(0, 10).Draw(t, "n"); n > 0; n-- {
			i := rapid.IntRange(1, len(words)-1).Draw(t, "i")
			for j := 1; j < len(words) && !words[i].v; j++ {
				i = i%(len(words)-1) + 1 // a variable, if there is one
			}
			for j := 1; j < len(words) && words[i].val != "" && n%2 == 0; j++ {
				i = i%(len(words)-1) + 1
			}
			switch {
			case rapid.IntRange(0, 5).Draw(t, "hud") == 0:
				c.Logf("HUD")
				top = 3 - top
				p.input([]byte{0x0b})
			case rapid.IntRange(0, 4).Draw(t, "resize") == 0:
				w, h = rapid.IntRange(100, 140).Draw(t, "w"), rapid.IntRange(5, 20).Draw(t, "h")
				c.Logf("resize to %dx%d", w, h)
				p.resize(w, h)
			case words[i].v && len(words[i].val) < 12:
				s := rapid.StringMatching(`[a-z0-9!][a-z0-9 !-]{0,4}[a-z0-9!-]`).Draw(t, "val")
				c.Logf("set %d to %q + %q", i, s, words[i].val)
				x := at(i) + rapid.IntRange(0, len(words[i].s)-1).Draw(t, "x")
				click(x)
				switch rapid.IntRange(0, 5).Draw(t, "how") {
				case 0: // changed one's mind
					c.Logf("no")
					editing()
					p.input([]byte(s))
					if rapid.Bool().Draw(t, "away") {
						click(x)
					} else {
						p.input([]byte("\x1b"))
					}
					p.sees(t, "no longer editing", func(term *vt.Term) error {
						if term.Visible {
							return fmt.Errorf("cursor shown")
						}
						return nil
					})
					shown("canceled")
					continue
				case 1, 2:
					editing()
				}
				p.input([]byte(s + "\r"))
				words[i].val = s + words[i].val
			default:
				click(at(0))
			}
			shown("step")
		}
		if words[0].s == "../lines" {
			for _, h := range rapid.SliceOfN(rapid.IntRange(5, 30), 2, 2).Draw(t, "heights") {
				c.Logf("resize to %dx%d", w, h)
				p.resize(w, h)
				shown("output on another height")
			}
		}
		all, defined := vars > 1, true
		for _, wd := range words {
			defined = defined && (!wd.v || wd.val != "")
		}
		all = all && defined
		if words[0].s == "../counts" && defined {
			// having run for the last change, it does not go on being run
			count := func() int {
				b, _ := os.ReadFile(runs)
				return len(b)
			}
			if !hx.Eventually(func() bool {
				n := count()
				time.Sleep(100 * time.Millisecond)
				return n > 0 && n == count()
			}) {
				t.Fatalf("command run %d times, and on", count())
			}
			c.Label("counted")
		}
		c.NT(all)
		p.input([]byte{0x03})
		if ws := p.end(t, nil); !ws.Exited() || ws.ExitStatus() != 0 {
			t.Fatalf("status %#x\n%s", ws, p.errs.Bytes())
		}
		p.restored(t)
	})
}

const paletteRule = "every color model with and without themes; all are non-trivial"

// TestPalette: every color is shown, in the model asked for, both ways, with
// the sequence that was used.
func TestPalette(t *testing.T) {
	models := map[string]ansi.ColorModel{"": ansi.ColorModelID, "id": ansi.ColorModelID, "3": ansi.Palette3, "4": ansi.Palette4,
		"8": ansi.Palette8, "24": ansi.ColorModel24, "canon": ansi.SGRColorCanon, "bad": nil}
	themes := []ansi.Palette{ansi.Palette(ansi.VGAPalette), ansi.Palette(ansi.CMDPalette), ansi.Palette(ansi.TermnialAppPalette),
		ansi.Palette(ansi.PuTTYPalette), ansi.Palette(ansi.MIRCPalette), ansi.Palette(ansi.XTermPalette), ansi.Palette(ansi.XPalette), ansi.Palette(ansi.UbuntuPalette)}
	run := func(args ...string) ([]byte, error) {
		return exec.Command(filepath.Join(os.Getenv("HX_BIN"), "palette"), args...).Output()
	}
	hx.Each(t, paletteRule, true, func(check func(func(c *hx.Case) error)) {
		for name, model := range models {
			for _, themed := range []bool{false, true} {
				name, model, themed := name, model, themed
				check(func(c *hx.Case) error {
					c.NT(true)
					c.Logf("model %q, themes %v", name, themed)
					var args []string
					if name != "" {
						args = append(args, "-model", name)
					}
					if themed {
						args = append(args, "-themes")
					}
					out, err := run(args...)
					if model == nil {
						if err == nil || len(out) > 0 {
							return fmt.Errorf("no error for model %q", name)
						}
						return nil
					}
					if err != nil {
						return fmt.Errorf("%q: %v", args, err)
					}
					var colors []ansi.SGRColor
					var nums []int
					for i := 0; i < 16; i++ {
						colors, nums = append(colors, ansi.SGRColor(i)), append(nums, i)
					}
					if themed {
						for _, th := range themes {
							for i, col := range th {
								colors, nums = append(colors, col), append(nums, i)
							}
						}
					}
					for i := 16; i < 256; i++ {
						colors, nums = append(colors, ansi.SGRColor(i)), append(nums, i)
					}
					i := 0
					for _, line := range strings.Split(string(out), "\n") {
						if !strings.Contains(line, "[ fg ]") {
							continue
						}
						if i == len(colors) {
							return fmt.Errorf("%q: more than %d colors", args, i)
						}
						col := model.Convert(colors[i])
						term := vt.New(200, 1)
						_, _ = term.Write([]byte(line))
						text := ""
						at := 5 // where the samples are
						for at < 10 && term.At(at, 1).R != '[' {
							at++
						}
						for x := 1; x <= term.W; x++ {
							cell := term.At(x, 1)
							text += string(cell.R)
							want := vt.Attr{}
							switch {
							case at <= x && x < at+6:
								want.FG = gen.Back(col.FG()).FG
							case at+6 <= x && x < at+12:
								want.BG = gen.Back(col.BG()).BG
							}
							if cell.A != want && cell.R != ' ' {
								return fmt.Errorf("%q: color %d: column %d %q is %v, should be %v: %q", args, i, x, cell.R, cell.A, want, line)
							}
						}
						var n int
						var fg, bg string
						text = strings.Join(strings.Fields(text), " ")
						if _, err := fmt.Sscanf(text, "%d [ fg ][ bg ] fg_ctl:%q bg_ctl:%q", &n, &fg, &bg); err != nil {
							return fmt.Errorf("%q: color %d: %q: %v", args, i, text, err)
						}
						if n != nums[i] || !strings.Contains(line, fg+"[ fg ]") || !strings.Contains(line, bg+"[ bg ]") {
							return fmt.Errorf("%q: color %d: %q", args, i, line)
						}
						i++
					}
					if i != len(colors) {
						return fmt.Errorf("%q: %d colors, should be %d", args, i, len(colors))
					}
					return nil
				})
			}
		}
	})
}

const decodeRule = "decode on a terminal, in all its modes, given random input in pieces, signals and resizes; non-trivial = at least five events"

// TestDecode: every event of the input is named once and in order, with
// modes set as asked for.
func TestDecode(t *testing.T) {
	hx.Check(t, 250, decodeRule, func(t *rapid.T, c *hx.Case) {
		// the input is a terminal of its own, so that its echo is not in the way
		in, err := pty.Open()
		if err != nil {
			panic(err)
		}
		defer in.Close()
		r := in.File(os.O_RDWR)
		var args []string
		raw, mouse, alt := rapid.Bool().Draw(t, "raw"), rapid.Bool().Draw(t, "mouse"), rapid.Bool().Draw(t, "alt")
		modes, resets := "", ""
		if alt {
			args = append(args, "-alt")
			resets += "\x1b[?1049l"
		}
		if mouse {
			args = append(args, "-mouse")
			modes += "\x1b[?1006h\x1b[?1002h\x1b[?1003h"
			resets += "\x1b[?1003l\x1b[?1002l\x1b[?1006l"
		}
		if alt {
			modes += "\x1b[?1049h"
		}
		if raw {
			args = append(args, "-raw")
		}
		var attr func(*syscall.Termios)
		if rapid.Bool().Draw(t, "cooked") {
			attr = func(a *syscall.Termios) { a.Lflag |= syscall.ICANON | syscall.ECHO | syscall.ISIG }
		}
		p := start(t, 80, 24, attr, r, "decode", args...)
		defer p.close()
		defer r.Close()
		want := modes
		prior := rune(0)
		over := false
		events := 0
		ev := func(e ref.Ev) {
			if over {
				return
			}
			events++
			esc := ansi.Escape(e.ID)
			want += fmt.Sprintf("%U %v", e.ID, esc)
			if e.Arg != "" {
				want += fmt.Sprintf(" %q", e.Arg)
			}
			switch e.ID {
			case 0xEF80 | 'M', 0xEF80 | 'm':
				if b, at, err := ansi.DecodeXtermExtendedMouse(esc, []byte(e.Arg)); err != nil {
					want += fmt.Sprintf(" mouse-err:%v", err)
				} else {
					want += fmt.Sprintf(" mouse-%v@%v", b, at)
				}
			case 0x03:
				if over = prior == e.ID; over {
					return
				}
				want += " \x1b[91m<press Ctrl-C again to quit>\x1b[0m"
			case 0x1a:
				if prior == e.ID {
					want += resets + modes
				} else {
					want += " \x1b[92m<press Ctrl-Z again to suspend>\x1b[0m"
				}
			case 0x0c:
				if prior == e.ID {
					want += "\x1b[2J\x1b[H"
				} else {
					want += " \x1b[93m<press Ctrl-L again to quit>\x1b[0m"
				}
			}
			prior = e.ID
			want += "\r\n"
		}
		shown := func() {
			var got string
			if !hx.Eventually(func() bool {
				p.mu.Lock()
				got = string(p.keep)
				p.mu.Unlock()
				return got == want || !strings.HasPrefix(want, got)
			}) || got != want {
				n := 0
				for n < len(got) && n < len(want) && got[n] == want[n] {
					n++
				}
				t.Fatalf("%q: showed %q after %q, should be %q\n%s", args, got[n:], got[max(0, n-100):n], want[n:], p.errs.Bytes())
			}
		}
		c.Logf("%q", args)
		go func() { // continues it whenever suspended
			for !p.ended() {
				_ = p.cmd.Process.Signal(syscall.SIGCONT)
				time.Sleep(2 * time.Millisecond)
			}
		}()
		for n := rapid.IntRange(0, 25).Draw(t, "n"); n > 0 && !over; n-- {
			switch op := rapid.IntRange(0, 12).Draw(t, "op"); op {
			case 0:
				// the first output shows that signals are awaited
				if events == 0 {
					continue
				}
				shown()
				c.Logf("SIGINT")
				_ = p.cmd.Process.Signal(syscall.SIGINT)
				ev(ref.Ev{ID: 3})
				if !over {
					shown()
				}
			case 1:
				if events == 0 {
					continue
				}
				shown()
				w, h := size(t)
				c.Logf("resize to %dx%d", w, h)
				if p.term.W == w && p.term.H == h {
					continue
				}
				p.resize(w, h)
				want += fmt.Sprintf("[ resize size:(%d,%d) ]", w, h)
				shown()
			default:
				b := []byte{0x03}
				switch {
				case op == 2:
				case op == 3:
					b = []byte{0x0c}
				case op == 12:
					b = []byte{0x1a}
				default:
					b = plat.Token(t)
				}
				if op != 12 && bytes.ContainsAny(b, "\x1a") || len(b) > 100 {
					continue
				}
				pieces := plat.Pieces(t, b)
				c.Logf("%q", pieces)
				for _, piece := range pieces {
					if n, err := syscall.Write(in.Master, piece); n < len(piece) {
						panic(fmt.Sprintf("HX-INFRA pty write: %v", err))
					}
					time.Sleep(50 * time.Microsecond)
					for pipes.Pending(r) && !p.ended() {
						time.Sleep(50 * time.Microsecond)
					}
				}
				evs, _ := ref.Tokenize(b)
				for _, e := range evs {
					ev(e)
				}
				if rapid.IntRange(0, 3).Draw(t, "look") == 0 && !over {
					shown()
				}
			}
		}
		c.NT(events > 4)
		end := "^C"
		code := 1
		if !over {
			shown()
			if events == 0 {
				ev(ref.Ev{ID: 'x'})
				_, _ = syscall.Write(in.Master, []byte("x"))
				shown()
			}
			if a := p.pair.Attr(); raw == (a.Lflag&syscall.ECHO != 0) || (raw || attr == nil) == (a.Lflag&syscall.ICANON != 0) {
				t.Fatalf("attributes %+v with %q", a, args)
			}
			switch rapid.IntRange(0, 2).Draw(t, "end") {
			case 0:
				end = "hangup"
				_ = syscall.Close(in.Master)
				in.Master = -1
			case 1:
				end, code = "SIGTERM", 143
				_ = p.cmd.Process.Signal(syscall.SIGTERM)
			case 2:
				end, code = "SIGHUP", 129
				_ = p.cmd.Process.Signal(syscall.SIGHUP)
			}
		}
		c.Label(end)
		ws := p.end(t, nil)
		if !ws.Exited() || ws.ExitStatus() != code && (end != "hangup" || ws.ExitStatus() > 0) {
			t.Fatalf("%s: status %#x, should be exit status %d\n%s", end, ws, code, p.errs.Bytes())
		}
		p.restored(t)
		want += resets
		shown()
	})
}
