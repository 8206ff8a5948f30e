package c20

import (
	"errors"
	"fmt"
	"image"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/pty"
)

func TestMain(m *testing.M) {
	if s := os.Getenv("C20_CHILD"); s != "" {
		child(s)
		return
	}
	hx.Main(m)
}

// want is what was asked for: the documented defaults apply until then.
type want struct {
	raw     bool
	echo    bool
	echoSet bool
}

const (
	rawI = syscall.BRKINT | syscall.ICRNL | syscall.INPCK | syscall.ISTRIP | syscall.IXON
	rawO = syscall.OPOST
	rawC = syscall.CSIZE | syscall.PARENB
	rawL = syscall.ICANON | syscall.IEXTEN | syscall.ISIG
)

// active compares attributes with what they should be while active.
func (w want) active(orig, got syscall.Termios) error {
	exp := orig
	if w.raw {
		exp.Iflag &^= rawI
		exp.Oflag &^= rawO
		exp.Cflag &^= rawC
		exp.Cflag |= syscall.CS8
		exp.Lflag &^= rawL
		exp.Cc[syscall.VMIN], exp.Cc[syscall.VTIME] = 1, 0
	}
	switch {
	case w.echoSet && w.echo:
		exp.Lflag |= syscall.ECHO
	case w.echoSet || w.raw:
		exp.Lflag &^= syscall.ECHO
	default: // normal mode: left to the implementation
		exp.Lflag = exp.Lflag&^syscall.ECHO | got.Lflag&syscall.ECHO
	}
	if exp != got {
		return fmt.Errorf("attributes %+v, should be %+v (originally %+v)", got, exp, orig)
	}
	return nil
}

// attrs draws original terminal attributes.
func attrs(t *rapid.T, a syscall.Termios) syscall.Termios {
	flip := func(f *uint32, bits ...uint32) {
		for _, b := range bits {
			if rapid.Bool().Draw(t, "flag") {
				*f ^= b
			}
		}
	}
	flip(&a.Iflag, syscall.ICRNL, syscall.IXON, syscall.ISTRIP, syscall.IGNBRK, syscall.BRKINT, syscall.IUTF8)
	flip(&a.Oflag, syscall.OPOST, syscall.ONLCR)
	flip(&a.Lflag, syscall.ECHO, syscall.ICANON, syscall.ISIG, syscall.IEXTEN, syscall.ECHOE, syscall.ECHOCTL)
	a.Cc[syscall.VMIN] = byte(rapid.IntRange(0, 3).Draw(t, "vmin"))
	a.Cc[syscall.VTIME] = byte(rapid.IntRange(0, 3).Draw(t, "vtime"))
	return a
}

// probe is a context within the terminal's own: its Enter and Exit must see
// the terminal active.
type probe struct{ enter, exit func() error }

func (p *probe) Enter(*anansi.Term) error { return p.enter() }
func (p *probe) Exit(*anansi.Term) error  { return p.exit() }

var errStop = errors.New("stop")

const rule = "random histories of SetRaw, SetEcho and output under RunWith on a pty with random attributes and descriptor flags, left by RunWithout (where others may change the attributes), errors and panics; non-trivial = left and re-entered after attributes or settings changed"

// TestRestore: while active the terminal is as asked for; whenever the context
// is left it is as found.
func TestRestore(t *testing.T) {
	hx.Check(t, 6000, rule, func(t *rapid.T, c *hx.Case) {
		p, err := pty.Open()
		if err != nil {
			panic(err)
		}
		defer p.Close()
		orig := attrs(t, p.Attr())
		p.SetAttr(orig)
		orig = p.Attr()
		in, out := p.File(os.O_RDONLY), p.File(os.O_WRONLY)
		defer in.Close()
		defer out.Close()
		inFlags, outFlags := pty.Flags(in), pty.Flags(out)
		term := anansi.NewTerm(in, out)
		var w want
		var exp string // expected output so far
		sofar := func(when string) {
			if got := string(p.Output()); got != exp {
				t.Fatalf("%s: output %q, should be %q", when, got, exp)
			}
			exp = ""
		}
		var set, reset string
		for n := rapid.IntRange(0, 3).Draw(t, "modes"); n > 0; n-- {
			v := rapid.IntRange(1, 3000).Draw(t, "mode")
			term.AddMode(ansi.ModePrivate | ansi.Mode(v))
			set += fmt.Sprintf("\x1b[?%dh", v)
			reset = fmt.Sprintf("\x1b[?%dl", v) + reset
		}
		// A line feed among the modes shows whether the attributes asked for
		// are in effect while they are written.
		if rapid.Bool().Draw(t, "newlines") {
			term.Mode.Set = append(term.Mode.Set, "\n"...)
			term.Mode.Reset = append([]byte("\n"), term.Mode.Reset...)
			set, reset = set+"\n", "\n"+reset
		}
		lines := func(s string) string {
			if both := uint32(syscall.OPOST | syscall.ONLCR); !w.raw && orig.Oflag&both == both {
				return strings.ReplaceAll(s, "\n", "\r\n")
			}
			return s
		}
		isActive := func(when string) {
			if err := w.active(orig, p.Attr()); err != nil {
				t.Fatalf("%s: %v", when, err)
			}
		}
		isOrig := func(when string) {
			if got := p.Attr(); got != orig {
				t.Fatalf("%s: attributes %+v, should be %+v", when, got, orig)
			}
			if f := pty.Flags(in); f != inFlags {
				t.Fatalf("%s: input flags %#x, were %#x", when, f, inFlags)
			}
			if f := pty.Flags(out); f != outFlags {
				t.Fatalf("%s: output flags %#x, were %#x", when, f, outFlags)
			}
			exp += lines(reset)
			sofar(when)
		}
		entered, changed := 0, false
		pr := &probe{
			enter: func() error {
				entered++
				exp += lines(set)
				sofar("entering")
				isActive("entering")
				return nil
			},
			exit: func() error {
				isActive("before exiting")
				return nil
			},
		}
		term.AddContext(pr)
		if !term.IsTerminal() || !anansi.IsTerminal(out) {
			t.Fatalf("not a terminal")
		}
		setting := func(t *rapid.T) {
			on := rapid.Bool().Draw(t, "on")
			var err error
			if rapid.Bool().Draw(t, "raw") {
				changed = changed || w.raw != on
				w.raw = on
				err = term.SetRaw(on)
				c.Logf("SetRaw %v", on)
			} else {
				changed = changed || !w.echoSet || w.echo != on
				w.echo, w.echoSet = on, true
				err = term.SetEcho(on)
				c.Logf("SetEcho %v", on)
			}
			if err != nil {
				t.Fatalf("setting: %v", err)
			}
		}
		for runs := rapid.IntRange(1, 2).Draw(t, "runs"); runs > 0; runs-- {
			for n := rapid.IntRange(0, 2).Draw(t, "before"); n > 0; n-- {
				setting(t)
				if p.Attr() != orig {
					t.Fatalf("a setting takes effect on the inactive terminal")
				}
			}
			how := rapid.IntRange(0, 4).Draw(t, "how")
			var rerr error
			var pv interface{}
			func() {
				defer func() { pv = recover() }()
				rerr = term.RunWith(func(*anansi.Term) error {
					for n := rapid.IntRange(0, 7).Draw(t, "n"); n > 0; n-- {
						switch rapid.IntRange(0, 5).Draw(t, "op") {
						case 0, 1:
							setting(t)
						case 2:
							s := fmt.Sprintf("text%d", n)
							var b anansi.Buffer
							b.WriteString(s)
							if err := term.Flush(&b); err != nil {
								t.Fatalf("Flush: %v", err)
							}
							exp += s
						case 3, 4:
							was := entered
							fail := rapid.IntRange(0, 7).Draw(t, "failInside") == 0
							c.Logf("RunWithout")
							err := term.RunWithout(func(*anansi.Term) error {
								isOrig("in RunWithout")
								if rapid.Bool().Draw(t, "others") {
									orig = attrs(t, orig)
									p.SetAttr(orig)
									orig = p.Attr()
									changed = true
									c.Logf("others change attributes")
								}
								if rapid.Bool().Draw(t, "settingInside") {
									setting(t)
									if p.Attr() != orig {
										t.Fatalf("a setting takes effect on the inactive terminal")
									}
								}
								if fail {
									return errStop
								}
								return nil
							})
							if fail {
								if err != errStop || entered != was {
									t.Fatalf("RunWithout returned %v, entered %d times", err, entered-was)
								}
								if p.Attr() != orig {
									t.Fatalf("attributes changed after a failed RunWithout")
								}
								reset = "" // whether repeated is left to the implementation
								pr.exit = func() error { return nil }
								how = 9
								return err
							}
							if err != nil || entered != was+1 {
								t.Fatalf("RunWithout returned %v, entered %d times", err, entered-was)
							}
							c.NT(changed)
						case 5:
							if err := term.RunWith(func(*anansi.Term) error { isActive("nested"); return nil }); err != nil {
								t.Fatalf("nested RunWith: %v", err)
							}
						}
						isActive("while active")
					}
					sofar("before leaving")
					switch how {
					case 0:
						return errStop
					case 1:
						panic(errStop)
					}
					return nil
				})
			}()
			if pv != nil && pv != interface{}(errStop) {
				panic(pv)
			}
			c.Logf("left: %v %v", rerr, pv)
			if how == 9 {
				if rerr != errStop {
					t.Fatalf("RunWith returned %v", rerr)
				}
				p.Output()
				if got := p.Attr(); got != orig {
					t.Fatalf("attributes %+v, should be %+v", got, orig)
				}
				return
			}
			if (how == 1) != (pv != nil) || (how == 0) != (rerr == errStop) || how > 0 && rerr != nil {
				t.Fatalf("RunWith returned %v, panic %v", rerr, pv)
			}
			isOrig("after RunWith")
			c.LabelIf(how == 0, "left by error")
			c.LabelIf(how == 1, "left by panic")
		}
	})
}

const enterRule = "RunWith with an output that is not a terminal, or a context that fails to enter, on a pty with random attributes; all are non-trivial"

// TestFailEnter: a context that cannot be entered is left as found, without
// running anything.
func TestFailEnter(t *testing.T) {
	hx.Check(t, 2000, enterRule, func(t *rapid.T, c *hx.Case) {
		p, err := pty.Open()
		if err != nil {
			panic(err)
		}
		defer p.Close()
		orig := attrs(t, p.Attr())
		p.SetAttr(orig)
		orig = p.Attr()
		in, out := p.File(os.O_RDONLY), p.File(os.O_WRONLY)
		defer in.Close()
		defer out.Close()
		c.NT(true)
		inFlags := pty.Flags(in)
		if rapid.Bool().Draw(t, "notTTY") {
			c.Logf("output to /dev/null %+v", orig)
			null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
			if err != nil {
				panic("HX-INFRA " + err.Error())
			}
			defer null.Close()
			term := anansi.NewTerm(in, null)
			if term.IsTerminal() || anansi.IsTerminal(null) || !anansi.IsTerminal(in) {
				t.Fatalf("/dev/null is a terminal")
			}
			_ = term.SetRaw(true)
			ran := false
			if err := term.RunWith(func(*anansi.Term) error { ran = true; return nil }); err == nil || ran {
				t.Fatalf("running without a terminal: %v, ran %v", err, ran)
			}
		} else {
			c.Logf("failing context %+v", orig)
			term := anansi.NewTerm(in, out, &probe{func() error { return errStop }, func() error { return nil }})
			_ = term.SetRaw(true)
			_ = term.SetEcho(rapid.Bool().Draw(t, "echo"))
			term.AddMode(ansi.ModeAlternateScreen)
			ran := false
			if err := term.RunWith(func(*anansi.Term) error { ran = true; return nil }); err != errStop || ran {
				t.Fatalf("running with a failing context: %v, ran %v", err, ran)
			}
			if got := string(p.Output()); got != "\x1b[?1049h\x1b[?1049l" {
				t.Fatalf("output %q", got)
			}
		}
		if got := p.Attr(); got != orig {
			t.Fatalf("attributes %+v, should be %+v", got, orig)
		}
		if f := pty.Flags(in); f != inFlags {
			t.Fatalf("input flags %#x, were %#x", f, inFlags)
		}
	})
}

const suspendRule = "a child process on a pty that suspends itself several times under and outside RunWith, with attributes changed by others while it is stopped; non-trivial = two or more suspensions under RunWith"

// child runs the script: s suspends, r and c toggle raw mode, ( and ) begin
// and end RunWith, other characters are printed.
func child(script string) {
	in, out := os.NewFile(3, "in"), os.NewFile(4, "out")
	// keep the descriptors blocking: no runtime poller
	term := anansi.NewTerm(in, out)
	term.AddMode(ansi.ModeAlternateScreen)
	var run func(s string) (string, error)
	run = func(s string) (string, error) {
		for len(s) > 0 {
			b := s[0]
			s = s[1:]
			var err error
			switch b {
			case 's':
				err = term.Suspend()
			case 'r':
				err = term.SetRaw(true)
			case 'c':
				err = term.SetRaw(false)
			case '(':
				err = term.RunWith(func(*anansi.Term) (err error) {
					s, err = run(s)
					return err
				})
			case ')':
				return s, nil
			default:
				_, err = out.Write([]byte{b})
			}
			if err != nil {
				return s, err
			}
		}
		return s, nil
	}
	if _, err := run(script); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Exit(0)
}

// wait waits for the child to stop or exit.
func wait(pid int) (ws syscall.WaitStatus, ok bool) {
	for start := time.Now(); time.Since(start) < 30*time.Second; {
		n, err := syscall.Wait4(pid, &ws, syscall.WUNTRACED|syscall.WNOHANG, nil)
		if err != nil && err != syscall.EINTR {
			panic("HX-INFRA wait4: " + err.Error())
		}
		if n == pid {
			return ws, true
		}
		time.Sleep(200 * time.Microsecond)
	}
	return ws, false
}

// TestSuspend: a suspended process stops with the terminal as found, and goes
// on with the terminal as it was.
func TestSuspend(t *testing.T) {
	hx.Check(t, 150, suspendRule, func(t *rapid.T, c *hx.Case) {
		p, err := pty.Open()
		if err != nil {
			panic(err)
		}
		defer p.Close()
		orig := attrs(t, p.Attr())
		p.SetAttr(orig)
		orig = p.Attr()
		script := ""
		under := 0
		for n := rapid.IntRange(0, 1).Draw(t, "outside"); n > 0; n-- {
			script += "s"
		}
		script += rapid.SampledFrom([]string{"(", "r("}).Draw(t, "begin")
		for n := rapid.IntRange(1, 4).Draw(t, "n"); n > 0; n-- {
			script += rapid.SampledFrom([]string{"s", "s", "xs", "rs", "cs", "ys", "rx"}).Draw(t, "step")
		}
		script += ")"
		script += rapid.SampledFrom([]string{"", "s", "(z)", "(sz)"}).Draw(t, "end")
		c.Logf("%q", script)
		in, out := p.File(os.O_RDONLY), p.File(os.O_WRONLY)
		defer in.Close()
		defer out.Close()
		cmd := exec.Command("/proc/self/exe", "-test.run", "^$")
		cmd.Env = append(os.Environ(), "C20_CHILD="+script)
		cmd.ExtraFiles = []*os.File{in, out}
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		if err := cmd.Start(); err != nil {
			panic("HX-INFRA start: " + err.Error())
		}
		pid := cmd.Process.Pid
		done := false
		defer func() {
			if !done {
				syscall.Kill(pid, syscall.SIGKILL)
				var ws syscall.WaitStatus
				syscall.Wait4(pid, &ws, 0, nil)
			}
		}()
		exp := ""
		active := false
		enter := func() { active = true; exp += "\x1b[?1049h" }
		exit := func() { active = false; exp += "\x1b[?1049l" }
		for i := 0; i < len(script); i++ {
			switch script[i] {
			case 's':
				was := active
				if was {
					exit()
					under++
				}
				ws, ok := wait(pid)
				if !ok {
					t.Fatalf("did not stop at step %d of %q", i, script)
				}
				if !ws.Stopped() {
					done = ws.Exited() || ws.Signaled()
					t.Fatalf("did not stop at step %d of %q: exited with %s", i, script, strconv.Itoa(ws.ExitStatus()))
				}
				if got := p.Attr(); got != orig {
					t.Fatalf("stopped at step %d of %q with attributes %+v, should be %+v", i, script, got, orig)
				}
				if got := string(p.Output()); got != exp {
					t.Fatalf("stopped at step %d of %q having written %q, should be %q", i, script, got, exp)
				}
				exp = ""
				if rapid.Bool().Draw(t, "others") {
					orig = attrs(t, orig)
					p.SetAttr(orig)
					orig = p.Attr()
				}
				if err := syscall.Kill(pid, syscall.SIGCONT); err != nil {
					panic("HX-INFRA kill: " + err.Error())
				}
				if was {
					enter()
				}
			case 'r', 'c':
			case '(':
				enter()
			case ')':
				exit()
			default:
				exp += script[i : i+1]
			}
		}
		ws, ok := wait(pid)
		if !ok {
			t.Fatalf("did not finish %q", script)
		}
		done = ws.Exited() || ws.Signaled()
		if !ws.Exited() || ws.ExitStatus() != 0 {
			t.Fatalf("%q ended with %#x", script, ws)
		}
		if got := p.Attr(); got != orig {
			t.Fatalf("ended %q with attributes %+v, should be %+v", script, got, orig)
		}
		if got := string(p.Output()); got != exp {
			t.Fatalf("ended %q having written %q, should be %q", script, got, exp)
		}
		c.NT(under > 1)
	})
}

const deepRule = "reading the size and running a term at every depth of stack of a new goroutine, on a pty with random attributes and size; all are non-trivial"

//go:noinline
func deep(n int, f func()) byte {
	var pad [64]byte
	pad[n%64] = byte(n)
	if n > 0 {
		return pad[n%64] + deep(n-1, f)
	}
	f()
	return pad[0]
}

// TestDeep: attributes and size are read and set whatever stack there is left
// to do it on.
func TestDeep(t *testing.T) {
	p, err := pty.Open()
	if err != nil {
		panic(err)
	}
	defer p.Close()
	in, out := p.File(os.O_RDONLY), p.File(os.O_WRONLY)
	defer in.Close()
	defer out.Close()
	found := p.Attr()
	hx.Check(t, 12000, deepRule, func(t *rapid.T, c *hx.Case) {
		c.NT(true)
		p.SetAttr(found)
		p.SetAttr(attrs(t, found))
		orig := p.Attr()
		w, h := rapid.IntRange(1, 300).Draw(t, "w"), rapid.IntRange(1, 300).Draw(t, "h")
		p.SetSize(w, h)
		n := rapid.IntRange(0, 250).Draw(t, "depth")
		c.Logf("at depth %d, %dx%d %+v", n, w, h, orig)
		term := anansi.NewTerm(in, out)
		var want want
		want.raw = rapid.Bool().Draw(t, "raw")
		want.echo = rapid.Bool().Draw(t, "echo")
		want.echoSet = true
		_ = term.SetRaw(want.raw)
		_ = term.SetEcho(!want.echo)
		_ = term.SetEcho(want.echo)
		var sz image.Point
		var szErr, runErr error
		var within syscall.Termios
		done := make(chan struct{})
		go func() {
			defer close(done)
			deep(n, func() {
				runErr = term.RunWith(func(term *anansi.Term) error {
					within = p.Attr()
					sz, szErr = term.Size()
					return nil
				})
			})
		}()
		<-done
		if runErr != nil || szErr != nil {
			t.Fatalf("size: %v, running: %v", szErr, runErr)
		}
		if sz != image.Pt(w, h) {
			t.Fatalf("size %v, should be %dx%d", sz, w, h)
		}
		if err := want.active(orig, within); err != nil {
			t.Fatal(err)
		}
		if got := p.Attr(); got != orig {
			t.Fatalf("attributes %+v, should be %+v", got, orig)
		}
	})
}
