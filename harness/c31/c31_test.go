package c31

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"os/signal"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/x/platform"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/pty"
)

func TestMain(m *testing.M) {
	switch s := os.Getenv("C31_CHILD"); {
	case s == "":
	case s == "open":
		openChild()
		return
	default:
		mustChild(s)
		return
	}
	signal.Notify(witness, sigs...)
	hx.Main(m)
}

var (
	sigs    = []os.Signal{syscall.SIGUSR1, syscall.SIGUSR2, syscall.SIGWINCH, syscall.SIGHUP, syscall.SIGTERM}
	witness = make(chan os.Signal, 64)
)

// raise raises a signal, and waits until it was delivered everywhere.
func raise(sig os.Signal) {
	if err := syscall.Kill(syscall.Getpid(), sig.(syscall.Signal)); err != nil {
		panic("HX-INFRA kill: " + err.Error())
	}
	late := time.After(hx.Patience())
	for {
		select {
		case got := <-witness:
			if got != sig {
				continue
			}
			// returns only once no delivery is going on
			signal.Stop(make(chan os.Signal))
			return
		case <-late:
			panic("HX-INFRA signal never arrived")
		}
	}
}

// model is what a Signal should hold.
type model struct {
	notify  []os.Signal
	open    bool // has a channel
	on      map[os.Signal]bool
	pending string
}

func (m *model) send(s string) {
	if m.pending == "" {
		m.pending = s
	}
}

const signalRule = "histories of Open, Close, Enter, Exit, Send, AsErr, receives and process signals over several Signals with overlapping sets, some under a terminal; non-trivial = signals raised both while one was pending and after a Close"

// TestSignal: a Signal holds the first of what came since it was last taken,
// from its first Open until it is closed.
func TestSignal(t *testing.T) {
	hx.Check(t, 6000, signalRule, func(t *rapid.T, c *hx.Case) {
		n := rapid.IntRange(1, 4).Draw(t, "n")
		real := make([]*anansi.Signal, n)
		mod := make([]*model, n)
		var old []chan os.Signal // closed ones
		for i := range real {
			m := &model{on: map[os.Signal]bool{}}
			for _, s := range sigs {
				if rapid.Bool().Draw(t, "notify") {
					m.notify = append(m.notify, s)
				}
			}
			mod[i] = m
			sig := anansi.Notify(m.notify...)
			real[i] = &sig
			if rapid.IntRange(0, 4).Draw(t, "literal") == 0 {
				real[i] = &anansi.Signal{Notify: m.notify}
			}
			c.Logf("%d: %v", i, m.notify)
		}
		defer func() {
			for _, sig := range real {
				_ = sig.Close()
			}
		}()
		term := anansi.NewTerm(nil, nil)
		clash, closed := false, false
		enter := func(i int) {
			mod[i].open = true
			for _, s := range mod[i].notify {
				mod[i].on[s] = true
			}
		}
		shut := func(i int) {
			if real[i].C != nil {
				old = append(old, real[i].C)
			}
			mod[i].open, mod[i].pending = false, ""
			mod[i].on = map[os.Signal]bool{}
		}
		var step func(depth int)
		step = func(depth int) {
			i := rapid.IntRange(0, n-1).Draw(t, "i")
			op := rapid.IntRange(0, 19).Draw(t, "op")
			var err error
			switch {
			case op < 3:
				c.Logf("open %d", i)
				if op == 0 {
					err = real[i].Enter(term)
				} else {
					err = real[i].Open()
				}
				enter(i)
			case op == 3:
				c.Logf("close %d", i)
				shut(i)
				err = real[i].Close()
				closed = true
			case op == 4:
				c.Logf("exit %d", i)
				err = real[i].Exit(term)
			case op < 7:
				mess := rapid.SampledFrom([]string{"start", "x", "user defined signal 1", "\u4e16"}).Draw(t, "mess")
				c.Logf("send %d %q", i, mess)
				if _, ok := hx.Within(func() { real[i].Send(mess) }); !ok {
					t.Fatalf("Send blocks")
				}
				mod[i].open = true
				mod[i].send(mess)
			case op < 10:
				err := real[i].AsErr()
				c.Logf("%d as error: %v", i, err)
				if want := mod[i].pending; want == "" {
					if err != nil {
						t.Fatalf("signal %d: AsErr gives %v, nothing came", i, err)
					}
				} else {
					se, ok := err.(anansi.SignalError)
					if !ok || se.Error() != "signal "+want || se.String() != want {
						t.Fatalf("signal %d: AsErr gives %v, should be %q", i, err, want)
					}
					code := 1
					for _, s := range sigs {
						if se.Sig == s {
							code = 128 + int(s.(syscall.Signal))
						}
					}
					if se.ExitCode() != code {
						t.Fatalf("%v: exit code %d, should be %d", se, se.ExitCode(), code)
					}
					mod[i].pending = ""
				}
			case op < 12 && mod[i].open:
				got := ""
				select {
				case s := <-real[i].C:
					got = s.String()
				default:
				}
				c.Logf("%d got %q", i, got)
				if got != mod[i].pending {
					t.Fatalf("signal %d: received %q, should be %q", i, got, mod[i].pending)
				}
				mod[i].pending = ""
			case op == 12 && depth < 2:
				c.Logf("run with %d {", i)
				if term := anansi.NewTerm(nil, nil, real[i]); true {
					err = term.RunWith(func(term *anansi.Term) error {
						enter(i)
						for k := rapid.IntRange(0, 6).Draw(t, "inside"); k > 0; k-- {
							step(depth + 1)
						}
						if rapid.Bool().Draw(t, "without") {
							c.Logf("without {")
							if err := term.RunWithout(func(*anansi.Term) error {
								for k := rapid.IntRange(0, 3).Draw(t, "outside"); k > 0; k-- {
									step(depth + 2)
								}
								return nil
							}); err != nil {
								return err
							}
							enter(i)
							c.Logf("}")
						}
						shut(i)
						return nil
					})
				}
				closed = true
				c.Logf("}")
			default:
				sig := rapid.SampledFrom(sigs).Draw(t, "sig")
				c.Logf("raise %v", sig)
				raise(sig)
				for _, m := range mod {
					if m.on[sig] {
						clash = clash || m.pending != "" && closed
						m.send(sig.String())
					}
				}
			}
			if err != nil {
				t.Fatalf("%v", err)
			}
			for i, m := range mod {
				if (real[i].C != nil) != m.open {
					t.Fatalf("signal %d: channel %v, should be open: %v", i, real[i].C, m.open)
				}
				want := 0
				if m.pending != "" {
					want = 1
				}
				if len(real[i].C) != want {
					t.Fatalf("signal %d: %d pending, should be %d", i, len(real[i].C), want)
				}
			}
		}
		for k := rapid.IntRange(1, 40).Draw(t, "ops"); k > 0; k-- {
			step(0)
		}
		raised := map[chan os.Signal]int{}
		for _, ch := range old {
			raised[ch] = len(ch)
		}
		for _, s := range sigs[:2] {
			raise(s)
		}
		for ch, n := range raised {
			if len(ch) != n {
				t.Fatalf("a signal came after Close")
			}
		}
		c.NT(clash)
	})
}

const tickerRule = "histories of Enter, Exit and Wait, some waits ended by Exit meanwhile; non-trivial = waited both while active and not, and re-entered"

// TestTicker: Wait gives successive times while active, else none.
func TestTicker(t *testing.T) {
	hx.Check(t, 80, tickerRule, func(t *rapid.T, c *hx.Case) {
		const d = time.Second / 60
		var tick platform.Ticker
		defer func() { _ = tick.Exit(nil) }()
		active := false
		var since, last time.Time
		k, enters, idle, busy := 0, 0, 0, 0
		for n := rapid.IntRange(1, 10).Draw(t, "ops"); n > 0; n-- {
			switch op := rapid.IntRange(0, 7).Draw(t, "op"); {
			case op < 2:
				c.Logf("enter")
				since = time.Now()
				if err := tick.Enter(nil); err != nil {
					t.Fatalf("Enter: %v", err)
				}
				active, k = true, 0
				enters++
			case op == 2:
				c.Logf("exit")
				if err := tick.Exit(nil); err != nil {
					t.Fatalf("Exit: %v", err)
				}
				active = false
			case op == 3:
				wait := time.Duration(rapid.IntRange(0, 3000).Draw(t, "µs")) * time.Microsecond
				c.Logf("exit after %v", wait)
				var err error
				done := make(chan struct{})
				go func() {
					defer close(done)
					time.Sleep(wait)
					err = tick.Exit(nil)
				}()
				_, ok := hx.Within(func() {
					for !tick.Wait().IsZero() {
					}
				})
				<-done
				if err != nil || !ok {
					t.Fatalf("Wait goes on after Exit (%v)", err)
				}
				active = false
			default:
				var at time.Time
				if s, ok := hx.Within(func() { at = tick.Wait() }); !ok {
					t.Fatalf("Wait does not return, active: %v\n%s", active, s)
				}
				c.Logf("wait")
				if !active {
					idle++
					if !at.IsZero() {
						t.Fatalf("Wait gave %v while not active", at)
					}
					continue
				}
				busy++
				k++
				switch {
				case at.IsZero():
					t.Fatalf("Wait gave no time while active")
				case at.After(time.Now()):
					t.Fatalf("Wait gave a time yet to come")
				case !at.After(last):
					t.Fatalf("Wait gave %v after %v", at, last)
				case at.Sub(since) < time.Duration(k)*d-time.Millisecond:
					t.Fatalf("the %d. tick came after %v", k, at.Sub(since))
				}
				last = at
			}
		}
		c.NT(idle > 0 && busy > 0 && enters > 1)
		c.LabelIf(busy > 0, "active")
	})
}

type codeError int

func (e codeError) Error() string { return fmt.Sprintf("status %d", int(e)) }
func (e codeError) ExitCode() int { return int(e) }

type plainSignal struct{}

func (plainSignal) String() string { return "made up" }
func (plainSignal) Signal()        {}

// mustChild exits by MustRun with what the argument says.
func mustChild(arg string) {
	kind, rest, _ := strings.Cut(arg, ":")
	n, _ := strconv.Atoi(rest)
	var err error
	if kind != "platform" { // importing that package set another
		log.SetOutput(os.Stderr)
	}
	switch kind {
	case "nil":
	case "plain":
		err = errors.New(rest)
	case "code":
		err = codeError(n)
	case "sig":
		err = anansi.SigErr(syscall.Signal(n))
	case "made":
		err = anansi.SigErr(plainSignal{})
	case "run", "after":
		halt := anansi.Notify(sigs...)
		in, out := os.NewFile(3, "in"), os.NewFile(4, "out")
		term := anansi.NewTerm(in, out, &halt)
		_ = term.SetRaw(true)
		err = term.RunWith(func(*anansi.Term) error {
			if kind == "after" {
				return nil
			}
			_, _ = out.WriteString("R")
			return anansi.SigErr(<-halt.C)
		})
		if kind == "after" {
			_, _ = out.WriteString("R")
			time.Sleep(2 * hx.Patience())
		}
	case "platform":
		in, out := os.NewFile(3, "in"), os.NewFile(4, "out")
		platform.MustRun(in, out, func(p *platform.Platform) error {
			switch rest {
			case "":
				return nil
			case "plain":
				return errors.New("plain")
			}
			return codeError(n)
		}, platform.Config{})
	}
	anansi.MustRun(err)
	os.Exit(42)
}

func start(t *rapid.T, arg string, extra []*os.File, attr *syscall.SysProcAttr) (*exec.Cmd, *bytes.Buffer) {
	cmd := exec.Command("/proc/self/exe", "-test.run", "^$")
	cmd.Env = append(os.Environ(), "GORACE=atexit_sleep_ms=0", "C31_CHILD="+arg)
	cmd.ExtraFiles = extra
	var errs bytes.Buffer
	cmd.Stderr = &errs
	if attr == nil {
		attr = &syscall.SysProcAttr{Setpgid: true}
	}
	attr.Pdeathsig = syscall.SIGKILL
	cmd.SysProcAttr = attr
	return cmd, &errs
}

// finish waits for the command.
func finish(t *rapid.T, cmd *exec.Cmd) syscall.WaitStatus {
	if _, ok := hx.Within(func() { _ = cmd.Wait() }); !ok {
		_ = cmd.Process.Kill()
		t.Fatalf("%v goes on", cmd.Args)
	}
	return cmd.ProcessState.Sys().(syscall.WaitStatus)
}

const mustRule = "processes that end by MustRun with errors of all kinds, some in a terminal context by a signal sent to them; non-trivial = the status is not 0, 1 or 42"

// TestMustRun: the process exits as its error says, with the terminal restored.
func TestMustRun(t *testing.T) {
	hx.Check(t, 250, mustRule, func(t *rapid.T, c *hx.Case) {
		p, err := pty.Open()
		if err != nil {
			panic(err)
		}
		defer p.Close()
		a := p.Attr()
		a.Lflag |= syscall.ICANON | syscall.ECHO
		p.SetAttr(a)
		a = p.Attr()
		in, out := p.File(os.O_RDONLY), p.File(os.O_WRONLY)
		defer in.Close()
		defer out.Close()
		n := rapid.IntRange(0, 255).Draw(t, "code")
		sig := rapid.SampledFrom(sigs).Draw(t, "sig").(syscall.Signal)
		arg, want, mess, send := "", 0, "", false
		switch rapid.IntRange(0, 8).Draw(t, "kind") {
		case 0:
			arg, want = "nil", 42
		case 1:
			arg, want, mess = "plain:some trouble", 1, "some trouble"
		case 2, 3:
			arg, want, mess = fmt.Sprintf("code:%d", n), n, fmt.Sprintf("status %d", n)
			if n == 0 {
				want = 1
			}
		case 4:
			sig = syscall.Signal(rapid.IntRange(1, 31).Draw(t, "signal"))
			arg, want, mess = fmt.Sprintf("sig:%d", sig), 128+int(sig), "signal "+sig.String()
		case 5:
			arg, want, mess = "made", 1, "signal made up"
		case 6:
			arg, want, mess, send = "run", 128+int(sig), "signal "+sig.String(), true
		case 7:
			sig = syscall.SIGTERM
			arg, want, send = "after", -int(sig), true
		case 8:
			switch {
			case n == 0:
				arg, want = "platform:", 42
			case n < 20:
				arg, want = "platform:plain", 1
			default:
				arg, want = fmt.Sprintf("platform:%d", n), n
			}
		}
		c.Logf("%s %v", arg, want)
		cmd, errs := start(t, arg, []*os.File{in, out}, nil)
		if err := cmd.Start(); err != nil {
			panic("HX-INFRA start: " + err.Error())
		}
		defer cmd.Process.Kill()
		if send {
			var got []byte
			if !hx.Eventually(func() bool { got = append(got, p.Output()...); return bytes.Contains(got, []byte("R")) }) {
				t.Fatalf("%s: does not start", arg)
			}
			_ = cmd.Process.Signal(sig)
		}
		ws := finish(t, cmd)
		if want < 0 {
			if !ws.Signaled() || ws.Signal() != sig {
				t.Fatalf("%s: not ended by %v after Close: status %#x\n%s", arg, sig, ws, errs)
			}
		} else if !ws.Exited() || ws.ExitStatus() != want {
			t.Fatalf("%s: status %#x, should be exit status %d\n%s", arg, ws, want, errs)
		}
		if mess == "" && errs.Len() > 0 || !strings.Contains(errs.String(), mess) {
			t.Fatalf("%s: said %q, should say %q", arg, errs, mess)
		}
		if got := p.Attr(); got != a {
			t.Fatalf("%s: terminal left %+v, was %+v", arg, got, a)
		}
		c.NT(want > 1 && want != 42)
		c.LabelIf(send, "signalled")
	})
}

func fds() int {
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic("HX-INFRA " + err.Error())
	}
	return len(ents)
}

func rdev(f *os.File) string {
	var st syscall.Stat_t
	if err := syscall.Fstat(int(f.Fd()), &st); err != nil {
		return err.Error()
	}
	return fmt.Sprintf("%d/%s", st.Rdev, f.Name())
}

// openChild opens the terminal, and reports on 3: what was opened, then after
// use what was read.
func openChild() {
	rep := os.NewFile(3, "report")
	log.SetOutput(io.Discard)
	if r, w, err := os.Pipe(); err == nil { // starts the poller
		r.Close()
		w.Close()
	}
	if s := os.Getenv("C31_LIMIT"); s != "" {
		n, _ := strconv.Atoi(s)
		// keep only n more descriptors
		f, err := os.Open("/dev/null")
		if err != nil {
			panic(err)
		}
		lim := syscall.Rlimit{Cur: uint64(int(f.Fd()) + n), Max: uint64(int(f.Fd()) + n)}
		f.Close()
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim); err != nil {
			panic(err)
		}
	}
	var lim syscall.Rlimit
	_ = syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim)
	count := func() (n int) {
		for i := 0; i < 64; i++ {
			if _, _, e := syscall.Syscall(syscall.SYS_FCNTL, uintptr(i), syscall.F_GETFD, 0); e == 0 {
				n++
			}
		}
		return n
	}
	before := count()
	term, err := anansi.OpenTerm()
	if err != nil {
		fmt.Fprintf(rep, "error %d\n", count()-before)
		os.Exit(0)
	}
	fmt.Fprintf(rep, "ok %s %s %d %v\n", rdev(term.Input.File), rdev(term.Output.File), count()-before, term.Input.File == os.Stdin && term.Output.File == os.Stdout)
	_ = term.SetRaw(true)
	err = term.RunWith(func(term *anansi.Term) error {
		if _, err := term.Output.File.WriteString("hello"); err != nil {
			return err
		}
		fmt.Fprintf(rep, "running %v\n", term.IsTerminal())
		var b [3]byte
		_, err := io.ReadFull(term.Input.File, b[:])
		fmt.Fprintf(rep, "read %q\n", b[:])
		return err
	})
	fmt.Fprintf(rep, "done %v\n", err)
	os.Exit(0)
}

func dev(p *pty.Pair) uint64 {
	var st syscall.Stat_t
	if err := syscall.Fstat(p.Slave, &st); err != nil {
		panic("HX-INFRA fstat: " + err.Error())
	}
	return st.Rdev
}

const openRule = "all kinds of standard input and output (terminal, other terminal, pipe, file, null), with and without a controlling terminal, or with too few descriptors; non-trivial = one of them only is a terminal"

// TestOpenTerm: OpenTerm uses the standard files that are terminals, and the
// controlling terminal for others, or fails without one.
func TestOpenTerm(t *testing.T) {
	hx.Check(t, 250, openRule, func(t *rapid.T, c *hx.Case) {
		mk := func() *pty.Pair {
			p, err := pty.Open()
			if err != nil {
				panic(err)
			}
			return p
		}
		ctl, other := mk(), mk()
		defer ctl.Close()
		defer other.Close()
		null, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
		if err != nil {
			panic("HX-INFRA " + err.Error())
		}
		defer null.Close()
		r, w, err := os.Pipe()
		if err != nil {
			panic("HX-INFRA " + err.Error())
		}
		defer r.Close()
		defer w.Close()
		rr, rw, err := os.Pipe()
		if err != nil {
			panic("HX-INFRA " + err.Error())
		}
		defer rr.Close()
		file, err := os.CreateTemp("", "c31")
		if err != nil {
			panic("HX-INFRA " + err.Error())
		}
		defer os.Remove(file.Name())
		defer file.Close()

		attr := &syscall.SysProcAttr{Setsid: true}
		cmd, errs := start(t, "open", []*os.File{rw}, attr)
		has := rapid.IntRange(0, 3).Draw(t, "controlling") > 0
		files := []struct {
			name string
			p    *pty.Pair
		}{{"controlling", ctl}, {"other", other}, {"null", nil}, {"pipe", nil}, {"file", nil}}
		pick := func(name string, flags int, pipe *os.File) (*os.File, *pty.Pair, string) {
			k := files[rapid.IntRange(0, len(files)-1).Draw(t, name)]
			switch k.name {
			case "null":
				return null, nil, k.name
			case "pipe":
				return pipe, nil, k.name
			case "file":
				return file, nil, k.name
			}
			f := k.p.File(flags)
			return f, k.p, k.name
		}
		in, inP, inName := pick("in", os.O_RDWR, r)
		out, outP, outName := pick("out", os.O_RDWR, w)
		for _, f := range []*os.File{in, out} {
			if f != null && f != r && f != w && f != file {
				defer f.Close()
			}
		}
		cmd.Stdin, cmd.Stdout = in, out
		if has {
			f := ctl.File(os.O_RDWR)
			defer f.Close()
			cmd.ExtraFiles = append(cmd.ExtraFiles, f)
			attr.Setctty, attr.Ctty = true, 4
		}
		need := 0
		wantIn, wantOut := inP, outP
		if wantIn == nil {
			wantIn = ctl
			need++
		}
		if wantOut == nil {
			wantOut = ctl
			need++
		}
		limit := -1
		if rapid.IntRange(0, 2).Draw(t, "limited") == 0 {
			limit = rapid.IntRange(0, 2).Draw(t, "limit")
			cmd.Env = append(cmd.Env, fmt.Sprint("C31_LIMIT=", limit))
		}
		c.Logf("in %s, out %s, controlling %v, limit %d", inName, outName, has, limit)
		c.NT(need == 1)
		if err := cmd.Start(); err != nil {
			panic("HX-INFRA start: " + err.Error())
		}
		defer cmd.Process.Kill()
		rw.Close()
		rep := make(chan string, 16)
		go func() {
			defer close(rep)
			var b [4096]byte
			s := ""
			for {
				n, err := rr.Read(b[:])
				s += string(b[:n])
				for {
					line, rest, ok := strings.Cut(s, "\n")
					if !ok {
						break
					}
					rep <- line
					s = rest
				}
				if err != nil {
					return
				}
			}
		}()
		next := func() (s string) {
			select {
			case s = <-rep:
			case <-time.After(hx.Patience()):
				t.Fatalf("no report\n%s", errs)
			}
			return s
		}
		if got := next(); need > 0 && !has || limit >= 0 && limit < need {
			if got != "error 0" {
				t.Fatalf("reported %q, should be an error that leaves nothing open\n%s", got, errs)
			}
			c.Label("error")
			finish(t, cmd)
			return
		} else {
			f := strings.Fields(got)
			inSt := fmt.Sprint(need == 0)
			if len(f) != 5 || f[0] != "ok" || f[3] != fmt.Sprint(need) || f[4] != inSt {
				t.Fatalf("reported %q, should be ok with %d opened\n%s", got, need, errs)
			}
			for i, g := range []struct {
				p     *pty.Pair
				given bool
				std   string
			}{{wantIn, inP != nil, "/dev/stdin"}, {wantOut, outP != nil, "/dev/stdout"}} {
				// /dev/tty is a device of its own
				want := "1280//dev/tty"
				if g.given {
					want = fmt.Sprintf("%d/%s", dev(g.p), g.std)
				}
				if f[1+i] != want {
					t.Fatalf("reported %q, should be %s", got, want)
				}
			}
		}
		if got := next(); got != "running true" {
			t.Fatalf("reported %q\n%s", got, errs)
		}
		if got := wantOut.Output(); string(got) != "hello" {
			t.Fatalf("output %q", got)
		}
		wantIn.Input([]byte("xyz"))
		if got := next(); got != `read "xyz"` {
			t.Fatalf("reported %q", got)
		}
		if got := next(); got != "done <nil>" {
			t.Fatalf("reported %q", got)
		}
		if ws := finish(t, cmd); !ws.Exited() || ws.ExitStatus() != 0 {
			t.Fatalf("status %#x\n%s", ws, errs)
		}
	})
}
