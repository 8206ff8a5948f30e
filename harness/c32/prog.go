package c32

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"verif/hx"
	"verif/pty"
	"verif/vt"
)

// prog is a program of the repository that runs on a terminal of its own.
type prog struct {
	cmd  *exec.Cmd
	pair *pty.Pair
	errs bytes.Buffer
	attr syscall.Termios
	dir  string
	name string

	done chan struct{} // the process ended
	stop chan struct{} // reading should
	eof  chan struct{} // reading ended

	mu    sync.Mutex
	term  *vt.Term
	raw   []byte // output not fed to the terminal
	keep  []byte // all output, if wanted
	want  bool
	tail  []byte // last few bytes
	draws int    // times the screen was cleared
	ins   int    // times the alternate screen was entered
	outs  int    // and left
}

// start starts a program on a w x h terminal, its input being that as well
// unless given.
func start(t *rapid.T, w, h int, attr func(*syscall.Termios), stdin *os.File, name string, args ...string) *prog {
	pair, err := pty.Open()
	if err != nil {
		panic(err)
	}
	a := pair.Attr()
	if attr != nil {
		attr(&a)
		pair.SetAttr(a)
		a = pair.Attr()
	}
	pair.SetSize(w, h)
	dir, err := os.MkdirTemp("", "c32")
	if err != nil {
		panic("HX-INFRA " + err.Error())
	}
	p := &prog{pair: pair, attr: a, dir: dir, name: name, term: vt.New(w, h),
		done: make(chan struct{}), stop: make(chan struct{}), eof: make(chan struct{})}
	f := pair.File(os.O_RDWR)
	defer f.Close()
	p.cmd = exec.Command(filepath.Join(os.Getenv("HX_BIN"), name), args...)
	p.cmd.Dir = dir
	p.cmd.Stdin, p.cmd.Stdout, p.cmd.Stderr = f, f, &p.errs
	if stdin != nil {
		p.cmd.Stdin = stdin
	}
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 1, Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		panic("HX-INFRA start: " + err.Error())
	}
	go func() {
		_ = p.cmd.Wait()
		close(p.done)
	}()
	go p.reader()
	return p
}

func (p *prog) reader() {
	defer close(p.eof)
	_ = syscall.SetNonblock(p.pair.Master, true)
	var buf [8192]byte
	for {
		n, err := syscall.Read(p.pair.Master, buf[:])
		if n > 0 {
			p.mu.Lock()
			p.raw = append(p.raw, buf[:n]...)
			if p.name == "decode" {
				p.keep = append(p.keep, buf[:n]...)
			}
			old := len(p.tail)
			p.tail = append(p.tail, buf[:n]...)
			count := func(s string) int {
				return bytes.Count(p.tail[max(0, old-len(s)+1):], []byte(s))
			}
			p.draws += count("\x1b[2J")
			p.ins += count("\x1b[?1049h")
			p.outs += count("\x1b[?1049l")
			p.tail = append(p.tail[:0], p.tail[max(0, len(p.tail)-7):]...)
			p.mu.Unlock()
			continue
		}
		select {
		case <-p.stop:
			return
		default:
		}
		_ = err
		time.Sleep(200 * time.Microsecond)
	}
}

// input types on the terminal.
func (p *prog) input(b []byte) {
	for late := time.Now().Add(hx.Patience()); len(b) > 0 && time.Now().Before(late) && !p.ended(); {
		n, err := syscall.Write(p.pair.Master, b)
		if n > 0 {
			b = b[n:]
			continue
		}
		if err != syscall.EAGAIN && err != syscall.EINTR {
			panic("HX-INFRA pty write: " + err.Error())
		}
		time.Sleep(100 * time.Microsecond)
	}
}

func (p *prog) ended() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// look calls f with the terminal after all output so far.
func (p *prog) look(f func(term *vt.Term)) {
	p.mu.Lock()
	defer p.mu.Unlock()
	_, _ = p.term.Write(p.raw)
	p.raw = p.raw[:0]
	f(p.term)
}

func (p *prog) resize(w, h int) {
	p.look(func(term *vt.Term) { term.Resize(w, h) })
	p.pair.SetSize(w, h)
}

// sees waits until the terminal is as it should be.
func (p *prog) sees(t *rapid.T, what string, cond func(term *vt.Term) error) {
	var err error
	if !hx.Eventually(func() bool {
		p.alive(t)
		p.look(func(term *vt.Term) { err = cond(term) })
		return err == nil
	}) {
		p.look(func(term *vt.Term) {
			t.Fatalf("%s: %s: %v\n%s\n%s", p.name, what, err, term, p.errs.Bytes())
		})
	}
}

// up waits until the program has set the terminal up.
func (p *prog) up(t *rapid.T) { p.upAfter(t, 0) }

// upAfter waits until it has, and drawn it again after so many times.
func (p *prog) upAfter(t *rapid.T, draws int) {
	p.sees(t, "start", func(term *vt.Term) error {
		if !term.Modes["?1049"] || p.draws <= draws {
			return fmt.Errorf("no frame on the alternate screen")
		}
		return nil
	})
}

func (p *prog) alive(t *rapid.T) {
	if p.ended() {
		t.Fatalf("%s ended: %v\n%s", p.name, p.cmd.ProcessState, p.errs.Bytes())
	}
}

// end waits until the process has ended, calling f meanwhile.
func (p *prog) end(t *rapid.T, f func()) syscall.WaitStatus {
	last := time.Time{}
	if !hx.Eventually(func() bool {
		if f != nil && time.Since(last) > 30*time.Millisecond {
			f()
			last = time.Now()
		}
		return p.ended()
	}) {
		p.look(func(term *vt.Term) { t.Fatalf("%s does not end\n%s\n%s", p.name, term, p.errs.Bytes()) })
	}
	return p.cmd.ProcessState.Sys().(syscall.WaitStatus)
}

// restored checks that the ended process left the terminal as it was.
func (p *prog) restored(t *rapid.T) {
	if bytes.Contains(p.errs.Bytes(), []byte("goroutine ")) {
		t.Fatalf("%s crashed: %s", p.name, p.errs.Bytes())
	}
	p.asWas(t)
}

// asWas checks that the terminal is as it was.
func (p *prog) asWas(t *rapid.T) {
	var err error
	if !hx.Eventually(func() bool {
		p.look(func(term *vt.Term) {
			err = nil
			for m, on := range term.Modes {
				if on && m != "?25" {
					err = fmt.Errorf("mode %s is set", m)
				}
			}
			switch {
			case !term.Visible:
				err = fmt.Errorf("cursor is hidden")
			case term.A != (vt.Attr{}):
				err = fmt.Errorf("rendition %v", term.A)
			case !term.Idle():
				err = fmt.Errorf("within a sequence")
			}
		})
		if a := p.pair.Attr(); err == nil && a != p.attr {
			err = fmt.Errorf("attributes %+v, were %+v", a, p.attr)
		}
		return err == nil || p.ended() && p.pair.Attr() != p.attr
	}) || err != nil {
		t.Fatalf("%s: terminal left: %v", p.name, err)
	}
}

// close ends everything.
func (p *prog) close() {
	_ = p.cmd.Process.Kill()
	<-p.done
	close(p.stop)
	<-p.eof
	p.pair.Close()
	if filepath.Base(p.dir) != "" && p.dir != "/" {
		_ = os.RemoveAll(p.dir)
	}
}
