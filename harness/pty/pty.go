// Package pty opens pseudo terminals for the checks.
package pty

import (
	"bytes"
	"fmt"
	"os"
	"syscall"
	"time"
	"unsafe"
)

// Pair is a pseudo terminal. Master and Slave are raw descriptors, kept out of
// the runtime poller so that descriptor flags stay what the check made them.
type Pair struct {
	Master int
	Slave  int
	Name   string
	seq    int
	rest   []byte
}

func ioctl(fd int, req uintptr, arg unsafe.Pointer) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), req, uintptr(arg)); e != 0 {
		return e
	}
	return nil
}

// Open opens a pair in raw mode.
func Open() (*Pair, error) {
	m, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, fmt.Errorf("HX-INFRA open ptmx: %v", err)
	}
	var n uint32
	if err := ioctl(m, syscall.TIOCGPTN, unsafe.Pointer(&n)); err != nil {
		return nil, fmt.Errorf("HX-INFRA TIOCGPTN: %v", err)
	}
	var unlock int32
	if err := ioctl(m, syscall.TIOCSPTLCK, unsafe.Pointer(&unlock)); err != nil {
		return nil, fmt.Errorf("HX-INFRA TIOCSPTLCK: %v", err)
	}
	name := fmt.Sprintf("/dev/pts/%d", n)
	s, err := syscall.Open(name, syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, fmt.Errorf("HX-INFRA open %s: %v", name, err)
	}
	p := &Pair{Master: m, Slave: s, Name: name}
	a := p.Attr()
	a.Iflag &^= syscall.ICRNL | syscall.IXON | syscall.ISTRIP | syscall.INPCK | syscall.BRKINT
	a.Oflag &^= syscall.OPOST
	a.Lflag &^= syscall.ECHO | syscall.ICANON | syscall.ISIG | syscall.IEXTEN
	a.Cc[syscall.VMIN], a.Cc[syscall.VTIME] = 1, 0
	p.SetAttr(a)
	return p, nil
}

// File returns a new *os.File for the slave, on its own open file description.
func (p *Pair) File(flags int) *os.File {
	fd, err := syscall.Open(p.Name, flags|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		panic(fmt.Sprintf("HX-INFRA open %s: %v", p.Name, err))
	}
	return os.NewFile(uintptr(fd), p.Name)
}

// Pollable is like File, but opens it as os.OpenFile does, known to the runtime
// poller.
func (p *Pair) Pollable(flags int) *os.File {
	f, err := os.OpenFile(p.Name, flags|syscall.O_NOCTTY, 0)
	if err != nil {
		panic(fmt.Sprintf("HX-INFRA open %s: %v", p.Name, err))
	}
	return f
}

// Any is File or Pollable.
func (p *Pair) Any(pollable bool, flags int) *os.File {
	if pollable {
		return p.Pollable(flags)
	}
	return p.File(flags)
}

// Attr returns the terminal attributes.
func (p *Pair) Attr() (a syscall.Termios) {
	if err := ioctl(p.Slave, syscall.TCGETS, unsafe.Pointer(&a)); err != nil {
		panic(fmt.Sprintf("HX-INFRA TCGETS: %v", err))
	}
	return a
}

// SetAttr sets the terminal attributes.
func (p *Pair) SetAttr(a syscall.Termios) {
	if err := ioctl(p.Slave, syscall.TCSETS, unsafe.Pointer(&a)); err != nil {
		panic(fmt.Sprintf("HX-INFRA TCSETS: %v", err))
	}
}

// SetSize sets the window size.
func (p *Pair) SetSize(w, h int) {
	dim := [4]uint16{uint16(h), uint16(w), 0, 0}
	if err := ioctl(p.Master, syscall.TIOCSWINSZ, unsafe.Pointer(&dim)); err != nil {
		panic(fmt.Sprintf("HX-INFRA TIOCSWINSZ: %v", err))
	}
}

// Output returns everything written to the slave so far.
func (p *Pair) Output() []byte {
	p.seq++
	mark := []byte(fmt.Sprintf("\x00\x01MARK%d\x01\x00", p.seq))
	out := p.rest
	p.rest = nil
	// write the marker piecewise while draining, the pty may be full
	w := mark
	deadline := time.Now().Add(60 * time.Second)
	for !bytes.Contains(out, mark) {
		if time.Now().After(deadline) {
			panic("HX-INFRA pty output never arrived")
		}
		if len(w) > 0 {
			p.nonblock(p.Slave, true)
			n, _ := syscall.Write(p.Slave, w)
			p.nonblock(p.Slave, false)
			if n > 0 {
				w = w[n:]
			}
		}
		var buf [4096]byte
		p.nonblock(p.Master, true)
		n, _ := syscall.Read(p.Master, buf[:])
		if n > 0 {
			out = append(out, buf[:n]...)
			continue
		}
		time.Sleep(100 * time.Microsecond)
	}
	i := bytes.Index(out, mark)
	p.rest = append([]byte(nil), out[i+len(mark):]...)
	return out[:i]
}

func (p *Pair) nonblock(fd int, on bool) { _ = syscall.SetNonblock(fd, on) }

// Input types bytes on the terminal.
func (p *Pair) Input(b []byte) {
	p.nonblock(p.Master, false)
	for len(b) > 0 {
		n, err := syscall.Write(p.Master, b)
		if err != nil {
			panic(fmt.Sprintf("HX-INFRA pty write: %v", err))
		}
		b = b[n:]
	}
}

// Close closes the pair.
func (p *Pair) Close() {
	syscall.Close(p.Slave)
	syscall.Close(p.Master)
}

// Flags returns the file status flags of a descriptor.
func Flags(f *os.File) (n int) {
	// NOTE f.Fd() may change them
	rc, err := f.SyscallConn()
	if err == nil {
		err = rc.Control(func(fd uintptr) { n = FDFlags(fd) })
	}
	if err != nil {
		panic(fmt.Sprintf("HX-INFRA F_GETFL: %v", err))
	}
	return n
}

// FDFlags are the file status flags of a file descriptor.
func FDFlags(fd uintptr) int {
	r, _, e := syscall.Syscall(syscall.SYS_FCNTL, fd, syscall.F_GETFL, 0)
	if e != 0 {
		panic(fmt.Sprintf("HX-INFRA F_GETFL: %v", e))
	}
	return int(r)
}

// Readable is how many bytes of input can be read.
func (p *Pair) Readable() int {
	var n int32
	if err := ioctl(p.Slave, syscall.TIOCINQ, unsafe.Pointer(&n)); err != nil {
		panic(fmt.Sprintf("HX-INFRA TIOCINQ: %v", err))
	}
	return int(n)
}
