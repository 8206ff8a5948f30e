// Package fault is an io.Writer with a scripted sequence of partial writes and
// errors.
package fault

import (
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"

	"pgregory.net/rapid"
)

// Writer passes bytes to W, following Plan one step per Write call.
type Writer struct {
	W    io.Writer
	Plan []Step
	Got  int // bytes accepted
	Log  []string
}

// Step says how many bytes a Write accepts before failing with Err. N < 0
// accepts everything and succeeds.
type Step struct {
	N   int
	Err error
}

// Block is a would-block error in one of the shapes the os package uses.
func Block(t *rapid.T) error {
	switch rapid.IntRange(0, 2).Draw(t, "blockErr") {
	case 0:
		return syscall.EWOULDBLOCK
	case 1:
		return &os.PathError{Op: "write", Path: "/dev/tty", Err: syscall.EAGAIN}
	}
	return &os.PathError{Op: "write", Path: "/dev/tty", Err: os.NewSyscallError("write", syscall.EWOULDBLOCK)}
}

// Fatal is an error that is not would-block.
func Fatal(t *rapid.T) error {
	switch rapid.IntRange(0, 3).Draw(t, "fatalErr") {
	case 0:
		return syscall.EIO
	case 1:
		return &os.PathError{Op: "write", Path: "/dev/tty", Err: syscall.EPIPE}
	case 2:
		return io.ErrClosedPipe
	}
	return errors.New("write failed")
}

func (w *Writer) Write(p []byte) (int, error) {
	if len(w.Plan) == 0 {
		w.Got += len(p)
		return w.W.Write(p)
	}
	s := w.Plan[0]
	w.Plan = w.Plan[1:]
	if s.N < 0 {
		w.Got += len(p)
		return w.W.Write(p)
	}
	n := s.N
	if n >= len(p) {
		n = len(p) - 1
	}
	w.Got += n
	_, _ = w.W.Write(p[:n])
	w.Log = append(w.Log, fmt.Sprintf("%d of %d bytes: %v", n, len(p), s.Err))
	return n, s.Err
}
