// Package pipes looks into pipes.
package pipes

import (
	"os"
	"syscall"
	"unsafe"
)

// Pending says whether what was written to a pipe was not read yet, and still
// can be.
func Pending(w *os.File) bool {
	sc, err := w.SyscallConn()
	if err != nil {
		return false
	}
	n := int32(0)
	_ = sc.Control(func(fd uintptr) {
		const fionread = 0x541b
		_, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, fionread, uintptr(unsafe.Pointer(&n)))
		if e != 0 {
			panic("HX-INFRA FIONREAD: " + e.Error())
		}
		if n > 0 { // is there still a reader?
			var p = [1]struct {
				fd      int32
				ev, rev int16
			}{{fd: int32(fd), ev: 4}}
			_, _, _ = syscall.Syscall(syscall.SYS_POLL, uintptr(unsafe.Pointer(&p)), 1, 0)
			if p[0].rev&8 != 0 {
				n = 0
			}
		}
	})
	return n > 0
}
