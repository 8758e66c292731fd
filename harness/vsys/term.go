package vsys

import (
	"os"
	"syscall"
	"unsafe"
)

// Term is one terminal device.
type Term struct {
	State  syscall.Termios
	Cols   uint16
	Rows   uint16
	Sets   int      // times the state was set
	Lines  [][]byte // what reads return
	Errs   []error  // with which errors (nil: none)
	OnRead func()
}

var (
	// Fds are the terminals by file descriptor; a missing one is not a terminal.
	Fds map[int]*Term
	// IoctlFault makes the n-th terminal operation (1 is the first) fail.
	IoctlFault int
	ioctls     int

	sigs []sigReg
)

type sigReg struct {
	c   chan<- os.Signal
	set []os.Signal
}

func resetTerm() {
	Fds, IoctlFault, ioctls, sigs = map[int]*Term{}, 0, 0, nil
}

// Ioctls is the number of terminal operations so far.
func Ioctls() int { return ioctls }

func ioctl(fd int, req uintptr, arg uintptr) syscall.Errno {
	ioctls++
	if ioctls == IoctlFault {
		return syscall.EIO
	}
	t := Fds[fd]
	if t == nil {
		return syscall.ENOTTY
	}
	switch req {
	case 0x5401:
		*(*syscall.Termios)(unsafe.Pointer(arg)) = t.State
	case 0x5402, 0x5403, 0x5404:
		t.State = *(*syscall.Termios)(unsafe.Pointer(arg))
		t.Sets++
	case 0x5413:
		*(*[4]uint16)(unsafe.Pointer(arg)) = [4]uint16{t.Rows, t.Cols, 0, 0}
	default:
		return syscall.EINVAL
	}
	return 0
}

func SysSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, uintptr, syscall.Errno) {
	if trap != syscall.SYS_IOCTL {
		return ^uintptr(0), 0, syscall.ENOSYS
	}
	if e := ioctl(int(a1), a2, a3); e != 0 {
		return ^uintptr(0), 0, e
	}
	return 0, 0, 0
}

func SysSyscall(trap, a1, a2, a3 uintptr) (uintptr, uintptr, syscall.Errno) {
	return SysSyscall6(trap, a1, a2, a3, 0, 0, 0)
}

func SysRawSyscall(trap, a1, a2, a3 uintptr) (uintptr, uintptr, syscall.Errno) {
	return SysSyscall6(trap, a1, a2, a3, 0, 0, 0)
}

// SysRead reads from a terminal. At the end of Lines it reports the end of the file.
func SysRead(fd int, p []byte) (int, error) {
	t := Fds[fd]
	if t == nil {
		return -1, syscall.EBADF
	}
	if t.OnRead != nil {
		t.OnRead()
	}
	if len(t.Errs) > 0 {
		e := t.Errs[0]
		t.Errs = t.Errs[1:]
		if e != nil {
			return -1, e
		}
	}
	if len(t.Lines) == 0 {
		return 0, nil
	}
	n := copy(p, t.Lines[0])
	if n == len(t.Lines[0]) {
		t.Lines = t.Lines[1:]
	} else {
		t.Lines[0] = t.Lines[0][n:]
	}
	return n, nil
}

func SigNotify(c chan<- os.Signal, set ...os.Signal) { sigs = append(sigs, sigReg{c, set}) }

// Signal delivers a signal.
func Signal(s os.Signal) {
	for _, r := range sigs {
		for _, x := range r.set {
			if x == s {
				select {
				case r.c <- s:
				default:
				}
			}
		}
	}
}
