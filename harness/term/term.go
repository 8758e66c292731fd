// Package term checks how the package treats the terminal device, on the stand-in for the operating
// system (variant shim).
package term

import (
	"io"
	"syscall"

	"github.com/chzyer/readline"

	"verif/harness/vrt"
	"verif/harness/vsys"
)

// Funcs are the harness entry points.
var Funcs = map[string]func(){}

// a terminal in any state
func anyTerm() *vsys.Term {
	t := &vsys.Term{Cols: 80, Rows: 24}
	t.State.Iflag = vrt.Uint32("iflag")
	t.State.Oflag = vrt.Uint32("oflag")
	t.State.Cflag = vrt.Uint32("cflag")
	t.State.Lflag = vrt.Uint32("lflag")
	t.State.Line = vrt.Byte("line", 0, 255)
	t.State.Ispeed = vrt.Uint32("ispeed")
	t.State.Ospeed = vrt.Uint32("ospeed")
	for i := range t.State.Cc {
		t.State.Cc[i] = vrt.Byte("cc", 0, 255)
	}
	return t
}

func eq(a, b *syscall.Termios) bool {
	ok := vrt.And(vrt.And(a.Iflag == b.Iflag, a.Oflag == b.Oflag), vrt.And(a.Cflag == b.Cflag, a.Lflag == b.Lflag))
	ok = vrt.And(ok, vrt.And(a.Line == b.Line, vrt.And(a.Ispeed == b.Ispeed, a.Ospeed == b.Ospeed)))
	for i := range a.Cc {
		ok = vrt.And(ok, a.Cc[i] == b.Cc[i])
	}
	return ok
}

const (
	rawI = syscall.IGNBRK | syscall.BRKINT | syscall.PARMRK | syscall.ISTRIP | syscall.INLCR | syscall.IGNCR | syscall.ICRNL | syscall.IXON
	rawL = syscall.ECHO | syscall.ECHONL | syscall.ICANON | syscall.ISIG | syscall.IEXTEN
	rawC = syscall.CSIZE | syscall.PARENB
)

// isRaw compares a state with the raw form of another: what must be off is off, and nothing else
// differs than what cfmakeraw changes (output processing stays).
func isRaw(s, orig *syscall.Termios) bool {
	off := vrt.And(s.Lflag&(syscall.ECHO|syscall.ICANON|syscall.ISIG) == 0, s.Iflag&(syscall.ICRNL|syscall.INLCR|syscall.IGNCR|syscall.ISTRIP|syscall.IXON) == 0)
	off = vrt.And(off, vrt.And(s.Cc[syscall.VMIN] == 1, s.Cc[syscall.VTIME] == 0))
	same := vrt.And(s.Iflag&^rawI == orig.Iflag&^rawI, s.Lflag&^rawL == orig.Lflag&^rawL)
	same = vrt.And(same, vrt.And(s.Oflag == orig.Oflag, s.Cflag&^rawC == orig.Cflag&^rawC))
	same = vrt.And(same, vrt.Or(s.Cflag&syscall.CSIZE == syscall.CS8, s.Cflag&syscall.CSIZE == orig.Cflag&syscall.CSIZE))
	same = vrt.And(same, vrt.And(s.Line == orig.Line, vrt.And(s.Ispeed == orig.Ispeed, s.Ospeed == orig.Ospeed)))
	for i := range s.Cc {
		if i != syscall.VMIN && i != syscall.VTIME {
			same = vrt.And(same, s.Cc[i] == orig.Cc[i])
		}
	}
	return vrt.And(off, same)
}

// Raw: MakeRaw, GetState and Restore on any terminal state, with any operation failing.
func Raw() {
	vsys.Reset()
	t := anyTerm()
	fd := vrt.Choose("fd", 3)
	vsys.Fds[fd] = t
	orig := t.State
	vsys.IoctlFault = vrt.Choose("fault", 5)
	st, err := readline.MakeRaw(fd)
	if vsys.IoctlFault == 1 || vsys.IoctlFault == 2 {
		vrt.Assert(err != nil, "MakeRaw reports the failure")
		vrt.Assert(eq(&t.State, &orig), "a failed MakeRaw leaves the terminal as it was")
		vrt.Reach("failed")
		return
	}
	vrt.Assert(err == nil, "MakeRaw succeeds")
	vrt.Assert(isRaw(&t.State, &orig), "raw mode turns off what it must and nothing else")
	raw := t.State
	get, err := readline.GetState(fd)
	if vsys.IoctlFault == 3 {
		vrt.Assert(err != nil, "GetState reports the failure")
	} else {
		vrt.Assert(err == nil, "GetState succeeds")
		t.State = orig
		vrt.Assert(readline.Restore(fd, get) == nil || vsys.IoctlFault == 4, "Restore succeeds")
		if vsys.IoctlFault != 4 {
			vrt.Assert(eq(&t.State, &raw), "Restore puts back what GetState saw")
		}
	}
	t.State = raw
	err = readline.Restore(fd, st)
	if vsys.IoctlFault == 4 && vsys.Ioctls() == 4 {
		vrt.Assert(err != nil, "Restore reports the failure")
		vrt.Assert(eq(&t.State, &raw), "a failed Restore leaves the terminal as it was")
		vrt.Assert(readline.Restore(fd, st) == nil, "Restore succeeds later")
	}
	vrt.Assert(eq(&t.State, &orig), "Restore puts back the exact state")
	_, err = readline.MakeRaw(7)
	vrt.Assert(err != nil, "MakeRaw of something else fails")
	_, err = readline.GetState(7)
	vrt.Assert(err != nil, "GetState of something else fails")
	vrt.Reach("done")
}

// Mode: any sequence of entering and leaving raw mode ends in the state before it.
func Mode() {
	vsys.Reset()
	t := anyTerm()
	vsys.Fds[0] = t
	orig := t.State
	vsys.IoctlFault = vrt.Choose("fault", vrt.Param("steps", 4)*2+1)
	m := new(readline.RawMode)
	for n := vrt.Choose("n", vrt.Param("steps", 4)+1); n > 0; n-- {
		before := t.State
		at := vsys.Ioctls()
		if vrt.Choose("enter", 2) == 1 {
			err := m.Enter()
			if err == nil {
				vrt.Assert(isRaw(&t.State, &orig), "raw mode turns off what it must and nothing else")
				vrt.Reach("raw")
			} else {
				vrt.Assert(eq(&t.State, &before), "a failed Enter leaves the terminal as it was")
			}
			vrt.Assert((err != nil) == (at < vsys.IoctlFault && vsys.IoctlFault <= vsys.Ioctls()), "Enter reports failures")
		} else {
			err := m.Exit()
			failed := at < vsys.IoctlFault && vsys.IoctlFault <= vsys.Ioctls()
			vrt.Assert((err != nil) == failed, "Exit reports failures")
			if failed {
				vrt.Assert(eq(&t.State, &before), "a failed Exit leaves the terminal as it was")
			} else {
				vrt.Assert(eq(&t.State, &orig), "Exit puts back the exact state")
				// what the application makes of the terminal between reads is kept
				if vrt.Choose("change", 2) == 1 {
					t.State.Lflag = vrt.Uint32("lflag2")
					orig = t.State
					vrt.Assert(m.Exit() == nil && eq(&t.State, &orig), "leaving again does not touch the terminal")
					vrt.Reach("changed")
				}
			}
		}
	}
	vsys.IoctlFault = 0
	vrt.Assert(m.Exit() == nil, "Exit succeeds")
	vrt.Assert(eq(&t.State, &orig), "the terminal ends in the exact state from before")
	vrt.Reach("done")
}

// Password: reading a password from a terminal hides it and restores the exact state on every exit.
func Password() {
	vsys.Reset()
	t := anyTerm()
	fd := vrt.Choose("fd", 2) * 3
	vsys.Fds[fd] = t
	orig := t.State
	vsys.IoctlFault = vrt.Choose("fault", 4)
	n := []int{0, 1, 2, 15, 16, 17, 31, 32, 33}[vrt.Choose("n", vrt.Param("sizes", 9))]
	line := make([]byte, n)
	for i := range line {
		if i < 2 || i > n-2 || i == 15 || i == 16 {
			line[i] = vrt.Byte("c", 0, 255)
			vrt.Assume(line[i] != '\n')
		} else {
			line[i] = 'x'
		}
	}
	end := vrt.Choose("end", 3) // line end, end of file after the text, read error
	switch {
	case end == 0:
		t.Lines = [][]byte{append(append([]byte{}, line...), '\n'), []byte("next\n")}
	case n > 0:
		t.Lines = [][]byte{append([]byte{}, line...)}
	}
	if end == 2 {
		for i := vrt.Choose("when", n/16+1); i > 0; i-- {
			t.Errs = append(t.Errs, nil)
		}
		t.Errs = append(t.Errs, syscall.EIO)
	}
	reads := 0
	t.OnRead = func() {
		reads++
		s := &t.State
		ok := vrt.And(s.Lflag&syscall.ECHO == 0, s.Lflag&(syscall.ICANON|syscall.ISIG) == syscall.ICANON|syscall.ISIG)
		ok = vrt.And(ok, s.Iflag&syscall.ICRNL != 0)
		vrt.Assert(ok, "the password is read as one line, without echo, and can be interrupted")
		other := *s
		other.Lflag = other.Lflag&^(syscall.ECHO|syscall.ICANON|syscall.ISIG) | orig.Lflag&(syscall.ECHO|syscall.ICANON|syscall.ISIG)
		other.Iflag = other.Iflag&^syscall.ICRNL | orig.Iflag&syscall.ICRNL
		vrt.Assert(eq(&other, &orig), "nothing else changes")
	}
	got, err := readline.ReadPassword(fd)
	vrt.Observe("result", got, err != nil, reads)
	switch vsys.IoctlFault {
	case 1, 2:
		vrt.Assert(err != nil && reads == 0, "the failure is reported before anything is read")
		vrt.Assert(eq(&t.State, &orig), "the terminal is as it was")
		vrt.Reach("failed")
		return
	case 3:
		if reads > 0 {
			vrt.Reach("not restored")
			return // the terminal cannot be restored
		}
	}
	vrt.Assert(eq(&t.State, &orig), "the terminal is exactly as it was")
	switch {
	case end == 2:
		vrt.Assert(err != nil, "the read error is reported")
		vrt.Reach("read error")
	case end == 1 && n == 0:
		vrt.Assert(err == io.EOF, "end of file")
	default:
		vrt.Assert(err == nil, "no error")
		vrt.Assert(len(got) == n, "length")
		ok := true
		for i := range line {
			ok = vrt.And(ok, got[i] == line[i])
		}
		vrt.Assert(ok, "the line without its end is returned")
		vrt.Reach("done")
	}
}

// Size: what is a terminal, and how wide it is.
func Size() {
	vsys.Reset()
	var w [3]int
	for fd := 0; fd < 3; fd++ {
		if vrt.Choose("tty", 2) == 1 {
			t := &vsys.Term{Cols: uint16(vrt.Int("cols", 0, 65535)), Rows: uint16(vrt.Int("rows", 0, 65535))}
			vsys.Fds[fd] = t
			w[fd] = int(t.Cols)
			c, r, err := readline.GetSize(fd)
			vrt.Assert(err == nil && c == int(t.Cols) && r == int(t.Rows), "size")
		} else {
			w[fd] = -1
			_, _, err := readline.GetSize(fd)
			vrt.Assert(err != nil, "no size")
		}
		vrt.Assert(readline.IsTerminal(fd) == (w[fd] >= 0), "IsTerminal")
	}
	vrt.Assert(readline.DefaultIsTerminal() == (w[0] >= 0 && (w[1] >= 0 || w[2] >= 0)), "DefaultIsTerminal")
	want := w[1]
	if w[1] < 0 {
		want = w[2]
	}
	vrt.Assert(readline.GetScreenWidth() == want, "GetScreenWidth")
	vrt.Assert(readline.GetStdin() == 0, "GetStdin")
	vrt.Reach("done")
}

// Session: the terminal is raw while a line is read and in its exact state otherwise.
func Session() {
	vsys.Reset()
	t := anyTerm()
	vsys.Fds[0] = t
	vsys.Fds[1] = t
	orig := t.State
	rl, err := readline.New("> ")
	vrt.Assert(err == nil, "New")
	vrt.Assert(eq(&t.State, &orig), "a session does not touch the terminal before a read")
	closed := false
	for n := 1 + vrt.Choose("reads", vrt.Param("reads", 2)); n > 0 && !closed; n-- {
		how := vrt.Choose("how", 4)
		done := make(chan int, 1)
		go func() {
			switch how {
			case 0:
				rl.Readline()
			case 1:
				rl.ReadPassword("pw: ")
			case 2:
				rl.ReadlineWithDefault("d")
			case 3:
				rl.ReadSlice()
			}
			done <- 1
		}()
		vrt.Settle()
		vrt.Assert(isRaw(&t.State, &orig), "raw while reading")
		vsys.OsStdin.In <- []byte("a")
		vrt.Settle()
		vrt.Assert(isRaw(&t.State, &orig), "raw while reading")
		switch vrt.Choose("end", 4) {
		case 0:
			vsys.OsStdin.In <- []byte("\r")
		case 1:
			vsys.OsStdin.In <- []byte("\x03")
		case 2:
			close(vsys.OsStdin.In)
			closed = true
		case 3:
			rl.Close()
			closed = true
		}
		<-done
		vrt.Assert(eq(&t.State, &orig), "the terminal is exactly as it was after the read")
		if vrt.Choose("change", 2) == 1 {
			t.State.Iflag = vrt.Uint32("iflag2")
			orig = t.State
		}
	}
	rl.Close()
	vrt.Assert(eq(&t.State, &orig), "closing leaves the terminal as it is")
	vrt.Reach("done")
}

// Winch: a change of the window size reaches every session.
func Winch() {
	vsys.Reset()
	n := [2]int{}
	for i := 0; i < vrt.Param("sessions", 2); i++ {
		i := i
		readline.DefaultOnWidthChanged(func() { n[i]++ })
	}
	vrt.Settle()
	for i := 1; i <= 2; i++ {
		vsys.Signal(syscall.SIGWINCH)
		vrt.Settle()
		vrt.Assert(n[vrt.Param("sessions", 2)-1] == i, "the last session is told")
		vrt.Assert(n[0] == i, "the first session is told")
	}
	vrt.Reach("done")
}

func init() {
	Funcs["Raw"] = Raw
	Funcs["Mode"] = Mode
	Funcs["Password"] = Password
	Funcs["Size"] = Size
	Funcs["Session"] = Session
	Funcs["Winch"] = Winch
}
