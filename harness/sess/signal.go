package sess

import (
	"io"
	"os"
	"syscall"

	"github.com/chzyer/readline"

	"verif/harness/vrt"
	"verif/harness/vsys"
)

var exits = []os.Signal{os.Interrupt, syscall.SIGTERM}

// ExitSignal: with CaptureExitSignal, a signal to exit closes the session whatever is going on, other
// signals do nothing to it.
func ExitSignal() {
	vsys.Reset()
	s, mode := anyKeys()
	vrt.Settle()
	s.rl.CaptureExitSignal()
	for n := vrt.Choose("others", vrt.Param("others", 2)); n > 0; n-- {
		other := vrt.Int("other", 1, 64)
		vrt.Assume(other != int(syscall.SIGINT) && other != int(syscall.SIGTERM))
		vsys.Signal(syscall.Signal(other))
		vrt.Settle()
		vrt.Assert(s.isRaw, "other signals leave the session alone")
		select {
		case <-s.res:
			vrt.Assert(false, "other signals leave the session alone")
		default:
		}
	}
	vsys.Signal(exits[vrt.Choose("signal", 2)])
	r := s.wait()
	vrt.Observe("line", r.line)
	vrt.Assert(r.err == nil || r.err == io.EOF || r.err == readline.ErrInterrupt, "a signal to exit ends the read")
	vrt.Settle()
	vrt.Assert(!s.isRaw, "raw mode is left")
	s.gone(1)
	if vrt.Choose("again", 2) == 1 {
		vsys.Signal(exits[vrt.Choose("signal", 2)])
		vrt.Settle()
	}
	s.endedBut(1)
	vrt.Reach(mode)
}

// gone checks that nothing of the session remains but the given number of signal handlers.
func (s *S) gone(handlers int) {
	select {
	case <-s.in.stop:
	default:
		vrt.Assert(false, "the input is closed")
	}
	vrt.Assert(vrt.Left(s.base) <= handlers, "no goroutine of the session is left")
}

// ExitIdle: the signal comes while no line is asked for, or just when one is.
func ExitIdle() {
	vsys.Reset()
	s := open(func(s *S, c *readline.Config) {
		c.VimMode = vrt.Choose("vim", 2) == 1
	})
	s.rl.CaptureExitSignal()
	left := 1
	if vrt.Choose("twice", 2) == 1 { // two handlers
		s.rl.CaptureExitSignal()
		left = 2
	}
	if vrt.Choose("line", 2) == 1 {
		s.str("ab\r")
		r := s.read()
		vrt.Assert(r.err == nil && r.line == "ab", "the line")
	}
	if vrt.Choose("ahead", 2) == 1 {
		s.str([]string{"c", "c\r", "\x12a"}[vrt.Choose("typed", 3)])
	}
	when := vrt.Choose("when", 4)
	sig := exits[vrt.Choose("signal", 2)]
	switch when {
	case 0:
		vsys.Signal(sig)
		vrt.Settle()
		s.start()
	case 1: // at the same time
		vsys.Signal(sig)
		s.start()
	case 2:
		s.start()
		vsys.Signal(sig)
	case 3: // while a password is asked for
		go func() {
			b, err := s.rl.ReadPassword("pw: ")
			s.res <- result{string(b), err}
		}()
		vrt.Settle()
		vsys.Signal(sig)
	}
	r := s.wait()
	vrt.Assert(r.err == nil || r.err == io.EOF, "the read ends")
	if when != 0 {
		vrt.Settle()
		if r.err == nil && r.line != "" { // what was typed before came first
			s.start()
			s.wait()
			vrt.Settle()
		}
	}
	s.gone(left)
	s.endedBut(2)
	vrt.Reach("done")
}

func init() {
	Funcs["ExitSignal"] = ExitSignal
	Funcs["ExitIdle"] = ExitIdle
}
