package sess

import (
	"io"
	"os"
	"syscall"
	"time"

	"github.com/chzyer/readline"

	"verif/harness/vrt"
	"verif/harness/vsys"
)

// Suspend: Ctrl-Z gives the terminal back before the process stops, and once the process goes on the
// session does so where it was.
func Suspend() {
	vsys.Reset()
	var widths = []int{80, 8}
	mode := vrt.Choose("mode", 7)
	vim := mode == 5
	cands := [][]rune{[]rune("xa"), []rune("yb")}
	c := openScreen(widths[vrt.Choose("width", vrt.Param("widths", 2))], []int{0, 2, 4}[vrt.Choose("prompt", vrt.Param("prompts", 2))], func(s *S, cf *readline.Config) {
		cf.VimMode = vim
		cf.AutoComplete = &tabber{cands: cands}
	})
	// something is on the screen already, and in the history
	c.t.Write([]byte("top\n"))
	c.rl.SaveHistory("old")
	var pw chan result
	if mode == 6 {
		c.base = c.t.Clone()
		pw = make(chan result, 1)
		c.mask, c.pr = '*', "pw "
		go func() {
			cf := c.rl.GenPasswordConfig()
			cf.Prompt, cf.MaskRune = "pw ", '*'
			cf.FuncMakeRaw, cf.FuncExitRaw = c.cfg.FuncMakeRaw, c.cfg.FuncExitRaw
			cf.FuncOnWidthChanged = c.cfg.FuncOnWidthChanged
			b, err := c.rl.ReadPasswordWithConfig(cf)
			pw <- result{string(b), err}
		}()
		c.update()
	} else {
		c.begin()
	}
	var line []rune
	for n := vrt.Choose("n", vrt.Param("n", 2)+1); n > 0; n-- {
		r := scrChar(vrt.Choose("class", 2))
		vrt.Assume(r != 'o') // which is searched for
		line = append(line, r)
		c.keys(r)
	}
	if len(line) > 0 && vrt.Param("long", 1) == 1 && vrt.Choose("long", 2) == 1 {
		line = append(line, []rune("0123456789")...)
		c.str("0123456789")
	}
	pos := len(line)
	for n := vrt.Choose("left", 2); n > 0 && pos > 0; n-- {
		if vim {
			break
		}
		c.keys(2)
		pos--
	}
	c.update()
	switch mode {
	case 1: // searching
		c.keys(18)
		c.keys('o')
		line, pos = []rune("old"), 0
	case 2: // candidates listed
		c.keys(9)
	case 3: // one of them selected
		c.keys(9, 9)
	case 4: // a key sequence before
		c.str("\x1b[D")
		if pos > 0 {
			pos--
		}
	}
	c.update()
	ticks := vrt.Param("ticks", 3)
	for times := vrt.Param("times", 2); times > 0; times-- {
		stopped := 0
		vsys.OnSend = func(pid int, sig os.Signal) {
			vrt.Assert(sig == syscall.SIGTSTP, "the process is stopped, nothing else")
			vrt.Assert(!c.isRaw, "raw mode is off when the process stops")
			c.t.Write(c.out.take())
			if pid == vsys.Self {
				stopped++
			}
		}
		c.keys(26)
		c.update()
		vrt.Assert(stopped == 1, "Ctrl-Z stops the process")
		vrt.Assert(!c.isRaw && c.raw == c.unraw, "raw mode is off while the process is stopped")
		vrt.Assert(c.t.Same(c.base, 0, -1) && c.t.R == c.base.R && c.t.C == c.base.C, "nothing of the line is left on the screen")
		for n := ticks * vrt.Choose("ticks", 2); n > 0; n-- {
			vsys.Pass(time.Duration(vrt.Int("short", 0, 50)) * time.Millisecond)
			vrt.Settle()
			vrt.Assert(!c.isRaw, "raw mode stays off until the process goes on")
		}
		ticks = vrt.Param("ticks2", 0)
		vsys.Pass(time.Duration(vrt.Int("long", 1000, 1000000)) * time.Millisecond)
		c.update()
		vrt.Assert(c.isRaw, "raw mode is on again")
		c.check(line, pos)
		vrt.Assert(c.raw == c.unraw+1, "raw mode is entered once")
	}
	x := ascii("x")
	c.keys(x)
	line, pos = cat(line[:pos], []rune{x}, line[pos:]), pos+1
	c.update()
	c.check(line, pos)
	c.str("\r")
	var r result
	if pw != nil {
		r = <-pw
	} else {
		r = c.wait()
	}
	vrt.Observe("line", r.line)
	vrt.Assert(r.err == nil && same([]rune(r.line), line), "the line is the one from before")
	vrt.Settle()
	vrt.Assert(c.raw == c.unraw, "raw mode is left as often as entered")
	vrt.Assert(vrt.Left(c.S.base) <= 2, "nobody waits for another resume")
	vrt.Reach("done")
}

func init() { Funcs["Suspend"] = Suspend }

// SuspendClose: the session is closed while the process is stopped, or just as it goes on.
func SuspendClose() {
	vsys.Reset()
	s := open(func(s *S, c *readline.Config) { c.VimMode = vrt.Choose("vim", 2) == 1 })
	signal := vrt.Choose("signal", 2) == 1
	if signal {
		s.rl.CaptureExitSignal()
	}
	stopped := 0
	vsys.OnSend = func(pid int, sig os.Signal) { stopped++ }
	how := vrt.Choose("how", 2)
	if how == 0 {
		s.start()
	} else {
		go func() {
			b, err := s.rl.ReadPassword("pw: ")
			s.res <- result{string(b), err}
		}()
	}
	if vrt.Choose("text", 2) == 1 {
		s.keys('a')
	}
	s.keys(26)
	vrt.Settle()
	vrt.Assert(stopped > 0, "Ctrl-Z stops the process")
	long := time.Duration(vrt.Int("long", 1000, 1000000)) * time.Millisecond
	resume := func() { vsys.Pass(long) }
	done := make(chan int, 1)
	end := func() {
		if signal {
			vsys.Signal(exits[0])
		} else {
			s.rl.Close()
		}
		done <- 1
	}
	switch vrt.Choose("order", 3) {
	case 0:
		go end()
		vrt.Settle()
		resume()
	case 1:
		go end()
		resume()
	case 2:
		go resume()
		go end()
	}
	vrt.Settle()
	select {
	case <-done:
	default:
		vrt.Assert(false, "closing does not wait")
	}
	r := s.wait()
	vrt.Assert(r.err == nil || r.err == io.EOF, "the read ends")
	vrt.Settle()
	vrt.Assert(!s.isRaw, "raw mode is left")
	s.endedBut(2)
	vrt.Reach("done")
}

func init() { Funcs["SuspendClose"] = SuspendClose }
