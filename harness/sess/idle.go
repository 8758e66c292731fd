package sess

import (
	"io"
	"sync/atomic"

	"github.com/chzyer/readline"

	"verif/harness/vrt"
)

// idle asserts that nobody reads the input, and lets somebody else read it.
func (s *S) idle(when string) {
	vrt.Settle()
	vrt.Assert(atomic.LoadInt32(&s.in.busy) == 0, when+": the input is not read")
	c := vrt.Byte("other", 0, 255)
	s.feed([]byte{c, 'y'})
	b := make([]byte, 8)
	n, err := s.in.Read(b)
	vrt.Assert(err == nil && n == 2 && b[0] == c && b[1] == 'y', when+": others read what is typed")
	vrt.Assert(s.raw == s.unraw, when+": raw mode is off")
}

// end feeds the keys until the read returns.
func (s *S) end(key string) bool {
	for j := 0; j < 4; j++ {
		s.str(key)
		vrt.Settle()
		select {
		case <-s.res:
			return true
		default:
		}
	}
	return false
}

// Idle: whatever the editor was doing, once the read has returned the input is left alone until the
// next one, which works.
func Idle() {
	s, mode := anyKeys()
	over := false
	for j := vrt.Param("steps", 1); j > 0 && !over; j-- {
		s.anyKey()
		vrt.Settle()
		select {
		case <-s.res:
			over = true
		default:
		}
	}
	if !over {
		key := []string{"\x03", "\r"}[vrt.Choose("end", 2)]
		if !s.end(key) {
			vrt.Assert(key == "\r", "Ctrl-C ends the read")
			vrt.Assert(s.end("\x03"), "Ctrl-C ends the read")
		}
	}
	s.idle("after the read")
	s.start()
	s.str("ok\r")
	r := s.wait()
	vrt.Assert(r.err == nil && r.line == "ok", "the next line is the one typed")
	s.idle("after the next read")
	vrt.Reach(mode)
}

// IdleCalls: none of the other calls of a session reads the input, and each kind of read ends reading.
func IdleCalls() {
	s := open(func(s *S, c *readline.Config) {
		c.VimMode = vrt.Choose("vim", 2) == 1
		c.FuncIsTerminal = func() bool { return true }
	})
	s.idle("before the first read")
	for k := vrt.Param("calls", 2); k > 0; k-- {
		end := []string{"\r", "\n", "\x03", "\x04"}[vrt.Choose("end", 4)]
		text := []string{"", "a"}[vrt.Choose("text", 2)]
		if end == "\x04" && text != "" {
			vrt.Cut("no end")
		}
		read := func(f func() error) {
			done := make(chan error, 1)
			go func() { done <- f() }()
			vrt.Settle()
			s.str(text)
			vrt.Settle()
			vrt.Assert(atomic.LoadInt32(&s.in.busy) == 1, "a read reads the input")
			s.str(end)
			err := <-done
			switch end {
			case "\x03":
				vrt.Assert(err == readline.ErrInterrupt, "interrupted")
			case "\x04":
				vrt.Assert(err == io.EOF, "end of file")
			default:
				vrt.Assert(err == nil, "entered")
			}
			vrt.Reach("read")
		}
		switch vrt.Choose("call", 11) {
		case 0:
			read(func() error { _, err := s.rl.Readline(); return err })
		case 1:
			read(func() error { _, err := s.rl.ReadPassword("pw: "); return err })
		case 2:
			if end == "\x04" {
				vrt.Cut("no end")
			}
			read(func() error { _, err := s.rl.ReadlineWithDefault("d"); return err })
		case 3:
			read(func() error { return s.rl.Line().Error })
		case 4:
			s.rl.SetPrompt("p ")
			s.rl.SaveHistory("x")
		case 5:
			s.rl.Stdout().Write([]byte("text\n"))
			s.rl.Refresh()
		case 6:
			s.rl.SetVimMode(!s.rl.IsVimMode())
		case 7:
			s.rl.SetConfig(s.rl.Config.Clone())
		case 8:
			s.resize()
			s.rl.Clean()
		case 9:
			s.rl.ResetHistory()
			s.rl.HistoryDisable()
			s.rl.HistoryEnable()
		case 10:
			s.rl.Operation.SetBuffer("")
		}
		s.idle("after the call")
	}
	s.rl.Close()
	vrt.Settle()
	vrt.Assert(atomic.LoadInt32(&s.in.busy) == 0, "after Close the input is not read")
	vrt.Reach("done")
}

func init() {
	Funcs["Idle"] = Idle
	Funcs["IdleCalls"] = IdleCalls
}
