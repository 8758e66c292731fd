package sess

import (
	"io"

	"github.com/chzyer/readline"

	"verif/harness/vrt"
)

// ended checks a closed session: raw mode is left, closing again is harmless, reads report the end.
func (s *S) ended() { s.endedBut(0) }

// endedBut leaves out goroutines which are meant to stay.
func (s *S) endedBut(stay int) {
	vrt.Assert(!s.isRaw, "raw mode is left")
	s.rl.Close()
	s.rl.Terminal.Close()
	for i := 0; ; i++ {
		r := s.read()
		if r.err == io.EOF {
			break
		}
		vrt.Assert(i < 2, "reading after closing ends with io.EOF")
	}
	r := s.read()
	vrt.Assert(r.err == io.EOF && r.line == "", "reading after closing ends with io.EOF")
	vrt.Assert(!s.isRaw, "raw mode is left")
	s.rl.Close()
	vrt.Settle()
	vrt.Assert(vrt.Left(s.base) <= stay, "no goroutine of the session is left")
}

var closeKeys = []string{"", "a", "a\r", "ab\x12b", "a\x09", "\x04", "\x03x", "a\rb\rc", "\x1b[", "\x1b", "a\nb"}

// CloseAny: Close at any moment of a read, from another goroutine.
func CloseAny() {
	how := vrt.Choose("how", vrt.Param("hows", 2))
	keys := closeKeys[vrt.Choose("keys", vrt.Param("keys", len(closeKeys)))]
	when := vrt.Choose("when", 3)
	extra := vrt.Choose("extra", vrt.Param("extra", 3))
	vim := vrt.Choose("vim", vrt.Param("vims", 2)) == 1
	s := open(func(s *S, c *readline.Config) {
		c.AutoComplete = &tabber{cands: [][]rune{[]rune("x"), []rune("y")}}
		c.VimMode = vim
	})
	closed := make(chan error, 2)
	if when == 0 {
		go func() { closed <- s.rl.Close() }()
	}
	go func() {
		var l string
		var err error
		if how == 0 {
			l, err = s.rl.Readline()
		} else {
			var b []byte
			b, err = s.rl.ReadPassword("pw: ")
			l = string(b)
		}
		s.res <- result{l, err}
	}()
	if when == 1 {
		go func() { closed <- s.rl.Close() }()
	}
	s.str(keys)
	if when == 2 {
		vrt.Settle()
		if extra == 2 {
			// the application has not asked for the next line yet
			s.keys('q')
		}
		go func() {
			err := s.rl.Close()
			s.mu.Lock()
			raw := s.isRaw
			s.mu.Unlock()
			vrt.Assert(extra == 1 || !raw, "raw mode is left when Close returns")
			closed <- err
		}()
	}
	if extra == 1 {
		go func() { closed <- s.rl.Close() }()
		vrt.Assert(<-closed == nil, "Close succeeds")
	}
	vrt.Assert(<-closed == nil, "Close succeeds")
	r := <-s.res
	vrt.Assert(r.err == nil || r.err == io.EOF || r.err == readline.ErrInterrupt, "the read ends")
	s.ended()
	vrt.Reach("done")
}

// CloseInside: Close called from the callbacks of the session itself.
func CloseInside() {
	where := vrt.Choose("where", 5)
	n := 0
	var s *S
	bye := func() {
		n++
		if n == 2 { // not on the first call, which comes before any key
			s.feed([]byte("zz"))
			vrt.Settle()
			vrt.Assert(s.rl.Close() == nil, "Close succeeds")
			vrt.Reach("closed")
		}
	}
	s = open(func(_ *S, c *readline.Config) {
		switch where {
		case 0:
			c.SetListener(func(l []rune, p int, k rune) ([]rune, int, bool) {
				bye()
				return nil, 0, false
			})
		case 1:
			c.FuncFilterInputRune = func(r rune) (rune, bool) {
				bye()
				return r, true
			}
		case 2:
			c.SetPainter(painter(func(l []rune, p int) []rune { return l }))
		case 3:
			c.AutoComplete = completeFunc(func(l []rune, p int) ([][]rune, int) {
				n = 1
				bye()
				return nil, 0
			})
		case 4:
			// from another session's callback
			c.SetListener(func(l []rune, p int, k rune) ([]rune, int, bool) {
				go bye()
				return nil, 0, false
			})
		}
	})
	s.start()
	vrt.Settle()
	s.str("a\x09b")
	vrt.Settle()
	if where == 2 {
		s.rl.Close()
	}
	r := s.wait()
	vrt.Assert(r.err == nil || r.err == io.EOF, "the read ends")
	s.ended()
	vrt.Reach("done")
}

type painter func([]rune, int) []rune

func (f painter) Paint(l []rune, p int) []rune { return f(l, p) }

type completeFunc func([]rune, int) ([][]rune, int)

func (f completeFunc) Do(l []rune, p int) ([][]rune, int) { return f(l, p) }

// CloseConfig: Close after the configuration was switched, to one with the same or another input.
func CloseConfig() {
	s := open(nil)
	kind := vrt.Choose("kind", 4)
	switch kind {
	case 0:
		s.rl.SetConfig(s.rl.Config.Clone())
	case 1:
		c := &readline.Config{Prompt: "new> ", Stdin: s.in, Stdout: s.out, Stderr: s.out, FuncGetWidth: s.cfg.FuncGetWidth, FuncIsTerminal: s.cfg.FuncIsTerminal, FuncMakeRaw: s.cfg.FuncMakeRaw, FuncExitRaw: s.cfg.FuncExitRaw}
		s.rl.SetConfig(c)
	case 2, 3:
		c := &readline.Config{Prompt: "new> ", Stdin: newInput(), Stdout: s.out, Stderr: s.out, FuncGetWidth: s.cfg.FuncGetWidth, FuncIsTerminal: s.cfg.FuncIsTerminal, FuncMakeRaw: s.cfg.FuncMakeRaw, FuncExitRaw: s.cfg.FuncExitRaw}
		if kind == 3 { // while reading
			s.start()
			vrt.Settle()
		}
		s.rl.SetConfig(c)
	}
	if kind != 3 {
		s.start()
		vrt.Settle()
	}
	done := make(chan error, 1)
	go func() { done <- s.rl.Close() }()
	vrt.Assert(<-done == nil, "Close succeeds")
	r := s.wait()
	vrt.Assert(r.err == nil || r.err == io.EOF, "the read ends")
	s.ended()
	vrt.Reach("done")
}

func init() {
	Funcs["CloseAny"] = CloseAny
	Funcs["CloseInside"] = CloseInside
	Funcs["CloseConfig"] = CloseConfig
}
