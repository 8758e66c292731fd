package sess

import (
	"errors"
	"io"
	"sync"

	"github.com/chzyer/readline"

	"verif/harness/vrt"
)

// sink is the application's output: it records every Write and shows it on the screen.
type sink struct {
	mu     sync.Mutex
	next   *output
	writes [][]byte
	short  int   // how much of the next write is accepted (-1: all)
	err    error // what the next write reports
}

func (k *sink) Write(b []byte) (int, error) {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.writes = append(k.writes, append([]byte{}, b...))
	if k.short >= 0 {
		k.next.Write(b[:k.short])
		return k.short, k.err
	}
	return k.next.Write(b)
}

func (k *sink) Close() error { return nil }

// payloads end in a line break
func payload(i int) []byte {
	switch i {
	case 0:
		return []byte{vrt.Byte("b", 32, 126), '\n'}
	case 1:
		return []byte("\n")
	case 2:
		return []byte("longer 世 than a row\n")
	case 3:
		return []byte("a\n\x1b[31mb\x1b[0m\n")
	case 4:
		return []byte("12345\n")
	case 5:
		return nil
	}
	// any bytes
	b := make([]byte, 3)
	for j := range b {
		b[j] = vrt.Byte("b", 0, 255)
	}
	return b
}

var errSink = errors.New("sink")

// Out: what the application writes is passed on once, unaltered, whatever the state of the read; the read
// goes on below it.
func Out() {
	widths := []int{5, 80, 4}
	width := widths[vrt.Choose("width", vrt.Param("widths", 2))]
	prompt := vrt.Choose("prompt", vrt.Param("prompts", 2))
	so, se := &sink{short: -1}, &sink{short: -1}
	state := vrt.Choose("state", 9)
	forced := state == 8 && vrt.Choose("forced", 2) == 1
	s := openScreen(width, prompt, func(s *S, c *readline.Config) {
		if forced {
			c.FuncIsTerminal = func() bool { return false }
			c.ForceUseInteractive = true
		}
		so.next, se.next = s.out, s.out
		c.Stderr = se
		c.AutoComplete = &listing{cands: [][]rune{[]rune("aa"), []rune("世b"), []rune("c")}}
	})
	s.rl.SaveHistory("axbc世d")
	pass := make(chan result, 1)
	var line []rune
	pos := 0
	below := []string(nil)
	switch state {
	case 0: // nothing is read
		s.update()
		s.base = s.t.Clone()
	case 1, 2:
		s.begin()
		line = []rune("q世cd ef")
		pos = []int{0, 4, 7}[vrt.Choose("pos", 3)]
		if state == 2 {
			line, pos = nil, 0
		}
		s.inject(line, pos)
		s.update()
	case 3: // searching
		s.begin()
		s.str("\x12bc")
		s.update()
		line, pos = s.last(0).line, s.last(0).pos
		below = []string{"bck-i-search: bc"}
		s.check(line, pos, below...)
	case 4: // candidates are shown
		s.begin()
		s.str("zz\t")
		s.update()
		line, pos = s.last(0).line, s.last(0).pos
		below = []string{"*"}
		s.check(line, pos, below...)
	case 5: // and selected
		s.begin()
		s.str("zz\t\t")
		s.update()
		line, pos = s.last(0).line, s.last(0).pos
		below = []string{"*"}
		s.check(line, pos, below...)
	case 6: // between two reads
		s.begin()
		s.str("one\r")
		s.wait()
		s.update()
		s.base = s.t.Clone()
	}
	if state == 8 { // a password is read
		s.update()
		s.base = s.t.Clone()
		s.mask = '*'
		go func() {
			cfg := s.rl.GenPasswordConfig()
			cfg.MaskRune, cfg.Prompt = '*', s.pr
			got, err := s.rl.ReadPasswordWithConfig(cfg)
			pass <- result{string(got), err}
		}()
		s.update()
		s.check(nil, 0)
		line, pos = []rune("a世cd"), 2
		s.str("a世cd\x02\x02")
		s.update()
		s.check(line, pos)
	}
	if state == 7 { // the input is over
		s.begin()
		close(s.in.ch)
		vrt.Assert(s.wait().err == io.EOF, "end of input")
		s.update()
		s.base = s.t.Clone()
	}
	reading := state != 0 && state != 6 && state != 7
	if vrt.Choose("title", 2) == 1 {
		title := []rune{vrt.Rune("t", 32, 126), 0x4E16, 'm'}
		s.rl.Operation.SetTitle(string(title))
		s.update()
		vrt.Assert(same(s.t.Title, title), "the title is set")
		if reading {
			s.check(line, pos, below...)
		} else {
			vrt.Assert(s.t.Same(s.base, 0, -1), "nothing is shown")
		}
		vrt.Reach("title")
	}
	for k := 1 + vrt.Choose("writes", vrt.Param("writes", 2)); k > 0; k-- {
		to := se
		var w io.Writer
		switch vrt.Choose("to", 3) {
		case 0:
			w, to = s.rl.Stderr(), se
		case 1:
			w, to = s.rl.Stdout(), nil
		case 2:
			w, to = s.rl, nil
		}
		kinds := vrt.Param("kinds", 6)
		i := vrt.Choose("payload", kinds)
		b := payload(i)
		keep := append([]byte{}, b...)
		if to == se && len(b) > 0 && vrt.Choose("short", 2) == 1 {
			// the writer fails
			se.short, se.err = vrt.Choose("written", len(b)), errSink
			n, err := w.Write(b)
			vrt.Assert(n == se.short && err == errSink, "the result of the underlying write is reported")
			vrt.Assert(len(se.writes) > 0 && sameBytes(se.writes[len(se.writes)-1], keep), "the output is passed on")
			vrt.Reach("failed")
			return
		}
		had := len(se.writes)
		n, err := w.Write(b)
		vrt.Assert(n == len(b) && err == nil, "the whole length is reported")
		vrt.Assert(sameBytes(b, keep), "the bytes written are left alone")
		if to == se {
			vrt.Assert(len(se.writes) == had+1 && sameBytes(se.writes[had], keep), "the output is passed on once, unaltered and in one piece")
		} else {
			s.out.mu.Lock()
			found := 0
			from := 0
			for _, c := range s.out.cuts {
				if sameBytes(s.out.buf[from:c], keep) {
					found++
				}
				from = c
			}
			s.out.mu.Unlock()
			vrt.Assert(found >= 1, "the output is passed on unaltered and in one piece")
		}
		s.update()
		s.base.Write(keep)
		if reading {
			s.check(line, pos, below...)
			if below != nil {
				vrt.Reach("below")
			}
		} else {
			vrt.Assert(s.t.Same(s.base, 0, -1) && s.t.R == s.base.R && s.t.C == s.base.C, "nothing else is shown")
		}
	}
	if state == 7 {
		vrt.Reach("over")
		return
	}
	if state == 8 {
		s.str("x\x06\r")
		res := <-pass
		vrt.Assert(res.err == nil && res.line == "a世xcd", "the password is returned")
		vrt.Reach("password")
		return
	}
	if !reading {
		s.begin()
		s.check(nil, 0)
	}
	if state == 5 {
		vrt.Reach("done")
		return
	}
	k := []string{"x", "\x02", "\x7f", "\x01"}[vrt.Choose("key", 4)]
	s.str(k)
	s.update()
	r := s.last(0)
	if state == 4 && s.rl.Operation.IsInCompleteMode() {
		s.check(r.line, r.pos, "*")
		vrt.Reach("done")
		return
	}
	if s.rl.Operation.IsSearchMode() {
		vrt.Reach("done")
		return
	}
	s.check(r.line, r.pos)
	s.str("\r")
	res := s.wait()
	vrt.Assert(res.err == nil && same([]rune(res.line), r.line), "the line is returned")
	s.update()
	s.after(r.line, "")
	vrt.Reach("done")
}

// OutRace: the same while keys are typed and several goroutines write: everything written arrives once and
// in one piece, no key is lost, and in the end the screen shows the output and below it prompt and line.
func OutRace() {
	keys := []string{"\x04", "\x12a", "\x09\x7f", "\x12\x03", "x", "\x02", "\x09", "\x09\x09\r", "\x09\x09\x07", "\x7f", "\r"}
	k := vrt.Choose("keys", vrt.Param("keys", len(keys)))
	p := &paintRec{}
	s := openScreen(12, 0, func(s *S, c *readline.Config) {
		c.Painter = p
		c.AutoComplete = &listing{word: []rune("b"), cands: [][]rune{[]rune("1"), []rune("2")}}
	})
	s.rl.SaveHistory("xay")
	s.begin()
	s.inject([]rune("abcd"), 2)
	s.update()
	s.check([]rune("abcd"), 2)
	texts := []string{"first\n", "second\n"}[:1+vrt.Choose("writers", vrt.Param("writers", 2))]
	done := make(chan int, 4)
	for i := range texts {
		t := []byte(texts[i])
		w := []io.Writer{s.rl.Stdout(), s.rl.Stderr()}[i]
		go func() {
			n, err := w.Write(t)
			vrt.Assert(n == len(t) && err == nil, "the whole length is reported")
			done <- 1
		}()
	}
	s.str(keys[k])
	for range texts {
		<-done
	}
	vrt.Settle()
	// the order in which the output arrived
	s.out.mu.Lock()
	from := 0
	var order []string
	count := make([]int, len(texts))
	for _, c := range s.out.cuts {
		for i, t := range texts {
			if string(s.out.buf[from:c]) == t {
				count[i]++
				order = append(order, t)
			}
		}
		from = c
	}
	s.out.mu.Unlock()
	for i := range texts {
		vrt.Assert(count[i] == 1, "the output arrives once and in one piece")
	}
	s.update()
	if keys[k] == "\r" {
		r := s.wait()
		vrt.Assert(r.err == nil && r.line == "abcd", "the line is returned")
		vrt.Reach("ended")
		return
	}
	for _, t := range order {
		s.base.Write([]byte(t))
	}
	op := s.rl.Operation
	if op.IsSearchMode() || op.IsInCompleteMode() {
		s.check(p.line, p.pos, "*")
		vrt.Reach("below")
	} else {
		s.check(p.line, p.pos)
	}
	vrt.Reach("done")
}

func sameBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vrt.And(ok, a[i] == b[i])
	}
	return ok
}

func init() {
	Funcs["Out"] = Out
	Funcs["OutRace"] = OutRace
}
