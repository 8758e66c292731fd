package sess

import (
	"io"

	"github.com/chzyer/readline"

	"verif/harness/spec"
	"verif/harness/vrt"
)

// utf8 lengths by class; every rune of the class
func anyChar(name string, class int) rune {
	var r rune
	switch class {
	case 0:
		r = vrt.Rune(name, 32, 126)
	case 1:
		r = vrt.Rune(name, 0xA0, 0x7FF)
	case 2:
		r = vrt.Rune(name, 0x800, 0xFFFF)
		vrt.Assume(vrt.And(r != magic, vrt.Or(r < 0xD800, r > 0xDFFF)))
	default:
		r = vrt.Rune(name, 0x10000, 0x10FFFF)
	}
	return r
}

// Lines: typed lines come back complete and in order, however the input is split into reads, whether
// typed ahead or not, with a last line cut off by end of input.
func Lines() {
	s := open(nil)
	nl := 1 + vrt.Choose("lines", vrt.Param("lines", 2))
	var want []string
	var stream []byte
	var ends []int
	for i := 0; i < nl; i++ {
		n := vrt.Choose("n", vrt.Param("n", 2)+1)
		l := make([]rune, n)
		for j := range l {
			l[j] = anyChar("c", vrt.Choose("class", vrt.Param("classes", 4)))
		}
		want = append(want, string(l))
		stream = append(stream, []byte(string(l))...)
		if i == nl-1 && vrt.Choose("cut", 2) == 1 {
			break
		}
		stream = append(stream, "\r\n"[vrt.Choose("enter", 2)])
		ends = append(ends, len(stream))
	}
	cut := len(ends) < nl
	// deliver: byte by byte, in one piece, or split at one arbitrary place
	ahead := vrt.Choose("ahead", 2) == 1
	deliver := func(b []byte) {
		switch vrt.Choose("split", 5) {
		case 4:
			s.in.sig = true
			s.feed(b)
		case 0:
			s.feed(b)
		case 1:
			for i := range b {
				s.feed(b[i : i+1])
			}
		case 2:
			k := vrt.Choose("at", len(b)+1)
			s.feed(b[:k])
			if vrt.Choose("signal", 2) == 1 {
				s.feed(nil)
			}
			s.feed(b[k:])
		case 3:
			for i := range b {
				s.feed(nil)
				s.feed(b[i : i+1])
			}
			s.feed(nil)
		}
	}
	if ahead && len(stream) > 0 {
		deliver(stream)
		close(s.in.ch)
	}
	from := 0
	for i := 0; i < nl; i++ {
		if !ahead {
			to := len(stream)
			if i < len(ends) {
				to = ends[i]
			}
			if to > from {
				s.start()
				vrt.Settle()
				deliver(stream[from:to])
				from = to
				if i == nl-1 {
					close(s.in.ch)
				}
				r := s.wait()
				vrt.Observe("line", r.line)
				vrt.Assert(r.err == nil, "line read without error")
				vrt.Assert(r.line == want[i], "line read is the line typed")
				continue
			}
			close(s.in.ch)
		} else if len(stream) == 0 {
			close(s.in.ch)
		}
		r := s.read()
		if i == nl-1 && cut && want[i] == "" {
			vrt.Assert(r.err == io.EOF && r.line == "", "nothing typed: io.EOF")
			continue
		}
		vrt.Observe("line", r.line)
		vrt.Assert(r.err == nil, "line read without error")
		vrt.Assert(r.line == want[i], "line read is the line typed")
	}
	r := s.read()
	vrt.Assert(r.err == io.EOF && r.line == "", "io.EOF after the last line")
	vrt.Assert(s.raw == s.unraw, "raw mode is left as often as entered")
	vrt.Reach("done")
	if cut {
		vrt.Reach("cut off")
	}
}

// Default: a default line comes back unchanged, on its own or after an earlier read.
func Default() {
	s := open(nil)
	l := symLine(vrt.Choose("n", vrt.Param("n", 3)+1))
	if vrt.Choose("earlier", 2) == 1 {
		s.str("ab\r")
		r := s.read()
		vrt.Assert(r.err == nil && r.line == "ab", "earlier line")
	}
	s.str("\r")
	got, err := s.rl.ReadlineWithDefault(string(l))
	vrt.Observe("default", got)
	vrt.Assert(err == nil && same([]rune(got), l), "the default line is returned unchanged")
	s.str("\r")
	r := s.read()
	vrt.Assert(r.err == nil && r.line == "", "the next line is empty")
	vrt.Reach("done")
}

// Escapes: every CSI or SS3 sequence acts as its key or is swallowed; the key after it is its own.
func Escapes() {
	s := open(nil)
	n := vrt.Choose("n", vrt.Param("n", 2)+1)
	l, i := symLine(n), vrt.Choose("idx", n+1)
	s.start()
	s.inject(l, i)
	var b []byte
	op, what := -1, "swallowed"
	arrow := func(c byte) {
		switch c {
		case 'C':
			op, what = 3, "right"
		case 'D':
			op, what = 2, "left"
		case 'H':
			op, what = 0, "home"
		case 'F':
			op, what = 1, "end"
		case 'A', 'B':
			what = "history"
		}
	}
	switch vrt.Choose("kind", 4) {
	case 0: // CSI digits and semicolons, final byte
		b = append(b, 27, '[')
		k := vrt.Choose("params", vrt.Param("params", 3)+1)
		var ps []byte
		for j := 0; j < k; j++ {
			c := vrt.Byte("p", '0', ';')
			vrt.Assume(c != ':')
			ps = append(ps, c)
		}
		f := vrt.Byte("final", '@', '~')
		b = append(append(b, ps...), f)
		if f == '~' {
			if len(ps) == 1 && ps[0] == '3' {
				op, what = 7, "delete"
			}
		} else {
			arrow(byte(vrt.Fix(int(f))))
		}
	case 1: // SS3
		b = append(b, 27, 'O')
		for j := vrt.Choose("params", vrt.Param("ss3", 2)+1); j > 0; j-- {
			c := vrt.Byte("p", '0', ';')
			vrt.Assume(c != ':')
			b = append(b, c)
		}
		f := vrt.Byte("final", '@', '~')
		b = append(b, f)
		arrow(byte(vrt.Fix(int(f))))
	case 2: // Meta
		k := editKeys[11+vrt.Choose("meta", 4)]
		b, op, what = []byte(k.seq), k.op, "meta"
	case 3: // Meta-Ctrl-T is documented as not implemented
		b, what = []byte{27, 20}, "meta-t"
	}
	if op == 7 && n == 0 {
		vrt.Cut("end of file")
	}
	// in one read or several
	if split := vrt.Choose("split", 3); split > 0 {
		k := vrt.Choose("at", len(b)-1) + 1
		s.feed(b[:k])
		if split == 2 {
			s.feed(nil)
		}
		s.feed(b[k:])
	} else {
		s.feed(b)
	}
	y := ascii("y")
	s.keys(y, '\r')
	r := s.wait()
	nl, ni := l, i
	if op >= 0 {
		nl, ni, _, _ = spec.Apply(op, l, i, 0, false, false)
	}
	vrt.Observe(what, r.line)
	vrt.Assert(r.err == nil, what+": error")
	vrt.Assert(same([]rune(r.line), cat(nl[:ni], []rune{y}, nl[ni:])), what+": line after the sequence and a character")
	vrt.Reach(what)
}

// Results: how a read ends, and that the next one starts afresh.
func Results() {
	uniq := vrt.Choose("unique", 2) == 1
	inter := vrt.Choose("prompt", 3)
	screen := vrt.Choose("screen", 2) == 1
	s := open(func(s *S, c *readline.Config) {
		c.UniqueEditLine = uniq
		c.FuncIsTerminal = func() bool { return screen }
		switch inter {
		case 1:
			c.InterruptPrompt = "\n"
			c.EOFPrompt = "bye"
		case 2:
			c.InterruptPrompt = "\u00e7\u754c\n!"
			c.EOFPrompt = "\u754c"
		}
	})
	n := vrt.Choose("n", vrt.Param("n", 2)+1)
	l := make([]rune, n)
	for j := range l {
		l[j] = ascii("c")
	}
	i := vrt.Choose("idx", n+1)
	line := vrt.Choose("line", 2) == 1
	res := make(chan *readline.Result, 1)
	if line {
		go func() { res <- s.rl.Line() }()
	} else {
		s.start()
	}
	s.inject(l, i)
	want, wantErr := string(l), error(nil)
	if vrt.Choose("nul", 2) == 1 {
		s.feed([]byte{0}) // no key, and not the end
		vrt.Settle()
		vrt.Assert(len(s.res) == 0 && len(res) == 0, "the read goes on")
	}
	k := vrt.Choose("key", 5)
	more := true
	switch k {
	case 0, 1:
		s.feed([]byte{"\r\n"[k]})
		vrt.Reach("enter")
	case 2:
		s.feed([]byte{3})
		wantErr = readline.ErrInterrupt
		vrt.Reach("interrupt")
	case 3:
		s.feed([]byte{4})
		if n == 0 {
			wantErr = io.EOF
			vrt.Reach("ctrl-d")
		} else {
			nl, _, _, _ := spec.Apply(7, l, i, 0, false, false)
			want = string(nl)
			s.feed([]byte{'\r'})
			vrt.Reach("delete")
		}
	case 4:
		close(s.in.ch)
		more = false
		if n == 0 {
			wantErr = io.EOF
		}
		vrt.Reach("eof")
	}
	var r result
	if line {
		x := <-res
		r = result{x.Line, x.Error}
		vrt.Assert(x.CanContinue() == (wantErr == readline.ErrInterrupt && n > 0), "go on after an interrupted line")
		vrt.Assert(x.CanBreak() == (wantErr != nil && !x.CanContinue()), "stop at the end, or interrupted with nothing typed")
	} else {
		r = s.wait()
	}
	vrt.Observe("first", r.line)
	vrt.Assert(r.line == want, "text of the line")
	vrt.Assert(r.err == wantErr, "error of the line")
	vrt.Assert(s.raw == 1 && s.unraw == 1, "raw mode is entered and left once")
	if more {
		y := ascii("y")
		s.keys(y, '\r')
		r = s.read()
		vrt.Observe("second", r.line)
		vrt.Assert(r.err == nil && r.line == string(y), "the next read starts with an empty line")
		close(s.in.ch)
	}
	r = s.read()
	vrt.Assert(r.err == io.EOF && r.line == "", "end of input: io.EOF")
	r = s.read()
	vrt.Assert(r.err == io.EOF && r.line == "", "end of input: io.EOF again")
	vrt.Assert(s.raw == s.unraw, "raw mode is left as often as entered")
	vrt.Reach("done")
}

// shown is the line as it is now: what the listener has seen last, or what was injected.
func (s *S) shown() []rune {
	s.mu.Lock()
	defer s.mu.Unlock()
	if n := len(s.recs); n > 0 && s.recs[n-1].key != 0 {
		return cp(s.recs[n-1].line)
	}
	return cp(s.line)
}

// ResultsMode: how a read ends which is in the middle of something else.
func ResultsMode() {
	s, mode := anyKeys()
	vrt.Settle()
	l := s.shown()
	switch k := vrt.Choose("key", 3); k {
	case 0: // end of input
		if mode == "select" {
			vrt.Cut("a candidate may be taken or not")
		}
		close(s.in.ch)
		r := s.wait()
		if len(l) == 0 {
			vrt.Assert(r.err == io.EOF && r.line == "", "end of input on an empty line: "+mode)
		} else {
			vrt.Assert(r.err == nil && same([]rune(r.line), l), "end of input: the line comes first: "+mode)
			r = s.read()
			vrt.Assert(r.err == io.EOF && r.line == "", "end of input: "+mode)
		}
		vrt.Reach("eof")
	case 1, 2: // Enter
		switch mode {
		case "select", "vim r", "vim d", "vim c", "vim f":
			vrt.Cut("takes a candidate or is an argument")
		}
		s.feed([]byte{"\r\n"[k-1]})
		r := s.wait()
		vrt.Assert(r.err == nil && same([]rune(r.line), l), "Enter: "+mode)
		vrt.Reach("enter")
		y := ascii("y")
		s.keys(y, '\r')
		r = s.read()
		vrt.Assert(r.err == nil && r.line == string(y), "the next read starts afresh: "+mode)
	}
	vrt.Assert(s.raw == s.unraw, "raw mode is left as often as entered")
	vrt.Reach(mode)
}

// Reports: cursor position reports reach who asked for them and never the line.
func Reports() {
	s := open(nil)
	s.start()
	a := ascii("a")
	s.keys(a)
	vrt.Settle()
	l := []rune{a}
	asked := vrt.Choose("asked", 2) == 1
	n := 1 + vrt.Choose("reports", vrt.Param("reports", 3))
	for j := 0; j < n; j++ {
		var rep []byte
		for k := 0; k < 2; k++ {
			for d := 1 + vrt.Choose("digits", vrt.Param("digits", 2)); d > 0; d-- {
				rep = append(rep, byte(vrt.Rune("digit", '0', '9')))
			}
			rep = append(rep, ";R"[k])
		}
		got := make(chan string, 1)
		if asked {
			s.out.take()
			s.rl.Terminal.GetOffset(func(o string) { got <- o })
			vrt.Settle()
			vrt.Assert(string(s.out.take()) == "\x1b[6n", "the terminal is asked")
		}
		in := append([]byte("\x1b["), rep...)
		if c := vrt.Choose("cut", 3); c == 0 {
			s.feed(in)
		} else {
			s.feed(in[:c])
			s.feed(in[c:])
		}
		if asked {
			vrt.Assert(<-got == string(rep[:len(rep)-1]), "the report reaches who asked")
			vrt.Reach("asked")
		}
		if vrt.Choose("type", 2) == 1 {
			x := ascii("x")
			s.keys(x)
			l = append(l, x)
		}
	}
	s.keys('\r')
	r := s.wait()
	vrt.Assert(r.err == nil && same([]rune(r.line), l), "reports never reach the line")
	vrt.Reach("done")
}

func init() { Funcs["ResultsMode"] = ResultsMode; Funcs["Reports"] = Reports }

type cands [][]rune

func (c cands) Do(line []rune, pos int) ([][]rune, int) {
	off := 0
	if pos > 0 {
		off = 1
	}
	return c, off
}

// modes are the ways to get the editor into each of its modes.
var modes = []struct {
	name string
	vim  bool
	comp int
	keys string
}{
	{"plain", false, 0, ""},
	{"search back", false, 0, "\x12"},
	{"search found", false, 0, "\x12o"},
	{"search forward", false, 0, "\x10\x13w"},
	{"list", false, 1, "\t"},
	{"select", false, 1, "\t\t"},
	{"vim insert", true, 0, ""},
	{"vim normal", true, 0, "\x1b"},
	{"vim r", true, 0, "\x1br"},
	{"vim d", true, 0, "\x1bd"},
	{"vim c", true, 0, "\x1bc"},
	{"vim f", true, 0, "\x1bf"},
	{"history", false, 0, "\x10"},
	{"single", false, 2, "\t"},
}

var completers = []cands{
	{[]rune("ab "), []rune("c")},
	{[]rune("\u4e16x"), []rune("c"), []rune("longest one"), []rune("b"), []rune("")},
	{[]rune("q")},
	{},
}

// anyKeys opens a session in an arbitrary mode.
func anyKeys() (*S, string) {
	m := modes[vrt.Choose("mode", len(modes))]
	comp := 0
	if m.comp == 1 {
		comp = vrt.Choose("completer", 2)
	} else if m.comp == 2 {
		comp = 2 + vrt.Choose("completer", 2)
	}
	w := []int{10, 3, 0, 1, -1}[vrt.Choose("width", vrt.Param("widths", 3))]
	s := open(func(s *S, c *readline.Config) {
		c.VimMode = m.vim
		s.width = w
		c.FuncIsTerminal = func() bool { return true }
		c.AutoComplete = completers[comp]
	})
	if vrt.Choose("history", vrt.Param("history", 2)) == 0 {
		s.rl.SaveHistory("one two")
		s.rl.SaveHistory("two")
	}
	s.start()
	switch vrt.Choose("line", vrt.Param("lines", 5)) {
	case 1:
		s.inject([]rune("a b"), 3)
	case 2:
		s.inject([]rune("\u4e16 b"), 1)
	case 3:
		s.inject([]rune("a b"), 0)
	case 4:
		s.inject([]rune("a"), 1)
	}
	for _, c := range []byte(m.keys) {
		s.feed([]byte{c})
	}
	return s, m.name
}

// one arbitrary key; Ctrl-Z (which suspends the process) is left out
func (s *S) anyKey() {
	var k rune
	switch vrt.Choose("kind", 4) {
	case 0:
		k = vrt.Rune("ctrl", 0, 31)
		vrt.Assume(vrt.And(k != 26, k != 27))
	case 1:
		k = vrt.Rune("char", 32, 127)
	case 2: // Esc and a character
		k = vrt.Rune("meta", 0, 127)
		vrt.Assume(k != 26)
		s.feed([]byte{27})
	case 3: // wide, zero width, other
		k = []rune{0x4e16, 0x301, 0xe9, 0x10FFFF}[vrt.Choose("other", 4)]
	}
	if k < 128 {
		s.feed([]byte{byte(k)})
	} else {
		s.keys(k)
	}
}

// Robust: after arbitrary keys the session still reads: Ctrl-C ends the pending read.
func Robust() {
	s, mode := anyKeys()
	for j := 0; j < vrt.Param("steps", 2); j++ {
		s.anyKey()
		if vrt.Choose("resize", 1+vrt.Param("resize", 0)) == 1 {
			s.width = []int{5, 0, -1}[vrt.Choose("to", 3)]
			s.resize()
		}
	}
	// a marker, so that text typed after the keys is seen to be read
	done := false
	for j := 0; j < 4 && !done; j++ {
		s.feed([]byte{3})
		vrt.Settle()
		select {
		case <-s.res:
			done = true
		default:
		}
	}
	vrt.Assert(done, "Ctrl-C ends the read")
	for _, r := range s.recs {
		vrt.Assert(r.pos >= 0 && r.pos <= len(r.line), "cursor inside the line")
	}
	vrt.Reach(mode)
}

// RobustSelect: walking about in the candidates, in every shape of the list, then taking one.
func RobustSelect() {
	k := 2 + vrt.Choose("k", vrt.Param("k", 4))
	var cs cands
	for j := 0; j < k; j++ {
		cs = append(cs, []rune{rune('a' + j), 'z'}[:1+j%2])
	}
	w := []int{4, 7, 10, 13, 3}[vrt.Choose("width", vrt.Param("widths", 4))]
	s := open(func(s *S, c *readline.Config) {
		s.width = w
		c.FuncIsTerminal = func() bool { return true }
		c.AutoComplete = cs
	})
	s.start()
	s.str("\t")
	s.str("\t")
	for j := vrt.Param("steps", 3); j > 0; j-- {
		s.keys(selKeys[vrt.Choose("key", len(selKeys))])
		if vrt.Choose("resize", 1+vrt.Param("resize", 0)) == 1 {
			vrt.Settle()
			s.width = []int{4, 10, 0, -1}[vrt.Choose("to", 4)]
			s.resize()
		}
	}
	s.keys('\r')
	vrt.Settle()
	s.keys('\r')
	vrt.Settle()
	r := s.wait()
	ok := false
	for _, c := range cs {
		ok = ok || r.line == string(c)
	}
	vrt.Assert(r.err == nil && ok, "one of the candidates is taken")
	vrt.Reach("done")
}

func init() { Funcs["RobustSelect"] = RobustSelect }

// Arrows: the up and down keys walk through the history like Ctrl-P and Ctrl-N.
func Arrows() {
	s := open(nil)
	hist := []string{"h1", "h2", ""}
	s.rl.SaveHistory("h1")
	s.rl.SaveHistory("h2")
	s.start()
	l := symLine(vrt.Choose("n", vrt.Param("n", 2)+1))
	s.inject(l, len(l))
	at := 2
	for k := vrt.Param("keys", 3); k > 0; k-- {
		up := vrt.Choose("up", 2) == 1
		b := []byte{27, "[O"[vrt.Choose("form", 2)], 'B'}
		if b[1] == '[' && vrt.Choose("modified", 2) == 1 {
			b = []byte("\x1b[1;5B")
		}
		if up {
			b[len(b)-1] = 'A'
		}
		s.feed(b)
		if up && at > 0 {
			at--
		} else if !up && at < 2 {
			at++
		}
	}
	s.feed([]byte("\r"))
	r := s.wait()
	want := []rune(hist[at])
	if at == 2 {
		want = l
	}
	vrt.Observe("line", r.line)
	vrt.Assert(r.err == nil && same([]rune(r.line), want), "the entry the arrow keys lead to")
	vrt.Reach("done")
}

func init() { Funcs["Arrows"] = Arrows }
