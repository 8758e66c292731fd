package sess

import (
	"github.com/chzyer/readline"

	"verif/harness/scr"
	"verif/harness/vrt"
)

// screen is a session on an emulated terminal.
type screen struct {
	*S
	t    *scr.Term
	base *scr.Term // the screen when the current read began
	mask rune      // -1: not masked
	pr   string
}

var scrPrompts = []string{"> ", "", "\x1b[31mab\x1b[0m ", "世> ", "long prompt> "}

func openScreen(width, prompt int, tweak func(*S, *readline.Config)) *screen {
	c := &screen{mask: -1, pr: scrPrompts[prompt]}
	c.S = open(func(s *S, cf *readline.Config) {
		cf.FuncIsTerminal = func() bool { return true }
		cf.Prompt = c.pr
		s.width = width
		if tweak != nil {
			tweak(s, cf)
		}
	})
	c.t = scr.New(width)
	c.base = c.t.Clone()
	return c
}

// begin starts a read on the screen as it is.
func (c *screen) begin() {
	c.update()
	c.base = c.t.Clone()
	c.start()
	c.update()
}

// update lets the session run and the terminal show what was written.
func (c *screen) update() {
	vrt.Settle()
	c.t.Write(c.out.take())
}

// change gives the terminal another width at a moment when nothing is wrapped.
func (c *screen) change(w int) {
	if c.t.R > c.base.R || !c.t.Resize(w) || !c.base.Resize(w) {
		vrt.Cut("something shown would move")
	}
	c.width = w
	c.resize()
	c.update()
}

// layout is the screen as it was when the read began, followed by the prompt and the line.
func (c *screen) layout(line []rune, tail string) *scr.Term {
	t := c.base.Clone()
	for _, r := range c.pr {
		t.Rune(r)
	}
	for _, r := range line {
		switch {
		case c.mask >= 0:
			t.Rune(c.mask)
		case r == '\t':
			for i := 0; i < 4; i++ {
				t.Rune(' ')
			}
		default:
			t.Rune(r)
		}
	}
	for _, r := range tail {
		t.Rune(r)
	}
	return t
}

// check compares the screen with prompt and line and, below it, one of the given texts or, with "*",
// anything; the cursor must stand on line[pos].
func (c *screen) check(line []rune, pos int, below ...string) {
	want := c.layout(line, "")
	end, _ := want.At(0)
	found := false
	if len(below) == 0 {
		found = c.t.Same(want, 0, -1)
	}
	for _, b := range below {
		if b == "*" {
			found = vrt.Or(found, c.t.Text(want, 0, end+1))
			continue
		}
		with := want.Clone()
		with.R, with.C, with.Pend = end+1, 0, false
		for _, r := range b {
			with.Rune(r)
		}
		found = vrt.Or(found, c.t.Text(with, 0, -1))
	}
	if !found {
		vrt.Observe("screen", c.t.String())
		vrt.Observe("wanted", want.String())
		vrt.Assert(false, "the screen shows the prompt and the line and nothing else")
	}
	at := c.layout(line[:pos], "")
	next := rune(0)
	if pos < len(line) {
		next = line[pos]
		if c.mask >= 0 {
			next = c.mask
		}
		if next == '\t' {
			next = 0
		}
	}
	r, col := at.At(next)
	if c.t.R != r || c.t.C != col || c.t.Pend {
		vrt.Observe("screen", c.t.String())
		vrt.Observe("cursor wanted", r, col)
		vrt.Assert(false, "the cursor stands on the editing position")
	}
	vrt.Assert(c.t.Bad == "", "only known sequences are written")
	vrt.Assert(c.t.Attr == 0, "what is written next has no attributes")
}

// scrChar is a character of a class: one column, two columns, none, a tab.
func scrChar(class int) rune {
	switch class {
	case 0:
		return vrt.Rune("c", 33, 126)
	case 1:
		return 0x4E16
	case 2:
		return 0x301
	}
	return '\t'
}

var scrKeys = []string{"\x01", "\x02", "\x05", "\x06", "\x7f", "\x04", "\x0b", "\x15", "\x17", "\x14", "\x19", "\x10", "\x0e", "\x1bb", "\x1bf", "\x1bd", "x", "世", "\u0301", "\x0c"}

// Screen: after every key the screen shows exactly prompt and line, with the cursor on the editing position.
func Screen() {
	widths := []int{5, 4, 3, 80, 2}
	width := widths[vrt.Choose("width", vrt.Param("widths", 3))]
	prompt := vrt.Choose("prompt", vrt.Param("prompts", 2))
	mask := rune(-1)
	if vrt.Param("masked", 0) == 1 {
		mask = []rune{'*', 0, 0x4E16}[vrt.Choose("mask", 3)]
	}
	s := openScreen(width, prompt, func(s *S, c *readline.Config) {
		if mask >= 0 {
			c.EnableMask, c.MaskRune = true, mask
		}
		c.UniqueEditLine = vrt.Param("unique", 0) == 1
	})
	s.mask = mask
	s.rl.SaveHistory("hist世")
	s.rl.SaveHistory("h2")
	if vrt.Param("second", 0) == 1 {
		// a read that begins further down
		s.begin()
		s.str("ab\r")
		s.wait()
	}
	resized := vrt.Param("resized", 0) == 1
	if resized && vrt.Choose("early", 2) == 1 {
		s.update()
		s.base = s.t.Clone()
		width = []int{4, 6, 80}[vrt.Choose("to", 3)]
		s.change(width)
		resized = false
	}
	s.begin()
	s.check(nil, 0)
	n := vrt.Choose("n", vrt.Param("n", 3)+1)
	line := make([]rune, n)
	for i := range line {
		line[i] = scrChar(vrt.Choose("class", vrt.Param("classes", 3)))
	}
	pos := vrt.Choose("pos", n+1)
	s.inject(line, pos)
	s.update()
	s.check(line, pos)
	if resized {
		if end, _ := s.layout(line, "").At(0); end > s.base.R {
			vrt.Cut("the line is wrapped")
		}
		width = []int{4, 6, 80}[vrt.Choose("to", 3)]
		s.change(width)
		s.check(line, pos)
		vrt.Reach("resized")
	}
	for k := vrt.Param("keys", 1); k > 0; k-- {
		i := vrt.Choose("key", len(scrKeys))
		if scrKeys[i] == "\x04" && len(line) == 0 {
			vrt.Cut("end of file")
		}
		s.str(scrKeys[i])
		s.update()
		if scrKeys[i] == "\x0c" {
			// the terminal stops at its first row
			s.base = scr.New(width)
			if s.t.Bad == "cursor moved above the screen" {
				s.t.Bad = ""
			}
		}
		r := s.last(0)
		line, pos = r.line, r.pos
		s.check(line, pos)
	}
	if vrt.Param("end", 1) == 1 {
		switch vrt.Choose("end", 3) {
		case 0:
			s.str("\r")
			s.wait()
			s.update()
			if s.cfg.UniqueEditLine {
				vrt.Assert(s.t.Same(s.base, 0, -1), "the line is erased")
				vrt.Assert(s.t.R == s.base.R && s.t.C == s.base.C, "the cursor is where the read began")
				vrt.Reach("erased")
				break
			}
			s.after(line, "")
			vrt.Reach("enter")
		case 1:
			if s.cfg.UniqueEditLine {
				break
			}
			s.str("\x03")
			s.wait()
			s.update()
			s.after(line, "^C")
			vrt.Reach("interrupt")
		}
	}
	vrt.Reach("done")
}

// ScreenSearch: during a search the screen shows prompt and line with the search below them, afterwards
// prompt and line alone.
func ScreenSearch() {
	widths := []int{5, 4, 80, 13, 2}
	width := widths[vrt.Choose("width", vrt.Param("widths", 3))]
	prompt := vrt.Choose("prompt", vrt.Param("prompts", 2))
	s := openScreen(width, prompt, nil)
	for _, h := range [][]string{{"axbc世d", "a世bc"}, {"世a", "abcabcabcabc"}, {"ab", ""}}[vrt.Choose("history", vrt.Param("histories", 3))] {
		s.rl.SaveHistory(h)
	}
	s.begin()
	var line []rune
	pos := 0
	switch vrt.Choose("typed", vrt.Param("typed", 3)) {
	case 1:
		line, pos = []rune("zz世zz"), 1
	case 2:
		line, pos = []rune("世世世世"), 4
	}
	if line != nil {
		s.inject(line, pos)
		s.update()
	}
	var data, found []rune
	dir := "bck"
	keys := []string{"\x12", "\x13", "a", "b", "c", "世", "\x7f"}
	n := 1 + vrt.Choose("keys", vrt.Param("keys", 3))
	for i := 0; i < n; i++ {
		var k string
		switch {
		case i == 0:
			k = keys[vrt.Choose("first", 2)]
		default:
			k = keys[vrt.Choose("key", len(keys))]
		}
		switch k {
		case "\x12":
			dir = "bck"
		case "\x13":
			dir = "fwd"
		case "\x7f":
			if len(data) > 0 {
				data = data[:len(data)-1]
			}
		default:
			data = append(data, []rune(k)...)
		}
		s.str(k)
		s.update()
		r := s.last(0)
		line, pos = r.line, r.pos
		vrt.Assert(s.rl.Operation.IsSearchMode(), "searching")
		s.check(line, pos, dir+"-i-search: "+string(data), "failing "+dir+"-i-search: "+string(data))
		end, _ := s.layout(line, "").At(0)
		m := s.t.Marked(0, end+1, 1<<4)
		if same(m, data) {
			found = cp(data)
		}
		vrt.Assert(len(m) == 0 || same(m, found), "what is marked is the match found last")
		if len(m) > 0 {
			vrt.Reach("marked")
		}
	}
	leave := []string{"\x07", "\x03", "\x01", "\x05", "\x1bf", "\x10", "\x17", "\r"}
	k := vrt.Choose("leave", len(leave))
	s.str(leave[k])
	if leave[k] == "\r" {
		s.wait()
		s.update()
		s.after([]rune(line), "")
		vrt.Reach("enter")
		return
	}
	s.update()
	r := s.last(0)
	vrt.Assert(!s.rl.Operation.IsSearchMode(), "the search is over")
	s.check(r.line, r.pos)
	vrt.Reach("done")
}

// paintRec is a painter that remembers what it painted last.
type paintRec struct {
	line []rune
	pos  int
}

func (p *paintRec) Paint(line []rune, pos int) []rune {
	p.line, p.pos = cp(line), pos
	return line
}

// listing is a completer with fixed candidates for what ends in the given word.
type listing struct {
	word  []rune
	cands [][]rune
}

func (l *listing) Do(line []rune, pos int) ([][]rune, int) {
	n := len(l.word)
	if pos < n || !same(line[pos-n:pos], l.word) {
		return nil, 0
	}
	return l.cands, n
}

var scrCands = [][]string{{"a", "b"}, {"xyz", "世", "q", "w", "e"}, {"longer than a row", "b", ""}, {"世世世世世", "c"}, {"1", "2", "3", "4", "5", "6", "7", "8", "9"}}

// ScreenComplete: while candidates are listed and selected the screen shows prompt and line with all
// candidates below them, afterwards prompt and line alone.
func ScreenComplete() {
	widths := []int{5, 12, 80, 4, 3}
	width := widths[vrt.Choose("width", vrt.Param("widths", 3))]
	prompt := vrt.Choose("prompt", vrt.Param("prompts", 2))
	word := []string{"", "ab", "世"}[vrt.Choose("word", vrt.Param("words", 3))]
	set := scrCands[vrt.Choose("set", vrt.Param("sets", len(scrCands)))]
	tail := []string{"", "z世zz"}[vrt.Choose("tail", 2)]
	p := &paintRec{}
	l := &listing{word: []rune(word)}
	for _, c := range set {
		l.cands = append(l.cands, []rune(c))
	}
	s := openScreen(width, prompt, func(s *S, c *readline.Config) {
		c.AutoComplete = l
		c.Painter = p
	})
	s.begin()
	line := cat([]rune("i世 "), []rune(word), []rune(tail))
	s.inject(line, 3+len(l.word))
	s.update()
	s.check(p.line, p.pos)
	keys := []string{"\t", "\x06", "\x02", "\x0e", "\x10", "\x01", "\x05", "\x0b", "\x7f", "\x07", "\x03", "\r", "b"}
	n := 1 + vrt.Choose("keys", vrt.Param("keys", 2))
	var marked []rune
	for i := 0; i < n; i++ {
		k := keys[0]
		if i > 0 {
			k = keys[vrt.Choose("key", len(keys))]
		}
		sel := s.rl.Operation.IsInCompleteSelectMode()
		com := s.rl.Operation.IsInCompleteMode()
		if !sel && k == "\r" || !com && k == "\x03" {
			vrt.Cut("the read ends")
		}
		s.str(k)
		s.update()
		if s.rl.Operation.IsInCompleteMode() {
			s.check(p.line, p.pos, "*")
			end := s.layout(p.line, "")
			from, _ := end.At(0)
			at := (from + 1) * s.t.W
			for _, c := range l.cands {
				at = s.t.Find(cat(l.word, c), at)
				if at < 0 {
					vrt.Observe("screen", s.t.String())
				}
				vrt.Assert(at >= 0, "all candidates are shown below the line")
			}
			vrt.Reach("listed")
			marked = trimBlanks(s.t.Marked(from+1, -1, 1<<30|1<<47))
			one := false
			for _, c := range l.cands {
				one = one || same(marked, cat(l.word, c))
			}
			if sel := s.rl.Operation.IsInCompleteSelectMode(); sel || len(marked) > 0 {
				vrt.Assert(sel && one, "one candidate is marked while selecting, none otherwise")
				vrt.Reach("marked")
			}
		} else {
			if k == "\r" && sel {
				vrt.Assert(same(p.line, cat(line[:3], marked, line[3+len(l.word):])), "Enter inserts the candidate that is marked")
				vrt.Reach("inserted")
			}
			s.check(p.line, p.pos)
		}
	}
	vrt.Reach("done")
}

// after: the read is over; the screen keeps the line and the cursor is below it.
func (c *screen) after(line []rune, tail string) {
	m := c.mask
	if m >= 0 {
		for range tail {
			tail = tail[1:]
			line = append(cp(line), '*')
		}
	}
	want := c.layout(line, tail)
	if !c.t.Same(want, 0, -1) {
		vrt.Observe("screen", c.t.String())
		vrt.Observe("wanted", want.String())
		vrt.Assert(false, "the finished line stays on the screen")
	}
	r := want.R + 1
	if c.t.R != r || c.t.C != 0 {
		vrt.Observe("screen", c.t.String())
		vrt.Observe("row wanted", r)
		vrt.Assert(false, "the cursor stands at the start of the row below the finished line")
	}
}

func init() {
	Funcs["Screen"] = Screen
	Funcs["ScreenComplete"] = ScreenComplete
	Funcs["ScreenSearch"] = ScreenSearch
}

// trimBlanks removes the blanks at the end.
func trimBlanks(s []rune) []rune {
	for len(s) > 0 && (s[len(s)-1] == ' ' || s[len(s)-1] == 0) {
		s = s[:len(s)-1]
	}
	return s
}

// ScreenPrompt: a prompt set while a line is read is shown by the next Refresh, from the listener or
// from outside, whatever is typed before and after.
func ScreenPrompt() {
	width := []int{5, 80, 4, 3}[vrt.Choose("width", vrt.Param("widths", 2))]
	first := vrt.Choose("prompt", vrt.Param("prompts", 2))
	how := vrt.Choose("how", 3)
	next := []string{"", "n> ", "世> ", "\x1b[1mlonger>\x1b[0m "}
	want := ""
	mask := rune(-1)
	if vrt.Param("masked", 1) == 1 && vrt.Choose("masked", 2) == 1 {
		mask = '*'
	}
	var s *screen
	s = openScreen(width, first, func(_ *S, c *readline.Config) {
		if mask >= 0 {
			c.EnableMask, c.MaskRune = true, mask
		}
		if how == 1 {
			inner := c.Listener
			c.SetListener(func(l []rune, p int, k rune) ([]rune, int, bool) {
				if want != "" && k == '!' {
					s.pr = want
					s.rl.SetPrompt(want)
					s.rl.Refresh()
				}
				return inner.OnChange(l, p, k)
			})
		}
	})
	s.mask = mask
	s.begin()
	n := vrt.Choose("n", vrt.Param("n", 3)+1)
	line := make([]rune, n)
	for i := range line {
		line[i] = scrChar(vrt.Choose("class", vrt.Param("classes", 2)))
	}
	pos := vrt.Choose("pos", n+1)
	s.inject(line, pos)
	s.update()
	s.check(line, pos)
	for k := vrt.Param("times", 2); k > 0; k-- {
		want = next[vrt.Choose("next", len(next))]
		if how == 1 {
			s.keys('!')
			line, pos = cat(line[:pos], []rune{'!'}, line[pos:]), pos+1
			if want == "" {
				want = "> "
			}
		} else {
			s.rl.SetPrompt(want)
			s.pr = want
			if how == 2 {
				// shown with the next key that changes the line
				s.keys('y')
				line, pos = cat(line[:pos], []rune{'y'}, line[pos:]), pos+1
			} else {
				s.rl.Refresh()
			}
		}
		s.update()
		if how == 1 && s.pr != want {
			continue
		}
		s.check(line, pos)
	}
	i := vrt.Choose("key", vrt.Param("keys", len(scrKeys)-1))
	if scrKeys[i] == "\x04" && len(line) == 0 {
		vrt.Cut("end of file")
	}
	s.str(scrKeys[i])
	s.update()
	r := s.last(0)
	line, pos = r.line, r.pos
	s.check(line, pos)
	s.str("\r")
	s.wait()
	s.update()
	s.after(line, "")
	vrt.Reach("done")
}

func init() { Funcs["ScreenPrompt"] = ScreenPrompt }
