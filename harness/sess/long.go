package sess

import (
	"github.com/chzyer/readline"

	"verif/harness/spec"
	"verif/harness/vrt"
	"verif/harness/vsys"
)

// sizes around those a buffer might have
var longSizes = []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 32768, 65535, 65536, 65537, 70000}

var hugeSizes = []int{4096, 65536, 1024, 65535, 70000}

func longSize() int {
	if vrt.Param("huge", 0) == 1 {
		return hugeSizes[vrt.Choose("size", vrt.Param("sizes", len(hugeSizes)))]
	}
	return longSizes[vrt.Choose("size", vrt.Param("sizes", len(longSizes)))]
}

// longLine is a line of n characters in words, with an arbitrary one at place at.
func longLine(n, at int) []rune {
	l := make([]rune, n)
	for i := range l {
		l[i] = rune('a' + i*7%26)
		if i%11 == 10 {
			l[i] = ' '
		}
	}
	if at >= 0 && at < n {
		l[at] = printable("c")
	}
	return l
}

func longEntry(n, at int) []rune {
	l := longLine(n, -1)
	l[0], l[n-1] = 'q', 'q'
	l[at] = word()
	return l
}

func longPlace(n int) int { return []int{0, 1, n / 2, n - 1, n}[vrt.Choose("place", 5)] }

// LongEdit: the editing keys on long lines, then everything cut and put back.
func LongEdit() {
	s := open(nil)
	n := longSize()
	i := longPlace(n)
	l := longLine(n, []int{i - 1, i, n / 3}[vrt.Choose("at", vrt.Param("ats", 1))])
	k := editKeys[vrt.Choose("key", len(editKeys))]
	s.start()
	s.inject(l, i)
	x := rune(0)
	if k.seq == "" {
		x = printable("x")
		s.keys(x)
	} else {
		s.str(k.seq)
	}
	nl, ni, kill, _ := spec.Apply(k.op, l, i, x, false, false)
	vrt.Settle()
	a := s.last(0)
	vrt.Observe(k.name, len(a.line), a.pos)
	vrt.Assert(same(a.line, nl) && a.pos == ni, k.name+": text and cursor")
	if kill != nil {
		s.keys(25)
		nl, ni = cat(nl[:ni], kill, nl[ni:]), ni+len(kill)
		vrt.Settle()
		a = s.last(0)
		vrt.Assert(same(a.line, nl) && a.pos == ni, k.name+": what was cut comes back")
	}
	s.keys('\r')
	r := s.wait()
	vrt.Assert(r.err == nil && same([]rune(r.line), nl), k.name+": line returned")
	vrt.Reach("done")
}

// LongType: long lines and passwords typed in pieces of any size.
func LongType() {
	s := open(func(_ *S, c *readline.Config) { c.Listener = nil })
	n := longSize()
	piece := []int{1 << 20, 1, 7, 1000, 4096}[vrt.Choose("piece", vrt.Param("pieces", 5))]
	pass := vrt.Choose("password", 2) == 1
	l := longLine(n, []int{0, n / 2, n - 1}[vrt.Choose("at", 3)])
	for i := 5; i < n-1; i += 13 {
		if i == n/2 {
			continue
		}
		l[i] = []rune{0xe9, 0x4e16, 0x1F600}[i%3]
	}
	b := []byte(string(l))
	s.in.ch = make(chan []byte, len(b)+8)
	for len(b) > piece {
		s.feed(b[:piece])
		b = b[piece:]
	}
	s.feed(b)
	s.str("\rnext\r")
	if pass {
		p, err := s.rl.ReadPassword("pw: ")
		vrt.Observe("password", len(p))
		vrt.Assert(err == nil && same([]rune(string(p)), l), "the password is what was typed")
	} else {
		r := s.read()
		vrt.Observe("line", len(r.line))
		vrt.Assert(r.err == nil && same([]rune(r.line), l), "the line is what was typed")
	}
	r := s.read()
	vrt.Assert(r.err == nil && r.line == "next", "the next line too")
	vrt.Reach("done")
}

// LongHist: long entries and many entries, in memory and from a file.
func LongHist() {
	vsys.Reset()
	vsys.SetChunk(vrt.Param("chunk", 0))
	var m fileModel
	m.lines = map[string][][]rune{}
	limit := []int{500, 0, 100, 1000, 3}[vrt.Choose("limit", vrt.Param("limits", 5))]
	n := 0
	if vrt.Param("many", 0) == 1 {
		n = []int{499, 500, 501, 700, 99, 100, 101, 1000, 1001}[vrt.Choose("n", vrt.Param("ns", 9))]
		for i := 0; i < n; i++ {
			m.lines[histPath] = append(m.lines[histPath], []rune{'e', rune('0' + i/100), rune('0' + i/10%10), rune('0' + i%10)})
		}
	} else {
		size := longSize()
		m.lines[histPath] = [][]rune{longEntry(size, 0), []rune("ab"), longEntry(size+1, size)}
	}
	saved := m.lines[histPath]
	before := vrt.Choose("before", 2) == 1
	if before {
		vsys.Put(histPath, text(saved, true))
	} else {
		m.lines[histPath] = nil
	}
	s := openFile(limit)
	if limit == 0 {
		limit = 500
	}
	m.open(histPath, limit)
	if !before {
		for _, l := range saved {
			s.rl.SaveHistory(string(l))
			m.submit(l)
		}
	}
	m.check(histPath)
	top := m.entries
	if len(top) > limit {
		top = top[len(top)-limit:]
	}
	for _, again := range []bool{false, true} {
		if again {
			s.rl.Close()
			s = openFile(limit)
			all := entriesIn(m.lines[histPath])
			top = newest(all, limit)
		}
		s.in.ch = make(chan []byte, len(top)+64)
		s.start()
		steps := []int{1, 2, len(top) - 1, len(top), len(top) + 1}[vrt.Choose("steps", 5)]
		if steps < 1 {
			steps = 1
		}
		for i := 0; i < steps; i++ {
			s.feed([]byte("\x10"))
		}
		vrt.Settle()
		if steps > len(top) {
			steps = len(top)
		}
		want := top[len(top)-steps]
		a := s.last(0)
		vrt.Observe("entry", len(a.line))
		vrt.Assert(same(a.line, want), "the entry so many steps back")
		s.feed([]byte("\x03"))
		s.wait()
	}
	b, _ := vsys.Get(histPath)
	vrt.Assert(sameLines(entriesIn(split(b)), newest(entriesIn(m.lines[histPath]), limit)), "the file holds the newest entries")
	vrt.Reach("done")
}

// LongScreen: lines over many rows.
func LongScreen() {
	width := []int{5, 80, 4}[vrt.Choose("width", vrt.Param("widths", 2))]
	prompt := vrt.Choose("prompt", vrt.Param("prompts", 2))
	s := openScreen(width, prompt, nil)
	s.rl.SaveHistory("h1")
	s.begin()
	n := longSizes[vrt.Choose("size", vrt.Param("sizes", 6))]
	i := longPlace(n)
	line := longLine(n, -1)
	for k := range line {
		line[k] = rune('a' + k%23)
		if k%17 == 3 {
			line[k] = 0x4e16
		}
	}
	if i < n {
		line[i] = vrt.Rune("c", 33, 126)
	}
	s.inject(line, i)
	s.update()
	s.check(line, i)
	k := vrt.Choose("key", len(scrKeys)-1)
	s.str(scrKeys[k])
	s.update()
	r := s.last(0)
	s.check(r.line, r.pos)
	s.str("\r")
	s.wait()
	s.update()
	s.after(r.line, "")
	vrt.Reach("done")
}

// LongSelect: many candidates.
func LongSelect() {
	t := &tabber{}
	k := []int{30, 100, 257}[vrt.Choose("k", vrt.Param("ks", 2))]
	for i := 0; i < k; i++ {
		t.cands = append(t.cands, []rune{rune('a' + i%26), rune('0' + i/100), rune('0' + i/10%10), rune('0' + i%10)})
	}
	s := open(func(s *S, c *readline.Config) {
		c.AutoComplete = t
		s.width = []int{80, 9, 40, 100}[vrt.Choose("width", vrt.Param("widths", 3))]
	})
	x := ascii("x")
	s.start()
	s.inject([]rune{x}, 1)
	s.str("\t\t")
	// columns as wide as the widest candidate and a blank
	m := &tabModel{n: k, cols: (s.width - 1) / 5}
	for n := vrt.Choose("n", vrt.Param("keys", 3)+1); n > 0; n-- {
		key := selKeys[vrt.Choose("key", len(selKeys))]
		for j := vrt.Param("times", 1); j > 0; j-- {
			s.keys(key)
			m.move(key)
		}
	}
	s.str("\r\r")
	r := s.wait()
	vrt.Observe("line", r.line)
	vrt.Assert(r.err == nil && same([]rune(r.line), cat([]rune{x}, t.cands[m.sel])), "Enter inserts the selected candidate")
	vrt.Reach("done")
}

func init() {
	Funcs["LongEdit"], Funcs["LongType"], Funcs["LongHist"], Funcs["LongScreen"], Funcs["LongSelect"] = LongEdit, LongType, LongHist, LongScreen, LongSelect
}

// LongOut: much output at once, before, during and after a read.
func LongOut() {
	so := &sink{short: -1}
	s := open(func(s *S, c *readline.Config) {
		so.next = s.out
		c.Stdout, c.Stderr = so, so
		c.FuncIsTerminal = func() bool { return true }
	})
	n := longSize()
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i*7%26)
		if i%50 == 49 {
			b[i] = '\n'
		}
	}
	b[[]int{0, n / 2, n - 2}[vrt.Choose("at", 3)]] = vrt.Byte("b", 32, 126)
	b[n-1] = '\n'
	when := vrt.Choose("when", 3)
	if when > 0 {
		s.start()
		s.str("ab")
		vrt.Settle()
	}
	if when > 1 {
		s.str("\r")
		s.wait()
	}
	so.writes = nil
	w := s.rl.Stdout()
	if vrt.Choose("stderr", 2) == 1 {
		w = s.rl.Stderr()
	}
	k, err := w.Write(b)
	vrt.Observe("written", k)
	vrt.Assert(k == n && err == nil, "the write reports its length")
	found := 0
	for _, x := range so.writes {
		if len(x) >= n {
			found++
			vrt.Assert(sameBytes(x, b), "what is written is passed through")
		}
	}
	vrt.Assert(found == 1, "once and in one piece")
	if when < 1 {
		s.start()
		s.str("ab")
	}
	if when < 2 {
		s.str("\r")
		r := s.wait()
		vrt.Assert(r.err == nil && r.line == "ab", "the line read")
	}
	vrt.Reach("done")
}

func init() { Funcs["LongOut"] = LongOut }

// LongSession: a session goes on as ever after hundreds of reads of one kind, and ends like any other.
func LongSession() {
	var s *S
	s = open(func(s *S, c *readline.Config) {
		c.AutoComplete = &tabber{cands: [][]rune{[]rune("xa"), []rune("yb")}}
		c.Listener = nil
	})
	for _, h := range []string{"one", "two"} {
		s.rl.SaveHistory(h)
	}
	alone := func() int { vrt.Settle(); return vrt.Goroutines() }
	s.str("a\r")
	s.read()
	first := alone()
	act := vrt.Choose("act", 14)
	for k := []int{3, 70, 260}[vrt.Choose("k", vrt.Param("ks", 3))]; k > 0; k-- {
		switch act {
		case 0:
			s.str("ab\r")
			s.read()
		case 1:
			s.str("ab\x03")
			s.read()
		case 2:
			s.str("pw\r")
			s.rl.ReadPassword("? ")
		case 3:
			s.str("pw\x03")
			s.rl.ReadPassword("? ")
		case 4:
			s.str("\x12t\x07\r")
			s.read()
		case 5:
			s.str("\x12t\x03\r")
			s.read()
		case 6:
			s.str("\t\t\x07\r")
			s.read()
		case 7:
			s.str("\t\t\x06\r\r")
			s.read()
		case 8:
			old := s.rl.SetConfig(s.rl.Config.Clone())
			s.rl.SetConfig(old)
		case 9:
			s.rl.SetVimMode(k%2 == 0)
		case 10:
			s.width = 20 + k%7
			s.resize()
		case 11:
			s.rl.Stdout().Write([]byte("out\n"))
		case 12:
			s.str("\x1b[10;10R\x1b[A\x1b[1;5B\r")
			s.read()
		case 13:
			s.str("\r")
			s.rl.ReadlineWithDefault("dflt")
		}
		s.out.take()
	}
	s.rl.SetVimMode(false)
	vrt.Assert(alone() == first, "no goroutine is left of earlier reads")
	s.rl.ResetHistory()
	for _, h := range []string{"one", "two"} {
		s.rl.SaveHistory(h)
	}
	x := ascii("x")
	s.start()
	s.keys(ctrlP, ctrlP, x, '\r')
	r := s.wait()
	vrt.Observe("line", r.line)
	vrt.Assert(r.err == nil && same([]rune(r.line), cat([]rune("one"), []rune{x})), "the session goes on as ever")
	vrt.Assert(!s.isRaw && s.raw == s.unraw, "raw mode is left as often as entered")
	s.rl.Close()
	s.ended()
	vrt.Reach("done")
}

func init() { Funcs["LongSession"] = LongSession }

// LongFile: very long entries come back from the file.
func LongFile() {
	vsys.Reset()
	n := []int{65536, 4096, 65535, 70000, 130000}[vrt.Choose("size", vrt.Param("sizes", 4))]
	l := longEntry(n, n-1)
	vsys.Put(histPath, text([][]rune{[]rune("one"), l, []rune("two")}, true))
	s := openFile(500)
	s.cfg.Listener = nil
	steps := vrt.Choose("steps", 3) + 1
	s.start()
	for i := 0; i < steps; i++ {
		s.keys(ctrlP)
	}
	s.keys('\r')
	r := s.wait()
	vrt.Observe("entry", len(r.line))
	vrt.Assert(r.err == nil && same([]rune(r.line), [][]rune{[]rune("two"), l, []rune("one")}[steps-1]), "the entry so many steps back")
	vrt.Reach("done")
}

func init() { Funcs["LongFile"] = LongFile }
