package sess

import (
	"github.com/chzyer/readline"

	"verif/harness/vrt"
	"verif/harness/vsys"
)

// quoter is a painter that shows the line in quotes of its own.
type quoter struct{}

func (quoter) Paint(line []rune, pos int) []rune {
	return cat([]rune("\x1b[4m"), line, []rune("\x1b[0m"))
}

// lister is a completer with more candidates than fit in a row of a narrow terminal.
var lister = &tabber{cands: [][]rune{[]rune("abc"), []rune("def"), []rune("ghi")}}

const aspects = 16

// aspect changes one thing of a configuration.
func (s *S) aspect(c *readline.Config, what int) {
	switch what {
	case 1:
		c.Prompt = "other: "
	case 2:
		c.EnableMask, c.MaskRune = true, '#'
	case 3:
		c.VimMode = true
	case 4:
		c.AutoComplete = &tabber{cands: [][]rune{[]rune("xy")}}
	case 5:
		c.Listener = nil
	case 6:
		c.FuncFilterInputRune = func(r rune) (rune, bool) {
			if r == 'q' {
				return 'Q', true
			}
			return r, r != 5
		}
	case 7:
		c.UniqueEditLine = true
	case 8:
		c.DisableAutoSaveHistory = true
	case 9:
		c.HistoryLimit = 1
	case 10:
		c.HistorySearchFold = true
	case 11:
		c.InterruptPrompt, c.EOFPrompt = "stop", "end"
	case 12:
		c.Painter = quoter{}
	case 13:
		c.HistoryLimit = -1
	case 14:
		c.AutoComplete = lister
	case 15:
		is := c.FuncIsTerminal
		c.FuncIsTerminal = func() bool { return !is() }
	}
}

func (s *S) fresh(c *readline.Config) *readline.Config {
	return &readline.Config{Prompt: c.Prompt, Stdin: s.in, Stdout: s.out, Stderr: s.out, FuncGetWidth: c.FuncGetWidth, FuncIsTerminal: c.FuncIsTerminal,
		FuncOnWidthChanged: c.FuncOnWidthChanged, FuncMakeRaw: c.FuncMakeRaw, FuncExitRaw: c.FuncExitRaw, Listener: c.Listener}
}

// phase is what one stretch of a session shows.
type phase struct {
	out  []byte
	recs []keyRec
	res  []result
}

// phase reads lines made of the given keys, one read per entry.
func (s *S) phase(lines [][]string) phase {
	vrt.Settle()
	s.out.take()
	s.clear()
	var p phase
	for _, keys := range lines {
		s.start()
		vrt.Settle()
		for _, k := range keys {
			s.str(k)
			vrt.Settle()
		}
		p.res = append(p.res, s.wait())
		vrt.Settle()
	}
	p.out, p.recs = s.out.take(), s.recs
	if erase := "\x1b[J\x1b[2K\r"; len(p.out) > len(erase) && string(p.out[:len(erase)]) == erase {
		p.out = p.out[len(erase):] // the row is empty as the phase begins
	}
	return p
}

func (p phase) same(q phase, what string) {
	vrt.Assert(len(p.res) == len(q.res), what+": reads")
	for i := range p.res {
		vrt.Observe("line", p.res[i].line, q.res[i].line)
		vrt.Assert(p.res[i].err == q.res[i].err && same([]rune(p.res[i].line), []rune(q.res[i].line)), what+": the reads return the same")
	}
	vrt.Assert(len(p.recs) == len(q.recs), what+": the listener is called for the same keys")
	for i := range p.recs {
		vrt.Assert(p.recs[i].key == q.recs[i].key && p.recs[i].pos == q.recs[i].pos && same(p.recs[i].line, q.recs[i].line), what+": the listener sees the same")
	}
	vrt.Assert(len(p.out) == len(q.out), what+": the screen shows the same amount")
	ok := true
	for i := range p.out {
		ok = vrt.And(ok, p.out[i] == q.out[i])
	}
	vrt.Assert(ok, what+": the screen shows the same")
}

// program is a few lines of keys which use what the aspects change.
func program(c, end string) [][]string {
	return [][]string{
		{"q", c, "\x09", "\x05", "\r"},
		{c, "B", "\r"},
		{"\x1b", "h", "i", c, end},
		{"\x12", "b", "\x07", "\x10", "\x10", "\r"},
		{"\x12", c, "\r"},
	}
}

// narrow makes the terminal narrower, between two reads.
func (s *S) narrow() {
	vrt.Settle()
	s.width = 10
	s.resize()
}

// Switch: a session given another configuration goes on like one opened with it, and given its first
// configuration again it goes on as if nothing had been in between.
func Switch() {
	first := vrt.Choose("first", vrt.Param("firsts", 1))
	first = []int{0, 14, 3, 1, 2, 12}[first]
	what := vrt.Choose("what", aspects)
	clone := vrt.Choose("clone", 2) == 1
	term := vrt.Choose("terminal", 2) == 1
	if clone && what == 3 {
		clone = vrt.Choose("again", 2) == 1
	}
	ends := []string{"\r", "\x03"}
	end := ends[vrt.Choose("end", vrt.Param("ends", 2))]
	var c string
	if vrt.Param("ascii", 1) == 1 {
		c = string(ascii("c"))
	} else {
		c = string(printable("c"))
	}
	resize := vrt.Choose("resize", 2) == 1
	mk := func(mod int) *S {
		return open(func(s *S, c *readline.Config) {
			c.FuncIsTerminal = func() bool { return term }
			s.aspect(c, first)
			s.aspect(c, mod)
		})
	}
	other := func(s *S) *readline.Config {
		var b *readline.Config
		if clone {
			b = s.rl.Config.Clone()
		} else {
			b = s.fresh(s.rl.Config)
			s.aspect(b, first)
		}
		s.aspect(b, what)
		return b
	}
	before := [][]string{{"a", "b", "\r"}, {"b", "c", "\r"}}
	x := mk(0)
	x.phase(before)
	a := x.rl.Config
	b := other(x)
	vrt.Assert(x.rl.SetConfig(b) == a && x.rl.Config == b, "the previous configuration is returned")
	vrt.Assert(x.rl.IsVimMode() == b.VimMode, "vim mode is the configuration's")
	y := mk(what)
	if resize {
		x.narrow()
		y.narrow()
	}
	xb := x.phase(program(c, end))
	yb := y.phase(program(c, end))
	xb.same(yb, "switched")
	vrt.Assert(x.rl.SetConfig(a) == b && x.rl.Config == a, "the other configuration is returned")
	vrt.Assert(x.rl.IsVimMode() == a.VimMode, "vim mode is the first configuration's")
	xa := x.phase(program(c, "\r"))
	z := mk(0)
	z.phase(before)
	if resize {
		z.narrow()
	}
	za := z.phase(program(c, "\r"))
	xa.same(za, "switched back")
	vrt.Assert(x.raw == x.unraw, "raw mode is left as often as entered")
	vrt.Reach("done")
}

// one is a configuration which can be set, and what its history should be.
type one struct {
	cfg  *readline.Config
	path string
	used bool
	hist []string
}

// Configs: each configuration has its own history, and each history file what was submitted while a
// configuration with its path was set.
func Configs() {
	vsys.Reset()
	files := map[string][]string{"hist": {"old", "new"}}
	vsys.Put("hist", []byte("old\nnew\n"))
	paths := []string{"hist", "other", ""}
	s := open(func(s *S, c *readline.Config) { c.HistoryFile = paths[vrt.Choose("path", 2)*2] })
	cs := []*one{{cfg: s.rl.Config, path: s.rl.Config.HistoryFile}}
	for n := vrt.Param("configs", 2); n > 1; n-- {
		c := s.fresh(s.rl.Config)
		c.HistoryFile = paths[vrt.Choose("path", 3)]
		cs = append(cs, &one{cfg: c, path: c.HistoryFile})
	}
	cur := cs[0]
	use := func(o *one) {
		cur = o
		if !o.used {
			o.used, o.hist = true, append([]string{}, files[o.path]...)
		}
	}
	use(cs[0])
	add := func(l string) {
		if l == "" || len(cur.hist) > 0 && cur.hist[len(cur.hist)-1] == l {
			return
		}
		cur.hist = append(cur.hist, l)
		if cur.path != "" {
			files[cur.path] = append(files[cur.path], l)
		}
	}
	read := func(want string, keys ...string) {
		s.start()
		vrt.Settle()
		for _, k := range keys {
			s.str(k)
		}
		r := s.wait()
		vrt.Observe("line", r.line, want)
		vrt.Assert(r.err == nil && r.line == want, "the line is the one typed or recalled")
		add(want)
	}
	for n := vrt.Param("steps", 4); n > 0; n-- {
		switch vrt.Choose("step", 5) {
		case 0:
			o := cs[vrt.Choose("config", len(cs))]
			if o == cur {
				vrt.Cut("the same again")
			}
			vrt.Assert(s.rl.SetConfig(o.cfg) == cur.cfg, "the previous configuration is returned")
			use(o)
		case 1:
			c := string(word())
			read("l"+c, "l", c, "\r")
		case 2:
			if len(cur.hist) == 0 {
				vrt.Cut("nothing to recall")
			}
			keys := []string{}
			want := ""
			for i := vrt.Choose("back", len(cur.hist)); i >= 0; i-- {
				keys = append(keys, "\x10")
				want = cur.hist[len(cur.hist)-len(keys)]
			}
			read(want, append(keys, "\r")...)
		case 3:
			go func() {
				b, err := s.rl.ReadPassword("? ")
				s.res <- result{string(b), err}
			}()
			vrt.Settle()
			s.str("pw\r")
			vrt.Assert(s.wait().line == "pw", "the password is the one typed")
		case 4:
			p := paths[vrt.Choose("path", len(paths))]
			s.rl.SetHistoryPath(p)
			cur.path, cur.hist = p, append([]string{}, files[p]...)
		}
	}
	s.rl.Close()
	for name, lines := range files {
		var text string
		for _, l := range lines {
			text += l + "\n"
		}
		b, _ := vsys.Get(name)
		vrt.Assert(string(b) == text, "the file holds what was submitted")
	}
	vrt.Reach("done")
}

// Setter: changing one setting between reads is like opening the session with it.
func Setter() {
	what := vrt.Choose("what", 6)
	term := vrt.Choose("terminal", 2) == 1
	mask := vrt.Choose("mask", 2) == 1
	var c string
	if vrt.Param("ascii", 1) == 1 {
		c = string(ascii("c"))
	} else {
		c = string(printable("c"))
	}
	prompts := []string{"", "p\xe4 ", "\x1b[31mred\x1b[0m ", "世 "}
	prompt := prompts[vrt.Choose("prompt", len(prompts))]
	mk := func(done bool) *S {
		return open(func(s *S, c *readline.Config) {
			c.FuncIsTerminal = func() bool { return term }
			c.EnableMask, c.MaskRune = mask, '*'
			if what == 3 {
				c.VimMode = true
			}
			if done {
				switch what {
				case 0:
					c.Prompt = prompt
				case 1:
					c.MaskRune = '#'
				case 2:
					c.VimMode = true
				case 3:
					c.VimMode = false
				case 4:
					c.Painter = quoter{}
				case 5:
					c.Listener = nil
				}
			}
		})
	}
	x, y := mk(false), mk(true)
	before := [][]string{{"a", "b", "\r"}, {"b", "c", "\r"}}
	x.phase(before)
	y.phase(before)
	switch what {
	case 0:
		x.rl.SetPrompt(prompt)
	case 1:
		x.rl.SetMaskRune('#')
	case 2, 3:
		x.rl.SetVimMode(what == 2)
		vrt.Assert(x.rl.IsVimMode() == (what == 2), "vim mode is as set")
	case 4:
		x.rl.Config.SetPainter(quoter{})
	case 5:
		x.rl.Config.Listener = nil
	}
	xa, ya := x.phase(program(c, "\r")), y.phase(program(c, "\r"))
	xa.same(ya, "setting changed")
	vrt.Reach("done")
}

func init() {
	Funcs["Switch"] = Switch
	Funcs["Configs"] = Configs
	Funcs["Setter"] = Setter
}
