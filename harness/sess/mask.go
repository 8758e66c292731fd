package sess

import (
	"io"

	"github.com/chzyer/readline"

	"verif/harness/spec"
	"verif/harness/vrt"
)

// keys of a masked line whose effect does not depend on the characters of the line
var maskKeys = []editKey{
	{"character", "", 0, 4}, {"Backspace", "\x7f", 127, 6}, {"Ctrl-B", "\x02", 2, 2}, {"Ctrl-A", "\x01", 1, 0}, {"Ctrl-D", "\x04", 4, 7}, {"Ctrl-K", "\x0b", 11, 8},
	{"Ctrl-U", "\x15", 21, 9}, {"Ctrl-T", "\x14", 20, 11}, {"Ctrl-Y", "\x19", 25, -1}, {"Ctrl-E", "\x05", 5, 1}, {"Ctrl-F", "\x06", 6, 3}, {"Ctrl-R", "\x12", 18, -2},
}

// masked reads one masked line made of the given keys (characters from secret) and returns the output,
// the result, and what the result should be.
func masked(how, width int, mask rune, prog []int, secret []rune, end int) (out []byte, got []byte, err error, want []rune) {
	s := open(func(s *S, c *readline.Config) {
		c.FuncIsTerminal = func() bool { return true }
		s.width = width
		if how == 1 {
			c.EnableMask = true
			c.MaskRune = mask
		}
	})
	done := make(chan int, 1)
	go func() {
		switch how {
		case 0:
			got, err = s.rl.ReadPassword("pw: ")
		case 1:
			var l string
			l, err = s.rl.Readline()
			got = []byte(l)
		case 2:
			cfg := s.rl.GenPasswordConfig()
			cfg.MaskRune = mask
			cfg.Prompt = "pw: "
			got, err = s.rl.ReadPasswordWithConfig(cfg)
		}
		done <- 1
	}()
	vrt.Settle()
	var l, kill []rune
	i := 0
	for _, p := range prog {
		k := maskKeys[p]
		switch k.op {
		case 4:
			s.keys(secret[0])
			l, i, _, _ = spec.Apply(4, l, i, secret[0], false, false)
			secret = secret[1:]
		case -1:
			s.str(k.seq)
			l, i = cat(l[:i], kill, l[i:]), i+len(kill)
		case -2:
			s.str(k.seq)
		default:
			if k.key == 4 && len(l) == 0 {
				continue // end of file
			}
			var kl []rune
			s.str(k.seq)
			l, i, kl, _ = spec.Apply(k.op, l, i, 0, false, false)
			if kl != nil {
				kill = kl
			}
		}
		vrt.Settle()
	}
	s.keys([]rune{'\r', 3, '\n'}[end])
	<-done
	return s.out.take(), got, err, l
}

// secretChar is an arbitrary character, or one of the control characters no command has.
func secretChar(name string) rune {
	if vrt.Param("ctl", 0) == 0 || vrt.Choose("kind", 2) == 0 {
		return printable(name)
	}
	if vrt.Choose("control", 2) == 0 {
		return vrt.Rune(name, 28, 31)
	}
	return []rune{15, 17, 22, 24}[vrt.Choose("which", 4)]
}

// MaskDefault: the same for a masked line which begins with a text of the program and goes on with keys.
func MaskDefault() {
	n := vrt.Choose("n", vrt.Param("n", 3)+1)
	width := []int{4, 80}[vrt.Choose("width", 2)]
	mask := []rune{'*', 0, 0x4E16}[vrt.Choose("mask", 3)]
	a, b := make([]rune, n), make([]rune, n)
	for i := range a {
		a[i] = printable("a")
		if vrt.Choose("tab", 2) == 1 {
			b[i] = vrt.Rune("t", 1, 31)
			vrt.Assume(b[i] != '\n')
		} else {
			b[i] = printable("b")
		}
	}
	var keys []rune
	for k := vrt.Choose("k", vrt.Param("k", 1)+1); k > 0; k-- {
		keys = append(keys, []rune{1, 2, 5, 127, 11, 20, 12, 'x'}[vrt.Choose("key", 8)])
	}
	run := func(secret []rune) ([]byte, string, error) {
		s := open(func(s *S, c *readline.Config) {
			c.FuncIsTerminal = func() bool { return true }
			s.width = width
			c.EnableMask, c.MaskRune = true, mask
		})
		var line string
		var err error
		done := make(chan int, 1)
		go func() {
			line, err = s.rl.ReadlineWithDefault(string(secret))
			done <- 1
		}()
		vrt.Settle()
		for _, k := range keys {
			s.keys(k)
			vrt.Settle()
		}
		s.keys('\r')
		<-done
		return s.out.take(), line, err
	}
	oa, _, ea := run(a)
	ob, _, eb := run(b)
	vrt.Assert(len(oa) == len(ob), "the amount of output does not depend on the default text")
	ok := true
	for i := range oa {
		ok = vrt.And(ok, oa[i] == ob[i])
	}
	vrt.Assert(ok, "the output does not depend on the default text")
	vrt.Assert(ea == nil && eb == nil, "no error")
	vrt.Reach("done")
}

// Mask: two secrets, typed and edited alike, give the same output; the secret comes back.
func Mask() {
	how := vrt.Choose("how", vrt.Param("hows", 3))
	few := vrt.Param("few", 0) == 1
	widths, masks := 2, 3
	if few {
		widths, masks = 1, 2
	}
	width := []int{4, 80}[vrt.Choose("width", widths)]
	mask := []rune{'*', 0, 0x4E16}[vrt.Choose("mask", masks)]
	end := vrt.Choose("end", vrt.Param("ends", 3))
	var prog []int
	var a, b []rune
	for k := vrt.Choose("k", vrt.Param("k", 3)+1); k > 0; k-- {
		p := vrt.Choose("key", len(maskKeys))
		prog = append(prog, p)
		if maskKeys[p].op == 4 {
			a, b = append(a, printable("a")), append(b, secretChar("b"))
		}
	}
	oa, ga, ea, wa := masked(how, width, mask, prog, a, end)
	ob, gb, eb, wb := masked(how, width, mask, prog, b, end)
	vrt.Assert(len(oa) == len(ob), "the amount of output does not depend on the secret")
	ok := true
	for i := range oa {
		ok = vrt.And(ok, oa[i] == ob[i])
	}
	vrt.Assert(ok, "the output does not depend on the secret")
	vrt.Assert(ea == eb, "same error")
	if end != 1 {
		vrt.Assert(ea == nil && same([]rune(string(ga)), wa) && same([]rune(string(gb)), wb), "the secret is returned")
		vrt.Reach("entered")
	} else {
		vrt.Assert(ea == readline.ErrInterrupt, "interrupted")
	}
	vrt.Reach("done")
}

// passTrace is what a session shows after an optional password.
type passTrace struct {
	out  []byte
	recs []keyRec
	res  []result
	cfg  *readline.Config
	tabs int
}

func passSession(with, resize bool, pre, end, how int, secret []rune) passTrace {
	t := &tabber{cands: [][]rune{[]rune("tab")}}
	s := open(func(s *S, c *readline.Config) {
		c.FuncIsTerminal = func() bool { return true }
		c.AutoComplete = t
		c.EnableMask = false
		c.MaskRune = '+'
		c.VimMode = pre == 3
	})
	s.rl.SaveHistory("one")
	if pre == 1 {
		s.rl.SetPrompt("new> ")
	}
	s.start()
	s.str("cut\x15two\r")
	s.wait()
	if pre == 2 { // history as it is while browsing
		s.start()
		s.str("\x10\x03")
		s.wait()
	}
	vrt.Settle()
	s.out.take()
	s.clear()
	if resize && !with {
		s.narrow()
	}
	if with {
		done := make(chan error, 1)
		var got []byte
		go func() {
			var err error
			switch how {
			case 0:
				got, err = s.rl.ReadPassword("pw: ")
			case 1:
				got, err = s.rl.ReadPasswordEx("pw: ", nil)
			case 2:
				got, err = s.rl.ReadPasswordWithConfig(&readline.Config{Stdin: s.in, Prompt: "pw: ", EnableMask: true, MaskRune: '#', HistoryLimit: -1, FuncGetWidth: s.cfg.FuncGetWidth,
					FuncIsTerminal: s.cfg.FuncIsTerminal, Stdout: s.out, Stderr: s.out})
			}
			done <- err
		}()
		vrt.Settle()
		for _, c := range secret {
			s.keys(c)
		}
		vrt.Settle()
		if resize {
			s.narrow()
		}
		switch end {
		case 0:
			s.str("\r")
			vrt.Assert(<-done == nil && same([]rune(string(got)), secret), "password")
		case 1:
			s.str("\x03")
			vrt.Assert(<-done == readline.ErrInterrupt, "interrupted")
		case 2: // cut, then end of file
			s.str("\x15\x04")
			vrt.Assert(<-done == io.EOF, "end of file")
		case 3: // cut and yank
			s.str("\x15\x19\x19\r")
			vrt.Assert(<-done == nil && same([]rune(string(got)), cat(secret, secret)), "password")
		case 4: // after pressing history keys, Tab and a search
			s.str("\x09\x10\x0e\x12\x07\r")
			vrt.Assert(<-done == nil, "password")
		}
		vrt.Settle()
		vrt.Assert(s.nrecs() == 0 && t.calls == 0, "listener and completer of the session are not told the password")
		s.out.take()
		s.clear()
	}
	var tr passTrace
	s.start()
	vrt.Settle()
	for _, k := range []string{"a", "\x19", "\x09", "\x10", "\x10", "\x10", "\x0e", "\x0e", "\x0e", "\x19"} {
		s.str(k)
		vrt.Settle()
	}
	s.str("\r")
	tr.res = append(tr.res, s.wait())
	s.start()
	vrt.Settle()
	s.str("\x12o\x07\x10\r")
	tr.res = append(tr.res, s.wait())
	vrt.Settle()
	tr.out = s.out.take()
	tr.recs = s.recs
	tr.cfg = s.rl.Operation.GetConfig()
	tr.tabs = t.calls
	return tr
}

// Password: a session in which a password was read goes on exactly like one in which none was.
func Password() {
	pre := vrt.Choose("pre", 4)
	end := vrt.Choose("end", 5)
	how := vrt.Choose("how", 3)
	secret := make([]rune, vrt.Choose("n", vrt.Param("n", 2)+1))
	for i := range secret {
		secret[i] = printable("p")
	}
	resize := vrt.Choose("resize", 2) == 1
	a := passSession(true, resize, pre, end, how, secret)
	b := passSession(false, resize, pre, end, how, secret)
	vrt.Observe("results", a.res[0].line, b.res[0].line)
	vrt.Assert(len(a.res) == len(b.res), "results")
	for i := range a.res {
		vrt.Assert(same([]rune(a.res[i].line), []rune(b.res[i].line)) && a.res[i].err == b.res[i].err, "the next reads return the same")
	}
	vrt.Assert(len(a.recs) == len(b.recs), "the listener is called for the same keys")
	for i := range a.recs {
		vrt.Assert(a.recs[i].key == b.recs[i].key && a.recs[i].pos == b.recs[i].pos && same(a.recs[i].line, b.recs[i].line), "the listener sees the same lines")
	}
	vrt.Assert(len(a.out) == len(b.out), "the screen shows the same amount")
	ok := true
	for i := range a.out {
		ok = vrt.And(ok, a.out[i] == b.out[i])
	}
	vrt.Assert(ok, "the screen shows the same")
	vrt.Assert(a.tabs == b.tabs, "the completer is called")
	vrt.Assert(a.cfg.MaskRune == b.cfg.MaskRune && a.cfg.EnableMask == b.cfg.EnableMask && a.cfg.Prompt == b.cfg.Prompt && a.cfg.HistoryLimit == b.cfg.HistoryLimit && a.cfg.VimMode == b.cfg.VimMode, "the configuration is the same")
	vrt.Reach("done")
}

// PassAgain: passwords read one after the other, with one configuration or several ways to ask: no
// password can be recalled in a later one, nor can a line of the history.
func PassAgain() {
	s := open(func(s *S, c *readline.Config) {
		c.FuncIsTerminal = func() bool { return true }
		c.HistoryLimit = []int{500, 2, -1}[vrt.Choose("limit", 3)]
	})
	s.rl.SaveHistory("one")
	s.rl.SaveHistory("two")
	cfg := s.rl.GenPasswordConfig()
	ask := func(how int) ([]byte, error) {
		switch how {
		case 0:
			return s.rl.ReadPasswordWithConfig(cfg)
		case 1:
			return s.rl.ReadPassword("pw: ")
		}
		return s.rl.ReadPasswordWithConfig(s.rl.GenPasswordConfig())
	}
	keys := []string{"", "\x10", "\x10\x10", "\x0e", "\x12", "\x13", "\x19"}
	for k := 2; k > 0; k-- {
		how := vrt.Choose("how", 3)
		pre := keys[vrt.Choose("pre", len(keys))]
		c := ascii("p")
		if k == 1 && pre == "\x19" {
			vrt.Cut("text cut before")
		}
		cut := k == 2 && vrt.Choose("cut", 2) == 1 && pre != "\x12" && pre != "\x13"
		done := make(chan int, 1)
		var got []byte
		var err error
		go func() {
			got, err = ask(how)
			done <- 1
		}()
		vrt.Settle()
		s.str(pre)
		vrt.Settle()
		if pre == "\x12" || pre == "\x13" {
			s.str("\x07")
			vrt.Settle()
		}
		s.keys(c)
		if cut {
			s.str("\x02\x0b")
			s.keys(c)
		}
		s.str("\r")
		<-done
		vrt.Observe("got", string(got))
		vrt.Assert(err == nil && same([]rune(string(got)), []rune{c}), "the password is what was typed, nothing is recalled")
	}
	// and the history has what it had
	if s.cfg.HistoryLimit != -1 {
		s.start()
		s.str("\x10\x10\r")
		r := s.wait()
		vrt.Assert(r.err == nil && r.line == "one", "the history is untouched")
	}
	vrt.Reach("done")
}

func init() {
	Funcs["PassAgain"] = PassAgain
	Funcs["Mask"] = Mask
	Funcs["MaskDefault"] = MaskDefault
	Funcs["Password"] = Password
}
