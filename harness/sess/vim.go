package sess

import (
	"github.com/chzyer/readline"

	"verif/harness/spec"
	"verif/harness/vrt"
)

const vimCmds = "hl0^$xrdpbBwWeEfFtTiIaAsSc"

// vimModel is the reference: line, cursor, cut text, mode.
type vimModel struct {
	l    []rune
	i    int
	kill []rune
	ins  bool
}

func (m *vimModel) op(k int, x rune, prev, rev bool) {
	nl, ni, kill, _ := spec.Apply(k, m.l, m.i, x, prev, rev)
	m.l, m.i = nl, ni
	if kill != nil {
		m.kill = kill
	}
}

// motion of d and c
func (m *vimModel) motion(c, a rune) {
	switch a {
	case c:
		m.op(10, 0, false, false)
	case 'w':
		m.op(15, 0, false, false)
	case 'h':
		m.op(6, 0, false, false)
	case 'l':
		m.op(7, 0, false, false)
	}
}

// cmd sends one normal mode command and applies it to the reference.
func (m *vimModel) cmd(s *S) {
	cmds := vimCmds
	if vrt.Param("few", 0) == 1 {
		cmds = "x$dpbwtAs"
	}
	k := vrt.Choose("cmd", len(cmds)+1)
	if k == len(cmds) {
		r := vrt.Rune("unknown", 1, 0x10FFFF)
		vrt.Assume(vrt.Or(r < 0xD800, r > 0xDFFF))
		vrt.Assume(vrt.And(r != '\r', vrt.And(r != '\n', vrt.And(r != 3, vrt.And(r != 'j', r != 'k')))))
		for _, c := range vimCmds {
			vrt.Assume(r != c)
		}
		s.keys(r)
		vrt.Reach("unknown")
		return
	}
	c := rune(cmds[k])
	s.keys(c)
	switch c {
	case 'h':
		m.op(2, 0, false, false)
	case 'l':
		m.op(3, 0, false, false)
	case '0', '^':
		m.op(0, 0, false, false)
	case '$':
		m.op(1, 0, false, false)
	case 'x':
		m.op(7, 0, false, false)
		if m.i == len(m.l) && m.i > 0 {
			m.i--
		}
	case 'r':
		if vrt.Choose("arg", 2) == 0 {
			x := printable("x")
			s.keys(x)
			m.op(18, x, false, false)
		} else {
			x := vrt.Rune("ctrl", 1, 31)
			vrt.Assume(x != 26)
			s.keys(x)
		}
	case 'd', 'c':
		args := []rune{c, 'w', 'h', 'l', 0}
		a := args[vrt.Choose("arg", 5)]
		if a != 0 {
			s.keys(a)
			m.motion(c, a)
			m.ins = c == 'c'
			break
		}
		a = vrt.Rune("noarg", 1, 0x10FFFF)
		vrt.Assume(vrt.Or(a < 0xD800, a > 0xDFFF))
		vrt.Assume(vrt.And(a != c, vrt.And(a != 'w', vrt.And(a != 'h', a != 'l'))))
		vrt.Assume(a != 26)
		s.keys(a, 27) // the line does not change; Esc makes the mode certain
	case 'p':
		m.l, m.i = cat(m.l[:m.i], m.kill, m.l[m.i:]), m.i+len(m.kill)
	case 'b', 'B':
		m.op(12, 0, false, false)
	case 'w', 'W':
		m.op(13, 0, false, false)
	case 'e', 'E':
		m.op(16, 0, false, false)
	case 'f', 'F', 't', 'T':
		x := printable("x")
		if vrt.Choose("esc", 2) == 1 {
			s.keys(27)
			break
		}
		s.keys(x)
		m.op(17, x, c == 't' || c == 'T', c == 'F' || c == 'T')
	case 'i':
		m.ins = true
	case 'I':
		m.op(0, 0, false, false)
		m.ins = true
	case 'a':
		m.op(3, 0, false, false)
		m.ins = true
	case 'A':
		m.op(1, 0, false, false)
		m.ins = true
	case 's':
		m.op(7, 0, false, false)
		m.ins = true
	case 'S':
		m.op(10, 0, false, false)
		m.ins = true
	}
	vrt.Reach(string(c))
}

// Vim: normal mode commands in an arbitrary state of the line, then a character and Enter (or Ctrl-C).
func Vim() {
	on := vrt.Choose("switched on", 2) == 1
	s := open(func(s *S, c *readline.Config) { c.VimMode = !on })
	if on {
		s.rl.SetVimMode(true)
	}
	n := vrt.Choose("n", vrt.Param("n", 3)+1)
	m := &vimModel{l: symLine(n), i: vrt.Choose("idx", n+1)}
	s.start()
	s.inject(m.l, m.i)
	s.keys(27)
	for k := 0; k < vrt.Param("cmds", 1); k++ {
		if m.ins {
			s.keys(27)
			m.ins = false
		}
		m.cmd(s)
	}
	if !m.ins {
		switch vrt.Choose("end", vrt.Param("ends", 4)) {
		case 0:
			s.keys('i')
		case 1: // Enter in normal mode
			s.keys('\r')
			r := s.wait()
			vrt.Assert(r.err == nil && same([]rune(r.line), m.l), "line returned from normal mode")
			s.next()
			return
		case 2:
			s.keys('\n')
			r := s.wait()
			vrt.Assert(r.err == nil && same([]rune(r.line), m.l), "line returned from normal mode")
			s.next()
			return
		case 3:
			s.keys(3)
			r := s.wait()
			vrt.Assert(r.err == readline.ErrInterrupt && same([]rune(r.line), m.l), "line interrupted in normal mode")
			s.next()
			return
		}
	}
	y := ascii("y")
	s.keys(y, '\r')
	r := s.wait()
	vrt.Observe("line", r.line)
	vrt.Assert(r.err == nil, "no error")
	vrt.Assert(same([]rune(r.line), cat(m.l[:m.i], []rune{y}, m.l[m.i:])), "text and cursor after the command")
	s.next()
}

// next checks that the next read starts in insert mode with an empty line.
func (s *S) next() {
	z := ascii("z")
	s.start()
	s.keys(z, '\r')
	r := s.wait()
	vrt.Assert(r.err == nil && same([]rune(r.line), []rune{z}), "the next read starts in insert mode")
	vrt.Reach("done")
}

// VimInsert: in insert mode the editing keys work as in emacs mode; switching vim mode off in normal
// mode returns to plain editing.
func VimInsert() {
	s := open(func(s *S, c *readline.Config) { c.VimMode = true })
	n := vrt.Choose("n", vrt.Param("n", 3)+1)
	l, i := symLine(n), vrt.Choose("idx", n+1)
	k := editKeys[vrt.Choose("key", len(editKeys))]
	if k.seq != "" && k.seq[0] == 27 || k.key == 4 && n == 0 {
		vrt.Cut("not a plain key")
	}
	s.start()
	s.inject(l, i)
	if vrt.Choose("off", 2) == 1 {
		s.keys(27)
		vrt.Settle()
		s.rl.SetVimMode(false)
		vrt.Assert(!s.rl.IsVimMode(), "vim mode is off")
		vrt.Reach("off")
	} else {
		vrt.Assert(s.rl.IsVimMode(), "vim mode is on")
	}
	x := rune(0)
	if k.seq == "" {
		x = printable("x")
		s.keys(x)
	} else {
		s.str(k.seq)
	}
	y := ascii("y")
	s.keys(y, '\r')
	r := s.wait()
	nl, ni, _, _ := spec.Apply(k.op, l, i, x, false, false)
	vrt.Assert(r.err == nil && same([]rune(r.line), cat(nl[:ni], []rune{y}, nl[ni:])), k.name+": line returned")
	vrt.Reach("done")
}

func init() {
	Funcs["Vim"] = Vim
	Funcs["VimInsert"] = VimInsert
}
