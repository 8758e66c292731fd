package sess

import (
	"github.com/chzyer/readline"

	"verif/harness/vrt"
)

// tabber is a completer with a fixed answer; it checks what it is given.
type tabber struct {
	cands [][]rune
	off   int
	calls int
	line  []rune
	pos   int
}

func (t *tabber) Do(line []rune, pos int) ([][]rune, int) {
	t.calls++
	t.line, t.pos = cp(line), pos
	off := t.off
	if off > pos {
		off = pos
	}
	return t.cands, off
}

func common(c [][]rune) []rune {
	for n := 0; ; n++ {
		for _, x := range c {
			if n >= len(x) || x[n] != c[0][n] {
				return c[0][:n]
			}
		}
	}
}

// tabModel is the reference for the selection.
type tabModel struct {
	n, cols, sel int
}

func (m *tabModel) rows() int { return (m.n + m.cols - 1) / m.cols }

func (m *tabModel) move(k rune) {
	switch k {
	case 9, 6:
		m.sel = (m.sel + 1) % m.n
	case 2:
		m.sel = (m.sel + m.n - 1) % m.n
	case 1:
		m.sel -= m.sel % m.cols
	case 5:
		m.sel += m.cols - 1 - m.sel%m.cols
		if m.sel >= m.n {
			m.sel = m.n - 1
		}
	case ctrlN:
		m.sel += m.cols
		if m.sel >= m.n {
			m.sel %= m.cols
		}
	case ctrlP:
		c := m.sel % m.cols
		r := m.sel/m.cols - 1
		if r < 0 {
			r = m.rows() - 1
		}
		m.sel = r*m.cols + c
		if m.sel >= m.n {
			m.sel -= m.cols
		}
	}
}

var selKeys = []rune{9, 6, 2, 1, 5, ctrlN, ctrlP}

// Complete: Tab, listing, selecting, with every way to leave.
func Complete() {
	t := &tabber{}
	s := open(func(s *S, c *readline.Config) {
		c.AutoComplete = t
		s.width = []int{80, 9, 5, 11}[vrt.Choose("width", vrt.Param("widths", 3))]
		if vrt.Choose("vim", vrt.Param("vim", 2)) == 1 {
			c.VimMode = true
		}
	})
	n := vrt.Choose("n", vrt.Param("n", 2)+1)
	l, i := symLine(n), vrt.Choose("idx", n+1)
	k := vrt.Param("k", 3)
	if vrt.Param("fixed", 0) == 0 {
		k = vrt.Choose("k", k+1)
	}
	store := make([]rune, 0, 64)
	var want [][]rune
	for j := 0; j < k; j++ {
		var c []rune
		if vrt.Param("fixed", 0) == 1 {
			c = []rune("abbcddefgg")[j*2 : j*2+1+j%2]
			c[0] = rune('a' + j)
		} else {
			c = make([]rune, vrt.Choose("len", vrt.Param("len", 2)+1))
			for x := range c {
				c[x] = ascii("c")
			}
		}
		// candidates are parts of one array, as an application may well have them
		at := len(store)
		store = append(store, c...)
		t.cands = append(t.cands, store[at:])
		want = append(want, c)
	}
	t.off = vrt.Choose("off", vrt.Param("offs", 2))
	all := cp(store[:cap(store)])
	s.start()
	s.inject(l, i)
	vrt.Settle()
	s.clear()
	s.keys(9)
	vrt.Settle()
	vrt.Assert(t.calls == 1 && same(t.line, l) && t.pos == i, "the completer gets line and cursor")
	ins := []rune{}
	listed := false
	switch {
	case k == 0:
	case k == 1:
		ins = want[0]
		vrt.Reach("single")
	default:
		ins = common(want)
		listed = len(ins) == 0
		if !listed {
			vrt.Reach("common")
		}
	}
	l, i = cat(l[:i], ins, l[i:]), i+len(ins)
	vrt.Assert(same(s.last(0).line, l) && s.last(0).pos == i, "line after Tab")
	if listed {
		vrt.Reach("listed")
		if vrt.Choose("selecting", 2) == 1 {
			s.keys(9)
			vrt.Settle()
			m := &tabModel{n: k}
			w := 0
			for _, c := range want {
				if len(c) > w {
					w = len(c)
				}
			}
			off := t.off
			if off > i {
				off = i
			}
			w += cells(l[i-off:i]) + 1
			m.cols = (s.width - 1) / w
			if m.cols < 1 {
				m.cols = 1
			}
			for j := vrt.Choose("keys", vrt.Param("keys", 2)+1); j > 0; j-- {
				key := selKeys[vrt.Choose("key", len(selKeys))]
				s.keys(key)
				m.move(key)
			}
			vrt.Settle()
			switch vrt.Choose("end", 5) {
			case 0:
				s.keys('\r')
				l, i = cat(l[:i], want[m.sel], l[i:]), i+len(want[m.sel])
				vrt.Reach("selected")
			case 1:
				s.keys(7)
				vrt.Reach("cancelled")
			case 2:
				s.keys(3)
			case 3:
				s.keys('\n')
				l, i = cat(l[:i], want[m.sel], l[i:]), i+len(want[m.sel])
			case 4:
				x := ascii("x")
				s.keys(x)
				l, i = cat(l[:i], []rune{x}, l[i:]), i+1
			}
		} else {
			switch vrt.Choose("leave", 5) {
			case 1:
				s.keys(7)
			case 2:
				s.keys(3)
			case 3:
				x := ascii("x")
				s.keys(x)
				l, i = cat(l[:i], []rune{x}, l[i:]), i+1
			case 4:
				s.keys(127)
				if i > 0 {
					l, i = cat(l[:i-1], l[i:]), i-1
				}
			}
		}
	}
	y := ascii("y")
	s.keys(y, '\r')
	r := s.wait()
	vrt.Observe("line", r.line)
	vrt.Assert(r.err == nil && same([]rune(r.line), cat(l[:i], []rune{y}, l[i:])), "line returned")
	ok := same(store[:cap(store)], all) && len(t.cands) == len(want)
	for j := range want {
		ok = ok && same(t.cands[j], want[j])
	}
	vrt.Assert(ok, "the application's candidates are not modified")
	vrt.Reach("done")
}

// words completes to the words which begin with the line.
type words [][]rune

func (w words) Do(line []rune, pos int) (out [][]rune, n int) {
	for _, x := range w {
		if pos <= len(x) && same(x[:pos], line[:pos]) {
			out = append(out, cp(x[pos:]))
		}
	}
	return out, pos
}

// Narrow: the list follows what is typed, and Tab takes what is left.
func Narrow() {
	var ws words
	for j := vrt.Param("k", 3); j > 0; j-- {
		w := make([]rune, 2)
		for x := range w {
			w[x] = ascii("w")
		}
		ws = append(ws, w)
	}
	vrt.Assume(ws[0][0] != ws[1][0])
	s := open(func(s *S, c *readline.Config) {
		c.AutoComplete = ws
		c.VimMode = vrt.Choose("vim", vrt.Param("vim", 1)) == 1
	})
	s.start()
	s.keys(9)
	var l []rune
	in := true // the list is open
	for j := 1 + vrt.Choose("typed", vrt.Param("typed", 1)); j > 0; j-- {
		x := ascii("x")
		s.keys(x)
		l = append(l, x)
		left, _ := ws.Do(l, len(l))
		in = in && len(left) > 0
	}
	if vrt.Choose("erase", 2) == 1 {
		// does not open the list again, but goes on with an open one
		s.keys(127)
		l = l[:len(l)-1]
		if in {
			in = false
			vrt.Reach("erased")
		}
	}
	s.keys(9)
	left, _ := ws.Do(l, len(l))
	switch {
	case len(left) == 0:
		vrt.Reach("nothing")
	case len(left) == 1:
		l = cat(l, left[0])
		vrt.Reach("one")
	case in:
		vrt.Reach("selecting")
		s.keys('\r')
		l = cat(l, left[0])
	default:
		l = cat(l, common(left))
		vrt.Reach("several")
	}
	if vrt.Choose("more", 2) == 1 {
		y := ascii("y")
		s.keys(y)
		l = cat(l, []rune{y})
	}
	s.keys('\r')
	r := s.wait()
	vrt.Observe("line", r.line)
	vrt.Assert(r.err == nil && same([]rune(r.line), l), "line returned")
	vrt.Reach("done")
}

func init() { Funcs["Narrow"] = Narrow }

// cells is the width of l (no tabs).
func cells(l []rune) int {
	w := 0
	for _, c := range l {
		w += readlineWidth(c)
	}
	return w
}

func readlineWidth(c rune) int {
	var rs readline.Runes
	return rs.Width(c)
}

// TabDefault: without a completer Tab inserts a tab.
func TabDefault() {
	s := open(nil)
	n := vrt.Choose("n", vrt.Param("n", 2)+1)
	l, i := symLine(n), vrt.Choose("idx", n+1)
	s.start()
	s.inject(l, i)
	s.keys(9, '\r')
	r := s.wait()
	vrt.Assert(r.err == nil && same([]rune(r.line), cat(l[:i], []rune{9}, l[i:])), "Tab inserts a tab")
	vrt.Reach("done")
}

func init() {
	Funcs["Complete"] = Complete
	Funcs["TabDefault"] = TabDefault
}
