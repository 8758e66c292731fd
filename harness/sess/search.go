package sess

import (
	"github.com/chzyer/readline"

	"verif/harness/vrt"
)

// lower is ASCII case folding without a path split.
func lower(r rune) rune {
	return vrt.IteRune(vrt.And(r >= 'A', r <= 'Z'), r+32, r)
}

func eqAt(l, p []rune, at int, fold bool) bool {
	ok := true
	for i := range p {
		a, b := l[at+i], p[i]
		if fold {
			a, b = lower(a), lower(b)
		}
		ok = vrt.And(ok, a == b)
	}
	return ok
}

// findBck is the last occurrence of p in l that starts at or before max, or -1.
func findBck(l, p []rune, max int, fold bool) int {
	for at := len(l) - len(p); at >= 0; at-- {
		if at <= max && eqAt(l, p, at, fold) {
			return at
		}
	}
	return -1
}

// findFwd is the first occurrence of p in l that starts at or after min, or -1.
func findFwd(l, p []rune, min int, fold bool) int {
	for at := 0; at+len(p) <= len(l); at++ {
		if at >= min && eqAt(l, p, at, fold) {
			return at
		}
	}
	return -1
}

type searchModel struct {
	*histModel
	pos  int
	pat  []rune
	bck  bool
	in   bool
	fold bool
	src  int
	line []rune
	spos int
}

func (m *searchModel) item(i int) []rune {
	switch {
	case m.work[i] != nil:
		return m.work[i]
	case i < len(m.entries):
		return m.entries[i]
	}
	return nil
}

// find is the nearest match; fresh when the pattern has changed, else the next one.
func (m *searchModel) find(fresh bool) bool {
	n := len(m.pat)
	if n == 0 {
		return true
	}
	for i := m.cur; i >= 0 && i <= len(m.entries); {
		l := m.item(i)
		at := -1
		if m.bck {
			max := len(l)
			if i == m.cur {
				max = m.pos - n
				if fresh {
					max = m.pos
				}
			}
			at = findBck(l, m.pat, max, m.fold)
		} else {
			min := 0
			if i == m.cur {
				min = m.pos
				if fresh {
					min = m.pos - n
				}
			}
			at = findFwd(l, m.pat, min, m.fold)
		}
		if at >= 0 {
			m.cur, m.histModel.line, m.pos = i, cp(l), at
			if !m.bck {
				m.pos = at + n
			}
			return true
		}
		if m.bck {
			i--
		} else {
			i++
		}
	}
	return false
}

func (m *searchModel) key(bck bool) {
	m.bck = bck
	if m.in {
		m.find(false)
		return
	}
	m.in, m.pat, m.src, m.line, m.spos = true, nil, m.cur, cp(m.histModel.line), m.pos
}

func (m *searchModel) leave(revert bool) {
	m.in = false
	if revert {
		m.cur, m.histModel.line, m.pos = m.src, m.line, m.spos
	}
}

// Search: a history search key by key.
func Search() {
	fold := vrt.Choose("fold", vrt.Param("folds", 2)) == 1
	ascii := func(name string) rune { return vrt.Rune(name, rune(vrt.Param("from", 32)), rune(vrt.Param("to", 126))) }
	s := open(func(s *S, c *readline.Config) { c.HistorySearchFold = fold })
	m := &searchModel{histModel: &histModel{on: true, limit: 500}, fold: fold}
	m.reset()
	ne := vrt.Choose("entries", vrt.Param("entries", 2)+1)
	for i := 0; i < ne; i++ {
		l := make([]rune, 1+vrt.Choose("len", vrt.Param("len", 2)))
		for j := range l {
			l[j] = ascii("e")
		}
		s.rl.SaveHistory(string(l))
		m.record(l)
	}
	s.start()
	// something typed, and perhaps an entry recalled, before the search
	for i := vrt.Choose("typed", vrt.Param("typed", 1)+1); i > 0; i-- {
		x := ascii("t")
		s.keys(x)
		m.edit(append(cp(m.histModel.line), x))
	}
	if vrt.Choose("recalled", vrt.Param("recalls", 2)) == 1 {
		s.keys(ctrlP)
		m.move(-1)
	}
	m.pos = len(m.histModel.line)
	if m.pos > 0 && vrt.Choose("back", 2) == 1 {
		s.keys(2)
		m.pos--
	}
	vrt.Settle()
	s.clear()
	keys := 0
	check := func(what string) {
		keys++
		vrt.Settle()
		vrt.Assert(s.nrecs() == keys, what+": every key is seen")
		vrt.Assert(same(s.last(0).line, m.histModel.line), what+": line shown")
		vrt.Assert(s.last(0).pos == m.pos, what+": cursor")
	}
	dir := func() {
		b := vrt.Choose("dir", 2) == 0
		if b {
			s.keys(18)
		} else {
			s.keys(19)
		}
		m.key(b)
		check("search key")
	}
	dir()
	for k := vrt.Choose("keys", vrt.Param("keys", 2)+1); k > 0; k-- {
		switch vrt.Choose("key", 3) {
		case 0:
			x := ascii("p")
			s.keys(x)
			m.pat = append(m.pat, x)
			if m.find(true) {
				vrt.Reach("found")
			} else {
				vrt.Reach("not found")
			}
			check("pattern")
		case 1:
			s.keys([]rune{127, 8}[k&1])
			if len(m.pat) > 0 {
				m.pat = m.pat[:len(m.pat)-1]
				m.find(true)
			}
			check("backspace")
		case 2:
			dir()
		}
	}
	// browsing goes on from the line shown
	prev := func() {
		if m.cur > 0 {
			m.work[m.cur] = cp(m.histModel.line)
			if m.work[m.cur] == nil {
				m.work[m.cur] = []rune{}
			}
			m.move(-1)
			m.pos = len(m.histModel.line)
		}
		check("Ctrl-P")
	}
	switch vrt.Choose("end", vrt.Param("ends", 5)) {
	case 0: // Enter submits what is shown
		m.leave(false)
		vrt.Reach("accept")
	case 1:
		s.keys(7)
		m.leave(true)
		check("Ctrl-G")
		if vrt.Choose("browse", 2) == 1 {
			s.keys(ctrlP)
			prev()
		}
		vrt.Reach("cancel")
	case 2:
		s.keys(3)
		m.leave(true)
		check("Ctrl-C")
		if vrt.Choose("browse", vrt.Param("browsec", 1)) == 1 {
			s.keys(ctrlP)
			prev()
		}
	case 3: // another editing key leaves the search and acts on what is shown
		s.keys(1)
		m.leave(false)
		m.pos = 0
		check("Ctrl-A")
		x := ascii("x")
		s.keys(x)
		m.edit(cat([]rune{x}, m.histModel.line))
		m.pos = 1
		check("character")
		vrt.Reach("edit")
	case 4:
		s.keys(ctrlP)
		m.leave(false)
		prev()
	}
	l := m.histModel.line
	s.keys('\r')
	r := s.wait()
	vrt.Assert(r.err == nil && same([]rune(r.line), l), "line returned")
	m.record(l)
	s.walk(m.histModel)
	vrt.Reach("done")
}

func init() { Funcs["Search"] = Search }
