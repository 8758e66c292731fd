package sess

import (
	"github.com/chzyer/readline"

	"verif/harness/spec"
	"verif/harness/vrt"
)

// histModel is the reference: the entries, the working copies of the current read, the item shown.
type histModel struct {
	entries [][]rune
	work    [][]rune // per entry; the last one belongs to the line being typed
	cur     int
	line    []rune
	on      bool
	limit   int
}

func (m *histModel) reset() {
	m.work = make([][]rune, len(m.entries)+1)
	m.cur = len(m.entries)
	m.line = nil
}

func (m *histModel) record(l []rune) {
	if m.on && len(l) > 0 && m.limit >= 0 {
		n := len(m.entries)
		if n == 0 || !same(m.entries[n-1], l) {
			m.entries = append(m.entries, cp(l))
			if len(m.entries) > m.limit {
				m.entries = m.entries[1:]
			}
		}
	}
	m.reset()
}

func (m *histModel) show() {
	switch {
	case m.work[m.cur] != nil:
		m.line = cp(m.work[m.cur])
	case m.cur < len(m.entries):
		m.line = cp(m.entries[m.cur])
	default:
		m.line = nil
	}
}

func (m *histModel) move(d int) {
	if m.cur+d < 0 || m.cur+d > len(m.entries) {
		return
	}
	m.cur += d
	m.show()
}

func (m *histModel) edit(l []rune) {
	m.line = l
	m.work[m.cur] = cp(l)
	if m.work[m.cur] == nil {
		m.work[m.cur] = []rune{}
	}
}

const (
	ctrlP = 16
	ctrlN = 14
)

// walk goes through all of the history in a fresh read and compares every line shown.
func (s *S) walk(m *histModel) {
	s.start()
	vrt.Settle()
	s.clear()
	n := len(m.entries)
	for i := 0; i < n+1; i++ {
		s.keys(ctrlP)
	}
	for i := 0; i < n+1; i++ {
		s.keys(ctrlN)
	}
	vrt.Settle()
	vrt.Assert(s.nrecs() == 2*n+2, "every key is seen")
	for i := 0; i < n+1; i++ {
		m.move(-1)
		vrt.Assert(same(s.recs[i].line, m.line), "walking back shows the entries, newest first")
		vrt.Assert(s.recs[i].pos == len(m.line), "cursor at the end of a recalled line")
	}
	for i := n + 1; i < 2*n+2; i++ {
		m.move(1)
		vrt.Assert(same(s.recs[i].line, m.line), "walking forward shows the entries, oldest first")
	}
	s.keys('\r')
	vrt.Assert(s.wait().line == "", "nothing typed")
	m.record(nil)
}

// History: entries and working copies over whole reads, compared with the reference after every key.
func History() {
	limit := []int{500, 2, 1, -1}[vrt.Choose("limit", vrt.Param("limits", 4))]
	auto := vrt.Choose("auto", vrt.Param("auto", 2)) == 0
	s := open(func(s *S, c *readline.Config) {
		c.HistoryLimit = limit
		c.DisableAutoSaveHistory = !auto
		if vrt.Choose("unique", vrt.Param("unique", 1)) == 1 {
			c.UniqueEditLine = true
		}
	})
	m := &histModel{on: true, limit: limit}
	m.reset()
	for i := vrt.Choose("seed", vrt.Param("seed", 2)+1); i > 0; i-- {
		l := []rune{ascii("e")}
		vrt.Assert(s.rl.SaveHistory(string(l)) == nil, "SaveHistory")
		m.record(l)
	}
	for i := 0; i < vrt.Param("reads", 2); i++ {
		s.start()
		vrt.Settle()
		s.clear()
		k := vrt.Choose("keys", vrt.Param("keys", 3)+1)
		for j := 0; j < k; j++ {
			switch vrt.Choose("key", 4) {
			case 0:
				x := ascii("x")
				s.keys(x)
				m.edit(append(cp(m.line), x))
			case 1:
				s.keys(127)
				if len(m.line) > 0 {
					m.edit(cp(m.line[:len(m.line)-1]))
				}
			case 2:
				s.keys(ctrlP)
				m.move(-1)
			case 3:
				s.keys(ctrlN)
				m.move(1)
			}
			vrt.Settle()
			vrt.Assert(s.nrecs() == j+1, "every key is seen")
			vrt.Assert(same(s.last(0).line, m.line), "line after the key")
			vrt.Assert(s.last(0).pos == len(m.line), "cursor after the key")
		}
		l := m.line
		if vrt.Choose("end", 2) == 0 {
			s.keys('\r')
			r := s.wait()
			vrt.Assert(r.err == nil && same([]rune(r.line), l), "line returned")
			if auto {
				m.record(l)
			} else {
				m.reset()
			}
		} else {
			s.keys(3)
			r := s.wait()
			vrt.Assert(r.err == readline.ErrInterrupt && same([]rune(r.line), l), "interrupted line")
			m.reset()
		}
		switch vrt.Choose("api", vrt.Param("api", 5)) {
		case 1:
			x := []rune{ascii("s")}
			s.rl.SaveHistory(string(x))
			m.record(x)
			vrt.Reach("save")
		case 2:
			s.rl.ResetHistory()
			m.entries = nil
			m.reset()
			vrt.Reach("reset")
		case 3:
			s.rl.HistoryDisable()
			m.on = false
			vrt.Reach("disable")
		case 4:
			s.rl.HistoryEnable()
			m.on = true
		}
	}
	s.walk(m)
	vrt.Reach("done")
}

// HistVim: as History with vim keys; commands handled inside vim mode are edits too.
func HistVim() {
	s := open(func(s *S, c *readline.Config) { c.VimMode = true })
	m := &histModel{on: true, limit: 500}
	m.reset()
	for i := 0; i < vrt.Param("seed", 2); i++ {
		l := []rune{ascii("e"), ascii("f")}
		s.rl.SaveHistory(string(l))
		m.record(l)
	}
	s.start()
	if vrt.Choose("typed", 2) == 1 {
		x := ascii("x")
		s.keys(x)
		m.edit([]rune{x})
	}
	s.keys(27)
	vrt.Settle()
	pos := len(m.line)
	for j := 0; j < vrt.Param("keys", 3); j++ {
		switch vrt.Choose("key", 5) {
		case 0:
			s.keys('x')
			if pos < len(m.line) {
				m.edit(cat(m.line[:pos], m.line[pos+1:]))
			}
			if pos == len(m.line) && pos > 0 {
				pos--
			}
		case 1:
			s.keys('0')
			pos = 0
		case 2:
			s.keys('d', 'd')
			if len(m.line) > 0 {
				m.edit(nil)
			}
			pos = 0
		case 3:
			c := m.cur
			s.keys('k')
			m.move(-1)
			if c != m.cur {
				pos = len(m.line)
			}
		case 4:
			c := m.cur
			s.keys('j')
			m.move(1)
			if c != m.cur {
				pos = len(m.line)
			}
		}
	}
	l := m.line
	s.keys('\r')
	r := s.wait()
	vrt.Assert(r.err == nil && same([]rune(r.line), l), "line returned")
	m.record(l)
	s.walk(m)
	vrt.Reach("done")
}

func init() {
	Funcs["History"] = History
	Funcs["HistVim"] = HistVim
	_ = spec.N
}
