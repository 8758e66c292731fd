package sess

import (
	"github.com/chzyer/readline"

	"verif/harness/vrt"
	"verif/harness/vsys"
)

// The history file lives in the stand-in for the operating system (variant shim).
const histPath = "hist"

func text(lines [][]rune, finished bool) []byte {
	var b []byte
	for i, l := range lines {
		b = append(b, string(l)...)
		if i < len(lines)-1 || finished {
			b = append(b, '\n')
		}
	}
	return b
}

// split is the lines of a file.
func split(b []byte) [][]rune {
	var out [][]rune
	start := 0
	for i := range b {
		if b[i] == '\n' {
			out = append(out, []rune(string(b[start:i])))
			start = i + 1
		}
	}
	if start < len(b) {
		out = append(out, []rune(string(b[start:])))
	}
	return out
}

// entriesIn is what the lines of a file stand for.
func entriesIn(lines [][]rune) [][]rune {
	var out [][]rune
	for _, l := range lines {
		i, j := 0, len(l)
		for i < j && (l[i] == ' ' || l[i] == '\t' || l[i] == '\r') {
			i++
		}
		for j > i && (l[j-1] == ' ' || l[j-1] == '\t' || l[j-1] == '\r') {
			j--
		}
		if i < j {
			out = append(out, cp(l[i:j]))
		}
	}
	return out
}

func newest(l [][]rune, n int) [][]rune {
	if n < 0 {
		return nil
	}
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return append([][]rune{}, l...)
}

func sameLines(a, b [][]rune) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vrt.And(ok, same(a[i], b[i]))
	}
	return ok
}

// word is an arbitrary character that is no blank.
func word() rune { return vrt.Rune("e", 33, 126) }

// anyLines is the lines of a history file.
func anyLines(max, forms int) [][]rune {
	var l [][]rune
	for n := vrt.Choose("lines", max+1); n > 0; n-- {
		switch vrt.Choose("form", forms) {
		case 0:
			l = append(l, []rune{word()})
		case 1:
			l = append(l, []rune{})
		case 2:
			l = append(l, []rune{' ', word(), '\t', ' ', word(), '\r'})
		case 3:
			l = append(l, []rune{' ', '\t'})
		case 4:
			l = append(l, []rune{0x4E16, word(), 0x1F600})
		case 5:
			x := []rune{word()}
			for i := 0; i < 1500; i++ {
				x = append(x, 'a')
			}
			l = append(l, x)
		}
	}
	return l
}

func openFile(limit int) *S {
	return open(func(s *S, c *readline.Config) {
		c.HistoryFile = histPath
		c.HistoryLimit = limit
	})
}

// fileModel is a history file and a session on it.
type fileModel struct {
	histModel
	lines map[string][][]rune
	path  string
}

func (m *fileModel) open(path string, limit int) {
	m.histModel = histModel{on: true, limit: limit}
	m.path = path
	if limit >= 0 {
		all := entriesIn(m.lines[path])
		if len(all) > limit {
			m.lines[path] = newest(all, limit)
		}
		m.entries = newest(all, limit)
	}
	m.reset()
}

func (m *fileModel) submit(l []rune) {
	n := len(m.entries)
	if m.limit >= 0 && len(l) > 0 && (n == 0 || !same(m.entries[n-1], l)) {
		m.lines[m.path] = append(m.lines[m.path], cp(l))
	}
	m.record(l)
}

func (m *fileModel) check(path string) {
	b, _ := vsys.Get(path)
	vrt.Assert(sameLines(entriesIn(split(b)), entriesIn(m.lines[path])), "the file holds the entries")
}

// HistFile: what is saved comes back in later instances, under any limit, from any file.
func HistFile() {
	vsys.Reset()
	vsys.SetChunk(vrt.Param("chunk", 0))
	m := &fileModel{lines: map[string][][]rune{}}
	if vrt.Choose("exists", 2) == 1 {
		l := anyLines(vrt.Param("lines", 3), vrt.Param("forms", 5))
		m.lines[histPath] = l
		vsys.Put(histPath, text(l, vrt.Choose("unfinished", 2) == 0))
	}
	stale := vrt.Choose("stale", 2) == 1
	if stale { // of an earlier crash
		vsys.Put(histPath+".tmp", []byte("stale\nstale\n"))
	}
	other := vrt.Param("other", 0) == 1
	if other {
		m.lines["other"] = [][]rune{{word()}, {word()}}
		vsys.Put("other", text(m.lines["other"], true))
	}
	limits := []int{500, 2, 1, -1}
	for i := 0; i < vrt.Param("runs", 2); i++ {
		limit := limits[vrt.Choose("limit", vrt.Param("limits", 4))]
		s := openFile(limit)
		m.open(histPath, limit)
		s.walk(&m.histModel)
		m.check(histPath)
		for n := vrt.Choose("submit", vrt.Param("submit", 2)+1); n > 0; n-- {
			switch vrt.Choose("how", vrt.Param("hows", 3)) {
			case 0:
				l := []rune{word()}
				s.start()
				s.keys(l...)
				s.keys('\r')
				vrt.Assert(same([]rune(s.wait().line), l), "line")
				m.submit(l)
			case 1:
				l := []rune{' ', word(), 0x4E16, ' '}
				vrt.Assert(s.rl.SaveHistory(string(l)) == nil, "SaveHistory")
				m.submit(l)
			case 2:
				s.rl.ResetHistory()
				m.entries = nil
				m.reset()
			case 3:
				go func() {
					s.rl.ReadPassword("pw: ")
					s.res <- result{}
				}()
				s.str("secret\r")
				s.wait()
			case 4:
				s.rl.SetHistoryPath("other")
				m.open("other", limit)
				vrt.Reach("other")
			}
			m.check(histPath)
			if other {
				m.check("other")
			}
		}
		s.walk(&m.histModel)
		s.rl.Close()
		m.check(histPath)
	}
	s := openFile(500)
	m.open(histPath, 500)
	s.walk(&m.histModel)
	s.rl.Close()
	for _, n := range vsys.Names() {
		vrt.Assert(n == histPath || n == "other" || stale && n == histPath+".tmp", "no other file is left behind")
	}
	vrt.Reach("done")
}

// left compares what a crash or fault may leave of a file with entries before and the lines saved
// since: the entries within the limit, then the saved lines. Those from must on may be missing or cut
// off.
func left(got, before [][]rune, limit int, saved [][]rune, must int) bool {
	keep := newest(before, limit)
	for _, x := range [][][]rune{before, keep} {
		if len(got) < len(x) || !sameLines(got[:len(x)], x) {
			continue
		}
		rest := got[len(x):]
		ok := true
		for i, l := range saved {
			if len(rest) > 0 && same(rest[0], l) {
				rest = rest[1:]
				continue
			}
			if i < must {
				ok = false
				break
			}
			if len(rest) > 0 && len(rest[0]) < len(l) && same(rest[0], l[:len(rest[0])]) {
				rest = rest[1:]
			}
		}
		if ok && len(rest) == 0 {
			return true
		}
	}
	return false
}

func recall(s *S, saved [][]rune) {
	s.start()
	vrt.Settle()
	s.clear()
	for range saved {
		s.keys(ctrlP)
	}
	vrt.Settle()
	for i := range saved {
		vrt.Assert(s.nrecs() > i && same(s.recs[i].line, saved[len(saved)-1-i]), "the session recalls what was entered in it")
	}
	s.keys(3)
	s.wait()
}

// Crash: the history file after a crash at any moment of a session.
func Crash() {
	vsys.Reset()
	limit := []int{2, 1, 500}[vrt.Choose("limit", vrt.Param("limits", 3))]
	l := anyLines(vrt.Param("lines", 3), vrt.Param("forms", 2))
	before := entriesIn(l)
	vsys.Put(histPath, text(l, vrt.Choose("unfinished", 2) == 0))
	if vrt.Choose("stale", 2) == 1 {
		vsys.Put(histPath+".tmp", []byte("stale\nstale\n"))
	}
	s := openFile(limit)
	var saved [][]rune
	marks := []int{0}
	for n := vrt.Param("submit", 2); n > 0; n-- {
		e := []rune{word(), 'x', rune('0' + n)}
		s.start()
		s.keys(e...)
		s.keys('\r')
		vrt.Assert(same([]rune(s.wait().line), e), "line")
		saved = append(saved, e)
		marks = append(marks, len(vsys.Snaps))
	}
	recall(s, newest(saved, limit))
	s.rl.Close()
	end, _ := vsys.Get(histPath)
	vrt.Assert(left(entriesIn(split(end)), before, limit, saved, len(saved)), "everything is in the file in the end")
	must := 0
	for i, snap := range vsys.Snaps {
		for must < len(saved) && marks[must+1] <= i {
			must++
		}
		vrt.Assert(left(entriesIn(split(snap[histPath])), before, limit, saved, must), "a crash loses no entry")
	}
	vrt.Reach("done")
}

// FileFault: the history file and the session after any one (or every later) operation failed.
func FileFault() {
	vsys.Reset()
	limit := []int{2, 1, 500}[vrt.Choose("limit", vrt.Param("limits", 3))]
	l := anyLines(vrt.Param("lines", 3), vrt.Param("forms", 2))
	before := entriesIn(l)
	vsys.Put(histPath, text(l, vrt.Choose("unfinished", 2) == 0))
	at := 1 + vrt.Choose("at", vrt.Param("ops", 12))
	shorts := vrt.Param("short", 5)
	if shorts == 5 && limit != 1 {
		shorts = 4
	}
	short := []int{0, 1, 2, 3, 5, 4, 6, 7}[vrt.Choose("short", shorts)]
	stick := vrt.Choose("stick", 2) == 1
	vsys.SetFault(vsys.Fault{At: at, Short: short, Stick: stick})
	s := openFile(limit)
	var saved [][]rune
	var must []bool
	for n := vrt.Param("submit", 2); n > 0; n-- {
		e := []rune{word(), 'x', rune('0' + n)}
		was := vsys.Faulted()
		s.start()
		s.keys(e...)
		s.keys('\r')
		vrt.Assert(same([]rune(s.wait().line), e), "Readline works in spite of the fault")
		saved = append(saved, e)
		must = append(must, !(stick || !was) || !vsys.Faulted())
	}
	recall(s, newest(saved, limit))
	s.rl.Close()
	vrt.Assume(vsys.Faulted())
	name := vsys.Log[at-1]
	vsys.SetFault(vsys.Fault{})
	check := func(b []byte, final bool) {
		got := entriesIn(split(b))
		for _, x := range [][][]rune{before, newest(before, limit)} {
			if len(got) < len(x) || !sameLines(got[:len(x)], x) {
				continue
			}
			rest := got[len(x):]
			ok := true
			for i, e := range saved {
				if len(rest) > 0 && same(rest[0], e) {
					rest = rest[1:]
					continue
				}
				if final && must[i] && name != "open" {
					ok = false // a line saved after the fault
				}
				if len(rest) > 0 && len(rest[0]) < len(e) && same(rest[0], e[:len(rest[0])]) {
					rest = rest[1:]
				}
			}
			if ok && len(rest) == 0 {
				return
			}
		}
		vrt.Assert(false, "a fault loses no entry")
	}
	for _, snap := range vsys.Snaps {
		check(snap[histPath], false)
	}
	end, _ := vsys.Get(histPath)
	check(end, true)
	// the next session
	m := &fileModel{lines: map[string][][]rune{histPath: split(end)}}
	s = openFile(500)
	m.open(histPath, 500)
	s.walk(&m.histModel)
	s.rl.Close()
	vrt.Reach(name)
	vrt.Reach("done")
}

// HistBig: a history file larger than the buffers, compacted.
func HistBig() {
	vsys.Reset()
	var l [][]rune
	for i := 0; i < 5; i++ {
		x := []rune{word()}
		for len(x) < 1500+i {
			x = append(x, rune('a'+i))
		}
		l = append(l, x)
	}
	vsys.Put(histPath, text(l, true))
	limit := 3 + vrt.Choose("limit", 3)
	fault := vrt.Choose("fault", 14)
	if fault > 0 {
		vsys.SetFault(vsys.Fault{At: fault, Short: 700})
	}
	s := openFile(limit)
	s.start()
	s.keys('x', '\r')
	s.wait()
	s.rl.Close()
	var prev []byte
	for _, snap := range vsys.Snaps {
		b := snap[histPath]
		if len(b) == len(prev) && (len(b) == 0 || &b[0] == &prev[0]) {
			continue // unchanged
		}
		prev = b
		vrt.Assert(left(entriesIn(split(b)), l, limit, [][]rune{{'x'}}, 0), "a crash or fault loses no entry")
	}
	end, _ := vsys.Get(histPath)
	must := 1
	if fault > 0 {
		must = 0
	}
	vrt.Assert(left(entriesIn(split(end)), l, limit, [][]rune{{'x'}}, must), "all entries are in the file in the end")
	vrt.Reach("done")
}

// HistTwo: two sessions on one file keep each other's entries.
func HistTwo() {
	vsys.Reset()
	l := anyLines(1, 1)
	vsys.Put(histPath, text(l, true))
	var s [2]*S
	s[0] = openFile(500)
	s[1] = openFile(500)
	for _, x := range s {
		x.start()
		x.keys(3)
		x.wait()
	}
	var last [2]rune
	if len(l) > 0 {
		last = [2]rune{l[0][0], l[0][0]}
	}
	for i := 0; i < vrt.Param("n", 3); i++ {
		k := vrt.Choose("who", 2)
		c := word()
		vrt.Assume(c != last[k])
		last[k] = c
		s[k].rl.SaveHistory(string(c))
		l = append(l, []rune{c})
	}
	s[0].rl.Close()
	s[1].rl.Close()
	b, _ := vsys.Get(histPath)
	vrt.Assert(sameLines(split(b), l), "the file holds the entries of both")
	vrt.Reach("done")
}

func init() {
	Funcs["HistBig"] = HistBig
	Funcs["HistTwo"] = HistTwo
	Funcs["HistFile"] = HistFile
	Funcs["Crash"] = Crash
	Funcs["FileFault"] = FileFault
}
