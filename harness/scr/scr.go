// Package scr is a terminal: a screen of fixed width and unlimited height that wraps long lines.
package scr

import "verif/harness/vrt"

type cell struct {
	r    rune // 0 blank, -1 right half of a wide character
	mark rune // a combining mark
	attr uint64
}

// Term is a terminal. A character in the last column leaves the cursor there until the next one wraps.
type Term struct {
	W    int
	Rows [][]cell
	R, C int
	Pend bool
	Bad  string // the first sequence that is not understood
	Attr uint64 // the attributes set, 0 if none
	// Title is the window's title.
	Title []rune

	esc  int // 0 text, 1 after ESC, 2 in CSI, 3 in OSC (up to BEL)
	par  []rune
	utf  []byte
	need int
}

func New(w int) *Term { return &Term{W: w} }

func (t *Term) Clone() *Term {
	n := *t
	n.Rows = nil
	for _, r := range t.Rows {
		n.Rows = append(n.Rows, append([]cell{}, r...))
	}
	return &n
}

// Resize makes the terminal wider or narrower; nothing shown may need to move, else it returns false.
func (t *Term) Resize(w int) bool {
	if t.Pend || t.C >= w {
		return false
	}
	for i, r := range t.Rows {
		for j := w; j < len(r); j++ {
			if r[j].r != 0 {
				return false
			}
		}
		n := make([]cell, w)
		copy(n, r)
		t.Rows[i] = n
	}
	t.W = w
	return true
}

func width(r rune) int {
	switch {
	case r < 0x80:
		return 1
	case r >= 0x300 && r <= 0x36F:
		return 0
	case r >= 0x4E00 && r <= 0x9FFF:
		return 2
	}
	return 1
}

func (t *Term) row(i int) []cell {
	for len(t.Rows) <= i {
		t.Rows = append(t.Rows, make([]cell, t.W))
	}
	return t.Rows[i]
}

// Write takes bytes; characters may be split between calls.
func (t *Term) Write(b []byte) {
	for _, c := range b {
		switch {
		case t.need > 0:
			t.utf = append(t.utf, c)
			t.need--
			if t.need == 0 {
				t.Rune([]rune(string(t.utf))[0])
				t.utf = nil
			}
		case c < 0x80:
			t.Rune(rune(c))
		case c >= 0xF0:
			t.utf, t.need = []byte{c}, 3
		case c >= 0xE0:
			t.utf, t.need = []byte{c}, 2
		default:
			t.utf, t.need = []byte{c}, 1
		}
	}
}

// Rune takes one character.
func (t *Term) Rune(r rune) {
	switch t.esc {
	case 1:
		t.esc = 0
		switch r {
		case '[':
			t.esc, t.par = 2, nil
		case ']':
			t.esc, t.par = 3, nil
		default:
			t.bad("ESC " + string(r))
		}
		return
	case 2:
		if r >= '0' && r <= '9' || r == ';' {
			t.par = append(t.par, r)
			return
		}
		t.esc = 0
		t.csi(r)
		return
	case 3:
		if r != 7 {
			t.par = append(t.par, r)
			return
		}
		t.esc = 0
		if len(t.par) >= 2 && t.par[0] >= '0' && t.par[0] <= '2' && t.par[1] == ';' {
			if t.par[0] != '1' {
				t.Title = t.par[2:]
			}
		} else {
			t.bad("OSC")
		}
		return
	}
	if r >= ' ' && r != 127 {
		t.put(r)
		return
	}
	switch r {
	case 27:
		t.esc = 1
	case '\r':
		t.C, t.Pend = 0, false
	case '\n':
		t.R, t.C, t.Pend = t.R+1, 0, false
	case '\b':
		if t.C > 0 {
			t.C--
		}
		t.Pend = false
	case 7, 0:
	default:
		t.bad("control character")
	}
}

func (t *Term) bad(s string) {
	if t.Bad == "" {
		t.Bad = s
	}
}

func (t *Term) put(r rune) {
	w := width(r)
	if w == 0 {
		if t.C > 0 || t.Pend {
			c := t.C - 1
			if t.Pend {
				c = t.C
			}
			row := t.row(t.R)
			if row[c].r == -1 {
				c--
			}
			row[c].mark = r
		}
		return
	}
	if t.Pend || t.C+w > t.W {
		t.R, t.C, t.Pend = t.R+1, 0, false
	}
	row := t.row(t.R)
	row[t.C] = cell{r, 0, t.Attr}
	if w == 2 {
		row[t.C+1] = cell{-1, 0, t.Attr}
	}
	t.C += w
	if t.C == t.W {
		t.C, t.Pend = t.W-1, true
	}
}

func (t *Term) csi(f rune) {
	var n []int
	cur, any := 0, false
	for _, r := range t.par {
		if r == ';' {
			n = append(n, cur)
			cur = 0
		} else {
			cur = cur*10 + int(r-'0')
		}
		any = true
	}
	if any {
		n = append(n, cur)
	}
	arg := func(def int) int {
		if len(n) > 0 && n[0] != 0 {
			return n[0]
		}
		return def
	}
	if f == 'm' {
		if len(n) == 0 {
			t.Attr = 0
		}
		for _, v := range n {
			if v == 0 {
				t.Attr = 0
			} else {
				t.Attr |= 1 << uint(v&63)
			}
		}
		return
	}
	t.Pend = false
	switch f {
	case 'A':
		t.R -= arg(1)
		if t.R < 0 {
			t.R = 0
			t.bad("cursor moved above the screen")
		}
	case 'B':
		t.R += arg(1)
	case 'C':
		t.C += arg(1)
		if t.C >= t.W {
			t.C = t.W - 1
		}
	case 'D':
		t.C -= arg(1)
		if t.C < 0 {
			t.C = 0
		}
	case 'H':
		t.R, t.C = 0, 0
	case 'J':
		switch arg(0) {
		case 0:
			t.blank(t.R, t.C, t.W)
			for i := t.R + 1; i < len(t.Rows); i++ {
				t.blank(i, 0, t.W)
			}
		case 2:
			for i := range t.Rows {
				t.blank(i, 0, t.W)
			}
		}
	case 'K':
		switch arg(0) {
		case 0:
			t.blank(t.R, t.C, t.W)
		case 2:
			t.blank(t.R, 0, t.W)
		}
	default:
		t.bad("CSI " + string(f))
	}
}

func (t *Term) blank(r, from, to int) {
	row := t.row(r)
	for i := from; i < to; i++ {
		row[i] = cell{}
	}
}

// At is where the next character r would stand (0: anything one column wide).
func (t *Term) At(r rune) (int, int) {
	if t.Pend || t.C+width(r) > t.W {
		return t.R + 1, 0
	}
	return t.R, t.C
}

// Same says whether the rows of both terminals from a row on, up to but excluding row to (to < 0: all), look alike.
func (t *Term) Same(o *Term, from, to int) bool { return t.same(o, from, to, true) }

// Text is Same for the text alone, whatever its attributes.
func (t *Term) Text(o *Term, from, to int) bool { return t.same(o, from, to, false) }

func (t *Term) same(o *Term, from, to int, attr bool) bool {
	n := len(t.Rows)
	if len(o.Rows) > n {
		n = len(o.Rows)
	}
	if to >= 0 && to < n {
		n = to
	}
	ok := true
	for i := from; i < n; i++ {
		a, b := t.row(i), o.row(i)
		for j := 0; j < t.W; j++ {
			x, y := a[j], b[j]
			if x.r == 0 {
				x.r = ' '
			}
			if y.r == 0 {
				y.r = ' '
			}
			ok = vrt.And(ok, vrt.And(x.r == y.r, x.mark == y.mark))
			if attr && x.attr != y.attr {
				return false
			}
		}
	}
	return ok
}

// String shows the screen for messages.
func (t *Term) String() string {
	s := ""
	for i, r := range t.Rows {
		for j, c := range r {
			if i == t.R && j == t.C {
				s += "^"
			}
			switch c.r {
			case 0:
				s += "."
			case -1:
			default:
				s += string(c.r)
			}
		}
		s += "|"
	}
	return s
}

// Find is the position after the first place, at or after position from (row by row), where text stands; -1 if none.
// A wide character that does not fit in a row may stand in the next one.
func (t *Term) Find(text []rune, from int) int {
	n := len(t.Rows) * t.W
	at := func(i int) cell { return t.Rows[i/t.W][i%t.W] }
	for p := from; p < n; p++ {
		q, ok := p, true
		for _, r := range text {
			if width(r) == 0 {
				continue
			}
			if q < n && width(r) == 2 && q%t.W == t.W-1 && at(q).r == 0 {
				q++
			}
			if q >= n || at(q).r != r {
				ok = false
				break
			}
			q += width(r)
		}
		if ok {
			return q
		}
	}
	return -1
}

// Marked is the text that stands out, from a row on, up to but excluding row to (to < 0: all).
func (t *Term) Marked(from, to int, attr uint64) []rune {
	var m []rune
	for i := from; i < len(t.Rows) && (to < 0 || i < to); i++ {
		for _, c := range t.Rows[i] {
			if c.attr == attr && c.r != -1 {
				m = append(m, c.r)
			}
		}
	}
	return m
}
