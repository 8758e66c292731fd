// Package rn checks the rune helpers (both copies), display width, colour filtering and row counting.
package rn

import (
	"unicode"

	"github.com/chzyer/readline"
	old "github.com/chzyer/readline/runes"

	"verif/harness/vrt"
)

// Funcs lists the harness functions.
var Funcs = map[string]func(){
	"Search": Search, "SearchFold": SearchFold, "Equality": Equality, "EqRune": EqRune, "Aggregate": Aggregate, "Small": Small,
	"Width": Width, "Widths": Widths, "Color": Color, "Rows": Rows, "LineCount": LineCount, "WordBreak": WordBreak,
}

var rs = readline.Runes{}

func sym(name string, n int) []rune {
	l := make([]rune, n)
	for i := range l {
		l[i] = vrt.Rune(name, 0, 0x10FFFF)
	}
	return l
}

func cp(r []rune) []rune { return append([]rune{}, r...) }

func same(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vrt.And(ok, a[i] == b[i])
	}
	return ok
}

func lower(r rune) rune { return vrt.IteRune(vrt.And(r >= 'A', r <= 'Z'), r+32, r) }

func eq(a, b rune, fold bool) bool {
	if !fold {
		return a == b
	}
	return vrt.Or(a == b, lower(a) == lower(b))
}

// at reports (as one condition) whether sub occurs in r at i.
func at(r, sub []rune, i int, fold bool) bool {
	ok := true
	for j := range sub {
		ok = vrt.And(ok, eq(r[i+j], sub[j], fold))
	}
	return ok
}

// occurrence conditions: got is the first (last) occurrence of sub in r, or -1.
func checkIndex(got int, r, sub []rune, fold, last bool, what string) {
	n := len(r) - len(sub)
	if got == -1 {
		none := true
		for i := 0; i <= n; i++ {
			none = vrt.And(none, vrt.Or(false, !at(r, sub, i, fold)))
		}
		vrt.Assert(none, what+": -1 only if there is no occurrence")
		vrt.Reach("none")
		return
	}
	vrt.Assert(got >= 0 && got <= n, what+": index in range")
	vrt.Assert(at(r, sub, got, fold), what+": an occurrence")
	ok := true
	if last {
		for i := got + 1; i <= n; i++ {
			ok = vrt.And(ok, !at(r, sub, i, fold))
		}
	} else {
		for i := 0; i < got; i++ {
			ok = vrt.And(ok, !at(r, sub, i, fold))
		}
	}
	vrt.Assert(ok, what+": the nearest occurrence")
	vrt.Reach("found")
}

func searchIn() (r, sub []rune) {
	n := vrt.Choose("n", vrt.Param("n", 5)+1)
	m := vrt.Choose("m", vrt.Param("m", 3)+1)
	if n == 0 && m == 0 {
		vrt.Cut("the empty pattern in the empty text is left open")
	}
	return sym("r", n), sym("s", m)
}

// Search: exact search, both copies.
func Search() {
	r, sub := searchIn()
	r0, s0 := cp(r), cp(sub)
	switch vrt.Choose("f", 6) {
	case 0:
		checkIndex(rs.IndexAll(r, sub), r, sub, false, false, "IndexAll")
	case 1:
		checkIndex(rs.IndexAllBck(r, sub), r, sub, false, true, "IndexAllBck")
	case 2:
		checkIndex(rs.IndexAllEx(r, sub, false), r, sub, false, false, "IndexAllEx")
	case 3:
		checkIndex(rs.IndexAllBckEx(r, sub, false), r, sub, false, true, "IndexAllBckEx")
	case 4:
		checkIndex(old.IndexAll(r, sub), r, sub, false, false, "runes.IndexAll")
	case 5:
		checkIndex(old.IndexAllBck(r, sub), r, sub, false, true, "runes.IndexAllBck")
	}
	vrt.Assert(same(r, r0) && same(sub, s0), "inputs unchanged")
}

// SearchFold: case folding search.
func SearchFold() {
	r, sub := searchIn()
	if vrt.Choose("f", 2) == 0 {
		checkIndex(rs.IndexAllEx(r, sub, true), r, sub, true, false, "IndexAllEx fold")
	} else {
		checkIndex(rs.IndexAllBckEx(r, sub, true), r, sub, true, true, "IndexAllBckEx fold")
	}
}

// EqRune: rune comparison over all pairs of int32 values.
func EqRune() {
	a, b := vrt.Rune("a", -0x80000000, 0x7FFFFFFF), vrt.Rune("b", -0x80000000, 0x7FFFFFFF)
	vrt.Assert(rs.EqualRune(a, b, false) == (a == b), "EqualRune")
	vrt.Assert(rs.EqualRune(a, b, true) == eq(a, b, true), "EqualRune fold")
	vrt.Assert(rs.EqualRuneFold(a, b) == eq(a, b, true), "EqualRuneFold")
	vrt.Reach("done")
}

// Equality: slice equality and prefix tests, both copies.
func Equality() {
	n, m := vrt.Choose("n", vrt.Param("n", 4)+1), vrt.Choose("m", vrt.Param("n", 4)+1)
	a, b := sym("a", n), sym("b", m)
	pre := m <= n
	preF := m <= n
	if pre {
		pre, preF = at(a, b, 0, false), at(a, b, 0, true)
	}
	f := vrt.Choose("f", 6)
	var got, want bool
	switch f {
	case 0:
		got, want = rs.Equal(a, b), vrt.And(n == m, pre)
	case 1:
		got, want = rs.EqualFold(a, b), vrt.And(n == m, preF)
	case 2:
		got, want = rs.HasPrefix(a, b), pre
	case 3:
		got, want = rs.HasPrefixFold(a, b), preF
	case 4:
		got, want = old.Equal(a, b), vrt.And(n == m, pre)
	case 5:
		got, want = old.HasPrefix(a, b), pre
	}
	vrt.Assert(got == want, []string{"Equal", "EqualFold", "HasPrefix", "HasPrefixFold", "runes.Equal", "runes.HasPrefix"}[f])
	vrt.Observe("eq", f, got)
	if got {
		vrt.Reach("true")
	} else {
		vrt.Reach("false")
	}
}

// Aggregate: the longest common prefix and every candidate's remainder.
func Aggregate() {
	k := 1 + vrt.Choose("k", vrt.Param("k", 3))
	var in, back, keep [][]rune
	for i := 0; i < k; i++ {
		c := sym("c", vrt.Choose("len", vrt.Param("n", 3)+1))
		in, back, keep = append(in, c), append(back, c), append(keep, cp(c))
	}
	f := vrt.Choose("f", 2)
	var s []rune
	var size int
	if f == 0 {
		s, size = rs.Aggregate(in)
	} else {
		s, size = old.Aggregate(in)
	}
	vrt.Observe("agg", s, size, in)
	vrt.Assert(len(s) == size, "prefix and its length agree")
	for i := range keep {
		vrt.Assert(size <= len(keep[i]), "prefix no longer than a candidate")
		vrt.Assert(same(s, keep[i][:size]), "a common prefix")
		vrt.Assert(same(in[i], keep[i][size:]), "remainder of the candidate")
		vrt.Assert(same(back[i], keep[i]), "the candidate's own storage is not modified")
	}
	// no longer common prefix exists
	longer := true
	for i := range keep {
		if len(keep[i]) <= size {
			longer = false
			break
		}
		longer = vrt.And(longer, keep[i][size] == keep[0][size])
	}
	vrt.Assert(!longer, "the longest common prefix")
	if size > 0 {
		vrt.Reach("common")
	} else {
		vrt.Reach("nothing common")
	}
}

// Small: Index, Copy, TrimSpaceLeft, Backspace.
func Small() {
	n := vrt.Choose("n", vrt.Param("n", 4)+1)
	l := sym("c", n)
	x := vrt.Rune("x", 0, 0x10FFFF)
	checkIndex(rs.Index(x, l), l, []rune{x}, false, false, "Index")
	checkIndex(old.Index(x, l), l, []rune{x}, false, false, "runes.Index")
	for _, c := range [][]rune{rs.Copy(l), old.Copy(l)} {
		vrt.Assert(same(c, l), "Copy")
		if n > 0 {
			k := l[0]
			c[0]++
			vrt.Assert(l[0] == k, "Copy does not share storage")
		}
	}
	t := rs.TrimSpaceLeft(l)
	d := n - len(t)
	vrt.Assert(d >= 0 && same(t, l[d:]), "TrimSpaceLeft: a suffix")
	for i := 0; i < d; i++ {
		vrt.Assert(unicode.IsSpace(l[i]), "TrimSpaceLeft: only blanks go")
	}
	vrt.Assert(len(t) == 0 || !unicode.IsSpace(t[0]), "TrimSpaceLeft: all leading blanks go")
	vrt.Reach("done")
}

func isZero(r rune) bool {
	return vrt.Or(vrt.Or(unicode.Is(unicode.Mn, r), unicode.Is(unicode.Me, r)), vrt.Or(unicode.Is(unicode.Cc, r), unicode.Is(unicode.Cf, r)))
}

func isWide(r rune) bool {
	return vrt.Or(vrt.Or(unicode.Is(unicode.Han, r), unicode.Is(unicode.Hangul, r)), vrt.Or(unicode.Is(unicode.Hiragana, r), unicode.Is(unicode.Katakana, r)))
}

func width(r rune, tab bool) int {
	w := vrt.IteInt(isZero(r), 0, vrt.IteInt(isWide(r), 2, 1))
	if tab {
		w = vrt.IteInt(r == '\t', readline.TabWidth, w)
	}
	return w
}

// Width of every Unicode code point.
func Width() {
	r := vrt.Rune("r", -10, 0x10FFFF+10)
	w, o := rs.Width(r), old.Width(r)
	vrt.Assert(w == width(r, true), "Width")
	vrt.Assert(vrt.Or(r == '\t', o == width(r, false)), "runes.Width")
	vrt.Observe("w", int(r), w)
	vrt.Reach("done")
}

// Widths: the width of a text is the sum; Backspace makes as many backspaces.
func Widths() {
	n := vrt.Choose("n", vrt.Param("n", 3)+1)
	l := sym("c", n)
	want, wantOld := 0, 0
	for _, r := range l {
		want += width(r, true)
		wantOld += vrt.IteInt(r == '\t', old.Width('\t'), width(r, false))
	}
	vrt.Assert(rs.WidthAll(l) == want, "WidthAll")
	vrt.Assert(old.WidthAll(l) == wantOld, "runes.WidthAll")
	b := rs.Backspace(l)
	vrt.Assert(len(b) == want, "Backspace")
	for _, c := range b {
		vrt.Assert(c == '\b', "Backspace writes backspaces")
	}
	vrt.Reach("done")
}

// colorSpec removes ESC [ ... m; an escape that starts no colour sequence is reported separately.
func colorSpec(r []rune) (out []rune, open bool) {
	for i := 0; i < len(r); i++ {
		if r[i] == 0x1b && i+1 < len(r) && r[i+1] == '[' {
			j := i + 2
			for j < len(r) && r[j] != 'm' {
				j++
			}
			if j < len(r) {
				i = j
				continue
			}
			open = true
		}
		out = append(out, r[i])
	}
	return
}

func dropEsc(r []rune) (out []rune) {
	for _, c := range r {
		if c != 0x1b {
			out = append(out, c)
		}
	}
	return
}

// Color: exactly the colour sequences go.
func Color() {
	n := vrt.Choose("n", vrt.Param("n", 5)+1)
	l := sym("c", n)
	l0 := cp(l)
	f := vrt.Choose("f", 2)
	var got []rune
	if f == 0 {
		got = rs.ColorFilter(l)
	} else {
		got = old.ColorFilter(l)
	}
	vrt.Observe("color", got)
	want, open := colorSpec(l)
	if open { // an unterminated sequence: its ESC (which shows nothing) may go or stay
		got, want = dropEsc(got), dropEsc(want)
		vrt.Reach("open")
	}
	vrt.Assert(same(got, want), "ColorFilter")
	vrt.Assert(same(l, l0), "ColorFilter leaves its input alone")
	if len(got) < n {
		vrt.Reach("removed")
	} else {
		vrt.Reach("kept")
	}
}

// termRows is where a wrapping terminal has the cursor after a text starting in column start:
// a character that does not fit goes to the next row; a full row counts as a new one (the editor
// forces the wrap by writing a blank).
func termRows(start, w int, cells []int) (rows int) {
	col := start
	rows = 1
	for _, c := range cells {
		switch {
		case c == readline.TabWidth: // shown as blanks
			for k := 0; k < c; k++ {
				col++
				if col == w {
					rows, col = rows+1, 0
				}
			}
		default:
			if col+c > w {
				rows, col = rows+1, 0
			}
			col += c
			if col == w {
				rows, col = rows+1, 0
			}
		}
	}
	return
}

// Rows: the rows a text is split into are the rows of the terminal.
func Rows() {
	w := 2 + vrt.Choose("w", vrt.Param("w", 6))
	start := vrt.Choose("start", w)
	n := vrt.Choose("n", vrt.Param("n", 4)+1)
	l := make([]rune, n)
	cells := make([]int, n)
	for i := range l {
		switch vrt.Choose("class", 4) {
		case 0:
			l[i], cells[i] = vrt.Rune("c", 0x21, 0x7e), 1
		case 1:
			l[i], cells[i] = vrt.Rune("c", 0x4e00, 0x9fa5), 2
		case 2:
			l[i], cells[i] = vrt.Rune("c", 0x300, 0x36f), 0
		case 3:
			l[i], cells[i] = '\t', readline.TabWidth
		}
	}
	got := readline.SplitByLine(start, w, l)
	vrt.Observe("rows", len(got))
	vrt.Assert(len(got) == termRows(start, w, cells), "number of rows")
	all := ""
	for _, s := range got {
		all += s
	}
	vrt.Assert(all == string(l), "the rows joined are the text")
	vrt.Reach("done")
}

// LineCount: rows needed by a number of cells.
func LineCount() {
	w := 1 + vrt.Choose("w", vrt.Param("w", 120))
	n := vrt.Int("n", 0, 4000)
	r := readline.LineCount(w, n)
	vrt.Assert(r >= 0 && r*w >= n, "enough rows")
	vrt.Assert(vrt.Or(r == 0, (r-1)*w < n), "no row too many")
	vrt.Reach("done")
}

// WordBreak: words are made of ASCII letters and digits.
func WordBreak() {
	r := vrt.Rune("r", -0x80000000, 0x7FFFFFFF)
	w := vrt.Or(vrt.And(r >= 'a', r <= 'z'), vrt.Or(vrt.And(r >= 'A', r <= 'Z'), vrt.And(r >= '0', r <= '9')))
	vrt.Assert(readline.IsWordBreak(r) == !w, "IsWordBreak")
	vrt.Assert(readline.IsPrintable(r) == vrt.And(r >= 32, !vrt.And(r >= 0xd800, r <= 0xdbff)), "IsPrintable")
	vrt.Reach("done")
}
