// Package rb checks the line buffer: one operation from an arbitrary valid state.
package rb

import (
	"io"

	"github.com/chzyer/readline"

	"verif/harness/spec"
	"verif/harness/vrt"
)

// Funcs lists the harness functions.
var Funcs = map[string]func(){
	"EditOp": EditOp, "EditAny": EditAny, "Yank": Yank, "Backup": Backup, "Alias": Alias, "Accessors": Accessors,
}

type discard struct{}

func (discard) Write(b []byte) (int, error) { return len(b), nil }

// NewBuf makes a non-interactive line buffer (no screen output).
func NewBuf(w io.Writer) *readline.RuneBuffer {
	cfg := &readline.Config{FuncIsTerminal: func() bool { return false }}
	return readline.NewRuneBuffer(w, "> ", cfg, 80)
}

var (
	cp      = spec.Cp
	cat     = spec.Cat
	opNames = spec.Names
)

const nops = spec.N

func Same(a, b []rune) bool { return spec.Same(a, b) }

func SymLine(name string, n int) []rune { return spec.SymLine(name, n) }

// apply runs op k on the real buffer.
func apply(b *readline.RuneBuffer, k int, x rune, prev, rev bool) (ok bool) {
	ok = true
	switch k {
	case 0:
		b.MoveToLineStart()
	case 1:
		b.MoveToLineEnd()
	case 2:
		b.MoveBackward()
	case 3:
		b.MoveForward()
	case 4:
		b.WriteRune(x)
	case 5:
		b.WriteRunes([]rune{x, 'q', 'z'})
	case 6:
		b.Backspace()
	case 7:
		ok = b.Delete()
	case 8:
		b.Kill()
	case 9:
		b.KillFront()
	case 10:
		b.Erase()
	case 11:
		b.Transpose()
	case 12:
		ok = b.MoveToPrevWord()
	case 13:
		b.MoveToNextWord()
	case 14:
		b.BackEscapeWord()
	case 15:
		b.DeleteWord()
	case 16:
		b.MoveToEndWord()
	case 17:
		ok = b.MoveTo(x, prev, rev)
	case 18:
		b.Replace(x)
	case 19:
		b.WriteString(string([]rune{x, 'q', 'z'}))
	}
	return
}

func state() (b *readline.RuneBuffer, l []rune, i int) {
	n := vrt.Choose("n", vrt.Param("n", 6)+1)
	l = SymLine("c", n)
	i = vrt.Choose("idx", n+1)
	b = NewBuf(discard{})
	// a buffer with spare capacity, as after earlier edits
	spare := vrt.Choose("spare", 2)
	in := make([]rune, n, n+4*spare)
	copy(in, l)
	b.SetWithIdx(i, in)
	return
}

func check(b *readline.RuneBuffer, nl []rune, ni int, what string) {
	vrt.Assert(Same(b.Runes(), nl), what+": text")
	vrt.Assert(b.Pos() == ni, what+": cursor")
	vrt.Assert(b.Len() == len(nl), what+": length")
}

// EditOp: every operation from every state up to n runes has exactly its documented effect.
func EditOp() {
	b, l, i := state()
	k := vrt.Choose("op", nops)
	x := vrt.Rune("x", 1, 0x10FFFF)
	if k == 19 { // as a string: surrogates are not representable
		vrt.Assume(vrt.Or(x < 0xD800, x > 0xDFFF))
	}
	prev, rev := false, false
	if k == 17 {
		prev, rev = vrt.Choose("prev", 2) == 1, vrt.Choose("rev", 2) == 1
	}
	nl, ni, _, ok := spec.Apply(k, l, i, x, prev, rev)
	got := apply(b, k, x, prev, rev)
	vrt.Observe(opNames[k], b.Runes(), b.Pos(), got)
	check(b, nl, ni, opNames[k])
	vrt.Assert(got == ok, opNames[k]+": result")
	vrt.Reach(opNames[k])
}

// EditAny: any sequence of operations keeps the cursor inside the line and never panics.
func EditAny() {
	n := vrt.Choose("n", vrt.Param("n", 2)+1)
	b := NewBuf(discard{})
	b.SetWithIdx(vrt.Choose("idx", n+1), SymLine("c", n))
	for s := 0; s < vrt.Param("steps", 3); s++ {
		k := vrt.Choose("op", nops+1)
		if k == nops {
			b.Yank()
		} else {
			prev, rev := false, false
			if k == 17 {
				prev, rev = vrt.Choose("prev", 2) == 1, vrt.Choose("rev", 2) == 1
			}
			apply(b, k, vrt.Rune("x", 1, 0x10FFFF), prev, rev)
		}
		vrt.Assert(b.Pos() >= 0 && b.Pos() <= b.Len(), "cursor inside the line")
		vrt.Assert(len(b.Runes()) == b.Len(), "length")
	}
	vrt.Observe("end", b.Runes(), b.Pos())
	vrt.Reach("done")
}

var cuts = []int{7, 8, 9, 10, 14, 15}

// Yank: the text of the last cut comes back at the cursor, whatever happened in between.
func Yank() {
	b, l, i := state()
	k := cuts[vrt.Choose("cut", len(cuts))]
	nl, ni, kill, _ := spec.Apply(k, l, i, 0, false, false)
	apply(b, k, 0, false, false)
	if len(kill) == 0 {
		vrt.Cut("nothing cut")
	}
	for s := 0; s < vrt.Param("between", 2); s++ {
		// operations that are not cuts
		ops := []int{0, 2, 3, 4, 6, 11, 18}
		o := ops[vrt.Choose("op", len(ops))]
		x := vrt.Rune("x", 1, 0x10FFFF)
		nl, ni, _, _ = spec.Apply(o, nl, ni, x, false, false)
		apply(b, o, x, false, false)
	}
	b.Yank()
	want := cat(nl[:ni], kill, nl[ni:])
	vrt.Observe("yank", b.Runes(), b.Pos())
	check(b, want, ni+len(kill), "yank after "+opNames[k])
	nl, ni = want, ni+len(kill)
	// what was yanked may be edited, and yanked again
	if ops := []int{0, 2, 4, 6, 11, 18}; vrt.Param("after", 0) == 1 {
		if o := vrt.Choose("after", len(ops)+1); o < len(ops) {
			x := vrt.Rune("x", 1, 0x10FFFF)
			nl, ni, _, _ = spec.Apply(ops[o], nl, ni, x, false, false)
			apply(b, ops[o], x, false, false)
		}
	}
	b.Yank()
	want = cat(nl[:ni], kill, nl[ni:])
	check(b, want, ni+len(kill), "second yank after "+opNames[k])
	vrt.Reach(opNames[k])
}

// Backup: Restore brings back what Backup saved, any number of times.
func Backup() {
	b, l, i := state()
	b.Backup()
	for s := 0; s < vrt.Param("between", 2); s++ {
		k := vrt.Choose("op", nops)
		apply(b, k, vrt.Rune("x", 1, 0x10FFFF), false, false)
	}
	b.Restore()
	vrt.Observe("restored", b.Runes(), b.Pos())
	check(b, l, i, "restore")
	apply(b, vrt.Choose("op", nops), vrt.Rune("x", 1, 0x10FFFF), false, false)
	b.Restore()
	check(b, l, i, "second restore")
	vrt.Reach("restored")
}

// Alias: no operation writes into slices owned by the caller.
func Alias() {
	n := vrt.Choose("n", vrt.Param("n", 3)+1)
	l := SymLine("c", n)
	i := vrt.Choose("idx", n+1)
	b := NewBuf(discard{})
	in := make([]rune, n, n+3)
	copy(in, l)
	full := in[:n+3]
	b.SetWithIdx(i, in)
	x := vrt.Rune("x", 1, 0x10FFFF)
	app := make([]rune, 1, 8)
	app[0] = x
	appFull := app[:8]
	b.WriteRunes(app)
	k := vrt.Choose("op", nops)
	apply(b, k, vrt.Rune("y", 1, 0x10FFFF), false, false)
	vrt.Observe("in", in, full, appFull)
	vrt.Assert(Same(in, l), "the line given to SetWithIdx is not modified")
	vrt.Assert(full[n] == 0 && full[n+1] == 0 && full[n+2] == 0, "nothing is written behind the line given to SetWithIdx")
	ok := appFull[0] == x
	for j := 1; j < 8; j++ {
		ok = vrt.And(ok, appFull[j] == 0)
	}
	vrt.Assert(ok, "text given to WriteRunes is not modified")
	out := b.Runes()
	before := cp(out)
	for j := range out {
		out[j] = 'Z'
	}
	vrt.Assert(Same(b.Runes(), before), "Runes returns a copy")
	vrt.Reach("done")
}

// Accessors: RuneSlice, Reset, IsCursorInEnd, Len.
func Accessors() {
	b, l, i := state()
	n := len(l)
	vrt.Assert(b.IsCursorInEnd() == (i == n), "IsCursorInEnd")
	k := vrt.Choose("k", 2*n+1) - n
	if i+k >= 0 && i+k <= n {
		want := l[i:]
		if k > 0 {
			want = l[i : i+k]
		} else {
			want = l[i+k : i]
		}
		vrt.Assert(Same(b.RuneSlice(k), want), "RuneSlice")
		vrt.Reach("slice")
	}
	r := b.Reset()
	vrt.Observe("reset", r, b.Len(), b.Pos())
	vrt.Assert(Same(r, l), "Reset returns the line")
	vrt.Assert(b.Len() == 0 && b.Pos() == 0, "Reset empties the buffer")
	b.WriteRune('x')
	b.WriteRune('y')
	vrt.Assert(Same(r, l), "the line Reset returned is not modified later")
	vrt.Reach("reset")
}
