package sess

import (
	"github.com/chzyer/readline"

	"verif/harness/spec"
	"verif/harness/vrt"
)

// Funcs lists the harness functions.
var Funcs = map[string]func(){
	"EditKey": EditKey, "Lines": Lines, "Default": Default, "Escapes": Escapes, "Results": Results, "Robust": Robust,
}

type editKey struct {
	name string
	seq  string
	key  rune
	op   int
}

// the documented editing keys and the buffer operation each stands for
var editKeys = []editKey{
	{"Ctrl-A", "\x01", 1, 0}, {"Ctrl-B", "\x02", 2, 2}, {"Ctrl-D", "\x04", 4, 7}, {"Ctrl-E", "\x05", 5, 1}, {"Ctrl-F", "\x06", 6, 3},
	{"Ctrl-H", "\x08", 8, 6}, {"Backspace", "\x7f", 127, 6}, {"Ctrl-K", "\x0b", 11, 8}, {"Ctrl-T", "\x14", 20, 11}, {"Ctrl-U", "\x15", 21, 9},
	{"Ctrl-W", "\x17", 23, 14}, {"Meta-B", "\x1bb", readline.MetaBackward, 12}, {"Meta-F", "\x1bf", readline.MetaForward, 13}, {"Meta-D", "\x1bd", readline.MetaDelete, 15},
	{"Meta-Backspace", "\x1b\x7f", readline.MetaBackspace, 14}, {"character", "", 0, 4},
}

// EditKey: one editing key in an arbitrary state of the line.
func EditKey() {
	s := open(nil)
	n := vrt.Choose("n", vrt.Param("n", 3)+1)
	l, i := symLine(n), vrt.Choose("idx", n+1)
	k := editKeys[vrt.Choose("key", len(editKeys))]
	if k.key == 4 && n == 0 {
		vrt.Cut("end of file")
	}
	s.start()
	s.inject(l, i)
	x := rune(0)
	if k.seq == "" {
		x = printable("x")
		s.keys(x)
		k.key = x
	} else {
		s.str(k.seq)
	}
	y := ascii("y")
	s.keys(y, '\r')
	r := s.wait()
	nl, ni, _, _ := spec.Apply(k.op, l, i, x, false, false)
	a := s.last(2)
	vrt.Observe(k.name, a.line, a.pos, a.key, r.line)
	vrt.Assert(a.key == k.key, k.name+": key reported")
	vrt.Assert(same(a.line, nl), k.name+": text")
	vrt.Assert(a.pos == ni, k.name+": cursor")
	vrt.Assert(r.err == nil, k.name+": error")
	vrt.Assert(same([]rune(r.line), cat(nl[:ni], []rune{y}, nl[ni:])), k.name+": line returned")
	vrt.Reach(k.name)
}
