// Package comp checks the prefix and the segment completer.
package comp

import (
	"bytes"
	"unicode"

	"github.com/chzyer/readline"

	"verif/harness/vrt"
)

// Funcs lists the harness functions.
var Funcs = map[string]func(){"Prefix": Prefix, "PrefixDeep": PrefixDeep, "Segment": Segment, "Split": Split, "Tree": Tree}

func cp(r []rune) []rune { return append([]rune{}, r...) }

func same(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vrt.And(ok, a[i] == b[i])
	}
	return ok
}

func hasPrefix(l, p []rune) bool { return len(l) >= len(p) && same(l[:len(p)], p) }

// node mirrors the tree for the reference.
type node struct {
	names [][]rune // without the trailing blank
	kids  []*node
}

func name(n int) []rune {
	r := make([]rune, n)
	for i := range r {
		r[i] = vrt.Rune("name", 0x21, 0x10FFFF)
		vrt.Assume(!unicode.IsSpace(r[i]))
	}
	return r
}

// what a dynamic completer was asked with
var (
	lastLine string
	asked    bool
)

// build makes a tree of the given shape with arbitrary names; siblings have distinct names.
func build(depth, width, nameLen int, dyn bool) ([]readline.PrefixCompleterInterface, []*node) {
	if depth == 0 {
		return nil, nil
	}
	k := vrt.Choose("kids", width+1)
	var ps []readline.PrefixCompleterInterface
	var ns []*node
	var all [][]rune
	for i := 0; i < k; i++ {
		w := width
		if depth > 1 && i > 0 {
			w = 1
		}
		cps, cns := build(depth-1, w, nameLen, vrt.Param("deepdyn", 0) == 1)
		nd := &node{kids: cns}
		if dyn && vrt.Choose("dynamic", 2) == 1 {
			c := vrt.Choose("names", 3)
			var ss []string
			for j := 0; j < c; j++ {
				b := []byte{vrt.Byte("dyn", 'a', 'z')}
				if vrt.Choose("dynlen", 2) == 1 {
					b = append(b, vrt.Byte("dyn", 'a', 'z'))
				}
				ss = append(ss, string(b))
				nd.names = append(nd.names, []rune(string(b)))
			}
			ps = append(ps, readline.PcItemDynamic(func(l string) []string { lastLine = l; asked = true; return ss }, cps...))
		} else {
			n := name(1 + vrt.Choose("len", nameLen))
			nd.names = [][]rune{n}
			switch vrt.Choose("made", vrt.Param("made", 1)) {
			case 0:
				ps = append(ps, &readline.PrefixCompleter{Name: append(cp(n), ' '), Children: cps})
			case 1:
				for _, c := range n {
					vrt.Assume(c < 128)
				}
				b := make([]byte, len(n))
				for i, c := range n {
					b[i] = byte(c)
				}
				p := readline.PcItem(string(b))
				p.SetChildren(cps)
				ps = append(ps, p)
			case 2:
				ps = append(ps, &own{append(cp(n), ' '), cps})
			}
		}
		ns = append(ns, nd)
		all = append(all, nd.names...)
	}
	for i := range all {
		for j := 0; j < i; j++ {
			if same(all[i], all[j]) {
				vrt.Cut("siblings with equal names are left open")
			}
		}
	}
	return ps, ns
}

// own is an application's implementation of a completer in the tree.
type own struct {
	name []rune
	kids []readline.PrefixCompleterInterface
}

func (o *own) Print(prefix string, level int, buf *bytes.Buffer) {
	readline.Print(o, prefix, level, buf)
}
func (o *own) Do(l []rune, pos int) ([][]rune, int)                 { return readline.Do(o, l, pos) }
func (o *own) GetName() []rune                                      { return o.name }
func (o *own) GetChildren() []readline.PrefixCompleterInterface     { return o.kids }
func (o *own) SetChildren(kids []readline.PrefixCompleterInterface) { o.kids = kids }

// Tree: the picture of a tree has a line for every name, indented by its depth.
func Tree() {
	var want string
	prefix := []string{"", "# "}[vrt.Choose("prefix", 2)]
	var build func(depth int) []readline.PrefixCompleterInterface
	build = func(depth int) (ps []readline.PrefixCompleterInterface) {
		if depth == vrt.Param("depth", 3) {
			return nil
		}
		for k := vrt.Choose("kids", 3); k > 0; k-- {
			if depth > 1 && k > 1 {
				continue
			}
			b := make([]byte, 1+vrt.Choose("len", 2))
			for i := range b {
				b[i] = vrt.Byte("c", 33, 126)
			}
			line := prefix
			if depth > 0 {
				line += "\u251c"
				for i := 0; i < 4*depth-2; i++ {
					line += "\u2500"
				}
				line += " "
			}
			want += line + string(b) + " \n"
			ps = append(ps, readline.PcItem(string(b), build(depth+1)...))
		}
		return ps
	}
	root := readline.NewPrefixCompleter(build(0)...)
	got := root.Tree(prefix)
	vrt.Observe("tree", got)
	vrt.Assert(same([]rune(got), []rune(want)), "the tree")
	vrt.Reach("done")
}

func trim(l []rune) []rune {
	for len(l) > 0 && unicode.IsSpace(l[0]) {
		l = l[1:]
	}
	return l
}

// complete is the reference: descend through completed words, then offer the continuations.
func complete(kids []*node, l []rune) (out [][]rune, typed []rune) {
	l = trim(l)
	for _, k := range kids {
		for _, n := range k.names {
			if hasPrefix(l, append(cp(n), ' ')) {
				return complete(k.kids, l[len(n)+1:])
			}
		}
	}
	for _, k := range kids {
		for _, n := range k.names {
			full := append(cp(n), ' ')
			if hasPrefix(full, l) {
				out = append(out, full[len(l):])
			}
		}
	}
	return out, l
}

type flat struct {
	name []rune
	dyn  bool
}

func flatten(ps []readline.PrefixCompleterInterface) (out []flat) {
	for _, p := range ps {
		d, ok := p.(*readline.PrefixCompleter)
		out = append(out, flat{cp(p.GetName()), ok && d.Dynamic})
		out = append(out, flatten(p.GetChildren())...)
	}
	return
}

func prefix(depth, width, nameLen, n int, dyn bool) {
	ps, ns := build(depth, width, nameLen, dyn)
	root := readline.NewPrefixCompleter(ps...)
	l := make([]rune, n)
	for i := range l {
		l[i] = vrt.Rune("c", 1, 0x10FFFF)
	}
	pos := vrt.Choose("pos", n+1)
	l0 := cp(l)
	tree := flatten(ps)
	asked = false
	var got [][]rune
	var off int
	if vrt.Choose("api", 2) == 0 {
		got, off = root.Do(l, pos)
	} else {
		got, off = readline.Do(root, l, pos)
	}
	vrt.Observe("do", got, off)
	want, typed := complete(ns, l0[:pos])
	vrt.Assert(len(got) == len(want), "number of candidates")
	for i := range want {
		vrt.Assert(same(got[i], want[i]), "candidate")
	}
	if len(want) > 0 {
		vrt.Assert(off == len(typed), "shared length")
		vrt.Reach("offered")
		if len(want) > 1 {
			vrt.Reach("several")
		}
		if len(typed) < len(trim(l0[:pos])) {
			vrt.Reach("second level")
		}
	} else {
		vrt.Reach("nothing")
	}
	vrt.Assert(same(l, l0), "the line is not modified")
	if asked {
		vrt.Assert(lastLine == string(l0), "a dynamic completer is given the whole line")
		vrt.Reach("dynamic")
	}
	after := flatten(ps)
	vrt.Assert(len(after) == len(tree), "the tree is not modified")
	for i := range tree {
		vrt.Assert(tree[i].dyn == after[i].dyn && same(tree[i].name, after[i].name), "the tree is not modified")
	}
}

// Prefix: flat trees, static and dynamic names.
func Prefix() {
	prefix(1, vrt.Param("width", 3), vrt.Param("name", 2), vrt.Choose("n", vrt.Param("n", 3)+1), true)
}

// PrefixDeep: trees with sub-commands.
func PrefixDeep() {
	prefix(2, vrt.Param("width", 2), vrt.Param("name", 1), vrt.Choose("n", vrt.Param("n", 4)+1), vrt.Param("dyn", 0) == 1)
}

func join(segs [][]rune) (out []rune) {
	for i, s := range segs {
		if i > 0 {
			out = append(out, ' ')
		}
		out = append(out, s...)
	}
	return
}

// Split: the segments joined with blanks are the text before the cursor.
func Split() {
	n := vrt.Choose("n", vrt.Param("n", 5)+1)
	l := make([]rune, n)
	for i := range l {
		l[i] = vrt.Rune("c", 1, 0x10FFFF)
	}
	pos := vrt.Choose("pos", n+1)
	l0 := cp(l)
	segs, idx := readline.SplitSegment(l, pos)
	vrt.Observe("split", segs, idx)
	vrt.Assert(same(join(segs), l0[:pos]), "joined segments")
	for _, s := range segs {
		for _, c := range s {
			vrt.Assert(c != ' ', "no blank inside a segment")
		}
	}
	vrt.Assert(idx == len(segs[len(segs)-1]), "length of the last segment")
	vrt.Assert(same(l, l0), "line unchanged")
	vrt.Reach("done")
	if len(segs) > 1 {
		vrt.Reach("several")
	}
}

type seg func([][]rune, int) [][]rune

func (f seg) DoSegment(s [][]rune, n int) [][]rune { return f(s, n) }

// Segment: filtering on the last segment, candidates intact.
func Segment() {
	n := vrt.Choose("n", vrt.Param("n", 3)+1)
	l := make([]rune, n, n+2)
	for i := range l {
		l[i] = vrt.Rune("c", 1, 0x10FFFF)
	}
	pos := vrt.Choose("pos", n+1)
	l0 := cp(l)
	k := vrt.Choose("k", vrt.Param("k", 2)+1)
	var cands, keep [][]rune
	for i := 0; i < k; i++ {
		m := vrt.Choose("len", vrt.Param("len", 2)+1)
		c := make([]rune, m, m+2) // spare storage the application may be using
		for j := range c {
			c[j] = vrt.Rune("cand", 1, 0x10FFFF)
		}
		full := c[:m+2]
		full[m], full[m+1] = 'X', 'Y'
		cands, keep = append(cands, c), append(keep, cp(full))
	}
	calls := 0
	var segs [][]rune
	var arg int
	f := func(s [][]rune, i int) [][]rune {
		calls++
		for _, x := range s {
			segs = append(segs, cp(x))
		}
		arg = i
		return cands
	}
	var c readline.AutoCompleter
	if vrt.Choose("api", 2) == 0 {
		c = readline.SegmentFunc(f)
	} else {
		c = readline.SegmentAutoComplete(seg(f))
	}
	got, off := c.Do(l, pos)
	vrt.Observe("do", got, off)
	vrt.Assert(calls == 1, "the application is asked once")
	vrt.Assert(same(join(segs), l0[:pos]), "segments are the text before the cursor")
	last := segs[len(segs)-1]
	vrt.Assert(arg == len(last), "segment length passed")
	vrt.Assert(off == len(last), "reported length")
	j := 0
	for i := range cands {
		if !hasPrefix(keep[i][:len(cands[i])], last) {
			continue
		}
		vrt.Assert(j < len(got), "no candidate missing")
		vrt.Assert(same(got[j], append(cp(keep[i][len(last):len(cands[i])]), ' ')), "candidate")
		j++
		vrt.Reach("offered")
	}
	vrt.Assert(j == len(got), "no candidate too many")
	for i := range cands {
		vrt.Assert(same(cands[i][:len(cands[i])+2], keep[i]), "candidates not modified")
	}
	vrt.Assert(same(l, l0), "line unchanged")
	vrt.Assert(l[:n+2][n] == 0 && l[:n+2][n+1] == 0, "storage behind the line unchanged")
	vrt.Reach("done")
}
