package sess

import (
	"io"

	"github.com/chzyer/readline"

	"verif/harness/spec"
	"verif/harness/vrt"
)

// Listen: the listener sees the line after every key once, and what it returns replaces the line.
func Listen() {
	var recs []keyRec
	calls := 0
	replaceAt := vrt.Choose("at", vrt.Param("keys", 2)+1) // at which call the line is replaced
	m := vrt.Choose("m", vrt.Param("m", 2)+1)
	nl, np := symLine(m), vrt.Choose("np", m+1)
	scribble := vrt.Choose("scribble", 2) == 1
	s := open(func(s *S, c *readline.Config) {
		c.SetListener(func(l []rune, p int, k rune) ([]rune, int, bool) {
			recs = append(recs, keyRec{cp(l), p, k})
			if scribble { // the slice belongs to the listener
				for i := range l {
					l[i] = '!'
				}
				_ = append(l, '!')
			}
			calls++
			if calls == replaceAt+1 && calls > 1 {
				return nl, np, true
			}
			return []rune("ignored"), 3, false
		})
	})
	s.rl.SaveHistory("h")
	var line []rune
	pos := 0
	s.start()
	vrt.Settle()
	vrt.Assert(len(recs) == 1 && recs[0].line == nil || len(recs) == 1 && len(recs[0].line) == 0, "the listener is called when a read begins")
	vrt.Assert(recs[0].pos == 0 && recs[0].key == 0, "with no key")
	for j := 0; j < vrt.Param("keys", 2); j++ {
		k := editKeys[vrt.Choose("key", len(editKeys))]
		if k.key == 4 && len(line) == 0 {
			vrt.Cut("end of file")
		}
		x := rune(0)
		if k.seq == "" {
			x = printable("x")
			s.keys(x)
			k.key = x
		} else {
			s.str(k.seq)
		}
		vrt.Settle()
		line, pos, _, _ = spec.Apply(k.op, line, pos, x, false, false)
		vrt.Assert(len(recs) == j+2, "the listener is called once per key")
		r := recs[j+1]
		vrt.Assert(r.key == k.key && r.pos == pos && same(r.line, line), "the listener sees the key, the line and the cursor")
		if calls == replaceAt+1 {
			line, pos = cp(nl), np
			vrt.Reach("replaced")
		}
	}
	// browsing away and back keeps what the listener made
	s.keys(ctrlP, ctrlN)
	vrt.Settle()
	last := recs[len(recs)-1]
	if vrt.Param("keys", 2) > 0 {
		vrt.Assert(same(last.line, line), "history keeps the line the listener returned")
	}
	s.keys('\r')
	r := s.wait()
	vrt.Assert(r.err == nil && same([]rune(r.line), line), "the line returned")
	vrt.Reach("done")
}

// ListenMode: in a search and while candidates are shown, the listener goes on being called once per key.
func ListenMode() {
	var recs []keyRec
	s := open(func(s *S, c *readline.Config) {
		c.AutoComplete = &tabber{cands: [][]rune{[]rune("xa"), []rune("yb")}}
		c.SetListener(func(l []rune, p int, k rune) ([]rune, int, bool) {
			recs = append(recs, keyRec{cp(l), p, k})
			return nil, 0, false
		})
	})
	h := []rune{ascii("h"), ascii("h")}
	s.rl.SaveHistory(string(h))
	s.start()
	vrt.Settle()
	n := 1
	press := func(k string, key rune, line []rune) {
		s.str(k)
		vrt.Settle()
		n++
		vrt.Assert(len(recs) == n, "the listener is called once per key")
		r := recs[n-1]
		vrt.Assert(r.key == key, "key")
		vrt.Assert(line == nil || same(r.line, line), "line")
	}
	switch vrt.Choose("mode", 3) {
	case 0:
		press("\x12", 18, []rune{})
		press(string(h[1]), h[1], h)
		press("\x07", 7, []rune{})
		vrt.Reach("search")
	case 1:
		press("\x09", 9, []rune{})
		press("z", 'z', []rune("z"))
		vrt.Reach("complete")
	case 2:
		press("\x10", 16, h)
		press("\x0e", 14, []rune{})
		press("\x0c", 12, []rune{})
		press("\x0e", 14, []rune{})
	}
	vrt.Reach("done")
}

type filterTrace struct {
	recs []keyRec
	res  []result
	seen []rune
}

func filtered(vim bool, keys []rune, f func(rune) (rune, bool)) filterTrace {
	var t filterTrace
	s := open(func(s *S, c *readline.Config) {
		c.VimMode = vim
		c.AutoComplete = &tabber{cands: [][]rune{[]rune("xa"), []rune("xb")}}
		if f != nil {
			c.FuncFilterInputRune = func(r rune) (rune, bool) {
				t.seen = append(t.seen, r)
				return f(r)
			}
		}
	})
	s.rl.SaveHistory("ab")
	s.rl.SaveHistory("cd")
	closing := false
	go func() {
		for {
			r := s.read()
			t.res = append(t.res, r)
			if r.err == io.EOF && closing {
				break
			}
		}
		s.res <- result{}
	}()
	for _, k := range keys {
		s.keys(k)
		vrt.Settle()
	}
	closing = true
	close(s.in.ch)
	s.wait()
	t.recs = s.recs
	return t
}

var filterKeys = []rune{0, '\r', '\n', 3, 4, 8, 9, 14, 16, 18, 7, 127, 1, 11, 25, 20}

// Filter: a session with a filter goes on like one without, in which the keys are what the filter
// makes of them.
func Filter() {
	vim := vrt.Choose("vim", 2) == 1
	from := printable("from")
	if k := vrt.Choose("fromKey", vrt.Param("from", 3)); k > 0 {
		from = []rune{0, 9, '\r'}[k]
	}
	to := vrt.Choose("to", len(filterKeys)+2)
	f := func(r rune) (rune, bool) {
		if r != from {
			return r, true
		}
		switch {
		case to == len(filterKeys):
			return 'q', false
		case to == len(filterKeys)+1:
			return 0x4E16, true
		case to == 0:
			return 0, false
		}
		return filterKeys[to], true
	}
	var a, b []rune
	for _, k := range [][]rune{{'a'}, {'b'}, {2}, {from}, {'r'}, {from}, {'z'}, {from}, {'\r'}, {'w'}}[:vrt.Param("keys", 10)] {
		a = append(a, k...)
		if r, ok := f(k[0]); ok {
			b = append(b, r)
		}
	}
	if vim {
		a, b = append([]rune{'v', 27}, a...), append([]rune{'v', 27}, b...)
		vrt.Assume(from != 'v')
	}
	x := filtered(vim, a, f)
	y := filtered(vim, b, nil)
	vrt.Assert(same(x.seen, a), "the filter sees every key, in order, once")
	vrt.Assert(len(x.res) == len(y.res), "the same reads")
	for i := range x.res {
		vrt.Assert(same([]rune(x.res[i].line), []rune(y.res[i].line)) && x.res[i].err == y.res[i].err, "the same results")
	}
	vrt.Assert(len(x.recs) == len(y.recs), "the listener is called as often")
	for i := range x.recs {
		vrt.Assert(same(x.recs[i].line, y.recs[i].line) && x.recs[i].pos == y.recs[i].pos && x.recs[i].key == y.recs[i].key, "the listener sees the same")
	}
	vrt.Reach("done")
}

// Paint: a painter changes nothing but the screen, whatever it returns and does to its argument.
func Paint() {
	kind := vrt.Choose("kind", 6)
	var seen [][]rune
	var at []int
	run := func(with bool) *S {
		s := open(func(s *S, c *readline.Config) {
			c.FuncIsTerminal = func() bool { return true }
			if !with {
				return
			}
			c.SetPainter(painter(func(l []rune, p int) []rune {
				seen, at = append(seen, cp(l)), append(at, p)
				switch kind {
				case 0:
					return nil
				case 1:
					return []rune("something else")
				case 2:
					for i := range l {
						l[i] = '!'
					}
					return l
				case 3:
					return append(l, '!', '!')
				case 4:
					return cat([]rune("\x1b[31m"), l, []rune("\x1b[0m"))
				}
				if len(l) > 0 {
					return l[1:]
				}
				return l
			}))
		})
		return s
	}
	keys := make([]rune, vrt.Param("n", 3))
	for i := range keys {
		if vrt.Choose("k", 2) == 0 {
			keys[i] = ascii("x")
		} else {
			keys[i] = []rune{2, 127, 11, 25}[vrt.Choose("edit", 4)]
		}
	}
	var t [2]*S
	var res [2]result
	for i := range t {
		s := run(i == 0)
		t[i] = s
		s.start()
		vrt.Settle()
		for _, k := range keys {
			s.keys(k)
			vrt.Settle()
			if i == 0 {
				r := s.last(0)
				n := len(seen) - 1
				vrt.Assert(n >= 0 && same(seen[n], r.line) && at[n] == r.pos, "the painter sees the line and the cursor")
			}
		}
		s.keys('\r')
		res[i] = s.wait()
	}
	vrt.Assert(res[0].err == nil && same([]rune(res[0].line), []rune(res[1].line)), "the painter does not affect the line returned")
	vrt.Assert(len(t[0].recs) == len(t[1].recs), "records")
	for i := range t[0].recs {
		vrt.Assert(same(t[0].recs[i].line, t[1].recs[i].line) && t[0].recs[i].pos == t[1].recs[i].pos, "the painter does not affect the line")
	}
	vrt.Reach("done")
}

func init() {
	Funcs["Listen"] = Listen
	Funcs["ListenMode"] = ListenMode
	Funcs["Filter"] = Filter
	Funcs["Paint"] = Paint
}
