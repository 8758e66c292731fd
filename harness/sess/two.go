package sess

import (
	"github.com/chzyer/readline"

	"verif/harness/vrt"
)

// what is typed into one of two sessions
var twoKeys = []string{"", "o", "\x15", "\x19", "\x10", "\x12", "\t", "\r", "\x7f", "\x1bb", "\x14", "\x03"}

// sets of keys about one thing
var twoSets = [][]string{
	twoKeys,
	{"\x12l", "\x12d", "\x12", "\x13", "\x7f", "\x07"},
	{"\t", "\t\t", "\x06", "\x0e", "\x07", "\r"},
	{"ab\x15", "c\x17", "\x19", "e\x14", "\x10", "\r", "gh\x02\x0b", "\x0e"},
	{"\x1b", "x", "i", "w", "rb", "u"},
}

type two struct {
	s    *S
	keys []string
	res  []result
	out  []byte
}

func (t *two) open(n int) {
	t.s = open(func(s *S, c *readline.Config) {
		c.Prompt = []string{"> ", "second> "}[n]
		c.AutoComplete = &tabber{cands: [][][]rune{{[]rune("xa"), []rune("xb")}, {[]rune("yy")}}[n]}
		c.HistoryLimit = []int{500, 1}[n]
		c.VimMode = n == 1 && vrt.Param("vim", 0) == 1
		s.width = []int{80, 6}[n]
		c.FuncIsTerminal = func() bool { return true }
	})
	if n == 1 {
		t.s.rl.SaveHistory("old")
	} else if vrt.Param("set", 0) != 0 {
		t.s.rl.SaveHistory("lid")
		t.s.rl.SaveHistory("cold")
	}
	t.s.start()
	vrt.Settle()
}

func (t *two) typ(k string) {
	t.s.str(k)
	vrt.Settle()
	select {
	case r := <-t.s.res:
		t.res = append(t.res, r)
		t.s.start()
		vrt.Settle()
	default:
	}
	t.out = append(t.out, t.s.out.take()...)
}

// Two: two sessions side by side do what each would do alone.
func Two() {
	keys := twoSets[vrt.Param("set", 0)]
	var a [2]two
	a[0].open(0)
	a[1].open(1)
	for n := vrt.Param("steps", 4); n > 0; n-- {
		who := vrt.Choose("who", 2)
		k := keys[vrt.Choose("key", vrt.Param("keys", len(keys)))]
		if k == "" {
			k = string([]byte{vrt.Byte("c", 'p', 'v')})
		}
		a[who].keys = append(a[who].keys, k)
		a[who].typ(k)
	}
	for i := range a {
		a[i].keys = append(a[i].keys, "\x19", "\r", "\x10", "\r")
		for _, k := range []string{"\x19", "\r", "\x10", "\r"} {
			a[i].typ(k)
		}
	}
	for i := range a {
		var b two
		b.open(i)
		for _, k := range a[i].keys {
			b.typ(k)
		}
		vrt.Assert(len(a[i].res) == len(b.res), "the same lines as alone")
		for j := range b.res {
			vrt.Assert(same([]rune(a[i].res[j].line), []rune(b.res[j].line)) && a[i].res[j].err == b.res[j].err, "the same lines as alone")
		}
		vrt.Observe("out", a[i].out)
		vrt.Assert(len(a[i].out) == len(b.out), "the same output as alone")
		ok := true
		for j := range b.out {
			ok = vrt.And(ok, a[i].out[j] == b.out[j])
		}
		vrt.Assert(ok, "the same output as alone")
		vrt.Assert(len(a[i].s.recs) == len(b.s.recs), "the same listener calls as alone")
		for j := range b.s.recs {
			x, y := a[i].s.recs[j], b.s.recs[j]
			vrt.Assert(same(x.line, y.line) && x.pos == y.pos && x.key == y.key, "the same listener calls as alone")
		}
	}
	vrt.Reach("done")
}

func init() { Funcs["Two"] = Two }
