package sess

import (
	"io"

	"verif/harness/vrt"
)

// Prefill: what WriteStdin puts in comes before the keys typed later and after those already read, once.
func Prefill() {
	s := open(nil)
	if k := vrt.Choose("config", vrt.Param("configs", 3)); k > 0 {
		c := s.rl.Config.Clone()
		if k == 2 {
			c = s.fresh(c)
		}
		s.rl.SetConfig(c)
	}
	text := func(name string) []byte {
		b := make([]byte, vrt.Choose("len", vrt.Param("len", 2)+1))
		for i := range b {
			b[i] = vrt.Byte(name, 32, 126)
		}
		return b
	}
	ends := vrt.Param("ends", 1)
	rounds := vrt.Param("rounds", 2)
	for n := 0; n < rounds; n++ {
		var want []byte
		// in one or two pieces, possibly with the end of the line
		a := text("a")
		want = append(want, a...)
		_, err := s.rl.WriteStdin(a)
		vrt.Assert(err == nil, "WriteStdin succeeds")
		for i := range a { // the caller may use it again
			a[i] = '!'
		}
		if vrt.Choose("more", 2) == 1 {
			b := text("b")
			want = append(want, b...)
			s.rl.WriteStdin(b)
		}
		full := false
		if ends == 1 && vrt.Choose("whole", 2) == 1 {
			s.rl.WriteStdin([]byte("\r"))
			full = true
		}
		how := vrt.Choose("how", vrt.Param("hows", 3))
		ahead := !full && vrt.Choose("ahead", 2) == 1
		c := vrt.Byte("c", 32, 126)
		if ahead { // typed, but not read before the line is asked for
			s.feed([]byte{c})
		}
		if how == 0 {
			s.start()
		} else if how == 1 {
			go func() {
				b, err := s.rl.ReadPassword("pw: ")
				s.res <- result{string(b), err}
			}()
		} else {
			want = append([]byte("de"), want...)
			go func() {
				l, err := s.rl.ReadlineWithDefault("de")
				s.res <- result{l, err}
			}()
		}
		if !full {
			vrt.Settle()
			select {
			case <-s.res:
				vrt.Assert(false, "the line is not over")
			default:
			}
			if !ahead {
				s.feed([]byte{c})
			}
			want = append(want, c)
			s.str("\r")
		}
		r := s.wait()
		vrt.Observe("line", r.line)
		vrt.Assert(r.err == nil, "the line is returned")
		vrt.Assert(same([]rune(r.line), []rune(string(want))), "prefilled text, then what was typed")
		vrt.Settle()
		vrt.Reach([]string{"line", "password", "default"}[how])
	}
	close(s.in.ch)
	r := s.read()
	vrt.Assert(r.err == io.EOF && r.line == "", "nothing is left of the prefilled text")
	s.rl.Close()
	_, err := s.rl.WriteStdin([]byte("x"))
	_ = err
	r = s.read()
	vrt.Assert(r.err == io.EOF && r.line == "", "nothing is read after Close")
	vrt.Reach("done")
}

// PrefillOrder: text prefilled while typed-ahead input is there already.
func PrefillOrder() {
	s := open(nil)
	x := vrt.Byte("x", 32, 126)
	y := vrt.Byte("y", 32, 126)
	// two lines in one read: the second one is read already
	s.feed([]byte{x, '\r', y})
	r := s.read()
	vrt.Assert(r.err == nil && same([]rune(r.line), []rune{rune(x)}), "first line")
	vrt.Settle()
	s.rl.WriteStdin([]byte("fill"))
	vrt.Settle()
	s.start()
	vrt.Settle()
	s.str("z\r")
	r = s.wait()
	vrt.Observe("line", r.line)
	vrt.Assert(r.err == nil && same([]rune(r.line), []rune(string([]byte{y, 'f', 'i', 'l', 'l', 'z'}))), "typed ahead, prefilled, typed")
	vrt.Reach("done")
}

func init() {
	Funcs["Prefill"] = Prefill
	Funcs["PrefillOrder"] = PrefillOrder
}
