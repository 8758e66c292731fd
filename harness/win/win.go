// Package win checks the code for the Windows console, on the stand-in for it (variant windows).
package win

import (
	"github.com/chzyer/readline"

	"verif/harness/vrt"
	"verif/harness/vwin"
)

// Funcs lists the harness functions.
var Funcs = map[string]func(){"Any": Any, "Text": Text, "Keys": Keys}

// target is the console text is written to; it shares the order of things with the console's calls.
type target struct{}

func (target) Write(b []byte) (int, error) {
	cs := vwin.C.Calls
	if n := len(cs); n > 0 && cs[n-1].Name == "text" {
		cs[n-1].Text += string(b)
	} else {
		vwin.C.Calls = append(cs, vwin.Call{Name: "text", Text: string(b)})
	}
	return len(b), nil
}

func console() {
	vwin.C = &vwin.Console{W: 80, H: 25, X: 10, Y: 5}
}

// Any: no bytes at all make the writer fail, however they are split.
func Any() {
	console()
	vwin.C.Fail = vrt.Choose("fail", 2) == 1
	n := vrt.Choose("n", vrt.Param("n", 4)+1)
	esc := vrt.Choose("esc", 2)
	var b []byte
	if esc == 1 {
		b = []byte("\x1b[")
	}
	for i := 0; i < n; i++ {
		b = append(b, vrt.Byte("b", 0, 255))
	}
	w := readline.NewANSIWriter(target{})
	at := vrt.Choose("at", len(b)+1)
	for _, p := range [][]byte{b[:at], b[at:]} {
		k, err := w.Write(p)
		vrt.Assert(k == len(p) && err == nil, "the whole length is reported")
	}
	vrt.Reach("done")
}

var fg = []uint32{0, 4, 2, 6, 1, 5, 3, 7}

// text is what a piece of text is expected as.
func text(want []vwin.Call, s string) []vwin.Call {
	if n := len(want); n > 0 && want[n-1].Name == "text" {
		want[n-1].Text += s
		return want
	}
	return append(want, vwin.Call{Name: "text", Text: s})
}

// code is a colour code, with what it stands for.
func code(name string) (string, uint32) {
	d := vrt.Choose(name, 16)
	s := string(rune('0' + d%8))
	if d < 8 {
		return "3" + s, 8 | fg[d]
	}
	return "4" + s, 0x80 | fg[d-8]<<4
}

// Text: text arrives unaltered and in order, and the known sequences become calls, each at its place.
func Text() {
	c := &vwin.Console{W: 80, H: 25, X: 7, Y: 20}
	if vrt.Param("sizes", 0) == 1 {
		c.W = []int16{1, 80, 120, 255, 32767}[vrt.Choose("w", 5)]
		c.H = int16(vrt.Int("h", 1, 32767))
	}
	c.X, c.Y = int16(vrt.Int("x", 0, 32766)), int16(vrt.Int("y", 0, 32766))
	vrt.Assume(vrt.And(c.X < c.W, c.Y < c.H))
	vwin.C = c
	x, y := c.X, c.Y
	var parts []string
	var want []vwin.Call
	k := 1 + vrt.Choose("items", vrt.Param("items", 3))
	esc := false
	for i := 0; i < k; i++ {
		s := ""
		what := 6
		if vrt.Param("sizes", 0) == 0 {
			what = vrt.Choose("item", 9)
		} else if vrt.Choose("erase", 2) == 1 {
			what = 7
		}
		switch what {
		case 0: // a character
			r := vrt.Rune("r", 1, 0x10FFFF)
			vrt.Assume(vrt.And(r != 27, vrt.Or(r < 0xD800, r > 0xDFFF)))
			if esc {
				vrt.Assume(vrt.And(r != '[', r != ']'))
			}
			s = string(r)
			want = text(want, s)
			esc = false
			vrt.Reach("text")
		case 1: // an escape character which starts nothing
			s = "\x1b"
			esc = true
			parts = append(parts, s)
			continue
		case 2: // the cursor moves
			n := vrt.Choose("count", 4)
			d := 1
			s = "\x1b["
			if n > 0 {
				for j := 0; j < n; j++ {
					g := vrt.Int("digit", 0, 9)
					if j == 0 {
						d = 0
					}
					d = d*10 + g
					s += string([]byte{byte('0' + g)})
				}
			}
			dir := vrt.Choose("dir", 4)
			s += string(rune('A' + dir))
			switch dir {
			case 0:
				y -= int16(d)
			case 1:
				y += int16(d)
			case 2:
				x += int16(d)
			case 3:
				x -= int16(d)
			}
			vrt.Assume(vrt.And(vrt.And(x >= 0, x < c.W), vrt.And(y >= 0, y < c.H)))
			want = append(want, vwin.Call{Name: "cursor", X: x, Y: y})
			vrt.Reach("cursor")
		case 3: // one or two colours
			t, a := code("color")
			s = "\x1b[" + t
			if vrt.Choose("two", 2) == 1 {
				u, b := code("color2")
				vrt.Assume((a < 16) != (b < 16))
				s, a = s+";"+u, a|b
			}
			s += "m"
			want = append(want, vwin.Call{Name: "attr", A: a})
			vrt.Reach("color")
		case 4: // reset
			s = []string{"\x1b[0m", "\x1b[m"}[vrt.Choose("reset", 2)]
			want = append(want, vwin.Call{Name: "attr", A: 7})
			vrt.Reach("reset")
		case 5: // bold, underline
			if vrt.Choose("attr", 2) == 0 {
				s, want = "\x1b[1m", append(want, vwin.Call{Name: "attr", A: 15})
			} else {
				s, want = "\x1b[4m", append(want, vwin.Call{Name: "attr", A: 0x8007})
			}
			vrt.Reach("attr")
		case 6: // to the end of the screen
			s = []string{"\x1b[J", "\x1b[0J"}[vrt.Choose("zero", 2)]
			want = append(want, vwin.Call{Name: "end", X: x, Y: y})
			vrt.Reach("end")
		case 7: // the row
			s = "\x1b[2K"
			want = append(want, vwin.Call{Name: "fill", A: ' ', B: uint32(c.W), Y: y})
			vrt.Reach("row")
		case 8: // the title
			r := vrt.Rune("title", 1, 0x10FFFF)
			vrt.Assume(vrt.And(vrt.And(r != 7, r != 27), vrt.Or(r < 0xD800, r > 0xDFFF)))
			s = "\x1b]2;" + string(r) + "\x07"
			vrt.Reach("title")
		}
		esc = false
		parts = append(parts, s)
	}
	if esc {
		vrt.Reach("escape")
	}
	w := readline.NewANSIWriter(target{})
	all := ""
	if vrt.Choose("writes", 2) == 0 {
		for _, p := range parts {
			all += p
		}
		parts = []string{all}
	}
	for _, p := range parts {
		k, err := w.Write([]byte(p))
		vrt.Assert(k == len(p) && err == nil, "the whole length is reported")
	}
	j := 0
	got := c.Calls
	for _, e := range want {
		if e.Name == "end" {
			// what is from the cursor to the end of the buffer; the console ends a longer fill there
			need := uint32(int(c.H-e.Y)*int(c.W) - int(e.X))
			vrt.Assert(j+1 < len(got) && got[j].Name == "fillattr" && got[j+1].Name == "fill", "erasing to the end erases both text and colour")
			for _, g := range got[j : j+2] {
				vrt.Assert(g.X == e.X && g.Y == e.Y && g.B >= need, "erasing to the end starts at the cursor and reaches the end")
			}
			vrt.Assert(got[j].A == 7 && got[j+1].A == ' ', "erasing leaves blanks in the standard colour")
			j += 2
			continue
		}
		vrt.Assert(j < len(got) && got[j].Name == e.Name, "text and calls reach the console in the order written")
		g := got[j]
		switch e.Name {
		case "text":
			vrt.Assert(g.Text == e.Text, "text reaches the console unaltered")
		case "cursor":
			vrt.Assert(g.X == e.X && g.Y == e.Y, "the cursor moves as the sequence says")
		case "attr":
			vrt.Assert(g.A == e.A, "colours and attributes are those of the sequence")
		default:
			vrt.Assert(g.A == e.A && g.B == e.B && g.X == e.X && g.Y == e.Y, "erasing the row erases just it")
		}
		j++
	}
	vrt.Assert(j == len(got), "nothing else reaches the console")
	vrt.Reach("done")
}

// Keys: what is typed arrives as the bytes a terminal would send.
func Keys() {
	console()
	var want []byte
	add := func(b ...byte) { want = append(want, b...) }
	key := func(k vwin.Key) { vwin.C.Keys = append(vwin.C.Keys, k) }
	n := 1 + vrt.Choose("n", vrt.Param("keys", 2))
	for i := 0; i < n; i++ {
		// things to ignore come in between
		switch vrt.Choose("noise", 4) {
		case 1: // not a key
			t := vrt.Int("type", 0, 65535)
			vrt.Assume(t != 1)
			key(vwin.Key{Type: uint16(t), Down: true, Code: 65, Char: uint16(vrt.Int("nochar", 0, 65535))})
		case 2: // a key released
			key(vwin.Key{Type: 1, Code: uint16(vrt.Int("upcode", 0x20, 0x9F)), Char: uint16(vrt.Int("upchar", 0, 65535))})
		case 3: // a key without a character
			c := vrt.Int("mute", 0x60, 0x9F)
			key(vwin.Key{Type: 1, Down: true, Code: uint16(c)})
		}
		switch vrt.Choose("kind", 4) {
		case 0: // a character
			r := vrt.Rune("r", 1, 0xFFFF)
			vrt.Assume(vrt.Or(r < 0xD800, r > 0xDFFF))
			key(vwin.Key{Type: 1, Down: true, Code: 65, Char: uint16(r)})
			add([]byte(string(r))...)
			vrt.Reach("character")
		case 1: // an arrow
			a := vrt.Choose("arrow", 4)
			key(vwin.Key{Type: 1, Down: true, Code: uint16(0x25 + a)})
			add([]byte{2, 16, 6, 14}[a])
			vrt.Reach("arrow")
		case 2: // Alt and a character
			key(vwin.Key{Type: 1, Down: true, Code: 0x12})
			for m := 1 + vrt.Choose("held", 2); m > 0; m-- {
				r := vrt.Rune("alt", 1, 0xFFFF)
				vrt.Assume(vrt.Or(r < 0xD800, r > 0xDFFF))
				key(vwin.Key{Type: 1, Down: true, Code: 65, Char: uint16(r)})
				key(vwin.Key{Type: 1, Code: 65, Char: uint16(r)})
				add(27)
				add([]byte(string(vrt.IteRune(r == 8, 127, r)))...)
			}
			key(vwin.Key{Type: 1, Code: 0x12})
			vrt.Reach("alt")
		case 3: // Ctrl and a letter
			code := uint16(0xA2 + vrt.Choose("side", 2))
			key(vwin.Key{Type: 1, Down: true, Code: code})
			for m := 1 + vrt.Choose("held", 2); m > 0; m-- {
				j := vrt.Choose("ctrl", 4)
				key(vwin.Key{Type: 1, Down: true, Code: 65, Char: uint16("AERS"[j])})
				key(vwin.Key{Type: 1, Code: 65, Char: uint16("AERS"[j])})
				add([]byte{1, 5, 18, 19}[j])
			}
			key(vwin.Key{Type: 1, Code: code})
			vrt.Reach("ctrl")
		}
	}
	r := readline.NewRawReader()
	var got []byte
	for {
		b := make([]byte, 16)
		k, err := r.Read(b)
		if err != nil {
			break
		}
		vrt.Assert(k > 0, "a read returns something")
		got = append(got, b[:k]...)
	}
	vrt.Assert(string(got) == string(want), "each key arrives as a terminal would send it")
	vrt.Reach("done")
}
