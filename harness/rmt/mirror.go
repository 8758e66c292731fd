package rmt

import (
	"errors"
	"io"
	"syscall"

	"github.com/chzyer/readline"

	"verif/harness/vrt"
	"verif/harness/vsys"
)

// keyboard is the client's input.
type keyboard struct {
	ch   chan []byte
	left []byte
	err  error
}

func (k *keyboard) Read(p []byte) (int, error) {
	if len(k.left) == 0 {
		b, ok := <-k.ch
		if !ok {
			return 0, k.err
		}
		if b == nil { // end of file for now
			return 0, io.EOF
		}
		k.left = b
	}
	n := copy(p, k.left)
	k.left = k.left[n:]
	return n, nil
}

// Mirror: the client shows what the server writes, puts its own terminal into the mode the server asks
// for and back, and sends on its input, its width and the end.
func Mirror() {
	vsys.Reset()
	t := &vsys.Term{Cols: uint16(vrt.Int("cols", 1, 65535)), Rows: 24}
	t.State.Iflag, t.State.Lflag, t.State.Oflag = vrt.Uint32("iflag"), vrt.Uint32("lflag"), vrt.Uint32("oflag")
	t.State.Cflag = vrt.Uint32("cflag")
	t.State.Cc[syscall.VMIN], t.State.Cc[syscall.VTIME] = vrt.Byte("min", 0, 255), vrt.Byte("time", 0, 255)
	vrt.Assume(t.State.Lflag&syscall.ECHO != 0)
	tty := vrt.Choose("tty", 2) == 1
	if tty {
		vsys.Fds[1] = t
	} else {
		vsys.Fds[2] = t
	}
	vsys.Fds[0] = t
	orig := t.State
	same1 := func() bool {
		s := t.State
		ok := vrt.And(vrt.And(s.Iflag == orig.Iflag, s.Lflag == orig.Lflag), vrt.And(s.Oflag == orig.Oflag, s.Cflag == orig.Cflag))
		return vrt.And(ok, s.Cc == orig.Cc)
	}
	c := &conn{newPipe(), newPipe()}
	c.in.size = []int{1 << 20, 3, 1}[vrt.Choose("size", vrt.Param("sizes", 2))]
	cli, err := readline.NewRemoteCli(c)
	vrt.Assert(err == nil, "NewRemoteCli")
	wantTty := 1
	if !tty && vrt.Choose("mark", 2) == 1 {
		cli.MarkIsTerminal(false)
		wantTty = 0
	}
	kb := &keyboard{ch: make(chan []byte, 8), err: []error{io.EOF, errors.New("read error")}[vrt.Choose("source", 2)]}
	done := make(chan error, 1)
	go func() { done <- cli.ServeBy(kb) }()
	vrt.Settle()
	var shown, typed []byte
	widths := []int{int(t.Cols)}
	raw, kbOpen := false, true
	fresh := 0 // bytes typed since the last end of file
	for k := vrt.Param("steps", 2); k > 0; k-- {
		switch vrt.Choose("step", 9) {
		case 0:
			c.in.write(encode(4, nil))
			raw = true
		case 1:
			c.in.write(encode(5, nil))
			raw = false
		case 2:
			d := bytesOf("d", vrt.Choose("len", 3))
			c.in.write(encode(0, d))
			shown = append(shown, d...)
		case 3: // several messages at once
			d := vrt.Byte("d", 0, 255)
			raw = vrt.Choose("raw", 2) == 1
			m := 5
			if raw {
				m = 4
			}
			shown = append(shown, d)
			switch vrt.Choose("order", 3) {
			case 0:
				c.in.write(append(append(encode(0, []byte{d}), encode(m, nil)...), encode(0, []byte{'z'})...))
				shown = append(shown, 'z')
			case 1:
				c.in.write(append(encode(0, []byte{d}), encode(m, nil)...))
			case 2:
				c.in.write(append(encode(m, nil), encode(0, []byte{d})...))
			}
		case 4: // a message the client has no use for
			c.in.write(encode([]int{1, 6, -1, 2, 3, 7}[vrt.Choose("type", vrt.Param("types", 3))], bytesOf("d", vrt.Choose("len", 3))))
		case 5:
			if !kbOpen {
				vrt.Cut("keyboard closed")
			}
			d := bytesOf("k", 1+vrt.Choose("len", 2))
			kb.ch <- append([]byte{}, d...)
			typed = append(typed, d...)
			fresh += len(d)
		case 6:
			t.Cols = uint16(vrt.Int("cols2", 1, 65535))
			widths = append(widths, int(t.Cols))
			vsys.Signal(syscall.SIGWINCH)
		case 7:
			if !kbOpen {
				vrt.Cut("keyboard closed")
			}
			close(kb.ch)
			kbOpen = false
		case 8: // like Ctrl-D after some text
			if !kbOpen || fresh == 0 {
				vrt.Cut("nothing typed")
			}
			kb.ch <- nil
			fresh = 0
		}
		vrt.Settle()
		vrt.Assert(same(vsys.OsStdout.Out, shown), "what the server writes is shown, in order")
		if raw {
			vrt.Assert(t.State.Lflag&(syscall.ECHO|syscall.ICANON|syscall.ISIG) == 0, "the terminal is raw")
			vrt.Reach("raw")
		} else {
			vrt.Assert(same1(), "the terminal is as it was")
		}
	}
	select {
	case <-done:
		vrt.Assert(false, "the client goes on while the connection lasts")
	default:
	}
	switch vrt.Choose("end", 3) {
	case 0:
		c.in.close()
	case 1:
		b := encode(0, []byte("zz"))[:1+6*vrt.Choose("cut", 2)]
		if vrt.Choose("more", 2) == 1 {
			b = append(encode(0, []byte("last")), b...)
			shown = append(shown, "last"...)
		}
		c.in.write(b)
		c.in.close()
	case 2:
		c.in.write([]byte{0, 0, 0, 1, 0, 0})
	}
	vrt.Assert(<-done == nil, "the client ends when the connection does")
	vrt.Assert(same1(), "the terminal is exactly as it was")
	vrt.Assert(same(vsys.OsStdout.Out, shown), "what the server wrote is shown, in order")
	types, datas, rest := decode(c.out.take())
	vrt.Assert(len(rest) == 0 && len(types) >= 2, "whole messages")
	vrt.Assert(types[0] == 3 && types[1] == 2, "terminal and width are reported first")
	vrt.Assert(same(datas[0], []byte{0, byte(wantTty)}), "terminal report")
	var got []byte
	ended := false
	for i, y := range types[1:] {
		d := datas[i+1]
		switch y {
		case 2:
			vrt.Assert(len(widths) > 0 && len(d) == 2 && int(d[0])<<8+int(d[1]) == widths[0], "each width is reported")
			widths = widths[1:]
		case 0:
			vrt.Assert(!ended, "nothing after the end")
			got = append(got, d...)
		case 6:
			vrt.Assert(!ended && len(d) == 0, "one end of file")
			ended = true
		default:
			vrt.Assert(false, "no other message")
		}
	}
	vrt.Assert(len(widths) == 0, "each width is reported")
	vrt.Assert(ended == !kbOpen, "the end of the input is sent on")
	vrt.Assert(same(got, typed), "every byte of the input in order")
	vrt.Reach("done")
}

func init() { Funcs["Mirror"] = Mirror }
