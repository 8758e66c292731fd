package rmt

import (
	"io"

	"github.com/chzyer/readline"

	"verif/harness/vrt"
)

type source struct {
	steps [][]byte
	block chan struct{}
}

func (s *source) Read(p []byte) (int, error) {
	if len(s.steps) == 0 {
		if s.block != nil {
			<-s.block
		}
		return 0, io.EOF
	}
	n := copy(p, s.steps[0])
	s.steps[0] = s.steps[0][n:]
	if len(s.steps[0]) == 0 {
		s.steps = s.steps[1:]
	}
	return n, nil
}

// decode splits the client's stream into messages.
func decode(b []byte) (types []int, datas [][]byte, rest []byte) {
	for len(b) >= 6 {
		n := int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
		if n < 2 || len(b) < 4+n {
			break
		}
		types = append(types, int(int16(uint16(b[4])<<8|uint16(b[5]))))
		datas = append(datas, b[6:4+n])
		b = b[4+n:]
	}
	return types, datas, b
}

// Client: the client reports its terminal and width first, then every byte of its input in order,
// then the end of file.
func Client() {
	c := &conn{newPipe(), newPipe()}
	cli, err := readline.NewRemoteCli(c)
	vrt.Assert(err == nil, "NewRemoteCli")
	tty := vrt.Choose("tty", 2)
	cli.MarkIsTerminal(tty == 1)
	src := &source{}
	var want []byte
	for i := 0; i < vrt.Choose("k", 3); i++ {
		d := bytesOf("d", 1+vrt.Choose("len", vrt.Param("n", 2)))
		src.steps = append(src.steps, append([]byte{}, d...))
		want = append(want, d...)
	}
	done := make(chan error, 1)
	go func() { done <- cli.ServeBy(src) }()
	vrt.Settle()
	c.in.close()
	vrt.Assert(<-done == nil, "ServeBy returns when the connection ends")
	types, datas, rest := decode(c.out.take())
	vrt.Assert(len(rest) == 0, "whole messages")
	vrt.Assert(len(types) >= 3 && types[0] == 3 && types[1] == 2, "terminal and width are reported first")
	vrt.Assert(len(datas[0]) == 2 && int(datas[0][1]) == tty && datas[0][0] == 0, "terminal report")
	var got []byte
	for i := 2; i < len(types)-1; i++ {
		vrt.Assert(types[i] == 0, "data")
		got = append(got, datas[i]...)
	}
	vrt.Assert(types[len(types)-1] == 6, "end of file at the end")
	vrt.Assert(same(got, want), "every byte of the input in order")
	vrt.Reach("done")
}

// ClientRace: messages written from several goroutines do not mix.
func ClientRace() {
	c := &conn{newPipe(), newPipe()}
	cli, _ := readline.NewRemoteCli(c)
	done := make(chan int, 2)
	go func() {
		n, _ := cli.Write([]byte("ab"))
		m, _ := cli.Write([]byte("c"))
		done <- n + m
	}()
	go func() {
		cli.Close()
		done <- 3
	}()
	vrt.Assert(<-done == 3 && <-done == 3, "Write reports the payload length")
	types, datas, rest := decode(c.out.take())
	vrt.Assert(len(rest) == 0 && len(types) == 3, "whole messages")
	got := ""
	for i := range types {
		if types[i] == 0 {
			got += string(datas[i])
		} else {
			vrt.Assert(types[i] == 6 && len(datas[i]) == 0, "end of file")
		}
	}
	vrt.Assert(got == "abc", "data in order")
	vrt.Reach("done")
}

// Remote: a whole session over the connection: the line typed at the client is the line read at the server.
func Remote() {
	c := &conn{newPipe(), newPipe()}
	c.in.b = append(encode(3, []byte{0, 1}), encode(2, []byte{0, 80})...)
	rl, err := readline.HandleConn(readline.Config{Prompt: "> "}, c)
	vrt.Assert(err == nil, "HandleConn")
	x, y := vrt.Byte("x", 32, 126), vrt.Byte("y", 32, 126)
	ahead := vrt.Choose("ahead", 2) == 1
	type res struct {
		l   string
		err error
	}
	out := make(chan res, 2)
	send := func() {
		if vrt.Choose("split", 2) == 1 {
			c.in.write(encode(0, []byte{x}))
			c.in.write(encode(0, []byte{y, '\r'}))
		} else {
			c.in.write(encode(0, []byte{x, y, '\r'}))
		}
	}
	if ahead {
		send()
	}
	go func() {
		l, err := rl.Readline()
		out <- res{l, err}
	}()
	if !ahead {
		vrt.Settle()
		send()
	}
	r := <-out
	vrt.Assert(r.err == nil && same([]byte(r.l), []byte{x, y}), "the line typed at the client")
	types, _, rest := decode(c.out.take())
	vrt.Assert(len(rest) == 0, "whole messages")
	raw, eraw := 0, 0
	for _, t := range types {
		if t == 4 {
			raw++
		}
		if t == 5 {
			eraw++
		}
	}
	vrt.Assert(raw == 1 && eraw == 1, "raw mode at the client is entered and left")
	switch vrt.Choose("end", 3) {
	case 0:
		c.in.write(encode(6, nil))
	case 1:
		c.in.close()
	case 2:
		go rl.Close()
	}
	_, err = rl.Readline()
	vrt.Assert(err == io.EOF, "end of session is end of input")
	rl.Close()
	vrt.Reach("done")
}
