// Package rmt checks the remote protocol: the message codec and both ends of a session.
package rmt

import (
	"bytes"
	"io"
	"net"
	"sync"
	"time"

	"github.com/chzyer/readline"

	"verif/harness/vrt"
)

// Funcs lists the harness functions.
var Funcs = map[string]func(){
	"RoundTrip": RoundTrip, "Malformed": Malformed, "Big": Big, "Init": Init, "Server": Server, "SrvWrite": SrvWrite,
	"ReadWake": ReadWake, "ReadEOF": ReadEOF, "CloseReleases": CloseReleases, "Report": Report, "Client": Client, "Remote": Remote, "ClientRace": ClientRace,
}

func bytesOf(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = vrt.Byte(name, 0, 255)
	}
	return b
}

func same(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vrt.And(ok, a[i] == b[i])
	}
	return ok
}

// chunks delivers b in reads of the given sizes (the last one repeats), then io.EOF.
type chunks struct {
	b     []byte
	sizes []int
}

func (c *chunks) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	k := len(c.b)
	if len(c.sizes) > 0 {
		if c.sizes[0] < k {
			k = c.sizes[0]
		}
		if len(c.sizes) > 1 {
			c.sizes = c.sizes[1:]
		}
	}
	n := copy(p, c.b[:k])
	c.b = c.b[n:]
	return n, nil
}

func encode(t int, d []byte) []byte {
	n := len(d) + 2
	return append([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n), byte(t >> 8), byte(t)}, d...)
}

// RoundTrip: messages of any type and payload are read back however the stream is split.
func RoundTrip() {
	k := 1 + vrt.Choose("k", vrt.Param("k", 2))
	var types []int
	var datas [][]byte
	var wire bytes.Buffer
	for i := 0; i < k; i++ {
		t := vrt.Int("type", -32768, 32767)
		d := bytesOf("d", vrt.Choose("len", vrt.Param("n", 3)+1))
		keep := append([]byte{}, d...)
		m := readline.NewMessage(readline.MsgType(int16(t)), d)
		n, err := m.WriteTo(&wire)
		vrt.Assert(err == nil, "WriteTo succeeds")
		_ = n
		vrt.Assert(same(d, keep), "WriteTo does not modify the payload")
		types, datas = append(types, t), append(datas, d)
	}
	c := &chunks{b: append([]byte{}, wire.Bytes()...)}
	switch vrt.Choose("split", 3) {
	case 1:
		c.sizes = []int{1}
	case 2:
		c.sizes = []int{vrt.Choose("at", wire.Len()) + 1, 1 << 20}
	}
	for i := 0; i < k; i++ {
		m, err := readline.ReadMessage(c)
		vrt.Assert(err == nil, "ReadMessage succeeds")
		vrt.Observe("msg", int(m.Type), m.Data)
		vrt.Assert(int(int16(m.Type)) == types[i], "type")
		vrt.Assert(same(m.Data, datas[i]), "payload")
	}
	m, err := readline.ReadMessage(c)
	vrt.Assert(err != nil && m == nil, "an error at the end of the stream")
	vrt.Reach("done")
}

// Big: payloads larger than the buffers involved.
func Big() {
	n := []int{511, 512, 513, 4090, 4096, 65533, 65534, 65536, 70000}[vrt.Choose("n", vrt.Param("sizes", 4))]
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i * 7)
	}
	d[0], d[n-1] = vrt.Byte("first", 0, 255), vrt.Byte("last", 0, 255)
	var wire bytes.Buffer
	readline.NewMessage(readline.T_DATA, d).WriteTo(&wire)
	readline.NewMessage(readline.T_EOF, nil).WriteTo(&wire)
	c := &chunks{b: wire.Bytes()}
	if vrt.Choose("split", 2) == 1 {
		c.sizes = []int{100}
	}
	m, err := readline.ReadMessage(c)
	vrt.Assert(err == nil && m.Type == readline.T_DATA && same(m.Data, d), "a large message")
	m, err = readline.ReadMessage(c)
	vrt.Assert(err == nil && m.Type == readline.T_EOF && len(m.Data) == 0, "the message after it")
	vrt.Reach("done")
}

// Malformed: any bytes: a message or an error, never a panic, never more than was sent.
func Malformed() {
	n := vrt.Choose("n", vrt.Param("n", 9)+1)
	b := bytesOf("b", n)
	c := &chunks{b: append([]byte{}, b...)}
	if vrt.Choose("split", 2) == 1 {
		c.sizes = []int{1}
	}
	m, err := readline.ReadMessage(c)
	if err != nil {
		vrt.Assert(m == nil, "no message with an error")
		vrt.Reach("error")
		return
	}
	k := len(m.Data)
	vrt.Assert(n >= 6+k, "a message is not longer than what was sent")
	vrt.Assert(same(m.Data, b[6:6+k]), "payload")
	vrt.Assert(same(encode(0, m.Data)[:4], b[:4]), "length")
	vrt.Assert(len(c.b) == n-6-k, "nothing is read past the message")
	vrt.Reach("message")
}

// conn is one end of an in-memory connection.
type conn struct {
	in, out *pipe
}

type pipe struct {
	mu     sync.Mutex
	cond   *sync.Cond
	b      []byte
	closed bool
	size   int // largest read
	writes int
	failAt int // the write with this number fails (0: none)
}

func newPipe() *pipe {
	p := &pipe{size: 1 << 20}
	p.cond = sync.NewCond(&p.mu)
	return p
}

func (p *pipe) read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for len(p.b) == 0 && !p.closed {
		p.cond.Wait()
	}
	if len(p.b) == 0 {
		return 0, io.EOF
	}
	k := len(p.b)
	if k > p.size {
		k = p.size
	}
	n := copy(b, p.b[:k])
	p.b = p.b[n:]
	return n, nil
}

func (p *pipe) write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.writes++
	if p.closed || p.writes == p.failAt {
		return 0, io.ErrClosedPipe
	}
	p.b = append(p.b, b...)
	p.cond.Broadcast()
	return len(b), nil
}

func (p *pipe) close() {
	p.mu.Lock()
	p.closed = true
	p.cond.Broadcast()
	p.mu.Unlock()
}

func (p *pipe) take() []byte {
	p.mu.Lock()
	defer p.mu.Unlock()
	b := p.b
	p.b = nil
	return b
}

func (c *conn) Read(b []byte) (int, error)         { return c.in.read(b) }
func (c *conn) Write(b []byte) (int, error)        { return c.out.write(b) }
func (c *conn) Close() error                       { c.in.close(); c.out.close(); return nil }
func (c *conn) LocalAddr() net.Addr                { return nil }
func (c *conn) RemoteAddr() net.Addr               { return nil }
func (c *conn) SetDeadline(t time.Time) error      { return nil }
func (c *conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }

// Init: the handshake accepts exactly a terminal report followed by a width report.
func Init() {
	c := &conn{newPipe(), newPipe()}
	t1, t2 := vrt.Choose("t1", 8), vrt.Choose("t2", 8)
	d1, d2 := bytesOf("d1", vrt.Choose("n1", 4)), bytesOf("d2", vrt.Choose("n2", 4))
	if t1 != 3 && vrt.Choose("short", 2) == 1 {
		c.in.b = append(c.in.b, bytesOf("raw", vrt.Choose("n", 5))...)
	} else {
		c.in.b = append(encode(t1, d1), encode(t2, d2)...)
	}
	c.in.closed = vrt.Choose("closed", 2) == 1 || t1 != 3
	if t1 != 3 || t2 != 2 {
		c.in.closed = true
	}
	s, err := readline.NewRemoteSvr(c)
	if t1 != 3 || t2 != 2 {
		vrt.Assert(err != nil && s == nil, "any other handshake is refused")
		vrt.Reach("refused")
		return
	}
	if len(d1) < 2 || len(d2) < 2 {
		vrt.Reach("short")
		return // an error or ignored, but no panic
	}
	vrt.Assert(err == nil, "the handshake is accepted")
	vrt.Assert(s.IsTerminal() == (vrt.Or(d1[0] != 0, d1[1] != 0)), "terminal report")
	vrt.Assert(s.GetWidth() == int(d2[0])<<8+int(d2[1]), "width report")
	s.Close()
	vrt.Reach("accepted")
}

func server(width int) (*readline.RemoteSvr, *conn) {
	c := &conn{newPipe(), newPipe()}
	c.in.b = append(encode(3, []byte{0, 1}), encode(2, []byte{byte(width >> 8), byte(width)})...)
	s, err := readline.NewRemoteSvr(c)
	vrt.Assert(err == nil, "handshake")
	return s, c
}

// Server: whatever messages arrive, the data messages are read in order and complete, reports take
// effect, everything else is ignored and nothing panics.
func Server() {
	s, c := server(80)
	widths := 0
	var cfg readline.Config
	s.HandleConfig(&cfg)
	cfg.FuncOnWidthChanged(func() { widths++ })
	var want []byte
	width, tty := 80, true
	nw := 0
	var stream []byte
	k := 1 + vrt.Choose("k", vrt.Param("k", 2))
	for i := 0; i < k; i++ {
		t := vrt.Choose("t", 9)
		if t == 6 {
			t = -1
		}
		d := bytesOf("d", vrt.Choose("len", vrt.Param("n", 3)+1))
		stream = append(stream, encode(t, d)...)
		switch {
		case t == 0:
			want = append(want, d...)
		case t == 2 && len(d) >= 2:
			width = int(vrt.Fix(int(d[0])&1))<<8 + int(d[1])
			vrt.Assume(d[0] < 2)
			nw++
		case t == 3 && len(d) >= 2:
			tty = vrt.Or(d[0] != 0, d[1] != 0)
		}
	}
	c.in.size = []int{1 << 20, 1, 5}[vrt.Choose("split", 3)]
	end := vrt.Choose("end", 3)
	switch end {
	case 0: // end of file message, connection stays
		stream = append(stream, encode(6, nil)...)
	case 1: // connection ends
	case 2: // connection ends inside a message
		torn := 7
		if k == 1 {
			torn = 1 + vrt.Choose("torn", 9)
		}
		stream = append(stream, encode(0, []byte("lost"))[:torn]...)
	}
	c.in.write(stream)
	if end != 0 {
		c.in.close()
	}
	var got []byte
	size := 1 + 2*vrt.Choose("size", 2)
	for {
		p := make([]byte, size)
		n, err := s.Read(p)
		got = append(got, p[:n]...)
		if err != nil {
			vrt.Assert(err == io.EOF && n == 0, "io.EOF at the end")
			break
		}
		vrt.Assert(n > 0, "a read returns data")
		vrt.Assert(len(got) <= len(want), "no more than was sent")
	}
	vrt.Observe("got", got, s.GetWidth())
	vrt.Assert(same(got, want), "all data, in order")
	vrt.Assert(s.GetWidth() == width, "width last reported")
	vrt.Assert(s.IsTerminal() == tty, "terminal kind last reported")
	vrt.Assert(widths == nw, "the width callback runs once per report")
	s.Close()
	vrt.Reach("done")
}

// SrvWrite: what is written reaches the client as data messages; the count is that of the payload.
func SrvWrite() {
	s, c := server(80)
	var want []byte
	for i := 0; i < 1+vrt.Choose("k", 2); i++ {
		d := bytesOf("d", vrt.Choose("len", vrt.Param("n", 3)+1))
		switch vrt.Choose("what", 3) {
		case 0:
			n, err := s.Write(d)
			vrt.Assert(err == nil && n == len(d), "Write reports the number of payload bytes")
			want = append(want, encode(0, d)...)
			vrt.Reach("data")
		case 1:
			vrt.Assert(s.EnterRawMode() == nil, "EnterRawMode")
			want = append(want, encode(4, nil)...)
		case 2:
			vrt.Assert(s.ExitRawMode() == nil, "ExitRawMode")
			want = append(want, encode(5, nil)...)
		}
	}
	vrt.Assert(same(c.out.take(), want), "messages on the wire")
	c.out.failAt = c.out.writes + 1
	n, err := s.Write([]byte("ab"))
	vrt.Assert(err != nil && n <= 2 && n >= 0, "a failed write reports it and no more bytes than there were")
	s.Close()
	_, err = s.Write([]byte("ab"))
	vrt.Assert(err != nil, "writing after Close is an error")
	vrt.Assert(s.EnterRawMode() != nil, "raw mode after Close is an error")
	s.Close()
	vrt.Reach("done")
}

// ReadWake: a reader is woken for data however arrival and reading interleave.
func ReadWake() {
	s, c := server(80)
	x, y := vrt.Byte("x", 0, 255), vrt.Byte("y", 0, 255)
	go func() {
		c.in.write(encode(0, []byte{x}))
		c.in.write(encode(0, []byte{y}))
	}()
	var got []byte
	for len(got) < 2 {
		p := make([]byte, 1+vrt.Choose("size", 2))
		n, err := s.Read(p)
		vrt.Assert(err == nil && n > 0, "a read returns data")
		got = append(got, p[:n]...)
	}
	vrt.Assert(same(got, []byte{x, y}), "data in order")
	vrt.Reach("done")
}

// ReadEOF: end of session is seen after the data, by every reader, however arrival and reading interleave.
func ReadEOF() {
	s, c := server(80)
	how := vrt.Choose("how", 3)
	go func() {
		c.in.write(encode(0, []byte("ab")))
		switch how {
		case 0:
			c.in.write(encode(6, nil))
		case 1:
			c.in.close()
		case 2:
			c.in.write(encode(0, []byte("xyz"))[:7])
			c.in.close()
		}
	}()
	readers := 1 + vrt.Choose("readers", 2)
	out := make(chan string, 8)
	for i := 0; i < readers; i++ {
		go func() {
			p := make([]byte, 1)
			got := ""
			for {
				n, err := s.Read(p)
				got += string(p[:n])
				if err != nil {
					break
				}
			}
			out <- got
		}()
	}
	got := ""
	for i := 0; i < readers; i++ {
		got += <-out
	}
	vrt.Assert(len(got) == 2, "all data is read before the end")
	if readers == 1 {
		vrt.Assert(got == "ab", "in order")
	} else {
		vrt.Reach("two readers")
	}
	vrt.Reach("done")
}

// CloseReleases: Close releases pending readers and writers whatever they are doing.
func CloseReleases() {
	s, c := server(80)
	out := make(chan bool, 8)
	go func() {
		_, err := s.Read(make([]byte, 4))
		out <- err != nil
	}()
	go func() {
		for i := 0; i < 2; i++ {
			s.Write([]byte("x"))
		}
		s.ExitRawMode()
		out <- true
	}()
	if vrt.Choose("settle", 2) == 1 {
		vrt.Settle()
	}
	switch vrt.Choose("how", 3) {
	case 0:
		s.Close()
	case 1:
		c.Close()
	case 2:
		go s.Close()
		s.Close()
	}
	vrt.Assert(<-out && <-out, "the reader gets an error")
	n, err := s.Read(make([]byte, 4))
	vrt.Assert(n == 0 && err == io.EOF, "io.EOF after Close")
	vrt.Reach("done")
}

// Report: undersized reports given to the exported handlers are ignored.
func Report() {
	s, _ := server(80)
	d := bytesOf("d", vrt.Choose("n", 4))
	s.GotReportWidth(d)
	if len(d) < 2 {
		vrt.Assert(s.GetWidth() == 80, "an undersized width report is ignored")
		vrt.Reach("short")
	} else {
		vrt.Assert(s.GetWidth() == int(d[0])<<8+int(d[1]), "width report")
	}
	s.GotIsTerminal(d)
	if len(d) < 2 {
		vrt.Assert(s.IsTerminal(), "an undersized terminal report is ignored")
	}
	vrt.Reach("done")
}
