package rmt

import (
	"errors"
	"io"
	"net"
	"syscall"

	"github.com/chzyer/readline"

	"verif/harness/vrt"
	"verif/harness/vsys"
)

func init() {
	Funcs["Listen"] = Listen
	Funcs["ListenErr"] = ListenErr
	Funcs["Dial"] = Dial
}

// closer counts the times a connection is closed.
type closer struct {
	conn
	closed int
}

func (c *closer) Close() error {
	c.closed++
	return c.conn.Close()
}

// client is one client of the server under test.
type client struct {
	*closer
	rl    *readline.Instance
	n     int // instances given to the handler
	greet int
	cols  int
	lines []string
	ends  []error
	want  []string // lines sent
	cur   string   // typed of the next one
	hist  []string
	term  int
	shown []byte
	types []int
	rest  []byte
	gone  bool
	left  bool // handler returned
	said  string
}

func (c *client) send(t int, d []byte) { c.in.write(encode(t, d)) }

func (c *client) update() {
	types, datas, rest := decode(append(c.rest, c.out.take()...))
	c.rest = append([]byte{}, rest...)
	for i, t := range types {
		c.types = append(c.types, t)
		if t == 0 {
			c.shown = append(c.shown, datas[i]...)
		}
	}
}

func (c *client) count(t int) int {
	n := 0
	for _, x := range c.types {
		if x == t {
			n++
		}
	}
	return n
}

func contains(b []byte, s string) bool {
	for i := 0; i+len(s) <= len(b); i++ {
		if same(b[i:i+len(s)], []byte(s)) {
			return true
		}
	}
	return false
}

// Listen: every connection gets its own session; what one client does or fails to do does not reach another.
func Listen() {
	vsys.Reset()
	base := vrt.Goroutines()
	cfg := &readline.Config{Prompt: "> ", HistoryLimit: 3, VimMode: vrt.Choose("vim", vrt.Param("vims", 1)) == 1, EOFPrompt: "bye", InterruptPrompt: "int"}
	before := *cfg
	var clients []*client
	quit := vrt.Choose("quit", vrt.Param("quits", 2)) == 1 // the handler closes the instance
	handler := func(rl *readline.Instance) {
		w := rl.Config.FuncGetWidth()
		var c *client
		for _, x := range clients {
			if x.cols == w {
				c = x
			}
		}
		vrt.Assert(c != nil, "the session has the width its client reported")
		vrt.Assert(c.greet == 0, "no session without a greeting")
		vrt.Assert(rl.Config.FuncIsTerminal() == (c.term == 1), "the session knows whether its client is a terminal")
		c.n++
		c.rl = rl
		for {
			l, err := rl.Readline()
			if err != nil {
				c.ends = append(c.ends, err)
				break
			}
			c.lines = append(c.lines, l)
		}
		if quit {
			rl.Close()
		}
		c.left = true
	}
	var lnSeen net.Listener
	done := make(chan error, 1)
	go func() {
		done <- readline.ListenRemote("tcp", "host:1", cfg, handler, func(l net.Listener) error { lnSeen = l; return nil })
	}()
	vrt.Settle()
	vrt.Assert(len(vsys.Listeners) == 1 && vsys.Listeners[0].Network == "tcp" && vsys.Listeners[0].Address == "host:1", "one listener on the address")
	ln := vsys.Listeners[0]
	vrt.Assert(lnSeen == net.Listener(ln), "the caller gets the listener")
	nc := vrt.Param("clients", 2)
	for i := 0; i < nc; i++ {
		c := &client{closer: &closer{conn: conn{newPipe(), newPipe()}}, cols: 20 + i*10, term: (i + 1) % 2}
		if vrt.Param("terminals", 0) == 1 {
			c.term = vrt.Choose("terminal", 2)
		}
		c.greet = vrt.Choose("greeting", vrt.Param("greetings", 4))
		clients = append(clients, c)
	}
	connect := func(c *client) {
		switch c.greet {
		case 0:
			if vrt.Choose("late", vrt.Param("lates", 2)) == 1 {
				ln.Conns <- c
				vrt.Settle()
				c.send(3, []byte{0, byte(c.term)})
				vrt.Settle()
				c.send(2, []byte{0, byte(c.cols)})
				return
			}
			c.send(3, []byte{0, byte(c.term)})
			c.send(2, []byte{0, byte(c.cols)})
		case 1: // nothing at all
		case 2: // nonsense
			c.send(vrt.Choose("nonsense", 2), []byte{0, 1})
		case 3: // gone
			c.in.write([]byte{0, 0, 0})
			c.in.close()
			c.gone = true
		}
		ln.Conns <- c
	}
	for _, c := range clients {
		connect(c)
	}
	vrt.Settle()
	good := func(c *client) bool { return c.greet == 0 && !c.gone }
	for n := vrt.Param("steps", 3); n > 0; n-- {
		c := clients[vrt.Choose("who", nc)]
		if !good(c) {
			vrt.Cut("no session")
		}
		switch vrt.Choose("step", vrt.Param("kinds", 7)) {
		case 0: // type something
			b := vrt.Byte("key", 'a', 'c')
			c.send(0, []byte{b})
			c.cur += string([]byte{b})
		case 1: // a line
			if c.cur == "" {
				vrt.Cut("empty")
			}
			c.send(0, []byte{'\r'})
			c.want = append(c.want, c.cur)
			c.hist = append(c.hist, c.cur)
			c.cur = ""
		case 2: // walk back and take it
			if c.cur != "" {
				vrt.Cut("not empty")
			}
			if len(c.hist) == 0 { // there is nothing to walk back to
				c.send(0, []byte{16})
				break
			}
			c.send(0, []byte{16, '\r'})
			c.want = append(c.want, c.hist[len(c.hist)-1])
		case 3: // message from the application
			c.said = "for the " + []string{"first", "second", "third"}[c.cols/10-2]
			c.rl.Write([]byte(c.said + "\n"))
		case 4: // end
			switch vrt.Choose("end", vrt.Param("ends", 3)) {
			case 0:
				c.send(6, nil)
			case 1:
				c.in.close()
			case 2:
				c.in.write([]byte{0, 0, 0, 1, 0, 0})
			}
			c.gone = true
		case 5: // interrupt
			c.send(0, []byte{3})
			c.gone = true
		case 6: // closed from the application
			c.rl.Close()
			c.gone = true
		}
		vrt.Settle()
		for i, d := range clients {
			d.update()
			if d.greet != 0 {
				vrt.Assert(d.n == 0, "no session without a greeting")
				vrt.Assert(len(d.types) == 0, "nothing is written to a client without a session")
				continue
			}
			vrt.Assert(d.n == 1, "one session for each client")
			if len(d.lines) == len(d.want)+1 && d.gone && d.cur != "" {
				// what was typed when the input ended
				d.want = append(d.want, d.cur)
				d.cur = ""
			}
			vrt.Assert(len(d.lines) == len(d.want), "each session gets its own lines")
			for j := range d.want {
				vrt.Assert(d.lines[j] == d.want[j], "each session gets its own lines")
			}
			vrt.Assert(d.gone == d.left, "a session ends with its client, and only then")
			if d.left {
				vrt.Assert(d.closed >= 1, "the connection is closed after the handler")
			} else {
				vrt.Assert(d.closed == 0, "the connection stays open during the session")
			}
			raw := d.count(4) - d.count(5)
			vrt.Assert(d.gone || raw == 1, "raw mode is on at each client")
			if d.said != "" {
				vrt.Assert(d.gone || contains(d.shown, d.said), "what is written to a session is shown by its client")
			}
			for j, e := range clients {
				if i != j && e.said != "" {
					vrt.Assert(!contains(d.shown, e.said), "what is written to a session is not shown by another client")
				}
			}
		}
	}
	vrt.Assert(cfg.Stdin == nil && cfg.Stdout == nil && cfg.Stderr == nil && cfg.FuncGetWidth == nil && cfg.FuncMakeRaw == nil && cfg.FuncIsTerminal == nil && cfg.Prompt == before.Prompt && cfg.HistoryLimit == before.HistoryLimit, "the configuration is as it was")
	select {
	case <-done:
		vrt.Assert(false, "the server goes on while it listens")
	default:
	}
	// closing the listener ends the server, the sessions go on
	ln.Close()
	vrt.Assert(<-done == nil, "closing the listener ends the server")
	for _, c := range clients {
		if !good(c) {
			if c.greet == 2 || c.greet == 3 {
				vrt.Assert(c.closed >= 1, "a connection without a greeting is closed")
			}
			continue
		}
		c.send(0, []byte("z\r"))
		vrt.Settle()
		vrt.Assert(len(c.lines) == len(c.want)+1 && c.lines[len(c.want)] == c.cur+"z", "sessions go on without the server")
		c.in.close()
		vrt.Settle()
		vrt.Assert(c.left && c.closed >= 1, "the session ends with its client")
		vrt.Assert(c.ends[0] == io.EOF, "the end of a client is the end of input")
		vrt.Reach("session")
	}
	for _, c := range clients {
		if c.greet == 1 {
			c.in.close()
			vrt.Settle()
			vrt.Assert(c.closed >= 1 && c.n == 0, "a connection without a greeting is closed")
		}
		if c.rl != nil {
			c.rl.Close()
		}
	}
	vrt.Settle()
	_ = base
	vrt.Reach("done")
}

// ListenErr: errors of listening are returned and nothing is served.
func ListenErr() {
	vsys.Reset()
	e := errors.New("no")
	called := 0
	h := func(rl *readline.Instance) { vrt.Assert(false, "no handler") }
	if vrt.Choose("who", 2) == 0 {
		vsys.ListenErr = e
		err := readline.ListenRemote("tcp", ":1", &readline.Config{}, h, func(net.Listener) error { called++; return nil })
		vrt.Assert(err == e && called == 0, "an error of listening is returned")
	} else {
		err := readline.ListenRemote("tcp", ":1", &readline.Config{}, h, func(net.Listener) error { called++; return e })
		vrt.Assert(err == e && called == 1, "an error of the caller is returned")
	}
	vrt.Reach("done")
}

// Dial: the client for an address serves the standard input over a connection and closes it at the end.
func Dial() {
	vsys.Reset()
	t := &vsys.Term{Cols: uint16(vrt.Int("cols", 1, 65535)), Rows: 24}
	t.State.Lflag = vrt.Uint32("lflag")
	vrt.Assume(t.State.Lflag&syscall.ECHO != 0)
	orig := t.State
	vsys.Fds[0], vsys.Fds[1] = t, t
	c := &closer{conn: conn{newPipe(), newPipe()}}
	if vrt.Choose("fail", 2) == 1 {
		vsys.DialErr = errors.New("refused")
		vrt.Assert(readline.DialRemote("tcp", "a:1") == vsys.DialErr, "an error of the connection is returned")
		vrt.Reach("refused")
		return
	}
	vsys.DialTo = c
	done := make(chan error, 1)
	go func() { done <- readline.DialRemote("tcp", "a:1") }()
	vrt.Settle()
	if vrt.Choose("raw", 2) == 1 {
		c.in.write(encode(4, nil))
		vrt.Settle()
		vrt.Assert(t.State.Lflag&(syscall.ECHO|syscall.ICANON|syscall.ISIG) == 0, "the terminal is raw")
	}
	k := bytesOf("k", vrt.Choose("len", 3))
	if len(k) > 0 {
		vsys.OsStdin.In <- append([]byte{}, k...)
		vrt.Settle()
	}
	d := bytesOf("d", 1)
	c.in.write(encode(0, d))
	vrt.Settle()
	vrt.Assert(same(vsys.OsStdout.Out, d), "what the server writes is shown")
	vrt.Assert(c.closed == 0, "the connection stays open")
	c.in.close()
	vrt.Assert(<-done == nil, "the client ends when the connection does")
	vrt.Assert(c.closed >= 1, "the connection is closed")
	vrt.Assert(t.State.Lflag == orig.Lflag && t.State.Iflag == orig.Iflag, "the terminal is exactly as it was")
	types, datas, rest := decode(c.out.take())
	vrt.Assert(len(rest) == 0 && len(types) >= 2 && types[0] == 3 && types[1] == 2, "terminal and width are reported first")
	vrt.Assert(same(datas[0], []byte{0, 1}) && int(datas[1][0])<<8+int(datas[1][1]) == int(t.Cols), "terminal and width are reported first")
	var got []byte
	for i, y := range types[2:] {
		vrt.Assert(y == 0, "data")
		got = append(got, datas[2+i]...)
	}
	vrt.Assert(same(got, k), "every byte of the input in order")
	vrt.Reach("done")
}
