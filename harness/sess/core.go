// Package sess drives whole readline sessions: scripted (partly symbolic) keys go in through the
// configured Stdin, the application side calls the exported API.
package sess

import (
	"errors"
	"io"
	"sync"
	"sync/atomic"

	"github.com/chzyer/readline"

	"verif/harness/spec"
	"verif/harness/vrt"
)

var (
	cp   = spec.Cp
	cat  = spec.Cat
	same = spec.Same
)

// magic is the key on which the listener replaces the line (a private use character).
const magic = 0xF8FF

// input is a scripted keyboard. Each chunk is delivered by one Read (or several, if the reader's
// buffer is short).
type input struct {
	ch   chan []byte
	left []byte
	once sync.Once
	stop chan struct{}
	busy int32 // reads going on
	sig  bool  // every read is interrupted by a signal once it has data
}

// errEINTR is what a read interrupted by a signal reports; a nil chunk stands for it.
var errEINTR = errors.New("read /dev/stdin: interrupted system call")

func newInput() *input { return &input{ch: make(chan []byte, 64), stop: make(chan struct{})} }

func (i *input) Read(p []byte) (int, error) {
	atomic.AddInt32(&i.busy, 1)
	defer atomic.AddInt32(&i.busy, -1)
	if len(i.left) == 0 {
		select {
		case b, ok := <-i.ch:
			if !ok {
				return 0, io.EOF
			}
			if b == nil {
				return 0, errEINTR
			}
			i.left = b
		case <-i.stop:
			return 0, io.EOF
		}
	}
	n := copy(p, i.left)
	i.left = i.left[n:]
	if i.sig {
		return n, errEINTR
	}
	return n, nil
}

func (i *input) Close() error {
	i.once.Do(func() { close(i.stop) })
	return nil
}

// output records what is written, one entry per Write.
type output struct {
	mu   sync.Mutex
	buf  []byte
	cuts []int
}

func (o *output) Write(b []byte) (int, error) {
	o.mu.Lock()
	o.buf = append(o.buf, b...)
	o.cuts = append(o.cuts, len(o.buf))
	o.mu.Unlock()
	return len(b), nil
}

func (o *output) Close() error { return nil }

func (o *output) take() []byte {
	o.mu.Lock()
	b := append([]byte{}, o.buf...)
	o.buf, o.cuts = nil, nil
	o.mu.Unlock()
	return b
}

type keyRec struct {
	line []rune
	pos  int
	key  rune
}

type result struct {
	line string
	err  error
}

// S is one session.
type S struct {
	rl     *readline.Instance
	cfg    *readline.Config
	in     *input
	out    *output
	mu     sync.Mutex
	raw    int
	unraw  int
	isRaw  bool
	recs   []keyRec
	line   []rune // injected on the magic key
	pos    int
	armed  bool
	width  int
	resize func()
	res    chan result
	base   int // goroutines before the session
}

// open starts a session; tweak may change the configuration.
func open(tweak func(*S, *readline.Config)) *S {
	s := &S{in: newInput(), out: &output{}, width: 80, res: make(chan result, 8)}
	s.cfg = &readline.Config{
		Prompt:             "> ",
		Stdin:              s.in,
		Stdout:             s.out,
		Stderr:             s.out,
		FuncGetWidth:       func() int { return s.width },
		FuncIsTerminal:     func() bool { return false },
		FuncOnWidthChanged: func(f func()) { s.resize = f },
		FuncMakeRaw: func() error {
			s.mu.Lock()
			s.raw++
			s.isRaw = true
			s.mu.Unlock()
			return nil
		},
		FuncExitRaw: func() error {
			s.mu.Lock()
			s.unraw++
			s.isRaw = false
			s.mu.Unlock()
			return nil
		},
	}
	s.cfg.SetListener(s.listen)
	if tweak != nil {
		tweak(s, s.cfg)
	}
	s.base = vrt.Goroutines()
	rl, err := readline.NewEx(s.cfg)
	if err != nil {
		vrt.Assert(false, "NewEx failed")
	}
	s.rl = rl
	return s
}

func (s *S) listen(line []rune, pos int, key rune) ([]rune, int, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.armed && key == magic {
		s.armed = false
		return s.line, s.pos, true
	}
	s.recs = append(s.recs, keyRec{cp(line), pos, key})
	return nil, 0, false
}

// inject makes the line and cursor what is given, through the documented listener interface.
func (s *S) inject(line []rune, pos int) {
	s.mu.Lock()
	s.line, s.pos, s.armed = line, pos, true
	s.mu.Unlock()
	s.feed([]byte(string(rune(magic))))
}

func (s *S) feed(b []byte) { s.in.ch <- b }

func (s *S) keys(rs ...rune) {
	for _, r := range rs {
		s.feed([]byte(string(r)))
	}
}

func (s *S) str(t string) { s.feed([]byte(t)) }

// start begins a Readline call.
func (s *S) start() {
	go func() {
		l, err := s.rl.Readline()
		s.res <- result{l, err}
	}()
}

func (s *S) wait() result { return <-s.res }

// read is one whole Readline call.
func (s *S) read() result {
	l, err := s.rl.Readline()
	return result{l, err}
}

// last is the n-th last listener record.
func (s *S) last(n int) keyRec {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.recs) < n+1 {
		return keyRec{pos: -1}
	}
	return s.recs[len(s.recs)-1-n]
}

func (s *S) nrecs() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.recs)
}

func (s *S) clear() {
	s.mu.Lock()
	s.recs = nil
	s.mu.Unlock()
}

func symLine(n int) []rune {
	l := make([]rune, n)
	for i := range l {
		l[i] = printable("c")
	}
	return l
}

// printable is an arbitrary character that is not a control key and not the magic key.
func printable(name string) rune {
	r := vrt.Rune(name, 32, 0x10FFFF)
	vrt.Assume(vrt.And(r != 127, vrt.And(r != magic, vrt.Or(r < 0xD800, r > 0xDFFF))))
	return r
}

// ascii is an arbitrary printable ASCII character.
func ascii(name string) rune { return vrt.Rune(name, 32, 126) }
