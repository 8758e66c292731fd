// Package stdin checks the prefillable and the cancelable input readers.
package stdin

import (
	"errors"
	"io"

	"github.com/chzyer/readline"

	"verif/harness/vrt"
)

// Funcs lists the harness functions.
var Funcs = map[string]func(){
	"Fill": Fill, "FillRace": FillRace, "FillBlocked": FillBlocked, "FillClose": FillClose,
	"Cancel": Cancel, "CancelClose": CancelClose, "CancelMany": CancelMany, "Nested": Nested,
}

var errDevice = errors.New("device error")

type step struct {
	b   []byte
	err error
}

// device is a scripted input: one step per Read (data that does not fit stays for the next one).
// At the end of the script it blocks until released, then reports io.EOF.
type device struct {
	steps   []step
	reads   int
	closed  int
	release chan struct{}
}

func (d *device) Read(p []byte) (int, error) {
	d.reads++
	if len(d.steps) == 0 {
		<-d.release
		return 0, io.EOF
	}
	s := &d.steps[0]
	n := copy(p, s.b)
	if n < len(s.b) {
		s.b = s.b[n:]
		return n, nil
	}
	err := s.err
	d.steps = d.steps[1:]
	return n, err
}

func (d *device) Close() error { d.closed++; return nil }

func bytesOf(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = vrt.Byte(name, 0, 255)
	}
	return b
}

func same(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vrt.And(ok, a[i] == b[i])
	}
	return ok
}

// script makes a device with k steps of up to n arbitrary bytes; every step may report an error.
func script(k, n int) (*device, []byte) {
	d := &device{release: make(chan struct{})}
	var all []byte
	for i := 0; i < k; i++ {
		b := bytesOf("real", vrt.Choose("len", n+1))
		var err error
		if len(b) == 0 || vrt.Choose("fail", 2) == 1 {
			err = errDevice
		}
		d.steps = append(d.steps, step{b, err})
		all = append(all, b...)
	}
	return d, all
}

// Fill: what was written ahead comes first, complete and in order, whatever the sizes.
func Fill() {
	d := &device{release: make(chan struct{})}
	nr := vrt.Choose("real", vrt.Param("real", 2)+1)
	real := bytesOf("r", nr)
	if nr > 0 {
		d.steps = []step{{append([]byte{}, real...), nil}}
	}
	r, w := readline.NewFillableStdin(d)
	var want []byte
	for i := 0; i < 1+vrt.Choose("writes", vrt.Param("writes", 2)); i++ {
		b := bytesOf("f", vrt.Choose("len", vrt.Param("n", 3)+1))
		if i == 0 && vrt.Choose("big", 2) == 1 {
			b = make([]byte, vrt.Param("big", 230))
			for j := range b {
				b[j] = byte(j)
			}
			vrt.Reach("big")
		}
		n, err := w.Write(append([]byte{}, b...))
		vrt.Assert(n == len(b) && err == nil, "WriteStdin reports its length")
		want = append(want, b...)
	}
	ahead := len(want)
	want = append(want, real...)
	size := []int{1, 2, 3, 100, 4096}[vrt.Choose("size", 5)]
	var got []byte
	for len(got) < len(want) {
		p := make([]byte, size)
		before := d.reads
		n, err := r.Read(p)
		vrt.Assert(n > 0 && n <= size, "a read returns data")
		vrt.Assert(err == nil, "a read reports no error")
		if len(got) < ahead {
			vrt.Assert(d.reads == before, "the real input is not read while data written ahead is waiting")
		}
		got = append(got, p[:n]...)
	}
	vrt.Observe("got", len(got))
	vrt.Assert(same(got, want), "data written ahead, then the real input, complete and in order")
	vrt.Reach("done")
}

// FillRace: several writers and a reader at once; each writer's bytes stay in order and nothing is lost.
func FillRace() {
	d := &device{release: make(chan struct{})}
	r, w := readline.NewFillableStdin(d)
	const k = 2
	ready := make(chan struct{}, k)
	go func() {
		w.Write([]byte("ab"))
		w.Write([]byte("c"))
		ready <- struct{}{}
	}()
	go func() {
		w.Write([]byte("XY"))
		ready <- struct{}{}
	}()
	if vrt.Choose("wait", 2) == 1 {
		<-ready
		<-ready
		vrt.Reach("after")
	} else {
		<-ready
		vrt.Reach("during")
	}
	d.steps = []step{{[]byte("!"), nil}, {[]byte("!"), nil}}
	got := ""
	p := make([]byte, 1+vrt.Choose("size", 4))
	for i := 0; i < 12 && !full(got); i++ {
		n, err := r.Read(p)
		vrt.Assert(err == nil && n > 0, "a read returns data")
		got += string(p[:n])
		if len(d.steps) == 0 {
			break
		}
	}
	ab, xy, bang := sub(got, "abc"), sub(got, "XY"), sub(got, "!")
	vrt.Observe("lengths", len(ab)+len(xy) <= 5)
	vrt.Assert(ab == "abc"[:len(ab)], "one writer's bytes arrive in order and once")
	vrt.Assert(xy == "XY"[:len(xy)], "the other writer's bytes arrive in order and once")
	if len(bang) > 0 {
		// at least one writer had returned before the first read
		i := 0
		for got[i] != '!' {
			i++
		}
		h := got[:i]
		vrt.Assert(sub(h, "abc") == "abc" || sub(h, "XY") == "XY", "what was written before the read comes before the real input")
	}
	vrt.Reach("done")
}

func full(s string) bool {
	return len(sub(s, "abc")) == 3 && len(sub(s, "XY")) == 2 && len(sub(s, "!")) == 2
}

func sub(s, set string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		for j := 0; j < len(set); j++ {
			if s[i] == set[j] {
				out += string(s[i : i+1])
			}
		}
	}
	return out
}

// FillBlocked: data written while a read of the real input is pending comes with the next read.
func FillBlocked() {
	d := &device{release: make(chan struct{})}
	gate := make(chan []byte)
	r, w := readline.NewFillableStdin(gated{gate})
	type res struct {
		b   []byte
		err error
	}
	out := make(chan res, 4)
	size := 1 + vrt.Choose("size", 3)
	go func() {
		for {
			p := make([]byte, size)
			n, err := r.Read(p)
			out <- res{p[:n], err}
			if err != nil {
				return
			}
		}
	}()
	vrt.Settle()
	f := bytesOf("f", 1+vrt.Choose("n", 3))
	w.Write(append([]byte{}, f...))
	x := vrt.Byte("x", 0, 255)
	gate <- []byte{x}
	first := <-out
	vrt.Assert(first.err == nil && same(first.b, []byte{x}), "the pending read returns the real input")
	var got []byte
	for len(got) < len(f) {
		q := <-out
		vrt.Assert(q.err == nil, "no error")
		got = append(got, q.b...)
	}
	vrt.Assert(same(got, f), "then what was written meanwhile")
	close(gate)
	q := <-out
	vrt.Assert(q.err == io.EOF && len(q.b) == 0, "then the end of the real input")
	_ = d
	vrt.Reach("done")
}

type gated struct{ ch chan []byte }

func (g gated) Read(p []byte) (int, error) {
	b, ok := <-g.ch
	if !ok {
		return 0, io.EOF
	}
	return copy(p, b), nil
}

// FillClose: closing closes the real input, any number of times.
func FillClose() {
	d := &device{release: make(chan struct{})}
	r, _ := readline.NewFillableStdin(d)
	for i := 0; i < 1+vrt.Choose("times", 2); i++ {
		vrt.Assert(r.Close() == nil, "Close succeeds")
		vrt.Assert(d.closed > 0, "Close closes the real input")
	}
	vrt.Reach("done")
}

// Cancel: reads return exactly what the underlying reader returned, errors included.
func Cancel() {
	d, all := script(vrt.Param("steps", 3), vrt.Param("n", 2))
	ref := &device{release: d.release}
	for _, s := range d.steps {
		ref.steps = append(ref.steps, step{append([]byte{}, s.b...), s.err})
	}
	c := readline.NewCancelableStdin(d)
	size := 1 + vrt.Choose("size", 3)
	var got []byte
	for len(ref.steps) > 0 {
		p, q := make([]byte, size), make([]byte, size)
		n, err := c.Read(p)
		rn, rerr := ref.Read(q)
		vrt.Assert(n == rn && err == rerr, "length and error of the underlying read")
		vrt.Assert(same(p, q), "bytes of the underlying read")
		got = append(got, p[:n]...)
	}
	vrt.Observe("got", len(got))
	vrt.Assert(same(got, all), "all the input, in order")
	vrt.Assert(len(d.steps) == 0, "no read ahead")
	c.Close()
	n, err := c.Read(make([]byte, size))
	vrt.Assert(n == 0 && err == io.EOF, "io.EOF after Close")
	vrt.Reach("done")
}

// CancelClose: Close at any moment ends a pending read and all later ones; what was read before is unaltered.
func CancelClose() {
	d := &device{release: make(chan struct{}), steps: []step{{[]byte("ab"), nil}, {[]byte("c"), nil}}}
	c := readline.NewCancelableStdin(d)
	type res struct {
		b   string
		err error
	}
	out := make(chan res, 8)
	closed := make(chan struct{}, 2)
	go func() {
		for i := 0; i < 5; i++ {
			p := make([]byte, 4)
			n, err := c.Read(p)
			out <- res{string(p[:n]), err}
		}
	}()
	when := vrt.Choose("when", 3)
	if when > 0 {
		vrt.Settle() // the reader is blocked in its third read
	}
	for k := 0; k < 1+vrt.Choose("closers", 2); k++ {
		go func() {
			c.Close()
			closed <- struct{}{}
		}()
	}
	<-closed
	got, eof := "", false
	for i := 0; i < 5; i++ {
		r := <-out
		if r.err == io.EOF {
			eof = true
			vrt.Assert(r.b == "", "no data with io.EOF")
		} else {
			vrt.Assert(r.err == nil, "no other error")
			got += r.b
		}
		_ = eof
	}
	n, err := c.Read(make([]byte, 4))
	vrt.Assert(n == 0 && err == io.EOF, "io.EOF after Close")
	vrt.Assert(eof, "the reader is released")
	vrt.Assert(got == "abc"[:len(got)], "data in order")
	if when > 0 {
		vrt.Assert(got == "abc", "everything available was read")
		vrt.Reach("pending")
	}
	vrt.Assert(c.Close() == nil, "Close again")
	vrt.Reach("done")
}

// CancelMany: several readers share the reader; every byte goes to exactly one of them.
func CancelMany() {
	d := &device{release: make(chan struct{}), steps: []step{{[]byte("a"), nil}, {[]byte("b"), nil}, {[]byte("c"), nil}}}
	c := readline.NewCancelableStdin(d)
	out := make(chan string, 8)
	for k := 0; k < 2; k++ {
		go func() {
			for {
				p := make([]byte, 2)
				n, err := c.Read(p)
				if err != nil {
					out <- "$"
					return
				}
				out <- string(p[:n])
			}
		}()
	}
	got := ""
	for i := 0; i < 3; i++ {
		got += <-out
	}
	vrt.Settle()
	c.Close()
	for i := 0; i < 2; i++ {
		vrt.Assert(<-out == "$", "each reader is released")
	}
	vrt.Assert(len(got) == 3 && sub(got, "a") == "a" && sub(got, "b") == "b" && sub(got, "c") == "c", "each byte once")
	vrt.Reach("done")
}

// Nested: the default arrangement, prefillable over cancelable: closing it releases the reader.
func Nested() {
	d := &device{release: make(chan struct{})}
	r, w := readline.NewFillableStdin(readline.NewCancelableStdin(d))
	w.Write([]byte("x"))
	p := make([]byte, 4)
	n, err := r.Read(p)
	vrt.Assert(n == 1 && err == nil && p[0] == 'x', "prefilled data")
	done := make(chan error)
	go func() {
		_, err := r.Read(make([]byte, 4))
		done <- err
	}()
	if vrt.Choose("pending", 2) == 1 {
		vrt.Settle()
	}
	r.Close()
	vrt.Assert(<-done == io.EOF, "the pending read returns io.EOF")
	vrt.Reach("done")
}
