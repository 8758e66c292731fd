// Package model holds Go models of library functions that the engine executes in place of the
// originals (formatting, reflection based encoding, assembly, timers). It is never run natively.
package model

import (
	"encoding/binary"
	"errors"
	"io"
	"os"
	"sync"
	"time"
	"unicode/utf8"
)

// RuntimeError is the dynamic type of run-time panics.
type RuntimeError struct{ S string }

func (e RuntimeError) Error() string { return e.S }
func (e RuntimeError) RuntimeError() {}

// helpers implemented by the engine
func intSize(v interface{}) int                   { panic("engine") }
func intStore(p interface{}, v uint64)            { panic("engine") }
func intLoad(p interface{}) uint64                { panic("engine") }
func fmtScalar(verb string, v interface{}) string { panic("engine") }
func runeArg(v interface{}) (rune, bool)          { panic("engine") }
func strArg(v interface{}) (string, bool)         { panic("engine") }
func sliceLen(v interface{}) int                  { panic("engine") }
func sliceSwap(v interface{}, i, j int)           { panic("engine") }
func condBlock(c *sync.Cond)                      { panic("engine") }
func condWake(c *sync.Cond, all bool)             { panic("engine") }

// ---- fmt ----

type stringer interface{ String() string }

func one(verb string, c byte, v interface{}) string {
	switch c {
	case 'c':
		if r, ok := runeArg(v); ok {
			return string(r)
		}
	case 's', 'v':
		if e, ok := v.(error); ok {
			return e.Error()
		}
		if e, ok := v.(stringer); ok {
			return e.String()
		}
		if s, ok := strArg(v); ok {
			if len(verb) == 2 {
				return s
			}
		}
	}
	return fmtScalar(verb, v)
}

func Sprintf(format string, a ...interface{}) string {
	out := ""
	k := 0
	for i := 0; i < len(format); {
		j := i
		for j < len(format) && format[j] != '%' {
			j++
		}
		out += format[i:j]
		if j >= len(format) {
			break
		}
		e := j + 1
		for e < len(format) && (format[e] == '+' || format[e] == '-' || format[e] == '#' || format[e] == ' ' || format[e] == '.' || (format[e] >= '0' && format[e] <= '9')) {
			e++
		}
		if e >= len(format) {
			out += "%!(NOVERB)"
			break
		}
		if format[e] == '%' {
			out += "%"
			i = e + 1
			continue
		}
		if k >= len(a) {
			out += "%!" + format[e:e+1] + "(MISSING)"
		} else {
			out += one(format[j:e+1], format[e], a[k])
			k++
		}
		i = e + 1
	}
	return out
}

func Sprint(a ...interface{}) string {
	out := ""
	for i, v := range a {
		if i > 0 {
			_, s1 := a[i-1].(string)
			_, s2 := v.(string)
			if !s1 && !s2 {
				out += " "
			}
		}
		out += one("%v", 'v', v)
	}
	return out
}

func Sprintln(a ...interface{}) string {
	out := ""
	for i, v := range a {
		if i > 0 {
			out += " "
		}
		out += one("%v", 'v', v)
	}
	return out + "\n"
}

func Fprintf(w io.Writer, format string, a ...interface{}) (int, error) {
	return w.Write([]byte(Sprintf(format, a...)))
}
func Fprint(w io.Writer, a ...interface{}) (int, error)   { return w.Write([]byte(Sprint(a...))) }
func Fprintln(w io.Writer, a ...interface{}) (int, error) { return w.Write([]byte(Sprintln(a...))) }
func Printf(format string, a ...interface{}) (int, error) {
	return len(Sprintf(format, a...)), nil
}
func Print(a ...interface{}) (int, error)   { return len(Sprint(a...)), nil }
func Println(a ...interface{}) (int, error) { return len(Sprintln(a...)), nil }

type fmtError struct {
	s   string
	err error
}

func (e *fmtError) Error() string { return e.s }
func (e *fmtError) Unwrap() error { return e.err }

func Errorf(format string, a ...interface{}) error {
	e := &fmtError{s: Sprintf(format, a...)}
	for _, v := range a {
		if x, ok := v.(error); ok {
			e.err = x
		}
	}
	return e
}

func Appendf(b []byte, format string, a ...interface{}) []byte {
	return append(b, Sprintf(format, a...)...)
}

// ---- encoding/binary ----

func BinRead(r io.Reader, order binary.ByteOrder, data interface{}) error {
	n := intSize(data)
	if n < 0 {
		panic("model: binary.Read of this type")
	}
	bs := make([]byte, n)
	if _, err := io.ReadFull(r, bs); err != nil {
		return err
	}
	switch n {
	case 1:
		intStore(data, uint64(bs[0]))
	case 2:
		intStore(data, uint64(order.Uint16(bs)))
	case 4:
		intStore(data, uint64(order.Uint32(bs)))
	default:
		intStore(data, order.Uint64(bs))
	}
	return nil
}

func BinWrite(w io.Writer, order binary.ByteOrder, data interface{}) error {
	n := intSize(data)
	if n < 0 {
		panic("model: binary.Write of this type")
	}
	bs := make([]byte, n)
	v := intLoad(data)
	switch n {
	case 1:
		bs[0] = byte(v)
	case 2:
		order.PutUint16(bs, uint16(v))
	case 4:
		order.PutUint32(bs, uint32(v))
	default:
		order.PutUint64(bs, v)
	}
	_, err := w.Write(bs)
	return err
}

// ---- errors ----

func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		err = errors.Unwrap(err)
	}
	return target == nil
}

// ---- bytes and strings ----

func IndexByte(b []byte, c byte) int {
	for i := range b {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func IndexByteString(s string, c byte) int { return IndexByte([]byte(s), c) }

func LastIndexByte(b []byte, c byte) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func CountByte(b []byte, c byte) int {
	n := 0
	for i := range b {
		if b[i] == c {
			n++
		}
	}
	return n
}

func CountByteString(s string, c byte) int { return CountByte([]byte(s), c) }

func CompareBytes(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	switch {
	case len(a) < len(b):
		return -1
	case len(a) > len(b):
		return 1
	}
	return 0
}

func CompareString(a, b string) int { return CompareBytes([]byte(a), []byte(b)) }

func IndexBytes(s, sep []byte) int {
	for i := 0; i+len(sep) <= len(s); i++ {
		ok := true
		for j := range sep {
			if s[i+j] != sep[j] {
				ok = false
				break
			}
		}
		if ok {
			return i
		}
	}
	return -1
}

func IndexString(s, sep string) int { return IndexBytes([]byte(s), []byte(sep)) }

func FullRune(p []byte) bool {
	if len(p) == 0 {
		return false
	}
	c := p[0]
	need := 1
	lo, hi := byte(0x80), byte(0xBF)
	switch {
	case c >= 0xC2 && c <= 0xDF:
		need = 2
	case c >= 0xE0 && c <= 0xEF:
		need = 3
		if c == 0xE0 {
			lo = 0xA0
		} else if c == 0xED {
			hi = 0x9F
		}
	case c >= 0xF0 && c <= 0xF4:
		need = 4
		if c == 0xF0 {
			lo = 0x90
		} else if c == 0xF4 {
			hi = 0x8F
		}
	}
	if len(p) >= need {
		return true
	}
	if len(p) > 1 && (p[1] < lo || p[1] > hi) {
		return true
	}
	if len(p) > 2 && (p[2] < 0x80 || p[2] > 0xBF) {
		return true
	}
	return false
}

func FullRuneInString(s string) bool { return FullRune([]byte(s)) }

func RuneCountInString(s string) int {
	n := 0
	for range s {
		n++
	}
	return n
}

func RuneCount(b []byte) int { return RuneCountInString(string(b)) }

func ValidString(s string) bool {
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n <= 1 {
			return false
		}
		i += n
	}
	return true
}

func Valid(b []byte) bool { return ValidString(string(b)) }

// ---- time ----

type timer struct {
	gen     int
	stopped bool
	c       chan time.Time
	f       func()
}

var timers = map[*time.Timer]*timer{}
var tickers = map[*time.Ticker]*timer{}

func (t *timer) start(d time.Duration) {
	t.gen++
	t.stopped = false
	g := t.gen
	go func() {
		time.Sleep(d)
		if t.stopped || t.gen != g {
			return
		}
		t.stopped = true
		if t.f != nil {
			t.f()
			return
		}
		select {
		case t.c <- time.Now():
		default:
		}
	}()
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func NewTimer(d time.Duration) *time.Timer {
	t := &timer{c: make(chan time.Time, 1)}
	r := &time.Timer{C: t.c}
	timers[r] = t
	t.start(d)
	return r
}

func AfterFunc(d time.Duration, f func()) *time.Timer {
	t := &timer{f: f}
	r := &time.Timer{}
	timers[r] = t
	t.start(d)
	return r
}

func TimerStop(r *time.Timer) bool {
	t := timers[r]
	was := !t.stopped
	t.stopped = true
	return was
}

func TimerReset(r *time.Timer, d time.Duration) bool {
	t := timers[r]
	was := !t.stopped
	t.start(d)
	return was
}

func NewTicker(d time.Duration) *time.Ticker {
	t := &timer{c: make(chan time.Time, 1)}
	r := &time.Ticker{C: t.c}
	tickers[r] = t
	go func() {
		for !t.stopped {
			time.Sleep(d)
			select {
			case t.c <- time.Now():
			default:
			}
		}
	}()
	return r
}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

func TickerStop(r *time.Ticker) { tickers[r].stopped = true }

// ---- sync ----

func PoolGet(p *sync.Pool) interface{} {
	if p.New != nil {
		return p.New()
	}
	return nil
}

func PoolPut(p *sync.Pool, x interface{}) {}

func CondWait(c *sync.Cond) {
	c.L.Unlock()
	condBlock(c)
	c.L.Lock()
}

func CondSignal(c *sync.Cond)    { condWake(c, false) }
func CondBroadcast(c *sync.Cond) { condWake(c, true) }

// ---- sort ----

func SortSlice(x interface{}, less func(i, j int) bool) {
	n := sliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			sliceSwap(x, j, j-1)
		}
	}
}

// ---- os, syscall ----

func NewFile(fd uintptr, name string) *os.File          { return new(os.File) }
func FileWrite(f *os.File, b []byte) (int, error)       { return len(b), nil }
func FileWriteString(f *os.File, s string) (int, error) { return len(s), nil }
func FileRead(f *os.File, b []byte) (int, error)        { return 0, io.EOF }
func FileClose(f *os.File) error                        { return nil }
