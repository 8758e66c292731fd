// Package selftest exercises the engine's semantics; its paths are validated against the compiled code.
package selftest

import (
	"bufio"
	"bytes"
	"container/list"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"verif/harness/vrt"
)

// Funcs lists the harness functions.
var Funcs = map[string]func(){
	"Ints": Ints, "Strings": Strings, "Slices": Slices, "Control": Control, "Conc": Conc, "Lib": Lib, "Structs": Structs,
}

func Ints() {
	a := vrt.Byte("a", 0, 255)
	b := vrt.Byte("b", 0, 255)
	i8 := int8(a)
	vrt.Observe("conv", int(i8), uint16(a), int32(int8(b)), uint32(int32(i8)), a+b, a-b, a*3, a^b, a&b, a|b, a&^b, -i8, ^a)
	vrt.Observe("sh", a<<(b%12), int(i8)>>(b%9), uint16(a)<<7>>3)
	if b != 0 {
		vrt.Observe("div", a/b, a%b, int(i8)/int(b), int(i8)%int(b))
	}
	if a < b {
		vrt.Observe("lt", a)
	} else if i8 < int8(b) {
		vrt.Observe("slt", a)
	}
	x := uint32(a)<<24 | uint32(b)<<16 | 0x1234
	vrt.Observe("x", int32(x), x, int16(x), int64(int32(x)))
	var tab = [8]int{1, 4, 9, 16, 25, 36, 49, 64}
	vrt.Observe("tab", tab[a&7], tab[(a+b)&7])
	tab[b&7] = int(a)
	vrt.Observe("tab2", tab[a&7], tab)
	vrt.Assert(int(a)+int(b) <= 510, "sum")
	func() {
		defer func() {
			if e := recover(); e != nil {
				vrt.Observe("recovered", fmt.Sprint(e))
			}
		}()
		vrt.Observe("div0", 10/(int(a)-int(b)))
	}()
	switch {
	case a == 17:
		vrt.Observe("17")
	case a > 100 && b > 200:
		vrt.Observe("big")
	}
}

func Strings() {
	n := vrt.Choose("n", 5)
	bs := make([]byte, n)
	for i := range bs {
		bs[i] = vrt.Byte("b", 0, 255)
	}
	s := string(bs)
	vrt.Observe("s", s, len(s))
	cnt := 0
	for i, r := range s {
		vrt.Observe("r", i, r)
		cnt++
	}
	vrt.Assert(cnt == utf8.RuneCountInString(s), "count")
	rs := []rune(s)
	vrt.Observe("rs", rs, string(rs) == s, utf8.ValidString(s))
	vrt.Observe("valid", utf8.FullRune(bs))
	if n > 0 {
		r, sz := utf8.DecodeRune(bs)
		vrt.Observe("dec", r, sz)
		vrt.Observe("idx", s[n-1], s[:n-1])
	}
}

func Slices() {
	n := vrt.Int("n", 0, 4)
	s := make([]int, n, n+2)
	for i := range s {
		s[i] = i * 10
	}
	t := append(s, 7)
	u := append(s, 8)
	vrt.Observe("alias", len(t), t, u, cap(t), cap(s))
	t2 := append(t, 1, 2, 3, 4, 5, 6)
	t2[0] = 99
	vrt.Observe("grow", t, t2, cap(t2), len(t2))
	k := vrt.Int("k", 0, 6)
	func() {
		defer func() {
			if e := recover(); e != nil {
				vrt.Observe("rec")
			}
		}()
		w := t2[k:]
		copy(w, t2)
		vrt.Observe("copy", t2, w)
		copy(t2, t2[k:])
		vrt.Observe("copy2", t2)
		_ = s[k]
		vrt.Observe("in range", s[k])
		w = s[k:n]
		vrt.Observe("sl", w)
	}()
	var nilS []rune
	nilS = append(nilS, []rune("héy")...)
	vrt.Observe("nil", nilS, cap(nilS))
	for i := 0; i < 20; i++ {
		nilS = append(nilS, rune(i))
	}
	vrt.Observe("cap", cap(nilS), len(nilS))
	b := append([]byte("ab"), "cde"...)
	vrt.Observe("b", b, string(b))
	m := map[string]int{"a": 1}
	m["b"] += 2
	delete(m, "a")
	_, ok := m["a"]
	vrt.Observe("m", len(m), m["b"], ok)
	arr := [3][]int{{1}, {2, 3}}
	ar2 := arr
	ar2[0] = nil
	vrt.Observe("arr", arr[0], ar2[0], len(arr[1]))
}

type shape interface{ Area() int }
type sq struct{ w int }
type rc struct {
	sq
	h  int
	in struct{ a, b rune }
}

func (s sq) Area() int   { return s.w * s.w }
func (r *rc) Area() int  { return r.w * r.h }
func (s *sq) Grow(k int) { s.w += k }

func Structs() {
	w := vrt.Int("w", -3, 3)
	r := rc{sq: sq{w}, h: 5}
	r2 := r
	r2.Grow(2)
	r2.in.b = 'x'
	vrt.Observe("st", r.w, r2.w, r.in.b, r2.in.b, r == r2)
	var sh shape = r.sq
	vrt.Observe("area", sh.Area())
	sh = &r2
	vrt.Observe("area2", sh.Area())
	f := r2.Grow
	f(10)
	g := (*sq).Grow
	g(&r2.sq, 1)
	vrt.Observe("mv", r2.w, r2.sq.Area())
	switch x := sh.(type) {
	case sq:
		vrt.Observe("sq", x.w)
	case *rc:
		vrt.Observe("rc", x.h)
	}
	l := list.New()
	for i := 0; i < 3; i++ {
		l.PushBack(w + i)
	}
	l.MoveToFront(l.Back())
	for e := l.Front(); e != nil; e = e.Next() {
		vrt.Observe("e", e.Value)
	}
	pp := &r.in
	pp.a = 'q'
	vrt.Observe("in", r.in.a)
	arr := []sq{{1}, {2}}
	for _, a := range arr {
		a.Grow(1)
	}
	for i := range arr {
		arr[i].Grow(w)
	}
	vrt.Observe("arr", arr[0].w, arr[1].w)
	var np *rc
	func() {
		defer func() { vrt.Observe("nilrec", recover() != nil) }()
		np.h = 3
	}()
}

func deferOrder(k int) (res string) {
	defer func() {
		if e := recover(); e != nil {
			res += fmt.Sprintf("R%v", e)
		}
	}()
	for i := 0; i < k; i++ {
		defer func(i int) { res += strconv.Itoa(i) }(i)
	}
	if k == 2 {
		panic("two")
	}
	if k == 3 {
		defer panic("three")
		panic("first")
	}
	return "ok"
}

func Control() {
	k := vrt.Int("k", 0, 4)
	vrt.Observe("d", deferOrder(k))
	acc := 0
outer:
	for i := 0; i < 5; i++ {
		for j := 0; j < 5; j++ {
			if j == k {
				continue outer
			}
			if i == 3 {
				break outer
			}
			acc += i*10 + j
		}
	}
	vrt.Observe("acc", acc)
	fns := []func() int{}
	for i := 0; i < 3; i++ {
		i := i
		fns = append(fns, func() int { i += k; return i })
	}
	vrt.Observe("fn", fns[0](), fns[0](), fns[2]())
	switch k {
	case 0:
		acc++
		fallthrough
	case 1:
		acc += 100
	default:
		acc = -acc
	}
	vrt.Observe("sw", acc)
}

func Conc() {
	k := vrt.Int("k", 0, 3)
	ch := make(chan int)
	done := make(chan struct{})
	var mu sync.Mutex
	sum := 0
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for v := range ch {
				mu.Lock()
				sum += v
				mu.Unlock()
			}
		}(i)
	}
	go func() {
		for i := 0; i < 5; i++ {
			ch <- i * k
		}
		close(ch)
		close(done)
	}()
	<-done
	wg.Wait()
	vrt.Observe("sum", sum)
	vrt.Assert(sum == 10*k, "sum")
	b := make(chan int, 2)
	b <- 1
	select {
	case b <- 2:
	default:
		vrt.Observe("full")
	}
	select {
	case b <- 3:
		vrt.Observe("no")
	default:
		vrt.Observe("full")
	}
	v, ok := <-b
	vrt.Observe("b", v, ok, len(b), cap(b))
	r, w := io.Pipe()
	go func() {
		fmt.Fprintf(w, "hello %d\n", k)
		w.Close()
	}()
	line, err := bufio.NewReader(r).ReadString('\n')
	vrt.Observe("pipe", line, err == nil)
	var once sync.Once
	once.Do(func() { sum = 1 })
	once.Do(func() { sum = 2 })
	vrt.Observe("once", sum)
	cond := sync.NewCond(&mu)
	ready := false
	go func() { mu.Lock(); ready = true; cond.Signal(); mu.Unlock() }()
	mu.Lock()
	for !ready {
		cond.Wait()
	}
	mu.Unlock()
}

type slow struct{ s string }

func (s *slow) Read(p []byte) (int, error) {
	if s.s == "" {
		return 0, io.EOF
	}
	p[0] = s.s[0]
	s.s = s.s[1:]
	return 1, nil
}

var errX = errors.New("x")

func Lib() {
	r := vrt.Rune("r", 0, 0x10FFFF)
	vrt.Observe("cls", unicode.IsSpace(r), unicode.IsLetter(r), unicode.IsDigit(r), unicode.IsNumber(r), unicode.Is(unicode.Han, r), unicode.IsOneOf([]*unicode.RangeTable{unicode.Mn, unicode.Me}, r))
	vrt.Observe("case", unicode.ToLower(r), unicode.ToUpper(r))
	s := string(r)
	vrt.Observe("enc", s, len(s), utf8.RuneLen(r))
	buf := bytes.NewBuffer(nil)
	buf.WriteRune(r)
	buf.WriteString("-x ")
	vrt.Observe("buf", buf.String(), buf.Len())
	rd := bufio.NewReader(&slow{s: buf.String()})
	q, sz, err := rd.ReadRune()
	vrt.Observe("rr", q, sz, err == nil)
	vrt.Observe("ts", strings.TrimSpace(" a b \n"), strings.Split("a;b;;c", ";"), strings.Repeat("ab", 3), strings.Index("hello", "ll"), strings.HasPrefix("hello", "he"))
	n, err := strconv.Atoi("12x")
	vrt.Observe("atoi", n, err != nil)
	vrt.Observe("eof", fmt.Errorf("e %v", errX).Error(), errX == io.EOF, fmt.Sprintf("%c|%d|%s|%v|%03d", 'x', -5, "str", true, 7))
	var sb strings.Builder
	sb.WriteString("q")
	sb.WriteByte('z')
	vrt.Observe("sb", sb.String(), bytes.Equal([]byte("ab"), []byte("ab")), strings.ToUpper("abc"))
	vrt.Observe("fields", strings.Fields(" a  b c"), strings.TrimRight("xx\r\n", "\r\n"), strings.Contains("abc", "bc"))
}
