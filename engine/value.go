package main

import (
	"fmt"
	"go/types"
	"math"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Val is a runtime value. The zero Val is the zero value of every non-aggregate type and also of
// aggregates (nil p).
//
//	p == nil            concrete scalar n (ints masked to their width, bool 0/1, float64 bits) or nil/""
//	p == *Term          symbolic scalar
//	p == *Obj           pointer to slot n of the object
//	p == *SymPtr        pointer to a symbolically indexed element
//	p == *SliceV, string, *SymStr, *Iface, *Map, *Chan, *Closure, *Agg, Tuple, *MapIter
type Val struct {
	n uint64
	p any
}

type Tuple []Val

type Agg struct{ f []Val }

type Obj struct {
	s    []Val
	base bool
	id   int32
	note string
}

type SymPtr struct {
	o     *Obj
	base  int
	n     int
	elem  int
	idx   *Term // w bits, proven in range
	iType types.Type
}

type SliceV struct {
	o   *Obj
	off int // in slots
	len int // in elements
	cap int
}

type SymStr struct {
	isRunes bool
	e       []Val // bytes (8 bit) or runes (32 bit)
}

type Iface struct {
	t types.Type
	v Val
}

type Closure struct {
	fi     *fnInfo
	free   []Val
	native func(st *State, g *G, args []Val, dst int) // engine implemented
}

type mapEnt struct {
	k, v Val
	dead bool
}

type Map struct {
	m    map[any]int
	ents []mapEnt
	n    int
	base bool
}

type MapIter struct {
	m   *Map
	i   int
	str Val // string iteration
	pos int
	off Val
	isS bool
	rs  []Val
	rok bool
}

func (m *Map) clone() *Map {
	c := &Map{m: make(map[any]int, len(m.m)), ents: append([]mapEnt(nil), m.ents...), n: m.n}
	for k, v := range m.m {
		c.m[k] = v
	}
	return c
}

func cbool(b bool) Val {
	if b {
		return Val{n: 1}
	}
	return Val{}
}

func cint(n int) Val { return Val{n: uint64(n)} }

func cstr(s string) Val {
	if s == "" {
		return Val{}
	}
	return Val{p: s}
}

func cfloat(f float64) Val { return Val{n: math.Float64bits(f)} }

// ---- layout ----

var layoutCache sync.Map

type structLay struct {
	n    int
	offs []int
	sz   []int
}

func nslots(t types.Type) int {
	switch u := t.(type) {
	case *types.Basic, *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return 1
	case *types.Array:
		return int(u.Len()) * nslots(u.Elem())
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return structLayout(u).n
	case *types.Array:
		return int(u.Len()) * nslots(u.Elem())
	}
	return 1
}

func structLayout(s *types.Struct) *structLay {
	if l, ok := layoutCache.Load(s); ok {
		return l.(*structLay)
	}
	l := &structLay{}
	for i := 0; i < s.NumFields(); i++ {
		l.offs = append(l.offs, l.n)
		z := nslots(s.Field(i).Type())
		l.sz = append(l.sz, z)
		l.n += z
	}
	layoutCache.Store(s, l)
	return l
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

type kind uint8

const (
	kOther kind = iota
	kBool
	kInt
	kUint
	kFloat
	kString
	kPtr // pointer, unsafe.Pointer
	kSlice
	kMap
	kChan
	kFunc
	kIface
	kAgg
	kComplex
)

type tinfo struct {
	k kind
	w uint8
}

func typeInfo(t types.Type) tinfo {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return tinfo{kBool, 0}
		case types.Int, types.Int64, types.UntypedInt:
			return tinfo{kInt, 64}
		case types.Int8:
			return tinfo{kInt, 8}
		case types.Int16:
			return tinfo{kInt, 16}
		case types.Int32, types.UntypedRune:
			return tinfo{kInt, 32}
		case types.Uint, types.Uint64, types.Uintptr:
			return tinfo{kUint, 64}
		case types.Uint8:
			return tinfo{kUint, 8}
		case types.Uint16:
			return tinfo{kUint, 16}
		case types.Uint32:
			return tinfo{kUint, 32}
		case types.Float32:
			return tinfo{kFloat, 32}
		case types.Float64, types.UntypedFloat:
			return tinfo{kFloat, 64}
		case types.String, types.UntypedString:
			return tinfo{kString, 0}
		case types.UnsafePointer, types.UntypedNil:
			return tinfo{kPtr, 64}
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return tinfo{kComplex, 0}
		}
	case *types.Pointer:
		return tinfo{kPtr, 64}
	case *types.Slice:
		return tinfo{kSlice, 0}
	case *types.Map:
		return tinfo{kMap, 0}
	case *types.Chan:
		return tinfo{kChan, 0}
	case *types.Signature:
		return tinfo{kFunc, 0}
	case *types.Interface:
		return tinfo{kIface, 0}
	case *types.Struct, *types.Array:
		return tinfo{kAgg, 0}
	}
	return tinfo{kOther, 0}
}

// ---- terms from values ----

func (st *State) term(v Val, w uint8) *Term {
	if t, ok := v.p.(*Term); ok {
		return t
	}
	if v.p != nil {
		st.unsupported("term of %T", v.p)
	}
	return st.tt.Const(v.n, w)
}

func tval(t *Term) Val {
	if t.op == OConst {
		return Val{n: t.val}
	}
	return Val{p: t}
}

func isSym(v Val) bool {
	_, ok := v.p.(*Term)
	return ok
}

// cval is the concrete value under the path's model.
func cval(v Val) uint64 {
	if t, ok := v.p.(*Term); ok {
		return t.val
	}
	return v.n
}

// ---- memory ----

func (st *State) newObj(n int) *Obj {
	st.nobj++
	st.cells += int64(n)
	if st.cells > st.lim.maxCells {
		st.end(endLimit, "memory cell limit")
	}
	return &Obj{s: make([]Val, n), base: st.initMode, id: st.nobj}
}

func (st *State) rd(o *Obj) []Val {
	if o.base && !st.initMode {
		if s, ok := st.over[o]; ok {
			return s
		}
	}
	return o.s
}

func (st *State) wr(o *Obj) []Val {
	if o.base && !st.initMode {
		if s, ok := st.over[o]; ok {
			return s
		}
		c := make([]Val, len(o.s))
		copy(c, o.s)
		st.over[o] = c
		return c
	}
	return o.s
}

func (st *State) rmap(m *Map) *Map {
	if m.base && !st.initMode {
		if c, ok := st.overMap[m]; ok {
			return c
		}
	}
	return m
}

func (st *State) wmap(m *Map) *Map {
	if m.base && !st.initMode {
		if c, ok := st.overMap[m]; ok {
			return c
		}
		c := m.clone()
		st.overMap[m] = c
		return c
	}
	return m
}

func (st *State) ptr(v Val) (*Obj, int) {
	switch p := v.p.(type) {
	case *Obj:
		return p, int(v.n)
	case nil:
		if v.n != 0 {
			st.unsupported("dereference of integer pointer %#x", v.n)
		}
		st.rtPanic("invalid memory address or nil pointer dereference")
	case *SymPtr:
		i := int(st.concretize(p.idx, "index"))
		return p.o, p.base + i*p.elem
	}
	st.unsupported("pointer %T", v.p)
	return nil, 0
}

func (st *State) load(v Val, t types.Type) Val {
	if sp, ok := v.p.(*SymPtr); ok && sp.elem == 1 && !isAgg(t) {
		return st.symLoad(sp, t)
	}
	o, off := st.ptr(v)
	s := st.rd(o)
	if isAgg(t) {
		n := nslots(t)
		if off+n > len(s) {
			st.unsupported("load out of object (%d+%d > %d) as %v", off, n, len(s), t)
		}
		f := make([]Val, n)
		copy(f, s[off:off+n])
		return Val{p: &Agg{f}}
	}
	if off >= len(s) {
		st.unsupported("load out of object (%d >= %d) as %v", off, len(s), t)
	}
	r := s[off]
	if sl, ok := r.p.(*SliceV); ok {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return st.bytesToString(Val{p: sl})
		}
	}
	return r
}

func (st *State) symLoad(sp *SymPtr, t types.Type) Val {
	ti := typeInfo(t)
	s := st.rd(sp.o)
	if ti.k != kInt && ti.k != kUint && ti.k != kBool {
		o, off := st.ptr(Val{p: sp})
		return st.rd(o)[off]
	}
	return tval(st.selectTerm(sp.idx, sp.n, ti.w, func(i int) Val { return s[sp.base+i] }))
}

// selectTerm builds an if-then-else over index ranges with equal values.
func (st *State) selectTerm(idx *Term, n int, w uint8, get func(int) Val) *Term {
	tt := st.tt
	lo, hi := 0, n-1
	if idx.umin < uint64(n) {
		lo = int(idx.umin)
	}
	if idx.umax < uint64(n) {
		hi = int(idx.umax)
	}
	type run struct {
		end int
		t   *Term
	}
	var runs []run
	for i := lo; i <= hi; i++ {
		t := st.term(get(i), w)
		if len(runs) > 0 && runs[len(runs)-1].t == t {
			runs[len(runs)-1].end = i
			continue
		}
		runs = append(runs, run{i, t})
	}
	var build func(a, b int) *Term
	build = func(a, b int) *Term {
		if a == b {
			return runs[a].t
		}
		m := (a + b) / 2
		c := tt.Cmp(OUle, idx, tt.Const(uint64(runs[m].end), idx.w))
		return tt.Ite(c, build(a, m), build(m+1, b))
	}
	return build(0, len(runs)-1)
}

func (st *State) store(pv Val, t types.Type, v Val) {
	o, off := st.ptr(pv)
	s := st.wr(o)
	if isAgg(t) {
		n := nslots(t)
		if off+n > len(s) {
			st.unsupported("store out of object")
		}
		if v.p == nil {
			for i := 0; i < n; i++ {
				s[off+i] = Val{}
			}
			return
		}
		copy(s[off:off+n], v.p.(*Agg).f)
		return
	}
	if off >= len(s) {
		st.unsupported("store out of object as %v", t)
	}
	s[off] = v
}

// put stores v of type t at slot off of a raw slot array.
func put(s []Val, off int, t types.Type, v Val) {
	if isAgg(t) {
		n := nslots(t)
		if v.p == nil {
			for i := 0; i < n; i++ {
				s[off+i] = Val{}
			}
			return
		}
		copy(s[off:off+n], v.p.(*Agg).f)
		return
	}
	s[off] = v
}

func get(s []Val, off int, t types.Type) Val {
	if isAgg(t) {
		n := nslots(t)
		f := make([]Val, n)
		copy(f, s[off:off+n])
		return Val{p: &Agg{f}}
	}
	return s[off]
}

// ---- strings ----

// strBytes gives the bytes of a string value (forking on encoded lengths if it is a rune view).
func (st *State) strBytes(v Val) []Val {
	switch s := v.p.(type) {
	case nil:
		return nil
	case string:
		r := make([]Val, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = Val{n: uint64(s[i])}
		}
		return r
	case *SymStr:
		if !s.isRunes {
			return s.e
		}
		var out []Val
		for _, r := range s.e {
			out = st.appendUTF8(out, r)
		}
		return out
	}
	st.unsupported("string %T", v.p)
	return nil
}

func (st *State) mkStr(b []Val) Val {
	if len(b) == 0 {
		return Val{}
	}
	conc := true
	for _, x := range b {
		if x.p != nil {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i, x := range b {
			bs[i] = byte(x.n)
		}
		return Val{p: string(bs)}
	}
	return Val{p: &SymStr{e: b}}
}

// mkRuneStr builds string(runes); every element must already be a valid rune value.
func (st *State) mkRuneStr(r []Val) Val {
	if len(r) == 0 {
		return Val{}
	}
	conc := true
	for _, x := range r {
		if x.p != nil {
			conc = false
			break
		}
	}
	if conc {
		rs := make([]rune, len(r))
		for i, x := range r {
			rs[i] = rune(x.n)
		}
		return Val{p: string(rs)}
	}
	return Val{p: &SymStr{isRunes: true, e: r}}
}

// validRune maps invalid code points to U+FFFD without forking.
func (st *State) validRune(v Val) Val {
	if !isSym(v) {
		r := rune(int32(v.n))
		if !utf8.ValidRune(r) {
			r = utf8.RuneError
		}
		return Val{n: uint64(uint32(r))}
	}
	tt := st.tt
	t := v.p.(*Term)
	bad := tt.Or(tt.Cmp(OUlt, tt.Const(0x10FFFF, 32), t),
		tt.And(tt.Cmp(OUle, tt.Const(0xD800, 32), t), tt.Cmp(OUle, t, tt.Const(0xDFFF, 32))))
	return tval(tt.Ite(bad, tt.Const(0xFFFD, 32), t))
}

func (st *State) appendUTF8(out []Val, v Val) []Val {
	if !isSym(v) {
		var b [4]byte
		n := utf8.EncodeRune(b[:], rune(int32(v.n)))
		for i := 0; i < n; i++ {
			out = append(out, Val{n: uint64(b[i])})
		}
		return out
	}
	tt := st.tt
	t := st.validRune(v).p
	r, ok := t.(*Term)
	if !ok {
		return st.appendUTF8(out, st.validRune(v))
	}
	c := func(x uint64) *Term { return tt.Const(x, 32) }
	by := func(x *Term) Val { return tval(tt.Resize(x, 8, false)) }
	cont := func(sh uint64) Val {
		return by(tt.Bin(OOr, c(0x80), tt.Bin(OAnd, tt.Bin(OLShr, r, c(sh)), c(0x3F))))
	}
	if st.branch(tt.Cmp(OUle, r, c(0x7F))) {
		return append(out, by(r))
	}
	if st.branch(tt.Cmp(OUle, r, c(0x7FF))) {
		return append(out, by(tt.Bin(OOr, c(0xC0), tt.Bin(OLShr, r, c(6)))), cont(0))
	}
	if st.branch(tt.Cmp(OUle, r, c(0xFFFF))) {
		return append(out, by(tt.Bin(OOr, c(0xE0), tt.Bin(OLShr, r, c(12)))), cont(6), cont(0))
	}
	return append(out, by(tt.Bin(OOr, c(0xF0), tt.Bin(OLShr, r, c(18)))), cont(12), cont(6), cont(0))
}

// decodeRune decodes the first rune of b, forking on the encoding's shape.
func (st *State) decodeRune(b []Val) (Val, int) {
	if len(b) == 0 {
		return Val{n: utf8.RuneError}, 0
	}
	tt := st.tt
	allc := true
	lim := len(b)
	if lim > 4 {
		lim = 4
	}
	for _, x := range b[:lim] {
		if isSym(x) {
			allc = false
		}
	}
	if allc {
		var bs [4]byte
		for i := 0; i < lim; i++ {
			bs[i] = byte(b[i].n)
		}
		r, n := utf8.DecodeRune(bs[:lim])
		return Val{n: uint64(uint32(r))}, n
	}
	b8 := func(i int) *Term { return st.term(b[i], 8) }
	k := func(x uint64) *Term { return tt.Const(x, 8) }
	in := func(i int, lo, hi uint64) bool {
		return st.branch(tt.And(tt.Cmp(OUle, k(lo), b8(i)), tt.Cmp(OUle, b8(i), k(hi))))
	}
	bad := Val{n: utf8.RuneError}
	x := func(i int, m uint64, sh uint64) *Term {
		return tt.Bin(OShl, tt.Resize(tt.Bin(OAnd, b8(i), k(m)), 32, false), tt.Const(sh, 32))
	}
	if st.branch(tt.Cmp(OUle, b8(0), k(0x7F))) {
		return tval(tt.Resize(b8(0), 32, false)), 1
	}
	if in(0, 0xC2, 0xDF) {
		if len(b) < 2 || !in(1, 0x80, 0xBF) {
			return bad, 1
		}
		return tval(tt.Bin(OOr, x(0, 0x1F, 6), x(1, 0x3F, 0))), 2
	}
	if in(0, 0xE0, 0xEF) {
		if len(b) < 3 {
			return bad, 1
		}
		lo, hi := uint64(0x80), uint64(0xBF)
		if st.branch(tt.Eq(b8(0), k(0xE0))) {
			lo = 0xA0
		} else if st.branch(tt.Eq(b8(0), k(0xED))) {
			hi = 0x9F
		}
		if !in(1, lo, hi) || !in(2, 0x80, 0xBF) {
			return bad, 1
		}
		return tval(tt.Bin(OOr, tt.Bin(OOr, x(0, 0x0F, 12), x(1, 0x3F, 6)), x(2, 0x3F, 0))), 3
	}
	if in(0, 0xF0, 0xF4) {
		if len(b) < 4 {
			return bad, 1
		}
		lo, hi := uint64(0x80), uint64(0xBF)
		if st.branch(tt.Eq(b8(0), k(0xF0))) {
			lo = 0x90
		} else if st.branch(tt.Eq(b8(0), k(0xF4))) {
			hi = 0x8F
		}
		if !in(1, lo, hi) || !in(2, 0x80, 0xBF) || !in(3, 0x80, 0xBF) {
			return bad, 1
		}
		return tval(tt.Bin(OOr, tt.Bin(OOr, x(0, 0x07, 18), x(1, 0x3F, 12)), tt.Bin(OOr, x(2, 0x3F, 6), x(3, 0x3F, 0)))), 4
	}
	return bad, 1
}

// strRunes gives []rune(s).
func (st *State) strRunes(v Val) []Val {
	switch s := v.p.(type) {
	case nil:
		return nil
	case string:
		var out []Val
		for _, r := range s {
			out = append(out, Val{n: uint64(uint32(r))})
		}
		return out
	case *SymStr:
		if s.isRunes {
			return s.e
		}
		var out []Val
		b := s.e
		for len(b) > 0 {
			r, n := st.decodeRune(b)
			out = append(out, r)
			b = b[n:]
		}
		return out
	}
	st.unsupported("string %T", v.p)
	return nil
}

func (st *State) strLen(v Val) Val {
	switch s := v.p.(type) {
	case nil:
		return Val{}
	case string:
		return cint(len(s))
	case *SymStr:
		if !s.isRunes {
			return cint(len(s.e))
		}
		// sum of encoded lengths, as a term
		tt := st.tt
		sum := tt.Const(0, 64)
		for _, r := range s.e {
			t := st.term(r, 32)
			l := tt.Ite(tt.Cmp(OUle, t, tt.Const(0x7F, 32)), tt.Const(1, 64),
				tt.Ite(tt.Cmp(OUle, t, tt.Const(0x7FF, 32)), tt.Const(2, 64),
					tt.Ite(tt.Cmp(OUle, t, tt.Const(0xFFFF, 32)), tt.Const(3, 64), tt.Const(4, 64))))
			sum = tt.Bin(OAdd, sum, l)
		}
		return tval(sum)
	}
	st.unsupported("string %T", v.p)
	return Val{}
}

func (st *State) concat(a, b Val) Val {
	if a.p == nil {
		return b
	}
	if b.p == nil {
		return a
	}
	as, aok := a.p.(string)
	bs, bok := b.p.(string)
	if aok && bok {
		return Val{p: as + bs}
	}
	ra, oka := st.tryRunes(a)
	rb, okb := st.tryRunes(b)
	if oka && okb {
		return st.mkRuneStr(append(append(make([]Val, 0, len(ra)+len(rb)), ra...), rb...))
	}
	x, y := st.strBytes(a), st.strBytes(b)
	return st.mkStr(append(append(make([]Val, 0, len(x)+len(y)), x...), y...))
}

// tryRunes: rune sequence of a valid-UTF-8 string, without forking; only preferred when a rune view is involved.
func (st *State) tryRunes(v Val) ([]Val, bool) {
	switch s := v.p.(type) {
	case nil:
		return nil, true
	case string:
		if utf8.ValidString(s) {
			return st.strRunes(v), true
		}
	case *SymStr:
		if s.isRunes {
			return s.e, true
		}
	}
	return nil, false
}

func (st *State) strEq(a, b Val) *Term {
	tt := st.tt
	as, aok := a.p.(string)
	bs, bok := b.p.(string)
	if (aok || a.p == nil) && (bok || b.p == nil) {
		return tt.Bool(as == bs)
	}
	ra, oka := st.tryRunes(a)
	rb, okb := st.tryRunes(b)
	w := uint8(32)
	if !oka || !okb {
		ra, rb = st.strBytes(a), st.strBytes(b)
		w = 8
	}
	if len(ra) != len(rb) {
		return tt.Bool(false)
	}
	r := tt.Bool(true)
	for i := range ra {
		r = tt.And(r, tt.Eq(st.term(ra[i], w), st.term(rb[i], w)))
	}
	return r
}

// strLess: a < b lexicographically by bytes.
func (st *State) strLess(a, b Val) *Term {
	tt := st.tt
	as, aok := a.p.(string)
	bs, bok := b.p.(string)
	if (aok || a.p == nil) && (bok || b.p == nil) {
		return tt.Bool(as < bs)
	}
	ra, rb := st.strBytes(a), st.strBytes(b)
	n := len(ra)
	if len(rb) < n {
		n = len(rb)
	}
	r := tt.Bool(len(ra) < len(rb))
	for i := n - 1; i >= 0; i-- {
		x, y := st.term(ra[i], 8), st.term(rb[i], 8)
		r = tt.Ite(tt.Eq(x, y), r, tt.Cmp(OUlt, x, y))
	}
	return r
}

// concString forces a concrete string (forking over every feasible content).
func (st *State) concString(v Val) string {
	switch s := v.p.(type) {
	case nil:
		return ""
	case string:
		return s
	case *SymStr:
		b := st.strBytes(v)
		out := make([]byte, len(b))
		for i, x := range b {
			out[i] = byte(st.concVal(x, "string byte"))
		}
		return string(out)
	}
	st.unsupported("string %T", v.p)
	return ""
}

// ---- slices ----

func (st *State) sliceOf(v Val) *SliceV {
	if v.p == nil {
		return &SliceV{}
	}
	s, ok := v.p.(*SliceV)
	if !ok {
		st.unsupported("slice value %T", v.p)
	}
	return s
}

func (st *State) mkSlice(elems []Val) Val {
	o := st.newObj(len(elems))
	copy(o.s, elems)
	return Val{p: &SliceV{o: o, len: len(elems), cap: len(elems)}}
}

// scalarElems returns the element slots of a slice of one-slot elements.
func (st *State) scalarElems(v Val) []Val {
	s := st.sliceOf(v)
	if s.len == 0 {
		return nil
	}
	return st.rd(s.o)[s.off : s.off+s.len]
}

func (st *State) bytesToString(v Val) Val {
	e := st.scalarElems(v)
	return st.mkStr(append([]Val(nil), e...))
}

// ---- equality ----

func (st *State) eq(t types.Type, a, b Val) *Term {
	tt := st.tt
	ti := typeInfo(t)
	switch ti.k {
	case kBool, kInt, kUint:
		if _, ok := a.p.(*Obj); ok {
			return tt.Bool(a.p == b.p && a.n == b.n)
		}
		if a.p == nil && b.p == nil {
			return tt.Bool(a.n == b.n)
		}
		if _, ok := b.p.(*Obj); ok {
			return tt.Bool(false)
		}
		return tt.Eq(st.term(a, ti.w), st.term(b, ti.w))
	case kFloat:
		return tt.Bool(math.Float64frombits(a.n) == math.Float64frombits(b.n))
	case kString:
		return st.strEq(a, b)
	case kPtr:
		if sp, ok := a.p.(*SymPtr); ok {
			o, off := st.ptr(Val{p: sp})
			a = Val{p: o, n: uint64(off)}
		}
		if sp, ok := b.p.(*SymPtr); ok {
			o, off := st.ptr(Val{p: sp})
			b = Val{p: o, n: uint64(off)}
		}
		return tt.Bool(a.p == b.p && a.n == b.n)
	case kChan, kMap, kFunc, kSlice:
		return tt.Bool(a.p == b.p) // slices/maps/funcs only against nil
	case kIface:
		ia, _ := a.p.(*Iface)
		ib, _ := b.p.(*Iface)
		if ia == nil || ib == nil {
			return tt.Bool(ia == nil && ib == nil)
		}
		if !sameType(ia.t, ib.t) {
			return tt.Bool(false)
		}
		if !types.Comparable(ia.t) {
			st.rtPanic("comparing uncomparable type " + ia.t.String())
		}
		return st.eq(ia.t, ia.v, ib.v)
	case kAgg:
		r := tt.Bool(true)
		switch u := t.Underlying().(type) {
		case *types.Struct:
			l := structLayout(u)
			fa, fb := st.aggF(a, l.n), st.aggF(b, l.n)
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == "_" {
					continue
				}
				ft := u.Field(i).Type()
				r = tt.And(r, st.eq(ft, get(fa, l.offs[i], ft), get(fb, l.offs[i], ft)))
			}
		case *types.Array:
			n := nslots(t)
			fa, fb := st.aggF(a, n), st.aggF(b, n)
			z := nslots(u.Elem())
			for i := 0; i < int(u.Len()); i++ {
				r = tt.And(r, st.eq(u.Elem(), get(fa, i*z, u.Elem()), get(fb, i*z, u.Elem())))
			}
		}
		return r
	}
	st.unsupported("equality on %v", t)
	return nil
}

func (st *State) aggF(v Val, n int) []Val {
	if v.p == nil {
		return make([]Val, n)
	}
	return v.p.(*Agg).f
}

func sameType(a, b types.Type) bool {
	return a == b || types.Identical(a, b)
}

// mapKey canonicalises a key (concretizing symbolic parts).
func (st *State) mapKey(t types.Type, v Val) any {
	ti := typeInfo(t)
	switch ti.k {
	case kBool, kInt, kUint:
		if _, ok := v.p.(*Obj); ok {
			return v
		}
		return st.concVal(v, "map key")
	case kFloat:
		return math.Float64frombits(v.n)
	case kString:
		return st.concString(v)
	case kPtr, kChan:
		return Val{n: v.n, p: v.p}
	case kIface:
		i, _ := v.p.(*Iface)
		if i == nil {
			return nil
		}
		if !types.Comparable(i.t) {
			st.rtPanic("hash of unhashable type " + i.t.String())
		}
		return [2]any{typeKey(i.t), st.mapKey(i.t, i.v)}
	case kAgg:
		s := ""
		f := st.aggF(v, nslots(t))
		switch u := t.Underlying().(type) {
		case *types.Struct:
			l := structLayout(u)
			for i := 0; i < u.NumFields(); i++ {
				ft := u.Field(i).Type()
				s += fmt.Sprintf("%v|", st.mapKey(ft, get(f, l.offs[i], ft)))
			}
		case *types.Array:
			z := nslots(u.Elem())
			for i := 0; i < int(u.Len()); i++ {
				s += fmt.Sprintf("%v|", st.mapKey(u.Elem(), get(f, i*z, u.Elem())))
			}
		}
		return s
	}
	st.unsupported("map key of type %v", t)
	return nil
}

var typeKeys sync.Map

func typeKey(t types.Type) string {
	if s, ok := typeKeys.Load(t); ok {
		return s.(string)
	}
	s := types.TypeString(t, nil)
	typeKeys.Store(t, s)
	return s
}

func fnName(f *ssa.Function) string { return f.String() }
