package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"
)

type intrinsicFn func(st *State, g *G, fi *fnInfo, args []Val, dst int)

var intrinsics map[string]intrinsicFn

// redirect maps library functions to Go models in the harness module (also executed symbolically).
var redirect = map[string]string{
	"fmt.Sprintf":  "Sprintf",
	"fmt.Sprint":   "Sprint",
	"fmt.Sprintln": "Sprintln",
	"fmt.Fprintf":  "Fprintf",
	"fmt.Fprint":   "Fprint",
	"fmt.Fprintln": "Fprintln",
	"fmt.Printf":   "Printf",
	"fmt.Print":    "Print",
	"fmt.Println":  "Println",
	"fmt.Errorf":   "Errorf",
	"fmt.Appendf":  "Appendf",

	"encoding/binary.Read":  "BinRead",
	"encoding/binary.Write": "BinWrite",

	"errors.Is": "ErrorsIs",

	"internal/bytealg.IndexByte":       "IndexByte",
	"internal/bytealg.IndexByteString": "IndexByteString",
	"internal/bytealg.LastIndexByte":   "LastIndexByte",
	"internal/bytealg.Count":           "CountByte",
	"internal/bytealg.CountString":     "CountByteString",
	"internal/bytealg.Compare":         "CompareBytes",
	"internal/bytealg.CompareString":   "CompareString",
	"internal/bytealg.Index":           "IndexBytes",
	"internal/bytealg.IndexString":     "IndexString",
	"strings.Index":                    "IndexString",
	"bytes.Index":                      "IndexBytes",
	"unicode/utf8.FullRune":            "FullRune",
	"unicode/utf8.FullRuneInString":    "FullRuneInString",
	"unicode/utf8.RuneCount":           "RuneCount",
	"unicode/utf8.RuneCountInString":   "RuneCountInString",
	"unicode/utf8.Valid":               "Valid",
	"unicode/utf8.ValidString":         "ValidString",
	"time.After":                       "After",
	"time.NewTimer":                    "NewTimer",
	"time.NewTicker":                   "NewTicker",
	"time.Tick":                        "Tick",
	"time.AfterFunc":                   "AfterFunc",
	"(*time.Timer).Stop":               "TimerStop",
	"(*time.Timer).Reset":              "TimerReset",
	"(*time.Ticker).Stop":              "TickerStop",
	"(*sync.Pool).Get":                 "PoolGet",
	"(*sync.Pool).Put":                 "PoolPut",
	"(*sync.Cond).Wait":                "CondWait",
	"(*sync.Cond).Signal":              "CondSignal",
	"(*sync.Cond).Broadcast":           "CondBroadcast",
	"sort.Slice":                       "SortSlice",
	"sort.SliceStable":                 "SortSlice",
	"os.NewFile":                       "NewFile",
	"(*os.File).Write":                 "FileWrite",
	"(*os.File).WriteString":           "FileWriteString",
	"(*os.File).Read":                  "FileRead",
	"(*os.File).Close":                 "FileClose",
	"(*sync.RWMutex).RLocker":          "",
}

func lookupIntrinsic(name string) intrinsicFn {
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if strings.HasPrefix(name, "sync/atomic.") {
		if f := atomicIntrinsic(name[len("sync/atomic."):]); f != nil {
			return f
		}
	}
	if m, ok := redirect[name]; ok && m != "" {
		return func(st *State, g *G, fi *fnInfo, args []Val, dst int) {
			if st.p.model == nil {
				st.unsupported("no model package for %s", name)
			}
			f := st.p.model.Func(m)
			if f == nil {
				st.unsupported("no model for %s", name)
			}
			st.pushCall(g, st.p.fnInfo(f), args, nil, dst)
		}
	}
	return nil
}

func nop(st *State, g *G, fi *fnInfo, args []Val, dst int) { st.ret(g, dst, st.zeroResult(fi)) }

func skipInit(path string) bool {
	switch path {
	case "runtime", "reflect", "internal/cpu", "internal/abi", "internal/godebug", "internal/godebugs", "net", "os/signal", "testing", "crypto/internal/fips140", "encoding/json", "encoding/json/v2", "encoding/json/jsontext":
		return true
	}
	return strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "internal/runtime") || strings.HasPrefix(path, "internal/poll") || strings.HasPrefix(path, "vendor/") || strings.HasPrefix(path, "crypto/")
}

func (st *State) initTolerate(g *G, msg string) {
	st.ex.note(&st.ex.unsupMsgs, msg)
	for len(g.frames) > 0 {
		f := g.frames[len(g.frames)-1]
		if f.fi.isInit {
			return
		}
		g.frames = g.frames[:len(g.frames)-1]
	}
	g.done = true
}

func (st *State) goStr(v Val) string { return st.concString(v) }

// reexec makes the current call instruction run again when the goroutine is rescheduled.
func (st *State) reexec(g *G) { g.frames[len(g.frames)-1].pc-- }

func atomicIntrinsic(n string) intrinsicFn {
	type h struct {
		pre string
		f   func(st *State, g *G, w uint8, args []Val) Val
	}
	ld := func(st *State, v Val) Val {
		o, off := st.ptr(v)
		return st.rd(o)[off]
	}
	sv := func(st *State, v, x Val) {
		o, off := st.ptr(v)
		st.wr(o)[off] = x
	}
	hs := []h{
		{"Load", func(st *State, g *G, w uint8, a []Val) Val { return ld(st, a[0]) }},
		{"Store", func(st *State, g *G, w uint8, a []Val) Val { sv(st, a[0], a[1]); return Val{} }},
		{"Swap", func(st *State, g *G, w uint8, a []Val) Val { o := ld(st, a[0]); sv(st, a[0], a[1]); return o }},
		{"Add", func(st *State, g *G, w uint8, a []Val) Val {
			o := ld(st, a[0])
			var r Val
			if o.p == nil && a[1].p == nil {
				r = Val{n: (o.n + a[1].n) & mask(w)}
			} else {
				r = tval(st.tt.Bin(OAdd, st.term(o, w), st.term(a[1], w)))
			}
			sv(st, a[0], r)
			return r
		}},
		{"CompareAndSwap", func(st *State, g *G, w uint8, a []Val) Val {
			o := ld(st, a[0])
			eq := false
			if w == 0 {
				eq = o.p == a[1].p && o.n == a[1].n
			} else if o.p == nil && a[1].p == nil {
				eq = o.n == a[1].n
			} else {
				eq = st.branch(st.tt.Eq(st.term(o, w), st.term(a[1], w)))
			}
			if eq {
				sv(st, a[0], a[2])
			}
			return cbool(eq)
		}},
		{"And", nil}, {"Or", nil},
	}
	for _, x := range hs {
		if strings.HasPrefix(n, x.pre) && x.f != nil {
			rest := n[len(x.pre):]
			w := uint8(255)
			switch rest {
			case "Int32", "Uint32":
				w = 32
			case "Int64", "Uint64", "Uintptr":
				w = 64
			case "Pointer":
				w = 0
			}
			if w == 255 {
				return nil
			}
			f := x.f
			return func(st *State, g *G, fi *fnInfo, args []Val, dst int) { st.ret(g, dst, f(st, g, w, args)) }
		}
	}
	return nil
}

// ---- unicode classes as ranges ----

type rng struct{ lo, hi uint32 }

var classCache sync.Map

func rangesOf(name string, f func(rune) bool) []rng {
	if v, ok := classCache.Load(name); ok {
		return v.([]rng)
	}
	var out []rng
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if f(r) {
			if n := len(out); n > 0 && out[n-1].hi == uint32(r)-1 {
				out[n-1].hi = uint32(r)
			} else {
				out = append(out, rng{uint32(r), uint32(r)})
			}
		}
	}
	classCache.Store(name, out)
	return out
}

func inRanges(rs []rng, r uint32) bool {
	lo, hi := 0, len(rs)
	for lo < hi {
		m := (lo + hi) / 2
		if r < rs[m].lo {
			hi = m
		} else if r > rs[m].hi {
			lo = m + 1
		} else {
			return true
		}
	}
	return false
}

func (st *State) inClass(v Val, rs []rng) Val {
	t, ok := v.p.(*Term)
	if !ok {
		return cbool(inRanges(rs, uint32(v.n)))
	}
	return tval(st.rangeTerm(t, rs))
}

// rangeTerm: t in the union of ranges, as a binary decision tree over thresholds.
func (st *State) rangeTerm(t *Term, rs []rng) *Term {
	tt := st.tt
	k := func(x uint32) *Term { return tt.Const(uint64(x), 32) }
	var sel []rng
	for _, r := range rs {
		if uint64(r.hi) < t.umin || uint64(r.lo) > t.umax {
			continue
		}
		sel = append(sel, r)
	}
	if len(sel) == 0 {
		return tt.Bool(false)
	}
	one := func(r rng) *Term {
		c := tt.Bool(true)
		if uint64(r.lo) > t.umin {
			c = tt.Cmp(OUle, k(r.lo), t)
		}
		if uint64(r.hi) < t.umax {
			c = tt.And(c, tt.Cmp(OUle, t, k(r.hi)))
		}
		return c
	}
	var build func(a, b int) *Term
	build = func(a, b int) *Term {
		if a == b {
			return one(sel[a])
		}
		if b-a < 3 {
			c := one(sel[a])
			for i := a + 1; i <= b; i++ {
				c = tt.Or(c, one(sel[i]))
			}
			return c
		}
		m := (a + b) / 2
		return tt.Ite(tt.Cmp(OUle, t, k(sel[m].hi)), build(a, m), build(m+1, b))
	}
	return build(0, len(sel)-1)
}

// tableRanges reads a *unicode.RangeTable from the heap.
func (st *State) tableRanges(v Val) []rng {
	o, off := st.ptr(v)
	key := [2]any{o, off}
	if o.base {
		if r, ok := classCache.Load(key); ok {
			return r.([]rng)
		}
	}
	s := st.rd(o)
	set := map[uint32]bool{}
	var out []rng
	add := func(sv Val) {
		sl := st.sliceOf(sv)
		if sl.o == nil {
			return
		}
		e := st.rd(sl.o)
		for i := 0; i < sl.len; i++ {
			b := sl.off + i*3
			lo, hi, stride := uint32(e[b].n), uint32(e[b+1].n), uint32(e[b+2].n)
			if stride == 1 {
				if n := len(out); n > 0 && out[n-1].hi+1 == lo {
					out[n-1].hi = hi
				} else {
					out = append(out, rng{lo, hi})
				}
				continue
			}
			if stride == 0 {
				st.unsupported("range table stride 0")
			}
			for r := lo; r <= hi; r += stride {
				out = append(out, rng{r, r})
			}
		}
	}
	_ = set
	add(s[off])
	add(s[off+1])
	if o.base {
		classCache.Store(key, out)
	}
	return out
}

func mergeRanges(a, b []rng) []rng {
	var out []rng
	i, j := 0, 0
	push := func(r rng) {
		if n := len(out); n > 0 && r.lo <= out[n-1].hi+1 {
			if r.hi > out[n-1].hi {
				out[n-1].hi = r.hi
			}
			return
		}
		out = append(out, r)
	}
	for i < len(a) || j < len(b) {
		if j >= len(b) || (i < len(a) && a[i].lo < b[j].lo) {
			push(a[i])
			i++
		} else {
			push(b[j])
			j++
		}
	}
	return out
}

var mergedCache sync.Map

func (st *State) tablesRanges(sv Val) []rng {
	sl := st.sliceOf(sv)
	if sl.o == nil {
		return nil
	}
	e := st.rd(sl.o)
	key := [3]any{sl.o, sl.off, sl.len}
	_, over := st.over[sl.o]
	if sl.o.base && !over {
		if r, ok := mergedCache.Load(key); ok {
			return r.([]rng)
		}
	}
	var out []rng
	for i := 0; i < sl.len; i++ {
		out = mergeRanges(out, st.tableRanges(e[sl.off+i]))
	}
	if sl.o.base && !over {
		mergedCache.Store(key, out)
	}
	return out
}

type caseSeg struct {
	lo, hi uint32
	delta  int32
}

func caseSegs(name string, f func(rune) rune) []caseSeg {
	if v, ok := classCache.Load(name); ok {
		return v.([]caseSeg)
	}
	var out []caseSeg
	for r := rune(0); r <= unicode.MaxRune; r++ {
		d := int32(f(r) - r)
		if d == 0 {
			continue
		}
		if n := len(out); n > 0 && out[n-1].hi == uint32(r)-1 && out[n-1].delta == d {
			out[n-1].hi = uint32(r)
		} else {
			out = append(out, caseSeg{uint32(r), uint32(r), d})
		}
	}
	classCache.Store(name, out)
	return out
}

func (st *State) caseMap(v Val, name string, f func(rune) rune) Val {
	t, ok := v.p.(*Term)
	if !ok {
		return Val{n: uint64(uint32(f(rune(int32(v.n)))))}
	}
	tt := st.tt
	r := t
	for _, s := range caseSegs(name, f) {
		if uint64(s.hi) < t.umin || uint64(s.lo) > t.umax {
			continue
		}
		c := tt.And(tt.Cmp(OUle, tt.Const(uint64(s.lo), 32), t), tt.Cmp(OUle, t, tt.Const(uint64(s.hi), 32)))
		r = tt.Ite(c, tt.Bin(OAdd, t, tt.Const(uint64(uint32(s.delta)), 32)), r)
	}
	return tval(r)
}

// ---- observation formatting ----

func (st *State) obsString(t types.Type, v Val) string {
	if at, ok := t.Underlying().(*types.Array); ok {
		out, z := "[", nslots(at.Elem())
		fl := st.aggF(v, int(at.Len())*z)
		for i := 0; i < int(at.Len()); i++ {
			if i > 0 {
				out += " "
			}
			out += st.obsString(at.Elem(), get(fl, i*z, at.Elem()))
		}
		return out + "]"
	}
	ti := typeInfo(t)
	switch ti.k {
	case kBool:
		return fmt.Sprint(cval(v) != 0)
	case kInt:
		return fmt.Sprint(sext(cval(v), ti.w))
	case kUint:
		return fmt.Sprint(cval(v))
	case kFloat:
		return fmt.Sprint(math.Float64frombits(v.n))
	case kString:
		return fmt.Sprintf("%q", st.modelString(v))
	case kSlice:
		if v.p == nil {
			return "[]"
		}
		el := coreSlice(t).Elem()
		s := st.sliceOf(v)
		out := "["
		z := nslots(el)
		for i := 0; i < s.len; i++ {
			if i > 0 {
				out += " "
			}
			out += st.obsString(el, get(st.rd(s.o), s.off+i*z, el))
		}
		return out + "]"
	case kIface:
		i, _ := v.p.(*Iface)
		if i == nil {
			return "<nil>"
		}
		return st.obsString(i.t, i.v)
	}
	return "?" + t.String()
}

func (st *State) modelString(v Val) string {
	switch s := v.p.(type) {
	case nil:
		return ""
	case string:
		return s
	case *SymStr:
		var b []byte
		for _, x := range s.e {
			if s.isRunes {
				b = utf8.AppendRune(b, rune(int32(cval(x))))
			} else {
				b = append(b, byte(cval(x)))
			}
		}
		return string(b)
	}
	return "?"
}

func init() {
	intrinsics = map[string]intrinsicFn{}
	I := func(n string, f intrinsicFn) { intrinsics[n] = f }
	R := func(n string, f func(st *State, a []Val) Val) {
		intrinsics[n] = func(st *State, g *G, fi *fnInfo, args []Val, dst int) { st.ret(g, dst, f(st, args)) }
	}
	const V = "verif/harness/vrt."

	sint := func(v Val) int64 { return int64(v.n) }
	R(V+"Symbolic", func(st *State, a []Val) Val { return cbool(true) })
	R(V+"Int", func(st *State, a []Val) Val {
		return tval(st.newVar(st.goStr(a[0]), 64, true, sint(a[1]), sint(a[2])))
	})
	R(V+"Rune", func(st *State, a []Val) Val {
		return tval(st.newVar(st.goStr(a[0]), 32, true, sext(a[1].n, 32), sext(a[2].n, 32)))
	})
	R(V+"Byte", func(st *State, a []Val) Val {
		return tval(st.newVar(st.goStr(a[0]), 8, false, int64(a[1].n), int64(a[2].n)))
	})
	R(V+"Uint32", func(st *State, a []Val) Val {
		return tval(st.newVar(st.goStr(a[0]), 32, false, 0, 0xFFFFFFFF))
	})
	R(V+"Bool", func(st *State, a []Val) Val {
		return tval(st.newVar(st.goStr(a[0]), 0, false, 0, 1))
	})
	R(V+"Choose", func(st *State, a []Val) Val {
		n := int(sint(a[1]))
		return cint(st.choose(st.goStr(a[0]), n))
	})
	R(V+"Fix", func(st *State, a []Val) Val { return Val{n: st.concVal(a[0], "Fix")} })
	R(V+"FixRune", func(st *State, a []Val) Val { return Val{n: st.concVal(a[0], "Fix")} })
	R(V+"Assume", func(st *State, a []Val) Val { st.assume(st.term(a[0], 0)); return Val{} })
	R(V+"Assert", func(st *State, a []Val) Val {
		st.assert(st.term(a[0], 0), st.modelString(a[1]))
		return Val{}
	})
	R(V+"Reach", func(st *State, a []Val) Val { st.reach[st.goStr(a[0])] = true; return Val{} })
	R(V+"Observe", func(st *State, a []Val) Val {
		s := st.goStr(a[0]) + ":"
		sl := st.sliceOf(a[1])
		for i := 0; i < sl.len; i++ {
			v := st.rd(sl.o)[sl.off+i]
			it, _ := v.p.(*Iface)
			if it == nil {
				s += " <nil>"
			} else {
				s += " " + st.obsString(it.t, it.v)
			}
		}
		st.obs = append(st.obs, s)
		return Val{}
	})
	R(V+"And", func(st *State, a []Val) Val { return tval(st.tt.And(st.term(a[0], 0), st.term(a[1], 0))) })
	R(V+"Or", func(st *State, a []Val) Val { return tval(st.tt.Or(st.term(a[0], 0), st.term(a[1], 0))) })
	R(V+"IteInt", func(st *State, a []Val) Val {
		return tval(st.tt.Ite(st.term(a[0], 0), st.term(a[1], 64), st.term(a[2], 64)))
	})
	R(V+"IteRune", func(st *State, a []Val) Val {
		return tval(st.tt.Ite(st.term(a[0], 0), st.term(a[1], 32), st.term(a[2], 32)))
	})
	R(V+"IteByte", func(st *State, a []Val) Val {
		return tval(st.tt.Ite(st.term(a[0], 0), st.term(a[1], 8), st.term(a[2], 8)))
	})
	R(V+"Param", func(st *State, a []Val) Val {
		if v, ok := st.ex.params[st.goStr(a[0])]; ok {
			return cint(v)
		}
		return a[1]
	})
	R(V+"Preempt", func(st *State, a []Val) Val { st.budget = int(sint(a[0])); return Val{} })
	I(V+"Settle", func(st *State, g *G, fi *fnInfo, a []Val, dst int) {
		g.settle = true
		st.settleAt[g] = st.now + int64(40e6)
		g.wait = func() bool { return false }
		g.why = "Settle"
	})
	I(V+"Yield", func(st *State, g *G, fi *fnInfo, a []Val, dst int) { st.yieldPoint(g, st.goStr(a[0])) })
	alive := func(st *State) int {
		n := 0
		for _, g := range st.gs {
			if !g.done && !g.native {
				n++
			}
		}
		return n
	}
	R(V+"Goroutines", func(st *State, a []Val) Val { return cint(alive(st)) })
	R(V+"Left", func(st *State, a []Val) Val { return cint(alive(st) - int(int64(a[0].n))) })
	R(V+"Steps", func(st *State, a []Val) Val { return cint(int(st.steps)) })
	R(V+"Cut", func(st *State, a []Val) Val { st.end(endInfeasible, st.goStr(a[0])); return Val{} })

	// model helpers
	const M = "verif/harness/model."
	R(M+"intSize", func(st *State, a []Val) Val {
		i, _ := a[0].p.(*Iface)
		if i == nil {
			return Val{n: uint64(0xffffffffffffffff)}
		}
		t := i.t
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		ti := typeInfo(t)
		if ti.k == kInt || ti.k == kUint {
			return cint(int(ti.w / 8))
		}
		if ti.k == kBool {
			return cint(1)
		}
		return Val{n: uint64(0xffffffffffffffff)}
	})
	R(M+"intStore", func(st *State, a []Val) Val {
		i := a[0].p.(*Iface)
		el := i.t.Underlying().(*types.Pointer).Elem()
		ti := typeInfo(el)
		v := a[1]
		if ti.k == kBool {
			v = tval(st.tt.Not(st.tt.Eq(st.term(v, 64), st.tt.Const(0, 64))))
		} else {
			v = tval(st.tt.Resize(st.term(v, 64), ti.w, false))
		}
		st.store(i.v, el, v)
		return Val{}
	})
	R(M+"intLoad", func(st *State, a []Val) Val {
		i := a[0].p.(*Iface)
		t, v := i.t, i.v
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
			v = st.load(v, t)
		}
		ti := typeInfo(t)
		if ti.k == kBool {
			return tval(st.tt.Ite(st.term(v, 0), st.tt.Const(1, 64), st.tt.Const(0, 64)))
		}
		return tval(st.tt.Resize(st.term(v, ti.w), 64, ti.k == kInt))
	})
	R(M+"fmtScalar", func(st *State, a []Val) Val {
		verb := st.goStr(a[0])
		i, _ := a[1].p.(*Iface)
		if i == nil {
			return cstr("<nil>")
		}
		ti := typeInfo(i.t)
		switch ti.k {
		case kInt:
			x := sext(st.concVal(i.v, "fmt arg"), ti.w)
			if strings.HasSuffix(verb, "v") {
				verb = verb[:len(verb)-1] + "d"
			}
			return cstr(fmt.Sprintf(verb, x))
		case kUint:
			x := st.concVal(i.v, "fmt arg")
			if strings.HasSuffix(verb, "v") {
				verb = verb[:len(verb)-1] + "d"
			}
			return cstr(fmt.Sprintf(verb, x))
		case kBool:
			return cstr(fmt.Sprintf(verb, st.concVal(i.v, "fmt arg") != 0))
		case kString:
			return cstr(fmt.Sprintf(verb, st.concString(i.v)))
		case kFloat:
			return cstr(fmt.Sprintf(verb, math.Float64frombits(i.v.n)))
		}
		return cstr("(" + i.t.String() + ")")
	})
	R(M+"runeArg", func(st *State, a []Val) Val {
		i, _ := a[0].p.(*Iface)
		if i == nil {
			return Val{p: Tuple{Val{}, cbool(false)}}
		}
		ti := typeInfo(i.t)
		if ti.k != kInt && ti.k != kUint {
			return Val{p: Tuple{Val{}, cbool(false)}}
		}
		return Val{p: Tuple{st.convert(i.t, types.Typ[types.Int32], i.v), cbool(true)}}
	})
	R(M+"strArg", func(st *State, a []Val) Val { // string, []byte kinds
		i, _ := a[0].p.(*Iface)
		if i == nil {
			return Val{p: Tuple{Val{}, cbool(false)}}
		}
		switch typeInfo(i.t).k {
		case kString:
			return Val{p: Tuple{i.v, cbool(true)}}
		case kSlice:
			if typeInfo(coreSlice(i.t).Elem()).w == 8 {
				return Val{p: Tuple{st.bytesToString(i.v), cbool(true)}}
			}
		}
		return Val{p: Tuple{Val{}, cbool(false)}}
	})
	R(M+"sliceLen", func(st *State, a []Val) Val {
		return cint(st.sliceOf(a[0].p.(*Iface).v).len)
	})
	R(M+"sliceSwap", func(st *State, a []Val) Val {
		i := a[0].p.(*Iface)
		z := nslots(coreSlice(i.t).Elem())
		s := st.sliceOf(i.v)
		w := st.wr(s.o)
		x, y := s.off+int(a[1].n)*z, s.off+int(a[2].n)*z
		for k := 0; k < z; k++ {
			w[x+k], w[y+k] = w[y+k], w[x+k]
		}
		return Val{}
	})
	R(M+"condTicket", func(st *State, a []Val) Val { return Val{} })
	I(M+"condBlock", func(st *State, g *G, fi *fnInfo, a []Val, dst int) {
		o, off := st.ptr(a[0])
		k := wgKey{o, off}
		st.condq[k] = append(st.condq[k], g)
		st.block(g, "Cond.Wait")
	})
	R(M+"condWake", func(st *State, a []Val) Val {
		o, off := st.ptr(a[0])
		k := wgKey{o, off}
		q := st.condq[k]
		n := 1
		if a[1].n != 0 {
			n = len(q)
		}
		for i := 0; i < n && len(q) > 0; i++ {
			st.unblock(q[0])
			q = q[1:]
		}
		st.condq[k] = q
		return Val{}
	})
	R(M+"isNilFile", func(st *State, a []Val) Val { return cbool(a[0].p == nil) })

	// sync
	lock := func(kindR bool) intrinsicFn {
		return func(st *State, g *G, fi *fnInfo, a []Val, dst int) {
			o, off := st.ptr(a[0])
			free := func() bool { return st.rd(o)[off].n == 0 }
			if !free() {
				st.reexec(g)
				st.blockUntil(g, "Mutex.Lock at "+st.where(), free)
				return
			}
			st.wr(o)[off] = Val{n: 1}
		}
	}
	I("(*sync.Mutex).Lock", lock(false))
	R("(*sync.Mutex).TryLock", func(st *State, a []Val) Val {
		o, off := st.ptr(a[0])
		if st.rd(o)[off].n != 0 {
			return cbool(false)
		}
		st.wr(o)[off] = Val{n: 1}
		return cbool(true)
	})
	R("(*sync.Mutex).Unlock", func(st *State, a []Val) Val {
		o, off := st.ptr(a[0])
		if st.rd(o)[off].n == 0 {
			st.end(endPanic, "fatal error: sync: unlock of unlocked mutex @ "+st.where())
		}
		st.wr(o)[off] = Val{}
		return Val{}
	})
	I("(*sync.RWMutex).Lock", func(st *State, g *G, fi *fnInfo, a []Val, dst int) {
		o, off := st.ptr(a[0])
		free := func() bool { s := st.rd(o); return s[off].n == 0 && s[off+1].n == 0 }
		if !free() {
			st.reexec(g)
			st.blockUntil(g, "RWMutex.Lock at "+st.where(), free)
			return
		}
		st.wr(o)[off] = Val{n: 1}
	})
	R("(*sync.RWMutex).Unlock", func(st *State, a []Val) Val {
		o, off := st.ptr(a[0])
		if st.rd(o)[off].n == 0 {
			st.end(endPanic, "fatal error: sync: Unlock of unlocked RWMutex @ "+st.where())
		}
		st.wr(o)[off] = Val{}
		return Val{}
	})
	I("(*sync.RWMutex).RLock", func(st *State, g *G, fi *fnInfo, a []Val, dst int) {
		o, off := st.ptr(a[0])
		free := func() bool { return st.rd(o)[off].n == 0 }
		if !free() {
			st.reexec(g)
			st.blockUntil(g, "RWMutex.RLock at "+st.where(), free)
			return
		}
		s := st.wr(o)
		s[off+1] = Val{n: s[off+1].n + 1}
	})
	R("(*sync.RWMutex).RUnlock", func(st *State, a []Val) Val {
		o, off := st.ptr(a[0])
		s := st.wr(o)
		if s[off+1].n == 0 {
			st.end(endPanic, "fatal error: sync: RUnlock of unlocked RWMutex @ "+st.where())
		}
		s[off+1] = Val{n: s[off+1].n - 1}
		return Val{}
	})
	wgAdd := func(st *State, a Val, d int64) {
		o, off := st.ptr(a)
		s := st.wr(o)
		n := int64(s[off].n) + d
		if n < 0 {
			panic(goPanic{&panicRec{val: st.errIface("sync: negative WaitGroup counter"), msg: "sync: negative WaitGroup counter", where: st.where()}})
		}
		s[off] = Val{n: uint64(n)}
	}
	R("(*sync.WaitGroup).Add", func(st *State, a []Val) Val {
		wgAdd(st, a[0], int64(st.concVal(a[1], "wg")))
		return Val{}
	})
	R("(*sync.WaitGroup).Done", func(st *State, a []Val) Val { wgAdd(st, a[0], -1); return Val{} })
	I("(*sync.WaitGroup).Wait", func(st *State, g *G, fi *fnInfo, a []Val, dst int) {
		o, off := st.ptr(a[0])
		free := func() bool { return st.rd(o)[off].n == 0 }
		if !free() {
			st.blockUntil(g, "WaitGroup.Wait at "+st.where(), free)
		}
	})
	// atomic.Value
	R("(*sync/atomic.Value).Load", func(st *State, a []Val) Val {
		o, off := st.ptr(a[0])
		return st.rd(o)[off]
	})
	R("(*sync/atomic.Value).Store", func(st *State, a []Val) Val {
		o, off := st.ptr(a[0])
		st.wr(o)[off] = a[1]
		return Val{}
	})
	R("(*sync/atomic.Value).Swap", func(st *State, a []Val) Val {
		o, off := st.ptr(a[0])
		s := st.wr(o)
		old := s[off]
		s[off] = a[1]
		return old
	})

	// runtime, time
	I("runtime.Gosched", func(st *State, g *G, fi *fnInfo, a []Val, dst int) {
		st.resched = true
	})
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.LockOSThread", "runtime.UnlockOSThread",
		"os/signal.Notify", "os/signal.Stop", "os/signal.Ignore", "os/signal.Reset",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Enable", "internal/race.Disable",
		"internal/godebug.New", "(*internal/godebug.Setting).Value", "(*internal/godebug.Setting).IncNonDefault",
		"runtime/debug.SetGCPercent", "internal/testlog.Getenv", "internal/testlog.Open", "internal/testlog.Stat", "runtime.AddCleanup"} {
		intrinsics[n] = nop
	}
	I("time.Sleep", func(st *State, g *G, fi *fnInfo, a []Val, dst int) {
		d := int64(st.concVal(a[0], "sleep"))
		if d < 0 {
			d = 0
		}
		g.wakeAt = st.now + d + 1
		st.block(g, "time.Sleep")
	})
	R("time.Now", func(st *State, a []Val) Val {
		return Val{p: &Agg{[]Val{{n: uint64(st.now % 1e9)}, {n: uint64(st.now / 1e9)}, {}}}}
	})
	R("time.runtimeNano", func(st *State, a []Val) Val { return Val{n: uint64(st.now)} })
	R("internal/abi.NoEscape", func(st *State, a []Val) Val { return a[0] })
	R("internal/bytealg.MakeNoZero", func(st *State, a []Val) Val {
		n := int(st.concVal(a[0], "MakeNoZero"))
		return Val{p: &SliceV{o: st.newObj(n), len: n, cap: n}}
	})
	R("internal/bytealg.Equal", func(st *State, a []Val) Val {
		return tval(st.strEq(st.bytesToString(a[0]), st.bytesToString(a[1])))
	})
	R("bytes.Equal", func(st *State, a []Val) Val {
		return tval(st.strEq(st.bytesToString(a[0]), st.bytesToString(a[1])))
	})
	R("strconv.Itoa", func(st *State, a []Val) Val {
		return cstr(fmt.Sprint(int64(st.concVal(a[0], "Itoa"))))
	})
	rep := func(st *State, s []Val, n int64) []Val {
		if n < 0 {
			panic(goPanic{&panicRec{val: st.errIface("negative Repeat count"), msg: "negative Repeat count", where: st.where()}})
		}
		if n*int64(len(s)) > 1<<20 {
			st.end(endLimit, "Repeat too large")
		}
		out := make([]Val, 0, int(n)*len(s))
		for i := int64(0); i < n; i++ {
			out = append(out, s...)
		}
		return out
	}
	R("strings.Repeat", func(st *State, a []Val) Val {
		n := int64(st.concVal(a[1], "Repeat count"))
		if rs, ok := a[0].p.(*SymStr); ok && rs.isRunes {
			return st.mkRuneStr(rep(st, rs.e, n))
		}
		return st.mkStr(rep(st, st.strBytes(a[0]), n))
	})
	R("bytes.Repeat", func(st *State, a []Val) Val {
		n := int64(st.concVal(a[1], "Repeat count"))
		return st.mkSlice(rep(st, st.scalarElems(a[0]), n))
	})

	// unicode
	cls := map[string]func(rune) bool{
		"IsSpace": unicode.IsSpace, "IsNumber": unicode.IsNumber, "IsDigit": unicode.IsDigit, "IsLetter": unicode.IsLetter,
		"IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsControl": unicode.IsControl, "IsPrint": unicode.IsPrint,
		"IsGraphic": unicode.IsGraphic, "IsPunct": unicode.IsPunct, "IsMark": unicode.IsMark, "IsSymbol": unicode.IsSymbol, "IsTitle": unicode.IsTitle,
	}
	for n, f := range cls {
		n, f := n, f
		R("unicode."+n, func(st *State, a []Val) Val { return st.inClass(a[0], rangesOf(n, f)) })
	}
	R("unicode.Is", func(st *State, a []Val) Val { return st.inClass(a[1], st.tableRanges(a[0])) })
	R("unicode.IsOneOf", func(st *State, a []Val) Val { return st.inClass(a[1], st.tablesRanges(a[0])) })
	R("unicode.In", func(st *State, a []Val) Val { return st.inClass(a[0], st.tablesRanges(a[1])) })
	R("unicode.ToLower", func(st *State, a []Val) Val { return st.caseMap(a[0], "ToLower", unicode.ToLower) })
	R("unicode.ToUpper", func(st *State, a []Val) Val { return st.caseMap(a[0], "ToUpper", unicode.ToUpper) })
	R("unicode.SimpleFold", func(st *State, a []Val) Val { return st.caseMap(a[0], "SimpleFold", unicode.SimpleFold) })

	dec := func(st *State, b []Val) Val {
		r, n := st.decodeRune(b)
		return Val{p: Tuple{r, cint(n)}}
	}
	R("unicode/utf8.DecodeRune", func(st *State, a []Val) Val { return dec(st, st.scalarElems(a[0])) })
	R("unicode/utf8.DecodeRuneInString", func(st *State, a []Val) Val { return dec(st, st.strBytes(a[0])) })
	R("unicode/utf8.ValidRune", func(st *State, a []Val) Val {
		if t, ok := a[0].p.(*Term); ok {
			return tval(st.rangeTerm(t, []rng{{0, 0xD7FF}, {0xE000, 0x10FFFF}}))
		}
		return cbool(utf8.ValidRune(rune(int32(a[0].n))))
	})
	R("unicode/utf8.AppendRune", func(st *State, a []Val) Val {
		enc := st.appendUTF8(nil, a[1])
		return st.appendVals(a[0], enc)
	})
}

func (st *State) appendVals(sv Val, e []Val) Val {
	s := st.sliceOf(sv)
	n := s.len + len(e)
	if n <= s.cap {
		copy(st.wr(s.o)[s.off+s.len:], e)
		return Val{p: &SliceV{o: s.o, off: s.off, len: n, cap: s.cap}}
	}
	nc := growCap(s.cap, n, 1)
	o := st.newObj(nc)
	if s.len > 0 {
		copy(o.s, st.rd(s.o)[s.off:s.off+s.len])
	}
	copy(o.s[s.len:], e)
	return Val{p: &SliceV{o: o, len: n, cap: nc}}
}

// yieldPoint is a possible preemption: with budget left, the goroutine may be delayed here until all
// others have run as far as they can.
func (st *State) yieldPoint(g *G, site string) {
	n := st.yields[site]
	st.yields[site] = n + 1
	if st.budget <= 0 || st.initMode {
		return
	}
	others := false
	for _, o := range st.gs {
		if o != g && !o.done {
			others = true
			break
		}
	}
	if !others {
		return
	}
	key := fmt.Sprintf("%s#%d", site, n)
	if st.choose("sched@"+key, 2) == 1 {
		st.budget--
		st.delays = append(st.delays, key)
		st.delayed = append(st.delayed, g)
		st.block(g, "delayed at "+site)
	}
}
