package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Terms are hash-consed bit-vector / boolean expressions, private to one path execution.
// Every term carries its value under the path's model (concolic execution), so the direction of a
// branch is known without a query and the solver is only asked about the other direction.

type Op uint8

const (
	OVar Op = iota
	OConst
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	ONot
	ONeg
	OShl
	OLShr
	OAShr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
	OIte
	OZExt
	OSExt
	OTrunc
)

var opName = [...]string{"var", "const", "bvadd", "bvsub", "bvmul", "bvudiv", "bvsdiv", "bvurem", "bvsrem",
	"bvand", "bvor", "bvxor", "bvnot", "bvneg", "bvshl", "bvlshr", "bvashr", "=", "bvult", "bvule", "bvslt", "bvsle",
	"and", "or", "not", "ite", "zext", "sext", "trunc"}

// Term: w == 0 means Bool.
type Term struct {
	op      Op
	w       uint8
	id      int32
	a, b, c *Term
	val     uint64 // value under the path model; for OConst the constant
	umin    uint64 // unsigned bounds valid for every value allowed by the variables' declared ranges
	umax    uint64
	vars    []int32 // sorted variable indices
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c int64
}

type Terms struct {
	tab  map[termKey]*Term
	next int32
	vars []*VarInfo
}

type VarInfo struct {
	name   string
	w      uint8
	signed bool
	t      *Term
	lo, hi uint64 // declared unsigned range (for signed ranges not contiguous in unsigned: full)
	slo    int64  // signed range
	shi    int64
	ranged bool
	sched  bool
}

func newTerms() *Terms { return &Terms{tab: make(map[termKey]*Term, 256)} }

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (tt *Terms) Const(v uint64, w uint8) *Term {
	v &= mask(w)
	k := termKey{OConst, w, int64(v), 0, 0}
	if t := tt.tab[k]; t != nil {
		return t
	}
	t := &Term{op: OConst, w: w, val: v, umin: v, umax: v, id: tt.next}
	tt.next++
	tt.tab[k] = t
	return t
}

func (tt *Terms) Bool(b bool) *Term {
	if b {
		return tt.Const(1, 0)
	}
	return tt.Const(0, 0)
}

func (tt *Terms) NewVar(vi *VarInfo, val uint64) *Term {
	t := &Term{op: OVar, w: vi.w, val: val & mask(vi.w), id: tt.next, umin: vi.lo, umax: vi.hi}
	tt.next++
	t.vars = []int32{int32(len(tt.vars))}
	vi.t = t
	tt.vars = append(tt.vars, vi)
	return t
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset fast paths
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		case a[i] > b[j]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	return out
}

func tid(t *Term) int64 {
	if t == nil {
		return -1
	}
	return int64(t.id)
}

func (tt *Terms) mk(op Op, w uint8, a, b, c *Term) *Term {
	k := termKey{op, w, tid(a), tid(b), tid(c)}
	if t := tt.tab[k]; t != nil {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, id: tt.next}
	tt.next++
	if a != nil {
		t.vars = a.vars
	}
	if b != nil {
		t.vars = mergeVars(t.vars, b.vars)
	}
	if c != nil {
		t.vars = mergeVars(t.vars, c.vars)
	}
	var av, bv, cv uint64
	aw := uint8(0)
	if a != nil {
		av = a.val
		aw = a.w
	}
	if b != nil {
		bv = b.val
	}
	if c != nil {
		cv = c.val
	}
	t.val = evalOp(op, w, aw, av, bv, cv)
	t.bounds()
	tt.tab[k] = t
	if t.umin == t.umax {
		// value decided by declared ranges alone
		return tt.Const(t.umin, w)
	}
	return t
}

func evalOp(op Op, w, aw uint8, a, b, c uint64) uint64 {
	m := mask(w)
	bo := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		sa, sb := sext(a, w), sext(b, w)
		if sb == 0 {
			if sa < 0 {
				return 1
			}
			return m
		}
		if sb == -1 {
			return uint64(-sa) & m
		}
		return uint64(sa/sb) & m
	case OSRem:
		sa, sb := sext(a, w), sext(b, w)
		if sb == 0 {
			return a
		}
		if sb == -1 {
			return 0
		}
		return uint64(sa%sb) & m
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case ONot:
		return ^a & m
	case ONeg:
		return -a & m
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		s := sext(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(s>>b) & m
	case OEq:
		return bo(a == b)
	case OUlt:
		return bo(a < b)
	case OUle:
		return bo(a <= b)
	case OSlt:
		return bo(sext(a, aw) < sext(b, aw))
	case OSle:
		return bo(sext(a, aw) <= sext(b, aw))
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBNot:
		return a ^ 1
	case OIte:
		if a != 0 {
			return b
		}
		return c
	case OZExt:
		return a
	case OSExt:
		return uint64(sext(a, aw)) & m
	case OTrunc:
		return a & m
	}
	panic("evalOp")
}

func (t *Term) bounds() {
	m := mask(t.w)
	t.umin, t.umax = 0, m
	a, b, c := t.a, t.b, t.c
	switch t.op {
	case OAdd:
		s, carry := bits.Add64(a.umax, b.umax, 0)
		if carry == 0 && s <= m {
			t.umin, t.umax = a.umin+b.umin, s
		}
	case OSub:
		if a.umin >= b.umax {
			t.umin, t.umax = a.umin-b.umax, a.umax-b.umin
		}
	case OMul:
		hi, lo := bits.Mul64(a.umax, b.umax)
		if hi == 0 && lo <= m {
			t.umin, t.umax = a.umin*b.umin, lo
		}
	case OUDiv:
		if b.umin > 0 {
			t.umin, t.umax = a.umin/b.umax, a.umax/b.umin
		}
	case OURem:
		if b.umin > 0 {
			t.umax = b.umax - 1
			if a.umax < t.umax {
				t.umax = a.umax
			}
			if a.umax < b.umin {
				t.umin = a.umin
			}
		}
	case OAnd:
		t.umax = a.umax
		if b.umax < t.umax {
			t.umax = b.umax
		}
	case OOr, OXor:
		n := bits.Len64(a.umax | b.umax)
		if n < 64 {
			t.umax = (uint64(1) << n) - 1
		}
		if t.op == OOr {
			t.umin = a.umin
			if b.umin > t.umin {
				t.umin = b.umin
			}
		}
	case OLShr:
		if b.op == OConst {
			if b.val < 64 {
				t.umin, t.umax = a.umin>>b.val, a.umax>>b.val
			}
		} else {
			t.umax = a.umax
		}
	case OShl:
		if b.op == OConst && b.val < uint64(t.w) && a.umax <= m>>b.val {
			t.umin, t.umax = a.umin<<b.val, a.umax<<b.val
		}
	case OIte:
		t.umin, t.umax = b.umin, b.umax
		if c.umin < t.umin {
			t.umin = c.umin
		}
		if c.umax > t.umax {
			t.umax = c.umax
		}
	case OZExt:
		t.umin, t.umax = a.umin, a.umax
	case OSExt:
		if a.umax < uint64(1)<<(a.w-1) {
			t.umin, t.umax = a.umin, a.umax
		}
	case OTrunc:
		if a.umax <= m {
			t.umin, t.umax = a.umin, a.umax
		}
	case OEq:
		if a.umax < b.umin || b.umax < a.umin {
			t.umin, t.umax = 0, 0
		}
	case OUlt:
		if a.umax < b.umin {
			t.umin, t.umax = 1, 1
		} else if a.umin >= b.umax {
			t.umin, t.umax = 0, 0
		}
	case OUle:
		if a.umax <= b.umin {
			t.umin, t.umax = 1, 1
		} else if a.umin > b.umax {
			t.umin, t.umax = 0, 0
		}
	case OSlt, OSle:
		al, ah := a.sbounds()
		bl, bh := b.sbounds()
		if t.op == OSlt {
			if ah < bl {
				t.umin, t.umax = 1, 1
			} else if al >= bh {
				t.umin, t.umax = 0, 0
			}
		} else {
			if ah <= bl {
				t.umin, t.umax = 1, 1
			} else if al > bh {
				t.umin, t.umax = 0, 0
			}
		}
	}
}

func (t *Term) sbounds() (int64, int64) {
	half := uint64(1) << (t.w - 1)
	if t.umax < half {
		return int64(t.umin), int64(t.umax)
	}
	if t.umin >= half {
		return sext(t.umin, t.w), sext(t.umax, t.w)
	}
	return sext(half, t.w), int64(half - 1)
}

func (t *Term) isConst() bool { return t.op == OConst }

// ---- smart constructors ----

func (tt *Terms) Not(a *Term) *Term {
	if a.op == OConst {
		return tt.Const(a.val^1, 0)
	}
	if a.op == OBNot {
		return a.a
	}
	return tt.mk(OBNot, 0, a, nil, nil)
}

func (tt *Terms) And(a, b *Term) *Term {
	if a.op == OConst {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return tt.Bool(false)
	}
	return tt.mk(OBAnd, 0, a, b, nil)
}

func (tt *Terms) Or(a, b *Term) *Term {
	if a.op == OConst {
		if a.val == 1 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.val == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return tt.Bool(true)
	}
	return tt.mk(OBOr, 0, a, b, nil)
}

func (tt *Terms) Ite(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == OBNot {
		return tt.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.op == OConst {
			if a.val == 1 {
				return tt.Or(c, b)
			}
			return tt.And(tt.Not(c), b)
		}
		if b.op == OConst {
			if b.val == 1 {
				return tt.Or(tt.Not(c), a)
			}
			return tt.And(c, a)
		}
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	return tt.mk(OIte, a.w, c, a, b)
}

func (tt *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return tt.Bool(true)
	}
	if a.op == OConst && b.op == OConst {
		return tt.Bool(a.val == b.val)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b.op == OConst {
			if b.val == 1 {
				return a
			}
			return tt.Not(a)
		}
	}
	if b.op == OConst {
		switch a.op {
		case OIte:
			if a.b.op == OConst || a.c.op == OConst || a.b.umax < b.val || a.b.umin > b.val || a.c.umax < b.val || a.c.umin > b.val {
				return tt.Ite(a.a, tt.Eq(a.b, b), tt.Eq(a.c, b))
			}
		case OZExt:
			if b.val > mask(a.a.w) {
				return tt.Bool(false)
			}
			return tt.Eq(a.a, tt.Const(b.val, a.a.w))
		case OSExt:
			lo := b.val & mask(a.a.w)
			if uint64(sext(lo, a.a.w))&mask(a.w) != b.val {
				return tt.Bool(false)
			}
			return tt.Eq(a.a, tt.Const(lo, a.a.w))
		case OTrunc:
			if a.a.umax <= mask(a.w) {
				return tt.Eq(a.a, tt.Const(b.val, a.a.w))
			}
		case OAdd:
			if a.b.op == OConst {
				return tt.Eq(a.a, tt.Const(b.val-a.b.val, a.w))
			}
		}
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OEq, 0, a, b, nil)
}

func (tt *Terms) Cmp(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return tt.Bool(evalOp(op, 0, a.w, a.val, b.val, 0) == 1)
	}
	if a == b {
		return tt.Bool(op == OUle || op == OSle)
	}
	// narrow extended operands
	if a.op == OZExt && b.op == OConst && b.val <= mask(a.a.w) {
		if op == OUlt || op == OUle {
			return tt.Cmp(op, a.a, tt.Const(b.val, a.a.w))
		}
		if b.val < uint64(1)<<(a.w-1) { // both non-negative: signed == unsigned
			if op == OSlt {
				return tt.Cmp(OUlt, a.a, tt.Const(b.val, a.a.w))
			}
			return tt.Cmp(OUle, a.a, tt.Const(b.val, a.a.w))
		}
	}
	if b.op == OZExt && a.op == OConst && a.val <= mask(b.a.w) {
		if op == OUlt || op == OUle {
			return tt.Cmp(op, tt.Const(a.val, b.a.w), b.a)
		}
		if a.val < uint64(1)<<(b.w-1) {
			if op == OSlt {
				return tt.Cmp(OUlt, tt.Const(a.val, b.a.w), b.a)
			}
			return tt.Cmp(OUle, tt.Const(a.val, b.a.w), b.a)
		}
	}
	if a.op == OIte && b.op == OConst && (a.b.op == OConst || a.c.op == OConst) {
		return tt.Ite(a.a, tt.Cmp(op, a.b, b), tt.Cmp(op, a.c, b))
	}
	if b.op == OIte && a.op == OConst && (b.b.op == OConst || b.c.op == OConst) {
		return tt.Ite(b.a, tt.Cmp(op, a, b.b), tt.Cmp(op, a, b.c))
	}
	return tt.mk(op, 0, a, b, nil)
}

func (tt *Terms) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.op == OConst && b.op == OConst {
		return tt.Const(evalOp(op, w, w, a.val, b.val, 0), w)
	}
	switch op {
	case OAdd, OMul, OAnd, OOr, OXor:
		if a.op == OConst {
			a, b = b, a
		}
	}
	if b.op == OConst {
		switch op {
		case OAdd:
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.b.op == OConst {
				return tt.Bin(OAdd, a.a, tt.Const(a.b.val+b.val, w))
			}
			if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
				return tt.Ite(a.a, tt.Bin(op, a.b, b), tt.Bin(op, a.c, b))
			}
		case OSub:
			return tt.Bin(OAdd, a, tt.Const(-b.val, w))
		case OMul:
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		case OAnd:
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
		case OOr, OXor:
			if b.val == 0 {
				return a
			}
		case OShl, OLShr, OAShr:
			if b.val == 0 {
				return a
			}
		case OUDiv, OSDiv:
			if b.val == 1 {
				return a
			}
		}
	}
	if a == b {
		switch op {
		case OSub, OXor:
			return tt.Const(0, w)
		case OAnd, OOr:
			return a
		}
	}
	return tt.mk(op, w, a, b, nil)
}

func (tt *Terms) BNot(a *Term) *Term { // bitwise
	if a.op == OConst {
		return tt.Const(^a.val, a.w)
	}
	if a.op == ONot {
		return a.a
	}
	return tt.mk(ONot, a.w, a, nil, nil)
}

func (tt *Terms) Neg(a *Term) *Term {
	if a.op == OConst {
		return tt.Const(-a.val, a.w)
	}
	return tt.mk(ONeg, a.w, a, nil, nil)
}

// Resize converts to width w, extending by signedness of the source.
func (tt *Terms) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		if signed {
			return tt.Const(uint64(sext(a.val, a.w)), w)
		}
		return tt.Const(a.val, w)
	}
	if w < a.w {
		switch a.op {
		case OZExt, OSExt:
			if a.a.w == w {
				return a.a
			}
			if a.a.w > w {
				return tt.Resize(a.a, w, false)
			}
			return tt.Resize(a.a, w, a.op == OSExt)
		case OIte:
			if a.b.op == OConst || a.c.op == OConst {
				return tt.Ite(a.a, tt.Resize(a.b, w, signed), tt.Resize(a.c, w, signed))
			}
		}
		return tt.mk(OTrunc, w, a, nil, nil)
	}
	if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
		return tt.Ite(a.a, tt.Resize(a.b, w, signed), tt.Resize(a.c, w, signed))
	}
	if signed && a.umax >= uint64(1)<<(a.w-1) {
		return tt.mk(OSExt, w, a, nil, nil)
	}
	if a.op == OZExt {
		return tt.mk(OZExt, w, a.a, nil, nil)
	}
	return tt.mk(OZExt, w, a, nil, nil)
}

// ---- SMT printing ----

type smtWriter struct {
	sb    strings.Builder
	refs  map[*Term]int
	names map[*Term]string
	vnum  map[int32]int
	vlist []int32
	tt    *Terms
	n     int
}

func (s *smtWriter) count(t *Term) {
	if t.op == OConst || t.op == OVar {
		return
	}
	s.refs[t]++
	if s.refs[t] > 1 {
		return
	}
	if t.a != nil {
		s.count(t.a)
	}
	if t.b != nil {
		s.count(t.b)
	}
	if t.c != nil {
		s.count(t.c)
	}
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (s *smtWriter) varName(v int32) string {
	n, ok := s.vnum[v]
	if !ok {
		n = len(s.vlist)
		s.vnum[v] = n
		s.vlist = append(s.vlist, v)
	}
	return fmt.Sprintf("v%d", n)
}

// emit shared subterms as definitions, bottom-up.
func (s *smtWriter) define(t *Term, defs *strings.Builder) {
	if t.op == OConst || t.op == OVar {
		return
	}
	if _, ok := s.names[t]; ok {
		return
	}
	if t.a != nil {
		s.define(t.a, defs)
	}
	if t.b != nil {
		s.define(t.b, defs)
	}
	if t.c != nil {
		s.define(t.c, defs)
	}
	if s.refs[t] > 1 {
		var b strings.Builder
		s.expr(t, &b)
		nm := fmt.Sprintf("t%d", s.n)
		s.n++
		defs.WriteString("(define-fun " + nm + " () " + sortName(t.w) + " " + b.String() + ")\n")
		s.names[t] = nm
	}
}

func (s *smtWriter) expr(t *Term, b *strings.Builder) {
	if nm, ok := s.names[t]; ok {
		b.WriteString(nm)
		return
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val == 1 {
				b.WriteString("true")
			} else {
				b.WriteString("false")
			}
			return
		}
		fmt.Fprintf(b, "(_ bv%d %d)", t.val, t.w)
	case OVar:
		b.WriteString(s.varName(t.vars[0]))
	case OZExt:
		fmt.Fprintf(b, "((_ zero_extend %d) ", t.w-t.a.w)
		s.expr(t.a, b)
		b.WriteByte(')')
	case OSExt:
		fmt.Fprintf(b, "((_ sign_extend %d) ", t.w-t.a.w)
		s.expr(t.a, b)
		b.WriteByte(')')
	case OTrunc:
		fmt.Fprintf(b, "((_ extract %d 0) ", t.w-1)
		s.expr(t.a, b)
		b.WriteByte(')')
	default:
		b.WriteByte('(')
		b.WriteString(opName[t.op])
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x == nil {
				break
			}
			b.WriteByte(' ')
			s.expr(x, b)
		}
		b.WriteByte(')')
	}
}

// smtQuery renders the conjunction of conds with canonical variable names.
func (tt *Terms) smtQuery(conds []*Term) (string, []int32) {
	s := &smtWriter{refs: map[*Term]int{}, names: map[*Term]string{}, vnum: map[int32]int{}, tt: tt}
	for _, c := range conds {
		s.count(c)
	}
	var body strings.Builder
	for _, c := range conds {
		s.define(c, &body)
		var e strings.Builder
		s.expr(c, &e)
		body.WriteString("(assert " + e.String() + ")\n")
	}
	// declared ranges become constraints (they were used by simplification)
	var head, rng strings.Builder
	for i, v := range s.vlist {
		vi := tt.vars[v]
		fmt.Fprintf(&head, "(declare-const v%d %s)\n", i, sortName(vi.w))
		if vi.ranged {
			if vi.lo > 0 || vi.hi < mask(vi.w) {
				if vi.lo <= vi.hi {
					fmt.Fprintf(&rng, "(assert (and (bvule (_ bv%d %d) v%d) (bvule v%d (_ bv%d %d))))\n", vi.lo, vi.w, i, i, vi.hi, vi.w)
				}
			} else if vi.signed && vi.slo <= vi.shi {
				fmt.Fprintf(&rng, "(assert (and (bvsle (_ bv%d %d) v%d) (bvsle v%d (_ bv%d %d))))\n",
					uint64(vi.slo)&mask(vi.w), vi.w, i, i, uint64(vi.shi)&mask(vi.w), vi.w)
			}
		}
	}
	return head.String() + rng.String() + body.String(), s.vlist
}

func (t *Term) String() string {
	s := &smtWriter{refs: map[*Term]int{}, names: map[*Term]string{}, vnum: map[int32]int{}}
	var b strings.Builder
	s.expr(t, &b)
	return b.String()
}
