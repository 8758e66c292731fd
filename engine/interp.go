package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type deferRec struct {
	fn   Val // closure or nil when builtin
	bi   *callC
	args []Val
}

type panicRec struct {
	val       Val // interface value
	msg       string
	recovered bool
	where     string
}

type Frame struct {
	fi        *fnInfo
	regs      []Val
	blk, pc   int
	dst       int
	defers    []deferRec
	unwinding *panicRec
	afterRec  bool
	deferOf   *Frame                       // this frame runs a deferred call of that frame
	onRet     func(st *State, g *G, r Val) // engine continuation instead of a register
}

type G struct {
	id     int
	frames []*Frame
	rec    *panicRec
	wait   func() bool
	why    string
	done   bool
	wakeAt int64
	settle bool
	native bool
}

type endKind int

const (
	endOK endKind = iota
	endInfeasible
	endViolation
	endUnsupported
	endLimit
	endHang
	endPanic
	endSolver
)

type pathEnd struct {
	kind endKind
	msg  string
}

func (st *State) end(k endKind, msg string) { panic(pathEnd{k, msg}) }

func (st *State) unsupported(f string, a ...any) {
	st.end(endUnsupported, fmt.Sprintf(f, a...)+" at "+st.where())
}

// goPanic is thrown to start a Go-level panic in the current goroutine.
type goPanic struct{ rec *panicRec }

func (st *State) rtPanic(msg string) {
	v := cstr("runtime error: " + msg)
	var iv Val
	if st.p.rtErr != nil {
		iv = Val{p: &Iface{t: st.p.rtErr, v: Val{p: &Agg{[]Val{v}}}}}
	} else {
		iv = Val{p: &Iface{t: types.Typ[types.String], v: v}}
	}
	panic(goPanic{&panicRec{val: iv, msg: "runtime error: " + msg, where: st.where()}})
}

// where describes the current position: innermost target-code frame plus innermost frame.
func (st *State) where() string {
	g := st.cur
	if g == nil || len(g.frames) == 0 {
		return "?"
	}
	s := ""
	for i := len(g.frames) - 1; i >= 0 && i >= len(g.frames)-12; i-- {
		f := g.frames[i]
		pos := token.NoPos
		if f.blk < len(f.fi.blocks) {
			b := f.fi.blocks[f.blk]
			k := f.pc
			if k >= len(b.ins) {
				k = len(b.ins) - 1
			}
			for ; k >= 0; k-- {
				if pp := b.ins[k].ins.Pos(); pp.IsValid() {
					pos = pp
					break
				}
			}
		}
		ps := st.p.fset.Position(pos)
		if s != "" {
			s += " < "
		}
		s += fmt.Sprintf("%s(%s:%d)", f.fi.fn.RelString(nil), base(ps.Filename), ps.Line)
	}
	return s
}

func base(p string) string {
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == '/' {
			return p[i+1:]
		}
	}
	return p
}

func (f *Frame) val(o opnd) Val {
	if o.reg >= 0 {
		return f.regs[o.reg]
	}
	return o.v
}

func (st *State) pushCall(g *G, fi *fnInfo, args []Val, free []Val, dst int) *Frame {
	if err := st.p.compile(fi); err != nil {
		st.unsupported("%v", err)
	}
	if len(g.frames) > 2000 {
		st.end(endHang, "stack depth limit")
	}
	fr := &Frame{fi: fi, regs: make([]Val, fi.nreg), dst: dst}
	for i, p := range fi.params {
		if i < len(args) {
			fr.regs[p] = args[i]
		}
	}
	for i, p := range fi.frees {
		fr.regs[p] = free[i]
	}
	if fi.target {
		if atomic.AddInt64(&fi.calls, 1) == 1 {
			st.p.funcs.Store(fi.name, true)
		}
	}
	g.frames = append(g.frames, fr)
	return fr
}

// call invokes a closure value; result goes to dst of the current top frame.
func (st *State) call(g *G, fv Val, args []Val, dst int) {
	cl, ok := fv.p.(*Closure)
	if !ok || cl == nil {
		st.rtPanic("invalid memory address or nil pointer dereference (nil func)")
	}
	st.callClosure(g, cl, args, dst)
}

func (st *State) callClosure(g *G, cl *Closure, args []Val, dst int) {
	if cl.native != nil {
		cl.native(st, g, args, dst)
		return
	}
	fi := cl.fi
	if fi.intr != nil {
		fi.intr(st, g, fi, args, dst)
		return
	}
	if fi.isInit {
		if skipInit(fi.fn.Pkg.Pkg.Path()) {
			return
		}
	}
	st.pushCall(g, fi, args, cl.free, dst)
}

func (st *State) ret(g *G, dst int, v Val) {
	if dst >= 0 && len(g.frames) > 0 {
		g.frames[len(g.frames)-1].regs[dst] = v
	}
}

// finishFrame pops the top frame returning v.
func (st *State) finishFrame(g *G, v Val) {
	f := g.frames[len(g.frames)-1]
	g.frames = g.frames[:len(g.frames)-1]
	if f.onRet != nil {
		f.onRet(st, g, v)
		return
	}
	if f.deferOf != nil {
		p := f.deferOf
		if p.unwinding != nil {
			if p.unwinding.recovered {
				p.unwinding = nil
				g.rec = nil
				p.afterRec = true
				st.afterRecover(g, p)
			} else {
				st.unwind(g, p.unwinding)
			}
		} else if p.afterRec {
			st.afterRecover(g, p)
		}
		return
	}
	if len(g.frames) == 0 {
		g.done = true
		return
	}
	st.ret(g, f.dst, v)
}

// afterRecover continues a frame whose panic has been recovered: remaining defers, then the recover block.
func (st *State) afterRecover(g *G, p *Frame) {
	if n := len(p.defers); n > 0 {
		d := p.defers[n-1]
		p.defers = p.defers[:n-1]
		st.runDeferred(g, p, d)
		return
	}
	p.afterRec = false
	if p.fi.recov >= 0 {
		p.blk, p.pc = p.fi.recov, 0
		return
	}
	st.finishFrame(g, st.zeroResult(p.fi))
}

func (st *State) zeroResult(fi *fnInfo) Val {
	r := fi.fn.Signature.Results()
	if r.Len() > 1 {
		return Val{p: make(Tuple, r.Len())}
	}
	return Val{}
}

func (st *State) runDeferred(g *G, p *Frame, d deferRec) {
	if d.bi != nil {
		r := st.builtin(g, d.bi, d.args, nil)
		_ = r
		// builtins complete at once: continue whatever the frame was doing
		if p.unwinding != nil {
			if p.unwinding.recovered {
				p.unwinding = nil
				g.rec = nil
				p.afterRec = true
				st.afterRecover(g, p)
			} else {
				st.unwind(g, p.unwinding)
			}
		} else if p.afterRec {
			st.afterRecover(g, p)
		}
		return
	}
	n := len(g.frames)
	st.call(g, d.fn, d.args, -1)
	if len(g.frames) > n {
		g.frames[len(g.frames)-1].deferOf = p
		return
	}
	// intrinsic: completed immediately (or blocked; blocking intrinsics are never deferred here)
	if p.unwinding != nil {
		st.unwind(g, p.unwinding)
	} else if p.afterRec {
		st.afterRecover(g, p)
	}
}

// unwindSafe also copes with deferred calls that panic at once (defer panic(x)).
func (st *State) unwindSafe(g *G, rec *panicRec) {
	for rec != nil {
		rec = func() (next *panicRec) {
			defer func() {
				if r := recover(); r != nil {
					gp, ok := r.(goPanic)
					if !ok {
						panic(r)
					}
					next = gp.rec
				}
			}()
			st.unwind(g, rec)
			return nil
		}()
	}
}

func (st *State) unwind(g *G, rec *panicRec) {
	g.rec = rec
	for {
		if len(g.frames) == 0 {
			st.end(endPanic, "panic: "+rec.msg+" @ "+rec.where)
		}
		f := g.frames[len(g.frames)-1]
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			f.unwinding = rec
			st.runDeferred(g, f, d)
			return
		}
		if st.initMode && f.fi.isInit {
			st.initTolerate(g, "panic in init: "+rec.msg+" @ "+rec.where)
			return
		}
		g.frames = g.frames[:len(g.frames)-1]
	}
}

func (st *State) doRecover(g *G) Val {
	// the caller of recover must be a deferred function run by an unwinding frame
	f := g.frames[len(g.frames)-1]
	if f.deferOf == nil || f.deferOf.unwinding == nil || f.deferOf.unwinding.recovered {
		return Val{}
	}
	f.deferOf.unwinding.recovered = true
	return f.deferOf.unwinding.val
}

func (st *State) panicString(v Val) string {
	i, _ := v.p.(*Iface)
	if i == nil {
		return "nil"
	}
	switch x := i.v.p.(type) {
	case string:
		return x
	case nil:
		return fmt.Sprintf("%v(%d)", i.t, i.v.n)
	case *Agg:
		if len(x.f) > 0 {
			if s, ok := x.f[0].p.(string); ok {
				return s
			}
		}
	case *Obj:
		sl := st.rd(x)
		if len(sl) > 0 {
			if s, ok := sl[0].p.(string); ok {
				return fmt.Sprintf("%v{%s}", i.t, s)
			}
		}
	}
	return fmt.Sprintf("(%v)", i.t)
}

// runG executes g until it blocks, finishes, or a scheduling decision is wanted.
func (st *State) runG(g *G) {
	st.cur = g
	for !g.done && g.wait == nil {
		st.stepSafe(g)
		if st.resched {
			st.resched = false
			return
		}
	}
}

func (st *State) stepSafe(g *G) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case goPanic:
				st.unwindSafe(g, x.rec)
			case pathEnd:
				if st.initMode && x.kind == endUnsupported {
					st.initTolerate(g, x.msg)
					return
				}
				panic(r)
			default:
				panic(r)
			}
		}
	}()
	for !g.done && g.wait == nil && !st.resched {
		st.step(g)
	}
}

func (st *State) step(g *G) {
	f := g.frames[len(g.frames)-1]
	b := &f.fi.blocks[f.blk]
	c := &b.ins[f.pc]
	f.pc++
	st.steps++
	if st.steps > st.lim.maxSteps {
		st.end(endHang, "step limit reached (possible endless loop) at "+st.where())
	}
	switch c.op {
	case iAlloc:
		f.regs[c.dst] = Val{p: st.newObj(c.n)}
	case iBinOp:
		f.regs[c.dst] = st.binop(c.ins.(*ssa.BinOp).Op, c.t, c.ti, f.val(c.a[0]), f.val(c.a[1]), c.ins.(*ssa.BinOp).Y.Type())
	case iUnOp:
		st.unop(g, f, c)
	case iCall:
		st.doCall(g, f, c.x.(*callC), c.dst)
	case iGo:
		cc := c.x.(*callC)
		fv, args := st.resolve(f, cc)
		if st.initMode {
			return
		}
		st.spawn(fv, args, cc)
	case iDefer:
		cc := c.x.(*callC)
		var d deferRec
		if cc.builtin != "" {
			d.bi = cc
			for _, a := range cc.args {
				d.args = append(d.args, f.val(a))
			}
		} else {
			d.fn, d.args = st.resolve(f, cc)
		}
		f.defers = append(f.defers, d)
	case iChangeInterface, iChangeType:
		f.regs[c.dst] = f.val(c.a[0])
	case iConvert, iMultiConvert:
		var from types.Type
		if x, ok := c.ins.(*ssa.Convert); ok {
			from = x.X.Type()
		} else {
			from = c.ins.(*ssa.MultiConvert).X.Type()
		}
		f.regs[c.dst] = st.convert(from, c.t, f.val(c.a[0]))
	case iExtract:
		t := f.val(c.a[0])
		if t.p == nil {
			f.regs[c.dst] = Val{}
		} else {
			f.regs[c.dst] = t.p.(Tuple)[c.n]
		}
	case iField:
		v := f.val(c.a[0])
		f.regs[c.dst] = get(st.aggF(v, c.x.(int)), c.n, c.t)
	case iFieldAddr:
		v := f.val(c.a[0])
		if _, ok := v.p.(*Obj); !ok {
			o, off := st.ptr(v)
			v = Val{p: o, n: uint64(off)}
		}
		f.regs[c.dst] = Val{p: v.p, n: v.n + uint64(c.n)}
	case iIf:
		v := f.val(c.a[0])
		taken := false
		if t, ok := v.p.(*Term); ok {
			taken = st.branch(t)
		} else {
			taken = v.n != 0
		}
		s := b.succs[1]
		if taken {
			s = b.succs[0]
		}
		st.jump(f, s)
	case iJump:
		st.jump(f, b.succs[0])
	case iIndex:
		st.indexVal(f, c)
	case iIndexAddr:
		st.indexAddr(f, c)
	case iLookup:
		st.lookup(f, c)
	case iMakeChan:
		n := int64(st.concVal(f.val(c.a[0]), "chan size"))
		if n < 0 {
			st.rtPanic("makechan: size out of range")
		}
		f.regs[c.dst] = Val{p: &Chan{cap: int(n), elem: c.t.Underlying().(*types.Chan).Elem(), base: st.initMode}}
	case iMakeClosure:
		free := make([]Val, len(c.a))
		for i, a := range c.a {
			free[i] = f.val(a)
		}
		f.regs[c.dst] = Val{p: &Closure{fi: c.x.(*fnInfo), free: free}}
	case iMakeInterface:
		f.regs[c.dst] = Val{p: &Iface{t: c.t, v: f.val(c.a[0])}}
	case iMakeMap:
		f.regs[c.dst] = Val{p: &Map{m: map[any]int{}, base: st.initMode}}
	case iMakeSlice:
		st.makeSlice(f, c)
	case iMapUpdate:
		mv := f.val(c.a[0])
		if mv.p == nil {
			st.rtPanic("assignment to entry in nil map")
		}
		st.mapSet(mv.p.(*Map), c.t, f.val(c.a[1]), f.val(c.a[2]))
	case iNext:
		st.next(f, c)
	case iPanic:
		v := f.val(c.a[0])
		panic(goPanic{&panicRec{val: v, msg: st.panicString(v), where: st.where()}})
	case iRange:
		v := f.val(c.a[0])
		if typeInfo(c.t).k == kString {
			it := &MapIter{isS: true, str: v}
			it.rs, it.rok = st.tryRunes(v)
			if !it.rok {
				it.rs = st.strBytes(v)
			}
			f.regs[c.dst] = Val{p: it}
		} else {
			m, _ := v.p.(*Map)
			f.regs[c.dst] = Val{p: &MapIter{m: m}}
		}
	case iReturn:
		var v Val
		switch len(c.a) {
		case 0:
		case 1:
			v = f.val(c.a[0])
		default:
			t := make(Tuple, len(c.a))
			for i, a := range c.a {
				t[i] = f.val(a)
			}
			v = Val{p: t}
		}
		st.finishFrame(g, v)
	case iRunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			f.pc--
			st.runDeferred(g, f, d)
		}
	case iSelect:
		st.doSelect(g, f, c)
	case iSend:
		st.doSend(g, f.val(c.a[0]), f.val(c.a[1]))
	case iSlice:
		st.slice(f, c)
	case iSliceToArrayPointer:
		s := st.sliceOf(f.val(c.a[0]))
		if s.len < c.n {
			st.rtPanic("cannot convert slice to array pointer: length too short")
		}
		if s.o == nil {
			f.regs[c.dst] = Val{}
		} else {
			f.regs[c.dst] = Val{p: s.o, n: uint64(s.off)}
		}
	case iStore:
		st.store(f.val(c.a[0]), c.t, f.val(c.a[1]))
	case iTypeAssert:
		st.typeAssert(f, c)
	default:
		st.unsupported("instruction %T", c.ins)
	}
}

func (st *State) jump(f *Frame, to int) {
	from := f.blk
	nb := &f.fi.blocks[to]
	if len(nb.phis) > 0 {
		pi := -1
		for i, p := range nb.preds {
			if p == from {
				pi = i
				break
			}
		}
		if len(nb.phis) == 1 {
			f.regs[nb.phis[0].dst] = f.val(nb.phis[0].edges[pi])
		} else {
			var tmp [16]Val
			vals := tmp[:0]
			for i := range nb.phis {
				vals = append(vals, f.val(nb.phis[i].edges[pi]))
			}
			for i := range nb.phis {
				f.regs[nb.phis[i].dst] = vals[i]
			}
		}
	}
	f.blk, f.pc = to, 0
}

// resolve evaluates callee and arguments of a call.
func (st *State) resolve(f *Frame, cc *callC) (Val, []Val) {
	args := make([]Val, 0, len(cc.args)+1)
	if cc.invoke != nil {
		iv := f.val(cc.fn)
		i, _ := iv.p.(*Iface)
		if i == nil {
			st.rtPanic("invalid memory address or nil pointer dereference (method " + cc.invoke.Name() + " on nil interface)")
		}
		m := st.p.lookupMethod(i.t, cc.invoke)
		if m == nil {
			st.unsupported("method %v not found on %v", cc.invoke, i.t)
		}
		args = append(args, i.v)
		for _, a := range cc.args {
			args = append(args, f.val(a))
		}
		return Val{p: &Closure{fi: st.p.fnInfo(m)}}, args
	}
	for _, a := range cc.args {
		args = append(args, f.val(a))
	}
	return f.val(cc.fn), args
}

func (st *State) doCall(g *G, f *Frame, cc *callC, dst int) {
	if cc.builtin != "" {
		args := make([]Val, len(cc.args))
		for i, a := range cc.args {
			args[i] = f.val(a)
		}
		r := st.builtin(g, cc, args, f)
		if dst >= 0 {
			f.regs[dst] = r
		}
		return
	}
	fv, args := st.resolve(f, cc)
	st.call(g, fv, args, dst)
}

func (st *State) boundsFail(idx Val, n int) {
	st.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(cval(idx)), n))
}

// checkIndex returns a concrete index or a term known to be in range.
func (st *State) checkIndex(v Val, ti tinfo, n int) (int, *Term) {
	t, ok := v.p.(*Term)
	if !ok {
		i := v.n
		if ti.k == kInt {
			i = uint64(sext(v.n, ti.w))
		}
		if i >= uint64(n) {
			st.boundsFail(v, n)
		}
		return int(i), nil
	}
	tt := st.tt
	if ti.w < 64 {
		t = tt.Resize(t, 64, ti.k == kInt)
	}
	if !st.branch(tt.Cmp(OUlt, t, tt.Const(uint64(n), 64))) {
		st.boundsFail(Val{p: t}, n)
	}
	if t.op == OConst {
		return int(t.val), nil
	}
	return 0, t
}

func (st *State) indexAddr(f *Frame, c *cins) {
	xv := f.val(c.a[0])
	iv := f.val(c.a[1])
	var o *Obj
	var off, n int
	if c.x != nil {
		o, off = st.ptr(xv)
		n = c.x.(int)
	} else {
		s := st.sliceOf(xv)
		o, off, n = s.o, s.off, s.len
	}
	i, t := st.checkIndex(iv, c.ti, n)
	if t != nil {
		if c.n == 1 && n <= 4096 {
			f.regs[c.dst] = Val{p: &SymPtr{o: o, base: off, n: n, elem: 1, idx: t, iType: c.t}}
			return
		}
		i = int(st.concretize(t, "index"))
	}
	f.regs[c.dst] = Val{p: o, n: uint64(off + i*c.n)}
}

func (st *State) indexVal(f *Frame, c *cins) {
	xv := f.val(c.a[0])
	iv := f.val(c.a[1])
	if at, ok := c.t.Underlying().(*types.Array); ok {
		z := nslots(at.Elem())
		fl := st.aggF(xv, int(at.Len())*z)
		i, t := st.checkIndex(iv, c.ti, int(at.Len()))
		if t != nil {
			ti := typeInfo(at.Elem())
			if ti.k == kInt || ti.k == kUint || ti.k == kBool {
				f.regs[c.dst] = tval(st.selectTerm(t, int(at.Len()), ti.w, func(i int) Val { return fl[i] }))
				return
			}
			i = int(st.concretize(t, "index"))
		}
		f.regs[c.dst] = get(fl, i*z, at.Elem())
		return
	}
	f.regs[c.dst] = st.strIndex(xv, iv, c.ti)
}

func (st *State) strIndex(s, iv Val, ti tinfo) Val {
	if cs, ok := s.p.(string); ok {
		i, t := st.checkIndex(iv, ti, len(cs))
		if t != nil {
			return tval(st.selectTerm(t, len(cs), 8, func(i int) Val { return Val{n: uint64(cs[i])} }))
		}
		return Val{n: uint64(cs[i])}
	}
	b := st.strBytes(s)
	i, t := st.checkIndex(iv, ti, len(b))
	if t != nil {
		return tval(st.selectTerm(t, len(b), 8, func(i int) Val { return b[i] }))
	}
	return b[i]
}

func (st *State) lookup(f *Frame, c *cins) {
	xv := f.val(c.a[0])
	mt, ok := c.t.Underlying().(*types.Map)
	if !ok {
		f.regs[c.dst] = st.strIndex(xv, f.val(c.a[1]), c.ti)
		return
	}
	var v Val
	found := false
	if m, _ := xv.p.(*Map); m != nil {
		m = st.rmap(m)
		if i, ok := m.m[st.mapKey(mt.Key(), f.val(c.a[1]))]; ok {
			v, found = m.ents[i].v, true
		}
	}
	if c.n == 1 {
		f.regs[c.dst] = Val{p: Tuple{v, cbool(found)}}
	} else {
		f.regs[c.dst] = v
	}
}

func (st *State) mapSet(m0 *Map, kt types.Type, k, v Val) {
	m := st.wmap(m0)
	key := st.mapKey(kt, k)
	if i, ok := m.m[key]; ok {
		m.ents[i].v = v
		return
	}
	m.m[key] = len(m.ents)
	m.ents = append(m.ents, mapEnt{k: k, v: v})
	m.n++
}

func (st *State) next(f *Frame, c *cins) {
	it := f.val(c.a[0]).p.(*MapIter)
	if it.isS {
		if it.i >= len(it.rs) {
			f.regs[c.dst] = Val{p: Tuple{cbool(false), Val{}, Val{}}}
			return
		}
		off := it.off
		var r Val
		if it.rok {
			r = it.rs[it.i]
			it.i++
			it.off = st.addInt(off, st.strLen(st.mkRuneStr([]Val{r})))
		} else {
			var n int
			r, n = st.decodeRune(it.rs[it.i:])
			it.i += n
			it.off = cint(it.i)
		}
		f.regs[c.dst] = Val{p: Tuple{cbool(true), off, r}}
		return
	}
	if it.m != nil {
		m := st.rmap(it.m)
		for it.i < len(m.ents) {
			e := m.ents[it.i]
			it.i++
			if e.dead {
				continue
			}
			f.regs[c.dst] = Val{p: Tuple{cbool(true), e.k, e.v}}
			return
		}
	}
	f.regs[c.dst] = Val{p: Tuple{cbool(false), Val{}, Val{}}}
}

func (st *State) addInt(a, b Val) Val {
	if a.p == nil && b.p == nil {
		return Val{n: a.n + b.n}
	}
	return tval(st.tt.Bin(OAdd, st.term(a, 64), st.term(b, 64)))
}

func (st *State) makeSlice(f *Frame, c *cins) {
	lv, cv := f.val(c.a[0]), f.val(c.a[1])
	same := lv == cv
	chk := func(v Val, what string) int {
		if t, ok := v.p.(*Term); ok {
			// negative or absurd sizes panic; large ones are outside the bound
			if !st.branch(st.tt.Cmp(OUle, t, st.tt.Const(1<<40, t.w))) {
				st.rtPanic("makeslice: " + what + " out of range")
			}
			v = Val{n: st.concretize(t, "make "+what)}
		}
		n := int64(v.n)
		if n < 0 || n > 1<<46 {
			st.rtPanic("makeslice: " + what + " out of range")
		}
		if n > 1<<22 {
			st.end(endLimit, fmt.Sprintf("allocation of %d elements", n))
		}
		return int(n)
	}
	ln := chk(lv, "len")
	cp := ln
	if !same {
		cp = chk(cv, "cap")
	}
	if cp < ln {
		st.rtPanic("makeslice: cap out of range")
	}
	f.regs[c.dst] = Val{p: &SliceV{o: st.newObj(cp * c.n), len: ln, cap: cp}}
}

func (st *State) sliceIdx(v opnd, f *Frame, def int) int {
	if v.reg == -2 {
		return def
	}
	x := f.val(v)
	if isSym(x) {
		return int(int64(st.concVal(x, "slice bound")))
	}
	return int(int64(x.n))
}

func (st *State) slice(f *Frame, c *cins) {
	xv := f.val(c.a[0])
	switch u := c.t.Underlying().(type) {
	case *types.Basic: // string
		if cs, ok := xv.p.(string); ok || xv.p == nil {
			lo := st.sliceIdx(c.a[1], f, 0)
			hi := st.sliceIdx(c.a[2], f, len(cs))
			if lo < 0 || hi < lo || hi > len(cs) {
				st.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, len(cs)))
			}
			f.regs[c.dst] = cstr(cs[lo:hi])
			return
		}
		if c.a[1].reg == -2 && c.a[2].reg == -2 {
			f.regs[c.dst] = xv
			return
		}
		b := st.strBytes(xv)
		lo := st.sliceIdx(c.a[1], f, 0)
		hi := st.sliceIdx(c.a[2], f, len(b))
		if lo < 0 || hi < lo || hi > len(b) {
			st.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, len(b)))
		}
		f.regs[c.dst] = st.mkStr(b[lo:hi:hi])
		return
	case *types.Pointer: // array pointer
		at := u.Elem().Underlying().(*types.Array)
		o, off := st.ptr(xv)
		st.slice2(f, c, &SliceV{o: o, off: off, len: int(at.Len()), cap: int(at.Len())}, nslots(at.Elem()))
		return
	case *types.Slice:
		if xv.p == nil {
			lo := st.sliceIdx(c.a[1], f, 0)
			hi := st.sliceIdx(c.a[2], f, 0)
			if lo != 0 || hi != 0 {
				st.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity 0", lo, hi))
			}
			f.regs[c.dst] = Val{}
			return
		}
		st.slice2(f, c, st.sliceOf(xv), nslots(u.Elem()))
		return
	}
	st.unsupported("slice of %v", c.t)
}

func (st *State) slice2(f *Frame, c *cins, s *SliceV, z int) {
	lo := st.sliceIdx(c.a[1], f, 0)
	hi := st.sliceIdx(c.a[2], f, s.len)
	mx := st.sliceIdx(c.a[3], f, s.cap)
	if mx < 0 || mx > s.cap || hi < 0 || hi > mx || lo < 0 || lo > hi {
		st.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, s.cap))
	}
	f.regs[c.dst] = Val{p: &SliceV{o: s.o, off: s.off + lo*z, len: hi - lo, cap: mx - lo}}
}

func (st *State) typeAssert(f *Frame, c *cins) {
	x := c.ins.(*ssa.TypeAssert)
	i, _ := f.val(c.a[0]).p.(*Iface)
	ok := false
	var v Val
	if i != nil {
		if it, isI := c.t.Underlying().(*types.Interface); isI {
			if st.implements(i.t, it) {
				ok = true
				v = Val{p: i}
			}
		} else if sameType(i.t, c.t) {
			ok = true
			v = i.v
		}
	}
	if x.CommaOk {
		f.regs[c.dst] = Val{p: Tuple{v, cbool(ok)}}
		return
	}
	if !ok {
		d := "nil"
		if i != nil {
			d = i.t.String()
		}
		st.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", d, c.t))
	}
	f.regs[c.dst] = v
}

func (st *State) implements(t types.Type, it *types.Interface) bool {
	k := [2]types.Type{t, it}
	if v, ok := implCache.Load(k); ok {
		return v.(bool)
	}
	st.p.buildMu.Lock()
	r := types.Implements(t, it)
	st.p.buildMu.Unlock()
	implCache.Store(k, r)
	return r
}

// ---- operators ----

func (st *State) unop(g *G, f *Frame, c *cins) {
	x := c.ins.(*ssa.UnOp)
	v := f.val(c.a[0])
	tt := st.tt
	switch x.Op {
	case token.MUL:
		f.regs[c.dst] = st.load(v, c.t)
	case token.NOT:
		if t, ok := v.p.(*Term); ok {
			f.regs[c.dst] = tval(tt.Not(t))
		} else {
			f.regs[c.dst] = Val{n: v.n ^ 1}
		}
	case token.SUB:
		switch c.ti.k {
		case kFloat:
			f.regs[c.dst] = cfloat(-math.Float64frombits(v.n))
		default:
			if t, ok := v.p.(*Term); ok {
				f.regs[c.dst] = tval(tt.Neg(t))
			} else {
				f.regs[c.dst] = Val{n: -v.n & mask(c.ti.w)}
			}
		}
	case token.XOR:
		if t, ok := v.p.(*Term); ok {
			f.regs[c.dst] = tval(tt.BNot(t))
		} else {
			f.regs[c.dst] = Val{n: ^v.n & mask(c.ti.w)}
		}
	case token.ARROW:
		st.doRecv(g, f, v, c.dst, x.CommaOk)
	default:
		st.unsupported("unop %v", x.Op)
	}
}

func (st *State) binop(op token.Token, t types.Type, ti tinfo, a, b Val, yt types.Type) Val {
	tt := st.tt
	switch op {
	case token.EQL:
		if a.p == nil && b.p == nil && (ti.k == kInt || ti.k == kUint || ti.k == kBool) {
			return cbool(a.n == b.n)
		}
		return tval(st.eq(t, a, b))
	case token.NEQ:
		if a.p == nil && b.p == nil && (ti.k == kInt || ti.k == kUint || ti.k == kBool) {
			return cbool(a.n != b.n)
		}
		return tval(tt.Not(st.eq(t, a, b)))
	}
	switch ti.k {
	case kInt, kUint:
		if a.p == nil && b.p == nil {
			return st.cbin(op, ti, a.n, b.n, yt)
		}
		if o, ok := a.p.(*Obj); ok { // uintptr derived from a pointer
			switch op {
			case token.XOR, token.ADD, token.SUB, token.OR:
				if b.p == nil && b.n == 0 {
					return a
				}
			}
			st.unsupported("pointer arithmetic on %v", o.note)
		}
		return st.sbin(op, ti, a, b, yt)
	case kFloat:
		x, y := math.Float64frombits(a.n), math.Float64frombits(b.n)
		var r float64
		switch op {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		case token.LSS:
			return cbool(x < y)
		case token.LEQ:
			return cbool(x <= y)
		case token.GTR:
			return cbool(x > y)
		case token.GEQ:
			return cbool(x >= y)
		default:
			st.unsupported("float op %v", op)
		}
		if ti.w == 32 {
			r = float64(float32(r))
		}
		return cfloat(r)
	case kString:
		switch op {
		case token.ADD:
			return st.concat(a, b)
		case token.LSS:
			return tval(st.strLess(a, b))
		case token.GTR:
			return tval(st.strLess(b, a))
		case token.LEQ:
			return tval(tt.Not(st.strLess(b, a)))
		case token.GEQ:
			return tval(tt.Not(st.strLess(a, b)))
		}
	case kBool:
		switch op {
		case token.AND, token.LAND:
			return tval(tt.And(st.term(a, 0), st.term(b, 0)))
		case token.OR, token.LOR:
			return tval(tt.Or(st.term(a, 0), st.term(b, 0)))
		}
	}
	st.unsupported("binop %v on %v", op, t)
	return Val{}
}

func (st *State) cbin(op token.Token, ti tinfo, a, b uint64, yt types.Type) Val {
	m := mask(ti.w)
	sg := ti.k == kInt
	switch op {
	case token.ADD:
		return Val{n: (a + b) & m}
	case token.SUB:
		return Val{n: (a - b) & m}
	case token.MUL:
		return Val{n: (a * b) & m}
	case token.QUO, token.REM:
		if b == 0 {
			st.rtPanic("integer divide by zero")
		}
		if sg {
			x, y := sext(a, ti.w), sext(b, ti.w)
			if y == -1 {
				if op == token.QUO {
					return Val{n: uint64(-x) & m}
				}
				return Val{}
			}
			if op == token.QUO {
				return Val{n: uint64(x/y) & m}
			}
			return Val{n: uint64(x%y) & m}
		}
		if op == token.QUO {
			return Val{n: a / b}
		}
		return Val{n: a % b}
	case token.AND:
		return Val{n: a & b}
	case token.OR:
		return Val{n: a | b}
	case token.XOR:
		return Val{n: a ^ b}
	case token.AND_NOT:
		return Val{n: a &^ b}
	case token.SHL, token.SHR:
		yi := typeInfo(yt)
		if yi.k == kInt && sext(b, yi.w) < 0 {
			st.rtPanic("negative shift amount")
		}
		if op == token.SHL {
			if b >= 64 {
				return Val{}
			}
			return Val{n: (a << b) & m}
		}
		if sg {
			if b > 63 {
				b = 63
			}
			return Val{n: uint64(sext(a, ti.w)>>b) & m}
		}
		if b >= 64 {
			return Val{}
		}
		return Val{n: a >> b}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		var lt, eq bool
		eq = a == b
		if sg {
			lt = sext(a, ti.w) < sext(b, ti.w)
		} else {
			lt = a < b
		}
		switch op {
		case token.LSS:
			return cbool(lt)
		case token.LEQ:
			return cbool(lt || eq)
		case token.GTR:
			return cbool(!lt && !eq)
		default:
			return cbool(!lt)
		}
	}
	st.unsupported("binop %v", op)
	return Val{}
}

func (st *State) sbin(op token.Token, ti tinfo, av, bv Val, yt types.Type) Val {
	tt := st.tt
	sg := ti.k == kInt
	a := st.term(av, ti.w)
	switch op {
	case token.SHL, token.SHR:
		yi := typeInfo(yt)
		b := st.term(bv, yi.w)
		if yi.k == kInt {
			if !st.branch(tt.Cmp(OSle, tt.Const(0, yi.w), b)) {
				st.rtPanic("negative shift amount")
			}
		}
		// bring the shift count to the operand width, saturating
		if b.w > ti.w {
			big := tt.Cmp(OUle, tt.Const(uint64(ti.w), b.w), b)
			b = tt.Ite(big, tt.Const(uint64(ti.w), ti.w), tt.Resize(b, ti.w, false))
		} else {
			b = tt.Resize(b, ti.w, false)
		}
		if op == token.SHL {
			return tval(tt.Bin(OShl, a, b))
		}
		if sg {
			return tval(tt.Bin(OAShr, a, b))
		}
		return tval(tt.Bin(OLShr, a, b))
	}
	b := st.term(bv, ti.w)
	switch op {
	case token.ADD:
		return tval(tt.Bin(OAdd, a, b))
	case token.SUB:
		return tval(tt.Bin(OSub, a, b))
	case token.MUL:
		return tval(tt.Bin(OMul, a, b))
	case token.QUO, token.REM:
		if !st.branch(tt.Not(tt.Eq(b, tt.Const(0, ti.w)))) {
			st.rtPanic("integer divide by zero")
		}
		var o Op
		switch {
		case op == token.QUO && sg:
			o = OSDiv
		case op == token.QUO:
			o = OUDiv
		case sg:
			o = OSRem
		default:
			o = OURem
		}
		if sg {
			al, _ := a.sbounds()
			bl, _ := b.sbounds()
			if al >= 0 && bl >= 0 {
				if o == OSDiv {
					o = OUDiv
				} else {
					o = OURem
				}
			}
		}
		return tval(tt.Bin(o, a, b))
	case token.AND:
		return tval(tt.Bin(OAnd, a, b))
	case token.OR:
		return tval(tt.Bin(OOr, a, b))
	case token.XOR:
		return tval(tt.Bin(OXor, a, b))
	case token.AND_NOT:
		return tval(tt.Bin(OAnd, a, tt.BNot(b)))
	}
	lt, le := OUlt, OUle
	if sg {
		lt, le = OSlt, OSle
	}
	switch op {
	case token.LSS:
		return tval(tt.Cmp(lt, a, b))
	case token.LEQ:
		return tval(tt.Cmp(le, a, b))
	case token.GTR:
		return tval(tt.Cmp(lt, b, a))
	case token.GEQ:
		return tval(tt.Cmp(le, b, a))
	}
	st.unsupported("symbolic binop %v", op)
	return Val{}
}

func (st *State) convert(from, to types.Type, v Val) Val {
	fi, ti := typeInfo(from), typeInfo(to)
	switch ti.k {
	case kInt, kUint:
		switch fi.k {
		case kInt, kUint:
			if t, ok := v.p.(*Term); ok {
				return tval(st.tt.Resize(t, ti.w, fi.k == kInt))
			}
			if v.p != nil {
				return v // pointer-derived uintptr
			}
			if fi.k == kInt {
				return Val{n: uint64(sext(v.n, fi.w)) & mask(ti.w)}
			}
			return Val{n: v.n & mask(ti.w)}
		case kFloat:
			x := math.Float64frombits(v.n)
			if ti.k == kInt {
				return Val{n: uint64(int64(x)) & mask(ti.w)}
			}
			return Val{n: uint64(x) & mask(ti.w)}
		case kPtr:
			return v
		}
	case kFloat:
		switch fi.k {
		case kInt:
			r := float64(sext(st.concVal(v, "int to float"), fi.w))
			if ti.w == 32 {
				r = float64(float32(r))
			}
			return cfloat(r)
		case kUint:
			return cfloat(float64(st.concVal(v, "uint to float")))
		case kFloat:
			if ti.w == 32 {
				return cfloat(float64(float32(math.Float64frombits(v.n))))
			}
			return v
		}
	case kString:
		switch fi.k {
		case kInt, kUint:
			// string(rune)
			if !isSym(v) {
				x := sext(v.n, fi.w)
				if fi.k == kUint {
					x = int64(v.n)
				}
				if x < 0 || x > 0x10FFFF {
					x = 0xFFFD
				}
				return cstr(string(rune(x)))
			}
			return st.mkRuneStr([]Val{st.validRune(st.convert(from, types.Typ[types.Int32], v))})
		case kString:
			return v
		case kSlice:
			el := from.Underlying().(*types.Slice).Elem()
			e := st.scalarElems(v)
			if typeInfo(el).w == 8 {
				return st.mkStr(append([]Val(nil), e...))
			}
			rs := make([]Val, len(e))
			for i, x := range e {
				rs[i] = st.validRune(x)
			}
			return st.mkRuneStr(rs)
		}
	case kSlice:
		if fi.k == kString {
			el := to.Underlying().(*types.Slice).Elem()
			if typeInfo(el).w == 8 {
				return st.mkSlice(st.strBytes(v))
			}
			return st.mkSlice(st.strRunes(v))
		}
		return v
	case kPtr:
		return v
	}
	if fi.k == ti.k {
		return v
	}
	st.unsupported("conversion %v -> %v", from, to)
	return Val{}
}

// ---- builtins ----

func (st *State) builtin(g *G, cc *callC, args []Val, f *Frame) Val {
	argT := func(i int) types.Type { return cc.common.Args[i].Type() }
	switch cc.builtin {
	case "len", "cap":
		v := args[0]
		t := argT(0)
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return st.strLen(v)
		case *types.Slice:
			s := st.sliceOf(v)
			if cc.builtin == "len" {
				return cint(s.len)
			}
			return cint(s.cap)
		case *types.Map:
			if v.p == nil {
				return Val{}
			}
			return cint(st.rmap(v.p.(*Map)).n)
		case *types.Chan:
			if v.p == nil {
				return Val{}
			}
			ch := st.chanOf(v)
			if cc.builtin == "len" {
				return cint(len(ch.buf))
			}
			return cint(ch.cap)
		case *types.Array:
			return cint(int(u.Len()))
		case *types.Pointer:
			return cint(int(u.Elem().Underlying().(*types.Array).Len()))
		}
	case "append":
		return st.doAppend(argT(0).Underlying().(*types.Slice).Elem(), args, argT)
	case "copy":
		el := coreSlice(argT(0)).Elem()
		z := nslots(el)
		d := st.sliceOf(args[0])
		if _, ok := argT(1).Underlying().(*types.Basic); ok {
			src := st.strBytes(args[1])
			n := d.len
			if len(src) < n {
				n = len(src)
			}
			if n > 0 {
				copy(st.wr(d.o)[d.off:d.off+n], src[:n])
			}
			return cint(n)
		}
		s := st.sliceOf(args[1])
		n := d.len
		if s.len < n {
			n = s.len
		}
		if n > 0 {
			src := st.rd(s.o)
			dst := st.wr(d.o)
			if s.o == d.o {
				src = dst
			}
			copy(dst[d.off:d.off+n*z], src[s.off:s.off+n*z])
		}
		return cint(n)
	case "delete":
		if m, _ := args[0].p.(*Map); m != nil {
			m = st.wmap(m)
			k := st.mapKey(argT(0).Underlying().(*types.Map).Key(), args[1])
			if i, ok := m.m[k]; ok {
				delete(m.m, k)
				m.ents[i].dead = true
				m.ents[i].v = Val{}
				m.n--
			}
		}
		return Val{}
	case "clear":
		switch u := argT(0).Underlying().(type) {
		case *types.Map:
			if m, _ := args[0].p.(*Map); m != nil {
				m = st.wmap(m)
				m.m = map[any]int{}
				for i := range m.ents {
					m.ents[i].dead = true
				}
				m.n = 0
			}
		case *types.Slice:
			s := st.sliceOf(args[0])
			if s.len > 0 {
				w := st.wr(s.o)
				for i := 0; i < s.len*nslots(u.Elem()); i++ {
					w[s.off+i] = Val{}
				}
			}
		}
		return Val{}
	case "close":
		st.doClose(args[0])
		return Val{}
	case "panic":
		panic(goPanic{&panicRec{val: args[0], msg: st.panicString(args[0]), where: st.where()}})
	case "recover":
		return st.doRecover(g)
	case "print", "println":
		return Val{}
	case "min", "max":
		t := argT(0)
		ti := typeInfo(t)
		r := args[0]
		for i := 1; i < len(args); i++ {
			op := token.LSS
			if cc.builtin == "max" {
				op = token.GTR
			}
			c := st.binop(op, t, ti, args[i], r, t)
			if isSym(c) {
				if ti.k == kInt || ti.k == kUint {
					r = tval(st.tt.Ite(c.p.(*Term), st.term(args[i], ti.w), st.term(r, ti.w)))
					continue
				}
				if st.branch(c.p.(*Term)) {
					r = args[i]
				}
			} else if c.n != 0 {
				r = args[i]
			}
		}
		return r
	case "String": // unsafe.String
		n := int(int64(st.concVal(args[1], "unsafe.String len")))
		if n == 0 {
			return Val{}
		}
		o, off := st.ptr(args[0])
		return st.mkStr(append([]Val(nil), st.rd(o)[off:off+n]...))
	case "StringData":
		b := st.strBytes(args[0])
		if len(b) == 0 {
			return Val{}
		}
		o := st.newObj(len(b))
		copy(o.s, b)
		return Val{p: o}
	case "SliceData":
		s := st.sliceOf(args[0])
		if s.o == nil {
			return Val{}
		}
		return Val{p: s.o, n: uint64(s.off)}
	case "Slice":
		n := int(int64(st.concVal(args[1], "unsafe.Slice len")))
		if args[0].p == nil {
			return Val{}
		}
		o, off := st.ptr(args[0])
		return Val{p: &SliceV{o: o, off: off, len: n, cap: n}}
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			st.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return Val{}
	}
	st.unsupported("builtin %s", cc.builtin)
	return Val{}
}

// growCap mirrors runtime.growslice (without size-class rounding it would differ in aliasing, so the
// size classes are applied too).
func (st *State) doAppend(el types.Type, args []Val, argT func(int) types.Type) Val {
	z := nslots(el)
	s := st.sliceOf(args[0])
	var src []Val
	n := 0
	if _, ok := argT(1).Underlying().(*types.Basic); ok {
		src = st.strBytes(args[1])
		n = len(src)
	} else {
		b := st.sliceOf(args[1])
		n = b.len
		if n > 0 {
			src = st.rd(b.o)[b.off : b.off+n*z]
		}
	}
	if n == 0 {
		if args[0].p == nil {
			return Val{}
		}
		return args[0]
	}
	newLen := s.len + n
	if newLen <= s.cap {
		w := st.wr(s.o)
		copy(w[s.off+s.len*z:s.off+newLen*z], src)
		return Val{p: &SliceV{o: s.o, off: s.off, len: newLen, cap: s.cap}}
	}
	nc := growCap(s.cap, newLen, st.elemBytes(el))
	o := st.newObj(nc * z)
	if s.len > 0 {
		copy(o.s, st.rd(s.o)[s.off:s.off+s.len*z])
	}
	copy(o.s[s.len*z:], src)
	return Val{p: &SliceV{o: o, len: newLen, cap: nc}}
}

var sizes = types.SizesFor("gc", "amd64")

func (st *State) elemBytes(t types.Type) int {
	if v, ok := sizeCache.Load(t); ok {
		return v.(int)
	}
	n := int(sizes.Sizeof(t))
	sizeCache.Store(t, n)
	return n
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, newLen, esz int) int {
	nc := oldCap
	dbl := oldCap + oldCap
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz == 0 {
		return newLen
	}
	b := nc * esz
	if b <= 32768 {
		for _, c := range sizeClasses {
			if c >= b {
				return c / esz
			}
		}
	}
	pg := (b + 8191) / 8192 * 8192
	return pg / esz
}
