package main

import (
	"fmt"
	"go/types"
	"sync"
)

var implCache, sizeCache sync.Map

type waiter struct {
	g    *G
	ch   *Chan
	sel  *selState
	idx  int
	send bool
	val  Val
	dst  int // register of the receive result
	ok   bool
}

// selState is shared by all cases of one blocked operation.
type selState struct {
	done bool
	fin  func(st *State, idx int, v Val, ok bool)
}

type Chan struct {
	cap    int
	buf    []Val
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	elem   types.Type
	base   bool
}

func (st *State) chanOf(v Val) *Chan {
	c := v.p.(*Chan)
	if c.base && !st.initMode {
		if o, ok := st.overCh[c]; ok {
			return o
		}
		n := &Chan{cap: c.cap, buf: append([]Val(nil), c.buf...), closed: c.closed, elem: c.elem}
		st.overCh[c] = n
		return n
	}
	return c
}

func popq(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.sel.done {
			return w
		}
	}
	return nil
}

func peekq(q *[]*waiter) bool {
	for len(*q) > 0 {
		if !(*q)[0].sel.done {
			return true
		}
		*q = (*q)[1:]
	}
	return false
}

func (st *State) wake(w *waiter, v Val, ok bool) {
	w.sel.done = true
	w.sel.fin(st, w.idx, v, ok)
}

func (st *State) block(g *G, why string) {
	g.why = why
	g.wait = func() bool { return false }
}

func (st *State) unblock(g *G) {
	g.wait = nil
	g.why = ""
	st.runq = append(st.runq, g)
}

// trySend performs a send if it can proceed.
func (st *State) trySend(ch *Chan, v Val) bool {
	if ch.closed {
		panic(goPanic{&panicRec{val: st.errIface("send on closed channel"), msg: "send on closed channel", where: st.where()}})
	}
	if w := popq(&ch.recvq); w != nil {
		st.wake(w, v, true)
		return true
	}
	if len(ch.buf) < ch.cap {
		ch.buf = append(ch.buf, v)
		return true
	}
	return false
}

func (st *State) tryRecv(ch *Chan) (Val, bool, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]Val(nil), ch.buf[1:]...)
		if w := popq(&ch.sendq); w != nil {
			ch.buf = append(ch.buf, w.val)
			st.wake(w, Val{}, true)
		}
		return v, true, true
	}
	if w := popq(&ch.sendq); w != nil {
		v := w.val
		st.wake(w, Val{}, true)
		return v, true, true
	}
	if ch.closed {
		return Val{}, false, true
	}
	return Val{}, false, false
}

func (st *State) errIface(msg string) Val {
	if st.p.rtErr != nil {
		return Val{p: &Iface{t: st.p.rtErr, v: Val{p: &Agg{[]Val{cstr(msg)}}}}}
	}
	return Val{p: &Iface{t: types.Typ[types.String], v: cstr(msg)}}
}

func (st *State) doSend(g *G, cv, v Val) {
	if cv.p == nil {
		st.block(g, "send on nil channel")
		return
	}
	ch := st.chanOf(cv)
	if st.trySend(ch, v) {
		return
	}
	w := &waiter{g: g, ch: ch, send: true, val: v}
	w.sel = &selState{fin: func(st *State, idx int, v Val, ok bool) {
		if !ok { // closed while blocked
			g.wait = nil
			st.runq = append(st.runq, g)
			g.frames[len(g.frames)-1].pc-- // re-execute: panics on the closed channel
			return
		}
		st.unblock(g)
	}}
	ch.sendq = append(ch.sendq, w)
	st.block(g, "chan send at "+st.where())
}

func (st *State) doRecv(g *G, f *Frame, cv Val, dst int, commaOk bool) {
	if cv.p == nil {
		st.block(g, "receive on nil channel")
		return
	}
	ch := st.chanOf(cv)
	set := func(v Val, ok bool) {
		if dst < 0 {
			return
		}
		if commaOk {
			f.regs[dst] = Val{p: Tuple{v, cbool(ok)}}
		} else {
			f.regs[dst] = v
		}
	}
	if v, ok, can := st.tryRecv(ch); can {
		set(v, ok)
		return
	}
	w := &waiter{g: g, ch: ch}
	w.sel = &selState{fin: func(st *State, idx int, v Val, ok bool) {
		set(v, ok)
		st.unblock(g)
	}}
	ch.recvq = append(ch.recvq, w)
	st.block(g, "chan receive at "+st.where())
}

func (st *State) doClose(cv Val) {
	if cv.p == nil {
		st.rtPanic("close of nil channel")
	}
	ch := st.chanOf(cv)
	if ch.closed {
		panic(goPanic{&panicRec{val: st.errIface("close of closed channel"), msg: "close of closed channel", where: st.where()}})
	}
	ch.closed = true
	for {
		w := popq(&ch.recvq)
		if w == nil {
			break
		}
		st.wake(w, Val{}, false)
	}
	for {
		w := popq(&ch.sendq)
		if w == nil {
			break
		}
		st.wake(w, Val{}, false)
	}
}

func (st *State) doSelect(g *G, f *Frame, c *cins) {
	sc := c.x.(*selCompiled)
	nrecv := 0
	recvIdx := make([]int, len(sc.chans))
	for i := range sc.chans {
		recvIdx[i] = -1
		if !sc.dirs[i] {
			recvIdx[i] = nrecv
			nrecv++
		}
	}
	result := func(idx int, v Val, ok bool) Val {
		t := make(Tuple, 2+nrecv)
		t[0] = Val{n: uint64(int64(idx))}
		t[1] = cbool(ok)
		if idx >= 0 && recvIdx[idx] >= 0 {
			t[2+recvIdx[idx]] = v
		}
		return Val{p: t}
	}
	var ready []int
	for i := range sc.chans {
		cv := f.val(sc.chans[i])
		if cv.p == nil {
			continue
		}
		ch := st.chanOf(cv)
		if sc.dirs[i] {
			if ch.closed || len(ch.buf) < ch.cap || peekq(&ch.recvq) {
				ready = append(ready, i)
			}
		} else if len(ch.buf) > 0 || ch.closed || peekq(&ch.sendq) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 && !st.initMode {
			// the choice between several ready cases is nondeterministic
			k = st.choose("select", len(ready))
		}
		i := ready[k]
		ch := st.chanOf(f.val(sc.chans[i]))
		if sc.dirs[i] {
			st.trySend(ch, f.val(sc.sends[i]))
			f.regs[c.dst] = result(i, Val{}, false)
		} else {
			v, ok, _ := st.tryRecv(ch)
			f.regs[c.dst] = result(i, v, ok)
		}
		return
	}
	if !sc.blocking {
		f.regs[c.dst] = result(-1, Val{}, false)
		return
	}
	sel := &selState{}
	sel.fin = func(st *State, idx int, v Val, ok bool) {
		if sc.dirs[idx] && !ok {
			g.wait = nil
			st.runq = append(st.runq, g)
			f.pc--
			return
		}
		if sc.dirs[idx] {
			ok = false
		}
		f.regs[c.dst] = result(idx, v, ok)
		st.unblock(g)
	}
	any := false
	for i := range sc.chans {
		cv := f.val(sc.chans[i])
		if cv.p == nil {
			continue
		}
		any = true
		ch := st.chanOf(cv)
		w := &waiter{g: g, ch: ch, sel: sel, idx: i, send: sc.dirs[i]}
		if sc.dirs[i] {
			w.val = f.val(sc.sends[i])
			ch.sendq = append(ch.sendq, w)
		} else {
			ch.recvq = append(ch.recvq, w)
		}
	}
	_ = any
	st.block(g, "select at "+st.where())
}

func (st *State) spawn(fv Val, args []Val, cc *callC) *G {
	st.ngo++
	g := &G{id: st.ngo}
	if len(st.gs) > 200 {
		st.end(endLimit, "goroutine limit")
	}
	st.gs = append(st.gs, g)
	if cc != nil && cc.builtin != "" {
		st.unsupported("go builtin")
	}
	cl, ok := fv.p.(*Closure)
	if !ok {
		st.rtPanic("go of nil func value")
	}
	cur := st.cur
	st.cur = g
	st.callClosure(g, cl, args, -1)
	st.cur = cur
	if len(g.frames) == 0 {
		g.done = true
	} else {
		st.runq = append(st.runq, g)
	}
	return g
}

// blockUntil parks g until pred holds; the scheduler polls pred.
func (st *State) blockUntil(g *G, why string, pred func() bool) {
	g.why = why
	g.wait = pred
	st.pollq = append(st.pollq, g)
}

func (st *State) poll() {
	if len(st.pollq) == 0 {
		return
	}
	q := st.pollq[:0:0]
	for _, g := range st.pollq {
		if g.wait != nil && g.wait() {
			st.unblock(g)
		} else if g.wait != nil {
			q = append(q, g)
		}
	}
	st.pollq = q
}

// schedule runs the whole system until the main goroutine finishes.
func (st *State) schedule(main *G) {
	for !main.done {
		st.poll()
		if len(st.runq) == 0 {
			if !st.idle(main) {
				return
			}
			continue
		}
		g := st.runq[0]
		st.runq = st.runq[1:]
		if g.done || g.wait != nil {
			continue
		}
		st.runG(g)
		if !g.done && g.wait == nil {
			// yielded (delayed): goes to the back; runs again only when the others block
			st.runq = append(st.runq, g)
		}
	}
}

// idle is called when nothing is runnable.
func (st *State) idle(main *G) bool {
	// delayed goroutines first come back (they are "slow", not blocked)
	if len(st.delayed) > 0 {
		g := st.delayed[0]
		st.delayed = st.delayed[1:]
		st.unblock(g)
		return true
	}
	// sleepers before settle waiters: virtual time advances only when everything is blocked
	var best *G
	for _, g := range st.gs {
		if g.done || g.wait == nil || g.wakeAt == 0 {
			continue
		}
		if best == nil || g.wakeAt < best.wakeAt {
			best = g
		}
	}
	for _, g := range st.gs {
		if g.settle && !g.done && (best == nil || st.settleBefore(g, best)) {
			g.settle = false
			st.unblock(g)
			return true
		}
	}
	if best != nil {
		if best.wakeAt > st.now {
			st.now = best.wakeAt
		}
		best.wakeAt = 0
		st.unblock(best)
		return true
	}
	msg := ""
	for _, g := range st.gs {
		if !g.done {
			msg += fmt.Sprintf("[g%d %s] ", g.id, g.why)
		}
	}
	st.end(endHang, "deadlock: nothing can proceed: main waits in "+main.why+" | all: "+msg)
	return false
}

// settleBefore: a settle waiter gives sleepers up to settleSpan of virtual time.
func (st *State) settleBefore(s, sleeper *G) bool {
	return sleeper.wakeAt > s.wakeAtSettle(st)
}

func (g *G) wakeAtSettle(st *State) int64 { return st.settleAt[g] }
