package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type limits struct {
	maxSteps   int64
	maxCells   int64
	maxConc    int
	maxPaths   int64
	deadline   time.Time
	maxSamples int
}

type obsRec struct {
	label string
	vals  []obsVal
}

type obsVal struct {
	t types.Type
	v Val
}

// State is one path execution.
type State struct {
	p        *Program
	w        *Worker
	ex       *Explorer
	tt       *Terms
	lim      *limits
	model    []uint64
	depth    int
	ndec     int
	pc       []*Term
	known    map[*Term]bool
	over     map[*Obj][]Val
	overMap  map[*Map]*Map
	overCh   map[*Chan]*Chan
	gs       []*G
	runq     []*G
	pollq    []*G
	delayed  []*G
	cur      *G
	resched  bool
	ngo      int
	nobj     int32
	cells    int64
	steps    int64
	now      int64
	settleAt map[*G]int64
	initMode bool
	obs      []string
	reach    map[string]bool
	asserts  int
	yields   map[string]int
	delays   []string
	budget   int
	redirect bool
	condq    map[wgKey][]*G
}

type wgKey struct {
	o   *Obj
	off int
}

type workItem struct {
	model []uint64
	depth int
}

type Violation struct {
	Kind    string         `json:"kind"`
	Msg     string         `json:"msg"`
	Where   string         `json:"where"`
	Vars    []VarValue     `json:"vars"`
	Delays  []string       `json:"delays,omitempty"`
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params,omitempty"`
}

type VarValue struct {
	Name string `json:"name"`
	Val  int64  `json:"val"`
}

type PathSample struct {
	Vars   []VarValue `json:"vars"`
	Obs    []string   `json:"obs"`
	Delays []string   `json:"delays,omitempty"`
}

type Explorer struct {
	p       *Program
	harness string
	params  map[string]int
	lim     *limits
	mu      sync.Mutex
	cond    *sync.Cond
	queue   []workItem
	active  int
	stop    bool

	paths, ok, infeasible, unsup, limited, hang, panics, viol, solverUnk int64
	transitions                                                          int64
	asserts                                                              int64
	steps                                                                int64
	maxSteps                                                             int64
	unsupMsgs                                                            map[string]int
	limitMsgs                                                            map[string]int
	reach                                                                map[string]bool
	violations                                                           []*Violation
	vkeys                                                                map[string]int
	samples                                                              []PathSample
	truncated                                                            string
	stats                                                                *SolverStats
	cache                                                                *queryCache
	seed                                                                 int64
	preempt                                                              int
	maxViol                                                              int
	dedupe                                                               map[string]bool
}

type Worker struct {
	ex     *Explorer
	solver *Solver
}

func (st *State) pcSlice(seed []*Term) []*Term {
	inV := make(map[int32]bool)
	for _, s := range seed {
		for _, v := range s.vars {
			inV[v] = true
		}
	}
	used := make([]bool, len(st.pc))
	for {
		ch := false
		for i, c := range st.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vars {
				if inV[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				for _, v := range c.vars {
					if !inV[v] {
						inV[v] = true
						ch = true
					}
				}
			}
		}
		if !ch {
			break
		}
	}
	var out []*Term
	for i, c := range st.pc {
		if used[i] {
			out = append(out, c)
		}
	}
	return out
}

// query decides pc-slice and extra; on sat it returns the full model extended from the path's.
func (st *State) query(extra ...*Term) (satResult, []uint64) {
	conds := append(st.pcSlice(extra), extra...)
	for _, c := range conds {
		if c.op == OConst && c.val == 0 {
			return rUnsat, nil
		}
	}
	res, vlist, vals := st.w.solver.check(st.tt, conds)
	if res != rSat {
		if res == rUnknown {
			atomic.AddInt64(&st.ex.solverUnk, 1)
		}
		return res, nil
	}
	m := make([]uint64, len(st.tt.vars))
	for i, v := range st.tt.vars {
		m[i] = v.t.val
	}
	for i, v := range vlist {
		m[v] = vals[i]
	}
	for _, c := range conds { // the model must satisfy the query it answers
		if evalUnder(c, m) != 1 {
			st.ex.note(&st.ex.unsupMsgs, "solver model does not satisfy its query")
			atomic.AddInt64(&st.ex.solverUnk, 1)
			return rUnknown, nil
		}
	}
	return rSat, m
}

func (st *State) push(m []uint64) {
	if st.initMode {
		return
	}
	st.ex.push(workItem{m, st.ndec})
}

func (st *State) addPC(c *Term) {
	if c.op == OConst {
		return
	}
	st.pc = append(st.pc, c)
	st.known[c] = true
}

// branch follows the model's direction and schedules the other one if feasible.
func (st *State) branch(c *Term) bool {
	if c.op == OConst {
		return c.val != 0
	}
	if v, ok := st.known[c]; ok {
		return v
	}
	neg := st.tt.Not(c)
	if v, ok := st.known[neg]; ok {
		return !v
	}
	v := c.val != 0
	taken, other := c, neg
	if !v {
		taken, other = neg, c
	}
	st.ndec++
	if st.ndec > st.depth {
		atomic.AddInt64(&st.ex.transitions, 1)
		if r, m := st.query(other); r == rSat {
			st.push(m)
		}
	}
	st.addPC(taken)
	st.known[c] = v
	return v
}

// concretize fixes t to its model value on this path and schedules every other feasible value.
func (st *State) concretize(t *Term, what string) uint64 {
	if t.op == OConst {
		return t.val
	}
	tt := st.tt
	eq := func(v uint64) *Term {
		if t.w == 0 {
			if v == 1 {
				return t
			}
			return tt.Not(t)
		}
		return tt.Eq(t, tt.Const(v, t.w))
	}
	if st.known[eq(t.val)] {
		return t.val
	}
	st.ndec++
	if st.ndec > st.depth {
		var excl []*Term
		excl = append(excl, tt.Not(eq(t.val)))
		for n := 0; ; n++ {
			if n >= st.lim.maxConc {
				st.ex.note(&st.ex.limitMsgs, fmt.Sprintf("more than %d values for %s at %s", st.lim.maxConc, what, st.where()))
				atomic.AddInt64(&st.ex.limited, 1)
				break
			}
			r, m := st.query(excl...)
			if r != rSat {
				break
			}
			atomic.AddInt64(&st.ex.transitions, 1)
			st.push(m)
			excl = append(excl, tt.Not(eq(evalUnder(t, m))))
		}
	}
	e := eq(t.val)
	st.addPC(e)
	st.known[e] = true
	return t.val
}

func (st *State) concVal(v Val, what string) uint64 {
	if t, ok := v.p.(*Term); ok {
		return st.concretize(t, what)
	}
	return v.n
}

// evalUnder evaluates a term under another model.
func evalUnder(t *Term, m []uint64) uint64 {
	memo := map[*Term]uint64{}
	var ev func(t *Term) uint64
	ev = func(t *Term) uint64 {
		switch t.op {
		case OConst:
			return t.val
		case OVar:
			return m[t.vars[0]] & mask(t.w)
		}
		if v, ok := memo[t]; ok {
			return v
		}
		var a, b, c uint64
		aw := uint8(0)
		if t.a != nil {
			a = ev(t.a)
			aw = t.a.w
		}
		if t.b != nil {
			b = ev(t.b)
		}
		if t.c != nil {
			c = ev(t.c)
		}
		r := evalOp(t.op, t.w, aw, a, b, c)
		memo[t] = r
		return r
	}
	return ev(t)
}

func (st *State) newVar(name string, w uint8, signed bool, lo, hi int64) *Term {
	vi := &VarInfo{name: name, w: w, signed: signed, slo: lo, shi: hi, ranged: true}
	if lo >= 0 || !signed {
		vi.lo, vi.hi = uint64(lo)&mask(w), uint64(hi)&mask(w)
	} else {
		vi.lo, vi.hi = 0, mask(w)
		if hi < 0 {
			vi.lo, vi.hi = uint64(lo)&mask(w), uint64(hi)&mask(w)
		}
	}
	i := len(st.tt.vars)
	val := uint64(lo) & mask(w)
	if i < len(st.model) {
		val = st.model[i]
	}
	return st.tt.NewVar(vi, val)
}

// choose picks nondeterministically among n alternatives (a symbolic variable, concretized).
func (st *State) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	t := st.newVar(name, 8, false, 0, int64(n-1))
	return int(st.concretize(t, name))
}

func (st *State) assume(c *Term) {
	if c.op == OConst {
		if c.val == 0 {
			st.end(endInfeasible, "")
		}
		return
	}
	if v, ok := st.known[c]; ok {
		if !v {
			st.end(endInfeasible, "")
		}
		return
	}
	st.ndec++
	if c.val == 0 {
		if st.ndec > st.depth {
			if r, m := st.query(c); r == rSat {
				st.push(m)
			}
		}
		st.redirect = true
		st.end(endInfeasible, "")
	}
	st.addPC(c)
}

func (st *State) assert(c *Term, msg string) {
	st.asserts++
	if c.op == OConst {
		atomic.AddInt64(&st.ex.asserts, 1)
		if c.val == 0 {
			st.violation("assert", msg, nil)
			st.end(endViolation, msg)
		}
		return
	}
	if v, ok := st.known[c]; ok && v {
		return
	}
	st.ndec++
	if st.ndec > st.depth {
		atomic.AddInt64(&st.ex.asserts, 1)
		neg := st.tt.Not(c)
		if c.val == 0 {
			st.violation("assert", msg, nil)
			// continue on a model where it holds, if any
			if r, m := st.query(c); r == rSat {
				st.push(m)
			}
			st.end(endViolation, msg)
		}
		if r, m := st.query(neg); r == rSat {
			st.violation("assert", msg, m)
		}
	} else if c.val == 0 {
		st.end(endViolation, msg)
	}
	st.addPC(c)
}

func (st *State) varValues(m []uint64) []VarValue {
	var out []VarValue
	for i, v := range st.tt.vars {
		x := v.t.val
		if m != nil && i < len(m) {
			x = m[i]
		}
		y := int64(x)
		if v.signed {
			y = sext(x, v.w)
		}
		out = append(out, VarValue{v.name, y})
	}
	return out
}

func (st *State) violation(kind, msg string, m []uint64) {
	ex := st.ex
	v := &Violation{Kind: kind, Msg: msg, Where: st.where(), Vars: st.varValues(m), Delays: append([]string(nil), st.delays...), Harness: ex.harness, Params: ex.params}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if kind != "limit" && !strings.HasPrefix(msg, "[F") {
		atomic.AddInt64(&ex.viol, 1)
	}
	key := kind + "|" + vkey(msg)
	ex.vkeys[key]++
	if ex.vkeys[key] <= 4 && len(ex.violations) < 400 {
		ex.violations = append(ex.violations, v)
	}
	if ex.viol >= int64(ex.maxViol) {
		ex.stop = true
		ex.truncated = "stopped after the violation limit"
		ex.cond.Broadcast()
	}
}

func vkey(msg string) string {
	if i := strings.Index(msg, " @ "); i >= 0 {
		return msg[i:]
	}
	return msg
}

func (ex *Explorer) note(m *map[string]int, msg string) {
	ex.mu.Lock()
	(*m)[msg]++
	ex.mu.Unlock()
}

func (ex *Explorer) push(it workItem) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, it)
	ex.cond.Signal()
	ex.mu.Unlock()
}

func (ex *Explorer) pop() (workItem, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return workItem{}, false
		}
		if len(ex.queue) > 0 {
			// mostly depth first (small queue), occasionally from the front for breadth
			n := len(ex.queue)
			k := n - 1
			if ex.paths%4 == 0 {
				k = int((uint64(ex.paths)*2654435761 + uint64(ex.seed)) % uint64(n))
			}
			it := ex.queue[k]
			ex.queue[k] = ex.queue[n-1]
			ex.queue = ex.queue[:n-1]
			ex.active++
			return it, true
		}
		if ex.active == 0 {
			ex.cond.Broadcast()
			return workItem{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) doneOne() {
	ex.mu.Lock()
	ex.active--
	if ex.active == 0 && len(ex.queue) == 0 {
		ex.cond.Broadcast()
	}
	if !ex.stop && (time.Now().After(ex.lim.deadline) || ex.paths >= ex.lim.maxPaths) {
		if len(ex.queue) > 0 || ex.active > 0 {
			ex.truncated = fmt.Sprintf("time or path budget reached with %d work items left", len(ex.queue)+ex.active)
		}
		ex.stop = true
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
}

// run explores every feasible path of one harness function.
func (ex *Explorer) run(fi *fnInfo, workers int, mkSolver func() *Solver) {
	ex.cond = sync.NewCond(&ex.mu)
	ex.queue = []workItem{{nil, 0}}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &Worker{ex: ex, solver: mkSolver()}
			defer w.solver.stop()
			for {
				it, ok := ex.pop()
				if !ok {
					return
				}
				w.runPath(fi, it)
				ex.doneOne()
			}
		}()
	}
	wg.Wait()
}

func newState(p *Program, ex *Explorer, w *Worker, it workItem) *State {
	return &State{
		p: p, w: w, ex: ex, tt: newTerms(), lim: ex.lim, model: it.model, depth: it.depth,
		known: map[*Term]bool{}, over: map[*Obj][]Val{}, overMap: map[*Map]*Map{}, overCh: map[*Chan]*Chan{},
		settleAt: map[*G]int64{}, reach: map[string]bool{}, yields: map[string]int{},
		condq: map[wgKey][]*G{}, budget: ex.preempt, now: 1,
	}
}

func (w *Worker) runPath(fi *fnInfo, it workItem) {
	ex := w.ex
	st := newState(ex.p, ex, w, it)
	res := st.execute(fi)
	atomic.AddInt64(&ex.paths, 1)
	atomic.AddInt64(&ex.steps, st.steps)
	if os.Getenv("VTRACE") != "" {
		fmt.Fprintf(os.Stderr, "path dec=%d steps=%d end=%d %s vars=%v\n", st.ndec, st.steps, res.kind, res.msg, st.varValues(nil))
	}
	switch res.kind {
	case endOK:
		atomic.AddInt64(&ex.ok, 1)
		ex.mu.Lock()
		if st.steps > ex.maxSteps {
			ex.maxSteps = st.steps
		}
		for k := range st.reach {
			ex.reach[k] = true
		}
		// reservoir of passing paths for validation against the compiled code
		s := PathSample{Vars: st.varValues(nil), Obs: st.obs, Delays: st.delays}
		if len(ex.samples) < ex.lim.maxSamples {
			ex.samples = append(ex.samples, s)
		} else if ex.lim.maxSamples > 0 {
			k := int((uint64(ex.ok)*6364136223846793005 + uint64(ex.seed)*1442695040888963407) >> 33 % uint64(ex.ok))
			if k < ex.lim.maxSamples {
				ex.samples[k] = s
			}
		}
		ex.mu.Unlock()
	case endInfeasible:
		atomic.AddInt64(&ex.infeasible, 1)
	case endUnsupported:
		atomic.AddInt64(&ex.unsup, 1)
		ex.note(&ex.unsupMsgs, res.msg)
	case endLimit:
		atomic.AddInt64(&ex.limited, 1)
		ex.note(&ex.limitMsgs, res.msg)
		st.violation("limit", res.msg, nil)
	case endHang:
		atomic.AddInt64(&ex.hang, 1)
		st.violation("hang", res.msg, nil)
	case endPanic:
		atomic.AddInt64(&ex.panics, 1)
		st.violation("panic", res.msg, nil)
	case endViolation:
	}
}

func (st *State) execute(fi *fnInfo) (res pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				res = x
			case goPanic:
				res = pathEnd{endPanic, "panic: " + x.rec.msg + " @ " + x.rec.where}
			default:
				if os.Getenv("VDEBUG") != "" {
					panic(r)
				}
				res = pathEnd{endUnsupported, fmt.Sprintf("engine error: %v at %s", r, st.where())}
			}
		}
	}()
	g := &G{id: 0}
	st.gs = append(st.gs, g)
	st.cur = g
	st.pushCall(g, fi, nil, nil, -1)
	st.runq = append(st.runq, g)
	st.schedule(g)
	return pathEnd{endOK, ""}
}

// runInit executes the initializer of the harness package (and so of everything it imports)
// concretely into the shared base heap. Statements the engine cannot execute are skipped and recorded.
func (p *Program) runInit(ex *Explorer, sp *ssa.Package) {
	st := newState(p, ex, nil, workItem{})
	st.initMode = true
	f := sp.Func("init")
	g := &G{id: 0}
	st.gs = append(st.gs, g)
	st.cur = g
	st.pushCall(g, p.fnInfo(f), nil, nil, -1)
	for !g.done {
		if g.wait != nil { // nothing may block in an initializer
			g.wait = nil
			st.initTolerate(g, "blocked in init: "+g.why)
			continue
		}
		st.runG(g)
	}
	p.initSteps = st.steps
}

func sortedKeys(m map[string]int) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Slice(k, func(i, j int) bool { return m[k[i]] > m[k[j]] })
	return k
}
