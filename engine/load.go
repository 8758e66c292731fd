package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded SSA program plus compiled functions.
type Program struct {
	prog      *ssa.Program
	fset      *token.FileSet
	mains     []*ssa.Package
	pkgs      map[string]*ssa.Package
	fns       sync.Map // *ssa.Function -> *fnInfo
	globals   sync.Map // *ssa.Global -> *Obj
	methods   sync.Map // methodKey -> *ssa.Function
	mu        sync.Mutex
	model     *ssa.Package
	rtErr     types.Type
	errStr    types.Type
	funcs     sync.Map // names of readline functions encoded (executed symbolically)
	buildMu   sync.Mutex
	initSteps int64
	target    string // import path prefix of the code under verification
}

type opnd struct {
	reg int
	v   Val
}

type cins struct {
	op  uint8
	ins ssa.Instruction
	dst int
	a   []opnd
	x   any
	t   types.Type
	ti  tinfo
	n   int
}

type cblock struct {
	phis  []cphi
	ins   []cins
	succs []int
	preds []int
}

type cphi struct {
	dst   int
	edges []opnd
}

type fnInfo struct {
	fn     *ssa.Function
	name   string
	nreg   int
	params []int
	frees  []int
	blocks []cblock
	recov  int
	intr   intrinsicFn
	target bool
	isInit bool
	once   sync.Once
	err    error
	calls  int64
}

const (
	iAlloc = iota
	iBinOp
	iUnOp
	iCall
	iChangeInterface
	iChangeType
	iConvert
	iMultiConvert
	iDebugRef
	iDefer
	iExtract
	iField
	iFieldAddr
	iGo
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeChan
	iMakeClosure
	iMakeInterface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iSelect
	iSend
	iSlice
	iSliceToArrayPointer
	iStore
	iTypeAssert
)

func loadProgram(dir string, patterns []string, overlay map[string][]byte, env []string, target string) (*Program, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     dir,
		Overlay: overlay,
		Env:     append(os.Environ(), env...),
	}
	pk, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs, "; "))
	}
	prog, spk := ssautil.AllPackages(pk, ssa.InstantiateGenerics|ssa.SanityCheckFunctions*0)
	p := &Program{prog: prog, fset: prog.Fset, mains: spk, pkgs: map[string]*ssa.Package{}, target: target}
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	p.model = p.pkgs["verif/harness/model"]
	if p.model != nil {
		if t := p.model.Type("RuntimeError"); t != nil {
			p.rtErr = t.Type()
		}
	}
	p.pre()
	return p, nil
}

// pre builds the packages that are nearly always needed.
func (p *Program) pre() {
	var wg sync.WaitGroup
	for path, sp := range p.pkgs {
		if strings.HasPrefix(path, p.target) || strings.HasPrefix(path, "verif/") {
			wg.Add(1)
			go func(sp *ssa.Package) { defer wg.Done(); sp.Build() }(sp)
		}
	}
	wg.Wait()
}

func (p *Program) fnInfo(f *ssa.Function) *fnInfo {
	if v, ok := p.fns.Load(f); ok {
		return v.(*fnInfo)
	}
	fi := &fnInfo{fn: f, name: f.String()}
	fi.isInit = f.Synthetic == "package initializer"
	if f.Pkg != nil {
		fi.target = strings.HasPrefix(f.Pkg.Pkg.Path(), p.target)
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		fi.target = strings.HasPrefix(o.Pkg.Pkg.Path(), p.target)
	}
	nm := fi.name
	if o := f.Origin(); o != nil {
		nm = o.String()
	}
	fi.intr = lookupIntrinsic(nm)
	v, _ := p.fns.LoadOrStore(f, fi)
	return v.(*fnInfo)
}

func (p *Program) global(g *ssa.Global) *Obj {
	if v, ok := p.globals.Load(g); ok {
		return v.(*Obj)
	}
	t := g.Type().(*types.Pointer).Elem()
	o := &Obj{s: make([]Val, nslots(t)), base: true, note: g.String()}
	v, _ := p.globals.LoadOrStore(g, o)
	return v.(*Obj)
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return Val{}
	}
	ti := typeInfo(c.Type())
	switch ti.k {
	case kBool:
		return cbool(constant.BoolVal(c.Value))
	case kInt, kUint:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Val{n: uint64(i) & mask(ti.w)}
		}
		u, _ := constant.Uint64Val(v)
		return Val{n: u & mask(ti.w)}
	case kFloat:
		f, _ := constant.Float64Val(c.Value)
		if ti.w == 32 {
			f = float64(float32(f))
		}
		return Val{n: math.Float64bits(f)}
	case kString:
		if c.Value.Kind() == constant.String {
			return cstr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return cstr(string(rune(i)))
	case kPtr:
		u, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return Val{n: u}
	}
	return Val{}
}

// compile translates a function body into register form.
func (p *Program) compile(fi *fnInfo) error {
	fi.once.Do(func() { fi.err = p.doCompile(fi) })
	return fi.err
}

func (p *Program) doCompile(fi *fnInfo) (err error) {
	f := fi.fn
	if f.Blocks == nil {
		p.buildMu.Lock()
		if f.Pkg != nil {
			f.Pkg.Build()
		} else if o := f.Origin(); o != nil && o.Pkg != nil {
			o.Pkg.Build()
		}
		p.buildMu.Unlock()
	}
	if f.Blocks == nil {
		return fmt.Errorf("no body for %s", fi.name)
	}
	regs := map[ssa.Value]int{}
	alloc := func(v ssa.Value) int {
		if r, ok := regs[v]; ok {
			return r
		}
		r := fi.nreg
		fi.nreg++
		regs[v] = r
		return r
	}
	for _, q := range f.Params {
		fi.params = append(fi.params, alloc(q))
	}
	for _, q := range f.FreeVars {
		fi.frees = append(fi.frees, alloc(q))
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	op := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case nil:
			return opnd{reg: -2}
		case *ssa.Const:
			return opnd{reg: -1, v: constVal(x)}
		case *ssa.Global:
			return opnd{reg: -1, v: Val{p: p.global(x)}}
		case *ssa.Function:
			return opnd{reg: -1, v: Val{p: &Closure{fi: p.fnInfo(x)}}}
		case *ssa.Builtin:
			return opnd{reg: -2}
		}
		r, ok := regs[v]
		if !ok {
			panic(fmt.Sprintf("no register for %v (%T) in %s", v, v, fi.name))
		}
		return opnd{reg: r}
	}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("compile %s: %v", fi.name, r)
		}
	}()
	fi.recov = -1
	if f.Recover != nil {
		fi.recov = f.Recover.Index
	}
	for _, b := range f.Blocks {
		cb := cblock{}
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, s := range b.Preds {
			cb.preds = append(cb.preds, s.Index)
		}
		for _, in := range b.Instrs {
			c := cins{ins: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				c.dst = regs[v]
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				ph := cphi{dst: c.dst}
				for _, e := range x.Edges {
					ph.edges = append(ph.edges, op(e))
				}
				cb.phis = append(cb.phis, ph)
				continue
			case *ssa.Alloc:
				c.op = iAlloc
				c.n = nslots(x.Type().Underlying().(*types.Pointer).Elem())
			case *ssa.BinOp:
				c.op = iBinOp
				c.a = []opnd{op(x.X), op(x.Y)}
				c.t = x.X.Type()
				c.ti = typeInfo(c.t)
			case *ssa.UnOp:
				c.op = iUnOp
				c.a = []opnd{op(x.X)}
				c.t = x.Type()
				c.ti = typeInfo(x.X.Type())
			case *ssa.Call:
				c.op = iCall
				c.x = compileCall(&x.Call, op)
			case *ssa.Go:
				c.op = iGo
				c.x = compileCall(&x.Call, op)
			case *ssa.Defer:
				c.op = iDefer
				c.x = compileCall(&x.Call, op)
				if x.DeferStack != nil {
					c.a = []opnd{op(x.DeferStack)}
				}
			case *ssa.ChangeInterface:
				c.op = iChangeInterface
				c.a = []opnd{op(x.X)}
			case *ssa.ChangeType:
				c.op = iChangeType
				c.a = []opnd{op(x.X)}
			case *ssa.Convert:
				c.op = iConvert
				c.a = []opnd{op(x.X)}
				c.t = x.Type()
			case *ssa.MultiConvert:
				c.op = iMultiConvert
				c.a = []opnd{op(x.X)}
				c.t = x.Type()
			case *ssa.Extract:
				c.op = iExtract
				c.a = []opnd{op(x.Tuple)}
				c.n = x.Index
			case *ssa.Field:
				c.op = iField
				c.a = []opnd{op(x.X)}
				s := x.X.Type().Underlying().(*types.Struct)
				c.n = structLayout(s).offs[x.Field]
				c.t = s.Field(x.Field).Type()
				c.x = structLayout(s).n
			case *ssa.FieldAddr:
				c.op = iFieldAddr
				c.a = []opnd{op(x.X)}
				s := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				c.n = structLayout(s).offs[x.Field]
			case *ssa.If:
				c.op = iIf
				c.a = []opnd{op(x.Cond)}
			case *ssa.Index:
				c.op = iIndex
				c.a = []opnd{op(x.X), op(x.Index)}
				c.t = x.X.Type()
				c.ti = typeInfo(x.Index.Type())
			case *ssa.IndexAddr:
				c.op = iIndexAddr
				c.a = []opnd{op(x.X), op(x.Index)}
				c.ti = typeInfo(x.Index.Type())
				switch u := x.X.Type().Underlying().(type) {
				case *types.Pointer:
					at := u.Elem().Underlying().(*types.Array)
					c.n = nslots(at.Elem())
					c.x = int(at.Len())
					c.t = at.Elem()
				case *types.Slice:
					c.n = nslots(u.Elem())
					c.t = u.Elem()
				default:
					if sl := coreSlice(x.X.Type()); sl != nil {
						c.n = nslots(sl.Elem())
						c.t = sl.Elem()
					} else {
						return fmt.Errorf("IndexAddr on %v", x.X.Type())
					}
				}
			case *ssa.Jump:
				c.op = iJump
			case *ssa.Lookup:
				c.op = iLookup
				c.a = []opnd{op(x.X), op(x.Index)}
				c.t = x.X.Type()
				c.ti = typeInfo(x.Index.Type())
				c.n = 0
				if x.CommaOk {
					c.n = 1
				}
			case *ssa.MakeChan:
				c.op = iMakeChan
				c.a = []opnd{op(x.Size)}
				c.t = x.Type()
			case *ssa.MakeClosure:
				c.op = iMakeClosure
				for _, bnd := range x.Bindings {
					c.a = append(c.a, op(bnd))
				}
				c.x = p.fnInfo(x.Fn.(*ssa.Function))
			case *ssa.MakeInterface:
				c.op = iMakeInterface
				c.a = []opnd{op(x.X)}
				c.t = x.X.Type()
			case *ssa.MakeMap:
				c.op = iMakeMap
			case *ssa.MakeSlice:
				c.op = iMakeSlice
				c.a = []opnd{op(x.Len), op(x.Cap)}
				c.t = x.Type().Underlying().(*types.Slice).Elem()
				c.n = nslots(c.t)
			case *ssa.MapUpdate:
				c.op = iMapUpdate
				c.a = []opnd{op(x.Map), op(x.Key), op(x.Value)}
				c.t = x.Map.Type().Underlying().(*types.Map).Key()
			case *ssa.Next:
				c.op = iNext
				c.a = []opnd{op(x.Iter)}
				c.n = 0
				if x.IsString {
					c.n = 1
				}
			case *ssa.Panic:
				c.op = iPanic
				c.a = []opnd{op(x.X)}
			case *ssa.Range:
				c.op = iRange
				c.a = []opnd{op(x.X)}
				c.t = x.X.Type()
			case *ssa.Return:
				c.op = iReturn
				for _, r := range x.Results {
					c.a = append(c.a, op(r))
				}
			case *ssa.RunDefers:
				c.op = iRunDefers
			case *ssa.Select:
				c.op = iSelect
				sc := &selCompiled{blocking: x.Blocking}
				for _, s := range x.States {
					sc.dirs = append(sc.dirs, s.Dir == types.SendOnly)
					sc.chans = append(sc.chans, op(s.Chan))
					sc.sends = append(sc.sends, op(s.Send))
					sc.elems = append(sc.elems, s.Chan.Type().Underlying().(*types.Chan).Elem())
				}
				c.x = sc
			case *ssa.Send:
				c.op = iSend
				c.a = []opnd{op(x.Chan), op(x.X)}
			case *ssa.Slice:
				c.op = iSlice
				c.a = []opnd{op(x.X), op(x.Low), op(x.High), op(x.Max)}
				c.t = x.X.Type()
			case *ssa.SliceToArrayPointer:
				c.op = iSliceToArrayPointer
				c.a = []opnd{op(x.X)}
				c.n = int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			case *ssa.Store:
				c.op = iStore
				c.a = []opnd{op(x.Addr), op(x.Val)}
				c.t = x.Val.Type()
			case *ssa.TypeAssert:
				c.op = iTypeAssert
				c.a = []opnd{op(x.X)}
				c.t = x.AssertedType
			default:
				return fmt.Errorf("unsupported instruction %T in %s", in, fi.name)
			}
			cb.ins = append(cb.ins, c)
		}
		fi.blocks = append(fi.blocks, cb)
	}
	return nil
}

func coreSlice(t types.Type) *types.Slice {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s
	}
	return nil
}

type selCompiled struct {
	blocking bool
	dirs     []bool // true: send
	chans    []opnd
	sends    []opnd
	elems    []types.Type
}

type callC struct {
	builtin string
	static  *ssa.Function
	invoke  *types.Func
	fn      opnd
	args    []opnd
	common  *ssa.CallCommon
	cached  *fnInfo
}

func compileCall(c *ssa.CallCommon, op func(ssa.Value) opnd) *callC {
	cc := &callC{common: c}
	for _, a := range c.Args {
		cc.args = append(cc.args, op(a))
	}
	if c.IsInvoke() {
		cc.invoke = c.Method
		cc.fn = op(c.Value)
		return cc
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		cc.builtin = b.Name()
		return cc
	}
	if f, ok := c.Value.(*ssa.Function); ok {
		cc.static = f
	}
	cc.fn = op(c.Value)
	return cc
}

type methodKey struct {
	t types.Type
	m *types.Func
}

// lookupMethod finds the implementation of interface method m on dynamic type t.
func (p *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methodKey{t, m}
	if v, ok := p.methods.Load(k); ok {
		return v.(*ssa.Function)
	}
	p.buildMu.Lock()
	f := p.prog.LookupMethod(t, m.Pkg(), m.Name())
	p.buildMu.Unlock()
	p.methods.Store(k, f)
	return f
}

func (p *Program) lookupMethodName(t types.Type, pkg *types.Package, name string) *ssa.Function {
	p.buildMu.Lock()
	defer p.buildMu.Unlock()
	ms := p.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

func (p *Program) fnByName(pkg, name string) *ssa.Function {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}
