package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

// Job is one harness function with its bounds.
type Job struct {
	Name     string         `json:"name"`
	Pkg      string         `json:"pkg"`
	Fn       string         `json:"fn"`
	Params   map[string]int `json:"params"`
	MaxSteps int64          `json:"max_steps"`
	MaxPaths int64          `json:"max_paths"`
	MaxConc  int            `json:"max_conc"`
	TimeS    float64        `json:"time_s"`
	Preempt  int            `json:"preempt"`
	Samples  int            `json:"samples"`
	MaxViol  int            `json:"max_viol"`
	Seed     int64          `json:"seed"`
}

type Config struct {
	Dir      string            `json:"dir"`
	Patterns []string          `json:"patterns"`
	Overlay  map[string]string `json:"overlay"` // source path -> replacement file
	Env      []string          `json:"env"`
	Target   string            `json:"target"`
	Solver   []string          `json:"solver"`
	Cross    []string          `json:"cross"`
	CrossN   int64             `json:"cross_every"`
	TmoMs    int               `json:"solver_timeout_ms"`
	Workers  int               `json:"workers"`
	Jobs     []Job             `json:"jobs"`
}

type Result struct {
	Name        string         `json:"name"`
	Fn          string         `json:"fn"`
	Params      map[string]int `json:"params"`
	Paths       int64          `json:"paths"`
	OK          int64          `json:"ok"`
	Infeasible  int64          `json:"infeasible"`
	Unsupported int64          `json:"unsupported"`
	Limited     int64          `json:"limited"`
	SolverUnk   int64          `json:"solver_unknown"`
	Transitions int64          `json:"transitions"`
	Asserts     int64          `json:"asserts"`
	Steps       int64          `json:"steps"`
	MaxSteps    int64          `json:"max_steps"`
	Truncated   string         `json:"truncated"`
	Queries     int64          `json:"queries"`
	CacheHits   int64          `json:"cache_hits"`
	SolverRuns  int64          `json:"solver_runs"`
	Sat         int64          `json:"sat"`
	Unsat       int64          `json:"unsat"`
	Unknown     int64          `json:"unknown"`
	SolverS     float64        `json:"solver_s"`
	WallS       float64        `json:"wall_s"`
	CrossOK     int64          `json:"cross_ok"`
	CrossBad    int64          `json:"cross_bad"`
	Reach       []string       `json:"reach"`
	UnsupMsgs   []string       `json:"unsup_msgs"`
	LimitMsgs   []string       `json:"limit_msgs"`
	Violations  []*Violation   `json:"violations"`
	ViolKeys    map[string]int `json:"viol_keys"`
	Samples     []PathSample   `json:"samples"`
	Error       string         `json:"error,omitempty"`
}

type Output struct {
	LoadS     float64   `json:"load_s"`
	InitS     float64   `json:"init_s"`
	InitSteps int64     `json:"init_steps"`
	InitSkips []string  `json:"init_skips"`
	Funcs     []string  `json:"funcs"`
	Results   []*Result `json:"results"`
	Error     string    `json:"error,omitempty"`
}

func main() {
	if len(os.Args) >= 4 && os.Args[1] == "instr" {
		all, shim := map[string]bool{}, ""
		for _, f := range os.Args[4:] {
			if strings.HasPrefix(f, "shim=") {
				shim = f[len("shim="):]
				continue
			}
			all[f] = true
		}
		if err := instrument(os.Args[2], os.Args[3], shim, all); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}
	if len(os.Args) == 5 && os.Args[1] == "windows" {
		if err := windowsFiles(os.Args[2], os.Args[3], os.Args[4]); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: engine CONFIG.json OUT.json")
		os.Exit(2)
	}
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var cfg Config
	if err := json.Unmarshal(b, &cfg); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if pf := os.Getenv("VPROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	out := runConfig(&cfg)
	j, _ := json.MarshalIndent(out, "", " ")
	if err := os.WriteFile(os.Args[2], j, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if out.Error != "" {
		fmt.Fprintln(os.Stderr, out.Error)
		pprof.StopCPUProfile()
		os.Exit(3)
	}
}

func runConfig(cfg *Config) *Output {
	out := &Output{}
	t0 := time.Now()
	ov := map[string][]byte{}
	for k, f := range cfg.Overlay {
		b, err := os.ReadFile(f)
		if err != nil {
			out.Error = err.Error()
			return out
		}
		ov[k] = b
	}
	if cfg.Workers <= 0 {
		cfg.Workers = runtime.NumCPU()
	}
	if len(cfg.Solver) == 0 {
		cfg.Solver = []string{"z3", "-in"}
	}
	if cfg.TmoMs == 0 {
		cfg.TmoMs = 20000
	}
	if cfg.Target == "" {
		cfg.Target = "github.com/chzyer/readline"
	}
	p, err := loadProgram(cfg.Dir, cfg.Patterns, ov, cfg.Env, cfg.Target)
	if err != nil {
		out.Error = err.Error()
		return out
	}
	out.LoadS = time.Since(t0).Seconds()
	t1 := time.Now()
	iex := &Explorer{p: p, lim: &limits{maxSteps: 1 << 40, maxCells: 1 << 30, maxConc: 1}, unsupMsgs: map[string]int{}, limitMsgs: map[string]int{}, stats: &SolverStats{}, cache: newQueryCache()}
	for _, sp := range p.mains {
		if sp != nil {
			p.runInit(iex, sp)
		}
	}
	out.InitS = time.Since(t1).Seconds()
	out.InitSteps = p.initSteps
	out.InitSkips = sortedKeys(iex.unsupMsgs)
	p.funcs.Range(func(k, v any) bool { p.funcs.Delete(k); return true })
	p.fns.Range(func(k, v any) bool { v.(*fnInfo).calls = 0; return true })
	for _, j := range cfg.Jobs {
		out.Results = append(out.Results, runJob(p, cfg, j))
	}
	p.funcs.Range(func(k, v any) bool { out.Funcs = append(out.Funcs, k.(string)); return true })
	sort.Strings(out.Funcs)
	return out
}

func runJob(p *Program, cfg *Config, j Job) *Result {
	r := &Result{Name: j.Name, Fn: j.Fn, Params: j.Params}
	f := p.fnByName(j.Pkg, j.Fn)
	if f == nil {
		r.Error = "no harness function " + j.Pkg + "." + j.Fn
		return r
	}
	if j.MaxSteps == 0 {
		j.MaxSteps = 3_000_000
	}
	if j.MaxPaths == 0 {
		j.MaxPaths = 1 << 40
	}
	if j.MaxConc == 0 {
		j.MaxConc = 300
	}
	if j.TimeS == 0 {
		j.TimeS = 60
	}
	if j.MaxViol == 0 {
		j.MaxViol = 64
	}
	st := &SolverStats{}
	ex := &Explorer{
		p: p, harness: j.Fn, params: j.Params,
		lim: &limits{maxSteps: j.MaxSteps, maxCells: 8 << 20, maxConc: j.MaxConc, maxPaths: j.MaxPaths,
			deadline: time.Now().Add(time.Duration(j.TimeS * float64(time.Second))), maxSamples: j.Samples},
		unsupMsgs: map[string]int{}, limitMsgs: map[string]int{}, reach: map[string]bool{}, vkeys: map[string]int{},
		stats: st, cache: newQueryCache(), seed: j.Seed, preempt: j.Preempt, maxViol: j.MaxViol,
	}
	t := time.Now()
	ex.run(p.fnInfo(f), cfg.Workers, func() *Solver {
		s := newSolver(cfg.Solver, cfg.TmoMs, st, ex.cache)
		if len(cfg.Cross) > 0 {
			s.cross = newSolver(cfg.Cross, cfg.TmoMs, st, ex.cache)
			s.every = cfg.CrossN
			if s.every <= 0 {
				s.every = 50
			}
		}
		return s
	})
	r.WallS = time.Since(t).Seconds()
	r.Paths, r.OK, r.Infeasible, r.Unsupported, r.Limited, r.SolverUnk = ex.paths, ex.ok, ex.infeasible, ex.unsup, ex.limited, ex.solverUnk
	r.Transitions, r.Asserts, r.Steps, r.MaxSteps, r.Truncated = ex.transitions, ex.asserts, ex.steps, ex.maxSteps, ex.truncated
	r.Queries, r.CacheHits, r.SolverRuns, r.Sat, r.Unsat, r.Unknown = st.queries, st.cacheHits, st.solverRun, st.sat, st.unsat, st.unknown
	r.SolverS = float64(st.nanos) / 1e9
	r.CrossOK, r.CrossBad = st.crossOK, st.crossBad
	for k := range ex.reach {
		r.Reach = append(r.Reach, k)
	}
	sort.Strings(r.Reach)
	for i, k := range sortedKeys(ex.unsupMsgs) {
		if i < 20 {
			r.UnsupMsgs = append(r.UnsupMsgs, fmt.Sprintf("%dx %s", ex.unsupMsgs[k], k))
		}
	}
	for i, k := range sortedKeys(ex.limitMsgs) {
		if i < 20 {
			r.LimitMsgs = append(r.LimitMsgs, fmt.Sprintf("%dx %s", ex.limitMsgs[k], k))
		}
	}
	r.Violations, r.ViolKeys, r.Samples = ex.violations, ex.vkeys, ex.samples
	if os.Getenv("VSUMMARY") != "" {
		fmt.Fprintf(os.Stderr, "%-24s paths=%d ok=%d inf=%d unsup=%d lim=%d unk=%d viol=%d trans=%d asserts=%d q=%d hit=%d run=%d solver=%.1fs wall=%.1fs steps=%d reach=%s %s\n", j.Name, r.Paths, r.OK, r.Infeasible, r.Unsupported, r.Limited, r.SolverUnk, len(r.Violations), r.Transitions, r.Asserts, r.Queries, r.CacheHits, r.SolverRuns, r.SolverS, r.WallS, r.Steps, strings.Join(r.Reach, ","), r.Truncated)
		for _, m := range r.UnsupMsgs {
			fmt.Fprintln(os.Stderr, "   unsup:", m)
		}
		for _, m := range r.LimitMsgs {
			fmt.Fprintln(os.Stderr, "   limit:", m)
		}
		for k, n := range r.ViolKeys {
			fmt.Fprintln(os.Stderr, "   VIOL:", n, k)
		}
	}
	return r
}
