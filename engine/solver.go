package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type satResult int

const (
	rUnsat satResult = iota
	rSat
	rUnknown
)

type cacheEntry struct {
	res  satResult
	vals []uint64
}

// SolverStats is shared by all workers.
type SolverStats struct {
	queries   int64 // questions asked (including cached answers)
	cacheHits int64
	solverRun int64 // check-sat commands executed
	sat       int64
	unsat     int64
	unknown   int64
	nanos     int64
	crossOK   int64
	crossBad  int64
}

type queryCache struct {
	mu  [64]sync.RWMutex
	tab [64]map[string]cacheEntry
}

func newQueryCache() *queryCache {
	q := &queryCache{}
	for i := range q.tab {
		q.tab[i] = map[string]cacheEntry{}
	}
	return q
}

func strHash(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}

func (q *queryCache) get(s string) (cacheEntry, bool) {
	i := strHash(s) & 63
	q.mu[i].RLock()
	e, ok := q.tab[i][s]
	q.mu[i].RUnlock()
	return e, ok
}

func (q *queryCache) put(s string, e cacheEntry) {
	i := strHash(s) & 63
	q.mu[i].Lock()
	q.tab[i][s] = e
	q.mu[i].Unlock()
}

type Solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	args  []string
	stats *SolverStats
	cache *queryCache
	cross *Solver // second solver for spot checks
	every int64
	n     int64
	tmoMs int
}

func newSolver(args []string, tmoMs int, stats *SolverStats, cache *queryCache) *Solver {
	return &Solver{args: args, stats: stats, cache: cache, tmoMs: tmoMs}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.args[0], s.args[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	if strings.Contains(s.args[0], "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.tmoMs)
	} else {
		fmt.Fprintf(s.in, "(set-option :produce-models true)\n(set-logic QF_BV)\n")
	}
	return nil
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
	if s.cross != nil {
		s.cross.stop()
	}
}

func (s *Solver) raw(text string, nvars int) (satResult, []uint64) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return rUnknown, nil
		}
	}
	var b strings.Builder
	b.WriteString("(push 1)\n")
	b.WriteString(text)
	b.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, b.String()); err != nil {
		s.stop()
		return rUnknown, nil
	}
	line, err := s.readLine()
	if err != nil {
		s.stop()
		return rUnknown, nil
	}
	var res satResult
	var vals []uint64
	switch line {
	case "sat":
		res = rSat
		if nvars > 0 {
			b.Reset()
			b.WriteString("(get-value (")
			for i := 0; i < nvars; i++ {
				fmt.Fprintf(&b, "v%d ", i)
			}
			b.WriteString("))\n")
			io.WriteString(s.in, b.String())
			vals, err = s.readValues(nvars)
			if err != nil {
				s.stop()
				return rUnknown, nil
			}
		}
	case "unsat":
		res = rUnsat
	default:
		// "unknown" or "(error ...": inconclusive; restart to resynchronise
		s.stop()
		return rUnknown, nil
	}
	io.WriteString(s.in, "(pop 1)\n")
	return res, vals
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readValues(n int) ([]uint64, error) {
	depth, started := 0, false
	var sb strings.Builder
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return nil, err
		}
		if c == '(' {
			depth++
			started = true
		}
		if c == ')' {
			depth--
		}
		sb.WriteByte(c)
		if started && depth == 0 {
			break
		}
	}
	txt := sb.String()
	if strings.Contains(txt, "error") {
		return nil, fmt.Errorf("solver error: %s", txt)
	}
	vals := make([]uint64, n)
	toks := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	for i := 0; i+1 < len(toks); i++ {
		if toks[i][0] != 'v' {
			continue
		}
		k, err := strconv.Atoi(toks[i][1:])
		if err != nil || k >= n {
			continue
		}
		v := toks[i+1]
		switch {
		case v == "true":
			vals[k] = 1
		case v == "false":
			vals[k] = 0
		case strings.HasPrefix(v, "#x"):
			vals[k], _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			vals[k], _ = strconv.ParseUint(v[2:], 2, 64)
		case v == "_":
			vals[k], _ = strconv.ParseUint(strings.TrimPrefix(toks[i+2], "bv"), 10, 64)
		}
		i++
	}
	return vals, nil
}

// check decides the conjunction; vals are indexed like vlist.
func (s *Solver) check(tt *Terms, conds []*Term) (satResult, []int32, []uint64) {
	text, vlist := tt.smtQuery(conds)
	atomic.AddInt64(&s.stats.queries, 1)
	if e, ok := s.cache.get(text); ok {
		atomic.AddInt64(&s.stats.cacheHits, 1)
		return e.res, vlist, e.vals
	}
	t0 := time.Now()
	res, vals := s.raw(text, len(vlist))
	if res == rUnknown {
		res, vals = s.raw(text, len(vlist)) // one retry on a fresh process
	}
	atomic.AddInt64(&s.stats.nanos, int64(time.Since(t0)))
	atomic.AddInt64(&s.stats.solverRun, 1)
	switch res {
	case rSat:
		atomic.AddInt64(&s.stats.sat, 1)
	case rUnsat:
		atomic.AddInt64(&s.stats.unsat, 1)
	default:
		atomic.AddInt64(&s.stats.unknown, 1)
	}
	if s.cross != nil && res != rUnknown {
		s.n++
		if s.n%s.every == 0 {
			r2, _ := s.cross.raw(text, 0)
			if r2 != rUnknown {
				if r2 == res {
					atomic.AddInt64(&s.stats.crossOK, 1)
				} else {
					atomic.AddInt64(&s.stats.crossBad, 1)
				}
			}
		}
	}
	if res != rUnknown {
		s.cache.put(text, cacheEntry{res, vals})
	}
	return res, vlist, vals
}
