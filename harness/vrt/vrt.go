// Package vrt is the interface between harnesses and the symbolic engine. Under the engine every
// function here is an intrinsic; compiled natively the package replays a recorded assignment.
package vrt

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	_ "verif/harness/model" // linked for the engine
)

type Var struct {
	Name string `json:"name"`
	Val  int64  `json:"val"`
}

// Replay is the recorded assignment of one path.
type Replay struct {
	Harness string         `json:"harness"`
	Vars    []Var          `json:"vars"`
	Delays  []string       `json:"delays"`
	Params  map[string]int `json:"params"`
}

var (
	mu     sync.Mutex
	cur    *Replay
	vi     int
	hits   = map[string]int{}
	slept  int // delays begun
	asleep int // delays going on
	delays = map[string]bool{}
	out    = os.Stdout

	// SettleTime is how long Settle waits natively.
	SettleTime = envMs("VRT_SETTLE_MS", 40)
	DelayTime  = envMs("VRT_DELAY_MS", 60)
)

func envMs(name string, def int) time.Duration {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil {
		def = n
	}
	return time.Duration(def) * time.Millisecond
}

// Load installs the assignment to replay.
func Load(file string) (*Replay, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	r := &Replay{}
	if err := json.Unmarshal(b, r); err != nil {
		return nil, err
	}
	Install(r)
	return r, nil
}

// Install resets the replay state to r.
func Install(r *Replay) {
	mu.Lock()
	defer mu.Unlock()
	cur, vi = r, 0
	hits, delays = map[string]int{}, map[string]bool{}
	for _, d := range r.Delays {
		delays[d] = true
	}
}

func next(name string, def int64) int64 {
	mu.Lock()
	defer mu.Unlock()
	if cur == nil {
		return def
	}
	for vi < len(cur.Vars) {
		v := cur.Vars[vi]
		vi++
		if v.Name == "select" || strings.HasPrefix(v.Name, "sched@") {
			continue
		}
		if v.Name != name {
			fmt.Fprintf(out, "VRT-DIVERGED: want %q have %q\n", name, v.Name)
			os.Exit(4)
		}
		return v.Val
	}
	return def
}

// Symbolic reports whether the harness runs under the engine.
func Symbolic() bool { return false }

// Int is an arbitrary int in [lo,hi].
func Int(name string, lo, hi int) int { return int(next(name, int64(lo))) }

// Rune is an arbitrary rune in [lo,hi].
func Rune(name string, lo, hi rune) rune { return rune(next(name, int64(lo))) }

// Byte is an arbitrary byte in [lo,hi].
func Byte(name string, lo, hi byte) byte { return byte(next(name, int64(lo))) }

// Uint32 is an arbitrary uint32.
func Uint32(name string) uint32 { return uint32(next(name, 0)) }

// Bool is an arbitrary bool.
func Bool(name string) bool { return next(name, 0) != 0 }

// Choose is an arbitrary alternative, split into one path per value.
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(next(name, 0))
}

// Fix splits the path per value of v.
func Fix(v int) int { return v }

// FixRune splits the path per value of v.
func FixRune(v rune) rune { return v }

// Assume cuts paths on which c does not hold.
func Assume(c bool) {
	if !c {
		fmt.Fprintln(out, "VRT-ASSUME-FAILED")
		os.Exit(5)
	}
}

// Assert is the property.
func Assert(c bool, msg string) {
	if !c {
		fmt.Fprintf(out, "VRT-ASSERT-FAILED: %s\n", msg)
		os.Exit(1)
	}
}

// Goroutines is the number of goroutines there are.
func Goroutines() int { return runtime.NumGoroutine() }

// Left is how many goroutines there are more than base, once those ending have ended.
func Left(base int) int {
	n := runtime.NumGoroutine() - base
	for i := 0; i < 100 && n > 0; i++ {
		time.Sleep(10 * time.Millisecond)
		n = runtime.NumGoroutine() - base
	}
	return n
}

// Reach marks a location that must be reachable (vacuity guard).
func Reach(label string) {}

// Observe logs values; engine and native logs of the same path must agree.
func Observe(label string, vals ...interface{}) {
	s := label + ":"
	for _, v := range vals {
		s += " " + obs(v)
	}
	mu.Lock()
	fmt.Fprintln(out, "OBS "+s)
	mu.Unlock()
}

func obs(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case string:
		return fmt.Sprintf("%q", x)
	case []rune:
		return fmt.Sprint([]int32(x))
	case []byte:
		return fmt.Sprint(x)
	case []string:
		s := "["
		for i, e := range x {
			if i > 0 {
				s += " "
			}
			s += fmt.Sprintf("%q", e)
		}
		return s + "]"
	case [][]rune:
		s := "["
		for i, e := range x {
			if i > 0 {
				s += " "
			}
			s += obs(e)
		}
		return s + "]"
	}
	return fmt.Sprint(v)
}

// And is a conjunction without a path split.
func And(a, b bool) bool { return a && b }

// Or is a disjunction without a path split.
func Or(a, b bool) bool { return a || b }

// IteInt selects without a path split.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// IteRune selects without a path split.
func IteRune(c bool, a, b rune) rune {
	if c {
		return a
	}
	return b
}

// IteByte selects without a path split.
func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}

// Param is a bound given on the command line.
func Param(name string, def int) int {
	if cur != nil {
		if v, ok := cur.Params[name]; ok {
			return v
		}
	}
	return def
}

// Preempt sets the number of delays the scheduler may insert.
func Preempt(n int) {}

// Settle waits until every other goroutine is blocked (under the engine, exactly; natively, a while).
func Settle() {
	for i := 0; i < 20; i++ {
		runtime.Gosched()
	}
	for {
		mu.Lock()
		n := slept
		mu.Unlock()
		time.Sleep(SettleTime)
		mu.Lock()
		ok := slept == n && asleep == 0
		mu.Unlock()
		if ok {
			return
		}
	}
}

// Yield is a possible preemption point.
func Yield(site string) {
	mu.Lock()
	n := hits[site]
	hits[site] = n + 1
	d := delays[fmt.Sprintf("%s#%d", site, n)]
	if d {
		slept++
		asleep++
	}
	mu.Unlock()
	if d {
		time.Sleep(DelayTime)
		mu.Lock()
		asleep--
		mu.Unlock()
	}
}

// Steps is the number of engine steps so far (0 natively).
func Steps() int { return 0 }

// Cut ends the path without judging it.
func Cut(msg string) {
	fmt.Fprintln(out, "VRT-CUT: "+msg)
	os.Exit(5)
}
