package vsys

import (
	"errors"
	"net"
	"os"
	"sync"
	"syscall"
	"time"
)

// Sent are the signals sent to processes, this one or its parent.
var Sent []Sending

// Sending is one signal sent.
type Sending struct {
	Pid int
	Sig os.Signal
}

// OnSend, if set, is called for every signal sent.
var OnSend func(pid int, sig os.Signal)

// The processes there are.
const (
	Self   = 4242
	Parent = 4241
)

func OsGetpid() int   { return Self }
func OsGetppid() int  { return Parent }
func SysGetpid() int  { return Self }
func SysGetppid() int { return Parent }

// OsProcess is a process.
type OsProcess struct{ Pid int }

func OsFindProcess(pid int) (*OsProcess, error) { return &OsProcess{pid}, nil }

func (p *OsProcess) Signal(sig os.Signal) error {
	Sent = append(Sent, Sending{p.Pid, sig})
	if OnSend != nil {
		OnSend(p.Pid, sig)
	}
	return nil
}

func (p *OsProcess) Kill() error    { return p.Signal(syscall.SIGKILL) }
func (p *OsProcess) Release() error { return nil }

func SysKill(pid int, sig syscall.Signal) error { return (&OsProcess{pid}).Signal(sig) }

// The clock only goes on in Pass.
var (
	clockMu sync.Mutex
	now     int64
	waiters []*waiter
)

type waiter struct {
	c      chan TimeTime
	at     int64
	every  int64
	active bool
}

// TimeTime is a moment.
type TimeTime struct{ ns int64 }

func (t TimeTime) Sub(u TimeTime) time.Duration { return time.Duration(t.ns - u.ns) }
func (t TimeTime) Add(d time.Duration) TimeTime { return TimeTime{t.ns + int64(d)} }
func (t TimeTime) After(u TimeTime) bool        { return t.ns > u.ns }
func (t TimeTime) Before(u TimeTime) bool       { return t.ns < u.ns }
func (t TimeTime) Equal(u TimeTime) bool        { return t.ns == u.ns }
func (t TimeTime) UnixNano() int64              { return t.ns }
func (t TimeTime) IsZero() bool                 { return t.ns == 0 }
func TimeSince(t TimeTime) time.Duration        { return TimeNow().Sub(t) }
func TimeUntil(t TimeTime) time.Duration        { return t.Sub(TimeNow()) }
func TimeAfter(d time.Duration) <-chan TimeTime { return wait(d, 0).c }
func TimeTick(d time.Duration) <-chan TimeTime  { return wait(d, d).c }
func TimeSleep(d time.Duration)                 { <-wait(d, 0).c }
func TimeNewTicker(d time.Duration) *TimeTicker { w := wait(d, d); return &TimeTicker{w.c, w} }
func TimeNewTimer(d time.Duration) *TimeTimer   { w := wait(d, 0); return &TimeTimer{w.c, w} }

func TimeNow() TimeTime {
	clockMu.Lock()
	defer clockMu.Unlock()
	return TimeTime{now}
}

// TimeTicker ticks when time passes.
type TimeTicker struct {
	C <-chan TimeTime
	w *waiter
}

func (t *TimeTicker) Stop() { t.w.stop() }

// TimeTimer fires once.
type TimeTimer struct {
	C <-chan TimeTime
	w *waiter
}

func (t *TimeTimer) Stop() bool { return t.w.stop() }

func wait(d, every time.Duration) *waiter {
	clockMu.Lock()
	defer clockMu.Unlock()
	w := &waiter{make(chan TimeTime, 1), now + int64(d), int64(every), true}
	waiters = append(waiters, w)
	return w
}

func (w *waiter) stop() bool {
	clockMu.Lock()
	defer clockMu.Unlock()
	was := w.active
	w.active = false
	return was
}

// Pass lets time pass; who waits for a moment in between is told once, at its end.
func Pass(d time.Duration) {
	clockMu.Lock()
	defer clockMu.Unlock()
	now += int64(d)
	for _, w := range waiters {
		if !w.active || w.at > now {
			continue
		}
		select {
		case w.c <- TimeTime{now}:
		default:
		}
		if w.every == 0 {
			w.active = false
		} else {
			w.at = now + w.every
		}
	}
}

func resetProc() {
	Sent, OnSend, now, waiters = nil, nil, 1, nil
	Listeners, DialTo, DialErr, ListenErr = nil, nil, nil, nil
}

// Listener stands in for a listening socket.
type Listener struct {
	Network, Address string
	Conns            chan net.Conn
	once             sync.Once
	stop             chan struct{}
}

var (
	Listeners []*Listener
	// DialTo is what the next connection made ends in; DialErr and ListenErr are errors instead.
	DialTo             net.Conn
	DialErr, ListenErr error
)

func NetListen(network, address string) (net.Listener, error) {
	if ListenErr != nil {
		return nil, ListenErr
	}
	l := &Listener{Network: network, Address: address, Conns: make(chan net.Conn, 4), stop: make(chan struct{})}
	Listeners = append(Listeners, l)
	return l, nil
}

func (l *Listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.Conns:
		return c, nil
	case <-l.stop:
		return nil, errors.New("use of closed network connection")
	}
}

func (l *Listener) Close() error {
	l.once.Do(func() { close(l.stop) })
	return nil
}

func (l *Listener) Addr() net.Addr { return nil }

func NetDial(network, address string) (net.Conn, error) {
	if DialErr != nil {
		return nil, DialErr
	}
	return DialTo, nil
}
