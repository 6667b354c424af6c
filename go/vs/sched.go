// Package vs is the controlled runtime substituted for sync, time, channels, goroutines and net.Dial
// in the packages under test (see ../instr). One goroutine runs at a time; every synchronization
// operation is a scheduling point at which the explorer decides who continues.
package vs

import (
	"fmt"
	"runtime"
	"strings"
	"time"
)

// S is the active execution, nil outside one (package initialisation).
var S *Sched

type VC []uint32

func (v VC) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *VC) join(o VC) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v VC) clone() VC { return append(VC(nil), v...) }

type Thread struct {
	ID     int
	Name   string
	wake   chan struct{}
	exited chan struct{}
	// pending operation; enabled==nil means always enabled
	enabled func() bool
	what    string
	quiesce bool
	sel     *selOp
	done    bool
	killed  bool
	vc      VC
}

// Failure of an execution, detected by the runtime itself.
type Failure struct {
	Kind string // "deadlock", "livelock", "panic", "race", "exit"
	Msg  string
}

type Sched struct {
	Ex         *Explorer
	threads    []*Thread
	cur        *Thread
	now        time.Time
	timers     []*timerRec
	tseq       int
	chans      map[uintptr]*chanState
	atoms      map[uintptr]*VC
	shadow     map[uintptr]*shadowRec
	finished   chan struct{}
	ended      bool
	killing    bool
	Fail       *Failure
	Races      []string
	raceSeen   map[string]bool
	Steps      int
	Horizon    int
	autoAdv    int
	Branch     bool // explore alternatives at scheduling points
	Trace      []string
	Tracing    bool
	DialHook   func(network, addr string) (NetConn, error)
	TimeBranch bool // reading the clock is a scheduling point
	enBuf      []*Thread
}

var Epoch = time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC)

// Run executes body as thread 0 under control of ex (nil: default choices, no branching).
func Run(ex *Explorer, branch bool, horizon int, body func()) *Sched {
	s := &Sched{Ex: ex, now: Epoch, Branch: branch, Horizon: horizon,
		chans: map[uintptr]*chanState{}, atoms: map[uintptr]*VC{}, shadow: map[uintptr]*shadowRec{},
		finished: make(chan struct{}), raceSeen: map[string]bool{}}
	if ex != nil && ex.Tracing {
		s.Tracing = true
	}
	S = s
	t := s.newThread("main")
	s.cur = t
	go s.threadMain(t, func() {
		body()
		s.end()
	}, true)
	t.wake <- struct{}{}
	<-s.finished
	s.killing = true
	for _, th := range s.threads {
		if !th.done {
			th.killed = true
			s.cur = th
			select {
			case th.wake <- struct{}{}:
			case <-th.exited:
			}
			<-th.exited
		} else {
			<-th.exited
		}
	}
	S = nil
	return s
}

func (s *Sched) end() {
	if !s.ended {
		s.ended = true
		close(s.finished)
	}
}

func (s *Sched) newThread(name string) *Thread {
	t := &Thread{ID: len(s.threads), Name: name, wake: make(chan struct{}), exited: make(chan struct{})}
	s.threads = append(s.threads, t)
	for len(t.vc) <= t.ID {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.ID] = 1
	return t
}

// ExitPanic replaces process exits of the code under test.
type ExitPanic struct{ Msg string }

func (s *Sched) threadMain(t *Thread, f func(), main bool) {
	normal := false
	defer func() {
		r := recover()
		if t.killed || s.killing {
			t.done = true
			close(t.exited)
			return
		}
		t.done = true
		if r != nil {
			if e, ok := r.(ExitPanic); ok {
				s.fail("exit", "process exit: "+e.Msg)
			} else {
				s.fail("panic", fmt.Sprintf("panic in %s: %v at %s", t.Name, r, stackLine()))
			}
			s.end()
			close(t.exited)
			return
		}
		if main || !normal {
			// main finished (end already called) or runtime.Goexit in the code under test
			if main {
				s.end()
				close(t.exited)
				return
			}
		}
		close(t.exited)
		if !s.ended {
			s.next(t, false)
		}
	}()
	<-t.wake
	if t.killed {
		runtime.Goexit()
	}
	f()
	normal = true
}

// stackLine gives the innermost frames of the code under test for a panic message.
func stackLine() string {
	var pcs [40]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	var out []string
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "liujiangwei/xxcache") && !strings.Contains(f.Function, "zzverif") {
			name := f.Function[strings.LastIndex(f.Function, "/")+1:]
			out = append(out, name)
			if len(out) >= 2 {
				break
			}
		}
		if !more {
			break
		}
	}
	return strings.Join(out, "<")
}

func (s *Sched) fail(kind, msg string) {
	if s.Fail == nil {
		s.Fail = &Failure{kind, msg}
	}
}

// next picks the next thread to run; self is the caller, selfAlive whether it may be picked.
// It returns true if self keeps running.
func (s *Sched) next(self *Thread, selfAlive bool) bool {
	for {
		en := s.enBuf[:0]
		cost := 0
		if selfAlive && !self.quiesce && (self.enabled == nil || self.enabled()) {
			en = append(en, self)
			cost = 1
		}
		for _, t := range s.threads {
			if t == self || t.done || t.quiesce {
				continue
			}
			if t.enabled == nil || t.enabled() {
				en = append(en, t)
			}
		}
		if len(en) == 0 {
			for _, t := range s.threads {
				if !t.done && t.quiesce {
					en = append(en, t)
					break
				}
			}
		}
		s.enBuf = en
		if len(en) == 0 {
			if s.autoAdv < 40 && s.fireNext() {
				s.autoAdv++
				continue
			}
			s.fail("deadlock", "no thread can run: "+s.describe())
			s.end()
			return false
		}
		s.Steps++
		if s.Horizon > 0 && s.Steps > s.Horizon {
			s.fail("livelock", fmt.Sprintf("no completion within %d steps: %s", s.Horizon, s.describe()))
			s.end()
			return false
		}
		k := 0
		if len(en) > 1 && s.Branch && s.Ex != nil {
			c := 0
			if cost == 1 {
				c = 1
			}
			k = s.Ex.chooseThread(len(en), c)
		}
		n := en[k]
		if s.Tracing {
			s.Trace = append(s.Trace, fmt.Sprintf("%s:%s", n.Name, n.what))
		}
		s.cur = n
		if n == self {
			return true
		}
		n.wake <- struct{}{}
		return false
	}
}

func (s *Sched) describe() string {
	var b []string
	for _, t := range s.threads {
		if !t.done {
			b = append(b, fmt.Sprintf("%s waits at %s", t.Name, t.what))
		}
	}
	return strings.Join(b, "; ")
}

// point is a scheduling point: the calling thread announces an operation that is possible when
// enabled() holds and returns when it has been scheduled.
func (s *Sched) point(what string, enabled func() bool) {
	t := s.cur
	if s.killing || t.killed {
		runtime.Goexit()
	}
	t.what = what
	t.enabled = enabled
	if !s.next(t, true) {
		<-t.wake
		if t.killed {
			runtime.Goexit()
		}
	}
	t.enabled = nil
	t.quiesce = false
}

// dying reports that the current thread is being torn down: shims become no-ops.
func dying() bool {
	return S == nil || S.killing
}

// Point is an explicit scheduling point for harness code.
func Point(what string) {
	if dying() {
		return
	}
	S.point(what, nil)
}

// Block waits until cond holds.
func Block(what string, cond func() bool) {
	if dying() {
		return
	}
	S.point(what, cond)
}

// WaitQuiescent returns when no other thread can run.
func WaitQuiescent() {
	if dying() {
		return
	}
	S.cur.quiesce = true
	S.point("quiesce", nil)
}

// Go starts a thread (rewritten go statements and harness threads).
func Go(f func()) { GoNamed("", f) }

func GoNamed(name string, f func()) *Thread {
	if S == nil {
		go f()
		return nil
	}
	s := S
	if s.killing {
		return nil
	}
	if name == "" {
		name = fmt.Sprintf("g%d", len(s.threads))
	}
	parent := s.cur
	t := s.newThread(name)
	t.what = "start"
	t.vc.join(parent.vc)
	t.vc[t.ID] = 1
	parent.tick()
	go s.threadMain(t, f, false)
	return t
}

// Join waits for threads to finish and orders their effects before the caller.
func Join(ts ...*Thread) {
	if dying() {
		return
	}
	S.point("join", func() bool {
		for _, t := range ts {
			if !t.done {
				return false
			}
		}
		return true
	})
	for _, t := range ts {
		S.cur.vc.join(t.vc)
	}
}

func (t *Thread) tick() {
	for len(t.vc) <= t.ID {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.ID]++
}

func (t *Thread) Done() bool { return t.done }

// Alive counts the goroutines that have not ended, this one not included.
func Alive() (n int) {
	for _, t := range S.threads {
		if !t.done && t != S.cur {
			n++
		}
	}
	return
}

// Stuck describes them.
func Stuck() string { return S.describe() }

// acq/rel: happens-before edges through a synchronization object
func acq(v *VC) {
	if S != nil && S.cur != nil {
		S.cur.vc.join(*v)
	}
}
func rel(v *VC) {
	if S != nil && S.cur != nil {
		v.join(S.cur.vc)
		S.cur.tick()
	}
}

// Cur is the running thread's index.
func Cur() int { return S.cur.ID }

// StepNo is a logical time stamp (number of scheduling steps so far).
func StepNo() int { return S.Steps }

// SetBranch switches exploration of alternatives on or off inside an execution (setup and
// observation phases run with default choices).
func SetBranch(b bool) {
	if S != nil {
		S.Branch = b
	}
}

// Try runs f and returns a panic of the code under test as a string ("" if none).
func Try(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(ExitPanic); ok {
				msg = "process exit: " + e.Msg
			} else {
				msg = fmt.Sprintf("panic: %v at %s", r, stackLine())
			}
		}
	}()
	f()
	return ""
}
