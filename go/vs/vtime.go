package vs

import (
	"sort"
	"time"
)

type timerRec struct {
	when   time.Time
	seq    int
	period time.Duration
	c      chan time.Time
	f      func()
	call   func() // run at once, without a thread of its own
	live   bool
	vc     VC
}

func Now() time.Time {
	if S == nil {
		return Epoch
	}
	if !S.killing && S.TimeBranch {
		S.point("Now", nil)
	}
	return S.now
}

// Clock reads the virtual clock without a scheduling point (harness use).
func Clock() time.Time {
	if S == nil {
		return Epoch
	}
	return S.now
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func (s *Sched) addTimer(r *timerRec) {
	s.tseq++
	r.seq = s.tseq
	r.live = true
	s.timers = append(s.timers, r)
}

func (s *Sched) pending() []*timerRec {
	var l []*timerRec
	for _, r := range s.timers {
		if r.live {
			l = append(l, r)
		}
	}
	s.timers = l
	sort.SliceStable(l, func(i, j int) bool {
		if l[i].when.Equal(l[j].when) {
			return l[i].seq < l[j].seq
		}
		return l[i].when.Before(l[j].when)
	})
	return l
}

func (s *Sched) fire(r *timerRec) {
	if r.c != nil {
		select {
		case r.c <- s.now:
		default:
		}
	}
	if r.period > 0 {
		r.when = r.when.Add(r.period)
	} else {
		r.live = false
	}
	if r.call != nil {
		r.call()
	}
	if r.f != nil {
		GoNamed("timer", r.f)
	}
}

// fireNext advances the clock to the next timer (nothing else can run).
func (s *Sched) fireNext() bool {
	l := s.pending()
	if len(l) == 0 {
		return false
	}
	if l[0].when.After(s.now) {
		s.now = l[0].when
	}
	s.fire(l[0])
	return true
}

// Advance moves the virtual clock, firing timers on the way.
func Advance(d time.Duration) {
	if dying() {
		return
	}
	s := S
	s.point("advance", nil)
	end := s.now.Add(d)
	for {
		l := s.pending()
		if len(l) == 0 || l[0].when.After(end) {
			break
		}
		if l[0].when.After(s.now) {
			s.now = l[0].when
		}
		s.fire(l[0])
	}
	s.now = end
}

func Sleep(d time.Duration) {
	if dying() {
		return
	}
	if d <= 0 {
		S.point("Sleep", nil)
		return
	}
	r := &timerRec{when: S.now.Add(d)}
	S.addTimer(r)
	S.point("Sleep", func() bool { return !r.live })
}

type Timer struct {
	C <-chan time.Time
	r *timerRec
}

func newTimer(d time.Duration, f func()) *Timer {
	t := &Timer{r: &timerRec{f: f}}
	if f == nil {
		t.r.c = make(chan time.Time, 1)
		t.C = t.r.c
	}
	if S != nil {
		t.r.when = S.now.Add(d)
		S.addTimer(t.r)
	}
	return t
}

func NewTimer(d time.Duration) *Timer            { return newTimer(d, nil) }
func AfterFunc(d time.Duration, f func()) *Timer { return newTimer(d, f) }
func After(d time.Duration) <-chan time.Time     { return newTimer(d, nil).C }

func (t *Timer) Stop() bool {
	l := t.r.live
	t.r.live = false
	return l
}

func (t *Timer) Reset(d time.Duration) bool {
	l := t.r.live
	t.r.live = false
	n := *t.r
	n.when = S.now.Add(d)
	t.r = &n
	S.addTimer(t.r)
	return l
}

type Ticker struct {
	C <-chan time.Time
	r *timerRec
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, r: &timerRec{c: c, period: d}}
	if S != nil {
		t.r.when = S.now.Add(d)
		S.addTimer(t.r)
	}
	return t
}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

func (t *Ticker) Stop() { t.r.live = false }
func (t *Ticker) Reset(d time.Duration) {
	t.r.live = false
	n := *t.r
	n.period = d
	n.when = S.now.Add(d)
	t.r = &n
	S.addTimer(t.r)
}
