package vs

import (
	"reflect"
	"unsafe"
)

// Channel operations of the code under test. Buffered values stay in the real channel; rendezvous
// on unbuffered channels and closing are modelled here.
type chanState struct {
	closed bool
	vc     VC
	keep   any
}

type selOp struct {
	cases []caser
	// set by a rendezvous partner
	matched int
	partner bool
}

type caser interface {
	ready(self *Thread) bool
	exec(self *Thread)
	chanID() uintptr
	isSend() bool
	cap() int
	takeValue() any // value offered by a blocked sender
	giveValue(v any)
}

func chanPtr[T any](ch <-chan T) uintptr { return *(*uintptr)(unsafe.Pointer(&ch)) }

func (s *Sched) cstate(id uintptr, keep any) *chanState {
	c := s.chans[id]
	if c == nil {
		c = &chanState{keep: keep}
		s.chans[id] = c
	}
	return c
}

// RecvCase and SendCase are the arms of a rewritten select (and of single operations).
type RecvCase[T any] struct {
	ch  <-chan T
	Val T
	Ok  bool
	ext bool // value already taken from an uninstrumented sender
}

type SendCase[T any] struct {
	ch  chan<- T
	rd  <-chan T
	val T
}

func CaseRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }
func CaseSend[T any](ch chan<- T, v T) *SendCase[T] {
	return &SendCase[T]{ch: ch, rd: *(*<-chan T)(unsafe.Pointer(&ch)), val: v}
}

func (c *RecvCase[T]) chanID() uintptr { return chanPtr(c.ch) }
func (c *RecvCase[T]) isSend() bool    { return false }
func (c *RecvCase[T]) cap() int        { return cap(c.ch) }
func (c *RecvCase[T]) takeValue() any  { return nil }
func (c *RecvCase[T]) giveValue(v any) {
	if v != nil {
		c.Val = v.(T)
	}
	c.Ok = true
}
func (c *SendCase[T]) chanID() uintptr { return chanPtr(c.rd) }
func (c *SendCase[T]) isSend() bool    { return true }
func (c *SendCase[T]) cap() int        { return cap(c.ch) }
func (c *SendCase[T]) takeValue() any  { return c.val }
func (c *SendCase[T]) giveValue(v any) {}

func (s *Sched) partner(self *Thread, id uintptr, wantSend bool) (*Thread, int) {
	for _, t := range s.threads {
		if t == self || t.done || t.sel == nil || t.sel.partner {
			continue
		}
		for i, c := range t.sel.cases {
			if c.chanID() == id && c.isSend() == wantSend {
				return t, i
			}
		}
	}
	return nil, -1
}

func (c *RecvCase[T]) ready(self *Thread) bool {
	if c.ch == nil {
		return false
	}
	if c.ext || len(c.ch) > 0 {
		return true
	}
	st := S.cstate(c.chanID(), c.ch)
	if st.closed {
		return true
	}
	if cap(c.ch) == 0 {
		if t, _ := S.partner(self, c.chanID(), true); t != nil {
			return true
		}
	}
	// a channel closed (or fed) by code outside the controlled runtime, e.g. context.Done
	select {
	case v, ok := <-c.ch:
		if !ok {
			st.closed = true
		} else {
			c.Val, c.Ok, c.ext = v, true, true
		}
		return true
	default:
	}
	return false
}

func (c *RecvCase[T]) exec(self *Thread) {
	st := S.cstate(c.chanID(), c.ch)
	acq(&st.vc)
	if c.ext {
		return
	}
	if len(c.ch) > 0 {
		c.Val, c.Ok = <-c.ch
		rel(&st.vc)
		return
	}
	if st.closed {
		var z T
		c.Val, c.Ok = z, false
		return
	}
	t, i := S.partner(self, c.chanID(), true)
	c.giveValue(t.sel.cases[i].takeValue())
	t.sel.partner = true
	t.sel.matched = i
	self.vc.join(t.vc)
	t.vc.join(self.vc)
	self.tick()
	t.tick()
}

func (c *SendCase[T]) ready(self *Thread) bool {
	if c.ch == nil {
		return false
	}
	st := S.cstate(c.chanID(), c.rd)
	if st.closed {
		return true
	}
	if cap(c.ch) > 0 {
		return len(c.ch) < cap(c.ch)
	}
	t, _ := S.partner(self, c.chanID(), false)
	return t != nil
}

func (c *SendCase[T]) exec(self *Thread) {
	st := S.cstate(c.chanID(), c.rd)
	if st.closed {
		panic("send on closed channel")
	}
	if cap(c.ch) > 0 {
		acq(&st.vc)
		rel(&st.vc)
		c.ch <- c.val
		return
	}
	t, i := S.partner(self, c.chanID(), false)
	t.sel.cases[i].giveValue(c.val)
	t.sel.partner = true
	t.sel.matched = i
	self.vc.join(t.vc)
	t.vc.join(self.vc)
	self.tick()
	t.tick()
}

// Select performs one ready case and returns its index, or -1 for default.
func Select(hasDefault bool, cases ...caser) int {
	if S == nil {
		return rawSelect(hasDefault, cases)
	}
	if dying() {
		return -1
	}
	s := S
	t := s.cur
	op := &selOp{cases: cases, matched: -1}
	what := "select"
	if len(cases) == 1 && !hasDefault {
		if cases[0].isSend() {
			what = "send"
		} else {
			what = "recv"
		}
	}
	anyReady := func() bool {
		if op.partner {
			return true
		}
		for _, c := range cases {
			if c.ready(t) {
				return true
			}
		}
		return false
	}
	if hasDefault {
		s.point(what, nil)
	} else {
		t.sel = op
		s.point(what, anyReady)
		t.sel = nil
	}
	if dying() {
		return -1
	}
	if op.partner {
		return op.matched
	}
	var rd []int
	for i, c := range cases {
		if c.ready(t) {
			rd = append(rd, i)
		}
	}
	if len(rd) == 0 {
		return -1
	}
	k := 0
	if len(rd) > 1 && s.Branch && s.Ex != nil {
		k = s.Ex.choose(len(rd), 0, true) // Go picks a ready case at random: all explored
	}
	i := rd[k]
	// values taken from uninstrumented senders by other probed cases cannot be put back: such
	// cases only arise for channels outside the runtime, which are never value-carrying here
	cases[i].exec(t)
	return i
}

func rawSelect(hasDefault bool, cases []caser) int {
	// outside an execution (package initialisation): fall back to reflect-free best effort
	_ = reflect.ValueOf
	if hasDefault {
		return -1
	}
	panic("channel operation outside an execution")
}

func Recv[T any](ch <-chan T) T {
	c := CaseRecv(ch)
	Select(false, c)
	return c.Val
}

func Recv2[T any](ch <-chan T) (T, bool) {
	c := CaseRecv(ch)
	Select(false, c)
	return c.Val, c.Ok
}

func Send[T any](ch chan<- T, v T) { Select(false, CaseSend(ch, v)) }

func Close[T any](ch chan<- T) {
	if S == nil {
		close(ch)
		return
	}
	if dying() {
		return
	}
	rd := *(*<-chan T)(unsafe.Pointer(&ch))
	st := S.cstate(chanPtr(rd), rd)
	S.point("close", nil)
	if ch == nil {
		panic("close of nil channel")
	}
	if st.closed {
		panic("close of closed channel")
	}
	rel(&st.vc)
	st.closed = true
}

// SendTo and CaseSendTo fix the element type from the channel alone.
func SendTo[T any](ch chan<- T) func(T) { return func(v T) { Select(false, CaseSend(ch, v)) } }
func CaseSendTo[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return CaseSend(ch, v) }
}
