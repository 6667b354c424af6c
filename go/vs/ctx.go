package vs

import (
	"context"
	"sync"
	"time"
)

// Contexts with deadlines run on the virtual clock.
type deadlineCtx struct {
	context.Context
	at   time.Time
	mu   sync.Mutex
	late bool
}

func (c *deadlineCtx) Deadline() (time.Time, bool) { return c.at, true }
func (c *deadlineCtx) Err() error {
	c.mu.Lock()
	late := c.late
	c.mu.Unlock()
	if late {
		return context.DeadlineExceeded
	}
	return c.Context.Err()
}

func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	if p, ok := parent.Deadline(); ok && p.Before(d) {
		return context.WithCancel(parent)
	}
	in, cancel := context.WithCancelCause(parent)
	c := &deadlineCtx{Context: in, at: d}
	expire := func() {
		if in.Err() != nil {
			return
		}
		c.mu.Lock()
		c.late = true
		c.mu.Unlock()
		if cause == nil {
			cancel(context.DeadlineExceeded)
		} else {
			cancel(cause)
		}
	}
	if S == nil {
		return c, func() { cancel(nil) }
	}
	if !d.After(S.now) {
		expire()
		return c, func() {}
	}
	r := &timerRec{when: d, call: expire}
	S.addTimer(r)
	return c, func() { r.live = false; cancel(nil) }
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, Clock().Add(d), cause)
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, Clock().Add(d), nil)
}

// ContextAfterFunc is context.AfterFunc under the controlled scheduler.
func ContextAfterFunc(ctx context.Context, f func()) func() bool {
	stop := make(chan struct{})
	state := 0
	GoNamed("afterfunc", func() {
		switch Select(false, CaseRecv(ctx.Done()), CaseRecv((<-chan struct{})(stop))) {
		case 0:
			if state == 0 {
				state = 1
				f()
			}
		}
	})
	return func() bool {
		if state == 0 {
			state = 2
			Close((chan<- struct{})(stop))
			return true
		}
		return false
	}
}
