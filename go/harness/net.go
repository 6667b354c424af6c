package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"time"

	"github.com/liujiangwei/xxcache/zzverif/vs"
)

// ---- an in-memory network with a scripted server ----

var errRefused = errors.New("connection refused")
var errPipe = errors.New("broken pipe")

type fakeNet struct {
	conns   []*srvConn
	dials   int
	maxOpen int
	// decides the outcome of a dial; nil: success
	onDial func(n int, addr string) error
	// called for every request a client sends; nil: no reply
	onReq func(c *srvConn, args []string)
	// called when a connection has been made
	onOpen func(c *srvConn)
	pieces int // largest read, 0: everything available
	log    []string
	// closing a connection reports an error
	closeErr bool
}

// srvConn is the client's end of a connection; its server side runs inside Write.
type srvConn struct {
	n      *fakeNet
	id     int
	addr   string
	in     []byte // bytes on their way to the client
	off    int    // bytes of in already read
	cuts   []int  // offsets in the stream at which a read stops
	end    error  // what a read returns once in is exhausted (nil: it waits)
	werr   error  // what a write returns
	hang   bool   // the server stopped answering
	closed bool   // the client closed it
	raw    []byte // everything the client wrote
	un     []byte
	bad    string // what is wrong with the bytes the client wrote
	reqs   [][]string
	db     int
	authed bool
	after  int
}

func (n *fakeNet) dial(network, addr string) (net.Conn, error) {
	k := n.dials
	n.dials++
	// nobody listens at other addresses than these
	switch addr {
	case "m:1", "m0:1", "m1:1", "master:1", "127.0.0.1:6379":
	default:
		return nil, errRefused
	}
	if n.onDial != nil {
		if err := n.onDial(k, addr); err != nil {
			return nil, err
		}
	}
	c := &srvConn{n: n, id: len(n.conns), addr: addr}
	n.conns = append(n.conns, c)
	if o := n.open(); o > n.maxOpen {
		n.maxOpen = o
	}
	if n.onOpen != nil {
		n.onOpen(c)
	}
	return c, nil
}

// open counts the connections the client has not closed.
func (n *fakeNet) open() int {
	k := 0
	for _, c := range n.conns {
		if !c.closed {
			k++
		}
	}
	return k
}

func (n *fakeNet) requests() (l [][]string) {
	for _, c := range n.conns {
		l = append(l, c.reqs...)
	}
	return
}

func (n *fakeNet) requestCount() (k int) {
	for _, c := range n.conns {
		k += len(c.reqs)
	}
	return
}

func (c *srvConn) send(s string) { c.in = append(c.in, s...) }

// drop ends the connection: what was sent can still be read.
func (c *srvConn) drop(err error) {
	if c.end == nil {
		c.end = err
		c.werr = errPipe
	}
}

func (c *srvConn) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	vs.Block("net read", func() bool { return c.closed || c.off < len(c.in) || c.end != nil })
	if c.closed {
		return 0, errors.New("use of closed network connection")
	}
	if c.off < len(c.in) {
		stop := len(c.in)
		for _, x := range c.cuts {
			if x > c.off && x < stop {
				stop = x
				break
			}
		}
		if c.n.pieces > 0 && stop > c.off+c.n.pieces {
			stop = c.off + c.n.pieces
		}
		n := copy(p, c.in[c.off:stop])
		c.off += n
		return n, nil
	}
	c.after++
	if c.after > 3000 {
		panic(spinPanic{})
	}
	if c.end == nil {
		return 0, io.EOF // torn down
	}
	return 0, c.end
}

func (c *srvConn) Write(p []byte) (int, error) {
	vs.Point("net write")
	if c.closed {
		return 0, errors.New("use of closed network connection")
	}
	if c.werr != nil {
		return 0, c.werr
	}
	c.raw = append(c.raw, p...)
	c.un = append(c.un, p...)
	for c.bad == "" {
		args, k, err := parseRequest(c.un)
		if err != nil {
			c.bad = err.Error()
			break
		}
		if k == 0 {
			break
		}
		c.un = c.un[k:]
		c.reqs = append(c.reqs, args)
		if c.n.onReq != nil && !c.hang {
			c.n.onReq(c, args)
		}
	}
	return len(p), nil
}

func (c *srvConn) Close() error {
	vs.Point("net close")
	if c.closed {
		return errors.New("use of closed network connection")
	}
	c.closed = true
	if c.n.closeErr {
		return errReset // the descriptor is gone all the same
	}
	return nil
}
func (c *srvConn) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (c *srvConn) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (c *srvConn) SetDeadline(t time.Time) error      { return nil }
func (c *srvConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *srvConn) SetWriteDeadline(t time.Time) error { return nil }

// parseRequest reads one request the way a Redis server does: an array of bulk strings.
func parseRequest(b []byte) (args []string, used int, err error) {
	line := func(at int) (string, int) {
		i := strings.Index(string(b[at:]), "\r\n")
		if i < 0 {
			return "", -1
		}
		return string(b[at : at+i]), at + i + 2
	}
	if len(b) == 0 {
		return nil, 0, nil
	}
	if b[0] != '*' {
		return nil, 0, fmt.Errorf("the request does not start with an array: %s", short(string(b)))
	}
	h, at := line(1)
	if at < 0 {
		return nil, 0, nil
	}
	n, e := strconv.Atoi(h)
	if e != nil || n < 1 {
		return nil, 0, fmt.Errorf("bad array length %q", h)
	}
	for i := 0; i < n; i++ {
		if at >= len(b) {
			return nil, 0, nil
		}
		if b[at] != '$' {
			return nil, 0, fmt.Errorf("argument %d is not a bulk string: %s", i, short(string(b[at:])))
		}
		h, nx := line(at + 1)
		if nx < 0 {
			return nil, 0, nil
		}
		l, e := strconv.Atoi(h)
		if e != nil || l < 0 {
			return nil, 0, fmt.Errorf("bad bulk length %q", h)
		}
		if len(b) < nx+l+2 {
			return nil, 0, nil
		}
		if string(b[nx+l:nx+l+2]) != "\r\n" {
			return nil, 0, fmt.Errorf("argument %d is not %d bytes long: %s", i, l, short(string(b[at:])))
		}
		args = append(args, string(b[nx:nx+l]))
		at = nx + l + 2
	}
	return args, at, nil
}

func isCmd(args []string, name string) bool {
	return len(args) > 0 && strings.EqualFold(args[0], name)
}

// netRun executes body on a fake network and reports what the runtime detected by itself.
func netRun(ex *vs.Explorer, branch bool, horizon int, n *fakeNet, body func()) (*vs.Sched, string) {
	s := vs.Run(ex, false, horizon, func() {
		vs.S.DialHook = n.dial
		if branch {
			vs.SetBranch(true)
		}
		body()
	})
	if s.Fail != nil {
		return s, s.Fail.Kind + ": " + s.Fail.Msg
	}
	if len(s.Races) > 0 {
		return s, "data race: " + s.Races[0]
	}
	return s, ""
}

// exploreNet runs every execution of f within the bounds of ex; f returns "" or what is wrong.
func exploreNet(c *Ctx, name string, ex *vs.Explorer, f func(e *vs.Explorer) (*vs.Sched, string)) bool {
	c.Case(func() string { return name })
	seen := map[uint64]bool{}
	ex.Explore(func() bool {
		c.caseNo++
		s, msg := f(ex)
		c.R.Transitions += s.Steps
		seen[hashChoices(ex.Choices())] = true
		if msg != "" {
			ch := ex.Choices()
			tr := &vs.Explorer{Preempt: ex.Preempt, Env: ex.Env, Tracing: true}
			var ts *vs.Sched
			tr.RunOnce(ch, func() { ts, _ = f(tr) })
			trace := ts.Trace
			if len(trace) > 400 {
				trace = trace[len(trace)-400:]
			}
			c.Violate(name, name+": "+msg, map[string]interface{}{"scenario": name, "choices": ch, "schedule": trace})
			return false
		}
		return !c.Stop()
	})
	c.R.Evals += ex.Execs
	c.R.Traces += ex.Execs
	c.R.States += ex.Nodes
	c.R.Distinct += len(seen)
	c.Count("schedules", ex.Execs)
	c.Count("scenarios", 1)
	c.Count("diverged", ex.Diverged)
	if ex.Capped {
		c.R.Capped = true
	}
	if ex.MaxPoints > c.R.Extra["max_choice_points"] {
		c.Count("max_choice_points", ex.MaxPoints-c.R.Extra["max_choice_points"])
	}
	return c.stop
}

func hashChoices(l []int) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range l {
		h = (h ^ uint64(x+1)) * 1099511628211
	}
	return h
}
