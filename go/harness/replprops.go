package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/liujiangwei/xxcache/cache"
	"github.com/liujiangwei/xxcache/redis"
	"github.com/liujiangwei/xxcache/zzverif/vs"
)

// ---- C30: the handshake ----

type syncCase struct {
	what    string
	pong    string // answer to PING; "-" drops the connection instead
	pongEnd bool   // the connection ends after the answer to PING
	stream  string // what follows SYNC: keep-alives, header, payload, commands
	cut     int    // the connection ends after this many bytes of stream, -1: never
	end     error
	cuts    []int // fragmentation of stream
	pieces  int
	file    string // where the snapshot goes; "" default
	limit   int64  // largest file the system lets us write, 0 none
	old     string // what the file held before
	refuse  bool   // nobody listens
	payload string
	first   []string // the first streamed command
	wantErr bool
	either  bool
}

func (sc *syncCase) String() string {
	s := fmt.Sprintf("%s; stream %s", sc.what, short(sc.stream))
	if sc.cut >= 0 {
		s += fmt.Sprintf(" cut after %d bytes (%v)", sc.cut, sc.end)
	}
	if len(sc.cuts) > 0 && len(sc.cuts) < 10 {
		s += fmt.Sprintf(" read in pieces %v", sc.cuts)
	}
	if sc.pieces > 0 {
		s += fmt.Sprintf(" at most %d bytes per read", sc.pieces)
	}
	if sc.limit > 0 {
		s += fmt.Sprintf(" file size limit %d", sc.limit)
	}
	return s
}

var xfszIgnored bool

func limitFile(n int64) func() {
	if !xfszIgnored {
		signal.Ignore(syscall.SIGXFSZ)
		xfszIgnored = true
	}
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: old.Max})
	return func() { syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old) }
}

func scratchFile(name string) string {
	return filepath.Join(*fScratch, fmt.Sprintf("%s-%d", name, os.Getpid()))
}

// masterOf answers the handshake of a replica; stream follows SYNC.
func masterOf(n *fakeNet, pong, stream string, afterSync func(s *srvConn)) {
	n.onReq = func(s *srvConn, args []string) {
		switch {
		case isCmd(args, "ping"):
			s.send(pong)
		case isCmd(args, "replconf"):
			if len(args) > 1 && strings.EqualFold(args[1], "ack") {
				return
			}
			s.send("+OK\r\n")
		case isCmd(args, "sync"):
			s.send(stream)
			if afterSync != nil {
				afterSync(s)
			}
		default:
			s.send("-ERR unknown command\r\n")
		}
	}
}

func runSync(c *Ctx, sc *syncCase) bool {
	c.R.Evals++
	c.R.Traces++
	c.R.States++
	file := sc.file
	if file == "" {
		file = scratchFile("sync.rdb")
		if sc.old != "" {
			os.WriteFile(file, []byte(sc.old), 0600)
		} else {
			os.Remove(file)
		}
	}
	n := &fakeNet{pieces: sc.pieces}
	if sc.refuse {
		n.onDial = func(int, string) error { return errRefused }
	}
	stream := sc.stream
	if sc.cut >= 0 {
		stream = stream[:sc.cut]
	}
	pong := sc.pong
	if pong == "" {
		pong = "+PONG\r\n"
	}
	masterOf(n, pong, stream, func(s *srvConn) {
		for _, x := range sc.cuts {
			s.cuts = append(s.cuts, len(s.in)-len(stream)+x)
		}
		if sc.cut >= 0 {
			s.drop(sc.end)
		}
	})
	if sc.pong == "-" || sc.pongEnd {
		n.onReq = func(s *srvConn, args []string) {
			if sc.pongEnd {
				s.send(pong)
			}
			s.drop(io.EOF)
		}
	}
	var err error
	var first *redis.ReplicationMessage
	returned := false
	horizon := 4*len(sc.stream) + 20000
	s, msg := netRun(nil, false, horizon, n, func() {
		repl := &redis.Replication{MasterAddr: "m:1", RdbFile: file}
		var restore func()
		if sc.limit > 0 {
			restore = limitFile(sc.limit - 1)
		}
		defer func() {
			if restore != nil {
				restore()
			}
		}()
		th := vs.GoNamed("sync", func() { err = repl.SyncWithRedis(); returned = true })
		vs.WaitQuiescent()
		if restore != nil {
			restore()
			restore = nil
		}
		if !th.Done() || err != nil || sc.first == nil {
			return
		}
		vs.Join(th)
		vs.GoNamed("wait", func() { repl.WaitForMessage() })
		vs.GoNamed("reader", func() {
			m, ok := vs.Recv2(repl.Messages)
			if ok {
				first = &m
			}
		})
		vs.WaitQuiescent()
	})
	c.R.Transitions += s.Steps
	if msg == "" && !returned {
		msg = "SyncWithRedis does not return"
	}
	if msg == "" {
		for _, x := range n.conns {
			if x.bad != "" {
				msg = "the master can not read the request: " + x.bad
			}
		}
	}
	if msg == "" && sc.wantErr && !sc.either && err == nil {
		msg = "SyncWithRedis reports success"
	}
	if msg == "" && !sc.wantErr && err != nil {
		msg = fmt.Sprintf("SyncWithRedis fails: %v", err)
	}
	if msg == "" && !sc.wantErr {
		b, e := os.ReadFile(file)
		if e != nil || string(b) != sc.payload {
			msg = fmt.Sprintf("the file holds %s (%d bytes), the payload is %s (%d bytes) %v", short(string(b)), len(b), short(sc.payload), len(sc.payload), e)
		}
		if msg == "" && sc.first != nil {
			if first == nil {
				msg = "the first streamed command is not forwarded"
			} else if a, ok := argsOf(first.Message); !ok || reqString(a) != reqString(sc.first) {
				msg = fmt.Sprintf("the first forwarded command is %s, streamed was %s", short(first.Message.Serialize()), reqString(sc.first))
			}
		}
	}
	if msg != "" {
		return c.Violate(sc.String(), sc.String()+": "+msg, nil)
	}
	return false
}

func c30payloads(t bool) (l []string) {
	l = []string{"", "x", "\n", "\r\n", "\n\n\n", "$5\r\nhello\r\n", "\r", "a\r\n", "\x00", "+OK\r\n", "REDIS0009\xff\x00\x00\x00\x00\x00\x00\x00\x00", "*1\r\n$4\r\nPING\r\n"}
	d, _ := snapshot(stdAux(), []record{{0, ptr(oString("a", "1")), ""}, {1, ptr(oString("b", "2\r\n")), ""}})
	l = append(l, d)
	for _, n := range []int{2, 9, 10, 17, 64, 99, 100, 101, 1000, 4080, 4088, 4089, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4098, 8190, 8191, 8192, 8193, 12288, 20000} {
		l = append(l, filler(n))
	}
	if t {
		for n := 4070; n < 4110; n++ {
			l = append(l, filler(n))
		}
		l = append(l, filler(65535), filler(65536), filler(100000), filler(1<<20))
	} else {
		l = append(l, filler(70000))
	}
	return
}

func c30tasks(t bool) (tasks []Task) {
	cmd1 := bulks("set", "k", "\n$v").enc()
	firstArgs := []string{"set", "k", "\n$v"}
	cmd2 := bulks("PING").enc() + bulks("del", "x").enc()
	payloads := c30payloads(t)
	mk := func(p string, nl int, after string) *syncCase {
		sc := &syncCase{what: fmt.Sprintf("payload %s, %d keep-alives", short(p), nl), payload: p, cut: -1, end: io.EOF}
		sc.stream = strings.Repeat("\n", nl) + "$" + strconv.Itoa(len(p)) + "\r\n" + p + after
		if after == cmd1+cmd2 {
			sc.first = firstArgs
		}
		if after == cmd2 {
			sc.first = []string{"del", "x"}
		}
		return sc
	}
	const parts = 8
	for k := 0; k < parts; k++ {
		k := k
		tasks = append(tasks, Task{fmt.Sprintf("payload-%d", k), func(c *Ctx) {
			for i := k; i < len(payloads); i += parts {
				p := payloads[i]
				for _, nl := range []int{0, 1, 2, 3, 10, 5000} {
					for _, after := range []string{"", cmd1 + cmd2, cmd2} {
						if c.Stop() {
							return
						}
						sc := mk(p, nl, after)
						c.Case(sc.String)
						c.R.Distinct++
						if runSync(c, sc) {
							return
						}
						sc.old = filler(len(p) + 777)
						if runSync(c, sc) {
							return
						}
						sc.old = ""
						if nl == 5000 {
							continue
						}
						big := len(sc.stream)
						for _, ps := range []int{1, 2, 3, 7, 100, 1000, 1460, 4095, 4096, 4097} {
							if big/ps > 30000 || ps > big {
								continue
							}
							sc.pieces = ps
							if runSync(c, sc) {
								return
							}
						}
						sc.pieces = 0
						pos := everyByte(big)
						if big > 150 {
							hdr := nl + 1 + len(strconv.Itoa(len(p))) + 2
							pos = nil
							for x := 1; x < hdr+4; x++ {
								pos = append(pos, x)
							}
							pos = append(pos, 4089, 4095, 4096, 4097, 8192)
							for x := hdr + len(p) - 4; x < big; x++ {
								pos = append(pos, x)
							}
						}
						for a, x := range pos {
							if x >= big {
								continue
							}
							sc.cuts = []int{x}
							if runSync(c, sc) {
								return
							}
							if t && big < 150 {
								for _, y := range pos[a+1:] {
									sc.cuts = []int{x, y}
									if runSync(c, sc) {
										return
									}
								}
							}
						}
						sc.cuts = nil
					}
				}
			}
			c.Sample(mk(payloads[k], 2, cmd1).String())
		}})
		tasks = append(tasks, Task{fmt.Sprintf("cut-%d", k), func(c *Ctx) {
			for i := k; i < len(payloads); i += parts {
				p := payloads[i]
				for _, nl := range []int{0, 1, 3} {
					full := mk(p, nl, "")
					need := len(full.stream)
					step := 1
					if need > 300 && !t {
						step = 1 + need/150
					}
					for cut := 0; cut < need; cut++ {
						if cut > 40 && cut < need-40 && (cut-40)%step != 0 && cut%4096 > 3 {
							continue
						}
						if t && need > 20000 && cut%61 != 0 && cut > 100 && cut < need-100 {
							continue
						}
						for v, e := range []error{io.EOF, errReset, io.EOF} {
							if c.Stop() {
								return
							}
							sc := mk(p, nl, "")
							sc.cut, sc.end, sc.wantErr = cut, e, true
							if v == 2 {
								if cut > 200 {
									continue
								}
								sc.pieces = 1
							}
							c.Case(sc.String)
							c.R.Distinct++
							if runSync(c, sc) {
								return
							}
						}
					}
					// the end right after the payload, or later, does not matter
					sc := mk(p, nl, cmd1+cmd2)
					for _, cut := range []int{need, need + len(cmd1), need + 3} {
						x := *sc
						x.cut = cut
						x.first = nil
						if cut >= need+len(cmd1) {
							x.first = firstArgs
						}
						if runSync(c, &x) {
							return
						}
					}
				}
			}
			c.Sample(mk(payloads[k], 1, "").String() + " cut at every byte")
		}})
	}
	tasks = append(tasks, Task{"refusals", func(c *Ctx) {
		ok := "$3\r\nabc"
		var l []*syncCase
		for _, r := range []string{"-ERR not permitted\r\n", "-NOAUTH Authentication required.\r\n", "-NOMASTERLINK Can't SYNC while not connected with my master\r\n", "+FULLRESYNC 0123456789012345678901234567890123456789 0\r\n", "+OK\r\n", "+CONTINUE\r\n", ":5\r\n", "*0\r\n", "*1\r\n$3\r\nabc\r\n", "*-1\r\n", "$-1\r\n", "$-2\r\n", "$-100\r\n", "$abc\r\nabc", "$\r\n", "$3x\r\nabc", "$99999999999999999999\r\nabc", "?3\r\nabc", "REDIS0009", "\r\n", "\x00", "$ 3\r\nabc", "$0x3\r\nabc", "$3.0\r\nabc", "$3 \r\nabc", "$--3\r\nabc"} {
			for _, nl := range []string{"", "\n", "\n\n"} {
				for _, tail := range []string{"", cmd1, ok} {
					st := nl + r + tail
					l = append(l, &syncCase{what: "the master answers SYNC with " + short(r), stream: st, cut: len(st), end: io.EOF, wantErr: true})
					if tail == "" && r[0] != '$' && r[0] != '*' && strings.HasSuffix(r, "\r\n") && r != "\r\n" {
						// the master says no and keeps the connection open
						l = append(l, &syncCase{what: "the master refuses and keeps the connection: " + short(r), stream: st, cut: -1, end: io.EOF, wantErr: true})
					}
				}
			}
		}
		for _, r := range []string{"-NOAUTH Authentication required.\r\n", "-ERR operation not permitted\r\n", "+OK\r\n", ":1\r\n", "$-1\r\n", "*0\r\n", "+PON\r\n", "?\r\n", "$2\r\nOK\r\n", "-\r\n", "+\r\n", "-DENIED Redis is running in protected mode\r\n", "-MASTERDOWN\r\n"} {
			l = append(l, &syncCase{what: "the master answers PING with " + short(r), pong: r, stream: ok, cut: -1, wantErr: true})
			l = append(l, &syncCase{what: "the master answers PING, then drops, with " + short(r), pong: r, pongEnd: true, stream: ok, cut: -1, wantErr: true})
		}
		for i := 0; i <= len("+PONG\r\n"); i++ {
			l = append(l, &syncCase{what: fmt.Sprintf("the connection drops after %d bytes of the PONG", i), pong: "+PONG\r\n"[:i], pongEnd: true, stream: ok, cut: -1, wantErr: true})
		}
		l = append(l, &syncCase{what: "nobody listens", refuse: true, stream: ok, cut: -1, wantErr: true})
		for _, sc := range l {
			if c.Stop() {
				return
			}
			sc := sc
			c.Case(sc.String)
			c.R.Distinct++
			if runSync(c, sc) {
				return
			}
			if len(sc.stream) < 60 {
				sc.pieces = 1
				if runSync(c, sc) {
					return
				}
			}
		}
		c.Sample(l[0].String())
	}})
	tasks = append(tasks, Task{"unwritable", func(c *Ctx) {
		dir := scratchFile("dir")
		os.MkdirAll(dir, 0755)
		var l []*syncCase
		for _, p := range payloads {
			if p != "" {
				sc := mk(p, 1, cmd1+cmd2)
				sc.what, sc.file, sc.wantErr = "the disk is full", "/dev/full", true
				l = append(l, sc)
			}
			for _, f := range []string{dir, filepath.Join(dir, "no", "such", "dump.rdb")} {
				sc := mk(p, 0, cmd1+cmd2)
				sc.what, sc.file, sc.wantErr = "the file can not be opened", f, true
				l = append(l, sc)
			}
			lims := map[int]bool{}
			for _, n := range []int{0, 1, 2, 100, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 16384, 65535, 65536, len(p) / 2, len(p) - 2, len(p) - 1, len(p) - 4096} {
				if n >= 0 && n < len(p) {
					lims[n] = true
				}
			}
			var ns []int
			for n := range lims {
				ns = append(ns, n)
			}
			sort.Ints(ns)
			for _, n := range ns {
				sc := mk(p, 0, cmd1+cmd2)
				sc.what, sc.limit, sc.wantErr = "writing fails part way", int64(n)+1, true
				l = append(l, sc)
				x := *sc
				x.pieces = 1000
				l = append(l, &x)
			}
			sc := mk(p, 0, cmd1+cmd2)
			sc.what, sc.limit = "the file just fits", int64(len(p))+1
			l = append(l, sc)
		}
		for _, sc := range l {
			if c.Stop() {
				return
			}
			sc := sc
			c.Case(sc.String)
			c.R.Distinct++
			if runSync(c, sc) {
				return
			}
		}
		c.Sample(l[0].String())
		c.Sample(l[len(l)-2].String())
	}})
	return
}

// ---- C31: the stream ----

type streamCase struct {
	cmds    [][]string
	tail    string // bytes after the last complete command
	end     error
	pieces  int
	cuts    []int
	slow    bool // the consumer starts only when the producer is stuck
	preempt int
	split   bool // the stream arrives in two parts
	ackErr  bool // an error of the acknowledgements has not been consumed yet
}

var errAck = errors.New("failed to send an acknowledgement")

func (sc *streamCase) String() string {
	var l []string
	for i, a := range sc.cmds {
		if i == 12 {
			l = append(l, fmt.Sprintf("... %d in all", len(sc.cmds)))
			break
		}
		l = append(l, reqString(a))
	}
	s := strings.Join(l, "; ")
	if sc.tail != "" {
		s += " then " + short(sc.tail)
	}
	s += fmt.Sprintf(" (%v)", sc.end)
	if sc.ackErr {
		s += " with an earlier error still waiting"
	}
	if sc.pieces > 0 {
		s += fmt.Sprintf(" at most %d bytes per read", sc.pieces)
	}
	if len(sc.cuts) > 0 && len(sc.cuts) < 9 {
		s += fmt.Sprintf(" cut at %v", sc.cuts)
	}
	return s
}

type forwarded struct {
	db      int
	select_ bool
	args    []string
}

// expectStream is what must be forwarded; a SELECT itself may carry either label.
func expectStream(cmds [][]string) (l []forwarded) {
	db := 0
	for _, a := range cmds {
		if len(a) == 1 && strings.EqualFold(a[0], "ping") {
			continue
		}
		f := forwarded{db: db, args: a}
		if len(a) == 2 && strings.EqualFold(a[0], "select") {
			if n, err := strconv.Atoi(a[1]); err == nil {
				db = n
				f.select_ = true
			}
		}
		l = append(l, f)
	}
	return
}

func streamRun(sc *streamCase, e *vs.Explorer) (*vs.Sched, string) {
	var b strings.Builder
	for _, a := range sc.cmds {
		b.WriteString(bulks(a...).enc())
	}
	b.WriteString(sc.tail)
	data := b.String()
	want := expectStream(sc.cmds)
	var got []redis.ReplicationMessage
	var endErr error
	var conn *srvConn
	bad := ""
	n := &fakeNet{pieces: sc.pieces}
	masterOf(n, "+PONG\r\n", "$0\r\n", func(s *srvConn) { conn = s })
	file := scratchFile("stream.rdb")
	s, msg := netRun(e, false, 40*len(data)+60*len(sc.cmds)+20000, n, func() {
		repl := &redis.Replication{MasterAddr: "m:1", RdbFile: file}
		if err := repl.SyncWithRedis(); err != nil {
			bad = fmt.Sprintf("SyncWithRedis: %v", err)
			return
		}
		base := len(conn.in)
		for _, x := range sc.cuts {
			conn.cuts = append(conn.cuts, base+x)
		}
		vs.SetBranch(e != nil)
		if sc.split {
			vs.GoNamed("master", func() {
				conn.send(data[:len(data)/2])
				vs.Point("master")
				conn.send(data[len(data)/2:])
				vs.Point("master")
				if sc.end != nil {
					conn.drop(sc.end)
				}
			})
		} else {
			conn.send(data)
			if sc.end != nil {
				conn.drop(sc.end)
			}
		}
		if sc.ackErr {
			vs.GoNamed("ack", func() { vs.Send(repl.Err, errAck) })
			vs.WaitQuiescent()
		}
		w := vs.GoNamed("stream", func() { repl.WaitForMessage() })
		if sc.slow {
			vs.WaitQuiescent()
		}
		r := vs.GoNamed("consumer", func() {
			for {
				m, ok := vs.Recv2(repl.Messages)
				if !ok {
					return
				}
				got = append(got, m)
			}
		})
		er := vs.GoNamed("errors", func() {
			for endErr == nil {
				err, ok := vs.Recv2(repl.Err)
				if !ok {
					return
				}
				if err != errAck {
					endErr = err
				}
			}
		})
		vs.WaitQuiescent()
		vs.SetBranch(false)
		if sc.end != nil {
			if !r.Done() {
				bad = "the stream has ended and the message channel is not closed"
			} else if endErr == nil {
				bad = "the stream has ended and no error is reported"
			} else if !w.Done() {
				bad = "WaitForMessage does not return after the end of the stream"
			}
			_ = er
		} else if r.Done() {
			bad = "the message channel is closed although the stream goes on"
		}
	})
	if msg == "" {
		msg = bad
	}
	if msg == "" {
		for i, m := range got {
			a, ok := argsOf(m.Message)
			if !ok {
				return s, "a message that is not a command is forwarded: " + short(m.Message.Serialize())
			}
			if i >= len(want) {
				return s, "forwarded but not streamed at this point: " + reqString(a)
			}
			if reqString(a) != reqString(want[i].args) || m.Message.Serialize() != bulks(want[i].args...).enc() {
				return s, fmt.Sprintf("message %d is %s, streamed was %s", i, reqString(a), reqString(want[i].args))
			}
			if !want[i].select_ && m.Database != want[i].db {
				return s, fmt.Sprintf("message %d %s is labelled database %d, selected was %d", i, reqString(a), m.Database, want[i].db)
			}
		}
		if len(got) < len(want) {
			return s, fmt.Sprintf("not forwarded: %s", reqString(want[len(got)].args))
		}
	}
	return s, msg
}

func streamAlphabet() [][]string {
	return [][]string{{"SELECT", "0"}, {"select", "1"}, {"SeLeCt", "15"}, {"PING"}, {"ping"}, {"Ping"}, {"set", "k", "v"}, {"SET", "ping", "PING"}, {"del", "ping"}, {"publish", "select", "1"}, {"MULTI"}, {"set", "b", "*1\r\n$4\r\nPING\r\n"}, {"set", "", ""}, {"echo", "ping"}, {"rpush", "l", "a", "", "\x00\xff"}, {"pingx"}, {"select"}, {"set", "select", "2"}}
}

func c31tasks(t bool) (tasks []Task) {
	al := streamAlphabet()
	one := func(c *Ctx, sc *streamCase) bool {
		c.R.Evals++
		c.R.Traces++
		c.Case(sc.String)
		s, msg := streamRun(sc, nil)
		c.R.Transitions += s.Steps
		if msg != "" {
			return c.Violate(sc.String(), sc.String()+": "+msg, nil)
		}
		return false
	}
	depth := pick(t, 4, 3)
	for k := range al {
		k := k
		tasks = append(tasks, Task{"sequences " + reqString(al[k]), func(c *Ctx) {
			c.Sample("all streams of up to " + strconv.Itoa(depth) + " commands starting with " + reqString(al[k]))
			var rec func(cmds [][]string) bool
			rec = func(cmds [][]string) bool {
				if c.Stop() {
					return true
				}
				c.R.States++
				c.R.Distinct++
				if one(c, &streamCase{cmds: cmds, end: io.EOF}) {
					return true
				}
				if len(cmds) <= 2 || !t && len(cmds) <= 2 {
					if one(c, &streamCase{cmds: cmds, end: errReset, pieces: 1}) || one(c, &streamCase{cmds: cmds, slow: true}) ||
						one(c, &streamCase{cmds: cmds, end: io.EOF, slow: true, ackErr: true}) || one(c, &streamCase{cmds: cmds, end: errReset, ackErr: true, tail: "*2"}) {
						return true
					}
				}
				if len(cmds) == depth {
					return false
				}
				for _, a := range al {
					if rec(append(append([][]string{}, cmds...), a)) {
						return true
					}
				}
				return false
			}
			rec([][]string{al[k]})
		}})
	}
	// every end position and every cut
	tasks = append(tasks, Task{"cuts", func(c *Ctx) {
		for _, a := range al {
			for _, b := range al {
				first, second := bulks(a...).enc(), bulks(b...).enc()
				data := first + second
				for i := 0; i < len(data); i++ {
					if c.Stop() {
						return
					}
					c.R.States++
					c.R.Distinct++
					var cmds [][]string
					tail := data[:i]
					if i >= len(first) {
						cmds, tail = [][]string{a}, data[len(first):i]
					}
					for _, sc := range []*streamCase{{cmds: cmds, tail: tail, end: io.EOF}, {cmds: cmds, tail: tail, end: errReset, pieces: 1}, {cmds: [][]string{a, b}, end: io.EOF, cuts: []int{i}}} {
						if one(c, sc) {
							return
						}
					}
				}
			}
		}
		c.Sample("two commands, the stream ending at every byte and cut at every byte")
	}})
	tasks = append(tasks, Task{"databases", func(c *Ctx) {
		var dbs []int
		for d := 0; d <= 300; d++ {
			dbs = append(dbs, d)
		}
		dbs = append(dbs, 1023, 1024, 16383, 32767, 32768, 65535, 65536, 999999, 2147483647)
		for _, d := range dbs {
			for _, w := range []string{"SELECT", "select"} {
				if c.Stop() {
					return
				}
				c.R.States++
				c.R.Distinct++
				cmds := [][]string{{"set", "k", "v"}, {w, strconv.Itoa(d)}, {"set", "k", "w"}, {"ping"}, {"del", "k"}, {"select", "3"}, {"set", "a", "b"}, {w, strconv.Itoa(d)}, {"del", "a"}}
				if one(c, &streamCase{cmds: cmds, end: io.EOF}) {
					return
				}
			}
		}
		c.Sample("a stream selecting each of " + strconv.Itoa(len(dbs)) + " databases twice")
	}})
	tasks = append(tasks, Task{"garbage", func(c *Ctx) {
		for _, g := range []string{"?x\r\n", "$-7\r\n", "*x\r\n", "*2\r\n$3\r\nset\r\n?", "*1\r\n$4\r\nPINGx\r\n", "$3\r\nabcd\r\n", ":x\r\n", "*-5\r\n", "\r\n\r\n", "*1\r\n$99999999999999999999\r\n"} {
			for _, pre := range [][][]string{nil, {al[6]}, {al[1], al[6]}, {al[3], al[7], al[6]}} {
				for _, end := range []error{io.EOF, errReset} {
					if c.Stop() {
						return
					}
					c.R.States++
					c.R.Distinct++
					if one(c, &streamCase{cmds: pre, tail: g, end: end}) || one(c, &streamCase{cmds: pre, tail: g + bulks("set", "after", "x").enc(), end: end}) {
						return
					}
				}
			}
		}
		c.Sample("garbage after complete commands")
	}})
	tasks = append(tasks, Task{"long", func(c *Ctx) {
		mk := func(n int) (l [][]string) {
			for i := 0; i < n; i++ {
				switch {
				case i%97 == 13:
					l = append(l, []string{"SELECT", strconv.Itoa(i % 5)})
				case i%11 == 4:
					l = append(l, []string{"PING"})
				default:
					l = append(l, []string{"set", "k" + strconv.Itoa(i), letters(i % 60)})
				}
			}
			return
		}
		big := [][]string{{"set", "a", filler(5000)}, {"PING"}, {"set", "b", filler(4096)}, {"select", "3"}, {"set", "c", filler(70000)}, {"rpush", "l", filler(4090), filler(9000), ""}, {"PING"}, {"del", "z"}}
		var wide [][]string
		for i := 0; i < 40; i++ {
			w := []string{"mset"}
			for j := 0; j < 50*i+1; j++ {
				w = append(w, letters(j%50), strconv.Itoa(j))
			}
			wide = append(wide, w)
		}
		for _, cmds := range [][][]string{mk(50), mk(3000), mk(12500), mk(25000), big, wide} {
			for _, ps := range []int{0, 1000, 4096, 4097, 100} {
				for _, slow := range []bool{false, true} {
					for _, end := range []error{io.EOF, nil} {
						if c.Stop() {
							return
						}
						if len(cmds) > 5000 && ps == 100 {
							continue
						}
						c.R.States++
						c.R.Distinct++
						if one(c, &streamCase{cmds: cmds, end: end, pieces: ps, slow: slow}) {
							return
						}
					}
				}
			}
		}
		c.Sample("streams of up to 25000 commands with a slow or a fast consumer")
	}})
	// schedules of the stream reader, the master and the consumer
	var scs []*streamCase
	for _, cmds := range [][][]string{{al[6]}, {al[1], al[6]}, {al[6], al[3], al[7]}, {al[6], al[1], al[6], al[0], al[8]}, {}} {
		for _, tail := range []string{"", "*2\r\n$3\r\nse"} {
			for _, ps := range []int{0, 7} {
				if ps > 0 && len(cmds) > 3 && !t {
					continue
				}
				scs = append(scs, &streamCase{cmds: cmds, tail: tail, end: io.EOF, split: true, pieces: ps, preempt: pick(t, 3, 2)})
			}
		}
	}
	for i := range scs {
		sc := scs[i]
		tasks = append(tasks, Task{fmt.Sprintf("schedules-%d", i), func(c *Ctx) {
			c.Sample(sc.String())
			exploreNet(c, "schedules: "+sc.String(), &vs.Explorer{Preempt: sc.preempt, MaxExec: 300000}, func(e *vs.Explorer) (*vs.Sched, string) { return streamRun(sc, e) })
		}})
	}
	return
}

// ---- C32: applying a command ----

type cacheState struct {
	name  string
	setup []Op
	lists map[string][]string
}

func c32states() []cacheState {
	return []cacheState{
		{"empty", nil, nil},
		{"a=old b=keep", []Op{set("a", "old"), set("b", "keep")}, nil},
		{"a=5 with a deadline, b=7", []Op{psetex("a", "5", 5000), set("b", "7"), set("c", "cc")}, nil},
		{"a hash, b=keep", []Op{hmset("a", "f", "1", "g", "2"), set("b", "keep"), set("c", "s")}, nil},
		{"a=old, b hash, c deadline", []Op{set("a", "old"), hset("b", "f", "x"), setex("c", "cc", 9)}, nil},
		{"a list, b=keep", []Op{set("b", "keep")}, map[string][]string{"a": {"q0", "q1"}}},
		{"a=expired, b list", []Op{psetex("a", "gone", 5), adv(6 * ms)}, map[string][]string{"b": {"q2"}}},
	}
}

// addressed returns the keys a command writes to, known=false for a name that is no Redis command.
func addressed(args []string) (keys []string, known bool) {
	name := strings.ToLower(args[0])
	n := len(args)
	at := func(l ...int) (k []string) {
		for _, i := range l {
			if i < n {
				k = append(k, args[i])
			}
		}
		return
	}
	switch name {
	case "select", "ping", "multi", "exec", "publish", "flushall", "flushdb", "script", "replconf", "swapdb":
		return nil, true
	case "del", "unlink":
		return args[1:], true
	case "mset", "msetnx":
		for i := 1; i < n; i += 2 {
			keys = append(keys, args[i])
		}
		return keys, true
	case "rename", "renamenx", "rpoplpush", "smove", "brpoplpush", "lmove", "blmove":
		return at(1, 2), true
	case "copy":
		return at(2), true // the source is only read
	case "eval", "evalsha":
		if n < 3 {
			return nil, true
		}
		k, err := strconv.Atoi(args[2])
		if err != nil || k < 0 || k > n-3 {
			return nil, true
		}
		return args[3 : 3+k], true
	case "bitop":
		return at(2), true
	case "sort", "georadius", "georadiusbymember":
		for i := 2; i+1 < n; i++ {
			if strings.EqualFold(args[i], "store") || name != "sort" && strings.EqualFold(args[i], "storedist") {
				keys = append(keys, args[i+1])
			}
		}
		return keys, true
	case "foo", "", "set ", "rpush\r\n", "hmset2":
		return at(1), false
	}
	return at(1), true
}

// readsOthers: the arguments that are not written to may name keys that are read.
func readsOthers(name string) bool {
	switch name {
	case "sort", "georadius", "georadiusbymember", "copy", "eval", "evalsha":
		return true
	}
	return false
}

// asOps gives the effect of commands the cache might apply.
func asOps(args []string) (ops []Op, ok bool) {
	name := strings.ToLower(args[0])
	a := args[1:]
	switch {
	case name == "set" && len(a) == 2:
		return []Op{set(a[0], a[1])}, true
	case (name == "hmset" || name == "hset") && len(a) >= 3 && len(a)%2 == 1:
		return []Op{{C: "hmset", K: a[0], L: a[1:]}}, true
	case (name == "del" || name == "unlink") && len(a) >= 1:
		for _, k := range a {
			ops = append(ops, del(k))
		}
		return ops, true
	case name == "flushall" || name == "flushdb":
		return []Op{flush()}, true
	case name == "append" && len(a) == 2:
		return []Op{appendOp(a[0], a[1])}, true
	case name == "setnx" && len(a) == 2:
		return []Op{setnx(a[0], a[1])}, true
	case name == "getset" && len(a) == 2:
		return []Op{getset(a[0], a[1])}, true
	case name == "incr" && len(a) == 1:
		return []Op{incr(a[0])}, true
	case name == "decr" && len(a) == 1:
		return []Op{decr(a[0])}, true
	case name == "hdel" && len(a) >= 2:
		return []Op{{C: "hdel", K: a[0], L: a[1:]}}, true
	case name == "hsetnx" && len(a) == 3:
		return []Op{hsetnx(a[0], a[1], a[2])}, true
	case name == "mset" && len(a) >= 2 && len(a)%2 == 0:
		return []Op{{C: "mset", L: a}}, true
	case name == "ping" || name == "select" || name == "multi" || name == "exec" || name == "publish" || name == "script" || name == "replconf":
		return nil, true
	}
	return nil, false
}

// mustSupport: these forms have to be applied, not refused.
func mustSupport(args []string) bool {
	switch strings.ToLower(args[0]) {
	case "set":
		return len(args) == 3
	case "rpush":
		return len(args) >= 3
	case "hmset":
		return len(args) >= 4 && len(args)%2 == 0
	}
	return false
}

// cacheList reads a list: with the reading commands once they exist, else from the memory image.
func cacheList(ch *cache.Cache, key string, cands []string) (l []string, ok bool) {
	var got []string
	var err error
	if p := vs.Try(func() { got, err = ch.LRange(key, 0, -1) }); p == "" && err == nil {
		return got, true
	}
	d := vs.Dump(ch)
	type at struct {
		i int
		s string
	}
	var ps []at
	for _, cnd := range cands {
		q := strconv.Quote(cnd)
		q = q[1 : len(q)-1] // as the memory image shows it
		if strings.Count(d, q) != 1 {
			if strings.Count(d, q) == 0 {
				continue
			}
			return nil, false
		}
		ps = append(ps, at{strings.Index(d, q), cnd})
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].i < ps[j].i })
	for _, p := range ps {
		l = append(l, p.s)
	}
	return l, true
}

type msgCase struct {
	desc string
	args []string // when the message is an array whose elements have a text
	msg  func() redis.Message
	odd  bool // contains elements that are not strings
	str  bool // all elements are bulk strings
}

func c32messages(t bool) (l []msgCase) {
	cmd := func(args ...string) {
		l = append(l, msgCase{desc: reqString(args), args: args, str: true, msg: func() redis.Message { return bulks(args...).msg() }})
	}
	vals := []string{"new", "", "5", "007", "a\r\nb", "\x00\xff", "b", "nan", "-0", "1e5", strings.Repeat("L", 300), "9223372036854775808"}
	for _, n := range []string{"set", "SET", "sEt"} {
		for _, v := range vals {
			cmd(n, "a", v)
		}
		cmd(n, "a", "v", "EX", "10")
		cmd(n, "a", "v", "PX", "10000")
		cmd(n, "a", "v", "NX")
		cmd(n, "a", "v", "KEEPTTL")
		cmd(n, "a", "v", "GET")
	}
	odds := []string{" x", "x ", " ", "\t", "\n", "\r\n", "\nv\n", "\x00", "v\x00", "A", "Ab", "\"v\"", "'v'", "\\n", "%s", "\xe9", "\u00e9", "nil", "Nil", "null", "EX", "NX", "PX", "1.0", "+5", "0x10", "\xef\xbb\xbfv", letters(4096), filler(70000)}
	for _, v := range odds {
		cmd("set", "a", v)
		cmd("set", v, "w")
		cmd("hmset", "a", "f", v)
		cmd("hmset", "a", v, "w", "g", "u")
		cmd("hmset", "h", "k", "w", v, v)
		cmd("hmset", v, "f", "w")
		cmd("append", "a", v)
		cmd("del", v)
		cmd("foo", v, "x")
	}
	for _, e := range []string{" e6 ", "e6\n", "\te6\t", "\r\ne6", "e6\x00", "E6e", "\"e6\""} {
		cmd("rpush", "a", e)
		cmd("rpush", "l", "e1", e, "e2")
		cmd("rpush", e, "e1")
	}
	cmd("set", "A", "upper")
	cmd("set", "aa", "longer")
	cmd("set", "b", "x")
	cmd("set", "", "empty key")
	cmd("set", "a b\r\n", "x")
	for _, n := range []string{"rpush", "RPUSH", "rPush"} {
		cmd(n, "a", "e1")
		cmd(n, "a", "e1", "e2", "e3")
		cmd(n, "l", "e1", "e2")
		cmd(n, "b", "e1", "e3")
	}
	cmd("rpush", "a", "e2", "e1", "e4", "e3", "e5")
	for _, k := range []string{"a", "l", "b"} {
		cmd("rpush", k, "")
		cmd("rpush", k, "", "e1")
		cmd("rpush", k, "e1", "", "e2")
		cmd("rpush", k, "e1", "e2", "")
		cmd("rpush", k, "", "", "")
		cmd("rpush", k, "e1", "e1", "e1")
		cmd("rpush", k, "e1", "e2", "e1", "e2")
		cmd("rpush", k, "5", "5", k, "0", " ", "nil")
		cmd("rpush", k, k)
	}
	for _, v := range odds {
		cmd("rpush", "a", v)
		cmd("rpush", "l", v, "e1", v)
		cmd("rpush", v, v)
	}
	for _, n := range []string{"hmset", "HMSET", "hMset"} {
		cmd(n, "a", "f", "9")
		cmd(n, "a", "f", "1", "g", "")
		cmd(n, "h", "f", "v", "z", "\r\n")
		cmd(n, "b", "g", "5", "h", "007")
	}
	cmd("hmset", "a", "f", "1", "f", "2")
	cmd("hmset", "h", "", "x")
	// every name with every arity from 1 to 5 over keys a, b
	names := []string{"set", "rpush", "hmset", "append", "del", "unlink", "incr", "decr", "incrby", "getset", "setnx", "setex", "psetex", "setrange", "expire", "pexpireat", "persist", "lpush", "lpop", "rpop", "lset", "ltrim", "hset", "hdel", "hincrby", "hsetnx", "sadd", "srem", "zadd", "zrem", "mset", "msetnx", "rename", "renamenx", "rpoplpush", "smove", "bitop", "setbit", "sort", "move", "restore", "select", "ping", "multi", "exec", "publish", "flushall", "flushdb", "script", "xadd", "pfadd", "geoadd", "foo", "", "set ", "rpush\r\n", "SETNX", "Del", "MSET", "FLUSHALL", "RENAME", "Append",
		"lmove", "blmove", "BLMOVE", "brpoplpush", "copy", "eval", "evalsha", "georadius", "georadiusbymember", "sunionstore", "sinterstore", "zunionstore", "pfmerge", "getdel", "getex", "hincrbyfloat", "incrbyfloat", "linsert", "lrem", "lpushx", "rpushx", "blpop", "spop", "zincrby", "zremrangebyscore", "expireat", "xtrim", "xdel", "unlink2", "setex\n", "del ", "SeT\x00"}
	argl := [][]string{{}, {"a"}, {"a", "b"}, {"a", "1", "b"}, {"b", "2", "a", "3"}, {"a", "b", "c", "4"}, {"a", "f", "v", "g", "w"}, {"c", "a", "b", "STORE", "a"}, {"and", "a", "b"}, {"b", "ALPHA", "store", "a"},
		{"a", "b", "LEFT", "RIGHT"}, {"c", "a", "left", "left", "0"}, {"return 1", "0"}, {"return 1", "1", "a"}, {"return 1", "2", "a", "b"}, {"s", "1", "b", "a"}, {"s", "-1", "a"}, {"s", "x", "a"}, {"s", "9", "a"}, {"b", "15", "37", "9", "km", "STORE", "a"}, {"b", "m", "9", "km", "StoreDist", "a"}, {"a", "2", "b", "c"}}
	for _, n := range names {
		for _, a := range argl {
			cmd(append([]string{n}, a...)...)
		}
	}
	many := []string{"rpush", "a"}
	hm := []string{"hmset", "a"}
	for i := 0; i < 300; i++ {
		many = append(many, fmt.Sprintf("e%03d", i))
		hm = append(hm, fmt.Sprintf("f%d", i), fmt.Sprintf("%d", i))
	}
	cmd(many...)
	cmd(hm...)
	// many keys, the interesting one last or in the middle
	for _, n := range []int{9, 31, 127, 128, 129, 255, 256, 257, 300, 1030} {
		var ks, kv []string
		for i := 0; i < n; i++ {
			ks = append(ks, fmt.Sprintf("x%d", i))
			kv = append(kv, fmt.Sprintf("x%d", i), "1")
		}
		for _, w := range []string{"del", "unlink", "DEL"} {
			cmd(append(append([]string{w}, ks...), "a")...)
			cmd(append(append(append([]string{w}, ks...), "b"), ks...)...)
		}
		for _, w := range []string{"mset", "msetnx"} {
			cmd(append(append([]string{w}, kv...), "a", "n")...)
			cmd(append(append(append([]string{w}, kv...), "b", "n"), kv...)...)
		}
		for _, w := range []string{"eval", "evalsha"} {
			cmd(append(append([]string{w, "s", strconv.Itoa(n + 1)}, ks...), "a", "b")...)
			cmd(append(append([]string{w, "s", strconv.Itoa(n)}, ks...), "a")...)
		}
		cmd(append(append([]string{"sort", "c"}, ks...), "STORE", "a")...)
	}
	// other kinds
	odd := func(d string, m rv, args ...string) {
		l = append(l, msgCase{desc: d, args: args, odd: true, msg: func() redis.Message { return m.msg() }})
	}
	for _, m := range []rv{nilv(), vint(5), simple("set"), simple("OK"), rerr("ERR"), bulk("set a new"), bulk(""), arr(), arr(arr()), arr(nilv()), arr(vint(1)), arr(rerr("x")), arr(arr(bulk("set")), bulk("a"), bulk("new")), arr(nilv(), bulk("a"), bulk("new")), arr(rerr("set"), bulk("a"), bulk("new"))} {
		odd(m.String(), m)
	}
	for _, n := range []string{"set", "rpush", "hmset", "append", "del", "foo", "mset", "select"} {
		for _, x := range []rv{nilv(), vint(5), simple("sv"), rerr("ERR e"), arr(), arr(bulk("a")), arr(bulk("a"), bulk("b"))} {
			odd(n+" with key "+x.String(), arr(bulk(n), x, bulk("new")))
			odd(n+" with only key "+x.String(), arr(bulk(n), x))
			odd(n+" with value "+x.String(), arr(bulk(n), bulk("a"), x), n, "a", "?")
			odd(n+" with values "+x.String(), arr(bulk(n), bulk("a"), bulk("e1"), x), n, "a", "e1", "?")
			odd(n+" with last "+x.String(), arr(bulk(n), bulk("a"), bulk("f"), bulk("w"), bulk("g"), x), n, "a", "f", "w", "g", "?")
		}
	}
	for _, n := range []string{"set", "rpush", "hmset", "del", "flushall", "append"} {
		odd("simple string name "+n, arr(simple(n), bulk("a"), bulk("e1")), n, "a", "e1")
		odd("simple string name and args "+n, arr(simple(n), simple("a"), simple("e1"), simple("e2")), n, "a", "e1", "e2")
		odd("integer argument "+n, arr(bulk(n), bulk("a"), vint(7)), n, "a", "7")
	}
	l = append(l, msgCase{desc: "no message at all", odd: true, msg: func() redis.Message { return nil }},
		msgCase{desc: "nil array", odd: true, msg: func() redis.Message { return redis.ArrayMessage(nil) }})
	return
}

func runMsgs(st cacheState, msgs []*msgCase) (s *vs.Sched, msg string) {
	s = vs.Run(nil, false, 400000, func() {
		ch := cache.New()
		m := newModel()
		for _, o := range st.setup {
			m.apply(o)
			if _, p := safeApply(ch, o); p != "" {
				msg = "setup: " + p
				return
			}
		}
		lists := map[string][]string{}
		unk := map[string]bool{} // keys about which nothing is specified any more
		for _, k := range []string{"a", "b", "c"} {
			if l := st.lists[k]; l != nil {
				if p := vs.Try(func() { ch.RPush(k, l...) }); p != "" {
					msg = "setup: " + p
					return
				}
				lists[k] = append([]string{}, l...)
			}
		}
		for _, mc := range msgs {
			var err error
			isList := func(k string) bool { return lists[k] != nil }
			var pre map[string]*mval
			pre = map[string]*mval{}
			for k := range m.m {
				if v := m.get(k); v != nil {
					pre[k] = v
				}
			}
			if p := vs.Try(func() { err = cache.HandleMessage(ch, mc.msg()) }); p != "" {
				msg = fmt.Sprintf("%s: %s", mc.desc, p)
				return
			}
			if mc.args == nil {
				// not a command: nothing is addressed
				a, isArr := mc.msg().(redis.ArrayMessage)
				texts := isArr && len(a) > 0 // integers and simple strings may pass for strings
				for _, x := range a {
					switch x.(type) {
					case redis.IntMessage, redis.SimpleStringMessage:
					default:
						if _, nested := x.(redis.ArrayMessage); nested || x.Protocol() == redis.ProtocolError || x.Serialize() == "$-1\r\n" {
							texts = false
						}
					}
				}
				if err == nil && !texts {
					msg = fmt.Sprintf("%s: no error is reported", mc.desc)
					return
				}
				if isArr && len(a) > 1 {
					// the key may be any of its elements
					for _, x := range a[1:] {
						for _, k := range strings.Fields(x.String()) {
							unk[k] = true
						}
						unk[x.String()] = true
					}
				}
			} else {
				keys, known := addressed(mc.args)
				name := strings.ToLower(mc.args[0])
				vague := false
				for _, k := range keys {
					vague = vague || unk[k]
				}
				if vague {
					switch {
					case err == nil && mc.str && (name == "set" && len(mc.args) == 3 || name == "del" && len(keys) > 0):
						// whatever it was before, now it is known
						for _, k := range keys {
							delete(unk, k)
							delete(m.m, k)
							delete(lists, k)
							if name == "set" {
								m.apply(set(k, mc.args[2]))
							}
						}
					case err == nil && (name == "flushall" || name == "flushdb"):
					default:
						// judged below only for keys that are known
						for _, k := range keys {
							unk[k] = true
						}
					}
				} else if err != nil {
					if mc.str && mustSupport(mc.args) {
						wrong := false
						if name == "rpush" && (pre[mc.args[1]] != nil) {
							wrong = true
						}
						if name == "hmset" && (isList(mc.args[1]) || pre[mc.args[1]] != nil && pre[mc.args[1]].h == nil) {
							wrong = true
						}
						if !wrong {
							msg = fmt.Sprintf("%s is refused: %v", mc.desc, err)
							return
						}
					}
					for _, k := range keys {
						if unk[k] {
							continue
						}
						had := pre[k] != nil || isList(k)
						ex := 0
						if p := vs.Try(func() { ex = ch.Exists(k) }); p != "" {
							msg = fmt.Sprintf("%s then exists: %s", mc.desc, p)
							return
						}
						if had && ex != 0 {
							v, _ := ch.Get(k)
							msg = fmt.Sprintf("%s is refused (%v) and the cache goes on serving the old value of key %q (%s)", mc.desc, err, k, short(v))
							return
						}
						if ex != 0 {
							unk[k] = true
							continue
						}
						delete(m.m, k)
						delete(lists, k)
					}
					if !known || readsOthers(name) {
						for _, k := range mc.args[1:] {
							unk[k] = true
						}
					}
				} else if mc.odd {
					// accepted although some arguments are no bulk strings: the addressed keys hold whatever was made of them
					for _, k := range keys {
						unk[k] = true
					}
					if name == "flushall" {
						m.m = map[string]*mval{}
						lists = map[string][]string{}
					}
				} else if name == "rpush" && len(mc.args) >= 3 {
					k := mc.args[1]
					if pre[k] != nil {
						msg = fmt.Sprintf("%s succeeds on a key of another type", mc.desc)
						return
					}
					lists[k] = append(append([]string{}, lists[k]...), mc.args[2:]...)
				} else if ops, ok := asOps(mc.args); ok {
					for _, o := range ops {
						for _, k := range keys {
							if isList(k) && o.C != "set" && o.C != "del" && o.C != "mset" {
								msg = fmt.Sprintf("%s succeeds on a list", mc.desc)
								return
							}
							delete(lists, k)
						}
						if o.C == "flush" {
							lists = map[string][]string{}
						}
						if r := m.apply(o); r.E != "" {
							msg = fmt.Sprintf("%s returns no error, on the master it fails", mc.desc)
							return
						}
					}
				} else if len(keys) > 0 {
					// reported as applied: the key can not have stayed as it was; the effect is not modelled
					msg = fmt.Sprintf("%s returns nil, its effect on the master is not reproduced", mc.desc)
					return
				}
			}
			// observe everything
			obs := map[string]bool{"a": true, "b": true, "c": true, "h": true, "l": true, "": true, "a b\r\n": true}
			for step := 0; step < 2; step++ {
				if step == 1 {
					if len(m.m) == 0 {
						break
					}
					hasTTL := false
					for _, v := range m.m {
						if v.hasTTL {
							hasTTL = true
						}
					}
					if !hasTTL || mc != msgs[len(msgs)-1] {
						break
					}
					vs.Advance(20 * time.Second)
					m.now = m.now.Add(20 * time.Second)
				}
				var names []string
				for k := range obs {
					names = append(names, k)
				}
				sort.Strings(names)
				for _, k := range names {
					if unk[k] {
						continue
					}
					if lk, isL := lists[k]; isL {
						r, p := safeApply(ch, typ(k))
						if p != "" || r.S != "list" && r.S != "" || r.S == "" {
							msg = fmt.Sprintf("after %s key %q is %s %s, not a list", mc.desc, k, r, p)
							return
						}
						var cands []string
						seen := map[string]bool{}
						dup := false
						for _, x := range lk {
							if seen[x] {
								dup = true
							}
							if !seen[x] {
								cands = append(cands, x)
							}
							seen[x] = true
							// a value that also occurs elsewhere can not be told apart in a memory image
							if len(x) < 2 || x[0] != 'e' && x[0] != 'q' && !strings.Contains(x, "e6") && !strings.Contains(x, "E6") {
								dup = true
							}
						}
						other := false
						for k2, l2 := range lists {
							if k2 != k {
								for _, x := range l2 {
									if seen[x] {
										other = true
									}
								}
							}
						}
						if !dup && !other {
							if l, ok := cacheList(ch, k, cands); ok && strings.Join(l, "|") != strings.Join(lk, "|") {
								msg = fmt.Sprintf("after %s the list %q holds %v, on the master %v", mc.desc, k, l, lk)
								return
							}
						}
						continue
					}
					for _, o := range observeOps([]string{k}, "get type exists hgetall hlen", nil) {
						want := m.apply(o)
						got, p := safeApply(ch, o)
						if p != "" || !match(got, want) {
							msg = fmt.Sprintf("after %s: %s is %s %s, want %s", mc.desc, o, got, p, want)
							return
						}
					}
				}
			}
		}
		// how long the lists have become shows when one more element is pushed
		var names []string
		for k := range lists {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			if unk[k] {
				continue
			}
			n, err := 0, error(nil)
			if p := vs.Try(func() { n, err = ch.RPush(k, "one more") }); p != "" || err != nil || n != len(lists[k])+1 {
				msg = fmt.Sprintf("after %s a push to the list %q gives length %d (%v) %s, want %d", msgs[len(msgs)-1].desc, k, n, err, p, len(lists[k])+1)
				return
			}
		}
	})
	if msg == "" && s.Fail != nil {
		msg = s.Fail.Kind + ": " + s.Fail.Msg
	}
	return
}

func c32tasks(t bool) (tasks []Task) {
	msgs := c32messages(t)
	for _, st := range c32states() {
		st := st
		tasks = append(tasks, Task{"from " + st.name, func(c *Ctx) {
			for i := range msgs {
				if c.Stop() {
					return
				}
				mc := &msgs[i]
				c.Case(func() string { return st.name + ": " + mc.desc })
				c.R.States++
				c.R.Distinct++
				c.R.Traces++
				c.R.Evals++
				s, msg := runMsgs(st, []*msgCase{mc})
				c.R.Transitions += s.Steps
				if msg != "" && c.Violate(st.name+": "+mc.desc, "cache holding "+st.name+": "+msg, mc.desc) {
					return
				}
			}
			c.Sample(msgs[3].desc)
		}})
	}
	// sequences of commands
	var base []*msgCase
	for i := range msgs {
		if msgs[i].args != nil && !msgs[i].odd {
			d := msgs[i].desc
			for _, w := range [][]string{{"set", "a", "new"}, {"set", "b", "x"}, {"rpush", "a", "e1"}, {"rpush", "b", "e1", "e3"}, {"hmset", "a", "f", "9"}, {"hmset", "b", "g", "5", "h", "007"}, {"append", "a", "b"}, {"del", "a"}, {"del", "a", "b"}, {"flushall"}, {"set", "a"}, {"hmset", "a", "b"}, {"mset", "a", "b"}, {"rename", "a", "b"}, {"foo", "a"}, {"select", "a"}, {"incr", "a"}, {"rpush", "a", "e2", "e1", "e4", "e3", "e5"}, {"set", "a", "5"}, {"hset", "a", "1", "b"}} {
				if d == reqString(w) {
					base = append(base, &msgs[i])
				}
			}
		}
	}
	sts := c32states()
	for i := range base {
		i := i
		tasks = append(tasks, Task{"sequences " + base[i].desc, func(c *Ctx) {
			depth := pick(t, 4, 3)
			var rec func(seq []*msgCase) bool
			rec = func(seq []*msgCase) bool {
				for si := range sts {
					if len(seq) == 3 && si != 0 && si != 2 && si != 3 {
						continue
					}
					if c.Stop() {
						return true
					}
					var d []string
					for _, m := range seq {
						d = append(d, m.desc)
					}
					name := sts[si].name + ": " + strings.Join(d, "; ")
					c.Case(func() string { return name })
					c.R.States++
					c.R.Distinct++
					c.R.Traces++
					c.R.Evals++
					s, msg := runMsgs(sts[si], seq)
					c.R.Transitions += s.Steps
					if msg != "" && c.Violate(name, "cache holding "+name+": "+msg, d) {
						return true
					}
				}
				if len(seq) == depth+1 {
					return false
				}
				for _, m := range base {
					if rec(append(append([]*msgCase{}, seq...), m)) {
						return true
					}
				}
				return false
			}
			rec([]*msgCase{base[i]})
			c.Sample("sequences starting with " + base[i].desc)
		}})
	}
	return
}

func init() {
	props["C30"] = &Prop{Tasks: c30tasks, Rule: "every payload of a domain x keep-alive counts x fragmentations, the connection cut at every byte, every refusal, and every position at which writing the file fails (size limit, full device, unopenable path); real file system, in-memory network",
		Bounds: func(t bool) string {
			return "payloads 0 to 70000 bytes (thorough 1 MiB) incl. all sizes around 4096; cuts at every byte of small streams and around buffer boundaries of large ones"
		}, Assume: []string{"the handshake is PING followed by SYNC"}}
	props["C31"] = &Prop{Tasks: c31tasks, Rule: "all command streams up to the depth over an 18-command alphabet, every end position and cut of all pairs, streams of up to 25000 commands, and all interleavings of master, stream reader and consumer within the preemption bound",
		Bounds: func(t bool) string { return fmt.Sprintf("depth %d; preemptions %d", pick(t, 4, 3), pick(t, 3, 2)) },
		Assume: []string{"a keep-alive is the one-element command PING in any letter case", "the label of a SELECT command itself is not specified"}}
	props["C32"] = &Prop{Tasks: c32tasks, Rule: "every message of a domain (names x arities x letter case x element kinds) from every initial cache state, and all sequences of 20 core commands up to the depth, against the reference model of the master",
		Bounds: func(t bool) string {
			return fmt.Sprintf("%d messages x 7 states; sequences of up to %d", len(c32messages(t)), pick(t, 5, 4))
		},
		Assume: []string{"list contents are read with LRange when it works, else from the memory image of the cache", "what an accepted message with non-bulk elements stores is not specified"}}
}
