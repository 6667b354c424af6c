package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/liujiangwei/xxcache"
	"github.com/liujiangwei/xxcache/zzverif/vs"
)

// ---- C36: starting a client ----

// attempt is one try to start a client against a master that misbehaves in one way.
type attempt struct {
	what   string
	refuse bool
	atOpen error  // the connection ends as soon as it is made
	noSend bool   // writing fails from the first byte
	pong   string // answer to PING
	reply  string // answer to SYNC instead of a snapshot
	cutRdb int    // the payload is a snapshot that stops after this many bytes, -1 whole
	edit   func(string) string
	cut    int // the answer to SYNC stops after this many bytes, -1 whole
	end    error
	file   string // a place where the snapshot can not be stored
}

func (a attempt) String() string {
	s := a.what
	if a.end != nil {
		s += fmt.Sprintf(" (%v)", a.end)
	}
	return s
}

func att(what string) attempt { return attempt{what: what, cutRdb: -1, cut: -1} }

type startCase struct {
	fails  []attempt
	init   int
	form   int
	pieces int
	old    int // what the file holds before: 0 nothing, 1 another dataset, 2 junk
	deflt  bool
}

func (sc *startCase) String() string {
	var l []string
	for _, a := range sc.fails {
		l = append(l, a.String())
	}
	s := fmt.Sprintf("starts failing with [%s], then a healthy one (dataset %d, encoding %d", strings.Join(l, "; "), sc.init, sc.form)
	s += []string{"", ", the file holds another dataset", ", the file holds junk"}[sc.old]
	if sc.pieces > 0 {
		s += fmt.Sprintf(", at most %d bytes per read", sc.pieces)
	}
	if sc.deflt {
		s += ", default options"
	}
	return s + ")"
}

func startRun(sc *startCase, e *vs.Explorer) (*vs.Sched, string) {
	msg := ""
	n := &fakeNet{pieces: sc.pieces}
	file := scratchFile("start.rdb")
	opt := xxcache.Option{RedisMasterAddr: "m:1", RedisRdbFile: file}
	addr := "m:1"
	if sc.deflt {
		opt = xxcache.Option{}
		addr = "127.0.0.1:6379"
		file = filepath.Join(*fScratch, "temp.rdb")
	}
	os.Remove(file)
	s, bad := netRun(e, false, 3000000, n, func() {
		m := newMaster(sc.form)
		m.attach(n)
		for _, x := range [][]string{{"set", "a", "stale"}, {"set", "c", "gone"}, {"set", "d", "gone"}, {"hset", "e", "f", "1"}, {"set", "z", strings.Repeat("long ago ", 60)}} {
			m.exec(0, x)
		}
		switch sc.old {
		case 1:
			os.WriteFile(file, []byte(m.snapshot()), 0600)
		case 2:
			os.WriteFile(file, []byte(strings.Repeat("junk", 300)), 0600)
		}
		healthy, dial := n.onReq, n.onDial
		for _, a := range sc.fails {
			a := a
			n.onDial = dial
			if a.refuse {
				n.onDial = func(int, string) error { return errRefused }
			}
			n.onOpen = func(s *srvConn) {
				if a.atOpen != nil {
					s.drop(a.atOpen)
				}
				if a.noSend {
					s.werr = errPipe
					s.end = errReset
				}
			}
			n.onReq = func(s *srvConn, args []string) {
				from := len(s.in)
				switch {
				case a.pong != "" && isCmd(args, "ping"):
					s.send(a.pong)
				case a.reply != "" && isCmd(args, "sync"):
					s.send(a.reply)
				case (a.cutRdb >= 0 || a.edit != nil) && isCmd(args, "sync"):
					p := m.snapshot()
					if a.edit != nil {
						p = a.edit(p)
					} else {
						p = p[:a.cutRdb]
					}
					s.send(fmt.Sprintf("$%d\r\n%s", len(p), p))
				default:
					healthy(s, args)
				}
				if a.cut >= 0 && isCmd(args, "sync") && len(s.in) >= from+a.cut {
					s.in = s.in[:from+a.cut]
				}
				if a.end != nil && (isCmd(args, "sync") || a.pong != "") {
					s.drop(a.end)
				}
			}
			o := opt
			if a.file != "" {
				o.RedisRdbFile = a.file
			}
			var err error
			vs.SetBranch(e != nil)
			th := vs.GoNamed("start", func() { _, err = xxcache.New(o) })
			vs.WaitQuiescent()
			vs.SetBranch(false)
			if !th.Done() {
				msg = fmt.Sprintf("New does not return when %s", a)
				return
			}
			vs.Join(th)
			if err == nil {
				msg = fmt.Sprintf("New reports success although %s", a)
				return
			}
			if fileOpen(o.RedisRdbFile) {
				msg = fmt.Sprintf("after a start that failed because %s, the snapshot file stays open", a)
				return
			}
			req := n.requestCount()
			for i := 0; i < 3; i++ {
				vs.Advance(time.Second)
				vs.WaitQuiescent()
			}
			if n.requestCount() != req {
				msg = fmt.Sprintf("after a start that failed because %s, requests are still sent", a)
				return
			}
			if k := n.open(); k != 0 {
				msg = fmt.Sprintf("after a start that failed because %s, %d connections stay open", a, k)
				return
			}
			if k := vs.Alive(); k != 0 {
				msg = fmt.Sprintf("after a start that failed because %s, %d goroutines keep running: %s", a, k, vs.Stuck())
				return
			}
		}
		n.onReq, n.onDial, n.onOpen = healthy, dial, nil
		m.exec(0, []string{"flushall"})
		m.exec(1, []string{"flushall"})
		cliInit(m, sc.init)
		var cl xxcache.Client
		var err error
		vs.SetBranch(e != nil)
		th := vs.GoNamed("start", func() { cl, err = xxcache.New(opt) })
		vs.WaitQuiescent()
		vs.SetBranch(false)
		if !th.Done() {
			msg = "a healthy start does not return"
			return
		}
		vs.Join(th)
		if err != nil {
			msg = "a healthy start fails: " + err.Error()
			return
		}
		if fileOpen(opt.RedisRdbFile) {
			msg = "after a healthy start the snapshot file stays open"
			return
		}
		keys := append(cliKeys[:len(cliKeys):len(cliKeys)], "z")
		if msg = checkClient(m, n, &cl, keys); msg != "" {
			return
		}
		m.exec(0, []string{"set", "a", "newer"})
		m.exec(0, []string{"set", "c", "new"})
		vs.WaitQuiescent()
		if msg = checkClient(m, n, &cl, keys); msg != "" {
			msg = "after the stream went on, " + msg
			return
		}
		for _, x := range n.conns {
			if x.addr != addr {
				msg = fmt.Sprintf("a connection is made to %q, the master is %q", x.addr, addr)
				return
			}
		}
	})
	if bad != "" {
		msg = bad
	}
	return s, msg
}

// attempts lists the ways a start can go wrong; size is the length of the snapshot the failing master has.
func attempts(size int, dir string) (l, core []attempt) {
	a := att("nobody listens")
	a.refuse = true
	l = append(l, a)
	for _, e := range []error{io.EOF, errReset} {
		a = att(fmt.Sprintf("the connection ends at once (%v)", e))
		a.atOpen = e
		l = append(l, a)
	}
	a = att("nothing can be sent")
	a.noSend = true
	l = append(l, a)
	core = append(core, l...)
	for i, p := range []string{"-ERR unknown command\r\n", "-NOAUTH Authentication required.\r\n", "-LOADING Redis is loading the dataset in memory\r\n", "+OK\r\n", ":1\r\n", "$-1\r\n", "*0\r\n", "?\r\n", "+PON", "+", "$4\r\nPO", "-DENIED\r\n"} {
		for _, e := range []error{nil, io.EOF, errReset} {
			if e == nil && !strings.HasSuffix(p, "\n") {
				continue
			}
			a = att("PING is answered with " + short(p))
			a.pong, a.end = p, e
			l = append(l, a)
			if i < 2 && e != errReset {
				core = append(core, a)
			}
		}
	}
	for i, r := range []string{"-ERR not permitted\r\n", "-NOMASTERLINK Can't SYNC while not connected with my master\r\n", "+OK\r\n", "+CONTINUE\r\n", ":5\r\n", "$abc\r\n", "?3\r\nabc", "*1\r\n$3\r\nabc\r\n", "\n\n-ERR not yet\r\n", "$99999999999999999999\r\nabc"} {
		for _, e := range []error{nil, io.EOF, errReset} {
			if e == nil && i > 4 && i != 8 {
				continue
			}
			a = att("SYNC is answered with " + short(r))
			a.reply, a.end = r, e
			l = append(l, a)
			if i == 0 {
				core = append(core, a)
			}
		}
	}
	hdr := len(fmt.Sprintf("\n$%d\r\n", size))
	for i := 0; i < hdr+size; i++ {
		for _, e := range []error{io.EOF, errReset} {
			a = att(fmt.Sprintf("the answer to SYNC stops after %d of %d bytes", i, hdr+size))
			a.cut, a.end = i, e
			l = append(l, a)
			if i == 0 || i == 3 || i == hdr+size/2 || i == hdr+size-1 {
				core = append(core, a)
			}
		}
	}
	for i := 0; i <= size-9; i++ {
		a = att(fmt.Sprintf("the snapshot is only the first %d of %d bytes", i, size))
		a.cutRdb = i
		l = append(l, a)
		if i == 0 || i == 9 || i == size/2 || i == size-9 {
			core = append(core, a)
		}
	}
	for i, x := range []struct {
		what string
		edit func(string) string
	}{
		{"the snapshot holds a type that does not exist", func(s string) string { return s[:len(s)-9] + "\x63" + encStr("k") + encStr("v") + s[len(s)-9:] }},
		{"the snapshot does not start with REDIS", func(s string) string { return "RADIS" + s[5:] }},
		{"the snapshot's version is no number", func(s string) string { return "REDIS00x9" + s[9:] }},
		{"the snapshot is another file", func(s string) string { return strings.Repeat("<html>", 50) }},
		{"the snapshot starts late", func(s string) string { return "\n" + s }},
	} {
		a = att(x.what)
		a.edit = x.edit
		l = append(l, a)
		if i == 0 {
			core = append(core, a)
		}
	}
	for _, f := range []string{dir, filepath.Join(dir, "no", "such", "dump.rdb"), "/dev/full"} {
		a = att("the snapshot can not be stored in " + filepath.Base(f))
		a.file = f
		l = append(l, a)
	}
	core = append(core, l[len(l)-3:]...)
	return
}

func c36tasks(t bool) (tasks []Task) {
	dir := scratchFile("startdir")
	os.MkdirAll(dir, 0755)
	size := func(form int) int {
		k := 0
		vs.Run(nil, false, 1<<30, func() {
			m := newMaster(form)
			for _, x := range [][]string{{"set", "a", "stale"}, {"set", "c", "gone"}, {"set", "d", "gone"}, {"hset", "e", "f", "1"}, {"set", "z", strings.Repeat("long ago ", 60)}} {
				m.exec(0, x)
			}
			k = len(m.snapshot())
		})
		return k
	}
	run := func(c *Ctx, sc *startCase) bool {
		c.R.Evals++
		c.R.Traces++
		c.R.States++
		c.R.Distinct++
		c.Case(sc.String)
		s, msg := startRun(sc, nil)
		c.R.Transitions += s.Steps
		if msg != "" {
			return c.Violate(sc.String(), sc.String()+": "+msg, nil)
		}
		return false
	}
	const parts = 4
	for k := 0; k < parts; k++ {
		k := k
		tasks = append(tasks, Task{fmt.Sprintf("one failure-%d", k), func(c *Ctx) {
			for form := 0; form < pick(t, 12, 3); form++ {
				l, _ := attempts(size(form), dir)
				for i := k; i < len(l); i += parts {
					for old := 0; old < 3; old++ {
						ps := []int{0, 1, 7}
						if !t {
							ps = ps[(i+old)%3:][:1]
						}
						for _, p := range ps {
							if c.Stop() || run(c, &startCase{fails: []attempt{l[i]}, init: 1, form: form, old: old, pieces: p}) {
								return
							}
						}
					}
				}
			}
			c.Sample("one failing start of every kind, with the answer to SYNC and the snapshot cut at every byte")
		}})
	}
	_, core := attempts(size(0), dir)
	for k := range core {
		k := k
		tasks = append(tasks, Task{"sequences " + core[k].String(), func(c *Ctx) {
			for i, b := range core {
				for init := 0; init < 2; init++ {
					if c.Stop() || run(c, &startCase{fails: []attempt{core[k], b}, init: init, old: (i + k) % 3}) {
						return
					}
				}
				for j, d := range core {
					if !t && (i+j+k)%4 != 0 {
						continue
					}
					if c.Stop() || run(c, &startCase{fails: []attempt{core[k], b, d}, init: (i + j) % 2, old: (i + j + k) % 3}) {
						return
					}
				}
			}
			c.Sample((&startCase{fails: []attempt{core[k], core[(k+5)%len(core)]}, init: 1}).String())
		}})
	}
	tasks = append(tasks, Task{"healthy", func(c *Ctx) {
		wd, err := os.Getwd()
		if err == nil {
			err = os.Chdir(*fScratch)
		}
		if err != nil {
			panic(err)
		}
		defer os.Chdir(wd)
		for form := 0; form < pick(t, 60, 20); form++ {
			for init := 0; init < 2; init++ {
				for old := 0; old < 3; old++ {
					for _, d := range []bool{false, true} {
						for _, p := range []int{0, 1, 3, 11} {
							if c.Stop() || run(c, &startCase{init: init, form: form, old: old, pieces: p, deflt: d}) {
								return
							}
						}
					}
				}
			}
		}
		c.Sample((&startCase{init: 1, old: 1, deflt: true}).String())
	}})
	for i := range core {
		sc := &startCase{fails: []attempt{core[i]}, init: 1, old: i % 3}
		tasks = append(tasks, Task{fmt.Sprintf("schedules-%d", i), func(c *Ctx) {
			c.Sample("interleavings of " + sc.String())
			exploreNet(c, "interleavings of "+sc.String(), &vs.Explorer{Preempt: pick(t, 2, 1), MaxExec: pick(t, 100000, 20000)}, func(e *vs.Explorer) (*vs.Sched, string) {
				return startRun(sc, e)
			})
		}})
	}
	return
}

func init() {
	props["C36"] = &Prop{Tasks: c36tasks, Rule: "every way one start can fail (refused, ended at each byte of the answers and of the snapshot, wrong answers, damaged snapshot, snapshot file that can not be written) and all pairs and triples of a core of them, each followed by a healthy start whose view is compared with the master",
		Bounds: func(t bool) string {
			return fmt.Sprintf("up to 3 failing starts; %d snapshot encodings; preemptions %d", pick(t, 12, 3), pick(t, 2, 1))
		}}
}

// fileOpen: does this process hold the file open.
func fileOpen(path string) bool {
	path, _ = filepath.Abs(path)
	l, _ := os.ReadDir("/proc/self/fd")
	for _, e := range l {
		if to, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.TrimSuffix(to, " (deleted)") == path {
			return true
		}
	}
	return false
}
