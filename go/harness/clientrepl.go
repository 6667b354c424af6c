package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/liujiangwei/xxcache"
	"github.com/liujiangwei/xxcache/zzverif/vs"
)

// ---- a small Redis master: executes commands, answers SYNC with a snapshot and streams what changed ----

type rkey struct {
	kind string // string, hash, list
	s    string
	h    map[string]string
	l    []string
	exp  int64 // absolute milliseconds, 0 none
}

func (k *rkey) String() string {
	s := ""
	switch k.kind {
	case "string":
		s = fmt.Sprintf("%q", shorten(k.s, 20))
	case "hash":
		var f []string
		for x := range k.h {
			f = append(f, x+"="+k.h[x])
		}
		sort.Strings(f)
		s = "hash{" + strings.Join(f, " ") + "}"
	default:
		s = "list" + fmt.Sprint(k.l)
	}
	if k.exp != 0 {
		s += fmt.Sprintf(" expiring at %d", k.exp)
	}
	return s
}

func (k *rkey) clone() *rkey {
	c := *k
	c.l = append([]string{}, k.l...)
	c.h = map[string]string{}
	for f, v := range k.h {
		c.h[f] = v
	}
	return &c
}

type rmaster struct {
	dbs   [2]map[string]*rkey
	conn  *srvConn // the replica link
	sdb   int      // database selected on the link
	form  int      // which encodings the snapshot uses
	local map[string]string
	gets  map[string]int
	acks  int
	down  bool
	all   bool                // streamed at once with the payload
	vals  map[string][]string // every value the master ever had for a key of database 0 since the start, "\x00" absent
	after [][2]string
	extra string // bytes sent right after the payload
	sync  func() // called after SYNC has been answered
	nmsg  int
	nsets int // sets in the snapshot
}

func nowMs() int64 { return vs.Clock().UnixNano() / 1000000 }

func (m *rmaster) get(db int, k string) *rkey {
	v := m.dbs[db][k]
	if v != nil && v.exp != 0 && v.exp <= nowMs() {
		return nil
	}
	return v
}

func (m *rmaster) note() {
	if m.vals == nil {
		return
	}
	for _, k := range []string{"a", "b", "c"} {
		s := "\x00"
		if v := m.get(0, k); v != nil {
			if v.kind == "string" {
				s = v.s
			} else {
				s = "\x01"
			}
		}
		m.vals[k] = append(m.vals[k], s)
	}
}

// prop streams one command.
func (m *rmaster) prop(db int, args ...string) {
	m.track(db, args)
	if m.conn == nil {
		return
	}
	if db != m.sdb {
		m.conn.send(bulks("SELECT", strconv.Itoa(db)).enc())
		m.sdb = db
	}
	m.conn.send(bulks(args...).enc())
	m.nmsg++
}

// track follows which string keys the replica must be able to serve by itself.
func (m *rmaster) track(db int, args []string) {
	name := strings.ToLower(args[0])
	switch name {
	case "flushall", "swapdb":
		m.local = map[string]string{}
		return
	case "flushdb":
		if db == 0 {
			m.local = map[string]string{}
		}
		return
	case "select", "multi", "exec", "ping":
		return
	}
	if db != 0 && name != "copy" {
		return
	}
	if name == "set" && len(args) == 3 {
		m.local[args[1]] = args[2]
		return
	}
	for _, a := range args[1:] {
		delete(m.local, a)
	}
}

// reap deletes what has expired, telling the replica.
func (m *rmaster) reap() {
	for db := range m.dbs {
		var ks []string
		for k, v := range m.dbs[db] {
			if v.exp != 0 && v.exp <= nowMs() {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			delete(m.dbs[db], k)
			m.prop(db, "DEL", k)
		}
	}
	m.note()
}

const wrongType = "WRONGTYPE Operation against a key holding the wrong kind of value"

// exec executes a command of a client in database db and streams it if it changed something.
func (m *rmaster) exec(db int, args []string) rv {
	name := strings.ToLower(args[0])
	a := args[1:]
	d := m.dbs[db]
	// a command finds expired keys deleted
	for _, k := range a {
		if v := d[k]; v != nil && v.exp != 0 && v.exp <= nowMs() {
			delete(d, k)
			m.prop(db, "DEL", k)
		}
	}
	defer m.note()
	str := func(k string) (string, bool) { // value of a string key; ok=false on another type
		v := d[k]
		if v == nil {
			return "", true
		}
		return v.s, v.kind == "string"
	}
	put := func(k, s string, keepTTL bool) {
		exp := int64(0)
		if keepTTL && d[k] != nil {
			exp = d[k].exp
		}
		d[k] = &rkey{kind: "string", s: s, exp: exp}
	}
	list := func(k string) *rkey {
		v := d[k]
		if v == nil {
			v = &rkey{kind: "list"}
		}
		if v.kind != "list" {
			return nil
		}
		return v
	}
	ok := simple("OK")
	switch name {
	case "get":
		m.gets[a[0]]++
		v := d[a[0]]
		switch {
		case v == nil:
			return nilv()
		case v.kind != "string":
			return rerr(wrongType)
		}
		return bulk(v.s)
	case "ping":
		return simple("PONG")
	case "set":
		put(a[0], a[1], false)
		if len(a) == 4 {
			n, _ := strconv.ParseInt(a[3], 10, 64)
			if strings.EqualFold(a[2], "ex") {
				n *= 1000
			}
			d[a[0]].exp = nowMs() + n
			if m.form%2 == 1 { // older masters stream it in two commands
				m.prop(db, "SET", a[0], a[1])
				m.prop(db, "PEXPIREAT", a[0], strconv.FormatInt(d[a[0]].exp, 10))
				return ok
			}
		}
		m.prop(db, args...)
		return ok
	case "setex", "psetex":
		n, _ := strconv.ParseInt(a[1], 10, 64)
		if name == "setex" {
			n *= 1000
		}
		put(a[0], a[2], false)
		d[a[0]].exp = nowMs() + n
		m.prop(db, args...)
		return ok
	case "setnx":
		if d[a[0]] != nil {
			return vint(0)
		}
		put(a[0], a[1], false)
		m.prop(db, args...)
		return vint(1)
	case "getset":
		s, good := str(a[0])
		if !good {
			return rerr(wrongType)
		}
		put(a[0], a[1], false)
		m.prop(db, args...)
		return bulk(s)
	case "append":
		s, good := str(a[0])
		if !good {
			return rerr(wrongType)
		}
		put(a[0], s+a[1], true)
		m.prop(db, args...)
		return vint(len(s) + len(a[1]))
	case "incr", "decr":
		s, good := str(a[0])
		if !good {
			return rerr(wrongType)
		}
		n, err := strconv.ParseInt("0"+s, 10, 64)
		if s != "" && s[0] == '-' {
			n, err = strconv.ParseInt(s, 10, 64)
		}
		if err != nil {
			return rerr("ERR value is not an integer or out of range")
		}
		if name == "incr" {
			n++
		} else {
			n--
		}
		put(a[0], strconv.FormatInt(n, 10), true)
		m.prop(db, args...)
		return vint(int(n))
	case "incrbyfloat": // streamed as the resulting SET
		s, good := str(a[0])
		if !good {
			return rerr(wrongType)
		}
		f, err := strconv.ParseFloat("0"+s, 64)
		if err != nil {
			return rerr("ERR value is not a valid float")
		}
		by, _ := strconv.ParseFloat(a[1], 64)
		out := strconv.FormatFloat(f+by, 'f', -1, 64)
		keep := d[a[0]] != nil && d[a[0]].exp != 0
		put(a[0], out, true)
		if keep {
			m.prop(db, "SET", a[0], out, "KEEPTTL")
		} else {
			m.prop(db, "SET", a[0], out)
		}
		return bulk(out)
	case "setrange":
		s, good := str(a[0])
		if !good {
			return rerr(wrongType)
		}
		n, _ := strconv.Atoi(a[1])
		for len(s) < n+len(a[2]) {
			s += "\x00"
		}
		put(a[0], s[:n]+a[2]+s[n+len(a[2]):], true)
		m.prop(db, args...)
		return vint(0)
	case "mset":
		for i := 0; i+1 < len(a); i += 2 {
			put(a[i], a[i+1], false)
		}
		m.prop(db, args...)
		return ok
	case "del", "unlink":
		n := 0
		for _, k := range a {
			if d[k] != nil {
				delete(d, k)
				n++
			}
		}
		if n > 0 {
			m.prop(db, args...)
		}
		return vint(n)
	case "rename":
		v := d[a[0]]
		if v == nil {
			return rerr("ERR no such key")
		}
		delete(d, a[0])
		d[a[1]] = v
		m.prop(db, args...)
		return ok
	case "copy":
		v := d[a[0]]
		to := db
		if len(a) > 3 {
			to, _ = strconv.Atoi(a[3])
		}
		if v == nil {
			return vint(0)
		}
		m.dbs[to][a[1]] = v.clone()
		m.prop(db, args...)
		return vint(1)
	case "move":
		to, _ := strconv.Atoi(a[1])
		if d[a[0]] == nil || m.get(to, a[0]) != nil {
			return vint(0)
		}
		m.dbs[to][a[0]] = d[a[0]]
		delete(d, a[0])
		m.prop(db, args...)
		return vint(1)
	case "swapdb":
		m.dbs[0], m.dbs[1] = m.dbs[1], m.dbs[0]
		m.prop(db, args...)
		return ok
	case "flushall":
		m.dbs[0], m.dbs[1] = map[string]*rkey{}, map[string]*rkey{}
		m.prop(db, args...)
		return ok
	case "flushdb":
		m.dbs[db] = map[string]*rkey{}
		m.prop(db, args...)
		return ok
	case "expire", "pexpire":
		v := d[a[0]]
		if v == nil {
			return vint(0)
		}
		n, _ := strconv.ParseInt(a[1], 10, 64)
		if name == "expire" {
			n *= 1000
		}
		if n <= 0 {
			delete(d, a[0])
			m.prop(db, "DEL", a[0])
			return vint(1)
		}
		v.exp = nowMs() + n
		m.prop(db, "PEXPIREAT", a[0], strconv.FormatInt(v.exp, 10))
		return vint(1)
	case "persist":
		if d[a[0]] == nil || d[a[0]].exp == 0 {
			return vint(0)
		}
		d[a[0]].exp = 0
		m.prop(db, args...)
		return vint(1)
	case "hmset", "hset":
		v := d[a[0]]
		if v == nil {
			v = &rkey{kind: "hash", h: map[string]string{}}
		}
		if v.kind != "hash" {
			return rerr(wrongType)
		}
		for i := 1; i+1 < len(a); i += 2 {
			v.h[a[i]] = a[i+1]
		}
		d[a[0]] = v
		m.prop(db, args...)
		return ok
	case "hdel":
		v := d[a[0]]
		if v == nil {
			return vint(0)
		}
		if v.kind != "hash" {
			return rerr(wrongType)
		}
		n := 0
		for _, f := range a[1:] {
			if _, has := v.h[f]; has {
				delete(v.h, f)
				n++
			}
		}
		if len(v.h) == 0 {
			delete(d, a[0])
		}
		if n > 0 {
			m.prop(db, args...)
		}
		return vint(n)
	case "rpush", "lpush":
		v := list(a[0])
		if v == nil {
			return rerr(wrongType)
		}
		for _, x := range a[1:] {
			if name == "rpush" {
				v.l = append(v.l, x)
			} else {
				v.l = append([]string{x}, v.l...)
			}
		}
		d[a[0]] = v
		m.prop(db, args...)
		return vint(len(v.l))
	case "rpoplpush":
		from, to := list(a[0]), list(a[1])
		if from == nil || to == nil {
			return rerr(wrongType)
		}
		if len(from.l) == 0 {
			return nilv()
		}
		x := from.l[len(from.l)-1]
		from.l = from.l[:len(from.l)-1]
		if len(from.l) == 0 && a[0] != a[1] {
			delete(d, a[0])
		}
		if a[0] == a[1] {
			to = from
		}
		to.l = append([]string{x}, to.l...)
		d[a[1]] = to
		m.prop(db, args...)
		return bulk(x)
	case "sort": // sort <list> STORE <dest>
		v := list(a[0])
		if v == nil {
			return rerr(wrongType)
		}
		if len(v.l) == 0 {
			delete(d, a[2])
		} else {
			l := append([]string{}, v.l...)
			sort.Strings(l)
			d[a[2]] = &rkey{kind: "list", l: l}
		}
		m.prop(db, args...)
		return vint(len(v.l))
	case "bitop": // bitop NOT dest src
		s, good := str(a[2])
		if !good {
			return rerr(wrongType)
		}
		if s == "" {
			delete(d, a[1])
		} else {
			b := []byte(s)
			for i := range b {
				b[i] = ^b[i]
			}
			put(a[1], string(b), false)
		}
		m.prop(db, args...)
		return vint(len(s))
	case "eval": // a script setting its first key to its first argument
		put(a[2], a[len(a)-1], false)
		m.prop(db, args...)
		return nilv()
	case "multi-set": // a transaction
		m.prop(db, "MULTI")
		put(a[0], a[1], false)
		m.prop(db, "SET", a[0], a[1])
		m.prop(db, "EXEC")
		return nilv()
	}
	return rerr("ERR unknown command '" + args[0] + "'")
}

// snapshot encodes the whole dataset.
func (m *rmaster) snapshot() string {
	var recs []record
	i := m.form
	for db := range m.dbs {
		var ks []string
		for k := range m.dbs[db] {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if m.form%2 == 1 {
			sort.Sort(sort.Reverse(sort.StringSlice(ks)))
		}
		for _, k := range ks {
			v := m.dbs[db][k]
			var o obj
			switch v.kind {
			case "string":
				o = oString(k, v.s)
				f := strForms(v.s)
				o.val = f[i%len(f)]
			case "hash":
				var ps []zpair
				var fs []string
				for f := range v.h {
					fs = append(fs, f)
				}
				sort.Strings(fs)
				for _, f := range fs {
					ps = append(ps, zpair{f: f, v: v.h[f]})
				}
				l := hashForms(k, ps)
				o = l[i%len(l)]
			case "list":
				l := listForms(k, v.l)
				o = l[i%len(l)]
			}
			i++
			if v.exp != 0 {
				o = *withExp(o, v.exp, false)
			}
			if db == 0 && v.kind == "string" && v.exp == 0 {
				m.local[k] = v.s
			}
			recs = append(recs, record{db: db, o: &o})
		}
	}
	for j := 0; j < m.nsets; j++ {
		k := "set" + strconv.Itoa(j)
		l := setForms(k, []string{"1", "2"})
		o := l[j%len(l)]
		recs = append(recs, record{db: j % 2, o: &o})
	}
	s, _ := snapshot(stdAux(), recs)
	return s
}

func newMaster(form int) *rmaster {
	return &rmaster{dbs: [2]map[string]*rkey{{}, {}}, form: form, local: map[string]string{}, gets: map[string]int{}}
}

func (m *rmaster) attach(n *fakeNet) {
	n.onDial = func(int, string) error {
		if m.down {
			return errRefused
		}
		return nil
	}
	n.onReq = func(s *srvConn, args []string) {
		switch {
		case isCmd(args, "replconf"):
			if len(args) > 1 && strings.EqualFold(args[1], "ack") {
				m.acks++
				return
			}
			s.send("+OK\r\n")
		case isCmd(args, "sync"):
			m.local = map[string]string{}
			snap := m.snapshot()
			s.send("\n$" + strconv.Itoa(len(snap)) + "\r\n" + snap + m.extra)
			m.conn, m.sdb = s, -1
			if m.form%3 == 0 {
				m.sdb = 0 // a fresh stream starts in database 0
			}
			m.note()
			if m.sync != nil {
				m.sync()
			}
		case isCmd(args, "select"):
			n, err := strconv.Atoi(args[len(args)-1])
			if err != nil || n < 0 || n > 15 {
				s.send("-ERR DB index is out of range\r\n")
				return
			}
			s.db = n
			s.send("+OK\r\n")
		default:
			if s.db > 1 {
				s.send("$-1\r\n")
				return
			}
			s.send(m.exec(s.db, args).enc())
		}
	}
}

// mcmd is a step of the master's history.
type mcmd struct {
	db   int
	args []string
	adv  time.Duration // instead: time passes
	lazy bool          // ... and the master has not got round to deleting what expired
}

func (x mcmd) String() string {
	if x.adv != 0 {
		s := fmt.Sprintf("%v pass", x.adv)
		if x.lazy {
			s += " (expired keys not yet removed)"
		}
		return s
	}
	s := reqString(x.args)
	if x.db != 0 {
		s = fmt.Sprintf("db%d: %s", x.db, s)
	}
	return s
}

func (m *rmaster) step(x mcmd) {
	if x.adv != 0 {
		vs.Advance(x.adv)
		if !x.lazy {
			m.reap()
		}
		return
	}
	m.exec(x.db, x.args)
}

type cliCase struct {
	init  int
	hist  []mcmd
	split int
	early bool // what follows the snapshot arrives with it
	form  int
	piece int
	extra string
}

func (cc *cliCase) String() string {
	var l []string
	for i, x := range cc.hist {
		if i == cc.split {
			l = append(l, "SYNC")
		}
		l = append(l, x.String())
	}
	if cc.split == len(cc.hist) {
		l = append(l, "SYNC")
	}
	s := fmt.Sprintf("dataset %d: %s (encoding %d", cc.init, strings.Join(l, "; "), cc.form)
	if cc.early {
		s += ", streamed together with the snapshot"
	}
	if cc.piece > 0 {
		s += fmt.Sprintf(", at most %d bytes per read", cc.piece)
	}
	return s + ")"
}

func cliInit(m *rmaster, k int) {
	if k == 0 {
		return
	}
	for _, x := range [][]string{{"set", "a", "1"}, {"set", "b", "keep"}, {"hmset", "h", "f", "v", "g", "2"}, {"rpush", "l", "y", "x"}, {"set", "e", "soon", "PX", "1000"}, {"set", "", "nokey"}} {
		m.exec(0, x)
	}
	for _, x := range [][]string{{"set", "a", "other"}, {"set", "d", "only1"}, {"hset", "b", "z", "1"}} {
		m.exec(1, x)
	}
}

var cliKeys = []string{"a", "b", "c", "d", "e", "h", "l", ""}

// checkClient compares every key; "" means all is well.
func checkClient(m *rmaster, n *fakeNet, cl *xxcache.Client, keys []string) string {
	for _, k := range keys {
		wantLocal, local := m.local[k]
		before := m.gets[k]
		v, err := cl.Get(k)
		w := m.get(0, k)
		if w != nil && w.kind == "string" {
			if err != nil {
				return fmt.Sprintf("Get(%q) fails (%v), the master holds %s", k, err, w)
			}
			if v != w.s {
				return fmt.Sprintf("Get(%q) is %q, the master holds %s", k, v, w)
			}
		} else if err == nil {
			h := "nothing"
			if w != nil {
				h = w.String()
			}
			return fmt.Sprintf("Get(%q) is %q, the master holds %s", k, v, h)
		}
		if local && m.gets[k] != before {
			return fmt.Sprintf("Get(%q) asks the master although the key is present locally (%q)", k, wantLocal)
		}
		if x := badReq(n); x != "" {
			return x
		}
	}
	return ""
}

func badReq(n *fakeNet) string {
	for _, x := range n.conns {
		if x.bad != "" {
			return "the master can not read a request: " + x.bad
		}
	}
	return ""
}

func cliRun(cc *cliCase) (*vs.Sched, string) {
	msg := ""
	n := &fakeNet{pieces: cc.piece}
	file := scratchFile("client.rdb")
	s, bad := netRun(nil, false, 3000000, n, func() {
		m := newMaster(cc.form)
		m.attach(n)
		m.extra = cc.extra
		cliInit(m, cc.init)
		for _, x := range cc.hist[:cc.split] {
			m.step(x)
		}
		if cc.early {
			m.sync = func() {
				for _, x := range cc.hist[cc.split:] {
					m.step(x)
				}
			}
		}
		cl, err := xxcache.New(xxcache.Option{RedisMasterAddr: "m:1", RedisRdbFile: file})
		if err != nil {
			msg = "New fails: " + err.Error()
			return
		}
		vs.WaitQuiescent()
		if !cc.early {
			for i, x := range cc.hist[cc.split:] {
				m.step(x)
				if cc.form%2 == 0 || i == len(cc.hist[cc.split:])-1 {
					vs.WaitQuiescent()
				}
			}
		}
		if msg = checkClient(m, n, &cl, cliKeys); msg != "" {
			return
		}
		// looking keys up must not have disturbed anything
		vs.WaitQuiescent()
		if msg = checkClient(m, n, &cl, cliKeys[:4]); msg != "" {
			msg = "the second time, " + msg
			return
		}
		// a write through the client reaches the master and comes back
		for _, k := range []string{"a", "c"} {
			r, err := cl.Set(k, "w\r\n"+k)
			if err != nil || r != "OK" {
				msg = fmt.Sprintf("Set(%q) returns %q, %v", k, r, err)
				return
			}
			if w := m.get(0, k); w == nil || w.s != "w\r\n"+k {
				msg = fmt.Sprintf("after Set(%q) the master holds %v", k, w)
				return
			}
		}
		vs.WaitQuiescent()
		if msg = checkClient(m, n, &cl, cliKeys); msg != "" {
			msg = "after writing a and c through the client, " + msg
			return
		}
	})
	if bad != "" {
		msg = bad
	}
	return s, msg
}

func c33alphabet() (l []mcmd) {
	add := func(db int, args ...string) { l = append(l, mcmd{db: db, args: args}) }
	add(0, "set", "a", "2")
	add(0, "SET", "b", "")
	add(0, "set", "c", "n\r\n$")
	add(0, "del", "a")
	add(0, "UNLINK", "b", "a")
	add(0, "append", "a", "x")
	add(0, "incr", "a")
	add(0, "rename", "a", "b")
	add(0, "flushall")
	add(0, "FLUSHDB", "ASYNC")
	add(1, "set", "b", "leak")
	add(1, "flushdb")
	add(1, "flushall")
	add(0, "set", "b", "px", "PX", "1500")
	add(0, "expire", "a", "1")
	l = append(l, mcmd{adv: 3 * time.Second}, mcmd{adv: 3 * time.Second, lazy: true})
	// core ends here
	add(0, "hmset", "a", "f", "1")
	add(0, "hmset", "h", "f", "new", "k", "")
	add(0, "rpush", "l", "z")
	add(0, "rpush", "c", "q")
	add(0, "mset", "a", "m1", "c", "m2")
	add(0, "swapdb", "0", "1")
	add(1, "swapdb", "1", "0")
	add(0, "move", "b", "1")
	add(0, "move", "a", "1")
	add(1, "move", "d", "0")
	add(1, "copy", "d", "b", "DB", "0", "REPLACE")
	add(1, "del", "a")
	add(1, "hset", "a", "f", "1")
	add(0, "getset", "b", "gs")
	add(0, "setex", "a", "1", "sx")
	add(0, "psetex", "c", "5000", "psx")
	add(0, "setnx", "c", "nx")
	add(0, "setrange", "b", "1", "ZZ")
	add(0, "incrbyfloat", "a", "1.5")
	add(0, "decr", "c")
	add(0, "persist", "e")
	add(0, "expire", "b", "-1")
	add(0, "lpush", "l", "w")
	add(0, "rpoplpush", "l", "c")
	add(0, "sort", "l", "STORE", "b")
	add(0, "bitop", "NOT", "b", "a")
	add(0, "eval", "return redis.call('set',KEYS[1],ARGV[1])", "1", "a", "scripted")
	add(0, "multi-set", "a", "tx")
	add(0, "copy", "b", "a")
	add(0, "hdel", "h", "f", "g")
	add(0, "set", "a", strings.Repeat("L", 5000))
	add(0, "set", "e", "stays")
	add(0, "set", "l", "was a list")
	add(0, "set", "h", "was a hash")
	add(0, "del", "h", "l", "nosuch")
	return
}

const c33core = 17

func hasAdv(l []mcmd) bool {
	for _, x := range l {
		if x.adv != 0 {
			return true
		}
	}
	return false
}

// conCase: calls of the client run while the stream is being processed.
type conCase struct {
	init    int
	stream  [][]string
	gets    []string
	sets    [][2]string
	preempt int
}

func (cc *conCase) String() string {
	var l []string
	for _, x := range cc.stream {
		l = append(l, reqString(x))
	}
	s := fmt.Sprintf("dataset %d, streamed: %s, concurrently Get %q", cc.init, strings.Join(l, "; "), cc.gets)
	for _, x := range cc.sets {
		s += fmt.Sprintf(" Set %q %q", x[0], x[1])
	}
	return s
}

func conRun(cc *conCase, e *vs.Explorer) (*vs.Sched, string) {
	msg := ""
	n := &fakeNet{}
	file := scratchFile("client.rdb")
	s, bad := netRun(e, false, 20000, n, func() {
		m := newMaster(0)
		m.attach(n)
		if cc.init == 2 {
			m.exec(0, []string{"set", "a", "1"})
		} else {
			cliInit(m, cc.init)
		}
		m.vals = map[string][]string{}
		cl, err := xxcache.New(xxcache.Option{RedisMasterAddr: "m:1", RedisRdbFile: file})
		if err != nil {
			msg = "New fails: " + err.Error()
			return
		}
		vs.WaitQuiescent()
		vs.SetBranch(true)
		ths := []*vs.Thread{vs.GoNamed("master", func() {
			for _, x := range cc.stream {
				m.exec(0, x)
				vs.Point("master")
			}
		})}
		type res struct {
			k, v string
			err  error
		}
		var got []res
		ths = append(ths, vs.GoNamed("get", func() {
			for _, k := range cc.gets {
				v, err := cl.Get(k)
				got = append(got, res{k, v, err})
			}
		}))
		if len(cc.sets) > 0 {
			ths = append(ths, vs.GoNamed("set", func() {
				for _, x := range cc.sets {
					if r, err := cl.Set(x[0], x[1]); err != nil || r != "OK" {
						msg = fmt.Sprintf("Set(%q) returns %q, %v", x[0], r, err)
					}
				}
			}))
		}
		vs.WaitQuiescent()
		vs.SetBranch(false)
		for _, t := range ths {
			if !t.Done() {
				msg = "a call does not return"
				return
			}
		}
		vs.Join(ths...)
		if msg != "" {
			return
		}
		for _, r := range got {
			okv := false
			for _, v := range m.vals[r.k] {
				if r.err != nil {
					okv = okv || v == "\x00" || v == "\x01"
				} else {
					okv = okv || v == r.v
				}
			}
			if !okv {
				msg = fmt.Sprintf("a Get(%q) running at the same time returns %q, %v; the master had %q", r.k, r.v, r.err, m.vals[r.k])
				return
			}
		}
		msg = checkClient(m, n, &cl, cliKeys[:4])
	})
	if bad != "" {
		msg = bad
	}
	return s, msg
}

// twoCase: two clients of two masters in one process.
type twoCase struct {
	x, y  mcmd
	split int // how many clients start before the commands are executed
	form  int
}

func (tc *twoCase) String() string {
	return fmt.Sprintf("two clients of two masters (encoding %d), %d started before the first executes %s and the second %s", tc.form, 2*tc.split, tc.x, tc.y)
}

func twoRun(tc *twoCase, e *vs.Explorer) (*vs.Sched, string) {
	msg := ""
	n := &fakeNet{}
	var ms [2]*rmaster
	var on [2]func(s *srvConn, args []string)
	n.onReq = func(s *srvConn, args []string) { on[int(s.addr[1]-'0')](s, args) }
	s, bad := netRun(e, false, 3000000, n, func() {
		var cls [2]xxcache.Client
		start := func() bool {
			for i := range ms {
				var err error
				if cls[i], err = xxcache.New(xxcache.Option{RedisMasterAddr: fmt.Sprintf("m%d:1", i), RedisRdbFile: scratchFile(fmt.Sprintf("two%d.rdb", i))}); err != nil {
					msg = "New fails: " + err.Error()
					return false
				}
			}
			return true
		}
		for i := range ms {
			ms[i] = newMaster(tc.form + i)
			var own fakeNet
			ms[i].attach(&own)
			on[i] = own.onReq
			cliInit(ms[i], 1)
		}
		// the second one holds something else
		ms[1].exec(0, []string{"set", "a", "second"})
		ms[1].exec(0, []string{"del", "b"})
		ms[1].exec(0, []string{"set", "c", "only second"})
		if tc.split == 1 {
			if !start() {
				return
			}
			vs.WaitQuiescent()
		}
		vs.SetBranch(e != nil)
		ms[0].step(tc.x)
		ms[1].step(tc.y)
		if tc.split == 0 && !start() {
			return
		}
		var ths []*vs.Thread
		if e != nil {
			for i := range cls {
				i := i
				ths = append(ths, vs.GoNamed("get", func() { cls[i].Get("a") }))
			}
		}
		vs.WaitQuiescent()
		vs.SetBranch(false)
		vs.Join(ths...)
		for round := 0; round < 2; round++ {
			for i := range cls {
				if x := checkClient(ms[i], n, &cls[i], cliKeys); x != "" {
					msg = fmt.Sprintf("client %d: %s", i+1, x)
					return
				}
			}
			if r, err := cls[round].Set("c", "w"); err != nil || r != "OK" {
				msg = fmt.Sprintf("client %d: Set returns %q, %v", round+1, r, err)
				return
			}
			vs.WaitQuiescent()
		}
		for i := range cls {
			if x := checkClient(ms[i], n, &cls[i], cliKeys); x != "" {
				msg = fmt.Sprintf("client %d, after writing: %s", i+1, x)
				return
			}
		}
	})
	if bad != "" {
		msg = bad
	}
	return s, msg
}

func c33tasks(t bool) (tasks []Task) {
	al := c33alphabet()
	run := func(c *Ctx, cc *cliCase) bool {
		c.R.Evals++
		c.R.Traces++
		c.R.States++
		c.R.Distinct++
		c.Case(cc.String)
		s, msg := cliRun(cc)
		c.R.Transitions += s.Steps
		if msg != "" {
			return c.Violate(cc.String(), cc.String()+": "+msg, nil)
		}
		return false
	}
	nm := 0
	every := func(c *Ctx, hist []mcmd) bool {
		for init := 1; init >= 0; init-- {
			if init == 0 && len(hist) > 2 {
				continue
			}
			for split := 0; split <= len(hist); split++ {
				if c.Stop() {
					return true
				}
				nm++
				cc := &cliCase{init: init, hist: hist, split: split, form: nm}
				if run(c, cc) {
					return true
				}
				if split < len(hist) && !hasAdv(hist[split:]) {
					x := *cc
					x.early = true
					x.form += 3
					if nm%5 == 0 {
						x.piece = 7
					}
					if run(c, &x) {
						return true
					}
				}
			}
		}
		return false
	}
	for k := range al {
		k := k
		tasks = append(tasks, Task{"histories " + al[k].String(), func(c *Ctx) {
			nm = 101 * k
			if every(c, []mcmd{al[k]}) {
				return
			}
			for _, b := range al {
				if every(c, []mcmd{al[k], b}) {
					return
				}
			}
			for i, b := range al {
				for j, d := range al {
					if !t && (k >= c33core || i >= c33core || j >= c33core) {
						continue
					}
					if every(c, []mcmd{al[k], b, d}) {
						return
					}
					if t && k < c33core && i < c33core && j < c33core {
						for q := 0; q < c33core; q++ {
							if every(c, []mcmd{al[k], b, d, al[q]}) {
								return
							}
						}
					}
				}
			}
			c.Sample((&cliCase{init: 1, hist: []mcmd{al[k], al[(k+7)%len(al)]}, split: 1}).String())
		}})
	}
	tasks = append(tasks, Task{"large", func(c *Ctx) {
		for _, nk := range []int{200, 10001, 12500} {
			for _, split := range []int{0, 1} {
				for _, early := range []bool{true, false} {
					var hist []mcmd
					for i := 0; i < nk; i++ {
						hist = append(hist, mcmd{args: []string{"set", "k" + strconv.Itoa(i), "v" + strconv.Itoa(i)}})
					}
					cc := &cliCase{init: 1, hist: hist, split: split * nk, early: early, form: 1}
					hist = append(hist, mcmd{args: []string{"set", "b", "last"}})
					cc.hist = hist
					c.R.Evals++
					c.R.Traces++
					c.R.States++
					c.R.Distinct++
					c.Case(func() string { return fmt.Sprintf("%d keys, split %d, early %v", nk, cc.split, early) })
					s, msg := cliRun(cc)
					c.R.Transitions += s.Steps
					if msg != "" && c.Violate(fmt.Sprintf("%d keys split %d early %v", nk, split, early), fmt.Sprintf("%d keys, SYNC after %d of them, early %v: %s", nk, cc.split, early, msg), nil) {
						return
					}
				}
			}
		}
		c.Sample("12500 keys in the snapshot, then 12500 streamed")
	}})
	tasks = append(tasks, Task{"lengths", func(c *Ctx) {
		for _, n := range []int{0, 1, 63, 64, 255, 256, 4095, 4096, 4097, 16383, 16384, 32767, 32768, 65535, 65536, 100000, 1 << 20} {
			for _, text := range []string{pattern(n), strings.Repeat("7", n), strings.Repeat("0", n), filler(n)} {
				for form := 0; form < 3; form++ {
					for _, hist := range [][]mcmd{{{args: []string{"set", "a", text}}}, {{args: []string{"set", text + "k", "v"}}, {args: []string{"set", "a", "x"}}}, {{args: []string{"set", "a", text}}, {args: []string{"set", "b", text + "1"}}, {args: []string{"del", "a"}}}} {
						for split := 0; split <= len(hist); split++ {
							if c.Stop() || run(c, &cliCase{init: 1, hist: hist, split: split, form: form}) {
								return
							}
						}
					}
				}
			}
		}
		c.Sample("values and keys of 0 to 1 MiB in the snapshot and in the stream")
	}})
	tasks = append(tasks, Task{"databases", func(c *Ctx) {
		dbs := []int{63, 64, 127, 128, 255, 256, 1000, 16383, 65536, 2147483647}
		for d := 2; d < 40; d++ {
			dbs = append(dbs, d)
		}
		for _, d := range dbs {
			x := bulks("SELECT", strconv.Itoa(d)).enc() + bulks("set", "a", "leak").enc() + bulks("set", "c", "leak").enc() + bulks("hmset", "c", "f", "leak").enc() + bulks("del", "b").enc()
			for _, hist := range [][]mcmd{nil, {{args: []string{"set", "a", "2"}}}, {{args: []string{"del", "a"}}}, {{db: 1, args: []string{"set", "b", "leak"}}, {args: []string{"set", "c", "x"}}}} {
				for _, early := range []bool{true, false} {
					if c.Stop() || run(c, &cliCase{init: 1, hist: hist, early: early, form: 1, extra: x}) {
						return
					}
				}
			}
		}
		c.Sample(strconv.Itoa(len(dbs)) + " other databases selected on the link")
	}})
	tasks = append(tasks, Task{"two clients", func(c *Ctx) {
		for i, x := range al {
			for j, y := range al {
				for _, split := range []int{0, 1} {
					if c.Stop() {
						return
					}
					tc := &twoCase{x: x, y: y, split: split, form: i + j}
					c.R.Evals++
					c.R.Traces++
					c.R.States++
					c.R.Distinct++
					c.Case(tc.String)
					s, msg := twoRun(tc, nil)
					c.R.Transitions += s.Steps
					if msg != "" && c.Violate(tc.String(), tc.String()+": "+msg, nil) {
						return
					}
				}
			}
		}
		c.Sample((&twoCase{x: al[0], y: al[8], split: 1}).String())
	}})
	for i, x := range [][2]mcmd{{al[0], al[3]}, {al[8], al[0]}, {al[17], al[1]}} {
		tc := &twoCase{x: x[0], y: x[1], split: 1, form: i}
		tasks = append(tasks, Task{fmt.Sprintf("two clients, schedules-%d", i), func(c *Ctx) {
			c.Sample("interleavings of " + tc.String())
			exploreNet(c, "interleavings of "+tc.String(), &vs.Explorer{Preempt: pick(t, 2, 1), MaxExec: 300000}, func(e *vs.Explorer) (*vs.Sched, string) { return twoRun(tc, e) })
		}})
	}
	var cons []*conCase
	streams := [][][]string{
		{{"set", "a", "2"}}, {{"del", "a"}}, {{"append", "a", "x"}}, {{"set", "a", "2"}, {"set", "a", "3"}}, {{"incr", "a"}, {"set", "b", "n"}}, {{"flushall"}}, {{"rename", "a", "b"}}, {{"mset", "a", "x", "b", "y"}}, {{"del", "a"}, {"set", "a", "2"}}, {{"append", "a", "x"}, {"set", "a", "5"}},
	}
	for i, st := range streams {
		for _, init := range []int{0, 2} {
			cons = append(cons, &conCase{init: init, stream: st, gets: []string{"a"}, preempt: pick(t, 3, 2)})
			if i < 6 {
				cons = append(cons, &conCase{init: init, stream: st, gets: []string{"a", "b"}, preempt: pick(t, 2, 1)},
					&conCase{init: init, stream: st, gets: []string{"a"}, sets: [][2]string{{"a", "mine"}}, preempt: pick(t, 2, 1)})
			}
		}
	}
	for i := range cons {
		cc := cons[i]
		tasks = append(tasks, Task{fmt.Sprintf("schedules-%d", i), func(c *Ctx) {
			c.Sample(cc.String())
			exploreNet(c, cc.String(), &vs.Explorer{Preempt: cc.preempt, MaxExec: 300000}, func(e *vs.Explorer) (*vs.Sched, string) { return conRun(cc, e) })
		}})
	}
	return
}

func init() {
	props["C33"] = &Prop{Tasks: c33tasks, Rule: "every history of the master up to the depth over the alphabet, SYNC placed at every point of it, what follows arriving with or after the snapshot, rotating over all snapshot encodings; every key compared through the client with the master; and all interleavings of the stream with concurrent calls within the preemption bound",
		Bounds: func(t bool) string {
			return fmt.Sprintf("%d-command alphabet; depth %s; snapshots and streams of up to 12500 keys; preemptions %d", len(c33alphabet()), map[bool]string{true: "3, 4 over the 17 core commands", false: "2, 3 over the 17 core commands"}[t], pick(t, 3, 2))
		}, Assume: []string{"the master streams commands verbatim, as Redis up to 6.2 does (expirations as PEXPIREAT or DEL, INCRBYFLOAT as SET, scripts as EVAL)"}}
}
