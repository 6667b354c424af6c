package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"time"

	"github.com/liujiangwei/xxcache/redis"
)

// ---- scripted byte streams ----

var errReset = errors.New("connection reset by peer")

// errSilent as the end of a stream: the peer stays connected and sends nothing more
var errSilent = errors.New("silence")

type waitPanic struct{}

func (waitPanic) Error() string { return "waits for input that never comes" }

type spinPanic struct{}

func (spinPanic) Error() string { return "keeps reading after the input has ended" }

// chunkConn delivers data in the given pieces and then fails with end for ever.
type chunkConn struct {
	data    []byte
	cuts    []int // ascending positions at which a read stops
	pos     int
	end     error
	withEnd bool // the last piece and the end arrive in one read
	zero    bool // an empty read precedes every piece
	zeroed  int
	ci      int
	after   int
	out     bytes.Buffer
}

func (c *chunkConn) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if c.pos >= len(c.data) {
		if c.end == errSilent {
			panic(waitPanic{})
		}
		c.after++
		if c.after > 2000 {
			panic(spinPanic{})
		}
		return 0, c.end
	}
	if c.zero && c.zeroed != c.pos+1 {
		c.zeroed = c.pos + 1
		return 0, nil
	}
	stop := len(c.data)
	for c.ci < len(c.cuts) && c.cuts[c.ci] <= c.pos {
		c.ci++
	}
	if c.ci < len(c.cuts) && c.cuts[c.ci] < stop {
		stop = c.cuts[c.ci]
	}
	n := copy(p, c.data[c.pos:stop])
	c.pos += n
	if c.pos >= len(c.data) && c.withEnd {
		return n, c.end
	}
	return n, nil
}
func (c *chunkConn) Write(p []byte) (int, error)        { return c.out.Write(p) }
func (c *chunkConn) Close() error                       { return nil }
func (c *chunkConn) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (c *chunkConn) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (c *chunkConn) SetDeadline(t time.Time) error      { return nil }
func (c *chunkConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *chunkConn) SetWriteDeadline(t time.Time) error { return nil }

// delivery modes of a stream of n bytes; f returns false to stop.
type delivery struct {
	cuts    []int
	withEnd bool
	zero    bool
	end     error
}

func (d delivery) String() string {
	s := fmt.Sprintf("cuts %v", d.cuts)
	if len(d.cuts) > 12 {
		s = fmt.Sprintf("%d cuts %v...", len(d.cuts), d.cuts[:12])
	}
	if d.withEnd {
		s += " end-with-data"
	}
	if d.zero {
		s += " empty-reads"
	}
	return s + " then " + d.end.Error()
}

func everyByte(n int) []int {
	l := make([]int, 0, n)
	for i := 1; i < n; i++ {
		l = append(l, i)
	}
	return l
}

// deliveries enumerates fragmentations of n bytes: all 2^(n-1) of them up to full bytes, otherwise all
// single cuts, all pairs of cuts (up to pairs bytes), byte by byte and fixed-size pieces; near lists
// positions of interest for long streams.
func deliveries(n, full, pairs int, near []int, f func(delivery) bool) bool {
	for _, d := range []delivery{{nil, false, false, io.EOF}, {nil, true, false, io.EOF}, {nil, false, true, errReset}, {nil, false, false, errReset}} {
		if !f(d) {
			return false
		}
	}
	if n <= 4096 {
		for _, d := range []delivery{{everyByte(n), false, false, io.EOF}, {everyByte(n), true, false, io.EOF}, {everyByte(n), false, true, io.EOF}} {
			if !f(d) {
				return false
			}
		}
	}
	if n <= full {
		for m := 1; m < 1<<uint(n-1); m++ {
			var cuts []int
			for i := 1; i < n; i++ {
				if m&(1<<uint(i-1)) != 0 {
					cuts = append(cuts, i)
				}
			}
			if !f(delivery{cuts: cuts, end: io.EOF}) {
				return false
			}
		}
		return true
	}
	pos := near
	if n <= 400 {
		pos = everyByte(n)
	}
	for _, i := range pos {
		if i <= 0 || i >= n {
			continue
		}
		if !f(delivery{cuts: []int{i}, end: io.EOF}) {
			return false
		}
	}
	if n <= pairs || len(near) > 0 && len(near) <= 40 {
		if n > pairs {
			pos = near
		}
		for a, i := range pos {
			for _, j := range pos[a+1:] {
				if i <= 0 || j >= n || j <= i {
					continue
				}
				if !f(delivery{cuts: []int{i, j}, end: io.EOF}) {
					return false
				}
			}
		}
	}
	for _, step := range []int{2, 3, 7, 16, 100, 1000, 1460, 4095, 4096, 4097} {
		if step >= n {
			break
		}
		if n > 200000 && step < 1000 {
			continue
		}
		var cuts []int
		for i := step; i < n; i += step {
			cuts = append(cuts, i)
		}
		if !f(delivery{cuts: cuts, end: io.EOF}) {
			return false
		}
	}
	return true
}

// ---- reference RESP ----

type rv struct {
	k   byte // '$' bulk, 'n' nil, ':' '+' '-' '*'
	s   string
	n   int
	arr []rv
}

func bulk(s string) rv   { return rv{k: '$', s: s} }
func vint(n int) rv      { return rv{k: ':', n: n} }
func simple(s string) rv { return rv{k: '+', s: s} }
func rerr(s string) rv   { return rv{k: '-', s: s} }
func arr(l ...rv) rv     { return rv{k: '*', arr: l} }
func nilv() rv           { return rv{k: 'n'} }
func bulks(l ...string) rv {
	r := rv{k: '*'}
	for _, s := range l {
		r.arr = append(r.arr, bulk(s))
	}
	return r
}

func (v rv) enc() string {
	switch v.k {
	case '$':
		return "$" + strconv.Itoa(len(v.s)) + "\r\n" + v.s + "\r\n"
	case 'n':
		return "$-1\r\n"
	case ':':
		return ":" + strconv.Itoa(v.n) + "\r\n"
	case '+', '-':
		return string(v.k) + v.s + "\r\n"
	}
	var b strings.Builder
	b.WriteString("*" + strconv.Itoa(len(v.arr)) + "\r\n")
	for _, x := range v.arr {
		b.WriteString(x.enc())
	}
	return b.String()
}

func (v rv) msg() redis.Message {
	switch v.k {
	case '$':
		return redis.NewBulkStringMessage(v.s)
	case 'n':
		return redis.NilMessage{}
	case ':':
		return redis.IntMessage(v.n)
	case '+':
		return redis.SimpleStringMessage(v.s)
	case '-':
		return redis.ErrorMessage(v.s)
	}
	m := redis.ArrayMessage{}
	for _, x := range v.arr {
		m = append(m, x.msg())
	}
	return m
}

func (v rv) String() string {
	e := v.enc()
	if len(e) > 80 {
		return fmt.Sprintf("%q...(%d bytes)", e[:60], len(e))
	}
	return fmt.Sprintf("%q", e)
}

// same: does the message read equal v?
func (v rv) same(m redis.Message) bool {
	if m == nil {
		return false
	}
	if m.Serialize() != v.enc() {
		return false
	}
	if (v.k == '$' || v.k == '+' || v.k == '-') && m.String() != v.s {
		return false
	}
	p := v.k
	if p == 'n' {
		p = '$'
	}
	return m.Protocol() == redis.Protocol(p)
}

func short(s string) string {
	if len(s) > 100 {
		return fmt.Sprintf("%q...(%d bytes)", s[:80], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// try runs f and reports a panic or exit of the code under test.
func try(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("%v", r)
		}
	}()
	f()
	return ""
}

func filler(n int) string {
	b := make([]byte, n)
	x := uint32(n*2654435761 + 12345)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return string(b)
}

func letters(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghij klmno"[i%16]
	}
	return string(b)
}

func respScalars() []rv {
	l := []rv{bulk(""), bulk("a"), bulk("\r\n"), bulk("ab\r\ncd"), bulk("$-1\r\n"), bulk("\x00\xff\x80"), bulk("*1\r\n"), bulk("\n"), bulk("+OK\r"), nilv(),
		vint(0), vint(7), vint(-1), vint(9223372036854775807), vint(-9223372036854775808), vint(1000),
		simple("OK"), simple(""), simple("a b c"), simple("\r"), rerr("ERR x"), rerr(""), rerr("WRONGTYPE Operation")}
	return l
}

func respSmall() []rv {
	s := respScalars()
	l := append([]rv{}, s...)
	l = append(l, arr(), arr(arr()), arr(arr(), arr()), arr(arr(arr(arr()))))
	core := []rv{bulk(""), bulk("a\r\n"), nilv(), vint(-5), simple("OK"), rerr("E"), arr(), arr(bulk("x")), arr(nilv(), vint(3))}
	for _, a := range s {
		l = append(l, arr(a))
	}
	for _, a := range core {
		for _, b := range core {
			l = append(l, arr(a, b))
		}
	}
	for _, a := range core {
		l = append(l, arr(arr(a), a), arr(a, arr(a, arr(a))), arr(arr(arr(a)), bulk("t"), a))
	}
	l = append(l, bulks("set", "k", "v"), bulks("PING"), bulks("mset", "a", "1", "b", "2", "c", ""))
	return l
}

func respLarge(t bool) []rv {
	var l []rv
	ns := []int{62, 100, 255, 1000, 4083, 4084, 4085, 4086, 4087, 4088, 4089, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4098, 8180, 8190, 8191, 8192, 8193, 12288, 65536, 70001}
	if t {
		for n := 4060; n < 4120; n++ {
			ns = append(ns, n)
		}
		for n := 8160; n < 8210; n++ {
			ns = append(ns, n)
		}
		ns = append(ns, 1<<20)
	}
	for _, n := range ns {
		l = append(l, bulk(filler(n)), arr(bulk("h"), bulk(filler(n)), vint(1)))
		if n < 70000 {
			l = append(l, simple(letters(n)), rerr(letters(n)))
		}
	}
	many := rv{k: '*'}
	for i := 0; i < 3000; i++ {
		many.arr = append(many.arr, vint(i), bulk(letters(i%40)))
	}
	deep := bulk("end")
	for i := 0; i < 200; i++ {
		deep = arr(deep, vint(i))
	}
	return append(l, many, deep, bulk(filler(1<<20)))
}

// checkStream: the messages of the stream are read back, in order, and then only an error.
func checkStream(c *Ctx, vs []rv, d delivery, data string) bool {
	cc := &chunkConn{data: []byte(data), cuts: d.cuts, withEnd: d.withEnd, zero: d.zero, end: d.end}
	c.R.Evals++
	bad := ""
	p := try(func() {
		conn := redis.NewConn(cc)
		for i, v := range vs {
			m, err := conn.Recv()
			if err != nil {
				bad = fmt.Sprintf("message %d %s: error %v", i, v, err)
				return
			}
			if !v.same(m) {
				bad = fmt.Sprintf("message %d: sent %s, read %s", i, v, short(m.Serialize()))
				return
			}
			c.R.Transitions++
		}
		if m, err := conn.Recv(); err == nil {
			bad = fmt.Sprintf("a message %s is read after the end of the stream", short(m.Serialize()))
		}
	})
	if p != "" {
		bad = "panic: " + p
	}
	if bad != "" {
		return c.Violate("stream "+short(data), fmt.Sprintf("stream %s, %s: %s", short(data), d, bad), map[string]interface{}{"stream": short(data), "delivery": d.String()})
	}
	return false
}

func c19tasks(t bool) (tasks []Task) {
	small, large := respSmall(), respLarge(t)
	sentinel := bulk("\r\n$next")
	full, pairs := 12, 60
	if t {
		full, pairs = pick(deep(), 20, 18), pick(deep(), 300, 120)
	}
	part := func(name string, l []rv, n int, f func(*Ctx, rv) bool) {
		for k := 0; k < n; k++ {
			k := k
			tasks = append(tasks, Task{fmt.Sprintf("%s-%d", name, k), func(c *Ctx) {
				for i := k; i < len(l); i += n {
					v := l[i]
					if c.Stop() {
						return
					}
					c.Case(func() string { return name + " " + v.String() })
					c.R.States++
					c.R.Distinct++
					if f(c, v) {
						return
					}
				}
				c.Sample(l[k].String())
			}})
		}
	}
	// what is written is the RESP form
	part("write", append(append([]rv{}, small...), large...), 2, func(c *Ctx, v rv) bool {
		c.R.Evals++
		c.R.Traces++
		cc := &chunkConn{end: io.EOF}
		var err error
		p := try(func() { err = redis.NewConn(cc).Send(v.msg()) })
		if p != "" || err != nil || cc.out.String() != v.enc() {
			return c.Violate("write "+v.String(), fmt.Sprintf("sending %s: wrote %s, error %v %s", v, short(cc.out.String()), err, p), v.String())
		}
		return false
	})
	part("read", small, 8, func(c *Ctx, v rv) bool {
		data := v.enc()
		c.R.Traces++
		// alone: every fragmentation
		stop := !deliveries(len(data), full, pairs, nil, func(d delivery) bool { return !checkStream(c, []rv{v}, d, data) })
		if stop {
			return true
		}
		// followed by another message
		two := data + sentinel.enc()
		return !deliveries(len(two), 0, pairs, nil, func(d delivery) bool { return !checkStream(c, []rv{v, sentinel}, d, two) })
	})
	part("read-large", large, 8, func(c *Ctx, v rv) bool {
		data := v.enc()
		c.R.Traces++
		near := []int{1, 2, 3, 5, 6, 7, 8, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193}
		for i := len(data) - 4; i < len(data)+3; i++ {
			near = append(near, i)
		}
		sortInts(near)
		two := data + sentinel.enc()
		return !deliveries(len(two), 0, 0, near, func(d delivery) bool { return !checkStream(c, []rv{v, sentinel}, d, two) })
	})
	// very many elements
	tasks = append(tasks, Task{"many-elements", func(c *Ctx) {
		for _, n := range []int{1<<16 - 1, 1 << 16, 1<<16 + 1, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<21 + 5} {
			l := make([]rv, n)
			for i := range l {
				l[i] = vint(i & 7)
			}
			v := arr(l...)
			what := fmt.Sprintf("an array of %d elements", n)
			c.Case(func() string { return what })
			c.R.States++
			c.R.Distinct++
			c.R.Evals++
			c.R.Traces++
			cc := &chunkConn{data: []byte(v.enc() + sentinel.enc()), end: io.EOF}
			bad := ""
			p := try(func() {
				conn := redis.NewConn(cc)
				m, err := conn.Recv()
				got, ok := m.(redis.ArrayMessage)
				if err != nil || !ok || len(got) != n {
					bad = fmt.Sprintf("it is not read back: %T of %d elements, error %v", m, len(got), err)
					return
				}
				for i, x := range got {
					if !l[i].same(x) {
						bad = fmt.Sprintf("element %d is read back as %v", i, x)
						return
					}
				}
				if m, err = conn.Recv(); err != nil || !sentinel.same(m) {
					bad = fmt.Sprintf("the message after it is not read back: error %v", err)
				}
			})
			if p != "" || bad != "" {
				c.Violate(what, what+": "+bad+p, what)
				return
			}
		}
		c.Sample("arrays of up to 2097157 integers")
	}})
	// sequences of messages on one connection
	core := []rv{bulk(""), bulk("a\r\nb"), nilv(), vint(12), simple("OK"), rerr("E x"), arr(), arr(bulk("x"), nilv()), arr(arr(vint(1)))}
	tasks = append(tasks, Task{"sequences", func(c *Ctx) {
		for _, a := range core {
			for _, b := range core {
				for _, x := range core {
					if c.Stop() {
						return
					}
					seq := []rv{a, b, x}
					data := a.enc() + b.enc() + x.enc()
					c.Case(func() string { return short(data) })
					c.R.States++
					c.R.Traces++
					c.R.Distinct++
					if !deliveries(len(data), 0, pick(t, 60, 0), nil, func(d delivery) bool { return !checkStream(c, seq, d, data) }) {
						return
					}
				}
			}
		}
		c.Sample("triples of 9 messages")
	}})
	return
}

func sortInts(l []int) {
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j] < l[i] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
}

// mustFail: reading this stream yields good messages, then an error, never a further message.
func mustFail(c *Ctx, good []rv, d delivery, data, what string) bool {
	cc := &chunkConn{data: []byte(data), cuts: d.cuts, withEnd: d.withEnd, zero: d.zero, end: d.end}
	c.R.Evals++
	c.R.Transitions++
	bad := ""
	p := try(func() {
		conn := redis.NewConn(cc)
		for _, v := range good {
			m, err := conn.Recv()
			if err != nil || !v.same(m) {
				bad = fmt.Sprintf("the complete message %s before it is not read (%v)", v, err)
				return
			}
		}
		m, err := conn.Recv()
		if err == nil {
			bad = "no error"
			if m != nil {
				bad = "no error, message " + short(m.Serialize())
			}
		}
	})
	if p != "" {
		bad = "panic: " + p
	}
	if bad != "" {
		return c.Violate(what+" "+short(data), fmt.Sprintf("%s: %s, %s: %s", what, short(data), d, bad), map[string]interface{}{"stream": short(data), "delivery": d.String()})
	}
	return false
}

func c20tasks(t bool) (tasks []Task) {
	small, large := respSmall(), respLarge(t)
	for k := 0; k < 6; k++ {
		k := k
		tasks = append(tasks, Task{fmt.Sprintf("cut-%d", k), func(c *Ctx) {
			for i := k; i < len(small); i += 6 {
				v := small[i]
				data := v.enc()
				c.Case(func() string { return "cut " + v.String() })
				for n := 0; n < len(data); n++ {
					if c.Stop() {
						return
					}
					c.R.States++
					c.R.Distinct++
					c.R.Traces++
					if !deliveries(n, pick(deep(), 15, 12), pick(deep(), 200, 60), nil, func(d delivery) bool {
						return !mustFail(c, nil, d, data[:n], "reply cut off after "+strconv.Itoa(n)+" bytes")
					}) {
						return
					}
					// a complete message before it
					for _, e := range []error{io.EOF, errReset} {
						if mustFail(c, []rv{simple("OK")}, delivery{end: e}, "+OK\r\n"+data[:n], "second reply cut off") {
							return
						}
					}
				}
			}
			c.Sample(small[k].String() + " cut at every byte")
		}})
	}
	tasks = append(tasks, Task{"cut-large", func(c *Ctx) {
		for _, v := range large {
			data := v.enc()
			c.Case(func() string { return "cut " + v.String() })
			var at []int
			for _, n := range []int{1, 2, 3, 4, 5, 6, 7, 100, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4098, 8190, 8191, 8192, 8193} {
				at = append(at, n)
			}
			for i := 1; i < 10; i++ {
				at = append(at, len(data)-i)
			}
			if len(data) > 200 && t {
				for n := 9; n < len(data); n += 97 + len(data)/500 {
					at = append(at, n)
				}
			}
			for _, n := range at {
				if n < 0 || n >= len(data) {
					continue
				}
				if c.Stop() {
					return
				}
				c.Case(func() string { return fmt.Sprintf("%s cut after %d bytes", v, n) })
				c.R.States++
				c.R.Distinct++
				c.R.Traces++
				for _, d := range []delivery{{end: io.EOF}, {end: io.EOF, withEnd: true}, {end: errReset}, {cuts: []int{n / 2}, end: io.EOF}, {cuts: []int{4096}, end: io.EOF}, {cuts: []int{n - 1}, end: errReset}} {
					if mustFail(c, nil, d, data[:n], "reply cut off after "+strconv.Itoa(n)+" bytes") {
						return
					}
				}
			}
		}
		c.Sample("large replies cut around buffer boundaries")
	}})
	tasks = append(tasks, Task{"malformed", func(c *Ctx) {
		var bad []string
		for b := 0; b < 256; b++ {
			if strings.IndexByte("$+:-*", byte(b)) >= 0 {
				continue
			}
			for _, rest := range []string{"", "\r\n", "OK\r\n", "5\r\nhello\r\n", "-1\r\n"} {
				bad = append(bad, string([]byte{byte(b)})+rest)
			}
		}
		huge := []string{"9223372036854775807", "4611686018427387904", "1152921504606846976", "1125899906842624", "99999999999999999999", "18446744073709551615", "9223372036854775808", "-9223372036854775808"}
		lens := append([]string{"", "abc", "1x", "x1", "-2", "-3", "-10", "-1x", "--1", "1.5", "0x5", "1e1", "5 5", "$5", "\x00", "-", "٣"}, huge...)
		for _, l := range lens {
			for _, rest := range []string{"", "hello\r\n", "+OK\r\n", "\r\n"} {
				bad = append(bad, "$"+l+"\r\n"+rest, "*"+l+"\r\n"+rest)
			}
		}
		for _, n := range []string{"", "abc", "1x", "--1", "1.5", "99999999999999999999", "9223372036854775808", "-9223372036854775809", "0x5", "1 2", "-"} {
			bad = append(bad, ":"+n+"\r\n", ":"+n+"\r\n+OK\r\n")
		}
		bad = append(bad, "$4\r\nhello\r\n", "$6\r\nhello\r\n+OK\r\n", "$0\r\nx\r\n", "$5\r\nhelloXX", "$5\r\nhelloX\n", "$1\r\nab\r\n", "$2\r\nabcdefgh\r\n+OK\r\n")
		all := append([]string{}, bad...)
		for _, b := range bad {
			all = append(all, "*1\r\n"+b, "*2\r\n+OK\r\n"+b, "*2\r\n"+b+"+OK\r\n", "*1\r\n*1\r\n"+b)
		}
		for _, b := range all {
			if c.Stop() {
				return
			}
			b := b
			c.Case(func() string { return "malformed " + short(b) })
			c.R.States++
			c.R.Distinct++
			c.R.Traces++
			ds := []delivery{{end: io.EOF}, {end: errReset, withEnd: true}, {cuts: everyByte(len(b)), end: io.EOF}}
			for i := 1; i < len(b) && i < 12; i++ {
				ds = append(ds, delivery{cuts: []int{i}, end: io.EOF})
			}
			for _, d := range ds {
				if mustFail(c, nil, d, b, "malformed reply") {
					return
				}
			}
			if mustFail(c, []rv{bulk("ok")}, delivery{end: io.EOF}, "$2\r\nok\r\n"+b, "malformed second reply") {
				return
			}
		}
		// replies that are seen to be malformed are refused there and then: the peer stays connected and
		// silent, and a read that waits for more never returns
		for _, b := range []string{"?OK\r\n", "OK\r\n", "$abc\r\n", "$-2\r\n", "$\r\n", "*x\r\n", "*-2\r\n", ":x\r\n", ":\r\n", "$5\r\nhelloXX", "$0\r\nXX", "$1\r\n\r\r\r", "$300\r\n" + filler(300) + "XX"} {
			for _, pre := range []string{"", "*1\r\n", "*3\r\n+OK\r\n", "*2\r\n*1\r\n"} {
				data := pre + b
				c.Case(func() string { return "malformed " + short(data) + ", then silence" })
				c.R.States++
				c.R.Distinct++
				c.R.Traces++
				for _, d := range []delivery{{end: errSilent}, {cuts: everyByte(len(data)), end: errSilent}} {
					if mustFail(c, nil, d, data, "malformed reply, then silence") {
						return
					}
				}
			}
		}
		c.Sample(all[len(all)-1])
	}})
	return
}

func init() {
	props["C19"] = &Prop{Tasks: c19tasks, Rule: "every message of a grammar (5 kinds, binary and boundary contents, nesting) sent and read back under every fragmentation within bounds; a case is one (stream, fragmentation)",
		Bounds: func(t bool) string {
			return "all 2^(n-1) fragmentations of streams up to 18 (thorough 20) bytes, all single cuts and pairs of cuts of longer ones, byte-by-byte, fixed pieces, buffer-boundary cuts for large messages (to 1 MiB)"
		}}
	props["C20"] = &Prop{Tasks: c20tasks, Rule: "every message cut at every byte, and every malformed header of a grammar at every nesting position, under several fragmentations and endings (EOF, reset, with data)",
		Bounds: func(t bool) string {
			return "116 small messages cut at every byte, large ones around buffer boundaries; 251 unknown type bytes, 25 bad lengths, alone and nested"
		}}
}
