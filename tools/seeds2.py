def demo(pkg, body, *imports):
    path = "github.com/liujiangwei/xxcache/" + pkg if pkg else "github.com/liujiangwei/xxcache"
    name = pkg.split("/")[-1] if pkg else "xxcache"
    h = "\npackage %s_test\n\nimport (\n" % name
    for i in sorted(set(imports) | {"testing"}): h += '\t"%s"\n' % i
    return h + '\n\t%s"%s"\n)\n' % (". " if pkg else "", path) + body
RP="redis/protocol.go"; RC="redis/conn.go"; RD="redis/redis.go"; CM="redis/command.go"; PO="redis/pool.go"; RE="redis/replication.go"
RB="redis/rdb/rdb.go"; ZL="redis/ziplist/ziplist.go"; IS="redis/intset/intset.go"; ZM="redis/zipmap/zipmap.go"; LD="redis/lzf/lzf_d.c"; LC="redis/lzf/lzf_c.c"
# one reply per accepted request, in order; every request is recorded
SRV = r'''
// serve answers every request line by line with the next reply; requests are sent to got
func serve(t *testing.T, replies ...string) (addr string, got chan []string) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { l.Close() })
	got = make(chan []string, 1000)
	next := make(chan string, 1000)
	for _, r := range replies {
		next <- r
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				b := bufio.NewReader(c)
				for {
					args, err := request(b)
					if err != nil {
						return
					}
					got <- args
					c.Write([]byte(<-next))
				}
			}()
		}
	}()
	return l.Addr().String(), got
}

func request(b *bufio.Reader) (args []string, err error) {
	num := func() (n int) {
		var line string
		if line, err = b.ReadString('\n'); err == nil {
			n, err = strconv.Atoi(strings.TrimSpace(line[1:]))
		}
		return n
	}
	n := num()
	for i := 0; i < n && err == nil; i++ {
		k := num()
		if err != nil {
			break
		}
		buf := make([]byte, k+2)
		if _, err = io.ReadFull(b, buf); err == nil {
			args = append(args, string(buf[:k]))
		}
	}
	return args, err
}
'''
SI = ("bufio", "io", "net", "strconv", "strings")
def net(body, *imports): return demo("redis", SRV + body, *(SI + imports))
# a scripted master: handshake, snapshot, then the stream; other connections are plain clients
MASTER = r'''
const emptyRdb = "REDIS0009\xff\x00\x00\x00\x00\x00\x00\x00\x00"

func cmd(args ...string) string {
	s := "*" + strconv.Itoa(len(args)) + "\r\n"
	for _, a := range args {
		s += "$" + strconv.Itoa(len(a)) + "\r\n" + a + "\r\n"
	}
	return s
}

// master serves snapshot to the replica and hands every other command to client
func master(t *testing.T, snapshot string, link chan net.Conn, client func(args []string) string) (addr string) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { l.Close() })
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				b := bufio.NewReader(c)
				for {
					args, err := request(b)
					if err != nil {
						c.Close()
						return
					}
					switch strings.ToLower(args[0]) {
					case "ping":
						c.Write([]byte("+PONG\r\n"))
					case "sync":
						c.Write([]byte("$" + strconv.Itoa(len(snapshot)) + "\r\n" + snapshot))
						link <- c
					case "replconf":
					default:
						c.Write([]byte(client(args)))
					}
				}
			}()
		}
	}()
	return l.Addr().String()
}
'''
def repl(body, *imports): return demo("redis", SRV[SRV.index("func request"):] + MASTER + body, *(SI + imports))
def root(body, *imports): return demo("", SRV[SRV.index("func request"):] + MASTER + body, *(SI + imports))
SEEDS = [
dict(id="c19-rune-count", prop="C19", pkg="redis", edits=[(RP, "\tstr += strconv.Itoa(len(message.string)) + MessageEOF", "\tstr += strconv.Itoa(utf8.RuneCountInString(message.string)) + MessageEOF"), (RP, '\t"strings"\n', '\t"strings"\n\t"unicode/utf8"\n')],
 needs="a bulk string with multi-byte characters", breaks="the announced length counts characters, not bytes",
 demo=demo("redis", '''
func TestZZDemo(t *testing.T) {
	if s := NewBulkStringMessage("日本").Serialize(); s != "$6\\r\\n日本\\r\\n" {
		t.Fatalf("%q", s)
	}
}
''')),
dict(id="c19-empty-bulk", prop="C19", pkg="redis", edits=[(RC, "\t\tif length == -1 {\n\t\t\treturn NilMessage{}, nil", "\t\tif length < 1 {\n\t\t\treturn NilMessage{}, nil")],
 needs="an empty bulk string on the wire", breaks="an empty string is read as nil and its line end is left in the stream",
 demo=net('''
func TestZZDemo(t *testing.T) {
	addr, _ := serve(t, "$0\\r\\n\\r\\n", "+next\\r\\n")
	c, err := Connect(addr)
	if err != nil {
		t.Fatal(err)
	}
	m, err := c.SendAndWaitReply(ConvertToMessage("get", "k"))
	if err != nil || m.String() != "" || m.Serialize() != "$0\\r\\n\\r\\n" {
		t.Fatal(m, err)
	}
}
''')),
dict(id="c19-int-width", prop="C19", pkg="redis", edits=[(RP, "\treturn string(ProtocolInt) + strconv.Itoa(int(message)) + MessageEOF", "\treturn string(ProtocolInt) + strconv.Itoa(int(int32(message))) + MessageEOF")],
 needs="an integer beyond 32 bits", breaks="the integer is truncated when it is written",
 demo=demo("redis", '''
func TestZZDemo(t *testing.T) {
	if s := IntMessage(-5000000000).Serialize(); s != ":-5000000000\\r\\n" {
		t.Fatalf("%q", s)
	}
}
''')),
dict(id="c22-bare-error", prop="C22", pkg="redis", edits=[(RC, "\t\tcase ErrorMessage:\n\t\t\tcommand.Error(errors.New(msg.String()))", "\t\tcase ErrorMessage:\n\t\t\tif text := strings.TrimPrefix(msg.String(), \"ERR \"); text != \"\" {\n\t\t\t\tcommand.Error(errors.New(text))\n\t\t\t}")],
 needs="an error reply without a text", breaks="the command succeeds with an empty value",
 demo=net('''
func TestZZDemo(t *testing.T) {
	addr, _ := serve(t, "-\\r\\n")
	if v, err := NewClient(Option{Addr: addr}).Get("k"); err == nil {
		t.Fatalf("%q", v)
	}
}
''')),
dict(id="c20-inline-reply", prop="C20", pkg="redis", edits=[(RC, "\t\treturn nil, errors.New(\"unknown protocol \" + fmt.Sprintf(\"[%s]\", string(protocol)))", "\t\tline, err := c.readLine()\n\t\tif err != nil {\n\t\t\treturn nil, errors.New(\"unknown protocol \" + fmt.Sprintf(\"[%s]\", string(protocol)))\n\t\t}\n\n\t\treturn SimpleStringMessage(string(protocol) + line), nil")],
 needs="a reply of an unknown type that ends with a line end", breaks="garbage is returned as a value",
 demo=net('''
func TestZZDemo(t *testing.T) {
	addr, _ := serve(t, "HTTP/1.1 400 Bad Request\\r\\n")
	if v, err := NewClient(Option{Addr: addr}).Get("k"); err == nil {
		t.Fatalf("%q", v)
	}
}
''')),
dict(id="c20-partial-array", prop="C20", pkg="redis", edits=[(RC, "\t\t\tif message, err := c.readMessage(); err != nil {\n\t\t\t\treturn nil, err\n", "\t\t\tif message, err := c.readMessage(); err == io.EOF {\n\t\t\t\tbreak\n\t\t\t} else if err != nil {\n\t\t\t\treturn nil, err\n")],
 needs="a connection that ends between two elements of an array reply", breaks="the elements received so far are returned as the whole reply",
 demo=demo("redis", '''
func TestZZDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go func() {
		c, err := l.Accept()
		if err == nil {
			c.Read(make([]byte, 100))
			c.Write([]byte("*2\\r\\n$1\\r\\na\\r\\n"))
			c.Close()
		}
	}()
	if v, err := NewClient(Option{Addr: l.Addr().String()}).MGet("a", "b"); err == nil {
		t.Fatal(v)
	}
}
''', "net")),
dict(id="c21-float32", prop="C21", pkg="redis", edits=[(RD, "\t\tBaseCommand: NewBaseCommand(\"IncrByFloat\", key, strconv.FormatFloat(increment, 'f', -1, 64)),", "\t\tBaseCommand: NewBaseCommand(\"IncrByFloat\", key, strconv.FormatFloat(increment, 'f', -1, 32)),")],
 needs="an increment that needs more than 24 bits", breaks="a rounded increment is sent",
 demo=net('''
func TestZZDemo(t *testing.T) {
	addr, got := serve(t, "$1\\r\\n1\\r\\n")
	NewClient(Option{Addr: addr}).IncrByFloat("k", 16777217.25)
	if a := <-got; a[2] != "16777217.25" {
		t.Fatal(a)
	}
}
''')),
dict(id="c21-mset-empty", prop="C21", pkg="redis", edits=[(RD, '''	var args = []string{"MSet"}
	for k, v := range kv {
		args = append(args, k, v)
	}
''', '''	var args = []string{"MSet"}
	for k, v := range kv {
		if k == "" || v == "" {
			continue
		}
		args = append(args, []string{k, v}...)
	}
''')],
 needs="an MSet with an empty value", breaks="the pair with the empty value is not sent", cleanruns=1,
 demo=net('''
func TestZZDemo(t *testing.T) {
	addr, got := serve(t, "+OK\\r\\n")
	NewClient(Option{Addr: addr}).MSet(map[string]string{"a": "", "b": "1"})
	if a := <-got; len(a) != 5 {
		t.Fatal(a)
	}
}
''')),
dict(id="c21-select-once", prop="C21", pkg="redis", edits=[(RD, '''	if option.Database > 0 {
		redis.connPool.AddConnOpenHandler(func(conn *Conn) error {
			cmd := StringCommand{''', '''	if option.Database > 0 {
		selected := false
		redis.connPool.AddConnOpenHandler(func(conn *Conn) error {
			if selected {
				return nil
			}
			selected = true

			var cmd = StringCommand{'''),],
 needs="a second connection of a client with a database", breaks="only the first connection selects the database; commands of the others go to database 0",
 demo=net('''
func TestZZDemo(t *testing.T) {
	addr, got := serve(t, "+OK\\r\\n", "?\\r\\n", "+OK\\r\\n", "$1\\r\\nv\\r\\n")
	c := NewClient(Option{Addr: addr, Database: 3})
	c.Get("a") // the garbage makes the client open another connection
	c.Get("b")
	var names []string
	for i := 0; i < 3; i++ {
		names = append(names, (<-got)[0])
	}
	if strings.Join(names, " ") != "select get select" {
		t.Fatal(names)
	}
}
''')),
dict(id="c22-literal-nil", prop="C22", pkg="redis", edits=[(CM, '''			switch m.(type) {
			case NilMessage, ErrorMessage:
				i.Val = append(i.Val, errors.New(m.String()))
			default:
				i.Val = append(i.Val, m.String())
			}
''', '''			if m.String() == (NilMessage{}).String() || m.Protocol() == ProtocolError {
				i.Val = append(i.Val, errors.New(m.String()))
			} else {
				i.Val = append(i.Val, m.String())
			}
''')],
 needs="an MGet of a key that holds the text Nil", breaks="the value is reported as missing",
 demo=net('''
func TestZZDemo(t *testing.T) {
	addr, _ := serve(t, "*2\\r\\n$3\\r\\nNil\\r\\n$-1\\r\\n")
	v, err := NewClient(Option{Addr: addr}).MGet("a", "b")
	if err != nil || len(v) != 2 || v[0] != "Nil" {
		t.Fatal(v, err)
	}
}
''')),
dict(id="c22-int32", prop="C22", pkg="redis", edits=[(CM, "\t\ti.Val = int(message)\n", "\t\ti.Val = int(int32(message))\n")],
 needs="an integer reply beyond 32 bits", breaks="the reply is truncated",
 demo=net('''
func TestZZDemo(t *testing.T) {
	addr, _ := serve(t, ":4294967297\\r\\n")
	if n, err := NewClient(Option{Addr: addr}).Incr("a"); n != 4294967297 || err != nil {
		t.Fatal(n, err)
	}
}
''')),
dict(id="c22-float-trim", prop="C22", pkg="redis", edits=[(CM, "func (cmd *FloatCommand) Result() (float64, error) {\n\treturn cmd.Val, cmd.Err", "func (cmd *FloatCommand) Result() (float64, error) {\n\treturn math.Round(cmd.Val*1e6) / 1e6, cmd.Err"), (CM, '\t"errors"\n', '\t"errors"\n\t"math"\n'), (RD, '''		BaseCommand: NewBaseCommand("IncrByFloat", key, strconv.FormatFloat(increment, 'f', -1, 64)),
	}
	redis.process(&rc)

	return rc.Val, rc.Err''', '''		BaseCommand: NewBaseCommand("IncrByFloat", key, strconv.FormatFloat(increment, 'f', -1, 64)),
	}
	redis.process(&rc)

	return rc.Result()''')],
 needs="a float reply with more than six decimals", breaks="the reply is rounded",
 demo=net('''
func TestZZDemo(t *testing.T) {
	addr, _ := serve(t, "$11\\r\\n0.123456789\\r\\n")
	if f, err := NewClient(Option{Addr: addr}).IncrByFloat("a", 1); f != 0.123456789 || err != nil {
		t.Fatal(f, err)
	}
}
''')),
dict(id="c23-one-in-use", prop="C23", pkg="redis", edits=[(PO, "\tpool.connC = make(chan *Conn, pool.capacity)", "\t// the connection that is handed back last is always in use\n\tpool.connC = make(chan *Conn, pool.capacity-1)")],
 needs="every connection of the pool is open and all of them come back", breaks="the last one that comes back blocks its caller for ever",
 demo=net('''
func TestZZDemo(t *testing.T) {
	addr, _ := serve(t, "+a\\r\\n", "+b\\r\\n")
	var p Pool
	p.Init(2, addr)
	a, e1 := p.Get(context.Background())
	b, e2 := p.Get(context.Background())
	if e1 != nil || e2 != nil {
		t.Fatal(e1, e2)
	}
	done := make(chan bool)
	go func() { p.Put(a); p.Put(b); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("a connection can not be given back")
	}
}
''', "context", "time")),
dict(id="c23-exec-leak", prop="C23", pkg="redis", edits=[(PO, '''func (pool *Pool) Exec(ctx context.Context, handler ExecHandler) error {
	conn, err := pool.Get(ctx)
	defer pool.Put(conn)

	if err != nil {
		return err
	}

	return handler(conn)
''', '''func (pool *Pool) Exec(ctx context.Context, handler ExecHandler) error {
	conn, err := pool.Get(ctx)
	if err != nil {
		return err
	}

	if err := handler(conn); err != nil {
		return err
	}

	pool.Put(conn)
	return nil
''')],
 needs="as many failing handlers as the pool has connections", breaks="the connection of a failing handler is never given back",
 demo=net('''
func TestZZDemo(t *testing.T) {
	addr, _ := serve(t)
	var p Pool
	p.Init(1, addr)
	p.Exec(context.Background(), func(*Conn) error { return errors.New("x") })
	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
	defer cancel()
	if err := p.Exec(ctx, func(*Conn) error { return nil }); err != nil {
		t.Fatal(err)
	}
}
''', "context", "time", "errors")),
dict(id="c23-open-handlers", prop="C23", pkg="redis", edits=[(PO, "\tfor _, handler := range pool.connOpenHandler {\n\t\tif err := handler(conn); err != nil {", "\tfor _, handler := range pool.connOpenHandler {\n\t\tif err = handler(conn); err == io.EOF {\n\t\t\t// closed by the server, try once more\n\t\t\tif conn, err = Connect(pool.addr); err == nil {\n\t\t\t\terr = handler(conn)\n\t\t\t}\n\t\t}\n\n\t\tif err != nil {"), (PO, '\t"errors"\n', '\t"errors"\n\t"io"\n')],
 needs="a connection that is closed while its open handler runs", breaks="the closed connection is left open on this side (and a failing redial crashes)",
 demo=net('''
func TestZZDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	go func() {
		c, err := l.Accept()
		if err == nil {
			l.Close()
			c.Read(make([]byte, 100))
			c.Close()
		}
	}()
	c := NewClient(Option{Addr: l.Addr().String(), Password: "p"})
	if v, err := c.Get("k"); err == nil {
		t.Fatal(v)
	}
}
''')),
dict(id="c24-give-up-early", prop="C24", pkg="redis", edits=[(PO, "\tconn.ExecCommand(ctx, command)\n", '''	done := make(chan struct{})
	go func() {
		defer close(done)
		conn.ExecCommand(ctx, command)
	}()

	select {
	case <-done:
	case <-ctx.Done():
		command.Error(ctx.Err())
	}
''')],
 needs="a context that ends while its command is on the wire, and another caller right after", breaks="the connection goes back with a reply outstanding, which the next caller receives",
 demo=net('''
func TestZZDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				b := bufio.NewReader(c)
				for {
					args, err := request(b)
					if err != nil {
						return
					}
					if args[1] == "slow" {
						time.Sleep(300 * time.Millisecond)
					}
					c.Write([]byte("+" + args[1] + "\\r\\n"))
				}
			}()
		}
	}()
	for i := 0; i < 12; i++ {
		var p Pool
		p.Init(1, l.Addr().String())
		ctx, cancel := context.WithTimeout(context.Background(), 100*time.Millisecond)
		p.ExecCommand(ctx, &StringCommand{BaseCommand: NewBaseCommand("get", "slow")})
		cancel()
		for _, k := range []string{"b", "c"} {
			b := &StringCommand{BaseCommand: NewBaseCommand("get", k)}
			ctx, cancel := context.WithTimeout(context.Background(), time.Second)
			p.ExecCommand(ctx, b)
			cancel()
			if b.Err == nil && b.Val != k {
				t.Fatal(k, b.Val)
			}
		}
	}
}
''', "context", "time")),
dict(id="c24-resend", prop="C24", pkg="redis", edits=[(RC, '''	if err := c.Send(message); err != nil {
		return nil, err
	}

	return c.Recv()
}
''', '''	if err := c.Send(message); err != nil {
		return nil, err
	}

	reply, err := c.Recv()
	if e, ok := reply.(ErrorMessage); ok && strings.HasPrefix(e.String(), "LOADING") {
		// the server is starting, ask once more
		if err := c.Send(message); err != nil {
			return nil, err
		}
		if err := c.Send(message); err != nil {
			return nil, err
		}
		return c.Recv()
	}
	return reply, err
}
''')],
 needs="a LOADING error reply", breaks="the command is sent one time too many; every later reply on the connection belongs to the command before",
 demo=net('''
func TestZZDemo(t *testing.T) {
	addr, _ := serve(t, "-LOADING wait\\r\\n", "+a\\r\\n", "+a\\r\\n", "+b\\r\\n")
	c := NewClient(Option{Addr: addr, PoolSize: 1})
	c.Get("a")
	time.Sleep(100 * time.Millisecond)
	if v, err := c.Get("b"); err == nil && v != "b" && v != "a" {
		t.Fatal(v)
	}
	if v, err := c.Get("c"); err == nil && v == "b" {
		t.Fatal("the reply to the command before")
	}
}
''', "time")),
dict(id="c25-int8-sign", prop="C25", pkg="redis/rdb", edits=[(RB, '\t\t\tstr = fmt.Sprintf("%d", int8(buf))', '\t\t\tstr = fmt.Sprintf("%d", buf)')],
 needs="a string stored as a negative 8-bit integer", breaks="-1 is read as 255",
 demo=demo("redis/rdb", '''
func TestZZDemo(t *testing.T) {
	if s, err := LoadString(bufio.NewReader(strings.NewReader("\\xc0\\xff"))); s != "-1" || err != nil {
		t.Fatal(s, err)
	}
}
''', "bufio", "strings")),
dict(id="c25-score32", prop="C25", pkg="redis/rdb", edits=[(RB, "\t\treturn strconv.ParseFloat(string(buf), 64)", "\t\treturn strconv.ParseFloat(string(buf), 32)")],
 needs="a textual double that needs more than 24 bits", breaks="the score is rounded",
 demo=demo("redis/rdb", '''
func TestZZDemo(t *testing.T) {
	if f, err := LoadDouble(bufio.NewReader(strings.NewReader("\\x0816777217"))); f != 16777217 || err != nil {
		t.Fatal(f, err)
	}
}
''', "bufio", "strings")),
dict(id="c25-len14", prop="C25", pkg="redis/rdb", edits=[(RB, "\t\t\tnum := binary.BigEndian.Uint16([]byte{buf[0] & 0x3F, buf[1]})\n\t\t\tlength = uint64(num)", "\t\t\tlength = uint64((buf[0]&0x3F)<<7)<<1 | uint64(buf[1])")],
 needs="a 14-bit length of 512 or more", breaks="the upper bits of the length are lost",
 demo=demo("redis/rdb", '''
func TestZZDemo(t *testing.T) {
	if n, _, err := LoadLen(bufio.NewReader(strings.NewReader("\\x42\\x01"))); n != 513 || err != nil {
		t.Fatal(n, err)
	}
}
''', "bufio", "strings")),
dict(id="c26-prev-254", prop="C26", pkg="redis/ziplist", edits=[(ZL, "\tif length >= BigPrevLen {\n", "\tif length > BigPrevLen {\n")],
 needs="an entry behind one of 254 or more bytes", breaks="the five-byte previous length is taken for one byte",
 demo=demo("redis/ziplist", '''
func TestZZDemo(t *testing.T) {
	big := strings.Repeat("x", 300)
	e1 := "\\x00\\x41\\x2c" + big
	p := len(e1)
	s := "\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x02\\x00" + e1 + "\\xfe" + string([]byte{byte(p), byte(p >> 8), 0, 0}) + "\\x01y\\xff"
	l, err := Load(s)
	if err != nil || len(l) != 2 || l[0] != big || l[1] != "y" {
		t.Fatal(l, err)
	}
}
''', "strings")),
dict(id="c26-immediate-12", prop="C26", pkg="redis/ziplist", edits=[(ZL, "const ZipIntImmMax = 0xfd", "const ZipIntImmMax = 0xfc")],
 needs="the immediate integer 12", breaks="a list holding 12 can not be read",
 demo=demo("redis/ziplist", '''
func TestZZDemo(t *testing.T) {
	l, err := Load("\\x0d\\x00\\x00\\x00\\x0a\\x00\\x00\\x00\\x01\\x00\\x00\\xfd\\xff")
	if err != nil || len(l) != 1 || l[0] != "12" {
		t.Fatal(l, err)
	}
}
''')),
dict(id="c26-zipmap-254", prop="C26", pkg="redis/zipmap", edits=[(ZM, "\t\tvl := uint32(encoded[i])\n\t\ti++\n\t\tif vl >= BigLen {", "\t\tvl := uint32(encoded[i])\n\t\ti++\n\t\tif vl > BigLen {")],
 needs="a zipmap value of 254 or more bytes", breaks="the five-byte length is taken for one byte",
 demo=demo("redis/zipmap", '''
func TestZZDemo(t *testing.T) {
	v := strings.Repeat("v", 300)
	h, err := Load("\\x01\\x01k\\xfe\\x2c\\x01\\x00\\x00\\x00" + v + "\\xff")
	if err != nil || h["k"] != v {
		t.Fatal(len(h["k"]), err)
	}
}
''', "strings")),
dict(id="c27-lfu", prop="C27", pkg="redis", edits=[(RE, "\t\t\tvar lfu byte\n\t\t\tif lfu, err = buf.ReadByte(); err != nil {", "\t\t\tvar lfu uint64\n\t\t\tif lfu, _, err = rdb.LoadLen(buf); err != nil {")],
 needs="a key with an access frequency of 64 or more", breaks="the frequency takes bytes of the key with it",
 demo=repl('''
func TestZZDemo(t *testing.T) {
	f := t.TempDir() + "/x.rdb"
	ioutil.WriteFile(f, []byte("REDIS0009\\xf9\\x80\\x00\\x01k\\x01v\\xff\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00"), 0600)
	r := Replication{RdbFile: f, Messages: make(chan ReplicationMessage, 100), Err: make(chan error, 1)}
	if err := r.Load(); err != nil || len(r.Messages) != 1 {
		t.Fatal(err, len(r.Messages))
	}
	if m := <-r.Messages; m.Message.String() != "set k v" {
		t.Fatal(m.Message.String())
	}
}
''', "io/ioutil")),
dict(id="c27-sticky-expiry", prop="C27", pkg="redis", edits=[(RE, "\t\t\t\texpiresTime = 0\n", "\t\t\t\tif opCode == rdb.TypeString {\n\t\t\t\t\texpiresTime *= 0\n\t\t\t\t}\n")],
 needs="a non-string key with a deadline, followed by a key without one", breaks="the deadline is given to the next keys too",
 demo=repl('''
func TestZZDemo(t *testing.T) {
	f := t.TempDir() + "/x.rdb"
	ioutil.WriteFile(f, []byte("REDIS0009\\xfc\\x00\\x00\\x00\\x00\\x7f\\x01\\x00\\x00\\x04\\x01h\\x01\\x01f\\x01g\\x00\\x01k\\x01v\\xff\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00"), 0600)
	r := Replication{RdbFile: f, Messages: make(chan ReplicationMessage, 100), Err: make(chan error, 1)}
	if err := r.Load(); err != nil || len(r.Messages) != 3 {
		t.Fatal(err, len(r.Messages))
	}
}
''', "io/ioutil")),
dict(id="c28-eof-is-end", prop="C28", pkg="redis", edits=[(RE, "\t\tif opCode, err = rdb.LoadOpCode(buf); err != nil {\n\t\t\treturn err\n\t\t}", "\t\tif opCode, err = rdb.LoadOpCode(buf); err == io.EOF {\n\t\t\treturn nil\n\t\t} else if err != nil {\n\t\t\treturn fmt.Errorf(\"op code: %v\", err)\n\t\t}")],
 needs="a snapshot that is cut off between two keys", breaks="the truncated snapshot counts as complete",
 demo=repl('''
func TestZZDemo(t *testing.T) {
	f := t.TempDir() + "/x.rdb"
	ioutil.WriteFile(f, []byte("REDIS0009\\x00\\x01k\\x01v"), 0600)
	r := Replication{RdbFile: f, Messages: make(chan ReplicationMessage, 100), Err: make(chan error, 1)}
	if err := r.Load(); err == nil {
		t.Fatal("no error")
	}
}
''', "io/ioutil")),
dict(id="c27-short-expiry", prop="C27", pkg="redis", edits=[(RE, "\t\t\tif _, err = io.ReadFull(buf, milliTime); err != nil {\n\t\t\t\treturn err\n\t\t\t}", "\t\t\tif _, err = buf.Read(milliTime); err != nil {\n\t\t\t\treturn err\n\t\t\t}")],
 needs="a deadline that straddles the end of the read buffer (4096 bytes)", breaks="the bytes that were not read yet are zero and the rest is taken for op codes",
 demo=repl('''
func TestZZDemo(t *testing.T) {
	f := t.TempDir() + "/x.rdb"
	long := strings.Repeat("a", 4096-9-1-2-3-1-4)
	n := len(long)
	s := "REDIS0009\\x00\\x01k\\x80" + string([]byte{0, 0, byte(n >> 8), byte(n)}) + long
	s += "\\xfc\\x00\\x00\\x00\\x00\\x7f\\x01\\x00\\x00\\x00\\x01j\\x01v\\xff\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00"
	ioutil.WriteFile(f, []byte(s), 0600)
	r := Replication{RdbFile: f, Messages: make(chan ReplicationMessage, 100), Err: make(chan error, 1)}
	if err := r.Load(); err != nil || len(r.Messages) != 3 {
		t.Fatal(err, len(r.Messages))
	}
	<-r.Messages
	<-r.Messages
	if m := <-r.Messages; m.Message.String() != "pExpireAt j 1645000000000" && !strings.HasPrefix(m.Message.String(), "pExpireAt j 16449") {
		t.Fatal(m.Message.String())
	}
}
''', "io/ioutil")),
dict(id="c29-ref-bound", prop="C29", pkg="redis/lzf", edits=[(LD, "          if (ref < (u8 *)out_data)\n", "          if (ref + len < (u8 *)out_data)\n")],
 needs="a damaged back reference that starts just before the output", breaks="memory in front of the buffer is returned as data",
 demo=demo("redis/lzf", '''
func TestZZDemo(t *testing.T) {
	for i := 0; i < 1000; i++ {
		if s, err := Decode("\\x00a\\x40\\x02", 5); err == nil {
			t.Fatalf("%q", s)
		}
	}
}
''')),
dict(id="c29-far-matches", prop="C29", pkg="redis/lzf", edits=[(LC, "          && (off = ip - ref - 1) < MAX_OFF\n", "          && (off = ip - ref - 1) < MAX_OFF * 2\n")],
 needs="a repetition 8 to 16 KB apart", breaks="the distance does not fit its field; the text is restored wrongly",
 demo=demo("redis/lzf", '''
func TestZZDemo(t *testing.T) {
	b := make([]byte, 30000)
	x := uint32(1)
	for i := range b[:10000] {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	copy(b[10000:], b[:10000])
	copy(b[20000:], b[:10000])
	s := string(b)
	c := Compress(s)
	if c == s {
		return
	}
	if d, err := Decode(c, len(s)); err != nil || d != s {
		t.Fatal("not restored", err)
	}
}
''')),
dict(id="c29-input-end", prop="C29", pkg="redis/lzf", edits=[(LD, "          if (ip + ctrl > in_end)\n", "          if (ip + ctrl > in_end + 1)\n")],
 needs="a compressed text that lacks its last byte", breaks="a byte behind the input is returned as data",
 demo=demo("redis/lzf", '''
func TestZZDemo(t *testing.T) {
	if s, err := Decode("\\x02ab", 3); err == nil {
		t.Fatalf("%q", s)
	}
}
''')),
dict(id="c30-old-tail", prop="C30", pkg="redis", edits=[(RE, "os.O_CREATE|os.O_TRUNC|os.O_WRONLY", "os.O_CREATE|os.O_WRONLY")],
 needs="a snapshot file of an earlier, longer sync", breaks="the end of the old snapshot stays behind the new one",
 demo=repl('''
func TestZZDemo(t *testing.T) {
	f := t.TempDir() + "/x.rdb"
	ioutil.WriteFile(f, []byte(strings.Repeat("old", 100)), 0600)
	link := make(chan net.Conn, 10)
	r := Replication{MasterAddr: master(t, emptyRdb, link, nil), RdbFile: f}
	if err := r.SyncWithRedis(); err != nil {
		t.Fatal(err)
	}
	if b, _ := ioutil.ReadFile(f); string(b) != emptyRdb {
		t.Fatalf("%q", b)
	}
}
''', "io/ioutil")),
dict(id="c30-short-snapshot", prop="C30", pkg="redis", edits=[(RC, '''			b, err := c.Reader.ReadByte()
			if err != nil {
				return ProtocolBulkString, 0, err
			}
''', '''			b, err := c.Reader.ReadByte()
			if err == io.EOF {
				length = i
				break
			} else if err != nil {
				return ProtocolBulkString, 0, err
			}
''')],
 needs="a connection that ends inside the snapshot", breaks="the part that arrived counts as the snapshot",
 demo=repl('''
func TestZZDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		b := bufio.NewReader(c)
		request(b)
		c.Write([]byte("+PONG\\r\\n"))
		request(b)
		c.Write([]byte("$100\\r\\nREDIS0009"))
		c.Close()
	}()
	r := Replication{MasterAddr: l.Addr().String(), RdbFile: t.TempDir() + "/x.rdb"}
	if err := r.SyncWithRedis(); err == nil {
		t.Fatal("no error")
	}
}
''')),
dict(id="c31-drop-when-full", prop="C31", pkg="redis", edits=[(RE, '''		repl.Messages <- ReplicationMessage{
			Database: database,
			Message:  message,
			Offset:   0,
		}
	}
}
''', '''		// never make the master wait for a slow reader
		select {
		case repl.Messages <- ReplicationMessage{Database: database, Message: message}:
		default:
			logrus.Warnln("replication queue is full")
		}
	}
}
''')],
 needs="more messages queued than the channel holds", breaks="replicated commands are dropped",
 demo=repl('''
func TestZZDemo(t *testing.T) {
	link := make(chan net.Conn, 10)
	r := Replication{MasterAddr: master(t, emptyRdb, link, nil), RdbFile: t.TempDir() + "/x.rdb"}
	if err := r.SyncWithRedis(); err != nil {
		t.Fatal(err)
	}
	go func() {
		c := <-link
		for i := 0; i < DefaultReplicationMessages+50; i++ {
			c.Write([]byte(cmd("set", "k", strconv.Itoa(i))))
		}
		c.Close()
	}()
	go r.WaitForMessage()
	time.Sleep(2 * time.Second)
	n := 0
	for range r.Messages {
		n++
	}
	if n != DefaultReplicationMessages+50 {
		t.Fatal(n)
	}
}
''', "time")),
dict(id="c31-error-first", prop="C31", pkg="redis", edits=[(RE, '''			repl.Err <- err
			close(repl.Messages)
			return
''', '''			if err != io.EOF {
				repl.Err <- err
			}
			close(repl.Messages)
			return
''')],
 needs="a master that closes the stream in an orderly way", breaks="the end of the stream is not reported",
 demo=repl('''
func TestZZDemo(t *testing.T) {
	link := make(chan net.Conn, 10)
	r := Replication{MasterAddr: master(t, emptyRdb, link, nil), RdbFile: t.TempDir() + "/x.rdb"}
	if err := r.SyncWithRedis(); err != nil {
		t.Fatal(err)
	}
	(<-link).Close()
	go r.WaitForMessage()
	select {
	case err := <-r.Err:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(3 * time.Second):
		t.Fatal("the end of the stream is not reported")
	}
}
''', "time")),
dict(id="c32-trim-value", prop="C32", pkg="cache", edits=[("cache/message.go", "\t\t_, err = cache.Set(messages[1].String(), messages[2].String())", "\t\t_, err = cache.Set(messages[1].String(), strings.TrimSpace(messages[2].String()))")],
 needs="a replicated value with white space at an end", breaks="the cached value differs from the master's",
 demo=demo("cache", '''
func TestZZDemo(t *testing.T) {
	c := New()
	if err := HandleMessage(c, redis.ConvertToMessage("set", "k", "v\\n")); err != nil {
		t.Fatal(err)
	}
	if v, _ := c.Get("k"); v != "v\\n" {
		t.Fatalf("%q", v)
	}
}
''', "github.com/liujiangwei/xxcache/redis")),
dict(id="c33-write-through", prop="C33", pkg=".", edits=[("command.go", "\treturn client.redis.Set(key, value)\n", "\tok, err := client.redis.Set(key, value)\n\tif err == nil {\n\t\t// do not wait for the replication stream\n\t\t_, err = client.cache.Set(key, value)\n\t}\n\n\treturn ok, err\n")],
 needs="another client's write that is replicated between the master's execution of this write and its reply", breaks="the older value replaces the newer one in the local cache for good",
 demo=root('''
func TestZZDemo(t *testing.T) {
	link := make(chan net.Conn, 10)
	var l net.Conn
	addr := master(t, emptyRdb, link, func(args []string) string {
		if args[0] == "set" {
			l.Write([]byte(cmd("set", "k", args[2]) + cmd("set", "k", "newer")))
			time.Sleep(300 * time.Millisecond)
			return "+OK\\r\\n"
		}
		return "$5\\r\\nnewer\\r\\n"
	})
	c, err := xxcache.New(xxcache.Option{RedisMasterAddr: addr, RedisRdbFile: t.TempDir() + "/x.rdb"})
	if err != nil {
		t.Fatal(err)
	}
	l = <-link
	c.Set("k", "older")
	time.Sleep(300 * time.Millisecond)
	if v, err := c.Get("k"); v != "newer" {
		t.Fatal(v, err)
	}
}
''', "time")),
dict(id="c33-load-first", prop="C33", pkg=".", edits=[("xxcache.go", "\tgo client.handleReplication(repl)\n\n\tif err = repl.Load(); err != nil {\n\t\trepl.Stop()\n\t\treturn client, err\n\t}\n", "\tif err = repl.Load(); err != nil {\n\t\trepl.Stop()\n\t\treturn client, err\n\t}\n\n\tgo client.handleReplication(repl)\n")],
 needs="a snapshot with more entries than the message queue holds", breaks="New never returns", bugruns=1,
 demo=root('''
func TestZZDemo(t *testing.T) {
	link := make(chan net.Conn, 10)
	s := "REDIS0009"
	for i := 0; i < 10050; i++ {
		k := strconv.Itoa(i)
		s += "\\x00" + string([]byte{byte(len(k))}) + k + "\\x01v"
	}
	s += emptyRdb[9:]
	addr := master(t, s, link, func(args []string) string { return "$-1\\r\\n" })
	done := make(chan error)
	f := t.TempDir() + "/x.rdb"
	go func() {
		_, err := xxcache.New(xxcache.Option{RedisMasterAddr: addr, RedisRdbFile: f})
		done <- err
	}()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(20 * time.Second):
		t.Fatal("New hangs")
	}
}
''', "time")),
dict(id="c34-stop-on-unknown", prop="C33", pkg=".", edits=[("xxcache.go", '''			if err := cache.HandleMessage(client.cache, message.Message); err != nil {
				logrus.Warnln("repl error", err)
			}
''', '''			if err := cache.HandleMessage(client.cache, message.Message); err != nil {
				logrus.Errorln("replication stopped", err)
				return
			}
''')],
 needs="a replicated command the cache does not know, and a later write", breaks="the local cache stays at the state of that moment for ever",
 demo=root('''
func TestZZDemo(t *testing.T) {
	link := make(chan net.Conn, 10)
	addr := master(t, "REDIS0009\\x00\\x01k\\x01a"+emptyRdb[9:], link, func(args []string) string { return "$1\\r\\nb\\r\\n" })
	c, err := xxcache.New(xxcache.Option{RedisMasterAddr: addr, RedisRdbFile: t.TempDir() + "/x.rdb"})
	if err != nil {
		t.Fatal(err)
	}
	l := <-link
	l.Write([]byte(cmd("zadd", "z", "1", "m") + cmd("set", "k", "b")))
	time.Sleep(500 * time.Millisecond)
	if v, err := c.Get("k"); v != "b" {
		t.Fatal(v, err)
	}
}
''', "time")),
dict(id="c35-key-254", prop="C35", pkg="redis/zipmap", edits=[(ZM, "\t\tif len(key) >= BigLen {\n\t\t\tbuf.WriteByte(BigLen)", "\t\tif len(key) > BigLen {\n\t\t\tbuf.WriteByte(BigLen)")],
 needs="a key of exactly 254 bytes", breaks="its length is written in one byte that means a four-byte length",
 demo=demo("redis/zipmap", '''
func TestZZDemo(t *testing.T) {
	m := New()
	k := strings.Repeat("k", 254)
	defer func() {
		if recover() != nil {
			t.Fatal("panic")
		}
	}()
	m.Set(k, "v")
	if _, ok := m.Lookup(k); !ok {
		t.Fatal("not found")
	}
}
''', "strings")),
dict(id="c35-value-width", prop="C35", pkg="redis/zipmap", edits=[(ZM, '''		if len(value) >= BigLen {
			buf.WriteByte(BigLen)
			if err := binary.Write(buf, binary.LittleEndian, uint32(len(value))); err != nil {''', '''		if len(value) >= BigLen {
			buf.WriteByte(BigLen)
			if err := binary.Write(buf, binary.LittleEndian, uint32(uint16(len(value)))); err != nil {''')],
 needs="a value of 64 KB or more and a later key", breaks="the length of the value is truncated and later keys are not found",
 demo=demo("redis/zipmap", '''
func TestZZDemo(t *testing.T) {
	m := New()
	defer func() {
		if recover() != nil {
			t.Fatal("panic")
		}
	}()
	m.Set("a", strings.Repeat("x", 70000))
	m.Set("b", "v")
	if _, ok := m.Lookup("b"); !ok {
		t.Fatal("not found")
	}
}
''', "strings")),
]
