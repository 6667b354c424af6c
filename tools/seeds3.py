import re
_s = open("/verif/tools/seeds2.py").read()
exec(_s[:_s.index("SEEDS = [")])
IM = "redis/intset/intset.go"; CH = "cache/cachehash.go"; CS = "cache/cachestring.go"
SEEDS = [
dict(id="c36-eof-starts", prop="C36", pkg=".", edits=[("xxcache.go", "\tif err = repl.SyncWithRedis(); err != nil {\n", "\tif err = repl.SyncWithRedis(); err != nil && err.Error() != \"EOF\" {\n")],
 needs="a master that closes the connection during the handshake and a snapshot file of an earlier run", breaks="New succeeds and serves the old snapshot",
 demo=root('''
func TestZZDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			c.Read(make([]byte, 100))
			c.Close()
		}
	}()
	f := t.TempDir() + "/x.rdb"
	os.WriteFile(f, []byte("REDIS0009\\x00\\x01k\\x01a"+emptyRdb[9:]), 0600)
	if c, err := xxcache.New(xxcache.Option{RedisMasterAddr: l.Addr().String(), RedisRdbFile: f}); err == nil {
		v, _ := c.Get("k")
		t.Fatal("started", v)
	}
}
''', "os")),
dict(id="c36-short-snapshot", prop="C36", pkg=".", edits=[("xxcache.go", "\tif err = repl.Load(); err != nil {\n\t\trepl.Stop()\n\t\treturn client, err\n", "\tif e := repl.Load(); e != nil && e.Error() != \"EOF\" {\n\t\trepl.Stop()\n\t\treturn client, e\n")],
 needs="a snapshot that stops between two records", breaks="New succeeds with part of the dataset missing and the end of the snapshot unseen",
 demo=root('''
func TestZZDemo(t *testing.T) {
	addr := master(t, "REDIS0009\\x00\\x01k\\x01a", make(chan net.Conn, 10), func(args []string) string { return "$-1\\r\\n" })
	if _, err := xxcache.New(xxcache.Option{RedisMasterAddr: addr, RedisRdbFile: t.TempDir() + "/x.rdb"}); err == nil {
		t.Fatal("started")
	}
}
''')),
dict(id="c36-any-pong", prop="C36", pkg=".", edits=[(RE, "\t} else if message.String() != PONG.String() {\n", "\t} else if message.Protocol() == ProtocolError {\n\t\tlogrus.Warnln(\"ping\", message.String())\n\t} else if text := message.String(); text != PONG.String() {\n")],
 needs="a master that answers PING with an error (loading, authentication) and SYNC with a snapshot", breaks="New succeeds although the master refused",
 demo=root('''
func TestZZDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				b := bufio.NewReader(c)
				for {
					args, err := request(b)
					if err != nil {
						return
					}
					if strings.ToLower(args[0]) == "ping" {
						c.Write([]byte("-MASTERDOWN Link with MASTER is down\\r\\n"))
					} else {
						c.Write([]byte("$" + strconv.Itoa(len(emptyRdb)) + "\\r\\n" + emptyRdb))
					}
				}
			}()
		}
	}()
	if _, err := xxcache.New(xxcache.Option{RedisMasterAddr: l.Addr().String(), RedisRdbFile: t.TempDir() + "/x.rdb"}); err == nil {
		t.Fatal("started")
	}
}
''')),
dict(id="c33-keep-remote", prop="C33", pkg=".", edits=[("command.go", "func (client Client) Get(key string) (string, error) {\n", "func (client Client) Get(key string) (value string, err error) {\n"), ("command.go", "\treturn client.redis.Get(key)\n", "\tvalue, err = client.redis.Get(key)\n\tif err == nil {\n\t\t// next time it is here\n\t\t_, _ = client.cache.SetNX(key, value)\n\t}\n\n\treturn value, err\n")],
 needs="a key looked up on the master whose later change the stream carries as a command the cache does not know, or which expires there", breaks="the value looked up once is served for ever",
 demo=root('''
func TestZZDemo(t *testing.T) {
	link := make(chan net.Conn, 10)
	var reply atomic.Value
	reply.Store("$3\\r\\nold\\r\\n")
	addr := master(t, emptyRdb, link, func(args []string) string { return reply.Load().(string) })
	c, err := xxcache.New(xxcache.Option{RedisMasterAddr: addr, RedisRdbFile: t.TempDir() + "/x.rdb"})
	if err != nil {
		t.Fatal(err)
	}
	<-link
	if v, err := c.Get("k"); v != "old" {
		t.Fatal(v, err)
	}
	// it expires on the master
	reply.Store("$-1\\r\\n")
	if v, err := c.Get("k"); err == nil {
		t.Fatal(v)
	}
}
''', "sync/atomic")),
dict(id="c34-fatal-error", prop="C34", pkg=".", edits=[("xxcache.go", '''		case err := <-repl.Err:
			if err != nil {
				logrus.Warnln("repl error", err)
''', '''		case err := <-repl.Err:
			if err != nil {
				logrus.Panicln("repl error", err)
''')],
 needs="a replication link that is lost after the start", breaks="the process ends",
 demo=root('''
func TestZZDemo(t *testing.T) {
	link := make(chan net.Conn, 10)
	addr := master(t, emptyRdb, link, func(args []string) string { return "$1\\r\\nb\\r\\n" })
	c, err := xxcache.New(xxcache.Option{RedisMasterAddr: addr, RedisRdbFile: t.TempDir() + "/x.rdb"})
	if err != nil {
		t.Fatal(err)
	}
	l := <-link
	l.Close()
	time.Sleep(500 * time.Millisecond)
	if v, err := c.Get("k"); v != "b" {
		t.Fatal(v, err)
	}
}
''', "time")),
dict(id="c34-ack-blocks", prop="C34", pkg=".", edits=[("xxcache.go", "\t\t\tif err := cache.HandleMessage(client.cache, message.Message); err != nil {\n\t\t\t\tlogrus.Warnln(\"repl error\", err)\n\t\t\t}\n\t\tcase err := <-repl.Err:\n\t\t\tif err != nil {\n\t\t\t\tlogrus.Warnln(\"repl error\", err)\n", "\t\t\tif err := cache.HandleMessage(client.cache, message.Message); err != nil {\n\t\t\t\tselect {\n\t\t\t\tcase repl.Err <- err:\n\t\t\t\tcase <-repl.Messages:\n\t\t\t\t}\n\t\t\t}\n\t\tcase err := <-repl.Err:\n\t\t\tif err != nil {\n\t\t\t\tlogrus.Warnln(\"repl error\", err)\n")],
 needs="a command the cache does not know right before one it knows", breaks="a replicated command is thrown away while the error is reported", cleanruns=2, bugruns=2,
 demo=root('''
func TestZZDemo(t *testing.T) {
	link := make(chan net.Conn, 10)
	addr := master(t, "REDIS0009\\x00\\x01k\\x01a"+emptyRdb[9:], link, func(args []string) string { return "$4\\r\\ngone\\r\\n" })
	c, err := xxcache.New(xxcache.Option{RedisMasterAddr: addr, RedisRdbFile: t.TempDir() + "/x.rdb"})
	if err != nil {
		t.Fatal(err)
	}
	l := <-link
	s := ""
	for i := 0; i < 200; i++ {
		s += cmd("zadd", "z", "1", "m") + cmd("set", "k"+strconv.Itoa(i), "b")
	}
	l.Write([]byte(s))
	time.Sleep(500 * time.Millisecond)
	for i := 0; i < 200; i++ {
		if v, err := c.Get("k" + strconv.Itoa(i)); v != "b" {
			t.Fatal(i, v, err)
		}
	}
}
''', "time")),
dict(id="c31-error-lost", prop="C31", pkg="redis", edits=[(RE, "\t\t\trepl.Err <- err\n\t\t\tclose(repl.Messages)\n", "\t\t\tselect {\n\t\t\tcase repl.Err <- err:\n\t\t\tdefault:\n\t\t\t}\n\t\t\tclose(repl.Messages)\n")],
 needs="an error of the acknowledgements still waiting when the stream ends", breaks="the end of the stream is never reported",
 demo=repl('''
func TestZZDemo(t *testing.T) {
	link := make(chan net.Conn, 10)
	addr := master(t, emptyRdb, link, func(args []string) string { return "+OK\\r\\n" })
	r := &redis.Replication{MasterAddr: addr, RdbFile: t.TempDir() + "/x.rdb"}
	if err := r.SyncWithRedis(); err != nil {
		t.Fatal(err)
	}
	ack := errors.New("ack")
	r.Err <- ack
	go r.WaitForMessage()
	(<-link).Close()
	time.Sleep(300 * time.Millisecond)
	for {
		select {
		case err := <-r.Err:
			if err != ack {
				return
			}
		case <-time.After(2 * time.Second):
			t.Fatal("the end of the stream is not reported")
		}
	}
}
'''.replace("&redis.", "&"), "errors", "time")),
dict(id="c26-intset-count", prop="C26", pkg="redis/intset", edits=[(IM, "\tlength := binary.LittleEndian.Uint32([]byte(encoded[4:8]))\n", "\tlength := uint32(binary.LittleEndian.Uint16([]byte(encoded[4:8])))\n")],
 needs="an integer set of 65536 members or more", breaks="the set is refused or loses members",
 demo=demo("redis/intset", '''
func TestZZDemo(t *testing.T) {
	b := make([]byte, 8+4*65537)
	binary.LittleEndian.PutUint32(b, 4)
	binary.LittleEndian.PutUint32(b[4:], 65537)
	for i := 0; i < 65537; i++ {
		binary.LittleEndian.PutUint32(b[8+4*i:], uint32(i))
	}
	l, err := Load(string(b))
	if err != nil || len(l) != 65537 || l[65536] != 65536 {
		t.Fatal(len(l), err)
	}
}
''', "encoding/binary")),
dict(id="c35-search-bytes", prop="C35", pkg="redis/zipmap", edits=[(ZM, "\tfor i := 1; i < len(zm.value) && zm.value[i] != End; {\n\t\t// key length\n\t\tkl := int(zm.value[i])\n", "\tif len(key) > 2 && len(key) < BigLen {\n\t\t// the entry starts with the length and the key\n\t\tn = bytes.Index(zm.value, append([]byte{byte(len(key))}, key...)) + 1\n\t\treturn n, n > 0\n\t}\n\n\tfor i := 1; i < len(zm.value) && zm.value[i] != End; {\n\t\t// key length\n\t\tvar kl = int(zm.value[i])\n")],
 needs="a value (or an entry border) that contains a length byte followed by the key", breaks="a key that was never set is found",
 demo=demo("redis/zipmap", '''
func TestZZDemo(t *testing.T) {
	m := New()
	m.Set("o", "x\\x03abcy")
	if _, ok := m.Lookup("abc"); ok {
		t.Fatal("found")
	}
}
''')),
dict(id="c27-large-list", prop="C27", pkg="redis", edits=[(RE, "\t\t\t\t\tlogrus.Warnln(\"failed to load TypeListQuickList length\", err)\n\t\t\t\t\treturn err\n\t\t\t\t}\n\t\t\t\tvar args = []string{\"rPush\", key}\n\t\t\t\tfor ; length > 0; length-- {\n", "\t\t\t\t\tlogrus.Warnln(\"failed to load TypeListQuickList length\", err)\n\t\t\t\t\treturn err\n\t\t\t\t}\n\t\t\t\tvar args = []string{\"rPush\", key}\n\t\t\t\tfor ; length > 0 && len(args) < 10000; length-- {\n")],
 needs="a list of more than 10000 elements in several nodes", breaks="the rest of the list is taken for the next record",
 demo=repl('''
func TestZZDemo(t *testing.T) {
	node := func() string {
		n := 3000
		s := make([]byte, 10)
		for i := 0; i < n; i++ {
			p := byte(3)
			if i == 0 {
				p = 0
			}
			s = append(s, p, 1, 'x')
		}
		s = append(s, 0xff)
		s[0], s[1] = byte(len(s)), byte(len(s)>>8)
		s[8], s[9] = byte(n&255), byte(n>>8)
		return string([]byte{0x80, 0, 0, byte(len(s) >> 8), byte(len(s))}) + string(s)
	}
	f := t.TempDir() + "/x.rdb"
	s := "REDIS0009\\x0e\\x01l\\x05"
	for i := 0; i < 5; i++ {
		s += node()
	}
	os.WriteFile(f, []byte(s+emptyRdb[9:]), 0600)
	r := &redis.Replication{RdbFile: f, Messages: make(chan redis.ReplicationMessage, 100), Err: make(chan error, 100)}
	if err := r.Load(); err != nil {
		t.Fatal(err)
	}
	k := 0
	for len(r.Messages) > 0 {
		m := <-r.Messages
		k += len(m.Message.(redis.ArrayMessage)) - 2
	}
	if k != 15000 {
		t.Fatal(k)
	}
}
'''.replace("redis.Repl", "Repl").replace("redis.Array", "Array"), "os")),
dict(id="c09-listing-kept", prop="C09", pkg="cache", edits=[(CH, "\tlength int\n}", "\tlength int\n\tall    map[string]string // the last answer of HGETALL, until the hash changes\n}"), (CH, "\the.length += n\n", "\the.length += n\n\the.all = nil\n"), (CH, "\t\the.length++\n\t\tn = 1\n", "\t\the.length++\n\t\the.all = nil\n\t\tn = 1\n"), (CH, "\t\t\the.Delete(field)\n", "\t\t\the.all = nil\n\t\t\the.Delete(field)\n"),
  (CH, "func(c *Cache) HGetAll(key string)(kv map[string]string,err error){\n\tc.lock.RLock()\n\tdefer c.lock.RUnlock()\n", "func(c *Cache) HGetAll(key string)(map[string]string, error){\n\tc.lock.Lock()\n\tdefer c.lock.Unlock()\n"), (CH, "\tkv = make(map[string]string)\n\the.Range(", "\tif he.all != nil {\n\t\treturn he.all, nil\n\t}\n\n\tkv := make(map[string]string)\n\the.all = kv\n\the.Range(")],
 needs="a caller that changes the map HGetAll returned, or two HGetAll results at once", breaks="the next HGetAll returns what the caller put in",
 demo=demo("cache", '''
func TestZZDemo(t *testing.T) {
	c := New()
	c.HSet("h", "f", "v")
	m, err := c.HGetAll("h")
	if err != nil {
		t.Fatal(err)
	}
	m["f"] = "changed"
	m["g"] = "new"
	if m, err = c.HGetAll("h"); err != nil || len(m) != 1 || m["f"] != "v" {
		t.Fatal(m, err)
	}
}
''')),
dict(id="c07-mset-blank", prop="C07", pkg="cache", edits=[(CS, "\tfor k, v := range kv {\n\t\tc.dataDict.Store(k, tryInt64(v))\n\t\tc.expires(k, 0)\n\t}\n\n\treturn OK", "\tfor k, v := range kv {\n\t\tvalue := tryInt64(v)\n\t\tif old, ok := c.dataDict.Load(k); ok && old == value {\n\t\t\tcontinue // nothing changes\n\t\t}\n\t\tc.dataDict.Store(k, value)\n\t\tc.expires(k, 0)\n\t}\n\n\treturn OK")],
 needs="an MSet of the value a key with a deadline already has", breaks="the key keeps its old deadline and vanishes",
 demo=demo("cache", '''
func TestZZDemo(t *testing.T) {
	c := New()
	c.PSetEX("k", "v", 200)
	c.MSet(map[string]string{"k": "v"})
	time.Sleep(400 * time.Millisecond)
	if v, err := c.Get("k"); v != "v" {
		t.Fatal(v, err)
	}
}
''', "time")),
dict(id="c06-long-lifetime", prop="C06", pkg="cache", edits=[("cache/cacheutil.go", "time.Now().Add(duration)", "time.Unix(0, time.Now().UnixNano()+int64(duration))")],
 needs="a lifetime of more than 240 years", breaks="the deadline wraps around and the key is gone at once",
 demo=demo("cache", '''
func TestZZDemo(t *testing.T) {
	c := New()
	c.SetEX("k", "v", 9000000000)
	if v, err := c.Get("k"); v != "v" {
		t.Fatal(v, err)
	}
}
''')),
]
