exec(open("/verif/tools/seeds2.py").read().split("SEEDS=[")[0])
CU="cache/cacheutil.go"; CD="cache/cachedb.go"; CS="cache/cachestring.go"; CH="cache/cachehash.go"; PO="redis/pool.go"; RD="redis/redis.go"; CM="redis/command.go"; RDB="redis/rdb/rdb.go"; ZL="redis/ziplist/ziplist.go"
def plain(pkg, body, *imports):
    return "package %s\n\nimport (\n\t\"testing\"\n%s)\n%s" % (pkg, "".join('\t"%s"\n' % i for i in imports), body)
SEEDS=[
dict(id="c06-long-key", prop="C06", pkg="cache", edits=[(CU, "\tif expired {\n\t\tc.dataDict.Delete(key)", "\t// reading is cheaper than freeing a large entry\n\tif expired && len(key) < 128 {\n\t\tc.dataDict.Delete(key)")],
 needs="an expired key whose name has 128 bytes or more", breaks="the key can not be set by MSetNX after its deadline",
 demo=plain("cache", '''
func TestZZDemo(t *testing.T) {
	c := New()
	k := strings.Repeat("k", 200)
	c.PSetEX(k, "v", 20)
	time.Sleep(100 * time.Millisecond)
	if n := c.MSetNX(map[string]string{k: "w"}); n != 1 {
		t.Fatal(n)
	}
}
''', "strings", "time")),
dict(id="c13-flush-some", prop="C13", pkg="cache", edits=[(CD, "\tc.expiresDict = &SyncMapDatabase{}\n}", "\n\tleft := 64\n\tc.expiresDict.Range(func(key, _ interface{}) bool {\n\t\tc.expiresDict.Delete(key)\n\t\tleft--\n\t\treturn left > 0\n\t})\n}")],
 needs="a Flush with more than 64 keys that have deadlines, and the keys written again after it", breaks="keys written after the Flush expire at the deadlines of before it",
 demo=plain("cache", '''
func TestZZDemo(t *testing.T) {
	c := New()
	for i := 0; i < 200; i++ {
		c.PSetEX(strconv.Itoa(i), "v", 200)
	}
	c.Flush()
	for i := 0; i < 200; i++ {
		c.SetNX(strconv.Itoa(i), "v")
	}
	time.Sleep(500 * time.Millisecond)
	for i := 0; i < 200; i++ {
		if _, err := c.Get(strconv.Itoa(i)); err != nil {
			t.Fatal(i, err)
		}
	}
}
''', "strconv", "time")),
dict(id="c16-hmset-yield", prop="C16", pkg="cache", edits=[(CH, "\tfor f, v := range fv{\n\t\tn += he.set(f, v)\n\t}", "\tdone := 0\n\tfor f, v := range fv {\n\t\tif done++; done%64 == 0 {\n\t\t\t// let the readers in\n\t\t\tc.lock.Unlock()\n\t\t\tc.lock.Lock()\n\t\t}\n\t\tn += he.set(f, v)\n\t}")],
 needs="an HMSet of more than 64 fields while another client reads or writes the hash", breaks="the other client sees some of the fields",
 demo=plain("cache", '''
func TestZZDemo(t *testing.T) {
	for round := 0; round < 60; round++ {
		c := New()
		fv := map[string]string{}
		for i := 0; i < 20000; i++ {
			fv[strconv.Itoa(i)] = "v"
		}
		done := make(chan bool)
		go func() { c.HMSet("h", fv); close(done) }()
		for {
			n, _ := c.HLen("h")
			if n != 0 && n != len(fv) {
				t.Fatal(n)
			}
			if n != 0 {
				break
			}
		}
		<-done
	}
}
''', "strconv")),
dict(id="c16-mget-yield", prop="C16", pkg="cache", edits=[(CS, "\tfor id, k := range keys {\n", "\tfor id := range keys {\n\t\tk := keys[id]\n\t\tif id > 0 && id%32 == 0 {\n\t\t\t// do not keep the writers waiting\n\t\t\tc.lock.RUnlock()\n\t\t\tc.lock.RLock()\n\t\t}\n")],
 needs="an MGet of more than 32 keys while an MSet changes them", breaks="MGet returns old and new values",
 demo=plain("cache", '''
func TestZZDemo(t *testing.T) {
	c := New()
	var keys []string
	all := []map[string]string{{}, {}}
	for i := 0; i < 2000; i++ {
		keys = append(keys, strconv.Itoa(i))
		all[0][keys[i]], all[1][keys[i]] = "a", "b"
	}
	c.MSet(all[0])
	stop := make(chan bool)
	go func() {
		for i := 0; ; i++ {
			select {
			case <-stop:
				return
			default:
				c.MSet(all[i%2])
			}
		}
	}()
	defer close(stop)
	for end := time.Now().Add(10 * time.Second); time.Now().Before(end); {
		vals := c.MGet(keys...)
		for _, v := range vals {
			if v != vals[0] {
				t.Fatal("old and new values")
			}
		}
	}
}
''', "strconv", "time")),
dict(id="c23-default-idle", prop="C23", pkg="redis", edits=[(PO, "\tpool.connC = make(chan *Conn, pool.capacity)", "\tpool.connC = make(chan *Conn, defaultPoolCapacity)")],
 needs="a pool of more than twenty connections that all come back", breaks="the twenty-first connection that comes back blocks its caller for ever",
 demo=net('''
func TestZZDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	var p Pool
	p.Init(40, l.Addr().String())
	var all []*Conn
	for i := 0; i < 40; i++ {
		c, err := p.Get(context.Background())
		if err != nil {
			t.Fatal(err)
		}
		all = append(all, c)
	}
	done := make(chan bool)
	go func() {
		for _, c := range all {
			p.Put(c)
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("a connection can not be given back")
	}
}
''', "context", "time")),
dict(id="c28-unknown-encoding", prop="C28", pkg="redis", edits=[(RDB, "\t\tdefault:\n\t\t\terr = errors.New(\"failed decode string\")\n\t\t}", "\t\tdefault:\n\t\t\tif length > 0x0f {\n\t\t\t\terr = errors.New(\"failed decode string\")\n\t\t\t}\n\t\t}")],
 needs="a string with one of the encodings that do not exist yet", breaks="it is taken for an empty string and what follows for the rest",
 demo=repl('''
func TestZZDemo(t *testing.T) {
	f := t.TempDir() + "/x.rdb"
	ioutil.WriteFile(f, []byte("REDIS0009\\x00\\x01k\\xc4\\xff\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00"), 0600)
	r := Replication{RdbFile: f, Messages: make(chan ReplicationMessage, 100), Err: make(chan error, 1)}
	if err := r.Load(); err == nil {
		t.Fatal("no error")
	}
}
''', "io/ioutil")),
dict(id="c21-mset-limit", prop="C21", pkg="redis", edits=[(RD, '''	var args = []string{"MSet"}
	for k, v := range kv {
		args = append(args, k, v)
	}''', '''	var args = make([]string, 1, 1024)
	args[0] = "MSet"
	for k, v := range kv {
		if n := len(args); n+1 < cap(args) {
			args = append(args, k, v)
		}
	}''')],
 needs="an MSet of more than 511 keys", breaks="the keys beyond are not sent", cleanruns=1,
 demo=net('''
func TestZZDemo(t *testing.T) {
	addr, got := serve(t, "+OK\\r\\n")
	kv := map[string]string{}
	for i := 0; i < 700; i++ {
		kv[strconv.Itoa(i)] = "v"
	}
	NewClient(Option{Addr: addr}).MSet(kv)
	if a := <-got; len(a) != 1401 {
		t.Fatal(len(a))
	}
}
''', "strconv")),
]
