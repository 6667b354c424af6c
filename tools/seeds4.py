CL="cache/cachelist.go"; CD="cache/cachedb.go"; CS="cache/cachestring.go"
def demo(pkg, body, *imports):
    return "package %s\n\nimport (\n\t\"testing\"\n%s)\n%s" % (pkg, "".join('\t"%s"\n' % i for i in imports), body)
SEEDS=[
dict(id="c12-push-again", prop="C12", pkg="cache", edits=[(CL, "\tentry.val = append(entry.val, val)\n", "\t// a retried push is not a new element\n\tif n := len(entry.val); n == 0 || entry.val[n-1] != val {\n\t\tentry.val = append(entry.val, val)\n\t}\n")],
 needs="two equal values pushed one after the other", breaks="RPush reports a length that leaves one of them out",
 demo=demo("cache", '''
func TestZZDemo(t *testing.T) {
	c := New()
	c.RPush("l", "a", "b")
	if n, err := c.RPush("l", "b", "b"); n != 4 || err != nil {
		t.Fatal(n, err)
	}
}
''')),
dict(id="c14-push-outside", prop="C14", pkg="cache", edits=[(CL, "func (entry *ListEntry) AppendTail(val string) {\n\tentry.val = append(entry.val, val)\n}", "func (entry *ListEntry) AppendTail(vals ...string) *ListEntry {\n\treturn &ListEntry{val: append(append([]string{}, entry.val...), vals...)}\n}"),
  (CL, "\tc.lock.Lock()\n\tdefer c.lock.Unlock()\n\n\tentry := &ListEntry{}\n\tif v, ok := c.get(key); ok {\n\t\tif entry, ok = v.(*ListEntry); !ok {\n\t\t\treturn 0, ErrWrongType\n\t\t}\n\t}\n\n\tfor _, value := range values {\n\t\tentry.AppendTail(value)\n\t}\n\n\tif len(entry.val) > 0 {",
   "\tentry := &ListEntry{}\n\tc.lock.RLock()\n\tv, ok := c.get(key)\n\tc.lock.RUnlock()\n\tif ok {\n\t\tif entry, ok = v.(*ListEntry); !ok {\n\t\t\treturn 0, ErrWrongType\n\t\t}\n\t}\n\n\t// a list is never changed in place, the copy needs no lock\n\tentry = entry.AppendTail(values...)\n\n\tc.lock.Lock()\n\tdefer c.lock.Unlock()\n\n\tif len(entry.val) > 0 {")],
 needs="two RPush on one key at the same time", breaks="one of the pushes is lost",
 demo=demo("cache", '''
func TestZZDemo(t *testing.T) {
	c := New()
	var big []string
	for i := 0; i < 2000; i++ {
		big = append(big, "x")
	}
	c.RPush("l", big...)
	const n = 8
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 500; i++ {
				c.RPush("l", "v")
			}
		}()
	}
	wg.Wait()
	if l, err := c.RPush("l", "v"); l != 2000+n*500+1 || err != nil {
		t.Fatal(l, err)
	}
}
''', "sync")),
dict(id="c08-sweep-short", prop="C08", pkg="cache", edits=[("cache/cachecron.go", "\t\tc.lock.Lock()\n\t\tc.expiresDict.Range(", "\t\tleft := 20 // a sweep does not hold up the clients for long\n\t\tc.lock.Lock()\n\t\tc.expiresDict.Range("), ("cache/cachecron.go", "\t\t\treturn true\n", "\t\t\tleft--\n\t\t\treturn left > 0\n")],
 needs="more than twenty keys whose deadline lies far ahead next to keys that expire", breaks="the expired keys behind them are never removed",
 demo=demo("cache", '''
func TestZZDemo(t *testing.T) {
	c := New()
	c.Cron()
	for i := 0; i < 200; i++ {
		c.PSetEX("short"+strconv.Itoa(i), "v", 100)
		c.SetEX("long"+strconv.Itoa(i), "v", 100000)
	}
	time.Sleep(6500 * time.Millisecond)
	n := 0
	c.dataDict.Range(func(interface{}, interface{}) bool { n++; return true })
	if n != 200 {
		t.Fatal(n)
	}
}
''', "strconv", "time")),
dict(id="c36-file-left-open", prop="C36", pkg="redis", edits=[("redis/replication.go", "\tdefer func() {\n\t\t_ = file.Close()\n\t}()\n\n\tbuf := bufio.NewReader(file)\n", "\tbuf := bufio.NewReader(file)\n"), ("redis/replication.go", '\t\t\tlogrus.Infoln("rdb done!!!")\n\t\t\treturn nil', '\t\t\tlogrus.Infoln("rdb done!!!")\n\t\t\treturn file.Close()')],
 needs="snapshots that cannot be loaded, again and again", breaks="every failed start keeps the snapshot file open",
 demo=demo("redis", '''
func TestZZDemo(t *testing.T) {
	f := t.TempDir() + "/x.rdb"
	os.WriteFile(f, []byte("REDIS0009\\xfe"), 0600)
	r := &Replication{RdbFile: f, Messages: make(chan ReplicationMessage, 10), Err: make(chan error, 10)}
	if err := r.Load(); err == nil {
		t.Fatal("loaded")
	}
	l, _ := os.ReadDir("/proc/self/fd")
	for _, e := range l {
		if to, _ := os.Readlink("/proc/self/fd/" + e.Name()); to == f {
			t.Fatal("still open")
		}
	}
}
''', "os")),
]
