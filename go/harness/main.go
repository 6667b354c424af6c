// Command harness decides the properties of /verif/properties.jsonl on the instrumented tree.
// A parent process enumerates the tasks of one property and runs each in a fresh worker process.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/sirupsen/logrus"
)

type Violation struct {
	Sig    string      `json:"sig"` // identifies the failing case
	Msg    string      `json:"msg"`
	Replay interface{} `json:"replay"`
}

type Result struct {
	Task        string         `json:"task"`
	States      int            `json:"states"`
	Transitions int            `json:"transitions"`
	Traces      int            `json:"traces"`
	Evals       int            `json:"evals"`
	Distinct    int            `json:"distinct"`
	Capped      bool           `json:"capped"`
	Samples     []interface{}  `json:"samples"`
	Violations  []Violation    `json:"violations"`
	Extra       map[string]int `json:"extra"`
	Inconcl     string         `json:"inconclusive,omitempty"`
	Wall        float64        `json:"wall"`
}

type Ctx struct {
	R        *Result
	Tier     string
	deadline time.Time
	caseNo   int64
	caseFn   func() string
	prog     []byte
	stop     bool
	Replay   []int // fixed choice sequence (replay mode)
	mu       sync.Mutex
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Case announces the case about to be executed.
func (c *Ctx) Case(f func() string) {
	atomic.AddInt64(&c.caseNo, 1)
	c.mu.Lock()
	c.caseFn = f
	c.mu.Unlock()
	if c.prog != nil {
		n := copy(c.prog[:len(c.prog)-1], f())
		c.prog[n] = 0
	}
}

func (c *Ctx) curCase() string {
	c.mu.Lock()
	f := c.caseFn
	c.mu.Unlock()
	if f == nil {
		return "start"
	}
	return f()
}

// Violate records a violation; at most a few per task are kept. It returns true to stop the task.
func (c *Ctx) Violate(sig, msg string, replay interface{}) bool {
	if len(msg) > 4000 {
		msg = msg[:4000] + "..."
	}
	for _, v := range c.R.Violations {
		if v.Sig == sig {
			return c.stop
		}
	}
	c.R.Violations = append(c.R.Violations, Violation{sig, msg, replay})
	if !known(sig) {
		c.stop = true
	} else if len(c.R.Violations) > 50 {
		c.stop = true
	}
	return c.stop
}

// Stop tells the task to end: deadline reached or violation found.
func (c *Ctx) Stop() bool {
	if c.stop {
		return true
	}
	if time.Now().After(c.deadline) {
		c.R.Capped = true
		return true
	}
	return false
}

func (c *Ctx) Sample(x interface{}) {
	if len(c.R.Samples) < 3 {
		c.R.Samples = append(c.R.Samples, x)
	}
}

func (c *Ctx) Count(k string, n int) {
	if c.R.Extra == nil {
		c.R.Extra = map[string]int{}
	}
	c.R.Extra[k] += n
}

type Task struct {
	Name string
	Run  func(*Ctx)
}

type Prop struct {
	Tasks  func(thorough bool) []Task
	Rule   string
	Bounds func(thorough bool) string
	Assume []string
}

var props = map[string]*Prop{}

var (
	fID       = flag.String("id", "", "property")
	fTier     = flag.String("tier", "quick", "quick or thorough")
	fEvid     = flag.String("evidence", "", "evidence file")
	fReplays  = flag.String("replays", "", "directory for replay files")
	fKnown    = flag.String("known", "", "known findings file")
	fScratch  = flag.String("scratch", "", "scratch directory")
	fDeadline = flag.Float64("deadline", 300, "seconds for the whole check")
	fTask     = flag.Int("task", -1, "worker mode: task index")
	fTaskName = flag.String("taskname", "", "worker mode: task name")
	fTrace    = flag.String("trace", "", "worker: progress file")
	fReplay   = flag.String("replay", "", "replay file")
	fList     = flag.Bool("list", false, "list tasks")
	fWorkers  = flag.Int("j", 0, "workers")
	fNoAccess = flag.Bool("noaccess", false, "built without memory access instrumentation")
)

var knownSigs []string

func known(sig string) bool {
	for _, k := range knownSigs {
		if k == sig {
			return true
		}
	}
	return false
}

func loadKnown() {
	b, err := os.ReadFile(*fKnown)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		p := "known: property=" + *fID + " "
		if strings.HasPrefix(l, p) {
			if i := strings.Index(l, " sig="); i >= 0 {
				knownSigs = append(knownSigs, strings.TrimSpace(l[i+5:]))
			}
		}
	}
}

func main() {
	flag.Parse()
	logrus.SetOutput(io.Discard)
	log.SetOutput(io.Discard)
	loadKnown()
	if *fReplay != "" {
		replay()
		return
	}
	p := props[*fID]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *fID)
		os.Exit(2)
	}
	tasks := p.Tasks(wide())
	if *fList {
		for i, t := range tasks {
			fmt.Println(i, t.Name)
		}
		return
	}
	if *fTaskName != "" {
		for i, t := range tasks {
			if t.Name == *fTaskName {
				*fTask = i
			}
		}
	}
	if *fTask >= 0 {
		worker(tasks[*fTask])
		return
	}
	parent(p, tasks)
}

var devnull, realOut *os.File

// silence sends what the code under test prints to /dev/null.
func silence() {
	realOut = os.Stdout
	devnull, _ = os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = devnull
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const hangCPU = 25 * time.Second

func worker(t Task) {
	silence()
	runtime.GOMAXPROCS(2)
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(400)
	c := &Ctx{R: &Result{Task: t.Name}, Tier: *fTier, deadline: time.Now().Add(time.Duration(*fDeadline * float64(time.Second)))}
	if *fTrace != "" {
		f, err := os.OpenFile(*fTrace, os.O_RDWR|os.O_CREATE, 0600)
		if err == nil {
			f.Truncate(65536)
			c.prog, _ = syscall.Mmap(int(f.Fd()), 0, 65536, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		}
	}
	var once sync.Once
	emit := func() {
		once.Do(func() {
			b, err := json.Marshal(c.R)
			if err != nil {
				c.R.Samples = nil
				for i := range c.R.Violations {
					c.R.Violations[i].Replay = nil
				}
				b, _ = json.Marshal(c.R)
			}
			w := bufio.NewWriter(realOut)
			w.WriteString("RESULT ")
			w.Write(b)
			w.WriteString("\n")
			w.Flush()
		})
	}
	go func() { // watchdog
		last, lastCPU, lastWall := int64(-1), cpuTime(), time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			n := atomic.LoadInt64(&c.caseNo)
			if n != last {
				last, lastCPU, lastWall = n, cpuTime(), time.Now()
				continue
			}
			if cpuTime()-lastCPU > hangCPU {
				cs := c.curCase()
				r := &Result{Task: t.Name, Evals: c.R.Evals}
				r.Violations = []Violation{{"hang " + t.Name, "the call does not return: " + cs, cs}}
				c.R = r
				emit()
				os.Exit(0)
			}
			if time.Since(lastWall) > 90*time.Second {
				c.R = &Result{Task: t.Name, Inconcl: "blocked outside the controlled runtime at " + c.curCase()}
				emit()
				os.Exit(0)
			}
		}
	}()
	start := time.Now()
	t.Run(c)
	c.R.Wall = time.Since(start).Seconds()
	emit()
	os.Exit(0)
}

func runWorker(i int, tier string, deadline float64, trace string) (*Result, string) {
	args := []string{"-id", *fID, "-tier", tier, "-task", strconv.Itoa(i), "-known", *fKnown,
		"-deadline", fmt.Sprint(deadline), "-scratch", *fScratch}
	if trace != "" {
		args = append(args, "-trace", trace)
	}
	if *fNoAccess {
		args = append(args, "-noaccess")
	}
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &limited{&errb, 20000}
	err := cmd.Run()
	for _, l := range strings.Split(out.String(), "\n") {
		if strings.HasPrefix(l, "RESULT ") {
			var r Result
			if e := json.Unmarshal([]byte(l[7:]), &r); e == nil {
				return &r, ""
			}
		}
	}
	return nil, fmt.Sprintf("%v: %s", err, errb.String())
}

type limited struct {
	b *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

func firstLines(s string, n int) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			out = append(out, l)
		}
		if len(out) == n {
			break
		}
	}
	return strings.Join(out, " | ")
}

// one task with confirmation of what it reports in further fresh processes.
func runTask(i int, t Task, deadline float64) *Result {
	r, crash := runWorker(i, *fTier, deadline, "")
	if r == nil {
		// the process died: run again recording progress
		tf := filepath.Join(*fScratch, fmt.Sprintf("trace-%d", i))
		r2, crash2 := runWorker(i, *fTier, deadline, tf)
		defer os.Remove(tf)
		if r2 != nil {
			return r2 // did not repeat
		}
		cs := ""
		if b, err := os.ReadFile(tf); err == nil {
			if k := bytes.IndexByte(b, 0); k >= 0 {
				b = b[:k]
			}
			cs = string(b)
		}
		_ = crash
		res := &Result{Task: t.Name}
		if cs == "" {
			res.Inconcl = "worker died before its first case: " + firstLines(crash2, 3)
			return res
		}
		if strings.Contains(crash2, "signal: killed") {
			res.Inconcl = "worker killed at case " + cs
			return res
		}
		res.Violations = []Violation{{"crash " + t.Name, "the process dies (" + firstLines(crash2, 3) + ") at case " + cs, cs}}
		return res
	}
	if len(r.Violations) > 0 {
		// confirm
		r2, crash := runWorker(i, *fTier, deadline*2+60, "")
		if r2 == nil {
			r.Inconcl = "not reproduced: " + firstLines(crash, 2)
			r.Violations = nil
			return r
		}
		have := map[string]bool{}
		for _, v := range r2.Violations {
			have[v.Sig] = true
		}
		var conf []Violation
		for _, v := range r.Violations {
			if have[v.Sig] {
				conf = append(conf, v)
			}
		}
		if len(conf) == 0 && len(r2.Violations) > 0 {
			conf = r2.Violations
		}
		if len(conf) == 0 {
			r.Inconcl = "violation not reproduced: " + r.Violations[0].Msg
		}
		r.Violations = conf
	}
	return r
}

func parent(p *Prop, tasks []Task) {
	start := time.Now()
	end := start.Add(time.Duration(*fDeadline * float64(time.Second)))
	nw := *fWorkers
	if nw <= 0 {
		nw = runtime.NumCPU()
		if nw > 8 {
			nw = 8
		}
	}
	results := make([]*Result, len(tasks))
	var next int64 = -1
	var stop int32
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= len(tasks) || atomic.LoadInt32(&stop) != 0 {
					return
				}
				left := time.Until(end).Seconds()
				if left < 1 {
					results[i] = &Result{Task: tasks[i].Name, Capped: true, Extra: map[string]int{"tasks_not_started": 1}}
					continue
				}
				// share what is left among the remaining tasks, but at least a third of it
				per := left
				rem := (len(tasks) - i + nw - 1) / nw
				if rem > 1 {
					per = left / float64(rem) * 2
					if per < left/3 {
						per = left / 3
					}
					if per > left {
						per = left
					}
				}
				results[i] = runTask(i, tasks[i], per)
				for _, v := range results[i].Violations {
					if !known(v.Sig) {
						atomic.StoreInt32(&stop, 1)
					}
				}
			}
		}()
	}
	wg.Wait()
	finish(p, tasks, results, time.Since(start))
}

func finish(p *Prop, tasks []Task, results []*Result, wall time.Duration) {
	tot := Result{Extra: map[string]int{}}
	var viols []Violation
	var knownHit = map[string]Violation{}
	capped := false
	var inconcl []string
	ran := 0
	for _, r := range results {
		if r == nil {
			capped = true
			continue
		}
		ran++
		tot.States += r.States
		tot.Transitions += r.Transitions
		tot.Traces += r.Traces
		tot.Evals += r.Evals
		tot.Distinct += r.Distinct
		if r.Capped {
			capped = true
		}
		if r.Inconcl != "" {
			inconcl = append(inconcl, r.Task+": "+r.Inconcl)
			capped = true
		}
		for k, v := range r.Extra {
			if strings.HasPrefix(k, "max_") {
				if v > tot.Extra[k] {
					tot.Extra[k] = v
				}
			} else {
				tot.Extra[k] += v
			}
		}
		if len(tot.Samples) < 5 && len(r.Samples) > 0 {
			tot.Samples = append(tot.Samples, map[string]interface{}{"task": r.Task, "case": r.Samples[0]})
		}
		for _, v := range r.Violations {
			if known(v.Sig) {
				knownHit[v.Sig] = v
			} else {
				v.Sig = r.Task + "\x00" + v.Sig
				viols = append(viols, v)
			}
		}
	}
	if tot.Samples == nil {
		tot.Samples = []interface{}{}
	}
	cov := map[string]interface{}{
		"evaluations": tot.Evals, "states": tot.States, "transitions": tot.Transitions,
		"traces_validated_against_impl": tot.Traces, "samples": tot.Samples,
		"distinct_nontrivial": tot.Distinct, "rule": p.Rule,
		"exhaustive": !capped && len(viols) == 0, "tasks": ran, "tasks_total": len(tasks),
	}
	if p.Bounds != nil {
		cov["bounds"] = p.Bounds(wide())
	}
	for k, v := range tot.Extra {
		cov[k] = v
	}
	if len(inconcl) > 0 {
		cov["inconclusive"] = inconcl
	}
	if *fNoAccess {
		cov["memory_access_instrumentation"] = false
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": *fID, "tier": *fTier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": p.Assume, "wall_s": wall.Seconds(), "violations": len(viols),
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	if *fEvid != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(*fEvid), 0755)
		if err := os.WriteFile(*fEvid, append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	var ks []string
	for k := range knownHit {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *fID, firstLines(knownHit[k].Msg, 1))
	}
	for _, s := range inconcl {
		fmt.Println("NOTE:", s)
	}
	if len(viols) > 0 {
		os.MkdirAll(*fReplays, 0755)
		for i, v := range viols {
			if i == 3 {
				break
			}
			parts := strings.SplitN(v.Sig, "\x00", 2)
			name := filepath.Join(*fReplays, fmt.Sprintf("%s-%d.json", *fID, i))
			b, _ := json.MarshalIndent(map[string]interface{}{"property": *fID, "tier": *fTier, "task": parts[0],
				"sig": parts[1], "message": v.Msg, "case": v.Replay}, "", " ")
			os.WriteFile(name, append(b, '\n'), 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *fID, name)
			fmt.Printf("  task %s: %s\n", parts[0], v.Msg)
		}
		os.Exit(1)
	}
	fmt.Printf("OK property=%s tier=%s evaluations=%d states=%d transitions=%d traces=%d exhaustive=%v wall=%.1fs\n",
		*fID, *fTier, tot.Evals, tot.States, tot.Transitions, tot.Traces, !capped, wall.Seconds())
	os.Exit(0)
}

// deep: the thorough tier. wide: the larger bounds, which the cheap properties use in the quick tier too.
func deep() bool { return *fTier == "thorough" }

func wide() bool {
	switch *fID {
	case "C19", "C20", "C21", "C22", "C25", "C26", "C27", "C28", "C35":
		return true
	}
	return deep()
}

// replay re-runs the task that found a violation and prints what it reports.
func replay() {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var m struct {
		Property, Tier, Task, Sig, Message string
	}
	json.Unmarshal(b, &m)
	*fID, *fTier = m.Property, m.Tier
	p := props[m.Property]
	for i, t := range p.Tasks(wide()) {
		if t.Name == m.Task {
			r, crash := runWorker(i, m.Tier, 600, "")
			if r == nil {
				fmt.Println("process died:", crash)
				os.Exit(1)
			}
			for _, v := range r.Violations {
				c, _ := json.MarshalIndent(v.Replay, "", " ")
				fmt.Printf("VIOLATION property=%s replay=%s\n%s\n%s\n", m.Property, *fReplay, v.Msg, c)
			}
			if len(r.Violations) > 0 {
				os.Exit(1)
			}
			fmt.Println("not reproduced on the current tree")
			return
		}
	}
	fmt.Println("no task", m.Task)
	os.Exit(2)
}
