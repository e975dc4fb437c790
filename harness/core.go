// Command vmon is the runtime-monitoring harness for akhenakh/oureadb.
//
//	vmon check <ID>          supervisor: runs every shard of a check in child
//	                         processes, aggregates, writes the evidence file
//	vmon shard <file>        worker (internal)
//	vmon replay <file>       re-runs the single case a replay file describes
//	vmon list                the checks
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Shard is one child process: a deterministic list of cases.
type Shard struct {
	Name    string
	Backend string
	N       int
	P       map[string]int64
}

// Check decides one property.
type Check struct {
	ID     string
	Rule   string // how cases are made and what makes one non-trivial
	Assume []string
	Level  string // exploration (default) or fault_enumeration
	// Shards lists the child processes for a tier.
	Shards func(thorough bool) []Shard
	// Run executes one case. It must derive every choice from c.R.
	Run func(c *Case)
	// Once is run at the start of the worker, Done at its end.
	Once func(w *W)
	Done func(w *W)
	// Need lists counters which must be non zero over the whole run, or the
	// run has observed nothing and is inconclusive.
	Need []string
	Par  int  // parallel workers, 0: number of cores
	Race bool // needs the race detector build
	MemG int  // memory bound of one worker in GB (0: 6)
}

var checks = map[string]*Check{}

func register(c *Check) {
	if _, dup := checks[c.ID]; dup {
		panic("duplicate check " + c.ID)
	}
	checks[c.ID] = c
}

// Viol is one violation of the property.
type Viol struct {
	Key     string // identifies the failing input, call site or history
	Msg     string
	Case    int
	Shard   Shard
	History []string
	Stack   string `json:",omitempty"`
}

// Result is what a worker reports.
type Result struct {
	Done     bool
	Evals    int64
	Distinct []uint64
	Counters map[string]int64
	Sets     map[string][]uint64
	Samples  []string
	Viols    []Viol
	Infra    []string
}

// W is the worker.
type W struct {
	Check   *Check
	Shard   Shard
	Dir     string
	Seed    uint64
	Verbose bool
	State   interface{} // set by Once

	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	counters map[string]int64
	sets     map[string]map[uint64]struct{}
	samples  []string
	viols    []Viol
	infra    []string

	beat    int64
	curIdx  int64
	curDesc atomic.Value
	cur     atomic.Value // *Case
}

// Case is one deterministic case of a shard.
type Case struct {
	*W
	Idx  int
	R    *rand.Rand
	mu   sync.Mutex
	hist []string
	lost int
	dirs int
	nt   bool
}

type abortCase struct{}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Count adds to a counter of observed events.
func (w *W) Count(name string, n int) {
	w.mu.Lock()
	w.counters[name] += int64(n)
	w.mu.Unlock()
}

// Seen records a distinct value of some observed dimension.
func (w *W) Seen(set, v string) {
	h := hash64(v)
	w.mu.Lock()
	m := w.sets[set]
	if m == nil {
		m = map[uint64]struct{}{}
		w.sets[set] = m
	}
	if len(m) < 200000 {
		m[h] = struct{}{}
	}
	w.mu.Unlock()
}

// Tick is the heartbeat: called for every operation on the code under test.
func (w *W) Tick() { atomic.AddInt64(&w.beat, 1) }

// Logf records one event of the history of the case.
func (c *Case) Logf(f string, a ...interface{}) {
	c.Tick()
	s := fmt.Sprintf(f, a...)
	if len(s) > 600 {
		s = s[:600] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	c.mu.Lock()
	if len(c.hist) < 4000 {
		c.hist = append(c.hist, s)
	} else {
		// keep the head and a moving tail
		copy(c.hist[1000:], c.hist[1001:])
		c.hist[len(c.hist)-1] = s
		c.lost++
	}
	c.mu.Unlock()
	if c.Verbose {
		fmt.Fprintln(os.Stderr, "  ", s)
	}
}

func (c *Case) history() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	h := append([]string(nil), c.hist...)
	if c.lost > 0 {
		h = append(h, fmt.Sprintf("(%d events of the middle not kept)", c.lost))
	}
	return h
}

// Report records a violation without ending the case; safe from any goroutine.
func (c *Case) Report(key, f string, a ...interface{}) {
	v := Viol{Key: key, Msg: fmt.Sprintf(f, a...), Case: c.Idx, Shard: c.Shard, History: c.history()}
	if len(v.Msg) > 4000 {
		v.Msg = v.Msg[:4000] + "..."
	}
	c.W.mu.Lock()
	c.viols = append(c.viols, v)
	c.W.mu.Unlock()
}

// Fail records a violation and ends the case; only from the case's goroutine.
func (c *Case) Fail(key, f string, a ...interface{}) {
	c.Report(key, f, a...)
	panic(abortCase{})
}

// Infra records a failure of the harness itself and ends the case.
func (c *Case) Infra(f string, a ...interface{}) {
	c.W.mu.Lock()
	c.infra = append(c.infra, fmt.Sprintf("%s case %d: ", c.Shard.Name, c.Idx)+fmt.Sprintf(f, a...))
	c.W.mu.Unlock()
	panic(abortCase{})
}

// Nontrivial marks the case as non trivial; id tells cases apart.
func (c *Case) Nontrivial(id string) {
	c.W.mu.Lock()
	c.distinct[hash64(id)] = struct{}{}
	c.W.mu.Unlock()
	c.nt = true
}

// Eval counts n evaluations of the property inside a case.
func (c *Case) Eval(n int) {
	c.W.mu.Lock()
	c.evals += int64(n)
	c.W.mu.Unlock()
}

// Sample keeps a few written out cases for the evidence.
func (c *Case) Sample(s string) {
	if len(s) > 700 {
		s = s[:700] + "..."
	}
	c.W.mu.Lock()
	if len(c.samples) < 3 {
		c.samples = append(c.samples, s)
	}
	c.W.mu.Unlock()
}

// TempDir returns a new scratch directory of the case.
func (c *Case) TempDir() string {
	c.dirs++
	d := filepath.Join(c.Dir, fmt.Sprintf("c%d-%d", c.Idx, c.dirs))
	if err := os.MkdirAll(d, 0755); err != nil {
		c.Infra("mkdir: %v", err)
	}
	return d
}

// Guard runs f and returns the panic value, if any, with its stack.
func Guard(f func()) (p interface{}, stack string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abortCase); ok {
				panic(r)
			}
			p = r
			stack = string(debug.Stack())
		}
	}()
	f()
	return nil, ""
}

func (w *W) caseSeed(idx int) int64 {
	var b [24]byte
	binary.LittleEndian.PutUint64(b[:], w.Seed)
	binary.LittleEndian.PutUint64(b[8:], uint64(idx))
	binary.LittleEndian.PutUint64(b[16:], hash64(w.Check.ID+"/"+w.Shard.Name))
	s := sha256.Sum256(b[:])
	return int64(binary.LittleEndian.Uint64(s[:8]) >> 1)
}

func (w *W) runCase(idx int) {
	c := &Case{W: w, Idx: idx, R: rand.New(rand.NewSource(w.caseSeed(idx)))}
	atomic.StoreInt64(&w.curIdx, int64(idx))
	w.cur.Store(c)
	w.progress(idx)
	w.Tick()
	done := make(chan struct{})
	// its own goroutine: a case that ends with Goexit or a lost thread state
	// does not touch the worker
	go func() {
		defer close(done)
		debug.SetPanicOnFault(true)
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abortCase); ok {
					return
				}
				st := string(debug.Stack())
				v := Viol{Key: "panic:" + panicSite(st), Msg: fmt.Sprintf("panic: %v", r), Case: idx, Shard: w.Shard, History: c.history(), Stack: trim(st, 6000)}
				w.mu.Lock()
				w.viols = append(w.viols, v)
				w.mu.Unlock()
			}
		}()
		w.Check.Run(c)
	}()
	<-done
	if w.Check.Rule != "" {
		w.mu.Lock()
		w.evals++
		w.mu.Unlock()
	}
	for i := 1; i <= c.dirs; i++ {
		os.RemoveAll(filepath.Join(w.Dir, fmt.Sprintf("c%d-%d", idx, i)))
	}
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// panicSite returns the first function of the stack under the panic that
// belongs to the code under test.
func panicSite(st string) string {
	i := strings.LastIndex(st, "panic(")
	if i < 0 {
		i = 0
	}
	for _, l := range strings.Split(st[i:], "\n") {
		if strings.HasPrefix(l, "github.com/akhenakh/oureadb") {
			if j := strings.LastIndex(l, "("); j > 0 {
				l = l[:j]
			}
			return l
		}
	}
	return "unknown"
}

func (w *W) progress(idx int) {
	ioutil.WriteFile(filepath.Join(w.Dir, "progress"), []byte(strconv.Itoa(idx)), 0644)
}

func (w *W) result(done bool) Result {
	w.mu.Lock()
	defer w.mu.Unlock()
	r := Result{Done: done, Evals: w.evals, Counters: map[string]int64{}, Sets: map[string][]uint64{}, Samples: w.samples, Viols: append([]Viol(nil), w.viols...), Infra: w.infra}
	for k, v := range w.counters {
		r.Counters[k] = v
	}
	for h := range w.distinct {
		r.Distinct = append(r.Distinct, h)
	}
	for k, m := range w.sets {
		for h := range m {
			r.Sets[k] = append(r.Sets[k], h)
		}
	}
	return r
}

func (w *W) save(done bool) {
	b, _ := json.Marshal(w.result(done))
	// a case may be stuck with the file size limited
	var l syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l) == nil && l.Cur != l.Max {
		l.Cur = l.Max
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l)
	}
	tmp := filepath.Join(w.Dir, "result.tmp")
	if err := ioutil.WriteFile(tmp, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, "save:", err)
		os.Exit(3)
	}
	os.Rename(tmp, filepath.Join(w.Dir, "result.json"))
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec) + float64(ru.Utime.Usec)/1e6 + float64(ru.Stime.Sec) + float64(ru.Stime.Usec)/1e6
}

func rssGB() float64 {
	b, err := ioutil.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseFloat(f[1], 64)
	return n * float64(os.Getpagesize()) / (1 << 30)
}

const (
	stallSamples = 9     // consecutive 5 s samples without progress and without CPU
	runawayCPU   = 150.0 // CPU seconds without a single operation completing
)

// watchdog ends the worker when the code under test is blocked for ever, spins
// or exhausts memory. It decides on progress and CPU use, not on a deadline.
func (w *W) watchdog() {
	mem := float64(w.Check.MemG)
	if mem == 0 {
		mem = 6
	}
	last := atomic.LoadInt64(&w.beat)
	cpu0 := cpuSeconds() // at the last progress
	cpuS := cpuSeconds() // at the last sample
	t := time.Now()
	idle := 0
	n := 0
	for {
		time.Sleep(250 * time.Millisecond)
		if g := rssGB(); g > mem {
			w.fatal("memory", fmt.Sprintf("memory runaway: %.1f GB resident", g))
		}
		n++
		if n%20 != 0 {
			continue
		}
		b := atomic.LoadInt64(&w.beat)
		cpu := cpuSeconds()
		late := time.Since(t) > 12*time.Second // the machine was suspended or overloaded
		t = time.Now()
		if b != last {
			last, cpu0, cpuS, idle = b, cpu, cpu, 0
			continue
		}
		if cpu-cpu0 > runawayCPU {
			w.fatal("runaway", fmt.Sprintf("one operation used %.0f s of CPU without completing", cpu-cpu0))
		}
		if cpu-cpuS < 0.5 && !late && !w.childBusy() {
			idle++
		} else {
			idle = 0
		}
		cpuS = cpu
		if idle >= stallSamples {
			w.fatal("blocked", "blocked: no operation completed and no CPU used over "+strconv.Itoa(stallSamples*5)+" s of samples")
		}
	}
}

var childWait int32 // harness is waiting for a child process

func (w *W) childBusy() bool { return atomic.LoadInt32(&childWait) > 0 }

func (w *W) fatal(key, msg string) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var h []string
	if c, ok := w.cur.Load().(*Case); ok {
		h = c.history()
	}
	w.mu.Lock()
	w.viols = append(w.viols, Viol{Key: key, Msg: msg, Case: int(atomic.LoadInt64(&w.curIdx)), Shard: w.Shard, History: h, Stack: trim(string(buf), 12000)})
	w.mu.Unlock()
	w.save(true)
	os.Exit(0)
}

func runShard(file string, only int, verbose bool) *W {
	b, err := ioutil.ReadFile(file)
	if err != nil {
		die(err)
	}
	var s struct {
		ID    string
		Seed  uint64
		Shard Shard
		Dir   string
	}
	if err := json.Unmarshal(b, &s); err != nil {
		die(err)
	}
	return runWorker(s.ID, s.Seed, s.Shard, s.Dir, only, verbose)
}

func runWorker(id string, seed uint64, sh Shard, dir string, only int, verbose bool) *W {
	ck := checks[id]
	if ck == nil {
		die("no such check " + id)
	}
	w := &W{Check: ck, Shard: sh, Dir: dir, Seed: seed, Verbose: verbose,
		distinct: map[uint64]struct{}{}, counters: map[string]int64{}, sets: map[string]map[uint64]struct{}{}}
	go w.watchdog()
	if ck.Once != nil {
		ck.Once(w)
	}
	kn := loadKnown(verifRoot())
	if only >= 0 {
		w.runCase(only)
	} else {
		for i := 0; i < sh.N; i++ {
			w.runCase(i)
			w.mu.Lock()
			fresh := 0
			for _, v := range w.viols {
				if !isKnown(kn, id, v.Key) {
					fresh++
				}
			}
			stop := fresh >= 3 || len(w.infra) >= 3
			w.mu.Unlock()
			if stop {
				break
			}
		}
	}
	if ck.Done != nil {
		ck.Done(w)
	}
	w.save(true)
	return w
}

func die(a ...interface{}) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(2)
}

// scratchRoot prefers memory: durability checks ask for real files instead.
func scratchRoot() string {
	for _, d := range []string{"/dev/shm", "/tmp"} {
		var st syscall.Statfs_t
		if syscall.Statfs(d, &st) != nil {
			continue
		}
		if uint64(st.Bavail)*uint64(st.Bsize) < 6<<30 {
			continue
		}
		p, err := ioutil.TempDir(d, "vmon-")
		if err == nil {
			return p
		}
	}
	p, err := ioutil.TempDir("", "vmon-")
	if err != nil {
		die(err)
	}
	return p
}

func verifRoot() string {
	if root := os.Getenv("VERIF_ROOT"); root != "" {
		return root
	}
	return "/verif"
}

type known struct{ prop, key, text string }

// loadKnown reads the "known:" lines of the known-findings file.
func loadKnown(root string) []known {
	b, err := ioutil.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var res []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) < 3 || !strings.HasPrefix(f[0], "property=") || !strings.HasPrefix(f[1], "key=") {
			die("bad line in known-findings.txt: " + l)
		}
		res = append(res, known{f[0][9:], f[1][4:], f[2]})
	}
	return res
}

func isKnown(kn []known, id, key string) bool {
	for _, k := range kn {
		if k.prop == id && k.key == key {
			return true
		}
	}
	return false
}

func supervise(id string) {
	start := time.Now()
	ck := checks[id]
	if ck == nil {
		die("no such check", id)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 63)
	if err != nil {
		seed = 1
	}
	root := verifRoot()
	scratch := scratchRoot()
	defer os.RemoveAll(scratch)
	shards := ck.Shards(tier == "thorough")
	par := ck.Par
	if par == 0 {
		par = runtime.NumCPU()
	}
	kn := loadKnown(root)
	results := make([]Result, len(shards))
	crashes := make([]*Viol, len(shards))
	sem := make(chan struct{}, par)
	var wg sync.WaitGroup
	var infra []string
	var mu sync.Mutex
	stop := int32(0)
	for i := range shards {
		i := i
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			if atomic.LoadInt32(&stop) >= 4 {
				return
			}
			dir := filepath.Join(scratch, fmt.Sprintf("s%d", i))
			os.MkdirAll(dir, 0755)
			defer os.RemoveAll(dir)
			in := filepath.Join(dir, "in.json")
			b, _ := json.Marshal(map[string]interface{}{"ID": id, "Seed": seed, "Shard": shards[i], "Dir": dir})
			ioutil.WriteFile(in, b, 0644)
			cmd := exec.Command(os.Args[0], "shard", in)
			errf, _ := os.Create(filepath.Join(dir, "stderr"))
			cmd.Stderr = errf
			cmd.Stdout = errf
			cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "VMON_SCRATCH="+dir)
			cmd.Env = append(cmd.Env, raceEnv(dir)...)
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
			limit := 700 * time.Second
			if tier == "thorough" {
				limit = 4 * time.Hour
			}
			if err := cmd.Start(); err != nil {
				mu.Lock()
				infra = append(infra, "start: "+err.Error())
				mu.Unlock()
				return
			}
			timer := time.AfterFunc(limit, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
			werr := cmd.Wait()
			expired := !timer.Stop()
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			errf.Close()
			rb, rerr := ioutil.ReadFile(filepath.Join(dir, "result.json"))
			if rerr == nil {
				json.Unmarshal(rb, &results[i])
			}
			if ck.Race {
				if v := raceViolation(dir, shards[i]); v != nil {
					results[i].Viols = append(results[i].Viols, *v)
				}
			}
			for _, v := range results[i].Viols {
				if !isKnown(kn, id, v.Key) {
					atomic.AddInt32(&stop, 1)
					break
				}
			}
			if results[i].Done {
				return
			}
			tail := tailFile(filepath.Join(dir, "stderr"), 12000)
			pb, _ := ioutil.ReadFile(filepath.Join(dir, "progress"))
			idx, _ := strconv.Atoi(string(pb))
			killed := false
			if ee, ok := werr.(*exec.ExitError); ok {
				if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
					killed = true
				}
			}
			mu.Lock()
			defer mu.Unlock()
			if expired || killed || !strings.Contains(tail, "goroutine ") {
				infra = append(infra, fmt.Sprintf("shard %s case %d ended without a result (%v, expired=%v): %s", shards[i].Name, idx, werr, expired, trim(tail, 1500)))
				return
			}
			crashes[i] = &Viol{Key: "crash", Msg: "the process crashed: " + firstLine(tail), Case: idx, Shard: shards[i], Stack: tail}
			atomic.AddInt32(&stop, 1)
		}()
	}
	wg.Wait()

	// aggregate
	agg := Result{Counters: map[string]int64{}}
	distinct := map[uint64]struct{}{}
	sets := map[string]map[uint64]struct{}{}
	var viols []Viol
	for i, r := range results {
		agg.Evals += r.Evals
		for k, v := range r.Counters {
			agg.Counters[k] += v
		}
		for _, h := range r.Distinct {
			distinct[h] = struct{}{}
		}
		for k, l := range r.Sets {
			m := sets[k]
			if m == nil {
				m = map[uint64]struct{}{}
				sets[k] = m
			}
			for _, h := range l {
				m[h] = struct{}{}
			}
		}
		for _, s := range r.Samples {
			if len(agg.Samples) < 6 {
				agg.Samples = append(agg.Samples, shards[i].Name+": "+s)
			}
		}
		infra = append(infra, r.Infra...)
		viols = append(viols, r.Viols...)
		if crashes[i] != nil {
			viols = append(viols, *crashes[i])
		}
	}
	var fresh []Viol
	for _, v := range viols {
		if !isKnown(kn, id, v.Key) {
			fresh = append(fresh, v)
		}
	}
	for _, k := range kn {
		if k.prop == id {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
		}
	}
	var lacking []string
	for _, n := range ck.Need {
		if agg.Counters[n] == 0 {
			lacking = append(lacking, n)
		}
	}

	// evidence
	level := ck.Level
	if level == "" {
		level = "exploration"
	}
	cov := map[string]interface{}{
		"evaluations":         agg.Evals,
		"distinct_nontrivial": len(distinct),
		"rule":                ck.Rule,
		"samples":             agg.Samples,
		"workers":             len(shards),
		"observed_events":     agg.Counters,
	}
	dist := map[string]int{}
	for k, m := range sets {
		dist[k] = len(m)
	}
	cov["observed_distinct"] = dist
	if len(infra) > 0 {
		cov["inconclusive"] = infra
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": int64(seed), "level": level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(fresh),
	}
	if len(ck.Assume) > 0 {
		ev["assumptions"] = ck.Assume
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	if err := ioutil.WriteFile(filepath.Join(root, "evidence", id+".json"), append(eb, '\n'), 0644); err != nil {
		die(err)
	}

	keys := make([]string, 0, len(agg.Counters))
	for k := range agg.Counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("%s tier=%s seed=%d cases=%d distinct_nontrivial=%d wall=%.1fs\n", id, tier, seed, agg.Evals, len(distinct), time.Since(start).Seconds())
	for _, k := range keys {
		fmt.Printf("  %s=%d\n", k, agg.Counters[k])
	}
	for k, n := range dist {
		fmt.Printf("  distinct %s=%d\n", k, n)
	}
	if len(fresh) > 0 {
		rd := filepath.Join(root, "evidence", "replay")
		os.MkdirAll(rd, 0755)
		seen := map[string]bool{}
		n := 0
		for _, v := range fresh {
			if seen[v.Key] || n >= 5 {
				continue
			}
			seen[v.Key] = true
			n++
			p := filepath.Join(rd, fmt.Sprintf("%s-%d.json", id, n))
			b, _ := json.MarshalIndent(map[string]interface{}{"ID": id, "Seed": seed, "Shard": v.Shard, "Case": v.Case, "Key": v.Key, "Msg": v.Msg, "History": v.History, "Stack": v.Stack}, "", " ")
			ioutil.WriteFile(p, append(b, '\n'), 0644)
			fmt.Printf("  %s\n", strings.Replace(trim(v.Msg, 1500), "\n", "\n  ", -1))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		}
		os.RemoveAll(scratch)
		os.Exit(1)
	}
	if len(infra) > 0 || len(lacking) > 0 {
		for _, s := range infra {
			fmt.Println("INCONCLUSIVE", s)
		}
		for _, s := range lacking {
			fmt.Println("INCONCLUSIVE nothing observed for", s)
		}
		os.RemoveAll(scratch)
		os.Exit(2)
	}
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		for _, p := range []string{"panic:", "fatal error:", "unexpected fault", "SIG"} {
			if strings.HasPrefix(l, p) {
				return l
			}
		}
	}
	return strings.SplitN(s, "\n", 2)[0]
}

func tailFile(p string, n int) string {
	b, err := ioutil.ReadFile(p)
	if err != nil {
		return ""
	}
	// a Go crash report starts with the reason: keep the start of it
	for _, m := range []string{"panic: ", "fatal error: ", "unexpected fault"} {
		if i := bytes.Index(b, []byte("\n"+m)); i >= 0 {
			b = b[i+1:]
			break
		}
	}
	return trim(string(b), n)
}

func replay(file string) {
	b, err := ioutil.ReadFile(file)
	if err != nil {
		die(err)
	}
	var s struct {
		ID    string
		Seed  uint64
		Shard Shard
		Case  int
	}
	if err := json.Unmarshal(b, &s); err != nil {
		die(err)
	}
	dir := scratchRoot()
	defer os.RemoveAll(dir)
	w := runWorker(s.ID, s.Seed, s.Shard, dir, s.Case, true)
	if len(w.viols) > 0 {
		for _, v := range w.viols {
			fmt.Println(v.Msg)
			fmt.Println(v.Stack)
		}
		os.RemoveAll(dir)
		os.Exit(1)
	}
	fmt.Println("the case passes")
}

func main() {
	if len(os.Args) < 2 {
		die("usage: vmon check|shard|replay|list ...")
	}
	switch os.Args[1] {
	case "check":
		supervise(os.Args[2])
	case "shard":
		runShard(os.Args[2], -1, false)
	case "replay":
		replay(os.Args[2])
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, checks[id].Race)
		}
	default:
		if f := subcommands[os.Args[1]]; f != nil {
			f(os.Args[2:])
			return
		}
		die("unknown command", os.Args[1])
	}
}

// subcommands are the programs run as victims by crash checks.
var subcommands = map[string]func([]string){}

func raceEnv(dir string) []string {
	return []string{"GORACE=halt_on_error=0 exitcode=0 log_path=" + filepath.Join(dir, "race.log")}
}

// raceViolation collects the race detector's reports of a worker.
func raceViolation(dir string, sh Shard) *Viol {
	files, _ := filepath.Glob(filepath.Join(dir, "race.log.*"))
	for _, f := range files {
		b, _ := ioutil.ReadFile(f)
		if i := bytes.Index(b, []byte("WARNING: DATA RACE")); i >= 0 {
			return &Viol{Key: "race", Msg: fmt.Sprintf("%d data race reports; the first:\n%s", bytes.Count(b, []byte("WARNING: DATA RACE")), trim(string(b[i:]), 3000)), Shard: sh, Stack: trim(string(b[i:]), 20000)}
		}
	}
	return nil
}
