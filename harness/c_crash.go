package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/dgraph-io/badger"
)

// victimSpec tells the victim process which batches to execute.
type victimSpec struct {
	Backend string
	Dir     string
	Seed    int64
	Start   int // batches already in the store
	N       int // batches to execute
	End     string
	Extra   cfgT
	Readers bool // also read while writing
}

// bigBatches tells whether a history has batches of thousands of operations.
func bigBatches(seed int64) bool { return seed%4 == 0 }

// largeValues tells whether a history has values of megabytes.
func largeValues(seed int64) bool { return seed%8 == 1 }

// victimBatch is batch k of a history: every batch writes its number to "seq".
func victimBatch(seed int64, k int) []kvop {
	r := rand.New(rand.NewSource(seed*1000003 + int64(k)))
	ops := []kvop{{opSet, []byte("seq"), []byte(fmt.Sprint(k))}}
	if bigBatches(seed) && r.Intn(3) == 0 {
		// far more operations than one page, block or chunk holds
		n := 1500 + r.Intn(18000)
		for i := 0; i < n; i++ {
			key := []byte(fmt.Sprintf("b%05d", i))
			if r.Intn(50) == 0 {
				ops = append(ops, kvop{opDel, key, nil})
			} else {
				ops = append(ops, kvop{opSet, key, []byte(fmt.Sprint(k))})
			}
		}
		if r.Intn(2) == 0 {
			ops = append(ops[1:], ops[0])
		}
		return ops
	}
	n := 1 + r.Intn(8)
	if r.Intn(20) == 0 {
		n = 300
	}
	if largeValues(seed) && r.Intn(4) == 0 {
		v := make([]byte, 900000+r.Intn(2000000))
		r.Read(v)
		ops = append(ops, kvop{opSet, []byte("large"), v})
	}
	merged := map[int]bool{}
	plain := map[int]bool{}
	for i := 0; i < n; i++ {
		x := r.Intn(40)
		key := []byte(fmt.Sprintf("k%02d", x))
		switch r.Intn(6) {
		case 0:
			if !merged[x] {
				plain[x] = true
				ops = append(ops, kvop{opDel, key, nil})
			}
		case 1:
			if !plain[x] && x < 10 {
				merged[x] = true
				ops = append(ops, kvop{opMerge, key, []byte(fmt.Sprint(k))})
			}
		default:
			if !merged[x] {
				plain[x] = true
				v := make([]byte, r.Intn(60))
				if r.Intn(40) == 0 {
					v = make([]byte, 5000+r.Intn(90000))
				}
				r.Read(v)
				ops = append(ops, kvop{opSet, key, v})
			}
		}
	}
	// the number is written first or last
	if r.Intn(2) == 0 {
		ops = append(ops[1:], ops[0])
	}
	return ops
}

func init() {
	subcommands["victim"] = func(args []string) {
		var sp victimSpec
		if err := json.Unmarshal([]byte(args[0]), &sp); err != nil {
			die(err)
		}
		say := func(f string, a ...interface{}) { syscall.Write(1, []byte(fmt.Sprintf(f, a...))) }
		s, err := openStore(sp.Backend, sp.Dir, &foldOp{partial: 2}, sp.Extra)
		if err != nil {
			say("E open: %v\n", err)
			os.Exit(0)
		}
		say("O\n")
		for k := sp.Start; k < sp.Start+sp.N; k++ {
			w, err := s.Writer()
			if err != nil {
				say("E writer: %v\n", err)
				os.Exit(0)
			}
			b := w.NewBatch()
			fillBatch(b, victimBatch(sp.Seed, k))
			say("I %d\n", k)
			err = w.ExecuteBatch(b)
			if err != nil {
				say("E batch %d: %v\n", k, err)
				os.Exit(0)
			}
			say("A %d\n", k)
			b.Close()
			w.Close()
			if sp.Readers && k%3 == 0 {
				if r, err := s.Reader(); err == nil {
					r.Get([]byte("seq"))
					r.Close()
				}
			}
		}
		if sp.End == "close" {
			if err := s.Close(); err != nil {
				say("E close: %v\n", err)
			}
			say("C\n")
		}
		os.Exit(0)
	}
}

// death describes how a victim ended.
type death struct {
	how           string
	opened        bool
	closed        bool
	issued, acked int // number of batches
	errs          string
}

// runVictim starts a victim and ends it as plan says; it returns what the
// victim had said.
func (c *Case) runVictim(sp victimSpec, wrap []string, killAfter int, delay time.Duration) death {
	js, _ := json.Marshal(sp)
	args := append(append([]string(nil), wrap...), os.Args[0], "victim", string(js))
	cmd := exec.Command(args[0], args[1:]...)
	pr, pw, err := os.Pipe()
	if err != nil {
		c.Infra("pipe: %v", err)
	}
	cmd.Stdout = pw
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	ef, _ := ioutil.TempFile(c.Dir, "verr")
	cmd.Stderr = ef
	defer func() { ef.Close(); os.Remove(ef.Name()) }()
	if err := cmd.Start(); err != nil {
		c.Infra("start victim: %v", err)
	}
	pw.Close()
	atomic.AddInt32(&childWait, 1)
	d := death{issued: sp.Start, acked: sp.Start}
	kill := func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	if killAfter == 0 {
		time.AfterFunc(delay, kill)
	}
	// a victim that stops making progress for two minutes without using CPU
	quiet := make(chan struct{})
	var lines int64
	var blocked int32
	go func() {
		last, idle := int64(-1), 0
		for {
			select {
			case <-quiet:
				return
			case <-time.After(5 * time.Second):
			}
			n := atomic.LoadInt64(&lines)
			if n == last {
				idle++
			} else {
				idle = 0
			}
			last = n
			if idle >= 30 {
				atomic.StoreInt32(&blocked, 1)
				syscall.Kill(-cmd.Process.Pid, syscall.SIGABRT)
				time.Sleep(time.Second)
				kill()
				return
			}
		}
	}()
	sc := bufio.NewScanner(pr)
	for sc.Scan() {
		c.Tick()
		n := atomic.AddInt64(&lines, 1)
		l := sc.Text()
		switch {
		case l == "O":
			d.opened = true
		case l == "C":
			d.closed = true
		case strings.HasPrefix(l, "I "):
			k, _ := strconv.Atoi(l[2:])
			d.issued = k + 1
		case strings.HasPrefix(l, "A "):
			k, _ := strconv.Atoi(l[2:])
			d.acked = k + 1
		default:
			d.errs = l
		}
		if killAfter > 0 && int(n) == killAfter {
			if delay > 0 {
				time.AfterFunc(delay, kill)
			} else {
				kill()
			}
		}
	}
	werr := cmd.Wait()
	close(quiet)
	kill()
	pr.Close()
	atomic.AddInt32(&childWait, -1)
	d.how = fmt.Sprint(werr)
	eb, _ := ioutil.ReadFile(ef.Name())
	if atomic.LoadInt32(&blocked) == 1 {
		c.Fail("blocked", "the process executing batch %d stopped making progress\n%s", d.issued, trim(string(eb), 4000))
	}
	if strings.Contains(string(eb), "goroutine ") && (strings.Contains(string(eb), "panic:") || strings.Contains(string(eb), "fatal error:")) {
		c.Fail("victim-crash", "the process executing batch %d crashed by itself:\n%s", d.issued, trim(string(eb), 4000))
	}
	if d.errs != "" {
		c.Fail("victim-error", "the process writing to the store got an error: %s", d.errs)
	}
	return d
}

// prefixModels advances m from batch from to batch to.
func advance(m Model, seed int64, from, to int) {
	o := &foldOp{partial: 2}
	for k := from; k < to; k++ {
		applyMerges(m, o, victimBatch(seed, k))
	}
}

// matchPrefix finds the prefix of the history that the content equals.
func (c *Case) matchPrefix(got, base Model, seed int64, at, acked, issued int, what string) (int, Model) {
	n, m, key, msg := prefixOf(got, base, seed, at, acked, issued, what)
	if key != "" {
		c.Fail(key, "%s", msg)
	}
	return n, m
}

// prefixOf is the number of batches the content stands for, or what is wrong.
func prefixOf(got, base Model, seed int64, at, acked, issued int, what string) (int, Model, string, string) {
	var n = -1
	if v, ok := got["seq"]; ok {
		n, _ = strconv.Atoi(v)
	}
	n++ // number of batches the marker stands for
	if n < acked {
		return n, nil, "lost", fmt.Sprintf("%s: %d batches were acknowledged, the store shows batch %d as its last one", what, acked, n)
	}
	if n > issued {
		return n, nil, "invented", fmt.Sprintf("%s: %d batches were issued, the store shows %d", what, issued, n)
	}
	m := base.clone()
	advance(m, seed, at, n)
	if d := diffModel(m, got); d != "" {
		return n, nil, "partial", fmt.Sprintf("%s: the content is not the one after any whole number of batches (marker: %d, acknowledged: %d, issued: %d): %s", what, n, acked, issued, d)
	}
	return n, m, "", ""
}

// files reads every file below dir.
func files(dir string) map[string][]byte {
	m := map[string][]byte{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			m[p[len(dir):]], _ = ioutil.ReadFile(p)
		}
		return nil
	})
	return m
}

// replayLogger keeps from which place of which file Badger replays.
type replayLogger struct {
	fid, off int64
	found    bool
}

func (l *replayLogger) Infof(f string, a ...interface{}) {
	if n, _ := fmt.Sscanf(fmt.Sprintf(f, a...), "Replaying file id: %d at offset: %d", &l.fid, &l.off); n == 2 && !l.found {
		l.found = true
	}
}
func (l *replayLogger) Errorf(string, ...interface{})   {}
func (l *replayLogger) Warningf(string, ...interface{}) {}
func (l *replayLogger) Debugf(string, ...interface{})   {}

// emptiedLog recognizes the recorded finding "badger-emptied-log": in these
// files, left by a crash, the point Badger replays its value log from lies
// inside the last log file, the log goes on behind it, but not with one whole
// batch. Badger 1.6.0 then drops all of the file instead of what follows the
// point.
func (c *Case) emptiedLog(img map[string][]byte) bool {
	dir := c.TempDir()
	defer os.RemoveAll(dir)
	last := ""
	for p, b := range img {
		os.MkdirAll(filepath.Dir(dir+p), 0755)
		if err := ioutil.WriteFile(dir+p, b, 0644); err != nil {
			c.Infra("image: %v", err)
		}
		if strings.HasSuffix(p, ".vlog") && filepath.Base(p) > filepath.Base(last) || last == "" && strings.HasSuffix(p, ".vlog") {
			last = p
		}
	}
	if last == "" {
		return false
	}
	l := &replayLogger{}
	at := filepath.Dir(dir + last)
	db, err := badger.Open(badger.DefaultOptions(at).WithTruncate(true).WithLogger(l))
	if err != nil {
		return false
	}
	db.Close()
	if !l.found || filepath.Base(last) != fmt.Sprintf("%06d.vlog", l.fid) || l.off == 0 || l.off >= int64(len(img[last])) {
		return false
	}
	return wholeBatches(img[last][l.off:]) == 0
}

// runTorn cuts Badger's value log at places all over the batches written since
// the store was opened.
func runTorn(c *Case) {
	seed := c.R.Int63n(1<<40) | 1
	for bigBatches(seed) {
		seed += 2
	}
	dir := c.TempDir()
	s := c.mustOpen("badger", dir, &foldOp{partial: 2}, nil)
	at := 3 + c.R.Intn(6)
	for k := 0; k < at; k++ {
		c.exec(s, victimBatch(seed, k))
	}
	c.mustClose(s)
	last, size := "", 0
	log := func() int {
		last = ""
		m := files(dir)
		for p := range m {
			if strings.HasSuffix(p, ".vlog") && p > last {
				last = p
			}
		}
		return len(m[last])
	}
	size = log()
	first := last
	s = c.mustOpen("badger", dir, &foldOp{partial: 2}, nil)
	ends := []int{size}
	n := 2 + c.R.Intn(3)
	for k := at; k < at+n; k++ {
		c.exec(s, victimBatch(seed, k))
		ends = append(ends, log())
	}
	img := files(dir)
	c.mustClose(s)
	if last != first {
		return // a new file was begun: nothing to cut in the old one
	}
	shown := false
	for i := 0; i < n; i++ {
		cuts := map[int]bool{ends[i]: true, ends[i] + 1: true, ends[i+1] - 1: true, ends[i+1]: true}
		for j := 0; j < 6; j++ {
			cuts[ends[i]+c.R.Intn(ends[i+1]-ends[i]+1)] = true
		}
		for cut := ends[i]; cut <= ends[i+1]; cut++ {
			if !cuts[cut] {
				continue
			}
			c.Tick()
			left := map[string][]byte{}
			for p, b := range img {
				left[p] = b
			}
			left[last] = img[last][:cut]
			dst := c.TempDir()
			for p, b := range left {
				os.MkdirAll(filepath.Dir(dst+p), 0755)
				if err := ioutil.WriteFile(dst+p, b, 0644); err != nil {
					c.Infra("image: %v", err)
				}
			}
			acked := at + i
			if cut == ends[i+1] {
				acked++
			}
			what := fmt.Sprintf("value log cut at %d, where batch %d ends at %d and the next at %d; the store was opened with %d", cut, at+i-1, ends[i], ends[i+1], size)
			t, err := openStore("badger", dst, &foldOp{partial: 2}, nil)
			if err != nil {
				c.Fail("reopen", "%s: the store does not open from what is left: %v", what, err)
			}
			_, _, key, msg := prefixOf(c.content(t), Model{}, seed, 0, acked, acked+1, what)
			c.mustClose(t)
			os.RemoveAll(dst)
			c.Count("torn_logs", 1)
			switch {
			case key == "":
			case c.emptiedLog(left):
				c.Count("badger_emptied_log", 1)
				if !shown {
					shown = true
					c.Report("badger-emptied-log", "%s", msg)
				}
			default:
				c.Fail(key, "%s", msg)
			}
		}
	}
}

// wholeBatches is the length of the whole batches log begins with.
func wholeBatches(log []byte) int {
	end, off := 0, 0
	txn := ""
	for {
		if len(log)-off < 18 {
			return end
		}
		kl, vl := int(binary.BigEndian.Uint32(log[off:])), int(binary.BigEndian.Uint32(log[off+4:]))
		n := 18 + kl + vl
		if kl > 1<<16 || kl < 8 || len(log)-off-4 < n {
			return end
		}
		if crc32.Checksum(log[off:off+n], crc32.MakeTable(crc32.Castagnoli)) != binary.BigEndian.Uint32(log[off+n:]) {
			return end
		}
		meta, key, val := log[off+16], log[off+18:off+18+kl], log[off+18+kl:off+n]
		ts := strconv.FormatUint(math.MaxUint64-binary.BigEndian.Uint64(key[kl-8:]), 10)
		off += n + 4
		switch {
		case meta&0x40 != 0: // part of a batch
			if txn != "" && txn != ts {
				return end
			}
			txn = ts
		case meta&0x80 != 0: // its end
			if txn != string(val) {
				return end
			}
			txn, end = "", off
		default:
			if txn != "" {
				return end
			}
			end = off
		}
	}
}

// ---------------------------------------------------------------- C09

func init() {
	register(&Check{
		ID:    "C09",
		Level: "fault_enumeration",
		Rule:  "a case runs several generations of a separate process executing numbered batches and reporting, over a pipe, each one before it is issued and once it is acknowledged; the process is killed with SIGKILL after a random number of reports plus a random delay, while opening, at the entry of a chosen file system call (strace injection), exits without closing, or closes; then the store is reopened and its content must be that after j whole batches, acknowledged <= j <= issued, and the next generation continues from there. Non-trivial: a kill after at least one acknowledged batch; identified by backend, seed and place of death.",
		Shards: func(th bool) []Shard {
			var res []Shard
			for i, b := range []string{"badger", "boltdb", "goleveldb"} {
				n := []int{10, 40, 40}[i]
				k := 4
				if th {
					n, k = n*20, 4
				}
				for j := 0; j < k; j++ {
					res = append(res, Shard{Name: fmt.Sprintf("%s-%d", b, j), Backend: b, N: n})
				}
				n = []int{2, 12, 12}[i]
				if th {
					n *= 15
				}
				for j := 0; j < 2; j++ {
					res = append(res, Shard{Name: fmt.Sprintf("%s-torn-%d", b, j), Backend: b, N: n, P: map[string]int64{"torn": 1}})
				}
			}
			return res
		},
		Run: func(c *Case) {
			if c.Shard.P["torn"] == 1 {
				runTraced(c, true)
			} else {
				runC09(c)
			}
		},
		Need:   []string{"crash_images", "images_with_torn_write", "batches_over_1000_operations", "kills", "kills_between_issue_and_ack", "kills_at_syscall", "exits_without_close", "closes", "reopened", "acknowledged_batches"},
		Assume: []string{"the operating system keeps what the process had written (a machine crash is property C10)"},
	})
}

var killCalls = []string{"pwrite64", "write", "fdatasync", "fsync", "ftruncate", "renameat", "unlinkat", "openat"}

func runC09(c *Case) {
	be := backendOf(c.Shard.Backend)
	dir := c.TempDir()
	seed := c.R.Int63n(1 << 40)
	m := Model{}
	at := 0
	gens := 3 + c.R.Intn(3)
	var extra cfgT
	if be.name == "goleveldb" && c.R.Intn(2) == 0 {
		extra = cfgT{"write_buffer_size": float64(8192)}
	}
	for g := 0; g < gens; g++ {
		sp := victimSpec{Backend: be.name, Dir: dir, Seed: seed, Start: at, N: 1000000, Extra: extra, Readers: c.R.Intn(2) == 0}
		var wrap []string
		after := 0
		var delay time.Duration
		plan := ""
		switch c.R.Intn(8) {
		case 0:
			delay = time.Duration(c.R.Intn(60000)) * time.Microsecond
			plan = fmt.Sprintf("SIGKILL after %v", delay)
		case 1, 2, 3:
			after = 1 + c.R.Intn(160)
			if bigBatches(seed) {
				after = 1 + c.R.Intn(24)
			}
			delay = time.Duration(c.R.Intn(2000)) * time.Microsecond
			if c.R.Intn(2) == 0 {
				delay = 0
			}
			plan = fmt.Sprintf("SIGKILL %v after report %d", delay, after)
		case 4, 5:
			call := killCalls[c.R.Intn(len(killCalls))]
			if be.name == "badger" && c.R.Intn(2) == 0 {
				call = "write"
			}
			n := 1 + c.R.Intn(60)
			wrap = []string{"strace", "-f", "-o", "/dev/null", "-e", "trace=" + call, "-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", call, n)}
			after = -1
			sp.N = 80
			if bigBatches(seed) {
				sp.N = 12
			}
			plan = fmt.Sprintf("SIGKILL at %s number %d", call, n)
		case 6:
			sp.N = c.R.Intn(60)
			after = -1
			plan = fmt.Sprintf("exit without closing after %d batches", sp.N)
		case 7:
			sp.N = c.R.Intn(60)
			sp.End = "close"
			after = -1
			plan = fmt.Sprintf("close after %d batches", sp.N)
		}
		c.Logf("generation %d from batch %d: %s", g, at, plan)
		d := c.runVictim(sp, wrap, after, delay)
		c.Logf("died (%s): %d issued, %d acknowledged", d.how, d.issued, d.acked)
		switch {
		case sp.End == "close":
			c.Count("closes", 1)
		case sp.N < 1000 && wrap == nil:
			c.Count("exits_without_close", 1)
		case wrap != nil:
			if d.acked < at+sp.N {
				c.Count("kills_at_syscall", 1)
				c.Count("kills", 1)
			}
		default:
			c.Count("kills", 1)
		}
		if d.issued > d.acked {
			c.Count("kills_between_issue_and_ack", 1)
		}
		if d.acked > at {
			c.Nontrivial(fmt.Sprint(be.name, seed, g, d.acked, d.issued, plan))
		}
		c.Count("acknowledged_batches", d.acked-at)
		if g == 0 && !d.opened {
			// never completely created: the engine may refuse it
			c.Count("kills_while_creating", 1)
			if s, err := openStore(be.name, dir, &foldOp{partial: 2}, extra); err == nil {
				c.mustClose(s)
			} else {
				dir = c.TempDir()
			}
		}
		var left map[string][]byte
		if be.name == "badger" {
			left = files(dir)
		}
		s := c.mustOpen(be.name, dir, &foldOp{partial: 2}, extra)
		got := c.content(s)
		what := fmt.Sprintf("reopened after generation %d (%s)", g, plan)
		if _, _, key, msg := prefixOf(got, m, seed, at, d.acked, d.issued, what); key != "" && left != nil && c.emptiedLog(left) {
			// killed inside a write of several pages
			c.mustClose(s)
			c.Fail("badger-emptied-log", "%s", msg)
		}
		at, m = c.matchPrefix(got, m, seed, at, d.acked, d.issued, what)
		c.Count("reopened", 1)
		// the store accepts new batches, which stay too
		for i := 0; i < c.R.Intn(3); i++ {
			c.exec(s, victimBatch(seed, at))
			advance(m, seed, at, at+1)
			at++
		}
		if d := diffModel(m, c.content(s)); d != "" {
			c.Fail("after", "after more batches in the reopened store: %s", d)
		}
		c.mustClose(s)
	}
	s := c.mustOpen(be.name, dir, &foldOp{partial: 2}, extra)
	if d := diffModel(m, c.content(s)); d != "" {
		c.Fail("after", "after closing and reopening: %s", d)
	}
	c.mustClose(s)
	if c.Idx == 0 {
		c.Sample(strings.Join(c.history(), " | "))
	}
}

// ---------------------------------------------------------------- C10

func init() {
	register(&Check{
		ID:    "C10",
		Level: "fault_enumeration",
		Rule:  "a case runs a process executing numbered batches under a system-call trace (open, read/write, seek, truncate, sync, rename, unlink) and replays the trace into the durable content of every file, in which data enters only by fsync, fdatasync or synchronous writes while file creation, size changes, renames and removals count at once; at crash points (at every acknowledgement or a sample of them, and at sampled other calls, also during opening and closing) the durable files are written out and the store is reopened from them: its content must be that after j whole batches, acknowledged <= j <= issued. Non-trivial: a crash point at which some written data was not synced; identified by backend, seed and position in the trace.",
		Shards: func(th bool) []Shard {
			var res []Shard
			for i, b := range []string{"badger", "boltdb", "goleveldb"} {
				n := []int{3, 20, 20}[i]
				k := 4
				if th {
					n, k = n*15, 4
				}
				for j := 0; j < k; j++ {
					res = append(res, Shard{Name: fmt.Sprintf("%s-%d", b, j), Backend: b, N: n})
				}
			}
			n := 1
			if th {
				n = 30
			}
			return append(res, Shard{Name: "badger-torn", Backend: "badger", N: n, P: map[string]int64{"torn": 1}})
		},
		Run: func(c *Case) {
			if c.Shard.P["torn"] == 1 {
				runTorn(c)
				return
			}
			runTraced(c, false)
		},
		Need:   []string{"crash_images", "images_with_part_of_unsynced_data", "images_with_unsynced_data_dropped", "images_at_acknowledgement", "syncs", "writes", "acknowledged_batches"},
		Assume: []string{"directory operations and file sizes are durable at once (the property is about file data)", "strace reports every file system call of the process"},
	})
}

type dfile struct {
	vol, dur []byte
	name     string
	pend     []pendWrite // written since the last sync, in order
	gen      int         // number of writes and resizes so far
	durGen   int         // the last of them known durable
}

type pendWrite struct {
	off  int64
	data []byte
	gen  int
}

// partial returns the durable content and the first n pending writes, the
// last one cut short.
func (f *dfile) partial(n int, cut func(int) int) []byte {
	b := append([]byte(nil), f.dur...)
	for i, w := range f.pend[:n] {
		data := w.data
		if i == n-1 {
			data = data[:cut(len(data))]
		}
		b = put(b, w.off, data)
	}
	return b
}

const (
	imgDurable = iota // what was synced
	imgPartial        // and, per file, the first of the writes that were not
	imgKilled         // everything written, and a part of the write going on
)

type dfs struct {
	files map[string]*dfile // by path
	fds   map[int]*dfd
	dirs  map[string]bool
	root  string
}

type dfd struct {
	f      *dfile
	off    int64
	app    bool
	sync   bool
	path   string
	isDir  bool
	dupped *dfd
}

func put(b []byte, off int64, data []byte) []byte {
	need := off + int64(len(data))
	for int64(len(b)) < need {
		b = append(b, make([]byte, need-int64(len(b)))...)
	}
	copy(b[off:], data)
	return b
}

func resize(b []byte, n int64) []byte {
	if int64(len(b)) > n {
		return append([]byte(nil), b[:n]...)
	}
	return append(b, make([]byte, n-int64(len(b)))...)
}

// dirty tells whether some file has data that is not durable.
func (d *dfs) dirty() bool {
	for _, f := range d.files {
		if string(f.vol) != string(f.dur) {
			return true
		}
	}
	return false
}

// image writes the files as they are after a crash under dst.
func (d *dfs) image(dst string, content func(p string, f *dfile) []byte) error {
	var ds []string
	for p := range d.dirs {
		ds = append(ds, p)
	}
	sort.Strings(ds)
	for _, p := range ds {
		if err := os.MkdirAll(filepath.Join(dst, strings.TrimPrefix(p, d.root)), 0755); err != nil {
			return err
		}
	}
	var fs []string
	for p := range d.files {
		fs = append(fs, p)
	}
	sort.Strings(fs)
	for _, p := range fs {
		q := filepath.Join(dst, strings.TrimPrefix(p, d.root))
		if err := os.MkdirAll(filepath.Dir(q), 0755); err != nil {
			return err
		}
		if err := ioutil.WriteFile(q, content(p, d.files[p]), 0644); err != nil {
			return err
		}
	}
	return nil
}

// fileOf returns the file a write call writes to, with its offset and data.
func (d *dfs) fileOf(ev traceEvent) (f *dfile, off int64, data []byte) {
	if ev.call != "write" && ev.call != "pwrite64" {
		return
	}
	strs, plain := splitArgs(ev.args)
	n, err := strconv.Atoi(plain[0])
	if err != nil || len(strs) == 0 {
		return
	}
	x := d.fds[n]
	for x != nil && x.dupped != nil {
		x = x.dupped
	}
	if x == nil || x.f == nil {
		return
	}
	data, err = unhex(strs[0])
	if err != nil {
		return
	}
	off = x.off
	if x.app {
		off = int64(len(x.f.vol))
	}
	if ev.call == "pwrite64" {
		if off, err = strconv.ParseInt(plain[len(plain)-1], 10, 64); err != nil {
			return nil, 0, nil
		}
	}
	return x.f, off, data
}

func unhex(s string) ([]byte, error) {
	res := make([]byte, 0, len(s)/4)
	for i := 0; i < len(s); {
		if i+3 < len(s) && s[i] == '\\' && s[i+1] == 'x' {
			v, err := strconv.ParseUint(s[i+2:i+4], 16, 8)
			if err != nil {
				return nil, err
			}
			res = append(res, byte(v))
			i += 4
			continue
		}
		res = append(res, s[i])
		i++
	}
	return res, nil
}

// traceEvent is one completed or entered system call.
type traceEvent struct {
	call  string
	args  string
	ret   int64
	entry bool // the call was entered (only for sync calls and reports)
	sync  int  // pairs the entry and the return of a sync
}

// parseTrace turns strace output into events in order; sync calls and writes
// to the report pipe give an event at their entry too.
func parseTrace(file string) ([]traceEvent, error) {
	f, err := os.Open(file)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	rd := bufio.NewReaderSize(f, 1<<20)
	pend := map[string]traceEvent{}
	var evs []traceEvent
	syncs := 0
	for {
		line, err := rd.ReadString('\n')
		if line == "" && err != nil {
			break
		}
		line = strings.TrimRight(line, "\n")
		sp := strings.IndexByte(line, ' ')
		if sp < 0 {
			continue
		}
		pid, rest := line[:sp], strings.TrimLeft(line[sp:], " ")
		if strings.HasPrefix(rest, "+++") || strings.HasPrefix(rest, "---") {
			continue
		}
		var ev traceEvent
		if strings.HasPrefix(rest, "<... ") {
			ev = pend[pid]
			delete(pend, pid)
			i := strings.Index(rest, "resumed>")
			if i < 0 || ev.call == "" {
				return nil, fmt.Errorf("bad line %q", trim(line, 200))
			}
			tail := rest[i+8:]
			j := strings.LastIndex(tail, " = ")
			if j < 0 {
				continue // killed inside the call
			}
			ev.args += strings.TrimSuffix(strings.TrimRight(tail[:j], " "), ")")
			ev.ret = parseRet(tail[j+3:])
			ev.entry = false
			evs = append(evs, ev)
			continue
		}
		p := strings.IndexByte(rest, '(')
		if p < 0 {
			continue
		}
		ev.call = rest[:p]
		body := rest[p+1:]
		if strings.HasSuffix(body, "<unfinished ...>") {
			ev.args = strings.TrimRight(strings.TrimSuffix(body, "<unfinished ...>"), " ")
			if ev.call == "fsync" || ev.call == "fdatasync" {
				syncs++
				ev.sync = syncs
			}
			e := ev
			e.entry = true
			evs = append(evs, e)
			pend[pid] = ev
			continue
		}
		j := strings.LastIndex(body, " = ")
		if j < 0 {
			continue
		}
		ev.args = strings.TrimSuffix(strings.TrimRight(body[:j], " "), ")")
		ev.ret = parseRet(body[j+3:])
		if ev.call == "fsync" || ev.call == "fdatasync" {
			syncs++
			ev.sync = syncs
		}
		e := ev
		e.entry = true
		evs = append(evs, e, ev)
	}
	return evs, nil
}

func parseRet(s string) int64 {
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, ' '); i > 0 {
		s = s[:i]
	}
	n, err := strconv.ParseInt(s, 0, 64)
	if err != nil {
		return -1
	}
	return n
}

// quoted returns the strings in quotes of args, and the rest split by commas.
func splitArgs(args string) (strs []string, plain []string) {
	var cur strings.Builder
	in := false
	var q strings.Builder
	for i := 0; i < len(args); i++ {
		ch := args[i]
		if ch == '"' {
			if in {
				strs = append(strs, q.String())
				q.Reset()
			}
			in = !in
			continue
		}
		if in {
			q.WriteByte(ch)
			continue
		}
		if ch == ',' {
			plain = append(plain, strings.TrimSpace(cur.String()))
			cur.Reset()
			continue
		}
		cur.WriteByte(ch)
	}
	plain = append(plain, strings.TrimSpace(cur.String()))
	return
}

const tracedCalls = "openat,open,creat,read,write,pwrite64,pwritev,pwritev2,writev,lseek,ftruncate,truncate,fallocate,fsync,fdatasync,sync_file_range,msync,sync,syncfs,rename,renameat,renameat2,unlink,unlinkat,rmdir,link,linkat,mkdir,mkdirat,close,dup,dup2,dup3,mmap,copy_file_range,sendfile,splice,io_uring_setup,io_submit"

type unsupported string

// replayTrace calls at before each event with the state so far.
func (d *dfs) replay(evs []traceEvent, at func(i int, ev traceEvent)) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = fmt.Errorf("%s", string(u))
				return
			}
			panic(r)
		}
	}()
	type snap struct {
		b   []byte
		gen int
	}
	snaps := map[int]map[*dfile]snap{}
	inRoot := func(p string) bool { return p == d.root || strings.HasPrefix(p, d.root+"/") }
	for i, ev := range evs {
		at(i, ev)
		strs, plain := splitArgs(ev.args)
		for j, s := range strs {
			b, e := unhex(s)
			if e != nil {
				return e
			}
			strs[j] = string(b)
		}
		fdOf := func() *dfd {
			if len(plain) == 0 {
				return nil
			}
			n, e := strconv.Atoi(plain[0])
			if e != nil {
				return nil
			}
			x := d.fds[n]
			for x != nil && x.dupped != nil {
				x = x.dupped
			}
			return x
		}
		if ev.entry {
			if ev.sync > 0 {
				if x := fdOf(); x != nil && x.f != nil {
					snaps[ev.sync] = map[*dfile]snap{x.f: {append([]byte(nil), x.f.vol...), x.f.gen}}
				}
			}
			// A close frees the number at once: another thread may be given
			// it again before the close returns.
			if ev.call == "close" {
				if n, e := strconv.Atoi(plain[0]); e == nil {
					delete(d.fds, n)
				}
			}
			continue
		}
		if ev.ret < 0 {
			continue
		}
		write := func(f *dfile, off int64, data []byte, durable bool) {
			f.vol = put(f.vol, off, data)
			f.gen++
			if !durable {
				f.pend = append(f.pend, pendWrite{off, data, f.gen})
			}
			if int64(len(f.dur)) < int64(len(f.vol)) && durable {
				f.dur = resize(f.dur, int64(len(f.vol)))
			}
			if durable {
				f.dur = put(f.dur, off, data)
			}
		}
		switch ev.call {
		case "openat", "open", "creat":
			if len(strs) == 0 || !inRoot(strs[0]) {
				delete(d.fds, int(ev.ret))
				break
			}
			p := strs[0]
			fl := ev.args
			x := &dfd{path: p, app: strings.Contains(fl, "O_APPEND"), sync: strings.Contains(fl, "SYNC")}
			if d.dirs[p] {
				x.isDir = true
			} else {
				f := d.files[p]
				if f == nil {
					if !strings.Contains(fl, "O_CREAT") && ev.call != "creat" {
						panic(unsupported("opened unknown file " + p))
					}
					f = &dfile{name: p}
					d.files[p] = f
				}
				if strings.Contains(fl, "O_TRUNC") || ev.call == "creat" {
					f.vol, f.dur, f.pend = nil, nil, nil
					f.gen++
					f.durGen = f.gen
				}
				x.f = f
			}
			d.fds[int(ev.ret)] = x
		case "dup", "dup2", "dup3":
			if x := fdOf(); x != nil {
				d.fds[int(ev.ret)] = &dfd{dupped: x}
			}
		case "read":
			if x := fdOf(); x != nil {
				x.off += ev.ret
			}
		case "lseek":
			if x := fdOf(); x != nil {
				x.off = ev.ret
			}
		case "write":
			x := fdOf()
			if x == nil || x.f == nil {
				break
			}
			if len(strs) == 0 || int64(len(strs[0])) < ev.ret {
				panic(unsupported("write data not in the trace"))
			}
			off := x.off
			if x.app {
				off = int64(len(x.f.vol))
			}
			write(x.f, off, []byte(strs[0][:ev.ret]), x.sync)
			x.off = off + ev.ret
		case "pwrite64":
			x := fdOf()
			if x == nil || x.f == nil {
				break
			}
			off, e := strconv.ParseInt(plain[len(plain)-1], 10, 64)
			if e != nil || len(strs) == 0 || int64(len(strs[0])) < ev.ret {
				panic(unsupported("cannot read pwrite " + trim(ev.args, 100)))
			}
			write(x.f, off, []byte(strs[0][:ev.ret]), x.sync)
		case "ftruncate":
			x := fdOf()
			if x == nil || x.f == nil {
				break
			}
			n, e := strconv.ParseInt(plain[1], 10, 64)
			if e != nil {
				panic(unsupported("cannot read ftruncate"))
			}
			x.f.vol = resize(x.f.vol, n)
			x.f.dur = resize(x.f.dur, n)
			x.f.gen++
			keep := x.f.pend[:0:0]
			for _, w := range x.f.pend {
				if w.off+int64(len(w.data)) <= n {
					keep = append(keep, w)
				}
			}
			x.f.pend = keep
		case "fsync", "fdatasync":
			for f, sn := range snaps[ev.sync] {
				if sn.gen < f.durGen {
					continue // a later sync was done first
				}
				f.dur, f.durGen = sn.b, sn.gen
				for len(f.pend) > 0 && f.pend[0].gen <= sn.gen {
					f.pend = f.pend[1:]
				}
			}
			delete(snaps, ev.sync)
		case "rename", "renameat", "renameat2":
			if len(strs) == 2 && inRoot(strs[0]) {
				if f := d.files[strs[0]]; f != nil {
					delete(d.files, strs[0])
					d.files[strs[1]] = f
				} else {
					panic(unsupported("rename of " + strs[0]))
				}
			}
		case "unlink", "unlinkat", "rmdir":
			if len(strs) == 1 && inRoot(strs[0]) {
				delete(d.files, strs[0])
				delete(d.dirs, strs[0])
			}
		case "mkdir", "mkdirat":
			if len(strs) == 1 && inRoot(strs[0]) {
				d.dirs[strs[0]] = true
			}
		case "mmap":
			if strings.Contains(ev.args, "PROT_WRITE") && strings.Contains(ev.args, "MAP_SHARED") && len(plain) > 4 {
				n, e := strconv.Atoi(plain[4])
				if e == nil && d.fds[n] != nil {
					panic(unsupported("writable shared mapping of a store file"))
				}
			}
		case "sync", "syncfs":
			for _, f := range d.files {
				f.dur = append([]byte(nil), f.vol...)
				f.pend = nil
			}
		case "msync", "sync_file_range":
		case "io_uring_setup", "io_submit":
			panic(unsupported(ev.call))
		case "fallocate", "truncate", "link", "linkat", "writev", "pwritev", "pwritev2", "copy_file_range", "sendfile", "splice":
			if x := fdOf(); x != nil || len(strs) > 0 && inRoot(strs[0]) {
				panic(unsupported(ev.call + " on a store file"))
			}
		}
	}
	return nil
}

// loadDir makes the state of an existing directory, all durable.
func loadDir(root string) (*dfs, error) {
	d := &dfs{files: map[string]*dfile{}, fds: map[int]*dfd{}, dirs: map[string]bool{}, root: root}
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			d.dirs[p] = true
			return nil
		}
		b, err := ioutil.ReadFile(p)
		if err != nil {
			return err
		}
		d.files[p] = &dfile{vol: b, dur: append([]byte(nil), b...), name: p}
		return nil
	})
	return d, err
}

// runTraced replays the system calls of a process and opens what a crash at
// some of them would leave: a process crash if kill is set.
func runTraced(c *Case, kill bool) {
	be := backendOf(c.Shard.Backend)
	dir := c.TempDir()
	seed := c.R.Int63n(1 << 40)
	m := Model{}
	at := 0
	var extra cfgT
	if be.name == "goleveldb" && c.R.Intn(2) == 0 {
		extra = cfgT{"write_buffer_size": float64(4096)}
	}
	gens := 1 + c.R.Intn(2)
	for g := 0; g < gens; g++ {
		d, err := loadDir(dir)
		if err != nil {
			c.Infra("load: %v", err)
		}
		tr := filepath.Join(c.Dir, fmt.Sprintf("trace-%d-%d", c.Idx, g))
		sp := victimSpec{Backend: be.name, Dir: dir, Seed: seed, Start: at, N: 5 + c.R.Intn(40), Extra: extra}
		if bigBatches(seed) {
			sp.N = 3 + c.R.Intn(6)
			for k := at; k < at+sp.N; k++ {
				if len(victimBatch(seed, k)) > 1000 {
					c.Count("batches_over_1000_operations", 1)
				}
			}
		}
		if c.R.Intn(2) == 0 {
			sp.End = "close"
		}
		c.Logf("generation %d: batches %d to %d, %s", g, at, at+sp.N-1, sp.End)
		dd := c.runVictim(sp, []string{"strace", "-f", "-xx", "-s", "16000000", "-o", tr, "-e", "trace=" + tracedCalls, "-e", "signal=none"}, -1, 0)
		c.Tick()
		if dd.acked != at+sp.N {
			c.Infra("the traced process ended early: %+v", dd)
		}
		evs, err := parseTrace(tr)
		os.Remove(tr)
		if err != nil {
			c.Infra("trace: %v", err)
		}
		c.Tick()
		for _, ev := range evs {
			if ev.entry {
				continue
			}
			switch ev.call {
			case "fsync", "fdatasync":
				c.Count("syncs", 1)
			case "write", "pwrite64":
				c.Count("writes", 1)
			}
		}
		// crash points
		budget := 30
		if be.name == "badger" {
			budget = 12
		}
		type point struct{ i int }
		var acks, others, writes []int
		for i, ev := range evs {
			if ev.entry && ev.call == "write" && strings.HasPrefix(ev.args, "1, ") && strings.HasPrefix(ev.args, `1, "\x41`) {
				acks = append(acks, i)
			} else if !ev.entry {
				others = append(others, i)
				if ev.call == "write" || ev.call == "pwrite64" {
					writes = append(writes, i)
				}
			}
		}
		if len(acks) != sp.N {
			c.Infra("%d acknowledgements in the trace, %d expected", len(acks), sp.N)
		}
		pick := map[int]bool{}
		for n := 0; n < budget; n++ {
			pick[acks[c.R.Intn(len(acks))]] = true
			pick[others[c.R.Intn(len(others))]] = true
			if kill {
				pick[writes[c.R.Intn(len(writes))]] = true
			}
		}
		pick[acks[len(acks)-1]] = true
		issued, acked := at, at
		opened := g > 0
		img := 0
		err = d.replay(evs, func(i int, ev traceEvent) {
			isAck := false
			if ev.entry && ev.call == "write" && strings.HasPrefix(ev.args, `1, "`) {
				strs, _ := splitArgs(ev.args)
				b, _ := unhex(strs[0])
				l := strings.TrimSpace(string(b))
				if l == "O" {
					opened = true
				}
				if strings.HasPrefix(l, "I ") {
					k, _ := strconv.Atoi(l[2:])
					issued = k + 1
				}
				if strings.HasPrefix(l, "A ") {
					k, _ := strconv.Atoi(l[2:])
					acked = k + 1
					isAck = true
				}
			}
			if !pick[i] || !opened {
				return
			}
			img++
			dst := filepath.Join(c.Dir, fmt.Sprintf("img-%d-%d", c.Idx, img))
			dirty := d.dirty()
			kind := imgDurable
			wf, off, data := d.fileOf(ev)
			if ev.entry || ev.ret <= 0 || len(data) == 0 {
				wf = nil
			}
			if wf != nil {
				data = data[:c.cut(len(data))]
			}
			if !kill && (dirty || wf != nil) && c.R.Intn(2) == 0 {
				kind = imgPartial
			}
			how := "machine crash"
			content := func(p string, f *dfile) []byte { return f.dur }
			if kind == imgPartial {
				how = "machine crash keeping some unsynced writes,"
				content = func(p string, f *dfile) []byte {
					b := f.partial(c.R.Intn(len(f.pend)+1), c.cut)
					if f == wf && len(data) > 0 {
						// the write going on, after all those before it
						b = put(f.partial(len(f.pend), func(n int) int { return n }), off, data)
					}
					if int64(len(b)) < int64(len(f.dur)) {
						b = resize(b, int64(len(f.dur)))
					}
					return b
				}
				dirty = true
				c.Count("images_with_part_of_unsynced_data", 1)
				if wf != nil {
					c.Count("images_with_torn_write", 1)
				}
			}
			if kill {
				kind = imgKilled
				how = "process killed"
				if wf != nil {
					how = fmt.Sprintf("process killed after the first %d of %d bytes of a write to %s,", len(data), ev.ret, filepath.Base(wf.name))
					c.Count("images_with_torn_write", 1)
					dirty = true
				}
				content = func(p string, f *dfile) []byte {
					if f == wf && len(data) > 0 {
						return put(append([]byte(nil), f.vol...), off, data)
					}
					return f.vol
				}
			}
			if err := d.image(dst, content); err != nil {
				c.Infra("image: %v", err)
			}
			what := fmt.Sprintf(how+" at traced call %d (%s %s; %d batches acknowledged, %d issued)", i, ev.call, trim(ev.args, 60), acked, issued)
			var left map[string][]byte
			if be.name == "badger" {
				left = files(dst)
			}
			s, err := openStore(be.name, dst, &foldOp{partial: 2}, extra)
			if err != nil {
				c.Fail("reopen", "%s: the store does not open from what is left: %v", what, err)
			}
			got := c.content(s)
			n, mm, key, msg := prefixOf(got, m, seed, at, acked, issued, what)
			if key != "" && left != nil && c.emptiedLog(left) {
				c.mustClose(s)
				c.Report("badger-emptied-log", "%s", msg)
				c.Count("badger_emptied_log", 1)
				os.RemoveAll(dst)
				return
			}
			if key != "" {
				c.Fail(key, "%s", msg)
			}
			if c.R.Intn(3) == 0 {
				c.exec(s, victimBatch(seed, n))
				advance(mm, seed, n, n+1)
				if d := diffModel(mm, c.content(s)); d != "" {
					c.Fail("after", "%s: a batch executed after the crash: %s", what, d)
				}
			}
			c.mustClose(s)
			os.RemoveAll(dst)
			c.Count("crash_images", 1)
			if isAck {
				c.Count("images_at_acknowledgement", 1)
			}
			if dirty {
				if kind == imgDurable {
					c.Count("images_with_unsynced_data_dropped", 1)
				}
				c.Nontrivial(fmt.Sprint(be.name, seed, g, i))
			}
			c.Tick()
		})
		if err != nil {
			c.Infra("replay: %v", err)
		}
		// the replayed files are the real ones; a process that exits may be
		// interrupted in the middle of a background write
		for p, f := range d.files {
			if sp.End != "close" {
				break
			}
			b, err := ioutil.ReadFile(p)
			if err != nil || string(b) != string(f.vol) {
				c.Infra("the replayed file %s differs from the real one (%d and %d bytes, %v)", p, len(f.vol), len(b), err)
			}
		}
		c.Count("acknowledged_batches", sp.N)
		advance(m, seed, at, at+sp.N)
		at += sp.N
	}
	if c.Idx == 0 {
		c.Sample(strings.Join(c.history(), " | "))
	}
}

// cut chooses how much of n bytes is kept: nothing, everything, or a part
// ending anywhere.
func (c *Case) cut(n int) int {
	switch c.R.Intn(6) {
	case 0:
		return 0
	case 1:
		return n
	case 2:
		if n > 4096 {
			return n / 4096 * 4096
		}
		return n / 2
	case 3:
		if n > 8 {
			return n - 1 - c.R.Intn(8)
		}
	}
	return c.R.Intn(n + 1)
}
