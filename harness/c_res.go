package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/akhenakh/oureadb/store"
)

// ---------------------------------------------------------------- C40

func init() {
	register(&Check{
		ID:   "C40",
		Rule: "a case is a session, openings or failing openings. A session runs random batches (valid, failing, abandoned, reset), readers and iterators (half read, moved to and fro, over any prefix or range) on one store, partly from several goroutines, closes every handle and then observes what is left: no goroutine with a frame of the store or its engine beyond those there when it was opened, no open engine transaction (Bolt's own statistics), and while the same entries are overwritten again and again, files (Bolt, GoLevelDB after compaction) or heap (GTreap) that stop growing. Openings open, use and close one path many times: after each Close no descriptor or mapping of the path, no lock, no engine goroutine, and the path opens again at once; at the end the heap is where it was. Failing openings are refused for a random reason (path in use, missing, of the wrong kind, not a store, options) and leave nothing either: the path can be opened when the reason is gone. Non-trivial: iterators were closed before their end, or a store was closed or refused; identified by the operations.",
		Shards: func(th bool) []Shard {
			return shardsPerBackend(allBackends, 2, 14, th, 20)
		},
		Run:    runC40,
		Need:   []string{"iterators_half_read", "seeks", "batches_failed", "batches_abandoned", "compactions", "goroutine_censuses", "files_watched", "heaps_watched", "stores_closed", "openings_refused"},
		Assume: []string{"goroutines are given 20 seconds to end after Close returned; descriptors and mappings none", "Badger's files and memory are not watched while it is open: it reclaims them only when its own tables fill, which takes hundreds of megabytes"},
	})
}

var libFrames = []string{"akhenakh/oureadb", "steveyen/gtreap", "syndtr/goleveldb", "dgraph-io/badger", "boltdb/bolt"}

// libGoroutines lists the other goroutines which run or were started by the
// stores and their engines.
func libGoroutines() (int, string) {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	n, first := 0, ""
	for i, g := range strings.Split(string(buf), "\n\n") {
		if i == 0 {
			continue // the caller
		}
		for _, f := range libFrames {
			if strings.Contains(g, f) {
				n++
				if first == "" {
					first = g
				}
				break
			}
		}
	}
	return n, first
}

// census waits for the engine goroutines to be at most max.
func (c *Case) census(max int, when string) {
	c.Count("goroutine_censuses", 1)
	var n int
	var st string
	for t := 0; t < 2000; t++ {
		if n, st = libGoroutines(); n <= max {
			return
		}
		c.Tick()
		time.Sleep(10 * time.Millisecond)
	}
	c.Fail("goroutines", "%s: %d goroutines of the store or its engine are left, %d expected; the first one:\n%s", when, n, max, trim(st, 1500))
}

// heldFiles lists descriptors and mappings of files under dir.
func heldFiles(dir string) []string {
	var res []string
	fds, _ := ioutil.ReadDir("/proc/self/fd")
	for _, f := range fds {
		if l, err := os.Readlink("/proc/self/fd/" + f.Name()); err == nil && (l == dir || strings.HasPrefix(l, dir+"/")) {
			res = append(res, "descriptor "+f.Name()+" -> "+strings.TrimPrefix(l, dir))
		}
	}
	if maps, err := ioutil.ReadFile("/proc/self/maps"); err == nil {
		for _, l := range strings.Split(string(maps), "\n") {
			if i := strings.Index(l, dir+"/"); i >= 0 {
				res = append(res, "mapping of "+l[i+len(dir):])
			}
		}
	}
	return res
}

func (c *Case) nothingHeld(dir, when string) {
	if h := heldFiles(dir); len(h) > 0 {
		c.Fail("held", "%s: still held: %s", when, strings.Join(h, ", "))
	}
	// a lock held through a descriptor that is not ours any more
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || !fi.Mode().IsRegular() {
			return nil
		}
		f, err := os.Open(p)
		if err != nil {
			return nil
		}
		if err := syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB); err != nil {
			c.Report("locked", "%s: %s is still locked: %v", when, strings.TrimPrefix(p, dir), err)
		}
		f.Close()
		return nil
	})
}

func heapNow() uint64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

// filesSize sums the files below dir.
func filesSize(dir string) int64 {
	var n int64
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			n += fi.Size()
		}
		return nil
	})
	return n
}

func runC40(c *Case) {
	be := backendOf(c.Shard.Backend)
	switch k := c.R.Intn(6); {
	case be.disk && k == 0:
		c.refusedC40(be)
	case be.disk && k <= 2:
		c.cyclesC40(be)
	default:
		c.sessionC40(be)
	}
	if c.Idx < 2 {
		c.Sample(strings.Join(c.history(), " | "))
	}
}

// useIter moves an iterator about and leaves it somewhere.
func (c *Case) useIter(it store.KVIterator, g *keyGen, r *rand.Rand) {
	for i, n := 0, r.Intn(8); i < n; i++ {
		switch r.Intn(4) {
		case 0:
			it.Seek(g.pick(r))
			c.Count("seeks", 1)
		case 1:
			k, v, ok := it.Current()
			_, _, _ = k, v, ok
		default:
			if it.Valid() {
				it.Next()
			}
		}
	}
	if it.Valid() {
		c.Count("iterators_half_read", 1)
	}
}

func anyIter(rd store.KVReader, g *keyGen, r *rand.Rand) store.KVIterator {
	switch r.Intn(4) {
	case 0:
		return rd.RangeIterator(nil, nil)
	case 1:
		return rd.RangeIterator(g.pick(r), nil)
	case 2:
		k := g.pick(r)
		if len(k) > 0 {
			k = k[:r.Intn(len(k)+1)]
		}
		if len(k) == 0 {
			return rd.PrefixIterator(nil)
		}
		return rd.PrefixIterator(k)
	}
	a, b := g.pick(r), g.pick(r)
	if string(a) > string(b) {
		a, b = b, a
	}
	if len(b) == 0 {
		b = nil
	}
	return rd.RangeIterator(a, b)
}

// read uses readers and iterators, interleaved, and closes them all.
func (c *Case) readC40(s store.KVStore, g *keyGen, r *rand.Rand) {
	var rds []store.KVReader
	var its [][]store.KVIterator
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		rd := c.mustReader(s)
		rds = append(rds, rd)
		its = append(its, nil)
		for j, k := 0, r.Intn(4); j < k; j++ {
			its[i] = append(its[i], anyIter(rd, g, r))
		}
	}
	for t := 0; t < 6; t++ {
		i := r.Intn(len(rds))
		switch {
		case r.Intn(4) == 0:
			rds[i].Get(g.pick(r))
		case r.Intn(4) == 0:
			rds[i].MultiGet([][]byte{g.pick(r), []byte("missing"), g.pick(r)})
		case len(its[i]) > 0:
			c.useIter(its[i][r.Intn(len(its[i]))], g, r)
		}
	}
	// iterators first, of any reader in any order
	for _, i := range r.Perm(len(rds)) {
		for _, j := range r.Perm(len(its[i])) {
			if err := its[i][j].Close(); err != nil {
				c.Fail("iter-close", "closing an iterator failed: %v", err)
			}
		}
		if err := rds[i].Close(); err != nil {
			c.Fail("reader-close", "closing a reader failed: %v", err)
		}
	}
}

func (c *Case) writeC40(s store.KVStore, be backendInfo, mo *foldOp, g *keyGen, r *rand.Rand) {
	switch r.Intn(6) {
	case 0: // abandoned
		w := c.mustWriter(s)
		b := w.NewBatch()
		fillBatch(b, genOps(r, g, 1+r.Intn(10), 20))
		if r.Intn(2) == 0 {
			b.Reset()
		}
		b.Close()
		w.Close()
		c.Count("batches_abandoned", 1)
	case 1: // failing
		var ops []kvop
		switch {
		case be.name == "boltdb" && r.Intn(2) == 0:
			ops = append(genOps(r, g, r.Intn(6), 20), kvop{opSet, make([]byte, 40000), []byte("x")})
		case be.name == "badger" && r.Intn(2) == 0:
			ops = append(genOps(r, g, r.Intn(6), 20), kvop{opSet, make([]byte, 70000), []byte("x")})
		default:
			ops = append(genOps(r, g, r.Intn(6), 20), kvop{opMerge, []byte("refused"), []byte("x")})
		}
		if err := c.tryExec(s, ops); err == nil {
			c.Fail("false-success", "a batch that cannot be executed was acknowledged: %s", opsString(ops))
		}
		c.Count("batches_failed", 1)
	case 2:
		c.tryExec(s, genMergeOps(r, g, 1+r.Intn(6))) // badger may refuse a conflicting one
	default:
		if err := c.tryExec(s, genOps(r, g, 1+r.Intn(10), 20)); err != nil && !isConflict(be.name, err) {
			c.Fail("exec", "executing a valid batch failed: %v", err)
		}
	}
}

// compactC40 compacts a store which can be.
func (c *Case) compactC40(s store.KVStore, r *rand.Rand) {
	cs, ok := s.(compacter)
	if !ok {
		return
	}
	var err error
	if r.Intn(2) == 0 {
		err = cs.Compact()
	} else {
		err = s.(sizeCompacter).CompactWithBatchSize(1 + r.Intn(20))
	}
	if err != nil {
		c.Fail("compact", "compacting failed: %v", err)
	}
	c.Count("compactions", 1)
}

// noTransactions: Bolt's statistics count the open read transactions.
func (c *Case) noTransactions(s store.KVStore, when string) {
	st, ok := s.(interface{ Stats() json.Marshaler })
	if !ok {
		return
	}
	b, err := st.Stats().MarshalJSON()
	var x struct{ OpenTxN *int }
	if err == nil {
		err = json.Unmarshal(b, &x)
	}
	if err != nil || x.OpenTxN == nil {
		c.Fail("stats", "the store's statistics cannot be read: %v %s", err, trim(string(b), 200))
	}
	if *x.OpenTxN != 0 {
		c.Fail("transactions", "%d engine transactions are open %s", *x.OpenTxN, when)
	}
}

func (c *Case) sessionC40(be backendInfo) {
	dir := c.TempDir()
	n0, _ := libGoroutines()
	g := newKeyGen(c.R, 4+c.R.Intn(60), be.emptyKey)
	mo := &foldOp{partial: c.R.Intn(3), refuse: map[string]bool{"refused": true}}
	s := c.mustOpen(be.name, dir, mo, c.someOptions(be.name))
	if c.R.Intn(3) == 0 {
		// nothing there yet
		c.compactC40(s, c.R)
		c.noTransactions(s, "after compacting an empty store")
	}
	c.prefill(be, s)
	c.exec(s, genOps(c.R, g, 60, 0))
	ballast, each := 40, 2048
	switch be.name {
	case "gtreap":
		each = 1 << 16
	case "boltdb":
		each = 1 << 14
	}
	val := make([]byte, each)
	churn := func() {
		ops := make([]kvop, ballast)
		for i := range ops {
			v := append([]byte(nil), val...)
			c.R.Read(v[:2048])
			ops[i] = kvop{opSet, []byte(fmt.Sprintf("~ballast%03d", i)), v}
		}
		c.exec(s, ops)
	}
	churn()
	n1, _ := libGoroutines()
	heap0 := heapNow()
	rounds := 6 + c.R.Intn(10)
	for i := 0; i < rounds; i++ {
		c.Logf("round %d", i)
		if c.R.Intn(4) == 0 {
			c.compactC40(s, c.R)
		}
		if c.R.Intn(3) == 0 {
			// batches and readers from several goroutines
			c.clients(2+c.R.Intn(3), func(k int, r *rand.Rand) {
				for t := 0; t < 3; t++ {
					if x := r.Intn(9); x < 4 {
						c.readC40(s, g, r)
					} else if x == 8 {
						c.compactC40(s, r)
					} else {
						c.writeC40(s, be, mo, g, r)
					}
				}
			})
		} else {
			// versions replaced while readers are open
			r := c.mustReader(s)
			it := anyIter(r, g, c.R)
			c.useIter(it, g, c.R)
			if be.name == "gtreap" || i%3 == 0 {
				churn()
			}
			c.writeC40(s, be, mo, g, c.R)
			c.readC40(s, g, c.R)
			c.useIter(it, g, c.R)
			if err := it.Close(); err != nil {
				c.Fail("iter-close", "closing an iterator failed: %v", err)
			}
			if err := r.Close(); err != nil {
				c.Fail("reader-close", "closing a reader failed: %v", err)
			}
		}
	}
	max := n1
	if be.name == "goleveldb" || be.name == "badger" {
		max += 4 // engine goroutines come and go with compactions
	}
	c.census(max, fmt.Sprintf("after %d rounds, with every reader, iterator and batch closed", rounds))
	c.noTransactions(s, "although every reader is closed")
	total := int64(0)
	switch be.name {
	case "boltdb":
		c.Count("files_watched", 1)
		for i := 0; i < 4; i++ {
			churn()
		}
		// the file has 12 MB of free pages: only pages that can't be freed
		// would make it grow
		a := filesSize(dir)
		for i := 0; i < 40; i++ {
			churn()
			total += int64(ballast * each)
		}
		if b := filesSize(dir); b > a {
			c.Fail("growth", "overwriting the same %d entries with %d bytes in all, nothing being open, made the file grow from %d to %d bytes", ballast, total, a, b)
		}
	case "goleveldb":
		c.Count("files_watched", 1)
		// closed handles the caller still refers to hold nothing either
		var keep []interface{}
		for i := 0; i < 24; i++ {
			churn()
			total += int64(ballast * each)
			r := c.mustReader(s)
			for j := c.R.Intn(3); j > 0; j-- {
				it := anyIter(r, g, c.R)
				c.useIter(it, g, c.R)
				for c.R.Intn(2) == 0 && it.Valid() {
					it.Next()
				}
				if c.R.Intn(3) == 0 {
					for it.Valid() {
						it.Next()
					}
				}
				it.Close()
				keep = append(keep, it)
			}
			r.Close()
			keep = append(keep, r)
		}
		if err := s.(compacter).Compact(); err != nil {
			c.Fail("compact", "compacting failed: %v", err)
		}
		live := int64(0)
		for k, v := range c.content(s) {
			live += int64(len(k) + len(v))
		}
		var size int64
		for t := 0; t < 2000; t++ {
			if size = filesSize(dir); size < live*3+300000 {
				break
			}
			c.Tick()
			time.Sleep(10 * time.Millisecond)
		}
		if size >= live*3+300000 {
			c.Fail("growth", "nothing being open and after compaction the files take %d bytes for %d bytes of entries", size, live)
		}
		runtime.KeepAlive(keep)
	case "gtreap":
		c.Count("heaps_watched", 1)
		// every round replaced the ballast: a version kept by each would show
		if h := heapNow(); h > heap0+uint64(ballast*each)*3 {
			c.Fail("growth", "nothing being open the heap grew from %d to %d bytes although the store has the same %d bytes of entries", heap0, h, ballast*each)
		}
	}
	runtime.KeepAlive(s)
	// iterators closed unread right before the store
	r := c.mustReader(s)
	for i := c.R.Intn(6); i > 0; i-- {
		it := anyIter(r, g, c.R)
		if c.R.Intn(3) == 0 {
			it.Seek(g.pick(c.R))
		}
		it.Close()
	}
	r.Close()
	c.mustClose(s)
	c.Count("stores_closed", 1)
	if be.disk {
		c.nothingHeld(dir, "after Close")
	}
	c.census(n0, "after Close")
	c.Eval(rounds)
	c.Nontrivial(be.name + fmt.Sprint(c.Shard.Name, c.Idx, c.R.Int63()))
}

func (c *Case) cyclesC40(be backendInfo) {
	dir := c.TempDir()
	n0, _ := libGoroutines()
	m := Model{}
	g := newKeyGen(c.R, 4+c.R.Intn(30), be.emptyKey)
	cycles := 5 + c.R.Intn(6)
	if be.name == "badger" {
		cycles = 4
	}
	var heap0 uint64
	for i := 0; i < cycles; i++ {
		c.Logf("cycle %d", i)
		s := c.mustOpen(be.name, dir, nil, c.someOptions(be.name))
		if d := diffModel(m, c.content(s)); d != "" {
			c.Fail("content", "opened for the %dth time: %s", i+1, d)
		}
		for k := c.R.Intn(4); k > 0; k-- {
			ops := genOps(c.R, g, c.R.Intn(20), 20)
			c.exec(s, ops)
			m.apply(ops)
			c.readC40(s, g, c.R)
		}
		if _, ok := s.(compacter); ok && c.R.Intn(2) == 0 {
			c.compactC40(s, c.R)
			for k, v := range m {
				if strings.HasPrefix(k, "d") && v == "\x00" {
					delete(m, k)
				}
			}
		}
		c.noTransactions(s, "before Close, every reader being closed")
		c.mustClose(s)
		c.Count("stores_closed", 1)
		c.nothingHeld(dir, fmt.Sprintf("after the %dth Close", i+1))
		if i == 1 {
			c.census(n0, "after the second Close")
			s = nil
			heap0 = heapNow()
		}
	}
	c.census(n0, fmt.Sprintf("after %d openings and closings", cycles))
	lim := uint64(8 << 20)
	if be.name == "badger" {
		lim = 100 << 20
	}
	if h := heapNow(); h > heap0+lim {
		c.Fail("growth", "after %d openings and closings the heap is %d bytes, after the second it was %d", cycles, h, heap0)
	}
	c.Eval(cycles)
	c.Nontrivial(be.name + fmt.Sprint("cycles", c.Shard.Name, c.Idx, cycles))
}

// refusedC40 makes an opening fail, removes the reason and opens.
func (c *Case) refusedC40(be backendInfo) {
	n0, _ := libGoroutines()
	for round := 0; round < 4; round++ {
		dir := c.TempDir()
		path := storePath(be.name, dir)
		cfg := cfgT{}
		fix := func() {}
		must := func(err error) {
			if err != nil {
				c.Infra("preparing a refused opening: %v", err)
			}
		}
		m := Model{}
		g := newKeyGen(c.R, 10, be.emptyKey)
		build := func() {
			s := c.mustOpen(be.name, dir, nil, nil)
			ops := genOps(c.R, g, 10, 0)
			c.exec(s, ops)
			m.apply(ops)
			c.mustClose(s)
		}
		var reason string
		var first store.KVStore
		switch k := c.R.Intn(4); {
		case k == 0 && be.name == "boltdb":
			reason = "path is a directory"
			must(os.Mkdir(path, 0700))
			fix = func() { must(os.Remove(path)) }
		case k == 1 && be.name == "boltdb":
			reason = "not a Bolt file"
			b := make([]byte, 8192+c.R.Intn(20000))
			c.R.Read(b)
			must(ioutil.WriteFile(path, b, 0600))
			fix = func() { must(os.Remove(path)) }
		case k == 2 && be.name == "boltdb":
			reason = "read-only and no such bucket"
			build()
			cfg["read_only"], cfg["bucket"] = true, "other"
		case be.name == "boltdb":
			reason = "empty bucket name"
			build()
			cfg["bucket"] = ""
		case k == 0:
			reason = "path is a file"
			must(ioutil.WriteFile(path, []byte("x"), 0600))
			fix = func() { must(os.Remove(path)) }
		case k == 1 && be.name == "goleveldb":
			reason = "must not exist"
			build()
			cfg["error_if_exists"] = true
		case k == 2 && be.name == "goleveldb":
			reason = "must exist"
			must(os.Mkdir(path, 0700))
			cfg["create_if_missing"] = false
		case k == 1:
			reason = "damaged manifest"
			build()
			good, err := ioutil.ReadFile(filepath.Join(path, "MANIFEST"))
			must(err)
			must(ioutil.WriteFile(filepath.Join(path, "MANIFEST"), []byte("nothing of the kind"), 0600))
			fix = func() { must(ioutil.WriteFile(filepath.Join(path, "MANIFEST"), good, 0600)) }
		default:
			reason = "in use"
			build()
			first = c.mustOpen(be.name, dir, nil, nil)
			fix = func() {}
		}
		c.Logf("refused: %s", reason)
		before := len(heldFiles(dir))
		n1, _ := libGoroutines()
		for i, n := 0, 1+c.R.Intn(4); i < n; i++ {
			if s, err := openStore(be.name, dir, nil, cfg); err == nil {
				s.Close()
				c.Fail("opened", "%s: opening succeeded", reason)
			}
			c.Count("openings_refused", 1)
		}
		if first != nil {
			if h := heldFiles(dir); len(h) > before {
				c.Fail("held", "refused (%s): still held: %s", reason, strings.Join(h, ", "))
			}
			c.census(n1, "refused ("+reason+")")
			// the one that has it is not disturbed
			ops := genOps(c.R, g, 10, 20)
			c.exec(first, ops)
			m.apply(ops)
			if d := diffModel(m, c.content(first)); d != "" {
				c.Fail("disturbed", "after a second opening was refused: %s", d)
			}
			c.mustClose(first)
		} else {
			c.nothingHeld(dir, "refused ("+reason+")")
			c.census(n0, "refused ("+reason+")")
		}
		fix()
		s := c.mustOpen(be.name, dir, nil, nil)
		if d := diffModel(m, c.content(s)); d != "" {
			c.Fail("content", "opened after having been refused (%s): %s", reason, d)
		}
		ops := genOps(c.R, g, 10, 20)
		c.exec(s, ops)
		m.apply(ops)
		if d := diffModel(m, c.content(s)); d != "" {
			c.Fail("content", "written after having been refused (%s): %s", reason, d)
		}
		c.mustClose(s)
		c.Count("stores_closed", 1)
		c.nothingHeld(dir, "closed after having been refused ("+reason+")")
	}
	c.census(n0, "after refused openings")
	c.Nontrivial(be.name + fmt.Sprint("refused", c.Shard.Name, c.Idx))
}

// ---------------------------------------------------------------- C41

func init() {
	register(&Check{
		ID:   "C41",
		Rule: "a case keeps two to five stores open side by side, of one backend or several, over one shared pool of keys, sharing or not the merge operator and the options map, and runs an independent random history on each: batches (valid, failing, with merges), long lived readers and iterators, compaction, closing, reopening, one after the other in random interleaving or from one goroutine per store; every store must match its own model at each step, the older readers their snapshot; some cases keep stores under names easily taken for one another (spaces, case, dots, unicode, relative). Non-trivial: at least two stores were written between two looks at a third; identified by the operations.",
		Shards: func(th bool) []Shard {
			return shardsPerBackend(allBackends, 2, 20, th, 20)
		},
		Run:  runC41,
		Need: []string{"stores", "steps", "looks_at_others", "closed_beside_open_ones", "reopened_beside_open_ones", "failed_beside_others", "concurrent_histories", "shared_operators", "shared_options", "mixed_backends", "batches_filled_side_by_side"},
	})
}

type sideStore struct {
	be    backendInfo
	dir   string
	mo    *foldOp
	cfg   cfgT
	s     store.KVStore
	m     Model
	r     store.KVReader // an older reader
	it    *iterPair
	rm    Model
	b     store.KVBatch // being filled
	bops  []kvop
	n     int
	moved int
}

func (x *sideStore) open(c *Case) {
	x.s = c.mustOpen(x.be.name, x.dir, x.mo, x.cfg)
}

func (x *sideStore) dropReader(c *Case) {
	if x.it != nil {
		x.it.it.Close()
		x.it = nil
	}
	if x.r != nil {
		x.r.Close()
		x.r = nil
	}
}

// step runs one operation; every choice comes from r.
func (x *sideStore) step(c *Case, g *keyGen, r *rand.Rand, logf func(string, ...interface{})) {
	x.n++
	switch k := r.Intn(12); {
	case k == 0 && x.be.disk:
		logf("close and open again")
		x.dropReader(c)
		x.b = nil
		c.mustClose(x.s)
		c.Count("closed_beside_open_ones", 1)
		runtime.Gosched()
		x.open(c)
		c.Count("reopened_beside_open_ones", 1)
	case k == 1:
		ops := append(genOps(r, g, r.Intn(6), 20), kvop{opMerge, []byte("refused"), []byte("x")})
		if err := c.tryExec(x.s, ops); err == nil {
			c.Fail("false-success", "a batch that cannot be executed was acknowledged")
		}
		logf("failing batch")
		c.Count("failed_beside_others", 1)
	case k == 2 && x.r == nil:
		logf("reader")
		x.r, x.rm = c.mustReader(x.s), x.m.clone()
		x.it = nil
		if r.Intn(2) == 0 {
			x.it = &iterPair{it: x.r.RangeIterator(nil, nil), mi: x.rm.iter(nil, false, nil, nil)}
		}
	case k == 3 && x.r != nil:
		logf("close the reader")
		x.dropReader(c)
	case k == 4:
		cs, ok := x.s.(compacter)
		if !ok {
			break
		}
		logf("compact")
		if err := cs.Compact(); err != nil {
			c.Fail("compact", "compacting failed: %v", err)
		}
		for k, v := range x.m {
			if strings.HasPrefix(k, "d") && v == "\x00" {
				delete(x.m, k)
			}
		}
	case k == 5 && x.b == nil:
		// a batch being filled while the other stores are used
		w := c.mustWriter(x.s)
		x.b, x.bops = w.NewBatch(), nil
		w.Close()
		fallthrough
	case k <= 7 && x.b != nil:
		ops := genMergeOps(r, g, 1+r.Intn(4))
		ops = compatible(x.bops, ops)
		logf("fill %s", opsString(ops))
		fillBatch(x.b, ops)
		x.bops = append(x.bops, ops...)
		c.Count("batches_filled_side_by_side", 1)
		if r.Intn(2) == 0 {
			w := c.mustWriter(x.s)
			if err := w.ExecuteBatch(x.b); err != nil {
				c.Fail("exec", "executing a valid batch failed: %v\n%s", err, opsString(x.bops))
			}
			x.b.Close()
			w.Close()
			applyMerges(x.m, x.mo, x.bops)
			logf("executed")
			x.b = nil
		}
	default:
		var ops []kvop
		if r.Intn(2) == 0 {
			ops = genMergeOps(r, g, 1+r.Intn(8))
		} else {
			ops = genOps(r, g, 1+r.Intn(8), 25)
		}
		logf("batch %s", opsString(ops))
		c.exec(x.s, ops)
		applyMerges(x.m, x.mo, ops)
	}
	c.Count("steps", 1)
}

// compatible leaves out operations on keys which done merges or which would
// merge keys set by it.
func compatible(done, ops []kvop) []kvop {
	kind := map[string]bool{}
	for _, o := range done {
		kind[string(o.k)] = o.kind == opMerge
	}
	var res []kvop
	for _, o := range ops {
		if mg, ok := kind[string(o.k)]; ok && mg != (o.kind == opMerge) {
			continue
		}
		res = append(res, o)
	}
	return res
}

func (x *sideStore) look(c *Case, g *keyGen, r *rand.Rand, what string) {
	rd := c.mustReader(x.s)
	if d := diffModel(x.m, c.scan(rd)); d != "" {
		rd.Close()
		c.Fail("content", "%s: %s", what, d)
	}
	for i := 0; i < 4; i++ {
		c.checkGet(rd, x.m, g.pick(r), what)
	}
	rd.Close()
	if x.r != nil {
		for i := 0; i < 4; i++ {
			c.checkGet(x.r, x.rm, g.pick(r), what+" (older reader)")
		}
		if r.Intn(3) == 0 {
			if d := diffModel(x.rm, c.scan(x.r)); d != "" {
				c.Fail("snapshot", "%s, older reader: %s", what, d)
			}
		}
		if x.it != nil {
			for i := 0; i < 1+r.Intn(3); i++ {
				c.checkIter(x.it.it, x.it.mi, x.rm, what+" (older iterator)")
				if !x.it.it.Valid() {
					break
				}
				if r.Intn(4) == 0 {
					k := g.pick(r)
					x.it.it.Seek(k)
					x.it.mi.seek(string(k))
				} else {
					x.it.it.Next()
					x.it.mi.next()
				}
			}
		}
	}
}

func runC41(c *Case) {
	be := backendOf(c.Shard.Backend)
	if be.disk && c.R.Intn(8) == 0 {
		c.oddPaths(be, "path")
		return
	}
	var names []string
	emptyKey := be.emptyKey
	n := 2 + c.R.Intn(4)
	mixed := c.R.Intn(2) == 0
	for i := 0; i < n; i++ {
		b := be.name
		if i > 0 && mixed {
			b = []string{"gtreap", "boltdb", "goleveldb"}[c.R.Intn(3)]
		}
		if b == "badger" && i >= 2 {
			b = "gtreap"
		}
		emptyKey = emptyKey && backendOf(b).emptyKey
		names = append(names, b)
	}
	if mixed {
		c.Count("mixed_backends", 1)
	}
	g := newKeyGen(c.R, 4+c.R.Intn(20), emptyKey)
	root := c.TempDir()
	var xs []*sideStore
	mo := &foldOp{partial: c.R.Intn(3), refuse: map[string]bool{"refused": true}}
	shareMo := c.R.Intn(2) == 0
	shareCfg := c.R.Intn(2) == 0
	cfg := cfgT{}
	if shareMo {
		c.Count("shared_operators", 1)
	}
	for i, b := range names {
		x := &sideStore{be: backendOf(b), dir: filepath.Join(root, fmt.Sprint(i)), mo: mo, m: Model{}}
		if err := os.Mkdir(x.dir, 0700); err != nil {
			c.Infra("mkdir: %v", err)
		}
		if !shareMo {
			x.mo = &foldOp{partial: c.R.Intn(3), refuse: map[string]bool{"refused": true}, sep: "/~!=+"[i]}
		}
		if shareCfg {
			// one map for all of them, changed from one opening to the next
			for k := range cfg {
				delete(cfg, k)
			}
			cfg["path"] = storePath(b, x.dir)
			cfg["create_if_missing"] = true
			before := fmt.Sprint(cfg)
			s, err := openRaw(b, x.mo, cfg)
			if err != nil {
				c.Fail("open", "opening the %s store failed: %v", b, err)
			}
			if after := fmt.Sprint(cfg); after != before {
				c.Fail("options-changed", "opening the %s store changed the caller's options from %s to %s", b, before, after)
			}
			x.s = s
			c.Count("shared_options", 1)
		} else {
			x.cfg = c.someOptions(b)
			x.open(c)
		}
		c.prefill(x.be, x.s)
		xs = append(xs, x)
	}
	c.Count("stores", n)
	if shareCfg {
		cfg["path"] = "elsewhere"
	}
	var mu sync.Mutex
	var id strings.Builder
	log := func(i int) func(string, ...interface{}) {
		return func(f string, a ...interface{}) {
			mu.Lock()
			defer mu.Unlock()
			l := fmt.Sprintf("store %d (%s): ", i, names[i]) + fmt.Sprintf(f, a...)
			id.WriteString(l)
			c.Logf("%s", l)
		}
	}
	for round, rounds := 0, 1+c.R.Intn(3); round < rounds; round++ {
		if c.R.Intn(2) == 0 {
			last := -1
			for t := 0; t < 12*n; t++ {
				i := c.R.Intn(n)
				xs[i].step(c, g, c.R, log(i))
				j := c.R.Intn(n)
				if j != i && j != last {
					c.Count("looks_at_others", 1)
				}
				last = i
				xs[j].look(c, g, c.R, fmt.Sprintf("store %d (%s) after a step of store %d (%s)", j, names[j], i, names[i]))
			}
		} else {
			c.Count("concurrent_histories", 1)
			c.clients(n, func(i int, r *rand.Rand) {
				for t := 0; t < 10; t++ {
					jitter(r)
					xs[i].step(c, g, r, log(i))
					xs[i].look(c, g, r, fmt.Sprintf("store %d (%s), the others in use at the same time", i, names[i]))
				}
			})
		}
		for i, x := range xs {
			x.look(c, g, c.R, fmt.Sprintf("store %d (%s) at the end of round %d", i, names[i], round))
		}
	}
	c.Nontrivial(id.String())
	// closing one after the other leaves those still open as they are
	for _, i := range c.R.Perm(n) {
		xs[i].dropReader(c)
		c.mustClose(xs[i].s)
		xs[i].s = nil
		c.Count("closed_beside_open_ones", 1)
		for j, x := range xs {
			if x.s != nil {
				x.look(c, g, c.R, fmt.Sprintf("store %d (%s) after closing store %d (%s)", j, names[j], i, names[i]))
				if c.R.Intn(2) == 0 {
					x.step(c, g, c.R, log(j))
				}
			}
		}
	}
	for i, x := range xs {
		if x.be.disk {
			x.open(c)
			if d := diffModel(x.m, c.content(x.s)); d != "" {
				c.Fail("content", "store %d (%s) after closing every store and opening it again: %s", i, names[i], d)
			}
			c.mustClose(x.s)
		}
	}
	if c.Idx == 0 {
		c.Sample(strings.Join(c.history(), " | "))
	}
}
