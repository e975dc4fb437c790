package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/akhenakh/oureadb/store"
	"github.com/akhenakh/oureadb/store/goleveldb"
	"github.com/golang/geo/s2"
)

// ---------------------------------------------------------------- C04

// foreignBatch is a batch no store knows.
type foreignBatch struct{}

func (foreignBatch) Set(k, v []byte)   {}
func (foreignBatch) Delete(k []byte)   {}
func (foreignBatch) Merge(k, v []byte) {}
func (foreignBatch) Reset()            {}
func (foreignBatch) Close() error      { return nil }

func limitFileSize(n uint64) func() {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	l := old
	l.Cur = n
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		return nil
	}
	return func() { syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old) }
}

func init() {
	register(&Check{
		ID:    "C04",
		Level: "fault_enumeration",
		Rule:  "a case alternates valid batches with batches made to fail at a random operation (merge operator refusing or panicking, invalid key in the middle, batch beyond the backend's size limit, foreign or missing batch, file size limit standing in for a full disk, write conflict injected from inside a merge), and in one case in three executes batches of several goroutines at once, some of which fail; after every batch the content must be the old one if an error was returned and the new one if nil was, for a new reader and after reopening, and the next batch and reader must work. Non-trivial: at least one batch with effects failed; identified by the batches executed.",
		Shards: func(th bool) []Shard {
			return shardsPerBackend(allBackends, 2, 60, th, 20)
		},
		Run:    runC04,
		Need:   []string{"failed_batches", "acknowledged_batches", "merge_refused", "merge_panicked", "invalid_key", "too_big", "foreign_batch", "disk_full", "more_disk_full", "compact_disk_full", "conflict", "huge", "together_acknowledged", "together_failed"},
		Assume: []string{"the storage engines' own recovery from a partially written file is trusted: after a full disk the store is reopened before it is written again"},
	})
}

func runC04(c *Case) {
	be := backendOf(c.Shard.Backend)
	g := newKeyGen(c.R, 4+c.R.Intn(16), be.emptyKey)
	dir := c.TempDir()
	mo := &hookOp{foldOp: foldOp{partial: c.R.Intn(3)}}
	extra := c.someOptions(be.name)
	s := c.mustOpen(be.name, dir, mo, extra)
	m := Model{}
	var id strings.Builder
	failed := 0
	verify := func(what string) {
		if d := diffModel(m, c.content(s)); d != "" {
			c.Fail("atomic", "%s: %s", what, d)
		}
	}
	// run executes a batch and applies it to the model if acknowledged
	run := func(kind string, ops []kvop, mustFail bool) error {
		c.Logf("%s: %s", kind, opsString(ops))
		id.WriteString(kind + opsString(ops))
		var err error
		p, st := Guard(func() { err = c.tryExec(s, ops) })
		if p != nil {
			if kind != "merge_panicked" {
				c.Fail("panic:"+panicSite(st), "%s: executing a batch panicked: %v\n%s", kind, p, trim(st, 1500))
			}
			err = fmt.Errorf("panic: %v", p)
		}
		c.Logf("  -> %v", err)
		if err == nil {
			if mustFail {
				c.Fail("false-success", "%s: the batch was reported as executed: %s", kind, opsString(ops))
			}
			applyMerges(m, &mo.foldOp, ops)
			c.Count("acknowledged_batches", 1)
		} else {
			failed++
			c.Count("failed_batches", 1)
		}
		verify(kind + fmt.Sprintf(" (error %v)", err))
		return err
	}
	ops := genOps(c.R, g, 3+c.R.Intn(10), 10)
	if err := run("valid", ops, false); err != nil {
		c.Fail("exec", "a valid batch failed: %v", err)
	}
	rounds := 4 + c.R.Intn(6)
	for i := 0; i < rounds; i++ {
		ops := genMergeOps(c.R, g, 2+c.R.Intn(10))
		mo.refuse, mo.boom, mo.hook = map[string]bool{}, map[string]bool{}, nil
		merged := mergedKeys(ops)
		kind := c.R.Intn(7)
		if i == 0 && c.Idx%4 == 0 {
			kind = 7
		}
		switch {
		case kind == 7:
			// thousands of operations, failing at the end if they can
			n := 1000 + c.R.Intn(12000)
			if be.name == "badger" && c.R.Intn(2) == 0 {
				n = 105000 + c.R.Intn(150000)
			}
			small := len(ops)
			for j := 0; j < n; j++ {
				ops = append(ops, kvop{opSet, []byte(fmt.Sprintf("many%d", j)), []byte{byte(j)}})
			}
			fails := c.R.Intn(4) > 0
			switch {
			case !fails:
			case be.name == "boltdb" || be.name == "badger":
				at := len(ops) - c.R.Intn(3)
				if c.R.Intn(3) == 0 {
					at = small + c.R.Intn(n)
				}
				ops = append(ops[:at:at], append([]kvop{{opSet, bytes.Repeat([]byte{'L'}, 70000), []byte("v")}}, ops[at:]...)...)
			case len(merged) > 0:
				mo.refuse[merged[c.R.Intn(len(merged))]] = true
			default:
				fails = false
			}
			err := run("huge", ops, fails)
			if !fails && err != nil && (be.name != "badger" || n < 100000) {
				c.Fail("exec", "a valid batch of %d operations failed: %v", len(ops), err)
			}
			if err == nil {
				var del []kvop
				for j := 0; j < n; j++ {
					del = append(del, kvop{opDel, []byte(fmt.Sprintf("many%d", j)), nil})
				}
				mo.refuse = map[string]bool{}
				for len(del) > 0 { // a batch which fits everywhere
					k := len(del)
					if k > 90000 {
						k = 90000
					}
					if err := run("valid", del[:k], false); err != nil {
						c.Fail("exec", "a valid batch of %d deletes failed: %v", k, err)
					}
					del = del[k:]
				}
			}
			c.Count("huge", 1)
		case kind == 0 && len(merged) > 0:
			mo.refuse[merged[c.R.Intn(len(merged))]] = true
			run("merge_refused", ops, true)
			c.Count("merge_refused", 1)
		case kind == 1 && len(merged) > 0:
			mo.boom[merged[c.R.Intn(len(merged))]] = true
			run("merge_panicked", ops, true)
			c.Count("merge_panicked", 1)
		case kind == 2 && (be.name == "boltdb" || be.name == "badger"):
			var bad []byte
			switch c.R.Intn(3) {
			case 0:
				bad = []byte{}
			case 1:
				bad = bytes.Repeat([]byte{'L'}, 70000)
			case 2:
				if be.name == "badger" {
					bad = []byte("!badger!x")
				} else {
					bad = bytes.Repeat([]byte{'L'}, 32769)
				}
			}
			at := c.R.Intn(len(ops) + 1)
			o := kvop{opSet, bad, []byte("v")}
			if c.R.Intn(4) == 0 {
				o = kvop{opMerge, bad, []byte("v")}
			}
			ops = append(ops[:at:at], append([]kvop{o}, ops[at:]...)...)
			run("invalid_key", ops, true)
			c.Count("invalid_key", 1)
		case kind == 3 && (be.name == "badger" || c.R.Intn(10) == 0):
			// beyond badger's transaction limit; fine for the others
			big := bytes.Repeat([]byte{byte(i)}, 1<<20)
			n := 12
			if be.name == "gtreap" || be.name == "boltdb" || be.name == "goleveldb" {
				big, n = big[:200000], 6
			}
			for j := 0; j < n; j++ {
				ops = append(ops, kvop{opSet, []byte(fmt.Sprintf("big%d", j)), big})
			}
			if be.name == "badger" && c.R.Intn(3) == 0 {
				ops = nil
				for j := 0; j < 160000; j++ {
					ops = append(ops, kvop{opSet, []byte(fmt.Sprintf("many%d", j)), []byte{1}})
				}
			}
			if c.R.Intn(2) == 0 {
				ops = append(ops, kvop{opSet, g.pick(c.R), []byte("last")})
				ops = dropMergesOf(ops, ops[len(ops)-1].k)
			}
			err := run("too_big", ops, false)
			if be.name != "badger" && err != nil {
				c.Fail("exec", "a valid batch failed: %v", err)
			}
			c.Count("too_big", 1)
		case kind == 4:
			w := c.mustWriter(s)
			var err error
			bs := []store.KVBatch{nil, foreignBatch{}, &foreignBatch{}}
			if be.name == "goleveldb" {
				bs = append(bs, filled(store.NewEmulatedBatch(mo), ops))
			} else {
				bs = append(bs, c.leveldbBatch(ops))
			}
			b := bs[c.R.Intn(len(bs))]
			c.Logf("foreign batch %T", b)
			p, st := Guard(func() { err = w.ExecuteBatch(b) })
			if p != nil {
				c.Fail("panic:"+panicSite(st), "executing a batch of another kind (%T) panicked: %v", b, p)
			}
			if err == nil {
				c.Fail("false-success", "executing a batch of another kind (%T) reported success", b)
			}
			w.Close()
			c.Count("foreign_batch", 1)
			c.Count("failed_batches", 1)
			failed++
			verify("foreign batch")
		case kind == 5 && be.disk:
			for j := 0; j < 1+c.R.Intn(3); j++ {
				v := make([]byte, []int{20000, 20000, 20000, 20000, 20000, 300000, 5 << 20}[c.R.Intn(7)])
				c.R.Read(v)
				ops = append(ops, kvop{opSet, []byte(fmt.Sprintf("full%d", j)), v})
			}
			var limit uint64 = uint64(c.R.Intn(4096))
			if c.R.Intn(2) == 0 {
				limit = c.dbSize(be.name, dir) + uint64(c.R.Intn(30000))
			}
			restore := limitFileSize(limit)
			if restore == nil {
				c.Infra("setrlimit")
			}
			defer restore()
			var err error
			p, st := Guard(func() { err = c.tryExec(s, ops) })
			c.Logf("disk full at %d: %s -> %v", limit, opsString(ops), err)
			if p != nil {
				c.Fail("panic:"+panicSite(st), "executing a batch on a full disk panicked: %v", p)
			}
			if err == nil {
				applyMerges(m, &mo.foldOp, ops)
				c.Count("acknowledged_batches", 1)
			} else {
				failed++
				c.Count("failed_batches", 1)
				c.Count("disk_full", 1)
			}
			verify(fmt.Sprintf("full disk (error %v)", err))
			for j := 0; j < 3 && be.name != "badger" && c.R.Intn(2) == 0; j++ {
				// going on while the disk is full
				if l, ok := s.(*goleveldb.Store); ok && c.R.Intn(2) == 0 {
					var cerr error
					if p, st := Guard(func() { cerr = l.Compact() }); p != nil {
						c.Fail("panic:"+panicSite(st), "compacting on a full disk panicked: %v", p)
					}
					c.Logf("compact on a full disk -> %v", cerr)
					// which removes these, all or some if it fails
					now := c.content(s)
					for k, v := range m {
						_, there := now[k]
						if strings.HasPrefix(k, "d") && string(v) == "\x00" && (cerr == nil || !there) {
							delete(m, k)
						}
					}
					verify(fmt.Sprintf("compaction on a full disk (error %v)", cerr))
					c.Count("compact_disk_full", 1)
					continue
				}
				more := genOps(c.R, g, 1+c.R.Intn(5), 3000)
				var err error
				if p, st := Guard(func() { err = c.tryExec(s, more) }); p != nil {
					c.Fail("panic:"+panicSite(st), "executing a batch on a full disk panicked: %v", p)
				}
				c.Logf("disk still full: %s -> %v", opsString(more), err)
				if err == nil {
					m.apply(more)
				}
				verify(fmt.Sprintf("full disk, another batch (error %v)", err))
				c.Count("more_disk_full", 1)
			}
			closeFull := be.name != "badger" && c.R.Intn(2) == 0
			if !closeFull {
				restore()
			}
			// the engines may need a reopening before they write again
			cerr := s.Close()
			restore()
			if cerr != nil {
				c.Logf("close after a full disk: %v", cerr)
			}
			s = c.mustOpen(be.name, dir, mo, extra)
			verify(fmt.Sprintf("full disk (error %v), after reopening", err))
		case kind == 6 && be.name == "badger" && len(merged) > 0:
			// another batch changes a merged key in the middle of this one
			k := merged[c.R.Intn(len(merged))]
			inner := []kvop{{opSet, []byte(k), []byte("conflict")}}
			var innerErr error
			var ran bool
			mo.hook = func(key []byte) {
				if string(key) == k && !ran {
					ran = true
					innerErr = c.tryExec(s, inner)
				}
			}
			c.Logf("conflict on %s: %s", q([]byte(k)), opsString(ops))
			err := c.tryExec(s, ops)
			mo.hook = nil
			c.Logf("  -> %v, inner %v", err, innerErr)
			if ran && innerErr == nil {
				m.apply(inner)
			}
			if err == nil {
				// serialised after the inner batch: only possible if it saw it
				c.Fail("false-success", "a merge that read a key changed meanwhile was reported as executed")
			}
			failed++
			c.Count("failed_batches", 1)
			c.Count("conflict", 1)
			verify(fmt.Sprintf("write conflict (error %v)", err))
		default:
			if err := run("valid", ops, false); err != nil {
				c.Fail("exec", "a valid batch failed: %v", err)
			}
		}
		mo.refuse, mo.boom, mo.hook = map[string]bool{}, map[string]bool{}, nil
		if err := run("valid", genOps(c.R, g, 1+c.R.Intn(5), 30), false); err != nil {
			c.Fail("usable", "a valid batch after a failed one failed: %v", err)
		}
	}
	if c.Idx%3 == 0 {
		c.togetherC04(s, mo, m)
	}
	c.mustClose(s)
	if be.disk {
		s = c.mustOpen(be.name, dir, mo, extra)
		verify("after the last reopening")
		c.mustClose(s)
	}
	if failed > 0 {
		c.Nontrivial(be.name + id.String())
	}
	if c.Idx == 0 {
		c.Sample(strings.Join(c.history(), " | "))
	}
}

// togetherC04 executes batches from several goroutines, each on keys of its
// own; some fail. m gets the operations of those which did not.
func (c *Case) togetherC04(s store.KVStore, mo *hookOp, m Model) {
	n := 3 + c.R.Intn(5)
	type doing struct {
		ops  []kvop
		fail bool
		err  error
	}
	all := make([][]*doing, n)
	mo.refuse, mo.boom = map[string]bool{}, map[string]bool{}
	mo.hook = func(key []byte) {
		if len(key) > 0 && key[len(key)-1]%2 == 1 {
			time.Sleep(time.Duration(key[len(key)-1]) * 10 * time.Microsecond)
		}
	}
	for i := range all {
		for k := 0; k < 4+c.R.Intn(5); k++ {
			d := &doing{}
			for j := 0; j < 1+c.R.Intn(5); j++ {
				key := []byte(fmt.Sprintf("together%d.%d.%d.%c", i, k, j, 'a'+c.R.Intn(26)))
				o := kvop{opSet, key, []byte(fmt.Sprint("v", i, k, j))}
				if c.R.Intn(2) == 0 {
					o.kind = opMerge
				}
				d.ops = append(d.ops, o)
			}
			if mk := mergedKeys(d.ops); len(mk) > 0 && c.R.Intn(3) == 0 {
				bad := mk[c.R.Intn(len(mk))]
				if c.R.Intn(2) == 0 {
					mo.boom[bad] = true
				} else {
					mo.refuse[bad] = true
				}
				d.fail = true
			}
			all[i] = append(all[i], d)
		}
	}
	c.Logf("%d goroutines execute batches", n)
	c.clients(n, func(i int, r *rand.Rand) {
		w, err := s.Writer()
		if err != nil {
			c.Fail("writer", "%v", err)
		}
		defer w.Close()
		for _, d := range all[i] {
			b := filled(w.NewBatch(), d.ops)
			if p, _ := Guard(func() { d.err = w.ExecuteBatch(b) }); p != nil {
				d.err = fmt.Errorf("panic: %v", p)
				w, err = s.Writer()
				if err != nil {
					c.Fail("writer", "%v", err)
				}
			}
			c.Tick()
		}
	})
	mo.hook = nil
	mo.refuse, mo.boom = map[string]bool{}, map[string]bool{}
	for i := range all {
		for k, d := range all[i] {
			c.Eval(1)
			if d.err == nil {
				if d.fail {
					c.Fail("false-success", "together: the merge operator gave up, the batch was reported as executed: %s", opsString(d.ops))
				}
				applyMerges(m, &mo.foldOp, d.ops)
				c.Count("together_acknowledged", 1)
				continue
			}
			if !d.fail {
				c.Fail("exec", "together: a valid batch (%s, %d-th of its goroutine) failed: %v", opsString(d.ops), k, d.err)
			}
			c.Count("together_failed", 1)
		}
	}
	if d := diffModel(m, c.content(s)); d != "" {
		c.Fail("atomic", "after batches of %d goroutines, of which some failed: %s", n, d)
	}
}

func mergedKeys(ops []kvop) []string {
	m := map[string]bool{}
	var res []string
	for _, o := range ops {
		if o.kind == opMerge && !m[string(o.k)] {
			m[string(o.k)] = true
			res = append(res, string(o.k))
		}
	}
	sort.Strings(res)
	return res
}

func dropMergesOf(ops []kvop, k []byte) []kvop {
	var res []kvop
	for _, o := range ops {
		if o.kind == opMerge && bytes.Equal(o.k, k) {
			continue
		}
		res = append(res, o)
	}
	return res
}

func filled(b store.KVBatch, ops []kvop) store.KVBatch {
	fillBatch(b, ops)
	return b
}

// leveldbBatch is a batch of a LevelDB store, which no other store accepts.
func (c *Case) leveldbBatch(ops []kvop) store.KVBatch {
	dir := c.TempDir()
	s, err := openStore("goleveldb", dir, &foldOp{}, nil)
	if err != nil {
		c.Infra("open: %v", err)
	}
	w, _ := s.Writer()
	b := filled(w.NewBatch(), ops)
	s.Close()
	return b
}

// dbSize is the size of the largest file of the store.
func (c *Case) dbSize(b, dir string) uint64 {
	var max int64
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() && !strings.HasSuffix(p, ".vlog") && fi.Size() > max {
			max = fi.Size()
		}
		return nil
	})
	return uint64(max)
}

// hookOp is a foldOp that calls hook from inside every full merge.
type hookOp struct {
	foldOp
	hook func(key []byte)
}

func (o *hookOp) FullMerge(key, existing []byte, operands [][]byte) ([]byte, bool) {
	if o.hook != nil {
		o.hook(key)
	}
	return o.foldOp.FullMerge(key, existing, operands)
}

// ---------------------------------------------------------------- C07

func init() {
	register(&Check{
		ID:   "C07",
		Rule: "a case builds batches from buffers that are overwritten with garbage as soon as each call returns (also buffers from preallocation), overwrites up to their capacity some of the slices returned by Get and MultiGet and keeps the others with a copy, across later writes, reader closing and store closing; stored content must match the model and kept slices their copies. Non-trivial: buffers were reused before execution and results were scribbled on; identified by the operations.",
		Shards: func(th bool) []Shard {
			return shardsPerBackend(allBackends, 2, 60, th, 20)
		},
		Run:  runC07,
		Need: []string{"buffers_overwritten", "results_overwritten", "results_kept", "kept_after_store_close", "prealloc_buffers", "exact_buffers", "large_values"},
	})
}

func scribble(r *rand.Rand, b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= byte(0x55 + r.Intn(100))
	}
}

type kept struct {
	got, want []byte
	what      string
}

func runC07(c *Case) {
	be := backendOf(c.Shard.Backend)
	g := newKeyGen(c.R, 4+c.R.Intn(20), be.emptyKey)
	dir := c.TempDir()
	mo := &foldOp{partial: c.R.Intn(3)}
	extra := c.someOptions(be.name)
	s := c.mustOpen(be.name, dir, mo, extra)
	c.prefill(be, s)
	m := Model{}
	var keep []kept
	var id strings.Builder
	check := func(when string) {
		for _, k := range keep {
			if !bytes.Equal(k.got, k.want) {
				c.Fail("changed", "%s: the bytes returned by %s changed from %s to %s", when, k.what, q(k.want), q(k.got))
			}
		}
	}
	var open store.KVReader
	var openModel Model
	for i, n := 0, 3+c.R.Intn(8); i < n; i++ {
		var ops []kvop
		if c.R.Intn(2) == 0 {
			ops = genMergeOps(c.R, g, 2+c.R.Intn(10))
		} else {
			ops = genOps(c.R, g, 2+c.R.Intn(10), 20)
		}
		if c.R.Intn(6) == 0 {
			// one large value
			if o := &ops[c.R.Intn(len(ops))]; o.kind != opDel {
				o.v = make([]byte, []int{1 << 12, 1 << 15, 1 << 16, 100000, 1 << 18}[c.R.Intn(5)]+c.R.Intn(2))
				c.R.Read(o.v)
				c.Count("large_values", 1)
			}
		}
		c.Logf("batch %d: %s", i, opsString(ops))
		id.WriteString(opsString(ops))
		w := c.mustWriter(s)
		var b store.KVBatch
		total := 0
		for _, o := range ops {
			total += len(o.k) + len(o.v)
		}
		var kb, vb []byte // one buffer for every key, one for every value
		if c.R.Intn(3) == 0 {
			buf, nb, err := w.NewBatchEx(store.KVBatchOptions{TotalBytes: total, NumSets: len(ops)})
			if err != nil {
				c.Fail("newbatchex", "NewBatchEx failed: %v", err)
			}
			b = nb
			kb, vb = buf[:0:total/2], buf[total/2:]
			c.Count("prealloc_buffers", 1)
		} else {
			b = w.NewBatch()
		}
		for _, o := range ops {
			if cap(kb) < len(o.k) {
				kb = make([]byte, 0, len(o.k)+10)
			}
			if cap(vb) < len(o.v) {
				vb = make([]byte, 0, len(o.v)+10)
			}
			k, v := kb[:len(o.k)], vb[:len(o.v)]
			if c.R.Intn(3) == 0 {
				// buffers of exactly the size
				kb, vb = make([]byte, len(o.k)), make([]byte, len(o.v))
				k, v = kb, vb
				c.Count("exact_buffers", 1)
			}
			copy(k, o.k)
			copy(v, o.v)
			if o.v == nil {
				v = nil
			}
			switch o.kind {
			case opSet:
				b.Set(k, v)
			case opDel:
				b.Delete(k)
			case opMerge:
				b.Merge(k, v)
			}
			scribble(c.R, kb)
			scribble(c.R, vb)
			c.Count("buffers_overwritten", 2)
		}
		if err := w.ExecuteBatch(b); err != nil {
			c.Fail("exec", "executing a valid batch failed: %v", err)
		}
		b.Close()
		w.Close()
		scribble(c.R, kb)
		scribble(c.R, vb)
		applyMerges(m, mo, ops)
		check("after a batch")

		r := c.mustReader(s)
		for _, k := range g.pool {
			k2 := append([]byte(nil), k...)
			v, err := r.Get(k2)
			scribble(c.R, k2)
			if err != nil {
				c.Fail("get", "Get(%s) failed: %v", q(k), err)
			}
			c.checkValue(m, k, v, "Get")
			if v == nil {
				continue
			}
			if c.R.Intn(2) == 0 {
				scribble(c.R, v)
				c.Count("results_overwritten", 1)
				v2, _ := r.Get(k)
				c.checkValue(m, k, v2, "Get after overwriting the previous result")
			} else if len(v) > 0 && len(keep) < 400 {
				keep = append(keep, kept{v, append([]byte(nil), v...), "Get(" + q(k) + ")"})
				c.Count("results_kept", 1)
			}
		}
		keys := make([][]byte, 3+c.R.Intn(8))
		for j := range keys {
			keys[j] = append([]byte(nil), g.pick(c.R)...)
		}
		names := make([][]byte, len(keys))
		for j := range keys {
			names[j] = append([]byte(nil), keys[j]...)
		}
		vs, err := r.MultiGet(keys)
		if err != nil || len(vs) != len(keys) {
			c.Fail("multiget", "MultiGet: %d values, %v", len(vs), err)
		}
		for j := range keys {
			scribble(c.R, keys[j])
		}
		for j := range vs {
			c.checkValue(m, names[j], vs[j], "MultiGet")
			if vs[j] == nil {
				continue
			}
			if j%2 == 0 {
				scribble(c.R, vs[j])
				c.Count("results_overwritten", 1)
			} else if len(vs[j]) > 0 && len(keep) < 400 {
				keep = append(keep, kept{vs[j], append([]byte(nil), vs[j]...), "MultiGet(" + q(names[j]) + ")"})
				c.Count("results_kept", 1)
			}
		}
		if d := diffModel(m, c.scan(r)); d != "" {
			c.Fail("aliased", "overwriting results or inputs changed the stored content: %s", d)
		}
		if open == nil && c.R.Intn(3) == 0 {
			open, openModel = r, m.clone()
		} else {
			r.Close()
		}
		check("after closing a reader")
		if open != nil {
			if d := diffModel(openModel, c.scan(open)); d != "" {
				c.Fail("aliased", "an older reader's content changed: %s", d)
			}
		}
	}
	if open != nil {
		open.Close()
	}
	check("after closing the last reader")
	c.mustClose(s)
	check("after closing the store")
	c.Count("kept_after_store_close", len(keep))
	if be.disk {
		s = c.mustOpen(be.name, dir, mo, extra)
		if d := diffModel(m, c.content(s)); d != "" {
			c.Fail("aliased", "after reopening: %s", d)
		}
		c.exec(s, genOps(c.R, g, 5, 10))
		check("after reopening and writing")
		c.mustClose(s)
	}
	c.Nontrivial(be.name + id.String())
	if c.Idx == 0 {
		c.Sample(strings.Join(c.history(), " | "))
	}
}

// ---------------------------------------------------------------- C08

func init() {
	register(&Check{
		ID:   "C08",
		Rule: "a case keeps several batches of several writers under construction at once, with random Set, Delete, Merge, Reset, Close, execution (through the creating or another writer, after the creating writer was closed) and reuse, keys and values placed in the arrays NewBatchEx gave, which must keep what was put there until the batch is executed or closed; the model holds what each batch contains and the store content is compared after each step that may change it and after steps that must not. Non-trivial: a non-empty batch was reset or closed and another one executed; identified by the script.",
		Shards: func(th bool) []Shard {
			return shardsPerBackend(allBackends, 2, 60, th, 20)
		},
		Run:  runC08,
		Need: []string{"resets_non_empty", "resets_with_merges", "closed_unexecuted", "executed", "reused_after_execution", "other_writer", "prealloc_batches", "large_batches", "in_array", "batches_of_one_writer"},
	})
}

func runC08(c *Case) {
	be := backendOf(c.Shard.Backend)
	g := newKeyGen(c.R, 4+c.R.Intn(16), be.emptyKey)
	dir := c.TempDir()
	mo := &foldOp{partial: c.R.Intn(3)}
	extra := c.someOptions(be.name)
	s := c.mustOpen(be.name, dir, mo, extra)
	m := Model{}
	ops := genOps(c.R, g, 6, 10)
	m.apply(ops)
	c.exec(s, ops)
	type bt struct {
		b     store.KVBatch
		w     store.KVWriter
		ops   []kvop
		role  map[string]bool // true: merged, false: set or deleted
		execd bool
		n     int
		// the array that came with the batch: where the next key goes, and what
		// it has to hold
		buf, img []byte
		at       int
	}
	var live []*bt
	var id strings.Builder
	did := 0
	verify := func(what string) {
		if d := diffModel(m, c.content(s)); d != "" {
			c.Fail("lifecycle", "%s: %s", what, d)
		}
		for _, x := range live {
			if x.buf != nil && !bytes.Equal(x.buf, x.img) {
				c.Fail("array", "%s: the array given with b%d, which is still under construction, changed from %s to %s", what, x.n, q(x.img), q(x.buf))
			}
		}
	}
	// place puts a key or value in the array of the batch, if there is room
	place := func(x *bt, b []byte) []byte {
		if x.buf == nil || x.at+len(b) > len(x.buf) || len(b) == 0 {
			return b
		}
		p := x.buf[x.at : x.at+len(b) : x.at+len(b)]
		copy(p, b)
		copy(x.img[x.at:], b)
		x.at += len(b)
		c.Count("in_array", 1)
		return p
	}
	closeW := func(x *bt) {
		for _, y := range live {
			if y != x && y.w == x.w {
				return
			}
		}
		x.w.Close()
	}
	nb := 0
	many := c.Idx%8 == 0 // a batch of thousands of operations
	for st, steps := 0, 25+c.R.Intn(60); st < steps; st++ {
		n := c.R.Intn(12)
		if many && len(live) > 0 && c.R.Intn(8) == 0 {
			many = false
			x := live[c.R.Intn(len(live))]
			k := 2000 + c.R.Intn(50000)
			var ops []kvop
			for j := 0; j < k; j++ {
				o := kvop{opSet, []byte(fmt.Sprintf("many%d", j)), []byte(fmt.Sprint(st))}
				if j%100 == 99 {
					o = kvop{opDel, o.k, nil}
				}
				ops = append(ops, o)
			}
			c.Logf("b%d gets %d operations", x.n, k)
			id.WriteString(fmt.Sprint(x.n, "many", k))
			x.ops = append(x.ops, ops...)
			fillBatch(x.b, ops)
			c.Count("large_batches", 1)
			verify("adding many operations to a batch")
			continue
		}
		if len(live) == 0 || n == 0 && len(live) < 5 {
			var w store.KVWriter
			if len(live) > 0 && c.R.Intn(2) == 0 {
				w = live[c.R.Intn(len(live))].w
				c.Count("batches_of_one_writer", 1)
			} else {
				w = c.mustWriter(s)
			}
			nb++
			x := &bt{w: w, role: map[string]bool{}, n: nb}
			if c.R.Intn(2) == 0 {
				o := store.KVBatchOptions{TotalBytes: c.R.Intn(3) * c.R.Intn(2000), NumSets: c.R.Intn(10), NumDeletes: c.R.Intn(10), NumMerges: c.R.Intn(10)}
				buf, b, err := w.NewBatchEx(o)
				if err != nil || b == nil {
					c.Fail("newbatchex", "NewBatchEx(%+v) failed: %v", o, err)
				}
				if len(buf) != o.TotalBytes {
					c.Fail("newbatchex", "NewBatchEx asked for %d bytes gave %d", o.TotalBytes, len(buf))
				}
				x.b = b
				if len(buf) > 0 {
					for j := range buf {
						buf[j] = byte(nb)
					}
					x.buf, x.img = buf, append([]byte(nil), buf...)
				}
				c.Count("prealloc_batches", 1)
			} else {
				x.b = w.NewBatch()
			}
			c.Logf("b%d := new batch", x.n)
			live = append(live, x)
			continue
		}
		i := c.R.Intn(len(live))
		x := live[i]
		switch {
		case n < 7: // add
			k := g.pick(c.R)
			merged, used := x.role[string(k)]
			var o kvop
			if used && merged || !used && c.R.Intn(3) == 0 {
				o = kvop{opMerge, k, []byte(fmt.Sprint("m", st))}
				x.role[string(k)] = true
			} else if c.R.Intn(3) == 0 {
				o = kvop{opDel, k, nil}
				x.role[string(k)] = false
			} else {
				o = kvop{opSet, k, []byte(fmt.Sprint("v", st))}
				x.role[string(k)] = false
			}
			c.Logf("b%d.%s", x.n, o)
			id.WriteString(fmt.Sprint(x.n, o))
			x.ops = append(x.ops, o)
			po := o
			if c.R.Intn(3) > 0 {
				po.k, po.v = place(x, o.k), place(x, o.v)
			}
			fillBatch(x.b, []kvop{po})
			if c.R.Intn(4) == 0 {
				verify("adding to a batch")
			}
		case n == 7: // reset
			c.Logf("b%d.reset (%d ops)", x.n, len(x.ops))
			id.WriteString(fmt.Sprint(x.n, "r"))
			if len(x.ops) > 0 {
				c.Count("resets_non_empty", 1)
				did |= 1
				for _, v := range x.role {
					if v {
						c.Count("resets_with_merges", 1)
						break
					}
				}
			}
			x.b.Reset()
			x.ops, x.role, x.execd = nil, map[string]bool{}, false
			verify("resetting a batch")
		case n == 8: // close without executing
			c.Logf("b%d.close (%d ops)", x.n, len(x.ops))
			id.WriteString(fmt.Sprint(x.n, "c"))
			if len(x.ops) > 0 && !x.execd {
				c.Count("closed_unexecuted", 1)
				did |= 1
			}
			if err := x.b.Close(); err != nil {
				c.Fail("close", "closing a batch failed: %v", err)
			}
			closeW(x)
			live = append(live[:i], live[i+1:]...)
			verify("closing a batch")
		default: // execute
			w := x.w
			if c.R.Intn(2) == 0 {
				w = c.mustWriter(s)
				if c.R.Intn(2) == 0 {
					closeW(x)
					x.w = w
				}
				c.Count("other_writer", 1)
			}
			c.Logf("execute b%d: %s", x.n, opsString(x.ops))
			id.WriteString(fmt.Sprint(x.n, "x"))
			c.Tick()
			if err := w.ExecuteBatch(x.b); err != nil {
				c.Fail("exec", "executing a valid batch failed: %v", err)
			}
			applyMerges(m, mo, x.ops)
			c.Count("executed", 1)
			x.buf = nil // the array goes with the execution
			if len(x.ops) > 0 {
				did |= 2
			}
			verify("executing a batch")
			// reuse after a Reset, as documented
			c.Logf("b%d.reset", x.n)
			x.b.Reset()
			x.ops, x.role, x.execd = nil, map[string]bool{}, true
			c.Count("reused_after_execution", 1)
			if c.R.Intn(4) == 0 {
				c.Logf("execute b%d again, empty", x.n)
				if err := w.ExecuteBatch(x.b); err != nil {
					c.Fail("exec", "executing an empty batch failed: %v", err)
				}
				verify("executing a batch emptied by Reset")
			}
		}
	}
	for _, x := range live {
		if c.R.Intn(2) == 0 {
			x.b.Close()
		}
	}
	verify("at the end")
	c.mustClose(s)
	if be.disk {
		s = c.mustOpen(be.name, dir, mo, extra)
		verify("after reopening")
		c.mustClose(s)
	}
	if did == 3 {
		c.Nontrivial(be.name + id.String())
	}
	if c.Idx == 0 {
		c.Sample(strings.Join(c.history(), " | "))
	}
}

// ---------------------------------------------------------------- C11

type compacter interface{ Compact() error }
type sizeCompacter interface{ CompactWithBatchSize(int) error }

func init() {
	register(&Check{
		ID:   "C11",
		Rule: "a case fills a Bolt or LevelDB store with entries around the dictionary prefix ('d' alone, 'd...' with value {0}, empty, {0,0}, {1}; keys sorting just before and after the prefix; up to several thousand zero entries in runs crossing the batch size), keeps a reader open, compacts with a random batch size or the default, and compares the content with a reference, through the old reader, a new one, after more batches and after reopening; a quarter of the cases compact from two goroutines while one to three clients write batches of dictionary entries and a reader checks that every snapshot shows one whole batch of each client, of which only {0} entries may be missing. Non-trivial: batches were executed during compactions, or at least one entry was to be removed and one other 'd' entry to be kept; identified by content and batch size.",
		Shards: func(th bool) []Shard {
			return shardsPerBackend([]string{"boltdb", "goleveldb"}, 4, 40, th, 15)
		},
		Run:  runC11,
		Need: []string{"compactions", "removed", "kept_d_entries", "old_reader_checks", "reopens", "multi_batch", "concurrent_compactions", "concurrent_batches", "concurrent_snapshots"},
	})
}

func runC11(c *Case) {
	be := backendOf(c.Shard.Backend)
	if c.R.Intn(4) == 0 {
		c.compactDuring(be)
		return
	}
	dir := c.TempDir()
	extra := c.someOptions(be.name)
	s := c.mustOpen(be.name, dir, nil, extra)
	c.prefill(be, s)
	m := Model{}
	g := newKeyGen(c.R, 10, false)
	for round := 0; round < 1+c.R.Intn(3); round++ {
		var ops []kvop
		n := []int{5, 40, 150, 600, 2500}[c.R.Intn(5)]
		if c.R.Intn(40) == 0 {
			n = 12000
		}
		zeroPct := []int{5, 50, 95, 100}[c.R.Intn(4)]
		for i := 0; i < n; i++ {
			k := []byte("d")
			switch c.R.Intn(8) {
			case 0:
				k = append(k, byte(c.R.Intn(256)))
			case 1:
				k = []byte{'c', 0xff, byte(c.R.Intn(256))}
			case 2:
				k = []byte{'e', byte(c.R.Intn(3))}
			case 3:
				k = []byte("D" + fmt.Sprint(i))
			default:
				k = append(k, []byte(fmt.Sprintf("%06d", c.R.Intn(n*2)))...)
				if c.R.Intn(5) == 0 {
					k = append(k, 0xff, 0)
				}
			}
			if c.R.Intn(200) == 0 {
				k = []byte("d")
			}
			v := []byte{0}
			if c.R.Intn(100) >= zeroPct {
				v = [][]byte{nil, {}, {1}, {0, 0}, {0, 1}, []byte("value"), {0xff}}[c.R.Intn(7)]
			}
			ops = append(ops, kvop{opSet, k, v})
		}
		ops = append(ops, genOps(c.R, g, 5, 10)...)
		m.apply(ops)
		c.exec(s, ops)
		old := c.mustReader(s)
		oldM := m.clone()
		removed, keptD := 0, 0
		for k, v := range m {
			if strings.HasPrefix(k, "d") {
				if v == "\x00" {
					delete(m, k)
					removed++
				} else {
					keptD++
				}
			}
		}
		size := -1
		if c.R.Intn(3) > 0 {
			size = []int{1, 2, 3, 7, 50, 100, 250, 1000, 100000}[c.R.Intn(9)]
			if size < 50 && removed > 300 {
				size = 50
			}
		}
		c.Logf("round %d: %d entries, %d to remove, compact batch size %d", round, len(oldM), removed, size)
		var err error
		if size < 0 {
			err = s.(compacter).Compact()
		} else {
			err = s.(sizeCompacter).CompactWithBatchSize(size)
		}
		if err != nil {
			c.Fail("compact", "compacting failed: %v", err)
		}
		c.Count("compactions", 1)
		c.Count("removed", removed)
		c.Count("kept_d_entries", keptD)
		if size > 0 && removed > size || size < 0 && removed > 250 {
			c.Count("multi_batch", 1)
		}
		if d := diffModel(oldM, c.scan(old)); d != "" {
			c.Fail("snapshot", "a reader opened before the compaction changed: %s", d)
		}
		c.Count("old_reader_checks", 1)
		old.Close()
		if d := diffModel(m, c.content(s)); d != "" {
			c.Fail("compact", "after compacting with batch size %d: %s", size, d)
		}
		more := genOps(c.R, g, 3, 30)
		m.apply(more)
		c.exec(s, more)
		if d := diffModel(m, c.content(s)); d != "" {
			c.Fail("usable", "a batch after compaction: %s", d)
		}
		if removed > 0 && keptD > 0 {
			c.Nontrivial(fmt.Sprint(be.name, oldM.keys(), size))
		}
		if c.R.Intn(2) == 0 {
			c.mustClose(s)
			s = c.mustOpen(be.name, dir, nil, extra)
			c.Count("reopens", 1)
			if d := diffModel(m, c.content(s)); d != "" {
				c.Fail("reopen", "after reopening: %s", d)
			}
			c.prefill(be, s)
		}
	}
	c.mustClose(s)
	if c.Idx == 0 {
		c.Sample(strings.Join(c.history(), " | "))
	}
}

// compactDuring compacts again and again while clients write dictionary
// entries: batch i of a client writes all of its keys, some as {0}, and every
// reader must show one whole batch, of which only the {0} may be missing.
func (c *Case) compactDuring(be backendInfo) {
	dir := c.TempDir()
	extra := c.someOptions(be.name)
	s := c.mustOpen(be.name, dir, nil, extra)
	c.prefill(be, s)
	nw := 1 + c.R.Intn(3)
	per := []int{1, 5, 60, 200}[c.R.Intn(4)]
	nb := 20 + c.R.Intn(100)
	seed := c.R.Uint64()
	key := func(w, j int) []byte { return []byte(fmt.Sprintf("d%d-%03d", w, j)) }
	zero := func(w, i, j int) bool {
		h := hash64(fmt.Sprint(seed, w, i))
		switch h % 4 {
		case 0:
			return true
		case 1:
			return false
		}
		return hash64(fmt.Sprint(h, j))%2 == 0
	}
	val := func(w, i, j int) []byte {
		if i == 0 {
			return nil
		}
		if zero(w, i, j) {
			return []byte{0}
		}
		return []byte(fmt.Sprintf("%d", i))
	}
	// entries beside the dictionary stay whatever their value
	other := Model{"c\xff": "\x00", "e": "\x00", "D1": "\x00"}
	c.exec(s, []kvop{{opSet, []byte("c\xff"), []byte{0}}, {opSet, []byte("e"), []byte{0}}, {opSet, []byte("D1"), []byte{0}}})
	begun, acked := make([]int64, nw), make([]int64, nw)
	left := int64(nw)
	verify := func(r store.KVReader, lo, hi []int64, who string, wait time.Duration) {
		if wait > 0 {
			time.Sleep(wait)
		}
		for w := 0; w < nw; w++ {
			// the batch shown is told by the values which are not {0}
			var vals [][]byte
			for j := 0; j < per; j++ {
				v, err := r.Get(key(w, j))
				if err != nil {
					c.Report("get", "%s: reading %q failed: %v", who, key(w, j), err)
					return
				}
				vals = append(vals, v)
			}
			why := ""
			for i := hi[w]; i >= lo[w]; i-- {
				bad := ""
				for j, v := range vals {
					want := val(w, int(i), j)
					if (want == nil || bytes.Equal(want, []byte{0})) && v == nil {
						continue
					}
					if want == nil && v != nil || !bytes.Equal(v, want) {
						bad = fmt.Sprintf("%s is %s, batch %d of the client wrote %s", q(key(w, j)), q(v), i, q(want))
						break
					}
				}
				if bad == "" {
					why = ""
					break
				}
				why = bad
			}
			if why != "" {
				c.Report("concurrent", "%s: compaction running along, batches %d to %d of client %d expected: %s", who, lo[w], hi[w], w, why)
				return
			}
		}
		for k, v := range other {
			if g, _ := r.Get([]byte(k)); string(g) != v || g == nil {
				c.Report("concurrent", "%s: %q is %s after compactions, it was %q", who, k, q(g), v)
			}
		}
		c.Count("concurrent_snapshots", 1)
	}
	load := func(a []int64) []int64 {
		res := make([]int64, len(a))
		for i := range a {
			res[i] = atomic.LoadInt64(&a[i])
		}
		return res
	}
	c.clients(nw+3, func(n int, r *rand.Rand) {
		switch {
		case n < nw:
			defer atomic.AddInt64(&left, -1)
			for i := 1; i <= nb; i++ {
				w, err := s.Writer()
				if err != nil {
					c.Report("writer", "opening a writer failed: %v", err)
					return
				}
				b := w.NewBatch()
				for j := 0; j < per; j++ {
					b.Set(key(n, j), val(n, i, j))
				}
				atomic.StoreInt64(&begun[n], int64(i))
				c.Tick()
				if err := w.ExecuteBatch(b); err != nil {
					c.Report("exec", "a batch executed during a compaction failed: %v", err)
					return
				}
				atomic.StoreInt64(&acked[n], int64(i))
				b.Close()
				w.Close()
				c.Count("concurrent_batches", 1)
				if r.Intn(2) == 0 {
					time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
				}
			}
		case n == nw || n == nw+1:
			for atomic.LoadInt64(&left) > 0 {
				c.Tick()
				var err error
				if size := []int{0, 10, 50, 250, 100000}[r.Intn(5)]; size == 0 {
					err = s.(compacter).Compact()
				} else {
					err = s.(sizeCompacter).CompactWithBatchSize(size)
				}
				if err != nil {
					c.Report("compact", "compacting while batches are executed failed: %v", err)
					return
				}
				c.Count("concurrent_compactions", 1)
				jitter(r)
			}
		default:
			for atomic.LoadInt64(&left) > 0 {
				c.Tick()
				lo := load(acked)
				rd, err := s.Reader()
				if err != nil {
					c.Report("reader", "opening a reader failed: %v", err)
					return
				}
				hi := load(begun)
				verify(rd, lo, hi, "a reader", time.Duration(r.Intn(300))*time.Microsecond)
				rd.Close()
			}
		}
	})
	if err := s.(compacter).Compact(); err != nil {
		c.Fail("compact", "compacting failed: %v", err)
	}
	m := other.clone()
	for w := 0; w < nw; w++ {
		for j := 0; j < per; j++ {
			if v := val(w, int(acked[w]), j); v != nil && !bytes.Equal(v, []byte{0}) {
				m[string(key(w, j))] = string(v)
			}
		}
	}
	got := c.content(s)
	if d := diffModel(m, got); d != "" {
		c.Fail("concurrent", "after compactions running along with %d clients: %s", nw, d)
	}
	c.Logf("%d clients of %d keys, %d batches each, two compacting and one reading", nw, per, nb)
	c.Nontrivial(fmt.Sprint(be.name, seed))
	c.mustClose(s)
}

// ---------------------------------------------------------------- C12

func init() {
	register(&Check{
		ID:   "C12",
		Rule: "a case is one of: a random combination of options under which a random history is run, reopened with other random options and compared with the reference map; the refusal of a missing, non-string, empty or unusable path and of create_if_missing/error_if_exists violations; several Bolt buckets in one file with independent histories; stores at paths easily taken for one another, each of which must be where it was asked for and hold its own content; a read-only opening (reads served, every kind of write and compaction refused, content unchanged for a later writable opening). Non-trivial: a store was opened with at least one non-default option and its content compared; identified by options and history.",
		Shards: func(th bool) []Shard {
			return shardsPerBackend(allBackends, 2, 50, th, 20)
		},
		Run:  runC12,
		Need: []string{"option_histories", "path_refused", "odd_paths", "create_if_missing_refused", "error_if_exists_refused", "read_only_missing_refused", "existence_options_accepted", "bucket_histories", "read_only_reads", "read_only_writes_refused", "reopened_with_other_options"},
	})
}

// someOptions draws options which must make no difference, in a part of the cases.
func (c *Case) someOptions(b string) cfgT {
	switch {
	case c.R.Intn(3) == 0:
		c.Count("random_options", 1)
		return randOptions(c.R, b)
	case b == "goleveldb" && c.R.Intn(2) == 0:
		return cfgT{"write_buffer_size": float64(2048), "block_size": float64(64)}
	}
	return nil
}

func randOptions(r *rand.Rand, b string) cfgT {
	o := cfgT{}
	pick := func(k string, vs ...interface{}) {
		if r.Intn(3) == 0 {
			o[k] = vs[r.Intn(len(vs))]
		}
	}
	switch b {
	case "boltdb":
		pick("fillPercent", 0.01, 0.1, 0.5, 0.9, 1.0, 2.0, 0.0, -1.0)
		pick("nosync", true, false)
		pick("read_only", false)
	case "goleveldb":
		pick("write_buffer_size", 1024.0, 4096.0, 1.0, float64(8<<20))
		pick("block_size", 16.0, 128.0, 4096.0, 65536.0)
		pick("block_restart_interval", 1.0, 2.0, 16.0, 1000.0)
		pick("lru_cache_capacity", 1.0, 1024.0, -1.0, float64(32<<20))
		pick("bloom_filter_bits_per_key", 1.0, 5.0, 10.0, 40.0)
		pick("create_if_missing", true)
		pick("error_if_exists", false)
		pick("read_only", false)
	}
	pick("unknown_option", 1.0, "x", nil)
	return o
}

func runC12(c *Case) {
	be := backendOf(c.Shard.Backend)
	switch kind := c.R.Intn(6); {
	case kind == 0:
		c.pathsC12(be)
	case kind == 1 && be.name == "boltdb":
		c.bucketsC12(be)
	case kind == 1 && be.name == "goleveldb":
		c.existC12(be)
	case kind <= 3 && (be.name == "boltdb" || be.name == "goleveldb"):
		c.readOnlyC12(be)
	default:
		c.optionsC12(be)
	}
	if c.Idx < 2 {
		c.Sample(strings.Join(c.history(), " | "))
	}
}

func (c *Case) optionsC12(be backendInfo) {
	dir := c.TempDir()
	g := newKeyGen(c.R, 4+c.R.Intn(200), be.emptyKey)
	m := Model{}
	var id strings.Builder
	for round := 0; round < 3; round++ {
		o := randOptions(c.R, be.name)
		if round > 0 {
			c.Count("reopened_with_other_options", 1)
			if !be.disk {
				break
			}
		}
		s := c.mustOpen(be.name, dir, nil, o)
		if len(o) > 0 {
			c.Count("option_histories", 1)
		}
		if d := diffModel(m, c.content(s)); d != "" {
			c.Fail("options", "opened with %v: %s", o, d)
		}
		for i := 0; i < 2+c.R.Intn(8); i++ {
			ops := genOps(c.R, g, c.R.Intn(60), 30)
			m.apply(ops)
			c.Logf("batch %s", opsString(ops))
			id.WriteString(opsString(ops))
			c.exec(s, ops)
			if c.R.Intn(3) == 0 {
				r := c.mustReader(s)
				c.verifyReader(r, m, g, fmt.Sprintf("with options %v", o))
				r.Close()
			}
		}
		if cs, ok := s.(compacter); ok && c.R.Intn(4) == 0 {
			if err := cs.Compact(); err != nil {
				c.Fail("compact", "compacting with options %v failed: %v", o, err)
			}
			for k, v := range m {
				if strings.HasPrefix(k, "d") && v == "\x00" {
					delete(m, k)
				}
			}
		}
		r := c.mustReader(s)
		c.verifyReader(r, m, g, fmt.Sprintf("with options %v", o))
		p := c.newIter(r, m, g)
		for i := 0; i < 12; i++ {
			c.stepIter(p, g)
		}
		p.it.Close()
		r.Close()
		if len(o) > 0 {
			c.Nontrivial(fmt.Sprint(be.name, o, id.String()))
		}
		c.mustClose(s)
	}
}

func (c *Case) refused(be backendInfo, cfg cfgT, what, counter string) {
	c.Logf("open %s with %v", be.name, cfg)
	c.Eval(1)
	s, err := openRaw(be.name, nil, cfg)
	if err == nil {
		s.Close()
		c.Fail("accepted", "%s: opening %s with %v succeeded", what, be.name, cfg)
	}
	c.Count(counter, 1)
}

// oddPaths keeps stores under names that are easily taken for one another.
func (c *Case) oddPaths(be backendInfo, key string) {
	dir := c.TempDir()
	names := []string{"x", "x ", " x", "X", "x.", ".x", "x\t", "a b", "%41", "A", "\u00e9", "e\u0301", "~", "$HOME", "x,y", "x;y", "x?y=1", "x#y", "*", "-x", "x:y", "x\\y", "x\n"}
	c.R.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	names = names[:5]
	cfgs := make([]cfgT, len(names))
	stores := make([]store.KVStore, len(names))
	open := func(i int) {
		c.Logf("open %s at %q", be.name, cfgs[i]["path"])
		s, err := openRaw(be.name, nil, cfgs[i])
		if err != nil {
			c.Fail("open", "opening the %s store at %q failed: %v", be.name, cfgs[i]["path"], err)
		}
		stores[i] = s
	}
	for i, n := range names {
		p := filepath.Join(dir, n)
		if wd, err := os.Getwd(); err == nil && c.R.Intn(4) == 0 {
			if rel, err := filepath.Rel(wd, p); err == nil {
				p = rel
			}
		}
		cfgs[i] = cfgT{"path": p}
		open(i)
		if _, err := os.Lstat(filepath.Join(dir, n)); err != nil {
			c.Fail(key, "a %s store was opened at %q, but there is nothing: %v", be.name, p, err)
		}
		if d := diffModel(Model{}, c.content(stores[i])); d != "" {
			c.Fail(key, "the store at %q is new, but has content of another one (%q): %s", p, names[:i], d)
		}
		c.exec(stores[i], []kvop{{opSet, []byte("name"), []byte(n)}})
	}
	for round := 0; round < 2; round++ {
		for i, n := range names {
			if d := diffModel(Model{"name": n}, c.content(stores[i])); d != "" {
				c.Fail(key, "the store at %q beside %q: %s", cfgs[i]["path"], names, d)
			}
			c.mustClose(stores[i])
			if round == 0 {
				open(i)
			}
		}
	}
	c.Count("odd_paths", len(names))
	c.Nontrivial(be.name + fmt.Sprint("paths", names))
}

func (c *Case) pathsC12(be backendInfo) {
	if be.disk && c.R.Intn(2) == 0 {
		c.oddPaths(be, "path")
		return
	}
	dir := c.TempDir()
	for _, v := range []interface{}{nil, 12, 3.5, []byte("x"), true} {
		c.refused(be, cfgT{"path": v}, "non-string path", "path_refused")
	}
	c.refused(be, cfgT{}, "missing path", "path_refused")
	file := filepath.Join(dir, "file")
	ioutil.WriteFile(file, []byte("this is not a database, only some text in a file"), 0644)
	switch be.name {
	case "gtreap":
		c.refused(be, cfgT{"path": file}, "path for the in-memory store", "path_refused")
		c.refused(be, cfgT{"path": "x"}, "path for the in-memory store", "path_refused")
	case "boltdb":
		c.refused(be, cfgT{"path": ""}, "empty path", "path_refused")
		c.refused(be, cfgT{"path": filepath.Join(dir, "no", "such", "dir", "x")}, "path in a missing directory", "path_refused")
		c.refused(be, cfgT{"path": dir}, "directory as file", "path_refused")
		c.refused(be, cfgT{"path": file}, "a file which is no database", "path_refused")
		c.refused(be, cfgT{"path": filepath.Join(dir, "ro"), "read_only": true}, "read-only opening of a missing file", "path_refused")
		// a refused opening must leave the file usable
		good := filepath.Join(dir, "good")
		c.refused(be, cfgT{"path": good, "bucket": ""}, "empty bucket name", "path_refused")
		s, err := openRaw(be.name, nil, cfgT{"path": good})
		if err != nil {
			c.Fail("open", "opening after a refused opening failed: %v", err)
		}
		c.exec(s, []kvop{{opSet, []byte("k"), []byte("v")}})
		c.mustClose(s)
		c.refused(be, cfgT{"path": good, "bucket": "other", "read_only": true}, "read-only opening of a missing bucket", "path_refused")
		s, err = openRaw(be.name, nil, cfgT{"path": good})
		if err != nil {
			c.Fail("open", "opening after a refused opening failed: %v", err)
		}
		if d := diffModel(Model{"k": "v"}, c.content(s)); d != "" {
			c.Fail("options", "after refused openings: %s", d)
		}
		c.mustClose(s)
	default:
		c.refused(be, cfgT{"path": ""}, "empty path", "path_refused")
		c.refused(be, cfgT{"path": file}, "file as directory", "path_refused")
		c.refused(be, cfgT{"path": filepath.Join(file, "sub")}, "path under a file", "path_refused")
	}
}

func (c *Case) existC12(be backendInfo) {
	dir := c.TempDir()
	c.refused(be, cfgT{"path": storePath(be.name, dir), "create_if_missing": false}, "create_if_missing=false on a missing database", "create_if_missing_refused")
	g := newKeyGen(c.R, 10, true)
	ops := genOps(c.R, g, 20, 20)
	m := Model{}
	m.apply(ops)
	first := cfgT{"path": storePath(be.name, dir)}
	switch c.R.Intn(3) {
	case 0:
		first["create_if_missing"] = true
	case 1:
		first["error_if_exists"] = true
		first["create_if_missing"] = true
	}
	c.Logf("open %v", first)
	s, err := openRaw(be.name, nil, first)
	if err != nil {
		c.Fail("open", "creating a database with %v failed: %v", first, err)
	}
	c.exec(s, ops)
	c.mustClose(s)
	c.refused(be, cfgT{"path": storePath(be.name, dir), "error_if_exists": true}, "error_if_exists on an existing database", "error_if_exists_refused")
	// every combination of the options about existence, with any others, on
	// this database and on a missing one
	var combos []cfgT
	for cim := 0; cim < 3; cim++ {
		for eie := 0; eie < 3; eie++ {
			for ro := 0; ro < 3; ro++ {
				o := randOptions(c.R, be.name)
				for i, k := range []string{"create_if_missing", "error_if_exists", "read_only"} {
					delete(o, k)
					if v := []int{cim, eie, ro}[i]; v > 0 {
						o[k] = v == 1
					}
				}
				combos = append(combos, o)
			}
		}
	}
	c.R.Shuffle(len(combos), func(i, j int) { combos[i], combos[j] = combos[j], combos[i] })
	for _, o := range combos {
		missing := c.R.Intn(3) == 0
		cfg := cfgT{"path": storePath(be.name, dir)}
		if missing {
			cfg["path"] = storePath(be.name, c.TempDir())
		}
		for k, v := range o {
			cfg[k] = v
		}
		switch {
		case !missing && o["error_if_exists"] == true:
			c.refused(be, cfg, "error_if_exists on an existing database", "error_if_exists_refused")
			continue
		case missing && o["create_if_missing"] == false:
			c.refused(be, cfg, "create_if_missing=false on a missing database", "create_if_missing_refused")
			continue
		case missing && o["read_only"] == true:
			c.refused(be, cfg, "read_only on a missing database", "read_only_missing_refused")
			continue
		}
		c.Logf("open %v", cfg)
		c.Count("existence_options_accepted", 1)
		s, err := openRaw(be.name, nil, cfg)
		if err != nil {
			c.Fail("open", "opening a database (missing: %v) with %v failed: %v", missing, o, err)
		}
		want := m
		if missing {
			want = Model{}
		}
		if d := diffModel(want, c.content(s)); d != "" {
			c.Fail("options", "opened with %v: %s", o, d)
		}
		if o["read_only"] == true {
			if err := c.tryExec(s, ops); err == nil {
				c.Fail("read-only", "a store opened with %v accepted a batch", o)
			}
			c.Count("read_only_writes_refused", 1)
		} else if !missing || c.R.Intn(2) == 0 {
			more := genOps(c.R, g, 5, 20)
			if !missing {
				m.apply(more)
			}
			c.exec(s, more)
		}
		c.mustClose(s)
	}
	for _, o := range []cfgT{{"create_if_missing": false}, {"error_if_exists": false}, {"create_if_missing": true, "error_if_exists": false}, {}} {
		cfg := cfgT{"path": storePath(be.name, dir)}
		for k, v := range o {
			cfg[k] = v
		}
		c.Logf("open %v", cfg)
		s, err := openRaw(be.name, nil, cfg)
		if err != nil {
			c.Fail("open", "opening an existing database with %v failed: %v", o, err)
		}
		if d := diffModel(m, c.content(s)); d != "" {
			c.Fail("options", "opened with %v: %s", o, d)
		}
		c.mustClose(s)
	}
	c.Nontrivial(fmt.Sprint("exist", first, opsString(ops)))
}

func (c *Case) bucketsC12(be backendInfo) {
	dir := c.TempDir()
	names := []string{"", "bleve", "Bleve", " bleve", "bleve ", "a", "A", "b", "bleve\x00", "bleve/a", "bleve.a", "d", "\xff", strings.Repeat("a", 300)}
	// a few of them in a case, so that they are used again
	c.R.Shuffle(len(names)-1, func(i, j int) { names[i+1], names[j+1] = names[j+1], names[i+1] })
	names = names[:7]
	for _, n := range []string{"bleve", names[3]} {
		// a pair that only differs in spelling
		names = append(names, strings.ToUpper(n), n+" ")
	}
	models := map[string]Model{}
	g := newKeyGen(c.R, 8, false)
	var id string
	for i := 0; i < 14; i++ {
		n := names[c.R.Intn(len(names))]
		o := cfgT{}
		if n != "" {
			o["bucket"] = n
		} else {
			n = "bleve" // the default name
		}
		s := c.mustOpen(be.name, dir, nil, o)
		if models[n] == nil {
			models[n] = Model{}
		}
		if d := diffModel(models[n], c.content(s)); d != "" {
			c.Fail("bucket", "bucket %q: %s", n, d)
		}
		ops := genOps(c.R, g, 1+c.R.Intn(10), 30)
		c.Logf("bucket %q: %s", n, opsString(ops))
		id += n + opsString(ops)
		models[n].apply(ops)
		c.exec(s, ops)
		if c.R.Intn(4) == 0 {
			s.(compacter).Compact()
			for k, v := range models[n] {
				if strings.HasPrefix(k, "d") && v == "\x00" {
					delete(models[n], k)
				}
			}
		}
		if d := diffModel(models[n], c.content(s)); d != "" {
			c.Fail("bucket", "bucket %q: %s", n, d)
		}
		c.mustClose(s)
		c.Count("bucket_histories", 1)
	}
	c.Nontrivial("bucket" + id)
}

func (c *Case) readOnlyC12(be backendInfo) {
	dir := c.TempDir()
	g := newKeyGen(c.R, 6+c.R.Intn(30), be.emptyKey)
	mo := &foldOp{}
	s := c.mustOpen(be.name, dir, mo, nil)
	m := Model{}
	var id string
	for i := 0; i < 1+c.R.Intn(6); i++ {
		ops := genOps(c.R, g, c.R.Intn(30), 30)
		c.Logf("batch %s", opsString(ops))
		id += opsString(ops)
		m.apply(ops)
		c.exec(s, ops)
	}
	if len(g.pool) > 0 { // something a compaction would remove
		ops := []kvop{{opSet, []byte("dzero"), []byte{0}}}
		m.apply(ops)
		c.exec(s, ops)
	}
	c.mustClose(s)
	o := randOptions(c.R, be.name)
	o["read_only"] = true
	s = c.mustOpen(be.name, dir, mo, o)
	r := c.mustReader(s)
	c.verifyReader(r, m, g, "read-only store")
	p := c.newIter(r, m, g)
	for i := 0; i < 10; i++ {
		c.stepIter(p, g)
	}
	p.it.Close()
	r.Close()
	c.Count("read_only_reads", 1)
	for i := 0; i < 4; i++ {
		var ops []kvop
		switch c.R.Intn(4) {
		case 0:
			ops = []kvop{{opSet, []byte("new"), []byte("x")}}
		case 1:
			ops = []kvop{{opDel, g.pick(c.R), nil}}
		case 2:
			ops = []kvop{{opMerge, g.pick(c.R), []byte("x")}}
		case 3:
			ops = genMergeOps(c.R, g, 1+c.R.Intn(6))
		}
		c.Logf("read-only write %s", opsString(ops))
		if len(ops) == 0 {
			continue
		}
		if err := c.tryExec(s, ops); err == nil {
			c.Fail("read-only", "a read-only store accepted a batch: %s", opsString(ops))
		}
		c.Count("read_only_writes_refused", 1)
	}
	if c.R.Intn(2) == 0 {
		c.Logf("read-only compact")
		if err := s.(compacter).Compact(); err == nil {
			c.Logf("compact returned nil")
		}
	}
	r = c.mustReader(s)
	c.verifyReader(r, m, g, "read-only store after refused writes")
	r.Close()
	c.mustClose(s)
	s = c.mustOpen(be.name, dir, mo, nil)
	if d := diffModel(m, c.content(s)); d != "" {
		c.Fail("read-only", "a read-only opening changed the content: %s", d)
	}
	c.mustClose(s)
	c.Nontrivial(fmt.Sprint("ro", be.name, o, id))
}

// ---------------------------------------------------------------- C13

type statser interface{ Stats() json.Marshaler }

func init() {
	register(&Check{
		ID:   "C13",
		Rule: "a case uses a Bolt, LevelDB or Badger store and the indexes over it (some operations failing), closes it, then calls reader opening, writer, batch execution (empty, set, delete, merge), MultiGet helpers, compaction, statistics, closing again, and every query and indexing call of the three indexes; each must return a non-nil error (closing, statistics and compaction: anything but a panic or a hang), and reopening must show exactly the acknowledged content. Non-trivial: the store held data and was closed after index queries; identified by the calls made.",
		Shards: func(th bool) []Shard {
			return shardsPerBackend(diskBackends, 2, 40, th, 15)
		},
		Run:  runC13,
		Need: []string{"closed_store_calls", "closed_index_calls", "closes", "reopens"},
	})
}

func runC13(c *Case) {
	be := backendOf(c.Shard.Backend)
	g := newKeyGen(c.R, 6+c.R.Intn(10), be.emptyKey)
	dir := c.TempDir()
	mo := &foldOp{refuse: map[string]bool{"refused": true}}
	extra := c.someOptions(be.name)
	s := c.mustOpen(be.name, dir, mo, extra)
	m := Model{}
	for i := 0; i < 1+c.R.Intn(4); i++ {
		ops := genMergeOps(c.R, g, 1+c.R.Intn(6))
		applyMerges(m, mo, ops)
		c.exec(s, ops)
	}
	lat, lng := c.R.Float64()*170-85, c.R.Float64()*360-180
	level := 5 + c.R.Intn(20)
	calls := indexCalls(s, lat, lng, level)
	var ids []string
	// open store: some calls, among them failing ones, then a write
	for i := 0; i < c.R.Intn(20); i++ {
		x := calls[c.R.Intn(len(calls))]
		c.Logf("open store: %s", x.name)
		ids = append(ids, x.name)
		if err := x.f(); err != nil && !x.mayFail {
			c.Fail("index", "%s failed on an open store: %v", x.name, err)
		}
		if c.R.Intn(4) == 0 {
			c.tryExec(s, []kvop{{opMerge, []byte("refused"), []byte("x")}})
			c.exec(s, []kvop{{opSet, []byte("after-query"), make([]byte, 3000)}})
			m["after-query"] = string(make([]byte, 3000))
		}
	}
	want := c.content(s)
	// batches prepared before closing
	w0 := c.mustWriter(s)
	b0 := w0.NewBatch()
	b0.Set([]byte("late"), []byte("x"))
	c.mustClose(s)
	c.Count("closes", 1)

	closedCall := func(name string, mustErr bool, f func() error) {
		c.Logf("closed store: %s", name)
		ids = append(ids, name)
		var err error
		p, st := Guard(func() { err = f() })
		if p != nil {
			c.Fail("panic:"+name, "%s on a closed %s store panicked: %v\n%s", name, be.name, p, trim(st, 1500))
		}
		if mustErr && err == nil {
			c.Fail("nil:"+name, "%s on a closed %s store returned no error", name, be.name)
		}
		c.Count("closed_store_calls", 1)
		c.Eval(1)
	}
	type call struct {
		name string
		must bool
		f    func() error
	}
	list := []call{
		{"Reader", true, func() error { _, err := s.Reader(); return err }},
		{"ExecuteBatch prepared", true, func() error { return w0.ExecuteBatch(b0) }},
		{"ExecuteBatch empty", true, func() error { return c.tryExec(s, nil) }},
		{"ExecuteBatch set", true, func() error { return c.tryExec(s, []kvop{{opSet, []byte("x"), []byte("y")}}) }},
		{"ExecuteBatch delete", true, func() error { return c.tryExec(s, []kvop{{opDel, g.pick(c.R), nil}}) }},
		{"ExecuteBatch merge", true, func() error { return c.tryExec(s, []kvop{{opMerge, g.pick(c.R), []byte("y")}}) }},
		{"ExecuteBatch mixed", true, func() error { return c.tryExec(s, genMergeOps(c.R, g, 5)) }},
		{"Close", false, func() error { return s.Close() }},
		{"Compact", false, func() error {
			if x, ok := s.(compacter); ok {
				return x.Compact()
			}
			return nil
		}},
		{"Stats", false, func() error {
			if x, ok := s.(statser); ok {
				x.Stats().MarshalJSON()
			}
			return nil
		}},
	}
	for _, x := range calls {
		x := x
		if !x.noStore {
			list = append(list, call{x.name, true, func() error { c.Count("closed_index_calls", 1); return x.f() }})
		}
	}
	c.R.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
	for _, x := range list {
		closedCall(x.name, x.must, x.f)
	}
	s = c.mustOpen(be.name, dir, mo, extra)
	if d := diffModel(want, c.content(s)); d != "" {
		c.Fail("reopen", "after using the closed store and reopening: %s", d)
	}
	c.Count("reopens", 1)
	c.mustClose(s)
	c.Nontrivial(fmt.Sprint(be.name, ids, level, lat))
	if c.Idx == 0 {
		c.Sample(strings.Join(c.history(), " | "))
	}
}

type idxCall struct {
	name    string
	mayFail bool // refused whatever the store does
	noStore bool // does not need the store
	f       func() error
}

// ---------------------------------------------------------------- C15

func init() {
	register(&Check{
		ID:   "C15",
		Rule: "a case opens the null store with random options and runs a random script of batches (sets, deletes, merges, preallocated, reset), Get, MultiGet, iterators with Seek and Next, and every index call; reads must be nil and iterators invalid, everything without error. Non-trivial: at least one key was set and then read; identified by the script.",
		Shards: func(th bool) []Shard {
			n := 150
			if th {
				n = 4000
			}
			return []Shard{{Name: "null-0", Backend: "null", N: n}, {Name: "null-1", Backend: "null", N: n}}
		},
		Run:  runC15,
		Need: []string{"gets", "multigets", "iterators", "batches", "index_calls"},
	})
}

func runC15(c *Case) {
	cfgs := []cfgT{nil, {}, {"path": ""}, {"path": "/nonexistent/x"}, {"path": 3}, {"read_only": true}, {"create_if_missing": false, "error_if_exists": true}}
	cfg := cfgs[c.R.Intn(len(cfgs))]
	var mo store.MergeOperator
	if c.R.Intn(2) == 0 {
		mo = &foldOp{partial: c.R.Intn(3)}
	}
	c.Logf("open null %v", cfg)
	s, err := openRaw("null", mo, cfg)
	if err != nil || s == nil {
		c.Fail("open", "opening the null store with %v failed: %v", cfg, err)
	}
	g := newKeyGen(c.R, 10, true)
	var id string
	set := false
	for i := 0; i < 20; i++ {
		switch c.R.Intn(5) {
		case 0, 1:
			ops := genOps(c.R, g, c.R.Intn(8), 30)
			if mo != nil && c.R.Intn(2) == 0 {
				ops = append(ops, kvop{opMerge, g.pick(c.R), []byte("m")})
			}
			c.Logf("batch %s", opsString(ops))
			id += opsString(ops)
			set = set || len(ops) > 0
			if c.R.Intn(2) == 0 {
				c.exec(s, ops)
			} else {
				w := c.mustWriter(s)
				n := c.R.Intn(1000)
				buf, b, err := w.NewBatchEx(store.KVBatchOptions{TotalBytes: n})
				if err != nil || len(buf) != n {
					c.Fail("newbatchex", "NewBatchEx: %d bytes, %v", len(buf), err)
				}
				fillBatch(b, ops)
				if c.R.Intn(3) == 0 {
					b.Reset()
				}
				if err := w.ExecuteBatch(b); err != nil {
					c.Fail("exec", "the null store refused a batch: %v", err)
				}
				if err := b.Close(); err != nil {
					c.Fail("close", "%v", err)
				}
				w.Close()
			}
			c.Count("batches", 1)
		case 2:
			r := c.mustReader(s)
			c.verifyReader(r, Model{}, g, "null store")
			r.Close()
		case 3:
			r := c.mustReader(s)
			p := c.newIter(r, Model{}, g)
			for j := 0; j < 10; j++ {
				id += c.stepIter(p, g)
			}
			if k, v := p.it.Key(), p.it.Value(); k != nil || v != nil {
				c.Fail("iter", "an iterator of the null store has key %s, value %s", q(k), q(v))
			}
			c.Count("iterators", 1)
			p.it.Close()
			r.Close()
		case 4:
			lat, lng := c.R.Float64()*180-90, c.R.Float64()*360-180
			for _, x := range indexCalls(s, lat, lng, c.R.Intn(20)) {
				c.Logf("index %s", x.name)
				err := x.f()
				if err != nil && !x.mayFail {
					c.Fail("index", "%s over the null store failed: %v", x.name, err)
				}
				c.Count("index_calls", 1)
			}
		}
	}
	c.mustClose(s)
	if set {
		c.Nontrivial(id)
	}
	if c.Idx == 0 {
		c.Sample(strings.Join(c.history(), " | "))
	}
}

var _ = geodata.Geometry_POINT
var _ index.GeoID
var _ s2.CellID
