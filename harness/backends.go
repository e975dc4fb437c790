package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/akhenakh/oureadb/store"
	"github.com/akhenakh/oureadb/store/badger"
	"github.com/akhenakh/oureadb/store/boltdb"
	"github.com/akhenakh/oureadb/store/goleveldb"
	"github.com/akhenakh/oureadb/store/gtreap"
	"github.com/akhenakh/oureadb/store/null"
)

func init() { log.SetOutput(ioutil.Discard) }

// The documented differences between the backends which the workloads respect.
type backendInfo struct {
	name     string
	disk     bool
	emptyKey bool // empty keys can be stored
	weight   int  // relative number of cases: opening badger is expensive
}

var backends = []backendInfo{
	{"gtreap", false, true, 8},
	{"boltdb", true, false, 4},
	{"goleveldb", true, true, 4},
	{"badger", true, false, 1},
}

func backendOf(name string) backendInfo {
	for _, b := range backends {
		if b.name == name {
			return b
		}
	}
	panic("unknown backend " + name)
}

type cfgT map[string]interface{}

func storePath(b, dir string) string {
	switch b {
	case "gtreap":
		return ""
	case "boltdb":
		return filepath.Join(dir, "bolt.db")
	case "goleveldb":
		return filepath.Join(dir, "ldb")
	case "badger":
		return filepath.Join(dir, "badger")
	}
	return ""
}

func openRaw(b string, mo store.MergeOperator, cfg cfgT) (store.KVStore, error) {
	m := map[string]interface{}(cfg)
	switch b {
	case "gtreap":
		return gtreap.New(mo, m)
	case "boltdb":
		return boltdb.New(mo, m)
	case "goleveldb":
		return goleveldb.New(mo, m)
	case "badger":
		return badger.New(mo, m)
	case "null":
		return null.New(mo, m)
	}
	panic("unknown backend " + b)
}

// openStore opens backend b under dir with the default options plus extra.
func openStore(b, dir string, mo store.MergeOperator, extra cfgT) (store.KVStore, error) {
	cfg := cfgT{"path": storePath(b, dir)}
	if b == "goleveldb" {
		cfg["create_if_missing"] = true
	}
	for k, v := range extra {
		cfg[k] = v
	}
	return openRaw(b, mo, cfg)
}

// mustOpen opens a store or reports: opening a fresh or intact store works.
func (c *Case) mustOpen(b, dir string, mo store.MergeOperator, extra cfgT) store.KVStore {
	c.Logf("open %s %v", b, extra)
	s, err := openStore(b, dir, mo, extra)
	if err != nil || s == nil {
		c.Fail("open", "opening the %s store failed: %v", b, err)
	}
	return s
}

func (c *Case) mustClose(s store.KVStore) {
	c.Logf("close store")
	if err := s.Close(); err != nil {
		c.Fail("close", "closing the store failed: %v", err)
	}
}

func (c *Case) mustReader(s store.KVStore) store.KVReader {
	c.Tick()
	r, err := s.Reader()
	if err != nil || r == nil {
		c.Fail("reader", "opening a reader failed: %v", err)
	}
	return r
}

func (c *Case) mustWriter(s store.KVStore) store.KVWriter {
	w, err := s.Writer()
	if err != nil || w == nil {
		c.Fail("writer", "opening a writer failed: %v", err)
	}
	return w
}

// kv operations of a batch.
type opKind int

const (
	opSet opKind = iota
	opDel
	opMerge
)

type kvop struct {
	kind opKind
	k, v []byte
}

func (o kvop) String() string {
	switch o.kind {
	case opSet:
		return fmt.Sprintf("set(%s,%s)", q(o.k), q(o.v))
	case opDel:
		return fmt.Sprintf("del(%s)", q(o.k))
	}
	return fmt.Sprintf("merge(%s,%s)", q(o.k), q(o.v))
}

// q prints bytes, long ones shortened.
func q(b []byte) string {
	if b == nil {
		return "nil"
	}
	if len(b) > 40 {
		return fmt.Sprintf("%q..(%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func opsString(ops []kvop) string {
	var s []string
	for i, o := range ops {
		if i >= 40 {
			s = append(s, fmt.Sprintf("... %d ops", len(ops)))
			break
		}
		s = append(s, o.String())
	}
	return strings.Join(s, " ")
}

func fillBatch(b store.KVBatch, ops []kvop) {
	for _, o := range ops {
		switch o.kind {
		case opSet:
			b.Set(o.k, o.v)
		case opDel:
			b.Delete(o.k)
		case opMerge:
			b.Merge(o.k, o.v)
		}
	}
}

// exec executes ops as one batch and requires success.
func (c *Case) exec(s store.KVStore, ops []kvop) {
	w := c.mustWriter(s)
	b := w.NewBatch()
	fillBatch(b, ops)
	c.Tick()
	if err := w.ExecuteBatch(b); err != nil {
		c.Fail("exec", "executing a valid batch failed: %v\n%s", err, opsString(ops))
	}
	b.Close()
	w.Close()
}

// tryExec executes ops as one batch and returns its error.
func (c *Case) tryExec(s store.KVStore, ops []kvop) error {
	w, err := s.Writer()
	if err != nil {
		return err
	}
	defer w.Close()
	b := w.NewBatch()
	defer b.Close()
	fillBatch(b, ops)
	c.Tick()
	return w.ExecuteBatch(b)
}

// Model is the reference content.
type Model map[string]string

func (m Model) clone() Model {
	r := make(Model, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (m Model) keys() []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// apply applies sets and deletes in order.
func (m Model) apply(ops []kvop) {
	for _, o := range ops {
		switch o.kind {
		case opSet:
			m[string(o.k)] = string(o.v)
		case opDel:
			delete(m, string(o.k))
		default:
			panic("merge in plain model")
		}
	}
}

// equalKV reports the first difference between scans.
func diffModel(want, got Model) string {
	var d []string
	for _, k := range want.keys() {
		g, ok := got[k]
		if !ok {
			d = append(d, fmt.Sprintf("missing %s=%s", q([]byte(k)), q([]byte(want[k]))))
		} else if g != want[k] {
			d = append(d, fmt.Sprintf("%s=%s want %s", q([]byte(k)), q([]byte(g)), q([]byte(want[k]))))
		}
	}
	for _, k := range got.keys() {
		if _, ok := want[k]; !ok {
			d = append(d, fmt.Sprintf("unexpected %s=%s", q([]byte(k)), q([]byte(got[k]))))
		}
	}
	if len(d) == 0 {
		return ""
	}
	if len(d) > 8 {
		d = append(d[:8], fmt.Sprintf("... %d differences", len(d)))
	}
	return strings.Join(d, "; ")
}

// scan reads the full content through a range iterator, checking the order.
func (c *Case) scan(r store.KVReader) Model {
	it := r.RangeIterator(nil, nil)
	defer it.Close()
	return c.drain(it, "full scan")
}

func (c *Case) drain(it store.KVIterator, what string) Model {
	got := Model{}
	var prev []byte
	first := true
	for n := 0; ; n++ {
		k, v, ok := it.Current()
		if !ok {
			break
		}
		if !first && bytes.Compare(prev, k) >= 0 {
			c.Fail("order", "%s: key %s after %s", what, q(k), q(prev))
		}
		first = false
		prev = append(prev[:0], k...)
		got[string(k)] = string(v)
		it.Next()
		c.Tick()
		if n > 5000000 {
			c.Fail("endless", "%s: more than 5 million entries", what)
		}
	}
	return got
}

// snapshot opens a reader, scans everything and closes it.
func (c *Case) content(s store.KVStore) Model {
	r := c.mustReader(s)
	defer r.Close()
	return c.scan(r)
}

// keyGen draws keys from a small pool biased to byte-order corner cases.
type keyGen struct {
	pool [][]byte
}

var trickyKeys = []string{
	"", "\x00", "\x00\x00", "\x00\xff", "\x01", "a", "a\x00", "a\x00\x00", "a\xff", "a\xff\xff", "aa", "ab", "b", "b\x00",
	"d", "d\x00", "d\xff", "da", "dz", "e", "\xfe", "\xfe\xff", "\xff", "\xff\x00", "\xff\xff", "\xff\xff\xff", "\x7f", "\x80", "k", "key", "key1", "key10", "key2", "\xc3\xa9",
}

func newKeyGen(r *rand.Rand, n int, empty bool) *keyGen {
	g := &keyGen{}
	seen := map[string]bool{}
	add := func(k []byte) {
		if len(k) == 0 && !empty {
			return
		}
		if bytes.HasPrefix(k, []byte("!badger!")) || seen[string(k)] {
			return
		}
		seen[string(k)] = true
		g.pool = append(g.pool, k)
	}
	for len(g.pool) < n {
		switch r.Intn(7) {
		case 6:
			var pool []string
			for _, k := range g.pool {
				if len(k) < 100 {
					pool = append(pool, string(k))
				}
			}
			add([]byte(lookAlike(r, pool)))
		case 0, 1, 2:
			add([]byte(trickyKeys[r.Intn(len(trickyKeys))]))
		case 3: // extend an existing key
			if len(g.pool) > 0 {
				k := append([]byte(nil), g.pool[r.Intn(len(g.pool))]...)
				for i := 0; i <= r.Intn(3); i++ {
					k = append(k, []byte{0, 1, 'a', 0x7f, 0x80, 0xfe, 0xff}[r.Intn(7)])
				}
				add(k)
			}
		case 4:
			k := make([]byte, 1+r.Intn(10))
			r.Read(k)
			add(k)
		case 5:
			if r.Intn(4) == 0 {
				k := make([]byte, 100+r.Intn(900))
				if r.Intn(6) == 0 {
					k = make([]byte, 500+many(r, 2000, 2, 30000))
				}
				r.Read(k)
				add(k)
			} else {
				k := make([]byte, 1+r.Intn(4))
				for i := range k {
					k[i] = "abcdz\x00\xff"[r.Intn(7)]
				}
				add(k)
			}
		}
		if len(seen) == 0 && len(g.pool) == 0 && n == 0 {
			break
		}
	}
	return g
}

func (g *keyGen) pick(r *rand.Rand) []byte { return g.pool[r.Intn(len(g.pool))] }

func genValue(r *rand.Rand) []byte {
	switch r.Intn(12) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return []byte{0}
	case 3:
		return []byte{0xff}
	case 4:
		v := make([]byte, 1000+r.Intn(5000))
		r.Read(v)
		return v
	case 5:
		if r.Intn(6) == 0 {
			v := make([]byte, 20000+r.Intn(100000))
			r.Read(v)
			return v
		}
	}
	v := make([]byte, 1+r.Intn(24))
	r.Read(v)
	return v
}

// genOps draws n sets and deletes, repeating keys within the batch.
func genOps(r *rand.Rand, g *keyGen, n int, delPct int) []kvop {
	ops := make([]kvop, 0, n)
	for i := 0; i < n; i++ {
		k := g.pick(r)
		if len(ops) > 0 && r.Intn(4) == 0 {
			k = ops[r.Intn(len(ops))].k
		}
		if r.Intn(100) < delPct {
			ops = append(ops, kvop{opDel, k, nil})
		} else {
			ops = append(ops, kvop{opSet, k, genValue(r)})
		}
	}
	return ops
}

// shardsPerBackend makes shards for the given backends.
func shardsPerBackend(names []string, shards, cases int, thorough bool, mul int) []Shard {
	var res []Shard
	if thorough {
		cases *= mul
	}
	for _, n := range names {
		b := backendOf(n)
		k := cases * b.weight / 4
		if k < 1 {
			k = 1
		}
		for i := 0; i < shards; i++ {
			res = append(res, Shard{Name: fmt.Sprintf("%s-%d", n, i), Backend: n, N: k})
		}
	}
	return res
}

var allBackends = []string{"badger", "boltdb", "goleveldb", "gtreap"}
var diskBackends = []string{"badger", "boltdb", "goleveldb"}

func removeAll(p string) { os.RemoveAll(p) }
