package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/akhenakh/oureadb/store"
)

// verifyReader compares everything a reader offers with the model: every pool
// key through Get and MultiGet, and a full scan.
func (c *Case) verifyReader(r store.KVReader, m Model, g *keyGen, what string) {
	for _, k := range g.pool {
		c.checkGet(r, m, k, what)
	}
	n := 1 + many(c.R, 8, 6, 600)
	keys := make([][]byte, n)
	for i := range keys {
		keys[i] = g.pick(c.R)
		if c.R.Intn(6) == 0 {
			keys[i] = append(append([]byte(nil), keys[i]...), "-absent"...)
		}
	}
	c.checkMultiGet(r, m, keys, what)
	if d := diffModel(m, c.scan(r)); d != "" {
		c.Fail("scan", "%s: the full scan differs from the executed batches: %s", what, d)
	}
}

func (c *Case) checkGet(r store.KVReader, m Model, k []byte, what string) {
	c.Tick()
	v, err := r.Get(k)
	if err != nil {
		c.Fail("get", "%s: Get(%s) failed: %v", what, q(k), err)
	}
	c.checkValue(m, k, v, what+": Get")
	c.Count("gets", 1)
}

func (c *Case) checkValue(m Model, k, v []byte, what string) {
	want, ok := m[string(k)]
	if !ok && v != nil {
		c.Fail("get", "%s(%s) = %s, the key is absent", what, q(k), q(v))
	}
	if ok && v == nil {
		c.Fail("get", "%s(%s) = nil, the key is present with %s", what, q(k), q([]byte(want)))
	}
	if ok && string(v) != want {
		c.Fail("get", "%s(%s) = %s, want %s", what, q(k), q(v), q([]byte(want)))
	}
}

func (c *Case) checkMultiGet(r store.KVReader, m Model, keys [][]byte, what string) {
	c.Tick()
	vs, err := r.MultiGet(keys)
	if err != nil {
		c.Fail("multiget", "%s: MultiGet of %d keys failed: %v", what, len(keys), err)
	}
	if len(vs) != len(keys) {
		c.Fail("multiget", "%s: MultiGet of %d keys returned %d values", what, len(keys), len(vs))
	}
	for i := range vs {
		c.checkValue(m, keys[i], vs[i], fmt.Sprintf("%s: MultiGet[%d]", what, i))
	}
	c.Count("multigets", 1)
}

func init() {
	register(&Check{
		ID:   "C01",
		Rule: "a case is one random history of batches of sets and deletes (keys repeated within and across batches, byte-order corner-case keys, empty to 8 MB values, some batches over 1000 operations or executed twice) on one store with reopenings; after each batch a new reader is compared with a reference map (Get of every key, MultiGet, full scan). Non-trivial: at least one key was overwritten or deleted after having been set; identified by the hash of its operations.",
		Shards: func(th bool) []Shard {
			return shardsPerBackend(allBackends, 2, 50, th, 20)
		},
		Run:  runC01,
		Need: []string{"gets", "multigets", "batches", "reopens", "overwrites", "deletes_of_present", "empty_values", "values_over_a_megabyte"},
	})
}

func runC01(c *Case) {
	be := backendOf(c.Shard.Backend)
	g := newKeyGen(c.R, 4+c.R.Intn(40), be.emptyKey)
	extra := c.someOptions(be.name)
	dir := c.TempDir()
	s := c.mustOpen(be.name, dir, nil, extra)
	m := Model{}
	batches := 3 + c.R.Intn(25)
	var id strings.Builder
	nontrivial := false
	for i := 0; i < batches; i++ {
		n := c.R.Intn(12)
		if c.R.Intn(12) == 0 {
			n = 900 + c.R.Intn(1500)
		}
		ops := genOps(c.R, g, n, []int{10, 35, 80}[c.R.Intn(3)])
		if c.R.Intn(60) == 0 {
			v := make([]byte, many(c.R, 100000, 1, 8<<20))
			c.R.Read(v)
			ops = append(ops, kvop{opSet, g.pick(c.R), v})
			if len(v) > 1<<20 {
				c.Count("values_over_a_megabyte", 1)
			}
		}
		c.Logf("batch %d: %s", i, opsString(ops))
		for _, o := range ops {
			if _, ok := m[string(o.k)]; ok {
				nontrivial = true
				if o.kind == opDel {
					c.Count("deletes_of_present", 1)
				} else {
					c.Count("overwrites", 1)
				}
			}
			if o.kind == opSet && len(o.v) == 0 {
				c.Count("empty_values", 1)
			}
			m.apply([]kvop{o})
			id.WriteString(o.String())
		}
		w := c.mustWriter(s)
		b := w.NewBatch()
		fillBatch(b, ops)
		times := 1
		if c.R.Intn(10) == 0 {
			times = 2
		}
		for t := 0; t < times; t++ {
			if err := w.ExecuteBatch(b); err != nil {
				c.Fail("exec", "executing a valid batch of %d operations failed: %v", len(ops), err)
			}
		}
		b.Close()
		w.Close()
		c.Count("batches", times)
		c.Count("ops", len(ops))
		if be.disk && c.R.Intn(9) == 0 {
			c.mustClose(s)
			s = c.mustOpen(be.name, dir, nil, extra)
			c.Count("reopens", 1)
		}
		r := c.mustReader(s)
		c.verifyReader(r, m, g, fmt.Sprintf("after batch %d", i))
		if c.R.Intn(300) == 0 {
			keys := make([][]byte, 66000+c.R.Intn(2000))
			for j := range keys {
				keys[j] = []byte{'n', byte(j), byte(j >> 8)}
				if k := g.pick(c.R); len(m[string(k)]) < 1000 {
					keys[j] = k
				}
			}
			c.checkMultiGet(r, m, keys, fmt.Sprintf("%d keys at once after batch %d", len(keys), i))
			c.Count("multigets_over_65536_keys", 1)
		}
		if err := r.Close(); err != nil {
			c.Fail("close", "closing a reader failed: %v", err)
		}
	}
	if be.disk {
		c.mustClose(s)
		s = c.mustOpen(be.name, dir, nil, extra)
		c.Count("reopens", 1)
		r := c.mustReader(s)
		c.verifyReader(r, m, g, "after the last reopening")
		r.Close()
	}
	c.mustClose(s)
	if nontrivial {
		c.Nontrivial(be.name + id.String())
	}
	if c.Idx == 0 {
		c.Sample(strings.Join(c.history(), " | "))
	}
}

// modelIter is the reference iterator.
type modelIter struct {
	keys []string // matching, sorted
	lo   string
	pos  int // len(keys): invalid
}

func (m Model) iter(prefix []byte, isPrefix bool, start, end []byte) *modelIter {
	it := &modelIter{}
	for _, k := range m.keys() {
		if isPrefix {
			if !strings.HasPrefix(k, string(prefix)) {
				continue
			}
		} else {
			if start != nil && k < string(start) || end != nil && k >= string(end) {
				continue
			}
		}
		it.keys = append(it.keys, k)
	}
	return it
}

func (it *modelIter) seek(t string) { it.pos = sort.SearchStrings(it.keys, t) }
func (it *modelIter) next() {
	if it.pos < len(it.keys) {
		it.pos++
	}
}

// checkIter compares the position of an iterator with the reference.
func (c *Case) checkIter(it store.KVIterator, mi *modelIter, m Model, what string) {
	c.Tick()
	k, v, ok := it.Current()
	valid := it.Valid()
	if ok != valid {
		c.Fail("agree", "%s: Current says valid=%v, Valid says %v", what, ok, valid)
	}
	if mi.pos >= len(mi.keys) {
		if ok {
			c.Fail("iter", "%s: the iterator is at %s, it should be invalid", what, q(k))
		}
		c.Count("checked_invalid", 1)
		return
	}
	want := mi.keys[mi.pos]
	if !ok {
		c.Fail("iter", "%s: the iterator is invalid, it should be at %s", what, q([]byte(want)))
	}
	if string(k) != want {
		c.Fail("iter", "%s: the iterator is at %s, it should be at %s", what, q(k), q([]byte(want)))
	}
	if string(v) != m[want] {
		c.Fail("iter", "%s: value %s at %s, want %s", what, q(v), q(k), q([]byte(m[want])))
	}
	if k2 := it.Key(); string(k2) != want {
		c.Fail("agree", "%s: Key is %s, Current says %s", what, q(k2), q([]byte(want)))
	}
	if v2 := it.Value(); string(v2) != m[want] {
		c.Fail("agree", "%s: Value is %s, Current says %s", what, q(v2), q([]byte(m[want])))
	}
	c.Count("checked_positions", 1)
}

// iterPair is an iterator under test with its reference.
type iterPair struct {
	it   store.KVIterator
	mi   *modelIter
	m    Model
	name string
}

func (c *Case) bound(g *keyGen, nilOK bool) []byte {
	switch c.R.Intn(6) {
	case 0:
		if nilOK {
			return nil
		}
	case 1: // between keys
		k := append([]byte(nil), g.pick(c.R)...)
		return append(k, byte(c.R.Intn(256)))
	case 2: // a prefix of a key
		k := g.pick(c.R)
		if len(k) > 1 {
			return append([]byte(nil), k[:1+c.R.Intn(len(k)-1)]...)
		}
	}
	k := append([]byte(nil), g.pick(c.R)...)
	if len(k) == 0 {
		k = []byte{0}
	}
	return k
}

// newIter opens a random iterator over r whose content is m.
func (c *Case) newIter(r store.KVReader, m Model, g *keyGen) *iterPair {
	p := &iterPair{m: m}
	if c.R.Intn(2) == 0 {
		prefix := c.bound(g, true)
		if c.R.Intn(12) == 0 {
			prefix = []byte{}
		}
		p.name = fmt.Sprintf("prefix %s", q(prefix))
		p.it = r.PrefixIterator(prefix)
		p.mi = m.iter(prefix, true, nil, nil)
		c.Count("prefix_iterators", 1)
	} else {
		start, end := c.bound(g, true), c.bound(g, true)
		if c.R.Intn(3) > 0 && start != nil && end != nil && bytes.Compare(start, end) > 0 {
			start, end = end, start
		}
		p.name = fmt.Sprintf("range [%s,%s)", q(start), q(end))
		p.it = r.RangeIterator(start, end)
		p.mi = m.iter(nil, false, start, end)
		c.Count("range_iterators", 1)
	}
	if len(p.mi.keys) == 0 {
		c.Count("empty_iterators", 1)
	}
	c.checkIter(p.it, p.mi, m, p.name+": opened")
	return p
}

// step runs one random iterator operation.
func (c *Case) stepIter(p *iterPair, g *keyGen) string {
	switch n := c.R.Intn(10); {
	case n < 5:
		was := p.mi.pos >= len(p.mi.keys)
		c.Logf("%s: next", p.name)
		p.it.Next()
		p.mi.next()
		if was {
			c.Count("next_when_exhausted", 1)
		}
		c.checkIter(p.it, p.mi, p.m, p.name+": Next")
		return "n"
	default:
		t := c.bound(g, true)
		if len(p.mi.keys) > 0 && n < 8 {
			t = []byte(p.mi.keys[c.R.Intn(len(p.mi.keys))])
			if c.R.Intn(3) == 0 {
				t = append(t, 0)
			}
		}
		c.Logf("%s: seek %s", p.name, q(t))
		tc := append([]byte(nil), t...)
		p.it.Seek(tc)
		p.mi.seek(string(t))
		c.Count("seeks", 1)
		c.checkIter(p.it, p.mi, p.m, p.name+": Seek "+q(t))
		return "s" + string(t)
	}
}

func init() {
	register(&Check{
		ID:   "C02",
		Rule: "a case fills a store, then drives many prefix and range iterators (nil, empty, existing, between-keys and inverted bounds) with random scripts of Next and Seek, several interleaved on one reader, comparing Current, Key, Value and Valid after every step with a sorted-list reference; one evaluation is one iterator script. Non-trivial: the iterator matches at least two entries or was sought out of its bounds; identified by bounds, content and script.",
		Shards: func(th bool) []Shard {
			return shardsPerBackend(allBackends, 2, 24, th, 20)
		},
		Run:  runC02,
		Need: []string{"prefix_iterators", "range_iterators", "empty_iterators", "seeks", "next_when_exhausted", "checked_invalid", "checked_positions"},
	})
}

func runC02(c *Case) {
	be := backendOf(c.Shard.Backend)
	g := newKeyGen(c.R, 3+c.R.Intn(60), be.emptyKey)
	dir := c.TempDir()
	extra := c.someOptions(be.name)
	s := c.mustOpen(be.name, dir, nil, extra)
	m := Model{}
	for i, n := 0, 1+c.R.Intn(6); i < n; i++ {
		ops := genOps(c.R, g, 1+c.R.Intn(2*len(g.pool)), 30)
		c.Logf("batch %s", opsString(ops))
		m.apply(ops)
		c.exec(s, ops)
	}
	if c.R.Intn(8) == 0 { // large content: iterators that buffer ahead
		var ops []kvop
		for i := 0; i < 3000; i++ {
			ops = append(ops, kvop{opSet, []byte(fmt.Sprintf("k%05d", i*7%3000)), []byte(fmt.Sprint(i))})
		}
		m.apply(ops)
		c.exec(s, ops)
		c.Logf("3000 keys k00000...")
	}
	if be.disk && c.R.Intn(3) == 0 {
		c.mustClose(s)
		s = c.mustOpen(be.name, dir, nil, extra)
	}
	r := c.mustReader(s)
	for round := 0; round < 12; round++ {
		ni := 1 + c.R.Intn(3)
		if be.name == "badger" && ni > 1 {
			ni = 1 + c.R.Intn(2)
		}
		ps := make([]*iterPair, ni)
		ids := make([]string, ni)
		for i := range ps {
			ps[i] = c.newIter(r, m, g)
		}
		for st := 0; st < 6+c.R.Intn(30); st++ {
			i := c.R.Intn(ni)
			ids[i] += c.stepIter(ps[i], g)
		}
		// full traversal to the end and beyond
		p := ps[0]
		c.Logf("%s: traverse", p.name)
		p.it.Seek(nil)
		p.mi.seek("")
		c.checkIter(p.it, p.mi, m, p.name+": Seek nil")
		for p.mi.pos < len(p.mi.keys) {
			p.it.Next()
			p.mi.next()
			c.checkIter(p.it, p.mi, m, p.name+": traversal")
		}
		for i := 0; i < 3; i++ {
			p.it.Next()
			c.Count("next_when_exhausted", 1)
			c.checkIter(p.it, p.mi, m, p.name+": Next after the end")
		}
		for i, p := range ps {
			c.Eval(1)
			if len(p.mi.keys) >= 2 || strings.Contains(ids[i], "s") {
				c.Nontrivial(fmt.Sprint(be.name, c.Idx, p.name, ids[i], len(m)))
			}
			if err := p.it.Close(); err != nil {
				c.Fail("close", "closing an iterator failed: %v", err)
			}
		}
	}
	if err := r.Close(); err != nil {
		c.Fail("close", "closing a reader failed: %v", err)
	}
	c.mustClose(s)
	if c.Idx == 0 {
		c.Sample(strings.Join(c.history(), " | "))
	}
}

// prefill makes bolt's file and map large enough that no later write of a case
// has to remap it while readers are open (bolt blocks such a write by design).
func (c *Case) prefill(be backendInfo, s store.KVStore) {
	if be.name != "boltdb" {
		return
	}
	big := make([]byte, 1<<20)
	for i := 0; i < 12; i++ {
		c.exec(s, []kvop{{opSet, []byte(fmt.Sprintf("~fill%d", i)), big}})
	}
	var ops []kvop
	for i := 0; i < 12; i++ {
		ops = append(ops, kvop{opDel, []byte(fmt.Sprintf("~fill%d", i)), nil})
	}
	c.exec(s, ops)
	c.exec(s, nil)
}

func init() {
	register(&Check{
		ID:   "C03",
		Rule: "a case keeps up to five readers open, each with the content at its opening, while batches of sets, deletes and merges execute and compactions run; at random points any reader is compared with its own content through Get, MultiGet, fresh iterators and iterators left half-way before the writes. Non-trivial: at least two readers with different contents were compared after later writes; identified by the operations executed.",
		Shards: func(th bool) []Shard {
			return shardsPerBackend(allBackends, 2, 24, th, 20)
		},
		Run:  runC03,
		Need: []string{"gets", "multigets", "old_snapshot_checks", "half_way_iterators", "fresh_after_batch", "merges"},
	})
}

type snap struct {
	r     store.KVReader
	m     Model
	iters []*iterPair
	at    int
}

func runC03(c *Case) {
	be := backendOf(c.Shard.Backend)
	g := newKeyGen(c.R, 4+c.R.Intn(30), be.emptyKey)
	dir := c.TempDir()
	mo := &foldOp{partial: c.R.Intn(3)}
	extra := c.someOptions(be.name)
	s := c.mustOpen(be.name, dir, mo, extra)
	c.prefill(be, s)
	m := Model{}
	var snaps []*snap
	steps := 20 + c.R.Intn(60)
	batches := 0
	old := map[int]bool{}
	var id strings.Builder
	for st := 0; st < steps; st++ {
		switch n := c.R.Intn(10); {
		case n < 3:
			var ops []kvop
			if c.R.Intn(3) == 0 {
				ops = genMergeOps(c.R, g, 1+c.R.Intn(6))
				c.Count("merges", len(ops))
			} else {
				ops = genOps(c.R, g, 1+c.R.Intn(8), 40)
			}
			for i := range ops {
				if len(ops[i].v) > 4000 {
					ops[i].v = ops[i].v[:4000]
				}
			}
			c.Logf("batch %d: %s", batches, opsString(ops))
			id.WriteString(opsString(ops))
			applyMerges(m, mo, ops)
			c.exec(s, ops)
			batches++
			// a reader opened after the acknowledgement sees the batch
			r := c.mustReader(s)
			for _, o := range ops {
				c.checkGet(r, m, o.k, "reader opened after the batch")
			}
			r.Close()
			c.Count("fresh_after_batch", 1)
		case n < 5 && len(snaps) < 5:
			sn := &snap{r: c.mustReader(s), m: m.clone(), at: batches}
			c.Logf("reader opened after %d batches", batches)
			snaps = append(snaps, sn)
		case n < 6 && len(snaps) > 0:
			sn := snaps[c.R.Intn(len(snaps))]
			if len(sn.iters) < 3 && (be.name != "badger" || len(sn.iters) < 1) {
				p := c.newIter(sn.r, sn.m, g)
				for i := 0; i < c.R.Intn(4); i++ {
					c.stepIter(p, g)
				}
				sn.iters = append(sn.iters, p)
			}
		case n < 9 && len(snaps) > 0:
			sn := snaps[c.R.Intn(len(snaps))]
			what := fmt.Sprintf("reader opened after %d of %d batches", sn.at, batches)
			if batches > sn.at {
				old[sn.at] = true
				c.Count("old_snapshot_checks", 1)
			}
			c.Logf("check %s", what)
			switch c.R.Intn(3) {
			case 0:
				c.verifyReader(sn.r, sn.m, g, what)
			case 1:
				p := c.newIter(sn.r, sn.m, g)
				for i := 0; i < 10; i++ {
					c.stepIter(p, g)
				}
				p.it.Close()
			case 2:
				for _, p := range sn.iters {
					c.Count("half_way_iterators", 1)
					for i := 0; i < 5; i++ {
						c.stepIter(p, g)
					}
				}
			}
		case n == 9 && len(snaps) > 0 && c.R.Intn(2) == 0:
			i := c.R.Intn(len(snaps))
			sn := snaps[i]
			c.Logf("close reader opened after %d batches", sn.at)
			c.verifyReader(sn.r, sn.m, g, "before closing")
			for _, p := range sn.iters {
				p.it.Close()
			}
			sn.r.Close()
			snaps = append(snaps[:i], snaps[i+1:]...)
		}
	}
	for _, sn := range snaps {
		if batches > sn.at {
			old[sn.at] = true
			c.Count("old_snapshot_checks", 1)
		}
		for _, p := range sn.iters {
			c.Count("half_way_iterators", 1)
			c.stepIter(p, g)
			p.it.Close()
		}
		c.verifyReader(sn.r, sn.m, g, fmt.Sprintf("reader opened after %d of %d batches, at the end", sn.at, batches))
		sn.r.Close()
	}
	c.mustClose(s)
	if len(old) >= 2 {
		c.Nontrivial(be.name + id.String())
	}
	if c.Idx == 0 {
		c.Sample(strings.Join(c.history(), " | "))
	}
}

// foldOp is a merge operator whose result reveals the existing value and every
// operand in order: "<existing or N>|op|op". partial 0: never merges partially,
// 1: always, 2: depending on the operands.
type foldOp struct {
	partial int
	refuse  map[string]bool // keys whose merge is refused
	boom    map[string]bool // keys whose merge panics
	sep     byte            // between operands, 0: '|'
}

func (o *foldOp) sepOf() byte {
	if o == nil || o.sep == 0 {
		return '|'
	}
	return o.sep
}

func (o *foldOp) Name() string { return "fold" }

func (o *foldOp) FullMerge(key, existing []byte, operands [][]byte) ([]byte, bool) {
	if o.boom[string(key)] {
		panic("merge operator panic")
	}
	if o.refuse[string(key)] {
		return nil, false
	}
	var res []byte
	if existing == nil {
		res = append(res, 'N')
	} else {
		res = append(res, existing...)
	}
	for _, p := range operands {
		res = append(res, o.sepOf())
		res = append(res, p...)
	}
	return res, true
}

func (o *foldOp) can(l, r []byte) bool {
	switch o.partial {
	case 0:
		return false
	case 1:
		return true
	}
	return (len(l)+len(r))%2 == 0
}

func (o *foldOp) PartialMerge(key, l, r []byte) ([]byte, bool) {
	if !o.can(l, r) {
		return nil, false
	}
	res := append([]byte(nil), l...)
	res = append(res, o.sepOf())
	return append(res, r...), true
}

// applyMerges is the reference: a batch in which no key is both merged and set
// or deleted.
func applyMerges(m Model, o *foldOp, ops []kvop) {
	for _, p := range ops {
		if p.kind != opMerge {
			m.apply([]kvop{p})
			continue
		}
		v, ok := m[string(p.k)]
		if !ok {
			v = "N"
		}
		m[string(p.k)] = v + string([]byte{o.sepOf()}) + string(p.v)
	}
}

// genMergeOps draws merges, plus sets and deletes of other keys.
func genMergeOps(r *rand.Rand, g *keyGen, n int) []kvop {
	merged := map[string]bool{}
	plain := map[string]bool{}
	var ops []kvop
	for i := 0; i < n; i++ {
		k := g.pick(r)
		if plain[string(k)] || !merged[string(k)] && r.Intn(3) == 0 {
			if merged[string(k)] {
				continue
			}
			plain[string(k)] = true
			if r.Intn(3) == 0 {
				ops = append(ops, kvop{opDel, k, nil})
			} else {
				v := make([]byte, r.Intn(4))
				r.Read(v)
				ops = append(ops, kvop{opSet, k, v})
			}
			continue
		}
		merged[string(k)] = true
		for j := 0; j <= r.Intn(4); j++ {
			v := make([]byte, r.Intn(5))
			for x := range v {
				v[x] = byte('a' + r.Intn(26))
			}
			ops = append(ops, kvop{opMerge, k, v})
		}
	}
	if len(ops) > 2 && r.Intn(2) == 0 {
		// interleave, keeping the order per key
		for t := 0; t < len(ops); t++ {
			i := r.Intn(len(ops) - 1)
			if !bytes.Equal(ops[i].k, ops[i+1].k) {
				ops[i], ops[i+1] = ops[i+1], ops[i]
			}
		}
	}
	return ops
}

var _ = os.Getenv
var _ = filepath.Join
