package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/akhenakh/oureadb/store"
	"github.com/anishathalye/porcupine"
	"github.com/dgraph-io/badger"
)

// jitter injects a random scheduling delay.
func jitter(r *rand.Rand) {
	switch r.Intn(6) {
	case 0, 1:
		runtime.Gosched()
	case 2:
		time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
	case 3:
		for i := 0; i < r.Intn(2000); i++ {
			runtime.KeepAlive(i)
		}
	}
}

// lockedRand is a random source shared by goroutines (merge operators).
type lockedRand struct {
	mu sync.Mutex
	r  *rand.Rand
}

func (l *lockedRand) jitter() {
	l.mu.Lock()
	r := rand.New(rand.NewSource(l.r.Int63()))
	l.mu.Unlock()
	jitter(r)
}

// clients runs n goroutines and re-raises a panic of any of them as a violation.
func (c *Case) clients(n int, f func(i int, r *rand.Rand)) {
	var wg sync.WaitGroup
	seeds := make([]int64, n)
	for i := range seeds {
		seeds[i] = c.R.Int63()
	}
	failed := int32(0)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			p, st := Guard2(func() { f(i, rand.New(rand.NewSource(seeds[i]))) })
			if p != nil {
				if _, ok := p.(abortCase); !ok {
					c.Report("panic:"+panicSite(st), "client %d panicked: %v\n%s", i, p, trim(st, 3000))
				}
				atomic.StoreInt32(&failed, 1)
			}
		}(i)
	}
	wg.Wait()
	if failed != 0 {
		panic(abortCase{})
	}
}

// Guard2 is Guard, but also returns the abort of a case.
func Guard2(f func()) (p interface{}, stack string) {
	defer func() {
		if r := recover(); r != nil {
			p = r
			buf := make([]byte, 1<<16)
			stack = string(buf[:runtime.Stack(buf, false)])
		}
	}()
	f()
	return nil, ""
}

// ---------------------------------------------------------------- C05

func init() {
	register(&Check{
		ID:   "C05",
		Rule: "half of the cases record a small concurrent history: 3 to 6 clients execute batches of sets, deletes and merges over at most four shared entries (an entry is one key or a group of 48 keys written together) and open readers, with injected delays, also inside the merge operator; the interval of a read is its Reader() call, its content is read later in several ways which must agree; porcupine searches a linearization. The other half run writers with numbered batches over ten own keys each and readers: every snapshot must show every writer at one whole batch, between the last one acknowledged before Reader() was called and the last one begun before it returned, and all snapshots must be totally ordered. Non-trivial: at least one read overlapped a batch in time; identified by the observed history.",
		Shards: func(th bool) []Shard {
			var res []Shard
			for _, s := range shardsPerBackend(allBackends, 2, 44, th, 25) {
				res = append(res, s)
			}
			return res
		},
		Run:    runC05,
		Par:    4,
		Need:   []string{"histories_linearizable", "reads_overlapping_batches", "stress_snapshots", "stress_batches"},
		Assume: []string{"Badger may refuse a merge batch with a transaction conflict: the batch then counts as not executed (its absence of effects is part of what is checked)"},
	})
}

type linOp struct {
	read bool
	ops  []linKV // batch
	snap string  // state read
}

type linKV struct {
	e    int // entry
	kind opKind
	v    string
}

// the state is the list of entry values joined by '\x00', absent: "-".
func linStep(state, input, output interface{}) (bool, interface{}) {
	st := state.(string)
	in := input.(linOp)
	if in.read {
		return st == in.snap, st
	}
	f := strings.Split(st, ",")
	for _, o := range in.ops {
		switch o.kind {
		case opSet:
			f[o.e] = o.v
		case opDel:
			f[o.e] = "-"
		case opMerge:
			if f[o.e] == "-" {
				f[o.e] = "N"
			}
			f[o.e] += "|" + o.v
		}
	}
	return true, strings.Join(f, ",")
}

func runC05(c *Case) {
	if c.Idx%2 == 0 {
		runC05lin(c)
	} else {
		runC05stress(c)
	}
}

func isConflict(be string, err error) bool { return be == "badger" && err == badger.ErrConflict }

func runC05lin(c *Case) {
	be := backendOf(c.Shard.Backend)
	lr := &lockedRand{r: rand.New(rand.NewSource(c.R.Int63()))}
	mo := &hookOp{hook: func([]byte) { lr.jitter() }}
	mo.partial = c.R.Intn(3)
	extra := c.someOptions(be.name)
	s := c.mustOpen(be.name, c.TempDir(), mo, extra)
	ne := 1 + c.R.Intn(4)
	wide := make([]int, ne) // number of keys of the entry
	for i := range wide {
		wide[i] = 1
		if c.R.Intn(3) == 0 {
			wide[i] = 48
		}
	}
	key := func(e, j int) []byte { return []byte(fmt.Sprintf("%c%02d", 'a'+e, j)) }
	init := strings.TrimSuffix(strings.Repeat("-,", ne), ",")
	rounds := 1 + c.R.Intn(4)
	for round := 0; round < rounds; round++ {
		nc := 3 + c.R.Intn(4)
		per := 4 + c.R.Intn(6)
		var clock int64
		var mu sync.Mutex
		var events []porcupine.Operation
		var conflicts int
		c.clients(nc, func(id int, r *rand.Rand) {
			for i := 0; i < per; i++ {
				jitter(r)
				if r.Intn(5) < 2 {
					call := atomic.AddInt64(&clock, 1)
					rd, err := s.Reader()
					ret := atomic.AddInt64(&clock, 1)
					c.Tick()
					if err != nil {
						c.Fail("reader", "Reader failed: %v", err)
					}
					jitter(r)
					snap := c.linRead(rd, r, ne, wide, key)
					rd.Close()
					mu.Lock()
					events = append(events, porcupine.Operation{ClientId: id, Input: linOp{read: true, snap: snap}, Call: call, Return: ret})
					mu.Unlock()
					c.Logf("[%d..%d] client %d read %s", call, ret, id, snap)
					continue
				}
				// one batch over distinct entries
				perm := r.Perm(ne)[:1+r.Intn(ne)]
				var ops []linKV
				var kv []kvop
				merge := false
				for n, e := range perm {
					v := fmt.Sprintf("%d.%d.%d.%d", round, id, i, n)
					k := []opKind{opSet, opSet, opSet, opDel, opMerge}[r.Intn(5)]
					ops = append(ops, linKV{e, k, v})
					for j := 0; j < wide[e]; j++ {
						kv = append(kv, kvop{k, key(e, j), []byte(v)})
					}
					merge = merge || k == opMerge
				}
				w, err := s.Writer()
				if err != nil {
					c.Fail("writer", "Writer failed: %v", err)
				}
				b := filled(w.NewBatch(), kv)
				jitter(r)
				call := atomic.AddInt64(&clock, 1)
				err = w.ExecuteBatch(b)
				ret := atomic.AddInt64(&clock, 1)
				c.Tick()
				b.Close()
				w.Close()
				c.Logf("[%d..%d] client %d batch %v: %v", call, ret, id, ops, err)
				if err != nil {
					if merge && isConflict(be.name, err) {
						mu.Lock()
						conflicts++
						mu.Unlock()
						continue
					}
					c.Fail("exec", "executing a valid batch failed: %v", err)
				}
				mu.Lock()
				events = append(events, porcupine.Operation{ClientId: id, Input: linOp{ops: ops}, Call: call, Return: ret})
				mu.Unlock()
			}
		})
		// final read
		rd := c.mustReader(s)
		snap := c.linRead(rd, c.R, ne, wide, key)
		rd.Close()
		events = append(events, porcupine.Operation{ClientId: 100, Input: linOp{read: true, snap: snap}, Call: atomic.AddInt64(&clock, 1), Return: atomic.AddInt64(&clock, 1)})
		st0 := init
		model := porcupine.Model{Init: func() interface{} { return st0 }, Step: linStep,
			Equal: func(a, b interface{}) bool { return a.(string) == b.(string) }}
		c.Count("batches_refused_with_conflict", conflicts)
		over := 0
		for _, a := range events {
			if !a.Input.(linOp).read {
				continue
			}
			for _, b := range events {
				if !b.Input.(linOp).read && a.Call < b.Return && b.Call < a.Return {
					over++
					break
				}
			}
		}
		c.Count("reads_overlapping_batches", over)
		c.Count("history_operations", len(events))
		switch porcupine.CheckOperationsTimeout(model, events, 20*time.Second) {
		case porcupine.Ok:
			c.Count("histories_linearizable", 1)
		case porcupine.Unknown:
			c.Count("histories_not_decided_in_time", 1)
		default:
			c.Fail("linearizability", "no order of the operations of this history (initial content %s) explains what was read: %s", st0, linPrint(events))
		}
		c.Tick()
		init = snap
		if over > 0 {
			c.Nontrivial(linPrint(events))
		}
		if c.Idx == 0 && round == 0 {
			c.Sample(linPrint(events))
		}
	}
	c.mustClose(s)
}

func linPrint(ev []porcupine.Operation) string {
	sort.Slice(ev, func(i, j int) bool { return ev[i].Call < ev[j].Call })
	var sb strings.Builder
	for _, e := range ev {
		in := e.Input.(linOp)
		fmt.Fprintf(&sb, "\n[%d..%d] client %d ", e.Call, e.Return, e.ClientId)
		if in.read {
			fmt.Fprintf(&sb, "reads %s", in.snap)
			continue
		}
		for _, o := range in.ops {
			fmt.Fprintf(&sb, "%s(%d,%s) ", []string{"set", "del", "merge"}[o.kind], o.e, o.v)
		}
	}
	return sb.String()
}

// linRead reads the whole content through one reader over some time, in random
// ways, and returns the entries; keys of a group must agree.
func (c *Case) linRead(rd store.KVReader, r *rand.Rand, ne int, wide []int, key func(e, j int) []byte) string {
	res := make([]string, ne)
	for e := range res {
		var vals []string
		val := func(v []byte) {
			if v == nil {
				vals = append(vals, "-")
			} else {
				vals = append(vals, string(v))
			}
		}
		switch r.Intn(3) {
		case 0:
			for j := 0; j < wide[e]; j++ {
				v, err := rd.Get(key(e, j))
				if err != nil {
					c.Fail("get", "Get failed: %v", err)
				}
				val(v)
				if r.Intn(16) == 0 {
					jitter(r)
				}
			}
		case 1:
			var ks [][]byte
			for j := 0; j < wide[e]; j++ {
				ks = append(ks, key(e, j))
			}
			vs, err := rd.MultiGet(ks)
			if err != nil || len(vs) != len(ks) {
				c.Fail("multiget", "MultiGet: %d values, %v", len(vs), err)
			}
			for _, v := range vs {
				val(v)
			}
		case 2:
			it := rd.PrefixIterator([]byte{byte('a' + e)})
			for k, v, ok := it.Current(); ok; k, v, ok = it.Current() {
				for len(vals) < wide[e] && !bytes.Equal(key(e, len(vals)), k) {
					val(nil)
				}
				val(append([]byte{}, v...))
				if r.Intn(16) == 0 {
					jitter(r)
				}
				it.Next()
			}
			it.Close()
			for len(vals) < wide[e] {
				val(nil)
			}
		}
		for _, v := range vals {
			if v != vals[0] {
				c.Fail("partial", "a reader saw part of a batch: keys of group %d, always written together, are %v", e, vals)
			}
		}
		res[e] = vals[0]
	}
	c.Tick()
	return strings.Join(res, ",")
}

// runC05stress: numbered batches per writer, snapshots as vectors.
func runC05stress(c *Case) {
	be := backendOf(c.Shard.Backend)
	lr := &lockedRand{r: rand.New(rand.NewSource(c.R.Int63()))}
	mo := &hookOp{hook: func([]byte) { lr.jitter() }}
	extra := c.someOptions(be.name)
	s := c.mustOpen(be.name, c.TempDir(), mo, extra)
	nw, nr := 2+c.R.Intn(3), 2+c.R.Intn(3)
	per := 60 + c.R.Intn(60)
	if be.name == "gtreap" {
		per *= 4
	}
	const nk = 10
	merges := c.R.Intn(2) == 0
	// some batches as large as the write buffers of the engines
	pad := ""
	if c.R.Intn(3) == 0 {
		size := 8<<10 + c.R.Intn(32<<10)
		if c.R.Intn(3) == 0 {
			size = 60<<10 + c.R.Intn(100<<10)
		}
		per = 12 + c.R.Intn(12)
		pad = "." + strings.Repeat("#", size)
		c.prefill(be, s)
		c.Count("stress_batches_large", nw*per)
	}
	issued := make([]int64, nw)
	acked := make([]int64, nw)
	key := func(w, j int) []byte { return []byte(fmt.Sprintf("w%d-%02d", w, j)) }
	var mu sync.Mutex
	var vecs [][]int64
	var running int32 = int32(nw)
	overlaps := int64(0)
	c.clients(nw+nr, func(id int, r *rand.Rand) {
		if id < nw {
			defer atomic.AddInt32(&running, -1)
			w, err := s.Writer()
			if err != nil {
				c.Fail("writer", "Writer failed: %v", err)
			}
			defer w.Close()
			for n := int64(1); n <= int64(per); n++ {
				b := w.NewBatch()
				perm := r.Perm(nk)
				for _, j := range perm {
					if n%4 == 3 && j != 0 {
						b.Delete(key(id, j))
					} else {
						b.Set(key(id, j), []byte(fmt.Sprint(n)+pad))
					}
				}
				if merges && r.Intn(3) == 0 {
					b.Merge([]byte(fmt.Sprintf("m%d", id)), []byte("x"))
				}
				atomic.StoreInt64(&issued[id], n)
				err := w.ExecuteBatch(b)
				if err != nil {
					c.Fail("exec", "executing a valid batch failed: %v", err)
				}
				atomic.StoreInt64(&acked[id], n)
				b.Close()
				c.Tick()
				if r.Intn(8) == 0 {
					jitter(r)
				}
			}
			return
		}
		var last []int64
		for {
			stop := atomic.LoadInt32(&running) == 0
			lo := make([]int64, nw)
			hi := make([]int64, nw)
			for i := range lo {
				lo[i] = atomic.LoadInt64(&acked[i])
			}
			rd, err := s.Reader()
			if err != nil {
				c.Fail("reader", "Reader failed: %v", err)
			}
			for i := range hi {
				hi[i] = atomic.LoadInt64(&issued[i])
			}
			jitter(r)
			vec := make([]int64, nw)
			m := Model{}
			if r.Intn(2) == 0 {
				it := rd.RangeIterator([]byte("w"), []byte("x"))
				for k, v, ok := it.Current(); ok; k, v, ok = it.Current() {
					m[string(k)] = string(v)
					if r.Intn(20) == 0 {
						jitter(r)
					}
					it.Next()
				}
				it.Close()
			} else {
				for i := 0; i < nw; i++ {
					for j := 0; j < nk; j++ {
						v, err := rd.Get(key(i, j))
						if err != nil {
							c.Fail("get", "Get failed: %v", err)
						}
						if v != nil {
							m[string(key(i, j))] = string(v)
						}
					}
					if r.Intn(3) == 0 {
						jitter(r)
					}
				}
			}
			rd.Close()
			c.Tick()
			for i := 0; i < nw; i++ {
				var n int64
				fmt.Sscan(m[string(key(i, 0))], &n)
				vec[i] = n
				if v := m[string(key(i, 0))]; n != 0 && v != fmt.Sprint(n)+pad {
					c.Fail("value", "a reader saw a value of writer %d nobody set: batch %d, %d bytes", i, n, len(v))
				}
				for j := 1; j < nk; j++ {
					want := fmt.Sprint(n) + pad
					if n%4 == 3 || n == 0 {
						want = ""
					}
					if m[string(key(i, j))] != want {
						c.Fail("partial", "a reader saw part of a batch: writer %d key 0 is from batch %d, key %d is %s", i, n, j, q([]byte(m[string(key(i, j))])))
					}
				}
				if n < lo[i] || n > hi[i] {
					c.Fail("bounds", "a reader opened after batch %d of writer %d was acknowledged and before batch %d began shows batch %d", lo[i], i, hi[i]+1, n)
				}
				if lo[i] != hi[i] {
					atomic.AddInt64(&overlaps, 1)
				}
				if last != nil && n < last[i] {
					c.Fail("backwards", "successive readers show batch %d then %d of writer %d", last[i], n, i)
				}
			}
			last = vec
			mu.Lock()
			vecs = append(vecs, vec)
			mu.Unlock()
			if stop {
				break
			}
		}
	})
	sort.Slice(vecs, func(i, j int) bool {
		var a, b int64
		for x := range vecs[i] {
			a += vecs[i][x]
			b += vecs[j][x]
		}
		return a < b
	})
	for i := 1; i < len(vecs); i++ {
		for x := range vecs[i] {
			if vecs[i][x] < vecs[i-1][x] {
				c.Fail("order", "two snapshots contradict any single order of the batches: %v and %v", vecs[i-1], vecs[i])
			}
		}
	}
	c.Count("stress_snapshots", len(vecs))
	c.Count("stress_batches", nw*per)
	c.Count("reads_overlapping_batches", int(overlaps))
	for _, v := range vecs {
		c.Seen("stress_states", fmt.Sprint(v))
	}
	if overlaps > 0 {
		c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx, vecs))
	}
	c.mustClose(s)
}

// ---------------------------------------------------------------- C06

func init() {
	register(&Check{
		ID:   "C06",
		Rule: "a sequential case executes random batches of merges over present, absent and empty values together with sets and deletes of other keys, using an operator whose result spells out the existing value (or its absence) and every operand in order, with partial merging declined, always or sometimes done; every stored value is compared with the fold and every argument the operator receives is recorded and checked. A concurrent case merges unique tokens into few shared keys from several goroutines (plus setters of the same keys) and checks that every acknowledged token is there exactly once, in order per goroutine. Non-trivial: a key was merged over an existing value, or two goroutines merged the same key; identified by the operations.",
		Shards: func(th bool) []Shard {
			return shardsPerBackend(allBackends, 2, 60, th, 20)
		},
		Run:    runC06,
		Par:    4,
		Need:   []string{"merge_batches", "merges_over_present", "merges_over_absent", "merges_over_empty", "full_merges", "concurrent_merges_acknowledged", "tokens_found"},
		Assume: []string{"Badger may refuse a concurrent merge with a transaction conflict; the client retries"},
	})
}

// recOp is a foldOp recording what it is given.
type recOp struct {
	foldOp
	mu       sync.Mutex
	full     []recCall
	partials int
}

type recCall struct {
	key      string
	existing string
	absent   bool
	operands []string
}

func (o *recOp) FullMerge(key, existing []byte, operands [][]byte) ([]byte, bool) {
	rc := recCall{key: string(key), existing: string(existing), absent: existing == nil}
	for _, p := range operands {
		rc.operands = append(rc.operands, string(p))
	}
	o.mu.Lock()
	o.full = append(o.full, rc)
	o.mu.Unlock()
	return o.foldOp.FullMerge(key, existing, operands)
}

func (o *recOp) PartialMerge(key, l, r []byte) ([]byte, bool) {
	v, ok := o.foldOp.PartialMerge(key, l, r)
	if ok {
		o.mu.Lock()
		o.partials++
		o.mu.Unlock()
	}
	return v, ok
}

func runC06(c *Case) {
	if c.Idx%3 == 2 {
		runC06conc(c)
		return
	}
	be := backendOf(c.Shard.Backend)
	g := newKeyGen(c.R, 2+c.R.Intn(16), be.emptyKey)
	mo := &recOp{foldOp: foldOp{partial: c.R.Intn(3)}}
	dir := c.TempDir()
	extra := c.someOptions(be.name)
	s := c.mustOpen(be.name, dir, mo, extra)
	m := Model{}
	var id strings.Builder
	over := false
	n := 4 + c.R.Intn(16)
	for i := 0; i < n; i++ {
		if c.R.Intn(4) == 0 {
			// give the merges something to start from, also empty values
			var ops []kvop
			for j := 0; j < 1+c.R.Intn(4); j++ {
				k := g.pick(c.R)
				switch c.R.Intn(3) {
				case 0:
					ops = append(ops, kvop{opSet, k, []byte{}})
				case 1:
					ops = append(ops, kvop{opDel, k, nil})
				default:
					ops = append(ops, kvop{opSet, k, genValue(c.R)})
				}
			}
			c.Logf("batch %d: %s", i, opsString(ops))
			m.apply(ops)
			c.exec(s, ops)
			continue
		}
		ops := genMergeOps(c.R, g, 1+c.R.Intn(8))
		if c.R.Intn(10) == 0 {
			// many operands of one key
			k := g.pick(c.R)
			ops = ops[:0]
			for j, n := 0, many(c.R, 400, 4, 6000); j < n; j++ {
				ops = append(ops, kvop{opMerge, k, []byte(fmt.Sprint(j))})
			}
		}
		c.Logf("batch %d: %s", i, opsString(ops))
		id.WriteString(opsString(ops))
		before := m.clone()
		applyMerges(m, &mo.foldOp, ops)
		mo.full = nil
		p0 := mo.partials
		c.exec(s, ops)
		c.Count("merge_batches", 1)
		c.Count("partial_merges", mo.partials-p0)
		c.Count("full_merges", len(mo.full))
		want := mergedKeys(ops)
		var got []string
		for _, f := range mo.full {
			got = append(got, f.key)
			v, ok := before[f.key]
			if f.absent == ok || f.existing != v {
				c.Fail("operator", "the merge operator was given existing value %q (nil: %v) for key %q, it was %q (present: %v)", f.existing, f.absent, f.key, v, ok)
			}
			switch {
			case !ok:
				c.Count("merges_over_absent", 1)
			case v == "":
				c.Count("merges_over_empty", 1)
				over = true
			default:
				c.Count("merges_over_present", 1)
				over = true
			}
			var exp []string
			for _, o := range ops {
				if o.kind == opMerge && string(o.k) == f.key {
					exp = append(exp, string(o.v))
				}
			}
			if strings.Join(exp, "|") != strings.Join(f.operands, "|") {
				c.Fail("operands", "the merge operator was given operands %q for key %q, merged were %q", f.operands, f.key, exp)
			}
		}
		sort.Strings(got)
		got = dedup(got)
		if strings.Join(got, "\x00/") != strings.Join(want, "\x00/") {
			c.Fail("calls", "keys %q were merged, the operator was called for %q", want, got)
		}
		if d := diffModel(m, c.content(s)); d != "" {
			c.Fail("merge", "after batch %d: %s", i, d)
		}
		if be.disk && c.R.Intn(10) == 0 {
			c.mustClose(s)
			s = c.mustOpen(be.name, dir, mo, extra)
		}
	}
	rd := c.mustReader(s)
	c.verifyReader(rd, m, g, "at the end")
	rd.Close()
	c.mustClose(s)
	if over {
		c.Nontrivial(be.name + id.String())
	}
	if c.Idx == 0 {
		c.Sample(strings.Join(c.history(), " | "))
	}
}

func runC06conc(c *Case) {
	be := backendOf(c.Shard.Backend)
	lr := &lockedRand{r: rand.New(rand.NewSource(c.R.Int63()))}
	mo := &hookOp{hook: func([]byte) { lr.jitter() }}
	mo.partial = c.R.Intn(3)
	dir := c.TempDir()
	extra := c.someOptions(be.name)
	s := c.mustOpen(be.name, dir, mo, extra)
	nk := 1 + c.R.Intn(4)
	nc := 2 + c.R.Intn(5)
	per := 10 + c.R.Intn(30)
	setters := c.R.Intn(3) == 0 // one client also sets other keys of the same batch set
	// keys start absent, empty or present
	m := Model{}
	var seed []kvop
	for k := 0; k < nk; k++ {
		switch c.R.Intn(3) {
		case 0:
			seed = append(seed, kvop{opSet, []byte(fmt.Sprintf("k%d", k)), []byte{}})
		case 1:
			seed = append(seed, kvop{opSet, []byte(fmt.Sprintf("k%d", k)), []byte("start")})
		}
	}
	m.apply(seed)
	c.exec(s, seed)
	acked := make([]map[string][]string, nc) // per client and key, in order
	for i := range acked {
		acked[i] = map[string][]string{}
	}
	var conflicts int64
	c.clients(nc, func(id int, r *rand.Rand) {
		w, err := s.Writer()
		if err != nil {
			c.Fail("writer", "Writer failed: %v", err)
		}
		defer w.Close()
		for i := 0; i < per; i++ {
			var ops []kvop
			for n := 0; n <= r.Intn(3); n++ {
				ops = append(ops, kvop{opMerge, []byte(fmt.Sprintf("k%d", r.Intn(nk))), []byte(fmt.Sprintf("%d.%d.%d", id, i, n))})
			}
			if setters {
				ops = append(ops, kvop{opSet, []byte(fmt.Sprintf("other%d", id)), []byte(fmt.Sprint(i))})
			}
			for try := 0; ; try++ {
				b := filled(w.NewBatch(), ops)
				err := w.ExecuteBatch(b)
				b.Close()
				c.Tick()
				if isConflict(be.name, err) && try < 10000 {
					atomic.AddInt64(&conflicts, 1)
					continue
				}
				if err != nil {
					c.Fail("exec", "executing a merge batch failed: %v", err)
				}
				break
			}
			for _, o := range ops {
				if o.kind == opMerge {
					acked[id][string(o.k)] = append(acked[id][string(o.k)], string(o.v))
				}
			}
			if r.Intn(4) == 0 {
				jitter(r)
			}
		}
	})
	c.Count("conflicts_retried", int(conflicts))
	check := func(what string) {
		got := c.content(s)
		for k := 0; k < nk; k++ {
			key := fmt.Sprintf("k%d", k)
			v, ok := got[key]
			pos := map[string]int{}
			var toks []string
			if ok {
				toks = strings.Split(v, "|")
			}
			start, had := m[key]
			if !had {
				start = "N"
			}
			total := 0
			for id := 0; id < nc; id++ {
				total += len(acked[id][key])
			}
			if total == 0 {
				if ok != had || ok && v != start {
					c.Fail("untouched", "%s: key %s was never merged and changed to %q", what, key, v)
				}
				continue
			}
			if len(toks) == 0 || toks[0] != start {
				c.Fail("start", "%s: key %s does not start from its initial value %q: %q", what, key, start, v)
			}
			for i, t := range toks[1:] {
				if _, dup := pos[t]; dup {
					c.Fail("duplicate", "%s: token %s is in key %s twice: %s", what, t, key, v)
				}
				pos[t] = i
			}
			for id := 0; id < nc; id++ {
				last := -1
				for _, t := range acked[id][key] {
					p, ok := pos[t]
					if !ok {
						c.Fail("lost", "%s: the acknowledged merge of %s into %s is lost: %s", what, t, key, v)
					}
					if p < last {
						c.Fail("order", "%s: client %d merged %s into %s after a token standing later in %s", what, id, t, key, v)
					}
					last = p
				}
			}
			if len(pos) != total {
				c.Fail("extra", "%s: key %s holds %d tokens, %d were merged", what, key, len(pos), total)
			}
			c.Count("tokens_found", total)
		}
	}
	check("after the clients finished")
	for id := range acked {
		for _, l := range acked[id] {
			c.Count("concurrent_merges_acknowledged", len(l))
		}
	}
	c.mustClose(s)
	if be.disk {
		s = c.mustOpen(be.name, dir, mo, extra)
		check("after reopening")
		c.mustClose(s)
	}
	c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx, acked))
}

// dedup drops repetitions from a sorted list.
func dedup(l []string) []string {
	var res []string
	for i, x := range l {
		if i == 0 || x != l[i-1] {
			res = append(res, x)
		}
	}
	return res
}
