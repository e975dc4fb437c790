package main

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"
)

func init() {
	register(&Check{
		ID:     "C44",
		Rule:   "one case draws up to three indexes in one store, indexing calls with ids of their own and queries; several goroutines make the calls, others ask the queries meanwhile, through shared index objects or ones of their own, while a goroutine writes unrelated entries or compacts. A logical clock stamps the start and end of everything. What a query has to find at last is told by a store which was given all objects beforehand. Each answer must hold every such id whose indexing call ended before the query started, no id whose call started after the query ended, none else, each once, and whatever an earlier ended run of the same query held. Non-trivial: an answer to a query which overlapped with indexing calls and held some but not all of its final ids, by case, query and number of ids.",
		Need:   []string{"answers judged", "overlapping answers", "answers between none and all", "objects indexed", "compactions or unrelated batches"},
		Shards: func(th bool) []Shard { return shardsPerBackend(allBackends, 2, 60, th, 30) },
		Run:    runC44,
	})
}

func runC44(c *Case) {
	b := c.Shard.Backend
	be := backendOf(b)
	ow := newOpWorld(c.R, 2+c.R.Intn(6))
	ps := genPrefixes(c.R, 1+c.R.Intn(3))
	var specs []idxSpec
	for _, p := range ps {
		specs = append(specs, genSpec(c.R, p))
	}
	nobj := 40 + c.R.Intn(80)
	if b == "boltdb" || b == "badger" {
		nobj /= 2
	}
	type call struct {
		op         *idxOp
		on         int
		start, end int64 // 0: not yet
	}
	calls := make([]*call, nobj)
	of := map[string]*call{}
	for i := range calls {
		j := c.R.Intn(len(specs))
		op := ow.indexOp(specs[j])
		op.id += fmt.Sprintf("#%d", i)
		op.idSlice = cpID(op.id)
		calls[i] = &call{op: op, on: j}
		of[op.id] = calls[i]
	}
	nq := 4 + c.R.Intn(8)
	qs := make([]*idxOp, nq)
	qon := make([]int, nq)
	for i := range qs {
		qon[i] = c.R.Intn(len(specs))
		qs[i] = ow.queryOp(specs[qon[i]])
	}
	// what is found at last
	final := make([]map[string]int, nq)
	{
		s := c.mustOpen("gtreap", "", nil, nil)
		var ins []*idxInst
		for _, sp := range specs {
			ins = append(ins, sp.over(s))
		}
		for _, k := range calls {
			if _, _, err := k.op.run(ins[k.on]); err != nil {
				c.Fail("index", "%s: %v", k.op.desc, err)
			}
		}
		for i, qo := range qs {
			got, _, err := qo.run(ins[qon[i]])
			if err != nil {
				c.Fail("query", "%s: %v", qo.desc, err)
			}
			final[i] = idCounts(got)
		}
		s.Close()
	}

	dir := ""
	if be.disk {
		dir = c.TempDir()
	}
	s := c.mustOpen(b, dir, nil, nil)
	if be.disk {
		c.prefill(be, s)
	}
	var shared []*idxInst
	for _, sp := range specs {
		shared = append(shared, sp.over(s))
	}
	var clock int64
	now := func() int64 { return atomic.AddInt64(&clock, 1) }
	type answer struct {
		q          int
		start, end int64
		ids        map[string]int
		raw        int
	}
	var mu sync.Mutex
	var answers []*answer
	bad := ""
	fail := func(f string, a ...interface{}) {
		mu.Lock()
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
		mu.Unlock()
	}
	failed := func() bool {
		mu.Lock()
		defer mu.Unlock()
		return bad != ""
	}
	var wg, bg sync.WaitGroup
	var left int32 = int32(nobj)
	writers, readers := 1+c.R.Intn(4), 2+c.R.Intn(4)
	own := c.R.Intn(2) == 0
	stop := make(chan struct{})
	for g := 0; g < writers; g++ {
		g := g
		r := rand.New(rand.NewSource(c.R.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := g; i < nobj && !failed(); i += writers {
				k := calls[i]
				in := shared[k.on]
				if own {
					in = specs[k.on].over(s)
				}
				if r.Intn(3) == 0 {
					time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
				}
				atomic.StoreInt64(&k.start, now())
				_, _, err := k.op.run(in)
				if err != nil {
					fail("%s: %v", k.op.desc, err)
				}
				atomic.StoreInt64(&k.end, now())
				atomic.AddInt32(&left, -1)
			}
		}()
	}
	for g := 0; g < readers; g++ {
		r := rand.New(rand.NewSource(c.R.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 400 && !failed(); n++ {
				last := atomic.LoadInt32(&left) <= 0
				i := r.Intn(nq)
				in := shared[qon[i]]
				if own && r.Intn(2) == 0 {
					in = specs[qon[i]].over(s)
				}
				a := &answer{q: i, start: now()}
				got, _, err := qs[i].run(in)
				a.end = now()
				if err != nil {
					fail("%s: %v", qs[i].desc, err)
					return
				}
				a.ids, a.raw = idCounts(got), len(got)
				mu.Lock()
				answers = append(answers, a)
				mu.Unlock()
				if last {
					return
				}
			}
		}()
	}
	bg.Add(1)
	disturb := c.R.Intn(3)
	unrelated := []byte("\xfcunrelated")
	for clash := true; clash; {
		clash = false
		for _, sp := range specs {
			if hasPrefix(unrelated, sp.prefix) {
				unrelated[0]--
				clash = true
			}
		}
	}
	go func() {
		defer bg.Done()
		for n := 0; ; n++ {
			select {
			case <-stop:
				return
			case <-time.After(time.Millisecond):
			}
			switch x := s.(type) {
			case interface{ Compact() error }:
				if disturb == 0 {
					if err := x.Compact(); err != nil {
						fail("compaction: %v", err)
					}
				}
			case interface{ CompactWithBatchSize(int) error }:
				if disturb == 0 {
					if err := x.CompactWithBatchSize(5); err != nil {
						fail("compaction: %v", err)
					}
				}
			}
			if disturb == 1 {
				w, err := s.Writer()
				if err != nil {
					fail("writer: %v", err)
					return
				}
				bt := w.NewBatch()
				bt.Set(unrelated, []byte(fmt.Sprint(n)))
				err = w.ExecuteBatch(bt)
				bt.Close()
				w.Close()
				if err != nil {
					fail("unrelated batch: %v", err)
				}
			}
			if disturb < 2 {
				mu.Lock()
				c.Count("compactions or unrelated batches", 1)
				mu.Unlock()
			}
		}
	}()
	wg.Wait()
	close(stop)
	bg.Wait()
	c.Tick()
	if bad != "" {
		c.Fail("call", "%s", bad)
	}
	c.Count("objects indexed", nobj)
	seen := make([]map[string]int64, nq) // id -> earliest end of an answer that held it
	for i := range seen {
		seen[i] = map[string]int64{}
	}
	for _, a := range answers {
		for id := range a.ids {
			if e := seen[a.q][id]; e == 0 || a.end < e {
				seen[a.q][id] = a.end
			}
		}
	}
	for _, a := range answers {
		f := final[a.q]
		desc := fmt.Sprintf("%s: %s during [%d,%d]", specs[qon[a.q]], qs[a.q].desc, a.start, a.end)
		overlap := false
		for id, n := range f {
			k := of[id]
			if k.end <= a.start {
				if a.ids[id] != n {
					c.Fail("missing", "%s holds %s %d times (%d expected), which was indexed during [%d,%d]", desc, q([]byte(id)), a.ids[id], n, k.start, k.end)
				}
			} else if k.start < a.end {
				overlap = true
			}
			if e := seen[a.q][id]; e != 0 && e < a.start && a.ids[id] == 0 {
				c.Fail("vanished", "%s lacks %s, which an answer to the same query that ended at %d held", desc, q([]byte(id)), e)
			}
		}
		for id, n := range a.ids {
			if f[id] == 0 {
				c.Fail("invented", "%s holds %s, which does not belong there", desc, q([]byte(id)))
			}
			if n > f[id] {
				c.Fail("repeated", "%s holds %s %d times", desc, q([]byte(id)), n)
			}
			if k := of[id]; k.start > a.end {
				c.Fail("early", "%s holds %s, which was indexed later, during [%d,%d]", desc, q([]byte(id)), k.start, k.end)
			}
		}
		c.Eval(1)
		c.Count("answers judged", 1)
		if overlap {
			c.Count("overlapping answers", 1)
		}
		if len(a.ids) > 0 && len(a.ids) < len(f) {
			c.Count("answers between none and all", 1)
			c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx, a.q, len(a.ids)))
		}
	}
	c.mustClose(s)
	if c.Idx < 2 {
		c.Sample(fmt.Sprintf("%v: %d objects by %d goroutines, %d answers to %d queries by %d", specs, nobj, writers, len(answers), nq, readers))
	}
}
