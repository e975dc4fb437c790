package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/store"
)

// sameWorld is a set of indexes, indexing calls and queries, all a function of
// its seed, so that another process can ask the same.
type sameWorld struct {
	specs []idxSpec
	ops   []*idxOp
	on    []int // index of each call
	qs    []*idxOp
	qon   []int
}

func newSameWorld(seed int64) *sameWorld {
	r := rand.New(rand.NewSource(seed))
	w := &sameWorld{}
	ps := genPrefixes(r, 1+r.Intn(3))
	if r.Intn(2) == 0 {
		// among the keys compaction looks at; no prefix of one another
		for i := range ps {
			ps[i] = append([]byte{'d', byte(i)}, ps[i]...)
		}
	}
	ow := newOpWorld(r, 2+r.Intn(12))
	for _, p := range ps {
		w.specs = append(w.specs, genSpec(r, p))
	}
	for i := 8 + r.Intn(40); i > 0; i-- {
		j := r.Intn(len(ps))
		w.ops, w.on = append(w.ops, ow.indexOp(w.specs[j])), append(w.on, j)
	}
	for i := 20 + r.Intn(20); i > 0; i-- {
		j := r.Intn(len(ps))
		w.qs, w.qon = append(w.qs, ow.queryOp(w.specs[j])), append(w.qon, j)
	}
	return w
}

// answer is what a query gives, apart from the order.
func (w *sameWorld) answer(i int, in *idxInst) (string, error) {
	ids, _, err := w.qs[i].run(in)
	if err != nil {
		return "", err
	}
	var res []string
	for _, id := range ids {
		res = append(res, strconv.Quote(string(id)))
	}
	sort.Strings(res)
	return strings.Join(res, " "), nil
}

func (w *sameWorld) over(s store.KVStore) (ins []*idxInst) {
	for _, sp := range w.specs {
		ins = append(ins, sp.over(s))
	}
	return ins
}

func init() {
	// ask runs the queries of a world on a store in a process of its own
	subcommands["ask"] = func(args []string) {
		seed, _ := strconv.ParseInt(args[2], 10, 64)
		s, err := openStore(args[0], args[1], nil, nil)
		if err != nil {
			die(err)
		}
		w := newSameWorld(seed)
		var res []string
		ins := w.over(s)
		for i := range w.qs {
			a, err := w.answer(i, ins[w.qon[i]])
			if err != nil {
				die(w.qs[i].desc, err)
			}
			res = append(res, a)
		}
		if err := s.Close(); err != nil {
			die(err)
		}
		b, _ := json.Marshal(res)
		os.Stdout.Write(b)
		os.Exit(0)
	}

	register(&Check{
		ID:     "C42",
		Rule:   "one case draws up to three indexes, indexing calls and queries. A reference store (GTreap) executes the calls once, in order, through one object per index. The store under test executes them in another order, in part repeated or from several goroutines, with queries, refused calls, compactions, unrelated writes, reopenings and new index objects in between. At several points the queries, in any order and repeated, must give the reference's answers for the calls made so far, through kept and new index objects, after compaction and reopening, and from another process; returned keys must be equal; queries must leave the store's content as it was. Three other stores with indexes of the same prefixes (empty; some of the objects; some under other ids) are queried in between. Non-trivial: an answer with ids, by world and query.",
		Need:   []string{"answers compared", "answers with ids", "answers midway", "answers after reopening", "answers after compaction", "answers in another process", "refused calls in between", "calls from several goroutines", "contents unchanged by queries", "queries of other stores in between"},
		Shards: func(th bool) []Shard { return shardsPerBackend(allBackends, 2, 160, th, 20) },
		Run:    runC42,
	})
}

func runC42(c *Case) {
	b := c.Shard.Backend
	disk := backendOf(b).disk
	seed := c.R.Int63()
	w := newSameWorld(seed)
	keys := make([]string, len(w.ops))
	c.Logf("world %d: %v", seed, w.specs)

	// reference gives the answers after some of the calls.
	reference := func(done []bool) []string {
		s := c.mustOpen("gtreap", "", nil, nil)
		defer s.Close()
		ins := w.over(s)
		for i, op := range w.ops {
			if done != nil && !done[i] {
				continue
			}
			_, k, err := op.run(ins[w.on[i]])
			if err != nil {
				c.Fail("index", "reference: %s: %v", op.desc, err)
			}
			keys[i] = string(k)
		}
		var res []string
		for i, qo := range w.qs {
			a, err := w.answer(i, ins[w.qon[i]])
			if err != nil {
				c.Fail("query", "reference: %s: %v", qo.desc, err)
			}
			res = append(res, a)
		}
		return res
	}
	all := reference(nil)
	for i, a := range all {
		if a != "" {
			c.Nontrivial(fmt.Sprint(seed, i))
		}
	}

	// other stores, with indexes of the same kinds and prefixes: one holds
	// nothing, one other objects around the same places, one half of the
	// calls, indexed with ids of its own
	var decoys [][]*idxInst
	w2 := newSameWorld(seed)
	for _, o := range w2.ops {
		o.id = fmt.Sprintf("other%d", c.R.Intn(5))
		o.idSlice = cpID(o.id)
	}
	for k := 0; k < 3; k++ {
		d := c.mustOpen("gtreap", "", nil, nil)
		defer d.Close()
		din := w.over(d)
		decoys = append(decoys, din)
		for i, op := range w.ops {
			if k == 0 || c.R.Intn(2) == 0 {
				continue
			}
			if k == 2 {
				op = w2.ops[i]
			}
			if _, _, err := op.run(din[w.on[i]]); err != nil {
				c.Fail("index", "another store: %s: %v", op.desc, err)
			}
		}
	}
	distract := func() {
		din := decoys[c.R.Intn(len(decoys))]
		for _, i := range c.R.Perm(len(w.qs)) {
			if _, err := w.answer(i, din[w.qon[i]]); err != nil {
				c.Fail("query", "another store: %s: %v", w.qs[i].desc, err)
			}
			c.Count("queries of other stores in between", 1)
		}
	}

	dir := ""
	if disk {
		dir = c.TempDir()
	}
	s := c.mustOpen(b, dir, nil, nil)
	ins := w.over(s)
	after := []string{}
	note := func(f string, a ...interface{}) {
		c.Logf(f, a...)
		after = append(after, fmt.Sprintf(f, a...))
		if len(after) > 3 {
			after = after[1:]
		}
	}
	compacted, reopened := false, false
	done := make([]bool, len(w.ops))
	ndone := 0
	ask := func(want []string) {
		before := c.content(s)
		order := c.R.Perm(len(w.qs))
		for n := c.R.Intn(10); n > 0; n-- {
			order = append(order, c.R.Intn(len(w.qs)))
		}
		fresh := w.over(s)
		if c.R.Intn(3) > 0 {
			distract()
		}
		for n, i := range order {
			if n > 0 && c.R.Intn(20) == 0 {
				distract()
			}
			in, how := ins[w.qon[i]], "a kept index object"
			switch c.R.Intn(3) {
			case 0:
				in, how = fresh[w.qon[i]], "a new index object"
			case 1:
				in, how = w.specs[w.qon[i]].over(s), "an index object made for the query"
			}
			got, err := w.answer(i, in)
			if err != nil {
				c.Fail("query", "%s: %s through %s: %v", w.specs[w.qon[i]], w.qs[i].desc, how, err)
			}
			if got != want[i] {
				c.Fail("differs", "%s after %d of %d indexing calls: %s through %s (lately: %v) answers [%s], a store that was given the same objects answers [%s]", w.specs[w.qon[i]], ndone, len(w.ops), w.qs[i].desc, how, after, trim(got, 600), trim(want[i], 600))
			}
			c.Eval(1)
			c.Count("answers compared", 1)
			if got != "" {
				c.Count("answers with ids", 1)
			}
			if ndone < len(w.ops) {
				c.Count("answers midway", 1)
			}
			if reopened {
				c.Count("answers after reopening", 1)
			}
			if compacted {
				c.Count("answers after compaction", 1)
			}
		}
		if d := diffModel(before, c.content(s)); d != "" {
			c.Fail("wrote", "queries changed the content of the store: %s", d)
		}
		c.Count("contents unchanged by queries", 1)
		c.Tick()
	}
	call := func(i int, in *idxInst) string {
		op := w.ops[i]
		_, k, err := op.run(in)
		if err != nil {
			return fmt.Sprintf("%s: %v", op.desc, err)
		}
		if string(k) != keys[i] {
			return fmt.Sprintf("%s returned the key %s, on a store with the same objects the key %s", op.desc, q(k), q([]byte(keys[i])))
		}
		return ""
	}
	order := c.R.Perm(len(w.ops))
	if c.R.Intn(4) == 0 {
		sort.Ints(order)
	}
	for len(order) > 0 {
		switch c.R.Intn(12) {
		case 0:
			n := 1 + c.R.Intn(len(order))
			note("%d calls from several goroutines", n)
			var wg sync.WaitGroup
			var mu sync.Mutex
			bad := ""
			for g := 0; g < 4; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					for k := g; k < n; k += 4 {
						if msg := call(order[k], ins[w.on[order[k]]]); msg != "" {
							mu.Lock()
							bad = msg
							mu.Unlock()
						}
					}
				}(g)
			}
			wg.Wait()
			if bad != "" {
				c.Fail("call", "%s", bad)
			}
			c.Count("calls from several goroutines", n)
			for _, i := range order[:n] {
				done[i] = true
			}
			ndone += n
			order = order[n:]
		case 1:
			if disk {
				note("closed and opened again")
				c.mustClose(s)
				s = c.mustOpen(b, dir, nil, nil)
				ins = w.over(s)
				reopened = true
			}
		case 2:
			c.exec(s, []kvop{{opSet, []byte("d\xff0"), []byte{0}}, {opSet, []byte("e\xff"), []byte{0}}})
			switch x := s.(type) {
			case interface{ Compact() error }:
				if err := x.Compact(); err != nil {
					c.Fail("compact", "%v", err)
				}
				note("compacted")
				compacted = true
			case interface{ CompactWithBatchSize(int) error }:
				if err := x.CompactWithBatchSize(1 + c.R.Intn(30)); err != nil {
					c.Fail("compact", "%v", err)
				}
				note("compacted")
				compacted = true
			}
			c.exec(s, []kvop{{opDel, []byte("d\xff0"), nil}, {opDel, []byte("e\xff"), nil}})
		case 3:
			// refused
			in := ins[c.R.Intn(len(ins))]
			var err error
			what := ""
			gd := pointGD(1, 2)
			switch in.kind {
			case "flat":
				what = "GeoIndex with an empty id"
				err = in.fi.GeoIndex(gd, nil)
			case "point":
				what = "GeoPointIndex with an empty id"
				_, err = in.pi.GeoPointIndex(gd, index.GeoID{})
			case "time":
				what = "GeoTimeIndex with an empty id"
				err = in.ti.GeoTimeIndex(gd, inZone(c.R, 5), nil)
			}
			if err == nil {
				c.Fail("accepted", "%s: %s was accepted", in.idxSpec, what)
			}
			note("refused: %s", what)
			c.Count("refused calls in between", 1)
		case 4:
			if ndone > 0 {
				// once more
				for n := 1 + c.R.Intn(4); n > 0; n-- {
					i := c.R.Intn(len(w.ops))
					if !done[i] {
						continue
					}
					note("again: %s", w.ops[i].desc)
					if msg := call(i, ins[w.on[i]]); msg != "" {
						c.Fail("call", "%s", msg)
					}
				}
			}
		case 5:
			i := c.R.Intn(len(w.qs))
			if _, err := w.answer(i, ins[w.qon[i]]); err != nil {
				c.Fail("query", "%s: %v", w.qs[i].desc, err)
			}
		case 6:
			if c.R.Intn(2) == 0 {
				ask(reference(done))
			}
		case 7:
			ins = w.over(s)
		default:
			i := order[0]
			c.Logf("%s: %s", w.specs[w.on[i]], w.ops[i].desc)
			if msg := call(i, ins[w.on[i]]); msg != "" {
				c.Fail("call", "%s", msg)
			}
			done[i] = true
			ndone++
			order = order[1:]
		}
	}
	ask(all)
	if disk {
		c.mustClose(s)
		if c.Idx%4 == 0 {
			cmd := exec.Command(os.Args[0], "ask", b, dir, fmt.Sprint(seed))
			out, err := cmd.Output()
			if err != nil {
				msg := ""
				if x, ok := err.(*exec.ExitError); ok {
					msg = string(x.Stderr)
				}
				c.Fail("process", "queries in a process of their own: %v %s", err, trim(msg, 1500))
			}
			var got []string
			if err := json.Unmarshal(out, &got); err != nil || len(got) != len(all) {
				c.Infra("another process answered %s: %v", trim(string(out), 200), err)
			}
			for i := range got {
				if got[i] != all[i] {
					c.Fail("process", "%s: %s answers [%s] in a process of its own, a store that was given the same objects answers [%s]", w.specs[w.qon[i]], w.qs[i].desc, trim(got[i], 600), trim(all[i], 600))
				}
				c.Count("answers in another process", 1)
			}
		}
		s = c.mustOpen(b, dir, nil, nil)
		ins = w.over(s)
		reopened = true
		note("closed and opened again")
		ask(all)
	}
	c.mustClose(s)
	if c.Idx < 2 {
		c.Sample(fmt.Sprintf("%v: %d indexing calls, %d queries", w.specs, len(w.ops), len(w.qs)))
	}
}
