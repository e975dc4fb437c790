package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/akhenakh/oureadb/store"
	"github.com/golang/geo/s2"
)

func copyIDs(ids []index.GeoID) []string {
	r := make([]string, len(ids))
	for i := range ids {
		r[i] = string(ids[i])
	}
	return r
}

func counts(ids []string) map[string]int {
	m := map[string]int{}
	for _, s := range ids {
		m[s]++
	}
	return m
}

func sameErr(a, b error) bool { return (a == nil) == (b == nil) }

func init() {
	// ------------------------------------------------------------ C24
	register(&Check{
		ID:     "C24",
		Rule:   "one case is two to five indexes of random kinds, levels and hostile prefixes (none a prefix of another; or one with the empty prefix alone) and unrelated keys in one store; the same random calls run on the shared store and on a twin store holding that index alone must give the same answers, and the change of the shared content caused by each indexing call must be exactly new keys with the index's prefix; unrelated keys are written and deleted in between and must stay intact; non-trivial: a query returned ids while other indexes held entries",
		Need:   []string{"queries with results", "key set changes compared", "empty prefix", "unrelated writes", "prefixes of one buffer"},
		Shards: func(th bool) []Shard { return shardsPerBackend(allBackends, 2, 120, th, 25) },
		Run: func(c *Case) {
			b := c.Shard.Backend
			dir := c.TempDir()
			s := c.mustOpen(b, dir, nil, nil)
			be := backendOf(b)
			var specs, twins []idxSpec
			empty := c.R.Intn(5) == 0
			if empty {
				sp := genSpec(c.R, nil)
				tw := sp
				tw.prefix = []byte("x")
				specs, twins = []idxSpec{sp}, []idxSpec{tw}
				c.Count("empty prefix", 1)
			} else {
				for _, p := range genPrefixes(c.R, 2+c.R.Intn(4)) {
					sp := genSpec(c.R, p)
					specs, twins = append(specs, sp), append(twins, sp)
				}
			}
			var ins, tins []*idxInst
			var tstores []store.KVStore
			var prefixes [][]byte
			for _, sp := range specs {
				prefixes = append(prefixes, sp.prefix)
			}
			if c.R.Intn(4) > 0 {
				// the caller cut the prefixes from one buffer
				prefixes = cutFrom(prefixes...)
				c.Count("prefixes of one buffer", len(prefixes))
			}
			for i, sp := range specs {
				t := c.mustOpen("gtreap", "", nil, nil)
				tstores = append(tstores, t)
				ins = append(ins, sp.overWith(s, prefixes[i]))
				tins = append(tins, twins[i].over(t))
			}
			w := newOpWorld(c.R, 2+c.R.Intn(8))
			kg := newKeyGen(c.R, 25, be.emptyKey)
			unrel := Model{}
			var ukeys [][]byte
			for _, k := range kg.pool {
				ok := !empty
				for _, sp := range specs {
					if hasPrefix(k, sp.prefix) {
						ok = false
					}
				}
				if ok {
					ukeys = append(ukeys, k)
				}
			}
			cur := Model{}
			hits := 0
			for step := 0; step < 60; step++ {
				if len(ukeys) > 0 && c.R.Intn(6) == 0 {
					k := ukeys[c.R.Intn(len(ukeys))]
					op := kvop{opSet, k, genValue(c.R)}
					if c.R.Intn(3) == 0 {
						op = kvop{opDel, k, nil}
					}
					c.Logf("unrelated %s", op)
					c.exec(s, []kvop{op})
					cur.apply([]kvop{op})
					unrel.apply([]kvop{op})
					c.Count("unrelated writes", 1)
				}
				j := c.R.Intn(len(specs))
				if step < 25 || c.R.Intn(4) == 0 {
					op := w.indexOp(specs[j])
					c.Logf("%s: %s", specs[j], op.desc)
					_, _, e1 := op.run(ins[j])
					_, _, e2 := op.run(tins[j])
					if e1 != nil || e2 != nil {
						c.Fail("index", "%s: %s: shared store: %v, alone: %v", specs[j], op.desc, e1, e2)
					}
					now := c.content(s)
					want := cur.clone()
					nk := 0
					for k := range now {
						if _, ok := cur[k]; !ok {
							if !hasPrefix([]byte(k), specs[j].prefix) {
								c.Fail("foreign key", "%s: %s wrote the key %s which lacks the prefix", specs[j], op.desc, q([]byte(k)))
							}
							nk++
							want[k] = now[k]
						}
					}
					// keys of this index may be rewritten, everything else stays
					for k := range cur {
						if hasPrefix([]byte(k), specs[j].prefix) && !empty {
							if _, ok := now[k]; ok {
								want[k] = now[k]
							}
						}
					}
					if d := diffModel(want, now); d != "" {
						c.Fail("damage", "%s: %s changed other content: %s", specs[j], op.desc, d)
					}
					cur = now
					c.Count("key set changes compared", 1)
					if nk > 0 {
						c.Count("new keys", nk)
					}
				} else {
					op := w.queryOp(specs[j])
					c.Logf("%s: %s", specs[j], op.desc)
					a, _, e1 := op.run(ins[j])
					t, _, e2 := op.run(tins[j])
					c.Eval(1)
					if e1 != nil || e2 != nil {
						c.Fail("query", "%s: %s: shared store: %v, alone: %v", specs[j], op.desc, e1, e2)
					}
					if d := diffIDs(a, idCounts(t)); d != "" {
						c.Fail("interference", "%s: %s in the shared store compared with the index alone: %s", specs[j], op.desc, d)
					}
					if len(a) > 0 {
						hits++
						c.Count("queries with results", 1)
					}
				}
				if b != "gtreap" && c.R.Intn(60) == 0 {
					c.mustClose(s)
					s = c.mustOpen(b, dir, nil, nil)
					for i, sp := range specs {
						ins[i] = sp.overWith(s, prefixes[i])
					}
				}
			}
			got := Model{}
			for k, v := range c.content(s) {
				if _, ok := unrel[k]; ok {
					got[k] = v
				}
			}
			if d := diffModel(unrel, got); d != "" {
				c.Fail("unrelated", "unrelated keys: %s", d)
			}
			if hits > 0 {
				c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx))
			}
			if c.Idx < 2 {
				c.Sample(fmt.Sprint(specs))
			}
			c.mustClose(s)
		},
	})

	// ------------------------------------------------------------ C25
	register(&Check{
		ID:     "C25",
		Rule:   "one case runs random indexing calls and queries of the three indexes in one store; every returned id and key is kept with a copy, some are overwritten up to their capacity and appended to, the caller's id slice is overwritten after each indexing call; after later queries, writes, compaction, reader and store closing, all kept bytes must equal their copies, other results must be untouched and repeated queries must answer as before; non-trivial: results were overwritten and others kept past the closing of the store",
		Need:   []string{"kept", "overwritten", "repeated queries", "keys kept", "kept past store close", "extended", "crowds", "large answers kept"},
		Shards: func(th bool) []Shard { return shardsPerBackend(allBackends, 2, 80, th, 25) },
		Run: func(c *Case) {
			b := c.Shard.Backend
			dir := c.TempDir()
			s := c.mustOpen(b, dir, nil, nil)
			if be := backendOf(b); be.disk && c.R.Intn(2) == 0 {
				c.prefill(be, s)
			}
			var specs []idxSpec
			var ins []*idxInst
			for i, k := range idxKinds {
				sp := idxSpec{k, []byte{byte('A' + i)}, c.R.Intn(31)}
				specs = append(specs, sp)
				ins = append(ins, sp.over(s))
			}
			w := newOpWorld(c.R, 3+c.R.Intn(10))
			type keptRes struct {
				ids  [][]byte
				want []string
				what string
				dead []bool // given up: overwritten by the caller
			}
			var keep []*keptRes
			verify := func(when string) {
				for _, k := range keep {
					for i, b := range k.ids {
						if !k.dead[i] && string(b) != k.want[i] {
							c.Fail("changed", "%s: bytes returned by %s changed from %s to %s", when, k.what, q([]byte(k.want[i])), q(b))
						}
					}
				}
			}
			type asked struct {
				op *idxOp
				in int
				n  map[string]int
			}
			var past []asked
			entries := map[int]int{}
			over := 0
			known := map[string]bool{}
			for _, id := range w.ids.pool {
				known[id] = true
			}
			if c.R.Intn(3) == 0 {
				// a crowd in one place: answers of many kilobytes
				at, long := w.at(12, 1), c.R.Intn(3)*c.R.Intn(120)
				lat, lng := at.deg()
				gd := pointGD(lat, lng)
				crowd := crowdIDs(c.R, 60+c.R.Intn(400))
				for i := range crowd {
					crowd[i] += strings.Repeat("+", long)
					known[crowd[i]] = true
				}
				for j, sp := range specs {
					if c.R.Intn(4) == 0 {
						continue
					}
					for _, id := range crowd {
						var err error
						switch sp.kind {
						case "flat":
							err = ins[j].fi.GeoIndex(gd, cpID(id))
						case "point":
							_, err = ins[j].pi.GeoPointIndex(gd, cpID(id))
						case "time":
							_, to := w.ig.window(c.R)
							err = ins[j].ti.GeoTimeIndex(gd, inZone(c.R, to), cpID(id))
						}
						if err != nil {
							c.Fail("index", "%s: %v", sp, err)
						}
						c.Tick()
					}
					for i := 0; i < 12; i++ {
						w.objs[sp.String()] = append(w.objs[sp.String()], &shape{kind: "point", gd: gd, verts: []vec{fromDeg(lat, lng)}})
					}
				}
				c.Logf("crowd of %d ids (%d bytes more each) at %.12f, %.12f", len(crowd), long, lat, lng)
				c.Count("crowds", 1)
			}
			for step := 0; step < 70; step++ {
				j := c.R.Intn(3)
				if step < 25 || c.R.Intn(5) == 0 {
					op := w.indexOp(specs[j])
					c.Logf("%s: %s", specs[j], op.desc)
					_, k, err := op.run(ins[j])
					if err != nil {
						c.Fail("index", "%s: %v", op.desc, err)
					}
					scribble(c.R, op.idSlice)
					entries[j]++
					past = nil
					if k != nil {
						keep = append(keep, &keptRes{[][]byte{k}, []string{string(k)}, op.desc, []bool{false}})
						c.Count("keys kept", 1)
						if specs[j].kind == "point" && len(keep) > 1 && c.R.Intn(2) == 0 {
							// the caller extends a key it got earlier, unchanged so far
							o := keep[c.R.Intn(len(keep)-1)]
							i := c.R.Intn(len(o.ids))
							o.dead[i] = true
							over++
							_ = append(o.ids[i], bytes.Repeat([]byte{0xa5}, 40)...)
							c.Count("extended", 1)
						}
						if c.R.Intn(3) == 0 {
							scribble(c.R, k)
							keep[len(keep)-1].dead[0] = true
							over++
						}
						verify("after the caller overwrote or extended other keys")
					}
				} else {
					var op *idxOp
					if len(past) > 0 && c.R.Intn(3) == 0 {
						a := past[c.R.Intn(len(past))]
						got, _, err := a.op.run(ins[a.in])
						if err != nil {
							c.Fail("query", "%s: %v", a.op.desc, err)
						}
						c.Eval(1)
						c.Count("repeated queries", 1)
						if d := diffIDs(got, a.n); d != "" {
							c.Fail("repeat", "%s: %s repeated after callers overwrote results: %s", specs[a.in], a.op.desc, d)
						}
						continue
					}
					op = w.queryOp(specs[j])
					c.Logf("%s: %s", specs[j], op.desc)
					got, _, err := op.run(ins[j])
					if err != nil {
						c.Fail("query", "%s: %v", op.desc, err)
					}
					if len(got) > 0 {
						past = append(past, asked{op, j, idCounts(got)})
						k := &keptRes{what: op.desc}
						for _, id := range got {
							k.ids = append(k.ids, id)
							k.want = append(k.want, string(id))
							k.dead = append(k.dead, false)
							// returned ids are among the ids given
							if !known[string(id)] {
								c.Fail("invented", "%s returned the id %s which was never indexed", op.desc, q(id))
							}
						}
						keep = append(keep, k)
						c.Count("kept", len(got))
						if len(got) > 100 {
							c.Count("large answers kept", 1)
						}
						for i := range k.ids {
							if c.R.Intn(3) == 0 {
								k.dead[i] = true
								over++
								c.Count("overwritten", 1)
								if c.R.Intn(2) == 0 {
									scribble(c.R, k.ids[i])
								} else {
									_ = append(k.ids[i], "overwrite the rest"...)
									_ = append(k.ids[i][:0], "zz"...)
								}
							}
						}
						verify("after the caller overwrote other results")
					}
				}
				if c.R.Intn(10) == 0 {
					verify("after later calls")
				}
				if c.R.Intn(25) == 0 {
					if cc, ok := s.(interface{ Compact() error }); ok {
						cc.Compact()
					}
					if cc, ok := s.(interface{ CompactWithBatchSize(int) error }); ok {
						cc.CompactWithBatchSize(3)
					}
					c.exec(s, []kvop{{opSet, []byte("zz"), make([]byte, 3000)}, {opDel, []byte("zzz"), nil}})
					verify("after compaction and writes")
				}
			}
			// the caller's id slices were overwritten: what is stored are the ids given
			c.mustClose(s)
			verify("after the store was closed")
			c.Count("kept past store close", 1)
			if b != "gtreap" {
				runtime.GC()
				s = c.mustOpen(b, dir, nil, nil)
				for i, sp := range specs {
					ins[i] = sp.over(s)
				}
				for _, a := range past {
					got, _, err := a.op.run(ins[a.in])
					if err != nil {
						c.Fail("query", "%s: %v", a.op.desc, err)
					}
					if d := diffIDs(got, a.n); d != "" {
						c.Fail("repeat", "%s: %s repeated after reopening: %s", specs[a.in], a.op.desc, d)
					}
				}
				c.mustClose(s)
				verify("after the store was reopened")
			}
			if over > 0 {
				c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx))
			}
			if c.Idx < 2 {
				c.Sample(fmt.Sprint(specs, " ", len(keep), " results kept"))
			}
		},
	})

	// ------------------------------------------------------------ C26
	register(&Check{
		ID:     "C26",
		Rule:   "one case wraps a real store so that every reader, iterator, batch and writer given out is accounted for, and runs random calls of the three indexes: valid ones, ones with unusable arguments, ones that meet corrupt keys and ones during which the n-th acquisition from the store fails; after each call everything must have been closed exactly once, iterators before their reader, nothing used after its closing; the real store must then still execute a batch, grow, and close; goroutines are counted; non-trivial: calls failed after having acquired something",
		Need:   []string{"successful queries", "successful indexing", "failed with resources", "corrupt key errors", "refused arguments", "stores closed"},
		Shards: func(th bool) []Shard { return shardsPerBackend(allBackends, 2, 120, th, 25) },
		Run: func(c *Case) {
			b := c.Shard.Backend
			dir := c.TempDir()
			s := c.mustOpen(b, dir, nil, nil)
			m := &monStore{inner: s}
			var specs []idxSpec
			var ins []*idxInst
			for i, k := range idxKinds {
				sp := idxSpec{k, []byte{byte('A' + i)}, c.R.Intn(31)}
				specs = append(specs, sp)
				ins = append(ins, sp.over(m))
			}
			w := newOpWorld(c.R, 6)
			judge := func(desc string) {
				c.Eval(1)
				c.Count("readers", m.readers)
				c.Count("iterators", m.iters)
				c.Count("writers", m.writers)
				c.Count("batches", m.batches)
				if len(m.problems) > 0 {
					c.Fail("misuse", "%s: %s", desc, strings.Join(m.problems, "; "))
				}
				if l := m.leaks(); l != "" {
					c.Fail("leak", "%s: %s", desc, l)
				}
			}
			g0 := runtime.NumGoroutine()
			failed := 0
			for step := 0; step < 60; step++ {
				j := c.R.Intn(3)
				m.reset()
				if c.R.Intn(12) == 0 {
					// a corrupt key in the way of a lookup
					sp := specs[j]
					level := sp.level
					cell := w.at(level, 0.3).cell(level)
					k := append(append([]byte(nil), sp.prefix...), be8(uint64(cell))...)
					in := ins[j]
					f := func() error { _, err := in.fi.GeoIdsAtCell(cell); return err }
					switch sp.kind {
					case "point":
						f = func() error { _, err := in.pi.GeoIdsAtCell(cell); return err }
						if c.R.Intn(2) == 0 {
							a := newCap(w.spot, 0.5)
							lat, lng := w.spot.deg()
							k = append(append([]byte(nil), sp.prefix...), be8(uint64(leafAt(lat, lng)))...)
							f = func() error { _, err := in.pi.GeoIdsRadiusQuery(a.lat, a.lng, a.radius); return err }
							if c.R.Intn(2) == 0 {
								f = func() error { _, err := in.pi.GeoIdsRectQuery(90, 180, -90, -180); return err }
							}
						}
					case "time":
						k = append(k, be8(5)...)
						f = func() error { _, err := in.ti.GeoTimeIdsAtCell(cell, index.MaxGeoTime, index.MinGeoTime); return err }
					}
					c.Logf("%s: corrupt key %x", sp, k)
					c.exec(s, []kvop{{opSet, k, nil}})
					err := f()
					if err != nil {
						c.Count("corrupt key errors", 1)
						failed++
					}
					judge(fmt.Sprintf("%s: a lookup meeting the corrupt key %x (error: %v)", sp, k, err))
					m.reset()
					c.exec(s, []kvop{{opDel, k, nil}})
					continue
				}
				if c.R.Intn(10) == 0 {
					// arguments that are refused
					bad := []*geodata.GeoData{nil, {}, polyGD(1, 2), lineGD(1, 2, 3), multiGD([]float64{1, 2})}[c.R.Intn(5)]
					var err error
					c.Logf("%s: unusable object %v", specs[j], bad)
					p, st := Guard(func() {
						switch specs[j].kind {
						case "flat":
							err = ins[j].fi.GeoIndex(bad, index.GeoID("x"))
						case "point":
							_, err = ins[j].pi.GeoPointIndex(bad, index.GeoID("x"))
						case "time":
							err = ins[j].ti.GeoTimeIndex(bad, time.Unix(0, 5), index.GeoID("x"))
						}
					})
					if p != nil {
						c.Fail("panic", "indexing %v: panic %v\n%s", bad, p, st)
					}
					if err != nil {
						c.Count("refused arguments", 1)
					}
					judge(fmt.Sprintf("%s: indexing %v (error: %v)", specs[j], bad, err))
					continue
				}
				var op *idxOp
				if step < 20 || c.R.Intn(3) == 0 {
					op = w.indexOp(specs[j])
				} else {
					op = w.queryOp(specs[j])
				}
				if c.R.Intn(3) == 0 {
					m.failAt = 1 + c.R.Intn(4)
				}
				c.Logf("%s: %s failing call %d", specs[j], op.desc, m.failAt)
				var err error
				p, st := Guard(func() { _, _, err = op.run(ins[j]) })
				if p != nil {
					c.Fail("panic", "%s: %s with the %s failing: panic %v\n%s", specs[j], op.desc, m.fired, p, st)
				}
				judge(fmt.Sprintf("%s: %s (failed: %q, error: %v)", specs[j], op.desc, m.fired, err))
				if err != nil && m.readers+m.writers > 0 {
					c.Count("failed with resources", 1)
					failed++
				} else if err == nil && op.query {
					c.Count("successful queries", 1)
				} else if err == nil {
					c.Count("successful indexing", 1)
				}
			}
			// the real thing: nothing keeps the store from growing or closing
			ri := specs[c.R.Intn(3)].over(s)
			for i := 0; i < 30; i++ {
				var err error
				if c.R.Intn(4) == 0 {
					_, _, err = w.indexOp(ri.idxSpec).run(ri)
				} else {
					_, _, err = w.queryOp(ri.idxSpec).run(ri)
				}
				if err != nil {
					c.Fail("real store", "%v", err)
				}
				c.Tick()
			}
			big := make([]byte, 40000)
			for i := 0; i < 4; i++ {
				c.exec(s, []kvop{{opSet, []byte(fmt.Sprint("z", i)), big}})
			}
			// background workers of the store come and go: only growth with the calls counts
			for i := 0; i < 40 && runtime.NumGoroutine() > g0+20; i++ {
				time.Sleep(50 * time.Millisecond)
			}
			if g := runtime.NumGoroutine(); g > g0+20 {
				c.Fail("goroutines", "%d goroutines before the calls, %d after", g0, g)
			}
			c.mustClose(s)
			c.Count("stores closed", 1)
			if failed > 0 {
				c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx))
			}
			if c.Idx < 2 {
				c.Sample(fmt.Sprint(specs))
			}
		},
	})

	// ------------------------------------------------------------ C27
	register(&Check{
		ID:     "C27",
		Rule:   "one case fills three indexes over a wrapped real store, then for random calls lets each acquisition from the store (reader, writer, batch execution) fail in turn: the call must return an error, or really have done all of its work (complete answer compared with the undisturbed one, all keys of the object stored); truncated keys placed in the way of lookups must give an error; real failures (closed and read-only stores) likewise; in one case in three several goroutines share the index objects on a slow store which fails at random, and each caller's result is judged; non-trivial: a failure in the middle of a multi-step call",
		Need:   []string{"injected failures", "failures in the middle", "corrupt keys met", "read-only refusals", "closed store refusals", "failures together", "successes together"},
		Shards: func(th bool) []Shard { return shardsPerBackend(allBackends, 2, 100, th, 25) },
		Run:    runC27,
	})

	// ------------------------------------------------------------ C28
	register(&Check{
		ID:     "C28",
		Rule:   "one case indexes objects with many cells in the three indexes while concurrent readers take snapshots in which each object must have none or all of its keys (the indexing calls are counted to execute exactly one batch each); batches that fail (injected, read-only or closed store, larger than Badger accepts) must leave no key; a process that is killed at a random moment while indexing must leave none or all keys of each object and all of the acknowledged ones; non-trivial: a snapshot taken during indexing, a failed call or a kill before the last call",
		Need:   []string{"snapshots", "single batches", "failed calls", "kills", "objects judged", "objects of over 1000 cells"},
		Shards: func(th bool) []Shard { return shardsPerBackend(allBackends, 2, 40, th, 20) },
		Run:    runC28,
	})

	// ------------------------------------------------------------ C29
	register(&Check{
		ID:     "C29",
		Rule:   "one case fills three indexes, then makes calls that have no correct answer: cells of other levels, invalid cells, empty and nil ids, objects without a usable covering (missing or truncated coordinates, collapsed rings, unknown types), non-points in the point index; each must return an error and no ids, the stored content must be byte for byte the same afterwards and random queries must answer as before; non-trivial: every kind of refusal happened",
		Need:   []string{"wrong level", "empty id", "unusable object", "not a point", "contents compared", "queries repeated"},
		Shards: func(th bool) []Shard { return shardsPerBackend(allBackends, 2, 100, th, 25) },
		Run:    runC29,
	})
}

// truncKey draws a key under the prefix which no index call writes, in the range of the cell.
func runC27(c *Case) {
	b := c.Shard.Backend
	dir := c.TempDir()
	s := c.mustOpen(b, dir, nil, nil)
	m := &monStore{inner: s}
	var specs []idxSpec
	var ins []*idxInst
	for i, k := range idxKinds {
		sp := idxSpec{k, []byte{byte('A' + i)}, c.R.Intn(31)}
		specs = append(specs, sp)
		ins = append(ins, sp.over(m))
	}
	w := newOpWorld(c.R, 6)
	for i := 0; i < 20; i++ {
		j := c.R.Intn(3)
		op := w.indexOp(specs[j])
		c.Logf("%s: %s", specs[j], op.desc)
		if _, _, err := op.run(ins[j]); err != nil {
			c.Fail("index", "%s: %v", op.desc, err)
		}
	}
	stored := func(sp idxSpec, op *idxOp) (n, total int) {
		got := c.content(s)
		keys := c.keysOf(sp, op)
		for k := range keys {
			if _, ok := got[k]; ok {
				n++
			}
		}
		return n, len(keys)
	}
	run := func(in *idxInst, op *idxOp, what string) (ids []index.GeoID, err error) {
		p, st := Guard(func() { ids, _, err = op.run(in) })
		if p != nil {
			c.Fail("panic", "%s: %s, %s: panic %v\n%s", in.idxSpec, op.desc, what, p, st)
		}
		c.Tick()
		return
	}
	mid := false
	for step := 0; step < 25; step++ {
		j := c.R.Intn(3)
		if c.R.Intn(3) == 0 {
			// indexing: every acquisition fails in turn
			for n := 1; n < 6; n++ {
				op := w.indexOp(specs[j])
				m.reset()
				m.failAt = n
				c.Logf("%s: %s, acquisition %d fails", specs[j], op.desc, n)
				_, err := run(ins[j], op, fmt.Sprintf("acquisition %d fails", n))
				c.Eval(1)
				if m.fired != "" {
					c.Count("injected failures", 1)
					if n > 1 {
						c.Count("failures in the middle", 1)
						mid = true
					}
				}
				if err == nil {
					if st, total := stored(specs[j], op); st < total {
						c.Fail("false success", "%s: %s reported success with the failing %s, but only %d of %d keys are stored", specs[j], op.desc, m.fired, st, total)
					}
				}
				if m.fired == "" {
					if err != nil {
						c.Fail("index", "%s: %v", op.desc, err)
					}
					break
				}
			}
			m.reset()
			continue
		}
		if c.R.Intn(4) == 0 {
			c.corruptC27(s, w, specs[j], ins[j])
			continue
		}
		op := w.queryOp(specs[j])
		m.reset()
		full, err := run(ins[j], op, "undisturbed")
		if err != nil {
			c.Fail("query", "%s: %v", op.desc, err)
		}
		total := m.calls
		ns := []int{1, 2, total, 1 + c.R.Intn(total+1)}
		for _, n := range ns {
			if n > total {
				continue
			}
			m.reset()
			m.failAt = n
			c.Logf("%s: %s, acquisition %d of %d fails", specs[j], op.desc, n, total)
			got, err := run(ins[j], op, fmt.Sprintf("acquisition %d fails", n))
			c.Eval(1)
			if m.fired != "" {
				c.Count("injected failures", 1)
				if n > 1 {
					c.Count("failures in the middle", 1)
					mid = true
				}
			}
			if err == nil {
				if d := diffIDs(got, idCounts(full)); d != "" {
					c.Fail("incomplete answer", "%s: %s reported success with the %d-th acquisition (%s) failing, compared with the undisturbed answer: %s", specs[j], op.desc, n, m.fired, d)
				}
			}
		}
		m.reset()
	}
	if c.Idx%3 == 0 {
		c.togetherC27(s)
	}
	c.mustClose(s)
	// closed
	for i := 0; i < 8; i++ {
		j := c.R.Intn(3)
		if b == "gtreap" {
			break
		}
		in := specs[j].over(s)
		op := w.indexOp(specs[j])
		if c.R.Intn(2) == 0 {
			op = w.queryOp(specs[j])
		}
		c.Logf("closed store: %s: %s", specs[j], op.desc)
		if got, err := run(in, op, "on a closed store"); err == nil && !(op.query && noCells(op, got)) {
			c.Fail("closed", "%s: %s on a closed store returned no error", specs[j], op.desc)
		}
		c.Count("closed store refusals", 1)
	}
	if b == "boltdb" || b == "goleveldb" {
		s := c.mustOpen(b, dir, nil, cfgT{"read_only": true})
		before := c.content(s)
		for i := 0; i < 8; i++ {
			j := c.R.Intn(3)
			op := w.indexOp(specs[j])
			c.Logf("read only store: %s: %s", specs[j], op.desc)
			if _, err := run(specs[j].over(s), op, "on a read only store"); err == nil {
				c.Fail("read only", "%s: %s on a read only store returned no error", specs[j], op.desc)
			}
			c.Count("read-only refusals", 1)
		}
		if d := diffModel(before, c.content(s)); d != "" {
			c.Fail("read only", "a read only store changed: %s", d)
		}
		c.mustClose(s)
	}
	if mid {
		c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx))
	}
	if c.Idx < 2 {
		c.Sample(fmt.Sprint(specs))
	}
}

// slowStore is a store whose acquisitions and executions take their time and
// fail at random.
type slowStore struct {
	store.KVStore
	mu    sync.Mutex
	r     *rand.Rand
	odds  int // one in odds fails
	fired int64
}

func (s *slowStore) toss() bool {
	s.mu.Lock()
	fail := s.r.Intn(s.odds) == 0
	d := time.Duration(s.r.Intn(1500)) * time.Microsecond
	s.mu.Unlock()
	time.Sleep(d)
	if fail {
		atomic.AddInt64(&s.fired, 1)
	}
	return fail
}

func (s *slowStore) Reader() (store.KVReader, error) {
	if s.toss() {
		return nil, errInjected
	}
	return s.KVStore.Reader()
}

func (s *slowStore) Writer() (store.KVWriter, error) {
	if s.toss() {
		return nil, errInjected
	}
	w, err := s.KVStore.Writer()
	if err != nil {
		return nil, err
	}
	return &slowWriter{w, s}, nil
}

type slowWriter struct {
	store.KVWriter
	s *slowStore
}

func (w *slowWriter) ExecuteBatch(b store.KVBatch) error {
	if w.s.toss() {
		return errInjected
	}
	return w.KVWriter.ExecuteBatch(b)
}

// togetherC27 makes calls from several goroutines through the same index
// objects while the store fails some of them.
func (c *Case) togetherC27(s store.KVStore) {
	ss := &slowStore{KVStore: s, r: rand.New(rand.NewSource(c.R.Int63())), odds: 3 + c.R.Intn(6)}
	w := newOpWorld(c.R, 40)
	n := 3 + c.R.Intn(6)
	type doing struct {
		sp  idxSpec
		in  *idxInst
		op  *idxOp
		ids []index.GeoID
		err error
	}
	var specs []idxSpec
	var ins []*idxInst
	for i, k := range idxKinds {
		sp := idxSpec{k, []byte{byte('a' + i)}, c.R.Intn(31)}
		specs = append(specs, sp)
		ins = append(ins, sp.over(ss))
	}
	all := make([][]*doing, n)
	for i := range all {
		for k := 0; k < 6; k++ {
			j := c.R.Intn(3)
			op := w.indexOp(specs[j])
			op.id = fmt.Sprintf("%s/%d/%d", op.id, i, k)
			op.idSlice = cpID(op.id)
			all[i] = append(all[i], &doing{sp: specs[j], in: ins[j], op: op})
		}
	}
	c.Logf("%d goroutines index through the same index objects, one acquisition in %d fails", n, ss.odds)
	call := func(i int, r *rand.Rand) {
		for _, d := range all[i] {
			d.ids, _, d.err = d.op.run(d.in)
			c.Tick()
		}
	}
	c.clients(n, call)
	got := c.content(s)
	for i := range all {
		for _, d := range all[i] {
			c.Eval(1)
			keys := c.keysOf(d.sp, d.op)
			there := 0
			for k := range keys {
				if _, ok := got[k]; ok {
					there++
				}
			}
			if d.err != nil {
				c.Count("failures together", 1)
				continue
			}
			if there < len(keys) {
				c.Fail("false success", "%s: %s reported success to one of %d goroutines calling while the store was failing, but only %d of %d keys are stored", d.sp, d.op.desc, n, there, len(keys))
			}
			c.Count("successes together", 1)
		}
	}
	// queries of what is stored now
	for i := range all {
		all[i] = nil
		for k := 0; k < 5; k++ {
			j := c.R.Intn(3)
			all[i] = append(all[i], &doing{sp: specs[j], in: ins[j], op: w.queryOp(specs[j])})
		}
	}
	// some ask the same
	for i := 1; i < n; i++ {
		for k := range all[i] {
			if c.R.Intn(2) == 0 {
				x := *all[0][k]
				all[i][k] = &x
			}
		}
	}
	c.Logf("%d goroutines query through the same index objects", n)
	c.clients(n, call)
	for i := range all {
		for _, d := range all[i] {
			c.Eval(1)
			full, _, err := d.op.run(d.sp.over(s))
			if err != nil {
				c.Fail("query", "%s: %s: %v", d.sp, d.op.desc, err)
			}
			if d.err != nil {
				c.Count("failures together", 1)
				continue
			}
			if df := diffIDs(d.ids, idCounts(full)); df != "" {
				c.Fail("incomplete answer", "%s: %s reported success to one of %d goroutines calling while the store was failing; compared with the undisturbed answer: %s", d.sp, d.op.desc, n, df)
			}
			c.Count("successes together", 1)
		}
	}
}

// noCells: a lookup over an empty list of cells needs nothing from the store.
func noCells(op *idxOp, got []index.GeoID) bool { return false }

// corruptC27 puts a truncated key in the way of lookups.
func (c *Case) corruptC27(s store.KVStore, w *opWorld, sp idxSpec, in *idxInst) {
	level := sp.level
	if sp.kind == "point" {
		level = c.R.Intn(31)
	}
	cell := w.at(level, 0.3).cell(level)
	var k []byte
	var fs []func() ([]index.GeoID, error)
	pre := append([]byte(nil), sp.prefix...)
	ll := cell.LatLng()
	lat, lng := ll.Lat.Degrees(), ll.Lng.Degrees()
	rad := math.Max(maxDiag(level)*3, 1e-8) * earthR
	switch sp.kind {
	case "flat":
		k = append(pre, be8(uint64(cell))...)
		fs = []func() ([]index.GeoID, error){
			func() ([]index.GeoID, error) { return in.fi.GeoIdsAtCell(cell) },
			func() ([]index.GeoID, error) {
				return in.fi.GeoIdsAtCells([]s2.CellID{cell.NextWrap(), cell, cell.PrevWrap()})
			},
			func() ([]index.GeoID, error) { return in.fi.GeoIdsRadiusQuery(lat, lng, rad) },
		}
	case "point":
		leaf := leafAt(lat, lng)
		if c.R.Intn(3) == 0 {
			leaf = cell.RangeMax()
		}
		full := be8(uint64(leaf))
		k = append(pre, full...)
		if c.R.Intn(3) == 0 {
			// shorter than a cell, and within the range of the cell
			for n := 1; n < 8; n++ {
				if string(full[:n]) >= string(be8(uint64(cell.RangeMin()))) && string(full[:n]) < string(be8(uint64(cell.RangeMax()+1))) {
					k = append(append([]byte(nil), sp.prefix...), full[:n]...)
					leaf = 0
					break
				}
			}
		}
		fs = []func() ([]index.GeoID, error){
			func() ([]index.GeoID, error) { return in.pi.GeoIdsAtCell(cell) },
			func() ([]index.GeoID, error) {
				return in.pi.GeoIdsAtCells([]s2.CellID{cell.NextWrap(), cell, cell.PrevWrap()})
			},
			func() ([]index.GeoID, error) { return in.pi.GeoIdsRectQuery(90, 180, -90, -180) },
		}
		if leaf != 0 {
			p := leaf.LatLng()
			fs = append(fs, func() ([]index.GeoID, error) {
				return in.pi.GeoIdsRadiusQuery(p.Lat.Degrees(), p.Lng.Degrees(), 100)
			})
		}
	case "time":
		k = append(pre, be8(uint64(cell))...)
		k = append(k, be8(uint64(math.MaxInt64-w.ig.pick(c.R)))...)
		if n := c.R.Intn(5); n > 0 {
			k = k[:len(k)-n]
		}
		f, t := time.Unix(0, math.MaxInt64), time.Unix(0, math.MinInt64)
		top := append(append(append([]byte(nil), sp.prefix...), be8(uint64(cell))...), be8(0)...)
		bot := append(append(append([]byte(nil), sp.prefix...), be8(uint64(cell))...), be8(math.MaxUint64)...)
		if string(k) < string(top) || string(k) >= string(bot) {
			return
		}
		fs = []func() ([]index.GeoID, error){
			func() ([]index.GeoID, error) { return in.ti.GeoTimeIdsAtCell(cell, f, t) },
			func() ([]index.GeoID, error) {
				return in.ti.GeoTimeIdsAtCells([]s2.CellID{cell.NextWrap(), cell, cell.PrevWrap()}, f, t)
			},
			func() ([]index.GeoID, error) { return in.ti.GeoTimeIdsRadiusQuery(f, t, lat, lng, rad) },
		}
	}
	c.Logf("%s: corrupt key %x", sp, k)
	c.exec(s, []kvop{{opSet, k, nil}})
	for i, f := range fs {
		var ids []index.GeoID
		var err error
		p, st := Guard(func() { ids, err = f() })
		if p != nil {
			c.Fail("panic", "%s: lookup %d over the corrupt key %x: panic %v\n%s", sp, i, k, p, st)
		}
		c.Eval(1)
		if err == nil {
			c.Fail("corrupt", "%s: lookup %d over the corrupt key %x returned %d ids and no error", sp, i, k, len(ids))
		}
		if len(ids) > 0 {
			c.Fail("corrupt", "%s: lookup %d over the corrupt key %x returned ids with its error %v", sp, i, k, err)
		}
		c.Count("corrupt keys met", 1)
	}
	c.exec(s, []kvop{{opDel, k, nil}})
}

// ---------------------------------------------------------------- C28

// victimObj is object k of a history of indexing calls.
type indexVictim struct {
	Backend string
	Dir     string
	Seed    int64
	N       int
	Level   int
}

func (sp indexVictim) spec(k int) idxSpec {
	return idxSpec{idxKinds[k%3], []byte{byte('A' + k%3)}, sp.Level}
}

func (sp indexVictim) op(k int) *idxOp {
	r := rand.New(rand.NewSource(sp.Seed*7919 + int64(k)))
	sizes := []float64{0.3, 3, 8}
	ctr := hotSpot(r)
	id := fmt.Sprintf("obj%d", k)
	o := &idxOp{id: id, idSlice: cpID(id), ts: int64(k) * 1e9}
	s := sp.spec(k)
	size := cellSize(s.level) * sizes[r.Intn(3)]
	if r.Intn(12) == 0 { // thousands of cells
		size = cellSize(s.level) * (30 + 30*r.Float64())
	}
	o.sh = genShape(r, ctr, math.Min(1, size))
	t := time.Unix(0, o.ts)
	switch s.kind {
	case "flat":
		o.key = func(in *idxInst) ([]index.GeoID, []byte, error) { return nil, nil, in.fi.GeoIndex(o.sh.gd, o.idSlice) }
	case "point":
		lat, lng := ctr.deg()
		o.sh = &shape{kind: "point", gd: pointGD(lat, lng), verts: []vec{fromDeg(lat, lng)}}
		o.key = func(in *idxInst) ([]index.GeoID, []byte, error) {
			k, err := in.pi.GeoPointIndex(o.sh.gd, o.idSlice)
			return nil, k, err
		}
	case "time":
		o.key = func(in *idxInst) ([]index.GeoID, []byte, error) {
			return nil, nil, in.ti.GeoTimeIndex(o.sh.gd, t, o.idSlice)
		}
	}
	o.desc = fmt.Sprintf("%s: %s as %s", s, o.sh, id)
	return o
}

func init() {
	subcommands["ivictim"] = func(args []string) {
		var sp indexVictim
		if err := json.Unmarshal([]byte(args[0]), &sp); err != nil {
			die(err)
		}
		say := func(f string, a ...interface{}) { syscall.Write(1, []byte(fmt.Sprintf(f, a...))) }
		s, err := openStore(sp.Backend, sp.Dir, nil, nil)
		if err != nil {
			say("E open: %v\n", err)
			os.Exit(0)
		}
		for k := 0; k < sp.N; k++ {
			o := sp.op(k)
			say("B %d\n", k)
			if _, _, err := o.run(sp.spec(k).over(s)); err != nil {
				say("E %d %v\n", k, err)
				os.Exit(0)
			}
			say("A %d\n", k)
		}
		say("D\n")
		os.Exit(0)
	}
}

// judgeObjects: each object has none or all of its keys; returns the numbers.
func (c *Case) judgeObjects(got Model, objs map[string]map[string]bool, when string) (none, all int) {
	count := map[string]int{}
	owner := map[string]string{}
	for id, keys := range objs {
		for k := range keys {
			owner[k] = id
		}
	}
	for k := range got {
		if id, ok := owner[k]; ok {
			count[id]++
		}
	}
	for id, keys := range objs {
		c.Count("objects judged", 1)
		switch count[id] {
		case 0:
			none++
		case len(keys):
			all++
		default:
			c.Fail("partial", "%s: %d of the %d keys of the object %s are visible", when, count[id], len(keys), id)
		}
	}
	return
}

func runC28(c *Case) {
	b := c.Shard.Backend
	dir := c.TempDir()
	switch x := c.R.Intn(4); {
	case x == 3 && b != "gtreap":
		c.killC28(dir)
		return
	case x == 2:
		c.failC28(dir)
		return
	}
	// snapshots while indexing
	sp := indexVictim{Backend: b, Seed: c.R.Int63n(1 << 30), N: 30, Level: 3 + c.R.Intn(28)}
	s := c.mustOpen(b, dir, nil, nil)
	if backendOf(b).disk {
		c.prefill(backendOf(b), s)
	}
	objs := map[string]map[string]bool{}
	ops := make([]*idxOp, sp.N)
	for k := range ops {
		ops[k] = sp.op(k)
		keys := c.keysOf(sp.spec(k), ops[k])
		objs[ops[k].id] = keys
	}
	var wg sync.WaitGroup
	var done, during int32
	fail := make(chan string, 10)
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				last := atomic.LoadInt32(&done) != 0
				r, err := s.Reader()
				if err != nil {
					fail <- fmt.Sprintf("reader: %v", err)
					return
				}
				got := Model{}
				it := r.RangeIterator(nil, nil)
				for {
					k, v, ok := it.Current()
					if !ok {
						break
					}
					got[string(k)] = string(v)
					it.Next()
				}
				it.Close()
				r.Close()
				c.Tick()
				count := map[string]int{}
				for id, keys := range objs {
					for k := range keys {
						if _, ok := got[k]; ok {
							count[id]++
						}
					}
				}
				n := 0
				for id, keys := range objs {
					if count[id] != 0 && count[id] != len(keys) {
						fail <- fmt.Sprintf("a snapshot taken while indexing has %d of the %d keys of %s", count[id], len(keys), id)
						return
					}
					if count[id] > 0 {
						n++
					}
				}
				if n > 0 && n < sp.N {
					atomic.AddInt32(&during, 1)
				}
				c.Count("snapshots", 1)
				if last {
					return
				}
			}
		}()
	}
	// two clients index, through monitors of their own
	var wgi sync.WaitGroup
	for h := 0; h < 2; h++ {
		h := h
		wgi.Add(1)
		go func() {
			defer wgi.Done()
			m := &monStore{inner: s}
			m.hook = func(after bool) { runtime.Gosched() }
			for k := h; k < sp.N; k += 2 {
				m.executed = 0
				_, _, err := ops[k].run(sp.spec(k).over(m))
				if err != nil {
					fail <- fmt.Sprintf("%s: %v", ops[k].desc, err)
					return
				}
				if m.executed != 1 {
					fail <- fmt.Sprintf("%s executed %d batches", ops[k].desc, m.executed)
					return
				}
				c.Count("single batches", 1)
				if k%5 == 0 {
					time.Sleep(time.Duration(k%7) * 50 * time.Microsecond)
				}
			}
		}()
	}
	wgi.Wait()
	atomic.StoreInt32(&done, 1)
	wg.Wait()
	select {
	case m := <-fail:
		c.Fail("partial", "%s", m)
	default:
	}
	if none, _ := c.judgeObjects(c.content(s), objs, "after indexing"); none > 0 {
		c.Fail("lost", "%d objects indexed without error have no keys", none)
	}
	c.Count("snapshots with some objects", int(during))
	if during > 0 {
		c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx))
	}
	if c.Idx < 2 {
		c.Sample(fmt.Sprintf("%s level %d, %s", b, sp.Level, ops[0].desc))
	}
	c.mustClose(s)
}

// failC28: failing calls leave nothing.
func (c *Case) failC28(dir string) {
	b := c.Shard.Backend
	sp := indexVictim{Backend: b, Seed: c.R.Int63n(1 << 30), N: 30, Level: 3 + c.R.Intn(28)}
	s := c.mustOpen(b, dir, nil, nil)
	m := &monStore{inner: s}
	run := func(st store.KVStore, k int, what string) {
		o := sp.op(k)
		c.Logf("%s: %s", what, o.desc)
		_, _, err := o.run(sp.spec(k).over(st))
		if err == nil {
			c.Fail("accepted", "%s: %s returned no error", what, o.desc)
		}
		c.Count("failed calls", 1)
		c.Eval(1)
	}
	for k := 0; k < 12; k++ {
		m.failAt, m.calls = 1+k%2, 0
		run(m, k, "injected failure")
	}
	if d := diffModel(Model{}, c.content(s)); d != "" {
		c.Fail("trace", "failed indexing calls left: %s", d)
	}
	// the third and later calls to the store fail: if a call makes so many,
	// nothing of the earlier ones may stay
	objs := map[string]map[string]bool{}
	for k := 0; k < 12; k++ {
		o := sp.op(k)
		m.failAt, m.calls, m.fired = 3+k%4, 0, ""
		_, _, err := o.run(sp.spec(k).over(m))
		keys := c.keysOf(sp.spec(k), o)
		objs[o.id] = keys
		if err == nil && m.fired == "" {
			c.Count("calls with all keys", 1)
			if len(keys) > 1000 {
				c.Count("objects of over 1000 cells", 1)
			}
		}
		none, _ := c.judgeObjects(c.content(s), map[string]map[string]bool{o.id: keys}, "after a late failure")
		if (none == 1) != (err != nil) {
			c.Fail("trace", "%s: error %v but %d of its keys", o.desc, err, len(keys)*(1-none))
		}
	}
	del := []kvop{}
	for k := range c.content(s) {
		del = append(del, kvop{opDel, []byte(k), nil})
		if len(del) == 50000 {
			c.exec(s, del)
			del = nil
		}
	}
	c.exec(s, del)
	if b == "badger" && c.R.Intn(2) == 0 {
		// more keys than a Badger transaction takes
		level := 10
		n := math.Sqrt(160000.0) * cellSize(level)
		f := newFrame(hotSpot(c.R))
		var co []float64
		for _, p := range [][2]float64{{-0.5, -0.5}, {0.5, -0.5}, {0.5, 0.5}, {-0.5, 0.5}} {
			lat, lng := f.at(p[0]*n, p[1]*n).deg()
			co = append(co, lng, lat)
		}
		idx := index.NewS2FlatIdx(s, roomy([]byte("F")), level)
		c.Logf("flat index of a huge polygon")
		err := idx.GeoIndex(polyGD(co...), index.GeoID("huge"))
		got := c.content(s)
		if err != nil && len(got) > 0 {
			c.Fail("trace", "a polygon too large for Badger was refused (%v) but left %d keys", err, len(got))
		}
		if err != nil {
			c.Count("too large", 1)
		}
		c.Count("huge objects", 1)
	}
	c.mustClose(s)
	if b == "gtreap" {
		c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx))
		return
	}
	for k := 12; k < 15; k++ {
		run(s, k, "closed store")
	}
	if b != "badger" {
		s = c.mustOpen(b, dir, nil, cfgT{"read_only": true})
		for k := 15; k < 20; k++ {
			run(s, k, "read only store")
		}
		c.mustClose(s)
		s = c.mustOpen(b, dir, nil, nil)
		if d := diffModel(Model{}, c.content(s)); d != "" {
			c.Fail("trace", "failed indexing calls left: %s", d)
		}
		c.mustClose(s)
	}
	c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx))
}

// killC28 kills a process while it indexes.
func (c *Case) killC28(dir string) {
	b := c.Shard.Backend
	sp := indexVictim{Backend: b, Dir: dir, Seed: c.R.Int63n(1 << 30), N: 200, Level: 3 + c.R.Intn(28)}
	// the first opening is complete before anything is killed
	s := c.mustOpen(b, dir, nil, nil)
	c.mustClose(s)
	arg, _ := json.Marshal(sp)
	cmd := exec.Command(os.Args[0], "ivictim", string(arg))
	out, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		c.Infra("start: %v", err)
	}
	atomic.AddInt32(&childWait, 1)
	defer atomic.AddInt32(&childWait, -1)
	killAfter := c.R.Intn(40)
	delay := time.Duration(c.R.Intn(4000)) * time.Microsecond
	var buf []byte
	tmp := make([]byte, 4096)
	killed := false
	for {
		n, err := out.Read(tmp)
		buf = append(buf, tmp[:n]...)
		c.Tick()
		if !killed && strings.Contains(string(buf), fmt.Sprintf("B %d\n", killAfter)) {
			time.Sleep(delay)
			cmd.Process.Kill()
			killed = true
		}
		if err != nil {
			break
		}
	}
	cmd.Wait()
	acked, issued := -1, -1
	for _, l := range strings.Split(string(buf), "\n") {
		if strings.HasPrefix(l, "A ") {
			acked, _ = strconv.Atoi(l[2:])
		}
		if strings.HasPrefix(l, "B ") {
			issued, _ = strconv.Atoi(l[2:])
		}
		if strings.HasPrefix(l, "E ") {
			c.Fail("victim", "indexing in a new process failed: %s", l)
		}
	}
	c.Logf("killed after: acknowledged %d, begun %d", acked, issued)
	s = c.mustOpen(b, dir, nil, nil)
	objs := map[string]map[string]bool{}
	ackedObjs := map[string]map[string]bool{}
	for k := 0; k <= issued; k++ {
		o := sp.op(k)
		objs[o.id] = c.keysOf(sp.spec(k), o)
		if k <= acked {
			ackedObjs[o.id] = objs[o.id]
		}
	}
	got := c.content(s)
	c.judgeObjects(got, objs, "after a kill")
	if none, _ := c.judgeObjects(got, ackedObjs, "after a kill"); none > 0 {
		c.Fail("lost", "after a kill %d acknowledged objects have no keys", none)
	}
	n := 0
	for _, keys := range objs {
		n += len(keys)
	}
	if len(got) > n {
		c.Fail("invented", "after a kill the store has %d keys, the objects only %d", len(got), n)
	}
	c.Eval(1)
	c.Count("kills", 1)
	c.mustClose(s)
	if killed && issued < sp.N-1 {
		c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx))
	}
}

// ---------------------------------------------------------------- C29

func runC29(c *Case) {
	b := c.Shard.Backend
	s := c.mustOpen(b, c.TempDir(), nil, nil)
	var specs []idxSpec
	var ins []*idxInst
	for i, k := range idxKinds {
		sp := idxSpec{k, []byte{byte('A' + i)}, c.R.Intn(31)}
		specs = append(specs, sp)
		ins = append(ins, sp.over(s))
	}
	w := newOpWorld(c.R, 6)
	for i := 0; i < 15; i++ {
		j := c.R.Intn(3)
		op := w.indexOp(specs[j])
		c.Logf("%s: %s", specs[j], op.desc)
		if _, _, err := op.run(ins[j]); err != nil {
			c.Fail("index", "%s: %v", op.desc, err)
		}
	}
	type asked struct {
		op *idxOp
		in int
		n  map[string]int
	}
	var past []asked
	for i := 0; i < 10; i++ {
		j := c.R.Intn(3)
		op := w.queryOp(specs[j])
		got, _, err := op.run(ins[j])
		if err != nil {
			c.Fail("query", "%s: %v", op.desc, err)
		}
		past = append(past, asked{op, j, idCounts(got)})
	}
	before := c.content(s)
	refused := func(counter, what string, f func() ([]index.GeoID, error)) {
		var ids []index.GeoID
		var err error
		c.Logf("%s", what)
		p, st := Guard(func() { ids, err = f() })
		if p != nil {
			c.Fail("panic", "%s: panic %v\n%s", what, p, st)
		}
		c.Eval(1)
		c.Count(counter, 1)
		if err == nil {
			c.Fail("accepted "+counter, "%s returned no error (%d ids)", what, len(ids))
		}
		if len(ids) > 0 {
			c.Fail("ids "+counter, "%s returned %d ids with its error %v", what, len(ids), err)
		}
		if c.R.Intn(4) == 0 {
			if d := diffModel(before, c.content(s)); d != "" {
				c.Fail("side effect", "%s changed the store: %s", what, d)
			}
			c.Count("contents compared", 1)
		}
	}
	fi, pi, ti := ins[0].fi, ins[1].pi, ins[2].ti
	otherLevel := func(l int) s2.CellID {
		for {
			x := c.R.Intn(31)
			if c.R.Intn(2) == 0 {
				x = l + 1 - 2*c.R.Intn(2)
			}
			if x != l && x >= 0 && x <= 30 {
				return w.at(l, 0.5).cell(x)
			}
		}
	}
	f, t := time.Unix(0, math.MaxInt64), time.Unix(0, math.MinInt64)
	for i := 0; i < 25; i++ {
		switch c.R.Intn(4) {
		case 0:
			x := otherLevel(specs[0].level)
			if c.R.Intn(2) == 0 {
				refused("wrong level", fmt.Sprintf("flat index level %d: GeoIdsAtCell(%s level %d)", specs[0].level, x.ToToken(), x.Level()), func() ([]index.GeoID, error) { return fi.GeoIdsAtCell(x) })
			} else {
				good := w.spot.cell(specs[0].level)
				cs := []s2.CellID{good, good.NextWrap(), x}
				k := c.R.Intn(3)
				cs[2], cs[k] = cs[k], cs[2]
				refused("wrong level", fmt.Sprintf("flat index level %d: GeoIdsAtCells(%v)", specs[0].level, cs), func() ([]index.GeoID, error) { return fi.GeoIdsAtCells(cs) })
			}
			y := otherLevel(specs[2].level)
			if c.R.Intn(2) == 0 {
				refused("wrong level", fmt.Sprintf("time index level %d: GeoTimeIdsAtCell(%s level %d)", specs[2].level, y.ToToken(), y.Level()), func() ([]index.GeoID, error) { return ti.GeoTimeIdsAtCell(y, f, t) })
			} else {
				good := w.spot.cell(specs[2].level)
				cs := []s2.CellID{good, y, good.NextWrap()}
				refused("wrong level", fmt.Sprintf("time index level %d: GeoTimeIdsAtCells(%v)", specs[2].level, cs), func() ([]index.GeoID, error) { return ti.GeoTimeIdsAtCells(cs, f, t) })
			}
		case 1:
			id := []index.GeoID{nil, {}, make(index.GeoID, 0, 10)}[c.R.Intn(3)]
			o := genShape(c.R, w.spot, math.Min(1, 2*cellSize(specs[0].level)))
			lat, lng := w.spot.deg()
			refused("empty id", "flat index: empty id", func() ([]index.GeoID, error) { return nil, fi.GeoIndex(o.gd, id) })
			o2 := genShape(c.R, w.spot, math.Min(1, 2*cellSize(specs[2].level)))
			refused("empty id", "time index: empty id", func() ([]index.GeoID, error) { return nil, ti.GeoTimeIndex(o2.gd, time.Unix(0, w.ig.pick(c.R)), id) })
			refused("empty id", "point index: empty id", func() ([]index.GeoID, error) { _, err := pi.PointIndex(lat, lng, id); return nil, err })
			refused("empty id", "point index: empty id", func() ([]index.GeoID, error) { _, err := pi.GeoPointIndex(pointGD(lat, lng), id); return nil, err })
		case 2:
			gd, what := unusable(c.R.Intn(unusableKinds), math.Min(1, cellSize(maxInt(specs[0].level, specs[2].level))*100), c)
			id := w.ids.pick(c.R)
			refused("unusable object", "flat index: "+what, func() ([]index.GeoID, error) { return nil, fi.GeoIndex(gd, id) })
			refused("unusable object", "time index: "+what, func() ([]index.GeoID, error) { return nil, ti.GeoTimeIndex(gd, time.Unix(0, w.ig.pick(c.R)), id) })
		case 3:
			o := genShape(c.R, w.spot, 0.1*c.R.Float64())
			if o.kind != "point" && c.R.Intn(2) == 0 {
				// little enough to be taken for a point
				g := o.gd.Geometry
				if n := 1 + c.R.Intn(3); len(g.Coordinates) > n {
					g.Coordinates = g.Coordinates[:n]
				} else if len(g.Coordinates) == 0 {
					g.Coordinates = pointGD(w.spot.deg()).Geometry.Coordinates
				}
			}
			if o.kind == "point" {
				o.gd.Geometry.Coordinates = o.gd.Geometry.Coordinates[:c.R.Intn(2)]
				if c.R.Intn(3) == 0 {
					o.gd.Geometry = nil
				} else if c.R.Intn(3) == 0 {
					o.gd = nil
				}
			}
			refused("not a point", fmt.Sprintf("point index: %v", o), func() ([]index.GeoID, error) { _, err := pi.GeoPointIndex(o.gd, w.ids.pick(c.R)); return nil, err })
			refused("not a point", fmt.Sprintf("point key: %v", o), func() ([]index.GeoID, error) { _, err := pi.GeoPointKey(o.gd, w.ids.pick(c.R)); return nil, err })
		}
	}
	if d := diffModel(before, c.content(s)); d != "" {
		c.Fail("side effect", "refused calls changed the store: %s", d)
	}
	c.Count("contents compared", 1)
	for _, a := range past {
		got, _, err := a.op.run(ins[a.in])
		if err != nil {
			c.Fail("disturbed", "after refused calls %s: %v", a.op.desc, err)
		}
		if d := diffIDs(got, a.n); d != "" {
			c.Fail("disturbed", "after refused calls %s: %s", a.op.desc, d)
		}
		c.Count("queries repeated", 1)
	}
	c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx))
	if c.Idx < 2 {
		c.Sample(fmt.Sprint(specs))
	}
	c.mustClose(s)
}

const unusableKinds = 14

// unusable are objects without a covering.
func unusable(k int, d float64, c *Case) (*geodata.GeoData, string) {
	var gd *geodata.GeoData
	x, y := c.R.Float64()*100-50, c.R.Float64()*100-50
	switch k {
	case 0:
	case 1:
		gd = &geodata.GeoData{}
	case 2:
		gd = &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT}}
	case 3:
		gd = &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{x}}}
	case 4:
		gd = polyGD()
	case 5:
		gd = polyGD(x, y, x+d, y)
	case 6:
		gd = polyGD(x, y, x+d, y, x)
	case 7:
		gd = polyGD(x, y, x+d, y, x, y) // back to the start: one edge
	case 8:
		gd = polyGD(x, y, x, y, x, y, x, y)
	case 9:
		gd = lineGD()
	case 10:
		gd = lineGD(x, y, x+d)
	case 11:
		gd = &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_Type(7 + c.R.Intn(100)), Coordinates: []float64{x, y}}}
	case 12:
		gd = multiGD()
		if c.R.Intn(2) == 0 {
			gd = multiGD([]float64{x, y, x + d, y, x + d, y + d}, []float64{x, y})
		}
	case 13:
		gd = multiGD([]float64{x, y, x + d, y, x + d, y + d})
		gd.Geometry.Geometries = append(gd.Geometry.Geometries, nil)
	}
	if gd == nil {
		return nil, "a nil object"
	}
	return gd, shortGD(gd) + fmt.Sprintf(" (kind %d)", k)
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}
