package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/akhenakh/oureadb/store"
)

// ---------------------------------------------------------------- C46

// waitStore is a store in which batches wait for readers, and readers for
// batches which wait, as in Bolt when its map has to grow.
type waitStore struct {
	store.KVStore
	mu sync.RWMutex
	// the operation under test holds so many readers
	held, most int32
	acquired   int32
	// called when the operation under test has got its n-th reader
	hook func(n int32)
}

type waitReader struct {
	store.KVReader
	s    *waitStore
	once sync.Once
}

type waitWriter struct {
	store.KVWriter
	s *waitStore
}

func (s *waitStore) Reader() (store.KVReader, error) {
	s.mu.RLock()
	r, err := s.KVStore.Reader()
	if err != nil {
		s.mu.RUnlock()
		return nil, err
	}
	if h := atomic.AddInt32(&s.held, 1); h > atomic.LoadInt32(&s.most) {
		atomic.StoreInt32(&s.most, h)
	}
	n := atomic.AddInt32(&s.acquired, 1)
	if s.hook != nil {
		s.hook(n)
	}
	return &waitReader{KVReader: r, s: s}, nil
}

func (r *waitReader) Close() error {
	err := r.KVReader.Close()
	r.once.Do(func() {
		atomic.AddInt32(&r.s.held, -1)
		r.s.mu.RUnlock()
	})
	return err
}

func (s *waitStore) Writer() (store.KVWriter, error) {
	w, err := s.KVStore.Writer()
	if err != nil {
		return nil, err
	}
	return &waitWriter{w, s}, nil
}

func (w *waitWriter) ExecuteBatch(b store.KVBatch) error {
	w.s.mu.Lock()
	defer w.s.mu.Unlock()
	return w.KVWriter.ExecuteBatch(b)
}

func init() {
	register(&Check{
		ID:     "C46",
		Rule:   "one case wraps a store so that batches wait for open readers and new readers for waiting batches (as Bolt does when it has to grow its map), and makes random index calls one after the other; when a call gets its n-th reader, another goroutine starts to execute a batch, which then waits, and now and then somebody else's reader is held for a while; every call has to come back, and so have 150 refused calls one after the other and then 150 calls at the same time. Then index calls of several goroutines make an ordinary store grow, Bolt's by many doublings of its map, while others query; all have to come back, and every object must be found at the end. Non-trivial: a call during which a batch was waiting, by case and call.",
		Need:   []string{"calls which came back", "calls with a batch waiting", "queries with several readers", "growing calls", "growing queries", "foreign readers held", "refused calls which came back", "calls at the same time"},
		Shards: func(th bool) []Shard { return shardsPerBackend(allBackends, 2, 60, th, 20) },
		Run:    runC46,
	})
}

func stacksOf(what string) string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var res []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, what) {
			res = append(res, g)
		}
	}
	return trim(strings.Join(res, "\n\n"), 4000)
}

// comesBack runs f and fails if it does not return.
func (c *Case) comesBack(what string, f func()) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	for i := 0; i < 300; i++ {
		select {
		case <-done:
			return
		case <-time.After(100 * time.Millisecond):
			c.Tick()
		}
	}
	c.Fail("blocked", "%s does not come back within 30 s:\n%s", what, stacksOf("oureadb/index"))
}

func runC46(c *Case) {
	b := c.Shard.Backend
	be := backendOf(b)
	dir := ""
	if be.disk {
		dir = c.TempDir()
	}
	s := c.mustOpen(b, dir, nil, nil)
	if c.Idx%4 == 3 {
		c.growC46(s)
		c.mustClose(s)
		return
	}
	c.prefill(be, s)
	ws := &waitStore{KVStore: s}
	ow := newOpWorld(c.R, 2+c.R.Intn(10))
	ps := genPrefixes(c.R, 1+c.R.Intn(3))
	var specs []idxSpec
	var ins []*idxInst
	for _, p := range ps {
		sp := genSpec(c.R, p)
		specs = append(specs, sp)
		ins = append(ins, sp.over(ws))
	}
	for i := 0; i < 10; i++ {
		j := c.R.Intn(len(specs))
		op := ow.indexOp(specs[j])
		c.comesBack(fmt.Sprintf("%s: %s, alone,", specs[j], op.desc), func() { op.run(ins[j]) })
	}
	for step := 0; step < 25; step++ {
		j := c.R.Intn(len(specs))
		op := ow.queryOp(specs[j])
		if c.R.Intn(3) == 0 {
			op = ow.indexOp(specs[j])
		}
		at := int32(1 + c.R.Intn(1+c.R.Intn(4)))
		var waiting int32
		bgDone := make(chan error, 1)
		started := false
		ws.held, ws.most, ws.acquired = 0, 0, 0
		atWhich := "reader"
		hook := func(n int32) {
			if n != at || started {
				return
			}
			started = true
			go func() {
				w, err := ws.Writer()
				if err != nil {
					bgDone <- err
					return
				}
				bt := w.NewBatch()
				bt.Set([]byte("zz other"), []byte{byte(step)})
				bgDone <- w.ExecuteBatch(bt)
				bt.Close()
				w.Close()
			}()
			for i := 0; i < 400; i++ {
				if !ws.mu.TryRLock() {
					atomic.StoreInt32(&waiting, 1)
					break
				}
				ws.mu.RUnlock()
				time.Sleep(25 * time.Microsecond)
			}
		}
		foreign := c.R.Intn(3) == 0
		var wg sync.WaitGroup
		if foreign {
			// somebody reads for a while
			rd, err := ws.Reader()
			if err != nil {
				c.Fail("reader", "%v", err)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Millisecond)
				rd.Close()
			}()
			ws.acquired = 0
			c.Count("foreign readers held", 1)
		}
		// the hook sees one goroutine at a time only if the call has one
		var hm sync.Mutex
		ws.hook = func(n int32) {
			hm.Lock()
			defer hm.Unlock()
			hook(n)
		}
		var err error
		c.Logf("%s: %s, a batch is executed when it has its %d-th %s", specs[j], op.desc, at, atWhich)
		c.comesBack(fmt.Sprintf("%s: %s, while a batch waits for readers since it got its %d-th one,", specs[j], op.desc, at), func() { _, _, err = op.run(ins[j]) })
		ws.hook = nil
		if err != nil {
			c.Fail("error", "%s: %s: %v", specs[j], op.desc, err)
		}
		if started {
			c.comesBack(fmt.Sprintf("a batch waiting for the readers of %s: %s", specs[j], op.desc), func() { err = <-bgDone })
			if err != nil {
				c.Fail("exec", "%v", err)
			}
		}
		wg.Wait()
		if h := atomic.LoadInt32(&ws.held); h != 0 {
			c.Fail("held", "%s: %s left %d readers open", specs[j], op.desc, h)
		}
		c.Eval(1)
		c.Tick()
		c.Count("calls which came back", 1)
		if atomic.LoadInt32(&waiting) != 0 {
			c.Count("calls with a batch waiting", 1)
			c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx, step))
		}
		if op.query && ws.acquired > 1 {
			c.Count("queries with several readers", 1)
		}
		c.Seen("readers held at once", fmt.Sprint(ws.most))
	}
	if c.R.Intn(2) == 0 {
		// every reader takes a moment, so that all calls are under way
		var n int32
		ws.hook = func(int32) {
			if atomic.AddInt32(&n, 1)%8 == 0 {
				time.Sleep(20 * time.Microsecond)
			}
		}
	}
	c.crowdC46(specs, ins, ow)
	c.mustClose(s)
}

// crowdC46 has many goroutines ask at the same time, after many refused calls.
func (c *Case) crowdC46(specs []idxSpec, ins []*idxInst, ow *opWorld) {
	for i := 0; i < 150; i++ {
		j := c.R.Intn(len(specs))
		refused := ins[j].refused(c.R)
		c.comesBack(fmt.Sprintf("%s: a call which is refused", specs[j]), func() {
			if refused() == nil {
				c.Fail("accepted", "%s: a call to be refused was accepted", specs[j])
			}
		})
		c.Count("refused calls which came back", 1)
	}
	const n = 150
	var ops [n]*idxOp
	var on [n]int
	same := c.R.Intn(len(specs))
	for i := range ops {
		on[i] = c.R.Intn(len(specs))
		if c.R.Intn(2) == 0 {
			on[i] = same
		}
		ops[i] = ow.queryOp(specs[on[i]])
		if c.R.Intn(10) == 0 {
			ops[i] = ow.indexOp(specs[on[i]])
		}
	}
	var failed atomic.Value
	c.comesBack(fmt.Sprintf("%d calls at the same time", n), func() {
		var wg sync.WaitGroup
		for i := range ops {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				if _, _, err := ops[i].run(ins[on[i]]); err != nil {
					failed.Store(fmt.Sprintf("%s: %s: %v", specs[on[i]], ops[i].desc, err))
				}
			}(i)
		}
		wg.Wait()
	})
	if e := failed.Load(); e != nil {
		c.Fail("error", "%v", e)
	}
	c.Count("calls at the same time", n)
}

// growC46 makes a store grow while it is queried.
func (c *Case) growC46(s store.KVStore) {
	ow := newOpWorld(c.R, 20)
	var specs []idxSpec
	var ins []*idxInst
	for _, p := range genPrefixes(c.R, 3) {
		sp := genSpec(c.R, p)
		specs = append(specs, sp)
		ins = append(ins, sp.over(s))
	}
	type doing struct {
		on  int
		op  *idxOp
		err error
	}
	const writers, readers = 3, 4
	var index [writers][]*doing
	var query [readers][]*doing
	want := Model{}
	for i := 0; i < 60; i++ {
		j := c.R.Intn(len(specs))
		op := ow.indexOp(specs[j])
		// long ids fill the file
		op.id = fmt.Sprintf("%s%d%s", op.id, i, strings.Repeat("~", c.R.Intn(6000)))
		op.idSlice = cpID(op.id)
		index[i%writers] = append(index[i%writers], &doing{on: j, op: op})
		for k := range c.keysOf(specs[j], op) {
			want[k] = ""
		}
	}
	for i := 0; i < 80; i++ {
		j := c.R.Intn(len(specs))
		query[i%readers] = append(query[i%readers], &doing{on: j, op: ow.queryOp(specs[j])})
	}
	c.Logf("%d goroutines index, %d query", writers, readers)
	c.comesBack("indexing and querying a growing store from several goroutines", func() {
		var wg sync.WaitGroup
		stop := int32(0)
		var left int32 = writers
		for g := range index {
			wg.Add(1)
			go func(l []*doing) {
				defer wg.Done()
				for _, d := range l {
					_, _, d.err = d.op.run(ins[d.on])
				}
				if atomic.AddInt32(&left, -1) == 0 {
					atomic.StoreInt32(&stop, 1)
				}
			}(index[g])
		}
		for g := range query {
			wg.Add(1)
			seed := c.R.Int63()
			go func(l []*doing) {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				for n := 0; n < 200 && atomic.LoadInt32(&stop) == 0; n++ {
					d := l[r.Intn(len(l))]
					if _, _, err := d.op.run(ins[d.on]); err != nil {
						d.err = err
					}
				}
			}(query[g])
		}
		wg.Wait()
	})
	for _, l := range append(index[:], query[:]...) {
		for _, d := range l {
			if d.err != nil {
				c.Fail("error", "%s: %s: %v", specs[d.on], d.op.desc, d.err)
			}
			c.Eval(1)
			if d.op.query {
				c.Count("growing queries", 1)
			} else {
				c.Count("growing calls", 1)
			}
		}
	}
	if d := diffModel(want, c.content(s)); d != "" {
		c.Fail("content", "a store which grew while it was queried: %s", d)
	}
	c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx))
}
