package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/akhenakh/oureadb/store"
	"github.com/golang/geo/s2"
)

// idxSpec describes an index; it can be opened over several stores.
type idxSpec struct {
	kind   string // flat, point, time
	prefix []byte
	level  int
}

func (s idxSpec) String() string {
	return fmt.Sprintf("%s index %q level %d", s.kind, s.prefix, s.level)
}

type idxInst struct {
	idxSpec
	fi *index.S2FlatIdx
	pi *index.S2PointIdx
	ti *index.S2FlatTimeIdx
}

// roomy returns p with room for more behind it, as a slice cut from a larger
// buffer has.
func roomy(p []byte) []byte {
	return append(append(make([]byte, 0, len(p)+300), p...), "more"...)[:len(p)]
}

// cutFrom returns copies of the prefixes cut from one buffer, one behind the
// other: whoever appends to one overwrites the next ones.
func cutFrom(ps ...[]byte) [][]byte {
	var n int
	for _, p := range ps {
		n += len(p)
	}
	buf := make([]byte, 0, n+300)
	var res [][]byte
	for _, p := range ps {
		at := len(buf)
		buf = append(buf, p...)
		res = append(res, buf[at:])
	}
	return res
}

func (s idxSpec) over(st store.KVStore) *idxInst { return s.overWith(st, roomy(s.prefix)) }

// overWith opens the index with p, which equals its prefix, itself.
func (s idxSpec) overWith(st store.KVStore, p []byte) *idxInst {
	i := &idxInst{idxSpec: s}
	switch s.kind {
	case "flat":
		i.fi = index.NewS2FlatIdx(st, p, s.level)
	case "point":
		i.pi = index.NewS2PointIdx(st, p)
	case "time":
		i.ti = index.NewS2FlatTimeIdx(st, p, s.level)
	}
	return i
}

var idxKinds = []string{"flat", "point", "time"}

func genSpec(r *rand.Rand, prefix []byte) idxSpec {
	return idxSpec{idxKinds[r.Intn(3)], prefix, r.Intn(31)}
}

// idxOp is one call, as data: it can be run on several instances.
type idxOp struct {
	name  string // kind and call
	desc  string
	query bool
	id    string
	key   func(in *idxInst) ([]index.GeoID, []byte, error)
	// indexing calls: the cells written
	sh *shape
	ts int64
	// the caller's id slice, filled in by run
	idSlice []byte
}

func (o *idxOp) run(in *idxInst) ([]index.GeoID, []byte, error) { return o.key(in) }

// opWorld is where calls are drawn from: a spot, ids and instants.
type opWorld struct {
	r    *rand.Rand
	ctr  map[int]vec // per level jitter around one spot
	spot vec
	ids  *idGen
	ig   *instants
	objs map[string][]*shape // by spec
}

func newOpWorld(r *rand.Rand, nids int) *opWorld {
	spot := hotSpot(r)
	return &opWorld{r: r, spot: spot, ids: newIDGen(r, nids, spot.cell(r.Intn(31)), spot.cell(30)), ig: newInstants(r), objs: map[string][]*shape{}}
}

func (w *opWorld) at(level int, spread float64) vec {
	cs := cellSize(level) * spread
	return newFrame(w.spot).at(w.r.NormFloat64()*cs, w.r.NormFloat64()*cs)
}

func cpID(id string) index.GeoID { return append(index.GeoID(nil), id...) }

// indexOp draws an indexing call.
func (w *opWorld) indexOp(s idxSpec) *idxOp {
	r := w.r
	o := &idxOp{id: string(w.ids.pick(r))}
	o.idSlice = cpID(o.id)
	switch s.kind {
	case "point":
		lat, lng := w.at(10+r.Intn(20), 1).deg()
		gd := pointGD(lat, lng)
		o.sh = &shape{kind: "point", gd: gd, verts: []vec{fromDeg(lat, lng)}}
		if r.Intn(2) == 0 {
			o.name = "PointIndex"
			o.key = func(in *idxInst) ([]index.GeoID, []byte, error) {
				k, err := in.pi.PointIndex(lat, lng, o.idSlice)
				return nil, k, err
			}
		} else {
			o.name = "GeoPointIndex"
			o.key = func(in *idxInst) ([]index.GeoID, []byte, error) {
				k, err := in.pi.GeoPointIndex(gd, o.idSlice)
				return nil, k, err
			}
		}
		o.desc = fmt.Sprintf("%s(%.12f, %.12f, %s)", o.name, lat, lng, q([]byte(o.id)))
		return o
	case "flat":
		o.sh = genShape(r, w.at(s.level, 0.5), math.Min(1, cellSize(s.level)*3*r.Float64()))
		o.name = "GeoIndex"
		o.key = func(in *idxInst) ([]index.GeoID, []byte, error) {
			return nil, nil, in.fi.GeoIndex(o.sh.gd, o.idSlice)
		}
		o.desc = fmt.Sprintf("%s(%s, %s)", o.name, o.sh, q([]byte(o.id)))
	case "time":
		o.sh = genShape(r, w.at(s.level, 0.5), math.Min(1, cellSize(s.level)*3*r.Float64()))
		o.ts = w.ig.pick(r)
		t := inZone(r, o.ts)
		o.name = "GeoTimeIndex"
		o.key = func(in *idxInst) ([]index.GeoID, []byte, error) {
			return nil, nil, in.ti.GeoTimeIndex(o.sh.gd, t, o.idSlice)
		}
		o.desc = fmt.Sprintf("%s(%s, %d, %s)", o.name, o.sh, o.ts, q([]byte(o.id)))
	}
	w.objs[s.String()] = append(w.objs[s.String()], o.sh)
	return o
}

// keysOf are the keys the documented layout gives the object of an indexing call.
func (c *Case) keysOf(s idxSpec, o *idxOp) map[string]bool {
	m := map[string]bool{}
	add := func(cell s2.CellID) {
		k := append(append([]byte(nil), s.prefix...), be8(uint64(cell))...)
		if s.kind == "time" {
			k = append(k, be8(uint64(math.MaxInt64-o.ts))...)
		}
		m[string(k)+o.id] = true
	}
	if s.kind == "point" {
		lat, lng := o.sh.gd.Geometry.Coordinates[1], o.sh.gd.Geometry.Coordinates[0]
		add(leafAt(lat, lng))
		return m
	}
	for _, cell := range c.coverOf(o.sh.gd, s.level) {
		add(cell)
	}
	return m
}

// queryOp draws a query.
func (w *opWorld) queryOp(s idxSpec) *idxOp {
	r := w.r
	o := &idxOp{query: true}
	level := s.level
	if s.kind == "point" {
		level = r.Intn(31)
	}
	cell := w.at(level, 0.5).cell(level)
	if os := w.objs[s.String()]; len(os) > 0 && r.Intn(2) == 0 {
		p, _ := os[r.Intn(len(os))].sample(r)
		cell = p.cell(level)
	}
	cells := []s2.CellID{cell}
	for i := 0; i < r.Intn(5); i++ {
		nb := neighboursOf(cells[r.Intn(len(cells))])
		cells = append(cells, nb[r.Intn(len(nb))])
	}
	if r.Intn(4) == 0 {
		cells = append(cells, cell)
	}
	cells = cellList(r, cells, s.kind == "point")
	var a *area
	var from, to int64
	var what int
	switch s.kind {
	case "flat":
		what = r.Intn(3)
	default:
		what = r.Intn(4)
	}
	sz := math.Min(1.5, cellSize(level)*4*r.Float64())
	switch what {
	case 2:
		a = newCap(w.at(level, 1), sz)
	case 3:
		a = newRect(r, w.at(level, 1), sz, sz)
	}
	from, to = w.ig.window(r)
	f, t := inZone(r, from), inZone(r, to)
	o.name = [][]string{{"GeoIdsAtCell", "GeoIdsAtCells", "GeoIdsRadiusQuery", "GeoIdsRectQuery"}, {"GeoTimeIdsAtCell", "GeoTimeIdsAtCells", "GeoTimeIdsRadiusQuery", "GeoTimeIdsRectQuery"}}[b2i(s.kind == "time")][what]
	switch what {
	case 0:
		o.desc = fmt.Sprintf("%s(%s)", o.name, cell.ToToken())
	case 1:
		o.desc = fmt.Sprintf("%s(%v)", o.name, cells)
	default:
		o.desc = o.name + " " + a.desc
	}
	if s.kind == "time" {
		o.desc += fmt.Sprintf(" window %d %d", from, to)
	}
	o.key = func(in *idxInst) (ids []index.GeoID, _ []byte, err error) {
		switch in.kind {
		case "flat":
			switch what {
			case 0:
				ids, err = in.fi.GeoIdsAtCell(cell)
			case 1:
				ids, err = in.fi.GeoIdsAtCells(cells)
			case 2:
				ids, err = in.fi.GeoIdsRadiusQuery(a.lat, a.lng, a.radius)
			}
		case "point":
			switch what {
			case 0:
				ids, err = in.pi.GeoIdsAtCell(cell)
			case 1:
				ids, err = in.pi.GeoIdsAtCells(cells)
			case 2:
				ids, err = in.pi.GeoIdsRadiusQuery(a.lat, a.lng, a.radius)
			case 3:
				ids, err = in.pi.GeoIdsRectQuery(a.urlat, a.urlng, a.bllat, a.bllng)
			}
		case "time":
			switch what {
			case 0:
				ids, err = in.ti.GeoTimeIdsAtCell(cell, f, t)
			case 1:
				ids, err = in.ti.GeoTimeIdsAtCells(cells, f, t)
			case 2:
				ids, err = in.ti.GeoTimeIdsRadiusQuery(f, t, a.lat, a.lng, a.radius)
			case 3:
				ids, err = in.ti.GeoTimeIdsRectQuery(f, t, a.urlat, a.urlng, a.bllat, a.bllng)
			}
		}
		return ids, nil, err
	}
	return o
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// monStore wraps a store: it accounts for every resource given out and can
// inject failures.
type monStore struct {
	inner store.KVStore

	problems []string
	readers  int // given out
	writers  int
	batches  int
	iters    int
	executed int
	openR    int
	openW    int
	openI    int
	openB    int
	// fail the n-th acquisition (from 1) counted over all kinds, 0: none
	failAt int
	calls  int
	fired  string
	// called inside ExecuteBatch, before and after
	hook func(after bool)
}

var errInjected = fmt.Errorf("injected failure")

func (m *monStore) problem(f string, a ...interface{}) {
	if len(m.problems) < 5 {
		m.problems = append(m.problems, fmt.Sprintf(f, a...))
	}
}

func (m *monStore) fail(what string) bool {
	m.calls++
	if m.failAt > 0 && m.calls == m.failAt {
		m.fired = what
		return true
	}
	return false
}

func (m *monStore) leaks() string {
	if m.openR+m.openW+m.openI+m.openB != 0 {
		return fmt.Sprintf("left open: %d readers, %d iterators, %d writers, %d batches", m.openR, m.openI, m.openW, m.openB)
	}
	return ""
}

func (m *monStore) reset() {
	inner := m.inner
	*m = monStore{inner: inner}
}

func (m *monStore) Close() error { return m.inner.Close() }

func (m *monStore) Reader() (store.KVReader, error) {
	if m.fail("Reader") {
		return nil, errInjected
	}
	r, err := m.inner.Reader()
	if err != nil {
		return r, err
	}
	m.readers++
	m.openR++
	return &monReader{m: m, r: r}, nil
}

func (m *monStore) Writer() (store.KVWriter, error) {
	if m.fail("Writer") {
		return nil, errInjected
	}
	w, err := m.inner.Writer()
	if err != nil {
		return w, err
	}
	m.writers++
	m.openW++
	return &monWriter{m: m, w: w}, nil
}

type monReader struct {
	m      *monStore
	r      store.KVReader
	closed bool
	iters  int
}

func (r *monReader) use(what string) {
	if r.closed {
		r.m.problem("%s on a closed reader", what)
	}
}
func (r *monReader) Get(k []byte) ([]byte, error) { r.use("Get"); return r.r.Get(k) }
func (r *monReader) MultiGet(k [][]byte) ([][]byte, error) {
	r.use("MultiGet")
	return r.r.MultiGet(k)
}
func (r *monReader) PrefixIterator(p []byte) store.KVIterator {
	r.use("PrefixIterator")
	return r.it(r.r.PrefixIterator(p))
}
func (r *monReader) RangeIterator(a, b []byte) store.KVIterator {
	r.use("RangeIterator")
	return r.it(r.r.RangeIterator(a, b))
}
func (r *monReader) it(i store.KVIterator) store.KVIterator {
	r.iters++
	r.m.iters++
	r.m.openI++
	return &monIter{r: r, i: i}
}
func (r *monReader) Close() error {
	if r.closed {
		r.m.problem("reader closed twice")
		return nil
	}
	if r.iters > 0 {
		r.m.problem("reader closed before its iterator")
	}
	r.closed = true
	r.m.openR--
	return r.r.Close()
}

type monIter struct {
	r      *monReader
	i      store.KVIterator
	closed bool
}

func (i *monIter) use(what string) bool {
	if i.closed {
		i.r.m.problem("%s on a closed iterator", what)
		return false
	}
	if i.r.closed {
		i.r.m.problem("%s on an iterator of a closed reader", what)
		return false
	}
	return true
}
func (i *monIter) Seek(k []byte) {
	if i.use("Seek") {
		i.i.Seek(k)
	}
}
func (i *monIter) Next() {
	if i.use("Next") {
		i.i.Next()
	}
}
func (i *monIter) Key() []byte {
	if !i.use("Key") {
		return nil
	}
	return i.i.Key()
}
func (i *monIter) Value() []byte {
	if !i.use("Value") {
		return nil
	}
	return i.i.Value()
}
func (i *monIter) Valid() bool {
	return i.use("Valid") && i.i.Valid()
}
func (i *monIter) Current() ([]byte, []byte, bool) {
	if !i.use("Current") {
		return nil, nil, false
	}
	return i.i.Current()
}
func (i *monIter) Close() error {
	if i.closed {
		i.r.m.problem("iterator closed twice")
		return nil
	}
	if i.r.closed {
		i.r.m.problem("iterator closed after its reader")
	}
	i.closed = true
	i.r.iters--
	i.r.m.openI--
	return i.i.Close()
}

type monWriter struct {
	m      *monStore
	w      store.KVWriter
	closed bool
}

func (w *monWriter) use(what string) {
	if w.closed {
		w.m.problem("%s on a closed writer", what)
	}
}
func (w *monWriter) NewBatch() store.KVBatch {
	w.use("NewBatch")
	w.m.batches++
	w.m.openB++
	return &monBatch{m: w.m, b: w.w.NewBatch()}
}
func (w *monWriter) NewBatchEx(o store.KVBatchOptions) ([]byte, store.KVBatch, error) {
	w.use("NewBatchEx")
	if w.m.fail("NewBatchEx") {
		return nil, nil, errInjected
	}
	buf, b, err := w.w.NewBatchEx(o)
	if err != nil {
		return buf, b, err
	}
	w.m.batches++
	w.m.openB++
	return buf, &monBatch{m: w.m, b: b}, nil
}
func (w *monWriter) ExecuteBatch(b store.KVBatch) error {
	w.use("ExecuteBatch")
	w.m.executed++
	if w.m.fail("ExecuteBatch") {
		return errInjected
	}
	mb, ok := b.(*monBatch)
	if !ok {
		return w.w.ExecuteBatch(b)
	}
	if mb.closed {
		w.m.problem("a closed batch was executed")
	}
	if w.m.hook != nil {
		w.m.hook(false)
		defer w.m.hook(true)
	}
	return w.w.ExecuteBatch(mb.b)
}
func (w *monWriter) Close() error {
	if w.closed {
		w.m.problem("writer closed twice")
		return nil
	}
	w.closed = true
	w.m.openW--
	return w.w.Close()
}

type monBatch struct {
	m      *monStore
	b      store.KVBatch
	closed bool
}

func (b *monBatch) use(what string) {
	if b.closed {
		b.m.problem("%s on a closed batch", what)
	}
}
func (b *monBatch) Set(k, v []byte)   { b.use("Set"); b.b.Set(k, v) }
func (b *monBatch) Delete(k []byte)   { b.use("Delete"); b.b.Delete(k) }
func (b *monBatch) Merge(k, v []byte) { b.use("Merge"); b.b.Merge(k, v) }
func (b *monBatch) Reset()            { b.use("Reset"); b.b.Reset() }
func (b *monBatch) Close() error {
	if b.closed {
		b.m.problem("batch closed twice")
		return nil
	}
	b.closed = true
	b.m.openB--
	return b.b.Close()
}

var _ = rand.Int

// refused draws a call which has to be answered with an error.
func (in *idxInst) refused(r *rand.Rand) func() error {
	bad := []*geodata.GeoData{{}, {Geometry: &geodata.Geometry{Type: 77}}, polyGD(1, 2, 3), lineGD(1, 2, 3), {Geometry: &geodata.Geometry{}}}[r.Intn(5)]
	good := pointGD(1, 2)
	id, none := index.GeoID("x"), index.GeoID{}
	t := index.MinGeoTime
	k := r.Intn(6)
	level := in.level
	for level == in.level {
		level = r.Intn(31)
	}
	wrong := leafAt(1, 2).Parent(level)
	right := leafAt(1, 2)
	if in.kind != "point" {
		right = right.Parent(in.level)
	}
	cells := []s2.CellID{right, wrong, right}
	if k == 3 {
		cells = []s2.CellID{wrong, right}
	}
	return func() error {
		var err error
		switch in.kind {
		case "flat":
			switch k {
			case 0:
				return in.fi.GeoIndex(bad, id)
			case 1:
				return in.fi.GeoIndex(good, none)
			case 2, 3:
				_, err = in.fi.GeoIdsAtCells(cells)
			default:
				_, err = in.fi.GeoIdsAtCell(wrong)
			}
		case "time":
			switch k {
			case 0:
				return in.ti.GeoTimeIndex(bad, t, id)
			case 1:
				return in.ti.GeoTimeIndex(good, t, none)
			case 2, 3:
				_, err = in.ti.GeoTimeIdsAtCells(cells, t, index.MaxGeoTime)
			default:
				_, err = in.ti.GeoTimeIdsAtCell(wrong, t, index.MaxGeoTime)
			}
		case "point":
			switch k {
			case 0, 2:
				_, err = in.pi.GeoPointIndex(bad, id)
			case 1, 3:
				_, err = in.pi.PointIndex(1, 2, none)
			case 4:
				_, err = in.pi.GeoPointKey(bad, id)
			default:
				_, err = in.pi.GeoPointIndex(good, none)
			}
		}
		return err
	}
}
