package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"time"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/akhenakh/oureadb/store"
	"github.com/golang/geo/s2"
)

// idCounts counts the returned ids.
func idCounts(ids []index.GeoID) map[string]int {
	m := map[string]int{}
	for _, id := range ids {
		m[string(id)]++
	}
	return m
}

// diffIDs compares a returned list with the expected multiset.
func diffIDs(got []index.GeoID, want map[string]int) string {
	g := idCounts(got)
	var d []string
	for id, n := range want {
		if g[id] != n {
			d = append(d, fmt.Sprintf("%s: %d times, want %d", q([]byte(id)), g[id], n))
		}
	}
	for id, n := range g {
		if want[id] == 0 {
			d = append(d, fmt.Sprintf("%s: %d times, want none", q([]byte(id)), n))
		}
	}
	sort.Strings(d)
	if len(d) == 0 {
		return ""
	}
	if len(d) > 6 {
		d = append(d[:6], fmt.Sprintf("... %d differences", len(d)))
	}
	return fmt.Sprint(d)
}

func ones(ids map[string]bool) map[string]int {
	m := map[string]int{}
	for id := range ids {
		m[id] = 1
	}
	return m
}

func levelCoverer(level int) *s2.RegionCoverer {
	return &s2.RegionCoverer{MinLevel: level, MaxLevel: level}
}

// shapeSize draws a size for objects indexed at the level.
func shapeSize(r *rand.Rand, level int) float64 {
	sz := cellSize(level) * math.Exp(r.Float64()*math.Log(160)) * 0.05
	return math.Min(sz, 1.2)
}

// neighboursOf are cells of the same level around c.
func neighboursOf(c s2.CellID) []s2.CellID {
	e := c.EdgeNeighbors()
	res := append([]s2.CellID{c.NextWrap(), c.PrevWrap()}, e[:]...)
	return res
}

// flatModel is what a flat index has to answer.
type flatModel struct {
	level  int
	prefix []byte
	two    [2]*index.S2FlatIdx // two index objects for the same entries
	cells  map[s2.CellID]map[string]bool
	shapes []*shape
	ids    []index.GeoID
	gen    *idGen
}

func newFlatModel(r *rand.Rand, s store.KVStore, prefix []byte, level int) *flatModel {
	m := &flatModel{level: level, prefix: prefix, cells: map[s2.CellID]map[string]bool{}}
	m.over(s)
	return m
}

func (m *flatModel) over(s store.KVStore) {
	for i := range m.two {
		m.two[i] = index.NewS2FlatIdx(s, roomy(m.prefix), m.level)
	}
}

// idx is either of the two index objects.
func (m *flatModel) idx(c *Case) *index.S2FlatIdx { return m.two[c.R.Intn(2)] }

func (m *flatModel) add(cu []s2.CellID, id index.GeoID) {
	for _, c := range cu {
		if m.cells[c] == nil {
			m.cells[c] = map[string]bool{}
		}
		m.cells[c][string(id)] = true
	}
}

func (m *flatModel) sorted() []s2.CellID {
	res := make([]s2.CellID, 0, len(m.cells))
	for c := range m.cells {
		res = append(res, c)
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	return res
}

// check compares lookups with the model.
func (m *flatModel) check(c *Case, n int) {
	all := m.sorted()
	probe := func(cell s2.CellID) {
		got, err := m.idx(c).GeoIdsAtCell(cell)
		c.Tick()
		c.Eval(1)
		if err != nil {
			c.Fail("cell error", "GeoIdsAtCell(%s) of the index %q level %d: %v", cell, m.prefix, m.level, err)
		}
		if d := diffIDs(got, ones(m.cells[cell])); d != "" {
			c.Fail("cell", "GeoIdsAtCell(%s) of the index %q level %d: %s", cell, m.prefix, m.level, d)
		}
		c.Count("cell lookups", 1)
		if len(got) > 1 {
			c.Count("cell lookups with several ids", 1)
		}
	}
	for i := 0; i < n; i++ {
		var cell s2.CellID
		if len(all) == 0 || c.R.Intn(12) == 0 {
			cell = hotSpot(c.R).cell(m.level)
		} else {
			cell = all[c.R.Intn(len(all))]
		}
		probe(cell)
		if c.R.Intn(2) == 0 {
			nb := neighboursOf(cell)
			probe(nb[c.R.Intn(len(nb))])
		}
		if i%4 == 0 {
			var cs []s2.CellID
			want := map[string]bool{}
			for j := 0; j < c.R.Intn(8); j++ {
				x := cell
				if len(all) > 0 && c.R.Intn(4) > 0 {
					x = all[c.R.Intn(len(all))]
				}
				if c.R.Intn(5) == 0 {
					x = x.NextWrap()
				}
				cs = append(cs, x)
			}
			cs = cellList(c.R, cs, false)
			for _, x := range cs {
				for id := range m.cells[x] {
					want[id] = true
				}
			}
			got, err := m.idx(c).GeoIdsAtCells(cs)
			c.Eval(1)
			c.Count("multi cell lookups", 1)
			if err != nil {
				c.Fail("cells error", "GeoIdsAtCells(%v): %v", cs, err)
			}
			if d := diffIDs(got, ones(want)); d != "" {
				c.Fail("cells", "GeoIdsAtCells(%v) of the index %q level %d: %s", cs, m.prefix, m.level, d)
			}
		}
	}
}

// coverOf is the covering of the object at the level, nil if it is too large.
func (c *Case) coverOf(gd *geodata.GeoData, level int) []s2.CellID {
	cu, err := gd.Cover(levelCoverer(level))
	c.Tick()
	if err != nil {
		c.Fail("cover", "covering %s at level %d: %v", shortGD(gd), level, err)
	}
	return cu
}

// smallShape draws a shape whose covering at the level stays affordable.
func (c *Case) smallShape(ctr vec, level int) *shape {
	sh := genShape(c.R, ctr, shapeSize(c.R, level))
	c.Count("objects "+sh.kind, 1)
	return sh
}

// findable indexes the object and judges its covering and lookups.
func (c *Case) findable(fi *index.S2FlatIdx, ti *index.S2FlatTimeIdx, sh *shape, level int, name string, samples int) s2.CellUnion {
	id := index.GeoID(name)
	at := time.Unix(0, c.R.Int63())
	c.Logf("level %d size %g %s", level, sh.size, sh)
	if err := fi.GeoIndex(sh.gd, id); err != nil {
		c.Fail("flat index", "GeoIndex(%s) at level %d: %v", sh, level, err)
	}
	if err := ti.GeoTimeIndex(sh.gd, at, id); err != nil {
		c.Fail("time index", "GeoTimeIndex(%s) at level %d: %v", sh, level, err)
	}
	cu, err := fi.Covering(sh.gd)
	if err != nil {
		c.Fail("covering", "Covering(%s) at level %d: %v", sh, level, err)
	}
	seen := map[s2.CellID]bool{}
	for i, cell := range cu {
		if !cell.IsValid() || cell.Level() != level || seen[cell] && sh.kind != "multi" {
			c.Fail("covering cell", "covering of %s at level %d has the cell %s (repeated: %v)", sh, level, cell, seen[cell])
		}
		seen[cell] = true
		if i > 400 && c.R.Intn(10) > 0 {
			continue
		}
		c.Count("covering cells", 1)
		if d := sh.cellDistance(cell); d > maxDiag(level)*1.001 {
			c.Fail("far cell", "covering of %s at level %d has the cell %s, %g radians (%g cells) from the object", sh, level, cell.ToToken(), d, d/cellSize(level))
		} else if d > 1e-12 {
			c.Count("covering cells not touching the object", 1)
		}
	}
	found := map[s2.CellID]bool{}
	for i := 0; i < samples; i++ {
		p, what := sh.sample(c.R)
		c.Count(what, 1)
		c.Eval(1)
		cells := cellsAt(p, level)
		ok := false
		for _, x := range cells {
			if found[x] {
				ok = true
				break
			}
			a, err := fi.GeoIdsAtCell(x)
			if err != nil {
				c.Fail("lookup", "GeoIdsAtCell(%s): %v", x, err)
			}
			b, err := ti.GeoTimeIdsAtCell(x, index.MaxGeoTime, index.MinGeoTime.Add(-1))
			if err != nil {
				c.Fail("lookup", "GeoTimeIdsAtCell(%s): %v", x, err)
			}
			c.Tick()
			if len(a) != len(b) {
				c.Fail("disagree", "level %d cell %s: flat index %d ids, time index %d ids for %s", level, x.ToToken(), len(a), len(b), sh)
			}
			for _, y := range a {
				found[x] = found[x] || string(y) == name
			}
			if found[x] {
				ok = true
				break
			}
		}
		if !ok {
			lat, lng := p.deg()
			c.Fail("missed "+what, "level %d: no cell at the %s %.12f,%.12f (%v) returns the object %s", level, what, lat, lng, cells, sh)
		}
	}
	return cu
}

func init() {
	register(&Check{
		ID:     "C16",
		Rule:   "one case is one store with up to three flat indexes of random levels 0-30 and hostile prefixes, each used through two index objects in turn, a random sequence of indexing calls of points, lines, polygons and multipolygons around a few hot spots (poles, antimeridian, cube corners and edges) under hostile ids, sometimes a crowd of up to 6000 ids in one cell, and lookups compared byte for byte with a cell to ids model fed by the coverings; non-trivial: at least one lookup had to return several ids",
		Assume: []string{"the covering of an object is what GeoData.Cover computes (C17, C32, C33 judge that)"},
		Need:   []string{"cell lookups with several ids", "multi cell lookups", "objects polygon", "objects line", "objects point", "objects multi", "reindexed", "crowds", "changed in place"},
		Shards: func(th bool) []Shard { return shardsPerBackend(allBackends, 2, 160, th, 20) },
		Run: func(c *Case) {
			b := c.Shard.Backend
			dir := c.TempDir()
			s := c.mustOpen(b, dir, nil, nil)
			var ms []*flatModel
			for _, p := range genPrefixes(c.R, 1+c.R.Intn(3)) {
				ms = append(ms, newFlatModel(c.R, s, p, c.R.Intn(31)))
			}
			ctrs := []vec{hotSpot(c.R), hotSpot(c.R)}
			for _, m := range ms {
				var cells []s2.CellID
				for _, v := range ctrs {
					cells = append(cells, v.cell(m.level))
				}
				m.gen = newIDGen(c.R, 3+c.R.Intn(12), cells...)
				c.Seen("level", fmt.Sprint(m.level))
				c.Seen("prefix", string(m.prefix))
			}
			n := 10 + c.R.Intn(30)
			multi := false
			for i := 0; i < n; i++ {
				m := ms[c.R.Intn(len(ms))]
				var sh *shape
				id := m.gen.pick(c.R)
				if len(m.shapes) > 0 && c.R.Intn(5) == 0 {
					k := c.R.Intn(len(m.shapes))
					sh, id = m.shapes[k], m.ids[k]
					c.Count("reindexed", 1)
				} else {
					// points within a few cells of the spot so that cells are shared
					ctr := newFrame(ctrs[c.R.Intn(2)]).at(c.R.NormFloat64()*cellSize(m.level)*0.5, c.R.NormFloat64()*cellSize(m.level)*0.5)
					sh = c.smallShape(ctr, m.level)
				}
				if c.R.Intn(6) == 0 {
					// the caller changes an object it has indexed and indexes it under this id
					if len(m.shapes) > 0 {
						k := c.R.Intn(len(m.shapes))
						sh = m.shapes[k]
					}
					sh.become(c.R, sh.relative(c.R))
					c.Count("changed in place", 1)
				}
				cu := c.coverOf(cloneGD(sh.gd), m.level)
				c.Logf("index %q level %d: GeoIndex(%s, %s): %d cells", m.prefix, m.level, sh, q(id), len(cu))
				if err := m.idx(c).GeoIndex(sh.gd, append(index.GeoID(nil), id...)); err != nil {
					c.Fail("index", "GeoIndex(%s, %s): %v", sh, q(id), err)
				}
				m.add(cu, id)
				m.shapes, m.ids = append(m.shapes, sh), append(m.ids, id)
				if i%6 == 5 {
					m.check(c, 3)
				}
			}
			var crowded *flatModel
			var crowdCell s2.CellID
			if n := c.crowd(); n > 0 {
				crowded = ms[c.R.Intn(len(ms))]
				lat, lng := ctrs[c.R.Intn(2)].deg()
				gd := pointGD(lat, lng)
				cu := c.coverOf(gd, crowded.level)
				crowdCell = cu[0]
				c.Logf("index %q level %d: GeoIndex of %d ids at %v,%v cell %s", crowded.prefix, crowded.level, n, lat, lng, crowdCell)
				for i, id := range crowdIDs(c.R, n) {
					if err := crowded.idx(c).GeoIndex(gd, index.GeoID(id)); err != nil {
						c.Fail("index", "GeoIndex(%s): %v", q([]byte(id)), err)
					}
					crowded.add(cu, index.GeoID(id))
					if i%64 == 0 {
						c.Tick()
					}
				}
			}
			if b != "gtreap" && c.R.Intn(2) == 0 {
				c.mustClose(s)
				s = c.mustOpen(b, dir, nil, nil)
				for _, m := range ms {
					m.over(s)
				}
				c.Count("reopened", 1)
			}
			if crowded != nil {
				for _, x := range []s2.CellID{crowdCell, crowdCell.NextWrap(), crowdCell.PrevWrap()} {
					for _, multi := range []bool{false, true} {
						got, err := crowded.idx(c).GeoIdsAtCell(x)
						if multi {
							got, err = crowded.idx(c).GeoIdsAtCells([]s2.CellID{x})
						}
						c.Eval(1)
						if err != nil {
							c.Fail("cell error", "looking up %s among a crowd: %v", x, err)
						}
						if d := diffIDs(got, ones(crowded.cells[x])); d != "" {
							c.Fail("crowd", "looking up %s (several cells: %v) of the index %q level %d near a cell of %d ids: %s", x, multi, crowded.prefix, crowded.level, len(crowded.cells[crowdCell]), d)
						}
					}
				}
			}
			for _, m := range ms {
				m.check(c, 40)
				for _, ids := range m.cells {
					if len(ids) > 1 {
						multi = true
					}
				}
			}
			if multi {
				c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx))
			}
			if c.Idx < 2 {
				c.Sample(fmt.Sprintf("%d indexes, %d calls, first: %s", len(ms), n, ms[0].prefix))
			}
			c.mustClose(s)
		},
	})

	register(&Check{
		ID:   "C17",
		Rule: "one case is one object indexed in a flat and a time index of a random level 0-30, one in five far smaller than the cells and across their borders; the cells of the level that contain sampled vertices, edge points and interior points (computed by independent vector geometry, any adjacent cell accepted within 4e-13 radians of a cell border) must return the id, and every covering cell must have exactly the level and lie within one cell diagonal of the object; up to two objects follow in the same indexes which share most vertices with the first, or are the first one changed in place; non-trivial: the covering has at least two cells or the object is a point",
		Need: []string{"vertex", "edge point", "interior point", "covering cells", "tiny objects at cell borders", "related objects", "objects changed in place"},
		Shards: func(th bool) []Shard {
			n := 6000
			if th {
				n *= 30
			}
			var r []Shard
			for i := 0; i < 8; i++ {
				r = append(r, Shard{Name: fmt.Sprintf("gtreap-%d", i), Backend: "gtreap", N: n})
			}
			r = append(r, Shard{Name: "boltdb-0", Backend: "boltdb", N: n / 8}, Shard{Name: "goleveldb-0", Backend: "goleveldb", N: n / 8}, Shard{Name: "badger-0", Backend: "badger", N: n / 30})
			return r
		},
		Run: func(c *Case) {
			level := c.R.Intn(31)
			ctr := hotSpot(c.R)
			sh := (*shape)(nil)
			if c.R.Intn(5) == 0 {
				// far smaller than the cells, across a border of two to four of them
				size := math.Max(1e-8, cellSize(level)*math.Pow(10, -1-6*c.R.Float64()))
				sh = genShape(c.R, atCellBorder(c.R, ctr.cell(level), 0), size)
				c.Count("tiny objects at cell borders", 1)
			} else {
				sh = c.smallShape(ctr, level)
			}
			s := c.mustOpen(c.Shard.Backend, c.TempDir(), nil, nil)
			fi := index.NewS2FlatIdx(s, roomy([]byte("F")), level)
			ti := index.NewS2FlatTimeIdx(s, roomy([]byte("T")), level)
			cu := c.findable(fi, ti, sh, level, "id", 40)
			for n := c.R.Intn(4) - 1; n > 0; n-- {
				// objects sharing most vertices with it, or it changed in place
				rel := sh.relative(c.R)
				if c.R.Intn(2) == 0 {
					sh.become(c.R, rel)
					c.Count("objects changed in place", 1)
				} else {
					sh = rel
				}
				c.Count("related objects", 1)
				c.findable(fi, ti, sh, level, fmt.Sprint("related ", n), 20)
			}
			c.Seen("level", fmt.Sprint(level))
			c.Seen("kind and level", fmt.Sprint(level, sh.kind))
			if len(cu) > 1 || sh.kind == "point" {
				c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx))
			}
			if c.Idx < 2 {
				c.Sample(fmt.Sprintf("level %d, %d cells: %s", level, len(cu), sh))
			}
			c.mustClose(s)
		},
	})
}
