package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/store"
	"github.com/golang/geo/s2"
)

func be8(v uint64) []byte {
	b := make([]byte, 8)
	for i := 7; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
	return b
}

// leafAt is the leaf cell of a position.
func leafAt(lat, lng float64) s2.CellID {
	return s2.CellIDFromLatLng(s2.LatLngFromDegrees(lat, lng))
}

type pointEntry struct {
	leaf s2.CellID
	id   string
}

// pointModel is what a point index has to answer.
type pointModel struct {
	two    [2]*index.S2PointIdx // two index objects for the same entries
	prefix []byte
	m      map[pointEntry]bool
}

func newPointModel(s store.KVStore, prefix []byte) *pointModel {
	m := &pointModel{prefix: prefix, m: map[pointEntry]bool{}}
	m.over(s)
	return m
}

func (m *pointModel) over(s store.KVStore) {
	for i := range m.two {
		m.two[i] = index.NewS2PointIdx(s, roomy(m.prefix))
	}
}

// idx is either of the two index objects.
func (m *pointModel) idx(c *Case) *index.S2PointIdx { return m.two[c.R.Intn(2)] }

func (m *pointModel) key(e pointEntry) []byte {
	return append(append(append([]byte(nil), m.prefix...), be8(uint64(e.leaf))...), e.id...)
}

// index adds a point through either call and judges the returned key.
func (m *pointModel) index(c *Case, lat, lng float64, id string) {
	e := pointEntry{leafAt(lat, lng), id}
	c.Logf("index %q: point %.12f,%.12f leaf %s id %s", m.prefix, lat, lng, e.leaf.ToToken(), q([]byte(id)))
	var k []byte
	var err error
	gd := pointGD(lat, lng)
	if c.R.Intn(2) == 0 {
		k, err = m.idx(c).PointIndex(lat, lng, index.GeoID(id))
	} else {
		k, err = m.idx(c).GeoPointIndex(gd, index.GeoID(id))
	}
	if err != nil {
		c.Fail("index", "indexing the point %.12f,%.12f: %v", lat, lng, err)
	}
	want := m.key(e)
	gk, err := m.idx(c).GeoPointKey(gd, index.GeoID(id))
	if err != nil || !bytes.Equal(k, want) || !bytes.Equal(gk, want) || !bytes.Equal(m.idx(c).PointKey(lat, lng, index.GeoID(id)), want) {
		c.Fail("key", "indexing %.12f,%.12f returned the key %x, computed without indexing %x (%v), want %x", lat, lng, k, gk, err, want)
	}
	m.m[e] = true
	c.Count("points indexed", 1)
}

func (m *pointModel) checkCell(c *Case, cell s2.CellID) int {
	want := map[string]int{}
	for e := range m.m {
		if cell.RangeMin() <= e.leaf && e.leaf <= cell.RangeMax() {
			want[e.id]++
		}
	}
	got, err := m.idx(c).GeoIdsAtCell(cell)
	c.Tick()
	c.Eval(1)
	c.Count("cell lookups", 1)
	if err != nil {
		c.Fail("cell error", "GeoIdsAtCell(%s): %v", cell, err)
	}
	if d := diffIDs(got, want); d != "" {
		c.Fail("cell", "index %q GeoIdsAtCell(%s, level %d): %s", m.prefix, cell.ToToken(), cell.Level(), d)
	}
	c.Seen("level", fmt.Sprint(cell.Level()))
	return len(got)
}

func (m *pointModel) leaves() []s2.CellID {
	var res []s2.CellID
	for e := range m.m {
		res = append(res, e.leaf)
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	return res
}

// checkStored compares the stored keys with the model.
func (m *pointModel) checkStored(c *Case, s store.KVStore) {
	got := Model{}
	for k, v := range c.content(s) {
		if hasPrefix([]byte(k), m.prefix) {
			got[k] = v
		}
	}
	want := Model{}
	for e := range m.m {
		want[string(m.key(e))] = ""
	}
	if d := diffModel(want, got); d != "" {
		c.Fail("stored", "the keys stored by the index %q: %s", m.prefix, d)
	}
}

// judgePoints compares query results with certain and possible entries.
func (c *Case) judgePoints(got []index.GeoID, lo, hi map[string]int, what string) {
	g := idCounts(got)
	for id, n := range lo {
		if g[id] < n {
			c.Fail("missed", "%s returned %s %d times, %d entries certainly match", what, q([]byte(id)), g[id], n)
		}
	}
	for id, n := range g {
		if n > hi[id] {
			c.Fail("extra", "%s returned %s %d times, at most %d entries match", what, q([]byte(id)), n, hi[id])
		}
	}
	c.Eval(1)
	c.Count("queries", 1)
	c.Count("ids returned", len(got))
}

const leafTol = 2.5e-9 // radians, 1.6 cm

// likeCap is a disc close to a, often with exactly its radius.
func (c *Case) likeCap(a *area) *area {
	d := a.r * math.Exp(-c.R.Float64()*7) * 2
	ctr := newFrame(a.ctr).at(c.R.NormFloat64()*d, c.R.NormFloat64()*d)
	if c.R.Intn(5) == 0 {
		ctr = a.ctr
	}
	b := newCap(ctr, a.r)
	switch c.R.Intn(4) {
	case 0:
		b = newCap(ctr, a.r*(1+c.R.NormFloat64()*0.01))
	case 1:
		b = newCap(ctr, a.r*(0.5+c.R.Float64()))
	default:
		b.radius = a.radius
	}
	return b
}

// likeRect is a rectangle close to a.
func (c *Case) likeRect(a *area) *area {
	b := *a
	h := (a.urlat - a.bllat) * math.Exp(-c.R.Float64()*7)
	move := func(x, d float64) float64 { return math.Max(-90, math.Min(90, x+c.R.NormFloat64()*d)) }
	switch c.R.Intn(4) {
	case 0:
		b.bllat = move(a.bllat, h)
	case 1:
		b.urlat = move(a.urlat, h)
	case 2:
		b.bllat, b.urlat = move(a.bllat, h), move(a.urlat, h)
	}
	if b.bllat > b.urlat {
		b.bllat, b.urlat = b.urlat, b.bllat
	}
	if a.wd > 0 && a.wd < 360 && c.R.Intn(2) == 0 {
		w := math.Min(359.9, a.wd*(1+c.R.NormFloat64()*0.1*math.Exp(-c.R.Float64()*7)))
		if w < 0 {
			w = a.wd
		}
		bl := a.bllng + a.wd*c.R.NormFloat64()*math.Exp(-c.R.Float64()*7)*0.5
		b.setLng(bl, bl+w, w)
	}
	b.desc = fmt.Sprintf("rect(ur %.12f, %.12f bl %.12f, %.12f)", b.urlat, b.urlng, b.bllat, b.bllng)
	return &b
}

// queryRect judges a rectangle query on a point index.
func (c *Case) queryRect(m *pointModel, a *area) {
	lo, hi := map[string]int{}, map[string]int{}
	for e := range m.m {
		ll := e.leaf.LatLng()
		lat, lng := ll.Lat.Degrees(), ll.Lng.Degrees()
		const tol = 2e-7
		x := a.excess(lng) * math.Cos(lat*math.Pi/180)
		polar := math.Abs(lat) > 90-tol
		if lat >= a.bllat+tol && lat <= a.urlat-tol && (x <= -tol || a.wd >= 360) {
			lo[e.id]++
			c.Count("entries required", 1)
		}
		if lat >= a.bllat-tol && lat <= a.urlat+tol && (x <= tol || polar) {
			hi[e.id]++
		} else {
			c.Count("entries forbidden", 1)
		}
	}
	c.Logf("query %s", a.desc)
	got, err := m.idx(c).GeoIdsRectQuery(a.urlat, a.urlng, a.bllat, a.bllng)
	if err != nil {
		c.Fail("query", "%s: %v", a.desc, err)
	}
	c.judgePoints(got, lo, hi, a.desc)
	if len(lo) > 0 && len(hi) < len(m.m) {
		c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx))
	}
}

// queryCap judges a radius query on a point index.
func (c *Case) queryCap(m *pointModel, a *area) {
	lo, hi := map[string]int{}, map[string]int{}
	near := 0
	for e := range m.m {
		p := e.leaf.Point()
		d := (vec{p.X, p.Y, p.Z}).unit().angle(a.ctr)
		if d <= a.r*(1-1e-9)-leafTol {
			lo[e.id]++
			c.Count("entries required", 1)
		}
		if d <= a.enl*(1+1e-9)+leafTol {
			hi[e.id]++
		} else if d < 3*a.r+1e-7 {
			near++
		}
	}
	c.Count("entries forbidden nearby", near)
	c.Logf("query %s", a.desc)
	got, err := m.idx(c).GeoIdsRadiusQuery(a.lat, a.lng, a.radius)
	if err != nil {
		c.Fail("query", "%s: %v", a.desc, err)
	}
	c.judgePoints(got, lo, hi, a.desc)
	if near > 0 && len(lo) > 0 {
		c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx))
	}
	c.Seen("magnitude of radius", fmt.Sprint(int(math.Log2(a.radius+1e-9))))
}

// gather indexes now and then many ids at a few places of an area, many of
// them at the very same one.
func (c *Case) gather(m *pointModel, areas []*area) {
	if c.R.Intn(3) > 0 {
		return
	}
	n := c.crowd()
	if n == 0 {
		return
	}
	a := areas[c.R.Intn(len(areas))]
	var at []vec
	for i := 0; i < 1+c.R.Intn(4); i++ {
		at = append(at, a.inside(c.R))
	}
	for i, id := range crowdIDs(c.R, n) {
		p := at[0]
		switch x := c.R.Intn(10); {
		case x == 0:
			p = at[i%len(at)]
		case x == 1:
			p = a.inside(c.R)
		}
		lat, lng := p.deg()
		m.index(c, lat, lng, id)
	}
}

func init() {
	register(&Check{
		ID:     "C19",
		Rule:   "one case is one or two point indexes with hostile prefixes in one store, points placed at the first and last leaf cells of cells of random levels, at the leaf cells next to them and around hot spots, hostile ids, sometimes a crowd of up to 6000 ids, and lookups at cells of all 31 levels compared with a leaf level model, plus the stored keys; non-trivial: a lookup had to return several ids",
		Need:   []string{"cell lookups", "multi cell lookups", "several ids", "crowds"},
		Shards: func(th bool) []Shard { return shardsPerBackend(allBackends, 2, 160, th, 25) },
		Run: func(c *Case) {
			b := c.Shard.Backend
			dir := c.TempDir()
			s := c.mustOpen(b, dir, nil, nil)
			var ms []*pointModel
			for _, p := range genPrefixes(c.R, 1+c.R.Intn(2)) {
				ms = append(ms, newPointModel(s, p))
			}
			var cells []s2.CellID
			for i := 0; i < 4; i++ {
				cells = append(cells, hotSpot(c.R).cell(c.R.Intn(31)))
			}
			if c.R.Intn(3) == 0 { // the ends of the curve
				cells = append(cells, s2.CellIDFromFace(0).RangeMin().Parent(c.R.Intn(31)), s2.CellIDFromFace(5).RangeMax().Parent(c.R.Intn(31)))
			}
			g := newIDGen(c.R, 2+c.R.Intn(12), cells...)
			var probes []s2.CellID
			for i := 0; i < 15+c.R.Intn(25); i++ {
				m := ms[c.R.Intn(len(ms))]
				cell := cells[c.R.Intn(len(cells))]
				if c.R.Intn(4) == 0 && cell.Level() < 30 {
					cell = cell.Children()[c.R.Intn(4)]
				}
				leaf := cell.RangeMin()
				switch c.R.Intn(6) {
				case 0:
					leaf = cell.RangeMax()
				case 1:
					leaf = cell.RangeMin().PrevWrap()
				case 2:
					leaf = cell.RangeMax().NextWrap()
				case 3:
					span := uint64(cell.RangeMax()-cell.RangeMin()) / 2
					leaf = cell.RangeMin() + s2.CellID(2*(uint64(c.R.Int63())%(span+1)))
				}
				ll := leaf.LatLng()
				m.index(c, ll.Lat.Degrees(), ll.Lng.Degrees(), g.pool[c.R.Intn(len(g.pool))])
				probes = append(probes, cell)
			}
			var crowdM *pointModel
			var crowdCell s2.CellID
			if n := c.crowd(); n > 0 {
				m := ms[c.R.Intn(len(ms))]
				cell := cells[c.R.Intn(len(cells))]
				spread := c.R.Intn(2) == 0
				for _, id := range crowdIDs(c.R, n) {
					leaf := cell.RangeMin()
					if spread {
						span := uint64(cell.RangeMax()-cell.RangeMin()) / 2
						leaf += s2.CellID(2 * (uint64(c.R.Int63()) % (span + 1)))
					}
					ll := leaf.LatLng()
					m.index(c, ll.Lat.Degrees(), ll.Lng.Degrees(), id)
				}
				for i := 0; i < 3; i++ {
					probes = append(probes, cell)
				}
				crowdM, crowdCell = m, cell
			}
			if b != "gtreap" && c.R.Intn(2) == 0 {
				c.mustClose(s)
				s = c.mustOpen(b, dir, nil, nil)
				for _, m := range ms {
					m.over(s)
				}
			}
			if crowdM != nil {
				crowdM.checkCell(c, crowdCell)
				crowdM.checkCell(c, crowdCell.NextWrap())
				crowdM.checkCell(c, crowdCell.PrevWrap())
			}
			several := false
			for _, m := range ms {
				m.checkStored(c, s)
				ls := m.leaves()
				for i := 0; i < 60; i++ {
					var cell s2.CellID
					switch x := c.R.Intn(5); {
					case x < 2 && len(ls) > 0:
						cell = ls[c.R.Intn(len(ls))].Parent(c.R.Intn(31))
					case x < 4:
						cell = probes[c.R.Intn(len(probes))]
						if c.R.Intn(3) == 0 {
							nb := neighboursOf(cell)
							cell = nb[c.R.Intn(len(nb))]
						}
					default:
						cell = hotSpot(c.R).cell(c.R.Intn(31))
					}
					if m.checkCell(c, cell) > 1 {
						several = true
						c.Count("several ids", 1)
					}
					if i%5 == 0 {
						cs := []s2.CellID{cell}
						for j := 0; j < c.R.Intn(6); j++ {
							x := probes[c.R.Intn(len(probes))]
							if c.R.Intn(3) == 0 {
								x = x.NextWrap()
							}
							cs = append(cs, x)
						}
						cs = cellList(c.R, cs, true)
						if c.R.Intn(12) == 0 {
							cs = nil
						}
						want := map[string]bool{}
						for e := range m.m {
							for _, x := range cs {
								if x.RangeMin() <= e.leaf && e.leaf <= x.RangeMax() {
									want[e.id] = true
								}
							}
						}
						got, err := m.idx(c).GeoIdsAtCells(cs)
						c.Count("multi cell lookups", 1)
						c.Eval(1)
						if err != nil {
							c.Fail("cells error", "GeoIdsAtCells(%v): %v", cs, err)
						}
						if d := diffIDs(got, ones(want)); d != "" {
							c.Fail("cells", "GeoIdsAtCells(%v): %s", cs, d)
						}
					}
				}
			}
			if several {
				c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx))
			}
			if c.Idx < 2 {
				c.Sample(fmt.Sprintf("%d indexes, cells %v", len(ms), cells))
			}
			c.mustClose(s)
		},
	})

	register(&Check{
		ID:     "C20",
		Rule:   "one case is a point index with 80 points inside, within centimetres of the border of, around and far from three discs (centres biased to poles, antimeridian, cube corners and edges; radii from 1 cm to beyond half the circumference), sometimes a crowd of up to 6000 ids most of them at the very same place, and the radius queries compared entry by entry with vector distances, only entries within 1.6 cm (and 1e-9 of the radius) of the border and those inside the area enlargement being left open; non-trivial: entries required and entries forbidden within three radii",
		Need:   []string{"entries required", "entries forbidden nearby", "ids returned", "crowds"},
		Shards: func(th bool) []Shard { return areaShards(th, 1200) },
		Run: func(c *Case) {
			s := c.mustOpen(c.Shard.Backend, c.TempDir(), nil, nil)
			m := newPointModel(s, genPrefixes(c.R, 1)[0])
			g := newIDGen(c.R, 25)
			var areas []*area
			for i := 0; i < 3; i++ {
				r := math.Exp(math.Log(0.01)+c.R.Float64()*math.Log(2.5e9)) / earthR // 1 cm to 25000 km
				if c.R.Intn(4) == 0 {
					r = 0.05 + c.R.Float64()*2
				}
				areas = append(areas, newCap(hotSpot(c.R), r))
			}
			for i := 0; i < 3; i++ {
				// much like another one
				areas = append(areas, c.likeCap(areas[c.R.Intn(len(areas))]))
			}
			for i := 0; i < 80; i++ {
				if i == 30 || i == 55 {
					// also before the last ones are there
					c.queryCap(m, areas[c.R.Intn(len(areas))])
				}
				a := areas[c.R.Intn(len(areas))]
				var p vec
				switch c.R.Intn(9) {
				case 0, 1:
					p = a.inside(c.R)
				case 2:
					p = a.border(c.R, c.R.NormFloat64()*1e-8)
				case 3:
					p = a.border(c.R, c.R.NormFloat64()*a.r*0.01)
				case 4:
					p = a.border(c.R, -c.R.Float64()*a.r*0.1)
				case 5:
					p = a.border(c.R, c.R.Float64()*a.r*3)
				case 6:
					p = hotSpot(c.R)
				case 7:
					// within metres of a border of thousands of kilometres
					p = a.border(c.R, a.r*math.Exp(-c.R.Float64()*20)*float64(1-2*c.R.Intn(2)))
				case 8:
					// just outside what the enlargement leaves open
					p = a.border(c.R, a.enl-a.r+leafTol*2+a.enl*1e-9*math.Exp(c.R.Float64()*10))
				}
				if c.R.Intn(15) == 0 {
					p = a.ctr
				}
				lat, lng := p.deg()
				m.index(c, lat, lng, g.pool[c.R.Intn(len(g.pool))])
			}
			c.gather(m, areas)
			for _, i := range c.R.Perm(len(areas)) {
				c.queryCap(m, areas[i])
			}
			if c.Idx < 2 {
				c.Sample(areas[0].desc)
			}
			c.mustClose(s)
		},
	})

	register(&Check{
		ID:     "C21",
		Rule:   "one case is a point index with 80 points inside, within centimetres of the sides of, around and far from three rectangles (small and large, across the antimeridian, wider than 180 degrees, the whole world, touching poles, degenerate), sometimes a crowd of up to 6000 ids most of them at the very same place, and the rectangle queries compared entry by entry with plain latitude and longitude comparisons, only entries within 2e-7 degrees of a side being left open; non-trivial: entries required and entries forbidden",
		Need:   []string{"entries required", "entries forbidden", "ids returned", "crowds", "wide", "crossing", "polar", "world", "degenerate"},
		Shards: func(th bool) []Shard { return areaShards(th, 1200) },
		Run: func(c *Case) {
			s := c.mustOpen(c.Shard.Backend, c.TempDir(), nil, nil)
			m := newPointModel(s, genPrefixes(c.R, 1)[0])
			g := newIDGen(c.R, 25)
			var areas []*area
			for i := 0; i < 3; i++ {
				r := math.Exp(math.Log(0.05)+c.R.Float64()*math.Log(2e8)) / earthR
				a := newRect(c.R, hotSpot(c.R), math.Min(r, 1.7), math.Min(r*4*c.R.Float64(), 3.2))
				switch c.R.Intn(8) {
				case 0: // wide
					w := 180 + 180*c.R.Float64()
					bl := c.R.Float64()*360 - 180
					a.setLng(bl, bl+w, w)
				case 1: // all longitudes
					a.setLng(-180, 180, 360)
				case 2: // the world
					a.bllat, a.urlat = -90, 90
					a.setLng(-180, 180, 360)
				case 3: // sides on special meridians
					x := []float64{0, 90, -90, 180, -180, 45}
					bl, ur := x[c.R.Intn(6)], x[c.R.Intn(6)]
					if bl == 180 && ur == -180 {
						ur = 180
					}
					a.bllng, a.urlng = bl, ur
					a.wd = math.Mod(ur-bl+720, 360)
					if ur-bl == 360 {
						a.wd = 360
					}
					a.desc = fmt.Sprintf("rect(ur %.12f, %.12f bl %.12f, %.12f)", a.urlat, a.urlng, a.bllat, a.bllng)
				case 4: // degenerate
					switch c.R.Intn(3) {
					case 0:
						a.urlat = a.bllat
					case 1:
						a.urlng, a.wd = a.bllng, 0
					default:
						a.urlat, a.urlng, a.wd = a.bllat, a.bllng, 0
					}
					a.desc = fmt.Sprintf("rect(ur %.12f, %.12f bl %.12f, %.12f)", a.urlat, a.urlng, a.bllat, a.bllng)
					c.Count("degenerate", 1)
				case 5:
					if c.R.Intn(2) == 0 {
						a.urlat = 90
					} else {
						a.bllat = -90
					}
					a.setLng(a.bllng, a.urlng, a.wd)
				}
				if a.wd > 180 {
					c.Count("wide", 1)
				}
				if a.bllng > a.urlng {
					c.Count("crossing", 1)
				}
				if a.urlat == 90 || a.bllat == -90 {
					c.Count("polar", 1)
				}
				if a.wd == 360 && a.urlat == 90 && a.bllat == -90 {
					c.Count("world", 1)
				}
				areas = append(areas, a)
			}
			for i := 0; i < 2; i++ {
				// much like another one
				areas = append(areas, c.likeRect(areas[c.R.Intn(len(areas))]))
			}
			for i := 0; i < 80; i++ {
				if i == 30 || i == 55 {
					// also before the last ones are there
					c.queryRect(m, areas[c.R.Intn(len(areas))])
				}
				a := areas[c.R.Intn(len(areas))]
				hs := (a.urlat - a.bllat) * math.Pi / 180
				var p vec
				switch c.R.Intn(7) {
				case 0, 1:
					p = a.inside(c.R)
				case 2:
					p = a.border(c.R, c.R.NormFloat64()*1e-8)
				case 3:
					p = a.border(c.R, c.R.NormFloat64()*hs*0.01)
				case 4:
					p = a.border(c.R, c.R.NormFloat64()*hs)
				case 5:
					// same longitudes on the other side
					p = fromDeg(a.bllat+(a.urlat-a.bllat)*c.R.Float64(), a.bllng+a.wd+(360-a.wd)*c.R.Float64())
				case 6:
					p = hotSpot(c.R)
				}
				lat, lng := p.deg()
				m.index(c, lat, lng, g.pool[c.R.Intn(len(g.pool))])
			}
			c.gather(m, areas)
			for _, i := range c.R.Perm(len(areas)) {
				c.queryRect(m, areas[i])
			}
			if c.Idx < 2 {
				c.Sample(areas[0].desc)
			}
			c.mustClose(s)
		},
	})

	type timed struct {
		t  int64
		id string
	}
	register(&Check{
		ID:     "C22",
		Rule:   "one case is one or two time indexes of random levels in one store, objects around a hot spot indexed at instants clustered within nanoseconds around hostile ones (the epoch, before 1970, both ends of the range) in random time zones under hostile ids, sometimes a crowd of up to 6000 entries in one cell, and lookups with windows at and one nanosecond around these instants, compared in order with a model of (instant, id) per cell; non-trivial: a window had to return some of the entries of a cell and leave out others",
		Assume: []string{"the covering of an object is what GeoData.Cover computes (C17, C32, C33 judge that)", "instants outside the range representable as nanoseconds around the epoch are not used"},
		Need:   []string{"cell lookups", "multi cell lookups", "partial windows", "before 1970", "crowds"},
		Shards: func(th bool) []Shard { return shardsPerBackend(allBackends, 2, 160, th, 25) },
		Run: func(c *Case) {
			b := c.Shard.Backend
			dir := c.TempDir()
			s := c.mustOpen(b, dir, nil, nil)
			type tm struct {
				two    [2]*index.S2FlatTimeIdx
				prefix []byte
				level  int
				cells  map[s2.CellID]map[timed]bool
			}
			var ms []*tm
			for _, p := range genPrefixes(c.R, 1+c.R.Intn(2)) {
				l := c.R.Intn(31)
				ms = append(ms, &tm{prefix: p, level: l, cells: map[s2.CellID]map[timed]bool{}})
			}
			over := func() {
				for _, m := range ms {
					for i := range m.two {
						m.two[i] = index.NewS2FlatTimeIdx(s, roomy(m.prefix), m.level)
					}
				}
			}
			over()
			ig := newInstants(c.R)
			ctr := hotSpot(c.R)
			g := newIDGen(c.R, 2+c.R.Intn(8), ctr.cell(ms[0].level))
			for i := 0; i < 4; i++ { // ids that look like instants
				g.pool = append(g.pool, string(be8(uint64(math.MaxInt64-ig.pick(c.R)))))
			}
			for i := 0; i < 20+c.R.Intn(20); i++ {
				m := ms[c.R.Intn(len(ms))]
				p := newFrame(ctr).at(c.R.NormFloat64()*cellSize(m.level)*0.3, c.R.NormFloat64()*cellSize(m.level)*0.3)
				sh := genShape(c.R, p, math.Min(1, cellSize(m.level)*c.R.Float64()*1.5))
				cu := c.coverOf(sh.gd, m.level)
				e := timed{ig.pick(c.R), g.pool[c.R.Intn(len(g.pool))]}
				t := inZone(c.R, e.t)
				c.Logf("index %q level %d: GeoTimeIndex(%s, %d, %s)", m.prefix, m.level, sh, e.t, q([]byte(e.id)))
				if err := m.two[c.R.Intn(2)].GeoTimeIndex(sh.gd, t, index.GeoID(e.id)); err != nil {
					c.Fail("index", "GeoTimeIndex(%s, %d): %v", sh, e.t, err)
				}
				for _, x := range cu {
					if m.cells[x] == nil {
						m.cells[x] = map[timed]bool{}
					}
					m.cells[x][e] = true
				}
				if e.t < 0 {
					c.Count("before 1970", 1)
				}
			}
			if n := c.crowd(); n > 0 {
				m := ms[c.R.Intn(len(ms))]
				lat, lng := ctr.deg()
				gd := pointGD(lat, lng)
				cu := c.coverOf(gd, m.level)
				ids := g.pool
				if c.R.Intn(2) == 0 {
					ids = crowdIDs(c.R, n)
				}
				for i := 0; i < n; i++ {
					e := timed{ig.pick(c.R), ids[c.R.Intn(len(ids))]}
					if c.R.Intn(2) == 0 { // a recorded track
						e.t = satAdd(ig.pool[0], int64(i)*1e9)
					}
					c.Logf("index %q level %d: GeoTimeIndex(point %v %v, %d, %s)", m.prefix, m.level, lat, lng, e.t, q([]byte(e.id)))
					if err := m.two[c.R.Intn(2)].GeoTimeIndex(gd, inZone(c.R, e.t), index.GeoID(e.id)); err != nil {
						c.Fail("index", "GeoTimeIndex(%s, %d): %v", q([]byte(e.id)), e.t, err)
					}
					for _, x := range cu {
						if m.cells[x] == nil {
							m.cells[x] = map[timed]bool{}
						}
						m.cells[x][e] = true
					}
					if i%64 == 0 {
						c.Tick()
					}
				}
			}
			if b != "gtreap" && c.R.Intn(2) == 0 {
				c.mustClose(s)
				s = c.mustOpen(b, dir, nil, nil)
				over()
			}
			for _, m := range ms {
				var cells []s2.CellID
				for x := range m.cells {
					cells = append(cells, x)
				}
				sort.Slice(cells, func(i, j int) bool { return cells[i] < cells[j] })
				for i := 0; i < 60; i++ {
					cell := hotSpot(c.R).cell(m.level)
					if len(cells) > 0 {
						cell = cells[c.R.Intn(len(cells))]
						if c.R.Intn(6) == 0 {
							nb := neighboursOf(cell)
							cell = nb[c.R.Intn(len(nb))]
						}
					}
					from, to := ig.window(c.R)
					var want []timed
					out := 0
					for e := range m.cells[cell] {
						if to < e.t && e.t <= from {
							want = append(want, e)
						} else {
							out++
						}
					}
					if len(want) > 0 && out > 0 {
						c.Count("partial windows", 1)
						c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx))
					}
					var f, t time.Time = inZone(c.R, from), inZone(c.R, to)
					got, err := m.two[c.R.Intn(2)].GeoTimeIdsAtCell(cell, f, t)
					c.Tick()
					c.Eval(1)
					c.Count("cell lookups", 1)
					if err != nil {
						c.Fail("cell error", "GeoTimeIdsAtCell(%s, %d, %d): %v", cell, from, to, err)
					}
					wm := map[string]int{}
					for _, e := range want {
						wm[e.id]++
					}
					if d := diffIDs(got, wm); d != "" {
						c.Fail("cell", "index %q level %d GeoTimeIdsAtCell(%s, %d, %d): %s", m.prefix, m.level, cell.ToToken(), from, to, d)
					}
					// newest first: the ids of one instant in any order
					sort.Slice(want, func(i, j int) bool { return want[i].t > want[j].t })
					for j := 0; j < len(want); {
						k := j
						grp := map[string]int{}
						for ; k < len(want) && want[k].t == want[j].t; k++ {
							grp[want[k].id]++
						}
						if d := diffIDs(got[j:k], grp); d != "" {
							c.Fail("order", "GeoTimeIdsAtCell(%s, %d, %d): results %d to %d should be the ids of instant %d: %s", cell.ToToken(), from, to, j, k, want[j].t, d)
						}
						j = k
					}
					if i%5 == 0 {
						cs := []s2.CellID{cell}
						for j := 0; j < c.R.Intn(6) && len(cells) > 0; j++ {
							cs = append(cs, cells[c.R.Intn(len(cells))])
						}
						cs = cellList(c.R, cs, false)
						wu := map[string]bool{}
						for _, x := range cs {
							for e := range m.cells[x] {
								if to < e.t && e.t <= from {
									wu[e.id] = true
								}
							}
						}
						got, err := m.two[c.R.Intn(2)].GeoTimeIdsAtCells(cs, f, t)
						c.Eval(1)
						c.Count("multi cell lookups", 1)
						if err != nil {
							c.Fail("cells error", "GeoTimeIdsAtCells(%v): %v", cs, err)
						}
						if d := diffIDs(got, ones(wu)); d != "" {
							c.Fail("cells", "GeoTimeIdsAtCells(%v, %d, %d): %s", cs, from, to, d)
						}
					}
				}
			}
			if c.Idx < 2 {
				c.Sample(fmt.Sprintf("level %d, instants %v", ms[0].level, ig.pool))
			}
			c.mustClose(s)
		},
	})
}
