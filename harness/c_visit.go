package main

import (
	"fmt"
	"math"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/store"
	"github.com/golang/geo/s2"
)

// visitStore records which keys are read through it.
type visitStore struct {
	store.KVStore
	on     bool
	visits map[string]int
	moves  int // iterators made and seeks
}

func (v *visitStore) see(k []byte) {
	if v.on {
		v.visits[string(k)]++
	}
}

func (v *visitStore) Reader() (store.KVReader, error) {
	r, err := v.KVStore.Reader()
	if err != nil {
		return r, err
	}
	return &visitReader{r, v}, nil
}

type visitReader struct {
	store.KVReader
	v *visitStore
}

func (r *visitReader) Get(k []byte) ([]byte, error) {
	r.v.see(k)
	return r.KVReader.Get(k)
}

func (r *visitReader) MultiGet(ks [][]byte) ([][]byte, error) {
	for _, k := range ks {
		r.v.see(k)
	}
	return r.KVReader.MultiGet(ks)
}

func (r *visitReader) it(i store.KVIterator) store.KVIterator {
	x := &visitIter{i, r.v}
	if r.v.on {
		r.v.moves++
	}
	x.here()
	return x
}

func (r *visitReader) PrefixIterator(p []byte) store.KVIterator {
	return r.it(r.KVReader.PrefixIterator(p))
}

func (r *visitReader) RangeIterator(a, b []byte) store.KVIterator {
	return r.it(r.KVReader.RangeIterator(a, b))
}

type visitIter struct {
	store.KVIterator
	v *visitStore
}

func (i *visitIter) here() {
	if i.v.on && i.Valid() {
		i.v.see(i.Key())
	}
}

func (i *visitIter) Next() {
	i.KVIterator.Next()
	i.here()
}

func (i *visitIter) Seek(k []byte) {
	i.KVIterator.Seek(k)
	if i.v.on {
		i.v.moves++
	}
	i.here()
}

func init() {
	register(&Check{
		ID:     "C43",
		Rule:   "one case fills a store, wrapped so that every key an iterator stands on and every key looked up is recorded, with objects of one index at the place and in the window asked about, and with hundreds of others: elsewhere (for lookups of cells: in any other cell, neighbours included; for areas: further than thirty times their size), at instants outside the window, of other indexes, and unrelated keys around the prefix. Which keys belong to the others is told by the store's content before and after adding them. A query (every kind, lists of cells included) may stand on at most two of the others for each iterator made and seek done, and on every other entry at most once for each cell listed (four times for areas). Non-trivial: a query which returned ids while others were stored, by case and query.",
		Need:   []string{"queries watched", "entries visited", "others stored", "answers with ids", "GeoIdsAtCell", "GeoIdsAtCells", "GeoIdsRadiusQuery", "GeoIdsRectQuery", "GeoTimeIdsAtCell", "GeoTimeIdsAtCells", "GeoTimeIdsRadiusQuery", "GeoTimeIdsRectQuery"},
		Shards: func(th bool) []Shard { return shardsPerBackend(allBackends, 2, 500, th, 30) },
		Run:    runC43,
	})
}

func runC43(c *Case) {
	b := c.Shard.Backend
	dir := ""
	if backendOf(b).disk {
		dir = c.TempDir()
	}
	s := c.mustOpen(b, dir, nil, nil)
	vs := &visitStore{KVStore: s}
	ps := genPrefixes(c.R, 2)
	sp := genSpec(c.R, ps[0])
	sp.level = 4 + c.R.Intn(27)
	other := genSpec(c.R, ps[1])
	other.level = sp.level
	in, oin := sp.over(vs), other.over(vs)
	spot := hotSpot(c.R)
	level := sp.level
	if sp.kind == "point" {
		level = c.R.Intn(31)
	}
	f := newFrame(spot)
	cs := cellSize(level)

	// what will be asked
	var cells []s2.CellID
	var a *area
	what := c.R.Intn(4)
	if sp.kind == "flat" {
		what = c.R.Intn(3)
	}
	switch what {
	case 0:
		cells = []s2.CellID{spot.cell(level)}
	case 1:
		cells = []s2.CellID{spot.cell(level)}
		for i := 0; i < c.R.Intn(5); i++ {
			nb := neighboursOf(cells[c.R.Intn(len(cells))])
			cells = append(cells, nb[c.R.Intn(len(nb))])
		}
		cells = cellList(c.R, cells, sp.kind == "point")
	case 2:
		a = newCap(spot, math.Min(0.05, cs*4*c.R.Float64()))
	case 3:
		if lat, _ := spot.deg(); math.Abs(lat) > 75 {
			spot = fromDeg(60*c.R.Float64(), 360*c.R.Float64()-180)
			f = newFrame(spot)
		}
		sz := math.Min(0.05, cs*4*c.R.Float64())
		a = newRect(c.R, spot, sz, sz)
	}
	size := 0.0
	if a != nil {
		size = 0.05
		if what == 2 {
			size = a.r
		} else {
			size = 2 * math.Min(0.05, math.Max(1e-9, f.c.angle(fromDeg(a.urlat, a.urlng))))
		}
	}
	ig := newInstants(c.R)
	from, to := ig.window(c.R)
	if from == to {
		from = satAdd(from, 1)
	}
	fr, tt := inZone(c.R, from), inZone(c.R, to)

	nid := 0
	index1 := func(x *idxInst, p vec, ts int64) {
		nid++
		id := index.GeoID(fmt.Sprintf("id%d", nid))
		lat, lng := p.deg()
		gd := pointGD(lat, lng)
		var err error
		switch x.kind {
		case "flat":
			err = x.fi.GeoIndex(gd, id)
		case "point":
			_, err = x.pi.GeoPointIndex(gd, id)
		case "time":
			err = x.ti.GeoTimeIndex(gd, inZone(c.R, ts), id)
		}
		if err != nil {
			c.Fail("index", "%s: %v", x.idxSpec, err)
		}
	}
	inWindow := func(ts int64) bool { return to < ts && ts <= from }
	pickIn := func() int64 {
		for i := 0; i < 50; i++ {
			if ts := ig.pick(c.R); inWindow(ts) {
				return ts
			}
		}
		return from
	}
	near := func() vec {
		if a != nil {
			r := size * c.R.Float64()
			t := 2 * math.Pi * c.R.Float64()
			return f.at(r*math.Cos(t), r*math.Sin(t))
		}
		x := cells[c.R.Intn(len(cells))]
		if x.IsLeaf() {
			return leafVec(x)
		}
		cell := s2.CellFromCellID(x)
		bound := cell.RectBound()
		for i := 0; i < 20; i++ {
			ll := s2.LatLngFromDegrees(bound.Lo().Lat.Degrees()+c.R.Float64()*bound.Size().Lat.Degrees(), bound.Lo().Lng.Degrees()+c.R.Float64()*bound.Size().Lng.Degrees())
			if cell.ContainsPoint(s2.PointFromLatLng(ll)) {
				return fromDeg(ll.Lat.Degrees(), ll.Lng.Degrees())
			}
		}
		return leafVec(x)
	}
	// far tells that nothing at p is asked about
	far := func(p vec) bool {
		if a != nil {
			return p.angle(spot) > 30*size+6*maxDiag(level)*float64(b2i(sp.kind != "point"))+5000/earthR
		}
		for _, l := range near9(p) {
			for _, x := range cells {
				if x.Contains(l.cell(30)) {
					return false
				}
			}
		}
		return true
	}
	for i := 1 + c.R.Intn(12); i > 0; i-- {
		index1(in, near(), pickIn())
	}
	before := c.content(s)
	others := 0
	cands := 150
	if b == "badger" || b == "boltdb" {
		cands = 60
	}
	for i := 0; i < cands; i++ {
		p := randVec(c)
		switch c.R.Intn(3) {
		case 0:
			d := cs * (1 + 20*c.R.Float64())
			t := 2 * math.Pi * c.R.Float64()
			p = f.at(d*math.Cos(t), d*math.Sin(t))
		case 1:
			if len(cells) > 0 {
				nb := neighboursOf(cells[c.R.Intn(len(cells))])
				p = leafVec(nb[c.R.Intn(len(nb))])
			}
		}
		if far(p) {
			index1(in, p, pickIn())
			others++
		}
		if sp.kind == "time" {
			// there, at another time
			ts := ig.pick(c.R)
			if c.R.Intn(2) == 0 {
				ts = int64(c.R.Uint64())
			}
			if !inWindow(ts) {
				index1(in, near(), ts)
				others++
			}
		}
		if c.R.Intn(2) == 0 {
			index1(oin, near(), pickIn())
			others++
		}
	}
	var ops []kvop
	for i := 0; i < 100; i++ {
		// around the prefix
		k := append([]byte(nil), sp.prefix...)
		k[len(k)-1] += byte(c.R.Intn(5) - 2)
		if string(k) == string(sp.prefix) {
			k = k[:len(k)-1]
		}
		x := make([]byte, c.R.Intn(20))
		c.R.Read(x)
		k = append(k, x...)
		if len(k) > 0 && !hasPrefix(k, sp.prefix) && !hasPrefix(k, other.prefix) && !hasPrefix(k, []byte("!badger!")) {
			ops = append(ops, kvop{opSet, k, []byte("x")})
		}
	}
	c.exec(s, ops)
	full := c.content(s)
	c.Count("others stored", others+len(ops))
	c.Logf("%s, %d entries about the place and time, %d others", sp, len(before), len(full)-len(before))

	vs.on, vs.visits, vs.moves = true, map[string]int{}, 0
	var got []index.GeoID
	var err error
	name := ""
	switch sp.kind {
	case "flat", "point":
		name = []string{"GeoIdsAtCell", "GeoIdsAtCells", "GeoIdsRadiusQuery", "GeoIdsRectQuery"}[what]
		fl := sp.kind == "flat"
		switch what {
		case 0:
			if fl {
				got, err = in.fi.GeoIdsAtCell(cells[0])
			} else {
				got, err = in.pi.GeoIdsAtCell(cells[0])
			}
		case 1:
			if fl {
				got, err = in.fi.GeoIdsAtCells(cells)
			} else {
				got, err = in.pi.GeoIdsAtCells(cells)
			}
		case 2:
			if fl {
				got, err = in.fi.GeoIdsRadiusQuery(a.lat, a.lng, a.radius)
			} else {
				got, err = in.pi.GeoIdsRadiusQuery(a.lat, a.lng, a.radius)
			}
		case 3:
			got, err = in.pi.GeoIdsRectQuery(a.urlat, a.urlng, a.bllat, a.bllng)
		}
	case "time":
		name = []string{"GeoTimeIdsAtCell", "GeoTimeIdsAtCells", "GeoTimeIdsRadiusQuery", "GeoTimeIdsRectQuery"}[what]
		switch what {
		case 0:
			got, err = in.ti.GeoTimeIdsAtCell(cells[0], fr, tt)
		case 1:
			got, err = in.ti.GeoTimeIdsAtCells(cells, fr, tt)
		case 2:
			got, err = in.ti.GeoTimeIdsRadiusQuery(fr, tt, a.lat, a.lng, a.radius)
		case 3:
			got, err = in.ti.GeoTimeIdsRectQuery(fr, tt, a.urlat, a.urlng, a.bllat, a.bllng)
		}
	}
	vs.on = false
	desc := fmt.Sprintf("%s %s", sp, name)
	if a != nil {
		desc += " " + a.desc
	} else {
		desc += fmt.Sprintf(" of %d cells, first %s", len(cells), cells[0].ToToken())
	}
	if sp.kind == "time" {
		desc += fmt.Sprintf(" window %d %d", from, to)
	}
	c.Logf("%s", desc)
	if err != nil {
		c.Fail("query", "%s: %v", desc, err)
	}
	most := 4
	if a == nil {
		most = len(cells)
	}
	nothers, total := 0, 0
	example := ""
	for k, n := range vs.visits {
		total += n
		if _, ok := before[k]; ok {
			if n > most {
				c.Fail("again", "%s: the query read the entry %s %d times", desc, q([]byte(k)), n)
			}
			continue
		}
		if _, ok := full[k]; ok {
			nothers += n
			example = k
		}
	}
	if nothers > 2*vs.moves {
		c.Fail("reads", "%s: the query read %d entries (with repetitions, out of %d) that are not about the place, time or index asked about, with %d iterators and seeks, %s for example; %d ids were to be found", desc, nothers, len(full)-len(before), vs.moves, q([]byte(example)), len(got))
	}
	c.Eval(1)
	c.Count("queries watched", 1)
	c.Count(name, 1)
	c.Count("entries visited", total)
	c.Count("iterators and seeks", vs.moves)
	c.Count("others visited", nothers)
	if len(got) > 0 && others > 0 {
		c.Count("answers with ids", 1)
		c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx))
	}
	if c.Idx < 2 {
		c.Sample(fmt.Sprintf("%s: %d ids, read %d entries out of %d", desc, len(got), total, len(full)))
	}
	c.mustClose(s)
}

func leafVec(x s2.CellID) vec {
	p := x.Point()
	return vec{p.X, p.Y, p.Z}.unit()
}

// near9 is p and points a few centimetres around it.
func near9(p vec) []vec { return append(near(p, 5e-9), p) }

func randVec(c *Case) vec {
	return vec{c.R.NormFloat64(), c.R.NormFloat64(), c.R.NormFloat64()}.unit()
}
