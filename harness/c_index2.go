package main

import (
	"fmt"
	"math"
	"math/rand"
	"time"

	"github.com/akhenakh/oureadb/index"
	"github.com/golang/geo/s2"
)

// area is a region queried, with independent geometry.
type area struct {
	desc string
	// a cap
	ctr    vec
	r      float64 // radians, as asked
	enl    float64 // radians, with the enlargement of the area approximation
	radius float64
	lat    float64
	lng    float64
	// a rect
	rect                           bool
	urlat, urlng, bllat, bllng, wd float64 // wd: width going east in degrees
}

func capEnlarged(r float64) float64 {
	if r >= 2 {
		return math.Pi
	}
	return 2 * math.Asin(r/2)
}

func newCap(ctr vec, r float64) *area {
	a := &area{ctr: ctr}
	a.lat, a.lng = ctr.deg()
	a.ctr = fromDeg(a.lat, a.lng)
	a.radius = r * earthR
	a.r = r
	a.enl = capEnlarged(r)
	a.desc = fmt.Sprintf("radius(%.12f, %.12f, %g m)", a.lat, a.lng, a.radius)
	return a
}

// newRect draws a rect of about the given half height and half width (radians on the ground).
func newRect(r *rand.Rand, ctr vec, hh, hw float64) *area {
	a := &area{rect: true}
	lat, lng := ctr.deg()
	deg := 180 / math.Pi
	a.bllat, a.urlat = math.Max(-90, lat-hh*deg), math.Min(90, lat+hh*deg)
	w := 180.0
	if m := math.Min(math.Cos(a.bllat/deg), math.Cos(a.urlat/deg)); hw*deg < 180*m {
		w = hw * deg / m
	} else if r.Intn(2) == 0 { // around the pole, but not all of it
		w = 180 * r.Float64()
	}
	a.setLng(lng-w, lng+w, 2*w)
	return a
}

func wrapLng(x float64) float64 {
	for x > 180 {
		x -= 360
	}
	for x < -180 {
		x += 360
	}
	return x
}

func (a *area) setLng(bl, ur, w float64) {
	if w >= 360 {
		a.bllng, a.urlng, a.wd = -180, 180, 360
	} else {
		a.bllng, a.urlng = wrapLng(bl), wrapLng(ur)
		a.wd = a.urlng - a.bllng
		if a.wd < 0 {
			a.wd += 360
		}
	}
	a.desc = fmt.Sprintf("rect(ur %.12f, %.12f bl %.12f, %.12f)", a.urlat, a.urlng, a.bllat, a.bllng)
}

// excess is how far in degrees a longitude lies outside of the rect, negative inside.
func (a *area) excess(lng float64) float64 {
	if a.wd >= 360 {
		return -360
	}
	d := math.Mod(lng-a.bllng, 360)
	if d < 0 {
		d += 360
	}
	// d in [0, 360): distance east of the west side
	if d <= a.wd {
		return -math.Min(d, a.wd-d)
	}
	return math.Min(d-a.wd, 360-d)
}

// in tells whether p is inside with a margin of eps radians, certainly.
func (a *area) in(p vec, eps float64) bool {
	if !a.rect {
		return p.angle(a.ctr) <= a.r-eps
	}
	lat, lng := p.deg()
	e := eps * 180 / math.Pi
	// near a pole of the rect the longitude means nothing
	if lat > a.urlat-e && a.urlat < 90 || lat < a.bllat+e && a.bllat > -90 {
		return false
	}
	c := math.Cos(lat * math.Pi / 180)
	if a.wd >= 360 {
		return true
	}
	return a.excess(lng)*c <= -e
}

// dist is the angle from p to the area, from below.
func (a *area) dist(p vec) float64 {
	if !a.rect {
		return math.Max(0, p.angle(a.ctr)-a.enl)
	}
	lat, lng := p.deg()
	if lat <= a.urlat && lat >= a.bllat && a.excess(lng) <= 0 {
		return 0
	}
	best := math.Inf(1)
	for _, l := range []float64{a.urlat, a.bllat} {
		x := lng
		if a.excess(lng) > 0 {
			// the nearer end of the parallel
			x = a.bllng
			if math.Abs(wrapLng(lng-a.urlng)) < math.Abs(wrapLng(lng-a.bllng)) {
				x = a.urlng
			}
		}
		best = math.Min(best, p.angle(fromDeg(l, x)))
	}
	for _, x := range []float64{a.urlng, a.bllng} {
		m := (a.urlat + a.bllat) / 2
		best = math.Min(best, arcDistance(p, fromDeg(a.bllat, x), fromDeg(m, x)))
		best = math.Min(best, arcDistance(p, fromDeg(m, x), fromDeg(a.urlat, x)))
	}
	return best
}

// reach is the angle around the shape's frame centre which holds all of it.
func (s *shape) reach() float64 {
	m := 0.0
	for _, v := range s.verts {
		m = math.Max(m, s.fr.c.angle(v))
	}
	return m
}

// distFrom bounds the distance from the shape to the area from below.
func (a *area) distFrom(s *shape) float64 {
	if s.kind == "point" {
		return a.dist(s.verts[0])
	}
	if !a.rect {
		return math.Max(0, s.distance(a.ctr)-a.enl)
	}
	return a.dist(s.fr.c) - s.reach()
}

// border draws a point on or near the border of the area.
func (a *area) border(r *rand.Rand, off float64) vec {
	if !a.rect {
		f := newFrame(a.ctr)
		b := r.Float64() * 2 * math.Pi
		d := math.Max(0, a.r+off)
		t := f.e.mul(math.Cos(b)).add(f.n.mul(math.Sin(b)))
		return a.ctr.mul(math.Cos(d)).add(t.mul(math.Sin(d))).unit()
	}
	deg := 180 / math.Pi
	lat := a.bllat + (a.urlat-a.bllat)*r.Float64()
	lng := a.bllng + a.wd*r.Float64()
	switch r.Intn(4) {
	case 0:
		lat = math.Min(90, a.urlat+off*deg)
	case 1:
		lat = math.Max(-90, a.bllat-off*deg)
	case 2:
		lng = a.bllng - off*deg/math.Max(1e-3, math.Cos(lat/deg))
	case 3:
		lng = a.bllng + a.wd + off*deg/math.Max(1e-3, math.Cos(lat/deg))
	}
	return fromDeg(lat, lng)
}

// inside draws a point of the area.
func (a *area) inside(r *rand.Rand) vec {
	if !a.rect {
		return a.border(r, -a.r*r.Float64())
	}
	return fromDeg(a.bllat+(a.urlat-a.bllat)*r.Float64(), a.bllng+a.wd*r.Float64())
}

// nearArea draws a centre for an object: inside, at the border, around or far.
func (c *Case) nearArea(a *area, unit float64) vec {
	switch c.R.Intn(6) {
	case 0, 1:
		return a.inside(c.R)
	case 2, 3:
		return a.border(c.R, c.R.NormFloat64()*unit)
	case 4:
		return a.border(c.R, math.Abs(c.R.NormFloat64())*5*unit)
	}
	return hotSpot(c.R)
}

type areaObj struct {
	sh *shape
	id string
	ts []int64 // instants indexed
	on *area   // rect without width or height with this point on it
}

// crowdOf adds now and then many ids for one of the objects.
func (c *Case) crowdOf(objs []*areaObj) []*areaObj {
	if c.R.Intn(4) > 0 {
		return objs
	}
	if n := c.crowd(); n > 0 {
		o := objs[c.R.Intn(len(objs))]
		known := map[string]bool{}
		for _, x := range objs {
			known[x.id] = true
		}
		for _, id := range crowdIDs(c.R, n/2) {
			if !known[id] {
				objs = append(objs, &areaObj{sh: o.sh, id: id, on: o.on})
			}
		}
	}
	return objs
}

// judge compares the ids returned for an area with what has to be there.
func (c *Case) judge(a *area, level int, objs []*areaObj, got []index.GeoID, inWindow func(*areaObj) bool, what string) {
	counts := idCounts(got)
	known := map[string]bool{}
	must, mustNot := 0, 0
	byID := map[string][]*areaObj{}
	for _, o := range objs {
		byID[o.id] = append(byID[o.id], o)
		known[o.id] = true
	}
	for id, n := range counts {
		if n != 1 || !known[id] {
			c.Fail("repeated", "%s %s level %d returned %s %d times (indexed: %v)", what, a.desc, level, q([]byte(id)), n, known[id])
		}
	}
	far := 2 * maxDiag(level) * 1.000001
	for id, os := range byID {
		possible := false
		for _, o := range os {
			if !inWindow(o) {
				continue
			}
			hit, hw := vec{}, ""
			if o.on == a {
				hit, hw = o.sh.verts[0], "point, on the line,"
				c.Count("points on rects without width or height", 1)
			}
			for _, v := range o.sh.verts {
				if a.in(v, 1e-13) {
					hit, hw = v, "vertex"
				}
			}
			for i := 0; i < 12 && hw == "" && len(o.sh.edges) > 0; i++ {
				if p, w := o.sh.sample(c.R); a.in(p, 1e-13) {
					hit, hw = p, w
				}
			}
			// a point of the area inside the object
			for i := 0; i < 6 && hw == "" && len(o.sh.rings) > 0; i++ {
				p := a.inside(c.R)
				if a.in(p, 1e-13) && o.sh.contains(p, o.sh.size*1e-6) {
					hit, hw = p, "interior point"
				}
			}
			if hw != "" {
				must++
				if counts[id] == 0 {
					lat, lng := hit.deg()
					c.Fail("missed", "%s %s level %d missed %s: its %s %.12f,%.12f lies inside; object %s", what, a.desc, level, q([]byte(id)), hw, lat, lng, o.sh)
				}
			}
			if a.distFrom(o.sh) <= far+1e-9 {
				possible = true
			}
		}
		if !possible {
			mustNot++
			if counts[id] > 0 {
				c.Fail("too far", "%s %s level %d (cell diagonal %g rad) returned %s which is outside of the area or the window: %s, %g rad from the area", what, a.desc, level, maxDiag(level), q([]byte(id)), os[0].sh, a.distFrom(os[0].sh))
			}
		}
	}
	c.Count("required ids", must)
	c.Count("forbidden ids", mustNot)
	c.Eval(1)
	c.Count("queries", 1)
	if must > 0 && mustNot > 0 {
		c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx))
	}
}

// drawArea draws an area whose covering at the level has a bounded size.
func (c *Case) drawArea(level int, rects bool) *area {
	ctr := hotSpot(c.R)
	cs := cellSize(level)
	r := cs * math.Exp(c.R.Float64()*math.Log(250)) * 0.05 // 0.05 to 12 cells
	switch c.R.Intn(36) {
	case 0, 1, 2:
		r = cs * 1e-3 * c.R.Float64()
	case 3: // thousands of cells
		r = math.Min(1, cs*(12+30*c.R.Float64()))
	}
	if !rects {
		if level <= 4 && c.R.Intn(4) == 0 { // continents and more
			r = c.R.Float64() * 2.2
		}
		return newCap(ctr, r)
	}
	a := newRect(c.R, ctr, math.Min(r, 1.7), math.Min(r*2*c.R.Float64(), 3.2))
	if c.R.Intn(8) == 0 { // no width or no height
		l := math.Min(170, math.Exp(c.R.Float64()*math.Log(1000))*cs*180/math.Pi)
		if c.R.Intn(2) == 0 {
			a.bllat = math.Max(-89.9, math.Min(89.9, a.bllat))
			a.urlat = math.Min(89.9, a.bllat+l)
			a.setLng(a.bllng, a.bllng, 0)
		} else {
			a.bllat = math.Max(-85, math.Min(85, a.bllat))
			a.urlat = a.bllat
			a.setLng(a.bllng, a.bllng+l, l)
		}
		return a
	}
	if level <= 4 && c.R.Intn(3) == 0 { // large ones
		lo, hi := c.R.Float64()*180-90, c.R.Float64()*180-90
		if lo > hi {
			lo, hi = hi, lo
		}
		switch c.R.Intn(5) {
		case 0:
			lo = -90
		case 1:
			hi = 90
		case 2:
			lo, hi = -90, 90
		}
		a.bllat, a.urlat = lo, hi
		w := 360 * c.R.Float64()
		if c.R.Intn(4) == 0 {
			w = 360
		}
		bl := c.R.Float64()*360 - 180
		a.setLng(bl, bl+w, w)
	}
	return a
}

func (c *Case) drawObjects(areas []*area, level, n int) []*areaObj {
	g := newIDGen(c.R, n)
	var objs []*areaObj
	for i := 0; i < n; i++ {
		a := areas[c.R.Intn(len(areas))]
		sh := c.smallShape(c.nearArea(a, cellSize(level)), level)
		objs = append(objs, &areaObj{sh: sh, id: g.pool[i]})
	}
	for _, a := range areas {
		if a.rect && (a.wd == 0 || a.urlat == a.bllat) {
			lat, lng := a.bllat+(a.urlat-a.bllat)*c.R.Float64(), a.bllng
			if a.wd > 0 {
				lng = wrapLng(a.bllng + a.wd*c.R.Float64())
				if a.excess(lng) > 0 {
					continue
				}
			}
			v := fromDeg(lat, lng)
			id := g.pool[c.R.Intn(len(g.pool))] + "on"
			if len(id) < 60000 {
				objs = append(objs, &areaObj{sh: &shape{kind: "point", fr: newFrame(v), gd: pointGD(lat, lng), verts: []vec{v}}, id: id, on: a})
			}
		}
	}
	c.R.Shuffle(len(objs), func(i, j int) { objs[i], objs[j] = objs[j], objs[i] })
	return objs
}

func areaShards(th bool, n int) []Shard {
	if th {
		n *= 30
	}
	var r []Shard
	for i := 0; i < 8; i++ {
		r = append(r, Shard{Name: fmt.Sprintf("gtreap-%d", i), Backend: "gtreap", N: n})
	}
	return append(r, Shard{Name: "boltdb-0", Backend: "boltdb", N: n / 6}, Shard{Name: "goleveldb-0", Backend: "goleveldb", N: n / 6}, Shard{Name: "badger-0", Backend: "badger", N: n / 20})
}

func init() {
	register(&Check{
		ID:     "C18",
		Rule:   "one case is a flat index of a random level 0-30, used through two index objects in turn, with 15 objects placed inside, at the border of, around and far from three discs (centres biased to poles, antimeridian, cube corners; radii from a thousandth of a cell to the whole globe at coarse levels), sometimes one of them under up to 3000 ids, and the three radius queries; every object with a sampled point inside must be returned exactly once, none beyond the radius plus two cell diagonals; non-trivial: a query with required and forbidden ids",
		Need:   []string{"required ids", "forbidden ids", "crowds"},
		Shards: func(th bool) []Shard { return areaShards(th, 700) },
		Run: func(c *Case) {
			level := c.R.Intn(31)
			s := c.mustOpen(c.Shard.Backend, c.TempDir(), nil, nil)
			var two [2]*index.S2FlatIdx
			for i := range two {
				two[i] = index.NewS2FlatIdx(s, roomy([]byte("F")), level)
			}
			idx := two[0]
			var areas []*area
			for i := 0; i < 2; i++ {
				areas = append(areas, c.drawArea(level, false))
			}
			areas = append(areas, c.likeCap(areas[c.R.Intn(2)]))
			objs := c.crowdOf(c.drawObjects(areas, level, 15))
			query := func(a *area, objs []*areaObj) {
				idx = two[c.R.Intn(2)]
				c.Logf("query %s", a.desc)
				got, err := idx.GeoIdsRadiusQuery(a.lat, a.lng, a.radius)
				if err != nil {
					c.Fail("query", "%s at level %d: %v", a.desc, level, err)
				}
				c.judge(a, level, objs, got, func(*areaObj) bool { return true }, "flat index")
			}
			for i, o := range objs {
				if i == 8 {
					// also before the last ones are there
					query(areas[c.R.Intn(3)], objs[:i])
				}
				idx = two[c.R.Intn(2)]
				c.Logf("level %d GeoIndex(%s, %s)", level, o.sh, q([]byte(o.id)))
				if err := idx.GeoIndex(o.sh.gd, index.GeoID(o.id)); err != nil {
					c.Fail("index", "GeoIndex(%s): %v", o.sh, err)
				}
			}
			for _, a := range areas {
				query(a, objs)
			}
			c.Seen("level", fmt.Sprint(level))
			if c.Idx < 2 {
				c.Sample(fmt.Sprintf("level %d %s", level, areas[0].desc))
			}
			c.mustClose(s)
		},
	})

	register(&Check{
		ID:     "C23",
		Rule:   "one case is a time index of a random level 0-30, used through two index objects in turn, with 15 objects placed inside, at the border of, around and far from four areas (two discs, two rectangles, also across the antimeridian, at poles, wider than 180 degrees, without width or height with points on them), each indexed at one to three instants, sometimes one of them under up to 3000 ids, and the four queries with windows at and around these instants; every id with a sampled point inside and an instant inside the window must be returned exactly once, none indexed only outside the window or lying further than two cell diagonals from the area; non-trivial: a query with required and forbidden ids",
		Need:   []string{"required ids", "forbidden ids", "crowds", "rect queries", "radius queries", "points on rects without width or height"},
		Shards: func(th bool) []Shard { return areaShards(th, 600) },
		Run: func(c *Case) {
			level := c.R.Intn(31)
			s := c.mustOpen(c.Shard.Backend, c.TempDir(), nil, nil)
			var two [2]*index.S2FlatTimeIdx
			for i := range two {
				two[i] = index.NewS2FlatTimeIdx(s, roomy([]byte("T")), level)
			}
			idx := two[0]
			areas := []*area{c.drawArea(level, false), nil, c.drawArea(level, true), nil}
			areas[1], areas[3] = c.likeCap(areas[0]), c.likeRect(areas[2])
			if c.R.Intn(2) == 0 {
				areas[1], areas[3] = c.drawArea(level, false), c.drawArea(level, true)
			}
			objs := c.crowdOf(c.drawObjects(areas, level, 15))
			ig := newInstants(c.R)
			query := func(a *area, objs []*areaObj) {
				idx = two[c.R.Intn(2)]
				from, to := ig.window(c.R)
				var got []index.GeoID
				var err error
				f, t := inZone(c.R, from), inZone(c.R, to)
				c.Logf("query %s window %d %d", a.desc, from, to)
				if a.rect {
					got, err = idx.GeoTimeIdsRectQuery(f, t, a.urlat, a.urlng, a.bllat, a.bllng)
					c.Count("rect queries", 1)
				} else {
					got, err = idx.GeoTimeIdsRadiusQuery(f, t, a.lat, a.lng, a.radius)
					c.Count("radius queries", 1)
				}
				if err != nil {
					c.Fail("query", "%s at level %d: %v", a.desc, level, err)
				}
				c.judge(a, level, objs, got, func(o *areaObj) bool {
					for _, x := range o.ts {
						if to < x && x <= from {
							return true
						}
					}
					return false
				}, fmt.Sprintf("time index, window from %d to %d,", from, to))
			}
			for n, o := range objs {
				if n == 8 {
					// also before the last ones are there
					query(areas[c.R.Intn(4)], objs[:n])
				}
				idx = two[c.R.Intn(2)]
				for i := 0; i <= c.R.Intn(3); i++ {
					o.ts = append(o.ts, ig.pick(c.R))
					c.Logf("level %d GeoTimeIndex(%s, %d, %s)", level, o.sh, o.ts[i], q([]byte(o.id)))
					if err := idx.GeoTimeIndex(o.sh.gd, inZone(c.R, o.ts[i]), index.GeoID(o.id)); err != nil {
						c.Fail("index", "GeoTimeIndex(%s): %v", o.sh, err)
					}
				}
			}
			for _, a := range areas {
				query(a, objs)
			}
			c.Seen("level", fmt.Sprint(level))
			if c.Idx < 2 {
				c.Sample(fmt.Sprintf("level %d %s", level, areas[2].desc))
			}
			c.mustClose(s)
		},
	})
}

// instants draws nanoseconds around the epoch, hostile ones preferred.
type instants struct{ pool []int64 }

func newInstants(r *rand.Rand) *instants {
	g := &instants{}
	base := []int64{0, 1, -1, 1500000000e9, -1500000000e9, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64 + 1, math.MinInt64, 256, 255, 1 << 32, -(1 << 32), 1<<62 + 5, -(1 << 62)}
	for i := 0; i < 4+r.Intn(6); i++ {
		b := base[r.Intn(len(base))]
		if r.Intn(3) == 0 {
			b = int64(r.Uint64())
		}
		g.add(b)
		for j := 0; j < r.Intn(4); j++ {
			g.add(satAdd(b, []int64{1, -1, 2, 255, 256, -256, 1e9, -1e9, 3600e9}[r.Intn(9)]))
		}
	}
	return g
}

func satAdd(a, b int64) int64 {
	s := a + b
	if b > 0 && s < a || b < 0 && s > a {
		return a
	}
	return s
}

func (g *instants) add(x int64) { g.pool = append(g.pool, x) }
func (g *instants) pick(r *rand.Rand) int64 {
	return g.pool[r.Intn(len(g.pool))]
}

// window draws from and to, from later.
func (g *instants) window(r *rand.Rand) (from, to int64) {
	a, b := g.pick(r), g.pick(r)
	if r.Intn(3) == 0 {
		a = satAdd(a, []int64{1, -1}[r.Intn(2)])
	}
	if r.Intn(3) == 0 {
		b = satAdd(b, []int64{1, -1}[r.Intn(2)])
	}
	switch r.Intn(8) {
	case 0:
		a = math.MaxInt64
	case 1:
		b = math.MinInt64
	case 2:
		a, b = math.MaxInt64, math.MinInt64
	case 3:
		b = 0
	}
	if a < b {
		a, b = b, a
	}
	return a, b
}

// inZone writes the instant in some time zone.
func inZone(r *rand.Rand, ns int64) time.Time {
	t := time.Unix(0, ns)
	switch r.Intn(4) {
	case 0:
		return t.UTC()
	case 1:
		return t.In(time.FixedZone("x", r.Intn(86400)-43200))
	case 2:
		return time.Unix(ns/1e9, ns%1e9)
	}
	return t
}

var _ = s2.CellID(0)
