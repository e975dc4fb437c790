package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/golang/geo/s2"
)

// Independent spherical geometry: unit vectors and a tangent (gnomonic) plane,
// in which great circles are straight lines.

type vec [3]float64

const earthR = 40075017 / (2 * math.Pi)

func (a vec) dot(b vec) float64 { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }
func (a vec) cross(b vec) vec {
	return vec{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
}
func (a vec) add(b vec) vec       { return vec{a[0] + b[0], a[1] + b[1], a[2] + b[2]} }
func (a vec) mul(f float64) vec   { return vec{a[0] * f, a[1] * f, a[2] * f} }
func (a vec) norm() float64       { return math.Sqrt(a.dot(a)) }
func (a vec) unit() vec           { return a.mul(1 / a.norm()) }
func (a vec) angle(b vec) float64 { return math.Atan2(a.cross(b).norm(), a.dot(b)) }

// fromDeg is the point at latitude and longitude in degrees.
func fromDeg(lat, lng float64) vec {
	a, b := lat*math.Pi/180, lng*math.Pi/180
	return vec{math.Cos(a) * math.Cos(b), math.Cos(a) * math.Sin(b), math.Sin(a)}
}

func (a vec) deg() (lat, lng float64) {
	return math.Atan2(a[2], math.Hypot(a[0], a[1])) * 180 / math.Pi, math.Atan2(a[1], a[0]) * 180 / math.Pi
}

func (a vec) cell(level int) s2.CellID {
	lat, lng := a.deg()
	return s2.CellIDFromLatLng(s2.LatLngFromDegrees(lat, lng)).Parent(level)
}

// frame is the tangent plane at c.
type frame struct{ c, e, n vec }

func newFrame(c vec) frame {
	up := vec{0, 0, 1}
	if math.Abs(c[2]) > 0.9 {
		up = vec{1, 0, 0}
	}
	e := up.cross(c).unit()
	return frame{c, e, c.cross(e)}
}

// at is the point with plane coordinates x, y (radians near the centre).
func (f frame) at(x, y float64) vec { return f.c.add(f.e.mul(x)).add(f.n.mul(y)).unit() }

func (f frame) plane(p vec) (x, y float64) {
	d := p.dot(f.c)
	return p.dot(f.e) / d, p.dot(f.n) / d
}

// slerp interpolates on the great circle arc.
func slerp(a, b vec, t float64) vec {
	w := a.angle(b)
	if w < 1e-12 {
		return a.mul(1 - t).add(b.mul(t)).unit()
	}
	s := math.Sin(w)
	return a.mul(math.Sin((1-t)*w) / s).add(b.mul(math.Sin(t*w) / s)).unit()
}

// near are points around p at distance eps, and p.
func near(p vec, eps float64) []vec {
	f := newFrame(p)
	res := []vec{p}
	for i := 0; i < 8; i++ {
		a := float64(i) * math.Pi / 4
		res = append(res, f.at(eps*math.Cos(a), eps*math.Sin(a)))
	}
	return res
}

// cellsAt are the cells of the level that contain p, up to rounding.
func cellsAt(p vec, level int) []s2.CellID {
	var res []s2.CellID
	seen := map[s2.CellID]bool{}
	for _, q := range near(p, 2e-14) {
		c := q.cell(level)
		if !seen[c] {
			seen[c] = true
			res = append(res, c)
		}
	}
	for _, q := range near(p, 4e-13) {
		c := q.cell(level)
		if !seen[c] {
			seen[c] = true
			res = append(res, c)
		}
	}
	return res
}

// hotSpot draws a centre, biased to the places where things go wrong.
func hotSpot(r *rand.Rand) vec {
	switch r.Intn(10) {
	case 0: // a pole or near it
		s := 1.0
		if r.Intn(2) == 0 {
			s = -1
		}
		return vec{r.NormFloat64() * 1e-3, r.NormFloat64() * 1e-3, s}.unit()
	case 1: // antimeridian
		return fromDeg(r.Float64()*170-85, 180-r.NormFloat64()*1e-3)
	case 2: // cube corner
		c := vec{1, 1, 1}
		for i := range c {
			if r.Intn(2) == 0 {
				c[i] = -1
			}
			c[i] += r.NormFloat64() * 1e-4
		}
		return c.unit()
	case 3: // cube edge
		c := vec{1, 1, r.Float64()*2 - 1}
		i := r.Intn(3)
		c[2], c[i] = c[i], c[2]
		for j := range c {
			if r.Intn(2) == 0 {
				c[j] = -c[j]
			}
		}
		return c.unit()
	case 4: // equator or prime meridian
		if r.Intn(2) == 0 {
			return fromDeg(r.NormFloat64()*1e-3, r.Float64()*360-180)
		}
		return fromDeg(r.Float64()*180-90, r.NormFloat64()*1e-3)
	case 5: // where cells of some level meet
		l := r.Intn(26)
		return atCellBorder(r, hotSpot(r).cell(l), cellSize(l)*[]float64{0, 1e-6, 1e-3, 0.05}[r.Intn(4)])
	}
	for {
		v := vec{r.NormFloat64(), r.NormFloat64(), r.NormFloat64()}
		if v.norm() > 0.1 {
			return v.unit()
		}
	}
}

// atCellBorder draws a point on or near a vertex or an edge of the cell.
func atCellBorder(r *rand.Rand, id s2.CellID, off float64) vec {
	c := s2.CellFromCellID(id)
	i := r.Intn(4)
	a, b := c.Vertex(i), c.Vertex((i+1)%4)
	v, w := vec{a.X, a.Y, a.Z}, vec{b.X, b.Y, b.Z}
	if r.Intn(2) == 0 {
		t := r.Float64()
		v = v.mul(1 - t).add(w.mul(t)).unit()
	}
	if off == 0 {
		return v.unit()
	}
	return newFrame(v.unit()).at(r.NormFloat64()*off, r.NormFloat64()*off)
}

// cellSize is the edge length in radians of cells of the level.
func cellSize(level int) float64 { return s2.AvgEdgeMetric.Value(level) }

// maxDiag bounds the diagonal of cells of the level.
func maxDiag(level int) float64 { return s2.MaxDiagMetric.Value(level) }

// shape is an object with what is known about it independently.
type shape struct {
	kind string // point, line, polygon, multi
	gd   *geodata.GeoData
	fr   frame
	// polygons: rings in plane coordinates; lines: vertices
	rings [][][2]float64
	verts []vec // all vertices as read back from the degrees
	edges [][2]vec
	size  float64
	parts []ringSrc    // the rings as drawn, in plane coordinates
	path  [][2]float64 // the line as drawn
	// coordinates are written with so many decimals, 0 means all
	digits int
}

// round rounds degrees to the decimals of the shape.
func (s *shape) round(lat, lng float64) (float64, float64) {
	if s.digits == 0 {
		return lat, lng
	}
	m := math.Pow10(s.digits)
	return math.Round(lat*m) / m, math.Round(lng*m) / m
}

// gridStep draws a step in degrees, a power of ten, of which a shape of the
// size has a good number, and has the shape written so that multiples of the
// step come out exactly. It is 0 where a grid would be too far from square.
func (s *shape) gridStep(most float64) (step float64, lat0, lng0 int64) {
	deg := s.size * 180 / math.Pi
	lat, lng := s.fr.c.deg()
	if s.size > most || deg < 1e-5 || math.Abs(lat) > 70 {
		return
	}
	d := int(math.Ceil(-math.Log10(deg / 15)))
	if d < 0 {
		d = 0
	}
	step = math.Pow10(-d)
	s.digits = d + 6
	return step, int64(math.Round(lat / step)), int64(math.Round(lng / step))
}

// gridRing draws a ring along parallels and meridians in multiples of the
// step, with vertices on the way, in plane coordinates.
func (s *shape) gridRing(r *rand.Rand) [][2]float64 {
	if r.Intn(3) == 0 {
		return s.gridStrip(r)
	}
	step, lat0, lng0 := s.gridStep(0.2)
	if step == 0 {
		return nil
	}
	w, h := int64(2+r.Intn(9)), int64(2+r.Intn(9))
	var pts [][2]int64
	add := func(x, y int64) {
		if n := len(pts); n == 0 || pts[n-1] != [2]int64{x, y} {
			pts = append(pts, [2]int64{x, y})
		}
	}
	side := func(ax, ay, bx, by int64) {
		add(ax, ay)
		n := bx - ax + by - ay
		if n < 0 {
			n = -n
		}
		for i := int64(1); i < n; i++ {
			if r.Intn(3) == 0 {
				add(ax+(bx-ax)*i/n, ay+(by-ay)*i/n)
			}
		}
	}
	if r.Intn(2) == 0 {
		side(0, 0, w, 0)
		side(w, 0, w, h)
		side(w, h, 0, h)
		side(0, h, 0, 0)
	} else { // with a corner cut out
		x, y := 1+r.Int63n(w-1), 1+r.Int63n(h-1)
		side(0, 0, w, 0)
		side(w, 0, w, y)
		side(w, y, x, y)
		side(x, y, x, h)
		side(x, h, 0, h)
		side(0, h, 0, 0)
	}
	var ring [][2]float64
	for _, p := range pts {
		ring = append(ring, s.gridPoint(step, lat0+p[1]-h/2, lng0+p[0]-w/2))
	}
	return ring
}

// gridStrip draws a strip along a parallel, with vertices at the
// same places of both sides.
func (s *shape) gridStrip(r *rand.Rand) [][2]float64 {
	step, lat0, lng0 := s.gridStep(1.2)
	if step == 0 {
		return nil
	}
	n := int64(3 + r.Intn(6))
	k := 1 + r.Int63n(1+int64(s.size*180/math.Pi/step)/n)
	h := 1 + r.Int63n(k)
	var up, down [][2]float64
	for i := int64(0); i <= n; i++ {
		a := (i - n/2) * k
		down = append(down, s.gridPoint(step, lat0, lng0+a))
		up = append(up, s.gridPoint(step, lat0+h, lng0+a))
	}
	for i := len(up) - 1; i >= 0; i-- {
		down = append(down, up[i])
	}
	return down
}

func (s *shape) gridPoint(step float64, lat, lng int64) [2]float64 {
	x, y := s.fr.plane(fromDeg(float64(lat)*step, float64(lng)*step))
	return [2]float64{x, y}
}

// gridPath draws a line along parallels and meridians.
func (s *shape) gridPath(r *rand.Rand) [][2]float64 {
	step, lat, lng := s.gridStep(0.2)
	if step == 0 {
		return nil
	}
	var path [][2]float64
	for i := 2 + r.Intn(8); i > 0; i-- {
		path = append(path, s.gridPoint(step, lat, lng))
		if d := int64(1 + r.Intn(3)); r.Intn(2) == 0 {
			lat += d
		} else {
			lng += d
		}
	}
	return path
}

// ringSrc is a ring and the way it is written.
type ringSrc struct {
	ring   [][2]float64
	cw     bool
	start  int
	closed bool
}

func (s *shape) String() string {
	return fmt.Sprintf("%s %v", s.kind, shortGD(s.gd))
}

func shortGD(gd *geodata.GeoData) string {
	if gd == nil || gd.Geometry == nil {
		return "nil"
	}
	return trim(gd.Geometry.String(), 1500)
}

// ringPlane draws a simple polygon, counter clockwise, within radius 1.
func ringPlane(r *rand.Rand) [][2]float64 {
	if r.Intn(30) == 0 { // far more vertices than a drawing by hand has
		n := 100 + r.Intn(150)
		if r.Intn(2) == 0 {
			n = 250 + r.Intn(2000)
			if r.Intn(8) == 0 {
				n = 8000 + r.Intn(8000)
			}
		}
		return starRing(r, n, []float64{0.2, 0.9, 1}[r.Intn(3)], 1)
	}
	switch r.Intn(5) {
	case 0: // convex
		n := 3 + r.Intn(6)
		return starRing(r, n, 1, 1)
	case 1, 2: // star shaped, concave
		n := 4 + r.Intn(20)
		return starRing(r, n, 0.15, 1)
	case 3: // a comb: concave, not star shaped
		teeth := 2 + r.Intn(4)
		var up [][2]float64
		w := 1.6 / float64(2*teeth-1)
		for i := 0; i < teeth; i++ {
			x := -0.8 + 2*w*float64(i)
			h := 0.2 + 0.5*r.Float64()
			up = append(up, [2]float64{x, -0.3}, [2]float64{x, h}, [2]float64{x + w, h}, [2]float64{x + w, -0.3})
		}
		// base below, right to left in the end
		pts := [][2]float64{{-0.8, -0.55}, {0.8, -0.55}}
		for i := len(up) - 1; i >= 0; i-- {
			pts = append(pts, up[i])
		}
		return rotatePlane(pts, r.Float64()*2*math.Pi)
	default: // a thin crescent
		n := 3 + r.Intn(6)
		var pts [][2]float64
		for i := 0; i <= n; i++ {
			a := -2.0 + 4*float64(i)/float64(n)
			pts = append(pts, [2]float64{0.95 * math.Cos(a), 0.95 * math.Sin(a)})
		}
		for i := n; i >= 0; i-- {
			a := -2.0 + 4*float64(i)/float64(n)
			pts = append(pts, [2]float64{0.6 * math.Cos(a), 0.6 * math.Sin(a)})
		}
		return rotatePlane(pts, r.Float64()*2*math.Pi)
	}
}

func starRing(r *rand.Rand, n int, lo, hi float64) [][2]float64 {
	var res [][2]float64
	off := r.Float64()
	for i := 0; i < n; i++ {
		// gaps stay under pi
		a := 2 * math.Pi * (float64(i) + off + 0.35*(r.Float64()-0.5)) / float64(n)
		d := lo + (hi-lo)*r.Float64()
		res = append(res, [2]float64{d * math.Cos(a), d * math.Sin(a)})
	}
	return res
}

func rotatePlane(p [][2]float64, a float64) [][2]float64 {
	for i := range p {
		x, y := p[i][0], p[i][1]
		p[i] = [2]float64{x*math.Cos(a) - y*math.Sin(a), x*math.Sin(a) + y*math.Cos(a)}
	}
	return p
}

// inPlane is the even-odd test, margin: distance to the boundary at least m.
func inPlane(ring [][2]float64, x, y, m float64) bool {
	in := false
	for i := range ring {
		a, b := ring[i], ring[(i+1)%len(ring)]
		if (a[1] > y) != (b[1] > y) && x < (b[0]-a[0])*(y-a[1])/(b[1]-a[1])+a[0] {
			in = !in
		}
	}
	return in && distPlane(ring, x, y) >= m
}

func distPlane(ring [][2]float64, x, y float64) float64 {
	best := math.Inf(1)
	for i := range ring {
		a, b := ring[i], ring[(i+1)%len(ring)]
		dx, dy := b[0]-a[0], b[1]-a[1]
		t := 0.0
		if l := dx*dx + dy*dy; l > 0 {
			t = math.Max(0, math.Min(1, ((x-a[0])*dx+(y-a[1])*dy)/l))
		}
		best = math.Min(best, math.Hypot(x-a[0]-t*dx, y-a[1]-t*dy))
	}
	return best
}

// write a ring as coordinates in the given way.
func (s *shape) ringCoords(pts []vec, cw bool, start int, closed bool) []float64 {
	n := len(pts)
	var c []float64
	for i := 0; i < n; i++ {
		j := (start + i) % n
		if cw {
			j = (start - i + 2*n) % n
		}
		lat, lng := s.round(pts[j].deg())
		c = append(c, lng, lat)
	}
	if closed {
		c = append(c, c[0], c[1])
	}
	return c
}

func (s *shape) addRing(r *rand.Rand, ring [][2]float64) []float64 {
	return repeatVertices(r, s.addPart(ringSrc{ring, r.Intn(2) == 0, r.Intn(len(ring)), r.Intn(2) == 0}))
}

// addPart adds a ring given in plane coordinates and returns what is written.
func (s *shape) addPart(src ringSrc) []float64 {
	s.parts = append(s.parts, src)
	var pts []vec
	var back [][2]float64
	for _, p := range src.ring {
		lat, lng := s.round(s.fr.at(p[0], p[1]).deg())
		v := fromDeg(lat, lng)
		pts = append(pts, v)
		x, y := s.fr.plane(v)
		back = append(back, [2]float64{x, y})
	}
	s.rings = append(s.rings, back)
	s.verts = append(s.verts, pts...)
	for i := range pts {
		s.edges = append(s.edges, [2]vec{pts[i], pts[(i+1)%len(pts)]})
	}
	return s.ringCoords(pts, src.cw, src.start, src.closed)
}

// relative draws a ring with the same number of vertices which shares many of
// them, among them one edge, with this one: one vertex moved, or everything
// pushed towards or over the edge. The edge is often the one written first.
func (src ringSrc) relative(r *rand.Rand) ringSrc {
	n := len(src.ring)
	ring := append([][2]float64(nil), src.ring...)
	if r.Intn(2) == 0 { // one vertex moved
		ext := 0.0
		for _, p := range ring {
			ext = math.Max(ext, math.Hypot(p[0]-ring[0][0], p[1]-ring[0][1]))
		}
		for try := 0; try < 20; try++ {
			i := r.Intn(n)
			if n > 3 && r.Intn(2) == 0 { // in the middle of what is written
				i = (src.start + 2 + r.Intn(n-3)) % n
			}
			old := ring[i]
			d := ext * math.Pow(0.5, float64(try%8))
			ring[i] = [2]float64{old[0] + (2*r.Float64()-1)*d*0.7, old[1] + (2*r.Float64()-1)*d*0.7}
			if simpleAt(ring, i, ext*1e-3) {
				src.ring = ring
				return src
			}
			ring[i] = old
		}
	}
	i := src.start
	if r.Intn(4) == 0 {
		i = r.Intn(n)
	}
	j := (i + 1) % n
	if src.cw {
		j = (i - 1 + n) % n
	}
	a, b := ring[i], ring[j]
	dx, dy := b[0]-a[0], b[1]-a[1]
	l := math.Hypot(dx, dy)
	nx, ny := -dy/l, dx/l
	f := []float64{-1, -1, -0.6, 0.5, 0.8}[r.Intn(5)]
	for k := range ring {
		if k != i && k != j {
			d := (ring[k][0]-a[0])*nx + (ring[k][1]-a[1])*ny
			ring[k][0] += (f - 1) * d * nx
			ring[k][1] += (f - 1) * d * ny
		}
	}
	src.ring = ring
	return src
}

// simpleAt tells whether the edges at vertex i stay clear of the others.
func simpleAt(ring [][2]float64, i int, m float64) bool {
	n := len(ring)
	area := 0.0
	for k := range ring {
		a, b := ring[k], ring[(k+1)%n]
		area += a[0]*b[1] - a[1]*b[0]
	}
	if math.Abs(area) < m*m {
		return false
	}
	h, j := (i-1+n)%n, (i+1)%n
	if math.Hypot(ring[i][0]-ring[h][0], ring[i][1]-ring[h][1]) < m || math.Hypot(ring[i][0]-ring[j][0], ring[i][1]-ring[j][1]) < m {
		return false
	}
	for k := range ring {
		// the edge h-i against vertices and edges which are not at h or i, and so on
		a, b := ring[k], ring[(k+1)%n]
		for _, e := range [][2]int{{h, i}, {i, j}} {
			if k == e[0] || (k+1)%n == e[0] || k == e[1] {
				continue
			}
			if segDistance(ring[e[0]], ring[e[1]], a, b) < m {
				return false
			}
		}
	}
	// the neighbouring edges meet at an angle
	return distSeg(ring[h], ring[i], ring[j]) > m && distSeg(ring[j], ring[h], ring[i]) > m &&
		distSeg(ring[(h-1+n)%n], ring[h], ring[i]) > m && distSeg(ring[(j+1)%n], ring[i], ring[j]) > m
}

func distSeg(p, a, b [2]float64) float64 {
	dx, dy := b[0]-a[0], b[1]-a[1]
	t := 0.0
	if l := dx*dx + dy*dy; l > 0 {
		t = math.Max(0, math.Min(1, ((p[0]-a[0])*dx+(p[1]-a[1])*dy)/l))
	}
	return math.Hypot(p[0]-a[0]-t*dx, p[1]-a[1]-t*dy)
}

// segDistance is the distance of two segments, 0 if they cross.
func segDistance(a, b, c, d [2]float64) float64 {
	side := func(p, q, x [2]float64) float64 { return (q[0]-p[0])*(x[1]-p[1]) - (q[1]-p[1])*(x[0]-p[0]) }
	if side(a, b, c)*side(a, b, d) < 0 && side(c, d, a)*side(c, d, b) < 0 {
		return 0
	}
	return math.Min(math.Min(distSeg(a, c, d), distSeg(b, c, d)), math.Min(distSeg(c, a, b), distSeg(d, a, b)))
}

// relative draws an object of the same kind and number of vertices which
// shares most of what is written with this one.
func (s *shape) relative(r *rand.Rand) *shape {
	o := &shape{kind: s.kind, fr: s.fr, size: s.size, digits: s.digits}
	switch s.kind {
	case "point":
		c := s.gd.Geometry.Coordinates
		x, y := s.fr.plane(s.verts[0])
		k := math.Tan(math.Min(s.size, 1.35))
		lat, lng := s.fr.at(x+k*(2*r.Float64()-1), y+k*(2*r.Float64()-1)).deg()
		if r.Intn(2) == 0 {
			lat = c[1]
		} else {
			lng = c[0]
		}
		o.gd, o.verts = pointGD(lat, lng), []vec{fromDeg(lat, lng)}
	case "line":
		path := append([][2]float64(nil), s.path...)
		k := math.Tan(math.Min(s.size, 1.35))
		i := r.Intn(len(path))
		if len(path) > 3 && r.Intn(4) > 0 {
			i = 2 + r.Intn(len(path)-3)
		}
		path[i] = [2]float64{k * (2*r.Float64() - 1) * 0.7, k * (2*r.Float64() - 1) * 0.7}
		o.gd = lineGD(o.addPath(path)...)
	case "polygon":
		o.gd = polyGD(o.addPart(s.parts[0].relative(r))...)
	default:
		var parts [][]float64
		k := r.Intn(len(s.parts))
		for i, p := range s.parts {
			if i == k {
				p = p.relative(r)
			}
			parts = append(parts, o.addPart(p))
		}
		o.gd = multiGD(parts...)
	}
	return o
}

// become gives the object of s the content of o's in place.
func (s *shape) become(r *rand.Rand, o *shape) {
	g, h := s.gd.Geometry, o.gd.Geometry
	if len(g.Coordinates) == len(h.Coordinates) && r.Intn(4) > 0 {
		copy(g.Coordinates, h.Coordinates)
	} else {
		g.Coordinates = append(g.Coordinates[:0], h.Coordinates...)
	}
	for i := range g.Geometries {
		p := g.Geometries[i]
		p.Coordinates = append(p.Coordinates[:0], h.Geometries[i].Coordinates...)
	}
	gd := s.gd
	*s = *o
	s.gd = gd
}

func (s *shape) addPath(path [][2]float64) (co []float64) {
	s.path = path
	for i, p := range path {
		lat, lng := s.round(s.fr.at(p[0], p[1]).deg())
		co = append(co, lng, lat)
		s.verts = append(s.verts, fromDeg(lat, lng))
		if i > 0 {
			s.edges = append(s.edges, [2]vec{s.verts[i-1], s.verts[i]})
		}
	}
	return co
}

// repeatVertices sometimes writes some vertices several times in a row.
func repeatVertices(r *rand.Rand, co []float64) []float64 {
	if r.Intn(8) > 0 {
		return co
	}
	var res []float64
	for i := 0; i+1 < len(co); i += 2 {
		for k := r.Intn(4); k < 4; k += 2 {
			res = append(res, co[i], co[i+1])
		}
	}
	return res
}

func scaleRing(p [][2]float64, k, dx, dy float64) [][2]float64 {
	res := make([][2]float64, len(p))
	for i := range p {
		res[i] = [2]float64{p[i][0]*k + dx, p[i][1]*k + dy}
	}
	return res
}

// genShape draws an object of about the given angular radius around c.
func genShape(r *rand.Rand, c vec, size float64) *shape {
	s := &shape{fr: newFrame(c), size: size}
	k := math.Tan(math.Min(size, 1.35))
	switch x := r.Intn(10); {
	case x < 3:
		s.kind = "point"
		lat, lng := s.fr.at(k*(2*r.Float64()-1)*0.7, k*(2*r.Float64()-1)*0.7).deg()
		s.gd = pointGD(lat, lng)
		s.verts = []vec{fromDeg(lat, lng)}
	case x < 5:
		s.kind = "line"
		n := 2 + r.Intn(6)
		many := r.Intn(20) == 0
		if many { // a recorded track
			n = 100 + r.Intn(1500)
		}
		var path [][2]float64
		x, y := k*(2*r.Float64()-1)*0.7, k*(2*r.Float64()-1)*0.7
		for i := 0; i < n; i++ {
			if many {
				x = math.Max(-0.7*k, math.Min(0.7*k, x+r.NormFloat64()*0.05*k))
				y = math.Max(-0.7*k, math.Min(0.7*k, y+r.NormFloat64()*0.05*k))
			} else {
				x, y = k*(2*r.Float64()-1)*0.7, k*(2*r.Float64()-1)*0.7
			}
			path = append(path, [2]float64{x, y})
		}
		if r.Intn(4) == 0 {
			if p := s.gridPath(r); p != nil {
				path = p
			}
		}
		s.gd = lineGD(repeatVertices(r, s.addPath(path))...)
	case x < 9:
		s.kind = "polygon"
		ring := scaleRing(ringPlane(r), k, 0, 0)
		if r.Intn(4) == 0 {
			if g := s.gridRing(r); g != nil {
				ring = g
			}
		}
		s.gd = polyGD(s.addRing(r, ring)...)
	default:
		s.kind = "multi"
		var parts [][]float64
		np := 1 + r.Intn(3)
		d := k * 0.5
		switch r.Intn(5) {
		case 0: // parts over each other, one maybe inside another
			d = k * 0.2 * r.Float64()
		case 1:
			np = 4 + r.Intn(12)
			if r.Intn(10) == 0 { // an archipelago
				np = 100 + r.Intn(300)
				k *= 0.2
			}
		}
		for i := 0; i < np; i++ {
			if i > 0 && r.Intn(5) == 0 {
				// related to the part before, or that part again
				p := s.parts[i-1]
				if r.Intn(4) > 0 {
					p = p.relative(r)
				}
				parts = append(parts, s.addPart(p))
				continue
			}
			parts = append(parts, s.addRing(r, scaleRing(ringPlane(r), k*(0.2+0.2*r.Float64()), d*math.Cos(float64(2*i)), d*math.Sin(float64(2*i)))))
		}
		s.gd = multiGD(parts...)
	}
	return s
}

// sample draws a point of the object: a vertex, an edge point or an interior
// point; ok is false if none was found.
func (s *shape) sample(r *rand.Rand) (p vec, what string) {
	x := r.Intn(10)
	if x < 2 || len(s.edges) == 0 {
		return s.verts[r.Intn(len(s.verts))], "vertex"
	}
	e := s.edges[r.Intn(len(s.edges))]
	if x < 6 || len(s.rings) == 0 {
		return slerp(e[0], e[1], r.Float64()), "edge point"
	}
	ring := s.rings[r.Intn(len(s.rings))]
	var minx, maxx, miny, maxy = math.Inf(1), math.Inf(-1), math.Inf(1), math.Inf(-1)
	for _, q := range ring {
		minx, maxx = math.Min(minx, q[0]), math.Max(maxx, q[0])
		miny, maxy = math.Min(miny, q[1]), math.Max(maxy, q[1])
	}
	m := (maxx - minx + maxy - miny) * 1e-6
	for i := 0; i < 60; i++ {
		a, b := minx+(maxx-minx)*r.Float64(), miny+(maxy-miny)*r.Float64()
		if inPlane(ring, a, b, m) {
			return s.fr.at(a, b), "interior point"
		}
	}
	return slerp(e[0], e[1], r.Float64()), "edge point"
}

// contains tells whether p lies in the object's area with a margin in plane units.
func (s *shape) contains(p vec, m float64) bool {
	if p.dot(s.fr.c) <= 0 {
		return false
	}
	x, y := s.fr.plane(p)
	for _, ring := range s.rings {
		if inPlane(ring, x, y, m) {
			return true
		}
	}
	return false
}

// distance is the angle from p to the object, 0 inside.
func (s *shape) distance(p vec) float64 {
	if s.contains(p, 0) {
		return 0
	}
	best := math.Inf(1)
	for _, v := range s.verts {
		best = math.Min(best, p.angle(v))
	}
	for _, e := range s.edges {
		best = math.Min(best, arcDistance(p, e[0], e[1]))
	}
	return best
}

// arcDistance is the angle from p to the arc a-b.
func arcDistance(p, a, b vec) float64 {
	// a cross b without cancellation for short arcs
	n := a.add(b).cross(b.add(a.mul(-1)))
	if n.norm() < 1e-17 {
		return math.Min(p.angle(a), p.angle(b))
	}
	n = n.unit()
	// the foot of p on the great circle lies on the arc
	f := p.add(n.mul(-p.dot(n)))
	if f.norm() > 1e-14 {
		f = f.unit()
		if a.cross(f).dot(n) >= 0 && f.cross(b).dot(n) >= 0 {
			return p.angle(f)
		}
	}
	return math.Min(p.angle(a), p.angle(b))
}

// cellDistance bounds from below the distance from the object to the cell,
// using the circle around the cell.
func (s *shape) cellDistance(c s2.CellID) float64 {
	ll := c.LatLng()
	ctr := fromDeg(ll.Lat.Degrees(), ll.Lng.Degrees())
	cell := s2.CellFromCellID(c)
	rad := 0.0
	for i := 0; i < 4; i++ {
		v := cell.Vertex(i)
		rad = math.Max(rad, ctr.angle(vec{v.X, v.Y, v.Z}.unit()))
	}
	return math.Max(0, s.distance(ctr)-rad)
}

// hostile prefixes; none of them is a prefix of another in a set drawn.
func genPrefixes(r *rand.Rand, n int) [][]byte {
	pool := []string{"F", "Fa", "\x00", "\x00\x01", "\x01", "\xff", "\xff\xff", "\xfe", "a", "ab", "index:", "p", "\x00\x00\x00\x00\x00\x00\x00\x00", "d", "z\xff", "z\x00", "\xff\x00", "\x89", "\x80\x00", "\x10"}
	var res [][]byte
	for tries := 0; len(res) < n && tries < 1000; tries++ {
		p := []byte(pool[r.Intn(len(pool))])
		if r.Intn(3) == 0 {
			p = make([]byte, 1+r.Intn(5))
			r.Read(p)
		} else if r.Intn(8) == 0 { // a long one, which differs from others of its kind at the end only
			p = []byte(strings.Repeat("n", 30<<uint(r.Intn(5))) + fmt.Sprintf("%c", 'a'+r.Intn(26)))
		}
		ok := true
		for _, q := range append(res, []byte("!badger!")) {
			if hasPrefix(p, q) || hasPrefix(q, p) {
				ok = false
			}
		}
		if ok {
			res = append(res, p)
		}
	}
	return res
}

func hasPrefix(a, b []byte) bool { return len(a) >= len(b) && string(a[:len(b)]) == string(b) }

// sameSums are pairs of strings with the same CRC-32, CRC-32C, FNV-1, FNV-1a,
// Adler-32 or 31-polynomial.
var sameSums = [][2]string{
	{"ide1a31e0316", "id4640a9050e"}, {"id2fed7bfee8", "id894c27f153"}, {"id567a1c4f8", "id4ef5961ccb"}, {"ida60ac2d3a3", "id259214b786"},
	{"id569abb507f", "id7933006744"}, {"idcce1799396", "idc06ab6ff90"}, {"id188dd7c76", "ide483dc5f91"}, {"id853cbdffdb", "id8c621765ad"},
	{"id43d98d164c", "id9748ce42a3"}, {"Aa", "BB"}, {"AaBB", "BBAa"}, {"ab", "ba"},
}

// lookAlike draws a name which is easily taken for another one.
func lookAlike(r *rand.Rand, pool []string) string {
	switch r.Intn(4) {
	case 0:
		p := sameSums[r.Intn(len(sameSums))]
		for _, q := range pool {
			for _, p := range sameSums {
				if p[0] == q {
					return p[1]
				}
			}
		}
		return p[0]
	case 1: // alike at both ends
		if len(pool) > 0 {
			if p := pool[r.Intn(len(pool))]; len(p) > 8 && r.Intn(4) > 0 {
				b := []byte(p)
				b[len(b)/2+r.Intn(3)-1] ^= byte(1 + r.Intn(3))
				return string(b)
			}
		}
		return strings.Repeat("tenant/00000000-0000-0000-0000-000000000000/", 1+r.Intn(8)) + fmt.Sprintf("%04d", r.Intn(10000)) + strings.Repeat("/of/the/same/thing", r.Intn(8))
	case 2: // but for spaces, case, a sign, leading zeros
		s := "Obj-7"
		if len(pool) > 0 {
			s = pool[r.Intn(len(pool))]
		}
		switch r.Intn(6) {
		case 0:
			return s + " "
		case 1:
			return " " + s
		case 2:
			return strings.ToUpper(s)
		case 3:
			return strings.ToLower(s)
		case 4:
			return s + "\n"
		}
		return "0" + s
	}
	return []string{"7", "07", "+7", "7.0", "7e0", "0x7", "-0", "0", "\u00e9", "e\u0301", "E\u0301", "null", "nil", "<nil>", "true", "%37", "a/b", "a//b", "a/./b", "."}[r.Intn(20)]
}

// idGen draws ids from a small pool of hostile ones.
type idGen struct{ pool []string }

func newIDGen(r *rand.Rand, n int, cells ...s2.CellID) *idGen {
	g := &idGen{}
	seen := map[string]bool{}
	for len(g.pool) < n {
		var id string
		switch r.Intn(10) {
		case 9:
			id = lookAlike(r, g.pool)
		case 0:
			id = []string{"a", "ab", "abc", "a\x00", "\x00", "\xff", "\x00\x00", "\xff\xff\xff\xff\xff\xff\xff\xff", "id", "id1", "id10"}[r.Intn(11)]
		case 1: // extends another id
			if len(g.pool) > 0 {
				id = g.pool[r.Intn(len(g.pool))] + string([]byte{byte(r.Intn(256))})
			}
		case 2: // looks like a cell
			if len(cells) > 0 {
				c := uint64(cells[r.Intn(len(cells))])
				var b []byte
				for i := 7; i >= 0; i-- {
					b = append(b, byte(c>>(8*uint(i))))
				}
				id = string(b)
			}
		case 3:
			b := make([]byte, 1+r.Intn(40))
			r.Read(b)
			id = string(b)
		case 4:
			if r.Intn(4) == 0 {
				b := make([]byte, 200+r.Intn(400))
				if r.Intn(6) == 0 {
					b = make([]byte, 1+many(r, 1000, 2, 4200))
				}
				r.Read(b)
				id = string(b)
			}
		default:
			id = fmt.Sprintf("obj-%d", r.Intn(1000))
		}
		if id != "" && !seen[id] {
			seen[id] = true
			g.pool = append(g.pool, id)
		}
	}
	return g
}

func (g *idGen) pick(r *rand.Rand) index.GeoID { return index.GeoID(g.pool[r.Intn(len(g.pool))]) }

// crowd draws the size of a crowd sharing one cell, mostly 0.
func (c *Case) crowd() int {
	if c.Shard.Backend == "gtreap" {
		if c.R.Intn(12) > 0 {
			return 0
		}
	} else if c.R.Intn(25) > 0 {
		return 0
	}
	n := int(120 * math.Exp(c.R.Float64()*math.Log(50)))
	if c.R.Intn(4) == 0 { // around powers of two
		n = 1<<(7+c.R.Intn(5)) + c.R.Intn(5) - 2
	}
	if c.Shard.Backend == "gtreap" && c.R.Intn(8) == 0 {
		n = 8000 + c.R.Intn(14000)
	}
	c.Count("crowds", 1)
	c.Seen("crowd size", fmt.Sprint(n))
	return n
}

// crowdIDs draws n different ids, many extending others.
func crowdIDs(r *rand.Rand, n int) []string {
	var ids []string
	seen := map[string]bool{}
	ext := r.Intn(3) * 3
	for len(ids) < n {
		var id string
		switch x := r.Intn(10); {
		case x < ext && len(ids) > 0:
			id = ids[r.Intn(len(ids))] + string([]byte{[]byte{0, 1, 'a', 0xff, byte(r.Intn(256))}[r.Intn(5)]})
		case x < 8:
			id = fmt.Sprintf("c%05d", r.Intn(90000))
		default:
			b := make([]byte, 1+r.Intn(16))
			r.Read(b)
			id = string(b)
		}
		if id != "" && !seen[id] && len(id) < 300 {
			seen[id] = true
			ids = append(ids, id)
		}
	}
	return ids
}

// many draws a number now and then far above ordinary, around powers of two or anywhere.
func many(r *rand.Rand, ordinary, odds, most int) int {
	if r.Intn(odds) > 0 {
		return r.Intn(ordinary)
	}
	n := int(float64(ordinary) * math.Exp(r.Float64()*math.Log(float64(most)/float64(ordinary))))
	if r.Intn(3) == 0 {
		b := 1
		for b*2 <= n {
			b *= 2
		}
		n = b + r.Intn(5) - 2
	}
	return n
}

// cellList arranges cells as a caller may: in any order, sorted, as runs of
// neighbours, as families below one parent (complete or not, and, when mixed,
// with cells replaced by some or all of their children), repeated, hundreds of
// them. The cells of the result are all of the level of cs[0] unless mixed.
func cellList(r *rand.Rand, cs []s2.CellID, mixed bool) []s2.CellID {
	if len(cs) == 0 {
		return cs
	}
	at := cs[r.Intn(len(cs))]
	res := append([]s2.CellID(nil), cs...)
	family := func(at s2.CellID, up int) {
		l := at.Level()
		if up > l {
			up = l
		}
		if up == 0 {
			res = append(res, at)
			return
		}
		skip, split := -1, -1
		if r.Intn(2) == 0 {
			skip = r.Intn(1 << uint(2*up))
		}
		if r.Intn(2) == 0 {
			split = r.Intn(1 << uint(2*up))
			if r.Intn(2) == 0 {
				skip = -1
			}
		}
		i := 0
		top := at.Parent(l - up)
		for x := top.ChildBeginAtLevel(l); x != top.ChildEndAtLevel(l); x = x.Next() {
			if mixed && i == split && !x.IsLeaf() {
				n, k := 1+r.Intn(4), r.Intn(2)
				for j := 0; j < 4 && n > 0; j++ {
					if k = 1 - k; r.Intn(3) > 0 || n == 4 {
						res = append(res, x.Children()[j])
						n--
					}
				}
			} else if i != skip {
				res = append(res, x)
			}
			i++
		}
	}
	switch r.Intn(10) {
	case 0, 1, 2:
	case 3, 4, 5:
		if r.Intn(2) == 0 {
			res = res[:0]
		}
		for i := r.Intn(3); i >= 0; i-- {
			family(cs[r.Intn(len(cs))], 1+r.Intn(2)*r.Intn(2))
		}
	case 6:
		x := at
		for i := many(r, 12, 4, 300) + 1; i >= 0; i-- {
			res = append(res, x)
			if x = x.NextWrap(); r.Intn(12) == 0 {
				x = x.NextWrap()
			}
		}
	case 7:
		for i := many(r, 12, 4, 300); i >= 0; i-- {
			x := res[r.Intn(len(res))]
			switch r.Intn(4) {
			case 0:
				nb := neighboursOf(x)
				x = nb[r.Intn(len(nb))]
			case 1:
				if mixed {
					x = x.Parent(r.Intn(x.Level() + 1))
				}
			case 2:
				if mixed && !x.IsLeaf() {
					x = x.Children()[r.Intn(4)]
				}
			}
			res = append(res, x)
		}
	case 8:
		for _, x := range res {
			for r.Intn(2) == 0 {
				res = append(res, x)
			}
		}
	}
	switch r.Intn(6) {
	case 0, 1, 2:
		sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	case 3:
		sort.Slice(res, func(i, j int) bool { return res[i] > res[j] })
	case 4:
		r.Shuffle(len(res), func(i, j int) { res[i], res[j] = res[j], res[i] })
	}
	return res
}
