package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/akhenakh/oureadb/s2tools"
	"github.com/golang/geo/s2"
	"github.com/golang/protobuf/proto"
	spb "github.com/golang/protobuf/ptypes/struct"
	"github.com/twpayne/go-geom"
	"github.com/twpayne/go-geom/encoding/geojson"
)

func pureShards(th bool, n int) []Shard {
	if th {
		n *= 30
	}
	var r []Shard
	for i := 0; i < 8; i++ {
		r = append(r, Shard{Name: fmt.Sprintf("w-%d", i), N: n})
	}
	return r
}

// ---------------------------------------------------------------- C30

func genNumber(r *rand.Rand) float64 {
	switch r.Intn(8) {
	case 0:
		return []float64{0, math.Copysign(0, -1), 1, -1, 180, -180, 90, -90, 1e-300, 5e-324, 1e308, -1e21, 1 << 53, 0.1, 123456789.123456789}[r.Intn(15)]
	case 1:
		return math.Float64frombits(r.Uint64()&^(0x7ff<<52) | uint64(r.Intn(2046))<<52)
	}
	return r.Float64()*360 - 180
}

func genText(r *rand.Rand) string {
	pool := []string{"", "a", "name", "é", "日本", "\u2028", "<b>&", "\"q\"", "\\", "\n\t", "\x00", "\U0001F600", "null", "a\u0301", "\ufffd", "type", "id", "true", "false", "True", "1", "-0", "1.5", "1e5", "NaN", "[]", "{}", "[1,2]", "0x10", "2020-01-01T00:00:00Z", " ", "properties", "geometry", "coordinates"}
	s := pool[r.Intn(len(pool))]
	for i := 0; i < r.Intn(3)-1; i++ {
		s += pool[r.Intn(len(pool))]
	}
	if r.Intn(40) == 0 {
		s = strings.Repeat(s+"x", many(r, 30, 3, 20000))
	}
	return s
}

// gfeature is a GeoJSON feature with what has to come back.
type gfeature struct {
	json   string
	typ    string
	coords [][2]float64
	props  map[string]interface{}
}

func num(f float64) string {
	b, _ := json.Marshal(f)
	return string(b)
}

func jstr(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func genFeature(r *rand.Rand) *gfeature {
	f := &gfeature{props: map[string]interface{}{}}
	dims := 2
	if r.Intn(4) == 0 {
		dims = 3 + r.Intn(2)
	}
	pos := func(keep bool) string {
		x, y := genNumber(r), genNumber(r)
		if keep {
			f.coords = append(f.coords, [2]float64{x, y})
		}
		s := num(x) + "," + num(y)
		for i := 2; i < dims; i++ {
			s += "," + num(genNumber(r))
		}
		return "[" + s + "]"
	}
	list := func(n int, keep bool) string {
		var s []string
		for i := 0; i < n; i++ {
			s = append(s, pos(keep))
		}
		if n > 3 && r.Intn(2) == 0 { // closed
			s = append(s, s[0])
			if keep {
				f.coords = append(f.coords, f.coords[0])
			}
		}
		return "[" + strings.Join(s, ",") + "]"
	}
	var g string
	switch r.Intn(3) {
	case 0:
		f.typ = "Point"
		g = pos(true)
	case 1:
		f.typ = "LineString"
		n := 2 + many(r, 8, 20, 5000)
		var s []string
		for i := 0; i < n; i++ {
			s = append(s, pos(true))
		}
		g = "[" + strings.Join(s, ",") + "]"
	case 2:
		f.typ = "Polygon"
		n := 4 + many(r, 12, 20, 5000)
		g = "[" + list(n, true)
		for i := 0; i < r.Intn(3); i++ {
			g += "," + list(4+r.Intn(3), false)
		}
		g += "]"
	}
	var ps []string
	np := many(r, 6, 50, 600)
	for i := 0; i < np; i++ {
		k := genText(r)
		if np > 6 {
			k += fmt.Sprint(i)
		}
		if _, dup := f.props[k]; dup {
			continue
		}
		switch r.Intn(4) {
		case 0:
			v := genText(r)
			f.props[k] = v
			ps = append(ps, jstr(k)+":"+jstr(v))
		case 1:
			v := genNumber(r)
			f.props[k] = v
			ps = append(ps, jstr(k)+":"+num(v))
		case 2:
			v := r.Intn(2) == 0
			f.props[k] = v
			ps = append(ps, jstr(k)+":"+fmt.Sprint(v))
		case 3:
			f.props[k] = nil
			ps = append(ps, jstr(k)+":null")
		}
	}
	for k, v := range f.props {
		if v == nil {
			delete(f.props, k)
		}
	}
	pj := "{" + strings.Join(ps, ",") + "}"
	if len(ps) == 0 && r.Intn(2) == 0 {
		pj = "null"
	}
	f.json = `{"type":"Feature","properties":` + pj + `,"geometry":{"type":"` + f.typ + `","coordinates":` + g + `}}`
	return f
}

// jnum reads a JSON number.
func jnum(v interface{}) (float64, error) {
	n, ok := v.(json.Number)
	if !ok {
		return 0, fmt.Errorf("%v is not a number", v)
	}
	return strconv.ParseFloat(string(n), 64)
}

func decodeJSON(b []byte) (map[string]interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var m map[string]interface{}
	if err := d.Decode(&m); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("trailing data")
	}
	return m, nil
}

func jpositions(v interface{}) ([][2]float64, error) {
	l, ok := v.([]interface{})
	if !ok {
		return nil, fmt.Errorf("%v is not a list", v)
	}
	var res [][2]float64
	for _, p := range l {
		x, err := jposition(p)
		if err != nil {
			return nil, err
		}
		res = append(res, x)
	}
	return res, nil
}

func jposition(v interface{}) (p [2]float64, err error) {
	l, ok := v.([]interface{})
	if !ok || len(l) != 2 {
		return p, fmt.Errorf("%v is not a position", v)
	}
	for i := range p {
		if p[i], err = jnum(l[i]); err != nil {
			return p, err
		}
	}
	return p, nil
}

// jrings reads the coordinates of a geometry of the type: parts of rings of positions.
func jparts(typ string, v interface{}) ([][][][2]float64, error) {
	switch typ {
	case "Point":
		p, err := jposition(v)
		return [][][][2]float64{{{p}}}, err
	case "LineString":
		p, err := jpositions(v)
		return [][][][2]float64{{p}}, err
	case "Polygon":
		l, ok := v.([]interface{})
		if !ok {
			return nil, fmt.Errorf("%v is not a list of rings", v)
		}
		var rings [][][2]float64
		for _, x := range l {
			p, err := jpositions(x)
			if err != nil {
				return nil, err
			}
			rings = append(rings, p)
		}
		return [][][][2]float64{rings}, nil
	case "MultiPolygon":
		l, ok := v.([]interface{})
		if !ok {
			return nil, fmt.Errorf("%v is not a list of polygons", v)
		}
		var parts [][][][2]float64
		for _, x := range l {
			p, err := jparts("Polygon", x)
			if err != nil {
				return nil, err
			}
			parts = append(parts, p[0])
		}
		return parts, nil
	}
	return nil, fmt.Errorf("unexpected type %s", typ)
}

func samePos(a, b [][2]float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		for j := 0; j < 2; j++ {
			if math.Float64bits(a[i][j]) != math.Float64bits(b[i][j]) {
				return false
			}
		}
	}
	return true
}

// compareFeature compares a rendered feature.
func compareFeature(v interface{}, typ string, parts [][][][2]float64, props map[string]interface{}) error {
	f, ok := v.(map[string]interface{})
	if !ok || f["type"] != "Feature" {
		return fmt.Errorf("not a feature: %v", v)
	}
	g, ok := f["geometry"].(map[string]interface{})
	if !ok || g["type"] != typ {
		return fmt.Errorf("geometry %v, want type %s", f["geometry"], typ)
	}
	got, err := jparts(typ, g["coordinates"])
	if err != nil {
		return err
	}
	if len(got) != len(parts) {
		return fmt.Errorf("%d parts, want %d", len(got), len(parts))
	}
	for i := range parts {
		if len(got[i]) != len(parts[i]) {
			return fmt.Errorf("part %d: %d rings, want %d", i, len(got[i]), len(parts[i]))
		}
		for j := range parts[i] {
			if !samePos(got[i][j], parts[i][j]) {
				return fmt.Errorf("part %d ring %d: %v, want %v", i, j, got[i][j], parts[i][j])
			}
		}
	}
	gp, _ := f["properties"].(map[string]interface{})
	if f["properties"] != nil && gp == nil {
		return fmt.Errorf("properties %v", f["properties"])
	}
	if len(gp) != len(props) {
		return fmt.Errorf("properties %v, want %v", gp, props)
	}
	for k, w := range props {
		g, ok := gp[k]
		if !ok {
			return fmt.Errorf("property %q is missing", k)
		}
		switch w := w.(type) {
		case float64:
			x, err := jnum(g)
			if err != nil || math.Float64bits(x) != math.Float64bits(w) {
				return fmt.Errorf("property %q: %v, want %v", k, g, w)
			}
		default:
			if !reflect.DeepEqual(g, w) {
				return fmt.Errorf("property %q: %v, want %v", k, g, w)
			}
		}
	}
	return nil
}

func flatten(p [][2]float64) []float64 {
	var r []float64
	for _, x := range p {
		r = append(r, x[0], x[1])
	}
	return r
}

func sameFloats(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
			return false
		}
	}
	return true
}

func indexOf(fs []*gfeature, f *gfeature) int {
	for i := range fs {
		if fs[i] == f {
			return i
		}
	}
	return -1
}

// like is the same feature, at times with other properties or one coordinate changed.
func (f *gfeature) like(r *rand.Rand) *gfeature {
	n := &gfeature{typ: f.typ, coords: append([][2]float64(nil), f.coords...), props: map[string]interface{}{}}
	if f.typ == "Polygon" && len(n.coords) < 4 || r.Intn(3) == 0 {
		return f
	}
	for k, v := range f.props {
		if r.Intn(4) > 0 {
			n.props[k] = v
		}
	}
	if r.Intn(2) == 0 {
		n.props[genText(r)] = genText(r)
	}
	if r.Intn(2) == 0 {
		n.coords[r.Intn(len(n.coords))] = [2]float64{genNumber(r), genNumber(r)}
	}
	var ps, co []string
	for k, v := range n.props {
		b, _ := json.Marshal(v)
		ps = append(ps, jstr(k)+":"+string(b))
	}
	sort.Strings(ps)
	for _, x := range n.coords {
		co = append(co, "["+num(x[0])+","+num(x[1])+"]")
	}
	g := strings.Join(co, ",")
	switch f.typ {
	case "LineString":
		g = "[" + g + "]"
	case "Polygon":
		g = "[[" + g + "]]"
	}
	n.json = `{"type":"Feature","properties":{` + strings.Join(ps, ",") + `},"geometry":{"type":"` + n.typ + `","coordinates":` + g + `}}`
	return n
}

func partsFor(f *gfeature) [][][][2]float64 { return [][][][2]float64{{f.coords}} }

func runC30(c *Case) {
	var fs []*gfeature
	var gds []*geodata.GeoData
	n := 1 + c.R.Intn(5)
	for i := 0; i < n; i++ {
		f := genFeature(c.R)
		if i > 0 && c.R.Intn(4) == 0 { // one of the former again, or much like it
			f = fs[c.R.Intn(i)]
			c.Count("repeated features", 1)
			if c.R.Intn(2) == 0 {
				fs, gds = append(fs, f), append(gds, gds[indexOf(fs, f)])
				continue
			}
			f = f.like(c.R)
		}
		c.Logf("feature %s", f.json)
		var gf geojson.Feature
		if err := json.Unmarshal([]byte(f.json), &gf); err != nil {
			c.Infra("the feature is not read by the GeoJSON package: %v: %s", err, f.json)
		}
		gd := &geodata.GeoData{}
		if err := geodata.GeoJSONFeatureToGeoData(&gf, gd); err != nil {
			c.Fail("refused", "converting the feature: %v\n%s", err, f.json)
		}
		if !sameFloats(gd.Geometry.Coordinates, flatten(f.coords)) {
			c.Fail("coordinates", "stored coordinates %v of the feature %s", gd.Geometry.Coordinates, f.json)
		}
		b, err := proto.Marshal(gd)
		if err != nil {
			c.Fail("marshal", "serializing the stored form: %v\n%s", err, f.json)
		}
		back := &geodata.GeoData{}
		if c.R.Intn(2) == 0 { // a used one
			back = pointGD(1, 2)
		}
		if err := proto.Unmarshal(b, back); err != nil {
			c.Fail("unmarshal", "%v", err)
		}
		if !proto.Equal(gd, back) {
			c.Fail("protobuf", "serializing and back: %v, was %v", back, gd)
		}
		fs, gds = append(fs, f), append(gds, back)
		c.Count("features "+f.typ, 1)
		c.Count("properties", len(f.props))
		// geometry and back
		g, err := geodata.GeoDataToGeom(back)
		if err != nil {
			c.Fail("geom", "GeoDataToGeom(%v): %v", back, err)
		}
		again := &geodata.GeoData{}
		if err := geodata.GeomToGeoData(g, again); err != nil {
			c.Fail("geom back", "GeomToGeoData: %v", err)
		}
		if again.Geometry.Type != back.Geometry.Type || !sameFloats(again.Geometry.Coordinates, back.Geometry.Coordinates) {
			c.Fail("geom differs", "geometry and back: %v, was %v", again.Geometry, back.Geometry)
		}
		// the geometry means the same to the GeoJSON package
		gj, err := geojson.Marshal(g)
		if err != nil {
			c.Fail("geom", "rendering the geometry: %v", err)
		}
		if err := compareFeature(map[string]interface{}{"type": "Feature", "geometry": mustMap(c, gj)}, f.typ, partsFor(f), nil); err != nil {
			c.Fail("geom meaning", "GeoDataToGeom: %v", err)
		}
		c.Eval(1)
	}
	out, err := geodata.ToGeoJSONFeatureCollection(gds)
	if err != nil {
		c.Fail("render", "%v", err)
	}
	m := mustMap(c, out)
	l, _ := m["features"].([]interface{})
	if m["type"] != "FeatureCollection" || len(l) != n {
		c.Fail("collection", "%d features rendered as %s", n, out)
	}
	for i := range fs {
		if err := compareFeature(l[i], fs[i].typ, partsFor(fs[i]), fs[i].props); err != nil {
			c.Fail("round trip", "feature %s came back different: %v\n%s", fs[i].json, err, out)
		}
	}
	// multipolygons
	var mp *geodata.GeoData
	var parts [][][][2]float64
	{
		var pc [][]float64
		for i := 0; i < 1+c.R.Intn(3); i++ {
			var ring [][2]float64
			for j := 0; j < 4+c.R.Intn(4); j++ {
				ring = append(ring, [2]float64{genNumber(c.R), genNumber(c.R)})
			}
			if c.R.Intn(3) == 0 {
				ring = append(ring, ring[0])
			}
			if i > 0 && c.R.Intn(3) == 0 { // much like the one before
				ring = append([][2]float64(nil), parts[i-1][0]...)
				switch k := c.R.Intn(len(ring)); c.R.Intn(4) {
				case 0:
					ring[k][c.R.Intn(2)] = genNumber(c.R)
				case 1:
					ring = append(append([][2]float64(nil), ring[k:]...), ring[:k]...)
				case 2:
					ring = append(ring[:k:k], append([][2]float64{ring[k]}, ring[k:]...)...)
				}
				c.Count("parts alike", 1)
			}
			parts = append(parts, [][][2]float64{ring})
			pc = append(pc, flatten(ring))
		}
		mp = multiGD(pc...)
		mp.Properties = map[string]*spb.Value{
			"s": {Kind: &spb.Value_StringValue{StringValue: "v"}}, "n": {Kind: &spb.Value_NumberValue{NumberValue: 1.5}}, "z": {Kind: &spb.Value_NullValue{}},
		}
		out, err := geodata.ToGeoJSONFeatureCollection([]*geodata.GeoData{mp, gds[0], mp})
		if err != nil {
			c.Fail("render multi", "%v", err)
		}
		l, _ := mustMap(c, out)["features"].([]interface{})
		if len(l) != 3 {
			c.Fail("collection", "3 features rendered as %s", out)
		}
		for _, i := range []int{0, 2} {
			if err := compareFeature(l[i], "MultiPolygon", parts, map[string]interface{}{"s": "v", "n": 1.5}); err != nil {
				c.Fail("multipolygon", "%v\n%s", err, out)
			}
		}
		if err := compareFeature(l[1], fs[0].typ, partsFor(fs[0]), fs[0].props); err != nil {
			c.Fail("round trip", "%v\n%s", err, out)
		}
		c.Count("multipolygons", 1)
	}
	// points as a line
	{
		var pts []*geodata.GeoData
		var pos [][2]float64
		for i := 0; i < 2+c.R.Intn(8); i++ {
			x, y := genNumber(c.R), genNumber(c.R)
			pos = append(pos, [2]float64{x, y})
			pts = append(pts, pointGD(y, x))
			for c.R.Intn(4) == 0 { // the same place again
				k := c.R.Intn(len(pos))
				pos = append(pos, pos[k])
				if c.R.Intn(2) == 0 {
					pts = append(pts, pts[k])
				} else {
					pts = append(pts, pointGD(pos[k][1], pos[k][0]))
				}
			}
		}
		out, err := geodata.PointsToGeoJSONPolyLines(pts)
		if err != nil {
			c.Fail("render points", "%v", err)
		}
		if err := compareFeature(interface{}(mustMap(c, out)), "LineString", [][][][2]float64{{pos}}, nil); err != nil {
			c.Fail("points", "points rendered as a line: %v\n%s", err, out)
		}
		k := c.R.Intn(len(pts))
		pts[k] = lineGD(1, 2, 3, 4)
		if _, err := geodata.PointsToGeoJSONPolyLines(pts); err == nil {
			c.Fail("points accepted", "a line among the points was accepted")
		}
		c.Count("point lists", 1)
	}
	// what is not supported is refused
	{
		un := []string{
			`{"type":"MultiPoint","coordinates":[[1,2],[3,4]]}`,
			`{"type":"MultiLineString","coordinates":[[[1,2],[3,4]]]}`,
			`{"type":"MultiPolygon","coordinates":[[[[1,2],[3,4],[5,6],[1,2]]]]}`,
			`{"type":"GeometryCollection","geometries":[{"type":"Point","coordinates":[1,2]}]}`,
		}
		g := un[c.R.Intn(len(un))]
		var gf geojson.Feature
		if err := json.Unmarshal([]byte(`{"type":"Feature","properties":{},"geometry":`+g+`}`), &gf); err == nil {
			if err := geodata.GeoJSONFeatureToGeoData(&gf, &geodata.GeoData{}); err == nil {
				c.Fail("unsupported geometry", "the geometry %s was accepted", g)
			}
			c.Count("unsupported geometries", 1)
		}
		p := []string{`[1]`, `{"a":1}`, `[]`, `{}`, `[null]`}[c.R.Intn(5)]
		var pf geojson.Feature
		if err := json.Unmarshal([]byte(`{"type":"Feature","properties":{"ok":1,"bad":`+p+`,"s":"x"},"geometry":{"type":"Point","coordinates":[1,2]}}`), &pf); err != nil {
			c.Infra("%v", err)
		}
		if err := geodata.GeoJSONFeatureToGeoData(&pf, &geodata.GeoData{}); err == nil {
			c.Fail("unsupported property", "the property %s was accepted", p)
		}
		c.Count("unsupported properties", 1)
		for _, t := range []geodata.Geometry_Type{77, -1, geodata.Geometry_Type(c.R.Intn(1000) + 20)} {
			gd := &geodata.GeoData{Geometry: &geodata.Geometry{Type: t, Coordinates: []float64{1, 2, 3, 4, 5, 6}}}
			if _, err := geodata.ToGeoJSONFeatureCollection([]*geodata.GeoData{gds[0], gd}); err == nil {
				c.Fail("unsupported type", "the geometry type %d was rendered", t)
			}
			if _, err := geodata.GeoDataToGeom(gd); err == nil {
				c.Fail("unsupported type", "the geometry type %d was converted", t)
			}
		}
	}
	c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx))
	if c.Idx < 1 {
		c.Sample(fs[0].json)
	}
}

func mustMap(c *Case, b []byte) map[string]interface{} {
	m, err := decodeJSON(b)
	if err != nil {
		c.Fail("json", "not JSON: %v: %s", err, b)
	}
	return m
}

// ---------------------------------------------------------------- C31

func cloneGD(gd *geodata.GeoData) *geodata.GeoData { return proto.Clone(gd).(*geodata.GeoData) }

// exactGD compares all of it, bits of the coordinates included.
func exactGD(a, b *geodata.GeoData) bool {
	if !proto.Equal(a, b) {
		return false
	}
	x, y := a.Geometry, b.Geometry
	if x == nil || y == nil {
		return x == y
	}
	if !sameFloats(x.Coordinates, y.Coordinates) {
		return false
	}
	for i := range x.Geometries {
		if !sameFloats(x.Geometries[i].Coordinates, y.Geometries[i].Coordinates) {
			return false
		}
	}
	return true
}

// gdBits are the bits of the coordinates, those behind their end included.
func gdBits(gd *geodata.GeoData) []uint64 {
	var r []uint64
	if gd.GetGeometry() == nil {
		return nil
	}
	add := func(c []float64) {
		r = append(r, uint64(len(c)))
		for _, x := range c[:cap(c)] {
			r = append(r, math.Float64bits(x))
		}
	}
	add(gd.Geometry.Coordinates)
	for _, g := range gd.Geometry.Geometries {
		add(g.Coordinates)
	}
	return r
}

// spareCap gives the coordinates room behind the end, filled with a pattern.
func spareCap(r *rand.Rand, gd *geodata.GeoData) {
	grow := func(c []float64) []float64 {
		n := make([]float64, len(c)+4)
		copy(n, c)
		for i := len(c); i < len(n); i++ {
			n[i] = 777
		}
		return n[:len(c)]
	}
	if r.Intn(2) == 0 && gd.Geometry != nil {
		gd.Geometry.Coordinates = grow(gd.Geometry.Coordinates)
		for _, g := range gd.Geometry.Geometries {
			g.Coordinates = grow(g.Coordinates)
		}
	}
}

func genCoverer(r *rand.Rand, size float64) *s2.RegionCoverer {
	// the minimum level must not be too fine for the size
	max := 30
	for max > 0 && cellSize(max) < size/6 {
		max--
	}
	rc := &s2.RegionCoverer{MinLevel: r.Intn(max + 1), MaxCells: r.Intn(30)}
	rc.MaxLevel = rc.MinLevel + r.Intn(31-rc.MinLevel)
	if r.Intn(4) == 0 {
		rc.MaxLevel = rc.MinLevel
	}
	if r.Intn(2) == 0 {
		rc.LevelMod = 1 + r.Intn(3)
	}
	if r.Intn(10) == 0 {
		rc.MaxCells = 200
	}
	return rc
}

// interiorCoverer is fine enough to find something inside, and not finer: the
// search for interior cells follows the border down to the maximum level.
func interiorCoverer(r *rand.Rand, rc *s2.RegionCoverer, size float64) *s2.RegionCoverer {
	ic := *rc
	ic.MaxCells = 20 + r.Intn(60)
	lim := 0
	for lim < 30 && cellSize(lim) > size/12 {
		lim++
	}
	ic.MaxLevel = lim
	if ic.MinLevel > ic.MaxLevel {
		ic.MinLevel = ic.MaxLevel
	}
	return &ic
}

func runC31(c *Case) {
	sh := genShape(c.R, hotSpot(c.R), math.Exp(-c.R.Float64()*14))
	gd := sh.gd
	gd.Properties = map[string]*spb.Value{"a": {Kind: &spb.Value_StringValue{StringValue: "x"}}, "n": {Kind: &spb.Value_NumberValue{NumberValue: 3}}}
	spareCap(c.R, gd)
	before := cloneGD(gd)
	bits := fmt.Sprint(gdBits(gd))
	rc := genCoverer(c.R, sh.size)
	ic := interiorCoverer(c.R, rc, sh.size)
	rc0, ic0 := *rc, *ic
	c.Logf("%s coverer %+v", sh, *rc)
	same := func(what string) {
		c.Eval(1)
		c.Count("calls", 1)
		if !proto.Equal(gd, before) || fmt.Sprint(gdBits(gd)) != bits {
			c.Fail("modified by "+what, "%s modified its input\nbefore %v\nafter  %v", what, before, gd)
		}
		if *rc != rc0 || *ic != ic0 {
			c.Fail("coverer modified by "+what, "%s of %s modified the coverer: %+v %+v, was %+v %+v", what, sh, *rc, *ic, rc0, ic0)
		}
	}
	repeat := func(what string, f func() interface{}) {
		a := fmt.Sprint(f())
		same(what)
		b := fmt.Sprint(f())
		if a != b {
			c.Fail("differs "+what, "%s repeated on the same object gives another result\nfirst  %s\nsecond %s", what, trim(a, 800), trim(b, 800))
		}
		c.Count("repeated", 1)
	}
	repeat("Cover", func() interface{} { x, err := gd.Cover(rc); return []interface{}{x, err} })
	repeat("InteriorCover", func() interface{} { x, err := gd.InteriorCover(ic); return []interface{}{x, err} })
	repeat("GeoDataToCoverCellUnion", func() interface{} { x, err := geodata.GeoDataToCoverCellUnion(gd, rc); return []interface{}{x, err} })
	repeat("GeoDataToRect", func() interface{} { x, err := geodata.GeoDataToRect(gd); return []interface{}{x, err} })
	repeat("GeoDataToGeom", func() interface{} {
		g, err := geodata.GeoDataToGeom(gd)
		if err != nil {
			return err
		}
		return []interface{}{g.FlatCoords(), g.Ends(), g.Layout()}
	})
	repeat("ToGeoJSONFeatureCollection", func() interface{} {
		x, err := geodata.ToGeoJSONFeatureCollection([]*geodata.GeoData{gd})
		m := mustMap(c, x)
		return []interface{}{m, err}
	})
	if sh.kind == "point" {
		repeat("PointsToGeoJSONPolyLines", func() interface{} {
			x, err := geodata.PointsToGeoJSONPolyLines([]*geodata.GeoData{gd, gd})
			return []interface{}{mustMap(c, x), err}
		})
	}
	repeat("PropertiesToJSONMap", func() interface{} { return geodata.PropertiesToJSONMap(gd.Properties) })
	if len(sh.rings) > 0 {
		co := gd.Geometry.Coordinates
		if sh.kind == "multi" {
			co = gd.Geometry.Geometries[0].Coordinates
		}
		for _, ccw := range []bool{false, true} {
			ccw := ccw
			repeat("LoopFromCoordinatesAndCCW", func() interface{} { return geodata.LoopFromCoordinatesAndCCW(co, ccw).Vertices() })
		}
		repeat("LoopFromCoordinates", func() interface{} { return geodata.LoopFromCoordinates(co).Vertices() })
	}
	// indexing
	s := c.mustOpen("gtreap", "", nil, nil)
	lvl := rc.MinLevel
	fi, ti, pi := index.NewS2FlatIdx(s, roomy([]byte("F")), lvl), index.NewS2FlatTimeIdx(s, roomy([]byte("T")), lvl), index.NewS2PointIdx(s, roomy([]byte("P")))
	id := make(index.GeoID, 3, 10)
	copy(id, "idx")
	copy(id[:10], "idxREMAINS")
	repeat("GeoIndex", func() interface{} { err := fi.GeoIndex(gd, id); return []interface{}{err, c.content(s)} })
	repeat("GeoTimeIndex", func() interface{} {
		return []interface{}{ti.GeoTimeIndex(gd, index.MinGeoTime, id), c.content(s)}
	})
	repeat("GeoPointIndex", func() interface{} {
		k, err := pi.GeoPointIndex(gd, id)
		return []interface{}{k, err, c.content(s)}
	})
	if string(id[:10]) != "idxREMAINS" {
		c.Fail("id modified", "indexing modified the caller's id: %q", id[:10])
	}
	repeat("Covering", func() interface{} { x, err := fi.Covering(gd); return []interface{}{x, err} })
	// cell unions
	cu, err := gd.Cover(rc)
	if err != nil {
		c.Fail("cover", "%v", err)
	}
	other := append(s2.CellUnion(nil), cu...)
	for i := range other {
		if c.R.Intn(3) == 0 {
			other[i] = other[i].NextWrap()
		}
	}
	c.R.Shuffle(len(other), func(i, j int) { other[i], other[j] = other[j], other[i] })
	c1, c2 := append(s2.CellUnion(nil), cu...), append(s2.CellUnion(nil), other...)
	cuSame := func(what string) {
		if !reflect.DeepEqual(cu, c1) || !reflect.DeepEqual(other, c2) {
			c.Fail("cells modified by "+what, "%s modified a cell union", what)
		}
		c.Count("calls", 1)
	}
	u := s2tools.CellUnionUnion(other, cu)
	cuSame("CellUnionUnion")
	for i := range u { // the result is the caller's
		u[i] = 0
	}
	cuSame("writing to the result of CellUnionUnion")
	ms := s2tools.CellUnionMissing(other, cu)
	for i := range ms {
		ms[i] = 0
	}
	cuSame("CellUnionMissing")
	s2tools.CellUnionToGeoJSON(other)
	s2tools.CellUnionToTokens(other)
	fi.GeoIdsAtCells(other)
	pi.GeoIdsAtCells(other)
	cuSame("rendering and lookups")
	// stored forms are independent of the geometry they came from
	f := genFeature(c.R)
	var gf geojson.Feature
	if err := json.Unmarshal([]byte(f.json), &gf); err != nil {
		c.Infra("%v", err)
	}
	fj, _ := json.Marshal(&gf)
	ngd := &geodata.GeoData{}
	if err := geodata.GeoJSONFeatureToGeoData(&gf, ngd); err != nil {
		c.Fail("convert", "%v", err)
	}
	if fj2, _ := json.Marshal(&gf); !bytes.Equal(fj, fj2) {
		c.Fail("feature modified", "converting modified the feature\n%s\n%s", fj, fj2)
	}
	was := cloneGD(ngd)
	fc := gf.Geometry.FlatCoords()
	for i := range fc {
		fc[i] = 12345
	}
	_ = append(fc[:0], 9, 9, 9)
	for k := range gf.Properties {
		gf.Properties[k] = "changed"
	}
	gf.Properties = nil
	if !exactGD(ngd, was) {
		c.Fail("aliased", "the stored form changed with the geometry it was made from: %v, was %v", ngd, was)
	}
	c.Count("stored forms kept", 1)
	ls := geom.NewLineStringFlat(geom.XY, []float64{1, 2, 3, 4})
	lgd := &geodata.GeoData{}
	if err := geodata.GeomToGeoData(ls, lgd); err != nil {
		c.Fail("convert", "%v", err)
	}
	lgd.Geometry.Coordinates = append(lgd.Geometry.Coordinates[:2], 8, 8)
	if !sameFloats(ls.FlatCoords(), []float64{1, 2, 3, 4}) {
		c.Fail("aliased", "writing to the stored form changed the geometry")
	}
	c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx))
	if c.Idx < 1 {
		c.Sample(sh.String())
	}
}

// ---------------------------------------------------------------- C32

func covers(cu []s2.CellID, p vec) bool {
	for _, leaf := range cellsAt(p, 30) {
		for _, x := range cu {
			if x.Contains(leaf) {
				return true
			}
		}
	}
	return false
}

func cellVerts(x s2.CellID) [4]vec {
	cell := s2.CellFromCellID(x)
	var r [4]vec
	for i := range r {
		v := cell.Vertex(i)
		r[i] = vec{v.X, v.Y, v.Z}.unit()
	}
	return r
}

func runC32(c *Case) {
	size := math.Exp(-c.R.Float64() * 20)
	sh := genShape(c.R, hotSpot(c.R), size)
	rc := genCoverer(c.R, size)
	if len(sh.verts) < 80 && c.R.Intn(6) == 0 { // fine enough for the course of the border
		for rc.MinLevel < 30 && cellSize(rc.MinLevel) > size/30 {
			rc.MinLevel++
		}
		rc.MaxLevel = rc.MinLevel
		c.Count("fine coverings", 1)
	}
	c.coverings(sh, rc, size)
	for n := c.R.Intn(4) - 1; n > 0; n-- {
		// objects sharing most vertices with it, or it changed in place
		rel := sh.relative(c.R)
		if c.R.Intn(2) == 0 {
			sh.become(c.R, rel)
		} else {
			sh = rel
		}
		c.Count("related objects", 1)
		c.coverings(sh, rc, size)
	}
}

func (c *Case) coverings(sh *shape, rc *s2.RegionCoverer, size float64) {
	c.Logf("%s size %g coverer %+v", sh, size, *rc)
	cu, err := sh.gd.Cover(rc)
	if err != nil {
		c.Fail("error", "covering %s with %+v: %v", sh, *rc, err)
	}
	c.Count("coverings "+sh.kind, 1)
	c.Eval(1)
	judge := func(cu s2.CellUnion, what string, near bool) {
		for i, x := range cu {
			l := x.Level()
			if !x.IsValid() || l < rc.MinLevel || l > rc.MaxLevel || rc.LevelMod > 1 && (l-rc.MinLevel)%rc.LevelMod != 0 {
				c.Fail("level", "the %s of %s with %+v has the cell %s of level %d", what, sh, *rc, x, l)
			}
			c.Count("cells", 1)
			if near && (i < 300 || c.R.Intn(10) == 0) {
				if d := sh.cellDistance(x); d > maxDiag(l)*1.001 {
					c.Fail("far", "the %s of %s with %+v has the cell %s, %g radians away", what, sh, *rc, x, d)
				}
			}
		}
	}
	judge(cu, "covering", true)
	if sh.kind == "point" {
		want := sh.gd.Geometry.Coordinates
		if len(cu) != 1 || cu[0] != leafAt(want[1], want[0]).Parent(rc.MinLevel) {
			c.Fail("point", "the covering of %s with %+v is %v", sh, *rc, cu)
		}
	}
	for i := 0; i < 25; i++ {
		p, what := sh.sample(c.R)
		c.Count(what, 1)
		if !covers(cu, p) {
			lat, lng := p.deg()
			c.Fail("uncovered "+what, "the covering of %s with %+v (%d cells) does not contain the %s %.13f,%.13f", sh, *rc, len(cu), what, lat, lng)
		}
	}
	// the deprecated spelling agrees
	cu2, err := geodata.GeoDataToCoverCellUnion(sh.gd, rc)
	if err != nil || !reflect.DeepEqual(cu, cu2) {
		c.Fail("spelling", "Cover and GeoDataToCoverCellUnion differ for %s with %+v: %v", sh, *rc, err)
	}
	if sh.kind == "multi" {
		want := map[s2.CellID]bool{}
		for _, g := range sh.gd.Geometry.Geometries {
			pu, err := polyGD(g.Coordinates...).Cover(rc)
			if err != nil {
				c.Fail("error", "%v", err)
			}
			for _, x := range pu {
				want[x] = true
			}
		}
		got := map[s2.CellID]bool{}
		for _, x := range cu {
			got[x] = true
		}
		if !reflect.DeepEqual(got, want) {
			c.Fail("union", "the covering of the multipolygon %s with %+v is not the union of those of its polygons", sh, *rc)
		}
		c.Count("unions compared", 1)
	}
	if sh.kind == "line" {
		rc := interiorCoverer(c.R, rc, size)
		iu, err := sh.gd.InteriorCover(rc)
		if err != nil || len(iu) != 0 {
			c.Fail("line interior", "the interior covering of %s with %+v has the cells %v, no cell lies inside a line (%v)", sh, *rc, iu, err)
		}
		c.Count("interiors of lines", 1)
	}
	if sh.kind == "polygon" || sh.kind == "multi" {
		rc = interiorCoverer(c.R, rc, size)
		iu, err := sh.gd.InteriorCover(rc)
		if err != nil {
			c.Fail("error", "interior covering of %s with %+v: %v", sh, *rc, err)
		}
		judge(iu, "interior covering", false)
		for _, x := range iu {
			vs := cellVerts(x)
			var pts []vec
			for i := range vs {
				for j := 0; j < 4; j++ {
					pts = append(pts, slerp(vs[i], vs[(i+1)%4], float64(j)/4))
				}
			}
			for j := 0; j < 6; j++ {
				a, b := c.R.Float64(), c.R.Float64()
				pts = append(pts, slerp(slerp(vs[0], vs[1], a), slerp(vs[3], vs[2], a), b))
			}
			c.Count("interior cells", 1)
			for _, p := range pts {
				if d := sh.distance(p); d > 1e-12 {
					c.Fail("not interior", "the interior covering of %s with %+v has the cell %s which reaches %g radians outside", sh, *rc, x, d)
				}
			}
		}
	}
	c.Seen("settings", fmt.Sprintf("%d %d %d", rc.MinLevel, rc.MaxLevel, rc.LevelMod))
	if len(cu) > 1 {
		c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx))
	}
	if c.Idx < 1 {
		c.Sample(fmt.Sprintf("%s with %+v: %d cells", sh, *rc, len(cu)))
	}
}

// ---------------------------------------------------------------- C33

func sortedCells(cu []s2.CellID) []s2.CellID {
	r := append([]s2.CellID(nil), cu...)
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func runC33(c *Case) {
	level := c.R.Intn(23)
	sh := &shape{kind: "polygon", fr: newFrame(hotSpot(c.R)), size: shapeSize(c.R, level)}
	k := math.Tan(math.Min(sh.size, 1.3))
	ring := scaleRing(ringPlane(c.R), k, 0, 0)
	if c.R.Intn(4) == 0 {
		if g := sh.gridRing(c.R); g != nil {
			ring = g
			c.Count("rings along parallels and meridians", 1)
		}
	}
	sh.addRing(rand.New(rand.NewSource(1)), ring)
	c.spellings(sh, level)
	if c.R.Intn(3) == 0 { // a ring sharing most vertices with it
		rel := &shape{kind: "polygon", fr: sh.fr, size: sh.size, digits: sh.digits}
		rel.addPart(ringSrc{ring: ring}.relative(c.R))
		c.Count("related rings", 1)
		c.spellings(rel, level)
	}
}

// spellings compares a ring in all its spellings.
func (c *Case) spellings(sh *shape, level int) {
	pts := sh.verts
	rc := levelCoverer(level)
	first := polyGD(sh.ringCoords(pts, false, 0, true)...)
	sh.gd = first
	want, err := first.Cover(rc)
	if err != nil {
		c.Fail("error", "covering %s at level %d: %v", sh, level, err)
	}
	c.Logf("%s level %d: %d cells", sh, level, len(want))
	for _, x := range want {
		if d := sh.cellDistance(x); d > maxDiag(level)*1.001 {
			c.Fail("far", "the covering of the counter clockwise ring %s at level %d has the cell %s, %g radians away", sh, level, x, d)
		}
	}
	s := c.mustOpen("gtreap", "", nil, nil)
	idx := index.NewS2FlatIdx(s, roomy([]byte("F")), level)
	ti := index.NewS2FlatTimeIdx(s, roomy([]byte("T")), level)
	if err := idx.GeoIndex(first, index.GeoID("a")); err != nil {
		c.Fail("index", "%v", err)
	}
	if err := ti.GeoTimeIndex(first, index.MinGeoTime, index.GeoID("a")); err != nil {
		c.Fail("index", "%v", err)
	}
	keys := c.content(s)
	w := sortedCells(want)
	wantInt, _ := first.InteriorCover(&s2.RegionCoverer{MinLevel: level, MaxLevel: level, MaxCells: 1000})
	wi := sortedCells(wantInt)
	n := len(pts)
	starts := []int{0, 1, n - 1, c.R.Intn(n), c.R.Intn(n)}
	for _, cw := range []bool{false, true} {
		for _, st := range starts {
			for _, closed := range []bool{false, true} {
				gd := polyGD(sh.ringCoords(pts, cw, st, closed)...)
				if c.R.Intn(4) == 0 {
					if co := repeatVertices(c.R, gd.Geometry.Coordinates); len(co) > 6 && (len(co) > len(gd.Geometry.Coordinates)) {
						gd = polyGD(co...)
						c.Count("repeated vertices", 1)
					}
				}
				if c.R.Intn(10) == 0 { // as the only part of a multipolygon
					gd = multiGD(gd.Geometry.Coordinates)
				}
				got, err := gd.Cover(rc)
				if err != nil {
					c.Fail("error", "clockwise=%v start=%d closed=%v: covering: %v; %s", cw, st, closed, err, shortGD(gd))
				}
				c.Eval(1)
				c.Count("spellings", 1)
				if !reflect.DeepEqual(sortedCells(got), w) {
					c.Fail("differs", "level %d: the ring written clockwise=%v start=%d closed=%v is covered by %d other cells than counter clockwise from the first vertex (%d): %s", level, cw, st, closed, len(got), len(w), shortGD(gd))
				}
				gi, err := gd.InteriorCover(&s2.RegionCoverer{MinLevel: level, MaxLevel: level, MaxCells: 1000})
				if err != nil || !reflect.DeepEqual(sortedCells(gi), wi) {
					c.Fail("interior differs", "level %d: interior covering of the ring written clockwise=%v start=%d closed=%v: %d cells, %d in the other spelling (%v): %s", level, cw, st, closed, len(gi), len(wi), err, shortGD(gd))
				}
				if c.R.Intn(4) == 0 {
					if err := idx.GeoIndex(gd, index.GeoID("a")); err != nil {
						c.Fail("index", "%v", err)
					}
					if err := ti.GeoTimeIndex(gd, index.MinGeoTime, index.GeoID("a")); err != nil {
						c.Fail("index", "%v", err)
					}
					if d := diffModel(keys, c.content(s)); d != "" {
						c.Fail("index differs", "indexing the ring written clockwise=%v start=%d closed=%v gives other keys: %s", cw, st, closed, d)
					}
					c.Count("index results compared", 1)
				}
			}
		}
	}
	c.Seen("level", fmt.Sprint(level))
	if len(w) > 1 {
		c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx))
	}
	if c.Idx < 1 {
		c.Sample(fmt.Sprintf("level %d %s", level, sh))
	}
}

// ---------------------------------------------------------------- C34

// edgeLat are the extreme latitudes in radians on the arc.
func edgeLat(a, b vec) (lo, hi float64) {
	la, _ := a.deg()
	lb, _ := b.deg()
	lo, hi = math.Min(la, lb)*math.Pi/180, math.Max(la, lb)*math.Pi/180
	n := a.add(b).cross(b.add(a.mul(-1)))
	if n.norm() < 1e-17 {
		return
	}
	n = n.unit()
	for _, s := range []float64{1, -1} {
		h := math.Hypot(n[0], n[1])
		if h < 1e-15 {
			continue
		}
		// the pole less its part along n, without cancellation
		m := vec{-n[0] * n[2] * s, -n[1] * n[2] * s, h * h * s}.unit()
		if a.cross(m).dot(n) > 0 && m.cross(b).dot(n) > 0 {
			l := s * math.Atan2(h, math.Abs(n[2]))
			lo, hi = math.Min(lo, l), math.Max(hi, l)
		}
	}
	return
}

func runC34(c *Case) {
	ctr := hotSpot(c.R)
	if c.R.Intn(4) == 0 { // around the point S2 takes for its origin, and its antipode
		o := vec{-0.0099994664350250197, 0.0025924542609324121, 0.99994664350250195}
		if c.R.Intn(3) == 0 {
			o = o.mul(-1)
		}
		ctr = newFrame(o).at(c.R.NormFloat64()*0.01, c.R.NormFloat64()*0.01)
	}
	sh := genShape(c.R, ctr, math.Exp(-c.R.Float64()*12))
	c.rectangle(sh)
	for n := c.R.Intn(4) - 1; n > 0; n-- {
		// objects sharing most vertices with it, or it changed in place
		rel := sh.relative(c.R)
		if c.R.Intn(2) == 0 {
			sh.become(c.R, rel)
		} else {
			sh = rel
		}
		c.Count("related objects", 1)
		c.rectangle(sh)
	}
}

func (c *Case) rectangle(sh *shape) {
	if sh.kind == "point" || sh.kind == "multi" {
		if _, err := geodata.GeoDataToRect(sh.gd); err == nil {
			c.Fail("accepted", "a rectangle was returned for %s", sh)
		}
		c.Count("refused kinds", 1)
		gd, what := unusable(c.R.Intn(9), 1, c)
		p, st := Guard(func() {
			if _, err := geodata.GeoDataToRect(gd); err == nil {
				c.Fail("accepted", "a rectangle was returned for %s", what)
			}
		})
		if p != nil {
			c.Fail("panic", "GeoDataToRect(%s): panic %v\n%s", what, p, st)
		}
		c.Count("refused unusable", 1)
		return
	}
	c.Logf("%s", sh)
	rect, err := geodata.GeoDataToRect(sh.gd)
	c.Eval(1)
	if err != nil {
		c.Fail("refused", "GeoDataToRect(%s): %v", sh, err)
	}
	c.Count("rectangles "+sh.kind, 1)
	wide := s2.Rect{Lat: rect.Lat.Expanded(5e-15), Lng: rect.Lng.Expanded(5e-15)}
	in := func(p vec) bool {
		for _, x := range near(p, 3e-14) {
			lat, lng := x.deg()
			if wide.ContainsLatLng(s2.LatLngFromDegrees(lat, lng)) {
				return true
			}
		}
		return false
	}
	for i := 0; i < 60; i++ {
		p, what := sh.sample(c.R)
		c.Count(what, 1)
		if !in(p) {
			lat, lng := p.deg()
			c.Fail("outside", "the rectangle %v of %s does not contain the %s %.13f,%.13f", rect, sh, what, lat, lng)
		}
	}
	// tight: compare with the extremes computed edge by edge
	lo, hi := math.Inf(1), math.Inf(-1)
	var ulo, uhi, u float64
	pole := math.Inf(1)
	for i, e := range sh.edges {
		a, b := edgeLat(e[0], e[1])
		lo, hi = math.Min(lo, a), math.Max(hi, b)
		for _, z := range []vec{{0, 0, 1}, {0, 0, -1}} {
			pole = math.Min(pole, arcDistance(z, e[0], e[1]))
		}
		_, l0 := e[0].deg()
		_, l1 := e[1].deg()
		if i == 0 {
			u, ulo, uhi = l0, l0, l0
		}
		u += wrapLng(l1 - l0)
		ulo, uhi = math.Min(ulo, u), math.Max(uhi, u)
	}
	full := uhi-ulo >= 360
	if sh.kind == "polygon" {
		if sh.contains(vec{0, 0, 1}, 0) {
			hi, full = math.Pi/2, true
		}
		if sh.contains(vec{0, 0, -1}, 0) {
			lo, full = -math.Pi/2, true
		}
	}
	if pole < 1e-5 {
		c.Count("through a pole", 1)
		return
	}
	const tol = 1e-9
	if math.Abs(rect.Lat.Lo-lo) > tol || math.Abs(rect.Lat.Hi-hi) > tol {
		c.Fail("latitudes", "the rectangle of %s spans the latitudes %.12f to %.12f, the object %.12f to %.12f", sh, rect.Lat.Lo*180/math.Pi, rect.Lat.Hi*180/math.Pi, lo*180/math.Pi, hi*180/math.Pi)
	}
	gl := rect.Lng.Length() * 180 / math.Pi
	if full {
		if !rect.Lng.IsFull() {
			c.Fail("longitudes", "the rectangle of %s spans the longitudes %v, the object all", sh, rect.Lng)
		}
		c.Count("all longitudes", 1)
	} else {
		if math.Abs(gl-(uhi-ulo)) > 1e-7/math.Max(1e-6, pole) || math.Abs(wrapLng(rect.Lng.Lo*180/math.Pi-wrapAll(ulo))) > 1e-7/pole || math.Abs(wrapLng(rect.Lng.Hi*180/math.Pi-wrapAll(uhi))) > 1e-7/pole {
			c.Fail("longitudes", "the rectangle of %s spans the longitudes %.12f to %.12f, the object %.12f to %.12f", sh, rect.Lng.Lo*180/math.Pi, rect.Lng.Hi*180/math.Pi, wrapAll(ulo), wrapAll(uhi))
		}
		if rect.Lng.IsInverted() {
			c.Count("across the antimeridian", 1)
		}
	}
	c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx))
	if c.Idx < 1 {
		c.Sample(fmt.Sprintf("%s: %v", sh, rect))
	}
}

func wrapAll(x float64) float64 { return wrapLng(math.Mod(x, 360)) }

func init() {
	register(&Check{
		ID:     "C30",
		Rule:   "one case is up to five random GeoJSON features (points, lines, polygons with holes, altitudes, hostile numbers and texts) some repeated or much like another one, taken through conversion, protobuf bytes and rendering and compared by an independent JSON reader, bits of the numbers included, plus a geometry round trip, a multipolygon (parts at times equal or alike), a list of points (at times repeated), and unsupported geometries, property and stored types; every case is non-trivial",
		Need:   []string{"features Point", "features LineString", "features Polygon", "properties", "multipolygons", "parts alike", "repeated features", "point lists", "unsupported geometries", "unsupported properties"},
		Shards: func(th bool) []Shard { return pureShards(th, 1500) },
		Run:    runC30,
	})
	register(&Check{
		ID:     "C31",
		Rule:   "one case takes one object (with spare capacity behind its coordinates) through every covering, bounding, converting, rendering and indexing call twice, with a deep copy and the bits of its coordinates compared after each call and both results compared; cell unions likewise; stored forms are compared after the geometry, properties and feature they came from are overwritten; every case is non-trivial",
		Need:   []string{"calls", "repeated", "stored forms kept"},
		Shards: func(th bool) []Shard { return pureShards(th, 500) },
		Run:    runC31,
	})
	register(&Check{
		ID:     "C32",
		Rule:   "one case is one object and random coverer settings (levels, level step, cell budget): every covering cell must be valid, of an allowed level and within its own diagonal of the object, 25 sampled vertices, edge points and interior points must be covered, a point's covering is its cell, a multipolygon's is the union; every cell of the interior covering is sampled on its border and inside and must not reach outside; up to two objects follow which share most vertices with the first or are the first one changed in place; non-trivial: at least two cells",
		Need:   []string{"cells", "interior cells", "unions compared", "interior point", "edge point", "coverings point", "coverings line", "fine coverings", "interiors of lines", "related objects"},
		Shards: func(th bool) []Shard { return pureShards(th, 1500) },
		Run:    runC32,
	})
	register(&Check{
		ID:     "C33",
		Rule:   "one case is one ring (convex, star shaped, comb, crescent) at a hot spot, written 20 ways (both directions, five starting vertices, with and without the closing vertex, sometimes as a multipolygon): the sets of covering and interior covering cells at a level up to 22 and the keys written by the flat and time index must be the same, and no covering cell may lie further than a cell diagonal; levels above 22 are left out because there cells touched within rounding are open; in one case of three a ring sharing most vertices follows; non-trivial: at least two cells",
		Need:   []string{"spellings", "index results compared", "related rings"},
		Shards: func(th bool) []Shard { return pureShards(th, 800) },
		Run:    runC33,
	})
	register(&Check{
		ID:     "C34",
		Rule:   "one case is one line or polygon (also around poles, the antimeridian and S2's origin, either direction) whose bounding rectangle must contain 60 sampled vertices, edge and interior points and equal the extremes computed edge by edge (1e-9 radians); points, multipolygons and unusable objects must be refused; up to two objects follow which share most vertices with the first or are the first one changed in place; non-trivial: the sides were compared",
		Need:   []string{"rectangles line", "rectangles polygon", "refused kinds", "refused unusable", "all longitudes", "across the antimeridian", "related objects"},
		Shards: func(th bool) []Shard { return pureShards(th, 6000) },
		Run:    runC34,
	})
}
