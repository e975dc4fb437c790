package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"

	"github.com/akhenakh/oureadb/index/geodata"
	spb "github.com/golang/protobuf/ptypes/struct"
	"github.com/twpayne/go-geom"
	"github.com/twpayne/go-geom/encoding/geojson"
)

// ---------------------------------------------------------------- C47

func init() {
	register(&Check{
		ID:     "C47",
		Rule:   "one case keeps up to four stored objects (empty, or with a geometry and properties already) and a pool of features built from Go values (bool, int, float64, string, null and unsupported ones; geometries of all layouts, unsupported ones among them), and converts features, geometries and properties into the objects at random, again and again; after every call every object is compared with a model which updates just what the call is about, refused calls with what was there before, and the features with a copy; at the end the objects are rendered and read back independently. Every case is non-trivial.",
		Need:   []string{"properties updated", "properties replaced", "properties kept", "geometries replaced", "nulls over a value", "refused properties", "refused geometries", "refused features", "objects rendered", "whole numbers"},
		Shards: func(th bool) []Shard { return pureShards(th, 2500) },
		Run:    runC47,
	})
}

// stored is what an object holds.
type stored struct {
	has   bool
	typ   geodata.Geometry_Type
	co    []float64
	props map[string]interface{} // string, bool, float64, or *spb.Value otherwise
}

func (s stored) clone() stored {
	n := s
	n.props = map[string]interface{}{}
	for k, v := range s.props {
		n.props[k] = v
	}
	return n
}

func (s stored) diff(gd *geodata.GeoData) error {
	switch g := gd.GetGeometry(); {
	case (g != nil) != s.has:
		return fmt.Errorf("geometry %v, want one: %v", g, s.has)
	case g == nil:
	case g.Type != s.typ || !sameFloats(g.Coordinates, s.co):
		return fmt.Errorf("geometry %v, want %v %v", g, s.typ, s.co)
	case len(g.Geometries) > 0:
		return fmt.Errorf("geometry %v has parts", g)
	}
	if len(gd.Properties) != len(s.props) {
		return fmt.Errorf("%d properties %v, want %d: %v", len(gd.Properties), gd.Properties, len(s.props), s.props)
	}
	for k, w := range s.props {
		g, ok := gd.Properties[k]
		if !ok {
			return fmt.Errorf("no property %q", k)
		}
		same := false
		switch w := w.(type) {
		case string:
			x, ok := g.GetKind().(*spb.Value_StringValue)
			same = ok && x.StringValue == w
		case bool:
			x, ok := g.GetKind().(*spb.Value_BoolValue)
			same = ok && x.BoolValue == w
		case float64:
			x, ok := g.GetKind().(*spb.Value_NumberValue)
			same = ok && math.Float64bits(x.NumberValue) == math.Float64bits(w)
		case *spb.Value:
			same = reflect.DeepEqual(g, w)
		}
		if !same {
			return fmt.Errorf("property %q is %v, want %v", k, g, w)
		}
	}
	return nil
}

// goGeom is a geometry with what it is stored as.
type goGeom struct {
	g    geom.T
	want stored
	ok   bool
}

func genGoGeom(r *rand.Rand) goGeom {
	lay := []geom.Layout{geom.XY, geom.XY, geom.XYZ, geom.XYM, geom.XYZM}[r.Intn(5)]
	st := lay.Stride()
	flat := func(n int) []float64 {
		f := make([]float64, n*st)
		for i := range f {
			f[i] = genNumber(r)
		}
		return f
	}
	xy := func(f []float64) []float64 {
		var res []float64
		for i := 0; i < len(f); i += st {
			res = append(res, f[i], f[i+1])
		}
		return res
	}
	switch k := r.Intn(20); {
	case k < 6:
		f := flat(1)
		return goGeom{geom.NewPointFlat(lay, f), stored{has: true, typ: geodata.Geometry_POINT, co: xy(f)}, true}
	case k < 11:
		f := flat(1 + many(r, 6, 30, 300))
		return goGeom{geom.NewLineStringFlat(lay, f), stored{has: true, typ: geodata.Geometry_LINESTRING, co: xy(f)}, true}
	case k < 16:
		f := flat(3 + many(r, 6, 30, 300))
		ends := []int{len(f)}
		all := append([]float64(nil), f...)
		for i := r.Intn(3); i > 0; i-- {
			all = append(all, flat(3+r.Intn(4))...)
			ends = append(ends, len(all))
		}
		return goGeom{geom.NewPolygonFlat(lay, all, ends), stored{has: true, typ: geodata.Geometry_POLYGON, co: xy(f)}, true}
	case k == 16:
		return goGeom{g: geom.NewPointEmpty(lay)}
	case k == 17:
		return goGeom{g: geom.NewMultiPointFlat(lay, flat(2))}
	case k == 18:
		f := flat(4)
		return goGeom{g: geom.NewMultiPolygonFlat(lay, f, [][]int{{len(f)}})}
	default:
		return goGeom{g: []geom.T{nil, geom.NewGeometryCollection(), geom.NewMultiLineStringFlat(lay, flat(2), []int{2 * st})}[r.Intn(3)]}
	}
}

// goProps are properties with what is stored of them.
type goProps struct {
	in    map[string]interface{}
	want  map[string]interface{}
	nulls []string
	ok    bool
}

func (c *Case) genGoProps(names []string) goProps {
	r := c.R
	p := goProps{want: map[string]interface{}{}, ok: true}
	if r.Intn(10) == 0 {
		return p
	}
	p.in = map[string]interface{}{}
	for n := many(r, 6, 20, 200); n > 0; n-- {
		k := names[r.Intn(len(names))]
		if n > 20 {
			k += fmt.Sprint(n)
		}
		if _, dup := p.in[k]; dup {
			continue
		}
		switch r.Intn(6) {
		case 0:
			v := genText(r)
			p.in[k], p.want[k] = v, v
		case 1:
			v := genNumber(r)
			if r.Intn(8) == 0 {
				v = []float64{math.Inf(1), math.Inf(-1), math.MaxFloat64, math.Copysign(0, -1)}[r.Intn(4)]
			}
			p.in[k], p.want[k] = v, v
		case 2:
			v := r.Intn(2) == 0
			p.in[k], p.want[k] = v, v
		case 3, 4:
			v := []int{0, -1, r.Intn(1000), int(r.Uint64()), math.MaxInt64, math.MinInt64, 1<<53 + 1, int(r.Uint64() >> uint(r.Intn(64)))}[r.Intn(8)]
			p.in[k], p.want[k] = v, float64(v)
			c.Count("whole numbers", 1)
		case 5:
			p.in[k] = nil
			p.nulls = append(p.nulls, k)
		}
	}
	if r.Intn(5) == 0 {
		p.in[names[r.Intn(len(names))]] = []interface{}{[]interface{}{1}, []interface{}{}, map[string]interface{}{}, map[string]interface{}{"a": 1}, struct{}{}, []byte("x")}[r.Intn(6)]
		p.ok = false
	}
	return p
}

func runC47(c *Case) {
	r := c.R
	var names []string
	for i := 0; i < 2+r.Intn(8); i++ {
		names = append(names, genText(r))
	}
	var objs []*geodata.GeoData
	var models []stored
	for i := 0; i < 1+r.Intn(4); i++ {
		gd := &geodata.GeoData{}
		m := stored{props: map[string]interface{}{}}
		if r.Intn(2) == 0 {
			g := genGoGeom(r)
			for !g.ok {
				g = genGoGeom(r)
			}
			m.has, m.typ, m.co = true, g.want.typ, g.want.co
			gd.Geometry = &geodata.Geometry{Type: m.typ, Coordinates: append([]float64(nil), m.co...)}
		}
		switch r.Intn(3) {
		case 0:
			gd.Properties = map[string]*spb.Value{}
		case 1:
			gd.Properties = map[string]*spb.Value{}
			for _, k := range names {
				switch r.Intn(6) {
				case 0:
					gd.Properties[k], m.props[k] = &spb.Value{Kind: &spb.Value_StringValue{StringValue: "was"}}, "was"
				case 1:
					gd.Properties[k], m.props[k] = &spb.Value{Kind: &spb.Value_NumberValue{NumberValue: 0.5}}, 0.5
				case 2:
					v := []*spb.Value{nil, {}, {Kind: &spb.Value_NullValue{}}, {Kind: &spb.Value_ListValue{ListValue: &spb.ListValue{}}}}[r.Intn(4)]
					gd.Properties[k], m.props[k] = v, v
				}
			}
		}
		objs, models = append(objs, gd), append(models, m)
	}
	type feat struct {
		f   *geojson.Feature
		g   goGeom
		p   goProps
		was string
	}
	var fs []feat
	for i := 0; i < 1+r.Intn(5); i++ {
		g, p := genGoGeom(r), c.genGoProps(names)
		fs = append(fs, feat{&geojson.Feature{ID: "x", Geometry: g.g, Properties: p.in}, g, p, fmt.Sprintf("%#v %#v", g.g, p.in)})
	}
	withProps := func(m stored, p goProps) stored {
		n := m.clone()
		for k, v := range p.want {
			n.props[k] = v
		}
		return n
	}
	withGeom := func(m stored, g goGeom) stored {
		n := m.clone()
		n.has, n.typ, n.co = true, g.want.typ, g.want.co
		return n
	}
	for step := 0; step < 4+r.Intn(12); step++ {
		i := r.Intn(len(objs))
		f := fs[r.Intn(len(fs))]
		gd, m := objs[i], models[i]
		var err error
		var may []stored // what the object may hold now
		ok := true
		what := ""
		switch r.Intn(3) {
		case 0:
			what = "PropertiesToGeoData"
			err = geodata.PropertiesToGeoData(f.f, gd)
			ok = f.p.ok
			if ok {
				may = []stored{withProps(m, f.p)}
				c.Count("properties updated", len(f.p.want))
				for _, k := range f.p.nulls {
					if _, had := m.props[k]; had {
						c.Count("nulls over a value", 1)
					}
				}
				for k := range m.props {
					if _, now := f.p.want[k]; now {
						c.Count("properties replaced", 1)
					} else {
						c.Count("properties kept", 1)
					}
				}
			} else {
				may = []stored{m}
				c.Count("refused properties", 1)
			}
		case 1:
			what = "GeomToGeoData"
			err = geodata.GeomToGeoData(f.g.g, gd)
			ok = f.g.ok
			if ok {
				may = []stored{withGeom(m, f.g)}
				if m.has {
					c.Count("geometries replaced", 1)
				}
			} else {
				may = []stored{m}
				c.Count("refused geometries", 1)
			}
		case 2:
			what = "GeoJSONFeatureToGeoData"
			err = geodata.GeoJSONFeatureToGeoData(f.f, gd)
			ok = f.g.ok && f.p.ok
			if ok {
				may = []stored{withGeom(withProps(m, f.p), f.g)}
			} else {
				// the part which is supported may have been taken
				may = []stored{m}
				if f.g.ok {
					may = append(may, withGeom(m, f.g))
				}
				if f.p.ok {
					may = append(may, withProps(m, f.p))
				}
				c.Count("refused features", 1)
			}
		}
		c.Logf("%s of %s into object %d: %v", what, trim(f.was, 300), i, err)
		if ok != (err == nil) {
			c.Fail("answer", "%s of %s: %v", what, trim(f.was, 2000), err)
		}
		var bad error
		for _, x := range may {
			if bad = x.diff(gd); bad == nil {
				models[i] = x
				break
			}
		}
		if bad != nil {
			c.Fail("update", "%s of %s into an object which held %+v: %v", what, trim(f.was, 2000), m, bad)
		}
		for j := range objs {
			if err := models[j].diff(objs[j]); err != nil {
				c.Fail("other object", "%s into object %d changed object %d: %v", what, i, j, err)
			}
		}
		if now := fmt.Sprintf("%#v %#v", f.f.Geometry, f.f.Properties); now != f.was {
			c.Fail("feature changed", "%s changed the feature %s to %s", what, trim(f.was, 2000), trim(now, 2000))
		}
		c.Eval(1)
	}
	for i, gd := range objs {
		m := models[i]
		pm := geodata.PropertiesToJSONMap(gd.Properties)
		finite := true
		n := 0
		plain := map[string]interface{}{}
		for k, v := range m.props {
			if f, ok := v.(float64); ok && (math.IsInf(f, 0) || math.IsNaN(f)) {
				finite = false
			}
			if _, other := v.(*spb.Value); other {
				continue
			}
			n++
			plain[k] = v
			if g, ok := pm[k]; !ok || !reflect.DeepEqual(g, v) {
				c.Fail("properties", "PropertiesToJSONMap: %q is %v, want %v", k, g, v)
			}
		}
		if !m.has || !finite || n != len(m.props) {
			continue
		}
		out, err := geodata.ToGeoJSONFeatureCollection([]*geodata.GeoData{gd})
		if err != nil {
			c.Fail("render", "%v", err)
		}
		if !json.Valid(out) {
			c.Fail("render", "not JSON: %s", out)
		}
		l, _ := mustMap(c, out)["features"].([]interface{})
		if len(l) != 1 {
			c.Fail("render", "%s", out)
		}
		var pos [][2]float64
		for j := 0; j < len(m.co); j += 2 {
			pos = append(pos, [2]float64{m.co[j], m.co[j+1]})
		}
		typ := map[geodata.Geometry_Type]string{geodata.Geometry_POINT: "Point", geodata.Geometry_LINESTRING: "LineString", geodata.Geometry_POLYGON: "Polygon"}[m.typ]
		if err := compareFeature(l[0], typ, [][][][2]float64{{pos}}, plain); err != nil {
			c.Fail("rendered", "%v\n%s", err, trim(string(out), 2000))
		}
		c.Count("objects rendered", 1)
	}
	c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx))
	if c.Idx < 1 {
		c.Sample(trim(fs[0].was, 300))
	}
}
