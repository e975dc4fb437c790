package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/akhenakh/oureadb/s2tools"
	"github.com/golang/geo/s2"
	"github.com/golang/protobuf/proto"
	spb "github.com/golang/protobuf/ptypes/struct"
	"github.com/gorilla/mux"
	"github.com/twpayne/go-geom"
	"github.com/twpayne/go-geom/encoding/geojson"
)

// ---------------------------------------------------------------- C35

// hostileNumber is any float64.
func hostileNumber(r *rand.Rand) float64 {
	switch r.Intn(10) {
	case 0:
		return math.NaN()
	case 1:
		return math.Inf(1 - 2*r.Intn(2))
	case 2:
		return math.Float64frombits(r.Uint64())
	case 3:
		return []float64{1e300, -1e300, math.MaxFloat64, -math.MaxFloat64, 5e-324, 0, math.Copysign(0, -1), 90, -90, 180, -180, 360, 540, 91, 1e17}[r.Intn(15)]
	}
	return r.Float64()*720 - 360
}

// hostileCoords is a list of numbers of any length. mode chooses how hostile.
func hostileCoords(r *rand.Rand) []float64 {
	n := r.Intn(12)
	if r.Intn(20) == 0 {
		n = 60 + r.Intn(60)
	}
	if r.Intn(10) == 0 {
		return nil
	}
	c := make([]float64, n)
	switch r.Intn(6) {
	case 0: // a few bad ones among good
		x, y := r.Float64()*300-150, r.Float64()*140-70
		for i := range c {
			if i%2 == 0 {
				c[i] = x + r.Float64()*10
			} else {
				c[i] = y + r.Float64()*10
			}
			if r.Intn(6) == 0 {
				c[i] = hostileNumber(r)
			}
		}
	case 1: // the same place, or a few places, again and again
		pool := []float64{r.Float64() * 100, r.Float64() * 80, 0, 90, -90, 180, -180}
		pool = pool[:1+r.Intn(len(pool))]
		for i := range c {
			c[i] = pool[r.Intn(len(pool))]
		}
	case 2: // collapsing: vertices on one arc, closed or back and forth
		x, y := r.Float64()*300-150, r.Float64()*140-70
		for i := range c {
			if i%2 == 0 {
				c[i] = x
			} else {
				c[i] = y + float64(r.Intn(3))*5
			}
		}
	case 3: // nearly equal
		x, y := r.Float64()*300-150, r.Float64()*140-70
		for i := range c {
			k := float64(r.Intn(3)-1) * 1e-15
			if i%2 == 0 {
				c[i] = x + k*180
			} else {
				c[i] = y + k*90
			}
		}
	case 4: // antipodal vertices
		x, y := r.Float64()*300-150, r.Float64()*140-70
		for i := range c {
			switch {
			case i%2 == 0 && i%4 < 2:
				c[i] = x
			case i%2 == 0:
				c[i] = x - 180
			case i%4 < 2:
				c[i] = y
			default:
				c[i] = -y
			}
		}
	default:
		for i := range c {
			c[i] = hostileNumber(r)
		}
	}
	if r.Intn(2) == 0 && len(c)%2 == 1 {
		c = c[:len(c)-1]
	}
	if r.Intn(3) == 0 && len(c) > 4 {
		c[len(c)-2], c[len(c)-1] = c[0], c[1]
	}
	return c
}

func hostileType(r *rand.Rand) geodata.Geometry_Type {
	switch r.Intn(8) {
	case 0:
		return geodata.Geometry_Type(r.Intn(20))
	case 1:
		return geodata.Geometry_Type(int32(r.Uint32()))
	}
	return []geodata.Geometry_Type{geodata.Geometry_POINT, geodata.Geometry_POLYGON, geodata.Geometry_LINESTRING, geodata.Geometry_MULTIPOLYGON}[r.Intn(4)]
}

func hostileGD(r *rand.Rand) *geodata.GeoData {
	if r.Intn(50) == 0 {
		return nil
	}
	gd := &geodata.GeoData{}
	if r.Intn(3) == 0 {
		gd.Properties = map[string]*spb.Value{}
		for i := 0; i < r.Intn(4); i++ {
			gd.Properties[genText(r)] = []*spb.Value{
				nil, {}, {Kind: &spb.Value_NumberValue{NumberValue: hostileNumber(r)}}, {Kind: &spb.Value_StringValue{StringValue: "\xff\xfe" + genText(r)}},
				{Kind: &spb.Value_BoolValue{BoolValue: true}}, {Kind: &spb.Value_NullValue{}}, {Kind: &spb.Value_ListValue{}}, {Kind: &spb.Value_StructValue{}},
				{Kind: &spb.Value_ListValue{ListValue: &spb.ListValue{Values: []*spb.Value{nil, {}}}}}, {Kind: (*spb.Value_NumberValue)(nil)},
			}[r.Intn(9)]
		}
	}
	if r.Intn(30) == 0 {
		return gd
	}
	gd.Geometry = hostileGeometry(r, 0)
	return gd
}

func hostileGeometry(r *rand.Rand, depth int) *geodata.Geometry {
	g := &geodata.Geometry{Type: hostileType(r), Coordinates: hostileCoords(r)}
	if (g.Type == geodata.Geometry_MULTIPOLYGON || r.Intn(5) == 0) && depth < 3 {
		for i := 0; i < r.Intn(4); i++ {
			if r.Intn(6) == 0 {
				g.Geometries = append(g.Geometries, nil)
				continue
			}
			p := hostileGeometry(r, depth+1)
			if r.Intn(2) == 0 {
				p.Type = geodata.Geometry_POLYGON
			}
			g.Geometries = append(g.Geometries, p)
		}
	}
	return g
}

// describeGD does not rely on the code under test to print the object.
func describeGD(gd *geodata.GeoData) string {
	if gd == nil {
		return "nil"
	}
	var geo func(g *geodata.Geometry) string
	geo = func(g *geodata.Geometry) string {
		if g == nil {
			return "nil"
		}
		s := fmt.Sprintf("{type %d coordinates %v", int32(g.Type), g.Coordinates)
		for _, p := range g.Geometries {
			s += " " + geo(p)
		}
		return s + "}"
	}
	s := geo(gd.Geometry)
	for k, v := range gd.Properties {
		if v == nil {
			s += fmt.Sprintf(" %q: nil", k)
		} else {
			s += fmt.Sprintf(" %q: %T", k, v.Kind)
		}
	}
	return s
}

func runC35(c *Case) {
	r := c.R
	gd := hostileGD(r)
	if r.Intn(4) == 0 { // from damaged bytes
		src := hostileGD(r)
		if r.Intn(4) > 0 {
			src = genShape(r, hotSpot(r), math.Exp(-r.Float64()*5)).gd
		}
		var b []byte
		if p, _ := Guard(func() { b, _ = proto.Marshal(src) }); p == nil && len(b) > 0 {
			for i := 0; i < 1+r.Intn(4); i++ {
				switch r.Intn(12) {
				default:
					b[r.Intn(len(b))] = byte(r.Intn(256))
				case 1:
					b = b[:1+r.Intn(len(b))]
				case 2:
					k := r.Intn(len(b))
					b = append(b[:k:k], append([]byte{byte(r.Intn(256))}, b[k:]...)...)
				}
			}
			n := &geodata.GeoData{}
			c.Logf("unmarshal %x", b)
			if p, st := Guard(func() {
				if err := proto.Unmarshal(b, n); err != nil {
					n = nil
				}
			}); p != nil {
				c.Fail("panic Unmarshal", "decoding %x: panic %v\n%s", b, p, st)
			}
			if n != nil {
				gd = n
				c.Count("decoded from damaged bytes", 1)
			}
		}
	}
	desc := describeGD(gd)
	c.Logf("%s", desc)
	// coarse: the geometries often span the globe, and nearly antipodal
	// vertices make S2 fall back to exact arithmetic for every cell
	level := r.Intn(4)
	rc := &s2.RegionCoverer{MinLevel: level, MaxLevel: level, MaxCells: r.Intn(20)}
	if r.Intn(3) == 0 {
		rc.MinLevel, rc.MaxLevel = r.Intn(level+1), level
		rc.LevelMod = r.Intn(4)
	}
	if r.Intn(100) == 0 {
		level = 5
	}
	call := func(what string, f func() error) {
		c.Logf("%s", what)
		var err error
		p, st := Guard(func() { err = f() })
		c.Eval(1)
		c.Count("calls", 1)
		if p != nil {
			c.Fail("panic "+what, "%s of %s: panic %v\n%s", what, desc, p, st)
		}
		if err != nil {
			c.Count("refused", 1)
			c.Seen("answers", what+strings.Split(err.Error(), ":")[0])
		} else {
			c.Count("accepted", 1)
			c.Seen("answers", what)
		}
	}
	valid := func(cu s2.CellUnion, err error) error {
		if err != nil {
			return err
		}
		for _, x := range cu {
			if !x.IsValid() {
				c.Fail("invalid cell", "covering of %s has the invalid cell %x", desc, uint64(x))
			}
		}
		return nil
	}
	if gd != nil { // a nil receiver has no covering either, but no value to ask
		call("Cover", func() error { return valid(gd.Cover(rc)) })
		call("InteriorCover", func() error { return valid(gd.InteriorCover(rc)) })
	}
	call("GeoDataToCoverCellUnion", func() error { return valid(geodata.GeoDataToCoverCellUnion(gd, rc)) })
	call("GeoDataToRect", func() error { _, err := geodata.GeoDataToRect(gd); return err })
	call("GeoDataToGeom", func() error {
		g, err := geodata.GeoDataToGeom(gd)
		if err == nil && (g == nil || reflect.ValueOf(g).IsNil()) {
			c.Fail("neither", "GeoDataToGeom(%s) gave neither a geometry nor an error", desc)
		}
		if err == nil {
			err = geodata.GeomToGeoData(g, &geodata.GeoData{})
		}
		return err
	})
	call("ToGeoJSONFeatureCollection", func() error {
		b, err := geodata.ToGeoJSONFeatureCollection([]*geodata.GeoData{pointGD(1, 2), gd})
		if err == nil && !json.Valid(b) {
			c.Fail("not JSON", "rendering %s gave %s", desc, b)
		}
		return err
	})
	call("PointsToGeoJSONPolyLines", func() error {
		b, err := geodata.PointsToGeoJSONPolyLines([]*geodata.GeoData{gd, pointGD(1, 2), gd})
		if err == nil && !json.Valid(b) {
			c.Fail("not JSON", "rendering %s as points gave %s", desc, b)
		}
		return err
	})
	if gd != nil {
		call("PropertiesToJSONMap", func() error { geodata.PropertiesToJSONMap(gd.Properties); return nil })
		if gd.Geometry != nil {
			co := gd.Geometry.Coordinates
			call("LoopFromCoordinates", func() error { geodata.LoopFromCoordinates(co); return nil })
			call("LoopFromCoordinatesAndCCW", func() error { geodata.LoopFromCoordinatesAndCCW(co, true); return nil })
		}
	}
	s := c.mustOpen("gtreap", "", nil, nil)
	fi := index.NewS2FlatIdx(s, roomy([]byte("F")), level)
	ti := index.NewS2FlatTimeIdx(s, roomy([]byte("T")), level)
	pi := index.NewS2PointIdx(s, roomy([]byte("P")))
	id := index.GeoID("id")
	call("GeoIndex", func() error { return fi.GeoIndex(gd, id) })
	call("GeoTimeIndex", func() error { return ti.GeoTimeIndex(gd, time.Unix(1500000000, 0), id) })
	call("GeoPointIndex", func() error { _, err := pi.GeoPointIndex(gd, id); return err })
	call("Covering", func() error { cu, err := fi.Covering(gd); return valid(cu, err) })
	// geometries of the GeoJSON side
	lay := []geom.Layout{geom.XY, geom.XYZ, geom.XYM, geom.XYZM}[r.Intn(4)]
	st := lay.Stride()
	flat := func(n int) []float64 {
		f := make([]float64, n*st)
		for i := range f {
			f[i] = hostileNumber(r)
		}
		return f
	}
	var g geom.T
	switch r.Intn(10) {
	case 0:
		g = geom.NewPoint(lay)
	case 1:
		g = geom.NewPointFlat(lay, flat(1))
	case 2:
		g = geom.NewPointEmpty(lay)
	case 3:
		g = geom.NewPolygon(lay)
	case 4:
		n := r.Intn(6)
		g = geom.NewPolygonFlat(lay, flat(n), []int{n * st})
	case 5:
		g = geom.NewLineString(lay)
	case 6:
		g = geom.NewLineStringFlat(lay, flat(r.Intn(6)))
	case 7:
		g = geom.NewMultiPolygon(lay)
	case 8:
		g = geom.NewGeometryCollection()
	}
	f := &geojson.Feature{Geometry: g, Properties: map[string]interface{}{}}
	for i := 0; i < r.Intn(4); i++ {
		f.Properties[genText(r)] = []interface{}{nil, 1, int64(5), float32(2), math.NaN(), "x", true, []interface{}{}, map[string]interface{}{}, struct{}{}, []byte("x"), json.Number("1")}[r.Intn(12)]
	}
	if r.Intn(10) == 0 {
		f = nil
	}
	desc = fmt.Sprintf("feature %T of layout %v %+v", g, lay, f)
	call("GeoJSONFeatureToGeoData", func() error {
		n := &geodata.GeoData{}
		if r.Intn(2) == 0 {
			n.Properties = map[string]*spb.Value{"k": nil}
		}
		err := geodata.GeoJSONFeatureToGeoData(f, n)
		if err == nil {
			_, err = n.Cover(rc)
		}
		return err
	})
	call("GeomToGeoData", func() error { return geodata.GeomToGeoData(g, &geodata.GeoData{}) })
	c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx))
	if c.Idx < 1 {
		c.Sample(describeGD(gd))
	}
}

// ---------------------------------------------------------------- cells, independently

// cellNum builds cell ids from bits only.
type cellNum struct {
	face   int
	digits []int
}

func genCell(r *rand.Rand) cellNum {
	c := cellNum{face: r.Intn(6)}
	n := r.Intn(31)
	switch r.Intn(6) {
	case 0:
		n = 30
	case 1:
		n = 0
	}
	k := r.Intn(5)
	for i := 0; i < n; i++ {
		d := r.Intn(4)
		if k < 4 && r.Intn(10) > 0 {
			d = k
		}
		c.digits = append(c.digits, d)
	}
	return c
}

func (c cellNum) id() uint64 {
	x := uint64(c.face) << 61
	sh := uint(59)
	for _, d := range c.digits {
		x |= uint64(d) << sh
		sh -= 2
	}
	return x | 1<<(sh+1)
}

func (c cellNum) str() string {
	s := strconv.Itoa(c.face) + "/"
	for _, d := range c.digits {
		s += strconv.Itoa(d)
	}
	return s
}

func (c cellNum) token() string {
	return strings.TrimRight(fmt.Sprintf("%016x", c.id()), "0")
}

func validID(x uint64) bool {
	return x>>61 < 6 && (x&-x)&0x1555555555555555 != 0
}

func numOf(x uint64) cellNum {
	c := cellNum{face: int(x >> 61)}
	low := x & -x
	for sh := uint(59); uint64(1)<<sh >= low && sh < 64; sh -= 2 {
		if uint64(1)<<(sh+1) == low {
			break
		}
		c.digits = append(c.digits, int(x>>sh&3))
	}
	return c
}

// corners are the vertices of the cell in order, found by walking the Hilbert
// curve and projecting, in long form.
func (c cellNum) corners() [4]vec {
	// orientation bits: 1 swaps i and j, 2 inverts both
	posToIJ := [4][4]int{{0, 1, 3, 2}, {0, 2, 3, 1}, {3, 2, 0, 1}, {3, 1, 0, 2}}
	posToOr := [4]int{1, 0, 0, 3}
	o := c.face & 1
	i, j := 0, 0
	for _, d := range c.digits {
		ij := posToIJ[o][d]
		i, j = i<<1|ij>>1, j<<1|ij&1
		o ^= posToOr[d]
	}
	n := float64(int64(1) << uint(len(c.digits)))
	uv := func(k int) float64 {
		s := float64(k) / n
		if s >= 0.5 {
			return (4*s*s - 1) / 3
		}
		return (1 - 4*(1-s)*(1-s)) / 3
	}
	xyz := func(u, v float64) vec {
		switch c.face {
		case 0:
			return vec{1, u, v}.unit()
		case 1:
			return vec{-u, 1, v}.unit()
		case 2:
			return vec{-u, -v, 1}.unit()
		case 3:
			return vec{-1, -v, -u}.unit()
		case 4:
			return vec{v, -1, -u}.unit()
		}
		return vec{v, u, -1}.unit()
	}
	u0, u1, v0, v1 := uv(i), uv(i+1), uv(j), uv(j+1)
	return [4]vec{xyz(u0, v0), xyz(u1, v0), xyz(u1, v1), xyz(u0, v1)}
}

// ---------------------------------------------------------------- C36

func runC36(c *Case) {
	r := c.R
	parse := func(s string) *s2.CellID {
		c.Tick()
		var res *s2.CellID
		p, st := Guard(func() { res = s2tools.ParseCellID(s) })
		c.Eval(1)
		if p != nil {
			c.Fail("panic", "ParseCellID(%q): panic %v\n%s", s, p, st)
		}
		return res
	}
	yields := func(s, kind string, want uint64) {
		got := parse(s)
		c.Count("parsed "+kind, 1)
		if got == nil || uint64(*got) != want {
			c.Fail("wrong "+kind, "ParseCellID(%q) (%s) is %s, want cell %x", s, kind, showCell(got), want)
		}
	}
	refused := func(s, kind string) {
		got := parse(s)
		c.Count("refused "+kind, 1)
		if got != nil {
			c.Fail("accepted "+kind, "ParseCellID(%q) (%s) is %s, want none", s, kind, showCell(got))
		}
	}
	// any input: absent, or the valid cell it denotes
	judge := func(s, kind string) {
		got := parse(s)
		c.Count("judged "+kind, 1)
		var den []uint64
		if i := strings.Index(s, "/"); i >= 0 {
			n := cellNum{}
			ok := i == 1 && s[0] >= '0' && s[0] <= '5' && len(s) <= 32
			if ok {
				n.face = int(s[0] - '0')
				for _, b := range []byte(s[2:]) {
					if b < '0' || b > '3' {
						ok = false
					}
					n.digits = append(n.digits, int(b-'0'))
				}
			}
			if !ok {
				if got != nil {
					c.Fail("accepted "+kind, "ParseCellID(%q) is %s, want none", s, showCell(got))
				}
				return
			}
			if got == nil || uint64(*got) != n.id() {
				c.Fail("wrong "+kind, "ParseCellID(%q) is %s, want %x", s, showCell(got), n.id())
			}
			return
		}
		if len(s) > 0 && len(s) <= 16 {
			if x, err := strconv.ParseUint(s+strings.Repeat("0", 16-len(s)), 16, 64); err == nil && validID(x) {
				den = append(den, x)
			}
		}
		if x, err := strconv.ParseUint(s, 10, 64); err == nil && validID(x) {
			den = append(den, x)
		}
		if got == nil {
			return
		}
		for _, x := range den {
			if uint64(*got) == x {
				return
			}
		}
		c.Fail("denotes nothing", "ParseCellID(%q) is %s", s, showCell(got))
	}
	n := genCell(r)
	c.Logf("cell %s %x", n.str(), n.id())
	if x := s2.CellID(n.id()); !x.IsValid() || x.Level() != len(n.digits) || x.String() != n.str() || x.ToToken() != n.token() {
		c.Infra("harness: cell %s is not %x", n.str(), n.id())
	}
	yields(n.str(), "face/children", n.id())
	yields(n.token(), "token", n.id())
	dec := strconv.FormatUint(n.id(), 10)
	if len(dec) > 16 {
		yields(dec, "decimal", n.id())
	} else {
		judge(dec, "short decimal")
	}
	c.Seen("cells", n.str())
	// wrong variants of the notation
	s := n.str()
	refused(string(rune('6'+r.Intn(4)))+s[1:], "face")
	if len(n.digits) > 0 {
		b := []byte(s)
		b[2+r.Intn(len(n.digits))] = "456789-+ax /.\x00\xff"[r.Intn(15)]
		refused(string(b), "child")
		k := 2 + r.Intn(len(s)-2)
		refused(s[:k]+[]string{" ", "é", "٣", "/", "3٣", "\n", "4", "-1", "\x80"}[r.Intn(9)]+s[k:], "stray")
	}
	refused(s+strings.Repeat(string(rune('0'+r.Intn(4))), 31-len(n.digits)), "depth")
	refused(s+strings.Repeat("0", 31-len(n.digits)+r.Intn(300)), "depth")
	refused([]string{" ", "x", "-", "+", "0", "٣", "1/", "/"}[r.Intn(8)]+s, "prefix")
	refused(s[1:], "no face")
	refused("/"+s[2:], "no face")
	refused(s+[]string{" ", "x", "/", "\n", "4", "٣", "\x00"}[r.Intn(7)], "suffix")
	// invalid ids
	x := r.Uint64()
	if r.Intn(2) == 0 {
		x = n.id() ^ 1<<uint(r.Intn(64))
	}
	d := strconv.FormatUint(x, 10)
	switch {
	case len(d) <= 16:
		judge(d, "short decimal")
	case validID(x):
		yields(d, "decimal", x)
	default:
		refused(d, "invalid id")
	}
	t := strings.TrimRight(fmt.Sprintf("%016x", x), "0")
	if t != "" && validID(x) {
		yields(t, "token", x)
	} else {
		judge(t, "invalid token")
		if t != "" && strings.ContainsAny(t, "abcdef") {
			refused(t, "invalid token")
		}
	}
	// anything
	const al = "0123456789abcdefABCDEFxX/+-_. \x00é٣"
	for i := 0; i < 6; i++ {
		rs := []rune(al)
		if r.Intn(2) == 0 {
			rs = []rune("0123/456789abcdef")[:5+r.Intn(13)]
		}
		var b []rune
		for j := r.Intn(24); j > 0; j-- {
			b = append(b, rs[r.Intn(len(rs))])
		}
		judge(string(b), "string")
	}
	raw := make([]byte, r.Intn(24))
	r.Read(raw)
	judge(string(raw), "bytes")
	judge([]string{"", "/", "//", "0", "X", "0/", "5/", "6/", "-1/", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "0x47e66f", "1_0", "47e66f ", "0000000000000001", "00000000000000001", "+1", "-1", "47E66F"}[r.Intn(20)], "special")
	c.Nontrivial(n.str())
	if c.Idx < 1 {
		c.Sample(n.str())
	}
}

func showCell(c *s2.CellID) string {
	if c == nil {
		return "absent"
	}
	return fmt.Sprintf("%x (%s, valid %v)", uint64(*c), c.String(), c.IsValid())
}

// ---------------------------------------------------------------- C37

func genUnion(r *rand.Rand, pool []s2.CellID) s2.CellUnion {
	if r.Intn(10) == 0 {
		return nil
	}
	cu := s2.CellUnion{}
	n := r.Intn(12)
	if r.Intn(30) == 0 || len(pool) > 100 && r.Intn(4) > 0 {
		n = 3000
	}
	for i := 0; i < n; i++ {
		cu = append(cu, pool[r.Intn(len(pool))])
	}
	return cu
}

func genPool(r *rand.Rand) []s2.CellID {
	var pool []s2.CellID
	n := 1 + r.Intn(5)
	if r.Intn(60) == 0 {
		n = many(r, 5, 1, 4000)
	}
	for i := 0; i < n; i++ {
		x := s2.CellID(genCell(r).id())
		pool = append(pool, x)
		if x.Level() > 0 && r.Intn(2) == 0 { // parent and all of its children
			p := x.Parent(x.Level() - 1)
			pool = append(pool, p)
			for _, k := range p.Children() {
				pool = append(pool, k)
			}
		}
		if !x.IsLeaf() && r.Intn(3) == 0 {
			pool = append(pool, x.RangeMin(), x.RangeMax())
		}
	}
	return pool
}

func runC37(c *Case) {
	r := c.R
	pool := genPool(r)
	src := genUnion(r, pool)
	others := make([]s2.CellUnion, many(r, 4, 40, 300))
	for i := range others {
		others[i] = genUnion(r, pool)
		if len(others) > 4 && r.Intn(3) > 0 { // a cell no other list has
			others[i] = append(others[i], s2.CellID(genCell(r).id()))
		}
	}
	if r.Intn(4) == 0 { // normalized ones
		for _, cu := range append(others, src) {
			sort.Slice(cu, func(i, j int) bool { return cu[i] < cu[j] })
		}
		if r.Intn(2) == 0 && len(src) > 1 { // one after the other
			src = append(s2.CellUnion(nil), src...)
			sort.Slice(src, func(i, j int) bool { return src[i] < src[j] })
			k := 1 + r.Intn(len(src)-1)
			others = append(others[:0:0], src[k:len(src):len(src)])
			src = src[:k:k]
		}
	}
	// lists cut from one, with others behind
	lists := append([]s2.CellUnion{src}, others...)
	cut, before := c.cutUnions(lists)
	if cut != nil {
		src, others = lists[0], lists[1:]
		c.Count("lists cut from one", 1)
	}
	kept := func() {
		for i := range cut {
			if cut[i] != before[i] {
				c.Fail("overwritten", "a cell behind the lists %v was changed from %v to %v", lists, before[i], cut[i])
			}
		}
	}
	c.Logf("src %v others %v", src, others)
	distinct := map[s2.CellID]bool{}
	for _, cu := range append([]s2.CellUnion{src}, others...) {
		for _, x := range cu {
			distinct[x] = true
		}
	}
	var want []s2.CellID
	for x := range distinct {
		want = append(want, x)
	}
	sort.Slice(want, func(i, j int) bool { return uint64(want[i]) < uint64(want[j]) })
	got := s2tools.CellUnionUnion(src, others...)
	c.Eval(1)
	c.Count("unions", 1)
	if len(got) != len(want) {
		c.Fail("union", "the union of %v and %v is %v, want %v", src, others, got, want)
	}
	for i := range want {
		if got[i] != want[i] {
			c.Fail("union", "the union of %v and %v is %v, want %v", src, others, got, want)
		}
	}
	c.Count("union cells", len(want))
	kept()
	if r.Intn(2) == 0 { // the result is not the next one's
		var none []s2.CellUnion
		x := genUnion(r, pool)
		if len(x) > 0 {
			none = append(none, x)
		}
		s2tools.CellUnionUnion(src, none...)
		for i := range want {
			if got[i] != want[i] {
				c.Fail("union changed", "the union of %v and %v is %v after another union, want %v", src, others, got, want)
			}
		}
	}
	to := genUnion(r, pool)
	if r.Intn(3) == 0 { // mostly the same
		to = append(s2.CellUnion(nil), src...)
		r.Shuffle(len(to), func(i, j int) { to[i], to[j] = to[j], to[i] })
		if len(to) > 0 {
			to = to[r.Intn(len(to)):]
		}
	}
	// by cancelling one by one
	var miss []s2.CellID
	used := make([]bool, len(to))
	for _, x := range src {
		found := false
		for i, y := range to {
			if !used[i] && x == y {
				used[i], found = true, true
				break
			}
		}
		if !found {
			miss = append(miss, x)
		}
	}
	gm := s2tools.CellUnionMissing(src, to)
	c.Eval(1)
	c.Count("differences", 1)
	c.Count("missing cells", len(miss))
	if len(gm) != len(miss) {
		c.Fail("missing", "the cells of %v missing in %v are %v, want %v", src, to, gm, miss)
	}
	// repeated cells of equal value: which of them is cancelled is not told by
	// their order, so compare what is left in order by value
	if !sameLeft(src, to, gm, miss) {
		c.Fail("missing", "the cells of %v missing in %v are %v, want %v", src, to, gm, miss)
	}
	kept()
	tk := s2tools.CellUnionToTokens(src)
	c.Eval(1)
	if len(tk) != len(src) {
		c.Fail("tokens", "tokens of %v are %v", src, tk)
	}
	for i, x := range src {
		if tk[i] != numOf(uint64(x)).token() {
			c.Fail("tokens", "token %d of %v is %q", i, src, tk[i])
		}
	}
	c.Count("tokens", len(tk))
	if len(src) > 1 && len(to) > 0 {
		c.Nontrivial(fmt.Sprint(src, others, to))
	}
	if c.Idx < 1 {
		c.Sample(fmt.Sprintf("%v %v %v", src, others, to))
	}
}

// cutUnions cuts the lists at times from a single one, returned with a copy.
func (c *Case) cutUnions(l []s2.CellUnion) (all, before s2.CellUnion) {
	if c.R.Intn(2) > 0 {
		return nil, nil
	}
	var at []int
	for _, x := range l {
		at = append(at, len(all))
		all = append(all, x...)
		for i := 0; i < c.R.Intn(3); i++ {
			all = append(all, s2.CellID(genCell(c.R).id()))
		}
	}
	all = append(all, 1, 1)
	for i, x := range l {
		if x != nil {
			l[i] = all[at[i] : at[i]+len(x)]
		}
	}
	return all, append(s2.CellUnion(nil), all...)
}

// sameLeft: got is a subsequence of from, with the same counts as want.
func sameLeft(from, to s2.CellUnion, got, want []s2.CellID) bool {
	k := 0
	for _, x := range from {
		if k < len(got) && got[k] == x {
			k++
		}
	}
	if k != len(got) {
		return false
	}
	n := map[s2.CellID]int{}
	for _, x := range got {
		n[x]++
	}
	for _, x := range want {
		n[x]--
	}
	for _, v := range n {
		if v != 0 {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- C38

// judgeCells compares rendered cells.
func (c *Case) judgeCells(b []byte, cells []uint64, what string) {
	m, err := decodeJSON(b)
	if err != nil {
		c.Fail("json", "%s: not JSON (%v): %s", what, err, trim(string(b), 1000))
	}
	if m["type"] != "FeatureCollection" {
		c.Fail("collection", "%s: type %v: %s", what, m["type"], trim(string(b), 1000))
	}
	l, ok := m["features"].([]interface{})
	if !ok || len(l) != len(cells) {
		c.Fail("features", "%s: %d cells rendered as %s", what, len(cells), trim(string(b), 1000))
	}
	for i, x := range cells {
		n := numOf(x)
		f, _ := l[i].(map[string]interface{})
		p, _ := f["properties"].(map[string]interface{})
		if f["type"] != "Feature" || p == nil {
			c.Fail("feature", "%s: feature %v", what, l[i])
		}
		lv, err := jnum(p["level"])
		if err != nil || lv != float64(len(n.digits)) || p["id"] != n.token() || p["uid"] != strconv.FormatUint(x, 10) || p["str"] != n.str() {
			c.Fail("properties", "%s: cell %s (%x) rendered with the properties %v", what, n.str(), x, p)
		}
		g, _ := f["geometry"].(map[string]interface{})
		if g["type"] != "Polygon" {
			c.Fail("geometry", "%s: cell %s rendered with the geometry %v", what, n.str(), f["geometry"])
		}
		parts, err := jparts("Polygon", g["coordinates"])
		if err != nil || len(parts) != 1 || len(parts[0]) != 1 || len(parts[0][0]) != 5 {
			c.Fail("ring", "%s: cell %s rendered with the coordinates %v", what, n.str(), g["coordinates"])
		}
		ring := parts[0][0]
		if ring[0] != ring[4] {
			c.Fail("open ring", "%s: the ring of cell %s is not closed: %v", what, n.str(), ring)
		}
		want := n.corners()
		for k, w := range want {
			lng, lat := ring[k][0], ring[k][1]
			if !(math.Abs(lat) <= 90 && math.Abs(lng) <= 180) {
				c.Fail("range", "%s: vertex %d of cell %s at %v", what, k, n.str(), ring[k])
			}
			if d := fromDeg(lat, lng).angle(w) * 180 / math.Pi; d > 1e-9 {
				wl, wg := w.deg()
				c.Fail("vertex", "%s: vertex %d of cell %s rendered at %.15f,%.15f, %g degrees from %.15f,%.15f", what, k, n.str(), lat, lng, d, wl, wg)
			}
			if math.Abs(lat) > 89.999 {
				c.Count("vertices at poles", 1)
			}
			if math.Abs(lng) > 179.999 {
				c.Count("vertices at the antimeridian", 1)
			}
		}
		c.Count("cells rendered", 1)
		c.Seen("levels", fmt.Sprint(n.face, len(n.digits)))
	}
}

func genCellIDs(r *rand.Rand) []uint64 {
	var l []uint64
	n := many(r, 6, 40, 8000)
	for i := 0; i < n; i++ {
		switch r.Intn(4) {
		case 0: // at a hot spot: poles, antimeridian, face edges
			l = append(l, uint64(hotSpot(r).cell(r.Intn(31))))
		case 1:
			if len(l) > 0 {
				l = append(l, l[r.Intn(len(l))])
			}
		default:
			l = append(l, genCell(r).id())
		}
	}
	return l
}

func runC38(c *Case) {
	l := genCellIDs(c.R)
	cu := s2.CellUnion{}
	for _, x := range l {
		cu = append(cu, s2.CellID(x))
	}
	if len(l) == 0 && c.R.Intn(2) == 0 {
		cu = nil
	}
	c.Logf("cells %v", cu)
	b := s2tools.CellUnionToGeoJSON(cu)
	c.Eval(1)
	if len(l) == 0 {
		c.Count("empty lists", 1)
	}
	c.judgeCells(b, l, "CellUnionToGeoJSON")
	// the properties identify the cell
	for _, f := range mustMap(c, b)["features"].([]interface{}) {
		p := f.(map[string]interface{})["properties"].(map[string]interface{})
		_ = p
	}
	if len(l) > 0 {
		c.Nontrivial(fmt.Sprint(l))
	}
	if c.Idx < 1 {
		c.Sample(fmt.Sprint(cu))
	}
}

// ---------------------------------------------------------------- C39

type answer struct {
	status int
	ctype  string
	body   []byte
}

// endpoint answers requests: in process or over the network.
type endpoint struct {
	do  func(c *Case, method, path string, body []byte) answer
	cmd *exec.Cmd
}

// pieces hands its bytes out a few at a time and does not tell how many come.
type pieces struct {
	b []byte
	n int
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(p.b) == 0 {
		return 0, io.EOF
	}
	n := p.n
	if n > len(b) {
		n = len(b)
	}
	n = copy(b[:n], p.b)
	p.b = p.b[n:]
	return n, nil
}

// bodyReader gives part of the bodies without telling their length.
func bodyReader(method string, body []byte) io.Reader {
	if method == "POST" && len(body)%3 == 0 && len(body) > 0 {
		return &pieces{body, 1 + len(body)/7}
	}
	return bytes.NewReader(body)
}

func inProcess() *endpoint {
	m := mux.NewRouter()
	m.HandleFunc("/api/s2cells", s2tools.S2CellQueryHandler)
	m.HandleFunc("/api/geojson/{min_level:[0-9]+}/{max_level:[0-9]+}/{max_cells:[0-9]+}", s2tools.GeoJSONToCellHandler)
	return &endpoint{do: func(c *Case, method, path string, body []byte) answer {
		req := httptest.NewRequest(method, "http://host"+path, bodyReader(method, body))
		w := httptest.NewRecorder()
		p, st := Guard(func() { m.ServeHTTP(w, req) })
		if p != nil {
			c.Fail("panic", "%s %s with body %s: panic %v\n%s", method, path, trim(string(body), 1000), p, st)
		}
		res := w.Result()
		return answer{res.StatusCode, res.Header.Get("Content-Type"), w.Body.Bytes()}
	}}
}

// overNetwork runs cmd/mapdebugger.
func overNetwork(w *W, bin string) (*endpoint, error) {
	cl := &http.Client{Timeout: 200 * time.Second, Transport: &http.Transport{DisableCompression: true}}
	for try := 0; try < 20; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return nil, err
		}
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		cmd := exec.Command(bin, "-httpPort", strconv.Itoa(port))
		logf, err := os.Create(filepath.Join(w.Dir, "mapdebugger.log"))
		if err != nil {
			return nil, err
		}
		cmd.Stdout, cmd.Stderr = logf, logf
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		exited := make(chan struct{})
		go func() { cmd.Wait(); close(exited) }()
		base := fmt.Sprintf("http://127.0.0.1:%d", port)
		for up := 0; up < 600; up++ {
			select {
			case <-exited:
				up = 600
				continue
			case <-time.After(50 * time.Millisecond):
			}
			w.Tick()
			if r, err := cl.Get(base + "/nothing"); err == nil {
				r.Body.Close()
				select {
				case <-exited: // somebody else took the port
					up = 600
					continue
				default:
				}
				return &endpoint{cmd: cmd, do: func(c *Case, method, path string, body []byte) answer {
					req, err := http.NewRequest(method, base+path, bodyReader(method, body))
					if err != nil {
						c.Infra("%v", err)
					}
					res, err := cl.Do(req)
					if err != nil {
						lb, _ := os.ReadFile(filepath.Join(w.Dir, "mapdebugger.log"))
						c.Fail("no answer", "%s %s with body %s: no answer: %v\nserver log: %s", method, path, trim(string(body), 1000), err, trim(string(lb), 3000))
					}
					defer res.Body.Close()
					b, err := io.ReadAll(res.Body)
					if err != nil {
						c.Fail("no answer", "%s %s: reading the answer: %v", method, path, err)
					}
					return answer{res.StatusCode, res.Header.Get("Content-Type"), b}
				}}, nil
			}
		}
		cmd.Process.Kill()
		<-exited
	}
	return nil, fmt.Errorf("mapdebugger does not come up")
}

func jsonType(t string) bool {
	return strings.TrimSpace(strings.Split(t, ";")[0]) == "application/json"
}

// featureJSON spells the object as a feature.
func featureJSON(r *rand.Rand, gd *geodata.GeoData) string {
	co := gd.Geometry.Coordinates
	alt := ""
	if r.Intn(5) == 0 {
		alt = ",123.5"
	}
	var pos []string
	for i := 0; i+1 < len(co); i += 2 {
		pos = append(pos, "["+num(co[i])+","+num(co[i+1])+alt+"]")
	}
	var g string
	switch gd.Geometry.Type {
	case geodata.Geometry_POINT:
		g = `{"type":"Point","coordinates":` + pos[0] + `}`
	case geodata.Geometry_LINESTRING:
		g = `{"type":"LineString","coordinates":[` + strings.Join(pos, ",") + `]}`
	case geodata.Geometry_POLYGON:
		g = `{"type":"Polygon","coordinates":[[` + strings.Join(pos, ",") + `]]}`
	}
	p := []string{"{}", "null", `{"a":1,"b":"x","c":null,"d":true}`}[r.Intn(3)]
	return `{"type":"Feature","properties":` + p + `,"geometry":` + g + `}`
}

func collection(f ...string) string {
	return `{"type":"FeatureCollection","features":[` + strings.Join(f, ",") + `]}`
}

func runC39(c *Case) {
	r := c.R
	ep, _ := c.State.(*endpoint)
	if ep == nil {
		c.Infra("no server")
	}
	ask := func(method, path, body string) answer {
		c.Logf("%s %s %s", method, path, body)
		a := ep.do(c, method, path, []byte(body))
		c.Eval(1)
		c.Count(fmt.Sprintf("answers %d", a.status), 1)
		if a.status == 200 && !jsonType(a.ctype) {
			c.Fail("content type", "%s %s answered with the content type %q", method, path, a.ctype)
		}
		if a.status == 200 && !json.Valid(a.body) {
			c.Fail("json", "%s %s answered with %s", method, path, trim(string(a.body), 1000))
		}
		return a
	}
	bad := func(method, path, body, why string) {
		a := ask(method, path, body)
		c.Count("refused "+why, 1)
		if a.status != 400 {
			c.Fail("not refused "+why, "%s %s (%s) with body %s answered with status %d: %s", method, path, why, trim(body, 1000), a.status, trim(string(a.body), 500))
		}
	}
	// cells
	l := genCellIDs(r)
	var toks []string
	for _, x := range l {
		toks = append(toks, numOf(x).token())
	}
	if len(l) > 0 {
		sep := []string{",", "%2C"}[r.Intn(2)]
		path := "/api/s2cells?cells=" + strings.Join(toks, sep)
		if r.Intn(4) == 0 {
			path += "&other=1"
		}
		a := ask("GET", path, "")
		if a.status != 200 {
			c.Fail("cells refused", "GET %s answered with status %d: %s", trim(path, 1000), a.status, a.body)
		}
		c.judgeCells(a.body, l, "GET "+trim(path, 1000))
		c.Count("cell lists", 1)
		if len(l) > 1000 {
			c.Count("cell lists over a thousand", 1)
		}
	}
	wrong := []string{"", "X", "zz", "0", "00", "2", "c0000001", "ffffffffffffffff", "e", "47e66f00000000000", "0x47e6", "-1", "+1", " 47e664", "47e664 ", "/", "0/1", "47e664;", "é", "\x00", "g", "18446744073709551615",
		fmt.Sprintf("%016x", genCell(r).id()^genCell(r).id()|3<<61), fmt.Sprintf("%016x", genCell(r).id()&^1|2), numOf(genCell(r).id()).str()}[r.Intn(25)]
	if x, err := strconv.ParseUint(wrong+strings.Repeat("0", maxInt(0, 16-len(wrong))), 16, 64); err != nil || len(wrong) > 16 || len(wrong) == 0 || !validID(x) {
		k := 0
		if len(toks) > 0 {
			k = r.Intn(len(toks) + 1)
		}
		tw := append(append(append([]string(nil), toks[:k]...), wrong), toks[k:]...)
		bad("GET", "/api/s2cells?cells="+url.QueryEscape(strings.Join(tw, ",")), "", "invalid token")
	}
	switch r.Intn(4) {
	case 0:
		bad("GET", "/api/s2cells", "", "missing cells")
	case 1:
		bad("GET", "/api/s2cells?cell=47e664", "", "missing cells")
	case 2:
		bad("GET", "/api/s2cells?cells=", "", "missing cells")
	}
	// coverings
	size := math.Exp(-r.Float64() * 18)
	sh := genShape(r, hotSpot(r), size)
	gd := sh.gd
	if sh.kind == "multi" {
		gd = polyGD(gd.Geometry.Geometries[0].Coordinates...)
	}
	if r.Intn(60) == 0 && gd.Geometry.Type == geodata.Geometry_LINESTRING {
		// a long track, the same way back and forth
		co := gd.Geometry.Coordinates
		for n := many(r, 100, 1, 300000); len(co) < n; {
			k := len(co)
			for i := k - 4; i >= 0 && len(co) < n; i -= 2 {
				co = append(co, co[i], co[i+1])
			}
			if k < 4 {
				break
			}
		}
		gd = lineGD(co...)
	}
	rc := genCoverer(r, size)
	rc.LevelMod = 0
	path, body, feat := c.askCovering(ask, sh, gd, rc)
	for i := r.Intn(3); i > 0 && sh.kind != "multi"; i-- {
		// much like the former: the shape or the parameters
		sh2, rc2 := sh, *rc
		if r.Intn(3) > 0 {
			sh2 = sh.relative(r)
		}
		if r.Intn(3) == 0 {
			rc2 = *genCoverer(r, size)
			rc2.LevelMod = 0
		}
		c.askCovering(ask, sh2, sh2.gd, &rc2)
		c.Count("related requests", 1)
	}
	// refused bodies
	ok := "/api/geojson/4/6/8"
	pt := `{"type":"Feature","properties":{},"geometry":{"type":"Point","coordinates":[2,48]}}`
	type rq struct{ path, body, why string }
	cut := 1 + r.Intn(len(body)-1)
	cases := []rq{
		{ok, "", "empty body"},
		{ok, body[:cut], "truncated body"},
		{ok, "[" + body + "]", "not a collection"},
		{ok, `"x"`, "not a collection"},
		{ok, "5", "not a collection"},
		{ok, "{" + body, "malformed body"},
		{ok, collection(), "feature count"},
		{ok, collection(pt, pt), "feature count"},
		{ok, collection(pt, feat, pt), "feature count"},
		{ok, `{"type":"FeatureCollection"}`, "feature count"},
		{ok, `{}`, "feature count"},
		{ok, `null`, "feature count"},
		{ok, collection(`null`), "null feature"},
		{ok, collection(`{}`), "no geometry"},
		{ok, collection(`{"type":"Feature","properties":{}}`), "no geometry"},
		{ok, collection(`{"type":"Feature","properties":{},"geometry":null}`), "no geometry"},
		{ok, collection(`{"type":"Feature","properties":{},"geometry":{}}`), "no geometry"},
		{ok, collection(`{"type":"Feature","properties":{},"geometry":{"type":"Point"}}`), "no coordinates"},
		{ok, collection(`{"type":"Feature","properties":{},"geometry":{"type":"Point","coordinates":[]}}`), "no coordinates"},
		{ok, collection(`{"type":"Feature","properties":{},"geometry":{"type":"Point","coordinates":null}}`), "no coordinates"},
		{ok, collection(`{"type":"Feature","properties":{},"geometry":{"type":"Point","coordinates":[1]}}`), "few coordinates"},
		{ok, collection(`{"type":"Feature","properties":{},"geometry":{"type":"Point","coordinates":["1","2"]}}`), "malformed coordinates"},
		{ok, collection(`{"type":"Feature","properties":{},"geometry":{"type":"Point","coordinates":[1e999,2]}}`), "malformed coordinates"},
		{ok, collection(`{"type":"Feature","properties":{},"geometry":{"type":"Polygon","coordinates":[[[1,2],[3,4],[1,2]]]}}`), "collapsed polygon"},
		{ok, collection(`{"type":"Feature","properties":{},"geometry":{"type":"Polygon","coordinates":[[[1,2],[1,2],[1,2],[1,2]]]}}`), "collapsed polygon"},
		{ok, collection(`{"type":"Feature","properties":{},"geometry":{"type":"Polygon","coordinates":[]}}`), "collapsed polygon"},
		{ok, collection(`{"type":"Feature","properties":{},"geometry":{"type":"Polygon","coordinates":[[]]}}`), "collapsed polygon"},
		{ok, collection(`{"type":"Feature","properties":{},"geometry":{"type":"Polygon","coordinates":[[[1,2],[3]]]}}`), "malformed coordinates"},
		{ok, collection(`{"type":"Feature","properties":{},"geometry":{"type":"MultiPoint","coordinates":[[1,2]]}}`), "unsupported geometry"},
		{ok, collection(`{"type":"Feature","properties":{},"geometry":{"type":"MultiLineString","coordinates":[[[1,2],[3,4]]]}}`), "unsupported geometry"},
		{ok, collection(`{"type":"Feature","properties":{},"geometry":{"type":"MultiPolygon","coordinates":[[[[1,2],[3,4],[5,2],[1,2]]]]}}`), "unsupported geometry"},
		{ok, collection(`{"type":"Feature","properties":{},"geometry":{"type":"GeometryCollection","geometries":[]}}`), "unsupported geometry"},
		{ok, collection(`{"type":"Feature","properties":{},"geometry":{"type":"Circle","coordinates":[1,2]}}`), "unsupported geometry"},
		{ok, collection(`{"type":"Feature","properties":{"a":[1]},"geometry":{"type":"Point","coordinates":[1,2]}}`), "unsupported property"},
		{ok, collection(`{"type":"Feature","properties":{"a":{"b":1}},"geometry":{"type":"Point","coordinates":[1,2]}}`), "unsupported property"},
		{"/api/geojson/99999999999999999999/9/0", collection(pt), "unusable parameters"},
		{"/api/geojson/4/99999999999999999999/0", collection(pt), "unusable parameters"},
		{"/api/geojson/4/9/99999999999999999999", collection(pt), "unusable parameters"},
	}
	for i := 0; i < 6; i++ {
		q := cases[r.Intn(len(cases))]
		bad("POST", q.path, q.body, q.why)
	}
	// anything: an answer, whatever it is, in time at coarse levels
	for i := 0; i < 3; i++ {
		b := []byte(collection(feat))
		if r.Intn(2) == 0 {
			b = []byte(collection(genFeature(r).json))
		}
		for k := r.Intn(4); k > 0; k-- {
			switch r.Intn(3) {
			case 0:
				b[r.Intn(len(b))] = "{}[]\",:0123456789.eE-+ntf\\\x00\xff"[r.Intn(28)]
			case 1:
				x := r.Intn(len(b))
				y := x + r.Intn(minInt(len(b)-x, 12)+1)
				b = append(b[:x:x], b[y:]...)
				if len(b) == 0 {
					b = []byte("x")
				}
			case 2:
				x := r.Intn(len(b))
				b = append(b[:x:x], append([]byte([]string{"null", "[]", "{}", "1e400", "1", ",", "\"\"", "-"}[r.Intn(8)]), b[x:]...)...)
			}
		}
		lv := r.Intn(6)
		p := fmt.Sprintf("/api/geojson/%d/%d/%d", lv, lv+r.Intn(2), r.Intn(20))
		switch r.Intn(6) {
		case 0: // limits the wrong way round, or beyond the deepest level
			p = fmt.Sprintf("/api/geojson/%d/%d/%d", 1+lv, r.Intn(1+lv), r.Intn(20))
		case 1:
			p = fmt.Sprintf("/api/geojson/%d/%d/%d", lv, 31+r.Intn(1000), 1+r.Intn(20))
		}
		a := ask("POST", p, string(b))
		if a.status != 200 && a.status != 400 {
			c.Fail("status", "POST %s with body %s answered with status %d: %s", p, trim(string(b), 2000), a.status, trim(string(a.body), 500))
		}
		c.Count("mutated bodies", 1)
	}
	if c.Idx%10 == 0 {
		c.togetherC39(ep, size)
	}
	for _, p := range []string{"/api/geojson/31/31/0", "/api/geojson/1000000/1000000/5"} {
		a := ask("POST", p, collection(pt))
		if a.status == 200 {
			c.judgeCells(a.body, []uint64{uint64(leafAt(48, 2))}, "POST "+p)
		} else if a.status != 400 {
			c.Fail("status", "POST %s answered with status %d", p, a.status)
		}
	}
	if c.Idx < 1 {
		c.Sample(path + " " + body)
	}
}

// sameAnswer compares two answers; the order of the features does not matter.
func sameAnswer(a, b answer) bool {
	if a.status != b.status || a.status == 200 && a.ctype != b.ctype {
		return false
	}
	if a.status != 200 || bytes.Equal(a.body, b.body) {
		return true
	}
	lists := [2][]string{}
	for i, x := range []answer{a, b} {
		m, err := decodeJSON(x.body)
		if err != nil {
			return false
		}
		fl, _ := m["features"].([]interface{})
		for _, f := range fl {
			t, _ := json.Marshal(f)
			lists[i] = append(lists[i], string(t))
		}
		sort.Strings(lists[i])
	}
	return reflect.DeepEqual(lists[0], lists[1])
}

// togetherC39 asks one by one, then asks the same from several clients at once.
func (c *Case) togetherC39(ep *endpoint, size float64) {
	r := c.R
	type rq struct {
		method, path, body string
		want               answer
	}
	var qs []*rq
	add := func(method, path, body string) {
		qs = append(qs, &rq{method: method, path: path, body: body})
	}
	bodies := []string{}
	for i := 0; i < 3; i++ {
		sh := genShape(r, hotSpot(r), size)
		if sh.kind != "multi" {
			bodies = append(bodies, collection(featureJSON(r, sh.gd)))
		}
	}
	bodies = append(bodies, collection(featureJSON(r, pointGD(r.Float64()*80, r.Float64()*170))), collection(), "{")
	for i := 0; i < 12; i++ {
		rc := genCoverer(r, size)
		add("POST", fmt.Sprintf("/api/geojson/%d/%d/%d", rc.MinLevel, rc.MaxLevel, rc.MaxCells), bodies[r.Intn(len(bodies))])
	}
	// long ones: a spiral of many vertices, in many cells
	for i := 0; i < 3; i++ {
		var co []float64
		f := newFrame(hotSpot(r))
		for k, n := 0, 300+r.Intn(1000); k < n; k++ {
			a := float64(k) / 20
			lat, lng := f.at(0.0004*a*math.Cos(a), 0.0004*a*math.Sin(a)).deg()
			co = append(co, lng, lat)
		}
		lv := 9 + r.Intn(3)
		add("POST", fmt.Sprintf("/api/geojson/%d/%d/%d", r.Intn(lv), lv, 200+r.Intn(800)), collection(featureJSON(r, lineGD(co...))))
	}
	for i := 0; i < 5; i++ {
		var toks []string
		for _, x := range genCellIDs(r) {
			if len(toks) < 300 {
				toks = append(toks, numOf(x).token())
			}
		}
		add("GET", "/api/s2cells?cells="+strings.Join(toks, ","), "")
	}
	add("GET", "/api/s2cells?cells=zz", "")
	for _, q := range qs {
		q.want = ep.do(c, q.method, q.path, []byte(q.body))
		c.Tick()
	}
	c.Logf("%d requests from 8 clients at once", len(qs))
	c.clients(8, func(i int, r *rand.Rand) {
		for n := 0; n < 2; n++ {
			for _, k := range r.Perm(len(qs)) {
				q := qs[k]
				got := ep.do(c, q.method, q.path, []byte(q.body))
				c.Tick()
				if !sameAnswer(got, q.want) {
					c.Fail("together", "%s %s with body %s, while other requests were being answered, got status %d and %s; alone it got status %d and %s", q.method, q.path, trim(q.body, 1000), got.status, trim(string(got.body), 1000), q.want.status, trim(string(q.want.body), 1000))
				}
				c.Count("answers together", 1)
			}
		}
	})
}

// askCovering asks for a covering and compares it.
func (c *Case) askCovering(ask func(method, path, body string) answer, sh *shape, gd *geodata.GeoData, rc *s2.RegionCoverer) (path, body, feat string) {
	r := c.R
	path = fmt.Sprintf("/api/geojson/%d/%d/%d", rc.MinLevel, rc.MaxLevel, rc.MaxCells)
	feat = featureJSON(r, gd)
	if r.Intn(60) == 0 {
		// large properties
		var ps []string
		size := many(r, 1000, 1, 6<<20)
		for i, n := 0, 1+r.Intn(20); i < n; i++ {
			ps = append(ps, fmt.Sprintf("%q:%q", fmt.Sprint("k", i), strings.Repeat("property ", size/n/9)))
		}
		feat = strings.Replace(feat, `"properties":`, `"properties":{`+strings.Join(ps, ",")+`},"was":`, 1)
	}
	body = collection(feat)
	if len(body) > 1<<20 {
		c.Count("bodies over a megabyte", 1)
	}
	a := ask("POST", path, body)
	if a.status != 200 {
		c.Fail("geojson refused", "POST %s with body %s answered with status %d: %s", path, trim(body, 2000), a.status, a.body)
	}
	c.Count("geometries "+gd.Geometry.Type.String(), 1)
	want, err := gd.Cover(rc)
	if err != nil {
		c.Fail("cover", "%v", err)
	}
	m, err := decodeJSON(a.body)
	if err != nil {
		c.Fail("json", "POST %s: %v", path, err)
	}
	fl, _ := m["features"].([]interface{})
	var got []uint64
	for _, f := range fl {
		fm, _ := f.(map[string]interface{})
		p, _ := fm["properties"].(map[string]interface{})
		u, _ := p["uid"].(string)
		x, _ := strconv.ParseUint(u, 10, 64)
		got = append(got, x)
	}
	c.judgeCells(a.body, got, "POST "+path)
	ws := append([]s2.CellID(nil), want...)
	gs := make([]s2.CellID, len(got))
	for i, x := range got {
		gs[i] = s2.CellID(x)
	}
	sort.Slice(ws, func(i, j int) bool { return ws[i] < ws[j] })
	sort.Slice(gs, func(i, j int) bool { return gs[i] < gs[j] })
	if len(ws) != len(gs) || len(ws) > 0 && !reflect.DeepEqual(ws, gs) {
		c.Fail("covering", "POST %s with body %s answered with the cells %v, the covering is %v", path, trim(body, 2000), gs, ws)
	}
	if sh.kind != "multi" {
		for i := 0; i < 10; i++ {
			p, what := sh.sample(r)
			if !covers(gs, p) {
				c.Fail("uncovered", "POST %s with body %s: the cells answered do not contain its %s %v", path, trim(body, 2000), what, p)
			}
		}
		for _, x := range gs {
			if lv := x.Level(); lv < rc.MinLevel || lv > rc.MaxLevel {
				c.Fail("levels", "POST %s answered with a cell of level %d", path, lv)
			}
		}
	}
	c.Count("covering cells", len(gs))
	if len(gs) > 1 {
		c.Nontrivial(path + body)
	}
	return path, body, feat
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func init() {
	register(&Check{
		ID:     "C35",
		Rule:   "one case is one stored object of arbitrary shape (missing geometry, any list length, nested or missing parts, unknown types, null or unknown properties, NaN, infinite, huge, repeated, collinear, antipodal, nearly equal coordinates; one in four decoded from damaged bytes) and one GeoJSON feature of the same kind, taken through every covering, bounding, converting, rendering and indexing call at coarse levels with panics caught and CPU time and memory watched; every case is non-trivial",
		Need:   []string{"calls", "refused", "accepted", "decoded from damaged bytes"},
		Shards: func(th bool) []Shard { return pureShards(th, 4000) },
		Run:    runC35,
	})
	register(&Check{
		ID:     "C36",
		Rule:   "one case is one cell built from its bits, parsed in its three notations, a dozen damaged spellings that must be refused, and ten random strings whose result must be absent or the valid cell an independent reader finds; non-trivial: distinct cells",
		Need:   []string{"parsed face/children", "parsed token", "parsed decimal", "refused face", "refused child", "refused stray", "refused depth", "refused invalid id", "refused invalid token", "judged string", "judged bytes"},
		Shards: func(th bool) []Shard { return pureShards(th, 20000) },
		Run:    runC36,
	})
	register(&Check{
		ID:     "C37",
		Rule:   "one case is up to four cell lists with repeated, parent, child and range cells, nil and empty lists, normalized and one after the other, cut from a single list which has to keep its content: union, difference and tokens against models computed by sorting and by cancelling one by one; non-trivial: more than one cell against a non-empty list",
		Need:   []string{"unions", "union cells", "lists cut from one", "differences", "missing cells", "tokens"},
		Shards: func(th bool) []Shard { return pureShards(th, 6000) },
		Run:    runC37,
	})
	register(&Check{
		ID:     "C38",
		Rule:   "one case is one list of cells of any face and level, many at poles, the antimeridian and face edges, rendered and read back by an independent JSON reader and compared with vertices computed by walking the curve and projecting; non-trivial: not the empty list",
		Need:   []string{"cells rendered", "empty lists", "vertices at poles", "vertices at the antimeridian"},
		Shards: func(th bool) []Shard { return pureShards(th, 4000) },
		Run:    runC38,
	})
	register(&Check{
		ID:   "C39",
		Rule: "one case is one list of cell tokens (now and then thousands), one with a wrong token, one random geometry (now and then megabytes of it) and level limits, up to two more with a geometry sharing most vertices or with other limits, six requests from a catalogue of wrong ones and three damaged bodies, and in one case in ten two dozen requests answered one by one and then to eight clients at once, sent to the handlers in process and, in one shard, over the loopback network to the built cmd/mapdebugger; answers are read by an independent JSON reader; non-trivial: coverings of at least two cells",
		Need: []string{"cell lists", "covering cells", "related requests", "geometries POINT", "geometries LINESTRING", "geometries POLYGON", "refused invalid token", "refused missing cells", "refused truncated body", "refused feature count", "refused unsupported geometry", "refused unsupported property", "refused unusable parameters", "refused collapsed polygon", "mutated bodies", "servers started", "bodies over a megabyte", "cell lists over a thousand", "answers together"},
		Shards: func(th bool) []Shard {
			s := pureShards(th, 300)
			s[len(s)-1].Name = "network"
			return s
		},
		Once: func(w *W) {
			if w.Shard.Name != "network" {
				w.State = inProcess()
				return
			}
			bin := os.Getenv("VMON_MAPDEBUGGER")
			if bin == "" {
				w.State = inProcess()
				return
			}
			ep, err := overNetwork(w, bin)
			if err != nil {
				w.infra = append(w.infra, err.Error())
				return
			}
			w.State = ep
			w.Count("servers started", 1)
		},
		Done: func(w *W) {
			if ep, ok := w.State.(*endpoint); ok && ep != nil && ep.cmd != nil {
				ep.cmd.Process.Kill()
			}
		},
		Run: runC39,
	})
}
