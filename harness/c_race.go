package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http/httptest"
	"strings"
	"sync/atomic"
	"time"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/akhenakh/oureadb/s2tools"
	"github.com/akhenakh/oureadb/store"
	"github.com/golang/geo/s2"
	"github.com/gorilla/mux"
	"github.com/twpayne/go-geom"
	"github.com/twpayne/go-geom/encoding/geojson"
)

func init() {
	register(&Check{
		ID:   "C14",
		Rule: "a case runs 6 to 10 goroutines for a few hundred random calls each, built with the Go race detector: on one store of each backend batches (sets, deletes, merges), reads, half-consumed iterators, compaction, statistics, and all indexing and query calls of three index objects shared by all goroutines on shared geometries, some of them on a second store of the kind and on stores which come and go beside it, then on the closed store calls which fail all together; in helper cases the conversions, coverings, rectangles, renderings, cell helpers and HTTP handlers on shared inputs. A report of the race detector is a violation. In three quarters of the cases nothing but the code under test synchronizes the goroutines (counting overlaps would order them). Non-trivial: the goroutines ran concurrently; identified by case.",
		Shards: func(th bool) []Shard {
			mul := 3
			if th {
				mul = 40
			}
			var res []Shard
			for i, b := range []string{"badger", "boltdb", "goleveldb", "gtreap"} {
				n := []int{2, 4, 4, 8}[i] * mul
				for j := 0; j < 2; j++ {
					res = append(res, Shard{Name: fmt.Sprintf("%s-%d", b, j), Backend: b, N: n})
				}
			}
			for j := 0; j < 2; j++ {
				res = append(res, Shard{Name: fmt.Sprintf("helpers-%d", j), Backend: "helpers", N: 6 * mul})
			}
			res = append(res, Shard{Name: "null", Backend: "null", N: 2 * mul})
			return res
		},
		Run:    runC14,
		Race:   true,
		Par:    4,
		Need:   []string{"store_calls", "index_calls", "helper_calls", "handler_requests", "compactions", "overlapping_calls", "failing_calls", "other_store_calls", "stores_beside"},
		Assume: []string{"the race detector sees the races of the executions that happened, with the unsafe-pointer checks of the compiler off (bolt's page casts trip them)"},
	})
}

// overlap counts calls in progress at the same time. The counting orders the
// goroutines for the race detector and would hide races: a quiet one does not
// count, and is used in most cases.
type overlap struct {
	cur, over int64
	quiet     bool
}

func (o *overlap) in() {
	if o.quiet {
		return
	}
	n := atomic.AddInt64(&o.cur, 1)
	if n >= 3 {
		atomic.AddInt64(&o.over, 1)
	}
}
func (o *overlap) out() {
	if !o.quiet {
		atomic.AddInt64(&o.cur, -1)
	}
}

func runC14(c *Case) {
	if !raceEnabled {
		c.Infra("this build has no race detector")
	}
	if c.Shard.Backend == "helpers" {
		runC14helpers(c)
		return
	}
	name := c.Shard.Backend
	var s store.KVStore
	if name == "null" {
		var err error
		if s, err = openRaw("null", nil, nil); err != nil {
			c.Fail("open", "%v", err)
		}
	} else {
		var extra cfgT
		if name == "goleveldb" {
			extra = cfgT{"write_buffer_size": float64(16384)}
		}
		s = c.mustOpen(name, c.TempDir(), &foldOp{partial: 2}, extra)
		c.prefill(backendOf(name), s)
	}
	// another store of the kind, used by the same goroutines
	var s2nd store.KVStore
	if name == "null" {
		s2nd, _ = openRaw("null", nil, nil)
	} else {
		s2nd = c.mustOpen(name, c.TempDir(), &foldOp{partial: 2}, nil)
		c.prefill(backendOf(name), s2nd)
	}
	sideDirs := []string{c.TempDir(), c.TempDir(), c.TempDir()}
	lat, lng := c.R.Float64()*160-80, c.R.Float64()*360-180
	level := 4 + c.R.Intn(14)
	calls := indexCalls(s, lat, lng, level)
	ov := overlap{quiet: c.Idx%4 != 0}
	nc := 6 + c.R.Intn(5)
	per := 120
	if name == "badger" {
		per = 50
	}
	if name == "null" {
		per = 30
	}
	conflictOK := name == "badger"
	fail := func(key string, what string, err error) {
		if err == nil || conflictOK && isConflict(name, err) {
			return
		}
		c.Fail(key, "%s failed: %v", what, err)
	}
	c.clients(nc, func(id int, r *rand.Rand) {
		cnt := map[string]int{}
		defer func() {
			for k, n := range cnt {
				c.Count(k, n)
			}
		}()
		for i := 0; i < per; i++ {
			if !ov.quiet {
				c.Tick()
			}
			ov.in()
			switch k := r.Intn(12); {
			case k < 5:
				cl := calls[r.Intn(len(calls))]
				err := cl.f()
				if err != nil && !cl.mayFail {
					fail("index", cl.name, err)
				}
				cnt["index_calls"]++
			case k < 8:
				x := s
				if r.Intn(4) == 0 {
					x = s2nd
					cnt["other_store_calls"]++
				}
				w, err := x.Writer()
				fail("writer", "Writer", err)
				b := w.NewBatch()
				if r.Intn(3) == 0 {
					_, b, _ = w.NewBatchEx(store.KVBatchOptions{TotalBytes: 100, NumSets: 3})
				}
				for j := 0; j < 1+r.Intn(5); j++ {
					k := []byte(fmt.Sprintf("d%02d", r.Intn(20)))
					switch r.Intn(3) {
					case 0:
						b.Delete(k)
					case 1:
						b.Merge([]byte(fmt.Sprintf("m%d", r.Intn(4))), []byte{'x'})
					default:
						b.Set(k, make([]byte, r.Intn(3)))
					}
				}
				fail("exec", "ExecuteBatch", w.ExecuteBatch(b))
				b.Close()
				w.Close()
				cnt["store_calls"]++
			case k < 11:
				x := s
				if r.Intn(4) == 0 {
					x = s2nd
					cnt["other_store_calls"]++
				}
				rd, err := x.Reader()
				fail("reader", "Reader", err)
				rd.Get([]byte("m0"))
				rd.MultiGet([][]byte{[]byte("d01"), []byte("m1"), []byte("none")})
				its := []store.KVIterator{rd.PrefixIterator([]byte("d"))}
				if name != "badger" {
					its = append(its, rd.RangeIterator([]byte("d1"), nil))
				}
				for n := 0; n < r.Intn(40); n++ {
					it := its[r.Intn(len(its))]
					if r.Intn(10) == 0 {
						it.Seek([]byte(fmt.Sprintf("d%02d", r.Intn(20))))
					}
					if _, _, ok := it.Current(); ok {
						it.Next()
					}
				}
				for _, it := range its {
					it.Close()
				}
				rd.Close()
				cnt["store_calls"]++
			case k == 11:
				if name != "null" && id < len(sideDirs) && i%5 == 0 {
					// stores which come and go beside them
					o := randOptions(r, name)
					if name == "goleveldb" {
						o["bloom_filter_bits_per_key"] = float64(1 + r.Intn(60))
					}
					x, err := openStore(name, sideDirs[id], &foldOp{partial: 2}, o)
					fail("open", "opening a store beside", err)
					if w, err := x.Writer(); err == nil {
						b := w.NewBatch()
						b.Set([]byte("k"), []byte("v"))
						b.Merge([]byte("m"), []byte("v"))
						fail("exec", "ExecuteBatch", w.ExecuteBatch(b))
						b.Close()
						w.Close()
					}
					fail("close", "closing a store beside", x.Close())
					cnt["stores_beside"]++
				}
				if i%8 == 0 {
					if cs, ok := s.(interface{ CompactWithBatchSize(int) error }); ok {
						fail("compact", "CompactWithBatchSize", cs.CompactWithBatchSize(1+r.Intn(5)))
					}
					if cs, ok := s.(interface{ Compact() error }); ok {
						fail("compact", "Compact", cs.Compact())
						cnt["compactions"]++
					}
				}
				if st, ok := s.(interface{ Stats() json.Marshaler }); ok {
					if _, err := json.Marshal(st.Stats()); err != nil {
						c.Fail("stats", "Stats: %v", err)
					}
				}
				if st, ok := s.(interface{ StatsMap() map[string]interface{} }); ok {
					st.StatsMap()
				}
			}
			ov.out()
		}
	})
	c.Count("overlapping_calls", int(ov.over))
	if ov.over > 0 || ov.quiet {
		c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx, c.Seed, nc, per))
	}
	if c.Idx == 0 {
		c.Sample(fmt.Sprintf("%d goroutines, %d calls each, level %d at %.3f,%.3f; %d calls began while two others ran", nc, per, level, lat, lng, ov.over))
	}
	c.mustClose(s2nd)
	c.mustClose(s)
	if name == "gtreap" || name == "null" {
		return
	}
	// calls which fail all together
	c.clients(nc, func(id int, r *rand.Rand) {
		for i := 0; i < 25; i++ {
			cl := calls[r.Intn(len(calls))]
			Guard(func() { cl.f() })
			c.Tick()
		}
	})
	c.Count("failing_calls", nc*25)
}

func runC14helpers(c *Case) {
	lat, lng := c.R.Float64()*120-60, c.R.Float64()*300-150
	d := 0.01 + c.R.Float64()
	gds := []*geodata.GeoData{
		pointGD(lat, lng),
		lineGD(lng, lat, lng+d, lat+d, lng+2*d, lat),
		polyGD(lng, lat, lng+d, lat, lng+d, lat+d, lng, lat+d, lng, lat),
		// clockwise, and concave
		polyGD(lng, lat, lng, lat+d, lng+d, lat+d, lng+d, lat, lng, lat),
		polyGD(lng, lat, lng+d, lat, lng+d, lat+d, lng+d/2, lat+d/4, lng, lat+d, lng, lat),
		multiGD([]float64{lng, lat, lng + d, lat, lng + d, lat + d, lng, lat}, []float64{lng - 5*d, lat, lng - 4*d, lat, lng - 4*d, lat + d, lng - 5*d, lat}),
	}
	body := func(i int) string {
		return fmt.Sprintf(`{"type":"FeatureCollection","features":[{"type":"Feature","properties":{"a":1,"b":"x","c":true},"geometry":%s}]}`, []string{
			fmt.Sprintf(`{"type":"Point","coordinates":[%v,%v]}`, lng, lat),
			fmt.Sprintf(`{"type":"LineString","coordinates":[[%v,%v],[%v,%v]]}`, lng, lat, lng+d, lat+d),
			fmt.Sprintf(`{"type":"Polygon","coordinates":[[[%v,%v],[%v,%v],[%v,%v],[%v,%v]]]}`, lng, lat, lng+d, lat, lng+d, lat+d, lng, lat),
		}[i])
	}
	var feats []*geojson.Feature
	for i := 0; i < 3; i++ {
		var fc geojson.FeatureCollection
		if err := json.Unmarshal([]byte(body(i)), &fc); err != nil {
			c.Infra("%v", err)
		}
		f := fc.Features[0]
		feats = append(feats, f)
		gd := &geodata.GeoData{}
		if err := geodata.GeoJSONFeatureToGeoData(f, gd); err != nil {
			c.Fail("convert", "%v", err)
		}
		gds = append(gds, gd)
	}
	mp := geom.NewPolygon(geom.XY).MustSetCoords([][]geom.Coord{{{lng, lat}, {lng + d, lat}, {lng + d, lat + d}, {lng, lat}}})
	coverer := &s2.RegionCoverer{MinLevel: 5, MaxLevel: 14, MaxCells: 8}
	flat := &s2.RegionCoverer{MinLevel: 9, MaxLevel: 9, MaxCells: 8}
	cells := []s2.CellID{}
	leaf := s2.CellIDFromLatLng(s2.LatLngFromDegrees(lat, lng))
	for l := 0; l <= 30; l += 3 {
		cells = append(cells, leaf.Parent(l))
	}
	cu := s2.CellUnion(cells)
	cu2 := s2.CellUnion(append([]s2.CellID{cells[3]}, cells[5:]...))
	router := mux.NewRouter()
	router.HandleFunc("/api/cells", s2tools.S2CellQueryHandler)
	router.HandleFunc("/api/geojson/{min_level:[0-9]+}/{max_level:[0-9]+}/{max_cells:[0-9]+}", s2tools.GeoJSONToCellHandler)
	st := c.mustOpen("gtreap", c.TempDir(), nil, nil)
	fi := index.NewS2FlatIdx(st, roomy([]byte("F")), 9)
	ti := index.NewS2FlatTimeIdx(st, roomy([]byte("T")), 9)
	pi := index.NewS2PointIdx(st, roomy([]byte("P")))
	ov := overlap{quiet: c.Idx%4 != 0}
	nc := 6 + c.R.Intn(4)
	per := 150
	c.clients(nc, func(id int, r *rand.Rand) {
		cnt := map[string]int{}
		defer func() {
			for k, n := range cnt {
				c.Count(k, n)
			}
		}()
		for i := 0; i < per; i++ {
			if !ov.quiet {
				c.Tick()
			}
			ov.in()
			gd := gds[r.Intn(len(gds))]
			// what a call returned belongs to its caller
			own := func(cu s2.CellUnion) {
				for i := range cu {
					cu[i]++
				}
			}
			switch r.Intn(15) {
			case 0:
				cu, _ := gd.Cover(coverer)
				own(cu)
			case 1:
				cu, _ := gd.InteriorCover(coverer)
				own(cu)
			case 2:
				cu, _ := geodata.GeoDataToCoverCellUnion(gd, flat)
				own(cu)
			case 3:
				geodata.GeoDataToRect(gd)
			case 4:
				geodata.GeoDataToGeom(gd)
			case 5:
				geodata.ToGeoJSONFeatureCollection(gds[:5])
				geodata.PointsToGeoJSONPolyLines(gds[:1])
			case 6:
				geodata.PropertiesToJSONMap(gd.Properties)["own"] = i
				geodata.GeomToGeoData(mp, &geodata.GeoData{})
			case 7:
				f := feats[r.Intn(len(feats))]
				g := &geodata.GeoData{}
				geodata.GeoJSONFeatureToGeoData(f, g)
				geodata.PropertiesToGeoData(f, g)
				for k := range g.Properties {
					g.Properties[k] = nil
				}
				for k := range g.Geometry.Coordinates {
					g.Geometry.Coordinates[k] = 0
				}
			case 8:
				own(s2tools.CellUnionUnion(cu, cu2, cu))
				own(s2tools.CellUnionUnion(cu))
				own(s2tools.CellUnionMissing(cu, cu2))
				own(s2tools.CellUnionMissing(cu, nil))
				for _, l := range [][]string{s2tools.CellUnionToTokens(cu)} {
					l[0] = ""
				}
			case 9:
				s2tools.CellUnionToGeoJSON(cu)[0] = 0
			case 10:
				for _, p := range []*s2.CellID{
					s2tools.ParseCellID(cells[r.Intn(len(cells))].String()),
					s2tools.ParseCellID(cells[r.Intn(len(cells))].ToToken()),
					s2tools.ParseCellID(fmt.Sprint(uint64(cells[r.Intn(len(cells))]))),
				} {
					if p != nil {
						*p++
					}
				}
			case 14:
				for _, l := range []*s2.Loop{
					geodata.LoopFromCoordinates(gds[2].Geometry.Coordinates),
					geodata.LoopFromCoordinates(gds[3].Geometry.Coordinates),
					geodata.LoopFromCoordinatesAndCCW(gds[2+r.Intn(3)].Geometry.Coordinates, r.Intn(2) == 0),
				} {
					if l == nil {
						c.Fail("loop", "no loop for a valid ring")
					}
					if l.ContainsPoint(s2.PointFromLatLng(s2.LatLngFromDegrees(lat, lng))); r.Intn(2) == 0 {
						l.Invert()
					}
				}
			case 11:
				rec := httptest.NewRecorder()
				router.ServeHTTP(rec, httptest.NewRequest("GET", "/api/cells?cells="+strings.Join(s2tools.CellUnionToTokens(cu[1:]), ","), nil))
				if rec.Code != 200 {
					c.Fail("handler", "cell endpoint: status %d", rec.Code)
				}
				cnt["handler_requests"]++
			case 12:
				rec := httptest.NewRecorder()
				router.ServeHTTP(rec, httptest.NewRequest("POST", "/api/geojson/3/12/8", strings.NewReader(body(r.Intn(3)))))
				if rec.Code != 200 {
					c.Fail("handler", "geojson endpoint: status %d", rec.Code)
				}
				cnt["handler_requests"]++
			case 13:
				fi.Covering(gd)
				ti.Covering(gd)
				pi.PointKey(lat, lng, index.GeoID("x"))
				pi.GeoPointKey(gds[0], index.GeoID("x"))
				fi.GeoIndex(gd, index.GeoID("x"))
				ti.GeoTimeIndex(gd, time.Unix(int64(i), 0), index.GeoID("x"))
				pi.GeoPointIndex(gds[0], index.GeoID("y"))
			}
			cnt["helper_calls"]++
			ov.out()
		}
	})
	c.Count("overlapping_calls", int(ov.over))
	if ov.over > 0 || ov.quiet {
		c.Nontrivial(fmt.Sprint(c.Shard.Name, c.Idx, c.Seed, nc, per))
	}
	st.Close()
}
