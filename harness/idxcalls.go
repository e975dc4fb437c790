package main

import (
	"fmt"
	"time"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/akhenakh/oureadb/store"
	"github.com/golang/geo/s2"
)

func pointGD(lat, lng float64) *geodata.GeoData {
	return &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{lng, lat}}}
}

func polyGD(coords ...float64) *geodata.GeoData {
	return &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POLYGON, Coordinates: coords}}
}

func lineGD(coords ...float64) *geodata.GeoData {
	return &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_LINESTRING, Coordinates: coords}}
}

func multiGD(parts ...[]float64) *geodata.GeoData {
	g := &geodata.Geometry{Type: geodata.Geometry_MULTIPOLYGON}
	for _, p := range parts {
		g.Geometries = append(g.Geometries, &geodata.Geometry{Type: geodata.Geometry_POLYGON, Coordinates: p})
	}
	return &geodata.GeoData{Geometry: g}
}

// indexCalls are all the query and indexing calls of the three indexes.
func indexCalls(s store.KVStore, lat, lng float64, level int) []idxCall {
	ps := cutFrom([]byte("F"), []byte("P"), []byte("T"))
	fi := index.NewS2FlatIdx(s, ps[0], level)
	pi := index.NewS2PointIdx(s, ps[1])
	ti := index.NewS2FlatTimeIdx(s, ps[2], level)
	ll := s2.LatLngFromDegrees(lat, lng)
	leaf := s2.CellIDFromLatLng(ll)
	cell := leaf.Parent(level)
	wrong := leaf
	if level > 0 {
		wrong = leaf.Parent(level - 1)
	}
	t0 := time.Unix(1500000000, 0)
	size := s2.AvgEdgeMetric.Value(level) * 6371010 // edge of an index cell
	gd := pointGD(lat, lng)
	d := size / 111000 / 2
	if d > 10 {
		d = 10
	}
	if lat > 70 {
		lat = 70
	}
	if lat < -70 {
		lat = -70
	}
	poly := polyGD(lng, lat, lng+d, lat, lng+d, lat+d, lng, lat)
	line := lineGD(lng, lat, lng+d, lat+d)
	id := index.GeoID("id")
	bad := &geodata.GeoData{}
	return []idxCall{
		{name: "flat index point", f: func() error { return fi.GeoIndex(gd, id) }},
		{name: "flat index polygon", f: func() error { return fi.GeoIndex(poly, id) }},
		{name: "flat index line", f: func() error { return fi.GeoIndex(line, id) }},
		{name: "flat index bad", mayFail: true, f: func() error {
			if err := fi.GeoIndex(bad, id); err == nil {
				return fmt.Errorf("accepted")
			} else {
				return err
			}
		}},
		{name: "flat cell", f: func() error { _, err := fi.GeoIdsAtCell(cell); return err }},
		{name: "flat cells", f: func() error { _, err := fi.GeoIdsAtCells([]s2.CellID{cell, cell.Next(), cell}); return err }},
		{name: "flat bad cells", mayFail: true, f: func() error {
			if _, err := fi.GeoIdsAtCells([]s2.CellID{wrong, cell, wrong.Next(), wrong, cell}); err == nil {
				return fmt.Errorf("accepted")
			} else {
				return err
			}
		}},
		{name: "time bad cells", mayFail: true, f: func() error {
			_, err := ti.GeoTimeIdsAtCells([]s2.CellID{wrong, cell, wrong.Next(), wrong, cell}, index.MaxGeoTime, index.MinGeoTime)
			return err
		}},
		{name: "point many cells", f: func() error {
			_, err := pi.GeoIdsAtCells([]s2.CellID{cell, leaf, leaf.NextWrap(), leaf.PrevWrap(), wrong, cell})
			return err
		}},
		{name: "flat radius", f: func() error { _, err := fi.GeoIdsRadiusQuery(lat, lng, size); return err }},
		{name: "point index", f: func() error { _, err := pi.PointIndex(lat, lng, id); return err }},
		{name: "point index gd", f: func() error { _, err := pi.GeoPointIndex(gd, id); return err }},
		{name: "point index bad", mayFail: true, f: func() error { _, err := pi.GeoPointIndex(poly, id); return err }},
		{name: "point cell", f: func() error { _, err := pi.GeoIdsAtCell(cell); return err }},
		{name: "point leaf", f: func() error { _, err := pi.GeoIdsAtCell(leaf); return err }},
		{name: "point cells", f: func() error { _, err := pi.GeoIdsAtCells([]s2.CellID{cell, leaf}); return err }},
		{name: "point radius", f: func() error { _, err := pi.GeoIdsRadiusQuery(lat, lng, 1000); return err }},
		{name: "point rect", f: func() error { _, err := pi.GeoIdsRectQuery(lat+0.1, lng+0.1, lat-0.1, lng-0.1); return err }},
		{name: "time index", f: func() error { return ti.GeoTimeIndex(gd, t0, id) }},
		{name: "time index polygon", f: func() error { return ti.GeoTimeIndex(poly, t0, id) }},
		{name: "time index bad", mayFail: true, f: func() error { return ti.GeoTimeIndex(bad, t0, id) }},
		{name: "time cell", f: func() error { _, err := ti.GeoTimeIdsAtCell(cell, index.MaxGeoTime, index.MinGeoTime); return err }},
		{name: "time cells", f: func() error {
			_, err := ti.GeoTimeIdsAtCells([]s2.CellID{cell, cell.Next()}, index.MaxGeoTime, index.MinGeoTime)
			return err
		}},
		{name: "time radius", f: func() error {
			_, err := ti.GeoTimeIdsRadiusQuery(index.MaxGeoTime, index.MinGeoTime, lat, lng, size)
			return err
		}},
		{name: "time rect", f: func() error {
			_, err := ti.GeoTimeIdsRectQuery(index.MaxGeoTime, index.MinGeoTime, lat+d, lng+d, lat, lng)
			return err
		}},
	}
}
