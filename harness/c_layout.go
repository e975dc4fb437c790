package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"sort"
	"strings"

	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/akhenakh/oureadb/store"
	"github.com/boltdb/bolt"
	"github.com/dgraph-io/badger"
	"github.com/golang/protobuf/proto"
	spb "github.com/golang/protobuf/ptypes/struct"
	"github.com/syndtr/goleveldb/leveldb"
)

// ---------------------------------------------------------------- C45

func init() {
	register(&Check{
		ID:   "C45",
		Rule: "a store case executes random batches through a store, closes it and reads the files with the storage engine alone: keys and values must be those of the reference map, in Bolt in the configured bucket or in 'bleve'; then, the other way round, writes content with the engine alone and reads it through the store. An index case compares the whole content of a store after random indexing calls with the entries the documented layout gives (prefix, big-endian cell, for the time index big-endian distance of the instant from the largest one, id; no value), then fills another store with such entries by plain batches and asks random queries, which must answer as if the objects had been indexed. A data case encodes and decodes random geo data by hand, field by field, and compares with the generated protobuf code in both directions. Non-trivial: more than one entry or property.",
		Need: []string{"written by the store, read by the engine", "written by the engine, read by the store", "other buckets", "entries compared", "answers over plain entries", "answers with ids over plain entries", "encodings compared", "decodings compared", "merged by the store, read by the engine"},
		Shards: func(th bool) []Shard {
			return shardsPerBackend(allBackends, 2, 150, th, 20)
		},
		Run: runC45,
	})
}

func runC45(c *Case) {
	switch {
	case c.Idx%3 == 0 && backendOf(c.Shard.Backend).disk:
		c.filesC45()
	case c.Idx%3 == 1:
		c.wireC45()
	default:
		c.entriesC45()
	}
}

// engineRead reads the files of a store with the engine alone.
func (c *Case) engineRead(b, dir, bucket string) Model {
	m := Model{}
	path := storePath(b, dir)
	var err error
	switch b {
	case "boltdb":
		var db *bolt.DB
		if db, err = bolt.Open(path, 0600, nil); err == nil {
			err = db.View(func(tx *bolt.Tx) error {
				bu := tx.Bucket([]byte(bucket))
				if bu == nil {
					return fmt.Errorf("no bucket %q", bucket)
				}
				return bu.ForEach(func(k, v []byte) error {
					if v == nil {
						return fmt.Errorf("a bucket inside the bucket: %q", k)
					}
					m[string(k)] = string(v)
					return nil
				})
			})
			db.Close()
		}
	case "goleveldb":
		var db *leveldb.DB
		if db, err = leveldb.OpenFile(path, nil); err == nil {
			it := db.NewIterator(nil, nil)
			for it.Next() {
				m[string(it.Key())] = string(it.Value())
			}
			it.Release()
			if err = it.Error(); err == nil {
				err = db.Close()
			}
		}
	case "badger":
		var db *badger.DB
		if db, err = badger.Open(badger.DefaultOptions(path).WithLogger(nil)); err == nil {
			err = db.View(func(tx *badger.Txn) error {
				it := tx.NewIterator(badger.DefaultIteratorOptions)
				defer it.Close()
				for it.Rewind(); it.Valid(); it.Next() {
					v, err := it.Item().ValueCopy(nil)
					if err != nil {
						return err
					}
					if it.Item().ExpiresAt() != 0 || it.Item().UserMeta() != 0 {
						return fmt.Errorf("entry %q: expires at %d, user meta %d", it.Item().Key(), it.Item().ExpiresAt(), it.Item().UserMeta())
					}
					m[string(it.Item().Key())] = string(v)
				}
				return nil
			})
			db.Close()
		}
	}
	if err != nil {
		c.Fail("engine", "the files of the %s store, read with the engine alone: %v", b, err)
	}
	return m
}

// engineWrite makes the files of a store with the engine alone.
func (c *Case) engineWrite(b, dir, bucket string, m Model) {
	path := storePath(b, dir)
	var err error
	switch b {
	case "boltdb":
		var db *bolt.DB
		if db, err = bolt.Open(path, 0600, nil); err == nil {
			err = db.Update(func(tx *bolt.Tx) error {
				bu, err := tx.CreateBucketIfNotExists([]byte(bucket))
				if err != nil {
					return err
				}
				for _, k := range m.keys() {
					if err := bu.Put([]byte(k), []byte(m[k])); err != nil {
						return err
					}
				}
				return nil
			})
			db.Close()
		}
	case "goleveldb":
		var db *leveldb.DB
		if db, err = leveldb.OpenFile(path, nil); err == nil {
			for _, k := range m.keys() {
				if err == nil {
					err = db.Put([]byte(k), []byte(m[k]), nil)
				}
			}
			db.Close()
		}
	case "badger":
		if err = os.MkdirAll(path, 0700); err != nil {
			break
		}
		var db *badger.DB
		if db, err = badger.Open(badger.DefaultOptions(path).WithLogger(nil)); err == nil {
			err = db.Update(func(tx *badger.Txn) error {
				for _, k := range m.keys() {
					if err := tx.Set([]byte(k), []byte(m[k])); err != nil {
						return err
					}
				}
				return nil
			})
			db.Close()
		}
	}
	if err != nil {
		c.Infra("writing with the engine %s: %v", b, err)
	}
}

func (c *Case) filesC45() {
	be := backendOf(c.Shard.Backend)
	g := newKeyGen(c.R, 4+c.R.Intn(30), be.emptyKey)
	mo := &foldOp{partial: c.R.Intn(3)}
	extra := cfgT{}
	for k, v := range c.someOptions(be.name) {
		extra[k] = v
	}
	bucket := "bleve"
	if be.name == "boltdb" && c.R.Intn(2) == 0 {
		bucket = []string{"b", "Bleve", "other bucket", "\x00"}[c.R.Intn(4)]
		extra["bucket"] = bucket
		c.Count("other buckets", 1)
	}
	dir := c.TempDir()
	m := Model{}
	s := c.mustOpen(be.name, dir, mo, extra)
	for i := 1 + c.R.Intn(5); i > 0; i-- {
		ops := genOps(c.R, g, 1+c.R.Intn(20), 30)
		if c.R.Intn(3) == 0 {
			ops = genMergeOps(c.R, g, 1+c.R.Intn(10))
			if len(mergedKeys(ops)) > 0 {
				c.Count("merged by the store, read by the engine", 1)
			}
		}
		c.Logf("batch %s", opsString(ops))
		if err := c.tryExec(s, ops); err != nil {
			c.Fail("exec", "executing a valid batch failed: %v", err)
		}
		applyMerges(m, mo, ops)
	}
	c.mustClose(s)
	if d := diffModel(m, c.engineRead(be.name, dir, bucket)); d != "" {
		c.Fail("files", "the files of the %s store (%v), read with the engine alone: %s", be.name, extra, d)
	}
	c.Eval(1)
	c.Count("written by the store, read by the engine", 1)

	dir = c.TempDir()
	m = Model{}
	m.apply(genOps(c.R, g, 1+c.R.Intn(40), 10))
	c.engineWrite(be.name, dir, bucket, m)
	s = c.mustOpen(be.name, dir, mo, extra)
	r := c.mustReader(s)
	c.verifyReader(r, m, g, fmt.Sprintf("files written with the engine %s alone, options %v", be.name, extra))
	r.Close()
	c.mustClose(s)
	c.Eval(1)
	c.Count("written by the engine, read by the store", 1)
	if len(m) > 1 {
		c.Nontrivial(fmt.Sprint("files", c.Shard.Name, c.Idx))
	}
}

func (c *Case) entriesC45() {
	b := c.Shard.Backend
	open := func() store.KVStore {
		dir := ""
		if backendOf(b).disk {
			dir = c.TempDir()
		}
		return c.mustOpen(b, dir, nil, nil)
	}
	w := newSameWorld(c.R.Int63())
	c.Logf("%v", w.specs)
	s := open()
	ins := w.over(s)
	want := Model{}
	for i, op := range w.ops {
		sp := w.specs[w.on[i]]
		c.Logf("%s: %s", sp, op.desc)
		if _, _, err := op.run(ins[w.on[i]]); err != nil {
			c.Fail("index", "%s: %s: %v", sp, op.desc, err)
		}
		for k := range c.keysOf(sp, op) {
			want[k] = ""
		}
	}
	got := c.content(s)
	c.Eval(1)
	c.Count("entries compared", len(want))
	if d := diffModel(want, got); d != "" {
		c.Fail("entries", "%v: after %d indexing calls the store does not hold the entries of the documented layout: %s", w.specs, len(w.ops), d)
	}
	// plain entries
	s2 := open()
	var ops []kvop
	for _, k := range want.keys() {
		ops = append(ops, kvop{opSet, []byte(k), []byte{}})
	}
	c.R.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	for len(ops) > 0 {
		n := 1 + c.R.Intn(len(ops))
		c.exec(s2, ops[:n])
		ops = ops[n:]
	}
	ins2 := w.over(s2)
	for i, qo := range w.qs {
		a, err := w.answer(i, ins[w.qon[i]])
		if err != nil {
			c.Fail("query", "%s: %v", qo.desc, err)
		}
		p, err := w.answer(i, ins2[w.qon[i]])
		if err != nil {
			c.Fail("query", "over plain entries: %s: %v", qo.desc, err)
		}
		c.Eval(1)
		if a != p {
			c.Fail("plain", "%s: %s answers [%s] over entries written by plain batches in the documented layout, [%s] over a store the same objects were indexed in", w.specs[w.qon[i]], qo.desc, trim(p, 600), trim(a, 600))
		}
		c.Count("answers over plain entries", 1)
		if a != "" {
			c.Count("answers with ids over plain entries", 1)
			c.Nontrivial(fmt.Sprint("entries", c.Shard.Name, c.Idx, i))
		}
		c.Tick()
	}
	c.mustClose(s)
	c.mustClose(s2)
	if c.Idx < 3 {
		c.Sample(fmt.Sprintf("%v: %d calls, %d entries", w.specs, len(w.ops), len(want)))
	}
}

// protobuf by hand

func wVarint(b []byte, x uint64) []byte {
	var t [10]byte
	return append(b, t[:binary.PutUvarint(t[:], x)]...)
}

func wBytes(b []byte, field int, v []byte) []byte {
	b = wVarint(b, uint64(field)<<3|2)
	b = wVarint(b, uint64(len(v)))
	return append(b, v...)
}

func wDouble(b []byte, x float64) []byte {
	var t [8]byte
	binary.LittleEndian.PutUint64(t[:], math.Float64bits(x))
	return append(b, t[:]...)
}

// encodeGeometry writes g; packed or one by one, fields in either order.
func encodeGeometry(g *geodata.Geometry, packed, backwards bool) []byte {
	typ := wVarint(wVarint(nil, 1<<3), uint64(map[geodata.Geometry_Type]int{geodata.Geometry_POINT: 0, geodata.Geometry_POLYGON: 1, geodata.Geometry_MULTIPOLYGON: 2, geodata.Geometry_LINESTRING: 3}[g.Type]))
	if g.Type == geodata.Geometry_POINT && packed {
		typ = nil
	}
	var parts []byte
	for _, p := range g.Geometries {
		parts = wBytes(parts, 2, encodeGeometry(p, packed, backwards))
	}
	var co []byte
	if packed {
		for _, x := range g.Coordinates {
			co = wDouble(co, x)
		}
		if len(co) > 0 {
			co = wBytes(nil, 3, co)
		}
	} else {
		for _, x := range g.Coordinates {
			co = wDouble(wVarint(co, 3<<3|1), x)
		}
	}
	if backwards {
		return append(append(co, parts...), typ...)
	}
	return append(append(typ, parts...), co...)
}

func encodeGeoData(gd *geodata.GeoData, packed, backwards bool) []byte {
	var geo []byte
	if gd.Geometry != nil {
		geo = wBytes(nil, 1, encodeGeometry(gd.Geometry, packed, backwards))
	}
	var keys []string
	for k := range gd.Properties {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var props []byte
	for _, k := range keys {
		var v []byte
		switch x := gd.Properties[k].Kind.(type) {
		case *spb.Value_NumberValue:
			v = wDouble(wVarint(nil, 2<<3|1), x.NumberValue)
		case *spb.Value_StringValue:
			v = wBytes(nil, 3, []byte(x.StringValue))
		case *spb.Value_BoolValue:
			v = wVarint(wVarint(nil, 4<<3), uint64(b2i(x.BoolValue)))
		}
		props = wBytes(props, 2, wBytes(wBytes(nil, 1, []byte(k)), 2, v))
	}
	if backwards {
		return append(props, geo...)
	}
	return append(geo, props...)
}

// wireFields splits a message.
func wireFields(b []byte, f func(field int, typ int, x uint64, v []byte) error) error {
	for len(b) > 0 {
		tag, n := binary.Uvarint(b)
		if n <= 0 {
			return fmt.Errorf("bad tag")
		}
		b = b[n:]
		var x uint64
		var v []byte
		switch tag & 7 {
		case 0:
			x, n = binary.Uvarint(b)
			if n <= 0 {
				return fmt.Errorf("bad varint")
			}
		case 1:
			if n = 8; len(b) < n {
				return fmt.Errorf("short")
			}
			x = binary.LittleEndian.Uint64(b)
		case 2:
			l, k := binary.Uvarint(b)
			if k <= 0 || uint64(len(b)-k) < l {
				return fmt.Errorf("short")
			}
			n = k + int(l)
			v = b[k:n]
		default:
			return fmt.Errorf("wire type %d", tag&7)
		}
		if err := f(int(tag>>3), int(tag&7), x, v); err != nil {
			return err
		}
		b = b[n:]
	}
	return nil
}

func decodeGeometry(b []byte) (*geodata.Geometry, error) {
	g := &geodata.Geometry{}
	err := wireFields(b, func(field, typ int, x uint64, v []byte) error {
		switch {
		case field == 1 && typ == 0 && x < 4:
			g.Type = []geodata.Geometry_Type{geodata.Geometry_POINT, geodata.Geometry_POLYGON, geodata.Geometry_MULTIPOLYGON, geodata.Geometry_LINESTRING}[x]
		case field == 2 && typ == 2:
			p, err := decodeGeometry(v)
			g.Geometries = append(g.Geometries, p)
			return err
		case field == 3 && typ == 1:
			g.Coordinates = append(g.Coordinates, math.Float64frombits(x))
		case field == 3 && typ == 2 && len(v)%8 == 0:
			for i := 0; i < len(v); i += 8 {
				g.Coordinates = append(g.Coordinates, math.Float64frombits(binary.LittleEndian.Uint64(v[i:])))
			}
		default:
			return fmt.Errorf("geometry has a field %d of wire type %d", field, typ)
		}
		return nil
	})
	return g, err
}

func decodeGeoData(b []byte) (*geodata.GeoData, error) {
	gd := &geodata.GeoData{}
	err := wireFields(b, func(field, typ int, x uint64, v []byte) (err error) {
		switch {
		case field == 1 && typ == 2:
			gd.Geometry, err = decodeGeometry(v)
			return err
		case field == 2 && typ == 2:
			k := ""
			val := &spb.Value{}
			err := wireFields(v, func(field, typ int, x uint64, v []byte) error {
				switch {
				case field == 1 && typ == 2:
					k = string(v)
				case field == 2 && typ == 2:
					return wireFields(v, func(field, typ int, x uint64, v []byte) error {
						switch {
						case field == 2 && typ == 1:
							val.Kind = &spb.Value_NumberValue{NumberValue: math.Float64frombits(x)}
						case field == 3 && typ == 2:
							val.Kind = &spb.Value_StringValue{StringValue: string(v)}
						case field == 4 && typ == 0:
							val.Kind = &spb.Value_BoolValue{BoolValue: x != 0}
						default:
							return fmt.Errorf("a value has a field %d of wire type %d", field, typ)
						}
						return nil
					})
				default:
					return fmt.Errorf("a property has a field %d of wire type %d", field, typ)
				}
				return nil
			})
			if gd.Properties == nil {
				gd.Properties = map[string]*spb.Value{}
			}
			gd.Properties[k] = val
			return err
		}
		return fmt.Errorf("geo data has a field %d of wire type %d", field, typ)
	})
	return gd, err
}

func (c *Case) wireC45() {
	r := c.R
	for n := 0; n < 20; n++ {
		gd := &geodata.GeoData{Geometry: genShape(r, hotSpot(r), math.Exp(-r.Float64()*12)).gd.Geometry}
		for i := r.Intn(5); i > 0; i-- {
			if gd.Properties == nil {
				gd.Properties = map[string]*spb.Value{}
			}
			k := []string{"", "a", "name", "é\x00", strings.Repeat("k", r.Intn(300))}[r.Intn(5)]
			v := &spb.Value{}
			switch r.Intn(3) {
			case 0:
				v.Kind = &spb.Value_NumberValue{NumberValue: genNumber(r)}
			case 1:
				v.Kind = &spb.Value_StringValue{StringValue: []string{"", "x", "世界", strings.Repeat("s", r.Intn(3000))}[r.Intn(4)]}
			case 2:
				v.Kind = &spb.Value_BoolValue{BoolValue: r.Intn(2) == 0}
			}
			gd.Properties[k] = v
		}
		packed, backwards := r.Intn(4) > 0, r.Intn(4) == 0
		by := encodeGeoData(gd, packed, backwards)
		back := &geodata.GeoData{}
		if err := proto.Unmarshal(by, back); err != nil {
			c.Fail("decode", "bytes of the documented encoding of %v are refused: %v", gd, err)
		}
		c.Eval(1)
		c.Count("decodings compared", 1)
		if !proto.Equal(gd, back) {
			c.Fail("decode", "bytes of the documented encoding of %s decode to %s", trim(gd.String(), 1000), trim(back.String(), 1000))
		}
		by, err := proto.Marshal(gd)
		if err != nil {
			c.Fail("encode", "%v: %v", gd, err)
		}
		hand, err := decodeGeoData(by)
		if err != nil {
			c.Fail("encode", "the encoding of %s, read by hand: %v", trim(gd.String(), 1000), err)
		}
		c.Eval(1)
		c.Count("encodings compared", 1)
		if !proto.Equal(gd, hand) {
			c.Fail("encode", "the encoding of %s, read by hand, is %s", trim(gd.String(), 1000), trim(hand.String(), 1000))
		}
		if len(gd.Properties) > 1 {
			c.Nontrivial(string(by))
		}
	}
}
