#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

BACK=["store/gtreap","store/boltdb","store/goleveldb","store/badger"]
def bf(*names): return [f"{b}/{n}" for b in BACK for n in names if os.path.exists(f"/repo/{b}/{n}")]

p("C01","Every store backend is an ordered map under any sequence of batches",
"On the in-memory, Bolt, LevelDB and Badger stores, after any sequence of executed batches a newly opened reader's Get, MultiGet (one result per requested key, in request order) and full scan report exactly the content obtained by applying each batch's sets and deletes in the order they were added, so the last operation on a key wins. A key stored with an empty value is present and reads as a non-nil empty value; an absent or deleted key reads as nil. The same history gives the same content on every backend, and on the on-disk backends closing and reopening the store does not change it.",
["inputs","histories","configurations"],
"every backend, every sequence of batches over arbitrary non-empty binary keys and arbitrary values, every batch size the backend accepts",
"The shared CRUD test writes one fixed batch of ten short ASCII keys and reads three of them back; MultiGet, empty values, binary keys, large batches, overwrites across batches and cross-backend agreement are never exercised.",
["store/kvstore.go","store/batch.go","store/multiget.go"]+bf("reader.go","writer.go","store.go"),
[("EmulatedBatch op list replayed in order","store/batch.go"),("ExecuteBatch of each backend","store/*/writer.go"),("Get/MultiGet","store/*/reader.go, store/multiget.go")],
[("content","key to value map of the store","backend database / treap root")],
["KVReader.Get/MultiGet/RangeIterator results against an executable map model"])

p("C02","Iterators visit exactly the matching entries, in order, and Seek stays inside",
"On every backend a prefix iterator visits exactly the entries whose key has the prefix, and a range iterator exactly the entries with start <= key < end (nil bound: unbounded), each once, in ascending byte order, with its value, and Current, Key, Value and Valid agree. Seek positions on the first matching entry at or after the target, or on the first matching entry if the target precedes the bounds, from any earlier position including exhaustion. An exhausted iterator, or one sought past its bounds, is invalid and stays invalid however often Next is called.",
["inputs","histories"],
"every store content, prefix, start and end bound (including 0xff bytes, keys extending other keys, bounds not present in the store), and every sequence of Next and Seek calls",
"The iterator tests use two fixed sets of eight ASCII keys, one scripted Seek each, and never step an exhausted iterator.",
["store/kvstore.go"]+bf("iterator.go","prefix_iterator.go","range_iterator.go","reader.go"),
[("updateValid / Seek clamping","store/boltdb/iterator.go"),("Seek/restart/Current","store/gtreap/iterator.go"),("PrefixIterator, RangeIterator","store/badger/*_iterator.go"),("snapshot.NewIterator with BytesPrefix/Range","store/goleveldb/reader.go")],
None,["KVIterator.Current/Key/Value/Valid after every step against a sorted-slice cursor model"])

p("C03","A reader is a frozen snapshot of the store",
"Everything obtained through one reader (Get, MultiGet, prefix and range iterators opened at any time while the reader is open) reflects exactly the content the store had when that reader was opened, whatever batches of sets, deletes and merges are executed afterwards and however iterators are interleaved with them. A reader opened after a batch was acknowledged sees that batch. Several readers opened at different times each keep their own content.",
["histories","schedules","inputs"],
"every backend, every interleaving of executed batches with reads through several simultaneously open readers and iterators",
"The isolation test opens one reader, adds one key, and counts entries; overwrites, deletes, merges, half-consumed iterators and several generations of readers are not covered.",
["store/kvstore.go"]+bf("reader.go","store.go","iterator.go"),
[("treap root captured in Reader","store/gtreap/store.go"),("read transaction","store/boltdb/store.go"),("leveldb snapshot","store/goleveldb/store.go"),("read-only transaction","store/badger/store.go")],
[("snapshot","content at Reader() time","Reader structs")],["results through old readers against the model state recorded at open time"])

p("C04","A batch either takes effect completely and reports success, or not at all",
"When executing a batch returns nil all of its operations have taken effect; when it returns an error none of them has, even if the failure comes in the middle (a merge operator refusing or panicking, an invalid key, a batch larger than the backend accepts, a batch of another store kind, a full disk, a commit conflict). After a failed batch the store remains usable (after a full disk, at the latest once reopened): later batches and readers work normally and do not block.",
["inputs","histories","fault_sequences"],
"every batch, every position of a failing operation in it, every failing I/O call during its execution (for I/O faults the batch is wholly present or wholly absent after reopening, and present if it was acknowledged)",
"No test executes a batch that fails.",
["store/batch.go"]+bf("writer.go"),
[("single transaction with commit or rollback","store/boltdb/writer.go"),("transaction commit/discard","store/badger/writer.go"),("single leveldb batch write","store/goleveldb/writer.go"),("root swap under mutex","store/gtreap/writer.go")],
None,["store content before and after a failing ExecuteBatch","write/fsync fault injection at system-call level"])

p("C05","Concurrent batches and snapshots are linearizable",
"For every backend, when many goroutines execute batches and open readers concurrently there is a single order of all of these operations, consistent with real time, in which each batch applies all its sets and deletes at one instant and each reader sees exactly the content at the instant it was opened. In particular no reader ever sees part of a batch and no acknowledged batch is lost, reordered before an earlier acknowledged one, or undone.",
["schedules","histories"],
"every interleaving of concurrent writers (multi-key batches over shared keys) and readers on each backend",
"All existing tests are single-goroutine.",
["store/kvstore.go"]+bf("writer.go","reader.go","store.go"),
[("store mutex around root swap and root read","store/gtreap"),("bolt single-writer transaction","store/boltdb/writer.go"),("leveldb batch write and snapshot","store/goleveldb"),("badger transaction","store/badger")],
None,["client-side call/return histories checked with a linearizability checker"])

p("C06","Merges fold operands in order over the current value and are never lost",
"On every backend, executing a batch that merges a key stores what the configured merge operator computes from the key's current value (nil if the key is absent) and the operands in the order they were merged, whether or not adjacent operands could be partially merged first. Merges on different keys in a batch, and sets and deletes of other keys in the same batch, do not affect each other. When merge batches on the same key run concurrently, every acknowledged merge is reflected exactly once in the final value.",
["inputs","histories","schedules"],
"every sequence of merge batches, associative or not, with a partial merge that succeeds or declines, over present, absent and empty values; every interleaving of concurrent merge batches (and of merges with sets of the same key)",
"The only merge test adds 1 twice to one absent key in one batch from one goroutine with a commutative operator that always partially merges.",
["store/merge.go","store/batch.go","store/goleveldb/batch.go"]+bf("writer.go"),
[("EmulatedMerge","store/merge.go"),("FullMerge over existing value in ExecuteBatch","store/*/writer.go")],
[("pending operands per key","operands queued in a batch","EmulatedMerge.Merges")],["values stored and arguments received by a recording merge operator"])

p("C07","Byte slices are never shared between caller and store",
"The caller may overwrite key and value slices as soon as Set, Delete or Merge returns, and may overwrite anything returned by Get or MultiGet at any time, without any effect on the batch, on what is stored, or on what any reader returns. Conversely bytes returned by Get and MultiGet never change afterwards, whatever is written or closed, including closing the reader and the store. This holds on every backend.",
["inputs","histories"],
"every key, value and merge operand, every time at which the caller mutates its own or a returned slice, relative to further batch operations, execution, reads and closing",
"The ownership tests mutate one returned value and reuse one five-byte buffer for Set/Delete (and check keys where they mean values); Merge operands, MultiGet and lifetime after Close are not covered.",
["store/batch.go","store/merge.go","store/goleveldb/batch.go"]+bf("reader.go"),
[("copies in EmulatedBatch and EmulatedMerge","store/batch.go, store/merge.go"),("copies in Get","store/*/reader.go")],
None,["stored content and returned slices after buffer scribbling"])

p("C08","A batch does nothing until executed, and Reset empties it completely",
"Operations added to a batch are invisible until the batch is executed, and a batch that is never executed, or is closed, leaves no trace. After Reset a batch behaves as a new empty one: executing it applies only what was added since, with no set, delete or merge left over, on every backend. A batch may be executed through any writer of the store that created it, and batches obtained with preallocation options behave the same as plain ones and come with a byte array of the requested size.",
["inputs","histories"],
"every sequence of adding sets, deletes and merges, executing, resetting, refilling and closing, with any number of simultaneously open batches and writers",
"One test resets a batch once after sets and a delete; merges, unexecuted batches, several open batches and NewBatchEx are never tested.",
["store/batch.go","store/merge.go","store/goleveldb/batch.go"]+bf("writer.go"),
[("Reset","store/batch.go, store/goleveldb/batch.go"),("NewBatchEx","store/*/writer.go")],None,["store content after each lifecycle step against a model"])

p("C09","Acknowledged batches survive the death of the process",
"On the Bolt, LevelDB and Badger stores with default options, once executing a batch has returned success its effect is present after the process is killed at any later moment (also in the middle of a write, of which any first part may have reached the file), or the store is closed, and the store is reopened. After reopening, the content is exactly the result of some prefix of the sequence of issued batches that includes every acknowledged one; no batch is partly present. Once its first opening has completed, the store can always be reopened and accepts new batches.",
["crash_points","histories"],
"every moment at which the process dies, every history of batches, repeated over several kill/reopen generations",
"Tests always close the store cleanly and delete it; none reopens one.",
["store/boltdb/store.go","store/boltdb/writer.go","store/goleveldb/store.go","store/goleveldb/writer.go","store/badger/store.go","store/badger/writer.go"],
[("bolt commit","store/boltdb/writer.go"),("leveldb journal","store/goleveldb/writer.go"),("badger value log and options","store/badger/store.go")],None,["content after SIGKILL and reopen against the acknowledged prefix"])

p("C10","Acknowledged batches are on stable storage before success is reported",
"On the Bolt, LevelDB and Badger stores with default options, at the moment executing a batch returns success everything needed to recover it has been forced to stable storage: a machine crash that discards every file write not yet synced, or keeps only a first part of each file's unsynced writes, loses no acknowledged batch. Once its first opening has completed the store reopens from such an image, at whatever moment the machine crashed, and no batch is partly present in it.",
["crash_points","histories"],
"every point of the system-call trace of any history of batches at which the machine may crash, dropping all file data not yet synced",
"No test looks at what has been synced; page-cache contents hide a missing sync from any test that only reopens files.",
["store/boltdb/store.go","store/goleveldb/store.go","store/badger/store.go"],
[("NoSync defaults to false","store/boltdb/store.go"),("Sync write option","store/goleveldb/store.go"),("badger SyncWrites default","store/badger/store.go")],None,["system-call trace of writes and syncs, replayed into crash images that are reopened"])

p("C11","Compaction removes only zero-count dictionary entries and changes nothing else",
"On the Bolt and LevelDB stores, compacting (with any positive batch size) terminates, removes every entry whose key starts with 'd' and whose value is the single byte zero, and leaves every other entry, including other keys starting with 'd' and keys with empty values, exactly as it was. Content read through readers opened before the compaction does not change, and the store remains usable and unchanged after reopening. This also holds while other clients execute batches: a batch acknowledged during a compaction keeps all of its entries but those compaction is to remove, whichever was first.",
["inputs","histories","schedules"],
"every store content, every positive batch size and every schedule of batches meanwhile",
"Compaction is not tested at all.",
["store/boltdb/store.go","store/goleveldb/store.go"],[("Compact, CompactWithBatchSize","store/boltdb/store.go, store/goleveldb/store.go")],None,["full content before and after compaction"])

p("C12","Store options mean what they say and never change stored content",
"A missing, non-string or unusable path option is refused; Bolt buckets in one file hold independent content, and LevelDB's create_if_missing=false refuses a missing database while error_if_exists=true refuses an existing one. A Bolt or LevelDB store opened read_only serves all reads, rejects every write with an error and leaves the stored data as it was; a refused opening leaves the files usable. Every other option (fill percent, nosync, write buffer, block size, restart interval, cache capacity, bloom filter) affects cost only: with any combination of values the observable content is the same as with the defaults.",
["configurations","histories"],
"every combination of option values, for every history of batches and reopens with differing options",
"One test checks that four Bolt options are copied into struct fields; LevelDB option handling has no test and no test observes behaviour under an option.",
["store/boltdb/store.go","store/goleveldb/config.go","store/goleveldb/store.go","store/badger/store.go","store/gtreap/store.go"],
[("New / applyConfig","store/*/store.go, store/goleveldb/config.go")],None,["content and errors under each configuration against the model"])

p("C13","A closed store answers with errors, never with a crash, a hang or false success",
"After Bolt, LevelDB or Badger stores are closed, opening a reader or executing a batch returns a non-nil error (a batch is not reported as applied), and queries and indexing calls of any index over the closed store return an error; none of them panics or blocks. Closing is possible whenever no reader is open, including right after failed operations and index queries.",
["histories","fault_sequences"],
"every history before the close, every operation after it, on each on-disk backend and each index type",
"No test touches a store after Close.",
["store/boltdb/store.go","store/goleveldb/store.go","store/badger/store.go","store/badger/writer.go","index/s2idx.go","index/s2pointidx.go","index/s2timeidx.go"],
[("Reader()/Writer()","store/*/store.go"),("error check before use of the reader","index/*.go")],None,["errors returned by every operation after Close"])

p("C14","Stores and indexes are free of data races under concurrent use",
"Any number of goroutines may concurrently use one store and the indexes over it, each with its own readers, iterators, writers and batches, together with compaction and statistics calls, without any data race; and the conversion, covering and cell helper functions and the HTTP handlers may be called concurrently on shared inputs that nobody modifies.",
["schedules"],
"every interleaving of concurrent indexing, batch execution, merging, reads, iteration and queries on every backend, and of concurrent calls of the helper functions on shared inputs",
"No existing test starts a goroutine, and the suite is not run under the race detector.",
["store/gtreap/store.go","store/gtreap/iterator.go","index/s2idx.go","index/s2pointidx.go","index/s2timeidx.go","index/geodata/tools.go","s2tools/handlers.go"]+bf("writer.go","reader.go"),
[("store mutex","store/gtreap/store.go"),("iterator producer goroutine and channels","store/gtreap/iterator.go"),("transactions/snapshots","store/*")],None,["Go race detector reports over a stress workload"])

p("C15","The null store accepts everything and stores nothing",
"The null store opens with any options, accepts every batch without error, and afterwards every Get yields nil, MultiGet yields one nil per requested key, and every iterator is and stays invalid wherever it is sought. Indexes over it accept and answer every call with no results and no error.",
["inputs","histories"],"every history of operations on the store and on indexes over it",
"One test executes one batch and looks at one iterator once.",
["store/null/null.go"],[("all methods","store/null/null.go")],None,["results of every operation"])

p("C16","Flat index cell lookups return exactly the ids indexed there",
"After any sequence of flat-index calls, a lookup at a cell of the index level returns exactly the ids whose object's covering contains that cell, each once, byte for byte as given; a lookup over several cells returns the union of the single lookups with each id once; both on every backend. Indexing the same object under the same id again changes nothing. Ids may be any non-empty bytes, including ids that extend one another or look like keys.",
["inputs","histories","configurations"],
"every level 0-30, prefix, set of point, line, polygon and multipolygon objects, ids and lookups, on each backend",
"The tests index one object and count one result, on the in-memory backend only.",
["index/s2idx.go","index/tools.go"]+bf("iterator.go","prefix_iterator.go"),
[("GeoIndex key layout prefix+cell+id","index/s2idx.go"),("GeoIdsAtCell prefix scan","index/s2idx.go"),("GeoIdsAtCells de-duplication","index/s2idx.go")],
[("index keys","prefix + cell id + object id","store")],["ids returned against a map from cell to id set"])

p("C17","An indexed object is found from every cell that contains a point of it",
"After a point, line string, polygon or multipolygon has been indexed in the flat or the time index without error, looking up the index-level cell containing any point of the object (any vertex, any point along an edge, any interior point) returns its id. The covering used consists only of cells of exactly the index level that lie at or next to the object.",
["inputs"],
"every geometry on the sphere smaller than a hemisphere (either ring orientation, any start vertex, concave or convex, crossing the antimeridian or near a pole or a cube face boundary) and every level",
"The tests compare the number of covering cells for one point, one convex polygon and one short line.",
["index/s2idx.go","index/s2timeidx.go","index/geodata/tools.go","index/geodata/loop.go"],
[("geoDataCoverCellUnion, coverPolygon","index/geodata/tools.go"),("LoopFromCoordinatesAndCCW","index/geodata/loop.go"),("Covering","index/s2idx.go, index/s2timeidx.go")],None,["lookup results at cells of independently sampled points of the geometry"])

p("C18","Flat radius queries miss nothing within the radius and stay near it",
"A flat-index radius query returns, once each, every id whose object has a point within the given number of metres of the centre, and returns no id whose object lies further from the centre than the radius plus the diagonal of two index-level cells (with the small enlargement of large radii caused by the area approximation). This holds on every backend and anywhere on the globe.",
["inputs","histories"],
"every centre, radius, level (bounded by the number of cells covered) and set of indexed objects",
"One test queries one point well inside a 5 km radius.",
["index/s2idx.go","index/tools.go"],[("GeoIdsRadiusQuery","index/s2idx.go"),("s2RadialAreaMeters","index/tools.go")],None,["ids returned against great-circle distances computed independently"])

p("C19","Point index cell lookups are exact at every level",
"After any sequence of point-index calls, a lookup at any cell of any level 0 to 30 returns exactly the (point, id) entries whose leaf cell lies in that cell, byte for byte, each once per distinct leaf cell and id; a lookup over several cells returns the union with each id once. The key returned when a point is indexed equals the key computed for it without indexing, and is prefix, leaf cell and id.",
["inputs","histories","configurations"],
"every set of points (including first and last leaf cell of the queried cell, face and cube corners, poles, antimeridian), ids, prefixes, cells and levels, on each backend",
"One test looks one point up at level 10, far from any cell boundary, on the in-memory backend.",
["index/s2pointidx.go","index/tools.go"],[("PointKey, PointIndex, GeoPointIndex","index/s2pointidx.go"),("GeoIdsAtCell range scan","index/s2pointidx.go")],None,["ids returned against cell containment computed on leaf cells"])

p("C20","Point radius queries return exactly the points within the radius",
"A point-index radius query returns, exactly once each, the entries whose indexed leaf-cell position lies within the given number of metres of the centre and no others, up to the leaf cell size (centimetres) and the slight enlargement of large radii caused by the area approximation. This holds on every backend, for every centre including poles and antimeridian, and for every radius from centimetres to thousands of kilometres.",
["inputs","histories"],
"every set of points, centre and radius",
"One test queries one point well inside a 5 km radius.",
["index/s2pointidx.go","index/tools.go"],[("GeoIdsRadiusQuery in-place filter","index/s2pointidx.go"),("s2RadialAreaMeters","index/tools.go")],None,["ids returned against great-circle distances computed independently"])

p("C21","Point rectangle queries return exactly the points inside the rectangle",
"A point-index rectangle query returns, exactly once each, the entries whose indexed position lies in the latitude range between the corners and in the longitude range going east from the bottom-left to the upper-right corner, and no others, up to the leaf cell size. This includes rectangles crossing the antimeridian, spanning more than 180 degrees or the whole world, touching poles, and degenerate ones, on every backend.",
["inputs","histories"],
"every set of points and every rectangle with bottom-left latitude not above the upper-right latitude",
"One test queries one point inside one small rectangle.",
["index/s2pointidx.go"],[("GeoIdsRectQuery","index/s2pointidx.go")],None,["ids returned against interval arithmetic on degrees"])

p("C22","Time index lookups return exactly the ids in the time window, newest first",
"A time-index lookup at a cell of the index level with window (from, to), from being the later instant, returns exactly the ids indexed in that cell with to < t <= from, once per distinct indexed instant and id, ordered from newest to oldest; a lookup over several cells returns the union with each id once. This holds to the nanosecond for every instant representable as nanoseconds around the Unix epoch, including before 1970, and independently of time zone, on every backend.",
["inputs","histories","configurations"],
"every set of indexed (object, instant, id) entries, cells, levels and windows, including boundaries, empty and inverted windows",
"One test queries one entry with one window that holds it and one that does not.",
["index/s2timeidx.go","index/tools.go"],[("timePrefixKey reverse timestamp","index/s2timeidx.go"),("GeoTimeIdsAtCell range scan","index/s2timeidx.go")],None,["ids and their order against a model of entries"])

p("C23","Time index area queries combine area and time window without misses",
"A time-index radius or rectangle query returns, once each, every id that was indexed at an instant inside the window and whose object has a point inside the area, and returns no id indexed only outside the window or whose object lies further from the area than the diagonal of two index-level cells. This holds on every backend, including areas at poles and across the antimeridian and rectangles wider than 180 degrees.",
["inputs","histories"],
"every set of entries, window, area and level (bounded by the number of cells covered)",
"One test queries one entry well inside one circle; the rectangle query is never called.",
["index/s2timeidx.go","index/tools.go"],[("GeoTimeIdsRadiusQuery, GeoTimeIdsRectQuery","index/s2timeidx.go")],None,["ids returned against independently computed distances and windows"])

p("C24","Indexes with different prefixes and other data in one store never interfere",
"Several flat, point and time indexes and unrelated keys may share one store: as long as no index prefix is a prefix of another one or of an unrelated key, every query of an index returns exactly what it would return if that index had the store to itself, and indexing writes only keys starting with that index's prefix. Prefixes may be any bytes, including 0x00 and 0xff bytes and, for a single index alone in the store, the empty prefix.",
["inputs","histories","configurations"],
"every set of prefix-free prefixes and kinds of index, and every interleaving of indexing calls and foreign writes",
"Every test uses one index alone in its store.",
["index/s2idx.go","index/s2pointidx.go","index/s2timeidx.go"],[("key construction","index/*.go")],None,["query results of sharing indexes against isolated twins; key set of the store"])

p("C25","Returned ids and keys belong to the caller and never change",
"Ids and keys returned by any index query or indexing call keep their value whatever happens next: further results of the same query, later queries, writes, compaction, closing the reader's resources, and closing the store. The caller may overwrite or append to a returned id or key, and may reuse the id slice it passed in, without affecting other results, stored data or later queries. This holds on every backend.",
["inputs","histories"],
"every query and indexing function on every backend, every later operation",
"The tests only check the number of ids returned and use only the in-memory backend, where nothing is reused.",
["index/s2idx.go","index/s2pointidx.go","index/s2timeidx.go"],[("copy of the iterator key before slicing the id","index/*.go"),("PointKey copies","index/s2pointidx.go")],None,["returned slices compared with saved copies after later operations"])

p("C26","Index operations release every store resource they acquire",
"Every index query and indexing call, whether it succeeds or fails, closes exactly once every reader, iterator, batch and writer it obtained from the store, and closes iterators before their reader. Consequently any number of calls leaves no open transaction, snapshot or goroutine behind: later writes never block, and the store can be closed.",
["histories","fault_sequences","inputs"],
"every call of every index function, over empty and populated stores, with a fault injected at every store call it makes",
"Tests use the in-memory store, run one query each and never look at open resources.",
["index/s2idx.go","index/s2pointidx.go","index/s2timeidx.go"],[("deferred Close of readers, iterators, batches, writers","index/*.go")],[("open handles","readers, iterators, writers, batches not yet closed","store wrapper")],["open/close balance on a monitoring store wrapper"])

p("C27","Index operations report store failures and never claim false success",
"If the underlying store fails to provide a reader or writer, or fails to execute a batch, the index operation returns a non-nil error and never panics; a query that returns no error has read the complete answer, and an indexing call that returns no error has stored every key of the object. A corrupt or foreign key under the index prefix makes the query return an error rather than invented ids or a panic.",
["fault_sequences","inputs"],
"every index function, with every store call it makes failing in turn",
"No test makes a store call fail.",
["index/s2idx.go","index/s2pointidx.go","index/s2timeidx.go"],[("error checks","index/*.go"),("keyToValues length check","index/*.go")],None,["returned errors under a fault-injecting store wrapper"])

p("C28","Indexing one object is atomic",
"An object becomes visible in all the cells of its covering at once: any reader opened concurrently with a flat, point or time indexing call sees either all of the keys of that object or none, and if the call fails or the process dies none of them is ever visible. Each indexing call executes exactly one batch.",
["schedules","crash_points","fault_sequences"],
"every object with a covering of any number of cells, concurrent readers, and every failing or interrupted indexing call, on each backend",
"No test reads while indexing or makes indexing fail.",
["index/s2idx.go","index/s2timeidx.go","index/s2pointidx.go"],[("one batch per object","index/*.go"),("ExecuteBatch atomicity","store/*/writer.go")],None,["cells visible per object in concurrent snapshots and in stores reopened after a kill"])

p("C29","Requests that cannot be answered correctly are refused without side effects",
"Looking up a cell whose level differs from the level of a flat or time index returns an error and no ids. Indexing an object whose covering is empty or cannot be computed, an empty id, or (in a point index) anything but a point returns an error and leaves the store unchanged, so that it can never disturb later queries.",
["inputs","histories"],
"every level and cell, every geometry type, malformed or empty geometry, and empty id",
"One test looks up one cell at a wrong level; no test passes an object or id that must be refused.",
["index/s2idx.go","index/s2pointidx.go","index/s2timeidx.go","index/geodata/tools.go"],[("level checks, empty cover check, type check","index/*.go")],None,["errors returned and full store content before and after"])

p("C30","GeoJSON features survive conversion, protobuf storage and back",
"Converting a GeoJSON point, line string or polygon feature to its stored form, serializing it to protobuf bytes and back, and converting it to GeoJSON again gives the same geometry type, the same longitudes and latitudes bit for bit (for a polygon: its outer ring; for positions with altitude: longitude and latitude), and the same string, boolean and number properties, null ones being dropped. Converting a geometry to the stored form and back gives the same geometry, multipolygons render as GeoJSON multipolygons of their rings, and a list of points renders as a line string through them in order. Geometries and property types that are not supported are refused with an error.",
["inputs"],
"every feature: all coordinates, any ring count and dimension, any property names and values",
"Tests convert one hard-coded feature per type, without properties, holes or altitude, and never serialize or render one back.",
["index/geodata/tools.go","index/geodata/geodata.pb.go","index/geodata/geodata.proto"],[("GeoJSONFeatureToGeoData, GeomToGeoData, PropertiesToGeoData","index/geodata/tools.go"),("ToGeoJSONFeatureCollection, GeoDataToGeom, PointsToGeoJSONPolyLines, PropertiesToJSONMap","index/geodata/tools.go")],None,["decoded output against an independent JSON decode of the input"])

p("C31","Conversions, coverings and indexing never modify or alias their inputs",
"Computing a covering, interior covering or bounding rectangle, converting between representations, rendering GeoJSON, and indexing leave the objects, coordinate slices, features and cell unions given to them unchanged, so repeating the call gives the same result. The stored form produced from a geometry does not change when the geometry is modified later.",
["inputs","histories"],
"every geometry (including rings in either orientation, concave rings, rings containing a pole) and every sequence of calls on the same object",
"No test compares an object before and after a call.",
["index/geodata/tools.go","index/geodata/loop.go","index/s2idx.go","s2tools/cellunion.go"],[("coverPolygon works on a copy","index/geodata/tools.go"),("coordinate copies","index/geodata/tools.go")],None,["deep copies of all inputs compared after each call"])

p("C32","Coverings respect the requested levels, cover the object and stay close to it",
"For any coverer settings a covering contains every point of the object, every cell in it is valid, has a level between the minimum and maximum (and matching the level step) and lies at or next to the object; a point's covering is its cell at the minimum level. An interior covering of a polygon contains only cells whose whole area lies inside the polygon. The covering of a multipolygon is the union of the coverings of its polygons.",
["inputs","configurations"],
"every geometry smaller than a hemisphere and every valid combination of minimum level, maximum level, level step and maximum cells",
"Tests count the cells for one point, one line and one polygon at one setting.",
["index/geodata/tools.go","index/geodata/loop.go"],[("Cover, InteriorCover, GeoDataToCoverCellUnion","index/geodata/tools.go")],None,["cells returned against independent geometric predicates"])

p("C33","A polygon means the same region however its ring is written",
"The covering of a polygon, and every index result for it, is the same whether its ring is given clockwise or counter-clockwise, starting from whichever vertex, with or without the closing vertex repeated, convex or concave. The region is always the smaller of the two regions the ring bounds: coverings never include cells far from a small polygon.",
["inputs"],
"every simple ring smaller than a hemisphere, every rotation, both orientations, closed or not",
"Tests use convex rings whose first three vertices turn the same way as the ring.",
["index/geodata/loop.go","index/geodata/tools.go"],[("LoopFromCoordinatesAndCCW","index/geodata/loop.go"),("coverPolygon","index/geodata/tools.go")],None,["coverings of all rewritings of one ring compared with each other and with geometric samples"])

p("C34","Bounding rectangles contain the whole geometry",
"When a bounding rectangle is returned for a polygon or line string it contains every vertex, every point along its edges and (for a polygon) every interior point, including across the antimeridian and where edges bulge poleward, and it is tight: each side is touched by the geometry. Points, multipolygons, missing geometries and unusable rings are answered with an error, never a panic.",
["inputs"],
"every line string and every counter-clockwise ring smaller than a hemisphere and not containing the north-pole reference point",
"The function has no test.",
["index/geodata/tools.go","index/geodata/loop.go"],[("GeoDataToRect","index/geodata/tools.go")],None,["rectangle against densely sampled geometry"])

p("C35","Malformed geometry is answered with an error, never a panic",
"Covering, interior covering, bounding, converting, rendering and indexing any stored object, including ones with no geometry, no or too few or an odd number of coordinates, nested parts missing, rings collapsing to fewer than three distinct vertices, an unknown type, null properties, or non-finite or out-of-range numbers, returns either a result or an error. It never panics and never runs away in time or memory at coarse levels.",
["inputs"],
"every value the stored form can hold, from whatever source it was decoded",
"Tests pass only well-formed objects.",
["index/geodata/tools.go","index/geodata/loop.go","index/s2idx.go","index/s2pointidx.go","index/s2timeidx.go"],[("validation in geoDataCoverCellUnion, coverPolygon, GeoDataToRect, GeoDataToGeom","index/geodata/tools.go")],None,["panics and hangs observed over hostile objects"])

p("C36","Cell id parsing is the inverse of every notation and rejects everything else",
"Parsing the face/children notation of any valid cell, its token, or its decimal id when that is longer than 16 digits yields that cell. Any other input yields no cell: the result is either absent or a valid cell, and in the face/children notation any wrong face, wrong child digit, stray character or more than 30 children is refused. Parsing never panics.",
["inputs"],
"every cell of every face and level in each notation, and every string",
"Tests parse one cell in three notations and two bad strings.",
["s2tools/parse.go"],[("ParseCellID","s2tools/parse.go")],None,["parsed cells against an independent parser"])

p("C37","Cell set helpers compute exact unions and differences",
"The union of any cell lists contains each distinct cell of any of them exactly once, in ascending order, never replacing cells by ancestors. The missing-cells helper returns, in their original order, the cells of the first list left over after cancelling each against one equal cell of the second (so repeated cells count). Tokens are returned one per cell in order.",
["inputs"],"every pair or list of cell lists, with repetitions, ancestors and descendants, empty and nil lists",
"Tests use one pair of five and six distinct cells.",
["s2tools/cellunion.go","s2tools/geojsoncells.go"],[("CellUnionUnion, CellUnionMissing","s2tools/cellunion.go"),("CellUnionToTokens","s2tools/geojsoncells.go")],None,["results against a multiset model"])

p("C38","Cells are rendered as faithful GeoJSON",
"Rendering a list of valid cells gives a GeoJSON feature collection with one polygon feature per cell, in order, whose ring is closed, has the four vertices of the cell in order to within a nanodegree, and whose properties give the cell's token, decimal id, face/children string and level, each of which identifies the cell. An empty list renders as an empty feature collection.",
["inputs"],"every list of cells of any face and level, including ones at poles and on the antimeridian",
"Only the tokens of four cells are checked, through the handler.",
["s2tools/geojsoncells.go"],[("CellUnionToGeoJSON","s2tools/geojsoncells.go")],None,["parsed JSON against vertices computed independently"])

p("C39","The HTTP debug endpoints answer every request correctly or refuse it",
"The cell endpoint answers a list of valid cell tokens with one feature per token in order, and any request with a missing or invalid token with status 400. The GeoJSON endpoint answers one well-formed point, line or polygon feature and level limits with exactly the covering of that geometry, and malformed JSON, a feature count other than one, unsupported or malformed geometry or property types, or unusable parameters with status 400. No request makes a handler panic, and every 200 answer is JSON with the JSON content type.",
["inputs"],"every request: query string, path parameters, and body",
"One test posts one polygon and looks at the tokens.",
["s2tools/handlers.go","s2tools/geojsoncells.go","index/geodata/tools.go","cmd/mapdebugger/main.go"],[("S2CellQueryHandler, GeoJSONToCellHandler","s2tools/handlers.go")],None,["responses of an in-process HTTP server against an independently computed covering"])

p("C40","Handles and stores leave nothing behind once closed",
"Whatever was done with a store's readers, iterators and batches (iterators half read or sought, batches abandoned, refused or executed, compaction, from any goroutine, in any order), once they are closed nothing of them remains: no goroutine, no open engine transaction or snapshot, and overwriting the same entries for ever takes bounded space. Once a store is closed, or an opening was refused, no descriptor, mapping, lock or goroutine of it remains, its path can be opened again at once, and opening and closing it for ever takes bounded memory.",
["histories","inputs","configurations"],
"every backend, every history of handles all of which were closed, every number of openings and closings, every reason to refuse an opening",
"Tests open a store once, use it for milliseconds and look only at returned values; what stays behind has no effect on them.",
bf("store.go","reader.go","iterator.go","prefix_iterator.go","range_iterator.go","writer.go"),
[("Close of readers and iterators","store/*/reader.go, store/*/*iterator.go"),("New and Close of stores","store/*/store.go"),("background fetching of values","store/badger/prefix_iterator.go"),("batches and compaction","store/*/writer.go, store/*/store.go")],
[("resources","goroutines, descriptors, mappings, locks, engine transactions, pages and versions held","process and engine")],
["goroutine profile, /proc/self/fd and maps, flock, engine statistics, file sizes and heap, before and after"])

p("C41","Stores open side by side are independent of each other",
"Any number of stores of any backends, each with its own path (or none) but sharing keys, merge operator and options map as a caller likes, behave as if each were alone: each one's content, snapshots, iterators and errors depend on what was executed on it only, whatever is executed, compacted, closed or reopened on the others before, in between or at the same time.",
["histories","schedules","configurations"],
"every set of stores, every interleaving of histories on them, from one goroutine or several",
"Each test opens exactly one store at a time.",
["store/batch.go","store/merge.go","store/multiget.go"]+bf("store.go","writer.go","reader.go"),
[("state kept per store and not per package","store/*/store.go"),("EmulatedMerge per batch","store/merge.go"),("New","store/*/store.go")],None,
["every reader's answers against the model of its own store"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
