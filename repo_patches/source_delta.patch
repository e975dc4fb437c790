From 41899429ecb2a5590e5f57bd0118f8aab23d0153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:02 +0000
Subject: [PATCH 01/37] fix: MultiGet panicked on any non-empty key list

The result slice was created with length 0 and then indexed.
---
 store/multiget.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store/multiget.go b/store/multiget.go
index 635bcd4..b2ad0a3 100644
--- a/store/multiget.go
+++ b/store/multiget.go
@@ -18,7 +18,7 @@ package store
 // KVReader, and might be used by KVStore implementations that don't
 // have a native multi-get facility.
 func MultiGet(kvreader KVReader, keys [][]byte) ([][]byte, error) {
-	vals := make([][]byte, 0, len(keys))
+	vals := make([][]byte, len(keys))
 
 	for i, key := range keys {
 		val, err := kvreader.Get(key)
-- 
2.43.0


From af67d863af76ed0f7525cd55375385f1555b468f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:02 +0000
Subject: [PATCH 02/37] fix: pending merges kept the caller's operand buffer

KVBatch.Merge promises that key and value may be reused as soon as it
returns. EmulatedBatch copied both but queued the originals, and the
goleveldb batch queued the original operand.
---
 store/batch.go           | 2 +-
 store/goleveldb/batch.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/store/batch.go b/store/batch.go
index 7110526..9b1fc4c 100644
--- a/store/batch.go
+++ b/store/batch.go
@@ -50,7 +50,7 @@ func (b *EmulatedBatch) Merge(key, val []byte) {
 	copy(ck, key)
 	cv := make([]byte, len(val))
 	copy(cv, val)
-	b.Merger.Merge(key, val)
+	b.Merger.Merge(ck, cv)
 }
 
 func (b *EmulatedBatch) Reset() {
diff --git a/store/goleveldb/batch.go b/store/goleveldb/batch.go
index b2221cb..e2bca97 100644
--- a/store/goleveldb/batch.go
+++ b/store/goleveldb/batch.go
@@ -34,7 +34,10 @@ func (b *Batch) Delete(key []byte) {
 }
 
 func (b *Batch) Merge(key, val []byte) {
-	b.merge.Merge(key, val)
+	// the caller may reuse val, the pending merge must own its operand
+	cv := make([]byte, len(val))
+	copy(cv, val)
+	b.merge.Merge(key, cv)
 }
 
 func (b *Batch) Reset() {
-- 
2.43.0


From 9416974d259172f188f3b77d24c2af9bc2a4c5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:02 +0000
Subject: [PATCH 03/37] fix: EmulatedBatch.Reset kept the pending merges

A reused batch applied the merges of its previous life again.
---
 store/batch.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/store/batch.go b/store/batch.go
index 9b1fc4c..f9f66a7 100644
--- a/store/batch.go
+++ b/store/batch.go
@@ -55,6 +55,7 @@ func (b *EmulatedBatch) Merge(key, val []byte) {
 
 func (b *EmulatedBatch) Reset() {
 	b.Ops = b.Ops[:0]
+	b.Merger = NewEmulatedMerge(b.Merger.mo)
 }
 
 func (b *EmulatedBatch) Close() error {
-- 
2.43.0


From e0320a8dd160800f9c70e55fdcc45eac0f1e2838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 04/37] fix: gtreap batch failing in a merge left the store
 locked and half applied

---
 store/gtreap/writer.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/store/gtreap/writer.go b/store/gtreap/writer.go
index 022fec5..18c002d 100644
--- a/store/gtreap/writer.go
+++ b/store/gtreap/writer.go
@@ -44,28 +44,32 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) error {
 	}
 
 	w.s.m.Lock()
+	defer w.s.m.Unlock()
+
+	// work on a private root, published only once the whole batch applied
+	t := w.s.t
 	for k, mergeOps := range emulatedBatch.Merger.Merges {
 		kb := []byte(k)
 		var existingVal []byte
-		existingItem := w.s.t.Get(&Item{k: kb})
+		existingItem := t.Get(&Item{k: kb})
 		if existingItem != nil {
-			existingVal = w.s.t.Get(&Item{k: kb}).(*Item).v
+			existingVal = existingItem.(*Item).v
 		}
 		mergedVal, fullMergeOk := w.s.mo.FullMerge(kb, existingVal, mergeOps)
 		if !fullMergeOk {
 			return fmt.Errorf("merge operator returned failure")
 		}
-		w.s.t = w.s.t.Upsert(&Item{k: kb, v: mergedVal}, rand.Int())
+		t = t.Upsert(&Item{k: kb, v: mergedVal}, rand.Int())
 	}
 
 	for _, op := range emulatedBatch.Ops {
 		if op.V != nil {
-			w.s.t = w.s.t.Upsert(&Item{k: op.K, v: op.V}, rand.Int())
+			t = t.Upsert(&Item{k: op.K, v: op.V}, rand.Int())
 		} else {
-			w.s.t = w.s.t.Delete(&Item{k: op.K})
+			t = t.Delete(&Item{k: op.K})
 		}
 	}
-	w.s.m.Unlock()
+	w.s.t = t
 
 	return nil
 }
-- 
2.43.0


From ff4a73c931ee8d383298869b14a6587398443283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:24 +0000
Subject: [PATCH 05/37] fix: badger committed half of a failed batch and hid
 commit errors

---
 store/badger/writer.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/store/badger/writer.go b/store/badger/writer.go
index 8a36173..c9bd7a6 100644
--- a/store/badger/writer.go
+++ b/store/badger/writer.go
@@ -31,9 +31,8 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) (err error) {
 
 	txn := w.s.db.NewTransaction(true)
 
-	defer (func() {
-		txn.Commit()
-	})()
+	// anything not committed below is dropped as a whole
+	defer txn.Discard()
 
 	for k, mergeOps := range emulatedBatch.Merger.Merges {
 		kb := []byte(k)
@@ -66,7 +65,7 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) (err error) {
 		}
 	}
 
-	return nil
+	return txn.Commit()
 }
 
 // Close closes the current writer
-- 
2.43.0


From c9fde2103c4430866a12e380b5af26b8be153156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:25 +0000
Subject: [PATCH 06/37] fix: badger merges saw an empty value for absent keys
 and ignored read errors

---
 store/badger/writer.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/store/badger/writer.go b/store/badger/writer.go
index c9bd7a6..b47400c 100644
--- a/store/badger/writer.go
+++ b/store/badger/writer.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"github.com/akhenakh/oureadb/store"
+	"github.com/dgraph-io/badger"
 )
 
 // Writer bleve.search/store/Writer implementation
@@ -37,9 +38,15 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) (err error) {
 	for k, mergeOps := range emulatedBatch.Merger.Merges {
 		kb := []byte(k)
 		item, err := txn.Get(kb)
-		existingVal := []byte{}
+		if err != nil && err != badger.ErrKeyNotFound {
+			return err
+		}
+		var existingVal []byte
 		if err == nil {
-			existingVal, _ = item.ValueCopy(nil)
+			existingVal, err = item.ValueCopy([]byte{})
+			if err != nil {
+				return err
+			}
 		}
 		mergedVal, fullMergeOk := w.s.mo.FullMerge(kb, existingVal, mergeOps)
 		if !fullMergeOk {
-- 
2.43.0


From 64692e8a64f3c92d77350a6e58deb4949a9d6f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:27 +0000
Subject: [PATCH 07/37] fix: badger reads took errors and empty values for
 absent keys

---
 store/badger/reader.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/store/badger/reader.go b/store/badger/reader.go
index e90fd76..8d2ada3 100644
--- a/store/badger/reader.go
+++ b/store/badger/reader.go
@@ -15,10 +15,14 @@ type Reader struct {
 // Get fetch the value of the specified key from the store
 func (r *Reader) Get(k []byte) ([]byte, error) {
 	item, err := r.txn.Get(k)
-	if err != nil {
+	if err == badger.ErrKeyNotFound || err == badger.ErrEmptyKey {
 		return nil, nil
 	}
-	return item.ValueCopy(nil)
+	if err != nil {
+		return nil, err
+	}
+	// an empty value is not an absent key
+	return item.ValueCopy([]byte{})
 }
 
 // MultiGet returns multiple values for the specified keys
-- 
2.43.0


From 93da3bdc69271fce42ac3c9f4fb8ff52fd0bc41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:06 +0000
Subject: [PATCH 08/37] fix: badger panicked or reported success when used
 after Close

---
 store/badger/store.go  | 15 +++++++++++++++
 store/badger/writer.go |  6 ++++++
 2 files changed, 21 insertions(+)

diff --git a/store/badger/store.go b/store/badger/store.go
index 9f0ed5f..df6977f 100644
--- a/store/badger/store.go
+++ b/store/badger/store.go
@@ -23,7 +23,9 @@
 package badger
 
 import (
+	"errors"
 	"os"
+	"sync"
 
 	"github.com/akhenakh/oureadb/store"
 	"github.com/dgraph-io/badger"
@@ -35,11 +37,16 @@ const (
 	Name = "badger"
 )
 
+var errClosed = errors.New("badger: store is closed")
+
 // Store implements blevesearch store
 type Store struct {
 	path string
 	db   *badger.DB
 	mo   store.MergeOperator
+
+	m      sync.RWMutex // held for reading while the database is in use
+	closed bool
 }
 
 // New creates a new store instance
@@ -82,11 +89,19 @@ func New(mo store.MergeOperator, config map[string]interface{}) (store.KVStore,
 
 // Close cleanup and close the current store
 func (s *Store) Close() error {
+	s.m.Lock()
+	defer s.m.Unlock()
+	s.closed = true
 	return s.db.Close()
 }
 
 // Reader initialize a new store.Reader
 func (s *Store) Reader() (store.KVReader, error) {
+	s.m.RLock()
+	defer s.m.RUnlock()
+	if s.closed {
+		return nil, errClosed
+	}
 	return &Reader{
 		itrOpts: badger.DefaultIteratorOptions,
 		s:       s,
diff --git a/store/badger/writer.go b/store/badger/writer.go
index b47400c..822e0b2 100644
--- a/store/badger/writer.go
+++ b/store/badger/writer.go
@@ -30,6 +30,12 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) (err error) {
 		return fmt.Errorf("wrong type of batch")
 	}
 
+	w.s.m.RLock()
+	defer w.s.m.RUnlock()
+	if w.s.closed {
+		return errClosed
+	}
+
 	txn := w.s.db.NewTransaction(true)
 
 	// anything not committed below is dropped as a whole
-- 
2.43.0


From 9853aeac3dab3524144d9aa1b90ddcde836684a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:08 +0000
Subject: [PATCH 09/37] fix: goleveldb handed out a reader without a snapshot
 after Close

---
 store/goleveldb/store.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/store/goleveldb/store.go b/store/goleveldb/store.go
index f971b97..9ad2dfe 100644
--- a/store/goleveldb/store.go
+++ b/store/goleveldb/store.go
@@ -77,7 +77,10 @@ func (ldbs *Store) Close() error {
 }
 
 func (ldbs *Store) Reader() (store.KVReader, error) {
-	snapshot, _ := ldbs.db.GetSnapshot()
+	snapshot, err := ldbs.db.GetSnapshot()
+	if err != nil {
+		return nil, err
+	}
 	return &Reader{
 		store:    ldbs,
 		snapshot: snapshot,
-- 
2.43.0


From 8ddd4197c146be23dfa7ac1b4f6b9aa3bcd72359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:10 +0000
Subject: [PATCH 10/37] fix: goleveldb lost concurrent merges of the same key

---
 store/goleveldb/store.go  | 4 ++++
 store/goleveldb/writer.go | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/store/goleveldb/store.go b/store/goleveldb/store.go
index 9ad2dfe..eb5af6f 100644
--- a/store/goleveldb/store.go
+++ b/store/goleveldb/store.go
@@ -18,6 +18,7 @@ import (
 	"bytes"
 	"fmt"
 	"os"
+	"sync"
 
 	"github.com/akhenakh/oureadb/store"
 	"github.com/syndtr/goleveldb/leveldb"
@@ -36,6 +37,9 @@ type Store struct {
 	db   *leveldb.DB
 	mo   store.MergeOperator
 
+	// merges read then write: they exclude any other batch meanwhile
+	mergeMutex sync.RWMutex
+
 	defaultWriteOptions *opt.WriteOptions
 	defaultReadOptions  *opt.ReadOptions
 }
diff --git a/store/goleveldb/writer.go b/store/goleveldb/writer.go
index 701f86b..bd04c07 100644
--- a/store/goleveldb/writer.go
+++ b/store/goleveldb/writer.go
@@ -44,6 +44,14 @@ func (w *Writer) ExecuteBatch(b store.KVBatch) error {
 		return fmt.Errorf("wrong type of batch")
 	}
 
+	if len(batch.merge.Merges) > 0 {
+		w.store.mergeMutex.Lock()
+		defer w.store.mergeMutex.Unlock()
+	} else {
+		w.store.mergeMutex.RLock()
+		defer w.store.mergeMutex.RUnlock()
+	}
+
 	// first process merges
 	for k, mergeOps := range batch.merge.Merges {
 		kb := []byte(k)
-- 
2.43.0


From 6dc8e0edeb255c90197ae9cb3087ba679acf2f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:11 +0000
Subject: [PATCH 11/37] fix: bolt iterator sought past its prefix became valid
 again on Next

---
 store/boltdb/iterator.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/store/boltdb/iterator.go b/store/boltdb/iterator.go
index 82ab946..eb7ac6c 100644
--- a/store/boltdb/iterator.go
+++ b/store/boltdb/iterator.go
@@ -50,10 +50,9 @@ func (i *Iterator) Seek(k []byte) {
 	if i.prefix != nil && !bytes.HasPrefix(k, i.prefix) {
 		if bytes.Compare(k, i.prefix) < 0 {
 			k = i.prefix
-		} else {
-			i.valid = false
-			return
 		}
+		// past the prefix: move the cursor there too, so that Next cannot
+		// come back to a matching key
 	}
 	i.key, i.val = i.cursor.Seek(k)
 	i.updateValid()
-- 
2.43.0


From 5002fee619f11c76e5e7d589f280db7b2c5e0000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:45 +0000
Subject: [PATCH 12/37] fix: bolt committed half of a batch whose merge
 operator panicked

---
 store/boltdb/writer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/store/boltdb/writer.go b/store/boltdb/writer.go
index e43e3d2..1120a58 100644
--- a/store/boltdb/writer.go
+++ b/store/boltdb/writer.go
@@ -43,11 +43,12 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) (err error) {
 	if err != nil {
 		return
 	}
+	finished := false // still false while a merge operator panics
 	// defer function to ensure that once started,
 	// we either Commit tx or Rollback
 	defer func() {
 		// if nothing went wrong, commit
-		if err == nil {
+		if err == nil && finished {
 			// careful to catch error here too
 			err = tx.Commit()
 		} else {
@@ -87,6 +88,7 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) (err error) {
 			}
 		}
 	}
+	finished = true
 	return
 }
 
-- 
2.43.0


From f7560a649637ff1b102a3232312a68a7457bf970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 13/37] fix: bolt kept the file open and locked when refusing
 its bucket

---
 store/boltdb/store.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/store/boltdb/store.go b/store/boltdb/store.go
index 87cd9d8..908dad5 100644
--- a/store/boltdb/store.go
+++ b/store/boltdb/store.go
@@ -86,6 +86,7 @@ func New(mo store.MergeOperator, config map[string]interface{}) (store.KVStore,
 			return err
 		})
 		if err != nil {
+			db.Close() // or the file would stay locked
 			return nil, err
 		}
 	}
-- 
2.43.0


From b00d6d0ef36613f543d0166e3d700325afd7f444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:48 +0000
Subject: [PATCH 14/37] fix: bolt read only store without its bucket panicked
 on reads

---
 store/boltdb/store.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/store/boltdb/store.go b/store/boltdb/store.go
index 908dad5..2129043 100644
--- a/store/boltdb/store.go
+++ b/store/boltdb/store.go
@@ -89,6 +89,17 @@ func New(mo store.MergeOperator, config map[string]interface{}) (store.KVStore,
 			db.Close() // or the file would stay locked
 			return nil, err
 		}
+	} else {
+		err = db.View(func(tx *bolt.Tx) error {
+			if tx.Bucket([]byte(bucket)) == nil {
+				return bolt.ErrBucketNotFound
+			}
+			return nil
+		})
+		if err != nil {
+			db.Close()
+			return nil, err
+		}
 	}
 
 	rv := Store{
-- 
2.43.0


From ac684a1bc51ed773a96c876ae6c75b21fd78fc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:09 +0000
Subject: [PATCH 15/37] fix: cell lookups returned ids aliasing the iterator's
 key buffer

---
 index/s2idx.go      | 2 ++
 index/s2pointidx.go | 2 ++
 index/s2timeidx.go  | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/index/s2idx.go b/index/s2idx.go
index 5ccc696..e6c41d5 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -92,6 +92,8 @@ func (idx *S2FlatIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 		if !ok {
 			break
 		}
+		// the iterator only lends its key
+		kid = append([]byte(nil), kid...)
 		_, id, err := idx.keyToValues(kid)
 		if err != nil {
 			return nil, errors.Wrap(err, "read back failed key from db")
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 6ebac0b..74dd3ba 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -104,6 +104,8 @@ func (idx *S2PointIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 		if !ok {
 			break
 		}
+		// the iterator only lends its key
+		kid = append([]byte(nil), kid...)
 		_, id, err := idx.keyToValues(kid)
 		if err != nil {
 			return nil, errors.Wrap(err, "read back failed key from db")
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 512b1b3..309f9bc 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -136,6 +136,8 @@ func (idx *S2FlatTimeIdx) GeoTimeIdsAtCell(c s2.CellID, from time.Time, to time.
 		if !ok {
 			break
 		}
+		// the iterator only lends its key
+		kid = append([]byte(nil), kid...)
 		_, _, id, err := idx.keyToValues(kid)
 		if err != nil {
 			return nil, errors.Wrap(err, "read back failed key from db")
-- 
2.43.0


From 6887340eb844e48fac778eda924b591793936d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:10 +0000
Subject: [PATCH 16/37] fix: queries panicked when the store could not provide
 a reader

---
 index/s2idx.go      | 2 +-
 index/s2pointidx.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/index/s2idx.go b/index/s2idx.go
index e6c41d5..6914f30 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -79,10 +79,10 @@ func (idx *S2FlatIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 	var res []GeoID
 
 	kv, err := idx.Reader()
-	defer kv.Close()
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	// iterate entries with cell's prefix
 	iter := kv.PrefixIterator(k)
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 74dd3ba..214d593 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -150,10 +150,10 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 	cu := coverer.Covering(cap)
 
 	kv, err := idx.Reader()
-	defer kv.Close()
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	var res []GeoID
 
@@ -204,10 +204,10 @@ func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]Ge
 	var res []GeoID
 
 	kv, err := idx.Reader()
-	defer kv.Close()
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	// we range over cover to lookup for points (cell l30) and filter them in place
 	for _, coverCell := range cu {
-- 
2.43.0


From 11271c34cb070cf94d9395fc4b156807f2aa3801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:11 +0000
Subject: [PATCH 17/37] fix: index calls leaked readers, iterators and writers

---
 index/s2idx.go      | 1 +
 index/s2pointidx.go | 4 ++++
 index/s2timeidx.go  | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/index/s2idx.go b/index/s2idx.go
index 6914f30..91ac0ae 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -48,6 +48,7 @@ func (idx *S2FlatIdx) GeoIndex(gd *geodata.GeoData, id GeoID) error {
 	if err != nil {
 		return err
 	}
+	defer kv.Close()
 
 	batch := kv.NewBatch()
 	defer batch.Close()
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 214d593..ddb30a9 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -34,6 +34,7 @@ func (idx *S2PointIdx) PointIndex(lat, lng float64, id GeoID) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	batch := kv.NewBatch()
 	defer batch.Close()
@@ -95,6 +96,7 @@ func (idx *S2PointIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	// iterate entries with cell's prefix
 	iter := kv.RangeIterator(start, stop)
@@ -179,6 +181,7 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 
 			c, id, err := idx.keyToValues(kid)
 			if err != nil {
+				iter.Close()
 				return nil, errors.Wrap(err, "read back failed key from db")
 			}
 
@@ -229,6 +232,7 @@ func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]Ge
 
 			c, id, err := idx.keyToValues(kid)
 			if err != nil {
+				iter.Close()
 				return nil, errors.Wrap(err, "read back failed key from db")
 			}
 
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 309f9bc..0c1bd70 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -48,6 +48,7 @@ func (idx *S2FlatTimeIdx) GeoTimeIndex(gd *geodata.GeoData, t time.Time, id GeoI
 	if err != nil {
 		return err
 	}
+	defer kv.Close()
 
 	batch := kv.NewBatch()
 	defer batch.Close()
@@ -128,9 +129,11 @@ func (idx *S2FlatTimeIdx) GeoTimeIdsAtCell(c s2.CellID, from time.Time, to time.
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	// iterate entries with cell's prefix
 	iter := kv.RangeIterator(startKey, stopKey)
+	defer iter.Close()
 	for {
 		kid, _, ok := iter.Current()
 		if !ok {
-- 
2.43.0


From 09381c858a1d878111717d7548845a36d93b81f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:27 +0000
Subject: [PATCH 18/37] fix: point queries missed the last leaf of every cell

---
 index/s2pointidx.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index ddb30a9..f9e967e 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -88,7 +88,8 @@ func (idx *S2PointIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 	start = append(start, itob(uint64(c.RangeMin()))...)
 	stop := make([]byte, len(idx.prefix))
 	copy(stop, idx.prefix)
-	stop = append(stop, itob(uint64(c.RangeMax()))...)
+	// stop is excluded, the last leaf cell is not
+	stop = append(stop, itob(uint64(c.RangeMax())+1)...)
 
 	var res []GeoID
 
@@ -166,7 +167,7 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 		start = append(start, itob(uint64(coverCell.RangeMin()))...)
 		stop := make([]byte, len(idx.prefix))
 		copy(stop, idx.prefix)
-		stop = append(stop, itob(uint64(coverCell.RangeMax()))...)
+		stop = append(stop, itob(uint64(coverCell.RangeMax())+1)...)
 
 		// iterate entries with cell's prefix
 		iter := kv.RangeIterator(start, stop)
@@ -219,7 +220,7 @@ func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]Ge
 		start = append(start, itob(uint64(coverCell.RangeMin()))...)
 		stop := make([]byte, len(idx.prefix))
 		copy(stop, idx.prefix)
-		stop = append(stop, itob(uint64(coverCell.RangeMax()))...)
+		stop = append(stop, itob(uint64(coverCell.RangeMax())+1)...)
 
 		// iterate entries with cell's prefix
 		iter := kv.RangeIterator(start, stop)
-- 
2.43.0


From 8d06a46395de246279a122a68455f9d66192b007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:29 +0000
Subject: [PATCH 19/37] fix: rect queries wider than 180 degrees searched the
 wrong side

---
 index/s2pointidx.go |  3 +--
 index/s2timeidx.go  |  3 +--
 index/tools.go      | 14 ++++++++++++++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index f9e967e..81eefbf 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -200,8 +200,7 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 
 // GeoIdsRectQuery query over rect ur upper right bl bottom left
 func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]GeoID, error) {
-	rect := s2.RectFromLatLng(s2.LatLngFromDegrees(bllat, bllng))
-	rect = rect.AddPoint(s2.LatLngFromDegrees(urlat, urlng))
+	rect := rectFromCorners(s2.LatLngFromDegrees(urlat, urlng), s2.LatLngFromDegrees(bllat, bllng))
 	coverer := &s2.RegionCoverer{MaxLevel: 14, MaxCells: 8}
 	cu := coverer.Covering(rect)
 
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 0c1bd70..8b0258f 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -83,8 +83,7 @@ func (idx *S2FlatTimeIdx) GeoTimeIdsRadiusQuery(from time.Time, to time.Time, la
 // GeoTimeIdsRectQuery query over rect ur upper right bl bottom left
 // scan from future to past
 func (idx *S2FlatTimeIdx) GeoTimeIdsRectQuery(from time.Time, to time.Time, urlat, urlng, bllat, bllng float64) ([]GeoID, error) {
-	rect := s2.RectFromLatLng(s2.LatLngFromDegrees(bllat, bllng))
-	rect = rect.AddPoint(s2.LatLngFromDegrees(urlat, urlng))
+	rect := rectFromCorners(s2.LatLngFromDegrees(urlat, urlng), s2.LatLngFromDegrees(bllat, bllng))
 	coverer := &s2.RegionCoverer{MinLevel: idx.level, MaxLevel: idx.level}
 	cu := coverer.Covering(rect)
 	return idx.GeoTimeIdsAtCells(cu, from, to)
diff --git a/index/tools.go b/index/tools.go
index a47c087..6179f18 100644
--- a/index/tools.go
+++ b/index/tools.go
@@ -4,6 +4,9 @@ import (
 	"encoding/binary"
 	"math"
 	"time"
+
+	"github.com/golang/geo/s1"
+	"github.com/golang/geo/s2"
 )
 
 const earthCircumferenceMeter = 40075017
@@ -35,3 +38,14 @@ func s2RadialAreaMeters(radius float64) float64 {
 	r := (radius / earthCircumferenceMeter) * math.Pi * 2
 	return math.Pi * r * r
 }
+
+// rectFromCorners returns the rect going east from the bottom left corner to
+// the upper right one, AddPoint alone would take the shortest way
+func rectFromCorners(ur, bl s2.LatLng) s2.Rect {
+	rect := s2.RectFromLatLng(bl)
+	rect = rect.AddPoint(ur)
+	if lng := s1.IntervalFromEndpoints(bl.Lng.Radians(), ur.Lng.Radians()); !lng.IsEmpty() {
+		rect.Lng = lng
+	}
+	return rect
+}
-- 
2.43.0


From 93cb40b968c35f9ea21b1c1b7259c9945867fea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 20/37] fix: conversion from geom misread holes and altitudes
 and aliased the geometry

---
 index/geodata/tools.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 3af1031..af706dd 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -16,7 +16,10 @@ func GeomToGeoData(g geom.T, gd *GeoData) error {
 
 	switch g := g.(type) {
 	case *geom.Point:
-		geo.Coordinates = g.Coords()
+		if g.Empty() {
+			return errors.New("unsupported empty point")
+		}
+		geo.Coordinates = xyCoords(g.FlatCoords(), g.Stride())
 		geo.Type = Geometry_POINT
 		//case *geom.MultiPolygon:
 		//	geo.Type = geodata.Geometry_MULTIPOLYGON
@@ -24,11 +27,13 @@ func GeomToGeoData(g geom.T, gd *GeoData) error {
 	case *geom.Polygon:
 		// only supports outer ring
 		geo.Type = Geometry_POLYGON
-		geo.Coordinates = g.FlatCoords()
+		if g.NumLinearRings() > 0 {
+			geo.Coordinates = xyCoords(g.LinearRing(0).FlatCoords(), g.Stride())
+		}
 
 	case *geom.LineString:
 		geo.Type = Geometry_LINESTRING
-		geo.Coordinates = g.FlatCoords()
+		geo.Coordinates = xyCoords(g.FlatCoords(), g.Stride())
 
 	default:
 		return errors.Errorf("unsupported geo type %T", g)
@@ -38,6 +43,15 @@ func GeomToGeoData(g geom.T, gd *GeoData) error {
 	return nil
 }
 
+// xyCoords copies the first two dimensions of flat coordinates
+func xyCoords(flat []float64, stride int) []float64 {
+	var res []float64
+	for i := 0; i+1 < len(flat); i += stride {
+		res = append(res, flat[i], flat[i+1])
+	}
+	return res
+}
+
 // GeoDataToGeom converts GeoData to a geom.T representation
 func GeoDataToGeom(gd *GeoData) (geom.T, error) {
 	switch gd.Geometry.Type {
-- 
2.43.0


From 8f9331bc5150c08e167b4e1df0a6223244ed04c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:53 +0000
Subject: [PATCH 21/37] fix: covering a polygon reversed the caller's
 coordinates and misjudged concave rings

---
 index/geodata/loop.go  | 13 +++++--------
 index/geodata/tools.go |  9 ---------
 2 files changed, 5 insertions(+), 17 deletions(-)

diff --git a/index/geodata/loop.go b/index/geodata/loop.go
index 5806590..b49ed55 100644
--- a/index/geodata/loop.go
+++ b/index/geodata/loop.go
@@ -19,19 +19,16 @@ func LoopFromCoordinatesAndCCW(c []float64, checkCCW bool) *s2.Loop {
 		points[i/2] = s2.PointFromLatLng(s2.LatLngFromDegrees(c[i+1], c[i]))
 	}
 
-	if checkCCW && s2.RobustSign(points[0], points[1], points[2]) != s2.CounterClockwise {
-		// reversing the slice
-		for i := len(points)/2 - 1; i >= 0; i-- {
-			opp := len(points) - 1 - i
-			points[i], points[opp] = points[opp], points[i]
-		}
-	}
-
 	if points[0] == points[len(points)-1] {
 		// remove last item if same as 1st
 		points = append(points[:len(points)-1], points[len(points)-1+1:]...)
 	}
 
 	loop := s2.LoopFromPoints(points)
+
+	// three vertices can't tell for a concave ring, the whole turn does
+	if checkCCW && loop.TurningAngle() < 0 {
+		loop.Invert()
+	}
 	return loop
 }
diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index af706dd..f50eae9 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -231,15 +231,6 @@ func coverPolygon(c []float64, coverer *s2.RegionCoverer, interior bool) (s2.Cel
 		return nil, errors.New("invalid polygons")
 	}
 
-	// super hacky try reverse if ContainsOrigin
-	if l.ContainsOrigin() {
-		// reversing the slice
-		for i := len(c)/2 - 1; i >= 0; i-- {
-			opp := len(c) - 1 - i
-			c[i], c[opp] = c[opp], c[i]
-		}
-	}
-
 	if interior {
 		return coverer.InteriorCovering(l), nil
 	}
-- 
2.43.0


From 1537f64792a79fdd031aef95097f5d02e84ea029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:13 +0000
Subject: [PATCH 22/37] fix: rings collapsing to less than a triangle panicked

---
 index/geodata/loop.go  | 15 ++++++++++++---
 index/geodata/tools.go |  4 ++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/index/geodata/loop.go b/index/geodata/loop.go
index b49ed55..2f6a818 100644
--- a/index/geodata/loop.go
+++ b/index/geodata/loop.go
@@ -13,17 +13,26 @@ func LoopFromCoordinatesAndCCW(c []float64, checkCCW bool) *s2.Loop {
 	if len(c)%2 != 0 || len(c) < 2*3 {
 		return nil
 	}
-	points := make([]s2.Point, len(c)/2)
+	points := make([]s2.Point, 0, len(c)/2)
 
 	for i := 0; i < len(c); i += 2 {
-		points[i/2] = s2.PointFromLatLng(s2.LatLngFromDegrees(c[i+1], c[i]))
+		p := s2.PointFromLatLng(s2.LatLngFromDegrees(c[i+1], c[i]))
+		// a repeated vertex is no edge
+		if len(points) == 0 || p != points[len(points)-1] {
+			points = append(points, p)
+		}
 	}
 
-	if points[0] == points[len(points)-1] {
+	if len(points) > 1 && points[0] == points[len(points)-1] {
 		// remove last item if same as 1st
 		points = append(points[:len(points)-1], points[len(points)-1+1:]...)
 	}
 
+	// collapsed to less than a triangle
+	if len(points) < 3 {
+		return nil
+	}
+
 	loop := s2.LoopFromPoints(points)
 
 	// three vertices can't tell for a concave ring, the whole turn does
diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index f50eae9..e16b820 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -121,7 +121,7 @@ func GeoDataToRect(gd *GeoData) (s2.Rect, error) {
 
 	case Geometry_POLYGON:
 		l := LoopFromCoordinates(gd.Geometry.Coordinates)
-		if l.IsEmpty() || l.IsFull() || l.ContainsOrigin() {
+		if l == nil || l.IsEmpty() || l.IsFull() || l.ContainsOrigin() {
 			return s2.Rect{}, errors.New("invalid polygon")
 		}
 		return l.RectBound(), nil
@@ -227,7 +227,7 @@ func coverPolygon(c []float64, coverer *s2.RegionCoverer, interior bool) (s2.Cel
 	}
 
 	l := LoopFromCoordinatesAndCCW(c, true)
-	if l.IsEmpty() || l.IsFull() {
+	if l == nil || l.IsEmpty() || l.IsFull() {
 		return nil, errors.New("invalid polygons")
 	}
 
-- 
2.43.0


From 9c0462f10330418f53670b512e686fc1eee73052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:40 +0000
Subject: [PATCH 23/37] fix: missing geometries and coordinates panicked
 instead of being refused

---
 index/geodata/tools.go | 54 +++++++++++++++++++++++++++++++++++-------
 index/s2pointidx.go    |  4 ++--
 2 files changed, 48 insertions(+), 10 deletions(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index e16b820..fbad08f 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -52,11 +52,37 @@ func xyCoords(flat []float64, stride int) []float64 {
 	return res
 }
 
+// checkGeometry tells if the coordinates of gd can be read as pairs
+func checkGeometry(gd *GeoData) error {
+	g := gd.GetGeometry()
+	if g == nil {
+		return errors.New("invalid geometry")
+	}
+	if g.Type == Geometry_POINT {
+		if len(g.Coordinates) < 2 {
+			return errors.New("invalid coordinates count for point")
+		}
+		return nil
+	}
+	if len(g.Coordinates)%2 != 0 {
+		return errors.New("invalid odd coordinates number")
+	}
+	for _, part := range g.Geometries {
+		if part == nil || len(part.Coordinates)%2 != 0 {
+			return errors.New("invalid geometry part")
+		}
+	}
+	return nil
+}
+
 // GeoDataToGeom converts GeoData to a geom.T representation
 func GeoDataToGeom(gd *GeoData) (geom.T, error) {
+	if err := checkGeometry(gd); err != nil {
+		return nil, err
+	}
 	switch gd.Geometry.Type {
 	case Geometry_POINT:
-		return geom.NewPointFlat(geom.XY, gd.Geometry.Coordinates), nil
+		return geom.NewPointFlat(geom.XY, gd.Geometry.Coordinates[:2]), nil
 	case Geometry_POLYGON:
 		return geom.NewPolygonFlat(geom.XY, gd.Geometry.Coordinates, []int{len(gd.Geometry.Coordinates)}), nil
 	case Geometry_LINESTRING:
@@ -68,6 +94,10 @@ func GeoDataToGeom(gd *GeoData) (geom.T, error) {
 
 // GeoJSONFeatureToGeoData fill gd with the GeoJSON data f
 func GeoJSONFeatureToGeoData(f *geojson.Feature, gd *GeoData) error {
+	if f == nil {
+		return errors.New("invalid feature")
+	}
+
 	err := PropertiesToGeoData(f, gd)
 	if err != nil {
 		return errors.Wrap(err, "while converting feature properties to GeoData")
@@ -112,8 +142,8 @@ func PropertiesToGeoData(f *geojson.Feature, gd *GeoData) error {
 // GeoDataToRect generate a RectBound for GeoData gd
 // only works with Polygons & LineString
 func GeoDataToRect(gd *GeoData) (s2.Rect, error) {
-	if gd.Geometry == nil {
-		return s2.Rect{}, errors.New("invalid geometry")
+	if err := checkGeometry(gd); err != nil {
+		return s2.Rect{}, err
 	}
 	switch gd.Geometry.Type {
 	case Geometry_POINT:
@@ -149,8 +179,8 @@ func GeoDataToRect(gd *GeoData) (s2.Rect, error) {
 
 // geoDataToCoverCellUnion generate an s2 cover normalized for GeoData gd
 func geoDataCoverCellUnion(gd *GeoData, coverer *s2.RegionCoverer, interior bool) (s2.CellUnion, error) {
-	if gd.Geometry == nil {
-		return nil, errors.New("invalid geometry")
+	if err := checkGeometry(gd); err != nil {
+		return nil, err
 	}
 	var cu s2.CellUnion
 	switch gd.Geometry.Type {
@@ -241,10 +271,13 @@ func coverPolygon(c []float64, coverer *s2.RegionCoverer, interior bool) (s2.Cel
 func ToGeoJSONFeatureCollection(geos []*GeoData) ([]byte, error) {
 	fc := geojson.FeatureCollection{}
 	for _, g := range geos {
+		if err := checkGeometry(g); err != nil {
+			return nil, err
+		}
 		f := &geojson.Feature{}
 		switch g.Geometry.Type {
 		case Geometry_POINT:
-			ng := geom.NewPointFlat(geom.XY, g.Geometry.Coordinates)
+			ng := geom.NewPointFlat(geom.XY, g.Geometry.Coordinates[:2])
 			f.Geometry = ng
 		case Geometry_POLYGON:
 			ng := geom.NewPolygonFlat(geom.XY, g.Geometry.Coordinates, []int{len(g.Geometry.Coordinates)})
@@ -259,6 +292,8 @@ func ToGeoJSONFeatureCollection(geos []*GeoData) ([]byte, error) {
 		case Geometry_LINESTRING:
 			ls := geom.NewLineStringFlat(geom.XY, g.Geometry.Coordinates)
 			f.Geometry = ls
+		default:
+			return nil, errors.Errorf("unsupported geometry")
 		}
 		f.Properties = PropertiesToJSONMap(g.Properties)
 		fc.Features = append(fc.Features, f)
@@ -277,9 +312,12 @@ func PointsToGeoJSONPolyLines(geos []*GeoData) ([]byte, error) {
 	}
 
 	for _, g := range geos {
+		if err := checkGeometry(g); err != nil {
+			return nil, err
+		}
 		switch g.Geometry.Type {
 		case Geometry_POINT:
-			flatCoords = append(flatCoords, g.Geometry.Coordinates...)
+			flatCoords = append(flatCoords, g.Geometry.Coordinates[:2]...)
 		default:
 			return nil, errors.Errorf("unsupported geometry")
 		}
@@ -297,7 +335,7 @@ func PropertiesToJSONMap(src map[string]*spb.Value) map[string]interface{} {
 	res := make(map[string]interface{})
 
 	for k, v := range src {
-		switch x := v.Kind.(type) {
+		switch x := v.GetKind().(type) {
 		case *spb.Value_NumberValue:
 			res[k] = x.NumberValue
 		case *spb.Value_StringValue:
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 81eefbf..63cf8e1 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -62,7 +62,7 @@ func (idx *S2PointIdx) PointKey(lat, lng float64, id GeoID) []byte {
 
 // GeoPointKey is returning the key generated for a geopoint + id
 func (idx *S2PointIdx) GeoPointKey(gd *geodata.GeoData, id GeoID) ([]byte, error) {
-	if gd.Geometry.Type != geodata.Geometry_POINT {
+	if gd.GetGeometry() == nil || gd.Geometry.Type != geodata.Geometry_POINT || len(gd.Geometry.Coordinates) < 2 {
 		return nil, errors.New("only points are supported")
 	}
 
@@ -73,7 +73,7 @@ func (idx *S2PointIdx) GeoPointKey(gd *geodata.GeoData, id GeoID) ([]byte, error
 // it's not storing GeoData itself but only the geo cell l30 of the point
 // id is the key referring to the GeoData stored somewhere else
 func (idx *S2PointIdx) GeoPointIndex(gd *geodata.GeoData, id GeoID) ([]byte, error) {
-	if gd.Geometry.Type != geodata.Geometry_POINT {
+	if gd.GetGeometry() == nil || gd.Geometry.Type != geodata.Geometry_POINT || len(gd.Geometry.Coordinates) < 2 {
 		return nil, errors.New("only points are supported")
 	}
 
-- 
2.43.0


From b574386d414a4b8f853f46040546f7d4d2bf4045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 24/37] fix: covers of lines ignored the minimum level and
 level step

---
 index/geodata/tools.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index fbad08f..9b4ab3e 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -218,9 +218,9 @@ func geoDataCoverCellUnion(gd *GeoData, coverer *s2.RegionCoverer, interior bool
 
 		var cupl s2.CellUnion
 		if interior {
-			cupl = coverer.InteriorCellUnion(&pl)
+			cupl = coverer.InteriorCovering(&pl)
 		} else {
-			cupl = coverer.CellUnion(&pl)
+			cupl = coverer.Covering(&pl)
 		}
 		cu = append(cu, cupl...)
 
-- 
2.43.0


From d255338da3bf9e850cde27ff16869d73a65f8de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:01 +0000
Subject: [PATCH 25/37] fix: covers of points returned invalid cells for levels
 above 30

---
 index/geodata/tools.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 9b4ab3e..dcf5fd0 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -186,7 +186,15 @@ func geoDataCoverCellUnion(gd *GeoData, coverer *s2.RegionCoverer, interior bool
 	switch gd.Geometry.Type {
 	case Geometry_POINT:
 		c := s2.CellIDFromLatLng(s2.LatLngFromDegrees(gd.Geometry.Coordinates[1], gd.Geometry.Coordinates[0]))
-		cu = append(cu, c.Parent(coverer.MinLevel))
+		// levels are bounded as the coverer does for other geometries
+		level := coverer.MinLevel
+		if level < 0 {
+			level = 0
+		}
+		if level > c.Level() {
+			level = c.Level()
+		}
+		cu = append(cu, c.Parent(level))
 
 	case Geometry_POLYGON:
 		cup, err := coverPolygon(gd.Geometry.Coordinates, coverer, interior)
-- 
2.43.0


From fd32a80868603a4883cbc01e2c526048ff58273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 26/37] fix: time index accepted objects with an empty cover

---
 index/s2timeidx.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 8b0258f..4a01c13 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -44,6 +44,11 @@ func (idx *S2FlatTimeIdx) GeoTimeIndex(gd *geodata.GeoData, t time.Time, id GeoI
 		return errors.Wrap(err, "generating cover failed")
 	}
 
+	// nothing to index, the object could never be found
+	if len(cu) == 0 {
+		return errors.New("geo object can't be indexed, empty cover")
+	}
+
 	kv, err := idx.KVStore.Writer()
 	if err != nil {
 		return err
-- 
2.43.0


From 90894586a849390c6ad021e4e95a13674df8be43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:05 +0000
Subject: [PATCH 27/37] fix: indexing under an empty id made later queries fail

---
 index/s2idx.go      | 4 ++++
 index/s2pointidx.go | 4 ++++
 index/s2timeidx.go  | 4 ++++
 index/tools.go      | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/index/s2idx.go b/index/s2idx.go
index 91ac0ae..edbecaa 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -34,6 +34,10 @@ func NewS2FlatIdx(s store.KVStore, prefix []byte, level int) *S2FlatIdx {
 // it's not storing GeoData itself but only the geo index of the cover
 // id is the key referring to the GeoData stored somewhere else
 func (idx *S2FlatIdx) GeoIndex(gd *geodata.GeoData, id GeoID) error {
+	if len(id) == 0 {
+		return errEmptyID
+	}
+
 	cu, err := idx.Covering(gd)
 	if err != nil {
 		return errors.Wrap(err, "generating cover failed")
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 63cf8e1..dc8702f 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -30,6 +30,10 @@ func NewS2PointIdx(s store.KVStore, prefix []byte) *S2PointIdx {
 // it's not storing GeoData itself but only the geo cell l30 of the point
 // id is the key referring to the GeoData stored somewhere else
 func (idx *S2PointIdx) PointIndex(lat, lng float64, id GeoID) ([]byte, error) {
+	if len(id) == 0 {
+		return nil, errEmptyID
+	}
+
 	kv, err := idx.KVStore.Writer()
 	if err != nil {
 		return nil, err
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 4a01c13..3c9cc5e 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -39,6 +39,10 @@ func NewS2FlatTimeIdx(s store.KVStore, prefix []byte, level int) *S2FlatTimeIdx
 // could be a user position or an effect zone
 // t is the time when the event end (can be in the future)
 func (idx *S2FlatTimeIdx) GeoTimeIndex(gd *geodata.GeoData, t time.Time, id GeoID) error {
+	if len(id) == 0 {
+		return errEmptyID
+	}
+
 	cu, err := idx.Covering(gd)
 	if err != nil {
 		return errors.Wrap(err, "generating cover failed")
diff --git a/index/tools.go b/index/tools.go
index 6179f18..e315cc9 100644
--- a/index/tools.go
+++ b/index/tools.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"encoding/binary"
+	"errors"
 	"math"
 	"time"
 
@@ -19,6 +20,9 @@ var (
 	MinGeoTime = time.Unix(0, 0)
 )
 
+// errEmptyID an empty id can't be told from a truncated key when read back
+var errEmptyID = errors.New("an empty id can't be indexed")
+
 // GeoID a key referring to a GeoData
 type GeoID []byte
 
-- 
2.43.0


From ae5d48d84a1e260be0c7005b338f03c517d0dbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:32 +0000
Subject: [PATCH 28/37] fix: ParseCellID returned invalid cells for wrong ids
 and more than 30 children

---
 s2tools/parse.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/s2tools/parse.go b/s2tools/parse.go
index d3c14a5..0bd8a22 100644
--- a/s2tools/parse.go
+++ b/s2tools/parse.go
@@ -17,7 +17,7 @@ func ParseCellID(cs string) *s2.CellID {
 		c := s2.CellIDFromFace(face)
 		for _, b := range cs[2:] {
 			child, err := strconv.Atoi(string(b))
-			if err != nil || child < 0 || child > 3 {
+			if err != nil || child < 0 || child > 3 || c.IsLeaf() {
 				return nil
 			}
 
@@ -28,6 +28,9 @@ func ParseCellID(cs string) *s2.CellID {
 
 	c := s2.CellIDFromToken(cs)
 	if c != s2.CellID(0) {
+		if !c.IsValid() {
+			return nil
+		}
 		return &c
 	}
 
@@ -36,5 +39,8 @@ func ParseCellID(cs string) *s2.CellID {
 		return nil
 	}
 	c = s2.CellID(id)
+	if !c.IsValid() {
+		return nil
+	}
 	return &c
 }
-- 
2.43.0


From 7a9eda8277ef22b82997630d88cd3b3643d1288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:33 +0000
Subject: [PATCH 29/37] fix: the cell endpoint rendered garbage for invalid
 tokens

---
 s2tools/handlers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/s2tools/handlers.go b/s2tools/handlers.go
index fb033e8..b1d9b15 100644
--- a/s2tools/handlers.go
+++ b/s2tools/handlers.go
@@ -28,6 +28,10 @@ func S2CellQueryHandler(w http.ResponseWriter, r *http.Request) {
 
 	for i, cs := range cells {
 		c := s2.CellIDFromToken(cs)
+		if !c.IsValid() {
+			http.Error(w, "invalid parameters", 400)
+			return
+		}
 		cu[i] = c
 	}
 
-- 
2.43.0


From f8a364ef887fe7cc8e7fe78a4286f9c1afd276f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 30/37] fix: badger iterators panicked on Next once exhausted

---
 store/badger/prefix_iterator.go | 5 ++++-
 store/badger/range_iterator.go  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/store/badger/prefix_iterator.go b/store/badger/prefix_iterator.go
index cbd2f61..9f11637 100644
--- a/store/badger/prefix_iterator.go
+++ b/store/badger/prefix_iterator.go
@@ -23,7 +23,10 @@ func (i *PrefixIterator) Seek(key []byte) {
 
 // Next advance the iterator to the next step
 func (i *PrefixIterator) Next() {
-	i.iterator.Next()
+	// badger does not stand a Next on an exhausted iterator
+	if i.iterator.Valid() {
+		i.iterator.Next()
+	}
 }
 
 // Current returns the key & value of the current step
diff --git a/store/badger/range_iterator.go b/store/badger/range_iterator.go
index c3eb153..9f7f2d9 100644
--- a/store/badger/range_iterator.go
+++ b/store/badger/range_iterator.go
@@ -24,7 +24,10 @@ func (i *RangeIterator) Seek(key []byte) {
 
 // Next advance the iterator to the next step
 func (i *RangeIterator) Next() {
-	i.iterator.Next()
+	// badger does not stand a Next on an exhausted iterator
+	if i.iterator.Valid() {
+		i.iterator.Next()
+	}
 }
 
 // Current returns the key & value of the current step
-- 
2.43.0


From 56aec365c5467dc3e92cb7b23b48ac21c50bb455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:52 +0000
Subject: [PATCH 31/37] fix: goleveldb merges saw an empty value for deleted
 keys

---
 store/goleveldb/writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/store/goleveldb/writer.go b/store/goleveldb/writer.go
index bd04c07..87c5106 100644
--- a/store/goleveldb/writer.go
+++ b/store/goleveldb/writer.go
@@ -59,6 +59,9 @@ func (w *Writer) ExecuteBatch(b store.KVBatch) error {
 		if err != nil && err != leveldb.ErrNotFound {
 			return err
 		}
+		if err == leveldb.ErrNotFound {
+			existingVal = nil
+		}
 		mergedVal, fullMergeOk := w.store.mo.FullMerge(kb, existingVal, mergeOps)
 		if !fullMergeOk {
 			return fmt.Errorf("merge operator returned failure")
-- 
2.43.0


From fdd83cbe705ebf16e757d914bc5b426e34812f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:08 +0000
Subject: [PATCH 32/37] fix: leveldb store could not be reopened after a
 machine crash following a reopen

---
 store/goleveldb/storage.go | 54 ++++++++++++++++++++++++++++++++++++++
 store/goleveldb/store.go   | 16 +++++++++--
 2 files changed, 68 insertions(+), 2 deletions(-)
 create mode 100644 store/goleveldb/storage.go

diff --git a/store/goleveldb/storage.go b/store/goleveldb/storage.go
new file mode 100644
index 0000000..cf1637b
--- /dev/null
+++ b/store/goleveldb/storage.go
@@ -0,0 +1,54 @@
+package goleveldb
+
+import (
+	"sync"
+
+	"github.com/syndtr/goleveldb/leveldb/storage"
+)
+
+// syncedStorage forces a manifest to disk before the database starts to refer
+// to it. goleveldb does not: after a reopen a machine crash could leave CURRENT
+// pointing to an empty manifest, and the database unusable.
+type syncedStorage struct {
+	storage.Storage
+
+	m          sync.Mutex
+	manifest   storage.Writer // last manifest created, nil once it is referred to
+	manifestFd storage.FileDesc
+}
+
+func openStorage(path string, readOnly bool) (storage.Storage, error) {
+	stor, err := storage.OpenFile(path, readOnly)
+	if err != nil {
+		return nil, err
+	}
+	return &syncedStorage{Storage: stor}, nil
+}
+
+// Create creates a file, remembering it if it is a manifest.
+func (s *syncedStorage) Create(fd storage.FileDesc) (storage.Writer, error) {
+	w, err := s.Storage.Create(fd)
+	if err == nil && fd.Type == storage.TypeManifest {
+		s.m.Lock()
+		s.manifest, s.manifestFd = w, fd
+		s.m.Unlock()
+	}
+	return w, err
+}
+
+// SetMeta makes the database refer to the manifest fd.
+func (s *syncedStorage) SetMeta(fd storage.FileDesc) error {
+	s.m.Lock()
+	w := s.manifest
+	if fd != s.manifestFd {
+		w = nil
+	}
+	s.manifest = nil
+	s.m.Unlock()
+	if w != nil {
+		if err := w.Sync(); err != nil {
+			return err
+		}
+	}
+	return s.Storage.SetMeta(fd)
+}
diff --git a/store/goleveldb/store.go b/store/goleveldb/store.go
index eb5af6f..839f083 100644
--- a/store/goleveldb/store.go
+++ b/store/goleveldb/store.go
@@ -23,6 +23,7 @@ import (
 	"github.com/akhenakh/oureadb/store"
 	"github.com/syndtr/goleveldb/leveldb"
 	"github.com/syndtr/goleveldb/leveldb/opt"
+	"github.com/syndtr/goleveldb/leveldb/storage"
 	"github.com/syndtr/goleveldb/leveldb/util"
 )
 
@@ -34,6 +35,7 @@ const (
 type Store struct {
 	path string
 	opts *opt.Options
+	stor storage.Storage
 	db   *leveldb.DB
 	mo   store.MergeOperator
 
@@ -59,14 +61,20 @@ func New(mo store.MergeOperator, config map[string]interface{}) (store.KVStore,
 		return nil, err
 	}
 
-	db, err := leveldb.OpenFile(path, opts)
+	stor, err := openStorage(path, opts.GetReadOnly())
 	if err != nil {
 		return nil, err
 	}
+	db, err := leveldb.Open(stor, opts)
+	if err != nil {
+		stor.Close()
+		return nil, err
+	}
 
 	rv := Store{
 		path:                path,
 		opts:                opts,
+		stor:                stor,
 		db:                  db,
 		mo:                  mo,
 		defaultReadOptions:  &opt.ReadOptions{},
@@ -77,7 +85,11 @@ func New(mo store.MergeOperator, config map[string]interface{}) (store.KVStore,
 }
 
 func (ldbs *Store) Close() error {
-	return ldbs.db.Close()
+	err := ldbs.db.Close()
+	if serr := ldbs.stor.Close(); err == nil {
+		err = serr
+	}
+	return err
 }
 
 func (ldbs *Store) Reader() (store.KVReader, error) {
-- 
2.43.0


From 05ff33cd7825886485060fb7cfcaba0af8944e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:46 +0000
Subject: [PATCH 33/37] fix: bounding rectangles refused clockwise polygons and
 misjudged those around S2's origin

---
 index/geodata/tools.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index dcf5fd0..15e50f1 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -150,8 +150,8 @@ func GeoDataToRect(gd *GeoData) (s2.Rect, error) {
 		return s2.Rect{}, errors.New("point can't be rect bounded")
 
 	case Geometry_POLYGON:
-		l := LoopFromCoordinates(gd.Geometry.Coordinates)
-		if l == nil || l.IsEmpty() || l.IsFull() || l.ContainsOrigin() {
+		l := LoopFromCoordinatesAndCCW(gd.Geometry.Coordinates, true)
+		if l == nil || l.IsEmpty() || l.IsFull() {
 			return s2.Rect{}, errors.New("invalid polygon")
 		}
 		return l.RectBound(), nil
-- 
2.43.0


From c12a0b541371d23547da7536b98866671d0497ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:06 +0000
Subject: [PATCH 34/37] fix: non finite coordinates made coverings, bounds and
 loops panic

---
 index/geodata/loop.go  | 18 ++++++++++++++++--
 index/geodata/tools.go |  8 +++++++-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/index/geodata/loop.go b/index/geodata/loop.go
index 2f6a818..e904a4d 100644
--- a/index/geodata/loop.go
+++ b/index/geodata/loop.go
@@ -1,6 +1,10 @@
 package geodata
 
-import "github.com/golang/geo/s2"
+import (
+	"math"
+
+	"github.com/golang/geo/s2"
+)
 
 // LoopFromCoordinates creates a LoopFence from a list of lng lat
 func LoopFromCoordinates(c []float64) *s2.Loop {
@@ -10,7 +14,7 @@ func LoopFromCoordinates(c []float64) *s2.Loop {
 // LoopFromCoordinatesAndCCW creates a LoopFence from a list of lng lat
 // if checkCCW is true also try to fix CCW
 func LoopFromCoordinatesAndCCW(c []float64, checkCCW bool) *s2.Loop {
-	if len(c)%2 != 0 || len(c) < 2*3 {
+	if len(c)%2 != 0 || len(c) < 2*3 || !finite(c) {
 		return nil
 	}
 	points := make([]s2.Point, 0, len(c)/2)
@@ -41,3 +45,13 @@ func LoopFromCoordinatesAndCCW(c []float64, checkCCW bool) *s2.Loop {
 	}
 	return loop
 }
+
+// finite tells if there is no NaN nor infinity in c
+func finite(c []float64) bool {
+	for _, x := range c {
+		if math.IsNaN(x) || math.IsInf(x, 0) {
+			return false
+		}
+	}
+	return true
+}
diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 15e50f1..7fe9de3 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -62,13 +62,19 @@ func checkGeometry(gd *GeoData) error {
 		if len(g.Coordinates) < 2 {
 			return errors.New("invalid coordinates count for point")
 		}
+		if !finite(g.Coordinates[:2]) {
+			return errors.New("invalid non finite coordinates")
+		}
 		return nil
 	}
+	if !finite(g.Coordinates) {
+		return errors.New("invalid non finite coordinates")
+	}
 	if len(g.Coordinates)%2 != 0 {
 		return errors.New("invalid odd coordinates number")
 	}
 	for _, part := range g.Geometries {
-		if part == nil || len(part.Coordinates)%2 != 0 {
+		if part == nil || len(part.Coordinates)%2 != 0 || !finite(part.Coordinates) {
 			return errors.New("invalid geometry part")
 		}
 	}
-- 
2.43.0


From c6247b040492da777a0fa1fa5468d21ba00c9233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:09 +0000
Subject: [PATCH 35/37] fix: rect queries missed cells crossed by a thin rect

---
 index/s2pointidx.go | 2 +-
 index/s2timeidx.go  | 2 +-
 index/tools.go      | 9 +++++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index dc8702f..b67fb4c 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -206,7 +206,7 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]GeoID, error) {
 	rect := rectFromCorners(s2.LatLngFromDegrees(urlat, urlng), s2.LatLngFromDegrees(bllat, bllng))
 	coverer := &s2.RegionCoverer{MaxLevel: 14, MaxCells: 8}
-	cu := coverer.Covering(rect)
+	cu := coverer.Covering(rectRegion{rect})
 
 	var res []GeoID
 
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 3c9cc5e..7df25ce 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -94,7 +94,7 @@ func (idx *S2FlatTimeIdx) GeoTimeIdsRadiusQuery(from time.Time, to time.Time, la
 func (idx *S2FlatTimeIdx) GeoTimeIdsRectQuery(from time.Time, to time.Time, urlat, urlng, bllat, bllng float64) ([]GeoID, error) {
 	rect := rectFromCorners(s2.LatLngFromDegrees(urlat, urlng), s2.LatLngFromDegrees(bllat, bllng))
 	coverer := &s2.RegionCoverer{MinLevel: idx.level, MaxLevel: idx.level}
-	cu := coverer.Covering(rect)
+	cu := coverer.Covering(rectRegion{rect})
 	return idx.GeoTimeIdsAtCells(cu, from, to)
 }
 
diff --git a/index/tools.go b/index/tools.go
index e315cc9..12050dc 100644
--- a/index/tools.go
+++ b/index/tools.go
@@ -53,3 +53,12 @@ func rectFromCorners(ur, bl s2.LatLng) s2.Rect {
 	}
 	return rect
 }
+
+// rectRegion is a rect whose covers miss no cell, the edges of a cell going
+// west are overlooked by Rect.IntersectsCell
+type rectRegion struct{ s2.Rect }
+
+// IntersectsCell may also be true for a cell next to the rect
+func (r rectRegion) IntersectsCell(c s2.Cell) bool {
+	return r.Rect.Intersects(c.RectBound())
+}
-- 
2.43.0


From c2504584c468aac5da522aa5fac6f4971c88c5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:51 +0000
Subject: [PATCH 36/37] fix: goleveldb: a batch or compaction refused by a full
 disk blocked Close and every later write

---
 store/goleveldb/store.go | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/store/goleveldb/store.go b/store/goleveldb/store.go
index 839f083..260787f 100644
--- a/store/goleveldb/store.go
+++ b/store/goleveldb/store.go
@@ -39,7 +39,7 @@ type Store struct {
 	db   *leveldb.DB
 	mo   store.MergeOperator
 
-	// merges read then write: they exclude any other batch meanwhile
+	// merges and Compact read then write: they exclude any other batch meanwhile
 	mergeMutex sync.RWMutex
 
 	defaultWriteOptions *opt.WriteOptions
@@ -56,7 +56,9 @@ func New(mo store.MergeOperator, config map[string]interface{}) (store.KVStore,
 		return nil, os.ErrInvalid
 	}
 
-	opts, err := applyConfig(&opt.Options{}, config)
+	// a transaction that can't be opened keeps the write lock for ever: batches
+	// larger than the write buffer go through the journal as any other
+	opts, err := applyConfig(&opt.Options{DisableLargeBatchTransaction: true}, config)
 	if err != nil {
 		return nil, err
 	}
@@ -115,11 +117,10 @@ func (ldbs *Store) CompactWithBatchSize(batchSize int) error {
 	// workaround for github issue #374 - remove DictionaryTerm keys with count=0
 	batch := &leveldb.Batch{}
 	for {
-		t, err := ldbs.db.OpenTransaction()
-		if err != nil {
-			return err
-		}
-		iter := t.NewIterator(util.BytesPrefix([]byte("d")), ldbs.defaultReadOptions)
+		// no batch may be executed in between, a leveldb transaction would do as
+		// well but keeps the write lock for ever when it can't be opened
+		ldbs.mergeMutex.Lock()
+		iter := ldbs.db.NewIterator(util.BytesPrefix([]byte("d")), ldbs.defaultReadOptions)
 
 		for iter.Next() {
 			if bytes.Equal(iter.Value(), []byte{0}) {
@@ -132,22 +133,18 @@ func (ldbs *Store) CompactWithBatchSize(batchSize int) error {
 		}
 		iter.Release()
 		if iter.Error() != nil {
-			t.Discard()
+			ldbs.mergeMutex.Unlock()
 			return iter.Error()
 		}
 
 		if batch.Len() > 0 {
-			err := t.Write(batch, ldbs.defaultWriteOptions)
-			if err != nil {
-				t.Discard()
-				return err
-			}
-			err = t.Commit()
+			err := ldbs.db.Write(batch, ldbs.defaultWriteOptions)
+			ldbs.mergeMutex.Unlock()
 			if err != nil {
 				return err
 			}
 		} else {
-			t.Discard()
+			ldbs.mergeMutex.Unlock()
 			break
 		}
 		batch.Reset()
-- 
2.43.0


From 881854f5b80de10a460488c554eb4c404941eeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:58 +0000
Subject: [PATCH 37/37] fix: badger: values being fetched for a closed iterator
 outlived the store

---
 store/badger/prefix_iterator.go | 11 +++++++++++
 store/badger/range_iterator.go  |  2 ++
 2 files changed, 13 insertions(+)

diff --git a/store/badger/prefix_iterator.go b/store/badger/prefix_iterator.go
index 9f11637..2f3aa8f 100644
--- a/store/badger/prefix_iterator.go
+++ b/store/badger/prefix_iterator.go
@@ -14,6 +14,7 @@ type PrefixIterator struct {
 
 // Seek advance the iterator to the specified key
 func (i *PrefixIterator) Seek(key []byte) {
+	waitValue(i.iterator)
 	if bytes.Compare(key, i.prefix) < 0 {
 		i.iterator.Seek(i.prefix)
 		return
@@ -55,6 +56,16 @@ func (i *PrefixIterator) Valid() bool {
 
 // Close closes the current iterator and commit its transaction
 func (i *PrefixIterator) Close() error {
+	waitValue(i.iterator)
 	i.iterator.Close()
 	return nil
 }
+
+// waitValue waits for the value of the current item: badger fetches it in a
+// goroutine, which it forgets on Seek and Close, and which would then wait for
+// ever for the files of a store being closed
+func waitValue(it *badger.Iterator) {
+	if it.Valid() {
+		_ = it.Item().Value(nil)
+	}
+}
diff --git a/store/badger/range_iterator.go b/store/badger/range_iterator.go
index 9f7f2d9..c3bbd18 100644
--- a/store/badger/range_iterator.go
+++ b/store/badger/range_iterator.go
@@ -15,6 +15,7 @@ type RangeIterator struct {
 
 // Seek advance the iterator to the specified key
 func (i *RangeIterator) Seek(key []byte) {
+	waitValue(i.iterator)
 	if bytes.Compare(key, i.start) < 0 {
 		i.iterator.Seek(i.start)
 		return
@@ -68,6 +69,7 @@ func (i *RangeIterator) Valid() bool {
 
 // Close closes the current iterator and commit its transaction
 func (i *RangeIterator) Close() error {
+	waitValue(i.iterator)
 	i.iterator.Close()
 	return nil
 }
-- 
2.43.0

