From 0476177de05568643ecd400242915b955b8e59aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:23 +0000
Subject: [PATCH 01/29] fix: hangover -export crashed serving on a nil listener

---
 cmd/hangover/hangover.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/hangover/hangover.go b/cmd/hangover/hangover.go
index 97fbc93..94aa991 100644
--- a/cmd/hangover/hangover.go
+++ b/cmd/hangover/hangover.go
@@ -54,7 +54,7 @@ func main() {
 		handler.Stats.Log("listen", "addr", addr)
 	}
 
-	if !benchMode {
+	if listener != nil {
 		go func() {
 			defer close(done)
 			http.Serve(listener, handler)
-- 
2.43.0


From 5219ca0ffa2ed96d540736473c6664e5f5307351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:48 +0000
Subject: [PATCH 02/29] fix: exporting an index always failed on the
 unencodable RenderFlags.Stats

---
 internal/viewer/fallback.go | 2 +-
 internal/viewer/html.go     | 2 +-
 internal/viewer/viewer.go   | 6 +-----
 3 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/viewer/fallback.go b/internal/viewer/fallback.go
index a638e3e..9be0639 100644
--- a/internal/viewer/fallback.go
+++ b/internal/viewer/fallback.go
@@ -40,7 +40,7 @@ func (viewer *Viewer) htmlFallback(w http.ResponseWriter, r *http.Request) (sent
 		Progress: progress,
 	})
 	if err != nil {
-		viewer.RenderFlags.Stats.LogError("render fallback", err)
+		viewer.Stats.LogError("render fallback", err)
 	}
 
 	return true
diff --git a/internal/viewer/html.go b/internal/viewer/html.go
index 46d3bd9..cfb833b 100644
--- a/internal/viewer/html.go
+++ b/internal/viewer/html.go
@@ -471,6 +471,6 @@ func (viewer *Viewer) htmlEntity(w http.ResponseWriter, r *http.Request) {
 	w.WriteHeader(http.StatusOK)
 	err := entityTemplate.Execute(w, context)
 	if err != nil {
-		viewer.RenderFlags.Stats.LogError("render entity", err)
+		viewer.Stats.LogError("render entity", err)
 	}
 }
diff --git a/internal/viewer/viewer.go b/internal/viewer/viewer.go
index d95647f..7fa0647 100644
--- a/internal/viewer/viewer.go
+++ b/internal/viewer/viewer.go
@@ -57,9 +57,6 @@ type RenderFlags struct {
 	StrictCSP   bool // use strict content-security-policy for images and media by only allowing content from public uris
 	HTMLRender  bool
 	ImageRender bool
-
-	// Stats holds the status to use for logging
-	Stats *stats.Stats
 }
 
 func (rf RenderFlags) PublicURIS() (public []string) {
@@ -67,8 +64,7 @@ func (rf RenderFlags) PublicURIS() (public []string) {
 	for _, raw := range text.Splitter(",\n")(rf.PublicURL) {
 		url, err := url.Parse(strings.TrimSpace(raw))
 		if err != nil {
-			rf.Stats.LogError("parse url", err)
-			continue
+			continue // not a valid url
 		}
 
 		url.Scheme = "http"
-- 
2.43.0


From 6e7824a8a600f3fe34a52dd3dcedf81d94764ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:48 +0000
Subject: [PATCH 03/29] fix: json api continued into the handler while data was
 still loading

---
 internal/viewer/fallback.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/viewer/fallback.go b/internal/viewer/fallback.go
index 9be0639..6bdb854 100644
--- a/internal/viewer/fallback.go
+++ b/internal/viewer/fallback.go
@@ -71,5 +71,5 @@ func (viewer *Viewer) jsonFallback(w http.ResponseWriter, r *http.Request) (sent
 		Progress: progress,
 	})
 
-	return
+	return true
 }
-- 
2.43.0


From 1779482fd920f2aa042f8f1a8524d67345013205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:48 +0000
Subject: [PATCH 04/29] fix: on-disk bundle storage lost the children of
 top-level entities

---
 internal/sparkl/storages/disk.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/sparkl/storages/disk.go b/internal/sparkl/storages/disk.go
index f38f40e..7c4013d 100644
--- a/internal/sparkl/storages/disk.go
+++ b/internal/sparkl/storages/disk.go
@@ -201,12 +201,10 @@ func (ds *Disk) Get(parentPathIndex int) traversal.Iterator[LabelWithParent] {
 			var uri LabelWithParent
 			var err error
 
-			if parentPathIndex > 0 {
+			if parentPathIndex >= 0 {
 				err = ds.decode(it.Value(), func(se *sEntity) error {
 					uri.Label = se.URI
-					if parentPathIndex != -1 {
-						uri.Parent = se.Path[parentPathIndex]
-					}
+					uri.Parent = se.Path[parentPathIndex]
 					return nil
 				})
 			} else {
-- 
2.43.0


From 9a0b9177f67e65187b35bb448a28b00678e9617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:20 +0000
Subject: [PATCH 05/29] fix: errors storing entities and field values were lost
 while extracting bundles

---
 internal/sparkl/context.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index 3e292ff..b34f4d1 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -166,7 +166,9 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 				path := paths.Datum()
 				nodes := path.Nodes
 				triples := path.Triples
-				storage.Add(nodes[entityURIIndex], nodes, triples)
+				if err := storage.Add(nodes[entityURIIndex], nodes, triples); err != nil {
+					return err
+				}
 			}
 
 			return paths.Err()
@@ -187,7 +189,7 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 				for paths.Next() {
 					path := paths.Datum()
 
-					err = storage.AddFieldValue(path.Nodes[entityURIIndex], field.MachineName(), path.Value(), path.Language, path.Nodes, path.Triples)
+					err := storage.AddFieldValue(path.Nodes[entityURIIndex], field.MachineName(), path.Value(), path.Language, path.Nodes, path.Triples)
 					if err != storages.ErrNoEntity {
 						context.reportError(err)
 					}
-- 
2.43.0


From b3a14186eba463a12d787fb57776ea3732969788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:42 +0000
Subject: [PATCH 06/29] fix: bundle storages were not closed, and errors
 finalizing them were lost

---
 internal/sparkl/context.go | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index b34f4d1..170202d 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -76,7 +76,8 @@ type Context struct {
 	Engine       storages.BundleEngine
 	err          error          // error that occurred (if any)
 	Index        *igraph.Index  // index being used
-	closers      chan io.Closer // what to close when done
+	closers      []io.Closer    // what to close when done
+	closersLock  sync.Mutex     // protects closers
 	extractWait  sync.WaitGroup // waiting on extracting entities in all bundles
 	childAddWait sync.WaitGroup // loading child entities wait
 	errOnce      sync.Once      // to set the error
@@ -89,7 +90,6 @@ type Context struct {
 // Multiple calls to Open are invalid.
 func (context *Context) Open() {
 	context.extractWait.Add(1)
-	context.closers = make(chan io.Closer)
 }
 
 // Wait signals this context that no more bundles will be loaded.
@@ -105,17 +105,17 @@ func (context *Context) Wait() error {
 
 // Close closes this context
 func (context *Context) Close() (err error) {
-	for {
-		select {
-		case closer := <-context.closers:
-			cErr := closer.Close()
-			if err == nil {
-				err = cErr
-			}
-		default:
-			return nil
+	context.closersLock.Lock()
+	defer context.closersLock.Unlock()
+
+	for _, closer := range context.closers {
+		cErr := closer.Close()
+		if err == nil {
+			err = cErr
 		}
 	}
+	context.closers = nil
+	return err
 }
 
 // reportError stores an error in this context
@@ -146,6 +146,11 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 		return nil
 	}
 
+	// tell the storage to be closed on a call to Close()
+	context.closersLock.Lock()
+	context.closers = append(context.closers, storage)
+	context.closersLock.Unlock()
+
 	go func() {
 		defer onFinish()
 		defer context.extractWait.Done()
@@ -212,10 +217,11 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 			context.reportError(err)
 		}
 
-		context.childAddWait.Add(len(cstorages))
+		context.childAddWait.Add(1)
 
 		// stage 4: register all the child entities
 		go func() {
+			defer context.childAddWait.Done()
 			context.extractWait.Wait()
 
 			var wg sync.WaitGroup
@@ -224,9 +230,10 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 				wg.Add(1)
 				go func(cstorage storages.BundleStorage, bundle *pathbuilder.Bundle) {
 					defer wg.Done()
-					defer context.childAddWait.Done()
 
 					children := cstorage.Get(entityURIIndex)
+					defer children.Close()
+
 					for children.Next() {
 						child := children.Datum()
 						err := storage.AddChild(child.Parent, bundle.MachineName(), child.Label)
@@ -239,10 +246,7 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 			}
 
 			wg.Wait()
-			storage.Finalize() // no more writing!
-
-			// tell the storage to be closed on a call to Close()
-			context.closers <- storage
+			context.reportError(storage.Finalize()) // no more writing!
 		}()
 	}()
 
-- 
2.43.0


From 4fe0967f79e74a72fb35903fa686a21f74049cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:03 +0000
Subject: [PATCH 07/29] fix: progress counters raced and could run backwards

---
 internal/sparkl/context.go | 10 +++++++---
 internal/stats/status.go   | 15 +++++----------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index 170202d..02fcac1 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -43,12 +43,16 @@ func StoreBundles(bundles []*pathbuilder.Bundle, index *igraph.Index, engine sto
 	st.SetCT(0, total)
 
 	// update the counter every time we finish a bundle
-	var counter atomic.Int64
+	var counter int
+	var counterLock sync.Mutex
 	storages := make([]storages.BundleStorage, len(bundles))
 	for i := range storages {
 		storages[i] = context.Store(bundles[i], func() {
-			current := int(counter.Add(1))
-			st.SetCT(current, total)
+			counterLock.Lock()
+			defer counterLock.Unlock()
+
+			counter++
+			st.SetCT(counter, total)
 		})
 	}
 	err := context.Wait()
diff --git a/internal/stats/status.go b/internal/stats/status.go
index d6ca505..883335b 100644
--- a/internal/stats/status.go
+++ b/internal/stats/status.go
@@ -361,22 +361,17 @@ func (st *Stats) SetCT(current, total int) {
 		return
 	}
 
-	// update the process and make a copy
-	var progress string
-
 	defer st.onUpdate()
 
 	st.m.Lock()
-	{
-		st.current.Current = current
-		st.current.Total = total
-		progress = st.current.Progress()
-	}
-	st.m.Unlock()
+	defer st.m.Unlock()
+
+	st.current.Current = current
+	st.current.Total = total
 
 	// and write out the rewritable
 	if st.rewritable != nil {
-		st.rewritable.Write(progress)
+		st.rewritable.Write(st.current.Progress())
 	}
 }
 
-- 
2.43.0


From 0927746866be4092a7b83847100186d48491a96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:20 +0000
Subject: [PATCH 08/29] fix: storage errors while indexing triples were
 silently dropped

---
 internal/sparkl/index.go                   | 16 +++++++++++----
 internal/triplestore/igraph/engine_disk.go |  5 +++++
 internal/triplestore/igraph/index.go       | 24 +++++++++++++---------
 internal/triplestore/imap/imap.go          |  8 ++++++--
 4 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/internal/sparkl/index.go b/internal/sparkl/index.go
index 0c32f60..2db2df3 100644
--- a/internal/sparkl/index.go
+++ b/internal/sparkl/index.go
@@ -192,7 +192,9 @@ func indexSameAs(source Source, index *igraph.Index, sameAsPredicates []impl.Lab
 			return 0, tok.Err
 		case !tok.HasDatum:
 			if _, ok := sameAss[tok.Predicate]; ok {
-				index.MarkIdentical(tok.Subject, tok.Object)
+				if err := index.MarkIdentical(tok.Subject, tok.Object); err != nil {
+					return 0, err
+				}
 			}
 		}
 	}
@@ -236,7 +238,9 @@ func indexInverseOf(source Source, index *igraph.Index, inversePredicates []impl
 			return tok.Err
 		case !tok.HasDatum:
 			if _, ok := inverses[tok.Predicate]; ok {
-				index.MarkInverse(tok.Subject, tok.Object)
+				if err := index.MarkInverse(tok.Subject, tok.Object); err != nil {
+					return err
+				}
 			}
 		}
 	}
@@ -269,9 +273,13 @@ func indexData(source Source, index *igraph.Index, total int, opts IndexOptions,
 		case tok.Err != nil:
 			return tok.Err
 		case tok.HasDatum:
-			index.AddLangData(tok.Subject, tok.Predicate, tok.Datum, tok.Language)
+			if err := index.AddLangData(tok.Subject, tok.Predicate, tok.Datum, tok.Language); err != nil {
+				return err
+			}
 		case !tok.HasDatum:
-			index.AddTriple(tok.Subject, tok.Predicate, tok.Object)
+			if err := index.AddTriple(tok.Subject, tok.Predicate, tok.Object); err != nil {
+				return err
+			}
 		}
 	}
 }
diff --git a/internal/triplestore/igraph/engine_disk.go b/internal/triplestore/igraph/engine_disk.go
index 3f62471..fb5631a 100644
--- a/internal/triplestore/igraph/engine_disk.go
+++ b/internal/triplestore/igraph/engine_disk.go
@@ -136,6 +136,8 @@ func (tlm *ThreeDiskHash) Add(a, b, c impl.ID, l impl.ID, conflict func(old, new
 		}
 		conflicted = true
 	case leveldberrors.ErrNotFound:
+	default:
+		return false, err
 	}
 	return conflicted, tlm.DB.Put(impl.EncodeIDs(a, b, c), impl.EncodeIDs(l), nil)
 }
@@ -188,6 +190,9 @@ func (tlm *ThreeDiskHash) Has(a, b, c impl.ID) (id impl.ID, ok bool, err error)
 		var invalid impl.ID
 		return invalid, false, nil
 	}
+	if err != nil {
+		return id, false, err
+	}
 
 	err = impl.UnmarshalID(&id, value)
 	if err != nil {
diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index bc3453f..086208c 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -252,10 +252,12 @@ func (index *Index) AddTriple(subject, predicate, object impl.Label) error {
 
 	// forward id
 	id := index.triple.Inc()
-	index.triples.Set(id, IndexTriple{
+	if err := index.triples.Set(id, IndexTriple{
 		Role:  Regular,
 		Items: [3]imap.TripleID{s, p, o},
-	})
+	}); err != nil {
+		return err
+	}
 
 	conflicted, err := index.insert(s.Canonical, p.Canonical, o.Canonical, id)
 	if err != nil {
@@ -272,7 +274,7 @@ func (index *Index) AddTriple(subject, predicate, object impl.Label) error {
 	if ok {
 		// reverse id
 		iid := index.triple.Inc()
-		index.triples.Set(iid, IndexTriple{
+		if err := index.triples.Set(iid, IndexTriple{
 			Role: Inverse,
 			Items: [3]imap.TripleID{
 				{
@@ -288,7 +290,9 @@ func (index *Index) AddTriple(subject, predicate, object impl.Label) error {
 					Literal:   o.Literal,
 				},
 			},
-		})
+		}); err != nil {
+			return err
+		}
 
 		conflicted, err := index.insert(o.Canonical, i, s.Canonical, iid)
 		if err != nil {
@@ -384,21 +388,21 @@ func (index *Index) resolveLabelConflict(old, new impl.ID) (impl.ID, error) {
 
 	// lod the old triple
 	ot, ok, err := index.triples.Get(old)
-	if !ok {
-		return old, errResolveConflictCorrupt
-	}
 	if err != nil {
 		return old, err
 	}
-
-	// load the new triple
-	nt, ok, err := index.triples.Get(new)
 	if !ok {
 		return old, errResolveConflictCorrupt
 	}
+
+	// load the new triple
+	nt, ok, err := index.triples.Get(new)
 	if err != nil {
 		return new, err
 	}
+	if !ok {
+		return old, errResolveConflictCorrupt
+	}
 
 	// use the one with the smaller role
 	if nt.Role < ot.Role {
diff --git a/internal/triplestore/imap/imap.go b/internal/triplestore/imap/imap.go
index 453b861..fa78678 100644
--- a/internal/triplestore/imap/imap.go
+++ b/internal/triplestore/imap/imap.go
@@ -171,8 +171,12 @@ func (mp *IMap) AddNew(label impl.Label) (ids TripleID, old bool, err error) {
 	}
 
 	// store mappings in both directions
-	mp.forward.Set(label, ids)
-	mp.reverse.Set(ids.Literal, label)
+	if err := mp.forward.Set(label, ids); err != nil {
+		return ids, false, err
+	}
+	if err := mp.reverse.Set(ids.Literal, label); err != nil {
+		return ids, false, err
+	}
 
 	// return the id
 	return
-- 
2.43.0


From d7ce7d115e4f85b6d364f525c9fedbdca94f513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:21 +0000
Subject: [PATCH 09/29] fix: closing an index left its language and triple
 storage open

---
 internal/sparkl/storages/disk.go      |  6 +++---
 internal/triplestore/igraph/index.go  | 12 +++++++++++-
 internal/triplestore/imap/map_disk.go |  1 +
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/sparkl/storages/disk.go b/internal/sparkl/storages/disk.go
index 7c4013d..589cbd0 100644
--- a/internal/sparkl/storages/disk.go
+++ b/internal/sparkl/storages/disk.go
@@ -252,11 +252,11 @@ func (ds *Disk) Load(uri impl.Label) (entity wisski.Entity, err error) {
 	return
 }
 
-func (ds *Disk) Close() error {
+func (ds *Disk) Close() (err error) {
 	if ds.DB != nil {
-		ds.DB.Close()
+		err = ds.DB.Close()
 		ds.DB = nil
 		ds.childStorages = nil
 	}
-	return nil
+	return
 }
diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index 086208c..1ce353e 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -577,7 +577,7 @@ func (index *Index) Finalize() error {
 
 // Close closes any storages attached to this storage
 func (index *Index) Close() error {
-	var errors [5]error
+	var errors [7]error
 	errors[0] = index.labels.Close()
 
 	if index.data != nil {
@@ -600,6 +600,16 @@ func (index *Index) Close() error {
 		index.posIndex = nil
 	}
 
+	if index.language != nil {
+		errors[5] = index.language.Close()
+		index.language = nil
+	}
+
+	if index.triples != nil {
+		errors[6] = index.triples.Close()
+		index.triples = nil
+	}
+
 	for _, err := range errors {
 		if err != nil {
 			return err
diff --git a/internal/triplestore/imap/map_disk.go b/internal/triplestore/imap/map_disk.go
index afad4bf..43e13c0 100644
--- a/internal/triplestore/imap/map_disk.go
+++ b/internal/triplestore/imap/map_disk.go
@@ -221,6 +221,7 @@ func (ds *DiskStorage[Key, Value]) Close() error {
 // Count returns the number of objects in this DiskStorage.
 func (ds *DiskStorage[Key, Value]) Count() (count uint64, err error) {
 	it := ds.DB.NewIterator(nil, nil)
+	defer it.Release()
 	for it.Next() {
 		count++
 	}
-- 
2.43.0


From f2cc05ecfadd83a1a54d0733dae4aae49e57e278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:42 +0000
Subject: [PATCH 10/29] fix: errors extracting bundles were lost, leaving an
 empty index

---
 internal/glass/glass.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index df59659..848c066 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -116,11 +116,10 @@ func Create(pathbuilderPath string, nquadsPath string, cacheDir string, flags vi
 
 	// extract the bundles
 	var bundles map[string][]wisski.Entity
-	st.DoStage(stats.StageExtractBundles, func() (err error) {
+	if err := st.DoStage(stats.StageExtractBundles, func() (err error) {
 		bundles, err = sparkl.LoadPathbuilder(&drincw.Pathbuilder, index, bEngine, st)
 		return err
-	})
-	if err != nil {
+	}); err != nil {
 		return drincw, err
 	}
 
-- 
2.43.0


From 3d21e8c708fcd38185c1b9c28d6666af1db85dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:38 +0000
Subject: [PATCH 11/29] fix: export reported success without having written all
 of the data

---
 internal/glass/glass.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index 848c066..ca69021 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -162,14 +162,18 @@ func Export(path string, drincw Glass, st *stats.Stats) (err error) {
 		st.LogError("create export", err)
 		return err
 	}
-	defer f.Close()
+	defer func() {
+		if cErr := f.Close(); cErr != nil && err == nil {
+			st.LogError("close export", cErr)
+			err = cErr
+		}
+	}()
 
 	writer, err := gzip.NewWriterLevel(f, gzip.BestCompression)
 	if err != nil {
 		st.LogError("create gzip writer", err)
 		return err
 	}
-	defer writer.Flush()
 
 	return st.DoStage(stats.StageExportIndex, func() error {
 		counter := &progress.Writer{
@@ -180,6 +184,11 @@ func Export(path string, drincw Glass, st *stats.Stats) (err error) {
 		err = drincw.EncodeTo(gob.NewEncoder(counter))
 		counter.Flush(true)
 
+		// write out any remaining data, and the gzip footer
+		if err == nil {
+			err = writer.Close()
+		}
+
 		if err != nil {
 			st.LogError("encode export", err)
 		}
-- 
2.43.0


From bd1cd3d257f1ec99fefb8f6b5e469d42f1ec92a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:38 +0000
Subject: [PATCH 12/29] fix: import accepted damaged exports without verifying
 their checksum

---
 internal/glass/glass.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index ca69021..8b71493 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -5,6 +5,7 @@ import (
 	"compress/gzip"
 	"encoding/gob"
 	"errors"
+	"io"
 	"os"
 	"runtime/debug"
 
@@ -221,6 +222,10 @@ func Import(path string, st *stats.Stats) (drincw Glass, err error) {
 			Rewritable: *st.Rewritable(),
 		}
 		err = drincw.DecodeFrom(gob.NewDecoder(counter))
+		if err == nil {
+			// read up to the end of the file, to verify the gzip checksum
+			_, err = io.Copy(io.Discard, counter)
+		}
 		counter.Flush(true)
 		if err != nil {
 			st.LogError("decode export", err)
-- 
2.43.0


From b75f7b695b858bd223e39e5240bcc9dfec539937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:42 +0000
Subject: [PATCH 13/29] fix: decoding a damaged stream could crash on an
 implausible element count

---
 pkg/sgob/sgob.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pkg/sgob/sgob.go b/pkg/sgob/sgob.go
index 83ca38f..2895a9f 100644
--- a/pkg/sgob/sgob.go
+++ b/pkg/sgob/sgob.go
@@ -55,6 +55,18 @@ func DecodeValue(decoder *gob.Decoder, value reflect.Value) error {
 	}
 }
 
+// maxPrealloc is the maximum number of elements to allocate before having decoded any
+const maxPrealloc = 1 << 16
+
+// prealloc returns the number of elements to allocate for an object claiming to hold count elements.
+// The claim can not be trusted, because the stream may be damaged.
+func prealloc(count uint64) int {
+	if count > maxPrealloc {
+		return maxPrealloc
+	}
+	return int(count)
+}
+
 func encodeMap(encoder *gob.Encoder, obj reflect.Value) error {
 	// encode the object
 	count := uint64(obj.Len())
@@ -85,9 +97,9 @@ func decodeMap(decoder *gob.Decoder, obj reflect.Value) error {
 	tp := obj.Type().Elem()
 
 	// create a map key and value
-	mp := reflect.MakeMapWithSize(tp, int(count))
+	mp := reflect.MakeMapWithSize(tp, prealloc(count))
 
-	for i := 0; i < int(count); i++ {
+	for i := uint64(0); i < count; i++ {
 		key := reflect.New(tp.Key())
 		value := reflect.New(tp.Elem())
 
@@ -130,14 +142,14 @@ func decodeSlice(decoder *gob.Decoder, obj reflect.Value) error {
 	tp := obj.Type().Elem()
 
 	// create a map key and value
-	slice := reflect.MakeSlice(tp, int(count), int(count))
+	slice := reflect.MakeSlice(tp, 0, prealloc(count))
 
-	for i := 0; i < int(count); i++ {
+	for i := uint64(0); i < count; i++ {
 		value := reflect.New(tp.Elem())
 		if err := DecodeValue(decoder, value); err != nil {
 			return err
 		}
-		slice.Index(i).Set(value.Elem())
+		slice = reflect.Append(slice, value.Elem())
 	}
 
 	obj.Elem().Set(slice)
-- 
2.43.0


From c582babe68dd720117098568ff237c5aac2bbb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:42 +0000
Subject: [PATCH 14/29] fix: import and export crashed without a stats output

---
 internal/stats/status.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/stats/status.go b/internal/stats/status.go
index 883335b..edf6701 100644
--- a/internal/stats/status.go
+++ b/internal/stats/status.go
@@ -57,10 +57,12 @@ func NewStats(w io.Writer) *Stats {
 }
 
 // Rewritable returns the rewritable associated with this status.
-// It is automatically closed at the end of each stage
+// It is automatically closed at the end of each stage.
+//
+// If there is none, returns a rewritable that discards any output.
 func (st *Stats) Rewritable() *progress.Rewritable {
-	if st == nil {
-		return nil
+	if st == nil || st.rewritable == nil {
+		return &progress.Rewritable{Writer: io.Discard}
 	}
 	return st.rewritable
 }
-- 
2.43.0


From 67182ce18f8966e76d7f2e3f4bb460bbe11f73cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:09 +0000
Subject: [PATCH 15/29] fix: exporting sql field tables again duplicated all
 rows

---
 internal/sparkl/exporter/sql.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/sparkl/exporter/sql.go b/internal/sparkl/exporter/sql.go
index fe545a8..65e6c7b 100644
--- a/internal/sparkl/exporter/sql.go
+++ b/internal/sparkl/exporter/sql.go
@@ -159,6 +159,11 @@ func (sql *SQL) createBundleTable(bundle *pathbuilder.Bundle) error {
 
 // CreateFieldTable creates a table for the given field
 func (sql *SQL) CreateFieldTable(bundle *pathbuilder.Bundle, field pathbuilder.Field) error {
+	// drop the table if it already exists
+	if err := sql.exec("DROP TABLE IF EXISTS "+sql.FieldTable(bundle, field)+";", nil); err != nil {
+		return err
+	}
+
 	table := sqlbuilder.CreateTable(sql.FieldTable(bundle, field)).IfNotExists()
 	table.Define(uriColumn, "TEXT")
 	table.Define(valueColumn, "TEXT")
-- 
2.43.0


From d0b147f2a26b44b49deac2a920da835bd21ae18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:20 +0000
Subject: [PATCH 16/29] fix: n2j reported success when writing json or csv
 output failed

---
 cmd/n2j/json.go   | 2 +-
 cmd/n2j/sqlite.go | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/cmd/n2j/json.go b/cmd/n2j/json.go
index 0788e62..b3300d5 100644
--- a/cmd/n2j/json.go
+++ b/cmd/n2j/json.go
@@ -25,7 +25,7 @@ func doJSON(pb *pathbuilder.Pathbuilder, index *igraph.Index, bEngine storages.B
 		st.LogFatal("extract bundles", err)
 	}
 
-	st.DoStage(stats.StageExportJSON, func() error {
+	err = st.DoStage(stats.StageExportJSON, func() error {
 		return json.NewEncoder(os.Stdout).Encode(bundles)
 	})
 	if err != nil {
diff --git a/cmd/n2j/sqlite.go b/cmd/n2j/sqlite.go
index 1461b9f..97f1dc4 100644
--- a/cmd/n2j/sqlite.go
+++ b/cmd/n2j/sqlite.go
@@ -99,7 +99,6 @@ func doCSVTable(db *sql.DB, table string, path string) error {
 
 	// create a writer
 	writer := csv.NewWriter(file)
-	defer writer.Flush()
 
 	// query everything in the table
 	rows, err := db.Query("SELECT * FROM " + table)
@@ -147,5 +146,11 @@ func doCSVTable(db *sql.DB, table string, path string) error {
 	if err := rows.Err(); err != nil {
 		return err
 	}
-	return nil
+
+	// make sure that everything has been written out
+	writer.Flush()
+	if err := writer.Error(); err != nil {
+		return err
+	}
+	return file.Close()
 }
-- 
2.43.0


From 40c0d6907203169bc533900f76e70e74714238fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:20 +0000
Subject: [PATCH 17/29] fix: n2j -mysql exported to an sqlite file, and
 conflicting outputs were ignored

---
 cmd/n2j/n2j.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/n2j/n2j.go b/cmd/n2j/n2j.go
index fc10cc5..0890461 100644
--- a/cmd/n2j/n2j.go
+++ b/cmd/n2j/n2j.go
@@ -44,7 +44,7 @@ func main() {
 
 	if selected > 1 {
 		st.Log("Usage: n2j [-help] [...flags] /path/to/pathbuilder /path/to/nquads")
-		st.LogError("parse arguments", errBothSqliteAndMysql)
+		st.LogFatal("parse arguments", errBothSqliteAndMysql)
 	}
 
 	// find the paths
@@ -121,7 +121,7 @@ func init() {
 	flag.StringVar(&cache, "cache", cache, "During indexing, cache data in the given directory as opposed to memory")
 	flag.StringVar(&sqlite, "sqlite", sqlite, "Export an sqlite database to the given path")
 	flag.StringVar(&csvPath, "csv", csvPath, "Export CSV files at the given path")
-	flag.StringVar(&sqlite, "mysql", mysql, "Export a mysql database. Use a connection string of the form `username:password@host/database`")
+	flag.StringVar(&mysql, "mysql", mysql, "Export a mysql database. Use a connection string of the form `username:password@host/database`")
 
 	flag.StringVar(&sqlSeperator, "sql-seperator", sqlSeperator, "Use seperator on multi-valued fields")
 	flag.BoolVar(&sqlFieldTables, "sql-field-tables", sqlFieldTables, "Store values for fields in seperate tables")
-- 
2.43.0


From 7caf20f963ab827604e7a712e0263df46cb7bb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:32 +0000
Subject: [PATCH 18/29] fix: order of aliases and resolving of uris varied
 between loads

---
 internal/sparkl/cache.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/sparkl/cache.go b/internal/sparkl/cache.go
index fcbba81..c844498 100644
--- a/internal/sparkl/cache.go
+++ b/internal/sparkl/cache.go
@@ -121,7 +121,12 @@ func NewCache(Data map[string][]wisski.Entity, SameAs imap.HashMap[impl.Label, i
 	c.beIndex = Data
 	c.biIndex = make(map[string]map[impl.ID]int, len(c.beIndex))
 	c.ebIndex = make(map[impl.ID]string)
-	for bundle, entities := range c.beIndex {
+
+	c.bundleNames = maps.Keys(c.beIndex)
+	slices.Sort(c.bundleNames)
+
+	for _, bundle := range c.bundleNames {
+		entities := c.beIndex[bundle]
 		c.biIndex[bundle] = make(map[impl.ID]int, len(entities))
 		for i, entity := range entities {
 			id, err := c.uris.Add(entity.URI)
@@ -135,9 +140,6 @@ func NewCache(Data map[string][]wisski.Entity, SameAs imap.HashMap[impl.Label, i
 		}
 	}
 
-	c.bundleNames = maps.Keys(c.beIndex)
-	slices.Sort(c.bundleNames)
-
 	sameAsCount, err := SameAs.Count()
 	if err != nil {
 		return c, err
@@ -204,6 +206,7 @@ func (c Cache) Aliases(uri impl.Label) []impl.Label {
 		}
 		aliases = append(aliases, alias)
 	}
+	slices.Sort(aliases)
 	return aliases
 }
 
-- 
2.43.0


From 6407fb6b6201a1ecfacd00debf15ab2800d14588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:32 +0000
Subject: [PATCH 19/29] fix: triples with an empty literal could not be
 exported as rdf

---
 internal/triplestore/igraph/triple.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/triplestore/igraph/triple.go b/internal/triplestore/igraph/triple.go
index 7e12560..7ae9bea 100644
--- a/internal/triplestore/igraph/triple.go
+++ b/internal/triplestore/igraph/triple.go
@@ -109,7 +109,7 @@ func (triple Triple) Triple(canonical bool) (spo rdf.Triple, err error) {
 		return rdf.Triple{}, err
 	}
 
-	if triple.Datum == "" {
+	if triple.Role != Data {
 		var object string
 		if !canonical {
 			object = string(triple.Object)
-- 
2.43.0


From 6c1110810e6ee175abc340469936bbc9ddb3499b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:16 +0000
Subject: [PATCH 20/29] fix: bundles with unusual identifiers shared or escaped
 their cache directory

---
 internal/sparkl/storages/disk.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/sparkl/storages/disk.go b/internal/sparkl/storages/disk.go
index 589cbd0..e7748cf 100644
--- a/internal/sparkl/storages/disk.go
+++ b/internal/sparkl/storages/disk.go
@@ -1,6 +1,8 @@
 package storages
 
 import (
+	"crypto/sha256"
+	"fmt"
 	"os"
 	"path/filepath"
 	"sync"
@@ -20,7 +22,7 @@ type DiskEngine struct {
 }
 
 func (de DiskEngine) NewStorage(bundle *pathbuilder.Bundle) (BundleStorage, error) {
-	path := filepath.Join(de.Path, bundle.Path.Bundle)
+	path := filepath.Join(de.Path, storageName(bundle))
 
 	if _, err := os.Stat(path); err == nil {
 		if err := os.RemoveAll(path); err != nil {
@@ -40,6 +42,21 @@ func (de DiskEngine) NewStorage(bundle *pathbuilder.Bundle) (BundleStorage, erro
 	}, nil
 }
 
+// storageName returns the name of the directory used to store the given bundle.
+//
+// Identifiers in a pathbuilder are arbitrary strings, they may be empty or contain path separators.
+// To ensure that different bundles never share a directory, and no path outside of the engine is touched, they are hashed.
+func storageName(bundle *pathbuilder.Bundle) string {
+	name := fmt.Sprintf("%q %q", bundle.MachineName(), bundle.Path.Bundle)
+	for _, field := range bundle.ChildFields {
+		name += fmt.Sprintf(" field %q", field.MachineName())
+	}
+	for _, child := range bundle.ChildBundles {
+		name += fmt.Sprintf(" bundle %q", child.MachineName())
+	}
+	return fmt.Sprintf("%x", sha256.Sum256([]byte(name)))
+}
+
 // Disk represents a disk-backed storage
 type Disk struct {
 	DB            *leveldb.DB
-- 
2.43.0


From ef3ecd38d951a2d19da0e060756ec88ead1c3681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:30 +0000
Subject: [PATCH 21/29] fix: triples using an identical or inverse predicate
 were masked out

---
 internal/sparkl/index.go             | 13 ++++++------
 internal/triplestore/igraph/index.go | 30 ++++++++++++++++++++++++----
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/internal/sparkl/index.go b/internal/sparkl/index.go
index 2db2df3..712a972 100644
--- a/internal/sparkl/index.go
+++ b/internal/sparkl/index.go
@@ -49,12 +49,6 @@ func MakeIndex(source Source, predicates Predicates, engine igraph.Engine, opts
 		return nil, err
 	}
 
-	// setup the mask for indexing the data
-	if err := setMask(&index, opts.Mask); err != nil {
-		index.Close()
-		return nil, err
-	}
-
 	// read the "same as" triples first
 	var total int
 	err := st.DoStage(stats.StageScanSameAs, func() (err error) {
@@ -93,6 +87,13 @@ func MakeIndex(source Source, predicates Predicates, engine igraph.Engine, opts
 		return nil, err
 	}
 
+	// setup the mask for indexing the data
+	// this needs to know about all identical and inverse predicates
+	if err := setMask(&index, opts.Mask); err != nil {
+		index.Close()
+		return nil, err
+	}
+
 	// and then read all the other data
 	err = st.DoStage(stats.StageScanTriples, func() error {
 		return indexData(source, &index, total, opts, st)
diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index 1ce353e..7d47d06 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -173,12 +173,34 @@ func (index *Index) Reset(engine Engine) (err error) {
 	return nil
 }
 
-// SetPredicateMask sets the masks for predicates
+// SetPredicateMask sets the masks for predicates.
+// Predicates identical to a masked predicate, and their inverses, are included automatically.
+//
+// It must be called after any calls to MarkIdentical and MarkInverse.
 func (index *Index) SetPredicateMask(predicates map[impl.Label]struct{}) error {
-	return index.setMask(predicates, &index.pMask)
+	if err := index.setMask(predicates, &index.pMask); err != nil {
+		return err
+	}
+
+	// adding a triple also adds it's inverse
+	// so include predicates that only have their inverse in the mask
+	var extra []impl.ID
+	err := index.inverses.Iterate(func(predicate, inverse impl.ID) error {
+		if _, ok := index.pMask[inverse]; ok {
+			extra = append(extra, predicate)
+		}
+		return nil
+	})
+	for _, predicate := range extra {
+		index.pMask[predicate] = struct{}{}
+	}
+	return err
 }
 
-// SetDataMask sets the masks for data
+// SetDataMask sets the masks for data.
+// Predicates identical to a masked predicate are included automatically.
+//
+// It must be called after any calls to MarkIdentical.
 func (index *Index) SetDataMask(predicates map[impl.Label]struct{}) error {
 	return index.setMask(predicates, &index.dMask)
 }
@@ -214,7 +236,7 @@ func (index *Index) addMask(predicate impl.Label, mask map[impl.ID]struct{}) (im
 	}
 
 	// make sure it's contained in the map
-	_, ok = mask[ids.Literal]
+	_, ok = mask[ids.Canonical]
 	return ids, ok, nil
 }
 
-- 
2.43.0


From 3c97ecf1c4ff4e926b494af3ce4d362883dbd387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:27 +0000
Subject: [PATCH 22/29] fix: on-disk bundle storage kept only one path per
 entity

---
 internal/sparkl/storages/disk.go   | 43 +++++++++++++++++++-----------
 internal/sparkl/storages/entity.go |  2 ++
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/internal/sparkl/storages/disk.go b/internal/sparkl/storages/disk.go
index e7748cf..efbe01b 100644
--- a/internal/sparkl/storages/disk.go
+++ b/internal/sparkl/storages/disk.go
@@ -163,9 +163,22 @@ func (ds *Disk) update(uri impl.Label, update func(*sEntity) error) error {
 // Add adds an entity to this BundleSlice
 func (ds *Disk) Add(uri impl.Label, path []impl.Label, triples []igraph.Triple) error {
 	atomic.AddInt64(&ds.count, 1)
+
+	// an entity is added once for every path leading to it
+	// so if it already exists keep the other paths around
+	var others [][]impl.Label
+	err := ds.get(uri, func(se *sEntity) error {
+		others = append(se.Others, se.Path)
+		return nil
+	})
+	if err != nil && err != ErrNoEntity {
+		return err
+	}
+
 	return ds.put(func(se *sEntity) error {
 		se.URI = uri
 		se.Path = path
+		se.Others = others
 		se.Triples = triples
 		se.Fields = make(map[string][]wisski.FieldValue)
 		se.Children = make(map[string][]impl.Label)
@@ -215,25 +228,25 @@ func (ds *Disk) Get(parentPathIndex int) traversal.Iterator[LabelWithParent] {
 		defer it.Release()
 
 		for it.Next() {
-			var uri LabelWithParent
-			var err error
-
-			if parentPathIndex >= 0 {
-				err = ds.decode(it.Value(), func(se *sEntity) error {
-					uri.Label = se.URI
-					uri.Parent = se.Path[parentPathIndex]
-					return nil
-				})
-			} else {
-				uri.Label = impl.Label(it.Key())
-			}
-
+			// find all the paths leading to this entity
+			var paths [][]impl.Label
+			err := ds.decode(it.Value(), func(se *sEntity) error {
+				paths = append(se.Others, se.Path)
+				return nil
+			})
 			if !sender.YieldError(err) {
 				return
 			}
 
-			if !sender.Yield(uri) {
-				return
+			for _, path := range paths {
+				uri := LabelWithParent{Label: impl.Label(it.Key())}
+				if parentPathIndex >= 0 {
+					uri.Parent = path[parentPathIndex]
+				}
+
+				if !sender.Yield(uri) {
+					return
+				}
 			}
 		}
 
diff --git a/internal/sparkl/storages/entity.go b/internal/sparkl/storages/entity.go
index ea14068..ffab46d 100644
--- a/internal/sparkl/storages/entity.go
+++ b/internal/sparkl/storages/entity.go
@@ -29,12 +29,14 @@ type sEntity struct {
 	Children map[string][]impl.Label // child entities
 	URI      impl.Label
 	Path     []impl.Label
+	Others   [][]impl.Label // paths of previous additions of this entity, if any
 	Triples  []igraph.Triple
 }
 
 // Reset resets this stored entity
 func (s *sEntity) Reset() {
 	s.Path = nil
+	s.Others = nil
 	s.Children = nil
 	s.Triples = nil
 	s.Fields = nil
-- 
2.43.0


From 13d29de995219c12439f9816a94cf37c2c9980f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:26 +0000
Subject: [PATCH 23/29] fix: closing an index crashed queries that were still
 winding down

Iterators over paths read from the index in goroutines of their own. When a
load failed, or a query was abandoned, these were not stopped (or still
running) when the index was closed, and dereferenced a nil storage.
---
 internal/triplestore/igraph/index.go |  5 ++
 internal/triplestore/igraph/paths.go | 74 ++++++++++++++++++++++++++--
 2 files changed, 74 insertions(+), 5 deletions(-)

diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index 7d47d06..2c3c2b8 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -39,6 +39,9 @@ type Index struct {
 	stats     Stats
 	finalized atomic.Bool
 	triple    impl.ID // id for a given triple
+
+	queriesLock sync.Mutex          // protects queries
+	queries     map[*query]struct{} // queries that are still running
 }
 
 // Stats returns statistics from this graph
@@ -599,6 +602,8 @@ func (index *Index) Finalize() error {
 
 // Close closes any storages attached to this storage
 func (index *Index) Close() error {
+	index.closeQueries()
+
 	var errors [7]error
 	errors[0] = index.labels.Close()
 
diff --git a/internal/triplestore/igraph/paths.go b/internal/triplestore/igraph/paths.go
index 00248be..e0cc610 100644
--- a/internal/triplestore/igraph/paths.go
+++ b/internal/triplestore/igraph/paths.go
@@ -3,6 +3,7 @@ package igraph
 import (
 	"errors"
 	"fmt"
+	"io"
 	"strings"
 
 	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
@@ -61,12 +62,75 @@ func (index *Index) PathsStarting(predicate, object impl.Label) (*Paths, error)
 func (index *Index) newQuery(source func(sender traversal.Generator[element])) (q *Paths) {
 	q = &Paths{
 		index:    index,
-		elements: traversal.New(source),
+		elements: iterate(index, source),
 		size:     invalidSize,
 	}
 	return q
 }
 
+// query is an iterator reading from an index
+type query struct {
+	iterator io.Closer
+	done     chan struct{} // closed once the iterator no longer accesses the index
+}
+
+// iterate is like [traversal.New], but keeps track of the iterator until source has returned.
+// This ensures that the index is not accessed after it has been closed.
+func iterate[T any](index *Index, source func(sender traversal.Generator[T])) traversal.Iterator[T] {
+	index.queriesLock.Lock()
+	defer index.queriesLock.Unlock()
+
+	q := &query{done: make(chan struct{})}
+	it := traversal.New(func(sender traversal.Generator[T]) {
+		defer func() {
+			index.queriesLock.Lock()
+			defer index.queriesLock.Unlock()
+
+			delete(index.queries, q)
+			close(q.done)
+		}()
+		source(sender)
+	})
+	q.iterator = it
+
+	if index.queries == nil {
+		index.queries = make(map[*query]struct{})
+	}
+	index.queries[q] = struct{}{}
+	return it
+}
+
+// connect is like [traversal.Connect], but uses [iterate].
+func connect(index *Index, elements traversal.Iterator[element], f func(subject element, sender traversal.Generator[element]) (ok bool)) traversal.Iterator[element] {
+	return iterate(index, func(sender traversal.Generator[element]) {
+		defer elements.Close()
+
+		for elements.Next() {
+			if !f(elements.Datum(), sender) {
+				break
+			}
+		}
+		sender.YieldError(elements.Err())
+	})
+}
+
+// closeQueries cancels all queries that are still running, and waits for them to finish.
+func (index *Index) closeQueries() {
+	index.queriesLock.Lock()
+	queries := make([]*query, 0, len(index.queries))
+	for q := range index.queries {
+		queries = append(queries, q)
+	}
+	index.queriesLock.Unlock()
+
+	for _, q := range queries {
+		q.iterator.Close()
+	}
+	for _, q := range queries {
+		<-q.done
+	}
+}
+
 // Connected extends the sets of in this PathSet by those which
 // continue the existing paths using an edge labeled with predicate.
 func (set *Paths) Connected(predicate impl.Label) error {
@@ -82,7 +146,7 @@ var errAborted = errors.New("paths: aborted")
 
 // expand expands the nodes in this query by adding a link to each element found in the index
 func (set *Paths) expand(p impl.ID) error {
-	set.elements = traversal.Connect(set.elements, func(subject element, sender traversal.Generator[element]) (ok bool) {
+	set.elements = connect(set.index, set.elements, func(subject element, sender traversal.Generator[element]) (ok bool) {
 		err := set.index.psoIndex.Fetch(p, subject.Node, func(object impl.ID, l impl.ID) error {
 			if !sender.Yield(element{
 				Node:    object,
@@ -120,7 +184,7 @@ func (set *Paths) Ending(predicate, object impl.Label) error {
 
 // restrict restricts the set of nodes by those mapped in the index
 func (set *Paths) restrict(p, o impl.ID) error {
-	set.elements = traversal.Connect(set.elements, func(subject element, sender traversal.Generator[element]) bool {
+	set.elements = connect(set.index, set.elements, func(subject element, sender traversal.Generator[element]) bool {
 		tid, has, err := set.index.posIndex.Has(p, o, subject.Node)
 		if err != nil {
 			return sender.YieldError(err)
@@ -157,8 +221,8 @@ func (set *Paths) Size() (int, error) {
 // Paths returns an iterator over paths contained in this Paths.
 // It may only be called once, afterwards further calls may be invalid.
 func (set *Paths) Paths() traversal.Iterator[Path] {
-	return traversal.New(func(generator traversal.Generator[Path]) {
-		defer generator.Return()
+	return iterate(set.index, func(generator traversal.Generator[Path]) {
+		defer set.elements.Close()
 
 		for set.elements.Next() {
 			element := set.elements.Datum()
-- 
2.43.0


From 5f4c7c6cd135bc49139b163b5406b6d9f07ffc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:56 +0000
Subject: [PATCH 24/29] fix: on-disk storage left out fields and children
 without values

Entities loaded from disk did not have the same shape as those loaded in memory,
so that the json api and n2j rendered them differently.
---
 internal/sparkl/storages/disk.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/sparkl/storages/disk.go b/internal/sparkl/storages/disk.go
index efbe01b..2f0c95d 100644
--- a/internal/sparkl/storages/disk.go
+++ b/internal/sparkl/storages/disk.go
@@ -38,6 +38,7 @@ func (de DiskEngine) NewStorage(bundle *pathbuilder.Bundle) (BundleStorage, erro
 	return &Disk{
 		DB: db,
 
+		bundle:        bundle,
 		childStorages: make(map[string]BundleStorage, len(bundle.ChildBundles)),
 	}, nil
 }
@@ -60,6 +61,7 @@ func storageName(bundle *pathbuilder.Bundle) string {
 // Disk represents a disk-backed storage
 type Disk struct {
 	DB            *leveldb.DB
+	bundle        *pathbuilder.Bundle
 	childStorages map[string]BundleStorage
 	count         int64
 	l             sync.RWMutex // protects modifying data on disk
@@ -264,10 +266,21 @@ func (ds *Disk) Load(uri impl.Label) (entity wisski.Entity, err error) {
 		entity.URI = se.URI
 		entity.Path = se.Path
 		entity.Triples = se.Triples
-		entity.Fields = se.Fields
+
+		// like in memory, all fields and children are there, even when empty
+		entity.Fields = make(map[string][]wisski.FieldValue, len(ds.bundle.ChildFields))
+		for _, field := range ds.bundle.ChildFields {
+			entity.Fields[field.MachineName()] = []wisski.FieldValue{}
+		}
+		for field, values := range se.Fields {
+			entity.Fields[field] = values
+		}
 
 		// load all the child entities
-		entity.Children = make(map[string][]wisski.Entity)
+		entity.Children = make(map[string][]wisski.Entity, len(ds.bundle.ChildBundles))
+		for _, bundle := range ds.bundle.ChildBundles {
+			entity.Children[bundle.MachineName()] = []wisski.Entity{}
+		}
 		for bundle, value := range se.Children {
 			entity.Children[bundle] = make([]wisski.Entity, len(value))
 			for i, uri := range value {
-- 
2.43.0


From ba7c8f96782384190ace32d2b5b8e3c37e655618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:56 +0000
Subject: [PATCH 25/29] fix: importing an export turned empty fields and
 children into nil

A server that imported an export answered null where the one that loaded the
data directly answered with an empty list.
---
 internal/sparkl/cache.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/internal/sparkl/cache.go b/internal/sparkl/cache.go
index c844498..348ab7e 100644
--- a/internal/sparkl/cache.go
+++ b/internal/sparkl/cache.go
@@ -91,10 +91,41 @@ func (cache *Cache) DecodeFrom(decoder *gob.Decoder) error {
 		}
 	}
 
+	for _, entities := range cache.beIndex {
+		fillEmpty(entities)
+	}
+
 	cache.uris = &imap.IMap{}
 	return cache.uris.Reset(&cache.engine)
 }
 
+// fillEmpty replaces nil fields and children of the given entities by empty ones.
+// Encoding with gob does not distinguish the two, but they are rendered differently.
+func fillEmpty(entities []wisski.Entity) {
+	for i := range entities {
+		entity := &entities[i]
+
+		if entity.Fields == nil {
+			entity.Fields = make(map[string][]wisski.FieldValue)
+		}
+		for field, values := range entity.Fields {
+			if values == nil {
+				entity.Fields[field] = []wisski.FieldValue{}
+			}
+		}
+
+		if entity.Children == nil {
+			entity.Children = make(map[string][]wisski.Entity)
+		}
+		for bundle, children := range entity.Children {
+			if children == nil {
+				entity.Children[bundle] = []wisski.Entity{}
+			}
+			fillEmpty(children)
+		}
+	}
+}
+
 func (cache Cache) Entities(bundle_machine string) []wisski.Entity {
 	return cache.beIndex[bundle_machine]
 }
-- 
2.43.0


From a59d3c309c349a74f292eaa67e73eebf59c43e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:35 +0000
Subject: [PATCH 26/29] fix: blank nodes were confused with uris

The label of a blank node was its bare id. It shared this label with the
uri spelled alike, and rdf downloads contained it as a relative uri.
---
 internal/sparkl/index_source.go       |  2 +-
 internal/triplestore/igraph/triple.go | 12 ++++++++++--
 internal/triplestore/impl/impl.go     | 15 +++++++++++++++
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/internal/sparkl/index_source.go b/internal/sparkl/index_source.go
index c81e5b8..c0f1559 100644
--- a/internal/sparkl/index_source.go
+++ b/internal/sparkl/index_source.go
@@ -128,7 +128,7 @@ func asURILike(value quad.Value) (uri impl.Label, ok bool) {
 	case quad.IRI:
 		return impl.Label(string(datum)), true
 	case quad.BNode:
-		return impl.Label(string(datum)), true
+		return impl.BlankLabel(string(datum)), true
 	default:
 		return "", false
 	}
diff --git a/internal/triplestore/igraph/triple.go b/internal/triplestore/igraph/triple.go
index 7ae9bea..a0f33b0 100644
--- a/internal/triplestore/igraph/triple.go
+++ b/internal/triplestore/igraph/triple.go
@@ -99,7 +99,11 @@ func (triple Triple) Triple(canonical bool) (spo rdf.Triple, err error) {
 		predicate = string(triple.SPredicate)
 	}
 
-	spo.Subj, err = rdf.NewIRI(subject)
+	if id, ok := impl.Label(subject).Blank(); ok {
+		spo.Subj, err = rdf.NewBlank(id)
+	} else {
+		spo.Subj, err = rdf.NewIRI(subject)
+	}
 	if err != nil {
 		return rdf.Triple{}, err
 	}
@@ -117,7 +121,11 @@ func (triple Triple) Triple(canonical bool) (spo rdf.Triple, err error) {
 			object = string(triple.SObject)
 		}
 
-		spo.Obj, err = rdf.NewIRI(object)
+		if id, ok := impl.Label(object).Blank(); ok {
+			spo.Obj, err = rdf.NewBlank(id)
+		} else {
+			spo.Obj, err = rdf.NewIRI(object)
+		}
 		if err != nil {
 			return rdf.Triple{}, err
 		}
diff --git a/internal/triplestore/impl/impl.go b/internal/triplestore/impl/impl.go
index 3b1fb00..b2be632 100644
--- a/internal/triplestore/impl/impl.go
+++ b/internal/triplestore/impl/impl.go
@@ -1,5 +1,7 @@
 package impl
 
+import "strings"
+
 // Label represents the label of individual triple members.
 // A label is a uri.
 type Label string
@@ -9,6 +11,19 @@ func (label Label) AsDatum() Datum {
 	return Datum(label)
 }
 
+// blankPrefix starts the labels of blank nodes
+const blankPrefix = "_:"
+
+// BlankLabel returns the label of the blank node with the given id.
+func BlankLabel(id string) Label {
+	return Label(blankPrefix + id)
+}
+
+// Blank returns the id of the blank node this label belongs to, if any.
+func (label Label) Blank() (id string, ok bool) {
+	return strings.CutPrefix(string(label), blankPrefix)
+}
+
 // LabelAsByte encodes a label as a set of bytes.
 func LabelAsByte(label Label) []byte {
 	return []byte(label)
-- 
2.43.0


From 5cf32810c4b4244e3e6f0e735bfdb8282a4f1c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:23 +0000
Subject: [PATCH 27/29] fix: progress.Writer counted bytes that were not
 written

---
 pkg/progress/progress.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/progress/progress.go b/pkg/progress/progress.go
index f60aa85..a753876 100644
--- a/pkg/progress/progress.go
+++ b/pkg/progress/progress.go
@@ -33,9 +33,10 @@ type Writer struct {
 }
 
 func (cw *Writer) Write(bytes []byte) (int, error) {
-	cw.Bytes += int64(len(bytes))
+	count, err := cw.Writer.Write(bytes)
+	cw.Bytes += int64(count)
 	cw.Rewritable.Write(fmt.Sprintf("Wrote %s", humanize.Bytes(uint64(cw.Bytes))))
-	return cw.Writer.Write(bytes)
+	return count, err
 }
 
 // DefaultFlushInterval is a reasonable default flush interval
-- 
2.43.0


From 068fcf93e614ed9f5108ed51905ea733d21a1f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:29 +0000
Subject: [PATCH 28/29] fix: progress of the last bundles could be reported
 after extraction ended

---
 internal/sparkl/context.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index 02fcac1..55da1c1 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -145,8 +145,8 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 	// create a new context
 	storage, err := context.Engine.NewStorage(bundle)
 	if context.reportError(err) {
-		context.extractWait.Done()
 		onFinish()
+		context.extractWait.Done()
 		return nil
 	}
 
@@ -156,8 +156,8 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 	context.closersLock.Unlock()
 
 	go func() {
-		defer onFinish()
 		defer context.extractWait.Done()
+		defer onFinish() // must be called before Wait returns
 
 		// determine the index of the URI within the paths describing this bundle
 		// this is the length of the parent path, or zero (if it does not exist).
-- 
2.43.0


From 6d2a96ded4653b5175fbf4d6956d93612da80936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:58 +0000
Subject: [PATCH 29/29] fix: the exporter was not closed when extracting the
 bundles failed

---
 internal/sparkl/pathbuilder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/sparkl/pathbuilder.go b/internal/sparkl/pathbuilder.go
index 27e8e80..96d4edc 100644
--- a/internal/sparkl/pathbuilder.go
+++ b/internal/sparkl/pathbuilder.go
@@ -23,6 +23,8 @@ func Export(pb *pathbuilder.Pathbuilder, index *igraph.Index, engine storages.Bu
 		defer closer()
 	}
 	if err != nil {
+		// the exporter has to be closed even if nothing was exported
+		exporter.Close()
 		return err
 	}
 
-- 
2.43.0

