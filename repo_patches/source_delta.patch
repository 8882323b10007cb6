From 746b2074a3b395ad67a8f5c10dfe53b4699d19c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:04 +0000
Subject: [PATCH 01/39] fix: distance-bounded search keeps exact matches and
 trims the distances

A cosine distance that rounds to a tiny negative number (an exact match of the
query) was skipped, and the distances were returned longer than the ids.
---
 pkg/hnsw/search_with_max_dist.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pkg/hnsw/search_with_max_dist.go b/pkg/hnsw/search_with_max_dist.go
index 6cf2ab7..55eaa3f 100644
--- a/pkg/hnsw/search_with_max_dist.go
+++ b/pkg/hnsw/search_with_max_dist.go
@@ -71,9 +71,6 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 	dists := make([]float32, len(all))
 	i = 0
 	for _, elem := range all {
-		if elem.Dist < 0 {
-			continue
-		}
 		if elem.Dist > dist {
 			break
 		}
@@ -83,5 +80,5 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 	}
 
 	h.pools.pqResults.Put(res)
-	return out[:i], dists, nil
+	return out[:i], dists[:i], nil
 }
-- 
2.43.0


From a3e6da79e45ce15a8a6577c15e546549bdec99b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:04 +0000
Subject: [PATCH 02/39] fix: read vectors that are not cached from the stored
 nodes

After a restart (or once the caches were cleared) adding to a collection of 30
or more documents failed with "document not found" and the documents were lost.
---
 pkg/hnsw/index.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 814e4f9..37f028c 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -277,6 +277,15 @@ func New(cfg Config, uc UserConfig, kvStore *collection.KeyValue) (*hnsw, error)
 		indexCache: indexCache,
 	}
 
+	// the vectors are stored along with the nodes, so a vector that is no longer
+	// cached (or was added by an earlier process) is read from its node
+	vectorCache.vectorForID = func(ctx context.Context, id uint64) ([]float32, error) {
+		if node := index.nodeByID(id); node != nil && len(node.Vector) > 0 {
+			return node.Vector, nil
+		}
+		return cfg.VectorForIDThunk(ctx, id)
+	}
+
 	index.tombstoneCleanupCycle = cyclemanager.New(
 		cyclemanager.NewFixedIntervalTicker(index.cleanupInterval),
 		index.tombstoneCleanup)
-- 
2.43.0


From f357a9e9ba7e34f200fe2d78e3930df321f8f218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:38 +0000
Subject: [PATCH 03/39] fix: grow the vector cache beyond its initial 25000
 entries

Adding or reading a vector with an id of 25000 or more panicked with an index
out of range.
---
 pkg/hnsw/maintainance.go | 32 +++++---------------------------
 pkg/hnsw/vector_cache.go | 36 +++++++++++++++++++++++++++---------
 2 files changed, 32 insertions(+), 36 deletions(-)

diff --git a/pkg/hnsw/maintainance.go b/pkg/hnsw/maintainance.go
index 891485a..763d657 100644
--- a/pkg/hnsw/maintainance.go
+++ b/pkg/hnsw/maintainance.go
@@ -28,33 +28,11 @@ const (
 // its own, make sure that this function is called from a single-thread or
 // locked situation
 func (h *hnsw) growIndexToAccomodateNode(id uint64, logger logrus.FieldLogger) error {
-	//before := time.Now()
-	//newIndex, changed, err := growIndexToAccomodateNode(h.nodes, id, logger)
-	//if err != nil {
-	//	return err
-	//}
-	//
-	//h.metrics.SetSize(len(h.nodes))
-	//
-	//if !changed {
-	//	return nil
-	//}
-	//
-	//defer h.metrics.GrowDuration(before)
-	//
-	//if h.compressed.Load() {
-	//	h.compressedVectorsCache.grow(uint64(len(newIndex)))
-	//} else {
-	//	h.cache.grow(uint64(len(newIndex)))
-	//}
-	//
-	//h.pools.visitedListsLock.Lock()
-	//h.pools.visitedLists.Destroy()
-	//h.pools.visitedLists = nil
-	//h.pools.visitedLists = visited.NewPool(1, len(newIndex)+512)
-	//h.pools.visitedListsLock.Unlock()
-	//
-	//h.nodes = newIndex
+	if h.compressed.Load() {
+		h.compressedVectorsCache.grow(id)
+	} else {
+		h.cache.grow(id)
+	}
 
 	return nil
 }
diff --git a/pkg/hnsw/vector_cache.go b/pkg/hnsw/vector_cache.go
index 1f6e7b1..fcd2d73 100644
--- a/pkg/hnsw/vector_cache.go
+++ b/pkg/hnsw/vector_cache.go
@@ -73,10 +73,7 @@ func (s *shardedLockCache) all() [][]float32 {
 }
 
 func (s *shardedLockCache) get(ctx context.Context, id uint64) ([]float32, error) {
-	s.shardedLocks[id%shardFactor].RLock()
-	vec := s.cache[id]
-	s.shardedLocks[id%shardFactor].RUnlock()
-
+	vec := s.cached(id)
 	if vec != nil {
 		return vec, nil
 	}
@@ -84,6 +81,18 @@ func (s *shardedLockCache) get(ctx context.Context, id uint64) ([]float32, error
 	return s.handleCacheMiss(ctx, id)
 }
 
+// cached returns the vector if it is in the cache, the id can be larger than
+// anything seen by this process so far
+func (s *shardedLockCache) cached(id uint64) []float32 {
+	s.shardedLocks[id%shardFactor].RLock()
+	defer s.shardedLocks[id%shardFactor].RUnlock()
+
+	if id >= uint64(len(s.cache)) {
+		return nil
+	}
+	return s.cache[id]
+}
+
 //nolint:unused
 func (s *shardedLockCache) delete(ctx context.Context, id uint64) {
 	s.shardedLocks[id%shardFactor].Lock()
@@ -111,6 +120,7 @@ func (s *shardedLockCache) handleCacheMiss(ctx context.Context, id uint64) ([]fl
 		vec = distancer.Normalize(vec)
 	}
 
+	s.grow(id)
 	atomic.AddInt64(&s.count, 1)
 	s.shardedLocks[id%shardFactor].Lock()
 	s.cache[id] = vec
@@ -124,10 +134,7 @@ func (s *shardedLockCache) multiGet(ctx context.Context, ids []uint64) ([][]floa
 	errs := make([]error, len(ids))
 
 	for i, id := range ids {
-		s.shardedLocks[id%shardFactor].RLock()
-		vec := s.cache[id]
-		s.shardedLocks[id%shardFactor].RUnlock()
-
+		vec := s.cached(id)
 		if vec == nil {
 			vecFromDisk, err := s.handleCacheMiss(ctx, id)
 			errs[i] = err
@@ -151,6 +158,9 @@ func (s *shardedLockCache) prefetch(id uint64) {
 	s.shardedLocks[id%shardFactor].RLock()
 	defer s.shardedLocks[id%shardFactor].RUnlock()
 
+	if id >= uint64(len(s.cache)) {
+		return
+	}
 	prefetchFunc(uintptr(unsafe.Pointer(&s.cache[id])))
 }
 
@@ -169,12 +179,20 @@ func (s *shardedLockCache) preload(id uint64, vec []float32) {
 
 //nolint:unused
 func (s *shardedLockCache) grow(node uint64) {
-	if node < uint64(len(s.cache)) {
+	s.shardedLocks[node%shardFactor].RLock()
+	fits := node < uint64(len(s.cache))
+	s.shardedLocks[node%shardFactor].RUnlock()
+	if fits {
 		return
 	}
 	s.maintenanceLock.Lock()
 	defer s.maintenanceLock.Unlock()
 
+	if node < uint64(len(s.cache)) {
+		// grown by someone else in the meantime
+		return
+	}
+
 	s.obtainAllLocks()
 	defer s.releaseAllLocks()
 
-- 
2.43.0


From 79f91e061ab9e30370e3127fcc299db3b00c2c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:06 +0000
Subject: [PATCH 04/39] fix: report a vectorizer that answers with an error
 status

---
 pkg/vectorizer/rest/vectorizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/vectorizer/rest/vectorizer.go b/pkg/vectorizer/rest/vectorizer.go
index 6613e36..af83d24 100644
--- a/pkg/vectorizer/rest/vectorizer.go
+++ b/pkg/vectorizer/rest/vectorizer.go
@@ -57,7 +57,7 @@ func (v *Vectorizer) Corpi(text []string) (*vctrzr.Vector, error) {
 	defer resp.Body.Close()
 
 	if resp.StatusCode != http.StatusOK {
-		return nil, err
+		return nil, ErrServiceUnavailable
 	}
 
 	var result map[string][]float32
-- 
2.43.0


From 5172199e7efc49be29d9e96e8dd28978ca0a6a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:44 +0000
Subject: [PATCH 05/39] fix: open a collection completely, and only once,
 before it is used

A collection whose documents had been opened by GetDocument had no vector
index, so the next search or add dereferenced nil; concurrent first uses
raced to open it, and a client without login or pod panicked.
---
 pkg/document/document.go | 198 ++++++++++++++-------------------------
 1 file changed, 69 insertions(+), 129 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 0733c82..270deaa 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -284,8 +284,17 @@ func (c *Client) GetCollections() ([]*Collection, error) {
 	return collections, nil
 }
 
-func (c *Client) AddDocuments(collection string, propertiesToIndex []string, documents ...*Document) error {
-	namespacedCollection := namespace + collection
+// openCollection makes sure that the kv table, the document db and the vector
+// index of a collection are open, and returns the index.
+func (c *Client) openCollection(namespacedCollection string) (h.VectorIndex, error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+	if c.sessionId == "" {
+		return nil, dfs.ErrUserNotLoggedIn
+	}
+	if c.podInfo == nil {
+		return nil, dfs.ErrPodNotOpen
+	}
 
 	// check if kv and doc table is open or not
 	kvStore := c.podInfo.GetKVStore()
@@ -293,49 +302,59 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	if err != nil {
 		err = kvStore.OpenKVTable(namespacedCollection, c.podInfo.GetPodPassword())
 		if err != nil {
-			return err
+			return nil, err
 		}
 	}
 	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
 	if err != nil {
-		return err
+		return nil, err
 	}
 	if !docIsOpen {
-		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
-			if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
-				return v.([]float32), nil
-			}
-			return nil, fmt.Errorf("document not found")
-		}
-
-		makeCL := h.MakeNoopCommitLogger
-		index, err := h.New(h.Config{
-			RootPath:              "not-used",
-			ID:                    "not-used",
-			MakeCommitLoggerThunk: makeCL,
-			DistanceProvider:      distancer.NewCosineDistanceProvider(),
-			VectorForIDThunk:      vectorForID,
-			ClassName:             namespacedCollection,
-		}, h.UserConfig{
-			MaxConnections: 30,
-			EFConstruction: 60,
-		}, kvStore)
-		if err != nil {
-			return err
-		}
-
-		c.hnswLock.Lock()
-		c.indices[namespacedCollection] = index
-		c.hnswLock.Unlock()
 		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
 		if err != nil {
-			return err
+			return nil, err
 		}
 	}
 
 	c.hnswLock.Lock()
-	index := c.indices[namespacedCollection]
-	c.hnswLock.Unlock()
+	defer c.hnswLock.Unlock()
+	if index, ok := c.indices[namespacedCollection]; ok {
+		return index, nil
+	}
+
+	vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
+		if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
+			return v.([]float32), nil
+		}
+		return nil, fmt.Errorf("document not found")
+	}
+
+	makeCL := h.MakeNoopCommitLogger
+	index, err := h.New(h.Config{
+		RootPath:              "not-used",
+		ID:                    "not-used",
+		MakeCommitLoggerThunk: makeCL,
+		DistanceProvider:      distancer.NewCosineDistanceProvider(),
+		VectorForIDThunk:      vectorForID,
+		ClassName:             namespacedCollection,
+	}, h.UserConfig{
+		MaxConnections: 30,
+		EFConstruction: 60,
+	}, kvStore)
+	if err != nil {
+		return nil, err
+	}
+	c.indices[namespacedCollection] = index
+	return index, nil
+}
+
+func (c *Client) AddDocuments(collection string, propertiesToIndex []string, documents ...*Document) error {
+	namespacedCollection := namespace + collection
+
+	index, err := c.openCollection(namespacedCollection)
+	if err != nil {
+		return err
+	}
 	count, err := index.GetDocCount()
 	if err != nil {
 		count = 0
@@ -455,50 +474,10 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 
 func (c *Client) GetNearDocuments(collection, text string, distance float32, limit int) ([][]byte, []float32, error) {
 	namespacedCollection := namespace + collection
-	kvStore := c.podInfo.GetKVStore()
-	_, err := kvStore.KVCount(namespacedCollection)
-	if err != nil {
-		err = kvStore.OpenKVTable(namespacedCollection, c.podInfo.GetPodPassword())
-		if err != nil {
-			return nil, nil, err
-		}
-	}
-	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
+	index, err := c.openCollection(namespacedCollection)
 	if err != nil {
 		return nil, nil, err
 	}
-	if !docIsOpen {
-		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
-			if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
-				return v.([]float32), nil
-			}
-			return nil, fmt.Errorf("document not found")
-		}
-
-		makeCL := h.MakeNoopCommitLogger
-		index, err := h.New(h.Config{
-			RootPath:              "not-used",
-			ID:                    "not-used",
-			MakeCommitLoggerThunk: makeCL,
-			DistanceProvider:      distancer.NewCosineDistanceProvider(),
-			VectorForIDThunk:      vectorForID,
-			ClassName:             namespacedCollection,
-		}, h.UserConfig{
-			MaxConnections: 30,
-			EFConstruction: 60,
-		}, kvStore)
-		if err != nil {
-			return nil, nil, err
-		}
-
-		c.hnswLock.Lock()
-		c.indices[namespacedCollection] = index
-		c.hnswLock.Unlock()
-		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			return nil, nil, err
-		}
-	}
 	if c.lookup == nil {
 		return nil, nil, fmt.Errorf("vectorizer is not initialized")
 	}
@@ -506,9 +485,6 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 	if err != nil {
 		return nil, nil, err
 	}
-	c.hnswLock.Lock()
-	index := c.indices[namespacedCollection]
-	c.hnswLock.Unlock()
 	err = index.LoadEntrypoint()
 	if err != nil {
 		return nil, nil, err
@@ -557,54 +533,10 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, distance float32, limit int) ([][]byte, []float32, error) {
 	namespacedCollection := namespace + collection
 
-	kvStore := c.podInfo.GetKVStore()
-	_, err := kvStore.KVCount(namespacedCollection)
-	if err != nil {
-		err = kvStore.OpenKVTable(namespacedCollection, c.podInfo.GetPodPassword())
-		if err != nil {
-			return nil, nil, err
-		}
-	}
-	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
+	index, err := c.openCollection(namespacedCollection)
 	if err != nil {
 		return nil, nil, err
 	}
-	if !docIsOpen {
-		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
-			if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
-				return v.([]float32), nil
-			}
-			return nil, fmt.Errorf("document not found")
-		}
-
-		makeCL := h.MakeNoopCommitLogger
-		index, err := h.New(h.Config{
-			RootPath:              "not-used",
-			ID:                    "not-used",
-			MakeCommitLoggerThunk: makeCL,
-			DistanceProvider:      distancer.NewCosineDistanceProvider(),
-			VectorForIDThunk:      vectorForID,
-			ClassName:             namespacedCollection,
-		}, h.UserConfig{
-			MaxConnections: 30,
-			EFConstruction: 60,
-		}, kvStore)
-		if err != nil {
-			return nil, nil, err
-		}
-
-		c.hnswLock.Lock()
-		c.indices[namespacedCollection] = index
-		c.hnswLock.Unlock()
-		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			return nil, nil, err
-		}
-	}
-
-	c.hnswLock.Lock()
-	index := c.indices[namespacedCollection]
-	c.hnswLock.Unlock()
 	err = index.LoadEntrypoint()
 	if err != nil {
 		return nil, nil, err
@@ -650,18 +582,26 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 	return documents, dists, nil
 }
 
+// openDocuments makes sure that the document db of a collection is open.
+func (c *Client) openDocuments(namespacedCollection string) error {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
+	if err != nil {
+		return err
+	}
+	if docIsOpen {
+		return nil
+	}
+	return c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
+}
+
 func (c *Client) GetDocument(collection, property, value string) ([]byte, error) {
 	namespacedCollection := namespace + collection
-	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
+	err := c.openDocuments(namespacedCollection)
 	if err != nil {
 		return nil, err
 	}
-	if !docIsOpen {
-		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			return nil, err
-		}
-	}
 
 	expr := ""
 	if property != "" && value != "" {
-- 
2.43.0


From fb2fc5373af99b05169fdef1e8012e16ab0c0222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:23 +0000
Subject: [PATCH 06/39] fix: forget the vector indices of the previous pod when
 a pod is opened

---
 pkg/document/document.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 270deaa..43461aa 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -127,6 +127,11 @@ func (c *Client) OpenPod(pod string) error {
 	}
 	c.podInfo = pi
 
+	// the open indices belong to the previous pod
+	c.hnswLock.Lock()
+	c.indices = map[string]h.VectorIndex{}
+	c.hnswLock.Unlock()
+
 	//docs, _ := c.api.DocList(c.sessionId, c.pod)
 	//fmt.Println("docs", docs)
 	//for _, doc := range docs {
-- 
2.43.0


From 8c5d84dc16e2fdd9d3830fd74413b8d322d9b8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:50 +0000
Subject: [PATCH 07/39] fix: report documents that cannot be added, and flush
 the others

A document that could not be vectorized, indexed or encoded was dropped
silently; one that was refused by the document db (or made it panic) ended
the batch before the flush, so that the next batch used the same vector ids
again.
---
 pkg/document/document.go | 58 +++++++++++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 9 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 43461aa..d4e360c 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -362,11 +362,20 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	}
 	count, err := index.GetDocCount()
 	if err != nil {
+		if !isNotFound(err) {
+			return err
+		}
 		count = 0
 	}
 
 	indexId := count
-	for _, doc := range documents {
+	addDocument := func(doc *Document) error {
+		if doc == nil {
+			return fmt.Errorf("document is nil")
+		}
+		if doc.Properties == nil {
+			doc.Properties = map[string]interface{}{}
+		}
 		doc.Properties["id"] = doc.ID
 
 		//check if vector is already present in the properties
@@ -400,7 +409,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 				err = index.Add(indexId, vector)
 				if err != nil {
 					c.logger.Errorf("index.Add failed :%s\n", err.Error())
-					continue
+					return err
 				}
 				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), vector)
 
@@ -410,7 +419,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 				err = index.Add(indexId, slice)
 				if err != nil {
 					c.logger.Errorf("index.Add failed :%s\n", err.Error())
-					continue
+					return err
 				}
 				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), slice)
 
@@ -425,7 +434,11 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 			for _, property := range propertiesToIndex {
 				dt, ok := doc.Properties[property]
 				if ok {
-					vectorData += dt.(string) + " "
+					text, ok := dt.(string)
+					if !ok {
+						return fmt.Errorf("property %s is not a string", property)
+					}
+					vectorData += text + " "
 				}
 			}
 
@@ -436,14 +449,14 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 				vector, err := c.lookup.Corpi([]string{vectorData})
 				if err != nil {
 					c.logger.Errorf("corpi failed :%s\n", err.Error())
-					continue
+					return err
 				}
 
 				doc.Properties[hnswIndexName] = indexId
 				err = index.Add(indexId, vector.ToArray())
 				if err != nil {
 					c.logger.Errorf("index.Add failed :%s\n", err.Error())
-					continue
+					return err
 				}
 				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), vector.ToArray())
 
@@ -456,15 +469,26 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 		data, err := json.Marshal(doc.Properties)
 		if err != nil {
 			c.logger.Errorf("marshal document failed :%s\n", err.Error())
-			continue
+			return err
 		}
 
-		err = c.api.DocPut(c.sessionId, c.pod, namespacedCollection, data)
+		err = c.putDocument(namespacedCollection, data)
 		if err != nil {
 			c.logger.Errorf("DocPut failed :%v\n", err.Error())
 			return err
 		}
 		fmt.Println("added document", indexId)
+		return nil
+	}
+
+	// a document that cannot be added is reported, but what was added is flushed
+	// all the same: the ids handed out so far must not be used again
+	var addErr error
+	for _, doc := range documents {
+		err = addDocument(doc)
+		if err != nil && addErr == nil {
+			addErr = err
+		}
 	}
 	err = index.Flush(indexId)
 	if err != nil {
@@ -474,7 +498,23 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	if err != nil {
 		return err
 	}
-	return nil
+	return addErr
+}
+
+// putDocument stores a document; the document db panics on a document whose
+// indexed properties do not have the types of their indexes.
+func (c *Client) putDocument(namespacedCollection string, data []byte) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("document does not match the indexes of the collection: %v", r)
+		}
+	}()
+	return c.api.DocPut(c.sessionId, c.pod, namespacedCollection, data)
+}
+
+// isNotFound tells a missing entry from an entry that could not be read.
+func isNotFound(err error) bool {
+	return errors.Is(err, collection.ErrEntryNotFound)
 }
 
 func (c *Client) GetNearDocuments(collection, text string, distance float32, limit int) ([][]byte, []float32, error) {
-- 
2.43.0


From 1d4972421d54fbbde364c1b42678c91a55ac11cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:50 +0000
Subject: [PATCH 08/39] fix: hand out vector ids to one batch at a time

Two concurrent batches started from the same count and overwrote each
other's vectors.
---
 pkg/document/document.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index d4e360c..30eea65 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -38,6 +38,7 @@ type Config struct {
 type Client struct {
 	lock          sync.Mutex
 	hnswLock      sync.RWMutex
+	addLock       sync.Mutex
 	api           *dfs.API
 	indices       map[string]h.VectorIndex
 	pod           string
@@ -356,6 +357,11 @@ func (c *Client) openCollection(namespacedCollection string) (h.VectorIndex, err
 func (c *Client) AddDocuments(collection string, propertiesToIndex []string, documents ...*Document) error {
 	namespacedCollection := namespace + collection
 
+	// the ids of the vectors are handed out from the stored count, which is only
+	// updated by the flush at the end
+	c.addLock.Lock()
+	defer c.addLock.Unlock()
+
 	index, err := c.openCollection(namespacedCollection)
 	if err != nil {
 		return err
-- 
2.43.0


From 3c0a30b67e8f6c976a89b70b3e670dc83a97ed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:33 +0000
Subject: [PATCH 09/39] fix: never answer a search with another document

The document of a replaced vector was looked up by its id, and the lookup
falls through to the next larger id. Skip such vectors, and fill up the
limit with the next nearest ones.
---
 pkg/document/document.go | 87 +++++++++++++++++++++-------------------
 1 file changed, 45 insertions(+), 42 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 30eea65..7e6c2a6 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -544,41 +544,7 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 	if err != nil {
 		return nil, nil, err
 	}
-	if limit != 0 && len(ids) > limit {
-		ids = ids[:limit]
-		dists = dists[:limit]
-	}
-	documents := make([][]byte, len(ids))
-	wg := sync.WaitGroup{}
-	errCh := make(chan error, len(ids))
-	for i, id := range ids {
-		wg.Add(1)
-		go func(i int, id uint64) {
-			defer wg.Done()
-			expr := fmt.Sprintf("%s=%d", hnswIndexName, id)
-			docs, err := c.api.DocFind(c.sessionId, c.pod, namespacedCollection, expr, 1)
-			if err != nil {
-				fmt.Println("doc find error", err, id, expr, ids)
-				errCh <- err
-				return
-			}
-			if len(docs) == 0 {
-				errCh <- fmt.Errorf("document not found %d", id)
-				return
-			}
-			documents[i] = docs[0]
-		}(i, id)
-	}
-	go func() {
-		wg.Wait()
-		close(errCh)
-	}()
-
-	for err := range errCh {
-		return nil, nil, err
-	}
-
-	return documents, dists, nil
+	return c.documentsByIndexId(namespacedCollection, ids, dists, limit)
 }
 
 func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, distance float32, limit int) ([][]byte, []float32, error) {
@@ -596,11 +562,39 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 	if err != nil {
 		return nil, nil, err
 	}
-	if limit != 0 && len(ids) > limit {
-		ids = ids[:limit]
-		dists = dists[:limit]
+	return c.documentsByIndexId(namespacedCollection, ids, dists, limit)
+}
+
+// documentsByIndexId fetches the documents of the given vectors in their order,
+// at most limit of them if limit is positive. A vector whose document was
+// replaced or refused has no document, and is skipped.
+func (c *Client) documentsByIndexId(namespacedCollection string, ids []uint64, dists []float32, limit int) ([][]byte, []float32, error) {
+	if limit <= 0 || limit > len(ids) {
+		limit = len(ids)
+	}
+	found := make([][]byte, 0, limit)
+	foundDists := make([]float32, 0, limit)
+	for len(found) < limit && len(ids) > 0 {
+		n := limit - len(found)
+		if n > len(ids) {
+			n = len(ids)
+		}
+		documents, err := c.fetchDocuments(namespacedCollection, ids[:n])
+		if err != nil {
+			return nil, nil, err
+		}
+		for i, doc := range documents {
+			if doc != nil {
+				found = append(found, doc)
+				foundDists = append(foundDists, dists[i])
+			}
+		}
+		ids, dists = ids[n:], dists[n:]
 	}
+	return found, foundDists, nil
+}
 
+func (c *Client) fetchDocuments(namespacedCollection string, ids []uint64) ([][]byte, error) {
 	documents := make([][]byte, len(ids))
 	wg := sync.WaitGroup{}
 	errCh := make(chan error, len(ids))
@@ -614,8 +608,8 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 				errCh <- err
 				return
 			}
-			if len(docs) == 0 {
-				errCh <- fmt.Errorf("document not found %d", id)
+			// the lookup finds the next larger id if there is no such document
+			if len(docs) == 0 || !hasIndexId(docs[0], id) {
 				return
 			}
 			documents[i] = docs[0]
@@ -627,10 +621,19 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 	}()
 
 	for err := range errCh {
-		return nil, nil, err
+		return nil, err
 	}
 
-	return documents, dists, nil
+	return documents, nil
+}
+
+// hasIndexId checks that a stored document belongs to the given vector.
+func hasIndexId(doc []byte, id uint64) bool {
+	props := map[string]json.RawMessage{}
+	if err := json.Unmarshal(doc, &props); err != nil {
+		return false
+	}
+	return string(props[hnswIndexName]) == fmt.Sprintf("%d", id)
 }
 
 // openDocuments makes sure that the document db of a collection is open.
-- 
2.43.0


From 52d4992fb25982eac93415c45300fb57ee1887e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:33 +0000
Subject: [PATCH 10/39] fix: search as many candidates as the limit asks for

A text search without a limit found a single document, a negative one
panicked, and a vector search never returned more than 800.
---
 pkg/document/document.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 7e6c2a6..de3de9c 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -540,7 +540,7 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 	if err != nil {
 		return nil, nil, err
 	}
-	ids, dists, err := index.KnnSearchByVectorMaxDist(vector.ToArray(), distance, limit, nil)
+	ids, dists, err := index.KnnSearchByVectorMaxDist(vector.ToArray(), distance, searchBreadth(limit), nil)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -558,13 +558,22 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 	if err != nil {
 		return nil, nil, err
 	}
-	ids, dists, err := index.KnnSearchByVectorMaxDist(vector, distance, 800, nil)
+	ids, dists, err := index.KnnSearchByVectorMaxDist(vector, distance, searchBreadth(limit), nil)
 	if err != nil {
 		return nil, nil, err
 	}
 	return c.documentsByIndexId(namespacedCollection, ids, dists, limit)
 }
 
+// searchBreadth is the number of candidates a search keeps, which also bounds
+// the number of its results.
+func searchBreadth(limit int) int {
+	if limit > 800 {
+		return limit
+	}
+	return 800
+}
+
 // documentsByIndexId fetches the documents of the given vectors in their order,
 // at most limit of them if limit is positive. A vector whose document was
 // replaced or refused has no document, and is skipped.
-- 
2.43.0


From 0661fd2d765cc301ec3ccd32cbe94097d499dc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:52 +0000
Subject: [PATCH 11/39] fix: a lookup by a value no document has finds nothing

The lookup answers with the document of the next larger value.
---
 pkg/document/document.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index de3de9c..299178f 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"os"
+	"strconv"
 	"strings"
 	"sync"
 
@@ -677,9 +678,43 @@ func (c *Client) GetDocument(collection, property, value string) ([]byte, error)
 	if len(docs) == 0 {
 		return nil, fmt.Errorf("document not found")
 	}
+	if expr != "" && !hasValue(docs[0], property, value) {
+		return nil, fmt.Errorf("document not found")
+	}
 	return docs[0], nil
 }
 
+// hasValue checks that a document has the value it was looked up by: the lookup
+// falls through to the next larger value if there is none.
+func hasValue(doc []byte, property, value string) bool {
+	props := map[string]interface{}{}
+	if err := json.Unmarshal(doc, &props); err != nil {
+		return false
+	}
+	switch v := props[property].(type) {
+	case string:
+		return v == value
+	case float64:
+		number, err := strconv.ParseFloat(value, 64)
+		return err == nil && v == number
+	case []interface{}:
+		for _, item := range v {
+			if item == value {
+				return true
+			}
+		}
+		return false
+	case map[string]interface{}:
+		for key, item := range v {
+			if text, ok := item.(string); ok && key+text == strings.ReplaceAll(value, ":", "") {
+				return true
+			}
+		}
+		return false
+	}
+	return true
+}
+
 func convertToFloat32Slice(i interface{}) ([]float32, error) {
 	// Check if the underlying value is a slice
 	if slice, ok := i.([]interface{}); ok {
-- 
2.43.0


From 55fe7975752db4bf2136439ef835186660e19243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:09 +0000
Subject: [PATCH 12/39] fix: refuse null documents, null indexes and properties
 that are no object

---
 adapters/handlers/collections.go | 3 +++
 adapters/handlers/documents.go   | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/adapters/handlers/collections.go b/adapters/handlers/collections.go
index 6281488..8634de8 100644
--- a/adapters/handlers/collections.go
+++ b/adapters/handlers/collections.go
@@ -18,6 +18,9 @@ func (s *Handler) FaveCreateCollectionHandler(request operations.FaveCreateColle
 	}
 	indexes := make(map[string]collection.IndexType)
 	for _, v := range collectionRaw.Indexes {
+		if v == nil {
+			return operations.NewFaveCreateCollectionBadRequest().WithPayload(createErrorResponseObject("Index cannot be null"))
+		}
 		switch v.FieldType {
 		case "string":
 			indexes[v.FieldName] = collection.StringIndex
diff --git a/adapters/handlers/documents.go b/adapters/handlers/documents.go
index 0b43155..368cf57 100644
--- a/adapters/handlers/documents.go
+++ b/adapters/handlers/documents.go
@@ -24,9 +24,12 @@ func (s *Handler) FaveAddDocumentsHandler(request operations.FaveAddDocumentsPar
 	documents := make([]*document.Document, len(documentsRaw.Documents))
 
 	for i, v := range documentsRaw.Documents {
+		if v == nil {
+			return operations.NewFaveAddDocumentsBadRequest().WithPayload(createErrorResponseObject("Document cannot be null"))
+		}
 		props, ok := v.Properties.(map[string]interface{})
 		if !ok {
-			continue
+			return operations.NewFaveAddDocumentsBadRequest().WithPayload(createErrorResponseObject("Properties of a document should be an object"))
 		}
 		d := &document.Document{
 			ID:         string(v.ID),
-- 
2.43.0


From 864e75cd802033b498be210d95c891e0a64e681b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:09 +0000
Subject: [PATCH 13/39] fix: create a collection without indexes

---
 pkg/document/document.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 299178f..b5f5dc3 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -160,6 +160,9 @@ func (c *Client) CreateCollection(col *Collection) error {
 	if c.podInfo == nil {
 		return dfs.ErrPodNotOpen
 	}
+	if col.Indexes == nil {
+		col.Indexes = map[string]collection.IndexType{}
+	}
 	col.Indexes[hnswIndexName] = collection.NumberIndex
 
 	namespacedCollection := namespace + col.Name
-- 
2.43.0


From 5ea8b6cdb301cb3e098dd0dd4340bf2d61f62f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:29 +0000
Subject: [PATCH 14/39] fix: a truncated entrypoint record does not change the
 entrypoint

---
 pkg/hnsw/deserializer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/hnsw/deserializer.go b/pkg/hnsw/deserializer.go
index a4b91d6..47ca303 100644
--- a/pkg/hnsw/deserializer.go
+++ b/pkg/hnsw/deserializer.go
@@ -110,9 +110,11 @@ func (c *Deserializer) Do(fd *bufio.Reader,
 			var entrypoint uint64
 			var level uint16
 			entrypoint, level, err = c.ReadEP(fd)
-			out.Entrypoint = entrypoint
-			out.Level = level
-			out.EntrypointChanged = true
+			if err == nil {
+				out.Entrypoint = entrypoint
+				out.Level = level
+				out.EntrypointChanged = true
+			}
 			readThisRound = 10
 		case AddLinkAtLevel:
 			err = c.ReadLink(fd, out)
-- 
2.43.0


From 7e3c63bf7c181ac72a8aca1a2f24c8ec3602d9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:30 +0000
Subject: [PATCH 15/39] fix: count the encoders of a quantizer record in the
 valid length

---
 pkg/hnsw/deserializer.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/hnsw/deserializer.go b/pkg/hnsw/deserializer.go
index 47ca303..df530c3 100644
--- a/pkg/hnsw/deserializer.go
+++ b/pkg/hnsw/deserializer.go
@@ -144,7 +144,7 @@ func (c *Deserializer) Do(fd *bufio.Reader,
 			out.Nodes = make([]*vertex, initialSize)
 		case AddPQ:
 			err = c.ReadPQ(fd, out)
-			readThisRound = 9
+			readThisRound = 9 + encodersLength(out.PQData)
 		default:
 			err = errors.Errorf("unrecognized commit type %d", ct)
 		}
@@ -564,6 +564,17 @@ func (c *Deserializer) ReadPQ(r io.Reader, res *DeserializationResult) error {
 	return nil
 }
 
+// encodersLength is the number of bytes the encoders take in a commit log
+func encodersLength(data ssdhelpers.PQData) int {
+	if data.EncoderType == ssdhelpers.UseTileEncoder {
+		return len(data.Encoders) * 51
+	}
+	if data.M == 0 {
+		return 0
+	}
+	return len(data.Encoders) * int(data.Ks) * int(data.Dimensions/data.M) * 4
+}
+
 func (c *Deserializer) readUint64(r io.Reader) (uint64, error) {
 	var value uint64
 	c.resetResusableBuffer(8)
-- 
2.43.0


From 8403ac93eb87184d231c6801cc57263584c0f2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:51 +0000
Subject: [PATCH 16/39] fix: report a vectorizer that answers without a vector

---
 pkg/vectorizer/rest/vectorizer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/vectorizer/rest/vectorizer.go b/pkg/vectorizer/rest/vectorizer.go
index af83d24..c3f840d 100644
--- a/pkg/vectorizer/rest/vectorizer.go
+++ b/pkg/vectorizer/rest/vectorizer.go
@@ -65,6 +65,10 @@ func (v *Vectorizer) Corpi(text []string) (*vctrzr.Vector, error) {
 		return nil, err
 	}
 
+	if len(result["vector"]) == 0 {
+		return nil, ErrServiceUnavailable
+	}
+
 	vector := vctrzr.NewVector(result["vector"])
 	return &vector, nil
 }
-- 
2.43.0


From e7148f988f330096500dc9cdbd1ea9a169153777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:18 +0000
Subject: [PATCH 17/39] fix: commit created and deleted collections

---
 pkg/document/document.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index b5f5dc3..c55f37a 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -214,7 +214,7 @@ func (c *Client) CreateCollection(col *Collection) error {
 	c.hnswLock.Lock()
 	c.indices[namespacedCollection] = index
 	c.hnswLock.Unlock()
-	return nil
+	return c.api.CommitPodFeeds(c.pod, c.sessionId)
 }
 
 func (c *Client) DeleteCollection(collection string) error {
@@ -252,7 +252,7 @@ func (c *Client) DeleteCollection(collection string) error {
 	c.hnswLock.Lock()
 	delete(c.indices, namespacedCollection)
 	c.hnswLock.Unlock()
-	return nil
+	return c.api.CommitPodFeeds(c.pod, c.sessionId)
 }
 
 func (c *Client) GetCollections() ([]*Collection, error) {
-- 
2.43.0


From fed02e54cba094d0c6b398be632c69b5109fde2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:50 +0000
Subject: [PATCH 18/39] fix: store a new pod so that it can be opened again

---
 pkg/document/document.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index c55f37a..120028e 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -122,6 +122,11 @@ func (c *Client) OpenPod(pod string) error {
 		if err != nil {
 			return err
 		}
+		// a new process can only open the pod once its feeds are stored
+		err = c.api.CommitPodFeeds(c.pod, c.sessionId)
+		if err != nil {
+			return err
+		}
 	}
 	pi, err := c.api.OpenPod(c.pod, c.sessionId)
 	if err != nil {
-- 
2.43.0


From 923488698f7e13c85abba98c0905f594d8afa65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:34 +0000
Subject: [PATCH 19/39] fix: a vector without a document does not fail a search

---
 pkg/document/document.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 120028e..c315196 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -623,7 +623,9 @@ func (c *Client) fetchDocuments(namespacedCollection string, ids []uint64) ([][]
 			expr := fmt.Sprintf("%s=%d", hnswIndexName, id)
 			docs, err := c.api.DocFind(c.sessionId, c.pod, namespacedCollection, expr, 1)
 			if err != nil {
-				errCh <- err
+				if !isNotFound(err) {
+					errCh <- err
+				}
 				return
 			}
 			// the lookup finds the next larger id if there is no such document
-- 
2.43.0


From 28c13d38f43be4e06af6a8b4d5643fe6f9b5c604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:40 +0000
Subject: [PATCH 20/39] fix: antipodes have a distance

---
 pkg/hnsw/distancer/geo_spatial.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/hnsw/distancer/geo_spatial.go b/pkg/hnsw/distancer/geo_spatial.go
index f29a0f0..5a6a4e8 100644
--- a/pkg/hnsw/distancer/geo_spatial.go
+++ b/pkg/hnsw/distancer/geo_spatial.go
@@ -35,6 +35,9 @@ func geoDist(a, b []float32) (float32, bool, error) {
 	A := math.Sin(deltaLatRadian/2)*math.Sin(deltaLatRadian/2) +
 		math.Cos(latARadian)*math.Cos(latBRadian)*math.Sin(deltaLonRadian/2)*math.Sin(deltaLonRadian/2)
 
+	// rounding can exceed 1 for antipodes, whose distance would not be a number
+	A = math.Min(A, 1)
+
 	C := 2 * math.Atan2(math.Sqrt(A), math.Sqrt(1-A))
 
 	return float32(R * C), true, nil
-- 
2.43.0


From 80755eb18bac55b0da356b612a1c2169623999ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:00 +0000
Subject: [PATCH 21/39] fix: remember that an entry point with a large id was
 visited

---
 pkg/hnsw/search.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index 1b39198..a8c6619 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -180,7 +180,7 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 	}
 
 	h.insertViableEntrypointsAsCandidatesAndResults(entrypoints, candidates,
-		results, level, visited, allowList)
+		results, level, &visited, allowList)
 
 	var worstResultDistance float32
 	var err error
@@ -326,7 +326,7 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 
 func (h *hnsw) insertViableEntrypointsAsCandidatesAndResults(
 	entrypoints, candidates, results *priorityqueue.Queue, level int,
-	visitedList visited.ListSet, allowList helpers.AllowList,
+	visitedList *visited.ListSet, allowList helpers.AllowList,
 ) {
 	for entrypoints.Len() > 0 {
 		ep := entrypoints.Pop()
-- 
2.43.0


From e230a45cbc32301383ab431955cb0a56619ab14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:04 +0000
Subject: [PATCH 22/39] fix: a search by distance returns no more than its
 limit

---
 pkg/hnsw/search.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index a8c6619..03ffcd6 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -158,6 +158,10 @@ func (h *hnsw) SearchByVectorDistance(vector []float32, targetDistance float32,
 		}
 	}
 
+	if maxLimit >= 0 && int64(len(resultIDs)) > maxLimit {
+		resultIDs, resultDist = resultIDs[:maxLimit], resultDist[:maxLimit]
+	}
+
 	return resultIDs, resultDist, nil
 }
 
-- 
2.43.0


From f630c8cf2c761d5284da9f4f2096b0d6ed546d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:08 +0000
Subject: [PATCH 23/39] fix: a filtered search for no results does not crash

---
 pkg/hnsw/flat_search.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/hnsw/flat_search.go b/pkg/hnsw/flat_search.go
index 141b7ce..315d7ad 100644
--- a/pkg/hnsw/flat_search.go
+++ b/pkg/hnsw/flat_search.go
@@ -19,6 +19,9 @@ import (
 func (h *hnsw) flatSearch(queryVector []float32, limit int,
 	allowList helpers.AllowList,
 ) ([]uint64, []float32, error) {
+	if limit <= 0 {
+		return nil, nil, nil
+	}
 	results := priorityqueue.NewMax(limit)
 
 	it := allowList.Iterator()
-- 
2.43.0


From 54b8620e6a62e1f5ece39e69647dfe705dd16949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:14 +0000
Subject: [PATCH 24/39] fix: keep changed nodes until they are stored, however
 many they are

---
 pkg/hnsw/index.go                |  7 +++++++
 pkg/hnsw/insert.go               | 19 +++++++++----------
 pkg/hnsw/neighbor_connections.go |  1 +
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 37f028c..eb0ff2e 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -157,6 +157,10 @@ type hnsw struct {
 	shardName              string
 
 	indexCache *lru.Cache
+
+	// nodes that were changed since they were last stored, they have to be kept
+	// when the indexCache has no room for them
+	uncommitted sync.Map
 }
 
 type CommitLogger interface {
@@ -616,6 +620,9 @@ func (h *hnsw) nodeByID(id uint64) *vertex {
 			return nil
 		}
 	} else {
+		if val, ok := h.uncommitted.Load(id); ok {
+			return val.(*vertex)
+		}
 		_, value, err = h.nodes.KVGet(h.className, fmt.Sprintf("%d", id))
 		if err != nil {
 			fmt.Println("nodeByID: could not get node", id, h.className, err)
diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index d817847..c87940e 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -101,6 +101,7 @@ func (h *hnsw) insertInitialElement(node *vertex, nodeVec []float32) error {
 		return errors.Wrapf(err, "grow HNSW index to accommodate node %d", node.Id)
 	}
 
+	h.uncommitted.Store(node.Id, node)
 	h.indexCache.Add(node.Id, node)
 
 	if h.compressed.Load() {
@@ -116,16 +117,12 @@ func (h *hnsw) insertInitialElement(node *vertex, nodeVec []float32) error {
 }
 
 func (h *hnsw) Flush(docCount uint64) error {
-	keys := h.indexCache.Keys()
-	for _, key := range keys {
-		iNode, ok := h.indexCache.Get(key)
-		if !ok {
-			continue
-		}
-		node := iNode.(*vertex)
-		if node.Committed {
-			continue
-		}
+	var nodes []*vertex
+	h.uncommitted.Range(func(_, iNode interface{}) bool {
+		nodes = append(nodes, iNode.(*vertex))
+		return true
+	})
+	for _, node := range nodes {
 		nodeBytes, err := json.Marshal(node)
 		if err != nil {
 			return errors.Wrapf(err, "marshal node %d", node.Id)
@@ -136,6 +133,7 @@ func (h *hnsw) Flush(docCount uint64) error {
 		}
 		node.Committed = true
 		h.indexCache.Add(node.Id, node)
+		h.uncommitted.Delete(node.Id)
 	}
 	ep := &entrypoint{
 		ID: h.entryPointID,
@@ -268,6 +266,7 @@ func (h *hnsw) insert(node *vertex, nodeVec []float32) error {
 		h.cache.preload(node.Id, nodeVec)
 	}
 
+	h.uncommitted.Store(node.Id, node)
 	h.indexCache.Add(node.Id, node)
 
 	h.insertMetrics.prepareAndInsertNode(before)
diff --git a/pkg/hnsw/neighbor_connections.go b/pkg/hnsw/neighbor_connections.go
index b83bd2f..7d3f209 100644
--- a/pkg/hnsw/neighbor_connections.go
+++ b/pkg/hnsw/neighbor_connections.go
@@ -146,6 +146,7 @@ func (n *neighborFinderConnector) connectNeighborAtLevel(neighborID uint64,
 	neighbor.Lock()
 	defer neighbor.Unlock()
 	neighbor.Committed = false
+	n.graph.uncommitted.Store(neighbor.Id, neighbor)
 	if level > neighbor.Level {
 		// upgrade neighbor Level if the Level is out of sync due to a delete re-assign
 		neighbor.upgradeToLevelNoLock(level)
-- 
2.43.0


From f15297155e269cafc6c402fb5944746779b39d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:23 +0000
Subject: [PATCH 25/39] fix: a truncated quantizer record does not change the
 quantizer

---
 pkg/hnsw/deserializer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/hnsw/deserializer.go b/pkg/hnsw/deserializer.go
index df530c3..d174a9e 100644
--- a/pkg/hnsw/deserializer.go
+++ b/pkg/hnsw/deserializer.go
@@ -535,6 +535,7 @@ func (c *Deserializer) ReadPQ(r io.Reader, res *DeserializationResult) error {
 		return err
 	}
 	encoder := ssdhelpers.Encoder(enc)
+	previous := res.PQData
 	res.PQData = ssdhelpers.PQData{
 		Dimensions:          dims,
 		EncoderType:         encoder,
@@ -550,11 +551,13 @@ func (c *Deserializer) ReadPQ(r io.Reader, res *DeserializationResult) error {
 	case ssdhelpers.UseKMeansEncoder:
 		encoderReader = c.ReadKMeansEncoder
 	default:
+		res.PQData = previous
 		return errors.New("Unsuported encoder type")
 	}
 	for i := uint16(0); i < m; i++ {
 		encoder, err := encoderReader(r, res, i)
 		if err != nil {
+			res.PQData = previous
 			return err
 		}
 		res.PQData.Encoders = append(res.PQData.Encoders, encoder)
-- 
2.43.0


From 0b82d04fdf4405489104c7db7579923fff041025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:25 +0000
Subject: [PATCH 26/39] fix: condensing a log keeps that the links of a node
 with a large id were cleared

---
 pkg/hnsw/deserializer.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/deserializer.go b/pkg/hnsw/deserializer.go
index d174a9e..68d59e6 100644
--- a/pkg/hnsw/deserializer.go
+++ b/pkg/hnsw/deserializer.go
@@ -383,8 +383,19 @@ func (c *Deserializer) ReadClearLinksAtLevel(r io.Reader, res *DeserializationRe
 	}
 
 	if int(id) >= len(res.Nodes) {
-		// node is out of bounds, so it can't exist, nothing to do here
-		return nil
+		if !keepReplaceInfo {
+			// node is out of bounds, so it can't exist, nothing to do here
+			return nil
+		}
+
+		newNodes, changed, err := growIndexToAccomodateNode(res.Nodes, id, c.logger)
+		if err != nil {
+			return err
+		}
+
+		if changed {
+			res.Nodes = newNodes
+		}
 	}
 
 	if keepReplaceInfo {
-- 
2.43.0


From f7ee2ab63f46d755789606abfbfa4adbbc5dd74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:50 +0000
Subject: [PATCH 27/39] fix: condensing a log keeps what it removes from
 earlier logs

---
 pkg/hnsw/condensor.go    | 34 +++++++++++++++++++++++++++++
 pkg/hnsw/deserializer.go | 46 +++++++++++++++++++++++++++++++++++-----
 2 files changed, 75 insertions(+), 5 deletions(-)

diff --git a/pkg/hnsw/condensor.go b/pkg/hnsw/condensor.go
index 6453a33..e13b618 100644
--- a/pkg/hnsw/condensor.go
+++ b/pkg/hnsw/condensor.go
@@ -52,6 +52,12 @@ func (c *MemoryCondensor) Do(fileName string) error {
 
 	c.newLog = NewWriterSize(c.newLogFile, 1*1024*1024)
 
+	// what the log says about nodes and tombstones of earlier logs comes first,
+	// the nodes and tombstones it has itself follow
+	if err := c.writeRemovals(res); err != nil {
+		return errors.Wrap(err, "write removals to commit log")
+	}
+
 	for _, node := range res.Nodes {
 		if node == nil {
 			// nil nodes occur when we've grown, but not inserted anything yet
@@ -111,6 +117,34 @@ func (c *MemoryCondensor) Do(fileName string) error {
 	return nil
 }
 
+func (c *MemoryCondensor) writeRemovals(res *DeserializationResult) error {
+	if res.IndexReset {
+		if err := c.writeCommitType(c.newLog, ResetIndex); err != nil {
+			return err
+		}
+	}
+
+	for _, removals := range []struct {
+		commitType HnswCommitType
+		ids        map[uint64]struct{}
+	}{
+		{DeleteNode, res.NodesDeleted},
+		{ClearLinks, res.LinksCleared},
+		{RemoveTombstone, res.TombstonesRemoved},
+	} {
+		for id := range removals.ids {
+			ec := &errorcompounder.ErrorCompounder{}
+			ec.Add(c.writeCommitType(c.newLog, removals.commitType))
+			ec.Add(c.writeUint64(c.newLog, id))
+			if err := ec.ToError(); err != nil {
+				return err
+			}
+		}
+	}
+
+	return nil
+}
+
 func (c *MemoryCondensor) writeUint64(w *bufWriter, in uint64) error {
 	toWrite := make([]byte, 8)
 	binary.LittleEndian.PutUint64(toWrite[0:8], in)
diff --git a/pkg/hnsw/deserializer.go b/pkg/hnsw/deserializer.go
index 68d59e6..94f5aa9 100644
--- a/pkg/hnsw/deserializer.go
+++ b/pkg/hnsw/deserializer.go
@@ -45,6 +45,14 @@ type DeserializationResult struct {
 	// many Connections as discovered in
 	// https://github.com/weaviate/weaviate/issues/1868
 	LinksReplaced map[uint64]map[uint16]struct{}
+
+	// What a log says about nodes and tombstones of earlier logs. Like
+	// LinksReplaced, this is only kept if the log is read in isolation
+	// (condensing), so that the new commit log does not lose it.
+	NodesDeleted      map[uint64]struct{}
+	LinksCleared      map[uint64]struct{}
+	TombstonesRemoved map[uint64]struct{}
+	IndexReset        bool
 }
 
 func (dr DeserializationResult) ReplaceLinks(node uint64, level uint16) bool {
@@ -90,6 +98,12 @@ func (c *Deserializer) Do(fd *bufio.Reader,
 		}
 	}
 
+	if keepLinkReplaceInformation && out.NodesDeleted == nil {
+		out.NodesDeleted = make(map[uint64]struct{})
+		out.LinksCleared = make(map[uint64]struct{})
+		out.TombstonesRemoved = make(map[uint64]struct{})
+	}
+
 	for {
 		ct, err := c.ReadCommitType(fd)
 		if err != nil {
@@ -127,7 +141,7 @@ func (c *Deserializer) Do(fd *bufio.Reader,
 			err = c.ReadAddTombstone(fd, out.Tombstones)
 			readThisRound = 8
 		case RemoveTombstone:
-			err = c.ReadRemoveTombstone(fd, out.Tombstones)
+			err = c.ReadRemoveTombstone(fd, out, keepLinkReplaceInformation)
 			readThisRound = 8
 		case ClearLinks:
 			err = c.ReadClearLinks(fd, out, keepLinkReplaceInformation)
@@ -136,12 +150,18 @@ func (c *Deserializer) Do(fd *bufio.Reader,
 			err = c.ReadClearLinksAtLevel(fd, out, keepLinkReplaceInformation)
 			readThisRound = 10
 		case DeleteNode:
-			err = c.ReadDeleteNode(fd, out)
+			err = c.ReadDeleteNode(fd, out, keepLinkReplaceInformation)
 			readThisRound = 8
 		case ResetIndex:
 			out.Entrypoint = 0
 			out.Level = 0
 			out.Nodes = make([]*vertex, initialSize)
+			if keepLinkReplaceInformation {
+				out.LinksReplaced = make(map[uint64]map[uint16]struct{})
+				out.NodesDeleted = make(map[uint64]struct{})
+				out.LinksCleared = make(map[uint64]struct{})
+				out.IndexReset = true
+			}
 		case AddPQ:
 			err = c.ReadPQ(fd, out)
 			readThisRound = 9 + encodersLength(out.PQData)
@@ -336,13 +356,19 @@ func (c *Deserializer) ReadAddTombstone(r io.Reader, tombstones map[uint64]struc
 	return nil
 }
 
-func (c *Deserializer) ReadRemoveTombstone(r io.Reader, tombstones map[uint64]struct{}) error {
+func (c *Deserializer) ReadRemoveTombstone(r io.Reader, res *DeserializationResult,
+	keepReplaceInfo bool,
+) error {
 	id, err := c.readUint64(r)
 	if err != nil {
 		return err
 	}
 
-	delete(tombstones, id)
+	delete(res.Tombstones, id)
+
+	if keepReplaceInfo {
+		res.TombstonesRemoved[id] = struct{}{}
+	}
 
 	return nil
 }
@@ -355,6 +381,10 @@ func (c *Deserializer) ReadClearLinks(r io.Reader, res *DeserializationResult,
 		return err
 	}
 
+	if keepReplaceInfo {
+		res.LinksCleared[id] = struct{}{}
+	}
+
 	if int(id) >= len(res.Nodes) {
 		// node is out of bounds, so it can't exist, nothing to do here
 		return nil
@@ -446,12 +476,18 @@ func (c *Deserializer) ReadClearLinksAtLevel(r io.Reader, res *DeserializationRe
 	return nil
 }
 
-func (c *Deserializer) ReadDeleteNode(r io.Reader, res *DeserializationResult) error {
+func (c *Deserializer) ReadDeleteNode(r io.Reader, res *DeserializationResult,
+	keepReplaceInfo bool,
+) error {
 	id, err := c.readUint64(r)
 	if err != nil {
 		return err
 	}
 
+	if keepReplaceInfo {
+		res.NodesDeleted[id] = struct{}{}
+	}
+
 	if int(id) >= len(res.Nodes) {
 		// node is out of bounds, so it can't exist, nothing to do here
 		return nil
-- 
2.43.0


From c3fbe5e8c5d93804ffaba4f4976dbd1bbf1c1fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:54 +0000
Subject: [PATCH 28/39] fix: condensing a log keeps its quantizer

---
 pkg/hnsw/condensor.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/pkg/hnsw/condensor.go b/pkg/hnsw/condensor.go
index e13b618..0ccbb8e 100644
--- a/pkg/hnsw/condensor.go
+++ b/pkg/hnsw/condensor.go
@@ -20,6 +20,7 @@ import (
 
 	"github.com/pkg/errors"
 	"github.com/sirupsen/logrus"
+	ssdhelpers "github.com/weaviate/weaviate/adapters/repos/db/vector/ssdhelpers"
 	"github.com/weaviate/weaviate/entities/errorcompounder"
 )
 
@@ -58,6 +59,12 @@ func (c *MemoryCondensor) Do(fileName string) error {
 		return errors.Wrap(err, "write removals to commit log")
 	}
 
+	if res.Compressed {
+		if err := c.AddPQ(res.PQData); err != nil {
+			return errors.Wrap(err, "write quantizer to commit log")
+		}
+	}
+
 	for _, node := range res.Nodes {
 		if node == nil {
 			// nil nodes occur when we've grown, but not inserted anything yet
@@ -189,6 +196,27 @@ func (c *MemoryCondensor) writeUint64Slice(w *bufWriter, in []uint64) error {
 	return nil
 }
 
+func (c *MemoryCondensor) AddPQ(data ssdhelpers.PQData) error {
+	ec := &errorcompounder.ErrorCompounder{}
+	ec.Add(c.writeCommitType(c.newLog, AddPQ))
+	ec.Add(c.writeUint16(c.newLog, data.Dimensions))
+	ec.Add(c.newLog.WriteByte(byte(data.EncoderType)))
+	ec.Add(c.writeUint16(c.newLog, data.Ks))
+	ec.Add(c.writeUint16(c.newLog, data.M))
+	ec.Add(c.newLog.WriteByte(data.EncoderDistribution))
+	useBitsEncoding := byte(0)
+	if data.UseBitsEncoding {
+		useBitsEncoding = 1
+	}
+	ec.Add(c.newLog.WriteByte(useBitsEncoding))
+	for _, encoder := range data.Encoders {
+		_, err := c.newLog.Write(encoder.ExposeDataForRestore())
+		ec.Add(err)
+	}
+
+	return ec.ToError()
+}
+
 // AddNode adds an empty node
 func (c *MemoryCondensor) AddNode(node *vertex) error {
 	ec := &errorcompounder.ErrorCompounder{}
-- 
2.43.0


From e6c5e5868fcfe48f4beed091b62a8a5fd866f832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:17 +0000
Subject: [PATCH 29/39] fix: condensing starts over when an interrupted attempt
 left a file

---
 pkg/hnsw/condensor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/hnsw/condensor.go b/pkg/hnsw/condensor.go
index 0ccbb8e..a7c6cb5 100644
--- a/pkg/hnsw/condensor.go
+++ b/pkg/hnsw/condensor.go
@@ -44,7 +44,7 @@ func (c *MemoryCondensor) Do(fileName string) error {
 	}
 
 	newLogFile, err := os.OpenFile(fmt.Sprintf("%s.condensed", fileName),
-		os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0o666)
+		os.O_WRONLY|os.O_TRUNC|os.O_CREATE, 0o666)
 	if err != nil {
 		return errors.Wrap(err, "open new commit log file for writing")
 	}
-- 
2.43.0


From 9fcf2e9776ea730287c6d91799fa5e02617109d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:46 +0000
Subject: [PATCH 30/39] fix: a search with a huge limit keeps no more
 candidates than there are vectors

---
 pkg/document/document.go | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index c315196..355cc62 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -549,7 +549,11 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 	if err != nil {
 		return nil, nil, err
 	}
-	ids, dists, err := index.KnnSearchByVectorMaxDist(vector.ToArray(), distance, searchBreadth(limit), nil)
+	breadth, err := searchBreadth(index, limit)
+	if err != nil {
+		return nil, nil, err
+	}
+	ids, dists, err := index.KnnSearchByVectorMaxDist(vector.ToArray(), distance, breadth, nil)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -567,7 +571,11 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 	if err != nil {
 		return nil, nil, err
 	}
-	ids, dists, err := index.KnnSearchByVectorMaxDist(vector, distance, searchBreadth(limit), nil)
+	breadth, err := searchBreadth(index, limit)
+	if err != nil {
+		return nil, nil, err
+	}
+	ids, dists, err := index.KnnSearchByVectorMaxDist(vector, distance, breadth, nil)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -575,12 +583,26 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 }
 
 // searchBreadth is the number of candidates a search keeps, which also bounds
-// the number of its results.
-func searchBreadth(limit int) int {
-	if limit > 800 {
-		return limit
+// the number of its results. More than there are vectors is never needed.
+func searchBreadth(index h.VectorIndex, limit int) (int, error) {
+	breadth := 800
+	if limit <= breadth {
+		return breadth, nil
+	}
+	count, err := index.GetDocCount()
+	if err != nil {
+		if isNotFound(err) {
+			return breadth, nil
+		}
+		return 0, err
+	}
+	if count < uint64(breadth) {
+		return breadth, nil
+	}
+	if count < uint64(limit) {
+		return int(count), nil
 	}
-	return 800
+	return limit, nil
 }
 
 // documentsByIndexId fetches the documents of the given vectors in their order,
-- 
2.43.0


From f3da70fe035f61b4144cb05d9c6d2495f58bd752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:06 +0000
Subject: [PATCH 31/39] fix: a vector with a component that is no finite number
 is refused

---
 pkg/hnsw/insert.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index c87940e..3343317 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -59,6 +59,12 @@ func (h *hnsw) Add(id uint64, vector []float32) error {
 	if len(vector) == 0 {
 		return errors.Errorf("insert called with nil-vector")
 	}
+	for _, component := range vector {
+		// a distance to such a vector is not a number, and breaks every search
+		if math.IsNaN(float64(component)) || math.IsInf(float64(component), 0) {
+			return errors.Errorf("insert called with a vector that has a component %v", component)
+		}
+	}
 
 	h.metrics.InsertVector()
 	defer h.insertMetrics.total(before)
-- 
2.43.0


From 97fe665a0969e08f5556863126304ec8ebb627ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:34 +0000
Subject: [PATCH 32/39] fix: concurrent loads of a node share one copy of it

---
 pkg/hnsw/index.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index eb0ff2e..f2f319f 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -633,7 +633,11 @@ func (h *hnsw) nodeByID(id uint64) *vertex {
 			fmt.Println("nodeByID: could not Unmarshal node", err)
 			return nil
 		}
-		h.indexCache.Add(id, v)
+		// a concurrent call may have loaded the node too, and all of them have to
+		// see the changes to it
+		if previous, ok, _ := h.indexCache.PeekOrAdd(id, v); ok {
+			return previous.(*vertex)
+		}
 		return v
 	}
 }
-- 
2.43.0


From e2c6c7c78e951bd92374dd72eabe32c15ca632df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:27 +0000
Subject: [PATCH 33/39] fix: a search during an add does not put back the
 stored entry point

---
 pkg/hnsw/delete.go |  1 +
 pkg/hnsw/index.go  |  4 ++++
 pkg/hnsw/insert.go | 10 ++++++++--
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/delete.go b/pkg/hnsw/delete.go
index 4d13c75..9520696 100644
--- a/pkg/hnsw/delete.go
+++ b/pkg/hnsw/delete.go
@@ -115,6 +115,7 @@ func (h *hnsw) resetUnsecured() error {
 	h.resetCtxCancel = resetCtxCancel
 
 	h.entryPointID = 0
+	h.entryPointKnown = false
 	h.currentMaximumLayer = 0
 	h.initialInsertOnce = &sync.Once{}
 	// TODO reset kv table
diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index f2f319f..bba1eec 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -75,6 +75,10 @@ type hnsw struct {
 	// this point is always currentMaximumLayer
 	entryPointID uint64
 
+	// whether the entry point is known, i.e. was set or loaded since the start,
+	// a stored one may be older
+	entryPointKnown bool
+
 	// ef parameter used in construction phases, should be higher than ef during querying
 	efConstruction int
 
diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index 3343317..f524496 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -92,6 +92,7 @@ func (h *hnsw) insertInitialElement(node *vertex, nodeVec []float32) error {
 	}
 
 	h.entryPointID = node.Id
+	h.entryPointKnown = true
 	h.currentMaximumLayer = 0
 	node.Connections = [][]uint64{
 		make([]uint64, 0, h.maximumConnectionsLayerZero),
@@ -183,9 +184,12 @@ func (h *hnsw) GetDocCount() (uint64, error) {
 }
 
 func (h *hnsw) LoadEntrypoint() error {
-	h.RLock()
-	defer h.RUnlock()
+	h.Lock()
+	defer h.Unlock()
 
+	if h.entryPointKnown {
+		return nil
+	}
 	_, v, err := h.nodes.KVGet(h.className, entrypointKey)
 	if err != nil {
 		h.entryPointID = 0
@@ -199,6 +203,7 @@ func (h *hnsw) LoadEntrypoint() error {
 	}
 
 	h.entryPointID = ep.ID
+	h.entryPointKnown = true
 	return nil
 }
 
@@ -308,6 +313,7 @@ func (h *hnsw) insert(node *vertex, nodeVec []float32) error {
 		}
 
 		h.entryPointID = nodeId
+		h.entryPointKnown = true
 		h.currentMaximumLayer = targetLevel
 	}
 	h.Unlock()
-- 
2.43.0


From d2045cb9bfdae8df07583cbff51050dbf6987a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:16 +0000
Subject: [PATCH 34/39] fix: a search by distance that widens does not repeat
 or miss vectors at equal distances

---
 pkg/hnsw/search.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index 03ffcd6..c548e8a 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -113,11 +113,14 @@ func (h *hnsw) SearchByVectorDistance(vector []float32, targetDistance float32,
 		offsetCap := searchParams.offsetCapacity(ids)
 		totalLimitCap := searchParams.totalLimitCapacity(ids)
 
-		ids, dist = ids[offsetCap:totalLimitCap], dist[offsetCap:totalLimitCap]
+		ids, dist = ids[:totalLimitCap], dist[:totalLimitCap]
 
-		if len(ids) == 0 {
+		if len(ids) == offsetCap {
 			return false, nil
 		}
+		// vectors at the same distance can come in another order than in the
+		// previous search, so its results are replaced instead of continued
+		resultIDs, resultDist = nil, nil
 
 		lastFound := dist[len(dist)-1]
 		shouldContinue = lastFound <= targetDistance
-- 
2.43.0


From a867cb7362c5871a1f6ec310ed580bc0b79003fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:44 +0000
Subject: [PATCH 35/39] fix: a commit log that is switched within a second gets
 a new file

---
 pkg/hnsw/commit_logger.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/commit_logger.go b/pkg/hnsw/commit_logger.go
index 0c3eb65..48ecbc4 100644
--- a/pkg/hnsw/commit_logger.go
+++ b/pkg/hnsw/commit_logger.go
@@ -511,8 +511,13 @@ func (l *hnswCommitLogger) switchCommitLogs(force bool) (bool, error) {
 		return true, err
 	}
 
-	// this is a new commit log, initialize with the current time stamp
-	fileName := fmt.Sprintf("%d", time.Now().Unix())
+	// this is a new commit log, initialize with the current time stamp, or the
+	// next one if the old log was started within the same second
+	timeStamp := time.Now().Unix()
+	if old, err := asTimeStamp(oldFileName); err == nil && timeStamp <= old {
+		timeStamp = old + 1
+	}
+	fileName := fmt.Sprintf("%d", timeStamp)
 
 	if force {
 		l.logger.WithField("action", "commit_log_file_switched").
-- 
2.43.0


From 4d5cb9dbd7c452f83e7c29d44025b3694ba5dc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:30 +0000
Subject: [PATCH 36/39] fix: the ids of documents whose adding was interrupted
 are not used again

---
 pkg/document/document.go | 11 +++++++++++
 pkg/hnsw/index.go        | 11 +++++++----
 pkg/hnsw/insert.go       | 33 ++++++++++++++++++++++-----------
 3 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 355cc62..06c19f2 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -383,6 +383,17 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 		count = 0
 	}
 
+	err = index.LoadEntrypoint()
+	if err != nil {
+		return err
+	}
+	// take the ids before anything is stored under them: if adding is interrupted,
+	// they must not be used again
+	err = index.SetDocCount(count + uint64(len(documents)))
+	if err != nil {
+		return err
+	}
+
 	indexId := count
 	addDocument := func(doc *Document) error {
 		if doc == nil {
diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index bba1eec..2e41d93 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -192,6 +192,7 @@ type CommitLogger interface {
 type VectorIndex interface {
 	Flush(docCount uint64) error
 	GetDocCount() (uint64, error)
+	SetDocCount(docCount uint64) error
 	LoadEntrypoint() error
 	Add(id uint64, vector []float32) error
 	KnnSearchByVectorMaxDist(query []float32, dist float32, ef int,
@@ -600,12 +601,14 @@ func (h *hnsw) isEmpty() bool {
 	return h.isEmptyUnsecured()
 }
 
+// isEmptyUnsecured tells whether there is no node to start from: the entrypoint
+// is stored after the nodes, a table without it has none that are linked.
 func (h *hnsw) isEmptyUnsecured() bool {
-	isEmpty, err := h.nodes.IsEmpty(h.className)
-	if err != nil {
-		return true
+	if h.entryPointKnown {
+		return false
 	}
-	return isEmpty
+	_, _, err := h.nodes.KVGet(h.className, entrypointKey)
+	return errors.Is(err, collection.ErrEntryNotFound)
 }
 
 func (h *hnsw) nodeByID(id uint64) *vertex {
diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index f524496..3131423 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -142,30 +142,41 @@ func (h *hnsw) Flush(docCount uint64) error {
 		h.indexCache.Add(node.Id, node)
 		h.uncommitted.Delete(node.Id)
 	}
-	ep := &entrypoint{
-		ID: h.entryPointID,
-	}
-	epBytes, err := json.Marshal(ep)
-	if err != nil {
-		return errors.Wrapf(err, "marshal entrypoint %d", h.entryPointID)
+	if h.entryPointKnown {
+		ep := &entrypoint{
+			ID: h.entryPointID,
+		}
+		epBytes, err := json.Marshal(ep)
+		if err != nil {
+			return errors.Wrapf(err, "marshal entrypoint %d", h.entryPointID)
+		}
+		err = h.nodes.KVPut(h.className, entrypointKey, epBytes)
+		if err != nil {
+			return errors.Wrapf(err, "put entrypoint %d", h.entryPointID)
+		}
 	}
-	err = h.nodes.KVPut(h.className, entrypointKey, epBytes)
+
+	err := h.SetDocCount(docCount)
 	if err != nil {
-		return errors.Wrapf(err, "put entrypoint %d", h.entryPointID)
+		return err
 	}
+	return h.commitLog.Flush()
+}
 
+// SetDocCount stores the number of ids that are taken.
+func (h *hnsw) SetDocCount(docCount uint64) error {
 	c := &count{
 		Count: docCount,
 	}
 	cBytes, err := json.Marshal(c)
 	if err != nil {
-		return errors.Wrapf(err, "marshal count %d", h.entryPointID)
+		return errors.Wrapf(err, "marshal count %d", docCount)
 	}
 	err = h.nodes.KVPut(h.className, countKey, cBytes)
 	if err != nil {
-		return errors.Wrapf(err, "put count %d", h.entryPointID)
+		return errors.Wrapf(err, "put count %d", docCount)
 	}
-	return h.commitLog.Flush()
+	return nil
 }
 
 func (h *hnsw) GetDocCount() (uint64, error) {
-- 
2.43.0


From 48fb41c90e884a1e846ad05b19c5dd2eef8433f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:30 +0000
Subject: [PATCH 37/39] fix: collections are not created or deleted while
 documents are being added

---
 pkg/document/document.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 06c19f2..6313cda 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -156,6 +156,9 @@ func (c *Client) OpenPod(pod string) error {
 }
 
 func (c *Client) CreateCollection(col *Collection) error {
+	// a new index must not replace one that documents are being added to
+	c.addLock.Lock()
+	defer c.addLock.Unlock()
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
@@ -223,6 +226,8 @@ func (c *Client) CreateCollection(col *Collection) error {
 }
 
 func (c *Client) DeleteCollection(collection string) error {
+	c.addLock.Lock()
+	defer c.addLock.Unlock()
 	c.lock.Lock()
 	defer c.lock.Unlock()
 	if c.sessionId == "" {
-- 
2.43.0


From 9025483d69fc686f35988d82670bac7b30cf13f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:50 +0000
Subject: [PATCH 38/39] fix: a search does not descend through a node that is
 still being inserted

---
 pkg/hnsw/search_with_max_dist.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/search_with_max_dist.go b/pkg/hnsw/search_with_max_dist.go
index 55eaa3f..c2cf1be 100644
--- a/pkg/hnsw/search_with_max_dist.go
+++ b/pkg/hnsw/search_with_max_dist.go
@@ -48,8 +48,12 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 		}
 		if res.Len() > 0 {
 			best := res.Pop()
-			entryPointID = best.ID
-			entryPointDistance = best.Dist
+			// a node that is still being inserted has no connections on the lower
+			// layers yet, so it cannot be the entrypoint there
+			if n := h.nodeByID(best.ID); n != nil && !n.isUnderMaintenance() {
+				entryPointID = best.ID
+				entryPointDistance = best.Dist
+			}
 		}
 
 		h.pools.pqResults.Put(res)
-- 
2.43.0


From e51e71faacd47b0be3a2f14bc501baa637c8c2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:37 +0000
Subject: [PATCH 39/39] fix: closing an index cannot get stuck with the clean
 up of its cache

---
 pkg/hnsw/compressed_vector_cache.go | 4 ++++
 pkg/hnsw/vector_cache.go            | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/hnsw/compressed_vector_cache.go b/pkg/hnsw/compressed_vector_cache.go
index 97bfc25..abee01a 100644
--- a/pkg/hnsw/compressed_vector_cache.go
+++ b/pkg/hnsw/compressed_vector_cache.go
@@ -166,7 +166,11 @@ func (n *compressedShardedLockCache) countVectors() int64 {
 
 //nolint:unused
 func (n *compressedShardedLockCache) drop() {
+	// the lock keeps the clean up of a full cache from taking some of the
+	// locks that deleting needs all of
+	n.maintenanceLock.Lock()
 	n.deleteAllVectors()
+	n.maintenanceLock.Unlock()
 	n.cancel <- true
 }
 
diff --git a/pkg/hnsw/vector_cache.go b/pkg/hnsw/vector_cache.go
index fcd2d73..f5dd0c1 100644
--- a/pkg/hnsw/vector_cache.go
+++ b/pkg/hnsw/vector_cache.go
@@ -215,7 +215,11 @@ func (s *shardedLockCache) countVectors() int64 {
 
 //nolint:unused
 func (s *shardedLockCache) drop() {
+	// the lock keeps the clean up of a full cache from taking some of the
+	// locks that deleting needs all of
+	s.maintenanceLock.Lock()
 	s.deleteAllVectors()
+	s.maintenanceLock.Unlock()
 	s.cancel <- true
 }
 
-- 
2.43.0

