From 763edcb775ad74eafeec5d425462a16e4ac2be4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:28 +0000
Subject: [PATCH 001/118] fix: apply SQLite pragmas to every pooled connection

The DSN used mattn-style _journal_mode/_busy_timeout parameters that the
modernc driver ignores, and foreign_keys was only enabled on the one pooled
connection that ran the PRAGMA, so cascades were skipped and concurrent
writers failed with SQLITE_BUSY on other connections. recursive_triggers
makes INSERT OR REPLACE fire the delete triggers that keep the full-text
index in step with the embeddings table.
---
 pkg/core/store_init.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pkg/core/store_init.go b/pkg/core/store_init.go
index 18f515d..e01bbd5 100644
--- a/pkg/core/store_init.go
+++ b/pkg/core/store_init.go
@@ -19,11 +19,15 @@ func (s *SQLiteStore) Init(ctx context.Context) error {
 	}
 
 	// Open database connection
-	// _journal_mode=WAL: Better concurrency
-	// _synchronous=NORMAL: Good balance of safety and speed
-	// _busy_timeout=5000: Wait up to 5s for lock instead of failing immediately
-	// _cache_size=-2000: Use 2MB of memory for cache (negative value = kb)
-	dsn := fmt.Sprintf("%s?_journal_mode=WAL&_synchronous=NORMAL&_busy_timeout=5000&_cache_size=-2000", s.config.Path)
+	// Every pragma is passed in the DSN so that it applies to each pooled connection:
+	// foreign_keys: Enforce cascading deletes
+	// recursive_triggers: Fire delete triggers on REPLACE so the FTS index stays in sync
+	// busy_timeout: Wait up to 5s for lock instead of failing immediately
+	// journal_mode=WAL: Better concurrency
+	// synchronous=NORMAL: Good balance of safety and speed
+	// cache_size=-2000: Use 2MB of memory for cache (negative value = kb)
+	dsn := fmt.Sprintf("%s?_pragma=busy_timeout(5000)&_pragma=foreign_keys(1)&_pragma=recursive_triggers(1)"+
+		"&_pragma=journal_mode(WAL)&_pragma=synchronous(NORMAL)&_pragma=cache_size(-2000)", s.config.Path)
 	db, err := sql.Open("sqlite", dsn)
 	if err != nil {
 		return wrapError("init", fmt.Errorf("failed to open database: %w", err))
-- 
2.43.0


From 4503ab5dacc2979428bd6175263ec1c350fb70f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:04 +0000
Subject: [PATCH 002/118] fix: avoid recursive read locks in the store

HybridSearch, SearchWithDiversity, SearchWithReranker, SearchMultiVector,
Upsert, UpsertBatch, GetCollectionStats and Dump called other public methods
while holding the read lock; with a writer queued in between the second RLock
blocks forever and the whole store deadlocks.
---
 pkg/core/advanced_search.go |  4 ++--
 pkg/core/collections.go     |  7 ++++++-
 pkg/core/io.go              |  2 +-
 pkg/core/multi_vector.go    |  2 +-
 pkg/core/reranker.go        |  4 ++--
 pkg/core/store.go           |  5 +++++
 pkg/core/store_crud.go      |  4 ++--
 pkg/core/store_search.go    | 12 +++++++-----
 8 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/pkg/core/advanced_search.go b/pkg/core/advanced_search.go
index 10bbc35..75a693d 100644
--- a/pkg/core/advanced_search.go
+++ b/pkg/core/advanced_search.go
@@ -68,7 +68,7 @@ func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, t
 	var vectorResults []ScoredEmbedding
 	var err error
 	if len(vectorQuery) > 0 {
-		vectorResults, err = s.Search(ctx, vectorQuery, opts.SearchOptions)
+		vectorResults, err = s.search(ctx, vectorQuery, opts.SearchOptions)
 		if err != nil {
 			return nil, fmt.Errorf("vector search failed: %w", err)
 		}
@@ -351,7 +351,7 @@ func (s *SQLiteStore) SearchWithDiversity(ctx context.Context, query []float32,
 	searchOpts := opts.SearchOptions
 	searchOpts.TopK = opts.TopK * 3 // Get 3x candidates for diversity selection
 	
-	candidates, err := s.Search(ctx, query, searchOpts)
+	candidates, err := s.search(ctx, query, searchOpts)
 	if err != nil {
 		return nil, wrapError("search_diversity", err)
 	}
diff --git a/pkg/core/collections.go b/pkg/core/collections.go
index 5af01a8..ab5b9c0 100644
--- a/pkg/core/collections.go
+++ b/pkg/core/collections.go
@@ -113,6 +113,11 @@ func (s *SQLiteStore) GetCollection(ctx context.Context, name string) (*Collecti
 		return nil, wrapError("get_collection", ErrStoreClosed)
 	}
 
+	return s.getCollection(ctx, name)
+}
+
+// getCollection retrieves a collection by name; the caller holds s.mu
+func (s *SQLiteStore) getCollection(ctx context.Context, name string) (*Collection, error) {
 	collection := &Collection{}
 	var metadataJSON sql.NullString
 	var description sql.NullString
@@ -273,7 +278,7 @@ func (s *SQLiteStore) GetCollectionStats(ctx context.Context, name string) (*Col
 	}
 
 	// First get collection info
-	collection, err := s.GetCollection(ctx, name)
+	collection, err := s.getCollection(ctx, name)
 	if err != nil {
 		return nil, err
 	}
diff --git a/pkg/core/io.go b/pkg/core/io.go
index 1ce0fae..bb2f0c2 100644
--- a/pkg/core/io.go
+++ b/pkg/core/io.go
@@ -106,7 +106,7 @@ func (s *SQLiteStore) dumpJSON(ctx context.Context, w io.Writer, opts DumpOption
 	stats.TotalEmbeddings = len(embeddings)
 
 	// Get metadata
-	schemaStats, _ := s.Stats(ctx)
+	schemaStats, _ := s.stats(ctx)
 	stats.TotalDocuments = int(schemaStats.Count)
 
 	// Build export structure
diff --git a/pkg/core/multi_vector.go b/pkg/core/multi_vector.go
index 825dbca..a3bf0f1 100644
--- a/pkg/core/multi_vector.go
+++ b/pkg/core/multi_vector.go
@@ -150,7 +150,7 @@ func (s *SQLiteStore) SearchMultiVector(ctx context.Context, queryVectors map[st
 		}
 		fieldOpts.Filter["_vector_field"] = fieldName
 		
-		results, err := s.Search(ctx, queryVector, fieldOpts)
+		results, err := s.search(ctx, queryVector, fieldOpts)
 		if err != nil {
 			continue
 		}
diff --git a/pkg/core/reranker.go b/pkg/core/reranker.go
index c52f54b..24d26ae 100644
--- a/pkg/core/reranker.go
+++ b/pkg/core/reranker.go
@@ -55,7 +55,7 @@ func (s *SQLiteStore) SearchWithReranker(ctx context.Context, queryVec []float32
 
 	if reranker == nil {
 		// No reranker, return normal search results
-		return s.Search(ctx, queryVec, SearchOptions{TopK: opts.TopK})
+		return s.search(ctx, queryVec, SearchOptions{TopK: opts.TopK})
 	}
 
 	// Perform initial search with more candidates than needed
@@ -65,7 +65,7 @@ func (s *SQLiteStore) SearchWithReranker(ctx context.Context, queryVec []float32
 		initialTopK = 50
 	}
 
-	initialResults, err := s.Search(ctx, queryVec, SearchOptions{TopK: initialTopK})
+	initialResults, err := s.search(ctx, queryVec, SearchOptions{TopK: initialTopK})
 	if err != nil {
 		return nil, wrapError("search_rerank", fmt.Errorf("initial search failed: %w", err))
 	}
diff --git a/pkg/core/store.go b/pkg/core/store.go
index c589b7c..33f697f 100644
--- a/pkg/core/store.go
+++ b/pkg/core/store.go
@@ -112,6 +112,11 @@ func (s *SQLiteStore) Stats(ctx context.Context) (StoreStats, error) {
 		return StoreStats{}, wrapError("stats", ErrStoreClosed)
 	}
 
+	return s.stats(ctx)
+}
+
+// stats computes store statistics; the caller holds s.mu
+func (s *SQLiteStore) stats(ctx context.Context) (StoreStats, error) {
 	var count int64
 	err := s.db.QueryRowContext(ctx, "SELECT COUNT(*) FROM embeddings").Scan(&count)
 	if err != nil {
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index a74fab6..b82a209 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -92,7 +92,7 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 	if collectionID == 0 {
 		// If no collection specified, use default or get by name
 		if emb.Collection != "" {
-			collection, err := s.GetCollection(ctx, emb.Collection)
+			collection, err := s.getCollection(ctx, emb.Collection)
 			if err != nil {
 				return wrapError("upsert", fmt.Errorf("collection '%s' not found: %w", emb.Collection, err))
 			}
@@ -233,7 +233,7 @@ func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error
 		if collectionID == 0 {
 			// If no collection specified, use default or get by name
 			if emb.Collection != "" {
-				collection, err := s.GetCollection(ctx, emb.Collection)
+				collection, err := s.getCollection(ctx, emb.Collection)
 				if err != nil {
 					return wrapError("upsert_batch", fmt.Errorf("collection '%s' not found at index %d: %w", emb.Collection, i, err))
 				}
diff --git a/pkg/core/store_search.go b/pkg/core/store_search.go
index 1c7d15d..74baa1d 100644
--- a/pkg/core/store_search.go
+++ b/pkg/core/store_search.go
@@ -14,13 +14,18 @@ import (
 // Search performs vector similarity search
 func (s *SQLiteStore) Search(ctx context.Context, query []float32, opts SearchOptions) ([]ScoredEmbedding, error) {
 	s.mu.RLock()
-	storeDim := s.config.VectorDim
-	s.mu.RUnlock()
+	defer s.mu.RUnlock()
 
 	if s.closed {
 		return nil, wrapError("search", ErrStoreClosed)
 	}
 
+	return s.search(ctx, query, opts)
+}
+
+// search performs vector similarity search; the caller holds s.mu
+func (s *SQLiteStore) search(ctx context.Context, query []float32, opts SearchOptions) ([]ScoredEmbedding, error) {
+	storeDim := s.config.VectorDim
 	queryDim := len(query)
 
 	// Auto-adapt query vector if dimensions don't match
@@ -33,9 +38,6 @@ func (s *SQLiteStore) Search(ctx context.Context, query []float32, opts SearchOp
 		query = adaptedQuery
 	}
 
-	s.mu.RLock()
-	defer s.mu.RUnlock()
-
 	if err := s.validateSearchInput(query, opts); err != nil {
 		return nil, wrapError("search", err)
 	}
-- 
2.43.0


From 53179b7bc6fd529ac8000f57dd756cee15640f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:34 +0000
Subject: [PATCH 003/118] fix: keep HNSW and IVF indexes consistent across
 updates and deletes

- HNSW: a soft-deleted ID can be inserted again (with its new vector) instead
  of staying invisible; Search widens ef to k; the index copies the vectors it
  keeps; sub-graphs built in parallel are connected when merged, instead of
  leaving all but one of them unreachable.
- IVF: Delete takes the lock and renumbers every inverted list, instead of
  stopping at the deleted entry and leaving later entries off by one (wrong
  IDs, index out of range).
---
 pkg/index/hnsw.go | 115 +++++++++++++++++++++++++++++++++++++++++++---
 pkg/index/ivf.go  |  21 ++++++---
 2 files changed, 122 insertions(+), 14 deletions(-)

diff --git a/pkg/index/hnsw.go b/pkg/index/hnsw.go
index 4c55f1f..99d79c5 100644
--- a/pkg/index/hnsw.go
+++ b/pkg/index/hnsw.go
@@ -175,13 +175,17 @@ func (h *HNSW) Insert(id string, vector []float32) error {
 	h.mu.Lock()
 	defer h.mu.Unlock()
 	
-	if _, exists := h.Nodes[id]; exists {
-		return fmt.Errorf("node %s already exists", id)
+	if existing, exists := h.Nodes[id]; exists {
+		if !existing.Deleted {
+			return fmt.Errorf("node %s already exists", id)
+		}
+		// Re-inserting a soft-deleted ID: drop the old node first
+		h.unlink(id)
 	}
 	
-	// Prepare node data
+	// Prepare node data (copied: the caller keeps ownership of its slice)
 	var quantized []byte
-	var storedVector []float32 = vector
+	var storedVector []float32 = append([]float32(nil), vector...)
 	
 	if h.Quantizer != nil {
 		var err error
@@ -419,11 +423,84 @@ func (h *HNSW) addConnection(from, to string, layer int) {
 	fromNode.Neighbors[layer] = append(fromNode.Neighbors[layer], to)
 }
 
+// nodeVector returns a node's vector, decoding it if only the quantized form is kept
+func (h *HNSW) nodeVector(node *HNSWNode) []float32 {
+	if node.Vector == nil && node.Quantized != nil && h.Quantizer != nil {
+		vec, _ := h.Quantizer.Decode(node.Quantized)
+		return vec
+	}
+	return node.Vector
+}
+
+// containsID reports whether ids contains id
+func containsID(ids []string, id string) bool {
+	for _, other := range ids {
+		if other == id {
+			return true
+		}
+	}
+	return false
+}
+
+// unlink removes a node from the graph, reconnecting its neighbors to each other
+func (h *HNSW) unlink(id string) {
+	removed, exists := h.Nodes[id]
+	if !exists {
+		return
+	}
+	delete(h.Nodes, id)
+
+	for _, node := range h.Nodes {
+		for lc, neighbors := range node.Neighbors {
+			if !containsID(neighbors, id) {
+				continue
+			}
+			kept := make([]string, 0, len(neighbors))
+			for _, neighbor := range neighbors {
+				if neighbor != id {
+					kept = append(kept, neighbor)
+				}
+			}
+			if lc < len(removed.Neighbors) {
+				for _, neighbor := range removed.Neighbors[lc] {
+					if _, ok := h.Nodes[neighbor]; ok && neighbor != node.ID && !containsID(kept, neighbor) {
+						kept = append(kept, neighbor)
+					}
+				}
+			}
+			maxConn := h.M
+			if lc == 0 {
+				maxConn = h.MaxM
+			}
+			if vec := h.nodeVector(node); vec != nil {
+				kept = h.selectNeighborsHeuristic(vec, kept, maxConn, lc)
+			}
+			node.Neighbors[lc] = kept
+		}
+	}
+
+	if h.EntryPoint == id {
+		h.EntryPoint = ""
+		best := -1
+		for nodeID, node := range h.Nodes {
+			if node.Level > best {
+				best = node.Level
+				h.EntryPoint = nodeID
+			}
+		}
+	}
+}
+
 // Search performs k-NN search
 func (h *HNSW) Search(query []float32, k int, ef int) ([]string, []float32) {
 	h.mu.RLock()
 	defer h.mu.RUnlock()
 	
+	// The candidate list must be able to hold k results
+	if ef < k {
+		ef = k
+	}
+	
 	if h.EntryPoint == "" {
 		return []string{}, []float32{}
 	}
@@ -637,13 +714,16 @@ func (h *HNSW) InsertBatch(vectors []struct {
 	defer h.mu.Unlock()
 
 	for _, v := range vectors {
-		if _, exists := h.Nodes[v.ID]; exists {
-			continue // Skip duplicates
+		if existing, exists := h.Nodes[v.ID]; exists {
+			if !existing.Deleted {
+				continue // Skip duplicates
+			}
+			h.unlink(v.ID)
 		}
 
 		// Prepare node data
 		var quantized []byte
-		var storedVector []float32 = v.Vector
+		var storedVector []float32 = append([]float32(nil), v.Vector...)
 
 		if h.Quantizer != nil {
 			var err error
@@ -896,11 +976,32 @@ func (h *HNSW) InsertBatchParallel(vectors []struct {
 	defer h.mu.Unlock()
 
 	for _, pg := range graphs {
+		// Connect this sub-graph to what is already in the index
+		links := make(map[string][]string)
+		if h.EntryPoint != "" {
+			for id, node := range pg.nodes {
+				vec := h.nodeVector(node)
+				if _, exists := h.Nodes[id]; exists || vec == nil {
+					continue
+				}
+				nearest := h.searchLayer(vec, []string{h.EntryPoint}, h.EfConstruction, 0)
+				links[id] = h.selectNeighborsHeuristic(vec, nearest, h.M, 0)
+			}
+		}
 		for id, node := range pg.nodes {
 			if _, exists := h.Nodes[id]; !exists {
 				h.Nodes[id] = node
 			}
 		}
+		for id, neighbors := range links {
+			for _, neighbor := range neighbors {
+				h.addConnection(id, neighbor, 0)
+				h.addConnection(neighbor, id, 0)
+			}
+		}
+		if h.EntryPoint == "" {
+			h.EntryPoint = pg.entryPoint
+		}
 	}
 
 	// Update entry point
diff --git a/pkg/index/ivf.go b/pkg/index/ivf.go
index 6b37078..8fd8cfa 100644
--- a/pkg/index/ivf.go
+++ b/pkg/index/ivf.go
@@ -127,7 +127,7 @@ func (ivf *IVFIndex) Add(id string, vector []float32) error {
 	ivf.Invlists[centroidIdx] = append(ivf.Invlists[centroidIdx], vectorIdx)
 	
 	// Store vector and ID
-	ivf.Vectors = append(ivf.Vectors, vector)
+	ivf.Vectors = append(ivf.Vectors, append([]float32(nil), vector...))
 	ivf.IDs = append(ivf.IDs, id)
 	
 	return nil
@@ -396,6 +396,9 @@ func min(a, b int) int {
 
 // Delete removes a vector from the index
 func (ivf *IVFIndex) Delete(id string) error {
+	ivf.mu.Lock()
+	defer ivf.mu.Unlock()
+	
 	if !ivf.Trained {
 		return errors.New("index not trained")
 	}
@@ -423,15 +426,17 @@ func (ivf *IVFIndex) Delete(id string) error {
 	
 	// Remove from inverted lists
 	for i := range ivf.Invlists {
-		for j, idx := range ivf.Invlists[i] {
+		kept := ivf.Invlists[i][:0]
+		for _, idx := range ivf.Invlists[i] {
 			if idx == vectorIndex {
-				ivf.Invlists[i] = append(ivf.Invlists[i][:j], ivf.Invlists[i][j+1:]...)
-				break
-			} else if idx > vectorIndex {
-				// Update indices after deletion
-				ivf.Invlists[i][j] = idx - 1
+				continue
 			}
+			if idx > vectorIndex {
+				idx-- // Update indices after deletion
+			}
+			kept = append(kept, idx)
 		}
+		ivf.Invlists[i] = kept
 	}
 	
 	return nil
@@ -439,5 +444,7 @@ func (ivf *IVFIndex) Delete(id string) error {
 
 // Size returns the number of vectors in the index
 func (ivf *IVFIndex) Size() int {
+	ivf.mu.RLock()
+	defer ivf.mu.RUnlock()
 	return len(ivf.Vectors)
 }
\ No newline at end of file
-- 
2.43.0


From 9c61f7dcea4411d04312883887d0cef6a3afc729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:21 +0000
Subject: [PATCH 004/118] fix: keep memory indexes in step with every store
 mutation

Updating an embedding left its old vector in the HNSW index (Insert refuses an
existing ID) and duplicated it in the IVF index; DeleteByDocID, Clear,
ClearByDocID and DeleteCollection left deleted vectors in both, crowding live
results out of the candidate list; multi-vector upserts reached the index
before the transaction committed and never reached the IVF index.
---
 pkg/core/collections.go  |   7 +++
 pkg/core/document.go     |  23 ++------
 pkg/core/multi_vector.go |  30 ++++------
 pkg/core/store_crud.go   | 116 +++++++++++----------------------------
 pkg/core/store_index.go  |  57 +++++++++++++++++++
 5 files changed, 113 insertions(+), 120 deletions(-)

diff --git a/pkg/core/collections.go b/pkg/core/collections.go
index ab5b9c0..6a27281 100644
--- a/pkg/core/collections.go
+++ b/pkg/core/collections.go
@@ -248,6 +248,11 @@ func (s *SQLiteStore) DeleteCollection(ctx context.Context, name string) error {
 		return wrapError("delete_collection", fmt.Errorf("failed to find collection: %w", err))
 	}
 
+	embeddingIDs, err := s.embeddingIDs(ctx, "collection_id = ?", collectionID)
+	if err != nil {
+		return wrapError("delete_collection", err)
+	}
+
 	// Delete all embeddings in the collection
 	_, err = tx.ExecContext(ctx, "DELETE FROM embeddings WHERE collection_id = ?", collectionID)
 	if err != nil {
@@ -265,6 +270,8 @@ func (s *SQLiteStore) DeleteCollection(ctx context.Context, name string) error {
 		return wrapError("delete_collection", fmt.Errorf("failed to commit transaction: %w", err))
 	}
 
+	s.removeFromIndexes(embeddingIDs...)
+
 	return nil
 }
 
diff --git a/pkg/core/document.go b/pkg/core/document.go
index 990feb0..e5b73d0 100644
--- a/pkg/core/document.go
+++ b/pkg/core/document.go
@@ -104,30 +104,19 @@ func (s *SQLiteStore) DeleteDocument(ctx context.Context, id string) error {
 
 	// 1. Find all embedding IDs for this document to remove from HNSW index
 	// Note: SQLite FK CASCADE will handle the table rows, but we must manually update memory index
-	if s.hnswIndex != nil || s.ivfIndex != nil {
-		rows, err := s.db.QueryContext(ctx, "SELECT id FROM embeddings WHERE doc_id = ?", id)
-		if err == nil {
-			defer rows.Close()
-			for rows.Next() {
-				var embID string
-				if err := rows.Scan(&embID); err == nil {
-					if s.hnswIndex != nil {
-						_ = s.hnswIndex.Delete(embID)
-					}
-					if s.ivfIndex != nil {
-						_ = s.ivfIndex.Delete(embID)
-					}
-				}
-			}
-		}
+	ids, err := s.embeddingIDs(ctx, "doc_id = ?", id)
+	if err != nil {
+		return wrapError("delete_document", err)
 	}
 
 	// 2. Delete document (Cascade will delete embeddings from DB)
-	_, err := s.db.ExecContext(ctx, "DELETE FROM documents WHERE id = ?", id)
+	_, err = s.db.ExecContext(ctx, "DELETE FROM documents WHERE id = ?", id)
 	if err != nil {
 		return wrapError("delete_document", fmt.Errorf("failed to delete document: %w", err))
 	}
 
+	s.removeFromIndexes(ids...)
+
 	return nil
 }
 
diff --git a/pkg/core/multi_vector.go b/pkg/core/multi_vector.go
index a3bf0f1..6ab607e 100644
--- a/pkg/core/multi_vector.go
+++ b/pkg/core/multi_vector.go
@@ -102,17 +102,17 @@ func (s *SQLiteStore) UpsertMultiVector(ctx context.Context, entity *MultiVector
 		if err != nil {
 			return wrapError("upsert_multi_vector", err)
 		}
-		
-		// Update HNSW index if enabled
-		if s.config.HNSW.Enabled && s.hnswIndex != nil {
-			if err := s.hnswIndex.Insert(compositeID, vector); err != nil {
-				// Log error but don't fail the entire operation
-				_ = err
-			}
-		}
 	}
 	
-	return tx.Commit()
+	if err := tx.Commit(); err != nil {
+		return wrapError("upsert_multi_vector", err)
+	}
+	
+	for fieldName, vector := range entity.Vectors {
+		s.addToIndexes(fmt.Sprintf("%s___%s", entity.ID, fieldName), vector)
+	}
+	
+	return nil
 }
 
 // SearchMultiVector performs multi-vector search
@@ -370,15 +370,7 @@ func (s *SQLiteStore) DeleteMultiVectorEntity(ctx context.Context, entityID stri
 		return wrapError("delete_multi_vector", err)
 	}
 	
-	// Update HNSW index
-	if s.config.HNSW.Enabled && s.hnswIndex != nil {
-		for _, id := range compositeIDs {
-			if err := s.hnswIndex.Delete(id); err != nil {
-				// Log error but don't fail the entire operation
-				_ = err
-			}
-		}
-	}
+	s.removeFromIndexes(compositeIDs...)
 	
 	return nil
-}
\ No newline at end of file
+}
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index b82a209..557b32b 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -140,19 +140,7 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 		return wrapError("upsert", fmt.Errorf("failed to insert embedding: %w", err))
 	}
 
-	// Update HNSW index if enabled
-	if s.config.HNSW.Enabled && s.hnswIndex != nil {
-		if err := s.hnswIndex.Insert(emb.ID, emb.Vector); err != nil {
-			s.logger.Warn("failed to insert vector into HNSW index", "id", emb.ID, "error", err)
-		}
-	}
-
-	// Update IVF index if enabled and trained
-	if s.config.IndexType == IndexTypeIVF && s.ivfIndex != nil && s.ivfIndex.Trained {
-		if err := s.ivfIndex.Add(emb.ID, emb.Vector); err != nil {
-			s.logger.Warn("failed to add vector to IVF index", "id", emb.ID, "error", err)
-		}
-	}
+	s.addToIndexes(emb.ID, emb.Vector)
 
 	return nil
 }
@@ -282,32 +270,9 @@ func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error
 
 	s.logger.Debug("batch upsert completed", "count", len(embs))
 
-	// Update HNSW index if enabled
-	if s.config.HNSW.Enabled && s.hnswIndex != nil {
-		var errorCount int
-		for _, emb := range embs {
-			if err := s.hnswIndex.Insert(emb.ID, emb.Vector); err != nil {
-				s.logger.Warn("failed to insert vector into HNSW index during batch upsert", "id", emb.ID, "error", err)
-				errorCount++
-			}
-		}
-		if errorCount > 0 {
-			s.logger.Warn("some vectors failed to insert into HNSW index during batch upsert", "count", errorCount)
-		}
-	}
-
-	// Update IVF index if enabled and trained
-	if s.config.IndexType == IndexTypeIVF && s.ivfIndex != nil && s.ivfIndex.Trained {
-		var errorCount int
-		for _, emb := range embs {
-			if err := s.ivfIndex.Add(emb.ID, emb.Vector); err != nil {
-				s.logger.Warn("failed to add vector to IVF index during batch upsert", "id", emb.ID, "error", err)
-				errorCount++
-			}
-		}
-		if errorCount > 0 {
-			s.logger.Warn("some vectors failed to add to IVF index during batch upsert", "count", errorCount)
-		}
+	// Update memory indexes
+	for _, emb := range embs {
+		s.addToIndexes(emb.ID, emb.Vector)
 	}
 
 	return nil
@@ -340,19 +305,8 @@ func (s *SQLiteStore) Delete(ctx context.Context, id string) error {
 		return wrapError("delete", ErrNotFound)
 	}
 
-	// Update HNSW index if enabled
-	if s.config.HNSW.Enabled && s.hnswIndex != nil {
-		if err := s.hnswIndex.Delete(id); err != nil {
-			s.logger.Warn("failed to delete vector from HNSW index", "id", id, "error", err)
-		}
-	}
-
-	// Update IVF index if enabled
-	if s.ivfIndex != nil {
-		if err := s.ivfIndex.Delete(id); err != nil {
-			s.logger.Warn("failed to delete vector from IVF index", "id", id, "error", err)
-		}
-	}
+	// Update memory indexes
+	s.removeFromIndexes(id)
 
 	return nil
 }
@@ -370,11 +324,18 @@ func (s *SQLiteStore) DeleteByDocID(ctx context.Context, docID string) error {
 		return wrapError("delete_by_doc_id", fmt.Errorf("doc ID cannot be empty"))
 	}
 
-	_, err := s.db.ExecContext(ctx, "DELETE FROM embeddings WHERE doc_id = ?", docID)
+	ids, err := s.embeddingIDs(ctx, "doc_id = ?", docID)
+	if err != nil {
+		return wrapError("delete_by_doc_id", err)
+	}
+
+	_, err = s.db.ExecContext(ctx, "DELETE FROM embeddings WHERE doc_id = ?", docID)
 	if err != nil {
 		return wrapError("delete_by_doc_id", fmt.Errorf("failed to delete embeddings: %w", err))
 	}
 
+	s.removeFromIndexes(ids...)
+
 	return nil
 }
 
@@ -440,21 +401,7 @@ func (s *SQLiteStore) DeleteBatch(ctx context.Context, ids []string) error {
 	}
 
 	// 2. Delete from Memory Indexes
-	if s.hnswIndex != nil {
-		for _, id := range validIDs {
-			if err := s.hnswIndex.Delete(id); err != nil {
-				s.logger.Warn("failed to delete vector from HNSW index during batch delete", "id", id, "error", err)
-			}
-		}
-	}
-
-	if s.ivfIndex != nil {
-		for _, id := range validIDs {
-			if err := s.ivfIndex.Delete(id); err != nil {
-				s.logger.Warn("failed to delete vector from IVF index during batch delete", "id", id, "error", err)
-			}
-		}
-	}
+	s.removeFromIndexes(validIDs...)
 
 	s.logger.Debug("batch delete completed", "deleted", totalRowsAffected)
 
@@ -510,21 +457,7 @@ func (s *SQLiteStore) DeleteByFilter(ctx context.Context, filter *MetadataFilter
 	}
 
 	// Update Memory Indexes
-	if s.hnswIndex != nil {
-		for _, id := range idsToDelete {
-			if err := s.hnswIndex.Delete(id); err != nil {
-				s.logger.Warn("failed to delete vector from HNSW index during filter delete", "id", id, "error", err)
-			}
-		}
-	}
-
-	if s.ivfIndex != nil {
-		for _, id := range idsToDelete {
-			if err := s.ivfIndex.Delete(id); err != nil {
-				s.logger.Warn("failed to delete vector from IVF index during filter delete", "id", id, "error", err)
-			}
-		}
-	}
+	s.removeFromIndexes(idsToDelete...)
 
 	s.logger.Debug("delete by filter completed", "deleted", len(idsToDelete))
 
@@ -540,11 +473,18 @@ func (s *SQLiteStore) Clear(ctx context.Context) error {
 		return wrapError("clear", ErrStoreClosed)
 	}
 
-	_, err := s.db.ExecContext(ctx, "DELETE FROM embeddings")
+	ids, err := s.embeddingIDs(ctx, "1 = 1")
+	if err != nil {
+		return wrapError("clear", err)
+	}
+
+	_, err = s.db.ExecContext(ctx, "DELETE FROM embeddings")
 	if err != nil {
 		return wrapError("clear", fmt.Errorf("failed to clear embeddings: %w", err))
 	}
 
+	s.removeFromIndexes(ids...)
+
 	s.logger.Info("cleared all embeddings")
 
 	return nil
@@ -586,10 +526,16 @@ func (s *SQLiteStore) ClearByDocID(ctx context.Context, docIDs []string) error {
 	}()
 
 	// Execute deletion for each doc ID
+	var deletedIDs []string
 	for _, docID := range docIDs {
 		if docID == "" {
 			continue // Skip empty doc IDs
 		}
+		ids, err := s.embeddingIDs(ctx, "doc_id = ?", docID)
+		if err != nil {
+			return wrapError("clear_by_doc_id", err)
+		}
+		deletedIDs = append(deletedIDs, ids...)
 		_, err = stmt.ExecContext(ctx, docID)
 		if err != nil {
 			return wrapError("clear_by_doc_id", fmt.Errorf("failed to delete embeddings for doc_id %s: %w", docID, err))
@@ -601,6 +547,8 @@ func (s *SQLiteStore) ClearByDocID(ctx context.Context, docIDs []string) error {
 		return wrapError("clear_by_doc_id", fmt.Errorf("failed to commit transaction: %w", err))
 	}
 
+	s.removeFromIndexes(deletedIDs...)
+
 	s.logger.Debug("cleared embeddings by doc IDs", "count", len(docIDs))
 
 	return nil
diff --git a/pkg/core/store_index.go b/pkg/core/store_index.go
index cfcbb15..444f43d 100644
--- a/pkg/core/store_index.go
+++ b/pkg/core/store_index.go
@@ -212,6 +212,63 @@ func (s *SQLiteStore) initIVFIndex(ctx context.Context) error {
 	return nil
 }
 
+// addToIndexes makes an inserted or updated vector visible in the memory indexes
+func (s *SQLiteStore) addToIndexes(id string, vector []float32) {
+	if s.config.HNSW.Enabled && s.hnswIndex != nil {
+		_ = s.hnswIndex.Delete(id) // Replace any previous vector
+		if err := s.hnswIndex.Insert(id, vector); err != nil {
+			s.logger.Warn("failed to insert vector into HNSW index", "id", id, "error", err)
+		}
+	}
+
+	if s.config.IndexType == IndexTypeIVF && s.ivfIndex != nil && s.ivfIndex.Trained {
+		_ = s.ivfIndex.Delete(id) // Replace any previous vector
+		if err := s.ivfIndex.Add(id, vector); err != nil {
+			s.logger.Warn("failed to add vector to IVF index", "id", id, "error", err)
+		}
+	}
+}
+
+// removeFromIndexes removes deleted vectors from the memory indexes
+func (s *SQLiteStore) removeFromIndexes(ids ...string) {
+	for _, id := range ids {
+		if s.hnswIndex != nil {
+			if err := s.hnswIndex.Delete(id); err != nil {
+				s.logger.Warn("failed to delete vector from HNSW index", "id", id, "error", err)
+			}
+		}
+		if s.ivfIndex != nil {
+			if err := s.ivfIndex.Delete(id); err != nil {
+				s.logger.Warn("failed to delete vector from IVF index", "id", id, "error", err)
+			}
+		}
+	}
+}
+
+// embeddingIDs lists the IDs of the embeddings matching a condition, for index cleanup.
+// It returns nothing when there is no memory index to clean up.
+func (s *SQLiteStore) embeddingIDs(ctx context.Context, where string, args ...interface{}) ([]string, error) {
+	if s.hnswIndex == nil && s.ivfIndex == nil {
+		return nil, nil
+	}
+
+	rows, err := s.db.QueryContext(ctx, "SELECT id FROM embeddings WHERE "+where, args...)
+	if err != nil {
+		return nil, fmt.Errorf("failed to query embedding IDs: %w", err)
+	}
+	defer func() { _ = rows.Close() }()
+
+	var ids []string
+	for rows.Next() {
+		var id string
+		if err := rows.Scan(&id); err != nil {
+			return nil, fmt.Errorf("failed to scan embedding ID: %w", err)
+		}
+		ids = append(ids, id)
+	}
+	return ids, rows.Err()
+}
+
 // TrainIndex trains the index with existing data
 func (s *SQLiteStore) TrainIndex(ctx context.Context, numCentroids int) error {
 	s.mu.Lock()
-- 
2.43.0


From 0b19b477cdbda47e9755c528b5fdc2df84b790d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:49 +0000
Subject: [PATCH 005/118] fix: make indexed search honour filters and the
 store's similarity

An HNSW or IVF search ignored a doc_id filter, and applied collection and
metadata filters only to the 2*TopK (4*TopK) nearest vectors, so a filtered
search returned too few or no results; SearchWithFilter filtered after cutting
to TopK. The HNSW index always ranked by cosine distance, whatever similarity
function the store was configured with.
---
 pkg/core/store_index.go  |  8 ++++----
 pkg/core/store_search.go | 35 +++++++++++++++++++++++++++++++++--
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/pkg/core/store_index.go b/pkg/core/store_index.go
index 444f43d..0d43e6d 100644
--- a/pkg/core/store_index.go
+++ b/pkg/core/store_index.go
@@ -33,10 +33,10 @@ func (s *SQLiteStore) initHNSWIndex(ctx context.Context) error {
 		}
 	}
 
-	// Create HNSW index with appropriate distance function
-	// Since we can't compare functions directly, we'll use cosine distance as default
-	// which works well for most similarity functions
-	distFunc := index.CosineDistance
+	// Create HNSW index whose distance orders vectors like the store's similarity function
+	distFunc := func(a, b []float32) float32 {
+		return float32(-s.similarityFn(a, b))
+	}
 
 	s.hnswIndex = index.NewHNSW(
 		s.config.HNSW.M,
diff --git a/pkg/core/store_search.go b/pkg/core/store_search.go
index 74baa1d..ad3e51b 100644
--- a/pkg/core/store_search.go
+++ b/pkg/core/store_search.go
@@ -120,6 +120,17 @@ func (s *SQLiteStore) SearchWithFilter(ctx context.Context, query []float32, opt
 		if err != nil {
 			return nil, wrapError("searchWithFilter", err)
 		}
+		if len(filtered) < len(candidates) {
+			// Non-matching candidates took up places in the top-k: filter the whole store
+			all, err := s.fetchCandidates(ctx, opts)
+			if err != nil {
+				return nil, wrapError("searchWithFilter", err)
+			}
+			if all, err = s.filterByMetadata(all, metadataFilters); err != nil {
+				return nil, wrapError("searchWithFilter", err)
+			}
+			filtered = s.scoreCandidates(query, all, opts)
+		}
 		candidates = filtered
 	}
 
@@ -150,7 +161,7 @@ func (s *SQLiteStore) searchWithHNSW(ctx context.Context, query []float32, opts
 		return nil, fmt.Errorf("failed to fetch candidates: %w", err)
 	}
 
-	return s.processCandidates(query, candidates, opts)
+	return s.processIndexCandidates(ctx, query, candidates, opts)
 }
 
 // searchWithIVF performs vector search using IVF index
@@ -177,6 +188,23 @@ func (s *SQLiteStore) searchWithIVF(ctx context.Context, query []float32, opts S
 		return nil, fmt.Errorf("failed to fetch candidates: %w", err)
 	}
 
+	return s.processIndexCandidates(ctx, query, candidates, opts)
+}
+
+// processIndexCandidates scores the candidates proposed by an index. The index knows nothing
+// about collections and filters, so when these (or deleted vectors) leave fewer than TopK
+// candidates the store is scanned instead.
+func (s *SQLiteStore) processIndexCandidates(ctx context.Context, query []float32, candidates []ScoredEmbedding, opts SearchOptions) ([]ScoredEmbedding, error) {
+	matching := 0
+	for _, candidate := range candidates {
+		if (opts.Collection == "" || candidate.Collection == opts.Collection) && s.matchesFilter(candidate.Embedding, opts.Filter) {
+			matching++
+		}
+	}
+	if matching < opts.TopK {
+		return s.searchLinear(ctx, query, opts)
+	}
+
 	return s.processCandidates(query, candidates, opts)
 }
 
@@ -420,7 +448,10 @@ func (s *SQLiteStore) scanEmbedding(rows *sql.Rows) (ScoredEmbedding, error) {
 func (s *SQLiteStore) matchesFilter(emb Embedding, filter map[string]string) bool {
 	for key, value := range filter {
 		if key == "doc_id" {
-			continue // Already filtered in SQL
+			if emb.DocID != value {
+				return false
+			}
+			continue
 		}
 		if emb.Metadata == nil || emb.Metadata[key] != value {
 			return false
-- 
2.43.0


From 43de884c3f8bd7f71ee0d2c5d0c9627e5c1fcbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:20 +0000
Subject: [PATCH 006/118] fix: apply the dimension policy and vector validation
 to every write

UpsertBatch stored vectors of any length whatever the policy, never detected
the store's dimension, and both upserts accepted NaN and infinite components,
whose scores have no order and scramble later results. SetAutoDimAdapt changed
the reported configuration but not the policy in force.
---
 pkg/core/store.go      |   1 +
 pkg/core/store_crud.go | 118 +++++++++++++++++++++++++++++------------
 2 files changed, 85 insertions(+), 34 deletions(-)

diff --git a/pkg/core/store.go b/pkg/core/store.go
index 33f697f..b150055 100644
--- a/pkg/core/store.go
+++ b/pkg/core/store.go
@@ -84,6 +84,7 @@ func (s *SQLiteStore) SetAutoDimAdapt(policy AdaptPolicy) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 	s.config.AutoDimAdapt = policy
+	s.adapter = NewDimensionAdapter(policy)
 }
 
 // GetDB returns the underlying database connection
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index 557b32b..1f25ba6 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -23,33 +23,13 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 
 	incomingDim := len(emb.Vector)
 
+	if err := validateFinite(emb.Vector); err != nil {
+		return wrapError("upsert", err)
+	}
+
 	// Auto-detect dimension on first insert
 	if currentDim == 0 {
-		s.mu.Lock()
-		if s.config.VectorDim == 0 { // Double-check after acquiring write lock
-			s.config.VectorDim = incomingDim
-			currentDim = incomingDim
-
-			// Initialize quantizer now that we know the dimension
-			if s.config.Quantization.Enabled && s.quantizer == nil {
-				if s.config.Quantization.Type == "binary" {
-					s.quantizer = quantization.NewBinaryQuantizer(currentDim)
-				} else {
-					sq, err := quantization.NewScalarQuantizer(currentDim, s.config.Quantization.NBits)
-					if err != nil {
-						s.logger.Warn("failed to create scalar quantizer", "error", err)
-					} else {
-						s.quantizer = sq
-					}
-				}
-				if s.hnswIndex != nil {
-					s.hnswIndex.SetQuantizer(s.quantizer)
-				}
-			}
-		} else {
-			currentDim = s.config.VectorDim
-		}
-		s.mu.Unlock()
+		currentDim = s.detectDimension(incomingDim)
 	}
 
 	// Auto-train quantizer if not trained
@@ -78,11 +58,6 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 		emb.Vector = adaptedVector
 	}
 
-	// Validate adapted embedding
-	if err := encoding.ValidateEmbedding(*emb, currentDim); err != nil {
-		return wrapError("upsert", err)
-	}
-
 	// Re-acquire read lock for database operations
 	s.mu.RLock()
 	defer s.mu.RUnlock()
@@ -145,8 +120,41 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 	return nil
 }
 
+// detectDimension fixes the store's dimension on first insert and returns the dimension in force
+func (s *SQLiteStore) detectDimension(dim int) int {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	if s.config.VectorDim == 0 {
+		s.config.VectorDim = dim
+
+		// Initialize quantizer now that we know the dimension
+		if s.config.Quantization.Enabled && s.quantizer == nil {
+			if s.config.Quantization.Type == "binary" {
+				s.quantizer = quantization.NewBinaryQuantizer(dim)
+			} else {
+				sq, err := quantization.NewScalarQuantizer(dim, s.config.Quantization.NBits)
+				if err != nil {
+					s.logger.Warn("failed to create scalar quantizer", "error", err)
+				} else {
+					s.quantizer = sq
+				}
+			}
+			if s.hnswIndex != nil {
+				s.hnswIndex.SetQuantizer(s.quantizer)
+			}
+		}
+	}
+
+	return s.config.VectorDim
+}
+
 // UpsertBatch inserts or updates multiple embeddings in a transaction
 func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error {
+	if err := s.prepareBatchVectors(embs); err != nil {
+		return wrapError("upsert_batch", err)
+	}
+
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
@@ -212,10 +220,6 @@ func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error
 
 	// Execute for each embedding
 	for i, emb := range embs {
-		if err := encoding.ValidateEmbedding(*emb, s.config.VectorDim); err != nil {
-			return wrapError("upsert_batch", fmt.Errorf("invalid embedding at index %d: %w", i, err))
-		}
-
 		// Determine collection ID
 		collectionID := emb.CollectionID
 		if collectionID == 0 {
@@ -278,6 +282,52 @@ func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error
 	return nil
 }
 
+// validateFinite rejects vectors with NaN or infinite components, which have no similarity order
+func validateFinite(vector []float32) error {
+	if len(vector) == 0 {
+		return nil
+	}
+	return encoding.ValidateVector(vector)
+}
+
+// prepareBatchVectors validates the vectors of a batch and applies the dimension policy to them
+func (s *SQLiteStore) prepareBatchVectors(embs []*Embedding) error {
+	s.mu.RLock()
+	dim, closed := s.config.VectorDim, s.closed
+	s.mu.RUnlock()
+
+	if closed {
+		return ErrStoreClosed
+	}
+
+	for i, emb := range embs {
+		if emb == nil {
+			return fmt.Errorf("invalid embedding at index %d: nil", i)
+		}
+		if err := validateFinite(emb.Vector); err != nil {
+			return fmt.Errorf("invalid embedding at index %d: %w", i, err)
+		}
+	}
+
+	if dim == 0 && len(embs) > 0 {
+		dim = s.detectDimension(len(embs[0].Vector))
+	}
+
+	for i, emb := range embs {
+		if len(emb.Vector) == dim {
+			continue
+		}
+		adapted, err := s.adapter.AdaptVector(emb.Vector, len(emb.Vector), dim)
+		if err != nil {
+			return fmt.Errorf("invalid embedding at index %d: %w", i, err)
+		}
+		s.adapter.logDimensionEvent("adapt", len(emb.Vector), dim, emb.ID)
+		emb.Vector = adapted
+	}
+
+	return nil
+}
+
 // Delete removes an embedding by ID
 func (s *SQLiteStore) Delete(ctx context.Context, id string) error {
 	s.mu.RLock()
-- 
2.43.0


From f6e0dbc32887f381fdacacf9eb49ce9cf9668502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:04 +0000
Subject: [PATCH 007/118] fix: do not open with an out-of-date dimension or
 index snapshot

Opening an auto-dimension store over existing data now detects the stored
dimension, and index snapshots that do not match the stored vectors are
rebuilt instead of being served.
---
 pkg/core/store_index.go | 83 ++++++++++++++++++++++++++++++++++++++++-
 pkg/core/store_init.go  | 25 +++++++++++++
 2 files changed, 106 insertions(+), 2 deletions(-)

diff --git a/pkg/core/store_index.go b/pkg/core/store_index.go
index 0d43e6d..98b4258 100644
--- a/pkg/core/store_index.go
+++ b/pkg/core/store_index.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"database/sql"
 	"fmt"
+	"slices"
 	"sync/atomic"
 	"time"
 
@@ -56,8 +57,22 @@ func (s *SQLiteStore) initHNSWIndex(ctx context.Context) error {
 	}
 
 	if loaded {
-		s.logger.Info("HNSW index loaded from snapshot")
-		return nil
+		current, err := s.hnswMatchesStore(ctx)
+		if err != nil {
+			return err
+		}
+		if current {
+			s.logger.Info("HNSW index loaded from snapshot")
+			return nil
+		}
+
+		// The snapshot predates later writes (e.g. the process was killed): start over
+		s.logger.Warn("HNSW snapshot is out of date, rebuilding")
+		loaded = false
+		s.hnswIndex = index.NewHNSW(s.config.HNSW.M, s.config.HNSW.EfConstruction, distFunc)
+		if s.quantizer != nil {
+			s.hnswIndex.SetQuantizer(s.quantizer)
+		}
 	}
 
 	// If quantization enabled but not loaded from snapshot, we need to train it before rebuilding
@@ -199,6 +214,11 @@ func (s *SQLiteStore) initIVFIndex(ctx context.Context) error {
 	}
 
 	if loaded {
+		// Keep the trained centroids, but take the vectors from the database: the snapshot
+		// may predate later writes (e.g. the process was killed)
+		if err := s.refillIVFIndex(ctx); err != nil {
+			return err
+		}
 		s.logger.Info("IVF index loaded from snapshot")
 		return nil
 	}
@@ -212,6 +232,65 @@ func (s *SQLiteStore) initIVFIndex(ctx context.Context) error {
 	return nil
 }
 
+// hnswMatchesStore reports whether the loaded HNSW index holds exactly the stored vectors
+func (s *SQLiteStore) hnswMatchesStore(ctx context.Context) (bool, error) {
+	live := s.hnswIndex.Size()
+	seen := 0
+	err := s.forEachVector(ctx, func(id string, vector []float32) bool {
+		node, ok := s.hnswIndex.Nodes[id]
+		if !ok || node.Deleted {
+			return false
+		}
+		seen++
+		if node.Vector != nil {
+			return slices.Equal(node.Vector, vector)
+		}
+		if s.quantizer == nil {
+			return false
+		}
+		encoded, err := s.quantizer.Encode(vector)
+		return err == nil && bytes.Equal(encoded, node.Quantized)
+	})
+	return seen == live, err
+}
+
+// refillIVFIndex replaces the vectors of the IVF index by the stored ones
+func (s *SQLiteStore) refillIVFIndex(ctx context.Context) error {
+	s.ivfIndex.Clear()
+	return s.forEachVector(ctx, func(id string, vector []float32) bool {
+		if err := s.ivfIndex.Add(id, vector); err != nil {
+			s.logger.Warn("failed to add vector to IVF index", "id", id, "error", err)
+		}
+		return true
+	})
+}
+
+// forEachVector calls fn with every stored vector until it returns false
+func (s *SQLiteStore) forEachVector(ctx context.Context, fn func(id string, vector []float32) bool) error {
+	rows, err := s.db.QueryContext(ctx, "SELECT id, vector FROM embeddings")
+	if err != nil {
+		return fmt.Errorf("failed to query existing vectors: %w", err)
+	}
+	defer func() { _ = rows.Close() }()
+
+	for rows.Next() {
+		var id string
+		var vectorBytes []byte
+		if err := rows.Scan(&id, &vectorBytes); err != nil {
+			return fmt.Errorf("failed to scan vector: %w", err)
+		}
+		vector, err := encoding.DecodeVector(vectorBytes)
+		if err != nil {
+			s.logger.Warn("failed to decode vector", "id", id, "error", err)
+			continue
+		}
+		if !fn(id, vector) {
+			return nil
+		}
+	}
+	return rows.Err()
+}
+
 // addToIndexes makes an inserted or updated vector visible in the memory indexes
 func (s *SQLiteStore) addToIndexes(id string, vector []float32) {
 	if s.config.HNSW.Enabled && s.hnswIndex != nil {
diff --git a/pkg/core/store_init.go b/pkg/core/store_init.go
index e01bbd5..5449e2b 100644
--- a/pkg/core/store_init.go
+++ b/pkg/core/store_init.go
@@ -6,6 +6,8 @@ import (
 	"fmt"
 	"time"
 
+	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
+
 	_ "modernc.org/sqlite" // SQLite driver
 )
 
@@ -52,6 +54,13 @@ func (s *SQLiteStore) Init(ctx context.Context) error {
 		return wrapError("init", err)
 	}
 
+	// Auto-detect mode: existing data fixes the dimension
+	if s.config.VectorDim == 0 {
+		if err := s.detectStoredDimension(ctx); err != nil {
+			return wrapError("init", err)
+		}
+	}
+
 	// Initialize HNSW index if enabled
 	if err := s.initHNSWIndex(ctx); err != nil {
 		return wrapError("init", err)
@@ -72,6 +81,22 @@ func (s *SQLiteStore) Init(ctx context.Context) error {
 	return nil
 }
 
+// detectStoredDimension takes the store's dimension from the vectors already stored, if any
+func (s *SQLiteStore) detectStoredDimension(ctx context.Context) error {
+	var vectorBytes []byte
+	err := s.db.QueryRowContext(ctx, "SELECT vector FROM embeddings WHERE length(vector) > 4 ORDER BY rowid LIMIT 1").Scan(&vectorBytes)
+	if err == sql.ErrNoRows {
+		return nil
+	}
+	if err != nil {
+		return fmt.Errorf("failed to detect stored dimension: %w", err)
+	}
+	if vector, err := encoding.DecodeVector(vectorBytes); err == nil {
+		s.config.VectorDim = len(vector)
+	}
+	return nil
+}
+
 // createTables creates the necessary database tables
 func (s *SQLiteStore) createTables(ctx context.Context) error {
 	createTableSQL := `
-- 
2.43.0


From 9460e81c642d59d3955701f3051f7ec6746cc496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:10 +0000
Subject: [PATCH 008/118] fix: evaluate metadata filters the same way
 everywhere

NOT, not-equal on missing fields, numeric and boolean operands, fields of
records without metadata and nested groups gave wrong or no matches in SQL,
filter clauses were ambiguous or leaked past the collection condition, facet
search truncated candidates before scoring, and ParseFilterString could not
parse its own documented example.
---
 pkg/core/advanced_filter.go | 209 ++++++++++++++++++++++--------------
 pkg/core/faceted_search.go  |  97 +++++------------
 pkg/core/io.go              |   6 +-
 3 files changed, 154 insertions(+), 158 deletions(-)

diff --git a/pkg/core/advanced_filter.go b/pkg/core/advanced_filter.go
index 61b701f..11e8944 100644
--- a/pkg/core/advanced_filter.go
+++ b/pkg/core/advanced_filter.go
@@ -48,50 +48,69 @@ type AdvancedSearchOptions struct {
 // ParseFilterString parses a string filter expression into FilterExpression
 // Example: "(tag:ai OR tag:ml) AND date>2024 AND price BETWEEN 100 AND 500"
 func ParseFilterString(filterStr string) (*FilterExpression, error) {
-	// Simple parser for demonstration - in production use a proper parser
 	filterStr = strings.TrimSpace(filterStr)
-	
-	// Handle parentheses for grouping
-	if strings.HasPrefix(filterStr, "(") && strings.HasSuffix(filterStr, ")") {
-		inner := filterStr[1 : len(filterStr)-1]
-		return ParseFilterString(inner)
-	}
-	
-	// Check for AND/OR at top level
-	if idx := strings.Index(filterStr, " AND "); idx > 0 {
-		left, err := ParseFilterString(filterStr[:idx])
-		if err != nil {
-			return nil, err
+
+	// OR binds weaker than AND
+	for _, op := range []FilterOperator{FilterOR, FilterAND} {
+		parts := splitTopLevel(filterStr, string(op))
+		if len(parts) < 2 {
+			continue
 		}
-		right, err := ParseFilterString(filterStr[idx+5:])
-		if err != nil {
-			return nil, err
+		children := make([]*FilterExpression, len(parts))
+		for i, part := range parts {
+			child, err := ParseFilterString(part)
+			if err != nil {
+				return nil, err
+			}
+			children[i] = child
 		}
-		return &FilterExpression{
-			Operator: FilterAND,
-			Children: []*FilterExpression{left, right},
-		}, nil
+		return &FilterExpression{Operator: op, Children: children}, nil
 	}
-	
-	if idx := strings.Index(filterStr, " OR "); idx > 0 {
-		left, err := ParseFilterString(filterStr[:idx])
-		if err != nil {
-			return nil, err
-		}
-		right, err := ParseFilterString(filterStr[idx+4:])
-		if err != nil {
-			return nil, err
-		}
-		return &FilterExpression{
-			Operator: FilterOR,
-			Children: []*FilterExpression{left, right},
-		}, nil
+
+	// Handle parentheses for grouping
+	if strings.HasPrefix(filterStr, "(") && strings.HasSuffix(filterStr, ")") {
+		return ParseFilterString(filterStr[1 : len(filterStr)-1])
 	}
-	
+
 	// Parse comparison operators
 	return parseComparison(filterStr)
 }
 
+// splitTopLevel splits expr at every " op " outside quotes and parentheses;
+// the AND of a "BETWEEN x AND y" does not separate expressions.
+func splitTopLevel(expr, op string) []string {
+	sep := " " + op + " "
+	var parts []string
+	var quote byte
+	depth, start := 0, 0
+	for i := 0; i < len(expr); i++ {
+		c := expr[i]
+		switch {
+		case quote != 0:
+			if c == quote {
+				quote = 0
+			}
+		case c == '\'' || c == '"':
+			quote = c
+		case c == '(':
+			depth++
+		case c == ')':
+			depth--
+		case depth == 0 && strings.HasPrefix(expr[i:], sep):
+			part := expr[start:i]
+			if op == string(FilterAND) {
+				if idx := strings.LastIndex(part, " BETWEEN "); idx >= 0 && !strings.Contains(part[idx:], " AND ") {
+					continue
+				}
+			}
+			parts = append(parts, part)
+			start = i + len(sep)
+			i = start - 2 // the separator's trailing space may start the next one
+		}
+	}
+	return append(parts, expr[start:])
+}
+
 func parseComparison(expr string) (*FilterExpression, error) {
 	// Check for BETWEEN
 	if strings.Contains(expr, " BETWEEN ") {
@@ -249,63 +268,85 @@ func BuildSQLFromFilter(filter *FilterExpression, paramIndex *int) (string, []in
 		}
 		return strings.Join(clauses, " OR "), params
 		
-	case FilterEQ:
-		*paramIndex++
-		params = append(params, filter.Value)
-		return fmt.Sprintf("json_extract(metadata, '$.%s') = ?", filter.Field), params
-		
-	case FilterNE:
-		*paramIndex++
-		params = append(params, filter.Value)
-		return fmt.Sprintf("json_extract(metadata, '$.%s') != ?", filter.Field), params
-		
-	case FilterGT:
-		*paramIndex++
-		params = append(params, filter.Value)
-		return fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) > ?", filter.Field), params
-		
-	case FilterGTE:
-		*paramIndex++
-		params = append(params, filter.Value)
-		return fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) >= ?", filter.Field), params
-		
-	case FilterLT:
-		*paramIndex++
-		params = append(params, filter.Value)
-		return fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) < ?", filter.Field), params
-		
-	case FilterLTE:
-		*paramIndex++
-		params = append(params, filter.Value)
-		return fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) <= ?", filter.Field), params
-		
+	case FilterNOT:
+		if len(filter.Children) == 0 {
+			return "0", nil
+		}
+		clause, childParams := BuildSQLFromFilter(filter.Children[0], paramIndex)
+		if clause == "" {
+			return "0", nil
+		}
+		return "NOT COALESCE((" + clause + "), 0)", childParams
+
+	case FilterEQ, FilterNE:
+		op := "="
+		if filter.Operator == FilterNE {
+			op = "IS NOT" // a missing field differs from every value
+		}
+		*paramIndex += 2
+		return metadataValueSQL + " " + op + " ?", []interface{}{metadataPath(filter.Field), metadataText(filter.Value)}
+
+	case FilterGT, FilterGTE, FilterLT, FilterLTE:
+		*paramIndex += 2
+		value, operand := metadataOperand(filter.Value)
+		return value + " " + string(filter.Operator) + " ?", []interface{}{metadataPath(filter.Field), operand}
+
 	case FilterBETWEEN:
 		values := filter.Value.([]interface{})
-		*paramIndex += 2
-		params = append(params, values[0], values[1])
-		return fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) BETWEEN ? AND ?", filter.Field), params
-		
+		return BuildSQLFromFilter(&FilterExpression{
+			Operator: FilterAND,
+			Children: []*FilterExpression{
+				{Operator: FilterGTE, Field: filter.Field, Value: values[0]},
+				{Operator: FilterLTE, Field: filter.Field, Value: values[1]},
+			},
+		}, paramIndex)
+
 	case FilterIN:
 		values := filter.Value.([]interface{})
+		*paramIndex += len(values) + 1
+		params = append(params, metadataPath(filter.Field))
 		placeholders := make([]string, len(values))
 		for i, v := range values {
-			*paramIndex++
 			placeholders[i] = "?"
-			params = append(params, v)
+			params = append(params, metadataText(v))
 		}
-		return fmt.Sprintf("json_extract(metadata, '$.%s') IN (%s)", 
-			filter.Field, strings.Join(placeholders, ",")), params
-		
+		return fmt.Sprintf("%s IN (%s)", metadataValueSQL, strings.Join(placeholders, ",")), params
+
 	case FilterLIKE:
-		*paramIndex++
-		params = append(params, filter.Value)
-		return fmt.Sprintf("json_extract(metadata, '$.%s') LIKE ?", filter.Field), params
-		
+		*paramIndex += 2
+		return metadataValueSQL + " LIKE ?", []interface{}{metadataPath(filter.Field), filter.Value}
+
 	default:
-		return "", nil
+		return "0", nil // same as evaluateFilter: unsupported operators match nothing
 	}
 }
 
+// metadataValueSQL reads one metadata field; its parameter is the field's path.
+// Records without metadata store an empty string, which is not valid JSON.
+const metadataValueSQL = "json_extract(NULLIF(metadata, ''), ?)"
+
+// metadataPath returns the JSON path of a metadata field
+func metadataPath(field string) string {
+	return `$."` + field + `"`
+}
+
+// metadataText converts a filter value to the text that metadata values are stored as
+func metadataText(value interface{}) interface{} {
+	if value == nil {
+		return nil
+	}
+	return fmt.Sprint(value)
+}
+
+// metadataOperand returns how to read a metadata field, and the operand to compare it
+// with: as numbers if the operand is one, as text otherwise.
+func metadataOperand(value interface{}) (string, interface{}) {
+	if number, ok := toFloat64(value); ok {
+		return "CAST(" + metadataValueSQL + " AS REAL)", number
+	}
+	return metadataValueSQL, metadataText(value)
+}
+
 // MetadataFilter helper for building filter expressions
 type MetadataFilter struct {
 	expression *FilterExpression
@@ -588,7 +629,8 @@ func (s *SQLiteStore) fetchCandidatesWithSQL(ctx context.Context, whereClause st
 	conditions := []string{}
 	
 	if whereClause != "" {
-		conditions = append(conditions, whereClause)
+		// A subquery keeps the clause's columns and operators apart from the outer query's
+		conditions = append(conditions, "e.id IN (SELECT id FROM embeddings WHERE "+whereClause+")")
 	}
 	
 	if opts.Collection != "" {
@@ -612,7 +654,9 @@ func (s *SQLiteStore) fetchCandidatesWithSQL(ctx context.Context, whereClause st
 		if err != nil {
 			continue
 		}
-		candidates = append(candidates, candidate)
+		if s.matchesFilter(candidate.Embedding, opts.Filter) {
+			candidates = append(candidates, candidate)
+		}
 	}
 	
 	return candidates, rows.Err()
@@ -697,9 +741,10 @@ func evaluateFilter(filter *FilterExpression, metadata map[string]interface{}) b
 		pattern := fmt.Sprintf("%v", filter.Value)
 		text := fmt.Sprintf("%v", val)
 		// Convert SQL LIKE pattern to regex
+		pattern = regexp.QuoteMeta(pattern)
 		pattern = strings.ReplaceAll(pattern, "%", ".*")
 		pattern = strings.ReplaceAll(pattern, "_", ".")
-		matched, _ := regexp.MatchString("^"+pattern+"$", text)
+		matched, _ := regexp.MatchString("(?is)^"+pattern+"$", text)
 		return matched
 		
 	default:
diff --git a/pkg/core/faceted_search.go b/pkg/core/faceted_search.go
index cd402e2..514207d 100644
--- a/pkg/core/faceted_search.go
+++ b/pkg/core/faceted_search.go
@@ -136,16 +136,18 @@ func (s *SQLiteStore) buildFilterCondition(field string, filter FacetFilter) (st
 	switch filter.Type {
 	case FilterTypeEquals:
 		if len(filter.Values) > 0 {
-			return fmt.Sprintf("json_extract(metadata, '$.%s') = ?", field), filter.Values[:1]
+			return metadataValueSQL + " = ?", []interface{}{metadataPath(field), metadataText(filter.Values[0])}
 		}
 		
 	case FilterTypeIn:
 		if len(filter.Values) > 0 {
 			placeholders := make([]string, len(filter.Values))
+			args := []interface{}{metadataPath(field)}
 			for i := range placeholders {
 				placeholders[i] = "?"
+				args = append(args, metadataText(filter.Values[i]))
 			}
-			return fmt.Sprintf("json_extract(metadata, '$.%s') IN (%s)", field, strings.Join(placeholders, ",")), filter.Values
+			return fmt.Sprintf("%s IN (%s)", metadataValueSQL, strings.Join(placeholders, ",")), args
 		}
 		
 	case FilterTypeRange:
@@ -153,12 +155,14 @@ func (s *SQLiteStore) buildFilterCondition(field string, filter FacetFilter) (st
 		args := []interface{}{}
 		
 		if filter.Min != nil {
-			conditions = append(conditions, fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) >= ?", field))
-			args = append(args, filter.Min)
+			value, operand := metadataOperand(filter.Min)
+			conditions = append(conditions, value+" >= ?")
+			args = append(args, metadataPath(field), operand)
 		}
 		if filter.Max != nil {
-			conditions = append(conditions, fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) <= ?", field))
-			args = append(args, filter.Max)
+			value, operand := metadataOperand(filter.Max)
+			conditions = append(conditions, value+" <= ?")
+			args = append(args, metadataPath(field), operand)
 		}
 		
 		if len(conditions) > 0 {
@@ -167,16 +171,16 @@ func (s *SQLiteStore) buildFilterCondition(field string, filter FacetFilter) (st
 		
 	case FilterTypeContains:
 		if filter.Pattern != "" {
-			return fmt.Sprintf("json_extract(metadata, '$.%s') LIKE ?", field), []interface{}{"%" + filter.Pattern + "%"}
+			return metadataValueSQL + ` LIKE ? ESCAPE '\'`, []interface{}{metadataPath(field), "%" + escapeLike(filter.Pattern) + "%"}
 		}
 		
 	case FilterTypePrefix:
 		if filter.Pattern != "" {
-			return fmt.Sprintf("json_extract(metadata, '$.%s') LIKE ?", field), []interface{}{filter.Pattern + "%"}
+			return metadataValueSQL + ` LIKE ? ESCAPE '\'`, []interface{}{metadataPath(field), escapeLike(filter.Pattern) + "%"}
 		}
 		
 	case FilterTypeExists:
-		return fmt.Sprintf("json_extract(metadata, '$.%s') IS NOT NULL", field), nil
+		return metadataValueSQL + " IS NOT NULL", []interface{}{metadataPath(field)}
 		
 	case FilterTypeNested:
 		return s.buildNestedCondition(field, filter)
@@ -211,73 +215,22 @@ func (s *SQLiteStore) buildNestedCondition(field string, filter FacetFilter) (st
 	case OperatorOR:
 		operator = " OR "
 	case OperatorNOT:
-		return "NOT (" + strings.Join(conditions, " AND ") + ")", args
+		return "NOT COALESCE(" + strings.Join(conditions, " AND ") + ", 0)", args
 	default:
 		operator = " AND "
 	}
 	
-	return strings.Join(conditions, operator), args
+	return "(" + strings.Join(conditions, operator) + ")", args
+}
+
+// escapeLike escapes the wildcards of a literal LIKE operand
+func escapeLike(text string) string {
+	return strings.NewReplacer(`\`, `\\`, "%", `\%`, "_", `\_`).Replace(text)
 }
 
 // fetchCandidatesWithFacets fetches candidates with facet filtering
 func (s *SQLiteStore) fetchCandidatesWithFacets(ctx context.Context, whereClause string, args []interface{}, opts FacetedSearchOptions) ([]ScoredEmbedding, error) {
-	query := `
-		SELECT e.id, e.collection_id, c.name, e.vector, e.content, e.doc_id, e.metadata
-		FROM embeddings e
-		LEFT JOIN collections c ON e.collection_id = c.id
-	`
-	
-	conditions := []string{}
-	
-	// Add facet conditions
-	if whereClause != "" {
-		conditions = append(conditions, whereClause)
-	}
-	
-	// Add collection filter
-	if opts.Collection != "" {
-		conditions = append(conditions, "c.name = ?")
-		args = append(args, opts.Collection)
-	}
-	
-	// Add metadata filter
-	if opts.Filter != nil {
-		for key, value := range opts.Filter {
-			conditions = append(conditions, fmt.Sprintf("json_extract(metadata, '$.%s') = ?", key))
-			args = append(args, value)
-		}
-	}
-	
-	if len(conditions) > 0 {
-		query += " WHERE " + strings.Join(conditions, " AND ")
-	}
-	
-	// Add limit for performance
-	if opts.TopK > 0 {
-		query += fmt.Sprintf(" LIMIT %d", opts.TopK*10) // Get more candidates for scoring
-	}
-	
-	rows, err := s.db.QueryContext(ctx, query, args...)
-	if err != nil {
-		return nil, fmt.Errorf("failed to query with facets: %w", err)
-	}
-	defer func() {
-		if err := rows.Close(); err != nil {
-			// Log error but don't override the main error
-			_ = err
-		}
-	}()
-	
-	var candidates []ScoredEmbedding
-	for rows.Next() {
-		candidate, err := s.scanEmbedding(rows)
-		if err != nil {
-			continue
-		}
-		candidates = append(candidates, candidate)
-	}
-	
-	return candidates, rows.Err()
+	return s.fetchCandidatesWithSQL(ctx, whereClause, args, opts.SearchOptions)
 }
 
 // computeFacetCounts computes facet value counts
@@ -288,21 +241,21 @@ func (s *SQLiteStore) computeFacetCounts(ctx context.Context, opts FacetedSearch
 	for field := range opts.Facets {
 		query := fmt.Sprintf(`
 			SELECT 
-				json_extract(metadata, '$.%s') as value,
+				%s as value,
 				COUNT(*) as count
 			FROM embeddings
-			WHERE json_extract(metadata, '$.%s') IS NOT NULL
+			WHERE value IS NOT NULL
 			GROUP BY value
 			ORDER BY count DESC
 			LIMIT ?
-		`, field, field)
+		`, metadataValueSQL)
 		
 		limit := opts.MaxFacetValues
 		if limit <= 0 {
 			limit = 10
 		}
 		
-		rows, err := s.db.QueryContext(ctx, query, limit)
+		rows, err := s.db.QueryContext(ctx, query, metadataPath(field), limit)
 		if err != nil {
 			continue
 		}
diff --git a/pkg/core/io.go b/pkg/core/io.go
index bb2f0c2..69b9890 100644
--- a/pkg/core/io.go
+++ b/pkg/core/io.go
@@ -9,7 +9,6 @@ import (
 	"fmt"
 	"io"
 	"os"
-	"strings"
 	"time"
 
 	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
@@ -209,9 +208,8 @@ func (s *SQLiteStore) getAllEmbeddings(ctx context.Context, opts DumpOptions) ([
 	if opts.Filter != nil && !opts.Filter.IsEmpty() {
 		whereClause, params := opts.Filter.ToSQL()
 		if whereClause != "" {
-			// Prefix metadata with 'e.' to avoid ambiguity with collections table
-			whereClause = strings.ReplaceAll(whereClause, "json_extract(metadata", "json_extract(e.metadata")
-			query += " WHERE " + whereClause
+			// A subquery avoids ambiguity with the collections table's columns
+			query += " WHERE e.id IN (SELECT id FROM embeddings WHERE " + whereClause + ")"
 			args = params
 		}
 	}
-- 
2.43.0


From 41e48845e1be461cf2dcd8663782fd4b6c11d6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:37 +0000
Subject: [PATCH 009/118] fix: scope access-controlled and hybrid search
 correctly

Chunks without an ACL inherit their document's instead of being public, and
the keyword half of hybrid search honours the collection and filters, does
not drop free text that is no FTS5 expression, and breaks ties by id.
---
 pkg/core/advanced_search.go | 150 +++++++++++++++---------------------
 1 file changed, 61 insertions(+), 89 deletions(-)

diff --git a/pkg/core/advanced_search.go b/pkg/core/advanced_search.go
index 75a693d..9233ab7 100644
--- a/pkg/core/advanced_search.go
+++ b/pkg/core/advanced_search.go
@@ -3,14 +3,11 @@ package core
 
 import (
 	"context"
-	"database/sql"
 	"fmt"
 	"math"
 	"math/rand"
 	"sort"
 	"strings"
-
-	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
 )
 
 // HybridSearchOptions for combined vector + keyword search
@@ -29,10 +26,11 @@ func (s *SQLiteStore) SearchWithACL(ctx context.Context, query []float32, acl []
 		return nil, wrapError("search_acl", ErrStoreClosed)
 	}
 
-	// If ACL is empty, only return public documents (acl IS NULL)
+	// If ACL is empty, only return public documents (no acl)
 	// If ACL is provided, return public OR matching acl
-	
-	whereClause := "json_extract(acl, '$') IS NULL" // Public
+	// An embedding without an acl of its own inherits its document's
+	effectiveACL := "COALESCE(acl, (SELECT documents.acl FROM documents WHERE documents.id = embeddings.doc_id))"
+	whereClause := "COALESCE(json_array_length(" + effectiveACL + "), 0) = 0" // Public
 	params := []interface{}{}
 
 	if len(acl) > 0 {
@@ -42,7 +40,7 @@ func (s *SQLiteStore) SearchWithACL(ctx context.Context, query []float32, acl []
 			params = append(params, id)
 		}
 		// Check if any provided ACL ID exists in the acl JSON array
-		whereClause += fmt.Sprintf(" OR EXISTS (SELECT 1 FROM json_each(acl) WHERE value IN (%s))", strings.Join(placeholders, ","))
+		whereClause += fmt.Sprintf(" OR EXISTS (SELECT 1 FROM json_each(%s) WHERE value IN (%s))", effectiveACL, strings.Join(placeholders, ","))
 	}
 
 	// Fetch candidates with ACL filter
@@ -75,33 +73,17 @@ func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, t
 	}
 
 	// 2. Keyword Search (FTS5)
-	ftsRanks := make(map[int64]int)
+	var keywordResults []ScoredEmbedding
 	if textQuery != "" {
-		ftsQuery := `
-			SELECT rowid, rank 
-			FROM chunks_fts 
-			WHERE chunks_fts MATCH ? 
-			ORDER BY rank 
-			LIMIT ?
-		`
 		// Fetch more than topK to have a better pool for fusion
 		limit := opts.TopK * 3
 		if limit <= 0 {
 			limit = 30
 		}
-		
-		rows, err := s.db.QueryContext(ctx, ftsQuery, textQuery, limit)
-		if err == nil {
-			defer rows.Close()
-			rank := 1
-			for rows.Next() {
-				var rowid int64
-				var score float64
-				if err := rows.Scan(&rowid, &score); err == nil {
-					ftsRanks[rowid] = rank
-					rank++
-				}
-			}
+
+		keywordResults, err = s.keywordSearch(ctx, textQuery, opts.SearchOptions, limit)
+		if err != nil {
+			return nil, fmt.Errorf("keyword search failed: %w", err)
 		}
 	}
 
@@ -124,66 +106,10 @@ func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, t
 	}
 
 	// Process FTS Ranks
-	// First, we need to map FTS rowids back to IDs
-	if len(ftsRanks) > 0 {
-		rowids := make([]int64, 0, len(ftsRanks))
-		for rid := range ftsRanks {
-			rowids = append(rowids, rid)
-		}
-
-		placeholders := make([]string, len(rowids))
-		args := make([]interface{}, len(rowids))
-		for i, rid := range rowids {
-			placeholders[i] = "?"
-			args[i] = rid
-		}
-
-		query := fmt.Sprintf(
-			"SELECT e.id, e.collection_id, c.name, e.vector, e.content, e.doc_id, e.metadata, e.rowid "+
-				"FROM embeddings e "+
-				"LEFT JOIN collections c ON e.collection_id = c.id "+
-				"WHERE e.rowid IN (%s)",
-			strings.Join(placeholders, ","),
-		)
-
-		rows, err := s.db.QueryContext(ctx, query, args...)
-		if err == nil {
-			defer rows.Close()
-			for rows.Next() {
-				var id, content, metadataJSON string
-				var docID sql.NullString
-				var collectionName sql.NullString
-				var collectionID int
-				var vectorBytes []byte
-				var rowid int64
-
-				if err := rows.Scan(&id, &collectionID, &collectionName, &vectorBytes, &content, &docID, &metadataJSON, &rowid); err != nil {
-					continue
-				}
-
-				// Calculate FTS score contribution
-				if rank, ok := ftsRanks[rowid]; ok {
-					score := 1.0 / (k + float64(rank))
-					fusedScores[id] += score
-
-					// If not already in map (from vector search), add it
-					if _, exists := embeddingsMap[id]; !exists {
-						vec, _ := encoding.DecodeVector(vectorBytes)
-						meta, _ := encoding.DecodeMetadata(metadataJSON)
-						
-						embeddingsMap[id] = ScoredEmbedding{
-							Embedding: Embedding{
-								ID:         id,
-								Collection: collectionName.String,
-								Vector:     vec,
-								Content:    content,
-								DocID:      docID.String,
-								Metadata:   meta,
-							},
-						}
-					}
-				}
-			}
+	for i, res := range keywordResults {
+		fusedScores[res.ID] += 1.0 / (k + float64(i+1))
+		if _, exists := embeddingsMap[res.ID]; !exists {
+			embeddingsMap[res.ID] = res
 		}
 	}
 
@@ -197,7 +123,10 @@ func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, t
 
 	// Sort by fused score
 	sort.Slice(results, func(i, j int) bool {
-		return results[i].Score > results[j].Score
+		if results[i].Score != results[j].Score {
+			return results[i].Score > results[j].Score
+		}
+		return results[i].ID < results[j].ID
 	})
 
 	// Apply TopK
@@ -208,6 +137,49 @@ func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, t
 	return results, nil
 }
 
+// keywordSearch returns the embeddings matching the collection and filters of opts whose
+// content matches textQuery, best match first; the caller holds s.mu
+func (s *SQLiteStore) keywordSearch(ctx context.Context, textQuery string, opts SearchOptions, limit int) ([]ScoredEmbedding, error) {
+	results, err := s.keywordSearchFTS(ctx, textQuery, opts, limit)
+	if err != nil && ctx.Err() == nil {
+		// Not an FTS5 expression: look for its words instead
+		words := strings.Fields(textQuery)
+		for i, word := range words {
+			words[i] = `"` + strings.ReplaceAll(word, `"`, `""`) + `"`
+		}
+		results, err = s.keywordSearchFTS(ctx, strings.Join(words, " "), opts, limit)
+	}
+	return results, err
+}
+
+func (s *SQLiteStore) keywordSearchFTS(ctx context.Context, match string, opts SearchOptions, limit int) ([]ScoredEmbedding, error) {
+	rows, err := s.db.QueryContext(ctx, `
+		SELECT e.id, e.collection_id, c.name, e.vector, e.content, e.doc_id, e.metadata
+		FROM chunks_fts
+		JOIN embeddings e ON e.rowid = chunks_fts.rowid
+		LEFT JOIN collections c ON e.collection_id = c.id
+		WHERE chunks_fts MATCH ? AND (? = '' OR c.name = ?)
+		ORDER BY chunks_fts.rank
+	`, match, opts.Collection, opts.Collection)
+	if err != nil {
+		return nil, err
+	}
+	defer func() { _ = rows.Close() }()
+
+	var results []ScoredEmbedding
+	for len(results) < limit && rows.Next() {
+		candidate, err := s.scanEmbedding(rows)
+		if err != nil {
+			continue
+		}
+		if s.matchesFilter(candidate.Embedding, opts.Filter) {
+			results = append(results, candidate)
+		}
+	}
+
+	return results, rows.Err()
+}
+
 // scoreAndSort helper
 func (s *SQLiteStore) scoreAndSort(query []float32, candidates []ScoredEmbedding, opts SearchOptions) ([]ScoredEmbedding, error) {
 	results := make([]ScoredEmbedding, 0, len(candidates))
-- 
2.43.0


From a03dd3c6a7783b3c085e9db905e74dbce35a9814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:07 +0000
Subject: [PATCH 010/118] fix: make multi-vector entities storable and
 completely scored

Entities without a document record violated the doc_id foreign key, the
caller's filter map was modified, records without metadata broke lookups,
non-string metadata hid the entity's fields, and fields cut off by TopK were
left out of the aggregate.
---
 internal/encoding/utils.go | 16 ++++++++++++++--
 pkg/core/multi_vector.go   | 21 ++++++++++++++-------
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/internal/encoding/utils.go b/internal/encoding/utils.go
index 9dc51d4..2295dc6 100644
--- a/internal/encoding/utils.go
+++ b/internal/encoding/utils.go
@@ -102,10 +102,22 @@ func DecodeMetadata(jsonStr string) (map[string]string, error) {
 		return nil, nil
 	}
 	
-	var metadata map[string]string
-	if err := json.Unmarshal([]byte(jsonStr), &metadata); err != nil {
+	var values map[string]json.RawMessage
+	if err := json.Unmarshal([]byte(jsonStr), &values); err != nil {
 		return nil, fmt.Errorf("failed to decode metadata: %w", err)
 	}
+	if values == nil {
+		return nil, nil
+	}
+	
+	metadata := make(map[string]string, len(values))
+	for key, raw := range values {
+		var text string
+		if err := json.Unmarshal(raw, &text); err != nil {
+			text = string(raw) // keep non-string values as their JSON text
+		}
+		metadata[key] = text
+	}
 	
 	return metadata, nil
 }
diff --git a/pkg/core/multi_vector.go b/pkg/core/multi_vector.go
index 6ab607e..38c2a74 100644
--- a/pkg/core/multi_vector.go
+++ b/pkg/core/multi_vector.go
@@ -96,7 +96,7 @@ func (s *SQLiteStore) UpsertMultiVector(ctx context.Context, entity *MultiVector
 		
 		_, err = tx.ExecContext(ctx, `
 			INSERT OR REPLACE INTO embeddings (id, collection_id, vector, content, doc_id, metadata, created_at)
-			VALUES (?, ?, ?, ?, ?, ?, CURRENT_TIMESTAMP)
+			VALUES (?, ?, ?, ?, (SELECT id FROM documents WHERE id = ?), ?, CURRENT_TIMESTAMP)
 		`, compositeID, 1, vectorBytes, entity.Content, entity.ID, string(metadataJSON))
 		
 		if err != nil {
@@ -124,6 +124,11 @@ func (s *SQLiteStore) SearchMultiVector(ctx context.Context, queryVectors map[st
 		return nil, wrapError("search_multi_vector", ErrStoreClosed)
 	}
 	
+	stats, err := s.stats(ctx)
+	if err != nil {
+		return nil, wrapError("search_multi_vector", err)
+	}
+
 	// Aggregate results from each vector field
 	entityScores := make(map[string][]float32)
 	entityEmbeddings := make(map[string]ScoredEmbedding)
@@ -145,10 +150,12 @@ func (s *SQLiteStore) SearchMultiVector(ctx context.Context, queryVectors map[st
 		
 		// Search with field-specific filter
 		fieldOpts := opts.SearchOptions
-		if fieldOpts.Filter == nil {
-			fieldOpts.Filter = make(map[string]string)
+		fieldOpts.Filter = map[string]string{"_vector_field": fieldName}
+		for k, v := range opts.Filter {
+			fieldOpts.Filter[k] = v
 		}
-		fieldOpts.Filter["_vector_field"] = fieldName
+		// TopK counts entities: every field of an entity takes part in its score
+		fieldOpts.TopK = int(stats.Count) + 1
 		
 		results, err := s.search(ctx, queryVector, fieldOpts)
 		if err != nil {
@@ -266,7 +273,7 @@ func (s *SQLiteStore) GetMultiVectorEntity(ctx context.Context, entityID string)
 	rows, err := s.db.QueryContext(ctx, `
 		SELECT id, vector, content, metadata
 		FROM embeddings
-		WHERE json_extract(metadata, '$._entity_id') = ?
+		WHERE json_extract(NULLIF(metadata, ''), '$._entity_id') = ?
 	`, entityID)
 	if err != nil {
 		return nil, wrapError("get_multi_vector", err)
@@ -343,7 +350,7 @@ func (s *SQLiteStore) DeleteMultiVectorEntity(ctx context.Context, entityID stri
 	// Get all composite IDs first
 	rows, err := s.db.QueryContext(ctx, `
 		SELECT id FROM embeddings
-		WHERE json_extract(metadata, '$._entity_id') = ?
+		WHERE json_extract(NULLIF(metadata, ''), '$._entity_id') = ?
 	`, entityID)
 	if err != nil {
 		return wrapError("delete_multi_vector", err)
@@ -364,7 +371,7 @@ func (s *SQLiteStore) DeleteMultiVectorEntity(ctx context.Context, entityID stri
 	// Delete from database
 	_, err = s.db.ExecContext(ctx, `
 		DELETE FROM embeddings
-		WHERE json_extract(metadata, '$._entity_id') = ?
+		WHERE json_extract(NULLIF(metadata, ''), '$._entity_id') = ?
 	`, entityID)
 	if err != nil {
 		return wrapError("delete_multi_vector", err)
-- 
2.43.0


From 904e3d825306a3facca1eab55127323829903dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:07 +0000
Subject: [PATCH 011/118] fix: keep access control lists in dumps and survive
 malformed imports

Dump now exports ACLs, JSONL import stops at malformed input instead of
looping forever, null records are counted as failures, and backup paths may
contain quotes.
---
 pkg/core/io.go | 53 +++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 50 insertions(+), 3 deletions(-)

diff --git a/pkg/core/io.go b/pkg/core/io.go
index 69b9890..feaa874 100644
--- a/pkg/core/io.go
+++ b/pkg/core/io.go
@@ -245,7 +245,45 @@ func (s *SQLiteStore) getAllEmbeddings(ctx context.Context, opts DumpOptions) ([
 		embeddings = append(embeddings, emb)
 	}
 
-	return embeddings, rows.Err()
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
+	// Access control lists are part of the record: without them a reload would make it public
+	acls, err := s.embeddingACLs(ctx)
+	if err != nil {
+		return nil, wrapError("get_all_embeddings", err)
+	}
+	for _, emb := range embeddings {
+		emb.ACL = acls[emb.ID]
+	}
+
+	return embeddings, nil
+}
+
+// embeddingACLs returns the access control lists of the embeddings that have one
+func (s *SQLiteStore) embeddingACLs(ctx context.Context) (map[string][]string, error) {
+	rows, err := s.db.QueryContext(ctx, "SELECT id, acl FROM embeddings WHERE acl IS NOT NULL")
+	if err != nil {
+		return nil, err
+	}
+	defer func() { _ = rows.Close() }()
+
+	acls := make(map[string][]string)
+	for rows.Next() {
+		var id string
+		var aclJSON []byte
+		if err := rows.Scan(&id, &aclJSON); err != nil {
+			return nil, err
+		}
+		var acl []string
+		if err := json.Unmarshal(aclJSON, &acl); err != nil {
+			return nil, err
+		}
+		acls[id] = acl
+	}
+
+	return acls, rows.Err()
 }
 
 // Load imports embeddings from a reader
@@ -327,7 +365,12 @@ func (s *SQLiteStore) loadJSONL(ctx context.Context, r io.Reader, opts LoadOptio
 				break
 			}
 			stats.FailedCount++
-			continue
+			var typeErr *json.UnmarshalTypeError
+			if errors.As(err, &typeErr) {
+				continue
+			}
+			// The decoder cannot advance past malformed JSON
+			return stats, wrapError("load_jsonl", fmt.Errorf("failed to decode JSON: %w", err))
 		}
 
 		skipped, err := s.processImportEmbedding(ctx, &emb, opts)
@@ -347,6 +390,10 @@ func (s *SQLiteStore) loadJSONL(ctx context.Context, r io.Reader, opts LoadOptio
 
 // processImportEmbedding processes a single embedding during import
 func (s *SQLiteStore) processImportEmbedding(ctx context.Context, emb *Embedding, opts LoadOptions) (skipped bool, err error) {
+	if emb == nil {
+		return false, fmt.Errorf("missing embedding")
+	}
+
 	// Check if exists
 	if opts.SkipExisting {
 		existing, _ := s.GetByID(ctx, emb.ID)
@@ -478,7 +525,7 @@ func (s *SQLiteStore) Backup(ctx context.Context, filepath string) error {
 	}
 
 	// Use SQLite backup API
-	_, err := s.db.ExecContext(ctx, fmt.Sprintf("VACUUM INTO '%s'", filepath))
+	_, err := s.db.ExecContext(ctx, "VACUUM INTO ?", filepath)
 	if err != nil {
 		return wrapError("backup", fmt.Errorf("failed to create backup: %w", err))
 	}
-- 
2.43.0


From 57941a762f5fd4137cc5a42a0f334068ec4bd70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:07 +0000
Subject: [PATCH 012/118] fix: measure range search distance by the store's
 metric

Non-positive cosine similarities were taken for Euclidean distances.
---
 pkg/core/faceted_search.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pkg/core/faceted_search.go b/pkg/core/faceted_search.go
index 514207d..fbcfe2e 100644
--- a/pkg/core/faceted_search.go
+++ b/pkg/core/faceted_search.go
@@ -306,6 +306,9 @@ func (s *SQLiteStore) RangeSearch(ctx context.Context, query []float32, radius f
 		return nil, wrapError("range_search", err)
 	}
 	
+	// A vector's similarity to itself is what distance 0 scores: 1 for cosine, 0 for Euclidean
+	selfScore := s.similarityFn(query, query)
+
 	// Filter by radius
 	var results []ScoredEmbedding
 	for _, candidate := range candidates {
@@ -319,17 +322,10 @@ func (s *SQLiteStore) RangeSearch(ctx context.Context, query []float32, radius f
 		
 		// For range search, we need to handle different similarity metrics:
 		// - Euclidean: score is negative distance, so actual distance = -score
-		// - Cosine: score is similarity (0 to 1), so distance = 1 - score
+		// - Cosine: score is similarity (-1 to 1), so distance = 1 - score
 		// - DotProduct: not suitable for range search (unbounded)
 		
-		var distance float32
-		if score <= 0 {
-			// Euclidean distance (negative score)
-			distance = float32(-score)
-		} else {
-			// Cosine similarity or other bounded metrics
-			distance = float32(1.0 - score)
-		}
+		distance := float32(selfScore - score)
 		
 		if distance <= radius {
 			// For display, use the actual distance as the score for range search
-- 
2.43.0


From 760beda13bc83a5c2c2cc7e6b833b967d6aee2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:07 +0000
Subject: [PATCH 013/118] fix: reject reads of a closed store and delete
 batches atomically

---
 pkg/core/chat.go         | 22 +++++++++++++++++++++-
 pkg/core/document.go     |  6 +++++-
 pkg/core/store_crud.go   | 20 +++++++++++++++++---
 pkg/core/store_search.go |  4 ++--
 pkg/core/streaming.go    |  4 ++++
 5 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/pkg/core/chat.go b/pkg/core/chat.go
index 6d75d17..798ddd1 100644
--- a/pkg/core/chat.go
+++ b/pkg/core/chat.go
@@ -54,6 +54,10 @@ func (s *SQLiteStore) GetSession(ctx context.Context, id string) (*Session, erro
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("get_session", ErrStoreClosed)
+	}
+
 	var sess Session
 	var metadataJSON []byte
 
@@ -114,11 +118,15 @@ func (s *SQLiteStore) GetSessionHistory(ctx context.Context, sessionID string, l
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("get_session_history", ErrStoreClosed)
+	}
+
 	query := `
 		SELECT id, session_id, role, content, vector, metadata, created_at
 		FROM messages 
 		WHERE session_id = ? 
-		ORDER BY created_at DESC 
+		ORDER BY created_at DESC, rowid DESC 
 		LIMIT ?
 	`
 
@@ -161,6 +169,10 @@ func (s *SQLiteStore) SearchChatHistory(ctx context.Context, queryVec []float32,
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("search_chat_history", ErrStoreClosed)
+	}
+
 	// This is a linear scan over the session's messages.
 	// For huge history, we should use HNSW, but session history is usually small (<1000 items).
 
@@ -225,6 +237,10 @@ func (s *SQLiteStore) KeywordSearchMessages(ctx context.Context, query, userID,
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("keyword_search_messages", ErrStoreClosed)
+	}
+
 	if query == "" || userID == "" {
 		return nil, nil
 	}
@@ -259,6 +275,10 @@ func (s *SQLiteStore) SearchMessagesByUser(ctx context.Context, userID string, q
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("search_messages_by_user", ErrStoreClosed)
+	}
+
 	if userID == "" || len(queryVec) == 0 {
 		return nil, nil
 	}
diff --git a/pkg/core/document.go b/pkg/core/document.go
index e5b73d0..e8a9665 100644
--- a/pkg/core/document.go
+++ b/pkg/core/document.go
@@ -167,6 +167,10 @@ func (s *SQLiteStore) ListDocumentsWithFilter(ctx context.Context, author string
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("list_documents", ErrStoreClosed)
+	}
+
 	query := `
 		SELECT id, title, source_url, content, version, author, metadata, acl, created_at, updated_at
 		FROM documents WHERE 1=1
@@ -203,5 +207,5 @@ func (s *SQLiteStore) ListDocumentsWithFilter(ctx context.Context, author string
 		docs = append(docs, &doc)
 	}
 
-	return docs, nil
+	return docs, rows.Err()
 }
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index 1f25ba6..67bc6da 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -14,10 +14,10 @@ import (
 // Upsert inserts or updates a single embedding
 func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 	s.mu.RLock()
-	currentDim := s.config.VectorDim
+	currentDim, closed := s.config.VectorDim, s.closed
 	s.mu.RUnlock()
 
-	if s.closed {
+	if closed {
 		return wrapError("upsert", ErrStoreClosed)
 	}
 
@@ -62,6 +62,10 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return wrapError("upsert", ErrStoreClosed)
+	}
+
 	// Determine collection ID
 	collectionID := emb.CollectionID
 	if collectionID == 0 {
@@ -416,6 +420,12 @@ func (s *SQLiteStore) DeleteBatch(ctx context.Context, ids []string) error {
 
 	// 1. Delete from SQLite
 	// Use chunks to avoid SQLite parameter limit (default 999)
+	tx, err := s.db.BeginTx(ctx, nil)
+	if err != nil {
+		return wrapError("delete_batch", fmt.Errorf("failed to begin transaction: %w", err))
+	}
+	defer func() { _ = tx.Rollback() }()
+
 	totalRowsAffected := int64(0)
 	chunkSize := 500
 	for i := 0; i < len(validIDs); i += chunkSize {
@@ -433,7 +443,7 @@ func (s *SQLiteStore) DeleteBatch(ctx context.Context, ids []string) error {
 		}
 
 		query := fmt.Sprintf("DELETE FROM embeddings WHERE id IN (%s)", strings.Join(placeholders, ","))
-		result, err := s.db.ExecContext(ctx, query, args...)
+		result, err := tx.ExecContext(ctx, query, args...)
 		if err != nil {
 			return wrapError("delete_batch", fmt.Errorf("failed to delete chunk: %w", err))
 		}
@@ -450,6 +460,10 @@ func (s *SQLiteStore) DeleteBatch(ctx context.Context, ids []string) error {
 		return wrapError("delete_batch", ErrNotFound)
 	}
 
+	if err := tx.Commit(); err != nil {
+		return wrapError("delete_batch", fmt.Errorf("failed to commit transaction: %w", err))
+	}
+
 	// 2. Delete from Memory Indexes
 	s.removeFromIndexes(validIDs...)
 
diff --git a/pkg/core/store_search.go b/pkg/core/store_search.go
index ad3e51b..6d3216a 100644
--- a/pkg/core/store_search.go
+++ b/pkg/core/store_search.go
@@ -65,10 +65,10 @@ func (s *SQLiteStore) search(ctx context.Context, query []float32, opts SearchOp
 // SearchWithFilter performs vector similarity search with advanced metadata filtering
 func (s *SQLiteStore) SearchWithFilter(ctx context.Context, query []float32, opts SearchOptions, metadataFilters map[string]interface{}) ([]ScoredEmbedding, error) {
 	s.mu.RLock()
-	storeDim := s.config.VectorDim
+	storeDim, closed := s.config.VectorDim, s.closed
 	s.mu.RUnlock()
 
-	if s.closed {
+	if closed {
 		return nil, wrapError("searchWithFilter", ErrStoreClosed)
 	}
 
diff --git a/pkg/core/streaming.go b/pkg/core/streaming.go
index c55c19e..68a5e2a 100644
--- a/pkg/core/streaming.go
+++ b/pkg/core/streaming.go
@@ -177,6 +177,10 @@ func MergeStreamResults(ctx context.Context, channels ...<-chan StreamingResult)
 
 // CollectTopKFromStream collects top-k results from a streaming channel
 func CollectTopKFromStream(ctx context.Context, stream <-chan StreamingResult, k int) ([]ScoredEmbedding, error) {
+	if k <= 0 {
+		return nil, fmt.Errorf("k must be positive, got %d", k)
+	}
+
 	// Use a heap to maintain top-k
 	topK := make([]ScoredEmbedding, 0, k)
 	seen := make(map[string]bool)
-- 
2.43.0


From 1d15367f9368cb67433ecc81b2bfed3f04f514e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:48 +0000
Subject: [PATCH 014/118] fix: read the first operator of a filter, and count
 facets within the collection

---
 pkg/core/advanced_filter.go | 39 ++++++++++++++++++++++---------------
 pkg/core/faceted_search.go  |  3 ++-
 2 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/pkg/core/advanced_filter.go b/pkg/core/advanced_filter.go
index 11e8944..757b18e 100644
--- a/pkg/core/advanced_filter.go
+++ b/pkg/core/advanced_filter.go
@@ -182,28 +182,35 @@ func parseComparison(expr string) (*FilterExpression, error) {
 		{">=", FilterGTE},
 		{"<=", FilterLTE},
 		{"!=", FilterNE},
+		{":=", FilterEQ}, // Alternative syntax
 		{">", FilterGT},
 		{"<", FilterLT},
 		{"=", FilterEQ},
-		{":=", FilterEQ}, // Alternative syntax
-		{":", FilterEQ},  // Shorthand
+		{":", FilterEQ}, // Shorthand
 	}
 	
-	for _, op := range operators {
-		if idx := strings.Index(expr, op.op); idx > 0 {
-			field := strings.TrimSpace(expr[:idx])
-			valueStr := strings.TrimSpace(expr[idx+len(op.op):])
-			value, err := parseValue(valueStr)
-			if err != nil {
-				return nil, err
-			}
-			
-			return &FilterExpression{
-				Operator: op.typ,
-				Field:    field,
-				Value:    value,
-			}, nil
+	// The first operator counts: later ones belong to the value
+	best, idx := -1, -1
+	for i, op := range operators {
+		if at := strings.Index(expr, op.op); at > 0 && (idx < 0 || at < idx) {
+			best, idx = i, at
+		}
+	}
+	
+	if best >= 0 {
+		op := operators[best]
+		field := strings.TrimSpace(expr[:idx])
+		valueStr := strings.TrimSpace(expr[idx+len(op.op):])
+		value, err := parseValue(valueStr)
+		if err != nil {
+			return nil, err
 		}
+		
+		return &FilterExpression{
+			Operator: op.typ,
+			Field:    field,
+			Value:    value,
+		}, nil
 	}
 	
 	return nil, fmt.Errorf("invalid filter expression: %s", expr)
diff --git a/pkg/core/faceted_search.go b/pkg/core/faceted_search.go
index fbcfe2e..d3ae6bc 100644
--- a/pkg/core/faceted_search.go
+++ b/pkg/core/faceted_search.go
@@ -245,6 +245,7 @@ func (s *SQLiteStore) computeFacetCounts(ctx context.Context, opts FacetedSearch
 				COUNT(*) as count
 			FROM embeddings
 			WHERE value IS NOT NULL
+				AND (? = '' OR collection_id = (SELECT id FROM collections WHERE name = ?))
 			GROUP BY value
 			ORDER BY count DESC
 			LIMIT ?
@@ -255,7 +256,7 @@ func (s *SQLiteStore) computeFacetCounts(ctx context.Context, opts FacetedSearch
 			limit = 10
 		}
 		
-		rows, err := s.db.QueryContext(ctx, query, metadataPath(field), limit)
+		rows, err := s.db.QueryContext(ctx, query, metadataPath(field), opts.Collection, opts.Collection, limit)
 		if err != nil {
 			continue
 		}
-- 
2.43.0


From 019db42df6765d77de5a85375480619a4ecf5088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:25 +0000
Subject: [PATCH 015/118] fix: accept any text in keyword and message search

Text without words and text that is not an FTS5 expression made the search fail, and
an error while reading messages was returned as a shorter history.
---
 pkg/core/advanced_search.go | 18 ++++++++++++++----
 pkg/core/chat.go            | 37 +++++++++++++++++++++++++++++++++----
 2 files changed, 47 insertions(+), 8 deletions(-)

diff --git a/pkg/core/advanced_search.go b/pkg/core/advanced_search.go
index 9233ab7..85ea008 100644
--- a/pkg/core/advanced_search.go
+++ b/pkg/core/advanced_search.go
@@ -8,6 +8,7 @@ import (
 	"math/rand"
 	"sort"
 	"strings"
+	"unicode"
 )
 
 // HybridSearchOptions for combined vector + keyword search
@@ -143,15 +144,24 @@ func (s *SQLiteStore) keywordSearch(ctx context.Context, textQuery string, opts
 	results, err := s.keywordSearchFTS(ctx, textQuery, opts, limit)
 	if err != nil && ctx.Err() == nil {
 		// Not an FTS5 expression: look for its words instead
-		words := strings.Fields(textQuery)
-		for i, word := range words {
-			words[i] = `"` + strings.ReplaceAll(word, `"`, `""`) + `"`
+		match := quoteFTSWords(textQuery)
+		if match == "" {
+			return nil, nil
 		}
-		results, err = s.keywordSearchFTS(ctx, strings.Join(words, " "), opts, limit)
+		results, err = s.keywordSearchFTS(ctx, match, opts, limit)
 	}
 	return results, err
 }
 
+// quoteFTSWords returns the FTS5 expression for the words of text taken literally.
+func quoteFTSWords(text string) string {
+	words := strings.FieldsFunc(text, func(r rune) bool { return r == 0 || unicode.IsSpace(r) })
+	for i, word := range words {
+		words[i] = `"` + strings.ReplaceAll(word, `"`, `""`) + `"`
+	}
+	return strings.Join(words, " ")
+}
+
 func (s *SQLiteStore) keywordSearchFTS(ctx context.Context, match string, opts SearchOptions, limit int) ([]ScoredEmbedding, error) {
 	rows, err := s.db.QueryContext(ctx, `
 		SELECT e.id, e.collection_id, c.name, e.vector, e.content, e.doc_id, e.metadata
diff --git a/pkg/core/chat.go b/pkg/core/chat.go
index 798ddd1..26e165b 100644
--- a/pkg/core/chat.go
+++ b/pkg/core/chat.go
@@ -39,13 +39,16 @@ func (s *SQLiteStore) CreateSession(ctx context.Context, session *Session) error
 		return wrapError("create_session", ErrStoreClosed)
 	}
 
-	metadataJSON, _ := json.Marshal(session.Metadata)
+	metadataJSON, err := json.Marshal(session.Metadata)
+	if err != nil {
+		return fmt.Errorf("failed to encode session metadata: %w", err)
+	}
 
 	query := `
 		INSERT INTO sessions (id, user_id, metadata, created_at, updated_at)
 		VALUES (?, ?, ?, CURRENT_TIMESTAMP, CURRENT_TIMESTAMP)
 	`
-	_, err := s.db.ExecContext(ctx, query, session.ID, session.UserID, metadataJSON)
+	_, err = s.db.ExecContext(ctx, query, session.ID, session.UserID, metadataJSON)
 	return err
 }
 
@@ -87,11 +90,13 @@ func (s *SQLiteStore) AddMessage(ctx context.Context, msg *Message) error {
 		return wrapError("add_message", ErrStoreClosed)
 	}
 
-	metadataJSON, _ := json.Marshal(msg.Metadata)
+	metadataJSON, err := json.Marshal(msg.Metadata)
+	if err != nil {
+		return fmt.Errorf("failed to encode message metadata: %w", err)
+	}
 
 	// Encode vector if present
 	var vectorBytes []byte
-	var err error
 	if len(msg.Vector) > 0 {
 		vectorBytes, err = encoding.EncodeVector(msg.Vector)
 		if err != nil {
@@ -155,6 +160,10 @@ func (s *SQLiteStore) GetSessionHistory(ctx context.Context, sessionID string, l
 		messages = append(messages, &msg)
 	}
 
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
 	// Reverse to return chronological order (oldest first)
 	for i, j := 0, len(messages)-1; i < j; i, j = i+1, j-1 {
 		messages[i], messages[j] = messages[j], messages[i]
@@ -173,6 +182,10 @@ func (s *SQLiteStore) SearchChatHistory(ctx context.Context, queryVec []float32,
 		return nil, wrapError("search_chat_history", ErrStoreClosed)
 	}
 
+	if limit <= 0 {
+		limit = 10
+	}
+
 	// This is a linear scan over the session's messages.
 	// For huge history, we should use HNSW, but session history is usually small (<1000 items).
 
@@ -212,6 +225,10 @@ func (s *SQLiteStore) SearchChatHistory(ctx context.Context, queryVec []float32,
 		}
 	}
 
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
 	// Sort by score
 	// Note: Implement simple sort
 	for i := 0; i < len(scored); i++ {
@@ -261,6 +278,14 @@ func (s *SQLiteStore) KeywordSearchMessages(ctx context.Context, query, userID,
 		LIMIT ?
 	`
 	rows, err := s.db.QueryContext(ctx, q, query, userID, excludeSessionID, excludeSessionID, limit)
+	if err != nil && ctx.Err() == nil {
+		// Not an FTS5 expression: look for its words instead
+		match := quoteFTSWords(query)
+		if match == "" {
+			return nil, nil
+		}
+		rows, err = s.db.QueryContext(ctx, q, match, userID, excludeSessionID, excludeSessionID, limit)
+	}
 	if err != nil {
 		return nil, fmt.Errorf("keyword search messages: %w", err)
 	}
@@ -326,6 +351,10 @@ func (s *SQLiteStore) SearchMessagesByUser(ctx context.Context, userID string, q
 		results = append(results, scored{msg: &msg, score: float32(s.similarityFn(queryVec, vec))})
 	}
 
+	if err := rows.Err(); err != nil {
+		return nil, fmt.Errorf("search messages by user: %w", err)
+	}
+
 	// Sort descending by score
 	for i := 0; i < len(results); i++ {
 		for j := i + 1; j < len(results); j++ {
-- 
2.43.0


From ff6f0f329d07e56a8c51790a74f221d1effc448d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:13 +0000
Subject: [PATCH 016/118] fix: report failed CSV dumps and leave the index
 alone when a snapshot is damaged

---
 pkg/core/io.go    |  6 +++++-
 pkg/index/hnsw.go | 27 +++++++++++++++------------
 pkg/index/ivf.go  | 28 +++++++++++++++++++---------
 3 files changed, 39 insertions(+), 22 deletions(-)

diff --git a/pkg/core/io.go b/pkg/core/io.go
index feaa874..f290add 100644
--- a/pkg/core/io.go
+++ b/pkg/core/io.go
@@ -164,7 +164,6 @@ func (s *SQLiteStore) dumpCSV(ctx context.Context, w io.Writer, opts DumpOptions
 	stats.TotalEmbeddings = len(embeddings)
 
 	writer := csv.NewWriter(w)
-	defer writer.Flush()
 
 	// Write header
 	headers := []string{"id", "content", "doc_id", "metadata"}
@@ -193,6 +192,11 @@ func (s *SQLiteStore) dumpCSV(ctx context.Context, w io.Writer, opts DumpOptions
 		}
 	}
 
+	writer.Flush()
+	if err := writer.Error(); err != nil {
+		return stats, wrapError("dump_csv", fmt.Errorf("failed to write: %w", err))
+	}
+
 	return stats, nil
 }
 
diff --git a/pkg/index/hnsw.go b/pkg/index/hnsw.go
index 99d79c5..b033394 100644
--- a/pkg/index/hnsw.go
+++ b/pkg/index/hnsw.go
@@ -131,28 +131,31 @@ func (h *HNSW) Load(r io.Reader) error {
 
 	dec := gob.NewDecoder(r)
 
-	// Decode parameters
-	if err := dec.Decode(&h.M); err != nil { return err }
-	h.MaxM = h.M * 2
-	h.ML = 1.0 / math.Log(2.0)
-	
-	if err := dec.Decode(&h.EfConstruction); err != nil { return err }
-	if err := dec.Decode(&h.EntryPoint); err != nil { return err }
-
-	// Decode nodes count
-	var count int
+	// Decode into a separate value: a damaged snapshot must not leave the index half replaced
+	var m, efConstruction, count int
+	var entryPoint string
+	if err := dec.Decode(&m); err != nil { return err }
+	if err := dec.Decode(&efConstruction); err != nil { return err }
+	if err := dec.Decode(&entryPoint); err != nil { return err }
 	if err := dec.Decode(&count); err != nil { return err }
 
 	// Decode nodes
-	h.Nodes = make(map[string]*HNSWNode, count)
+	nodes := make(map[string]*HNSWNode)
 	for i := 0; i < count; i++ {
 		var node HNSWNode
 		if err := dec.Decode(&node); err != nil {
 			return err
 		}
-		h.Nodes[node.ID] = &node
+		nodes[node.ID] = &node
 	}
 
+	h.M = m
+	h.MaxM = h.M * 2
+	h.ML = 1.0 / math.Log(2.0)
+	h.EfConstruction = efConstruction
+	h.EntryPoint = entryPoint
+	h.Nodes = nodes
+
 	return nil
 }
 
diff --git a/pkg/index/ivf.go b/pkg/index/ivf.go
index 8fd8cfa..88dde36 100644
--- a/pkg/index/ivf.go
+++ b/pkg/index/ivf.go
@@ -68,17 +68,27 @@ func (ivf *IVFIndex) Load(r io.Reader) error {
 
 	dec := gob.NewDecoder(r)
 
-	// Decode parameters
-	if err := dec.Decode(&ivf.NCentroids); err != nil { return err }
-	if err := dec.Decode(&ivf.Dimension); err != nil { return err }
-	if err := dec.Decode(&ivf.NProbe); err != nil { return err }
-	if err := dec.Decode(&ivf.Trained); err != nil { return err }
+	// Decode into a separate value: a damaged snapshot must not leave the index half replaced
+	var loaded IVFIndex
+	if err := dec.Decode(&loaded.NCentroids); err != nil { return err }
+	if err := dec.Decode(&loaded.Dimension); err != nil { return err }
+	if err := dec.Decode(&loaded.NProbe); err != nil { return err }
+	if err := dec.Decode(&loaded.Trained); err != nil { return err }
 
 	// Decode data
-	if err := dec.Decode(&ivf.Centroids); err != nil { return err }
-	if err := dec.Decode(&ivf.Invlists); err != nil { return err }
-	if err := dec.Decode(&ivf.IDs); err != nil { return err }
-	if err := dec.Decode(&ivf.Vectors); err != nil { return err }
+	if err := dec.Decode(&loaded.Centroids); err != nil { return err }
+	if err := dec.Decode(&loaded.Invlists); err != nil { return err }
+	if err := dec.Decode(&loaded.IDs); err != nil { return err }
+	if err := dec.Decode(&loaded.Vectors); err != nil { return err }
+
+	ivf.NCentroids = loaded.NCentroids
+	ivf.Dimension = loaded.Dimension
+	ivf.NProbe = loaded.NProbe
+	ivf.Trained = loaded.Trained
+	ivf.Centroids = loaded.Centroids
+	ivf.Invlists = loaded.Invlists
+	ivf.IDs = loaded.IDs
+	ivf.Vectors = loaded.Vectors
 
 	return nil
 }
-- 
2.43.0


From b51836805daa14ae4a23cb33f806fe85b5e5ae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:56 +0000
Subject: [PATCH 017/118] fix: report an interrupted listing of collections

---
 pkg/core/collections.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/core/collections.go b/pkg/core/collections.go
index 6a27281..775254f 100644
--- a/pkg/core/collections.go
+++ b/pkg/core/collections.go
@@ -214,6 +214,10 @@ func (s *SQLiteStore) ListCollections(ctx context.Context) ([]*Collection, error
 		collections = append(collections, collection)
 	}
 
+	if err := rows.Err(); err != nil {
+		return nil, wrapError("list_collections", fmt.Errorf("failed to list collections: %w", err))
+	}
+
 	return collections, nil
 }
 
-- 
2.43.0


From 305e089dfec64f297846284ac6c12cbeb16b2463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:44 +0000
Subject: [PATCH 018/118] fix: let concurrent writers succeed and keep the
 index in step with the rows

A transaction takes the write lock when it begins, so that a concurrent writer
waits instead of failing with SQLITE_BUSY; a write changes the row and the
index together; and the quantizer is trained under the store's lock.
---
 pkg/core/store.go       |   1 +
 pkg/core/store_crud.go  | 102 ++++++++++++++++++++++++----------------
 pkg/core/store_index.go |  19 +++++++-
 pkg/core/store_init.go  |   3 +-
 4 files changed, 82 insertions(+), 43 deletions(-)

diff --git a/pkg/core/store.go b/pkg/core/store.go
index b150055..b250a3f 100644
--- a/pkg/core/store.go
+++ b/pkg/core/store.go
@@ -20,6 +20,7 @@ type SQLiteStore struct {
 	db             *sql.DB
 	config         Config
 	mu             sync.RWMutex
+	writeMu        sync.Mutex         // Keeps row and index changes of one write together; taken after mu
 	closed         bool
 	similarityFn   SimilarityFunc
 	hnswIndex      *index.HNSW            // HNSW index for fast search
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index 67bc6da..f7dabb1 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -33,20 +33,7 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 	}
 
 	// Auto-train quantizer if not trained
-	if s.quantizer != nil {
-		trained := false
-		if sq, ok := s.quantizer.(*quantization.ScalarQuantizer); ok {
-			trained = sq.Trained
-		} else if bq, ok := s.quantizer.(*quantization.BinaryQuantizer); ok {
-			trained = bq.Trained
-		}
-
-		if !trained {
-			if err := s.TrainQuantizer(ctx); err != nil {
-				s.logger.Warn("failed to auto-train quantizer", "error", err)
-			}
-		}
-	}
+	s.autoTrainQuantizer(ctx, nil)
 
 	// Handle dimension mismatch
 	if incomingDim != currentDim {
@@ -61,6 +48,8 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 	// Re-acquire read lock for database operations
 	s.mu.RLock()
 	defer s.mu.RUnlock()
+	s.writeMu.Lock()
+	defer s.writeMu.Unlock()
 
 	if s.closed {
 		return wrapError("upsert", ErrStoreClosed)
@@ -153,14 +142,64 @@ func (s *SQLiteStore) detectDimension(dim int) int {
 	return s.config.VectorDim
 }
 
+// autoTrainQuantizer trains a quantizer that is still untrained, on the batch being
+// written or else on the stored vectors. Training changes the quantizer that searches
+// and writes use under the read lock, so it takes the write lock.
+func (s *SQLiteStore) autoTrainQuantizer(ctx context.Context, embs []*Embedding) {
+	s.mu.RLock()
+	needed := !s.closed && s.quantizer != nil && !s.quantizerTrained()
+	s.mu.RUnlock()
+	if !needed {
+		return
+	}
+
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if s.closed || s.quantizerTrained() {
+		return
+	}
+
+	var err error
+	if embs == nil {
+		err = s.trainQuantizer(ctx)
+	} else {
+		var trainingVectors [][]float32
+		for i := 0; i < len(embs) && i < 1000; i++ {
+			trainingVectors = append(trainingVectors, embs[i].Vector)
+		}
+		err = s.trainQuantizerOn(trainingVectors)
+	}
+	if err != nil {
+		s.logger.Warn("failed to auto-train quantizer", "error", err)
+	}
+}
+
+// quantizerTrained reports whether the quantizer is trained. Callers must hold the lock.
+func (s *SQLiteStore) quantizerTrained() bool {
+	switch q := s.quantizer.(type) {
+	case *quantization.ScalarQuantizer:
+		return q.Trained
+	case *quantization.BinaryQuantizer:
+		return q.Trained
+	}
+	return false
+}
+
 // UpsertBatch inserts or updates multiple embeddings in a transaction
 func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error {
 	if err := s.prepareBatchVectors(embs); err != nil {
 		return wrapError("upsert_batch", err)
 	}
 
+	// Auto-train quantizer if not trained
+	if len(embs) > 0 {
+		s.autoTrainQuantizer(ctx, embs)
+	}
+
 	s.mu.RLock()
 	defer s.mu.RUnlock()
+	s.writeMu.Lock()
+	defer s.writeMu.Unlock()
 
 	if s.closed {
 		return wrapError("upsert_batch", ErrStoreClosed)
@@ -170,33 +209,6 @@ func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error
 		return nil
 	}
 
-	// Auto-train quantizer if not trained
-	if s.quantizer != nil {
-		trained := false
-		if sq, ok := s.quantizer.(*quantization.ScalarQuantizer); ok {
-			trained = sq.Trained
-		} else if bq, ok := s.quantizer.(*quantization.BinaryQuantizer); ok {
-			trained = bq.Trained
-		}
-
-		if !trained {
-			// Extract some vectors for training
-			var trainingVectors [][]float32
-			for i := 0; i < len(embs) && i < 1000; i++ {
-				trainingVectors = append(trainingVectors, embs[i].Vector)
-			}
-			if sq, ok := s.quantizer.(*quantization.ScalarQuantizer); ok {
-				if err := sq.Train(trainingVectors); err != nil {
-					s.logger.Warn("failed to train scalar quantizer during batch upsert", "error", err)
-				}
-			} else if bq, ok := s.quantizer.(*quantization.BinaryQuantizer); ok {
-				if err := bq.Train(trainingVectors); err != nil {
-					s.logger.Warn("failed to train binary quantizer during batch upsert", "error", err)
-				}
-			}
-		}
-	}
-
 	// Start transaction
 	tx, err := s.db.BeginTx(ctx, nil)
 	if err != nil {
@@ -336,6 +348,8 @@ func (s *SQLiteStore) prepareBatchVectors(embs []*Embedding) error {
 func (s *SQLiteStore) Delete(ctx context.Context, id string) error {
 	s.mu.RLock()
 	defer s.mu.RUnlock()
+	s.writeMu.Lock()
+	defer s.writeMu.Unlock()
 
 	if s.closed {
 		return wrapError("delete", ErrStoreClosed)
@@ -369,6 +383,8 @@ func (s *SQLiteStore) Delete(ctx context.Context, id string) error {
 func (s *SQLiteStore) DeleteByDocID(ctx context.Context, docID string) error {
 	s.mu.RLock()
 	defer s.mu.RUnlock()
+	s.writeMu.Lock()
+	defer s.writeMu.Unlock()
 
 	if s.closed {
 		return wrapError("delete_by_doc_id", ErrStoreClosed)
@@ -532,6 +548,8 @@ func (s *SQLiteStore) DeleteByFilter(ctx context.Context, filter *MetadataFilter
 func (s *SQLiteStore) Clear(ctx context.Context) error {
 	s.mu.RLock()
 	defer s.mu.RUnlock()
+	s.writeMu.Lock()
+	defer s.writeMu.Unlock()
 
 	if s.closed {
 		return wrapError("clear", ErrStoreClosed)
@@ -558,6 +576,8 @@ func (s *SQLiteStore) Clear(ctx context.Context) error {
 func (s *SQLiteStore) ClearByDocID(ctx context.Context, docIDs []string) error {
 	s.mu.RLock()
 	defer s.mu.RUnlock()
+	s.writeMu.Lock()
+	defer s.writeMu.Unlock()
 
 	if s.closed {
 		return wrapError("clear_by_doc_id", ErrStoreClosed)
diff --git a/pkg/core/store_index.go b/pkg/core/store_index.go
index 98b4258..c4de8c2 100644
--- a/pkg/core/store_index.go
+++ b/pkg/core/store_index.go
@@ -77,7 +77,7 @@ func (s *SQLiteStore) initHNSWIndex(ctx context.Context) error {
 
 	// If quantization enabled but not loaded from snapshot, we need to train it before rebuilding
 	if s.quantizer != nil && !loaded {
-		if err := s.TrainQuantizer(ctx); err != nil {
+		if err := s.trainQuantizer(ctx); err != nil {
 			s.logger.Warn("failed to train quantizer", "error", err)
 		}
 	}
@@ -445,6 +445,18 @@ func (s *SQLiteStore) TrainIndex(ctx context.Context, numCentroids int) error {
 
 // TrainQuantizer trains the quantizer on existing vectors
 func (s *SQLiteStore) TrainQuantizer(ctx context.Context) error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	if s.closed {
+		return wrapError("train_quantizer", ErrStoreClosed)
+	}
+
+	return s.trainQuantizer(ctx)
+}
+
+// trainQuantizer is TrainQuantizer for callers that hold the lock
+func (s *SQLiteStore) trainQuantizer(ctx context.Context) error {
 	if s.quantizer == nil {
 		return nil
 	}
@@ -478,6 +490,11 @@ func (s *SQLiteStore) TrainQuantizer(ctx context.Context) error {
 		return fmt.Errorf("no vectors available for quantizer training")
 	}
 
+	return s.trainQuantizerOn(trainingVectors)
+}
+
+// trainQuantizerOn trains the quantizer on the given vectors. Callers must hold the lock.
+func (s *SQLiteStore) trainQuantizerOn(trainingVectors [][]float32) error {
 	if sq, ok := s.quantizer.(*quantization.ScalarQuantizer); ok {
 		if err := sq.Train(trainingVectors); err != nil {
 			return err
diff --git a/pkg/core/store_init.go b/pkg/core/store_init.go
index 5449e2b..f73c498 100644
--- a/pkg/core/store_init.go
+++ b/pkg/core/store_init.go
@@ -24,11 +24,12 @@ func (s *SQLiteStore) Init(ctx context.Context) error {
 	// Every pragma is passed in the DSN so that it applies to each pooled connection:
 	// foreign_keys: Enforce cascading deletes
 	// recursive_triggers: Fire delete triggers on REPLACE so the FTS index stays in sync
+	// _txlock=immediate: Wait for the write lock when a transaction begins, not half-way through it
 	// busy_timeout: Wait up to 5s for lock instead of failing immediately
 	// journal_mode=WAL: Better concurrency
 	// synchronous=NORMAL: Good balance of safety and speed
 	// cache_size=-2000: Use 2MB of memory for cache (negative value = kb)
-	dsn := fmt.Sprintf("%s?_pragma=busy_timeout(5000)&_pragma=foreign_keys(1)&_pragma=recursive_triggers(1)"+
+	dsn := fmt.Sprintf("%s?_txlock=immediate&_pragma=busy_timeout(5000)&_pragma=foreign_keys(1)&_pragma=recursive_triggers(1)"+
 		"&_pragma=journal_mode(WAL)&_pragma=synchronous(NORMAL)&_pragma=cache_size(-2000)", s.config.Path)
 	db, err := sql.Open("sqlite", dsn)
 	if err != nil {
-- 
2.43.0


From 1fa1af633b4d3160f3e128d9992e7723ff1b5854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:01 +0000
Subject: [PATCH 019/118] fix: make the index structures replace, delete and
 rank correctly

---
 pkg/index/flat.go        |  6 ++++--
 pkg/index/hnsw.go        | 11 +++++++++--
 pkg/index/ivf.go         | 41 +++++++++++++++++++++++++++++++++++++---
 pkg/index/lsh.go         | 15 ++++++++++++---
 pkg/index/multi_index.go | 37 +++++++++++++++++++++++++++++++-----
 5 files changed, 95 insertions(+), 15 deletions(-)

diff --git a/pkg/index/flat.go b/pkg/index/flat.go
index 53974b0..54d2363 100644
--- a/pkg/index/flat.go
+++ b/pkg/index/flat.go
@@ -70,7 +70,7 @@ func (f *FlatIndex) Search(query []float32, k int) ([]string, []float32) {
 	f.mu.RLock()
 	defer f.mu.RUnlock()
 
-	if len(f.vectors) == 0 {
+	if len(f.vectors) == 0 || k <= 0 {
 		return []string{}, []float32{}
 	}
 
@@ -190,11 +190,13 @@ func (f *FlatIndex) BatchInsert(ids []string, vectors [][]float32) error {
 	f.mu.Lock()
 	defer f.mu.Unlock()
 
-	for i, id := range ids {
+	for i := range ids {
 		if len(vectors[i]) != f.dimension {
 			return fmt.Errorf("dimension mismatch at index %d: expected %d, got %d", i, f.dimension, len(vectors[i]))
 		}
+	}
 
+	for i, id := range ids {
 		v := make([]float32, f.dimension)
 		copy(v, vectors[i])
 		
diff --git a/pkg/index/hnsw.go b/pkg/index/hnsw.go
index b033394..7cedcfc 100644
--- a/pkg/index/hnsw.go
+++ b/pkg/index/hnsw.go
@@ -504,7 +504,7 @@ func (h *HNSW) Search(query []float32, k int, ef int) ([]string, []float32) {
 		ef = k
 	}
 	
-	if h.EntryPoint == "" {
+	if h.EntryPoint == "" || k <= 0 {
 		return []string{}, []float32{}
 	}
 	
@@ -892,7 +892,7 @@ func (h *HNSW) InsertBatchParallel(vectors []struct {
 
 				// Prepare node data
 				var quantized []byte
-				var storedVector []float32 = v.Vector
+				var storedVector []float32 = append([]float32(nil), v.Vector...)
 
 				if tempHNSW.Quantizer != nil {
 					var err error
@@ -979,6 +979,13 @@ func (h *HNSW) InsertBatchParallel(vectors []struct {
 	defer h.mu.Unlock()
 
 	for _, pg := range graphs {
+		// A soft-deleted node makes way for the new one with its ID
+		for id := range pg.nodes {
+			if existing, exists := h.Nodes[id]; exists && existing.Deleted {
+				h.unlink(id)
+			}
+		}
+
 		// Connect this sub-graph to what is already in the index
 		links := make(map[string][]string)
 		if h.EntryPoint != "" {
diff --git a/pkg/index/ivf.go b/pkg/index/ivf.go
index 88dde36..9586c80 100644
--- a/pkg/index/ivf.go
+++ b/pkg/index/ivf.go
@@ -22,6 +22,7 @@ type IVFIndex struct {
 	IDs          []string      // Vector IDs
 	Trained      bool
 	NProbe       int           // Number of clusters to search
+	positions    map[string]int // ID -> index in IDs and Vectors
 	mu           sync.RWMutex
 }
 
@@ -89,12 +90,16 @@ func (ivf *IVFIndex) Load(r io.Reader) error {
 	ivf.Invlists = loaded.Invlists
 	ivf.IDs = loaded.IDs
 	ivf.Vectors = loaded.Vectors
+	ivf.rebuildPositions()
 
 	return nil
 }
 
 // Train learns cluster centroids from training data
 func (ivf *IVFIndex) Train(vectors [][]float32) error {
+	ivf.mu.Lock()
+	defer ivf.mu.Unlock()
+	
 	if len(vectors) < ivf.NCentroids {
 		return fmt.Errorf("need at least %d vectors for training, got %d", ivf.NCentroids, len(vectors))
 	}
@@ -113,10 +118,24 @@ func (ivf *IVFIndex) Train(vectors [][]float32) error {
 		ivf.Invlists[i] = []int{}
 	}
 	
+	// Vectors that are already indexed move to the new clusters
+	for i, vector := range ivf.Vectors {
+		centroidIdx := ivf.findNearestCentroid(vector)
+		ivf.Invlists[centroidIdx] = append(ivf.Invlists[centroidIdx], i)
+	}
+	
 	return nil
 }
 
-// Add adds a vector to the index
+// rebuildPositions recomputes where each ID is stored
+func (ivf *IVFIndex) rebuildPositions() {
+	ivf.positions = make(map[string]int, len(ivf.IDs))
+	for i, id := range ivf.IDs {
+		ivf.positions[id] = i
+	}
+}
+
+// Add adds a vector to the index, replacing an earlier one with the same ID
 func (ivf *IVFIndex) Add(id string, vector []float32) error {
 	ivf.mu.Lock()
 	defer ivf.mu.Unlock()
@@ -129,6 +148,13 @@ func (ivf *IVFIndex) Add(id string, vector []float32) error {
 		return fmt.Errorf("vector dimension %d doesn't match index dimension %d", len(vector), ivf.Dimension)
 	}
 	
+	if ivf.positions == nil || len(ivf.positions) != len(ivf.IDs) {
+		ivf.rebuildPositions()
+	}
+	if _, exists := ivf.positions[id]; exists {
+		ivf.remove(ivf.positions[id])
+	}
+	
 	// Find nearest centroid
 	centroidIdx := ivf.findNearestCentroid(vector)
 	
@@ -139,6 +165,7 @@ func (ivf *IVFIndex) Add(id string, vector []float32) error {
 	// Store vector and ID
 	ivf.Vectors = append(ivf.Vectors, append([]float32(nil), vector...))
 	ivf.IDs = append(ivf.IDs, id)
+	ivf.positions[id] = vectorIdx
 	
 	return nil
 }
@@ -199,7 +226,7 @@ func (ivf *IVFIndex) Search(query []float32, k int) ([]string, []float32, error)
 	})
 	
 	// Return top-k results
-	topK := min(k, len(candidates))
+	topK := min(max(k, 0), len(candidates))
 	ids := make([]string, topK)
 	distances := make([]float32, topK)
 	
@@ -285,6 +312,7 @@ func (ivf *IVFIndex) Clear() {
 	}
 	ivf.Vectors = [][]float32{}
 	ivf.IDs = []string{}
+	ivf.positions = nil
 }
 
 // kMeansIVF performs k-means clustering for IVF
@@ -426,6 +454,13 @@ func (ivf *IVFIndex) Delete(id string) error {
 		return errors.New("vector not found")
 	}
 	
+	ivf.remove(vectorIndex)
+	
+	return nil
+}
+
+// remove takes the vector at the given index out of all lists
+func (ivf *IVFIndex) remove(vectorIndex int) {
 	// Remove from IDs
 	ivf.IDs = append(ivf.IDs[:vectorIndex], ivf.IDs[vectorIndex+1:]...)
 	
@@ -449,7 +484,7 @@ func (ivf *IVFIndex) Delete(id string) error {
 		ivf.Invlists[i] = kept
 	}
 	
-	return nil
+	ivf.rebuildPositions()
 }
 
 // Size returns the number of vectors in the index
diff --git a/pkg/index/lsh.go b/pkg/index/lsh.go
index c8b298e..7c4346b 100644
--- a/pkg/index/lsh.go
+++ b/pkg/index/lsh.go
@@ -101,7 +101,11 @@ func (lsh *LSHIndex) Insert(id string, vector []float32) error {
 	lsh.mu.Lock()
 	defer lsh.mu.Unlock()
 	
-	// Store the vector
+	// Re-inserting an ID: take its old vector out of the buckets
+	lsh.remove(id)
+	
+	// Store a copy: the caller keeps ownership of its slice
+	vector = append([]float32(nil), vector...)
 	lsh.vectors[id] = vector
 	
 	// Add to all hash tables
@@ -152,7 +156,7 @@ func (lsh *LSHIndex) Search(query []float32, k int) ([]LSHSearchResult, error) {
 	
 	// Return top k
 	if len(results) > k {
-		results = results[:k]
+		results = results[:max(k, 0)]
 	}
 	
 	return results, nil
@@ -208,7 +212,7 @@ func (lsh *LSHIndex) SearchWithMultiProbe(query []float32, k int, numProbes int)
 	})
 	
 	if len(results) > k {
-		results = results[:k]
+		results = results[:max(k, 0)]
 	}
 	
 	return results, nil
@@ -219,6 +223,11 @@ func (lsh *LSHIndex) Delete(id string) bool {
 	lsh.mu.Lock()
 	defer lsh.mu.Unlock()
 	
+	return lsh.remove(id)
+}
+
+// remove deletes a vector. Callers must hold the lock.
+func (lsh *LSHIndex) remove(id string) bool {
 	vector, exists := lsh.vectors[id]
 	if !exists {
 		return false
diff --git a/pkg/index/multi_index.go b/pkg/index/multi_index.go
index 29d1f17..f7be007 100644
--- a/pkg/index/multi_index.go
+++ b/pkg/index/multi_index.go
@@ -2,6 +2,7 @@
 package index
 
 import (
+	"fmt"
 	"sort"
 	"sync"
 )
@@ -122,6 +123,10 @@ func (m *MultiIndex) Insert(id string, vector []float32) error {
 
 // Search performs multi-index search based on strategy
 func (m *MultiIndex) Search(query []float32, k int) ([]string, []float32) {
+	if k <= 0 {
+		return []string{}, []float32{}
+	}
+	
 	m.mu.RLock()
 	defer m.mu.RUnlock()
 	
@@ -205,7 +210,7 @@ func (m *MultiIndex) searchWithRerank(query []float32, k int) ([]string, []float
 	if m.config.RerankTopK > 0 {
 		candidateK = m.config.RerankTopK
 	}
-	candidateIDs, _ := primary.Search(query, candidateK)
+	candidateIDs, candidateDists := primary.Search(query, candidateK)
 	
 	if len(candidateIDs) == 0 {
 		return []string{}, []float32{}
@@ -219,8 +224,10 @@ func (m *MultiIndex) searchWithRerank(query []float32, k int) ([]string, []float
 	}
 	
 	resultMap := make(map[string]*result)
-	for _, id := range candidateIDs {
+	primaryDist := make(map[string]float32)
+	for i, id := range candidateIDs {
 		resultMap[id] = &result{id: id, score: 0, voteCount: 0}
+		primaryDist[id] = candidateDists[i]
 	}
 	
 	// Get refined distances from secondary indices
@@ -241,11 +248,17 @@ func (m *MultiIndex) searchWithRerank(query []float32, k int) ([]string, []float
 	for _, r := range resultMap {
 		if r.voteCount > 0 {
 			r.score /= float32(r.voteCount)
+		} else {
+			// No secondary index ranks it: keep the primary's distance, after those ranked
+			r.score = primaryDist[r.id]
 		}
 		results = append(results, *r)
 	}
 	
 	sort.Slice(results, func(i, j int) bool {
+		if ranked := results[i].voteCount > 0; ranked != (results[j].voteCount > 0) {
+			return ranked
+		}
 		return results[i].score < results[j].score
 	})
 	
@@ -401,14 +414,26 @@ func (h *HybridIndex) Insert(id string, vector []float32) error {
 	h.mu.Lock()
 	defer h.mu.Unlock()
 	
+	if len(vector) != h.ivf.Dimension {
+		return fmt.Errorf("vector dimension %d doesn't match index dimension %d", len(vector), h.ivf.Dimension)
+	}
 	if err := h.hnsw.Insert(id, vector); err != nil {
 		return err
 	}
-	return h.ivf.Add(id, vector)
+	if err := h.ivf.Add(id, vector); err != nil {
+		// Keep both indices alike
+		_ = h.hnsw.Delete(id)
+		return err
+	}
+	return nil
 }
 
 // Search performs hybrid search
 func (h *HybridIndex) Search(query []float32, k int) ([]string, []float32) {
+	if k <= 0 {
+		return []string{}, []float32{}
+	}
+	
 	h.mu.RLock()
 	defer h.mu.RUnlock()
 	
@@ -478,7 +503,9 @@ func (h *HybridIndex) Delete(id string) error {
 		// Log but don't fail - some indices may not support deletion
 		_ = err
 	}
-	// IVF doesn't support delete, would need rebuild
+	if err := h.ivf.Delete(id); err != nil {
+		_ = err
+	}
 	return nil
 }
 
@@ -505,7 +532,7 @@ type HNSWAdapter struct {
 // NewHNSWAdapter creates a new HNSW adapter
 func NewHNSWAdapter(dimension, M int, distFunc func([]float32, []float32) float32) *HNSWAdapter {
 	return &HNSWAdapter{
-		HNSW:      NewHNSW(dimension, M, distFunc),
+		HNSW:      NewHNSW(M, 200, distFunc),
 		defaultEf: 50,
 	}
 }
-- 
2.43.0


From 1cb020d37a9b973ee7a895bfad122ecf0efa7ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:12 +0000
Subject: [PATCH 020/118] fix: keep the graph's vector index complete and in
 step with batches

---
 pkg/graph/graph_batch.go |  61 +++++++--
 pkg/graph/graph_hnsw.go  | 273 +++++++--------------------------------
 2 files changed, 96 insertions(+), 238 deletions(-)

diff --git a/pkg/graph/graph_batch.go b/pkg/graph/graph_batch.go
index 427f389..e4b1461 100644
--- a/pkg/graph/graph_batch.go
+++ b/pkg/graph/graph_batch.go
@@ -59,6 +59,8 @@ func (g *GraphStore) UpsertNodesBatch(ctx context.Context, nodes []*GraphNode) (
 	}
 	defer func() { _ = stmt.Close() }()
 	
+	stored := make([]*GraphNode, 0, len(nodes))
+
 	// Process each node
 	for _, node := range nodes {
 		if node == nil || node.ID == "" {
@@ -106,6 +108,7 @@ func (g *GraphStore) UpsertNodesBatch(ctx context.Context, nodes []*GraphNode) (
 			result.FailedCount++
 		} else {
 			result.SuccessCount++
+			stored = append(stored, node)
 		}
 	}
 	
@@ -114,7 +117,7 @@ func (g *GraphStore) UpsertNodesBatch(ctx context.Context, nodes []*GraphNode) (
 		return nil, fmt.Errorf("failed to commit transaction: %w", err)
 	}
 	
-	return result, nil
+	return result, g.reindexNodes(stored, nil)
 }
 
 // DeleteNodesBatch deletes multiple nodes in a single transaction
@@ -162,7 +165,23 @@ func (g *GraphStore) DeleteNodesBatch(ctx context.Context, nodeIDs []string) (*B
 		return nil, fmt.Errorf("failed to commit transaction: %w", err)
 	}
 	
-	return result, nil
+	return result, g.reindexNodes(nil, nodeIDs)
+}
+
+// reindexNodes brings the HNSW index up to date after a batch was committed
+func (g *GraphStore) reindexNodes(stored []*GraphNode, deleted []string) error {
+	if g.hnswIndex == nil {
+		return nil
+	}
+	for _, node := range stored {
+		if err := g.hnswIndex.index.Add(node.ID, node.Vector); err != nil {
+			return fmt.Errorf("failed to update hnsw index: %w", err)
+		}
+	}
+	for _, id := range deleted {
+		g.hnswIndex.index.Remove(id)
+	}
+	return nil
 }
 
 // UpsertEdgesBatch inserts or updates multiple edges in a single transaction
@@ -473,9 +492,12 @@ func (g *GraphStore) ExecuteBatch(ctx context.Context, ops *BatchGraphOperation)
 	}
 	defer func() { _ = tx.Rollback() }()
 	
+	var stored []*GraphNode
+
 	// Process node upserts
 	if len(ops.NodeUpserts) > 0 {
-		nodeResult, err := g.upsertNodesBatchTx(ctx, tx, ops.NodeUpserts)
+		nodeResult, nodes, err := g.upsertNodesBatchTx(ctx, tx, ops.NodeUpserts)
+		stored = nodes
 		if err != nil {
 			return nil, fmt.Errorf("failed to upsert nodes: %w", err)
 		}
@@ -520,12 +542,12 @@ func (g *GraphStore) ExecuteBatch(ctx context.Context, ops *BatchGraphOperation)
 		return nil, fmt.Errorf("failed to commit transaction: %w", err)
 	}
 	
-	return result, nil
+	return result, g.reindexNodes(stored, ops.NodeDeletes)
 }
 
 // Helper functions for transaction-based operations
 
-func (g *GraphStore) upsertNodesBatchTx(ctx context.Context, tx *sql.Tx, nodes []*GraphNode) (*BatchResult, error) {
+func (g *GraphStore) upsertNodesBatchTx(ctx context.Context, tx *sql.Tx, nodes []*GraphNode) (*BatchResult, []*GraphNode, error) {
 	result := &BatchResult{Errors: make([]error, 0)}
 	
 	stmt, err := tx.PrepareContext(ctx, `
@@ -539,20 +561,26 @@ func (g *GraphStore) upsertNodesBatchTx(ctx context.Context, tx *sql.Tx, nodes [
 			updated_at = CURRENT_TIMESTAMP
 	`)
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 	defer func() { _ = stmt.Close() }()
 	
+	stored := make([]*GraphNode, 0, len(nodes))
 	for _, node := range nodes {
 		if node == nil || node.ID == "" || len(node.Vector) == 0 {
 			result.FailedCount++
 			continue
 		}
 		
-		vectorBytes, _ := encoding.EncodeVector(node.Vector)
+		vectorBytes, err := encoding.EncodeVector(node.Vector)
 		var propertiesJSON []byte
-		if node.Properties != nil {
-			propertiesJSON, _ = json.Marshal(node.Properties)
+		if err == nil && node.Properties != nil {
+			propertiesJSON, err = json.Marshal(node.Properties)
+		}
+		if err != nil {
+			result.FailedCount++
+			result.Errors = append(result.Errors, fmt.Errorf("failed to encode node %s: %w", node.ID, err))
+			continue
 		}
 		
 		_, err = stmt.ExecContext(ctx, node.ID, vectorBytes, node.Content, node.NodeType, string(propertiesJSON))
@@ -561,10 +589,11 @@ func (g *GraphStore) upsertNodesBatchTx(ctx context.Context, tx *sql.Tx, nodes [
 			result.Errors = append(result.Errors, err)
 		} else {
 			result.SuccessCount++
+			stored = append(stored, node)
 		}
 	}
 	
-	return result, nil
+	return result, stored, nil
 }
 
 func (g *GraphStore) deleteNodesBatchTx(ctx context.Context, tx *sql.Tx, nodeIDs []string) (*BatchResult, error) {
@@ -623,14 +652,20 @@ func (g *GraphStore) upsertEdgesBatchTx(ctx context.Context, tx *sql.Tx, edges [
 			edge.Weight = 1.0
 		}
 		
+		var err error
 		var propertiesJSON []byte
 		if edge.Properties != nil {
-			propertiesJSON, _ = json.Marshal(edge.Properties)
+			propertiesJSON, err = json.Marshal(edge.Properties)
 		}
 		
 		var vectorBytes []byte
-		if len(edge.Vector) > 0 {
-			vectorBytes, _ = encoding.EncodeVector(edge.Vector)
+		if err == nil && len(edge.Vector) > 0 {
+			vectorBytes, err = encoding.EncodeVector(edge.Vector)
+		}
+		if err != nil {
+			result.FailedCount++
+			result.Errors = append(result.Errors, fmt.Errorf("failed to encode edge %s: %w", edge.ID, err))
+			continue
 		}
 		
 		_, err = stmt.ExecContext(ctx, edge.ID, edge.FromNodeID, edge.ToNodeID, edge.EdgeType, edge.Weight, string(propertiesJSON), vectorBytes)
diff --git a/pkg/graph/graph_hnsw.go b/pkg/graph/graph_hnsw.go
index 37a0435..cd9f3d3 100644
--- a/pkg/graph/graph_hnsw.go
+++ b/pkg/graph/graph_hnsw.go
@@ -3,23 +3,18 @@ package graph
 import (
 	"context"
 	"fmt"
-	"math"
-	"math/rand"
 	"sort"
 	"sync"
 	"github.com/liliang-cn/cortexdb/v2/pkg/core"
+	"github.com/liliang-cn/cortexdb/v2/pkg/index"
 	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
 )
 
-// SimpleHNSW implements a simplified HNSW-like index for vector search
+// SimpleHNSW keeps the vectors of the graph nodes in an HNSW index
 type SimpleHNSW struct {
 	dimensions int
-	maxLevels  int
-	maxConns   int
-	mL         float64
 	vectors    map[string][]float32
-	graph      map[int]map[string][]string  // level -> nodeID -> connections
-	entryPoint string
+	index      *index.HNSW
 	mutex      sync.RWMutex
 	similarity func([]float32, []float32) float64
 }
@@ -31,230 +26,80 @@ type HNSWGraphIndex struct {
 
 // NewSimpleHNSW creates a new simplified HNSW index
 func NewSimpleHNSW(dimensions int, maxConns int) *SimpleHNSW {
+	return newSimpleHNSW(dimensions, maxConns, core.CosineSimilarity)
+}
+
+func newSimpleHNSW(dimensions int, maxConns int, similarity func([]float32, []float32) float64) *SimpleHNSW {
 	return &SimpleHNSW{
 		dimensions: dimensions,
-		maxLevels:  16,
-		maxConns:   maxConns,
-		mL:         1.0 / math.Log(2.0),
 		vectors:    make(map[string][]float32),
-		graph:      make(map[int]map[string][]string),
-		similarity: core.CosineSimilarity,
-	}
-}
-
-// randomLevel generates a random level for a new node
-func (h *SimpleHNSW) randomLevel() int {
-	level := 0
-	for rand.Float64() < 0.5 && level < h.maxLevels-1 {
-		level++
+		index: index.NewHNSW(maxConns, 200, func(a, b []float32) float32 {
+			return float32(1 - similarity(a, b))
+		}),
+		similarity: similarity,
 	}
-	return level
 }
 
-// Add inserts a vector into the HNSW index
+// Add inserts a vector into the HNSW index, replacing the one with the same ID
 func (h *SimpleHNSW) Add(id string, vector []float32) error {
 	h.mutex.Lock()
 	defer h.mutex.Unlock()
 
-	h.vectors[id] = vector
-	level := h.randomLevel()
-
-	// Initialize graph levels if needed
-	for l := 0; l <= level; l++ {
-		if h.graph[l] == nil {
-			h.graph[l] = make(map[string][]string)
-		}
-		if h.graph[l][id] == nil {
-			h.graph[l][id] = make([]string, 0, h.maxConns)
+	if _, exists := h.vectors[id]; exists {
+		if err := h.index.Delete(id); err != nil {
+			return err
 		}
 	}
-
-	// Set entry point if this is the first node or higher level
-	if h.entryPoint == "" || level > h.getNodeLevel(h.entryPoint) {
-		h.entryPoint = id
+	if err := h.index.Insert(id, vector); err != nil {
+		return err
 	}
-
-	// Connect to existing nodes at each level
-	for l := level; l >= 0; l-- {
-		candidates := h.searchLevel(vector, h.entryPoint, 1, l)
-		maxConnections := h.maxConns
-		if l == 0 {
-			maxConnections = h.maxConns * 2 // More connections at level 0
-		}
-
-		// Connect to best candidates
-		connected := 0
-		for _, candidate := range candidates {
-			if candidate.nodeID != id && connected < maxConnections {
-				h.addConnection(id, candidate.nodeID, l)
-				connected++
-			}
-		}
-	}
-
+	h.vectors[id] = append([]float32(nil), vector...)
 	return nil
 }
 
-// searchLevel searches for candidates at a specific level
-func (h *SimpleHNSW) searchLevel(query []float32, entryPoint string, ef int, level int) []searchCandidate {
-	visited := make(map[string]bool)
-	candidates := make([]searchCandidate, 0, ef*2)
-	
-	if entryPoint == "" {
-		return candidates
-	}
-
-	// Start with entry point
-	if vec, exists := h.vectors[entryPoint]; exists {
-		score := h.similarity(query, vec)
-		candidates = append(candidates, searchCandidate{
-			nodeID: entryPoint,
-			score:  score,
-		})
-		visited[entryPoint] = true
-	}
-
-	// Beam search
-	for len(candidates) < ef*2 {
-		if len(candidates) == 0 {
-			break
-		}
-
-		// Find best unvisited candidate
-		sort.Slice(candidates, func(i, j int) bool {
-			return candidates[i].score > candidates[j].score
-		})
-
-		expanded := false
-		for _, candidate := range candidates {
-			if !visited[candidate.nodeID+"_expanded"] {
-				visited[candidate.nodeID+"_expanded"] = true
-				
-				// Explore connections
-				if connections, exists := h.graph[level][candidate.nodeID]; exists {
-					for _, connID := range connections {
-						if !visited[connID] && connID != candidate.nodeID {
-							if vec, exists := h.vectors[connID]; exists {
-								score := h.similarity(query, vec)
-								candidates = append(candidates, searchCandidate{
-									nodeID: connID,
-									score:  score,
-								})
-								visited[connID] = true
-							}
-						}
-					}
-				}
-				expanded = true
-				break
-			}
-		}
-
-		if !expanded {
-			break
-		}
-	}
-
-	// Sort and return top candidates
-	sort.Slice(candidates, func(i, j int) bool {
-		return candidates[i].score > candidates[j].score
-	})
-
-	if len(candidates) > ef {
-		candidates = candidates[:ef]
-	}
-
-	return candidates
-}
-
 type searchCandidate struct {
 	nodeID string
 	score  float64
 }
 
-// addConnection adds a bidirectional connection between two nodes at a level
-func (h *SimpleHNSW) addConnection(nodeID1, nodeID2 string, level int) {
-	if h.graph[level] == nil {
-		h.graph[level] = make(map[string][]string)
-	}
-
-	// Add connection from node1 to node2
-	if h.graph[level][nodeID1] == nil {
-		h.graph[level][nodeID1] = make([]string, 0, h.maxConns)
-	}
-	if len(h.graph[level][nodeID1]) < h.maxConns {
-		// Check if already connected
-		for _, conn := range h.graph[level][nodeID1] {
-			if conn == nodeID2 {
-				return
-			}
-		}
-		h.graph[level][nodeID1] = append(h.graph[level][nodeID1], nodeID2)
-	}
-
-	// Add connection from node2 to node1
-	if h.graph[level][nodeID2] == nil {
-		h.graph[level][nodeID2] = make([]string, 0, h.maxConns)
-	}
-	if len(h.graph[level][nodeID2]) < h.maxConns {
-		// Check if already connected
-		for _, conn := range h.graph[level][nodeID2] {
-			if conn == nodeID1 {
-				return
-			}
-		}
-		h.graph[level][nodeID2] = append(h.graph[level][nodeID2], nodeID1)
-	}
-}
-
-// getNodeLevel returns the highest level for a node
-func (h *SimpleHNSW) getNodeLevel(nodeID string) int {
-	for level := h.maxLevels - 1; level >= 0; level-- {
-		if connections, exists := h.graph[level][nodeID]; exists && len(connections) > 0 {
-			return level
-		}
-	}
-	return 0
-}
-
 // Search performs HNSW search
 func (h *SimpleHNSW) Search(query []float32, k int) []searchCandidate {
 	h.mutex.RLock()
 	defer h.mutex.RUnlock()
 
-	if h.entryPoint == "" {
+	if k <= 0 {
 		return nil
 	}
 
-	// Start from top level and work down
-	currentNodes := []searchCandidate{{nodeID: h.entryPoint, score: 0}}
-	
-	// Search from top to level 1
-	for level := h.getNodeLevel(h.entryPoint); level > 0; level-- {
-		candidates := h.searchLevel(query, h.entryPoint, 1, level)
-		if len(candidates) > 0 {
-			currentNodes = candidates[:1] // Keep best candidate
-		}
-	}
-
-	// Search at level 0 with desired ef
 	ef := k * 2
 	if ef < 50 {
 		ef = 50
 	}
-	
-	entryPoint := h.entryPoint
-	if len(currentNodes) > 0 {
-		entryPoint = currentNodes[0].nodeID
+	ids, _ := h.index.Search(query, k, ef)
+	if len(ids) < k && len(ids) < len(h.vectors) {
+		// Removed nodes took up the candidate list: look at all vectors
+		ids = ids[:0]
+		for id := range h.vectors {
+			ids = append(ids, id)
+		}
 	}
-	
-	results := h.searchLevel(query, entryPoint, ef, 0)
-	
+
+	results := make([]searchCandidate, 0, len(ids))
+	for _, id := range ids {
+		results = append(results, searchCandidate{
+			nodeID: id,
+			score:  h.similarity(query, h.vectors[id]),
+		})
+	}
+	sort.Slice(results, func(i, j int) bool {
+		return results[i].score > results[j].score
+	})
+
 	// Return top k results
 	if len(results) > k {
 		results = results[:k]
 	}
-	
+
 	return results
 }
 
@@ -263,42 +108,17 @@ func (h *SimpleHNSW) Remove(nodeID string) {
 	h.mutex.Lock()
 	defer h.mutex.Unlock()
 
-	delete(h.vectors, nodeID)
-
-	// Remove from all levels
-	for level := 0; level < h.maxLevels; level++ {
-		if connections, exists := h.graph[level][nodeID]; exists {
-			// Remove connections from other nodes
-			for _, connID := range connections {
-				if otherConns, exists := h.graph[level][connID]; exists {
-					for i, conn := range otherConns {
-						if conn == nodeID {
-							h.graph[level][connID] = append(otherConns[:i], otherConns[i+1:]...)
-							break
-						}
-					}
-				}
-			}
-			delete(h.graph[level], nodeID)
-		}
-	}
-
-	// Update entry point if needed
-	if h.entryPoint == nodeID {
-		h.entryPoint = ""
-		// Find new entry point
-		for id := range h.vectors {
-			if h.entryPoint == "" || h.getNodeLevel(id) > h.getNodeLevel(h.entryPoint) {
-				h.entryPoint = id
-			}
-		}
+	if _, exists := h.vectors[nodeID]; !exists {
+		return
 	}
+	delete(h.vectors, nodeID)
+	_ = h.index.Delete(nodeID)
 }
 
 // EnableHNSWIndex enables HNSW indexing for the graph store
 func (g *GraphStore) EnableHNSWIndex(dimensions int) error {
 	g.hnswIndex = &HNSWGraphIndex{
-		index: NewSimpleHNSW(dimensions, 16),
+		index: newSimpleHNSW(dimensions, 16, g.store.GetSimilarityFunc()),
 	}
 	
 	// Index existing nodes with vectors
@@ -326,7 +146,7 @@ func (g *GraphStore) EnableHNSWIndex(dimensions int) error {
 		_ = g.hnswIndex.index.Add(nodeID, vector)
 	}
 
-	return nil
+	return rows.Err()
 }
 
 // HNSWSearch performs HNSW-accelerated vector search
@@ -360,6 +180,9 @@ func (g *GraphStore) HNSWSearch(ctx context.Context, query []float32, k int, thr
 
 // HNSWHybridSearch combines HNSW search with graph proximity
 func (g *GraphStore) HNSWHybridSearch(ctx context.Context, query *HybridQuery) ([]*HybridResult, error) {
+	if query == nil {
+		return nil, fmt.Errorf("query cannot be nil")
+	}
 	if g.hnswIndex == nil {
 		// Fall back to regular hybrid search
 		return g.HybridSearch(ctx, query)
-- 
2.43.0


From bc5789aea20f833239acd30f088317829f2c9d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:12 +0000
Subject: [PATCH 021/118] fix: apply neighbor limits after type filters and
 name subgraph parts once

---
 pkg/graph/graph_traversal.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/pkg/graph/graph_traversal.go b/pkg/graph/graph_traversal.go
index 15c3371..849d47e 100644
--- a/pkg/graph/graph_traversal.go
+++ b/pkg/graph/graph_traversal.go
@@ -90,13 +90,20 @@ func (g *GraphStore) Neighbors(ctx context.Context, nodeID string, opts Traversa
 			}
 
 			// Check limit
-			if opts.Limit > 0 && len(neighborIDs) >= opts.Limit {
+			if opts.Limit > 0 && len(opts.NodeTypes) == 0 && len(neighborIDs) >= opts.Limit {
 				return g.loadNeighborNodes(ctx, neighborIDs, opts.NodeTypes)
 			}
 		}
 	}
 
-	return g.loadNeighborNodes(ctx, neighborIDs, opts.NodeTypes)
+	neighbors, err := g.loadNeighborNodes(ctx, neighborIDs, opts.NodeTypes)
+	if err != nil {
+		return nil, err
+	}
+	if opts.Limit > 0 && len(neighbors) > opts.Limit {
+		neighbors = neighbors[:opts.Limit]
+	}
+	return neighbors, nil
 }
 
 // ShortestPath finds the shortest path between two nodes using BFS
@@ -205,27 +212,30 @@ func (g *GraphStore) ShortestPath(ctx context.Context, fromID, toID string) (*Pa
 // Subgraph extracts a subgraph containing specified nodes and their connections
 func (g *GraphStore) Subgraph(ctx context.Context, nodeIDs []string) (*GraphResult, error) {
 	nodeSet := make(map[string]bool)
-	for _, id := range nodeIDs {
-		nodeSet[id] = true
-	}
 
 	nodes := make([]*GraphNode, 0, len(nodeIDs))
 	edges := make([]*GraphEdge, 0)
 
+	nodesByID, err := g.getNodesByIDs(ctx, nodeIDs)
+	if err != nil {
+		return nil, err
+	}
+
 	// Get all nodes
 	for _, nodeID := range nodeIDs {
-		node, err := g.GetNode(ctx, nodeID)
-		if err != nil {
-			continue // Skip if node not found
+		node, ok := nodesByID[nodeID]
+		if !ok || nodeSet[nodeID] {
+			continue // Skip if node not found or named twice
 		}
+		nodeSet[nodeID] = true
 		nodes = append(nodes, node)
 	}
 
 	// Get edges between nodes in the subgraph
-	for _, nodeID := range nodeIDs {
-		nodeEdges, err := g.GetEdges(ctx, nodeID, "out")
+	for _, node := range nodes {
+		nodeEdges, err := g.GetEdges(ctx, node.ID, "out")
 		if err != nil {
-			continue
+			return nil, err
 		}
 
 		for _, edge := range nodeEdges {
-- 
2.43.0


From 16b69677794a0dd8e3ba0d872b3591981142597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:12 +0000
Subject: [PATCH 022/118] fix: communities settle on the strongest ties; report
 interrupted graph reads

---
 pkg/graph/graph_algorithms.go | 51 +++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 8 deletions(-)

diff --git a/pkg/graph/graph_algorithms.go b/pkg/graph/graph_algorithms.go
index 4ba8f65..2999abf 100644
--- a/pkg/graph/graph_algorithms.go
+++ b/pkg/graph/graph_algorithms.go
@@ -41,6 +41,9 @@ func (g *GraphStore) PageRank(ctx context.Context, iterations int, dampingFactor
 		nodes = append(nodes, id)
 	}
 	rows.Close()
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	if len(nodes) == 0 {
 		return []PageRankResult{}, nil
@@ -70,6 +73,9 @@ func (g *GraphStore) PageRank(ctx context.Context, iterations int, dampingFactor
 		}
 	}
 	edgeRows.Close()
+	if err := edgeRows.Err(); err != nil {
+		return nil, err
+	}
 
 	// 3. Compute PageRank
 	nodeCount := float64(len(nodes))
@@ -152,6 +158,9 @@ func (g *GraphStore) CommunityDetection(ctx context.Context) ([]Community, error
 		nodes = append(nodes, id)
 	}
 	rows.Close()
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	if len(nodes) == 0 {
 		return []Community{}, nil
@@ -186,6 +195,9 @@ func (g *GraphStore) CommunityDetection(ctx context.Context) ([]Community, error
 		}
 	}
 	edgeRows.Close()
+	if err := edgeRows.Err(); err != nil {
+		return nil, err
+	}
 
 	// 3. Louvain Algorithm (Simplified)
 	communities := make([]int, len(nodes))
@@ -204,19 +216,22 @@ func (g *GraphStore) CommunityDetection(ctx context.Context) ([]Community, error
 		for i := 0; i < len(nodes); i++ {
 			currentComm := communities[i]
 			bestComm := currentComm
-			bestGain := 0.0
 
 			// Calculate connection strength to each neighboring community
 			commWeights := make(map[int]float64)
 			for neighbor, weight := range adj[i] {
-				commWeights[communities[neighbor]] += weight
+				if neighbor != i {
+					commWeights[communities[neighbor]] += weight
+				}
 			}
 
-			// Find best community
+			// Find best community: leave the current one only for a stronger
+			// connection, and prefer the lowest among equals
+			bestGain := commWeights[currentComm]
 			for comm, weight := range commWeights {
 				if comm != currentComm {
 					// Simplified gain: just raw weight connection
-					if weight > bestGain {
+					if weight > bestGain || (weight == bestGain && bestComm != currentComm && comm < bestComm) {
 						bestGain = weight
 						bestComm = comm
 					}
@@ -232,13 +247,18 @@ func (g *GraphStore) CommunityDetection(ctx context.Context) ([]Community, error
 
 	// 4. Group results
 	commGroups := make(map[int][]string)
+	commOrder := make([]int, 0)
 	for i, commID := range communities {
+		if len(commGroups[commID]) == 0 {
+			commOrder = append(commOrder, commID)
+		}
 		commGroups[commID] = append(commGroups[commID], nodes[i])
 	}
 
 	results := make([]Community, 0, len(commGroups))
 	idCounter := 0
-	for _, groupNodes := range commGroups {
+	for _, commID := range commOrder {
+		groupNodes := commGroups[commID]
 		results = append(results, Community{
 			ID:    idCounter,
 			Nodes: groupNodes,
@@ -247,7 +267,7 @@ func (g *GraphStore) CommunityDetection(ctx context.Context) ([]Community, error
 		idCounter++
 	}
 
-	sort.Slice(results, func(i, j int) bool {
+	sort.SliceStable(results, func(i, j int) bool {
 		return len(results[i].Nodes) > len(results[j].Nodes)
 	})
 
@@ -306,6 +326,9 @@ func (g *GraphStore) PredictEdges(ctx context.Context, nodeID string, topK int)
 			adj[v][u] = true // Treat as undirected for common neighbors
 		}
 	}
+	if err := edgeRows.Err(); err != nil {
+		return nil, err
+	}
 
 	existingConnections := adj[nodeID]
 	if existingConnections == nil {
@@ -404,11 +427,17 @@ func (g *GraphStore) GetGraphStatistics(ctx context.Context) (*GraphStatistics,
 	adj := make(map[string][]string)
 	for edgeRows.Next() {
 		var u, v string
-		edgeRows.Scan(&u, &v)
+		if err := edgeRows.Scan(&u, &v); err != nil {
+			edgeRows.Close()
+			return nil, err
+		}
 		adj[u] = append(adj[u], v)
 		adj[v] = append(adj[v], u) // Undirected traversal
 	}
 	edgeRows.Close()
+	if err := edgeRows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Get all IDs for traversal
 	idRows, err := g.db.QueryContext(ctx, "SELECT id FROM graph_nodes")
@@ -418,10 +447,16 @@ func (g *GraphStore) GetGraphStatistics(ctx context.Context) (*GraphStatistics,
 	var allIDs []string
 	for idRows.Next() {
 		var id string
-		idRows.Scan(&id)
+		if err := idRows.Scan(&id); err != nil {
+			idRows.Close()
+			return nil, err
+		}
 		allIDs = append(allIDs, id)
 	}
 	idRows.Close()
+	if err := idRows.Err(); err != nil {
+		return nil, err
+	}
 
 	visited := make(map[string]bool)
 	components := 0
-- 
2.43.0


From d07c56df8c93b830b478676fabf4550b7f8328cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:12 +0000
Subject: [PATCH 023/118] fix: graph exports carry edges whole and imports
 report what failed

---
 pkg/graph/graph_export.go | 104 +++++++++++++++++++++++++++++---------
 1 file changed, 79 insertions(+), 25 deletions(-)

diff --git a/pkg/graph/graph_export.go b/pkg/graph/graph_export.go
index 0eec310..5f14938 100644
--- a/pkg/graph/graph_export.go
+++ b/pkg/graph/graph_export.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"encoding/xml"
+	"errors"
 	"fmt"
 	"io"
 	"strconv"
@@ -69,7 +70,7 @@ func (g *GraphStore) ExportGraphML(ctx context.Context, writer io.Writer) error
 	for _, node := range nodes {
 		edges, err := g.GetEdges(ctx, node.ID, "out")
 		if err != nil {
-			continue
+			return fmt.Errorf("failed to get edges: %w", err)
 		}
 		allEdges = append(allEdges, edges...)
 	}
@@ -85,6 +86,7 @@ func (g *GraphStore) ExportGraphML(ctx context.Context, writer io.Writer) error
 			{ID: "d4", For: "edge", AttrName: "type", AttrType: "string"},
 			{ID: "d5", For: "edge", AttrName: "weight", AttrType: "double"},
 			{ID: "d6", For: "edge", AttrName: "properties", AttrType: "string"},
+			{ID: "d7", For: "edge", AttrName: "vector", AttrType: "string"},
 		},
 		Graph: GraphMLGraph{
 			ID:          "G",
@@ -133,7 +135,7 @@ func (g *GraphStore) ExportGraphML(ctx context.Context, writer io.Writer) error
 			Target: edge.ToNodeID,
 			Data: []GraphMLData{
 				{Key: "d4", Value: edge.EdgeType},
-				{Key: "d5", Value: fmt.Sprintf("%f", edge.Weight)},
+				{Key: "d5", Value: strconv.FormatFloat(edge.Weight, 'g', -1, 64)},
 			},
 		}
 		
@@ -143,6 +145,12 @@ func (g *GraphStore) ExportGraphML(ctx context.Context, writer io.Writer) error
 			gmlEdge.Data = append(gmlEdge.Data, GraphMLData{Key: "d6", Value: string(propsJSON)})
 		}
 		
+		// Encode vector as JSON
+		if len(edge.Vector) > 0 {
+			vectorJSON, _ := json.Marshal(edge.Vector)
+			gmlEdge.Data = append(gmlEdge.Data, GraphMLData{Key: "d7", Value: string(vectorJSON)})
+		}
+		
 		doc.Graph.Edges = append(doc.Graph.Edges, gmlEdge)
 	}
 	
@@ -211,7 +219,7 @@ func (g *GraphStore) ImportGraphML(ctx context.Context, reader io.Reader) error
 	}
 	
 	// Batch import nodes
-	if _, err := g.UpsertNodesBatch(ctx, nodes); err != nil {
+	if err := complete(g.UpsertNodesBatch(ctx, nodes)); err != nil {
 		return fmt.Errorf("failed to import nodes: %w", err)
 	}
 	
@@ -238,6 +246,8 @@ func (g *GraphStore) ImportGraphML(ctx context.Context, reader io.Reader) error
 				}
 			case "properties":
 				_ = json.Unmarshal([]byte(data.Value), &edge.Properties)
+			case "vector":
+				_ = json.Unmarshal([]byte(data.Value), &edge.Vector)
 			}
 		}
 		
@@ -245,7 +255,7 @@ func (g *GraphStore) ImportGraphML(ctx context.Context, reader io.Reader) error
 	}
 	
 	// Batch import edges
-	if _, err := g.UpsertEdgesBatch(ctx, edges); err != nil {
+	if err := complete(g.UpsertEdgesBatch(ctx, edges)); err != nil {
 		return fmt.Errorf("failed to import edges: %w", err)
 	}
 	
@@ -273,7 +283,7 @@ type GEXFMeta struct {
 type GEXFGraph struct {
 	Mode       string       `xml:"mode,attr"`
 	DefaultEdgeType string  `xml:"defaultedgetype,attr"`
-	Attributes GEXFAttrs    `xml:"attributes"`
+	Attributes []GEXFAttrs  `xml:"attributes"`
 	Nodes      GEXFNodes    `xml:"nodes"`
 	Edges      GEXFEdges    `xml:"edges"`
 }
@@ -315,6 +325,7 @@ type GEXFEdge struct {
 	Target string  `xml:"target,attr"`
 	Weight float64 `xml:"weight,attr,omitempty"`
 	Type   string  `xml:"type,attr,omitempty"`
+	AttValues []GEXFAttValue `xml:"attvalues>attvalue"`
 }
 
 // GEXFAttValue represents a GEXF attribute value
@@ -336,7 +347,7 @@ func (g *GraphStore) ExportGEXF(ctx context.Context, writer io.Writer) error {
 	for _, node := range nodes {
 		edges, err := g.GetEdges(ctx, node.ID, "out")
 		if err != nil {
-			continue
+			return fmt.Errorf("failed to get edges: %w", err)
 		}
 		allEdges = append(allEdges, edges...)
 	}
@@ -352,13 +363,22 @@ func (g *GraphStore) ExportGEXF(ctx context.Context, writer io.Writer) error {
 		Graph: GEXFGraph{
 			Mode:            "static",
 			DefaultEdgeType: "directed",
-			Attributes: GEXFAttrs{
-				Class: "node",
-				Attrs: []GEXFAttr{
-					{ID: "0", Title: "content", Type: "string"},
-					{ID: "1", Title: "type", Type: "string"},
-					{ID: "2", Title: "vector", Type: "string"},
-					{ID: "3", Title: "properties", Type: "string"},
+			Attributes: []GEXFAttrs{
+				{
+					Class: "node",
+					Attrs: []GEXFAttr{
+						{ID: "0", Title: "content", Type: "string"},
+						{ID: "1", Title: "type", Type: "string"},
+						{ID: "2", Title: "vector", Type: "string"},
+						{ID: "3", Title: "properties", Type: "string"},
+					},
+				},
+				{
+					Class: "edge",
+					Attrs: []GEXFAttr{
+						{ID: "0", Title: "properties", Type: "string"},
+						{ID: "1", Title: "vector", Type: "string"},
+					},
 				},
 			},
 			Nodes: GEXFNodes{
@@ -412,6 +432,16 @@ func (g *GraphStore) ExportGEXF(ctx context.Context, writer io.Writer) error {
 			Type:   edge.EdgeType,
 		}
 		
+		// Encode properties and vector as JSON
+		if edge.Properties != nil {
+			propsJSON, _ := json.Marshal(edge.Properties)
+			gexfEdge.AttValues = append(gexfEdge.AttValues, GEXFAttValue{For: "0", Value: string(propsJSON)})
+		}
+		if len(edge.Vector) > 0 {
+			vectorJSON, _ := json.Marshal(edge.Vector)
+			gexfEdge.AttValues = append(gexfEdge.AttValues, GEXFAttValue{For: "1", Value: string(vectorJSON)})
+		}
+		
 		doc.Graph.Edges.Edges = append(doc.Graph.Edges.Edges, gexfEdge)
 	}
 	
@@ -441,8 +471,15 @@ func (g *GraphStore) ImportGEXF(ctx context.Context, reader io.Reader) error {
 	
 	// Create attribute mapping
 	attrMap := make(map[string]string)
-	for _, attr := range doc.Graph.Attributes.Attrs {
-		attrMap[attr.ID] = attr.Title
+	edgeAttrMap := make(map[string]string)
+	for _, attrs := range doc.Graph.Attributes {
+		for _, attr := range attrs.Attrs {
+			if attrs.Class == "edge" {
+				edgeAttrMap[attr.ID] = attr.Title
+			} else {
+				attrMap[attr.ID] = attr.Title
+			}
+		}
 	}
 	
 	// Import nodes
@@ -480,7 +517,7 @@ func (g *GraphStore) ImportGEXF(ctx context.Context, reader io.Reader) error {
 	}
 	
 	// Batch import nodes
-	if _, err := g.UpsertNodesBatch(ctx, nodes); err != nil {
+	if err := complete(g.UpsertNodesBatch(ctx, nodes)); err != nil {
 		return fmt.Errorf("failed to import nodes: %w", err)
 	}
 	
@@ -500,11 +537,20 @@ func (g *GraphStore) ImportGEXF(ctx context.Context, reader io.Reader) error {
 			edge.Weight = 1.0
 		}
 		
+		for _, attValue := range gexfEdge.AttValues {
+			switch edgeAttrMap[attValue.For] {
+			case "properties":
+				_ = json.Unmarshal([]byte(attValue.Value), &edge.Properties)
+			case "vector":
+				_ = json.Unmarshal([]byte(attValue.Value), &edge.Vector)
+			}
+		}
+		
 		edges = append(edges, edge)
 	}
 	
 	// Batch import edges
-	if _, err := g.UpsertEdgesBatch(ctx, edges); err != nil {
+	if err := complete(g.UpsertEdgesBatch(ctx, edges)); err != nil {
 		return fmt.Errorf("failed to import edges: %w", err)
 	}
 	
@@ -526,7 +572,7 @@ func (g *GraphStore) ExportJSON(ctx context.Context, writer io.Writer) error {
 	for _, node := range nodes {
 		edges, err := g.GetEdges(ctx, node.ID, "out")
 		if err != nil {
-			continue
+			return fmt.Errorf("failed to get edges: %w", err)
 		}
 		for _, edge := range edges {
 			if !edgeSet[edge.ID] {
@@ -572,14 +618,14 @@ func (g *GraphStore) ImportJSON(ctx context.Context, reader io.Reader) error {
 	
 	// Batch import nodes
 	if len(graphData.Nodes) > 0 {
-		if _, err := g.UpsertNodesBatch(ctx, graphData.Nodes); err != nil {
+		if err := complete(g.UpsertNodesBatch(ctx, graphData.Nodes)); err != nil {
 			return fmt.Errorf("failed to import nodes: %w", err)
 		}
 	}
 	
 	// Batch import edges
 	if len(graphData.Edges) > 0 {
-		if _, err := g.UpsertEdgesBatch(ctx, graphData.Edges); err != nil {
+		if err := complete(g.UpsertEdgesBatch(ctx, graphData.Edges)); err != nil {
 			return fmt.Errorf("failed to import edges: %w", err)
 		}
 	}
@@ -587,6 +633,14 @@ func (g *GraphStore) ImportJSON(ctx context.Context, reader io.Reader) error {
 	return nil
 }
 
+// complete turns the rows an imported batch could not store into an error
+func complete(result *BatchResult, err error) error {
+	if err == nil && result.FailedCount > 0 {
+		err = fmt.Errorf("%d of %d failed: %w", result.FailedCount, result.FailedCount+result.SuccessCount, errors.Join(result.Errors...))
+	}
+	return err
+}
+
 // ExportFormat represents supported export formats
 type ExportFormat string
 
@@ -628,8 +682,8 @@ func (g *GraphStore) Import(ctx context.Context, reader io.Reader, format Export
 func DetectFormat(reader io.Reader) (ExportFormat, error) {
 	// Read first few bytes to detect format
 	buf := make([]byte, 512)
-	n, err := reader.Read(buf)
-	if err != nil && err != io.EOF {
+	n, err := io.ReadFull(reader, buf)
+	if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
 		return "", fmt.Errorf("failed to read: %w", err)
 	}
 	
@@ -637,11 +691,11 @@ func DetectFormat(reader io.Reader) (ExportFormat, error) {
 	content = strings.TrimSpace(content)
 	
 	// Check for XML formats
-	if strings.HasPrefix(content, "<?xml") || strings.HasPrefix(content, "<graphml") {
-		if strings.Contains(content, "graphml") {
+	if strings.HasPrefix(content, "<?xml") || strings.HasPrefix(content, "<graphml") || strings.HasPrefix(content, "<gexf") {
+		if strings.Contains(content, "<graphml") {
 			return FormatGraphML, nil
 		}
-		if strings.Contains(content, "gexf") {
+		if strings.Contains(content, "<gexf") {
 			return FormatGEXF, nil
 		}
 	}
-- 
2.43.0


From 5ee04700372ed2b81125563da9e4501484c7bb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:12 +0000
Subject: [PATCH 024/118] fix: hybrid graph search counts edge strength for
 every reached node

---
 pkg/graph/graph_hybrid.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/graph/graph_hybrid.go b/pkg/graph/graph_hybrid.go
index fbc81a9..1ef21d2 100644
--- a/pkg/graph/graph_hybrid.go
+++ b/pkg/graph/graph_hybrid.go
@@ -17,7 +17,9 @@ func (g *GraphStore) HybridSearch(ctx context.Context, query *HybridQuery) ([]*H
 		return nil, fmt.Errorf("query cannot be nil")
 	}
 
-	// Normalize weights if needed
+	// Normalize weights if needed (in a copy: the query is the caller's)
+	normalized := *query
+	query = &normalized
 	totalWeight := query.Weights.VectorWeight + query.Weights.GraphWeight + query.Weights.EdgeWeight
 	if totalWeight == 0 {
 		// Default weights if none specified
@@ -82,15 +84,18 @@ func (g *GraphStore) HybridSearch(ctx context.Context, query *HybridQuery) ([]*H
 		}
 
 		// Add graph score if available
+		edgeScore := 0.0
 		if graphResults != nil {
 			if gd, exists := graphResults[nodeID]; exists {
 				result.GraphScore = 1.0 / float64(gd.distance+1) // Inverse distance
 				result.Distance = gd.distance
+				edgeScore = gd.weight
 			}
 		}
 
 		result.CombinedScore = result.VectorScore*query.Weights.VectorWeight +
-			result.GraphScore*query.Weights.GraphWeight
+			result.GraphScore*query.Weights.GraphWeight +
+			edgeScore*query.Weights.EdgeWeight
 
 		nodeScores[nodeID] = result
 	}
@@ -148,7 +153,9 @@ func (g *GraphStore) HybridSearch(ctx context.Context, query *HybridQuery) ([]*H
 
 // GraphVectorSearch performs vector search within a graph neighborhood
 func (g *GraphStore) GraphVectorSearch(ctx context.Context, startNodeID string, vector []float32, opts TraversalOptions) ([]*HybridResult, error) {
-	// First, get neighbors within specified depth
+	// First, get neighbors within specified depth; the limit applies to the ranked result
+	limit := opts.Limit
+	opts.Limit = 0
 	neighbors, err := g.Neighbors(ctx, startNodeID, opts)
 	if err != nil {
 		return nil, fmt.Errorf("failed to get neighbors: %w", err)
@@ -180,8 +187,8 @@ func (g *GraphStore) GraphVectorSearch(ctx context.Context, startNodeID string,
 	})
 
 	// Apply limit if specified
-	if opts.Limit > 0 && len(results) > opts.Limit {
-		results = results[:opts.Limit]
+	if limit > 0 && len(results) > limit {
+		results = results[:limit]
 	}
 
 	return results, nil
-- 
2.43.0


From 7021d5da7af4eb799f9f8809ed0fc1ebd17dffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:49 +0000
Subject: [PATCH 025/118] fix: memory search finds the best live memories of
 exactly one bucket

---
 pkg/cortexdb/memory_api.go | 101 +++++++++++++++++++++++++++++--------
 1 file changed, 79 insertions(+), 22 deletions(-)

diff --git a/pkg/cortexdb/memory_api.go b/pkg/cortexdb/memory_api.go
index 25bef9a..79a6939 100644
--- a/pkg/cortexdb/memory_api.go
+++ b/pkg/cortexdb/memory_api.go
@@ -10,6 +10,7 @@ import (
 	"sort"
 	"strings"
 	"time"
+	"unicode"
 
 	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
 	"github.com/liliang-cn/cortexdb/v2/pkg/core"
@@ -153,20 +154,9 @@ func (db *DB) SearchMemory(ctx context.Context, req MemorySearchRequest) (*Memor
 	if db.HasEmbedder() && normalizeRetrievalMode(req.RetrievalMode) != RetrievalModeLexical {
 		queryVec, err := db.embedder.Embed(ctx, req.Query)
 		if err == nil {
-			messages, err := db.store.SearchChatHistory(ctx, queryVec, bucketID, req.TopK)
-			if err == nil && len(messages) > 0 {
-				hits := make([]MemorySearchHit, 0, len(messages))
-				for i, message := range messages {
-					record := memoryRecordFromMessage(bucketID, "", message)
-					if memoryExpired(record) {
-						continue
-					}
-					score := float64(len(messages)-i) / float64(len(messages))
-					hits = append(hits, MemorySearchHit{Memory: record, Score: score})
-				}
-				if len(hits) > 0 {
-					return &MemorySearchResponse{Query: req.Query, Results: hits}, nil
-				}
+			hits, err := db.searchMemorySemantic(ctx, bucketID, queryVec, req.TopK)
+			if err == nil && len(hits) > 0 {
+				return &MemorySearchResponse{Query: req.Query, Results: hits}, nil
 			}
 		}
 	}
@@ -300,6 +290,43 @@ func (db *DB) loadMemoryRow(ctx context.Context, memoryID string) (*memoryRow, e
 	return &row, nil
 }
 
+// searchMemorySemantic returns the topK unexpired memories of a bucket closest to queryVec, best first.
+func (db *DB) searchMemorySemantic(ctx context.Context, bucketID string, queryVec []float32, topK int) ([]MemorySearchHit, error) {
+	session, err := db.store.GetSession(ctx, bucketID)
+	if err != nil {
+		return nil, err
+	}
+
+	for limit := topK; ; limit *= 2 {
+		messages, err := db.store.SearchChatHistory(ctx, queryVec, bucketID, limit)
+		if err != nil {
+			return nil, err
+		}
+		records := make([]MemoryRecord, 0, len(messages))
+		for _, message := range messages {
+			record := memoryRecordFromMessage(bucketID, session.UserID, message)
+			if memoryExpired(record) {
+				continue
+			}
+			records = append(records, record)
+		}
+		if len(records) < topK && len(messages) == limit {
+			// Expired memories took the place of live ones: look further
+			continue
+		}
+		if len(records) > topK {
+			records = records[:topK]
+		}
+
+		hits := make([]MemorySearchHit, 0, len(records))
+		for i, record := range records {
+			score := float64(len(records)-i) / float64(len(records))
+			hits = append(hits, MemorySearchHit{Memory: record, Score: score})
+		}
+		return hits, nil
+	}
+}
+
 func (db *DB) searchMemoryLexical(ctx context.Context, bucketID, query string, keywords, alternateQueries []string, topK int) ([]MemorySearchHit, error) {
 	queries := lexicalSearchQueries(query, keywords, alternateQueries)
 	if len(queries) == 0 {
@@ -316,8 +343,7 @@ func (db *DB) searchMemoryLexical(ctx context.Context, bucketID, query string, k
 	merged := make(map[string]scoredMemory)
 	var firstErr error
 
-	for idx, searchQuery := range queries {
-		rows, err := db.store.GetDB().QueryContext(ctx, `
+	const matchQuery = `
 			SELECT m.id, m.session_id, s.user_id, m.role, m.content, m.metadata, m.created_at, bm25(messages_fts)
 			FROM messages_fts
 			JOIN messages m ON m.rowid = messages_fts.rowid
@@ -325,8 +351,18 @@ func (db *DB) searchMemoryLexical(ctx context.Context, bucketID, query string, k
 			WHERE messages_fts MATCH ?
 			  AND m.session_id = ?
 			ORDER BY bm25(messages_fts)
-			LIMIT ?
-		`, searchQuery, bucketID, topK*4)
+		`
+
+	for idx, searchQuery := range queries {
+		rows, err := db.store.GetDB().QueryContext(ctx, matchQuery, searchQuery, bucketID)
+		if err != nil && ctx.Err() == nil {
+			// Not an FTS5 expression: look for its words instead
+			match := quoteFTSWords(searchQuery)
+			if match == "" {
+				continue
+			}
+			rows, err = db.store.GetDB().QueryContext(ctx, matchQuery, match, bucketID)
+		}
 		if err != nil {
 			if firstErr == nil {
 				firstErr = fmt.Errorf("search memory lexical: %w", err)
@@ -334,7 +370,8 @@ func (db *DB) searchMemoryLexical(ctx context.Context, bucketID, query string, k
 			continue
 		}
 
-		for rows.Next() {
+		live := 0
+		for live < topK && rows.Next() {
 			var record MemoryRecord
 			var metadataJSON []byte
 			var createdAt time.Time
@@ -354,16 +391,23 @@ func (db *DB) searchMemoryLexical(ctx context.Context, bucketID, query string, k
 			if memoryExpired(record) {
 				continue
 			}
+			live++
 
 			scoreWeight := 1.0 - float64(idx)*0.05
 			if scoreWeight < 0.8 {
 				scoreWeight = 0.8
 			}
-			score := (1 / (1 + math.Abs(rawRank))) * scoreWeight
+			// bm25 is the more negative the better the match
+			relevance := math.Abs(rawRank)
+			score := relevance / (1 + relevance) * scoreWeight
 			if existing, ok := merged[record.ID]; !ok || score > existing.score {
 				merged[record.ID] = scoredMemory{record: record, score: score}
 			}
 		}
+		if err := rows.Err(); err != nil {
+			_ = rows.Close()
+			return nil, fmt.Errorf("read lexical memory rows: %w", err)
+		}
 		if err := rows.Close(); err != nil {
 			return nil, fmt.Errorf("close lexical memory rows: %w", err)
 		}
@@ -393,6 +437,19 @@ func (db *DB) searchMemoryLexical(ctx context.Context, bucketID, query string, k
 	return results, nil
 }
 
+// quoteFTSWords returns the FTS5 expression for the words of text taken literally.
+func quoteFTSWords(text string) string {
+	words := strings.FieldsFunc(text, func(r rune) bool { return r == 0 || unicode.IsSpace(r) })
+	for i, word := range words {
+		words[i] = `"` + strings.ReplaceAll(word, `"`, `""`) + `"`
+	}
+	return strings.Join(words, " ")
+}
+
+// memoryBucketNamespace keeps the namespace a single component of a bucket ID, so that
+// no two pairs of owner and namespace share a bucket.
+var memoryBucketNamespace = strings.NewReplacer("%", "%25", ":", "%3A")
+
 func resolveMemoryBucket(scope, userID, sessionID, namespace string) (string, string, error) {
 	namespace = normalizeMemoryNamespace(namespace)
 	scope = strings.ToLower(strings.TrimSpace(scope))
@@ -417,12 +474,12 @@ func resolveMemoryBucket(scope, userID, sessionID, namespace string) (string, st
 		if strings.TrimSpace(userID) == "" {
 			return "", "", fmt.Errorf("user_id is required for %s scope", scope)
 		}
-		return scope, fmt.Sprintf("memory:%s:%s:%s", scope, userID, namespace), nil
+		return scope, fmt.Sprintf("memory:%s:%s:%s", scope, userID, memoryBucketNamespace.Replace(namespace)), nil
 	case MemoryScopeSession:
 		if strings.TrimSpace(sessionID) == "" {
 			return "", "", fmt.Errorf("session_id is required for %s scope", scope)
 		}
-		return scope, fmt.Sprintf("memory:%s:%s:%s", scope, sessionID, namespace), nil
+		return scope, fmt.Sprintf("memory:%s:%s:%s", scope, sessionID, memoryBucketNamespace.Replace(namespace)), nil
 	default:
 		return "", "", fmt.Errorf("unsupported memory scope: %s", scope)
 	}
-- 
2.43.0


From 8763129469b1df488e2acbf165c73490fef63b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:42 +0000
Subject: [PATCH 026/118] fix: knowledge items are replaced whole, only once
 their embeddings exist

Saving or updating an item removed the old one before embedding the new
one, so a failing embedder lost it; re-ingesting a document left stale
chunks; relation edges outlived their document and were shared between
documents; edges that were not stored were reported; entities with a
custom type were invisible.
---
 pkg/cortexdb/graphrag.go       | 106 ++++++++++++++++++++++-----------
 pkg/cortexdb/graphrag_tools.go |  31 ++++++++--
 pkg/cortexdb/knowledge_api.go  |  22 +------
 3 files changed, 99 insertions(+), 60 deletions(-)

diff --git a/pkg/cortexdb/graphrag.go b/pkg/cortexdb/graphrag.go
index 53e4d3e..76d9eaf 100644
--- a/pkg/cortexdb/graphrag.go
+++ b/pkg/cortexdb/graphrag.go
@@ -2,6 +2,7 @@ package cortexdb
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"math"
 	"regexp"
@@ -139,30 +140,6 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 	documentNodeID := graphDocumentNodeID(doc.ID)
 	documentVector := averageVectors(chunkVectors, db.embedder.Dim())
 
-	documentRecord := &core.Document{
-		ID:      doc.ID,
-		Title:   doc.Title,
-		Content: doc.Content,
-		Version: 1,
-	}
-	if err := db.upsertGraphRAGDocumentRecord(ctx, documentRecord); err != nil {
-		return nil, err
-	}
-
-	documentNode := &graph.GraphNode{
-		ID:       documentNodeID,
-		Vector:   documentVector,
-		Content:  firstNonEmpty(doc.Title, doc.Content),
-		NodeType: "document",
-		Properties: map[string]interface{}{
-			"document_id": doc.ID,
-			"title":       doc.Title,
-		},
-	}
-	if err := db.graph.UpsertNode(ctx, documentNode); err != nil {
-		return nil, fmt.Errorf("upsert document node: %w", err)
-	}
-
 	embeddings := make([]*core.Embedding, 0, len(chunks))
 	chunkNodes := make([]*graph.GraphNode, 0, len(chunks))
 	edges := make([]*graph.GraphEdge, 0, len(chunks)*3)
@@ -278,14 +255,8 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 		}
 	}
 
-	if err := db.store.UpsertBatch(ctx, embeddings); err != nil {
-		return nil, fmt.Errorf("upsert graphrag embeddings: %w", err)
-	}
-	if _, err := db.graph.UpsertNodesBatch(ctx, chunkNodes); err != nil {
-		return nil, fmt.Errorf("upsert chunk graph nodes: %w", err)
-	}
-
 	entityNodeIDs := make([]string, 0, len(entityTexts))
+	entityNodes := make([]*graph.GraphNode, 0, len(entityTexts))
 	if len(entityTexts) > 0 {
 		entityNames := make([]string, 0, len(entityTexts))
 		idOrder := make([]string, 0, len(entityTexts))
@@ -299,7 +270,6 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 			return nil, fmt.Errorf("embed entities: %w", err)
 		}
 
-		entityNodes := make([]*graph.GraphNode, 0, len(entityNames))
 		for i, entityID := range idOrder {
 			entity := entityTexts[entityID]
 			entityNodeIDs = append(entityNodeIDs, entityID)
@@ -314,9 +284,6 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 				},
 			})
 		}
-		if _, err := db.graph.UpsertNodesBatch(ctx, entityNodes); err != nil {
-			return nil, fmt.Errorf("upsert entity nodes: %w", err)
-		}
 
 		for chunkID, mentioned := range entityMentions {
 			for entityID := range mentioned {
@@ -344,6 +311,45 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 		}
 	}
 
+	// Everything that can fail outside the database is done: replace what the document left before
+	if err := db.removeGraphRAGArtifacts(ctx, doc.ID); err != nil {
+		return nil, err
+	}
+	documentRecord := &core.Document{
+		ID:      doc.ID,
+		Title:   doc.Title,
+		Content: doc.Content,
+		Version: 1,
+	}
+	if err := db.upsertGraphRAGDocumentRecord(ctx, documentRecord); err != nil {
+		return nil, err
+	}
+
+	documentNode := &graph.GraphNode{
+		ID:       documentNodeID,
+		Vector:   documentVector,
+		Content:  firstNonEmpty(doc.Title, doc.Content),
+		NodeType: "document",
+		Properties: map[string]interface{}{
+			"document_id": doc.ID,
+			"title":       doc.Title,
+		},
+	}
+	if err := db.graph.UpsertNode(ctx, documentNode); err != nil {
+		return nil, fmt.Errorf("upsert document node: %w", err)
+	}
+	if err := db.store.UpsertBatch(ctx, embeddings); err != nil {
+		return nil, fmt.Errorf("upsert graphrag embeddings: %w", err)
+	}
+	if _, err := db.graph.UpsertNodesBatch(ctx, chunkNodes); err != nil {
+		return nil, fmt.Errorf("upsert chunk graph nodes: %w", err)
+	}
+	if len(entityNodes) > 0 {
+		if _, err := db.graph.UpsertNodesBatch(ctx, entityNodes); err != nil {
+			return nil, fmt.Errorf("upsert entity nodes: %w", err)
+		}
+	}
+
 	if len(edges) > 0 {
 		if _, err := db.graph.UpsertEdgesBatch(ctx, edges); err != nil {
 			return nil, fmt.Errorf("upsert graph edges: %w", err)
@@ -586,6 +592,36 @@ func (db *DB) ensureGraphRAGCollection(ctx context.Context, name string) error {
 	return nil
 }
 
+// removeGraphRAGArtifacts deletes the chunks of a document, their graph nodes, the document node
+// and the relation edges that came from it; the document record and the entities stay.
+func (db *DB) removeGraphRAGArtifacts(ctx context.Context, documentID string) error {
+	chunks, err := db.store.GetByDocID(ctx, documentID)
+	if err != nil && !errors.Is(err, core.ErrNotFound) {
+		return fmt.Errorf("get document chunks: %w", err)
+	}
+
+	nodeIDs := make([]string, 0, len(chunks)+1)
+	nodeIDs = append(nodeIDs, graphDocumentNodeID(documentID))
+	for _, chunk := range chunks {
+		nodeIDs = append(nodeIDs, chunk.ID)
+	}
+	if _, err := db.graph.DeleteNodesBatch(ctx, nodeIDs); err != nil {
+		return fmt.Errorf("delete graph nodes: %w", err)
+	}
+	if _, err := db.store.GetDB().ExecContext(ctx, `
+		DELETE FROM graph_edges
+		WHERE properties <> '' AND json_extract(properties, '$.document_id') = ?
+	`, documentID); err != nil {
+		return fmt.Errorf("delete relation edges: %w", err)
+	}
+	if len(chunks) > 0 {
+		if err := db.store.DeleteByDocID(ctx, documentID); err != nil {
+			return fmt.Errorf("delete document chunks: %w", err)
+		}
+	}
+	return nil
+}
+
 func (db *DB) upsertGraphRAGDocumentRecord(ctx context.Context, doc *core.Document) error {
 	existing, err := db.store.GetDocument(ctx, doc.ID)
 	if err != nil {
diff --git a/pkg/cortexdb/graphrag_tools.go b/pkg/cortexdb/graphrag_tools.go
index bfb2df7..cb27c07 100644
--- a/pkg/cortexdb/graphrag_tools.go
+++ b/pkg/cortexdb/graphrag_tools.go
@@ -543,6 +543,9 @@ func (t *GraphRAGToolbox) IngestDocument(ctx context.Context, req ToolIngestDocu
 		return nil, ErrEmptyText
 	}
 
+	if err := t.db.removeGraphRAGArtifacts(ctx, req.DocumentID); err != nil {
+		return nil, err
+	}
 	docRecord := &core.Document{
 		ID:      req.DocumentID,
 		Title:   req.Title,
@@ -705,15 +708,18 @@ func (t *GraphRAGToolbox) UpsertEntities(ctx context.Context, req ToolUpsertEnti
 			return nil, fmt.Errorf("upsert entity nodes: %w", err)
 		}
 	}
+	mentions := 0
 	if len(edges) > 0 {
-		if _, err := t.db.graph.UpsertEdgesBatch(ctx, edges); err != nil {
+		result, err := t.db.graph.UpsertEdgesBatch(ctx, edges)
+		if err != nil {
 			return nil, fmt.Errorf("upsert mention edges: %w", err)
 		}
+		mentions = result.SuccessCount
 	}
 
 	return &ToolUpsertEntitiesResponse{
 		EntityNodeIDs:    entityIDs,
-		MentionEdgeCount: len(edges),
+		MentionEdgeCount: mentions,
 	}, nil
 }
 
@@ -736,6 +742,9 @@ func (t *GraphRAGToolbox) UpsertRelations(ctx context.Context, req ToolUpsertRel
 		}
 		edgeType := firstNonEmpty(rel.Type, "related_to")
 		edgeID := fmt.Sprintf("edge:relation:%s:%s:%s:%d", fromID, toID, edgeType, i)
+		if req.DocumentID != "" {
+			edgeID = fmt.Sprintf("edge:relation:%s:%s:%s:%s:%d", req.DocumentID, fromID, toID, edgeType, i)
+		}
 		edgeIDs = append(edgeIDs, edgeID)
 
 		properties := map[string]interface{}{}
@@ -764,9 +773,21 @@ func (t *GraphRAGToolbox) UpsertRelations(ctx context.Context, req ToolUpsertRel
 	}
 
 	if len(edges) > 0 {
-		if _, err := t.db.graph.UpsertEdgesBatch(ctx, edges); err != nil {
+		result, err := t.db.graph.UpsertEdgesBatch(ctx, edges)
+		if err != nil {
 			return nil, fmt.Errorf("upsert relation edges: %w", err)
 		}
+		if result.FailedCount > 0 {
+			// Relations between unknown entities are not stored: report those that are
+			stored, err := t.db.graph.GetEdgesBatch(ctx, edgeIDs)
+			if err != nil {
+				return nil, fmt.Errorf("load relation edges: %w", err)
+			}
+			edgeIDs = edgeIDs[:0]
+			for _, edge := range stored {
+				edgeIDs = append(edgeIDs, edge.ID)
+			}
+		}
 	}
 
 	return &ToolUpsertRelationsResponse{EdgeIDs: edgeIDs}, nil
@@ -1240,8 +1261,8 @@ func (t *GraphRAGToolbox) loadToolChunks(ctx context.Context, scoreMap map[strin
 func (t *GraphRAGToolbox) getChunkEntityNames(ctx context.Context, chunkID string) ([]string, error) {
 	neighbors, err := t.db.graph.Neighbors(ctx, chunkID, graph.TraversalOptions{
 		MaxDepth:  1,
-		Direction: "both",
-		NodeTypes: []string{"entity"},
+		Direction: "out",
+		EdgeTypes: []string{"mentions"},
 		Limit:     32,
 	})
 	if err != nil {
diff --git a/pkg/cortexdb/knowledge_api.go b/pkg/cortexdb/knowledge_api.go
index 55c2de9..2ec4d04 100644
--- a/pkg/cortexdb/knowledge_api.go
+++ b/pkg/cortexdb/knowledge_api.go
@@ -30,11 +30,6 @@ func (db *DB) SaveKnowledge(ctx context.Context, req KnowledgeSaveRequest) (*Kno
 	if err != nil && !errors.Is(err, core.ErrNotFound) {
 		return nil, fmt.Errorf("get existing knowledge: %w", err)
 	}
-	if existing != nil {
-		if err := db.cleanupKnowledgeArtifacts(ctx, req.KnowledgeID); err != nil {
-			return nil, err
-		}
-	}
 
 	metadata := cloneStringMap(req.Metadata)
 	ingest, err := db.ingestKnowledgeContent(ctx, req.KnowledgeID, req.Title, req.Content, req.Collection, req.ChunkSize, req.ChunkOverlap, metadata, req.Entities, req.Relations)
@@ -126,9 +121,6 @@ func (db *DB) UpdateKnowledge(ctx context.Context, req KnowledgeUpdateRequest) (
 	replaceArtifacts := req.Content != nil || req.Title != nil || req.Collection != nil || req.Metadata != nil
 	ingest := &knowledgeIngestResult{}
 	if replaceArtifacts {
-		if err := db.cleanupKnowledgeArtifacts(ctx, req.KnowledgeID); err != nil {
-			return nil, err
-		}
 		ingest, err = db.ingestKnowledgeContent(ctx, req.KnowledgeID, title, content, collection, chunkSize, chunkOverlap, metadata, req.Entities, req.Relations)
 		if err != nil {
 			return nil, err
@@ -380,18 +372,8 @@ func (db *DB) cleanupKnowledgeArtifacts(ctx context.Context, knowledgeID string)
 		return fmt.Errorf("init graph schema: %w", err)
 	}
 
-	chunks, err := db.store.GetByDocID(ctx, knowledgeID)
-	if err != nil && !errors.Is(err, core.ErrNotFound) {
-		return fmt.Errorf("get knowledge chunks: %w", err)
-	}
-
-	nodeIDs := make([]string, 0, len(chunks)+1)
-	nodeIDs = append(nodeIDs, graphDocumentNodeID(knowledgeID))
-	for _, chunk := range chunks {
-		nodeIDs = append(nodeIDs, chunk.ID)
-	}
-	if _, err := db.graph.DeleteNodesBatch(ctx, nodeIDs); err != nil {
-		return fmt.Errorf("delete graph nodes: %w", err)
+	if err := db.removeGraphRAGArtifacts(ctx, knowledgeID); err != nil {
+		return err
 	}
 	if err := db.store.DeleteDocument(ctx, knowledgeID); err != nil {
 		return fmt.Errorf("delete knowledge document: %w", err)
-- 
2.43.0


From 2a43266c72596050fbc0984ce0c6be18af06ff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:10 +0000
Subject: [PATCH 027/118] fix: retrieval stays in its collection and sees every
 entity

Graph expansion and entity seeds returned chunks of other collections,
entities with a custom type were left out, a snippet could end inside a
character and lexical search without a limit found nothing.
---
 pkg/cortexdb/graphrag.go                 | 34 +++++++++++++-----------
 pkg/cortexdb/graphrag_tools.go           | 26 +++++++++++++-----
 pkg/cortexdb/knowledge_memory_helpers.go |  7 ++++-
 3 files changed, 45 insertions(+), 22 deletions(-)

diff --git a/pkg/cortexdb/graphrag.go b/pkg/cortexdb/graphrag.go
index 76d9eaf..835bbd4 100644
--- a/pkg/cortexdb/graphrag.go
+++ b/pkg/cortexdb/graphrag.go
@@ -16,6 +16,9 @@ import (
 
 const defaultGraphRAGCollection = "graphrag_chunks"
 
+// graphEntityPrefix starts the id of every entity node, whatever its type.
+const graphEntityPrefix = "entity:"
+
 const (
 	// RetrievalModeAuto enables lightweight heuristics to decide whether graph expansion is worth the cost.
 	RetrievalModeAuto = "auto"
@@ -421,13 +424,16 @@ func (db *DB) SearchGraphRAG(ctx context.Context, query string, opts GraphRAGQue
 		}
 
 		for _, neighbor := range neighbors {
-			switch neighbor.NodeType {
-			case "entity":
+			switch {
+			case strings.HasPrefix(neighbor.ID, graphEntityPrefix):
 				entitySet[neighbor.Content] = struct{}{}
-			case "chunk":
+			case neighbor.NodeType == "chunk":
 				if _, isSeed := seedIDs[neighbor.ID]; isSeed {
 					continue
 				}
+				if !db.chunkInCollection(ctx, neighbor.ID, opts.Collection) {
+					continue
+				}
 				related := chunkResults[neighbor.ID]
 				if related == nil {
 					related = &GraphRAGChunkResult{
@@ -469,21 +475,13 @@ func (db *DB) SearchGraphRAG(ctx context.Context, query string, opts GraphRAGQue
 	}
 
 	for chunkID, chunk := range chunkResults {
-		neighbors, err := db.graph.Neighbors(ctx, chunkID, graph.TraversalOptions{
-			MaxDepth:  1,
-			Direction: "both",
-			NodeTypes: []string{"entity"},
-			Limit:     16,
-		})
+		chunk.Entities, err = db.GraphRAGTools().getChunkEntityNames(ctx, chunkID)
 		if err != nil {
 			return nil, fmt.Errorf("load chunk entities: %w", err)
 		}
-		chunk.Entities = make([]string, 0, len(neighbors))
-		for _, entityNode := range neighbors {
-			chunk.Entities = append(chunk.Entities, entityNode.Content)
-			entitySet[entityNode.Content] = struct{}{}
+		for _, entityName := range chunk.Entities {
+			entitySet[entityName] = struct{}{}
 		}
-		sort.Strings(chunk.Entities)
 	}
 
 	seedChunkList := make([]GraphRAGChunkResult, 0, len(seeds))
@@ -702,6 +700,12 @@ func graphChunkNodeID(documentID string, index int) string {
 	return fmt.Sprintf("chunk:%s:%03d", documentID, index)
 }
 
+// chunkInCollection tells whether a chunk met in the graph is stored in the collection being searched.
+func (db *DB) chunkInCollection(ctx context.Context, chunkID, collection string) bool {
+	emb, err := db.store.GetByID(ctx, chunkID)
+	return err == nil && (collection == "" || emb.Collection == collection)
+}
+
 func graphEntityNodeID(name string) string {
 	normalized := strings.ToLower(strings.TrimSpace(name))
 	var b strings.Builder
@@ -717,7 +721,7 @@ func graphEntityNodeID(name string) string {
 	if id == "" {
 		id = "entity"
 	}
-	return "entity:" + id
+	return graphEntityPrefix + id
 }
 
 func buildGraphRAGContext(chunks []GraphRAGChunkResult) string {
diff --git a/pkg/cortexdb/graphrag_tools.go b/pkg/cortexdb/graphrag_tools.go
index cb27c07..384a8cc 100644
--- a/pkg/cortexdb/graphrag_tools.go
+++ b/pkg/cortexdb/graphrag_tools.go
@@ -813,6 +813,10 @@ func (t *GraphRAGToolbox) searchTextCandidates(ctx context.Context, req ToolSear
 		Threshold:  req.Threshold,
 	}
 
+	if searchOpts.TopK <= 0 {
+		searchOpts.TopK = 10
+	}
+
 	queries := lexicalSearchQueries(req.Query, req.Keywords, req.AlternateQueries)
 	if len(queries) == 0 {
 		return nil, ErrEmptyText
@@ -872,6 +876,11 @@ func (t *GraphRAGToolbox) searchTextCandidates(ctx context.Context, req ToolSear
 
 // SearchChunksByEntities finds chunks that are linked to the requested entities.
 func (t *GraphRAGToolbox) SearchChunksByEntities(ctx context.Context, req ToolSearchChunksByEntitiesRequest) (*ToolSearchChunksByEntitiesResponse, error) {
+	return t.searchChunksByEntities(ctx, req, "")
+}
+
+// searchChunksByEntities keeps to one collection, or to all when collection is empty.
+func (t *GraphRAGToolbox) searchChunksByEntities(ctx context.Context, req ToolSearchChunksByEntitiesRequest, collection string) (*ToolSearchChunksByEntitiesResponse, error) {
 	if len(req.EntityNames) == 0 {
 		return &ToolSearchChunksByEntitiesResponse{}, nil
 	}
@@ -895,7 +904,9 @@ func (t *GraphRAGToolbox) SearchChunksByEntities(ctx context.Context, req ToolSe
 			continue
 		}
 		for _, node := range neighbors {
-			scoreMap[node.ID] += 1.0
+			if t.db.chunkInCollection(ctx, node.ID, collection) {
+				scoreMap[node.ID] += 1.0
+			}
 		}
 	}
 
@@ -1075,11 +1086,11 @@ func (t *GraphRAGToolbox) SearchGraphRAGLexical(ctx context.Context, req ToolSea
 	}
 
 	if useGraph && len(entityNames) > 0 {
-		entityResp, err := t.SearchChunksByEntities(ctx, ToolSearchChunksByEntitiesRequest{
+		entityResp, err := t.searchChunksByEntities(ctx, ToolSearchChunksByEntitiesRequest{
 			EntityNames: entityNames,
 			TopK:        opts.TopK,
 			MaxHops:     opts.MaxHops,
-		})
+		}, opts.Collection)
 		if err != nil {
 			return nil, err
 		}
@@ -1122,10 +1133,13 @@ func (t *GraphRAGToolbox) SearchGraphRAGLexical(ctx context.Context, req ToolSea
 			return nil, err
 		}
 		for _, node := range neighbors {
-			switch node.NodeType {
-			case "entity":
+			switch {
+			case strings.HasPrefix(node.ID, graphEntityPrefix):
 				entitySet[node.Content] = struct{}{}
-			case "chunk":
+			case node.NodeType == "chunk":
+				if !t.db.chunkInCollection(ctx, node.ID, opts.Collection) {
+					continue
+				}
 				chunk := ToolChunk{
 					ID:      node.ID,
 					Content: node.Content,
diff --git a/pkg/cortexdb/knowledge_memory_helpers.go b/pkg/cortexdb/knowledge_memory_helpers.go
index 2c551af..a11aebb 100644
--- a/pkg/cortexdb/knowledge_memory_helpers.go
+++ b/pkg/cortexdb/knowledge_memory_helpers.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"strings"
+	"unicode/utf8"
 )
 
 func compactSnippet(content string) string {
@@ -11,7 +12,11 @@ func compactSnippet(content string) string {
 	if len(content) <= 180 {
 		return content
 	}
-	return content[:177] + "..."
+	cut := 177
+	for cut > 0 && !utf8.RuneStart(content[cut]) {
+		cut--
+	}
+	return content[:cut] + "..."
 }
 
 func cloneStringMap(values map[string]string) map[string]string {
-- 
2.43.0


From 5c84c019e032856959ccd6c092068ef977b4acb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:14 +0000
Subject: [PATCH 028/118] fix: the same retrieval gives the same result, tool
 schemas say what is accepted

Chunks with equal scores were cut in random order, so repeating a query
gave different contexts; the tool schemas allowed metadata values of any
type where only text is accepted.
---
 pkg/cortexdb/graphrag.go                  |  7 ++++++-
 pkg/cortexdb/graphrag_tools.go            | 21 +++++++++++++++++----
 pkg/cortexdb/knowledge_memory_tooldefs.go |  8 ++++----
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/pkg/cortexdb/graphrag.go b/pkg/cortexdb/graphrag.go
index 835bbd4..ca837ff 100644
--- a/pkg/cortexdb/graphrag.go
+++ b/pkg/cortexdb/graphrag.go
@@ -499,7 +499,12 @@ func (db *DB) SearchGraphRAG(ctx context.Context, query string, opts GraphRAGQue
 		chunk.BaseScore = chunk.Score
 		relatedChunkList = append(relatedChunkList, *chunk)
 	}
-	sort.Slice(relatedChunkList, func(i, j int) bool { return relatedChunkList[i].Score > relatedChunkList[j].Score })
+	sort.Slice(relatedChunkList, func(i, j int) bool {
+		if relatedChunkList[i].Score == relatedChunkList[j].Score {
+			return relatedChunkList[i].ID < relatedChunkList[j].ID
+		}
+		return relatedChunkList[i].Score > relatedChunkList[j].Score
+	})
 	if len(relatedChunkList) > opts.MaxRelatedChunks {
 		relatedChunkList = relatedChunkList[:opts.MaxRelatedChunks]
 	}
diff --git a/pkg/cortexdb/graphrag_tools.go b/pkg/cortexdb/graphrag_tools.go
index 384a8cc..139d965 100644
--- a/pkg/cortexdb/graphrag_tools.go
+++ b/pkg/cortexdb/graphrag_tools.go
@@ -223,7 +223,7 @@ func (t *GraphRAGToolbox) Definitions() []ToolDefinition {
 					"collection":    toolStringSchema("Optional chunk collection name."),
 					"chunk_size":    toolIntegerSchema("Optional chunk size in words."),
 					"chunk_overlap": toolIntegerSchema("Optional chunk overlap in words."),
-					"metadata":      toolMapSchema("Optional document metadata."),
+					"metadata":      toolStringMapSchema("Optional document metadata."),
 				},
 			),
 		},
@@ -244,7 +244,7 @@ func (t *GraphRAGToolbox) Definitions() []ToolDefinition {
 								"type":        toolStringSchema("Optional entity type."),
 								"description": toolStringSchema("Optional entity description."),
 								"chunk_ids":   toolStringArraySchema("Chunk IDs that mention this entity."),
-								"metadata":    toolMapSchema("Optional metadata."),
+								"metadata":    toolStringMapSchema("Optional metadata."),
 							},
 						),
 					},
@@ -268,7 +268,7 @@ func (t *GraphRAGToolbox) Definitions() []ToolDefinition {
 								"type":      toolStringSchema("Optional relation type."),
 								"weight":    toolNumberSchema("Optional edge weight."),
 								"chunk_ids": toolStringArraySchema("Optional supporting chunk IDs."),
-								"metadata":  toolMapSchema("Optional metadata."),
+								"metadata":  toolStringMapSchema("Optional metadata."),
 							},
 						),
 					},
@@ -1178,7 +1178,12 @@ func (t *GraphRAGToolbox) SearchGraphRAGLexical(ctx context.Context, req ToolSea
 		}
 		relatedChunks = append(relatedChunks, *chunk)
 	}
-	sort.Slice(relatedChunks, func(i, j int) bool { return relatedChunks[i].Score > relatedChunks[j].Score })
+	sort.Slice(relatedChunks, func(i, j int) bool {
+		if relatedChunks[i].Score == relatedChunks[j].Score {
+			return relatedChunks[i].ID < relatedChunks[j].ID
+		}
+		return relatedChunks[i].Score > relatedChunks[j].Score
+	})
 	if len(relatedChunks) > opts.MaxRelatedChunks {
 		relatedChunks = relatedChunks[:opts.MaxRelatedChunks]
 	}
@@ -1515,6 +1520,14 @@ func toolMapSchema(description string) map[string]any {
 	}
 }
 
+func toolStringMapSchema(description string) map[string]any {
+	return map[string]any{
+		"type":                 "object",
+		"description":          description,
+		"additionalProperties": map[string]any{"type": "string"},
+	}
+}
+
 func toolStringArraySchema(description string) map[string]any {
 	return map[string]any{
 		"type":        "array",
diff --git a/pkg/cortexdb/knowledge_memory_tooldefs.go b/pkg/cortexdb/knowledge_memory_tooldefs.go
index 777b730..acba8ff 100644
--- a/pkg/cortexdb/knowledge_memory_tooldefs.go
+++ b/pkg/cortexdb/knowledge_memory_tooldefs.go
@@ -16,7 +16,7 @@ func knowledgeMemoryToolDefinitions() []ToolDefinition {
 					"collection":    toolStringSchema("Optional chunk collection."),
 					"chunk_size":    toolIntegerSchema("Optional chunk size in words."),
 					"chunk_overlap": toolIntegerSchema("Optional chunk overlap in words."),
-					"metadata":      toolMapSchema("Optional metadata."),
+					"metadata":      toolStringMapSchema("Optional metadata."),
 					"entities":      toolEntityArraySchema(),
 					"relations":     toolRelationArraySchema(),
 				},
@@ -36,7 +36,7 @@ func knowledgeMemoryToolDefinitions() []ToolDefinition {
 					"collection":    toolStringSchema("Optional new chunk collection."),
 					"chunk_size":    toolIntegerSchema("Optional chunk size for refreshed content."),
 					"chunk_overlap": toolIntegerSchema("Optional chunk overlap for refreshed content."),
-					"metadata":      toolMapSchema("Optional replacement metadata."),
+					"metadata":      toolStringMapSchema("Optional replacement metadata."),
 					"entities":      toolEntityArraySchema(),
 					"relations":     toolRelationArraySchema(),
 				},
@@ -170,7 +170,7 @@ func toolEntityArraySchema() map[string]any {
 				"type":        toolStringSchema("Optional entity type."),
 				"description": toolStringSchema("Optional entity description."),
 				"chunk_ids":   toolStringArraySchema("Chunk IDs that mention this entity."),
-				"metadata":    toolMapSchema("Optional metadata."),
+				"metadata":    toolStringMapSchema("Optional metadata."),
 			},
 		),
 	}
@@ -187,7 +187,7 @@ func toolRelationArraySchema() map[string]any {
 				"type":      toolStringSchema("Optional relation type."),
 				"weight":    toolNumberSchema("Optional edge weight."),
 				"chunk_ids": toolStringArraySchema("Optional supporting chunk IDs."),
-				"metadata":  toolMapSchema("Optional metadata."),
+				"metadata":  toolStringMapSchema("Optional metadata."),
 			},
 		),
 	}
-- 
2.43.0


From 21f7428823f5b4fe2abbf276fc6d2c684da17b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:31 +0000
Subject: [PATCH 029/118] fix: hindsight keeps memories in the configured
 collection

---
 pkg/hindsight/hindsight.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/hindsight/hindsight.go b/pkg/hindsight/hindsight.go
index 34de8f0..0a8c5ed 100644
--- a/pkg/hindsight/hindsight.go
+++ b/pkg/hindsight/hindsight.go
@@ -25,6 +25,7 @@ type System struct {
 	store      core.Store
 	graph      *graph.GraphStore
 	collection *core.Collection
+	memories   string // name of the collection that holds the memories
 	mu         sync.RWMutex
 	banks      map[string]*Bank
 	// optional hooks (registered via SetFactExtractor / SetReranker)
@@ -79,6 +80,7 @@ func New(cfg *Config) (*System, error) {
 		db:            db,
 		store:         db.Vector(),
 		graph:         db.Graph(),
+		memories:      cfg.Collection,
 		banks:         make(map[string]*Bank),
 		autoRetainCfg: defaultAutoRetainConfig(),
 	}
@@ -178,7 +180,7 @@ func (s *System) Retain(ctx context.Context, mem *Memory) error {
 
 // getCollection returns the collection name for memories.
 func (s *System) getCollection() string {
-	return "memories"
+	return s.memories
 }
 
 // buildMetadata converts a Memory to cortexdb metadata map.
-- 
2.43.0


From 9421f37cbc2c47d1dc2eac924133c5c1b5bf7058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:31 +0000
Subject: [PATCH 030/118] fix: hindsight auto-retain hands messages to the
 extractor in order

---
 pkg/hindsight/chat.go | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/pkg/hindsight/chat.go b/pkg/hindsight/chat.go
index 31224dd..d06d906 100644
--- a/pkg/hindsight/chat.go
+++ b/pkg/hindsight/chat.go
@@ -84,7 +84,7 @@ func (s *System) AddMessage(ctx context.Context, bankID string, msg *core.Messag
 		defer s.wg.Done()
 		bgCtx := context.Background()
 		// Retrieve the sliding window of recent messages.
-		// GetSessionHistory returns messages in descending order (newest first).
+		// GetSessionHistory returns them in chronological order.
 		recent, err := s.store.GetSessionHistory(bgCtx, sessionID, windowSize)
 		if err != nil {
 			slog.Error("hindsight/auto-retain: fetch session history",
@@ -94,8 +94,6 @@ func (s *System) AddMessage(ctx context.Context, bankID string, msg *core.Messag
 		if len(recent) == 0 {
 			return
 		}
-		// Reverse to chronological order before passing to extractor.
-		reverseMessages(recent)
 
 		result, err := s.RetainFromText(bgCtx, bankID, recent)
 		if err != nil {
@@ -130,10 +128,3 @@ func roleMatches(role string, filter []string) bool {
 	}
 	return false
 }
-
-// reverseMessages reverses a slice of messages in-place.
-func reverseMessages(msgs []*core.Message) {
-	for i, j := 0, len(msgs)-1; i < j; i, j = i+1, j-1 {
-		msgs[i], msgs[j] = msgs[j], msgs[i]
-	}
-}
-- 
2.43.0


From 3f445156244655f3cc4b42eb6d642109a2d38096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:31 +0000
Subject: [PATCH 031/118] fix: hindsight facts without a type are world
 memories

---
 pkg/hindsight/hooks.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/hindsight/hooks.go b/pkg/hindsight/hooks.go
index 129b9b0..ab8251c 100644
--- a/pkg/hindsight/hooks.go
+++ b/pkg/hindsight/hooks.go
@@ -277,10 +277,14 @@ func (s *System) RetainFromText(ctx context.Context, bankID string, messages []*
 			result.Errors = append(result.Errors, fmt.Errorf("fact[%d] %q: empty Vector, skipped", i, f.ID))
 			continue
 		}
+		memType := f.Type
+		if memType == "" {
+			memType = WorldMemory
+		}
 		if err := s.Retain(ctx, &Memory{
 			ID:         f.ID,
 			BankID:     bankID,
-			Type:       f.Type,
+			Type:       memType,
 			Content:    f.Content,
 			Vector:     f.Vector,
 			Entities:   f.Entities,
-- 
2.43.0


From 247e9453471f77874cd8cabdb862b7ea707ec481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:03 +0000
Subject: [PATCH 032/118] fix: hindsight memories keep their metadata, which no
 longer replaces their fields

---
 pkg/hindsight/hindsight.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/pkg/hindsight/hindsight.go b/pkg/hindsight/hindsight.go
index 0a8c5ed..b9edf80 100644
--- a/pkg/hindsight/hindsight.go
+++ b/pkg/hindsight/hindsight.go
@@ -183,6 +183,15 @@ func (s *System) getCollection() string {
 	return s.memories
 }
 
+// reservedMetadata are the metadata keys that hold the fields of a Memory.
+var reservedMetadata = map[string]bool{
+	"bank_id":     true,
+	"memory_type": true,
+	"created_at":  true,
+	"confidence":  true,
+	"entities":    true,
+}
+
 // buildMetadata converts a Memory to cortexdb metadata map.
 func (s *System) buildMetadata(mem *Memory) map[string]string {
 	metadata := make(map[string]string)
@@ -202,9 +211,11 @@ func (s *System) buildMetadata(mem *Memory) map[string]string {
 		metadata["entities"] = strings.Join(mem.Entities, ",")
 	}
 
-	// Copy additional metadata (convert to string)
+	// Copy additional metadata (convert to string); it never replaces the memory's own fields
 	for k, v := range mem.Metadata {
-		metadata[k] = fmt.Sprintf("%v", v)
+		if !reservedMetadata[k] {
+			metadata[k] = fmt.Sprintf("%v", v)
+		}
 	}
 
 	return metadata
@@ -637,6 +648,11 @@ func (s *System) scoredEmbeddingToMemory(r *core.ScoredEmbedding) *Memory {
 	if entities, ok := r.Metadata["entities"]; ok && entities != "" {
 		mem.Entities = strings.Split(entities, ",")
 	}
+	for k, v := range r.Metadata {
+		if !reservedMetadata[k] {
+			mem.Metadata[k] = v
+		}
+	}
 
 	return mem
 }
@@ -1198,7 +1214,7 @@ func (s *System) GetObservations(ctx context.Context, bankID string) ([]*Observa
 			}
 
 			// Extract metadata
-			if sourceIDs, ok := mem.Metadata["source_memory_ids"].(string); ok {
+			if sourceIDs, ok := mem.Metadata["source_memory_ids"].(string); ok && sourceIDs != "" {
 				obs.SourceMemoryIDs = strings.Split(sourceIDs, ",")
 			}
 			if obsType, ok := mem.Metadata["observation_type"].(string); ok {
-- 
2.43.0


From dc3511455ef4891432ca73dc292e9ddf8b761bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:03 +0000
Subject: [PATCH 033/118] fix: hindsight memories keep the exact time of their
 creation

---
 pkg/hindsight/hindsight.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pkg/hindsight/hindsight.go b/pkg/hindsight/hindsight.go
index b9edf80..7d0228b 100644
--- a/pkg/hindsight/hindsight.go
+++ b/pkg/hindsight/hindsight.go
@@ -185,11 +185,12 @@ func (s *System) getCollection() string {
 
 // reservedMetadata are the metadata keys that hold the fields of a Memory.
 var reservedMetadata = map[string]bool{
-	"bank_id":     true,
-	"memory_type": true,
-	"created_at":  true,
-	"confidence":  true,
-	"entities":    true,
+	"bank_id":          true,
+	"memory_type":      true,
+	"created_at":       true,
+	"created_at_nanos": true,
+	"confidence":       true,
+	"entities":         true,
 }
 
 // buildMetadata converts a Memory to cortexdb metadata map.
@@ -200,6 +201,7 @@ func (s *System) buildMetadata(mem *Memory) map[string]string {
 	metadata["bank_id"] = mem.BankID
 	metadata["memory_type"] = string(mem.Type)
 	metadata["created_at"] = fmt.Sprintf("%d", mem.CreatedAt.Unix())
+	metadata["created_at_nanos"] = fmt.Sprintf("%d", mem.CreatedAt.Nanosecond())
 
 	// Type-specific metadata
 	if mem.Type == OpinionMemory || mem.Type == ObservationMemory {
@@ -636,9 +638,10 @@ func (s *System) scoredEmbeddingToMemory(r *core.ScoredEmbedding) *Memory {
 		mem.Type = MemoryType(memType)
 	}
 	if createdStr, ok := r.Metadata["created_at"]; ok {
-		var created int64
+		var created, nanos int64
 		fmt.Sscanf(createdStr, "%d", &created)
-		mem.CreatedAt = time.Unix(created, 0)
+		fmt.Sscanf(r.Metadata["created_at_nanos"], "%d", &nanos)
+		mem.CreatedAt = time.Unix(created, nanos)
 	}
 	if confStr, ok := r.Metadata["confidence"]; ok {
 		var conf float64
-- 
2.43.0


From d5ebfd67baacd335e4ef4ee50716270b2ebe1795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:03 +0000
Subject: [PATCH 034/118] fix: hindsight banks are reloaded with all their
 fields

---
 pkg/hindsight/hindsight.go | 39 ++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/pkg/hindsight/hindsight.go b/pkg/hindsight/hindsight.go
index 7d0228b..9a2ffe4 100644
--- a/pkg/hindsight/hindsight.go
+++ b/pkg/hindsight/hindsight.go
@@ -824,12 +824,7 @@ func (s *System) GetBank(bankID string) (*Bank, bool) {
 	ctx := context.Background()
 	node, err := s.graph.GetNode(ctx, bankID)
 	if err == nil && node.NodeType == "bank" {
-		bank := &Bank{
-			ID:          node.ID,
-			Name:        node.Content,
-			Description: node.Content,
-			CreatedAt:   node.CreatedAt.Unix(),
-		}
+		bank := s.nodeToBank(node)
 
 		s.mu.Lock()
 		s.banks[bankID] = bank
@@ -1246,12 +1241,7 @@ func (s *System) loadPersistedBanks(ctx context.Context) error {
 	}
 
 	for _, node := range nodes {
-		bank := &Bank{
-			ID:          node.ID,
-			Name:        node.Content,
-			Description: node.Content,
-			CreatedAt:   node.CreatedAt.Unix(),
-		}
+		bank := s.nodeToBank(node)
 
 		s.banks[bank.ID] = bank
 	}
@@ -1265,10 +1255,27 @@ func (s *System) nodeToBank(node *graph.GraphNode) *Bank {
 		return nil
 	}
 
+	text := func(key string) string {
+		v, _ := node.Properties[key].(string)
+		return v
+	}
+	number := func(key string, fallback int64) int64 {
+		if v, ok := node.Properties[key].(float64); ok {
+			return int64(v)
+		}
+		return fallback
+	}
+
 	return &Bank{
-		ID:          node.ID,
-		Name:        node.Content,
-		Description: node.Content,
-		CreatedAt:   node.CreatedAt.Unix(),
+		ID:   node.ID,
+		Name: node.Content,
+		Disposition: &Disposition{
+			Skepticism: int(number("skepticism", 3)),
+			Literalism: int(number("literalism", 3)),
+			Empathy:    int(number("empathy", 3)),
+		},
+		Description: text("description"),
+		Background:  text("background"),
+		CreatedAt:   number("created_at", node.CreatedAt.Unix()),
 	}
 }
-- 
2.43.0


From bb15addd7c01dc14ce85025a7ba6278482b4f0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:57 +0000
Subject: [PATCH 035/118] fix: hindsight entities do not overwrite banks or
 other graph nodes

---
 pkg/hindsight/hindsight.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/hindsight/hindsight.go b/pkg/hindsight/hindsight.go
index 9a2ffe4..0524957 100644
--- a/pkg/hindsight/hindsight.go
+++ b/pkg/hindsight/hindsight.go
@@ -150,6 +150,10 @@ func (s *System) Retain(ctx context.Context, mem *Memory) error {
 
 	// Extract entities from content for graph storage (optional, failures ignored)
 	for _, entity := range mem.Entities {
+		// A node of that ID, e.g. a bank, is left alone
+		if _, err := s.graph.GetNode(ctx, entity); err == nil {
+			continue
+		}
 		// Add entity node to graph (using a simple hash-based vector)
 		node := &graph.GraphNode{
 			ID:       entity,
-- 
2.43.0


From 220f040a7c9080305b6f0c69d4c3b6fa572622f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:08 +0000
Subject: [PATCH 036/118] fix: hindsight keyword recall without a vector looks
 for the words

---
 pkg/hindsight/hindsight.go | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/pkg/hindsight/hindsight.go b/pkg/hindsight/hindsight.go
index 0524957..4c6cc8f 100644
--- a/pkg/hindsight/hindsight.go
+++ b/pkg/hindsight/hindsight.go
@@ -398,25 +398,8 @@ func (s *System) keywordSearch(ctx context.Context, req *RecallRequest) []*Recal
 		RRFK: 60, // RRF constant
 	}
 
-	var results []core.ScoredEmbedding
-	var err error
-
-	if req.QueryVector != nil {
-		results, err = s.store.HybridSearch(ctx, req.QueryVector, req.Query, opts)
-	} else {
-		// No vector provided - just do semantic search with text similarity
-		searchOpts := core.SearchOptions{
-			Collection: s.getCollection(),
-			TopK:       topK,
-			Filter:     map[string]string{"bank_id": req.BankID},
-			QueryText:  req.Query,
-			TextWeight: 1.0, // Text-only
-		}
-		// Need at least a minimal vector for search
-		dummyVec := make([]float32, 1)
-		results, err = s.store.Search(ctx, dummyVec, searchOpts)
-	}
-
+	// Without a query vector this searches by keywords alone
+	results, err := s.store.HybridSearch(ctx, req.QueryVector, req.Query, opts)
 	if err != nil {
 		return nil
 	}
-- 
2.43.0


From 6f69b920960a748c06c5ac76e7f72daad04c442f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:08 +0000
Subject: [PATCH 037/118] fix: hindsight entity and temporal recall consider
 all memories of the bank

---
 pkg/hindsight/hindsight.go | 93 ++++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 45 deletions(-)

diff --git a/pkg/hindsight/hindsight.go b/pkg/hindsight/hindsight.go
index 4c6cc8f..a3c7af8 100644
--- a/pkg/hindsight/hindsight.go
+++ b/pkg/hindsight/hindsight.go
@@ -433,18 +433,12 @@ func (s *System) temporalSearch(ctx context.Context, req *RecallRequest) []*Reca
 		topK = 10
 	}
 
-	// For temporal search, we first get all bank memories then filter
-	opts := core.SearchOptions{
-		Collection: s.getCollection(),
-		TopK:       topK * 5, // Get more to filter
-		Filter:     map[string]string{"bank_id": req.BankID},
-	}
-
 	if req.QueryVector == nil {
 		return nil // Need vector for search
 	}
 
-	results, err := s.store.Search(ctx, req.QueryVector, opts)
+	// For temporal search, we first get all bank memories then filter
+	results, err := s.rankAll(ctx, req.QueryVector, map[string]string{"bank_id": req.BankID})
 	if err != nil {
 		return nil
 	}
@@ -472,6 +466,9 @@ func (s *System) temporalSearch(ctx context.Context, req *RecallRequest) []*Reca
 				Score:    r.Score,
 				Strategy: "temporal",
 			})
+			if len(out) == topK {
+				break
+			}
 		}
 	}
 
@@ -492,53 +489,59 @@ func (s *System) entitySearch(ctx context.Context, req *RecallRequest) []*Recall
 		topK = 10
 	}
 
+	if req.QueryVector == nil {
+		return nil // Need vector for search
+	}
+
 	// Find memories that contain the specified entities
-	// We use metadata filtering for this
-	var allResults []*RecallResult
-	seen := make(map[string]bool)
+	results, err := s.rankAll(ctx, req.QueryVector, map[string]string{"bank_id": req.BankID})
+	if err != nil {
+		return nil
+	}
 
+	wanted := make(map[string]bool, len(req.Strategy.Entity))
 	for _, entity := range req.Strategy.Entity {
-		opts := core.SearchOptions{
-			Collection: s.getCollection(),
-			TopK:       topK,
-			Filter:     map[string]string{"bank_id": req.BankID},
-		}
-
-		var results []core.ScoredEmbedding
-		var err error
-
-		if req.QueryVector != nil {
-			results, err = s.store.Search(ctx, req.QueryVector, opts)
-		} else {
-			// No vector - can't search effectively
-			continue
-		}
+		wanted[entity] = true
+	}
 
-		if err != nil {
+	var out []*RecallResult
+	for _, r := range results {
+		mem := s.scoredEmbeddingToMemory(&r)
+		if mem == nil {
 			continue
 		}
-
-		for _, r := range results {
-			if !seen[r.ID] {
-				// Check if this memory contains the entity
-				if entities, ok := r.Metadata["entities"]; ok {
-					if strings.Contains(entities, entity) {
-						seen[r.ID] = true
-						mem := s.scoredEmbeddingToMemory(&r)
-						if mem != nil {
-							allResults = append(allResults, &RecallResult{
-								Memory:   mem,
-								Score:    r.Score,
-								Strategy: "entity",
-							})
-						}
-					}
-				}
+		for _, entity := range mem.Entities {
+			if wanted[entity] {
+				out = append(out, &RecallResult{
+					Memory:   mem,
+					Score:    r.Score,
+					Strategy: "entity",
+				})
+				break
 			}
 		}
+		if len(out) == topK {
+			break
+		}
 	}
 
-	return allResults
+	return out
+}
+
+// rankAll returns all memories whose metadata match filter, those closest to query first.
+func (s *System) rankAll(ctx context.Context, query []float32, filter map[string]string) ([]core.ScoredEmbedding, error) {
+	stats, err := s.store.GetCollectionStats(ctx, s.getCollection())
+	if err != nil {
+		return nil, err
+	}
+	if stats.Count == 0 {
+		return nil, nil
+	}
+	return s.store.Search(ctx, query, core.SearchOptions{
+		Collection: s.getCollection(),
+		TopK:       int(stats.Count),
+		Filter:     filter,
+	})
 }
 
 // rrfFuse combines results from multiple strategies using Reciprocal Rank Fusion.
-- 
2.43.0


From 987b0db748fd1243fc2a26940a10d15f38a4aa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:08 +0000
Subject: [PATCH 038/118] fix: hindsight GetObservations returns all
 observations of the bank

---
 pkg/hindsight/hindsight.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pkg/hindsight/hindsight.go b/pkg/hindsight/hindsight.go
index a3c7af8..84aafff 100644
--- a/pkg/hindsight/hindsight.go
+++ b/pkg/hindsight/hindsight.go
@@ -1172,18 +1172,12 @@ func (s *System) AddObservation(ctx context.Context, obs *Observation) error {
 
 // GetObservations retrieves observations for a bank.
 func (s *System) GetObservations(ctx context.Context, bankID string) ([]*Observation, error) {
-	opts := core.SearchOptions{
-		Collection: s.getCollection(),
-		TopK:       100,
-		Filter: map[string]string{
-			"bank_id":     bankID,
-			"memory_type": string(ObservationMemory),
-		},
-	}
-
 	// Use a dummy vector for search
 	dummyVec := make([]float32, 1)
-	results, err := s.store.Search(ctx, dummyVec, opts)
+	results, err := s.rankAll(ctx, dummyVec, map[string]string{
+		"bank_id":     bankID,
+		"memory_type": string(ObservationMemory),
+	})
 	if err != nil {
 		return nil, fmt.Errorf("search observations: %w", err)
 	}
-- 
2.43.0


From b2f3504a3157ec21089956c04b51d45e5dd43e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:08 +0000
Subject: [PATCH 039/118] fix: hindsight context is not cut inside a character

---
 pkg/hindsight/hindsight.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/hindsight/hindsight.go b/pkg/hindsight/hindsight.go
index 84aafff..52b545f 100644
--- a/pkg/hindsight/hindsight.go
+++ b/pkg/hindsight/hindsight.go
@@ -11,6 +11,7 @@ import (
 	"strings"
 	"sync"
 	"time"
+	"unicode/utf8"
 
 	"github.com/google/uuid"
 	"github.com/liliang-cn/cortexdb/v2/pkg/core"
@@ -679,7 +680,11 @@ func (s *System) Reflect(ctx context.Context, req *ContextRequest) (*ContextResp
 	tokenCount := len(context) / 4
 	if req.TokenBudget > 0 && tokenCount > req.TokenBudget {
 		// Truncate context to fit budget
-		context = context[:req.TokenBudget*4]
+		end := req.TokenBudget * 4
+		for end > 0 && !utf8.RuneStart(context[end]) {
+			end--
+		}
+		context = context[:end]
 		tokenCount = req.TokenBudget
 	}
 
-- 
2.43.0


From 73466fb6ddec05b354916c83f27dba413dbff3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:58 +0000
Subject: [PATCH 040/118] fix: hindsight Observe generates only the requested
 observation types

---
 pkg/hindsight/hindsight.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/hindsight/hindsight.go b/pkg/hindsight/hindsight.go
index 52b545f..75ffd15 100644
--- a/pkg/hindsight/hindsight.go
+++ b/pkg/hindsight/hindsight.go
@@ -895,6 +895,18 @@ func (s *System) Observe(ctx context.Context, req *ReflectRequest) (*ReflectResp
 	// In a full implementation, this would use an LLM to generate observations.
 	// For now, we provide a framework for the caller to add observations.
 	observations := s.detectPatterns(sourceMemories, bank, req)
+	if len(req.ObservationTypes) > 0 {
+		wanted := make([]*Observation, 0, len(observations))
+		for _, obs := range observations {
+			for _, t := range req.ObservationTypes {
+				if obs.ObservationType == t {
+					wanted = append(wanted, obs)
+					break
+				}
+			}
+		}
+		observations = wanted
+	}
 
 	// Persist observations that meet confidence threshold
 	for _, obs := range observations {
-- 
2.43.0


From c96855659279ac5f3a74412af596da13ddaa54c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:34 +0000
Subject: [PATCH 041/118] fix: hindsight CreateBank accepts a bank without a
 disposition

---
 pkg/hindsight/hindsight.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/hindsight/hindsight.go b/pkg/hindsight/hindsight.go
index 75ffd15..94d6dcf 100644
--- a/pkg/hindsight/hindsight.go
+++ b/pkg/hindsight/hindsight.go
@@ -766,6 +766,9 @@ func (s *System) CreateBank(ctx context.Context, bank *Bank) error {
 		return fmt.Errorf("bank %s already exists", bank.ID)
 	}
 
+	if bank.Disposition == nil {
+		bank.Disposition = DefaultDisposition()
+	}
 	bank.CreatedAt = time.Now().Unix()
 
 	// Persist bank to graph_nodes for cross-session persistence
-- 
2.43.0


From 3d8ff1734eb2635cf0bba2f8a8a89c70b982aa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:30 +0000
Subject: [PATCH 042/118] fix: aggregate over records without metadata and over
 any metadata key

---
 pkg/core/aggregations.go | 41 +++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/pkg/core/aggregations.go b/pkg/core/aggregations.go
index 598ff25..c6a88a5 100644
--- a/pkg/core/aggregations.go
+++ b/pkg/core/aggregations.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"strconv"
+	"strings"
 )
 
 // AggregationType defines the type of aggregation
@@ -114,11 +115,11 @@ func (s *SQLiteStore) aggregateSum(ctx context.Context, req AggregationRequest)
 	// Use JSON extraction for metadata field
 	query := fmt.Sprintf(`
 		SELECT 
-			SUM(CAST(json_extract(metadata, '$.%s') AS REAL)) as sum_value,
+			SUM(CAST(%s AS REAL)) as sum_value,
 			COUNT(*) as count
 		FROM embeddings 
-		WHERE json_extract(metadata, '$.%s') IS NOT NULL`,
-		req.Field, req.Field)
+		WHERE %s IS NOT NULL`,
+		metadataValue(req.Field), metadataValue(req.Field))
 
 	args := []interface{}{}
 
@@ -160,11 +161,11 @@ func (s *SQLiteStore) aggregateAvg(ctx context.Context, req AggregationRequest)
 
 	query := fmt.Sprintf(`
 		SELECT 
-			AVG(CAST(json_extract(metadata, '$.%s') AS REAL)) as avg_value,
+			AVG(CAST(%s AS REAL)) as avg_value,
 			COUNT(*) as count
 		FROM embeddings 
-		WHERE json_extract(metadata, '$.%s') IS NOT NULL`,
-		req.Field, req.Field)
+		WHERE %s IS NOT NULL`,
+		metadataValue(req.Field), metadataValue(req.Field))
 
 	args := []interface{}{}
 
@@ -211,11 +212,11 @@ func (s *SQLiteStore) aggregateMinMax(ctx context.Context, req AggregationReques
 
 	query := fmt.Sprintf(`
 		SELECT 
-			%s(CAST(json_extract(metadata, '$.%s') AS REAL)) as value,
+			%s(CAST(%s AS REAL)) as value,
 			COUNT(*) as count
 		FROM embeddings 
-		WHERE json_extract(metadata, '$.%s') IS NOT NULL`,
-		aggFunc, req.Field, req.Field)
+		WHERE %s IS NOT NULL`,
+		aggFunc, metadataValue(req.Field), metadataValue(req.Field))
 
 	args := []interface{}{}
 
@@ -260,9 +261,9 @@ func (s *SQLiteStore) aggregateGroupBy(ctx context.Context, req AggregationReque
 	groupByClauses := []string{}
 	for _, field := range req.GroupBy {
 		selectClauses = append(selectClauses, 
-			fmt.Sprintf("json_extract(metadata, '$.%s') as %s", field, field))
+			fmt.Sprintf(`%s as "%s"`, metadataValue(field), strings.ReplaceAll(field, `"`, `""`)))
 		groupByClauses = append(groupByClauses, 
-			fmt.Sprintf("json_extract(metadata, '$.%s')", field))
+			metadataValue(field))
 	}
 
 	// Add aggregation based on field
@@ -270,13 +271,13 @@ func (s *SQLiteStore) aggregateGroupBy(ctx context.Context, req AggregationReque
 	if req.Field != "" {
 		switch req.Type {
 		case AggregationSum:
-			aggClause = fmt.Sprintf("SUM(CAST(json_extract(metadata, '$.%s') AS REAL)) as agg_value", req.Field)
+			aggClause = fmt.Sprintf("SUM(CAST(%s AS REAL)) as agg_value", metadataValue(req.Field))
 		case AggregationAvg:
-			aggClause = fmt.Sprintf("AVG(CAST(json_extract(metadata, '$.%s') AS REAL)) as agg_value", req.Field)
+			aggClause = fmt.Sprintf("AVG(CAST(%s AS REAL)) as agg_value", metadataValue(req.Field))
 		case AggregationMin:
-			aggClause = fmt.Sprintf("MIN(CAST(json_extract(metadata, '$.%s') AS REAL)) as agg_value", req.Field)
+			aggClause = fmt.Sprintf("MIN(CAST(%s AS REAL)) as agg_value", metadataValue(req.Field))
 		case AggregationMax:
-			aggClause = fmt.Sprintf("MAX(CAST(json_extract(metadata, '$.%s') AS REAL)) as agg_value", req.Field)
+			aggClause = fmt.Sprintf("MAX(CAST(%s AS REAL)) as agg_value", metadataValue(req.Field))
 		default:
 			aggClause = "COUNT(*) as agg_value"
 		}
@@ -320,7 +321,7 @@ func (s *SQLiteStore) aggregateGroupBy(ctx context.Context, req AggregationReque
 	if req.OrderBy != "" {
 		query += fmt.Sprintf(" ORDER BY %s DESC", req.OrderBy)
 	} else {
-		query += " ORDER BY count DESC"
+		query += " ORDER BY COUNT(*) DESC"
 	}
 
 	// Add LIMIT clause
@@ -407,10 +408,16 @@ func validateAggregationRequest(req AggregationRequest) error {
 	return nil
 }
 
+// metadataValue returns the SQL expression for the value of a metadata field;
+// it is NULL for embeddings without it
+func metadataValue(field string) string {
+	return fmt.Sprintf(`json_extract(NULLIF(metadata, ''), '$."%s"')`, strings.ReplaceAll(field, "'", "''"))
+}
+
 // addMetadataFilters adds metadata filters to the query
 func addMetadataFilters(query string, args []interface{}, filters map[string]interface{}) (string, []interface{}) {
 	for field, value := range filters {
-		query += fmt.Sprintf(" AND json_extract(metadata, '$.%s') = ?", field)
+		query += fmt.Sprintf(" AND %s = ?", metadataValue(field))
 		
 		// Convert value to appropriate SQL type
 		switch v := value.(type) {
-- 
2.43.0


From 71b9952cc4e11074c94fd93efed1ddf75d99b6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:30 +0000
Subject: [PATCH 043/118] fix: sums, averages, minima and maxima are computed
 per group when groups are requested

---
 pkg/core/aggregations.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/core/aggregations.go b/pkg/core/aggregations.go
index c6a88a5..deae70d 100644
--- a/pkg/core/aggregations.go
+++ b/pkg/core/aggregations.go
@@ -61,6 +61,13 @@ func (s *SQLiteStore) Aggregate(ctx context.Context, req AggregationRequest) (*A
 		return nil, wrapError("aggregate", err)
 	}
 
+	if len(req.GroupBy) > 0 {
+		switch req.Type {
+		case AggregationCount, AggregationSum, AggregationAvg, AggregationMin, AggregationMax:
+			return s.aggregateGroupBy(ctx, req)
+		}
+	}
+
 	switch req.Type {
 	case AggregationCount:
 		return s.aggregateCount(ctx, req)
-- 
2.43.0


From 3f829ce052e368045eae63f74c581446f6809658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:21 +0000
Subject: [PATCH 044/118] fix: numeric and boolean aggregation filters match
 metadata

---
 pkg/core/aggregations.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pkg/core/aggregations.go b/pkg/core/aggregations.go
index deae70d..4f6299e 100644
--- a/pkg/core/aggregations.go
+++ b/pkg/core/aggregations.go
@@ -424,23 +424,28 @@ func metadataValue(field string) string {
 // addMetadataFilters adds metadata filters to the query
 func addMetadataFilters(query string, args []interface{}, filters map[string]interface{}) (string, []interface{}) {
 	for field, value := range filters {
-		query += fmt.Sprintf(" AND %s = ?", metadataValue(field))
-		
-		// Convert value to appropriate SQL type
+		expr := metadataValue(field)
+
+		// Metadata usually holds numbers and booleans as text, so both forms match
 		switch v := value.(type) {
 		case string:
+			query += fmt.Sprintf(" AND %s = ?", expr)
 			args = append(args, v)
 		case int:
-			args = append(args, v)
+			query += fmt.Sprintf(" AND %s IN (?, ?)", expr)
+			args = append(args, v, strconv.Itoa(v))
 		case float64:
-			args = append(args, v)
+			query += fmt.Sprintf(" AND %s IN (?, ?)", expr)
+			args = append(args, v, strconv.FormatFloat(v, 'f', -1, 64))
 		case bool:
+			number := 0
 			if v {
-				args = append(args, 1)
-			} else {
-				args = append(args, 0)
+				number = 1
 			}
+			query += fmt.Sprintf(" AND %s IN (?, ?)", expr)
+			args = append(args, number, strconv.FormatBool(v))
 		default:
+			query += fmt.Sprintf(" AND %s = ?", expr)
 			// Try to convert to JSON string
 			if jsonBytes, err := json.Marshal(v); err == nil {
 				args = append(args, string(jsonBytes))
-- 
2.43.0


From e6c6d4ed2d72d8ae14b26a27d992cb4223eaf8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:07 +0000
Subject: [PATCH 045/118] fix: the diversity reranker picks the best candidate
 whatever the scale of the scores

---
 pkg/core/reranker.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/core/reranker.go b/pkg/core/reranker.go
index 24d26ae..92d1b6b 100644
--- a/pkg/core/reranker.go
+++ b/pkg/core/reranker.go
@@ -3,6 +3,7 @@ package core
 import (
 	"context"
 	"fmt"
+	"math"
 	"sort"
 	"strings"
 )
@@ -347,7 +348,7 @@ func (r *DiversityReranker) Rerank(ctx context.Context, query string, results []
 	for len(remaining) > 0 {
 		// Find the item with maximum MMR score
 		bestIdx := 0
-		bestScore := -1.0
+		bestScore := math.Inf(-1)
 
 		for i, item := range remaining {
 			// Relevance to query
-- 
2.43.0


From d5b4872d9e30c42bee4be2d5dfa49730e894093d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:07 +0000
Subject: [PATCH 046/118] fix: SearchWithReranker honours PreserveOriginalScore

---
 pkg/core/reranker.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/core/reranker.go b/pkg/core/reranker.go
index 92d1b6b..d7284e2 100644
--- a/pkg/core/reranker.go
+++ b/pkg/core/reranker.go
@@ -75,6 +75,11 @@ func (s *SQLiteStore) SearchWithReranker(ctx context.Context, queryVec []float32
 		return initialResults, nil
 	}
 
+	original := make(map[string]float64, len(initialResults))
+	for _, r := range initialResults {
+		original[r.ID] = r.Score
+	}
+
 	// Apply reranking
 	reranked, err := reranker.Rerank(ctx, queryText, initialResults)
 	if err != nil {
@@ -100,6 +105,17 @@ func (s *SQLiteStore) SearchWithReranker(ctx context.Context, queryVec []float32
 		results = results[:opts.TopK]
 	}
 
+	if opts.PreserveOriginalScore {
+		restored := make([]ScoredEmbedding, len(results))
+		for i, r := range results {
+			if score, ok := original[r.ID]; ok {
+				r.Score = score
+			}
+			restored[i] = r
+		}
+		results = restored
+	}
+
 	return results, nil
 }
 
-- 
2.43.0


From d07576e6ad9a5adad352138ae3e287f564ba55e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:26 +0000
Subject: [PATCH 047/118] fix: the hybrid reranker accepts a part that drops
 results

---
 pkg/core/reranker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/reranker.go b/pkg/core/reranker.go
index d7284e2..e1fc381 100644
--- a/pkg/core/reranker.go
+++ b/pkg/core/reranker.go
@@ -457,7 +457,7 @@ func (r *HybridReranker) Rerank(ctx context.Context, query string, results []Sco
 		if err != nil {
 			return nil, err
 		}
-		scores := make([]float64, len(reranked))
+		scores := make([]float64, len(results))
 		for _, r := range reranked {
 			// Find original index
 			for k, orig := range results {
-- 
2.43.0


From 8943c16b6f2170ae1c1c2b87b35d485da3d37a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:50 +0000
Subject: [PATCH 048/118] fix: a keyword match raises a negative score instead
 of lowering it

---
 pkg/core/reranker.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/core/reranker.go b/pkg/core/reranker.go
index e1fc381..85ded19 100644
--- a/pkg/core/reranker.go
+++ b/pkg/core/reranker.go
@@ -222,7 +222,12 @@ func (r *KeywordMatchReranker) Rerank(ctx context.Context, query string, results
 		reranked[i] = result
 		if matchCount > 0 {
 			boostFactor := 1.0 + (float64(matchCount) * r.Boost)
-			reranked[i].Score = result.Score * boostFactor
+			if result.Score < 0 {
+				// Negative scores (e.g. Euclidean) rise towards zero
+				reranked[i].Score = result.Score / boostFactor
+			} else {
+				reranked[i].Score = result.Score * boostFactor
+			}
 		}
 	}
 
-- 
2.43.0


From 57ef1c46df1e33e5412081b87d16643e671b18af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:24 +0000
Subject: [PATCH 049/118] fix: equal text matches keep their vector order in
 reciprocal rank fusion

---
 pkg/core/reranker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/reranker.go b/pkg/core/reranker.go
index 85ded19..2ef83b2 100644
--- a/pkg/core/reranker.go
+++ b/pkg/core/reranker.go
@@ -308,7 +308,7 @@ func (r *ReciprocalRankFusionReranker) Rerank(ctx context.Context, query string,
 				textRanked[j] = scoredItem{j, textScores[j]}
 			}
 			// Sort text candidates by score descending
-			sort.Slice(textRanked, func(a, b int) bool {
+			sort.SliceStable(textRanked, func(a, b int) bool {
 				return textRanked[a].score > textRanked[b].score
 			})
 			for j, item := range textRanked {
-- 
2.43.0


From 0027644f66f2d94f2f777050cf09fd782e987b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:15 +0000
Subject: [PATCH 050/118] fix: searching by example ranks records by their
 closest examples even below zero similarity

---
 pkg/core/advanced_search.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/core/advanced_search.go b/pkg/core/advanced_search.go
index 85ea008..bf87d25 100644
--- a/pkg/core/advanced_search.go
+++ b/pkg/core/advanced_search.go
@@ -279,9 +279,9 @@ func (s *SQLiteStore) SearchWithNegatives(ctx context.Context, opts NegativeSear
 		
 		// Calculate positive scores
 		if len(opts.PositiveVectors) > 0 {
-			for _, posVec := range opts.PositiveVectors {
+			for j, posVec := range opts.PositiveVectors {
 				score := float32(s.similarityFn(posVec, candidates[i].Vector))
-				if score > positiveScore {
+				if j == 0 || score > positiveScore {
 					positiveScore = score
 				}
 			}
@@ -289,9 +289,9 @@ func (s *SQLiteStore) SearchWithNegatives(ctx context.Context, opts NegativeSear
 		
 		// Calculate negative scores
 		if len(opts.NegativeVectors) > 0 {
-			for _, negVec := range opts.NegativeVectors {
+			for j, negVec := range opts.NegativeVectors {
 				score := float32(s.similarityFn(negVec, candidates[i].Vector))
-				if score > negativeScore {
+				if j == 0 || score > negativeScore {
 					negativeScore = score
 				}
 			}
-- 
2.43.0


From 5d2e4ec964129c5b7c9f61f2de384ff91932f15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:43 +0000
Subject: [PATCH 051/118] fix: multi-vector entities obey the dimension of the
 store and refuse vectors that are not finite

---
 pkg/core/multi_vector.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pkg/core/multi_vector.go b/pkg/core/multi_vector.go
index 38c2a74..bd45b4b 100644
--- a/pkg/core/multi_vector.go
+++ b/pkg/core/multi_vector.go
@@ -51,6 +51,21 @@ const (
 
 // UpsertMultiVector inserts or updates a multi-vector entity
 func (s *SQLiteStore) UpsertMultiVector(ctx context.Context, entity *MultiVectorEntity) error {
+	// Validate the vectors and adapt them to the dimension of the store
+	embs := make([]*Embedding, 0, len(entity.Vectors))
+	vectors := make(map[string][]float32, len(entity.Vectors))
+	fieldNames := make([]string, 0, len(entity.Vectors))
+	for fieldName, vector := range entity.Vectors {
+		fieldNames = append(fieldNames, fieldName)
+		embs = append(embs, &Embedding{ID: entity.ID, Vector: vector})
+	}
+	if err := s.prepareBatchVectors(embs); err != nil {
+		return wrapError("upsert_multi_vector", err)
+	}
+	for i, fieldName := range fieldNames {
+		vectors[fieldName] = embs[i].Vector
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 	
@@ -71,7 +86,7 @@ func (s *SQLiteStore) UpsertMultiVector(ctx context.Context, entity *MultiVector
 	}()
 	
 	// Insert each vector with a composite ID
-	for fieldName, vector := range entity.Vectors {
+	for fieldName, vector := range vectors {
 		compositeID := fmt.Sprintf("%s___%s", entity.ID, fieldName)
 		
 		// Prepare metadata with field info
@@ -108,7 +123,7 @@ func (s *SQLiteStore) UpsertMultiVector(ctx context.Context, entity *MultiVector
 		return wrapError("upsert_multi_vector", err)
 	}
 	
-	for fieldName, vector := range entity.Vectors {
+	for fieldName, vector := range vectors {
 		s.addToIndexes(fmt.Sprintf("%s___%s", entity.ID, fieldName), vector)
 	}
 	
-- 
2.43.0


From 79b3a5c9d9492ba445288c170fe20a8f65a9d0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:47 +0000
Subject: [PATCH 052/118] fix: a streaming search ends early only when TopK
 good results were sent

---
 pkg/core/streaming.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/core/streaming.go b/pkg/core/streaming.go
index 68a5e2a..d4c31f1 100644
--- a/pkg/core/streaming.go
+++ b/pkg/core/streaming.go
@@ -57,6 +57,7 @@ func (s *SQLiteStore) StreamSearch(ctx context.Context, query []float32, opts St
 		
 		// Process in batches
 		batchID := 0
+		goodResults := 0
 		totalCandidates := len(candidates)
 		
 		for i := 0; i < totalCandidates; i += opts.BatchSize {
@@ -105,7 +106,8 @@ func (s *SQLiteStore) StreamSearch(ctx context.Context, query []float32, opts St
 				
 				// Check early termination
 				if opts.EarlyTerminate && result.Score >= opts.QualityThreshold {
-					if opts.TopK > 0 && i+len(batchResults) >= opts.TopK {
+					goodResults++
+					if opts.TopK > 0 && goodResults >= opts.TopK {
 						return // Found enough good results
 					}
 				}
-- 
2.43.0


From cd4565e17f3f330c6e5235d720d9fa2e670d7656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:52 +0000
Subject: [PATCH 053/118] fix: a streaming search treats a query of another
 dimension like any other search

---
 pkg/core/streaming.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/core/streaming.go b/pkg/core/streaming.go
index d4c31f1..202ac4f 100644
--- a/pkg/core/streaming.go
+++ b/pkg/core/streaming.go
@@ -42,6 +42,15 @@ func (s *SQLiteStore) StreamSearch(ctx context.Context, query []float32, opts St
 		opts.MaxLatency = 100 * time.Millisecond
 	}
 	
+	// Auto-adapt query vector if dimensions don't match
+	if storeDim := s.config.VectorDim; storeDim > 0 && len(query) != storeDim {
+		adapted, err := s.adapter.AdaptVector(query, len(query), storeDim)
+		if err != nil {
+			return nil, wrapError("stream_search", fmt.Errorf("query adaptation failed: %w", err))
+		}
+		query = adapted
+	}
+
 	// Create result channel
 	resultChan := make(chan StreamingResult, opts.BatchSize)
 	
-- 
2.43.0


From 3bb55fbfad1d9c7636db5137ffa4957b54cdb56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:56 +0000
Subject: [PATCH 054/118] fix: closing an incremental index waits until the
 accepted updates are stored

---
 pkg/core/streaming.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/core/streaming.go b/pkg/core/streaming.go
index 202ac4f..6eeb549 100644
--- a/pkg/core/streaming.go
+++ b/pkg/core/streaming.go
@@ -246,6 +246,7 @@ type IncrementalIndex struct {
 	updates   chan *Embedding
 	closed    bool
 	closeOnce sync.Once
+	done      chan struct{} // closed when the background processor has stored everything
 }
 
 // NewIncrementalIndex creates a new incremental index
@@ -253,6 +254,7 @@ func NewIncrementalIndex(store *SQLiteStore) *IncrementalIndex {
 	idx := &IncrementalIndex{
 		store:   store,
 		updates: make(chan *Embedding, 100),
+		done:    make(chan struct{}),
 	}
 	
 	// Start background update processor
@@ -334,7 +336,7 @@ func (idx *IncrementalIndex) SearchWithUpdates(ctx context.Context, query []floa
 	return results, nil
 }
 
-// Close shuts down the incremental index
+// Close shuts down the incremental index once every accepted update is stored
 func (idx *IncrementalIndex) Close() {
 	idx.closeOnce.Do(func() {
 		idx.mu.Lock()
@@ -342,10 +344,13 @@ func (idx *IncrementalIndex) Close() {
 		close(idx.updates)
 		idx.mu.Unlock()
 	})
+	<-idx.done
 }
 
 // processUpdates handles background update processing
 func (idx *IncrementalIndex) processUpdates() {
+	defer close(idx.done)
+
 	batch := make([]*Embedding, 0, 100)
 	ticker := time.NewTicker(100 * time.Millisecond)
 	defer ticker.Stop()
-- 
2.43.0


From 4f9db3def1ef273dd87e3ca89043835886536170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:00 +0000
Subject: [PATCH 055/118] fix: an update that cannot be stored does not discard
 the updates queued with it

---
 pkg/core/streaming.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/core/streaming.go b/pkg/core/streaming.go
index 6eeb549..6cc528b 100644
--- a/pkg/core/streaming.go
+++ b/pkg/core/streaming.go
@@ -361,7 +361,7 @@ func (idx *IncrementalIndex) processUpdates() {
 			if !ok {
 				// Channel closed, flush remaining batch
 				if len(batch) > 0 {
-					_ = idx.store.UpsertBatch(context.Background(), batch)
+					idx.storeBatch(batch)
 				}
 				return
 			}
@@ -370,16 +370,28 @@ func (idx *IncrementalIndex) processUpdates() {
 			
 			// Flush batch if full
 			if len(batch) >= 100 {
-				_ = idx.store.UpsertBatch(context.Background(), batch)
+				idx.storeBatch(batch)
 				batch = batch[:0]
 			}
 			
 		case <-ticker.C:
 			// Periodic flush
 			if len(batch) > 0 {
-				_ = idx.store.UpsertBatch(context.Background(), batch)
+				idx.storeBatch(batch)
 				batch = batch[:0]
 			}
 		}
 	}
-}
\ No newline at end of file
+}
+// storeBatch stores the updates in order; one that is refused does not affect the others
+func (idx *IncrementalIndex) storeBatch(batch []*Embedding) {
+	ctx := context.Background()
+	if err := idx.store.UpsertBatch(ctx, batch); err == nil {
+		return
+	}
+	for _, emb := range batch {
+		if emb != nil {
+			_ = idx.store.Upsert(ctx, emb)
+		}
+	}
+}
-- 
2.43.0


From 8c03d55c4d1cdbe8b63601b8aaa168e519c584ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:04 +0000
Subject: [PATCH 056/118] fix: searching an incremental index sees the queued
 updates once each and in order

---
 pkg/core/streaming.go | 79 ++++++++++++++++---------------------------
 1 file changed, 29 insertions(+), 50 deletions(-)

diff --git a/pkg/core/streaming.go b/pkg/core/streaming.go
index 6cc528b..5b5e3be 100644
--- a/pkg/core/streaming.go
+++ b/pkg/core/streaming.go
@@ -246,6 +246,7 @@ type IncrementalIndex struct {
 	updates   chan *Embedding
 	closed    bool
 	closeOnce sync.Once
+	flush     chan chan struct{}
 	done      chan struct{} // closed when the background processor has stored everything
 }
 
@@ -254,6 +255,7 @@ func NewIncrementalIndex(store *SQLiteStore) *IncrementalIndex {
 	idx := &IncrementalIndex{
 		store:   store,
 		updates: make(chan *Embedding, 100),
+		flush:   make(chan chan struct{}),
 		done:    make(chan struct{}),
 	}
 	
@@ -282,58 +284,22 @@ func (idx *IncrementalIndex) AddAsync(emb *Embedding) error {
 
 // SearchWithUpdates performs search while considering ongoing updates
 func (idx *IncrementalIndex) SearchWithUpdates(ctx context.Context, query []float32, opts SearchOptions) ([]ScoredEmbedding, error) {
-	// Get current results
-	results, err := idx.store.Search(ctx, query, opts)
-	if err != nil {
-		return nil, err
-	}
-	
-	// Check pending updates
-	idx.mu.RLock()
-	pendingCount := len(idx.updates)
-	idx.mu.RUnlock()
-	
-	if pendingCount > 0 {
-		// Process some pending updates quickly
-		processedCount := 0
-		timeout := time.After(10 * time.Millisecond)
-		
-	ProcessLoop:
-		for processedCount < pendingCount && processedCount < 10 {
-			select {
-			case emb := <-idx.updates:
-				if emb != nil {
-					score := idx.store.similarityFn(query, emb.Vector)
-					if opts.TopK == 0 || len(results) < opts.TopK || score > results[len(results)-1].Score {
-						// This update might affect results
-						results = append(results, ScoredEmbedding{
-							Embedding: *emb,
-							Score:     score,
-						})
-						
-						// Re-sort
-						sort.Slice(results, func(i, j int) bool {
-							return results[i].Score > results[j].Score
-						})
-						
-						// Trim to TopK
-						if opts.TopK > 0 && len(results) > opts.TopK {
-							results = results[:opts.TopK]
-						}
-					}
-					
-					// Re-queue for background processing
-					idx.updates <- emb
-				}
-				processedCount++
-				
-			case <-timeout:
-				break ProcessLoop
-			}
+	// Have the pending updates stored first, in the order they were added
+	stored := make(chan struct{})
+	select {
+	case idx.flush <- stored:
+		select {
+		case <-stored:
+		case <-ctx.Done():
+			return nil, ctx.Err()
 		}
+	case <-idx.done:
+		// Closed: everything is stored
+	case <-ctx.Done():
+		return nil, ctx.Err()
 	}
-	
-	return results, nil
+
+	return idx.store.Search(ctx, query, opts)
 }
 
 // Close shuts down the incremental index once every accepted update is stored
@@ -374,6 +340,19 @@ func (idx *IncrementalIndex) processUpdates() {
 				batch = batch[:0]
 			}
 			
+		case stored := <-idx.flush:
+			// Store everything queued so far
+			for pending := len(idx.updates); pending > 0; pending-- {
+				if emb, ok := <-idx.updates; ok {
+					batch = append(batch, emb)
+				}
+			}
+			if len(batch) > 0 {
+				idx.storeBatch(batch)
+				batch = batch[:0]
+			}
+			close(stored)
+			
 		case <-ticker.C:
 			// Periodic flush
 			if len(batch) > 0 {
-- 
2.43.0


From 4723649f847350b563e779ff14bb5230157f553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:24 +0000
Subject: [PATCH 057/118] fix: semantic router finds the best route when no
 similarity is positive

---
 pkg/semantic-router/router.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/semantic-router/router.go b/pkg/semantic-router/router.go
index 42fbaa3..7ac6e96 100644
--- a/pkg/semantic-router/router.go
+++ b/pkg/semantic-router/router.go
@@ -230,7 +230,7 @@ func (r *Router) Route(ctx context.Context, query string) (*RouteResult, error)
 
 		for _, vec := range vectors {
 			score := r.config.SimilarityFunc(queryVec, vec)
-			if score > maxScore {
+			if bestRoute == nil || score > maxScore {
 				maxScore = score
 				bestRoute = route
 			}
-- 
2.43.0


From 3574cadda9961779246c6b8818b2c4ef0935d873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:27 +0000
Subject: [PATCH 058/118] fix: semantic router does not remember a failed
 embedding of a route's utterances

---
 pkg/semantic-router/router.go | 15 ++++++++++-----
 pkg/semantic-router/types.go  |  3 +--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/pkg/semantic-router/router.go b/pkg/semantic-router/router.go
index 7ac6e96..0c2b8b6 100644
--- a/pkg/semantic-router/router.go
+++ b/pkg/semantic-router/router.go
@@ -314,12 +314,17 @@ func (r *Router) getRouteVectors(ctx context.Context, route *Route) ([][]float32
 		return r.embedVectors(ctx, route.Utterances)
 	}
 
-	var err error
-	route.cachedOnce.Do(func() {
-		route.cachedVectors, err = r.embedVectors(ctx, route.Utterances)
-	})
+	route.cachedMu.Lock()
+	defer route.cachedMu.Unlock()
+	if route.cachedVectors == nil {
+		vectors, err := r.embedVectors(ctx, route.Utterances)
+		if err != nil {
+			return nil, err // not cached, the next call tries again
+		}
+		route.cachedVectors = vectors
+	}
 
-	return route.cachedVectors, err
+	return route.cachedVectors, nil
 }
 
 // embedVectors converts text utterances to embeddings.
diff --git a/pkg/semantic-router/types.go b/pkg/semantic-router/types.go
index 9fed0f0..3c4e499 100644
--- a/pkg/semantic-router/types.go
+++ b/pkg/semantic-router/types.go
@@ -26,8 +26,7 @@ type Route struct {
 
 	// cachedVectors stores pre-computed embeddings for utterances
 	cachedVectors [][]float32
-	cachedOnce    sync.Once
-	cachedErr     error
+	cachedMu      sync.Mutex
 }
 
 // RouteHandler is a function that handles a matched route.
-- 
2.43.0


From a8eb2029a1b968f05d96d91ef3b88d2a60b09745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:30 +0000
Subject: [PATCH 059/118] fix: semantic router keeps no route whose storage
 failed and refuses bad batches whole

---
 pkg/semantic-router/router.go | 57 +++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/pkg/semantic-router/router.go b/pkg/semantic-router/router.go
index 0c2b8b6..2e9dc76 100644
--- a/pkg/semantic-router/router.go
+++ b/pkg/semantic-router/router.go
@@ -118,16 +118,15 @@ func (r *Router) Add(route *Route) error {
 		}
 	}
 
-	r.routes = append(r.routes, route)
-
 	// If store is available, persist the route
 	if r.store != nil {
 		ctx := context.Background()
-		if err := r.persistRoute(ctx, route); err != nil {
+		if err := r.persistRoutes(ctx, []*Route{route}); err != nil {
 			return fmt.Errorf("failed to persist route: %w", err)
 		}
 	}
 
+	r.routes = append(r.routes, route)
 	return nil
 }
 
@@ -138,7 +137,11 @@ func (r *Router) AddBatch(routes []*Route) error {
 
 	ctx := context.Background()
 
+	seen := make(map[string]bool, len(routes))
 	for _, route := range routes {
+		if route == nil {
+			return fmt.Errorf("route cannot be nil")
+		}
 		if route.Name == "" {
 			return fmt.Errorf("route name cannot be empty")
 		}
@@ -147,6 +150,10 @@ func (r *Router) AddBatch(routes []*Route) error {
 		}
 
 		// Check for duplicates
+		if seen[route.Name] {
+			return fmt.Errorf("route %q is given twice", route.Name)
+		}
+		seen[route.Name] = true
 		for _, existing := range r.routes {
 			if existing.Name == route.Name {
 				return fmt.Errorf("route %q already exists", route.Name)
@@ -154,17 +161,14 @@ func (r *Router) AddBatch(routes []*Route) error {
 		}
 	}
 
-	r.routes = append(r.routes, routes...)
-
 	// Persist routes if store is available
-	if r.store != nil {
-		for _, route := range routes {
-			if err := r.persistRoute(ctx, route); err != nil {
-				return fmt.Errorf("failed to persist route %q: %w", route.Name, err)
-			}
+	if r.store != nil && len(routes) > 0 {
+		if err := r.persistRoutes(ctx, routes); err != nil {
+			return fmt.Errorf("failed to persist routes: %w", err)
 		}
 	}
 
+	r.routes = append(r.routes, routes...)
 	return nil
 }
 
@@ -352,28 +356,29 @@ func (r *Router) embedVectors(ctx context.Context, utterances []string) ([][]flo
 	return vectors, nil
 }
 
-// persistRoute stores a route's utterances in the vector store.
-func (r *Router) persistRoute(ctx context.Context, route *Route) error {
+// persistRoutes stores the routes' utterances in the vector store, all of them or none.
+func (r *Router) persistRoutes(ctx context.Context, routes []*Route) error {
 	// Create collection for routes if it doesn't exist
 	_, err := r.store.CreateCollection(ctx, "semantic_routes", r.embedder.Dimensions())
 	if err != nil {
 		// Collection might already exist, ignore error
 	}
 
-	vectors, err := r.embedVectors(ctx, route.Utterances)
-	if err != nil {
-		return err
-	}
-
-	embeddings := make([]*core.Embedding, len(vectors))
-	for i, vec := range vectors {
-		embeddings[i] = &core.Embedding{
-			Vector:     vec,
-			Content:    route.Utterances[i],
-			Collection: "semantic_routes",
-			Metadata: map[string]string{
-				"route_name": route.Name,
-			},
+	var embeddings []*core.Embedding
+	for _, route := range routes {
+		vectors, err := r.embedVectors(ctx, route.Utterances)
+		if err != nil {
+			return fmt.Errorf("route %q: %w", route.Name, err)
+		}
+		for i, vec := range vectors {
+			embeddings = append(embeddings, &core.Embedding{
+				Vector:     vec,
+				Content:    route.Utterances[i],
+				Collection: "semantic_routes",
+				Metadata: map[string]string{
+					"route_name": route.Name,
+				},
+			})
 		}
 	}
 
-- 
2.43.0


From 96e12e1f2018bd2d84366c961095bea87c1cadec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:33 +0000
Subject: [PATCH 060/118] fix: semantic router stores every utterance and the
 metadata of a route

---
 pkg/semantic-router/router.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/pkg/semantic-router/router.go b/pkg/semantic-router/router.go
index 2e9dc76..2f22125 100644
--- a/pkg/semantic-router/router.go
+++ b/pkg/semantic-router/router.go
@@ -2,7 +2,10 @@ package semanticrouter
 
 import (
 	"context"
+	"encoding/json"
 	"fmt"
+	"sort"
+	"strconv"
 	"sync"
 
 	"github.com/liliang-cn/cortexdb/v2/pkg/core"
@@ -366,17 +369,24 @@ func (r *Router) persistRoutes(ctx context.Context, routes []*Route) error {
 
 	var embeddings []*core.Embedding
 	for _, route := range routes {
+		routeMetadata, err := json.Marshal(route.Metadata)
+		if err != nil {
+			return fmt.Errorf("route %q: %w", route.Name, err)
+		}
 		vectors, err := r.embedVectors(ctx, route.Utterances)
 		if err != nil {
 			return fmt.Errorf("route %q: %w", route.Name, err)
 		}
 		for i, vec := range vectors {
 			embeddings = append(embeddings, &core.Embedding{
+				ID:         fmt.Sprintf("semantic_routes/%s/%d", route.Name, i),
 				Vector:     vec,
 				Content:    route.Utterances[i],
 				Collection: "semantic_routes",
 				Metadata: map[string]string{
-					"route_name": route.Name,
+					"route_name":      route.Name,
+					"utterance_index": strconv.Itoa(i),
+					"route_metadata":  string(routeMetadata),
 				},
 			})
 		}
@@ -413,8 +423,13 @@ func (r *Router) loadRoutesFromStore(ctx context.Context) error {
 	dim := r.embedder.Dimensions()
 	results, err := r.store.Search(ctx, make([]float32, dim), opts)
 	if err != nil {
-		return nil
+		return err
 	}
+	sort.SliceStable(results, func(i, j int) bool {
+		a, _ := strconv.Atoi(results[i].Metadata["utterance_index"])
+		b, _ := strconv.Atoi(results[j].Metadata["utterance_index"])
+		return a < b
+	})
 
 	// Group results by route name
 	routeMap := make(map[string]*Route)
@@ -429,6 +444,11 @@ func (r *Router) loadRoutesFromStore(ctx context.Context) error {
 				Name:       routeName,
 				Utterances: []string{},
 			}
+			if data := result.Metadata["route_metadata"]; data != "" {
+				if err := json.Unmarshal([]byte(data), &routeMap[routeName].Metadata); err != nil {
+					return fmt.Errorf("metadata of route %q: %w", routeName, err)
+				}
+			}
 		}
 
 		routeMap[routeName].Utterances = append(routeMap[routeName].Utterances, result.Content)
-- 
2.43.0


From 6ffd82d27d30005a13050ba05a73c25f7f78cf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:36 +0000
Subject: [PATCH 061/118] fix: semantic router reports a removal that could not
 be stored

---
 pkg/semantic-router/router.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pkg/semantic-router/router.go b/pkg/semantic-router/router.go
index 2f22125..c9da27b 100644
--- a/pkg/semantic-router/router.go
+++ b/pkg/semantic-router/router.go
@@ -182,9 +182,6 @@ func (r *Router) Remove(name string) error {
 
 	for i, route := range r.routes {
 		if route.Name == name {
-			// Remove from slice
-			r.routes = append(r.routes[:i], r.routes[i+1:]...)
-
 			// Remove from store if available
 			if r.store != nil {
 				ctx := context.Background()
@@ -194,15 +191,22 @@ func (r *Router) Remove(name string) error {
 					Collection: "semantic_routes",
 				}
 				results, err := r.store.Search(ctx, make([]float32, r.embedder.Dimensions()), opts)
-				if err == nil {
-					ids := make([]string, len(results))
-					for i, r := range results {
-						ids[i] = r.ID
+				if err != nil {
+					return fmt.Errorf("failed to find stored route %q: %w", name, err)
+				}
+				ids := make([]string, len(results))
+				for i, r := range results {
+					ids[i] = r.ID
+				}
+				if len(ids) > 0 {
+					if err := r.store.DeleteBatch(ctx, ids); err != nil {
+						return fmt.Errorf("failed to delete stored route %q: %w", name, err)
 					}
-					r.store.DeleteBatch(ctx, ids)
 				}
 			}
 
+			// Remove from slice
+			r.routes = append(r.routes[:i], r.routes[i+1:]...)
 			return nil
 		}
 	}
-- 
2.43.0


From 439380f19965ab31950b2d6777c19e75ede0e54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:23 +0000
Subject: [PATCH 062/118] fix: fitting a sparse encoder again forgets the
 former corpus

---
 pkg/semantic-router/sparse.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/semantic-router/sparse.go b/pkg/semantic-router/sparse.go
index 9f4fa59..efb425b 100644
--- a/pkg/semantic-router/sparse.go
+++ b/pkg/semantic-router/sparse.go
@@ -137,6 +137,10 @@ func (e *BM25Encoder) Fit(ctx context.Context, documents []string) error {
 
 	e.totalDocs = len(documents)
 	e.docFreq = make(map[string]int)
+	e.idf = make(map[string]float64)
+	e.vocabMu.Lock()
+	e.vocabulary = nil
+	e.vocabMu.Unlock()
 	termDocCount := make(map[string]map[int]bool) // term -> set of doc indices
 
 	totalLen := 0.0
@@ -292,6 +296,10 @@ func (e *TFIDFEncoder) Fit(ctx context.Context, documents []string) error {
 
 	e.totalDocs = len(documents)
 	e.docFreq = make(map[string]int)
+	e.idf = make(map[string]float64)
+	e.vocabMu.Lock()
+	e.vocabulary = nil
+	e.vocabMu.Unlock()
 	termDocCount := make(map[string]map[int]bool)
 
 	for docIdx, doc := range documents {
-- 
2.43.0


From dcf92c042378951a6bba5151a663f2b9c1ac46fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:26 +0000
Subject: [PATCH 063/118] fix: BM25 weights are finite and non-zero without a
 corpus

---
 pkg/semantic-router/sparse.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/semantic-router/sparse.go b/pkg/semantic-router/sparse.go
index efb425b..158b14d 100644
--- a/pkg/semantic-router/sparse.go
+++ b/pkg/semantic-router/sparse.go
@@ -184,7 +184,10 @@ func (e *BM25Encoder) Fit(ctx context.Context, documents []string) error {
 		e.idf[term] = idf
 	}
 
-	e.avgDocLen = totalLen / float64(e.totalDocs)
+	e.avgDocLen = 0
+	if e.totalDocs > 0 {
+		e.avgDocLen = totalLen / float64(e.totalDocs)
+	}
 
 	return nil
 }
@@ -209,6 +212,12 @@ func (e *BM25Encoder) EncodeSparse(text string) map[string]float64 {
 		termFreq[term]++
 	}
 
+	// Without a corpus every document has the average length
+	lengthRatio := 1.0
+	if e.avgDocLen > 0 {
+		lengthRatio = docLen / e.avgDocLen
+	}
+
 	// Compute BM25 score for each term
 	for term, tf := range termFreq {
 		idf, ok := e.idf[term]
@@ -219,7 +228,7 @@ func (e *BM25Encoder) EncodeSparse(text string) map[string]float64 {
 
 		// BM25 formula: IDF * (tf * (k1 + 1)) / (tf + k1 * (1 - b + b * (docLen / avgDocLen)))
 		numerator := float64(tf) * (e.k1 + 1)
-		denominator := float64(tf) + e.k1*(1-e.b+e.b*(docLen/e.avgDocLen))
+		denominator := float64(tf) + e.k1*(1-e.b+e.b*lengthRatio)
 		bm25 := idf * (numerator / denominator)
 
 		result[term] = bm25
-- 
2.43.0


From c8bd7938596b921fbc8500d413465945d32d023f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:29 +0000
Subject: [PATCH 064/118] fix: CachedEmbedder may be used from several
 goroutines

---
 pkg/semantic-router/embedder.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/pkg/semantic-router/embedder.go b/pkg/semantic-router/embedder.go
index 73ae939..d35d0ed 100644
--- a/pkg/semantic-router/embedder.go
+++ b/pkg/semantic-router/embedder.go
@@ -3,6 +3,7 @@ package semanticrouter
 import (
 	"context"
 	"fmt"
+	"sync"
 )
 
 // MockEmbedder is a simple embedder for testing purposes.
@@ -59,6 +60,7 @@ func (m *MockEmbedder) Dimensions() int {
 // CachedEmbedder wraps another embedder and caches results.
 type CachedEmbedder struct {
 	embedder Embedder
+	mu       sync.RWMutex
 	cache    map[string][]float32
 }
 
@@ -70,9 +72,22 @@ func NewCachedEmbedder(embedder Embedder) *CachedEmbedder {
 	}
 }
 
+func (c *CachedEmbedder) cached(text string) ([]float32, bool) {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
+	vec, ok := c.cache[text]
+	return vec, ok
+}
+
+func (c *CachedEmbedder) store(text string, vec []float32) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	c.cache[text] = vec
+}
+
 // Embed returns a cached embedding if available, otherwise computes and caches it.
 func (c *CachedEmbedder) Embed(ctx context.Context, text string) ([]float32, error) {
-	if vec, ok := c.cache[text]; ok {
+	if vec, ok := c.cached(text); ok {
 		return vec, nil
 	}
 
@@ -81,7 +96,7 @@ func (c *CachedEmbedder) Embed(ctx context.Context, text string) ([]float32, err
 		return nil, err
 	}
 
-	c.cache[text] = vec
+	c.store(text, vec)
 	return vec, nil
 }
 
@@ -92,7 +107,7 @@ func (c *CachedEmbedder) EmbedBatch(ctx context.Context, texts []string) ([][]fl
 
 	// Check cache first
 	for i, text := range texts {
-		if vec, ok := c.cache[text]; ok {
+		if vec, ok := c.cached(text); ok {
 			vectors[i] = vec
 		} else {
 			uncached[i] = text
@@ -117,7 +132,7 @@ func (c *CachedEmbedder) EmbedBatch(ctx context.Context, texts []string) ([][]fl
 					return nil, fmt.Errorf("failed to embed %q: %w", text, err)
 				}
 				vectors[origIdx] = vec
-				c.cache[text] = vec
+				c.store(text, vec)
 			}
 			return vectors, nil
 		}
@@ -125,7 +140,7 @@ func (c *CachedEmbedder) EmbedBatch(ctx context.Context, texts []string) ([][]fl
 		for batchIdx, vec := range batchVecs {
 			origIdx := indexMap[batchIdx]
 			vectors[origIdx] = vec
-			c.cache[uncachedTexts[batchIdx]] = vec
+			c.store(uncachedTexts[batchIdx], vec)
 		}
 	}
 
@@ -139,10 +154,14 @@ func (c *CachedEmbedder) Dimensions() int {
 
 // ClearCache clears the embedding cache.
 func (c *CachedEmbedder) ClearCache() {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.cache = make(map[string][]float32)
 }
 
 // CacheSize returns the number of cached embeddings.
 func (c *CachedEmbedder) CacheSize() int {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
 	return len(c.cache)
 }
-- 
2.43.0


From 108c828fe0f66d2a26e54de4eae0a2b59aed09fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:32 +0000
Subject: [PATCH 065/118] fix: HybridRouter.SetAlpha may be called while
 routing

---
 pkg/semantic-router/hybrid.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/semantic-router/hybrid.go b/pkg/semantic-router/hybrid.go
index 45b9ea7..1fc6908 100644
--- a/pkg/semantic-router/hybrid.go
+++ b/pkg/semantic-router/hybrid.go
@@ -18,6 +18,7 @@ type HybridRouter struct {
 	sparseMu    sync.RWMutex
 
 	alpha       float64 // Weight for dense similarity (0-1)
+	alphaMu     sync.RWMutex
 	threshold   float64
 
 	// Similarity function for dense vectors
@@ -374,7 +375,8 @@ func (h *HybridRouter) Route(ctx context.Context, query string) (*HybridRouteRes
 	// Compute combined score
 	denseScore := denseResult.Score
 	sparseScore := sparseResult.Score
-	combinedScore := h.alpha*denseScore + (1-h.alpha)*sparseScore
+	alpha := h.GetAlpha()
+	combinedScore := alpha*denseScore + (1-alpha)*sparseScore
 
 	result := &HybridRouteResult{
 		RouteResult: RouteResult{
@@ -433,11 +435,15 @@ func (h *HybridRouter) List() []string {
 
 // GetAlpha returns the current alpha value.
 func (h *HybridRouter) GetAlpha() float64 {
+	h.alphaMu.RLock()
+	defer h.alphaMu.RUnlock()
 	return h.alpha
 }
 
 // SetAlpha updates the alpha weight.
 func (h *HybridRouter) SetAlpha(alpha float64) {
+	h.alphaMu.Lock()
+	defer h.alphaMu.Unlock()
 	h.alpha = alpha
 }
 
@@ -455,7 +461,7 @@ func (h *HybridRouter) Stats() map[string]interface{} {
 	}
 
 	return map[string]interface{}{
-		"alpha":           h.alpha,
+		"alpha":           h.GetAlpha(),
 		"threshold":       h.threshold,
 		"dense_router":    denseStats,
 		"sparse_router":   sparseStats,
-- 
2.43.0


From ed143ed3fe4dbddf3cc292cf5ad2f06d6f5723d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:35 +0000
Subject: [PATCH 066/118] fix: HybridRouter adds a route to both routers or to
 none

---
 pkg/semantic-router/hybrid.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/pkg/semantic-router/hybrid.go b/pkg/semantic-router/hybrid.go
index 1fc6908..d06aa42 100644
--- a/pkg/semantic-router/hybrid.go
+++ b/pkg/semantic-router/hybrid.go
@@ -133,6 +133,19 @@ func (r *SparseRouter) Add(route *SparseRoute) error {
 	return nil
 }
 
+// remove removes a route from the sparse router.
+func (r *SparseRouter) remove(name string) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+
+	for i, route := range r.routes {
+		if route.Name == name {
+			r.routes = append(r.routes[:i], r.routes[i+1:]...)
+			return
+		}
+	}
+}
+
 // Route performs sparse routing.
 func (r *SparseRouter) Route(ctx context.Context, query string) (*RouteResult, error) {
 	if query == "" {
@@ -323,6 +336,9 @@ func (h *HybridRouter) Add(route *Route, sparseRoute *SparseRoute) error {
 
 	if sparseRoute != nil {
 		if err := h.sparse.Add(sparseRoute); err != nil {
+			if route != nil {
+				_ = h.dense.Remove(route.Name)
+			}
 			return fmt.Errorf("failed to add sparse route: %w", err)
 		}
 	}
@@ -344,8 +360,14 @@ func (h *HybridRouter) AddBatch(denseRoutes []*Route, sparseRoutes []*SparseRout
 	}
 
 	if len(sparseRoutes) > 0 {
-		for _, route := range sparseRoutes {
+		for i, route := range sparseRoutes {
 			if err := h.sparse.Add(route); err != nil {
+				for _, added := range sparseRoutes[:i] {
+					h.sparse.remove(added.Name)
+				}
+				for _, added := range denseRoutes {
+					_ = h.dense.Remove(added.Name)
+				}
 				return fmt.Errorf("failed to add sparse route: %w", err)
 			}
 		}
-- 
2.43.0


From 8efcc19ac0925d1c2742e0cdf6e201b77eb4faec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:12 +0000
Subject: [PATCH 067/118] fix: parameter extraction survives any keyword and
 keeps case, sign, fraction and type of values

---
 pkg/semantic-router/schema.go | 59 ++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/pkg/semantic-router/schema.go b/pkg/semantic-router/schema.go
index af4f19d..155a588 100644
--- a/pkg/semantic-router/schema.go
+++ b/pkg/semantic-router/schema.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"regexp"
+	"strconv"
 	"strings"
 	"sync"
 )
@@ -216,13 +217,14 @@ func (r *RegexExtractor) Extract(ctx context.Context, text string, schema *Funct
 		if patterns, ok := r.patterns[schema.Name]; ok {
 			if pattern, ok := patterns[paramName]; ok {
 				re, err := regexp.Compile(pattern)
-				if err != nil {
-					continue
-				}
-				matches := re.FindStringSubmatch(text)
-				if len(matches) > 1 {
-					params[paramName] = r.coerceType(matches[1], paramSchema.Type)
-					continue
+				if err == nil {
+					matches := re.FindStringSubmatch(text)
+					if len(matches) > 1 {
+						if value := r.coerceType(matches[1], paramSchema.Type); value != nil {
+							params[paramName] = value
+							continue
+						}
+					}
 				}
 			}
 		}
@@ -246,12 +248,17 @@ func (r *RegexExtractor) extractValue(text, textLower, paramName string, schema
 
 	for _, keyword := range keywords {
 		if strings.Contains(textLower, keyword) {
-			// Try to extract value after the keyword
-			pattern := keyword + `\s+[:是]?\s*["']?([^"'\s,。.!?]+)["']?`
-			re := regexp.MustCompile(pattern)
-			matches := re.FindStringSubmatch(textLower)
+			// Try to extract value after the keyword, in its own spelling
+			pattern := `(?i)` + regexp.QuoteMeta(keyword) + `\s+[:是]?\s*["']?([^"'\s,。.!?]+(?:\.[^"'\s,。.!?]+)*)["']?`
+			re, err := regexp.Compile(pattern)
+			if err != nil {
+				continue // keyword is not valid UTF-8
+			}
+			matches := re.FindStringSubmatch(text)
 			if len(matches) > 1 {
-				return r.coerceType(matches[1], schema.Type)
+				if value := r.coerceType(matches[1], schema.Type); value != nil {
+					return value
+				}
 			}
 		}
 	}
@@ -262,7 +269,9 @@ func (r *RegexExtractor) extractValue(text, textLower, paramName string, schema
 		for _, enumVal := range schema.Enum {
 			enumStr := fmt.Sprintf("%v", enumVal)
 			if strings.Contains(textLower, strings.ToLower(enumStr)) {
-				return r.coerceType(enumStr, schema.Type)
+				if value := r.coerceType(enumStr, schema.Type); value != nil {
+					return value
+				}
 			}
 		}
 	}
@@ -302,28 +311,26 @@ func (r *RegexExtractor) extractKeywords(description, paramName string) []string
 	return keywords
 }
 
-// coerceType converts a string value to the specified type.
+// coerceType converts a string value to the specified type; nil if it is not of that type.
 func (r *RegexExtractor) coerceType(value string, typeStr string) interface{} {
 	switch strings.ToLower(typeStr) {
 	case "string":
 		return value
 	case "integer", "int":
 		// Extract numeric part
-		re := regexp.MustCompile(`\d+`)
-		matches := re.FindStringSubmatch(value)
-		if len(matches) > 0 {
-			var result int
-			fmt.Sscanf(matches[0], "%d", &result)
-			return result
+		re := regexp.MustCompile(`-?\d+`)
+		result, err := strconv.Atoi(re.FindString(value))
+		if err != nil {
+			return nil
 		}
+		return result
 	case "number", "float":
-		re := regexp.MustCompile(`\d+\.?\d*`)
-		matches := re.FindStringSubmatch(value)
-		if len(matches) > 0 {
-			var result float64
-			fmt.Sscanf(matches[0], "%f", &result)
-			return result
+		re := regexp.MustCompile(`-?\d+\.?\d*`)
+		result, err := strconv.ParseFloat(re.FindString(value), 64)
+		if err != nil {
+			return nil
 		}
+		return result
 	case "boolean", "bool":
 		lower := strings.ToLower(value)
 		return lower == "true" || lower == "yes" || lower == "是" || lower == "好的"
-- 
2.43.0


From 7c55cd69f8afc93e1e76e833fe5b50459fd83f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:15 +0000
Subject: [PATCH 068/118] fix: parameters listed as required by the schema are
 reported missing

---
 pkg/semantic-router/schema.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/semantic-router/schema.go b/pkg/semantic-router/schema.go
index 155a588..87e11b7 100644
--- a/pkg/semantic-router/schema.go
+++ b/pkg/semantic-router/schema.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"regexp"
+	"slices"
 	"strconv"
 	"strings"
 	"sync"
@@ -233,7 +234,7 @@ func (r *RegexExtractor) Extract(ctx context.Context, text string, schema *Funct
 		value := r.extractValue(text, textLower, paramName, paramSchema)
 		if value != nil {
 			params[paramName] = value
-		} else if paramSchema.Required {
+		} else if paramSchema.Required || slices.Contains(schema.Required, paramName) {
 			missing = append(missing, paramName)
 		}
 	}
-- 
2.43.0


From c19166f7d15472d1e4e8edb0b17f318d4b5a7507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:19 +0000
Subject: [PATCH 069/118] fix: FunctionRouter finds functions by their route
 name and uses a schema's own extractor

---
 pkg/semantic-router/schema.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/semantic-router/schema.go b/pkg/semantic-router/schema.go
index 87e11b7..80b1fb3 100644
--- a/pkg/semantic-router/schema.go
+++ b/pkg/semantic-router/schema.go
@@ -151,6 +151,12 @@ func (fr *FunctionRouter) Route(ctx context.Context, text string) (*FunctionCall
 
 	fr.mu.RLock()
 	route, ok := fr.routes[result.RouteName]
+	for _, candidate := range fr.routes {
+		if candidate.Route != nil && candidate.Route.Name == result.RouteName {
+			route, ok = candidate, true
+			break
+		}
+	}
 	fr.mu.RUnlock()
 
 	if !ok {
@@ -158,8 +164,12 @@ func (fr *FunctionRouter) Route(ctx context.Context, text string) (*FunctionCall
 		return nil, fmt.Errorf("route %q not found in function router", result.RouteName)
 	}
 
-	// Extract parameters using the function schema
-	params, missing, err := fr.extractor.Extract(ctx, text, route.FunctionSchema)
+	// Extract parameters using the function schema and its extractor, if it has one
+	extractor := fr.extractor
+	if route.FunctionSchema.Extractor != nil {
+		extractor = route.FunctionSchema.Extractor
+	}
+	params, missing, err := extractor.Extract(ctx, text, route.FunctionSchema)
 	if err != nil {
 		return nil, fmt.Errorf("parameter extraction failed: %w", err)
 	}
-- 
2.43.0


From f91f9d942172189b57e86710b43eb2e054b4b942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:00 +0000
Subject: [PATCH 070/118] fix: inserting a geo point again replaces its earlier
 position in the grid

---
 pkg/geo/geospatial.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pkg/geo/geospatial.go b/pkg/geo/geospatial.go
index 60e773b..8260f9b 100644
--- a/pkg/geo/geospatial.go
+++ b/pkg/geo/geospatial.go
@@ -82,6 +82,11 @@ func (g *GeoIndex) Insert(point GeoPoint) error {
 	g.mu.Lock()
 	defer g.mu.Unlock()
 
+	// A point inserted again replaces its earlier position
+	if old, exists := g.points[point.ID]; exists {
+		g.remove(old)
+	}
+
 	// Store point
 	g.points[point.ID] = &point
 
@@ -102,14 +107,20 @@ func (g *GeoIndex) Delete(id string) bool {
 		return false
 	}
 
+	g.remove(point)
+	return true
+}
+
+// remove takes a stored point out of the point map and the grid
+func (g *GeoIndex) remove(point *GeoPoint) {
 	// Remove from main index
-	delete(g.points, id)
+	delete(g.points, point.ID)
 
 	// Remove from grid index
 	gridKey := g.getGridKey(point.Coordinate)
 	if cells, ok := g.grid[gridKey]; ok {
 		for i, p := range cells {
-			if p.ID == id {
+			if p.ID == point.ID {
 				// Remove element by swapping with last and truncating
 				g.grid[gridKey][i] = cells[len(cells)-1]
 				g.grid[gridKey] = cells[:len(cells)-1]
@@ -121,8 +132,6 @@ func (g *GeoIndex) Delete(id string) bool {
 			delete(g.grid, gridKey)
 		}
 	}
-
-	return true
 }
 
 // SearchRadius finds all points within a given radius from a center point
-- 
2.43.0


From 5bcfbddad220576ccc45c78ba23860bb02045489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:03 +0000
Subject: [PATCH 071/118] fix: distance between antipodal geo points is not NaN

---
 pkg/geo/geospatial.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/geo/geospatial.go b/pkg/geo/geospatial.go
index 8260f9b..86059c1 100644
--- a/pkg/geo/geospatial.go
+++ b/pkg/geo/geospatial.go
@@ -346,6 +346,7 @@ func haversineDistance(p1, p2 Coordinate) float64 {
 	a := math.Sin(deltaLat/2)*math.Sin(deltaLat/2) +
 		math.Cos(lat1Rad)*math.Cos(lat2Rad)*
 			math.Sin(deltaLng/2)*math.Sin(deltaLng/2)
+	a = math.Min(1, a) // rounding can exceed 1 for antipodal points
 	c := 2 * math.Atan2(math.Sqrt(a), math.Sqrt(1-a))
 
 	return EarthRadiusKM * c
-- 
2.43.0


From fb31adfd6c4bfe31a9a222b030e41d3d3a33ae98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:06 +0000
Subject: [PATCH 072/118] fix: geo radius search covers every cell its circle
 reaches

---
 pkg/geo/geospatial.go | 44 ++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/pkg/geo/geospatial.go b/pkg/geo/geospatial.go
index 86059c1..95cce33 100644
--- a/pkg/geo/geospatial.go
+++ b/pkg/geo/geospatial.go
@@ -315,24 +315,38 @@ func (g *GeoIndex) getGridKey(coord Coordinate) int64 {
 
 // getCandidateCells returns points from grid cells that might contain results
 func (g *GeoIndex) getCandidateCells(center Coordinate, radiusKM float64) []*GeoPoint {
-	// Calculate how many grid cells we need to check
-	// At equator, 1 degree ≈ 111km
-	degreesRadius := radiusKM / 111.0
-	cellsRadius := int64(math.Ceil(degreesRadius / g.gridSize))
-	
-	centerGridX := int64(center.Lng / g.gridSize)
-	centerGridY := int64(center.Lat / g.gridSize)
-	
+	// Latitudes and longitudes the circle reaches, with a margin for rounding
+	const margin = 1e-6
+	angle := radiusKM / EarthRadiusKM
+	latRadius := angle*180/math.Pi + margin
+	minLat, maxLat := math.Max(-90, center.Lat-latRadius), math.Min(90, center.Lat+latRadius)
+
+	minLng, maxLng := -180.0, 180.0
+	if center.Lat-latRadius > -90 && center.Lat+latRadius < 90 {
+		// The circle contains no pole; it spans all longitudes if it crosses the date line
+		lngRadius := math.Asin(math.Min(1, math.Sin(angle)/math.Cos(center.Lat*math.Pi/180)))*180/math.Pi + margin
+		if center.Lng-lngRadius >= -180 && center.Lng+lngRadius <= 180 {
+			minLng, maxLng = center.Lng-lngRadius, center.Lng+lngRadius
+		}
+	}
+
+	minGridX, maxGridX := int64(minLng/g.gridSize), int64(maxLng/g.gridSize)
+	minGridY, maxGridY := int64(minLat/g.gridSize), int64(maxLat/g.gridSize)
+
 	var candidates []*GeoPoint
-	for dx := -cellsRadius; dx <= cellsRadius; dx++ {
-		for dy := -cellsRadius; dy <= cellsRadius; dy++ {
-			gridKey := ((centerGridX + dx) << 32) | ((centerGridY + dy) & 0xFFFFFFFF)
-			if cells, ok := g.grid[gridKey]; ok {
-				candidates = append(candidates, cells...)
-			}
+	if (maxGridX-minGridX+1)*(maxGridY-minGridY+1) > int64(len(g.points)) {
+		// Fewer points than cells
+		for _, point := range g.points {
+			candidates = append(candidates, point)
 		}
+		return candidates
 	}
-	
+	for x := minGridX; x <= maxGridX; x++ {
+		for y := minGridY; y <= maxGridY; y++ {
+			candidates = append(candidates, g.grid[(x<<32)|(y&0xFFFFFFFF)]...)
+		}
+	}
+
 	return candidates
 }
 
-- 
2.43.0


From c1d1ba5f9cad05882d64db3ac67c91c06b02ec73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:07 +0000
Subject: [PATCH 073/118] fix: a scalar quantizer refuses bad training vectors
 before it changes anything

---
 pkg/quantization/scalar_quantization.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/quantization/scalar_quantization.go b/pkg/quantization/scalar_quantization.go
index a6bef6c..1d9e5f5 100644
--- a/pkg/quantization/scalar_quantization.go
+++ b/pkg/quantization/scalar_quantization.go
@@ -51,6 +51,12 @@ func (sq *ScalarQuantizer) Train(vectors [][]float32) error {
 		return errors.New("no training vectors provided")
 	}
 	
+	for _, vec := range vectors {
+		if len(vec) != sq.Dimension {
+			return fmt.Errorf("vector dimension %d doesn't match quantizer dimension %d", len(vec), sq.Dimension)
+		}
+	}
+
 	// Initialize min/max
 	for d := 0; d < sq.Dimension; d++ {
 		sq.Min[d] = vectors[0][d]
@@ -59,10 +65,6 @@ func (sq *ScalarQuantizer) Train(vectors [][]float32) error {
 	
 	// Find min/max for each dimension
 	for _, vec := range vectors {
-		if len(vec) != sq.Dimension {
-			return fmt.Errorf("vector dimension %d doesn't match quantizer dimension %d", len(vec), sq.Dimension)
-		}
-		
 		for d := 0; d < sq.Dimension; d++ {
 			if vec[d] < sq.Min[d] {
 				sq.Min[d] = vec[d]
-- 
2.43.0


From ffd41ac480697b4cec6133a07be2f306defbd2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:11 +0000
Subject: [PATCH 074/118] fix: a binary quantizer refuses bad training vectors
 before it changes anything

---
 pkg/quantization/scalar_quantization.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/quantization/scalar_quantization.go b/pkg/quantization/scalar_quantization.go
index 1d9e5f5..685a421 100644
--- a/pkg/quantization/scalar_quantization.go
+++ b/pkg/quantization/scalar_quantization.go
@@ -208,13 +208,16 @@ func (bq *BinaryQuantizer) Train(vectors [][]float32) error {
 		return errors.New("no training vectors provided")
 	}
 	
+	for _, vec := range vectors {
+		if len(vec) != bq.Dimension {
+			return fmt.Errorf("vector dimension %d doesn't match quantizer dimension %d", len(vec), bq.Dimension)
+		}
+	}
+
 	// Calculate mean for each dimension as threshold
 	for d := 0; d < bq.Dimension; d++ {
 		sum := float32(0)
 		for _, vec := range vectors {
-			if len(vec) != bq.Dimension {
-				return fmt.Errorf("vector dimension %d doesn't match quantizer dimension %d", len(vec), bq.Dimension)
-			}
 			sum += vec[d]
 		}
 		bq.Threshold[d] = sum / float32(len(vectors))
-- 
2.43.0


From cfe316a97093193be4025442376ff779313a3bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:16 +0000
Subject: [PATCH 075/118] fix: scalar quantization of large constant or wide
 value ranges gives no NaN

---
 pkg/quantization/scalar_quantization.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pkg/quantization/scalar_quantization.go b/pkg/quantization/scalar_quantization.go
index 685a421..99ed901 100644
--- a/pkg/quantization/scalar_quantization.go
+++ b/pkg/quantization/scalar_quantization.go
@@ -96,7 +96,7 @@ func (sq *ScalarQuantizer) Encode(vector []float32) ([]byte, error) {
 		return nil, fmt.Errorf("vector dimension %d doesn't match quantizer dimension %d", len(vector), sq.Dimension)
 	}
 	
-	maxVal := float32((int(1) << uint(sq.NBits)) - 1)
+	maxVal := float64((int(1) << uint(sq.NBits)) - 1)
 	
 	// Calculate bytes needed
 	bitsNeeded := sq.Dimension * sq.NBits
@@ -106,7 +106,11 @@ func (sq *ScalarQuantizer) Encode(vector []float32) ([]byte, error) {
 	bitOffset := 0
 	for d := 0; d < sq.Dimension; d++ {
 		// Normalize to [0, 1]
-		normalized := (vector[d] - sq.Min[d]) / (sq.Max[d] - sq.Min[d])
+		// (in float64, where the range of two float32 values cannot overflow)
+		normalized := 0.0
+		if span := float64(sq.Max[d]) - float64(sq.Min[d]); span > 0 {
+			normalized = (float64(vector[d]) - float64(sq.Min[d])) / span
+		}
 		if normalized < 0 {
 			normalized = 0
 		} else if normalized > 1 {
@@ -138,7 +142,7 @@ func (sq *ScalarQuantizer) Decode(encoded []byte) ([]float32, error) {
 		return nil, errors.New("quantizer not trained")
 	}
 	
-	maxVal := float32((int(1) << uint(sq.NBits)) - 1)
+	maxVal := float64((int(1) << uint(sq.NBits)) - 1)
 	vector := make([]float32, sq.Dimension)
 	
 	bitOffset := 0
@@ -161,8 +165,8 @@ func (sq *ScalarQuantizer) Decode(encoded []byte) ([]float32, error) {
 		}
 		
 		// Dequantize
-		normalized := float32(quantized) / maxVal
-		vector[d] = normalized*(sq.Max[d]-sq.Min[d]) + sq.Min[d]
+		normalized := float64(quantized) / maxVal
+		vector[d] = float32(normalized*(float64(sq.Max[d])-float64(sq.Min[d])) + float64(sq.Min[d]))
 	}
 	
 	return vector, nil
-- 
2.43.0


From d1deb155af633dee2474b38bd4db6eaf45fa8cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:20 +0000
Subject: [PATCH 076/118] fix: loading a quantizer replaces it entirely, or not
 at all when the data is invalid

---
 pkg/quantization/scalar_quantization.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pkg/quantization/scalar_quantization.go b/pkg/quantization/scalar_quantization.go
index 99ed901..1400046 100644
--- a/pkg/quantization/scalar_quantization.go
+++ b/pkg/quantization/scalar_quantization.go
@@ -41,8 +41,16 @@ func (sq *ScalarQuantizer) Save(w io.Writer) error {
 
 // Load deserializes the quantizer
 func (sq *ScalarQuantizer) Load(r io.Reader) error {
-	dec := gob.NewDecoder(r)
-	return dec.Decode(sq)
+	// Decode into a fresh value: fields absent from the data are zero
+	var loaded ScalarQuantizer
+	if err := gob.NewDecoder(r).Decode(&loaded); err != nil {
+		return err
+	}
+	if loaded.NBits < 1 || loaded.NBits > 8 || len(loaded.Min) != loaded.Dimension || len(loaded.Max) != loaded.Dimension {
+		return errors.New("invalid scalar quantizer data")
+	}
+	*sq = loaded
+	return nil
 }
 
 // Train learns the value ranges from training data
@@ -202,8 +210,16 @@ func (bq *BinaryQuantizer) Save(w io.Writer) error {
 
 // Load deserializes the quantizer
 func (bq *BinaryQuantizer) Load(r io.Reader) error {
-	dec := gob.NewDecoder(r)
-	return dec.Decode(bq)
+	// Decode into a fresh value: fields absent from the data are zero
+	var loaded BinaryQuantizer
+	if err := gob.NewDecoder(r).Decode(&loaded); err != nil {
+		return err
+	}
+	if len(loaded.Threshold) != loaded.Dimension {
+		return errors.New("invalid binary quantizer data")
+	}
+	*bq = loaded
+	return nil
 }
 
 // Train learns thresholds from training data
-- 
2.43.0


From 82ed37d79222f35bbf979ed835c98039f420d4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:23 +0000
Subject: [PATCH 077/118] fix: SearchBinary for a negative number of results
 returns none

---
 pkg/quantization/scalar_quantization.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/quantization/scalar_quantization.go b/pkg/quantization/scalar_quantization.go
index 1400046..7a4d0b2 100644
--- a/pkg/quantization/scalar_quantization.go
+++ b/pkg/quantization/scalar_quantization.go
@@ -349,6 +349,9 @@ func (bq *BinaryQuantizer) SearchBinary(query []byte, database [][]byte, topK in
 	if k > len(results) {
 		k = len(results)
 	}
+	if k < 0 {
+		k = 0
+	}
 	
 	indices := make([]int, k)
 	distances := make([]int, k)
-- 
2.43.0


From 6d8c8773cdb6a51042ebdea6940a10afe19d4093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:27 +0000
Subject: [PATCH 078/118] fix: NewProductQuantizer refuses sizes that are not
 positive

---
 pkg/quantization/product_quantization.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/quantization/product_quantization.go b/pkg/quantization/product_quantization.go
index 4020a72..995bfbc 100644
--- a/pkg/quantization/product_quantization.go
+++ b/pkg/quantization/product_quantization.go
@@ -23,6 +23,10 @@ type ProductQuantizer struct {
 
 // NewProductQuantizer creates a new PQ instance
 func NewProductQuantizer(dimension, numSubspaces, numCentroids int) (*ProductQuantizer, error) {
+	if dimension <= 0 || numSubspaces <= 0 || numCentroids <= 0 {
+		return nil, errors.New("dimension, numSubspaces and numCentroids must be positive")
+	}
+
 	if dimension%numSubspaces != 0 {
 		return nil, fmt.Errorf("dimension %d must be divisible by numSubspaces %d", dimension, numSubspaces)
 	}
-- 
2.43.0


From c40a599c040f1e2cef5b41a4a7cf580ddc411589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:31 +0000
Subject: [PATCH 079/118] fix: product quantizer training refuses vectors of
 another dimension

---
 pkg/quantization/product_quantization.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/quantization/product_quantization.go b/pkg/quantization/product_quantization.go
index 995bfbc..69254bd 100644
--- a/pkg/quantization/product_quantization.go
+++ b/pkg/quantization/product_quantization.go
@@ -50,6 +50,12 @@ func (pq *ProductQuantizer) Train(vectors [][]float32) error {
 		return fmt.Errorf("need at least %d vectors for training, got %d", pq.K*pq.M, len(vectors))
 	}
 	
+	for _, vec := range vectors {
+		if len(vec) != pq.D {
+			return fmt.Errorf("vector dimension %d doesn't match quantizer dimension %d", len(vec), pq.D)
+		}
+	}
+
 	pq.TrainSize = len(vectors)
 	
 	// Train each subspace independently
-- 
2.43.0


From 40dd8b823477d8738021de27fb0baa9d7e6fb8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:35 +0000
Subject: [PATCH 080/118] fix: ComputeDistance refuses codes and queries that
 do not fit the quantizer

---
 pkg/quantization/product_quantization.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pkg/quantization/product_quantization.go b/pkg/quantization/product_quantization.go
index 69254bd..62ee7e6 100644
--- a/pkg/quantization/product_quantization.go
+++ b/pkg/quantization/product_quantization.go
@@ -153,6 +153,13 @@ func (pq *ProductQuantizer) ComputeDistance(codes []byte, query []float32) (floa
 		return 0, errors.New("quantizer not trained")
 	}
 	
+	if len(query) != pq.D {
+		return 0, fmt.Errorf("vector dimension %d doesn't match quantizer dimension %d", len(query), pq.D)
+	}
+	if !pq.validCodes(codes) {
+		return 0, fmt.Errorf("invalid codes for %d subspaces of %d centroids", pq.M, pq.K)
+	}
+
 	// Precompute distance table
 	distTable := pq.computeDistanceTable(query)
 	
@@ -165,6 +172,19 @@ func (pq *ProductQuantizer) ComputeDistance(codes []byte, query []float32) (floa
 	return totalDist, nil
 }
 
+// validCodes tells whether codes names a centroid of each subspace
+func (pq *ProductQuantizer) validCodes(codes []byte) bool {
+	if len(codes) != pq.M {
+		return false
+	}
+	for _, code := range codes {
+		if int(code) >= pq.K {
+			return false
+		}
+	}
+	return true
+}
+
 // computeDistanceTable precomputes distances between query and all centroids
 func (pq *ProductQuantizer) computeDistanceTable(query []float32) [][]float32 {
 	table := make([][]float32, pq.M)
-- 
2.43.0


From dfed59b1ecd3e54fcf842228ed1017ffdf939f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:39 +0000
Subject: [PATCH 081/118] fix: SearchPQ does not panic on a query of another
 dimension or a negative number of results

---
 pkg/quantization/product_quantization.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/quantization/product_quantization.go b/pkg/quantization/product_quantization.go
index 62ee7e6..e25a1ea 100644
--- a/pkg/quantization/product_quantization.go
+++ b/pkg/quantization/product_quantization.go
@@ -205,7 +205,7 @@ func (pq *ProductQuantizer) computeDistanceTable(query []float32) [][]float32 {
 
 // SearchPQ performs approximate nearest neighbor search on PQ-compressed vectors
 func (pq *ProductQuantizer) SearchPQ(query []float32, codes [][]byte, topK int) ([]int, []float32) {
-	if !pq.Trained || len(codes) == 0 {
+	if !pq.Trained || len(codes) == 0 || len(query) != pq.D {
 		return nil, nil
 	}
 	
@@ -237,6 +237,9 @@ func (pq *ProductQuantizer) SearchPQ(query []float32, codes [][]byte, topK int)
 	if k > len(results) {
 		k = len(results)
 	}
+	if k < 0 {
+		k = 0
+	}
 	
 	indices := make([]int, k)
 	distances := make([]float32, k)
-- 
2.43.0


From f065643d5f61fa557994be698f6fd00bcc1a2616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:43 +0000
Subject: [PATCH 082/118] fix: DeserializeCodebooks refuses data its header
 does not describe

---
 pkg/quantization/product_quantization.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/quantization/product_quantization.go b/pkg/quantization/product_quantization.go
index e25a1ea..c0632d3 100644
--- a/pkg/quantization/product_quantization.go
+++ b/pkg/quantization/product_quantization.go
@@ -303,14 +303,22 @@ func (pq *ProductQuantizer) DeserializeCodebooks(data []byte) error {
 	offset := 0
 	
 	// Read header
-	pq.M = int(binary.LittleEndian.Uint32(data[offset:]))
+	m := int(binary.LittleEndian.Uint32(data[offset:]))
 	offset += 4
-	pq.K = int(binary.LittleEndian.Uint32(data[offset:]))
+	k := int(binary.LittleEndian.Uint32(data[offset:]))
 	offset += 4
-	pq.D = int(binary.LittleEndian.Uint32(data[offset:]))
+	dim := int(binary.LittleEndian.Uint32(data[offset:]))
 	offset += 4
-	pq.SubDim = int(binary.LittleEndian.Uint32(data[offset:]))
+	subDim := int(binary.LittleEndian.Uint32(data[offset:]))
 	offset += 4
+
+	// The header must describe the data that follows it
+	floats := (len(data) - offset) / 4
+	if m <= 0 || k <= 0 || k > 256 || dim <= 0 || m > dim || dim%m != 0 || dim/m != subDim ||
+		dim > floats || (len(data)-offset)%4 != 0 || dim*k != floats {
+		return errors.New("invalid codebook data")
+	}
+	pq.M, pq.K, pq.D, pq.SubDim = m, k, dim, subDim
 	
 	// Initialize codebooks
 	pq.Codebooks = make([][][]float32, pq.M)
-- 
2.43.0


From 8221ea1ee5dc6dc750553ff728a5910f08448b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:27 +0000
Subject: [PATCH 083/118] fix: InsertTextBatch refuses an embedder's answer
 with too few or too many vectors

---
 pkg/cortexdb/cortexdb.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/cortexdb/cortexdb.go b/pkg/cortexdb/cortexdb.go
index 1c4d761..d0244c2 100644
--- a/pkg/cortexdb/cortexdb.go
+++ b/pkg/cortexdb/cortexdb.go
@@ -331,6 +331,10 @@ func (db *DB) InsertTextBatch(ctx context.Context, texts map[string]string, meta
 		return fmt.Errorf("%w: %v", ErrEmbeddingFailed, err)
 	}
 
+	if len(vectors) != len(textList) {
+		return fmt.Errorf("%w: got %d vectors for %d texts", ErrEmbeddingFailed, len(vectors), len(textList))
+	}
+
 	embeddings := make([]*core.Embedding, len(ids))
 	for i, id := range ids {
 		embeddings[i] = &core.Embedding{
-- 
2.43.0


From 8c542b1517a8c2cb6e83002009abba65bd2c63f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:46 +0000
Subject: [PATCH 084/118] fix: every search brings its query to the store's
 dimension or refuses it

---
 pkg/core/advanced_filter.go |  5 +++++
 pkg/core/advanced_search.go | 23 +++++++++++++++++++++++
 pkg/core/faceted_search.go  | 10 ++++++++++
 pkg/core/store_search.go    | 19 +++++++++++++++++++
 pkg/core/streaming.go       |  9 +++------
 5 files changed, 60 insertions(+), 6 deletions(-)

diff --git a/pkg/core/advanced_filter.go b/pkg/core/advanced_filter.go
index 757b18e..6574be7 100644
--- a/pkg/core/advanced_filter.go
+++ b/pkg/core/advanced_filter.go
@@ -575,6 +575,11 @@ func (s *SQLiteStore) SearchWithAdvancedFilter(ctx context.Context, query []floa
 	if s.closed {
 		return nil, wrapError("advanced_search", ErrStoreClosed)
 	}
+
+	query, err := s.adaptQuery(query)
+	if err != nil {
+		return nil, wrapError("advanced_search", err)
+	}
 	
 	// Build SQL query with pre-filter
 	var whereClause string
diff --git a/pkg/core/advanced_search.go b/pkg/core/advanced_search.go
index bf87d25..b8fe2f9 100644
--- a/pkg/core/advanced_search.go
+++ b/pkg/core/advanced_search.go
@@ -27,6 +27,11 @@ func (s *SQLiteStore) SearchWithACL(ctx context.Context, query []float32, acl []
 		return nil, wrapError("search_acl", ErrStoreClosed)
 	}
 
+	query, err := s.adaptQuery(query)
+	if err != nil {
+		return nil, wrapError("search_acl", err)
+	}
+
 	// If ACL is empty, only return public documents (no acl)
 	// If ACL is provided, return public OR matching acl
 	// An embedding without an acl of its own inherits its document's
@@ -265,6 +270,24 @@ func (s *SQLiteStore) SearchWithNegatives(ctx context.Context, opts NegativeSear
 	if s.closed {
 		return nil, wrapError("search_negatives", ErrStoreClosed)
 	}
+
+	adaptAll := func(vectors [][]float32) ([][]float32, error) {
+		adapted := make([][]float32, len(vectors))
+		for i, vec := range vectors {
+			var err error
+			if adapted[i], err = s.adaptQuery(vec); err != nil {
+				return nil, wrapError("search_negatives", err)
+			}
+		}
+		return adapted, nil
+	}
+	var err error
+	if opts.PositiveVectors, err = adaptAll(opts.PositiveVectors); err != nil {
+		return nil, err
+	}
+	if opts.NegativeVectors, err = adaptAll(opts.NegativeVectors); err != nil {
+		return nil, err
+	}
 	
 	// Get all candidates
 	candidates, err := s.fetchCandidates(ctx, opts.SearchOptions)
diff --git a/pkg/core/faceted_search.go b/pkg/core/faceted_search.go
index d3ae6bc..f5347cd 100644
--- a/pkg/core/faceted_search.go
+++ b/pkg/core/faceted_search.go
@@ -81,6 +81,11 @@ func (s *SQLiteStore) SearchWithFacets(ctx context.Context, query []float32, opt
 	if s.closed {
 		return nil, nil, wrapError("search_faceted", ErrStoreClosed)
 	}
+
+	query, err := s.adaptQuery(query)
+	if err != nil {
+		return nil, nil, wrapError("search_faceted", err)
+	}
 	
 	// Build faceted query
 	whereClause, args := s.buildFacetedWhereClause(opts.Facets)
@@ -295,6 +300,11 @@ func (s *SQLiteStore) RangeSearch(ctx context.Context, query []float32, radius f
 	if s.closed {
 		return nil, wrapError("range_search", ErrStoreClosed)
 	}
+
+	query, err := s.adaptQuery(query)
+	if err != nil {
+		return nil, wrapError("range_search", err)
+	}
 	
 	// Validate radius
 	if radius <= 0 {
diff --git a/pkg/core/store_search.go b/pkg/core/store_search.go
index 6d3216a..c8454ae 100644
--- a/pkg/core/store_search.go
+++ b/pkg/core/store_search.go
@@ -318,6 +318,25 @@ func (s *SQLiteStore) fetchEmbeddingsByIDs(ctx context.Context, ids []string) ([
 	return candidates, rows.Err()
 }
 
+// adaptQuery brings a query vector to the store's dimension as its policy says, or refuses
+// it; the caller holds s.mu
+func (s *SQLiteStore) adaptQuery(query []float32) ([]float32, error) {
+	if len(query) == 0 {
+		return query, nil // nothing to compare with: the search only filters
+	}
+	if storeDim := s.config.VectorDim; storeDim > 0 && len(query) != storeDim {
+		adapted, err := s.adapter.AdaptVector(query, len(query), storeDim)
+		if err != nil {
+			return nil, fmt.Errorf("query adaptation failed: %w", err)
+		}
+		query = adapted
+	}
+	if err := encoding.ValidateVector(query); err != nil {
+		return nil, fmt.Errorf("invalid query vector: %w", err)
+	}
+	return query, nil
+}
+
 // validateSearchInput validates search input parameters
 func (s *SQLiteStore) validateSearchInput(query []float32, opts SearchOptions) error {
 	if err := encoding.ValidateVector(query); err != nil {
diff --git a/pkg/core/streaming.go b/pkg/core/streaming.go
index 5b5e3be..b2764b6 100644
--- a/pkg/core/streaming.go
+++ b/pkg/core/streaming.go
@@ -43,12 +43,9 @@ func (s *SQLiteStore) StreamSearch(ctx context.Context, query []float32, opts St
 	}
 	
 	// Auto-adapt query vector if dimensions don't match
-	if storeDim := s.config.VectorDim; storeDim > 0 && len(query) != storeDim {
-		adapted, err := s.adapter.AdaptVector(query, len(query), storeDim)
-		if err != nil {
-			return nil, wrapError("stream_search", fmt.Errorf("query adaptation failed: %w", err))
-		}
-		query = adapted
+	query, err := s.adaptQuery(query)
+	if err != nil {
+		return nil, wrapError("stream_search", err)
 	}
 
 	// Create result channel
-- 
2.43.0


From 77291b3d2d69b51960d2ad458a02e8cd9140c452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:40 +0000
Subject: [PATCH 085/118] fix: hybrid graph search fills its limit with nodes
 of the wanted types

---
 pkg/graph/graph_hybrid.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/graph/graph_hybrid.go b/pkg/graph/graph_hybrid.go
index 1ef21d2..99a4e59 100644
--- a/pkg/graph/graph_hybrid.go
+++ b/pkg/graph/graph_hybrid.go
@@ -337,7 +337,8 @@ func (g *GraphStore) vectorCandidates(ctx context.Context, query *HybridQuery) (
 			}
 			nodes = append(nodes, node)
 		}
-		if len(nodes) > 0 {
+		// Nodes of other types may have crowded out the wanted ones
+		if len(nodes) >= query.TopK {
 			return nodes, nil
 		}
 	}
-- 
2.43.0


From a609c1c4ed8212d8ad443ff3d94cb3ace628970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:04 +0000
Subject: [PATCH 086/118] fix: filter expressions take quoted values literally

---
 pkg/core/advanced_filter.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pkg/core/advanced_filter.go b/pkg/core/advanced_filter.go
index 6574be7..507fbf3 100644
--- a/pkg/core/advanced_filter.go
+++ b/pkg/core/advanced_filter.go
@@ -52,7 +52,7 @@ func ParseFilterString(filterStr string) (*FilterExpression, error) {
 
 	// OR binds weaker than AND
 	for _, op := range []FilterOperator{FilterOR, FilterAND} {
-		parts := splitTopLevel(filterStr, string(op))
+		parts := splitTopLevel(filterStr, " "+string(op)+" ")
 		if len(parts) < 2 {
 			continue
 		}
@@ -76,10 +76,9 @@ func ParseFilterString(filterStr string) (*FilterExpression, error) {
 	return parseComparison(filterStr)
 }
 
-// splitTopLevel splits expr at every " op " outside quotes and parentheses;
+// splitTopLevel splits expr at every sep outside quotes and parentheses;
 // the AND of a "BETWEEN x AND y" does not separate expressions.
-func splitTopLevel(expr, op string) []string {
-	sep := " " + op + " "
+func splitTopLevel(expr, sep string) []string {
 	var parts []string
 	var quote byte
 	depth, start := 0, 0
@@ -98,14 +97,17 @@ func splitTopLevel(expr, op string) []string {
 			depth--
 		case depth == 0 && strings.HasPrefix(expr[i:], sep):
 			part := expr[start:i]
-			if op == string(FilterAND) {
-				if idx := strings.LastIndex(part, " BETWEEN "); idx >= 0 && !strings.Contains(part[idx:], " AND ") {
+			if sep == " AND " {
+				if between := splitTopLevel(part, " BETWEEN "); len(between) > 1 && len(splitTopLevel(between[len(between)-1], sep)) == 1 {
 					continue
 				}
 			}
 			parts = append(parts, part)
 			start = i + len(sep)
-			i = start - 2 // the separator's trailing space may start the next one
+			i = start - 1
+			if strings.HasSuffix(sep, " ") {
+				i-- // the separator's trailing space may start the next one
+			}
 		}
 	}
 	return append(parts, expr[start:])
@@ -113,14 +115,13 @@ func splitTopLevel(expr, op string) []string {
 
 func parseComparison(expr string) (*FilterExpression, error) {
 	// Check for BETWEEN
-	if strings.Contains(expr, " BETWEEN ") {
-		parts := strings.Split(expr, " BETWEEN ")
+	if parts := splitTopLevel(expr, " BETWEEN "); len(parts) > 1 {
 		if len(parts) != 2 {
 			return nil, fmt.Errorf("invalid BETWEEN expression: %s", expr)
 		}
 		
 		field := strings.TrimSpace(parts[0])
-		rangeParts := strings.Split(parts[1], " AND ")
+		rangeParts := splitTopLevel(parts[1], " AND ")
 		if len(rangeParts) != 2 {
 			return nil, fmt.Errorf("invalid BETWEEN range: %s", parts[1])
 		}
@@ -142,8 +143,7 @@ func parseComparison(expr string) (*FilterExpression, error) {
 	}
 	
 	// Check for IN
-	if strings.Contains(expr, " IN ") {
-		parts := strings.Split(expr, " IN ")
+	if parts := splitTopLevel(expr, " IN "); len(parts) > 1 {
 		if len(parts) != 2 {
 			return nil, fmt.Errorf("invalid IN expression: %s", expr)
 		}
@@ -157,7 +157,7 @@ func parseComparison(expr string) (*FilterExpression, error) {
 		}
 		
 		valueStr = valueStr[1 : len(valueStr)-1]
-		valueParts := strings.Split(valueStr, ",")
+		valueParts := splitTopLevel(valueStr, ",")
 		values := make([]interface{}, len(valueParts))
 		for i, v := range valueParts {
 			val, err := parseValue(strings.TrimSpace(v))
-- 
2.43.0


From ba4807d85c7c49020282e2364a940e187551b26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:47 +0000
Subject: [PATCH 087/118] fix: metadata filters find large and small numbers
 however they are written

---
 pkg/core/advanced_filter.go | 32 ++++++++++++++++++++++++++------
 pkg/core/faceted_search.go  | 11 +++--------
 pkg/core/store_search.go    |  7 ++++++-
 3 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/pkg/core/advanced_filter.go b/pkg/core/advanced_filter.go
index 507fbf3..d413a62 100644
--- a/pkg/core/advanced_filter.go
+++ b/pkg/core/advanced_filter.go
@@ -286,6 +286,13 @@ func BuildSQLFromFilter(filter *FilterExpression, paramIndex *int) (string, []in
 		return "NOT COALESCE((" + clause + "), 0)", childParams
 
 	case FilterEQ, FilterNE:
+		if texts := metadataTexts(filter.Value); len(texts) > 1 {
+			in := &FilterExpression{Operator: FilterIN, Field: filter.Field, Value: texts}
+			if filter.Operator == FilterNE {
+				in = &FilterExpression{Operator: FilterNOT, Children: []*FilterExpression{in}}
+			}
+			return BuildSQLFromFilter(in, paramIndex)
+		}
 		op := "="
 		if filter.Operator == FilterNE {
 			op = "IS NOT" // a missing field differs from every value
@@ -309,14 +316,15 @@ func BuildSQLFromFilter(filter *FilterExpression, paramIndex *int) (string, []in
 		}, paramIndex)
 
 	case FilterIN:
-		values := filter.Value.([]interface{})
-		*paramIndex += len(values) + 1
 		params = append(params, metadataPath(filter.Field))
-		placeholders := make([]string, len(values))
-		for i, v := range values {
-			placeholders[i] = "?"
-			params = append(params, metadataText(v))
+		var placeholders []string
+		for _, v := range filter.Value.([]interface{}) {
+			for _, text := range metadataTexts(v) {
+				placeholders = append(placeholders, "?")
+				params = append(params, text)
+			}
 		}
+		*paramIndex += len(params)
 		return fmt.Sprintf("%s IN (%s)", metadataValueSQL, strings.Join(placeholders, ",")), params
 
 	case FilterLIKE:
@@ -345,6 +353,18 @@ func metadataText(value interface{}) interface{} {
 	return fmt.Sprint(value)
 }
 
+// metadataTexts returns the texts that stand for a filter value in metadata: a large or
+// small number may have been written out or with an exponent.
+func metadataTexts(value interface{}) []interface{} {
+	texts := []interface{}{metadataText(value)}
+	if number, ok := value.(float64); ok {
+		if plain := strconv.FormatFloat(number, 'f', -1, 64); plain != texts[0] {
+			texts = append(texts, plain)
+		}
+	}
+	return texts
+}
+
 // metadataOperand returns how to read a metadata field, and the operand to compare it
 // with: as numbers if the operand is one, as text otherwise.
 func metadataOperand(value interface{}) (string, interface{}) {
diff --git a/pkg/core/faceted_search.go b/pkg/core/faceted_search.go
index f5347cd..a83be12 100644
--- a/pkg/core/faceted_search.go
+++ b/pkg/core/faceted_search.go
@@ -141,18 +141,13 @@ func (s *SQLiteStore) buildFilterCondition(field string, filter FacetFilter) (st
 	switch filter.Type {
 	case FilterTypeEquals:
 		if len(filter.Values) > 0 {
-			return metadataValueSQL + " = ?", []interface{}{metadataPath(field), metadataText(filter.Values[0])}
+			return s.buildFilterCondition(field, FacetFilter{Type: FilterTypeIn, Values: filter.Values[:1]})
 		}
 		
 	case FilterTypeIn:
 		if len(filter.Values) > 0 {
-			placeholders := make([]string, len(filter.Values))
-			args := []interface{}{metadataPath(field)}
-			for i := range placeholders {
-				placeholders[i] = "?"
-				args = append(args, metadataText(filter.Values[i]))
-			}
-			return fmt.Sprintf("%s IN (%s)", metadataValueSQL, strings.Join(placeholders, ",")), args
+			paramIndex := 0
+			return BuildSQLFromFilter(&FilterExpression{Operator: FilterIN, Field: field, Value: filter.Values}, &paramIndex)
 		}
 		
 	case FilterTypeRange:
diff --git a/pkg/core/store_search.go b/pkg/core/store_search.go
index c8454ae..a0bd4a6 100644
--- a/pkg/core/store_search.go
+++ b/pkg/core/store_search.go
@@ -608,7 +608,12 @@ func (s *SQLiteStore) compareMetadataValues(actual, expected interface{}) bool {
 		}
 
 		if expectedFloat, ok := expected.(float64); ok {
-			return actualStr == fmt.Sprintf("%g", expectedFloat)
+			for _, text := range metadataTexts(expectedFloat) {
+				if actualStr == text {
+					return true
+				}
+			}
+			return false
 		}
 
 		// Handle boolean comparison by converting expected value to string
-- 
2.43.0


From 714d6249261e674950c287570ab2fbd96443f3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:28 +0000
Subject: [PATCH 088/118] fix: a filter value that is a lone quote does not
 panic

---
 pkg/core/advanced_filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/core/advanced_filter.go b/pkg/core/advanced_filter.go
index d413a62..e65cc14 100644
--- a/pkg/core/advanced_filter.go
+++ b/pkg/core/advanced_filter.go
@@ -220,10 +220,10 @@ func parseValue(str string) (interface{}, error) {
 	str = strings.TrimSpace(str)
 	
 	// String with quotes
-	if strings.HasPrefix(str, "'") && strings.HasSuffix(str, "'") {
+	if len(str) > 1 && strings.HasPrefix(str, "'") && strings.HasSuffix(str, "'") {
 		return str[1 : len(str)-1], nil
 	}
-	if strings.HasPrefix(str, "\"") && strings.HasSuffix(str, "\"") {
+	if len(str) > 1 && strings.HasPrefix(str, "\"") && strings.HasSuffix(str, "\"") {
 		return str[1 : len(str)-1], nil
 	}
 	
-- 
2.43.0


From 0ba21baaa4c5aa3618ed327b0f4a1b2fbb9827b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:14 +0000
Subject: [PATCH 089/118] fix: a memory lives for its whole time to live,
 however long

---
 pkg/cortexdb/memory_api.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/cortexdb/memory_api.go b/pkg/cortexdb/memory_api.go
index 79a6939..413cc24 100644
--- a/pkg/cortexdb/memory_api.go
+++ b/pkg/cortexdb/memory_api.go
@@ -501,7 +501,11 @@ func buildMemoryMetadata(scope, namespace string, metadata map[string]any, impor
 	out["importance"] = importance
 	out["ttl_seconds"] = ttlSeconds
 	if ttlSeconds > 0 {
-		out["expires_at"] = time.Now().UTC().Add(time.Duration(ttlSeconds) * time.Second).Format(time.RFC3339)
+		ttl := time.Duration(ttlSeconds)
+		if ttl > math.MaxInt64/time.Second {
+			ttl = math.MaxInt64 / time.Second
+		}
+		out["expires_at"] = time.Now().UTC().Add(ttl * time.Second).Format(time.RFC3339Nano)
 	} else {
 		delete(out, "expires_at")
 	}
-- 
2.43.0


From 395d3d238d3f0d6edbe62dbd5a2275a3d09e0e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:47 +0000
Subject: [PATCH 090/118] fix: HNSW search finds live vectors behind deleted
 ones

---
 pkg/index/hnsw.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pkg/index/hnsw.go b/pkg/index/hnsw.go
index 7cedcfc..99672b3 100644
--- a/pkg/index/hnsw.go
+++ b/pkg/index/hnsw.go
@@ -526,13 +526,22 @@ func (h *HNSW) Search(query []float32, k int, ef int) ([]string, []float32) {
 	}
 	
 	results := make([]result, 0, len(candidates))
-	for _, candidate := range candidates {
-		if node, exists := h.Nodes[candidate]; exists && !node.Deleted {
-			results = append(results, result{
-				id:   candidate,
-				dist: h.calculateDistance(query, node),
-			})
+	for {
+		for _, candidate := range candidates {
+			if node, exists := h.Nodes[candidate]; exists && !node.Deleted {
+				results = append(results, result{
+					id:   candidate,
+					dist: h.calculateDistance(query, node),
+				})
+			}
+		}
+		if len(results) >= k || len(candidates) < ef {
+			break
 		}
+		// Deleted nodes crowd out the live ones: look further
+		ef *= 2
+		results = results[:0]
+		candidates = h.searchLayer(query, currNearest, ef, 0)
 	}
 	
 	// Sort by distance
-- 
2.43.0


From 6bad6f5d7789a487c60b5d823ad5c8279e020ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:09 +0000
Subject: [PATCH 091/118] fix: saving the index periodically does not race with
 writes and ends with the store

---
 pkg/core/store_close.go | 6 ++++++
 pkg/core/store_index.go | 6 +++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/core/store_close.go b/pkg/core/store_close.go
index 86ddcc2..5572ff6 100644
--- a/pkg/core/store_close.go
+++ b/pkg/core/store_close.go
@@ -26,6 +26,12 @@ func (s *SQLiteStore) Close() error {
 
 	s.closed = true
 
+	s.saveMu.Lock()
+	if s.saveTimer != nil {
+		s.saveTimer.Stop()
+	}
+	s.saveMu.Unlock()
+
 	if s.db != nil {
 		if err := s.db.Close(); err != nil {
 			return err
diff --git a/pkg/core/store_index.go b/pkg/core/store_index.go
index c4de8c2..9b4fe33 100644
--- a/pkg/core/store_index.go
+++ b/pkg/core/store_index.go
@@ -630,11 +630,11 @@ func (s *SQLiteStore) startAutoSave() {
 
 // autoSaveLoop runs the periodic save loop
 func (s *SQLiteStore) autoSaveLoop() {
+	// Hold the lock: the indexes may not be replaced, nor the store closed, meanwhile
 	s.mu.RLock()
-	closed := s.closed
-	s.mu.RUnlock()
+	defer s.mu.RUnlock()
 
-	if closed {
+	if s.closed {
 		return
 	}
 
-- 
2.43.0


From feca1c69ebbb5e249711d5c83986488815d72354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:39 +0000
Subject: [PATCH 092/118] fix: an index snapshot lacking the last stored
 vectors is not taken for current

---
 pkg/core/store_index.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/core/store_index.go b/pkg/core/store_index.go
index 9b4fe33..fe5a2e5 100644
--- a/pkg/core/store_index.go
+++ b/pkg/core/store_index.go
@@ -236,12 +236,11 @@ func (s *SQLiteStore) initIVFIndex(ctx context.Context) error {
 func (s *SQLiteStore) hnswMatchesStore(ctx context.Context) (bool, error) {
 	live := s.hnswIndex.Size()
 	seen := 0
-	err := s.forEachVector(ctx, func(id string, vector []float32) bool {
+	matches := func(id string, vector []float32) bool {
 		node, ok := s.hnswIndex.Nodes[id]
 		if !ok || node.Deleted {
 			return false
 		}
-		seen++
 		if node.Vector != nil {
 			return slices.Equal(node.Vector, vector)
 		}
@@ -250,8 +249,14 @@ func (s *SQLiteStore) hnswMatchesStore(ctx context.Context) (bool, error) {
 		}
 		encoded, err := s.quantizer.Encode(vector)
 		return err == nil && bytes.Equal(encoded, node.Quantized)
+	}
+	current := true
+	err := s.forEachVector(ctx, func(id string, vector []float32) bool {
+		seen++
+		current = matches(id, vector)
+		return current
 	})
-	return seen == live, err
+	return current && seen == live, err
 }
 
 // refillIVFIndex replaces the vectors of the IVF index by the stored ones
-- 
2.43.0


From a407ead4ed9868aa402268e7c891a5a2c2fba5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:08 +0000
Subject: [PATCH 093/118] fix: a refused first write does not fix the store's
 dimension

---
 pkg/core/multi_vector.go |  4 ++++
 pkg/core/store.go        |  1 +
 pkg/core/store_crud.go   | 52 ++++++++++++++++++++++++++++++++++++++++
 3 files changed, 57 insertions(+)

diff --git a/pkg/core/multi_vector.go b/pkg/core/multi_vector.go
index bd45b4b..baf3393 100644
--- a/pkg/core/multi_vector.go
+++ b/pkg/core/multi_vector.go
@@ -51,6 +51,10 @@ const (
 
 // UpsertMultiVector inserts or updates a multi-vector entity
 func (s *SQLiteStore) UpsertMultiVector(ctx context.Context, entity *MultiVectorEntity) error {
+	return s.settlingDimension(ctx, func() error { return s.upsertMultiVector(ctx, entity) })
+}
+
+func (s *SQLiteStore) upsertMultiVector(ctx context.Context, entity *MultiVectorEntity) error {
 	// Validate the vectors and adapt them to the dimension of the store
 	embs := make([]*Embedding, 0, len(entity.Vectors))
 	vectors := make(map[string][]float32, len(entity.Vectors))
diff --git a/pkg/core/store.go b/pkg/core/store.go
index b250a3f..2d78d0c 100644
--- a/pkg/core/store.go
+++ b/pkg/core/store.go
@@ -26,6 +26,7 @@ type SQLiteStore struct {
 	hnswIndex      *index.HNSW            // HNSW index for fast search
 	ivfIndex       *index.IVFIndex        // IVF index for partitioned search
 	quantizer      index.Quantizer        // Vector quantizer
+	dimMu          sync.RWMutex           // Held by writes; exclusive while a detected dimension is dropped
 	adapter        *DimensionAdapter      // Dimension adaptation handler
 	textSimilarity TextSimilarity         // Text similarity calculator
 	logger         Logger                 // Logger instance
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index f7dabb1..1b4cae5 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -13,6 +13,10 @@ import (
 
 // Upsert inserts or updates a single embedding
 func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
+	return s.settlingDimension(ctx, func() error { return s.upsert(ctx, emb) })
+}
+
+func (s *SQLiteStore) upsert(ctx context.Context, emb *Embedding) error {
 	s.mu.RLock()
 	currentDim, closed := s.config.VectorDim, s.closed
 	s.mu.RUnlock()
@@ -142,6 +146,50 @@ func (s *SQLiteStore) detectDimension(dim int) int {
 	return s.config.VectorDim
 }
 
+// settlingDimension runs a write that may fix the store's dimension. A write that is
+// refused stores nothing, so the dimension it would have fixed is undecided again.
+func (s *SQLiteStore) settlingDimension(ctx context.Context, write func() error) error {
+	undecided := false
+	err := func() error {
+		s.dimMu.RLock()
+		defer s.dimMu.RUnlock()
+
+		s.mu.RLock()
+		undecided = s.config.VectorDim == 0
+		s.mu.RUnlock()
+
+		return write()
+	}()
+	if err != nil && undecided {
+		s.forgetDimension(context.WithoutCancel(ctx))
+	}
+	return err
+}
+
+// forgetDimension drops a detected dimension that no stored vector has
+func (s *SQLiteStore) forgetDimension(ctx context.Context) {
+	s.dimMu.Lock()
+	defer s.dimMu.Unlock()
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	if s.closed || s.config.VectorDim == 0 {
+		return
+	}
+
+	var stored bool
+	err := s.db.QueryRowContext(ctx, "SELECT EXISTS(SELECT 1 FROM embeddings)").Scan(&stored)
+	if err != nil || stored {
+		return
+	}
+
+	s.config.VectorDim = 0
+	s.quantizer = nil
+	if s.hnswIndex != nil {
+		s.hnswIndex.SetQuantizer(nil)
+	}
+}
+
 // autoTrainQuantizer trains a quantizer that is still untrained, on the batch being
 // written or else on the stored vectors. Training changes the quantizer that searches
 // and writes use under the read lock, so it takes the write lock.
@@ -187,6 +235,10 @@ func (s *SQLiteStore) quantizerTrained() bool {
 
 // UpsertBatch inserts or updates multiple embeddings in a transaction
 func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error {
+	return s.settlingDimension(ctx, func() error { return s.upsertBatch(ctx, embs) })
+}
+
+func (s *SQLiteStore) upsertBatch(ctx context.Context, embs []*Embedding) error {
 	if err := s.prepareBatchVectors(embs); err != nil {
 		return wrapError("upsert_batch", err)
 	}
-- 
2.43.0


From 809b6e18401bd0677c45bb883cb5861e0e3f10ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:18 +0000
Subject: [PATCH 094/118] fix: a failed TrainIndex leaves the trained index as
 it was

---
 pkg/core/store_index.go | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/pkg/core/store_index.go b/pkg/core/store_index.go
index fe5a2e5..d9d16e9 100644
--- a/pkg/core/store_index.go
+++ b/pkg/core/store_index.go
@@ -375,18 +375,14 @@ func (s *SQLiteStore) TrainIndex(ctx context.Context, numCentroids int) error {
 		}
 	}
 
-	if s.ivfIndex == nil {
-		if s.config.VectorDim <= 0 {
-			return wrapError("train_index", fmt.Errorf("vector dimension not set"))
-		}
-		s.ivfIndex = index.NewIVFIndex(s.config.VectorDim, numCentroids)
-	} else {
-		// Re-initialize to change number of centroids if needed, or just retrain
-		if s.ivfIndex.NCentroids != numCentroids {
-			s.ivfIndex = index.NewIVFIndex(s.config.VectorDim, numCentroids)
-		} else {
-			s.ivfIndex.Clear() // Clear existing data to re-train
-		}
+	if s.ivfIndex == nil && s.config.VectorDim <= 0 {
+		return wrapError("train_index", fmt.Errorf("vector dimension not set"))
+	}
+
+	// Train a new index: the present one stays in use if that fails
+	ivfIndex := index.NewIVFIndex(s.config.VectorDim, numCentroids)
+	if s.ivfIndex != nil && s.ivfIndex.NCentroids == numCentroids {
+		ivfIndex.NProbe = s.ivfIndex.NProbe
 	}
 
 	s.logger.Info("training IVF index", "nCentroids", numCentroids)
@@ -421,12 +417,16 @@ func (s *SQLiteStore) TrainIndex(ctx context.Context, numCentroids int) error {
 		vectors = append(vectors, vec)
 	}
 
+	if err := rows.Err(); err != nil {
+		return wrapError("train_index", fmt.Errorf("failed to fetch vectors: %w", err))
+	}
+
 	if len(vectors) == 0 {
 		return wrapError("train_index", fmt.Errorf("no vectors found for training"))
 	}
 
 	// Train the index
-	if err := s.ivfIndex.Train(vectors); err != nil {
+	if err := ivfIndex.Train(vectors); err != nil {
 		return wrapError("train_index", err)
 	}
 
@@ -435,7 +435,7 @@ func (s *SQLiteStore) TrainIndex(ctx context.Context, numCentroids int) error {
 	// Add all vectors to the index
 	var errorCount int
 	for i, vec := range vectors {
-		if err := s.ivfIndex.Add(ids[i], vec); err != nil {
+		if err := ivfIndex.Add(ids[i], vec); err != nil {
 			s.logger.Warn("failed to add vector to IVF index", "id", ids[i], "error", err)
 			errorCount++
 		}
@@ -445,6 +445,8 @@ func (s *SQLiteStore) TrainIndex(ctx context.Context, numCentroids int) error {
 		s.logger.Warn("some vectors failed to add to IVF index", "count", errorCount)
 	}
 
+	s.ivfIndex = ivfIndex
+
 	return nil
 }
 
-- 
2.43.0


From d2a97bc5cadfd6d407f00214949ec92cb0ac8f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 095/118] fix: records read by document or type carry their
 collection and access list

---
 pkg/core/store_query.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pkg/core/store_query.go b/pkg/core/store_query.go
index 64d2269..f6691e1 100644
--- a/pkg/core/store_query.go
+++ b/pkg/core/store_query.go
@@ -61,7 +61,15 @@ func (s *SQLiteStore) GetByDocID(ctx context.Context, docID string) ([]*Embeddin
 		return nil, wrapError("get_by_doc_id", fmt.Errorf("doc ID cannot be empty"))
 	}
 
-	query := "SELECT id, vector, content, doc_id, metadata FROM embeddings WHERE doc_id = ? ORDER BY created_at"
+	query := `
+		SELECT
+			e.id, e.vector, e.content, e.doc_id, e.metadata, e.acl, e.created_at,
+			COALESCE(c.name, '') as collection_name
+		FROM embeddings e
+		LEFT JOIN collections c ON e.collection_id = c.id
+		WHERE e.doc_id = ?
+		ORDER BY e.created_at
+	`
 	rows, err := s.db.QueryContext(ctx, query, docID)
 	if err != nil {
 		return nil, wrapError("get_by_doc_id", fmt.Errorf("failed to query embeddings: %w", err))
@@ -195,7 +203,14 @@ func (s *SQLiteStore) GetDocumentsByType(ctx context.Context, docType string) ([
 		return nil, wrapError("get_documents_by_type", fmt.Errorf("doc type cannot be empty"))
 	}
 
-	query := "SELECT id, vector, content, doc_id, metadata FROM embeddings ORDER BY created_at"
+	query := `
+		SELECT
+			e.id, e.vector, e.content, e.doc_id, e.metadata, e.acl, e.created_at,
+			COALESCE(c.name, '') as collection_name
+		FROM embeddings e
+		LEFT JOIN collections c ON e.collection_id = c.id
+		ORDER BY e.created_at
+	`
 	rows, err := s.db.QueryContext(ctx, query)
 	if err != nil {
 		return nil, wrapError("get_documents_by_type", fmt.Errorf("failed to query embeddings: %w", err))
@@ -242,10 +257,8 @@ func (s *SQLiteStore) scanEmbeddingForGet(rows *sql.Rows) (*Embedding, error) {
 
 	var err error
 
-	if len(cols) == 8 { // GetByID format
+	if len(cols) == 8 { // Whole record
 		err = rows.Scan(&id, &vectorBytes, &content, &docID, &metadataJSON, &aclJSON, &createdAt, &collectionName)
-	} else if len(cols) == 5 { // Old format (GetByDocID)
-		err = rows.Scan(&id, &vectorBytes, &content, &docID, &metadataJSON)
 	} else {
 		return nil, fmt.Errorf("unexpected column count: %d", len(cols))
 	}
-- 
2.43.0


From a76927972dc4a26720eaa0922d8c50ebb248568b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:27 +0000
Subject: [PATCH 096/118] fix: collection statistics give the time of the last
 insertion

---
 pkg/core/collections.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/collections.go b/pkg/core/collections.go
index 775254f..c91b86b 100644
--- a/pkg/core/collections.go
+++ b/pkg/core/collections.go
@@ -312,7 +312,7 @@ func (s *SQLiteStore) GetCollectionStats(ctx context.Context, name string) (*Col
 	// Get last inserted timestamp if any embeddings exist
 	if stats.Count > 0 {
 		err = s.db.QueryRowContext(ctx, `
-			SELECT MAX(created_at) FROM embeddings WHERE collection_id = ?
+			SELECT created_at FROM embeddings WHERE collection_id = ? ORDER BY created_at DESC LIMIT 1
 		`, collection.ID).Scan(&stats.LastInsertedAt)
 		if err != nil {
 			// Don't fail for this
-- 
2.43.0


From afe2faabd46897f9f190a1f353d0d9794083a3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:29 +0000
Subject: [PATCH 097/118] fix: concurrent writes of a graph node leave its
 index entry as the node is stored

---
 pkg/graph/graph.go       | 8 ++++++++
 pkg/graph/graph_batch.go | 9 +++++++++
 pkg/graph/graph_hnsw.go  | 3 +++
 3 files changed, 20 insertions(+)

diff --git a/pkg/graph/graph.go b/pkg/graph/graph.go
index e6da873..302598c 100644
--- a/pkg/graph/graph.go
+++ b/pkg/graph/graph.go
@@ -8,6 +8,7 @@ import (
 	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
 	"github.com/liliang-cn/cortexdb/v2/pkg/core"
 	"strings"
+	"sync"
 	"time"
 )
 
@@ -79,6 +80,7 @@ type GraphStore struct {
 	store     *core.SQLiteStore
 	db        *sql.DB
 	hnswIndex *HNSWGraphIndex // HNSW index for fast vector search
+	nodesMu   sync.Mutex      // Orders node writes and their index updates alike
 }
 
 // NewGraphStore creates a new graph store from a SQLite store
@@ -165,6 +167,9 @@ func (g *GraphStore) UpsertNode(ctx context.Context, node *GraphNode) error {
 		updated_at = CURRENT_TIMESTAMP
 	`
 
+	g.nodesMu.Lock()
+	defer g.nodesMu.Unlock()
+
 	_, err = g.db.ExecContext(ctx, query,
 		node.ID,
 		vectorBytes,
@@ -237,6 +242,9 @@ func (g *GraphStore) GetNode(ctx context.Context, nodeID string) (*GraphNode, er
 func (g *GraphStore) DeleteNode(ctx context.Context, nodeID string) error {
 	// Edges are automatically deleted due to CASCADE
 	query := `DELETE FROM graph_nodes WHERE id = ?`
+	g.nodesMu.Lock()
+	defer g.nodesMu.Unlock()
+
 	result, err := g.db.ExecContext(ctx, query, nodeID)
 	if err != nil {
 		return err
diff --git a/pkg/graph/graph_batch.go b/pkg/graph/graph_batch.go
index e4b1461..f50ef67 100644
--- a/pkg/graph/graph_batch.go
+++ b/pkg/graph/graph_batch.go
@@ -36,6 +36,9 @@ func (g *GraphStore) UpsertNodesBatch(ctx context.Context, nodes []*GraphNode) (
 		Errors: make([]error, 0),
 	}
 	
+	g.nodesMu.Lock()
+	defer g.nodesMu.Unlock()
+
 	// Start transaction
 	tx, err := g.db.BeginTx(ctx, nil)
 	if err != nil {
@@ -130,6 +133,9 @@ func (g *GraphStore) DeleteNodesBatch(ctx context.Context, nodeIDs []string) (*B
 		Errors: make([]error, 0),
 	}
 	
+	g.nodesMu.Lock()
+	defer g.nodesMu.Unlock()
+
 	// Start transaction
 	tx, err := g.db.BeginTx(ctx, nil)
 	if err != nil {
@@ -485,6 +491,9 @@ func (g *GraphStore) ExecuteBatch(ctx context.Context, ops *BatchGraphOperation)
 		Errors: make([]error, 0),
 	}
 	
+	g.nodesMu.Lock()
+	defer g.nodesMu.Unlock()
+
 	// Start transaction
 	tx, err := g.db.BeginTx(ctx, nil)
 	if err != nil {
diff --git a/pkg/graph/graph_hnsw.go b/pkg/graph/graph_hnsw.go
index cd9f3d3..0680a3a 100644
--- a/pkg/graph/graph_hnsw.go
+++ b/pkg/graph/graph_hnsw.go
@@ -117,6 +117,9 @@ func (h *SimpleHNSW) Remove(nodeID string) {
 
 // EnableHNSWIndex enables HNSW indexing for the graph store
 func (g *GraphStore) EnableHNSWIndex(dimensions int) error {
+	g.nodesMu.Lock()
+	defer g.nodesMu.Unlock()
+
 	g.hnswIndex = &HNSWGraphIndex{
 		index: newSimpleHNSW(dimensions, 16, g.store.GetSimilarityFunc()),
 	}
-- 
2.43.0


From 0b1ae75b8907e5a136f12b8fb13cbed58b9fe1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:35 +0000
Subject: [PATCH 098/118] fix: memories can be saved, updated and deleted
 concurrently

---
 pkg/cortexdb/cortexdb.go   |  3 +++
 pkg/cortexdb/memory_api.go | 16 +++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pkg/cortexdb/cortexdb.go b/pkg/cortexdb/cortexdb.go
index d0244c2..ad5a6fb 100644
--- a/pkg/cortexdb/cortexdb.go
+++ b/pkg/cortexdb/cortexdb.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"database/sql"
 	"fmt"
+	"sync"
 
 	"github.com/google/uuid"
 	"github.com/liliang-cn/cortexdb/v2/pkg/core"
@@ -16,6 +17,8 @@ type DB struct {
 	store    *core.SQLiteStore
 	graph    *graph.GraphStore
 	embedder Embedder // Optional embedder for text operations
+
+	memoryMu sync.Mutex // Serializes changes of memories and their buckets
 }
 
 // Config represents database configuration
diff --git a/pkg/cortexdb/memory_api.go b/pkg/cortexdb/memory_api.go
index 413cc24..6fb752f 100644
--- a/pkg/cortexdb/memory_api.go
+++ b/pkg/cortexdb/memory_api.go
@@ -34,9 +34,6 @@ func (db *DB) SaveMemory(ctx context.Context, req MemorySaveRequest) (*MemorySav
 	if err != nil {
 		return nil, err
 	}
-	if err := db.ensureMemoryBucket(ctx, bucketID, req.UserID, scope, normalizeMemoryNamespace(req.Namespace)); err != nil {
-		return nil, err
-	}
 
 	metadata := buildMemoryMetadata(scope, normalizeMemoryNamespace(req.Namespace), req.Metadata, req.Importance, req.TTLSeconds)
 	vectorBytes, err := db.embedMemoryContent(ctx, req.Content)
@@ -48,6 +45,13 @@ func (db *DB) SaveMemory(ctx context.Context, req MemorySaveRequest) (*MemorySav
 		return nil, fmt.Errorf("marshal memory metadata: %w", err)
 	}
 
+	db.memoryMu.Lock()
+	defer db.memoryMu.Unlock()
+
+	if err := db.ensureMemoryBucket(ctx, bucketID, req.UserID, scope, normalizeMemoryNamespace(req.Namespace)); err != nil {
+		return nil, err
+	}
+
 	role := firstNonEmpty(req.Role, defaultMemoryRole)
 	if _, err := db.store.GetDB().ExecContext(ctx, `
 		INSERT INTO messages (id, session_id, role, content, vector, metadata, created_at)
@@ -75,6 +79,9 @@ func (db *DB) UpdateMemory(ctx context.Context, req MemoryUpdateRequest) (*Memor
 		return nil, fmt.Errorf("memory_id is required")
 	}
 
+	db.memoryMu.Lock()
+	defer db.memoryMu.Unlock()
+
 	row, err := db.loadMemoryRow(ctx, req.MemoryID)
 	if err != nil {
 		return nil, err
@@ -174,6 +181,9 @@ func (db *DB) DeleteMemory(ctx context.Context, req MemoryDeleteRequest) (*Memor
 		return nil, fmt.Errorf("memory_id is required")
 	}
 
+	db.memoryMu.Lock()
+	defer db.memoryMu.Unlock()
+
 	row, err := db.loadMemoryRow(ctx, req.MemoryID)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From d353bafbf80b5e94d751a9562a3a6058858f0f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:52 +0000
Subject: [PATCH 099/118] fix: knowledge can be saved, updated and deleted
 concurrently

---
 pkg/cortexdb/cortexdb.go       |  3 ++-
 pkg/cortexdb/graphrag.go       |  7 +++++++
 pkg/cortexdb/graphrag_tools.go |  7 +++++++
 pkg/cortexdb/knowledge_api.go  | 13 +++++++++++--
 4 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/pkg/cortexdb/cortexdb.go b/pkg/cortexdb/cortexdb.go
index ad5a6fb..62dc7f8 100644
--- a/pkg/cortexdb/cortexdb.go
+++ b/pkg/cortexdb/cortexdb.go
@@ -18,7 +18,8 @@ type DB struct {
 	graph    *graph.GraphStore
 	embedder Embedder // Optional embedder for text operations
 
-	memoryMu sync.Mutex // Serializes changes of memories and their buckets
+	memoryMu    sync.Mutex // Serializes changes of memories and their buckets
+	knowledgeMu sync.Mutex // Serializes changes of documents and what is derived from them
 }
 
 // Config represents database configuration
diff --git a/pkg/cortexdb/graphrag.go b/pkg/cortexdb/graphrag.go
index ca837ff..a977caa 100644
--- a/pkg/cortexdb/graphrag.go
+++ b/pkg/cortexdb/graphrag.go
@@ -112,6 +112,13 @@ type GraphRAGQueryResult struct {
 
 // InsertGraphDocument ingests a document into the vector store and graph store for GraphRAG retrieval.
 func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opts GraphRAGIngestOptions) (*GraphRAGIngestResult, error) {
+	db.knowledgeMu.Lock()
+	defer db.knowledgeMu.Unlock()
+
+	return db.insertGraphDocument(ctx, doc, opts)
+}
+
+func (db *DB) insertGraphDocument(ctx context.Context, doc GraphRAGDocument, opts GraphRAGIngestOptions) (*GraphRAGIngestResult, error) {
 	if db.embedder == nil {
 		return nil, ErrEmbedderNotConfigured
 	}
diff --git a/pkg/cortexdb/graphrag_tools.go b/pkg/cortexdb/graphrag_tools.go
index 139d965..ca6f922 100644
--- a/pkg/cortexdb/graphrag_tools.go
+++ b/pkg/cortexdb/graphrag_tools.go
@@ -512,6 +512,13 @@ func (t *GraphRAGToolbox) Call(ctx context.Context, name string, input json.RawM
 
 // IngestDocument stores lexical chunks and graph nodes without requiring an embedder.
 func (t *GraphRAGToolbox) IngestDocument(ctx context.Context, req ToolIngestDocumentRequest) (*ToolIngestDocumentResponse, error) {
+	t.db.knowledgeMu.Lock()
+	defer t.db.knowledgeMu.Unlock()
+
+	return t.ingestDocument(ctx, req)
+}
+
+func (t *GraphRAGToolbox) ingestDocument(ctx context.Context, req ToolIngestDocumentRequest) (*ToolIngestDocumentResponse, error) {
 	if req.DocumentID == "" {
 		return nil, fmt.Errorf("document_id is required")
 	}
diff --git a/pkg/cortexdb/knowledge_api.go b/pkg/cortexdb/knowledge_api.go
index 2ec4d04..3632c6b 100644
--- a/pkg/cortexdb/knowledge_api.go
+++ b/pkg/cortexdb/knowledge_api.go
@@ -26,6 +26,9 @@ func (db *DB) SaveKnowledge(ctx context.Context, req KnowledgeSaveRequest) (*Kno
 		return nil, ErrEmptyText
 	}
 
+	db.knowledgeMu.Lock()
+	defer db.knowledgeMu.Unlock()
+
 	existing, err := db.store.GetDocument(ctx, req.KnowledgeID)
 	if err != nil && !errors.Is(err, core.ErrNotFound) {
 		return nil, fmt.Errorf("get existing knowledge: %w", err)
@@ -72,6 +75,9 @@ func (db *DB) UpdateKnowledge(ctx context.Context, req KnowledgeUpdateRequest) (
 		return nil, fmt.Errorf("knowledge_id is required")
 	}
 
+	db.knowledgeMu.Lock()
+	defer db.knowledgeMu.Unlock()
+
 	existing, err := db.store.GetDocument(ctx, req.KnowledgeID)
 	if err != nil {
 		return nil, fmt.Errorf("get knowledge: %w", err)
@@ -253,6 +259,9 @@ func (db *DB) DeleteKnowledge(ctx context.Context, req KnowledgeDeleteRequest) (
 	if req.KnowledgeID == "" {
 		return nil, fmt.Errorf("knowledge_id is required")
 	}
+	db.knowledgeMu.Lock()
+	defer db.knowledgeMu.Unlock()
+
 	if _, err := db.store.GetDocument(ctx, req.KnowledgeID); err != nil {
 		return nil, err
 	}
@@ -298,7 +307,7 @@ func (db *DB) ingestKnowledgeContent(ctx context.Context, knowledgeID, title, co
 	result := &knowledgeIngestResult{}
 
 	if db.HasEmbedder() {
-		ingest, err := db.InsertGraphDocument(ctx, doc, GraphRAGIngestOptions{
+		ingest, err := db.insertGraphDocument(ctx, doc, GraphRAGIngestOptions{
 			Collection:   collection,
 			ChunkSize:    chunkSize,
 			ChunkOverlap: chunkOverlap,
@@ -311,7 +320,7 @@ func (db *DB) ingestKnowledgeContent(ctx context.Context, knowledgeID, title, co
 			result.entityNodeIDs = append(result.entityNodeIDs, ingest.EntityNodeIDs...)
 		}
 	} else {
-		ingest, err := toolbox.IngestDocument(ctx, ToolIngestDocumentRequest{
+		ingest, err := toolbox.ingestDocument(ctx, ToolIngestDocumentRequest{
 			DocumentID:   knowledgeID,
 			Title:        title,
 			Content:      content,
-- 
2.43.0


From 37dbdd99c1ba54d82a74ad95fb871522c054c068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:29 +0000
Subject: [PATCH 100/118] fix: a knowledge search does not fail because an item
 is deleted meanwhile

---
 pkg/cortexdb/knowledge_api.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pkg/cortexdb/knowledge_api.go b/pkg/cortexdb/knowledge_api.go
index 3632c6b..8b1ca70 100644
--- a/pkg/cortexdb/knowledge_api.go
+++ b/pkg/cortexdb/knowledge_api.go
@@ -492,6 +492,15 @@ func (db *DB) aggregateKnowledgeHits(ctx context.Context, chunks []GraphRAGChunk
 		docID := chunk.DocumentID
 		if docID == "" {
 			docID = chunk.ID
+		} else if _, ok := docCache[docID]; !ok {
+			doc, err := db.store.GetDocument(ctx, docID)
+			if errors.Is(err, core.ErrNotFound) {
+				continue // Deleted since the chunk was found
+			}
+			if err != nil {
+				return nil, err
+			}
+			docCache[docID] = doc
 		}
 		agg, ok := grouped[docID]
 		if !ok {
@@ -524,13 +533,6 @@ func (db *DB) aggregateKnowledgeHits(ctx context.Context, chunks []GraphRAGChunk
 		if chunk.DocumentID == "" {
 			continue
 		}
-		if _, ok := docCache[chunk.DocumentID]; !ok {
-			doc, err := db.store.GetDocument(ctx, chunk.DocumentID)
-			if err != nil {
-				return nil, err
-			}
-			docCache[chunk.DocumentID] = doc
-		}
 		doc := docCache[chunk.DocumentID]
 		agg.hit.Title = doc.Title
 		agg.hit.SourceURL = doc.SourceURL
-- 
2.43.0


From e440021f59442dda0955698fb863b2ab8f1679d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:28 +0000
Subject: [PATCH 101/118] fix: importing an index file works for IVF and leaves
 searches showing what is stored

---
 pkg/core/io.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/pkg/core/io.go b/pkg/core/io.go
index f290add..24539b0 100644
--- a/pkg/core/io.go
+++ b/pkg/core/io.go
@@ -492,6 +492,19 @@ func (s *SQLiteStore) ImportIndex(ctx context.Context, filepath string) error {
 	}
 	defer func() { _ = file.Close() }()
 
+	if !s.config.HNSW.Enabled && s.ivfIndex != nil {
+		loaded := index.NewIVFIndex(s.config.VectorDim, s.ivfIndex.NCentroids)
+		if err := loaded.Load(file); err != nil {
+			return wrapError("import_index", fmt.Errorf("failed to load index: %w", err))
+		}
+		if loaded.Dimension != s.config.VectorDim {
+			return wrapError("import_index", fmt.Errorf("index has dimension %d, store has %d", loaded.Dimension, s.config.VectorDim))
+		}
+		s.ivfIndex = loaded
+		// The file may predate later writes: take the vectors from the database
+		return wrapError("import_index", s.refillIVFIndex(ctx))
+	}
+
 	// Try to load as HNSW first
 	if s.config.HNSW.Enabled {
 		if s.hnswIndex == nil {
@@ -512,8 +525,19 @@ func (s *SQLiteStore) ImportIndex(ctx context.Context, filepath string) error {
 			if err := s.ivfIndex.Load(file); err != nil {
 				return wrapError("import_index", fmt.Errorf("failed to load index: %w", err))
 			}
+			return nil
 		}
-		return nil
+
+		// Searches show what is stored: a file that predates later writes is not used
+		current, err := s.hnswMatchesStore(ctx)
+		if err == nil && !current {
+			s.hnswIndex = index.NewHNSW(s.config.HNSW.M, s.config.HNSW.EfConstruction, s.hnswIndex.DistFunc)
+			if s.quantizer != nil {
+				s.hnswIndex.SetQuantizer(s.quantizer)
+			}
+			err = s.rebuildHNSWIndex(ctx)
+		}
+		return wrapError("import_index", err)
 	}
 
 	return wrapError("import_index", fmt.Errorf("no index enabled in config"))
-- 
2.43.0


From f655846c24bae6ea62d61d588aec0badd1851e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:30 +0000
Subject: [PATCH 102/118] fix: looking up a memory bank does not bring back a
 deleted one

---
 pkg/hindsight/hindsight.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/hindsight/hindsight.go b/pkg/hindsight/hindsight.go
index 94d6dcf..584d609 100644
--- a/pkg/hindsight/hindsight.go
+++ b/pkg/hindsight/hindsight.go
@@ -818,16 +818,18 @@ func (s *System) GetBank(bankID string) (*Bank, bool) {
 		return bank, true
 	}
 
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if bank, ok := s.banks[bankID]; ok {
+		return bank, true
+	}
+
 	// Try to load from database graph
 	ctx := context.Background()
 	node, err := s.graph.GetNode(ctx, bankID)
 	if err == nil && node.NodeType == "bank" {
 		bank := s.nodeToBank(node)
-
-		s.mu.Lock()
 		s.banks[bankID] = bank
-		s.mu.Unlock()
-
 		return bank, true
 	}
 
-- 
2.43.0


From dcc9b255cad6ba724aecfb9d4ebdff0a826b9c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:37 +0000
Subject: [PATCH 103/118] fix: a store opened without quantization ignores an
 earlier quantizer snapshot

---
 pkg/core/store_index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/store_index.go b/pkg/core/store_index.go
index d9d16e9..07b594c 100644
--- a/pkg/core/store_index.go
+++ b/pkg/core/store_index.go
@@ -576,7 +576,7 @@ func (s *SQLiteStore) loadIndexSnapshot(ctx context.Context, indexType string) (
 	// First try to load quantizer if we're loading an index
 	var qData []byte
 	err := s.db.QueryRowContext(ctx, "SELECT data FROM index_snapshots WHERE type = ?", "QUANTIZER").Scan(&qData)
-	if err == nil {
+	if err == nil && s.config.Quantization.Enabled {
 		if s.config.Quantization.Type == "binary" {
 			bq := quantization.NewBinaryQuantizer(s.config.VectorDim)
 			if loadErr := bq.Load(bytes.NewReader(qData)); loadErr == nil {
-- 
2.43.0


From 9d0d9f078abcbc0f3ac4565eae2ea2a85228eb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:41 +0000
Subject: [PATCH 104/118] fix: DeleteByFilter reports an interrupted read
 instead of finding nothing to delete

---
 pkg/core/store_crud.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index 1b4cae5..80c38ac 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -573,9 +573,13 @@ func (s *SQLiteStore) DeleteByFilter(ctx context.Context, filter *MetadataFilter
 			idsToDelete = append(idsToDelete, id)
 		}
 	}
+	rowsErr := rows.Err()
 	if closeErr := rows.Close(); closeErr != nil {
 		s.logger.Warn("failed to close rows during delete by filter", "error", closeErr)
 	}
+	if rowsErr != nil {
+		return wrapError("delete_by_filter", fmt.Errorf("failed to query embeddings: %w", rowsErr))
+	}
 
 	if len(idsToDelete) == 0 {
 		return nil // Nothing to delete
-- 
2.43.0


From b12065b6fcd044e42801ed91fe21faae414583a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:07 +0000
Subject: [PATCH 105/118] fix: an interrupted read is an error, not a missing
 record or entity

---
 pkg/core/multi_vector.go | 7 +++++++
 pkg/core/store_query.go  | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/pkg/core/multi_vector.go b/pkg/core/multi_vector.go
index baf3393..11e1671 100644
--- a/pkg/core/multi_vector.go
+++ b/pkg/core/multi_vector.go
@@ -349,6 +349,9 @@ func (s *SQLiteStore) GetMultiVectorEntity(ctx context.Context, entityID string)
 			entity.Metadata[k] = v
 		}
 	}
+	if err := rows.Err(); err != nil {
+		return nil, wrapError("get_multi_vector", err)
+	}
 	
 	if len(entity.Vectors) == 0 {
 		return nil, wrapError("get_multi_vector", ErrNotFound)
@@ -382,10 +385,14 @@ func (s *SQLiteStore) DeleteMultiVectorEntity(ctx context.Context, entityID stri
 			compositeIDs = append(compositeIDs, id)
 		}
 	}
+	rowsErr := rows.Err()
 	if err := rows.Close(); err != nil {
 		// Log error but don't override the main error
 		_ = err
 	}
+	if rowsErr != nil {
+		return wrapError("delete_multi_vector", rowsErr)
+	}
 	
 	// Delete from database
 	_, err = s.db.ExecContext(ctx, `
diff --git a/pkg/core/store_query.go b/pkg/core/store_query.go
index f6691e1..e707e71 100644
--- a/pkg/core/store_query.go
+++ b/pkg/core/store_query.go
@@ -37,6 +37,9 @@ func (s *SQLiteStore) GetByID(ctx context.Context, id string) (*Embedding, error
 	}()
 
 	if !rows.Next() {
+		if err := rows.Err(); err != nil {
+			return nil, wrapError("get_by_id", err)
+		}
 		return nil, wrapError("get_by_id", ErrNotFound)
 	}
 
-- 
2.43.0


From bcb0397cb927c6790055a0147f33b1a06aedebb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:23 +0000
Subject: [PATCH 106/118] fix: an interrupted graph search fails instead of
 leaving out nodes

---
 pkg/graph/graph_hnsw.go   | 10 ++++++++++
 pkg/graph/graph_hybrid.go |  7 +++++++
 2 files changed, 17 insertions(+)

diff --git a/pkg/graph/graph_hnsw.go b/pkg/graph/graph_hnsw.go
index 0680a3a..d4ded5e 100644
--- a/pkg/graph/graph_hnsw.go
+++ b/pkg/graph/graph_hnsw.go
@@ -178,6 +178,11 @@ func (g *GraphStore) HNSWSearch(ctx context.Context, query []float32, k int, thr
 		}
 	}
 
+	// Lookups cut short must not pass for missing nodes
+	if err := ctx.Err(); err != nil {
+		return nil, err
+	}
+
 	return results, nil
 }
 
@@ -231,6 +236,11 @@ func (g *GraphStore) HNSWHybridSearch(ctx context.Context, query *HybridQuery) (
 		}
 	}
 
+	// Lookups cut short must not pass for missing nodes
+	if err := ctx.Err(); err != nil {
+		return nil, err
+	}
+
 	// Sort by total score and limit results
 	sort.Slice(results, func(i, j int) bool {
 		return results[i].TotalScore > results[j].TotalScore
diff --git a/pkg/graph/graph_hybrid.go b/pkg/graph/graph_hybrid.go
index 99a4e59..7c6f02f 100644
--- a/pkg/graph/graph_hybrid.go
+++ b/pkg/graph/graph_hybrid.go
@@ -133,6 +133,11 @@ func (g *GraphStore) HybridSearch(ctx context.Context, query *HybridQuery) ([]*H
 		}
 	}
 
+	// Lookups cut short must not pass for missing nodes
+	if err := ctx.Err(); err != nil {
+		return nil, err
+	}
+
 	// Convert to slice and sort by combined score
 	results := make([]*HybridResult, 0, len(nodeScores))
 	for _, result := range nodeScores {
@@ -165,6 +170,8 @@ func (g *GraphStore) GraphVectorSearch(ctx context.Context, startNodeID string,
 	startNode, err := g.GetNode(ctx, startNodeID)
 	if err == nil {
 		neighbors = append([]*GraphNode{startNode}, neighbors...)
+	} else if ctx.Err() != nil {
+		return nil, ctx.Err()
 	}
 
 	// Calculate vector similarity for each neighbor
-- 
2.43.0


From 2dce26f6af69f3b28a3742fb9bc96cbeb92cfa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:26 +0000
Subject: [PATCH 107/118] fix: an interrupted Recall fails instead of recalling
 part of the memories

---
 pkg/hindsight/hindsight.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/hindsight/hindsight.go b/pkg/hindsight/hindsight.go
index 584d609..9fe4774 100644
--- a/pkg/hindsight/hindsight.go
+++ b/pkg/hindsight/hindsight.go
@@ -289,6 +289,11 @@ func (s *System) Recall(ctx context.Context, req *RecallRequest) ([]*RecallResul
 
 	wg.Wait()
 
+	// A strategy cut short must not pass for one that found nothing
+	if err := ctx.Err(); err != nil {
+		return nil, err
+	}
+
 	// Count how many strategies returned results
 	strategyCount := 0
 	if req.Strategy.Memory && req.QueryVector != nil {
-- 
2.43.0


From f3e7d76a3a22994d2dac7e1cade19ebdbb0c56e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:30 +0000
Subject: [PATCH 108/118] fix: an interrupted multi-vector search fails instead
 of leaving out fields

---
 pkg/core/multi_vector.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/core/multi_vector.go b/pkg/core/multi_vector.go
index 11e1671..3bbae28 100644
--- a/pkg/core/multi_vector.go
+++ b/pkg/core/multi_vector.go
@@ -178,6 +178,9 @@ func (s *SQLiteStore) SearchMultiVector(ctx context.Context, queryVectors map[st
 		
 		results, err := s.search(ctx, queryVector, fieldOpts)
 		if err != nil {
+			if ctx.Err() != nil {
+				return nil, wrapError("multi_vector_search", ctx.Err())
+			}
 			continue
 		}
 		
-- 
2.43.0


From 3be8ce533dab1129c736ba43fbd9045f18a85a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:54 +0000
Subject: [PATCH 109/118] fix: an interrupted retrieval fails instead of
 leaving out chunks

---
 pkg/cortexdb/graphrag.go       | 11 ++++++++---
 pkg/cortexdb/graphrag_tools.go | 16 ++++++++++++++--
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/pkg/cortexdb/graphrag.go b/pkg/cortexdb/graphrag.go
index a977caa..54f0ea9 100644
--- a/pkg/cortexdb/graphrag.go
+++ b/pkg/cortexdb/graphrag.go
@@ -438,7 +438,9 @@ func (db *DB) SearchGraphRAG(ctx context.Context, query string, opts GraphRAGQue
 				if _, isSeed := seedIDs[neighbor.ID]; isSeed {
 					continue
 				}
-				if !db.chunkInCollection(ctx, neighbor.ID, opts.Collection) {
+				if in, err := db.chunkInCollection(ctx, neighbor.ID, opts.Collection); err != nil {
+					return nil, err
+				} else if !in {
 					continue
 				}
 				related := chunkResults[neighbor.ID]
@@ -713,9 +715,12 @@ func graphChunkNodeID(documentID string, index int) string {
 }
 
 // chunkInCollection tells whether a chunk met in the graph is stored in the collection being searched.
-func (db *DB) chunkInCollection(ctx context.Context, chunkID, collection string) bool {
+func (db *DB) chunkInCollection(ctx context.Context, chunkID, collection string) (bool, error) {
 	emb, err := db.store.GetByID(ctx, chunkID)
-	return err == nil && (collection == "" || emb.Collection == collection)
+	if err != nil {
+		return false, ctx.Err() // a chunk that is gone is in no collection
+	}
+	return collection == "" || emb.Collection == collection, nil
 }
 
 func graphEntityNodeID(name string) string {
diff --git a/pkg/cortexdb/graphrag_tools.go b/pkg/cortexdb/graphrag_tools.go
index ca6f922..c95ef11 100644
--- a/pkg/cortexdb/graphrag_tools.go
+++ b/pkg/cortexdb/graphrag_tools.go
@@ -908,10 +908,17 @@ func (t *GraphRAGToolbox) searchChunksByEntities(ctx context.Context, req ToolSe
 			Limit:     req.TopK * 8,
 		})
 		if err != nil {
+			if ctx.Err() != nil {
+				return nil, ctx.Err()
+			}
 			continue
 		}
 		for _, node := range neighbors {
-			if t.db.chunkInCollection(ctx, node.ID, collection) {
+			in, err := t.db.chunkInCollection(ctx, node.ID, collection)
+			if err != nil {
+				return nil, err
+			}
+			if in {
 				scoreMap[node.ID] += 1.0
 			}
 		}
@@ -1144,7 +1151,9 @@ func (t *GraphRAGToolbox) SearchGraphRAGLexical(ctx context.Context, req ToolSea
 			case strings.HasPrefix(node.ID, graphEntityPrefix):
 				entitySet[node.Content] = struct{}{}
 			case node.NodeType == "chunk":
-				if !t.db.chunkInCollection(ctx, node.ID, opts.Collection) {
+				if in, err := t.db.chunkInCollection(ctx, node.ID, opts.Collection); err != nil {
+					return nil, err
+				} else if !in {
 					continue
 				}
 				chunk := ToolChunk{
@@ -1259,6 +1268,9 @@ func (t *GraphRAGToolbox) loadToolChunks(ctx context.Context, scoreMap map[strin
 	for _, chunkID := range orderedIDs {
 		emb, err := t.db.store.GetByID(ctx, chunkID)
 		if err != nil {
+			if ctx.Err() != nil {
+				return nil, ctx.Err()
+			}
 			continue
 		}
 		var entities []string
-- 
2.43.0


From 21a63d19318f78e4d82202c63a8c0043ce378177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:23 +0000
Subject: [PATCH 110/118] fix: interrupted collection stats fail instead of
 leaving out the last insert

---
 pkg/core/collections.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/core/collections.go b/pkg/core/collections.go
index c91b86b..8d23bf3 100644
--- a/pkg/core/collections.go
+++ b/pkg/core/collections.go
@@ -314,6 +314,9 @@ func (s *SQLiteStore) GetCollectionStats(ctx context.Context, name string) (*Col
 		err = s.db.QueryRowContext(ctx, `
 			SELECT created_at FROM embeddings WHERE collection_id = ? ORDER BY created_at DESC LIMIT 1
 		`, collection.ID).Scan(&stats.LastInsertedAt)
+		if ctx.Err() != nil {
+			return nil, wrapError("get_collection_stats", ctx.Err())
+		}
 		if err != nil {
 			// Don't fail for this
 			stats.LastInsertedAt = time.Time{}
-- 
2.43.0


From 6b9dd04c1e1ca4e8c8ed2ad9c9ef6887fb8e796e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:21 +0000
Subject: [PATCH 111/118] fix: an interrupted knowledge update does not lose
 the item's chunks and collection

---
 pkg/cortexdb/graphrag.go       | 5 +++++
 pkg/cortexdb/graphrag_tools.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/cortexdb/graphrag.go b/pkg/cortexdb/graphrag.go
index 54f0ea9..66fdad7 100644
--- a/pkg/cortexdb/graphrag.go
+++ b/pkg/cortexdb/graphrag.go
@@ -321,6 +321,11 @@ func (db *DB) insertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 		}
 	}
 
+	// From here on an interruption would leave the document without its chunks
+	if err := ctx.Err(); err != nil {
+		return nil, err
+	}
+	ctx = context.WithoutCancel(ctx)
 	// Everything that can fail outside the database is done: replace what the document left before
 	if err := db.removeGraphRAGArtifacts(ctx, doc.ID); err != nil {
 		return nil, err
diff --git a/pkg/cortexdb/graphrag_tools.go b/pkg/cortexdb/graphrag_tools.go
index c95ef11..6f78db2 100644
--- a/pkg/cortexdb/graphrag_tools.go
+++ b/pkg/cortexdb/graphrag_tools.go
@@ -550,6 +550,11 @@ func (t *GraphRAGToolbox) ingestDocument(ctx context.Context, req ToolIngestDocu
 		return nil, ErrEmptyText
 	}
 
+	// From here on an interruption would leave the document without its chunks
+	if err := ctx.Err(); err != nil {
+		return nil, err
+	}
+	ctx = context.WithoutCancel(ctx)
 	if err := t.db.removeGraphRAGArtifacts(ctx, req.DocumentID); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c309efdaad334669739666a01167b0deedd1b5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:18 +0000
Subject: [PATCH 112/118] fix: writes are not interrupted in the middle of a
 statement or transaction

An interrupted statement could take effect although an error was reported, which
left the vector index behind, and could leave its connection inside a transaction,
whose later rollback undid acknowledged writes.
---
 pkg/core/chat.go         |  4 ++--
 pkg/core/collections.go  |  4 ++--
 pkg/core/document.go     |  6 +++---
 pkg/core/multi_vector.go |  4 ++--
 pkg/core/store_crud.go   | 41 ++++++++++++++++++++++++++++++++--------
 pkg/graph/graph.go       |  8 ++++----
 pkg/graph/graph_batch.go | 32 +++++++++++++++++++++++++------
 7 files changed, 72 insertions(+), 27 deletions(-)

diff --git a/pkg/core/chat.go b/pkg/core/chat.go
index 26e165b..1b94206 100644
--- a/pkg/core/chat.go
+++ b/pkg/core/chat.go
@@ -48,7 +48,7 @@ func (s *SQLiteStore) CreateSession(ctx context.Context, session *Session) error
 		INSERT INTO sessions (id, user_id, metadata, created_at, updated_at)
 		VALUES (?, ?, ?, CURRENT_TIMESTAMP, CURRENT_TIMESTAMP)
 	`
-	_, err = s.db.ExecContext(ctx, query, session.ID, session.UserID, metadataJSON)
+	_, err = execWrite(ctx, s.db, query, session.ID, session.UserID, metadataJSON)
 	return err
 }
 
@@ -108,7 +108,7 @@ func (s *SQLiteStore) AddMessage(ctx context.Context, msg *Message) error {
 		INSERT INTO messages (id, session_id, role, content, vector, metadata, created_at)
 		VALUES (?, ?, ?, ?, ?, ?, ?)
 	`
-	_, err = s.db.ExecContext(ctx, query, msg.ID, msg.SessionID, msg.Role, msg.Content, vectorBytes, metadataJSON, time.Now().UTC())
+	_, err = execWrite(ctx, s.db, query, msg.ID, msg.SessionID, msg.Role, msg.Content, vectorBytes, metadataJSON, time.Now().UTC())
 
 	// If vector is present, we should also index it in the main embeddings table or HNSW
 	// However, for simplicity, we treat message vectors separately or rely on user to also call Upsert()
diff --git a/pkg/core/collections.go b/pkg/core/collections.go
index 8d23bf3..84871f9 100644
--- a/pkg/core/collections.go
+++ b/pkg/core/collections.go
@@ -54,7 +54,7 @@ func (s *SQLiteStore) CreateCollection(ctx context.Context, name string, dimensi
 	}
 
 	// Insert new collection
-	result, err := s.db.ExecContext(ctx, `
+	result, err := execWrite(ctx, s.db, `
 		INSERT INTO collections (name, dimensions, created_at, updated_at)
 		VALUES (?, ?, CURRENT_TIMESTAMP, CURRENT_TIMESTAMP)
 	`, name, dimensions)
@@ -231,7 +231,7 @@ func (s *SQLiteStore) DeleteCollection(ctx context.Context, name string) error {
 	}
 
 	// Start transaction
-	tx, err := s.db.BeginTx(ctx, nil)
+	ctx, tx, err := beginWrite(ctx, s.db)
 	if err != nil {
 		return wrapError("delete_collection", fmt.Errorf("failed to start transaction: %w", err))
 	}
diff --git a/pkg/core/document.go b/pkg/core/document.go
index e8a9665..5f60512 100644
--- a/pkg/core/document.go
+++ b/pkg/core/document.go
@@ -46,7 +46,7 @@ func (s *SQLiteStore) CreateDocument(ctx context.Context, doc *Document) error {
 		VALUES (?, ?, ?, ?, ?, ?, ?, ?, CURRENT_TIMESTAMP, CURRENT_TIMESTAMP)
 	`
 
-	_, err = s.db.ExecContext(ctx, query, doc.ID, doc.Title, doc.SourceURL, doc.Content, doc.Version, doc.Author, metadataJSON, aclJSON)
+	_, err = execWrite(ctx, s.db, query, doc.ID, doc.Title, doc.SourceURL, doc.Content, doc.Version, doc.Author, metadataJSON, aclJSON)
 	if err != nil {
 		return wrapError("create_document", fmt.Errorf("failed to insert document: %w", err))
 	}
@@ -110,7 +110,7 @@ func (s *SQLiteStore) DeleteDocument(ctx context.Context, id string) error {
 	}
 
 	// 2. Delete document (Cascade will delete embeddings from DB)
-	_, err = s.db.ExecContext(ctx, "DELETE FROM documents WHERE id = ?", id)
+	_, err = execWrite(ctx, s.db, "DELETE FROM documents WHERE id = ?", id)
 	if err != nil {
 		return wrapError("delete_document", fmt.Errorf("failed to delete document: %w", err))
 	}
@@ -145,7 +145,7 @@ func (s *SQLiteStore) UpdateDocument(ctx context.Context, doc *Document) error {
 		WHERE id = ?
 	`
 
-	result, err := s.db.ExecContext(ctx, query, doc.Title, doc.SourceURL, doc.Content, doc.Version, doc.Author, metadataJSON, aclJSON, doc.ID)
+	result, err := execWrite(ctx, s.db, query, doc.Title, doc.SourceURL, doc.Content, doc.Version, doc.Author, metadataJSON, aclJSON, doc.ID)
 	if err != nil {
 		return wrapError("update_document", fmt.Errorf("failed to update document: %w", err))
 	}
diff --git a/pkg/core/multi_vector.go b/pkg/core/multi_vector.go
index 3bbae28..1b33670 100644
--- a/pkg/core/multi_vector.go
+++ b/pkg/core/multi_vector.go
@@ -78,7 +78,7 @@ func (s *SQLiteStore) upsertMultiVector(ctx context.Context, entity *MultiVector
 	}
 	
 	// Start transaction
-	tx, err := s.db.BeginTx(ctx, nil)
+	ctx, tx, err := beginWrite(ctx, s.db)
 	if err != nil {
 		return wrapError("upsert_multi_vector", err)
 	}
@@ -398,7 +398,7 @@ func (s *SQLiteStore) DeleteMultiVectorEntity(ctx context.Context, entityID stri
 	}
 	
 	// Delete from database
-	_, err = s.db.ExecContext(ctx, `
+	_, err = execWrite(ctx, s.db, `
 		DELETE FROM embeddings
 		WHERE json_extract(NULLIF(metadata, ''), '$._entity_id') = ?
 	`, entityID)
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index 80c38ac..85aa509 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -107,7 +107,7 @@ func (s *SQLiteStore) upsert(ctx context.Context, emb *Embedding) error {
 	VALUES (?, ?, ?, ?, ?, ?, ?, CURRENT_TIMESTAMP)
 	`
 
-	_, err = s.db.ExecContext(ctx, query, emb.ID, collectionID, vectorBytes, emb.Content, docID, metadataJSON, aclJSON)
+	_, err = execWrite(ctx, s.db, query, emb.ID, collectionID, vectorBytes, emb.Content, docID, metadataJSON, aclJSON)
 	if err != nil {
 		return wrapError("upsert", fmt.Errorf("failed to insert embedding: %w", err))
 	}
@@ -262,7 +262,8 @@ func (s *SQLiteStore) upsertBatch(ctx context.Context, embs []*Embedding) error
 	}
 
 	// Start transaction
-	tx, err := s.db.BeginTx(ctx, nil)
+	caller := ctx
+	ctx, tx, err := beginWrite(ctx, s.db)
 	if err != nil {
 		return wrapError("upsert_batch", fmt.Errorf("failed to begin transaction: %w", err))
 	}
@@ -288,6 +289,9 @@ func (s *SQLiteStore) upsertBatch(ctx context.Context, embs []*Embedding) error
 
 	// Execute for each embedding
 	for i, emb := range embs {
+		if err := caller.Err(); err != nil {
+			return wrapError("upsert_batch", err)
+		}
 		// Determine collection ID
 		collectionID := emb.CollectionID
 		if collectionID == 0 {
@@ -411,7 +415,7 @@ func (s *SQLiteStore) Delete(ctx context.Context, id string) error {
 		return wrapError("delete", fmt.Errorf("ID cannot be empty"))
 	}
 
-	result, err := s.db.ExecContext(ctx, "DELETE FROM embeddings WHERE id = ?", id)
+	result, err := execWrite(ctx, s.db, "DELETE FROM embeddings WHERE id = ?", id)
 	if err != nil {
 		return wrapError("delete", fmt.Errorf("failed to delete embedding: %w", err))
 	}
@@ -451,7 +455,7 @@ func (s *SQLiteStore) DeleteByDocID(ctx context.Context, docID string) error {
 		return wrapError("delete_by_doc_id", err)
 	}
 
-	_, err = s.db.ExecContext(ctx, "DELETE FROM embeddings WHERE doc_id = ?", docID)
+	_, err = execWrite(ctx, s.db, "DELETE FROM embeddings WHERE doc_id = ?", docID)
 	if err != nil {
 		return wrapError("delete_by_doc_id", fmt.Errorf("failed to delete embeddings: %w", err))
 	}
@@ -488,7 +492,7 @@ func (s *SQLiteStore) DeleteBatch(ctx context.Context, ids []string) error {
 
 	// 1. Delete from SQLite
 	// Use chunks to avoid SQLite parameter limit (default 999)
-	tx, err := s.db.BeginTx(ctx, nil)
+	ctx, tx, err := beginWrite(ctx, s.db)
 	if err != nil {
 		return wrapError("delete_batch", fmt.Errorf("failed to begin transaction: %w", err))
 	}
@@ -587,7 +591,7 @@ func (s *SQLiteStore) DeleteByFilter(ctx context.Context, filter *MetadataFilter
 
 	// Now delete the embeddings
 	deleteQuery := fmt.Sprintf("DELETE FROM embeddings WHERE %s", whereClause)
-	_, err = s.db.ExecContext(ctx, deleteQuery, params...)
+	_, err = execWrite(ctx, s.db, deleteQuery, params...)
 	if err != nil {
 		return wrapError("delete_by_filter", fmt.Errorf("failed to delete embeddings: %w", err))
 	}
@@ -616,7 +620,7 @@ func (s *SQLiteStore) Clear(ctx context.Context) error {
 		return wrapError("clear", err)
 	}
 
-	_, err = s.db.ExecContext(ctx, "DELETE FROM embeddings")
+	_, err = execWrite(ctx, s.db, "DELETE FROM embeddings")
 	if err != nil {
 		return wrapError("clear", fmt.Errorf("failed to clear embeddings: %w", err))
 	}
@@ -644,7 +648,7 @@ func (s *SQLiteStore) ClearByDocID(ctx context.Context, docIDs []string) error {
 	}
 
 	// Start transaction for batch deletion
-	tx, err := s.db.BeginTx(ctx, nil)
+	ctx, tx, err := beginWrite(ctx, s.db)
 	if err != nil {
 		return wrapError("clear_by_doc_id", fmt.Errorf("failed to begin transaction: %w", err))
 	}
@@ -693,3 +697,24 @@ func (s *SQLiteStore) ClearByDocID(ctx context.Context, docIDs []string) error {
 
 	return nil
 }
+
+// execWrite runs one statement that changes data. It is not started when the context is over, but
+// once started it is not interrupted: an interrupted statement may have taken effect although it
+// reports an error, and interrupting one can leave its connection inside a transaction.
+func execWrite(ctx context.Context, db *sql.DB, query string, args ...any) (sql.Result, error) {
+	if err := ctx.Err(); err != nil {
+		return nil, err
+	}
+	return db.ExecContext(context.WithoutCancel(ctx), query, args...)
+}
+
+// beginWrite starts a transaction and returns the context for its statements, which, as for
+// execWrite, are not interrupted.
+func beginWrite(ctx context.Context, db *sql.DB) (context.Context, *sql.Tx, error) {
+	if err := ctx.Err(); err != nil {
+		return ctx, nil, err
+	}
+	ctx = context.WithoutCancel(ctx)
+	tx, err := db.BeginTx(ctx, nil)
+	return ctx, tx, err
+}
diff --git a/pkg/graph/graph.go b/pkg/graph/graph.go
index 302598c..757c658 100644
--- a/pkg/graph/graph.go
+++ b/pkg/graph/graph.go
@@ -170,7 +170,7 @@ func (g *GraphStore) UpsertNode(ctx context.Context, node *GraphNode) error {
 	g.nodesMu.Lock()
 	defer g.nodesMu.Unlock()
 
-	_, err = g.db.ExecContext(ctx, query,
+	_, err = execWrite(ctx, g.db, query,
 		node.ID,
 		vectorBytes,
 		node.Content,
@@ -245,7 +245,7 @@ func (g *GraphStore) DeleteNode(ctx context.Context, nodeID string) error {
 	g.nodesMu.Lock()
 	defer g.nodesMu.Unlock()
 
-	result, err := g.db.ExecContext(ctx, query, nodeID)
+	result, err := execWrite(ctx, g.db, query, nodeID)
 	if err != nil {
 		return err
 	}
@@ -313,7 +313,7 @@ func (g *GraphStore) UpsertEdge(ctx context.Context, edge *GraphEdge) error {
 		vector = excluded.vector
 	`
 
-	_, err := g.db.ExecContext(ctx, query,
+	_, err := execWrite(ctx, g.db, query,
 		edge.ID,
 		edge.FromNodeID,
 		edge.ToNodeID,
@@ -402,7 +402,7 @@ func (g *GraphStore) GetEdges(ctx context.Context, nodeID string, direction stri
 // DeleteEdge removes an edge from the graph
 func (g *GraphStore) DeleteEdge(ctx context.Context, edgeID string) error {
 	query := `DELETE FROM graph_edges WHERE id = ?`
-	result, err := g.db.ExecContext(ctx, query, edgeID)
+	result, err := execWrite(ctx, g.db, query, edgeID)
 	if err != nil {
 		return err
 	}
diff --git a/pkg/graph/graph_batch.go b/pkg/graph/graph_batch.go
index f50ef67..2101702 100644
--- a/pkg/graph/graph_batch.go
+++ b/pkg/graph/graph_batch.go
@@ -40,7 +40,7 @@ func (g *GraphStore) UpsertNodesBatch(ctx context.Context, nodes []*GraphNode) (
 	defer g.nodesMu.Unlock()
 
 	// Start transaction
-	tx, err := g.db.BeginTx(ctx, nil)
+	ctx, tx, err := beginWrite(ctx, g.db)
 	if err != nil {
 		return nil, fmt.Errorf("failed to begin transaction: %w", err)
 	}
@@ -137,7 +137,7 @@ func (g *GraphStore) DeleteNodesBatch(ctx context.Context, nodeIDs []string) (*B
 	defer g.nodesMu.Unlock()
 
 	// Start transaction
-	tx, err := g.db.BeginTx(ctx, nil)
+	ctx, tx, err := beginWrite(ctx, g.db)
 	if err != nil {
 		return nil, fmt.Errorf("failed to begin transaction: %w", err)
 	}
@@ -201,7 +201,7 @@ func (g *GraphStore) UpsertEdgesBatch(ctx context.Context, edges []*GraphEdge) (
 	}
 	
 	// Start transaction
-	tx, err := g.db.BeginTx(ctx, nil)
+	ctx, tx, err := beginWrite(ctx, g.db)
 	if err != nil {
 		return nil, fmt.Errorf("failed to begin transaction: %w", err)
 	}
@@ -303,7 +303,7 @@ func (g *GraphStore) DeleteEdgesBatch(ctx context.Context, edgeIDs []string) (*B
 	}
 	
 	// Start transaction
-	tx, err := g.db.BeginTx(ctx, nil)
+	ctx, tx, err := beginWrite(ctx, g.db)
 	if err != nil {
 		return nil, fmt.Errorf("failed to begin transaction: %w", err)
 	}
@@ -495,7 +495,7 @@ func (g *GraphStore) ExecuteBatch(ctx context.Context, ops *BatchGraphOperation)
 	defer g.nodesMu.Unlock()
 
 	// Start transaction
-	tx, err := g.db.BeginTx(ctx, nil)
+	ctx, tx, err := beginWrite(ctx, g.db)
 	if err != nil {
 		return nil, fmt.Errorf("failed to begin transaction: %w", err)
 	}
@@ -714,4 +714,24 @@ func (g *GraphStore) deleteEdgesBatchTx(ctx context.Context, tx *sql.Tx, edgeIDs
 	result.FailedCount = len(edgeIDs) - result.SuccessCount
 	
 	return result, nil
-}
\ No newline at end of file
+}
+// execWrite runs one statement that changes data. It is not started when the context is over, but
+// once started it is not interrupted: an interrupted statement may have taken effect although it
+// reports an error, and interrupting one can leave its connection inside a transaction.
+func execWrite(ctx context.Context, db *sql.DB, query string, args ...any) (sql.Result, error) {
+	if err := ctx.Err(); err != nil {
+		return nil, err
+	}
+	return db.ExecContext(context.WithoutCancel(ctx), query, args...)
+}
+
+// beginWrite starts a transaction and returns the context for its statements, which, as for
+// execWrite, are not interrupted.
+func beginWrite(ctx context.Context, db *sql.DB) (context.Context, *sql.Tx, error) {
+	if err := ctx.Err(); err != nil {
+		return ctx, nil, err
+	}
+	ctx = context.WithoutCancel(ctx)
+	tx, err := db.BeginTx(ctx, nil)
+	return ctx, tx, err
+}
-- 
2.43.0


From 96a65817304761453326fc2b9866a2bc58d17445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:04 +0000
Subject: [PATCH 113/118] fix: a streaming search whose records cannot be read
 fails instead of ending early

---
 pkg/core/streaming.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/core/streaming.go b/pkg/core/streaming.go
index b2764b6..0a3af4d 100644
--- a/pkg/core/streaming.go
+++ b/pkg/core/streaming.go
@@ -48,6 +48,12 @@ func (s *SQLiteStore) StreamSearch(ctx context.Context, query []float32, opts St
 		return nil, wrapError("stream_search", err)
 	}
 
+	// Get all candidates
+	candidates, err := s.fetchCandidates(ctx, opts.SearchOptions)
+	if err != nil {
+		return nil, wrapError("stream_search", err)
+	}
+
 	// Create result channel
 	resultChan := make(chan StreamingResult, opts.BatchSize)
 	
@@ -55,12 +61,6 @@ func (s *SQLiteStore) StreamSearch(ctx context.Context, query []float32, opts St
 	go func() {
 		defer close(resultChan)
 		
-		// Get all candidates
-		candidates, err := s.fetchCandidates(ctx, opts.SearchOptions)
-		if err != nil {
-			return
-		}
-		
 		// Process in batches
 		batchID := 0
 		goodResults := 0
@@ -198,7 +198,7 @@ func CollectTopKFromStream(ctx context.Context, stream <-chan StreamingResult, k
 		case result, ok := <-stream:
 			if !ok {
 				// Stream closed, return what we have
-				return topK, nil
+				return topK, ctx.Err()
 			}
 			
 			// Skip duplicates
-- 
2.43.0


From 2244ad28834e1cab3061244635474abf6ae1382e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:04 +0000
Subject: [PATCH 114/118] fix: a failing database is not taken for a missing
 record or a malformed keyword query

---
 pkg/core/advanced_search.go | 16 +++++++++++++++-
 pkg/core/chat.go            |  2 +-
 pkg/core/multi_vector.go    |  5 +----
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/pkg/core/advanced_search.go b/pkg/core/advanced_search.go
index b8fe2f9..62a0d2a 100644
--- a/pkg/core/advanced_search.go
+++ b/pkg/core/advanced_search.go
@@ -3,6 +3,7 @@ package core
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"math"
 	"math/rand"
@@ -147,7 +148,7 @@ func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, t
 // content matches textQuery, best match first; the caller holds s.mu
 func (s *SQLiteStore) keywordSearch(ctx context.Context, textQuery string, opts SearchOptions, limit int) ([]ScoredEmbedding, error) {
 	results, err := s.keywordSearchFTS(ctx, textQuery, opts, limit)
-	if err != nil && ctx.Err() == nil {
+	if isSQLError(err) {
 		// Not an FTS5 expression: look for its words instead
 		match := quoteFTSWords(textQuery)
 		if match == "" {
@@ -158,6 +159,13 @@ func (s *SQLiteStore) keywordSearch(ctx context.Context, textQuery string, opts
 	return results, err
 }
 
+// isSQLError tells whether the database refused the statement itself, e.g. a malformed FTS5
+// expression, rather than failing to carry it out.
+func isSQLError(err error) bool {
+	var coded interface{ Code() int }
+	return errors.As(err, &coded) && coded.Code() == 1 // SQLITE_ERROR
+}
+
 // quoteFTSWords returns the FTS5 expression for the words of text taken literally.
 func quoteFTSWords(text string) string {
 	words := strings.FieldsFunc(text, func(r rune) bool { return r == 0 || unicode.IsSpace(r) })
@@ -566,6 +574,9 @@ func (s *SQLiteStore) RecommendSimilar(ctx context.Context, positiveIDs []string
 	positiveVectors := [][]float32{}
 	for _, id := range positiveIDs {
 		emb, err := s.GetByID(ctx, id)
+		if err != nil && !errors.Is(err, ErrNotFound) {
+			return nil, err
+		}
 		if err == nil && emb != nil {
 			positiveVectors = append(positiveVectors, emb.Vector)
 		}
@@ -574,6 +585,9 @@ func (s *SQLiteStore) RecommendSimilar(ctx context.Context, positiveIDs []string
 	negativeVectors := [][]float32{}
 	for _, id := range negativeIDs {
 		emb, err := s.GetByID(ctx, id)
+		if err != nil && !errors.Is(err, ErrNotFound) {
+			return nil, err
+		}
 		if err == nil && emb != nil {
 			negativeVectors = append(negativeVectors, emb.Vector)
 		}
diff --git a/pkg/core/chat.go b/pkg/core/chat.go
index 1b94206..a1565d7 100644
--- a/pkg/core/chat.go
+++ b/pkg/core/chat.go
@@ -278,7 +278,7 @@ func (s *SQLiteStore) KeywordSearchMessages(ctx context.Context, query, userID,
 		LIMIT ?
 	`
 	rows, err := s.db.QueryContext(ctx, q, query, userID, excludeSessionID, excludeSessionID, limit)
-	if err != nil && ctx.Err() == nil {
+	if isSQLError(err) {
 		// Not an FTS5 expression: look for its words instead
 		match := quoteFTSWords(query)
 		if match == "" {
diff --git a/pkg/core/multi_vector.go b/pkg/core/multi_vector.go
index 1b33670..9d6382b 100644
--- a/pkg/core/multi_vector.go
+++ b/pkg/core/multi_vector.go
@@ -178,10 +178,7 @@ func (s *SQLiteStore) SearchMultiVector(ctx context.Context, queryVectors map[st
 		
 		results, err := s.search(ctx, queryVector, fieldOpts)
 		if err != nil {
-			if ctx.Err() != nil {
-				return nil, wrapError("multi_vector_search", ctx.Err())
-			}
-			continue
+			return nil, wrapError("multi_vector_search", err)
 		}
 		
 		// Group by entity ID
-- 
2.43.0


From 817e9815cababa0b5c7fec6a1f0e4a0e29c86c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:04 +0000
Subject: [PATCH 115/118] fix: a graph batch fails when the database does, and
 only rows it refuses are skipped

---
 pkg/graph/graph_batch.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pkg/graph/graph_batch.go b/pkg/graph/graph_batch.go
index 2101702..6b4df1d 100644
--- a/pkg/graph/graph_batch.go
+++ b/pkg/graph/graph_batch.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"database/sql"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"strings"
 )
@@ -106,6 +107,9 @@ func (g *GraphStore) UpsertNodesBatch(ctx context.Context, nodes []*GraphNode) (
 			string(propertiesJSON),
 		)
 		
+		if err != nil && !isRefusedRow(err) {
+			return nil, fmt.Errorf("failed to insert node %s: %w", node.ID, err)
+		}
 		if err != nil {
 			result.Errors = append(result.Errors, fmt.Errorf("failed to insert node %s: %w", node.ID, err))
 			result.FailedCount++
@@ -123,6 +127,13 @@ func (g *GraphStore) UpsertNodesBatch(ctx context.Context, nodes []*GraphNode) (
 	return result, g.reindexNodes(stored, nil)
 }
 
+// isRefusedRow tells whether the database refused the row itself, e.g. an edge between nodes that
+// do not exist, rather than failing to store it.
+func isRefusedRow(err error) bool {
+	var coded interface{ Code() int }
+	return errors.As(err, &coded) && coded.Code()&0xff == 19 // SQLITE_CONSTRAINT
+}
+
 // DeleteNodesBatch deletes multiple nodes in a single transaction
 func (g *GraphStore) DeleteNodesBatch(ctx context.Context, nodeIDs []string) (*BatchResult, error) {
 	if len(nodeIDs) == 0 {
@@ -276,6 +287,9 @@ func (g *GraphStore) UpsertEdgesBatch(ctx context.Context, edges []*GraphEdge) (
 			vectorBytes,
 		)
 		
+		if err != nil && !isRefusedRow(err) {
+			return nil, fmt.Errorf("failed to insert edge %s: %w", edge.ID, err)
+		}
 		if err != nil {
 			result.Errors = append(result.Errors, fmt.Errorf("failed to insert edge %s: %w", edge.ID, err))
 			result.FailedCount++
@@ -593,6 +607,9 @@ func (g *GraphStore) upsertNodesBatchTx(ctx context.Context, tx *sql.Tx, nodes [
 		}
 		
 		_, err = stmt.ExecContext(ctx, node.ID, vectorBytes, node.Content, node.NodeType, string(propertiesJSON))
+		if err != nil && !isRefusedRow(err) {
+			return nil, nil, err
+		}
 		if err != nil {
 			result.FailedCount++
 			result.Errors = append(result.Errors, err)
@@ -678,6 +695,9 @@ func (g *GraphStore) upsertEdgesBatchTx(ctx context.Context, tx *sql.Tx, edges [
 		}
 		
 		_, err = stmt.ExecContext(ctx, edge.ID, edge.FromNodeID, edge.ToNodeID, edge.EdgeType, edge.Weight, string(propertiesJSON), vectorBytes)
+		if err != nil && !isRefusedRow(err) {
+			return nil, err
+		}
 		if err != nil {
 			result.FailedCount++
 			result.Errors = append(result.Errors, err)
-- 
2.43.0


From e2c067904536a9a4b700778004a0cbf280ca0b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:04 +0000
Subject: [PATCH 116/118] fix: graph searches report a failing database instead
 of leaving nodes out

---
 pkg/graph/graph.go           |  6 +++++-
 pkg/graph/graph_hnsw.go      | 24 ++++++++++++------------
 pkg/graph/graph_hybrid.go    | 20 +++++++++++---------
 pkg/graph/graph_traversal.go |  6 +++++-
 4 files changed, 33 insertions(+), 23 deletions(-)

diff --git a/pkg/graph/graph.go b/pkg/graph/graph.go
index 757c658..40ea931 100644
--- a/pkg/graph/graph.go
+++ b/pkg/graph/graph.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"database/sql"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
 	"github.com/liliang-cn/cortexdb/v2/pkg/core"
@@ -192,6 +193,9 @@ func (g *GraphStore) UpsertNode(ctx context.Context, node *GraphNode) error {
 	return nil
 }
 
+// errNodeNotFound is returned by GetNode for a node that does not exist
+var errNodeNotFound = errors.New("node not found")
+
 // GetNode retrieves a node by ID
 func (g *GraphStore) GetNode(ctx context.Context, nodeID string) (*GraphNode, error) {
 	query := `
@@ -215,7 +219,7 @@ func (g *GraphStore) GetNode(ctx context.Context, nodeID string) (*GraphNode, er
 	)
 
 	if err == sql.ErrNoRows {
-		return nil, fmt.Errorf("node not found: %s", nodeID)
+		return nil, fmt.Errorf("%w: %s", errNodeNotFound, nodeID)
 	}
 	if err != nil {
 		return nil, err
diff --git a/pkg/graph/graph_hnsw.go b/pkg/graph/graph_hnsw.go
index d4ded5e..dc6116a 100644
--- a/pkg/graph/graph_hnsw.go
+++ b/pkg/graph/graph_hnsw.go
@@ -2,6 +2,7 @@ package graph
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"sort"
 	"sync"
@@ -165,9 +166,12 @@ func (g *GraphStore) HNSWSearch(ctx context.Context, query []float32, k int, thr
 		if candidate.score >= threshold && len(results) < k {
 			// Get full node data
 			node, err := g.GetNode(ctx, candidate.nodeID)
-			if err != nil {
+			if errors.Is(err, errNodeNotFound) {
 				continue
 			}
+			if err != nil {
+				return nil, err
+			}
 
 			results = append(results, &HybridResult{
 				Node:        node,
@@ -178,11 +182,6 @@ func (g *GraphStore) HNSWSearch(ctx context.Context, query []float32, k int, thr
 		}
 	}
 
-	// Lookups cut short must not pass for missing nodes
-	if err := ctx.Err(); err != nil {
-		return nil, err
-	}
-
 	return results, nil
 }
 
@@ -204,15 +203,21 @@ func (g *GraphStore) HNSWHybridSearch(ctx context.Context, query *HybridQuery) (
 	for _, candidate := range candidates {
 		if candidate.score >= query.VectorThreshold {
 			node, err := g.GetNode(ctx, candidate.nodeID)
-			if err != nil {
+			if errors.Is(err, errNodeNotFound) {
 				continue
 			}
+			if err != nil {
+				return nil, err
+			}
 
 			// Calculate graph score if center nodes provided
 			graphScore := 0.0
 			if len(query.CenterNodes) > 0 {
 				for _, centerID := range query.CenterNodes {
 					distance, err := g.ShortestPath(ctx, centerID, candidate.nodeID)
+					if err != nil && !errors.Is(err, errNoPath) && !errors.Is(err, errNodeNotFound) {
+						return nil, err
+					}
 					if err == nil && distance != nil && len(distance.Nodes) > 0 {
 						// Convert path length to score (shorter = higher score)
 						pathScore := 1.0 / float64(len(distance.Nodes))
@@ -236,11 +241,6 @@ func (g *GraphStore) HNSWHybridSearch(ctx context.Context, query *HybridQuery) (
 		}
 	}
 
-	// Lookups cut short must not pass for missing nodes
-	if err := ctx.Err(); err != nil {
-		return nil, err
-	}
-
 	// Sort by total score and limit results
 	sort.Slice(results, func(i, j int) bool {
 		return results[i].TotalScore > results[j].TotalScore
diff --git a/pkg/graph/graph_hybrid.go b/pkg/graph/graph_hybrid.go
index 7c6f02f..3cd4176 100644
--- a/pkg/graph/graph_hybrid.go
+++ b/pkg/graph/graph_hybrid.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"database/sql"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
 	"github.com/liliang-cn/cortexdb/v2/pkg/core"
@@ -70,9 +71,12 @@ func (g *GraphStore) HybridSearch(ctx context.Context, query *HybridQuery) ([]*H
 		if !ok {
 			var err error
 			node, err = g.GetNode(ctx, nodeID)
-			if err != nil {
+			if errors.Is(err, errNodeNotFound) {
 				continue
 			}
+			if err != nil {
+				return nil, err
+			}
 			nodeCache[nodeID] = node
 		}
 
@@ -107,9 +111,12 @@ func (g *GraphStore) HybridSearch(ctx context.Context, query *HybridQuery) ([]*H
 			if !ok {
 				var err error
 				node, err = g.GetNode(ctx, nodeID)
-				if err != nil {
+				if errors.Is(err, errNodeNotFound) {
 					continue
 				}
+				if err != nil {
+					return nil, err
+				}
 				nodeCache[nodeID] = node
 			}
 
@@ -133,11 +140,6 @@ func (g *GraphStore) HybridSearch(ctx context.Context, query *HybridQuery) ([]*H
 		}
 	}
 
-	// Lookups cut short must not pass for missing nodes
-	if err := ctx.Err(); err != nil {
-		return nil, err
-	}
-
 	// Convert to slice and sort by combined score
 	results := make([]*HybridResult, 0, len(nodeScores))
 	for _, result := range nodeScores {
@@ -170,8 +172,8 @@ func (g *GraphStore) GraphVectorSearch(ctx context.Context, startNodeID string,
 	startNode, err := g.GetNode(ctx, startNodeID)
 	if err == nil {
 		neighbors = append([]*GraphNode{startNode}, neighbors...)
-	} else if ctx.Err() != nil {
-		return nil, ctx.Err()
+	} else if !errors.Is(err, errNodeNotFound) {
+		return nil, fmt.Errorf("failed to get start node: %w", err)
 	}
 
 	// Calculate vector similarity for each neighbor
diff --git a/pkg/graph/graph_traversal.go b/pkg/graph/graph_traversal.go
index 849d47e..b64b813 100644
--- a/pkg/graph/graph_traversal.go
+++ b/pkg/graph/graph_traversal.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"database/sql"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
 )
@@ -106,6 +107,9 @@ func (g *GraphStore) Neighbors(ctx context.Context, nodeID string, opts Traversa
 	return neighbors, nil
 }
 
+// errNoPath is returned by ShortestPath for nodes that are not connected
+var errNoPath = errors.New("no path found")
+
 // ShortestPath finds the shortest path between two nodes using BFS
 func (g *GraphStore) ShortestPath(ctx context.Context, fromID, toID string) (*PathResult, error) {
 	if fromID == toID {
@@ -206,7 +210,7 @@ func (g *GraphStore) ShortestPath(ctx context.Context, fromID, toID string) (*Pa
 		}
 	}
 
-	return nil, fmt.Errorf("no path found from %s to %s", fromID, toID)
+	return nil, fmt.Errorf("%w from %s to %s", errNoPath, fromID, toID)
 }
 
 // Subgraph extracts a subgraph containing specified nodes and their connections
-- 
2.43.0


From 5b905ab75c2b266f5184c9b341654061cfc47f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:04 +0000
Subject: [PATCH 117/118] fix: retrieval reports a failing database instead of
 leaving chunks and memories out

---
 pkg/cortexdb/graphrag.go       |  5 ++++-
 pkg/cortexdb/graphrag_tools.go | 23 +++++++----------------
 pkg/cortexdb/memory_api.go     | 17 +++++++----------
 3 files changed, 18 insertions(+), 27 deletions(-)

diff --git a/pkg/cortexdb/graphrag.go b/pkg/cortexdb/graphrag.go
index 66fdad7..21cc411 100644
--- a/pkg/cortexdb/graphrag.go
+++ b/pkg/cortexdb/graphrag.go
@@ -722,8 +722,11 @@ func graphChunkNodeID(documentID string, index int) string {
 // chunkInCollection tells whether a chunk met in the graph is stored in the collection being searched.
 func (db *DB) chunkInCollection(ctx context.Context, chunkID, collection string) (bool, error) {
 	emb, err := db.store.GetByID(ctx, chunkID)
+	if errors.Is(err, core.ErrNotFound) {
+		return false, nil // a chunk that is gone is in no collection
+	}
 	if err != nil {
-		return false, ctx.Err() // a chunk that is gone is in no collection
+		return false, err
 	}
 	return collection == "" || emb.Collection == collection, nil
 }
diff --git a/pkg/cortexdb/graphrag_tools.go b/pkg/cortexdb/graphrag_tools.go
index 6f78db2..a386ff2 100644
--- a/pkg/cortexdb/graphrag_tools.go
+++ b/pkg/cortexdb/graphrag_tools.go
@@ -3,6 +3,7 @@ package cortexdb
 import (
 	"context"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"hash/fnv"
 	"sort"
@@ -835,14 +836,10 @@ func (t *GraphRAGToolbox) searchTextCandidates(ctx context.Context, req ToolSear
 	}
 
 	merged := make(map[string]core.ScoredEmbedding)
-	var firstErr error
 	for idx, query := range queries {
 		results, err := t.db.SearchTextOnly(ctx, query, searchOpts)
 		if err != nil {
-			if firstErr == nil {
-				firstErr = err
-			}
-			continue
+			return nil, err
 		}
 		if len(results) == 0 {
 			continue
@@ -864,9 +861,6 @@ func (t *GraphRAGToolbox) searchTextCandidates(ctx context.Context, req ToolSear
 	}
 
 	if len(merged) == 0 {
-		if firstErr != nil {
-			return nil, firstErr
-		}
 		return nil, nil
 	}
 
@@ -913,10 +907,7 @@ func (t *GraphRAGToolbox) searchChunksByEntities(ctx context.Context, req ToolSe
 			Limit:     req.TopK * 8,
 		})
 		if err != nil {
-			if ctx.Err() != nil {
-				return nil, ctx.Err()
-			}
-			continue
+			return nil, err
 		}
 		for _, node := range neighbors {
 			in, err := t.db.chunkInCollection(ctx, node.ID, collection)
@@ -1272,12 +1263,12 @@ func (t *GraphRAGToolbox) loadToolChunks(ctx context.Context, scoreMap map[strin
 	chunks := make([]ToolChunk, 0, len(orderedIDs))
 	for _, chunkID := range orderedIDs {
 		emb, err := t.db.store.GetByID(ctx, chunkID)
-		if err != nil {
-			if ctx.Err() != nil {
-				return nil, ctx.Err()
-			}
+		if errors.Is(err, core.ErrNotFound) {
 			continue
 		}
+		if err != nil {
+			return nil, err
+		}
 		var entities []string
 		if includeEntities {
 			entities, err = t.getChunkEntityNames(ctx, chunkID)
diff --git a/pkg/cortexdb/memory_api.go b/pkg/cortexdb/memory_api.go
index 6fb752f..0df1a9f 100644
--- a/pkg/cortexdb/memory_api.go
+++ b/pkg/cortexdb/memory_api.go
@@ -162,7 +162,10 @@ func (db *DB) SearchMemory(ctx context.Context, req MemorySearchRequest) (*Memor
 		queryVec, err := db.embedder.Embed(ctx, req.Query)
 		if err == nil {
 			hits, err := db.searchMemorySemantic(ctx, bucketID, queryVec, req.TopK)
-			if err == nil && len(hits) > 0 {
+			if err != nil && !errors.Is(err, core.ErrNotFound) {
+				return nil, err
+			}
+			if len(hits) > 0 {
 				return &MemorySearchResponse{Query: req.Query, Results: hits}, nil
 			}
 		}
@@ -351,7 +354,6 @@ func (db *DB) searchMemoryLexical(ctx context.Context, bucketID, query string, k
 		score  float64
 	}
 	merged := make(map[string]scoredMemory)
-	var firstErr error
 
 	const matchQuery = `
 			SELECT m.id, m.session_id, s.user_id, m.role, m.content, m.metadata, m.created_at, bm25(messages_fts)
@@ -365,7 +367,8 @@ func (db *DB) searchMemoryLexical(ctx context.Context, bucketID, query string, k
 
 	for idx, searchQuery := range queries {
 		rows, err := db.store.GetDB().QueryContext(ctx, matchQuery, searchQuery, bucketID)
-		if err != nil && ctx.Err() == nil {
+		var refused interface{ Code() int }
+		if errors.As(err, &refused) && refused.Code() == 1 { // SQLITE_ERROR
 			// Not an FTS5 expression: look for its words instead
 			match := quoteFTSWords(searchQuery)
 			if match == "" {
@@ -374,10 +377,7 @@ func (db *DB) searchMemoryLexical(ctx context.Context, bucketID, query string, k
 			rows, err = db.store.GetDB().QueryContext(ctx, matchQuery, match, bucketID)
 		}
 		if err != nil {
-			if firstErr == nil {
-				firstErr = fmt.Errorf("search memory lexical: %w", err)
-			}
-			continue
+			return nil, fmt.Errorf("search memory lexical: %w", err)
 		}
 
 		live := 0
@@ -422,9 +422,6 @@ func (db *DB) searchMemoryLexical(ctx context.Context, bucketID, query string, k
 			return nil, fmt.Errorf("close lexical memory rows: %w", err)
 		}
 	}
-	if len(merged) == 0 && firstErr != nil {
-		return nil, firstErr
-	}
 
 	ordered := make([]scoredMemory, 0, len(merged))
 	for _, hit := range merged {
-- 
2.43.0


From 481370141a01ecbeee7c74f519b275d3fa195149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:04 +0000
Subject: [PATCH 118/118] fix: Recall reports a strategy that failed

---
 pkg/hindsight/hindsight.go | 80 +++++++++++++++++++-------------------
 1 file changed, 41 insertions(+), 39 deletions(-)

diff --git a/pkg/hindsight/hindsight.go b/pkg/hindsight/hindsight.go
index 9fe4774..e90e937 100644
--- a/pkg/hindsight/hindsight.go
+++ b/pkg/hindsight/hindsight.go
@@ -7,6 +7,7 @@ package hindsight
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"strings"
 	"sync"
@@ -235,6 +236,7 @@ func (s *System) Recall(ctx context.Context, req *RecallRequest) ([]*RecallResul
 	}
 
 	var allResults []*RecallResult
+	var failed error
 	var wg sync.WaitGroup
 	resultsMu := sync.Mutex{}
 
@@ -243,11 +245,11 @@ func (s *System) Recall(ctx context.Context, req *RecallRequest) ([]*RecallResul
 		wg.Add(1)
 		go func() {
 			defer wg.Done()
-			if results := s.semanticSearch(ctx, req); results != nil {
-				resultsMu.Lock()
-				allResults = append(allResults, results...)
-				resultsMu.Unlock()
-			}
+			results, err := s.semanticSearch(ctx, req)
+			resultsMu.Lock()
+			allResults = append(allResults, results...)
+			failed = errors.Join(failed, err)
+			resultsMu.Unlock()
 		}()
 	}
 
@@ -255,11 +257,11 @@ func (s *System) Recall(ctx context.Context, req *RecallRequest) ([]*RecallResul
 		wg.Add(1)
 		go func() {
 			defer wg.Done()
-			if results := s.keywordSearch(ctx, req); results != nil {
-				resultsMu.Lock()
-				allResults = append(allResults, results...)
-				resultsMu.Unlock()
-			}
+			results, err := s.keywordSearch(ctx, req)
+			resultsMu.Lock()
+			allResults = append(allResults, results...)
+			failed = errors.Join(failed, err)
+			resultsMu.Unlock()
 		}()
 	}
 
@@ -267,11 +269,11 @@ func (s *System) Recall(ctx context.Context, req *RecallRequest) ([]*RecallResul
 		wg.Add(1)
 		go func() {
 			defer wg.Done()
-			if results := s.temporalSearch(ctx, req); results != nil {
-				resultsMu.Lock()
-				allResults = append(allResults, results...)
-				resultsMu.Unlock()
-			}
+			results, err := s.temporalSearch(ctx, req)
+			resultsMu.Lock()
+			allResults = append(allResults, results...)
+			failed = errors.Join(failed, err)
+			resultsMu.Unlock()
 		}()
 	}
 
@@ -279,19 +281,19 @@ func (s *System) Recall(ctx context.Context, req *RecallRequest) ([]*RecallResul
 		wg.Add(1)
 		go func() {
 			defer wg.Done()
-			if results := s.entitySearch(ctx, req); results != nil {
-				resultsMu.Lock()
-				allResults = append(allResults, results...)
-				resultsMu.Unlock()
-			}
+			results, err := s.entitySearch(ctx, req)
+			resultsMu.Lock()
+			allResults = append(allResults, results...)
+			failed = errors.Join(failed, err)
+			resultsMu.Unlock()
 		}()
 	}
 
 	wg.Wait()
 
-	// A strategy cut short must not pass for one that found nothing
-	if err := ctx.Err(); err != nil {
-		return nil, err
+	// A strategy that failed must not pass for one that found nothing
+	if failed != nil {
+		return nil, failed
 	}
 
 	// Count how many strategies returned results
@@ -347,7 +349,7 @@ func (s *System) Recall(ctx context.Context, req *RecallRequest) ([]*RecallResul
 }
 
 // semanticSearch performs vector similarity search.
-func (s *System) semanticSearch(ctx context.Context, req *RecallRequest) []*RecallResult {
+func (s *System) semanticSearch(ctx context.Context, req *RecallRequest) ([]*RecallResult, error) {
 	topK := req.Strategy.TopK
 	if topK == 0 {
 		topK = req.TopK
@@ -364,7 +366,7 @@ func (s *System) semanticSearch(ctx context.Context, req *RecallRequest) []*Reca
 
 	results, err := s.store.Search(ctx, req.QueryVector, opts)
 	if err != nil {
-		return nil
+		return nil, err
 	}
 
 	out := make([]*RecallResult, 0, len(results))
@@ -378,11 +380,11 @@ func (s *System) semanticSearch(ctx context.Context, req *RecallRequest) []*Reca
 			})
 		}
 	}
-	return out
+	return out, nil
 }
 
 // keywordSearch performs BM25 keyword search using HybridSearch.
-func (s *System) keywordSearch(ctx context.Context, req *RecallRequest) []*RecallResult {
+func (s *System) keywordSearch(ctx context.Context, req *RecallRequest) ([]*RecallResult, error) {
 	topK := req.Strategy.TopK
 	if topK == 0 {
 		topK = req.TopK
@@ -407,7 +409,7 @@ func (s *System) keywordSearch(ctx context.Context, req *RecallRequest) []*Recal
 	// Without a query vector this searches by keywords alone
 	results, err := s.store.HybridSearch(ctx, req.QueryVector, req.Query, opts)
 	if err != nil {
-		return nil
+		return nil, err
 	}
 
 	out := make([]*RecallResult, 0, len(results))
@@ -421,14 +423,14 @@ func (s *System) keywordSearch(ctx context.Context, req *RecallRequest) []*Recal
 			})
 		}
 	}
-	return out
+	return out, nil
 }
 
 // temporalSearch performs time-range filtered search.
-func (s *System) temporalSearch(ctx context.Context, req *RecallRequest) []*RecallResult {
+func (s *System) temporalSearch(ctx context.Context, req *RecallRequest) ([]*RecallResult, error) {
 	tf := req.Strategy.Temporal
 	if tf == nil {
-		return nil
+		return nil, nil
 	}
 
 	topK := req.Strategy.TopK
@@ -440,13 +442,13 @@ func (s *System) temporalSearch(ctx context.Context, req *RecallRequest) []*Reca
 	}
 
 	if req.QueryVector == nil {
-		return nil // Need vector for search
+		return nil, nil // Need vector for search
 	}
 
 	// For temporal search, we first get all bank memories then filter
 	results, err := s.rankAll(ctx, req.QueryVector, map[string]string{"bank_id": req.BankID})
 	if err != nil {
-		return nil
+		return nil, err
 	}
 
 	// Filter by time range
@@ -478,13 +480,13 @@ func (s *System) temporalSearch(ctx context.Context, req *RecallRequest) []*Reca
 		}
 	}
 
-	return out
+	return out, nil
 }
 
 // entitySearch performs graph-based entity search.
-func (s *System) entitySearch(ctx context.Context, req *RecallRequest) []*RecallResult {
+func (s *System) entitySearch(ctx context.Context, req *RecallRequest) ([]*RecallResult, error) {
 	if len(req.Strategy.Entity) == 0 {
-		return nil
+		return nil, nil
 	}
 
 	topK := req.Strategy.TopK
@@ -496,13 +498,13 @@ func (s *System) entitySearch(ctx context.Context, req *RecallRequest) []*Recall
 	}
 
 	if req.QueryVector == nil {
-		return nil // Need vector for search
+		return nil, nil // Need vector for search
 	}
 
 	// Find memories that contain the specified entities
 	results, err := s.rankAll(ctx, req.QueryVector, map[string]string{"bank_id": req.BankID})
 	if err != nil {
-		return nil
+		return nil, err
 	}
 
 	wanted := make(map[string]bool, len(req.Strategy.Entity))
@@ -531,7 +533,7 @@ func (s *System) entitySearch(ctx context.Context, req *RecallRequest) []*Recall
 		}
 	}
 
-	return out
+	return out, nil
 }
 
 // rankAll returns all memories whose metadata match filter, those closest to query first.
-- 
2.43.0

