From 96074e2753aa18d75bcd9d9ecd2b2e59238925ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 01/43] fix: index caches deadlock and lose documents under
 concurrent add and remove

AddDocToCache took tableLock then removeCacheLock while RemoveDocToCache took
them the other way round, and both handed cache slices to the table writers
after releasing the locks that protect them.
---
 core/indexer.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index ac9fc56..b5e77a6 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -118,7 +118,10 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 		log.Fatal("The Indexer has not been initialized.")
 	}
 
+	// 加锁顺序固定为 addCacheLock -> removeCacheLock -> tableLock，
+	// 缓存切片在写入索引表之前不能被其他协程复用，因此持有锁直到写入完成
 	indexer.addCacheLock.Lock()
+	defer indexer.addCacheLock.Unlock()
 	if doc != nil {
 		indexer.addCacheLock.addCache[indexer.addCacheLock.addCachePointer] = doc
 		indexer.addCacheLock.addCachePointer++
@@ -126,6 +129,7 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 
 	docSize := indexer.addCacheLock.addCachePointer >= indexer.initOptions.DocCacheSize
 	if docSize || forceUpdate {
+		indexer.removeCacheLock.Lock()
 		indexer.tableLock.Lock()
 
 		position := 0
@@ -143,11 +147,9 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 
 				if docState == 0 {
 					// delete docs
-					indexer.removeCacheLock.Lock()
 					indexer.removeCacheLock.removeCache[indexer.removeCacheLock.removeCachePointer] =
 						docIndex.DocId
 					indexer.removeCacheLock.removeCachePointer++
-					indexer.removeCacheLock.Unlock()
 
 					indexer.tableLock.docsState[docIndex.DocId] = 1
 					indexer.numDocs--
@@ -159,19 +161,17 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 		}
 
 		indexer.tableLock.Unlock()
-		if indexer.RemoveDocToCache("0", forceUpdate) {
+		if indexer.flushRemoveCache(forceUpdate) {
 			// 只有当存在于索引表中的文档已被删除，其才可以重新加入到索引表中
 			position = 0
 		}
+		indexer.removeCacheLock.Unlock()
 
 		addCachedDocs := indexer.addCacheLock.addCache[position:indexer.addCacheLock.addCachePointer]
 		indexer.addCacheLock.addCachePointer = position
 
-		indexer.addCacheLock.Unlock()
 		sort.Sort(addCachedDocs)
 		indexer.AddDocs(&addCachedDocs)
-	} else {
-		indexer.addCacheLock.Unlock()
 	}
 }
 
@@ -263,6 +263,7 @@ func (indexer *Indexer) RemoveDocToCache(docId string, forceUpdate bool) bool {
 	}
 
 	indexer.removeCacheLock.Lock()
+	defer indexer.removeCacheLock.Unlock()
 	if docId != "0" {
 		indexer.tableLock.Lock()
 		docState, ok := indexer.tableLock.docsState[docId]
@@ -280,18 +281,21 @@ func (indexer *Indexer) RemoveDocToCache(docId string, forceUpdate bool) bool {
 		indexer.tableLock.Unlock()
 	}
 
+	return indexer.flushRemoveCache(forceUpdate)
+}
+
+// flushRemoveCache 将 REMOVECACHE 中的文档从索引表中删除，调用者必须持有 removeCacheLock
+func (indexer *Indexer) flushRemoveCache(forceUpdate bool) bool {
 	docSizeFU := indexer.removeCacheLock.removeCachePointer >= indexer.initOptions.DocCacheSize ||
 		forceUpdate
 	if indexer.removeCacheLock.removeCachePointer > 0 && docSizeFU {
 		removeCacheddocs := indexer.removeCacheLock.removeCache[:indexer.removeCacheLock.removeCachePointer]
 		indexer.removeCacheLock.removeCachePointer = 0
-		indexer.removeCacheLock.Unlock()
 		sort.Sort(removeCacheddocs)
 		indexer.RemoveDocs(&removeCacheddocs)
 		return true
 	}
 
-	indexer.removeCacheLock.Unlock()
 	return false
 }
 
-- 
2.43.0


From 3ef29a97587046af39af6d21b62e0f3fd241b17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 02/43] fix: add cache overflows when it is full of re-indexed
 documents

---
 core/indexer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/indexer.go b/core/indexer.go
index b5e77a6..74066ff 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -161,7 +161,9 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 		}
 
 		indexer.tableLock.Unlock()
-		if indexer.flushRemoveCache(forceUpdate) {
+		// 缓存中全部为待更新文档时必须腾出空间，否则下一个文档将无处可放
+		noRoom := position >= indexer.initOptions.DocCacheSize
+		if indexer.flushRemoveCache(forceUpdate || noRoom) {
 			// 只有当存在于索引表中的文档已被删除，其才可以重新加入到索引表中
 			position = 0
 		}
-- 
2.43.0


From d7a62e9f7af6a32b0125d4a52f3efe6068961991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 03/43] fix: a document removed while waiting to be added can
 never be indexed again

---
 core/indexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/indexer.go b/core/indexer.go
index 74066ff..60d94cc 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -198,6 +198,8 @@ func (indexer *Indexer) AddDocs(docs *types.DocsIndex) {
 		if ok && docState == 1 {
 			// 如果此时 docState 仍为 1，说明该文档需被删除
 			// docState 合法状态为 nil & 2，保证一定不会插入已经在索引表中的文档
+			// 文档从未进入索引表，不会再有删除操作来清除其状态
+			delete(indexer.tableLock.docsState, doc.DocId)
 			continue
 		}
 
-- 
2.43.0


From 3a9e3a538460e59b42e309fd0abc9e8de540540d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 04/43] fix: an older version of a document indexed twice in
 one batch can win

The batch was sorted with an unstable sort and partitioned by swapping, while
AddDocs relies on the last version of a document coming last.
---
 core/indexer.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index 60d94cc..3eb2d26 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -133,6 +133,8 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 		indexer.tableLock.Lock()
 
 		position := 0
+		// 待更新文档移到前面，其余文档保持先后顺序，重复文档以最后加入的为准
+		newDocs := make(types.DocsIndex, 0, indexer.addCacheLock.addCachePointer)
 		for i := 0; i < indexer.addCacheLock.addCachePointer; i++ {
 			docIndex := indexer.addCacheLock.addCache[i]
 
@@ -140,10 +142,7 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 			if ok && docState <= 1 {
 				// ok && docState == 0 表示存在于索引中，需先删除再添加
 				// ok && docState == 1 表示不一定存在于索引中，等待删除，需先删除再添加
-				if position != i {
-					indexer.addCacheLock.addCache[position], indexer.addCacheLock.addCache[i] =
-						indexer.addCacheLock.addCache[i], indexer.addCacheLock.addCache[position]
-				}
+				indexer.addCacheLock.addCache[position] = docIndex
 
 				if docState == 0 {
 					// delete docs
@@ -155,10 +154,15 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 					indexer.numDocs--
 				}
 				position++
-			} else if !ok {
+				continue
+			}
+
+			if !ok {
 				indexer.tableLock.docsState[docIndex.DocId] = 2
 			}
+			newDocs = append(newDocs, docIndex)
 		}
+		copy(indexer.addCacheLock.addCache[position:], newDocs)
 
 		indexer.tableLock.Unlock()
 		// 缓存中全部为待更新文档时必须腾出空间，否则下一个文档将无处可放
@@ -172,7 +176,7 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 		addCachedDocs := indexer.addCacheLock.addCache[position:indexer.addCacheLock.addCachePointer]
 		indexer.addCacheLock.addCachePointer = position
 
-		sort.Sort(addCachedDocs)
+		sort.Stable(addCachedDocs)
 		indexer.AddDocs(&addCachedDocs)
 	}
 }
-- 
2.43.0


From 4e9384786c638b473d8cc1ad1d99337a836ac600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 05/43] fix: searching labels only panics with a LocsIndex
 index

---
 core/indexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/indexer.go b/core/indexer.go
index 3eb2d26..3d6cd33 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -506,7 +506,8 @@ func (indexer *Indexer) internalLookup(
 						numTokensWithLocations++
 					}
 				}
-				if numTokensWithLocations != len(tokens) {
+				// 仅有标签而没有关键词时不存在紧邻距离
+				if len(tokens) == 0 || numTokensWithLocations != len(tokens) {
 					if !countDocsOnly {
 						docs = append(docs, types.IndexedDoc{
 							DocId: baseDocId,
-- 
2.43.0


From 00cc7a0ae2f43c033c19089cfbed58491f6f24e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 06/43] fix: logic search reuses one clause's expressions for
 the next clause

A Must expression leaked into Should/NotIn requested by flag, and a Must flag
without keywords panicked on an empty table.
---
 core/indexer.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index 3d6cd33..7810492 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -584,11 +584,12 @@ func (indexer *Indexer) LogicLookup(
 	// 如果存在与搜索键, 则要求所有的与搜索键都有对应的反向表
 	mustTable := make([]*KeywordIndices, 0)
 
+	mustExpr := logicExpr
 	if len(logic.Expr.Must) > 0 {
-		logicExpr = logic.Expr.Must
+		mustExpr = logic.Expr.Must
 	}
 	if logic.Must == true || len(logic.Expr.Must) > 0 {
-		for _, keyword := range logicExpr {
+		for _, keyword := range mustExpr {
 			indices, found := indexer.tableLock.table[keyword]
 			if !found {
 				return
@@ -603,12 +604,13 @@ func (indexer *Indexer) LogicLookup(
 	// 2. 逻辑或和逻辑与之间是与关系
 	shouldTable := make([]*KeywordIndices, 0)
 
+	shouldExpr := logicExpr
 	if len(logic.Expr.Should) > 0 {
-		logicExpr = logic.Expr.Should
+		shouldExpr = logic.Expr.Should
 	}
 
 	if logic.Should == true || len(logic.Expr.Should) > 0 {
-		for _, keyword := range logicExpr {
+		for _, keyword := range shouldExpr {
 			indices, found := indexer.tableLock.table[keyword]
 			if found {
 				shouldTable = append(shouldTable, indices)
@@ -624,11 +626,12 @@ func (indexer *Indexer) LogicLookup(
 	// 可以不存在逻辑非搜索（NotInTable为空), 允许逻辑非搜索键对应的反向表为空
 	notInTable := make([]*KeywordIndices, 0)
 
+	notInExpr := logicExpr
 	if len(logic.Expr.NotIn) > 0 {
-		logicExpr = logic.Expr.NotIn
+		notInExpr = logic.Expr.NotIn
 	}
 	if logic.NotIn == true || len(logic.Expr.NotIn) > 0 {
-		for _, keyword := range logicExpr {
+		for _, keyword := range notInExpr {
 			indices, found := indexer.tableLock.table[keyword]
 			if found {
 				notInTable = append(notInTable, indices)
@@ -638,7 +641,7 @@ func (indexer *Indexer) LogicLookup(
 
 	// 开始检索
 	numDocs = 0
-	if logic.Must == true || len(logic.Expr.Must) > 0 {
+	if len(mustTable) > 0 {
 		// 如果存在逻辑与检索
 		for idx := indexer.getIndexLen(mustTable[0]) - 1; idx >= 0; idx-- {
 			baseDocId := indexer.getDocId(mustTable[0], idx)
-- 
2.43.0


From e529f96ba9f9e7dc7c13dac1f9f6c620a2e4d780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 07/43] fix: HasDoc corrupts the engine it queries

Every call appended to engine.indexers, moving the live indexers (and the locks
inside them) while workers used them, and read the document states unlocked.
---
 core/indexer.go | 3 +++
 riot.go         | 3 ---
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index 7810492..78e3b58 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -99,6 +99,9 @@ func (indexer *Indexer) getDocId(ti *KeywordIndices, i int) string {
 
 // HasDoc doc is exist return true
 func (indexer *Indexer) HasDoc(docId string) bool {
+	indexer.tableLock.RLock()
+	defer indexer.tableLock.RUnlock()
+
 	docState, ok := indexer.tableLock.docsState[docId]
 	if ok && docState == 0 {
 		return true
diff --git a/riot.go b/riot.go
index ffc121b..be398b0 100644
--- a/riot.go
+++ b/riot.go
@@ -23,7 +23,6 @@ import (
 	"encoding/gob"
 
 	"github.com/go-ego/murmur"
-	"github.com/go-ego/riot/core"
 	"github.com/go-ego/riot/types"
 	toml "github.com/go-vgo/gt/conf"
 )
@@ -105,8 +104,6 @@ func NewEngine(conf ...interface{}) *Engine {
 // HasDoc if the document is exist return true
 func (engine *Engine) HasDoc(docId string) bool {
 	for shard := 0; shard < engine.initOptions.NumShards; shard++ {
-		engine.indexers = append(engine.indexers, core.Indexer{})
-
 		has := engine.indexers[shard].HasDoc(docId)
 
 		if has {
-- 
2.43.0


From 1a8f11a80ca72c1b87889612041b931813d62232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:20 +0000
Subject: [PATCH 08/43] fix: counters are read without synchronization

---
 counters.go | 16 ++++++++++------
 engine.go   |  2 +-
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/counters.go b/counters.go
index b625429..ccbe958 100755
--- a/counters.go
+++ b/counters.go
@@ -15,32 +15,36 @@
 
 package riot
 
+import (
+	"sync/atomic"
+)
+
 // NumTokenAdded added token index number
 func (engine *Engine) NumTokenAdded() uint64 {
-	return engine.numTokenIndexAdded
+	return atomic.LoadUint64(&engine.numTokenIndexAdded)
 }
 
 // NumIndexed documents indexed number
 func (engine *Engine) NumIndexed() uint64 {
-	return engine.numDocsIndexed
+	return atomic.LoadUint64(&engine.numDocsIndexed)
 }
 
 // NumRemoved documents removed number
 func (engine *Engine) NumRemoved() uint64 {
-	return engine.numDocsRemoved
+	return atomic.LoadUint64(&engine.numDocsRemoved)
 }
 
 // NumTokenIndexAdded added token index number, deprecated
 func (engine *Engine) NumTokenIndexAdded() uint64 {
-	return engine.numTokenIndexAdded
+	return atomic.LoadUint64(&engine.numTokenIndexAdded)
 }
 
 // NumDocsIndexed documents indexed number, deprecated
 func (engine *Engine) NumDocsIndexed() uint64 {
-	return engine.numDocsIndexed
+	return atomic.LoadUint64(&engine.numDocsIndexed)
 }
 
 // NumDocsRemoved documents removed number, deprecated
 func (engine *Engine) NumDocsRemoved() uint64 {
-	return engine.numDocsRemoved
+	return atomic.LoadUint64(&engine.numDocsRemoved)
 }
diff --git a/engine.go b/engine.go
index 5a83df7..fe18699 100755
--- a/engine.go
+++ b/engine.go
@@ -217,7 +217,7 @@ func (engine *Engine) Store() {
 		runtime.Gosched()
 
 		inx := atomic.LoadUint64(&engine.numDocsIndexed)
-		numDoced := engine.numIndexingReqs == inx
+		numDoced := atomic.LoadUint64(&engine.numIndexingReqs) == inx
 
 		if numDoced {
 			break
-- 
2.43.0


From 87f4b101b63f251825b71fe0b0176ff1987dbb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 09/43] fix: Flush returns before earlier requests are complete

It did not wait for the rankers, so a document could be unsearchable after Flush
or dropped by a late ranker removal, and it compared a request count read before
the completion count, so somebody else's later request could stand in for an
earlier one.
---
 engine.go        | 27 +++++++++++++++++++++------
 ranker_worker.go |  4 ++++
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/engine.go b/engine.go
index fe18699..cc9280a 100755
--- a/engine.go
+++ b/engine.go
@@ -75,6 +75,10 @@ type Engine struct {
 	numTokenIndexAdded   uint64
 	numDocsStored        uint64
 
+	// 排序器中已添加和已删除的文档计数
+	numDocsRanked   uint64
+	numDocsUnranked uint64
+
 	// 记录初始化参数
 	initOptions types.EngineOpts
 	initialized bool
@@ -813,11 +817,20 @@ func (engine *Engine) Flush() {
 	for {
 		runtime.Gosched()
 
-		inxd := engine.numIndexingReqs == atomic.LoadUint64(&engine.numDocsIndexed)
-		numRm := engine.numRemovingReqs * uint64(engine.initOptions.NumShards)
-		rmd := numRm == atomic.LoadUint64(&engine.numDocsRemoved)
+		// 先读取完成数再读取请求数，两者相等才能说明之前的请求全部完成
+		indexed := atomic.LoadUint64(&engine.numDocsIndexed)
+		ranked := atomic.LoadUint64(&engine.numDocsRanked)
+		removed := atomic.LoadUint64(&engine.numDocsRemoved)
+		unranked := atomic.LoadUint64(&engine.numDocsUnranked)
+		numStored := atomic.LoadUint64(&engine.numDocsStored)
+
+		numInx := atomic.LoadUint64(&engine.numIndexingReqs)
+		inxd := numInx == indexed && numInx == ranked
+		numRm := atomic.LoadUint64(&engine.numRemovingReqs) *
+			uint64(engine.initOptions.NumShards)
+		rmd := numRm == removed && numRm == unranked
 
-		nums := engine.numIndexingReqs == atomic.LoadUint64(&engine.numDocsStored)
+		nums := numInx == numStored
 		stored := !engine.initOptions.UseStore || nums
 
 		if inxd && rmd && stored {
@@ -831,8 +844,10 @@ func (engine *Engine) Flush() {
 	for {
 		runtime.Gosched()
 
-		numf := engine.numForceUpdatingReqs * uint64(engine.initOptions.NumShards)
-		forced := numf == atomic.LoadUint64(&engine.numDocsForceUpdated)
+		forceUpdated := atomic.LoadUint64(&engine.numDocsForceUpdated)
+		numf := atomic.LoadUint64(&engine.numForceUpdatingReqs) *
+			uint64(engine.initOptions.NumShards)
+		forced := numf == forceUpdated
 
 		if forced {
 			return
diff --git a/ranker_worker.go b/ranker_worker.go
index ef60590..d2cb0ed 100755
--- a/ranker_worker.go
+++ b/ranker_worker.go
@@ -16,6 +16,8 @@
 package riot
 
 import (
+	"sync/atomic"
+
 	"github.com/go-ego/riot/types"
 )
 
@@ -54,6 +56,7 @@ func (engine *Engine) rankerAddDoc(shard int) {
 			engine.rankers[shard].AddDoc(request.docId, request.fields,
 				request.content, request.attri)
 		}
+		atomic.AddUint64(&engine.numDocsRanked, 1)
 	}
 }
 
@@ -76,5 +79,6 @@ func (engine *Engine) rankerRemoveDoc(shard int) {
 	for {
 		request := <-engine.rankerRemoveDocChans[shard]
 		engine.rankers[shard].RemoveDoc(request.docId)
+		atomic.AddUint64(&engine.numDocsUnranked, 1)
 	}
 }
-- 
2.43.0


From 56aae1a25267b8f9ee59a911c6556ad825789968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 10/43] fix: a removed document can survive in the persistent
 store

The deletion ran in its own goroutine: Flush and Close did not wait for it, and
it could overtake or be overtaken by a write of the same document.
---
 engine.go       | 10 ++++++++--
 store_worker.go |  9 +++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/engine.go b/engine.go
index cc9280a..9377fd2 100755
--- a/engine.go
+++ b/engine.go
@@ -79,6 +79,9 @@ type Engine struct {
 	numDocsRanked   uint64
 	numDocsUnranked uint64
 
+	// 已从持久存储中删除的文档计数
+	numDocsUnstored uint64
+
 	// 记录初始化参数
 	initOptions types.EngineOpts
 	initialized bool
@@ -462,7 +465,9 @@ func (engine *Engine) RemoveDoc(docId string, forceUpdate ...bool) {
 		// 从数据库中删除
 		hash := murmur.Sum32(docId) % uint32(engine.initOptions.StoreShards)
 
-		go engine.storeRemoveDoc(docId, hash)
+		// 与写入走同一通道，保证同一文档的写入和删除按请求的先后执行
+		engine.storeIndexDocChans[hash] <- storeIndexDocReq{
+			docId: docId, remove: true}
 	}
 }
 
@@ -823,6 +828,7 @@ func (engine *Engine) Flush() {
 		removed := atomic.LoadUint64(&engine.numDocsRemoved)
 		unranked := atomic.LoadUint64(&engine.numDocsUnranked)
 		numStored := atomic.LoadUint64(&engine.numDocsStored)
+		numUnstored := atomic.LoadUint64(&engine.numDocsUnstored)
 
 		numInx := atomic.LoadUint64(&engine.numIndexingReqs)
 		inxd := numInx == indexed && numInx == ranked
@@ -830,7 +836,7 @@ func (engine *Engine) Flush() {
 			uint64(engine.initOptions.NumShards)
 		rmd := numRm == removed && numRm == unranked
 
-		nums := numInx == numStored
+		nums := numInx == numStored && atomic.LoadUint64(&engine.numRemovingReqs) == numUnstored
 		stored := !engine.initOptions.UseStore || nums
 
 		if inxd && rmd && stored {
diff --git a/store_worker.go b/store_worker.go
index 6463dfd..1bdaf80 100755
--- a/store_worker.go
+++ b/store_worker.go
@@ -28,12 +28,21 @@ type storeIndexDocReq struct {
 	docId string
 	data  types.DocData
 	// data        types.DocumentIndexData
+
+	// 为 true 时删除该文档
+	remove bool
 }
 
 func (engine *Engine) storeIndexDoc(shard int) {
 	for {
 		request := <-engine.storeIndexDocChans[shard]
 
+		if request.remove {
+			engine.storeRemoveDoc(request.docId, uint32(shard))
+			atomic.AddUint64(&engine.numDocsUnstored, 1)
+			continue
+		}
+
 		// 得到 key
 		b := []byte(request.docId)
 
-- 
2.43.0


From 8eda23d0de16a7d9b6dc324f3fb5b6895ee14c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 11/43] fix: re-indexing a document with new content leaves the
 old one searchable

The shard was chosen from the id and the content, so an update went to another
shard and never replaced the version in the first one.
---
 engine.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 9377fd2..3b56d0e 100755
--- a/engine.go
+++ b/engine.go
@@ -64,6 +64,9 @@ func GetVersion() string {
 type Engine struct {
 	loc sync.RWMutex
 
+	// 文档的 hash，决定文档所在的 shard，由 loc 保护
+	docHashes map[string]uint32
+
 	// 计数器，用来统计有多少文档被索引等信息
 	numDocsIndexed      uint64
 	numDocsRemoved      uint64
@@ -316,6 +319,8 @@ func (engine *Engine) Init(options types.EngineOpts) {
 		engine.rankers[shard].Init(options.IDOnly)
 	}
 
+	engine.docHashes = make(map[string]uint32)
+
 	// 初始化分词器通道
 	engine.segmenterChan = make(
 		chan segmenterReq, options.NumGseThreads)
@@ -417,7 +422,17 @@ func (engine *Engine) internalIndexDoc(docId string, data types.DocData,
 		atomic.AddUint64(&engine.numForceUpdatingReqs, 1)
 	}
 
-	hash := murmur.Sum32(fmt.Sprintf("%s%s", docId, data.Content))
+	// 更新文档时必须分配到原来的 shard，否则旧的内容会留在另一个 shard 中
+	engine.loc.Lock()
+	hash, found := engine.docHashes[docId]
+	if !found {
+		hash = murmur.Sum32(fmt.Sprintf("%s%s", docId, data.Content))
+		if docId != "0" {
+			engine.docHashes[docId] = hash
+		}
+	}
+	engine.loc.Unlock()
+
 	engine.segmenterChan <- segmenterReq{
 		docId: docId, hash: hash, data: data, forceUpdate: forceUpdate}
 }
@@ -445,6 +460,10 @@ func (engine *Engine) RemoveDoc(docId string, forceUpdate ...bool) {
 
 	if docId != "0" {
 		atomic.AddUint64(&engine.numRemovingReqs, 1)
+
+		engine.loc.Lock()
+		delete(engine.docHashes, docId)
+		engine.loc.Unlock()
 	}
 
 	if force {
-- 
2.43.0


From ab8401ff3bdee90458b109728a3e84cf384307fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 12/43] fix: two updates of one document can be applied in the
 wrong order

Any segmenter thread took the next request, so of two Index calls made one after
the other the first could reach the index last.
---
 engine.go  | 15 ++++++++++-----
 segment.go |  4 ++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/engine.go b/engine.go
index 3b56d0e..0b709de 100755
--- a/engine.go
+++ b/engine.go
@@ -97,7 +97,7 @@ type Engine struct {
 	dbs        []store.Store
 
 	// 建立索引器使用的通信通道
-	segmenterChan         chan segmenterReq
+	segmenterChans        []chan segmenterReq
 	indexerAddDocChans    []chan indexerAddDocReq
 	indexerRemoveDocChans []chan indexerRemoveDocReq
 	rankerAddDocChans     []chan rankerAddDocReq
@@ -322,8 +322,11 @@ func (engine *Engine) Init(options types.EngineOpts) {
 	engine.docHashes = make(map[string]uint32)
 
 	// 初始化分词器通道
-	engine.segmenterChan = make(
-		chan segmenterReq, options.NumGseThreads)
+	engine.segmenterChans = make(
+		[]chan segmenterReq, options.NumGseThreads)
+	for iThread := 0; iThread < options.NumGseThreads; iThread++ {
+		engine.segmenterChans[iThread] = make(chan segmenterReq, 1)
+	}
 
 	// 初始化索引器通道
 	engine.Indexer(options)
@@ -341,7 +344,7 @@ func (engine *Engine) Init(options types.EngineOpts) {
 
 	// 启动分词器
 	for iThread := 0; iThread < options.NumGseThreads; iThread++ {
-		go engine.segmenterWorker()
+		go engine.segmenterWorker(iThread)
 	}
 
 	// 启动索引器和排序器
@@ -433,7 +436,9 @@ func (engine *Engine) internalIndexDoc(docId string, data types.DocData,
 	}
 	engine.loc.Unlock()
 
-	engine.segmenterChan <- segmenterReq{
+	// 同一文档由同一个分词器线程处理，保证按请求的先后更新
+	iThread := murmur.Sum32(docId) % uint32(engine.initOptions.NumGseThreads)
+	engine.segmenterChans[iThread] <- segmenterReq{
 		docId: docId, hash: hash, data: data, forceUpdate: forceUpdate}
 }
 
diff --git a/segment.go b/segment.go
index dddd2c4..13fcccb 100755
--- a/segment.go
+++ b/segment.go
@@ -245,9 +245,9 @@ func (engine *Engine) makeTokensMap(request segmenterReq) (map[string][]int, int
 	return tokensMap, numTokens
 }
 
-func (engine *Engine) segmenterWorker() {
+func (engine *Engine) segmenterWorker(iThread int) {
 	for {
-		request := <-engine.segmenterChan
+		request := <-engine.segmenterChans[iThread]
 		if request.docId == "0" {
 			if request.forceUpdate {
 				for i := 0; i < engine.initOptions.NumShards; i++ {
-- 
2.43.0


From f890bc8ec6e828501c11de18ae590712b4343437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 13/43] fix: distributed HTTP search mixes concurrent requests
 and drops a result

Backend replies went through package globals shared by every request without
synchronization, the configuration was read before it was set, and a merged list
longer than maxOutputs was cut one result short.
---
 net/http/dist.go | 41 ++++++++++++++++++++++-------------------
 net/http/http.go |  8 +-------
 2 files changed, 23 insertions(+), 26 deletions(-)

diff --git a/net/http/dist.go b/net/http/dist.go
index 759cfc6..9871f88 100644
--- a/net/http/dist.go
+++ b/net/http/dist.go
@@ -28,31 +28,27 @@ import (
 	"github.com/go-ego/riot/net/com"
 )
 
-var (
-	wgdata [][]byte
-	wg     sync.WaitGroup
-)
-
-// WgPost post
-func WgPost(url string, param url.Values) {
+// WgPost post, return nil when there is no data
+func WgPost(url string, param url.Values) []byte {
 
 	data, err := Post(url, param)
 
 	if string(data) == "" || err != nil {
 		log.Println("data is null ...")
-		defer wg.Done()
-		return
+		return nil
 	}
 
-	wgdata = append(wgdata, data)
-
-	defer wg.Done()
+	return data
 }
 
 // WgDist dist
 func WgDist(w http.ResponseWriter, req *http.Request) {
-	wgdata = nil
-	var distData []byte
+	var (
+		// results and wg belong to this request
+		wgdata   [][]byte
+		wg       sync.WaitGroup
+		distData []byte
+	)
 
 	userid := req.URL.Query().Get("userid")
 	query := req.URL.Query().Get("query")
@@ -60,6 +56,7 @@ func WgDist(w http.ResponseWriter, req *http.Request) {
 	maxOutputs := req.URL.Query().Get("maxOutputs")
 	atime := req.URL.Query().Get("time")
 
+	config := com.Conf
 	maxOuts, _ := strconv.Atoi(maxOutputs)
 	if maxOuts == 0 {
 		maxOuts = config.Engine.MaxOutputs
@@ -74,14 +71,21 @@ func WgDist(w http.ResponseWriter, req *http.Request) {
 	param.Set("maxOutputs", maxOutputs)
 	param.Set("time", atime)
 
-	config = com.Conf
+	results := make([][]byte, len(config.Url))
 	for i := 0; i < len(config.Url); i++ {
 		wg.Add(1)
-		url := config.Url[i] + "/search"
-		go WgPost(url, param)
+		go func(i int) {
+			defer wg.Done()
+			results[i] = WgPost(config.Url[i]+"/search", param)
+		}(i)
 	}
 
 	wg.Wait()
+	for i := 0; i < len(results); i++ {
+		if results[i] != nil {
+			wgdata = append(wgdata, results[i])
+		}
+	}
 
 	if len(wgdata) == 1 {
 		distData = wgdata[0]
@@ -97,8 +101,7 @@ func WgDist(w http.ResponseWriter, req *http.Request) {
 		sort.Sort(docsSlice(docs))
 
 		if len(docs) > maxOuts {
-			end := maxOuts - 1
-			docs = docs[0:end]
+			docs = docs[0:maxOuts]
 		}
 
 		timestamp := time.Now().Unix()
diff --git a/net/http/http.go b/net/http/http.go
index e192db5..3f35523 100644
--- a/net/http/http.go
+++ b/net/http/http.go
@@ -29,12 +29,6 @@ import (
 	"github.com/go-ego/riot/types"
 )
 
-var (
-	// config   = com.Conf
-	config   com.Config
-	searcher = com.Searcher
-)
-
 // Post http post, params is url.Values type
 func Post(apiUrl string, params url.Values) (rs []byte, err error) {
 	c := &http.Client{
@@ -81,7 +75,7 @@ func Search(w http.ResponseWriter, req *http.Request) {
 		atime = req.Form["time"][0]
 	}
 
-	config = com.Conf
+	config := com.Conf
 	log.Println("config: ", config, "; com.Conf: ", com.Conf)
 	if maxOutputs == 0 {
 		outputOffset = config.Engine.OutputOffset
-- 
2.43.0


From 818e29f54f96cd7375be39c2860ce2bf441ce745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 14/43] fix: distributed gRPC search mixes concurrent requests
 and drops a result

As for the HTTP search: shared package globals and a merged list cut one short.
---
 net/grpc/search.go | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/net/grpc/search.go b/net/grpc/search.go
index 0b1cb54..127bb94 100644
--- a/net/grpc/search.go
+++ b/net/grpc/search.go
@@ -108,29 +108,23 @@ func rpcSearch(sea com.SearchArgs) *pb.SearchReply {
 	return rep
 }
 
-var (
-	rpcdata []*pb.SearchReply
-	rpcwg   sync.WaitGroup
-)
-
-// WgRpc rpc
-func WgRpc(address string, sea com.SearchArgs) {
+// WgRpc rpc, return nil when there is no data
+func WgRpc(address string, sea com.SearchArgs) *pb.SearchReply {
 	data, err := InitSearchRpc(address, sea)
 
 	if data == nil || err != nil {
 		log.Println("data is null...")
-		defer rpcwg.Done()
-		return
+		return nil
 	}
 
-	rpcdata = append(rpcdata, data)
-
-	defer rpcwg.Done()
+	return data
 }
 
 func wgGrpc(sea com.SearchArgs) *pb.SearchReply {
-	rpcdata = nil
 	var (
+		// results and rpcwg belong to this request
+		rpcdata    []*pb.SearchReply
+		rpcwg      sync.WaitGroup
 		distData   *pb.SearchReply
 		maxOutputs = sea.MaxOutputs
 	)
@@ -140,13 +134,21 @@ func wgGrpc(sea com.SearchArgs) *pb.SearchReply {
 	}
 
 	// config.Grpc.GrpcPort
+	results := make([]*pb.SearchReply, len(config.Rpc.DistPort))
 	for i := 0; i < len(config.Rpc.DistPort); i++ {
 		rpcwg.Add(1)
-		addr := config.Rpc.DistPort[i]
-		go WgRpc(addr, sea)
+		go func(i int) {
+			defer rpcwg.Done()
+			results[i] = WgRpc(config.Rpc.DistPort[i], sea)
+		}(i)
 	}
 
 	rpcwg.Wait()
+	for i := 0; i < len(results); i++ {
+		if results[i] != nil {
+			rpcdata = append(rpcdata, results[i])
+		}
+	}
 
 	if len(rpcdata) == 1 {
 		distData = rpcdata[0]
@@ -160,8 +162,7 @@ func wgGrpc(sea com.SearchArgs) *pb.SearchReply {
 		sort.Sort(rpcSlice(docs))
 
 		if len(docs) > maxOutputs {
-			end := maxOutputs - 1
-			docs = docs[0:end]
+			docs = docs[0:maxOutputs]
 		}
 
 		timestamp := time.Now().Unix()
-- 
2.43.0


From 8f3cb1ba42f4af87ea3d49eaaa3be37a1eaabb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 15/43] fix: distributed gRPC search exits the process when one
 backend fails

WgRpc handles the error InitSearchRpc returns, but log.Fatalf never let it.
---
 net/grpc/grpcc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/grpc/grpcc.go b/net/grpc/grpcc.go
index df27c13..87f3623 100644
--- a/net/grpc/grpcc.go
+++ b/net/grpc/grpcc.go
@@ -102,7 +102,7 @@ func InitSearchRpc(address string, sea com.SearchArgs) (*pb.SearchReply, error)
 	})
 
 	if err != nil {
-		log.Fatalf("init searchRpc could not greet: %v", err)
+		log.Printf("init searchRpc could not greet: %v", err)
 		zlog.Error("init searchRpc could not greet: ", err)
 		return nil, err
 	}
-- 
2.43.0


From 927c735545a2e12b92b27f4bfc2742f61d622607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 16/43] fix: gRPC Delete exits the server

It removed from a copy of the engine taken before initialization.
---
 net/grpc/grpc.go   | 2 +-
 net/grpc/search.go | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/net/grpc/grpc.go b/net/grpc/grpc.go
index fe86fe3..43569ff 100644
--- a/net/grpc/grpc.go
+++ b/net/grpc/grpc.go
@@ -73,7 +73,7 @@ func addDoc(in *pb.DocReq) {
 
 // DelDoc delete doc
 func DelDoc(in *pb.DeleteReq) {
-	searcher.RemoveDoc(in.DocId, false)
+	com.Delete(in.DocId, false)
 }
 
 func (s *server) HeartBeat(ctx context.Context, in *pb.HeartReq) (*pb.Reply, error) {
diff --git a/net/grpc/search.go b/net/grpc/search.go
index 127bb94..b019485 100644
--- a/net/grpc/search.go
+++ b/net/grpc/search.go
@@ -27,8 +27,7 @@ import (
 
 var (
 	// config   = com.Conf
-	config   com.Config
-	searcher = com.Searcher
+	config com.Config
 )
 
 // InitEngine init engine
-- 
2.43.0


From f31d99e757af8c3f1cb8d0211fc61a892e257b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 17/43] fix: gRPC search without a logic expression crashes the
 server

---
 net/grpc/etcd.go | 12 ++++++------
 net/grpc/grpc.go | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/net/grpc/etcd.go b/net/grpc/etcd.go
index 8ca6d97..17b6af2 100644
--- a/net/grpc/etcd.go
+++ b/net/grpc/etcd.go
@@ -101,15 +101,15 @@ func (s *eserver) Search(ctx context.Context, in *pb.SearchReq) (*pb.SearchReply
 	var logic types.Logic
 	if in.Logic != nil {
 		logicExp := types.Expr{
-			Must:   in.Logic.Expr.Must,
-			Should: in.Logic.Expr.Should,
-			NotIn:  in.Logic.Expr.NotIn,
+			Must:   in.GetLogic().GetExpr().GetMust(),
+			Should: in.GetLogic().GetExpr().GetShould(),
+			NotIn:  in.GetLogic().GetExpr().GetNotIn(),
 		}
 
 		logic = types.Logic{
-			Must:   in.Logic.Must,
-			Should: in.Logic.Should,
-			NotIn:  in.Logic.NotIn,
+			Must:   in.GetLogic().GetMust(),
+			Should: in.GetLogic().GetShould(),
+			NotIn:  in.GetLogic().GetNotIn(),
 			Expr:   logicExp,
 		}
 	}
diff --git a/net/grpc/grpc.go b/net/grpc/grpc.go
index 43569ff..27bcd9b 100644
--- a/net/grpc/grpc.go
+++ b/net/grpc/grpc.go
@@ -97,15 +97,15 @@ func (s *server) Search(ctx context.Context, in *pb.SearchReq) (*pb.SearchReply,
 
 	// time.Sleep(1 * time.Second)
 	logicExp := types.Expr{
-		Must:   in.Logic.Expr.Must,
-		Should: in.Logic.Expr.Should,
-		NotIn:  in.Logic.Expr.NotIn,
+		Must:   in.GetLogic().GetExpr().GetMust(),
+		Should: in.GetLogic().GetExpr().GetShould(),
+		NotIn:  in.GetLogic().GetExpr().GetNotIn(),
 	}
 
 	logic := types.Logic{
-		Must:   in.Logic.Must,
-		Should: in.Logic.Should,
-		NotIn:  in.Logic.NotIn,
+		Must:   in.GetLogic().GetMust(),
+		Should: in.GetLogic().GetShould(),
+		NotIn:  in.GetLogic().GetNotIn(),
 		Expr:   logicExp,
 	}
 
-- 
2.43.0


From 8fea79f16b204c4d6e061d0096b1691db81b1b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 18/43] fix: a search with a negative or huge offset or limit
 crashes the process

The slice bounds panicked in a ranker worker, where nothing recovers; the HTTP
and gRPC services pass both numbers through from the request.
---
 engine.go        | 8 ++++++++
 net/grpc/etcd.go | 2 +-
 net/grpc/grpc.go | 2 +-
 net/http/dist.go | 2 +-
 net/http/http.go | 2 +-
 5 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/engine.go b/engine.go
index 0b709de..276f661 100755
--- a/engine.go
+++ b/engine.go
@@ -810,6 +810,14 @@ func (engine *Engine) Search(request types.SearchReq) (output types.SearchResp)
 		rankOpts.ScoringCriteria = engine.initOptions.DefRankOpts.ScoringCriteria
 	}
 
+	// 负数没有意义，按 0 处理，数值过大溢出时不限制输出数
+	if rankOpts.OutputOffset < 0 {
+		rankOpts.OutputOffset = 0
+	}
+	if rankOpts.MaxOutputs < 0 || rankOpts.OutputOffset+rankOpts.MaxOutputs < 0 {
+		rankOpts.MaxOutputs = 0
+	}
+
 	// 建立排序器返回的通信通道
 	rankerReturnChan := make(
 		chan rankerReturnReq, engine.initOptions.NumShards)
diff --git a/net/grpc/etcd.go b/net/grpc/etcd.go
index 17b6af2..57dd4b3 100644
--- a/net/grpc/etcd.go
+++ b/net/grpc/etcd.go
@@ -93,7 +93,7 @@ func (s *eserver) Search(ctx context.Context, in *pb.SearchReq) (*pb.SearchReply
 		maxOutputs   = int(in.MaxOutputs)
 	)
 
-	if in.MaxOutputs == 0 {
+	if in.MaxOutputs <= 0 {
 		outputOffset = config.Engine.OutputOffset
 		maxOutputs = config.Engine.MaxOutputs
 	}
diff --git a/net/grpc/grpc.go b/net/grpc/grpc.go
index 27bcd9b..37b5ab8 100644
--- a/net/grpc/grpc.go
+++ b/net/grpc/grpc.go
@@ -114,7 +114,7 @@ func (s *server) Search(ctx context.Context, in *pb.SearchReq) (*pb.SearchReply,
 		maxOutputs   = int(in.MaxOutputs)
 	)
 
-	if in.MaxOutputs == 0 {
+	if in.MaxOutputs <= 0 {
 		outputOffset = config.Engine.OutputOffset
 		maxOutputs = config.Engine.MaxOutputs
 	}
diff --git a/net/http/dist.go b/net/http/dist.go
index 9871f88..7ed4ff8 100644
--- a/net/http/dist.go
+++ b/net/http/dist.go
@@ -58,7 +58,7 @@ func WgDist(w http.ResponseWriter, req *http.Request) {
 
 	config := com.Conf
 	maxOuts, _ := strconv.Atoi(maxOutputs)
-	if maxOuts == 0 {
+	if maxOuts <= 0 {
 		maxOuts = config.Engine.MaxOutputs
 		outputOffset = strconv.Itoa(config.Engine.OutputOffset)
 		maxOutputs = strconv.Itoa(config.Engine.MaxOutputs)
diff --git a/net/http/http.go b/net/http/http.go
index 3f35523..f977806 100644
--- a/net/http/http.go
+++ b/net/http/http.go
@@ -77,7 +77,7 @@ func Search(w http.ResponseWriter, req *http.Request) {
 
 	config := com.Conf
 	log.Println("config: ", config, "; com.Conf: ", com.Conf)
-	if maxOutputs == 0 {
+	if maxOutputs <= 0 {
 		outputOffset = config.Engine.OutputOffset
 		maxOutputs = config.Engine.MaxOutputs
 	}
-- 
2.43.0


From 2c6d554512725624f29a8467c7a5d05e400d9e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 19/43] fix: documents added through the network services are
 never persisted

Their attributes are stored as an interface value whose type was not registered,
so encoding failed and the document was silently dropped.
---
 net/com/search.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/net/com/search.go b/net/com/search.go
index 2c5db09..dca21b8 100644
--- a/net/com/search.go
+++ b/net/com/search.go
@@ -15,6 +15,7 @@
 package com
 
 import (
+	"encoding/gob"
 	"log"
 	"os"
 
@@ -30,6 +31,11 @@ var (
 	Conf Config
 )
 
+func init() {
+	// 文档属性以接口类型持久存储，必须注册具体类型
+	gob.Register(types.Attri{})
+}
+
 // InitEngine init engine
 func InitEngine(conf Config) {
 	// os.RemoveAll("./riot-index")
-- 
2.43.0


From 09092db7500d4be0f6d0b75cf16beb466cf9882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 20/43] fix: heartbeat failure counter is accessed without
 synchronization

---
 net/heartb/heart.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/net/heartb/heart.go b/net/heartb/heart.go
index 5f18faf..fb8a173 100644
--- a/net/heartb/heart.go
+++ b/net/heartb/heart.go
@@ -23,6 +23,7 @@ import (
 	"net/http"
 	"os/exec"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"google.golang.org/grpc"
@@ -57,7 +58,7 @@ func Grpcc(addr, dir, bra string) {
 	for {
 		time.Sleep(1 * time.Second)
 		heart(c)
-		if rpc > 3 {
+		if atomic.LoadInt32(&rpc) > 3 {
 			wg.Add(1)
 			go func() {
 				defer wg.Done()
@@ -78,9 +79,9 @@ func heart(c pb.GreeterClient) {
 	})
 
 	if err != nil {
-		rpc++
-		if rpc > 3 {
-			log.Println("rpc...", rpc)
+		num := atomic.AddInt32(&rpc, 1)
+		if num > 3 {
+			log.Println("rpc...", num)
 		}
 
 		log.Printf("could not greet: %v", err)
@@ -91,16 +92,16 @@ func heart(c pb.GreeterClient) {
 	log.Printf("Greeting: %d", r.Result)
 
 	if r.Result != 1 {
-		rpc++
+		num := atomic.AddInt32(&rpc, 1)
 		log.Println("...", r.Result)
-		if rpc > 3 {
-			log.Println("rpc...", rpc)
+		if num > 3 {
+			log.Println("rpc...", num)
 		}
 	}
 }
 
 func restart(dir, bra string) error {
-	rpc = 0
+	atomic.StoreInt32(&rpc, 0)
 	cmd := exec.Command("/bin/sh", "-c", bra)
 	cmd.Dir = dir
 	// cmd.Run()
@@ -137,7 +138,7 @@ func Health(w http.ResponseWriter, req *http.Request) {
 	response, _ := json.Marshal(&Json{
 		Code:      0,
 		Timestamp: timestamp,
-		Health:    rpc})
+		Health:    atomic.LoadInt32(&rpc)})
 
 	w.Header().Set("Content-Type", "application/json;charset=utf-8")
 	io.WriteString(w, string(response))
-- 
2.43.0


From 2c22703bd12e4041281d68683ff32ea6b9f4a1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 21/43] fix: kill request runs arbitrary shell commands

The service name from the HTTP request was pasted into a shell command line.
---
 net/heartb/heart.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/net/heartb/heart.go b/net/heartb/heart.go
index fb8a173..d180241 100644
--- a/net/heartb/heart.go
+++ b/net/heartb/heart.go
@@ -22,6 +22,7 @@ import (
 	"log"
 	"net/http"
 	"os/exec"
+	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -165,7 +166,10 @@ func KillSer(w http.ResponseWriter, req *http.Request) {
 }
 
 func kill(name string) {
-	err := restart("", "killall -9 "+name)
+	atomic.StoreInt32(&rpc, 0)
+	// 名称来自请求，不能交给 shell 解释
+	args := append([]string{"-9", "--"}, strings.Fields(name)...)
+	err := exec.Command("killall", args...).Run()
 	if err != nil {
 		log.Println("kill...", err)
 	}
-- 
2.43.0


From 4c10722deb96a0d954573db974b8d4902a69e888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 22/43] fix: bolt store hands out memory of a finished
 transaction

Get returned, and Has read, a slice into the mapped file after the transaction
ended, when bolt may reuse or unmap it; Has also denied keys with empty values.
---
 store/bolt_store.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/store/bolt_store.go b/store/bolt_store.go
index b9988e2..45d2dae 100755
--- a/store/bolt_store.go
+++ b/store/bolt_store.go
@@ -65,7 +65,10 @@ func (s *Bolt) Set(k []byte, v []byte) error {
 // Any error that is returned from the function is returned from the View() method.
 func (s *Bolt) Get(k []byte) (b []byte, err error) {
 	err = s.db.View(func(tx *bolt.Tx) error {
-		b = tx.Bucket(gdocs).Get(k)
+		// 返回的切片仅在事务内有效，需复制
+		if v := tx.Bucket(gdocs).Get(k); v != nil {
+			b = append([]byte{}, v...)
+		}
 		return nil
 	})
 	return
@@ -82,18 +85,13 @@ func (s *Bolt) Delete(k []byte) error {
 // Has returns true if the DB does contains the given key.
 func (s *Bolt) Has(k []byte) (bool, error) {
 	// return s.db.Exists(k)
-	var b []byte
+	var has bool
 	err := s.db.View(func(tx *bolt.Tx) error {
-		b = tx.Bucket(gdocs).Get(k)
+		has = tx.Bucket(gdocs).Get(k) != nil
 		return nil
 	})
 
-	// b == nil
-	if err != nil || string(b) == "" {
-		return false, err
-	}
-
-	return true, nil
+	return has, err
 }
 
 // ForEach get all key and value
-- 
2.43.0


From 0e9a37ef118755b1f58536ff30abefa3b8c80c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 23/43] fix: leveldb iterator is leaked when the ForEach
 callback fails

---
 store/ldb_store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store/ldb_store.go b/store/ldb_store.go
index ee9eba8..357f1d2 100755
--- a/store/ldb_store.go
+++ b/store/ldb_store.go
@@ -87,6 +87,7 @@ func (s *Leveldb) Len() (leveldb.Sizes, error) {
 // ForEach get all key and value
 func (s *Leveldb) ForEach(fn func(k, v []byte) error) error {
 	iter := s.db.NewIterator(nil, nil)
+	defer iter.Release()
 	for iter.Next() {
 		// Remember that the contents of the returned slice should not be modified, and
 		// only valid until the next call to Next.
@@ -96,7 +97,6 @@ func (s *Leveldb) ForEach(fn func(k, v []byte) error) error {
 			return err
 		}
 	}
-	iter.Release()
 	return iter.Error()
 }
 
-- 
2.43.0


From 45fba2d5d44d7634f1c598bcf29cd5c258ced062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 24/43] fix: extra spaces in a query find nothing without the
 segmenter

Splitting produced empty tokens, which no document can contain.
---
 engine.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 276f661..9f53ebb 100755
--- a/engine.go
+++ b/engine.go
@@ -536,7 +536,12 @@ func (engine *Engine) Tokens(request types.SearchReq) (tokens []string) {
 	if request.Text != "" {
 		reqText := strings.ToLower(request.Text)
 		if engine.initOptions.NotUseGse {
-			tokens = strings.Split(reqText, " ")
+			for _, t := range strings.Split(reqText, " ") {
+				// 连续的空格不产生关键词，与索引文档时一致
+				if t != "" {
+					tokens = append(tokens, t)
+				}
+			}
 		} else {
 			// querySegments := engine.segmenter.Segment([]byte(reqText))
 			// tokens = engine.Tokens([]byte(reqText))
-- 
2.43.0


From 8e3d8052ba260dca29d4f614acceee02bf2ba17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 25/43] fix: segmenter threads race on the phrase package's
 global segmenter

---
 segment.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/segment.go b/segment.go
index 13fcccb..db6b43e 100755
--- a/segment.go
+++ b/segment.go
@@ -19,12 +19,16 @@ import (
 	// "fmt"
 
 	"strings"
+	"sync"
 
 	"github.com/go-ego/gpy"
 	"github.com/go-ego/gpy/phrase"
 	"github.com/go-ego/riot/types"
 )
 
+// phraseLock 保护 phrase 包的全局分词器
+var phraseLock sync.Mutex
+
 // TMap defines the tokens map type map[string][]int
 type TMap map[string][]int
 
@@ -316,6 +320,10 @@ func (engine *Engine) segmenterWorker(iThread int) {
 // PinYin get the Chinese alphabet and abbreviation
 func (engine *Engine) PinYin(hans string) []string {
 	if engine.initOptions.UsePhrase {
+		// phrase 的分词器是全局变量
+		phraseLock.Lock()
+		defer phraseLock.Unlock()
+
 		if !engine.initOptions.NotUseGse {
 			phrase.WithGse(engine.segmenter)
 		}
-- 
2.43.0


From 49bdf07687ed982c71450d0b72febefc50a1dda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:18 +0000
Subject: [PATCH 26/43] verif: observation points behind the verif build tag

---
 core/indexer.go        |  4 ++++
 engine.go              |  2 ++
 indexer_worker.go      |  4 ++++
 net/grpc/verif_on.go   | 14 ++++++++++++++
 ranker_worker.go       |  4 ++++
 segment.go             |  3 +++
 store_worker.go        |  2 ++
 utils/hook/hook_off.go |  9 +++++++++
 utils/hook/hook_on.go  | 22 ++++++++++++++++++++++
 9 files changed, 64 insertions(+)
 create mode 100644 net/grpc/verif_on.go
 create mode 100644 utils/hook/hook_off.go
 create mode 100644 utils/hook/hook_on.go

diff --git a/core/indexer.go b/core/indexer.go
index 78e3b58..719bb07 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -27,6 +27,7 @@ import (
 
 	"github.com/go-ego/riot/types"
 	"github.com/go-ego/riot/utils"
+	"github.com/go-ego/riot/utils/hook"
 )
 
 // Indexer 索引器
@@ -168,6 +169,7 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 		copy(indexer.addCacheLock.addCache[position:], newDocs)
 
 		indexer.tableLock.Unlock()
+		hook.Point("core.add.partitioned")
 		// 缓存中全部为待更新文档时必须腾出空间，否则下一个文档将无处可放
 		noRoom := position >= indexer.initOptions.DocCacheSize
 		if indexer.flushRemoveCache(forceUpdate || noRoom) {
@@ -179,6 +181,7 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 		addCachedDocs := indexer.addCacheLock.addCache[position:indexer.addCacheLock.addCachePointer]
 		indexer.addCacheLock.addCachePointer = position
 
+		hook.Point("core.add.beforeTable")
 		sort.Stable(addCachedDocs)
 		indexer.AddDocs(&addCachedDocs)
 	}
@@ -290,6 +293,7 @@ func (indexer *Indexer) RemoveDocToCache(docId string, forceUpdate bool) bool {
 			// 若文档不存在，则无法判断其是否在 addCache 中，需避免这样的操作
 		}
 		indexer.tableLock.Unlock()
+		hook.Point("core.remove.marked")
 	}
 
 	return indexer.flushRemoveCache(forceUpdate)
diff --git a/engine.go b/engine.go
index 9f53ebb..acdce9e 100755
--- a/engine.go
+++ b/engine.go
@@ -36,6 +36,7 @@ import (
 	"github.com/go-ego/riot/store"
 	"github.com/go-ego/riot/types"
 	"github.com/go-ego/riot/utils"
+	"github.com/go-ego/riot/utils/hook"
 
 	"github.com/go-ego/gse"
 	"github.com/go-ego/murmur"
@@ -882,6 +883,7 @@ func (engine *Engine) Flush() {
 		}
 	}
 
+	hook.Point("flush.settled")
 	// 强制更新，保证其为最后的请求
 	engine.IndexDoc("0", types.DocData{}, true)
 	for {
diff --git a/indexer_worker.go b/indexer_worker.go
index e573a9d..50587ec 100755
--- a/indexer_worker.go
+++ b/indexer_worker.go
@@ -19,6 +19,7 @@ import (
 	"sync/atomic"
 
 	"github.com/go-ego/riot/types"
+	"github.com/go-ego/riot/utils/hook"
 )
 
 type indexerAddDocReq struct {
@@ -46,6 +47,7 @@ type indexerRemoveDocReq struct {
 func (engine *Engine) indexerAddDoc(shard int) {
 	for {
 		request := <-engine.indexerAddDocChans[shard]
+		hook.Point("indexer.add")
 		engine.indexers[shard].AddDocToCache(request.doc, request.forceUpdate)
 		if request.doc != nil {
 			atomic.AddUint64(&engine.numTokenIndexAdded,
@@ -62,6 +64,7 @@ func (engine *Engine) indexerAddDoc(shard int) {
 func (engine *Engine) indexerRemoveDoc(shard int) {
 	for {
 		request := <-engine.indexerRemoveDocChans[shard]
+		hook.Point("indexer.remove")
 		engine.indexers[shard].RemoveDocToCache(request.docId, request.forceUpdate)
 		if request.docId != "0" {
 			atomic.AddUint64(&engine.numDocsRemoved, 1)
@@ -115,6 +118,7 @@ func (engine *Engine) orderLess(
 func (engine *Engine) indexerLookup(shard int) {
 	for {
 		request := <-engine.indexerLookupChans[shard]
+		hook.Point("indexer.lookup")
 
 		docs, numDocs := engine.indexers[shard].Lookup(
 			request.tokens, request.labels,
diff --git a/net/grpc/verif_on.go b/net/grpc/verif_on.go
new file mode 100644
index 0000000..ff8f336
--- /dev/null
+++ b/net/grpc/verif_on.go
@@ -0,0 +1,14 @@
+//go:build verif
+// +build verif
+
+package grpc
+
+import (
+	pb "github.com/go-ego/riot/net/grpc/riot-pb"
+)
+
+// DistServer returns the distributed server, which InitErpc serves only
+// after registering with etcd
+func DistServer() pb.GreeterServer {
+	return &eserver{}
+}
diff --git a/ranker_worker.go b/ranker_worker.go
index d2cb0ed..00f8ddd 100755
--- a/ranker_worker.go
+++ b/ranker_worker.go
@@ -19,6 +19,7 @@ import (
 	"sync/atomic"
 
 	"github.com/go-ego/riot/types"
+	"github.com/go-ego/riot/utils/hook"
 )
 
 type rankerAddDocReq struct {
@@ -50,6 +51,7 @@ type rankerRemoveDocReq struct {
 func (engine *Engine) rankerAddDoc(shard int) {
 	for {
 		request := <-engine.rankerAddDocChans[shard]
+		hook.Point("ranker.add")
 		if engine.initOptions.IDOnly {
 			engine.rankers[shard].AddDoc(request.docId, request.fields)
 		} else {
@@ -63,6 +65,7 @@ func (engine *Engine) rankerAddDoc(shard int) {
 func (engine *Engine) rankerRank(shard int) {
 	for {
 		request := <-engine.rankerRankChans[shard]
+		hook.Point("ranker.rank")
 		if request.options.MaxOutputs != 0 {
 			request.options.MaxOutputs += request.options.OutputOffset
 		}
@@ -78,6 +81,7 @@ func (engine *Engine) rankerRank(shard int) {
 func (engine *Engine) rankerRemoveDoc(shard int) {
 	for {
 		request := <-engine.rankerRemoveDocChans[shard]
+		hook.Point("ranker.remove")
 		engine.rankers[shard].RemoveDoc(request.docId)
 		atomic.AddUint64(&engine.numDocsUnranked, 1)
 	}
diff --git a/segment.go b/segment.go
index db6b43e..7649fb9 100755
--- a/segment.go
+++ b/segment.go
@@ -24,6 +24,7 @@ import (
 	"github.com/go-ego/gpy"
 	"github.com/go-ego/gpy/phrase"
 	"github.com/go-ego/riot/types"
+	"github.com/go-ego/riot/utils/hook"
 )
 
 // phraseLock 保护 phrase 包的全局分词器
@@ -252,6 +253,7 @@ func (engine *Engine) makeTokensMap(request segmenterReq) (map[string][]int, int
 func (engine *Engine) segmenterWorker(iThread int) {
 	for {
 		request := <-engine.segmenterChans[iThread]
+		hook.Point("segmenter")
 		if request.docId == "0" {
 			if request.forceUpdate {
 				for i := 0; i < engine.initOptions.NumShards; i++ {
@@ -309,6 +311,7 @@ func (engine *Engine) segmenterWorker(iThread int) {
 				engine.indexerAddDocChans[i] <- indexerAddDocReq{forceUpdate: true}
 			}
 		}
+		hook.Point("segmenter.indexed")
 		rankerRequest := rankerAddDocReq{
 			// docId: request.docId, fields: request.data.Fields}
 			docId: request.docId, fields: request.data.Fields,
diff --git a/store_worker.go b/store_worker.go
index 1bdaf80..98e1527 100755
--- a/store_worker.go
+++ b/store_worker.go
@@ -22,6 +22,7 @@ import (
 	"sync/atomic"
 
 	"github.com/go-ego/riot/types"
+	"github.com/go-ego/riot/utils/hook"
 )
 
 type storeIndexDocReq struct {
@@ -36,6 +37,7 @@ type storeIndexDocReq struct {
 func (engine *Engine) storeIndexDoc(shard int) {
 	for {
 		request := <-engine.storeIndexDocChans[shard]
+		hook.Point("store.write")
 
 		if request.remove {
 			engine.storeRemoveDoc(request.docId, uint32(shard))
diff --git a/utils/hook/hook_off.go b/utils/hook/hook_off.go
new file mode 100644
index 0000000..558b1fc
--- /dev/null
+++ b/utils/hook/hook_off.go
@@ -0,0 +1,9 @@
+//go:build !verif
+// +build !verif
+
+// Package hook marks points in the code where verification builds
+// (build tag verif) may observe or delay the running goroutine.
+package hook
+
+// Point does nothing without the verif build tag
+func Point(name string) {}
diff --git a/utils/hook/hook_on.go b/utils/hook/hook_on.go
new file mode 100644
index 0000000..604ea89
--- /dev/null
+++ b/utils/hook/hook_on.go
@@ -0,0 +1,22 @@
+//go:build verif
+// +build verif
+
+// Package hook marks points in the code where verification builds
+// (build tag verif) may observe or delay the running goroutine.
+package hook
+
+import "sync/atomic"
+
+var fn atomic.Value
+
+// Set installs the function called at every point
+func Set(f func(name string)) {
+	fn.Store(f)
+}
+
+// Point calls the installed function
+func Point(name string) {
+	if f, ok := fn.Load().(func(string)); ok && f != nil {
+		f(name)
+	}
+}
-- 
2.43.0


From 3a98e7b5bfdafa100c8f8c07c269dfb3eeb7fc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 27/43] fix: SearchDoc and SearchID panic when only counting

---
 engine.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/engine.go b/engine.go
index acdce9e..bef9f0b 100755
--- a/engine.go
+++ b/engine.go
@@ -778,10 +778,12 @@ func (engine *Engine) Ranks(request types.SearchReq, rankOpts types.RankOpts,
 // This function is thread safe, return not IDonly
 func (engine *Engine) SearchDoc(request types.SearchReq) (output types.SearchDoc) {
 	resp := engine.Search(request)
-	return types.SearchDoc{
-		BaseResp: resp.BaseResp,
-		Docs:     resp.Docs.(types.ScoredDocs),
+	output.BaseResp = resp.BaseResp
+	// CountDocsOnly 为 true 时没有文档
+	if resp.Docs != nil {
+		output.Docs = resp.Docs.(types.ScoredDocs)
 	}
+	return
 }
 
 // SearchID find the document that satisfies the search criteria.
@@ -789,10 +791,12 @@ func (engine *Engine) SearchDoc(request types.SearchReq) (output types.SearchDoc
 func (engine *Engine) SearchID(request types.SearchReq) (output types.SearchID) {
 	// return types.SearchID(engine.Search(request))
 	resp := engine.Search(request)
-	return types.SearchID{
-		BaseResp: resp.BaseResp,
-		Docs:     resp.Docs.(types.ScoredIDs),
+	output.BaseResp = resp.BaseResp
+	// CountDocsOnly 为 true 时没有文档
+	if resp.Docs != nil {
+		output.Docs = resp.Docs.(types.ScoredIDs)
 	}
+	return
 }
 
 // Search find the document that satisfies the search criteria.
-- 
2.43.0


From 71411964549dee129ccf5a08d2bc2857261b58cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:00 +0000
Subject: [PATCH 28/43] fix: a search with a huge timeout times out at once

The timeout in milliseconds overflowed when converted to nanoseconds.
---
 engine.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/engine.go b/engine.go
index bef9f0b..b4124ab 100755
--- a/engine.go
+++ b/engine.go
@@ -22,6 +22,7 @@ package riot
 import (
 	"fmt"
 	"log"
+	"math"
 	"os"
 	"runtime"
 	"sort"
@@ -828,6 +829,11 @@ func (engine *Engine) Search(request types.SearchReq) (output types.SearchResp)
 		rankOpts.MaxOutputs = 0
 	}
 
+	// 换算成纳秒会溢出的超时相当于不设超时
+	if int64(request.Timeout) > math.MaxInt64/NumNanosecondsInAMillisecond {
+		request.Timeout = 0
+	}
+
 	// 建立排序器返回的通信通道
 	rankerReturnChan := make(
 		chan rankerReturnReq, engine.initOptions.NumShards)
-- 
2.43.0


From bdb2d7e977285583b3f8d4c1e1b158e2eba14b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:07 +0000
Subject: [PATCH 29/43] fix: the badger store cannot be opened after a crash in
 the middle of a write

---
 store/badger_store.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/store/badger_store.go b/store/badger_store.go
index faf8d9b..1b9eebb 100755
--- a/store/badger_store.go
+++ b/store/badger_store.go
@@ -38,6 +38,9 @@ func OpenBadger(dbPath string) (Store, error) {
 	// opt.Dir = dbPath
 	// opt.ValueDir = dbPath
 	// opt.SyncWrites = true
+	// 进程在写入中途被终止时，值日志末尾可能有不完整的记录，
+	// 需截断后才能重新打开
+	opt.Truncate = true
 	kv, err := badger.Open(opt)
 	if err != nil {
 		log.Fatal("badger NewKV: ", err)
-- 
2.43.0


From 511400e07aaf698846c7d10b0a239ce0e94697ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 30/43] fix: the gRPC client helper sends documents without
 their id

---
 net/grpc/grpcc.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/net/grpc/grpcc.go b/net/grpc/grpcc.go
index 87f3623..01a533a 100644
--- a/net/grpc/grpcc.go
+++ b/net/grpc/grpcc.go
@@ -16,6 +16,7 @@ package grpc
 
 import (
 	"log"
+	"strconv"
 	// "os"
 	// "time"
 
@@ -53,9 +54,12 @@ func InitGrpcc(address string, doc Doc) int32 {
 
 	// Contact the server and print out its response.
 	r, err := c.DocInx(context.Background(), &pb.DocReq{
-		Content: doc.Content,
-		Attri:   doc.Attri,
-		Tokens:  doc.Tokens,
+		DocId:       strconv.FormatUint(doc.DocId, 10),
+		Content:     doc.Content,
+		Attri:       doc.Attri,
+		Tokens:      doc.Tokens,
+		Labels:      doc.Labels,
+		ForceUpdate: doc.ForceUpdate,
 	})
 	if err != nil {
 		log.Fatalf("init docinx grpcc could not greet: %v", err)
-- 
2.43.0


From 1e1598581c0d81a64e3cc7a827f55e89e53e0bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:37 +0000
Subject: [PATCH 31/43] fix: token proximity is not the smallest when locations
 of tokens overlap

---
 core/indexer.go | 52 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index 719bb07..540bbcd 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -780,32 +780,44 @@ func computeTokenProximity(table []*KeywordIndices,
 			nextMinValues[j] = -1
 		}
 
-		var iNext int
-		for iCurrent, currentLocation := range currentLocations {
-			if currentMinValues[iCurrent] == -1 {
-				continue
-			}
-			for iNext+1 < len(nextLocations) &&
-				nextLocations[iNext+1] < currentLocation {
-				iNext++
+		update := func(from int, to int) {
+			value := currentMinValues[from] +
+				utils.AbsInt(nextLocations[to]-currentLocations[from]-len(tokens[i-1]))
+
+			if nextMinValues[to] == -1 || value < nextMinValues[to] {
+				nextMinValues[to] = value
+				path[i][to] = from
 			}
+		}
 
-			update := func(from int, to int) {
-				if to >= len(nextLocations) {
-					return
+		// 关键词的位置可能重叠，最优解的状态转移来自结束位置在左侧和右侧的最优值，
+		// 左侧的最优值使 minValue - 位置 最小，右侧的最优值使 minValue + 位置 最小
+		best, iCurrent := -1, 0
+		for iNext := range nextLocations {
+			for ; iCurrent < len(currentLocations) &&
+				currentLocations[iCurrent]+len(tokens[i-1]) <= nextLocations[iNext]; iCurrent++ {
+				if best == -1 || currentMinValues[iCurrent]-currentLocations[iCurrent] <
+					currentMinValues[best]-currentLocations[best] {
+					best = iCurrent
 				}
-				value := currentMinValues[from] +
-					utils.AbsInt(nextLocations[to]-currentLocations[from]-len(tokens[i-1]))
+			}
+			if best != -1 {
+				update(best, iNext)
+			}
+		}
 
-				if nextMinValues[to] == -1 || value < nextMinValues[to] {
-					nextMinValues[to] = value
-					path[i][to] = from
+		best, iCurrent = -1, len(currentLocations)-1
+		for iNext := len(nextLocations) - 1; iNext >= 0; iNext-- {
+			for ; iCurrent >= 0 &&
+				currentLocations[iCurrent]+len(tokens[i-1]) > nextLocations[iNext]; iCurrent-- {
+				if best == -1 || currentMinValues[iCurrent]+currentLocations[iCurrent] <=
+					currentMinValues[best]+currentLocations[best] {
+					best = iCurrent
 				}
 			}
-
-			// 最优解的状态转移只发生在左右最接近的位置
-			update(iCurrent, iNext)
-			update(iCurrent, iNext+1)
+			if best != -1 {
+				update(best, iNext)
+			}
 		}
 
 		currentLocations = nextLocations
-- 
2.43.0


From 088342eed10f521758df94d7337b066fcffd887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 32/43] fix: a search honours its timeout when the lookup
 queues are full

---
 engine.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/engine.go b/engine.go
index b4124ab..8f1a8d9 100755
--- a/engine.go
+++ b/engine.go
@@ -851,8 +851,12 @@ func (engine *Engine) Search(request types.SearchReq) (output types.SearchResp)
 	}
 
 	// 向索引器发送查找请求
-	for shard := 0; shard < engine.initOptions.NumShards; shard++ {
-		engine.indexerLookupChans[shard] <- lookupRequest
+	if request.Timeout > 0 {
+		request.Timeout = engine.sendLookup(lookupRequest, request.Timeout)
+	} else {
+		for shard := 0; shard < engine.initOptions.NumShards; shard++ {
+			engine.indexerLookupChans[shard] <- lookupRequest
+		}
 	}
 
 	if engine.initOptions.IDOnly {
@@ -864,6 +868,31 @@ func (engine *Engine) Search(request types.SearchReq) (output types.SearchResp)
 	return
 }
 
+// sendLookup 向索引器发送查找请求，最多等待 timeout 毫秒，
+// 返回剩余的毫秒数（向上取整，至少为 1）。索引器繁忙时请求可能发不出去，
+// 没有收到请求的 shard 等同于没有按时返回
+func (engine *Engine) sendLookup(request indexerLookupReq, timeout int) int {
+	deadline := time.Now().Add(
+		time.Duration(timeout) * NumNanosecondsInAMillisecond)
+
+	timer := time.NewTimer(deadline.Sub(time.Now()))
+	defer timer.Stop()
+
+	for shard := 0; shard < engine.initOptions.NumShards; shard++ {
+		select {
+		case engine.indexerLookupChans[shard] <- request:
+		case <-timer.C:
+			return 1
+		}
+	}
+
+	left := deadline.Sub(time.Now())
+	if left <= 0 {
+		return 1
+	}
+	return int((left-1)/NumNanosecondsInAMillisecond) + 1
+}
+
 // Flush block wait until all indexes are added
 // 阻塞等待直到所有索引添加完毕
 func (engine *Engine) Flush() {
-- 
2.43.0


From d17f4852be40a7c298bace6480ad98464264f36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 33/43] verif: observation points at the entry of the index and
 the ranker

---
 core/indexer.go | 2 ++
 core/ranker.go  | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/core/indexer.go b/core/indexer.go
index 540bbcd..a372fa4 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -122,6 +122,7 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 		log.Fatal("The Indexer has not been initialized.")
 	}
 
+	hook.Point("core.add.begin")
 	// 加锁顺序固定为 addCacheLock -> removeCacheLock -> tableLock，
 	// 缓存切片在写入索引表之前不能被其他协程复用，因此持有锁直到写入完成
 	indexer.addCacheLock.Lock()
@@ -276,6 +277,7 @@ func (indexer *Indexer) RemoveDocToCache(docId string, forceUpdate bool) bool {
 		log.Fatal("The Indexer has not been initialized.")
 	}
 
+	hook.Point("core.remove.begin")
 	indexer.removeCacheLock.Lock()
 	defer indexer.removeCacheLock.Unlock()
 	if docId != "0" {
diff --git a/core/ranker.go b/core/ranker.go
index 5742568..2f64d3a 100755
--- a/core/ranker.go
+++ b/core/ranker.go
@@ -22,6 +22,7 @@ import (
 
 	"github.com/go-ego/riot/types"
 	"github.com/go-ego/riot/utils"
+	"github.com/go-ego/riot/utils/hook"
 )
 
 // Ranker ranker
@@ -70,6 +71,7 @@ func (ranker *Ranker) AddDoc(
 		log.Fatal("The Ranker has not been initialized.")
 	}
 
+	hook.Point("core.ranker.add")
 	ranker.lock.Lock()
 	ranker.lock.fields[docId] = fields
 	ranker.lock.docs[docId] = true
@@ -95,6 +97,7 @@ func (ranker *Ranker) RemoveDoc(docId string) {
 		log.Fatal("The Ranker has not been initialized.")
 	}
 
+	hook.Point("core.ranker.remove")
 	ranker.lock.Lock()
 	delete(ranker.lock.fields, docId)
 	delete(ranker.lock.docs, docId)
-- 
2.43.0


From 6f75f5c730299a2ebe91fc1f5594c7b2889148d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 34/43] fix: a document removed and indexed again can appear
 twice in one search

After RemoveDoc the next version could go to another shard, so a search that
overlapped both found the old version in one shard and the new one in the other.
---
 engine.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/engine.go b/engine.go
index 8f1a8d9..0938977 100755
--- a/engine.go
+++ b/engine.go
@@ -427,7 +427,8 @@ func (engine *Engine) internalIndexDoc(docId string, data types.DocData,
 		atomic.AddUint64(&engine.numForceUpdatingReqs, 1)
 	}
 
-	// 更新文档时必须分配到原来的 shard，否则旧的内容会留在另一个 shard 中
+	// 更新文档时必须分配到原来的 shard，否则旧的内容会留在另一个 shard 中。
+	// 删除后重新加入的文档也一样，否则正在进行的搜索会在两个 shard 中找到它
 	engine.loc.Lock()
 	hash, found := engine.docHashes[docId]
 	if !found {
@@ -467,10 +468,6 @@ func (engine *Engine) RemoveDoc(docId string, forceUpdate ...bool) {
 
 	if docId != "0" {
 		atomic.AddUint64(&engine.numRemovingReqs, 1)
-
-		engine.loc.Lock()
-		delete(engine.docHashes, docId)
-		engine.loc.Unlock()
 	}
 
 	if force {
-- 
2.43.0


From 5d546145cfa2a6a449804f5071b743e1d18f32b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:41 +0000
Subject: [PATCH 35/43] fix: changing the token locations of a search result
 changed the index

---
 core/indexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index a372fa4..1b2f1a2 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -535,10 +535,10 @@ func (indexer *Indexer) internalLookup(
 				indexedDoc.TokenProximity = int32(tokenProximity)
 				indexedDoc.TokenSnippetLocs = TokenLocs
 
-				// 添加 TokenLocs
+				// 添加 TokenLocs，复制一份，调用者修改搜索结果时不能影响索引
 				indexedDoc.TokenLocs = make([][]int, len(tokens))
 				for i, t := range table[:len(tokens)] {
-					indexedDoc.TokenLocs[i] = t.locations[indexPointers[i]]
+					indexedDoc.TokenLocs[i] = append([]int(nil), t.locations[indexPointers[i]]...)
 				}
 			}
 
-- 
2.43.0


From ebc69c96612fcf2e7271d52109b508cab8c75249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:10 +0000
Subject: [PATCH 36/43] fix: a search text was segmented by another algorithm
 than the documents

---
 engine.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 0938977..9e8a9ad 100755
--- a/engine.go
+++ b/engine.go
@@ -541,10 +541,18 @@ func (engine *Engine) Tokens(request types.SearchReq) (tokens []string) {
 					tokens = append(tokens, t)
 				}
 			}
-		} else {
+		} else if engine.initOptions.GseMode || engine.initOptions.Hmm {
 			// querySegments := engine.segmenter.Segment([]byte(reqText))
 			// tokens = engine.Tokens([]byte(reqText))
 			tokens = engine.Segment(reqText)
+		} else {
+			// 分词必须与索引文档时一致，否则用文档自己的文本也可能搜索不到它
+			for _, segment := range engine.segmenter.ModeSegment([]byte(reqText)) {
+				token := segment.Token().Text()
+				if !engine.stopTokens.IsStopToken(token) {
+					tokens = append(tokens, token)
+				}
+			}
 		}
 
 		// 叠加 tokens
-- 
2.43.0


From eb57a126f6da43891ec53b22cf807994ab0f9ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 37/43] fix: words with capital letters outside ASCII were
 indexed under a key that no search text has

---
 segment.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/segment.go b/segment.go
index 7649fb9..b3185ce 100755
--- a/segment.go
+++ b/segment.go
@@ -20,6 +20,8 @@ import (
 
 	"strings"
 	"sync"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/go-ego/gpy"
 	"github.com/go-ego/gpy/phrase"
@@ -130,13 +132,24 @@ func (engine *Engine) splitData(request segmenterReq) (TMap, int) {
 	return tokensMap, numTokens
 }
 
+// lower 转换为小写，不改变各字符在文本中的字节位置
+func lower(text string) []byte {
+	data := []byte(text)
+	for i, r := range text {
+		if l := unicode.ToLower(r); l != r && utf8.RuneLen(l) == utf8.RuneLen(r) {
+			utf8.EncodeRune(data[i:], l)
+		}
+	}
+	return data
+}
+
 func (engine *Engine) segmenterData(request segmenterReq) (TMap, int) {
 	tokensMap := make(map[string][]int)
 	numTokens := 0
 
 	if engine.initOptions.Using == 0 && request.data.Content != "" {
 		// Content 分词, 当文档正文不为空时，优先从内容分词中得到关键词
-		segments := engine.segmenter.ModeSegment([]byte(request.data.Content),
+		segments := engine.segmenter.ModeSegment(lower(request.data.Content),
 			engine.initOptions.GseMode)
 
 		for _, segment := range segments {
@@ -159,7 +172,7 @@ func (engine *Engine) segmenterData(request segmenterReq) (TMap, int) {
 
 	if engine.initOptions.Using == 1 && request.data.Content != "" {
 		// Content 分词, 当文档正文不为空时，优先从内容分词中得到关键词
-		segments := engine.segmenter.ModeSegment([]byte(request.data.Content),
+		segments := engine.segmenter.ModeSegment(lower(request.data.Content),
 			engine.initOptions.GseMode)
 
 		for _, segment := range segments {
-- 
2.43.0


From db69f1cfc422205b98e89b53a770405b2620b443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:01 +0000
Subject: [PATCH 38/43] fix: HasDocDB of an engine without a store panicked

---
 riot.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/riot.go b/riot.go
index be398b0..b379fae 100644
--- a/riot.go
+++ b/riot.go
@@ -117,6 +117,11 @@ func (engine *Engine) HasDoc(docId string) bool {
 // HasDocDB if the document is exist in the database
 // return true
 func (engine *Engine) HasDocDB(docId string) bool {
+	// 没有使用持久化数据库
+	if len(engine.dbs) == 0 {
+		return false
+	}
+
 	shard := murmur.Sum32(docId) % uint32(engine.initOptions.StoreShards)
 
 	has, err := engine.dbs[shard].Has([]byte(docId))
-- 
2.43.0


From b9d96b6e93305371fe06c14af743c2bd8fe0599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 39/43] fix: an error page of one backend was given as the
 distributed response

---
 net/http/dist.go | 6 ++++++
 net/http/http.go | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/net/http/dist.go b/net/http/dist.go
index 7ed4ff8..adb9c10 100644
--- a/net/http/dist.go
+++ b/net/http/dist.go
@@ -38,6 +38,12 @@ func WgPost(url string, param url.Values) []byte {
 		return nil
 	}
 
+	var res JsonResponse
+	if err := json.Unmarshal(data, &res); err != nil {
+		log.Println("data is no search response:", err)
+		return nil
+	}
+
 	return data
 }
 
diff --git a/net/http/http.go b/net/http/http.go
index f977806..5529fba 100644
--- a/net/http/http.go
+++ b/net/http/http.go
@@ -16,6 +16,7 @@ package http
 
 import (
 	"encoding/json"
+	"fmt"
 	"io"
 	"io/ioutil"
 	"log"
@@ -41,6 +42,10 @@ func Post(apiUrl string, params url.Values) (rs []byte, err error) {
 	}
 
 	defer resp.Body.Close()
+	if resp.StatusCode != http.StatusOK {
+		return nil, fmt.Errorf("post %s: %s", apiUrl, resp.Status)
+	}
+
 	return ioutil.ReadAll(resp.Body)
 }
 
-- 
2.43.0


From 44ed0e32722640ec813d2a3af65953d690a58db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 40/43] fix: sorting a document without attributes ended the
 gRPC aggregator

---
 net/grpc/search.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/net/grpc/search.go b/net/grpc/search.go
index b019485..0364b78 100644
--- a/net/grpc/search.go
+++ b/net/grpc/search.go
@@ -56,11 +56,12 @@ func (s rpcSlice) Less(i, j int) bool {
 	// 	log.Println("strconv.Atoi(jid)...", err)
 	// }
 
-	if s[i].Attri.Ts == s[j].Attri.Ts {
+	// a document without attributes has no Attri in its reply
+	if s[i].GetAttri().GetTs() == s[j].GetAttri().GetTs() {
 		// return ival > jval
 		return s[i].Id > s[j].Id
 	}
-	return s[i].Attri.Ts > s[j].Attri.Ts
+	return s[i].GetAttri().GetTs() > s[j].GetAttri().GetTs()
 }
 
 // rpcSearch rpc search fn
-- 
2.43.0


From 5905cc71526b5298be731b0734a69a6d51db3183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:09 +0000
Subject: [PATCH 41/43] fix: two goroutines indexing one document could leave
 different versions in the index and in the store

---
 engine.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/engine.go b/engine.go
index 9e8a9ad..6b890e3 100755
--- a/engine.go
+++ b/engine.go
@@ -112,6 +112,8 @@ type Engine struct {
 	// 建立持久存储使用的通信通道
 	storeIndexDocChans []chan storeIndexDocReq
 	storeInitChan      chan bool
+	// 同一文档加入索引和写入数据库的先后必须一致
+	storeIndexLocks []sync.Mutex
 }
 
 // Indexer initialize the indexer channel
@@ -171,6 +173,8 @@ func (engine *Engine) InitStore() {
 	}
 	engine.storeInitChan = make(
 		chan bool, engine.initOptions.StoreShards)
+	engine.storeIndexLocks = make(
+		[]sync.Mutex, engine.initOptions.StoreShards)
 }
 
 // CheckMem check the memory when the memory is larger
@@ -402,6 +406,14 @@ func (engine *Engine) Index(docId string, data types.DocData,
 	// 	engine.RemoveDoc(docId)
 	// }
 
+	if engine.initOptions.UseStore && docId != "0" {
+		// 多个线程同时更新同一文档时，索引和数据库必须留下同一个版本
+		lock := &engine.storeIndexLocks[murmur.Sum32(docId)%
+			uint32(engine.initOptions.StoreShards)]
+		lock.Lock()
+		defer lock.Unlock()
+	}
+
 	// data.Tokens
 	engine.internalIndexDoc(docId, data, force)
 
-- 
2.43.0


From 2a2619f30e298aa4de7d8b8013a3859bd465d3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:18 +0000
Subject: [PATCH 42/43] fix: a badger store that cannot be opened ended the
 process

---
 store/badger_store.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/store/badger_store.go b/store/badger_store.go
index 1b9eebb..3b13d86 100755
--- a/store/badger_store.go
+++ b/store/badger_store.go
@@ -15,8 +15,6 @@
 package store
 
 import (
-	"log"
-
 	"github.com/dgraph-io/badger"
 )
 
@@ -43,7 +41,7 @@ func OpenBadger(dbPath string) (Store, error) {
 	opt.Truncate = true
 	kv, err := badger.Open(opt)
 	if err != nil {
-		log.Fatal("badger NewKV: ", err)
+		return nil, err
 	}
 
 	return &Badger{kv}, err
-- 
2.43.0


From fcec75d600e7c747b19c19dfe99c4c19fdfde048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:35 +0000
Subject: [PATCH 43/43] fix: a search cut short by its timeout went on reading
 the request of its caller

---
 engine.go         |  2 ++
 indexer_worker.go | 20 ++++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/engine.go b/engine.go
index 6b890e3..867caa5 100755
--- a/engine.go
+++ b/engine.go
@@ -869,6 +869,8 @@ func (engine *Engine) Search(request types.SearchReq) (output types.SearchResp)
 
 	// 向索引器发送查找请求
 	if request.Timeout > 0 {
+		// 超时返回之后索引器可能仍在查找，不能继续使用属于调用者的数据
+		lookupRequest.detach()
 		request.Timeout = engine.sendLookup(lookupRequest, request.Timeout)
 	} else {
 		for shard := 0; shard < engine.initOptions.NumShards; shard++ {
diff --git a/indexer_worker.go b/indexer_worker.go
index 50587ec..38f9f63 100755
--- a/indexer_worker.go
+++ b/indexer_worker.go
@@ -39,6 +39,26 @@ type indexerLookupReq struct {
 	logic            types.Logic
 }
 
+// detach 复制请求中与调用者共享的数据
+func (request *indexerLookupReq) detach() {
+	request.tokens = append([]string(nil), request.tokens...)
+	request.labels = append([]string(nil), request.labels...)
+
+	expr := &request.logic.Expr
+	expr.Must = append([]string(nil), expr.Must...)
+	expr.Should = append([]string(nil), expr.Should...)
+	expr.NotIn = append([]string(nil), expr.NotIn...)
+
+	// docIds 为 nil 时不限定文档，为空时没有文档
+	if request.docIds != nil {
+		docIds := make(map[string]bool, len(request.docIds))
+		for docId, v := range request.docIds {
+			docIds[docId] = v
+		}
+		request.docIds = docIds
+	}
+}
+
 type indexerRemoveDocReq struct {
 	docId       string
 	forceUpdate bool
-- 
2.43.0

