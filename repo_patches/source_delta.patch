From 1acd8821734eb3ec7c517629367b4107f49536c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:38 +0000
Subject: [PATCH 01/41] fix: reading over gRPC must not panic on an answer
 without envelopes

---
 pkg/client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index 53367ab..0ba1d5a 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -235,7 +235,7 @@ func (c *Client) grpcRead(ctx context.Context, sourceID string, start time.Time,
 	if err != nil {
 		return nil, err
 	}
-	return resp.Envelopes.Batch, nil
+	return resp.GetEnvelopes().GetBatch(), nil
 }
 
 // Meta returns meta information from the entire LogCache.
-- 
2.43.0


From bf020411cac1b3e9933064e58f9cb7cd9f2ad6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:12 +0000
Subject: [PATCH 02/41] fix: the gateway must serve source IDs with a colon as
 they are

---
 internal/gateway/gateway.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/internal/gateway/gateway.go b/internal/gateway/gateway.go
index 7b5644e..0aae4e8 100644
--- a/internal/gateway/gateway.go
+++ b/internal/gateway/gateway.go
@@ -7,6 +7,7 @@ import (
 	"log"
 	"net"
 	"net/http"
+	"strings"
 
 	"github.com/grpc-ecosystem/grpc-gateway/runtime"
 	"github.com/shirou/gopsutil/host"
@@ -155,7 +156,7 @@ func (g *Gateway) listenAndServe() {
 
 	topLevelMux := http.NewServeMux()
 	topLevelMux.HandleFunc("/api/v1/info", g.handleInfoEndpoint)
-	topLevelMux.Handle("/", mux)
+	topLevelMux.Handle("/", keepColons(mux))
 
 	server := &http.Server{Handler: topLevelMux}
 	if err := server.ServeTLS(g.lis, g.certPath, g.keyPath); err != nil {
@@ -163,6 +164,25 @@ func (g *Gateway) listenAndServe() {
 	}
 }
 
+// keepColons keeps the mux from taking what follows the last colon of a path
+// for a verb, which none of the API's methods has: the colon is part of a
+// source ID.
+func keepColons(mux http.Handler) http.Handler {
+	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
+		path := r.URL.Path
+		if strings.Contains(path[strings.LastIndex(path, "/")+1:], ":") {
+			u := *r.URL
+			// A final colon is an empty verb.
+			u.Path += ":"
+
+			r = r.WithContext(r.Context())
+			r.URL = &u
+		}
+
+		mux.ServeHTTP(w, r)
+	})
+}
+
 func (g *Gateway) handleInfoEndpoint(w http.ResponseWriter, r *http.Request) {
 	w.Write([]byte(fmt.Sprintf(`{"version":"%s","vm_uptime":"%d"}`+"\n", g.logCacheVersion, g.uptimeFn())))
 }
-- 
2.43.0


From 69492636812bfff253e8891bf4fe6a803d90d22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:43 +0000
Subject: [PATCH 03/41] fix: forget the OAuth2 token under its lock

---
 pkg/client/oauth2_http_client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/client/oauth2_http_client.go b/pkg/client/oauth2_http_client.go
index e56c903..eabc1a1 100644
--- a/pkg/client/oauth2_http_client.go
+++ b/pkg/client/oauth2_http_client.go
@@ -101,7 +101,9 @@ func (c *Oauth2HTTPClient) Do(req *http.Request) (*http.Response, error) {
 	}
 
 	if resp.StatusCode < http.StatusOK || resp.StatusCode >= http.StatusMultipleChoices {
+		c.mu.Lock()
 		c.token = ""
+		c.mu.Unlock()
 		return resp, nil
 	}
 
-- 
2.43.0


From 5f5f0fe26291303cc2497cbfb701d1947f43d0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:31 +0000
Subject: [PATCH 04/41] fix: a PromQL series without points has an empty list
 of values, not null

---
 pkg/marshaler/marshaler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/marshaler/marshaler.go b/pkg/marshaler/marshaler.go
index cd96143..0dec958 100644
--- a/pkg/marshaler/marshaler.go
+++ b/pkg/marshaler/marshaler.go
@@ -166,7 +166,8 @@ func assembleMatrixResultData(v *logcache_v1.PromQL_Matrix) (resultData, error)
 	result := make([]interface{}, 0)
 
 	for _, s := range v.GetSeries() {
-		var values [][]interface{}
+		// NOTE: As above, for a series without points.
+		values := make([][]interface{}, 0)
 		for _, p := range s.GetPoints() {
 			point, err := assemblePoint(p.GetTime(), p.GetValue())
 			if err != nil {
-- 
2.43.0


From f66fabe6fbb24174f352732e6d9c6c27fe15b522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 05/41] fix: a data read that keeps failing must not pass for a
 shorter one

---
 .../promql/data_reader/walking_data_reader.go | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/internal/promql/data_reader/walking_data_reader.go b/internal/promql/data_reader/walking_data_reader.go
index e8f9956..12d3759 100644
--- a/internal/promql/data_reader/walking_data_reader.go
+++ b/internal/promql/data_reader/walking_data_reader.go
@@ -24,12 +24,27 @@ func (r *WalkingDataReader) Read(
 	in *logcache_v1.ReadRequest,
 ) (*logcache_v1.ReadResponse, error) {
 
-	var result []*loggregator_v2.Envelope
+	var (
+		result  []*loggregator_v2.Envelope
+		readErr error
+	)
+
+	// Walk does not tell why it stopped.
+	reader := func(
+		ctx context.Context,
+		sourceID string,
+		start time.Time,
+		opts ...client.ReadOption,
+	) ([]*loggregator_v2.Envelope, error) {
+		var es []*loggregator_v2.Envelope
+		es, readErr = r.r(ctx, sourceID, start, opts...)
+		return es, readErr
+	}
 
 	client.Walk(ctx, in.GetSourceId(), func(es []*loggregator_v2.Envelope) bool {
 		result = append(result, es...)
 		return true
-	}, r.r,
+	}, reader,
 		client.WithWalkStartTime(time.Unix(0, in.GetStartTime())),
 		client.WithWalkEndTime(time.Unix(0, in.GetEndTime())),
 		client.WithWalkLimit(int(in.GetLimit())),
@@ -41,6 +56,10 @@ func (r *WalkingDataReader) Read(
 		return nil, err
 	}
 
+	if readErr != nil {
+		return nil, readErr
+	}
+
 	return &logcache_v1.ReadResponse{
 		Envelopes: &loggregator_v2.EnvelopeBatch{
 			Batch: result,
-- 
2.43.0


From 0f706c5bb197e61cc379db4002a96a2bde441878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 06/41] fix: the blackbox must not crash for want of an HTTP
 client

---
 internal/blackbox/blackbox.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/internal/blackbox/blackbox.go b/internal/blackbox/blackbox.go
index 10276c3..9b6b13f 100644
--- a/internal/blackbox/blackbox.go
+++ b/internal/blackbox/blackbox.go
@@ -151,14 +151,17 @@ func EmitMeasuredMetrics(sourceId string, ingressClient logcache_v1.IngressClien
 		return
 	}
 
-	up, err := logCache.LogCacheVMUptime(context.TODO())
-	if err != nil {
-		log.Printf("Couldn't fetch vm uptime, ignoring it: %s", err.Error())
-	}
+	// There is nothing to ask for the uptime unless the CF blackbox is enabled.
+	if logCache != nil {
+		up, err := logCache.LogCacheVMUptime(context.TODO())
+		if err != nil {
+			log.Printf("Couldn't fetch vm uptime, ignoring it: %s", err.Error())
+		}
 
-	if up >= 0 && up < TEN_MINUTES {
-		log.Printf("vm uptime less than 10 minutes: %d seconds", up)
-		return
+		if up >= 0 && up < TEN_MINUTES {
+			log.Printf("vm uptime less than 10 minutes: %d seconds", up)
+			return
+		}
 	}
 
 	for metricName, value := range metrics {
@@ -181,7 +184,7 @@ func EmitMeasuredMetrics(sourceId string, ingressClient logcache_v1.IngressClien
 	}
 
 	ctx, _ := context.WithTimeout(context.Background(), 10*time.Second)
-	_, err = ingressClient.Send(ctx, &logcache_v1.SendRequest{
+	_, err := ingressClient.Send(ctx, &logcache_v1.SendRequest{
 		Envelopes: &loggregator_v2.EnvelopeBatch{
 			Batch: batch,
 		},
-- 
2.43.0


From 46339e685e2e594a937b7a6649c31a159f5ae6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 07/41] fix: count expected blackbox samples without rounding

---
 internal/blackbox/blackbox.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/blackbox/blackbox.go b/internal/blackbox/blackbox.go
index 9b6b13f..99e7008 100644
--- a/internal/blackbox/blackbox.go
+++ b/internal/blackbox/blackbox.go
@@ -231,7 +231,9 @@ func (rc ReliabilityCalculator) Calculate(client QueryableClient) (float64, erro
 }
 
 func (rc ReliabilityCalculator) ExpectedSamples() float64 {
-	return rc.WindowInterval.Seconds() / rc.EmissionInterval.Seconds()
+	// NOTE: Seconds that are rounded would make it 24.99... samples for 7s and
+	// 280ms.
+	return float64(rc.WindowInterval) / float64(rc.EmissionInterval)
 }
 
 func (rc ReliabilityCalculator) printMissingSamples(points []*logcache_v1.PromQL_Point, queryTimestamp time.Time) {
-- 
2.43.0


From 028149e67457347f9fb75103c20bf1feecca7445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:46 +0000
Subject: [PATCH 08/41] fix: order the store's envelopes by timestamp and
 arrival

Making room for envelopes with the same timestamp by counting up the
key put them behind envelopes with the next timestamps. Reads skipped
some of those or returned them out of order, the oldest timestamp was
one that no envelope had, and more than 4000 envelopes with the same
timestamp overwrote each other without being counted.
---
 internal/cache/store/store.go | 90 +++++++++++++++--------------------
 1 file changed, 39 insertions(+), 51 deletions(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index 1be4d84..0594030 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -41,8 +41,7 @@ type Store struct {
 	count           int64
 	oldestTimestamp int64
 
-	maxPerSource      int
-	maxTimestampFudge int64
+	maxPerSource int
 
 	metrics Metrics
 	mc      MemoryConsultant
@@ -62,9 +61,8 @@ type Metrics struct {
 
 func NewStore(maxPerSource int, mc MemoryConsultant, m MetricsRegistry) *Store {
 	store := &Store{
-		maxPerSource:      maxPerSource,
-		maxTimestampFudge: 4000,
-		oldestTimestamp:   MIN_INT64,
+		maxPerSource:    maxPerSource,
+		oldestTimestamp: MIN_INT64,
 
 		metrics: Metrics{
 			incExpired:            m.NewCounter("log_cache_expired"),
@@ -98,7 +96,7 @@ func (store *Store) getOrInitializeStorage(sourceId string) (*storage, bool) {
 	if !existingSourceId {
 		envelopeStorage = &storage{
 			sourceId: sourceId,
-			Tree:     avltree.NewWith(utils.Int64Comparator),
+			Tree:     avltree.NewWith(compareKeys),
 		}
 		store.storageIndex.Store(sourceId, envelopeStorage.(*storage))
 		newStorage = true
@@ -113,8 +111,7 @@ func (storage *storage) insertOrSwap(store *Store, e *loggregator_v2.Envelope) {
 
 	// If we're at our maximum capacity, remove an envelope before inserting
 	if storage.Size() >= store.maxPerSource {
-		oldestTimestamp := storage.Left().Key.(int64)
-		storage.Remove(oldestTimestamp)
+		storage.Remove(storage.Left().Key)
 		storage.meta.Expired++
 		store.metrics.incExpired.Add(1)
 	} else {
@@ -122,22 +119,14 @@ func (storage *storage) insertOrSwap(store *Store, e *loggregator_v2.Envelope) {
 		store.metrics.setStoreSize.Set(float64(atomic.LoadInt64(&store.count)))
 	}
 
-	var timestampFudge int64
-	for timestampFudge = 0; timestampFudge < store.maxTimestampFudge; timestampFudge++ {
-		_, exists := storage.Get(e.Timestamp + timestampFudge)
-
-		if !exists {
-			break
-		}
-	}
-
-	storage.Put(e.Timestamp+timestampFudge, e)
+	storage.Put(key{timestamp: e.Timestamp, arrival: storage.arrivals}, e)
+	storage.arrivals++
 
 	if e.Timestamp > storage.meta.NewestTimestamp {
 		storage.meta.NewestTimestamp = e.Timestamp
 	}
 
-	oldestTimestamp := storage.Left().Key.(int64)
+	oldestTimestamp := storage.Left().Key.(key).timestamp
 	storage.meta.OldestTimestamp = oldestTimestamp
 	storeOldestTimestamp := atomic.LoadInt64(&store.oldestTimestamp)
 
@@ -191,7 +180,7 @@ func (store *Store) BuildExpirationHeap() *ExpirationHeap {
 
 	store.storageIndex.Range(func(sourceId interface{}, tree interface{}) bool {
 		tree.(*storage).RLock()
-		oldestTimestamp := tree.(*storage).Left().Key.(int64)
+		oldestTimestamp := tree.(*storage).Left().Key.(key).timestamp
 		heap.Push(expirationHeap, storageExpiration{timestamp: oldestTimestamp, sourceId: sourceId.(string), tree: tree.(*storage)})
 		tree.(*storage).RUnlock()
 
@@ -263,7 +252,7 @@ func (store *Store) removeOldestEnvelope(treeToPrune *storage, sourceId string)
 
 	oldestEnvelope := treeToPrune.Left()
 
-	treeToPrune.Remove(oldestEnvelope.Key.(int64))
+	treeToPrune.Remove(oldestEnvelope.Key)
 
 	if treeToPrune.Size() == 0 {
 		store.storageIndex.Delete(sourceId)
@@ -271,7 +260,7 @@ func (store *Store) removeOldestEnvelope(treeToPrune *storage, sourceId string)
 	}
 
 	newOldestEnvelope := treeToPrune.Left()
-	oldestTimestampAfterRemoval := newOldestEnvelope.Key.(int64)
+	oldestTimestampAfterRemoval := newOldestEnvelope.Key.(key).timestamp
 
 	treeToPrune.meta.Expired++
 	treeToPrune.meta.OldestTimestamp = oldestTimestampAfterRemoval
@@ -305,6 +294,12 @@ func (store *Store) Get(
 
 	var res []*loggregator_v2.Envelope
 	traverser(tree.(*storage).Root, start.UnixNano(), end.UnixNano(), func(e *loggregator_v2.Envelope) bool {
+		// Return true to stop traversing. The limit does not break up a group
+		// of envelopes with the same timestamp.
+		if len(res) >= limit && (len(res) == 0 || res[len(res)-1].GetTimestamp() != e.GetTimestamp()) {
+			return true
+		}
+
 		e = store.filterByName(e, nameFilter)
 		if e == nil {
 			return false
@@ -314,8 +309,7 @@ func (store *Store) Get(
 			res = append(res, e)
 		}
 
-		// Return true to stop traversing
-		return len(res) >= limit
+		return false
 	})
 
 	store.metrics.incEgress.Add(float64(len(res)))
@@ -392,14 +386,14 @@ func (s *Store) treeAscTraverse(
 	}
 
 	e := n.Value.(*loggregator_v2.Envelope)
-	t := e.GetTimestamp()
+	t := n.Key.(key).timestamp
 
 	if t >= start {
 		if s.treeAscTraverse(n.Children[0], start, end, f) {
 			return true
 		}
 
-		if (t >= end || f(e)) && !isNodeAFudgeSequenceMember(n, 1) {
+		if t >= end || f(e) {
 			return true
 		}
 	}
@@ -407,29 +401,6 @@ func (s *Store) treeAscTraverse(
 	return s.treeAscTraverse(n.Children[1], start, end, f)
 }
 
-func isNodeAFudgeSequenceMember(node *avltree.Node, nextChildIndex int) bool {
-	e := node.Value.(*loggregator_v2.Envelope)
-	timestamp := e.GetTimestamp()
-
-	// check if node is internal to a fudge sequence
-	if timestamp != node.Key.(int64) {
-		return true
-	}
-
-	// node is not internal, but could initiate a fudge sequence, so
-	// check next child
-	nextChild := node.Children[nextChildIndex]
-	if nextChild == nil {
-		return false
-	}
-
-	// if next child exists, check it for fudge sequence membership.
-	// if the child's timestamps don't match, then the parent is the first
-	// member of a fudge sequence.
-	nextEnvelope := nextChild.Value.(*loggregator_v2.Envelope)
-	return (nextEnvelope.GetTimestamp() != nextChild.Key.(int64))
-}
-
 func (s *Store) treeDescTraverse(
 	n *avltree.Node,
 	start int64,
@@ -441,14 +412,14 @@ func (s *Store) treeDescTraverse(
 	}
 
 	e := n.Value.(*loggregator_v2.Envelope)
-	t := e.GetTimestamp()
+	t := n.Key.(key).timestamp
 
 	if t < end {
 		if s.treeDescTraverse(n.Children[1], start, end, f) {
 			return true
 		}
 
-		if (t < start || f(e)) && !isNodeAFudgeSequenceMember(n, 0) {
+		if t < start || f(e) {
 			return true
 		}
 	}
@@ -504,9 +475,26 @@ func (store *Store) Meta() map[string]logcache_v1.MetaInfo {
 	return metaReport
 }
 
+// key orders the envelopes of a source by timestamp, and those with the same
+// timestamp by arrival.
+type key struct {
+	timestamp int64
+	arrival   uint64
+}
+
+func compareKeys(a, b interface{}) int {
+	x, y := a.(key), b.(key)
+	if x.timestamp != y.timestamp {
+		return utils.Int64Comparator(x.timestamp, y.timestamp)
+	}
+
+	return utils.UInt64Comparator(x.arrival, y.arrival)
+}
+
 type storage struct {
 	sourceId string
 	meta     logcache_v1.MetaInfo
+	arrivals uint64
 
 	*avltree.Tree
 	sync.RWMutex
-- 
2.43.0


From 761f3ce2ebc0591b06bd09b89d6c606bc292f498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:46 +0000
Subject: [PATCH 09/41] fix: the oldest timestamp after pruning is the least on
 the heap

---
 internal/cache/store/store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index 0594030..ece86b7 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -232,7 +232,7 @@ func (store *Store) truncate() {
 	}
 
 	// Otherwise, grab the next oldest timestamp and use it to update the cache period
-	if oldest := expirationHeap.Pop(); oldest.(storageExpiration).tree != nil {
+	if oldest := heap.Pop(expirationHeap); oldest.(storageExpiration).tree != nil {
 		atomic.StoreInt64(&store.oldestTimestamp, oldest.(storageExpiration).timestamp)
 		cachePeriod := calculateCachePeriod(oldest.(storageExpiration).timestamp)
 		store.metrics.setCachePeriod.Set(float64(cachePeriod))
-- 
2.43.0


From b87baad94d270528b2ebf3219e61309c87d55d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:46 +0000
Subject: [PATCH 10/41] fix: the newest timestamp is that of an envelope in the
 store

It stayed at an evicted envelope's, and at zero for earlier ones.
---
 internal/cache/store/store.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index ece86b7..e06ef71 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -122,9 +122,7 @@ func (storage *storage) insertOrSwap(store *Store, e *loggregator_v2.Envelope) {
 	storage.Put(key{timestamp: e.Timestamp, arrival: storage.arrivals}, e)
 	storage.arrivals++
 
-	if e.Timestamp > storage.meta.NewestTimestamp {
-		storage.meta.NewestTimestamp = e.Timestamp
-	}
+	storage.meta.NewestTimestamp = storage.Right().Key.(key).timestamp
 
 	oldestTimestamp := storage.Left().Key.(key).timestamp
 	storage.meta.OldestTimestamp = oldestTimestamp
-- 
2.43.0


From 9868291365a3dbeaecde193fd26d04c66221be90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:28 +0000
Subject: [PATCH 11/41] fix: concurrent puts and pruning must not lose
 envelopes or crash

A source whose last envelope was pruned while another was being put kept
taking envelopes into a storage that is no longer in the index, a source
whose first envelope was not yet inserted had no oldest key, and Meta
could look for a source that was pruned meanwhile.
---
 internal/cache/store/store.go | 45 ++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index e06ef71..f408bfd 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -105,10 +105,16 @@ func (store *Store) getOrInitializeStorage(sourceId string) (*storage, bool) {
 	return envelopeStorage.(*storage), newStorage
 }
 
-func (storage *storage) insertOrSwap(store *Store, e *loggregator_v2.Envelope) {
+// insertOrSwap returns false when the storage has been pruned from the store
+// meanwhile.
+func (storage *storage) insertOrSwap(store *Store, e *loggregator_v2.Envelope) bool {
 	storage.Lock()
 	defer storage.Unlock()
 
+	if storage.pruned {
+		return false
+	}
+
 	// If we're at our maximum capacity, remove an envelope before inserting
 	if storage.Size() >= store.maxPerSource {
 		storage.Remove(storage.Left().Key)
@@ -135,6 +141,8 @@ func (storage *storage) insertOrSwap(store *Store, e *loggregator_v2.Envelope) {
 
 	cachePeriod := calculateCachePeriod(storeOldestTimestamp)
 	store.metrics.setCachePeriod.Set(float64(cachePeriod))
+
+	return true
 }
 
 func (store *Store) WaitForTruncationToComplete() bool {
@@ -168,8 +176,12 @@ func (store *Store) truncationLoop(runInterval time.Duration) {
 func (store *Store) Put(envelope *loggregator_v2.Envelope, sourceId string) {
 	store.metrics.incIngress.Add(1)
 
-	envelopeStorage, _ := store.getOrInitializeStorage(sourceId)
-	envelopeStorage.insertOrSwap(store, envelope)
+	for {
+		envelopeStorage, _ := store.getOrInitializeStorage(sourceId)
+		if envelopeStorage.insertOrSwap(store, envelope) {
+			return
+		}
+	}
 }
 
 func (store *Store) BuildExpirationHeap() *ExpirationHeap {
@@ -178,8 +190,10 @@ func (store *Store) BuildExpirationHeap() *ExpirationHeap {
 
 	store.storageIndex.Range(func(sourceId interface{}, tree interface{}) bool {
 		tree.(*storage).RLock()
-		oldestTimestamp := tree.(*storage).Left().Key.(key).timestamp
-		heap.Push(expirationHeap, storageExpiration{timestamp: oldestTimestamp, sourceId: sourceId.(string), tree: tree.(*storage)})
+		// A new storage is empty until its first envelope is inserted.
+		if oldest := tree.(*storage).Left(); oldest != nil {
+			heap.Push(expirationHeap, storageExpiration{timestamp: oldest.Key.(key).timestamp, sourceId: sourceId.(string), tree: tree.(*storage)})
+		}
 		tree.(*storage).RUnlock()
 
 		return true
@@ -207,7 +221,7 @@ func (store *Store) truncate() {
 	expirationHeap := store.BuildExpirationHeap()
 
 	// Remove envelopes one at a time, popping state from the expirationHeap
-	for i := 0; i < numberToPrune; i++ {
+	for i := 0; i < numberToPrune && expirationHeap.Len() > 0; i++ {
 		oldest := heap.Pop(expirationHeap)
 		newOldestTimestamp, valid := store.removeOldestEnvelope(oldest.(storageExpiration).tree, oldest.(storageExpiration).sourceId)
 		if valid {
@@ -253,6 +267,7 @@ func (store *Store) removeOldestEnvelope(treeToPrune *storage, sourceId string)
 	treeToPrune.Remove(oldestEnvelope.Key)
 
 	if treeToPrune.Size() == 0 {
+		treeToPrune.pruned = true
 		store.storageIndex.Delete(sourceId)
 		return 0, false
 	}
@@ -454,22 +469,17 @@ func (store *Store) Meta() map[string]logcache_v1.MetaInfo {
 
 	store.storageIndex.Range(func(sourceId interface{}, tree interface{}) bool {
 		tree.(*storage).RLock()
-		metaReport[sourceId.(string)] = tree.(*storage).meta
+		// A new storage is empty until its first envelope is inserted.
+		if tree.(*storage).Size() > 0 {
+			meta := tree.(*storage).meta
+			meta.Count = int64(tree.(*storage).Size())
+			metaReport[sourceId.(string)] = meta
+		}
 		tree.(*storage).RUnlock()
 
 		return true
 	})
 
-	// Range over our local copy of metaReport
-	// TODO - shouldn't we just maintain Count on metaReport..?!
-	for sourceId, meta := range metaReport {
-		tree, _ := store.storageIndex.Load(sourceId)
-
-		tree.(*storage).RLock()
-		meta.Count = int64(tree.(*storage).Size())
-		tree.(*storage).RUnlock()
-		metaReport[sourceId] = meta
-	}
 	return metaReport
 }
 
@@ -493,6 +503,7 @@ type storage struct {
 	sourceId string
 	meta     logcache_v1.MetaInfo
 	arrivals uint64
+	pruned   bool
 
 	*avltree.Tree
 	sync.RWMutex
-- 
2.43.0


From 05b5d43693ef2e54ba13ef99adfb7c0dd8a0bc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:44 +0000
Subject: [PATCH 12/41] fix: a send request without envelopes must not crash
 the node

---
 internal/routing/ingress_reverse_proxy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/routing/ingress_reverse_proxy.go b/internal/routing/ingress_reverse_proxy.go
index f30d4a7..7bcf24d 100644
--- a/internal/routing/ingress_reverse_proxy.go
+++ b/internal/routing/ingress_reverse_proxy.go
@@ -45,7 +45,7 @@ func (p *IngressReverseProxy) Send(ctx context.Context, r *rpc.SendRequest) (*rp
 
 	envelopesByNode := make(map[int][]*loggregator_v2.Envelope)
 
-	for _, e := range r.Envelopes.Batch {
+	for _, e := range r.GetEnvelopes().GetBatch() {
 		for _, idx := range p.l(e.GetSourceId()) {
 			envelopesByNode[idx] = append(envelopesByNode[idx], e)
 		}
-- 
2.43.0


From 0c68dd1dcfc9a91e4d930ff0a680665017ff16a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:44 +0000
Subject: [PATCH 13/41] fix: concurrent sends must not lose envelopes in the
 batching buffer

---
 internal/routing/batched_ingress_client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/routing/batched_ingress_client.go b/internal/routing/batched_ingress_client.go
index 249520e..8d9cd21 100644
--- a/internal/routing/batched_ingress_client.go
+++ b/internal/routing/batched_ingress_client.go
@@ -18,7 +18,7 @@ import (
 type BatchedIngressClient struct {
 	c rpc.IngressClient
 
-	buffer   *diodes.OneToOne
+	buffer   *diodes.ManyToOne
 	size     int
 	interval time.Duration
 	log      *log.Logger
@@ -38,7 +38,7 @@ func NewBatchedIngressClient(
 		interval: interval,
 		log:      log,
 
-		buffer: diodes.NewOneToOne(10000, diodes.AlertFunc(func(dropped int) {
+		buffer: diodes.NewManyToOne(10000, diodes.AlertFunc(func(dropped int) {
 			log.Printf("dropped %d envelopes", dropped)
 			incDroppedMetric.Add(float64(dropped))
 		})),
-- 
2.43.0


From 05ee66e1b84fe9e8b2a0fbd1ce456cccdc13a054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:44 +0000
Subject: [PATCH 14/41] fix: the listed ranges must not change after they are
 listed

---
 internal/routing/orchestrator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/routing/orchestrator.go b/internal/routing/orchestrator.go
index 6c781ef..8bafd8f 100644
--- a/internal/routing/orchestrator.go
+++ b/internal/routing/orchestrator.go
@@ -59,8 +59,9 @@ func (o *OrchestratorAgent) ListRanges(ctx context.Context, r *rpc.ListRangesReq
 	o.mu.RLock()
 	defer o.mu.RUnlock()
 
+	// The caller reads the ranges while others are added and removed.
 	return &rpc.ListRangesResponse{
-		Ranges: o.ranges,
+		Ranges: append([]*rpc.Range(nil), o.ranges...),
 	}, nil
 }
 
-- 
2.43.0


From 529f042add3cba48daaae0e215e7b68d11fd24f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:04 +0000
Subject: [PATCH 15/41] fix: a range request without a range must not crash the
 node

---
 internal/routing/orchestrator.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/routing/orchestrator.go b/internal/routing/orchestrator.go
index 8bafd8f..079d382 100644
--- a/internal/routing/orchestrator.go
+++ b/internal/routing/orchestrator.go
@@ -5,6 +5,8 @@ import (
 	"sync"
 
 	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
+	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
 )
 
 // OrchestratorAgent manages the Log Cache node's routes.
@@ -30,6 +32,10 @@ func NewOrchestratorAgent(s RangeSetter) *OrchestratorAgent {
 
 // AddRange adds a range (from the scheduler) for data to be routed to.
 func (o *OrchestratorAgent) AddRange(ctx context.Context, r *rpc.AddRangeRequest) (*rpc.AddRangeResponse, error) {
+	if r.GetRange() == nil {
+		return nil, grpc.Errorf(codes.InvalidArgument, "a range is required")
+	}
+
 	o.mu.Lock()
 	defer o.mu.Unlock()
 
@@ -41,6 +47,10 @@ func (o *OrchestratorAgent) AddRange(ctx context.Context, r *rpc.AddRangeRequest
 // RemoveRange removes a range (form the scheduler) for the data to be routed
 // to.
 func (o *OrchestratorAgent) RemoveRange(ctx context.Context, req *rpc.RemoveRangeRequest) (*rpc.RemoveRangeResponse, error) {
+	if req.GetRange() == nil {
+		return nil, grpc.Errorf(codes.InvalidArgument, "a range is required")
+	}
+
 	o.mu.Lock()
 	defer o.mu.Unlock()
 
-- 
2.43.0


From cdf027053dc0cacbb560a04fd266333389eaf8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:04 +0000
Subject: [PATCH 16/41] fix: a read of an unknown envelope type must not crash
 the node

---
 internal/routing/local_store_reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/routing/local_store_reader.go b/internal/routing/local_store_reader.go
index d108966..dd8b92b 100644
--- a/internal/routing/local_store_reader.go
+++ b/internal/routing/local_store_reader.go
@@ -75,6 +75,10 @@ func (r *LocalStoreReader) Read(ctx context.Context, req *logcache_v1.ReadReques
 
 	var envelopeTypes []logcache_v1.EnvelopeType
 	for _, e := range req.GetEnvelopeTypes() {
+		if _, ok := logcache_v1.EnvelopeType_name[int32(e)]; !ok {
+			return nil, fmt.Errorf("Envelope type (%d) must be a known type", e)
+		}
+
 		if e != logcache_v1.EnvelopeType_ANY {
 			envelopeTypes = append(envelopeTypes, e)
 		}
-- 
2.43.0


From 4f27af93f594a0114d2e0a1419353c2a631d182d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:20 +0000
Subject: [PATCH 17/41] fix: negative and regular expression matchers select by
 what they say

---
 internal/promql/promql.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index e814c26..1731ebe 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -299,7 +299,7 @@ type LogCacheQuerier struct {
 func (l *LogCacheQuerier) Select(params *storage.SelectParams, ll ...*labels.Matcher) (storage.SeriesSet, error) {
 	var (
 		metric string
-		ls     []labels.Label
+		ms     []*labels.Matcher
 	)
 	sourceIDs := make(map[string]struct{})
 	for _, l := range ll {
@@ -311,10 +311,7 @@ func (l *LogCacheQuerier) Select(params *storage.SelectParams, ll ...*labels.Mat
 			addSourceIDsFromLabelMatcher(sourceIDs, l)
 			continue
 		}
-		ls = append(ls, labels.Label{
-			Name:  l.Name,
-			Value: l.Value,
-		})
+		ms = append(ms, l)
 	}
 
 	if len(sourceIDs) == 0 {
@@ -344,7 +341,7 @@ func (l *LogCacheQuerier) Select(params *storage.SelectParams, ll ...*labels.Mat
 		}
 
 		for _, e := range envelopeBatch.GetEnvelopes().GetBatch() {
-			if !l.hasLabels(e.GetTags(), ls) {
+			if !l.matchesLabels(e.GetTags(), ms) {
 				continue
 			}
 
@@ -427,9 +424,11 @@ func convertToLabels(tags map[string]string) []labels.Label {
 	return ls
 }
 
-func (l *LogCacheQuerier) hasLabels(tags map[string]string, ls []labels.Label) bool {
-	for _, l := range ls {
-		if v, ok := tags[l.Name]; !ok || v != l.Value {
+// matchesLabels reports whether every matcher accepts the value of its label,
+// a missing label having the empty value.
+func (l *LogCacheQuerier) matchesLabels(tags map[string]string, ms []*labels.Matcher) bool {
+	for _, m := range ms {
+		if !m.Matches(tags[m.Name]) {
 			return false
 		}
 	}
-- 
2.43.0


From 3701dce6bfb4be910af8ca6c49fd439f324f7f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:21 +0000
Subject: [PATCH 18/41] fix: matchers see the source and instance labels that a
 series has

---
 internal/promql/promql.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index 1731ebe..bfaf2a6 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -309,7 +309,9 @@ func (l *LogCacheQuerier) Select(params *storage.SelectParams, ll ...*labels.Mat
 		}
 		if l.Name == "source_id" {
 			addSourceIDsFromLabelMatcher(sourceIDs, l)
-			continue
+			if l.Type == labels.MatchEqual || l.Type == labels.MatchRegexp {
+				continue
+			}
 		}
 		ms = append(ms, l)
 	}
@@ -341,7 +343,17 @@ func (l *LogCacheQuerier) Select(params *storage.SelectParams, ll ...*labels.Mat
 		}
 
 		for _, e := range envelopeBatch.GetEnvelopes().GetBatch() {
-			if !l.matchesLabels(e.GetTags(), ms) {
+			tags := e.GetTags()
+			if tags == nil {
+				tags = make(map[string]string)
+			}
+
+			tags["source_id"] = e.SourceId
+			if e.InstanceId != "" {
+				tags["instance_id"] = e.InstanceId
+			}
+
+			if !l.matchesLabels(tags, ms) {
 				continue
 			}
 
@@ -374,16 +386,6 @@ func (l *LogCacheQuerier) Select(params *storage.SelectParams, ll ...*labels.Mat
 
 			e.Timestamp = time.Unix(0, e.GetTimestamp()).Truncate(l.interval).UnixNano()
 
-			tags := e.GetTags()
-			if tags == nil {
-				tags = make(map[string]string)
-			}
-
-			tags["source_id"] = e.SourceId
-			if e.InstanceId != "" {
-				tags["instance_id"] = e.InstanceId
-			}
-
 			builder.add(tags, point{
 				t: e.GetTimestamp() / int64(time.Millisecond),
 				v: f,
-- 
2.43.0


From cf52a05788a82913e382e6038dbd83d59255ccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:40 +0000
Subject: [PATCH 19/41] fix: series with different labels must not be taken for
 one

---
 internal/promql/promql.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index bfaf2a6..c97046d 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -7,6 +7,7 @@ import (
 	"log"
 	"regexp"
 	"sort"
+	"strconv"
 	"strings"
 	"time"
 
@@ -565,7 +566,7 @@ func (b *seriesSetBuilder) getSeriesID(tags map[string]string) string {
 
 	var seriesID string
 	for _, k := range keys {
-		seriesID = seriesID + "-" + k + "-" + tags[k]
+		seriesID = seriesID + strconv.Quote(k) + strconv.Quote(tags[k])
 	}
 
 	return seriesID
-- 
2.43.0


From 627fa8cfdd2dd6e79f4fc6df333ae9432e40a855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:44 +0000
Subject: [PATCH 20/41] fix: a range query with a step of zero must not crash
 the node

---
 internal/promql/promql.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index c97046d..800cae2 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -198,6 +198,9 @@ func (q *PromQL) RangeQuery(ctx context.Context, req *logcache_v1.PromQL_RangeQu
 	if err != nil {
 		return nil, fmt.Errorf("couldn't parse step: %s", err)
 	}
+	if step < time.Millisecond {
+		return nil, fmt.Errorf("couldn't parse step: %q is not a positive number of milliseconds", req.Step)
+	}
 
 	// TODO: Should there be some boundary checking on Start and End?
 	startTime, err := ParseTime(req.Start)
-- 
2.43.0


From ae1d98b4d85aa4d0ff362ce81be8e6567016c3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:46 +0000
Subject: [PATCH 21/41] fix: times and steps that are no numbers or too great
 are errors

---
 internal/promql/parsing.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/promql/parsing.go b/internal/promql/parsing.go
index c847123..e457149 100644
--- a/internal/promql/parsing.go
+++ b/internal/promql/parsing.go
@@ -12,7 +12,7 @@ import (
 func ParseStep(param string) (time.Duration, error) {
 	if step, err := strconv.ParseFloat(param, 64); err == nil {
 		stepInNanoSeconds := step * float64(time.Second)
-		if stepInNanoSeconds > float64(math.MaxInt64) || stepInNanoSeconds < float64(math.MinInt64) {
+		if !(stepInNanoSeconds < float64(math.MaxInt64) && stepInNanoSeconds >= float64(math.MinInt64)) {
 			return 0, fmt.Errorf("cannot parse %q to a valid step. It overflows int64", param)
 		}
 		return time.Duration(stepInNanoSeconds), nil
@@ -34,7 +34,11 @@ func ParseDuration(param string) (time.Duration, error) {
 
 func ParseTime(param string) (time.Time, error) {
 	if decimalTime, err := strconv.ParseFloat(param, 64); err == nil {
-		return time.Unix(0, int64(decimalTime*1e9)), nil
+		timeInNanoSeconds := decimalTime * 1e9
+		if !(timeInNanoSeconds < float64(math.MaxInt64) && timeInNanoSeconds >= float64(math.MinInt64)) {
+			return time.Unix(0, 0), fmt.Errorf("cannot parse %q to a valid timestamp. It overflows int64", param)
+		}
+		return time.Unix(0, int64(timeInNanoSeconds)), nil
 	}
 	if t, err := time.Parse(time.RFC3339Nano, param); err == nil {
 		return t, nil
-- 
2.43.0


From e3734ade5346e663ac289a381f6a929d556f74f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:15 +0000
Subject: [PATCH 22/41] fix: a decimal time means its own millisecond, not the
 one before

---
 internal/promql/parsing.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/promql/parsing.go b/internal/promql/parsing.go
index e457149..b851e5e 100644
--- a/internal/promql/parsing.go
+++ b/internal/promql/parsing.go
@@ -38,7 +38,11 @@ func ParseTime(param string) (time.Time, error) {
 		if !(timeInNanoSeconds < float64(math.MaxInt64) && timeInNanoSeconds >= float64(math.MinInt64)) {
 			return time.Unix(0, 0), fmt.Errorf("cannot parse %q to a valid timestamp. It overflows int64", param)
 		}
-		return time.Unix(0, int64(timeInNanoSeconds)), nil
+		// A float64 cannot hold the nanoseconds, and cutting them off would
+		// end up in the millisecond before.
+		seconds, fraction := math.Modf(decimalTime)
+		milliseconds := int64(math.Round(fraction * 1000))
+		return time.Unix(int64(seconds), milliseconds*int64(time.Millisecond)), nil
 	}
 	if t, err := time.Parse(time.RFC3339Nano, param); err == nil {
 		return t, nil
-- 
2.43.0


From a03c6345e7b9a16474d07fea3c29be6a23cc8460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:34 +0000
Subject: [PATCH 23/41] fix: a step in decimal seconds is not cut to the
 millisecond before

---
 internal/promql/parsing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/promql/parsing.go b/internal/promql/parsing.go
index b851e5e..e3b3c49 100644
--- a/internal/promql/parsing.go
+++ b/internal/promql/parsing.go
@@ -11,7 +11,7 @@ import (
 
 func ParseStep(param string) (time.Duration, error) {
 	if step, err := strconv.ParseFloat(param, 64); err == nil {
-		stepInNanoSeconds := step * float64(time.Second)
+		stepInNanoSeconds := math.Round(step * float64(time.Second))
 		if !(stepInNanoSeconds < float64(math.MaxInt64) && stepInNanoSeconds >= float64(math.MinInt64)) {
 			return 0, fmt.Errorf("cannot parse %q to a valid step. It overflows int64", param)
 		}
-- 
2.43.0


From 548e46df77bee1086ea67a852890926aedee10a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:37 +0000
Subject: [PATCH 24/41] fix: no query parameter sets what another part of the
 URL has named

A request for one source read another when it had sourceId or
XXX_unrecognized among its query parameters, and a query ran the one in
brackets behind its name, neither of which the authorization has seen.
---
 internal/gateway/gateway.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/internal/gateway/gateway.go b/internal/gateway/gateway.go
index 0aae4e8..2436cd5 100644
--- a/internal/gateway/gateway.go
+++ b/internal/gateway/gateway.go
@@ -156,7 +156,7 @@ func (g *Gateway) listenAndServe() {
 
 	topLevelMux := http.NewServeMux()
 	topLevelMux.HandleFunc("/api/v1/info", g.handleInfoEndpoint)
-	topLevelMux.Handle("/", keepColons(mux))
+	topLevelMux.Handle("/", keepNames(keepColons(mux)))
 
 	server := &http.Server{Handler: topLevelMux}
 	if err := server.ServeTLS(g.lis, g.certPath, g.keyPath); err != nil {
@@ -164,6 +164,33 @@ func (g *Gateway) listenAndServe() {
 	}
 }
 
+// keepNames drops the query parameters by which the mux would set what has been
+// named elsewhere in the URL: what is in brackets is the value of the parameter
+// before them, sourceId is the source ID of the path, and XXX_unrecognized may
+// hold any field. Whoever authorized the request did not look there.
+func keepNames(h http.Handler) http.Handler {
+	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
+		q := r.URL.Query()
+		dropped := false
+		for k := range q {
+			if k == "sourceId" || strings.HasPrefix(k, "XXX_") || strings.ContainsAny(k, "[]") {
+				delete(q, k)
+				dropped = true
+			}
+		}
+
+		if dropped {
+			u := *r.URL
+			u.RawQuery = q.Encode()
+
+			r = r.WithContext(r.Context())
+			r.URL = &u
+		}
+
+		h.ServeHTTP(w, r)
+	})
+}
+
 // keepColons keeps the mux from taking what follows the last colon of a path
 // for a verb, which none of the API's methods has: the colon is part of a
 // source ID.
-- 
2.43.0


From 3d51eedc4167789c5e05ab2ccb61ecfc72211bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 25/41] fix: a token without a key ID is refused instead of a
 crash

The header of a token is the client's to choose. The panic left the
request without an answer.
---
 internal/auth/uaa_client.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/auth/uaa_client.go b/internal/auth/uaa_client.go
index 81b6adb..9da9c88 100644
--- a/internal/auth/uaa_client.go
+++ b/internal/auth/uaa_client.go
@@ -179,10 +179,13 @@ func (c *UAAClient) Read(token string) (Oauth2ClientContext, error) {
 
 	payload, _, err := jose.Decode(trimBearer(token), func(headers map[string]interface{}, payload string) interface{} {
 		if headers["alg"] != "RS256" {
-			return AlgorithmError{Alg: headers["alg"].(string)}
+			return AlgorithmError{Alg: fmt.Sprint(headers["alg"])}
 		}
 
-		keyId := headers["kid"].(string)
+		keyId, ok := headers["kid"].(string)
+		if !ok {
+			return UnknownTokenKeyError{Kid: fmt.Sprint(headers["kid"])}
+		}
 
 		publicKey, err := c.loadOrFetchPublicKey(keyId)
 		if err != nil {
-- 
2.43.0


From 94d6fe290efdd19f14ffec91a3616df7cd24acd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 26/41] fix: a failed refresh of the token keys gives its
 connection back

The response was left open when its status was not 200.
---
 internal/auth/uaa_client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/auth/uaa_client.go b/internal/auth/uaa_client.go
index 9da9c88..ab9f800 100644
--- a/internal/auth/uaa_client.go
+++ b/internal/auth/uaa_client.go
@@ -101,10 +101,11 @@ func (c *UAAClient) RefreshTokenKeys() error {
 		return fmt.Errorf("failed to get token keys from UAA: %s", err)
 	}
 
+	defer resp.Body.Close()
+
 	if resp.StatusCode != http.StatusOK {
 		return fmt.Errorf("got an invalid status code talking to UAA %v", resp.Status)
 	}
-	defer resp.Body.Close()
 
 	tokenKeys, err := unmarshalTokenKeys(resp.Body)
 	if err != nil {
-- 
2.43.0


From c68e7a8e2529e216adcc11a230eaa5b0bd232043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 27/41] fix: a request's path cannot forge lines or fields of
 the access log

An escaped line feed in the path was written as one, so that a request
could add lines of its own.
---
 internal/auth/access_log.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/auth/access_log.go b/internal/auth/access_log.go
index f7c7d3d..0567ffa 100644
--- a/internal/auth/access_log.go
+++ b/internal/auth/access_log.go
@@ -44,10 +44,12 @@ func NewAccessLog(req *http.Request, ts time.Time, host, port string) *AccessLog
 
 func (al *AccessLog) String() string {
 	vcapRequestId := al.request.Header.Get(requestIDHeader)
-	path := al.request.URL.Path
+	// The decoded path may hold line feeds, and a pipe would end the field.
+	path := al.request.URL.EscapedPath()
 	if al.request.URL.RawQuery != "" {
-		path = fmt.Sprintf("%s?%s", al.request.URL.Path, al.request.URL.RawQuery)
+		path = fmt.Sprintf("%s?%s", path, al.request.URL.RawQuery)
 	}
+	path = strings.Replace(path, "|", "%7C", -1)
 	remoteHost, remotePort := al.extractRemoteInfo()
 
 	context := templateContext{
-- 
2.43.0


From deb3c70aa321b8d0de2e92e97c6dbdb2a98d956d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 28/41] fix: the access log names a client by its IPv6 address

X-Forwarded-For has no port, and an address with colons could not be
split into host and port, so that the line had neither.
---
 internal/auth/access_log.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/auth/access_log.go b/internal/auth/access_log.go
index 0567ffa..9e516df 100644
--- a/internal/auth/access_log.go
+++ b/internal/auth/access_log.go
@@ -82,6 +82,10 @@ func (al *AccessLog) extractRemoteInfo() (string, string) {
 		remoteAddr = al.request.RemoteAddr
 	}
 
+	if net.ParseIP(remoteAddr) != nil {
+		return remoteAddr, ""
+	}
+
 	if !strings.Contains(remoteAddr, ":") {
 		remoteAddr += ":"
 	}
-- 
2.43.0


From 0251b0c9d312a76a72bce151f9bd46dc9c574f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 29/41] fix: replacing source IDs keeps a metric name given
 within the braces

{__name__="cpu",source_id="a"} lost its name on the way through the
proxy and selected nothing.
---
 internal/promql/promql.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index 800cae2..4de3fc0 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -694,8 +694,10 @@ func (s *sourceIdReplacementVisitor) Visit(node promql.Node, _ []promql.Node) (p
 	switch selector := node.(type) {
 	case *promql.VectorSelector:
 		s.replaceInMatchers(selector.LabelMatchers)
+		s.keepNameInMatchers(selector.Name, selector.LabelMatchers)
 	case *promql.MatrixSelector:
 		s.replaceInMatchers(selector.LabelMatchers)
+		s.keepNameInMatchers(selector.Name, selector.LabelMatchers)
 	}
 
 	return s, nil
@@ -714,6 +716,23 @@ func (s *sourceIdReplacementVisitor) replaceInMatchers(labelMatchers []*labels.M
 	}
 }
 
+// keepNameInMatchers has a selector's metric name, when it is given within the
+// braces, written out as a regular expression that matches only that name. As
+// an equality it would be taken for the name before the braces, which there is
+// none of, and be left out.
+func (s *sourceIdReplacementVisitor) keepNameInMatchers(name string, labelMatchers []*labels.Matcher) {
+	if name != "" {
+		return
+	}
+
+	for _, labelMatcher := range labelMatchers {
+		if labelMatcher.Name == labels.MetricName && labelMatcher.Type == labels.MatchEqual {
+			labelMatcher.Type = labels.MatchRegexp
+			labelMatcher.Value = regexp.QuoteMeta(labelMatcher.Value)
+		}
+	}
+}
+
 func (s *sourceIdReplacementVisitor) replaceSourceIdsInEqualMatcher(labelMatcher *labels.Matcher) {
 	expansions, ok := s.sourceIdSets[labelMatcher.Value]
 
-- 
2.43.0


From 75b942a788ba5c37dcde59fd4cf1d832fb666a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 30/41] fix: a request's method and headers cannot forge fields
 of the access log

---
 internal/auth/access_log.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/internal/auth/access_log.go b/internal/auth/access_log.go
index 9e516df..fd640b7 100644
--- a/internal/auth/access_log.go
+++ b/internal/auth/access_log.go
@@ -50,15 +50,17 @@ func (al *AccessLog) String() string {
 		path = fmt.Sprintf("%s?%s", path, al.request.URL.RawQuery)
 	}
 	path = strings.Replace(path, "|", "%7C", -1)
+	// A method may hold pipes too.
+	method := strings.Replace(al.request.Method, "|", "%7C", -1)
 	remoteHost, remotePort := al.extractRemoteInfo()
 
 	context := templateContext{
 		toMillis(al.timestamp),
-		vcapRequestId,
+		escapeExtension(vcapRequestId),
 		path,
-		al.request.Method,
-		remoteHost,
-		remotePort,
+		method,
+		escapeExtension(remoteHost),
+		escapeExtension(remotePort),
 		al.host,
 		al.port,
 	}
@@ -97,6 +99,12 @@ func (al *AccessLog) extractRemoteInfo() (string, string) {
 	return host, port
 }
 
+// escapeExtension keeps a value that a client has chosen from adding further
+// keys to the log's extension.
+func escapeExtension(value string) string {
+	return strings.NewReplacer(`\`, `\\`, `=`, `\=`).Replace(value)
+}
+
 func toMillis(timestamp time.Time) int64 {
 	return timestamp.UnixNano() / int64(time.Millisecond)
 }
-- 
2.43.0


From e4cded62f8ee465d1b248a63769134a2b5fbad32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:31 +0000
Subject: [PATCH 31/41] fix: asking for the leadership leaves no response open

---
 cmd/scheduler/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/scheduler/main.go b/cmd/scheduler/main.go
index ac9eca2..2f90ff1 100644
--- a/cmd/scheduler/main.go
+++ b/cmd/scheduler/main.go
@@ -42,6 +42,7 @@ func main() {
 				log.Printf("failed to read from leaderhip endpoint: %s", err)
 				return false
 			}
+			defer resp.Body.Close()
 
 			return resp.StatusCode == http.StatusOK
 		}))
-- 
2.43.0


From f695d5d84f333890ce205ce7fb783aaa5c374521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 32/41] fix: a syslog message without an app name, process ID,
 timestamp or text does not crash the server

---
 internal/syslog/server.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/syslog/server.go b/internal/syslog/server.go
index 7007d7b..1ddea00 100644
--- a/internal/syslog/server.go
+++ b/internal/syslog/server.go
@@ -152,6 +152,10 @@ func (s *Server) parseListener(res *syslog.Result) {
 }
 
 func (s *Server) convertToEnvelope(msg syslog.Message) (*loggregator_v2.Envelope, error) {
+	if msg.Appname() == nil || msg.ProcID() == nil || msg.Timestamp() == nil {
+		return nil, errors.New("expected app name, process ID and timestamp not found in message")
+	}
+
 	sourceType, instanceId := s.sourceTypeInstIdFromPID(*msg.ProcID())
 	env := &loggregator_v2.Envelope{
 		SourceId:   *msg.Appname(),
@@ -176,9 +180,15 @@ func (s *Server) convertToEnvelope(msg syslog.Message) (*loggregator_v2.Envelope
 		}
 	}
 
+	// The text of a message is optional
+	var payload string
+	if msg.Message() != nil {
+		payload = *msg.Message()
+	}
+
 	env.Message = &loggregator_v2.Envelope_Log{
 		Log: &loggregator_v2.Log{
-			Payload: []byte(strings.TrimSpace(*msg.Message())),
+			Payload: []byte(strings.TrimSpace(payload)),
 			Type:    s.typeFromPriority(int(*msg.Priority())),
 		},
 	}
-- 
2.43.0


From dd94ed7eca4edeca3be651678e8e47ec6dea33c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:03 +0000
Subject: [PATCH 33/41] fix: ranges of a node that were left out do not crash
 the node

---
 internal/routing/routing_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/routing/routing_table.go b/internal/routing/routing_table.go
index 2f9a4f6..de996b1 100644
--- a/internal/routing/routing_table.go
+++ b/internal/routing/routing_table.go
@@ -80,7 +80,7 @@ func (t *RoutingTable) SetRanges(ctx context.Context, in *rpc.SetRangesRequest)
 
 	t.table = nil
 	for addr, ranges := range in.Ranges {
-		for _, r := range ranges.Ranges {
+		for _, r := range ranges.GetRanges() {
 			var sr Range
 			sr.CloneRpcRange(r)
 
-- 
2.43.0


From 8fb8c7921c73ed0a667b97cc84ddc29ba1668d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 34/41] fix: the syslog server accepts connections again after
 it ran out of file descriptors

---
 internal/syslog/server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/syslog/server.go b/internal/syslog/server.go
index 1ddea00..8be0561 100644
--- a/internal/syslog/server.go
+++ b/internal/syslog/server.go
@@ -91,6 +91,12 @@ func (s *Server) Start() {
 
 	for {
 		c, err := l.Accept()
+		// An error such as too many open files passes
+		if ne, ok := err.(net.Error); ok && ne.Temporary() {
+			s.loggr.Printf("syslog server failed to accept a connection: %s", err)
+			time.Sleep(50 * time.Millisecond)
+			continue
+		}
 		if err != nil {
 			s.loggr.Printf("syslog server no longer accepting connections: %s", err)
 			return
-- 
2.43.0


From 2731253a1eadfc65897bba281d661ada558aa55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:08 +0000
Subject: [PATCH 35/41] fix: a leadership endpoint that does not answer does
 not stop the scheduler

---
 cmd/scheduler/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/scheduler/main.go b/cmd/scheduler/main.go
index 2f90ff1..82963d6 100644
--- a/cmd/scheduler/main.go
+++ b/cmd/scheduler/main.go
@@ -36,8 +36,10 @@ func main() {
 	}
 
 	if cfg.LeaderElectionEndpoint != "" {
+		// The scheduler waits for the answer, and must not do so forever
+		leadership := &http.Client{Timeout: cfg.Interval}
 		opts = append(opts, WithSchedulerLeadership(func() bool {
-			resp, err := http.Get(cfg.LeaderElectionEndpoint)
+			resp, err := leadership.Get(cfg.LeaderElectionEndpoint)
 			if err != nil {
 				log.Printf("failed to read from leaderhip endpoint: %s", err)
 				return false
-- 
2.43.0


From cccc425167b757fad7ee2c10696b162a2823fe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 36/41] fix: the address of the gateway may come without a
 scheme

---
 cmd/cf-auth-proxy/main.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/cf-auth-proxy/main.go b/cmd/cf-auth-proxy/main.go
index 0b83d4d..fa2bdbf 100644
--- a/cmd/cf-auth-proxy/main.go
+++ b/cmd/cf-auth-proxy/main.go
@@ -10,6 +10,7 @@ import (
 	_ "net/http/pprof"
 	"net/url"
 	"os"
+	"strings"
 	"time"
 
 	"crypto/x509"
@@ -50,7 +51,13 @@ func main() {
 		loggr.Fatalf("failed to fetch token from UAA: %s", err)
 	}
 
-	gatewayURL, err := url.Parse(cfg.LogCacheGatewayAddr)
+	// The address may come without a scheme, as its default does
+	gatewayAddr := cfg.LogCacheGatewayAddr
+	if !strings.Contains(gatewayAddr, "://") {
+		gatewayAddr = "https://" + gatewayAddr
+	}
+
+	gatewayURL, err := url.Parse(gatewayAddr)
 	if err != nil {
 		loggr.Fatalf("failed to parse gateway address: %s", err)
 	}
-- 
2.43.0


From 7b5443c4d83d3a72f323bdd0bbbae3456e2f9061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 37/41] fix: what the syslog server receives is routed to the
 node it belongs to

---
 cmd/syslog-server/main.go                  |  9 +++++-
 internal/routing/batched_ingress_client.go | 36 ++++++++++++++++------
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/cmd/syslog-server/main.go b/cmd/syslog-server/main.go
index c962159..c33b88b 100644
--- a/cmd/syslog-server/main.go
+++ b/cmd/syslog-server/main.go
@@ -49,7 +49,14 @@ func main() {
 
 	server := syslog.NewServer(
 		loggr,
-		routing.NewBatchedIngressClient(BATCH_CHANNEL_SIZE, BATCH_FLUSH_INTERVAL, client, egressDropped, loggr),
+		routing.NewBatchedIngressClient(
+			BATCH_CHANNEL_SIZE,
+			BATCH_FLUSH_INTERVAL,
+			client,
+			egressDropped,
+			loggr,
+			routing.WithLocalOnlyDisabled(),
+		),
 		m,
 		cfg.SyslogTLSCertPath,
 		cfg.SyslogTLSKeyPath,
diff --git a/internal/routing/batched_ingress_client.go b/internal/routing/batched_ingress_client.go
index 8d9cd21..1719f51 100644
--- a/internal/routing/batched_ingress_client.go
+++ b/internal/routing/batched_ingress_client.go
@@ -18,10 +18,22 @@ import (
 type BatchedIngressClient struct {
 	c rpc.IngressClient
 
-	buffer   *diodes.ManyToOne
-	size     int
-	interval time.Duration
-	log      *log.Logger
+	buffer    *diodes.ManyToOne
+	size      int
+	interval  time.Duration
+	log       *log.Logger
+	localOnly bool
+}
+
+// BatchedIngressClientOption configures a BatchedIngressClient.
+type BatchedIngressClientOption func(*BatchedIngressClient)
+
+// WithLocalOnlyDisabled lets the node that receives the envelopes route them.
+// Without it, the node stores them itself.
+func WithLocalOnlyDisabled() BatchedIngressClientOption {
+	return func(b *BatchedIngressClient) {
+		b.localOnly = false
+	}
 }
 
 // NewBatchedIngressClient returns a new BatchedIngressClient.
@@ -31,12 +43,14 @@ func NewBatchedIngressClient(
 	c rpc.IngressClient,
 	incDroppedMetric metrics.Counter,
 	log *log.Logger,
+	opts ...BatchedIngressClientOption,
 ) *BatchedIngressClient {
 	b := &BatchedIngressClient{
-		c:        c,
-		size:     size,
-		interval: interval,
-		log:      log,
+		c:         c,
+		size:      size,
+		interval:  interval,
+		log:       log,
+		localOnly: true,
 
 		buffer: diodes.NewManyToOne(10000, diodes.AlertFunc(func(dropped int) {
 			log.Printf("dropped %d envelopes", dropped)
@@ -44,6 +58,10 @@ func NewBatchedIngressClient(
 		})),
 	}
 
+	for _, o := range opts {
+		o(b)
+	}
+
 	go b.start()
 
 	return b
@@ -79,7 +97,7 @@ func (b *BatchedIngressClient) write(batch []interface{}) {
 
 	ctx, _ := context.WithTimeout(context.Background(), 3*time.Second)
 	_, err := b.c.Send(ctx, &rpc.SendRequest{
-		LocalOnly: true,
+		LocalOnly: b.localOnly,
 		Envelopes: &loggregator_v2.EnvelopeBatch{Batch: e},
 	})
 
-- 
2.43.0


From d6417b2fba05843395c423dd46bd7396c6e4e5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:45 +0000
Subject: [PATCH 38/41] fix: pruning takes account of what it has removed, and
 does not empty the store

---
 internal/cache/store/store.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index f408bfd..10f2bfa 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -4,6 +4,7 @@ import (
 	"code.cloudfoundry.org/go-loggregator/metrics"
 	"container/heap"
 	"regexp"
+	"runtime"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -229,6 +230,11 @@ func (store *Store) truncate() {
 		}
 	}
 
+	// The memory of the removed envelopes counts as in use until it is
+	// collected. Left to the runtime, that can take minutes, during which
+	// ever more envelopes would be pruned for it.
+	runtime.GC()
+
 	// Always update our store size metric and close out the channel when we return
 	defer func() {
 		store.metrics.setStoreSize.Set(float64(atomic.LoadInt64(&store.count)))
-- 
2.43.0


From 611926023c474f8fc8d73b43534a9ab9dbf8040a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:57 +0000
Subject: [PATCH 39/41] fix: messages of more than 4 MB pass between the
 processes

Batches and reads of long log lines, and the meta of many sources, exceed the
4 MB that gRPC takes by default, and failed.
---
 internal/cache/log_cache.go | 15 +++++++++++++--
 internal/gateway/gateway.go |  9 ++++++++-
 pkg/client/client.go        |  9 ++++++++-
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/internal/cache/log_cache.go b/internal/cache/log_cache.go
index 219c6ac..94ca580 100644
--- a/internal/cache/log_cache.go
+++ b/internal/cache/log_cache.go
@@ -77,6 +77,11 @@ func New(m Metrics, logger *log.Logger, opts ...LogCacheOption) *LogCache {
 	return cache
 }
 
+// maxMessageSize is what a message between nodes, and to and from them, may
+// have. The 4 MB that gRPC allows on its own are less than a batch or a read of
+// long log lines, or the meta of many sources.
+const maxMessageSize = 128 * 1024 * 1024
+
 // LogCacheOption configures a LogCache.
 type LogCacheOption func(*LogCache)
 
@@ -191,10 +196,14 @@ func (c *LogCache) setupRouting(s *store.Store) {
 
 	lcr := routing.NewLocalStoreReader(s)
 
+	dialOpts := append([]grpc.DialOption{
+		grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(maxMessageSize)),
+	}, c.dialOpts...)
+
 	// Register peers and current node
 	for i, addr := range c.nodeAddrs {
 		if i != c.nodeIndex {
-			conn, err := grpc.Dial(addr, c.dialOpts...)
+			conn, err := grpc.Dial(addr, dialOpts...)
 			if err != nil {
 				log.Printf("failed to dial %s: %s", addr, err)
 				continue
@@ -238,7 +247,9 @@ func (c *LogCache) setupRouting(s *store.Store) {
 		c.log,
 		c.queryTimeout,
 	)
-	c.server = grpc.NewServer(c.serverOpts...)
+	c.server = grpc.NewServer(append([]grpc.ServerOption{
+		grpc.MaxRecvMsgSize(maxMessageSize),
+	}, c.serverOpts...)...)
 
 	go func() {
 		logcache_v1.RegisterIngressServer(c.server, ingressReverseProxy)
diff --git a/internal/gateway/gateway.go b/internal/gateway/gateway.go
index 2436cd5..138bc5e 100644
--- a/internal/gateway/gateway.go
+++ b/internal/gateway/gateway.go
@@ -18,6 +18,11 @@ import (
 	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
 )
 
+// maxMessageSize is what an answer of Log Cache may have. The 4 MB that gRPC
+// allows on its own are less than a read of long log lines, or the meta of many
+// sources.
+const maxMessageSize = 128 * 1024 * 1024
+
 // Gateway provides a RESTful API into LogCache's gRPC API.
 type Gateway struct {
 	log *log.Logger
@@ -131,7 +136,9 @@ func (g *Gateway) listenAndServe() {
 
 	runtime.HTTPError = g.httpErrorHandler
 
-	conn, err := grpc.Dial(g.logCacheAddr, g.logCacheDialOpts...)
+	conn, err := grpc.Dial(g.logCacheAddr, append([]grpc.DialOption{
+		grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(maxMessageSize)),
+	}, g.logCacheDialOpts...)...)
 	if err != nil {
 		g.log.Fatalf("failed to dial Log Cache: %s", err)
 	}
diff --git a/pkg/client/client.go b/pkg/client/client.go
index 0ba1d5a..4e120a8 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -77,12 +77,19 @@ func WithHTTPClient(h HTTPClient) ClientOption {
 	})
 }
 
+// maxMessageSize is what an answer via gRPC may have. The 4 MB that gRPC allows
+// on its own are less than a read of long log lines, or the meta of many
+// sources.
+const maxMessageSize = 128 * 1024 * 1024
+
 // WithViaGRPC enables gRPC instead of HTTP/1 for reading from LogCache.
 func WithViaGRPC(opts ...grpc.DialOption) ClientOption {
 	return clientOptionFunc(func(c interface{}) {
 		switch c := c.(type) {
 		case *Client:
-			conn, err := grpc.Dial(c.addr, opts...)
+			conn, err := grpc.Dial(c.addr, append([]grpc.DialOption{
+				grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(maxMessageSize)),
+			}, opts...)...)
 			if err != nil {
 				panic(fmt.Sprintf("failed to dial via gRPC: %s", err))
 			}
-- 
2.43.0


From a668d4acc3c6c1088d41d0aac7553ae11aa0fe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:09 +0000
Subject: [PATCH 40/41] fix: a request waits for a token no longer than its
 context allows

---
 pkg/client/oauth2_http_client.go | 61 +++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/pkg/client/oauth2_http_client.go b/pkg/client/oauth2_http_client.go
index eabc1a1..b648d83 100644
--- a/pkg/client/oauth2_http_client.go
+++ b/pkg/client/oauth2_http_client.go
@@ -1,6 +1,7 @@
 package client
 
 import (
+	"context"
 	"encoding/json"
 	"fmt"
 	"net/http"
@@ -22,6 +23,10 @@ type Oauth2HTTPClient struct {
 	username     string
 	userPassword string
 
+	// fetch is held while a token is looked up, or fetched. Unlike for a mutex,
+	// a caller stops waiting for it when its context ends.
+	fetch chan struct{}
+
 	mu    sync.Mutex
 	token string
 }
@@ -32,6 +37,7 @@ func NewOauth2HTTPClient(oauth2Addr, client, clientSecret string, opts ...Oauth2
 		oauth2Addr:   oauth2Addr,
 		client:       client,
 		clientSecret: clientSecret,
+		fetch:        make(chan struct{}, 1),
 
 		c: &http.Client{
 			Timeout: 5 * time.Second,
@@ -88,7 +94,7 @@ func (c *Oauth2HTTPClient) Do(req *http.Request) (*http.Response, error) {
 		return c.c.Do(req)
 	}
 
-	token, err := c.getToken()
+	token, err := c.getToken(req.Context())
 	if err != nil {
 		return nil, err
 	}
@@ -101,30 +107,41 @@ func (c *Oauth2HTTPClient) Do(req *http.Request) (*http.Response, error) {
 	}
 
 	if resp.StatusCode < http.StatusOK || resp.StatusCode >= http.StatusMultipleChoices {
-		c.mu.Lock()
-		c.token = ""
-		c.mu.Unlock()
+		c.setToken("")
 		return resp, nil
 	}
 
 	return resp, nil
 }
 
-func (c *Oauth2HTTPClient) getToken() (string, error) {
-	if c.username == "" {
-		return c.getClientToken()
-	}
-	return c.getUserToken()
+func (c *Oauth2HTTPClient) setToken(token string) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	c.token = token
 }
 
-func (c *Oauth2HTTPClient) getClientToken() (string, error) {
+func (c *Oauth2HTTPClient) getToken(ctx context.Context) (string, error) {
+	select {
+	case c.fetch <- struct{}{}:
+		defer func() { <-c.fetch }()
+	case <-ctx.Done():
+		return "", ctx.Err()
+	}
+
 	c.mu.Lock()
-	defer c.mu.Unlock()
+	token := c.token
+	c.mu.Unlock()
+	if token != "" {
+		return token, nil
+	}
 
-	if c.token != "" {
-		return c.token, nil
+	if c.username == "" {
+		return c.getClientToken(ctx)
 	}
+	return c.getUserToken(ctx)
+}
 
+func (c *Oauth2HTTPClient) getClientToken(ctx context.Context) (string, error) {
 	v := make(url.Values)
 	v.Set("client_id", c.client)
 	v.Set("grant_type", "client_credentials")
@@ -143,17 +160,10 @@ func (c *Oauth2HTTPClient) getClientToken() (string, error) {
 
 	req.URL.User = url.UserPassword(c.client, c.clientSecret)
 
-	return c.doTokenRequest(req)
+	return c.doTokenRequest(req.WithContext(ctx))
 }
 
-func (c *Oauth2HTTPClient) getUserToken() (string, error) {
-	c.mu.Lock()
-	defer c.mu.Unlock()
-
-	if c.token != "" {
-		return c.token, nil
-	}
-
+func (c *Oauth2HTTPClient) getUserToken(ctx context.Context) (string, error) {
 	v := make(url.Values)
 	v.Set("client_id", c.client)
 	v.Set("client_secret", c.clientSecret)
@@ -173,7 +183,7 @@ func (c *Oauth2HTTPClient) getUserToken() (string, error) {
 
 	req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
 
-	return c.doTokenRequest(req)
+	return c.doTokenRequest(req.WithContext(ctx))
 }
 
 func (c *Oauth2HTTPClient) doTokenRequest(req *http.Request) (string, error) {
@@ -197,6 +207,7 @@ func (c *Oauth2HTTPClient) doTokenRequest(req *http.Request) (string, error) {
 		return "", fmt.Errorf("failed to unmarshal response from Oauth2 server: %s", err)
 	}
 
-	c.token = fmt.Sprintf("%s %s", token.TokenType, token.AccessToken)
-	return c.token, nil
+	t := fmt.Sprintf("%s %s", token.TokenType, token.AccessToken)
+	c.setToken(t)
+	return t, nil
 }
-- 
2.43.0


From a73302faf8dc62dda824924ec971f0d6cd78f8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:09 +0000
Subject: [PATCH 41/41] fix: skipping TLS verification for one client skipped
 it for the whole process

---
 internal/blackbox/blackbox.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/blackbox/blackbox.go b/internal/blackbox/blackbox.go
index 99e7008..6109985 100644
--- a/internal/blackbox/blackbox.go
+++ b/internal/blackbox/blackbox.go
@@ -69,8 +69,9 @@ func NewHttpEgressClient(httpAddr, uaaAddr, uaaClientId, uaaClientSecret string,
 }
 
 func buildHttpClient(skipTLSVerify bool) *http.Client {
-	client := http.DefaultClient
-	client.Timeout = 10 * time.Second
+	client := &http.Client{
+		Timeout: 10 * time.Second,
+	}
 
 	if skipTLSVerify {
 		client.Transport = &http.Transport{
-- 
2.43.0

