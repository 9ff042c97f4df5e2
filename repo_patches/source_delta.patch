From f9af1aba574a60affb51c3b31d1be3d92a85c408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:04 +0000
Subject: [PATCH 01/21] fix: AddDataPoint RPC acknowledged datapoints the node
 refused

---
 pkg/kmeans/rpc/server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 0a045cd..c29fd0c 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -56,14 +56,17 @@ func (s *KMeansServer) AddDataPoint(args AddDataPointArgs, resp *bool) error {
 	// Namespace doesn't exist, create one + add dp there.
 	if !lookupOK {
 		centroidManager := s.CentroidManagerFactoryFunc(args.DP.Vec)
-		centroidManager.AddDataPoint(args.DP)
+		*resp = centroidManager.AddDataPoint(args.DP)
+		// Refused (expired, for instance); don't leave an empty namespace.
+		if !*resp {
+			return nil
+		}
 		slot := CManagerSlot{cManager: centroidManager}
 		// Returns a false if a slot is the containec CentroidManager is
 		// nil, but it is assumed that it works here.
 		s.Table.AddSlot(args.NameSpace, &slot)
 	}
 
-	*resp = true
 	return nil
 }
 
-- 
2.43.0


From 2217f094a6de22907dac56d1341de45bfc2c92f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:05 +0000
Subject: [PATCH 02/21] fix: concurrent first puts into a namespace replaced
 each other's data

---
 pkg/kmeans/rpc/rpc.go    | 16 ++++++++++++++++
 pkg/kmeans/rpc/server.go | 11 ++++++++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/pkg/kmeans/rpc/rpc.go b/pkg/kmeans/rpc/rpc.go
index 179228b..97b31d2 100644
--- a/pkg/kmeans/rpc/rpc.go
+++ b/pkg/kmeans/rpc/rpc.go
@@ -181,6 +181,22 @@ func (t *CManagerTable) AddSlot(namespace string, cms *CManagerSlot) bool {
 	return true
 }
 
+// addSlotIfAbsent does the same as AddSlot, but won't replace a slot which is
+// already there (false is returned in that case).
+func (t *CManagerTable) addSlotIfAbsent(namespace string, cms *CManagerSlot) bool {
+	if cms == nil || cms.cManager == nil {
+		return false
+	}
+
+	t.Lock()
+	defer t.Unlock()
+	if _, exists := t.slots[namespace]; exists {
+		return false
+	}
+	t.slots[namespace] = cms
+	return true
+}
+
 // CentroidManagerFactoryF is whatever creates a CentroidManager.
 type CentroidManagerFactoryF = func(vec []float64) *CentroidManager
 
diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index c29fd0c..9000154 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -62,9 +62,14 @@ func (s *KMeansServer) AddDataPoint(args AddDataPointArgs, resp *bool) error {
 			return nil
 		}
 		slot := CManagerSlot{cManager: centroidManager}
-		// Returns a false if a slot is the containec CentroidManager is
-		// nil, but it is assumed that it works here.
-		s.Table.AddSlot(args.NameSpace, &slot)
+		// Another call might have created the namespace since the lookup
+		// above, its data must not be replaced.
+		if !s.Table.addSlotIfAbsent(args.NameSpace, &slot) {
+			*resp = false
+			s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
+				*resp = cm.AddDataPoint(args.DP)
+			})
+		}
 	}
 
 	return nil
-- 
2.43.0


From 10c20ec999afcc0ba0bff23de80c98cb21d31250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:07 +0000
Subject: [PATCH 03/21] fix: StealCentroid could replace a namespace created
 concurrently

---
 pkg/kmeans/rpc/server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 9000154..08f138a 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -378,7 +378,8 @@ func (s *KMeansServer) StealCentroid(args StealCentroidArgs, r *StealCentroidsRe
 			return nil
 		}
 		cm := s.CentroidManagerFactoryFunc(localVec)
-		s.Table.AddSlot(args.NameSpace, &CManagerSlot{cManager: cm})
+		// The namespace might have been created since the lookup above.
+		s.Table.addSlotIfAbsent(args.NameSpace, &CManagerSlot{cManager: cm})
 	}
 
 	for r.TransferredN < args.TransferDPLimit && clientErr == nil {
-- 
2.43.0


From f09028e2a2214ca58909572709c6f64e5e998be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:08 +0000
Subject: [PATCH 04/21] fix: CosineSimilarity was NaN when one of the vectors
 is zero

---
 pkg/mathutils/distance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mathutils/distance.go b/pkg/mathutils/distance.go
index f618267..75ed629 100644
--- a/pkg/mathutils/distance.go
+++ b/pkg/mathutils/distance.go
@@ -40,7 +40,7 @@ func CosineSimilarity(vec1, vec2 []float64) (float64, error) {
 		return 0, errors.New("similarity measurement attempt failed: vectors are of different lengths")
 	}
 	norm1, norm2 := norm(vec1), norm(vec2)
-	if norm1 == 0 && norm2 == 0 {
+	if norm1 == 0 || norm2 == 0 {
 		return 0, nil
 	}
 	var dot float64
-- 
2.43.0


From ac5d77cc38816ed3576b3a7833d82c0541a49f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:09 +0000
Subject: [PATCH 05/21] fix: KNNLookup missed stored datapoints behind empty
 centroids

---
 pkg/kmeans/centroidmanager/cmanager.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index d37fe8b..54aa6f5 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -425,7 +425,8 @@ func (cm *CentroidManager) KNNLookup(vec []float64, k int, drain bool) []common.
 	res := make([]common.DataPoint, 0, k)
 
 	gen := cm.centroidVecGenerator() // Brevity.
-	for _, centroidIndex := range cm.knnSearchFunc(vec, gen, k) {
+	// All Centroids, because the nearest ones might be empty.
+	for _, centroidIndex := range cm.knnSearchFunc(vec, gen, len(cm.Centroids)) {
 		if len(res) >= k {
 			break
 		}
-- 
2.43.0


From e105dbaa70cded3fb26526edcad5f1a5d3160c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:10 +0000
Subject: [PATCH 06/21] fix: an unset TaskSkip.Meta crashed the event loop

---
 core/eventloop/cfg.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/eventloop/cfg.go b/core/eventloop/cfg.go
index d4f421f..1da55c7 100644
--- a/core/eventloop/cfg.go
+++ b/core/eventloop/cfg.go
@@ -67,6 +67,7 @@ func (cfg *EventLoopTaskSkipConfig) clamp(min, max int) {
 		&cfg.SplitCentroids,
 		&cfg.MergeCentroids,
 		&cfg.LoadBalancing,
+		&cfg.Meta,
 	}
 	for _, v := range items {
 		if *v < min {
-- 
2.43.0


From 4cd36d767952b60f54409824ec40194a642ba4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:11 +0000
Subject: [PATCH 07/21] fix: event loop tasks with a skip value over 1000 ran
 anyway

---
 core/eventloop/cfg.go    | 5 ++++-
 core/eventloop/eltask.go | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/eventloop/cfg.go b/core/eventloop/cfg.go
index 1da55c7..ba3cfd0 100644
--- a/core/eventloop/cfg.go
+++ b/core/eventloop/cfg.go
@@ -55,6 +55,9 @@ type EventLoopTaskSkipConfig struct {
 	Meta int
 }
 
+// Highest EventLoopTaskSkipConfig val which isn't interpreted as 'never'.
+const taskSkipMax = 1000
+
 // Clams vals in EventLoopTaskSkipConfig (particularly useful for
 // ensuring no zeros (zero div err when using modulus))
 func (cfg *EventLoopTaskSkipConfig) clamp(min, max int) {
@@ -165,5 +168,5 @@ func (cfg *EventLoopConfig) validate() {
 		}
 	}
 
-	cfg.TaskSkip.clamp(1, 1000)
+	cfg.TaskSkip.clamp(1, taskSkipMax+1)
 }
diff --git a/core/eventloop/eltask.go b/core/eventloop/eltask.go
index db3712f..8e82f73 100644
--- a/core/eventloop/eltask.go
+++ b/core/eventloop/eltask.go
@@ -7,7 +7,7 @@ import (
 
 // Wrapper for handing event-loop-task skipping.
 func withSkip(cfg *EventLoopConfig, interval int, task func()) {
-	if cfg.internal.iter%interval == 0 {
+	if interval <= taskSkipMax && cfg.internal.iter%interval == 0 {
 		task()
 	}
 }
-- 
2.43.0


From bae7fe129ead4a27f55338c5cb0f192c137231bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:12 +0000
Subject: [PATCH 08/21] fix: client NearestCentroids panicked on consecutive
 empty centroids

---
 pkg/kmeans/rpc/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/kmeans/rpc/client.go b/pkg/kmeans/rpc/client.go
index b680383..0435fc2 100644
--- a/pkg/kmeans/rpc/client.go
+++ b/pkg/kmeans/rpc/client.go
@@ -215,7 +215,7 @@ func (c *kmeansClient) NearestCentroids(vec []float64, n int, drain bool) (
 	}
 
 	// Remove nil/empty(no dps) centroids.
-	for i := 0; i < len(resp); i++ {
+	for i := len(resp) - 1; i > -1; i-- { // Backwards for removal safety.
 		if resp[i] == nil || resp[i].LenDP() == 0 {
 			resp = append(resp[:i], resp[i+1:]...)
 		}
-- 
2.43.0


From 690b8c12679a3e583fbba4b12d07bc3c2eb3221f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:13 +0000
Subject: [PATCH 09/21] fix: a failed accept made the RPC server deaf and its
 stop func panic

---
 pkg/kmeans/rpc/rpc.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/rpc/rpc.go b/pkg/kmeans/rpc/rpc.go
index 97b31d2..b33d3f9 100644
--- a/pkg/kmeans/rpc/rpc.go
+++ b/pkg/kmeans/rpc/rpc.go
@@ -10,6 +10,7 @@ import (
 	"net"
 	"net/rpc"
 	"sync"
+	"time"
 	"trypo/pkg/kmeans/centroid"
 	"trypo/pkg/kmeans/centroidmanager"
 	"trypo/pkg/kmeans/common"
@@ -238,8 +239,11 @@ func StartListen(s *KMeansServer) (stop func(), err error) {
 	}
 
 	var conn net.Conn
+	var connLock sync.Mutex
 	stop = func() {
 		ln.Close()
+		connLock.Lock()
+		defer connLock.Unlock()
 		if conn != nil {
 			conn.Close()
 		}
@@ -248,10 +252,17 @@ func StartListen(s *KMeansServer) (stop func(), err error) {
 	go func() {
 		for {
 			cxn, err := ln.Accept()
-			conn = cxn
 			if err != nil {
+				// Such as running out of file descriptors.
+				if ne, ok := err.(net.Error); ok && ne.Temporary() {
+					time.Sleep(5 * time.Millisecond)
+					continue
+				}
 				break
 			}
+			connLock.Lock()
+			conn = cxn
+			connLock.Unlock()
 			go handler.ServeConn(cxn)
 		}
 	}()
-- 
2.43.0


From cbaff459ea70ddb08772dc322b036c4ee45219ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:01 +0000
Subject: [PATCH 10/21] fix: data race between stopping and running the event
 loop

---
 core/eventloop/cfg.go | 14 ++++++++++++--
 core/eventloop/el.go  |  8 ++++----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/core/eventloop/cfg.go b/core/eventloop/cfg.go
index ba3cfd0..1352ede 100644
--- a/core/eventloop/cfg.go
+++ b/core/eventloop/cfg.go
@@ -1,6 +1,9 @@
 package eventloop
 
-import "time"
+import (
+	"sync/atomic"
+	"time"
+)
 
 // Each task in the event loop will be skippable such that not everything has
 // to run in each loop iteration. This is useful when some tasks are recource
@@ -83,10 +86,17 @@ func (cfg *EventLoopTaskSkipConfig) clamp(min, max int) {
 }
 
 type eventLoopInternal struct {
-	stopped bool
+	// Set (once) by the stop func while the loop is running; atomic.
+	stopped int32
 	iter    int
 }
 
+func (i *eventLoopInternal) stop() { atomic.StoreInt32(&i.stopped, 1) }
+
+func (i *eventLoopInternal) isStopped() bool {
+	return atomic.LoadInt32(&i.stopped) != 0
+}
+
 // EventLoopConfig is a config type for the event loop in this pkg.
 type EventLoopConfig struct {
 	LocalAddr Addr
diff --git a/core/eventloop/el.go b/core/eventloop/el.go
index 6ea71e5..f2cd649 100644
--- a/core/eventloop/el.go
+++ b/core/eventloop/el.go
@@ -10,13 +10,13 @@ type Addr = arbiter.Addr
 // Intended to be used for each event loop task in the event loop.
 func elStep(cfg *EventLoopConfig, task func(*EventLoopConfig)) {
 	// For quickly aborting all steps in eventloop.
-	if cfg.internal.stopped {
+	if cfg.internal.isStopped() {
 		return
 	}
 	time.Sleep(cfg.TimeoutStep)
 
 	// Neat in case timeout is long.
-	if cfg.internal.stopped {
+	if cfg.internal.isStopped() {
 		return
 	}
 	task(cfg)
@@ -27,7 +27,7 @@ func EventLoop(cfg *EventLoopConfig) func() {
 
 	go func() {
 		// Note: tasks are _not_ arbitrarily ordered.
-		for cfg.internal.stopped == false {
+		for !cfg.internal.isStopped() {
 			time.Sleep(cfg.TimeoutLoop)
 
 			elStep(cfg, eltMeta)
@@ -53,6 +53,6 @@ func EventLoop(cfg *EventLoopConfig) func() {
 	}()
 
 	return func() {
-		cfg.internal.stopped = true
+		cfg.internal.stop()
 	}
 }
-- 
2.43.0


From c78bac1405cf2500af42b8dd806be95f962fd9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:02 +0000
Subject: [PATCH 11/21] fix: NearestCentroids RPC encoded Centroids while
 others changed them

---
 pkg/kmeans/rpc/server.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 08f138a..7b765b9 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -279,7 +279,15 @@ type NearestCentroidArgs struct {
 // lead to an instance.
 func (s *KMeansServer) NearestCentroids(args NearestCentroidArgs, r *[]*Centroid) error {
 	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
-		*r, _ = cm.NearestCentroids(args.Vec, args.N, args.Drain)
+		centroids, _ := cm.NearestCentroids(args.Vec, args.N, args.Drain)
+		// Copies, because the response is encoded after the CentroidManager
+		// is unlocked, when other calls may change its datapoints.
+		for i, c := range centroids {
+			snapshot := *c
+			snapshot.DataPoints = append([]DataPoint{}, c.DataPoints...)
+			centroids[i] = &snapshot
+		}
+		*r = centroids
 	})
 }
 
-- 
2.43.0


From b4b63618d3eaf7f3d6bb48547f84766004bd5f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:03 +0000
Subject: [PATCH 12/21] fix: distributing datapoints without remote options
 lost them

---
 pkg/kmeans/rpc/server.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 7b765b9..cadcbec 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -165,10 +165,14 @@ func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) erro
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
+		// Nowhere to put drained dps.
+		if len(args.AddrOptions) == 0 {
+			return
+		}
 		dps = append(dps, cm.DrainOrdered(args.N)...)
 	})
 
-	if nsErr != nil || len(dps) == 0 || len(args.AddrOptions) == 0 {
+	if nsErr != nil || len(dps) == 0 {
 		return nsErr
 	}
 
@@ -207,10 +211,14 @@ func (s *KMeansServer) DistributeDataPointsAccurate(args DistribDPArgs, _ *int)
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
+		// Nowhere to put drained dps.
+		if len(args.AddrOptions) == 0 {
+			return
+		}
 		dps = append(dps, cm.DrainOrdered(args.N)...)
 	})
 
-	if nsErr != nil || len(dps) == 0 || len(args.AddrOptions) == 0 {
+	if nsErr != nil || len(dps) == 0 {
 		return nsErr
 	}
 
-- 
2.43.0


From f1cc61ce79231f4c99cbdfc37a6b50819660b603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:05 +0000
Subject: [PATCH 13/21] fix: draining zero datapoints drained one

---
 pkg/kmeans/centroidmanager/cmanager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 54aa6f5..d32154b 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -127,6 +127,9 @@ func (cm *CentroidManager) newCentroid(vec []float64) *centroid.Centroid {
 // of common.DataPoint contained in each centroid is uncertain.
 func (cm *CentroidManager) centroidDataPointPortions(n int) map[int]int {
 	portions := make(map[int]int)
+	if n <= 0 {
+		return portions
+	}
 	// This is essentially the total sum of all v in portions.
 	assigned := 0
 	for {
-- 
2.43.0


From af27a36ab0e3b250a410ba042f1350e211e1cfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:06 +0000
Subject: [PATCH 14/21] fix: StealCentroid stopped at the first empty Centroid
 of the remote

---
 pkg/kmeans/rpc/server.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index cadcbec..7ebcfaf 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -402,9 +402,14 @@ func (s *KMeansServer) StealCentroid(args StealCentroidArgs, r *StealCentroidsRe
 		// Can be improved. One at a time for convenience + readability.
 		centroids, cOK := client.NearestCentroids(localVec, 1, true)
 
-		if !cOK || len(centroids) == 0 {
+		if !cOK {
 			break
 		}
+		// The client leaves out Centroids without datapoints, there might
+		// be more of them.
+		if len(centroids) == 0 {
+			continue
+		}
 
 		s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
 			// @ unsafe, this is assuming cm has similar properties as centroids
-- 
2.43.0


From e0bbd7287d037a28b174081632c22504ee948584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:07 +0000
Subject: [PATCH 15/21] fix: a negative amount in a request crashed the node

---
 core/dps/getdps.go       |  3 +++
 pkg/kmeans/rpc/client.go |  2 +-
 pkg/kmeans/rpc/server.go | 19 +++++++++++++++----
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/core/dps/getdps.go b/core/dps/getdps.go
index 81dd8a4..7123d9d 100644
--- a/core/dps/getdps.go
+++ b/core/dps/getdps.go
@@ -17,6 +17,9 @@ type getDataPointsArgs struct {
 }
 
 func getDataPoints(args getDataPointsArgs) []DataPoint {
+	if args.n < 0 {
+		args.n = 0
+	}
 	res := make([]DataPoint, 0, args.n)
 	for _, addr := range args.addrOpts {
 		client := rpc.KMeansClient(addr.ToStr(), args.namespace, nil)
diff --git a/pkg/kmeans/rpc/client.go b/pkg/kmeans/rpc/client.go
index 0435fc2..9238bf7 100644
--- a/pkg/kmeans/rpc/client.go
+++ b/pkg/kmeans/rpc/client.go
@@ -181,7 +181,7 @@ func (c *kmeansClient) DistributeDataPointsInternal(n int) {
 // (T of pkg/kmeans/centroidmanager, se that method name for more documentation),
 // using the addr and namespace specified while setting up this client.
 func (c *kmeansClient) KNNLookup(vec []float64, k int, drain bool) []DataPoint {
-	resp := make([]DataPoint, 0, k)
+	var resp []DataPoint
 
 	c.client(func(rc *rpc.Client) {
 		args := KNNLookupArgs{NameSpace: c.namespace, Vec: vec, K: k, Drain: drain}
diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 7ebcfaf..314bd60 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -19,6 +19,15 @@ func (s *KMeansServer) handleNamespaceErr(ns string, f func(*CentroidManager)) e
 	return nil
 }
 
+// Amounts come from remote callers, a negative one is taken as zero (it would
+// otherwise panic, i.e crash the node, when used for allocating).
+func amount(n int) int {
+	if n < 0 {
+		return 0
+	}
+	return n
+}
+
 // Namespaces sends all namespaces stored in the server.
 func (s *KMeansServer) Namespaces(_ int, resp *[]string) error {
 	s.Table.Lock()
@@ -86,7 +95,7 @@ type DrainArgs struct {
 // lead to an instance.
 func (s *KMeansServer) DrainUnordered(args DrainArgs, resp *[]DataPoint) error {
 	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
-		*resp = cm.DrainUnordered(args.N)
+		*resp = cm.DrainUnordered(amount(args.N))
 	})
 }
 
@@ -95,7 +104,7 @@ func (s *KMeansServer) DrainUnordered(args DrainArgs, resp *[]DataPoint) error {
 // lead to an instance.
 func (s *KMeansServer) DrainOrdered(args DrainArgs, resp *[]DataPoint) error {
 	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
-		*resp = cm.DrainOrdered(args.N)
+		*resp = cm.DrainOrdered(amount(args.N))
 	})
 }
 
@@ -161,6 +170,7 @@ func distributeDP(dp DataPoint, gen vecGenerator, addrs []string, namespace stri
 // method called, then those dps will be sent to remote nodes that are most
 // similar to those dps (similarity is caluclated by remote CentroidManager.Vec()).
 func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) error {
+	args.N = amount(args.N)
 	dps := make([]DataPoint, 0, args.N)
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
@@ -207,6 +217,7 @@ func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) erro
 // This is _a_lot_ slower due to many network calls, but has the benefit of
 // placing distribute dps precisely.
 func (s *KMeansServer) DistributeDataPointsAccurate(args DistribDPArgs, _ *int) error {
+	args.N = amount(args.N)
 	dps := make([]DataPoint, 0, args.N)
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
@@ -271,7 +282,7 @@ type KNNLookupArgs struct {
 // lead to an instance.
 func (s *KMeansServer) KNNLookup(args KNNLookupArgs, resp *[]DataPoint) error {
 	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
-		*resp = cm.KNNLookup(args.Vec, args.K, args.Drain)
+		*resp = cm.KNNLookup(args.Vec, amount(args.K), args.Drain)
 	})
 }
 
@@ -287,7 +298,7 @@ type NearestCentroidArgs struct {
 // lead to an instance.
 func (s *KMeansServer) NearestCentroids(args NearestCentroidArgs, r *[]*Centroid) error {
 	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
-		centroids, _ := cm.NearestCentroids(args.Vec, args.N, args.Drain)
+		centroids, _ := cm.NearestCentroids(args.Vec, amount(args.N), args.Drain)
 		// Copies, because the response is encoded after the CentroidManager
 		// is unlocked, when other calls may change its datapoints.
 		for i, c := range centroids {
-- 
2.43.0


From f6b4d518d54e772684c2a0cbef995d74f103d909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:55 +0000
Subject: [PATCH 16/21] fix: a node's vector was off (or NaN) after splitting,
 merging, trimming and draining centroids

---
 pkg/kmeans/centroidmanager/cmanager.go | 49 +++++++++-----------------
 1 file changed, 16 insertions(+), 33 deletions(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index d32154b..6192954 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -221,6 +221,16 @@ func (cm *CentroidManager) prepVecUpdate(v1 []float64) func([]float64) {
 	}
 }
 
+// resetVec sets cm.vec to the mean of all internal Centroids, it's meant for
+// when Centroids are created or deleted (which prepVecUpdate doesn't support).
+// Without any Centroids left, cm.vec remains as it is.
+func (cm *CentroidManager) resetVec() {
+	vec, ok := mathutils.VecMean(cm.centroidVecGenerator())
+	if ok {
+		cm.vec = vec
+	}
+}
+
 // Vec exposes the internal vector of a CentroidManager.
 func (km *CentroidManager) Vec() []float64 { return km.vec }
 
@@ -269,6 +279,7 @@ func (cm *CentroidManager) AddDataPoint(dp common.DataPoint) bool {
 		newCentroid, splitOK := cm.splitCentroid(indexes[0], cm.centroidDPThreshold/2)
 		if splitOK {
 			cm.Centroids = append(cm.Centroids, newCentroid)
+			cm.resetVec()
 		}
 	}
 	return true
@@ -347,25 +358,13 @@ func (cm *CentroidManager) LenDP() int {
 func (cm *CentroidManager) MemTrim() {
 	centroids := make([]*centroid.Centroid, 0, len(cm.Centroids))
 	for _, centroid := range cm.Centroids {
-		// Prep for internal vec update.
-		updateVec := cm.prepVecUpdate(centroid.Vec())
 		centroid.MemTrim()
-		// Finalize internal vec update.
-		updateVec(centroid.Vec())
 		if centroid.LenDP() != 0 {
 			centroids = append(centroids, centroid)
 		}
-
-		// Will not be included in new centroids slice, so effectively deleted.
-		// In this case, the internal vec must be updated a bit differently
-		// than what cm.prepVecUpdate does. Note bounds check.
-		if centroid.LenDP() == 1 && len(cm.Centroids) > 1 {
-			cm.vec = mathutils.VecMulScalar(cm.vec, float64(len(cm.Centroids)))
-			cm.vec, _ = mathutils.VecSub(cm.vec, centroid.Vec())
-			cm.vec = mathutils.VecDivScalar(cm.vec, float64(len(cm.Centroids)-1))
-		}
 	}
 	cm.Centroids = centroids
+	cm.resetVec()
 }
 
 // MoveVector sets the internal vector to the average of all internal Centroids.
@@ -484,15 +483,11 @@ func (cm *CentroidManager) NearestCentroids(vec []float64, n int, drain bool) (
 		sort.Ints(indexes)
 		for i := len(indexes) - 1; i > -1; i-- {
 			j := indexes[i] // Abbreviation for actual centroid index.
-			// Auto-adjust internal vec.
-			if len(cm.Centroids) > 0 {
-				cm.vec = mathutils.VecMulScalar(cm.vec, float64(len(cm.Centroids)))
-				cm.vec, _ = mathutils.VecSub(cm.vec, cm.Centroids[j].Vec())
-				cm.vec = mathutils.VecDivScalar(cm.vec, float64(len(cm.Centroids)-1))
-			}
 			// Delete.
 			cm.Centroids = append(cm.Centroids[:j], cm.Centroids[j+1:]...)
 		}
+		// Auto-adjust internal vec.
+		cm.resetVec()
 	}
 	return centroids, true
 }
@@ -516,6 +511,7 @@ func (cm *CentroidManager) SplitCentroids(split func(*centroid.Centroid) bool) {
 		}
 	}
 	cm.Centroids = append(cm.Centroids, newCentroids...)
+	cm.resetVec()
 }
 
 // MergeCentroids iterates through all internal Centroids and passes them to
@@ -546,9 +542,6 @@ func (cm *CentroidManager) MergeCentroids(merge func(*centroid.Centroid) bool) {
 		gen := cm.centroidVecGenerator()
 		k := len(cm.Centroids)
 
-		// Prep for internal vec update for 'candidate' centroid.
-		updateVecCandidate := cm.prepVecUpdate(vec)
-
 		// Merge nearest centroids into 'candidate' until merge()=true.
 		for _, centroidIndex := range cm.knnSearchFunc(vec, gen, k) {
 			// Guard identity or double merge.
@@ -565,25 +558,15 @@ func (cm *CentroidManager) MergeCentroids(merge func(*centroid.Centroid) bool) {
 				break
 			}
 		}
-		// Finalize internal vec update for 'candidate' centroid.
-		updateVecCandidate(candidate.Vec())
 	}
 	// Filter out centroids marked for deletion from cm.Centroids.
 	// Note, the reason for backwards looping is to prevent index
 	// shifting issues.
 	for i := len(cm.Centroids) - 1; i > -1; i-- {
 		if delMarks[i] {
-			// This should always be true, due to how this func works at the
-			// time of writing, but doing a bounds check juuust in case:
-			if len(cm.Centroids) > 0 {
-				// Need this, it changes the internal vector appropriately
-				// when deleting a centroid:
-				cm.vec = mathutils.VecMulScalar(cm.vec, float64(len(cm.Centroids)))
-				cm.vec, _ = mathutils.VecSub(cm.vec, cm.Centroids[i].Vec())
-				cm.vec = mathutils.VecDivScalar(cm.vec, float64(len(cm.Centroids)-1))
-			}
 			// Delete.
 			cm.Centroids = append(cm.Centroids[:i], cm.Centroids[i+1:]...)
 		}
 	}
+	cm.resetVec()
 }
-- 
2.43.0


From dabe428304cb6c70b9b32cff047705df260d5d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:42 +0000
Subject: [PATCH 17/21] fix: trimming a Centroid left it with the vector of its
 last datapoint

---
 pkg/kmeans/centroid/centroid.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pkg/kmeans/centroid/centroid.go b/pkg/kmeans/centroid/centroid.go
index 98819de..6e314a2 100644
--- a/pkg/kmeans/centroid/centroid.go
+++ b/pkg/kmeans/centroid/centroid.go
@@ -182,14 +182,10 @@ func (c *Centroid) LenDP() int { return len(c.DataPoints) }
 
 // MemTrim creates a new internal DataPoint slice where capacity equals len.
 func (c *Centroid) MemTrim() {
-	dps := make([]common.DataPoint, 0)
-	// Using DrainUnordered because it removes expired dps with c.rmDataPoint,
-	// which adjusts c.vec as well. Also, not using len(c.DataPoints) as arg
-	// to c.DrainUnordered(...) because that would create a slice of that cap,
-	// which would make this method (MemTrim) pointless, as it reduces cap.
-	for len(c.DataPoints) > 0 {
-		dps = append(dps, c.DrainUnordered(1)...)
-	}
+	// Removes expired dps with c.rmDataPoint, which adjusts c.vec as well.
+	c.Expire()
+	dps := make([]common.DataPoint, len(c.DataPoints))
+	copy(dps, c.DataPoints)
 	c.DataPoints = dps
 }
 
-- 
2.43.0


From 6b50f80402da34dccea2a11c87ef32cf755d09ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:40 +0000
Subject: [PATCH 18/21] fix: an HTTP request cut off in trailing whitespace was
 carried out

---
 core/api/handler.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/api/handler.go b/core/api/handler.go
index 532eadd..0da6e1e 100644
--- a/core/api/handler.go
+++ b/core/api/handler.go
@@ -35,10 +35,12 @@ func (h *handler) setRoutes() {
 // nothing is written to the requester and the return is true.
 func (h *handler) tryUnpackRequestOptions(
 	w http.ResponseWriter, r *http.Request, targetOpt interface{}) bool {
-	// Error is not necessary to check, if it's not nil then
-	// the body with JSON request isn't going to work anyway.
-	body, _ := ioutil.ReadAll(r.Body)
-	err := json.Unmarshal(body, targetOpt)
+	// A request which was cut off can still be valid JSON (if only
+	// trailing whitespace is missing), so the read has to succeed too.
+	body, err := ioutil.ReadAll(r.Body)
+	if err == nil {
+		err = json.Unmarshal(body, targetOpt)
+	}
 	if err != nil {
 		w.WriteHeader(http.StatusBadRequest)
 		return false
-- 
2.43.0


From 7b75d03a1143d2847bf74bb005de0f992369ccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:28 +0000
Subject: [PATCH 19/21] fix: a huge amount in a request crashed the node

---
 core/dps/getdps.go       |  2 +-
 pkg/kmeans/rpc/server.go | 29 ++++++++++++++++-------------
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/core/dps/getdps.go b/core/dps/getdps.go
index 7123d9d..0c7d166 100644
--- a/core/dps/getdps.go
+++ b/core/dps/getdps.go
@@ -20,7 +20,7 @@ func getDataPoints(args getDataPointsArgs) []DataPoint {
 	if args.n < 0 {
 		args.n = 0
 	}
-	res := make([]DataPoint, 0, args.n)
+	res := make([]DataPoint, 0)
 	for _, addr := range args.addrOpts {
 		client := rpc.KMeansClient(addr.ToStr(), args.namespace, nil)
 		dps := client.KNNLookup(args.queryVec, args.n-len(res), args.drain)
diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 314bd60..41aad43 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -19,12 +19,16 @@ func (s *KMeansServer) handleNamespaceErr(ns string, f func(*CentroidManager)) e
 	return nil
 }
 
-// Amounts come from remote callers, a negative one is taken as zero (it would
-// otherwise panic, i.e crash the node, when used for allocating).
-func amount(n int) int {
+// Amounts come from remote callers, a negative one is taken as zero and one
+// higher than what there is (max) as max. They would otherwise panic, i.e crash
+// the node, when used for allocating.
+func amount(n, max int) int {
 	if n < 0 {
 		return 0
 	}
+	if n > max {
+		return max
+	}
 	return n
 }
 
@@ -95,7 +99,7 @@ type DrainArgs struct {
 // lead to an instance.
 func (s *KMeansServer) DrainUnordered(args DrainArgs, resp *[]DataPoint) error {
 	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
-		*resp = cm.DrainUnordered(amount(args.N))
+		*resp = cm.DrainUnordered(amount(args.N, cm.LenDP()))
 	})
 }
 
@@ -104,7 +108,7 @@ func (s *KMeansServer) DrainUnordered(args DrainArgs, resp *[]DataPoint) error {
 // lead to an instance.
 func (s *KMeansServer) DrainOrdered(args DrainArgs, resp *[]DataPoint) error {
 	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
-		*resp = cm.DrainOrdered(amount(args.N))
+		*resp = cm.DrainOrdered(amount(args.N, cm.LenDP()))
 	})
 }
 
@@ -170,8 +174,7 @@ func distributeDP(dp DataPoint, gen vecGenerator, addrs []string, namespace stri
 // method called, then those dps will be sent to remote nodes that are most
 // similar to those dps (similarity is caluclated by remote CentroidManager.Vec()).
 func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) error {
-	args.N = amount(args.N)
-	dps := make([]DataPoint, 0, args.N)
+	var dps []DataPoint
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
@@ -179,7 +182,7 @@ func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) erro
 		if len(args.AddrOptions) == 0 {
 			return
 		}
-		dps = append(dps, cm.DrainOrdered(args.N)...)
+		dps = append(dps, cm.DrainOrdered(amount(args.N, cm.LenDP()))...)
 	})
 
 	if nsErr != nil || len(dps) == 0 {
@@ -217,8 +220,7 @@ func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) erro
 // This is _a_lot_ slower due to many network calls, but has the benefit of
 // placing distribute dps precisely.
 func (s *KMeansServer) DistributeDataPointsAccurate(args DistribDPArgs, _ *int) error {
-	args.N = amount(args.N)
-	dps := make([]DataPoint, 0, args.N)
+	var dps []DataPoint
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
@@ -226,7 +228,7 @@ func (s *KMeansServer) DistributeDataPointsAccurate(args DistribDPArgs, _ *int)
 		if len(args.AddrOptions) == 0 {
 			return
 		}
-		dps = append(dps, cm.DrainOrdered(args.N)...)
+		dps = append(dps, cm.DrainOrdered(amount(args.N, cm.LenDP()))...)
 	})
 
 	if nsErr != nil || len(dps) == 0 {
@@ -282,7 +284,7 @@ type KNNLookupArgs struct {
 // lead to an instance.
 func (s *KMeansServer) KNNLookup(args KNNLookupArgs, resp *[]DataPoint) error {
 	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
-		*resp = cm.KNNLookup(args.Vec, amount(args.K), args.Drain)
+		*resp = cm.KNNLookup(args.Vec, amount(args.K, cm.LenDP()), args.Drain)
 	})
 }
 
@@ -298,7 +300,8 @@ type NearestCentroidArgs struct {
 // lead to an instance.
 func (s *KMeansServer) NearestCentroids(args NearestCentroidArgs, r *[]*Centroid) error {
 	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
-		centroids, _ := cm.NearestCentroids(args.Vec, amount(args.N), args.Drain)
+		n := amount(args.N, len(cm.Centroids))
+		centroids, _ := cm.NearestCentroids(args.Vec, n, args.Drain)
 		// Copies, because the response is encoded after the CentroidManager
 		// is unlocked, when other calls may change its datapoints.
 		for i, c := range centroids {
-- 
2.43.0


From 25d79ed06a82ad5b027466ba531b6636091b4ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:58 +0000
Subject: [PATCH 20/21] fix: stealing from itself counted the same datapoints
 over and over

---
 pkg/kmeans/rpc/server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 41aad43..268eb3d 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -389,6 +389,13 @@ type StealCentroidsResp struct {
 // Note, cannot return a NamespaceErr, as a new namespace will be created if node
 // A does not have that namespace.
 func (s *KMeansServer) StealCentroid(args StealCentroidArgs, r *StealCentroidsResp) error {
+	// Nothing to gain from itself, trying to would take the same Centroids
+	// over and over until the limit is reached.
+	if args.FromAddr == s.addr {
+		r.OK = true
+		return nil
+	}
+
 	// Not wrapping the code below with this because it locks the CentroidManager
 	// just for this one thing (getting a vec).
 	var localVec []float64
-- 
2.43.0


From 1dac4b512a9555bb9ae3f2b086f7671b04168a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:00 +0000
Subject: [PATCH 21/21] fix: a drained datapoint that fits no centroid any
 longer was lost when put back

---
 pkg/kmeans/rpc/server.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 268eb3d..47c353b 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -154,6 +154,19 @@ type DistribDPArgs struct {
 	AddrOptions []string
 }
 
+// Adds a drained dp to cm again. All Centroids with vectors as long as that of
+// dp might be gone by now, they can't be used then.
+func (s *KMeansServer) putBack(cm *CentroidManager, dp DataPoint) {
+	if cm.AddDataPoint(dp) {
+		return
+	}
+	other := s.CentroidManagerFactoryFunc(dp.Vec)
+	if other.AddDataPoint(dp) {
+		cm.Centroids = append(cm.Centroids, other.Centroids...)
+		cm.MoveVector()
+	}
+}
+
 // Try adding dp to any addr in addrs. addrs will ordered by (indexed into) using
 // gen and a knn search func (searchutils.KNNCos at the time of writing) so there
 // is some 'best-fit' involved. Returns false if dp isn't added anywhere.
@@ -205,7 +218,7 @@ func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) erro
 		if !distributeDP(dp, gen, addrs, args.NameSpace) {
 			// Put back into self so the dp isn't lost.
 			s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
-				cm.AddDataPoint(dp)
+				s.putBack(cm, dp)
 			})
 		}
 	}
@@ -251,7 +264,7 @@ func (s *KMeansServer) DistributeDataPointsAccurate(args DistribDPArgs, _ *int)
 		if !distributeDP(dp, gen, addrs, args.NameSpace) {
 			// Put back into self so the dp isn't lost.
 			s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
-				cm.AddDataPoint(dp)
+				s.putBack(cm, dp)
 			})
 		}
 	}
-- 
2.43.0

