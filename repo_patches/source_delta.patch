From 2685c56ba383a284deba44f3d0c798db0be11d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:42 +0000
Subject: [PATCH 01/22] fix: EuclideanDistance returned the Manhattan distance

---
 pkg/mathutils/distance.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/mathutils/distance.go b/pkg/mathutils/distance.go
index f618267..9690876 100644
--- a/pkg/mathutils/distance.go
+++ b/pkg/mathutils/distance.go
@@ -19,9 +19,9 @@ func EuclideanDistance(v1, v2 []float64) (float64, error) {
 	}
 	var r float64
 	for i := 0; i < len(v1); i++ {
-		r += math.Sqrt((v1[i] - v2[i]) * (v1[i] - v2[i]))
+		r += (v1[i] - v2[i]) * (v1[i] - v2[i])
 	}
-	return r, nil
+	return math.Sqrt(r), nil
 }
 
 // norm computes the norm (math) of a vec.
-- 
2.43.0


From 968643a10a41533a0e39b31f5b3dad1f7d618bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:42 +0000
Subject: [PATCH 02/22] fix: CosineSimilarity returned NaN when one vector is
 zero

---
 pkg/mathutils/distance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mathutils/distance.go b/pkg/mathutils/distance.go
index 9690876..82a903b 100644
--- a/pkg/mathutils/distance.go
+++ b/pkg/mathutils/distance.go
@@ -40,7 +40,7 @@ func CosineSimilarity(vec1, vec2 []float64) (float64, error) {
 		return 0, errors.New("similarity measurement attempt failed: vectors are of different lengths")
 	}
 	norm1, norm2 := norm(vec1), norm(vec2)
-	if norm1 == 0 && norm2 == 0 {
+	if norm1 == 0 || norm2 == 0 {
 		return 0, nil
 	}
 	var dot float64
-- 
2.43.0


From 3fbc27b881fb817cfdc148b687479b4a24ce0c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:12 +0000
Subject: [PATCH 03/22] fix: KNNBrute crashed on negative K and allocated
 memory proportional to K

---
 pkg/searchutils/knn.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/searchutils/knn.go b/pkg/searchutils/knn.go
index be9bc50..8468e30 100644
--- a/pkg/searchutils/knn.go
+++ b/pkg/searchutils/knn.go
@@ -86,7 +86,9 @@ type KNNBruteArgs struct {
 // (or furthest) neighs of a vector, and then returning their index.
 // See KNNBruteArgs (accepted argument) for more info.
 func KNNBrute(args KNNBruteArgs) []int {
-	res := make([]resultItem, args.K)
+	// Grown while iterating (up to K), as K might be negative or a lot higher
+	// than the amount of vectors in the pool.
+	res := make([]resultItem, 0)
 	// This represents the lowest/highest score found so far.
 	// Defining a cap of highest/lowest number representing similarity
 	// is done here by simply using the (near) min/max allowed float.
@@ -94,10 +96,6 @@ func KNNBrute(args KNNBruteArgs) []int {
 	if !args.Ascending {
 		similarity *= -1
 	}
-	// Apply worst score to all resultItems.
-	for i := 0; i < args.K; i++ {
-		res[i].score = similarity
-	}
 	i := 0
 	for {
 		// Next vector.
@@ -111,6 +109,10 @@ func KNNBrute(args KNNBruteArgs) []int {
 			i++
 			continue
 		}
+		// Potentially add another resultItem, with the worst score.
+		if len(res) < args.K {
+			res = append(res, resultItem{score: similarity})
+		}
 		// Evaluate inclusion of current vector.
 		newSlot := &resultItem{i, score, true}
 		if args.Ascending && score < similarity {
-- 
2.43.0


From 80bfdd6e2cded7f9f8c5667feb4611c1bbcbb249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:58 +0000
Subject: [PATCH 04/22] fix: negative or huge requested counts crashed the node
 (slices were sized by them)

---
 core/dps/getdps.go                     | 2 +-
 pkg/kmeans/centroid/centroid.go        | 6 +++---
 pkg/kmeans/centroidmanager/cmanager.go | 8 ++++----
 pkg/kmeans/rpc/client.go               | 2 +-
 pkg/kmeans/rpc/server.go               | 4 ++--
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/core/dps/getdps.go b/core/dps/getdps.go
index 81dd8a4..a10ed7e 100644
--- a/core/dps/getdps.go
+++ b/core/dps/getdps.go
@@ -17,7 +17,7 @@ type getDataPointsArgs struct {
 }
 
 func getDataPoints(args getDataPointsArgs) []DataPoint {
-	res := make([]DataPoint, 0, args.n)
+	res := make([]DataPoint, 0)
 	for _, addr := range args.addrOpts {
 		client := rpc.KMeansClient(addr.ToStr(), args.namespace, nil)
 		dps := client.KNNLookup(args.queryVec, args.n-len(res), args.drain)
diff --git a/pkg/kmeans/centroid/centroid.go b/pkg/kmeans/centroid/centroid.go
index 98819de..4d3e14d 100644
--- a/pkg/kmeans/centroid/centroid.go
+++ b/pkg/kmeans/centroid/centroid.go
@@ -131,7 +131,7 @@ func (c *Centroid) dataPointVecGenerator() func() ([]float64, bool) {
 // DrainUnordered drains n internal datapoints in a manner that has no particylar.
 // significance, specifically by how they are stored internally -- in no order.
 func (c *Centroid) DrainUnordered(n int) []common.DataPoint {
-	res := make([]common.DataPoint, 0, n)
+	res := make([]common.DataPoint, 0)
 	for len(c.DataPoints) != 0 && len(res) < n {
 		if !c.DataPoints[0].Expired() {
 			res = append(res, c.DataPoints[0])
@@ -148,7 +148,7 @@ func (c *Centroid) DrainUnordered(n int) []common.DataPoint {
 // net-means/searchutils.KNFCos, then drain away data that has lowest cosine
 // similarity to this Centroid.
 func (c *Centroid) DrainOrdered(n int) []common.DataPoint {
-	res := make([]common.DataPoint, 0, n)
+	res := make([]common.DataPoint, 0)
 	// Furthest neigh.
 	indexes := c.kfnSearchFunc(c.vec, c.dataPointVecGenerator(), n)
 	for _, index := range indexes {
@@ -243,7 +243,7 @@ func (c *Centroid) DistributeDataPoints(n int, receivers []common.DataPointRecei
 // crating a new Centroid with 'NewCentroid'. If that field is for instance
 // net-means/searchutils.KNNCos, then best fit equals best cosine similarity.
 func (c *Centroid) KNNLookup(vec []float64, k int, drain bool) []common.DataPoint {
-	res := make([]common.DataPoint, 0, k)
+	res := make([]common.DataPoint, 0)
 
 	indexes := c.knnSearchFunc(vec, c.dataPointVecGenerator(), k)
 	for _, i := range indexes {
diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index d37fe8b..0901986 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -277,7 +277,7 @@ func (cm *CentroidManager) AddDataPoint(dp common.DataPoint) bool {
 // centroids, i.e if n=2 and there are 2 centroids with at least 1 dp each, then
 // both of them will drain 1 dp. Note, will update CentroidManager vector.
 func (cm *CentroidManager) DrainUnordered(n int) []common.DataPoint {
-	res := make([]common.DataPoint, 0, n)
+	res := make([]common.DataPoint, 0)
 	for centroidIndex, portion := range cm.centroidDataPointPortions(n) {
 		centroid := cm.Centroids[centroidIndex]
 		// Prep for internal vec update.
@@ -300,7 +300,7 @@ func (cm *CentroidManager) DrainUnordered(n int) []common.DataPoint {
 // least 1 dp each, then both of them will drain 1 dp. Note, will update
 // CentroidManager vector.
 func (cm *CentroidManager) DrainOrdered(n int) []common.DataPoint {
-	res := make([]common.DataPoint, 0, n)
+	res := make([]common.DataPoint, 0)
 	for centroidIndex, portion := range cm.centroidDataPointPortions(n) {
 		centroid := cm.Centroids[centroidIndex]
 		// Prep for internal vec update.
@@ -422,7 +422,7 @@ func (cm *CentroidManager) DistributeDataPointsInternal(n int) {
 // with the same name (KNNLookup) will be called on those Centroids.
 // Note, will update internal CentroidManager vector.
 func (cm *CentroidManager) KNNLookup(vec []float64, k int, drain bool) []common.DataPoint {
-	res := make([]common.DataPoint, 0, k)
+	res := make([]common.DataPoint, 0)
 
 	gen := cm.centroidVecGenerator() // Brevity.
 	for _, centroidIndex := range cm.knnSearchFunc(vec, gen, k) {
@@ -472,7 +472,7 @@ func (cm *CentroidManager) NearestCentroids(vec []float64, n int, drain bool) (
 	if len(indexes) == 0 {
 		return nil, false
 	}
-	centroids := make([]*centroid.Centroid, 0, n)
+	centroids := make([]*centroid.Centroid, 0)
 	for _, index := range indexes {
 		centroids = append(centroids, cm.Centroids[index])
 	}
diff --git a/pkg/kmeans/rpc/client.go b/pkg/kmeans/rpc/client.go
index b680383..a1b6ffc 100644
--- a/pkg/kmeans/rpc/client.go
+++ b/pkg/kmeans/rpc/client.go
@@ -181,7 +181,7 @@ func (c *kmeansClient) DistributeDataPointsInternal(n int) {
 // (T of pkg/kmeans/centroidmanager, se that method name for more documentation),
 // using the addr and namespace specified while setting up this client.
 func (c *kmeansClient) KNNLookup(vec []float64, k int, drain bool) []DataPoint {
-	resp := make([]DataPoint, 0, k)
+	resp := make([]DataPoint, 0)
 
 	c.client(func(rc *rpc.Client) {
 		args := KNNLookupArgs{NameSpace: c.namespace, Vec: vec, K: k, Drain: drain}
diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 0a045cd..551e710 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -153,7 +153,7 @@ func distributeDP(dp DataPoint, gen vecGenerator, addrs []string, namespace stri
 // method called, then those dps will be sent to remote nodes that are most
 // similar to those dps (similarity is caluclated by remote CentroidManager.Vec()).
 func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) error {
-	dps := make([]DataPoint, 0, args.N)
+	dps := make([]DataPoint, 0)
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
@@ -195,7 +195,7 @@ func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) erro
 // This is _a_lot_ slower due to many network calls, but has the benefit of
 // placing distribute dps precisely.
 func (s *KMeansServer) DistributeDataPointsAccurate(args DistribDPArgs, _ *int) error {
-	dps := make([]DataPoint, 0, args.N)
+	dps := make([]DataPoint, 0)
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
-- 
2.43.0


From 5545668c1e653508d62a83fc14987dd5d3c1a13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:02 +0000
Subject: [PATCH 05/22] fix: draining or distributing zero datapoints took one
 from a node

---
 pkg/kmeans/centroidmanager/cmanager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 0901986..19f2511 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -127,6 +127,9 @@ func (cm *CentroidManager) newCentroid(vec []float64) *centroid.Centroid {
 // of common.DataPoint contained in each centroid is uncertain.
 func (cm *CentroidManager) centroidDataPointPortions(n int) map[int]int {
 	portions := make(map[int]int)
+	if n <= 0 {
+		return portions
+	}
 	// This is essentially the total sum of all v in portions.
 	assigned := 0
 	for {
-- 
2.43.0


From 19d2bb73b31d1cceb4dedb9f1f37ddc94d3c3182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:56 +0000
Subject: [PATCH 06/22] fix: Centroid.MemTrim left a wrong vector and excess
 capacity

---
 pkg/kmeans/centroid/centroid.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/centroid/centroid.go b/pkg/kmeans/centroid/centroid.go
index 4d3e14d..f7e5de6 100644
--- a/pkg/kmeans/centroid/centroid.go
+++ b/pkg/kmeans/centroid/centroid.go
@@ -190,7 +190,11 @@ func (c *Centroid) MemTrim() {
 	for len(c.DataPoints) > 0 {
 		dps = append(dps, c.DrainUnordered(1)...)
 	}
-	c.DataPoints = dps
+	// Copy because the appends above might leave a capacity higher than len.
+	c.DataPoints = make([]common.DataPoint, len(dps))
+	copy(c.DataPoints, dps)
+	// Draining (above) moved c.vec towards the last drained dp.
+	c.MoveVector()
 }
 
 // MoveVector moves the internal centroid vector to be the mean of all
-- 
2.43.0


From a2e0e07a83b42d78baeaf7ac224bab354308fb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:36 +0000
Subject: [PATCH 07/22] fix: splitting clusters left the node vector stale

---
 pkg/kmeans/centroidmanager/cmanager.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 19f2511..92fdffb 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -221,6 +221,14 @@ func (cm *CentroidManager) prepVecUpdate(v1 []float64) func([]float64) {
 	}
 }
 
+// resetVec sets cm.vec to the mean of the vecs of all cm.Centroids, for when
+// their number changed. It does nothing if there are none.
+func (cm *CentroidManager) resetVec() {
+	if vec, ok := mathutils.VecMean(cm.centroidVecGenerator()); ok {
+		cm.vec = vec
+	}
+}
+
 // Vec exposes the internal vector of a CentroidManager.
 func (km *CentroidManager) Vec() []float64 { return km.vec }
 
@@ -269,6 +277,7 @@ func (cm *CentroidManager) AddDataPoint(dp common.DataPoint) bool {
 		newCentroid, splitOK := cm.splitCentroid(indexes[0], cm.centroidDPThreshold/2)
 		if splitOK {
 			cm.Centroids = append(cm.Centroids, newCentroid)
+			cm.resetVec()
 		}
 	}
 	return true
@@ -515,6 +524,7 @@ func (cm *CentroidManager) SplitCentroids(split func(*centroid.Centroid) bool) {
 		}
 	}
 	cm.Centroids = append(cm.Centroids, newCentroids...)
+	cm.resetVec()
 }
 
 // MergeCentroids iterates through all internal Centroids and passes them to
-- 
2.43.0


From 149049b90bcdd87857152ee0f81a7e1b44dc4548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:37 +0000
Subject: [PATCH 08/22] fix: taking a node's last cluster made its vector NaN

---
 pkg/kmeans/centroidmanager/cmanager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 92fdffb..8a57f38 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -492,8 +492,8 @@ func (cm *CentroidManager) NearestCentroids(vec []float64, n int, drain bool) (
 		sort.Ints(indexes)
 		for i := len(indexes) - 1; i > -1; i-- {
 			j := indexes[i] // Abbreviation for actual centroid index.
-			// Auto-adjust internal vec.
-			if len(cm.Centroids) > 0 {
+			// Auto-adjust internal vec (guard 0 div error).
+			if len(cm.Centroids) > 1 {
 				cm.vec = mathutils.VecMulScalar(cm.vec, float64(len(cm.Centroids)))
 				cm.vec, _ = mathutils.VecSub(cm.vec, cm.Centroids[j].Vec())
 				cm.vec = mathutils.VecDivScalar(cm.vec, float64(len(cm.Centroids)-1))
-- 
2.43.0


From 67935ede82c4420858500e2981424c8a3500f825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:38 +0000
Subject: [PATCH 09/22] fix: CentroidManager.MemTrim left a wrong node vector

---
 pkg/kmeans/centroidmanager/cmanager.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 8a57f38..9e84625 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -364,17 +364,11 @@ func (cm *CentroidManager) MemTrim() {
 		if centroid.LenDP() != 0 {
 			centroids = append(centroids, centroid)
 		}
-
-		// Will not be included in new centroids slice, so effectively deleted.
-		// In this case, the internal vec must be updated a bit differently
-		// than what cm.prepVecUpdate does. Note bounds check.
-		if centroid.LenDP() == 1 && len(cm.Centroids) > 1 {
-			cm.vec = mathutils.VecMulScalar(cm.vec, float64(len(cm.Centroids)))
-			cm.vec, _ = mathutils.VecSub(cm.vec, centroid.Vec())
-			cm.vec = mathutils.VecDivScalar(cm.vec, float64(len(cm.Centroids)-1))
-		}
 	}
 	cm.Centroids = centroids
+	// Centroids not included in the new slice (effectively deleted) must not
+	// count in the internal vec, which cm.prepVecUpdate can't do.
+	cm.resetVec()
 }
 
 // MoveVector sets the internal vector to the average of all internal Centroids.
-- 
2.43.0


From 517a5ef3745b03592a01833e2f146c508afacb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:39 +0000
Subject: [PATCH 10/22] fix: MergeCentroids left a wrong node vector

---
 pkg/kmeans/centroidmanager/cmanager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 9e84625..8a84cdc 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -561,9 +561,12 @@ func (cm *CentroidManager) MergeCentroids(merge func(*centroid.Centroid) bool) {
 			// Merge other _completely_ into candidate.
 			delMarks[centroidIndex] = true
 			other := cm.Centroids[centroidIndex]
+			// Draining 'other' moves its vec as well.
+			updateVecOther := cm.prepVecUpdate(other.Vec())
 			for _, dp := range other.DrainUnordered(other.LenDP()) {
 				candidate.AddDataPoint(dp)
 			}
+			updateVecOther(other.Vec())
 			if !merge(candidate) { // Check if satisfied.
 				break
 			}
-- 
2.43.0


From f640ec2d07e3d0cc43d7d89ec182bda8486f4d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:40 +0000
Subject: [PATCH 11/22] fix: node lookup missed datapoints when the k nearest
 clusters held fewer than k

---
 pkg/kmeans/centroidmanager/cmanager.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 8a84cdc..c70f6cd 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -431,7 +431,9 @@ func (cm *CentroidManager) KNNLookup(vec []float64, k int, drain bool) []common.
 	res := make([]common.DataPoint, 0)
 
 	gen := cm.centroidVecGenerator() // Brevity.
-	for _, centroidIndex := range cm.knnSearchFunc(vec, gen, k) {
+	// All centroids are ranked, as any of them might hold no (or only expired)
+	// datapoints, in which case the 'k' nearest aren't enough.
+	for _, centroidIndex := range cm.knnSearchFunc(vec, gen, len(cm.Centroids)) {
 		if len(res) >= k {
 			break
 		}
-- 
2.43.0


From 67802229674562995e888ba8f3d6719768d6c706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:16 +0000
Subject: [PATCH 12/22] fix: remote add was acknowledged although the node
 refused the datapoint

---
 pkg/kmeans/rpc/server.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 551e710..29ab643 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -56,14 +56,13 @@ func (s *KMeansServer) AddDataPoint(args AddDataPointArgs, resp *bool) error {
 	// Namespace doesn't exist, create one + add dp there.
 	if !lookupOK {
 		centroidManager := s.CentroidManagerFactoryFunc(args.DP.Vec)
-		centroidManager.AddDataPoint(args.DP)
+		*resp = centroidManager.AddDataPoint(args.DP)
 		slot := CManagerSlot{cManager: centroidManager}
 		// Returns a false if a slot is the containec CentroidManager is
 		// nil, but it is assumed that it works here.
 		s.Table.AddSlot(args.NameSpace, &slot)
 	}
 
-	*resp = true
 	return nil
 }
 
-- 
2.43.0


From 5a6005b16dd283a024ca861f7ca1d79298f564cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:49 +0000
Subject: [PATCH 13/22] fix: client NearestCentroids panicked on consecutive
 empty centroids

---
 pkg/kmeans/rpc/client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/kmeans/rpc/client.go b/pkg/kmeans/rpc/client.go
index a1b6ffc..4c04d8a 100644
--- a/pkg/kmeans/rpc/client.go
+++ b/pkg/kmeans/rpc/client.go
@@ -214,8 +214,8 @@ func (c *kmeansClient) NearestCentroids(vec []float64, n int, drain bool) (
 		return nil, false
 	}
 
-	// Remove nil/empty(no dps) centroids.
-	for i := 0; i < len(resp); i++ {
+	// Remove nil/empty(no dps) centroids. Backwards for removal safety.
+	for i := len(resp) - 1; i > -1; i-- {
 		if resp[i] == nil || resp[i].LenDP() == 0 {
 			resp = append(resp[:i], resp[i+1:]...)
 		}
-- 
2.43.0


From f09c775ecfe99ba4492db422570c6692f443ca25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:18 +0000
Subject: [PATCH 14/22] fix: distributing to an empty list of addresses lost
 the drained datapoints

---
 pkg/kmeans/rpc/server.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 29ab643..43d68ba 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -156,10 +156,13 @@ func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) erro
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
-		dps = append(dps, cm.DrainOrdered(args.N)...)
+		// Without addrs, drained dps would have nowhere to go (i.e be lost).
+		if len(args.AddrOptions) != 0 {
+			dps = append(dps, cm.DrainOrdered(args.N)...)
+		}
 	})
 
-	if nsErr != nil || len(dps) == 0 || len(args.AddrOptions) == 0 {
+	if nsErr != nil || len(dps) == 0 {
 		return nsErr
 	}
 
@@ -198,10 +201,13 @@ func (s *KMeansServer) DistributeDataPointsAccurate(args DistribDPArgs, _ *int)
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
-		dps = append(dps, cm.DrainOrdered(args.N)...)
+		// Without addrs, drained dps would have nowhere to go (i.e be lost).
+		if len(args.AddrOptions) != 0 {
+			dps = append(dps, cm.DrainOrdered(args.N)...)
+		}
 	})
 
-	if nsErr != nil || len(dps) == 0 || len(args.AddrOptions) == 0 {
+	if nsErr != nil || len(dps) == 0 {
 		return nsErr
 	}
 
-- 
2.43.0


From bd01b3f22582f57e2d7b49978a24d09daef8dde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:30 +0000
Subject: [PATCH 15/22] fix: stealing stopped at the first empty centroid of
 the remote node

---
 pkg/kmeans/rpc/server.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 43d68ba..2b2ff81 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -382,9 +382,14 @@ func (s *KMeansServer) StealCentroid(args StealCentroidArgs, r *StealCentroidsRe
 		// Can be improved. One at a time for convenience + readability.
 		centroids, cOK := client.NearestCentroids(localVec, 1, true)
 
-		if !cOK || len(centroids) == 0 {
+		if !cOK {
 			break
 		}
+		// Remote Centroid was empty (the client filters those out), there
+		// might be more of them.
+		if len(centroids) == 0 {
+			continue
+		}
 
 		s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
 			// @ unsafe, this is assuming cm has similar properties as centroids
-- 
2.43.0


From 9eed98a7f2f0bd3299fb2a310fb1a590400f82bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:33 +0000
Subject: [PATCH 16/22] fix: a node told to steal from itself never finished

---
 pkg/kmeans/rpc/server.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 2b2ff81..12fa868 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -378,7 +378,14 @@ func (s *KMeansServer) StealCentroid(args StealCentroidArgs, r *StealCentroidsRe
 		s.Table.AddSlot(args.NameSpace, &CManagerSlot{cManager: cm})
 	}
 
-	for r.TransferredN < args.TransferDPLimit && clientErr == nil {
+	// There is no more to get than what the remote has now. Without this bound,
+	// a node told to steal from itself would never run out of Centroids.
+	limit := args.TransferDPLimit
+	if n := client.LenDP(); n < limit {
+		limit = n
+	}
+
+	for r.TransferredN < limit && clientErr == nil {
 		// Can be improved. One at a time for convenience + readability.
 		centroids, cOK := client.NearestCentroids(localVec, 1, true)
 
-- 
2.43.0


From ec27be500966886e815be801e609f106624a0e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:27 +0000
Subject: [PATCH 17/22] fix: NearestCentroids sent centroids which other
 requests were changing

---
 pkg/kmeans/rpc/server.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 12fa868..1994de9 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -276,7 +276,14 @@ type NearestCentroidArgs struct {
 // lead to an instance.
 func (s *KMeansServer) NearestCentroids(args NearestCentroidArgs, r *[]*Centroid) error {
 	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
-		*r, _ = cm.NearestCentroids(args.Vec, args.N, args.Drain)
+		centroids, _ := cm.NearestCentroids(args.Vec, args.N, args.Drain)
+		// Copies, because the response is encoded after the namespace is
+		// unlocked, at which point the originals might be changing.
+		for _, c := range centroids {
+			centroid := *c
+			centroid.DataPoints = append([]DataPoint{}, c.DataPoints...)
+			*r = append(*r, &centroid)
+		}
 	})
 }
 
-- 
2.43.0


From 7868ae9bf95fc13cf451f3342576d3c912005830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:01 +0000
Subject: [PATCH 18/22] fix: simultaneous first requests for a namespace
 replaced each other's data

---
 pkg/kmeans/rpc/rpc.go    | 16 ++++++++++++++++
 pkg/kmeans/rpc/server.go | 12 ++++++++----
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/pkg/kmeans/rpc/rpc.go b/pkg/kmeans/rpc/rpc.go
index 179228b..32d0d63 100644
--- a/pkg/kmeans/rpc/rpc.go
+++ b/pkg/kmeans/rpc/rpc.go
@@ -181,6 +181,22 @@ func (t *CManagerTable) AddSlot(namespace string, cms *CManagerSlot) bool {
 	return true
 }
 
+// addSlotIfMissing is similar to AddSlot but does not replace an existing slot,
+// it returns false if there is one (or if AddSlot would return false).
+func (t *CManagerTable) addSlotIfMissing(namespace string, cms *CManagerSlot) bool {
+	if cms == nil || cms.cManager == nil {
+		return false
+	}
+
+	t.Lock()
+	defer t.Unlock()
+	if _, ok := t.slots[namespace]; ok {
+		return false
+	}
+	t.slots[namespace] = cms
+	return true
+}
+
 // CentroidManagerFactoryF is whatever creates a CentroidManager.
 type CentroidManagerFactoryF = func(vec []float64) *CentroidManager
 
diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 1994de9..520b29f 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -58,9 +58,13 @@ func (s *KMeansServer) AddDataPoint(args AddDataPointArgs, resp *bool) error {
 		centroidManager := s.CentroidManagerFactoryFunc(args.DP.Vec)
 		*resp = centroidManager.AddDataPoint(args.DP)
 		slot := CManagerSlot{cManager: centroidManager}
-		// Returns a false if a slot is the containec CentroidManager is
-		// nil, but it is assumed that it works here.
-		s.Table.AddSlot(args.NameSpace, &slot)
+		// False if another request created the namespace in the meantime,
+		// its data must not be replaced.
+		if !s.Table.addSlotIfMissing(args.NameSpace, &slot) {
+			s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
+				*resp = cm.AddDataPoint(args.DP)
+			})
+		}
 	}
 
 	return nil
@@ -382,7 +386,7 @@ func (s *KMeansServer) StealCentroid(args StealCentroidArgs, r *StealCentroidsRe
 			return nil
 		}
 		cm := s.CentroidManagerFactoryFunc(localVec)
-		s.Table.AddSlot(args.NameSpace, &CManagerSlot{cManager: cm})
+		s.Table.addSlotIfMissing(args.NameSpace, &CManagerSlot{cManager: cm})
 	}
 
 	// There is no more to get than what the remote has now. Without this bound,
-- 
2.43.0


From 3dbd72ac8de3d634312196d90b270eabe85326ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:00 +0000
Subject: [PATCH 19/22] fix: an unset or negative Meta interval crashed the
 event loop

---
 core/eventloop/cfg.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/eventloop/cfg.go b/core/eventloop/cfg.go
index d4f421f..1da55c7 100644
--- a/core/eventloop/cfg.go
+++ b/core/eventloop/cfg.go
@@ -67,6 +67,7 @@ func (cfg *EventLoopTaskSkipConfig) clamp(min, max int) {
 		&cfg.SplitCentroids,
 		&cfg.MergeCentroids,
 		&cfg.LoadBalancing,
+		&cfg.Meta,
 	}
 	for _, v := range items {
 		if *v < min {
-- 
2.43.0


From e2c10dab879df93a94fcd04a17d67ed205e5afce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:00 +0000
Subject: [PATCH 20/22] fix: event loop tasks with an interval above 1000 were
 run

---
 core/eventloop/cfg.go    | 6 +++++-
 core/eventloop/eltask.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/eventloop/cfg.go b/core/eventloop/cfg.go
index 1da55c7..1419a7d 100644
--- a/core/eventloop/cfg.go
+++ b/core/eventloop/cfg.go
@@ -55,6 +55,9 @@ type EventLoopTaskSkipConfig struct {
 	Meta int
 }
 
+// Tasks with an interval above this are never ran.
+const maxTaskSkip = 1000
+
 // Clams vals in EventLoopTaskSkipConfig (particularly useful for
 // ensuring no zeros (zero div err when using modulus))
 func (cfg *EventLoopTaskSkipConfig) clamp(min, max int) {
@@ -165,5 +168,6 @@ func (cfg *EventLoopConfig) validate() {
 		}
 	}
 
-	cfg.TaskSkip.clamp(1, 1000)
+	// One above the max interval, such that those tasks are never ran.
+	cfg.TaskSkip.clamp(1, maxTaskSkip+1)
 }
diff --git a/core/eventloop/eltask.go b/core/eventloop/eltask.go
index db3712f..8af5472 100644
--- a/core/eventloop/eltask.go
+++ b/core/eventloop/eltask.go
@@ -7,7 +7,7 @@ import (
 
 // Wrapper for handing event-loop-task skipping.
 func withSkip(cfg *EventLoopConfig, interval int, task func()) {
-	if cfg.internal.iter%interval == 0 {
+	if interval <= maxTaskSkip && cfg.internal.iter%interval == 0 {
 		task()
 	}
 }
-- 
2.43.0


From 238014bd43a8e5654f43ae519bcd4e32e02704cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:00 +0000
Subject: [PATCH 21/22] fix: event loop intervals lost their rhythm after 1000
 iterations

---
 core/eventloop/el.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/eventloop/el.go b/core/eventloop/el.go
index 6ea71e5..70acff6 100644
--- a/core/eventloop/el.go
+++ b/core/eventloop/el.go
@@ -44,11 +44,9 @@ func EventLoop(cfg *EventLoopConfig) func() {
 
 			elStep(cfg, eltLoadBalancing)
 
-			// Tick & wraparound.
+			// Tick. No wraparound, as that would break the rhythm of
+			// tasks with intervals that aren't a divisor of it.
 			cfg.internal.iter++
-			if cfg.internal.iter > 1000 {
-				cfg.internal.iter = 0
-			}
 		}
 	}()
 
-- 
2.43.0


From eaaabf40b1e1f69c33944766291a46f1c5f17444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:55 +0000
Subject: [PATCH 22/22] fix: searches left out candidates whose score is
 infinite or the largest number

---
 pkg/searchutils/knn.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pkg/searchutils/knn.go b/pkg/searchutils/knn.go
index 8468e30..74e380f 100644
--- a/pkg/searchutils/knn.go
+++ b/pkg/searchutils/knn.go
@@ -89,9 +89,8 @@ func KNNBrute(args KNNBruteArgs) []int {
 	// Grown while iterating (up to K), as K might be negative or a lot higher
 	// than the amount of vectors in the pool.
 	res := make([]resultItem, 0)
-	// This represents the lowest/highest score found so far.
-	// Defining a cap of highest/lowest number representing similarity
-	// is done here by simply using the (near) min/max allowed float.
+	// Score of a slot that isn't set yet, which is done here by simply using
+	// the (near) min/max allowed float.
 	similarity := math.MaxFloat64
 	if !args.Ascending {
 		similarity *= -1
@@ -113,13 +112,10 @@ func KNNBrute(args KNNBruteArgs) []int {
 		if len(res) < args.K {
 			res = append(res, resultItem{score: similarity})
 		}
-		// Evaluate inclusion of current vector.
-		newSlot := &resultItem{i, score, true}
-		if args.Ascending && score < similarity {
-			bubble(newSlot, res, true)
-		}
-		if !args.Ascending && score > similarity {
-			bubble(newSlot, res, false)
+		// Evaluate inclusion of current vector. Any number will do, including
+		// infinity (which a distance might be), but NaN can't be ordered.
+		if !math.IsNaN(score) {
+			bubble(&resultItem{i, score, true}, res, args.Ascending)
 		}
 		i++
 	}
-- 
2.43.0

