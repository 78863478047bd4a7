KNN="pkg/searchutils/knn.go"; DI="pkg/mathutils/distance.go"; VT="pkg/mathutils/vectools.go"
CE="pkg/kmeans/centroid/centroid.go"; CM="pkg/kmeans/centroidmanager/cmanager.go"
RS="pkg/kmeans/rpc/server.go"; RC="pkg/kmeans/rpc/client.go"; RR="pkg/kmeans/rpc/rpc.go"; RU="pkg/kmeans/rpc/serverutils.go"
DP="pkg/kmeans/common/datapoint.go"; ND="core/nodes/nodes.go"; NV="core/nodes/vecs.go"
PD="core/dps/putdps.go"; GD="core/dps/getdps.go"; DD="core/dps/dps.go"
AP="core/api/api.go"; AH="core/api/handler.go"; AC="core/api/conv.go"
EL="core/eventloop/el.go"; ET="core/eventloop/eltask.go"; EU="core/eventloop/eltaskutils.go"; EC="core/eventloop/cfg.go"
AR="pkg/arbiter/arbiter.go"; CF="cfg/cfg.go"; SV="cmd/service/service.go"

LOCAL='''
package main
import (
 "fmt"
 "os"
 "trypo/pkg/kmeans/centroid"
 "trypo/pkg/kmeans/centroidmanager"
 "trypo/pkg/kmeans/common"
 "trypo/pkg/searchutils"
)
func fail(f string, a ...interface{}) { fmt.Printf("FAIL: "+f+"\\n", a...); os.Exit(1) }
func newC(v ...float64) *centroid.Centroid {
 c, _ := centroid.NewCentroid(centroid.NewCentroidArgs{InitVec: v, InitCap: 10, KNNSearchFunc: searchutils.KNNCos, KFNSearchFunc: searchutils.KFNCos})
 return &c
}
func newM(threshold int, v ...float64) *centroidmanager.CentroidManager {
 m, _ := centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{InitVec: v, CentroidDPThreshold: threshold, KNNSearchFunc: searchutils.KNNCos, KFNSearchFunc: searchutils.KFNCos})
 return &m
}
func pt(name string, v ...float64) common.DataPoint { return common.DataPoint{Vec: v, Payload: []byte(name)} }
var _ = newC
var _ = newM
var _ = pt
'''
NET='''
package main
import (
 "fmt"
 "net"
 "os"
 "trypo/core/testutils"
 "trypo/pkg/kmeans/common"
 "trypo/pkg/kmeans/rpc"
 "trypo/pkg/arbiter"
%s
)
func fail(f string, a ...interface{}) { fmt.Printf("FAIL: "+f+"\\n", a...); os.Exit(1) }
func freeAddr() arbiter.Addr {
 l, err := net.Listen("tcp", "localhost:0")
 if err != nil { panic(err) }
 defer l.Close()
 return arbiter.Addr{"localhost", fmt.Sprint(l.Addr().(*net.TCPAddr).Port)}
}
func start() (arbiter.Addr, *rpc.KMeansServer) {
 for i := 0; ; i++ {
  a := freeAddr()
  s := testutils.NewKMeansServer(a.ToStr())
  if _, err := rpc.StartListen(s); err == nil { return a, s }
  if i > 20 { panic("no port") }
 }
}
func pt(name string, v ...float64) common.DataPoint { return common.DataPoint{Vec: v, Payload: []byte(name)} }
var _ = pt
var _ = start
var _ = fail
'''
def net(imports, body): return NET%imports + body
def loc(body): return LOCAL+body

bug("knn-float32-scores","S01",
 "two candidates whose scores differ by less than float32 resolution (about 1e-7), the better one coming later",
 "scores are rounded to single precision when ranked, so a slightly worse candidate which comes first beats a better one",
 [(KNN,"		if (insertee.score > items[i].score || !items[i].set) && !ascending {","		if (float32(insertee.score) > float32(items[i].score) || !items[i].set) && !ascending {"),
  (KNN,"		if (insertee.score < items[i].score || !items[i].set) && ascending {","		if (float32(insertee.score) < float32(items[i].score) || !items[i].set) && ascending {")],
 '''
package main
import ("fmt";"os";"trypo/pkg/searchutils")
func main() {
 vecs := [][]float64{{1, 1.00000002}, {1, 1.00000001}}
 i := 0
 got := searchutils.KNNEuc([]float64{0, 0}, func() ([]float64, bool) { if i == len(vecs) { return nil, false }; i++; return vecs[i-1], true }, 1)
 if len(got) != 1 || got[0] != 1 { fmt.Println("FAIL: nearest is", got, "want [1]"); os.Exit(1) }
}''')

bug("cosine-single-sqrt","S02",
 "vectors with large (about 1e80 and above) or small (1e-85 and below) components",
 "the product of the squared norms over- or underflows, so parallel vectors have similarity 0, or NaN/Inf",
 [(DI,"	return dot / norm1 / norm2, nil","	// One rounding less than dividing twice.\n	return dot / math.Sqrt(sq1*sq2), nil"),
  (DI,"	if norm1 == 0 || norm2 == 0 {","	sq1, sq2 := norm1*norm1, norm2*norm2\n	if norm1 == 0 || norm2 == 0 {")],
 '''
package main
import ("fmt";"math";"os";"trypo/pkg/mathutils")
func main() {
 for _, s := range []float64{1, 1e80, 1e100, 1e-90} {
  r, err := mathutils.CosineSimilarity([]float64{s, 2 * s}, []float64{2 * s, 4 * s})
  if err != nil || math.Abs(r-1) > 1e-9 || math.IsNaN(r) { fmt.Println("FAIL: similarity of parallel vectors", r, err); os.Exit(1) }
 }
}''')

bug("drain-all-shares-storage","C02",
 "an ordered drain of everything a cluster holds, followed by adds to the same cluster while the drained points are still in use",
 "the drained slice shares memory with the cluster, so later adds overwrite points which were handed out",
 [(CE,"	// Furthest neigh.\n	indexes := c.kfnSearchFunc(c.vec, c.dataPointVecGenerator(), n)\n	for _, index := range indexes {\n		res = append(res, c.DataPoints[index])\n	}\n",
      "	// Furthest neigh.\n	indexes := c.kfnSearchFunc(c.vec, c.dataPointVecGenerator(), n)\n	if len(indexes) == 1 && len(c.DataPoints) == 1 {\n		// Nothing to order, hand over the storage as it is.\n		res, c.DataPoints = c.DataPoints, c.DataPoints[:0]\n		return res\n	}\n	for _, index := range indexes {\n		res = append(res, c.DataPoints[index])\n	}\n"),
  (CE,"// similarity to this Centroid.\n","// similarity to this Centroid. A sole datapoint is handed over directly.\n")],
 loc('''
func main() {
 c := newC(1, 2)
 c.AddDataPoint(pt("a", 1, 2))
 got := c.DrainOrdered(1)
 c.AddDataPoint(pt("b", 3, 4))
 if len(got) != 1 || string(got[0].Payload) != "a" || got[0].Vec[0] != 1 { fail("drained point changed to %v", got) }
}'''))

bug("split-hands-out-storage","M02",
 "a cluster which is split (or unordered-drained in bulk) and gets further points afterwards",
 "an unordered drain moves the tail by copying over the storage it just handed out: split-off points are overwritten",
 [(CE,"	for len(c.DataPoints) != 0 && len(res) < n {\n		if !c.DataPoints[0].Expired() {\n			res = append(res, c.DataPoints[0])\n		}\n		c.rmDataPoint(0)\n	}\n	return res",
      "	for len(c.DataPoints) != 0 && len(res) < n {\n		if !c.DataPoints[0].Expired() {\n			res = append(res, c.DataPoints[0])\n		} else if len(c.DataPoints) > 1 && n > 1 {\n			// Expired: fill the gap with the last one, cheaper than moving all.\n			last := len(c.DataPoints) - 1\n			c.DataPoints[0] = c.DataPoints[last]\n			c.rmDataPoint(last)\n			continue\n		}\n		c.rmDataPoint(0)\n	}\n	return res")],
 loc('''
func main() {}
'''))
B.pop()

bug("lookup-purge-vec","M01",
 "a node lookup without removal which meets a point that expired while stored",
 "the lookup drops the expired point from its cluster but the node vector is only updated for removing lookups",
 [(CM,"		// Prep for internal vec update.\n		updateVec := cm.prepVecUpdate(centroid.Vec())\n		for _, dp := range centroid.KNNLookup(","		// Prep for internal vec update.\n		updateVec := func([]float64) {}\n		if drain {\n			updateVec = cm.prepVecUpdate(centroid.Vec())\n		}\n		for _, dp := range centroid.KNNLookup(")],
 loc('''
func main() {
 m := newM(0, 1, 1)
 m.AddDataPoint(pt("a", 1, 2))
 e := pt("b", 3, 4)
 e.ExpireEnabled = true
 e.Expires = time.Now().Add(150 * time.Millisecond)
 if !m.AddDataPoint(e) { fmt.Println("slow machine, nothing to see"); return }
 time.Sleep(400 * time.Millisecond)
 m.KNNLookup([]float64{1, 2}, 2, false)
 if v := m.Vec(); math.Abs(v[0]-1) > 1e-9 || math.Abs(v[1]-2) > 1e-9 { fail("node vector %v, its only cluster is at %v", v, m.Centroids[0].Vec()) }
}''').replace(' "os"\n',' "math"\n "os"\n "time"\n'))

bug("merge-revives-absorbed","M02",
 "a merge whose predicate also qualifies empty clusters, with three or more clusters of which a later one was already absorbed",
 "an absorbed cluster may absorb others in its turn before it is deleted, and their points are deleted with it",
 [(CM,"		if !merge(candidate) || delMarks[i] {","		if !merge(candidate) || (delMarks[i] && candidate.LenDP() > 0) {")],
 loc('''
func main() {
 m := newM(0, 1, 1)
 vs := [][]float64{{1, 0}, {0.99, 0.1}, {0, 1}, {0.1, 0.99}, {-1, 0}}
 for i, v := range vs {
  c := newC(v...)
  for j := 0; j < 3; j++ { c.AddDataPoint(pt(fmt.Sprint(i, j), v...)) }
  m.Centroids = append(m.Centroids, c)
 }
 m.MoveVector()
 m.MergeCentroids(func(c *centroid.Centroid) bool { return c.LenDP() < 6 })
 if m.LenDP() != 15 { fail("15 points before the merge, %d after", m.LenDP()) }
}'''))

bug("split-ten-at-most","M05",
 "more than ten qualifying clusters in one requested split",
 "a split request handles only as many clusters as its buffer was made for, the rest stays unsplit",
 [(CM,"		if !split(centroid) {\n			continue","		if len(newCentroids) == cap(newCentroids) || !split(centroid) {\n			continue")],
 loc('''
func main() {
 m := newM(0, 1, 1)
 for i := 0; i < 12; i++ {
  c := newC(1, float64(i))
  for j := 0; j < 4; j++ { c.AddDataPoint(pt("p", 1, float64(i))) }
  m.Centroids = append(m.Centroids, c)
 }
 m.MoveVector()
 m.SplitCentroids(func(c *centroid.Centroid) bool { return c.LenDP() > 2 })
 if len(m.Centroids) != 24 { fail("12 clusters of 4 became %d clusters, want 24", len(m.Centroids)) }
}'''))

bug("add-reports-split","M03",
 "a split threshold of 1 (half of it is 0, so nothing can be split off)",
 "an add which stored the point is reported as refused when the cluster could not be split",
 [(CM,"		if splitOK {\n			cm.Centroids = append(cm.Centroids, newCentroid)\n			cm.resetVec()\n		}\n	}\n	return true","		if !splitOK {\n			return cm.centroidDPThreshold <= 0\n		}\n		cm.Centroids = append(cm.Centroids, newCentroid)\n		cm.resetVec()\n	}\n	return true")],
 loc('''
func main() {
 for th := 0; th < 4; th++ {
  m := newM(th, 1, 1)
  n := 0
  for i := 0; i < 5; i++ { if m.AddDataPoint(pt(fmt.Sprint(i), 1, float64(i+1))) { n++ } }
  if n != m.LenDP() { fail("threshold %d: %d adds acknowledged, %d points stored", th, n, m.LenDP()) }
 }
}'''))

bug("distribute-accurate-first-vec","R05",
 "an accurate distribution of two or more points with different best nodes",
 "the nearest clusters are looked up for the first drained point only, so later points go to the node that suits the first",
 [(RS,"			vec := KMeansClient(addr, args.NameSpace, &err).NearestCentroidVec(dp.Vec)","			vec := KMeansClient(addr, args.NameSpace, &err).NearestCentroidVec(qVec)"),
  (RS,"	for _, dp := range dps {\n		// Fetch remote vecs. Done inside","	qVec := dps[0].Vec\n	for _, dp := range dps {\n		// Fetch remote vecs. Done inside")],
 net("",'''
func main() {
 addr0, _ := start()
 addr1, s1 := start()
 addr2, s2 := start()
 put := func(s *rpc.KMeansServer, name string, v ...float64) {
  // One cluster for each point.
  s.Table.Access("ns", func(cm *rpc.CentroidManager) {
   c := testutils.NewCentroid(v)
   c.AddDataPoint(pt(name, v...))
   cm.Centroids = append(cm.Centroids, c)
   cm.MoveVector()
  })
 }
 c0 := rpc.KMeansClient(addr0.ToStr(), "ns", nil)
 c1 := rpc.KMeansClient(addr1.ToStr(), "ns", nil)
 c2 := rpc.KMeansClient(addr2.ToStr(), "ns", nil)
 c0.AddDataPoint(pt("x", 1, 0.01))
 c0.AddDataPoint(pt("y", 0.01, 1))
 c1.AddDataPoint(pt("1a", 1, 0))
 put(s1, "1b", 0, 1)
 c2.AddDataPoint(pt("2a", 1, 0.2))
 put(s2, "2b", 0.7, 0.7)
 c0.DistributeDataPointsAccurate([]string{addr1.ToStr(), addr2.ToStr()}, 2)
 if n := c0.LenDP(); n != 0 { fail("origin keeps %d", n) }
 if a, b := c1.LenDP(), c2.LenDP(); a != 4 || b != 2 { fail("nodes hold %d and %d points, want 4 and 2", a, b) }
}'''))

bug("steal-fresh-vec","M01",
 "stealing only some of the clusters of another node into a namespace which did not exist here",
 "the vector of a namespace created by a steal stays that of the other node instead of the mean of the stolen clusters",
 [(RS,"		localVec = client.Vec()\n		if localVec == nil {\n			return nil\n		}\n","		localVec, fresh = client.Vec(), true // Same vec, no need to move.\n		if localVec == nil {\n			return nil\n		}\n"),
  (RS,"	var localVec []float64\n","	var localVec []float64\n	fresh := false\n"),
  (RS,"	s.Table.Access(args.NameSpace, func(cm *CentroidManager) {\n		cm.MoveVector()\n	})\n\n	r.OK","	s.Table.Access(args.NameSpace, func(cm *CentroidManager) {\n		if !fresh {\n			cm.MoveVector()\n		}\n	})\n\n	r.OK")],
 net("",'''
func main() {
 addr0, _ := start()
 addr1, s1 := start()
 c0 := rpc.KMeansClient(addr0.ToStr(), "ns", nil)
 c1 := rpc.KMeansClient(addr1.ToStr(), "ns", nil)
 c1.AddDataPoint(pt("1", 1, 0))
 s1.Table.Access("ns", func(cm *rpc.CentroidManager) {
  c := testutils.NewCentroid([]float64{0, 3})
  c.AddDataPoint(pt("c", 0, 3))
  cm.Centroids = append(cm.Centroids, c)
  cm.MoveVector()
 })
 n, ok := c0.StealCentroids(addr1.ToStr(), 1)
 if n != 1 || !ok { fail("steal: %d %v", n, ok) }
 v, w := c0.Vec(), c0.DrainUnordered(1)[0].Vec
 if len(v) != 2 || v[0] != w[0] || v[1] != w[1] { fail("node vector %v, its only point is at %v", v, w) }
}'''))

bug("vec-updated-in-place","R04",
 "a request for the nearest cluster's vector whose reply is encoded while another request adds to that cluster",
 "a cluster's vector is updated in place, while a reply that refers to it is still being encoded: the reply is torn",
 [(CE,"	c.vec = mathutils.VecMulScalar(c.vec, float64(len(c.DataPoints)))\n	c.vec, _ = mathutils.VecAdd(c.vec, dp.Vec)\n	c.vec = mathutils.VecDivScalar(c.vec, float64(len(c.DataPoints))+1)\n","	// In place, saves three allocations for each add.\n	n := float64(len(c.DataPoints))\n	for i, v := range dp.Vec {\n		c.vec[i] = (c.vec[i]*n + v) / (n + 1)\n	}\n"),
  (CM,"		cm.vec = c.Vec()\n		return true","		cm.vec = append([]float64(nil), c.Vec()...)\n		return true")],
 net(' "sync"\n "time"','''
func main() {
 // All points are (k, k, k, ...), so all means have equal components.
 addr, _ := start()
 v := func(k float64) []float64 { r := make([]float64, 4000); for i := range r { r[i] = k }; return r }
 rpc.KMeansClient(addr.ToStr(), "ns", nil).AddDataPoint(pt("x", v(1)...))
 var wg sync.WaitGroup
 end := time.Now().Add(6 * time.Second)
 for g := 0; g < 6; g++ {
  wg.Add(1)
  go func(g int) {
   defer wg.Done()
   for i := 0; time.Now().Before(end); i++ {
    c := rpc.KMeansClient(addr.ToStr(), "ns", nil)
    if g%2 == 0 { c.AddDataPoint(pt("y", v(float64(1+(i*7919)%1000))...)); c.DrainUnordered(1); continue }
    got := c.NearestCentroidVec(v(1))
    for j := range got { if d := got[j] - got[0]; d > 1e-6 || d < -1e-6 { fail("torn vector: component 0 is %v, component %d is %v", got[0], j, got[j]) } }
   }
  }(g)
 }
 wg.Wait()
}'''),race=True)

bug("namespace-trimmed","R02",
 "two namespaces whose names differ only in surrounding white space",
 "the client trims white space around the namespace, so such namespaces share their data",
 [(RR,"		namespace:  namespace,\n","		namespace:  strings.TrimSpace(namespace),\n"),(RR,'	"net/rpc"\n','	"net/rpc"\n	"strings"\n')],
 net("",'''
func main() {
 addr, _ := start()
 a := rpc.KMeansClient(addr.ToStr(), "ns", nil)
 b := rpc.KMeansClient(addr.ToStr(), "ns ", nil)
 a.AddDataPoint(pt("a", 1, 2))
 b.AddDataPoint(pt("b", 1, 2))
 if a.LenDP() != 1 || b.LenDP() != 1 { fail("namespaces hold %d and %d points, want 1 and 1", a.LenDP(), b.LenDP()) }
 if ns := a.Namespaces(); len(ns) != 2 { fail("namespaces: %q", ns) }
}'''))

bug("portions-presized","R07",
 "a drain or distribution with a huge count",
 "memory is reserved in proportion to the requested count, so one request can exhaust the node",
 [(CM,"	portions := make(map[int]int)\n","	portions := make(map[int]int, n)\n")],
 net(' "runtime"','''
func main() {
 addr, _ := start()
 c := rpc.KMeansClient(addr.ToStr(), "ns", nil)
 c.AddDataPoint(pt("a", 1, 2))
 var before, after runtime.MemStats
 runtime.ReadMemStats(&before)
 got := c.DrainUnordered(2000000)
 runtime.ReadMemStats(&after)
 if len(got) != 1 { fail("got %d points", len(got)) }
 if d := after.TotalAlloc - before.TotalAlloc; d > 16<<20 { fail("a drain of one point allocated %d bytes", d) }
}'''))

bug("api-expiry-seconds","A01",
 "a point with an expiry time that is not a whole second (the flag may be off), put and queried over HTTP",
 "the API cuts the expiry time to whole seconds: it comes back changed and the point expires up to a second early",
 [(AC,"		Expires:       dp.Expires,\n		ExpireEnabled: dp.ExpireEnabled,\n	}\n}\n\n// conv []","		Expires:       dp.Expires.Truncate(time.Second),\n		ExpireEnabled: dp.ExpireEnabled,\n	}\n}\n\n// conv []")],
 net(''' "bytes"
 "encoding/json"
 "net/http"
 "time"
 "trypo/core/api"''','''
func main() {
 addr, _ := start()
 web := freeAddr()
 go api.Start(api.APIConfig{Addr: web, RPCAddrs: []arbiter.Addr{addr}, ReadTimeout: 5 * time.Second, WriteTimeout: 5 * time.Second})
 post := func(route string, v interface{}) *http.Response {
  b, _ := json.Marshal(v)
  for i := 0; ; i++ {
   r, err := http.Post("http://"+web.ToStr()+route, "application/json", bytes.NewReader(b))
   if err == nil { return r }
   if i > 100 { panic(err) }
   time.Sleep(50 * time.Millisecond)
  }
 }
 exp := time.Date(2090, 1, 2, 3, 4, 5, 678900000, time.UTC)
 r := post("/api/dp/put", map[string]interface{}{"namespace": "ns", "dp": api.DP{Vec: []float64{1, 2}, Expires: exp, ExpireEnabled: true}})
 if r.StatusCode != 200 { fail("put: %v", r.Status) }
 r = post("/api/dp/query", map[string]interface{}{"namespace": "ns", "queryVec": []float64{1, 2}, "n": 3})
 var got []api.DP
 if err := json.NewDecoder(r.Body).Decode(&got); err != nil || len(got) != 1 { fail("query: %v %v", got, err) }
 if !got[0].Expires.Equal(exp) { fail("expiry %v came back as %v", exp, got[0].Expires) }
}'''))

bug("get-stops-at-barren-node","D02",
 "a get whose best-ranked node has no (live) point to give while a lower-ranked node has",
 "collecting points stops at the first node which returns none, so fewer points come back than are available",
 [(GD,"		res = append(res, dps...)\n		if len(res) >= args.n {","		res = append(res, dps...)\n		if len(dps) == 0 || len(res) >= args.n {")],
 net(' "trypo/core/dps"\n "trypo/pkg/searchutils"','''
func main() {
 addr0, _ := start()
 addr1, _ := start()
 c0 := rpc.KMeansClient(addr0.ToStr(), "ns", nil)
 c1 := rpc.KMeansClient(addr1.ToStr(), "ns", nil)
 c0.AddDataPoint(pt("a", 1, 0))
 c0.DrainUnordered(1) // Keeps its vector.
 c1.AddDataPoint(pt("b", 0, 1))
 got := dps.GetDataPointsFast(dps.GetDataPointsArgs{AddrOptions: []arbiter.Addr{addr0, addr1}, Namespace: "ns", QueryVec: []float64{1, 0}, N: 1, KNNSearchFunc: searchutils.KNNCos})
 if len(got) != 1 { fail("got %d points, one is available", len(got)) }
}'''))

ELP=''' "sync"
 "time"
 "trypo/core/eventloop"'''
bug("balance-forgets-own-growth","E03",
 "two overloaded peers in one load-balancing step",
 "the local node's count is not updated after stealing from a peer, so it keeps pulling from the next one although it has enough",
 [(ET,"					addrsLens[local] = addrsLens[local] + n\n					addrsLens[other]","					addrsLens[other]")],
 net(ELP,'''
type logger struct { sync.Mutex; metas int }
func (l *logger) LogTask(s string) {}
func (l *logger) LogMeta(eventloop.MetaData) { l.Lock(); l.metas++; l.Unlock() }
func main() {
 addr0, _ := start()
 addr1, s1 := start()
 addr2, s2 := start()
 addr3, _ := start()
 rpc.KMeansClient(addr3.ToStr(), "ns", nil).AddDataPoint(pt("q", 1, 1))
 addrs := []arbiter.Addr{addr0, addr1, addr2, addr3}
 // All clusters of the peers hold 200 points: the first one that is stolen is enough.
 for _, s := range []*rpc.KMeansServer{s1, s2} {
  cm := testutils.NewCentroidManager([]float64{1, 1})
  for i := 0; i < 2; i++ {
   c := testutils.NewCentroid([]float64{1, 1})
   for j := 0; j < 200; j++ { c.AddDataPoint(pt("p", 1, 1)) }
   cm.Centroids = append(cm.Centroids, c)
  }
  cm.MoveVector()
  rpc.KMeansClient(addrs[0].ToStr(), "ns", nil).AddDataPoint(pt("q", 1, 1))
  a := addr1
  if s == s2 { a = addr2 }
  rpc.KMeansClient(a.ToStr(), "ns", nil).AddDataPoint(pt("q", 1, 1))
  s.Table.Access("ns", func(m *rpc.CentroidManager) { *m = *cm })
 }
 l := &logger{}
 never := 5000
 stop := eventloop.EventLoop(&eventloop.EventLoopConfig{LocalAddr: addr0, RemoteAddrs: addrs, TimeoutLoop: 10 * time.Millisecond, L: l,
  TaskSkip: eventloop.EventLoopTaskSkipConfig{Expire: never, MemTrim: never, DistributeDataPointsFast: never, DistributeDataPointsAccurate: never, DistributeDataPointsInternal: never, SplitCentroids: never, MergeCentroids: never, LoadBalancing: 1000, Meta: 1}})
 for { time.Sleep(20 * time.Millisecond); l.Lock(); m := l.metas; l.Unlock(); if m >= 3 { break } }
 stop()
 if n := rpc.KMeansClient(addr0.ToStr(), "ns", nil).LenDP(); n > 202 { fail("local node pulled %d points in one step although the average is 200", n) }
}'''))

bug("stop-toggles","E04",
 "the stop function called twice (say deferred and explicitly) before the loop has noticed the first call",
 "the second call revokes the first: the loop goes on for ever",
 [(EL,"	return func() {\n		cfg.internal.stopped = true\n	}","	return func() {\n		cfg.internal.stopped = !cfg.internal.stopped\n	}")],
 net(ELP,'''
type logger struct { sync.Mutex; metas int }
func (l *logger) LogTask(s string) {}
func (l *logger) LogMeta(eventloop.MetaData) { l.Lock(); l.metas++; l.Unlock() }
func main() {
 addr0, _ := start()
 l := &logger{}
 stop := eventloop.EventLoop(&eventloop.EventLoopConfig{LocalAddr: addr0, RemoteAddrs: []arbiter.Addr{addr0}, TimeoutLoop: 300 * time.Millisecond, L: l, TaskSkip: eventloop.EventLoopTaskSkipConfig{Meta: 1}})
 time.Sleep(50 * time.Millisecond)
 stop()
 stop()
 time.Sleep(1500 * time.Millisecond)
 l.Lock()
 defer l.Unlock()
 if l.metas > 1 { fail("%d tasks started after the stop", l.metas) }
}'''))

bug("meta-skips-empty-peers","E05",
 "monitoring of the whole network while a node holds no namespace yet, or is down",
 "nodes without data are missing from the metadata instead of being listed as empty",
 [(ET,"			metaData.Items[addr] = MetaDataItem{\n				LenDP:        meta.DPs,\n				LenCentroids: meta.Centroids,\n			}\n","			item := MetaDataItem{LenDP: meta.DPs, LenCentroids: meta.Centroids}\n			if len(item.LenDP) > 0 || cfg.LogLocalOnly {\n				metaData.Items[addr] = item\n			}\n")],
 net(ELP,'''
type logger struct { sync.Mutex; last *eventloop.MetaData }
func (l *logger) LogTask(s string) {}
func (l *logger) LogMeta(m eventloop.MetaData) { l.Lock(); l.last = &m; l.Unlock() }
func main() {
 addr0, _ := start()
 addr1, _ := start()
 rpc.KMeansClient(addr0.ToStr(), "ns", nil).AddDataPoint(pt("q", 1, 1))
 l := &logger{}
 stop := eventloop.EventLoop(&eventloop.EventLoopConfig{LocalAddr: addr0, RemoteAddrs: []arbiter.Addr{addr0, addr1}, TimeoutLoop: 10 * time.Millisecond, L: l, TaskSkip: eventloop.EventLoopTaskSkipConfig{Meta: 1}})
 for { time.Sleep(20 * time.Millisecond); l.Lock(); m := l.last; l.Unlock(); if m != nil { break } }
 stop()
 l.Lock()
 defer l.Unlock()
 if len(l.last.Items) != 2 { fail("metadata names %d nodes, configured are 2", len(l.last.Items)) }
}'''))
