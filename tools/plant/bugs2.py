bug("mean-of-one-shared","S03",
 "averaging exactly one vector and modifying either the result or the input afterwards",
 "the mean of a single vector is that vector itself rather than a copy",
 [(VT,"	res := make([]float64, len(vec))\n	copy(res, vec)\n\n	n := 1.\n	for {\n		vec, cont := generator()\n		if !cont {\n			break\n		}\n",
      "	res := vec\n\n	n := 1.\n	for {\n		vec, cont := generator()\n		if !cont {\n			break\n		}\n		if n == 1 {\n			res = append([]float64(nil), res...)\n		}\n"),
  (VT,"	for i := 0; i < len(res); i++ {\n		res[i] /= n\n	}\n","	for i := 0; n > 1 && i < len(res); i++ {\n		res[i] /= n\n	}\n")],
 '''
package main
import ("fmt";"os";"trypo/pkg/mathutils")
func main() {
 in := []float64{1, 2, 3}
 done := false
 m, ok := mathutils.VecMean(func() ([]float64, bool) { if done { return nil, false }; done = true; return in, true })
 if !ok { fmt.Println("FAIL: no mean"); os.Exit(1) }
 m[0] = 99
 if in[0] != 1 { fmt.Println("FAIL: input changed to", in); os.Exit(1) }
}''')

bug("expire-bulk-mean","C01",
 "an expiry which removes two or more points of one cluster in one go while others stay",
 "the vector is corrected with the count of points before the whole removal rather than step by step",
 [(CE,"	i := 0\n	for i < len(c.DataPoints) {\n		if c.DataPoints[i].Expired() {\n			c.rmDataPoint(i)\n			continue\n		}\n		i++\n	}\n",
      "	live := make([]common.DataPoint, 0, len(c.DataPoints))\n	vec := c.vec\n	n := float64(len(c.DataPoints))\n	for _, dp := range c.DataPoints {\n		if !dp.Expired() {\n			live = append(live, dp)\n			continue\n		}\n		if n > 1 {\n			vec = mathutils.VecMulScalar(vec, n)\n			vec, _ = mathutils.VecSub(vec, dp.Vec)\n			vec = mathutils.VecDivScalar(vec, n-1)\n		}\n	}\n	c.DataPoints, c.vec = live, vec\n")],
 loc('''
func main() {
 c := newC(1, 1)
 old := time.Now().Add(time.Millisecond * 50)
 c.AddDataPoint(common.DataPoint{Vec: []float64{8, 0}, Expires: old, ExpireEnabled: true})
 c.AddDataPoint(common.DataPoint{Vec: []float64{0, 8}, Expires: old, ExpireEnabled: true})
 c.AddDataPoint(pt("a", 1, 1))
 c.AddDataPoint(pt("b", 3, 1))
 time.Sleep(time.Millisecond * 80)
 c.Expire()
 if v := c.Vec(); math.Abs(v[0]-2) > 1e-9 || math.Abs(v[1]-1) > 1e-9 { fail("vector %v, want [2 1]", v) }
}''').replace('"os"','"os"\n "math"\n "time"'))

bug("drain-positions-sorted-first","C03",
 "an ordered drain of three or more points whose storage order is not their order of similarity",
 "what an ordered drain returns comes in storage order when more than two points are drained",
 [(CE,"	indexes := c.kfnSearchFunc(c.vec, c.dataPointVecGenerator(), n)\n	for _, index := range indexes {\n","	indexes := c.kfnSearchFunc(c.vec, c.dataPointVecGenerator(), n)\n	if len(indexes) > 2 {\n		sort.Ints(indexes)\n	}\n	for _, index := range indexes {\n")],
 loc('''
func main() {
 c := newC(1, 0)
 for i := 4; i >= 0; i-- { c.AddDataPoint(pt(fmt.Sprint(i), 1, 0.1*float64(i*i))) }
 vec := append([]float64{}, c.Vec()...)
 got := c.DrainOrdered(5)
 if len(got) != 5 { fail("got %d", len(got)) }
 for i := 1; i < 5; i++ {
  a, _ := mathutils.CosineSimilarity(vec, got[i-1].Vec)
  b, _ := mathutils.CosineSimilarity(vec, got[i].Vec)
  if a > b { fail("position %d is nearer than position %d: %v", i-1, i, got) }
 }
}''').replace('"os"','"os"\n "trypo/pkg/mathutils"'))

bug("refusing-receiver-dropped","C04",
 "a receiver which refuses one point but would accept a later one of the same redistribution",
 "a receiver which refused a point is not offered any further ones",
 [(CE,"		if len(indexes) == 0 || !receivers[indexes[0]].AddDataPoint(data[j]) {\n			c.AddDataPoint(data[j])\n		}\n",
      "		if len(indexes) == 0 || refused[indexes[0]] || !receivers[indexes[0]].AddDataPoint(data[j]) {\n			c.AddDataPoint(data[j])\n			if len(indexes) != 0 {\n				refused[indexes[0]] = true\n			}\n		}\n"),
  (CE,"	data := c.DrainOrdered(n)\n	i := 0\n","	data := c.DrainOrdered(n)\n	refused := make(map[int]bool) // Saves futile attempts.\n	i := 0\n")],
 loc('''
type rcv struct{ vec []float64; n int; got []string }
func (r *rcv) Vec() []float64 { return r.vec }
func (r *rcv) AddDataPoint(dp common.DataPoint) bool { r.n++; if r.n == 1 { return false }; r.got = append(r.got, string(dp.Payload)); return true }
func main() {
 c := newC(1, 1)
 c.AddDataPoint(pt("a", 1, 0)); c.AddDataPoint(pt("b", 1, 0.5)); c.AddDataPoint(pt("c", 1, 1))
 r := &rcv{vec: []float64{0, 1}}
 c.DistributeDataPoints(3, []common.DataPointReceiver{r})
 if len(r.got) != 2 || c.LenDP() != 1 { fail("receiver got %v, cluster holds %d", r.got, c.LenDP()) }
}'''))

bug("drain-trusts-the-front","X01",
 "a live point stored in front of an expired one and an unordered drain of both",
 "only the first point is checked for expiry in an unordered drain",
 [(CE,"	res := make([]common.DataPoint, 0)\n	for len(c.DataPoints) != 0 && len(res) < n {\n		if !c.DataPoints[0].Expired() {","	res := make([]common.DataPoint, 0)\n	for len(c.DataPoints) != 0 && len(res) < n {\n		if len(res) > 1 || !c.DataPoints[0].Expired() {")],
 loc('''
func main() {
 c := newC(1, 1)
 c.AddDataPoint(pt("a", 1, 0)); c.AddDataPoint(pt("b", 0, 1))
 c.AddDataPoint(common.DataPoint{Vec: []float64{8, 0}, Payload: []byte("old"), Expires: time.Now().Add(time.Millisecond * 50), ExpireEnabled: true})
 c.AddDataPoint(pt("c", 0, 1))
 time.Sleep(time.Millisecond * 80)
 for _, dp := range c.DrainUnordered(4) { if string(dp.Payload) == "old" { fail("drained an expired point") } }
}''').replace('"os"','"os"\n "time"'))

bug("expire-in-batches","X02",
 "more than 256 expired points in one cluster when it is expired",
 "an expiry removes at most 256 points of a cluster, the rest stay",
 [(CE,"	i := 0\n	for i < len(c.DataPoints) {\n		if c.DataPoints[i].Expired() {\n			c.rmDataPoint(i)\n			continue\n		}\n		i++\n	}\n",
      "	i, removed := 0, 0\n	for i < len(c.DataPoints) && removed < 256 { // Bounds the pause.\n		if c.DataPoints[i].Expired() {\n			c.rmDataPoint(i)\n			removed++\n			continue\n		}\n		i++\n	}\n")],
 loc('''
func main() {
 c := newC(1, 1)
 for i := 0; i < 300; i++ { c.AddDataPoint(common.DataPoint{Vec: []float64{8, 0}, Expires: time.Now().Add(time.Millisecond * 200), ExpireEnabled: true}) }
 time.Sleep(time.Millisecond * 300)
 c.Expire()
 if c.LenDP() != 0 { fail("%d expired points left", c.LenDP()) }
}''').replace('"os"','"os"\n "time"'))

bug("threshold-only-when-met-exactly","M04",
 "a cluster which came to hold more than the threshold by a merge or redistribution and then gets a point",
 "only a cluster which holds exactly the threshold is split, an overgrown one never again",
 [(CM,"	if centroid.LenDP() >= cm.centroidDPThreshold {","	if centroid.LenDP() == cm.centroidDPThreshold {")],
 loc('''
func main() {
 m := newM(4, 1, 1)
 for i := 0; i < 9; i++ { m.AddDataPoint(pt(fmt.Sprint(i), 1, float64(i))) }
 m.MergeCentroids(func(c *centroid.Centroid) bool { return true })
 if len(m.Centroids) != 1 || m.LenDP() != 9 { fail("setup") }
 m.AddDataPoint(pt("x", 1, 1))
 if len(m.Centroids) != 2 { fail("%d clusters after an add above the threshold", len(m.Centroids)) }
}'''))

bug("merge-leaves-empty","M06",
 "a merge on a node which has clusters without points",
 "clusters without points are neither absorbed nor removed by a merge",
 [(CM,"			if centroidIndex == i || delMarks[centroidIndex] {","			if centroidIndex == i || delMarks[centroidIndex] || cm.Centroids[centroidIndex].LenDP() == 0 {")],
 loc('''
func main() {
 m := newM(0, 1, 1)
 m.AddDataPoint(pt("a", 1, 1)); m.AddDataPoint(pt("b", 2, 1)); m.AddDataPoint(pt("c", 1, 2)); m.AddDataPoint(pt("d", 1, 3))
 all := func(c *centroid.Centroid) bool { return true }
 m.SplitCentroids(all)
 m.Centroids[1].DrainUnordered(100)
 m.MoveVector()
 m.MergeCentroids(func(c *centroid.Centroid) bool { return c.LenDP() > 0 && c.LenDP() < 100 })
 if len(m.Centroids) != 1 { fail("%d clusters left", len(m.Centroids)) }
}'''))

bug("portions-two-rounds","M07",
 "a drain of several points from clusters of very different sizes, so that the small ones run out early",
 "what small clusters cannot give is only taken from the others once, so fewer points are drained than asked for",
 [(CM,"	assigned := 0\n	for {\n","	assigned := 0\n	// Everybody gives an equal share, twice to make up for those who can't.\n	for rounds := 2*(n/(len(cm.Centroids)+1)) + 2; rounds > 0; rounds-- {\n")],
 loc('''
func main() {
 m := newM(0, 1, 1)
 for i := 0; i < 8; i++ { m.AddDataPoint(pt(fmt.Sprint(i), 1, float64(i))) }
 all := func(c *centroid.Centroid) bool { return true }
 for i := 0; i < 3; i++ { m.SplitCentroids(all) }
 for i := 0; i < 60; i++ { m.Centroids[0].AddDataPoint(pt(fmt.Sprint("x", i), 1, 1)) }
 m.MoveVector()
 n := m.LenDP()
 if got := m.DrainUnordered(n); len(got) != n { fail("drained %d of %d", len(got), n) }
}'''))

bug("lookup-drops-twins","M08",
 "two points of equal vector and payload next to each other in the result of a lookup",
 "of equal points which follow each other only the first is returned, with drain the others are lost",
 [(CM,"			// Keep adding to res until requirement is met.\n			case len(res) < k:\n","			// No use for the same thing twice.\n			case len(res) > 0 && mathutils.VecEq(res[len(res)-1].Vec, dp.Vec) && string(res[len(res)-1].Payload) == string(dp.Payload):\n\n			// Keep adding to res until requirement is met.\n			case len(res) < k:\n")],
 loc('''
func main() {
 m := newM(0, 1, 1)
 for i := 0; i < 3; i++ { m.AddDataPoint(pt("same", 1, 2)) }
 got := m.KNNLookup([]float64{0, 1}, 3, true)
 if len(got) != 3 { fail("got %d of 3", len(got)) }
}'''))

bug("nearest-positions-sorted-first","M09",
 "taking two or more clusters out of a node where the nearest is not stored first",
 "clusters taken out come in storage order rather than nearest first",
 [(CM,"	centroids := make([]*centroid.Centroid, 0)\n	for _, index := range indexes {\n		centroids = append(centroids, cm.Centroids[index])\n	}\n	if drain {\n		sort.Ints(indexes)\n","	if drain { // Removed from the back, see below.\n		sort.Ints(indexes)\n	}\n	centroids := make([]*centroid.Centroid, 0)\n	for _, index := range indexes {\n		centroids = append(centroids, cm.Centroids[index])\n	}\n	if drain {\n")],
 loc('''
func main() {
 m := newM(0, 1, 1)
 m.AddDataPoint(pt("a", 1, 0)); m.AddDataPoint(pt("b", 0, 1))
 m.SplitCentroids(func(c *centroid.Centroid) bool { return true })
 q := m.Centroids[1].Vec()
 cs, ok := m.NearestCentroids(append([]float64{}, q...), 2, true)
 if !ok || len(cs) != 2 { fail("got %d", len(cs)) }
 if cs[0].Vec()[0] != q[0] || cs[0].Vec()[1] != q[1] { fail("first is %v, want %v", cs[0].Vec(), q) }
}'''))

bug("internal-always-moves-out","M10",
 "an internal redistribution on a node with two or more clusters where a worst-fit point still fits its own cluster best",
 "a cluster is not among the receivers of its own points, so points are moved to a worse cluster",
 [(CM,"	for centroidIndex, portion := range cm.centroidDataPointPortions(n) {\n		cm.Centroids[centroidIndex].DistributeDataPoints(portion, receivers)\n","	for centroidIndex, portion := range cm.centroidDataPointPortions(n) {\n		others := make(dpReceivers, 0, len(receivers))\n		for _, r := range receivers {\n			if len(receivers) < 3 || r != common.DataPointReceiver(cm.Centroids[centroidIndex]) {\n				others = append(others, r)\n			}\n		}\n		cm.Centroids[centroidIndex].DistributeDataPoints(portion, others)\n")],
 loc('''
func main() {
 m := newM(0, 1, 1)
 for _, v := range [][]float64{{1, 0}, {0, 1}, {-1, 0}, {0, -1}} {
  c := newC(v...)
  for j := 0; j < 3; j++ { c.AddDataPoint(pt("", v[0]+0.1*float64(j), v[1])) }
  m.Centroids = append(m.Centroids, c)
 }
 m.MoveVector()
 m.DistributeDataPointsInternal(1)
 for i, c := range m.Centroids { if c.LenDP() != 3 { fail("cluster %d holds %d points of 3", i, c.LenDP()) } }
}'''))

bug("remote-lookup-capped","R01",
 "a remote lookup of more than 100 points on a node which holds more than that",
 "a node answers at most 100 points to one lookup",
 [(RS,"	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {\n		*resp = cm.KNNLookup(args.Vec, args.K, args.Drain)\n	})","	k := args.K\n	if k > 100 && !args.Drain {\n		k = 100 // Keeps responses small.\n	}\n	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {\n		*resp = cm.KNNLookup(args.Vec, k, args.Drain)\n	})")],
 net('',''' 
func main() {
 a, _ := start()
 var err error
 c := rpc.KMeansClient(a.ToStr(), "ns", &err)
 for i := 0; i < 150; i++ { if !c.AddDataPoint(pt(fmt.Sprint(i), 1, float64(i))) { fail("add: %v", err) } }
 if got := c.KNNLookup([]float64{1, 1}, 1000, false); len(got) != 150 { fail("%d of 150 points", len(got)) }
}'''))

bug("steal-counts-first-of-batch","R06",
 "a steal of many points (a limit above 64) from a node with several clusters",
 "with a large limit clusters are fetched four at a time, but only the first of each batch is counted",
 [(RS,"		centroids, cOK := client.NearestCentroids(localVec, 1, true)\n","		batch := 1\n		if limit-r.TransferredN > 64 {\n			batch = 4\n		}\n		centroids, cOK := client.NearestCentroids(localVec, batch, true)\n"),
  (RS,"		// Can be improved. One at a time for convenience + readability.\n","		// A few at a time, as long as there is far to go.\n")],
 net('''''','''
func main() {
 a, _ := start(); b, _ := start()
 var err error
 ca, cb := rpc.KMeansClient(a.ToStr(), "ns", &err), rpc.KMeansClient(b.ToStr(), "ns", &err)
 for i := 0; i < 160; i++ { ca.AddDataPoint(pt(fmt.Sprint(i), 1, float64(i))) }
 for i := 0; i < 4; i++ { ca.SplitCentroids(0, 1000) }
 n, ok := cb.StealCentroids(a.ToStr(), 80)
 if !ok || err != nil || n != cb.LenDP() { fail("stole %d, %v %v, holds %d", n, ok, err, cb.LenDP()) }
}'''))

bug("connections-kept","R08",
 "a node which is restarted on the same address between two calls of the same process",
 "the first call after a restart goes over the dead connection of before and fails although the node is reachable",
 [(RC,"	client, err := rpc.Dial(\"tcp\", c.remoteAddr)\n	if err != nil {\n		*c.err = err\n		return\n	}\n	defer client.Close()\n	taskF(client)\n",
      "	connsMu.Lock()\n	client := conns[c.remoteAddr]\n	delete(conns, c.remoteAddr)\n	connsMu.Unlock()\n	if client == nil {\n		var err error\n		if client, err = rpc.Dial(\"tcp\", c.remoteAddr); err != nil {\n			*c.err = err\n			return\n		}\n	}\n	taskF(client)\n	connsMu.Lock()\n	defer connsMu.Unlock()\n	// Kept for the next call, dialing each time is slow.\n	if *c.err == nil && conns[c.remoteAddr] == nil {\n		conns[c.remoteAddr] = client\n		return\n	}\n	client.Close()\n"),
  (RC,"import (\n	\"net/rpc\"\n","import (\n	\"net/rpc\"\n	\"sync\"\n"),
  (RC,"// client tries to connect to","// Idle connections by address.\nvar conns, connsMu = make(map[string]*rpc.Client), new(sync.Mutex)\n\n// client tries to connect to") ],
 net('''
 "trypo/pkg/kmeans/centroidmanager"
 "trypo/pkg/searchutils"
''','''
func up(addr string) (*rpc.KMeansServer, func()) {
 s := rpc.NewKMeansServer(addr, func(vec []float64) *centroidmanager.CentroidManager {
  cm, _ := centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{InitVec: vec, KNNSearchFunc: searchutils.KNNCos, KFNSearchFunc: searchutils.KFNCos})
  return &cm
 })
 var err error
 for i := 0; i < 50; i++ {
  var stop func()
  if stop, err = rpc.StartListen(s); err == nil { return s, stop }
  time.Sleep(20 * time.Millisecond)
 }
 fail("cannot listen again: %v", err)
 return nil, nil
}
func main() {
 ad := freeAddr()
 a := ad.ToStr()
 _, stop := up(a)
 var err error
 c := rpc.KMeansClient(a, "ns", &err)
 if !c.AddDataPoint(pt("a", 1, 2)) { fail("add: %v", err) }
 time.Sleep(50 * time.Millisecond)
 stop()
 s, stop := up(a)
 defer stop()
 time.Sleep(50 * time.Millisecond)
 err = nil
 if !rpc.KMeansClient(a, "ns", &err).AddDataPoint(pt("b", 1, 2)) || err != nil { fail("add after restart: %v", err) }
 n := 0
 if s.LenDP("ns", &n); n != 1 { fail("restarted node holds %d points", n) }
}''').replace('"os"','"os"\n "time"'))

bug("rank-first-eight","N01",
 "a ranking over more than eight addresses",
 "only the first eight of the answers are ranked",
 [(NV,"	for i := 0; i < f.chlen; i++ {\n		data := <-f.ch\n		if data.ok {","	for i := 0; i < f.chlen; i++ {\n		data := <-f.ch\n		if data.ok && len(r) < 8 { // Enough to choose from.")],
 net('''
 "trypo/core/nodes"
 "trypo/pkg/searchutils"
''','''
func main() {
 var as []arbiter.Addr
 for i := 0; i < 9; i++ {
  a, _ := start()
  as = append(as, a)
  rpc.KMeansClient(a.ToStr(), "ns", nil).AddDataPoint(pt("", 1, float64(i)))
 }
 got := nodes.BestFitNodesFast(nodes.BestFitNodesArgs{AddrOpts: as, Namespace: "ns", Vec: []float64{1, 0}, KNNSearchFunc: searchutils.KNNCos})
 if len(got) != 9 { fail("%d of 9 nodes ranked", len(got)) }
}'''))

bug("put-three-attempts","D01",
 "four or more nodes tried before the only one which accepts the point",
 "a put gives up after three refusing or unreachable nodes",
 [(PD,"	for _, addr := range addrOpt {\n","	for i, addr := range addrOpt {\n		if i > 3 { // The network is in trouble.\n			break\n		}\n")],
 net('''
 "trypo/core/dps"
 "trypo/pkg/searchutils"
''','''
func main() {
 a, _ := start()
 as := []arbiter.Addr{a}
 for i := 0; i < 12; i++ { as = append(as, freeAddr()) }
 for i := 0; i < 20; i++ {
  ok := dps.PutDataPointRand(dps.PutDataPointArgs{AddrOptions: as, Namespace: "ns", DataPoint: pt(fmt.Sprint(i), 1, 2), KNNSearchFunc: searchutils.KNNCos})
  if !ok { fail("put refused although one node accepts it") }
 }
}'''))

bug("body-read-in-chunk","A01",
 "a request body of more than 64 KiB, for instance a large payload",
 "request bodies are cut at 64 KiB",
 [(AH,"	body, _ := ioutil.ReadAll(r.Body)","	body, _ := ioutil.ReadAll(http.MaxBytesReader(w, r.Body, 1<<16))")],
 net('''
 "bytes"
 "encoding/json"
 "net/http"
 "time"
 "trypo/core/api"
''','''
func main() {
 a, _ := start()
 ad := freeAddr()
 go api.Start(api.APIConfig{Addr: ad, RPCAddrs: []arbiter.Addr{a}})
 type req struct { Namespace string `json:"namespace"`; DP api.DP `json:"dp"` }
 for _, n := range []int{10, 200000} {
  b, _ := json.Marshal(req{"ns", api.DP{Vec: []float64{1, 2}, Payload: make([]byte, n)}})
  var r *http.Response
  var err error
  for i := 0; i < 100; i++ {
   if r, err = http.Post("http://"+ad.ToStr()+"/api/dp/put", "application/json", bytes.NewReader(b)); err == nil { break }
   time.Sleep(30 * time.Millisecond)
  }
  if err != nil || r.StatusCode != 200 { fail("put of %d bytes: %v %v", n, r, err) }
 }
}'''))

bug("iterations-wrap","E02",
 "more than 1000 iterations of the loop and a task interval which does not divide 1000",
 "the iteration counter wraps at 1000, so tasks run off schedule afterwards",
 [(EL,"			cfg.internal.iter++\n","			cfg.internal.iter = (cfg.internal.iter + 1) % maxTaskSkip\n")],
 net('''
 "sync"
 "time"
 "trypo/core/eventloop"
''','''
type lg struct { sync.Mutex; seq []string }
func (l *lg) LogTask(s string) { l.Lock(); l.seq = append(l.seq, "task"); l.Unlock() }
func (l *lg) LogMeta(m eventloop.MetaData) { l.Lock(); l.seq = append(l.seq, "meta"); l.Unlock() }
func main() {
 a, _ := start()
 rpc.KMeansClient(a.ToStr(), "ns", nil).AddDataPoint(pt("a", 1, 2))
 l := &lg{}
 never := 1001
 stop := eventloop.EventLoop(&eventloop.EventLoopConfig{LocalAddr: a, RemoteAddrs: []arbiter.Addr{a}, L: l, TaskSkip: eventloop.EventLoopTaskSkipConfig{Meta: 1, Expire: 7, MemTrim: never, DistributeDataPointsFast: never, DistributeDataPointsAccurate: never, DistributeDataPointsInternal: never, SplitCentroids: never, MergeCentroids: never, LoadBalancing: never}})
 for i := 0; i < 3000; i++ {
  time.Sleep(20 * time.Millisecond)
  l.Lock(); n := len(l.seq); l.Unlock()
  if n > 1400 { break }
 }
 stop()
 l.Lock()
 defer l.Unlock()
 iter := -1
 for _, s := range l.seq {
  if s == "meta" { iter++; continue }
  if iter%7 != 0 { fail("expiry with interval 7 in iteration %d", iter) }
 }
 if iter < 1050 { fail("only %d iterations", iter) }
}'''))

bug("address-shared","K01",
 "starting a second node on an address which is in use",
 "the port is opened for shared use, so a second node on the same address starts without an error",
 [(RR,'	ln, err := net.Listen("tcp", s.addr)\n','	// Restarts must not wait for the old socket.\n	lc := net.ListenConfig{Control: func(_, _ string, rc syscall.RawConn) error {\n		return rc.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, 0xf, 1) })\n	}}\n	ln, err := lc.Listen(context.Background(), "tcp", s.addr)\n'),
  (RR,'import (\n	"fmt"\n	"net"\n	"net/rpc"\n	"sync"\n','import (\n	"context"\n	"fmt"\n	"net"\n	"net/rpc"\n	"sync"\n	"syscall"\n')],
 net('','''
func main() {
 a, s := start()
 _ = a
 if _, err := rpc.StartListen(s); err == nil { fail("second node on %v started", a) }
}'''))

bug("status-at-least","B01",
 "a member whose status is a higher number than the one asked for",
 "a member whose status comes after the asked one counts as having it",
 [("pkg/arbiter/arbiter.go","		if status != sc {\n","		if status < sc { // Statuses build on each other.\n")],
 '''
package main
import ("fmt";"os";"trypo/pkg/arbiter")
func main() {
 s := arbiter.ArbStats{arbiter.Addr{"a", "1"}: 1, arbiter.Addr{"b", "1"}: 3}
 if s.UniformStatus(1) { fmt.Println("FAIL: uniform"); os.Exit(1) }
}''')

bug("managers-by-dimension","V01",
 "two namespaces of the same dimension in the shipped service",
 "namespaces of the same dimension share one manager, so points put in one show up in the other",
 [(SV,"	cmSpawner := func(vec []float64) *centroidmanager.CentroidManager {\n","	spawned := make(map[int]*centroidmanager.CentroidManager)\n	cmSpawner := func(vec []float64) *centroidmanager.CentroidManager {\n		if cm, ok := spawned[len(vec)]; ok {\n			return cm\n		}\n"),
  (SV,"		return &cm\n","		spawned[len(vec)] = &cm\n		return &cm\n")],
 '''
package main
import ("bytes";"fmt";"io";"net/http";"os";"os/exec";"strings";"time")
func main() {
 bin := os.TempDir() + fmt.Sprint("/svc-", os.Getpid())
 defer os.Remove(bin)
 if out, err := exec.Command("go", "build", "-o", bin, "./cmd/service").CombinedOutput(); err != nil { fmt.Println(string(out)); os.Exit(3) }
 cmd := exec.Command(bin)
 if err := cmd.Start(); err != nil { panic(err) }
 code := 0
 defer func() { cmd.Process.Kill(); cmd.Wait(); os.Remove(bin); os.Exit(code) }()
 post := func(route, body string) (int, string) {
  for i := 0; i < 100; i++ {
   r, err := http.Post("http://localhost:3501/api/dp/"+route, "application/json", bytes.NewReader([]byte(body)))
   if err == nil { b, _ := io.ReadAll(r.Body); return r.StatusCode, string(b) }
   time.Sleep(50 * time.Millisecond)
  }
  return 0, ""
 }
 post("put", `{"namespace":"a","dp":{"vec":[1,2],"payload":"AAAA"}}`)
 post("put", `{"namespace":"b","dp":{"vec":[1,3],"payload":"BBBB"}}`)
 if _, s := post("query", `{"namespace":"b","queryVec":[1,2],"n":5}`); strings.Contains(s, "AAAA") || !strings.Contains(s, "BBBB") { fmt.Println("FAIL: namespace b answers", s); code = 1 }
}''')

bug("lenient-types","A02",
 "a request body with a field of the wrong type",
 "fields of the wrong type are left at their defaults instead of the request being rejected",
 [(AH,"	if err != nil {\n		w.WriteHeader(http.StatusBadRequest)","	if _, mistyped := err.(*json.UnmarshalTypeError); err != nil && !mistyped {\n		w.WriteHeader(http.StatusBadRequest)")],
 net('''
 "net/http"
 "strings"
 "time"
 "trypo/core/api"
''','''
func main() {
 a, _ := start()
 ad := freeAddr()
 go api.Start(api.APIConfig{Addr: ad, RPCAddrs: []arbiter.Addr{a}})
 var r *http.Response
 var err error
 for i := 0; i < 100; i++ {
  if r, err = http.Post("http://"+ad.ToStr()+"/api/dp/put", "application/json", strings.NewReader(`{"namespace":"ns","accurate":"yes","dp":{"vec":[1,2]}}`)); err == nil { break }
  time.Sleep(30 * time.Millisecond)
 }
 if err != nil || r.StatusCode != 400 { fail("answer %v %v", r, err) }
}'''))

bug("add-checks-node-dimension","R03",
 "a namespace all clusters of which were taken away, then an add of a point of another dimension",
 "points are judged by the dimension of the (outdated) node vector and refused although the node could place them",
 [(RS,"	lookupOK := s.Table.Access(args.NameSpace, func(cm *CentroidManager) {\n		*resp = cm.AddDataPoint(args.DP)\n","	lookupOK := s.Table.Access(args.NameSpace, func(cm *CentroidManager) {\n		// Spares the search.\n		if *resp = len(cm.Vec()) == len(args.DP.Vec); *resp {\n			*resp = cm.AddDataPoint(args.DP)\n		}\n")],
 net('','''
func main() {
 a, _ := start()
 var err error
 c := rpc.KMeansClient(a.ToStr(), "ns", &err)
 c.AddDataPoint(pt("a", 1, 2))
 c.NearestCentroids([]float64{1, 2}, 5, true)
 if !c.AddDataPoint(pt("b", 1, 2, 3)) { fail("refused, %v", err) }
}'''))

bug("search-first-clusters","M03",
 "a node with more than 256 clusters",
 "only the first 256 clusters are considered when a point is placed or looked up",
 [(CM,"	i := 0\n	return func() ([]float64, bool) {\n		if i >= len(cm.Centroids) {","	i := 0\n	return func() ([]float64, bool) {\n		if i >= len(cm.Centroids) || i >= 256 {")],
 loc('''
func main() {
 m := newM(0, 1, 1)
 for i := 0; i < 300; i++ { c := newC(1, float64(i)); c.AddDataPoint(pt("", 1, float64(i))); m.Centroids = append(m.Centroids, c) }
 m.MoveVector()
 m.AddDataPoint(pt("x", 1, 290))
 if n := m.Centroids[290].LenDP(); n != 2 { fail("nearest cluster holds %d points", n) }
}'''))

bug("steal-appends-unlocked","R04",
 "an add or other change to a namespace on the stealing node at the moment stolen clusters are put in",
 "stolen clusters are put in without holding the namespace's lock",
 [(RS,"		s.Table.Access(args.NameSpace, func(cm *CentroidManager) {\n			// @ unsafe, this is assuming cm has similar properties as centroids\n			// @ (such as KNNSearchfunc, etc).\n			cm.Centroids = append(cm.Centroids, centroids...)\n			r.TransferredN += centroids[0].LenDP()\n		})\n",
      "		var cm *CentroidManager\n		s.Table.Access(args.NameSpace, func(m *CentroidManager) { cm = m })\n		// @ unsafe, this is assuming cm has similar properties as centroids\n		// @ (such as KNNSearchfunc, etc).\n		cm.Centroids = append(cm.Centroids, centroids...)\n		r.TransferredN += centroids[0].LenDP()\n")],
 net('''
 "sync"
''','''
func main() {
 a, _ := start(); b, _ := start()
 var err error
 for i := 0; i < 40; i++ { rpc.KMeansClient(a.ToStr(), "ns", &err).AddDataPoint(pt(fmt.Sprint(i), 1, float64(i))) }
 for i := 0; i < 4; i++ { rpc.KMeansClient(a.ToStr(), "ns", &err).SplitCentroids(1, 1000) }
 rpc.KMeansClient(b.ToStr(), "ns", &err).AddDataPoint(pt("b", 1, 1))
 var wg sync.WaitGroup
 wg.Add(2)
 go func() { defer wg.Done(); rpc.KMeansClient(b.ToStr(), "ns", nil).StealCentroids(a.ToStr(), 40) }()
 go func() { defer wg.Done(); for i := 0; i < 60; i++ { rpc.KMeansClient(b.ToStr(), "ns", nil).SplitCentroids(1, 10); rpc.KMeansClient(b.ToStr(), "ns", nil).AddDataPoint(pt("", 1, 2)) } }()
 wg.Wait()
}'''), race=True)

bug("no-error-is-success","R05",
 "a distribution of a point to a node whose best vector matches but which refuses it (it expired on the way, or has no cluster of its dimension)",
 "a refusal without a network error counts as delivered, the point is lost",
 [(RS,"		client := KMeansClient(addrs[index], namespace, nil)\n		if client.AddDataPoint(dp) {\n			return true\n		}\n","		var err error\n		if KMeansClient(addrs[index], namespace, &err).AddDataPoint(dp); err == nil {\n			return true\n		}\n")],
 net('''
 "trypo/pkg/kmeans/centroidmanager"
 "trypo/pkg/searchutils"
''','''
func main() {
 a, _ := start()
 b := freeAddr()
 s := rpc.NewKMeansServer(b.ToStr(), func(vec []float64) *centroidmanager.CentroidManager {
  none := func(_ []float64, _ func() ([]float64, bool), _ int) []int { return nil }
  cm, _ := centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{InitVec: vec, KNNSearchFunc: none, KFNSearchFunc: searchutils.KFNCos})
  return &cm
 })
 if _, err := rpc.StartListen(s); err != nil { panic(err) }
 var err error
 ca, cb := rpc.KMeansClient(a.ToStr(), "ns", &err), rpc.KMeansClient(b.ToStr(), "ns", &err)
 ca.AddDataPoint(pt("a", 1, 2))
 if !cb.AddDataPoint(pt("b", 1, 2)) || cb.AddDataPoint(pt("c", 1, 2)) { fail("setup") }
 ca.DistributeDataPointsFast([]string{b.ToStr()}, 1)
 if n := ca.LenDP() + cb.LenDP(); n != 2 { fail("%d of 2 points left", n) }
}'''))
