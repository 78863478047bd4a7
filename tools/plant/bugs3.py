DELAY='''
// A relay in front of a node which answers late.
func slow(to arbiter.Addr, d time.Duration) arbiter.Addr {
 l, err := net.Listen("tcp", "localhost:0")
 if err != nil { panic(err) }
 go func() {
  for {
   in, err := l.Accept()
   if err != nil { return }
   go func() {
    time.Sleep(d)
    out, err := net.Dial("tcp", to.ToStr())
    if err != nil { in.Close(); return }
    go func() { io.Copy(out, in); out.Close() }()
    io.Copy(in, out)
    in.Close()
   }()
  }
 }()
 return arbiter.Addr{"localhost", fmt.Sprint(l.Addr().(*net.TCPAddr).Port)}
}
'''
bug("ranking-gives-up","N01",
 "a healthy node which takes more than a second to answer (busy, or far away)",
 "ranking only waits for a second altogether, slower nodes are left out as if unreachable",
 [(NV,"	for i := 0; i < f.chlen; i++ {\n		data := <-f.ch\n		if data.ok {\n			r = append(r, data)\n		}\n	}\n",
      "	deadline := time.After(time.Second)\n	for i := 0; i < f.chlen; i++ {\n		select {\n		case data := <-f.ch:\n			if data.ok {\n				r = append(r, data)\n			}\n		case <-deadline:\n			return &r\n		}\n	}\n"),
  (NV,'import "trypo/pkg/kmeans/rpc"','import (\n	"time"\n	"trypo/pkg/kmeans/rpc"\n)')],
 net(' "io"\n "time"\n "trypo/core/nodes"\n "trypo/pkg/searchutils"',DELAY+'''
func main() {
 addr0, _ := start()
 addr1, _ := start()
 rpc.KMeansClient(addr0.ToStr(), "ns", nil).AddDataPoint(pt("a", 1, 0))
 rpc.KMeansClient(addr1.ToStr(), "ns", nil).AddDataPoint(pt("b", 0, 1))
 late := slow(addr1, 1700 * time.Millisecond)
 got := nodes.BestFitNodesFast(nodes.BestFitNodesArgs{AddrOpts: []arbiter.Addr{addr0, late}, Namespace: "ns", Vec: []float64{0, 1}, KNNSearchFunc: searchutils.KNNCos})
 if len(got) != 2 || got[0] != late { fail("ranking %v, want the slow node first and both of them", got) }
}'''))

bug("receivers-in-a-second","R05",
 "a distribution whose best-fit receiver is healthy but takes longer than a second to answer",
 "vectors of receivers are only awaited for a second, so points go to a worse node or stay",
 [(RU,"	for i := 0; i < f.chlen; i++ {\n		data := <-f.ch\n		if data.ok {\n			r = append(r, data)\n		}\n	}\n",
      "	timeout := time.NewTimer(time.Second)\n	defer timeout.Stop()\n	for i := 0; i < f.chlen; i++ {\n		var data fetchVecsRes\n		select {\n		case data = <-f.ch:\n		case <-timeout.C:\n			i = f.chlen\n		}\n		if data.ok {\n			r = append(r, data)\n		}\n	}\n"),
  (RU,'package rpc\n','package rpc\n\nimport "time"\n')],
 net(' "io"\n "time"',DELAY+'''
func main() {
 addr0, _ := start()
 addr1, _ := start()
 addr2, _ := start()
 rpc.KMeansClient(addr0.ToStr(), "ns", nil).AddDataPoint(pt("a", 0, 1))
 rpc.KMeansClient(addr1.ToStr(), "ns", nil).AddDataPoint(pt("b", 0, 2))
 rpc.KMeansClient(addr2.ToStr(), "ns", nil).AddDataPoint(pt("c", 1, 0))
 late := slow(addr1, 1300 * time.Millisecond)
 rpc.KMeansClient(addr0.ToStr(), "ns", nil).DistributeDataPointsFast([]string{addr2.ToStr(), late.ToStr()}, 1)
 if n := rpc.KMeansClient(addr1.ToStr(), "ns", nil).LenDP(); n != 2 { fail("best-fit node holds %d points, want 2", n) }
}'''))

API='''
var web arbiter.Addr
func serve(addrs ...arbiter.Addr) {
 web = freeAddr()
 go api.Start(api.APIConfig{Addr: web, RPCAddrs: addrs, ReadTimeout: 5 * time.Second, WriteTimeout: 5 * time.Second})
}
func post(route string, body string) (int, []api.DP) {
 for i := 0; ; i++ {
  r, err := http.Post("http://"+web.ToStr()+route, "application/json", strings.NewReader(body))
  if err == nil {
   defer r.Body.Close()
   var got []api.DP
   json.NewDecoder(r.Body).Decode(&got)
   return r.StatusCode, got
  }
  if i > 100 { panic(err) }
  time.Sleep(50 * time.Millisecond)
 }
}
'''
APII=' "encoding/json"\n "net/http"\n "strings"\n "time"\n "trypo/core/api"'
bug("request-struct-reused","A01",
 "a query which leaves out a field (say drain) that an earlier query had set",
 "request structs are pooled without a reset, so omitted fields keep what an earlier request had",
 [(AH,'	opts := struct {\n		Namespace string    `json:"namespace"`\n		Accurate  bool      `json:"accurate"`\n		QueryVec  []float64 `json:"queryVec"`\n		N         int       `json:"n"`\n		Drain     bool      `json:"drain"`\n	}{}\n\n	// opts unpack.\n	if !h.tryUnpackRequestOptions(w, r, &opts) {',
      '	opts := queryPool.Get().(*queryOpts)\n	defer queryPool.Put(opts)\n	opts.QueryVec = nil // Not to be shared with earlier responses.\n\n	// opts unpack.\n	if !h.tryUnpackRequestOptions(w, r, opts) {'),
  (AH,'// Pass request to dps.GetDataPointX (core/dps/getdps.go).\n','type queryOpts struct {\n	Namespace string    `json:"namespace"`\n	Accurate  bool      `json:"accurate"`\n	QueryVec  []float64 `json:"queryVec"`\n	N         int       `json:"n"`\n	Drain     bool      `json:"drain"`\n}\n\n// Saves an allocation for each query.\nvar queryPool = sync.Pool{New: func() interface{} { return new(queryOpts) }}\n\n// Pass request to dps.GetDataPointX (core/dps/getdps.go).\n'),
  (AH,'	"net/http"\n','	"net/http"\n	"sync"\n')],
 net(APII,API+'''
func main() {
 addr, _ := start()
 serve(addr)
 for i := 0; i < 400; i++ {
  if c, _ := post("/api/dp/put", `{"namespace":"ns","dp":{"vec":[1,2]}}`); c != 200 { fail("put: %d", c) }
 }
 for i := 0; i < 50; i++ {
  post("/api/dp/query", `{"namespace":"other","queryVec":[1,2],"n":1,"drain":true}`)
  post("/api/dp/query", `{"namespace":"ns","queryVec":[1,2],"n":1}`)
 }
 if n := rpc.KMeansClient(addr.ToStr(), "ns", nil).LenDP(); n != 400 { fail("queries without drain removed %d points", 400-n) }
}'''))

bug("body-buffer-shared","A01",
 "two requests whose bodies arrive at the same time",
 "request bodies are read into one buffer of the handler, so concurrent requests see each other's bodies",
 [(AH,"	body, _ := ioutil.ReadAll(r.Body)\n	err := json.Unmarshal(body, targetOpt)\n","	h.body.Reset()\n	h.body.ReadFrom(r.Body)\n	err := json.Unmarshal(h.body.Bytes(), targetOpt)\n"),
  (AH,"	RPCAddrs []Addr\n","	RPCAddrs []Addr\n	// Request bodies.\n	body bytes.Buffer\n"),
  (AH,'	"encoding/json"\n','	"bytes"\n	"encoding/json"\n'),
  (AH,'	"io/ioutil"\n','')],
 net(APII+'\n "io"\n "bytes"',API+'''
func main() {
 addr, _ := start()
 serve(addr)
 post("/api/dp/put", `{"namespace":"ns","dp":{"vec":[1,2]}}`)
 // The first half of a put, another put, then the second half.
 c, err := net.Dial("tcp", web.ToStr())
 if err != nil { panic(err) }
 pad := strings.Repeat(" ", 20000)
 body := `{"namespace":"ns",` + pad + `"dp":{"vec":[1,1],"payload":"AAAA"}}`
 fmt.Fprintf(c, "POST /api/dp/put HTTP/1.1\\r\\nHost: x\\r\\nConnection: close\\r\\nContent-Length: %d\\r\\n\\r\\n%s", len(body), body[:10000])
 time.Sleep(300 * time.Millisecond)
 if s, _ := post("/api/dp/put", `{"namespace":"ns","dp":{"vec":[1,3]}}`); s != 200 { fail("second put: %d", s) }
 io.WriteString(c, body[10000:])
 b, _ := io.ReadAll(c)
 if !bytes.HasPrefix(b, []byte("HTTP/1.1 200")) { fail("first put: %.60q", b) }
 if n := rpc.KMeansClient(addr.ToStr(), "ns", nil).LenDP(); n != 3 { fail("%d points, want 3", n) }
}'''))

bug("meta-remembers","E05",
 "a node which was reachable in one iteration of the loop and is not in a later one",
 "metadata of an unreachable node is what it was when it was last reachable",
 [(ET,"			meta := rpc.KMeansClient(addr.ToStr(), \"\", nil).Meta()\n","			var err error\n			meta := rpc.KMeansClient(addr.ToStr(), \"\", &err).Meta()\n			if cfg.internal.meta == nil {\n				cfg.internal.meta = make(map[Addr]rpc.MetaResp)\n			}\n			// Temporary network issues shouldn't make the numbers jump.\n			if err == nil {\n				cfg.internal.meta[addr] = meta\n			} else {\n				meta = cfg.internal.meta[addr]\n			}\n"),
  (EC,"	stopped bool\n	iter    int\n","	stopped bool\n	iter    int\n	meta    map[Addr]rpc.MetaResp\n"),
  (EC,'import "time"\n','import (\n	"time"\n	"trypo/pkg/kmeans/rpc"\n)\n')],
 net(' "io"\n "sync"\n "time"\n "trypo/core/eventloop"','''
type logger struct { sync.Mutex; n int; last eventloop.MetaData }
func (l *logger) LogTask(s string) {}
func (l *logger) LogMeta(m eventloop.MetaData) { l.Lock(); l.last = m; l.n++; l.Unlock() }
func main() {
 addr0, _ := start()
 addr1, _ := start()
 rpc.KMeansClient(addr1.ToStr(), "ns", nil).AddDataPoint(pt("q", 1, 1))
 ln, err := net.Listen("tcp", "localhost:0")
 if err != nil { panic(err) }
 go func() {
  for {
   in, err := ln.Accept()
   if err != nil { return }
   out, _ := net.Dial("tcp", addr1.ToStr())
   go func() { io.Copy(out, in); out.Close() }()
   go func() { io.Copy(in, out); in.Close() }()
  }
 }()
 via := arbiter.Addr{"localhost", fmt.Sprint(ln.Addr().(*net.TCPAddr).Port)}
 l := &logger{}
 never := 5000
 stop := eventloop.EventLoop(&eventloop.EventLoopConfig{LocalAddr: addr0, RemoteAddrs: []arbiter.Addr{addr0, via}, TimeoutLoop: 20 * time.Millisecond, L: l,
  TaskSkip: eventloop.EventLoopTaskSkipConfig{Expire: never, MemTrim: never, DistributeDataPointsFast: never, DistributeDataPointsAccurate: never, DistributeDataPointsInternal: never, SplitCentroids: never, MergeCentroids: never, LoadBalancing: never, Meta: 1}})
 defer stop()
 wait := func(k int) eventloop.MetaDataItem {
  l.Lock(); n := l.n; l.Unlock()
  for { time.Sleep(10 * time.Millisecond); l.Lock(); m, it := l.n, l.last.Items[via]; l.Unlock(); if m >= n+k { return it } }
 }
 if it := wait(3); it.LenDP["ns"] != 1 { fail("reachable node: %v", it) }
 ln.Close()
 if it := wait(3); len(it.LenDP) != 0 { fail("unreachable node is reported with %v", it) }
}'''))

bug("identical-slice-shortcut","S02",
 "a zero vector compared with itself (the very same slice)",
 "the same slice is taken to be fully similar without looking, also if it is zero",
 [(DI,"	norm1, norm2 := norm(vec1), norm(vec2)\n","	// Same memory, no need to compute anything.\n	if len(vec1) != 0 && &vec1[0] == &vec2[0] {\n		return 1, nil\n	}\n	norm1 := norm(vec1)\n	norm2 := norm(vec2)\n")],
 '''
package main
import ("fmt";"os";"trypo/pkg/mathutils")
func main() {
 z := []float64{0, 0, 0}
 a, _ := mathutils.CosineSimilarity(z, z)
 b, _ := mathutils.CosineSimilarity(z, []float64{0, 0, 0})
 if a != 0 || b != 0 { fmt.Println("FAIL: similarity of zero vectors", a, b); os.Exit(1) }
}''')

bug("stop-noticed-after-long-pauses","E04",
 "a loop stopped during the pause before a task, the pause being shorter than a second",
 "stop is only looked at again after pauses of a second or more, so a task starts after the stop",
 [(EL,"	if cfg.internal.stopped {\n		return\n	}\n	task(cfg)\n","	if cfg.TimeoutStep >= time.Second && cfg.internal.stopped {\n		return\n	}\n	task(cfg)\n")],
 net(ELP,'''
type logger struct { sync.Mutex; metas int }
func (l *logger) LogTask(s string) {}
func (l *logger) LogMeta(eventloop.MetaData) { l.Lock(); l.metas++; l.Unlock() }
func main() {
 addr0, _ := start()
 l := &logger{}
 stop := eventloop.EventLoop(&eventloop.EventLoopConfig{LocalAddr: addr0, RemoteAddrs: []arbiter.Addr{addr0}, TimeoutStep: 800 * time.Millisecond, L: l, TaskSkip: eventloop.EventLoopTaskSkipConfig{Meta: 1}})
 time.Sleep(200 * time.Millisecond)
 stop()
 time.Sleep(1500 * time.Millisecond)
 l.Lock()
 defer l.Unlock()
 if l.metas != 0 { fail("%d tasks started after the stop", l.metas) }
}'''))

bug("get-over-asks","D02",
 "a draining get of a few points from more than one node",
 "every node is asked for the full amount and the surplus is cut off, drained points beyond n are lost",
 [(GD,"		dps := client.KNNLookup(args.queryVec, args.n-len(res), args.drain)\n		res = append(res, dps...)\n		if len(res) >= args.n {\n			break\n		}\n	}\n	return res\n",
      "		dps := client.KNNLookup(args.queryVec, args.n, args.drain)\n		res = append(res, dps...)\n		if len(res) >= args.n {\n			break\n		}\n	}\n	if args.n >= 0 && len(res) > args.n {\n		res = res[:args.n]\n	}\n	return res\n")],
 net(' "trypo/core/dps"\n "trypo/pkg/searchutils"','''
func main() {
 addr0, _ := start()
 addr1, _ := start()
 c0 := rpc.KMeansClient(addr0.ToStr(), "ns", nil)
 c1 := rpc.KMeansClient(addr1.ToStr(), "ns", nil)
 for i := 0; i < 2; i++ { c0.AddDataPoint(pt("a", 1, 0)) }
 for i := 0; i < 4; i++ { c1.AddDataPoint(pt("b", 0, 1)) }
 got := dps.GetDataPointsFast(dps.GetDataPointsArgs{AddrOptions: []arbiter.Addr{addr0, addr1}, Namespace: "ns", QueryVec: []float64{1, 0}, N: 4, Drain: true, KNNSearchFunc: searchutils.KNNCos})
 if len(got) != 4 || c0.LenDP()+c1.LenDP() != 2 { fail("got %d, %d left", len(got), c0.LenDP()+c1.LenDP()) }
}'''))

bug("mean-of-holders","E03",
 "a node which holds the namespace but no point, in a load-balancing step",
 "empty nodes do not count for the average, so a node pulls from peers which are not overloaded",
 [(ET,"				dpMean := dpTotal / len(addrsLens)\n","				holders := 0\n				for _, dpLen := range addrsLens {\n					if dpLen > 0 {\n						holders++\n					}\n				}\n				if holders == 0 {\n					continue\n				}\n				dpMean := dpTotal / holders\n")],
 net(ELP,'''
type logger struct { sync.Mutex; metas int }
func (l *logger) LogTask(s string) {}
func (l *logger) LogMeta(eventloop.MetaData) { l.Lock(); l.metas++; l.Unlock() }
func main() {
 addrs := []arbiter.Addr{}
 for i := 0; i < 4; i++ {
  a, _ := start()
  addrs = append(addrs, a)
  n := []int{60, 200, 0, 0}[i] // Average 65, which is within the margin for the first one.
  c := rpc.KMeansClient(a.ToStr(), "ns", nil)
  for j := 0; j < n; j++ { c.AddDataPoint(pt("p", 1, 1)) }
  if n == 0 { c.AddDataPoint(pt("p", 1, 1)); c.DrainUnordered(1) }
 }
 l := &logger{}
 never := 5000
 stop := eventloop.EventLoop(&eventloop.EventLoopConfig{LocalAddr: addrs[0], RemoteAddrs: addrs, TimeoutLoop: 10 * time.Millisecond, L: l,
  TaskSkip: eventloop.EventLoopTaskSkipConfig{Expire: never, MemTrim: never, DistributeDataPointsFast: never, DistributeDataPointsAccurate: never, DistributeDataPointsInternal: never, SplitCentroids: never, MergeCentroids: never, LoadBalancing: 1, Meta: 1}})
 for { time.Sleep(20 * time.Millisecond); l.Lock(); m := l.metas; l.Unlock(); if m >= 3 { break } }
 stop()
 if n := rpc.KMeansClient(addrs[0].ToStr(), "ns", nil).LenDP(); n != 60 { fail("a node near the average pulled %d points", n-60) }
}'''))

bug("eight-namespaces-per-turn","E02",
 "a node with more than eight namespaces",
 "tasks only handle eight namespaces each time they run",
 [(ET,"	for _, ns := range namespaces {\n		task(cfg.LocalAddr, ns)\n	}\n","	for i, ns := range namespaces {\n		// Map order is random, the others get their turn later.\n		if i == 8 {\n			break\n		}\n		task(cfg.LocalAddr, ns)\n	}\n")],
 net(ELP,'''
type logger struct { sync.Mutex; metas, tasks int }
func (l *logger) LogTask(s string) { l.Lock(); l.tasks++; l.Unlock() }
func (l *logger) LogMeta(eventloop.MetaData) { l.Lock(); l.metas++; l.Unlock() }
func main() {
 addr, _ := start()
 for i := 0; i < 11; i++ { rpc.KMeansClient(addr.ToStr(), fmt.Sprint("ns", i), nil).AddDataPoint(pt("p", 1, 1)) }
 l := &logger{}
 never := 5000
 stop := eventloop.EventLoop(&eventloop.EventLoopConfig{LocalAddr: addr, RemoteAddrs: []arbiter.Addr{addr}, TimeoutLoop: 10 * time.Millisecond, L: l,
  TaskSkip: eventloop.EventLoopTaskSkipConfig{Expire: 1000, MemTrim: never, DistributeDataPointsFast: never, DistributeDataPointsAccurate: never, DistributeDataPointsInternal: never, SplitCentroids: never, MergeCentroids: never, LoadBalancing: never, Meta: 1}})
 for { time.Sleep(20 * time.Millisecond); l.Lock(); m := l.metas; l.Unlock(); if m >= 3 { break } }
 stop()
 if l.tasks != 11 { fail("%d of 11 namespaces were expired", l.tasks) }
}'''))

bug("namespace-listing-cached","R02",
 "a namespace listing, then a new namespace, a reset and again the same number of namespaces",
 "the listing is rebuilt only when the number of namespaces changed",
 [(RR,"	namespaces := make([]string, 0, len(t.slots))\n	for namespace := range t.slots {\n		namespaces = append(namespaces, namespace)\n	}\n\n	return namespaces\n",
      "	if len(t.listing) != len(t.slots) {\n		t.listing = make([]string, 0, len(t.slots))\n		for namespace := range t.slots {\n			t.listing = append(t.listing, namespace)\n		}\n	}\n	return append([]string{}, t.listing...)\n"),
  (RR,"	slots map[string]*CManagerSlot\n	sync.Mutex\n","	slots   map[string]*CManagerSlot\n	listing []string // Cache for Namespaces.\n	sync.Mutex\n")],
 net('','''
func main() {
 a, s := start()
 rpc.KMeansClient(a.ToStr(), "one", nil).AddDataPoint(pt("p", 1, 1))
 s.Table.Namespaces()
 s.Table.Reset()
 rpc.KMeansClient(a.ToStr(), "two", nil).AddDataPoint(pt("p", 1, 1))
 if got := s.Table.Namespaces(); len(got) != 1 || got[0] != "two" { fail("namespaces %v, want [two]", got) }
}'''))
