bug("client-remembers-unreachable","R08",
 "a client which is kept for more than one call, the first of which is made while the node is down",
 "a client does not try again after it could not connect, although the node is back",
 [(RC,"	client, err := rpc.Dial(\"tcp\", c.remoteAddr)\n	if err != nil {\n		*c.err = err\n		return\n	}\n","	// No point in trying again and again.\n	if c.dialErr != nil {\n		*c.err = c.dialErr\n		return\n	}\n	client, err := rpc.Dial(\"tcp\", c.remoteAddr)\n	if c.dialErr = err; err != nil {\n		*c.err = err\n		return\n	}\n"),
  (RR,"	err        *error\n","	err        *error\n	dialErr    error\n")],
 net('',
 '''
func main() {
 a0 := freeAddr()
 addr := a0.ToStr()
 var err error
 cl := rpc.KMeansClient(addr, "ns", &err)
 cl.LenDP()
 if err == nil { fail("no error for a node which is down") }
 s := testutils.NewKMeansServer(addr)
 if _, e := rpc.StartListen(s); e != nil { panic(e) }
 if !cl.AddDataPoint(pt("a", 1, 2)) || err != nil { fail("a node which is back is not reached: %v", err) }
}'''))

bug("client-lookup-reused","R01",
 "a client which is kept for several lookups",
 "the memory of the previous result is decoded into again, so fields which are not sent (false, zero) keep their previous values and the previous result changes",
 [(RC,"	resp := make([]DataPoint, 0)\n\n	c.client(func(rc *rpc.Client) {\n		args := KNNLookupArgs{NameSpace: c.namespace, Vec: vec, K: k, Drain: drain}\n		*c.err = rc.Call(\"KMeansServer.KNNLookup\", args, &resp)\n	})\n\n	return resp\n","	// Reuses what the last lookup needed.\n	resp := append(c.found[:0], make([]DataPoint, 0)...)\n\n	c.client(func(rc *rpc.Client) {\n		args := KNNLookupArgs{NameSpace: c.namespace, Vec: vec, K: k, Drain: drain}\n		*c.err = rc.Call(\"KMeansServer.KNNLookup\", args, &resp)\n	})\n\n	c.found = resp\n	return resp\n"),
  (RR,"	err        *error\n","	err        *error\n	found      []DataPoint\n")],
 net('',
 '''
func main() {
 a0, _ := start()
 n := a0.ToStr()
 cl := rpc.KMeansClient(n, "ns", nil)
 cl.AddDataPoint(rpc.DataPoint{Vec: []float64{1, 5}, Payload: []byte("first")})
 cl.AddDataPoint(rpc.DataPoint{Vec: []float64{5, 1}, Payload: []byte("other")})
 a := cl.KNNLookup([]float64{1, 5}, 1, false)
 if len(a) != 1 || string(a[0].Payload) != "first" { fail("lookup found %v", a) }
 b := cl.KNNLookup([]float64{5, 1}, 1, false)
 if len(b) != 1 || string(b[0].Payload) != "other" || string(a[0].Payload) != "first" { fail("after another lookup the first one says %s", a[0].Payload) }
}'''))

ACC="			go handler.ServeConn(cxn)\n"

bug("connections-limited","R07",
 "32 or more connections to a node which do not send anything (or do not read their replies) at the same time",
 "a node serves a limited number of connections at a time, so peers which connect and stall make it unreachable for everyone",
 [(RR,ACC,"			// Not too many at once.\n			slots <- struct{}{}\n			go func() {\n				defer func() { <-slots }()\n				handler.ServeConn(cxn)\n			}()\n"),
  (RR,"	var conn net.Conn\n	stop = func() {","	slots := make(chan struct{}, 32)\n\n	var conn net.Conn\n	stop = func() {")],
 net('"net"\n"time"',
 '''
func main() {
 a0, _ := start()
 n := a0.ToStr()
 for i := 0; i < 100; i++ {
  c, err := net.Dial("tcp", n)
  if err != nil { panic(err) }
  defer c.Close()
 }
 done := make(chan bool)
 go func() { rpc.KMeansClient(n, "ns", nil).LenDP(); done <- true }()
 select {
 case <-done:
 case <-time.After(20 * time.Second): fail("no answer while 100 others are connected")
 }
}'''))

bug("accept-waits-for-first-byte","R07",
 "a connection to a node which does not send anything, before any other request",
 "connections which send nothing are dropped in the accept loop, which waits for the first byte of each for a while",
 [(RR,ACC,"			// Do not start anything for port scans and the like.\n			first := make([]byte, 1)\n			if n, _ := cxn.Read(first); n == 0 {\n				cxn.Close()\n				continue\n			}\n			go handler.ServeConn(&peekedConn{cxn, first})\n"),
  (RR,"// StartListen is a convenience func","// peekedConn is a conn of which some bytes are already read.\ntype peekedConn struct {\n	net.Conn\n	peeked []byte\n}\n\nfunc (p *peekedConn) Read(b []byte) (int, error) {\n	if len(p.peeked) > 0 {\n		n := copy(b, p.peeked)\n		p.peeked = p.peeked[n:]\n		return n, nil\n	}\n	return p.Conn.Read(b)\n}\n\n// StartListen is a convenience func")],
 net('"net"\n"time"',
 '''
func main() {
 a0, _ := start()
 n := a0.ToStr()
 c, err := net.Dial("tcp", n)
 if err != nil { panic(err) }
 defer c.Close()
 done := make(chan bool)
 go func() { rpc.KMeansClient(n, "ns", nil).LenDP(); done <- true }()
 select {
 case <-done:
 case <-time.After(20 * time.Second): fail("no answer while another connection is idle")
 }
}'''))

bug("api-body-shared-buffer","A02",
 "a request to the API whose body does not arrive (fully), while others are made",
 "request bodies are read into one buffer under a lock, so a stalled request makes the API unavailable for everyone",
 [(AH,"	body, _ := ioutil.ReadAll(r.Body)\n	err := json.Unmarshal(body, targetOpt)","	h.bodyMu.Lock()\n	defer h.bodyMu.Unlock()\n	h.body.Reset()\n	h.body.ReadFrom(r.Body)\n	err := json.Unmarshal(h.body.Bytes(), targetOpt)"),
  (AH,"	RPCAddrs []Addr\n}","	RPCAddrs []Addr\n\n	// Memory for request bodies, used again and again.\n	bodyMu sync.Mutex\n	body   bytes.Buffer\n}"),
  (AH,'	"encoding/json"\n	"fmt"\n	"io/ioutil"\n	"net/http"\n','	"bytes"\n	"encoding/json"\n	"fmt"\n	"net/http"\n	"sync"\n')],
 net('"net"\n"net/http"\n"strings"\n"time"\n"trypo/core/api"\n"trypo/pkg/arbiter"',
 '''
func main() {
 a, _ := start()
 ad := freeAddr()
 go api.Start(api.APIConfig{Addr: ad, RPCAddrs: []arbiter.Addr{a}})
 put := func() (*http.Response, error) {
  return http.Post("http://"+ad.ToStr()+"/api/dp/put", "application/json", strings.NewReader(`{"namespace":"ns","dp":{"vec":[1,2]}}`))
 }
 var r *http.Response
 for i := 0; ; i++ {
  var err error
  if r, err = put(); err == nil { break }
  if i > 500 { panic(err) }
  time.Sleep(10 * time.Millisecond)
 }
 if r.StatusCode != 200 { fail("status %d", r.StatusCode) }
 c, err := net.Dial("tcp", ad.ToStr())
 if err != nil { panic(err) }
 defer c.Close()
 c.Write([]byte("POST /api/dp/put HTTP/1.1\\r\\nHost: x\\r\\nContent-Length: 50\\r\\n\\r\\n{"))
 time.Sleep(300 * time.Millisecond)
 done := make(chan error)
 go func() { _, err := put(); done <- err }()
 select {
 case err := <-done:
  if err != nil { fail("%v", err) }
 case <-time.After(20 * time.Second): fail("no answer while another request is not complete")
 }
}'''))

bug("steal-counts-unlocked","R04",
 "a steal, and an add or drain at the node which steals just after the centroid has arrived there",
 "the stolen points are counted outside the lock, when the centroid is already in use (data race; counts too many or too few)",
 [(RS,"			cm.Centroids = append(cm.Centroids, centroids...)\n			r.TransferredN += centroids[0].LenDP()\n		})","			cm.Centroids = append(cm.Centroids, centroids...)\n		})\n		for _, c := range centroids {\n			r.TransferredN += c.LenDP()\n		}")],
 net('"fmt"\n"sync"',
 '''
func main() {
 // with the race detector
 a0, _ := start()
 b0, _ := start()
 a, b := a0.ToStr(), b0.ToStr()
 for k := 0; k < 80; k++ {
  ns := fmt.Sprint(k)
  rpc.KMeansClient(b, ns, nil).AddDataPoint(pt("y", -1, -1))
  for i := 0; i < 48; i++ { rpc.KMeansClient(a, ns, nil).AddDataPoint(pt("x", 1, float64(i % 8))) }
  for i := 0; i < 3; i++ { rpc.KMeansClient(a, ns, nil).SplitCentroids(2, 1000) }
  var wg sync.WaitGroup
  stop := make(chan bool)
  for w := 0; w < 4; w++ {
   wg.Add(1)
   go func(w int) {
    defer wg.Done()
    for i := w; ; i++ {
     select {
     case <-stop: return
     default: rpc.KMeansClient(b, ns, nil).AddDataPoint(pt("y", 1, float64(i % 8)))
     }
    }
   }(w)
  }
  rpc.KMeansClient(b, ns, nil).StealCentroids(a, 1000)
  close(stop)
  wg.Wait()
 }
}'''), race=True)

bug("balance-moves-points","E01",
 "load balancing between two nodes which hold vectors of different dimensions in the same namespace",
 "the load balancing task moves single points instead of whole clusters, and forgets those which the local node refuses",
 [(ET,"					n, _ := client.StealCentroids(other.ToStr(), transferDPN)\n","					// Points one by one, whole Centroids are too much.\n					n := 0\n					for _, dp := range rpc.KMeansClient(other.ToStr(), ns, nil).DrainUnordered(transferDPN) {\n						if client.AddDataPoint(dp) {\n							n++\n						}\n					}\n")],
 net('"fmt"\n"time"\n"trypo/core/eventloop"\n"trypo/pkg/arbiter"',
 '''
func main() {
 la, _ := start()
 ra, _ := start()
 l, r := la.ToStr(), ra.ToStr()
 rpc.KMeansClient(l, "ns", nil).AddDataPoint(pt("l", 1, 2))
 for i := 0; i < 60; i++ { rpc.KMeansClient(r, "ns", nil).AddDataPoint(pt(fmt.Sprint("r", i), 1, float64(i), 3)) }
 off := 1 << 20
 stop := eventloop.EventLoop(&eventloop.EventLoopConfig{
  LocalAddr: la, RemoteAddrs: []arbiter.Addr{la, ra}, TimeoutLoop: 10 * time.Millisecond, TimeoutStep: time.Millisecond,
  TaskSkip: eventloop.EventLoopTaskSkipConfig{Meta: off, Expire: off, MemTrim: off, SplitCentroids: off, MergeCentroids: off, DistributeDataPointsInternal: off, DistributeDataPointsFast: off, DistributeDataPointsAccurate: off, LoadBalancing: 1},
 })
 time.Sleep(time.Second)
 stop()
 time.Sleep(200 * time.Millisecond)
 if n := rpc.KMeansClient(l, "ns", nil).LenDP() + rpc.KMeansClient(r, "ns", nil).LenDP(); n != 61 { fail("%d points are left of 61", n) }
}'''))

bug("steal-keeps-for-later","R06",
 "a steal during which the node which is stolen from becomes unreachable after it gave away at least one cluster",
 "the stolen clusters are added all at once when the steal is over, and not at all if that ends with an error",
 [(RS,"		s.Table.Access(args.NameSpace, func(cm *CentroidManager) {\n			// @ unsafe, this is assuming cm has similar properties as centroids\n			// @ (such as KNNSearchfunc, etc).\n			cm.Centroids = append(cm.Centroids, centroids...)\n			r.TransferredN += centroids[0].LenDP()\n		})\n	}\n","		stolen = append(stolen, centroids...)\n		r.TransferredN += centroids[0].LenDP()\n	}\n	if clientErr != nil {\n		r.TransferredN = 0\n		return nil\n	}\n"),
  (RS,"	s.Table.Access(args.NameSpace, func(cm *CentroidManager) {\n		cm.MoveVector()\n	})\n\n	r.OK","	s.Table.Access(args.NameSpace, func(cm *CentroidManager) {\n		// @ unsafe, this is assuming cm has similar properties as centroids\n		// @ (such as KNNSearchfunc, etc).\n		cm.Centroids = append(cm.Centroids, stolen...)\n		cm.MoveVector()\n	})\n\n	r.OK"),
  (RS,"	for r.TransferredN < limit && clientErr == nil {\n","	var stolen []*Centroid\n	for r.TransferredN < limit && clientErr == nil {\n")],
 net('"fmt"\n"io"\n"net"\n"sync"',
 '''
func main() {
 la, _ := start()
 ra, _ := start()
 l, r := la.ToStr(), ra.ToStr()
 for i := 0; i < 64; i++ { rpc.KMeansClient(r, "ns", nil).AddDataPoint(pt(fmt.Sprint("r", i), 1, float64(i))) }
 for i := 0; i < 4; i++ { rpc.KMeansClient(r, "ns", nil).SplitCentroids(2, 1000) }
 rpc.KMeansClient(l, "ns", nil).AddDataPoint(pt("l", 1, 2))
 // in between: lets so many connections through
 pa := freeAddr()
 ln, err := net.Listen("tcp", pa.ToStr())
 if err != nil { panic(err) }
 var mu sync.Mutex
 left := 4
 go func() {
  for {
   c, err := ln.Accept()
   if err != nil { return }
   mu.Lock()
   left--
   ok := left >= 0
   mu.Unlock()
   d, err := net.Dial("tcp", r)
   if err != nil || !ok { c.Close(); continue }
   go func() { io.Copy(d, c); d.Close() }()
   go func() { io.Copy(c, d); c.Close() }()
  }
 }()
 rpc.KMeansClient(l, "ns", nil).StealCentroids(pa.ToStr(), 1000)
 nl, nr := rpc.KMeansClient(l, "ns", nil).LenDP(), rpc.KMeansClient(r, "ns", nil).LenDP()
 if nl + nr != 65 { fail("%d + %d points are left of 65", nl, nr) }
}'''))
