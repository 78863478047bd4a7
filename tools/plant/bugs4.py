LG="core/eventloop/log.go"
LEAK='''
func goroutines() int {
 n := 0
 for i := 0; i < 40; i++ { time.Sleep(25 * time.Millisecond); n = runtime.NumGoroutine() }
 return n
}
'''
bug("client-left-open","R09",
 "calls which fail on the server side (such as a namespace which does not exist), many of them over the life of a process",
 "a connection is only closed after a call that worked",
 [(RC,"	defer client.Close()\n	taskF(client)\n","	taskF(client)\n	if *c.err == nil {\n		client.Close()\n	}\n")],
 net(' "runtime"\n "time"',LEAK+'''
func main() {
 a, _ := start()
 rpc.KMeansClient(a.ToStr(), "one", nil).AddDataPoint(pt("p", 1, 1))
 before := goroutines()
 for i := 0; i < 50; i++ {
  rpc.KMeansClient(a.ToStr(), "one", nil).Vec()
  rpc.KMeansClient(a.ToStr(), "two", nil).Vec()
 }
 if n := goroutines(); n > before + 20 { fail("%d goroutines after 100 calls, %d before", n, before) }
}'''))

bug("loop-pause-abandoned","R09",
 "maintenance loops which are started and stopped repeatedly in one process",
 "the goroutine which times the loop's pauses waits for the loop forever once that is stopped",
 [(EL,"		for cfg.internal.stopped == false {\n			time.Sleep(cfg.TimeoutLoop)\n",
      "		turns := make(chan struct{})\n		go func() {\n			for {\n				time.Sleep(cfg.TimeoutLoop)\n				turns <- struct{}{}\n			}\n		}()\n		for cfg.internal.stopped == false {\n			<-turns\n")],
 net(ELP+'\n "runtime"',LEAK+'''
type logger struct { sync.Mutex; metas int }
func (l *logger) LogTask(s string) {}
func (l *logger) LogMeta(eventloop.MetaData) { l.Lock(); l.metas++; l.Unlock() }
func main() {
 a, _ := start()
 rpc.KMeansClient(a.ToStr(), "one", nil).AddDataPoint(pt("p", 1, 1))
 before := goroutines()
 never := 5000
 for i := 0; i < 20; i++ {
  l := &logger{}
  stop := eventloop.EventLoop(&eventloop.EventLoopConfig{LocalAddr: a, RemoteAddrs: []arbiter.Addr{a}, TimeoutLoop: time.Millisecond, L: l,
   TaskSkip: eventloop.EventLoopTaskSkipConfig{Expire: never, MemTrim: never, DistributeDataPointsFast: never, DistributeDataPointsAccurate: never, DistributeDataPointsInternal: never, SplitCentroids: never, MergeCentroids: never, LoadBalancing: never, Meta: 1}})
  for { time.Sleep(5 * time.Millisecond); l.Lock(); m := l.metas; l.Unlock(); if m >= 1 { break } }
  stop()
 }
 if n := goroutines(); n > before + 10 { fail("%d goroutines after 20 stopped loops, %d before", n, before) }
}'''))

bug("ranking-watchdogs","R09",
 "a ranking of nodes which includes one that cannot be reached, many times over the life of a process",
 "reports of unreachable nodes are sent on a channel which nobody reads",
 [(NV,"			vec, ok := fetchFunc(addr)\n			ch <- fetchVecsRes{vec: vec, addr: addr, ok: ok}\n",
      "			res := fetchVecsRes{addr: addr}\n			res.vec, res.ok = fetchFunc(addr)\n			ch <- res\n			if !res.ok {\n				missing <- addr\n			}\n"),
  (NV,"	ch := make(chan fetchVecsRes, len(addrs))\n","	ch := make(chan fetchVecsRes, len(addrs))\n	missing := make(chan Addr)\n	defer func() {\n		select {\n		case <-missing:\n		default:\n		}\n	}()\n")],
 net(' "runtime"\n "time"\n "trypo/core/nodes"\n "trypo/pkg/searchutils"',LEAK+'''
func main() {
 a, _ := start()
 rpc.KMeansClient(a.ToStr(), "ns", nil).AddDataPoint(pt("p", 1, 1))
 before := goroutines()
 for i := 0; i < 40; i++ {
  got := nodes.BestFitNodesFast(nodes.BestFitNodesArgs{AddrOpts: []arbiter.Addr{a, freeAddr()}, Namespace: "ns", Vec: []float64{0, 1}, KNNSearchFunc: searchutils.KNNCos})
  if len(got) != 1 { fail("ranking %v", got) }
 }
 if n := goroutines(); n > before + 15 { fail("%d goroutines after 40 rankings, %d before", n, before) }
}'''))

LOGI=ELP+'\n "bytes"\n "log"\n "strings"'
LOGM='''
var mu sync.Mutex
var buf bytes.Buffer
type tap struct{}
func (tap) Write(p []byte) (int, error) { mu.Lock(); defer mu.Unlock(); return buf.Write(p) }
func lines() []string { mu.Lock(); defer mu.Unlock(); return strings.Split(strings.TrimSpace(buf.String()), "\\n") }
func clear() { mu.Lock(); defer mu.Unlock(); buf.Reset() }
// The last of many lines about the given address.
func show(a arbiter.Addr) string {
 clear()
 for {
  time.Sleep(10 * time.Millisecond)
  var mine []string
  for _, l := range lines() { if strings.Contains(l, "[" + a.ToStr() + "]") { mine = append(mine, l) } }
  if len(mine) >= 12 { l := mine[len(mine)-1]; return strings.Join(strings.Fields(l), " ") }
 }
}
func loop(local arbiter.Addr, all ...arbiter.Addr) {
 log.SetOutput(tap{})
 never := 5000
 eventloop.EventLoop(&eventloop.EventLoopConfig{LocalAddr: local, RemoteAddrs: all, TimeoutLoop: time.Millisecond,
  TaskSkip: eventloop.EventLoopTaskSkipConfig{Expire: 1, MemTrim: never, DistributeDataPointsFast: never, DistributeDataPointsAccurate: never, DistributeDataPointsInternal: never, SplitCentroids: never, MergeCentroids: never, LoadBalancing: never, Meta: 1}})
}
'''
bug("log-remembers-dead-nodes","E06",
 "a monitored node which goes down while the loop runs",
 "metadata without content does not replace what was known, so a dead node keeps being shown with its old data",
 [(LG,"func (l *defaultLogger) LogMeta(m MetaData) { l.metaData = m }",
      "func (l *defaultLogger) LogMeta(m MetaData) {\n	for addr, item := range l.metaData.Items {\n		if len(m.Items[addr].LenDP) == 0 {\n			m.Items[addr] = item // Not collected this time.\n		}\n	}\n	l.metaData = m\n}")],
 net(LOGI,LOGM+'''
func main() {
 a, _ := start()
 b := freeAddr()
 s := testutils.NewKMeansServer(b.ToStr())
 down, err := rpc.StartListen(s)
 if err != nil { panic(err) }
 rpc.KMeansClient(a.ToStr(), "ns", nil).AddDataPoint(pt("p", 1, 1))
 rpc.KMeansClient(b.ToStr(), "ns", nil).AddDataPoint(pt("p", 1, 1))
 loop(a, a, b)
 if l := show(b); !strings.Contains(l, "dps: 1 ") { fail("%s", l) }
 down()
 time.Sleep(50 * time.Millisecond)
 if l := show(b); !strings.Contains(l, "dps: 0 ") { fail("dead node is shown as %s", l) }
}'''))

bug("log-skips-drained-namespaces","E06",
 "a node with a namespace which holds clusters but no points any more, next to another one",
 "the default log stops counting the clusters of a namespace which holds no points",
 [(LG,"			for _, l := range l.metaData.Items[addr].LenCentroids {\n				centroidLen += l\n			}\n",
      "			for ns, n := range l.metaData.Items[addr].LenCentroids {\n				if l.metaData.Items[addr].LenDP[ns] > 0 {\n					centroidLen += n\n				}\n			}\n")],
 net(LOGI,LOGM+'''
func main() {
 a, _ := start()
 rpc.KMeansClient(a.ToStr(), "ns", nil).AddDataPoint(pt("p", 1, 1))
 rpc.KMeansClient(a.ToStr(), "other", nil).AddDataPoint(pt("p", 1, 1))
 rpc.KMeansClient(a.ToStr(), "other", nil).DrainUnordered(1)
 loop(a, a)
 if l := show(a); !strings.Contains(l, "centroids: 2 ") { fail("two clusters are shown as %s", l) }
}'''))

bug("log-namespaces-of-local","E06",
 "a remote node with a namespace which the local node does not have",
 "totals are summed over the local node's namespaces only",
 [(LG,"			for _, l := range l.metaData.Items[addr].LenDP {\n				dpLen += l\n			}\n",
      "			for ns := range l.metaData.Items[l.localAddr].LenDP {\n				dpLen += l.metaData.Items[addr].LenDP[ns]\n			}\n")],
 net(LOGI,LOGM+'''
func main() {
 a, _ := start()
 b, _ := start()
 rpc.KMeansClient(a.ToStr(), "ns", nil).AddDataPoint(pt("p", 1, 1))
 rpc.KMeansClient(b.ToStr(), "ns", nil).AddDataPoint(pt("p", 1, 1))
 rpc.KMeansClient(b.ToStr(), "theirs", nil).AddDataPoint(pt("p", 1, 1))
 loop(a, a, b)
 if l := show(b); !strings.Contains(l, "dps: 2 ") { fail("two points are shown as %s", l) }
}'''))

RANDM='''
func main() {
 var as []arbiter.Addr
 for i := 0; i < 3; i++ { a, _ := start(); as = append(as, a) }
 for i := 0; i < 300; i++ {
  if !dps.PutDataPointRand(dps.PutDataPointArgs{AddrOptions: as, Namespace: "ns", DataPoint: pt("p", 1, 1)}) { fail("put %d", i) }
 }
 for _, a := range as {
  if n := rpc.KMeansClient(a.ToStr(), "ns", nil).LenDP(); n == 0 { fail("node %v got none of 300 random puts to three nodes", a) }
 }
}'''
bug("shuffle-keeps-last","D03",
 "many random puts or gets with the same list of addresses",
 "the last address of the list always stays last",
 [(DD,"	for i := 0; i < len(addrs); i++ {\n","	for i := 0; i < len(addrs)-1; i++ {\n"),
  (DD,"		j := rand.Intn(len(addrs))\n","		j := rand.Intn(i + 1)\n")],
 net(' "trypo/core/dps"',RANDM))
bug("shuffle-seeded-per-minute","D03",
 "many random puts or gets within a short time",
 "the order only changes with time, so that all operations within a minute go to the same node",
 [(DD,"		rand.Seed(time.Now().UnixNano())\n		j := rand.Intn(len(addrs))\n","		j := rand.New(rand.NewSource(time.Now().Unix() / 60 + int64(i))).Intn(len(addrs))\n")],
 net(' "trypo/core/dps"',RANDM))
