package h

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	"trypo/pkg/kmeans/centroidmanager"
	"trypo/pkg/kmeans/rpc"
)

// ---- real nodes on loopback ----------------------------------------------------------

// netNode is a running node; its configuration can be changed between cases.
type netNode struct {
	addr string
	srv  *rpc.KMeansServer
	stop func()
	cfg  atomic.Pointer[nodeCfg]
}

type nodeCfg struct {
	euc       bool
	threshold int
}

func (n *netNode) factory(vec []float64) *Manager {
	c := n.cfg.Load()
	m, _ := centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{
		InitVec: vec, InitCap: 10, CentroidDPThreshold: c.threshold, KNNSearchFunc: knnOf(c.euc), KFNSearchFunc: kfnOf(c.euc)})
	return &m
}

// freeAddr finds a loopback address nobody listens on.
func freeAddr() (string, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return "", err
	}
	defer l.Close()
	return l.Addr().String(), nil
}

func startNode() (*netNode, error) {
	var last error
	for try := 0; try < 20; try++ {
		addr, err := freeAddr()
		if err != nil {
			last = err
			continue
		}
		n := &netNode{addr: addr}
		n.cfg.Store(&nodeCfg{})
		n.srv = rpc.NewKMeansServer(addr, n.factory)
		n.stop, err = rpc.StartListen(n.srv)
		if err == nil {
			return n, nil
		}
		last = err
	}
	return nil, fmt.Errorf("cannot start a node: %w", last)
}

var (
	nodePools  = map[int][]*netNode{} // by lane
	nodePoolMu sync.Mutex
)

// poolNodes hands out k running, empty nodes; they are reused by later cases.
func poolNodes(x *X, k int, cfg nodeCfg) []*netNode {
	nodePoolMu.Lock()
	defer nodePoolMu.Unlock()
	for len(nodePools[x.lane]) < k {
		n, err := startNode()
		if err != nil {
			x.Env(err)
		}
		nodePools[x.lane] = append(nodePools[x.lane], n)
	}
	nodePool := nodePools[x.lane]
	for _, n := range nodePool[:k] {
		n.srv.Table.Reset()
		c := cfg
		n.cfg.Store(&c)
	}
	return append([]*netNode{}, nodePool[:k]...)
}

// deadAddr is an address which refuses connections.
var deadAddr = sync.OnceValue(func() string {
	// A bound but not listening socket keeps the port from being reused.
	for i := 0; i < 50; i++ {
		a, err := freeAddr()
		if err != nil {
			continue
		}
		if _, err := holdPort(a); err == nil {
			return a
		}
	}
	return "127.0.0.1:1"
})

// ---- fault injection -------------------------------------------------------------------

// proxy forwards connections to a node, except requests of the methods in cut
// (all when cut contains "*"), which are dropped before anything is delivered.
// after: number of matching requests let through first.
type proxy struct {
	addr   string
	ln     net.Listener
	mu     sync.Mutex
	target string
	cut    []string
	after  int
	cuts   int
	slow   time.Duration // how long the next requests wait before they are passed on
	slowN  int           // how many of them
}

func newProxy() (*proxy, error) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	p := &proxy{addr: ln.Addr().String(), ln: ln}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				if errors.Is(err, net.ErrClosed) {
					return
				}
				continue
			}
			go p.serve(c)
		}
	}()
	return p, nil
}

func (p *proxy) set(target string, cut []string, after int) {
	p.mu.Lock()
	p.target, p.cut, p.after, p.cuts, p.slowN = target, cut, after, 0, 0
	p.mu.Unlock()
}

// delay lets the next n requests wait.
func (p *proxy) delay(d time.Duration, n int) {
	p.mu.Lock()
	p.slow, p.slowN = d, n
	p.mu.Unlock()
}

func (p *proxy) matches(b []byte) bool {
	for _, c := range p.cut {
		if c == "*" || bytes.Contains(b, []byte("KMeansServer."+c)) {
			return true
		}
	}
	return false
}

func (p *proxy) serve(c net.Conn) {
	defer c.Close()
	buf := make([]byte, 8192)
	n, err := c.Read(buf) // header of the only request on this connection
	if err != nil {
		return
	}
	p.mu.Lock()
	target := p.target
	cut := p.matches(buf[:n])
	if cut && p.after > 0 {
		p.after--
		cut = false
	}
	if cut {
		p.cuts++
	}
	wait := time.Duration(0)
	if p.slowN > 0 {
		p.slowN--
		wait = p.slow
	}
	p.mu.Unlock()
	if cut {
		return
	}
	time.Sleep(wait)
	u, err := net.Dial("tcp", target)
	if err != nil {
		return
	}
	defer u.Close()
	if _, err := u.Write(buf[:n]); err != nil {
		return
	}
	done := make(chan struct{}, 2)
	go func() { io.Copy(u, c); u.(*net.TCPConn).CloseWrite(); done <- struct{}{} }()
	go func() { io.Copy(c, u); c.(*net.TCPConn).CloseWrite(); done <- struct{}{} }()
	<-done
	<-done
}

var proxyPools = map[int][]*proxy{}

func proxies(x *X, k int) []*proxy {
	nodePoolMu.Lock()
	defer nodePoolMu.Unlock()
	for len(proxyPools[x.lane]) < k {
		p, err := newProxy()
		if err != nil {
			x.Env(err)
		}
		proxyPools[x.lane] = append(proxyPools[x.lane], p)
	}
	return append([]*proxy{}, proxyPools[x.lane][:k]...)
}

// ---- state of nodes -----------------------------------------------------------------------

// state is a snapshot of all namespaces of a node.
type state map[string]nsnap

func (n *netNode) state() state {
	s := state{}
	for _, ns := range n.srv.Table.Namespaces() {
		n.srv.Table.Access(ns, func(m *Manager) { s[ns] = snapNode(m) })
	}
	return s
}

func (s state) names() []string {
	var r []string
	for k := range s {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// cloneManager builds a local node in the given state.
func cloneManager(x *X, cfg nodeCfg, s nsnap) *Manager {
	m := newManager(x, cfg.euc, s.vec, cfg.threshold)
	for i := range s.cl {
		m.Centroids = append(m.Centroids, cloneCentroid(x, cfg.euc, s.vecs[i], s.pts[i]))
	}
	return m
}

// sameData: same clusters in the same order, holding the same points.
func sameData(a, b nsnap) bool {
	return fmt.Sprint(a.idSets()) == fmt.Sprint(b.idSets())
}

func sameVecs(a, b nsnap, scale float64) bool {
	if len(a.vecs) != len(b.vecs) || !closeVec(a.vec, b.vec, scale) {
		return false
	}
	for i := range a.vecs {
		if !closeVec(a.vecs[i], b.vecs[i], scale) {
			return false
		}
	}
	return true
}

// call runs one network call with a generous limit.
func call(x *X, what string, f func()) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			switch r.(type) {
			case violation, envError:
				panic(r)
			}
			x.Failf("%s: panic in the client: %v", what, r)
		}
	case <-time.After(45 * time.Second):
		hung(what + ": did not complete within 45 s")
	}
}

// ---- histories of remote calls on one node ---------------------------------------------------

type ROp struct {
	Op     string    `json:"op"`
	Ns     int       `json:"ns,omitempty"`
	P      PSpec     `json:"p,omitzero"`
	V      []float64 `json:"v,omitempty"`
	N      int       `json:"n,omitempty"`
	Hi     int       `json:"hi,omitempty"`
	Drain  bool      `json:"drain,omitempty"`
	Direct bool      `json:"direct,omitempty"` // call the endpoint in-process instead of over the wire
	B      *Bulk     `json:"b,omitempty"`
}

type rpcCase struct {
	Euc       bool     `json:"euc"`
	Threshold int      `json:"threshold"`
	Names     [][]byte `json:"names"`
	Ops       []ROp    `json:"ops"`
	Keep      bool     `json:"keep,omitempty"` // one client per namespace for the whole history
}

type rmix struct {
	add, drainU, drainO, lookup, near, nearVec, vec, length, split, merge, distI, expire, trim, move, age, names, meta, reset int
	expRate, wrong, namespaces                                                                                                int
	direct                                                                                                                    bool
	large                                                                                                                     bool // start with many points
	thresholds                                                                                                                []int
}

func genName(t *rapid.T) []byte {
	switch rapid.IntRange(0, 9).Draw(t, "nameStyle") {
	case 0:
		return []byte{}
	case 1:
		return []byte("a")
	case 2:
		return []byte("aa")
	case 3:
		return []byte("a ")
	case 4:
		return []byte("A")
	case 5:
		return []byte("日本語/ß\u0000é")
	case 6:
		return bytes.Repeat([]byte("long"), rapid.IntRange(1, 2000).Draw(t, "nameLen"))
	case 7:
		return rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "nameBytes")
	default:
		return []byte(rapid.StringN(0, 8, 30).Draw(t, "name"))
	}
}

func genNames(t *rapid.T, k int) [][]byte {
	var out [][]byte
	seen := map[string]bool{}
	for len(out) < k {
		n := genName(t)
		if seen[string(n)] {
			n = append(append([]byte{}, n...), byte('0'+len(out)))
		}
		if seen[string(n)] {
			n = []byte(fmt.Sprintf("%s-%d", n, len(out)))
		}
		seen[string(n)] = true
		out = append(out, n)
	}
	return out
}

func genRPC(m rmix) func(*rapid.T) rpcCase {
	return func(t *rapid.T) rpcCase {
		dim := genDim(t)
		st := genStyle(t)
		c := rpcCase{Euc: rapid.Bool().Draw(t, "euc"), Keep: rapid.IntRange(0, 3).Draw(t, "keep") == 0}
		th := m.thresholds
		if th == nil {
			th = []int{0, 2, 3, 4, 6, 10}
		}
		c.Threshold = pick(t, "threshold", th...)
		k := 1
		if m.namespaces > 1 {
			k = rapid.IntRange(2, m.namespaces).Draw(t, "namespaces")
			c.Names = genNames(t, k)
			if rare(t, "manySpaces", 6) { // each of them used
				for extra := rapid.IntRange(5, 150).Draw(t, "extra"); extra > 0; extra-- {
					v := make([]float64, dim)
					for j := range v {
						v[j] = float64(k + j)
					}
					c.Ops = append(c.Ops, ROp{Op: "add", Ns: k, P: PSpec{V: v}})
					c.Names = append(c.Names, []byte(fmt.Sprintf("space%d", k)))
					k++
				}
			}
		} else {
			c.Names = [][]byte{[]byte("ns")}
		}
		expRate := m.expRate
		ws := []int{m.add, m.drainU, m.drainO, m.lookup, m.near, m.nearVec, m.vec, m.length, m.split, m.merge, m.distI, m.expire, m.trim, m.move, m.age, m.names, m.meta, m.reset}
		total := 0
		for _, w := range ws {
			total += w
		}
		var lib []PSpec
		typ := 1
		op := rapid.Custom(func(t *rapid.T) ROp {
			r := rapid.IntRange(0, total-1).Draw(t, "op")
			i := 0
			for r >= ws[i] {
				r -= ws[i]
				i++
			}
			o := ROp{}
			if k > 1 {
				o.Ns = rapid.IntRange(0, k-1).Draw(t, "ns")
			}
			if m.direct {
				o.Direct = rapid.IntRange(0, 2).Draw(t, "direct") == 0
			}
			switch i {
			case 0:
				o.Op = "add"
				o.P = PSpec{V: genAnyVec(t, dim, st, m.wrong), Pay: genPay(t)}
				if expRate > 0 && rapid.IntRange(0, expRate-1).Draw(t, "exp?") == 0 {
					o.P.En = rapid.IntRange(0, 4).Draw(t, "en") != 0
					o.P.Ttl = pick(t, "ttl", int64(time.Hour), int64(100*time.Hour), int64(time.Hour), -int64(time.Hour))
					o.P.Z = rapid.IntRange(0, 15).Draw(t, "zero") == 0
					genYear(t, &o.P)
				}
				if len(lib) > 0 && rapid.IntRange(0, 6).Draw(t, "dup") == 0 {
					o.P.V = cp(lib[rapid.IntRange(0, len(lib)-1).Draw(t, "dupOf")].V)
				}
				lib = append(lib, o.P)
			case 1:
				o.Op, o.N = "drainU", genCount(t, "n", 5*typ)
			case 2:
				o.Op, o.N = "drainO", genCount(t, "n", 5*typ)
			case 3:
				o.Op, o.N, o.V, o.Drain = "lookup", genCount(t, "k", 6*typ), genAnyVec(t, dim, st, m.wrong), rapid.Bool().Draw(t, "drain")
			case 4:
				o.Op, o.N, o.V, o.Drain = "near", genCount(t, "k", 3*typ), genAnyVec(t, dim, st, m.wrong), rapid.Bool().Draw(t, "drain")
			case 5:
				o.Op, o.V = "nearVec", genAnyVec(t, dim, st, m.wrong)
			case 6:
				o.Op = "vec"
			case 7:
				o.Op = "len"
			case 8, 9:
				o.Op = map[int]string{8: "split", 9: "merge"}[i]
				if rapid.Bool().Draw(t, "below") {
					o.N, o.Hi = -1, rapid.IntRange(-1, 12).Draw(t, "hi")
				} else {
					o.N, o.Hi = rapid.IntRange(-2, 6).Draw(t, "lo"), pick(t, "hi", 2, 3, 4, 5, 6, 8, 10, 1000)
				}
			case 10:
				o.Op, o.N = "distI", genCount(t, "n", 6*typ)
			case 11:
				o.Op = "expire"
			case 12:
				o.Op = "trim"
			case 13:
				o.Op = "move"
			case 14:
				o.Op, o.N = "age", rapid.IntRange(1, 5).Draw(t, "n")
			case 15:
				o.Op = "names"
			case 16:
				o.Op = "meta"
			case 17:
				o.Op, o.N = "reset", rapid.IntRange(0, 1<<min(k, 8)-1).Draw(t, "mask")
				o.P = PSpec{V: genAnyVec(t, dim, st, 0)}
			}
			return o
		})
		lo, hi := genLen(t, 50)
		if m.large || rare(t, "big", 6) {
			lim := 1500 / (1 + dim/12)
			if m.large && rapid.IntRange(0, 3).Draw(t, "manyClusters") == 0 {
				c.Threshold = pick(t, "bigThreshold", 2, 3, 4)
				lim = min(lim, 700)
			} else if c.Threshold >= 2 {
				c.Threshold = pick(t, "bigThreshold", c.Threshold, 30, 70, 140, 300)
				lim = min(lim, 40*c.Threshold)
			}
			b := genBulk(t, dim, st, lim, 0)
			if expRate > 0 && rapid.Bool().Draw(t, "bulkExp?") {
				b.Exp, b.Ttl = pick(t, "bulkExp", 1, 2, 5), int64(time.Hour)
			}
			if rapid.Bool().Draw(t, "bigCounts") {
				typ = max(1, b.N/8)
			}
			c.Ops = append(c.Ops, ROp{Op: "bulk", B: b})
			for j := 1; j < k; j++ {
				if rapid.IntRange(0, 2).Draw(t, "bulkToo") == 0 {
					c.Ops = append(c.Ops, ROp{Op: "bulk", Ns: j, B: genBulk(t, dim, st, lim, 0)})
				}
			}
			c.Ops = append(c.Ops, rapid.SliceOfN(op, 2, 12).Draw(t, "ops")...)
			return c
		}
		c.Ops = append(c.Ops, rapid.SliceOfN(op, lo, hi).Draw(t, "ops")...)
		return c
	}
}

type rstep struct {
	i             int
	op            ROp
	ns            string
	cfg           nodeCfg
	node          *netNode
	now           time.Time
	before, after state
	all           []string // every namespace of the case
	dp            DataPoint
	resOK         bool
	res           []DataPoint
	cls           []*Centroid
	vec           []float64
	n             int
	names         []string
	meta          rpc.MetaResp
	err           error
	scale         float64
	kept          clients // nil: a client per call
}

// client has the methods of the type KMeansClient returns.
type client interface {
	AddDataPoint(DataPoint) bool
	DrainUnordered(int) []DataPoint
	DrainOrdered(int) []DataPoint
	KNNLookup([]float64, int, bool) []DataPoint
	NearestCentroids([]float64, int, bool) ([]*Centroid, bool)
	NearestCentroidVec([]float64) []float64
	Vec() []float64
	LenDP() int
	SplitCentroids(int, int)
	MergeCentroids(int, int)
	DistributeDataPointsInternal(int)
	DistributeDataPointsFast([]string, int)
	DistributeDataPointsAccurate([]string, int)
	StealCentroids(string, int) (int, bool)
	Expire()
	MemTrim()
	MoveVector() bool
	Namespaces() []string
	Meta() rpc.MetaResp
}

// clients keeps one client, with one error variable, per address and namespace for a whole history.
type clients map[string]*keptClient

type keptClient struct {
	client
	err error
}

func (c clients) get(addr, ns string) *keptClient {
	k := c[addr+" "+ns]
	if k == nil {
		k = &keptClient{}
		k.client = rpc.KMeansClient(addr, ns, &k.err)
		c[addr+" "+ns] = k
	}
	return k
}

func (s *rstep) String() string {
	return fmt.Sprintf("step %d %s ns=%.20q n=%d hi=%d drain=%v direct=%v", s.i, s.op.Op, s.ns, s.op.N, s.op.Hi, s.op.Drain, s.op.Direct)
}

func doRPC(x *X, s *rstep) {
	op, srv := s.op, s.node.srv
	var cl client = rpc.KMeansClient(s.node.addr, s.ns, &s.err)
	d := op.Direct
	if s.kept != nil && !(d && (op.Op == "add" || op.Op == "drainU" || op.Op == "drainO" || op.Op == "lookup")) {
		k := s.kept.get(s.node.addr, s.ns)
		cl, k.err = k, s.err
		defer func() { s.err = k.err }()
	}
	switch op.Op {
	case "add":
		if d {
			s.err = srv.AddDataPoint(rpc.AddDataPointArgs{NameSpace: s.ns, DP: s.dp}, &s.resOK)
		} else {
			s.resOK = cl.AddDataPoint(cloneDP(s.dp))
		}
	case "drainU":
		if d {
			s.err = srv.DrainUnordered(rpc.DrainArgs{NameSpace: s.ns, N: op.N}, &s.res)
		} else {
			s.res = cl.DrainUnordered(op.N)
		}
	case "drainO":
		if d {
			s.err = srv.DrainOrdered(rpc.DrainArgs{NameSpace: s.ns, N: op.N}, &s.res)
		} else {
			s.res = cl.DrainOrdered(op.N)
		}
	case "lookup":
		if d {
			s.err = srv.KNNLookup(rpc.KNNLookupArgs{NameSpace: s.ns, Vec: op.V, K: op.N, Drain: op.Drain}, &s.res)
		} else {
			s.res = cl.KNNLookup(op.V, op.N, op.Drain)
		}
	case "near":
		s.cls, s.resOK = cl.NearestCentroids(op.V, op.N, op.Drain)
		for _, c := range s.cls {
			if c == nil {
				x.Failf("%s: nil cluster returned", s)
			}
			s.res = append(s.res, c.DataPoints...)
		}
	case "nearVec":
		s.vec = cl.NearestCentroidVec(op.V)
	case "vec":
		s.vec = cl.Vec()
	case "len":
		s.n = cl.LenDP()
	case "split":
		cl.SplitCentroids(op.N, op.Hi)
	case "merge":
		cl.MergeCentroids(op.N, op.Hi)
	case "distI":
		cl.DistributeDataPointsInternal(op.N)
	case "expire":
		cl.Expire()
	case "trim":
		cl.MemTrim()
	case "move":
		s.resOK = cl.MoveVector()
	case "names":
		s.names = cl.Namespaces()
	case "meta":
		s.meta = cl.Meta()
	}
}

// bulkLoad stores many points in a node.
func bulkLoad(x *X, n *netNode, ns string, b *Bulk, reg *Registry, now time.Time) (scale float64) {
	for _, p := range b.points() {
		_, dp := reg.add(p, now)
		scale = math.Max(scale, maxAbs(dp.Vec))
		var ok bool
		if err := n.srv.AddDataPoint(rpc.AddDataPointArgs{NameSpace: ns, DP: dp}, &ok); err != nil || !ok {
			x.Failf("adding %s to a node: %v, %v", showDP(dp), ok, err)
		}
	}
	return
}

func runRPC(x *X, c rpcCase, oracle func(*X, *rstep, *Registry)) {
	cfg := nodeCfg{c.Euc, c.Threshold}
	node := poolNodes(x, 1, cfg)[0]
	reg := &Registry{}
	scale := 0.0
	before := node.state()
	var kept clients
	if c.Keep {
		kept = clients{}
		x.Label("clients kept")
	}
	for i, op := range c.Ops {
		s := &rstep{i: i, op: op, ns: string(c.Names[op.Ns]), cfg: cfg, node: node, before: before, now: time.Now(), kept: kept}
		for _, n := range c.Names {
			s.all = append(s.all, string(n))
		}
		switch op.Op {
		case "reset": // and a point in some of the namespaces, before anything is listed
			node.srv.Table.Reset()
			for j, ns := range s.all {
				if j < 8 && op.N>>j&1 != 0 {
					_, dp := reg.add(op.P, s.now)
					if err := node.srv.AddDataPoint(rpc.AddDataPointArgs{NameSpace: ns, DP: dp}, &s.resOK); err != nil || !s.resOK {
						x.Failf("%s: adding %s: %v, %v", s, showDP(dp), s.resOK, err)
					}
				}
			}
			scale = math.Max(scale, maxAbs(op.P.V))
			before = node.state()
			checkListing(x, s)
			x.Label("reset")
			continue
		case "bulk":
			scale = math.Max(scale, bulkLoad(x, node, s.ns, op.B, reg, s.now))
			before = node.state()
			x.Label("bulk")
			continue
		case "add":
			_, dp := reg.add(op.P, s.now)
			s.dp = dp
			scale = math.Max(scale, maxAbs(dp.Vec))
		case "age":
			left := op.N
			node.srv.Table.Access(s.ns, func(m *Manager) {
				for _, cl := range m.Centroids {
					for j := range cl.DataPoints {
						d := &cl.DataPoints[j]
						if left > 0 && d.ExpireEnabled && s.now.Before(d.Expires) {
							d.Expires = s.now.Add(-time.Hour)
							reg.pts[idOf(*d)].Expires = d.Expires
							left--
						}
					}
				}
			})
			before = node.state()
			continue
		}
		call(x, s.String(), func() { doRPC(x, s) })
		s.after = node.state()
		s.scale = scale
		x.Tracef("%d: %s v=%v dp=%v -> ok=%v n=%d res=%v vec=%v err=%v state=%v", i, s, op.V, op.P.V, s.resOK, s.n, ids(s.res), s.vec, s.err, s.after[s.ns].idSets())
		if s.err != nil && netTrouble(s.err) {
			x.Env(fmt.Errorf("%s: %w", s, s.err))
		}
		oracle(x, s, reg)
		before = s.after
	}
}

// netTrouble: the sandbox ran out of ports or similar; says nothing about the code.
func netTrouble(err error) bool {
	for _, m := range []string{"cannot assign requested address", "too many open files", "no buffer space"} {
		if bytes.Contains([]byte(err.Error()), []byte(m)) {
			return true
		}
	}
	return false
}

func filterLive(dps []DataPoint, now time.Time) []DataPoint { return live(dps, now) }

func isNamespaceErr(err error, ns string) bool {
	return err != nil && err.Error() == rpcNamespaceErr(ns)
}

func rpcNamespaceErr(ns string) string { return fmt.Sprintf("namespace not found: '%v'", ns) }

// ---- R01: remote = local ---------------------------------------------------------------------

func oracleR01(x *X, s *rstep, reg *Registry) {
	what := s.String()
	b, existed := s.before[s.ns]
	if s.op.Op == "names" || s.op.Op == "meta" {
		return
	}
	if !existed && s.op.Op != "add" {
		if s.err == nil {
			x.Failf("%s: no error for a namespace that does not exist", what)
		}
		if len(s.res) > 0 || s.n != 0 || s.resOK || len(s.vec) > 0 {
			x.Failf("%s: results for a namespace that does not exist", what)
		}
		if len(s.after) != len(s.before) {
			x.Failf("%s: created a namespace", what)
		}
		x.Label("missing namespace")
		return
	}
	if s.err != nil {
		x.Failf("%s: unexpected error %v", what, s.err)
	}
	var m *Manager
	if existed {
		m = cloneManager(x, s.cfg, b)
	} else {
		m = s.node.factory(s.dp.Vec)
		b = nsnap{}
	}
	a, ok := s.after[s.ns]
	if !ok && s.op.Op != "add" {
		x.Failf("%s: namespace vanished", what)
	}
	for _, d := range append(append([]DataPoint{}, s.res...), a.all()...) {
		reg.verify(x, what, d)
	}
	sameSet := func(local []DataPoint) {
		if !eqInts(sortedIDs(local), sortedIDs(s.res)) {
			x.Failf("%s: remote returned %v, local operation %v", what, sortedIDs(s.res), sortedIDs(local))
		}
	}
	rng := func(c *Centroid) bool { return c.LenDP() > s.op.N && c.LenDP() < s.op.Hi }
	switch s.op.Op {
	case "add":
		if lok := m.AddDataPoint(cloneDP(s.dp)); lok != s.resOK {
			x.Failf("%s: remote add answered %v, local %v (%s)", what, s.resOK, lok, showDP(s.dp))
		}
	case "drainU":
		sameSet(m.DrainUnordered(s.op.N))
	case "drainO":
		sameSet(m.DrainOrdered(s.op.N))
	case "lookup":
		l := m.KNNLookup(cp(s.op.V), s.op.N, s.op.Drain)
		if !eqInts(ids(l), ids(s.res)) {
			x.Failf("%s: remote lookup returned %v, local %v", what, ids(s.res), ids(l))
		}
	case "near":
		l, lok := m.NearestCentroids(cp(s.op.V), s.op.N, s.op.Drain)
		if lok != s.resOK {
			x.Failf("%s: remote answered ok=%v, local %v", what, s.resOK, lok)
		}
		var want []nsnap
		for _, c := range l {
			if c.LenDP() > 0 { // empty clusters are documented not to be sent
				want = append(want, nsnap{pts: [][]DataPoint{live(c.DataPoints, s.now)}})
			}
		}
		if len(want) != len(s.cls) {
			x.Failf("%s: remote returned %d clusters, local %d non-empty ones", what, len(s.cls), len(want))
		}
		for i, c := range s.cls {
			if !eqInts(sortedIDs(c.DataPoints), sortedIDs(want[i].pts[0])) {
				x.Failf("%s: cluster %d came over with %v, local has %v", what, i, sortedIDs(c.DataPoints), sortedIDs(want[i].pts[0]))
			}
			if len(c.DataPoints) > 0 {
				var vs [][]float64
				for _, d := range c.DataPoints {
					vs = append(vs, d.Vec)
				}
				if !closeVec(c.Vec(), meanOf(vs), s.scale) {
					x.Failf("%s: cluster %d came over with vector %v, mean of its points is %v", what, i, c.Vec(), meanOf(vs))
				}
				// must be usable again
				if got := c.KNNLookup(c.Vec(), 1, false); len(got) != 1 {
					x.Failf("%s: cluster %d came over unusable", what, i)
				}
			}
		}
	case "nearVec":
		l, _ := m.NearestCentroids(cp(s.op.V), 1, false)
		var want []float64
		if len(l) > 0 {
			want = l[0].Vec()
		}
		if !eqVec(want, s.vec) {
			x.Failf("%s: remote vector %v, local %v", what, s.vec, want)
		}
	case "vec":
		if !eqVec(m.Vec(), s.vec) {
			x.Failf("%s: remote vector %v, local %v", what, s.vec, m.Vec())
		}
	case "len":
		if m.LenDP() != s.n {
			x.Failf("%s: remote length %d, local %d", what, s.n, m.LenDP())
		}
	case "split":
		m.SplitCentroids(rng)
	case "merge":
		m.MergeCentroids(rng)
	case "distI":
		exp := len(live(b.all(), s.now)) != len(b.all())
		oracleInternal(x, what, b, a, s.op.N, s.cfg.euc, s.scale, exp, s.now)
		x.Label("op=" + s.op.Op)
		return
	case "expire":
		m.Expire()
	case "trim":
		m.MemTrim()
	case "move":
		if lok := m.MoveVector(); lok != s.resOK {
			x.Failf("%s: remote answered %v, local %v", what, s.resOK, lok)
		}
	}
	l := snapNode(m)
	if !ok {
		a = nsnap{}
	}
	if !sameData(l, a) {
		x.Failf("%s: remote node holds %v, local %v", what, a.idSets(), l.idSets())
	}
	if len(a.cl) > 0 && !sameVecs(l, a, s.scale) {
		x.Failf("%s: remote vectors %v %v, local %v %v", what, a.vec, a.vecs, l.vec, l.vecs)
	}
	x.Label("op=" + s.op.Op)
	if len(b.cl) >= 2 && s.op.Op != "add" && (len(s.res) > 0 || len(s.vec) > 0 || s.n > 0 || !sameData(b, a)) {
		x.NonTrivial()
	}
}

// ---- R02: namespaces -----------------------------------------------------------------------

// checkListing compares the listing of a node with the namespaces which can be accessed.
func checkListing(x *X, s *rstep) {
	var have []string
	for _, ns := range s.all {
		if s.node.srv.Table.Access(ns, func(*Manager) {}) {
			have = append(have, ns)
		} else if s.op.Op == "reset" {
			for j := range s.all {
				if s.all[j] == ns && j < 8 && s.op.N>>j&1 != 0 {
					x.Failf("%s: namespace %.20q was added and does not exist", s, ns)
				}
			}
		}
	}
	got := s.node.srv.Table.Namespaces()
	sort.Strings(have)
	sort.Strings(got)
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", have) {
		x.Failf("%s: the table lists %.200q, namespaces which exist are %.200q", s, got, have)
	}
}

func oracleR02(x *X, s *rstep, reg *Registry) {
	what := s.String()
	checkListing(x, s)
	for ns, b := range s.before {
		a, ok := s.after[ns]
		if !ok {
			x.Failf("%s: namespace %.20q vanished", what, ns)
		}
		if ns != s.ns && !sameSnap(a, b) {
			x.Failf("%s: changed namespace %.20q: %v -> %v", what, ns, b.idSets(), a.idSets())
		}
	}
	for ns := range s.after {
		if _, ok := s.before[ns]; !ok && (ns != s.ns || s.op.Op != "add") {
			x.Failf("%s: namespace %.20q appeared", what, ns)
		}
	}
	own := map[int]bool{}
	for _, d := range s.before[s.ns].all() {
		own[idOf(d)] = true
	}
	for _, d := range s.res {
		if id := reg.verify(x, what, d); !own[id] {
			x.Failf("%s: returned point %d of another namespace", what, id)
		}
	}
	switch s.op.Op {
	case "add":
		if s.resOK {
			if _, ok := s.after[s.ns].clusterOf()[idOf(s.dp)]; !ok {
				x.Failf("%s: added point is not in its namespace", what)
			}
		}
	case "names":
		got := append([]string{}, s.names...)
		sort.Strings(got)
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", s.after.names()) || s.err != nil {
			x.Failf("%s: listed %.200q (err %v), in use are %.200q", what, got, s.err, s.after.names())
		}
		if len(got) >= 2 {
			x.NonTrivial()
		}
	case "meta":
		wc, wd := map[string]int{}, map[string]int{}
		for ns, a := range s.after {
			wc[ns], wd[ns] = len(a.cl), len(a.all())
		}
		if s.err != nil || !eqCounts(s.meta.Centroids, wc) || !eqCounts(s.meta.DPs, wd) {
			x.Failf("%s: metadata clusters %v points %v (err %v), true are %v and %v", what, s.meta.Centroids, s.meta.DPs, s.err, wc, wd)
		}
		if len(wc) >= 2 {
			x.NonTrivial()
		}
	case "len":
		if n := len(s.after[s.ns].all()); s.n != n {
			x.Failf("%s: length %d, true %d", what, s.n, n)
		}
	}
	if _, ok := s.before[s.ns]; !ok && s.op.Op != "add" && s.op.Op != "names" && s.op.Op != "meta" {
		if s.err == nil {
			x.Failf("%s: no error for a namespace that does not exist", what)
		}
		x.Label("missing namespace")
	}
	x.Label("op=" + s.op.Op)
}

func eqCounts(a, b map[string]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// ---- R03: truthful acknowledgement -------------------------------------------------------------

func oracleR03(x *X, s *rstep, reg *Registry) {
	if s.op.Op != "add" {
		return
	}
	what := s.String()
	if s.err != nil {
		x.Failf("%s: error %v", what, s.err)
	}
	b, a := s.before[s.ns], s.after[s.ns]
	id := idOf(s.dp)
	n := idCount(a.all())[id]
	_, existed := s.before[s.ns]
	first := "later add"
	if !existed {
		first = "first add in a namespace"
	}
	if s.resOK && n != 1 {
		x.Failf("%s: %s acknowledged with true but the point is stored %d times (%s)", what, first, n, showDP(s.dp))
	}
	if !s.resOK && n != 0 {
		x.Failf("%s: %s answered false but the point is stored", what, first)
	}
	placeable := len(b.cl) == 0
	for _, v := range b.vecs {
		placeable = placeable || len(v) == len(s.dp.Vec)
	}
	if want := placeable && !isExpired(s.dp, s.now); want != s.resOK {
		x.Failf("%s: %s answered %v for %s with cluster vectors %v", what, first, s.resOK, showDP(s.dp), b.vecs)
	}
	for _, d := range a.all() {
		reg.verify(x, what, d)
	}
	if !s.resOK {
		if !sameData(a, b) || (existed && !sameSnap(a, b)) {
			x.Failf("%s: refused point changed the node", what)
		}
		x.NonTrivial()
		x.Label("refused " + first)
	} else {
		conserve(x, what, append(b.all(), s.dp), s.now, a.all())
		x.Label("accepted " + first)
	}
}

// ---- X01 over the network ------------------------------------------------------------------------

func oracleX01r(x *X, s *rstep, reg *Registry) {
	what := s.String()
	b, a := s.before[s.ns], s.after[s.ns]
	for _, d := range s.res {
		reg.verify(x, what, d)
		if isExpired(d, s.now) {
			x.Failf("%s: handed out expired point %s", what, showDP(d))
		}
	}
	all := b.all()
	if s.op.Op == "add" {
		if s.resOK && isExpired(s.dp, s.now) {
			x.Failf("%s: expired point accepted", what)
		}
		if s.resOK {
			all = append(all, s.dp)
		}
	}
	removing := s.op.Op == "drainU" || s.op.Op == "drainO" || (s.op.Op == "lookup" || s.op.Op == "near") && s.op.Drain
	if removing {
		conserve(x, what, all, s.now, a.all(), s.res)
	} else {
		conserve(x, what, all, s.now, a.all())
	}
	lv := live(all, s.now)
	if s.op.Op == "lookup" && len(b.vecs) > 0 && len(b.vecs[0]) == len(s.op.V) {
		if want := min(max(0, s.op.N), len(lv)); len(s.res) != want {
			x.Failf("%s: returned %d points of %d live ones", what, len(s.res), len(lv))
		}
	}
	if len(lv) != len(all) {
		x.Label("expired held at op=" + s.op.Op)
		if len(lv) > 0 && len(s.res) > 0 {
			x.NonTrivial()
		}
	}
}

func init() {
	rule := func(s string) string {
		return "random histories of client calls over TCP to a real node (and direct endpoint calls); " + s
	}
	regR := func(f Facet, m rmix, o func(*X, *rstep, *Registry)) {
		run := func(x *X, c rpcCase) { runRPC(x, c, o) }
		reg(f, genRPC(m), run)
		f.Name += "-large"
		f.Rule = "the same starting with 24-1500 points at once; " + f.Rule[strings.Index(f.Rule, "non-trivial"):]
		f.Quick, f.Thorough = 1600, 60000
		m.add = min(m.add, max(4, m.add/8))
		m.large = true
		reg(f, genRPC(m), run)
	}
	all := rmix{add: 60, drainU: 4, drainO: 4, lookup: 8, near: 7, nearVec: 4, vec: 3, length: 3, split: 5, merge: 3, distI: 3, expire: 2, trim: 3, move: 1, age: 3, expRate: 5, wrong: 20, direct: true}
	regR(Facet{Prop: "R01", Name: "remote-local", Quick: 15000, Thorough: 200000,
		Rule: rule("each step is repeated on a local clone of the node; non-trivial: a call other than add returns or changes something on a node with at least 2 clusters")}, all, oracleR01)
	nsm := rmix{add: 45, drainU: 4, drainO: 3, lookup: 7, near: 5, nearVec: 2, vec: 2, length: 6, split: 4, merge: 3, distI: 2, expire: 2, trim: 3, move: 1, names: 9, meta: 9, reset: 4, wrong: 12, direct: true, namespaces: 5}
	regR(Facet{Prop: "R02", Name: "namespaces", Quick: 15000, Thorough: 200000,
		Rule: rule("over 2-5 namespaces with arbitrary names; non-trivial: a listing or metadata of at least 2 namespaces is compared")}, nsm, oracleR02)
	ack := rmix{add: 80, drainU: 3, lookup: 3, near: 2, split: 3, merge: 2, trim: 6, expRate: 3, wrong: 4, direct: true, namespaces: 3}
	regR(Facet{Prop: "R03", Name: "ack", Quick: 15000, Thorough: 200000,
		Rule: rule("non-trivial: at least one add is refused")}, ack, oracleR03)
	exp := rmix{add: 55, drainU: 6, drainO: 6, lookup: 10, near: 6, split: 4, merge: 3, distI: 4, expire: 2, trim: 2, move: 1, age: 14, expRate: 2, wrong: 30, direct: true}
	regR(Facet{Prop: "X01", Name: "net-expiry", Quick: 10000, Thorough: 150000,
		Rule: rule("stored points are aged past their expiry; non-trivial: points are returned while both expired and live points are held")}, exp, oracleX01r)
	spl := rmix{add: 65, drainU: 4, lookup: 2, near: 1, split: 20, merge: 4, distI: 2, trim: 2, wrong: 30}
	regR(Facet{Prop: "M05", Name: "net-split", Quick: 10000, Thorough: 100000,
		Rule: rule("split by exclusive size range; non-trivial: a split divides some but not all clusters")}, spl, func(x *X, s *rstep, _ *Registry) {
		b, ok := s.before[s.ns]
		if s.op.Op != "split" || !ok {
			return
		}
		if s.err != nil {
			x.Failf("%s: error %v", s, s.err)
		}
		var chosen []bool
		for _, p := range b.pts {
			chosen = append(chosen, len(p) > s.op.N && len(p) < s.op.Hi)
		}
		checkSplit(x, s.String(), b, s.after[s.ns], chosen)
	})
	mrg := rmix{add: 70, drainU: 4, lookup: 2, near: 1, split: 8, merge: 12, distI: 2, trim: 2, wrong: 30, thresholds: []int{2, 2, 3, 3, 4, 5, 0}}
	regR(Facet{Prop: "M06", Name: "net-merge", Quick: 10000, Thorough: 100000,
		Rule: rule("merge by exclusive size range; non-trivial: a merge without ties leaves fewer but at least 2 clusters")}, mrg, func(x *X, s *rstep, _ *Registry) {
		b, ok := s.before[s.ns]
		if s.op.Op != "merge" || !ok {
			return
		}
		if s.err != nil {
			x.Failf("%s: error %v", s, s.err)
		}
		in := func(n int) bool { return n > s.op.N && n < s.op.Hi }
		var chosen []bool
		for _, p := range b.pts {
			chosen = append(chosen, in(len(p)))
		}
		checkMerge(x, s.String(), b, s.after[s.ns], chosen, s.cfg.euc, s.scale,
			func(_ int, p []DataPoint) bool { return in(len(p)) },
			func(p []DataPoint, _ int) bool { return in(len(p)) })
	})
}
