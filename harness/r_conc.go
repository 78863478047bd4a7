package h

import (
	"fmt"
	"math/bits"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	"trypo/pkg/kmeans/centroidmanager"
	"trypo/pkg/kmeans/rpc"
)

// ---- concurrent requests (race-detector build) --------------------------------------------

type NOp struct {
	Op    string    `json:"op"`
	Node  int       `json:"node,omitempty"`
	Ns    int       `json:"ns,omitempty"`
	V     []float64 `json:"v,omitempty"`
	N     int       `json:"n,omitempty"`
	Drain bool      `json:"drain,omitempty"`
	Wait  int       `json:"wait,omitempty"` // microseconds before the request
}

type concCase struct {
	Euc       bool    `json:"euc"`
	Threshold int     `json:"threshold"`
	Dim       int     `json:"dim"`
	Delay     int     `json:"delay"` // microseconds spent in the node's factory and now and then in its search functions
	Pre       []NOp   `json:"pre"`
	Threads   [][]NOp `json:"threads"`
	Spaces    int     `json:"spaces"`
}

type concMix struct {
	ops        []string
	nodes      int
	threads    int
	perThread  int
	preload    int
	maxSpaces  int
	firstUse   bool
	maxTotalOp int
}

func genConc(m concMix) func(*rapid.T) concCase {
	return func(t *rapid.T) concCase {
		c := concCase{Euc: rapid.Bool().Draw(t, "euc"), Threshold: pick(t, "threshold", 0, 2, 3, 5), Dim: rapid.IntRange(1, 3).Draw(t, "dim"),
			Delay: pick(t, "delay", 0, 0, 50, 300, 1500), Spaces: rapid.IntRange(1, m.maxSpaces).Draw(t, "spaces")}
		st := VecStyle{Kind: pick(t, "kind", 0, 1, 4), Scale: 1}
		one := func(t *rapid.T, op string) NOp {
			o := NOp{Op: op, Node: rapid.IntRange(0, m.nodes-1).Draw(t, "node"), Ns: rapid.IntRange(0, c.Spaces-1).Draw(t, "ns")}
			switch op {
			case "add", "lookup", "near", "nearVec":
				o.V = genVec(t, c.Dim, st)
			}
			switch op {
			case "lookup", "drainU", "drainO", "distI", "distF", "distA", "near":
				o.N = rapid.IntRange(1, 4).Draw(t, "n")
				o.Drain = rapid.Bool().Draw(t, "drain")
			case "steal":
				o.N = pick(t, "limit", 1, 2, 5, 100)
			case "split", "merge":
				o.N = rapid.IntRange(2, 8).Draw(t, "hi")
			}
			if rapid.IntRange(0, 3).Draw(t, "wait?") == 0 {
				o.Wait = rapid.IntRange(1, 400).Draw(t, "wait")
			}
			return o
		}
		pre := 0
		if rapid.IntRange(0, 3).Draw(t, "fresh") != 0 {
			pre = rapid.IntRange(0, m.preload).Draw(t, "pre")
		}
		for i := 0; i < pre; i++ {
			c.Pre = append(c.Pre, one(t, "add"))
		}
		k := rapid.IntRange(2, m.threads).Draw(t, "threads")
		total := 0
		for i := 0; i < k; i++ {
			n := rapid.IntRange(1, m.perThread).Draw(t, "ops")
			var th []NOp
			for j := 0; j < n && total < m.maxTotalOp; j++ {
				op := "add"
				if rapid.IntRange(0, 2).Draw(t, "add?") != 0 {
					op = pick(t, "op", m.ops...)
				}
				th = append(th, one(t, op))
				total++
			}
			c.Threads = append(c.Threads, th)
		}
		return c
	}
}

// concNode is a node whose factory and search functions can take their time.
type concNode struct {
	addr  string
	srv   *rpc.KMeansServer
	cfg   atomic.Pointer[concCase]
	calls atomic.Uint64
	gate  atomic.Pointer[gate]
}

// gate blocks search functions of managers created while it is installed.
type gate struct {
	armed   atomic.Bool
	entered chan struct{}
	release chan struct{}
}

func (n *concNode) pause(every uint64) {
	d := n.cfg.Load().Delay
	k := n.calls.Add(1)
	if d == 0 {
		if k%3 == 0 {
			runtime.Gosched()
		}
		return
	}
	if k%every == 0 {
		time.Sleep(time.Duration(d) * time.Microsecond)
	}
}

func (n *concNode) wrap(f SearchF, g *gate) SearchF {
	return func(target []float64, vecs VecGen, k int) []int {
		if g != nil && g.armed.CompareAndSwap(true, false) {
			close(g.entered)
			<-g.release
		}
		n.pause(4)
		return f(target, vecs, k)
	}
}

func (n *concNode) factory(vec []float64) *Manager {
	c := n.cfg.Load()
	g := n.gate.Load()
	n.pause(1)
	m, _ := centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{
		InitVec: vec, InitCap: 4, CentroidDPThreshold: c.Threshold, KNNSearchFunc: n.wrap(knnOf(c.Euc), g), KFNSearchFunc: n.wrap(kfnOf(c.Euc), g)})
	return &m
}

var concPool []*concNode

func concNodes(x *X, k int, c *concCase) []*concNode {
	for len(concPool) < k {
		var last error
		for try := 0; try < 20; try++ {
			addr, err := freeAddr()
			if err != nil {
				last = err
				continue
			}
			n := &concNode{addr: addr}
			n.cfg.Store(c)
			n.srv = rpc.NewKMeansServer(addr, n.factory)
			if _, last = rpc.StartListen(n.srv); last == nil {
				concPool = append(concPool, n)
				break
			}
		}
		if last != nil {
			x.Env(last)
		}
	}
	for _, n := range concPool[:k] {
		n.srv.Table.Reset()
		n.cfg.Store(c)
		n.gate.Store(nil)
	}
	return concPool[:k]
}

func (n *concNode) state() state {
	s := state{}
	for _, ns := range n.srv.Table.Namespaces() {
		n.srv.Table.Access(ns, func(m *Manager) { s[ns] = snapNode(m) })
	}
	return s
}

// cevent is one finished request.
type cevent struct {
	op       NOp
	id       int // point of an add
	start    int64
	end      int64
	ok       bool
	n        int
	res      []DataPoint
	groups   int
	err      error
	meta     rpc.MetaResp
	names    []string
	transfer int
}

func (e *cevent) String() string {
	s := fmt.Sprintf("[%d-%d] %s node%d ns%d", e.start, e.end, e.op.Op, e.op.Node, e.op.Ns)
	switch e.op.Op {
	case "add":
		s += fmt.Sprintf(" point %d -> %v", e.id, e.ok)
	case "len":
		s += fmt.Sprintf(" -> %d", e.n)
	case "steal":
		s += fmt.Sprintf(" limit %d -> %d,%v", e.op.N, e.n, e.ok)
	default:
		s += fmt.Sprintf(" n=%d drain=%v -> %v", e.op.N, e.op.Drain, ids(e.res))
	}
	if e.err != nil {
		s += " err=" + e.err.Error()
	}
	return s
}

func (e *cevent) removes() bool {
	switch e.op.Op {
	case "drainU", "drainO":
		return true
	case "lookup", "near":
		return e.op.Drain
	}
	return false
}

func concName(i int) string { return fmt.Sprintf("ns%d", i) }

func doConc(ns []*concNode, e *cevent, dp DataPoint, clock *atomic.Int64) {
	op := e.op
	if op.Wait > 0 {
		time.Sleep(time.Duration(op.Wait) * time.Microsecond)
	}
	cl := rpc.KMeansClient(ns[op.Node].addr, concName(op.Ns), &e.err)
	other := ns[(op.Node+1)%len(ns)].addr
	e.start = clock.Add(1)
	switch op.Op {
	case "add":
		e.ok = cl.AddDataPoint(dp)
	case "drainU":
		e.res = cl.DrainUnordered(op.N)
	case "drainO":
		e.res = cl.DrainOrdered(op.N)
	case "lookup":
		e.res = cl.KNNLookup(op.V, op.N, op.Drain)
	case "near":
		cs, _ := cl.NearestCentroids(op.V, op.N, op.Drain)
		for _, c := range cs {
			e.res = append(e.res, c.DataPoints...)
		}
		e.groups = len(cs)
	case "nearVec":
		cl.NearestCentroidVec(op.V)
	case "vec":
		cl.Vec()
	case "len":
		e.n = cl.LenDP()
	case "split":
		cl.SplitCentroids(0, op.N)
	case "merge":
		cl.MergeCentroids(-1, op.N)
	case "distI":
		cl.DistributeDataPointsInternal(op.N)
	case "distF":
		cl.DistributeDataPointsFast([]string{other}, op.N)
	case "distA":
		cl.DistributeDataPointsAccurate([]string{other, ns[op.Node].addr}, op.N)
	case "expire":
		cl.Expire()
	case "trim":
		cl.MemTrim()
	case "move":
		cl.MoveVector()
	case "names":
		e.names = cl.Namespaces()
	case "meta":
		e.meta = cl.Meta()
	case "steal":
		e.n, e.ok = cl.StealCentroids(other, op.N)
	}
	e.end = clock.Add(1)
}

// runThreads runs the case and returns all events (preloading first).
func runThreads(x *X, c *concCase, nodes int) ([]*concNode, []*cevent, *Registry) {
	ns := concNodes(x, nodes, c)
	reg := &Registry{}
	var clock atomic.Int64
	var all []*cevent
	now := time.Now()
	mk := func(op NOp) (*cevent, DataPoint) {
		e := &cevent{op: op, id: -1}
		var dp DataPoint
		if op.Op == "add" {
			e.id, dp = reg.add(PSpec{V: op.V}, now)
		}
		all = append(all, e)
		return e, dp
	}
	for _, op := range c.Pre {
		e, dp := mk(op)
		call(x, "preload", func() { doConc(ns, e, dp, &clock) })
	}
	type job struct {
		e  *cevent
		dp DataPoint
	}
	var jobs [][]job
	for _, th := range c.Threads {
		var js []job
		for _, op := range th {
			e, dp := mk(op)
			js = append(js, job{e, dp})
		}
		jobs = append(jobs, js)
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for _, js := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, j := range js {
				doConc(ns, j.e, j.dp, &clock)
			}
		}()
	}
	close(start)
	call(x, "concurrent requests", wg.Wait)
	sort.SliceStable(all, func(i, j int) bool { return all[i].start < all[j].start })
	for _, e := range all {
		x.Tracef("%s", e)
		if e.err != nil && netTrouble(e.err) {
			x.Env(e.err)
		}
	}
	return ns, all, reg
}

func checkReply(x *X, e *cevent, reg *Registry) {
	seen := map[int]bool{}
	for _, d := range e.res {
		id := reg.verify(x, e.String(), d)
		if seen[id] {
			x.Failf("%s: point %d returned twice in one reply", e, id)
		}
		seen[id] = true
	}
	if e.op.Op != "near" && len(e.res) > e.op.N || e.op.Op == "near" && e.groups > e.op.N {
		x.Failf("%s: more returned than asked for", e)
	}
	if e.err != nil && !isNamespaceErr(e.err, concName(e.op.Ns)) {
		x.Failf("%s: unexpected error", e)
	}
	if e.op.Op == "add" && (e.err != nil || !e.ok) {
		x.Failf("%s: add refused although every point can be placed", e)
	}
	if e.op.Op == "names" {
		s := map[string]bool{}
		for _, n := range e.names {
			if s[n] {
				x.Failf("%s: namespace %q listed twice", e, n)
			}
			s[n] = true
		}
	}
}

func runConserve(x *X, c concCase) {
	ns, all, reg := runThreads(x, &c, 2)
	checkConserved(x, ns, all, reg)
	if len(c.Pre) == 0 {
		x.Label("first use under concurrency")
	}
}

// checkConserved: every acknowledged point is held once or was handed out once.
func checkConserved(x *X, ns []*concNode, all []*cevent, reg *Registry) {
	owed := map[int]int{} // point -> namespace
	given := map[int]string{}
	for _, e := range all {
		checkReply(x, e, reg)
		if e.op.Op == "add" && e.ok {
			owed[e.id] = e.op.Ns
		}
	}
	for _, e := range all {
		for _, d := range e.res {
			id := idOf(d)
			if n, ok := owed[id]; !ok || n != e.op.Ns {
				x.Failf("%s: returned point %d of namespace %d", e, id, n)
			}
			if e.removes() {
				if by, ok := given[id]; ok {
					x.Failf("%s: point %d was already returned by %s", e, id, by)
				}
				given[id] = e.String()
			}
		}
	}
	held := map[int]int{}
	for k, n := range ns {
		for name, s := range n.state() {
			for _, d := range s.all() {
				id := reg.verify(x, "afterwards", d)
				if held[id]++; held[id] > 1 {
					x.Failf("afterwards point %d is stored more than once (again on node %d)", id, k)
				}
				if by, ok := given[id]; ok {
					x.Failf("afterwards point %d is still stored on node %d although returned by %s", id, k, by)
				}
				if concName(owed[id]) != name {
					x.Failf("afterwards point %d is in namespace %q, was added to %q", id, name, concName(owed[id]))
				}
			}
		}
	}
	for id := range owed {
		if held[id] == 0 && given[id] == "" {
			x.Failf("acknowledged point %d is neither stored nor was it returned", id)
		}
	}
	// overlapping requests of different threads in one namespace, one of them changing data
	kinds := map[string]bool{}
	overlap := false
	for i, a := range all {
		for _, b := range all[i+1:] {
			if b.start < a.end && a.op.Ns == b.op.Ns && a.op.Node == b.op.Node {
				overlap = true
				kinds[a.op.Op+"/"+b.op.Op] = true
			}
		}
	}
	if overlap {
		x.NonTrivial()
	}
	for k := range kinds {
		if strings.Contains(k, "steal") || strings.Contains(k, "distF") || strings.Contains(k, "distA") || k == "add/add" {
			x.Label("overlap " + k)
		}
	}
}

// ---- linearizability of small histories ------------------------------------------------------

// linState: bit 63 = the namespace exists, other bits = stored points.
const linExists = uint64(1) << 63

func linStep(s uint64, e *cevent) (uint64, bool) {
	if s&linExists == 0 && e.op.Op != "add" {
		return s, e.err != nil
	}
	if e.err != nil {
		return s, false
	}
	pts := s &^ linExists
	cnt := bits.OnesCount64(pts)
	var set uint64
	for _, d := range e.res {
		set |= 1 << uint(idOf(d))
	}
	if set&^pts != 0 {
		return s, false
	}
	switch e.op.Op {
	case "add":
		b := uint64(1) << uint(e.id)
		return s | b | linExists, s&b == 0
	case "len":
		return s, e.n == cnt
	case "drainU", "drainO":
		return s &^ set, len(e.res) == min(e.op.N, cnt)
	case "lookup":
		if len(e.res) != min(e.op.N, cnt) {
			return s, false
		}
		if e.op.Drain {
			s &^= set
		}
		return s, true
	case "near":
		if e.op.Drain {
			s &^= set
		}
		return s, true
	}
	return s, true
}

func linearizable(evs []*cevent) bool {
	type key struct {
		done  uint64
		state uint64
	}
	seen := map[key]bool{}
	var rec func(done, st uint64, left int) bool
	rec = func(done, st uint64, left int) bool {
		if left == 0 {
			return true
		}
		k := key{done, st}
		if seen[k] {
			return false
		}
		seen[k] = true
		// an event may come next when no other pending event ended before it started
		minEnd := int64(1 << 62)
		for i, e := range evs {
			if done>>uint(i)&1 == 0 && e.end < minEnd {
				minEnd = e.end
			}
		}
		for i, e := range evs {
			if done>>uint(i)&1 == 1 || e.start > minEnd {
				continue
			}
			if ns, ok := linStep(st, e); ok && rec(done|1<<uint(i), ns, left-1) {
				return true
			}
			// The namespace may be there (empty) before the point is.
			if e.op.Op == "add" && st&linExists == 0 && rec(done, st|linExists, left) {
				return true
			}
		}
		return false
	}
	return rec(0, 0, len(evs))
}

func runLinear(x *X, c concCase) {
	ns, all, reg := runThreads(x, &c, 1)
	for sp := 0; sp < c.Spaces; sp++ {
		var evs []*cevent
		overlap := false
		for _, e := range all {
			checkReply(x, e, reg)
			if e.op.Op == "meta" {
				if n, ok := e.meta.DPs[concName(sp)]; ok {
					evs = append(evs, &cevent{op: NOp{Op: "len", Ns: sp}, start: e.start, end: e.end, n: n})
				}
				continue
			}
			if e.op.Ns == sp && e.op.Op != "names" {
				evs = append(evs, e)
			}
		}
		for i := range evs {
			overlap = overlap || i > 0 && evs[i].start < evs[i-1].end
		}
		// the final content is one more observation
		var fin []DataPoint
		if s, ok := ns[0].state()[concName(sp)]; ok {
			fin = s.all()
			evs = append(evs, &cevent{op: NOp{Op: "lookup", Ns: sp, N: len(fin)}, res: fin, start: 1 << 60, end: 1<<60 + 1},
				&cevent{op: NOp{Op: "len", Ns: sp}, n: len(fin), start: 1<<60 + 2, end: 1<<60 + 3})
		}
		if len(evs) > 60 || len(reg.pts) > 60 {
			continue
		}
		if !linearizable(evs) {
			x.Failf("the replies of namespace %d (finally holding %v) do not correspond to any serial order of the requests", sp, ids(fin))
		}
		if overlap && len(evs) >= 4 {
			x.NonTrivial()
		}
	}
}

// ---- mutual exclusion and independence ---------------------------------------------------------

type blockCase struct {
	Dim    int    `json:"dim"`
	Holder string `json:"holder"` // request kept inside namespace A
	Same   string `json:"same"`   // request on A which must wait
	Others []NOp  `json:"others"` // requests on other namespaces which must not wait
	Pre    int    `json:"pre"`
}

func genBlock(t *rapid.T) blockCase {
	c := blockCase{Dim: rapid.IntRange(1, 3).Draw(t, "dim"), Pre: rapid.IntRange(2, 8).Draw(t, "pre"),
		Holder: pick(t, "holder", "add", "lookup", "lookupDrain", "near", "nearDrain", "nearVec", "distI", "drainO"),
		Same:   pick(t, "same", "add", "len", "vec", "drainU", "trim", "move", "lookup", "split", "merge", "expire", "nearVec", "near", "distI", "drainO")}
	k := rapid.IntRange(1, 5).Draw(t, "others")
	for i := 0; i < k; i++ {
		c.Others = append(c.Others, NOp{Op: pick(t, "op", "add", "addNew", "len", "vec", "drainU", "drainO", "lookup", "near", "nearVec", "split", "merge", "trim", "move", "expire", "distI", "names", "missing"), N: rapid.IntRange(1, 3).Draw(t, "n"), Drain: rapid.Bool().Draw(t, "drain")})
	}
	return c
}

func runBlock(x *X, c blockCase) {
	cc := &concCase{Threshold: 0}
	n := concNodes(x, 1, cc)[0]
	g := &gate{entered: make(chan struct{}), release: make(chan struct{})}
	vec := func(i int) []float64 {
		v := make([]float64, c.Dim)
		for j := range v {
			v[j] = float64((i*7+j*3)%5 + 1)
		}
		return v
	}
	reg := &Registry{}
	put := func(name string, i int) {
		_, dp := reg.add(PSpec{V: vec(i)}, time.Now())
		var ok bool
		if err := n.srv.AddDataPoint(rpc.AddDataPointArgs{NameSpace: name, DP: dp}, &ok); err != nil || !ok {
			x.Failf("preparing: add refused (%v)", err)
		}
	}
	n.gate.Store(g)
	for i := 0; i < c.Pre; i++ {
		put("A", i)
	}
	n.gate.Store(nil)
	for i := 0; i < c.Pre; i++ {
		put("B", i)
	}
	do := func(op, name string, k int, drain bool) error {
		var err error
		cl := rpc.KMeansClient(n.addr, name, &err)
		switch op {
		case "add":
			cl.AddDataPoint(DataPoint{Vec: vec(k), Payload: []byte("999999|")})
		case "addNew":
			rpc.KMeansClient(n.addr, fmt.Sprintf("new%d", k), &err).AddDataPoint(DataPoint{Vec: vec(k), Payload: []byte("999999|")})
		case "lookup":
			cl.KNNLookup(vec(k), k, drain)
		case "lookupDrain":
			cl.KNNLookup(vec(k), k, true)
		case "near":
			cl.NearestCentroids(vec(k), k, drain)
		case "nearDrain":
			cl.NearestCentroids(vec(k), k, true)
		case "nearVec":
			cl.NearestCentroidVec(vec(k))
		case "len":
			cl.LenDP()
		case "vec":
			cl.Vec()
		case "drainU":
			cl.DrainUnordered(k)
		case "drainO":
			cl.DrainOrdered(k)
		case "trim":
			cl.MemTrim()
		case "move":
			cl.MoveVector()
		case "split":
			cl.SplitCentroids(100, 200)
		case "merge":
			cl.MergeCentroids(100, 200)
		case "expire":
			cl.Expire()
		case "distI":
			cl.DistributeDataPointsInternal(k)
		case "names":
			cl.Namespaces()
		case "missing":
			rpc.KMeansClient(n.addr, "not there", nil).LenDP()
		}
		return err
	}
	var wg sync.WaitGroup
	var open sync.Once
	release := func() { open.Do(func() { close(g.release) }) }
	defer func() {
		release()
		wg.Wait()
	}()
	g.armed.Store(true)
	wg.Add(1)
	holderDone := make(chan struct{})
	go func() { defer wg.Done(); defer close(holderDone); do(c.Holder, "A", 2, false) }()
	select {
	case <-g.entered:
	case <-holderDone:
		x.Label("holder uses no search function: " + c.Holder)
		return
	case <-time.After(45 * time.Second):
		hung("holding request did not start")
	}
	// A request on the held namespace must not get through ...
	var sameDone atomic.Bool
	wg.Add(1)
	go func() { defer wg.Done(); do(c.Same, "A", 3, false); sameDone.Store(true) }()
	// ... while others must.
	for i, o := range c.Others {
		done := make(chan error, 1)
		go func() { done <- do(o.Op, "B", o.N+i, o.Drain) }()
		select {
		case err := <-done:
			if err != nil {
				if netTrouble(err) {
					x.Env(err)
				}
				x.Failf("%s on another namespace failed while %s was in progress: %v", o.Op, c.Holder, err)
			}
		case <-time.After(40 * time.Second):
			x.Failf("%s on another namespace did not complete while %s was in progress in its namespace", o.Op, c.Holder)
		}
	}
	time.Sleep(3 * time.Millisecond)
	readers := map[string]bool{"lookup": true, "near": true, "nearVec": true, "len": true, "vec": true}
	if sameDone.Load() && !(readers[c.Holder] && readers[c.Same]) {
		x.Failf("%s completed on a namespace while %s was in progress there", c.Same, c.Holder)
	}
	x.Label("held by " + c.Holder)
	x.NonTrivial()
	release()
	call(x, "requests after release", wg.Wait)
}

func init() {
	all := []string{"drainU", "drainO", "lookup", "lookup", "near", "near", "nearVec", "vec", "len", "split", "merge", "distI", "distF", "distA", "expire", "trim", "move", "names", "meta", "steal", "steal"}
	reg(Facet{Prop: "R04", Name: "conserve", Quick: 6000, Thorough: 120000,
		Rule: "2-6 concurrent clients of two nodes (race-detector build, slowed-down factory and search functions), all request kinds; non-trivial: requests of one namespace overlapped in time"},
		genConc(concMix{ops: all, nodes: 2, threads: 6, perThread: 6, preload: 12, maxSpaces: 2, maxTotalOp: 40}), runConserve)
	reg(Facet{Prop: "R04", Name: "linear", Quick: 6000, Thorough: 120000,
		Rule: "small concurrent histories on one node checked for an equivalent serial order; non-trivial: at least 4 requests of a namespace, some overlapping"},
		genConc(concMix{ops: []string{"drainU", "drainO", "lookup", "lookup", "near", "len", "len", "split", "merge", "distI", "trim", "meta", "expire"}, nodes: 1, threads: 5, perThread: 4, preload: 6, maxSpaces: 2, maxTotalOp: 14}), runLinear)
	reg(Facet{Prop: "R04", Name: "independence", Quick: 1200, Thorough: 20000,
		Rule: "a request is held inside one namespace: others of the same must wait, others must complete; non-trivial: the request could be held"}, genBlock, runBlock)
}
