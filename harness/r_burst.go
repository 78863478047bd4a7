package h

import (
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	"trypo/pkg/kmeans/rpc"
)

// ---- bursts of concurrent in-process requests (race-detector build) ---------------------------

type burstCase struct {
	concCase
	Rounds int `json:"rounds"`
}

func genBurst(ops ...string) func(t *rapid.T) burstCase {
	return func(t *rapid.T) burstCase { return drawBurst(t, ops) }
}

func drawBurst(t *rapid.T, ops []string) burstCase {
	c := genConc(concMix{ops: ops, nodes: 1, threads: 8, perThread: 3, maxSpaces: 2, maxTotalOp: 24})(t)
	c.Pre, c.Delay = nil, 0
	for _, th := range c.Threads {
		for i := range th {
			th[i].Wait = pick(t, "spin", 0, 0, 0, 1, 5, 30)
		}
	}
	return burstCase{c, rapid.IntRange(20, 120).Draw(t, "rounds")}
}

func doDirect(srv *rpc.KMeansServer, e *cevent, dp DataPoint, clock *atomic.Int64) {
	op, ns := e.op, concName(e.op.Ns)
	for i := 0; i < op.Wait; i++ {
		runtime.Gosched()
	}
	var none int
	var vec []float64
	e.start = clock.Add(1)
	switch op.Op {
	case "add":
		e.err = srv.AddDataPoint(rpc.AddDataPointArgs{NameSpace: ns, DP: dp}, &e.ok)
	case "drainU":
		e.err = srv.DrainUnordered(rpc.DrainArgs{NameSpace: ns, N: op.N}, &e.res)
	case "drainO":
		e.err = srv.DrainOrdered(rpc.DrainArgs{NameSpace: ns, N: op.N}, &e.res)
	case "lookup":
		e.err = srv.KNNLookup(rpc.KNNLookupArgs{NameSpace: ns, Vec: op.V, K: op.N, Drain: op.Drain}, &e.res)
	case "near":
		var cs []*Centroid
		e.err = srv.NearestCentroids(rpc.NearestCentroidArgs{NameSpace: ns, Vec: op.V, N: op.N, Drain: op.Drain}, &cs)
		for _, c := range cs {
			e.res = append(e.res, c.DataPoints...)
		}
		e.groups = len(cs)
	case "vec":
		e.err = srv.Vec(ns, &vec)
	case "len":
		e.err = srv.LenDP(ns, &e.n)
	case "split":
		e.err = srv.SplitCentroids(rpc.SplitCentroidsArgs{NameSpace: ns, DPRangeMin: 0, DPRangeMax: op.N}, &none)
	case "merge":
		e.err = srv.MergeCentroids(rpc.SplitCentroidsArgs{NameSpace: ns, DPRangeMin: -1, DPRangeMax: op.N}, &none)
	case "distI":
		e.err = srv.DistributeDataPointsInternal(rpc.DistribDPIArgs{NameSpace: ns, N: op.N}, &none)
	case "expire":
		e.err = srv.Expire(ns, &none)
	case "trim":
		e.err = srv.MemTrim(ns, &none)
	case "move":
		e.err = srv.MoveVector(ns, &e.ok)
	case "names":
		e.err = srv.Namespaces(0, &e.names)
	case "meta":
		e.err = srv.Meta(0, &e.meta)
	}
	e.end = clock.Add(1)
}

func runBurst(x *X, c burstCase) {
	ns := concNodes(x, 1, &c.concCase)
	now := time.Now()
	for r := 0; r < c.Rounds; r++ {
		ns[0].srv.Table.Reset()
		reg := &Registry{}
		var clock atomic.Int64
		var all []*cevent
		var ready atomic.Int32
		var wg sync.WaitGroup
		for _, th := range c.Threads {
			var es []*cevent
			var dps []DataPoint
			for _, op := range th {
				e := &cevent{op: op, id: -1}
				var dp DataPoint
				if op.Op == "add" {
					e.id, dp = reg.add(PSpec{V: op.V}, now)
				}
				es, dps = append(es, e), append(dps, dp)
			}
			all = append(all, es...)
			wg.Add(1)
			go func() {
				defer wg.Done()
				ready.Add(1)
				for int(ready.Load()) < len(c.Threads) {
					runtime.Gosched()
				}
				for i, e := range es {
					doDirect(ns[0].srv, e, dps[i], &clock)
				}
			}()
		}
		call(x, "concurrent requests", wg.Wait)
		sort.SliceStable(all, func(i, j int) bool { return all[i].start < all[j].start })
		x.Tracef("round %d", r)
		for _, e := range all {
			x.Tracef("%s", e)
		}
		checkConserved(x, ns, all, reg)
	}
}

func init() {
	reg(Facet{Prop: "R04", Name: "burst", Quick: 1600, Thorough: 60000,
		Rule: "2-8 threads start the same short mix of requests on an empty node at the same instant, 20-120 times over (endpoints called in-process, so that first uses of a namespace meet within nanoseconds); non-trivial: requests of one namespace overlapped in time"},
		genBurst("add", "add", "drainU", "drainO", "lookup", "near", "len", "split", "merge", "distI", "trim", "meta", "names", "expire", "move", "vec"), runBurst)
	reg(Facet{Prop: "R03", Name: "ack-burst", Quick: 9000, Thorough: 100000,
		Rule: "2-8 threads add points to the same new namespaces at the same instant, 20-120 times over; non-trivial: adds of one namespace overlapped in time"},
		genBurst("add", "add", "add", "len", "names"), runBurst)
}
