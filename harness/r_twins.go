package h

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
	"trypo/core/dps"
	"trypo/pkg/kmeans/common"
	"trypo/pkg/kmeans/rpc"
	"trypo/pkg/searchutils"
)

// Conservation for points that cannot be told apart: the other facets give each
// point an identity of its own, so anything keyed on content (deduplication,
// overwriting, maps) would not show there. Here a handful of contents, with and
// without payload, are added over and over and only counted.

type twinOp struct {
	Op    string    `json:"op"`
	C     int       `json:"c,omitempty"` // content
	N     int       `json:"n,omitempty"`
	Node  int       `json:"node,omitempty"`
	To    []int     `json:"to,omitempty"`
	Mode  int       `json:"mode,omitempty"`
	Drain bool      `json:"drain,omitempty"`
	V     []float64 `json:"v,omitempty"`
}

type twinContent struct {
	V   []float64 `json:"v"`
	Pay string    `json:"pay,omitempty"`
	Nil bool      `json:"nil,omitempty"`
	Exp int       `json:"exp,omitempty"` // 0: none, 1: enabled far future, 2: disabled and past
}

type twinCase struct {
	Euc       bool          `json:"euc"`
	Threshold int           `json:"threshold"`
	Nodes     int           `json:"nodes"`
	Cs        []twinContent `json:"cs"`
	Ops       []twinOp      `json:"ops"`
}

var twinFuture = time.Date(2180, 1, 2, 3, 4, 5, 6, time.UTC)

func (c twinContent) make() DataPoint {
	d := DataPoint{Vec: cp(c.V), Payload: []byte(c.Pay)}
	if c.Pay == "" && c.Nil {
		d.Payload = nil
	}
	switch c.Exp {
	case 1:
		d.ExpireEnabled, d.Expires = true, twinFuture
	case 2:
		d.Expires = noPayloadEpoch
	}
	return d
}

func contentKey(d DataPoint) string {
	return fmt.Sprintf("%v|%q|%v|%d", d.Vec, d.Payload, d.ExpireEnabled, d.Expires.UnixNano())
}

func genTwins(ops ...string) func(*rapid.T) twinCase {
	return func(t *rapid.T) twinCase {
		c := twinCase{Euc: rapid.Bool().Draw(t, "euc"), Threshold: pick(t, "threshold", 0, 2, 3, 4, 6), Nodes: rapid.IntRange(1, 3).Draw(t, "nodes")}
		dim := rapid.IntRange(1, 3).Draw(t, "dim")
		st := VecStyle{Kind: 0, Scale: 1}
		pool := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) []float64 { return genVec(t, dim, st) }), 1, 3).Draw(t, "vecs")
		for i, k := 0, rapid.IntRange(1, 4).Draw(t, "contents"); i < k; i++ {
			c.Cs = append(c.Cs, twinContent{V: pool[rapid.IntRange(0, len(pool)-1).Draw(t, "v")],
				Pay: pick(t, "pay", "", "", "a", "b", "same payload"), Nil: rapid.Bool().Draw(t, "nil"), Exp: pick(t, "exp", 0, 0, 0, 1, 2)})
		}
		op := rapid.Custom(func(t *rapid.T) twinOp {
			o := twinOp{Op: pick(t, "op", ops...), C: rapid.IntRange(0, len(c.Cs)-1).Draw(t, "c"), N: genCount(t, "n", 4), Node: rapid.IntRange(0, c.Nodes-1).Draw(t, "node")}
			switch o.Op {
			case "lookup", "near", "get":
				o.V, o.Drain = pool[rapid.IntRange(0, len(pool)-1).Draw(t, "q")], rapid.Bool().Draw(t, "drain")
			}
			if o.Op != "add" {
				o.Mode = rapid.IntRange(0, 2).Draw(t, "mode")
				o.To = rapid.SliceOfN(rapid.IntRange(0, c.Nodes-1), 0, 3).Draw(t, "to")
			}
			return o
		})
		c.Ops = rapid.SliceOfN(op, 1, 30).Draw(t, "ops")
		return c
	}
}

type tally struct {
	want map[string]int
	n    int
}

func (ta *tally) add(d DataPoint) { ta.want[contentKey(d)]++; ta.n++ }
func (ta *tally) take(x *X, what string, ds []DataPoint) {
	for _, d := range ds {
		k := contentKey(d)
		if ta.want[k] == 0 {
			x.Failf("%s returned a point more often than it was stored: %s", what, k)
		}
		ta.want[k]--
		ta.n--
	}
}

func (ta *tally) check(x *X, what string, held ...[]DataPoint) {
	got := map[string]int{}
	for _, l := range held {
		for _, d := range l {
			got[contentKey(d)]++
		}
	}
	var diff []string
	for k, n := range ta.want {
		if got[k] != n {
			diff = append(diff, fmt.Sprintf("%s: %d stored, %d held", k, n, got[k]))
		}
	}
	for k, n := range got {
		if _, ok := ta.want[k]; !ok {
			diff = append(diff, fmt.Sprintf("%s: never stored, %d held", k, n))
		}
	}
	if len(diff) > 0 {
		sort.Strings(diff)
		x.Failf("after %s equal points were lost, multiplied or altered: %s", what, strings.Join(diff, "; "))
	}
	for _, n := range got {
		if n > 1 {
			x.NonTrivial()
		}
	}
}

type sink struct {
	vec []float64
	got []DataPoint
	max int
}

func (s *sink) Vec() []float64 { return s.vec }
func (s *sink) AddDataPoint(d DataPoint) bool {
	if len(s.got) >= s.max {
		return false
	}
	s.got = append(s.got, d)
	return true
}

func runTwinsCluster(x *X, c twinCase) {
	cl := newCentroid(x, c.Euc, make([]float64, len(c.Cs[0].V)))
	ta := &tally{want: map[string]int{}}
	for i, op := range c.Ops {
		what := fmt.Sprintf("op %d %s", i, op.Op)
		var res []DataPoint
		switch op.Op {
		case "add":
			d := c.Cs[op.C].make()
			if !cl.AddDataPoint(d) {
				x.Failf("%s: a live point of the right dimension was refused", what)
			}
			ta.add(d)
		case "drainU":
			res = cl.DrainUnordered(op.N)
		case "drainO":
			res = cl.DrainOrdered(op.N)
		case "lookup":
			if r := cl.KNNLookup(op.V, op.N, op.Drain); op.Drain {
				res = r
			} else {
				(&tally{want: clone(ta.want)}).take(x, what, r)
			}
		case "trim":
			cl.MemTrim()
		case "expire":
			cl.Expire()
		case "dist":
			s := &sink{vec: c.Cs[op.C].V, max: op.Mode}
			cl.DistributeDataPoints(op.N, []common.DataPointReceiver{s, cl}[:1+op.Mode%2])
			res = s.got
		}
		ta.take(x, what, res)
		ta.check(x, what, cl.DataPoints)
	}
}

func clone(m map[string]int) map[string]int {
	r := map[string]int{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func runTwinsNode(x *X, c twinCase) {
	m := newManager(x, c.Euc, c.Cs[0].V, c.Threshold)
	ta := &tally{want: map[string]int{}}
	for i, op := range c.Ops {
		what := fmt.Sprintf("op %d %s", i, op.Op)
		var res []DataPoint
		sel := func(cl *Centroid) bool { return cl.LenDP() > op.Mode && len(m.Centroids) < 20 }
		switch op.Op {
		case "add":
			d := c.Cs[op.C].make()
			if !m.AddDataPoint(d) {
				x.Failf("%s: a live point of the right dimension was refused", what)
			}
			ta.add(d)
		case "drainU":
			res = m.DrainUnordered(op.N)
		case "drainO":
			res = m.DrainOrdered(op.N)
		case "lookup":
			if r := m.KNNLookup(op.V, op.N, op.Drain); op.Drain {
				res = r
			} else {
				(&tally{want: clone(ta.want)}).take(x, what, r)
			}
		case "near":
			cs, _ := m.NearestCentroids(op.V, op.Mode, op.Drain)
			for _, cl := range cs {
				if op.Drain {
					res = append(res, cl.DataPoints...)
				}
			}
		case "split":
			m.SplitCentroids(sel)
		case "merge":
			m.MergeCentroids(func(cl *Centroid) bool { return cl.LenDP() < op.N })
		case "trim":
			m.MemTrim()
		case "expire":
			m.Expire()
		case "internal":
			m.DistributeDataPointsInternal(op.N)
		case "dist":
			s := &sink{vec: c.Cs[op.C].V, max: op.Mode}
			m.DistributeDataPoints(op.N, []common.DataPointReceiver{s})
			res = s.got
		}
		ta.take(x, what, res)
		var held [][]DataPoint
		for _, cl := range m.Centroids {
			held = append(held, cl.DataPoints)
		}
		ta.check(x, what, held...)
		if m.LenDP() != ta.n {
			x.Failf("%s: %d points reported, %d held", what, m.LenDP(), ta.n)
		}
	}
}

func runTwinsNet(x *X, c twinCase) {
	ns := poolNodes(x, c.Nodes, nodeCfg{false, c.Threshold})
	ta := &tally{want: map[string]int{}}
	for i, op := range c.Ops {
		what := fmt.Sprintf("op %d %s", i, op.Op)
		n := ns[op.Node]
		var err error
		cl := rpc.KMeansClient(n.addr, mainNS, &err)
		var to []string
		var toA []dps.Addr
		for _, k := range op.To {
			to = append(to, ns[k].addr)
		}
		for k := range ns {
			toA = append(toA, toAddr(ns[(k+op.Mode)%len(ns)].addr))
		}
		call(x, what, func() {
			var res []DataPoint
			switch op.Op {
			case "add":
				d := c.Cs[op.C].make()
				if !cl.AddDataPoint(d) {
					if err != nil && netTrouble(err) {
						x.Env(err)
					}
					x.Failf("%s: a live point of the right dimension was refused (%v)", what, err)
				}
				ta.add(d)
			case "drainU":
				res = cl.DrainUnordered(op.N)
			case "drainO":
				res = cl.DrainOrdered(op.N)
			case "lookup":
				if r := cl.KNNLookup(op.V, op.N, op.Drain); op.Drain {
					res = r
				} else {
					(&tally{want: clone(ta.want)}).take(x, what, r)
				}
			case "distF":
				cl.DistributeDataPointsFast(to, op.N)
			case "distA":
				cl.DistributeDataPointsAccurate(to, op.N)
			case "steal":
				if len(to) > 0 {
					cl.StealCentroids(to[0], op.N)
				}
			case "trim":
				cl.MemTrim()
			case "put":
				d := c.Cs[op.C].make()
				args := dps.PutDataPointArgs{AddrOptions: toA, Namespace: mainNS, DataPoint: d, KNNSearchFunc: searchutils.KNNCos}
				ok := []func(dps.PutDataPointArgs) bool{dps.PutDataPointFast, dps.PutDataPointAccurate, dps.PutDataPointRand}[op.Mode](args)
				if ok {
					ta.add(d)
				} else if op.Mode == 2 {
					x.Failf("%s: a live point of the right dimension was refused", what)
				}
			case "get":
				args := dps.GetDataPointsArgs{AddrOptions: toA, Namespace: mainNS, QueryVec: op.V, N: op.N, Drain: op.Drain, KNNSearchFunc: searchutils.KNNCos}
				r := []func(dps.GetDataPointsArgs) []DataPoint{dps.GetDataPointsFast, dps.GetDataPointsAccurate, dps.GetDataPointsRand}[op.Mode](args)
				if want := min(max(op.N, 0), ta.n); len(r) != want {
					x.Failf("%s: asked for %d of %d points, got %d", what, op.N, ta.n, len(r))
				}
				if op.Drain {
					res = r
				} else {
					(&tally{want: clone(ta.want)}).take(x, what, r)
				}
			}
			ta.take(x, what, res)
		})
		var held [][]DataPoint
		for _, n := range ns {
			if s, ok := n.state()[mainNS]; ok {
				held = append(held, s.all())
			}
		}
		ta.check(x, what, held...)
	}
}

func init() {
	rule := "histories over at most four indistinguishable contents (with and without payload), counted; non-trivial: equal points are held together"
	reg(Facet{Prop: "C02", Name: "cluster-twins", Quick: 20000, Thorough: 600000, Rule: rule},
		genTwins("add", "add", "add", "add", "drainU", "drainO", "lookup", "dist", "trim", "expire"), runTwinsCluster)
	reg(Facet{Prop: "M02", Name: "node-twins", Quick: 20000, Thorough: 600000, Rule: rule},
		genTwins("add", "add", "add", "add", "add", "drainU", "drainO", "lookup", "near", "split", "merge", "dist", "internal", "trim", "expire"), runTwinsNode)
	net := func(p string, q int, ops ...string) {
		reg(Facet{Prop: p, Name: "net-twins", Quick: q, Thorough: q * 30, Rule: rule}, genTwins(ops...), runTwinsNet)
	}
	net("R03", 3000, "add", "add", "add", "add", "drainU", "lookup", "trim")
	net("R05", 2500, "add", "add", "add", "add", "distF", "distA")
	net("R06", 3000, "add", "add", "add", "add", "steal", "steal", "trim")
	net("D01", 3000, "put", "put", "put", "put", "add", "drainU")
	net("D02", 3000, "put", "add", "add", "add", "get", "get", "drainO")
}
