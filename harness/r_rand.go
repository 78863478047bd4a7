package h

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"trypo/core/dps"
	"trypo/core/nodes"
	"trypo/pkg/kmeans/rpc"
)

// ---- D03: random puts and gets -------------------------------------------------------------

type randCase struct {
	Nodes int   `json:"nodes"`
	Order []int `json:"order"` // positions of the nodes in the list of addresses, -1: nobody listens
	Get   bool  `json:"get"`
	Drain bool  `json:"drain"`
	N     int   `json:"n"`
	Dim   int   `json:"dim"`
	Pre   []int `json:"pre"` // points on each node
}

func genRand(get bool) func(t *rapid.T) randCase {
	return func(t *rapid.T) randCase {
		c := randCase{Nodes: rapid.IntRange(2, 5).Draw(t, "nodes"), Get: get, Dim: rapid.IntRange(1, 4).Draw(t, "dim"), N: 1}
		var at []int
		for i := 0; i < c.Nodes; i++ {
			at = append(at, i)
			n := rapid.IntRange(0, 4).Draw(t, "pre")
			if get {
				n++
			}
			c.Pre = append(c.Pre, n)
		}
		for i := rapid.IntRange(0, 2).Draw(t, "dead"); i > 1; i-- {
			at = append(at, -1)
		}
		c.Order = rapid.Permutation(at).Draw(t, "order")
		if get {
			c.Drain = rapid.IntRange(0, 3).Draw(t, "drain") == 0
			c.N = rapid.IntRange(1, 3).Draw(t, "n")
		}
		return c
	}
}

// A node comes first in more than one of 17 tries (six addresses), so 500
// tries miss it with a probability below 1e-12.
const randTries = 500

func runRand(x *X, c randCase) {
	ns := poolNodes(x, c.Nodes, nodeCfg{false, 0})
	var as []nodes.Addr
	for _, i := range c.Order {
		if i < 0 {
			as = append(as, toAddr(deadAddr()))
		} else {
			as = append(as, toAddr(ns[i].addr))
		}
	}
	vec := make([]float64, c.Dim)
	vec[0] = 1
	owner := map[string]int{}
	add := func(i, k int) {
		p := fmt.Sprintf("%d/%d", i, k)
		owner[p] = i
		if !localAdd(ns[i], mainNS, DataPoint{Vec: cp(vec), Payload: []byte(p)}) {
			x.Failf("preparing: the point is refused")
		}
	}
	for i, n := range c.Pre {
		for k := 0; k < n; k++ {
			add(i, k)
		}
	}
	held := func() (r []int) {
		for _, n := range ns {
			r = append(r, len(n.state()[mainNS].all()))
		}
		return
	}
	before := held()
	used := make([]int, c.Nodes)
	given := append([]nodes.Addr{}, as...)
	for try := 0; try < randTries; try++ {
		if !c.Get {
			var ok bool
			call(x, "put", func() {
				ok = dps.PutDataPointRand(dps.PutDataPointArgs{AddrOptions: as, Namespace: mainNS, DataPoint: DataPoint{Vec: cp(vec), Payload: []byte(fmt.Sprint("new", try))}, KNNSearchFunc: knnOf(false)})
			})
			if !ok {
				x.Failf("random put %d failed although %d nodes are there", try, c.Nodes)
			}
			continue
		}
		var got []DataPoint
		call(x, "get", func() {
			got = dps.GetDataPointsRand(dps.GetDataPointsArgs{AddrOptions: as, Namespace: mainNS, QueryVec: vec, N: c.N, Drain: c.Drain})
		})
		if len(got) == 0 || len(got) > c.N {
			x.Failf("random get %d of %d: %d points", try, c.N, len(got))
		}
		// The first one comes from the node asked first.
		i, ok := owner[string(got[0].Payload)]
		if !ok {
			x.Failf("random get %d: unknown point %v", try, got[0])
		}
		used[i]++
		if c.Drain {
			for _, p := range got {
				i, ok := owner[string(p.Payload)]
				if !ok {
					x.Failf("random get %d: unknown point %v", try, p)
				}
				if !localAdd(ns[i], mainNS, p) {
					x.Failf("putting %v back: refused", p)
				}
			}
		}
	}
	for i := range as {
		if as[i] != given[i] {
			x.Failf("the list of addresses was changed from %v to %v", given, as)
		}
	}
	after := held()
	if !c.Get {
		sum := 0
		for i := range used {
			used[i] = after[i] - before[i]
			sum += used[i]
		}
		if sum != randTries {
			x.Failf("%d puts stored %d points", randTries, sum)
		}
	}
	what := map[bool]string{false: "puts", true: "gets"}[c.Get]
	for i, n := range used {
		if n == 0 {
			x.Failf("of %d random %s none used node %d (position %s): %v", randTries, what, i, strings.Trim(fmt.Sprint(c.Order), "[]"), used)
		}
	}
	x.NonTrivial()
}

func init() {
	reg(Facet{Prop: "D03", Name: "random-puts", Quick: 160, Thorough: 4000, Rule: "500 random puts with an unchanged list of 2-6 addresses, one at times dead: every live node gets some; non-trivial: all"}, genRand(false), runRand)
	reg(Facet{Prop: "D03", Name: "random-gets", Quick: 160, Thorough: 4000, Rule: "500 random gets of 1-3 points from 2-5 nodes: every live node is asked first at times; non-trivial: all"}, genRand(true), runRand)
}

func localAdd(n *netNode, ns string, dp DataPoint) bool {
	var ok bool
	err := n.srv.AddDataPoint(rpc.AddDataPointArgs{NameSpace: ns, DP: dp}, &ok)
	return err == nil && ok
}
