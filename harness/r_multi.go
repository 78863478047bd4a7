package h

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"

	"trypo/pkg/kmeans/rpc"
)

// ---- several nodes: distribution, stealing ----------------------------------------------

// ASpec is an address given to a node or a client.
type ASpec struct {
	Kind  string   `json:"kind"` // node, proxy, dead, bad
	Node  int      `json:"node"`
	Cut   []string `json:"cut,omitempty"`
	After int      `json:"after,omitempty"`
	Slow  int      `json:"slow,omitempty"`  // milliseconds by which requests are delayed
	SlowN int      `json:"slowN,omitempty"` // how many of them
}

type XOp struct {
	Op       string  `json:"op"` // add, empty, trim, split, age, dist, steal
	Node     int     `json:"node"`
	Other    bool    `json:"other,omitempty"` // act on the other namespace (add only)
	Space    int     `json:"space,omitempty"` // act on that further namespace (add only)
	P        PSpec   `json:"p,omitzero"`
	N        int     `json:"n,omitempty"`
	Accurate bool    `json:"accurate,omitempty"`
	Addrs    []ASpec `json:"addrs,omitempty"`
	B        *Bulk   `json:"b,omitempty"`
}

type multiCase struct {
	Euc       bool  `json:"euc"`
	Threshold int   `json:"threshold"`
	Nodes     int   `json:"nodes"`
	Dim       int   `json:"dim,omitempty"`
	Ops       []XOp `json:"ops"`
}

type xmix struct {
	add, empty, trim, split, age, dist, steal int
	expRate, wrong                            int
	large                                     bool // start with many points
}

func genAddr(t *rapid.T, nodes int, cuts []string) ASpec {
	switch rapid.IntRange(0, 11).Draw(t, "addrKind") {
	case 0:
		return ASpec{Kind: "dead"}
	case 1:
		return ASpec{Kind: "bad", Node: rapid.IntRange(0, 3).Draw(t, "bad")}
	case 2, 3:
		a := ASpec{Kind: "proxy", Node: rapid.IntRange(0, nodes-1).Draw(t, "node")}
		a.Cut = []string{pick(t, "cut", cuts...)}
		if rapid.IntRange(0, 2).Draw(t, "after?") == 0 {
			a.After = rapid.IntRange(0, 4).Draw(t, "after")
		}
		return a
	default:
		return ASpec{Kind: "node", Node: rapid.IntRange(0, nodes-1).Draw(t, "node")}
	}
}

func genMulti(m xmix) func(*rapid.T) multiCase {
	return func(t *rapid.T) multiCase {
		dim := rapid.IntRange(1, 5).Draw(t, "dim")
		st := genStyle(t)
		c := multiCase{Dim: dim, Euc: rapid.Bool().Draw(t, "euc"), Threshold: pick(t, "threshold", 0, 2, 3, 4, 6), Nodes: rapid.IntRange(2, 4).Draw(t, "nodes")}
		if rare(t, "manyNodes", 4) {
			c.Nodes = rapid.IntRange(5, 12).Draw(t, "nodes")
			if rare(t, "moreNodes", 3) {
				c.Nodes = rapid.IntRange(13, 70).Draw(t, "nodes")
			}
		}
		ws := []int{m.add, m.empty, m.trim, m.split, m.age, m.dist, m.steal}
		total := 0
		for _, w := range ws {
			total += w
		}
		big := 0
		op := rapid.Custom(func(t *rapid.T) XOp {
			r := rapid.IntRange(0, total-1).Draw(t, "op")
			i := 0
			for r >= ws[i] {
				r -= ws[i]
				i++
			}
			o := XOp{Node: rapid.IntRange(0, c.Nodes-1).Draw(t, "node")}
			switch i {
			case 0:
				o.Op = "add"
				o.Other = rapid.IntRange(0, 11).Draw(t, "other") == 0
				v := genAnyVec(t, dim, st, m.wrong)
				if len(v) == 0 {
					v = []float64{1}
				}
				o.P = PSpec{V: v, Pay: genPay(t)}
				if m.expRate > 0 && rapid.IntRange(0, m.expRate-1).Draw(t, "exp?") == 0 {
					o.P.En, o.P.Ttl = rapid.IntRange(0, 4).Draw(t, "en") != 0, int64(time.Hour)
					genYear(t, &o.P)
				}
			case 1:
				o.Op, o.N = "empty", rapid.IntRange(0, 7).Draw(t, "cluster")
			case 2:
				o.Op = "trim"
			case 3:
				o.Op = "split"
			case 4:
				o.Op, o.N = "age", rapid.IntRange(1, 4).Draw(t, "n")
			case 5:
				o.Op, o.N = "dist", pick(t, "n", 0, 1, 1, 1, 2, 3, 5, 8, 100, -1)
				if big > 0 && rapid.Bool().Draw(t, "bigN") {
					o.N = rapid.IntRange(0, big+20).Draw(t, "n")
				}
				o.Accurate = rapid.Bool().Draw(t, "accurate")
				k := rapid.IntRange(0, max(5, c.Nodes+2)).Draw(t, "addrs")
				for j := 0; j < k; j++ {
					o.Addrs = append(o.Addrs, genAddr(t, c.Nodes, []string{"*", "AddDataPoint", "AddDataPoint", "Vec", "NearestCentroidVec"}))
				}
			case 6:
				o.Op, o.N = "steal", pick(t, "limit", 0, 1, 1, 2, 3, 4, 6, 10, 1000, math.MaxInt, -2)
				if big > 0 && rapid.Bool().Draw(t, "bigN") {
					o.N = rapid.IntRange(0, big+20).Draw(t, "limit")
				}
				a := genAddr(t, c.Nodes, []string{"*", "NearestCentroids", "NearestCentroids", "Vec", "LenDP"})
				o.Addrs = []ASpec{a}
			}
			return o
		})
		// most cases start with some data on every node
		k := rapid.IntRange(0, 12).Draw(t, "preload")
		for j := 0; j < k; j++ {
			c.Ops = append(c.Ops, XOp{Op: "add", Node: j % c.Nodes, P: PSpec{V: genVec(t, dim, st)}})
		}
		lo, hi := genLen(t, 45)
		if m.large || rare(t, "big", 6) {
			if m.large && rapid.IntRange(0, 3).Draw(t, "manyClusters") == 0 {
				c.Threshold = pick(t, "bigThreshold", 2, 3, 4)
			} else if c.Threshold >= 2 {
				c.Threshold = pick(t, "bigThreshold", c.Threshold, 10, 40, 140)
			}
			for j := 0; j < c.Nodes; j++ {
				if j == 0 || rapid.Bool().Draw(t, "bigNode") {
					b := genBulk(t, dim, st, 500, 0)
					if !m.large && c.Threshold >= 2 {
						b.N = min(b.N, 30*c.Threshold)
					}
					big = max(big, b.N)
					c.Ops = append(c.Ops, XOp{Op: "bulk", Node: j, B: b})
				}
			}
			lo, hi = 2, 8
		}
		c.Ops = append(c.Ops, rapid.SliceOfN(op, lo, hi).Draw(t, "ops")...)
		return c
	}
}

const mainNS, otherNS = "ns", "other"

type xstep struct {
	i             int
	op            XOp
	euc           bool
	threshold     int
	nodes         []*netNode
	before, after []state
	err           error
	steal         rpc.StealCentroidsResp
	now           time.Time
	scale         float64
}

func (s *xstep) String() string {
	return fmt.Sprintf("step %d %s node=%d n=%d accurate=%v addrs=%+v", s.i, s.op.Op, s.op.Node, s.op.N, s.op.Accurate, s.op.Addrs)
}

func resolve(x *X, as []ASpec, ns []*netNode, px *int) []string {
	var out []string
	for _, a := range as {
		switch a.Kind {
		case "node":
			out = append(out, ns[a.Node].addr)
		case "proxy":
			*px++
			p := proxies(x, *px)[*px-1]
			p.set(ns[a.Node].addr, a.Cut, a.After)
			p.delay(time.Duration(a.Slow)*time.Millisecond, a.SlowN)
			out = append(out, p.addr)
		case "dead":
			out = append(out, deadAddr())
		case "bad":
			out = append(out, []string{"", "127.0.0.1", "127.0.0.1:99999", ":"}[a.Node%4])
		}
	}
	return out
}

func showAll(ss []state) string {
	r := ""
	for i, s := range ss {
		if sn, ok := s[mainNS]; ok {
			r += fmt.Sprintf(" node%d%v", i, sn.idSets())
		} else {
			r += fmt.Sprintf(" node%d(no ns)", i)
		}
	}
	return r
}

// prepare performs the operations which only set up the state of a node.
func prepare(n *netNode, op XOp, reg *Registry, now time.Time, scale *float64) bool {
	switch op.Op {
	case "add":
		_, dp := reg.add(op.P, now)
		*scale = math.Max(*scale, maxAbs(dp.Vec))
		name := mainNS
		if op.Other {
			name = otherNS
		}
		if op.Space > 0 {
			name = fmt.Sprintf("space%d", op.Space)
		}
		var ok bool
		n.srv.AddDataPoint(rpc.AddDataPointArgs{NameSpace: name, DP: dp}, &ok)
	case "empty": // empty one cluster, leaving it in place
		n.srv.Table.Access(mainNS, func(m *Manager) {
			if len(m.Centroids) > 0 {
				cl := m.Centroids[op.N%len(m.Centroids)]
				cl.DrainUnordered(cl.LenDP())
				m.MoveVector()
			}
		})
	case "trim":
		n.srv.Table.Access(mainNS, func(m *Manager) { m.MemTrim() })
	case "split":
		n.srv.Table.Access(mainNS, func(m *Manager) {
			m.SplitCentroids(func(c *Centroid) bool { return c.LenDP() > 1 && len(m.Centroids) < 12 })
		})
	case "age":
		left := op.N
		n.srv.Table.Access(mainNS, func(m *Manager) {
			for _, cl := range m.Centroids {
				for j := range cl.DataPoints {
					if d := &cl.DataPoints[j]; left > 0 && d.ExpireEnabled {
						d.Expires = now.Add(-time.Hour)
						reg.pts[idOf(*d)].Expires = d.Expires
						left--
					}
				}
			}
		})
	default:
		return false
	}
	return true
}

func runMulti(x *X, c multiCase, oracle func(*X, *xstep, *Registry)) {
	cfg := nodeCfg{c.Euc, c.Threshold}
	ns := poolNodes(x, c.Nodes, cfg)
	reg := &Registry{}
	scale := 0.0
	snap := func() []state {
		var r []state
		for _, n := range ns {
			r = append(r, n.state())
		}
		return r
	}
	for i, op := range c.Ops {
		n := ns[op.Node]
		s := &xstep{i: i, op: op, euc: c.Euc, threshold: c.Threshold, nodes: ns, now: time.Now()}
		if op.Op == "bulk" {
			scale = math.Max(scale, bulkLoad(x, n, mainNS, op.B, reg, s.now))
			x.Label("bulk")
			continue
		}
		if prepare(n, op, reg, s.now, &scale) {
			continue
		}
		s.before = snap()
		s.scale = scale
		px := 0
		addrs := resolve(x, op.Addrs, ns, &px)
		call(x, s.String(), func() {
			switch op.Op {
			case "dist":
				cl := rpc.KMeansClient(n.addr, mainNS, &s.err)
				if op.Accurate {
					cl.DistributeDataPointsAccurate(addrs, op.N)
				} else {
					cl.DistributeDataPointsFast(addrs, op.N)
				}
			case "steal":
				cl := rpc.KMeansClient(n.addr, mainNS, &s.err)
				s.steal.TransferredN, s.steal.OK = cl.StealCentroids(addrs[0], op.N)
			}
		})
		s.after = snap()
		x.Tracef("%s -> err=%v steal=%+v:%s  ==> %s", s, s.err, s.steal, showAll(s.before), showAll(s.after))
		if s.err != nil && netTrouble(s.err) {
			x.Env(s.err)
		}
		// common: nothing lost, duplicated or altered anywhere; other namespaces untouched
		var bAll, aAll []DataPoint
		for k := range ns {
			bAll = append(bAll, s.before[k][mainNS].all()...)
			aAll = append(aAll, s.after[k][mainNS].all()...)
			for name, b := range s.before[k] {
				if name != mainNS && !sameSnap(b, s.after[k][name]) {
					x.Failf("%s: namespace %q of node %d changed", s, name, k)
				}
			}
		}
		for _, d := range aAll {
			reg.verify(x, s.String(), d)
		}
		conserve(x, s.String(), bAll, s.now, aAll)
		oracle(x, s, reg)
	}
}

// where maps point id to node for the main namespace.
func whereIs(ss []state) map[int]int {
	m := map[int]int{}
	for k, s := range ss {
		for _, d := range s[mainNS].all() {
			m[idOf(d)] = k
		}
	}
	return m
}

func cuts(a ASpec, method string) bool {
	if a.Kind != "proxy" {
		return false
	}
	for _, c := range a.Cut {
		// Markers match by prefix, as in the wire format.
		if c == "*" || len(method) >= len(c) && method[:len(c)] == c {
			return true
		}
	}
	return false
}

func oracleR05(x *X, s *xstep, reg *Registry) {
	if s.op.Op != "dist" {
		return
	}
	what := s.String()
	o := s.op.Node
	b, has := s.before[o][mainNS]
	wb, wa := whereIs(s.before), whereIs(s.after)
	if !has {
		if s.err == nil {
			x.Failf("%s: no error although the namespace does not exist", what)
		}
	} else if s.err != nil {
		x.Failf("%s: error %v", what, s.err)
	}
	moved := 0
	for id, k := range wa {
		if wb[id] != k {
			moved++
			if wb[id] != o {
				x.Failf("%s: point %d moved from node %d, which was not asked", what, id, wb[id])
			}
		}
	}
	if moved > max(0, s.op.N) {
		x.Failf("%s: %d points left the node for n=%d", what, moved, s.op.N)
	}
	if !has || len(s.op.Addrs) == 0 || s.op.N <= 0 {
		if moved > 0 {
			x.Failf("%s: points moved", what)
		}
		x.Label("nothing to do")
		return
	}
	elig := b.all()
	if len(live(elig, s.now)) != len(elig) {
		x.Label("expired held")
		return
	}
	shares := roundRobin(b.sizes(), s.op.N)
	total := 0
	for _, v := range shares {
		total += v
	}
	// usable destinations
	type dest struct {
		node int
		via  ASpec
	}
	var dests []dest
	timed := false
	method := "Vec"
	if s.op.Accurate {
		method = "NearestCentroidVec"
	}
	selfIn := false
	for _, a := range s.op.Addrs {
		if a.After > 0 && (cuts(a, method) || cuts(a, "AddDataPoint")) {
			timed = true // drops start at some later request; destination not judged
		}
		if a.Kind != "node" && a.Kind != "proxy" {
			x.Label("unreachable address")
			continue
		}
		if cuts(a, method) && a.After == 0 {
			x.Label("peer drops vector requests")
			continue
		}
		if cuts(a, "AddDataPoint") && a.After == 0 {
			x.Label("peer drops adds")
			continue
		}
		if _, ok := s.before[a.Node][mainNS]; !ok {
			x.Label("peer without the namespace")
			continue
		}
		selfIn = selfIn || a.Node == o
		dests = append(dests, dest{a.Node, a})
	}
	// The origin as it is after the points were taken out (it may be an option itself).
	post := cloneManager(x, nodeCfg{s.euc, s.threshold}, b)
	post.DrainOrdered(s.op.N)
	postSnap := snapNode(post)
	snapOf := func(k int) nsnap {
		if k == o {
			return postSnap
		}
		return s.before[k][mainNS]
	}
	amb := false
	if selfIn {
		for _, v := range append([][]float64{postSnap.vec}, postSnap.vecs...) {
			if refNorm(v) <= 1e-6*s.scale {
				amb = true
			}
		}
	}
	strict := !timed && !amb && (!s.op.Accurate || total == 1)
	bestNodes := func(p DataPoint) map[int]bool {
		sc := make([]float64, len(dests))
		best := math.Inf(-1)
		for i, d := range dests {
			sn := snapOf(d.node)
			sc[i] = math.NaN()
			if !s.op.Accurate {
				if len(sn.vec) == len(p.Vec) {
					sc[i] = refCos(p.Vec, sn.vec)
				}
			} else {
				cs := vecScores(sn.vecs, p.Vec, s.euc)
				bi := -1
				for j, v := range cs {
					if !math.IsNaN(v) && (bi < 0 || v > cs[bi]) {
						bi = j
					}
				}
				if bi >= 0 {
					sc[i] = refCos(p.Vec, sn.vecs[bi])
					for j, v := range cs {
						if j != bi && tieEq(v, cs[bi]) && !tieEq(refCos(p.Vec, sn.vecs[j]), sc[i]) {
							strict = false
						}
					}
				}
			}
			if sc[i] > best {
				best = sc[i]
			}
		}
		r := map[int]bool{}
		for i, d := range dests {
			if !math.IsNaN(sc[i]) && (sc[i] >= best || tieEq(sc[i], best)) {
				r[d.node] = true
			}
		}
		return r
	}
	allCertain := true
	var given []DataPoint
	for ci, pts := range b.pts {
		sc := dpScores(pts, b.vecs[ci], s.euc, true) // larger = worse fit
		for i, p := range pts {
			id := idOf(p)
			worse, worseOrTie := 0, 0
			for j := range pts {
				if j == i {
					continue
				}
				if better(sc[j], sc[i]) {
					worse++
				}
				if better(sc[j], sc[i]) || tieEq(sc[j], sc[i]) {
					worseOrTie++
				}
			}
			at := wa[id]
			if worse >= shares[ci] && at != o {
				x.Failf("%s: point %d was moved although cluster %d has %d worse-fit points and gives only %d", what, id, ci, worse, shares[ci])
			}
			if worse < shares[ci] {
				allCertain = allCertain && worseOrTie < shares[ci]
				given = append(given, p)
			}
			if worse >= shares[ci] || timed || amb {
				continue
			}
			best := bestNodes(p)
			certain := worseOrTie < shares[ci]
			if len(best) == 0 {
				if at != o {
					x.Failf("%s: point %d went to node %d, which was no option", what, id, at)
				}
				x.Label("stays: no usable option")
				continue
			}
			if !strict {
				if at != o {
					ok := false
					for _, d := range dests {
						ok = ok || d.node == at
					}
					if !ok {
						x.Failf("%s: point %d went to node %d, which was no usable option", what, id, at)
					}
				} else if certain && !selfIn {
					x.Failf("%s: point %d stayed although usable options exist", what, id)
				}
				continue
			}
			if !best[at] && !(at == o && !certain) {
				x.Failf("%s: point %d is on node %d, most similar usable nodes are %v", what, id, at, best)
			}
			if at != o && len(dests) >= 2 {
				x.NonTrivial()
			}
			x.Label(fmt.Sprintf("placement judged accurate=%v", s.op.Accurate))
		}
	}
	if !s.op.Accurate || timed || amb || !allCertain || len(given) < 2 || len(given) > 4 || len(dests) == 0 {
		return
	}
	// Accurate with several points: each placement changes the nodes the next point is compared with. Some
	// order of the points must explain where they all are.
	var nodes []int
	seen := map[int]bool{}
	for _, d := range dests {
		if !seen[d.node] {
			nodes = append(nodes, d.node)
		}
		seen[d.node] = true
	}
	explained, unclear := false, false
	permute(len(given), func(order []int) bool {
		sim := map[int]*Manager{}
		for _, k := range nodes {
			sim[k] = cloneManager(x, nodeCfg{s.euc, s.threshold}, snapOf(k))
		}
		for _, gi := range order {
			p := given[gi]
			bk, bs := -1, math.Inf(-1)
			for _, k := range nodes {
				var vecs [][]float64
				for _, cl := range sim[k].Centroids {
					vecs = append(vecs, cl.Vec())
					if refNorm(cl.Vec()) <= 1e-6*s.scale {
						unclear = true
						return false
					}
				}
				cs := vecScores(vecs, p.Vec, s.euc)
				bi := -1
				for j, v := range cs {
					if !math.IsNaN(v) && (bi < 0 || v > cs[bi]) {
						bi = j
					}
				}
				if bi < 0 {
					continue
				}
				for j, v := range cs {
					if j != bi && tieEq(v, cs[bi]) {
						unclear = true
						return false
					}
				}
				v := refCos(p.Vec, vecs[bi])
				if bk >= 0 && tieEq(v, bs) {
					unclear = true
					return false
				}
				if v > bs {
					bk, bs = k, v
				}
			}
			at, want := wa[idOf(p)], bk
			if bk < 0 {
				want = o
			} else {
				sim[bk].AddDataPoint(p)
			}
			if at != want {
				return true // this order does not explain it
			}
		}
		explained = true
		return false
	})
	if unclear {
		return
	}
	if !explained {
		x.Failf("%s: points %v are on nodes %v; taking them to the most similar node one after the other gives that in no order", what, ids(given), wa)
	}
	x.Label("placement judged accurate, several points")
	if len(nodes) >= 2 {
		x.NonTrivial()
	}
}

// permute calls f with all orders of 0..n-1 until it returns false.
func permute(n int, f func([]int) bool) {
	a := make([]int, n)
	for i := range a {
		a[i] = i
	}
	var rec func(k int) bool
	rec = func(k int) bool {
		if k == n {
			return f(a)
		}
		for i := k; i < n; i++ {
			a[k], a[i] = a[i], a[k]
			ok := rec(k + 1)
			a[k], a[i] = a[i], a[k]
			if !ok {
				return false
			}
		}
		return true
	}
	rec(0)
}

func nonEmptySets(s nsnap, now time.Time) []string {
	var r []string
	for _, p := range s.pts {
		if l := live(p, now); len(l) > 0 {
			r = append(r, fmt.Sprint(sortedIDs(l)))
		}
	}
	sort.Strings(r)
	return r
}

func oracleR06(x *X, s *xstep, reg *Registry) {
	if s.op.Op != "steal" {
		return
	}
	what := s.String()
	ai := s.op.Node
	from := s.op.Addrs[0]
	reachable := from.Kind == "node" || from.Kind == "proxy"
	a, aHas := s.before[ai][mainNS]
	a2 := s.after[ai][mainNS]
	L := s.op.N
	if s.err != nil {
		x.Failf("%s: error %v", what, s.err)
	}
	wb, wa := whereIs(s.before), whereIs(s.after)
	arrived := 0
	for id, k := range wa {
		if wb[id] != k {
			if k != ai || !reachable || wb[id] != from.Node {
				x.Failf("%s: point %d moved from node %d to %d", what, id, wb[id], k)
			}
			arrived++
		}
	}
	self := reachable && from.Node == ai
	if !self && s.steal.TransferredN != arrived {
		x.Failf("%s: reported %d transferred, %d arrived", what, s.steal.TransferredN, arrived)
	}
	var b nsnap
	bHas := false
	if reachable {
		b, bHas = s.before[from.Node][mainNS]
	}
	faulty := from.Kind == "proxy" && (cuts(from, "NearestCentroids") || cuts(from, "LenDP") || cuts(from, "Vec"))
	if !reachable || !bHas || from.Kind == "proxy" && cuts(from, "*") && from.After == 0 {
		if arrived != 0 {
			x.Failf("%s: %d points arrived", what, arrived)
		}
		if s.steal.OK && L > 0 {
			x.Failf("%s: success reported although the source is unreachable or lacks the namespace", what)
		}
		x.Label("source unreachable or without namespace")
		return
	}
	if self {
		x.Label("from itself")
		return
	}
	b2 := s.after[from.Node][mainNS]
	local := a.vec
	if !aHas {
		local = b.vec
	}
	// whole clusters only
	bs, as := nonEmptySets(b, s.now), nonEmptySets(a, s.now)
	want := append(append([]string{}, bs...), as...)
	got := append(nonEmptySets(a2, s.now), nonEmptySets(b2, s.now)...)
	sort.Strings(want)
	sort.Strings(got)
	if fmt.Sprint(want) != fmt.Sprint(got) {
		x.Failf("%s: clusters were not moved whole: before %v + %v, after %v + %v", what, a.idSets(), b.idSets(), a2.idSets(), b2.idSets())
	}
	if faulty {
		if s.steal.OK && from.After == 0 && cuts(from, "NearestCentroids") && L > 0 && len(b.all()) > 0 {
			x.Failf("%s: success reported although the source dropped requests", what)
		}
		if s.steal.OK && L > 0 && s.steal.TransferredN < L {
			for i, p := range b2.pts {
				if len(b2.vecs[i]) == len(local) && len(live(p, s.now)) > 0 {
					x.Failf("%s: success reported with %d of %d points although the source still holds %v", what, s.steal.TransferredN, L, b2.idSets())
				}
			}
		}
		x.Label("source drops requests")
		if arrived > 0 && !s.steal.OK {
			x.Label("partial transfer, then failure")
		}
		return
	}
	if !s.steal.OK {
		x.Failf("%s: failure reported without any network or namespace error", what)
	}
	if len(live(b.all(), s.now)) != len(b.all()) {
		x.Label("expired held")
		return
	}
	// order: nearest first, until L is reached
	type cand struct {
		n  int
		sc float64
		k  string
	}
	var cs []cand
	for i, v := range b.vecs {
		if len(v) == len(local) && len(b.pts[i]) > 0 {
			cs = append(cs, cand{len(b.pts[i]), goodness(s.euc, local, v), fmt.Sprint(sortedIDs(b.pts[i]))})
		}
	}
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].sc > cs[j].sc })
	has := map[string]bool{}
	for _, k := range nonEmptySets(a2, s.now) {
		has[k] = true
	}
	taken, lastWorst, biggest := 0, math.Inf(1), 0
	for _, c := range cs {
		if has[c.k] {
			taken += c.n
			lastWorst = math.Min(lastWorst, c.sc)
			biggest = max(biggest, c.n)
		}
	}
	left := 0
	for _, c := range cs {
		if !has[c.k] {
			left++
			if better(c.sc, lastWorst) {
				x.Failf("%s: a nearer cluster %s (similarity %v) was left while a less similar one (%v) was taken", what, c.k, c.sc, lastWorst)
			}
		}
	}
	if L > 0 && taken < L && left > 0 {
		x.Failf("%s: stopped after %d of %d points with %d clusters left (%v)", what, taken, L, left, b2.idSets())
	}
	if taken > 0 && (L <= 0 || taken-biggest >= L) {
		x.Failf("%s: took %d points, far more than %d", what, taken, L)
	}
	// minimal: without the least similar one taken the limit was not reached (ties aside)
	if taken > 0 {
		minTied := 0
		for _, c := range cs {
			if has[c.k] && tieEq(c.sc, lastWorst) {
				minTied = max(minTied, c.n)
			}
		}
		if taken-minTied >= L {
			x.Failf("%s: went on after the limit: took %d points, the last cluster having at most %d", what, taken, minTied)
		}
	}
	if taken > 0 && !aHas {
		x.Label("namespace created")
	}
	if len(cs) >= 2 && taken > 0 {
		x.NonTrivial()
	}
	empt := len(b.cl) - len(bs)
	if empt > 0 && taken > 0 {
		x.Label("source with empty clusters")
	}
	if left == 0 && taken > 0 {
		x.Label("took everything")
	}
}

// ---- R08: client failures -------------------------------------------------------------------

type failCase struct {
	Fault string      `json:"fault"`          // none, dead, stopped, restarted, cut, missing, bad
	Warm  int         `json:"warm,omitempty"` // calls made before the node is stopped
	Pts   [][]float64 `json:"pts"`
	Ops   []ROp       `json:"ops"`
	NilE  bool        `json:"nilErr,omitempty"`
	Keep  bool        `json:"keep,omitempty"` // one client for all calls
}

func genFail(t *rapid.T) failCase {
	dim := rapid.IntRange(1, 4).Draw(t, "dim")
	st := genStyle(t)
	c := failCase{Fault: pick(t, "fault", "none", "dead", "stopped", "cut", "missing", "missing", "bad", "restarted"), NilE: rapid.IntRange(0, 9).Draw(t, "nilErr") == 0}
	c.Keep = !c.NilE && rapid.IntRange(0, 2).Draw(t, "keep") == 0
	n := rapid.IntRange(0, 6).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Pts = append(c.Pts, genVec(t, dim, st))
	}
	if c.Fault == "stopped" || c.Fault == "restarted" {
		c.Warm = rapid.IntRange(0, 4).Draw(t, "warm")
	}
	op := rapid.Custom(func(t *rapid.T) ROp {
		o := ROp{Op: pick(t, "op", "add", "drainU", "drainO", "lookup", "near", "nearVec", "vec", "len", "split", "merge", "distI", "expire", "trim", "move", "names", "meta", "distF", "distA", "steal")}
		o.V = genVec(t, dim, st)
		o.P.V = genVec(t, dim, st)
		o.N = genCount(t, "n", 4)
		o.Hi = rapid.IntRange(0, 9).Draw(t, "hi")
		o.Drain = rapid.Bool().Draw(t, "drain")
		return o
	})
	c.Ops = rapid.SliceOfN(op, 1, 6).Draw(t, "ops")
	return c
}

func runFail(x *X, c failCase) {
	ns := poolNodes(x, 2, nodeCfg{true, 3})
	n := ns[0]
	reg := &Registry{}
	kept := clients{}
	stopped := "" // the address of a node which answered and was stopped
	if c.Fault == "stopped" || c.Fault == "restarted" {
		old, err := startNode()
		if err != nil {
			x.Env(err)
		}
		for i := 0; i < c.Warm; i++ {
			var e error
			var cl client = rpc.KMeansClient(old.addr, mainNS, &e)
			if c.Keep {
				k := kept.get(old.addr, mainNS)
				cl, k.err = k, nil
			}
			call(x, "call before the node is stopped", func() {
				if i%2 == 0 {
					_, dp := reg.add(PSpec{V: []float64{1, 2}}, time.Now())
					cl.AddDataPoint(dp)
				} else {
					cl.LenDP()
				}
			})
			if c.Keep {
				e = kept.get(old.addr, mainNS).err
			}
			if e != nil {
				if netTrouble(e) {
					x.Env(e)
				}
				x.Failf("call before the node is stopped: %v", e)
			}
		}
		old.stop()
		stopped = old.addr
		if c.Keep && c.Fault == "restarted" && c.Warm%2 == 1 {
			// A call while the node is down.
			k := kept.get(stopped, mainNS)
			k.err = nil
			n := 0
			call(x, "call while the node is down", func() { n = k.LenDP() })
			if k.err != nil && netTrouble(k.err) {
				x.Env(k.err)
			}
			if n != 0 {
				x.Failf("call while the node is down: %d points", n)
			}
		}
		if c.Fault == "restarted" {
			nn := &netNode{addr: old.addr}
			nn.cfg.Store(&nodeCfg{true, 3})
			nn.srv = rpc.NewKMeansServer(nn.addr, nn.factory)
			for try := 0; ; try++ {
				if nn.stop, err = rpc.StartListen(nn.srv); err == nil {
					break
				}
				if try == 50 { // taken by someone else meanwhile
					x.Label("address lost")
					return
				}
				time.Sleep(time.Millisecond)
			}
			x.Defer(nn.stop)
			n, ns[0] = nn, nn
		} else {
			release, err := holdPort(stopped)
			if err != nil {
				x.Label("address lost")
				return
			}
			x.Defer(release)
		}
	}
	for _, v := range c.Pts {
		_, dp := reg.add(PSpec{V: v}, time.Now())
		var ok bool
		n.srv.AddDataPoint(rpc.AddDataPointArgs{NameSpace: mainNS, DP: dp}, &ok)
	}
	addr, name := n.addr, mainNS
	missing := len(c.Pts) == 0
	unreachable := false
	switch c.Fault {
	case "dead":
		addr, unreachable = deadAddr(), true
	case "bad":
		addr, unreachable = "127.0.0.1:99999", true
	case "stopped":
		addr, unreachable = stopped, true
	case "cut":
		p := proxies(x, 1)[0]
		p.set(n.addr, []string{"*"}, 0)
		addr, unreachable = p.addr, true
	case "missing":
		name, missing = "nowhere", true
	}
	for i, op := range c.Ops {
		what := fmt.Sprintf("step %d %s on %s", i, op.Op, c.Fault)
		b := []state{ns[0].state(), ns[1].state()}
		s := &rstep{i: i, op: op, ns: name, node: &netNode{addr: addr, srv: n.srv}, now: time.Now()}
		s.err = fmt.Errorf("stale error from an earlier call")
		// What is left in the caller's error variable must not matter: a failing call
		// sets it (half of them start without an error), a good one clears it.
		if (unreachable || missing && op.Op != "add" && op.Op != "steal") && op.Hi%2 == 0 {
			s.err = nil
		}
		id := -1
		if op.Op == "add" {
			id, s.dp = reg.add(op.P, s.now)
		}
		var stealN int
		var stealOK bool
		call(x, what, func() {
			ep := &s.err
			if c.NilE {
				ep = nil
				s.err = nil
			}
			var cl client = rpc.KMeansClient(addr, name, ep)
			if c.Keep {
				k := kept.get(addr, name)
				cl, k.err = k, s.err
				s.kept = kept
				defer func() { s.err = k.err }()
			}
			switch op.Op {
			case "distF":
				cl.DistributeDataPointsFast([]string{ns[1].addr}, op.N)
			case "distA":
				cl.DistributeDataPointsAccurate([]string{ns[1].addr}, op.N)
			case "steal":
				stealN, stealOK = cl.StealCentroids(deadAddr(), op.N)
			default:
				if !c.NilE {
					doRPC(x, s)
				} else if op.Op == "add" {
					s.resOK = cl.AddDataPoint(s.dp)
				} else {
					s.res = cl.DrainOrdered(op.N)
				}
			}
		})
		if s.err != nil && netTrouble(s.err) {
			x.Env(s.err)
		}
		a := []state{ns[0].state(), ns[1].state()}
		nodeWide := op.Op == "names" || op.Op == "meta"
		_, exists := b[0][name]
		fails := unreachable || !exists && op.Op != "add" && op.Op != "steal" && !nodeWide
		x.Tracef("%s -> err=%v", what, s.err)
		if fails {
			if !c.NilE && s.err == nil {
				x.Failf("%s: the failure was not reported", what)
			}
			if len(s.res) > 0 || len(s.cls) > 0 || len(s.vec) > 0 || s.n != 0 || s.resOK || len(s.names) > 0 || len(s.meta.DPs) > 0 || len(s.meta.Centroids) > 0 || stealN != 0 || stealOK {
				x.Failf("%s: a failed call returned data: ok=%v n=%d res=%v vec=%v names=%v meta=%v steal=%d,%v", what, s.resOK, s.n, ids(s.res), s.vec, s.names, s.meta, stealN, stealOK)
			}
			for k := range a {
				if len(a[k]) != len(b[k]) {
					x.Failf("%s: a failed call changed the namespaces of node %d", what, k)
				}
				for name := range b[k] {
					if !sameSnap(a[k][name], b[k][name]) {
						x.Failf("%s: a failed call changed data on node %d: %v -> %v", what, k, b[k][name].idSets(), a[k][name].idSets())
					}
				}
			}
			x.NonTrivial()
			x.Label(c.Fault + " " + op.Op)
			continue
		}
		if s.err != nil {
			x.Failf("%s: error %v for a call that succeeds", what, s.err)
		}
		if op.Op == "add" && s.resOK != (idCount(a[0][name].all())[id] == 1) {
			x.Failf("%s: answered %v", what, s.resOK)
		}
		if op.Op == "len" && !c.NilE && s.n != len(a[0][name].all()) {
			x.Failf("%s: answered %d, the node holds %d", what, s.n, len(a[0][name].all()))
		}
		if op.Op == "names" && !c.NilE && len(s.names) != len(a[0]) {
			x.Failf("%s: answered %q, the node holds %q", what, s.names, a[0].names())
		}
	}
}

func init() {
	regX := func(f Facet, m xmix, o func(*X, *xstep, *Registry)) {
		run := func(x *X, c multiCase) { runMulti(x, c, o) }
		reg(f, genMulti(m), run)
		f.Name += "-large"
		f.Rule = "the same starting with 24-500 points on every second node; " + f.Rule[strings.Index(f.Rule, "non-trivial"):]
		f.Quick, f.Thorough = 1600, 60000
		m.add = min(m.add, max(4, m.add/8))
		m.large = true
		reg(f, genMulti(m), run)
	}
	regX(Facet{Prop: "R05", Name: "distribute", Quick: 40000, Thorough: 400000,
		Rule: "random histories on 2-4 real nodes with distribution to arbitrary address lists (dead, dropping, repeated, own, without namespace); non-trivial: a point is judged to have gone to the best of at least 2 usable options"},
		xmix{add: 60, empty: 4, trim: 2, split: 3, age: 2, dist: 14, expRate: 25, wrong: 25}, oracleR05)
	regX(Facet{Prop: "R06", Name: "steal", Quick: 40000, Thorough: 400000,
		Rule: "random histories on 2-4 real nodes with cluster stealing; non-trivial: points are taken from a node with at least 2 non-empty clusters"},
		xmix{add: 60, empty: 8, trim: 2, split: 4, age: 2, steal: 12, expRate: 25, wrong: 30}, oracleR06)
	regX(Facet{Prop: "M01", Name: "steal-mean", Quick: 30000, Thorough: 200000,
		Rule: "vectors of all nodes after cluster stealing and distribution over the network; non-trivial: data moved"},
		xmix{add: 60, empty: 5, trim: 2, split: 4, dist: 6, steal: 8, wrong: 30}, func(x *X, s *xstep, _ *Registry) {
			for k := range s.after {
				if a, ok := s.after[k][mainNS]; ok {
					checkNodeMean(x, fmt.Sprintf("%s: node %d", s, k), a, s.scale)
				}
			}
			if fmt.Sprint(whereIs(s.before)) != fmt.Sprint(whereIs(s.after)) {
				x.NonTrivial()
			}
		})
	reg(Facet{Prop: "R08", Name: "failures", Quick: 20000, Thorough: 200000,
		Rule: "every client operation against unreachable, stopped, dropping nodes and missing namespaces; non-trivial: at least one call fails"}, genFail, runFail)
}
