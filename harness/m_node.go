package h

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"

	"trypo/pkg/kmeans/centroid"
	"trypo/pkg/kmeans/common"
)

// ---- histories on one node (centroid manager), under a fake clock -----------------

// Pred is a predicate over clusters. Kind: "range" (exclusive size range),
// "all", "none", "mask" (bit i = i-th cluster before the call), "has" (holds a
// point whose id is divisible by Lo+2).
type Pred struct {
	Kind string `json:"kind"`
	Lo   int    `json:"lo,omitempty"`
	Hi   int    `json:"hi,omitempty"`
}

type MOp struct {
	Op    string    `json:"op"`
	P     PSpec     `json:"p,omitzero"`
	V     []float64 `json:"v,omitempty"`
	N     int       `json:"n,omitempty"`
	Drain bool      `json:"drain,omitempty"`
	Dt    int64     `json:"dt,omitempty"`
	R     []RSpec   `json:"r,omitempty"`
	Pr    *Pred     `json:"pr,omitempty"`
	B     *Bulk     `json:"b,omitempty"`
}

type nodeCase struct {
	Euc       bool      `json:"euc"`
	Init      []float64 `json:"init"`
	Threshold int       `json:"threshold"`
	Ops       []MOp     `json:"ops"`
}

type nmix struct {
	add, drainU, drainO, lookup, near, split, merge, dist, distI, expire, trim, move, tick int
	expRate, wrong                                                                         int
	thresholds                                                                             []int
	long                                                                                   bool
	large, largeAdds                                                                       bool // start with many points (and keep adding)
}

func genPred(t *rapid.T) *Pred {
	switch rapid.IntRange(0, 9).Draw(t, "pred") {
	case 0:
		return &Pred{Kind: "all"}
	case 1:
		return &Pred{Kind: "none"}
	case 2:
		return &Pred{Kind: "mask", Lo: rapid.IntRange(0, 255).Draw(t, "mask")}
	case 3:
		return &Pred{Kind: "has", Lo: rapid.IntRange(0, 3).Draw(t, "mod")}
	case 4, 5, 6:
		return &Pred{Kind: "range", Lo: -1, Hi: rapid.IntRange(-1, 12).Draw(t, "hi")}
	default:
		return &Pred{Kind: "range", Lo: rapid.IntRange(-2, 6).Draw(t, "lo"), Hi: pick(t, "hi", 2, 3, 4, 5, 6, 8, 10, 1000)}
	}
}

func genNode(m nmix) func(*rapid.T) nodeCase {
	return func(t *rapid.T) nodeCase {
		dim := genDim(t)
		st := genStyle(t)
		c := nodeCase{Euc: rapid.Bool().Draw(t, "euc")}
		switch rapid.IntRange(0, 3).Draw(t, "init") {
		case 0:
		case 1:
			c.Init = make([]float64, dim)
		default:
			c.Init = genAnyVec(t, dim, st, 6)
		}
		th := m.thresholds
		if th == nil {
			th = []int{0, 2, 3, 4, 5, 6, 10, -1, 1}
		}
		c.Threshold = pick(t, "threshold", th...)
		expRate := m.expRate
		if expRate > 0 {
			expRate = pick(t, "expRate", m.expRate, m.expRate, 1, 6)
		}
		add := m.add
		if m.large && !m.largeAdds {
			add = min(add, max(4, add/8))
		}
		ws := []int{add, m.drainU, m.drainO, m.lookup, m.near, m.split, m.merge, m.dist, m.distI, m.expire, m.trim, m.move, m.tick}
		total := 0
		for _, w := range ws {
			total += w
		}
		var lib []PSpec
		typ := 1
		op := rapid.Custom(func(t *rapid.T) MOp {
			r := rapid.IntRange(0, total-1).Draw(t, "op")
			k := 0
			for r >= ws[k] {
				r -= ws[k]
				k++
			}
			switch k {
			case 0:
				p := genPoint(t, dim, st, m.wrong, expRate)
				if len(lib) > 0 && rapid.IntRange(0, 6).Draw(t, "dup") == 0 {
					p.V = cp(lib[rapid.IntRange(0, len(lib)-1).Draw(t, "dupOf")].V)
				}
				lib = append(lib, p)
				return MOp{Op: "add", P: p}
			case 1:
				return MOp{Op: "drainU", N: genCount(t, "n", 5*typ)}
			case 2:
				return MOp{Op: "drainO", N: genCount(t, "n", 5*typ)}
			case 3:
				return MOp{Op: "lookup", V: genAnyVec(t, dim, st, m.wrong), N: genCount(t, "k", 6*typ), Drain: rapid.Bool().Draw(t, "drain")}
			case 4:
				return MOp{Op: "near", V: genAnyVec(t, dim, st, m.wrong), N: genCount(t, "k", 3*typ), Drain: rapid.Bool().Draw(t, "drain")}
			case 5:
				return MOp{Op: "split", Pr: genPred(t)}
			case 6:
				return MOp{Op: "merge", Pr: genPred(t)}
			case 7:
				o := MOp{Op: "dist", N: genCount(t, "n", 6*typ)}
				nr := rapid.IntRange(0, 4).Draw(t, "receivers")
				if rare(t, "manyReceivers", 5) {
					nr = rapid.IntRange(5, 80).Draw(t, "receivers")
				}
				for i := 0; i < nr; i++ {
					rs := RSpec{Kind: pick(t, "rkind", "fixed", "fixed", "cluster"), Refuse: pick(t, "refuse", 0, 0, 0, 1, 2, 3)}
					rs.V = genAnyVec(t, dim, st, m.wrong)
					o.R = append(o.R, rs)
				}
				return o
			case 8:
				return MOp{Op: "distI", N: genCount(t, "n", 6*typ)}
			case 9:
				return MOp{Op: "expire"}
			case 10:
				return MOp{Op: "trim"}
			case 11:
				return MOp{Op: "move"}
			default:
				return MOp{Op: "tick", Dt: int64(rapid.IntRange(0, 6).Draw(t, "dt"))}
			}
		})
		lo, hi := genLen(t, 60)
		if m.long && rapid.IntRange(0, 2).Draw(t, "long") > 0 {
			lo, hi = 25, 60
		}
		if m.large || rare(t, "big", 8) { // many points, many clusters
			lim := 2000 / (1 + dim/12)
			if m.large && rapid.IntRange(0, 3).Draw(t, "manyClusters") == 0 {
				c.Threshold = pick(t, "threshold", 2, 2, 3, 4, 5)
			} else if c.Threshold >= 2 && c.Threshold < 20 {
				if m.thresholds == nil || rapid.Bool().Draw(t, "bigThreshold") {
					c.Threshold = pick(t, "threshold", 20, 40, 65, 100, 130, 200, 260, 600, 1030)
				} else if !m.large || rapid.Bool().Draw(t, "fewer") {
					lim = min(lim, 40*c.Threshold)
				}
			}
			b := genBulk(t, dim, st, lim, expRate)
			if rapid.Bool().Draw(t, "bigCounts") {
				typ = max(1, b.N/8)
			}
			c.Init = nil
			c.Ops = append([]MOp{{Op: "bulk", B: b}}, rapid.SliceOfN(op, 2, 12).Draw(t, "ops")...)
			return c
		}
		c.Ops = rapid.SliceOfN(op, lo, hi).Draw(t, "ops")
		return c
	}
}

// nsnap is a deep copy of a node's observable state.
type nsnap struct {
	cl   []*Centroid
	pts  [][]DataPoint
	vecs [][]float64
	vec  []float64
}

func snapNode(m *Manager) nsnap {
	s := nsnap{vec: cp(m.Vec())}
	for _, c := range m.Centroids {
		s.cl = append(s.cl, c)
		s.pts = append(s.pts, snapshot(c))
		s.vecs = append(s.vecs, cp(c.Vec()))
	}
	return s
}

func (s nsnap) all() (out []DataPoint) {
	for _, p := range s.pts {
		out = append(out, p...)
	}
	return
}

func (s nsnap) sizes() []int {
	r := make([]int, len(s.pts))
	for i, p := range s.pts {
		r[i] = len(p)
	}
	return r
}

// idSets shows the clusters as id lists.
func (s nsnap) idSets() [][]int {
	r := make([][]int, len(s.pts))
	for i, p := range s.pts {
		r[i] = sortedIDs(p)
	}
	return r
}

func sameSnap(a, b nsnap) bool {
	if len(a.cl) != len(b.cl) || !eqVec(a.vec, b.vec) {
		return false
	}
	for i := range a.cl {
		if a.cl[i] != b.cl[i] || !eqInts(sortedIDs(a.pts[i]), sortedIDs(b.pts[i])) || !eqVec(a.vecs[i], b.vecs[i]) {
			return false
		}
	}
	return true
}

// closeSnap is sameSnap, up to the rounding of recomputed vectors.
func closeSnap(a, b nsnap, scale float64) bool {
	if len(a.cl) != len(b.cl) || !closeVec(a.vec, b.vec, scale) {
		return false
	}
	for i := range a.cl {
		if a.cl[i] != b.cl[i] || !eqInts(sortedIDs(a.pts[i]), sortedIDs(b.pts[i])) || !closeVec(a.vecs[i], b.vecs[i], scale) {
			return false
		}
	}
	return true
}

type nstep struct {
	i             int
	op            MOp
	now           time.Time
	before, after nsnap
	afterCaps     []int
	dp            DataPoint
	bulk          []DataPoint
	bulkOK        []bool
	resOK         bool
	res           []DataPoint
	taken         []*Centroid // clusters returned by near
	chosen        []bool      // predicate outcome on the clusters before the call
	offers        []offer
	recvs         []*recv
	scale         float64
	euc           bool
	threshold     int
	m             *Manager
}

func (s *nstep) String() string {
	return fmt.Sprintf("step %d %s n=%d drain=%v pred=%+v threshold=%d", s.i, s.op.Op, s.op.N, s.op.Drain, s.op.Pr, s.threshold)
}

func (p Pred) eval(s *nsnap, c *Centroid) bool {
	switch p.Kind {
	case "all":
		return true
	case "range":
		return c.LenDP() > p.Lo && c.LenDP() < p.Hi
	case "mask":
		for i, o := range s.cl {
			if o == c {
				return i < 30 && p.Lo>>i&1 == 1
			}
		}
	case "has":
		for _, d := range c.DataPoints {
			if idOf(d)%(p.Lo+2) == 0 {
				return true
			}
		}
	}
	return false
}

// nrecv is an order-independent recording receiver: its vector never changes
// and it refuses by point id.
type nrecv struct {
	*recv
	euc bool
}

func (r nrecv) AddDataPoint(dp DataPoint) bool {
	o := offer{to: r.idx, dp: cloneDP(dp), scores: r.scoresFor(dp.Vec, r.euc), expired: isExpired(dp, time.Now())}
	ok := len(dp.Vec) == len(r.vec) && (r.refuse == 0 || idOf(dp)%r.refuse != 0)
	if ok && r.inner != nil {
		ok = r.inner.AddDataPoint(dp)
	}
	o.accepted = ok
	if ok {
		r.got = append(r.got, dp)
	}
	*r.log = append(*r.log, o)
	return ok
}

func runNode(x *X, c nodeCase, oracle func(*X, *nstep, *Registry)) {
	init := cp(c.Init)
	m := newManager(x, c.Euc, init, c.Threshold)
	reg := &Registry{}
	scale := maxAbs(c.Init)
	var kept [][]DataPoint
	var taken, takenWas [][]*Centroid
	var keptIDs [][]int
	for i, op := range c.Ops {
		s := &nstep{i: i, op: op, now: time.Now(), before: snapNode(m), euc: c.Euc, threshold: c.Threshold, m: m}
		switch op.Op {
		case "add":
			_, dp := reg.add(op.P, s.now)
			s.dp = cloneDP(dp)
			scale = math.Max(scale, maxAbs(dp.Vec))
			s.resOK = m.AddDataPoint(dp)
		case "bulk":
			for _, p := range op.B.points() {
				_, dp := reg.add(p, s.now)
				scale = math.Max(scale, maxAbs(dp.Vec))
				s.bulk = append(s.bulk, cloneDP(dp))
				s.bulkOK = append(s.bulkOK, m.AddDataPoint(dp))
			}
		case "drainU":
			s.res = m.DrainUnordered(op.N)
		case "drainO":
			s.res = m.DrainOrdered(op.N)
		case "lookup":
			s.res = m.KNNLookup(cp(op.V), op.N, op.Drain)
		case "near":
			s.taken, s.resOK = m.NearestCentroids(cp(op.V), op.N, op.Drain)
			if op.Drain {
				for _, t := range s.taken {
					s.res = append(s.res, t.DataPoints...)
				}
			}
		case "split", "merge":
			pr := *op.Pr
			for _, cl := range m.Centroids {
				s.chosen = append(s.chosen, pr.eval(&s.before, cl))
			}
			f := func(cl *centroid.Centroid) bool { return pr.eval(&s.before, cl) }
			if op.Op == "split" {
				m.SplitCentroids(f)
			} else {
				m.MergeCentroids(f)
			}
		case "dist":
			var all []*recv
			var rs []common.DataPointReceiver
			for k, r := range op.R {
				rv := &recv{vec: cp(r.V), refuse: r.Refuse, log: &s.offers, all: &all, idx: k}
				if r.Kind == "cluster" {
					// stored in a real cluster, judged by its initial vector
					inner := newCentroid(x, c.Euc, r.V)
					all = append(all, rv)
					rs = append(rs, storing{nrecv{rv, c.Euc}, inner})
					continue
				}
				all = append(all, rv)
				rs = append(rs, nrecv{rv, c.Euc})
			}
			s.recvs = all
			m.DistributeDataPoints(op.N, rs)
		case "distI":
			m.DistributeDataPointsInternal(op.N)
		case "expire":
			m.Expire()
		case "trim":
			m.MemTrim()
		case "move":
			s.resOK = m.MoveVector()
		case "tick":
			time.Sleep(time.Duration(op.Dt))
		}
		s.after = snapNode(m)
		for _, cl := range m.Centroids {
			s.afterCaps = append(s.afterCaps, cap(cl.DataPoints))
		}
		s.scale = scale
		x.Tracef("%d: %s n=%d drain=%v v=%v pred=%+v dp=%v -> %v ok=%v clusters=%v vec=%v", i, op.Op, op.N, op.Drain, op.V, op.Pr, op.P.V, ids(s.res), s.resOK, s.after.idSets(), s.after.vec)
		oracle(x, s, reg)
		if len(s.res) > 0 {
			kept = append(kept, s.res)
			keptIDs = append(keptIDs, ids(s.res))
		}
		if len(s.taken) > 0 {
			taken = append(taken, s.taken)
			takenWas = append(takenWas, append([]*Centroid{}, s.taken...))
		}
	}
	for i := range taken {
		for k := range taken[i] {
			if taken[i][k] != takenWas[i][k] {
				x.Failf("the list of nearest clusters returned earlier was later overwritten")
			}
		}
	}
	for i, r := range kept {
		for j, d := range r {
			if id := idOf(d); id != keptIDs[i][j] {
				x.Failf("a point returned earlier (%d) was later overwritten (now %s)", keptIDs[i][j], showDP(d))
			}
			reg.verify(x, "returned earlier", d)
		}
	}
	if !eqVec(init, c.Init) {
		x.Failf("the caller's initial vector was changed")
	}
}

type storing struct {
	nrecv
	inner *Centroid
}

func (r storing) AddDataPoint(dp DataPoint) bool {
	ok := r.nrecv.AddDataPoint(dp)
	if ok {
		r.inner.AddDataPoint(dp)
	}
	return ok
}

func (s *nstep) given() (out []DataPoint) {
	for _, r := range s.recvs {
		out = append(out, r.got...)
	}
	return
}

func (s *nstep) anyExpired() bool {
	all := s.before.all()
	return len(live(all, s.now)) != len(all)
}

// clusterOf maps point id to cluster index.
func (s nsnap) clusterOf() map[int]int {
	m := map[int]int{}
	for i, p := range s.pts {
		for _, d := range p {
			m[idOf(d)] = i
		}
	}
	return m
}

func vecScores(vecs [][]float64, q []float64, euc bool) []float64 {
	sc := make([]float64, len(vecs))
	for i, v := range vecs {
		if len(v) != len(q) {
			sc[i] = math.NaN()
		} else {
			sc[i] = goodness(euc, q, v)
		}
	}
	return sc
}

// ---- oracles ------------------------------------------------------------------------

func checkNodeMean(x *X, what string, s nsnap, scale float64) {
	if !finite(s.vec) {
		x.Failf("%s: node vector %v is not finite", what, s.vec)
	}
	if len(s.cl) == 0 {
		return
	}
	if m := meanOf(s.vecs); !closeVec(m, s.vec, math.Max(scale, 1e-300)) {
		x.Failf("%s: node vector %v, mean of its %d clusters' vectors %v", what, s.vec, len(s.cl), m)
	}
}

func oracleM01(x *X, s *nstep, _ *Registry) {
	checkNodeMean(x, s.String(), s.after, s.scale)
	if len(s.before.cl) >= 2 && s.op.Op != "tick" {
		if !eqVec(s.before.vec, s.after.vec) {
			x.NonTrivial()
		}
		x.Label("op=" + s.op.Op)
	}
	if len(s.before.cl) > 0 && len(s.after.cl) == 0 {
		x.Label("node became empty")
	}
	if len(s.after.cl) > len(s.before.cl) && s.op.Op == "add" && len(s.before.cl) > 0 {
		x.Label("auto-split")
	}
}

func oracleM02(x *X, s *nstep, reg *Registry) {
	what := s.String()
	for _, l := range [][]DataPoint{s.after.all(), s.res, s.given()} {
		for _, d := range l {
			reg.verify(x, what, d)
		}
	}
	n := 0
	for _, p := range s.after.pts {
		n += len(p)
	}
	if s.m.LenDP() != n {
		x.Failf("%s: LenDP() = %d, %d points held", what, s.m.LenDP(), n)
	}
	before := s.before.all()
	switch s.op.Op {
	case "bulk":
		for i, d := range s.bulk {
			if s.bulkOK[i] {
				before = append(before, d)
			}
		}
		conserve(x, what, before, s.now, s.after.all())
		x.Label(fmt.Sprintf("clusters>=%d", len(s.after.cl)/50*50))
	case "add":
		if s.resOK {
			before = append(before, s.dp)
		}
		conserve(x, what, before, s.now, s.after.all())
	case "lookup":
		if s.op.Drain {
			conserve(x, what, before, s.now, s.after.all(), s.res)
		} else {
			conserve(x, what, before, s.now, s.after.all())
		}
		if a := idCount(s.res); len(a) != len(s.res) {
			x.Failf("%s: returned a point twice: %v", what, ids(s.res))
		}
	case "dist":
		conserve(x, what, before, s.now, s.after.all(), s.given())
	default:
		conserve(x, what, before, s.now, s.after.all(), s.res)
	}
	if s.op.Op == "near" && !s.op.Drain && !sameSnap(s.before, s.after) {
		x.Failf("%s: asking for clusters without removal changed the node", what)
	}
	x.Label("op=" + s.op.Op)
	if len(s.before.cl) >= 2 && s.op.Op != "add" && len(before) >= 3 && !sameSnap(s.before, s.after) {
		x.NonTrivial()
	}
}

func oracleM03(x *X, s *nstep, reg *Registry) {
	if s.op.Op != "add" {
		return
	}
	what := s.String()
	id := idOf(s.dp)
	comparable := len(s.before.cl) == 0
	for _, v := range s.before.vecs {
		if len(v) == len(s.dp.Vec) {
			comparable = true
		}
	}
	want := comparable && !isExpired(s.dp, s.now)
	if s.resOK != want {
		x.Failf("%s: AddDataPoint answered %v for %s with cluster vectors %v", what, s.resOK, showDP(s.dp), s.before.vecs)
	}
	if !want {
		if !sameSnap(s.before, s.after) {
			x.Failf("%s: refused add changed the node", what)
		}
		x.Label("refused")
		return
	}
	at, ok := s.after.clusterOf()[id]
	if !ok {
		x.Failf("%s: accepted point %d is not stored", what, id)
	}
	if len(s.before.cl) == 0 {
		if len(s.after.cl) != 1 || len(s.after.pts[0]) != 1 {
			x.Failf("%s: first point should start the only cluster: %v", what, s.after.idSets())
		}
		x.Label("first")
		return
	}
	// Which old clusters could it have joined?
	scores := vecScores(s.before.vecs, s.dp.Vec, s.euc)
	joined := at
	if at >= len(s.before.cl) {
		// moved on by the split: the cluster it was split off is the one that lost points
		joined = -1
		bo := s.before.clusterOf()
		for _, d := range s.after.pts[at] {
			if i, ok := bo[idOf(d)]; ok {
				joined = i
			}
		}
		for i, p := range s.before.pts {
			if joined < 0 && !eqInts(sortedIDs(live(p, s.now)), sortedIDs(live(s.after.pts[i], s.now))) {
				joined = i
			}
		}
		if joined < 0 {
			// new cluster holds only the new point: it was split off a cluster which kept its points
			for i, sc := range scores {
				if !math.IsNaN(sc) && (joined < 0 || sc > scores[joined]) {
					joined = i
				}
			}
		}
		x.Label("into split-off cluster")
	}
	for i, sc := range scores {
		if better(sc, scores[joined]) {
			x.Failf("%s: point %d joined cluster %d (similarity %v) although cluster %d is nearer (%v)", what, id, joined, scores[joined], i, sc)
		}
	}
	n := 0
	for _, sc := range scores {
		if !math.IsNaN(sc) && better(scores[joined], sc) {
			n++
		}
	}
	if n >= 2 {
		x.NonTrivial()
	}
	if len(scores) > 64 {
		x.Label(fmt.Sprintf("clusters>%d", 64<<(bits.Len(uint((len(scores)-1)/64))-1)))
	}
	for i := range s.before.cl {
		if i != joined && (s.after.cl[i] != s.before.cl[i] || !eqInts(sortedIDs(live(s.before.pts[i], s.now)), sortedIDs(live(s.after.pts[i], s.now)))) {
			x.Failf("%s: add changed the unrelated cluster %d: %v -> %v", what, i, s.before.idSets(), s.after.idSets())
		}
	}
}

func oracleM04(x *X, s *nstep, reg *Registry) {
	if s.op.Op != "add" {
		return
	}
	what := s.String()
	nb, na := len(s.before.cl), len(s.after.cl)
	if !s.resOK {
		if na != nb {
			x.Failf("%s: refused add changed the number of clusters", what)
		}
		return
	}
	if nb == 0 {
		if na != 1 {
			x.Failf("%s: %d clusters after the first add", what, na)
		}
		return
	}
	// the cluster that received the point
	grown := -1
	all := append(append([]DataPoint{}, s.before.all()...), s.dp)
	if !eqInts(sortedIDs(all), sortedIDs(s.after.all())) {
		x.Failf("%s: points lost or duplicated by an add: %v -> %v", what, s.before.idSets(), s.after.idSets())
	}
	if na == nb {
		for i := range s.before.pts {
			if len(s.after.pts[i]) == len(s.before.pts[i])+1 {
				grown = i
			}
		}
		if grown < 0 {
			x.Failf("%s: no cluster grew by the added point: %v -> %v", what, s.before.idSets(), s.after.idSets())
		}
		if sz := len(s.after.pts[grown]); s.threshold >= 2 && sz >= s.threshold {
			x.Failf("%s: cluster %d now holds %d points but was not split", what, grown, sz)
		}
		return
	}
	if na != nb+1 {
		x.Failf("%s: an add changed the number of clusters from %d to %d", what, nb, na)
	}
	if s.threshold < 2 {
		x.Failf("%s: an add split a cluster although splitting is disabled", what)
	}
	x.NonTrivial()
	x.Label("auto-split")
	// sizes: one old cluster m -> m+1-threshold/2 and one new cluster threshold/2
	half := s.threshold / 2
	counts := map[int]int{}
	for _, n := range s.after.sizes() {
		counts[n]++
	}
	var shrunk = -1
	for i, n := range s.before.sizes() {
		if !eqInts(sortedIDs(s.before.pts[i]), sortedIDs(s.after.pts[i])) {
			if shrunk >= 0 {
				x.Failf("%s: more than one old cluster changed: %v -> %v", what, s.before.idSets(), s.after.idSets())
			}
			shrunk = i
			if n+1 < s.threshold {
				x.Failf("%s: split a cluster of only %d points", what, n+1)
			}
		}
	}
	if got := len(s.after.pts[na-1]); got != half {
		x.Failf("%s: split off %d points, want %d: %v -> %v", what, got, half, s.before.idSets(), s.after.idSets())
	}
	if shrunk >= 0 && len(s.after.pts[shrunk]) != len(s.before.pts[shrunk])+1-half {
		x.Failf("%s: split cluster kept %d points, want %d", what, len(s.after.pts[shrunk]), len(s.before.pts[shrunk])+1-half)
	}
	if shrunk >= 0 && len(s.before.pts[shrunk]) >= s.threshold {
		x.Label("split of an oversized cluster")
	}
}

// after a history of adds only, no cluster reaches the threshold
func oracleM04adds(x *X, s *nstep, reg *Registry) {
	oracleM04(x, s, reg)
	if s.op.Op == "bulk" {
		x.Label("bulk")
	}
	if s.threshold >= 2 {
		for i, n := range s.after.sizes() {
			if n >= s.threshold {
				x.Failf("%s: cluster %d holds %d points after adds alone", s, i, n)
			}
		}
	} else if len(s.after.cl) > 1 {
		x.Failf("%s: %d clusters from adds alone with splitting disabled", s, len(s.after.cl))
	}
}

func oracleM05(x *X, s *nstep, reg *Registry) {
	if s.op.Op == "split" {
		checkSplit(x, s.String(), s.before, s.after, s.chosen)
	}
}

func checkSplit(x *X, what string, before, after nsnap, chosen []bool) {
	want := 0
	for i, ch := range chosen {
		if ch && len(before.pts[i]) >= 2 {
			want++
		}
	}
	if len(after.pts) != len(before.pts)+want {
		x.Failf("%s: %d clusters became %d, want %d more: %v -> %v", what, len(before.pts), len(after.pts), want, before.idSets(), after.idSets())
	}
	bo := before.clusterOf()
	pieces := map[int][]int{} // origin -> sizes of pieces
	empties := 0
	total := 0
	for _, p := range after.pts {
		if len(p) == 0 {
			empties++
			continue
		}
		total += len(p)
		o := -1
		for _, d := range p {
			i, ok := bo[idOf(d)]
			if !ok || (o >= 0 && i != o) {
				x.Failf("%s: a cluster mixes or invents points: %v -> %v", what, before.idSets(), after.idSets())
			}
			o = i
		}
		pieces[o] = append(pieces[o], len(p))
	}
	if total != len(before.all()) || len(idCount(after.all())) != total {
		x.Failf("%s: points lost or duplicated: %v -> %v", what, before.idSets(), after.idSets())
	}
	wantEmpties := 0
	for i, p := range before.pts {
		m := len(p)
		if m == 0 {
			wantEmpties++
			continue
		}
		sz := pieces[i]
		sort.Ints(sz)
		w := []int{m}
		if chosen[i] && m >= 2 {
			w = []int{m / 2, m - m/2}
		}
		if !eqInts(sz, w) {
			x.Failf("%s: cluster %d of %d points (chosen=%v) became pieces %v, want %v", what, i, m, chosen[i], sz, w)
		}
	}
	if empties != wantEmpties {
		x.Failf("%s: %d empty clusters, want %d", what, empties, wantEmpties)
	}
	if want > 0 && want < len(before.pts) {
		x.NonTrivial()
	}
	x.Label(fmt.Sprintf("split=%d", min(want, 4)))
}

// simMerge is the reference for MergeCentroids; ambiguous is set when a choice
// depends on a near-tie or on a vector too small to have a direction.
func simMerge(before nsnap, euc bool, scale float64, qualifies func(i int, pts []DataPoint) bool) (out [][]DataPoint, ambiguous bool) {
	n := len(before.pts)
	pts := make([][]DataPoint, n)
	vec := make([][]float64, n)
	gone := make([]bool, n)
	for i := range pts {
		pts[i] = append([]DataPoint{}, before.pts[i]...)
		vec[i] = before.vecs[i]
	}
	mean := func(ps []DataPoint) []float64 {
		vs := make([][]float64, len(ps))
		for i, p := range ps {
			vs[i] = p.Vec
		}
		return meanOf(vs)
	}
	for i := 0; i < n; i++ {
		if gone[i] || !qualifies(i, pts[i]) {
			continue
		}
		q := vec[i]
		type cand struct {
			j  int
			sc float64
		}
		var cs []cand
		for j := 0; j < n; j++ {
			if j != i && !gone[j] && len(vec[j]) == len(q) {
				cs = append(cs, cand{j, goodness(euc, q, vec[j])})
			}
		}
		sort.SliceStable(cs, func(a, b int) bool { return cs[a].sc > cs[b].sc })
		for a, c := range cs {
			if a+1 < len(cs) && tieEq(c.sc, cs[a+1].sc) {
				ambiguous = true
			}
			gone[c.j] = true
			if len(pts[c.j]) > 0 {
				pts[i] = append(pts[i], pts[c.j]...)
				vec[i] = mean(pts[i])
				if refNorm(vec[i]) <= 1e-6*scale {
					ambiguous = true
				}
			}
			if !qualifies(i, pts[i]) {
				break
			}
		}
	}
	for i := range pts {
		if !gone[i] {
			out = append(out, pts[i])
		}
	}
	return out, ambiguous
}

func checkMerge(x *X, what string, before, after nsnap, chosen []bool, euc bool, scale float64, qualifies func(i int, pts []DataPoint) bool, stillQualifies func(pts []DataPoint, k int) bool) {
	bo := before.clusterOf()
	where := map[int]int{}
	total := 0
	for k, p := range after.pts {
		total += len(p)
		for _, d := range p {
			i, ok := bo[idOf(d)]
			if !ok {
				x.Failf("%s: unknown point %d", what, idOf(d))
			}
			if w, seen := where[i]; seen && w != k {
				x.Failf("%s: cluster %d was torn apart: %v -> %v", what, i, before.idSets(), after.idSets())
			}
			where[i] = k
		}
	}
	if total != len(before.all()) || len(idCount(after.all())) != total {
		x.Failf("%s: points lost or duplicated: %v -> %v", what, before.idSets(), after.idSets())
	}
	if len(after.pts) > 1 {
		for k, p := range after.pts {
			if stillQualifies(p, k) {
				x.Failf("%s: cluster %v still qualifies with %d clusters left: %v -> %v", what, ids(p), len(after.pts), before.idSets(), after.idSets())
			}
		}
	}
	if len(before.pts) > 0 && len(after.pts) == 0 {
		x.Failf("%s: all clusters gone", what)
	}
	any := false
	for _, c := range chosen {
		any = any || c
	}
	if !any && len(after.pts) != len(before.pts) {
		x.Failf("%s: no cluster qualified but %d clusters became %d", what, len(before.pts), len(after.pts))
	}
	want, amb := simMerge(before, euc, scale, qualifies)
	if amb {
		x.Label("tie: exact order not judged")
	} else {
		a, b := setsOf(want), setsOf(after.pts)
		if a != b {
			x.Failf("%s: clusters after merging %s, want %s (before %v)", what, b, a, before.idSets())
		}
		if len(after.pts) < len(before.pts) && len(after.pts) > 1 {
			x.NonTrivial()
		}
	}
	if len(after.pts) < len(before.pts) {
		x.Label("merged")
	}
}

// setsOf is a canonical text of a partition, ignoring cluster order.
func setsOf(ps [][]DataPoint) string {
	var l []string
	for _, p := range ps {
		l = append(l, fmt.Sprint(sortedIDs(p)))
	}
	sort.Strings(l)
	return fmt.Sprint(l)
}

func oracleM06(x *X, s *nstep, reg *Registry) {
	if s.op.Op != "merge" {
		return
	}
	pr := *s.op.Pr
	q := func(i int, pts []DataPoint) bool {
		if pr.Kind == "mask" {
			return i < 30 && pr.Lo>>i&1 == 1
		}
		return pr.eval(&s.before, &Centroid{DataPoints: pts})
	}
	still := func(pts []DataPoint, k int) bool { return pr.eval(&s.before, s.after.cl[k]) }
	checkMerge(x, s.String(), s.before, s.after, s.chosen, s.euc, s.scale, q, still)
}

// checkShares: counts taken per cluster differ by at most one unless exhausted.
func checkShares(x *X, what string, sizes, taken []int, n int) {
	tot, held := 0, 0
	for i := range taken {
		tot += taken[i]
		held += sizes[i]
	}
	if want := min(max(0, n), held); tot != want {
		x.Failf("%s: took %d points, want %d (n=%d, held %v, taken %v)", what, tot, want, n, sizes, taken)
	}
	for i := range taken {
		for j := range taken {
			if taken[i] > taken[j]+1 && taken[j] < sizes[j] {
				x.Failf("%s: uneven shares %v from clusters of %v", what, taken, sizes)
			}
		}
	}
}

func oracleM07(x *X, s *nstep, reg *Registry) {
	if s.op.Op != "drainU" && s.op.Op != "drainO" {
		return
	}
	what := s.String()
	for _, d := range s.res {
		reg.verify(x, what, d)
	}
	conserve(x, what, s.before.all(), s.now, s.after.all(), s.res)
	if len(s.after.cl) != len(s.before.cl) {
		x.Failf("%s: drain changed the number of clusters", what)
	}
	if s.anyExpired() {
		if len(s.res) > max(0, s.op.N) {
			x.Failf("%s: returned %d points", what, len(s.res))
		}
		x.Label("expired held")
		return
	}
	bo := s.before.clusterOf()
	taken := make([]int, len(s.before.cl))
	per := make([][]DataPoint, len(s.before.cl))
	for _, d := range s.res {
		i, ok := bo[idOf(d)]
		if !ok {
			x.Failf("%s: returned unknown point", what)
		}
		taken[i]++
		per[i] = append(per[i], d)
	}
	checkShares(x, what, s.before.sizes(), taken, s.op.N)
	for i := range per {
		var left []int
		out := idCount(per[i])
		for _, d := range s.before.pts[i] {
			if out[idOf(d)] == 0 {
				left = append(left, idOf(d))
			}
		}
		sort.Ints(left)
		if !eqInts(left, sortedIDs(s.after.pts[i])) {
			x.Failf("%s: cluster %d holds %v, want %v", what, i, sortedIDs(s.after.pts[i]), left)
		}
		if s.op.Op == "drainO" && len(per[i]) > 0 {
			checkRanked(x, fmt.Sprintf("%s cluster %d", what, i), dpScores(s.before.pts[i], s.before.vecs[i], s.euc, true), positions(x, what, s.before.pts[i], per[i]), taken[i], false)
		}
	}
	if len(taken) >= 2 && len(s.res) >= 2 && len(s.after.all()) > 0 {
		x.NonTrivial()
	}
	x.Label("op=" + s.op.Op)
	if s.op.N <= 0 {
		x.Label("n<=0")
	}
}

func oracleM08(x *X, s *nstep, reg *Registry) {
	if s.op.Op != "lookup" {
		return
	}
	what := s.String()
	for _, d := range s.res {
		reg.verify(x, what, d)
	}
	checkNodeLookup(x, what, s.before, s.res, s.op.V, s.op.N, s.euc, s.now)
	if s.op.Drain {
		conserve(x, what, s.before.all(), s.now, s.after.all(), s.res)
	} else {
		conserve(x, what, s.before.all(), s.now, s.after.all())
	}
	if s.anyExpired() {
		x.Label("expired held")
	}
}

// checkNodeLookup judges the answer of a node lookup against the state before it.
func checkNodeLookup(x *X, what string, before nsnap, res []DataPoint, q []float64, k int, euc bool, now time.Time) {
	elig := 0
	liveOf := make([][]DataPoint, len(before.pts))
	for i := range before.pts {
		if len(before.vecs[i]) == len(q) {
			liveOf[i] = live(before.pts[i], now)
			elig += len(liveOf[i])
		}
	}
	if want := min(max(0, k), elig); len(res) != want {
		x.Failf("%s: returned %d points, want %d (k=%d, %d live points in %d clusters)", what, len(res), want, k, elig, len(before.pts))
	}
	if len(idCount(res)) != len(res) {
		x.Failf("%s: returned a point twice: %v", what, ids(res))
	}
	scores := vecScores(before.vecs, q, euc)
	bo := before.clusterOf()
	used := map[int]bool{}
	prev := -1
	for a := 0; a < len(res); {
		ci, ok := bo[idOf(res[a])]
		if !ok {
			x.Failf("%s: unknown point %d", what, idOf(res[a]))
		}
		b := a
		for b < len(res) && bo[idOf(res[b])] == ci {
			b++
		}
		if used[ci] {
			x.Failf("%s: results of cluster %d are not together: %v of %v", what, ci, ids(res), before.idSets())
		}
		used[ci] = true
		if prev >= 0 && better(scores[ci], scores[prev]) {
			x.Failf("%s: cluster %d (similarity %v) was used after the less similar cluster %d (%v)", what, ci, scores[ci], prev, scores[prev])
		}
		if b < len(res) && b-a < len(liveOf[ci]) {
			x.Failf("%s: went on to the next cluster with only %d of %d points of cluster %d", what, b-a, len(liveOf[ci]), ci)
		}
		checkRanked(x, fmt.Sprintf("%s (within cluster %d)", what, ci), dpScores(liveOf[ci], q, euc, false), positions(x, what, liveOf[ci], res[a:b]), b-a, true)
		prev = ci
		a = b
	}
	if prev >= 0 {
		for i, sc := range scores {
			if !used[i] && len(liveOf[i]) > 0 && better(sc, scores[prev]) {
				x.Failf("%s: cluster %d (similarity %v) was skipped although more similar than used cluster %d (%v)", what, i, sc, prev, scores[prev])
			}
		}
	}
	if len(used) >= 2 {
		x.NonTrivial()
	}
	x.Label(fmt.Sprintf("clusters used=%d", min(len(used), 4)))
	if k > 0 && len(before.pts) > k {
		x.Label("more clusters than k")
	}
}

func oracleM09(x *X, s *nstep, reg *Registry) {
	if s.op.Op != "near" {
		return
	}
	what := s.String()
	scores := vecScores(s.before.vecs, s.op.V, s.euc)
	comparable := 0
	for _, sc := range scores {
		if !math.IsNaN(sc) {
			comparable++
		}
	}
	want := min(max(0, s.op.N), comparable)
	if s.resOK != (want > 0) {
		x.Failf("%s: answered ok=%v with %d comparable clusters", what, s.resOK, comparable)
	}
	pos := map[*Centroid]int{}
	for i, c := range s.before.cl {
		pos[c] = i
	}
	var picked []int
	for _, c := range s.taken {
		i, ok := pos[c]
		if !ok {
			x.Failf("%s: returned a cluster that the node did not hold", what)
		}
		if !eqInts(sortedIDs(c.DataPoints), sortedIDs(s.before.pts[i])) || !eqVec(c.Vec(), s.before.vecs[i]) {
			x.Failf("%s: returned cluster %d with other contents", what, i)
		}
		picked = append(picked, i)
	}
	checkRanked(x, what, scores, picked, s.op.N, true)
	rest := s.before
	if s.op.Drain {
		rest = nsnap{}
		for i := range s.before.cl {
			out := false
			for _, p := range picked {
				out = out || p == i
			}
			if !out {
				rest.cl = append(rest.cl, s.before.cl[i])
				rest.pts = append(rest.pts, s.before.pts[i])
				rest.vecs = append(rest.vecs, s.before.vecs[i])
			}
		}
		rest.vec = s.after.vec
	}
	if !sameSnap(rest, s.after) {
		x.Failf("%s: clusters left are %v, want %v", what, s.after.idSets(), rest.idSets())
	}
	if len(picked) >= 2 {
		x.NonTrivial()
	}
	if s.op.Drain && len(picked) > 0 && len(rest.cl) == 0 {
		x.Label("last cluster taken")
	}
}

// roundRobin gives the shares each cluster loses when n points leave a node.
func roundRobin(sizes []int, n int) []int {
	r := make([]int, len(sizes))
	for left := n; left > 0; {
		any := false
		for i := range sizes {
			if left > 0 && r[i] < sizes[i] {
				r[i]++
				left--
				any = true
			}
		}
		if !any {
			break
		}
	}
	return r
}

func cloneCentroid(x *X, euc bool, vec []float64, pts []DataPoint) *Centroid {
	c := newCentroid(x, euc, vec)
	c.DataPoints = append(c.DataPoints, pts...)
	return c
}

func permutations(a []int) (out [][]int) {
	if len(a) <= 1 {
		return [][]int{append([]int{}, a...)}
	}
	for i := range a {
		rest := append(append([]int{}, a[:i]...), a[i+1:]...)
		for _, p := range permutations(rest) {
			out = append(out, append([]int{a[i]}, p...))
		}
	}
	return
}

func oracleM10(x *X, s *nstep, reg *Registry) {
	what := s.String()
	switch s.op.Op {
	case "dist":
	case "distI":
		oracleInternal(x, what, s.before, s.after, s.op.N, s.euc, s.scale, s.anyExpired(), s.now)
		return
	default:
		return
	}
	if len(s.op.R) == 0 {
		if !sameSnap(s.before, s.after) {
			x.Failf("%s: redistribution without receivers changed the node", what)
		}
		return
	}
	conserve(x, what, s.before.all(), s.now, s.after.all(), s.given())
	checkNodeMean(x, what, s.after, s.scale)
	if s.anyExpired() {
		return
	}
	bo := s.before.clusterOf()
	per := make([][]DataPoint, len(s.before.cl))
	taken := make([]int, len(s.before.cl))
	acc := map[int]bool{}
	seen := map[int]bool{}
	for _, o := range s.offers {
		id := idOf(o.dp)
		if seen[id] {
			x.Failf("%s: point %d offered twice", what, id)
		}
		seen[id] = true
		ci, ok := bo[id]
		if !ok {
			x.Failf("%s: unknown point %d offered", what, id)
		}
		per[ci] = append(per[ci], o.dp)
		taken[ci]++
		acc[id] = o.accepted
		if math.IsNaN(o.scores[o.to]) {
			x.Failf("%s: point %d offered to a receiver of another dimension", what, id)
		}
		for k, sc := range o.scores {
			if !math.IsNaN(sc) && better(sc, o.scores[o.to]) {
				x.Failf("%s: point %d offered to receiver %d (similarity %v) although receiver %d is nearer (%v)", what, id, o.to, o.scores[o.to], k, sc)
			}
		}
		if !o.accepted {
			x.Label("refused offer")
		}
	}
	comparable := false
	if len(s.before.vecs) > 0 {
		for _, r := range s.op.R {
			comparable = comparable || len(r.V) == len(s.before.vecs[0])
		}
	}
	if comparable {
		checkShares(x, what, s.before.sizes(), taken, s.op.N)
	} else if len(s.offers) > 0 {
		x.Failf("%s: offers made to receivers of another dimension", what)
	}
	if len(s.after.cl) != len(s.before.cl) {
		x.Failf("%s: number of clusters changed", what)
	}
	for i := range per {
		if len(per[i]) > 0 {
			checkRanked(x, fmt.Sprintf("%s (worst-fit of cluster %d)", what, i), dpScores(s.before.pts[i], s.before.vecs[i], s.euc, true), positions(x, what, s.before.pts[i], per[i]), taken[i], false)
		}
		var want []int
		for _, d := range s.before.pts[i] {
			if id := idOf(d); !acc[id] {
				want = append(want, id)
			}
		}
		sort.Ints(want)
		if !eqInts(want, sortedIDs(s.after.pts[i])) {
			x.Failf("%s: cluster %d holds %v, want %v", what, i, sortedIDs(s.after.pts[i]), want)
		}
	}
	if len(s.offers) >= 2 && len(s.before.cl) >= 2 && len(s.recvs) >= 2 {
		x.NonTrivial()
	}
	x.Label("external")
}

func oracleInternal(x *X, what string, before, after nsnap, n int, euc bool, scale float64, anyExpired bool, now time.Time) {
	conserve(x, what, before.all(), now, after.all())
	checkNodeMean(x, what, after, scale)
	if len(after.cl) != len(before.cl) {
		x.Failf("%s: number of clusters changed", what)
	}
	if anyExpired {
		return
	}
	bo, ao := before.clusterOf(), after.clusterOf()
	moved := 0
	for id, i := range bo {
		if ao[id] != i {
			moved++
		}
	}
	if moved > max(0, n) {
		x.Failf("%s: %d points changed cluster for n=%d", what, moved, n)
	}
	if moved > 0 {
		x.Label("internal, points moved")
	}
	// Clusters may be processed in any order: the outcome has to match one of them.
	shares := roundRobin(before.sizes(), max(0, n))
	var part []int
	for i, v := range shares {
		if v > 0 {
			part = append(part, i)
		}
	}
	if len(part) == 0 || len(part) > 4 {
		return
	}
	var outcomes []string
	got := fmt.Sprint(after.idSets())
	for _, perm := range permutations(part) {
		var cl []*Centroid
		var rs []common.DataPointReceiver
		for i := range before.cl {
			c := cloneCentroid(x, euc, before.vecs[i], before.pts[i])
			cl = append(cl, c)
			rs = append(rs, c)
		}
		for _, i := range perm {
			cl[i].DistributeDataPoints(shares[i], rs)
		}
		var sets [][]int
		for _, c := range cl {
			sets = append(sets, sortedIDs(c.DataPoints))
		}
		o := fmt.Sprint(sets)
		if o == got {
			if moved > 0 {
				x.NonTrivial()
			}
			return
		}
		outcomes = append(outcomes, o)
	}
	x.Failf("%s: clusters %s after internal redistribution of %v; possible outcomes %v (before %v)", what, got, shares, outcomes, before.idSets())
}

func oracleX01n(x *X, s *nstep, reg *Registry) {
	what := s.String()
	for _, d := range s.res {
		if s.op.Op != "near" && isExpired(d, s.now) {
			x.Failf("%s: returned expired point %s at %v", what, showDP(d), s.now.Format(time.RFC3339Nano))
		}
	}
	for _, o := range s.offers {
		if o.expired {
			x.Failf("%s: expired point %s offered to a receiver", what, showDP(o.dp))
		}
	}
	before := s.before.all()
	if s.op.Op == "add" {
		if isExpired(s.dp, s.now) && s.resOK {
			x.Failf("%s: expired point %s accepted at %v", what, showDP(s.dp), s.now.Format(time.RFC3339Nano))
		}
		placeable := len(s.before.cl) == 0
		for _, v := range s.before.vecs {
			placeable = placeable || len(v) == len(s.dp.Vec)
		}
		if placeable && !isExpired(s.dp, s.now) && !s.resOK {
			x.Failf("%s: live point %s refused at %v", what, showDP(s.dp), s.now.Format(time.RFC3339Nano))
		}
		if s.resOK {
			before = append(before, s.dp)
		}
	}
	for i, d := range s.bulk {
		if s.bulkOK[i] == isExpired(d, s.now) {
			x.Failf("%s: AddDataPoint answered %v for %s at %v", what, s.bulkOK[i], showDP(d), s.now.Format(time.RFC3339Nano))
		}
		if s.bulkOK[i] {
			before = append(before, d)
		}
	}
	parts := [][]DataPoint{s.after.all(), s.res, s.given()}
	if s.op.Op == "lookup" && !s.op.Drain {
		parts = parts[:1]
	}
	conserve(x, what, before, s.now, parts...)
	if s.op.Op == "lookup" && len(s.before.vecs) > 0 && len(s.op.V) == len(s.before.vecs[0]) {
		if want := min(max(0, s.op.N), len(live(before, s.now))); len(s.res) != want {
			x.Failf("%s: returned %d points, %d live ones held", what, len(s.res), len(live(before, s.now)))
		}
	}
	lv := len(live(before, s.now))
	if lv != len(before) {
		x.Label("expired held at op=" + s.op.Op)
		if lv > 0 && (len(s.res) > 0 || len(s.offers) > 0) {
			x.NonTrivial()
		}
	}
}

func oracleX02n(x *X, s *nstep, reg *Registry) {
	if s.op.Op != "expire" && s.op.Op != "trim" {
		return
	}
	what := s.String()
	if s.op.Op == "expire" {
		if len(s.after.cl) != len(s.before.cl) {
			x.Failf("%s: expiry changed the number of clusters", what)
		}
		for i := range s.before.cl {
			if s.after.cl[i] != s.before.cl[i] {
				x.Failf("%s: expiry replaced cluster %d", what, i)
			}
		}
	}
	var want [][]int
	kept := map[*Centroid]bool{}
	dropped := 0
	for i, p := range s.before.pts {
		l := live(p, s.now)
		if s.op.Op == "trim" && len(l) == 0 {
			dropped++
			continue
		}
		kept[s.before.cl[i]] = true
		want = append(want, sortedIDs(l))
	}
	if got := s.after.idSets(); fmt.Sprint(got) != fmt.Sprint(want) {
		x.Failf("%s: clusters %v afterwards, want %v (before %v)", what, got, want, s.before.idSets())
	}
	for _, d := range s.after.all() {
		reg.verify(x, what, d)
	}
	if s.op.Op == "trim" {
		for i, n := range s.after.sizes() {
			if s.afterCaps[i] != n {
				x.Failf("%s: cluster %d has capacity %d for %d points", what, i, s.afterCaps[i], n)
			}
		}
		if dropped > 0 && len(want) > 0 {
			x.Label("dropped some clusters")
		}
	}
	if s.anyExpired() && len(s.after.all()) > 0 {
		x.NonTrivial()
	}
	x.Label("op=" + s.op.Op)
}

func init() {
	rule := func(s string) string {
		return "random histories of adds (with automatic splits), drains, lookups, cluster removal, splits, merges, redistribution, expiry, trimming and clock ticks on one node; " + s
	}
	regN := func(f Facet, m nmix, o func(*X, *nstep, *Registry)) {
		run := func(x *X, c nodeCase) { runNode(x, c, o) }
		reg(f, genNode(m), run)
		regTogether(f, f.Quick/12, f.Thorough/12, 3, genNode(m), run)
		f.Name += "-large"
		f.Rule = "the same starting with 24-2070 points at once; " + f.Rule[strings.Index(f.Rule, "non-trivial"):]
		f.Quick, f.Thorough = largeQuick, largeThorough
		m.large = true
		reg(f, genNode(m), run)
	}
	mixed := nmix{add: 55, drainU: 4, drainO: 4, lookup: 7, near: 4, split: 5, merge: 3, dist: 4, distI: 4, expire: 3, trim: 3, move: 1, tick: 6, expRate: 5, wrong: 15}
	regN(Facet{Prop: "M01", Name: "node-mean", Quick: 90000, Thorough: 3000000, Bubble: true,
		Rule: rule("non-trivial: the vector of a node with at least 2 clusters moves")}, mixed, oracleM01)
	regN(Facet{Prop: "M02", Name: "node-conserve", Quick: 90000, Thorough: 3000000, Bubble: true,
		Rule: rule("non-trivial: an operation other than add changes a node with at least 2 clusters and 3 points")}, mixed, oracleM02)
	addm := nmix{largeAdds: true, add: 75, drainU: 3, drainO: 2, lookup: 4, near: 1, split: 6, merge: 1, distI: 2, trim: 1, move: 1, tick: 3, expRate: 8, wrong: 10}
	regN(Facet{Prop: "M03", Name: "node-placement", Quick: 90000, Thorough: 3000000, Bubble: true,
		Rule: rule("non-trivial: an accepted point is strictly nearer to its cluster than to at least 2 others")}, addm, oracleM03)
	thr := nmix{largeAdds: true, add: 75, drainU: 3, drainO: 3, lookup: 4, near: 1, split: 2, merge: 5, distI: 2, trim: 1, wrong: 20, thresholds: []int{2, 2, 3, 3, 4, 5, 6, 7, 8, 10, 15, 1, 0, -3}}
	regN(Facet{Prop: "M04", Name: "node-autosplit", Quick: 90000, Thorough: 3000000, Bubble: true,
		Rule: rule("non-trivial: an add splits a cluster")}, thr, oracleM04)
	addOnly := nmix{largeAdds: true, add: 1, thresholds: []int{2, 3, 4, 5, 6, 7, 8, 10, 20, 1, 0, -3}}
	regN(Facet{Prop: "M04", Name: "node-autosplit-adds", Quick: 15000, Thorough: 500000, Bubble: true,
		Rule: rule("adds only; non-trivial: an add splits a cluster")}, addOnly, oracleM04adds)
	spl := nmix{add: 60, drainU: 4, lookup: 3, near: 1, split: 20, merge: 5, distI: 2, trim: 1, wrong: 20}
	regN(Facet{Prop: "M05", Name: "node-split", Quick: 90000, Thorough: 3000000, Bubble: true,
		Rule: rule("non-trivial: a split divides some but not all clusters")}, spl, oracleM05)
	mrg := nmix{long: true, add: 70, drainU: 4, lookup: 3, near: 1, split: 12, merge: 10, distI: 3, trim: 1, wrong: 20, thresholds: []int{2, 2, 3, 3, 4, 5, 6, 0}}
	regN(Facet{Prop: "M06", Name: "node-merge", Quick: 90000, Thorough: 3000000, Bubble: true,
		Rule: rule("non-trivial: a merge without ties leaves fewer but at least 2 clusters")}, mrg, oracleM06)
	drn := nmix{add: 60, drainU: 10, drainO: 10, lookup: 2, near: 1, split: 5, merge: 1, distI: 2, trim: 2, tick: 1, expRate: 30, wrong: 20}
	regN(Facet{Prop: "M07", Name: "node-drain", Quick: 90000, Thorough: 3000000, Bubble: true,
		Rule: rule("non-trivial: a drain of at least 2 points from a node with at least 2 clusters leaves points")}, drn, oracleM07)
	lok := nmix{long: true, add: 62, drainU: 3, drainO: 2, lookup: 20, near: 1, split: 6, merge: 1, distI: 2, trim: 1, tick: 3, expRate: 7, wrong: 15, thresholds: []int{0, 2, 3, 3, 4, 5, 6, 10}}
	regN(Facet{Prop: "M08", Name: "node-lookup", Quick: 90000, Thorough: 3000000, Bubble: true,
		Rule: rule("non-trivial: a lookup uses at least 2 clusters")}, lok, oracleM08)
	ner := nmix{add: 62, drainU: 3, lookup: 3, near: 15, split: 7, merge: 1, distI: 2, trim: 1, wrong: 12, thresholds: []int{0, 2, 2, 3, 3, 4, 5, 6}}
	regN(Facet{Prop: "M09", Name: "node-nearest", Quick: 90000, Thorough: 3000000, Bubble: true,
		Rule: rule("non-trivial: at least 2 clusters are returned")}, ner, oracleM09)
	dst := nmix{long: true, add: 62, drainU: 3, lookup: 3, near: 1, split: 7, merge: 1, dist: 10, distI: 8, trim: 1, tick: 1, expRate: 30, wrong: 14, thresholds: []int{0, 2, 3, 3, 4, 5, 6, 8}}
	regN(Facet{Prop: "M10", Name: "node-distribute", Quick: 90000, Thorough: 3000000, Bubble: true,
		Rule: rule("non-trivial: at least 2 offers to at least 2 receivers from a node with at least 2 clusters, or an internal redistribution that moves points and matches the reference")}, dst, oracleM10)
	exp := nmix{long: true, add: 55, drainU: 5, drainO: 5, lookup: 9, near: 1, split: 4, merge: 2, dist: 6, distI: 4, expire: 3, trim: 3, move: 2, tick: 12, expRate: 2, wrong: 25}
	regN(Facet{Prop: "X01", Name: "node-expiry", Quick: 90000, Thorough: 3000000, Bubble: true,
		Rule: rule("non-trivial: points are returned or offered while both expired and live points are held")}, exp, oracleX01n)
	trm := nmix{long: true, add: 55, drainU: 4, lookup: 3, near: 1, split: 6, merge: 1, expire: 8, trim: 10, tick: 14, expRate: 2, wrong: 25, thresholds: []int{0, 2, 2, 3, 3, 4, 5, 6}}
	regN(Facet{Prop: "X02", Name: "node-trim", Quick: 90000, Thorough: 3000000, Bubble: true,
		Rule: rule("non-trivial: an expire/trim meets expired points and leaves some")}, trm, oracleX02n)
}
