package h

import (
	"fmt"
	"math"
	"strings"
	"time"

	"pgregory.net/rapid"

	"trypo/pkg/kmeans/common"
)

// ---- histories on one cluster, under a fake clock ------------------------------

type RSpec struct {
	Kind   string    `json:"kind"` // fixed, cluster, self
	V      []float64 `json:"v,omitempty"`
	Refuse int       `json:"refuse,omitempty"` // refuse every n-th offer (0 = never)
}

type COp struct {
	Op    string    `json:"op"`
	P     PSpec     `json:"p,omitzero"`
	V     []float64 `json:"v,omitempty"`
	N     int       `json:"n,omitempty"`
	Drain bool      `json:"drain,omitempty"`
	Dt    int64     `json:"dt,omitempty"`
	R     []RSpec   `json:"r,omitempty"`
	B     *Bulk     `json:"b,omitempty"`
}

type clusterCase struct {
	Euc  bool      `json:"euc"`
	Init []float64 `json:"init"`
	Ops  []COp     `json:"ops"`
}

// genExpiry: points whose expiry lies around the (nanosecond) clock of the case.
func genExpiry(t *rapid.T, p *PSpec, rate int) {
	if rate == 0 || rapid.IntRange(0, rate-1).Draw(t, "exp?") != 0 {
		return
	}
	p.En = rapid.IntRange(0, 4).Draw(t, "en") != 0
	genYear(t, p)
	switch rapid.IntRange(0, 9).Draw(t, "ttlStyle") {
	case 0:
		p.Z = true
	case 1:
		p.Ttl = int64(time.Hour)
	case 2:
		p.Ttl = -int64(time.Hour)
	case 3:
		p.Ttl = 0
	default:
		p.Ttl = int64(rapid.IntRange(-1, 12).Draw(t, "ttl"))
	}
}

func genPoint(t *rapid.T, dim int, st VecStyle, wrong, expRate int) PSpec {
	p := PSpec{V: genAnyVec(t, dim, st, wrong), Pay: genPay(t)}
	genExpiry(t, &p, expRate)
	return p
}

func genLen(t *rapid.T, maxLen int) (int, int) {
	hi := pick(t, "lenClass", 4, 10, 20, 35, maxLen)
	if hi > maxLen {
		hi = maxLen
	}
	return hi / 2, hi
}

type cmix struct {
	add, drainU, drainO, lookup, dist, expire, trim, move, tick int
	expRate, wrong                                              int
	large                                                       bool // always many points
}

func genCluster(m cmix) func(*rapid.T) clusterCase {
	return func(t *rapid.T) clusterCase {
		dim := genDim(t)
		st := genStyle(t)
		c := clusterCase{Euc: rapid.Bool().Draw(t, "euc")}
		switch rapid.IntRange(0, 3).Draw(t, "init") {
		case 0:
			c.Init = make([]float64, dim)
		default:
			c.Init = genVec(t, dim, st)
		}
		expRate := m.expRate
		if expRate > 0 {
			expRate = pick(t, "expRate", m.expRate, m.expRate, 1, 6)
		}
		m := m
		if m.large {
			m.add = max(4, m.add/8)
		}
		total := m.add + m.drainU + m.drainO + m.lookup + m.dist + m.expire + m.trim + m.move + m.tick
		var lib []PSpec
		typ := 1
		op := rapid.Custom(func(t *rapid.T) COp {
			r := rapid.IntRange(0, total-1).Draw(t, "op")
			lim := 0
			is := func(w int) bool { lim += w; return r < lim }
			switch {
			case is(m.add):
				p := genPoint(t, dim, st, m.wrong, expRate)
				if len(lib) > 0 && rapid.IntRange(0, 5).Draw(t, "dup") == 0 {
					p.V = cp(lib[rapid.IntRange(0, len(lib)-1).Draw(t, "dupOf")].V)
				}
				lib = append(lib, p)
				return COp{Op: "add", P: p}
			case is(m.drainU):
				return COp{Op: "drainU", N: genCount(t, "n", 4*typ)}
			case is(m.drainO):
				return COp{Op: "drainO", N: genCount(t, "n", 4*typ)}
			case is(m.lookup):
				return COp{Op: "lookup", V: genAnyVec(t, dim, st, m.wrong), N: genCount(t, "k", 5*typ), Drain: rapid.Bool().Draw(t, "drain")}
			case is(m.dist):
				o := COp{Op: "dist", N: genCount(t, "n", 5*typ)}
				nr := rapid.IntRange(0, 4).Draw(t, "receivers")
				if rare(t, "manyReceivers", 5) {
					nr = rapid.IntRange(5, 80).Draw(t, "receivers")
				}
				for i := 0; i < nr; i++ {
					rs := RSpec{Kind: pick(t, "rkind", "fixed", "fixed", "cluster", "self"), Refuse: pick(t, "refuse", 0, 0, 0, 1, 2)}
					rs.V = genAnyVec(t, dim, st, m.wrong)
					o.R = append(o.R, rs)
				}
				return o
			case is(m.expire):
				return COp{Op: "expire"}
			case is(m.trim):
				return COp{Op: "trim"}
			case is(m.move):
				return COp{Op: "move"}
			default:
				return COp{Op: "tick", Dt: int64(rapid.IntRange(0, 6).Draw(t, "dt"))}
			}
		})
		lo, hi := genLen(t, 60)
		if m.large || rare(t, "big", 8) { // many points
			b := genBulk(t, dim, st, 2000/(1+dim/12), expRate)
			if rapid.Bool().Draw(t, "bigCounts") {
				typ = max(1, b.N/8)
			}
			c.Ops = append([]COp{{Op: "bulk", B: b}}, rapid.SliceOfN(op, 2, 12).Draw(t, "ops")...)
			return c
		}
		c.Ops = rapid.SliceOfN(op, lo, hi).Draw(t, "ops")
		return c
	}
}

// recv is a receiver which records what it is offered.
type recv struct {
	inner  *Centroid // nil for fixed receivers
	vec    []float64
	refuse int
	log    *[]offer
	all    *[]*recv
	idx    int
	offers int
	got    []DataPoint
	self   bool
}

type offer struct {
	to       int
	dp       DataPoint
	scores   []float64
	accepted bool
	expired  bool
	euc      bool
}

func (r *recv) Vec() []float64 {
	if r.inner != nil {
		return r.inner.Vec()
	}
	return r.vec
}

func (r *recv) scoresFor(v []float64, euc bool) []float64 {
	s := make([]float64, len(*r.all))
	for i, o := range *r.all {
		ov := o.Vec()
		if len(ov) != len(v) {
			s[i] = math.NaN()
		} else {
			s[i] = goodness(euc, v, ov)
		}
	}
	return s
}

type recvEuc struct {
	*recv
	euc bool
}

func (r recvEuc) AddDataPoint(dp DataPoint) bool {
	o := offer{to: r.idx, dp: cloneDP(dp), scores: r.scoresFor(dp.Vec, r.euc), expired: isExpired(dp, time.Now())}
	r.offers++
	ok := true
	if r.refuse > 0 && r.offers%r.refuse == 0 {
		ok = false
	} else if r.inner != nil {
		ok = r.inner.AddDataPoint(dp)
	} else {
		ok = len(dp.Vec) == len(r.vec)
	}
	o.accepted = ok
	if ok && !r.self {
		r.got = append(r.got, dp)
	}
	*r.log = append(*r.log, o)
	return ok
}

func isExpired(dp DataPoint, now time.Time) bool { return dp.ExpireEnabled && now.After(dp.Expires) }

// cstep describes one executed operation for the oracles.
type cstep struct {
	i         int
	op        COp
	now       time.Time
	before    []DataPoint
	beforeVec []float64
	after     []DataPoint
	afterVec  []float64
	afterCap  int
	res       []DataPoint // returned points
	resOK     bool        // result of add / move
	dp        DataPoint   // point offered to add
	bulk      []DataPoint // points offered by a bulk add
	bulkOK    []bool
	offers    []offer
	recvs     []*recv
	euc       bool
	scale     float64
}

func (s *cstep) String() string { return fmt.Sprintf("op %d %s", s.i, s.op.Op) }

// live returns the points of l that are not expired now.
func live(l []DataPoint, now time.Time) []DataPoint {
	var r []DataPoint
	for _, d := range l {
		if !isExpired(d, now) {
			r = append(r, d)
		}
	}
	return r
}

func snapshot(c *Centroid) []DataPoint {
	r := make([]DataPoint, len(c.DataPoints))
	for i, d := range c.DataPoints {
		r[i] = cloneDP(d)
	}
	return r
}

func runCluster(x *X, c clusterCase, oracle func(*X, *cstep, *Registry)) {
	init := cp(c.Init)
	cl := newCentroid(x, c.Euc, init)
	reg := &Registry{}
	scale := maxAbs(c.Init)
	var kept [][]DataPoint
	var keptIDs [][]int
	for i, op := range c.Ops {
		s := &cstep{i: i, op: op, now: time.Now(), before: snapshot(cl), beforeVec: cp(cl.Vec()), euc: c.Euc}
		switch op.Op {
		case "add":
			_, dp := reg.add(op.P, s.now)
			s.dp = cloneDP(dp)
			if len(dp.Vec) == len(c.Init) {
				scale = math.Max(scale, maxAbs(dp.Vec))
			}
			s.resOK = cl.AddDataPoint(dp)
		case "bulk":
			for _, p := range op.B.points() {
				_, dp := reg.add(p, s.now)
				scale = math.Max(scale, maxAbs(dp.Vec))
				s.bulk = append(s.bulk, cloneDP(dp))
				s.bulkOK = append(s.bulkOK, cl.AddDataPoint(dp))
			}
		case "drainU":
			s.res = cl.DrainUnordered(op.N)
		case "drainO":
			s.res = cl.DrainOrdered(op.N)
		case "lookup":
			s.res = cl.KNNLookup(cp(op.V), op.N, op.Drain)
		case "dist":
			var all []*recv
			var rs []common.DataPointReceiver
			for k, r := range op.R {
				rv := &recv{vec: cp(r.V), refuse: r.Refuse, log: &s.offers, all: &all, idx: k}
				switch r.Kind {
				case "cluster":
					rv.inner = newCentroid(x, c.Euc, r.V)
				case "self":
					rv.inner = cl
					rv.self = true
					rv.refuse = 0
				}
				all = append(all, rv)
				rs = append(rs, recvEuc{rv, c.Euc})
			}
			s.recvs = all
			cl.DistributeDataPoints(op.N, rs)
		case "expire":
			cl.Expire()
		case "trim":
			cl.MemTrim()
		case "move":
			s.resOK = cl.MoveVector()
		case "tick":
			time.Sleep(time.Duration(op.Dt))
		}
		s.after, s.afterVec, s.afterCap = snapshot(cl), cp(cl.Vec()), cap(cl.DataPoints)
		s.scale = scale
		x.Tracef("%d: %s n=%d drain=%v v=%v dp=%v -> %v held=%v vec=%v", i, op.Op, op.N, op.Drain, op.V, op.P.V, ids(s.res), ids(s.after), s.afterVec)
		if cl.LenDP() != len(s.after) {
			x.Failf("%s: LenDP() = %d with %d points held", s, cl.LenDP(), len(s.after))
		}
		oracle(x, s, reg)
		if len(s.res) > 0 {
			kept = append(kept, s.res)
			keptIDs = append(keptIDs, ids(s.res))
		}
	}
	// Points handed out earlier must not have been overwritten by later operations.
	for i, r := range kept {
		for j, d := range r {
			if id := idOf(d); id != keptIDs[i][j] {
				x.Failf("a point returned earlier (%d) was later overwritten (now %s)", keptIDs[i][j], showDP(d))
			}
			reg.verify(x, "returned earlier", d)
		}
	}
	if !eqVec(init, c.Init) {
		x.Failf("the caller's initial vector was changed")
	}
}

// multiset helpers on ids ---------------------------------------------------------

func idCount(ls ...[]DataPoint) map[int]int {
	m := map[int]int{}
	for _, l := range ls {
		for _, d := range l {
			m[idOf(d)]++
		}
	}
	return m
}

// conserve: every live point of before is in exactly one of the parts, parts hold
// nothing else except points of before (possibly expired), nothing twice.
func conserve(x *X, what string, before []DataPoint, now time.Time, parts ...[]DataPoint) {
	b, a := idCount(before), idCount(parts...)
	for id, n := range a {
		if n > 1 {
			x.Failf("%s: point %d is now held %d times", what, id, n)
		}
		if b[id] == 0 {
			x.Failf("%s: point %d appeared from nowhere", what, id)
		}
	}
	for _, d := range before {
		if id := idOf(d); a[id] == 0 && !isExpired(d, now) {
			x.Failf("%s: point %d got lost", what, id)
		}
	}
}

func given(s *cstep) (out []DataPoint) {
	for _, r := range s.recvs {
		out = append(out, r.got...)
	}
	return
}

// ---- oracles ----------------------------------------------------------------------

func oracleC01(x *X, s *cstep, _ *Registry) {
	if len(s.after) == 0 {
		if !finite(s.afterVec) || len(s.afterVec) != len(s.beforeVec) {
			x.Failf("%s: empty cluster has vector %v", s, s.afterVec)
		}
		return
	}
	vs := make([][]float64, len(s.after))
	for i, d := range s.after {
		vs[i] = d.Vec
	}
	if m := meanOf(vs); !closeVec(m, s.afterVec, s.scale) {
		x.Failf("%s: cluster vector %v, mean of held points %v (%d points)", s, s.afterVec, m, len(vs))
	}
	if s.i >= 3 && s.op.Op != "add" && s.op.Op != "tick" && len(s.before) >= 2 {
		x.NonTrivial()
	}
	x.Label("op=" + s.op.Op)
	if len(s.before) == 0 {
		x.Label("refilled or first")
	}
}

func oracleC02(x *X, s *cstep, reg *Registry) {
	for _, l := range [][]DataPoint{s.after, s.res, given(s)} {
		for _, d := range l {
			reg.verify(x, s.String(), d)
		}
	}
	liveN := len(live(s.before, s.now))
	nn := max(0, s.op.N)
	switch s.op.Op {
	case "add":
		want := len(s.dp.Vec) == len(s.beforeVec) && !isExpired(s.dp, s.now)
		if s.resOK != want {
			x.Failf("%s: AddDataPoint answered %v for %s (cluster dimension %d, now %v)", s, s.resOK, showDP(s.dp), len(s.beforeVec), s.now)
		}
		all := s.before
		if want {
			all = append(append([]DataPoint{}, s.before...), s.dp)
		} else if !eqVec(s.beforeVec, s.afterVec) {
			x.Failf("%s: refused add changed the cluster vector", s)
		}
		conserve(x, s.String(), all, s.now, s.after)
		if len(s.after) != len(all) {
			x.Failf("%s: %d points held, want %d", s, len(s.after), len(all))
		}
	case "bulk":
		all := s.before
		for i, d := range s.bulk {
			want := len(d.Vec) == len(s.beforeVec) && !isExpired(d, s.now)
			if s.bulkOK[i] != want {
				x.Failf("%s: AddDataPoint answered %v for %s", s, s.bulkOK[i], showDP(d))
			}
			if want {
				all = append(all, d)
			}
		}
		conserve(x, s.String(), all, s.now, s.after)
		if len(s.after) != len(all) {
			x.Failf("%s: %d points held, want %d", s, len(s.after), len(all))
		}
		x.Label(fmt.Sprintf("held>=%d", len(s.after)/250*250))
	case "drainU", "drainO", "lookup":
		parts := [][]DataPoint{s.after, s.res}
		if s.op.Op == "lookup" && !s.op.Drain {
			parts = parts[:1]
		}
		conserve(x, s.String(), s.before, s.now, parts...)
		if a := idCount(s.res); len(a) != len(s.res) {
			x.Failf("%s: returned a point twice: %v", s, ids(s.res))
		}
		if s.op.Op == "drainU" && len(s.res) != min(nn, liveN) {
			x.Failf("%s: drained %d of %d live points, want %d", s, len(s.res), liveN, min(nn, liveN))
		}
		if len(s.res) > nn {
			x.Failf("%s: returned %d points for n=%d", s, len(s.res), s.op.N)
		}
		if len(s.res) > 0 && len(s.after) > 0 {
			x.NonTrivial()
		}
	case "dist":
		conserve(x, s.String(), s.before, s.now, s.after, given(s))
		if len(given(s)) > nn {
			x.Failf("%s: gave away %d points for n=%d", s, len(given(s)), s.op.N)
		}
	case "expire", "trim":
		conserve(x, s.String(), s.before, s.now, s.after)
	default:
		conserve(x, s.String(), s.before, s.now, s.after)
	}
	x.Label("op=" + s.op.Op)
}

func dpScores(dps []DataPoint, q []float64, euc bool, far bool) []float64 {
	sc := make([]float64, len(dps))
	for i, d := range dps {
		if len(d.Vec) != len(q) {
			sc[i] = math.NaN()
			continue
		}
		sc[i] = goodness(euc, q, d.Vec)
		if far {
			sc[i] = -sc[i]
		}
	}
	return sc
}

func positions(x *X, what string, in []DataPoint, res []DataPoint) []int {
	pos := map[int]int{}
	for i, d := range in {
		pos[idOf(d)] = i
	}
	out := make([]int, len(res))
	for i, d := range res {
		p, ok := pos[idOf(d)]
		if !ok {
			x.Failf("%s: returned point %d which was not eligible", what, idOf(d))
		}
		out[i] = p
	}
	return out
}

func oracleC03(x *X, s *cstep, reg *Registry) {
	if s.op.Op != "drainO" && s.op.Op != "lookup" {
		return
	}
	for _, d := range s.res {
		reg.verify(x, s.String(), d)
	}
	elig := live(s.before, s.now)
	pos := positions(x, s.String(), elig, s.res)
	expired := len(elig) != len(s.before)
	switch s.op.Op {
	case "drainO":
		if expired {
			// The vector to compare with changes while expired points go; only counts are judged.
			if len(s.res) != min(max(0, s.op.N), len(elig)) {
				x.Failf("%s: returned %d of %d live points for n=%d", s, len(s.res), len(elig), s.op.N)
			}
			x.Label("ordered drain with expired points")
		} else {
			checkRanked(x, s.String(), dpScores(elig, s.beforeVec, s.euc, true), pos, s.op.N, true)
		}
	case "lookup":
		checkRanked(x, s.String(), dpScores(elig, s.op.V, s.euc, false), pos, s.op.N, true)
		if expired {
			x.Label("lookup with expired points")
		}
	}
	parts := [][]DataPoint{s.after, s.res}
	if s.op.Op == "lookup" && !s.op.Drain {
		parts = parts[:1]
	}
	conserve(x, s.String(), s.before, s.now, parts...)
	x.Label("op=" + s.op.Op)
	if len(s.res) >= 2 && len(elig) > len(s.res) {
		x.NonTrivial()
	}
}

func oracleC04(x *X, s *cstep, reg *Registry) {
	if s.op.Op != "dist" {
		return
	}
	what := s.String()
	if len(s.recvs) == 0 {
		if !eqInts(sortedIDs(s.before), sortedIDs(s.after)) || !eqVec(s.beforeVec, s.afterVec) {
			x.Failf("%s: redistribution without receivers changed the cluster", what)
		}
		return
	}
	if len(live(s.before, s.now)) != len(s.before) {
		// with expired points held only conservation is judged
		conserve(x, what, s.before, s.now, s.after, given(s))
		x.Label("expired held")
		return
	}
	for _, r := range s.recvs {
		for _, d := range r.got {
			reg.verify(x, what, d)
		}
	}
	nn := min(max(0, s.op.N), len(s.before))
	scores := dpScores(s.before, s.beforeVec, s.euc, true)
	// Offered points are among the nn worst-fit ones.
	offered := map[int]bool{}
	for _, o := range s.offers {
		id := idOf(o.dp)
		if offered[id] {
			x.Failf("%s: point %d offered twice", what, id)
		}
		offered[id] = true
		if math.IsNaN(o.scores[o.to]) {
			x.Failf("%s: point %d offered to a receiver of another dimension", what, id)
		}
		for k, sc := range o.scores {
			if !math.IsNaN(sc) && better(sc, o.scores[o.to]) {
				x.Failf("%s: point %d offered to receiver %d (similarity %v) although receiver %d is nearer (%v)", what, id, o.to, o.scores[o.to], k, sc)
			}
		}
	}
	anyComparable := false
	for _, r := range s.op.R {
		if r.Kind == "self" || len(r.V) == len(s.beforeVec) {
			anyComparable = true
		}
	}
	wantOffers := nn
	if !anyComparable {
		wantOffers = 0
	}
	var offeredDPs []DataPoint
	for _, o := range s.offers {
		offeredDPs = append(offeredDPs, o.dp)
	}
	if len(offeredDPs) != wantOffers {
		x.Failf("%s: %d points offered, want %d (n=%d, held=%d)", what, len(offeredDPs), wantOffers, s.op.N, len(s.before))
	}
	if wantOffers > 0 {
		checkRanked(x, what+" (worst-fit choice)", scores, positions(x, what, s.before, offeredDPs), nn, false)
	}
	// Accepted ones are with their receiver, refused ones back home, others unmoved.
	gone := map[int]bool{}
	for _, o := range s.offers {
		if o.accepted && !s.recvs[o.to].self {
			gone[idOf(o.dp)] = true
		}
	}
	for _, r := range s.recvs {
		if r.inner != nil && !r.self {
			if !eqInts(sortedIDs(r.inner.DataPoints), sortedIDs(r.got)) {
				x.Failf("%s: receiver holds %v, was given %v", what, ids(r.inner.DataPoints), ids(r.got))
			}
		}
	}
	var want []DataPoint
	for _, d := range s.before {
		if !gone[idOf(d)] {
			want = append(want, d)
		}
	}
	if !eqInts(sortedIDs(want), sortedIDs(s.after)) {
		x.Failf("%s: cluster holds %v afterwards, want %v", what, sortedIDs(s.after), sortedIDs(want))
	}
	if len(s.offers) >= 2 && len(s.recvs) >= 2 {
		x.NonTrivial()
	}
	x.Label(fmt.Sprintf("receivers=%d", len(s.recvs)))
	for _, o := range s.offers {
		if !o.accepted {
			x.Label("refused offer")
		}
	}
}

func oracleX01(x *X, s *cstep, reg *Registry) {
	for _, d := range s.res {
		if isExpired(d, s.now) {
			x.Failf("%s: returned expired point %s at %v", s, showDP(d), s.now.Format(time.RFC3339Nano))
		}
	}
	for _, o := range s.offers {
		if o.expired {
			x.Failf("%s: expired point %s offered to a receiver", s, showDP(o.dp))
		}
	}
	expired := len(live(s.before, s.now)) != len(s.before)
	switch s.op.Op {
	case "bulk":
		for i, d := range s.bulk {
			if s.bulkOK[i] == isExpired(d, s.now) {
				x.Failf("%s: AddDataPoint answered %v for %s at %v", s, s.bulkOK[i], showDP(d), s.now.Format(time.RFC3339Nano))
			}
		}
	case "add":
		if len(s.dp.Vec) == len(s.beforeVec) && s.resOK == isExpired(s.dp, s.now) {
			x.Failf("%s: AddDataPoint answered %v for %s at %v", s, s.resOK, showDP(s.dp), s.now.Format(time.RFC3339Nano))
		}
		if s.dp.ExpireEnabled && s.dp.Expires.Equal(s.now) {
			x.Label("expires exactly now")
		}
		all := s.before
		if s.resOK {
			all = append(append([]DataPoint{}, s.before...), s.dp)
		}
		conserve(x, s.String(), all, s.now, s.after)
	case "lookup":
		if !s.op.Drain {
			conserve(x, s.String(), s.before, s.now, s.after)
		} else {
			conserve(x, s.String(), s.before, s.now, s.after, s.res)
		}
		if len(s.op.V) == len(s.beforeVec) && len(s.res) != min(max(0, s.op.N), len(live(s.before, s.now))) {
			x.Failf("%s: returned %d points, %d live points held, k=%d", s, len(s.res), len(live(s.before, s.now)), s.op.N)
		}
	default:
		conserve(x, s.String(), s.before, s.now, s.after, s.res, given(s))
	}
	if expired {
		x.Label("expired held at op=" + s.op.Op)
		if len(live(s.before, s.now)) > 0 && (len(s.res) > 0 || len(s.offers) > 0) {
			x.NonTrivial()
		}
	}
	for _, d := range s.before {
		if d.ExpireEnabled && d.Expires.Equal(s.now) {
			x.Label("held point expires exactly now")
		}
		if !d.ExpireEnabled && s.now.After(d.Expires) {
			x.Label("held point past expiry, disabled")
		}
	}
}

func oracleX02(x *X, s *cstep, reg *Registry) {
	if s.op.Op != "expire" && s.op.Op != "trim" {
		return
	}
	want := live(s.before, s.now)
	if !eqInts(sortedIDs(want), sortedIDs(s.after)) {
		x.Failf("%s: holds %v afterwards, live points were %v (held %v)", s, sortedIDs(s.after), sortedIDs(want), sortedIDs(s.before))
	}
	for _, d := range s.after {
		reg.verify(x, s.String(), d)
	}
	if s.op.Op == "trim" && s.afterCap != len(s.after) {
		x.Failf("%s: capacity %d for %d points", s, s.afterCap, len(s.after))
	}
	x.Label("op=" + s.op.Op)
	if len(want) > 0 && len(want) < len(s.before) {
		x.NonTrivial()
	}
	if len(s.before) > 0 && len(want) == 0 {
		x.Label("all expired")
	}
}

func init() {
	rule := func(s string) string {
		return "random histories of adds, drains, lookups, redistributions, expiry, trimming and clock ticks on one cluster; " + s
	}
	mixed := cmix{add: 45, drainU: 6, drainO: 7, lookup: 10, dist: 7, expire: 4, trim: 5, move: 2, tick: 10, expRate: 4, wrong: 12}
	regC := func(f Facet, m cmix, o func(*X, *cstep, *Registry)) {
		run := func(x *X, c clusterCase) { runCluster(x, c, o) }
		reg(f, genCluster(m), run)
		regTogether(f, f.Quick/12, f.Thorough/12, 4, genCluster(m), run)
		f.Name += "-large"
		f.Rule = "the same starting with 24-2070 points at once; " + f.Rule[strings.Index(f.Rule, "non-trivial"):]
		f.Quick, f.Thorough = largeQuick, largeThorough
		m.large = true
		reg(f, genCluster(m), run)
	}
	regC(Facet{Prop: "C01", Name: "cluster-mean", Quick: 120000, Thorough: 3000000, Bubble: true,
		Rule: rule("non-trivial: a removing/maintenance operation on at least 2 held points after 3 operations leaves points")}, mixed, oracleC01)
	regC(Facet{Prop: "C02", Name: "cluster-conserve", Quick: 120000, Thorough: 3000000, Bubble: true,
		Rule: rule("non-trivial: some call returns points while others stay held")}, mixed, oracleC02)
	look := cmix{add: 50, drainO: 12, lookup: 25, tick: 6, expRate: 7, wrong: 15}
	regC(Facet{Prop: "C03", Name: "cluster-pick", Quick: 120000, Thorough: 3000000, Bubble: true,
		Rule: rule("non-trivial: a call returns at least 2 points out of more eligible ones")}, look, oracleC03)
	dist := cmix{add: 55, dist: 20, drainU: 3, tick: 2, expRate: 0, wrong: 15}
	regC(Facet{Prop: "C04", Name: "cluster-distribute", Quick: 120000, Thorough: 3000000, Bubble: true,
		Rule: rule("non-trivial: at least 2 offers to at least 2 receivers")}, dist, oracleC04)
	exp := cmix{add: 45, drainU: 6, drainO: 6, lookup: 10, dist: 8, expire: 4, trim: 4, move: 2, tick: 14, expRate: 2, wrong: 25}
	regC(Facet{Prop: "X01", Name: "cluster-expiry", Quick: 120000, Thorough: 3000000, Bubble: true,
		Rule: rule("non-trivial: points are returned or offered while both expired and live points are held")}, exp, oracleX01)
	trim := cmix{add: 50, drainU: 4, lookup: 3, expire: 10, trim: 12, tick: 14, expRate: 2, wrong: 25}
	regC(Facet{Prop: "X02", Name: "cluster-trim", Quick: 120000, Thorough: 3000000, Bubble: true,
		Rule: rule("non-trivial: an expire/trim meets both expired and live points")}, trim, oracleX02)
}
