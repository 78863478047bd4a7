package h

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"os"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"trypo/core/api"
	"trypo/core/dps"
	"trypo/core/nodes"
	"trypo/pkg/arbiter"
)

// ---- ranking nodes, putting and getting points -------------------------------------------

const (
	modeFast = iota
	modeAccurate
	modeRand
)

var modeNames = []string{"fast", "accurate", "rand"}

// KOp is a set-up operation (see prepare) or one of rank, put, get.
type KOp struct {
	XOp
	Mode  int       `json:"mode,omitempty"`
	V     []float64 `json:"v,omitempty"`
	Drain bool      `json:"drain,omitempty"`
	QEuc  bool      `json:"qeuc,omitempty"`
	Zone  int       `json:"zone,omitempty"` // of the expiry time, minutes
	Raw   string    `json:"raw,omitempty"`  // request body sent as is
	Path  string    `json:"path,omitempty"`
}

type coreCase struct {
	Euc       bool  `json:"euc"`
	Threshold int   `json:"threshold"`
	Nodes     int   `json:"nodes"`
	Dim       int   `json:"dim,omitempty"`
	Ops       []KOp `json:"ops"`
}

type kmix struct {
	add, empty, trim, split, age, rank, put, get, bad int
	expRate, wrong                                    int
	distinct                                          bool
	api                                               bool
	large                                             bool // start with many points
}

func genCore(m kmix) func(*rapid.T) coreCase {
	return func(t *rapid.T) coreCase {
		dim := rapid.IntRange(1, 4).Draw(t, "dim")
		st := genStyle(t)
		c := coreCase{Dim: dim, Euc: rapid.Bool().Draw(t, "euc"), Threshold: pick(t, "threshold", 0, 2, 3, 4, 6), Nodes: rapid.IntRange(1, 4).Draw(t, "nodes")}
		if rare(t, "manyNodes", 4) {
			c.Nodes = rapid.IntRange(5, 12).Draw(t, "nodes")
			if rare(t, "moreNodes", 3) {
				c.Nodes = rapid.IntRange(13, 70).Draw(t, "nodes")
			}
		}
		if m.api {
			c.Nodes = apiNodes
		}
		ws := []int{m.add, m.empty, m.trim, m.split, m.age, m.rank, m.put, m.get, m.bad}
		total := 0
		for _, w := range ws {
			total += w
		}
		point := func(t *rapid.T) PSpec {
			p := PSpec{V: genAnyVec(t, dim, st, m.wrong), Pay: genPay(t)}
			if m.expRate > 0 && rapid.IntRange(0, m.expRate-1).Draw(t, "exp?") == 0 {
				p.En = rapid.IntRange(0, 4).Draw(t, "en") != 0
				p.Ttl = pick(t, "ttl", int64(time.Hour), int64(time.Hour), int64(100*time.Hour)+12345, -int64(time.Hour))
				p.Z = rapid.IntRange(0, 9).Draw(t, "zero") == 0
				genYear(t, &p)
			}
			return p
		}
		addrs := func(t *rapid.T, method string) []ASpec {
			if m.api {
				// one entry per configured node
				var out []ASpec
				for k := 0; k < apiNodes; k++ {
					a := ASpec{Kind: "proxy", Node: k}
					if rapid.IntRange(0, 4).Draw(t, "faulty?") == 0 {
						a.Cut = []string{pick(t, "cut", "*", "*", "AddDataPoint", "Vec", "NearestCentroidVec", "KNNLookup")}
					}
					out = append(out, a)
				}
				return out
			}
			cuts := []string{"*", method, method, "Vec", "NearestCentroidVec"}
			var out []ASpec
			if m.distinct {
				all := make([]int, c.Nodes)
				for i := range all {
					all[i] = i
				}
				left := rapid.Permutation(all).Draw(t, "order")
				left = left[:rapid.IntRange(max(0, len(left)-2), len(left)).Draw(t, "use")]
				for _, k := range left {
					a := ASpec{Kind: "node", Node: k}
					if rapid.IntRange(0, 5).Draw(t, "proxy?") == 0 {
						a = ASpec{Kind: "proxy", Node: k, Cut: []string{pick(t, "cut", cuts...)}}
					}
					out = append(out, a)
					if rapid.IntRange(0, 6).Draw(t, "dead?") == 0 {
						out = append(out, ASpec{Kind: pick(t, "kind", "dead", "bad"), Node: rapid.IntRange(0, 3).Draw(t, "bad")})
					}
				}
				return out
			}
			k := rapid.IntRange(0, max(6, c.Nodes+3)).Draw(t, "addrs")
			if rare(t, "manyAddrs", 6) {
				k = rapid.IntRange(7, 150).Draw(t, "addrs")
			}
			for j := 0; j < k; j++ {
				a := genAddr(t, c.Nodes, cuts)
				a.After = 0
				out = append(out, a)
			}
			return out
		}
		big := 0
		op := rapid.Custom(func(t *rapid.T) KOp {
			r := rapid.IntRange(0, total-1).Draw(t, "op")
			i := 0
			for r >= ws[i] {
				r -= ws[i]
				i++
			}
			o := KOp{}
			if c.Nodes > 1 {
				o.Node = rapid.IntRange(0, c.Nodes-1).Draw(t, "node")
			}
			switch i {
			case 0:
				o.Op, o.P = "add", point(t)
				o.Other = rapid.IntRange(0, 9).Draw(t, "other") == 0
			case 1:
				o.Op, o.N = "empty", rapid.IntRange(0, 7).Draw(t, "cluster")
			case 2:
				o.Op = "trim"
			case 3:
				o.Op = "split"
			case 4:
				o.Op, o.N = "age", rapid.IntRange(1, 4).Draw(t, "n")
			case 5:
				o.Op, o.V, o.Addrs = "rank", genAnyVec(t, dim, st, m.wrong), addrs(t, "Vec")
				o.Mode = rapid.IntRange(0, 1).Draw(t, "mode")
			case 6:
				o.Op, o.P, o.Addrs = "put", point(t), addrs(t, "AddDataPoint")
				o.Mode = pick(t, "mode", 0, 0, 1, 1, 2)
				o.Zone = pick(t, "zone", 0, 0, 60, 330, -150, 840)
			case 7:
				o.Op, o.V, o.Addrs = "get", genAnyVec(t, dim, st, m.wrong), addrs(t, "KNNLookup")
				o.Mode = pick(t, "mode", 0, 0, 1, 1, 2)
				o.N = pick(t, "n", 0, 1, 1, 2, 3, 4, 5, 7, 10, 30, 1000, -1, math.MaxInt)
				if big > 0 && rapid.Bool().Draw(t, "bigN") {
					o.N = rapid.IntRange(0, big+20).Draw(t, "n")
				}
				o.Drain = rapid.Bool().Draw(t, "drain")
			case 8:
				o.Op, o.Addrs = "bad", addrs(t, "AddDataPoint")
				o.Path, o.Raw = genBadBody(t)
			}
			if m.api && o.Mode == 2 {
				o.Mode = rapid.IntRange(0, 1).Draw(t, "mode2")
			}
			if !m.api {
				o.QEuc = rapid.Bool().Draw(t, "qeuc")
			}
			return o
		})
		k := rapid.IntRange(0, 10).Draw(t, "preload")
		for j := 0; j < k; j++ {
			c.Ops = append(c.Ops, KOp{XOp: XOp{Op: "add", Node: j % c.Nodes, P: PSpec{V: genVec(t, dim, st)}}})
		}
		lo, hi := genLen(t, 40)
		if m.large || rare(t, "big", 6) {
			if m.large && rapid.IntRange(0, 3).Draw(t, "manyClusters") == 0 {
				c.Threshold = pick(t, "bigThreshold", 2, 3, 4)
			} else if c.Threshold >= 2 {
				c.Threshold = pick(t, "bigThreshold", c.Threshold, 10, 40, 140)
			}
			for j := 0; j < c.Nodes; j++ {
				if j == 0 || rapid.Bool().Draw(t, "bigNode") {
					b := genBulk(t, dim, st, 500, 0)
					if !m.large && c.Threshold >= 2 {
						b.N = min(b.N, 30*c.Threshold)
					}
					big += b.N
					c.Ops = append(c.Ops, KOp{XOp: XOp{Op: "bulk", Node: j, B: b}})
				}
			}
			lo, hi = 2, 8
		}
		c.Ops = append(c.Ops, rapid.SliceOfN(op, lo, hi).Draw(t, "ops")...)
		return c
	}
}

type kstep struct {
	i             int
	op            KOp
	euc           bool
	scale         float64
	before, after []state
	addrs         []string
	now           time.Time
	dp            DataPoint
	ok            bool
	res           []DataPoint
	rank          []string
	rankAddrs     []arbiter.Addr // as returned
	status        int
	body          string
}

func (s *kstep) String() string {
	return fmt.Sprintf("step %d %s %s n=%d drain=%v queryEuc=%v addrs=%+v", s.i, s.op.Op, modeNames[s.op.Mode], s.op.N, s.op.Drain, s.op.QEuc, s.op.Addrs)
}

func toAddr(s string) arbiter.Addr {
	i := strings.LastIndex(s, ":")
	if i < 0 {
		return arbiter.Addr{IP: s}
	}
	return arbiter.Addr{IP: s[:i], Port: s[i+1:]}
}

func reaches(a ASpec, methods ...string) bool {
	if a.Kind != "node" && a.Kind != "proxy" {
		return false
	}
	for _, m := range methods {
		if cuts(a, m) {
			return false
		}
	}
	return true
}

// option is an address which a ranking has to consider.
type option struct {
	a     ASpec
	addr  string
	score float64
	vague bool // ties make the score unpredictable
}

func (s *kstep) options(mode int, q []float64, qEuc bool) []option {
	var out []option
	for i, a := range s.op.Addrs {
		method := []string{"Vec", "NearestCentroidVec"}[mode]
		if !reaches(a, method) {
			continue
		}
		sn, ok := s.before[a.Node][mainNS]
		if !ok || len(q) == 0 {
			continue
		}
		o := option{a: a, addr: s.addrs[i]}
		if mode == modeFast {
			if len(sn.vec) != len(q) {
				continue
			}
			o.score = goodness(qEuc, q, sn.vec)
		} else {
			cs := vecScores(sn.vecs, q, s.euc)
			bi := -1
			for j, v := range cs {
				if !math.IsNaN(v) && (bi < 0 || v > cs[bi]) {
					bi = j
				}
			}
			if bi < 0 {
				continue
			}
			o.score = goodness(qEuc, q, sn.vecs[bi])
			for j, v := range cs {
				if tieEq(v, cs[bi]) && !tieEq(goodness(qEuc, q, sn.vecs[j]), o.score) {
					o.vague = true
				}
			}
		}
		out = append(out, o)
	}
	return out
}

func vague(os []option) bool {
	for _, o := range os {
		if o.vague {
			return true
		}
	}
	return false
}

// accepts tells whether a node in the given state can store the point.
func accepts(st state, dp DataPoint, now time.Time) bool {
	if isExpired(dp, now) {
		return false
	}
	b, ok := st[mainNS]
	if !ok || len(b.cl) == 0 {
		return true
	}
	for _, v := range b.vecs {
		if len(v) == len(dp.Vec) {
			return true
		}
	}
	return false
}

func (s *kstep) unchanged(x *X, exact bool) {
	for k := range s.before {
		names := map[string]bool{}
		for n := range s.before[k] {
			names[n] = true
		}
		for n := range s.after[k] {
			names[n] = true
		}
		for n := range names {
			b, a := s.before[k][n], s.after[k][n]
			if exact && !closeSnap(a, b, s.scale) || !eqInts(sortedIDs(live(a.all(), s.now)), sortedIDs(live(b.all(), s.now))) {
				x.Failf("%s: changed namespace %q of node %d: %v -> %v", s, n, k, b.idSets(), a.idSets())
			}
		}
	}
}

func (s *kstep) othersUntouched(x *X) {
	for k := range s.before {
		for n, b := range s.before[k] {
			if n != mainNS && !sameSnap(b, s.after[k][n]) {
				x.Failf("%s: changed namespace %q of node %d", s, n, k)
			}
		}
	}
}

func allIn(ss []state) (out []DataPoint) {
	for _, s := range ss {
		out = append(out, s[mainNS].all()...)
	}
	return
}

func runCore(x *X, c coreCase, do func(*X, *kstep), oracle func(*X, *kstep, *Registry)) {
	ns := poolNodes(x, c.Nodes, nodeCfg{c.Euc, c.Threshold})
	reg := &Registry{}
	scale := 0.0
	snap := func() []state {
		var r []state
		for _, n := range ns {
			r = append(r, n.state())
		}
		return r
	}
	var steps []*kstep
	var got [][]DataPoint
	for i, op := range c.Ops {
		s := &kstep{i: i, op: op, euc: c.Euc, now: time.Now()}
		if op.Op == "bulk" {
			scale = math.Max(scale, bulkLoad(x, ns[op.Node], mainNS, op.B, reg, s.now))
			x.Label("bulk")
			continue
		}
		if prepare(ns[op.Node], op.XOp, reg, s.now, &scale) {
			continue
		}
		s.before = snap()
		if op.Op == "put" {
			_, s.dp = reg.add(op.P, s.now)
			if op.Zone != 0 {
				s.dp.Expires = s.dp.Expires.In(time.FixedZone("", op.Zone*60))
			}
			scale = math.Max(scale, maxAbs(s.dp.Vec))
		}
		px := 0
		s.addrs = resolve(x, op.Addrs, ns, &px)
		s.scale = math.Max(1, scale)
		call(x, s.String(), func() { do(x, s) })
		s.after = snap()
		x.Tracef("%s v=%v dp=%v -> ok=%v res=%v rank=%v status=%d:%s  ==> %s", s, op.V, op.P.V, s.ok, ids(s.res), s.rank, s.status, showAll(s.before), showAll(s.after))
		oracle(x, s, reg)
		steps = append(steps, s)
		var was []DataPoint
		for _, d := range s.res {
			was = append(was, cloneDP(d))
		}
		got = append(got, was)
	}
	// What was handed out stays as it was, whatever happens later.
	for i, s := range steps {
		for k, a := range s.rankAddrs {
			if a.ToStr() != s.rank[k] {
				x.Failf("%s: the returned ranking %v was later changed to %v", s, s.rank, s.rankAddrs)
			}
		}
		for k, d := range s.res {
			if !sameDP(d, got[i][k]) {
				x.Failf("%s: returned point %s was later overwritten (now %s)", s, showDP(got[i][k]), showDP(d))
			}
		}
	}
}

func doCore(x *X, s *kstep) {
	var as []arbiter.Addr
	for _, a := range s.addrs {
		as = append(as, toAddr(a))
	}
	orig := append([]arbiter.Addr{}, as...)
	search := knnOf(s.op.QEuc)
	switch s.op.Op {
	case "rank":
		args := nodes.BestFitNodesArgs{AddrOpts: as, Namespace: mainNS, Vec: s.op.V, KNNSearchFunc: search}
		var r []arbiter.Addr
		if s.op.Mode == modeFast {
			r = nodes.BestFitNodesFast(args)
		} else {
			r = nodes.BestFitNodesAccurate(args)
		}
		for _, a := range r {
			s.rank = append(s.rank, a.ToStr())
		}
		s.rankAddrs = r
	case "put":
		args := dps.PutDataPointArgs{AddrOptions: as, Namespace: mainNS, DataPoint: cloneDP(s.dp), KNNSearchFunc: search}
		s.ok = []func(dps.PutDataPointArgs) bool{dps.PutDataPointFast, dps.PutDataPointAccurate, dps.PutDataPointRand}[s.op.Mode](args)
	case "get":
		args := dps.GetDataPointsArgs{AddrOptions: as, Namespace: mainNS, QueryVec: s.op.V, N: s.op.N, Drain: s.op.Drain, KNNSearchFunc: search}
		s.res = []func(dps.GetDataPointsArgs) []DataPoint{dps.GetDataPointsFast, dps.GetDataPointsAccurate, dps.GetDataPointsRand}[s.op.Mode](args)
	}
	for i := range as {
		if as[i] != orig[i] {
			x.Failf("%s: the caller's list of addresses was changed", s)
		}
	}
}

func oracleN01(x *X, s *kstep, _ *Registry) {
	if s.op.Op != "rank" {
		return
	}
	s.unchanged(x, true)
	opts := s.options(s.op.Mode, s.op.V, s.op.QEuc)
	want := map[string]int{}
	score := map[string]float64{}
	for _, o := range opts {
		want[o.addr]++
		score[o.addr] = o.score
	}
	for _, a := range s.rank {
		want[a]--
		if want[a] < 0 {
			x.Failf("%s: %s is in the ranking %v more often than it should", s, a, s.rank)
		}
	}
	for a, n := range want {
		if n != 0 {
			x.Failf("%s: suitable node %s is missing in the ranking %v", s, a, s.rank)
		}
	}
	if vague(opts) {
		return
	}
	for i := 1; i < len(s.rank); i++ {
		if a, b := score[s.rank[i-1]], score[s.rank[i]]; better(b, a) {
			x.Failf("%s: node %s (similarity %v) comes after %s (%v)", s, s.rank[i], b, s.rank[i-1], a)
		}
	}
	if len(score) >= 2 {
		x.NonTrivial()
	}
	if len(opts) < len(s.op.Addrs) {
		x.Label("unsuitable addresses given")
	}
}

// checkPut judges a put; fallback: a random node may take what the ranked ones did not.
func checkPut(x *X, s *kstep, reg *Registry, mode int, qEuc, fallback bool) {
	what := s.String()
	id := idOf(s.dp)
	s.othersUntouched(x)
	bAll, aAll := allIn(s.before), allIn(s.after)
	for _, d := range aAll {
		reg.verify(x, what, d)
	}
	stored := idCount(aAll)[id]
	if s.ok && stored != 1 {
		x.Failf("%s: success reported, the point is stored %d times (%s)", what, stored, showDP(s.dp))
	}
	if !s.ok && stored != 0 {
		x.Failf("%s: failure reported, the point is stored %d times", what, stored)
	}
	if s.ok {
		bAll = append(bAll, s.dp)
	} else {
		s.unchanged(x, false)
	}
	conserve(x, what, bAll, s.now, aAll)
	at := -1
	if stored > 0 {
		at = whereIs(s.after)[id]
	}
	takers := map[int]bool{}
	for _, a := range s.op.Addrs {
		if reaches(a, "AddDataPoint") && accepts(s.before[a.Node], s.dp, s.now) {
			takers[a.Node] = true
		}
	}
	if mode != modeRand {
		opts := s.options(mode, s.dp.Vec, qEuc)
		best, any := math.Inf(-1), false
		for _, o := range opts {
			if reaches(o.a, "AddDataPoint") && takers[o.a.Node] {
				any = true
				best = math.Max(best, o.score)
			}
		}
		if any || !fallback {
			if s.ok != any {
				x.Failf("%s: answered %v for %s", what, s.ok, showDP(s.dp))
			}
			if !any {
				x.Label("put fails")
				return
			}
			fine := false
			for _, o := range opts {
				if o.a.Node == at && reaches(o.a, "AddDataPoint") && (vague(opts) || o.score >= best || tieEq(o.score, best)) {
					fine = true
				}
			}
			if !fine {
				x.Failf("%s: the point went to node %d, which is not the best one accepting it (options %+v)", what, at, opts)
			}
			if len(opts) >= 2 && !vague(opts) {
				x.NonTrivial()
			}
			if len(opts) > 0 && !(reaches(opts[0].a, "AddDataPoint") && takers[opts[0].a.Node]) {
				x.Label("an option refuses")
			}
			return
		}
	}
	if s.ok != (len(takers) > 0) {
		x.Failf("%s: answered %v although %d nodes accept %s", what, s.ok, len(takers), showDP(s.dp))
	}
	if s.ok && !takers[at] {
		x.Failf("%s: the point is on node %d, which was no option", what, at)
	}
	if s.ok {
		x.Label("random placement")
	} else {
		x.Label("put fails")
	}
}

func oracleD01(x *X, s *kstep, reg *Registry) {
	if s.op.Op == "put" {
		checkPut(x, s, reg, s.op.Mode, s.op.QEuc, false)
	}
}

// checkGet judges a get against the state before it.
func checkGet(x *X, s *kstep, reg *Registry, mode int, qEuc bool) {
	what := s.String()
	s.othersUntouched(x)
	for _, d := range s.res {
		reg.verify(x, what, d)
	}
	if len(idCount(s.res)) != len(s.res) {
		x.Failf("%s: a point was returned twice: %v", what, ids(s.res))
	}
	bAll := allIn(s.before)
	if s.op.Drain {
		conserve(x, what, bAll, s.now, allIn(s.after), s.res)
	} else {
		s.unchanged(x, len(live(bAll, s.now)) == len(bAll))
	}
	// nodes to be asked
	score := map[int]float64{}
	order := mode != modeRand
	if mode == modeRand {
		for _, a := range s.op.Addrs {
			if _, ok := s.before[max(0, a.Node)%len(s.before)][mainNS]; reaches(a, "KNNLookup") && ok {
				score[a.Node] = 0
			}
		}
	} else {
		opts := s.options(mode, s.op.V, qEuc)
		for _, o := range opts {
			if reaches(o.a, "KNNLookup") {
				score[o.a.Node] = o.score
			}
		}
		if vague(opts) {
			order = false
		}
	}
	where := whereIs(s.before)
	left := max(0, s.op.N)
	nt := x.nontrivial
	prev := -1
	asked := map[int]bool{}
	for a := 0; a < len(s.res); {
		k, ok := where[idOf(s.res[a])]
		if _, isOpt := score[k]; !ok || !isOpt {
			x.Failf("%s: point %d comes from node %d, which was no option", what, idOf(s.res[a]), k)
		}
		b := a
		for b < len(s.res) && where[idOf(s.res[b])] == k {
			b++
		}
		if asked[k] {
			x.Failf("%s: the points of node %d are not together: %v", what, k, ids(s.res))
		}
		asked[k] = true
		checkNodeLookup(x, fmt.Sprintf("%s (from node %d)", what, k), s.before[k][mainNS], s.res[a:b], s.op.V, left, s.euc, s.now)
		left -= b - a
		if order && prev >= 0 && better(score[k], score[prev]) {
			x.Failf("%s: node %d (similarity %v) was used after the less similar node %d (%v)", what, k, score[k], prev, score[prev])
		}
		prev = k
		a = b
	}
	for k, sc := range score {
		if asked[k] {
			continue
		}
		if left > 0 || order && prev >= 0 && better(sc, score[prev]) {
			// asked in vain, or passed over: must have nothing to give
			checkNodeLookup(x, fmt.Sprintf("%s (node %d gave nothing)", what, k), s.before[k][mainNS], nil, s.op.V, max(left, 1), s.euc, s.now)
		}
	}
	x.nontrivial = nt
	if len(asked) >= 2 {
		x.NonTrivial()
	}
	if len(s.res) > 0 && s.op.Drain {
		x.Label("drained")
	}
	x.Label(fmt.Sprintf("nodes used=%d", len(asked)))
}

func oracleD02(x *X, s *kstep, reg *Registry) {
	if s.op.Op == "get" {
		checkGet(x, s, reg, s.op.Mode, s.op.QEuc)
	}
}

// ---- HTTP API --------------------------------------------------------------------------------

const apiNodes = 3

var (
	apiURL     string
	apiBroken  string // why it does not start
	apiProxies []*proxy
	apiClient  = &http.Client{Timeout: 40 * time.Second}
)

// setupAPI starts the API once per process, in front of three proxies whose targets change per case.
func setupAPI(t *testing.T) {
	if apiURL != "" || apiBroken != "" {
		return
	}
	var as []api.Addr
	for i := 0; i < apiNodes; i++ {
		p, err := newProxy()
		if err != nil {
			t.Fatal(err)
		}
		apiProxies = append(apiProxies, p)
		as = append(as, toAddr(p.addr))
	}
	// Below the ephemeral range, so that no outgoing connection takes it.
	for try := 0; try < 200; try++ {
		addr := fmt.Sprintf("127.0.0.1:%d", 15000+(os.Getpid()*13+try*7)%15000)
		l, err := net.Listen("tcp", addr)
		if err != nil {
			continue
		}
		l.Close()
		null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		out := os.Stdout
		os.Stdout = null
		errc := make(chan error, 1)
		go func() {
			errc <- api.Start(api.APIConfig{Addr: toAddr(addr), ReadTimeout: time.Minute, WriteTimeout: time.Minute, RPCAddrs: as})
		}()
		up := false
		for i := 0; i < 2000 && !up; i++ {
			select {
			case err := <-errc:
				if err != nil {
					os.Stdout = out
					if strings.Contains(err.Error(), "in use") {
						t.Fatalf("API did not start: %v", err)
					}
					apiBroken = err.Error()
					return
				}
				errc = nil // Goes on in the background.
			default:
			}
			if c, err := net.Dial("tcp", addr); err == nil {
				c.Close()
				up = true
			} else {
				time.Sleep(5 * time.Millisecond)
			}
		}
		os.Stdout = out
		if up {
			apiURL = "http://" + addr
			return
		}
	}
	t.Fatal("API did not start")
}

// apiAt is the address of the API, which starts with this configuration.
func apiAt(x *X) string {
	if apiBroken != "" {
		x.Failf("the API does not start with a valid configuration: %s", apiBroken)
	}
	return apiURL
}

type jsonDP struct {
	Vec           []float64 `json:"vec"`
	Payload       []byte    `json:"payload"`
	Expires       time.Time `json:"expires"`
	ExpireEnabled bool      `json:"expireEnabled"`
}

type jsonPut struct {
	Namespace string `json:"namespace"`
	Accurate  bool   `json:"accurate"`
	DP        jsonDP `json:"dp"`
}

type jsonQuery struct {
	Namespace string    `json:"namespace"`
	Accurate  bool      `json:"accurate"`
	QueryVec  []float64 `json:"queryVec"`
	N         int       `json:"n"`
	Drain     bool      `json:"drain"`
}

func (s *kstep) post(x *X, base, path string, body []byte) {
	r, err := apiClient.Post(base+path, "application/json", bytes.NewReader(body))
	if err != nil {
		if netTrouble(err) {
			x.Env(err)
		}
		x.Failf("%s: no answer from the API: %v", s, err)
	}
	b, err := io.ReadAll(r.Body)
	r.Body.Close()
	if err != nil {
		x.Failf("%s: broken answer from the API: %v", s, err)
	}
	s.status, s.body = r.StatusCode, string(b)
}

func (s *kstep) postOp(x *X, base, ns string) {
	switch s.op.Op {
	case "put":
		b, _ := json.Marshal(jsonPut{ns, s.op.Mode == modeAccurate, jsonDP{s.dp.Vec, s.dp.Payload, s.dp.Expires, s.dp.ExpireEnabled}})
		s.post(x, base, "/api/dp/put", b)
		s.ok = s.status == 200
	case "get":
		b, _ := json.Marshal(jsonQuery{ns, s.op.Mode == modeAccurate, s.op.V, s.op.N, s.op.Drain})
		s.post(x, base, "/api/dp/query", b)
		if s.status == 200 {
			s.res = parseDPs(x, s.String(), s.body)
		}
	case "bad":
		s.post(x, base, s.op.Path, []byte(s.op.Raw))
	}
}

func parseDPs(x *X, what, body string) []DataPoint {
	var got []jsonDP
	if err := json.Unmarshal([]byte(body), &got); err != nil || !strings.HasPrefix(strings.TrimSpace(body), "[") {
		x.Failf("%s: the answer is no JSON list of points: %.200q", what, body)
	}
	var res []DataPoint
	for _, d := range got {
		res = append(res, DataPoint{Vec: d.Vec, Payload: d.Payload, Expires: d.Expires, ExpireEnabled: d.ExpireEnabled})
	}
	return res
}

func runAPI(x *X, c coreCase, oracle func(*X, *kstep, *Registry)) {
	runCore(x, c, func(x *X, s *kstep) {
		for k, a := range s.op.Addrs {
			// addresses of this case are fresh proxies; route the API's through the same rules
			apiProxies[k].set(nodePools[x.lane][a.Node].addr, a.Cut, 0)
			apiProxies[k].delay(time.Duration(a.Slow)*time.Millisecond, a.SlowN)
		}
		s.postOp(x, apiAt(x), mainNS)
	}, oracle)
}

func oracleA01(x *X, s *kstep, reg *Registry) {
	switch s.op.Op {
	case "put":
		if s.status != 200 && s.status != 500 {
			x.Failf("%s: status %d", s, s.status)
		}
		checkPut(x, s, reg, s.op.Mode, false, true)
	case "get":
		if s.status != 200 {
			x.Failf("%s: status %d", s, s.status)
		}
		nt := x.nontrivial
		checkGet(x, s, reg, s.op.Mode, false)
		x.nontrivial = nt
		if len(s.res) > 0 {
			x.NonTrivial()
		}
	}
}

func genBadBody(t *rapid.T) (string, string) {
	path := pick(t, "path", "/api/dp/put", "/api/dp/query")
	good := map[string]string{
		"/api/dp/put":   `{"namespace":"elsewhere","accurate":true,"dp":{"vec":[1,2,3],"payload":"MXw=","expires":"2999-01-02T03:04:05Z","expireEnabled":true}}`,
		"/api/dp/query": `{"namespace":"elsewhere","accurate":false,"queryVec":[1,2,3],"n":3,"drain":true}`,
	}[path]
	switch rapid.IntRange(0, 5).Draw(t, "bodyStyle") {
	case 0:
		return path, pick(t, "body", "", " ", "null", "[]", "{}", "1", `"x"`, "{", "}", "{}{}", "nul", "\x00", "\xff\xfe", "true", "[{}]", good+"x", good+good, "<xml/>", "a=b")
	case 1: // wrong types
		return path, strings.Replace(good, pick(t, "old", `[1,2,3]`, `true`, `false`, `3,`, `"elsewhere"`, `"MXw="`, `"2999-01-02T03:04:05Z"`),
			pick(t, "new", `"x"`, `1.5`, `{}`, `[]`, `null`, `1e999`, `99999999999999999999`, `[["a"]]`, `-1`, `[1,"2"]`, `"!!"`, `1,`), 1)
	case 2: // cut
		return path, good[:rapid.IntRange(0, len(good)).Draw(t, "len")]
	case 3: // edited
		b := []byte(good)
		k := rapid.IntRange(1, 3).Draw(t, "edits")
		for i := 0; i < k; i++ {
			b[rapid.IntRange(0, len(b)-1).Draw(t, "pos")] = rapid.Byte().Draw(t, "b")
		}
		return path, string(b)
	case 4:
		return path, string(rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes"))
	default:
		return path, pick(t, "valid", good, `{"other":1}`, `{"NAMESPACE":"elsewhere","N":1}`, `{"namespace":"elsewhere","n":-5}`, `{"namespace":"elsewhere","n":9223372036854775807,"queryVec":[1,2,3]}`, `{"namespace":"elsewhere","dp":{"vec":null}}`)
	}
}

func oracleA02(x *X, s *kstep, reg *Registry) {
	switch s.op.Op {
	case "bad":
		var err error
		if s.op.Path == "/api/dp/put" {
			err = json.Unmarshal([]byte(s.op.Raw), &jsonPut{})
		} else {
			err = json.Unmarshal([]byte(s.op.Raw), &jsonQuery{})
		}
		if err != nil {
			if s.status != 400 {
				x.Failf("%s: status %d for the malformed body %q", s, s.status, s.op.Raw)
			}
			s.unchanged(x, true)
			for k := range s.before {
				if len(s.before[k]) != len(s.after[k]) {
					x.Failf("%s: a rejected request created a namespace on node %d", s, k)
				}
			}
			x.NonTrivial()
			x.Label("malformed " + s.op.Path)
			return
		}
		if s.status == 400 {
			x.Failf("%s: status 400 for the well-formed body %q", s, s.op.Raw)
		}
		if s.op.Path == "/api/dp/query" && s.status != 200 {
			x.Failf("%s: status %d for the query %q", s, s.status, s.op.Raw)
		}
		x.Label("well-formed " + s.op.Path)
	case "put":
		if !s.ok {
			if s.status != 500 {
				x.Failf("%s: status %d for a put which no node could store", s, s.status)
			}
			x.NonTrivial()
			x.Label("unsatisfiable put")
		}
		checkPut(x, s, reg, s.op.Mode, false, true)
	case "get":
		if s.status != 200 {
			x.Failf("%s: status %d", s, s.status)
		}
	}
}

func init() {
	rule := "random histories on 1-4 real nodes with arbitrary address lists (dead, dropping, without namespace, other dimension); non-trivial: "
	regK := func(f Facet, m kmix, run func(*X, coreCase)) {
		reg(f, genCore(m), run)
		if f.Setup == nil {
			regTogether(f, f.Quick/10, f.Thorough/10, 1, genCore(m), run)
		}
		f.Name += "-large"
		f.Rule = "the same starting with 24-500 points on every second node; " + f.Rule[strings.Index(f.Rule, "non-trivial"):]
		f.Quick, f.Thorough = 1600, 60000
		m.add = min(m.add, max(4, m.add/8))
		m.large = true
		reg(f, genCore(m), run)
	}
	core := func(o func(*X, *kstep, *Registry)) func(*X, coreCase) {
		return func(x *X, c coreCase) { runCore(x, c, doCore, o) }
	}
	regK(Facet{Prop: "N01", Name: "ranking", Quick: 40000, Thorough: 400000, Rule: rule + "a ranking of at least 2 different suitable nodes without ties inside a node"},
		kmix{add: 50, empty: 3, trim: 2, split: 4, rank: 22, wrong: 14}, core(oracleN01))
	regK(Facet{Prop: "D01", Name: "put", Quick: 30000, Thorough: 300000, Rule: rule + "a put has at least 2 ranked options and stores the point"},
		kmix{add: 30, empty: 3, trim: 2, split: 3, put: 30, wrong: 14, expRate: 8}, core(oracleD01))
	regK(Facet{Prop: "D02", Name: "get", Quick: 30000, Thorough: 300000, Rule: rule + "a get returns points of at least 2 nodes"},
		kmix{add: 50, empty: 3, trim: 2, split: 4, age: 2, get: 22, wrong: 14, expRate: 15, distinct: true}, core(oracleD02))
	ap := func(o func(*X, *kstep, *Registry)) func(*X, coreCase) {
		return func(x *X, c coreCase) { runAPI(x, c, o) }
	}
	regK(Facet{Prop: "A01", Name: "api", Quick: 12000, Thorough: 150000, Setup: setupAPI, Rule: "random histories of HTTP requests to the API in front of 3 real nodes, some unreachable or dropping requests; non-trivial: a query returns points"},
		kmix{add: 14, empty: 2, trim: 1, split: 2, put: 30, get: 20, wrong: 16, expRate: 8, distinct: true, api: true}, ap(oracleA01))
	reg(Facet{Prop: "A02", Name: "api-rejects", Quick: 8000, Thorough: 150000, Setup: setupAPI, Rule: "malformed and unsatisfiable HTTP requests in front of 3 real nodes; non-trivial: a request is rejected"},
		genCore(kmix{add: 14, empty: 2, put: 20, get: 4, bad: 24, wrong: 4, expRate: 3, distinct: true, api: true}), ap(oracleA02))
}
