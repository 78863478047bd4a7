package h

import (
	"bytes"
	"fmt"
	"math"
	"math/rand/v2"
	"sort"
	"time"

	"pgregory.net/rapid"

	"trypo/pkg/kmeans/centroid"
	"trypo/pkg/kmeans/centroidmanager"
	"trypo/pkg/kmeans/common"
	"trypo/pkg/searchutils"
)

type (
	DataPoint = common.DataPoint
	Centroid  = centroid.Centroid
	Manager   = centroidmanager.CentroidManager
	VecGen    = func() ([]float64, bool)
	SearchF   = func(target []float64, vecs VecGen, k int) []int
)

// Case counts of the facets that always start with many points.
const largeQuick, largeThorough = 4000, 100000

// ---- metrics: independent definitions -------------------------------------

const tieTol = 1e-9

func refEuc(a, b []float64) float64 {
	m := 0.0
	for i := range a {
		if d := math.Abs(a[i] - b[i]); d > m {
			m = d
		}
	}
	if m == 0 || math.IsInf(m, 0) || math.IsNaN(m) {
		return m
	}
	s := 0.0
	for i := range a {
		d := (a[i] - b[i]) / m
		s += d * d
	}
	return m * math.Sqrt(s)
}

func refNorm(a []float64) float64 { return refEuc(a, make([]float64, len(a))) }

func refCos(a, b []float64) float64 {
	na, nb := refNorm(a), refNorm(b)
	if na == 0 || nb == 0 {
		return 0
	}
	s := 0.0
	for i := range a {
		s += (a[i] / na) * (b[i] / nb)
	}
	return s
}

// goodness: larger is nearer, for both metrics.
func goodness(euc bool, a, b []float64) float64 {
	if euc {
		return -refEuc(a, b)
	}
	return refCos(a, b)
}

func tieEq(a, b float64) bool {
	return math.Abs(a-b) <= tieTol*(1+math.Max(math.Abs(a), math.Abs(b)))
}

// better: a is strictly better than b beyond the tie tolerance.
func better(a, b float64) bool { return a > b && !tieEq(a, b) }

func knnOf(euc bool) SearchF {
	if euc {
		return searchutils.KNNEuc
	}
	return searchutils.KNNCos
}

func kfnOf(euc bool) SearchF {
	if euc {
		return searchutils.KFNEuc
	}
	return searchutils.KFNCos
}

// checkRanked verifies that picked is a correct answer for "the k best of
// scores" (NaN score = not comparable). ordered: best first.
func checkRanked(x *X, what string, scores []float64, picked []int, k int, ordered bool) {
	comparable := 0
	for _, s := range scores {
		if !math.IsNaN(s) {
			comparable++
		}
	}
	want := k
	if want < 0 {
		want = 0
	}
	if comparable < want {
		want = comparable
	}
	if len(picked) != want {
		x.Failf("%s: returned %d results, want %d (k=%d, comparable=%d): %v", what, len(picked), want, k, comparable, picked)
	}
	seen := map[int]bool{}
	worst := math.Inf(1)
	for n, i := range picked {
		if i < 0 || i >= len(scores) {
			x.Failf("%s: result %d out of range", what, i)
		}
		if seen[i] {
			x.Failf("%s: result %d returned twice: %v", what, i, picked)
		}
		seen[i] = true
		if math.IsNaN(scores[i]) {
			x.Failf("%s: result %d is not comparable to the query", what, i)
		}
		if ordered && n > 0 && better(scores[i], scores[picked[n-1]]) {
			x.Failf("%s: result %d (score %v) comes after worse %d (score %v)", what, i, scores[i], picked[n-1], scores[picked[n-1]])
		}
		if scores[i] < worst {
			worst = scores[i]
		}
	}
	for i, s := range scores {
		if !seen[i] && !math.IsNaN(s) && len(picked) > 0 && better(s, worst) {
			x.Failf("%s: candidate %d (score %v) left out although better than a returned one (score %v)", what, i, s, worst)
		}
	}
}

// ---- generators -------------------------------------------------------------

func pick[T any](t *rapid.T, label string, xs ...T) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, label)]
}

func genDim(t *rapid.T) int {
	if rare(t, "bigDim", 7) {
		return rapid.IntRange(60, 300).Draw(t, "dim")
	}
	switch rapid.IntRange(0, 9).Draw(t, "dimStyle") {
	case 0:
		return 1
	case 1, 2, 3:
		return 2
	case 4, 5:
		return 3
	case 6, 7:
		return rapid.IntRange(1, 8).Draw(t, "dim")
	case 8:
		return rapid.IntRange(1, 20).Draw(t, "dim")
	default:
		return rapid.IntRange(1, 70).Draw(t, "dim")
	}
}

// VecStyle selects how the components of a case's vectors are drawn.
type VecStyle struct {
	Kind  int // 0 small ints, 1 floats, 2 few directions, 3 axis, 4 positive floats
	Scale float64
}

func genStyle(t *rapid.T) VecStyle {
	return VecStyle{
		Kind:  rapid.IntRange(0, 4).Draw(t, "vecKind"),
		Scale: pick(t, "vecScale", 1.0, 1.0, 1.0, 1000, 0.001),
	}
}

func genComp(t *rapid.T, s VecStyle) float64 {
	switch s.Kind {
	case 0:
		return float64(rapid.IntRange(-3, 3).Draw(t, "c")) * s.Scale
	case 2:
		return float64(rapid.IntRange(0, 1).Draw(t, "c")) * s.Scale
	case 4:
		return float64(rapid.IntRange(1, 4000).Draw(t, "c")) / 400 * s.Scale
	default:
		return float64(rapid.IntRange(-4000, 4000).Draw(t, "c")) / 400 * s.Scale
	}
}

func genVec(t *rapid.T, dim int, s VecStyle) []float64 {
	v := make([]float64, dim)
	if s.Kind == 3 && dim > 0 {
		a := rapid.IntRange(0, dim-1).Draw(t, "axis")
		v[a] = genComp(t, s)
		return v
	}
	for i := range v {
		v[i] = genComp(t, s)
	}
	return v
}

// genAnyVec draws mostly dim-dimensional vectors, sometimes another dimension.
func genAnyVec(t *rapid.T, dim int, s VecStyle, wrong int) []float64 {
	if wrong > 0 && rapid.IntRange(0, wrong).Draw(t, "wrongDim") == 0 {
		return genVec(t, pick(t, "otherDim", 0, 1, dim+1, max(dim-1, 0), dim*2), s)
	}
	return genVec(t, dim, s)
}

func genCount(t *rapid.T, label string, typical int) int {
	switch rapid.IntRange(0, 9).Draw(t, label+"Style") {
	case 0:
		return 0
	case 1:
		return -rapid.IntRange(1, 3).Draw(t, label)
	case 2:
		return rapid.IntRange(0, 4*typical+10).Draw(t, label)
	case 3, 4:
		return 1
	default:
		return rapid.IntRange(1, typical).Draw(t, label)
	}
}

// ---- points -----------------------------------------------------------------

// PSpec describes a point; its identity is given when it is made.
type PSpec struct {
	V   []float64 `json:"v"`
	Pay int       `json:"pay,omitempty"` // extra payload bytes
	En  bool      `json:"en,omitempty"`  // expiry enabled
	Ttl int64     `json:"ttl,omitempty"` // expiry relative to creation, ns; meaning depends on the facet
	Z   bool      `json:"z,omitempty"`   // expiry is the zero time
	Yr  int       `json:"yr,omitempty"`  // expiry is in that year
}

// rare is true in about one of 2^bits cases (rapid's integers prefer small values, its booleans are fair).
func rare(t *rapid.T, label string, bits int) bool {
	for i := 0; i < bits; i++ {
		if !rapid.Bool().Draw(t, label) {
			return false
		}
	}
	return true
}

// genYear sometimes moves the expiry to a remote year, past what fits in nanoseconds since 1970.
func genYear(t *rapid.T, p *PSpec) {
	if rapid.IntRange(0, 9).Draw(t, "remote") == 0 {
		p.Yr = pick(t, "year", 1, 1600, 1969, 2262, 2263, 3000, 9999)
	}
}

// Bulk describes many points made by a seeded generator, for sizes a drawn history does not reach.
type Bulk struct {
	N    int    `json:"n"`
	Seed uint64 `json:"seed"`
	Dim  int    `json:"dim"`
	Kind int    `json:"kind"`          // as in VecStyle
	Exp  int    `json:"exp,omitempty"` // every Exp-th point expires
	Ttl  int64  `json:"ttl,omitempty"`
}

func genBulk(t *rapid.T, dim int, st VecStyle, maxN, expRate int) *Bulk {
	n := pick(t, "bulkClass", 30, 70, 130, 260, 520, 1030, 2050)
	n = min(n+rapid.IntRange(-6, 20).Draw(t, "bulkN"), maxN)
	b := &Bulk{N: n, Seed: rapid.Uint64().Draw(t, "bulkSeed"), Dim: dim, Kind: st.Kind}
	if expRate > 0 && rapid.Bool().Draw(t, "bulkExp?") {
		b.Exp = pick(t, "bulkExp", 1, 2, 3, 7)
		b.Ttl = int64(rapid.IntRange(0, 12).Draw(t, "bulkTtl"))
	}
	return b
}

func (b *Bulk) points() []PSpec {
	r := rand.New(rand.NewPCG(b.Seed, 7))
	ps := make([]PSpec, b.N)
	comp := func() float64 {
		switch b.Kind {
		case 0:
			return float64(r.IntN(7) - 3)
		case 2:
			return float64(r.IntN(2))
		case 4:
			return float64(r.IntN(4000)+1) / 400
		}
		return float64(r.IntN(8001)-4000) / 400
	}
	for i := range ps {
		v := make([]float64, b.Dim)
		if b.Kind == 3 && b.Dim > 0 {
			v[r.IntN(b.Dim)] = comp()
		} else {
			for j := range v {
				v[j] = comp()
			}
		}
		ps[i].V = v
		if b.Exp > 0 && i%b.Exp == 0 {
			ps[i].En, ps[i].Ttl = true, b.Ttl
		}
	}
	return ps
}

func genPay(t *rapid.T) int {
	switch rapid.IntRange(0, 19).Draw(t, "payStyle") {
	case 0:
		return rapid.IntRange(0, 3000).Draw(t, "pay")
	case 1:
		if rare(t, "hugePay", 4) {
			return pick(t, "pay", 50000, 65530, 70000, 140000, 300000)
		}
		return pick(t, "pay", 255, 256, 4095, 4096, 10000)
	case 2, 3:
		return noPayload
	case 4:
		return emptyPayload
	default:
		return 0
	}
}

// A point without payload carries its id in its (disabled) expiry time.
const noPayload, emptyPayload = -1, -2

var noPayloadEpoch = time.Date(2001, 2, 3, 0, 0, 0, 0, time.UTC)

// payload makes a unique payload: a decimal id, a separator, then filler of all byte values.
func payload(id, extra int) []byte {
	b := []byte(fmt.Sprintf("%d|", id))
	for i := 0; i < extra; i++ {
		b = append(b, byte(i*7+id))
	}
	return b
}

func idOf(dp DataPoint) int {
	p := dp.Payload
	if len(p) == 0 {
		d := dp.Expires.Sub(noPayloadEpoch)
		if dp.ExpireEnabled || d < 0 || d > 1<<40 {
			return -1
		}
		return int(d)
	}
	n := 0
	ok := false
	for _, c := range p {
		if c == '|' {
			if ok {
				return n
			}
			return -1
		}
		if c < '0' || c > '9' || n > 1<<40 {
			return -1
		}
		n = n*10 + int(c-'0')
		ok = true
	}
	return -1
}

func (p PSpec) make(id int, base time.Time) DataPoint {
	dp := DataPoint{Vec: append([]float64(nil), p.V...), Payload: payload(id, p.Pay), ExpireEnabled: p.En}
	if p.En || p.Ttl != 0 {
		dp.Expires = base.Add(time.Duration(p.Ttl))
	}
	if p.Z {
		dp.Expires = time.Time{}
	}
	if p.Yr > 0 {
		dp.Expires = time.Date(p.Yr, 3, 4, 5, 6, 7, 8, time.UTC)
	}
	if p.Pay < 0 && !p.En {
		dp.Payload = nil
		if p.Pay == emptyPayload {
			dp.Payload = []byte{}
		}
		dp.Expires = noPayloadEpoch.Add(time.Duration(id))
	}
	// The same instant in other guises.
	switch id % 5 {
	case 1:
		dp.Expires = dp.Expires.In(time.FixedZone("", (id%27-13)*3600+id%2*1800))
	case 2:
		dp.Expires = dp.Expires.UTC()
	case 3:
		dp.Expires = dp.Expires.Round(0)
	}
	return dp
}

func cloneDP(d DataPoint) DataPoint {
	d.Vec = append([]float64(nil), d.Vec...)
	d.Payload = append([]byte(nil), d.Payload...)
	return d
}

func sameDP(a, b DataPoint) bool {
	if len(a.Vec) != len(b.Vec) || !bytes.Equal(a.Payload, b.Payload) || a.ExpireEnabled != b.ExpireEnabled || !a.Expires.Equal(b.Expires) {
		return false
	}
	for i := range a.Vec {
		if a.Vec[i] != b.Vec[i] {
			return false
		}
	}
	return true
}

func ids(dps []DataPoint) []int {
	r := make([]int, len(dps))
	for i, d := range dps {
		r[i] = idOf(d)
	}
	return r
}

func sortedIDs(dps []DataPoint) []int {
	r := ids(dps)
	sort.Ints(r)
	return r
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Registry knows every point ever created in a case by its id.
type Registry struct {
	pts []DataPoint
}

func (r *Registry) add(p PSpec, base time.Time) (int, DataPoint) {
	id := len(r.pts)
	dp := p.make(id, base)
	r.pts = append(r.pts, cloneDP(dp))
	return id, dp
}

// verify fails when dp is not exactly the point that was created under its id.
func (r *Registry) verify(x *X, where string, dp DataPoint) int {
	id := idOf(dp)
	if id < 0 || id >= len(r.pts) {
		x.Failf("%s: point with unknown payload %.60q", where, dp.Payload)
	}
	if !sameDP(r.pts[id], dp) {
		x.Failf("%s: point %d altered: have %s, created as %s", where, id, showDP(dp), showDP(r.pts[id]))
	}
	return id
}

func showDP(d DataPoint) string {
	return fmt.Sprintf("{vec %v payload %.30q(%d) expires %v enabled %v}", d.Vec, d.Payload, len(d.Payload), d.Expires.Format(time.RFC3339Nano), d.ExpireEnabled)
}

// ---- vectors ------------------------------------------------------------------

func finite(v []float64) bool {
	for _, c := range v {
		if math.IsNaN(c) || math.IsInf(c, 0) {
			return false
		}
	}
	return true
}

func meanOf(vs [][]float64) []float64 {
	if len(vs) == 0 {
		return nil
	}
	m := make([]float64, len(vs[0]))
	for _, v := range vs {
		for i := range m {
			m[i] += v[i]
		}
	}
	for i := range m {
		m[i] /= float64(len(vs))
	}
	return m
}

func maxAbs(vs ...[]float64) float64 {
	m := 0.0
	for _, v := range vs {
		for _, c := range v {
			m = math.Max(m, math.Abs(c))
		}
	}
	return m
}

// closeVec compares with an absolute tolerance derived from the largest magnitude involved.
func closeVec(a, b []float64, scale float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !(math.Abs(a[i]-b[i]) <= 1e-7*scale) {
			return false
		}
	}
	return true
}

func cp(v []float64) []float64 { return append([]float64{}, v...) }

func eqVec(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func newCentroid(x *X, euc bool, init []float64) *Centroid {
	c, ok := centroid.NewCentroid(centroid.NewCentroidArgs{InitVec: init, InitCap: 4, KNNSearchFunc: knnOf(euc), KFNSearchFunc: kfnOf(euc)})
	if !ok {
		x.Failf("NewCentroid refused a complete configuration")
	}
	return &c
}

func newManager(x *X, euc bool, init []float64, threshold int) *Manager {
	m, ok := centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{
		InitVec: init, InitCap: 4, CentroidDPThreshold: threshold, KNNSearchFunc: knnOf(euc), KFNSearchFunc: kfnOf(euc)})
	if !ok {
		x.Failf("NewCentroidManager refused a complete configuration")
	}
	return &m
}
