package h

import (
	"fmt"
	"math"
	"math/big"

	"pgregory.net/rapid"

	"trypo/pkg/mathutils"
	"trypo/pkg/searchutils"
)

// ---- S01 ----------------------------------------------------------------------

type searchCase struct {
	Fn   string      `json:"fn"` // KNNCos KFNCos KNNEuc KFNEuc brute-asc brute-desc
	Q    []float64   `json:"q"`
	Pool [][]float64 `json:"pool"`
	K    int         `json:"k"`
	B    *Bulk       `json:"b,omitempty"`    // further candidates
	Nest int         `json:"nest,omitempty"` // before this candidate is handed out, there is another search
}

func genSearch(t *rapid.T) searchCase {
	dim := genDim(t)
	st := genStyle(t)
	c := searchCase{
		Fn: pick(t, "fn", "KNNCos", "KFNCos", "KNNEuc", "KFNEuc", "brute-asc", "brute-desc"),
		Q:  genVec(t, dim, st),
	}
	n := 0
	switch rapid.IntRange(0, 9).Draw(t, "poolStyle") {
	case 0:
		n = rapid.IntRange(0, 2).Draw(t, "n")
	case 1:
		n = rapid.IntRange(0, 400).Draw(t, "n")
		if dim > 8 {
			n /= 4
		}
	default:
		n = rapid.IntRange(2, 24).Draw(t, "n") + rapid.IntRange(0, 5).Draw(t, "n+")
	}
	wrong := pick(t, "wrongRate", 0, 0, 6, 2)
	if rapid.IntRange(0, 9).Draw(t, "nested") == 0 {
		c.Nest = rapid.IntRange(1, 6).Draw(t, "nest")
	}
	for i := 0; i < n; i++ {
		if i > 0 && rapid.IntRange(0, 7).Draw(t, "dup") == 0 {
			c.Pool = append(c.Pool, cp(c.Pool[rapid.IntRange(0, i-1).Draw(t, "dupOf")]))
			continue
		}
		c.Pool = append(c.Pool, genAnyVec(t, dim, st, wrong))
	}
	if rare(t, "big", 6) {
		c.B = genBulk(t, dim, st, 4000/(1+dim/8), 0)
		c.B.N = min(c.B.N*pick(t, "bigger", 1, 1, 2, 5), 12000/(1+dim))
		n += c.B.N
		if rapid.Bool().Draw(t, "bigK") {
			c.K = max(0, n-1<<rapid.IntRange(0, 11).Draw(t, "kBack"))
			return c
		}
	}
	switch rapid.IntRange(0, 7).Draw(t, "kStyle") {
	case 0:
		c.K = 0
	case 1:
		c.K = n
	case 2:
		c.K = n + rapid.IntRange(1, 50).Draw(t, "kx")
	case 3:
		c.K = -rapid.IntRange(1, 5).Draw(t, "kn")
	case 4:
		c.K = 1
	default:
		c.K = rapid.IntRange(0, n+1).Draw(t, "k")
	}
	return c
}

func genOf(pool [][]float64, pulled *int) VecGen {
	i := 0
	return func() ([]float64, bool) {
		if i >= len(pool) {
			return nil, false
		}
		i++
		*pulled = i
		return pool[i-1], true
	}
}

func runSearch(x *X, c searchCase) {
	if c.B != nil {
		c.Pool = append([][]float64{}, c.Pool...)
		for _, p := range c.B.points() {
			c.Pool = append(c.Pool, p.V)
		}
		x.Label(fmt.Sprintf("pool>=%d", len(c.Pool)/500*500))
	}
	pool := make([][]float64, len(c.Pool))
	for i := range pool {
		pool[i] = cp(c.Pool[i])
	}
	q := cp(c.Q)
	scores := make([]float64, len(pool))
	mism := 0
	for i, v := range pool {
		if len(v) != len(q) {
			scores[i] = math.NaN()
			mism++
			continue
		}
		switch c.Fn {
		case "KNNCos":
			scores[i] = refCos(q, v)
		case "KFNCos":
			scores[i] = -refCos(q, v)
		case "KNNEuc":
			scores[i] = -refEuc(q, v)
		case "KFNEuc":
			scores[i] = refEuc(q, v)
		case "brute-asc":
			scores[i] = -customDist(q, v)
		case "brute-desc":
			scores[i] = customDist(q, v)
		}
	}
	var pulled int
	search := func(g VecGen, k int) []int {
		switch c.Fn {
		case "KNNCos":
			return searchutils.KNNCos(q, g, k)
		case "KFNCos":
			return searchutils.KFNCos(q, g, k)
		case "KNNEuc":
			return searchutils.KNNEuc(q, g, k)
		case "KFNEuc":
			return searchutils.KFNEuc(q, g, k)
		}
		return searchutils.KNNBrute(searchutils.KNNBruteArgs{TargetVec: q, VecPoolGenerator: g, K: k, Ascending: c.Fn == "brute-asc",
			DistFunc: func(a, b []float64) (float64, error) {
				if len(a) != len(b) {
					return 0, fmt.Errorf("dims")
				}
				return customDist(a, b), nil
			}})
	}
	// The other search: the same candidates the other way around.
	back := func() []int {
		i := len(pool)
		return search(func() ([]float64, bool) {
			if i == 0 {
				return nil, false
			}
			i--
			return pool[i], true
		}, len(pool)/2+1)
	}
	g := genOf(pool, &pulled)
	var nested []int
	if c.Nest > 0 {
		inner := g
		g = func() ([]float64, bool) {
			if pulled == c.Nest && nested == nil {
				nested = back()
			}
			return inner()
		}
	}
	got := search(g, c.K)
	res := append([]int{}, got...)
	again := back()
	for i := range res {
		if len(got) != len(res) || got[i] != res[i] {
			x.Failf("%s k=%d: the result was %v, after another search it is %v", c.Fn, c.K, res, got)
		}
	}
	if nested != nil && fmt.Sprint(nested) != fmt.Sprint(again) {
		x.Failf("%s: a search inside a search gives %v, on its own %v", c.Fn, nested, again)
	}
	checkRanked(x, fmt.Sprintf("%s k=%d", c.Fn, c.K), scores, got, c.K, true)
	if n := len(pool); n > 0 && n%2 == 1 && len(pool[n-1]) == len(q) {
		// The same memory with other contents.
		old, oldFirst := cp(q), cp(pool[0])
		copy(q, pool[n-1])
		if len(pool[0]) == len(pool[n/2]) {
			copy(pool[0], pool[n/2])
		}
		first := fmt.Sprint(search(genOf(pool, &pulled), c.K))
		var fresh [][]float64
		for _, v := range pool {
			fresh = append(fresh, cp(v))
		}
		mem := q
		q = cp(q)
		if second := fmt.Sprint(search(genOf(fresh, &pulled), c.K)); first != second {
			x.Failf("%s k=%d: %s for vectors which were changed in place, %s for fresh copies", c.Fn, c.K, first, second)
		}
		q = mem
		copy(q, old)
		copy(pool[0], oldFirst)
	}
	if !eqVec(q, c.Q) {
		x.Failf("search changed the query vector")
	}
	for i := range pool {
		if !eqVec(pool[i], c.Pool[i]) {
			x.Failf("search changed candidate %d", i)
		}
	}
	x.Label("fn=" + c.Fn)
	if mism > 0 {
		x.Label("mixed dimensions")
	}
	if c.K > len(pool) {
		x.Label("k>pool")
	}
	if len(pool) > 64 {
		x.Label("pool>64")
	}
	if len(pool)-mism >= 3 && c.K >= 2 && c.K < len(pool)-mism {
		x.NonTrivial()
	}
}

// customDist is an asymmetric measure unrelated to the built-in ones, with negative and large values.
func customDist(q, v []float64) float64 {
	s := -5.0
	for i := range q {
		s += q[i]*float64(i+1) - v[i]*float64(2*i+3)
	}
	return s * 1e3
}

// ---- S02 ----------------------------------------------------------------------

type distCase struct {
	A, B, C []float64
	S       float64 // positive scale for metamorphic laws
}

func genDist(t *rapid.T) distCase {
	dim := genDim(t)
	if rapid.IntRange(0, 19).Draw(t, "dim0") == 0 {
		dim = 0
	}
	st := genStyle(t)
	// Magnitudes up to where the squared norms stop being representable.
	mag := func(label string) float64 {
		if rapid.IntRange(0, 2).Draw(t, label+"Big") > 0 {
			return pick(t, label, 1.0, 1, 1e-3, 1e6)
		}
		return math.Pow(10, float64(rapid.IntRange(-138, 138).Draw(t, label)))
	}
	st.Scale = mag("scale")
	apart := rapid.IntRange(0, 5).Draw(t, "apart") == 0 // each vector of its own magnitude
	v := func(label string) []float64 {
		st := st
		if apart {
			st.Scale = mag(label + "Scale")
		}
		switch rapid.IntRange(0, 9).Draw(t, label) {
		case 0:
			return make([]float64, dim)
		case 1:
			return genAnyVec(t, dim, st, 1)
		}
		return genVec(t, dim, st)
	}
	c := distCase{A: v("a"), B: v("b"), C: v("c"), S: pick(t, "s", 2.0, 0.5, 3, 1e-3, 1e3)}
	switch rapid.IntRange(0, 9).Draw(t, "rel") {
	case 0:
		c.B = cp(c.A)
	case 1:
		c.B = neg(c.A)
	case 2:
		c.B = mul(c.A, c.S)
	case 3: // same up to one component
		c.B = cp(c.A)
		if dim > 0 && len(c.B) == dim {
			c.B[rapid.IntRange(0, dim-1).Draw(t, "i")] = genComp(t, st)
		}
	}
	return c
}

func neg(a []float64) []float64 { return mul(a, -1) }
func mul(a []float64, s float64) []float64 {
	r := cp(a)
	for i := range r {
		r[i] *= s
	}
	return r
}

func bigSum(f func(i int) *big.Float, n int) *big.Float {
	s := new(big.Float).SetPrec(300)
	for i := 0; i < n; i++ {
		s.Add(s, f(i))
	}
	return s
}

func bf(x float64) *big.Float { return new(big.Float).SetPrec(300).SetFloat64(x) }

func bigEuc(a, b []float64) float64 {
	s := bigSum(func(i int) *big.Float {
		d := new(big.Float).SetPrec(300).Sub(bf(a[i]), bf(b[i]))
		return d.Mul(d, d)
	}, len(a))
	r, _ := s.Sqrt(s).Float64()
	return r
}

func bigCos(a, b []float64) float64 {
	dot := bigSum(func(i int) *big.Float { p := bf(a[i]); return p.Mul(p, bf(b[i])) }, len(a))
	na := bigSum(func(i int) *big.Float { p := bf(a[i]); return p.Mul(p, p) }, len(a))
	nb := bigSum(func(i int) *big.Float { p := bf(b[i]); return p.Mul(p, p) }, len(b))
	if na.Sign() == 0 || nb.Sign() == 0 {
		return 0
	}
	na.Sqrt(na)
	nb.Sqrt(nb)
	dot.Quo(dot, na)
	dot.Quo(dot, nb)
	r, _ := dot.Float64()
	return r
}

func near(a, b, rel, abs float64) bool {
	return math.Abs(a-b) <= abs+rel*math.Max(math.Abs(a), math.Abs(b))
}

func runDist(x *X, c distCase) {
	type fn struct {
		name string
		f    func(a, b []float64) (float64, error)
		ref  func(a, b []float64) float64
	}
	euc := func(a, b []float64) float64 { r, _ := mathutils.EuclideanDistance(a, b); return r }
	cos := func(a, b []float64) float64 { r, _ := mathutils.CosineSimilarity(a, b); return r }
	for _, f := range []fn{{"EuclideanDistance", mathutils.EuclideanDistance, bigEuc}, {"CosineSimilarity", mathutils.CosineSimilarity, bigCos}} {
		pairs := [][2][]float64{{c.A, c.B}, {c.B, c.A}, {c.A, c.A}, {c.A, c.C}, {c.B, c.C}}
		own := len(pairs)
		if n := len(c.A); n > 0 { // Arguments which share memory.
			pairs = append(pairs, [2][]float64{c.A, c.A}, [2][]float64{c.A, c.A[:n-1]}, [2][]float64{c.A[:n-1], c.A[1:]}, [2][]float64{c.A[1:], c.A[:n-1]})
		}
		for i, p := range pairs {
			a, b := cp(p[0]), cp(p[1])
			if i >= own {
				w := cp(c.A)
				a, b = w[:len(p[0])], w[:len(p[1])]
				if len(p[0]) > 0 && &p[0][0] != &c.A[0] {
					a = w[1:]
				}
				if len(p[1]) > 0 && &p[1][0] != &c.A[0] {
					b = w[1:]
				}
			}
			got, err := f.f(a, b)
			if !eqVec(a, p[0]) || !eqVec(b, p[1]) {
				x.Failf("%s changed an input", f.name)
			}
			if (err != nil) != (len(a) != len(b)) {
				x.Failf("%s(%v, %v): error %v for dimensions %d and %d", f.name, a, b, err, len(a), len(b))
			}
			if err != nil {
				x.Label("dimension error")
				continue
			}
			want := f.ref(a, b)
			abs := 1e-12
			if f.name == "EuclideanDistance" {
				abs = 1e-12 * maxAbs(a, b)
			}
			if !near(got, want, 1e-9, abs) {
				x.Failf("%s(%v, %v) = %v, definition gives %v", f.name, a, b, got, want)
			}
			if f.name == "CosineSimilarity" && (got > 1+1e-9 || got < -1-1e-9 || math.IsNaN(got)) {
				x.Failf("cosine out of range: %v", got)
			}
		}
	}
	// Results depend on what the vectors hold now, not on which memory they are in.
	if len(c.A) == len(c.B) && len(c.A) == len(c.C) {
		for i, f := range []func(a, b []float64) float64{euc, cos} {
			a, b := cp(c.A), cp(c.B)
			f(a, b)
			copy(a, c.C)
			if got, want := f(a, b), f(cp(c.C), cp(c.B)); got != want {
				x.Failf("measure %d of %v (which was changed from %v) and %v is %v, with fresh copies %v", i, a, c.A, b, got, want)
			}
			copy(b, c.A)
			if got, want := f(a, b), f(cp(c.C), cp(c.A)); got != want {
				x.Failf("measure %d of %v and %v (which was changed from %v) is %v, with fresh copies %v", i, a, b, c.B, got, want)
			}
		}
	}
	if len(c.A) == len(c.B) {
		if euc(c.A, c.B) != euc(c.B, c.A) || !near(cos(c.A, c.B), cos(c.B, c.A), 1e-12, 1e-14) {
			x.Failf("not symmetric for %v, %v", c.A, c.B)
		}
		if !near(cos(mul(c.A, c.S), c.B), cos(c.A, c.B), 1e-9, 1e-12) {
			x.Failf("cosine depends on vector length: %v, %v, factor %v", c.A, c.B, c.S)
		}
		if !near(euc(mul(c.A, c.S), mul(c.B, c.S)), c.S*euc(c.A, c.B), 1e-9, 1e-12*maxAbs(c.A, c.B)*c.S) {
			x.Failf("distance does not scale: %v, %v, factor %v", c.A, c.B, c.S)
		}
		if len(c.A) == len(c.C) {
			ab, bc, ac := euc(c.A, c.B), euc(c.B, c.C), euc(c.A, c.C)
			if ac > (ab+bc)*(1+1e-9) {
				x.Failf("triangle inequality broken: %v, %v, %v", c.A, c.B, c.C)
			}
		}
		nz := 0
		for i := range c.A {
			if c.A[i] != c.B[i] {
				nz++
			}
		}
		if nz >= 2 {
			x.NonTrivial()
		}
		if refNorm(c.A) == 0 != (refNorm(c.B) == 0) {
			x.Label("one zero vector")
		}
		if len(c.A) > 16 {
			x.Label("dim>16")
		}
	}
}

// ---- S03 ----------------------------------------------------------------------

type vecCase struct {
	Vs [][]float64
	S  float64
}

func genVecCase(t *rapid.T) vecCase {
	dim := genDim(t)
	if rapid.IntRange(0, 19).Draw(t, "dim0") == 0 {
		dim = 0
	}
	st := genStyle(t)
	n := rapid.IntRange(0, 12).Draw(t, "n")
	if rapid.IntRange(0, 9).Draw(t, "many") == 0 {
		n = rapid.IntRange(0, 300).Draw(t, "n2")
		if dim > 8 {
			n /= 8
		}
	}
	wrong := pick(t, "wrong", 0, 0, 0, 10, 2)
	c := vecCase{S: pick(t, "s", 1.0, -1, 2, 0.5, -3, 7, 1e6, 0.001, 3, 0, 1e-20, 1e20)}
	for i := 0; i < n; i++ {
		if i > 0 && rapid.IntRange(0, 5).Draw(t, "dup") == 0 {
			c.Vs = append(c.Vs, cp(c.Vs[rapid.IntRange(0, i-1).Draw(t, "of")]))
			continue
		}
		c.Vs = append(c.Vs, genAnyVec(t, dim, st, wrong))
	}
	return c
}

func runVec(x *X, c vecCase) {
	vs := make([][]float64, len(c.Vs))
	back := make([][]float64, len(c.Vs)) // full backing arrays incl. spare capacity
	for i := range vs {
		back[i] = append(cp(c.Vs[i]), 91, 92, 93)
		vs[i] = back[i][:len(c.Vs[i])]
	}
	intact := func(what string) {
		for i := range vs {
			if !eqVec(vs[i], c.Vs[i]) {
				x.Failf("%s changed input %d: %v -> %v", what, i, c.Vs[i], vs[i])
			}
			if n := len(c.Vs[i]); back[i][n] != 91 || back[i][n+1] != 92 || back[i][n+2] != 93 {
				x.Failf("%s wrote behind input %d", what, i)
			}
		}
	}
	// scribble over a result; inputs must not notice.
	scribble := func(what string, r []float64) {
		full := r[:cap(r)]
		for i := range full {
			full[i] = 12345.5
		}
		intact(what + " (result shares memory with input)")
	}
	want := func(what string, got, want []float64, tol float64) {
		if len(got) != len(want) {
			x.Failf("%s has %d components, want %d", what, len(got), len(want))
		}
		for i := range want {
			if !near(got[i], want[i], tol, tol*1e-3) {
				x.Failf("%s = %v, want %v", what, got, want)
			}
		}
	}
	lim := len(vs)
	if lim > 6 {
		lim = 6
	}
	for i := 0; i < lim; i++ {
		a := vs[i]
		r := mathutils.VecMulScalar(a, c.S)
		intact("VecMulScalar")
		want("VecMulScalar", r, mul(a, c.S), 1e-15)
		scribble("VecMulScalar", r)
		if c.S != 0 {
			r = mathutils.VecDivScalar(a, c.S)
			intact("VecDivScalar")
			w := cp(a)
			for j := range w {
				w[j] /= c.S
			}
			want("VecDivScalar", r, w, 1e-15)
			scribble("VecDivScalar", r)
		}
		r = mathutils.Vec(a...)
		want("Vec", r, a, 0)
		scribble("Vec", r)
		for j := 0; j < lim; j++ {
			b := vs[j]
			same := len(a) == len(b)
			for _, op := range []string{"VecAdd", "VecSub"} {
				var r []float64
				var ok bool
				sg := 1.0
				if op == "VecAdd" {
					r, ok = mathutils.VecAdd(a, b)
				} else {
					r, ok = mathutils.VecSub(a, b)
					sg = -1
				}
				intact(op)
				if ok != same {
					x.Failf("%s(%v,%v) ok=%v", op, a, b, ok)
				}
				if ok {
					w := cp(a)
					for k := range w {
						w[k] += sg * b[k]
					}
					want(op, r, w, 1e-15)
					scribble(op, r)
				}
			}
			if mathutils.VecEq(a, b) != eqVec(a, b) {
				x.Failf("VecEq(%v,%v) = %v", a, b, mathutils.VecEq(a, b))
			}
			intact("VecEq")
		}
		// Membership.
		for cut := 0; cut <= lim; cut++ {
			in := false
			for _, o := range vs[:cut] {
				in = in || eqVec(a, o)
			}
			if mathutils.VecIn(a, vs[:cut]) != in {
				x.Failf("VecIn(%v, %v) = %v", a, vs[:cut], !in)
			}
		}
		if len(a) > 0 {
			o := cp(a)
			o[len(o)-1] += 1
			in := false
			for _, v := range vs {
				in = in || eqVec(o, v)
			}
			if mathutils.VecIn(o, vs) != in {
				x.Failf("VecIn(%v) = %v", o, !in)
			}
			if mathutils.VecEq(a, o) || mathutils.VecEq(o, a) {
				x.Failf("VecEq(%v,%v) true", a, o)
			}
		}
	}
	// Mean.
	var pulled int
	m, ok := mathutils.VecMean(genOf(vs, &pulled))
	intact("VecMean")
	wantOK := len(vs) > 0
	for _, v := range vs {
		wantOK = wantOK && len(v) == len(vs[0])
	}
	if ok != wantOK {
		x.Failf("VecMean ok=%v for %d vectors %v", ok, len(vs), dims(vs))
	}
	if ok {
		mm := meanOf(vs)
		sc := maxAbs(vs...)
		if len(m) != len(mm) {
			x.Failf("VecMean has %d components, want %d", len(m), len(mm))
		}
		for i := range m {
			if !near(m[i], mm[i], 1e-10, 1e-12*sc) {
				x.Failf("VecMean = %v, want %v", m, mm)
			}
		}
		scribble("VecMean", m)
		if len(vs) >= 2 && len(vs[0]) >= 1 {
			x.NonTrivial()
		}
	} else {
		x.Label("mean refused")
	}
	if len(vs) > 20 {
		x.Label("mean of >20")
	}
}

func dims(vs [][]float64) []int {
	r := make([]int, len(vs))
	for i := range vs {
		r[i] = len(vs[i])
	}
	return r
}

func init() {
	search := Facet{Prop: "S01", Name: "search", Quick: 400000, Thorough: 8000000,
		Rule: "random query, pool (duplicates, ties, zero vectors, wrong dimensions) and k, at times with another search in the middle of one; non-trivial: at least 3 comparable candidates and 2 <= k < comparable"}
	reg(search, genSearch, runSearch)
	regTogether(search, 24000, 800000, 20, genSearch, runSearch)
	dist := Facet{Prop: "S02", Name: "distance", Quick: 400000, Thorough: 8000000,
		Rule: "random vector triples over many scales; non-trivial: equal dimensions and at least 2 differing components"}
	reg(dist, genDist, runDist)
	regTogether(dist, 24000, 800000, 4, genDist, runDist)
	vecs := Facet{Prop: "S03", Name: "vectors", Quick: 300000, Thorough: 6000000,
		Rule: "random vector lists; non-trivial: a mean over at least 2 vectors of dimension >= 1 is computed"}
	reg(vecs, genVecCase, runVec)
	regTogether(vecs, 24000, 800000, 20, genVecCase, runVec)
}
