package h

import (
	"errors"
	"fmt"
	"math"

	"pgregory.net/rapid"

	"trypo/pkg/searchutils"
)

// Searches with the extreme scores a measure can give: candidates which are infinitely far away are still candidates.

type farCase struct {
	Fn   string `json:"fn"` // KNNEuc KFNEuc asc desc
	Pool []int  `json:"pool"`
	K    int    `json:"k"`
}

// farScores are the scores of caller-supplied measures, in order; -1 in the pool stands for an error.
var farScores = []float64{math.Inf(-1), -math.MaxFloat64, -1e300, -1, -5e-324, 5e-324, 1, 2, 1e300, math.MaxFloat64, math.Inf(1)}

// farVecs are vectors and their distance class from (1, 1, 1): the far ones count as equally far.
var farVecs = []struct {
	v    []float64
	dist float64
}{
	{[]float64{1, 1, 1}, 0}, {[]float64{1, 2, 1}, 1}, {[]float64{4, 5, 1}, 5}, {[]float64{1, 1, -8}, 9}, {[]float64{1e9, 1, 1}, 1e9},
	{[]float64{1e200, 1, 1}, 1e99}, {[]float64{1, -1e180, 1e200}, 1e99}, {[]float64{-1.7e308, 1.7e308, 0}, 1e99},
	{[]float64{1, -math.MaxFloat64, 1}, 1e99}, {[]float64{1e161, 1e161, 1e161}, 1e99},
}

func genFar(t *rapid.T) farCase {
	c := farCase{Fn: pick(t, "fn", "KNNEuc", "KFNEuc", "asc", "desc")}
	most := len(farScores) - 1
	if c.Fn[0] == 'K' {
		most = len(farVecs) - 1
	}
	c.Pool = rapid.SliceOfN(rapid.IntRange(-1, most), 0, 14).Draw(t, "pool")
	if rapid.IntRange(0, 3).Draw(t, "farther") == 0 {
		for i := range c.Pool {
			c.Pool[i] = max(c.Pool[i], most-2)
		}
	}
	c.K = rapid.IntRange(0, len(c.Pool)+2).Draw(t, "k")
	return c
}

func runFar(x *X, c farCase) {
	scores := make([]float64, len(c.Pool))
	i, far := 0, 0
	var got []int
	gen := func(vec func(k int) []float64) VecGen {
		return func() ([]float64, bool) {
			if i == len(c.Pool) {
				return nil, false
			}
			i++
			return vec(c.Pool[i-1]), true
		}
	}
	if c.Fn[0] == 'K' {
		g := gen(func(k int) []float64 {
			if k < 0 {
				return []float64{1, 1}
			}
			return cp(farVecs[k].v)
		})
		q := []float64{1, 1, 1}
		if c.Fn == "KNNEuc" {
			got = searchutils.KNNEuc(q, g, c.K)
		} else {
			got = searchutils.KFNEuc(q, g, c.K)
		}
	} else {
		got = searchutils.KNNBrute(searchutils.KNNBruteArgs{TargetVec: []float64{0}, K: c.K, Ascending: c.Fn == "asc",
			VecPoolGenerator: gen(func(k int) []float64 { return []float64{float64(k)} }),
			DistFunc: func(_, v []float64) (float64, error) {
				if v[0] < 0 {
					return 0, errors.New("not comparable")
				}
				return farScores[int(v[0])], nil
			}})
	}
	for i, k := range c.Pool {
		switch {
		case k < 0:
			scores[i] = math.NaN()
			continue
		case c.Fn[0] == 'K':
			scores[i] = farVecs[k].dist
			if scores[i] == 1e99 {
				far++
			}
		default:
			scores[i] = float64(k)
			if math.Abs(farScores[k]) > 1e300 {
				far++
			}
		}
		if c.Fn == "KNNEuc" || c.Fn == "asc" {
			scores[i] = -scores[i]
		}
	}
	checkRanked(x, fmt.Sprintf("%s k=%d of %v", c.Fn, c.K, c.Pool), scores, got, c.K, true)
	x.Label("fn=" + c.Fn)
	if far > 0 && c.K > 1 {
		x.NonTrivial()
	}
}

func init() {
	reg(Facet{Prop: "S01", Name: "extreme", Quick: 160000, Thorough: 3000000,
		Rule: "candidates whose score is infinite or the largest number there is, also for caller-supplied measures; non-trivial: at least one such candidate and k > 1"}, genFar, runFar)
}
