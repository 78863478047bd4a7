bug("search-scratch","S01",
 "two searches at the same time, or one which is made while the candidates of another are being handed out",
 "the intermediate results of all searches share one buffer",
 [(KNN,"	res := make([]resultItem, 0)\n","	res := scratch[:0]\n	defer func() { scratch = res }()\n"),
  (KNN,"// KNNBrute is a general-purpose","// Kept between searches to spare allocations.\nvar scratch []resultItem\n\n// KNNBrute is a general-purpose")],
 '''
package main
import ("fmt";"os";"trypo/pkg/searchutils")
func gen(vecs [][]float64, at func(int)) func() ([]float64, bool) {
 i := 0
 return func() ([]float64, bool) { at(i); if i == len(vecs) { return nil, false }; i++; return vecs[i-1], true }
}
func main() {
 vecs := [][]float64{{5}, {1}, {4}, {2}, {3}}
 nothing := func(int) {}
 searchutils.KNNEuc([]float64{0}, gen(vecs, nothing), 5)
 got := searchutils.KNNEuc([]float64{0}, gen(vecs, func(i int) { if i == 3 { searchutils.KNNEuc([]float64{9}, gen(vecs, nothing), 5) } }), 3)
 if fmt.Sprint(got) != "[1 3 4]" { fmt.Println("FAIL: nearest are", got, "want [1 3 4]"); os.Exit(1) }
}''')

bug("cosine-remembers-norm","S02",
 "a vector which is changed in place between two comparisons",
 "the norm of the first vector is remembered by its memory",
 [(DI,"	norm1, norm2 := norm(vec1), norm(vec2)\n","	// Searches compare the same vector with many others.\n	last, _ := lastNorm.Load().(*knownNorm)\n	if len(vec1) > 0 && (last == nil || last.of != &vec1[0] || last.dim != len(vec1)) {\n		last = &knownNorm{of: &vec1[0], dim: len(vec1), norm: norm(vec1)}\n		lastNorm.Store(last)\n	}\n	if last == nil || len(vec1) == 0 {\n		return 0, nil\n	}\n	norm1, norm2 := last.norm, norm(vec2)\n"),
  (DI,"// CosineSimilarity finds","type knownNorm struct {\n	of   *float64\n	dim  int\n	norm float64\n}\n\nvar lastNorm atomic.Value\n\n// CosineSimilarity finds"),
  (DI,'	"math"\n','	"math"\n	"sync/atomic"\n')],
 '''
package main
import ("fmt";"math";"os";"trypo/pkg/mathutils")
func main() {
 a, b := []float64{1, 0}, []float64{1, 1}
 mathutils.CosineSimilarity(a, b)
 a[0], a[1] = 3, 3
 r, err := mathutils.CosineSimilarity(a, b)
 if err != nil || math.Abs(r-1) > 1e-9 { fmt.Println("FAIL: similarity of parallel vectors is", r, err); os.Exit(1) }
}''')

bug("mean-scratch","S03",
 "a mean which is computed while the vectors of another one are being handed out, or by two threads",
 "all means are summed up in the same memory",
 [(VT,"	res := make([]float64, len(vec))\n	copy(res, vec)\n\n	n := 1.","	sum = append(sum[:0], vec...)\n	res := sum\n\n	n := 1."),
  (VT,"	for i := 0; i < len(res); i++ {\n		res[i] /= n\n	}\n\n	return res, true","	mean := make([]float64, len(res))\n	for i := 0; i < len(res); i++ {\n		mean[i] = res[i] / n\n	}\n\n	return mean, true"),
  (VT,"// VecMean creates","// Grows to the biggest dimension in use.\nvar sum []float64\n\n// VecMean creates")],
 '''
package main
import ("fmt";"os";"trypo/pkg/mathutils")
func main() {
 mathutils.VecMean(func() ([]float64, bool) { return make([]float64, 8), false })
 all := func(vecs [][]float64, at func(int)) ([]float64, bool) {
  i := 0
  return mathutils.VecMean(func() ([]float64, bool) { at(i); if i == len(vecs) { return nil, false }; i++; return vecs[i-1], true })
 }
 all([][]float64{{1, 2}, {3, 4}}, func(int) {})
 got, ok := all([][]float64{{1, 2}, {3, 4}}, func(i int) { if i == 1 { all([][]float64{{100, 100}}, func(int) {}) } })
 if !ok || fmt.Sprint(got) != "[2 3]" { fmt.Println("FAIL: mean is", got, "want [2 3]"); os.Exit(1) }
}''')

bug("ordered-drain-scratch","C02",
 "ordered drains of two different clusters at the same time",
 "points are collected in memory which all clusters share before they are handed out",
 [(CE,"func (c *Centroid) DrainOrdered(n int) []common.DataPoint {\n	res := make([]common.DataPoint, 0)\n","func (c *Centroid) DrainOrdered(n int) []common.DataPoint {\n	res := drained[:0]\n"),
  (CE,"	for i := len(indexes) - 1; i > -1; i-- { // Backwards for removal safety.\n		c.rmDataPoint(indexes[i])\n	}\n	return res\n","	for i := len(indexes) - 1; i > -1; i-- { // Backwards for removal safety.\n		c.rmDataPoint(indexes[i])\n	}\n	drained = res\n	return append(make([]common.DataPoint, 0, len(res)), res...)\n"),
  (CE,"// DrainOrdered drains n internal","// Collects what is drained, kept to spare allocations.\nvar drained []common.DataPoint\n\n// DrainOrdered drains n internal")],
 loc('''
func main() {
 bad := make(chan string, 4)
 for k := 0; k < 4; k++ {
  go func(k int) {
   name := fmt.Sprint("of", k)
   for r := 0; r < 3000; r++ {
    c := newC(1, 1)
    for i := 0; i < 30; i++ { c.AddDataPoint(pt(name, float64(i%7), 1)) }
    for _, d := range c.DrainOrdered(25) { if string(d.Payload) != name { bad <- "a cluster drained a point of another: " + string(d.Payload) + " instead of " + name; return } }
   }
   bad <- ""
  }(k)
 }
 for k := 0; k < 4; k++ { if s := <-bad; s != "" { fail("%s", s) } }
}'''))

bug("ranking-channel-shared","N01",
 "two rankings at the same time",
 "all rankings collect from the same channel, so answers of one end up in another",
 [(NV,"	ch := make(chan fetchVecsRes, len(addrs))\n","	ch := answers\n"),
  (NV,"// Generally fetch some vecs","var answers = make(chan fetchVecsRes, 1000)\n\n// Generally fetch some vecs")],
 net(' "trypo/core/nodes"\n "trypo/pkg/searchutils"','''
func main() {
 bad := make(chan string, 4)
 for k := 0; k < 4; k++ {
  a, _ := start()
  b, _ := start()
  rpc.KMeansClient(a.ToStr(), "ns", nil).AddDataPoint(pt("p", 1, 0))
  rpc.KMeansClient(b.ToStr(), "ns", nil).AddDataPoint(pt("p", 0, 1))
  go func() {
   for r := 0; r < 200; r++ {
    got := nodes.BestFitNodesFast(nodes.BestFitNodesArgs{AddrOpts: []arbiter.Addr{a, b}, Namespace: "ns", Vec: []float64{0, 1}, KNNSearchFunc: searchutils.KNNCos})
    if len(got) != 2 || got[0] != b || got[1] != a { bad <- fmt.Sprintf("ranking of %v and %v gives %v", a, b, got); return }
   }
   bad <- ""
  }()
 }
 for k := 0; k < 4; k++ { if s := <-bad; s != "" { fail("%s", s) } }
}'''))

bug("get-results-shared","D02",
 "the result of a get is still in use when another get is made",
 "all gets return the same memory",
 [(GD,"	res := make([]DataPoint, 0)\n","	res := fetched[:0]\n"),
  (GD,"		res = append(res, dps...)\n","		res = append(res, dps...)\n		fetched = res\n"),
  (GD,"type getDataPointsArgs struct {","// Kept to spare allocations.\nvar fetched []DataPoint\n\ntype getDataPointsArgs struct {")],
 net(' "trypo/core/dps"\n "trypo/pkg/searchutils"','''
func main() {
 a, _ := start()
 rpc.KMeansClient(a.ToStr(), "ns", nil).AddDataPoint(pt("x", 1, 0))
 rpc.KMeansClient(a.ToStr(), "ns", nil).AddDataPoint(pt("y", 0, 1))
 get := func(v ...float64) []common.DataPoint {
  return dps.GetDataPointsFast(dps.GetDataPointsArgs{AddrOptions: []arbiter.Addr{a}, Namespace: "ns", QueryVec: v, N: 1, KNNSearchFunc: searchutils.KNNCos})
 }
 x := get(1, 0)
 get(0, 1)
 get(1, 1)
 get(0, 1)
 if string(x[0].Payload) != "x" { fail("the result of a get was changed by a later one") }
}'''))
