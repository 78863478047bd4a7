package h

import (
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net"
	"runtime"
	"strconv"
	"sync"
	"time"

	"pgregory.net/rapid"

	"trypo/pkg/kmeans/rpc"
)

// ---- R07: nothing crashes or hangs a node ---------------------------------------------------

// FV is a vector whose JSON form keeps non-finite components.
type FV []float64

func (v FV) MarshalJSON() ([]byte, error) {
	if v == nil {
		return []byte("null"), nil
	}
	s := make([]string, len(v))
	for i, f := range v {
		s[i] = strconv.FormatFloat(f, 'g', -1, 64)
	}
	return json.Marshal(s)
}

func (v *FV) UnmarshalJSON(b []byte) error {
	var s []string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	*v = nil
	if s == nil {
		return nil
	}
	*v = FV{}
	for _, x := range s {
		f, err := strconv.ParseFloat(x, 64)
		if err != nil {
			return err
		}
		*v = append(*v, f)
	}
	return nil
}

type WOp struct {
	Op    string `json:"op"`
	Ns    int    `json:"ns,omitempty"`
	V     FV     `json:"v,omitempty"`
	N     int    `json:"n,omitempty"`
	Hi    int    `json:"hi,omitempty"`
	Drain bool   `json:"drain,omitempty"`
	Pay   int    `json:"pay,omitempty"`
	En    int    `json:"en,omitempty"` // 0 off, 1 past, 2 future, 3 zero time enabled
	Addrs []int  `json:"addrs,omitempty"`
}

type wildCase struct {
	Euc       bool  `json:"euc"`
	Threshold int   `json:"threshold"`
	Ops       []WOp `json:"ops"`
}

func genWildCount(t *rapid.T, label string) int {
	switch rapid.IntRange(0, 3).Draw(t, label+"Style") {
	case 0:
		return pick(t, label, 1<<25, 1<<26, 1<<27, 1<<31, 1<<33, 1<<40, 1<<62, math.MaxInt, math.MaxInt-1, math.MaxInt32)
	case 1:
		return pick(t, label, -1, -2, math.MinInt, math.MinInt+1, -1<<40, math.MinInt32)
	case 2:
		return 0
	default:
		return rapid.IntRange(1, 12).Draw(t, label)
	}
}

func genWildVec(t *rapid.T, dim int) FV {
	switch rapid.IntRange(0, 11).Draw(t, "vecStyle") {
	case 0:
		return nil
	case 1:
		return FV{}
	case 2:
		return FV(genVec(t, pick(t, "d", 1, dim+1, dim+7, 3000), VecStyle{Kind: 0, Scale: 1}))
	case 3:
		return make(FV, dim)
	case 4, 5:
		v := FV(genVec(t, dim, VecStyle{Kind: 1, Scale: 1}))
		for i := range v {
			if rapid.Bool().Draw(t, "wild?") {
				v[i] = pick(t, "wild", math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, 5e-324, 1e200, -1e-200, math.Copysign(0, -1))
			}
		}
		return v
	default:
		return FV(genVec(t, dim, VecStyle{Kind: 1, Scale: 1}))
	}
}

func genWild(t *rapid.T) wildCase {
	dim := rapid.IntRange(1, 4).Draw(t, "dim")
	c := wildCase{Euc: rapid.Bool().Draw(t, "euc"), Threshold: pick(t, "threshold", 0, 1, 2, 3, 5, -4, math.MaxInt, math.MinInt)}
	op := rapid.Custom(func(t *rapid.T) WOp {
		o := WOp{Op: pick(t, "op", "add", "add", "add", "add", "add", "add", "add", "add", "drainU", "drainO", "lookup", "lookup", "near", "near", "nearVec", "vec", "len",
			"split", "merge", "distI", "distF", "distA", "steal", "expire", "trim", "move", "names", "meta")}
		o.Ns = pick(t, "ns", 0, 0, 0, 0, 0, 1, 2)
		o.V = genWildVec(t, dim)
		o.N, o.Hi = genWildCount(t, "n"), genWildCount(t, "hi")
		o.Drain = rapid.Bool().Draw(t, "drain")
		o.En = pick(t, "en", 0, 0, 0, 1, 2, 3)
		if o.Op == "add" && rapid.IntRange(0, 30).Draw(t, "big") == 0 {
			o.Pay = pick(t, "pay", 1<<10, 1<<16, 1<<19)
		}
		switch o.Op {
		case "distF", "distA", "steal":
			o.Addrs = rapid.SliceOfN(rapid.IntRange(0, 5), 1, 6).Draw(t, "addrs")
			if o.Op != "steal" && rapid.IntRange(0, 5).Draw(t, "noAddrs") == 0 {
				o.Addrs = nil
			}
		}
		return o
	})
	lo, hi := genLen(t, 40)
	c.Ops = rapid.SliceOfN(op, lo, hi).Draw(t, "ops")
	return c
}

func allocated() uint64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.TotalAlloc
}

// probe checks that a node still serves requests correctly, in a namespace of its own.
func probe(x *X, what string, n *netNode, i int) {
	call(x, what+": afterwards", func() {
		var err error
		cl := rpc.KMeansClient(n.addr, "probe", &err)
		pl := []byte(fmt.Sprintf("probe-%d", i))
		ok := cl.AddDataPoint(DataPoint{Vec: []float64{1, float64(i)}, Payload: pl})
		if err != nil {
			if netTrouble(err) {
				x.Env(err)
			}
			x.Failf("%s: afterwards the node does not serve adds: %v", what, err)
		}
		if !ok {
			x.Failf("%s: afterwards an add in another namespace is refused", what)
		}
		got := cl.KNNLookup([]float64{1, float64(i)}, 1, true)
		if err != nil || len(got) != 1 || string(got[0].Payload) != string(pl) {
			x.Failf("%s: afterwards a lookup in another namespace returns %d points (err %v)", what, len(got), err)
		}
		if l := cl.LenDP(); err != nil || l != 0 {
			x.Failf("%s: afterwards the other namespace holds %d points (err %v)", what, l, err)
		}
	})
}

func runWild(x *X, c wildCase) {
	ns := poolNodes(x, 2, nodeCfg{c.Euc, c.Threshold})
	n := ns[0]
	addrs := []string{ns[0].addr, ns[1].addr, deadAddr(), "", "127.0.0.1:99999", "localhost:" + portOf(ns[0].addr)}
	for i := 0; i < 3; i++ {
		var ok bool
		ns[1].srv.AddDataPoint(rpc.AddDataPointArgs{NameSpace: "w0", DP: DataPoint{Vec: []float64{float64(i), 1}}}, &ok)
	}
	for i, op := range c.Ops {
		what := fmt.Sprintf("step %d %s ns=%d n=%d hi=%d v=%.80v addrs=%v", i, op.Op, op.Ns, op.N, op.Hi, []float64(op.V), op.Addrs)
		var err error
		cl := rpc.KMeansClient(n.addr, fmt.Sprintf("w%d", op.Ns), &err)
		var as []string
		for _, a := range op.Addrs {
			as = append(as, addrs[a])
		}
		// clusters cannot be rebuilt by the client from points without vectors
		before := allocated()
		call(x, what, func() {
			switch op.Op {
			case "add":
				dp := DataPoint{Vec: op.V, Payload: make([]byte, op.Pay), ExpireEnabled: op.En != 0}
				switch op.En {
				case 1:
					dp.Expires = time.Now().Add(-time.Hour)
				case 2:
					dp.Expires = time.Now().Add(time.Hour)
				}
				cl.AddDataPoint(dp)
			case "drainU":
				cl.DrainUnordered(op.N)
			case "drainO":
				cl.DrainOrdered(op.N)
			case "lookup":
				cl.KNNLookup(op.V, op.N, op.Drain)
			case "near":
				cl.NearestCentroids(op.V, op.N, op.Drain)
			case "nearVec":
				cl.NearestCentroidVec(op.V)
			case "vec":
				cl.Vec()
			case "len":
				cl.LenDP()
			case "split":
				cl.SplitCentroids(op.N, op.Hi)
			case "merge":
				cl.MergeCentroids(op.N, op.Hi)
			case "distI":
				cl.DistributeDataPointsInternal(op.N)
			case "distF":
				cl.DistributeDataPointsFast(as, op.N)
			case "distA":
				cl.DistributeDataPointsAccurate(as, op.N)
			case "steal":
				cl.StealCentroids(as[0], op.N)
			case "expire":
				cl.Expire()
			case "trim":
				cl.MemTrim()
			case "move":
				cl.MoveVector()
			case "names":
				cl.Namespaces()
			case "meta":
				cl.Meta()
			}
		})
		if err != nil && netTrouble(err) {
			x.Env(err)
		}
		x.Tracef("%s -> err=%v", what, err)
		if op.N > 1<<24 && op.Op != "add" {
			if used := allocated() - before; used > 128<<20 {
				x.Failf("%s: used %d MB of memory for a node of at most %d points", what, used>>20, len(c.Ops))
			}
		}
		if err != nil && !isNamespaceErr(err, fmt.Sprintf("w%d", op.Ns)) {
			x.Label("error: " + trim(err.Error(), 40))
		}
		if i%4 == 3 || i == len(c.Ops)-1 {
			probe(x, what, n, i)
		}
		if op.N > 1<<24 || op.N < 0 || !finite(op.V) || op.Hi < op.N {
			x.NonTrivial()
			x.Label("wild " + op.Op)
		}
	}
}

func portOf(addr string) string {
	_, p, _ := net.SplitHostPort(addr)
	return p
}

// ---- raw bytes -------------------------------------------------------------------------------

type Edit struct {
	Kind string `json:"kind"` // set, cut, dup, ins
	Pos  int    `json:"pos"`
	Len  int    `json:"len,omitempty"`
	B    []byte `json:"b,omitempty"`
}

type rawCase struct {
	Reqs  []int  `json:"reqs"` // recorded requests sent one after another
	Noise []byte `json:"noise,omitempty"`
	Edits []Edit `json:"edits,omitempty"`
	Close bool   `json:"close,omitempty"` // do not wait for a reply
}

// recorded request streams of a client, by kind
var rawRequests = sync.OnceValues(func() ([][]byte, error) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	defer ln.Close()
	got := make(chan []byte)
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			c.SetReadDeadline(time.Now().Add(40 * time.Millisecond))
			b, _ := io.ReadAll(c)
			c.Close()
			got <- b
		}
	}()
	a := ln.Addr().String()
	v := []float64{1, 2, 3}
	calls := []func(){
		func() {
			rpc.KMeansClient(a, "raw", nil).AddDataPoint(DataPoint{Vec: v, Payload: []byte("x"), Expires: time.Now().Add(time.Hour), ExpireEnabled: true})
		},
		func() { rpc.KMeansClient(a, "raw", nil).AddDataPoint(DataPoint{Vec: v}) },
		func() { rpc.KMeansClient(a, "raw", nil).KNNLookup(v, 2, true) },
		func() { rpc.KMeansClient(a, "raw", nil).NearestCentroids(v, 2, false) },
		func() { rpc.KMeansClient(a, "raw", nil).NearestCentroidVec(v) },
		func() { rpc.KMeansClient(a, "raw", nil).DrainUnordered(2) },
		func() { rpc.KMeansClient(a, "raw", nil).DrainOrdered(2) },
		func() { rpc.KMeansClient(a, "raw", nil).SplitCentroids(0, 9) },
		func() { rpc.KMeansClient(a, "raw", nil).MergeCentroids(0, 9) },
		func() { rpc.KMeansClient(a, "raw", nil).DistributeDataPointsInternal(3) },
		func() { rpc.KMeansClient(a, "raw", nil).DistributeDataPointsFast([]string{"x"}, 3) },
		func() { rpc.KMeansClient(a, "raw", nil).StealCentroids("x", 3) },
		func() { rpc.KMeansClient(a, "raw", nil).LenDP() },
		func() { rpc.KMeansClient(a, "raw", nil).Vec() },
		func() { rpc.KMeansClient(a, "raw", nil).Namespaces() },
		func() { rpc.KMeansClient(a, "raw", nil).Meta() },
		func() { rpc.KMeansClient(a, "raw", nil).MemTrim() },
		func() { rpc.KMeansClient(a, "raw", nil).Expire() },
		func() { rpc.KMeansClient(a, "raw", nil).MoveVector() },
	}
	var out [][]byte
	for _, f := range calls {
		go f()
		out = append(out, <-got)
	}
	return out, nil
})

const rawKinds = 19

func genRaw(t *rapid.T) rawCase {
	c := rawCase{Close: rapid.Bool().Draw(t, "close")}
	switch rapid.IntRange(0, 4).Draw(t, "style") {
	case 0:
		c.Noise = rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "noise")
		return c
	case 1:
		c.Noise = rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "noise")
	}
	c.Reqs = rapid.SliceOfN(rapid.IntRange(0, rawKinds-1), 1, 3).Draw(t, "reqs")
	c.Edits = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Edit {
		e := Edit{Kind: pick(t, "edit", "set", "set", "set", "cut", "dup", "ins"), Pos: rapid.IntRange(0, 1<<12).Draw(t, "pos")}
		switch e.Kind {
		case "set", "ins":
			e.B = rapid.SliceOfN(rapid.Byte(), 1, 9).Draw(t, "b")
		default:
			e.Len = rapid.IntRange(1, 40).Draw(t, "len")
		}
		return e
	}), 0, 5).Draw(t, "edits")
	return c
}

func (c rawCase) stream(reqs [][]byte) []byte {
	var b []byte
	for _, r := range c.Reqs {
		b = append(b, reqs[r]...)
	}
	for _, e := range c.Edits {
		if len(b) == 0 {
			break
		}
		p := e.Pos % len(b)
		switch e.Kind {
		case "set":
			copy(b[p:], e.B)
		case "ins":
			b = append(append(append([]byte{}, b[:p]...), e.B...), b[p:]...)
		case "cut":
			b = append(append([]byte{}, b[:p]...), b[min(len(b), p+e.Len):]...)
		case "dup":
			q := min(len(b), p+e.Len)
			b = append(append(append([]byte{}, b[:q]...), b[p:q]...), b[q:]...)
		}
	}
	return append(b, c.Noise...)
}

func runRaw(x *X, c rawCase) {
	reqs, err := rawRequests()
	if err != nil {
		x.Env(err)
	}
	n := poolNodes(x, 1, nodeCfg{true, 3})[0]
	for i := 0; i < 5; i++ {
		var ok bool
		n.srv.AddDataPoint(rpc.AddDataPointArgs{NameSpace: "raw", DP: DataPoint{Vec: []float64{1, 2, float64(i)}}}, &ok)
	}
	b := c.stream(reqs)
	conn, err := net.Dial("tcp", n.addr)
	if err != nil {
		x.Env(err)
	}
	before := allocated()
	conn.SetDeadline(time.Now().Add(20 * time.Second))
	conn.Write(b)
	replied := 0
	if !c.Close {
		conn.(*net.TCPConn).CloseWrite()
		r, _ := io.ReadAll(conn)
		replied = len(r)
	}
	conn.Close()
	probe(x, "after raw bytes", n, 1)
	_ = before
	if len(c.Edits) > 0 || len(c.Noise) > 0 {
		x.NonTrivial()
	}
	if replied > 0 {
		x.Label("node replied")
	}
}

func init() {
	reg(Facet{Prop: "R07", Name: "wild-arguments", Quick: 5000, Thorough: 250000,
		Rule: "histories of client calls with extreme arguments on a real node, probed after every few calls, memory use bounded; non-trivial: a negative, huge, inverted or non-finite argument was sent"}, genWild, runWild)
	reg(Facet{Prop: "R07", Name: "raw-bytes", Quick: 6000, Thorough: 300000,
		Rule: "byte streams on a node's port: recorded requests with edits, noise; non-trivial: the stream is not a plain valid request"}, genRaw, runRaw)
}
