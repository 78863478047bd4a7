package h

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"trypo/core/dps"
	"trypo/core/eventloop"
	"trypo/core/nodes"
	"trypo/pkg/kmeans/rpc"
)

// ---- R09: requests leave nothing behind ----------------------------------------------------

const (
	atDead = -1 // nobody listens
	atCut  = -2 // the connection is accepted and dropped
)

type leakOp struct {
	Op    string    `json:"op"`
	At    int       `json:"at"`
	Ns    int       `json:"ns,omitempty"` // 1: does not exist
	V     []float64 `json:"v,omitempty"`
	N     int       `json:"n,omitempty"`
	Drain bool      `json:"drain,omitempty"`
	Addrs []int     `json:"addrs,omitempty"`
}

type leakCase struct {
	Nodes int      `json:"nodes"`
	Pre   int      `json:"pre"`
	Ops   []leakOp `json:"ops"`
	Reps  int      `json:"reps"`
	Par   bool     `json:"par"` // the operations at the same time
}

var leakOps = []string{"add", "add", "drainU", "drainO", "lookup", "near", "nearVec", "vec", "len", "split", "merge", "distI", "distF", "distA", "steal",
	"expire", "trim", "move", "names", "meta", "rankF", "rankA", "putF", "putA", "putR", "getF", "getA", "getR"}

func genLeak(extra ...string) func(t *rapid.T) leakCase {
	return func(t *rapid.T) leakCase {
		c := leakCase{Nodes: rapid.IntRange(1, 3).Draw(t, "nodes"), Pre: rapid.IntRange(0, 12).Draw(t, "pre"), Par: rapid.IntRange(0, 3).Draw(t, "par") == 0}
		at := func(t *rapid.T) int {
			if rapid.IntRange(0, 3).Draw(t, "bad") == 0 {
				return pick(t, "at", atDead, atCut)
			}
			return rapid.IntRange(0, c.Nodes-1).Draw(t, "at")
		}
		ops := leakOps
		if len(extra) > 0 {
			ops = extra
		}
		op := rapid.Custom(func(t *rapid.T) leakOp {
			o := leakOp{Op: pick(t, "op", ops...), At: at(t), N: pick(t, "n", 0, 1, 1, 2, 5, 100), V: genVec(t, 2, VecStyle{Kind: 1, Scale: 1}), Drain: rapid.Bool().Draw(t, "drain")}
			if rapid.IntRange(0, 3).Draw(t, "missing") == 0 {
				o.Ns = 1
			}
			switch o.Op {
			case "distF", "distA", "rankF", "rankA", "putF", "putA", "putR", "getF", "getA", "getR", "steal", "http", "loop", "node":
				for k := rapid.IntRange(1, 4).Draw(t, "addrs"); k > 0; k-- {
					o.Addrs = append(o.Addrs, at(t))
				}
			}
			return o
		})
		c.Ops = rapid.SliceOfN(op, 1, 5).Draw(t, "ops")
		c.Reps = rapid.IntRange(12, 12+40/len(c.Ops)).Draw(t, "reps")
		if len(extra) > 0 {
			c.Reps = 12
		}
		return c
	}
}

var leakClient = &http.Client{Transport: &http.Transport{DisableKeepAlives: true}, Timeout: 40 * time.Second}

func openFiles() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(d)
}

// settled returns the numbers of goroutines and open files once they stop falling.
func settled(limit time.Duration, enough func(g, f int) bool) (g, f int) {
	end := time.Now().Add(limit)
	still := 0
	for {
		ng, nf := runtime.NumGoroutine(), openFiles()
		if ng == g && nf == f {
			still++
		} else {
			still = 0
		}
		g, f = ng, nf
		if enough(g, f) && still >= 5 || time.Now().After(end) {
			return
		}
		time.Sleep(time.Millisecond)
	}
}

func runLeak(x *X, c leakCase) {
	ns := poolNodes(x, c.Nodes, nodeCfg{false, 4})
	px := proxies(x, 1)[0]
	px.set(ns[0].addr, []string{"*"}, 0)
	addrOf := func(at int) string {
		switch at {
		case atDead:
			return deadAddr()
		case atCut:
			return px.addr
		}
		return ns[at].addr
	}
	addrs := func(o leakOp) (as []nodes.Addr, ss []string) {
		for _, a := range o.Addrs {
			as, ss = append(as, toAddr(addrOf(a))), append(ss, addrOf(a))
		}
		return
	}
	n := 0
	var mu sync.Mutex
	point := func(v []float64) DataPoint {
		mu.Lock()
		defer mu.Unlock()
		n++
		return DataPoint{Vec: cp(v), Payload: []byte(fmt.Sprint(n))}
	}
	for i := 0; i < c.Pre; i++ {
		var ok bool
		if err := ns[i%len(ns)].srv.AddDataPoint(rpc.AddDataPointArgs{NameSpace: "ns0", DP: point([]float64{float64(i % 4), 1})}, &ok); err != nil || !ok {
			x.Failf("preparing: %v %v", ok, err)
		}
	}
	fails, works := 0, 0
	do := func(o leakOp) {
		var err error
		name := "ns0"
		if o.Ns == 1 {
			name = "absent"
		}
		cl := rpc.KMeansClient(addrOf(o.At), name, &err)
		as, ss := addrs(o)
		ga := dps.GetDataPointsArgs{AddrOptions: as, Namespace: name, QueryVec: o.V, N: o.N, Drain: o.Drain, KNNSearchFunc: knnOf(false)}
		ra := nodes.BestFitNodesArgs{AddrOpts: as, Namespace: name, Vec: o.V, KNNSearchFunc: knnOf(false)}
		put := func(f func(dps.PutDataPointArgs) bool) {
			f(dps.PutDataPointArgs{AddrOptions: as, Namespace: name, DataPoint: point(o.V), KNNSearchFunc: knnOf(false)})
		}
		switch o.Op {
		case "add":
			if o.Ns == 0 {
				cl.AddDataPoint(point(o.V))
			}
		case "drainU":
			cl.DrainUnordered(o.N)
		case "drainO":
			cl.DrainOrdered(o.N)
		case "lookup":
			cl.KNNLookup(o.V, o.N, o.Drain)
		case "near":
			cl.NearestCentroids(o.V, o.N, o.Drain)
		case "nearVec":
			cl.NearestCentroidVec(o.V)
		case "vec":
			cl.Vec()
		case "len":
			cl.LenDP()
		case "split":
			cl.SplitCentroids(0, 1000)
		case "merge":
			cl.MergeCentroids(-1, 3)
		case "distI":
			cl.DistributeDataPointsInternal(o.N)
		case "distF":
			cl.DistributeDataPointsFast(ss, min(o.N, 5))
		case "distA":
			cl.DistributeDataPointsAccurate(ss, min(o.N, 5))
		case "steal":
			cl.StealCentroids(ss[0], o.N)
		case "expire":
			cl.Expire()
		case "trim":
			cl.MemTrim()
		case "move":
			cl.MoveVector()
		case "names":
			cl.Namespaces()
		case "meta":
			cl.Meta()
		case "rankF":
			nodes.BestFitNodesFast(ra)
		case "rankA":
			nodes.BestFitNodesAccurate(ra)
		case "putF":
			put(dps.PutDataPointFast)
		case "putA":
			put(dps.PutDataPointAccurate)
		case "putR":
			put(dps.PutDataPointRand)
		case "getF":
			dps.GetDataPointsFast(ga)
		case "getA":
			dps.GetDataPointsAccurate(ga)
		case "getR":
			dps.GetDataPointsRand(ga)
		case "http":
			if apiBroken != "" {
				return
			}
			for k, p := range apiProxies {
				a := o.Addrs[k%len(o.Addrs)]
				if a == atDead || a == atCut {
					p.set(ns[0].addr, []string{"*"}, 0)
				} else {
					p.set(ns[a].addr, nil, 0)
				}
			}
			path, body := "/api/dp/put", []byte("{")
			switch o.N % 3 {
			case 0:
				body, _ = json.Marshal(jsonPut{name, o.Drain, jsonDP{Vec: o.V}})
			case 1:
				path = "/api/dp/query"
				body, _ = json.Marshal(jsonQuery{name, o.Drain, o.V, o.N, o.Drain})
			}
			r, e := leakClient.Post(apiURL+path, "application/json", bytes.NewReader(body))
			if e != nil {
				if netTrouble(e) {
					x.Env(e)
				}
				x.Failf("%s: no answer from the API: %v", o.Op, e)
			}
			io.Copy(io.Discard, r.Body)
			r.Body.Close()
			if r.StatusCode != 200 {
				err = fmt.Errorf("status %d", r.StatusCode)
			}
		case "node":
			n, e := startNode()
			if e != nil {
				x.Env(e)
			}
			here := rpc.KMeansClient(n.addr, "ns0", &err)
			here.AddDataPoint(point(o.V))
			here.Vec()
			if len(ss) > 0 {
				rpc.KMeansClient(ns[0].addr, "ns0", nil).StealCentroids(n.addr, o.N)
			}
			n.stop()
		case "loop":
			l := LoopSpec{FastN: 2, AccN: 1, IntN: 2, SplitLo: 1, SplitHi: 100, MergeLo: -1, MergeHi: 2, LocalOnly: o.Drain}
			var m sync.Mutex
			var stop func()
			left := o.N%3 + 1
			done := make(chan struct{})
			m.Lock()
			stop = eventloop.EventLoop(l.config(addrOf(max(o.At, 0)), ss, &tapLogger{meta: func(eventloop.MetaData) {
				m.Lock()
				defer m.Unlock()
				if left--; left == 0 {
					stop()
					close(done)
				}
			}}))
			m.Unlock()
			<-done
		}
		mu.Lock()
		if err != nil {
			if netTrouble(err) {
				mu.Unlock()
				x.Env(err)
			}
			fails++
		} else {
			works++
		}
		mu.Unlock()
	}
	all := func(reps int) {
		if c.Par {
			var wg sync.WaitGroup
			var failed any
			for _, o := range c.Ops {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							mu.Lock()
							failed = r
							mu.Unlock()
						}
					}()
					for i := 0; i < reps; i++ {
						do(o)
					}
				}()
			}
			wg.Wait()
			if failed != nil {
				panic(failed)
			}
			return
		}
		for i := 0; i < reps; i++ {
			for _, o := range c.Ops {
				do(o)
			}
		}
	}
	stacks := map[string]int{}
	g0, f0 := settled(200*time.Millisecond, func(int, int) bool { return true })
	for k, n := range stackCounts() {
		stacks[k] = n
	}
	call(x, "the requests", func() { all(c.Reps) })
	// Whatever runs on for a moment ends soon; a leak does not.
	slack := 3
	g, f := settled(12*time.Second, func(g, f int) bool { return g <= g0+slack && f <= f0+slack })
	x.Tracef("goroutines %d -> %d, open files %d -> %d, %d requests failed, %d worked", g0, g, f0, f, fails, works)
	if g > g0+slack || f > f0+slack {
		x.Failf("after %d rounds of %s: %d goroutines (before: %d), %d open files (before: %d); left running: %s", c.Reps, opNames(c.Ops), g, g0, f, f0, moreStacks(stacks))
	}
	if works > 0 {
		x.NonTrivial()
	}
	if fails > 0 {
		x.Label("with failing requests")
	}
}

func opNames(ops []leakOp) string {
	var r []string
	for _, o := range ops {
		r = append(r, fmt.Sprintf("%s@%d%v", o.Op, o.At, o.Addrs))
	}
	return strings.Join(r, ",")
}

// stackCounts counts goroutines by the function they run in.
func stackCounts() map[string]int {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	m := map[string]int{}
	for _, g := range strings.Split(string(buf), "\n\n") {
		key := ""
		for _, l := range strings.Split(g, "\n") {
			if strings.HasPrefix(l, "created by ") {
				key = strings.Fields(l)[2]
			}
		}
		m[key]++
	}
	return m
}

func moreStacks(before map[string]int) string {
	var r []string
	for k, n := range stackCounts() {
		if n > before[k] {
			r = append(r, fmt.Sprintf("%d more of %s", n-before[k], k))
		}
	}
	sort.Strings(r)
	return strings.Join(r, ", ")
}

func init() {
	reg(Facet{Prop: "R09", Name: "requests-leak", Quick: 1600, Thorough: 40000,
		Rule: "1-5 operations of any kind (client calls, ranking, puts and gets; also on dead or dropping addresses and missing namespaces), repeated 12-52 times, in turn or at the same time; non-trivial: some succeeded"}, genLeak(), runLeak)
	reg(Facet{Prop: "R09", Name: "services-leak", Quick: 320, Thorough: 12000, Setup: setupAPI,
		Rule: "the same with HTTP requests and with maintenance loops and nodes that are started and stopped again; non-trivial: some succeeded"}, genLeak("http", "loop", "http", "add", "node"), runLeak)
}
