package h

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"trypo/pkg/kmeans/rpc"
)

// ---- R07: peers which connect and then stall --------------------------------------------------

type crowdConn struct {
	Kind  string `json:"kind"` // idle, partial, noise, unread (small replies), unreadBig
	Times int    `json:"times"`
	Req   int    `json:"req,omitempty"`
	Cut   int    `json:"cut,omitempty"`
	Noise []byte `json:"noise,omitempty"`
	Reset bool   `json:"reset,omitempty"` // is closed with a reset in the end
}

type crowdCase struct {
	Euc       bool        `json:"euc"`
	Threshold int         `json:"threshold"`
	Points    int         `json:"points"`
	Pay       int         `json:"pay"`
	Conns     []crowdConn `json:"conns"`
	Ops       []string    `json:"ops"`
}

func genCrowd(t *rapid.T) crowdCase {
	c := crowdCase{Euc: rapid.Bool().Draw(t, "euc"), Threshold: pick(t, "threshold", 0, 2, 5, 100)}
	c.Points = rapid.IntRange(1, 20).Draw(t, "points")
	c.Pay = pick(t, "pay", 0, 100, 1<<16, 1<<18)
	c.Conns = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) crowdConn {
		x := crowdConn{Kind: pick(t, "kind", "idle", "partial", "partial", "noise", "unread", "unreadBig"), Times: 1, Reset: rapid.Bool().Draw(t, "reset")}
		switch x.Kind {
		case "idle":
			x.Times = pick(t, "times", 1, 3, 20, 70, 140, 260)
		case "partial":
			x.Req, x.Cut = rapid.IntRange(0, rawKinds-1).Draw(t, "req"), rapid.IntRange(1, 1<<12).Draw(t, "cut")
			x.Times = pick(t, "times", 1, 1, 3, 20, 70)
		case "noise":
			x.Noise = rapid.SliceOfN(rapid.Byte(), 1, 30).Draw(t, "noise")
			x.Times = pick(t, "times", 1, 3, 20)
		case "unread":
			x.Req = rapid.IntRange(12, 15).Draw(t, "req")
			x.Times = pick(t, "times", 1, 3, 20)
		case "unreadBig":
			x.Times = pick(t, "times", 1, 2, 3)
		}
		return x
	}), 1, 6).Draw(t, "conns")
	c.Ops = rapid.SliceOfN(rapid.SampledFrom([]string{"add", "add", "len", "lookup", "drainU", "drainO", "split", "merge", "vec", "expire", "trim", "names", "meta"}), 1, 12).Draw(t, "ops")
	return c
}

// a recorded lookup of everything, which keeps the points
var bigLookup = sync.OnceValues(func() ([]byte, error) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	defer ln.Close()
	go rpc.KMeansClient(ln.Addr().String(), "raw", nil).KNNLookup([]float64{1, 2, 3}, 1000, false)
	conn, err := ln.Accept()
	if err != nil {
		return nil, err
	}
	defer conn.Close()
	conn.SetReadDeadline(time.Now().Add(200 * time.Millisecond))
	b, _ := io.ReadAll(conn)
	return b, nil
})

func runCrowd(x *X, c crowdCase) {
	reqs, err := rawRequests()
	if err != nil {
		x.Env(err)
	}
	big, err := bigLookup()
	if err != nil {
		x.Env(err)
	}
	n := poolNodes(x, 1, nodeCfg{c.Euc, c.Threshold})[0]
	held := map[string]bool{}
	next := 0
	point := func() DataPoint {
		next++
		p := make([]byte, c.Pay)
		p = append(p, fmt.Sprintf("|%d", next)...)
		return DataPoint{Vec: []float64{1, float64(next), float64(next % 3)}, Payload: p}
	}
	key := func(p []byte) string { return string(p[bytes.LastIndexByte(p, '|')+1:]) }
	for i := 0; i < c.Points; i++ {
		var ok bool
		dp := point()
		n.srv.AddDataPoint(rpc.AddDataPointArgs{NameSpace: "raw", DP: dp}, &ok)
		if !ok {
			x.Failf("add refused")
		}
		held[key(dp.Payload)] = true
	}
	var conns []*net.TCPConn
	var resets []bool
	defer func() {
		for _, k := range conns {
			k.Close()
		}
	}()
	for _, k := range c.Conns {
		var b []byte
		switch k.Kind {
		case "partial":
			r := reqs[k.Req]
			if len(r) > 1 {
				b = r[:1+k.Cut%(len(r)-1)]
			}
		case "noise":
			b = k.Noise
		case "unread":
			b = reqs[k.Req]
		case "unreadBig":
			b = big
		}
		for i := 0; i < k.Times; i++ {
			conn, err := net.Dial("tcp", n.addr)
			if err != nil {
				x.Env(err)
			}
			conns = append(conns, conn.(*net.TCPConn))
			resets = append(resets, k.Reset)
			if len(b) > 0 {
				conn.SetWriteDeadline(time.Now().Add(20 * time.Second))
				conn.Write(b)
			}
		}
	}
	x.Tracef("%d connections open", len(conns))
	if len(conns) > 30 {
		x.Label("more than 30 connections")
	}
	check := func(what string, err error) {
		if err != nil {
			if netTrouble(err) {
				x.Env(err)
			}
			x.Failf("%s: %v", what, err)
		}
	}
	take := func(what string, ps []DataPoint, drained bool) {
		seen := map[string]bool{}
		for _, p := range ps {
			k := key(p.Payload)
			if !held[k] || seen[k] {
				x.Failf("%s: returned point %q, held %v", what, k, held)
			}
			seen[k] = true
			if drained {
				delete(held, k)
			}
		}
	}
	probe(x, fmt.Sprintf("with %d stalled connections", len(conns)), n, 0)
	for i, op := range c.Ops {
		what := fmt.Sprintf("with %d stalled connections: step %d %s", len(conns), i, op)
		var err error
		cl := rpc.KMeansClient(n.addr, "raw", &err)
		call(x, what, func() {
			switch op {
			case "add":
				dp := point()
				ok := cl.AddDataPoint(dp)
				check(what, err)
				if !ok {
					x.Failf("%s: refused", what)
				}
				held[key(dp.Payload)] = true
			case "len":
				l := cl.LenDP()
				check(what, err)
				if l != len(held) {
					x.Failf("%s: %d, the node holds %d", what, l, len(held))
				}
			case "lookup":
				ps := cl.KNNLookup([]float64{1, 3, 1}, 2, false)
				check(what, err)
				take(what, ps, false)
				if len(held) > 0 && len(ps) == 0 {
					x.Failf("%s: nothing found among %d", what, len(held))
				}
			case "drainU":
				ps := cl.DrainUnordered(1)
				check(what, err)
				take(what, ps, true)
			case "drainO":
				ps := cl.DrainOrdered(2)
				check(what, err)
				take(what, ps, true)
			case "split":
				cl.SplitCentroids(2, 1<<30)
			case "merge":
				cl.MergeCentroids(0, 3)
			case "vec":
				cl.Vec()
			case "expire":
				cl.Expire()
			case "trim":
				cl.MemTrim()
			case "names":
				ns := cl.Namespaces()
				check(what, err)
				if !strings.Contains(strings.Join(ns, ","), "raw") {
					x.Failf("%s: %v", what, ns)
				}
			case "meta":
				cl.Meta()
			}
			check(what, err)
		})
	}
	for i, k := range conns {
		if resets[i] {
			k.SetLinger(0)
		}
		k.Close()
	}
	probe(x, fmt.Sprintf("after %d stalled connections went away", len(conns)), n, 1)
	call(x, "afterwards", func() {
		var err error
		l := rpc.KMeansClient(n.addr, "raw", &err).LenDP()
		check("afterwards", err)
		if l != len(held) {
			x.Failf("after %d stalled connections went away: the node holds %d points instead of %d", len(conns), l, len(held))
		}
	})
	for _, k := range c.Conns {
		x.Label(k.Kind)
		if k.Kind != "idle" || k.Times > 1 {
			x.NonTrivial()
		}
	}
}

// ---- A02: the same in front of the API --------------------------------------------------------

type stallConn struct {
	Kind  string `json:"kind"` // idle, header, body
	Put   bool   `json:"put"`
	Cut   int    `json:"cut"`
	Times int    `json:"times"`
	// in the end: go on and complete the request, or close
	Complete bool `json:"complete"`
}

type stallCase struct {
	Threshold int         `json:"threshold"`
	Points    int         `json:"points"`
	Conns     []stallConn `json:"conns"`
	Ops       []bool      `json:"ops"` // puts and queries meanwhile
	Accurate  bool        `json:"accurate"`
}

func genStall(t *rapid.T) stallCase {
	c := stallCase{Threshold: pick(t, "threshold", 2, 5, 100), Points: rapid.IntRange(0, 6).Draw(t, "points"), Accurate: rapid.Bool().Draw(t, "accurate")}
	c.Conns = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) stallConn {
		return stallConn{Kind: pick(t, "kind", "idle", "header", "body", "body"), Put: rapid.IntRange(0, 3).Draw(t, "put") > 0, Cut: rapid.IntRange(0, 1<<10).Draw(t, "cut"),
			Times: pick(t, "times", 1, 1, 2, 5, 20), Complete: rapid.Bool().Draw(t, "complete")}
	}), 1, 5).Draw(t, "conns")
	c.Ops = rapid.SliceOfN(rapid.Bool(), 1, 6).Draw(t, "ops")
	return c
}

func runStall(x *X, c stallCase) {
	ns := poolNodes(x, apiNodes, nodeCfg{false, c.Threshold})
	for k := range ns {
		apiProxies[k].set(ns[k].addr, nil, 0)
	}
	base := apiAt(x)
	host := strings.TrimPrefix(base, "http://")
	held := map[string]bool{}
	next := 0
	body := func(put bool) (path, body, key string) {
		if put {
			next++
			key = fmt.Sprint(next)
			b, _ := json.Marshal(jsonPut{"s", c.Accurate, jsonDP{Vec: []float64{1, float64(next)}, Payload: []byte(key)}})
			return "/api/dp/put", string(b), key
		}
		b, _ := json.Marshal(jsonQuery{"s", c.Accurate, []float64{1, 2}, 1000, false})
		return "/api/dp/query", string(b), ""
	}
	do := func(what string, put bool) {
		path, b, key := body(put)
		call(x, what, func() {
			r, err := apiClient.Post(base+path, "application/json", strings.NewReader(b))
			if err != nil {
				if netTrouble(err) {
					x.Env(err)
				}
				x.Failf("%s: no answer from the API: %v", what, err)
			}
			got, _ := io.ReadAll(r.Body)
			r.Body.Close()
			if r.StatusCode != 200 {
				x.Failf("%s: status %d", what, r.StatusCode)
			}
			if put {
				held[key] = true
				return
			}
			seen := map[string]bool{}
			for _, d := range parseDPs(x, what, string(got)) {
				k := string(d.Payload)
				if !held[k] || seen[k] {
					x.Failf("%s: returned point %q (held %v)", what, k, held)
				}
				seen[k] = true
			}
			if len(held) > 0 && len(seen) == 0 {
				x.Failf("%s: nothing found among %d points", what, len(held))
			}
		})
	}
	for i := 0; i < c.Points; i++ {
		do("first puts", true)
	}
	type open struct {
		conn *net.TCPConn
		k    stallConn
		rest string
		key  string
	}
	var conns []open
	defer func() {
		for _, o := range conns {
			o.conn.Close()
		}
	}()
	for _, k := range c.Conns {
		for i := 0; i < k.Times; i++ {
			conn, err := net.Dial("tcp", host)
			if err != nil {
				x.Env(err)
			}
			path, b, key := body(k.Put)
			head := fmt.Sprintf("POST %s HTTP/1.1\r\nHost: %s\r\nContent-Type: application/json\r\nContent-Length: %d\r\nConnection: close\r\n\r\n", path, host, len(b))
			cut := 0
			switch k.Kind {
			case "header":
				cut = 1 + k.Cut%(len(head)-1)
			case "body":
				cut = len(head) + k.Cut%len(b)
			}
			conn.SetDeadline(time.Now().Add(50 * time.Second))
			io.WriteString(conn, (head + b)[:cut])
			conns = append(conns, open{conn.(*net.TCPConn), k, (head + b)[cut:], key})
			x.Label(k.Kind)
		}
	}
	for i, put := range c.Ops {
		do(fmt.Sprintf("with %d stalled requests: step %d put=%v", len(conns), i, put), put)
	}
	for i, o := range conns {
		if !o.k.Complete {
			o.conn.Close()
			x.Label("abandoned")
			continue
		}
		what := fmt.Sprintf("request %d of %d, put=%v, sent in two parts (%s)", i, len(conns), o.k.Put, o.k.Kind)
		call(x, what, func() {
			io.WriteString(o.conn, o.rest)
			r, err := http.ReadResponse(bufio.NewReader(o.conn), nil)
			if err != nil {
				if netTrouble(err) {
					x.Env(err)
				}
				x.Failf("%s: no answer: %v", what, err)
			}
			io.Copy(io.Discard, r.Body)
			if r.StatusCode != 200 {
				x.Failf("%s: status %d", what, r.StatusCode)
			}
			if o.k.Put {
				held[o.key] = true
			}
			o.conn.Close()
			x.Label("completed")
			x.NonTrivial()
		})
	}
	do("after the stalled requests", true)
	got := map[string]int{}
	for _, n := range ns {
		for name, sn := range n.state() {
			if name != "s" {
				x.Failf("a namespace %q nobody asked for", name)
			}
			for _, d := range sn.all() {
				got[string(d.Payload)]++
			}
		}
	}
	for k := range held {
		if got[k] != 1 {
			x.Failf("point %s, which was put, is there %d times", k, got[k])
		}
	}
	for k := range got {
		if !held[k] {
			x.Failf("point %s is there, its request was never completed", k)
		}
	}
}

func init() {
	reg(Facet{Prop: "R07", Name: "crowd", Quick: 1200, Thorough: 40000,
		Rule: "calls on a node while up to several hundred other connections stall: idle, in the middle of a request, after noise, or not reading their replies; non-trivial: not only a single idle connection"}, genCrowd, runCrowd)
	reg(Facet{Prop: "A02", Name: "stalled", Quick: 1600, Thorough: 40000, Setup: setupAPI,
		Rule: "requests to the API while others stall before, in or after their headers; some of these are completed later, the others abandoned; non-trivial: one is completed"}, genStall, runStall)
}
