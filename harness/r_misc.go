package h

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"os/exec"
	"sort"
	"sync"
	"syscall"
	"testing"
	"time"

	arpc "github.com/crunchypi/go-narb/apsa/rpc"
	"pgregory.net/rapid"

	"trypo/cfg"
	"trypo/core/api"
	"trypo/core/eventloop"
	"trypo/pkg/arbiter"
	"trypo/pkg/kmeans/centroid"
	"trypo/pkg/kmeans/centroidmanager"
	"trypo/pkg/kmeans/rpc"
)

// ---- K01: construction --------------------------------------------------------------------------

type buildCase struct {
	What      string    `json:"what"` // cluster, node, client, api, loop, listen, slot
	NoKNN     bool      `json:"noKNN"`
	NoKFN     bool      `json:"noKFN"`
	Euc       bool      `json:"euc"`
	Init      []float64 `json:"init"`
	Cap       int       `json:"cap"`
	Threshold int       `json:"threshold"`
	At        int       `json:"at"`
	Value     float64   `json:"value"`
	Names     []string  `json:"names"`
}

func genBuild(t *rapid.T) buildCase {
	c := buildCase{What: pick(t, "what", "cluster", "cluster", "cluster", "node", "node", "node", "api", "loop", "listen", "slot"),
		NoKNN: rapid.IntRange(0, 2).Draw(t, "noKNN") == 0, NoKFN: rapid.IntRange(0, 2).Draw(t, "noKFN") == 0, Euc: rapid.Bool().Draw(t, "euc"),
		Cap: pick(t, "cap", 0, 0, 1, 2, 10, 1000), Threshold: pick(t, "threshold", 0, 1, 5, -1, 1000), At: rapid.IntRange(0, 9).Draw(t, "at")}
	if rapid.IntRange(0, 5).Draw(t, "init?") > 0 {
		c.Init = genVec(t, rapid.IntRange(0, 6).Draw(t, "dim"), genStyle(t))
	}
	c.Value = rapid.Float64Range(-1e6, 1e6).Draw(t, "value")
	c.Names = rapid.SliceOfN(rapid.SampledFrom([]string{"", "a", "b", "a b", "\x00", "ü", "long-" + string(bytes.Repeat([]byte("x"), 300))}), 1, 4).Draw(t, "names")
	return c
}

var apiInUse sync.Once

func runBuild(x *X, c buildCase) {
	knn, kfn := knnOf(c.Euc), kfnOf(c.Euc)
	if c.NoKNN {
		knn = nil
	}
	if c.NoKFN {
		kfn = nil
	}
	init := append([]float64(nil), c.Init...)
	want := append([]float64(nil), c.Init...)
	holdsInit := func(vec func() []float64) {
		if !eqVec(vec(), want) {
			x.Failf("%s built with %v has vector %v", c.What, want, vec())
		}
		if len(init) > 0 {
			init[c.At%len(init)] = init[c.At%len(init)] + 1 + math.Abs(c.Value)
			if !eqVec(vec(), want) {
				x.Failf("the vector of the %s follows the caller's slice: %v, built with %v", c.What, vec(), want)
			}
			x.Label("caller's slice changed")
		}
	}
	switch c.What {
	case "cluster":
		ce, ok := centroid.NewCentroid(centroid.NewCentroidArgs{InitVec: init, InitCap: c.Cap, KNNSearchFunc: knn, KFNSearchFunc: kfn})
		if ok != (knn != nil && kfn != nil) {
			x.Failf("cluster with search functions %v %v: ok=%v", !c.NoKNN, !c.NoKFN, ok)
		}
		if ok {
			if ce.LenDP() != 0 {
				x.Failf("a new cluster holds %d points", ce.LenDP())
			}
			holdsInit(ce.Vec)
			v := append([]float64(nil), want...)
			if len(v) > 0 && !ce.AddDataPoint(DataPoint{Vec: v}) {
				x.Failf("a new cluster refuses a point of its dimension")
			}
			if ce.AddDataPoint(DataPoint{Vec: append(append([]float64(nil), v...), 1)}) {
				x.Failf("a new cluster accepts a point of another dimension")
			}
		}
	case "node":
		m, ok := centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{InitVec: init, InitCap: c.Cap, CentroidDPThreshold: c.Threshold, KNNSearchFunc: knn, KFNSearchFunc: kfn})
		if ok != (knn != nil && kfn != nil) {
			x.Failf("node with search functions %v %v: ok=%v", !c.NoKNN, !c.NoKFN, ok)
		}
		if ok {
			if m.LenDP() != 0 || len(m.Centroids) != 0 {
				x.Failf("a new node holds %d points in %d clusters", m.LenDP(), len(m.Centroids))
			}
			holdsInit(m.Vec)
		}
	case "api":
		refuse := func(what string, a api.APIConfig) {
			errc := make(chan error, 1)
			go func() {
				defer func() {
					if r := recover(); r != nil {
						errc <- nil
					}
				}()
				errc <- api.Start(a)
			}()
			select {
			case err := <-errc:
				if err == nil {
					x.Failf("API %s: no error", what)
				}
			case <-time.After(15 * time.Second):
				x.Failf("API %s: was started", what)
			}
		}
		refuse("without node addresses", api.APIConfig{Addr: toAddr("127.0.0.1:0"), ReadTimeout: time.Duration(c.Threshold) * time.Second, WriteTimeout: time.Duration(c.Cap) * time.Second})
		apiInUse.Do(func() {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				x.Env(err)
			}
			defer l.Close()
			out := os.Stdout
			os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
			defer func() { os.Stdout = out }()
			refuse("on an address in use", api.APIConfig{Addr: toAddr(l.Addr().String()), RPCAddrs: []api.Addr{toAddr(deadAddr())}})
		})
	case "loop":
		refused := func() (r bool) {
			defer func() { r = recover() != nil }()
			eventloop.EventLoop(nil)
			return false
		}()
		if !refused {
			x.Failf("a maintenance loop without configuration was started")
		}
	case "listen":
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			x.Env(err)
		}
		addr := l.Addr().String()
		s := rpc.NewKMeansServer(addr, func(vec []float64) *Manager { return newManager(x, c.Euc, vec, c.Threshold) })
		if _, err := rpc.StartListen(s); err == nil {
			x.Failf("a node was started on the address %s, which is in use", addr)
		}
		l.Close()
		bad := rpc.NewKMeansServer([]string{"127.0.0.1:99999", "not an address", "127.0.0.1:-1"}[c.At%3], s.CentroidManagerFactoryFunc)
		if _, err := rpc.StartListen(bad); err == nil {
			x.Failf("a node was started on an impossible address")
		}
		// the address is free now
		n, err := startNode()
		if err != nil {
			x.Env(err)
		}
		var e error
		if rpc.KMeansClient(n.addr, "a", &e).Namespaces(); e != nil {
			x.Failf("a new node does not answer: %v", e)
		}
		// nor does a second node share the address of a running one
		second := rpc.NewKMeansServer(n.addr, s.CentroidManagerFactoryFunc)
		if stop, err := rpc.StartListen(second); err == nil {
			stop()
			x.Failf("a second node was started on the address %s of a running node", n.addr)
		}
		if rpc.KMeansClient(n.addr, "a", &e).Namespaces(); e != nil {
			x.Failf("a node no longer answers after a second one was refused its address: %v", e)
		}
		n.stop()
		limit := time.Now().Add(10 * time.Second)
		for {
			e = nil
			rpc.KMeansClient(n.addr, "a", &e).Namespaces()
			if e != nil {
				break
			}
			if time.Now().After(limit) {
				x.Failf("a stopped node still answers")
			}
			time.Sleep(time.Millisecond)
		}
	case "slot":
		t := rpc.CManagerTable{}
		t.Reset()
		for _, n := range c.Names {
			if t.AddSlot(n, nil) || t.AddSlot(n, &rpc.CManagerSlot{}) {
				x.Failf("the namespace %q was added without a node behind it", n)
			}
			ran := false
			if t.Access(n, func(*Manager) { ran = true }) || ran {
				x.Failf("access to the missing namespace %q succeeded", n)
			}
		}
		if len(t.Namespaces()) != 0 {
			x.Failf("namespaces %q exist although none was added", t.Namespaces())
		}
	}
	x.NonTrivial()
	x.Label(c.What)
}

// ---- B01: arbitration ------------------------------------------------------------------------------

type arbMember struct {
	IP, Port string
	Err      int
	Status   int
}

type arbCase struct {
	Members []arbMember `json:"members"`
	Ask     int         `json:"ask"`
}

func genArb(t *rapid.T) arbCase {
	style := rapid.IntRange(0, 3).Draw(t, "style")
	base := rapid.IntRange(0, 11).Draw(t, "base")
	most := 8
	if rare(t, "many", 6) {
		most = 300
	}
	m := rapid.Custom(func(t *rapid.T) arbMember {
		a := arbMember{IP: pick(t, "ip", "localhost", "127.0.0.1", "", "::1", "a.b"), Port: fmt.Sprint(rapid.IntRange(0, 30*most/8).Draw(t, "port")), Status: base}
		if style == 0 || rapid.IntRange(0, 7).Draw(t, "err?") == 0 {
			a.Err = rapid.IntRange(0, 3).Draw(t, "err")
		}
		if style == 1 || rapid.IntRange(0, 9).Draw(t, "status?") == 0 {
			a.Status = rapid.IntRange(0, 11).Draw(t, "status")
		}
		return a
	})
	c := arbCase{Members: rapid.SliceOfN(m, 0, most).Draw(t, "members"), Ask: base}
	if rapid.IntRange(0, 3).Draw(t, "ask?") == 0 {
		c.Ask = rapid.IntRange(0, 11).Draw(t, "ask")
	}
	return c
}

func runArb(x *X, c arbCase) {
	es := arbiter.ArbErrs{}
	ss := arbiter.ArbStats{}
	for _, m := range c.Members {
		a := arbiter.Addr{IP: m.IP, Port: m.Port}
		es[a] = nil
		if m.Err > 0 {
			es[a] = fmt.Errorf("error %d of %s", m.Err, a.ToStr())
		}
		ss[a] = arbiter.StatusCode(m.Status)
	}
	anyErr, uniform := false, true
	for _, e := range es {
		anyErr = anyErr || e != nil
	}
	for _, s := range ss {
		uniform = uniform && s == arbiter.StatusCode(c.Ask)
	}
	a, err := es.CheckAll()
	if (err != nil) != anyErr {
		x.Failf("CheckAll of %v reports %v", es, err)
	}
	if err != nil && es[a] != err {
		x.Failf("CheckAll of %v reports %v for %v", es, err, a)
	}
	if err == nil && a != (arbiter.Addr{}) {
		x.Failf("CheckAll without errors names %v", a)
	}
	if got := ss.UniformStatus(arbiter.StatusCode(c.Ask)); got != uniform {
		x.Failf("UniformStatus(%d) of %v is %v", c.Ask, ss, got)
	}
	if len(es) >= 2 {
		x.NonTrivial()
	}
	if anyErr {
		x.Label("an error")
	}
	if uniform {
		x.Label("uniform")
	}
}

type memberCase struct {
	White   []int `json:"white"`
	Local   int   `json:"local"`
	Opt     []int `json:"opt"`
	Session int   `json:"session"` // seconds
	Arbiter int   `json:"arbiter"`
	T1      int   `json:"t1"` // seconds until the vote
	T2      int   `json:"t2"` // seconds until the arbiter is asked for
	Server  bool  `json:"server"`
}

func genMember(t *rapid.T) memberCase {
	c := memberCase{Local: rapid.IntRange(0, 4).Draw(t, "local"), Server: rapid.Bool().Draw(t, "server"),
		Session: rapid.IntRange(0, 20).Draw(t, "session"), Arbiter: rapid.IntRange(0, 20).Draw(t, "arbiter"), T1: rapid.IntRange(0, 25).Draw(t, "t1"), T2: rapid.IntRange(0, 25).Draw(t, "t2")}
	c.White = rapid.SliceOfNDistinct(rapid.IntRange(0, 5), 0, 5, func(i int) int { return i }).Draw(t, "white")
	if rapid.IntRange(0, 2).Draw(t, "single") > 0 {
		c.White = append(c.White, c.Local)
		c.Opt = []int{c.Local}
	} else {
		c.Opt = rapid.SliceOfNDistinct(rapid.IntRange(0, 5), 1, 3, func(i int) int { return i }).Draw(t, "opt")
	}
	return c
}

func runMember(x *X, c memberCase) {
	addr := func(i int) arbiter.Addr { return arbiter.Addr{IP: "member", Port: fmt.Sprint(i)} }
	conf := arbiter.NewSessionMemberConfig{LocalAddr: addr(c.Local), SessionDuration: time.Duration(c.Session) * time.Second, ArbiterDuration: time.Duration(c.Arbiter) * time.Second}
	white := map[int]bool{}
	for _, w := range c.White {
		conf.Whitelist = append(conf.Whitelist, addr(w))
		white[w] = true
	}
	var opt []arbiter.Addr
	allowed := true
	for _, o := range c.Opt {
		opt = append(opt, addr(o))
		allowed = allowed && white[o]
	}
	const id = "session"
	var initS, coll, arb, vote arbiter.StatusCode
	var votedFor, arbAddr arbiter.Addr
	single := len(c.Opt) == 1 && c.Opt[0] == c.Local
	if c.Server {
		s := arbiter.NewArbiterServer(conf)
		s.InitSession(arpc.InitSessionArgs{ID: id, VoteOpt: opt}, &initS)
		time.Sleep(time.Duration(c.T1)*time.Second + time.Millisecond)
		var v arpc.VoteResp
		s.Vote(id, &v)
		vote, votedFor = v.Status, v.Addr
		if single {
			s.CollectVotes(arpc.CollectVotesArg{SessionID: id, VoteOpt: opt}, &coll)
			time.Sleep(time.Duration(c.T2)*time.Second + time.Millisecond)
			var r arpc.ArbiterResp
			s.Arbiter(0, &r)
			arb, arbAddr = r.Status, r.Addr
		}
	} else {
		m := arbiter.NewSessionMember(conf)
		initS = m.InitSession(id, opt)
		time.Sleep(time.Duration(c.T1)*time.Second + time.Millisecond)
		votedFor, _, vote = m.Vote(id)
		if single {
			coll = m.CollectVotes(id, opt)
			time.Sleep(time.Duration(c.T2)*time.Second + time.Millisecond)
			d, st := m.Arbiter()
			arb, arbAddr = st, d.Addr
		}
	}
	if !allowed {
		if initS != arpc.StatusInvalidSessionMembers {
			x.Failf("session with %v started with status %v although the whitelist is %v", opt, initS, conf.Whitelist)
		}
		x.Label("not in the whitelist")
		return
	}
	if initS != arpc.StatusOK {
		x.Failf("session with %v and whitelist %v not started: status %v", opt, conf.Whitelist, initS)
	}
	x.NonTrivial()
	if c.T1 >= c.Session {
		if vote != arpc.StatusSessionExpired {
			x.Failf("vote after %ds in a session of %ds: status %v", c.T1, c.Session, vote)
		}
		x.Label("session expired")
	} else {
		ok := false
		for _, o := range opt {
			ok = ok || o == votedFor
		}
		if vote != arpc.StatusOK || !ok {
			x.Failf("vote after %ds in a session of %ds: status %v, for %v", c.T1, c.Session, vote, votedFor)
		}
	}
	if single {
		if coll != arpc.StatusOK {
			x.Failf("a session of the member alone (%v) ended with status %v", opt, coll)
		}
		if c.T2 >= c.Arbiter {
			if arb != arpc.StatusArbiterExpired {
				x.Failf("arbiter after %ds of %ds: status %v", c.T2, c.Arbiter, arb)
			}
			x.Label("arbiter expired")
		} else if arb != arpc.StatusOK || arbAddr != addr(c.Local) {
			x.Failf("arbiter after %ds of %ds: status %v, %v", c.T2, c.Arbiter, arb, arbAddr)
		}
	}
}

type netArbCase struct {
	N    int `json:"n"`
	Dead int `json:"dead"`
}

// One vote round has no winner with a fair chance, and the vendored module then
// gives up (a member whose own round failed refuses its vote to the others), so a
// network of new members gets up to 60 tries; each one fails with a chance of at
// most about a half.
func runNetArb(x *X, c netArbCase) {
	for try := 0; try < 60; try++ {
		if tryNetArb(x, c) {
			x.Label(fmt.Sprintf("try %d", min(try, 4)))
			return
		}
	}
	x.Failf("60 networks of %d new members found no arbiter", c.N)
}

func tryNetArb(x *X, c netArbCase) bool {
	var addrs []arbiter.Addr
	var stops []func()
	defer func() {
		for _, s := range stops {
			s()
		}
	}()
	for i := 0; i < c.N; i++ {
		a, err := freeAddr()
		if err != nil {
			x.Env(err)
		}
		addrs = append(addrs, toAddr(a))
	}
	dead := toAddr(deadAddr())
	white := append([]arbiter.Addr{}, addrs...)
	if c.Dead > 0 {
		white = append(white, dead)
	}
	for _, a := range addrs {
		s := arbiter.NewArbiterServer(arbiter.NewSessionMemberConfig{LocalAddr: a, Whitelist: white, SessionDuration: time.Minute, ArbiterDuration: time.Hour})
		stop, err := arpc.StartListen(s, a)
		if err != nil {
			x.Env(err)
		}
		stops = append(stops, stop)
	}
	es, ss := arbiter.ArbErrs{}, arbiter.ArbStats{}
	ok := arbiter.ArbiterClients(addrs, es, ss).TryForceNewArbiter(5)
	a, err := es.CheckAll()
	if err != nil {
		if netTrouble(err) {
			x.Env(err)
		}
		x.Failf("error of %v after a vote with all members reachable: %v", a, err)
	}
	if !ok {
		if ss.UniformStatus(arpc.StatusOK) {
			x.Failf("no arbiter, but every status is OK: %v", ss)
		}
		if c.N == 1 {
			x.Failf("a network of one member found no arbiter: %v", ss)
		}
		for a, st := range ss {
			if st != arpc.StatusOK && st != arpc.StatusFailedVoteConsensus && st != arpc.StatusFailedVoteCollection {
				x.Failf("%v: status %v after a vote with all members reachable and whitelisted", a, st)
			}
		}
		return false
	}
	r, agree := arbiter.ArbiterClients(addrs, es, ss).Arbiter()
	if !agree || !ss.UniformStatus(arpc.StatusOK) {
		x.Failf("%d members do not agree on the arbiter: %v", c.N, ss)
	}
	if !r.Addr.In(addrs) {
		x.Failf("the arbiter %v is no member of %v", r.Addr, addrs)
	}
	if c.Dead > 0 {
		arbiter.ArbiterClients(white, es, ss).Ping()
		a, err := es.CheckAll()
		if err == nil || a != dead {
			x.Failf("unreachable member %v: CheckAll reports %v for %v", dead, err, a)
		}
	}
	if c.N >= 2 {
		x.NonTrivial()
	}
	return true
}

// ---- V01: the shipped service -----------------------------------------------------------------------

const serviceRPC, serviceAPI = "localhost:3500", "localhost:3501"

type serviceProc struct {
	cmd   *exec.Cmd
	start time.Time
	out   *os.File
	done  chan struct{}
}

var svc *serviceProc

func stopService() {
	if svc == nil {
		return
	}
	svc.cmd.Process.Kill()
	<-svc.done
	svc.out.Close()
	svc = nil
}

// service returns a running service process of at most the given age.
func service(x *X, age time.Duration) *serviceProc {
	if svc != nil && time.Since(svc.start) < age {
		return svc
	}
	stopService()
	bin := os.Getenv("VH_SERVICE")
	if bin == "" {
		x.Env(errors.New("VH_SERVICE not set"))
	}
	for try := 0; ; try++ {
		bad := ""
		for _, a := range []string{serviceRPC, serviceAPI} {
			l, err := net.Listen("tcp", a)
			if err != nil {
				bad = err.Error()
				continue
			}
			l.Close()
		}
		if bad == "" {
			break
		}
		if try > 150 {
			x.Env(errors.New("ports of the service are taken: " + bad))
		}
		time.Sleep(200 * time.Millisecond)
	}
	out, err := os.CreateTemp("", "service")
	if err != nil {
		x.Env(err)
	}
	os.Remove(out.Name())
	p := &serviceProc{cmd: exec.Command(bin), out: out, done: make(chan struct{})}
	p.cmd.Stdout, p.cmd.Stderr = out, out
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	p.start = time.Now()
	if err := p.cmd.Start(); err != nil {
		x.Env(err)
	}
	go func() { p.cmd.Wait(); close(p.done) }()
	svc = p
	for {
		up := true
		for _, a := range []string{serviceRPC, serviceAPI} {
			c, err := net.DialTimeout("tcp", a, time.Second)
			if err != nil {
				up = false
				break
			}
			c.Close()
		}
		if up {
			return p
		}
		if !p.alive() {
			x.Failf("the service ended at start: %s", p.log())
		}
		if time.Since(p.start) > 40*time.Second {
			x.Failf("the service does not listen on %s and %s: %s", serviceRPC, serviceAPI, p.log())
		}
		time.Sleep(5 * time.Millisecond)
	}
}

func (p *serviceProc) alive() bool {
	select {
	case <-p.done:
		return false
	default:
		return true
	}
}

func (p *serviceProc) log() string {
	b := make([]byte, 3000)
	n, _ := p.out.ReadAt(b, 0)
	return string(b[:n])
}

type VOp struct {
	Op    string    `json:"op"` // put, get
	Ns    int       `json:"ns"`
	P     PSpec     `json:"p,omitzero"`
	V     []float64 `json:"v,omitempty"`
	N     int       `json:"n,omitempty"`
	Acc   bool      `json:"acc,omitempty"`
	Drain bool      `json:"drain,omitempty"`
}

type svcCase struct {
	Dim int   `json:"dim"`
	Ops []VOp `json:"ops"`
	// maintenance facet
	Wait int `json:"wait,omitempty"` // seconds to leave the service to its maintenance
	Bulk int `json:"bulk,omitempty"` // further points
}

func genSvc(t *rapid.T) svcCase {
	c := svcCase{Dim: rapid.IntRange(1, 4).Draw(t, "dim")}
	st := genStyle(t)
	op := rapid.Custom(func(t *rapid.T) VOp {
		o := VOp{Op: pick(t, "op", "put", "put", "get"), Ns: pick(t, "ns", 0, 0, 0, 1), Acc: rapid.Bool().Draw(t, "acc")}
		if o.Op == "put" {
			o.P = PSpec{V: genVec(t, c.Dim, st), Pay: genPay(t)}
			switch rapid.IntRange(0, 5).Draw(t, "exp") {
			case 0:
				o.P.En, o.P.Ttl = true, int64(time.Hour)
				genYear(t, &o.P)
			case 1:
				o.P.En, o.P.Ttl = true, -int64(time.Hour)
			case 2:
				o.P.Ttl = -int64(time.Hour)
			}
		} else {
			o.V, o.N, o.Drain = genVec(t, c.Dim, st), pick(t, "n", 0, 1, 1, 2, 3, 5, 100, -1), rapid.IntRange(0, 2).Draw(t, "drain") == 0
		}
		return o
	})
	lo, hi := genLen(t, 40)
	c.Ops = rapid.SliceOfN(op, lo, hi).Draw(t, "ops")
	return c
}

func genSvcLong(t *rapid.T) svcCase {
	c := genSvc(t)
	for i := range c.Ops {
		c.Ops[i].Drain = false
	}
	c.Wait = pick(t, "wait", 57, 57, 57, 110)
	c.Bulk = pick(t, "bulk", 300, 700, 1500)
	return c
}

var svcSpace int

// model of what the service holds
type svcModel struct {
	pts map[string]map[int]DataPoint
}

func svcPost(x *X, what, path string, body any) (int, string) {
	b, _ := json.Marshal(body)
	r, err := apiClient.Post("http://"+serviceAPI+path, "application/json", bytes.NewReader(b))
	if err != nil {
		if !svc.alive() {
			x.Failf("%s: the service died: %s", what, svc.log())
		}
		if netTrouble(err) {
			x.Env(err)
		}
		x.Failf("%s: no answer: %v", what, err)
	}
	defer r.Body.Close()
	rb, err := io.ReadAll(r.Body)
	if err != nil {
		x.Failf("%s: broken answer: %v", what, err)
	}
	return r.StatusCode, string(rb)
}

// svcOps runs requests; exact: results are judged exactly.
func svcOps(x *X, ops []VOp, prefix string, m *svcModel, reg *Registry) {
	for i, op := range ops {
		ns := fmt.Sprintf("%s-%d", prefix, op.Ns)
		if m.pts[ns] == nil {
			m.pts[ns] = map[int]DataPoint{}
		}
		what := fmt.Sprintf("request %d %s ns=%d n=%d drain=%v v=%v", i, op.Op, op.Ns, op.N, op.Drain, op.V)
		switch op.Op {
		case "put":
			id, dp := reg.add(op.P, time.Now())
			st, _ := svcPost(x, what, "/api/dp/put", jsonPut{ns, op.Acc, jsonDP{dp.Vec, dp.Payload, dp.Expires, dp.ExpireEnabled}})
			want := 200
			if isExpired(dp, time.Now()) {
				want = 500
			}
			if st != want {
				x.Failf("%s of %s: status %d, expected %d", what, showDP(dp), st, want)
			}
			if st == 200 {
				m.pts[ns][id] = dp
			}
		case "get":
			st, body := svcPost(x, what, "/api/dp/query", jsonQuery{ns, op.Acc, op.V, op.N, op.Drain})
			if st != 200 {
				x.Failf("%s: status %d", what, st)
			}
			var res []DataPoint
			if len(m.pts[ns]) > 0 || body != "null" {
				res = parseDPs(x, what, body)
			}
			svcJudge(x, what, m.pts[ns], res, op.V, op.N, true, reg)
			if op.Drain {
				for _, d := range res {
					delete(m.pts[ns], idOf(d))
				}
				x.Label("drained")
			}
			if len(res) >= 2 {
				x.NonTrivial()
			}
		}
	}
}

func svcJudge(x *X, what string, held map[int]DataPoint, res []DataPoint, q []float64, n int, ordered bool, reg *Registry) {
	if n < 0 {
		n = 0
	}
	if len(res) != min2(n, len(held)) {
		x.Failf("%s: %d points returned, %d are held", what, len(res), len(held))
	}
	seen := map[int]bool{}
	var rest []float64
	var scores []float64
	for _, d := range res {
		id := reg.verify(x, what, d)
		if _, ok := held[id]; !ok || seen[id] {
			x.Failf("%s: point %d is not held (any more) or was returned twice", what, id)
		}
		seen[id] = true
		scores = append(scores, goodness(false, q, d.Vec))
	}
	if !ordered {
		return
	}
	for id, d := range held {
		if !seen[id] {
			rest = append(rest, goodness(false, q, d.Vec))
		}
	}
	for i := 1; i < len(scores); i++ {
		if better(scores[i], scores[i-1]) {
			x.Failf("%s: a nearer point comes later (%v)", what, scores)
		}
	}
	if len(scores) > 0 && len(rest) > 0 {
		sort.Float64s(rest)
		if better(rest[len(rest)-1], scores[len(scores)-1]) {
			x.Failf("%s: a held point with similarity %v was left out, returned %v", what, rest[len(rest)-1], scores)
		}
	}
}

func runSvc(x *X, c svcCase) {
	for try := 0; ; try++ {
		p := service(x, 8*time.Second)
		svcSpace++
		y := &X{labels: map[string]int{}}
		m := &svcModel{pts: map[string]map[int]DataPoint{}}
		var r any
		func() {
			defer func() { r = recover() }()
			svcOps(y, c.Ops, fmt.Sprintf("s%d", svcSpace), m, &Registry{})
		}()
		if r != nil {
			// A verdict counts only if the maintenance had not begun to move data.
			if _, isV := r.(violation); isV && p.alive() && time.Since(p.start) > 12*time.Second && try < 3 {
				continue
			}
			stopService()
			panic(r)
		}
		x.nontrivial = y.nontrivial
		for k, v := range y.labels {
			x.labels[k] += v
		}
		return
	}
}

func runSvcLong(x *X, c svcCase) {
	p := service(x, 0)
	defer stopService()
	m := &svcModel{pts: map[string]map[int]DataPoint{}}
	reg := &Registry{}
	call(x, "requests", func() { svcOps(x, c.Ops, "m", m, reg) })
	call(x, "bulk", func() {
		ns := "m-bulk"
		m.pts[ns] = map[int]DataPoint{}
		for i := 0; i < c.Bulk; i++ {
			a := float64(i) * 0.7
			id, dp := reg.add(PSpec{V: []float64{math.Cos(a), math.Sin(a), float64(i%5) / 5}, En: i%7 == 0, Ttl: map[bool]int64{true: int64(time.Hour), false: 0}[i%7 == 0]}, time.Now())
			if i%11 == 3 {
				dp.ExpireEnabled, dp.Expires = true, time.Now().Add(8*time.Second)
				reg.pts[id] = dp
			}
			if st, _ := svcPost(x, "bulk put", "/api/dp/put", jsonPut{ns, i%2 == 0, jsonDP{dp.Vec, dp.Payload, dp.Expires, dp.ExpireEnabled}}); st != 200 {
				x.Failf("bulk put: status %d", st)
			}
			m.pts[ns][id] = dp
		}
	})
	for time.Since(p.start) < time.Duration(c.Wait)*time.Second {
		time.Sleep(200 * time.Millisecond)
		journalTouch()
		if !p.alive() {
			x.Failf("the service died during maintenance: %s", p.log())
		}
	}
	for ns, held := range m.pts {
		for id, d := range held {
			if isExpired(d, time.Now()) {
				delete(held, id)
			}
		}
		q := []float64{1, 1, 1, 1}[:c.Dim]
		if ns == "m-bulk" {
			q = []float64{1, 0, 0}
		}
		// A task may have points in its hands for a moment.
		limit := time.Now().Add(8 * time.Second)
		for {
			var r any
			func() {
				defer func() { r = recover() }()
				what := fmt.Sprintf("all of %q after %ds", ns, c.Wait)
				st, body := svcPost(x, what, "/api/dp/query", jsonQuery{ns, true, q, len(held) + 10, false})
				if st != 200 {
					x.Failf("%s: status %d", what, st)
				}
				var res []DataPoint
				if len(held) > 0 || body != "null" {
					res = parseDPs(x, what, body)
				}
				svcJudge(x, what, held, res, q, len(held)+10, false, reg)
			}()
			if r == nil {
				break
			}
			if time.Now().After(limit) {
				panic(r)
			}
			time.Sleep(50 * time.Millisecond)
		}
	}
	x.NonTrivial()
	if c.Wait > 100 {
		x.Label("two rounds of maintenance")
	}
}

// ---- configuration of the shipped service ----------------------------------------------------------

type cfgCase struct {
	Q  []float64   `json:"q"`
	Vs [][]float64 `json:"vs"`
	K  int         `json:"k"`
}

func genCfg(t *rapid.T) cfgCase {
	dim := rapid.IntRange(1, 4).Draw(t, "dim")
	st := genStyle(t)
	c := cfgCase{Q: genVec(t, dim, st), K: rapid.IntRange(1, 4).Draw(t, "k")}
	k := rapid.IntRange(0, 8).Draw(t, "vs")
	for i := 0; i < k; i++ {
		c.Vs = append(c.Vs, genVec(t, dim, st))
	}
	return c
}

func runCfg(x *X, c cfgCase) {
	in := false
	for _, a := range cfg.OtherAddrRPC {
		in = in || a == cfg.LocalAddrRPC
	}
	if !in {
		x.Failf("the network %v lacks the local node %v", cfg.OtherAddrRPC, cfg.LocalAddrRPC)
	}
	if cfg.LocalAddrAPI == cfg.LocalAddrRPC {
		x.Failf("API and node share the address %v", cfg.LocalAddrAPI)
	}
	if cfg.ELT.LocalAddr != cfg.LocalAddrRPC || fmt.Sprint(cfg.ELT.RemoteAddrs) != fmt.Sprint(cfg.OtherAddrRPC) {
		x.Failf("maintenance is configured for %v in %v, the node is %v in %v", cfg.ELT.LocalAddr, cfg.ELT.RemoteAddrs, cfg.LocalAddrRPC, cfg.OtherAddrRPC)
	}
	s := cfg.ELT.TaskSkip
	for i, k := range []int{s.Meta, s.Expire, s.MemTrim, s.MergeCentroids, s.SplitCentroids, s.DistributeDataPointsInternal, s.DistributeDataPointsFast, s.DistributeDataPointsAccurate, s.LoadBalancing} {
		if k < 1 || k > 1000 {
			x.Failf("task %s has interval %d", taskNames[i], k)
		}
	}
	if cfg.ELT.SplitCentroidsMin >= cfg.ELT.SplitCentroidsMax || cfg.ELT.MergeCentroidsMin >= cfg.ELT.MergeCentroidsMax || cfg.ELT.MergeCentroidsMax > cfg.ELT.SplitCentroidsMin {
		x.Failf("ranges of splitting (%d, %d) and merging (%d, %d)", cfg.ELT.SplitCentroidsMin, cfg.ELT.SplitCentroidsMax, cfg.ELT.MergeCentroidsMin, cfg.ELT.MergeCentroidsMax)
	}
	if cfg.KMEANS_INITCAP < 0 || cfg.KMEANS_CENTROID_DP_THRESHOLD < 1 {
		x.Failf("capacity %d, threshold %d", cfg.KMEANS_INITCAP, cfg.KMEANS_CENTROID_DP_THRESHOLD)
	}
	gen := func() VecGen {
		i := 0
		return func() ([]float64, bool) {
			i++
			if i > len(c.Vs) {
				return nil, false
			}
			return c.Vs[i-1], true
		}
	}
	near, far := make([]float64, len(c.Vs)), make([]float64, len(c.Vs))
	for i, v := range c.Vs {
		near[i] = goodness(false, c.Q, v)
		far[i] = -near[i]
	}
	checkRanked(x, "nearest search of the service", near, cfg.KNN_SEARCH_FUNC(c.Q, gen(), c.K), c.K, true)
	checkRanked(x, "furthest search of the service", far, cfg.KFN_SEARCH_FUNC(c.Q, gen(), c.K), c.K, true)
	if len(c.Vs) > c.K {
		x.NonTrivial()
	}
}

func init() {
	reg(Facet{Prop: "K01", Name: "construct", Quick: 60000, Thorough: 300000, Rule: "random configurations with and without each required part; every case is non-trivial"},
		genBuild, runBuild)
	reg(Facet{Prop: "B01", Name: "summaries", Quick: 40000, Thorough: 1000000, Rule: "random maps of members to errors and statuses; non-trivial: at least two members"},
		genArb, runArb)
	reg(Facet{Prop: "B01", Name: "member", Quick: 6000, Thorough: 100000, Bubble: true, Rule: "session members and servers under a fake clock; non-trivial: the session starts"},
		genMember, runMember)
	reg(Facet{Prop: "B01", Name: "network", Quick: 200, Thorough: 3000, Rule: "arbitration among 1-3 real servers; non-trivial: at least two"},
		func(t *rapid.T) netArbCase {
			return netArbCase{N: rapid.IntRange(1, 3).Draw(t, "n"), Dead: rapid.IntRange(0, 1).Draw(t, "dead")}
		}, runNetArb)
	reg(Facet{Prop: "V01", Name: "config", Quick: 3000, Thorough: 50000, Rule: "random searches with the configured functions, and consistency of the settings; non-trivial: a choice has to be made"},
		genCfg, runCfg)
	reg(Facet{Prop: "V01", Name: "service", Quick: 1500, Thorough: 30000, MaxShards: 1, Rule: "random request histories against the built service; non-trivial: a query returns at least two points",
		Setup: func(*testing.T) { stopService() }},
		genSvc, runSvc)
	reg(Facet{Prop: "V01", Name: "service-maintenance", Quick: 1, Thorough: 12, MaxShards: 1, Setup: func(*testing.T) { stopService() }, Rule: "data put into the built service survives one or two rounds of its maintenance; every case is non-trivial"},
		genSvcLong, runSvcLong)
}
