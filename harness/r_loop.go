package h

import (
	"fmt"
	"math"
	"net"
	nrpc "net/rpc"
	"sort"
	"sync"
	"time"

	"pgregory.net/rapid"

	"trypo/core/eventloop"
	"trypo/pkg/kmeans/rpc"
)

// ---- maintenance loops ---------------------------------------------------------------------

// The tasks of a maintenance loop, in their documented order.
const (
	kMeta = iota
	kExpire
	kTrim
	kMerge
	kSplit
	kInternal
	kFast
	kAccurate
	kBalance
	kTasks
	kLog = 100
)

var taskNames = []string{"meta", "expire", "memtrim", "merge", "split", "internal", "fast", "accurate", "balance"}

// LoopSpec is the configuration of a maintenance loop.
type LoopSpec struct {
	Skip      [kTasks]int `json:"skip"`
	FastN     int         `json:"fastN"`
	AccN      int         `json:"accN"`
	IntN      int         `json:"intN"`
	SplitLo   int         `json:"splitLo"`
	SplitHi   int         `json:"splitHi"`
	MergeLo   int         `json:"mergeLo"`
	MergeHi   int         `json:"mergeHi"`
	LocalOnly bool        `json:"localOnly"`
	Step      int         `json:"step,omitempty"` // microseconds
	Loop      int         `json:"loop,omitempty"`
}

func (l LoopSpec) config(local string, remotes []string, lg eventloop.Logger) *eventloop.EventLoopConfig {
	c := &eventloop.EventLoopConfig{
		LocalAddr:   toAddr(local),
		TimeoutLoop: time.Duration(l.Loop) * time.Microsecond,
		TimeoutStep: time.Duration(l.Step) * time.Microsecond,
		TaskSkip: eventloop.EventLoopTaskSkipConfig{
			Meta: l.Skip[kMeta], Expire: l.Skip[kExpire], MemTrim: l.Skip[kTrim], MergeCentroids: l.Skip[kMerge], SplitCentroids: l.Skip[kSplit],
			DistributeDataPointsInternal: l.Skip[kInternal], DistributeDataPointsFast: l.Skip[kFast], DistributeDataPointsAccurate: l.Skip[kAccurate],
			LoadBalancing: l.Skip[kBalance]},
		DistributeDataPointsFastN: l.FastN, DistributeDataPointsAccurateN: l.AccN, DistributeDataPointsInternalN: l.IntN,
		SplitCentroidsMin: l.SplitLo, SplitCentroidsMax: l.SplitHi, MergeCentroidsMin: l.MergeLo, MergeCentroidsMax: l.MergeHi,
		LogLocalOnly: l.LocalOnly, L: lg,
	}
	for _, a := range remotes {
		c.RemoteAddrs = append(c.RemoteAddrs, toAddr(a))
	}
	return c
}

// runs tells how often a task with the interval runs in n iterations.
func runs(interval, n int) int {
	if interval > 1000 {
		return 0
	}
	if interval < 1 {
		interval = 1
	}
	return (n + interval - 1) / interval
}

// tapLogger hands the calls of a loop to functions; they run in the loop.
type tapLogger struct {
	meta func(eventloop.MetaData)
	task func(string)
}

func (l *tapLogger) LogTask(s string) {
	if l.task != nil {
		l.task(s)
	}
}

func (l *tapLogger) LogMeta(m eventloop.MetaData) {
	if l.meta != nil {
		l.meta(m)
	}
}

// waitLoop waits for a loop to reach its end point.
func waitLoop(what string, done chan struct{}) {
	select {
	case <-done:
	case <-time.After(40 * time.Second):
		hung(what + ": the maintenance loop came to a halt")
	}
}

// ---- recording stub nodes ----------------------------------------------------------------------

// Mirrors of the request types, matched by field names on the wire.
type (
	stubDistrib struct {
		NameSpace   string
		N           int
		AddrOptions []string
	}
	stubRange struct {
		NameSpace              string
		DPRangeMin, DPRangeMax int
	}
	StubSteal struct {
		FromAddr        string
		NameSpace       string
		TransferDPLimit int
	}
	StubStealResp struct {
		TransferredN int
		OK           bool
	}
	StubMeta struct {
		Centroids map[string]int
		DPs       map[string]int
	}
	StubDistrib stubDistrib
	StubRange   stubRange
)

// rcall is a request which asks a node to do something.
type rcall struct {
	kind int
	stub int
	ns   string
	args string
}

// stubNet is a set of stub nodes which record what they are told to do.
type stubNet struct {
	mu    sync.Mutex
	stubs []*stub
	ours  map[string]bool // namespaces of this case
	calls []rcall
	// hook runs before a request is recorded, in the requester's time.
	hook  func(rcall)
	steal func(stub int, a StubSteal) (int, bool)
}

type stub struct {
	net   *stubNet
	i     int
	addr  string
	ln    net.Listener
	names []string
	lens  map[string]int
}

type stubAPI struct{ s *stub }

func newStubNet(x *X, k int) *stubNet {
	sn := &stubNet{ours: map[string]bool{}}
	for i := 0; i < k; i++ {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			x.Env(err)
		}
		s := &stub{net: sn, i: i, addr: ln.Addr().String(), ln: ln, lens: map[string]int{}}
		sn.stubs = append(sn.stubs, s)
		srv := nrpc.NewServer()
		srv.RegisterName("KMeansServer", &stubAPI{s})
		go func() {
			for {
				c, err := ln.Accept()
				if err != nil {
					return
				}
				go srv.ServeConn(c)
			}
		}()
		x.Defer(func() { ln.Close() })
	}
	return sn
}

func (a *stubAPI) record(kind int, ns, args string) {
	sn := a.s.net
	sn.mu.Lock()
	mine := sn.ours[ns]
	hook := sn.hook
	sn.mu.Unlock()
	if !mine {
		ns = "?" + ns
	}
	c := rcall{kind, a.s.i, ns, args}
	if hook != nil {
		hook(c)
	}
	sn.mu.Lock()
	sn.calls = append(sn.calls, c)
	sn.mu.Unlock()
}

func (a *stubAPI) Namespaces(_ int, r *[]string) error {
	*r = append([]string{}, a.s.names...)
	return nil
}
func (a *stubAPI) LenDP(ns string, r *int) error {
	n, ok := a.s.lens[ns]
	if !ok {
		return fmt.Errorf("namespace not found: '%v'", ns)
	}
	*r = n
	return nil
}
func (a *stubAPI) Meta(_ int, r *StubMeta) error {
	r.DPs, r.Centroids = map[string]int{}, map[string]int{}
	for _, ns := range a.s.names {
		r.DPs[ns], r.Centroids[ns] = a.s.lens[ns], 1
	}
	return nil
}
func (a *stubAPI) Expire(ns string, _ *int) error  { a.record(kExpire, ns, ""); return nil }
func (a *stubAPI) MemTrim(ns string, _ *int) error { a.record(kTrim, ns, ""); return nil }
func (a *stubAPI) MergeCentroids(g StubRange, _ *int) error {
	a.record(kMerge, g.NameSpace, fmt.Sprint(g.DPRangeMin, g.DPRangeMax))
	return nil
}
func (a *stubAPI) SplitCentroids(g StubRange, _ *int) error {
	a.record(kSplit, g.NameSpace, fmt.Sprint(g.DPRangeMin, g.DPRangeMax))
	return nil
}
func (a *stubAPI) DistributeDataPointsInternal(g StubDistrib, _ *int) error {
	a.record(kInternal, g.NameSpace, fmt.Sprint(g.N))
	return nil
}
func (a *stubAPI) DistributeDataPointsFast(g StubDistrib, _ *int) error {
	sort.Strings(g.AddrOptions)
	a.record(kFast, g.NameSpace, fmt.Sprint(g.N, g.AddrOptions))
	return nil
}
func (a *stubAPI) DistributeDataPointsAccurate(g StubDistrib, _ *int) error {
	sort.Strings(g.AddrOptions)
	a.record(kAccurate, g.NameSpace, fmt.Sprint(g.N, g.AddrOptions))
	return nil
}
func (a *stubAPI) StealCentroid(g StubSteal, r *StubStealResp) error {
	sn := a.s.net
	if sn.steal != nil {
		r.TransferredN, r.OK = sn.steal(a.s.i, g)
	}
	a.record(kBalance, g.NameSpace, g.FromAddr)
	return nil
}

// counts tells how often each task was asked for, per namespace.
func (sn *stubNet) counts() map[rcall]int {
	sn.mu.Lock()
	defer sn.mu.Unlock()
	m := map[rcall]int{}
	for _, c := range sn.calls {
		m[c]++
	}
	return m
}

var caseNo int

// names gives namespaces which no earlier case has used, so that requests
// started by an earlier loop cannot be taken for requests of this one.
func (sn *stubNet) space(i int) string {
	n := fmt.Sprintf("case%d-%s", caseNo, []string{"a", "", "b c", "d"}[i%4])
	if i >= 4 {
		n += fmt.Sprint(i)
	}
	sn.mu.Lock()
	sn.ours[n] = true
	sn.mu.Unlock()
	return n
}

// ---- E02: schedule and parameters -----------------------------------------------------------------

type schedCase struct {
	Loop   LoopSpec `json:"loop"`
	Clock  int      `json:"clock"` // task which runs on every iteration
	N      int      `json:"n"`     // iterations
	Local  []int    `json:"local"` // namespaces of the local node
	Peers  [][]int  `json:"peers"` // and of its peers
	Rich   int      `json:"rich"`  // peer holding much data, -1: none
	Dead   int      `json:"dead"`  // configured addresses nobody listens on
	NoSelf bool     `json:"noSelf"`
}

var intervals = []int{0, -1, -7, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 13, 20, 31, 500, 999, 1000, 1001, 1002, 5000, math.MaxInt, math.MinInt}

func genSpaces(t *rapid.T, min int) []int {
	k := rapid.IntRange(min, 3).Draw(t, "spaces")
	off := rapid.IntRange(0, 3).Draw(t, "first")
	var r []int
	for i := 0; i < k; i++ {
		r = append(r, (off+i)%4)
	}
	if rare(t, "manySpaces", 6) {
		for i := rapid.IntRange(4, 60).Draw(t, "more"); i >= 4; i-- {
			r = append(r, i)
		}
	}
	return r
}

func genLoopParams(t *rapid.T, l *LoopSpec, wild bool) {
	n := func(label string) int {
		if wild {
			return pick(t, label, 0, 1, 2, 5, 50, 100, 1000, 1000000, -1, math.MaxInt, math.MinInt)
		}
		return pick(t, label, 0, 1, 2, 3, 5, 10, 100)
	}
	l.FastN, l.AccN, l.IntN = n("fastN"), n("accN"), n("intN")
	l.SplitLo, l.SplitHi, l.MergeLo, l.MergeHi = n("splitLo"), n("splitHi"), n("mergeLo"), n("mergeHi")
	if !wild {
		l.SplitLo, l.SplitHi = pick(t, "splitLo", -1, 1, 2, 3, 5), pick(t, "splitHi", 2, 4, 10, 1000)
		l.MergeLo, l.MergeHi = pick(t, "mergeLo", -1, -1, 0, 1), pick(t, "mergeHi", 1, 2, 3, 5, 10, 1000)
	}
	l.LocalOnly = rapid.Bool().Draw(t, "localOnly")
}

func genSched(long bool) func(*rapid.T) schedCase {
	return func(t *rapid.T) schedCase {
		c := schedCase{Clock: pick(t, "clock", kMeta, kMeta, kFast, kAccurate), N: rapid.IntRange(1, 40).Draw(t, "n"), Rich: -1}
		for i := range c.Loop.Skip {
			c.Loop.Skip[i] = pick(t, "interval", intervals...)
		}
		genLoopParams(t, &c.Loop, true)
		min := 0
		if c.Clock != kMeta {
			min = 1
		}
		c.Local = genSpaces(t, min)
		k := rapid.IntRange(0, 3).Draw(t, "peers")
		if rare(t, "manyPeers", 6) && !long {
			k = rapid.IntRange(4, 25).Draw(t, "peers")
		}
		for i := 0; i < k; i++ {
			c.Peers = append(c.Peers, genSpaces(t, 0))
		}
		if k > 0 {
			c.Rich = rapid.IntRange(-1, k-1).Draw(t, "rich")
		}
		c.Dead = pick(t, "dead", 0, 0, 0, 1, 2)
		c.NoSelf = rapid.IntRange(0, 9).Draw(t, "noSelf") == 0
		if long {
			c.N = rapid.IntRange(1001, 1040).Draw(t, "nLong")
			if rapid.IntRange(0, 4).Draw(t, "longer") == 0 {
				c.N = rapid.IntRange(1990, 2030).Draw(t, "nLonger")
			}
			c.Clock, c.Dead, c.Loop.LocalOnly = kMeta, 0, true
			c.Local = genSpaces(t, 1)[:1]
			c.Peers, c.Rich = c.Peers[:min2(len(c.Peers), 1)], min2(c.Rich, 0)
			for i := range c.Loop.Skip {
				c.Loop.Skip[i] = pick(t, "longInterval", 3, 7, 9, 11, 13, 17, 19, 100, 250, 333, 499, 500, 501, 777, 999, 1000, 1000, 1001, 1002, 1007, math.MaxInt)
			}
		}
		c.Loop.Skip[c.Clock] = pick(t, "clockInterval", 1, 1, 0, -3)
		if rapid.IntRange(0, 9).Draw(t, "pauses") == 0 && !long {
			c.Loop.Step, c.Loop.Loop = rapid.IntRange(0, 300).Draw(t, "step"), rapid.IntRange(0, 300).Draw(t, "loop")
		}
		return c
	}
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func runSched(x *X, c schedCase) {
	caseNo++
	sn := newStubNet(x, 1+len(c.Peers))
	fill := func(s *stub, spaces []int) {
		for _, i := range spaces {
			n := sn.space(i)
			s.names = append(s.names, n)
			s.lens[n] = 0
		}
	}
	local := sn.stubs[0]
	fill(local, c.Local)
	var remotes []string
	if !c.NoSelf {
		remotes = append(remotes, local.addr)
	}
	for i, sp := range c.Peers {
		p := sn.stubs[i+1]
		fill(p, sp)
		remotes = append(remotes, p.addr)
	}
	for i := 0; i < c.Dead; i++ {
		a := deadAddr()
		if i == 1 {
			a = "127.0.0.1:1"
		}
		remotes = append(remotes[:len(remotes)/2], append([]string{a}, remotes[len(remotes)/2:]...)...)
	}
	balanced := []string{}
	if c.Rich >= 0 {
		p := sn.stubs[c.Rich+1]
		for _, ns := range p.names {
			p.lens[ns] = 3000 * (len(remotes) + 1)
		}
		balanced = p.names
	}
	// what each task asks for
	holders := func(ns string) []string {
		r := []string{}
		for i, s := range sn.stubs {
			if i == 0 && c.NoSelf {
				continue
			}
			for _, n := range s.names {
				if n == ns {
					r = append(r, s.addr)
				}
			}
		}
		sort.Strings(r)
		return r
	}
	asks := func(kind int) (out []rcall) {
		l := c.Loop
		if kind == kBalance {
			for _, ns := range balanced {
				out = append(out, rcall{kind, 0, ns, sn.stubs[c.Rich+1].addr})
			}
			return
		}
		for _, ns := range local.names {
			arg := ""
			switch kind {
			case kMerge:
				arg = fmt.Sprint(l.MergeLo, l.MergeHi)
			case kSplit:
				arg = fmt.Sprint(l.SplitLo, l.SplitHi)
			case kInternal:
				arg = fmt.Sprint(l.IntN)
			case kFast:
				arg = fmt.Sprint(l.FastN, holders(ns))
			case kAccurate:
				arg = fmt.Sprint(l.AccN, holders(ns))
			}
			out = append(out, rcall{kind, 0, ns, arg})
		}
		return
	}
	want := func(tick int) map[rcall]int {
		// tick: number of iterations which reached the clock task before
		m := map[rcall]int{}
		for k := kExpire; k < kTasks; k++ {
			n := tick
			if k < c.Clock {
				n++
			}
			if r := runs(c.Loop.Skip[k], n); r > 0 {
				for _, a := range asks(k) {
					m[a] = r
				}
			}
		}
		return m
	}
	name := func(r rcall) string {
		return fmt.Sprintf("%s of %q at node %d %s", taskNames[r.kind], r.ns, r.stub, r.args)
	}
	metas, ticks, failed, ended := 0, 0, "", false
	done := make(chan struct{})
	var stop func()
	started := make(chan struct{})
	compare := func(tick int) string {
		w := want(tick)
		limit := time.Now().Add(30 * time.Second)
		for {
			g := sn.counts()
			short := ""
			for r, n := range g {
				if w[r] < n {
					return fmt.Sprintf("after %d iterations: %s asked for %d times, expected %d (interval %d)", tick, name(r), n, w[r], c.Loop.Skip[r.kind])
				}
			}
			for r, n := range w {
				if g[r] < n {
					short = fmt.Sprintf("after %d iterations: %s asked for %d times, expected %d (interval %d)", tick, name(r), g[r], n, c.Loop.Skip[r.kind])
				}
			}
			if short == "" {
				return ""
			}
			if time.Now().After(limit) {
				return short
			}
			time.Sleep(100 * time.Microsecond)
		}
	}
	tick := func() {
		if ended {
			return
		}
		<-started
		n := ticks
		ticks++
		if n <= 45 || n > c.N-3 || n%97 == 0 {
			failed = compare(n)
		}
		if failed == "" && c.Clock != kMeta {
			want := runs(c.Loop.Skip[kMeta], n+1)
			if metas != want {
				failed = fmt.Sprintf("in iteration %d: metadata reported %d times, expected %d (interval %d)", n, metas, want, c.Loop.Skip[kMeta])
			}
		}
		if failed != "" || n == c.N {
			ended = true
			stop()
			close(done)
		}
	}
	lg := &tapLogger{meta: func(m eventloop.MetaData) {
		if c.Clock == kMeta {
			tick()
		}
		metas++
	}}
	sn.hook = func(r rcall) {
		if r.kind == c.Clock && r.stub == 0 && len(local.names) > 0 && r.ns == local.names[0] {
			tick()
		}
	}
	stop = eventloop.EventLoop(c.Loop.config(local.addr, remotes, lg))
	close(started)
	waitLoop(fmt.Sprintf("clock %s", taskNames[c.Clock]), done)
	if failed != "" {
		x.Failf("%s (clock %s)", failed, taskNames[c.Clock])
	}
	x.NonTrivial()
	x.Label("clock=" + taskNames[c.Clock])
	if c.N > 1000 {
		x.Label("more than 1000 iterations")
	}
	if len(balanced) > 0 {
		x.Label("a peer is overloaded")
	}
	for _, s := range c.Loop.Skip {
		if s > 1000 {
			x.Label("a task is off")
		}
		if s < 1 {
			x.Label("an interval is below 1")
		}
	}
}

// ---- E03: load balancing ------------------------------------------------------------------------

// clearly tells whether a is clearly less (at least a fifth) than the mean b.
func clearlyLess(a int, mean float64) bool { return float64(a) <= 0.8*mean+1 }
func clearlyMore(a int, mean float64) bool { return float64(a) >= 1.2*mean-1 }

type balCase struct {
	Lens  [][]int `json:"lens"` // per node (0: local) and namespace; -1: no such namespace
	Over  int     `json:"over"` // points sent beyond the limit
	Fail  int     `json:"fail"` // every n-th steal fails, 0: none
	Dead  int     `json:"dead"`
	Steps int     `json:"steps"`
	Loop  int     `json:"loop"`
}

func genBalance(t *rapid.T) balCase {
	c := balCase{Over: pick(t, "over", 0, 0, 1, 10, 300), Fail: pick(t, "fail", 0, 0, 0, 1, 2), Dead: pick(t, "dead", 0, 0, 1, 2), Steps: rapid.IntRange(1, 3).Draw(t, "steps")}
	k := rapid.IntRange(1, 5).Draw(t, "nodes")
	s := rapid.IntRange(1, 3).Draw(t, "spaces")
	if rare(t, "many", 5) {
		k = rapid.IntRange(6, 25).Draw(t, "nodes")
		s = rapid.IntRange(1, 20).Draw(t, "spaces")
	}
	base := pick(t, "base", 10, 100, 1000, 100000)
	for i := 0; i < k; i++ {
		var l []int
		for j := 0; j < s; j++ {
			switch rapid.IntRange(0, 7).Draw(t, "kind") {
			case 0:
				l = append(l, -1)
			case 1, 2:
				l = append(l, 0)
			case 3, 4:
				l = append(l, base)
			case 5:
				l = append(l, base*rapid.IntRange(2, 10).Draw(t, "mult"))
			default:
				l = append(l, rapid.IntRange(0, base*3).Draw(t, "len"))
			}
		}
		c.Lens = append(c.Lens, l)
	}
	return c
}

func runBalance(x *X, c balCase) {
	caseNo++
	sn := newStubNet(x, len(c.Lens))
	var remotes []string
	byAddr := map[string]int{}
	spaces := []string{}
	for j := range c.Lens[0] {
		spaces = append(spaces, sn.space(j))
	}
	for i, s := range sn.stubs {
		for j, n := range c.Lens[i] {
			if n >= 0 {
				s.names = append(s.names, spaces[j])
				s.lens[spaces[j]] = n
			}
		}
		remotes = append(remotes, s.addr)
		byAddr[s.addr] = i
	}
	for i := 0; i < c.Dead; i++ {
		remotes = append([]string{[]string{deadAddr(), "127.0.0.1:1"}[i]}, remotes...)
	}
	type key struct {
		ns string
	}
	local := sn.stubs[0]
	var failed string
	bad := func(f string, a ...any) {
		if failed == "" {
			failed = fmt.Sprintf(f, a...)
		}
	}
	start := func() []map[string]int {
		var r []map[string]int
		for _, s := range sn.stubs {
			m := map[string]int{}
			for k, v := range s.lens {
				m[k] = v
			}
			r = append(r, m)
		}
		return r
	}
	before := start() // at the beginning of the step
	requests := map[string]int{}
	total := 0
	mean := func(ns string) (float64, int) {
		sum, n := 0, 0
		for _, m := range before {
			if v, ok := m[ns]; ok {
				sum += v
				n++
			}
		}
		return float64(sum) / math.Max(1, float64(n)), n
	}
	stealNo := 0
	from := map[string]bool{}
	sn.steal = func(at int, g StubSteal) (int, bool) {
		if failed != "" {
			return 0, false
		}
		k, known := byAddr[g.FromAddr]
		m, n := mean(g.NameSpace)
		what := fmt.Sprintf("steal of %d from node %d in %q with data %v", g.TransferDPLimit, k, g.NameSpace, show(before, g.NameSpace))
		if at != 0 || !known || k == 0 {
			bad("%s sent to node %d", what, at)
			return 0, false
		}
		if _, ok := before[k][g.NameSpace]; !ok {
			bad("%s: it has no such namespace", what)
			return 0, false
		}
		if from[g.NameSpace+g.FromAddr] {
			bad("%s: second request to it in a step", what)
		}
		from[g.NameSpace+g.FromAddr] = true
		have := local.lens[g.NameSpace]
		if !clearlyLess(have, m) {
			bad("%s: the local node already holds %d of mean %.1f", what, have, m)
		}
		if g.TransferDPLimit < 1 || float64(g.TransferDPLimit+have) > m+1 {
			bad("%s: limit does not fit %d points held and mean %.1f", what, have, m)
		}
		if n > 1 && !clearlyMore(before[k][g.NameSpace]-g.TransferDPLimit, m) {
			bad("%s: the source does not clearly exceed the mean %.1f afterwards", what, m)
		}
		requests[g.NameSpace]++
		total++
		stealNo++
		if c.Fail > 0 && stealNo%c.Fail == 0 {
			return 0, false
		}
		got := min2(g.TransferDPLimit+c.Over, sn.stubs[k].lens[g.NameSpace])
		sn.stubs[k].lens[g.NameSpace] -= got
		local.lens[g.NameSpace] += got
		if _, ok := before[0][g.NameSpace]; !ok && got > 0 {
			local.names = append(append([]string{}, local.names...), "") // replaced below
			local.names = local.names[:0:0]
			for ns := range local.lens {
				local.names = append(local.names, ns)
			}
		}
		return got, true
	}
	steps, ended := 0, false
	done, started := make(chan struct{}), make(chan struct{})
	var stop func()
	lg := &tapLogger{meta: func(eventloop.MetaData) {
		if ended {
			return
		}
		<-started
		if steps > 0 && failed == "" {
			for _, ns := range spaces {
				m, _ := mean(ns)
				need := false
				for k := 1; k < len(before); k++ {
					need = need || float64(before[k][ns]) > 2*m+1
				}
				if before[0][ns] == 0 && need && m >= float64(3*len(remotes)+1) && requests[ns] == 0 {
					bad("step %d moved nothing in %q although the node holds nothing: %v", steps, ns, show(before, ns))
				}
			}
		}
		if steps == c.Steps || failed != "" {
			ended = true
			stop()
			close(done)
			return
		}
		steps++
		before, requests, from = start(), map[string]int{}, map[string]bool{}
	}}
	l := LoopSpec{LocalOnly: true}
	for i := range l.Skip {
		l.Skip[i] = 1001
	}
	l.Skip[kMeta], l.Skip[kBalance] = 1, 1
	stop = eventloop.EventLoop(l.config(local.addr, remotes, lg))
	close(started)
	waitLoop("load balancing", done)
	if failed != "" {
		x.Failf("%s", failed)
	}
	for _, cl := range sn.counts0() {
		if cl.kind != kBalance {
			x.Failf("a task which is switched off ran: %s", taskNames[cl.kind])
		}
	}
	if total > 0 {
		x.NonTrivial()
	} else {
		x.Label("no need to move")
	}
	if total > 1 {
		x.Label("several requests")
	}
}

func (sn *stubNet) counts0() []rcall {
	sn.mu.Lock()
	defer sn.mu.Unlock()
	return append([]rcall{}, sn.calls...)
}

func show(b []map[string]int, ns string) string {
	r := ""
	for i, m := range b {
		if v, ok := m[ns]; ok {
			r += fmt.Sprintf(" node%d:%d", i, v)
		} else {
			r += fmt.Sprintf(" node%d:-", i)
		}
	}
	return r
}

// ---- E03 on real nodes ----------------------------------------------------------------------------

type balRealCase struct {
	Euc       bool    `json:"euc"`
	Threshold int     `json:"threshold"`
	Nodes     int     `json:"nodes"`
	Ops       []XOp   `json:"ops"`
	Counts    [][]int `json:"counts"` // points per node and cluster direction
	Dead      int     `json:"dead"`
	Steps     int     `json:"steps"`
}

func genBalReal(t *rapid.T) balRealCase {
	c := balRealCase{Euc: rapid.Bool().Draw(t, "euc"), Threshold: pick(t, "threshold", 2, 3, 4, 6), Nodes: rapid.IntRange(2, 4).Draw(t, "nodes"),
		Dead: pick(t, "dead", 0, 0, 1), Steps: rapid.IntRange(1, 3).Draw(t, "steps")}
	for i := 0; i < c.Nodes; i++ {
		var cs []int
		k := rapid.IntRange(0, 6).Draw(t, "clusters")
		for j := 0; j < k; j++ {
			cs = append(cs, pick(t, "size", 0, 1, 2, 5, 10, 20))
		}
		c.Counts = append(c.Counts, cs)
	}
	return c
}

func runBalReal(x *X, c balRealCase) {
	ns := poolNodes(x, c.Nodes, nodeCfg{c.Euc, c.Threshold})
	reg := &Registry{}
	now := time.Now()
	for i, cs := range c.Counts {
		n := ns[i]
		for j, k := range cs {
			var pts []DataPoint
			for p := 0; p < k; p++ {
				a := float64(j*7+p%3+i) / 5
				_, dp := reg.add(PSpec{V: []float64{10 * math.Cos(a), 10 * math.Sin(a), float64(p % 4)}}, now)
				pts = append(pts, dp)
			}
			if j == 0 {
				// creates the namespace
				var ok bool
				if len(pts) == 0 {
					continue
				}
				n.srv.AddDataPoint(rpc.AddDataPointArgs{NameSpace: mainNS, DP: pts[0]}, &ok)
				pts = pts[1:]
			}
			for _, d := range pts {
				var ok bool
				n.srv.AddDataPoint(rpc.AddDataPointArgs{NameSpace: mainNS, DP: d}, &ok)
			}
			n.srv.Table.Access(mainNS, func(m *Manager) {
				m.SplitCentroids(func(cl *Centroid) bool { return cl.LenDP() > 3 && len(m.Centroids) < 9 })
			})
		}
	}
	var remotes []string
	for _, n := range ns {
		remotes = append(remotes, n.addr)
	}
	if c.Dead > 0 {
		remotes = append(remotes, deadAddr())
	}
	snap := func() []state {
		var r []state
		for _, n := range ns {
			r = append(r, n.state())
		}
		return r
	}
	var hist [][]state
	done, started := make(chan struct{}), make(chan struct{})
	ended := false
	var stop func()
	lg := &tapLogger{meta: func(eventloop.MetaData) {
		if ended {
			return
		}
		<-started
		hist = append(hist, snap())
		if len(hist) == c.Steps+1 {
			ended = true
			stop()
			close(done)
		}
	}}
	l := LoopSpec{LocalOnly: true}
	for i := range l.Skip {
		l.Skip[i] = 1001
	}
	l.Skip[kMeta], l.Skip[kBalance] = 1, 1
	stop = eventloop.EventLoop(l.config(ns[0].addr, remotes, lg))
	close(started)
	waitLoop("load balancing", done)
	for i := 1; i < len(hist); i++ {
		b, a := hist[i-1], hist[i]
		what := fmt.Sprintf("step %d", i)
		x.Tracef("%s:%s  ==> %s", what, showAll(b), showAll(a))
		conserve(x, what, allIn(b), now, allIn(a))
		for _, d := range allIn(a) {
			reg.verify(x, what, d)
		}
		sum, holders := 0, 0
		for k := range b {
			if sn, ok := b[k][mainNS]; ok {
				sum += len(sn.all())
				holders++
			}
		}
		mean := float64(sum) / math.Max(1, float64(holders))
		sets := map[string]int{} // clusters of the peers before
		max, got := 0, 0
		for k := 1; k < len(b); k++ {
			lost := len(b[k][mainNS].all()) - len(a[k][mainNS].all())
			if lost < 0 {
				x.Failf("%s: peer %d received data", what, k)
			}
			got += lost
			if lost > max {
				max = lost
			}
			if lost > 0 && holders > 1 && !clearlyMore(len(b[k][mainNS].all()), mean) {
				x.Failf("%s: took %d of the %d points of node %d although the mean is %.1f", what, lost, len(b[k][mainNS].all()), k, mean)
			}
			left := map[string]int{}
			for _, cl := range b[k][mainNS].pts {
				sets[fmt.Sprint(sortedIDs(cl))]++
				left[fmt.Sprint(sortedIDs(cl))]++
			}
			for _, cl := range a[k][mainNS].pts {
				left[fmt.Sprint(sortedIDs(cl))]--
				if left[fmt.Sprint(sortedIDs(cl))] < 0 {
					x.Failf("%s: a cluster of peer %d changed", what, k)
				}
			}
		}
		for _, cl := range b[0][mainNS].pts {
			sets[fmt.Sprint(sortedIDs(cl))]++
		}
		for _, cl := range a[0][mainNS].pts {
			sets[fmt.Sprint(sortedIDs(cl))]--
			if sets[fmt.Sprint(sortedIDs(cl))] < 0 {
				x.Failf("%s: the local node now has a cluster %v which is no cluster of before", what, sortedIDs(cl))
			}
		}
		have := len(b[0][mainNS].all())
		if got > 0 && !clearlyLess(have+got-max, mean) {
			x.Failf("%s: local node had %d points and took %d although the mean is %.1f", what, have, got, mean)
		}
		if got > 0 {
			x.NonTrivial()
		}
		need := false
		for k := 1; k < len(b); k++ {
			need = need || float64(len(b[k][mainNS].all())) > 2*mean+1
		}
		if have == 0 && need && mean >= float64(3*len(remotes)+1) && got == 0 {
			x.Failf("%s: nothing moved although the local node holds nothing", what)
		}
	}
}

// ---- E04: stopping ------------------------------------------------------------------------------

type stopCase struct {
	Loop   LoopSpec `json:"loop"`
	Spaces int      `json:"spaces"`
	Rich   bool     `json:"rich"`
	Event  int      `json:"event"` // stop at the so many-th event of the loop
	Pause  bool     `json:"pause"` // stop in the pause after the event
	Delay  int      `json:"delay"` // microseconds after the event
	Stops  int      `json:"stops"`
	Second bool     `json:"second"`
}

func genStop(t *rapid.T) stopCase {
	c := stopCase{Spaces: pick(t, "spaces", 1, 1, 1, 2, 3), Rich: rapid.Bool().Draw(t, "rich"), Event: rapid.IntRange(1, 40).Draw(t, "event"),
		Stops: pick(t, "stops", 1, 1, 2, 3), Second: rapid.IntRange(0, 5).Draw(t, "second") == 0}
	for i := range c.Loop.Skip {
		c.Loop.Skip[i] = pick(t, "interval", 1, 1, 1, 1, 1, 2, 3, 1001)
	}
	c.Loop.Skip[kMeta] = 1
	genLoopParams(t, &c.Loop, true)
	c.Loop.LocalOnly = true
	if rapid.IntRange(0, 1).Draw(t, "pause") == 0 {
		c.Pause = true
		c.Spaces = 1
		c.Event = rapid.IntRange(1, 12).Draw(t, "pauseEvent")
		c.Delay = rapid.IntRange(0, 4000).Draw(t, "delay")
		c.Loop.Step = pick(t, "step", 6000, 8000)
		c.Loop.Loop = pick(t, "loop", 0, 6000)
	}
	return c
}

func runStop(x *X, c stopCase) {
	caseNo++
	type event struct{ kind int }
	var (
		mu      sync.Mutex
		events  []event
		stopped bool
		at      int
		stop    func()
		fired   = make(chan time.Time, 1)
		started = make(chan struct{})
	)
	doStop := func() {
		stop()
		for i := 1; i < c.Stops; i++ {
			stop()
		}
		mu.Lock()
		stopped, at = true, len(events)
		mu.Unlock()
	}
	on := func(kind int) {
		<-started
		mu.Lock()
		events = append(events, event{kind})
		n := len(events)
		mu.Unlock()
		if n == c.Event {
			if !c.Pause {
				doStop()
			}
			fired <- time.Now()
		}
	}
	build := func(on func(int)) (*stubNet, func()) {
		sn := newStubNet(x, 2)
		for i := 0; i < c.Spaces; i++ {
			ns := sn.space(i)
			for k, s := range sn.stubs {
				s.names = append(s.names, ns)
				s.lens[ns] = 0
				if k == 1 && c.Rich {
					s.lens[ns] = 5000
				}
			}
		}
		sn.hook = func(r rcall) {
			if r.ns[0] != '?' && (r.kind == kFast || r.kind == kAccurate || r.kind == kBalance) {
				on(r.kind)
			}
		}
		lg := &tapLogger{meta: func(eventloop.MetaData) { on(kMeta) }, task: func(string) { on(kLog) }}
		return sn, eventloop.EventLoop(c.Loop.config(sn.stubs[0].addr, []string{sn.stubs[0].addr, sn.stubs[1].addr}, lg))
	}
	var second struct {
		sync.Mutex
		n int
	}
	_, stop = build(on)
	if c.Second {
		_, stop2 := build(func(k int) {
			if k == kMeta {
				second.Lock()
				second.n++
				second.Unlock()
			}
		})
		x.Defer(func() { stop2(); time.Sleep(2 * time.Millisecond) })
	}
	close(started)
	var t0 time.Time
	select {
	case t0 = <-fired:
	case <-time.After(40 * time.Second):
		hung("the maintenance loop came to a halt")
	}
	if c.Pause {
		time.Sleep(time.Duration(c.Delay) * time.Microsecond)
		doStop()
		if time.Since(t0) >= time.Duration(c.Loop.Step)*time.Microsecond {
			x.Label("too late, not judged")
			return
		}
		time.Sleep(time.Duration(c.Loop.Step+c.Loop.Loop+4000) * time.Microsecond)
	} else {
		time.Sleep(6 * time.Millisecond)
	}
	mu.Lock()
	k := events[c.Event-1].kind
	after := append([]event{}, events[at:]...)
	before := append([]event{}, events[:at]...)
	ok := stopped
	mu.Unlock()
	if !ok {
		x.Env(fmt.Errorf("stop did not happen"))
	}
	if c.Pause && at > c.Event {
		k = before[at-1].kind
	}
	logs, metas := 0, 0
	sync := map[int]int{}
	for _, e := range after {
		switch e.kind {
		case kLog:
			logs++
		case kMeta:
			metas++
		default:
			sync[e.kind]++
		}
	}
	what := fmt.Sprintf("stopped at event %d (%s, in pause: %v), events afterwards:", c.Event, kindName(k), c.Pause)
	for _, e := range after {
		what += " " + kindName(e.kind)
	}
	switch {
	case metas > 0, k == kMeta && len(after) > 0:
		x.Failf("%s: a task was started", what)
	case len(sync) > 1, k != kLog && len(sync) == 1 && sync[k] == 0:
		x.Failf("%s: a further task was started", what)
	case k == kLog && logs > c.Spaces-1, logs > c.Spaces:
		x.Failf("%s: a further task was started", what)
	}
	for kk, n := range sync {
		if n > c.Spaces || k == kk && n > c.Spaces-1 {
			x.Failf("%s: task %s was started again", what, kindName(kk))
		}
	}
	if c.Second {
		second.Lock()
		n := second.n
		second.Unlock()
		limit := time.Now().Add(30 * time.Second)
		for {
			second.Lock()
			m := second.n
			second.Unlock()
			if m >= n+2 {
				break
			}
			if time.Now().After(limit) {
				x.Failf("another loop stopped as well")
			}
			time.Sleep(200 * time.Microsecond)
		}
		x.Label("another loop goes on")
	}
	x.NonTrivial()
	x.Label("stopped at " + kindName(k))
	if c.Pause {
		x.Label("in a pause")
	}
}

func kindName(k int) string {
	if k == kLog {
		return "log"
	}
	return taskNames[k]
}

// ---- E05: metadata --------------------------------------------------------------------------------

type metaCase struct {
	Nodes     int     `json:"nodes"`
	Threshold int     `json:"threshold"`
	Dead      int     `json:"dead"`
	LocalOnly bool    `json:"localOnly"`
	Ticks     [][]XOp `json:"ticks"`
	Via       []bool  `json:"via,omitempty"`  // nodes which can be made unreachable
	Down      [][]int `json:"down,omitempty"` // those which are, after each tick
}

func genMetaCase(t *rapid.T) metaCase {
	c := metaCase{Nodes: rapid.IntRange(1, 4).Draw(t, "nodes"), Threshold: pick(t, "threshold", 0, 2, 3, 4), Dead: pick(t, "dead", 0, 0, 1, 2), LocalOnly: rapid.IntRange(0, 2).Draw(t, "localOnly") == 0}
	spaces := 0
	if rare(t, "many", 5) {
		c.Nodes = rapid.IntRange(1, 20).Draw(t, "nodes")
		spaces = rapid.IntRange(0, 60).Draw(t, "spaces")
	}
	op := rapid.Custom(func(t *rapid.T) XOp {
		o := XOp{Op: pick(t, "op", "add", "add", "add", "add", "add", "empty", "trim", "split", "age", "restart"), Node: rapid.IntRange(0, c.Nodes-1).Draw(t, "node"), N: rapid.IntRange(0, 4).Draw(t, "n")}
		if o.Op == "add" {
			o.Other = rapid.IntRange(0, 2).Draw(t, "other") == 0
			if spaces > 0 && rapid.Bool().Draw(t, "further") {
				o.Space = rapid.IntRange(0, spaces).Draw(t, "space")
			}
			o.P = PSpec{V: genVec(t, 2, VecStyle{Kind: 0, Scale: 1})}
			if rapid.IntRange(0, 3).Draw(t, "exp") == 0 {
				o.P.En, o.P.Ttl = true, int64(time.Hour)
			}
		}
		return o
	})
	k := rapid.IntRange(1, 4).Draw(t, "ticks")
	for i := 0; i < k; i++ {
		c.Ticks = append(c.Ticks, rapid.SliceOfN(op, 0, 12+3*spaces).Draw(t, "ops"))
	}
	if rapid.Bool().Draw(t, "outages") {
		for i := 0; i < c.Nodes; i++ {
			c.Via = append(c.Via, rapid.Bool().Draw(t, "via"))
		}
		for range c.Ticks {
			var down []int
			for i, v := range c.Via {
				if v && rapid.IntRange(0, 2).Draw(t, "down") == 0 {
					down = append(down, i)
				}
			}
			c.Down = append(c.Down, down)
		}
	}
	return c
}

func runMeta(x *X, c metaCase) {
	ns := poolNodes(x, c.Nodes, nodeCfg{false, c.Threshold})
	reg := &Registry{}
	scale := 0.0
	var remotes []string
	px := proxies(x, len(c.Via))
	addr := make([]string, len(ns))
	for i, n := range ns {
		addr[i] = n.addr
		if i < len(c.Via) && c.Via[i] {
			px[i].set(n.addr, nil, 0)
			addr[i] = px[i].addr
		}
	}
	remotes = append(remotes, addr...)
	for i := 0; i < c.Dead; i++ {
		remotes = append([]string{[]string{deadAddr(), "127.0.0.1:1"}[i]}, remotes...)
	}
	type obs struct {
		m    eventloop.MetaData
		s    []state
		down map[int]bool
	}
	down := map[int]bool{}
	var all []obs
	now := time.Now()
	done, started := make(chan struct{}), make(chan struct{})
	ended := false
	var stop func()
	snap := func() []state {
		var r []state
		for _, n := range ns {
			r = append(r, n.state())
		}
		return r
	}
	lg := &tapLogger{meta: func(m eventloop.MetaData) {
		if ended {
			return
		}
		<-started
		all = append(all, obs{m, snap(), down})
		if len(all) > len(c.Ticks) {
			ended = true
			stop()
			close(done)
			return
		}
		for _, op := range c.Ticks[len(all)-1] {
			if op.Op == "restart" {
				ns[op.Node].srv.Table.Reset()
			}
			prepare(ns[op.Node], op, reg, now, &scale)
		}
		down = map[int]bool{}
		for i, v := range c.Via {
			if v {
				px[i].set(ns[i].addr, nil, 0)
			}
		}
		if len(c.Down) >= len(all) {
			for _, i := range c.Down[len(all)-1] {
				if i < len(c.Via) && c.Via[i] {
					down[i] = true
					px[i].set(ns[i].addr, []string{"*"}, 0)
				}
			}
		}
	}}
	l := LoopSpec{LocalOnly: c.LocalOnly}
	for i := range l.Skip {
		l.Skip[i] = 1001
	}
	l.Skip[kMeta] = 1
	stop = eventloop.EventLoop(l.config(addr[0], remotes, lg))
	close(started)
	waitLoop("metadata", done)
	nt := 0
	for i, o := range all {
		known := map[string]bool{}
		for k := range ns {
			if c.LocalOnly && k > 0 {
				continue
			}
			known[addr[k]] = true
			it, ok := o.m.Items[toAddr(addr[k])]
			if !ok {
				x.Failf("iteration %d: no metadata for node %d", i, k)
			}
			if o.down[k] {
				if len(it.LenDP)+len(it.LenCentroids) > 0 {
					x.Failf("iteration %d: metadata %v for node %d, which is not reachable now", i, it, k)
				}
				x.Label("outage")
				continue
			}
			if len(it.LenDP) != len(o.s[k]) || len(it.LenCentroids) != len(o.s[k]) {
				x.Failf("iteration %d: metadata of node %d has namespaces %v / %v, the node has %v", i, k, it.LenDP, it.LenCentroids, o.s[k].names())
			}
			for name, sn := range o.s[k] {
				if it.LenDP[name] != len(sn.all()) || it.LenCentroids[name] != len(sn.cl) {
					x.Failf("iteration %d: metadata of node %d, namespace %q: %d points in %d clusters, it holds %d in %d", i, k, name, it.LenDP[name], it.LenCentroids[name], len(sn.all()), len(sn.cl))
				}
				if len(sn.cl) > 1 {
					nt++
				}
			}
		}
		for a, it := range o.m.Items {
			if known[a.ToStr()] {
				continue
			}
			dead := false
			for _, r := range remotes[:c.Dead] {
				dead = dead || r == a.ToStr()
			}
			if !dead || c.LocalOnly || len(it.LenDP)+len(it.LenCentroids) > 0 {
				x.Failf("iteration %d: metadata %v for %s", i, it, a.ToStr())
			}
		}
	}
	if nt > 1 {
		x.NonTrivial()
	}
}

// ---- E01: real loops on real nodes ------------------------------------------------------------------

type maintCase struct {
	Euc       bool       `json:"euc"`
	Threshold int        `json:"threshold"`
	Loops     []LoopSpec `json:"loops"` // one per node
	N         []int      `json:"n"`     // iterations of each
	Dims      []int      `json:"dims"`  // per namespace
	Pre       []NPoint   `json:"pre"`
	Live      []NPoint   `json:"live"` // put while the loops run
	Dead      int        `json:"dead"`
	Mixed     bool       `json:"mixed,omitempty"` // the dimension differs between the nodes
}

// NPoint is a point for a node and namespace.
type NPoint struct {
	Node int   `json:"node"`
	Ns   int   `json:"ns"`
	P    PSpec `json:"p"`
	Wait int   `json:"wait,omitempty"`
}

func genMaint(t *rapid.T) maintCase {
	c := maintCase{Euc: rapid.Bool().Draw(t, "euc"), Threshold: pick(t, "threshold", 2, 3, 4, 6, 10), Dead: pick(t, "dead", 0, 0, 0, 1, 2)}
	k := rapid.IntRange(1, 4).Draw(t, "nodes")
	if rare(t, "manyNodes", 5) {
		k = rapid.IntRange(5, 10).Draw(t, "nodes")
	}
	for i := 0; i < k; i++ {
		var l LoopSpec
		all := rapid.IntRange(0, 2).Draw(t, "all") == 0
		for j := range l.Skip {
			l.Skip[j] = pick(t, "interval", 1, 1, 2, 3, 1001)
			if all {
				l.Skip[j] = 1
			}
		}
		l.Skip[kMeta] = 1
		genLoopParams(t, &l, false)
		c.Loops = append(c.Loops, l)
		c.N = append(c.N, rapid.IntRange(0, 6).Draw(t, "n"))
	}
	s := rapid.IntRange(1, 2).Draw(t, "spaces")
	st := VecStyle{Kind: pick(t, "kind", 0, 1, 4), Scale: 1}
	for i := 0; i < s; i++ {
		c.Dims = append(c.Dims, rapid.IntRange(1, 3).Draw(t, "dim"))
	}
	heavy := rapid.IntRange(-1, k-1).Draw(t, "heavy")
	// Nodes of different dimension in one namespace: one loop at a time, and no
	// tasks in the background (see DESIGN.md, not claimed).
	least := 0
	c.Mixed = k > 1 && rapid.IntRange(0, 5).Draw(t, "mixed") == 0
	if c.Mixed {
		active := rapid.IntRange(0, k-1).Draw(t, "active")
		for i := range c.Loops {
			if i != active {
				c.N[i] = 0
			}
			for j := range c.Loops[i].Skip {
				switch j {
				case kMeta, kFast, kAccurate, kBalance:
				default:
					c.Loops[i].Skip[j] = 1001
				}
			}
			c.Loops[i].Skip[kBalance] = 1
		}
		c.N[active] += 2
		if heavy < 0 || heavy == active {
			heavy = (active + 1) % k
		}
		least = 30
	}
	point := rapid.Custom(func(t *rapid.T) NPoint {
		p := NPoint{Node: rapid.IntRange(0, k-1).Draw(t, "node"), Ns: rapid.IntRange(0, s-1).Draw(t, "ns")}
		if heavy >= 0 && rapid.IntRange(0, 3).Draw(t, "heavy?") > 0 {
			p.Node = heavy
		}
		dim := c.Dims[p.Ns]
		if c.Mixed {
			dim += p.Node % 2
		}
		p.P = PSpec{V: genVec(t, dim, st), Pay: genPay(t)}
		switch rapid.IntRange(0, 9).Draw(t, "exp") {
		case 0:
			p.P.En, p.P.Ttl = true, int64(time.Hour)
		case 1:
			p.P.En, p.P.Ttl = true, int64(time.Microsecond) // expires in the course of things
		case 2:
			p.P.Ttl = -int64(time.Hour) // disabled
		}
		p.Wait = pick(t, "wait", 0, 0, 0, 100, 500)
		return p
	})
	c.Pre = rapid.SliceOfN(point, least, least+pick(t, "most", 10, 40, 90)).Draw(t, "pre")
	if !c.Mixed {
		c.Live = rapid.SliceOfN(point, 0, 8).Draw(t, "live")
	}
	return c
}

func runMaint(x *X, c maintCase) {
	ns := poolNodes(x, len(c.Loops), nodeCfg{c.Euc, c.Threshold})
	reg := &Registry{}
	names := []string{"first", "second"}
	type rec struct {
		dp DataPoint
		ns int
	}
	acked := map[int]rec{}
	put := func(p NPoint) {
		id, dp := reg.add(p.P, time.Now())
		var err error
		ok := rpc.KMeansClient(ns[p.Node].addr, names[p.Ns], &err).AddDataPoint(dp)
		if err != nil {
			if netTrouble(err) {
				x.Env(err)
			}
			x.Failf("put at node %d: %v", p.Node, err)
		}
		if ok {
			acked[id] = rec{dp, p.Ns}
		} else if !p.P.En || p.P.Ttl > int64(time.Second) {
			x.Failf("node %d refused %s", p.Node, showDP(dp))
		}
	}
	for _, p := range c.Pre {
		put(p)
	}
	var remotes []string
	for _, n := range ns {
		remotes = append(remotes, n.addr)
	}
	for i := 0; i < c.Dead; i++ {
		remotes = append([]string{[]string{deadAddr(), "127.0.0.1:1"}[i]}, remotes...)
	}
	var start []state
	for _, n := range ns {
		start = append(start, n.state())
	}
	var dones []chan struct{}
	for i := range c.Loops {
		done, started := make(chan struct{}), make(chan struct{})
		dones = append(dones, done)
		ticks, ended := 0, false
		var stop func()
		lg := &tapLogger{meta: func(eventloop.MetaData) {
			<-started
			if ended {
				return
			}
			if ticks == c.N[i] {
				ended = true
				stop()
				close(done)
			}
			ticks++
		}}
		stop = eventloop.EventLoop(c.Loops[i].config(ns[i].addr, remotes, lg))
		close(started)
	}
	call(x, "puts during maintenance", func() {
		for _, p := range c.Live {
			if p.Wait > 0 {
				time.Sleep(time.Duration(p.Wait) * time.Microsecond)
			}
			put(p)
		}
	})
	for i, d := range dones {
		waitLoop(fmt.Sprintf("loop of node %d", i), d)
	}
	// The requests started last may still be under way.
	moved := false
	judge := func() (msg string) {
		held := map[int]int{}
		for k, n := range ns {
			for name, sn := range n.state() {
				for _, d := range sn.all() {
					id := idOf(d)
					held[id]++
					r, ok := acked[id]
					if !ok {
						return fmt.Sprintf("node %d holds a point nobody put: %s", k, showDP(d))
					}
					if !sameDP(d, r.dp) {
						return fmt.Sprintf("point %d was changed: %s, put %s", id, showDP(d), showDP(r.dp))
					}
					if names[r.ns] != name {
						return fmt.Sprintf("point %d of namespace %q is in %q", id, names[r.ns], name)
					}
				}
			}
		}
		for id, r := range acked {
			if held[id] > 1 {
				return fmt.Sprintf("point %d is held %d times", id, held[id])
			}
			if held[id] == 0 && (!r.dp.ExpireEnabled || r.dp.Expires.After(time.Now().Add(time.Minute))) {
				return fmt.Sprintf("point %d got lost", id)
			}
		}
		return ""
	}
	limit := time.Now().Add(6 * time.Second)
	msg := judge()
	for msg != "" && time.Now().Before(limit) {
		time.Sleep(2 * time.Millisecond)
		msg = judge()
	}
	if msg != "" {
		x.Failf("%s", msg)
	}
	for k, n := range ns {
		now := n.state()
		for name := range now {
			b, ok := start[k][name]
			if !ok || fmt.Sprint(b.idSets()) != fmt.Sprint(now[name].idSets()) {
				moved = true
			}
		}
	}
	total := 0
	for _, n := range c.N {
		total += n
	}
	if moved && total > 0 && len(acked) >= 3 {
		x.NonTrivial()
	}
	if c.Dead > 0 {
		x.Label("peers unreachable")
	}
	if c.Mixed && moved {
		x.Label("clusters moved between nodes of different dimension")
	}
	x.Label(fmt.Sprintf("nodes=%d", len(c.Loops)))
}

func init() {
	reg(Facet{Prop: "E01", Name: "maintain", Quick: 3000, Thorough: 60000, Rule: "real loops with random tasks and parameters on 1-4 real nodes, with data put before and meanwhile; non-trivial: the clusters of some node changed"},
		genMaint, runMaint)
	reg(Facet{Prop: "E02", Name: "schedule", Quick: 3000, Thorough: 60000, Rule: "random intervals, parameters and peers, 1-40 iterations, against recording stub nodes; every case compares all requests with the schedule"},
		genSched(false), runSched)
	reg(Facet{Prop: "E02", Name: "long-schedule", Quick: 64, Thorough: 1000, Rule: "the same over 1001-2030 iterations"},
		genSched(true), runSched)
	reg(Facet{Prop: "E03", Name: "balance-requests", Quick: 8000, Thorough: 150000, Rule: "random distributions of data over stub nodes; non-trivial: the loop asks for data"},
		genBalance, runBalance)
	reg(Facet{Prop: "E03", Name: "balance", Quick: 4000, Thorough: 60000, Rule: "random distributions of clusters over real nodes; non-trivial: data moves"},
		genBalReal, runBalReal)
	reg(Facet{Prop: "E04", Name: "stop", Quick: 3000, Thorough: 50000, Rule: "stop at a random event of a loop or in the pause after it; every judged case is non-trivial"},
		genStop, runStop)
	reg(Facet{Prop: "E05", Name: "metadata", Quick: 6000, Thorough: 100000, Rule: "metadata seen by the logger against the state of real nodes; non-trivial: namespaces of several clusters"},
		genMetaCase, runMeta)
}
