package h

import (
	"fmt"
	"io"
	"log"
	"os"
	"regexp"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"

	"trypo/core/eventloop"
)

// ---- E06: the default logger ---------------------------------------------------------------

type logCase struct {
	Nodes     int     `json:"nodes"`
	Threshold int     `json:"threshold"`
	Dead      int     `json:"dead"`
	Local     int     `json:"local"` // position of the local node in the list of addresses
	LocalOnly bool    `json:"localOnly"`
	NoMeta    bool    `json:"noMeta"`
	Tasks     []int   `json:"tasks"`
	Phases    [][]XOp `json:"phases"`         // data put before each stretch of iterations
	Iters     int     `json:"iters"`          // iterations per stretch
	Via       []bool  `json:"via,omitempty"`  // nodes which can be made unreachable
	Down      [][]int `json:"down,omitempty"` // those which are, in each stretch
}

func genLog(t *rapid.T) logCase {
	c := logCase{Nodes: rapid.IntRange(1, 4).Draw(t, "nodes"), Threshold: pick(t, "threshold", 0, 2, 3), Dead: pick(t, "dead", 0, 0, 1), LocalOnly: rapid.Bool().Draw(t, "localOnly"),
		NoMeta: rapid.IntRange(0, 7).Draw(t, "noMeta") == 0, Iters: rapid.IntRange(2, 3).Draw(t, "iters")}
	if rare(t, "many", 8) {
		c.Nodes = rapid.IntRange(5, 12).Draw(t, "nodes")
	}
	c.Local = rapid.IntRange(0, c.Nodes-1+c.Dead).Draw(t, "local")
	for _, k := range []int{kExpire, kMerge, kSplit} {
		if rapid.Bool().Draw(t, "task") {
			c.Tasks = append(c.Tasks, k)
		}
	}
	if len(c.Tasks) == 0 {
		c.Tasks = []int{kExpire}
	}
	op := rapid.Custom(func(t *rapid.T) XOp {
		o := XOp{Op: pick(t, "op", "add", "add", "add", "add", "add", "add", "empty", "trim", "split", "restart"), Node: rapid.IntRange(0, c.Nodes-1).Draw(t, "node"), N: rapid.IntRange(0, 4).Draw(t, "n")}
		if o.Op == "add" {
			o.Other = rapid.IntRange(0, 3).Draw(t, "other") == 0
			o.P = PSpec{V: genVec(t, 2, VecStyle{Kind: 0, Scale: 1})}
		}
		return o
	})
	k := rapid.IntRange(1, 3).Draw(t, "phases")
	for i := 0; i < k; i++ {
		ops := rapid.SliceOfN(op, 0, 20).Draw(t, "ops")
		if i == 0 { // something to log about
			ops = append(ops, XOp{Op: "add", P: PSpec{V: []float64{1, 2}}})
		}
		c.Phases = append(c.Phases, ops)
	}
	if rapid.IntRange(0, 2).Draw(t, "outages") == 0 {
		for i := 0; i < c.Nodes; i++ {
			c.Via = append(c.Via, i > 0 && rapid.Bool().Draw(t, "via"))
		}
		for range c.Phases {
			var down []int
			for i, v := range c.Via {
				if v && rapid.IntRange(0, 2).Draw(t, "down") == 0 {
					down = append(down, i)
				}
			}
			c.Down = append(c.Down, down)
		}
	}
	return c
}

var logLine = regexp.MustCompile(`\[([^\]]+)\] namespaces:\s*(-?\d+) \| centroids:\s*(-?\d+) \| dps:\s*(-?\d+)`)

type lineTap func(string)

func (f lineTap) Write(p []byte) (int, error) {
	f(string(p))
	return len(p), nil
}

// runLog: the node 0 is the local one.
func runLog(x *X, c logCase) {
	ns := poolNodes(x, c.Nodes, nodeCfg{false, c.Threshold})
	reg := &Registry{}
	scale := 0.0
	now := time.Now()
	var remotes []string
	px := proxies(x, len(c.Via))
	addr := make([]string, len(ns))
	for i, n := range ns {
		addr[i] = n.addr
		if i > 0 && i < len(c.Via) && c.Via[i] {
			addr[i] = px[i].addr
		}
	}
	remotes = append(remotes, addr[1:]...)
	if c.Dead > 0 {
		remotes = append(remotes, deadAddr())
	}
	at := min(c.Local, len(remotes))
	remotes = append(remotes[:at], append([]string{ns[0].addr}, remotes[at:]...)...)
	shown := remotes
	if c.LocalOnly {
		shown = []string{ns[0].addr}
	}
	down := map[int]bool{}
	totals := func() map[string][3]int {
		m := map[string][3]int{}
		for i, n := range ns {
			t := [3]int{}
			if down[i] {
				m[addr[i]] = t
				continue
			}
			for _, s := range n.state() {
				t[0]++
				t[1] += len(s.cl)
				t[2] += len(s.all())
			}
			m[addr[i]] = t
		}
		return m
	}
	load := func(phase int) {
		for _, op := range c.Phases[phase] {
			if op.Op == "restart" {
				if op.Node > 0 { // the local one always has something to work on
					ns[op.Node].srv.Table.Reset()
				}
				continue
			}
			prepare(ns[op.Node], op, reg, now, &scale)
		}
		down = map[int]bool{}
		if phase < len(c.Down) {
			for _, i := range c.Down[phase] {
				down[i] = i > 0 && i < len(c.Via) && c.Via[i]
			}
		}
		for i := range c.Via {
			if down[i] {
				px[i].set(ns[i].addr, []string{"*"}, 0)
				x.Label("outage")
			} else {
				px[i].set(ns[i].addr, nil, 0)
			}
		}
	}
	load(0)
	spaces := totals()[ns[0].addr][0]
	perTask := len(shown)
	if c.NoMeta {
		perTask = 1
	}
	perIter := func() int { return spaces * len(c.Tasks) * perTask }

	phase := 0
	left := c.Iters * perIter()
	want := totals()
	var failure string
	fail := func(f string, a ...any) {
		if failure == "" {
			failure = fmt.Sprintf(f, a...)
		}
	}
	counts := map[string]int{}
	var lines []string
	nt := false
	done := make(chan struct{})
	ended := false
	ready := make(chan struct{})
	var stop func()
	finish := func() {
		ended = true
		stop()
		close(done)
	}
	tap := lineTap(func(l string) {
		<-ready
		if ended {
			return
		}
		l = strings.TrimSpace(l)
		lines = append(lines, l)
		left--
		if c.NoMeta {
			if !strings.Contains(l, ns[0].addr) || !strings.Contains(l, "task:") {
				fail("line %q does not name the local node %s and the task", l, ns[0].addr)
			}
		} else {
			m := logLine.FindStringSubmatch(l)
			if m == nil {
				fail("line %q does not show a node", l)
			} else {
				known := false
				for _, a := range shown {
					known = known || a == m[1]
				}
				if !known {
					fail("line %q shows a node which is not monitored (monitored: %v)", l, shown)
				}
				counts[m[1]]++
				var got [3]int
				for i := range got {
					got[i], _ = strconv.Atoi(m[2+i])
				}
				if got != want[m[1]] {
					fail("line %q: the node holds %d namespaces, %d clusters, %d points", l, want[m[1]][0], want[m[1]][1], want[m[1]][2])
				}
				if got[2] > 0 && len(shown) > 1 {
					nt = true
				}
				if hasTask := strings.Contains(l, "task:"); hasTask != (m[1] == ns[0].addr) {
					fail("line %q: the local node is %s", l, ns[0].addr)
				}
			}
		}
		if failure != "" {
			finish()
			return
		}
		if left > 0 {
			return
		}
		for a, n := range counts {
			if n != counts[shown[0]] || len(counts) != len(shown) {
				fail("node %s was shown %d times, %s %d times, %d of %d nodes were shown", a, n, shown[0], counts[shown[0]], len(counts), len(shown))
			}
		}
		phase++
		if failure != "" || phase == len(c.Phases) {
			finish()
			return
		}
		load(phase)
		want = totals()
		spaces = want[ns[0].addr][0]
		left = c.Iters * perIter()
	})

	out := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		x.Env(err)
	}
	os.Stdout = null
	log.SetOutput(tap)
	x.Defer(func() {
		log.SetOutput(io.Discard)
		os.Stdout = out
		null.Close()
	})
	// Ranges which no cluster is in, for the tasks to change nothing.
	l := LoopSpec{LocalOnly: c.LocalOnly, SplitLo: 1, SplitHi: 0, MergeLo: 1, MergeHi: 0}
	for i := range l.Skip {
		l.Skip[i] = 1001
	}
	for _, k := range c.Tasks {
		l.Skip[k] = 1
	}
	if !c.NoMeta {
		l.Skip[kMeta] = 1
	}
	stop = eventloop.EventLoop(l.config(ns[0].addr, remotes, nil))
	close(ready)
	select {
	case <-done:
	case <-time.After(40 * time.Second):
		hung(fmt.Sprintf("default log: %d lines in 40 s, %d more expected", len(lines), left))
	}
	for i, s := range lines {
		x.Tracef("%d: %s", i, s)
	}
	if failure != "" {
		x.Failf("%s", failure)
	}
	if nt {
		x.NonTrivial()
	}
}

func init() {
	reg(Facet{Prop: "E06", Name: "default-log", Quick: 800, Thorough: 12000,
		Rule: "real loops without a logger of their own on 1-12 nodes with data that changes and nodes that fail in between; every line of the default log is compared with the nodes; non-trivial: several nodes are shown, one with points"}, genLog, runLog)
}
