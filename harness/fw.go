// Package h is the property-based testing harness for /repo (module trypo).
// It only uses trypo's exported API. See ../DESIGN.md.
package h

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// Facet is one executable check belonging to a property.
type Facet struct {
	Prop, Name string
	Rule       string // when a case counts as non-trivial
	Quick      int    // total number of cases over all shards, quick tier
	Thorough   int    // same, thorough tier
	MaxShards  int    // at most so many shards run this facet (0 = all)
	Bubble     bool   // run each case under a fake clock
	Setup      func(t *testing.T)
	gen        func(*rapid.T) any
	run        func(*X, any)
	decode     func([]byte) (any, error)
}

var facets []*Facet

// reg registers a facet with a concrete case type C.
func reg[C any](f Facet, gen func(*rapid.T) C, run func(*X, C)) {
	f.gen = func(t *rapid.T) any { return gen(t) }
	f.run = func(x *X, c any) { run(x, c.(C)) }
	f.decode = func(b []byte) (any, error) {
		var c C
		err := json.Unmarshal(b, &c)
		return c, err
	}
	facets = append(facets, &f)
}

// X is handed to a running case.
type X struct {
	nontrivial bool
	labels     map[string]int
	trace      []string
	cleanup    []func()
	lane       int // cases which run at the same time use different nodes
}

type violation struct{ msg string }
type envError struct{ err error }

// Failf reports that the property is broken.
func (x *X) Failf(format string, a ...any) { panic(violation{fmt.Sprintf(format, a...)}) }

// Env reports that the harness could not do its work (never a violation).
func (x *X) Env(err error) { panic(envError{err}) }

func (x *X) NonTrivial()    { x.nontrivial = true }
func (x *X) Label(s string) { x.labels[s]++ }
func (x *X) Defer(f func()) { x.cleanup = append(x.cleanup, f) }

// Tracef keeps a short history shown with a violation.
func (x *X) Tracef(format string, a ...any) {
	if len(x.trace) < 200 {
		x.trace = append(x.trace, fmt.Sprintf(format, a...))
	}
}

type outcome struct {
	x    *X
	viol string
	env  error
}

// blamesRepo tells whether a panic went through code of the repository.
func blamesRepo(stack string) bool {
	return strings.Contains(stack, "\ntrypo/")
}

func runCase(t *testing.T, f *Facet, c any) (o outcome) {
	if f.Bubble {
		synctest.Test(t, func(*testing.T) { o = runGuarded(0, func(x *X) { f.run(x, c) }) })
	} else {
		o = runGuarded(0, func(x *X) { f.run(x, c) })
	}
	return o
}

func runGuarded(lane int, run func(*X)) (o outcome) {
	o.x = &X{labels: map[string]int{}, lane: lane}
	defer func() {
		for i := len(o.x.cleanup) - 1; i >= 0; i-- {
			o.x.cleanup[i]()
		}
	}()
	defer func() {
		r := recover()
		switch v := r.(type) {
		case nil:
		case violation:
			o.viol = v.msg
		case envError:
			o.env = v.err
		default:
			st := string(debug.Stack())
			if blamesRepo(st) {
				o.viol = fmt.Sprintf("panic in the code under test: %v\n%s", r, trim(st, 3000))
			} else {
				o.env = fmt.Errorf("harness panic: %v\n%s", r, st)
			}
		}
	}()
	run(o.x)
	return o
}

// ---- independent cases at the same time -----------------------------------

// together is a few independent cases which run at the same time in one process.
type together[C any] struct {
	Cases []C `json:"cases"`
	Reps  int `json:"reps"`
}

// regTogether registers the facet as base-together: cases of the base facet,
// each judged on its own, in parallel. They share nothing, so nothing changes
// for any of them.
func regTogether[C any](f Facet, quick, thorough, reps int, gen func(*rapid.T) C, run func(*X, C)) {
	f.Name += "-together"
	f.Quick, f.Thorough = quick, thorough
	f.Rule = fmt.Sprintf("2-4 cases of that kind at the same time, each judged on its own, up to %d times; ", reps) + f.Rule[strings.Index(f.Rule, "non-trivial"):] + ", in at least two of them"
	reg(f, func(t *rapid.T) together[C] {
		c := together[C]{Reps: rapid.IntRange(1, reps).Draw(t, "reps")}
		for i := rapid.IntRange(2, 4).Draw(t, "cases"); i > 0; i-- {
			c.Cases = append(c.Cases, gen(t))
		}
		return c
	}, func(x *X, c together[C]) {
		outs := make([]outcome, len(c.Cases))
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := range c.Cases {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for r := 0; r < c.Reps && outs[i].viol == "" && outs[i].env == nil; r++ {
					outs[i] = runGuarded(i+1, func(x *X) { run(x, c.Cases[i]) })
				}
			}()
		}
		close(start)
		wg.Wait()
		nt := 0
		for i, o := range outs {
			if o.env != nil {
				x.Env(o.env)
			}
			if o.viol != "" {
				x.trace = o.x.trace
				x.Failf("case %d of %d at the same time: %s", i, len(outs), o.viol)
			}
			for k := range o.x.labels {
				x.Label(k)
			}
			if o.x.nontrivial {
				nt++
			}
		}
		if nt > 1 {
			x.NonTrivial()
		}
	})
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---- run-wide state -------------------------------------------------------

type facetResult struct {
	Facet    string         `json:"facet"`
	Evals    int            `json:"evals"`
	Skipped  int            `json:"skipped"`
	Hashes   []string       `json:"hashes"`
	Labels   map[string]int `json:"labels"`
	Samples  []any          `json:"samples"`
	Rule     string         `json:"rule"`
	WallS    float64        `json:"wall_s"`
	Viol     *replayFile    `json:"violation,omitempty"`
	EnvError string         `json:"env_error,omitempty"`
}

type replayFile struct {
	Property string          `json:"property"`
	Facet    string          `json:"facet"`
	Case     json.RawMessage `json:"case"`
	Message  string          `json:"message"`
	Trace    []string        `json:"trace,omitempty"`
}

var (
	outDir    = os.Getenv("VH_OUT")
	journalMu sync.Mutex
	journal   *os.File
	curStart  time.Time
	curFacet  string
)

func openJournal(shard string) {
	if outDir == "" {
		return
	}
	f, err := os.Create(filepath.Join(outDir, "journal-"+shard+".json"))
	if err == nil {
		journal = f
	}
}

// journalCase notes the case about to run, so a crash or hang can be replayed.
func journalCase(f *Facet, raw []byte) {
	journalMu.Lock()
	defer journalMu.Unlock()
	curStart = time.Now()
	curFacet = f.Name
	if journal == nil {
		return
	}
	b, _ := json.Marshal(replayFile{Property: f.Prop, Facet: f.Name, Case: raw})
	journal.Truncate(0)
	journal.WriteAt(b, 0)
}

func journalIdle() {
	journalMu.Lock()
	curStart = time.Time{}
	journalMu.Unlock()
}

// journalTouch tells the watchdog that the case is still getting on.
func journalTouch() {
	journalMu.Lock()
	curStart = time.Now()
	journalMu.Unlock()
}

const hangLimit = 75 * time.Second

// watchdog ends the process with a recognisable message when one case blocks.
func watchdog() {
	for {
		time.Sleep(time.Second)
		journalMu.Lock()
		st, fc := curStart, curFacet
		journalMu.Unlock()
		if !st.IsZero() && time.Since(st) > hangLimit {
			hung(fc)
		}
	}
}

// hung ends the process: after a hang the nodes it holds cannot be trusted.
func hung(what string) {
	buf := make([]byte, 1<<18)
	n := runtime.Stack(buf, true)
	fmt.Printf("VH-HANG %s\n%s\n", what, buf[:n])
	os.Exit(77)
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

var errEnv = errors.New("environment")

func runFacet(t *testing.T, f *Facet, checks int, seed uint64, deadline time.Duration, setFlag func(k, v string)) *facetResult {
	res := &facetResult{Facet: f.Name, Labels: map[string]int{}, Rule: f.Rule}
	start := time.Now()
	hashes := map[uint64]bool{}
	var failed bool
	var bestLen int
	setFlag("rapid.checks", fmt.Sprint(checks))
	setFlag("rapid.seed", fmt.Sprint(seed))
	setFlag("rapid.nofailfile", "true")
	setFlag("rapid.shrinktime", "12s")
	if f.Setup != nil {
		f.Setup(t)
	}
	biggest := 0
	var biggestSample any
	tb := &quietTB{TB: t}
	run := func() {
		defer func() {
			// rapid calls FailNow on our TB; we turn it into this panic.
			if r := recover(); r != nil {
				if _, ok := r.(tbFail); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(tb, func(rt *rapid.T) {
			if res.EnvError != "" {
				return
			}
			if !failed && time.Since(start) > deadline {
				res.Skipped++
				return
			}
			c := f.gen(rt)
			raw, err := json.Marshal(c)
			if err != nil {
				res.EnvError = "case not serialisable: " + err.Error()
				return
			}
			journalCase(f, raw)
			o := runCase(t, f, c)
			journalIdle()
			if o.env != nil {
				res.EnvError = o.env.Error()
				return
			}
			if !failed && o.viol == "" {
				res.Evals++
				for k, v := range o.x.labels {
					if v > 0 {
						res.Labels[k]++
					}
				}
				if o.x.nontrivial {
					hashes[hash64(string(raw))] = true
					if len(res.Samples) < 2 && len(raw) < 4000 {
						res.Samples = append(res.Samples, json.RawMessage(raw))
					}
					if len(raw) > biggest && len(raw) < 6000 {
						biggest = len(raw)
						biggestSample = json.RawMessage(raw)
					}
				}
			}
			if o.viol != "" {
				if !failed {
					res.Evals++
				}
				if !failed || len(raw) <= bestLen {
					bestLen = len(raw)
					res.Viol = &replayFile{Property: f.Prop, Facet: f.Name, Case: raw, Message: o.viol, Trace: o.x.trace}
				}
				failed = true
				rt.Fatalf("violation")
			}
		})
	}
	run()
	if tb.failed && !failed && res.EnvError == "" {
		res.EnvError = "rapid gave up: " + trim(tb.msg, 600)
	}
	if biggestSample != nil {
		res.Samples = append(res.Samples, biggestSample)
	}
	for h := range hashes {
		res.Hashes = append(res.Hashes, fmt.Sprintf("%x", h))
	}
	sort.Strings(res.Hashes)
	res.WallS = time.Since(start).Seconds()
	return res
}

type tbFail struct{}

// quietTB swallows rapid's own reporting.
type quietTB struct {
	rapid.TB
	failed bool
	msg    string
}

func (q *quietTB) Helper()                   {}
func (q *quietTB) Name() string              { return "facet" }
func (q *quietTB) Logf(string, ...any)       {}
func (q *quietTB) Log(...any)                {}
func (q *quietTB) Skipf(string, ...any)      {}
func (q *quietTB) Skip(...any)               {}
func (q *quietTB) SkipNow()                  {}
func (q *quietTB) Errorf(f string, a ...any) { q.failed = true; q.msg += fmt.Sprintf(f, a...) }
func (q *quietTB) Error(...any)              { q.failed = true }
func (q *quietTB) Fatalf(f string, a ...any) {
	q.failed = true
	q.msg += fmt.Sprintf(f, a...)
	panic(tbFail{})
}
func (q *quietTB) Fatal(...any) { q.failed = true; panic(tbFail{}) }
func (q *quietTB) FailNow()     { q.failed = true; panic(tbFail{}) }
func (q *quietTB) Fail()        { q.failed = true }
func (q *quietTB) Failed() bool { return q.failed }
