package h

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf16"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// ---- HTTP API: several namespaces, concurrent requests, ways to write the same request ------

// AReq is a put (P) or a query (V, N, Drain) of namespace Ns.
type AReq struct {
	Put      bool      `json:"put,omitempty"`
	Ns       int       `json:"ns"`
	P        PSpec     `json:"p,omitzero"`
	V        []float64 `json:"v,omitempty"`
	N        int       `json:"n,omitempty"`
	Drain    bool      `json:"drain,omitempty"`
	Accurate bool      `json:"accurate,omitempty"`
	Enc      Enc       `json:"enc,omitzero"`
}

// Enc is a way to write a request as JSON.
type Enc struct {
	Omit  bool   `json:"omit,omitempty"`  // leave out fields with default values
	Null  bool   `json:"null,omitempty"`  // write null for them
	Esc   bool   `json:"esc,omitempty"`   // escape all characters of strings
	Space string `json:"space,omitempty"` // between tokens
	Rot   int    `json:"rot,omitempty"`   // rotate the order of fields
	Num   int    `json:"num,omitempty"`   // notation of numbers
	Zone  int    `json:"zone,omitempty"`  // of the expiry, minutes
}

type apiCase struct {
	Threshold int      `json:"threshold"`
	Names     []string `json:"names"`
	Dims      []int    `json:"dims"`
	Rounds    [][]AReq `json:"rounds"`
}

func genSpaceName(t *rapid.T) string {
	switch rapid.IntRange(0, 6).Draw(t, "nameStyle") {
	case 0:
		return pick(t, "name", "", "a", "A", "aa", " a", "a ", "\t", "a/b", "../a", "a%2Fb", "null", "0", "ns")
	case 1:
		return pick(t, "name", "<&>", "\u2028", "\u2029", "\x00", "\x7f", "\\", "\"", "\\u0041", "\ufeff", "\U0001f600", "é", "e\u0301", "ı", "K", "ß", "\ufffd")
	case 2:
		return strings.Repeat(pick(t, "part", "a", "é", "<"), rapid.IntRange(1, 3000).Draw(t, "len"))
	default:
		n := rapid.StringN(0, 6, 24).Draw(t, "name")
		return strings.ToValidUTF8(n, "?")
	}
}

func genEnc(t *rapid.T) Enc {
	if rapid.Bool().Draw(t, "plain") {
		return Enc{}
	}
	return Enc{
		Omit: rapid.Bool().Draw(t, "omit"), Null: rapid.IntRange(0, 3).Draw(t, "null") == 0, Esc: rapid.IntRange(0, 3).Draw(t, "esc") == 0,
		Space: pick(t, "space", "", "", " ", "\n\t", "\r\n  "), Rot: rapid.IntRange(0, 4).Draw(t, "rot"), Num: rapid.IntRange(0, 3).Draw(t, "num"),
		Zone: pick(t, "zone", 0, 0, 60, -150, 840),
	}
}

func genAPISpaces(concurrent bool) func(*rapid.T) apiCase {
	return func(t *rapid.T) apiCase {
		c := apiCase{Threshold: pick(t, "threshold", 0, 2, 3, 5)}
		k := rapid.IntRange(1, 4).Draw(t, "namespaces")
		seen := map[string]bool{}
		st := genStyle(t)
		for i := 0; i < k; i++ {
			n := genSpaceName(t)
			if seen[n] {
				n = fmt.Sprintf("%s-%d", n, i)
			}
			seen[n] = true
			c.Names = append(c.Names, n)
			c.Dims = append(c.Dims, rapid.IntRange(1, 4).Draw(t, "dim"))
		}
		req := rapid.Custom(func(t *rapid.T) AReq {
			r := AReq{Put: rapid.IntRange(0, 4).Draw(t, "put") < 3, Ns: rapid.IntRange(0, k-1).Draw(t, "ns"), Accurate: rapid.Bool().Draw(t, "accurate"), Enc: genEnc(t)}
			v := genVec(t, c.Dims[r.Ns], st)
			if r.Put {
				r.P = PSpec{V: v, Pay: genPay(t)}
				if rapid.IntRange(0, 3).Draw(t, "exp?") == 0 {
					r.P.En, r.P.Ttl = rapid.IntRange(0, 2).Draw(t, "en") != 0, pick(t, "ttl", int64(time.Hour), int64(90*time.Hour)+123456789)
				}
				return r
			}
			r.V, r.N, r.Drain = v, pick(t, "n", 0, 1, 2, 3, 5, 10, 1000, -1, math.MaxInt), rapid.IntRange(0, 2).Draw(t, "drain") == 0
			return r
		})
		rounds := rapid.IntRange(2, 14).Draw(t, "rounds")
		for i := 0; i < rounds; i++ {
			n := 1
			if concurrent && rapid.IntRange(0, 2).Draw(t, "many") != 0 {
				n = rapid.IntRange(2, 10).Draw(t, "requests")
			}
			c.Rounds = append(c.Rounds, rapid.SliceOfN(req, n, n).Draw(t, "round"))
		}
		return c
	}
}

type jfield struct {
	key, val string
	def      bool // has the default value
}

func (e Enc) object(fs []jfield) string {
	var out []string
	for i := range fs {
		f := fs[(i+e.Rot)%len(fs)]
		if f.def && e.Omit {
			continue
		}
		if f.def && e.Null {
			f.val = "null"
		}
		out = append(out, e.Space+e.str(f.key)+e.Space+":"+e.Space+f.val+e.Space)
	}
	return "{" + strings.Join(out, ",") + "}"
}

func (e Enc) str(s string) string {
	if !e.Esc {
		b, _ := json.Marshal(s)
		return string(b)
	}
	var b strings.Builder
	b.WriteByte('"')
	for _, u := range utf16.Encode([]rune(s)) {
		fmt.Fprintf(&b, `\u%04x`, u)
	}
	b.WriteByte('"')
	return b.String()
}

func (e Enc) num(f float64) string {
	switch e.Num {
	case 1:
		return strconv.FormatFloat(f, 'e', -1, 64)
	case 2:
		return strconv.FormatFloat(f, 'f', -1, 64)
	case 3:
		return strconv.FormatFloat(f, 'E', 20, 64)
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

func (e Enc) vec(v []float64) string {
	var out []string
	for _, f := range v {
		out = append(out, e.Space+e.num(f)+e.Space)
	}
	return "[" + strings.Join(out, ",") + "]"
}

// request is path and body of a request.
func (r AReq) request(ns string, dp DataPoint) (string, string) {
	e := r.Enc
	space, acc := jfield{"namespace", e.str(ns), ns == ""}, jfield{"accurate", fmt.Sprint(r.Accurate), !r.Accurate}
	if r.Put {
		x := dp.Expires
		if e.Zone != 0 {
			x = x.In(time.FixedZone("", e.Zone*60))
		}
		o := e.object([]jfield{
			{"vec", e.vec(dp.Vec), false},
			{"payload", e.str(base64.StdEncoding.EncodeToString(dp.Payload)), len(dp.Payload) == 0},
			{"expires", e.str(x.Format(time.RFC3339Nano)), dp.Expires.IsZero()},
			{"expireEnabled", fmt.Sprint(dp.ExpireEnabled), !dp.ExpireEnabled},
		})
		return "/api/dp/put", e.object([]jfield{space, acc, {"dp", o, false}})
	}
	return "/api/dp/query", e.object([]jfield{space, acc, {"queryVec", e.vec(r.V), false}, {"n", strconv.Itoa(r.N), r.N == 0}, {"drain", fmt.Sprint(r.Drain), !r.Drain}})
}

type areply struct {
	dp     DataPoint
	id     int
	status int
	body   string
	err    error
	res    []DataPoint
}

func runAPISpaces(x *X, c apiCase) {
	ns := poolNodes(x, apiNodes, nodeCfg{false, c.Threshold})
	for k := range ns {
		apiProxies[k].set(ns[k].addr, nil, 0)
	}
	index := map[string]int{}
	for i, n := range c.Names {
		if !utf8.ValidString(n) {
			return
		}
		index[n] = i
	}
	reg := &Registry{}
	now := time.Now()
	// per namespace: ids of the points in it
	model := make([]map[int]bool, len(c.Names))
	for i := range model {
		model[i] = map[int]bool{}
	}
	both := false
	base := apiAt(x)
	for ri, round := range c.Rounds {
		rep := make([]areply, len(round))
		var wg sync.WaitGroup
		for i, r := range round {
			if r.Put {
				rep[i].id, rep[i].dp = reg.add(r.P, now)
			}
			path, body := r.request(c.Names[r.Ns], rep[i].dp)
			wg.Add(1)
			go func(a *areply) {
				defer wg.Done()
				h, err := apiClient.Post(base+path, "application/json", bytes.NewReader([]byte(body)))
				if err != nil {
					a.err = err
					return
				}
				b, err := io.ReadAll(h.Body)
				h.Body.Close()
				a.status, a.body, a.err = h.StatusCode, string(b), err
			}(&rep[i])
		}
		call(x, fmt.Sprintf("round %d", ri), wg.Wait)
		what := func(i int) string {
			r := round[i]
			if r.Put {
				return fmt.Sprintf("round %d request %d of %d: put %s into %.40q", ri, i, len(round), showDP(rep[i].dp), c.Names[r.Ns])
			}
			return fmt.Sprintf("round %d request %d of %d: query %v n=%d drain=%v of %.40q", ri, i, len(round), r.V, r.N, r.Drain, c.Names[r.Ns])
		}
		before := make([]map[int]bool, len(c.Names))
		puts, drains := make([]int, len(c.Names)), make([]int, len(c.Names))
		for i := range c.Names {
			before[i] = map[int]bool{}
			for id := range model[i] {
				before[i][id] = true
			}
		}
		for i, r := range round {
			a := &rep[i]
			if a.err != nil {
				if netTrouble(a.err) {
					x.Env(a.err)
				}
				x.Failf("%s: no answer from the API: %v", what(i), a.err)
			}
			if a.status != 200 {
				x.Failf("%s: status %d, all nodes are up and in use with this dimension", what(i), a.status)
			}
			x.Tracef("%s -> %.80q", what(i), a.body)
			if r.Put {
				model[r.Ns][a.id] = true
				puts[r.Ns]++
			} else if r.Drain {
				drains[r.Ns]++
			}
		}
		all := make([]map[int]bool, len(c.Names)) // candidates for the queries of this round
		for i := range c.Names {
			all[i] = map[int]bool{}
			for id := range model[i] {
				all[i][id] = true
			}
		}
		for i, r := range round {
			if r.Put {
				continue
			}
			a := &rep[i]
			a.res = parseDPs(x, what(i), a.body)
			for _, d := range a.res {
				id := reg.verify(x, what(i), d)
				if !all[r.Ns][id] {
					x.Failf("%s: returned point %d, which is not in that namespace: %s", what(i), id, showDP(d))
				}
				if r.Drain {
					if !model[r.Ns][id] {
						x.Failf("%s: point %d was drained twice", what(i), id)
					}
					delete(model[r.Ns], id)
				}
			}
			if len(idCount(a.res)) != len(a.res) {
				x.Failf("%s: a point was returned twice: %v", what(i), ids(a.res))
			}
			want := min(max(0, r.N), len(before[r.Ns]))
			if others := drains[r.Ns]; r.Drain && others == 1 || others == 0 {
				if len(a.res) < want || len(a.res) > min(max(0, r.N), len(before[r.Ns])+puts[r.Ns]) {
					x.Failf("%s: %d points returned, the namespace held %d (+%d put meanwhile)", what(i), len(a.res), len(before[r.Ns]), puts[r.Ns])
				}
			} else if len(a.res) > max(0, r.N) {
				x.Failf("%s: %d points returned", what(i), len(a.res))
			}
			if len(a.res) > 0 {
				both = true
			}
		}
		// what the nodes hold
		held := make([]map[int]int, len(c.Names))
		for i := range held {
			held[i] = map[int]int{}
		}
		for k, n := range ns {
			for name, sn := range n.state() {
				i, ok := index[name]
				if !ok {
					x.Failf("round %d: node %d has a namespace %q nobody asked for", ri, k, name)
				}
				for _, d := range sn.all() {
					held[i][reg.verify(x, fmt.Sprintf("round %d: node %d", ri, k), d)]++
				}
			}
		}
		for i := range c.Names {
			for id := range model[i] {
				if held[i][id] != 1 {
					x.Failf("round %d: point %d, put into %.40q, is there %d times", ri, id, c.Names[i], held[i][id])
				}
			}
			for id := range held[i] {
				if !model[i][id] {
					x.Failf("round %d: namespace %.40q holds point %d, which was drained or put elsewhere", ri, c.Names[i], id)
				}
			}
		}
		if len(round) > 1 {
			x.Label("concurrent round")
		}
	}
	if both && len(c.Names) > 1 {
		x.NonTrivial()
	}
}

func init() {
	reg(Facet{Prop: "A01", Name: "api-spaces", Quick: 3000, Thorough: 60000, Setup: setupAPI,
		Rule: "histories of requests over 1-4 namespaces with arbitrary names, in different but equivalent JSON encodings; non-trivial: several namespaces, and a query returns points"}, genAPISpaces(false), runAPISpaces)
	reg(Facet{Prop: "A01", Name: "api-concurrent", Quick: 2000, Thorough: 60000, Setup: setupAPI,
		Rule: "the same with rounds of 2-10 concurrent requests; non-trivial: several namespaces, and a query returns points"}, genAPISpaces(true), runAPISpaces)
}
