package h

import "pgregory.net/rapid"

// ---- nodes which answer late -------------------------------------------------------------
//
// A node which takes a while is still reachable: the same oracles apply, whatever the order of the replies.

// makeSlow lets some of the reachable addresses of an operation answer late; false if there are fewer than two.
func makeSlow(t *rapid.T, as []ASpec, api bool) bool {
	var can []int
	for i, a := range as {
		if (a.Kind == "node" || a.Kind == "proxy") && len(a.Cut) == 0 {
			can = append(can, i)
		}
	}
	if len(can) < 2 {
		return false
	}
	if !api {
		can = rapid.Permutation(can).Draw(t, "which")
	}
	k := rapid.IntRange(1, min(3, len(can))).Draw(t, "slow")
	for _, i := range can[:k] {
		as[i].Kind = "proxy"
		as[i].Slow = pick(t, "ms", 150, 600, 1300, 2300, 3300)
		as[i].SlowN = pick(t, "requests", 1, 1, 2, 3)
	}
	return true
}

func genSlowCore(m kmix) func(*rapid.T) coreCase {
	g := genCore(m)
	return func(t *rapid.T) coreCase {
		c := g(t)
		var first []KOp
		dim, st := c.Dim, genStyle(t)
		for j := 0; j < 3*min(6, c.Nodes); j++ {
			first = append(first, KOp{XOp: XOp{Op: "add", Node: j % c.Nodes, P: PSpec{V: genVec(t, dim, st)}}})
		}
		c.Ops = append(first, c.Ops...)
		for i, o := range c.Ops {
			if o.Op == "get" {
				c.Ops[i].N = pick(t, "slowN", 1, 3, 5, 8, 12, 1000)
			}
			if o.Addrs != nil && rapid.IntRange(0, 3).Draw(t, "fits") != 0 {
				if v := genVec(t, dim, st); o.Op == "put" {
					c.Ops[i].P.V = v
				} else {
					c.Ops[i].V = v
				}
			}
			if o.Addrs != nil && !m.api && c.Nodes > 1 && rapid.IntRange(0, 3).Draw(t, "all") != 0 {
				c.Ops[i].Addrs = nil
				for k := 0; k < c.Nodes; k++ {
					c.Ops[i].Addrs = append(c.Ops[i].Addrs, ASpec{Kind: "node", Node: k})
				}
				c.Ops[i].Addrs = rapid.Permutation(c.Ops[i].Addrs).Draw(t, "order")
			}
			if o.Addrs != nil && makeSlow(t, c.Ops[i].Addrs, m.api) {
				c.Ops = c.Ops[:i+1]
				break
			}
		}
		return c
	}
}

func genSlowMulti(m xmix) func(*rapid.T) multiCase {
	g := genMulti(m)
	return func(t *rapid.T) multiCase {
		c := g(t)
		c.Nodes = min(c.Nodes, 6)
		var ops []XOp
		for j := 0; j < 3*c.Nodes; j++ {
			ops = append(ops, XOp{Op: "add", Node: j % c.Nodes, P: PSpec{V: genVec(t, c.Dim, genStyle(t))}})
		}
		for _, o := range c.Ops {
			if o.Node < c.Nodes && o.Op != "dist" {
				ops = append(ops, o)
			}
		}
		o := XOp{Op: "dist", Node: rapid.IntRange(0, c.Nodes-1).Draw(t, "origin"), N: pick(t, "n", 1, 1, 1, 2, 3), Accurate: rapid.Bool().Draw(t, "accurate")}
		for i := 0; i < c.Nodes; i++ {
			if i != o.Node || rapid.IntRange(0, 4).Draw(t, "self") == 0 {
				o.Addrs = append(o.Addrs, ASpec{Kind: "node", Node: i})
			}
		}
		if rapid.IntRange(0, 3).Draw(t, "dead") == 0 {
			o.Addrs = append(o.Addrs, ASpec{Kind: "dead"})
		}
		makeSlow(t, o.Addrs, false)
		c.Ops = append(ops, o)
		return c
	}
}

func init() {
	rule := "histories which end with one operation in which 1-3 of the nodes answer their next 1-3 requests 0.15-3.3 s late; non-trivial: "
	core := func(prop, name, nt string, m kmix, o func(*X, *kstep, *Registry)) {
		reg(Facet{Prop: prop, Name: name, Quick: 56, Thorough: 1200, Rule: rule + nt}, genSlowCore(m), func(x *X, c coreCase) { runCore(x, c, doCore, o) })
	}
	core("N01", "ranking-slow", "a ranking of at least 2 different suitable nodes without ties inside a node", kmix{add: 50, split: 3, rank: 12, wrong: 25}, oracleN01)
	core("D01", "put-slow", "a put has at least 2 ranked options and stores the point", kmix{add: 30, split: 3, put: 12, wrong: 25}, oracleD01)
	core("D02", "get-slow", "a get returns points of at least 2 nodes", kmix{add: 50, split: 3, get: 12, wrong: 25, distinct: true}, oracleD02)
	reg(Facet{Prop: "A01", Name: "api-slow", Quick: 56, Thorough: 1200, Setup: setupAPI, Rule: rule + "a query returns points"},
		genSlowCore(kmix{add: 40, split: 2, put: 6, get: 12, wrong: 25, distinct: true, api: true}), func(x *X, c coreCase) { runAPI(x, c, oracleA01) })
	reg(Facet{Prop: "R05", Name: "distribute-slow", Quick: 56, Thorough: 1200, Rule: rule + "a point is judged to have gone to the best of at least 2 usable options"},
		genSlowMulti(xmix{add: 60, split: 3, dist: 1, wrong: 25}), func(x *X, c multiCase) { runMulti(x, c, oracleR05) })
}
