// P20: traversals follow exactly the edges that are stored.
package p20

import (
	"fmt"
	"math"
	"math/rand/v2"
	"sort"
	"testing"

	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
	"github.com/liliang-cn/cortexdb/v2/verifharness/gm"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"pgregory.net/rapid"
)

func in(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// dist is the number of edges from start to every node it reaches.
func dist(e *gm.Env, start, dir string, types []string) map[string]int {
	d := map[string]int{start: 0}
	q := []string{start}
	for len(q) > 0 {
		u := q[0]
		q = q[1:]
		for _, g := range e.Edges {
			if len(types) > 0 && !in(types, g.EdgeType) {
				continue
			}
			for _, s := range [2]bool{true, false} {
				from, to := g.FromNodeID, g.ToNodeID
				if !s {
					from, to = to, from
				}
				if from != u || s && dir == "in" || !s && dir == "out" {
					continue
				}
				if _, ok := d[to]; !ok {
					d[to] = d[u] + 1
					q = append(q, to)
				}
			}
		}
	}
	return d
}

func TestTraversal(t *testing.T) {
	h.Check(t, h.Opt{Quick: 500, Thorough: 12000}, func(c *h.C) {
		e := gm.NewEnv(c, 2, nil)
		n := rapid.IntRange(0, 12).Draw(c.T, "nodes")
		e.NodeN = max(n, 4)
		m := 0
		if n > 0 {
			m = rapid.IntRange(0, 2*n+2).Draw(c.T, "edges")
		}
		chain := n > 5 && rapid.IntRange(0, 3).Draw(c.T, "chain") == 0
		if chain {
			m = 0
		}
		e.Prepare(c.T, n, m)
		if chain {
			var es []*graph.GraphEdge
			ids := e.NodeIDs()
			for i := 1; i < len(ids); i++ {
				g := &graph.GraphEdge{ID: fmt.Sprintf("c%d", i), FromNodeID: ids[i-1], ToNodeID: ids[i], EdgeType: "knows", Weight: float64(i)}
				if rapid.IntRange(0, 7).Draw(c.T, "turned") == 0 {
					g.FromNodeID, g.ToNodeID = g.ToNodeID, g.FromNodeID
				}
				es = append(es, g)
			}
			e.EdgesBatch(es)
			c.Class("chain")
		}
		interesting := 0
		for i := 0; i < 6; i++ {
			a := e.SomeNode(c.T, "a")
			o := graph.TraversalOptions{
				MaxDepth:  rapid.IntRange(-1, 9).Draw(c.T, "depth"),
				Direction: rapid.SampledFrom([]string{"", "both", "out", "in"}).Draw(c.T, "dir"),
				Limit:     rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 5}).Draw(c.T, "limit"),
			}
			if rapid.IntRange(0, 2).Draw(c.T, "et") == 0 {
				o.EdgeTypes = rapid.SliceOfN(rapid.SampledFrom(gm.EdgeTypes), 1, 3).Draw(c.T, "etypes")
			}
			if rapid.IntRange(0, 2).Draw(c.T, "nt") == 0 {
				o.NodeTypes = rapid.SliceOfN(rapid.SampledFrom(gm.NodeTypes), 1, 3).Draw(c.T, "ntypes")
			}
			c.Op("neighbors of %q: %+v", a, o)
			got, err := e.G.Neighbors(e.Ctx, a, o)
			c.Must(err, "neighbors")
			d := dist(e, a, o.Direction, o.EdgeTypes)
			depth := o.MaxDepth
			if depth <= 0 {
				depth = 1
			}
			var all []int
			want := e.NodesWhere(func(n *graph.GraphNode) bool {
				x, ok := d[n.ID]
				if !ok || x == 0 || x > depth || len(o.NodeTypes) > 0 && !in(o.NodeTypes, n.NodeType) {
					return false
				}
				all = append(all, x)
				return true
			})
			sort.Ints(all)
			if len(want) > 0 && len(want) < len(e.Nodes)-1 {
				interesting++
			}
			if o.Limit > 0 && len(all) > o.Limit {
				all = all[:o.Limit]
			}
			if len(got) != len(all) {
				c.Fatalf("neighbors of %q %+v: got %d nodes %q, want %d of %q", a, o, len(got), names(got), len(all), sorted(want))
			}
			seen := map[string]bool{}
			for i, n := range got {
				w := want[n.ID]
				if w == nil || seen[n.ID] || !gm.SameNode(n, w) {
					c.Fatalf("neighbors of %q %+v: got %s (want among %q, once)", a, o, gm.NS(n), sorted(want))
				}
				seen[n.ID] = true
				if d[n.ID] != all[i] {
					c.Fatalf("neighbors of %q %+v: %q not nearest first: %q", a, o, n.ID, names(got))
				}
			}

			b := e.SomeNode(c.T, "b")
			c.Op("path %q to %q", a, b)
			p, err := e.G.ShortestPath(e.Ctx, a, b)
			h.CheckInfra(err)
			do := dist(e, a, "out", nil)
			x, ok := do[b]
			if e.Nodes[b] == nil {
				ok = false
			}
			if !ok {
				if err == nil {
					c.Fatalf("a path from %q to %q was found, there is none", a, b)
				}
			} else {
				c.Must(err, "path that exists")
				path(c, e, a, b, x, p)
				if x > 1 {
					interesting++
				}
			}

			k := rapid.IntRange(-1, 9).Draw(c.T, "within")
			lim := k
			if lim <= 0 {
				lim = 6
			}
			y, ok := dist(e, a, "both", nil)[b]
			yes, err := e.G.Connected(e.Ctx, a, b, k)
			c.Must(err, "connected")
			if yes != (ok && y <= lim) {
				c.Fatalf("connected(%q, %q, %d) = %v, distance %d (%v)", a, b, k, yes, y, ok)
			}

			var ids []string
			set := map[string]bool{}
			for j := rapid.IntRange(0, 7).Draw(c.T, "sub"); j > 0; j-- {
				id := e.SomeNode(c.T, "sid")
				ids = append(ids, id)
				set[id] = true
			}
			c.Op("subgraph of %q", ids)
			sg, err := e.G.Subgraph(e.Ctx, ids)
			c.Must(err, "subgraph")
			e.CheckNodes(fmt.Sprintf("subgraph of %q", ids), sg.Nodes, e.NodesWhere(func(n *graph.GraphNode) bool { return set[n.ID] }))
			es := e.EdgesWhere(func(g *graph.GraphEdge) bool { return set[g.FromNodeID] && set[g.ToNodeID] })
			e.CheckEdges(fmt.Sprintf("subgraph of %q", ids), sg.Edges, es)
			if len(es) > 0 && len(es) < len(e.Edges) {
				interesting++
			}
		}
		if interesting >= 2 {
			c.NonTrivial()
		}
	})
}

func path(c *h.C, e *gm.Env, a, b string, x int, p *graph.PathResult) {
	bad := func(s string) {
		c.Fatalf("path %q to %q of %d steps: %s: nodes %q, %d edges, distance %d, weight %v", a, b, x, s, names(p.Nodes), len(p.Edges), p.Distance, p.Weight)
	}
	if p.Distance != x || len(p.Nodes) != x+1 || len(p.Edges) != x {
		bad("wrong length")
	}
	if p.Nodes[0].ID != a || p.Nodes[x].ID != b {
		bad("wrong ends")
	}
	w := 0.0
	for i, g := range p.Edges {
		m := e.Edges[g.ID]
		if m == nil || !gm.SameEdge(g, m) || !gm.SameNode(p.Nodes[i], e.Nodes[p.Nodes[i].ID]) {
			bad("a step is not as stored")
		}
		if g.FromNodeID != p.Nodes[i].ID || g.ToNodeID != p.Nodes[i+1].ID {
			bad("an edge does not join the nodes around it")
		}
		w += g.Weight
	}
	if math.Abs(w-p.Weight) > 1e-9*(1+math.Abs(w)) {
		bad("the weight is not the sum")
	}
}

func names(ns []*graph.GraphNode) (o []string) {
	for _, n := range ns {
		o = append(o, n.ID)
	}
	return
}

func sorted(m map[string]*graph.GraphNode) (o []string) {
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return
}

// Wide and deep graphs are traversed completely too.
func TestLarge(t *testing.T) {
	h.Check(t, h.Opt{Quick: 12, Thorough: 200}, func(c *h.C) {
		e := gm.NewEnv(c, 2, nil)
		n := rapid.IntRange(60, 400).Draw(c.T, "n")
		near := rapid.IntRange(1, n).Draw(c.T, "near") // 1: a chain, n: a bushy tree
		seed := rapid.Uint64().Draw(c.T, "seed")
		r := rand.New(rand.NewPCG(seed, 2))
		c.Op("tree of %d nodes, parents within %d, seed %d", n, near, seed)
		var ns []*graph.GraphNode
		var es []*graph.GraphEdge
		for i := 0; i < n; i++ {
			ns = append(ns, &graph.GraphNode{ID: fmt.Sprintf("N%d", i), Vector: []float32{1, 2}, NodeType: gm.NodeTypes[r.IntN(3)]})
			if i > 0 {
				es = append(es, &graph.GraphEdge{ID: fmt.Sprintf("E%d", i), FromNodeID: fmt.Sprintf("N%d", i-1-r.IntN(min(i, near))), ToNodeID: fmt.Sprintf("N%d", i), EdgeType: gm.EdgeTypes[r.IntN(2)], Weight: 1 + float64(r.IntN(4))})
			}
		}
		e.NodesBatch(ns)
		e.EdgesBatch(es)
		c.NonTrivial()
		for k := 0; k < 3; k++ {
			a, b := fmt.Sprintf("N%d", r.IntN(1+n/4)), fmt.Sprintf("N%d", r.IntN(n))
			o := graph.TraversalOptions{MaxDepth: 1 + r.IntN(n), Direction: []string{"both", "out", "in"}[r.IntN(3)]}
			if r.IntN(3) == 0 {
				o.NodeTypes = gm.NodeTypes[:1]
			}
			d := dist(e, a, o.Direction, nil)
			got, err := e.G.Neighbors(e.Ctx, a, o)
			c.Must(err, "neighbors")
			e.CheckNodes(fmt.Sprintf("neighbors of %q %+v", a, o), got, e.NodesWhere(func(n *graph.GraphNode) bool {
				x, ok := d[n.ID]
				return ok && x > 0 && x <= o.MaxDepth && (o.NodeTypes == nil || n.NodeType == "")
			}))
			x, ok := dist(e, a, "out", nil)[b]
			p, err := e.G.ShortestPath(e.Ctx, a, b)
			h.CheckInfra(err)
			if ok != (err == nil) {
				c.Fatalf("path from %q to %q: %v, distance %d (%v)", a, b, err, x, ok)
			}
			if ok {
				path(c, e, a, b, x, p)
			}
			y := dist(e, a, "both", nil)[b]
			for _, lim := range []int{y - 1, y, y + 1} {
				if lim <= 0 {
					continue
				}
				yes, err := e.G.Connected(e.Ctx, a, b, lim)
				c.Must(err, "connected")
				if yes != (y <= lim) {
					c.Fatalf("connected(%q, %q, %d) = %v, distance %d", a, b, lim, yes, y)
				}
			}
		}
	})
}
