// P21: graph algorithms compute what they define, on the graph as stored.
package p21

import (
	"fmt"
	"math"
	"math/rand/v2"
	"testing"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
	"github.com/liliang-cn/cortexdb/v2/verifharness/gm"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"github.com/liliang-cn/cortexdb/v2/verifharness/mdl"
	"pgregory.net/rapid"
)

// rank iterates the PageRank recurrence over parallel edges counted each.
func rank(e *gm.Env, iter int, d float64) map[string]float64 {
	n := float64(len(e.Nodes))
	s := map[string]float64{}
	out := map[string]float64{}
	for id := range e.Nodes {
		s[id] = 1 / n
	}
	for _, g := range e.Edges {
		out[g.FromNodeID]++
	}
	for i := 0; i < iter; i++ {
		next := map[string]float64{}
		for id := range e.Nodes {
			next[id] = (1 - d) / n
		}
		for _, g := range e.Edges {
			next[g.ToNodeID] += d * s[g.FromNodeID] / out[g.FromNodeID]
		}
		s = next
	}
	return s
}

func components(e *gm.Env) (map[string]string, int) {
	p := map[string]string{}
	var find func(x string) string
	find = func(x string) string {
		if p[x] != x {
			p[x] = find(p[x])
		}
		return p[x]
	}
	for id := range e.Nodes {
		p[id] = id
	}
	for _, g := range e.Edges {
		p[find(g.FromNodeID)] = find(g.ToNodeID)
	}
	o, roots := map[string]string{}, map[string]bool{}
	for id := range e.Nodes {
		o[id] = find(id)
		roots[o[id]] = true
	}
	return o, len(roots)
}

func checkStats(c *h.C, e *gm.Env) {
	st, err := e.G.GetGraphStatistics(e.Ctx)
	c.Must(err, "statistics")
	n, m := len(e.Nodes), len(e.Edges)
	_, comps := components(e)
	deg, den := 0.0, 0.0
	if n > 0 {
		deg = 2 * float64(m) / float64(n)
	}
	if n > 1 {
		den = float64(m) / float64(n*(n-1))
	}
	if st.NodeCount != n || st.EdgeCount != m || st.ConnectedComponents != comps || math.Abs(st.AverageDegree-deg) > 1e-9 || math.Abs(st.Density-den) > 1e-9 {
		c.Fatalf("statistics %+v, want %d nodes, %d edges, %d components, degree %v, density %v", *st, n, m, comps, deg, den)
	}
}

func checkRank(c *h.C, e *gm.Env, iter int, d float64) {
	c.Op("pagerank %d %v", iter, d)
	res, err := e.G.PageRank(e.Ctx, iter, d)
	c.Must(err, "pagerank")
	it, damp := iter, d
	if it <= 0 {
		it = 100
	}
	if damp <= 0 || damp > 1 {
		damp = 0.85
	}
	var ids []string
	var sc []float64
	for _, r := range res {
		ids, sc = append(ids, r.NodeID), append(sc, r.Score)
	}
	// it may stop once no score moves by a millionth
	tol := 3e-5
	if damp == 1 {
		tol = 1e-6 * float64(it*len(e.Nodes)+30) // nothing shrinks what it leaves out
	}
	if m := h.CheckTopK(ids, sc, rank(e, it, damp), 0, tol); m != "" {
		c.Fatalf("pagerank(%d, %v): %s", iter, d, m)
	}
}

func checkCommunities(c *h.C, e *gm.Env) int {
	res, err := e.G.CommunityDetection(e.Ctx)
	c.Must(err, "communities")
	of := map[string]int{}
	for i, x := range res {
		if len(x.Nodes) == 0 {
			c.Fatalf("an empty community: %+v", res)
		}
		if i > 0 && len(res[i-1].Nodes) < len(x.Nodes) {
			c.Fatalf("communities not largest first: %+v", res)
		}
		if math.Abs(x.Score-float64(len(x.Nodes))/float64(len(e.Nodes))) > 1e-9 {
			c.Fatalf("community of %d of %d nodes has score %v", len(x.Nodes), len(e.Nodes), x.Score)
		}
		for _, id := range x.Nodes {
			if _, ok := of[id]; ok || e.Nodes[id] == nil {
				c.Fatalf("%q is in two communities or not stored: %+v", id, res)
			}
			of[id] = i
		}
	}
	if len(of) != len(e.Nodes) {
		c.Fatalf("%d nodes are in communities, %d are stored", len(of), len(e.Nodes))
	}
	comp, _ := components(e)
	first := map[int]string{}
	for id, i := range of {
		if f, ok := first[i]; ok && comp[f] != comp[id] {
			c.Fatalf("%q and %q are in one community, though not connected", f, id)
		}
		first[i] = id
	}
	// no node is tied more strongly to another community than to its own
	w := map[string]map[int]float64{}
	for id := range e.Nodes {
		w[id] = map[int]float64{}
	}
	for _, g := range e.Edges {
		if g.FromNodeID != g.ToNodeID {
			w[g.FromNodeID][of[g.ToNodeID]] += g.Weight
			w[g.ToNodeID][of[g.FromNodeID]] += g.Weight
		}
	}
	for id := range e.Nodes {
		for i, x := range w[id] {
			if x > w[id][of[id]]+math.Abs(w[id][of[id]])*1e-9+1e-9 {
				c.Fatalf("%q is tied to community %q by %v and to its own %q by %v", id, res[i].Nodes, x, res[of[id]].Nodes, w[id][of[id]])
			}
		}
	}
	return len(res)
}

func TestAlgorithms(t *testing.T) {
	h.Check(t, h.Opt{Quick: 500, Thorough: 12000}, func(c *h.C) {
		kind := rapid.IntRange(0, 2).Draw(c.T, "sim")
		sim := mdl.Sims[kind]
		e := gm.NewEnv(c, 2, func(cfg *core.Config) { cfg.SimilarityFn = sim.Fn })
		n := rapid.IntRange(0, 11).Draw(c.T, "nodes")
		e.NodeN = max(n, 3)
		m := 0
		if n > 0 {
			m = rapid.IntRange(0, 2*n+3).Draw(c.T, "edges")
		}
		e.Prepare(c.T, n, m)
		checkStats(c, e)
		for i := 0; i < 3; i++ {
			checkRank(c, e, rapid.IntRange(-1, 12).Draw(c.T, "iter"), rapid.SampledFrom([]float64{0, 0.85, 0.5, 0.9, 0.1, -1, 1.5, 1}).Draw(c.T, "damping"))
		}
		communities := checkCommunities(c, e)
		predicted := 0
		for i := 0; i < 3 && len(e.Nodes) > 0; i++ {
			predicted += checkPredict(c, e, sim.Ref)
		}
		if communities > 1 && communities < len(e.Nodes) && predicted > 0 {
			c.NonTrivial()
		}
	})
}

func checkPredict(c *h.C, e *gm.Env, sim func(a, b []float32) float64) int {
	id := e.SomeNode(c.T, "node")
	k := rapid.SampledFrom([]int{0, 1, 2, 5, 20}).Draw(c.T, "k")
	c.Op("predict %q %d", id, k)
	got, err := e.G.PredictEdges(e.Ctx, id, k)
	h.CheckInfra(err)
	node := e.Nodes[id]
	if node == nil {
		if err == nil {
			c.Fatalf("edges of %q, which is not stored, are predicted", id)
		}
		return 0
	}
	c.Must(err, "predict")
	adj := map[string]map[string]bool{}
	for x := range e.Nodes {
		adj[x] = map[string]bool{}
	}
	for _, g := range e.Edges {
		adj[g.FromNodeID][g.ToNodeID] = true
		adj[g.ToNodeID][g.FromNodeID] = true
	}
	want, method := map[string]float64{}, map[string]string{}
	for x, o := range e.Nodes {
		if x == id || adj[id][x] {
			continue
		}
		common := 0
		for y := range adj[id] {
			if adj[x][y] {
				common++
			}
		}
		s := sim(node.Vector, o.Vector)
		method[x] = "vector_similarity"
		if common > 0 {
			s = (s + float64(common)/float64(len(adj[id])+1)) / 2
			method[x] = "combined"
		}
		if h.Near(s, 0.5, 1e-5) {
			return 0 // on the edge of being predicted
		}
		if s > 0.5 {
			want[x] = s
		}
	}
	var ids []string
	var sc []float64
	for _, p := range got {
		if p.FromNodeID != id || p.Method != method[p.ToNodeID] {
			c.Fatalf("prediction for %q: %+v, want method %q", id, p, method[p.ToNodeID])
		}
		ids, sc = append(ids, p.ToNodeID), append(sc, p.Score)
	}
	if k <= 0 {
		k = 10
	}
	if m := h.CheckTopK(ids, sc, want, k, 1e-5); m != "" {
		c.Fatalf("predictions for %q: %s", id, m)
	}
	return len(want)
}

func TestLarge(t *testing.T) {
	h.Check(t, h.Opt{Quick: 15, Thorough: 300}, func(c *h.C) {
		e := gm.NewEnv(c, 2, nil)
		n := rapid.IntRange(50, 400).Draw(c.T, "n")
		m := rapid.IntRange(n/2, 3*n).Draw(c.T, "m")
		seed := rapid.Uint64().Draw(c.T, "seed")
		r := rand.New(rand.NewPCG(seed, 3))
		c.Op("%d nodes, %d edges, seed %d", n, m, seed)
		var ns []*graph.GraphNode
		var es []*graph.GraphEdge
		for i := 0; i < n; i++ {
			ns = append(ns, &graph.GraphNode{ID: fmt.Sprintf("N%d", i), Vector: []float32{1, 2}})
		}
		for i := 0; i < m; i++ {
			es = append(es, &graph.GraphEdge{ID: fmt.Sprintf("E%d", i), FromNodeID: fmt.Sprintf("N%d", r.IntN(n)), ToNodeID: fmt.Sprintf("N%d", r.IntN(n)), Weight: 1 + float64(r.IntN(5))})
		}
		e.NodesBatch(ns)
		e.EdgesBatch(es)
		c.NonTrivial()
		checkStats(c, e)
		checkRank(c, e, r.IntN(25), 0.85)
		checkCommunities(c, e)
	})
}
