// P23: vector and hybrid search over the graph rank the stored nodes truly.
package p23

import (
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"sort"
	"testing"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
	"github.com/liliang-cn/cortexdb/v2/verifharness/gm"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"github.com/liliang-cn/cortexdb/v2/verifharness/mdl"
	"pgregory.net/rapid"
)

const tol = 1e-5

func in(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// reach gives, for every node within depth, its distance and the products of the weights
// along its shortest paths.
func reach(e *gm.Env, start, dir string, types []string, depth int) (map[string]int, map[string][]float64) {
	d, w := map[string]int{start: 0}, map[string][]float64{start: {1}}
	level := []string{start}
	for k := 1; k <= depth && len(level) > 0; k++ {
		next := map[string][]float64{}
		for _, u := range level {
			for _, g := range e.Edges {
				if len(types) > 0 && !in(types, g.EdgeType) {
					continue
				}
				step := func(from, to string) {
					if _, ok := d[to]; from != u || ok {
						return
					}
					for _, x := range w[u] {
						next[to] = append(next[to], x*g.Weight)
					}
				}
				if dir != "in" {
					step(g.FromNodeID, g.ToNodeID)
				}
				if dir != "out" {
					step(g.ToNodeID, g.FromNodeID)
				}
			}
		}
		level = nil
		for id, x := range next {
			sort.Float64s(x)
			u := x[:1]
			for _, y := range x[1:] {
				if !h.Near(y, u[len(u)-1], 1e-12) {
					u = append(u, y)
				}
			}
			d[id], w[id] = k, u
			level = append(level, id)
		}
	}
	return d, w
}

func split(c *h.C, e *gm.Env, rs []*graph.HybridResult, f func(*graph.HybridResult) float64) (ids []string, sc []float64) {
	for _, r := range rs {
		if w := e.Nodes[r.Node.ID]; w == nil || !gm.SameNode(r.Node, w) {
			c.Fatalf("result %s is not as stored", gm.NS(r.Node))
		}
		ids, sc = append(ids, r.Node.ID), append(sc, f(r))
	}
	return
}

func vscore(r *graph.HybridResult) float64 { return r.VectorScore }

// near: some score lies so close to the limit that rounding decides.
func near(m map[string]float64, x float64) bool {
	for _, s := range m {
		if h.Near(s, x, tol) && s != x {
			return true
		}
	}
	return false
}

func TestSearch(t *testing.T) {
	h.Check(t, h.Opt{Quick: 500, Thorough: 12000}, func(c *h.C) {
		sim := mdl.Sims[rapid.IntRange(0, 2).Draw(c.T, "sim")]
		e := gm.NewEnv(c, 3, func(cfg *core.Config) { cfg.SimilarityFn = sim.Fn })
		e.NZ = true
		indexed := rapid.Bool().Draw(c.T, "indexed")
		early := rapid.Bool().Draw(c.T, "early")
		enable := func() {
			e.Indexed = true
			c.Op("enable index")
			c.Must(e.G.EnableHNSWIndex(3), "index")
		}
		if indexed && early {
			enable()
		}
		n := rapid.IntRange(0, 14).Draw(c.T, "nodes")
		e.NodeN = max(n, 5)
		m := 0
		if n > 0 {
			m = rapid.IntRange(0, 2*n).Draw(c.T, "edges")
		}
		e.Prepare(c.T, n, m)
		if rapid.IntRange(0, 4).Draw(c.T, "reopen") == 0 {
			e.Reopen()
		}
		if indexed && !early {
			enable()
		}
		c.Class(fmt.Sprintf("indexed=%v %s", indexed, sim.Name))
		cut := 0
		q := h.NZVec(c.T, 3, "q")
		all := map[string]float64{}
		for id, n := range e.Nodes {
			all[id] = sim.Ref(q, n.Vector)
		}
		thr := func(label string) float64 {
			return rapid.SampledFrom([]float64{0, 0, -1.37, 0.123, 0.71, 2.3}).Draw(c.T, label)
		}
		above := func(m map[string]float64, x float64) map[string]float64 {
			o := map[string]float64{}
			for id, s := range m {
				if s >= x {
					o[id] = s
				}
			}
			return o
		}
		// plain vector search through the index
		k, th := rapid.SampledFrom([]int{1, 2, 3, 20}).Draw(c.T, "k"), thr("th")
		c.Op("index search %s k=%d threshold %v", h.VS(q), k, th)
		res, err := e.G.HNSWSearch(e.Ctx, q, k, th)
		if !indexed {
			if err == nil {
				c.Fatalf("a search in an index that is not there succeeded")
			}
		} else if !near(all, th) {
			c.Must(err, "index search")
			ids, sc := split(c, e, res, vscore)
			want := above(all, th)
			if m := h.CheckTopK(ids, sc, want, k, tol); m != "" {
				c.Fatalf("index search %s k=%d threshold %v: %s", h.VS(q), k, th, m)
			}
			if len(want) > k || len(want) < len(all) && len(want) > 0 {
				cut++
			}
		}
		// similar nodes
		if id := e.SomeNode(c.T, "like"); true {
			o := core.SearchOptions{TopK: rapid.SampledFrom([]int{0, 1, 2, 5}).Draw(c.T, "sk"), Threshold: thr("sth")}
			c.Op("similar to %q, %d over %v", id, o.TopK, o.Threshold)
			res, err := e.G.SimilarityInGraph(e.Ctx, id, o)
			h.CheckInfra(err)
			me := e.Nodes[id]
			if me == nil {
				if err == nil {
					c.Fatalf("nodes similar to %q, which is not stored", id)
				}
			} else {
				c.Must(err, "similar")
				want := map[string]float64{}
				for x, n := range e.Nodes {
					if x != id {
						want[x] = sim.Ref(me.Vector, n.Vector)
					}
				}
				if o.Threshold == 0 || !near(want, o.Threshold) {
					if o.Threshold != 0 {
						want = above(want, o.Threshold)
					}
					ids, sc := split(c, e, res, vscore)
					if m := h.CheckTopK(ids, sc, want, o.TopK, tol); m != "" {
						c.Fatalf("similar to %q %d over %v: %s", id, o.TopK, o.Threshold, m)
					}
					// a threshold lets through what just reaches it
					if o.TopK == 0 && len(res) > 0 {
						at := res[rapid.IntRange(0, len(res)-1).Draw(c.T, "at")].VectorScore
						n := 0
						for _, r := range res {
							if r.VectorScore >= at {
								n++
							}
						}
						again, err := e.G.SimilarityInGraph(e.Ctx, id, core.SearchOptions{Threshold: at})
						c.Must(err, "similar")
						if at != 0 && len(again) != n {
							c.Fatalf("similar to %q over %v finds %d nodes, though %d are as similar", id, at, len(again), n)
						}
					}
				}
			}
		}
		// the neighbourhood
		if id := e.SomeNode(c.T, "around"); true {
			o := graph.TraversalOptions{MaxDepth: rapid.IntRange(0, 4).Draw(c.T, "depth"), Direction: rapid.SampledFrom([]string{"", "both", "out", "in"}).Draw(c.T, "dir"), Limit: rapid.SampledFrom([]int{0, 0, 1, 2, 4}).Draw(c.T, "limit")}
			if rapid.IntRange(0, 2).Draw(c.T, "nt") == 0 {
				o.NodeTypes = rapid.SliceOfN(rapid.SampledFrom(gm.NodeTypes), 1, 3).Draw(c.T, "ntypes")
			}
			if rapid.IntRange(0, 2).Draw(c.T, "et") == 0 {
				o.EdgeTypes = rapid.SliceOfN(rapid.SampledFrom(gm.EdgeTypes), 1, 3).Draw(c.T, "etypes")
			}
			c.Op("around %q %+v", id, o)
			res, err := e.G.GraphVectorSearch(e.Ctx, id, q, o)
			c.Must(err, "neighbourhood search")
			dir := o.Direction
			d, _ := reach(e, id, dir, o.EdgeTypes, max(o.MaxDepth, 1))
			want := map[string]float64{}
			for x := range d {
				if n := e.Nodes[x]; n != nil && (x == id || len(o.NodeTypes) == 0 || in(o.NodeTypes, n.NodeType)) {
					want[x] = all[x]
				}
			}
			ids, sc := split(c, e, res, vscore)
			if m := h.CheckTopK(ids, sc, want, o.Limit, tol); m != "" {
				c.Fatalf("around %q %+v: %s", id, o, m)
			}
			if o.Limit > 0 && len(want) > o.Limit {
				cut++
			}
		}
		for i := 0; i < 2; i++ {
			cut += hybrid(c, e, all, q)
		}
		cut += indexHybrid(c, e, all, q, indexed)
		if cut > 1 && len(e.Edges) > 0 {
			c.NonTrivial()
		}
	})
}

func hybrid(c *h.C, e *gm.Env, all map[string]float64, q []float32) int {
	hq := &graph.HybridQuery{TopK: rapid.SampledFrom([]int{0, 1, 2, 3, 10}).Draw(c.T, "hk"), Threshold: rapid.SampledFrom([]float64{0, 0, 0.123, 0.71, -1.37}).Draw(c.T, "hth")}
	mode := rapid.IntRange(0, 3).Draw(c.T, "mode")
	if mode != 1 {
		hq.Vector = append([]float32{}, q...)
	}
	if mode != 0 {
		hq.StartNodeID = e.SomeNode(c.T, "start")
	}
	depth := 3
	var ntypes, etypes []string
	if rapid.Bool().Draw(c.T, "filter") {
		f := &graph.GraphFilter{MaxDepth: rapid.IntRange(0, 4).Draw(c.T, "fdepth")}
		if f.MaxDepth > 0 {
			depth = f.MaxDepth
		}
		if rapid.Bool().Draw(c.T, "fn") {
			f.NodeTypes = rapid.SliceOfN(rapid.SampledFrom(gm.NodeTypes), 1, 3).Draw(c.T, "fntypes")
		}
		if rapid.Bool().Draw(c.T, "fe") {
			f.EdgeTypes = rapid.SliceOfN(rapid.SampledFrom(gm.EdgeTypes), 1, 3).Draw(c.T, "fetypes")
		}
		ntypes, etypes = f.NodeTypes, f.EdgeTypes
		hq.GraphFilter = f
	}
	hq.Weights = rapid.SampledFrom([]graph.HybridWeights{{}, {VectorWeight: 1}, {GraphWeight: 1}, {VectorWeight: 2, GraphWeight: 1, EdgeWeight: 1}, {VectorWeight: 0.5, GraphWeight: 0.3, EdgeWeight: 0.2}, {VectorWeight: 0.1, EdgeWeight: 0.9}, {VectorWeight: 0.1, GraphWeight: 0.3}}).Draw(c.T, "weights")
	w := hq.Weights
	if t := w.VectorWeight + w.GraphWeight + w.EdgeWeight; t == 0 {
		w = graph.HybridWeights{VectorWeight: 0.5, GraphWeight: 0.3, EdgeWeight: 0.2}
	} else {
		w.VectorWeight /= t
		w.GraphWeight /= t
		w.EdgeWeight /= t
	}
	if len(hq.Vector) > 0 && hq.Threshold != 0 && near(all, hq.Threshold) {
		return 0
	}
	keep := *hq
	c.Op("hybrid %+v filter %+v", *hq, hq.GraphFilter)
	res, err := e.G.HybridSearch(e.Ctx, hq)
	c.Must(err, "hybrid search")
	if !reflect.DeepEqual(*hq, keep) {
		c.Fatalf("the caller's query was changed to %+v", *hq)
	}
	d, ws := map[string]int{}, map[string][]float64{}
	if hq.StartNodeID != "" {
		d, ws = reach(e, hq.StartNodeID, "out", etypes, depth)
	}
	want, others := map[string]float64{}, map[string][]float64{}
	ambiguous := false
	for id, n := range e.Nodes {
		if len(ntypes) > 0 && !in(ntypes, n.NodeType) {
			continue
		}
		x, reached := d[id]
		byVec := len(hq.Vector) > 0 && (hq.Threshold == 0 || all[id] >= hq.Threshold)
		if !reached && !byVec {
			continue
		}
		s := 0.0
		if len(hq.Vector) > 0 {
			s = all[id] * w.VectorWeight
		}
		if reached {
			s += w.GraphWeight / float64(x+1)
			for _, y := range ws[id] {
				others[id] = append(others[id], s+y*w.EdgeWeight)
			}
			if len(ws[id]) > 1 && w.EdgeWeight != 0 {
				ambiguous = true
			}
			s = others[id][0]
		} else {
			others[id] = []float64{s}
		}
		want[id] = s
	}
	ids, sc := split(c, e, res, func(r *graph.HybridResult) float64 { return r.CombinedScore })
	for _, r := range res {
		id := r.Node.ID
		x, reached := d[id]
		if !reached {
			x = -1
		}
		v, g := 0.0, 0.0
		if len(hq.Vector) > 0 {
			v = all[id]
		}
		if reached {
			g = 1 / float64(x+1)
		}
		if _, ok := want[id]; !ok || r.Distance != x || !h.Near(r.VectorScore, v, tol) || !h.Near(r.GraphScore, g, tol) {
			c.Fatalf("hybrid %+v: %q at distance %d with scores %v and %v, want %d, %v and %v (eligible %v)", keep, id, r.Distance, r.VectorScore, r.GraphScore, x, v, g, ok)
		}
	}
	if mode == 0 && hq.TopK == 0 && len(res) > 0 {
		// a threshold lets through what just reaches it
		at, n := res[rapid.IntRange(0, len(res)-1).Draw(c.T, "at")].VectorScore, 0
		for _, r := range res {
			if r.VectorScore >= at {
				n++
			}
		}
		again := keep
		again.Threshold = at
		more, err := e.G.HybridSearch(e.Ctx, &again)
		c.Must(err, "hybrid search")
		if at != 0 && len(more) != n {
			c.Fatalf("hybrid %+v: %d nodes at threshold %v, though %d score as much", keep, len(more), at, n)
		}
	}
	if !ambiguous {
		if m := h.CheckTopK(ids, sc, want, hq.TopK, tol); m != "" {
			c.Fatalf("hybrid %+v filter %+v: %s", keep, keep.GraphFilter, m)
		}
	} else {
		wantN := len(want)
		if hq.TopK > 0 {
			wantN = min(wantN, hq.TopK)
		}
		if len(ids) != wantN {
			c.Fatalf("hybrid %+v: %d results, want %d", keep, len(ids), wantN)
		}
		for i, id := range ids {
			ok := false
			for _, y := range others[id] {
				ok = ok || h.Near(y, sc[i], tol)
			}
			if !ok || i > 0 && sc[i] > sc[i-1]+tol*(1+math.Abs(sc[i])) {
				c.Fatalf("hybrid %+v: %q scores %v, want one of %v, best first", keep, id, sc[i], others[id])
			}
		}
	}
	if hq.TopK > 0 && len(want) > hq.TopK && len(d) > 1 {
		return 1
	}
	return 0
}

func indexHybrid(c *h.C, e *gm.Env, all map[string]float64, q []float32, indexed bool) int {
	if !indexed {
		return 0 // then it is the hybrid search above
	}
	n := len(e.Nodes)
	hq := &graph.HybridQuery{Vector: q, TopK: rapid.SampledFrom([]int{1, 3, 10}).Draw(c.T, "ik"), VectorWeight: rapid.SampledFrom([]float64{1, 0.4, 0}).Draw(c.T, "ivw"), GraphWeight: rapid.SampledFrom([]float64{0, 0.6, 2}).Draw(c.T, "igw"),
		VectorThreshold: rapid.SampledFrom([]float64{-100, 0.123, 0.71}).Draw(c.T, "ivt"), TotalThreshold: rapid.SampledFrom([]float64{-100, 0.2345}).Draw(c.T, "itt")}
	for i := rapid.IntRange(0, 2).Draw(c.T, "centers"); i > 0; i-- {
		hq.CenterNodes = append(hq.CenterNodes, e.SomeNode(c.T, "center"))
	}
	c.Op("index hybrid %+v", *hq)
	res, err := e.G.HNSWHybridSearch(e.Ctx, hq)
	c.Must(err, "index hybrid search")
	want, gs := map[string]float64{}, map[string]float64{}
	skip := near(all, hq.VectorThreshold)
	for id := range e.Nodes {
		for _, ct := range hq.CenterNodes {
			if e.Nodes[ct] == nil {
				continue
			}
			d, _ := reach(e, ct, "out", nil, n)
			if x, ok := d[id]; ok {
				gs[id] = math.Max(gs[id], 1/float64(x+1))
			}
		}
		t := hq.VectorWeight*all[id] + hq.GraphWeight*gs[id]
		if h.Near(t, hq.TotalThreshold, tol) {
			skip = true
		}
		if all[id] >= hq.VectorThreshold && t >= hq.TotalThreshold {
			want[id] = t
		}
	}
	if skip {
		return 0
	}
	ids, sc := split(c, e, res, func(r *graph.HybridResult) float64 { return r.TotalScore })
	for i, r := range res {
		id := ids[i]
		w, ok := want[id]
		if !ok || !h.Near(w, sc[i], tol) || !h.Near(r.VectorScore, all[id], tol) || !h.Near(r.GraphScore, gs[id], tol) || len(ids) > hq.TopK || i > 0 && sc[i] > sc[i-1]+tol {
			c.Fatalf("index hybrid %+v: %q scores %v (%v, %v), want %v (%v, %v), eligible %v, best first", *hq, id, sc[i], r.VectorScore, r.GraphScore, w, all[id], gs[id], ok)
		}
	}
	if hq.TopK*3 >= n { // otherwise only the nodes nearest to the vector are looked at
		if m := h.CheckTopK(ids, sc, want, hq.TopK, tol); m != "" {
			c.Fatalf("index hybrid %+v: %s", *hq, m)
		}
	}
	if len(want) > hq.TopK {
		return 1
	}
	return 0
}

// With many nodes the index finds nearly all of the nearest, and every node by itself.
func TestLarge(t *testing.T) {
	h.Check(t, h.Opt{Quick: 12, Thorough: 200}, func(c *h.C) {
		e := gm.NewEnv(c, 6, nil)
		n := rapid.IntRange(60, 500).Draw(c.T, "n")
		seed := rapid.Uint64().Draw(c.T, "seed")
		r := rand.New(rand.NewPCG(seed, 4))
		c.Op("%d nodes, seed %d", n, seed)
		vec := func() []float32 {
			v := make([]float32, 6)
			for i := range v {
				v[i] = float32(r.NormFloat64())
			}
			return v
		}
		rare := []int{2, 10, 40}[r.IntN(3)]
		kind := func(i int) string {
			if i%rare == 0 {
				return "rare"
			}
			return "common"
		}
		early := r.IntN(2) == 0
		if early {
			e.Indexed = true
			c.Must(e.G.EnableHNSWIndex(6), "index")
		}
		var ns []*graph.GraphNode
		for i := 0; i < n; i++ {
			ns = append(ns, &graph.GraphNode{ID: fmt.Sprintf("N%d", i), Vector: vec(), NodeType: kind(i)})
		}
		if r.IntN(2) == 0 {
			e.NodesBatch(ns)
		} else {
			for _, x := range ns {
				e.UpsertNode(x)
			}
		}
		if !early {
			e.Indexed = true
			c.Must(e.G.EnableHNSWIndex(6), "index")
		}
		for i := r.IntN(n / 3); i > 0; i-- {
			id := fmt.Sprintf("N%d", r.IntN(n))
			if r.IntN(2) == 0 {
				e.UpsertNode(&graph.GraphNode{ID: id, Vector: vec(), NodeType: kind(r.IntN(100))})
			} else if e.Nodes[id] != nil {
				c.Must(e.G.DeleteNode(e.Ctx, id), "delete")
				delete(e.Nodes, id)
			}
		}
		c.NonTrivial()
		hit, total, lost := 0, 0, 0
		for i := 0; i < 25; i++ {
			q := vec()
			k := 1 + r.IntN(20)
			all := map[string]float64{}
			var best []float64
			for id, x := range e.Nodes {
				all[id] = h.Cosine(q, x.Vector)
				best = append(best, all[id])
			}
			sort.Float64s(best)
			k = min(k, len(best))
			res, err := e.G.HNSWSearch(e.Ctx, q, k, -2)
			c.Must(err, "search")
			ids, sc := split(c, e, res, vscore)
			if len(ids) != k {
				c.Fatalf("%d results, want %d", len(ids), k)
			}
			seen := map[string]bool{}
			for j, id := range ids {
				if seen[id] || !h.Near(sc[j], all[id], tol) || j > 0 && sc[j] > sc[j-1]+tol {
					c.Fatalf("%q scores %v, want %v, each once and best first: %q %v", id, sc[j], all[id], ids, sc)
				}
				seen[id] = true
				if sc[j] >= best[len(best)-k]-tol {
					hit++
				}
			}
			total += k

			// restricted to a type, as many and nearly the best of that type
			hq := &graph.HybridQuery{Vector: q, TopK: k, Weights: graph.HybridWeights{VectorWeight: 1}, GraphFilter: &graph.GraphFilter{NodeTypes: []string{"rare"}}}
			typed := map[string]float64{}
			best = best[:0]
			for id, x := range e.Nodes {
				if x.NodeType == "rare" {
					typed[id] = h.Cosine(q, x.Vector)
					best = append(best, typed[id])
				}
			}
			sort.Float64s(best)
			m := min(k, len(best))
			res, err = e.G.HybridSearch(e.Ctx, hq)
			c.Must(err, "hybrid search")
			if len(res) != m {
				c.Fatalf("hybrid search for %d of %d nodes of a type gives %d", k, len(best), len(res))
			}
			for j, x := range res {
				want, ok := typed[x.Node.ID]
				if !ok || !h.Near(x.CombinedScore, want, tol) || j > 0 && x.CombinedScore > res[j-1].CombinedScore+tol {
					c.Fatalf("hybrid search: %q scores %v, want %v", x.Node.ID, x.CombinedScore, want)
				}
				if x.CombinedScore >= best[len(best)-m]-tol {
					hit++
				}
			}
			total += m
			for id, x := range e.Nodes {
				res, err := e.G.HNSWSearch(e.Ctx, x.Vector, 1, -2)
				c.Must(err, "search")
				if len(res) != 1 || !h.Near(res[0].VectorScore, 1, tol) {
					lost++
				}
				_ = id
				break
			}
		}
		if float64(hit) < 0.8*float64(total) {
			c.Fatalf("%d of the %d nearest nodes are found", hit, total)
		}
		if lost > 2 {
			c.Fatalf("%d of 25 nodes are not found by their own vectors", lost)
		}
	})
}
