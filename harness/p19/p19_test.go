// P19: the property graph is a map of nodes and a map of edges between them.
package p19

import (
	"fmt"
	"math/rand/v2"
	"testing"

	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
	"github.com/liliang-cn/cortexdb/v2/verifharness/gm"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"pgregory.net/rapid"
)

func TestHistory(t *testing.T) {
	h.Check(t, h.Opt{Quick: 250, Thorough: 6000, Steps: 20}, func(c *h.C) {
		e := gm.NewEnv(c, 3, nil)
		e.AnyDim = rapid.Bool().Draw(c.T, "anydim")
		e.AnyWeight = rapid.Bool().Draw(c.T, "anyweight")
		e.Indexed = !e.AnyDim && rapid.IntRange(0, 3).Draw(c.T, "indexed") == 0
		if e.Indexed {
			c.Must(e.G.EnableHNSWIndex(3), "index")
			c.Class("indexed")
		}
		acts := e.Actions()
		acts["reopen"] = func(t *rapid.T) {
			if rapid.IntRange(0, 2).Draw(t, "really") == 0 {
				e.Reopen()
			}
		}
		acts["some"] = func(t *rapid.T) {
			types := rapid.SliceOfN(rapid.SampledFrom(gm.NodeTypes), 0, 2).Draw(t, "types")
			c.Op("nodes of types %q", types)
			ns, err := e.G.GetAllNodes(e.Ctx, &graph.GraphFilter{NodeTypes: types})
			c.Must(err, "filtered nodes")
			e.CheckNodes("filtered nodes", ns, e.NodesWhere(func(n *graph.GraphNode) bool {
				for _, x := range types {
					if x == n.NodeType {
						return true
					}
				}
				return len(types) == 0
			}))
			var ids []string
			want := map[string]bool{}
			for i := rapid.IntRange(0, 4).Draw(t, "n"); i > 0; i-- {
				id := e.SomeNode(t, "nid")
				ids = append(ids, id)
				want[id] = true
			}
			ns, err = e.G.GetNodesBatch(e.Ctx, ids)
			c.Must(err, "nodes batch")
			e.CheckNodes("nodes by id", ns, e.NodesWhere(func(n *graph.GraphNode) bool { return want[n.ID] }))
		}
		acts["direction"] = func(t *rapid.T) {
			if _, err := e.G.GetEdges(e.Ctx, "a", "sideways"); err == nil {
				c.Fatalf("an unknown direction was accepted")
			}
		}
		acts[""] = func(t *rapid.T) { e.CheckAll() }
		c.T.Repeat(acts)
		if e.Replaced > 0 && e.Cascaded > 0 && e.Refused > 0 {
			c.NonTrivial()
		}
	})
}

// Large batches are stored, read and deleted like small ones.
func TestBulk(t *testing.T) {
	h.Check(t, h.Opt{Quick: 20, Thorough: 300}, func(c *h.C) {
		e := gm.NewEnv(c, 2, nil)
		n := rapid.IntRange(90, 1500).Draw(c.T, "n")
		seed := rapid.Uint64().Draw(c.T, "seed")
		r := rand.New(rand.NewPCG(seed, 1))
		c.Op("%d nodes, seed %d", n, seed)
		c.NonTrivial()
		var ns []*graph.GraphNode
		var es []*graph.GraphEdge
		var ids, eids []string
		for i := 0; i < n; i++ {
			id := fmt.Sprintf("N%d", i)
			ids = append(ids, id)
			ns = append(ns, &graph.GraphNode{ID: id, Vector: []float32{r.Float32(), 1}, Content: fmt.Sprint(i), NodeType: gm.NodeTypes[r.IntN(3)], Properties: map[string]interface{}{"i": float64(i)}})
			eid := fmt.Sprintf("E%d", i)
			eids = append(eids, eid)
			es = append(es, &graph.GraphEdge{ID: eid, FromNodeID: fmt.Sprintf("N%d", r.IntN(n)), ToNodeID: fmt.Sprintf("N%d", r.IntN(n)), EdgeType: "t", Weight: 0.5 + float64(r.IntN(3))})
		}
		if rapid.Bool().Draw(c.T, "execute") {
			_, err := e.G.ExecuteBatch(e.Ctx, &graph.BatchGraphOperation{NodeUpserts: ns, EdgeUpserts: es})
			c.Must(err, "execute")
			for _, x := range ns {
				e.Nodes[x.ID] = x
			}
			for _, x := range es {
				e.Edges[x.ID] = x
			}
		} else {
			e.NodesBatch(ns)
			e.EdgesBatch(es)
		}
		check := func() {
			all, err := e.G.GetAllNodes(e.Ctx, nil)
			c.Must(err, "all nodes")
			e.CheckNodes("all nodes", all, e.Nodes)
			some, err := e.G.GetNodesBatch(e.Ctx, ids)
			c.Must(err, "nodes batch")
			e.CheckNodes("nodes batch", some, e.Nodes)
			ge, err := e.G.GetEdgesBatch(e.Ctx, eids)
			c.Must(err, "edges batch")
			e.CheckEdges("edges batch", ge, e.Edges)
		}
		check()
		e.Reopen()
		check()
		r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
		del := ids[:r.IntN(n)]
		gone := map[string]bool{}
		for _, id := range del {
			gone[id] = true
			delete(e.Nodes, id)
		}
		for k, x := range e.Edges {
			if gone[x.FromNodeID] || gone[x.ToNodeID] {
				delete(e.Edges, k)
			}
		}
		c.Op("delete %d nodes", len(del))
		var err error
		var res *graph.BatchResult
		if rapid.Bool().Draw(c.T, "execute2") {
			res, err = e.G.ExecuteBatch(e.Ctx, &graph.BatchGraphOperation{NodeDeletes: del})
		} else {
			res, err = e.G.DeleteNodesBatch(e.Ctx, del)
		}
		c.Must(err, "delete")
		if res.SuccessCount != len(del) || res.FailedCount != 0 {
			c.Fatalf("deleting %d stored nodes reports %d done, %d failed", len(del), res.SuccessCount, res.FailedCount)
		}
		check()
	})
}
