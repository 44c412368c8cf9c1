// Package gm is a reference model of the property graph (two maps) together with
// generated operations that are applied to the store and to the model alike.
package gm

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"pgregory.net/rapid"
)

// Env is a graph store under test with its model.
type Env struct {
	C       *h.C
	S       *core.SQLiteStore
	G       *graph.GraphStore
	Cfg     core.Config
	Dim     int
	Indexed bool
	// AnyDim: vectors of nodes have any length
	AnyDim bool
	// AnyWeight: edges weigh any number
	AnyWeight bool
	// Plain: no unmarshallable properties, no invalid rows
	Plain bool
	NZ    bool
	Nodes map[string]*graph.GraphNode
	Edges map[string]*graph.GraphEdge
	NodeN int // number of node ids in use
	Ctx   context.Context

	Replaced, Removed, Cascaded, Refused, Reopens int
}

var ids = []string{"a", "b", "A", "n'1", "日本", "x:y", "<p&q>", "a b", "n%", "b_", "g1", "g2", "g3", "g4", "g5", "g6", "g7", "g8", "g9", "g10", "g11", "g12", "g13", "g14", "g15"}
var eids = []string{"e1", "e_", "e3", "E1", "e'4", "e:5", "é6", "e7", "e8", "e9", "e10", "e11", "e12", "e13", "e14", "e15", "e16", "e17", "e18", "e19"}
var NodeTypes = []string{"", "person", "doc", "Person", "it's"}
var EdgeTypes = []string{"", "knows", "likes", "Knows", "it's"}

func NewEnv(c *h.C, dim int, edit func(*core.Config)) *Env {
	cfg := core.DefaultConfig()
	cfg.Path = filepath.Join(c.Dir(), "g.db")
	cfg.VectorDim = dim
	if edit != nil {
		edit(&cfg)
	}
	e := &Env{C: c, Cfg: cfg, Dim: dim, Nodes: map[string]*graph.GraphNode{}, Edges: map[string]*graph.GraphEdge{}, NodeN: 9, Ctx: context.Background()}
	e.Open()
	c.Defer(func() { _ = e.S.Close() })
	return e
}

func (e *Env) Open() {
	s, err := core.NewWithConfig(e.Cfg)
	e.C.Must(err, "open")
	e.C.Must(s.Init(e.Ctx), "init")
	e.S = s
	e.G = graph.NewGraphStore(s)
	e.C.Must(e.G.InitGraphSchema(e.Ctx), "graph schema")
	if e.Indexed {
		e.C.Must(e.G.EnableHNSWIndex(e.Dim), "enable index")
	}
}

func (e *Env) Reopen() {
	e.C.Op("reopen")
	e.Reopens++
	e.C.Must(e.S.Close(), "close")
	e.Open()
}

func (e *Env) NodeID(t *rapid.T, label string) string {
	return rapid.SampledFrom(ids[:e.NodeN]).Draw(t, label)
}

// SomeNode is mostly the id of a node that exists.
func (e *Env) SomeNode(t *rapid.T, label string) string {
	if len(e.Nodes) > 0 && rapid.IntRange(0, 6).Draw(t, label+"known") > 0 {
		return rapid.SampledFrom(e.NodeIDs()).Draw(t, label)
	}
	return e.NodeID(t, label)
}

func EdgeID(t *rapid.T, label string) string { return rapid.SampledFrom(eids).Draw(t, label) }

func (e *Env) NodeIDs() []string { return keys(e.Nodes) }
func (e *Env) EdgeIDs() []string { return keys(e.Edges) }

func keys[V any](m map[string]V) []string {
	k := make([]string, 0, len(m))
	for i := range m {
		k = append(k, i)
	}
	sort.Strings(k)
	return k
}

func props(t *rapid.T) map[string]interface{} {
	switch rapid.IntRange(0, 4).Draw(t, "props") {
	case 0:
		return nil
	case 1:
		return map[string]interface{}{}
	}
	m := map[string]interface{}{}
	for i := rapid.IntRange(1, 3).Draw(t, "nprops"); i > 0; i-- {
		k := rapid.SampledFrom([]string{"name", "year", "k'", "日", "a.b", "<k>"}).Draw(t, "pk")
		switch rapid.IntRange(0, 5).Draw(t, "pv") {
		case 0:
			m[k] = float64(rapid.IntRange(-5, 2000).Draw(t, "pn"))
		case 1:
			m[k] = rapid.Bool().Draw(t, "pb")
		case 2:
			m[k] = []interface{}{"x", 1.5, nil}
		case 3:
			m[k] = map[string]interface{}{"in": "ner"}
		default:
			m[k] = Text(t, "ps")
		}
	}
	return m
}

// Text is any text that XML can carry.
func Text(t *rapid.T, label string) string {
	if rapid.Bool().Draw(t, label+"sample") {
		return rapid.SampledFrom([]string{"", "alpha", "it's \"so\"", "<a>&amp;</a>", "line\nbreak\ttab\r\n", " lead and trail ", "日本語 🚀", "]]>", "\\u0000", "%s %d"}).Draw(t, label)
	}
	return rapid.StringMatching(`[a-zA-Z0-9 <>&'"éß中]{0,12}`).Draw(t, label)
}

func (e *Env) vec(t *rapid.T) []float32 {
	d := e.Dim
	if e.AnyDim {
		d = rapid.IntRange(1, 5).Draw(t, "vdim")
	}
	if e.NZ {
		return h.NZVec(t, d, "vec")
	}
	return h.Vec(t, d, "vec")
}

func (e *Env) DrawNode(t *rapid.T, id string) *graph.GraphNode {
	return &graph.GraphNode{ID: id, Vector: e.vec(t), Content: Text(t, "content"), NodeType: rapid.SampledFrom(NodeTypes).Draw(t, "ntype"), Properties: props(t)}
}

func (e *Env) DrawEdge(t *rapid.T, id string) *graph.GraphEdge {
	g := &graph.GraphEdge{ID: id, FromNodeID: e.SomeNode(t, "from"), ToNodeID: e.SomeNode(t, "to"), EdgeType: rapid.SampledFrom(EdgeTypes).Draw(t, "etype"), Properties: props(t)}
	g.Weight = rapid.SampledFrom([]float64{0, 1, 0.5, 2, 3.25, 1e-7, 0.1, 12345.678901234, -2, 1.0 / 3, 0.30000000000000004}).Draw(t, "weight")
	if e.AnyWeight && rapid.IntRange(0, 3).Draw(t, "anyweight") == 0 {
		g.Weight = rapid.Float64().Draw(t, "weight")
	}
	if rapid.Bool().Draw(t, "evec") {
		g.Vector = h.Vec(t, rapid.IntRange(1, 4).Draw(t, "evdim"), "ev")
	}
	return g
}

// spoil makes a row invalid in one of the ways a caller can.
func (e *Env) spoilNode(t *rapid.T, n *graph.GraphNode) *graph.GraphNode {
	switch rapid.IntRange(0, 3).Draw(t, "spoil") {
	case 0:
		n.ID = ""
	case 1:
		n.Vector = nil
	case 2:
		n.Properties = map[string]interface{}{"bad": math.Inf(1)}
	case 3:
		return nil
	}
	return n
}

func (e *Env) spoilEdge(t *rapid.T, n *graph.GraphEdge) *graph.GraphEdge {
	switch rapid.IntRange(0, 4).Draw(t, "spoil") {
	case 0:
		n.ID = ""
	case 1:
		n.FromNodeID = ""
	case 2:
		n.ToNodeID = ""
	case 3:
		n.Properties = map[string]interface{}{"bad": math.Inf(1)}
	case 4:
		return nil
	}
	return n
}

func nodeOK(n *graph.GraphNode) bool {
	if n == nil || n.ID == "" || len(n.Vector) == 0 {
		return false
	}
	_, err := json.Marshal(n.Properties)
	return err == nil
}

func (e *Env) edgeOK(n *graph.GraphEdge) bool {
	if n == nil || n.ID == "" || e.Nodes[n.FromNodeID] == nil || e.Nodes[n.ToNodeID] == nil {
		return false
	}
	_, err := json.Marshal(n.Properties)
	return err == nil
}

func cloneN(n *graph.GraphNode) *graph.GraphNode {
	c := *n
	c.Vector = append([]float32{}, n.Vector...)
	return &c
}

func cloneE(n *graph.GraphEdge) *graph.GraphEdge {
	c := *n
	if len(n.Vector) > 0 {
		c.Vector = append([]float32{}, n.Vector...)
	}
	return &c
}

func (e *Env) putNode(n *graph.GraphNode) {
	if e.Nodes[n.ID] != nil {
		e.Replaced++
	}
	e.Nodes[n.ID] = n
}

func (e *Env) putEdge(n *graph.GraphEdge) {
	if e.Edges[n.ID] != nil {
		e.Replaced++
	}
	if n.Weight == 0 {
		n.Weight = 1
	}
	e.Edges[n.ID] = n
}

func (e *Env) dropNode(id string) bool {
	if e.Nodes[id] == nil {
		return false
	}
	delete(e.Nodes, id)
	e.Removed++
	for k, g := range e.Edges {
		if g.FromNodeID == id || g.ToNodeID == id {
			delete(e.Edges, k)
			e.Cascaded++
		}
	}
	return true
}

func (e *Env) dropEdge(id string) bool {
	if e.Edges[id] == nil {
		return false
	}
	delete(e.Edges, id)
	e.Removed++
	return true
}

func NS(n *graph.GraphNode) string {
	if n == nil {
		return "nil"
	}
	return fmt.Sprintf("{%q %s %q type=%q %v}", n.ID, h.VS(n.Vector), n.Content, n.NodeType, n.Properties)
}

func ES(n *graph.GraphEdge) string {
	if n == nil {
		return "nil"
	}
	return fmt.Sprintf("{%q %q->%q type=%q w=%v %v %s}", n.ID, n.FromNodeID, n.ToNodeID, n.EdgeType, n.Weight, n.Properties, h.VS(n.Vector))
}

func (e *Env) UpsertNode(n *graph.GraphNode) {
	e.C.Op("upsert node %s", NS(n))
	var in *graph.GraphNode
	if n != nil {
		in = cloneN(n)
	}
	err := e.G.UpsertNode(e.Ctx, in)
	h.CheckInfra(err)
	if !nodeOK(n) {
		if err == nil {
			e.C.Fatalf("an invalid node was accepted: %s", NS(n))
		}
		e.Refused++
		return
	}
	e.C.Must(err, "upsert node")
	e.putNode(n)
}

func (e *Env) UpsertEdge(n *graph.GraphEdge) {
	e.C.Op("upsert edge %s", ES(n))
	var in *graph.GraphEdge
	if n != nil {
		in = cloneE(n)
	}
	err := e.G.UpsertEdge(e.Ctx, in)
	h.CheckInfra(err)
	if !e.edgeOK(n) {
		if err == nil {
			e.C.Fatalf("an edge that is invalid or whose ends do not exist was accepted: %s", ES(n))
		}
		e.Refused++
		return
	}
	e.C.Must(err, "upsert edge")
	e.putEdge(n)
}

func (e *Env) counts(what string, r *graph.BatchResult, err error, ok, bad int) {
	e.C.Must(err, what)
	if r.SuccessCount != ok || r.FailedCount != bad {
		e.C.Fatalf("%s reports %d done and %d failed, want %d and %d (%v)", what, r.SuccessCount, r.FailedCount, ok, bad, r.Errors)
	}
}

func (e *Env) drawNodes(t *rapid.T, maxN int) []*graph.GraphNode {
	var ns []*graph.GraphNode
	for i := rapid.IntRange(0, maxN).Draw(t, "nn"); i > 0; i-- {
		n := e.DrawNode(t, e.NodeID(t, "nid"))
		if !e.Plain && rapid.IntRange(0, 9).Draw(t, "bad") == 0 {
			n = e.spoilNode(t, n)
		}
		ns = append(ns, n)
	}
	return ns
}

func (e *Env) drawEdges(t *rapid.T, maxN int) []*graph.GraphEdge {
	var ns []*graph.GraphEdge
	for i := rapid.IntRange(0, maxN).Draw(t, "ne"); i > 0; i-- {
		n := e.DrawEdge(t, EdgeID(t, "eid"))
		if !e.Plain && rapid.IntRange(0, 9).Draw(t, "bad") == 0 {
			n = e.spoilEdge(t, n)
		}
		ns = append(ns, n)
	}
	return ns
}

func list[T any](xs []T, f func(T) string) string {
	var s []string
	for _, x := range xs {
		s = append(s, f(x))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func (e *Env) applyNodes(ns []*graph.GraphNode) (ok, bad int) {
	for _, n := range ns {
		if nodeOK(n) {
			e.putNode(n)
			ok++
		} else {
			bad++
			e.Refused++
		}
	}
	return
}

func (e *Env) applyEdges(ns []*graph.GraphEdge) (ok, bad int) {
	for _, n := range ns {
		if e.edgeOK(n) {
			e.putEdge(n)
			ok++
		} else {
			bad++
			e.Refused++
		}
	}
	return
}

func copyNodes(ns []*graph.GraphNode) (o []*graph.GraphNode) {
	for _, n := range ns {
		if n != nil {
			n = cloneN(n)
		}
		o = append(o, n)
	}
	return
}

func copyEdges(ns []*graph.GraphEdge) (o []*graph.GraphEdge) {
	for _, n := range ns {
		if n != nil {
			n = cloneE(n)
		}
		o = append(o, n)
	}
	return
}

func (e *Env) NodesBatch(ns []*graph.GraphNode) {
	e.C.Op("upsert nodes %s", list(ns, NS))
	r, err := e.G.UpsertNodesBatch(e.Ctx, copyNodes(ns))
	ok, bad := e.applyNodes(ns)
	e.counts("node batch", r, err, ok, bad)
}

func (e *Env) EdgesBatch(ns []*graph.GraphEdge) {
	e.C.Op("upsert edges %s", list(ns, ES))
	r, err := e.G.UpsertEdgesBatch(e.Ctx, copyEdges(ns))
	ok, bad := e.applyEdges(ns)
	e.counts("edge batch", r, err, ok, bad)
}

// Actions mutate the graph and the model.
func (e *Env) Actions() map[string]func(*rapid.T) {
	someEdge := func(t *rapid.T) string {
		if len(e.Edges) > 0 && rapid.IntRange(0, 3).Draw(t, "known") > 0 {
			return rapid.SampledFrom(e.EdgeIDs()).Draw(t, "eid")
		}
		return EdgeID(t, "eid")
	}
	node := func(t *rapid.T) {
		n := e.DrawNode(t, e.NodeID(t, "nid"))
		if !e.Plain && rapid.IntRange(0, 12).Draw(t, "bad") == 0 {
			n = e.spoilNode(t, n)
		}
		e.UpsertNode(n)
	}
	edge := func(t *rapid.T) {
		n := e.DrawEdge(t, EdgeID(t, "eid"))
		if !e.Plain && rapid.IntRange(0, 12).Draw(t, "bad") == 0 {
			n = e.spoilEdge(t, n)
		}
		e.UpsertEdge(n)
	}
	return map[string]func(*rapid.T){
		"node": node, "node2": node, "edge": edge, "edge2": edge, "edge3": edge,
		"nodes": func(t *rapid.T) { e.NodesBatch(e.drawNodes(t, 5)) },
		"edges": func(t *rapid.T) { e.EdgesBatch(e.drawEdges(t, 6)) },
		"delnode": func(t *rapid.T) {
			id := e.SomeNode(t, "nid")
			e.C.Op("delete node %q", id)
			err := e.G.DeleteNode(e.Ctx, id)
			h.CheckInfra(err)
			if had := e.dropNode(id); had != (err == nil) {
				e.C.Fatalf("delete node %q: %v, stored=%v", id, err, had)
			}
		},
		"deledge": func(t *rapid.T) {
			id := someEdge(t)
			e.C.Op("delete edge %q", id)
			err := e.G.DeleteEdge(e.Ctx, id)
			h.CheckInfra(err)
			if had := e.dropEdge(id); had != (err == nil) {
				e.C.Fatalf("delete edge %q: %v, stored=%v", id, err, had)
			}
		},
		"delnodes": func(t *rapid.T) {
			var d []string
			for i := rapid.IntRange(0, 3).Draw(t, "n"); i > 0; i-- {
				d = append(d, e.SomeNode(t, "nid"))
			}
			e.C.Op("delete nodes %q", d)
			r, err := e.G.DeleteNodesBatch(e.Ctx, d)
			ok := 0
			for _, id := range d {
				if e.dropNode(id) {
					ok++
				}
			}
			e.counts("delete nodes", r, err, ok, len(d)-ok)
		},
		"deledges": func(t *rapid.T) {
			var d []string
			for i := rapid.IntRange(0, 4).Draw(t, "n"); i > 0; i-- {
				d = append(d, someEdge(t))
			}
			e.C.Op("delete edges %q", d)
			r, err := e.G.DeleteEdgesBatch(e.Ctx, d)
			ok := 0
			for _, id := range d {
				if e.dropEdge(id) {
					ok++
				}
			}
			e.counts("delete edges", r, err, ok, len(d)-ok)
		},
		"execute": func(t *rapid.T) {
			b := &graph.BatchGraphOperation{NodeUpserts: e.drawNodes(t, 3)}
			for i := rapid.IntRange(0, 2).Draw(t, "nd"); i > 0; i-- {
				b.NodeDeletes = append(b.NodeDeletes, e.SomeNode(t, "nd"))
			}
			b.EdgeUpserts = e.drawEdges(t, 4)
			for i := rapid.IntRange(0, 2).Draw(t, "ed"); i > 0; i-- {
				b.EdgeDeletes = append(b.EdgeDeletes, someEdge(t))
			}
			e.C.Op("execute: nodes %s, delete %q, edges %s, delete %q", list(b.NodeUpserts, NS), b.NodeDeletes, list(b.EdgeUpserts, ES), b.EdgeDeletes)
			r, err := e.G.ExecuteBatch(e.Ctx, &graph.BatchGraphOperation{NodeUpserts: copyNodes(b.NodeUpserts), NodeDeletes: b.NodeDeletes, EdgeUpserts: copyEdges(b.EdgeUpserts), EdgeDeletes: b.EdgeDeletes})
			ok, bad := e.applyNodes(b.NodeUpserts)
			for _, id := range b.NodeDeletes {
				if e.dropNode(id) {
					ok++
				} else {
					bad++
				}
			}
			o2, b2 := e.applyEdges(b.EdgeUpserts)
			ok, bad = ok+o2, bad+b2
			for _, id := range b.EdgeDeletes {
				if e.dropEdge(id) {
					ok++
				} else {
					bad++
				}
			}
			e.counts("execute", r, err, ok, bad)
		},
	}
}

// Prepare runs a short history and fills up to n nodes and m edges.
func (e *Env) Prepare(t *rapid.T, n, m int) {
	var ns []*graph.GraphNode
	for i := 0; i < n; i++ {
		ns = append(ns, e.DrawNode(t, ids[i]))
	}
	if n > 0 {
		e.NodesBatch(ns)
		var es []*graph.GraphEdge
		for i := 0; i < m; i++ {
			es = append(es, e.DrawEdge(t, fmt.Sprintf("m%d", i)))
		}
		e.EdgesBatch(es)
	}
	acts := e.Actions()
	names := keys(acts)
	for i := rapid.IntRange(0, 6).Draw(t, "steps"); i > 0; i-- {
		acts[rapid.SampledFrom(names).Draw(t, "act")](t)
	}
}

func sameProps(a, b map[string]interface{}) bool {
	if len(a) == 0 && len(b) == 0 {
		return true
	}
	return reflect.DeepEqual(a, b)
}

func SameNode(a, b *graph.GraphNode) bool {
	return a.ID == b.ID && a.Content == b.Content && a.NodeType == b.NodeType && h.SameVec(a.Vector, b.Vector) && sameProps(a.Properties, b.Properties)
}

func SameEdge(a, b *graph.GraphEdge) bool {
	return a.ID == b.ID && a.FromNodeID == b.FromNodeID && a.ToNodeID == b.ToNodeID && a.EdgeType == b.EdgeType && a.Weight == b.Weight && h.SameVec(a.Vector, b.Vector) && sameProps(a.Properties, b.Properties)
}

// CheckNodes: got is exactly want, as a set.
func (e *Env) CheckNodes(what string, got []*graph.GraphNode, want map[string]*graph.GraphNode) {
	seen := map[string]bool{}
	for _, n := range got {
		w := want[n.ID]
		if w == nil || seen[n.ID] {
			e.C.Fatalf("%s: %q is unexpected or repeated", what, n.ID)
		}
		seen[n.ID] = true
		if !SameNode(n, w) {
			e.C.Fatalf("%s: %s, stored was %s", what, NS(n), NS(w))
		}
	}
	if len(seen) != len(want) {
		e.C.Fatalf("%s: got %q, want %q", what, keys(seen), keys(want))
	}
}

func (e *Env) CheckEdges(what string, got []*graph.GraphEdge, want map[string]*graph.GraphEdge) {
	seen := map[string]bool{}
	for _, n := range got {
		w := want[n.ID]
		if w == nil || seen[n.ID] {
			e.C.Fatalf("%s: %q is unexpected or repeated", what, n.ID)
		}
		seen[n.ID] = true
		if !SameEdge(n, w) {
			e.C.Fatalf("%s: %s, stored was %s", what, ES(n), ES(w))
		}
	}
	if len(seen) != len(want) {
		e.C.Fatalf("%s: got %q, want %q", what, keys(seen), keys(want))
	}
}

func pick[V any](m map[string]V, f func(V) bool) map[string]V {
	o := map[string]V{}
	for k, v := range m {
		if f(v) {
			o[k] = v
		}
	}
	return o
}

// Edges of the model by a condition.
func (e *Env) EdgesWhere(f func(*graph.GraphEdge) bool) map[string]*graph.GraphEdge {
	return pick(e.Edges, f)
}
func (e *Env) NodesWhere(f func(*graph.GraphNode) bool) map[string]*graph.GraphNode {
	return pick(e.Nodes, f)
}

// CheckAll compares everything that can be read with the model.
func (e *Env) CheckAll() {
	all, err := e.G.GetAllNodes(e.Ctx, nil)
	e.C.Must(err, "all nodes")
	e.CheckNodes("all nodes", all, e.Nodes)
	for _, id := range ids[:e.NodeN] {
		n, err := e.G.GetNode(e.Ctx, id)
		h.CheckInfra(err)
		if w := e.Nodes[id]; w == nil {
			if err == nil {
				e.C.Fatalf("node %q is there, though deleted or never stored", id)
			}
		} else {
			e.C.Must(err, "get node")
			if !SameNode(n, w) {
				e.C.Fatalf("node %s, stored was %s", NS(n), NS(w))
			}
		}
		for _, d := range []string{"out", "in", "both"} {
			es, err := e.G.GetEdges(e.Ctx, id, d)
			e.C.Must(err, "edges")
			e.CheckEdges(fmt.Sprintf("edges %s %q", d, id), es, e.EdgesWhere(func(g *graph.GraphEdge) bool {
				return d != "in" && g.FromNodeID == id || d != "out" && g.ToNodeID == id
			}))
		}
	}
	ge, err := e.G.GetEdgesBatch(e.Ctx, eids)
	e.C.Must(err, "edges batch")
	known := map[string]bool{}
	for _, i := range eids {
		known[i] = true
	}
	e.CheckEdges("edges by id", ge, e.EdgesWhere(func(g *graph.GraphEdge) bool { return known[g.ID] }))
}
