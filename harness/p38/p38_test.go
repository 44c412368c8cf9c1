package p38

import (
	"context"
	"database/sql"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
	"github.com/liliang-cn/cortexdb/v2/pkg/hindsight"
	"github.com/liliang-cn/cortexdb/v2/verifharness/flt"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"github.com/liliang-cn/cortexdb/v2/verifharness/kb"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	flt.Install()
	os.Exit(m.Run())
}

var bg = context.Background()

// again is the context of repetitions.
var again = context.WithValue(bg, "again", true)

// op is one write; deletes may find nothing the second time.
type op struct {
	name   string
	remove bool
	do     func(twin int, ctx context.Context) error
	item   func(twin int) string // what must be of one version even after a failure
	whole  bool                  // not to be repeated after a failure of the database
	skip   string                // tables that are kept as best it goes
}

// twice runs the write undisturbed on twin 1, and interrupted and, if that failed, again on twin 0.
func twice(c *h.C, o op, dbs [2]*sql.DB) bool {
	before := ""
	if o.item != nil {
		before = o.item(0)
	}
	whole := h.Cut(0)
	flt.Arm(0, 0)
	want := o.do(1, whole)
	calls, _ := flt.Disarm()
	whole.Stop()
	h.CheckInfra(want)
	var err error
	var cut bool
	if how := rapid.IntRange(0, 3).Draw(c.T, "how"); how == 0 || o.whole {
		n := rapid.IntRange(1, max(1, whole.Seen())).Draw(c.T, "at")
		c.Op("%s, interrupted at %d of %d", o.name, n, whole.Seen())
		ctx := h.Cut(n)
		err = o.do(0, ctx)
		cut = ctx.WasCut()
		ctx.Stop()
		h.CheckInfra(err)
		if o.item != nil {
			if got, after := o.item(0), o.item(1); got != before && got != after {
				c.Fatalf("%s, interrupted (%v), leaves %s, want %s or %s", o.name, err, got, before, after)
			}
		}
	} else {
		n := rapid.IntRange(1, max(1, calls)).Draw(c.T, "at")
		m := n
		if how == 1 {
			m = 1 << 30
		}
		c.Op("%s, with database call %d of %d failing (to %d)", o.name, n, calls, m)
		flt.Arm(n, m)
		err = o.do(0, bg)
		_, hits := flt.Disarm()
		cut = hits > 0
	}
	failed := err != nil
	if err != nil && cut {
		err = h.Calm(func() error { return o.do(0, again) })
		h.CheckInfra(err)
		if o.remove && err != nil && want == nil && strings.Contains(err.Error(), "not found") {
			err = nil
		}
	}
	if (err == nil) != (want == nil) {
		c.Fatalf("%s: undisturbed %v, interrupted and repeated %v", o.name, want, err)
	}
	// what the driver still has to roll back is gone in a moment
	d := ""
	for i := 0; i < 4; i++ {
		if d = h.Diff(h.State(c, dbs[0], o.skip), h.State(c, dbs[1], o.skip)); d == "" {
			break
		}
		time.Sleep(time.Duration(i*i) * 5 * time.Millisecond)
	}
	if d != "" {
		how := "reported success although disturbed"
		if failed {
			how = "failed and was repeated"
		}
		c.Fatalf("%s %s:\n%s", o.name, how, d)
	}
	return failed && cut
}

func TestKnowledge(t *testing.T) {
	h.Check(t, h.Opt{Quick: 130, Thorough: 2500}, func(c *h.C) {
		dim := rapid.SampledFrom([]int{0, 6}).Draw(c.T, "dim")
		var d [2]*kb.DB
		var dbs [2]*sql.DB
		for i := range d {
			d[i] = open(c, dim)
			dbs[i] = d[i].Vector().(*core.SQLiteStore).GetDB()
			c.Must(d[i].Graph().InitGraphSchema(bg), "InitGraphSchema")
		}
		tool := func(i int) *cortexdb.GraphRAGToolbox { return d[i].GraphRAGTools() }
		names := []string{"Fjord", "Acme Corp", "Zoë"}
		entities := func(id string) (out []cortexdb.ToolEntityInput) {
			for _, n := range names[:rapid.IntRange(0, 3).Draw(c.T, "entities")] {
				out = append(out, cortexdb.ToolEntityInput{Name: n, Type: "org", ChunkIDs: []string{kb.ChunkID(id, 0), kb.ChunkID(id, 1)}})
			}
			return
		}
		relations := func() (out []cortexdb.ToolRelationInput) {
			for i := rapid.IntRange(0, 2).Draw(c.T, "relations"); i > 0; i-- {
				out = append(out, cortexdb.ToolRelationInput{From: names[0], To: names[i], Type: "knows"})
			}
			return
		}
		cut := 0
		for i := rapid.IntRange(3, 12).Draw(c.T, "steps"); i > 0; i-- {
			id := rapid.SampledFrom([]string{"k1", "k2"}).Draw(c.T, "id")
			item := func(i int) (out string) {
				c.Must(h.Calm(func() error {
					out = ""
					es, err := d[i].Vector().(*core.SQLiteStore).GetByDocID(bg, id)
					if err != nil && !kb.NotFound(err) {
						return err
					}
					for _, e := range es {
						if out += fmt.Sprintf("[%s %q %v]", e.ID, e.Content, e.Vector); dim == 0 {
							n, err := d[i].Graph().GetNode(bg, e.ID)
							if err != nil {
								return fmt.Errorf("chunk node: %w", err)
							}
							out += fmt.Sprintf(" node %q", n.Content)
						}
					}
					return nil
				}), "chunks of %s", id)
				return
			}
			var o op
			kinds := []string{"save", "save", "update", "delete", "entities", "relations", "ingest"}
			if dim > 0 { // vectors made to fit an embedder's are filled up at random
				kinds = kinds[:6]
			}
			switch what := rapid.SampledFrom(kinds).Draw(c.T, "what"); what {
			case "save":
				r := cortexdb.KnowledgeSaveRequest{KnowledgeID: id, Title: kb.Phrase(c.T, 1, 2, "title"), Content: kb.Phrase(c.T, 1, 14, "content"), Author: "ann", ChunkSize: 4,
					Collection: rapid.SampledFrom([]string{"", "notes"}).Draw(c.T, "coll"), Metadata: map[string]string{"topic": "x"}, Entities: entities(id), Relations: relations()}
				o = op{name: "SaveKnowledge " + kb.JS(r), remove: false, do: func(i int, x context.Context) error { _, err := tool(i).SaveKnowledge(x, r); return err }}
			case "update":
				text := kb.Phrase(c.T, 1, 14, "content")
				r := cortexdb.KnowledgeUpdateRequest{KnowledgeID: id, Entities: entities(id)}
				if rapid.Bool().Draw(c.T, "content too") {
					r.Content = &text
				}
				if rapid.Bool().Draw(c.T, "title too") {
					r.Title = &text
				}
				if rapid.Bool().Draw(c.T, "author too") {
					r.Author = &text
				}
				o = op{name: "UpdateKnowledge " + kb.JS(r), whole: true, do: func(i int, x context.Context) error { _, err := tool(i).UpdateKnowledge(x, r); return err }}
			case "delete":
				o = op{name: "DeleteKnowledge " + id, remove: true, do: func(i int, x context.Context) error {
					_, err := tool(i).DeleteKnowledge(x, cortexdb.KnowledgeDeleteRequest{KnowledgeID: id})
					return err
				}}
			case "ingest":
				r := cortexdb.ToolIngestDocumentRequest{DocumentID: id, Title: "t", Content: kb.Phrase(c.T, 1, 14, "content"), ChunkSize: 3}
				o = op{name: "IngestDocument " + kb.JS(r), remove: false, do: func(i int, x context.Context) error { _, err := tool(i).IngestDocument(x, r); return err }}
			case "entities":
				r := cortexdb.ToolUpsertEntitiesRequest{DocumentID: id, Entities: entities(id)}
				o = op{name: "UpsertEntities " + kb.JS(r), remove: false, do: func(i int, x context.Context) error { _, err := tool(i).UpsertEntities(x, r); return err }}
			default:
				r := cortexdb.ToolUpsertRelationsRequest{DocumentID: id, Relations: relations()}
				o = op{name: "UpsertRelations " + kb.JS(r), remove: false, do: func(i int, x context.Context) error { _, err := tool(i).UpsertRelations(x, r); return err }}
			}
			if !o.remove {
				o.item = item
			}
			if twice(c, o, dbs) {
				cut++
			}
		}
		if cut > 1 {
			c.NonTrivial()
		}
	})
}

var serial int

func open(c *h.C, dim int) *kb.DB {
	serial++
	return kb.OpenAt(c, filepath.Join(c.Dir(), fmt.Sprintf("twin%d.db", serial)), dim, core.IndexTypeHNSW)
}

func TestMemory(t *testing.T) {
	h.Check(t, h.Opt{Quick: 150, Thorough: 3000}, func(c *h.C) {
		dim := rapid.SampledFrom([]int{0, 5}).Draw(c.T, "dim")
		var d [2]*kb.DB
		var dbs [2]*sql.DB
		for i := range d {
			d[i] = open(c, dim)
			dbs[i] = d[i].Vector().(*core.SQLiteStore).GetDB()
		}
		cut := 0
		for i := rapid.IntRange(3, 15).Draw(c.T, "steps"); i > 0; i-- {
			id := rapid.SampledFrom([]string{"m1", "m2"}).Draw(c.T, "id")
			text := kb.Phrase(c.T, 1, 5, "content")
			var o op
			switch rapid.SampledFrom([]string{"save", "save", "update", "delete"}).Draw(c.T, "what") {
			case "save":
				r := cortexdb.MemorySaveRequest{MemoryID: id, UserID: rapid.SampledFrom([]string{"a", "b"}).Draw(c.T, "user"), Scope: "user", Content: text, Metadata: map[string]any{"x": text}}
				o = op{name: "SaveMemory " + kb.JS(r), remove: false, do: func(i int, x context.Context) error { _, err := d[i].SaveMemory(x, r); return err }}
			case "update":
				r := cortexdb.MemoryUpdateRequest{MemoryID: id, Metadata: map[string]any{text: 1}}
				if rapid.Bool().Draw(c.T, "content too") {
					r.Content = &text
				}
				o = op{name: "UpdateMemory " + kb.JS(r), remove: false, do: func(i int, x context.Context) error { _, err := d[i].UpdateMemory(x, r); return err }}
			default:
				o = op{name: "DeleteMemory " + id, remove: true, do: func(i int, x context.Context) error {
					_, err := d[i].DeleteMemory(x, cortexdb.MemoryDeleteRequest{MemoryID: id})
					return err
				}}
			}
			if twice(c, o, dbs) {
				cut++
			}
		}
		if cut > 1 {
			c.NonTrivial()
		}
	})
}

func TestGraph(t *testing.T) {
	h.Check(t, h.Opt{Quick: 150, Thorough: 3000}, func(c *h.C) {
		index := rapid.Bool().Draw(c.T, "index")
		c.Op("index %v", index)
		var g [2]*graph.GraphStore
		var dbs [2]*sql.DB
		for i := range g {
			d := open(c, 0)
			g[i], dbs[i] = d.Graph(), d.Vector().(*core.SQLiteStore).GetDB()
			c.Must(g[i].InitGraphSchema(bg), "InitGraphSchema")
			if index {
				c.Must(g[i].EnableHNSWIndex(3), "EnableHNSWIndex")
			}
		}
		ids := []string{"a", "b", "c", "d", "e"}
		node := func() *graph.GraphNode {
			return &graph.GraphNode{ID: rapid.SampledFrom(ids).Draw(c.T, "node"), Vector: h.NZVec(c.T, 3, "v"), Content: kb.Phrase(c.T, 1, 3, "content"), NodeType: "t", Properties: map[string]any{"p": rapid.IntRange(0, 9).Draw(c.T, "p")}}
		}
		edge := func() *graph.GraphEdge {
			return &graph.GraphEdge{ID: rapid.SampledFrom([]string{"e1", "e2", "e3"}).Draw(c.T, "edge"), FromNodeID: rapid.SampledFrom(ids).Draw(c.T, "from"), ToNodeID: rapid.SampledFrom(ids).Draw(c.T, "to"), EdgeType: "t", Weight: 1}
		}
		cut := 0
		for i := rapid.IntRange(4, 15).Draw(c.T, "steps"); i > 0; i-- {
			var o op
			switch what := rapid.SampledFrom([]string{"node", "nodes", "nodes", "edge", "edges", "delete node", "delete nodes", "delete edge", "delete edges", "batch"}).Draw(c.T, "what"); what {
			case "node":
				n := node()
				o = op{name: "UpsertNode " + kb.JS(n), remove: false, do: func(i int, x context.Context) error { m := *n; return g[i].UpsertNode(x, &m) }}
			case "nodes":
				var ns []*graph.GraphNode
				for range rapid.IntRange(1, 5).Draw(c.T, "n") {
					ns = append(ns, node())
				}
				o = op{name: "UpsertNodesBatch " + kb.JS(ns), remove: false, do: func(i int, x context.Context) error { _, err := g[i].UpsertNodesBatch(x, ns); return err }}
			case "edge":
				e := edge()
				o = op{name: "UpsertEdge " + kb.JS(e), remove: false, do: func(i int, x context.Context) error { m := *e; return g[i].UpsertEdge(x, &m) }}
			case "edges":
				var es []*graph.GraphEdge
				for range rapid.IntRange(1, 4).Draw(c.T, "n") {
					es = append(es, edge())
				}
				o = op{name: "UpsertEdgesBatch " + kb.JS(es), remove: false, do: func(i int, x context.Context) error { _, err := g[i].UpsertEdgesBatch(x, es); return err }}
			case "delete node":
				id := rapid.SampledFrom(ids).Draw(c.T, "id")
				o = op{name: "DeleteNode " + id, remove: true, do: func(i int, x context.Context) error { return g[i].DeleteNode(x, id) }}
			case "delete nodes":
				some := rapid.SliceOfN(rapid.SampledFrom(ids), 1, 4).Draw(c.T, "ids")
				o = op{name: "DeleteNodesBatch " + kb.JS(some), remove: true, do: func(i int, x context.Context) error { _, err := g[i].DeleteNodesBatch(x, some); return err }}
			case "delete edge":
				o = op{name: "DeleteEdge e1", remove: true, do: func(i int, x context.Context) error { return g[i].DeleteEdge(x, "e1") }}
			case "delete edges":
				o = op{name: "DeleteEdgesBatch e1 e2", remove: true, do: func(i int, x context.Context) error {
					_, err := g[i].DeleteEdgesBatch(x, []string{"e1", "e2"})
					return err
				}}
			default:
				b := &graph.BatchGraphOperation{NodeUpserts: []*graph.GraphNode{node(), node()}, EdgeUpserts: []*graph.GraphEdge{edge()}, NodeDeletes: []string{rapid.SampledFrom(ids).Draw(c.T, "gone")}}
				o = op{name: "ExecuteBatch " + kb.JS(b), remove: false, do: func(i int, x context.Context) error { _, err := g[i].ExecuteBatch(x, b); return err }}
			}
			if twice(c, o, dbs) {
				cut++
			}
			// what the node index answers is what is stored
			if !index {
				continue
			}
			q := h.NZVec(c.T, 3, "q")
			var got [2]string
			for i := range g {
				rs, err := g[i].HNSWSearch(bg, q, 100, 0)
				c.Must(err, "HNSWSearch")
				var l []string
				for _, r := range rs {
					l = append(l, fmt.Sprintf("%s %.4g", r.Node.ID, r.VectorScore))
				}
				sort.Strings(l)
				got[i] = strings.Join(l, ", ")
			}
			if got[0] != got[1] {
				c.Fatalf("node search after an interruption finds %s, without it %s", got[0], got[1])
			}
		}
		if cut > 1 {
			c.NonTrivial()
		}
	})
}

func TestBanks(t *testing.T) {
	h.Check(t, h.Opt{Quick: 130, Thorough: 2500}, func(c *h.C) {
		var s [2]*hindsight.System
		var dbs [2]*sql.DB
		for i := range s {
			cfg := hindsight.Config{DBPath: filepath.Join(c.Dir(), fmt.Sprintf("h%d.db", i)), VectorDim: 3}
			x, err := hindsight.New(&cfg)
			c.Must(err, "New")
			c.Defer(func() { x.Close() })
			s[i], dbs[i] = x, x.DB().Vector().(*core.SQLiteStore).GetDB()
		}
		cut := 0
		for i := range s {
			c.Must(s[i].CreateBank(bg, hindsight.NewBank("b1", "b1")), "CreateBank")
		}
		for i := rapid.IntRange(3, 12).Draw(c.T, "steps"); i > 0; i-- {
			var o op
			switch rapid.SampledFrom([]string{"retain", "retain", "observation", "session", "message"}).Draw(c.T, "what") {
			case "retain":
				m := &hindsight.Memory{ID: rapid.SampledFrom([]string{"m1", "m2"}).Draw(c.T, "id"), BankID: "b1", Type: hindsight.WorldMemory, Content: kb.Phrase(c.T, 1, 4, "content"), Vector: h.NZVec(c.T, 3, "v"), Entities: []string{"Ann", "Bob"}, CreatedAt: time.Unix(1700000000, 0)}
				o = op{name: "Retain " + kb.JS(m), remove: false, do: func(i int, x context.Context) error { n := *m; return s[i].Retain(x, &n) }}
			case "observation":
				m := &hindsight.Observation{ID: "o1", BankID: "b1", Content: kb.Phrase(c.T, 1, 4, "content"), Vector: h.NZVec(c.T, 3, "v"), Confidence: 0.5, CreatedAt: time.Unix(1700000000, 0), ObservationType: hindsight.ObservationType("pattern")}
				o = op{name: "AddObservation " + kb.JS(m), remove: false, do: func(i int, x context.Context) error { n := *m; return s[i].AddObservation(x, &n) }}
			case "session":
				m := core.Session{ID: "s1", UserID: "u"}
				o = op{name: "CreateSession", remove: true, do: func(i int, x context.Context) error {
					n := m
					err := s[i].CreateSession(x, &n)
					if err != nil && x == again { // made before the interruption
						_, err = s[i].Store().GetSession(bg, "s1")
					}
					return err
				}}
				if _, err := s[0].Store().GetSession(bg, "s1"); err == nil {
					continue
				}
			default:
				m := core.Message{ID: fmt.Sprintf("msg%d", i), SessionID: "s1", Role: "user", Content: kb.Phrase(c.T, 1, 3, "content")}
				o = op{name: "AddMessage " + m.Content, remove: false, do: func(i int, x context.Context) error {
					n := m
					err := s[i].AddMessage(x, "b1", &n)
					if err != nil && x == again { // added before the interruption
						if hist, herr := s[i].Store().GetSessionHistory(bg, "s1", 100); herr == nil {
							for _, o := range hist {
								if o.ID == m.ID {
									err = nil
								}
							}
						}
					}
					return err
				}}
			}
			o.skip = "graph_" // the entities of a memory
			if twice(c, o, dbs) {
				cut++
			}
		}
		if cut > 1 {
			c.NonTrivial()
		}
	})
}
