package p37

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
	"github.com/liliang-cn/cortexdb/v2/pkg/hindsight"
	"github.com/liliang-cn/cortexdb/v2/verifharness/flt"
	"github.com/liliang-cn/cortexdb/v2/verifharness/gm"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"github.com/liliang-cn/cortexdb/v2/verifharness/kb"
	"github.com/liliang-cn/cortexdb/v2/verifharness/mdl"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	flt.Install()
	os.Exit(m.Run())
}

var bg = context.Background()

// canon writes an answer without regard to the order of its lists.
func canon(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "?" + err.Error()
	}
	var x any
	_ = json.Unmarshal(b, &x)
	return walk(x)
}

func walk(v any) string {
	switch x := v.(type) {
	case []any:
		var out []string
		for _, e := range x {
			out = append(out, walk(e))
		}
		sort.Strings(out)
		return "[" + strings.Join(out, " ") + "]"
	case map[string]any:
		var out []string
		for k, e := range x {
			out = append(out, fmt.Sprintf("%q:%s", k, walk(e)))
		}
		sort.Strings(out)
		return "{" + strings.Join(out, " ") + "}"
	case float64:
		return fmt.Sprintf("%.4g", x)
	}
	b, _ := json.Marshal(v)
	return string(b)
}

type read struct {
	name string
	do   func(ctx context.Context) (any, error)
}

// cut interrupts reads at drawn points, by the context or by failing database calls: each must
// answer as without the interruption or fail.
func cut(c *h.C, reads []read, rounds int) {
	part := 0
	for ; rounds > 0; rounds-- {
		r := reads[rapid.IntRange(0, len(reads)-1).Draw(c.T, "read")]
		whole := h.Cut(0)
		var ref any
		flt.Arm(0, 0)
		referr := h.Calm(func() (err error) { ref, err = r.do(whole); return })
		calls, _ := flt.Disarm()
		whole.Stop()
		h.CheckInfra(referr)
		want := canon(ref)
		var got any
		var err error
		switch how := rapid.IntRange(0, 3).Draw(c.T, "how"); how {
		case 0:
			n := rapid.IntRange(1, max(1, whole.Seen())).Draw(c.T, "at")
			c.Op("%s interrupted at %d of %d", r.name, n, whole.Seen())
			ctx := h.Cut(n)
			got, err = r.do(ctx)
			ctx.Stop()
		default:
			n := rapid.IntRange(1, max(1, calls)).Draw(c.T, "at")
			m := n
			// a text search that fails is tried another way, with other scores
			if how == 1 || strings.HasPrefix(r.name, "SearchText") || strings.HasPrefix(r.name, "SearchKnowledge") || r.name == "SearchGraphRAGLexical" || r.name == "BuildContext" {
				m = 1 << 30
			}
			c.Op("%s with database call %d of %d failing (to %d)", r.name, n, calls, m)
			flt.Arm(n, m)
			got, err = r.do(bg)
			flt.Disarm()
		}
		switch {
		case err == nil && referr != nil:
			c.Fatalf("%s fails (%v), but disturbed gives %s", r.name, referr, canon(got))
		case err == nil && canon(got) != want:
			// an answer that is not determined differs without an interruption, too
			for i := 0; i < 20; i++ {
				if again, err := r.do(bg); err == nil && canon(again) != want {
					c.Class("undetermined " + r.name)
					return
				}
			}
			c.Fatalf("%s disturbed gives %s, want %s", r.name, canon(got), want)
		case err != nil && referr == nil:
			if isMissing(err) {
				c.Fatalf("%s disturbed says %v, but gives %s", r.name, err, want)
			}
			part++
		}
		for i := 0; ; i++ {
			var again any
			err := h.Calm(func() (err error) { again, err = r.do(bg); return })
			if (err == nil) == (referr == nil) && (canon(again) == want || len(canon(again)) == len(want)) {
				break
			}
			if i == 5 {
				c.Fatalf("%s after a disturbance gives %s (%v), before %s (%v)", r.name, canon(again), err, want, referr)
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	if part > 1 {
		c.NonTrivial()
	}
}

func isMissing(err error) bool {
	s := err.Error()
	return strings.Contains(s, "not found") || strings.Contains(s, "no such") || strings.Contains(s, "no path")
}

func TestCore(t *testing.T) {
	h.Check(t, h.Opt{Quick: 90, Thorough: 2500}, func(c *h.C) {
		kind := rapid.SampledFrom([]string{"none", "hnsw", "ivf"}).Draw(c.T, "index")
		c.Op("index %s", kind)
		e := mdl.NewEnv(c, 3, func(cfg *core.Config) {
			cfg.HNSW.Enabled = kind == "hnsw"
			if kind == "ivf" {
				cfg.IndexType = core.IndexTypeIVF
				cfg.IVF.NCentroids, cfg.IVF.NProbe = 2, 2
			}
		})
		e.NZ, e.WithACL, e.NIDs = true, true, 20
		e.ContFn = func(t *rapid.T) string {
			return strings.Join(rapid.SliceOfN(rapid.SampledFrom(h.Words), 0, 4).Draw(t, "words"), " ")
		}
		e.Prepare(c.T)
		e.Fill(c.T, rapid.IntRange(3, 15).Draw(c.T, "n"))
		if kind != "hnsw" {
			e.Bulk(c.T, rapid.IntRange(20, 200).Draw(c.T, "many"))
		}
		if kind == "ivf" {
			c.Must(e.S.TrainIndex(bg, 2), "TrainIndex")
		}
		s := e.S
		for i := 0; i < 3; i++ {
			c.Must(s.UpsertMultiVector(bg, &core.MultiVectorEntity{ID: fmt.Sprintf("ent%d", i), Content: "stone", Vectors: map[string][]float32{"a": {1, 0, float32(i)}, "b": {0, 1, 2}}}), "UpsertMultiVector")
		}
		for i := 0; i < 2; i++ {
			sid := fmt.Sprintf("s%d", i)
			c.Must(s.CreateSession(bg, &core.Session{ID: sid, UserID: "u1"}), "CreateSession")
			for j := 0; j < 4; j++ {
				c.Must(s.AddMessage(bg, &core.Message{ID: fmt.Sprintf("%s-%d", sid, j), SessionID: sid, Role: "user", Content: "river " + h.Words[j], Vector: []float32{1, float32(j), 0}}), "AddMessage")
			}
		}
		q := h.NZVec(c.T, 3, "q")
		word := rapid.SampledFrom(h.Words).Draw(c.T, "word")
		all := core.SearchOptions{TopK: 1000}
		file := filepath.Join(c.Dir(), "out")
		ids := e.IDs()
		reads := []read{
			{"Search", func(x context.Context) (any, error) { return s.Search(x, q, all) }},
			{"Search collection", func(x context.Context) (any, error) {
				return s.Search(x, q, core.SearchOptions{TopK: 1000, Collection: "default"})
			}},
			{"SearchWithFilter", func(x context.Context) (any, error) {
				return s.SearchWithFilter(x, q, all, map[string]interface{}{"type": "x"})
			}},
			{"SearchWithAdvancedFilter", func(x context.Context) (any, error) {
				return s.SearchWithAdvancedFilter(x, q, core.AdvancedSearchOptions{SearchOptions: all, PreFilter: &core.FilterExpression{Operator: core.FilterNE, Field: "type", Value: "x"}})
			}},
			{"SearchWithACL", func(x context.Context) (any, error) { return s.SearchWithACL(x, q, []string{"u1"}, all) }},
			{"HybridSearch", func(x context.Context) (any, error) {
				return s.HybridSearch(x, q, word, core.HybridSearchOptions{SearchOptions: all})
			}},
			{"keyword search", func(x context.Context) (any, error) {
				return s.HybridSearch(x, nil, word+"?", core.HybridSearchOptions{SearchOptions: all})
			}},
			{"keyword search with operators", func(x context.Context) (any, error) {
				return s.HybridSearch(x, nil, word+" OR stone", core.HybridSearchOptions{SearchOptions: all})
			}},
			{"SearchWithDiversity", func(x context.Context) (any, error) {
				return s.SearchWithDiversity(x, q, core.DiversitySearchOptions{SearchOptions: core.SearchOptions{TopK: 4}, Method: core.DiversityMMR, Lambda: 0.5})
			}},
			{"StreamSearch", func(x context.Context) (any, error) {
				ch, err := s.StreamSearch(x, q, core.StreamingOptions{SearchOptions: core.SearchOptions{TopK: 1000}, BatchSize: 7, MaxLatency: time.Minute})
				if err != nil {
					return nil, err
				}
				return core.CollectTopKFromStream(x, ch, 1000)
			}},
			{"SearchWithNegatives", func(x context.Context) (any, error) {
				return s.SearchWithNegatives(x, core.NegativeSearchOptions{PositiveVectors: [][]float32{q}, NegativeVectors: [][]float32{{1, 1, 1}}, SearchOptions: all})
			}},
			{"RecommendSimilar", func(x context.Context) (any, error) { return s.RecommendSimilar(x, ids[:1], ids[1:2], all) }},
			{"FindAnomalies", func(x context.Context) (any, error) { return s.FindAnomalies(x, all) }},
			{"Aggregate", func(x context.Context) (any, error) {
				return s.Aggregate(x, core.AggregationRequest{Type: core.AggregationGroupBy, Field: "n", GroupBy: []string{"type"}})
			}},
			{"Aggregate count", func(x context.Context) (any, error) {
				return s.Aggregate(x, core.AggregationRequest{Type: core.AggregationCount, Field: "type"})
			}},
			{"SearchWithFacets", func(x context.Context) (any, error) {
				r, _, err := s.SearchWithFacets(x, q, core.FacetedSearchOptions{SearchOptions: all})
				return r, err
			}},
			{"RangeSearch", func(x context.Context) (any, error) { return s.RangeSearch(x, q, 3, core.SearchOptions{}) }},
			{"BatchRangeSearch", func(x context.Context) (any, error) {
				return s.BatchRangeSearch(x, [][]float32{q, {1, 0, 0}}, 3, core.SearchOptions{})
			}},
			{"SearchWithReranker", func(x context.Context) (any, error) {
				return s.SearchWithReranker(x, q, word, core.NewKeywordMatchReranker(0.5), core.RerankOptions{TopK: 1000})
			}},
			{"SearchMultiVector", func(x context.Context) (any, error) {
				return s.SearchMultiVector(x, map[string][]float32{"a": q}, core.MultiVectorSearchOptions{SearchOptions: all})
			}},
			{"GetMultiVectorEntity", func(x context.Context) (any, error) { return s.GetMultiVectorEntity(x, "ent1") }},
			{"GetByID", func(x context.Context) (any, error) { return s.GetByID(x, ids[0]) }},
			{"GetByID of nothing", func(x context.Context) (any, error) { return s.GetByID(x, "nothing") }},
			{"GetByDocID", func(x context.Context) (any, error) { return s.GetByDocID(x, "Doc1") }},
			{"ListDocuments", func(x context.Context) (any, error) { return s.ListDocuments(x) }},
			{"ListDocumentsWithInfo", func(x context.Context) (any, error) { return s.ListDocumentsWithInfo(x) }},
			{"ListDocumentsWithFilter", func(x context.Context) (any, error) { return s.ListDocumentsWithFilter(x, "", 100) }},
			{"GetDocumentsByType", func(x context.Context) (any, error) { return s.GetDocumentsByType(x, "x") }},
			{"GetDocument", func(x context.Context) (any, error) { return s.GetDocument(x, "Doc1") }},
			{"Stats", func(x context.Context) (any, error) { // the size is an estimate
				st, err := s.Stats(x)
				return []any{st.Count, st.Dimensions}, err
			}},
			{"ListCollections", func(x context.Context) (any, error) { return s.ListCollections(x) }},
			{"GetCollection", func(x context.Context) (any, error) { return s.GetCollection(x, "default") }},
			{"GetCollectionStats", func(x context.Context) (any, error) {
				st, err := s.GetCollectionStats(x, "default")
				if st != nil {
					st.LastInsertedAt = time.Time{} // as best it goes
				}
				return st, err
			}},
			{"GetSession", func(x context.Context) (any, error) { return s.GetSession(x, "s1") }},
			{"GetSessionHistory", func(x context.Context) (any, error) { return s.GetSessionHistory(x, "s1", 100) }},
			{"SearchChatHistory", func(x context.Context) (any, error) { return s.SearchChatHistory(x, q, "s1", 100) }},
			{"KeywordSearchMessages", func(x context.Context) (any, error) { return s.KeywordSearchMessages(x, "river?", "u1", "s0", 100) }},
			{"KeywordSearchMessages with operators", func(x context.Context) (any, error) {
				return s.KeywordSearchMessages(x, "river OR sea", "u1", "s0", 100)
			}},
			{"SearchMessagesByUser", func(x context.Context) (any, error) { return s.SearchMessagesByUser(x, "u1", q, "s0", 100) }},
			{"Dump", func(x context.Context) (any, error) {
				var b bytes.Buffer
				st, err := s.Dump(x, &b, core.DumpOptions{Format: core.DumpFormatJSONL, IncludeVectors: true})
				if err != nil {
					return nil, err
				}
				lines := strings.Split(b.String(), "\n")
				sort.Strings(lines)
				return []any{st.TotalEmbeddings, len(lines)}, nil
			}},
			{"DumpToFile", func(x context.Context) (any, error) {
				_, err := s.DumpToFile(x, file, core.DumpOptions{Format: core.DumpFormatJSON, IncludeVectors: true})
				if err != nil {
					return nil, err
				}
				b, err := os.ReadFile(file)
				return bytes.Count(b, []byte(`"vector"`)), err
			}},
		}
		cut(c, reads, 40)
	})
}

func TestGraph(t *testing.T) {
	h.Check(t, h.Opt{Quick: 50, Thorough: 2500}, func(c *h.C) {
		e := gm.NewEnv(c, 3, nil)
		e.Prepare(c.T, rapid.IntRange(3, 8).Draw(c.T, "nodes"), rapid.IntRange(3, 14).Draw(c.T, "edges"))
		g := e.G
		var more []*graph.GraphNode
		var links []*graph.GraphEdge
		for i := rapid.IntRange(2, 60).Draw(c.T, "more"); i > 0; i-- {
			more = append(more, &graph.GraphNode{ID: fmt.Sprintf("more%d", i), NodeType: "more", Vector: []float32{float32(i), 1, 0}})
			links = append(links, &graph.GraphEdge{ID: fmt.Sprintf("link%d", i), FromNodeID: fmt.Sprintf("more%d", i), ToNodeID: fmt.Sprintf("more%d", i/2+1), EdgeType: "l"})
		}
		_, err := g.UpsertNodesBatch(bg, more)
		c.Must(err, "UpsertNodesBatch")
		_, err = g.UpsertEdgesBatch(bg, links)
		c.Must(err, "UpsertEdgesBatch")
		if rapid.Bool().Draw(c.T, "index") {
			c.Op("node index")
			c.Must(g.EnableHNSWIndex(3), "EnableHNSWIndex")
		}
		ids := e.NodeIDs()
		for _, n := range more {
			ids = append(ids, n.ID)
		}
		a, b := rapid.SampledFrom(ids).Draw(c.T, "a"), rapid.SampledFrom(ids).Draw(c.T, "b")
		q := h.NZVec(c.T, 3, "q")
		hq := &graph.HybridQuery{Vector: q, StartNodeID: a, TopK: 1000, Weights: graph.HybridWeights{VectorWeight: 0.5, GraphWeight: 0.5}}
		export := func(f graph.ExportFormat) func(context.Context) (any, error) {
			return func(x context.Context) (any, error) {
				var w bytes.Buffer
				if err := g.Export(x, &w, f); err != nil {
					return nil, err
				}
				return []int{strings.Count(w.String(), "<node "), strings.Count(w.String(), "<edge "), strings.Count(w.String(), `"id"`)}, nil
			}
		}
		cut(c, []read{
			{"GetNode", func(x context.Context) (any, error) { return g.GetNode(x, a) }},
			{"GetEdges", func(x context.Context) (any, error) { return g.GetEdges(x, a, "both") }},
			{"GetAllNodes", func(x context.Context) (any, error) { return g.GetAllNodes(x, nil) }},
			{"GetNodesBatch", func(x context.Context) (any, error) { return g.GetNodesBatch(x, ids) }},
			{"GetEdgesBatch", func(x context.Context) (any, error) { return g.GetEdgesBatch(x, e.EdgeIDs()) }},
			{"Neighbors", func(x context.Context) (any, error) {
				return g.Neighbors(x, a, graph.TraversalOptions{MaxDepth: 4, Direction: "both"})
			}},
			{"ShortestPath", func(x context.Context) (any, error) {
				p, err := g.ShortestPath(x, a, b)
				if err != nil {
					return nil, err
				}
				return p.Distance, nil
			}},
			{"Subgraph", func(x context.Context) (any, error) { return g.Subgraph(x, ids) }},
			{"Connected", func(x context.Context) (any, error) { return g.Connected(x, a, b, 5) }},
			{"PageRank", func(x context.Context) (any, error) { return g.PageRank(x, 10, 0.85) }},
			{"CommunityDetection", func(x context.Context) (any, error) {
				cs, err := g.CommunityDetection(x)
				n := 0
				for _, k := range cs {
					n += len(k.Nodes)
				}
				return n, err
			}},
			{"PredictEdges", func(x context.Context) (any, error) { return g.PredictEdges(x, a, 1000) }},
			{"GetGraphStatistics", func(x context.Context) (any, error) { return g.GetGraphStatistics(x) }},
			{"HybridSearch", func(x context.Context) (any, error) { return g.HybridSearch(x, hq) }},
			{"HNSWHybridSearch", func(x context.Context) (any, error) { return g.HNSWHybridSearch(x, hq) }},
			{"HNSWSearch", func(x context.Context) (any, error) { return g.HNSWSearch(x, q, 1000, 0) }},
			{"GraphVectorSearch", func(x context.Context) (any, error) {
				return g.GraphVectorSearch(x, a, q, graph.TraversalOptions{MaxDepth: 4, Direction: "both"})
			}},
			{"SimilarityInGraph", func(x context.Context) (any, error) {
				return g.SimilarityInGraph(x, a, core.SearchOptions{TopK: 1000})
			}},
			{"ExportJSON", export(graph.FormatJSON)},
			{"ExportGraphML", export(graph.FormatGraphML)},
			{"ExportGEXF", export(graph.FormatGEXF)},
		}, 40)
	})
}

func TestKnowledge(t *testing.T) {
	h.Check(t, h.Opt{Quick: 40, Thorough: 1500}, func(c *h.C) {
		k := kb.NewKnow(c, rapid.SampledFrom([]int{0, 6}).Draw(c.T, "dim"))
		for i := rapid.IntRange(3, 10).Draw(c.T, "saves"); i > 0; i-- {
			k.Save(c.T)
			if rapid.Bool().Draw(c.T, "entities") {
				k.MoreEntities(c.T)
			}
		}
		var ids, chunks, nodes []string
		for id, it := range k.Items {
			ids = append(ids, id)
			for i := range it.Chunks {
				chunks = append(chunks, kb.ChunkID(id, i))
			}
		}
		ids, chunks = h.Sorted(ids), h.Sorted(chunks)
		all, err := k.Graph().GetAllNodes(bg, nil)
		c.Must(err, "GetAllNodes")
		for _, n := range all {
			nodes = append(nodes, n.ID)
		}
		if len(ids) == 0 || len(nodes) == 0 {
			return
		}
		coll := k.Items[ids[0]].Collection
		word := rapid.SampledFrom(kb.Words).Draw(c.T, "word")
		mode := rapid.SampledFrom([]string{"", "lexical", "graph", "auto"}).Draw(c.T, "mode")
		c.Op("collection %q word %q mode %q", coll, word, mode)
		names := []string{"Fjord", "Acme Corp"}
		reads := []read{
			{"GetKnowledge", func(x context.Context) (any, error) {
				return k.T.GetKnowledge(x, cortexdb.KnowledgeGetRequest{KnowledgeID: ids[0]})
			}},
			{"SearchKnowledge", func(x context.Context) (any, error) {
				return k.T.SearchKnowledge(x, cortexdb.KnowledgeSearchRequest{Query: word, Collection: coll, TopK: 50, RetrievalMode: mode, EntityNames: names})
			}},
			{"SearchText", func(x context.Context) (any, error) {
				return k.T.SearchText(x, cortexdb.ToolSearchTextRequest{Query: word, Collection: coll, TopK: 50, RetrievalMode: mode})
			}},
			{"SearchChunksByEntities", func(x context.Context) (any, error) {
				return k.T.SearchChunksByEntities(x, cortexdb.ToolSearchChunksByEntitiesRequest{EntityNames: names, TopK: 50})
			}},
			{"ExpandGraph", func(x context.Context) (any, error) {
				return k.T.ExpandGraph(x, cortexdb.ToolExpandGraphRequest{NodeIDs: nodes[:1], MaxHops: 3, Limit: 500})
			}},
			{"GetNodes", func(x context.Context) (any, error) {
				return k.T.GetNodes(x, cortexdb.ToolGetNodesRequest{NodeIDs: nodes})
			}},
			{"GetChunks", func(x context.Context) (any, error) {
				return k.T.GetChunks(x, cortexdb.ToolGetChunksRequest{ChunkIDs: chunks, RetrievalMode: mode})
			}},
			{"BuildContext", func(x context.Context) (any, error) {
				return k.T.BuildContext(x, cortexdb.ToolBuildContextRequest{ChunkIDs: chunks, MaxContextChunks: 100, MaxContextChars: 100000, PerDocumentLimit: 100, RetrievalMode: mode})
			}},
			{"SearchGraphRAGLexical", func(x context.Context) (any, error) {
				return k.T.SearchGraphRAGLexical(x, cortexdb.ToolSearchGraphRAGLexicalRequest{Query: word, Collection: coll, TopK: 50, MaxContextChunks: 100, MaxContextChars: 100000, PerDocumentLimit: 100, EntityNames: names, RetrievalMode: mode})
			}},
			{"SearchTextOnly", func(x context.Context) (any, error) {
				return k.SearchTextOnly(x, word, cortexdb.TextSearchOptions{Collection: coll, TopK: 100})
			}},
		}
		if k.E != nil {
			reads = append(reads,
				read{"SearchGraphRAG", func(x context.Context) (any, error) {
					return k.SearchGraphRAG(x, word, cortexdb.GraphRAGQueryOptions{Collection: coll, TopK: 50, MaxContextChunks: 100, MaxContextChars: 100000, PerDocumentLimit: 100})
				}},
				read{"SearchTextInCollection", func(x context.Context) (any, error) { return k.SearchTextInCollection(x, coll, word, 100) }},
				read{"HybridSearchText", func(x context.Context) (any, error) { return k.HybridSearchText(x, word, 100) }})
		}
		cut(c, reads, 40)
	})
}

func TestMemory(t *testing.T) {
	h.Check(t, h.Opt{Quick: 40, Thorough: 1500}, func(c *h.C) {
		d := kb.Open(c, rapid.SampledFrom([]int{0, 5}).Draw(c.T, "dim"), core.IndexTypeHNSW)
		n := rapid.IntRange(1, 8).Draw(c.T, "n")
		for i := 0; i < n; i++ {
			content := kb.Phrase(c.T, 1, 5, "content")
			c.Op("m%d %q", i, content)
			_, err := d.SaveMemory(bg, cortexdb.MemorySaveRequest{MemoryID: fmt.Sprintf("m%d", i), UserID: "a", Scope: "user", Content: content})
			c.Must(err, "SaveMemory")
		}
		word := rapid.SampledFrom(kb.Words).Draw(c.T, "word")
		mode := rapid.SampledFrom([]string{"", "lexical", "semantic", "hybrid"}).Draw(c.T, "mode")
		c.Op("word %q mode %q", word, mode)
		cut(c, []read{
			{"GetMemory", func(x context.Context) (any, error) {
				return d.GetMemory(x, cortexdb.MemoryGetRequest{MemoryID: "m0"})
			}},
			{"SearchMemory", func(x context.Context) (any, error) {
				return d.SearchMemory(x, cortexdb.MemorySearchRequest{Query: word, UserID: "a", Scope: "user", TopK: 50, RetrievalMode: mode})
			}},
		}, 25)
	})
}

func TestBanks(t *testing.T) {
	h.Check(t, h.Opt{Quick: 40, Thorough: 1500}, func(c *h.C) {
		cfg := hindsight.Config{DBPath: filepath.Join(c.Dir(), "h.db"), VectorDim: 3}
		sys, err := hindsight.New(&cfg)
		c.Must(err, "New")
		c.Defer(func() { sys.Close() })
		c.Must(sys.CreateBank(bg, hindsight.NewBank("b1", "b1")), "CreateBank")
		for i := rapid.IntRange(1, 10).Draw(c.T, "n"); i > 0; i-- {
			m := &hindsight.Memory{ID: fmt.Sprintf("m%d", i), BankID: "b1", Type: hindsight.WorldMemory, Content: kb.Phrase(c.T, 1, 5, "content"), Vector: h.NZVec(c.T, 3, "v"),
				Entities: []string{rapid.SampledFrom([]string{"Ann", "Bob"}).Draw(c.T, "entity")}}
			c.Op("%s %q %s %q", m.ID, m.Content, h.VS(m.Vector), m.Entities)
			c.Must(sys.Retain(bg, m), "Retain")
		}
		q, word := h.NZVec(c.T, 3, "q"), rapid.SampledFrom(kb.Words).Draw(c.T, "word")
		st := &hindsight.RecallStrategy{Temporal: &hindsight.TemporalFilter{}, Entity: []string{"Ann"}, Memory: rapid.Bool().Draw(c.T, "memory"), Priming: rapid.Bool().Draw(c.T, "priming")}
		if rapid.Bool().Draw(c.T, "no times") {
			st.Temporal = nil
		}
		recall := func(x context.Context) (any, error) {
			rs, err := sys.Recall(x, &hindsight.RecallRequest{BankID: "b1", Query: word, QueryVector: q, Strategy: st, TopK: 100})
			var ids []string
			for _, r := range rs {
				ids = append(ids, fmt.Sprintf("%s %.4g", r.ID, math.Round(r.Score*1e4)))
			}
			return ids, err
		}
		cut(c, []read{
			{"Recall", recall},
			{"Reflect", func(x context.Context) (any, error) {
				r, err := sys.Reflect(x, &hindsight.ContextRequest{BankID: "b1", Query: word, QueryVector: q, Strategy: st, TopK: 100})
				if err != nil {
					return nil, err
				}
				return len(r.Memories), nil
			}},
			{"GetObservations", func(x context.Context) (any, error) { return sys.GetObservations(x, "b1") }},
		}, 25)
	})
}
