package p14

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

// vec is the vector of version n: no two versions are parallel.
func vec(n int) []float32 {
	a := float64(n) * 0.37
	return []float32{float32(math.Cos(a)), float32(math.Sin(a)), 0.25}
}

type in struct {
	kind string // put, del, delmany, get
	v    int
}

// register: 0 is absent.
var register = porcupine.Model{
	Init: func() interface{} { return 0 },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		s, i := state.(int), input.(in)
		switch i.kind {
		case "put":
			return true, i.v
		case "del": // output: whether there was something
			return output.(int) == 0 && s == 0 || output.(int) == 1 && s != 0, 0
		case "delmany":
			return true, 0
		default:
			return output.(int) == s, s
		}
	},
	DescribeOperation: func(input, output interface{}) string { return fmt.Sprint(input, output) },
}

type step struct {
	kind string
	ids  []string
	vs   []int
}

func (s step) String() string { return fmt.Sprintf("%s%v%v", s.kind, s.ids, s.vs) }

// wait ends the case if the goroutines do not end.
func wait(c *h.C, wg *sync.WaitGroup) {
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(90 * time.Second):
		b := make([]byte, 1<<20)
		n := runtime.Stack(b, true)
		fmt.Printf("operations did not end within 90 s\n%s\n", b[:n])
		c.Fatalf("operations did not end within 90 s: deadlock")
	}
}

var ids = []string{"a", "b", "c"}

// Concurrent writers and readers of the same records: every record behaves as one
// register, and in the end the index shows what is stored.
func TestLinear(t *testing.T) {
	h.Check(t, h.Opt{Quick: 120, Thorough: 3000}, func(c *h.C) {
		ctx := context.Background()
		cfg := core.DefaultConfig()
		cfg.Path = filepath.Join(c.Dir(), "t.db")
		cfg.VectorDim = rapid.SampledFrom([]int{0, 3}).Draw(c.T, "dim")
		cfg.HNSW.Enabled = rapid.IntRange(0, 3).Draw(c.T, "hnsw") > 0
		cfg.Quantization.Enabled = cfg.HNSW.Enabled && rapid.IntRange(0, 3).Draw(c.T, "quant") == 0
		if rapid.IntRange(0, 2).Draw(c.T, "autosave") == 0 {
			cfg.AutoSave.Interval = time.Duration(rapid.IntRange(1, 3000).Draw(c.T, "interval")) * time.Microsecond
			c.Class("index saved meanwhile")
		}
		s, err := core.NewWithConfig(cfg)
		c.Must(err, "open")
		c.Must(s.Init(ctx), "init")
		c.Defer(func() { _ = s.Close() })
		n := rapid.IntRange(2, 5).Draw(c.T, "goroutines")
		version := 0
		var plans [][]step
		for g := 0; g < n; g++ {
			var p []step
			for k := rapid.IntRange(2, 10).Draw(c.T, "ops"); k > 0; k-- {
				st := step{kind: rapid.SampledFrom([]string{"put", "put", "put", "batch", "del", "del", "delmany", "get", "search"}).Draw(c.T, "op")}
				m := 1
				if st.kind == "batch" || st.kind == "delmany" {
					m = rapid.IntRange(1, 3).Draw(c.T, "m")
				}
				for _, i := range rapid.Permutation([]int{0, 1, 2}).Draw(c.T, "ids")[:m] {
					version++
					st.ids = append(st.ids, ids[i])
					st.vs = append(st.vs, version)
				}
				p = append(p, st)
			}
			plans = append(plans, p)
			c.Op("%d: %v", g, p)
		}
		var clock atomic.Int64
		var mu sync.Mutex
		hist := map[string][]porcupine.Operation{}
		var bad atomic.Value
		record := func(g int, id string, i in, out int, call, ret int64) {
			mu.Lock()
			hist[id] = append(hist[id], porcupine.Operation{ClientId: g, Input: i, Call: call, Output: out, Return: ret})
			mu.Unlock()
		}
		fail := func(format string, args ...any) { bad.CompareAndSwap(nil, fmt.Sprintf(format, args...)) }
		read := func(e *core.Embedding) int {
			v, err := strconv.Atoi(e.Content)
			if err != nil || !h.SameVec(e.Vector, vec(v)) {
				fail("read %q with content %q and vector %v: parts of different versions", e.ID, e.Content, e.Vector)
			}
			return v
		}
		get := func(g int, id string) {
			call := clock.Add(1)
			e, err := s.GetByID(ctx, id)
			ret := clock.Add(1)
			switch {
			case err == nil:
				record(g, id, in{kind: "get"}, read(e), call, ret)
			case errors.Is(err, core.ErrNotFound):
				record(g, id, in{kind: "get"}, 0, call, ret)
			default:
				h.CheckInfra(err)
				fail("get %q: %v", id, err)
			}
		}
		run := func(g int, st step) {
			emb := func(i int) *core.Embedding {
				return &core.Embedding{ID: st.ids[i], Vector: vec(st.vs[i]), Content: strconv.Itoa(st.vs[i])}
			}
			call := clock.Add(1)
			var err error
			switch st.kind {
			case "put":
				err = s.Upsert(ctx, emb(0))
			case "batch":
				var es []*core.Embedding
				for i := range st.ids {
					es = append(es, emb(i))
				}
				err = s.UpsertBatch(ctx, es)
			case "del":
				err = s.Delete(ctx, st.ids[0])
			case "delmany":
				err = s.DeleteBatch(ctx, st.ids)
			case "get":
				get(g, st.ids[0])
				return
			case "search":
				res, err := s.Search(ctx, vec(st.vs[0]), core.SearchOptions{TopK: 10})
				h.CheckInfra(err)
				if err != nil && !(cfg.VectorDim == 0) {
					fail("search: %v", err)
				}
				seen := map[string]bool{}
				for _, r := range res {
					if seen[r.ID] {
						fail("search returned %q twice", r.ID)
					}
					seen[r.ID] = true
					read(&r.Embedding)
					if !h.Near(r.Score, h.Cosine(vec(st.vs[0]), r.Vector), 1e-5) {
						fail("search returned %q with score %v, want %v", r.ID, r.Score, h.Cosine(vec(st.vs[0]), r.Vector))
					}
				}
				return
			}
			ret := clock.Add(1)
			h.CheckInfra(err)
			if err != nil && !(errors.Is(err, core.ErrNotFound) && strings.HasPrefix(st.kind, "del")) {
				fail("%v: %v", st, err)
				return
			}
			for i, id := range st.ids {
				switch st.kind {
				case "put", "batch":
					record(g, id, in{"put", st.vs[i]}, 0, call, ret)
				case "del":
					out := 1
					if err != nil {
						out = 0
					}
					record(g, id, in{kind: "del"}, out, call, ret)
				case "delmany":
					if err == nil {
						record(g, id, in{kind: "delmany"}, 0, call, ret)
					}
				}
			}
		}
		var wg sync.WaitGroup
		for g := range plans {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, st := range plans[g] {
					run(g, st)
				}
			}()
		}
		wait(c, &wg)
		for _, id := range ids {
			get(n, id)
		}
		if m := bad.Load(); m != nil {
			c.Fatalf("%s", m)
		}
		overlap := false
		for _, id := range ids {
			ops := hist[id]
			if res := porcupine.CheckOperationsTimeout(register, ops, 20*time.Second); res == porcupine.Illegal {
				sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
				c.Fatalf("record %q does not behave as one register: %+v", id, ops)
			}
			for i := range ops {
				for j := range ops {
					overlap = overlap || i != j && ops[i].Call < ops[j].Call && ops[j].Call < ops[i].Return && ops[i].Input.(in).kind != "get" && ops[j].Input.(in).kind != "get"
				}
			}
		}
		if overlap {
			c.NonTrivial()
		}
		// at rest, searches show exactly what is stored
		atRest := func(when string) {
			want := map[string]float64{}
			q := vec(3)
			for _, id := range ids {
				if e, err := s.GetByID(ctx, id); err == nil {
					want[id] = h.Cosine(q, e.Vector)
				}
			}
			res, err := s.Search(ctx, q, core.SearchOptions{TopK: 10})
			if len(want) == 0 && err != nil {
				return
			}
			c.Must(err, "search")
			var got []string
			var sc []float64
			for _, r := range res {
				got = append(got, r.ID)
				sc = append(sc, r.Score)
			}
			if m := h.CheckTopK(got, sc, want, 10, 1e-5); m != "" {
				c.Fatalf("search %s: %s", when, m)
			}
		}
		atRest("after all operations ended")
		c.Must(s.Close(), "close")
		s, err = core.NewWithConfig(cfg)
		c.Must(err, "open")
		c.Must(s.Init(ctx), "init")
		atRest("after reopening")
	})
}

// Every kind of operation at once, and a close somewhere in between: nothing hangs or
// panics, after the close everything is refused, and what was acknowledged is stored.
func TestMixedAndClose(t *testing.T) {
	h.Check(t, h.Opt{Quick: 60, Thorough: 1500}, func(c *h.C) {
		ctx := context.Background()
		cfg := core.DefaultConfig()
		cfg.Path = filepath.Join(c.Dir(), "t.db")
		cfg.VectorDim = 3
		cfg.HNSW.Enabled = rapid.Bool().Draw(c.T, "hnsw")
		cfg.Quantization.Enabled = cfg.HNSW.Enabled && rapid.IntRange(0, 3).Draw(c.T, "quant") == 0
		if rapid.IntRange(0, 2).Draw(c.T, "autosave") == 0 {
			cfg.AutoSave.Interval = time.Duration(rapid.IntRange(1, 3000).Draw(c.T, "interval")) * time.Microsecond
			c.Class("index saved meanwhile")
		}
		s, err := core.NewWithConfig(cfg)
		c.Must(err, "open")
		c.Must(s.Init(ctx), "init")
		c.Defer(func() { _ = s.Close() })
		gs := graph.NewGraphStore(s)
		c.Must(gs.InitGraphSchema(ctx), "graph")
		if rapid.Bool().Draw(c.T, "ghnsw") {
			c.Must(gs.EnableHNSWIndex(3), "graph index")
		}
		_, err = s.CreateCollection(ctx, "col", 3)
		c.Must(err, "collection")
		c.Must(s.CreateDocument(ctx, &core.Document{ID: "d", Title: "d", Version: 1}), "document")
		c.Must(s.CreateSession(ctx, &core.Session{ID: "s", UserID: "u"}), "session")
		for i := 0; i < 6; i++ {
			c.Must(s.Upsert(ctx, &core.Embedding{ID: fmt.Sprintf("base%d", i), Vector: vec(i), Content: "apple", Metadata: map[string]string{"k": "v"}}), "upsert")
		}
		kinds := []string{"put", "put", "batch", "del", "get", "search", "hybrid", "range", "facets", "stats", "list", "docs", "collections", "aggregate", "stream", "history", "message", "node", "edge", "neighbors", "nodesearch", "mkcol", "rmcol", "doc", "clear", "dump", "acl", "filter", "delfilter", "diverse", "train", "export", "session"}
		n := rapid.IntRange(3, 8).Draw(c.T, "goroutines")
		plans := make([][]string, n)
		for g := range plans {
			plans[g] = rapid.SliceOfN(rapid.SampledFrom(kinds), 3, 15).Draw(c.T, "plan")
			c.Op("%d: %v", g, plans[g])
		}
		closeAfter := rapid.IntRange(0, 60).Draw(c.T, "closeAfter")
		withClose := rapid.Bool().Draw(c.T, "close")
		c.Op("close=%v after %d operations", withClose, closeAfter)
		var count atomic.Int64
		var closing, closed atomic.Bool
		var bad atomic.Value
		fail := func(format string, args ...any) { bad.CompareAndSwap(nil, fmt.Sprintf(format, args...)) }
		var amu sync.Mutex
		acked := map[string]bool{}
		dir := c.Dir()
		do := func(g, i int, kind string) error {
			id := fmt.Sprintf("g%d-%d", g, i)
			q := vec(g*31 + i)
			o := core.SearchOptions{TopK: 5}
			ack := func(err error, ids ...string) error {
				if err == nil {
					amu.Lock()
					for _, id := range ids {
						acked[id] = true
					}
					amu.Unlock()
				}
				return err
			}
			var err error
			switch kind {
			case "put":
				return ack(s.Upsert(ctx, &core.Embedding{ID: id, Vector: q, Content: "river"}), id)
			case "batch":
				return ack(s.UpsertBatch(ctx, []*core.Embedding{{ID: id + "x", Vector: q}, {ID: id + "y", Vector: q, Metadata: map[string]string{"k": "w"}}}), id+"x", id+"y")
			case "del":
				err = s.Delete(ctx, fmt.Sprintf("base%d", (g+i)%6))
			case "get":
				_, err = s.GetByID(ctx, "base1")
			case "search":
				_, err = s.Search(ctx, q, o)
			case "hybrid":
				_, err = s.HybridSearch(ctx, q, "apple", core.HybridSearchOptions{SearchOptions: o})
			case "range":
				_, err = s.RangeSearch(ctx, q, 1, o)
			case "facets":
				_, _, err = s.SearchWithFacets(ctx, q, core.FacetedSearchOptions{SearchOptions: o})
			case "stats":
				_, err = s.Stats(ctx)
			case "list":
				_, err = s.ListDocumentsWithInfo(ctx)
			case "docs":
				_, err = s.GetByDocID(ctx, "d")
			case "collections":
				_, err = s.ListCollections(ctx)
			case "aggregate":
				_, err = s.Aggregate(ctx, core.AggregationRequest{Type: core.AggregationCount})
			case "stream":
				var ch <-chan core.StreamingResult
				ch, err = s.StreamSearch(ctx, q, core.StreamingOptions{SearchOptions: o, BatchSize: 2})
				if err == nil {
					for range ch {
					}
				}
			case "history":
				_, err = s.GetSessionHistory(ctx, "s", 5)
			case "message":
				err = s.AddMessage(ctx, &core.Message{ID: id, SessionID: "s", Role: "user", Content: "hi"})
			case "session":
				err = s.CreateSession(ctx, &core.Session{ID: id, UserID: "u"})
			case "node":
				err = gs.UpsertNode(ctx, &graph.GraphNode{ID: fmt.Sprintf("n%d", i%3), Vector: q, Content: "n", NodeType: "t"})
			case "edge":
				_ = gs.UpsertNode(ctx, &graph.GraphNode{ID: "n0", Vector: q, NodeType: "t"})
				_ = gs.UpsertNode(ctx, &graph.GraphNode{ID: "n1", Vector: q, NodeType: "t"})
				err = gs.UpsertEdge(ctx, &graph.GraphEdge{ID: id, FromNodeID: "n0", ToNodeID: "n1", EdgeType: "r", Weight: 1})
				if err != nil && strings.Contains(err.Error(), "FOREIGN") {
					err = nil
				}
			case "neighbors":
				_, err = gs.Neighbors(ctx, "n0", graph.TraversalOptions{MaxDepth: 2})
				if err != nil && strings.Contains(err.Error(), "not found") {
					err = nil
				}
			case "nodesearch":
				_, err = gs.HybridSearch(ctx, &graph.HybridQuery{Vector: q, TopK: 3})
			case "mkcol":
				_, err = s.CreateCollection(ctx, id, 3)
			case "rmcol":
				err = s.DeleteCollection(ctx, "col")
				if err != nil && strings.Contains(err.Error(), "not found") {
					err = nil
				}
			case "doc":
				err = s.DeleteDocument(ctx, "nodoc")
			case "clear":
				err = s.ClearByDocID(ctx, []string{"d"})
			case "dump":
				_, err = s.Dump(ctx, io.Discard, core.DefaultDumpOptions())
			case "acl":
				_, err = s.SearchWithACL(ctx, q, []string{"u"}, o)
			case "filter":
				_, err = s.SearchWithAdvancedFilter(ctx, q, core.AdvancedSearchOptions{SearchOptions: o, PreFilter: core.NewMetadataFilter().Equal("k", "v").Build()})
			case "delfilter":
				err = s.DeleteByFilter(ctx, core.NewMetadataFilter().Equal("k", "none"))
			case "diverse":
				_, err = s.SearchWithDiversity(ctx, q, core.DiversitySearchOptions{SearchOptions: o, Method: core.DiversityMMR})
			case "train":
				_ = s.TrainIndex(ctx, 2)
			case "export":
				if cfg.HNSW.Enabled {
					err = s.ExportIndex(ctx, filepath.Join(dir, id))
				}
			}
			if errors.Is(err, core.ErrNotFound) {
				err = nil
			}
			return err
		}
		var wg sync.WaitGroup
		for g := range plans {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i, k := range plans[g] {
					was := closed.Load()
					err := do(g, i, k)
					h.CheckInfra(err)
					if was && k != "train" && !(k == "export" && !cfg.HNSW.Enabled) && err == nil {
						fail("%s after the close succeeded", k)
					}
					if err != nil && !closing.Load() {
						fail("%s: %v", k, err)
					}
					count.Add(1)
				}
			}()
		}
		if withClose {
			wg.Add(1)
			go func() {
				defer wg.Done()
				total := 0
				for _, p := range plans {
					total += len(p)
				}
				for int(count.Load()) < min(closeAfter, total) {
					time.Sleep(100 * time.Microsecond)
				}
				closing.Store(true)
				if err := s.Close(); err != nil {
					fail("close: %v", err)
				}
				closed.Store(true)
			}()
		}
		wait(c, &wg)
		if m := bad.Load(); m != nil {
			c.Fatalf("%s", m)
		}
		c.Must(s.Close(), "close")
		s, err = core.NewWithConfig(cfg)
		c.Must(err, "open")
		c.Must(s.Init(ctx), "init")
		for id := range acked {
			_, err := s.GetByID(ctx, id)
			c.Must(err, "acknowledged record %q", id)
		}
		st, err := s.Stats(ctx)
		c.Must(err, "stats")
		res, err := s.Search(ctx, vec(1), core.SearchOptions{TopK: 1000})
		c.Must(err, "search")
		if len(res) != int(st.Count) {
			c.Fatalf("search finds %d of %d records", len(res), st.Count)
		}
		if len(acked) > 1 {
			c.NonTrivial()
		}
	})
}
