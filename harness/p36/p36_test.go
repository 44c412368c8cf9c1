package p36

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
	"github.com/liliang-cn/cortexdb/v2/pkg/hindsight"
	"github.com/liliang-cn/cortexdb/v2/pkg/index"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"github.com/liliang-cn/cortexdb/v2/verifharness/kb"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

// vec is the vector of version n: no two versions are parallel.
func vec(n int) []float32 {
	a := float64(n) * 0.37
	return []float32{float32(math.Cos(a)), float32(math.Sin(a)), 0.25}
}

type in struct {
	kind string // put, del, get
	v    int
}

// register: 0 is absent. An output of -1 leaves open whether there was something to delete.
var register = porcupine.Model{
	Init: func() interface{} { return 0 },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		s, i, o := state.(int), input.(in), output.(int)
		switch i.kind {
		case "put":
			if o == 2 { // refused because there is one
				return s != 0, s
			}
			return true, i.v
		case "del":
			return o < 0 || o == 0 && s == 0 || o == 1 && s != 0, 0
		default:
			return o == s, s
		}
	},
	DescribeOperation: func(input, output interface{}) string { return fmt.Sprint(input, output) },
}

var errExists = errors.New("exists")

// thing is what is used by several goroutines at a time.
type thing struct {
	put func(ids []string, vs []int) error
	del func(id string) (existed int, err error) // -1: not told
	get func(id string) (int, error)             // the version, 0 if absent
	// look reads something else; what it returns is checked for damage only
	look func(id string, v int) error
	// peek, if set, is what a read is while writes go on: of those, only errors count
	peek func(id string) error
	many bool // put can take several
}

var ids = []string{"a", "b", "c"}

func goroutines(c *h.C, wg *sync.WaitGroup) {
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(90 * time.Second):
		b := make([]byte, 1<<20)
		fmt.Printf("operations did not end within 90 s\n%s\n", b[:runtime.Stack(b, true)])
		c.Fatalf("operations did not end within 90 s: deadlock")
	}
}

// use runs generated plans at once and checks that every id behaves as one register.
func use(c *h.C, x thing, maxOps int) {
	type step struct {
		kind string
		ids  []string
		vs   []int
	}
	kinds := []string{"put", "put", "put", "del", "del", "get"}
	if x.look != nil {
		kinds = append(kinds, "look")
	}
	n := rapid.IntRange(2, 5).Draw(c.T, "goroutines")
	plans := make([][]step, n)
	version := 0
	for g := range plans {
		for k := rapid.IntRange(2, maxOps).Draw(c.T, "ops"); k > 0; k-- {
			st := step{kind: rapid.SampledFrom(kinds).Draw(c.T, "op")}
			m := 1
			if st.kind == "put" && x.many {
				m = rapid.IntRange(1, 2).Draw(c.T, "m")
			}
			for _, i := range rapid.Permutation([]int{0, 1, 2}).Draw(c.T, "ids")[:m] {
				version++
				st.ids, st.vs = append(st.ids, ids[i]), append(st.vs, version)
			}
			plans[g] = append(plans[g], st)
		}
		c.Op("%d: %v", g, plans[g])
	}
	var clock atomic.Int64
	var mu sync.Mutex
	hist := map[string][]porcupine.Operation{}
	var bad atomic.Value
	fail := func(format string, args ...any) { bad.CompareAndSwap(nil, fmt.Sprintf(format, args...)) }
	record := func(g int, id string, i in, out int, call, ret int64) {
		mu.Lock()
		hist[id] = append(hist[id], porcupine.Operation{ClientId: g, Input: i, Call: call, Output: out, Return: ret})
		mu.Unlock()
	}
	get := func(g int, id string) {
		call := clock.Add(1)
		v, err := x.get(id)
		if err != nil {
			h.CheckInfra(err)
			fail("get %q: %v", id, err)
			return
		}
		record(g, id, in{kind: "get"}, v, call, clock.Add(1))
	}
	var wg sync.WaitGroup
	for g := range plans {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, st := range plans[g] {
				switch st.kind {
				case "put":
					call := clock.Add(1)
					err := x.put(st.ids, st.vs)
					ret := clock.Add(1)
					out := 0
					if err == errExists {
						out = 2
					} else if err != nil {
						h.CheckInfra(err)
						fail("put %v: %v", st.ids, err)
						return
					}
					for i, id := range st.ids {
						record(g, id, in{"put", st.vs[i]}, out, call, ret)
					}
				case "del":
					call := clock.Add(1)
					was, err := x.del(st.ids[0])
					if err != nil {
						h.CheckInfra(err)
						fail("delete %q: %v", st.ids[0], err)
						return
					}
					record(g, st.ids[0], in{kind: "del"}, was, call, clock.Add(1))
				case "get":
					if x.peek == nil {
						get(g, st.ids[0])
					} else if err := x.peek(st.ids[0]); err != nil {
						h.CheckInfra(err)
						fail("get %q: %v", st.ids[0], err)
					}
				case "look":
					if err := x.look(st.ids[0], st.vs[0]); err != nil {
						h.CheckInfra(err)
						fail("look for version %d: %v", st.vs[0], err)
					}
				}
			}
		}()
	}
	goroutines(c, &wg)
	if m := bad.Load(); m != nil {
		c.Fatalf("%s", m)
	}
	for _, id := range ids {
		get(n, id)
	}
	if m := bad.Load(); m != nil {
		c.Fatalf("%s", m)
	}
	overlap := false
	for _, id := range ids {
		ops := hist[id]
		if res := porcupine.CheckOperationsTimeout(register, ops, 20*time.Second); res == porcupine.Illegal {
			sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
			c.Fatalf("%q does not behave as one register: %+v", id, ops)
		}
		for i := range ops {
			for j := range ops {
				overlap = overlap || i != j && ops[i].Call < ops[j].Call && ops[j].Call < ops[i].Return && ops[i].Input.(in).kind != "get" && ops[j].Input.(in).kind != "get"
			}
		}
	}
	if overlap {
		c.NonTrivial()
	}
}

// Graph nodes, with and without the node index.
func TestGraph(t *testing.T) {
	h.Check(t, h.Opt{Quick: 100, Thorough: 3000}, func(c *h.C) {
		ctx := context.Background()
		s, err := core.New(filepath.Join(c.Dir(), "t.db"), 3)
		c.Must(err, "open")
		c.Must(s.Init(ctx), "init")
		c.Defer(func() { _ = s.Close() })
		gs := graph.NewGraphStore(s)
		c.Must(gs.InitGraphSchema(ctx), "schema")
		indexed := rapid.IntRange(0, 3).Draw(c.T, "indexed") > 0
		c.Op("indexed=%v", indexed)
		if indexed {
			c.Must(gs.EnableHNSWIndex(3), "index")
		}
		node := func(id string, v int) *graph.GraphNode {
			return &graph.GraphNode{ID: id, Vector: vec(v), Content: strconv.Itoa(v), NodeType: "t", Properties: map[string]interface{}{"v": strconv.Itoa(v)}}
		}
		whole := func(n *graph.GraphNode) (int, error) {
			v, err := strconv.Atoi(n.Content)
			if err != nil || !h.SameVec(n.Vector, vec(v)) || n.Properties["v"] != n.Content {
				return 0, fmt.Errorf("node %q has content %q, vector %v and properties %v: parts of different versions", n.ID, n.Content, n.Vector, n.Properties)
			}
			return v, nil
		}
		var edges sync.Map
		use(c, thing{
			many: true,
			put: func(ids []string, vs []int) error {
				if len(ids) == 1 && vs[0]%3 > 0 {
					return gs.UpsertNode(ctx, node(ids[0], vs[0]))
				}
				var ns []*graph.GraphNode
				for i := range ids {
					ns = append(ns, node(ids[i], vs[i]))
				}
				r, err := gs.UpsertNodesBatch(ctx, ns)
				if err == nil && (r.SuccessCount != len(ns) || r.FailedCount != 0) {
					err = fmt.Errorf("batch result %+v", *r)
				}
				return err
			},
			del: func(id string) (int, error) {
				err := gs.DeleteNode(ctx, id)
				if err != nil && strings.Contains(err.Error(), "not found") {
					return 0, nil
				}
				return 1, err
			},
			get: func(id string) (int, error) {
				n, err := gs.GetNode(ctx, id)
				if err != nil && strings.Contains(err.Error(), "not found") {
					return 0, nil
				}
				if err != nil {
					return 0, err
				}
				return whole(n)
			},
			look: func(id string, v int) error {
				if v%4 == 0 { // nodes and an edge of this goroutine alone
					a, b, e := fmt.Sprintf("x%d", v), fmt.Sprintf("y%d", v), fmt.Sprintf("e%d", v)
					if err := gs.UpsertNode(ctx, node(a, v)); err != nil {
						return err
					}
					if err := gs.UpsertNode(ctx, node(b, v)); err != nil {
						return err
					}
					if err := gs.UpsertEdge(ctx, &graph.GraphEdge{ID: e, FromNodeID: a, ToNodeID: b, EdgeType: "t", Weight: float64(v)}); err != nil {
						return err
					}
					edges.Store(e, v)
					return nil
				}
				if v%4 == 1 && indexed {
					res, err := gs.HNSWSearch(ctx, vec(v), 5, -2)
					if err != nil {
						return err
					}
					seen := map[string]bool{}
					for _, r := range res {
						if _, err := whole(r.Node); err != nil || seen[r.Node.ID] {
							return fmt.Errorf("search: %q repeated=%v %v", r.Node.ID, seen[r.Node.ID], err)
						}
						seen[r.Node.ID] = true
					}
					return nil
				}
				if v%4 == 2 {
					ns, err := gs.GetAllNodes(ctx, nil)
					if err != nil {
						return err
					}
					for _, n := range ns {
						if _, err := whole(n); err != nil {
							return err
						}
					}
					return nil
				}
				_, err := gs.HybridSearch(ctx, &graph.HybridQuery{Vector: vec(v), TopK: 3})
				return err
			},
		}, 10)
		// at rest: the edges are there, and searches show exactly what is stored
		edges.Range(func(e, v any) bool {
			es, err := gs.GetEdges(ctx, fmt.Sprintf("x%d", v), "out")
			c.Must(err, "edges")
			if len(es) != 1 || es[0].ID != e || es[0].Weight != float64(v.(int)) {
				c.Fatalf("edges of x%d: %v", v, es)
			}
			return true
		})
		ns, err := gs.GetAllNodes(ctx, nil)
		c.Must(err, "nodes")
		q, want := vec(3), map[string]float64{}
		for _, n := range ns {
			want[n.ID] = h.Cosine(q, n.Vector)
		}
		if !indexed {
			return
		}
		res, err := gs.HNSWSearch(ctx, q, 50, -2)
		c.Must(err, "search")
		var got []string
		var sc []float64
		for _, r := range res {
			got, sc = append(got, r.Node.ID), append(sc, r.VectorScore)
		}
		if m := h.CheckTopK(got, sc, want, 50, 1e-5); m != "" {
			c.Fatalf("node search at rest: %s", m)
		}
	})
}

// The index structures.
func TestIndexes(t *testing.T) {
	h.Check(t, h.Opt{Quick: 600, Thorough: 20000}, func(c *h.C) {
		kind := rapid.SampledFrom([]string{"flat", "hnsw", "ivf", "lsh", "multi", "hybrid"}).Draw(c.T, "kind")
		c.Op("%s", kind)
		l2 := func(a, b []float32) float32 {
			var s float64
			for i := range a {
				d := float64(a[i]) - float64(b[i])
				s += d * d
			}
			return float32(math.Sqrt(s))
		}
		type idx struct {
			put  func(string, []float32) error
			del  func(string) error
			find func([]float32, int) []string
			size func() int
		}
		var x idx
		one := func(i []string, _ []float32) []string { return i }
		switch kind {
		case "flat":
			f := index.NewFlatIndex(3, l2)
			x = idx{f.Insert, func(id string) error { f.Delete(id); return nil }, func(q []float32, k int) []string { return one(f.Search(q, k)) }, f.Size}
		case "hnsw":
			f := index.NewHNSW(16, 100, l2)
			x = idx{f.Insert, f.Delete, func(q []float32, k int) []string { return one(f.Search(q, k, 100)) }, f.Size}
		case "ivf":
			f := index.NewIVFIndex(3, 2)
			c.Must(f.Train([][]float32{vec(1), vec(5), vec(9)}), "train")
			f.SetNProbe(2)
			x = idx{f.Add, f.Delete, func(q []float32, k int) []string { i, _, _ := f.Search(q, k); return i }, f.Size}
		case "lsh":
			f := index.NewLSHIndex(index.LSHConfig{NumTables: 4, NumHashFuncs: 2, Dimension: 3, Seed: 3})
			x = idx{f.Insert, func(id string) error { f.Delete(id); return nil }, func(q []float32, k int) (ids []string) {
				res, _ := f.Search(q, k)
				for _, r := range res {
					ids = append(ids, r.ID)
				}
				return
			}, f.Size}
		case "multi":
			f := index.NewMultiIndex(index.MultiIndexConfig{PrimaryIndex: index.IndexTypeHNSW, Parallel: rapid.Bool().Draw(c.T, "parallel"), CombineStrategy: index.StrategyPrimaryOnly})
			f.AddIndex(index.IndexTypeHNSW, index.NewHNSWAdapter(3, 16, l2))
			f.AddIndex(index.IndexTypeFlat, flat{index.NewFlatIndex(3, l2)})
			x = idx{f.Insert, f.Delete, func(q []float32, k int) []string { return one(f.Search(q, k)) }, f.Size}
		case "hybrid":
			f := index.NewHybridIndex(3, 16, 2)
			c.Must(f.Train([][]float32{vec(1), vec(5), vec(9)}), "train")
			x = idx{f.Insert, f.Delete, func(q []float32, k int) []string { return one(f.Search(q, k)) }, f.Size}
		}
		// each goroutine has ids of its own and searches everything
		type step struct {
			kind string
			id   string
			v    int
		}
		n := rapid.IntRange(2, 6).Draw(c.T, "goroutines")
		plans := make([][]step, n)
		final := map[string]int{}
		version := 0
		for g := range plans {
			for k := rapid.IntRange(3, 20).Draw(c.T, "ops"); k > 0; k-- {
				version++
				st := step{rapid.SampledFrom([]string{"put", "put", "del", "search"}).Draw(c.T, "op"), fmt.Sprintf("g%d-%d", g, rapid.IntRange(0, 3).Draw(c.T, "id")), version}
				switch st.kind {
				case "put":
					if final[st.id] > 0 {
						st.kind = "replace"
					}
					final[st.id] = version
				case "del":
					if final[st.id] == 0 {
						st.kind = "search"
					}
					delete(final, st.id)
				}
				plans[g] = append(plans[g], st)
			}
		}
		c.Op("%v", plans)
		var bad atomic.Value
		fail := func(format string, args ...any) { bad.CompareAndSwap(nil, fmt.Sprintf(format, args...)) }
		var wg sync.WaitGroup
		for g := range plans {
			wg.Add(1)
			go func() {
				defer wg.Done()
				mine := map[string]bool{}
				for _, st := range plans[g] {
					var err error
					switch st.kind {
					case "put":
						err = x.put(st.id, vec(st.v))
						mine[st.id] = true
					case "replace":
						if err = x.del(st.id); err == nil {
							err = x.put(st.id, vec(st.v))
						}
					case "del":
						err = x.del(st.id)
						delete(mine, st.id)
					case "search":
						seen := map[string]bool{}
						for _, id := range x.find(vec(st.v), 100) {
							if seen[id] {
								fail("search returns %q twice", id)
							}
							seen[id] = true
							if strings.HasPrefix(id, fmt.Sprintf("g%d-", g)) && !mine[id] {
								fail("search returns %q, which is deleted", id)
							}
						}
						if kind != "lsh" {
							for id := range mine {
								if !seen[id] {
									fail("search does not return %q, which is inserted", id)
								}
							}
						}
						_ = x.size()
					}
					if err != nil {
						fail("%s %q: %v", st.kind, st.id, err)
					}
				}
			}()
		}
		goroutines(c, &wg)
		if m := bad.Load(); m != nil {
			c.Fatalf("%s: %s", kind, m)
		}
		if x.size() != len(final) {
			c.Fatalf("%s: size %d, want %d", kind, x.size(), len(final))
		}
		for id, v := range final {
			got := x.find(vec(v), 1)
			if len(got) != 1 || got[0] != id {
				c.Fatalf("%s: the vector of %q finds %v", kind, id, got)
			}
		}
		if len(final) > 2 {
			c.NonTrivial()
			c.Class(kind)
		}
	})
}

// emb is kb's embedder without its call counter.
type emb struct{}

func (emb) Embed(_ context.Context, text string) ([]float32, error) {
	return (&kb.Emb{N: 16}).Of(text), nil
}
func (emb) EmbedBatch(_ context.Context, texts []string) (out [][]float32, _ error) {
	for _, t := range texts {
		out = append(out, (&kb.Emb{N: 16}).Of(t))
	}
	return
}
func (emb) Dim() int { return 16 }

// flat makes a FlatIndex a VectorIndex.
type flat struct{ *index.FlatIndex }

func (f flat) Delete(id string) error { f.FlatIndex.Delete(id); return nil }

func openDB(c *h.C, embedder bool) *cortexdb.DB {
	cfg := cortexdb.DefaultConfig(filepath.Join(c.Dir(), "t.db"))
	var opts []cortexdb.Option
	if embedder {
		cfg.Dimensions = 16
		opts = append(opts, cortexdb.WithEmbedder(emb{}))
	} else {
		cfg.Dimensions = 4
	}
	db, err := cortexdb.Open(cfg, opts...)
	c.Must(err, "open")
	c.Defer(func() { _ = db.Close() })
	return db
}

// Memories, all in one bucket.
func TestMemories(t *testing.T) {
	h.Check(t, h.Opt{Quick: 80, Thorough: 2000}, func(c *h.C) {
		ctx := context.Background()
		db := openDB(c, rapid.Bool().Draw(c.T, "embedder"))
		_, err := db.SaveMemory(ctx, cortexdb.MemorySaveRequest{MemoryID: "shared", UserID: "other", Scope: "user", Content: "shared", Metadata: map[string]any{"k": "v"}})
		c.Must(err, "save")
		var updates sync.Map
		use(c, thing{
			put: func(ids []string, vs []int) error {
				n := strconv.Itoa(vs[0])
				_, err := db.SaveMemory(ctx, cortexdb.MemorySaveRequest{MemoryID: ids[0], UserID: "u", Scope: "user", Content: "apple v" + n, Metadata: map[string]any{"v": n}})
				return err
			},
			del: func(id string) (int, error) {
				_, err := db.DeleteMemory(ctx, cortexdb.MemoryDeleteRequest{MemoryID: id})
				if kb.NotFound(err) {
					return 0, nil
				}
				return 1, err
			},
			get: func(id string) (int, error) {
				r, err := db.GetMemory(ctx, cortexdb.MemoryGetRequest{MemoryID: id})
				if kb.NotFound(err) {
					return 0, nil
				}
				if err != nil {
					return 0, err
				}
				v, err := strconv.Atoi(strings.TrimPrefix(r.Memory.Content, "apple v"))
				if err != nil || r.Memory.Metadata["v"] != strconv.Itoa(v) || r.Memory.UserID != "u" {
					return 0, fmt.Errorf("memory %+v: parts of different versions", r.Memory)
				}
				return v, nil
			},
			look: func(id string, v int) error {
				if v%2 == 0 {
					k := fmt.Sprintf("k%d", v)
					updates.Store(k, true)
					_, err := db.UpdateMemory(ctx, cortexdb.MemoryUpdateRequest{MemoryID: "shared", Metadata: map[string]any{k: k}})
					return err
				}
				r, err := db.SearchMemory(ctx, cortexdb.MemorySearchRequest{UserID: "u", Scope: "user", Query: "apple", TopK: 10})
				if err != nil {
					return err
				}
				seen := map[string]bool{}
				for _, x := range r.Results {
					if seen[x.Memory.ID] {
						return fmt.Errorf("memory %q twice", x.Memory.ID)
					}
					seen[x.Memory.ID] = true
				}
				return nil
			},
		}, 8)
		r, err := db.GetMemory(ctx, cortexdb.MemoryGetRequest{MemoryID: "shared"})
		c.Must(err, "get")
		updates.Range(func(k, _ any) bool {
			if r.Memory.Metadata[k.(string)] != k || r.Memory.Metadata["k"] != "v" {
				c.Fatalf("the update %v is lost: %v", k, r.Memory.Metadata)
			}
			return true
		})
	})
}

// Knowledge items: one version or another, never a mixture.
func TestKnowledge(t *testing.T) {
	h.Check(t, h.Opt{Quick: 50, Thorough: 1200}, func(c *h.C) {
		ctx := context.Background()
		db := openDB(c, rapid.Bool().Draw(c.T, "embedder"))
		content := func(v int) string {
			// versions differ in length, hence in the number of chunks
			return strings.TrimSpace(strings.Repeat(fmt.Sprintf("apple word%d ", v), 6+v%3*12))
		}
		whole := func(r cortexdb.KnowledgeRecord) (int, error) {
			v, err := strconv.Atoi(r.Title)
			if err != nil || r.Content != content(v) || r.Metadata["v"] != r.Title {
				return 0, fmt.Errorf("knowledge %q has title %q, metadata %v and content %q: parts of different versions", r.ID, r.Title, r.Metadata, r.Content)
			}
			return v, nil
		}
		get := func(id string) (int, error) {
			r, err := db.GetKnowledge(ctx, cortexdb.KnowledgeGetRequest{KnowledgeID: id})
			if kb.NotFound(err) {
				return 0, nil
			}
			if err != nil {
				return 0, err
			}
			return whole(r.Knowledge)
		}
		_, err := db.SaveKnowledge(ctx, cortexdb.KnowledgeSaveRequest{KnowledgeID: "shared", Title: "shared", Content: "pear"})
		c.Must(err, "save")
		var updates atomic.Int64
		use(c, thing{
			put: func(ids []string, vs []int) error {
				r, err := db.SaveKnowledge(ctx, cortexdb.KnowledgeSaveRequest{KnowledgeID: ids[0], Title: strconv.Itoa(vs[0]), Content: content(vs[0]), ChunkSize: 12, ChunkOverlap: 2, Metadata: map[string]string{"v": strconv.Itoa(vs[0])},
					Entities: []cortexdb.ToolEntityInput{{Name: fmt.Sprintf("Entity%d", vs[0]), Type: "thing"}}})
				if err != nil {
					return err
				}
				if _, err := whole(r.Knowledge); err != nil {
					return fmt.Errorf("response: %w", err)
				}
				return nil
			},
			del: func(id string) (int, error) {
				_, err := db.DeleteKnowledge(ctx, cortexdb.KnowledgeDeleteRequest{KnowledgeID: id})
				if kb.NotFound(err) {
					return 0, nil
				}
				return 1, err
			},
			get: get,
			peek: func(id string) error {
				_, err := db.GetKnowledge(ctx, cortexdb.KnowledgeGetRequest{KnowledgeID: id})
				if kb.NotFound(err) {
					return nil
				}
				return err
			},
			look: func(id string, v int) error {
				if v%2 == 0 {
					author := fmt.Sprintf("author%d", v)
					updates.Add(1)
					_, err := db.UpdateKnowledge(ctx, cortexdb.KnowledgeUpdateRequest{KnowledgeID: "shared", Author: &author})
					return err
				}
				_, err := db.SearchKnowledge(ctx, cortexdb.KnowledgeSearchRequest{Query: "apple", TopK: 5})
				return err
			},
		}, 5)
		// at rest, everything derived belongs to the version that is stored
		shared, err := db.Vector().(*core.SQLiteStore).GetDocument(ctx, "shared")
		c.Must(err, "get")
		if got, want := shared.Version, 1+int(updates.Load()); got != want || shared.Content != "pear" {
			c.Fatalf("the shared knowledge has version %d after %d updates: %+v", got, want-1, shared)
		}
		want := map[string]bool{kb.ChunkID("shared", 0): true}
		for _, id := range ids {
			v, err := get(id)
			c.Must(err, "get %q", id)
			if v == 0 {
				continue
			}
			r, err := db.GetKnowledge(ctx, cortexdb.KnowledgeGetRequest{KnowledgeID: id})
			c.Must(err, "get %q", id)
			n := len(kb.Chunks(content(v), 12, 2))
			if len(r.Knowledge.ChunkIDs) != n {
				c.Fatalf("%q version %d has chunks %v, want %d", id, v, r.Knowledge.ChunkIDs, n)
			}
			for i := 0; i < n; i++ {
				want[kb.ChunkID(id, i)] = true
			}
			for _, chunk := range r.Knowledge.ChunkIDs {
				e, err := db.Vector().(*core.SQLiteStore).GetByID(ctx, chunk)
				if err == nil && !strings.Contains(e.Content, fmt.Sprintf("word%d", v)) {
					c.Fatalf("chunk %q of version %d is %q", chunk, v, e.Content)
				}
			}
		}
		ns, err := db.Graph().GetAllNodes(ctx, &graph.GraphFilter{NodeTypes: []string{"chunk"}})
		c.Must(err, "nodes")
		for _, n := range ns {
			if !want[n.ID] {
				c.Fatalf("the chunk %q is left over", n.ID)
			}
			delete(want, n.ID)
		}
		if len(want) > 0 {
			c.Fatalf("the chunks %v have no node", want)
		}
	})
}

// Banks of agent memory, and memories in them.
func TestHindsight(t *testing.T) {
	h.Check(t, h.Opt{Quick: 40, Thorough: 1200}, func(c *h.C) {
		ctx := context.Background()
		cfg := hindsight.DefaultConfig(filepath.Join(c.Dir(), "t.db"))
		cfg.VectorDim = 3
		s, err := hindsight.New(cfg)
		c.Must(err, "open")
		closed := false
		c.Defer(func() {
			if !closed {
				_ = s.Close()
			}
		})
		bank := func(get func(string) (*hindsight.Bank, bool)) func(string) (int, error) {
			return func(id string) (int, error) {
				b, ok := get(id)
				if !ok {
					return 0, nil
				}
				v, err := strconv.Atoi(b.Name)
				if err != nil || b.ID != id || b.Description != "d"+b.Name {
					return 0, fmt.Errorf("bank %+v", *b)
				}
				return v, nil
			}
		}
		var kept sync.Map
		use(c, thing{
			put: func(ids []string, vs []int) error {
				n := strconv.Itoa(vs[0])
				err := s.CreateBank(ctx, &hindsight.Bank{ID: ids[0], Name: n, Description: "d" + n})
				if err != nil && strings.Contains(err.Error(), "already exists") {
					return errExists
				}
				return err
			},
			del: func(id string) (int, error) {
				err := s.DeleteBank(id)
				if err != nil && strings.Contains(err.Error(), "not found") {
					return 0, nil
				}
				return 1, err
			},
			get: bank(s.GetBank),
			look: func(id string, v int) error {
				bank := fmt.Sprintf("bank%d", v%2)
				if v%3 > 0 {
					m := &hindsight.Memory{ID: fmt.Sprintf("m%d", v), BankID: bank, Type: hindsight.WorldMemory, Content: fmt.Sprintf("apple v%d", v), Vector: vec(v), Entities: []string{"Ann"}, Confidence: 1}
					if err := s.Retain(ctx, m); err != nil {
						return err
					}
					kept.Store(m.ID, v)
				}
				res, err := s.Recall(ctx, &hindsight.RecallRequest{BankID: bank, Query: "apple", QueryVector: vec(v), Strategy: &hindsight.RecallStrategy{Memory: true, Priming: true, Entity: []string{"Ann"}}, TopK: 200})
				if err != nil {
					return err
				}
				seen := map[string]bool{}
				for _, r := range res {
					n, err := strconv.Atoi(strings.TrimPrefix(r.ID, "m"))
					if err != nil || seen[r.ID] || n%2 != v%2 || r.Content != fmt.Sprintf("apple v%d", n) || !h.SameVec(r.Vector, vec(n)) {
						return fmt.Errorf("recall from %s: %+v (twice=%v)", bank, *r.Memory, seen[r.ID])
					}
					seen[r.ID] = true
				}
				if v%3 > 0 && !seen[fmt.Sprintf("m%d", v)] {
					return fmt.Errorf("recall from %s does not give m%d, which is retained", bank, v)
				}
				return nil
			},
		}, 8)
		// what is told and what is stored agree: a restart changes nothing
		was := map[string]int{}
		for _, id := range ids {
			if was[id], err = bank(s.GetBank)(id); err != nil {
				c.Fatalf("%v", err)
			}
		}
		listed := map[string]bool{}
		for _, b := range s.ListBanks() {
			listed[b.ID] = true
		}
		closed = true
		c.Must(s.Close(), "close")
		s, err = hindsight.New(cfg)
		c.Must(err, "reopen")
		closed = false
		for _, id := range ids {
			now, err := bank(s.GetBank)(id)
			if err != nil || now != was[id] || listed[id] != (now > 0) {
				c.Fatalf("bank %q was %d (listed %v) and is %d after reopening: %v", id, was[id], listed[id], now, err)
			}
		}
		kept.Range(func(id, v any) bool {
			res, err := s.Recall(ctx, &hindsight.RecallRequest{BankID: fmt.Sprintf("bank%d", v.(int)%2), QueryVector: vec(v.(int)), Strategy: &hindsight.RecallStrategy{Memory: true}, TopK: 200})
			c.Must(err, "recall")
			for _, r := range res {
				if r.ID == id {
					return true
				}
			}
			c.Fatalf("memory %v is lost", id)
			return false
		})
	})
}
