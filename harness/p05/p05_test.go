package p05

import (
	"context"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"testing"
	"time"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
	"github.com/liliang-cn/cortexdb/v2/verifharness/flt"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"github.com/liliang-cn/cortexdb/v2/verifharness/mdl"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	flt.Install()
	os.Exit(m.Run())
}

// same checks that records, listings and index search all show the model.
func same(e *mdl.Env) {
	e.CheckAll()
	q := make([]float32, e.Dim)
	q[0] = 1
	res, err := e.S.Search(e.Ctx, q, core.SearchOptions{TopK: 100})
	e.C.Must(err, "search")
	ids, sc := e.Split(res)
	if m := h.CheckTopK(ids, sc, e.Eligible(q, h.Cosine, nil), 100, 1e-6); m != "" {
		e.C.Fatalf("search after the operation: %s", m)
	}
	// the nearest one, which an index answers without a scan
	for id, r := range e.Recs {
		if h.Dot(r.Vec, r.Vec) == 0 {
			continue
		}
		res, err := e.S.Search(e.Ctx, r.Vec, core.SearchOptions{TopK: 1})
		e.C.Must(err, "search")
		if len(res) != 1 || res[0].Score < 1-1e-6 {
			e.C.Fatalf("search for the vector of %q returned %+v", id, res)
		}
	}
}

func open(c *h.C) *mdl.Env {
	kind := rapid.SampledFrom([]string{"none", "hnsw", "hnsw", "ivf"}).Draw(c.T, "index")
	c.Op("index %s", kind)
	e := mdl.NewEnv(c, 2, func(cfg *core.Config) {
		switch kind {
		case "hnsw":
			cfg.HNSW.Enabled = true
		case "ivf":
			cfg.IndexType = core.IndexTypeIVF
			cfg.IVF.NCentroids = 2
			cfg.IVF.NProbe = 2
		}
	})
	e.WithACL = true
	if kind == "none" {
		e.Big = 150
	}
	e.Prepare(c.T)
	e.Fill(c.T, rapid.IntRange(3, 8).Draw(c.T, "n"))
	if kind == "ivf" && len(e.Recs) > 1 {
		c.Must(e.S.TrainIndex(e.Ctx, 2), "train")
	}
	return e
}

// Failing inside the database, at any element: the operation reports it and nothing changes.
func TestFailures(t *testing.T) {
	h.Check(t, h.Opt{Quick: 200, Thorough: 5000}, func(c *h.C) {
		e := open(c)
		db := e.S.GetDB()
		for _, q := range []string{
			`CREATE TRIGGER boom BEFORE INSERT ON embeddings WHEN NEW.content = 'BOOM' BEGIN SELECT RAISE(ABORT, 'injected'); END`,
			`CREATE TRIGGER stuck BEFORE DELETE ON embeddings WHEN OLD.content = 'STUCK' BEGIN SELECT RAISE(ABORT, 'injected'); END`,
			`CREATE TRIGGER stuckc BEFORE DELETE ON collections WHEN OLD.name = 'c1' BEGIN SELECT RAISE(ABORT, 'injected'); END`,
		} {
			_, err := db.Exec(q)
			c.Must(err, "trigger")
		}
		// one record that cannot be deleted
		st := e.Draw(c.T, "stuck")
		st.ID, st.Content = "k10", "STUCK"
		if st.Coll != "" && !e.Colls[st.Coll] {
			st.Coll = ""
		}
		if _, ok := e.Docs[st.Doc]; !ok {
			st.Doc = ""
		}
		e.NIDs = 20
		e.Upsert(st)
		same(e)
		failed := 0
		for i := 0; i < 6; i++ {
			switch op := rapid.SampledFrom([]string{"batch", "batch", "single", "deleteBatch", "deleteByFilter", "deleteByDoc", "clearByDoc", "clear", "deleteCollection", "deleteDocument", "delete", "cancelled"}).Draw(c.T, "op"); op {
			case "batch", "single":
				n := rapid.IntRange(1, 5).Draw(c.T, "n")
				if op == "single" {
					n = 1
				}
				var rs []*mdl.Rec
				var es []*core.Embedding
				for j := 0; j < n; j++ {
					r := e.Draw(c.T, "")
					for r.ID == "k10" {
						r.ID = "k9"
					}
					if r.Coll != "" && !e.Colls[r.Coll] {
						r.Coll = ""
					}
					if _, ok := e.Docs[r.Doc]; !ok {
						r.Doc = ""
					}
					rs = append(rs, r)
					es = append(es, r.Emb())
				}
				bad := rapid.SampledFrom([]string{"boom", "collection", "doc", "dim", "nan", "inf", "empty", "none"}).Draw(c.T, "bad")
				at := rapid.IntRange(0, n-1).Draw(c.T, "at")
				x := es[at]
				switch bad {
				case "boom":
					x.Content = "BOOM"
				case "collection":
					x.Collection = "no such"
				case "doc":
					x.DocID = "no such"
				case "dim":
					x.Vector = []float32{1, 2, 3}
				case "nan":
					x.Vector = []float32{1, float32(math.NaN())}
				case "inf":
					x.Vector = []float32{float32(math.Inf(1)), 1}
				case "empty":
					x.Vector = nil
				}
				c.Op("%s of %d, %s at %d: %v", op, n, bad, at, rs)
				var err error
				if op == "single" {
					err = e.S.Upsert(e.Ctx, x)
				} else {
					err = e.S.UpsertBatch(e.Ctx, es)
				}
				h.CheckInfra(err)
				if (err != nil) != (bad != "none") {
					c.Fatalf("%s with %s at %d of %d: error %v", op, bad, at, n, err)
				}
				if bad == "none" {
					for _, r := range rs {
						q := *r
						if q.Coll == "" {
							q.Coll = "default"
						}
						e.Recs[q.ID] = &q
					}
				} else {
					failed++
					if at > 0 {
						c.Class("failed-after-first-element")
					}
				}
			case "cancelled":
				ctx, cancel := context.WithCancel(e.Ctx)
				cancel()
				r := e.Draw(c.T, "")
				r.Coll, r.Doc = "", ""
				c.Op("cancelled upserts and deletes of %q", r.ID)
				if r.ID == "k10" {
					r.ID = "k9"
				}
				for _, err := range []error{e.S.Upsert(ctx, r.Emb()), e.S.UpsertBatch(ctx, []*core.Embedding{r.Emb()}), e.S.DeleteBatch(ctx, e.IDs()), e.S.Clear(ctx), e.S.DeleteByFilter(ctx, core.NewMetadataFilter().Equal("type", "x"))} {
					if err == nil {
						c.Fatalf("an operation with a cancelled context reported success")
					}
				}
				failed++
			default:
				var match func(*mdl.Rec) bool
				var err error
				block := false
				switch op {
				case "delete":
					id := e.SomeID(c.T)
					if e.Recs[id] == nil {
						continue
					}
					c.Op("delete %q", id)
					match = func(r *mdl.Rec) bool { return r.ID == id }
					err = e.S.Delete(e.Ctx, id)
				case "deleteBatch":
					ids := e.IDs()
					sub := map[string]bool{}
					var list []string
					for _, id := range ids {
						if rapid.Bool().Draw(c.T, "in") {
							sub[id] = true
							list = append(list, id)
						}
					}
					if len(list) == 0 {
						continue
					}
					c.Op("deleteBatch %q", list)
					match = func(r *mdl.Rec) bool { return sub[r.ID] }
					err = e.S.DeleteBatch(e.Ctx, list)
				case "deleteByFilter":
					k, v := rapid.SampledFrom(mdl.MetaKeys).Draw(c.T, "k"), rapid.SampledFrom(mdl.MetaVals).Draw(c.T, "v")
					if w, ok := st.Meta[k]; ok && rapid.Bool().Draw(c.T, "hit") {
						v = w
					}
					c.Op("deleteByFilter %q=%q", k, v)
					match = func(r *mdl.Rec) bool { w, ok := r.Meta[k]; return ok && w == v }
					err = e.S.DeleteByFilter(e.Ctx, core.NewMetadataFilter().Equal(k, v))
				case "deleteByDoc", "clearByDoc", "deleteDocument":
					d := rapid.SampledFrom(mdl.DocIDs).Draw(c.T, "doc")
					if _, ok := e.Docs[d]; !ok {
						continue
					}
					c.Op("%s %q", op, d)
					match = func(r *mdl.Rec) bool { return r.Doc == d }
					if op == "deleteByDoc" {
						err = e.S.DeleteByDocID(e.Ctx, d)
					} else if op == "clearByDoc" {
						d2 := rapid.SampledFrom(mdl.DocIDs).Draw(c.T, "doc2")
						match = func(r *mdl.Rec) bool { return r.Doc == d || r.Doc == d2 }
						err = e.S.ClearByDocID(e.Ctx, []string{d, d2})
					} else {
						err = e.S.DeleteDocument(e.Ctx, d)
						if err == nil {
							delete(e.Docs, d)
						}
					}
				case "clear":
					c.Op("clear")
					match = func(r *mdl.Rec) bool { return true }
					err = e.S.Clear(e.Ctx)
				case "deleteCollection":
					n := rapid.SampledFrom(mdl.CollNames).Draw(c.T, "coll")
					if !e.Colls[n] {
						continue
					}
					c.Op("deleteCollection %q", n)
					match = func(r *mdl.Rec) bool { return r.Coll == n }
					block = n == "c1"
					err = e.S.DeleteCollection(e.Ctx, n)
					if err == nil {
						delete(e.Colls, n)
					}
				}
				h.CheckInfra(err)
				block = block || (e.Recs["k10"] != nil && match(e.Recs["k10"]))
				if block != (err != nil) {
					c.Fatalf("%s: blocked=%v, error %v", op, block, err)
				}
				if block {
					failed++
					c.Class("blocked-" + op)
				} else {
					e.DeleteWhere(match)
				}
			}
			same(e)
		}
		if failed > 0 {
			c.NonTrivial()
		}
	})
}

// Cancelling a batch while it runs leaves all of it or none of it.
func TestCancel(t *testing.T) {
	h.Check(t, h.Opt{Quick: 40, Thorough: 1000}, func(c *h.C) {
		e := open(c)
		n := rapid.IntRange(50, 400).Draw(c.T, "batch")
		us := rapid.IntRange(0, 12000).Draw(c.T, "us")
		what := rapid.SampledFrom([]string{"upsert", "delete", "filter"}).Draw(c.T, "what")
		c.Op("%s %d cancelled after %dus", what, n, us)
		var es []*core.Embedding
		var ids []string
		for i := 0; i < n; i++ {
			id := fmt.Sprintf("big%d", i)
			ids = append(ids, id)
			es = append(es, &core.Embedding{ID: id, Vector: []float32{float32(i), 1}, Metadata: map[string]string{"big": "1"}})
		}
		before := len(e.Recs)
		start := before
		if what != "upsert" {
			c.Must(e.S.UpsertBatch(e.Ctx, es), "batch")
			start += n
		}
		ctx, cancel := context.WithTimeout(e.Ctx, time.Duration(us)*time.Microsecond)
		var err error
		end := before + n
		switch what {
		case "upsert":
			err = e.S.UpsertBatch(ctx, es)
		case "delete":
			err = e.S.DeleteBatch(ctx, ids)
			end = before
		default:
			err = e.S.DeleteByFilter(ctx, core.NewMetadataFilter().Equal("big", "1"))
			end = before
		}
		cancel()
		h.CheckInfra(err)
		st, serr := e.S.Stats(e.Ctx)
		c.Must(serr, "stats")
		got := int(st.Count)
		if got != start && got != end {
			c.Fatalf("%s of %d cancelled after %dus (error %v): %d records, want %d or %d", what, n, us, err, got, start, end)
		}
		if err == nil && got != end {
			c.Fatalf("%s reported success but %d records are there, want %d", what, got, end)
		}
		res, serr := e.S.Search(e.Ctx, []float32{1, 1}, core.SearchOptions{TopK: 1000})
		c.Must(serr, "search")
		if len(res) != got {
			c.Fatalf("search returns %d of %d records after a cancelled %s", len(res), got, what)
		}
		res, serr = e.S.Search(e.Ctx, []float32{float32(n - 1), 1}, core.SearchOptions{TopK: 1})
		c.Must(serr, "search")
		if len(res) != 1 && got > 0 {
			c.Fatalf("search returns %d of %d records after a cancelled %s", len(res), got, what)
		}
		if err != nil {
			c.NonTrivial()
			if got == end {
				c.Class("error-but-applied")
			}
		} else {
			c.Class("completed")
		}
	})
}

// Interrupted at any moment, a write has happened as a whole or not at all, and as a whole if
// it reports no error: two databases take the same writes, one of them interrupted.
func TestInterrupt(t *testing.T) {
	h.Check(t, h.Opt{Quick: 130, Thorough: 3000}, func(c *h.C) {
		kind := rapid.SampledFrom([]string{"none", "hnsw", "ivf"}).Draw(c.T, "index")
		c.Op("index %s", kind)
		var s [2]*core.SQLiteStore
		var g [2]*graph.GraphStore
		bg := context.Background()
		for i := range s {
			cfg := core.DefaultConfig()
			cfg.Path, cfg.VectorDim = filepath.Join(c.Dir(), fmt.Sprintf("twin%d.db", i)), 2
			cfg.HNSW.Enabled = kind == "hnsw"
			if kind == "ivf" {
				cfg.IndexType = core.IndexTypeIVF
				cfg.IVF.NCentroids, cfg.IVF.NProbe = 2, 2
			}
			var err error
			s[i], err = core.NewWithConfig(cfg)
			c.Must(err, "New")
			st := s[i]
			c.Must(st.Init(bg), "Init")
			c.Defer(func() { st.Close() })
			g[i] = graph.NewGraphStore(st)
			c.Must(g[i].InitGraphSchema(bg), "InitGraphSchema")
			for _, n := range []string{"c1", "c2"} {
				_, err := st.CreateCollection(bg, n, 2)
				c.Must(err, "CreateCollection")
			}
			for _, n := range []string{"d1", "d2"} {
				c.Must(st.CreateDocument(bg, &core.Document{ID: n, Title: n}), "CreateDocument")
			}
			c.Must(st.CreateSession(bg, &core.Session{ID: "s1", UserID: "u"}), "CreateSession")
		}
		ids := []string{"a", "b", "c", "d", "e", "f", "g"}
		rec := func() *core.Embedding {
			e := &core.Embedding{ID: rapid.SampledFrom(ids).Draw(c.T, "id"), Vector: h.NZVec(c.T, 2, "v"), Content: rapid.SampledFrom(h.Words).Draw(c.T, "content"),
				Metadata: map[string]string{"k": rapid.SampledFrom([]string{"x", "y"}).Draw(c.T, "k")}}
			e.Collection = rapid.SampledFrom([]string{"", "c1", "c2"}).Draw(c.T, "coll")
			e.DocID = rapid.SampledFrom([]string{"", "d1", "d2"}).Draw(c.T, "doc")
			return e
		}
		recs := func() (out []*core.Embedding) {
			for range rapid.IntRange(1, 12).Draw(c.T, "n") {
				out = append(out, rec())
			}
			return
		}
		clone := func(es []*core.Embedding) (out []*core.Embedding) {
			for _, e := range es {
				x := *e
				out = append(out, &x)
			}
			return
		}
		node := func() *graph.GraphNode {
			return &graph.GraphNode{ID: rapid.SampledFrom(ids).Draw(c.T, "node"), Vector: h.NZVec(c.T, 2, "v"), NodeType: "t"}
		}
		edge := func() *graph.GraphEdge {
			return &graph.GraphEdge{ID: rapid.SampledFrom([]string{"e1", "e2", "e3"}).Draw(c.T, "edge"), FromNodeID: rapid.SampledFrom(ids).Draw(c.T, "from"), ToNodeID: rapid.SampledFrom(ids).Draw(c.T, "to"), EdgeType: "t", Weight: 1}
		}
		first := clone(recs())
		for i := range s {
			c.Must(s[i].UpsertBatch(bg, clone(first)), "UpsertBatch")
			if kind == "ivf" {
				_ = s[i].TrainIndex(bg, 2)
			}
		}
		cut := 0
		for step := rapid.IntRange(3, 14).Draw(c.T, "steps"); step > 0; step-- {
			what := rapid.SampledFrom([]string{"upsert", "batch", "batch", "batch", "delete", "deleteBatch", "filter", "doc", "clearDoc", "clear", "document", "collection", "multi", "multi delete", "message", "session", "nodes", "edges", "node gone", "nodes gone", "graph batch", "update document"}).Draw(c.T, "what")
			es, e := recs(), rec()
			some := rapid.SliceOfN(rapid.SampledFrom(ids), 1, 5).Draw(c.T, "ids")
			id := some[0]
			n := []*graph.GraphNode{node(), node(), node()}
			l := []*graph.GraphEdge{edge(), edge()}
			doc := rapid.SampledFrom([]string{"d1", "d2"}).Draw(c.T, "d")
			v := h.NZVec(c.T, 2, "mv")
			do := func(i int, x context.Context) (err error) {
				s, g := s[i], g[i]
				switch what {
				case "upsert":
					return s.Upsert(x, clone([]*core.Embedding{e})[0])
				case "batch":
					return s.UpsertBatch(x, clone(es))
				case "delete":
					return s.Delete(x, id)
				case "deleteBatch":
					return s.DeleteBatch(x, some)
				case "filter":
					return s.DeleteByFilter(x, core.NewMetadataFilter().Equal("k", "x"))
				case "doc":
					return s.DeleteByDocID(x, doc)
				case "clearDoc":
					return s.ClearByDocID(x, []string{"d1", "d2"})
				case "clear":
					return s.Clear(x)
				case "document":
					return s.DeleteDocument(x, doc)
				case "update document":
					return s.UpdateDocument(x, &core.Document{ID: doc, Title: id})
				case "collection":
					return s.DeleteCollection(x, "c1")
				case "multi":
					return s.UpsertMultiVector(x, &core.MultiVectorEntity{ID: "ent", Content: id, Vectors: map[string][]float32{"p": v, "q": {1, 2}}})
				case "multi delete":
					return s.DeleteMultiVectorEntity(x, "ent")
				case "message":
					return s.AddMessage(x, &core.Message{ID: fmt.Sprintf("m%d", step), SessionID: "s1", Role: "user", Content: id})
				case "session":
					return s.CreateSession(x, &core.Session{ID: "s" + id, UserID: "u"})
				case "nodes":
					_, err = g.UpsertNodesBatch(x, n)
				case "edges":
					_, err = g.UpsertEdgesBatch(x, l)
				case "node gone":
					err = g.DeleteNode(x, id)
				case "nodes gone":
					_, err = g.DeleteNodesBatch(x, some)
				case "graph batch":
					_, err = g.ExecuteBatch(x, &graph.BatchGraphOperation{NodeUpserts: n, EdgeUpserts: l, NodeDeletes: some[:1]})
				}
				return
			}
			before := h.State(c, s[0].GetDB(), "")
			whole := h.Cut(0)
			flt.Arm(0, 0)
			want := do(1, whole)
			calls, _ := flt.Disarm()
			whole.Stop()
			h.CheckInfra(want)
			var err error
			var was, fault bool
			if how := rapid.IntRange(0, 3).Draw(c.T, "how"); how == 0 {
				at := rapid.IntRange(1, max(1, whole.Seen())).Draw(c.T, "at")
				c.Op("%s %q interrupted at %d of %d", what, id, at, whole.Seen())
				ctx := h.Cut(at)
				err = do(0, ctx)
				was = ctx.WasCut()
				ctx.Stop()
			} else {
				fault = true
				at := rapid.IntRange(1, max(1, calls)).Draw(c.T, "at")
				to := at
				if how == 1 {
					to = 1 << 30
				}
				c.Op("%s %q with database call %d of %d failing (to %d)", what, id, at, calls, to)
				flt.Arm(at, to)
				err = do(0, bg)
				_, hits := flt.Disarm()
				was = hits > 0
			}
			h.CheckInfra(err)
			if err == nil && want != nil {
				c.Fatalf("%s fails (%v), but succeeds when interrupted", what, want)
			}
			// the driver may be rolling back still
			after, done := "", ""
			for try := 0; try < 5; try++ {
				time.Sleep(time.Duration(try*try) * 5 * time.Millisecond)
				got := h.State(c, s[0].GetDB(), "")
				after = h.Diff(got, before)
				if done = h.Diff(got, h.State(c, s[1].GetDB(), "")); done == "" || after == "" && err != nil {
					break
				}
			}
			switch {
			case fault && err != nil && want == nil && after != "":
				c.Fatalf("%s failed (%v), but changed:\n%s", what, err, after)
			case done == "":
			case err == nil:
				c.Fatalf("%s succeeded, interrupted, but did not do all:\n%s", what, done)
			case after != "":
				c.Fatalf("%s, interrupted (%v), was done in part:\n%s\nchanged:\n%s", what, err, done, after)
			default: // not done: the twins are to agree again
				err := h.Calm(func() error { return do(0, bg) })
				if (err == nil) != (want == nil) {
					c.Fatalf("%s after an interruption: %v, want %v", what, err, want)
				}
				if d := h.Diff(h.State(c, s[0].GetDB(), ""), h.State(c, s[1].GetDB(), "")); d != "" {
					c.Fatalf("%s repeated after an interruption:\n%s", what, d)
				}
			}
			if err != nil && was {
				cut++
			}
			// the index shows what is stored
			q := h.NZVec(c.T, 2, "q")
			var found [2]string
			for i := range s {
				for _, k := range []int{100, 1}[:map[bool]int{true: 1, false: 2}[kind == "ivf"]] {
					res, err := s[i].Search(bg, q, core.SearchOptions{TopK: k})
					c.Must(err, "Search")
					var out []string
					for _, r := range res {
						if out = append(out, fmt.Sprintf("%.4f", r.Score)); k > 1 {
							out[len(out)-1] += " " + r.ID
						}
					}
					sort.Strings(out)
					found[i] += fmt.Sprint(out)
				}
			}
			if found[0] != found[1] {
				c.Fatalf("after %s, interrupted, a search finds %s, without the interruption %s", what, found[0], found[1])
			}
		}
		if cut > 1 {
			c.NonTrivial()
		}
	})
}
