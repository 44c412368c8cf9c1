package p33

import (
	"context"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"github.com/liliang-cn/cortexdb/v2/verifharness/mdl"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

const dim = 3

var (
	bg   = context.Background()
	sims = map[string]core.SimilarityFunc{"cosine": core.CosineSimilarity, "dot": core.DotProduct, "euclid": core.EuclideanDist}
)

type item struct {
	id, content, coll, k, doc string
	vec                       []float32
}

func store(c *h.C) (*mdl.Env, core.SimilarityFunc, bool) {
	name := rapid.SampledFrom([]string{"cosine", "cosine", "dot", "euclid"}).Draw(c.T, "similarity")
	adapt := rapid.Bool().Draw(c.T, "adapt dimensions")
	c.Op("similarity %s adapting %v", name, adapt)
	e := mdl.NewEnv(c, dim, func(cfg *core.Config) {
		cfg.SimilarityFn = sims[name]
		if adapt {
			cfg.AutoDimAdapt = core.AutoTruncate
		}
	})
	_, err := e.S.CreateCollection(bg, "Default", dim)
	c.Must(err, "CreateCollection")
	c.Must(e.S.CreateDocument(bg, &core.Document{ID: "d1", Title: "d1"}), "CreateDocument")
	return e, sims[name], adapt
}

func draw(c *h.C, n int) item {
	x := item{id: fmt.Sprintf("v%d", rapid.IntRange(0, n-1).Draw(c.T, "id")), content: h.Text(c.T, "content"), coll: "default", k: rapid.SampledFrom([]string{"a", "b"}).Draw(c.T, "k"), vec: h.NZVec(c.T, dim, "vec")}
	if rapid.IntRange(0, 3).Draw(c.T, "other collection") == 0 {
		x.coll = "Default"
	}
	if rapid.IntRange(0, 2).Draw(c.T, "of a document") == 0 {
		x.doc = "d1"
	}
	return x
}

func (x item) emb() *core.Embedding {
	return &core.Embedding{ID: x.id, Collection: x.coll, DocID: x.doc, Vector: append([]float32{}, x.vec...), Content: x.content, Metadata: map[string]string{"k": x.k}}
}

func (x item) String() string { return fmt.Sprintf("%s %s %s in %s", x.id, h.VS(x.vec), x.k, x.coll) }

func options(c *h.C) core.SearchOptions {
	o := core.SearchOptions{TopK: rapid.IntRange(1, 6).Draw(c.T, "topk")}
	if rapid.IntRange(0, 2).Draw(c.T, "in collection") == 0 {
		o.Collection = rapid.SampledFrom([]string{"Default", "default"}).Draw(c.T, "collection")
	}
	if rapid.IntRange(0, 2).Draw(c.T, "filtered") == 0 {
		o.Filter = map[string]string{"k": rapid.SampledFrom([]string{"a", "b"}).Draw(c.T, "filter")}
	}
	return o
}

func (x item) in(o core.SearchOptions) bool {
	return (o.Collection == "" || o.Collection == x.coll) && (o.Filter == nil || o.Filter["k"] == x.k)
}

func same(c *h.C, items map[string]item, r core.ScoredEmbedding, o core.SearchOptions) {
	x, ok := items[r.ID]
	if !ok || !x.in(o) || r.Content != x.content || !h.SameVec(r.Vector, x.vec) || r.Metadata["k"] != x.k || r.DocID != x.doc {
		c.Fatalf("%q is not what was asked for or differs from what is stored: %+v", r.ID, r)
	}
}

func near(a, b float64) bool { return h.Near(a, b, 1e-4*math.Max(1, math.Abs(b))) }

func TestStream(t *testing.T) {
	h.Check(t, h.Opt{Quick: 120, Thorough: 5000}, func(c *h.C) {
		e, sim, adapt := store(c)
		items := map[string]item{}
		for i := rapid.IntRange(0, 24).Draw(c.T, "records"); i > 0; i-- {
			x := draw(c, 30)
			c.Op("put %s", x)
			c.Must(e.S.Upsert(bg, x.emb()), "Upsert")
			items[x.id] = x
		}
		o := core.StreamingOptions{SearchOptions: options(c), BatchSize: rapid.IntRange(0, 6).Draw(c.T, "batch size"), MaxLatency: time.Minute}
		var progress [][2]int
		if rapid.Bool().Draw(c.T, "with progress") {
			o.ProgressCallback = func(done, total int) { progress = append(progress, [2]int{done, total}) }
		}
		size := o.BatchSize
		if size == 0 {
			size = 100
		}
		qdim := dim
		if rapid.IntRange(0, 4).Draw(c.T, "other dimension") == 0 {
			qdim = rapid.SampledFrom([]int{1, 2, 4, 6}).Draw(c.T, "query dimension")
		}
		q := h.NZVec(c.T, qdim, "query")
		c.Op("stream %s batch=%d %+v", h.VS(q), o.BatchSize, o.SearchOptions)
		if qdim != dim && !adapt {
			ch, err := e.S.StreamSearch(bg, q, o)
			if err == nil {
				for range ch {
				}
				c.Fatalf("a query of dimension %d is accepted by a store of dimension %d", qdim, dim)
			}
			return
		}
		// the scores are those of the ordinary search, which are checked by definition
		all, err := e.S.Search(bg, q, core.SearchOptions{TopK: len(items) + 1})
		c.Must(err, "Search")
		score := map[string]float64{}
		for _, r := range all {
			score[r.ID] = r.Score
			if w := sim(q, r.Vector); qdim == dim && !near(r.Score, w) {
				c.Fatalf("%s has score %v, want %v", r.ID, r.Score, w)
			}
		}
		if len(score) != len(items) {
			c.Fatalf("search returns %d of %d records", len(score), len(items))
		}
		want := map[string]float64{}
		for id, x := range items {
			if x.in(o.SearchOptions) {
				want[id] = score[id]
			}
		}
		switch kind := rapid.SampledFrom([]string{"all", "early", "collect", "merge", "cancel"}).Draw(c.T, "kind"); kind {
		case "all", "early":
			c.Class(kind)
			if kind == "early" {
				o.EarlyTerminate = true
				o.QualityThreshold = float64(rapid.IntRange(-4, 4).Draw(c.T, "quality")) / 4
				if len(want) > 0 && rapid.Bool().Draw(c.T, "exactly a score") {
					var ids []string
					for id := range want {
						ids = append(ids, id)
					}
					sort.Strings(ids)
					o.QualityThreshold = want[rapid.SampledFrom(ids).Draw(c.T, "whose")]
				}
				c.Op("early from %v", o.QualityThreshold)
			}
			ch, err := e.S.StreamSearch(bg, q, o)
			c.Must(err, "StreamSearch")
			seen := map[string]bool{}
			good, last, n := 0, core.StreamingResult{}, 0
			for r := range ch {
				same(c, items, r.ScoredEmbedding, o.SearchOptions)
				if seen[r.ID] {
					c.Fatalf("%s comes twice", r.ID)
				}
				seen[r.ID] = true
				if !near(r.Score, want[r.ID]) {
					c.Fatalf("%s has score %v, want %v", r.ID, r.Score, want[r.ID])
				}
				if r.BatchID != n/size {
					c.Fatalf("result %d is of batch %d, batch size %d", n, r.BatchID, size)
				}
				if n > 0 && last.BatchID == r.BatchID && last.Score < r.Score {
					c.Fatalf("batch %d is not in order of score", r.BatchID)
				}
				if kind == "early" && n > 0 && last.BatchID < r.BatchID && good >= o.TopK {
					c.Fatalf("batch %d comes though there were %d good results, enough for %d", r.BatchID, good, o.TopK)
				}
				if r.Score >= o.QualityThreshold {
					good++
				}
				last = r
				n++
			}
			if n < len(want) {
				if kind == "all" || good < o.TopK {
					c.Fatalf("%d of %d results (%d good, %d asked for)", n, len(want), good, o.TopK)
				}
				c.Class("ended early")
			}
			if o.ProgressCallback != nil && n == len(want) && kind == "all" {
				done := 0
				for _, p := range progress {
					if p[1] != len(want) || p[0] <= done || p[0] > p[1] {
						c.Fatalf("progress %v of %d", progress, len(want))
					}
					done = p[0]
				}
				if done != len(want) {
					c.Fatalf("progress ends with %v of %d", progress, len(want))
				}
			}
			if len(want) > size {
				c.NonTrivial()
			}
		case "collect":
			k := rapid.IntRange(1, 6).Draw(c.T, "k")
			c.Op("collect %d", k)
			ch, err := e.S.StreamSearch(bg, q, o)
			c.Must(err, "StreamSearch")
			got, err := core.CollectTopKFromStream(bg, ch, k)
			c.Must(err, "CollectTopKFromStream")
			best(c, items, got, want, k, o.SearchOptions)
			if len(want) > k {
				c.NonTrivial()
			}
		case "merge":
			qs := [][]float32{q}
			for i := rapid.IntRange(0, 2).Draw(c.T, "more queries"); i > 0; i-- {
				qs = append(qs, h.NZVec(c.T, dim, "query"))
			}
			alike := rapid.Bool().Draw(c.T, "alike")
			if alike {
				for i := range qs {
					qs[i] = q
				}
			}
			c.Op("merge %v", qs)
			o.ProgressCallback = nil
			chs, err := e.S.ParallelStreamSearch(bg, qs, o)
			c.Must(err, "ParallelStreamSearch")
			if len(chs) != len(qs) {
				c.Fatalf("%d streams for %d queries", len(chs), len(qs))
			}
			if alike && rapid.Bool().Draw(c.T, "collect the best") {
				// all streams give an item the same score
				k := rapid.IntRange(1, 6).Draw(c.T, "k")
				c.Op("collect %d", k)
				got, err := core.CollectTopKFromStream(bg, core.MergeStreamResults(bg, chs...), k)
				c.Must(err, "CollectTopKFromStream")
				best(c, items, got, want, k, o.SearchOptions)
				if len(qs) > 1 && len(want) > k {
					c.NonTrivial()
				}
				return
			}
			if rapid.Bool().Draw(c.T, "collect") && qdim == dim {
				// an item is represented by its first appearance: only which items there are is determined
				got, err := core.CollectTopKFromStream(bg, core.MergeStreamResults(bg, chs...), 1000)
				c.Must(err, "CollectTopKFromStream")
				ids := map[string]bool{}
				for i, r := range got {
					same(c, items, r, o.SearchOptions)
					if ids[r.ID] || i > 0 && got[i-1].Score < r.Score {
						c.Fatalf("%s comes twice or out of order", r.ID)
					}
					ids[r.ID] = true
				}
				if len(ids) != len(want) {
					c.Fatalf("%d of %d results", len(ids), len(want))
				}
				return
			}
			count := map[string]int{}
			var sum, wsum float64
			slow := rapid.IntRange(0, 9).Draw(c.T, "slow") == 0
			for r := range core.MergeStreamResults(bg, chs...) {
				same(c, items, r.ScoredEmbedding, o.SearchOptions)
				count[r.ID]++
				sum += r.Score
				if slow { // a reader may take its time
					time.Sleep(60 * time.Millisecond)
					slow = false
				}
			}
			for id := range want {
				if count[id] != len(qs) {
					c.Fatalf("%s comes %d times from %d streams", id, count[id], len(qs))
				}
				wsum += want[id]
				for _, v := range qs[1:] {
					if alike { // q may need to be adapted
						wsum += want[id]
					} else {
						wsum += sim(v, items[id].vec)
					}
				}
			}
			if len(count) != len(want) || !h.Near(sum, wsum, 1e-3*math.Max(1, math.Abs(wsum))) {
				c.Fatalf("%d results with sum of scores %v, want %d with %v", len(count), sum, len(want), wsum)
			}
			if len(qs) > 1 && len(want) > 1 {
				c.NonTrivial()
			}
		case "cancel":
			ctx, cancel := context.WithCancel(bg)
			after := rapid.IntRange(0, 10).Draw(c.T, "after")
			c.Op("cancelled after %d", after)
			ch, err := e.S.StreamSearch(ctx, q, o)
			c.Must(err, "StreamSearch")
			n := 0
			if after == 0 {
				cancel()
			}
			for r := range ch { // ends, or the check hangs
				same(c, items, r.ScoredEmbedding, o.SearchOptions)
				if n++; n == after {
					cancel()
				}
			}
			cancel()
			if n > after+2*size+1 {
				c.Fatalf("%d results after cancelling at %d", n, after)
			}
		}
	})
}

// Collecting from any streams, with repetitions, gives the k best distinct results.
func TestCollect(t *testing.T) {
	h.Check(t, h.Opt{Quick: 1500, Thorough: 40000}, func(c *h.C) {
		items, want := map[string]item{}, map[string]float64{}
		n := rapid.IntRange(1, 12).Draw(c.T, "items")
		for i := 0; i < n; i++ {
			x := item{id: fmt.Sprintf("v%d", i), content: fmt.Sprint(i), coll: "default", k: "a", vec: []float32{float32(i)}}
			items[x.id], want[x.id] = x, float64(rapid.IntRange(-10, 13).Draw(c.T, "score"))/13
		}
		var chs []<-chan core.StreamingResult
		sent := 0
		seen := map[string]bool{}
		for g := rapid.IntRange(1, 3).Draw(c.T, "streams"); g > 0; g-- {
			seq := rapid.SliceOfN(rapid.IntRange(0, n-1), 0, 15).Draw(c.T, "stream")
			c.Op("stream %v of %v", seq, want)
			ch := make(chan core.StreamingResult, len(seq))
			for i, j := range seq {
				x := items[fmt.Sprintf("v%d", j)]
				ch <- core.StreamingResult{ScoredEmbedding: core.ScoredEmbedding{Embedding: *x.emb(), Score: want[x.id]}, BatchID: i / 3}
				seen[x.id] = true
				sent++
			}
			close(ch)
			chs = append(chs, ch)
		}
		for id := range want {
			if !seen[id] {
				delete(want, id)
			}
		}
		k := rapid.IntRange(1, 8).Draw(c.T, "k")
		c.Op("collect %d", k)
		in := chs[0]
		if len(chs) > 1 {
			in = core.MergeStreamResults(bg, chs...)
		}
		got, err := core.CollectTopKFromStream(bg, in, k)
		c.Must(err, "CollectTopKFromStream")
		best(c, items, got, want, k, core.SearchOptions{})
		if len(want) > k && sent > len(want) {
			c.NonTrivial()
		}
	})
}

// best checks collected results: the k best, or k that are all above 0.9.
func best(c *h.C, items map[string]item, got []core.ScoredEmbedding, want map[string]float64, k int, o core.SearchOptions) {
	var ids []string
	var scores []float64
	scale := 1.0
	for _, s := range want {
		scale = math.Max(scale, math.Abs(s))
	}
	norm := map[string]float64{}
	for id, s := range want {
		norm[id] = s / scale
	}
	seen := map[string]bool{}
	good := true
	for i, r := range got {
		same(c, items, r, o)
		if seen[r.ID] || !near(r.Score, want[r.ID]) || i > 0 && got[i-1].Score < r.Score {
			c.Fatalf("%s comes twice, out of order or with score %v instead of %v", r.ID, r.Score, want[r.ID])
		}
		seen[r.ID] = true
		ids, scores = append(ids, r.ID), append(scores, r.Score/scale)
		good = good && r.Score > 0.9
	}
	if len(got) == k && good {
		return
	}
	if msg := h.CheckTopK(ids, scores, norm, k, 1e-4); msg != "" {
		c.Fatalf("%s", msg)
	}
}

func TestIncremental(t *testing.T) {
	h.Check(t, h.Opt{Quick: 60, Thorough: 3000, Steps: 12}, func(c *h.C) {
		e, sim, _ := store(c)
		items := map[string]item{}
		idx := core.NewIncrementalIndex(e.S)
		c.Defer(func() { idx.Close() })
		open := true
		queued, replaced, refused := 0, false, false
		add := func(x item) {
			err := idx.AddAsync(x.emb())
			if !open {
				if err == nil {
					c.Fatalf("a closed index accepts %s", x.id)
				}
				return
			}
			if err != nil && queued >= 100 {
				return // the queue may be full
			}
			c.Must(err, "AddAsync")
			if _, ok := items[x.id]; ok {
				replaced = true
			}
			items[x.id] = x
			queued++
		}
		stored := func() {
			for id, x := range items {
				got, err := e.S.GetByID(bg, id)
				c.Must(err, "GetByID of an accepted record")
				if !h.SameVec(got.Vector, x.vec) || got.Content != x.content || got.Collection != x.coll || got.DocID != x.doc || got.Metadata["k"] != x.k {
					c.Fatalf("%q is %+v, want %s", id, got, x)
				}
			}
			st, err := e.S.Stats(bg)
			c.Must(err, "Stats")
			if int(st.Count) != len(items) {
				c.Fatalf("%d records stored, want %d", st.Count, len(items))
			}
		}
		c.T.Repeat(map[string]func(*rapid.T){
			"add": func(t *rapid.T) {
				x := draw(c, 8)
				c.Op("add %s", x)
				add(x)
			},
			"add many": func(t *rapid.T) {
				n := rapid.IntRange(2, 14).Draw(t, "n")
				for i := 0; i < n; i++ {
					x := draw(c, 8)
					c.Op("add %s", x)
					add(x)
				}
			},
			"add a flood": func(t *rapid.T) {
				if !open || rapid.IntRange(0, 4).Draw(t, "really") != 0 {
					t.Skip()
				}
				n := rapid.IntRange(90, 260).Draw(t, "flood")
				ids := rapid.IntRange(1, 200).Draw(t, "of ids")
				c.Op("add %d records of %d ids", n, ids)
				for i := 0; i < n; i++ {
					x := item{id: fmt.Sprintf("v%d", i%ids), content: fmt.Sprintf("flood %d", i), coll: "default", k: "a", vec: []float32{float32(i%7) + 1, float32(i % 11), float32(i)}}
					for err := idx.AddAsync(x.emb()); err != nil; err = idx.AddAsync(x.emb()) {
						time.Sleep(time.Millisecond) // the queue is full
					}
					if _, ok := items[x.id]; ok {
						replaced = true
					}
					items[x.id] = x
					queued++
				}
				c.Class("flood")
			},
			"add bad": func(t *rapid.T) {
				if !open {
					t.Skip()
				}
				c.Op("add a record that cannot be stored")
				queued++
				_ = idx.AddAsync(&core.Embedding{ID: "bad", Vector: []float32{1, float32(math.NaN()), 0}, Content: "bad"})
				refused = true
			},
			"search": func(t *rapid.T) {
				if !open {
					t.Skip()
				}
				o := options(c)
				q := h.NZVec(t, dim, "query")
				c.Op("search %s %+v", h.VS(q), o)
				got, err := idx.SearchWithUpdates(bg, q, o)
				c.Must(err, "SearchWithUpdates")
				want := map[string]float64{}
				scale := 1.0
				for id, x := range items {
					if x.in(o) {
						want[id] = sim(q, x.vec)
						scale = math.Max(scale, math.Abs(want[id]))
					}
				}
				var ids []string
				var scores []float64
				for _, r := range got {
					same(c, items, r, o)
					ids, scores = append(ids, r.ID), append(scores, r.Score/scale)
				}
				for id := range want {
					want[id] /= scale
				}
				if msg := h.CheckTopK(ids, scores, want, o.TopK, 1e-4); msg != "" {
					c.Fatalf("%s", msg)
				}
				if queued > 1 && (replaced || refused) && len(want) > 0 {
					c.NonTrivial()
				}
				queued = 0
			},
			"wait": func(t *rapid.T) {
				if rapid.IntRange(0, 9).Draw(t, "really") != 0 {
					t.Skip()
				}
				c.Op("wait")
				time.Sleep(130 * time.Millisecond)
			},
			"close": func(t *rapid.T) {
				if rapid.IntRange(0, 3).Draw(t, "really") != 0 {
					t.Skip()
				}
				c.Op("close")
				idx.Close()
				open = false
				stored()
				if rapid.Bool().Draw(t, "again") {
					c.Op("a new index")
					if rapid.Bool().Draw(t, "reopen") {
						e.Reopen()
					}
					idx = core.NewIncrementalIndex(e.S)
					open = true
				}
			},
		})
		idx.Close()
		stored()
	})
}

// Writers, readers and a close at a generated moment: what was accepted is stored, with no version out of order.
func TestIncrementalConcurrent(t *testing.T) {
	h.Check(t, h.Opt{Quick: 15, Thorough: 600}, func(c *h.C) {
		e := mdl.NewEnv(c, 2, nil)
		writers, readers := rapid.IntRange(1, 4).Draw(c.T, "writers"), rapid.IntRange(0, 3).Draw(c.T, "readers")
		per := rapid.IntRange(1, 60).Draw(c.T, "records per writer")
		ids := rapid.IntRange(1, 5).Draw(c.T, "ids per writer")
		pause := time.Duration(rapid.IntRange(0, 4000).Draw(c.T, "close after us")) * time.Microsecond
		c.Op("%d writers of %d records under %d ids, %d readers, closed after %v", writers, per, ids, readers, pause)
		idx := core.NewIncrementalIndex(e.S)
		accepted := make([]map[string]int, writers)
		var ws, rs sync.WaitGroup
		stop := make(chan struct{})
		var mu sync.Mutex
		var bad string
		for w := 0; w < writers; w++ {
			accepted[w] = map[string]int{}
			ws.Add(1)
			go func() {
				defer ws.Done()
				for i := 1; i <= per; i++ {
					id := fmt.Sprintf("w%d-%d", w, i%ids)
					if idx.AddAsync(&core.Embedding{ID: id, Vector: []float32{1, float32(i)}, Content: fmt.Sprint(i)}) == nil {
						accepted[w][id] = i
					}
					if i%7 == 0 {
						time.Sleep(100 * time.Microsecond)
					}
				}
			}()
		}
		for r := 0; r < readers; r++ {
			rs.Add(1)
			go func() {
				defer rs.Done()
				version := map[string]int{}
				for {
					select {
					case <-stop:
						return
					default:
					}
					got, err := idx.SearchWithUpdates(bg, []float32{1, 1}, core.SearchOptions{TopK: 100})
					mu.Lock()
					if err != nil {
						bad = "SearchWithUpdates: " + err.Error()
					}
					seen := map[string]bool{}
					for _, x := range got {
						var v int
						fmt.Sscan(x.Content, &v)
						if seen[x.ID] || v < version[x.ID] {
							bad = fmt.Sprintf("%s comes twice or goes back from version %d to %d", x.ID, version[x.ID], v)
						}
						seen[x.ID], version[x.ID] = true, v
					}
					mu.Unlock()
				}
			}()
		}
		time.Sleep(pause)
		idx.Close()
		ws.Wait()
		close(stop)
		rs.Wait()
		if bad != "" {
			c.Fatalf("%s", bad)
		}
		n := 0
		var all []string
		for w := range accepted {
			for id, i := range accepted[w] {
				n++
				all = append(all, id)
				got, err := e.S.GetByID(bg, id)
				c.Must(err, "GetByID of an accepted record")
				if got.Content != fmt.Sprint(i) {
					c.Fatalf("%s holds version %s, last accepted %d", id, got.Content, i)
				}
			}
		}
		sort.Strings(all)
		st, err := e.S.Stats(bg)
		c.Must(err, "Stats")
		if int(st.Count) != n {
			c.Fatalf("%d records stored, %d accepted: %v", st.Count, n, all)
		}
		if n > 0 && readers > 0 {
			c.NonTrivial()
		}
	})
}
