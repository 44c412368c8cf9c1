package p30

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"sort"
	"strings"
	"testing"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"github.com/liliang-cn/cortexdb/v2/verifharness/mdl"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

var (
	bg    = context.Background()
	words = []string{"red", "Red", "reddish", "fox", "the", "日本", "x"}
)

func phrase(t *rapid.T, label string) string {
	return strings.Join(rapid.SliceOfN(rapid.SampledFrom(words), 0, 4).Draw(t, label), " ")
}

var sims = map[string]core.SimilarityFunc{"cosine": core.CosineSimilarity, "dot": core.DotProduct, "euclid": core.EuclideanDist}

func simName(t *rapid.T) string {
	return rapid.SampledFrom([]string{"cosine", "dot", "euclid"}).Draw(t, "similarity")
}

// candidates draws results in descending order of score.
func candidates(t *rapid.T) []core.ScoredEmbedding {
	n := rapid.IntRange(0, 14).Draw(t, "n")
	out := make([]core.ScoredEmbedding, n)
	for i := range out {
		out[i] = core.ScoredEmbedding{Embedding: core.Embedding{ID: fmt.Sprintf("r%d", i), Content: phrase(t, "content"), Vector: h.NZVec(t, 3, "vec")},
			Score: float64(rapid.IntRange(-8, 8).Draw(t, "score")) / 8}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Score > out[j].Score })
	return out
}

func show(r []core.ScoredEmbedding) string {
	var b strings.Builder
	for _, x := range r {
		fmt.Fprintf(&b, "%s(%.4g %q) ", x.ID, x.Score, x.Content)
	}
	return b.String()
}

// permutation checks that got holds the records of in, whatever their order and score.
func permutation(c *h.C, in, got []core.ScoredEmbedding) {
	if len(in) != len(got) {
		c.Fatalf("%d results from %d", len(got), len(in))
	}
	by := map[string]core.ScoredEmbedding{}
	for _, r := range in {
		by[r.ID] = r
	}
	for _, r := range got {
		w, ok := by[r.ID]
		if !ok || w.Content != r.Content || !h.SameVec(w.Vector, r.Vector) {
			c.Fatalf("%q is no record of the input or comes twice", r.ID)
		}
		delete(by, r.ID)
	}
}

// scored checks order and scores of a reranking whose scores are known.
func scored(c *h.C, in, got []core.ScoredEmbedding, want func(i int) float64) {
	permutation(c, in, got)
	pos := map[string]int{}
	for i, r := range in {
		pos[r.ID] = i
	}
	for i, r := range got {
		if w := want(pos[r.ID]); !h.Near(r.Score, w, 1e-9) {
			c.Fatalf("%s has score %v, want %v, in %s", r.ID, r.Score, w, show(got))
		}
		if i > 0 && got[i-1].Score < r.Score {
			c.Fatalf("not in order of score: %s", show(got))
		}
	}
}

func copyOf(in []core.ScoredEmbedding) []core.ScoredEmbedding {
	out := make([]core.ScoredEmbedding, len(in))
	copy(out, in)
	return out
}

func same(a, b []core.ScoredEmbedding) bool {
	for i := range a {
		if a[i].ID != b[i].ID || a[i].Score != b[i].Score {
			return false
		}
	}
	return true
}

// run applies a reranker and checks that its input is left alone.
func run(c *h.C, r core.Reranker, q string, in []core.ScoredEmbedding) []core.ScoredEmbedding {
	keep := copyOf(in)
	got, err := r.Rerank(bg, q, in)
	c.Must(err, "Rerank")
	if !same(in, keep) {
		c.Fatalf("the reranker changed its input from %s to %s", show(keep), show(in))
	}
	return got
}

func keywordScores(in []core.ScoredEmbedding, q string, boost float64, cs bool) []float64 {
	out := make([]float64, len(in))
	for i, r := range in {
		content := r.Content
		query := q
		if !cs {
			content, query = strings.ToLower(content), strings.ToLower(q)
		}
		n := 0
		for _, w := range strings.Fields(query) {
			if strings.Contains(content, w) {
				n++
			}
		}
		out[i] = 1 + float64(n)*boost
	}
	return out
}

func overlap(content, q string) float64 {
	set := map[string]bool{}
	for _, w := range strings.Fields(strings.ToLower(content)) {
		set[w] = true
	}
	n, all := 0, strings.Fields(strings.ToLower(q))
	for _, w := range all {
		if set[w] {
			n++
		}
	}
	if len(all) == 0 {
		return 0
	}
	return float64(n) / float64(len(all))
}

func TestRerankers(t *testing.T) {
	h.Check(t, h.Opt{Quick: 1500, Thorough: 40000}, func(c *h.C) {
		in := candidates(c.T)
		q := phrase(c.T, "query")
		kind := rapid.SampledFrom([]string{"normalize", "keyword", "rrf", "diversity", "custom", "hybrid"}).Draw(c.T, "kind")
		c.Op("%s %q over %s", kind, q, show(in))
		c.Class(kind)
		if len(in) > 2 {
			c.NonTrivial()
		}
		switch kind {
		case "normalize":
			lo := rapid.Float64Range(-2, 1).Draw(c.T, "lo")
			hi := lo + rapid.Float64Range(0.1, 3).Draw(c.T, "width")
			// scores of any size, also very close together
			if f := rapid.SampledFrom([]float64{1, 1, 1e-4, 1e-7, 500}).Draw(c.T, "scale"); f != 1 {
				for i := range in {
					in[i].Score *= f
				}
				c.Op("times %v", f)
			}
			got := run(c, core.NewScoreNormalizationReranker(lo, hi), q, in)
			if len(in) == 0 {
				return
			}
			top, low := in[0].Score, in[len(in)-1].Score
			scored(c, in, got, func(i int) float64 {
				if top == low {
					return lo
				}
				return lo + (in[i].Score-low)/(top-low)*(hi-lo)
			})
		case "keyword":
			r := core.NewKeywordMatchReranker(rapid.SampledFrom([]float64{0.1, 0.5, 2}).Draw(c.T, "boost"))
			r.CaseSensitive = rapid.Bool().Draw(c.T, "case sensitive")
			got := run(c, r, q, in)
			permutation(c, in, got)
			boost := keywordScores(in, q, r.Boost, r.CaseSensitive)
			pos := map[string]int{}
			for i, x := range in {
				pos[x.ID] = i
			}
			at := map[string]int{}
			for i, x := range got {
				at[x.ID] = i
				o := in[pos[x.ID]].Score
				if o >= 0 && !h.Near(x.Score, o*boost[pos[x.ID]], 1e-9) {
					c.Fatalf("%s scored %v with %v, want factor %v", x.ID, o, x.Score, boost[pos[x.ID]])
				}
				if x.Score < o {
					c.Fatalf("the score of %s falls from %v to %v by matching", x.ID, o, x.Score)
				}
				if i > 0 && got[i-1].Score < x.Score {
					c.Fatalf("not in order of score: %s", show(got))
				}
			}
			// more matches at no lower score never rank behind
			for i, a := range in {
				for j, b := range in {
					if a.Score > b.Score && boost[i] >= boost[j] && at[a.ID] > at[b.ID] {
						c.Fatalf("%s ranks behind %s in %s", a.ID, b.ID, show(got))
					}
				}
			}
		case "rrf":
			r := core.NewReciprocalRankFusionReranker(rapid.SampledFrom([]float64{1, 60}).Draw(c.T, "k"))
			got := run(c, r, q, in)
			permutation(c, in, got)
			ov := make([]float64, len(in))
			for i, x := range in {
				ov[i] = overlap(x.Content, q)
			}
			at, score := map[string]int{}, map[string]float64{}
			for i, x := range got {
				at[x.ID], score[x.ID] = i, x.Score
				if i > 0 && got[i-1].Score < x.Score {
					c.Fatalf("not in order of score: %s", show(got))
				}
			}
			for i, a := range in {
				// the text rank lies within its group of equal overlap
				lo, hi := 1, 0
				for j := range in {
					if ov[j] > ov[i] {
						lo++
					}
					if ov[j] >= ov[i] {
						hi++
					}
				}
				base := 0.5 / (r.K + float64(i+1))
				if s := score[a.ID]; s > base+0.5/(r.K+float64(lo))+1e-12 || s < base+0.5/(r.K+float64(hi))-1e-12 {
					c.Fatalf("%s has score %v, want %v plus the share of text rank %d to %d", a.ID, s, base, lo, hi)
				}
				for j := range in[:i] {
					if ov[j] >= ov[i] && at[in[j].ID] > at[a.ID] {
						c.Fatalf("%s ranks behind %s though it is better by both measures: %s", in[j].ID, a.ID, show(got))
					}
				}
			}
		case "diversity":
			name := simName(c.T)
			lambda := rapid.SampledFrom([]float64{0, 0.3, 0.5, 0.9, 1}).Draw(c.T, "lambda")
			c.Op("%s lambda=%v", name, lambda)
			got := run(c, core.NewDiversityReranker(lambda, sims[name]), q, in)
			permutation(c, in, got)
			for _, x := range got {
				for _, y := range in {
					if x.ID == y.ID && x.Score != y.Score {
						c.Fatalf("the score of %s changed", x.ID)
					}
				}
			}
			if len(in) == 0 {
				return
			}
			if lambda == 0 { // the first pick is free: nothing is selected yet
				greedyFrom(c, got, 1, sims[name], lambda, func(x core.ScoredEmbedding) float64 { return 0 })
			} else {
				greedyFrom(c, got, 0, sims[name], lambda, func(x core.ScoredEmbedding) float64 { return sims[name](in[0].Vector, x.Vector) })
			}
		case "custom":
			f := func(_ context.Context, query string, r core.ScoredEmbedding) float64 {
				return float64(len(r.Content)*3%7) + float64(len(query)) + r.Score
			}
			got := run(c, core.NewCustomReranker(f), q, in)
			scored(c, in, got, func(i int) float64 { return f(bg, q, in[i]) })
		case "hybrid":
			n := rapid.IntRange(0, 3).Draw(c.T, "parts")
			var rs []core.Reranker
			var ws []float64
			parts := make([]map[string]float64, n)
			for k := 0; k < n; k++ {
				k := k
				part := rapid.SampledFrom([]string{"length", "reverse", "subset", "keyword"}).Draw(c.T, "part")
				w := float64(rapid.IntRange(1, 4).Draw(c.T, "weight"))
				c.Op("part %s weight %v", part, w)
				rs = append(rs, core.RerankerFunc(func(ctx context.Context, q string, in []core.ScoredEmbedding) ([]core.ScoredEmbedding, error) {
					out := copyOf(in)
					switch part {
					case "length":
						for i := range out {
							out[i].Score = float64(len(out[i].Content))
						}
					case "reverse":
						for i := range in {
							out[len(in)-1-i] = in[i]
							out[len(in)-1-i].Score = float64(i)
						}
					case "subset":
						out = out[:len(out)/2]
					case "keyword":
						out, _ = core.NewKeywordMatchReranker(1).Rerank(ctx, q, in)
					}
					parts[k] = map[string]float64{}
					for _, x := range out {
						parts[k][x.ID] = x.Score
					}
					return out, nil
				}))
				ws = append(ws, w)
			}
			got := run(c, core.NewHybridReranker(rs, ws), q, in)
			if n == 0 {
				permutation(c, in, got)
				return
			}
			scored(c, in, got, func(i int) float64 {
				sum, tot := 0.0, 0.0
				for k := range parts {
					sum += ws[k] * parts[k][in[i].ID]
					tot += ws[k]
				}
				return sum / tot
			})
		}
	})
}

// greedyFrom checks that each pick from position start on maximizes the marginal relevance.
func greedyFrom(c *h.C, got []core.ScoredEmbedding, start int, sim core.SimilarityFunc, lambda float64, rel func(core.ScoredEmbedding) float64) {
	val := func(k int, x core.ScoredEmbedding) float64 {
		worst := 0.0
		for _, s := range got[:k] {
			worst = math.Max(worst, sim(x.Vector, s.Vector))
		}
		return lambda*rel(x) - (1-lambda)*worst
	}
	for k := start; k < len(got); k++ {
		v := val(k, got[k])
		for _, o := range got[k+1:] {
			if w := val(k, o); w > v+1e-4*math.Max(1, math.Abs(w)) {
				c.Fatalf("pick %d is %s with value %v; %s has %v", k+1, got[k].ID, v, o.ID, w)
			}
		}
	}
}

// ---- against a store

type item struct {
	id, content string
	vec         []float32
	coll        string
	meta        map[string]string
}

func fill(c *h.C, max int) (*mdl.Env, string, map[string]item) {
	name := simName(c.T)
	hnsw := rapid.Bool().Draw(c.T, "hnsw")
	e := mdl.NewEnv(c, 3, func(cfg *core.Config) {
		cfg.SimilarityFn = sims[name]
		cfg.HNSW.Enabled = hnsw && name == "cosine"
	})
	_, err := e.S.CreateCollection(bg, "Default", 3)
	c.Must(err, "CreateCollection")
	items := map[string]item{}
	n := rapid.IntRange(0, max).Draw(c.T, "n")
	for i := 0; i < n; i++ {
		x := item{id: fmt.Sprintf("v%d", i), content: phrase(c.T, "content"), vec: h.NZVec(c.T, 3, "vec"), coll: "default", meta: map[string]string{"k": rapid.SampledFrom([]string{"a", "b"}).Draw(c.T, "k")}}
		if rapid.IntRange(0, 3).Draw(c.T, "other collection") == 0 {
			x.coll = "Default"
		}
		c.Op("put %s %s in %s %s %q", x.id, h.VS(x.vec), x.coll, x.meta["k"], x.content)
		c.Must(e.S.Upsert(bg, &core.Embedding{ID: x.id, Collection: x.coll, Vector: x.vec, Content: x.content, Metadata: x.meta}), "Upsert")
		items[x.id] = x
	}
	c.Op("similarity %s", name)
	return e, name, items
}

func opts(c *h.C) core.SearchOptions {
	o := core.SearchOptions{TopK: rapid.IntRange(1, 6).Draw(c.T, "topk")}
	if rapid.IntRange(0, 2).Draw(c.T, "in collection") == 0 {
		o.Collection = rapid.SampledFrom([]string{"Default", "default"}).Draw(c.T, "collection")
	}
	if rapid.IntRange(0, 2).Draw(c.T, "filtered") == 0 {
		o.Filter = map[string]string{"k": rapid.SampledFrom([]string{"a", "b"}).Draw(c.T, "filter")}
	}
	return o
}

func selected(items map[string]item, o core.SearchOptions) []item {
	var out []item
	for _, x := range items {
		if (o.Collection == "" || o.Collection == x.coll) && (o.Filter == nil || o.Filter["k"] == x.meta["k"]) {
			out = append(out, x)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func faithful(c *h.C, items map[string]item, got []core.ScoredEmbedding, o core.SearchOptions) {
	seen := map[string]bool{}
	for _, r := range got {
		x, ok := items[r.ID]
		if !ok || seen[r.ID] || x.content != r.Content || !h.SameVec(x.vec, r.Vector) || !h.SameMap(x.meta, r.Metadata) ||
			o.Collection != "" && x.coll != o.Collection || o.Filter != nil && o.Filter["k"] != x.meta["k"] {
			c.Fatalf("%q is not what was asked for, comes twice or differs from what is stored: %+v", r.ID, r)
		}
		seen[r.ID] = true
	}
}

func TestSearchWithReranker(t *testing.T) {
	h.Check(t, h.Opt{Quick: 150, Thorough: 5000}, func(c *h.C) {
		e, name, items := fill(c, 14)
		q := h.NZVec(c.T, 3, "query")
		text := phrase(c.T, "text")
		ro := core.RerankOptions{TopK: rapid.IntRange(1, 6).Draw(c.T, "topk"), PreserveOriginalScore: rapid.Bool().Draw(c.T, "preserve")}
		if rapid.Bool().Draw(c.T, "with threshold") {
			ro.Threshold = float64(rapid.IntRange(1, 6).Draw(c.T, "threshold"))
		}
		mode := rapid.SampledFrom([]string{"length", "none", "error"}).Draw(c.T, "reranker")
		c.Op("search %s %q reranker %s %+v", h.VS(q), text, mode, ro)
		sim := map[string]float64{}
		for id, x := range items {
			sim[id] = sims[name](q, x.vec)
		}
		if mode == "none" {
			ro.Threshold = 0
			got, err := e.S.SearchWithReranker(bg, q, text, nil, ro)
			c.Must(err, "SearchWithReranker")
			checkTop(c, got, sim, ro.TopK)
			return
		}
		val := func(id string) float64 { return float64(len(items[id].content)) + float64(id[len(id)-1]-'0')/64 }
		boom := errors.New("boom")
		rr := core.RerankerFunc(func(_ context.Context, qt string, in []core.ScoredEmbedding) ([]core.ScoredEmbedding, error) {
			if qt != text {
				c.Fatalf("the reranker gets the text %q, want %q", qt, text)
			}
			checkTop(c, in, sim, 0)
			if mode == "error" {
				return nil, boom
			}
			out := copyOf(in)
			for i := range out {
				out[i].Score = val(out[i].ID)
			}
			sort.SliceStable(out, func(i, j int) bool { return out[i].Score > out[j].Score })
			return out, nil
		})
		got, err := e.S.SearchWithReranker(bg, q, text, rr, ro)
		if mode == "error" && len(items) > 0 {
			if !errors.Is(err, boom) {
				c.Fatalf("a failing reranker gives %v, %v", got, err)
			}
			return
		}
		c.Must(err, "SearchWithReranker")
		faithful(c, items, got, core.SearchOptions{})
		want := map[string]float64{}
		for id := range items {
			if v := val(id); v >= ro.Threshold {
				want[id] = v
			}
		}
		var ids []string
		var scores []float64
		for _, r := range got {
			ids, scores = append(ids, r.ID), append(scores, val(r.ID))
			if w := sim[r.ID]; ro.PreserveOriginalScore && !h.Near(r.Score, w, 1e-4*math.Max(1, math.Abs(w))) {
				c.Fatalf("%s has score %v, want the original %v", r.ID, r.Score, w)
			}
			if !ro.PreserveOriginalScore && r.Score != val(r.ID) {
				c.Fatalf("%s has score %v, want that of the reranker, %v", r.ID, r.Score, val(r.ID))
			}
		}
		if msg := h.CheckTopK(ids, scores, want, ro.TopK, 1e-9); msg != "" {
			c.Fatalf("%s", msg)
		}
		if len(got) < len(items) && len(got) > 0 {
			c.NonTrivial()
		}
	})
}

func checkTop(c *h.C, got []core.ScoredEmbedding, want map[string]float64, k int) {
	var ids []string
	var scores []float64
	for _, r := range got {
		ids, scores = append(ids, r.ID), append(scores, r.Score)
	}
	if msg := h.CheckTopK(ids, scores, want, k, 1e-3); msg != "" {
		c.Fatalf("%s", msg)
	}
}

func TestDiversity(t *testing.T) {
	h.Check(t, h.Opt{Quick: 250, Thorough: 8000}, func(c *h.C) {
		e, name, items := fill(c, 14)
		sim := sims[name]
		q := h.NZVec(c.T, 3, "query")
		do := core.DiversitySearchOptions{SearchOptions: opts(c), Method: rapid.SampledFrom([]core.DiversityMethod{core.DiversityMMR, core.DiversityDistance, core.DiversityRandom, core.DiversityDPP, ""}).Draw(c.T, "method")}
		do.Lambda = rapid.SampledFrom([]float32{0, 0.3, 0.7, 1}).Draw(c.T, "lambda")
		do.MinDistance = rapid.SampledFrom([]float32{0, 0.05, 0.5, 1.2}).Draw(c.T, "min distance")
		c.Op("diverse %s %s lambda=%v min=%v %+v", do.Method, h.VS(q), do.Lambda, do.MinDistance, do.SearchOptions)
		got, err := e.S.SearchWithDiversity(bg, q, do)
		c.Must(err, "SearchWithDiversity")
		faithful(c, items, got, do.SearchOptions)
		k := do.TopK
		if len(got) > k {
			c.Fatalf("%d results for %d", len(got), k)
		}
		pool := selected(items, do.SearchOptions)
		score := map[string]float64{}
		for _, x := range pool {
			score[x.id] = sim(q, x.vec)
		}
		for _, r := range got {
			if w := score[r.ID]; !h.Near(r.Score, w, 1e-4*math.Max(1, math.Abs(w))) {
				c.Fatalf("%s has score %v, want %v", r.ID, r.Score, w)
			}
			// only the 3k nearest are candidates
			better := 0
			for _, s := range score {
				if s > score[r.ID]+1e-4*math.Max(1, math.Abs(s)) {
					better++
				}
			}
			if better >= 3*k {
				c.Fatalf("%s is not among the %d nearest", r.ID, 3*k)
			}
		}
		want := k
		if len(pool) < want {
			want = len(pool)
		}
		if len(got) > 0 && do.Method != core.DiversityRandom {
			for _, s := range score {
				if len(pool) > k || do.Method != core.DiversityDPP {
					if s > got[0].Score+1e-4*math.Max(1, math.Abs(s)) {
						c.Fatalf("the first result has score %v, the best %v", got[0].Score, s)
					}
				}
			}
		}
		switch do.Method {
		case core.DiversityMMR, "":
			if len(got) != want {
				c.Fatalf("%d results, want %d", len(got), want)
			}
			// with every record a candidate the picks are the greedy ones
			if len(pool) <= 3*k && len(got) > 0 {
				lambda := float64(do.Lambda)
				if lambda == 0 {
					lambda = 0.5
				}
				greedyAll(c, got, pool, sim, lambda, score)
			}
		case core.DiversityDistance:
			min := float64(do.MinDistance)
			if min == 0 {
				min = 0.1
			}
			for i, a := range got {
				for _, b := range got[:i] {
					if d := 1 - sim(a.Vector, b.Vector); d < min-1e-4*math.Max(1, math.Abs(d)) {
						c.Fatalf("%s and %s are %v apart, less than %v", a.ID, b.ID, d, min)
					}
				}
				if i > 0 && got[i-1].Score < a.Score {
					c.Fatalf("not in order of score: %s", show(got))
				}
			}
			// what is left out is too close to something better, or there was no room
			if len(got) < k && len(pool) <= 3*k {
				for _, x := range pool {
					near := false
					for _, r := range got {
						near = near || r.ID == x.id || 1-sim(x.vec, r.Vector) < min+1e-4*math.Max(1, math.Abs(sim(x.vec, r.Vector)))
					}
					if !near {
						c.Fatalf("%s is left out without reason", x.id)
					}
				}
			}
		case core.DiversityRandom:
			if len(got) != want {
				c.Fatalf("%d results, want %d", len(got), want)
			}
			for i := range got {
				if i > 0 && got[i-1].Score < got[i].Score {
					c.Fatalf("not in order of score: %s", show(got))
				}
			}
		case core.DiversityDPP:
			if len(pool) <= k && len(got) != len(pool) {
				c.Fatalf("%d results, want %d", len(got), len(pool))
			}
		}
		if len(pool) > k {
			c.NonTrivial()
			c.Class(string(do.Method))
		}
	})
}

func greedyAll(c *h.C, got []core.ScoredEmbedding, pool []item, sim core.SimilarityFunc, lambda float64, score map[string]float64) {
	for k := 1; k < len(got); k++ {
		val := func(id string, v []float32) float64 {
			worst := 0.0
			for _, s := range got[:k] {
				worst = math.Max(worst, sim(v, s.Vector))
			}
			return lambda*score[id] - (1-lambda)*worst
		}
		v := val(got[k].ID, got[k].Vector)
		for _, x := range pool {
			taken := false
			for _, s := range got[:k] {
				taken = taken || s.ID == x.id
			}
			if w := val(x.id, x.vec); !taken && w > v+1e-4*math.Max(1, math.Abs(w)) {
				c.Fatalf("pick %d is %s with value %v; %s has %v", k+1, got[k].ID, v, x.id, w)
			}
		}
	}
}

// ---- by example

func near(vs [][]float32, x []float32, sim core.SimilarityFunc) float64 {
	if len(vs) == 0 {
		return 0
	}
	best := math.Inf(-1)
	for _, v := range vs {
		best = math.Max(best, sim(v, x))
	}
	return best
}

func checkScale(c *h.C, got []core.ScoredEmbedding, want map[string]float64, k int) {
	scale := 1.0
	for _, w := range want {
		scale = math.Max(scale, math.Abs(w))
	}
	var ids []string
	var scores []float64
	for _, r := range got {
		ids, scores = append(ids, r.ID), append(scores, r.Score/scale)
	}
	norm := map[string]float64{}
	for id, w := range want {
		norm[id] = w / scale
	}
	if msg := h.CheckTopK(ids, scores, norm, k, 1e-4); msg != "" {
		c.Fatalf("%s", msg)
	}
}

func TestByExample(t *testing.T) {
	h.Check(t, h.Opt{Quick: 250, Thorough: 8000}, func(c *h.C) {
		e, name, items := fill(c, 14)
		sim := sims[name]
		o := opts(c)
		if rapid.IntRange(0, 4).Draw(c.T, "no limit") == 0 {
			o.TopK = 0
		}
		pool := selected(items, o)
		want := map[string]float64{}
		var got []core.ScoredEmbedding
		var err error
		kind := rapid.SampledFrom([]string{"negatives", "recommend", "anomalies"}).Draw(c.T, "kind")
		c.Class(kind)
		switch kind {
		case "negatives":
			no := core.NegativeSearchOptions{SearchOptions: o, NegativeWeight: rapid.SampledFrom([]float32{0, 0.25, 1, 2}).Draw(c.T, "weight")}
			for i := rapid.IntRange(0, 3).Draw(c.T, "positives"); i > 0; i-- {
				no.PositiveVectors = append(no.PositiveVectors, h.NZVec(c.T, 3, "positive"))
			}
			for i := rapid.IntRange(0, 3).Draw(c.T, "negatives"); i > 0; i-- {
				no.NegativeVectors = append(no.NegativeVectors, h.NZVec(c.T, 3, "negative"))
			}
			c.Op("like %v not %v times %v, %+v", no.PositiveVectors, no.NegativeVectors, no.NegativeWeight, o)
			w := float64(no.NegativeWeight)
			if w == 0 {
				w = 0.5
			}
			for _, x := range pool {
				want[x.id] = near(no.PositiveVectors, x.vec, sim) - w*near(no.NegativeVectors, x.vec, sim)
			}
			got, err = e.S.SearchWithNegatives(bg, no)
		case "recommend":
			ids := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string { return fmt.Sprintf("v%d", rapid.IntRange(0, 15).Draw(t, "id")) }), 0, 3)
			pos, neg := ids.Draw(c.T, "positives"), ids.Draw(c.T, "negatives")
			c.Op("recommend like %v not %v, %+v", pos, neg, o)
			vecs := func(ids []string) (out [][]float32) {
				for _, id := range ids {
					if x, ok := items[id]; ok {
						out = append(out, x.vec)
					}
				}
				return
			}
			for _, x := range pool {
				want[x.id] = near(vecs(pos), x.vec, sim) - 0.5*near(vecs(neg), x.vec, sim)
			}
			got, err = e.S.RecommendSimilar(bg, pos, neg, o)
		case "anomalies":
			c.Op("anomalies %+v", o)
			for _, x := range pool {
				var d []float64
				for _, y := range pool {
					if x.id != y.id {
						d = append(d, 1-sim(x.vec, y.vec))
					}
				}
				sort.Float64s(d)
				if len(d) > 5 {
					d = d[:5]
				}
				for _, v := range d {
					want[x.id] += v / float64(len(d))
				}
				if len(d) == 0 {
					want[x.id] = 0
				}
			}
			got, err = e.S.FindAnomalies(bg, o)
		}
		c.Must(err, "search by example")
		faithful(c, items, got, o)
		checkScale(c, got, want, o.TopK)
		if o.TopK > 0 && len(pool) > o.TopK {
			c.NonTrivial()
		}
	})
}
