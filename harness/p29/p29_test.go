package p29

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"reflect"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	sr "github.com/liliang-cn/cortexdb/v2/pkg/semantic-router"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"github.com/liliang-cn/cortexdb/v2/verifharness/mdl"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

const dim = 3

var (
	bg    = context.Background()
	sims  = map[string]core.SimilarityFunc{"cosine": core.CosineSimilarity, "dot": core.DotProduct, "euclid": core.EuclideanDist}
	names = []string{"a", "ab", "a/0", "a:1", "it's", "日本"}
	texts = []string{"a", "ab", "t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7", "T0", "t0 "}
	boom  = errors.New("boom")
)

// embedder maps each text to a fixed vector and fails on demand.
type embedder struct {
	mu        sync.Mutex
	vecs      map[string][]float32
	failText  map[string]bool // texts that cannot be embedded
	failBatch bool            // only the batch call fails
	calls     map[string]int
}

func newEmbedder(t *rapid.T) *embedder {
	e := &embedder{vecs: map[string][]float32{}, failText: map[string]bool{}, calls: map[string]int{}}
	for _, x := range texts {
		e.vecs[x] = h.NZVec(t, dim, "vector of "+x)
	}
	return e
}

func (e *embedder) Embed(_ context.Context, text string) ([]float32, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.failText[text] {
		return nil, boom
	}
	e.calls[text]++
	return append([]float32{}, e.vecs[text]...), nil
}

func (e *embedder) EmbedBatch(ctx context.Context, texts []string) ([][]float32, error) {
	if e.failBatch {
		return nil, boom
	}
	out := make([][]float32, len(texts))
	for i, x := range texts {
		v, err := e.Embed(ctx, x)
		if err != nil {
			return nil, err
		}
		out[i] = v
	}
	return out, nil
}

func (e *embedder) Dimensions() int { return dim }

func (e *embedder) ok() bool { return len(e.failText) == 0 }

type route struct {
	name string
	utts []string
	meta map[string]string
	mark string // what the handler answers; "" without one
}

func drawRoute(t *rapid.T) route {
	least, most := 1, 4
	if rapid.IntRange(0, 7).Draw(t, "long") == 0 {
		least, most = 10, 14
	}
	r := route{name: rapid.SampledFrom(names).Draw(t, "name"), utts: rapid.SliceOfN(rapid.SampledFrom(texts), least, most).Draw(t, "utterances")}
	if rapid.Bool().Draw(t, "metadata") {
		r.meta = map[string]string{rapid.SampledFrom([]string{"k", "route_name", "it's"}).Draw(t, "key"): rapid.SampledFrom([]string{"v", "日本", "\"q\""}).Draw(t, "value")}
	}
	if rapid.Bool().Draw(t, "handler") {
		r.mark = fmt.Sprintf("%s-%d", r.name, rapid.IntRange(0, 99).Draw(t, "mark"))
	}
	return r
}

func (r route) make() *sr.Route {
	x := &sr.Route{Name: r.name, Utterances: append([]string{}, r.utts...)}
	if r.meta != nil {
		x.Metadata = map[string]string{}
		for k, v := range r.meta {
			x.Metadata[k] = v
		}
	}
	if r.mark != "" {
		m := r.mark
		x.Handler = func(context.Context, string, float64) (string, error) { return m, nil }
	}
	return x
}

func answer(c *h.C, f sr.RouteHandler) string {
	if f == nil {
		return ""
	}
	s, err := f(bg, "q", 1)
	c.Must(err, "handler")
	return s
}

// bestOf gives each route's score and the best one.
func bestOf(routes map[string]route, score func(u string) float64) (map[string]float64, float64) {
	per, best := map[string]float64{}, math.Inf(-1)
	for n, r := range routes {
		per[n] = math.Inf(-1)
		for _, u := range r.utts {
			per[n] = math.Max(per[n], score(u))
		}
		best = math.Max(best, per[n])
	}
	return per, best
}

func tol(x float64) float64 { return 1e-4 * math.Max(1, math.Abs(x)) }

// judge checks a routing decision against the scores of the routes.
func judge(c *h.C, res *sr.RouteResult, routes map[string]route, per map[string]float64, best, threshold float64) {
	if len(routes) == 0 {
		if res.Matched || res.RouteName != "" || res.Handler != nil {
			c.Fatalf("without routes: %+v", res)
		}
		return
	}
	if !h.Near(res.Score, best, tol(best)) {
		c.Fatalf("score %v, want %v (%v)", res.Score, best, per)
	}
	r, ok := routes[res.RouteName]
	if !ok || per[r.name] < best-tol(best) {
		c.Fatalf("routed to %q with scores %v", res.RouteName, per)
	}
	if res.Matched != (res.Score >= threshold) { // a score equal to the threshold matches
		c.Fatalf("matched %v with score %v, threshold %v", res.Matched, res.Score, threshold)
	}
	if got := answer(c, res.Handler); got != r.mark {
		c.Fatalf("the handler of %q answers %q, want %q", r.name, got, r.mark)
	}
}

func TestRouter(t *testing.T) {
	h.Check(t, h.Opt{Quick: 80, Thorough: 3000, Steps: 16}, func(c *h.C) {
		em := newEmbedder(c.T)
		simName := rapid.SampledFrom([]string{"cosine", "dot", "euclid"}).Draw(c.T, "similarity")
		sim := sims[simName]
		threshold := rapid.SampledFrom([]float64{0.82, 0, 0.3, -2, 1}).Draw(c.T, "threshold")
		cache := rapid.Bool().Draw(c.T, "cache")
		persistent := rapid.Bool().Draw(c.T, "persistent")
		c.Op("similarity %s threshold %v cache %v persistent %v vectors %v", simName, threshold, cache, persistent, em.vecs)
		opts := []sr.ConfigOption{sr.WithThreshold(threshold), sr.WithSimilarityFunc(sim), sr.WithCacheEmbeddings(cache)}
		var e *mdl.Env
		if persistent {
			hnsw := rapid.Bool().Draw(c.T, "hnsw")
			e = mdl.NewEnv(c, dim, func(cfg *core.Config) { cfg.HNSW.Enabled = hnsw })
			c.Must(e.S.Upsert(bg, &core.Embedding{ID: "", Vector: []float32{1, 2, 3}, Content: "other", Metadata: map[string]string{"route_name": "a"}}), "Upsert")
		}
		var r *sr.Router
		start := func() {
			var err error
			if persistent {
				r, err = sr.NewRouterWithStore(e.S, em, opts...)
			} else {
				r, err = sr.NewRouter(em, opts...)
			}
			c.Must(err, "NewRouter")
		}
		start()
		routes := map[string]route{}
		puts, removed, restarted, failed := 0, false, false, false
		fits := func(x route) bool {
			for _, u := range x.utts {
				if em.failText[u] {
					return false
				}
			}
			return true
		}
		c.T.Repeat(map[string]func(*rapid.T){
			"add": func(t *rapid.T) {
				if puts > 5 {
					t.Skip("index no longer exhaustive")
				}
				x := drawRoute(t)
				in := x.make()
				switch rapid.IntRange(0, 9).Draw(t, "damage") {
				case 0:
					in.Name = ""
				case 1:
					in.Utterances = nil
				case 2:
					in = nil
				}
				bad := in == nil || in.Name == "" || len(in.Utterances) == 0
				_, dup := routes[x.name]
				c.Op("add %+v bad=%v", x, bad)
				err := r.Add(in)
				switch {
				case bad || dup:
					if err == nil {
						c.Fatalf("accepted, duplicate %v", dup)
					}
				case persistent && !fits(x):
					if err == nil {
						c.Fatalf("a route is accepted whose utterances cannot be embedded and stored")
					}
					failed = true
				default:
					c.Must(err, "Add")
					routes[x.name] = x
					puts++
				}
			},
			"add batch": func(t *rapid.T) {
				if puts > 5 {
					t.Skip("index no longer exhaustive")
				}
				xs := rapid.SliceOfN(rapid.Custom(drawRoute), 0, 3).Draw(t, "routes")
				var in []*sr.Route
				bad, fit := false, true
				seen := map[string]bool{}
				for _, x := range xs {
					_, dup := routes[x.name]
					bad = bad || dup || seen[x.name]
					fit = fit && fits(x)
					seen[x.name] = true
					in = append(in, x.make())
				}
				if rapid.IntRange(0, 5).Draw(t, "damage") == 0 {
					bad = true
					in = append(in, rapid.SampledFrom([]*sr.Route{nil, {Utterances: []string{"t0"}}, {Name: "x"}}).Draw(t, "bad route"))
				}
				c.Op("add batch %+v bad=%v", xs, bad)
				err := r.AddBatch(in)
				switch {
				case bad:
					if err == nil {
						c.Fatalf("accepted")
					}
				case persistent && !fit:
					if err == nil {
						c.Fatalf("routes are accepted whose utterances cannot be embedded and stored")
					}
					failed = true
				default:
					c.Must(err, "AddBatch")
					for _, x := range xs {
						routes[x.name] = x
						puts++
					}
				}
			},
			"remove": func(t *rapid.T) {
				n := rapid.SampledFrom(names).Draw(t, "name")
				c.Op("remove %q", n)
				_, ok := routes[n]
				if err := r.Remove(n); (err == nil) != ok {
					c.Fatalf("Remove: %v, exists %v", err, ok)
				}
				if ok {
					removed = true
				}
				delete(routes, n)
			},
			"restart": func(t *rapid.T) {
				if !persistent {
					t.Skip("in memory")
				}
				if rapid.Bool().Draw(t, "reopen the store") {
					e.Reopen()
				} else {
					c.Op("new router")
				}
				start()
				for n, x := range routes {
					x.mark = "" // handlers are functions and cannot be stored
					routes[n] = x
				}
				restarted = true
			},
			"embedder": func(t *rapid.T) {
				em.failBatch = rapid.IntRange(0, 2).Draw(t, "batch fails") == 0
				em.failText = map[string]bool{}
				if rapid.IntRange(0, 2).Draw(t, "text fails") == 0 {
					em.failText[rapid.SampledFrom(texts).Draw(t, "failing text")] = true
				}
				c.Op("embedder: batch fails %v, failing %v", em.failBatch, em.failText)
			},
			"route": func(t *rapid.T) {
				q := rapid.SampledFrom(texts).Draw(t, "query")
				c.Op("route %q", q)
				res, err := r.Route(bg, q)
				if em.failText[q] {
					if err == nil {
						c.Fatalf("a query that cannot be embedded is routed: %+v", res)
					}
					return
				}
				if !em.ok() { // what happens to utterances that cannot be embedded just now is open
					return
				}
				c.Must(err, "Route")
				per, best := bestOf(routes, func(u string) float64 { return sim(em.vecs[q], em.vecs[u]) })
				judge(c, res, routes, per, best, threshold)
				if len(routes) > 1 && (removed || restarted || failed) {
					c.NonTrivial()
				}
			},
			"route batch": func(t *rapid.T) {
				if !em.ok() {
					t.Skip("embedder fails")
				}
				qs := rapid.SliceOfN(rapid.SampledFrom(append([]string{""}, texts...)), 0, 3).Draw(t, "queries")
				c.Op("route batch %q", qs)
				all, err := r.RouteBatch(bg, qs)
				c.Must(err, "RouteBatch")
				if len(all) != len(qs) {
					c.Fatalf("%d results of %d queries", len(all), len(qs))
				}
				for i, q := range qs {
					if q == "" {
						if all[i].Matched || all[i].RouteName != "" {
							c.Fatalf("an empty query is routed to %+v", all[i])
						}
						continue
					}
					per, best := bestOf(routes, func(u string) float64 { return sim(em.vecs[q], em.vecs[u]) })
					judge(c, all[i], routes, per, best, threshold)
				}
			},
			"": func(t *rapid.T) {
				var want []string
				total := 0
				for n, x := range routes {
					want = append(want, n)
					total += len(x.utts)
					got := r.Get(n)
					if got == nil || got.Name != n || !h.SameMap(got.Metadata, x.meta) && len(got.Metadata)+len(x.meta) > 0 || !slices.Equal(got.Utterances, x.utts) || answer(c, got.Handler) != x.mark {
						c.Fatalf("Get(%q) = %+v, want %+v", n, got, x)
					}
				}
				for _, n := range names {
					if _, ok := routes[n]; !ok && r.Get(n) != nil {
						c.Fatalf("route %q exists", n)
					}
				}
				if got := r.List(); !sameBag(got, want) {
					c.Fatalf("List %q, want %q", got, want)
				}
				st := r.Stats()
				if st["route_count"] != len(routes) || st["total_utterances"] != total {
					c.Fatalf("statistics %v, want %d routes and %d utterances", st, len(routes), total)
				}
				if persistent {
					o, err := e.S.GetByID(bg, "")
					c.Must(err, "GetByID of a record that is no route")
					if o.Content != "other" {
						c.Fatalf("a record that is no route became %+v", o)
					}
				}
			},
		})
	})
}

func sameBag(a, b []string) bool {
	x, y := append([]string{}, a...), append([]string{}, b...)
	sort.Strings(x)
	sort.Strings(y)
	return len(x) == len(y) && (len(x) == 0 || reflect.DeepEqual(x, y))
}

// ---- sparse

var words = []string{"refund", "money", "back", "日本", "order", "the", "x", "Order"}

func sentence(t *rapid.T, label string, min int) string {
	return strings.Join(rapid.SliceOfN(rapid.SampledFrom(words), min, 6).Draw(t, label), " ")
}

// terms are the words that count: lower case, no stop words, longer than one byte.
func terms(s string) []string {
	var out []string
	for _, w := range strings.Fields(strings.ToLower(s)) {
		if w != "the" && len(w) > 1 {
			out = append(out, w)
		}
	}
	return out
}

func freq(s string) map[string]int {
	m := map[string]int{}
	for _, w := range terms(s) {
		m[w]++
	}
	return m
}

func sameWeights(a, b map[string]float64) bool {
	for k, v := range a {
		if v != 0 && !h.Near(v, b[k], 1e-9) {
			return false
		}
	}
	for k, v := range b {
		if v != 0 && !h.Near(v, a[k], 1e-9) {
			return false
		}
	}
	return true
}

func cosine(a, b map[string]float64) float64 {
	var d, x, y float64
	for k, v := range a {
		d += v * b[k]
		x += v * v
	}
	for _, v := range b {
		y += v * v
	}
	if x == 0 || y == 0 {
		return 0
	}
	return d / math.Sqrt(x*y)
}

type fitter interface {
	sr.SparseEncoder
	Fit(ctx context.Context, documents []string) error
}

type encoderKind struct {
	name  string
	k1, b float64
}

func (k encoderKind) make() fitter {
	switch k.name {
	case "bm25":
		return sr.NewBM25Encoder()
	case "bm25 with parameters":
		return sr.NewBM25EncoderWithParams(k.k1, k.b)
	case "tfidf":
		return sr.NewTFIDFEncoder()
	}
	return sr.NewTFIDFEncoderWithSublinearTF()
}

func drawEncoder(t *rapid.T) encoderKind {
	k := encoderKind{name: rapid.SampledFrom([]string{"bm25", "bm25 with parameters", "tfidf", "tfidf sublinear"}).Draw(t, "encoder"), k1: 1.2, b: 0.75}
	if k.name == "bm25 with parameters" {
		k.k1, k.b = rapid.SampledFrom([]float64{0.5, 2}).Draw(t, "k1"), rapid.SampledFrom([]float64{0, 0.5, 1}).Draw(t, "b")
	}
	return k
}

// weights is the definition; docs is nil before fitting.
func (k encoderKind) weights(docs []string, text string) map[string]float64 {
	df, total := map[string]float64{}, 0.0
	for _, d := range docs {
		for w := range freq(d) {
			df[w]++
		}
		total += float64(len(terms(d)))
	}
	n := float64(len(docs))
	out := map[string]float64{}
	for w, c := range freq(text) {
		tf := float64(c)
		switch k.name {
		case "bm25", "bm25 with parameters":
			idf := 1.0
			if df[w] > 0 {
				idf = math.Log((n-df[w]+0.5)/(df[w]+0.5) + 1)
			}
			ratio := 1.0
			if total > 0 {
				ratio = float64(len(terms(text))) / (total / n)
			}
			out[w] = idf * tf * (k.k1 + 1) / (tf + k.k1*(1-k.b+k.b*ratio))
		default:
			if df[w] == 0 {
				continue
			}
			if k.name == "tfidf sublinear" {
				tf = 1 + math.Log(tf)
			}
			out[w] = tf * math.Log(n/df[w])
		}
	}
	return out
}

func TestSparse(t *testing.T) {
	h.Check(t, h.Opt{Quick: 2000, Thorough: 50000}, func(c *h.C) {
		k := drawEncoder(c.T)
		enc := k.make()
		c.Op("%+v", k)
		var docs []string
		for i := rapid.IntRange(0, 2).Draw(c.T, "fits"); i > 0; i-- {
			n := rapid.IntRange(0, 5).Draw(c.T, "documents")
			docs = nil
			for j := 0; j < n; j++ {
				docs = append(docs, sentence(c.T, "document", 0))
			}
			c.Op("fit %q", docs)
			c.Must(enc.Fit(bg, docs), "Fit")
		}
		vocab := map[string]bool{}
		for _, d := range docs {
			for _, w := range terms(d) {
				vocab[w] = true
			}
		}
		if got := enc.Vocabulary(); len(got) != len(vocab) || enc.Dimensions() != len(vocab) {
			c.Fatalf("vocabulary %q (%d), want that of %q", got, enc.Dimensions(), docs)
		}
		for _, w := range enc.Vocabulary() {
			if !vocab[w] {
				c.Fatalf("%q is not in %q", w, docs)
			}
		}
		a, b := sentence(c.T, "text", 0), sentence(c.T, "other text", 0)
		c.Op("encode %q and %q", a, b)
		va, vb := enc.EncodeSparse(a), enc.EncodeSparse(b)
		if w := k.weights(docs, a); !sameWeights(va, w) {
			c.Fatalf("%q has weights %v, want %v", a, va, w)
		}
		if all := enc.EncodeSparseBatch([]string{a, b}); len(all) != 2 || !sameWeights(all[0], va) || !sameWeights(all[1], vb) {
			c.Fatalf("in a batch the weights are %v, want %v and %v", all, va, vb)
		}
		if got, w := sr.SparseSimilarity(va, vb), cosine(va, vb); !h.Near(got, w, 1e-9) {
			c.Fatalf("similarity %v, want %v", got, w)
		}
		n := rapid.IntRange(0, 4).Draw(c.T, "top")
		top := sr.TopTerms(va, n)
		want := len(va)
		if n > 0 && n < want {
			want = n
		}
		if len(top) != want {
			c.Fatalf("%d top terms of %v, want %d", len(top), va, want)
		}
		in := map[string]bool{}
		for i, x := range top {
			if s, ok := va[x.Term]; !ok || s != x.Score || in[x.Term] || i > 0 && top[i-1].Score < x.Score {
				c.Fatalf("top terms %v of %v", top, va)
			}
			in[x.Term] = true
		}
		for w, s := range va {
			if !in[w] && len(top) > 0 && s > top[len(top)-1].Score {
				c.Fatalf("top terms %v of %v", top, va)
			}
		}
		if len(docs) > 1 && len(va) > 1 {
			c.NonTrivial()
		}

		// routing by words
		threshold := rapid.SampledFrom([]float64{0.3, 0.6, 0, 1}).Draw(c.T, "threshold")
		r, err := sr.NewSparseRouter(enc, sr.WithSparseThreshold(threshold))
		c.Must(err, "NewSparseRouter")
		routes := map[string]route{}
		for i := rapid.IntRange(0, 4).Draw(c.T, "routes"); i > 0; i-- {
			x := drawRoute(c.T)
			x.utts = nil
			for j := rapid.IntRange(1, 3).Draw(c.T, "utterances"); j > 0; j-- {
				x.utts = append(x.utts, sentence(c.T, "utterance", 1))
			}
			c.Op("add %q %q", x.name, x.utts)
			y := x.make()
			err := r.Add(&sr.SparseRoute{Name: y.Name, Utterances: y.Utterances, Handler: y.Handler})
			if _, dup := routes[x.name]; dup {
				if err == nil {
					c.Fatalf("%q is accepted twice", x.name)
				}
				continue
			}
			c.Must(err, "Add")
			routes[x.name] = x
		}
		if len(r.List()) != len(routes) {
			c.Fatalf("List %q of %v", r.List(), routes)
		}
		c.Op("route %q", a)
		res, err := r.Route(bg, a)
		c.Must(err, "Route")
		if a == "" {
			return
		}
		per, best := bestOf(routes, func(u string) float64 { return cosine(k.weights(docs, a), k.weights(docs, u)) })
		if best <= 1e-9 || len(routes) == 0 { // no word in common: no route
			if res.Matched || res.RouteName != "" {
				c.Fatalf("routed to %+v without a common word", res)
			}
			return
		}
		judge(c, res, routes, per, best, threshold)
	})
}

func TestHybrid(t *testing.T) {
	h.Check(t, h.Opt{Quick: 1000, Thorough: 30000}, func(c *h.C) {
		em := newEmbedder(c.T)
		for i := range words { // sentences of words are embedded too
			em.vecs[words[i]] = h.NZVec(c.T, dim, "vector of "+words[i])
		}
		k := drawEncoder(c.T)
		enc := k.make()
		c.Must(enc.Fit(bg, words), "Fit")
		alpha := rapid.SampledFrom([]float64{0, 0.3, 0.7, 1}).Draw(c.T, "alpha")
		th, dth, sth := rapid.SampledFrom([]float64{0.6, 0.2, 1, 0}).Draw(c.T, "threshold"), rapid.SampledFrom([]float64{0.82, 0.3}).Draw(c.T, "dense threshold"), rapid.SampledFrom([]float64{0.3, 0.9}).Draw(c.T, "sparse threshold")
		c.Op("%+v alpha %v thresholds %v %v %v vectors %v", k, alpha, th, dth, sth, em.vecs)
		hy, err := sr.NewHybridRouter(em, enc, sr.WithHybridAlpha(alpha), sr.WithHybridThreshold(th), sr.WithDenseThreshold(dth), sr.WithHybridSparseThreshold(sth))
		c.Must(err, "NewHybridRouter")
		dense, err := sr.NewRouter(em, sr.WithThreshold(dth))
		c.Must(err, "NewRouter")
		sparse, err := sr.NewSparseRouter(enc, sr.WithSparseThreshold(sth))
		c.Must(err, "NewSparseRouter")
		d, s := map[string]route{}, map[string]route{}
		n := 0
		for i := rapid.IntRange(1, 6).Draw(c.T, "adds"); i > 0; i-- {
			x, y := drawRoute(c.T), drawRoute(c.T)
			utt := rapid.SliceOfN(rapid.SampledFrom(words), 1, 3)
			x.utts, y.utts = utt.Draw(c.T, "dense utterances"), utt.Draw(c.T, "sparse utterances")
			y.name = rapid.SampledFrom([]string{x.name, y.name}).Draw(c.T, "sparse name")
			_, dup := d[x.name]
			_, sdup := s[y.name]
			mk := func() *sr.SparseRoute {
				r := y.make()
				return &sr.SparseRoute{Name: r.Name, Utterances: r.Utterances, Handler: r.Handler}
			}
			batch := rapid.Bool().Draw(c.T, "as a batch")
			c.Op("add %+v and %+v batch=%v", x, y, batch)
			if batch {
				err = hy.AddBatch([]*sr.Route{x.make()}, []*sr.SparseRoute{mk()})
			} else {
				err = hy.Add(x.make(), mk())
			}
			if dup || sdup {
				if err == nil {
					c.Fatalf("a duplicate is accepted")
				}
				n++
			} else {
				c.Must(err, "Add")
				d[x.name], s[y.name] = x, y
				c.Must(dense.Add(x.make()), "Add")
				c.Must(sparse.Add(mk()), "Add")
			}
			var want []string
			for m := range d {
				want = append(want, m)
			}
			if got := hy.List(); !sameBag(got, want) {
				c.Fatalf("List %q, want %q", got, want)
			}
		}
		if rapid.Bool().Draw(c.T, "new alpha") {
			alpha = rapid.SampledFrom([]float64{0.1, 0.5}).Draw(c.T, "alpha")
			hy.SetAlpha(alpha)
			c.Op("alpha %v", alpha)
		}
		for i := rapid.IntRange(1, 4).Draw(c.T, "queries"); i > 0; i-- {
			q := rapid.SampledFrom(words).Draw(c.T, "query")
			c.Op("route %q", q)
			all, err := hy.RouteBatch(bg, []string{q})
			c.Must(err, "RouteBatch")
			got := all[0]
			dr, err := dense.Route(bg, q)
			c.Must(err, "Route")
			spr, err := sparse.Route(bg, q)
			c.Must(err, "Route")
			comb := alpha*dr.Score + (1-alpha)*spr.Score
			if !h.Near(got.DenseScore, dr.Score, 1e-9) || !h.Near(got.SparseScore, spr.Score, 1e-9) || !h.Near(got.CombinedScore, comb, 1e-9) || got.Score != got.CombinedScore {
				c.Fatalf("scores %+v, want %v and %v, %v together", got, dr.Score, spr.Score, comb)
			}
			if got.Matched != (got.Score >= th) {
				c.Fatalf("matched %v with %v, threshold %v", got.Matched, comb, th)
			}
			from, by := d, dr
			if !dr.Matched && (spr.Matched || dr.Score <= spr.Score) {
				from, by = s, spr
			}
			if dr.Matched || spr.Matched { // ties between routes are free
				per, best := bestOf(from, func(u string) float64 {
					if by == dr {
						return core.CosineSimilarity(em.vecs[q], em.vecs[u])
					}
					return cosine(enc.EncodeSparse(q), enc.EncodeSparse(u))
				})
				r, ok := from[got.RouteName]
				if !ok || per[got.RouteName] < best-1e-4 || answer(c, got.Handler) != r.mark {
					c.Fatalf("routed to %q, want one of %v", got.RouteName, per)
				}
			}
			if len(d) > 1 {
				c.NonTrivial()
			}
		}
		if n > 0 {
			c.Class("refused an addition")
		}
	})
}

// ---- caching embedder

func TestCached(t *testing.T) {
	h.Check(t, h.Opt{Quick: 500, Thorough: 20000}, func(c *h.C) {
		em := newEmbedder(c.T)
		ce := sr.NewCachedEmbedder(em)
		known := map[string]bool{}
		for i := rapid.IntRange(1, 8).Draw(c.T, "calls"); i > 0; i-- {
			em.failBatch = rapid.IntRange(0, 2).Draw(c.T, "batch fails") == 0
			em.failText = map[string]bool{}
			if rapid.IntRange(0, 3).Draw(c.T, "fails") == 0 {
				em.failText[rapid.SampledFrom(texts).Draw(c.T, "failing text")] = true
			}
			em.calls = map[string]int{}
			qs := rapid.SliceOfN(rapid.SampledFrom(texts), 1, 5).Draw(c.T, "texts")
			single := len(qs) == 1 && rapid.Bool().Draw(c.T, "single")
			if rapid.IntRange(0, 6).Draw(c.T, "clear") == 0 {
				ce.ClearCache()
				known = map[string]bool{}
				if ce.CacheSize() != 0 {
					c.Fatalf("%d entries after clearing", ce.CacheSize())
				}
			}
			c.Op("embed %q single=%v batch fails=%v failing=%v", qs, single, em.failBatch, em.failText)
			bad := false
			for _, q := range qs {
				bad = bad || em.failText[q] && !known[q]
			}
			var got [][]float32
			var err error
			if single {
				var v []float32
				v, err = ce.Embed(bg, qs[0])
				got = [][]float32{v}
			} else {
				got, err = ce.EmbedBatch(bg, qs)
			}
			for q := range em.calls {
				if known[q] && em.calls[q] > 0 {
					c.Fatalf("%q is embedded again though it is cached", q)
				}
			}
			if bad {
				if err == nil {
					c.Fatalf("a failing embedder gives %v", got)
				}
				for q := range em.calls {
					known[q] = known[q] || em.calls[q] > 0 && false
				}
				// what was embedded before the failure may be cached or not
				ce.ClearCache()
				known = map[string]bool{}
				continue
			}
			c.Must(err, "Embed")
			if len(got) != len(qs) {
				c.Fatalf("%d vectors of %d texts", len(got), len(qs))
			}
			for i, q := range qs {
				if !h.SameVec(got[i], em.vecs[q]) {
					c.Fatalf("%q is embedded as %v, want %v", q, got[i], em.vecs[q])
				}
				if len(known) > 0 && !known[q] {
					c.NonTrivial()
				}
				known[q] = true
			}
			if ce.CacheSize() != len(known) {
				c.Fatalf("%d entries cached, want %d", ce.CacheSize(), len(known))
			}
		}
	})
}

// One router used by several goroutines at once, with a caching embedder.
func TestConcurrent(t *testing.T) {
	h.Check(t, h.Opt{Quick: 500, Thorough: 20000}, func(c *h.C) {
		em := newEmbedder(c.T)
		var emb sr.Embedder = em
		if rapid.Bool().Draw(c.T, "cached") {
			emb = sr.NewCachedEmbedder(em)
		}
		fixed := map[string]route{}
		r, err := sr.NewHybridRouter(emb, sr.NewBM25Encoder(), sr.WithDenseThreshold(-1), sr.WithHybridThreshold(-1))
		c.Must(err, "NewHybridRouter")
		for i, n := range names[:3] {
			x := route{name: n, utts: []string{texts[i]}}
			fixed[n] = x
			c.Must(r.Add(x.make(), nil), "Add")
		}
		workers := rapid.IntRange(2, 5).Draw(c.T, "workers")
		plans := make([][]string, workers)
		for i := range plans {
			plans[i] = rapid.SliceOfN(rapid.SampledFrom(texts), 5, 20).Draw(c.T, "queries")
		}
		c.Op("%d workers %q", workers, plans)
		var wg sync.WaitGroup
		bad := make([]string, workers)
		for i := range plans {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j, q := range plans[i] {
					if j%5 == 4 {
						x := &sr.Route{Name: fmt.Sprintf("w%d-%d", i, j), Utterances: []string{texts[i]}}
						if err := r.Add(x, &sr.SparseRoute{Name: x.Name, Utterances: x.Utterances}); err != nil {
							bad[i] = err.Error()
						}
						r.SetAlpha(float64(j%3) / 2)
						_ = r.Stats()
						continue
					}
					res, err := r.Route(bg, q)
					if err != nil {
						bad[i] = err.Error()
						continue
					}
					_, best := bestOf(fixed, func(u string) float64 { return core.CosineSimilarity(em.vecs[q], em.vecs[u]) })
					if res.DenseScore < best-1e-4 {
						bad[i] = fmt.Sprintf("%q is routed with score %v, want %v or more", q, res.DenseScore, best)
					}
				}
			}()
		}
		wg.Wait()
		for _, b := range bad {
			if b != "" {
				c.Fatalf("%s", b)
			}
		}
		c.NonTrivial()
	})
}
