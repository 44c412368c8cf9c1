package p35

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

const dim = 3

var (
	bg   = context.Background()
	ws   = []string{"red", "fox", "jumps", "over", "lazy", "q"}
	sims = map[string]core.SimilarityFunc{"cosine": core.CosineSimilarity, "dot": core.DotProduct, "euclid": core.EuclideanDist}
)

// embedder gives every text its own vector.
type embedder struct {
	fail  error // of every call
	short bool  // a batch gives one vector too few
}

func of(text string) []float32 {
	v := make([]float32, dim)
	x := uint32(2166136261)
	for i := 0; i < len(text); i++ {
		x = (x ^ uint32(text[i])) * 16777619
	}
	for i := range v {
		x = (x ^ uint32(i+1)) * 16777619
		v[i] = float32(int(x>>8)%2001-1000)/1000 + 0.0005
	}
	return v
}

func (e *embedder) Embed(_ context.Context, text string) ([]float32, error) {
	if e.fail != nil {
		return nil, e.fail
	}
	return of(text), nil
}

func (e *embedder) EmbedBatch(_ context.Context, texts []string) ([][]float32, error) {
	if e.fail != nil {
		return nil, e.fail
	}
	var out [][]float32
	for _, t := range texts {
		out = append(out, of(t))
	}
	if e.short {
		out = out[:len(out)-1]
	}
	return out, nil
}

func (e *embedder) Dim() int { return dim }

type rec struct {
	coll, text string
	vec        []float32
	meta       map[string]string
}

func text(t *rapid.T) string {
	return strings.Join(rapid.SliceOfN(rapid.SampledFrom(ws), 1, 4).Draw(t, "text"), rapid.SampledFrom([]string{" ", ", "}).Draw(t, "separator"))
}

func meta(t *rapid.T) map[string]string {
	if rapid.Bool().Draw(t, "metadata") {
		return map[string]string{"k": rapid.SampledFrom([]string{"v", "日本", "it's"}).Draw(t, "value")}
	}
	return nil
}

func TestFacade(t *testing.T) {
	h.Check(t, h.Opt{Quick: 250, Thorough: 20000, Steps: 18}, func(c *h.C) {
		simName := rapid.SampledFrom([]string{"cosine", "dot", "euclid"}).Draw(c.T, "similarity")
		sim := sims[simName]
		cfg := cortexdb.DefaultConfig(filepath.Join(c.Dir(), "t.db"))
		cfg.Dimensions = rapid.SampledFrom([]int{0, dim}).Draw(c.T, "dimensions")
		cfg.SimilarityFn = sim
		cfg.IndexType = rapid.SampledFrom([]core.IndexType{core.IndexTypeHNSW, core.IndexTypeIVF, core.IndexTypeFlat}).Draw(c.T, "index")
		c.Op("similarity %s index %v dimensions %d", simName, cfg.IndexType, cfg.Dimensions)
		em := &embedder{}
		with := true
		var db *cortexdb.DB
		open := func() {
			var err error
			if with {
				db, err = cortexdb.Open(cfg, cortexdb.WithEmbedder(em))
			} else {
				db, err = cortexdb.Open(cfg)
			}
			c.Must(err, "Open")
		}
		open()
		c.Defer(func() { _ = db.Close() })
		_, err := db.Vector().CreateCollection(bg, "Default", dim)
		c.Must(err, "CreateCollection")
		recs := map[string]rec{}
		puts, replaced, reopened, refused := 0, false, false, false
		put := func(id string, r rec) {
			if _, ok := recs[id]; ok {
				replaced = true
			}
			recs[id] = r
			puts++
		}
		// textOp judges the error of an operation that needs the embedder; true if it should have worked.
		textOp := func(err error, empty bool) bool {
			switch {
			case !with:
				if !errors.Is(err, cortexdb.ErrEmbedderNotConfigured) {
					c.Fatalf("without an embedder: %v", err)
				}
			case empty:
				if !errors.Is(err, cortexdb.ErrEmptyText) {
					c.Fatalf("with an empty text: %v", err)
				}
			case em.fail != nil:
				if !errors.Is(err, cortexdb.ErrEmbeddingFailed) {
					c.Fatalf("with a failing embedder: %v", err)
				}
			default:
				c.Must(err, "text operation")
				return true
			}
			refused = true
			return false
		}
		room := func(t *rapid.T) {
			if puts > 24 {
				t.Skip("index no longer exhaustive")
			}
		}
		fresh := func(id string) {
			if _, ok := recs[id]; ok || id == "" {
				c.Fatalf("the new record got the id %q", id)
			}
		}
		judge := func(res []core.ScoredEmbedding, coll string, q []float32, k int) {
			want := map[string]float64{}
			for id, r := range recs {
				if coll == "" || r.coll == coll {
					want[id] = sim(q, r.vec)
				}
			}
			var ids []string
			var scores []float64
			for _, x := range res {
				ids, scores = append(ids, x.ID), append(scores, x.Score)
				r := recs[x.ID]
				if x.Content != r.text || !h.SameMap(x.Metadata, r.meta) && len(x.Metadata)+len(r.meta) > 0 || x.Collection != r.coll {
					c.Fatalf("result %+v, stored is %+v", x, r)
				}
			}
			if k <= 0 {
				k = 10
			}
			if m := h.CheckTopK(ids, scores, want, k, 1e-4); m != "" {
				c.Fatalf("%s", m)
			}
			if len(want) > 2 && (replaced || reopened || refused) {
				c.NonTrivial()
			}
		}
		coll := rapid.SampledFrom([]string{"", "Default", "default"})
		in := func(n string) string {
			if n == "" {
				return "default"
			}
			return n
		}
		c.T.Repeat(map[string]func(*rapid.T){
			"insert text": func(t *rapid.T) {
				room(t)
				id, x, m := fmt.Sprint("i", rapid.IntRange(0, 5).Draw(t, "id")), text(t), meta(t)
				if rapid.IntRange(0, 5).Draw(t, "empty") == 0 {
					x = ""
				}
				c.Op("insert text %q %q %v", id, x, m)
				if textOp(db.InsertText(bg, id, x, m), x == "") {
					put(id, rec{"default", x, of(x), m})
				}
			},
			"insert batch": func(t *rapid.T) {
				room(t)
				xs := map[string]string{}
				some := false
				for i := rapid.IntRange(0, 4).Draw(t, "texts"); i > 0; i-- {
					x := text(t)
					if rapid.IntRange(0, 4).Draw(t, "empty") == 0 {
						x = ""
					}
					xs[fmt.Sprint("i", rapid.IntRange(0, 5).Draw(t, "id"))] = x
				}
				for _, x := range xs {
					some = some || x != ""
				}
				m := meta(t)
				em.short = some && rapid.IntRange(0, 5).Draw(t, "short") == 0
				c.Op("insert texts %q %v short=%v", xs, m, em.short)
				err := db.InsertTextBatch(bg, xs, m)
				short := em.short
				em.short = false
				if short && with && em.fail == nil {
					if err == nil {
						c.Fatalf("accepted with a vector missing")
					}
					refused = true
					return
				}
				if !some && with { // nothing to do
					c.Must(err, "InsertTextBatch")
					return
				}
				if textOp(err, false) {
					for id, x := range xs {
						if x != "" {
							put(id, rec{"default", x, of(x), m})
						}
					}
				}
			},
			"quick": func(t *rapid.T) {
				room(t)
				n, x := coll.Draw(t, "collection"), text(t)
				if rapid.IntRange(0, 6).Draw(t, "unknown") == 0 {
					n = "nowhere"
				}
				v := h.NZVec(t, dim, "vector")
				c.Op("quick add %q %v %q", n, v, x)
				var id string
				var err error
				if n == "" {
					id, err = db.Quick().Add(bg, v, x)
				} else {
					id, err = db.Quick().AddToCollection(bg, n, v, x)
				}
				if n == "nowhere" {
					if err == nil {
						c.Fatalf("accepted")
					}
					refused = true
					return
				}
				c.Must(err, "Add")
				fresh(id)
				put(id, rec{in(n), x, v, nil})
			},
			"quick text": func(t *rapid.T) {
				room(t)
				n, x, m := coll.Draw(t, "collection"), text(t), meta(t)
				if with && em.fail == nil && rapid.IntRange(0, 6).Draw(t, "unknown") == 0 {
					n = "nowhere"
				}
				c.Op("quick add text %q %q %v", n, x, m)
				var id string
				var err error
				if n == "" {
					id, err = db.Quick().AddText(bg, x, m)
				} else {
					id, err = db.Quick().AddTextToCollection(bg, n, x, m)
				}
				if n == "nowhere" {
					if err == nil {
						c.Fatalf("accepted")
					}
					refused = true
					return
				}
				if textOp(err, false) {
					fresh(id)
					put(id, rec{in(n), x, of(x), m})
				}
			},
			"search": func(t *rapid.T) {
				n, k := coll.Draw(t, "collection"), rapid.IntRange(0, 12).Draw(t, "k")
				v := h.NZVec(t, dim, "query")
				c.Op("search %q %v %d", n, v, k)
				var res []core.ScoredEmbedding
				var err error
				if n == "" {
					res, err = db.Quick().Search(bg, v, k)
				} else {
					res, err = db.Quick().SearchInCollection(bg, n, v, k)
				}
				c.Must(err, "Search")
				judge(res, n, v, k)
			},
			"search text": func(t *rapid.T) {
				n, k, x := coll.Draw(t, "collection"), rapid.IntRange(0, 12).Draw(t, "k"), text(t)
				if rapid.IntRange(0, 5).Draw(t, "empty") == 0 {
					x = ""
				}
				quick := rapid.Bool().Draw(t, "quick")
				c.Op("search text %q %q %d", n, x, k)
				var res []core.ScoredEmbedding
				var err error
				switch {
				case quick && n == "":
					res, err = db.Quick().SearchText(bg, x, k)
				case quick:
					res, err = db.Quick().SearchTextInCollection(bg, n, x, k)
				case n == "":
					res, err = db.SearchText(bg, x, k)
				default:
					res, err = db.SearchTextInCollection(bg, n, x, k)
				}
				if textOp(err, x == "") {
					judge(res, n, of(x), k)
				}
			},
			"hybrid": func(t *rapid.T) {
				k, x := rapid.IntRange(1, 12).Draw(t, "k"), text(t)
				c.Op("hybrid search %q %d", x, k)
				res, err := db.HybridSearchText(bg, x, k)
				if !textOp(err, false) {
					return
				}
				want, err := db.Vector().(*core.SQLiteStore).HybridSearch(bg, of(x), x, core.HybridSearchOptions{SearchOptions: core.SearchOptions{TopK: k}})
				c.Must(err, "HybridSearch")
				if len(res) != len(want) || len(res) != min(k, len(recs)) {
					c.Fatalf("%d results, the store gives %d of %d", len(res), len(want), len(recs))
				}
				for i, r := range res {
					if math.Abs(r.Score-want[i].Score) > 1e-9 || recs[r.ID].text != r.Content {
						c.Fatalf("result %d is %q at %v, the store gives %q at %v", i, r.ID, r.Score, want[i].ID, want[i].Score)
					}
				}
			},
			"text only": func(t *rapid.T) {
				n, k := rapid.SampledFrom([]string{"", "Default"}).Draw(t, "collection"), rapid.IntRange(0, 12).Draw(t, "k")
				words := rapid.SliceOfNDistinct(rapid.SampledFrom(ws), 0, 2, rapid.ID[string]).Draw(t, "words")
				q := strings.Join(words, " ")
				c.Op("text only %q %q %d", n, q, k)
				var res []core.ScoredEmbedding
				var err error
				if n == "" && rapid.Bool().Draw(t, "quick") {
					res, err = db.Quick().SearchTextOnly(bg, q, k)
				} else {
					res, err = db.SearchTextOnly(bg, q, cortexdb.TextSearchOptions{Collection: n, TopK: k})
				}
				if q == "" {
					if !errors.Is(err, cortexdb.ErrEmptyText) {
						c.Fatalf("an empty text gives %v", err)
					}
					return
				}
				c.Must(err, "SearchTextOnly")
				want := map[string]bool{}
				for id, r := range recs {
					ok := n == "" || r.coll == n
					for _, w := range words {
						ok = ok && strings.Contains(r.text, w)
					}
					if ok {
						want[id] = true
					}
				}
				if k == 0 {
					k = 10
				}
				if len(res) != min(k, len(want)) {
					c.Fatalf("%d results of %d", len(res), len(want))
				}
				seen := map[string]bool{}
				for i, r := range res {
					if !want[r.ID] || seen[r.ID] || recs[r.ID].text != r.Content || i > 0 && res[i-1].Score < r.Score {
						c.Fatalf("results %+v", res)
					}
					seen[r.ID] = true
				}
			},
			"embedder": func(t *rapid.T) {
				em.fail = nil
				if rapid.Bool().Draw(t, "fails") {
					em.fail = errors.New("boom")
				}
				c.Op("embedder fails: %v", em.fail)
			},
			"reopen": func(t *rapid.T) {
				with = rapid.IntRange(0, 2).Draw(t, "with an embedder") > 0
				c.Op("reopen, embedder %v", with)
				c.Must(db.Close(), "Close")
				open()
				reopened = true
			},
			"": func(t *rapid.T) {
				var ids []string
				for id := range recs {
					ids = append(ids, id)
				}
				sort.Strings(ids)
				st, err := db.Vector().Stats(bg)
				c.Must(err, "Stats")
				if st.Count != int64(len(recs)) {
					c.Fatalf("%d records, want %q", st.Count, ids)
				}
				for _, id := range ids {
					x, err := db.Vector().(*core.SQLiteStore).GetByID(bg, id)
					c.Must(err, "GetByID %q", id)
					r := recs[id]
					if x.Content != r.text || !h.SameVec(x.Vector, r.vec) || !h.SameMap(x.Metadata, r.meta) && len(x.Metadata)+len(r.meta) > 0 || x.Collection != r.coll {
						c.Fatalf("%q reads as %+v, want %+v", id, x, r)
					}
				}
				info := db.Info()
				if info.Path != cfg.Path || len(recs) > 0 && info.Dimensions != dim || db.Quick().Info().Path != cfg.Path {
					c.Fatalf("info %+v", info)
				}
				if (info.Embedder != "") != with {
					c.Fatalf("embedder %q, configured %v", info.Embedder, with)
				}
			},
		})
	})
}
