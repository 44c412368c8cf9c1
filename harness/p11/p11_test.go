package p11

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"path/filepath"
	"sort"
	"testing"
	"time"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

func unit(v []float32) []float64 {
	var s float64
	for _, x := range v {
		s += float64(x) * float64(x)
	}
	r := make([]float64, len(v))
	for i, x := range v {
		r[i] = float64(x)
		if s > 0 {
			r[i] /= math.Sqrt(s)
		}
	}
	return r
}

func near(got []float32, want []float64) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if math.Abs(float64(got[i])-want[i]) > 1e-5 {
			return false
		}
	}
	return true
}

// adapted checks that got is v brought to dim under the policy.
func adapted(p core.AdaptPolicy, v []float32, dim int, got []float32) string {
	if len(got) != dim {
		return fmt.Sprintf("has %d components, want %d", len(got), dim)
	}
	if len(v) == dim {
		if !h.SameVec(v, got) {
			return "was changed though its length fits"
		}
		return ""
	}
	if len(v) > dim && p == core.SmartAdapt {
		// the components of greatest magnitude, in their order, at unit length
		abs := []float64{}
		for _, x := range v {
			abs = append(abs, math.Abs(float64(x)))
		}
		sort.Sort(sort.Reverse(sort.Float64Slice(abs)))
		var s float64
		for _, a := range abs[:dim] {
			s += a * a
		}
		if s == 0 {
			s = 1
		}
		g := []float64{}
		for _, x := range got {
			g = append(g, math.Abs(float64(x)))
		}
		sort.Sort(sort.Reverse(sort.Float64Slice(g)))
		for i := range g {
			if math.Abs(g[i]-abs[i]/math.Sqrt(s)) > 1e-5 {
				return "does not keep the components of greatest magnitude"
			}
		}
		j := 0
		for _, x := range got {
			for j < len(v) && math.Abs(float64(v[j])/math.Sqrt(s)-float64(x)) > 1e-5 {
				j++
			}
			if j == len(v) {
				return "does not keep the order of the components"
			}
			j++
		}
		return ""
	}
	want := make([]float32, dim)
	copy(want, v)
	u := unit(want)
	if len(v) < dim && p == core.SmartAdapt {
		// the given components, and a little noise
		var in, dot float64
		for i, x := range got {
			in += float64(x) * float64(x)
			dot += float64(x) * u[i]
		}
		zero := unit(want)
		all0 := true
		for _, x := range zero {
			all0 = all0 && x == 0
		}
		if all0 {
			return ""
		}
		if math.Abs(in-1) > 1e-4 {
			return fmt.Sprintf("has squared length %v", in)
		}
		if dot < 0.98 {
			return fmt.Sprintf("does not point where the given vector points (cosine %v)", dot)
		}
		return ""
	}
	if !near(got, u) {
		return fmt.Sprintf("is not the given vector cut or padded to unit length, want %v", u)
	}
	return ""
}

// Every stored vector has the store's dimension, reached as the policy says or refused.
func TestPolicy(t *testing.T) {
	h.Check(t, h.Opt{Quick: 300, Thorough: 8000, Steps: 16}, func(c *h.C) {
		ctx := context.Background()
		cfg := core.DefaultConfig()
		cfg.Path = filepath.Join(c.Dir(), "t.db")
		cfg.VectorDim = rapid.SampledFrom([]int{0, 0, 1, 3, 4}).Draw(c.T, "dim")
		cfg.AutoDimAdapt = core.AdaptPolicy(rapid.IntRange(0, 4).Draw(c.T, "policy"))
		cfg.HNSW.Enabled = rapid.Bool().Draw(c.T, "hnsw")
		cfg.SimilarityFn = core.DotProduct
		c.Op("dim %d policy %d hnsw %v", cfg.VectorDim, cfg.AutoDimAdapt, cfg.HNSW.Enabled)
		pol := cfg.AutoDimAdapt
		var s *core.SQLiteStore
		open := func() {
			var err error
			s, err = core.NewWithConfig(cfg)
			c.Must(err, "open")
			c.Must(s.Init(ctx), "init")
		}
		open()
		c.Defer(func() { _ = s.Close() })
		recs := map[string][]float32{}
		fixed := cfg.VectorDim // also when every record is gone; 0 while nothing was ever stored
		dim := func() int {
			for _, v := range recs {
				return len(v)
			}
			return fixed
		}
		adapt, refuse := 0, 0
		vec := func(t *rapid.T) []float32 {
			n := rapid.IntRange(1, 6).Draw(t, "len")
			if d := dim(); d > 0 && rapid.Bool().Draw(t, "fits") {
				n = d
			}
			v := h.Vec(t, n, "v")
			switch rapid.IntRange(0, 11).Draw(t, "bad") {
			case 11:
				v[rapid.IntRange(0, n-1).Draw(t, "at")] = rapid.SampledFrom([]float32{float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1))}).Draw(t, "nf")
			case 10:
				v[0] = 3e38
			}
			return v
		}
		finite := func(v []float32) bool {
			for _, x := range v {
				if math.IsNaN(float64(x)) || math.IsInf(float64(x), 0) {
					return false
				}
			}
			return true
		}
		id := rapid.SampledFrom([]string{"a", "b", "c", "d"})
		// check looks at what is stored for id after v was written for it
		stored := func(id string, v []float32, d int) {
			g, err := s.GetByID(ctx, id)
			c.Must(err, "get %q", id)
			if m := adapted(pol, v, d, g.Vector); m != "" {
				c.Fatalf("policy %d, dimension %d: %v was stored as %v, which %s", pol, d, v, g.Vector, m)
			}
			recs[id] = g.Vector
			fixed = d
			if len(v) != d {
				adapt++
			}
		}
		unchanged := func() {
			for _, k := range []string{"a", "b", "c", "d"} {
				g, err := s.GetByID(ctx, k)
				if v, ok := recs[k]; ok {
					c.Must(err, "get %q", k)
					if !h.SameVec(v, g.Vector) {
						c.Fatalf("%q is now %v, was %v", k, g.Vector, v)
					}
				} else if !errors.Is(err, core.ErrNotFound) {
					c.Fatalf("get of absent %q: %v", k, err)
				}
			}
		}
		canFit := func(v []float32, d int) bool {
			return finite(v) && (len(v) == d || pol == core.SmartAdapt || pol == core.AutoTruncate || pol == core.AutoPad)
		}
		// misplace sends a record where there is nothing, so that its write is refused
		misplace := func(t *rapid.T, e *core.Embedding) bool {
			switch rapid.IntRange(0, 9).Draw(t, "place") {
			case 8:
				e.DocID = "no such document"
			case 9:
				e.Collection = "no such collection"
			default:
				return false
			}
			c.Op("misplaced %s: %q %q", e.ID, e.DocID, e.Collection)
			return true
		}
		acts := map[string]func(*rapid.T){
			"upsert": func(t *rapid.T) {
				k, v := id.Draw(t, "id"), vec(t)
				c.Op("upsert %s %s", k, h.VS(v))
				d := dim()
				if d == 0 {
					d = len(v)
				}
				e := &core.Embedding{ID: k, Vector: append([]float32{}, v...)}
				misplaced := misplace(t, e)
				err := s.Upsert(ctx, e)
				h.CheckInfra(err)
				if ok := canFit(v, d) && !misplaced; ok != (err == nil) {
					c.Fatalf("policy %d, dimension %d: upsert of %v: error %v", pol, d, v, err)
				} else if ok {
					stored(k, v, d)
				} else {
					refuse++
				}
			},
			"batch": func(t *rapid.T) {
				n := rapid.IntRange(1, 3).Draw(t, "n")
				last := map[string][]float32{}
				var embs []*core.Embedding
				d, ok := dim(), true
				allFinite := true
				for i := 0; i < n; i++ {
					k, v := id.Draw(t, "id"), vec(t)
					c.Op("batch %s %s", k, h.VS(v))
					if d == 0 {
						d = len(v)
					}
					allFinite = allFinite && finite(v)
					ok = ok && canFit(v, d)
					last[k] = v
					embs = append(embs, &core.Embedding{ID: k, Vector: append([]float32{}, v...)})
				}
				if misplace(t, embs[rapid.IntRange(0, n-1).Draw(t, "which")]) {
					ok = false
				}
				err := s.UpsertBatch(ctx, embs)
				h.CheckInfra(err)
				if ok != (err == nil) {
					c.Fatalf("policy %d, dimension %d: batch: error %v, want success %v", pol, d, err, ok)
				} else if ok {
					for k, v := range last {
						stored(k, v, d)
					}
				} else {
					refuse++
				}
			},
			"import": func(t *rapid.T) {
				n := rapid.IntRange(1, 3).Draw(t, "n")
				var buf bytes.Buffer
				last := map[string][]float32{}
				var order []string
				d, bad := dim(), 0
				for i := 0; i < n; i++ {
					k, v := id.Draw(t, "id"), vec(t)
					if !finite(v) {
						continue
					}
					c.Op("import %s %s", k, h.VS(v))
					c.Must(json.NewEncoder(&buf).Encode(&core.Embedding{ID: k, Vector: v}), "encode")
					if d == 0 {
						d = len(v)
					}
					if !canFit(v, d) {
						bad++
						continue
					}
					last[k] = v
					order = append(order, k)
				}
				st, err := s.Load(ctx, &buf, core.LoadOptions{Format: core.DumpFormatJSONL, Replace: true, Upsert: true})
				c.Must(err, "Load")
				if st.FailedCount != bad || st.TotalEmbeddings != len(order) {
					c.Fatalf("policy %d, dimension %d: import %+v, want %d stored, %d refused", pol, d, st, len(order), bad)
				}
				for k, v := range last {
					stored(k, v, d)
				}
				refuse += bad
			},
			"policy": func(t *rapid.T) {
				pol = core.AdaptPolicy(rapid.IntRange(0, 4).Draw(t, "policy"))
				c.Op("policy %d", pol)
				s.SetAutoDimAdapt(pol)
			},
			"delete": func(t *rapid.T) {
				k := id.Draw(t, "id")
				c.Op("delete %s", k)
				_ = s.Delete(ctx, k)
				delete(recs, k)
			},
			"reopen": func(t *rapid.T) {
				auto := rapid.Bool().Draw(t, "auto")
				c.Op("reopen auto=%v", auto)
				c.Must(s.Close(), "close")
				if auto && len(recs) > 0 {
					cfg.VectorDim = 0
				}
				cfg.AutoDimAdapt = pol
				open()
				fixed = s.Config().VectorDim
			},
			"search": func(t *rapid.T) {
				q := vec(t)
				c.Op("search %s", h.VS(q))
				kind := rapid.SampledFrom([]string{"search", "search", "filter", "acl", "advanced", "facets", "range", "batch range", "negatives", "diverse", "hybrid", "rerank", "stream"}).Draw(t, "kind")
				c.Op("%s", kind)
				d := dim()
				opt := core.SearchOptions{TopK: 10}
				var res []core.ScoredEmbedding
				var err error
				switch kind {
				case "search":
					res, err = s.Search(ctx, q, opt)
				case "filter":
					res, err = s.SearchWithFilter(ctx, q, opt, nil)
				case "acl":
					res, err = s.SearchWithACL(ctx, q, nil, opt)
				case "advanced":
					res, err = s.SearchWithAdvancedFilter(ctx, q, core.AdvancedSearchOptions{SearchOptions: opt})
				case "facets":
					res, _, err = s.SearchWithFacets(ctx, q, core.FacetedSearchOptions{SearchOptions: opt})
				case "range":
					res, err = s.RangeSearch(ctx, q, math.MaxFloat32, opt)
				case "batch range":
					var all [][]core.ScoredEmbedding
					all, err = s.BatchRangeSearch(ctx, [][]float32{q}, math.MaxFloat32, opt)
					if err == nil {
						res = all[0]
					}
				case "negatives":
					res, err = s.SearchWithNegatives(ctx, core.NegativeSearchOptions{PositiveVectors: [][]float32{q}, SearchOptions: opt})
				case "diverse":
					res, err = s.SearchWithDiversity(ctx, q, core.DiversitySearchOptions{Method: core.DiversityRandom, SearchOptions: opt})
				case "hybrid":
					res, err = s.HybridSearch(ctx, q, "", core.HybridSearchOptions{SearchOptions: opt})
				case "rerank":
					res, err = s.SearchWithReranker(ctx, q, "", core.RerankerFunc(func(_ context.Context, _ string, c []core.ScoredEmbedding) ([]core.ScoredEmbedding, error) {
						return c, nil
					}), core.RerankOptions{TopK: 10})
				case "stream":
					var ch <-chan core.StreamingResult
					ch, err = s.StreamSearch(ctx, q, core.StreamingOptions{SearchOptions: opt, MaxLatency: time.Minute})
					if err == nil {
						for r := range ch {
							res = append(res, r.ScoredEmbedding)
						}
					}
				}
				h.CheckInfra(err)
				if d == 0 || (len(q) != d && !finite(q)) {
					return
				}
				big := false
				for _, x := range q {
					big = big || math.Abs(float64(x)) > 1e6
				}
				for _, v := range recs {
					for _, x := range v {
						big = big || math.Abs(float64(x)) > 1e6
					}
				}
				if ok := canFit(q, d); ok != (err == nil) {
					c.Fatalf("policy %d, dimension %d: search for %v: error %v", pol, d, q, err)
				} else if !ok {
					refuse++
					return
				}
				if big && kind != "search" { // sums may overflow
					return
				}
				if len(res) != len(recs) {
					c.Fatalf("search found %d of %d records", len(res), len(recs))
				}
				if len(q) != d && pol == core.SmartAdapt || kind == "hybrid" {
					return
				}
				p := make([]float32, d)
				copy(p, q)
				u := unit(p)
				for _, r := range res {
					var want float64
					for i, x := range recs[r.ID] {
						if len(q) == d {
							want += float64(q[i]) * float64(x)
						} else {
							want += u[i] * float64(x)
						}
					}
					if kind == "range" || kind == "batch range" { // distance from the score of the query itself
						self := 0.0
						for i := range u {
							if len(q) == d {
								self += float64(q[i]) * float64(q[i])
							} else {
								self += u[i] * u[i]
							}
						}
						want = self - want
					}
					if !h.Near(r.Score, want, 1e-4*(1+math.Abs(want))) {
						c.Fatalf("policy %d: search for %v gives %q (%v) score %v, want %v", pol, q, r.ID, recs[r.ID], r.Score, want)
					}
				}
			},
			"": func(t *rapid.T) {
				unchanged()
				st, err := s.Stats(ctx)
				c.Must(err, "stats")
				if (len(recs) > 0 || fixed == 0) && st.Dimensions != dim() {
					c.Fatalf("statistics say dimension %d, stored vectors have %d", st.Dimensions, dim())
				}
			},
		}
		c.T.Repeat(acts)
		if adapt+refuse > 0 && len(recs) > 0 {
			c.NonTrivial()
		}
	})
}
