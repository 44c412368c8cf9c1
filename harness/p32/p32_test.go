package p32

import (
	"context"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"sort"
	"testing"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"github.com/liliang-cn/cortexdb/v2/verifharness/mdl"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

var (
	bg     = context.Background()
	ids    = []string{"a", "ab", "b", "it's", "日本", "a_b", "%"}
	fields = []string{"title", "body", "titles", "it's"}
	sims   = map[string]core.SimilarityFunc{"cosine": core.CosineSimilarity, "dot": core.DotProduct, "euclid": core.EuclideanDist}
)

type entity struct {
	vecs    map[string][]float32
	content string
	meta    map[string]any
}

func text(v any) string {
	switch x := v.(type) {
	case string:
		return x
	case bool:
		return fmt.Sprint(x)
	}
	return fmt.Sprint(v)
}

func sameMeta(a, b map[string]any) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || v != w {
			return false
		}
	}
	return true
}

func TestEntities(t *testing.T) {
	h.Check(t, h.Opt{Quick: 120, Thorough: 4000, Steps: 14}, func(c *h.C) {
		const dim = 3
		name := rapid.SampledFrom([]string{"cosine", "cosine", "dot", "euclid"}).Draw(c.T, "similarity")
		hnsw := rapid.Bool().Draw(c.T, "hnsw")
		adapt := rapid.Bool().Draw(c.T, "adapt dimensions")
		e := mdl.NewEnv(c, dim, func(cfg *core.Config) {
			cfg.SimilarityFn = sims[name]
			cfg.HNSW.Enabled = hnsw && name == "cosine"
			if adapt {
				cfg.AutoDimAdapt = core.AutoTruncate
			}
		})
		c.Op("similarity %s hnsw %v adapting %v", name, hnsw, adapt)
		sim := sims[name]
		ents := map[string]*entity{}
		plain := map[string][]float32{}
		ids := append([]string{}, ids...)
		inserted := 0 // in the index ever, so that it stays exhaustive
		multi, deleted := false, false

		check := func() {
			n := len(plain)
			for _, id := range ids {
				got, err := e.S.GetMultiVectorEntity(bg, id)
				w := ents[id]
				if w == nil {
					if err == nil {
						c.Fatalf("entity %q exists: %+v", id, got)
					}
					continue
				}
				c.Must(err, "GetMultiVectorEntity")
				n += len(w.vecs)
				if got.ID != id || got.Content != w.content || !sameMeta(got.Metadata, w.meta) || len(got.Vectors) != len(w.vecs) {
					c.Fatalf("entity %q is %+v, want %+v", id, got, w)
				}
				for f, v := range w.vecs {
					if !h.SameVec(got.Vectors[f], v) {
						c.Fatalf("field %q of %q is %v, want %v", f, id, got.Vectors[f], v)
					}
				}
			}
			for id, v := range plain {
				got, err := e.S.GetByID(bg, id)
				c.Must(err, "GetByID")
				if !h.SameVec(got.Vector, v) || got.Content != "plain "+id || got.Metadata["kind"] != "x" {
					c.Fatalf("record %q is %+v", id, got)
				}
			}
			st, err := e.S.Stats(bg)
			c.Must(err, "Stats")
			if int(st.Count) != n {
				c.Fatalf("%d records stored, want %d", st.Count, n)
			}
		}

		drawMeta := func() map[string]any {
			m := map[string]any{}
			if rapid.Bool().Draw(c.T, "kind") {
				m["kind"] = rapid.SampledFrom([]string{"x", "y"}).Draw(c.T, "kind value")
			}
			if rapid.IntRange(0, 2).Draw(c.T, "number") == 0 {
				m["n"] = float64(rapid.IntRange(0, 3).Draw(c.T, "n"))
			}
			if rapid.IntRange(0, 3).Draw(c.T, "flag") == 0 {
				m["flag"] = rapid.Bool().Draw(c.T, "value")
			}
			return m
		}

		c.T.Repeat(map[string]func(*rapid.T){
			"upsert": func(t *rapid.T) {
				if inserted > 26 {
					t.Skip("index no longer exhaustive")
				}
				id := rapid.SampledFrom(ids).Draw(t, "id")
				w := &entity{vecs: map[string][]float32{}, content: h.Text(t, "content"), meta: drawMeta()}
				for _, f := range fields {
					if ents[id] != nil && ents[id].vecs[f] != nil || rapid.Bool().Draw(t, "with "+f) {
						w.vecs[f] = h.NZVec(t, dim, f)
					}
				}
				if len(w.vecs) == 0 {
					w.vecs["title"] = h.NZVec(t, dim, "title")
				}
				in := &core.MultiVectorEntity{ID: id, Vectors: map[string][]float32{}, Content: w.content, Metadata: map[string]any{}}
				for f, v := range w.vecs {
					in.Vectors[f] = append([]float32{}, v...)
				}
				for k, v := range w.meta {
					in.Metadata[k] = v
				}
				if len(w.meta) == 0 && rapid.Bool().Draw(t, "nil metadata") {
					in.Metadata = nil
				}
				bad := ""
				if rapid.IntRange(0, 4).Draw(t, "damaged") == 0 {
					f := rapid.SampledFrom(fields).Draw(t, "bad field")
					switch rapid.IntRange(0, 2).Draw(t, "damage") {
					case 0:
						bad = "NaN"
						in.Vectors[f] = []float32{1, float32(math.NaN()), 0}
					case 1:
						bad = "Inf"
						in.Vectors[f] = []float32{1, 2, float32(math.Inf(1))}
					case 2:
						bad = "unencodable metadata"
						in.Metadata = map[string]any{"f": func() {}}
					}
				}
				c.Op("upsert %q %v %v %q %s", id, w.vecs, w.meta, w.content, bad)
				err := e.S.UpsertMultiVector(bg, in)
				if bad != "" {
					if err == nil {
						c.Fatalf("an entity with %s is accepted", bad)
					}
					return
				}
				c.Must(err, "UpsertMultiVector")
				if ents[id] != nil {
					multi = true
				}
				ents[id] = w
				inserted += len(w.vecs)
			},
			"other dimension": func(t *rapid.T) {
				if inserted > 26 {
					t.Skip("index no longer exhaustive")
				}
				id := rapid.SampledFrom(ids).Draw(t, "id")
				if ents[id] != nil {
					t.Skip("exists")
				}
				v := h.NZVec(t, rapid.SampledFrom([]int{1, 2, 4, 5}).Draw(t, "dim"), "v")
				c.Op("upsert %q with %v", id, v)
				if !adapt {
					if err := e.S.UpsertMultiVector(bg, &core.MultiVectorEntity{ID: id, Vectors: map[string][]float32{"title": v}}); err == nil {
						c.Fatalf("a vector of dimension %d is accepted in a store of dimension %d", len(v), dim)
					}
					return
				}
				c.Must(e.S.Upsert(bg, &core.Embedding{ID: "probe", Vector: append([]float32{}, v...)}), "Upsert")
				p, err := e.S.GetByID(bg, "probe")
				c.Must(err, "GetByID")
				c.Must(e.S.Delete(bg, "probe"), "Delete")
				c.Must(e.S.UpsertMultiVector(bg, &core.MultiVectorEntity{ID: id, Vectors: map[string][]float32{"title": v}}), "UpsertMultiVector")
				ents[id] = &entity{vecs: map[string][]float32{"title": p.Vector}, meta: map[string]any{}}
				inserted += 2
			},
			"many": func(t *rapid.T) {
				if e.Cfg.HNSW.Enabled || len(ids) > 40 {
					t.Skip("index no longer exhaustive")
				}
				n := rapid.IntRange(4, 25).Draw(t, "many")
				c.Op("%d more entities", n)
				for ; n > 0; n-- {
					id := fmt.Sprintf("e%d", len(ids))
					w := &entity{vecs: map[string][]float32{}, content: "many", meta: map[string]any{}}
					for _, f := range rapid.SampledFrom([][]string{{"title"}, {"body"}, {"title", "titles"}}).Draw(t, "fields") {
						w.vecs[f] = h.NZVec(t, dim, f)
					}
					c.Must(e.S.UpsertMultiVector(bg, &core.MultiVectorEntity{ID: id, Vectors: w.vecs, Content: w.content}), "UpsertMultiVector")
					ids, ents[id] = append(ids, id), w
				}
				c.Class("many")
			},
			"plain": func(t *rapid.T) {
				if inserted > 26 {
					t.Skip("index no longer exhaustive")
				}
				id := rapid.SampledFrom([]string{"a", "p1", "p2", "title"}).Draw(t, "id")
				v := h.NZVec(t, dim, "v")
				c.Op("plain %q %v", id, v)
				c.Must(e.S.Upsert(bg, &core.Embedding{ID: id, Vector: append([]float32{}, v...), Content: "plain " + id, Metadata: map[string]string{"kind": "x"}}), "Upsert")
				plain[id] = v
				inserted++
			},
			"delete": func(t *rapid.T) {
				id := rapid.SampledFrom(ids).Draw(t, "id")
				c.Op("delete %q", id)
				err := e.S.DeleteMultiVectorEntity(bg, id)
				if ents[id] != nil {
					c.Must(err, "DeleteMultiVectorEntity")
					deleted = true
				}
				delete(ents, id)
			},
			"reopen": func(t *rapid.T) {
				if rapid.IntRange(0, 2).Draw(t, "really") != 0 {
					t.Skip()
				}
				e.Reopen()
			},
			"search": func(t *rapid.T) {
				qs := map[string][]float32{}
				for _, f := range fields {
					if rapid.Bool().Draw(t, "query "+f) {
						qs[f] = h.NZVec(t, dim, "q")
					}
				}
				o := core.MultiVectorSearchOptions{Aggregation: rapid.SampledFrom([]core.AggregationMethod{core.AggregateMax, core.AggregateMin, core.AggregateAverage, core.AggregateSum, core.AggregateWeighted, ""}).Draw(t, "method")}
				if rapid.IntRange(0, 2).Draw(t, "some fields") == 0 {
					o.VectorFields = rapid.SliceOfNDistinct(rapid.SampledFrom(fields), 1, 2, rapid.ID[string]).Draw(t, "fields")
				}
				if rapid.Bool().Draw(t, "weights") {
					o.FieldWeights = map[string]float32{}
					for _, f := range fields {
						if rapid.Bool().Draw(t, "weight "+f) {
							o.FieldWeights[f] = float32(rapid.IntRange(0, 4).Draw(t, "w")) / 2
						}
					}
				}
				o.TopK = rapid.SampledFrom([]int{0, 1, 2, 3, 4, 8, 20}).Draw(t, "topk")
				if rapid.IntRange(0, 2).Draw(t, "filtered") == 0 {
					k := rapid.SampledFrom([]string{"kind", "kind", "n", "flag"}).Draw(t, "filter key")
					if rapid.IntRange(0, 2).Draw(t, "two filters") == 0 {
						o.Filter = map[string]string{"kind": "x"}
						k = rapid.SampledFrom([]string{"n", "flag"}).Draw(t, "second key")
					} else {
						o.Filter = map[string]string{}
					}
					o.Filter[k] = map[string]string{"kind": "x", "n": "1", "flag": "true"}[k]
				}
				if rapid.IntRange(0, 3).Draw(t, "in collection") == 0 {
					o.Collection = "default"
				}
				c.Op("search %v fields=%v weights=%v %s topk=%d filter=%v", qs, o.VectorFields, o.FieldWeights, o.Aggregation, o.TopK, o.Filter)
				want := map[string]float64{}
				scale := 1.0
				for id, x := range ents {
					ok := true
					for k, v := range o.Filter {
						ok = ok && x.meta[k] != nil && text(x.meta[k]) == v
					}
					if !ok {
						continue
					}
					var ss []float64
					for f, q := range qs {
						use := len(o.VectorFields) == 0
						for _, y := range o.VectorFields {
							use = use || y == f
						}
						if v := x.vecs[f]; v != nil && use {
							s := sim(q, v)
							if w, ok := o.FieldWeights[f]; ok {
								s *= float64(w)
							}
							ss = append(ss, s)
							scale = math.Max(scale, math.Abs(s))
						}
					}
					if len(ss) == 0 {
						continue
					}
					sort.Float64s(ss)
					sum := 0.0
					for _, s := range ss {
						sum += s
					}
					switch o.Aggregation {
					case core.AggregateMax:
						want[id] = ss[len(ss)-1]
					case core.AggregateMin:
						want[id] = ss[0]
					case core.AggregateSum:
						want[id] = sum
					default:
						want[id] = sum / float64(len(ss))
					}
				}
				before := fmt.Sprintf("%+v", o)
				got, err := e.S.SearchMultiVector(bg, qs, o)
				c.Must(err, "SearchMultiVector")
				if after := fmt.Sprintf("%+v", o); after != before {
					c.Fatalf("the search changed its caller's options from %s to %s", before, after)
				}
				var gids []string
				var scores []float64
				for _, r := range got {
					x := ents[r.ID]
					if x == nil || r.Content != x.content {
						c.Fatalf("result %+v is no entity", r)
					}
					for k, v := range x.meta {
						if r.Metadata[k] != text(v) {
							c.Fatalf("result %q has metadata %v, want %v", r.ID, r.Metadata, x.meta)
						}
					}
					gids, scores = append(gids, r.ID), append(scores, r.Score/scale)
				}
				norm := map[string]float64{}
				for id, s := range want {
					norm[id] = s / scale
				}
				if msg := h.CheckTopK(gids, scores, norm, o.TopK, 1e-4); msg != "" {
					c.Fatalf("%s", msg)
				}
				if len(want) > 0 && len(want) < len(ents) || o.TopK > 0 && len(want) > o.TopK {
					c.Class("selective search")
					if multi || deleted {
						c.NonTrivial()
					}
				}
			},
			"": func(t *rapid.T) { check() },
		})
	})
}
