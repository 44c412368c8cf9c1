package p02

import (
	"fmt"
	"math"
	"testing"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"github.com/liliang-cn/cortexdb/v2/verifharness/mdl"
	"pgregory.net/rapid"
)

func env(c *h.C) (*mdl.Env, int) {
	dim := rapid.IntRange(1, 4).Draw(c.T, "dim")
	si := rapid.IntRange(0, len(mdl.Sims)-1).Draw(c.T, "sim")
	c.Op("dim=%d sim=%s", dim, mdl.Sims[si].Name)
	e := mdl.NewEnv(c, dim, func(cfg *core.Config) { cfg.SimilarityFn = mdl.Sims[si].Fn })
	e.NIDs, e.Big = 20, 400
	e.Prepare(c.T)
	e.Fill(c.T, rapid.IntRange(0, 18).Draw(c.T, "n"))
	for n := rapid.IntRange(0, 3).Draw(c.T, "ndel"); n > 0; n-- {
		e.Delete(e.SomeID(c.T))
	}
	return e, si
}

func withThreshold(want map[string]float64, th float64) map[string]float64 {
	if th <= 0 {
		return want
	}
	m := map[string]float64{}
	for k, v := range want {
		if v >= th {
			m[k] = v
		}
	}
	return m
}

// A threshold that no score is within rounding of.
func threshold(c *h.C, all map[string]float64) float64 {
	th := rapid.SampledFrom([]float64{0, 0, 0.1, 0.5, 0.95, 3.3}).Draw(c.T, "th")
	for _, v := range all {
		if th > 0 && math.Abs(v-th) < 1e-6 {
			return 0
		}
	}
	return th
}

// Search and SearchWithFilter return exactly the best matching records.
func TestSearch(t *testing.T) {
	h.Check(t, h.Opt{Quick: 400, Thorough: 8000}, func(c *h.C) {
		e, si := env(c)
		ref := mdl.Sims[si].Ref
		for i := 0; i < 4; i++ {
			q := e.Q(c.T)
			o := e.Opts(c.T)
			if rapid.IntRange(0, 7).Draw(c.T, "k0") == 0 {
				o.TopK = -rapid.IntRange(0, 2).Draw(c.T, "kneg")
			}
			all := e.Eligible(q, ref, func(r *mdl.Rec) bool { return mdl.Match(r, o) })
			o.Threshold = threshold(c, all)
			if rapid.Bool().Draw(c.T, "withtext") {
				o.QueryText = "apple"
			}
			k := o.TopK
			if k <= 0 {
				k = 10
			}
			want := withThreshold(all, o.Threshold)
			c.Op("search %s %s", h.VS(q), mdl.OS(o))
			res, err := e.S.Search(e.Ctx, q, o)
			c.Must(err, "search")
			ids, sc := e.Split(res)
			if m := h.CheckTopK(ids, sc, want, k, 1e-9); m != "" {
				c.Fatalf("search %s %s: %s", h.VS(q), mdl.OS(o), m)
			}
			if len(want) > k || (len(want) > 0 && len(want) < len(e.Recs)) {
				c.NonTrivial()
			}
			if len(want) > k {
				c.Class("cut-by-k")
			}
			if len(o.Filter) > 0 && len(want) > 0 {
				c.Class("filter-matches")
			}
			if o.Collection != "" && len(want) > 0 {
				c.Class("collection-matches")
			}

			// a threshold equal to a score keeps that record
			if o.Threshold == 0 && len(res) > 0 {
				at := rapid.IntRange(0, len(res)-1).Draw(c.T, "at")
				if o2 := o; res[at].Score > 0 {
					o2.Threshold = res[at].Score
					for at+1 < len(res) && res[at+1].Score >= o2.Threshold {
						at++
					}
					c.Op("search with threshold %v, the score of %q", o2.Threshold, res[at].ID)
					res2, err := e.S.Search(e.Ctx, q, o2)
					c.Must(err, "search")
					_, a := e.Split(res[:at+1])
					_, b := e.Split(res2)
					if fmt.Sprint(a) != fmt.Sprint(b) {
						c.Fatalf("search %s %s: got scores %v, but %v are at least the threshold", h.VS(q), mdl.OS(o2), b, a)
					}
				}
			}

			// the same with filters given as typed values
			f := map[string]interface{}{}
			var sf []string
			for n := rapid.IntRange(0, 2).Draw(c.T, "ntf"); n > 0; n-- {
				var v interface{} = rapid.SampledFrom(mdl.MetaVals).Draw(c.T, "tv")
				switch v {
				case "5", "10":
					if rapid.Bool().Draw(c.T, "asint") {
						v = map[interface{}]int{"5": 5, "10": 10}[v]
					}
				case "true":
					if rapid.Bool().Draw(c.T, "asbool") {
						v = true
					}
				}
				k := rapid.SampledFrom(mdl.MetaKeys).Draw(c.T, "tk")
				f[k] = v
				sf = append(sf, fmt.Sprintf("%s=%v", k, v))
			}
			want2 := map[string]float64{}
			for id, s := range want {
				ok := true
				for fk, fv := range f {
					w, has := e.Recs[id].Meta[fk]
					ok = ok && has && w == fmt.Sprint(fv)
				}
				if ok {
					want2[id] = s
				}
			}
			c.Op("searchWithFilter %v", sf)
			res, err = e.S.SearchWithFilter(e.Ctx, q, o, f)
			c.Must(err, "searchWithFilter")
			ids, sc = e.Split(res)
			if m := h.CheckTopK(ids, sc, want2, k, 1e-9); m != "" {
				c.Fatalf("searchWithFilter %s %s %v: %s", h.VS(q), mdl.OS(o), f, m)
			}
		}
	})
}

// A range search returns exactly the records within the radius, nearest first.
func TestRange(t *testing.T) {
	h.Check(t, h.Opt{Quick: 400, Thorough: 8000}, func(c *h.C) {
		e, si := env(c)
		if mdl.Sims[si].Name == "dot" {
			si = 0
			e.C.Op("(dot product has no range)")
			return
		}
		ref := mdl.Sims[si].Ref
		var qs [][]float32
		o := e.Opts(c.T)
		if rapid.Bool().Draw(c.T, "all") {
			o.TopK = 0
		}
		radius := rapid.SampledFrom([]float32{0.05, 0.3, 0.77, 1.3, 2.1, 60}).Draw(c.T, "r")
		for i := 0; i < 3; i++ {
			q := e.Q(c.T)
			if h.Dot(q, q) == 0 {
				q[0] = 1
			}
			qs = append(qs, q)
		}
		c.Op("range r=%g %s", radius, mdl.OS(o))
		batch, err := e.S.BatchRangeSearch(e.Ctx, qs, radius, o)
		c.Must(err, "batch range")
		if len(batch) != len(qs) {
			c.Fatalf("%d answers for %d queries", len(batch), len(qs))
		}
		for i, q := range qs {
			want := map[string]float64{}
			edge := false
			for id, s := range e.Eligible(q, ref, func(r *mdl.Rec) bool { return mdl.Match(r, o) }) {
				d := -s
				if mdl.Sims[si].Name == "cosine" {
					d = 1 - s
				}
				if math.Abs(d-float64(radius)) < 1e-4 {
					edge = true
				}
				if d <= float64(radius) {
					want[id] = -d
				}
			}
			c.Op("q %s", h.VS(q))
			if edge {
				continue
			}
			single, err := e.S.RangeSearch(e.Ctx, q, radius, o)
			c.Must(err, "range")
			for n, res := range [][]core.ScoredEmbedding{single, batch[i]} {
				ids, sc := e.Split(res)
				for j := range sc {
					sc[j] = -sc[j]
				}
				if m := h.CheckTopK(ids, sc, want, o.TopK, 1e-5); m != "" {
					c.Fatalf("range search (batch=%v) %s r=%g %s: %s", n == 1, h.VS(q), radius, mdl.OS(o), m)
				}
			}
			if len(want) > 0 && len(want) < len(e.Recs) {
				c.NonTrivial()
			}
		}
		if _, err := e.S.RangeSearch(e.Ctx, qs[0], 0, o); err == nil {
			c.Fatalf("range search with radius 0 reported no error")
		}
	})
}
