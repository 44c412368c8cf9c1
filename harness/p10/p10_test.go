package p10

import (
	"fmt"
	"slices"
	"sort"
	"strings"
	"testing"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"github.com/liliang-cn/cortexdb/v2/verifharness/mdl"
	"pgregory.net/rapid"
)

// Hybrid search fuses the vector ranking and the keyword ranking by reciprocal rank.
func TestFusion(t *testing.T) {
	h.Check(t, h.Opt{Quick: 300, Thorough: 8000}, func(c *h.C) {
		hnsw := rapid.Bool().Draw(c.T, "hnsw")
		e := mdl.NewEnv(c, 3, func(cfg *core.Config) { cfg.HNSW.Enabled = hnsw })
		e.NZ = true
		e.NIDs = 20
		e.ContFn = func(t *rapid.T) string {
			return strings.Join(rapid.SliceOfN(rapid.SampledFrom(h.Words), 0, 5).Draw(t, "words"), " ")
		}
		e.Prepare(c.T)
		e.Fill(c.T, rapid.IntRange(3, 18).Draw(c.T, "n"))
		if !hnsw && rapid.IntRange(0, 2).Draw(c.T, "large") == 0 {
			e.Bulk(c.T, rapid.IntRange(20, 150).Draw(c.T, "many"))
		}
		for i := 0; i < 4; i++ {
			q := h.NZVec(c.T, 3, "q")
			plain := rapid.SampledFrom(h.Words).Draw(c.T, "word")
			word := plain
			o := e.Opts(c.T)
			o.TopK = rapid.SampledFrom([]int{1, 2, 3, 5, 9, 15, 30}).Draw(c.T, "k")
			rrfk := rapid.SampledFrom([]float64{0, 0.5, 1, 10, 60}).Draw(c.T, "rrfk")
			// the vector ranking, without ties
			sims := e.Eligible(q, h.Cosine, func(r *mdl.Rec) bool { return mdl.Match(r, o) })
			var vr []string
			for id := range sims {
				vr = append(vr, id)
			}
			sort.Slice(vr, func(i, j int) bool { return sims[vr[i]] > sims[vr[j]] })
			tie := false
			for i := 1; i < len(vr); i++ {
				tie = tie || sims[vr[i-1]]-sims[vr[i]] < 1e-6
			}
			if tie && len(vr) > 3 {
				c.Class("tie-skipped")
				continue
			}
			if tie {
				continue
			}
			if len(vr) > 1 && rapid.IntRange(0, 3).Draw(c.T, "threshold") == 0 { // between two scores
				j := rapid.IntRange(1, len(vr)-1).Draw(c.T, "at")
				if th := (sims[vr[j-1]] + sims[vr[j]]) / 2; th > 0 {
					o.Threshold = th
					vr = vr[:j]
				}
			}
			// the same word as an expression or inside other characters
			word = fmt.Sprintf(rapid.SampledFrom([]string{"%s", "%s", "%s", "%s?", "(%s", "%s!", "'%s'"}).Draw(c.T, "form"), word)
			c.Op("hybrid %s %q %s rrf=%g", h.VS(q), word, mdl.OS(o), rrfk)
			if len(vr) > o.TopK {
				vr = vr[:o.TopK]
			}
			// the keyword ranking, three times as deep
			ko := o
			ko.TopK = 3 * o.TopK
			kres, err := e.S.HybridSearch(e.Ctx, nil, word, core.HybridSearchOptions{SearchOptions: ko, RRFK: rrfk})
			c.Must(err, "keyword")
			with := 0
			for _, r := range e.Recs {
				if mdl.Match(r, o) && slices.Contains(strings.Fields(r.Content), plain) {
					with++
				}
			}
			if len(kres) != min(with, ko.TopK) {
				c.Fatalf("keyword search for %q finds %d of %d records, up to %d", word, len(kres), with, ko.TopK)
			}
			k := rrfk
			if k == 0 {
				k = 60
			}
			want := map[string]float64{}
			for i, id := range vr {
				want[id] += 1 / (k + float64(i+1))
			}
			both := 0
			for i, r := range kres {
				if !h.Near(r.Score, 1/(k+float64(i+1)), 1e-12) {
					c.Fatalf("keyword result %d has score %v, want %v", i, r.Score, 1/(k+float64(i+1)))
				}
				if _, ok := want[r.ID]; ok {
					both++
				}
				want[r.ID] += 1 / (k + float64(i+1))
			}
			res, err := e.S.HybridSearch(e.Ctx, q, word, core.HybridSearchOptions{SearchOptions: o, RRFK: rrfk})
			c.Must(err, "hybrid")
			ids, sc := e.Split(res)
			if m := h.CheckTopK(ids, sc, want, o.TopK, 1e-12); m != "" {
				c.Fatalf("hybrid %s %q %s: %s", h.VS(q), word, mdl.OS(o), m)
			}
			if both > 0 && both < len(want) {
				c.NonTrivial()
			}
			// without text it is the vector ranking alone
			res, err = e.S.HybridSearch(e.Ctx, q, "", core.HybridSearchOptions{SearchOptions: o, RRFK: rrfk})
			c.Must(err, "hybrid without text")
			ids, _ = e.Split(res)
			if strings.Join(ids, "|") != strings.Join(vr, "|") {
				c.Fatalf("hybrid without text %q, want %q", ids, vr)
			}
		}
	})
}
