package p07

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"github.com/liliang-cn/cortexdb/v2/verifharness/mdl"
	"pgregory.net/rapid"
)

func words(t *rapid.T) string {
	return strings.Join(rapid.SliceOfN(rapid.SampledFrom(h.Words[:4]), 0, 3).Draw(t, "words"), " ")
}

func ids(res []core.ScoredEmbedding, err error) (string, error) {
	var s []string
	for _, r := range res {
		s = append(s, r.ID)
	}
	return fmt.Sprintf("%q", h.Sorted(s)), err
}

// views are all the ways to look into one collection.
func views(e *mdl.Env, s *core.SQLiteStore, coll string, q []float32, word string, typ string) map[string]string {
	o := core.SearchOptions{Collection: coll, TopK: 100}
	m := map[string]string{}
	put := func(name, v string, err error) {
		if err != nil {
			h.CheckInfra(err)
			e.C.Fatalf("%s in collection %q: %v", name, coll, err)
		}
		m[name] = v
	}
	v, err := ids(s.Search(e.Ctx, q, o))
	put("search", v, err)
	v, err = ids(s.SearchWithFilter(e.Ctx, q, o, map[string]interface{}{"type": typ}))
	put("searchWithFilter", v, err)
	v, err = ids(s.HybridSearch(e.Ctx, q, word, core.HybridSearchOptions{SearchOptions: o}))
	put("hybrid", v, err)
	v, err = ids(s.HybridSearch(e.Ctx, nil, word, core.HybridSearchOptions{SearchOptions: o}))
	put("keyword", v, err)
	v, err = ids(s.SearchWithACL(e.Ctx, q, []string{"u1"}, o))
	put("acl", v, err)
	v, err = ids(s.RangeSearch(e.Ctx, q, 0.77, o))
	put("range", v, err)
	x := &core.FilterExpression{Operator: core.FilterEQ, Field: "type", Value: typ}
	v, err = ids(s.SearchWithAdvancedFilter(e.Ctx, q, core.AdvancedSearchOptions{SearchOptions: o, PreFilter: x}))
	put("advanced", v, err)
	y := &core.FilterExpression{Operator: core.FilterOR, Children: []*core.FilterExpression{x, {Operator: core.FilterNE, Field: "lang", Value: "en"}}}
	v, err = ids(s.SearchWithAdvancedFilter(e.Ctx, q, core.AdvancedSearchOptions{SearchOptions: o, PreFilter: y}))
	put("advanced-or", v, err)
	fres, counts, err := s.SearchWithFacets(e.Ctx, q, core.FacetedSearchOptions{SearchOptions: o, Facets: map[string]core.FacetFilter{"type": {Type: core.FilterTypeExists}}, ReturnFacets: true, MaxFacetValues: 100})
	v, err = ids(fres, err)
	for _, f := range counts {
		v += fmt.Sprintf(" %s %d", h.MS(f.Values), f.Total)
	}
	put("facets", v, err)
	v, err = ids(s.SearchWithNegatives(e.Ctx, core.NegativeSearchOptions{PositiveVectors: [][]float32{q}, SearchOptions: o}))
	put("negatives", v, err)
	v, err = ids(s.SearchWithDiversity(e.Ctx, q, core.DiversitySearchOptions{Lambda: 0.5, Method: core.DiversityMMR, SearchOptions: o}))
	put("diversity", v, err)
	v, err = ids(s.FindAnomalies(e.Ctx, o))
	put("anomalies", v, err)
	ch, err := s.StreamSearch(e.Ctx, q, core.StreamingOptions{SearchOptions: o, BatchSize: 3, MaxLatency: 10 * time.Second})
	var st []core.ScoredEmbedding
	if err == nil {
		for r := range ch {
			if r.ScoredEmbedding.ID != "" {
				st = append(st, r.ScoredEmbedding)
			}
		}
	}
	v, err = ids(st, err)
	put("stream", v, err)
	cs, err := s.GetCollectionStats(e.Ctx, coll)
	if err == nil {
		v = fmt.Sprint(cs.Count)
	}
	put("stats", v, err)
	ag, err := s.Aggregate(e.Ctx, core.AggregationRequest{Type: core.AggregationCount, Collection: coll})
	if err == nil {
		v = ""
		for _, r := range ag.Results {
			v += fmt.Sprint(r.Count, r.Value)
		}
	}
	put("aggregate", v, err)
	return m
}

// What a collection shows depends on its own records only: it equals what a store shows
// that never held anything else.
func TestIsolation(t *testing.T) {
	h.Check(t, h.Opt{Quick: 120, Thorough: 3000, Steps: 20}, func(c *h.C) {
		hnsw := rapid.Bool().Draw(c.T, "hnsw")
		edit := func(cfg *core.Config) { cfg.HNSW.Enabled = hnsw }
		e := mdl.NewEnv(c, 2, edit)
		e.ContFn = words
		e.NZ = true
		e.NIDs = 16
		e.WithACL = true
		e.Prepare(c.T)
		e.Fill(c.T, rapid.IntRange(4, 12).Draw(c.T, "n"))
		acts := e.Actions()
		delete(acts, "clear")
		c.T.Repeat(acts)
		q := e.Q(c.T)
		word := rapid.SampledFrom(h.Words[:4]).Draw(c.T, "word")
		typ := rapid.SampledFrom(mdl.MetaVals[:4]).Draw(c.T, "typ")
		full := 0
		for coll := range e.Colls {
			// a store with this collection alone
			own := mdl.NewEnv(c, 2, edit)
			if coll != "default" {
				own.CreateCollection(coll)
			}
			for d, a := range e.Docs {
				own.CreateDocument(d, a)
			}
			n := 0
			for _, id := range e.IDs() {
				if r := e.Recs[id]; r.Coll == coll {
					own.Upsert(r)
					n++
				}
			}
			if n > 0 && n < len(e.Recs) {
				full++
			}
			got, want := views(e, e.S, coll, q, word, typ), views(own, own.S, coll, q, word, typ)
			for k, w := range want {
				if got[k] != w {
					c.Fatalf("%s in collection %q (query %s, word %s, type %s) shows %s; alone it shows %s", k, coll, h.VS(q), word, typ, got[k], w)
				}
			}
		}
		if full >= 2 {
			c.NonTrivial()
		}
	})
}
