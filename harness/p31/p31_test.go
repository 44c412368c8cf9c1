package p31

import (
	"context"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"slices"
	"sort"
	"strconv"
	"testing"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"github.com/liliang-cn/cortexdb/v2/verifharness/mdl"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

var (
	numKeys  = []string{"price", "n items", "a.b", "count"}
	textKeys = []string{"cat", "my-lang", "group", "it's", "x.y"}
	textVals = []string{"red", "green", "blue", "it's", "日本", "red ", "Red", "", "true", "false"}
	numVals  = []string{"0", "1", "2", "5", "10", "-3", "2.5", "0.25", "1000"}
)

func meta(t *rapid.T) map[string]string {
	if rapid.IntRange(0, 7).Draw(t, "no metadata") == 0 {
		return nil
	}
	m := map[string]string{}
	for _, k := range numKeys {
		if rapid.Bool().Draw(t, k) {
			m[k] = rapid.SampledFrom(numVals).Draw(t, "number")
		}
	}
	for _, k := range textKeys {
		if rapid.Bool().Draw(t, k) {
			m[k] = rapid.SampledFrom(textVals).Draw(t, "text")
		}
	}
	return m
}

// matches is the meaning of the filters of a request.
func matches(m map[string]string, f map[string]any) bool {
	for k, v := range f {
		got, ok := m[k]
		if !ok || got != text(v) {
			return false
		}
	}
	return true
}

func text(v any) string {
	if f, ok := v.(float64); ok {
		return strconv.FormatFloat(f, 'f', -1, 64)
	}
	return fmt.Sprint(v)
}

type group struct {
	keys  []*string
	count int
	vals  []float64 // numbers of the aggregated field
}

func num(s string) float64 {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic(err)
	}
	return f
}

func agg(typ core.AggregationType, v []float64) (float64, bool) {
	if len(v) == 0 {
		return 0, false
	}
	r := v[0]
	for _, x := range v[1:] {
		switch typ {
		case core.AggregationMin:
			r = math.Min(r, x)
		case core.AggregationMax:
			r = math.Max(r, x)
		default:
			r += x
		}
	}
	if typ == core.AggregationAvg {
		r /= float64(len(v))
	}
	return r, true
}

func keyOf(m map[string]string, f string) *string {
	if v, ok := m[f]; ok {
		return &v
	}
	return nil
}

// sameKey compares a reported group key with a metadata value: a number may be reported as one.
func sameKey(got any, want *string) bool {
	switch g := got.(type) {
	case nil:
		return want == nil
	case string:
		return want != nil && g == *want
	case float64:
		if want == nil {
			return false
		}
		f, err := strconv.ParseFloat(*want, 64)
		return err == nil && f == g
	}
	return false
}

func number(v any) (float64, bool) {
	switch x := v.(type) {
	case float64:
		return x, true
	case int:
		return float64(x), true
	case int64:
		return float64(x), true
	}
	return 0, false
}

func TestAggregate(t *testing.T) {
	h.Check(t, h.Opt{Quick: 150, Thorough: 5000}, func(c *h.C) {
		e := mdl.NewEnv(c, 2, nil)
		ctx := context.Background()
		for _, n := range mdl.CollNames {
			_, err := e.S.CreateCollection(ctx, n, 2)
			c.Must(err, "CreateCollection")
		}
		type rec struct {
			coll string
			meta map[string]string
		}
		recs := map[string]rec{}
		put := func() {
			id := h.ID(c.T, 24, "id")
			r := rec{coll: rapid.SampledFrom(append([]string{"", "default"}, mdl.CollNames...)).Draw(c.T, "coll"), meta: meta(c.T)}
			c.Op("put %q in %q %s", id, r.coll, h.MS(r.meta))
			c.Must(e.S.Upsert(ctx, &core.Embedding{ID: id, Collection: r.coll, Vector: []float32{1, 2}, Content: "x", Metadata: r.meta}), "Upsert")
			if r.coll == "" {
				r.coll = "default"
			}
			recs[id] = r
		}
		for i := rapid.IntRange(0, 14).Draw(c.T, "records"); i > 0; i-- {
			put()
		}
		for q := rapid.IntRange(1, 6).Draw(c.T, "queries"); q > 0; q-- {
			if rapid.IntRange(0, 3).Draw(c.T, "change") == 0 {
				put()
			}
			req := core.AggregationRequest{Type: rapid.SampledFrom([]core.AggregationType{core.AggregationCount, core.AggregationSum, core.AggregationAvg, core.AggregationMin, core.AggregationMax, core.AggregationGroupBy}).Draw(c.T, "type")}
			req.Collection = rapid.SampledFrom(append([]string{"", "", "default", "nowhere"}, mdl.CollNames...)).Draw(c.T, "collection")
			numeric := req.Type != core.AggregationCount && req.Type != core.AggregationGroupBy
			if numeric {
				req.Field = rapid.SampledFrom(numKeys).Draw(c.T, "field")
			}
			if req.Type == core.AggregationGroupBy || rapid.Bool().Draw(c.T, "grouped") {
				req.GroupBy = rapid.SliceOfNDistinct(rapid.SampledFrom(append(append([]string{}, textKeys...), numKeys...)), 1, 2, rapid.ID[string]).Draw(c.T, "group by")
			}
			if rapid.IntRange(0, 2).Draw(c.T, "filtered") == 0 {
				req.Filters = map[string]any{}
				for i := rapid.IntRange(1, 2).Draw(c.T, "filters"); i > 0; i-- {
					if rapid.Bool().Draw(c.T, "numeric filter") {
						v := rapid.SampledFrom(numVals).Draw(c.T, "value")
						var x any = v
						if n, err := strconv.Atoi(v); err == nil && rapid.Bool().Draw(c.T, "int") {
							x = n
						} else if rapid.Bool().Draw(c.T, "float") {
							x = num(v)
						}
						req.Filters[rapid.SampledFrom(numKeys).Draw(c.T, "filter key")] = x
					} else {
						var x any = rapid.SampledFrom(textVals).Draw(c.T, "value")
						if rapid.IntRange(0, 3).Draw(c.T, "bool") == 0 {
							x = rapid.Bool().Draw(c.T, "value")
						}
						req.Filters[rapid.SampledFrom(textKeys).Draw(c.T, "filter key")] = x
					}
				}
			}
			if len(req.GroupBy) > 0 {
				req.Limit = rapid.IntRange(0, 3).Draw(c.T, "limit")
				req.OrderBy = rapid.SampledFrom([]string{"", "", "agg_value"}).Draw(c.T, "order")
				if rapid.IntRange(0, 4).Draw(c.T, "having") == 0 {
					req.Having = map[string]any{"agg_value": rapid.IntRange(0, 4).Draw(c.T, "having value")}
					// where a grouping field has the same name, "count" means that field
					if !slices.Contains(req.GroupBy, "count") && rapid.Bool().Draw(c.T, "having count") {
						req.Having["count"] = rapid.IntRange(1, 3).Draw(c.T, "having members")
					}
				}
			}
			c.Op("aggregate %s %q by %q filters=%v in %q limit=%d order=%q having=%v", req.Type, req.Field, req.GroupBy, req.Filters, req.Collection, req.Limit, req.OrderBy, req.Having)
			resp, err := e.S.Aggregate(ctx, req)
			c.Must(err, "Aggregate")
			if resp.Total != len(resp.Results) {
				c.Fatalf("total %d of %d results", resp.Total, len(resp.Results))
			}

			// the answer by definition
			groups := map[string]*group{}
			selected := 0
			for _, r := range recs {
				if req.Collection != "" && r.coll != req.Collection || !matches(r.meta, req.Filters) {
					continue
				}
				selected++
				var name string
				g := &group{}
				for _, f := range req.GroupBy {
					k := keyOf(r.meta, f)
					g.keys = append(g.keys, k)
					if k == nil {
						name += "-\x00"
					} else {
						name += "+" + *k + "\x00"
					}
				}
				if groups[name] == nil {
					groups[name] = g
				}
				g = groups[name]
				v, has := r.meta[req.Field]
				if numeric && has {
					g.vals = append(g.vals, num(v))
				}
				g.count++
			}
			if selected > 0 && selected < len(recs) {
				c.NonTrivial()
			}

			if len(req.GroupBy) == 0 {
				g := groups[""]
				if g == nil {
					g = &group{}
				}
				if len(resp.Results) != 1 {
					c.Fatalf("%d results of an ungrouped aggregation", len(resp.Results))
				}
				r := resp.Results[0]
				want, count := float64(g.count), g.count
				if numeric {
					want, _ = agg(req.Type, g.vals)
					count = len(g.vals)
				}
				got, ok := number(r.Value)
				if !ok || !h.Near(got, want, 1e-9) || r.Count != count {
					c.Fatalf("%s = %v over %d records, want %v over %d", req.Type, r.Value, r.Count, want, count)
				}
				continue
			}
			c.Class("grouped")
			used := map[*group]bool{}
			for _, r := range resp.Results {
				var g *group
				for _, x := range groups {
					ok := !used[x]
					for i, f := range req.GroupBy {
						v, has := r.GroupKeys[f]
						ok = ok && has && sameKey(v, x.keys[i])
					}
					if ok {
						g = x
					}
				}
				if g == nil || len(r.GroupKeys) != len(req.GroupBy) {
					c.Fatalf("group %v does not exist or comes twice", r.GroupKeys)
				}
				used[g] = true
				if r.Count != g.count {
					c.Fatalf("group %v has %d members, want %d", r.GroupKeys, r.Count, g.count)
				}
				want, has := float64(g.count), true
				if numeric {
					want, has = agg(req.Type, g.vals)
				}
				got, ok := number(r.Value)
				if has && (!ok || !h.Near(got, want, 1e-9)) || !has && ok && got != 0 {
					c.Fatalf("%s of group %v = %v, want %v (%v)", req.Type, r.GroupKeys, r.Value, want, has)
				}
			}
			// those asked for, the largest first
			var values, all []float64
			for _, r := range resp.Results {
				v := float64(r.Count)
				if req.OrderBy != "" {
					v = -1e9
					if x, ok := number(r.Value); ok {
						v = x
					}
				}
				values = append(values, v)
			}
			for _, g := range groups {
				want, has := float64(g.count), true
				if numeric {
					want, has = agg(req.Type, g.vals)
				}
				w, ok := req.Having["agg_value"].(int)
				n, both := req.Having["count"].(int)
				if ok && (!has || want != float64(w)) || both && g.count != n {
					if used[g] {
						c.Fatalf("a group of value %v (%v) though %v was asked for", want, has, req.Having)
					}
					continue
				}
				if req.OrderBy == "" {
					want = float64(g.count)
				} else if !has {
					want = -1e9
				}
				all = append(all, want)
			}
			sort.Sort(sort.Reverse(sort.Float64Slice(all)))
			n := len(all)
			if req.Limit > 0 && req.Limit < n {
				n = req.Limit
				c.Class("limited")
			}
			if len(values) != n {
				c.Fatalf("%d groups, want %d", len(values), n)
			}
			for i := range values {
				if !h.Near(values[i], all[i], 1e-9) {
					c.Fatalf("groups ordered %v, want the first of %v", values, all)
				}
			}
		}
	})
}

// Aggregations that cannot be computed are refused.
func TestRefused(t *testing.T) {
	h.Check(t, h.Opt{Quick: 5, Thorough: 20}, func(c *h.C) {
		e := mdl.NewEnv(c, 2, nil)
		c.Must(e.S.Upsert(context.Background(), &core.Embedding{ID: "a", Vector: []float32{1, 2}, Metadata: map[string]string{"n": "1"}}), "Upsert")
		req := rapid.SampledFrom([]core.AggregationRequest{{}, {Type: "median", Field: "n"}, {Type: core.AggregationSum}, {Type: core.AggregationAvg}, {Type: core.AggregationMin}, {Type: core.AggregationMax}, {Type: core.AggregationGroupBy}}).Draw(c.T, "request")
		c.Op("aggregate %q %q", req.Type, req.Field)
		if _, err := e.S.Aggregate(context.Background(), req); err == nil {
			c.Fatalf("the request %+v is accepted", req)
		}
		c.NonTrivial()
	})
}
