package p08

import (
	"fmt"
	"strconv"
	"strings"
	"testing"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"github.com/liliang-cn/cortexdb/v2/verifharness/mdl"
	"pgregory.net/rapid"
)

var textFields = []string{"type", "lang", "a.b", "with space"}
var numFields = []string{"n", "price"}
var texts = []string{"x", "y", "en", "it's", "x%", "a_b", "X", "日本", "xy", "a>b", "k:v", "x y", "a AND b", "x OR y", "(x", "a, b", "p IN q", "k BETWEEN 1", "true", "false"}
var nums = []string{"1", "2", "5", "10", "2.5", "-3", "100", "0", "0.00001", "1000000", "20240115"}

func meta(t *rapid.T) map[string]string {
	if rapid.IntRange(0, 7).Draw(t, "nometa") == 0 {
		return nil
	}
	m := map[string]string{}
	for _, f := range textFields {
		if rapid.Bool().Draw(t, "has") {
			m[f] = rapid.SampledFrom(texts).Draw(t, "v")
		}
	}
	for _, f := range numFields {
		if rapid.Bool().Draw(t, "has") {
			m[f] = rapid.SampledFrom(nums).Draw(t, "n")
		}
	}
	return m
}

func num(t *rapid.T) interface{} {
	s := rapid.SampledFrom(nums).Draw(t, "num")
	f, _ := strconv.ParseFloat(s, 64)
	switch rapid.IntRange(0, 2).Draw(t, "as") {
	case 0:
		return s
	case 1:
		if f == float64(int(f)) {
			return int(f)
		}
	}
	return f
}

// val draws a text value, a truth value now and then as a bool.
func val(t *rapid.T, label string) interface{} {
	s := rapid.SampledFrom(texts).Draw(t, label)
	if (s == "true" || s == "false") && rapid.Bool().Draw(t, "bool") {
		return s == "true"
	}
	return s
}

func num2f(v interface{}) float64 {
	f, _ := strconv.ParseFloat(fmt.Sprint(v), 64)
	return f
}

// str is the text that a value is stored as.
func str(v interface{}) string {
	if f, ok := v.(float64); ok {
		return strconv.FormatFloat(f, 'f', -1, 64)
	}
	return fmt.Sprint(v)
}

// expr draws a filter expression; builder-only forms stay within what text can express.
func expr(t *rapid.T, depth int, textual bool) *core.FilterExpression {
	k := rapid.IntRange(0, 9).Draw(t, "node")
	if depth > 0 && k < 5 {
		op := rapid.SampledFrom([]core.FilterOperator{core.FilterAND, core.FilterOR, core.FilterNOT}).Draw(t, "op")
		if op == core.FilterNOT {
			if textual {
				op = core.FilterAND
			} else {
				return &core.FilterExpression{Operator: op, Children: []*core.FilterExpression{expr(t, depth-1, textual)}}
			}
		}
		e := &core.FilterExpression{Operator: op}
		for n := rapid.IntRange(2, 3).Draw(t, "nch"); n > 0; n-- {
			e.Children = append(e.Children, expr(t, depth-1, textual))
		}
		return e
	}
	if rapid.Bool().Draw(t, "numeric") {
		f := rapid.SampledFrom(numFields).Draw(t, "f")
		op := rapid.SampledFrom([]core.FilterOperator{core.FilterEQ, core.FilterNE, core.FilterGT, core.FilterGTE, core.FilterLT, core.FilterLTE, core.FilterBETWEEN, core.FilterIN}).Draw(t, "nop")
		switch op {
		case core.FilterBETWEEN:
			return &core.FilterExpression{Operator: op, Field: f, Value: []interface{}{num(t), num(t)}}
		case core.FilterIN:
			return &core.FilterExpression{Operator: op, Field: f, Value: []interface{}{num(t), num(t)}}
		}
		return &core.FilterExpression{Operator: op, Field: f, Value: num(t)}
	}
	f := rapid.SampledFrom(textFields).Draw(t, "f")
	ops := []core.FilterOperator{core.FilterEQ, core.FilterNE, core.FilterIN}
	if !textual {
		ops = append(ops, core.FilterLIKE)
	}
	v := func() interface{} { return val(t, "v") }
	switch op := rapid.SampledFrom(ops).Draw(t, "top"); op {
	case core.FilterIN:
		return &core.FilterExpression{Operator: op, Field: f, Value: []interface{}{v(), v()}}
	case core.FilterLIKE:
		return &core.FilterExpression{Operator: op, Field: f, Value: rapid.SampledFrom([]string{"x%", "%y", "%a%", "_", "x_", "it's", "%", "X%", "日%", "a.b"}).Draw(t, "pat")}
	default:
		return &core.FilterExpression{Operator: op, Field: f, Value: v()}
	}
}

func like(p, s []rune) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	switch p[0] {
	case '%':
		for i := 0; i <= len(s); i++ {
			if like(p[1:], s[i:]) {
				return true
			}
		}
		return false
	case '_':
		return len(s) > 0 && like(p[1:], s[1:])
	}
	return len(s) > 0 && p[0] == s[0] && like(p[1:], s[1:])
}

// match is the reference meaning of an expression.
func match(e *core.FilterExpression, m map[string]string) bool {
	switch e.Operator {
	case core.FilterAND:
		for _, x := range e.Children {
			if !match(x, m) {
				return false
			}
		}
		return true
	case core.FilterOR:
		for _, x := range e.Children {
			if match(x, m) {
				return true
			}
		}
		return false
	case core.FilterNOT:
		return !match(e.Children[0], m)
	}
	v, ok := m[e.Field]
	if e.Operator == core.FilterNE {
		return !ok || v != str(e.Value)
	}
	if !ok {
		return false
	}
	switch e.Operator {
	case core.FilterEQ:
		return v == str(e.Value)
	case core.FilterIN:
		for _, x := range e.Value.([]interface{}) {
			if v == str(x) {
				return true
			}
		}
		return false
	case core.FilterLIKE:
		return like([]rune(strings.ToLower(e.Value.(string))), []rune(strings.ToLower(v)))
	case core.FilterBETWEEN:
		b := e.Value.([]interface{})
		return num2f(v) >= num2f(b[0]) && num2f(v) <= num2f(b[1])
	case core.FilterGT:
		return num2f(v) > num2f(e.Value)
	case core.FilterGTE:
		return num2f(v) >= num2f(e.Value)
	case core.FilterLT:
		return num2f(v) < num2f(e.Value)
	case core.FilterLTE:
		return num2f(v) <= num2f(e.Value)
	}
	panic("operator " + e.Operator)
}

func show(e *core.FilterExpression) string {
	if len(e.Children) > 0 {
		var s []string
		for _, c := range e.Children {
			s = append(s, show(c))
		}
		return string(e.Operator) + "(" + strings.Join(s, ", ") + ")"
	}
	return fmt.Sprintf("%s %s %#v", e.Field, e.Operator, e.Value)
}

// text renders an expression in the filter language.
func text(t *rapid.T, e *core.FilterExpression, top bool) string {
	val := func(v interface{}) string {
		s, ok := v.(string)
		if !ok {
			return str(v)
		}
		switch s {
		case "x", "y", "en", "X", "xy", "a_b", "日本":
			// a single word needs no quotes
			if rapid.IntRange(0, 2).Draw(t, "bare") == 0 {
				return s
			}
		}
		if strings.Contains(s, "'") {
			return `"` + s + `"`
		}
		return "'" + s + "'"
	}
	switch e.Operator {
	case core.FilterAND, core.FilterOR:
		var s []string
		for _, c := range e.Children {
			s = append(s, text(t, c, e.Operator == core.FilterOR && c.Operator == core.FilterAND))
		}
		r := strings.Join(s, " "+string(e.Operator)+" ")
		if !top || rapid.IntRange(0, 4).Draw(t, "extra") == 0 {
			r = "(" + r + ")"
		}
		return r
	case core.FilterIN:
		var s []string
		for _, x := range e.Value.([]interface{}) {
			s = append(s, val(x))
		}
		return e.Field + " IN (" + strings.Join(s, ", ") + ")"
	case core.FilterBETWEEN:
		b := e.Value.([]interface{})
		return e.Field + " BETWEEN " + str(b[0]) + " AND " + str(b[1])
	case core.FilterEQ:
		return e.Field + rapid.SampledFrom([]string{"=", ":", " = ", ":="}).Draw(t, "eq") + val(e.Value)
	}
	return e.Field + rapid.SampledFrom([]string{"", " "}).Draw(t, "sp") + string(e.Operator) + " " + val(e.Value)
}

func fill(c *h.C) *mdl.Env {
	e := mdl.NewEnv(c, 2, func(cfg *core.Config) { cfg.HNSW.Enabled = rapid.Bool().Draw(c.T, "hnsw") })
	if !e.Cfg.HNSW.Enabled {
		e.Big = 200
	}
	e.BigMeta = func(pick func(int) int) map[string]string {
		m := map[string]string{}
		for _, f := range textFields {
			if pick(2) == 0 {
				m[f] = texts[pick(len(texts))]
			}
		}
		for _, f := range numFields {
			if pick(2) == 0 {
				m[f] = nums[pick(len(nums))]
			}
		}
		return m
	}
	e.Prepare(c.T)
	n := rapid.IntRange(3, 12).Draw(c.T, "n")
	for i := 0; i < n; i++ {
		r := &mdl.Rec{ID: h.IDs[i], Vec: h.NZVec(c.T, 2, "v"), Meta: meta(c.T)}
		if rapid.Bool().Draw(c.T, "coll") && e.Colls["c1"] {
			r.Coll = "c1"
		}
		e.Upsert(r)
	}
	return e
}

func check(c *h.C, e *mdl.Env, what string, res []core.ScoredEmbedding, err error, q []float32, k int, f func(*mdl.Rec) bool) int {
	c.Must(err, "%s", what)
	ids, sc := e.Split(res)
	want := e.Eligible(q, h.Cosine, f)
	if m := h.CheckTopK(ids, sc, want, k, 1e-9); m != "" {
		c.Fatalf("%s: %s", what, m)
	}
	return len(want)
}

// The same expression means the same before and after scoring, parsed from text, and
// when deleting.
func TestExpressions(t *testing.T) {
	h.Check(t, h.Opt{Quick: 300, Thorough: 8000}, func(c *h.C) {
		e := fill(c)
		for i := 0; i < 5; i++ {
			q := e.Q(c.T)
			textual := rapid.Bool().Draw(c.T, "textual")
			x := expr(c.T, 3, textual)
			o := core.SearchOptions{TopK: rapid.SampledFrom([]int{2, 100}).Draw(c.T, "k")}
			if rapid.IntRange(0, 3).Draw(c.T, "qc") == 0 {
				o.Collection = "c1"
			}
			c.Op("filter %s k=%d coll=%q", show(x), o.TopK, o.Collection)
			f := func(r *mdl.Rec) bool { return mdl.Match(r, o) && match(x, r.Meta) }
			res, err := e.S.SearchWithAdvancedFilter(e.Ctx, q, core.AdvancedSearchOptions{SearchOptions: o, PreFilter: x})
			n := check(c, e, "pre-filter "+show(x), res, err, q, o.TopK, f)
			res, err = e.S.SearchWithAdvancedFilter(e.Ctx, q, core.AdvancedSearchOptions{SearchOptions: o, PostFilter: x})
			check(c, e, "post-filter "+show(x), res, err, q, o.TopK, f)
			if n > 0 && n < len(e.Recs) {
				c.NonTrivial()
			}
			want := map[string]interface{}{}
			for n := rapid.IntRange(1, 2).Draw(c.T, "nmap"); n > 0; n-- {
				if rapid.Bool().Draw(c.T, "mapnum") {
					want[rapid.SampledFrom(numFields).Draw(c.T, "mk")] = num(c.T)
				} else {
					want[rapid.SampledFrom(textFields).Draw(c.T, "mk")] = val(c.T, "mv")
				}
			}
			res, err = e.S.SearchWithFilter(e.Ctx, q, o, want)
			check(c, e, "filter map "+h.MS(want), res, err, q, o.TopK, func(r *mdl.Rec) bool {
				for k, v := range want {
					if x, ok := r.Meta[k]; !ok || x != str(v) {
						return false
					}
				}
				return mdl.Match(r, o)
			})
			y := expr(c.T, 1, false)
			res, err = e.S.SearchWithAdvancedFilter(e.Ctx, q, core.AdvancedSearchOptions{SearchOptions: o, PreFilter: x, PostFilter: y})
			check(c, e, "pre and post filter", res, err, q, o.TopK, func(r *mdl.Rec) bool { return f(r) && match(y, r.Meta) })
			if textual {
				s := text(c.T, x, true)
				c.Op("text %s", s)
				p, err := core.ParseFilterString(s)
				c.Must(err, "parse %s", s)
				for id, r := range e.Recs {
					if match(p, r.Meta) != match(x, r.Meta) {
						c.Fatalf("%s parsed to %s, which differs from %s on %q %s", s, show(p), show(x), id, h.MS(r.Meta))
					}
				}
				res, err = e.S.SearchWithAdvancedFilter(e.Ctx, q, core.AdvancedSearchOptions{SearchOptions: o, PreFilter: p})
				check(c, e, "parsed "+s, res, err, q, o.TopK, f)
				c.Class("parsed")
			}
		}
		// deletion removes what the filter matches, and nothing else
		mf, x := builder(c.T)
		c.Op("deleteByFilter %s", show(x))
		c.Must(e.S.DeleteByFilter(e.Ctx, mf), "deleteByFilter")
		e.DeleteWhere(func(r *mdl.Rec) bool { return match(x, r.Meta) })
		e.CheckAll()
		q := []float32{1, 0}
		res, err := e.S.Search(e.Ctx, q, core.SearchOptions{TopK: 300})
		check(c, e, "search after deletion", res, err, q, 300, nil)
	})
}

// builder draws a filter through the fluent interface, with its meaning.
func builder(t *rapid.T) (*core.MetadataFilter, *core.FilterExpression) {
	f := core.NewMetadataFilter()
	var all *core.FilterExpression
	and := func(x *core.FilterExpression) {
		if all == nil {
			all = x
		} else {
			all = &core.FilterExpression{Operator: core.FilterAND, Children: []*core.FilterExpression{all, x}}
		}
	}
	leaf := func(op core.FilterOperator, k string, v interface{}) *core.FilterExpression {
		return &core.FilterExpression{Operator: op, Field: k, Value: v}
	}
	for n := rapid.IntRange(1, 3).Draw(t, "nb"); n > 0; n-- {
		k := rapid.SampledFrom(numFields).Draw(t, "bf")
		a, b := num(t), num(t)
		tk := rapid.SampledFrom(textFields).Draw(t, "btf")
		v, w := rapid.SampledFrom(texts).Draw(t, "bv"), rapid.SampledFrom(texts).Draw(t, "bw")
		switch rapid.IntRange(0, 12).Draw(t, "bop") {
		case 0:
			f.Equal(tk, v)
			and(leaf(core.FilterEQ, tk, v))
		case 1:
			f.NotEqual(tk, v)
			and(leaf(core.FilterNE, tk, v))
		case 2:
			f.GreaterThan(k, a)
			and(leaf(core.FilterGT, k, a))
		case 3:
			f.LessThan(k, a)
			and(leaf(core.FilterLT, k, a))
		case 4:
			f.GreaterThanOrEqual(k, a)
			and(leaf(core.FilterGTE, k, a))
		case 5:
			f.LessThanOrEqual(k, a)
			and(leaf(core.FilterLTE, k, a))
		case 6:
			f.Between(k, a, b)
			and(leaf(core.FilterBETWEEN, k, []interface{}{a, b}))
		case 7:
			f.In(tk, v, w)
			and(leaf(core.FilterIN, tk, []interface{}{v, w}))
		case 8:
			f.StringIn(tk, v, w)
			and(leaf(core.FilterIN, tk, []interface{}{v, w}))
		case 9:
			f.NotIn(tk, v, w)
			and(&core.FilterExpression{Operator: core.FilterNOT, Children: []*core.FilterExpression{leaf(core.FilterIN, tk, []interface{}{v, w})}})
		case 10:
			p := rapid.SampledFrom([]string{"x%", "%y", "_"}).Draw(t, "bp")
			f.Like(tk, p)
			and(leaf(core.FilterLIKE, tk, p))
		case 11:
			f.Or(core.NewMetadataFilter().Equal(tk, v))
			if all == nil {
				all = leaf(core.FilterEQ, tk, v)
			} else {
				all = &core.FilterExpression{Operator: core.FilterOR, Children: []*core.FilterExpression{all, leaf(core.FilterEQ, tk, v)}}
			}
		case 12:
			f.And(core.NewMetadataFilter().GreaterThan(k, a).Equal(tk, v))
			and(leaf(core.FilterGT, k, a))
			and(leaf(core.FilterEQ, tk, v))
		}
	}
	return f, all
}

func facet(t *rapid.T, depth int) (core.FacetFilter, func(v string, ok bool) bool) {
	any := func(label string) interface{} {
		if rapid.Bool().Draw(t, "numeric") {
			return num(t)
		}
		return val(t, label)
	}
	n := 5
	if depth > 0 {
		n = 7
	}
	switch rapid.IntRange(0, n).Draw(t, "ft") {
	case 0:
		v := any("fv")
		return core.FacetFilter{Type: core.FilterTypeEquals, Values: []interface{}{v}}, func(x string, ok bool) bool { return ok && x == str(v) }
	case 1:
		v, w := any("fv"), any("fw")
		return core.FacetFilter{Type: core.FilterTypeIn, Values: []interface{}{v, w}}, func(x string, ok bool) bool { return ok && (x == str(v) || x == str(w)) }
	case 2:
		v := rapid.SampledFrom([]string{"x", "%", "_", "a", "X", "5", "日"}).Draw(t, "fp")
		return core.FacetFilter{Type: core.FilterTypeContains, Pattern: v}, func(x string, ok bool) bool {
			return ok && strings.Contains(strings.ToLower(x), strings.ToLower(v))
		}
	case 3:
		v := rapid.SampledFrom([]string{"x", "%", "_", "a", "1", "it'"}).Draw(t, "fp")
		return core.FacetFilter{Type: core.FilterTypePrefix, Pattern: v}, func(x string, ok bool) bool {
			return ok && strings.HasPrefix(strings.ToLower(x), strings.ToLower(v))
		}
	case 4:
		return core.FacetFilter{Type: core.FilterTypeExists}, func(x string, ok bool) bool { return ok }
	case 5:
		f := core.FacetFilter{Type: core.FilterTypeRange}
		lo, hi := num(t), num(t)
		which := rapid.IntRange(1, 3).Draw(t, "bounds")
		if which&1 != 0 {
			f.Min = lo
		}
		if which&2 != 0 {
			f.Max = hi
		}
		return f, func(x string, ok bool) bool {
			return ok && (which&1 == 0 || num2f(x) >= num2f(lo)) && (which&2 == 0 || num2f(x) <= num2f(hi))
		}
	}
	op := rapid.SampledFrom([]core.LogicalOperator{core.OperatorAND, core.OperatorOR, core.OperatorNOT}).Draw(t, "fop")
	f := core.FacetFilter{Type: core.FilterTypeNested, Operator: op}
	var fs []func(string, bool) bool
	for n := rapid.IntRange(1, 3).Draw(t, "fn"); n > 0; n-- {
		x, g := facet(t, depth-1)
		f.Nested = append(f.Nested, x)
		fs = append(fs, g)
	}
	return f, func(x string, ok bool) bool {
		for _, g := range fs {
			r := g(x, ok)
			if op == core.OperatorOR && r {
				return true
			}
			if op != core.OperatorOR && !r {
				return op == core.OperatorNOT
			}
		}
		return op == core.OperatorAND
	}
}

func hasRange(f core.FacetFilter) bool {
	if f.Type == core.FilterTypeRange {
		return true
	}
	for _, n := range f.Nested {
		if hasRange(n) {
			return true
		}
	}
	return false
}

// Faceted search keeps exactly the records that satisfy every facet, and counts values.
func TestFacets(t *testing.T) {
	h.Check(t, h.Opt{Quick: 300, Thorough: 8000}, func(c *h.C) {
		e := fill(c)
		for i := 0; i < 4; i++ {
			q := e.Q(c.T)
			fs := map[string]core.FacetFilter{}
			gs := map[string]func(string, bool) bool{}
			for n := rapid.IntRange(1, 2).Draw(c.T, "nfacets"); n > 0; n-- {
				f, g := facet(c.T, 2)
				field := rapid.SampledFrom(append(append([]string{}, textFields...), numFields...)).Draw(c.T, "field")
				if hasRange(f) { // ranges are about numbers
					field = rapid.SampledFrom(numFields).Draw(c.T, "nfield")
				}
				fs[field], gs[field] = f, g
			}
			o := core.SearchOptions{TopK: rapid.SampledFrom([]int{2, 100}).Draw(c.T, "k")}
			if rapid.IntRange(0, 3).Draw(c.T, "qc") == 0 {
				o.Collection = "c1"
			}
			c.Op("facets %s k=%d coll=%q", h.MS(fs), o.TopK, o.Collection)
			res, counts, err := e.S.SearchWithFacets(e.Ctx, q, core.FacetedSearchOptions{SearchOptions: o, Facets: fs, ReturnFacets: true, MaxFacetValues: 1000})
			n := check(c, e, "facets "+h.MS(fs), res, err, q, o.TopK, func(r *mdl.Rec) bool {
				for field, g := range gs {
					v, ok := r.Meta[field]
					if !g(v, ok) {
						return false
					}
				}
				return mdl.Match(r, o)
			})
			if n > 0 && n < len(e.Recs) {
				c.NonTrivial()
			}
			counted := map[string]core.FacetResult{}
			for _, fr := range counts {
				counted[fr.Field] = fr
			}
			for field := range fs {
				fr := counted[field]
				want := map[string]int{}
				total := 0
				for _, r := range e.Recs {
					if v, ok := r.Meta[field]; ok && mdl.Match(r, o) {
						want[v]++
						total++
					}
				}
				if fr.Values == nil {
					fr.Values = map[string]int{}
				}
				if h.MS(want) != h.MS(fr.Values) || total != fr.Total {
					c.Fatalf("facet %q counts %s total %d, want %s total %d", field, h.MS(fr.Values), fr.Total, h.MS(want), total)
				}
			}
		}
	})
}

// Any text is either a filter, which then searches, or refused.
func TestAnyText(t *testing.T) {
	h.Check(t, h.Opt{Quick: 3000, Thorough: 60000}, func(c *h.C) {
		word := rapid.SampledFrom([]string{"type", "n", "'", "\"", "(", ")", " AND ", " OR ", " IN ", " BETWEEN ", " ", "=", ":", ">", "<=", "!=", ":=", ",", "1", "x", "é", "NOT ", "\x00", "%"})
		s := strings.Join(rapid.SliceOfN(word, 0, 12).Draw(c.T, "words"), "")
		c.Op("parse %q", s)
		x, err := core.ParseFilterString(s)
		if err != nil {
			return
		}
		if x == nil {
			c.Fatalf("%q is neither a filter nor refused", s)
		}
		c.NonTrivial()
		n := 0
		clause, args := core.BuildSQLFromFilter(x, &n)
		if strings.Count(clause, "?") != len(args) {
			c.Fatalf("%q: %d parameters for %s", s, len(args), clause)
		}
	})
}
