package p06

import (
	"testing"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"github.com/liliang-cn/cortexdb/v2/verifharness/mdl"
	"pgregory.net/rapid"
)

// allowed is the rule: a record's own list decides, or else its document's; no list is public.
func allowed(e *mdl.Env, r *mdl.Rec, who []string) bool {
	list := r.ACL
	if len(list) == 0 && r.Doc != "" {
		list = e.Docs[r.Doc]
	}
	if len(list) == 0 {
		return true
	}
	for _, a := range list {
		for _, w := range who {
			if a == w {
				return true
			}
		}
	}
	return false
}

func TestACL(t *testing.T) {
	h.Check(t, h.Opt{Quick: 250, Thorough: 6000, Steps: 20}, func(c *h.C) {
		hnsw := rapid.Bool().Draw(c.T, "hnsw")
		e := mdl.NewEnv(c, 2, func(cfg *core.Config) { cfg.HNSW.Enabled = hnsw })
		e.WithACL = true
		e.Big = 200
		e.Prepare(c.T)
		e.Fill(c.T, rapid.IntRange(2, 10).Draw(c.T, "n"))
		nt := false
		acts := e.Actions()
		acts["setDocACL"] = func(t *rapid.T) {
			d := rapid.SampledFrom(mdl.DocIDs).Draw(t, "doc")
			if _, ok := e.Docs[d]; !ok {
				return
			}
			a := mdl.ACL(t)
			c.Op("document %q acl=%v", d, a)
			c.Must(e.S.UpdateDocument(e.Ctx, &core.Document{ID: d, Title: "t", Version: 2, ACL: a}), "update document")
			e.Docs[d] = a
		}
		search := func(t *rapid.T) {
			q, o := e.Q(t), e.Opts(t)
			who := rapid.SliceOfN(rapid.SampledFrom(append([]string{"nobody", "group:xx", "U1", "%"}, mdl.Users...)), 0, 3).Draw(t, "who")
			c.Op("searchACL %q %s", who, mdl.OS(o))
			res, err := e.S.SearchWithACL(e.Ctx, q, who, o)
			c.Must(err, "search")
			ids, sc := e.Split(res)
			for _, id := range ids {
				if r := e.Recs[id]; r == nil || !allowed(e, r, who) {
					c.Fatalf("caller %q was given %q, which only %v (document: %v) may see", who, id, r, e.Docs[r.Doc])
				}
			}
			want := e.Eligible(q, h.Cosine, func(r *mdl.Rec) bool { return allowed(e, r, who) && mdl.Match(r, o) })
			if m := h.CheckTopK(ids, sc, want, o.TopK, 1e-9); m != "" {
				c.Fatalf("caller %q %s: %s", who, mdl.OS(o), m)
			}
			hidden := 0
			for _, r := range e.Recs {
				if mdl.Match(r, o) && !allowed(e, r, who) {
					hidden++
				}
			}
			if hidden > 0 {
				nt = true
				if len(want) > 0 {
					c.Class("some-hidden-some-shown")
				}
			}
		}
		acts["search"], acts["search2"], acts["search3"], acts["search4"] = search, search, search, search
		c.T.Repeat(acts)
		search(c.T)
		if nt {
			c.NonTrivial()
		}
	})
}
