// Package mdl is a reference model of the vector store (maps in memory) together with
// generated operations that are applied to the store and to the model alike.
package mdl

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"pgregory.net/rapid"
)

// Rec is what the store has to remember of an embedding.
type Rec struct {
	ID, Coll, Content, Doc string
	Vec                    []float32
	Meta                   map[string]string
	ACL                    []string
}

// Env is a store under test with its model.
type Env struct {
	C       *h.C
	S       *core.SQLiteStore
	Cfg     core.Config
	Dim     int
	NIDs    int
	Recs    map[string]*Rec
	Colls   map[string]bool
	Docs    map[string][]string // document id -> ACL
	Ctx     context.Context
	WithACL bool
	ContFn  func(t *rapid.T) string // content generator
	NZ      bool                    // no zero vectors
	Big     int                     // Prepare sometimes stores up to this many records at once
	BigMeta func(pick func(n int) int) map[string]string

	Updates, Deletes, Reopens, Failures int
}

var CollNames = []string{"c1", "c_", "C'1", "Default"} // look-alikes: by case, as patterns
var DocIDs = []string{"doc1", "Doc1", "doc_", "d'3"}
var MetaKeys = []string{"type", "lang", "n", "a.b", "Type"}
var MetaVals = []string{"x", "y", "en", "5", "10", "it's", "日本", "x%", "true", "X", ""}

// NewEnv opens a fresh store.
func NewEnv(c *h.C, dim int, edit func(*core.Config)) *Env {
	cfg := core.DefaultConfig()
	cfg.Path = filepath.Join(c.Dir(), "t.db")
	cfg.VectorDim = dim
	if edit != nil {
		edit(&cfg)
	}
	e := &Env{C: c, Cfg: cfg, Dim: dim, NIDs: 12, Recs: map[string]*Rec{}, Colls: map[string]bool{"default": true}, Docs: map[string][]string{}, Ctx: context.Background()}
	e.Open()
	c.Defer(func() { _ = e.S.Close() })
	return e
}

func (e *Env) Open() {
	s, err := core.NewWithConfig(e.Cfg)
	e.C.Must(err, "open")
	e.C.Must(s.Init(e.Ctx), "init")
	e.S = s
}

// Reopen closes the store and opens the same file again.
func (e *Env) Reopen() {
	e.C.Op("reopen")
	e.Reopens++
	e.C.Must(e.S.Close(), "close")
	e.Open()
}

func (e *Env) content(t *rapid.T) string {
	if e.ContFn != nil {
		return e.ContFn(t)
	}
	return h.Text(t, "content")
}

// Meta draws metadata.
func Meta(t *rapid.T) map[string]string {
	n := rapid.IntRange(-1, 3).Draw(t, "nmeta")
	if n < 0 {
		return nil
	}
	m := map[string]string{}
	for i := 0; i < n; i++ {
		m[rapid.SampledFrom(MetaKeys).Draw(t, "mk")] = rapid.SampledFrom(MetaVals).Draw(t, "mv")
	}
	return m
}

// ACL draws an access control list; often none.
func ACL(t *rapid.T) []string {
	n := rapid.IntRange(-2, 2).Draw(t, "nacl")
	var a []string
	if n == 0 {
		a = []string{}
	}
	for i := 0; i < n; i++ {
		a = append(a, rapid.SampledFrom(Users).Draw(t, "acl"))
	}
	return a
}

// Users are the principals that lists name; some are parts of others.
var Users = []string{"u1", "u2", "u12", "group:x", "it's", "u", "u1 "}

// Draw generates a record.
func (e *Env) Draw(t *rapid.T, label string) *Rec {
	r := &Rec{ID: h.ID(t, e.NIDs, label+"id"), Content: e.content(t), Meta: Meta(t)}
	if e.NZ {
		r.Vec = h.NZVec(t, e.Dim, "v")
	} else {
		r.Vec = h.Vec(t, e.Dim, "v")
	}
	if rapid.Bool().Draw(t, "incoll") {
		r.Coll = rapid.SampledFrom(CollNames).Draw(t, "coll")
	}
	if rapid.IntRange(0, 2).Draw(t, "indoc") == 0 {
		r.Doc = rapid.SampledFrom(DocIDs).Draw(t, "doc")
	}
	if e.WithACL {
		r.ACL = ACL(t)
	}
	return r
}

// Emb is the record as given to the store.
func (r *Rec) Emb() *core.Embedding {
	m := r.Meta
	if m != nil {
		m = map[string]string{}
		for k, v := range r.Meta {
			m[k] = v
		}
	}
	return &core.Embedding{ID: r.ID, Collection: r.Coll, Vector: append([]float32{}, r.Vec...), Content: r.Content, DocID: r.Doc, Metadata: m, ACL: append([]string(nil), r.ACL...)}
}

func (r *Rec) String() string {
	return fmt.Sprintf("%q coll=%q doc=%q v=%s meta=%s acl=%v %q", r.ID, r.Coll, r.Doc, h.VS(r.Vec), h.MS(r.Meta), r.ACL, r.Content)
}

func (e *Env) valid(r *Rec) bool {
	if r.Coll != "" && !e.Colls[r.Coll] {
		return false
	}
	if _, ok := e.Docs[r.Doc]; r.Doc != "" && !ok {
		return false
	}
	return true
}

func (e *Env) put(r *Rec) {
	if _, ok := e.Recs[r.ID]; ok {
		e.Updates++
	}
	q := *r
	if q.Coll == "" {
		q.Coll = "default"
	}
	e.Recs[r.ID] = &q
}

func (e *Env) del(id string) {
	if _, ok := e.Recs[id]; ok {
		e.Deletes++
		delete(e.Recs, id)
	}
}

// DeleteWhere removes matching records from the model.
func (e *Env) DeleteWhere(f func(*Rec) bool) {
	for id, r := range e.Recs {
		if f(r) {
			e.del(id)
		}
	}
}

func (e *Env) Upsert(r *Rec) {
	e.C.Op("upsert %v", r)
	err := e.S.Upsert(e.Ctx, r.Emb())
	h.CheckInfra(err)
	if ok := e.valid(r); ok != (err == nil) {
		e.C.Fatalf("upsert of %v: valid=%v but error is %v", r, ok, err)
	} else if ok {
		e.put(r)
	} else {
		e.Failures++
	}
}

func (e *Env) UpsertBatch(rs []*Rec) {
	var embs []*core.Embedding
	ok := true
	for _, r := range rs {
		e.C.Op("batch %v", r)
		embs = append(embs, r.Emb())
		ok = ok && e.valid(r)
	}
	err := e.S.UpsertBatch(e.Ctx, embs)
	h.CheckInfra(err)
	if ok != (err == nil) {
		e.C.Fatalf("upsert batch: valid=%v but error is %v", ok, err)
	}
	if ok {
		for _, r := range rs {
			e.put(r)
		}
	} else {
		e.Failures++
	}
}

func (e *Env) Delete(id string) {
	e.C.Op("delete %q", id)
	err := e.S.Delete(e.Ctx, id)
	h.CheckInfra(err)
	if _, ok := e.Recs[id]; ok {
		e.C.Must(err, "delete of stored %q", id)
		e.del(id)
	} else if !errors.Is(err, core.ErrNotFound) {
		e.C.Fatalf("delete of absent %q: error is %v, want not found", id, err)
	}
}

func (e *Env) DeleteBatch(ids []string) {
	e.C.Op("deleteBatch %q", ids)
	any := false
	for _, id := range ids {
		_, ok := e.Recs[id]
		any = any || ok
	}
	err := e.S.DeleteBatch(e.Ctx, ids)
	h.CheckInfra(err)
	switch {
	case len(ids) == 0 || any:
		e.C.Must(err, "delete batch %q", ids)
	case !errors.Is(err, core.ErrNotFound):
		e.C.Fatalf("delete batch of absent ids: error is %v, want not found", err)
	}
	for _, id := range ids {
		e.del(id)
	}
}

// SomeID draws an id, more often one that is stored.
func (e *Env) SomeID(t *rapid.T) string {
	if ids := e.IDs(); len(ids) > 0 && rapid.IntRange(0, 3).Draw(t, "known") > 0 {
		return rapid.SampledFrom(ids).Draw(t, "id")
	}
	return h.ID(t, e.NIDs, "id")
}

// Actions are the mutating operations for t.Repeat.
func (e *Env) Actions() map[string]func(*rapid.T) {
	upsert := func(t *rapid.T) { e.Upsert(e.Draw(t, "")) }
	return map[string]func(*rapid.T){
		"upsert":  upsert,
		"upsert2": upsert,
		"upsert3": upsert,
		"upsert4": upsert,
		"upsert5": upsert,
		"update":  func(t *rapid.T) { r := e.Draw(t, ""); r.ID = e.SomeID(t); e.Upsert(r) },
		"batch": func(t *rapid.T) {
			n := rapid.IntRange(0, 4).Draw(t, "n")
			var rs []*Rec
			for i := 0; i < n; i++ {
				rs = append(rs, e.Draw(t, ""))
			}
			e.UpsertBatch(rs)
		},
		"delete": func(t *rapid.T) { e.Delete(e.SomeID(t)) },
		"deleteBatch": func(t *rapid.T) {
			n := rapid.IntRange(0, 3).Draw(t, "n")
			ids := []string{}
			for i := 0; i < n; i++ {
				ids = append(ids, e.SomeID(t))
			}
			e.DeleteBatch(ids)
		},
		"deleteByDoc": func(t *rapid.T) {
			d := rapid.SampledFrom(DocIDs).Draw(t, "doc")
			e.C.Op("deleteByDocID %q", d)
			e.C.Must(e.S.DeleteByDocID(e.Ctx, d), "deleteByDocID")
			e.DeleteWhere(func(r *Rec) bool { return r.Doc == d })
		},
		"clearByDoc": func(t *rapid.T) {
			ds := rapid.SliceOfN(rapid.SampledFrom(append([]string{""}, DocIDs...)), 0, 3).Draw(t, "docs")
			e.C.Op("clearByDocID %q", ds)
			e.C.Must(e.S.ClearByDocID(e.Ctx, ds), "clearByDocID")
			e.DeleteWhere(func(r *Rec) bool {
				return r.Doc != "" && strings.Contains("|"+strings.Join(ds, "|")+"|", "|"+r.Doc+"|")
			})
		},
		"clear": func(t *rapid.T) {
			if rapid.IntRange(0, 5).Draw(t, "sure") != 0 {
				return
			}
			e.C.Op("clear")
			e.C.Must(e.S.Clear(e.Ctx), "clear")
			e.DeleteWhere(func(*Rec) bool { return true })
		},
		"deleteByFilter": func(t *rapid.T) {
			k, v := rapid.SampledFrom(MetaKeys).Draw(t, "k"), rapid.SampledFrom(MetaVals).Draw(t, "v")
			e.C.Op("deleteByFilter %q=%q", k, v)
			e.C.Must(e.S.DeleteByFilter(e.Ctx, core.NewMetadataFilter().Equal(k, v)), "deleteByFilter")
			e.DeleteWhere(func(r *Rec) bool { w, ok := r.Meta[k]; return ok && w == v })
		},
		"createCollection": func(t *rapid.T) { e.CreateCollection(rapid.SampledFrom(CollNames).Draw(t, "coll")) },
		"deleteCollection": func(t *rapid.T) {
			n := rapid.SampledFrom(CollNames).Draw(t, "coll")
			e.C.Op("deleteCollection %q", n)
			err := e.S.DeleteCollection(e.Ctx, n)
			h.CheckInfra(err)
			if e.Colls[n] != (err == nil) {
				e.C.Fatalf("deleteCollection %q: exists=%v, error %v", n, e.Colls[n], err)
			}
			delete(e.Colls, n)
			e.DeleteWhere(func(r *Rec) bool { return r.Coll == n })
		},
		"createDocument": func(t *rapid.T) {
			var a []string
			if e.WithACL {
				a = ACL(t)
			}
			e.CreateDocument(rapid.SampledFrom(DocIDs).Draw(t, "doc"), a)
		},
		"deleteDocument": func(t *rapid.T) {
			d := rapid.SampledFrom(DocIDs).Draw(t, "doc")
			e.C.Op("deleteDocument %q", d)
			err := e.S.DeleteDocument(e.Ctx, d)
			h.CheckInfra(err)
			if _, ok := e.Docs[d]; ok {
				e.C.Must(err, "deleteDocument %q", d)
			}
			delete(e.Docs, d)
			e.DeleteWhere(func(r *Rec) bool { return r.Doc == d })
		},
		"reopen": func(t *rapid.T) { e.Reopen() },
	}
}

func (e *Env) CreateCollection(n string) {
	e.C.Op("createCollection %q", n)
	_, err := e.S.CreateCollection(e.Ctx, n, e.Dim)
	h.CheckInfra(err)
	if e.Colls[n] == (err == nil) {
		e.C.Fatalf("createCollection %q: exists=%v, error %v", n, e.Colls[n], err)
	}
	e.Colls[n] = true
}

func (e *Env) CreateDocument(d string, acl []string) {
	e.C.Op("createDocument %q acl=%v", d, acl)
	err := e.S.CreateDocument(e.Ctx, &core.Document{ID: d, Title: "t " + d, Version: 1, ACL: acl})
	h.CheckInfra(err)
	_, ok := e.Docs[d]
	if ok == (err == nil) {
		e.C.Fatalf("createDocument %q: exists=%v, error %v", d, ok, err)
	}
	if !ok {
		e.Docs[d] = acl
	}
}

// Prepare creates collections and documents so that records find them.
func (e *Env) Prepare(t *rapid.T) {
	for _, n := range CollNames {
		if rapid.IntRange(0, 3).Draw(t, "mkcoll") > 0 {
			e.CreateCollection(n)
		}
	}
	for _, d := range DocIDs {
		if rapid.IntRange(0, 3).Draw(t, "mkdoc") > 0 {
			var a []string
			if e.WithACL {
				a = ACL(t)
			}
			e.CreateDocument(d, a)
		}
	}
	if e.Big > 0 && rapid.IntRange(0, 14).Draw(t, "big") == 14 {
		e.Bulk(t, rapid.IntRange(e.Big/3, e.Big).Draw(t, "nbulk"))
	}
}

var bulkWords = []string{"apple", "river", "stone", "cloud", "it's", "日本", "x"}

// BulkRecs makes n records from one drawn number: many, and not shrunk one by one.
func (e *Env) BulkRecs(t *rapid.T, n int) []*Rec {
	seed := rapid.Uint64().Draw(t, "bulk")
	rnd := rand.New(rand.NewPCG(seed, 7))
	var rs []*Rec
	for i := 0; i < n; i++ {
		r := &Rec{ID: fmt.Sprintf("bulk%d", i), Content: bulkWords[rnd.IntN(len(bulkWords))] + " " + bulkWords[rnd.IntN(len(bulkWords))]}
		for j := 0; j < e.Dim; j++ {
			r.Vec = append(r.Vec, float32(rnd.NormFloat64()))
		}
		if e.BigMeta != nil {
			r.Meta = e.BigMeta(rnd.IntN)
		} else if rnd.IntN(3) > 0 {
			r.Meta = map[string]string{}
			for j := rnd.IntN(3); j > 0; j-- {
				r.Meta[MetaKeys[rnd.IntN(len(MetaKeys))]] = MetaVals[rnd.IntN(len(MetaVals))]
			}
		}
		if c := CollNames[rnd.IntN(len(CollNames))]; e.Colls[c] && rnd.IntN(2) == 0 {
			r.Coll = c
		}
		if d := DocIDs[rnd.IntN(len(DocIDs))]; rnd.IntN(3) == 0 {
			if _, ok := e.Docs[d]; ok {
				r.Doc = d
			}
		}
		if e.WithACL && rnd.IntN(2) == 0 {
			r.ACL = []string{Users[rnd.IntN(len(Users))]}
		}
		rs = append(rs, r)
	}
	return rs
}

// Bulk stores n records in one batch.
func (e *Env) Bulk(t *rapid.T, n int) {
	rs := e.BulkRecs(t, n)
	var embs []*core.Embedding
	for _, r := range rs {
		embs = append(embs, r.Emb())
	}
	e.C.Op("batch of %d records", n)
	e.C.Class("large")
	e.C.Must(e.S.UpsertBatch(e.Ctx, embs), "upsert of %d records", n)
	for _, r := range rs {
		e.put(r)
	}
}

// Fill stores n records.
func (e *Env) Fill(t *rapid.T, n int) {
	for i := 0; i < n; i++ {
		r := e.Draw(t, "")
		if !e.valid(r) {
			r.Coll, r.Doc = "", ""
		}
		e.Upsert(r)
	}
}

// CheckAll compares everything that can be read back with the model.
func (e *Env) CheckAll() {
	c, ctx := e.C, e.Ctx
	for i := 0; i < e.NIDs; i++ {
		e.CheckID(h.IDs[i%len(h.IDs)])
	}
	for id := range e.Recs {
		if strings.HasPrefix(id, "bulk") {
			e.CheckID(id)
		}
	}
	st, err := e.S.Stats(ctx)
	c.Must(err, "stats")
	if int(st.Count) != len(e.Recs) {
		c.Fatalf("stats count %d, want %d", st.Count, len(e.Recs))
	}
	// documents
	byDoc := map[string][]string{}
	byColl := map[string]int{}
	byType := map[string][]string{}
	for id, r := range e.Recs {
		if r.Doc != "" {
			byDoc[r.Doc] = append(byDoc[r.Doc], id)
		}
		byColl[r.Coll]++
		if ty, ok := r.Meta["type"]; ok && ty != "" {
			byType[ty] = append(byType[ty], id)
		}
	}
	for _, d := range DocIDs {
		got, err := e.S.GetByDocID(ctx, d)
		c.Must(err, "getByDocID %q", d)
		var ids []string
		for _, g := range got {
			ids = append(ids, g.ID)
			if r := e.Recs[g.ID]; r != nil && !e.same(g, r) {
				c.Fatalf("getByDocID %q returned %+v, want %v", d, g, r)
			}
		}
		if !h.SameStrings(ids, byDoc[d]) {
			c.Fatalf("getByDocID %q = %q, want %q", d, ids, byDoc[d])
		}
	}
	docs, err := e.S.ListDocuments(ctx)
	c.Must(err, "listDocuments")
	var wantDocs []string
	for d := range byDoc {
		wantDocs = append(wantDocs, d)
	}
	if !h.SameStrings(docs, wantDocs) {
		c.Fatalf("listDocuments = %q, want %q", docs, wantDocs)
	}
	infos, err := e.S.ListDocumentsWithInfo(ctx)
	c.Must(err, "listDocumentsWithInfo")
	if len(infos) != len(byDoc) {
		c.Fatalf("listDocumentsWithInfo has %d entries, want %d", len(infos), len(byDoc))
	}
	for _, i := range infos {
		if i.EmbeddingCount != len(byDoc[i.DocID]) {
			c.Fatalf("document %q has %d embeddings, want %d", i.DocID, i.EmbeddingCount, len(byDoc[i.DocID]))
		}
	}
	for _, d := range DocIDs {
		_, ok := e.Docs[d]
		_, err := e.S.GetDocument(ctx, d)
		if ok {
			c.Must(err, "getDocument %q", d)
		} else if !errors.Is(err, core.ErrNotFound) {
			c.Fatalf("getDocument of absent %q: %v", d, err)
		}
	}
	types := []string{"x", "X", "it's", "5"}
	for ty := range byType {
		if !slices.Contains(types, ty) {
			types = append(types, ty)
		}
	}
	for _, ty := range types {
		got, err := e.S.GetDocumentsByType(ctx, ty)
		c.Must(err, "getDocumentsByType")
		var ids []string
		for _, g := range got {
			ids = append(ids, g.ID)
			if r := e.Recs[g.ID]; r != nil && !e.same(g, r) {
				c.Fatalf("getDocumentsByType %q returned %+v, want %v", ty, g, r)
			}
		}
		if !h.SameStrings(ids, byType[ty]) {
			c.Fatalf("getDocumentsByType %q = %q, want %q", ty, ids, byType[ty])
		}
	}
	// collections
	cols, err := e.S.ListCollections(ctx)
	c.Must(err, "listCollections")
	var names, want []string
	for _, x := range cols {
		names = append(names, x.Name)
	}
	for n := range e.Colls {
		want = append(want, n)
	}
	if !h.SameStrings(names, want) {
		c.Fatalf("listCollections = %q, want %q", names, want)
	}
	each := int64(0)
	for _, n := range want {
		s, err := e.S.GetCollectionStats(ctx, n)
		c.Must(err, "collectionStats %q", n)
		if int(s.Count) != byColl[n] {
			c.Fatalf("collection %q has %d embeddings, want %d", n, s.Count, byColl[n])
		}
		// every vector has the same dimension, so each takes as much room
		if s.Count > 0 {
			if each == 0 {
				each = s.Size / s.Count
			}
			if each == 0 || s.Size != each*s.Count {
				c.Fatalf("collection %q holds %d vectors in %d bytes, at %d bytes each", n, s.Count, s.Size, each)
			}
			if ago := time.Since(s.LastInsertedAt); ago < -5*time.Second || ago > time.Hour {
				c.Fatalf("collection %q: last insertion is given as %v", n, s.LastInsertedAt)
			}
		} else if s.Size != 0 {
			c.Fatalf("empty collection %q has %d bytes", n, s.Size)
		}
	}
}

// CheckID compares what GetByID returns with the model.
func (e *Env) CheckID(id string) {
	c := e.C
	g, err := e.S.GetByID(e.Ctx, id)
	h.CheckInfra(err)
	r, ok := e.Recs[id]
	if !ok {
		if !errors.Is(err, core.ErrNotFound) {
			c.Fatalf("getByID of absent %q: %+v, error %v", id, g, err)
		}
		return
	}
	c.Must(err, "getByID %q", id)
	if g.ID != id || !e.same(g, r) {
		c.Fatalf("getByID %q = %+v, want %v", id, *g, r)
	}
}

func (e *Env) same(g *core.Embedding, r *Rec) bool {
	return g.Collection == r.Coll && g.Content == r.Content && g.DocID == r.Doc && h.SameVec(g.Vector, r.Vec) && h.SameMap(g.Metadata, r.Meta) && sameList(g.ACL, r.ACL)
}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// IDs of the model in order.
func (e *Env) IDs() []string {
	var ids []string
	for id := range e.Recs {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// Eligible returns the true scores of the records that pass f.
func (e *Env) Eligible(q []float32, sim func(a, b []float32) float64, f func(*Rec) bool) map[string]float64 {
	m := map[string]float64{}
	for id, r := range e.Recs {
		if f == nil || f(r) {
			m[id] = sim(q, r.Vec)
		}
	}
	return m
}

// Split returns ids and scores of results, and checks that their content is what is stored.
func (e *Env) Split(res []core.ScoredEmbedding) ([]string, []float64) {
	ids, sc := []string{}, []float64{}
	for _, r := range res {
		ids = append(ids, r.ID)
		sc = append(sc, r.Score)
		if m := e.Recs[r.ID]; m != nil {
			if !h.SameVec(m.Vec, r.Vector) || m.Content != r.Content || m.Doc != r.DocID || m.Coll != r.Collection || !h.SameMap(m.Meta, r.Metadata) {
				e.C.Fatalf("search returned %+v, stored is %v", r, m)
			}
		}
	}
	return ids, sc
}

// Sims are the similarity functions with their references.
var Sims = []struct {
	Name string
	Fn   core.SimilarityFunc
	Ref  func(a, b []float32) float64
}{
	{"cosine", core.CosineSimilarity, h.Cosine},
	{"dot", core.DotProduct, h.Dot},
	{"euclid", core.EuclideanDist, h.Euclid},
}
