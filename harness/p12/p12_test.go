package p12

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"errors"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"github.com/liliang-cn/cortexdb/v2/verifharness/mdl"
	"pgregory.net/rapid"
)

func history(c *h.C, hnsw bool) *mdl.Env {
	e := mdl.NewEnv(c, 3, func(cfg *core.Config) { cfg.HNSW.Enabled = hnsw })
	e.WithACL = true
	if !hnsw {
		e.Big = 250
	}
	e.Prepare(c.T)
	acts := e.Actions()
	delete(acts, "clear")
	c.T.Repeat(acts)
	return e
}

// other is a second store with the same collections and documents and no records.
func other(c *h.C, e *mdl.Env) *mdl.Env {
	o := mdl.NewEnv(c, 3, nil)
	o.WithACL = true
	for n := range e.Colls {
		if n != "default" {
			o.CreateCollection(n)
		}
	}
	for d, a := range e.Docs {
		o.CreateDocument(d, a)
	}
	return o
}

// What is dumped and loaded elsewhere is the same records, every part of them.
func TestRoundTrip(t *testing.T) {
	h.Check(t, h.Opt{Quick: 150, Thorough: 4000, Steps: 18}, func(c *h.C) {
		e := history(c, rapid.Bool().Draw(c.T, "hnsw"))
		o := core.DefaultDumpOptions()
		o.Format = rapid.SampledFrom([]core.DumpFormat{core.DumpFormatJSON, core.DumpFormatJSONL, core.DumpFormatCSV}).Draw(c.T, "format")
		want := map[string]*mdl.Rec{}
		k, v := rapid.SampledFrom(mdl.MetaKeys).Draw(c.T, "fk"), rapid.SampledFrom(mdl.MetaVals).Draw(c.T, "fv")
		filtered := rapid.IntRange(0, 2).Draw(c.T, "filtered") == 0
		for id, r := range e.Recs {
			if w, ok := r.Meta[k]; !filtered || ok && w == v {
				want[id] = r
			}
		}
		if filtered {
			o.Filter = core.NewMetadataFilter().Equal(k, v)
			c.Op("filter %q=%q", k, v)
		}
		c.Op("dump %s", o.Format)
		var buf bytes.Buffer
		if rapid.Bool().Draw(c.T, "file") {
			f := filepath.Join(c.Dir(), "dump")
			st, err := e.S.DumpToFile(e.Ctx, f, o)
			c.Must(err, "dump to file")
			if st.TotalEmbeddings != len(want) {
				c.Fatalf("dump says %d embeddings, want %d", st.TotalEmbeddings, len(want))
			}
			b, err := os.ReadFile(f)
			if err != nil {
				c.Fatalf("no dump file: %v", err)
			}
			buf.Write(b)
		} else {
			st, err := e.S.Dump(e.Ctx, &buf, o)
			c.Must(err, "dump")
			if st.TotalEmbeddings != len(want) {
				c.Fatalf("dump says %d embeddings, want %d", st.TotalEmbeddings, len(want))
			}
		}
		e.CheckAll()
		if len(want) > 1 && e.Updates+e.Deletes > 0 {
			c.NonTrivial()
		}
		if o.Format == core.DumpFormatCSV {
			checkCSV(c, buf.Bytes(), want)
			return
		}
		x := other(c, e)
		x.NIDs = e.NIDs
		// the target may hold records already
		x.Fill(c.T, rapid.IntRange(0, 4).Draw(c.T, "pre"))
		l := core.DefaultLoadOptions()
		l.Format = o.Format
		l.SkipExisting = rapid.Bool().Draw(c.T, "skip")
		l.Upsert = rapid.Bool().Draw(c.T, "up")
		c.Op("load skipExisting=%v", l.SkipExisting)
		loaded, skipped := 0, 0
		for id, r := range want {
			if _, ok := x.Recs[id]; ok && l.SkipExisting {
				skipped++
				continue
			}
			loaded++
			q := *r
			x.Recs[id] = &q
		}
		st, err := x.S.Load(x.Ctx, &buf, l)
		c.Must(err, "load")
		if st.TotalEmbeddings != loaded || st.SkippedCount != skipped || st.FailedCount != 0 {
			c.Fatalf("load says %+v, want %d loaded %d skipped", *st, loaded, skipped)
		}
		x.CheckAll()
		q := h.NZVec(c.T, 3, "q")
		res, err := x.S.Search(x.Ctx, q, core.SearchOptions{TopK: 50})
		c.Must(err, "search")
		ids, sc := x.Split(res)
		if m := h.CheckTopK(ids, sc, x.Eligible(q, h.Cosine, nil), 50, 1e-5); m != "" {
			c.Fatalf("search after load: %s", m)
		}
	})
}

func checkCSV(c *h.C, b []byte, want map[string]*mdl.Rec) {
	rows, err := csv.NewReader(bytes.NewReader(b)).ReadAll()
	c.Must(err, "read csv")
	if len(rows) != len(want)+1 {
		c.Fatalf("csv has %d rows, want %d", len(rows)-1, len(want))
	}
	col := map[string]int{}
	for i, n := range rows[0] {
		col[n] = i
	}
	nl := func(s string) string { return strings.ReplaceAll(s, "\r\n", "\n") }
	seen := map[string]bool{}
	for _, row := range rows[1:] {
		r := want[row[col["id"]]]
		if r == nil || seen[r.ID] {
			c.Fatalf("csv row %q is not a stored record, or repeated", row)
		}
		seen[r.ID] = true
		var v []float32
		c.Must(json.Unmarshal([]byte(row[col["vector"]]), &v), "vector in csv")
		var m map[string]string
		if s := row[col["metadata"]]; s != "" {
			c.Must(json.Unmarshal([]byte(s), &m), "metadata in csv")
		}
		if row[col["content"]] != nl(r.Content) || row[col["doc_id"]] != r.Doc || !h.SameVec(v, r.Vec) || !h.SameMap(m, r.Meta) {
			c.Fatalf("csv row %q does not show %v", row, r)
		}
	}
}

// A backup is the whole database as it was, whatever happens to the original afterwards.
func TestBackup(t *testing.T) {
	h.Check(t, h.Opt{Quick: 80, Thorough: 2000, Steps: 14}, func(c *h.C) {
		e := history(c, rapid.Bool().Draw(c.T, "hnsw"))
		g := graph.NewGraphStore(e.S)
		c.Must(g.InitGraphSchema(e.Ctx), "graph")
		for i := rapid.IntRange(0, 3).Draw(c.T, "nodes"); i > 0; i-- {
			c.Must(g.UpsertNode(e.Ctx, &graph.GraphNode{ID: h.IDs[i], Vector: []float32{1, 2, 3}, NodeType: "n", Content: "x"}), "node")
		}
		for i := rapid.IntRange(0, 2).Draw(c.T, "sessions"); i > 0; i-- {
			c.Must(e.S.CreateSession(e.Ctx, &core.Session{ID: h.IDs[i], UserID: "u"}), "session")
			c.Must(e.S.AddMessage(e.Ctx, &core.Message{ID: h.IDs[i] + "m", SessionID: h.IDs[i], Role: "user", Content: "hello river"}), "message")
		}
		observe := func(s *core.SQLiteStore, g *graph.GraphStore) string {
			o, err := e.Observe(s, g, h.IDs[:4], h.IDs[:5])
			c.Must(err, "observe")
			return o
		}
		before := observe(e.S, g)
		file := filepath.Join(c.Dir(), "b'ackup.db")
		c.Op("backup")
		c.Must(e.S.Backup(e.Ctx, file), "backup")
		if now := observe(e.S, g); now != before {
			c.Fatalf("the backup changed the store:\n%s\nwas\n%s", now, before)
		}
		recs := map[string]*mdl.Rec{}
		for id, r := range e.Recs {
			recs[id] = r
		}
		old, err := os.ReadFile(file)
		if err != nil {
			c.Fatalf("no backup file: %v", err)
		}
		// the original moves on
		e.Fill(c.T, rapid.IntRange(0, 3).Draw(c.T, "more"))
		for _, id := range e.IDs() {
			if rapid.Bool().Draw(c.T, "del") {
				e.Delete(id)
			}
		}
		// a second backup to the same file does not silently leave the old one there
		err = e.S.Backup(e.Ctx, file)
		h.CheckInfra(err)
		now, _ := os.ReadFile(file)
		if err != nil && !bytes.Equal(now, old) {
			c.Fatalf("a failed backup (%v) changed the file", err)
		}
		if err == nil {
			before = observe(e.S, g)
			recs = e.Recs
		}
		b := &mdl.Env{C: c, Cfg: e.Cfg, Dim: e.Dim, NIDs: e.NIDs, Recs: recs, Colls: e.Colls, Docs: e.Docs, Ctx: e.Ctx}
		b.Cfg.Path = file
		b.Open()
		c.Defer(func() { _ = b.S.Close() })
		if now := observe(b.S, graph.NewGraphStore(b.S)); now != before {
			c.Fatalf("the backup holds\n%s\nwant\n%s", now, before)
		}
		b.CheckAll()
		if len(recs) > 1 {
			c.NonTrivial()
		}
		q := h.NZVec(c.T, 3, "q")
		res, err := b.S.Search(b.Ctx, q, core.SearchOptions{TopK: 50})
		c.Must(err, "search")
		ids, sc := b.Split(res)
		if m := h.CheckTopK(ids, sc, b.Eligible(q, h.Cosine, nil), 50, 1e-5); m != "" {
			c.Fatalf("search in the backup: %s", m)
		}
	})
}

// An exported index can be imported again: searches do not change; a damaged one is refused.
func TestIndexFile(t *testing.T) {
	h.Check(t, h.Opt{Quick: 100, Thorough: 3000, Steps: 14}, func(c *h.C) {
		ivf := rapid.IntRange(0, 2).Draw(c.T, "ivf") == 0
		c.Op("ivf=%v", ivf)
		open := func() *mdl.Env {
			e := mdl.NewEnv(c, 3, func(cfg *core.Config) {
				cfg.HNSW.Enabled = !ivf
				if ivf {
					cfg.IndexType, cfg.IVF.Enabled, cfg.IVF.NCentroids, cfg.IVF.NProbe = core.IndexTypeIVF, true, 2, 2
				}
			})
			e.WithACL = true
			e.Prepare(c.T)
			return e
		}
		train := func(e *mdl.Env) {
			if ivf && len(e.Recs) > 1 && rapid.IntRange(0, 3).Draw(c.T, "train") > 0 {
				c.Op("train")
				c.Must(e.S.TrainIndex(e.Ctx, 2), "train")
			}
		}
		e := open()
		acts := e.Actions()
		delete(acts, "clear")
		if ivf {
			e.Fill(c.T, 3)
			train(e)
		}
		c.T.Repeat(acts)
		train(e)
		f := filepath.Join(c.Dir(), "index")
		c.Must(e.S.ExportIndex(e.Ctx, f), "export index")
		switch rapid.IntRange(0, 3).Draw(c.T, "stale") {
		case 0: // the store changes between export and import
			c.Op("changes after the export")
			e.Fill(c.T, rapid.IntRange(1, 3).Draw(c.T, "fill"))
			if ids := e.IDs(); len(ids) > 0 {
				e.Delete(rapid.SampledFrom(ids).Draw(c.T, "gone"))
			}
			train(e)
		case 1: // the file is of another store
			c.Op("file of another store")
			was := e
			e = open()
			e.Fill(c.T, rapid.IntRange(0, 4).Draw(c.T, "fill"))
			train(e)
			c.Must(was.S.ExportIndex(e.Ctx, f), "export index")
		}
		search := func(when string) {
			for i := 0; i < 2; i++ {
				q := h.NZVec(c.T, 3, "q")
				res, err := e.S.Search(e.Ctx, q, core.SearchOptions{TopK: 30})
				c.Must(err, "search")
				ids, sc := e.Split(res)
				if m := h.CheckTopK(ids, sc, e.Eligible(q, h.Cosine, nil), 30, 1e-5); m != "" {
					c.Fatalf("search %s: %s", when, m)
				}
			}
		}
		if rapid.Bool().Draw(c.T, "damage") {
			b, err := os.ReadFile(f)
			c.Must(err, "read index")
			n := rapid.IntRange(0, len(b)-1).Draw(c.T, "keep")
			c.Op("import the first %d of %d bytes", n, len(b))
			c.Must(os.WriteFile(f, b[:n], 0o644), "write index")
			if err := e.S.ImportIndex(e.Ctx, f); err == nil {
				c.Fatalf("importing %d of %d bytes of an index succeeded", n, len(b))
			}
			search("after a refused import")
		} else {
			c.Op("import")
			c.Must(e.S.ImportIndex(e.Ctx, f), "import index")
			search("after import")
		}
		if len(e.Recs) > 2 {
			c.NonTrivial()
		}
		// and the store still follows mutations
		e.Fill(c.T, 2)
		if ids := e.IDs(); len(ids) > 0 {
			e.Delete(rapid.SampledFrom(ids).Draw(c.T, "gone"))
		}
		search("after further changes")
		e.Reopen()
		search("after reopening")
	})
}

// A damaged dump loads what is whole in it, or is refused; it never corrupts the store.
func TestDamaged(t *testing.T) {
	h.Check(t, h.Opt{Quick: 200, Thorough: 6000}, func(c *h.C) {
		e := mdl.NewEnv(c, 3, nil)
		e.WithACL = true
		e.Fill(c.T, rapid.IntRange(1, 5).Draw(c.T, "n"))
		o := core.DefaultDumpOptions()
		o.Format = rapid.SampledFrom([]core.DumpFormat{core.DumpFormatJSON, core.DumpFormatJSONL}).Draw(c.T, "format")
		var buf bytes.Buffer
		_, err := e.S.Dump(e.Ctx, &buf, o)
		c.Must(err, "dump")
		b := append([]byte{}, buf.Bytes()...)
		kind := rapid.SampledFrom([]string{"cut", "flip", "drop", "value", "junk"}).Draw(c.T, "kind")
		at := rapid.IntRange(0, len(b)-1).Draw(c.T, "at")
		switch kind {
		case "cut":
			b = b[:at]
		case "flip":
			b[at] = rapid.SampledFrom([]byte(`"{}[],:0-x`+"\n\x00\xff")).Draw(c.T, "byte")
		case "drop":
			n := rapid.IntRange(1, 20).Draw(c.T, "len")
			b = append(b[:at], b[min(at+n, len(b)):]...)
		case "value":
			for _, p := range [][2]string{{`"vector":`, `"vector":null,"x":`}, {`"id":`, `"id":5,"x":`}, {`"id":`, `"id":"","x":`}, {`"metadata":`, `"metadata":3,"x":`}, {`"content":`, `"content":[],"x":`}, {`"vector":`, `"vector":[1],"x":`}, {`"vector":`, `"vector":[1e60,0,0],"x":`}, {`"collection":`, `"collection":"nosuch","x":`}} {
				if rapid.IntRange(0, 3).Draw(c.T, "sub") == 0 {
					s := strings.ReplaceAll(string(b), p[0]+" ", p[0])
					i := strings.Index(s[min(at, len(s)):], p[0])
					if i >= 0 {
						i += at
						b = []byte(s[:i] + p[1] + s[i+len(p[0]):])
					}
				}
			}
		case "junk":
			b = []byte(rapid.SampledFrom([]string{"", "null", "[]", "{}", `{"embeddings":null}`, `{"embeddings":[null]}`, "\n\n", `"x"`, "5", "{", `{"embeddings":[{}]}`, `{"id":"zz"}`, "null\nnull\n"}).Draw(c.T, "junk"))
		}
		c.Op("%s %s at %d: %d bytes", o.Format, kind, at, len(b))
		x := other(c, e)
		x.Fill(c.T, rapid.IntRange(0, 3).Draw(c.T, "pre"))
		l := core.DefaultLoadOptions()
		l.Format = o.Format
		before := len(x.Recs)
		st, err := x.S.Load(x.Ctx, bytes.NewReader(b), l)
		h.CheckInfra(err)
		if st == nil {
			if err == nil {
				c.Fatalf("load gave neither statistics nor an error")
			}
			st = &core.ImportStats{}
		}
		// the records of the target are untouched (existing ones are skipped)
		for _, id := range x.IDs() {
			x.CheckID(id)
		}
		stats, err := x.S.Stats(x.Ctx)
		c.Must(err, "stats")
		if int(stats.Count) != before+st.TotalEmbeddings {
			c.Fatalf("load says %d embeddings, but the store grew from %d to %d", st.TotalEmbeddings, before, stats.Count)
		}
		if kind == "cut" && o.Format == core.DumpFormatJSON && st.TotalEmbeddings > 0 && at < buf.Len()-3 {
			c.Fatalf("a cut-off dump was loaded in part (%d)", st.TotalEmbeddings)
		}
		// everything is searchable
		res, err := x.S.Search(x.Ctx, []float32{1, 0, 0}, core.SearchOptions{TopK: 100})
		c.Must(err, "search")
		if len(res) != int(stats.Count) {
			c.Fatalf("search finds %d of %d records", len(res), stats.Count)
		}
		for _, r := range res {
			if len(r.Vector) != 3 {
				c.Fatalf("%q was loaded with vector %v", r.ID, r.Vector)
			}
		}
		c.NonTrivial()
	})
}

type limited struct{ n int }

var errFull = errors.New("writer is full")

func (w *limited) Write(p []byte) (int, error) {
	if len(p) > w.n {
		n := w.n
		w.n = 0
		return n, errFull
	}
	w.n -= len(p)
	return len(p), nil
}

// A dump that could not be written completely reports it.
func TestWriterFails(t *testing.T) {
	h.Check(t, h.Opt{Quick: 120, Thorough: 3000}, func(c *h.C) {
		e := mdl.NewEnv(c, 3, nil)
		e.Fill(c.T, rapid.IntRange(1, 5).Draw(c.T, "n"))
		o := core.DefaultDumpOptions()
		o.Format = rapid.SampledFrom([]core.DumpFormat{core.DumpFormatJSON, core.DumpFormatJSONL, core.DumpFormatCSV}).Draw(c.T, "format")
		var buf bytes.Buffer
		_, err := e.S.Dump(e.Ctx, &buf, o)
		c.Must(err, "dump")
		n := rapid.IntRange(0, buf.Len()-1).Draw(c.T, "room")
		c.Op("%s, room for %d of %d bytes", o.Format, n, buf.Len())
		if o.Format == core.DumpFormatJSON {
			n = min(n, buf.Len()-60) // the time of export has its own length
		}
		if _, err := e.S.Dump(e.Ctx, &limited{n: max(n, 0)}, o); err == nil {
			c.Fatalf("%s dump of %d bytes into room for %d reported success", o.Format, buf.Len(), n)
		}
		c.NonTrivial()
	})
}
