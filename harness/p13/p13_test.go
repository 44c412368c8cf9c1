package p13

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"github.com/liliang-cn/cortexdb/v2/verifharness/mdl"
	"pgregory.net/rapid"
)

// anyMap draws metadata of every JSON kind.
func anyMap(t *rapid.T) map[string]interface{} {
	n := rapid.IntRange(-1, 3).Draw(t, "nm")
	if n < 0 {
		return nil
	}
	m := map[string]interface{}{}
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom([]string{"k", "a.b", "it's", "日本"}).Draw(t, "mk")
		m[k] = rapid.SampledFrom([]interface{}{"x", "", 1.5, float64(7), true, false, nil, []interface{}{"a", 1.0}, map[string]interface{}{"z": "y"}, `q"uote`}).Draw(t, "mv")
	}
	return m
}

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	if s := string(b); s != "null" {
		return s
	}
	return "{}"
}

func docString(d *core.Document) string {
	return fmt.Sprintf("%q title=%q url=%q content=%q v%d author=%q meta=%s acl=%q", d.ID, d.Title, d.SourceURL, d.Content, d.Version, d.Author, js(d.Metadata), d.ACL)
}

// Document records are a map from id to the last version written, with their chunks.
func TestDocuments(t *testing.T) {
	h.Check(t, h.Opt{Quick: 250, Thorough: 6000, Steps: 22}, func(c *h.C) {
		hnsw := rapid.Bool().Draw(c.T, "hnsw")
		e := mdl.NewEnv(c, 2, func(cfg *core.Config) { cfg.HNSW.Enabled = hnsw })
		docs := map[string]*core.Document{}
		ids := mdl.DocIDs
		authors := []string{"ann", "bob", "an", "Ann", "a_n", "%", ""}
		draw := func(t *rapid.T) *core.Document {
			return &core.Document{ID: rapid.SampledFrom(ids).Draw(t, "doc"), Title: h.Text(t, "title"), SourceURL: rapid.SampledFrom([]string{"", "http://x/?a=b&c"}).Draw(t, "url"),
				Content: h.Text(t, "content"), Version: rapid.IntRange(0, 3).Draw(t, "version"), Author: rapid.SampledFrom(authors).Draw(t, "author"), Metadata: anyMap(t), ACL: mdl.ACL(t)}
		}
		upd, del := 0, 0
		acts := map[string]func(*rapid.T){
			"create": func(t *rapid.T) {
				d := draw(t)
				c.Op("create %s", docString(d))
				err := e.S.CreateDocument(e.Ctx, d)
				h.CheckInfra(err)
				if _, ok := docs[d.ID]; ok == (err == nil) {
					c.Fatalf("create %q: exists=%v error %v", d.ID, ok, err)
				} else if !ok {
					docs[d.ID] = d
					e.Docs[d.ID] = d.ACL
				}
			},
			"update": func(t *rapid.T) {
				d := draw(t)
				c.Op("update %s", docString(d))
				err := e.S.UpdateDocument(e.Ctx, d)
				h.CheckInfra(err)
				if _, ok := docs[d.ID]; ok {
					c.Must(err, "update %q", d.ID)
					docs[d.ID] = d
					e.Docs[d.ID] = d.ACL
					upd++
				} else if !errors.Is(err, core.ErrNotFound) {
					c.Fatalf("update of absent %q: %v", d.ID, err)
				}
			},
			"delete": func(t *rapid.T) {
				id := rapid.SampledFrom(ids).Draw(t, "doc")
				c.Op("delete document %q", id)
				c.Must(e.S.DeleteDocument(e.Ctx, id), "delete document %q", id)
				if _, ok := docs[id]; ok {
					del++
				}
				delete(docs, id)
				delete(e.Docs, id)
				e.DeleteWhere(func(r *mdl.Rec) bool { return r.Doc == id })
			},
			"chunk":  func(t *rapid.T) { e.Upsert(e.Draw(t, "")) },
			"reopen": func(t *rapid.T) { e.Reopen() },
			"list": func(t *rapid.T) {
				a, n := rapid.SampledFrom(append(authors, "none")).Draw(t, "by"), rapid.IntRange(1, 4).Draw(t, "limit")
				c.Op("list by %q limit %d", a, n)
				got, err := e.S.ListDocumentsWithFilter(e.Ctx, a, n)
				c.Must(err, "list")
				want := 0
				for _, d := range docs {
					if a == "" || d.Author == a {
						want++
					}
				}
				if len(got) != min(want, n) {
					c.Fatalf("list by %q limit %d has %d documents, want %d", a, n, len(got), min(want, n))
				}
				seen := map[string]bool{}
				for _, d := range got {
					w := docs[d.ID]
					if w == nil || seen[d.ID] || a != "" && d.Author != a || docString(d) != docString(w) {
						c.Fatalf("list by %q shows %s", a, docString(d))
					}
					seen[d.ID] = true
				}
			},
			"": func(t *rapid.T) {
				for _, id := range ids {
					d, err := e.S.GetDocument(e.Ctx, id)
					h.CheckInfra(err)
					if w, ok := docs[id]; !ok {
						if !errors.Is(err, core.ErrNotFound) {
							c.Fatalf("get of absent document %q: %v", id, err)
						}
					} else {
						c.Must(err, "get document %q", id)
						if docString(d) != docString(w) {
							c.Fatalf("document is\n%s\nwant\n%s", docString(d), docString(w))
						}
					}
				}
				e.CheckAll()
			},
		}
		c.T.Repeat(acts)
		if upd > 0 && del > 0 {
			c.NonTrivial()
		}
	})
}

func msgString(m *core.Message) string {
	return fmt.Sprintf("%q in %q by %q %q %s %s", m.ID, m.SessionID, m.Role, m.Content, h.VS(m.Vector), js(m.Metadata))
}

// Sessions keep their messages, in order, and are searched by similarity within their bounds.
func TestChat(t *testing.T) {
	h.Check(t, h.Opt{Quick: 250, Thorough: 6000, Steps: 25}, func(c *h.C) {
		si := rapid.IntRange(0, 2).Draw(c.T, "sim")
		sim := mdl.Sims[si]
		e := mdl.NewEnv(c, 2, func(cfg *core.Config) { cfg.SimilarityFn = sim.Fn })
		type session struct {
			s    *core.Session
			msgs []*core.Message
		}
		sess := map[string]*session{}
		all := map[string]*core.Message{}
		sids := []string{"s1", "S1", "s_", "s'3"}
		users := []string{"u1", "u12", "it's"}
		refused, found := 0, 0
		check := func(what string, got []*core.Message, want map[string]float64, q []float32, limit int) {
			var ids []string
			var sc []float64
			for _, m := range got {
				ids = append(ids, m.ID)
				sc = append(sc, sim.Ref(q, m.Vector))
				if w := all[m.ID]; w == nil || msgString(w) != msgString(m) {
					c.Fatalf("%s returned %s", what, msgString(m))
				}
			}
			if s := h.CheckTopK(ids, sc, want, limit, 1e-5); s != "" {
				c.Fatalf("%s: %s", what, s)
			}
			if len(want) > 0 && len(want) < len(all) {
				found++
			}
		}
		acts := map[string]func(*rapid.T){
			"session": func(t *rapid.T) {
				s := &core.Session{ID: rapid.SampledFrom(sids).Draw(t, "sid"), UserID: rapid.SampledFrom(users).Draw(t, "user"), Metadata: anyMap(t)}
				c.Op("session %q of %q %s", s.ID, s.UserID, js(s.Metadata))
				err := e.S.CreateSession(e.Ctx, s)
				h.CheckInfra(err)
				if (sess[s.ID] == nil) != (err == nil) {
					c.Fatalf("create session %q: exists=%v error %v", s.ID, sess[s.ID] != nil, err)
				} else if err == nil {
					sess[s.ID] = &session{s: s}
				}
			},
			"message": func(t *rapid.T) {
				m := &core.Message{ID: fmt.Sprintf("m%d", rapid.IntRange(0, 14).Draw(t, "mid")), SessionID: rapid.SampledFrom(sids).Draw(t, "sid"), Role: rapid.SampledFrom([]string{"user", "assistant", "system"}).Draw(t, "role"), Content: h.Text(t, "content"), Metadata: anyMap(t)}
				if rapid.IntRange(0, 3).Draw(t, "vec") > 0 {
					m.Vector = h.Vec(t, 2, "v")
				}
				c.Op("message %s", msgString(m))
				err := e.S.AddMessage(e.Ctx, m)
				h.CheckInfra(err)
				ok := sess[m.SessionID] != nil && all[m.ID] == nil
				if ok != (err == nil) {
					c.Fatalf("add message %q: session exists=%v, id taken=%v, error %v", m.ID, sess[m.SessionID] != nil, all[m.ID] != nil, err)
				}
				if ok {
					all[m.ID] = m
					sess[m.SessionID].msgs = append(sess[m.SessionID].msgs, m)
				} else {
					refused++
				}
			},
			"reopen": func(t *rapid.T) { e.Reopen() },
			"search": func(t *rapid.T) {
				id, q, n := rapid.SampledFrom(sids).Draw(t, "sid"), h.NZVec(t, 2, "q"), rapid.IntRange(1, 5).Draw(t, "limit")
				c.Op("search %q for %s limit %d", id, h.VS(q), n)
				got, err := e.S.SearchChatHistory(e.Ctx, q, id, n)
				c.Must(err, "search chat history")
				want := map[string]float64{}
				for _, m := range all {
					if m.SessionID == id && len(m.Vector) > 0 {
						want[m.ID] = sim.Ref(q, m.Vector)
					}
				}
				check(fmt.Sprintf("search of session %q", id), got, want, q, n)
			},
			"searchUser": func(t *rapid.T) {
				u, q, n := rapid.SampledFrom(users).Draw(t, "user"), h.NZVec(t, 2, "q"), rapid.IntRange(1, 5).Draw(t, "limit")
				x := rapid.SampledFrom(append([]string{""}, sids...)).Draw(t, "not")
				c.Op("search user %q for %s outside %q limit %d", u, h.VS(q), x, n)
				got, err := e.S.SearchMessagesByUser(e.Ctx, u, q, x, n)
				c.Must(err, "search messages by user")
				want := map[string]float64{}
				for _, m := range all {
					if sess[m.SessionID].s.UserID == u && m.SessionID != x && len(m.Vector) > 0 {
						want[m.ID] = sim.Ref(q, m.Vector)
					}
				}
				check(fmt.Sprintf("search of user %q", u), got, want, q, n)
			},
			"": func(t *rapid.T) {
				for _, id := range sids {
					s, err := e.S.GetSession(e.Ctx, id)
					h.CheckInfra(err)
					w := sess[id]
					if w == nil {
						if !errors.Is(err, core.ErrNotFound) {
							c.Fatalf("get of absent session %q: %v", id, err)
						}
					} else {
						c.Must(err, "get session %q", id)
						if s.ID != id || s.UserID != w.s.UserID || js(s.Metadata) != js(w.s.Metadata) {
							c.Fatalf("session %q is %+v, want %+v", id, *s, *w.s)
						}
					}
					var ms []*core.Message
					if w != nil {
						ms = w.msgs
					}
					for _, n := range []int{1, 3, 100} {
						got, err := e.S.GetSessionHistory(e.Ctx, id, n)
						c.Must(err, "history")
						var a, b []string
						for _, m := range got {
							a = append(a, msgString(m))
						}
						for _, m := range ms[max(0, len(ms)-n):] {
							b = append(b, msgString(m))
						}
						if strings.Join(a, "\n") != strings.Join(b, "\n") {
							c.Fatalf("the last %d messages of %q are\n%s\nwant\n%s", n, id, strings.Join(a, "\n"), strings.Join(b, "\n"))
						}
					}
				}
			},
		}
		c.T.Repeat(acts)
		if found > 0 {
			c.NonTrivial()
		}
	})
}
