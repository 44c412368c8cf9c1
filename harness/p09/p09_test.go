package p09

import (
	"fmt"
	"slices"
	"strings"
	"testing"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"github.com/liliang-cn/cortexdb/v2/verifharness/mdl"
	"pgregory.net/rapid"
)

// text draws content: known words between separators, in mixed case.
func text(t *rapid.T) string {
	var b strings.Builder
	for n := rapid.IntRange(0, 4).Draw(t, "nw"); n > 0; n-- {
		w := rapid.SampledFrom(h.Words).Draw(t, "w")
		if rapid.IntRange(0, 3).Draw(t, "up") == 0 {
			w = strings.ToUpper(w)
		}
		b.WriteString(w)
		b.WriteString(rapid.SampledFrom([]string{" ", ", ", "; ", "\n", " - ", "! ", " 'q' ", "/"}).Draw(t, "sep"))
	}
	return b.String()
}

func has(content, word string) bool {
	for _, f := range strings.FieldsFunc(strings.ToLower(content), func(r rune) bool { return r < 'a' || r > 'z' }) {
		if f == word {
			return true
		}
	}
	return false
}

// Keyword search finds exactly the stored records whose text has the words.
func TestKeyword(t *testing.T) {
	h.Check(t, h.Opt{Quick: 200, Thorough: 5000, Steps: 25}, func(c *h.C) {
		e := mdl.NewEnv(c, 2, nil)
		e.ContFn = text
		e.Big = 150
		e.Prepare(c.T)
		acts := e.Actions()
		changed := func() int { return e.Updates + e.Deletes }
		hits := 0
		look := func(ws []string, o core.SearchOptions) {
			query := strings.Join(ws, " ")
			res, err := e.S.HybridSearch(e.Ctx, nil, query, core.HybridSearchOptions{SearchOptions: o})
			c.Must(err, "keyword search %q", query)
			got, _ := e.Split(res)
			var want []string
			for id, r := range e.Recs {
				ok := mdl.Match(r, o)
				for _, w := range ws {
					ok = ok && has(r.Content, w)
				}
				if ok {
					want = append(want, id)
				}
			}
			if !h.SameStrings(got, want) {
				c.Fatalf("keyword search %q %s = %q, want %q", query, mdl.OS(o), h.Sorted(got), h.Sorted(want))
			}
			if len(want) > 0 && changed() > 0 {
				hits++
			}
		}
		acts["look"] = func(t *rapid.T) {
			ws := rapid.SliceOfNDistinct(rapid.SampledFrom(h.Words), 1, 2, rapid.ID[string]).Draw(t, "ws")
			o := e.Opts(t)
			o.TopK = 100
			c.Op("look %q %s", ws, mdl.OS(o))
			look(ws, o)
		}
		c.T.Repeat(acts)
		for _, w := range h.Words {
			look([]string{w}, core.SearchOptions{TopK: 100})
		}
		if hits > 0 {
			c.NonTrivial()
		}
	})
}

// No text makes a keyword search fail, and every word of a found record is a reason.
func TestAnyText(t *testing.T) {
	h.Check(t, h.Opt{Quick: 300, Thorough: 6000}, func(c *h.C) {
		e := mdl.NewEnv(c, 2, nil)
		e.ContFn = text
		e.Prepare(c.T)
		e.Fill(c.T, rapid.IntRange(1, 8).Draw(c.T, "n"))
		for i := 0; i < 5; i++ {
			q := rapid.OneOf(
				rapid.SampledFrom([]string{" ", "'", `"`, "(", "a AND", "NEAR(", "what's up?", "c++", "a:b", "x*", "-", "^x", "AND", "NOT river", "{a}", "50%", "@home #tag", "\x00", "river?", "apple - stone", "\"apple", "（全角）", "\n"}),
				rapid.StringN(1, 8, 30),
				rapid.Custom(h0),
			).Draw(c.T, "q")
			c.Op("text %q", q)
			res, err := e.S.HybridSearch(e.Ctx, []float32{1, 0}, q, core.HybridSearchOptions{SearchOptions: core.SearchOptions{TopK: 10}})
			c.Must(err, "hybrid search %q", q)
			if len(res) != len(e.Recs) {
				c.Fatalf("hybrid search %q returned %d of %d records", q, len(res), len(e.Recs))
			}
			_, err = e.S.HybridSearch(e.Ctx, nil, q, core.HybridSearchOptions{SearchOptions: core.SearchOptions{TopK: 10}})
			c.Must(err, "keyword search %q", q)
			// a user's sentence with a known word in it finds the records with that word
			w := rapid.SampledFrom(h.Words).Draw(c.T, "w")
			s := rapid.SampledFrom([]string{"%s?", "%s!", "(%s)", "%s,", "\"%s", "'%s'", "%s:", "%s..."}).Draw(c.T, "s")
			s = fmt.Sprintf(s, w)
			o := e.Opts(c.T)
			o.TopK = 100
			c.Op("sentence %q %s", s, mdl.OS(o))
			res, err = e.S.HybridSearch(e.Ctx, nil, s, core.HybridSearchOptions{SearchOptions: o})
			c.Must(err, "keyword search %q", s)
			got, _ := e.Split(res)
			var want []string
			for id, r := range e.Recs {
				if mdl.Match(r, o) && has(r.Content, w) {
					want = append(want, id)
				}
			}
			if !h.SameStrings(got, want) {
				c.Fatalf("keyword search %q = %q, want %q", s, got, want)
			}
			if len(want) > 0 {
				c.NonTrivial()
			}
		}
	})
}

func h0(t *rapid.T) string { return h.Text(t, "any") + "?" }

// Message keyword search finds exactly the user's messages with the word, outside the
// excluded session.
func TestMessages(t *testing.T) {
	h.Check(t, h.Opt{Quick: 150, Thorough: 4000}, func(c *h.C) {
		e := mdl.NewEnv(c, 2, nil)
		users := []string{"u1", "u2"}
		sess := map[string]string{}
		for i := 0; i < 4; i++ {
			id := fmt.Sprintf("s%d", i)
			sess[id] = rapid.SampledFrom(users).Draw(c.T, "user")
			c.Must(e.S.CreateSession(e.Ctx, &core.Session{ID: id, UserID: sess[id]}), "session")
		}
		msgs := map[string]*core.Message{}
		for i := rapid.IntRange(1, 12).Draw(c.T, "n"); i > 0; i-- {
			m := &core.Message{ID: fmt.Sprintf("m%d", i), SessionID: fmt.Sprintf("s%d", rapid.IntRange(0, 3).Draw(c.T, "s")), Role: "user", Content: text(c.T)}
			c.Op("message %s %s(%s) %q", m.ID, m.SessionID, sess[m.SessionID], m.Content)
			c.Must(e.S.AddMessage(e.Ctx, m), "message")
			msgs[m.ID] = m
		}
		if rapid.Bool().Draw(c.T, "reopen") {
			e.Reopen()
		}
		for i := 0; i < 4; i++ {
			w := rapid.SampledFrom(h.Words).Draw(c.T, "w")
			u := rapid.SampledFrom(users).Draw(c.T, "u")
			x := rapid.SampledFrom([]string{"", "s0", "s1"}).Draw(c.T, "x")
			s := fmt.Sprintf(rapid.SampledFrom([]string{"%s", "%s?", "(%s", "%s!", "'%s'"}).Draw(c.T, "form"), w)
			c.Op("look %q user %s not %q", s, u, x)
			res, err := e.S.KeywordSearchMessages(e.Ctx, s, u, x, 100)
			c.Must(err, "keyword search messages %q", s)
			var got, want []string
			for _, m := range res {
				got = append(got, m.ID)
			}
			for id, m := range msgs {
				if sess[m.SessionID] == u && m.SessionID != x && has(m.Content, w) {
					want = append(want, id)
				}
			}
			if !h.SameStrings(got, want) {
				c.Fatalf("messages of %s with %q outside %q = %q, want %q", u, s, x, got, want)
			}
			if len(want) > 0 && len(want) < len(msgs) {
				c.NonTrivial()
			}
			// a limit leaves that many of them
			k := rapid.IntRange(1, 4).Draw(c.T, "limit")
			c.Op("limit %d", k)
			res, err = e.S.KeywordSearchMessages(e.Ctx, s, u, x, k)
			c.Must(err, "keyword search messages %q", s)
			seen := map[string]bool{}
			for _, m := range res {
				in := msgs[m.ID]
				if seen[m.ID] || in == nil || m.Content != in.Content || m.SessionID != in.SessionID || m.Role != in.Role || !slices.Contains(want, m.ID) {
					c.Fatalf("limit %d gives %+v", k, m)
				}
				seen[m.ID] = true
			}
			if len(res) != min(k, len(want)) {
				c.Fatalf("limit %d gives %d of %d messages", k, len(res), len(want))
			}
		}
	})
}
