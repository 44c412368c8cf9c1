package kb

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"pgregory.net/rapid"
)

type chunk struct{ id, doc, text string }

type world struct {
	*Know
	chunks map[string]chunk // of the collection searched
	adj    map[string][]string
	nodes  int
}

func view(k *Know, collection string) *world {
	w := &world{Know: k, chunks: map[string]chunk{}, adj: map[string][]string{}}
	link := func(a, b string) { w.adj[a] = append(w.adj[a], b); w.adj[b] = append(w.adj[b], a) }
	w.nodes = len(k.Entities)
	for _, it := range k.Items {
		w.nodes += 1 + len(it.Chunks)
		for i, text := range it.Chunks {
			id := ChunkID(it.ID, i)
			if collection == "" || it.Collection == collection {
				w.chunks[id] = chunk{id, it.ID, text}
			}
			link("doc:"+it.ID, id)
			if i > 0 {
				link(ChunkID(it.ID, i-1), id)
			}
		}
	}
	for ch, es := range k.Mentions {
		for e := range es {
			link(ch, e)
		}
	}
	for _, r := range k.Rels {
		link(r.From, r.To)
	}
	return w
}

// within is the chunks of the collection at most hops away from the starts (which are included when they are chunks).
func (w *world) within(starts []string, hops int) map[string]bool {
	seen := map[string]bool{}
	front := starts
	for _, s := range starts {
		seen[s] = true
	}
	for i := 0; i < hops; i++ {
		var next []string
		for _, n := range front {
			for _, m := range w.adj[n] {
				if !seen[m] {
					seen[m] = true
					next = append(next, m)
				}
			}
		}
		front = next
	}
	out := map[string]bool{}
	for n := range seen {
		if _, ok := w.chunks[n]; ok {
			out[n] = true
		}
	}
	return out
}

// result checks what holds for every retrieval.
func (w *world) result(q string, chunks []cortexdb.GraphRAGChunkResult, entities []string, context string, graph bool, maxChunks, maxChars, perDoc int) []string {
	var lines, ids []string
	seen := map[string]bool{}
	per := map[string]int{}
	ent := map[string]bool{}
	for _, e := range entities {
		ent[e] = true
	}
	for _, c := range chunks {
		want, ok := w.chunks[c.ID]
		if !ok {
			w.C.Fatalf("%s returned chunk %q, which is not in the collection", q, c.ID)
		}
		if seen[c.ID] {
			w.C.Fatalf("%s returned chunk %q twice", q, c.ID)
		}
		seen[c.ID] = true
		if c.Content != want.text || c.DocumentID != want.doc {
			w.C.Fatalf("%s returned chunk %q as %q of %q, want %q of %q", q, c.ID, c.Content, c.DocumentID, want.text, want.doc)
		}
		per[c.DocumentID]++
		if per[c.DocumentID] > perDoc {
			w.C.Fatalf("%s returned more than %d chunks of %q", q, perDoc, c.DocumentID)
		}
		names := w.EntityNamesOf(c.ID)
		if !graph {
			names = []string{}
		}
		if !h.SameStrings(h.Sorted(append([]string{}, c.Entities...)), names) {
			w.C.Fatalf("%s: chunk %q has entities %q, want %q", q, c.ID, c.Entities, names)
		}
		for _, n := range names {
			if !ent[n] {
				w.C.Fatalf("%s: entity %q of chunk %q is missing among %q", q, n, c.ID, entities)
			}
		}
		lines = append(lines, fmt.Sprintf("[%s/%s] %s", c.DocumentID, c.ID, c.Content))
		ids = append(ids, c.ID)
	}
	if !graph && len(entities) > 0 {
		w.C.Fatalf("%s without the graph returned entities %q", q, entities)
	}
	known := map[string]bool{}
	for _, n := range w.Entities {
		known[n] = true
	}
	for _, e := range entities {
		if !known[e] {
			w.C.Fatalf("%s returned the unknown entity %q", q, e)
		}
	}
	if len(chunks) > maxChunks {
		w.C.Fatalf("%s returned %d chunks, more than %d", q, len(chunks), maxChunks)
	}
	if want := strings.Join(lines, "\n"); context != want {
		w.C.Fatalf("%s: the context is %q, want %q", q, context, want)
	}
	if len(chunks) > 1 && len(context) > maxChars {
		w.C.Fatalf("%s: the context of %d chunks has %d characters, more than %d", q, len(chunks), len(context), maxChars)
	}
	return ids
}

func (w *world) hits(q string, resp *cortexdb.KnowledgeSearchResponse) {
	group := map[string][]string{}
	best := map[string]float64{}
	for _, c := range resp.Chunks {
		if _, ok := best[c.DocumentID]; !ok || c.Score > best[c.DocumentID] {
			best[c.DocumentID] = c.Score
		}
		group[c.DocumentID] = append(group[c.DocumentID], c.ID)
	}
	if len(resp.Results) != len(group) {
		w.C.Fatalf("%s: %d items from chunks of %d documents", q, len(resp.Results), len(group))
	}
	for i, r := range resp.Results {
		it := w.Items[r.KnowledgeID]
		if it == nil || !h.SameStrings(h.Sorted(append([]string{}, r.ChunkIDs...)), h.Sorted(group[r.KnowledgeID])) || r.Score != best[r.KnowledgeID] {
			w.C.Fatalf("%s: item %s, want chunks %q at %v", q, JS(r), group[r.KnowledgeID], best[r.KnowledgeID])
		}
		if r.Title != it.Title || r.SourceURL != it.URL || r.Author != it.Author || !h.SameMap(r.Metadata, it.RecMeta) {
			w.C.Fatalf("%s: item %s, want %s", q, JS(r), JS(it))
		}
		if i > 0 && r.Score > resp.Results[i-1].Score {
			w.C.Fatalf("%s: items out of order", q)
		}
		cut := strings.TrimSuffix(r.Snippet, "...")
		ok := false
		for _, c := range resp.Chunks {
			if c.DocumentID == r.KnowledgeID && c.Score == r.Score && strings.HasPrefix(c.Content, cut) && (cut != r.Snippet || cut == c.Content) {
				ok = true
			}
		}
		if !ok || !utf8.ValidString(r.Snippet) || len(cut) == 0 {
			w.C.Fatalf("%s: snippet %q of item %q is not the beginning of its best chunk", q, r.Snippet, r.KnowledgeID)
		}
		if strings.HasSuffix(r.Snippet, "...") {
			w.C.Class("snippet cut")
		}
	}
}

func queryWords(texts ...string) []string {
	var out []string
	for _, t := range texts {
		for _, w := range Tokens(t) {
			if len(w) > 1 && w != "where" && w != "is" {
				out = append(out, w)
			}
		}
	}
	return out
}

func isGraph(mode string, disable bool, query string, names []string) bool {
	switch {
	case disable || mode == "lexical":
		return false
	case mode == "graph":
		return true
	}
	return len(names) > 0 || len(Names(query)) > 0
}

func (k *search) opts(t *rapid.T) {
	k.generous = rapid.Bool().Draw(t, "generous")
	k.maxChunks, k.maxChars, k.perDoc = 1000, 1000000, 1000
	k.req = cortexdb.KnowledgeSearchRequest{TopK: rapid.IntRange(0, 6).Draw(t, "k"), MaxHops: rapid.IntRange(0, 3).Draw(t, "hops"), MaxRelatedChunks: rapid.IntRange(0, 5).Draw(t, "related"),
		RetrievalMode: rapid.SampledFrom([]string{"", "auto", "lexical", "graph", "GRAPH"}).Draw(t, "mode"), DisableGraph: rapid.IntRange(0, 4).Draw(t, "disable") == 0,
		Collection: rapid.SampledFrom([]string{"", "notes", "Notes"}).Draw(t, "in"), DiversityLambda: rapid.SampledFrom([]float64{0, 0.3, 1}).Draw(t, "lambda")}
	if !k.generous {
		k.maxChunks, k.maxChars, k.perDoc = rapid.IntRange(1, 5).Draw(t, "maxChunks"), rapid.IntRange(20, 400).Draw(t, "maxChars"), rapid.IntRange(1, 3).Draw(t, "perDoc")
	}
	k.req.MaxContextChunks, k.req.MaxContextChars, k.req.PerDocumentLimit = k.maxChunks, k.maxChars, k.perDoc
	k.req.Query = Phrase(t, 1, 3, "q")
	if rapid.IntRange(0, 3).Draw(t, "form") == 0 {
		k.req.Query = "where is " + k.req.Query + "?"
	}
	if rapid.IntRange(0, 2).Draw(t, "names") == 0 {
		k.req.EntityNames = []string{rapid.SampledFrom(EntityNames).Draw(t, "name")}
	}
	switch rapid.IntRange(0, 4).Draw(t, "more") {
	case 0:
		k.req.Keywords = []string{Phrase(t, 1, 2, "kw")}
	case 1:
		k.req.AlternateQueries = []string{Phrase(t, 1, 2, "alt")}
	}
}

type search struct {
	req                         cortexdb.KnowledgeSearchRequest
	generous                    bool
	maxChunks, maxChars, perDoc int
}

// Search draws a query and checks what the knowledge search returns.
func (k *Know) Search(t *rapid.T) {
	var s search
	s.opts(t)
	col := s.req.Collection
	if col == "" {
		col = DefaultCollection
	}
	w := view(k, col)
	mode := strings.ToLower(s.req.RetrievalMode)
	topK, hops, related := s.req.TopK, s.req.MaxHops, s.req.MaxRelatedChunks
	if topK == 0 {
		topK = 4
	}
	if hops == 0 {
		hops = 2
	}
	if related == 0 {
		related = topK
	}
	vector := k.E != nil && mode != "lexical"
	c := k.C
	what := "search " + JS(s.req)
	c.Op("%s", what)
	resp, err := k.T.SearchKnowledge(k.Ctx, s.req)
	h.CheckInfra(err)
	c.Must(err, "%s", what)
	if resp.Query != s.req.Query {
		c.Fatalf("%s echoed %q", what, resp.Query)
	}
	graph := isGraph(mode, s.req.DisableGraph, s.req.Query, nil)
	if !vector {
		graph = isGraph(mode, s.req.DisableGraph, s.req.Query, s.req.EntityNames)
	}
	got := w.result(what, resp.Chunks, resp.Entities, resp.Context, graph, s.maxChunks, s.maxChars, s.perDoc)
	w.hits(what, resp)
	in := map[string]bool{}
	for _, id := range got {
		in[id] = true
	}
	if len(got) > 0 && len(got) < len(w.chunks) {
		c.NonTrivial()
	}
	if vector {
		c.Class("semantic seeds")
		type sc struct {
			id string
			s  float64
		}
		var all []sc
		score := map[string]float64{}
		for id, ch := range w.chunks {
			x := h.Cosine(k.E.Of(s.req.Query), k.E.Of(ch.text))
			score[id] = x
			all = append(all, sc{id, x})
		}
		sort.Slice(all, func(i, j int) bool { return all[i].s > all[j].s })
		sure, maybe := map[string]bool{}, []string{}
		tie := false
		for i, a := range all {
			kth := all[min(topK, len(all))-1].s
			if a.s > kth+1e-5 || len(all) <= topK {
				sure[a.id] = true
			}
			if a.s >= kth-1e-5 {
				maybe = append(maybe, a.id)
			}
			_ = i
		}
		tie = len(maybe) > topK
		if k.Written > 33 {
			return // the index is only exact for small stores
		}
		reach := w.within(maybe, hops)
		possible := map[string]bool{}
		for _, id := range maybe {
			possible[id] = true
		}
		if graph {
			possible = reach
		}
		for _, id := range got {
			if !possible[id] {
				c.Fatalf("%s returned %q, neither among the %d best nor within %d hops of them", what, id, topK, hops)
			}
		}
		for _, r := range resp.Chunks {
			if sure[r.ID] && !h.Near(r.BaseScore, score[r.ID], 1e-4) {
				c.Fatalf("%s: chunk %q has base score %v, want %v", what, r.ID, r.BaseScore, score[r.ID])
			}
		}
		if s.generous {
			for id := range sure {
				if !in[id] {
					c.Fatalf("%s does not return %q, one of the %d best chunks", what, id, topK)
				}
			}
			n := min(topK, len(all))
			if graph && !tie && w.nodes <= topK*12 {
				n += min(related, len(reach)-n)
				c.Class("graph expansion")
			}
			if !graph && len(got) != n || graph && !tie && w.nodes <= topK*12 && len(got) != n {
				c.Fatalf("%s returned %d chunks, want %d (%d in the collection, %d reachable)", what, len(got), n, len(all), len(reach))
			}
		} else if len(all) > 0 && len(got) == 0 {
			c.Fatalf("%s returned nothing of %d chunks", what, len(all))
		}
		return
	}
	c.Class("lexical seeds")
	match := map[string]bool{}
	var starts []string
	for id, ch := range w.chunks {
		toks := Tokens(ch.text)
		ok := Any(toks, queryWords(append([]string{s.req.Query}, s.req.Keywords...)...)) || All(toks, Tokens(s.req.Query))
		for _, a := range s.req.AlternateQueries {
			ok = ok || All(toks, Tokens(a))
		}
		if ok {
			match[id] = true
			starts = append(starts, id)
		}
	}
	possible := map[string]bool{}
	for id := range match {
		possible[id] = true
	}
	if graph {
		names := s.req.EntityNames
		if len(names) == 0 {
			names = Names(s.req.Query)
		}
		for _, n := range names {
			for id := range w.within([]string{EntityID(n)}, hops) {
				starts = append(starts, id)
			}
		}
		possible = w.within(starts, hops)
	}
	for _, id := range got {
		if !possible[id] {
			c.Fatalf("%s returned %q (%q), which neither matches nor is linked to a match", what, id, w.chunks[id].text)
		}
	}
	if s.generous {
		n := 0
		for _, id := range got {
			if match[id] {
				n++
			}
		}
		if want := min(topK, len(match)); n < want || !graph && n != want {
			c.Fatalf("%s returned %d matching chunks of %d with a limit of %d: %q", what, n, len(match), topK, got)
		}
		// entity seeds
		if graph && len(starts) > len(match) && w.nodes <= topK*8 {
			c.Class("entity seeds")
			if len(got) < min(topK, len(possibleSeeds(w, s, hops, match))) {
				c.Fatalf("%s returned %d chunks, fewer than its seeds", what, len(got))
			}
		}
	} else if len(match) > 0 && len(got) == 0 {
		c.Fatalf("%s returned nothing of %d matches", what, len(match))
	}
}

func possibleSeeds(w *world, s search, hops int, match map[string]bool) map[string]bool {
	out := map[string]bool{}
	for id := range match {
		out[id] = true
	}
	names := s.req.EntityNames
	if len(names) == 0 {
		names = Names(s.req.Query)
	}
	for _, n := range names {
		for id := range w.within([]string{EntityID(n)}, hops) {
			out[id] = true
		}
	}
	return out
}
