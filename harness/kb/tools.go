package kb

import (
	"fmt"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"pgregory.net/rapid"
)

// toolChunk compares a returned chunk with the model.
func (w *world) toolChunk(what string, c cortexdb.ToolChunk, entities bool) {
	want, ok := w.chunks[c.ID]
	if !ok {
		w.C.Fatalf("%s returned %q, which is not stored there", what, c.ID)
	}
	names := []string{}
	if entities {
		names = w.EntityNamesOf(c.ID)
	}
	if c.Content != want.text || c.DocumentID != want.doc || !h.SameStrings(h.Sorted(append([]string{}, c.Entities...)), names) {
		w.C.Fatalf("%s returned %s, want %q of %q with entities %q", what, JS(c), want.text, want.doc, names)
	}
	for k, v := range w.Items[want.doc].Meta {
		if c.Metadata[k] != v {
			w.C.Fatalf("%s: chunk %q lacks metadata %q=%q", what, c.ID, k, v)
		}
	}
}

func topK(t *rapid.T) int {
	if rapid.IntRange(0, 4).Draw(t, "many") == 0 {
		return rapid.IntRange(7, 25).Draw(t, "kk")
	}
	return rapid.IntRange(0, 6).Draw(t, "k")
}

func drawMode(t *rapid.T) (string, bool) {
	return rapid.SampledFrom([]string{"", "auto", "lexical", "graph"}).Draw(t, "mode"), rapid.IntRange(0, 4).Draw(t, "disable") == 0
}

// matches are the chunks a lexical query finds.
func (w *world) matches(query string, kw, alt []string) map[string]bool {
	out := map[string]bool{}
	for id, ch := range w.chunks {
		toks := Tokens(ch.text)
		ok := Any(toks, queryWords(append([]string{query}, kw...)...)) || All(toks, Tokens(query))
		for _, a := range alt {
			ok = ok || All(toks, Tokens(a))
		}
		if ok {
			out[id] = true
		}
	}
	return out
}

// SearchText checks the lexical search tool.
func (k *Know) SearchText(t *rapid.T) {
	req := cortexdb.ToolSearchTextRequest{Query: Phrase(t, 1, 3, "q"), TopK: topK(t), Collection: rapid.SampledFrom([]string{"", DefaultCollection, "notes"}).Draw(t, "in")}
	req.RetrievalMode, req.DisableGraph = drawMode(t)
	switch rapid.IntRange(0, 3).Draw(t, "more") {
	case 0:
		req.Keywords = []string{Phrase(t, 1, 2, "kw")}
	case 1:
		req.AlternateQueries = []string{Phrase(t, 1, 2, "alt")}
	}
	what := "search_text " + JS(req)
	k.C.Op("%s", what)
	w := view(k, req.Collection)
	resp, err := k.T.SearchText(k.Ctx, req)
	h.CheckInfra(err)
	k.C.Must(err, "%s", what)
	match := w.matches(req.Query, req.Keywords, req.AlternateQueries)
	limit := req.TopK
	if limit == 0 {
		limit = 10
	}
	if len(resp.Chunks) != min(limit, len(match)) {
		k.C.Fatalf("%s returned %d chunks of %d matches", what, len(resp.Chunks), len(match))
	}
	seen := map[string]bool{}
	for i, c := range resp.Chunks {
		w.toolChunk(what, c, isGraph(req.RetrievalMode, req.DisableGraph, req.Query, nil))
		if !match[c.ID] || seen[c.ID] {
			k.C.Fatalf("%s returned %q (%q): no match or returned before", what, c.ID, c.Content)
		}
		seen[c.ID] = true
		if i > 0 && c.Score > resp.Chunks[i-1].Score {
			k.C.Fatalf("%s: scores out of order", what)
		}
	}
}

// SearchLinked checks the search by entities.
func (k *Know) SearchLinked(t *rapid.T) {
	names := rapid.SliceOfNDistinct(rapid.SampledFrom(EntityNames), 1, 3, rapid.ID[string]).Draw(t, "names")
	req := cortexdb.ToolSearchChunksByEntitiesRequest{EntityNames: append([]string{}, names...), TopK: topK(t), MaxHops: rapid.IntRange(0, 3).Draw(t, "hops")}
	if rapid.Bool().Draw(t, "byID") {
		req.EntityNames[0] = EntityID(names[0])
	}
	what := "search_chunks_by_entities " + JS(req)
	k.C.Op("%s", what)
	w := view(k, "")
	resp, err := k.T.SearchChunksByEntities(k.Ctx, req)
	h.CheckInfra(err)
	k.C.Must(err, "%s", what)
	limit, hops := req.TopK, max(req.MaxHops, 1)
	if limit == 0 {
		limit = 10
	}
	score := map[string]float64{}
	for _, n := range names {
		id := EntityID(n)
		if _, ok := k.Entities[id]; !ok {
			continue
		}
		for ch := range w.within([]string{id}, hops) {
			score[ch]++
		}
	}
	if len(w.chunks) > 8*limit {
		return // the neighbourhood is cut
	}
	var ids []string
	var scores []float64
	for _, c := range resp.Chunks {
		w.toolChunk(what, c, true)
		ids = append(ids, c.ID)
		scores = append(scores, c.Score)
	}
	if msg := h.CheckTopK(ids, scores, score, limit, 1e-9); msg != "" {
		k.C.Fatalf("%s: %s", what, msg)
	}
	if len(ids) > 0 {
		k.C.Class("chunks linked to entities")
	}
}

type link struct{ from, kind, to string }

func (k *Know) links() []link {
	var out []link
	for _, it := range k.Items {
		for i := range it.Chunks {
			out = append(out, link{"doc:" + it.ID, "has_chunk", ChunkID(it.ID, i)})
			if i > 0 {
				out = append(out, link{ChunkID(it.ID, i-1), "next", ChunkID(it.ID, i)})
			}
		}
	}
	for ch, es := range k.Mentions {
		for e := range es {
			out = append(out, link{ch, "mentions", e})
		}
	}
	for _, r := range k.Rels {
		out = append(out, link{r.From, r.Type, r.To})
	}
	return out
}

func (k *Know) nodeTypes() map[string]string {
	out := map[string]string{}
	for _, it := range k.Items {
		out["doc:"+it.ID] = "document"
		for i := range it.Chunks {
			out[ChunkID(it.ID, i)] = "chunk"
		}
	}
	for id := range k.Entities {
		out[id] = ""
	}
	return out
}

func keys(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	return h.Sorted(out)
}

// Expand checks the graph expansion tool.
func (k *Know) Expand(t *rapid.T) {
	types := k.nodeTypes()
	all := keys(types)
	if len(all) == 0 {
		t.Skip("empty")
	}
	req := cortexdb.ToolExpandGraphRequest{NodeIDs: rapid.SliceOfNDistinct(rapid.SampledFrom(all), 1, 2, rapid.ID[string]).Draw(t, "from"), MaxHops: rapid.IntRange(0, 3).Draw(t, "hops")}
	if rapid.Bool().Draw(t, "byEdge") {
		req.EdgeTypes = rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"mentions", "next", "has_chunk", "related_to"}), 1, 2, rapid.ID[string]).Draw(t, "edges")
	}
	if rapid.IntRange(0, 2).Draw(t, "byNode") == 0 {
		req.NodeTypes = []string{rapid.SampledFrom([]string{"chunk", "document"}).Draw(t, "nodes")}
	}
	if rapid.IntRange(0, 2).Draw(t, "limited") == 0 {
		req.Limit = rapid.IntRange(1, 5).Draw(t, "limit")
	}
	what := "expand_graph " + JS(req)
	k.C.Op("%s", what)
	resp, err := k.T.ExpandGraph(k.Ctx, req)
	h.CheckInfra(err)
	k.C.Must(err, "%s", what)
	links := k.links()
	got := map[string]bool{}
	for _, n := range resp.Nodes {
		if got[n.ID] {
			k.C.Fatalf("%s returned %q twice", what, n.ID)
		}
		got[n.ID] = true
	}
	in := map[string]bool{}
	room := 0
	for _, s := range req.NodeIDs {
		in[s] = true
		rest := req.Limit
		mine := 0
		seen := map[string]bool{s: true}
		front := map[string]bool{s: true}
		for i := 0; i < max(req.MaxHops, 1); i++ {
			next := map[string]bool{}
			for _, l := range links {
				if len(req.EdgeTypes) > 0 && !Has(req.EdgeTypes, l.kind) {
					continue
				}
				for _, p := range [][2]string{{l.from, l.to}, {l.to, l.from}} {
					if front[p[0]] && !seen[p[1]] {
						next[p[1]] = true
					}
				}
			}
			fit, held := 0, 0
			for n := range next {
				seen[n] = true
				if len(req.NodeTypes) == 0 || Has(req.NodeTypes, types[n]) {
					in[n] = true
					fit++
					if got[n] {
						held++
					}
				}
			}
			// the nearest are taken first, as many as the limit allows
			take := fit
			if req.Limit > 0 {
				take = min(fit, rest)
				rest -= take
			}
			mine += take
			if held < take {
				k.C.Fatalf("%s has %d of %d nodes %d links from %q", what, held, take, i+1, s)
			}
			front = next
		}
		room += mine
		if !got[s] {
			k.C.Fatalf("%s lacks its start %q", what, s)
		}
	}
	for n := range got {
		if !in[n] {
			k.C.Fatalf("%s returned %q, which is not within reach", what, n)
		}
	}
	if len(got) > len(req.NodeIDs)+room || req.Limit == 0 && len(got) != len(in) {
		k.C.Fatalf("%s returned %d nodes of %d within reach", what, len(got), len(in))
	}
	in = got
	ends, want := []string(nil), []string(nil)
	for _, e := range resp.Edges {
		ends = append(ends, e.FromNodeID+"-"+e.EdgeType+"->"+e.ToNodeID)
	}
	for _, l := range links {
		if in[l.from] && in[l.to] {
			want = append(want, l.from+"-"+l.kind+"->"+l.to)
		}
	}
	diff(k.C, what+" edges", ends, want)
	if len(req.NodeIDs) < len(in) && len(in) < len(all) {
		k.C.Class("partial expansion")
	}
}

// drawChunks draws chunk ids, some of which may not exist.
func (k *Know) drawChunks(t *rapid.T, w *world) []string {
	all := []string{"chunk:none:000", "doc:k1", ""}
	for id := range w.chunks {
		all = append(all, id)
	}
	return rapid.SliceOfNDistinct(rapid.SampledFrom(h.Sorted(all)), 0, 8, rapid.ID[string]).Draw(t, "ids")
}

// Fetch checks the tools that load chunks and nodes.
func (k *Know) Fetch(t *rapid.T) {
	w := view(k, "")
	req := cortexdb.ToolGetChunksRequest{ChunkIDs: k.drawChunks(t, w)}
	req.RetrievalMode, req.DisableGraph = drawMode(t)
	what := "get_chunks " + JS(req)
	k.C.Op("%s", what)
	resp, err := k.T.GetChunks(k.Ctx, req)
	h.CheckInfra(err)
	k.C.Must(err, "%s", what)
	var got, want []string
	for _, c := range resp.Chunks {
		w.toolChunk(what, c, !req.DisableGraph && req.RetrievalMode != "lexical")
		got = append(got, c.ID)
	}
	for _, id := range req.ChunkIDs {
		if _, ok := w.chunks[id]; ok {
			want = append(want, id)
		}
	}
	if !h.SameStrings(got, want) {
		k.C.Fatalf("%s returned %q, want %q", what, got, want)
	}
	types := k.nodeTypes()
	nreq := cortexdb.ToolGetNodesRequest{NodeIDs: rapid.SliceOfNDistinct(rapid.SampledFrom(append(keys(types), "doc:none", "")), 0, 6, rapid.ID[string]).Draw(t, "nodes")}
	what = "get_nodes " + JS(nreq)
	k.C.Op("%s", what)
	nresp, err := k.T.GetNodes(k.Ctx, nreq)
	h.CheckInfra(err)
	k.C.Must(err, "%s", what)
	got, want = nil, nil
	for _, n := range nresp.Nodes {
		got = append(got, n.ID)
		if ty := types[n.ID]; ty != "" && n.NodeType != ty || strings.HasPrefix(n.ID, "entity:") && n.Content != k.Entities[n.ID] {
			k.C.Fatalf("%s returned %s", what, JS(n))
		}
	}
	for _, id := range nreq.NodeIDs {
		if _, ok := types[id]; ok {
			want = append(want, id)
		}
	}
	diff(k.C, what, got, want)
}

// Pack checks the tool that builds a context.
func (k *Know) Pack(t *rapid.T) {
	w := view(k, "")
	req := cortexdb.ToolBuildContextRequest{ChunkIDs: k.drawChunks(t, w), MaxContextChunks: rapid.IntRange(0, 5).Draw(t, "chunks"), MaxContextChars: rapid.SampledFrom([]int{0, 40, 100, 300, 100000}).Draw(t, "chars"), PerDocumentLimit: rapid.IntRange(0, 4).Draw(t, "per")}
	req.RetrievalMode, req.DisableGraph = drawMode(t)
	what := "build_context " + JS(req)
	k.C.Op("%s", what)
	resp, err := k.T.BuildContext(k.Ctx, req)
	h.CheckInfra(err)
	k.C.Must(err, "%s", what)
	maxChunks, chars, per := req.MaxContextChunks, req.MaxContextChars, req.PerDocumentLimit
	if maxChunks == 0 {
		maxChunks = 8
	}
	if chars == 0 {
		chars = 2400
	}
	if per == 0 {
		per = 2
	}
	var have []string
	for _, id := range req.ChunkIDs {
		if _, ok := w.chunks[id]; ok {
			have = append(have, id)
		}
	}
	var lines []string
	i, docs := 0, map[string]int{}
	for _, c := range resp.Chunks {
		for ; i < len(have) && have[i] != c.ID; i++ {
			// skipped: a limit has to be the reason
			ch := w.chunks[have[i]]
			room := len(strings.Join(lines, "\n")) + len(ch.text) + len(ch.id) + len(ch.doc) + 40 + 8*len(lines)
			if docs[ch.doc] < per && (len(lines) == 0 || room <= chars) {
				k.C.Fatalf("%s leaves out %q, for which there is room", what, have[i])
			}
		}
		if i == len(have) {
			k.C.Fatalf("%s: %q is repeated, out of order or not asked for", what, c.ID)
		}
		i++
		ch := w.chunks[c.ID]
		if c.Content != ch.text || c.DocumentID != ch.doc {
			k.C.Fatalf("%s returned %s", what, JS(c))
		}
		docs[ch.doc]++
		if docs[ch.doc] > per {
			k.C.Fatalf("%s returned more than %d chunks of %q", what, per, ch.doc)
		}
		lines = append(lines, fmt.Sprintf("[%s/%s] %s", c.DocumentID, c.ID, c.Content))
	}
	for ; i < len(have) && len(lines) < maxChunks; i++ {
		ch := w.chunks[have[i]]
		room := len(strings.Join(lines, "\n")) + len(ch.text) + len(ch.id) + len(ch.doc) + 40 + 8*len(lines)
		if docs[ch.doc] < per && (len(lines) == 0 || room <= chars) {
			k.C.Fatalf("%s leaves out %q, for which there is room", what, have[i])
		}
	}
	if len(lines) > maxChunks || len(lines) > 1 && len(resp.Context) > chars || resp.Context != strings.Join(lines, "\n") {
		k.C.Fatalf("%s: %d chunks, context %q, want %q", what, len(lines), resp.Context, strings.Join(lines, "\n"))
	}
	if len(lines) < len(have) {
		k.C.Class("context cut")
	}
}
