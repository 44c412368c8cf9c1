package kb

import (
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"
	"unicode"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"pgregory.net/rapid"
)

// DefaultCollection is where chunks go unless said otherwise.
const DefaultCollection = "graphrag_chunks"

// JS renders a value for messages.
func JS(v any) string { b, _ := json.Marshal(v); return string(b) }

// Chunks is the reference splitting: per line, windows of size words overlapping by overlap.
func Chunks(text string, size, overlap int) []string {
	if size <= 0 {
		size = 120
	}
	if overlap < 0 {
		overlap = 0
	}
	if overlap >= size {
		overlap = size / 4
	}
	var out []string
	for _, line := range strings.FieldsFunc(text, func(r rune) bool { return r == '\n' || r == '\r' }) {
		w := strings.Fields(line)
		for i := 0; i < len(w); i += size - overlap {
			j := i + size
			if j >= len(w) {
				out = append(out, strings.Join(w[i:], " "))
				break
			}
			out = append(out, strings.Join(w[i:j], " "))
		}
	}
	return out
}

// Names are the runs of capitalised words of a chunk.
func Names(chunk string) []string {
	var out, run []string
	flush := func() {
		if len(run) > 0 {
			out = append(out, strings.Join(run, " "))
		}
		run = nil
	}
	for _, w := range strings.Fields(chunk) {
		if r := []rune(w)[0]; r >= 'A' && r <= 'Z' {
			run = append(run, w)
		} else {
			flush()
		}
	}
	flush()
	return out
}

// EntityID is the node id of an entity name.
func EntityID(name string) string {
	var b strings.Builder
	for _, r := range strings.ToLower(strings.TrimSpace(name)) {
		switch {
		case unicode.IsLetter(r) || unicode.IsDigit(r):
			b.WriteRune(r)
		case r == ' ' || r == '-' || r == '_':
			b.WriteRune('_')
		}
	}
	return "entity:" + strings.Trim(b.String(), "_")
}

func ChunkID(doc string, i int) string { return fmt.Sprintf("chunk:%s:%03d", doc, i) }

// Item is the model of one knowledge item.
type Item struct {
	ID, Title, Content, URL, Author, Collection string
	Meta                                        map[string]string
	Chunks                                      []string
	Version                                     int
	RecMeta                                     map[string]string // of the record; Meta is that of the chunks
}

// Rel is the model of one relation edge.
type Rel struct {
	Doc, From, To, Type string
	Weight              float64
	Props               string
}

// Know is a database of knowledge items with its model.
type Know struct {
	*DB
	T                         API
	Make                      func(*DB) API
	Items                     map[string]*Item
	Mentions                  map[string]map[string]bool // chunk id -> entity ids
	Entities                  map[string]string          // entity id -> name
	Rels                      map[string]Rel             // edge id -> relation
	Replaced, Removed, Failed int
	Written                   int // chunks ever written
}

var DocIDs = []string{"k1", "k2", "k", "k:000", "K1", "日本", "it's %"}
var Collections = []string{"", "", "notes", "graphrag_chunks", "Notes", "notes2"}
var EntityNames = []string{"Fjord", "Golem", "Acme Corp", "x-1", "Zoë"}

// NewKnow opens a knowledge base; dim 0 means without an embedder.
func NewKnow(c *h.C, dim int) *Know {
	k := &Know{DB: Open(c, dim, core.IndexTypeHNSW), Items: map[string]*Item{}, Mentions: map[string]map[string]bool{}, Entities: map[string]string{}, Rels: map[string]Rel{}}
	k.Use(Direct)
	c.Must(k.Graph().InitGraphSchema(k.Ctx), "graph schema")
	if dim == 0 && rapid.IntRange(0, 3).Draw(c.T, "made") == 0 {
		_, err := k.Vector().(*core.SQLiteStore).CreateCollection(k.Ctx, "notes", 7)
		c.Must(err, "collection")
	}
	return k
}

// Use makes the model call the database through another API.
func (k *Know) Use(make func(*DB) API) { k.Make, k.T = make, make(k.DB) }

// Restart closes and reopens the database.
func (k *Know) Restart() {
	k.Reopen()
	k.T = k.Make(k.DB)
}

// Text draws a document of several lines.
func Text(t *rapid.T, label string) string {
	n := rapid.IntRange(1, 4).Draw(t, label+"Lines")
	lines := make([]string, n)
	for i := range lines {
		lines[i] = Phrase(t, 0, 9, label)
		if rapid.IntRange(0, 14).Draw(t, label+"Long") == 0 {
			lines[i] = Phrase(t, 30, 60, label)
		}
	}
	return strings.Join(lines, rapid.SampledFrom([]string{"\n", "\n\n", "\r\n", " \n  "}).Draw(t, label+"Sep"))
}

func DrawMeta(t *rapid.T) map[string]string {
	n := rapid.IntRange(-1, 2).Draw(t, "nmeta")
	if n < 0 {
		return nil
	}
	m := map[string]string{}
	for i := 0; i < n; i++ {
		m[rapid.SampledFrom([]string{"topic", "it's", "日本"}).Draw(t, "mk")] = rapid.SampledFrom([]string{"x", "", "true", "5", `q"`}).Draw(t, "mv")
	}
	return m
}

// forget drops the artifacts of a document from the model.
func (k *Know) forget(id string) {
	if it := k.Items[id]; it != nil {
		for i := range it.Chunks {
			delete(k.Mentions, ChunkID(id, i))
		}
	}
	for e, r := range k.Rels {
		if r.Doc == id {
			delete(k.Rels, e)
		}
	}
	delete(k.Items, id)
}

func (k *Know) mention(chunk, name string) { k.mentionID(chunk, EntityID(name), name) }

func (k *Know) mentionID(chunk, id, name string) {
	k.Entities[id] = name
	if chunk == "" || !k.hasChunk(chunk) {
		return
	}
	if k.Mentions[chunk] == nil {
		k.Mentions[chunk] = map[string]bool{}
	}
	k.Mentions[chunk][id] = true
}

func (k *Know) hasChunk(id string) bool {
	for _, it := range k.Items {
		for i := range it.Chunks {
			if ChunkID(it.ID, i) == id {
				return true
			}
		}
	}
	return false
}

// put stores the item in the model, with the entities extracted when there is an embedder.
func (k *Know) put(it *Item) {
	v := 1
	if old := k.Items[it.ID]; old != nil {
		v = old.Version + 1
		k.Replaced++
	}
	k.forget(it.ID)
	it.Version = v
	if it.Collection == "" {
		it.Collection = DefaultCollection
	}
	k.Items[it.ID] = it
	k.Written += len(it.Chunks)
	if k.E != nil {
		for i, ch := range it.Chunks {
			for _, n := range Names(ch) {
				k.mention(ChunkID(it.ID, i), n)
			}
		}
	}
}

// DrawEntities draws entities mentioned by chunks of doc (and by one that is not there).
func (k *Know) DrawEntities(t *rapid.T, doc string, chunks int) []cortexdb.ToolEntityInput {
	n := rapid.IntRange(0, 2).Draw(t, "nent")
	var out []cortexdb.ToolEntityInput
	for i := 0; i < n; i++ {
		e := cortexdb.ToolEntityInput{Name: rapid.SampledFrom(EntityNames).Draw(t, "ent"), Type: rapid.SampledFrom([]string{"", "person", "entity"}).Draw(t, "etype"), Description: rapid.SampledFrom([]string{"", "a thing"}).Draw(t, "edesc")}
		if rapid.IntRange(0, 5).Draw(t, "named") == 0 {
			e.ID, e.Name = "No-7", "Seven Seas"
		}
		e.Metadata = DrawMeta(t)
		for j := 0; j <= chunks; j++ {
			if rapid.Bool().Draw(t, "mentions") {
				e.ChunkIDs = append(e.ChunkIDs, ChunkID(doc, j))
			}
		}
		out = append(out, e)
	}
	return out
}

// DrawRelations draws relations between entities that may or may not be known.
func (k *Know) DrawRelations(t *rapid.T) []cortexdb.ToolRelationInput {
	n := rapid.IntRange(0, 2).Draw(t, "nrel")
	var out []cortexdb.ToolRelationInput
	for i := 0; i < n; i++ {
		ends := append([]string{"no 7"}, EntityNames...)
		r := cortexdb.ToolRelationInput{From: rapid.SampledFrom(ends).Draw(t, "from"), To: rapid.SampledFrom(ends).Draw(t, "to"),
			Type: rapid.SampledFrom([]string{"", "knows"}).Draw(t, "rtype"), Weight: rapid.SampledFrom([]float64{0, 0.5, 1, 3, -0.5}).Draw(t, "weight"), Metadata: DrawMeta(t)}
		if rapid.IntRange(0, 3).Draw(t, "by") == 0 {
			r.ChunkIDs = []string{ChunkID("k1", 0), "elsewhere"}[:rapid.IntRange(1, 2).Draw(t, "nby")]
		}
		out = append(out, r)
	}
	return out
}

func (k *Know) entities(es []cortexdb.ToolEntityInput) {
	last := map[string]string{}
	var ids []string
	for _, e := range es {
		id := entityOf(e)
		k.mentionID("", id, e.Name)
		for _, ch := range e.ChunkIDs {
			k.mentionID(ch, id, e.Name)
		}
		props := map[string]any{"name": e.Name}
		if e.Description != "" {
			props["description"] = e.Description
		}
		for mk, mv := range e.Metadata {
			props[mk] = mv
		}
		ty := e.Type
		if ty == "" {
			ty = "entity"
		}
		if last[id] == "" {
			ids = append(ids, id)
		}
		last[id] = ty + " " + JS(props)
	}
	for _, id := range ids {
		n, err := k.Graph().GetNode(k.Ctx, id)
		k.C.Must(err, "entity "+id)
		if got := n.NodeType + " " + JS(n.Properties); got != last[id] {
			k.C.Fatalf("entity %q is stored as %s, want %s", id, got, last[id])
		}
	}
}

// entityOf is the node id of an entity given with or without an id of its own.
func entityOf(e cortexdb.ToolEntityInput) string {
	if e.ID != "" {
		return EntityID(e.ID)
	}
	return EntityID(e.Name)
}

// relProps are the properties stored with a relation.
func relProps(doc string, r cortexdb.ToolRelationInput) string {
	props := map[string]any{"document_id": doc}
	if len(r.ChunkIDs) > 0 {
		props["chunk_ids"] = r.ChunkIDs
	}
	for mk, mv := range r.Metadata {
		props[mk] = mv
	}
	return JS(props)
}

// relations records the relations whose ends are known; ids are those the library reported.
func (k *Know) relations(doc string, rs []cortexdb.ToolRelationInput, ids []string) {
	want := 0
	for _, r := range rs {
		_, a := k.Entities[EntityID(r.From)]
		_, b := k.Entities[EntityID(r.To)]
		if a && b {
			want++
		}
	}
	if len(ids) != want {
		k.C.Fatalf("%d of the relations %s have known ends, but the edges reported are %q", want, JS(rs), ids)
	}
	if want == 0 {
		return
	}
	edges, err := k.Graph().GetEdgesBatch(k.Ctx, ids)
	k.C.Must(err, "reported edges")
	if len(edges) != want {
		k.C.Fatalf("reported edges %q, of which only %d exist", ids, len(edges))
	}
	var got, exp []string
	for _, e := range edges {
		k.Rels[e.ID] = Rel{doc, e.FromNodeID, e.ToNodeID, e.EdgeType, e.Weight, JS(e.Properties)}
		got = append(got, fmt.Sprint(e.FromNodeID, e.ToNodeID, e.EdgeType, e.Weight, JS(e.Properties)))
	}
	for _, r := range rs {
		_, a := k.Entities[EntityID(r.From)]
		_, b := k.Entities[EntityID(r.To)]
		if a && b {
			ty, w := r.Type, r.Weight
			if ty == "" {
				ty = "related_to"
			}
			if w == 0 {
				w = 1
			}
			exp = append(exp, fmt.Sprint(EntityID(r.From), EntityID(r.To), ty, w, relProps(doc, r)))
		}
	}
	if !h.SameStrings(h.Sorted(got), h.Sorted(exp)) {
		k.C.Fatalf("relation edges %q, want %q", got, exp)
	}
}

func size(t *rapid.T) (int, int) {
	return rapid.IntRange(0, 6).Draw(t, "size"), rapid.IntRange(-1, 5).Draw(t, "overlap")
}

// Save saves or replaces an item; the embedder may fail on the way.
func (k *Know) Save(t *rapid.T) {
	sz, ov := size(t)
	req := cortexdb.KnowledgeSaveRequest{KnowledgeID: rapid.SampledFrom(DocIDs).Draw(t, "id"), Title: rapid.SampledFrom([]string{"", "Title", "x y"}).Draw(t, "title"), Content: Text(t, "content"),
		SourceURL: rapid.SampledFrom([]string{"", "http://x"}).Draw(t, "url"), Author: rapid.SampledFrom([]string{"", "ann"}).Draw(t, "author"), Collection: rapid.SampledFrom(Collections).Draw(t, "collection"),
		ChunkSize: sz, ChunkOverlap: ov, Metadata: DrawMeta(t)}
	chunks := Chunks(req.Content, sz, ov)
	req.Entities = k.DrawEntities(t, req.KnowledgeID, len(chunks))
	req.Relations = k.DrawRelations(t)
	down := k.fault(t)
	k.C.Op("save %s fail after %d", JS(req), down)
	resp, err := k.T.SaveKnowledge(k.Ctx, req)
	k.heal()
	h.CheckInfra(err)
	if len(chunks) == 0 {
		if err == nil {
			k.C.Fatalf("save without text accepted")
		}
		return
	}
	if err != nil && down >= 0 && errors.Is(err, cortexdb.ErrEmbeddingFailed) || err != nil && down >= 0 && strings.Contains(err.Error(), ErrDown.Error()) {
		k.Failed++
		return
	}
	k.C.Must(err, "save")
	k.put(&Item{ID: req.KnowledgeID, Title: req.Title, Content: req.Content, URL: req.SourceURL, Author: req.Author, Collection: req.Collection, Meta: req.Metadata, Chunks: chunks, RecMeta: req.Metadata})
	k.entities(req.Entities)
	k.relations(req.KnowledgeID, req.Relations, resp.RelationEdgeIDs)
	k.CheckRecord("save", resp.Knowledge)
}

func (k *Know) fault(t *rapid.T) int {
	if k.E == nil || rapid.IntRange(0, 5).Draw(t, "fault") > 0 {
		return -1
	}
	n := rapid.IntRange(0, 2).Draw(t, "after")
	k.E.FailAfter(n)
	return n
}

func (k *Know) heal() {
	if k.E != nil {
		k.E.FailAfter(-1)
	}
}

// Update updates an item.
func (k *Know) Update(t *rapid.T) {
	req := cortexdb.KnowledgeUpdateRequest{KnowledgeID: rapid.SampledFrom(DocIDs).Draw(t, "id")}
	str := func(label string, draw func() string) *string {
		if !rapid.Bool().Draw(t, "set"+label) {
			return nil
		}
		s := draw()
		return &s
	}
	req.Title = str("Title", func() string { return rapid.SampledFrom([]string{"", "New"}).Draw(t, "title") })
	req.Content = str("Content", func() string { return Text(t, "content") })
	req.SourceURL = str("URL", func() string { return rapid.SampledFrom([]string{"", "http://y"}).Draw(t, "url") })
	req.Author = str("Author", func() string { return rapid.SampledFrom([]string{"", "bob"}).Draw(t, "author") })
	req.Collection = str("Collection", func() string { return rapid.SampledFrom([]string{"notes", "graphrag_chunks"}).Draw(t, "collection") })
	if rapid.Bool().Draw(t, "setMeta") {
		req.Metadata = DrawMeta(t)
	}
	sz, ov := 0, 0
	if rapid.Bool().Draw(t, "setSize") {
		sz, ov = size(t)
		req.ChunkSize, req.ChunkOverlap = &sz, &ov
	}
	old := k.Items[req.KnowledgeID]
	n := Item{}
	if old != nil {
		n = *old
	}
	if req.Title != nil {
		n.Title = *req.Title
	}
	if req.Content != nil {
		n.Content = *req.Content
	}
	if req.SourceURL != nil {
		n.URL = *req.SourceURL
	}
	if req.Author != nil {
		n.Author = *req.Author
	}
	if req.Collection != nil {
		n.Collection = *req.Collection
	}
	if req.Metadata != nil {
		n.RecMeta = req.Metadata
	}
	replace := req.Title != nil || req.Content != nil || req.Collection != nil || req.Metadata != nil
	if replace {
		n.Chunks = Chunks(n.Content, sz, ov)
		n.Meta = n.RecMeta
	}
	req.Entities = k.DrawEntities(t, req.KnowledgeID, len(n.Chunks))
	req.Relations = k.DrawRelations(t)
	down := k.fault(t)
	k.C.Op("update %s fail after %d", JS(req), down)
	resp, err := k.T.UpdateKnowledge(k.Ctx, req)
	k.heal()
	h.CheckInfra(err)
	if old == nil {
		if !NotFound(err) {
			k.C.Fatalf("update of the absent %q: %v", req.KnowledgeID, err)
		}
		return
	}
	if replace && len(n.Chunks) == 0 {
		if err == nil {
			k.C.Fatalf("update to an empty text accepted")
		}
		return
	}
	if err != nil && down >= 0 && strings.Contains(err.Error(), ErrDown.Error()) {
		k.Failed++
		return
	}
	k.C.Must(err, "update")
	if replace {
		k.put(&n)
	} else {
		n.Version++
		k.Items[n.ID] = &n
	}
	k.entities(req.Entities)
	k.relations(req.KnowledgeID, req.Relations, resp.RelationEdgeIDs)
	k.CheckRecord("update", resp.Knowledge)
}

// Delete deletes an item.
func (k *Know) Delete(t *rapid.T) {
	id := rapid.SampledFrom(DocIDs).Draw(t, "id")
	k.C.Op("delete %q", id)
	resp, err := k.T.DeleteKnowledge(k.Ctx, cortexdb.KnowledgeDeleteRequest{KnowledgeID: id})
	h.CheckInfra(err)
	if k.Items[id] == nil {
		if !NotFound(err) {
			k.C.Fatalf("delete of the absent %q: %v", id, err)
		}
		return
	}
	k.C.Must(err, "delete")
	if !resp.Deleted || resp.KnowledgeID != id {
		k.C.Fatalf("delete %q reported %+v", id, resp)
	}
	k.forget(id)
	k.Removed++
}

// Ingest ingests a document through the lower-level interface, replacing the one of that id.
func (k *Know) Ingest(t *rapid.T) {
	sz, ov := size(t)
	id := rapid.SampledFrom(DocIDs).Draw(t, "id")
	it := &Item{ID: id, Title: rapid.SampledFrom([]string{"", "T2"}).Draw(t, "title"), Content: Text(t, "content"), Collection: rapid.SampledFrom(Collections).Draw(t, "collection"), Meta: DrawMeta(t)}
	it.Chunks = Chunks(it.Content, sz, ov)
	if old := k.Items[id]; old != nil { // the rest of the record stays
		it.URL, it.Author, it.RecMeta = old.URL, old.Author, old.RecMeta
	}
	down := -1
	var err error
	var nodes []string
	if k.E != nil {
		down = k.fault(t)
		k.C.Op("insert graph document %q %q in %q size %d overlap %d fail after %d", id, it.Content, it.Collection, sz, ov, down)
		var r *cortexdb.GraphRAGIngestResult
		r, err = k.InsertGraphDocument(k.Ctx, cortexdb.GraphRAGDocument{ID: id, Title: it.Title, Content: it.Content, Metadata: it.Meta}, cortexdb.GraphRAGIngestOptions{Collection: it.Collection, ChunkSize: sz, ChunkOverlap: ov})
		k.heal()
		if r != nil {
			nodes = r.ChunkNodeIDs
		}
	} else {
		req := cortexdb.ToolIngestDocumentRequest{DocumentID: id, Title: it.Title, Content: it.Content, Collection: it.Collection, ChunkSize: sz, ChunkOverlap: ov, Metadata: it.Meta}
		k.C.Op("ingest %s", JS(req))
		var r *cortexdb.ToolIngestDocumentResponse
		r, err = k.T.IngestDocument(k.Ctx, req)
		if r != nil {
			nodes = r.ChunkNodeIDs
		}
	}
	h.CheckInfra(err)
	if len(it.Chunks) == 0 {
		if err == nil {
			k.C.Fatalf("ingest without text accepted")
		}
		return
	}
	if err != nil && down >= 0 && strings.Contains(err.Error(), ErrDown.Error()) {
		k.Failed++
		return
	}
	k.C.Must(err, "ingest")
	var want []string
	for i := range it.Chunks {
		want = append(want, ChunkID(id, i))
	}
	if !h.SameStrings(nodes, want) {
		k.C.Fatalf("ingest reported chunks %q, want %q", nodes, want)
	}
	k.put(it)
}

// MoreEntities adds entities and relations to a stored document.
func (k *Know) MoreEntities(t *rapid.T) {
	id := rapid.SampledFrom(DocIDs).Draw(t, "id")
	n := 0
	if it := k.Items[id]; it != nil {
		n = len(it.Chunks)
	}
	es := k.DrawEntities(t, id, n)
	k.C.Op("entities of %q %s", id, JS(es))
	er, err := k.T.UpsertEntities(k.Ctx, cortexdb.ToolUpsertEntitiesRequest{DocumentID: id, Entities: es})
	k.C.Must(err, "upsert entities")
	k.entities(es)
	edges := 0
	if len(er.EntityNodeIDs) != len(es) {
		k.C.Fatalf("%d entities written, reported %q", len(es), er.EntityNodeIDs)
	}
	for i, e := range es {
		if er.EntityNodeIDs[i] != entityOf(e) {
			k.C.Fatalf("entity %s reported as %q", JS(e), er.EntityNodeIDs[i])
		}
		for _, ch := range e.ChunkIDs {
			if k.hasChunk(ch) {
				edges++
			}
		}
	}
	if er.MentionEdgeCount != edges {
		k.C.Fatalf("%d mention edges reported, %d of the chunks mentioned exist", er.MentionEdgeCount, edges)
	}
	if k.Items[id] == nil {
		return
	}
	rs := k.DrawRelations(t)
	k.C.Op("relations of %q %s", id, JS(rs))
	rr, err := k.T.UpsertRelations(k.Ctx, cortexdb.ToolUpsertRelationsRequest{DocumentID: id, Relations: rs})
	k.C.Must(err, "upsert relations")
	k.relations(id, rs, rr.EdgeIDs)
}

// EntityNamesOf are the names a chunk mentions.
func (k *Know) EntityNamesOf(chunk string) []string {
	out := []string{}
	for id := range k.Mentions[chunk] {
		out = append(out, k.Entities[id])
	}
	return h.Sorted(out)
}

// CheckRecord compares a returned record with the model.
func (k *Know) CheckRecord(what string, r cortexdb.KnowledgeRecord) {
	it := k.Items[r.ID]
	if it == nil {
		k.C.Fatalf("%s returned %q, which is not stored", what, r.ID)
	}
	if r.Title != it.Title || r.Content != it.Content || r.SourceURL != it.URL || r.Author != it.Author || r.Collection != it.Collection || !h.SameMap(r.Metadata, it.RecMeta) {
		k.C.Fatalf("%s: %s, want %s", what, JS(r), JS(it))
	}
	var ids []string
	set := map[string]bool{}
	for i := range it.Chunks {
		ids = append(ids, ChunkID(it.ID, i))
		for _, n := range k.EntityNamesOf(ChunkID(it.ID, i)) {
			set[n] = true
		}
	}
	if !h.SameStrings(h.Sorted(append([]string{}, r.ChunkIDs...)), h.Sorted(append([]string{}, ids...))) {
		k.C.Fatalf("%s: %q has chunks %q, want %q", what, it.ID, r.ChunkIDs, ids)
	}
	var ents []string
	for n := range set {
		ents = append(ents, n)
	}
	if !h.SameStrings(h.Sorted(append([]string{}, r.Entities...)), h.Sorted(ents)) {
		k.C.Fatalf("%s: %q names the entities %q, want %q", what, it.ID, r.Entities, ents)
	}
}

// CheckAll compares everything stored with the model.
func (k *Know) CheckAll() {
	for _, id := range DocIDs {
		r, err := k.T.GetKnowledge(k.Ctx, cortexdb.KnowledgeGetRequest{KnowledgeID: id})
		h.CheckInfra(err)
		if k.Items[id] == nil {
			if !NotFound(err) {
				k.C.Fatalf("get of the absent %q: %v %v", id, r, err)
			}
			continue
		}
		k.C.Must(err, "get")
		if r.Knowledge.ID != id {
			k.C.Fatalf("get %q returned %q", id, r.Knowledge.ID)
		}
		k.CheckRecord("get", r.Knowledge)
		d, err := k.Vector().(*core.SQLiteStore).GetDocument(k.Ctx, id)
		k.C.Must(err, "document")
		if d.Version != k.Items[id].Version {
			k.C.Fatalf("%q has version %d after %d writes", id, d.Version, k.Items[id].Version)
		}
	}
	// chunks
	want := map[string]string{}
	where := map[string]string{}
	total := 0
	for _, it := range k.Items {
		for i, ch := range it.Chunks {
			want[ChunkID(it.ID, i)] = ch
			where[ChunkID(it.ID, i)] = it.Collection
			total++
		}
	}
	st, err := k.Vector().Stats(k.Ctx)
	k.C.Must(err, "stats")
	if int(st.Count) != total {
		k.C.Fatalf("%d chunks are stored, want %d", st.Count, total)
	}
	for id, text := range want {
		e, err := k.Vector().(*core.SQLiteStore).GetByID(k.Ctx, id)
		k.C.Must(err, "chunk "+id)
		doc := k.Items[strings.TrimSuffix(strings.TrimPrefix(id, "chunk:"), id[strings.LastIndex(id, ":"):])]
		if e.Content != text || e.Collection != where[id] || doc == nil || e.DocID != doc.ID {
			k.C.Fatalf("chunk %q is %q in %q of %q, want %q in %q", id, e.Content, e.Collection, e.DocID, text, where[id])
		}
		for mk, mv := range doc.Meta {
			if e.Metadata[mk] != mv {
				k.C.Fatalf("chunk %q lacks metadata %q=%q: %v", id, mk, mv, e.Metadata)
			}
		}
		if k.E != nil && !h.SameVec(e.Vector, k.E.Of(text)) {
			k.C.Fatalf("chunk %q has the vector of another text", id)
		}
	}
	// graph
	nodes, err := k.Graph().GetAllNodes(k.Ctx, nil)
	k.C.Must(err, "nodes")
	var got, exp []string
	var ids []string
	for _, n := range nodes {
		ids = append(ids, n.ID)
		if strings.HasPrefix(n.ID, "entity:") {
			got = append(got, n.ID+"="+n.Content)
		} else {
			got = append(got, n.ID+"/"+n.NodeType+"="+n.Content)
		}
	}
	for id, text := range want {
		exp = append(exp, id+"/chunk="+text)
	}
	for id, name := range k.Entities {
		exp = append(exp, id+"="+name)
	}
	for _, it := range k.Items {
		text := it.Title
		if strings.TrimSpace(text) == "" {
			text = it.Content
		}
		exp = append(exp, "doc:"+it.ID+"/document="+text)
	}
	diff(k.C, "graph nodes", got, exp)
	got, exp = nil, nil
	for _, e := range k.edges(ids) {
		props := ""
		if _, ok := k.Rels[e.ID]; ok {
			props = " " + JS(e.Properties)
		}
		got = append(got, fmt.Sprintf("%s-%s->%s %v%s", e.FromNodeID, e.EdgeType, e.ToNodeID, e.Weight, props))
	}
	for _, it := range k.Items {
		for i := range it.Chunks {
			exp = append(exp, fmt.Sprintf("doc:%s-has_chunk->%s 1", it.ID, ChunkID(it.ID, i)))
			if i > 0 {
				exp = append(exp, fmt.Sprintf("%s-next->%s 1", ChunkID(it.ID, i-1), ChunkID(it.ID, i)))
			}
		}
	}
	for ch, es := range k.Mentions {
		for id := range es {
			exp = append(exp, fmt.Sprintf("%s-mentions->%s 1", ch, id))
		}
	}
	for _, r := range k.Rels {
		exp = append(exp, fmt.Sprintf("%s-%s->%s %v %s", r.From, r.Type, r.To, r.Weight, r.Props))
	}
	diff(k.C, "graph edges", got, exp)
}

func (k *Know) edges(ids []string) []*graph.GraphEdge {
	var out []*graph.GraphEdge
	for _, id := range ids {
		es, err := k.Graph().GetEdges(k.Ctx, id, "out")
		k.C.Must(err, "edges")
		out = append(out, es...)
	}
	return out
}

func diff(c *h.C, what string, got, want []string) {
	g, w := map[string]int{}, map[string]int{}
	for _, x := range got {
		g[x]++
	}
	for _, x := range want {
		w[x]++
	}
	var bad []string
	for x, n := range g {
		if n > w[x] {
			bad = append(bad, "unexpected "+x)
		}
	}
	for x, n := range w {
		if n > g[x] {
			bad = append(bad, "missing "+x)
		}
	}
	if len(bad) > 0 {
		sort.Strings(bad)
		c.Fatalf("%s: %q", what, bad)
	}
}
