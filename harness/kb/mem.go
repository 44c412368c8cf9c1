package kb

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"pgregory.net/rapid"
)

type bucket struct{ scope, owner, ns string }

type memory struct {
	b          bucket
	user, role string
	content    string
	meta       map[string]any
	importance float64
	ttl        int
	vec        bool      // saved with an embedding
	from       time.Time // no earlier than this the ttl started
}

// reserved metadata keys carry the record's own fields.
var reserved = []string{"kind", "scope", "namespace", "importance", "ttl_seconds", "expires_at"}

func userMeta(m map[string]any) string {
	out := map[string]any{}
	for k, v := range m {
		out[k] = v
	}
	for _, k := range reserved {
		delete(out, k)
	}
	return JS(out)
}

func drawAnyMeta(t *rapid.T) map[string]any {
	n := rapid.IntRange(-1, 5).Draw(t, "nmeta")
	if n < 0 {
		return nil
	}
	m := map[string]any{}
	for i := 0; i < n; i++ {
		m[rapid.SampledFrom([]string{"topic", "it's", "日本", "Topic", "source", "n"}).Draw(t, "mk")] = rapid.SampledFrom([]any{"x", "", 1.5, true, nil, []any{"a", 1.0}, map[string]any{"z": "y"}}).Draw(t, "mv")
	}
	return m
}

// Mems is the database with its model.
type Mems struct {
	*DB
	T     API
	Make  func(*DB) API
	mems  map[string]*memory
	chat  map[string][]string // session -> message contents
	nmsg  int
	spare *Emb
	crowd bool        // most memories go to one bucket
	pair  [][4]string // two buckets whose names look alike
}

// pairs of buckets (scope, user, session, namespace) that are easily confused
var pairs = [][2][4]string{
	{{"global", "", "", "X"}, {"global", "", "", "x"}},
	{{"global", "", "", "a:x"}, {"user", "a", "", "x"}},
	{{"global", "a", "", "x"}, {"user", "a", "", "x"}},
	{{"global", "", "", "default"}, {"global", "", "", "Default"}},
	{{"user", "a", "", "b:x"}, {"user", "a:b", "", "x"}},
	{{"session", "", "a", "b:x"}, {"session", "", "a:b", "x"}},
	{{"user", "a", "", "x"}, {"user", " a", "", "x"}},
	{{"session", "", "a", ""}, {"session", "", "a ", ""}},
	{{"user", "a", "", "x"}, {"session", "", "a", "x"}},
	{{"user", "a", "a", "x"}, {"session", "a", "a", "x"}},
	{{"user", "A", "", "x"}, {"user", "a", "", "x"}},
	{{"session", "", "A", "x"}, {"session", "", "a", "x"}},
	{{"user", "a", "", "X"}, {"user", "a", "", "x"}},
	{{"user", "a", "", "a"}, {"user", "a", "", "A"}},
	{{"user", "a", "b", "x"}, {"user", "b", "a", "x"}},
	{{"session", "a", "b", "x"}, {"session", "b", "a", "x"}},
	{{"user", "a%3Ab", "", "x"}, {"user", "a:b", "", "x"}},
	{{"user", "a", "", "b%3Ax"}, {"user", "a", "", "b:x"}},
	{{"user", "user_1", "", "x"}, {"user", "userA1", "", "x"}},
	{{"session", "", "s%", "x"}, {"session", "", "s1", "x"}},
	{{"user", "a", "", ""}, {"user", "a", "", "x"}},
	{{"user", "a", "", "x"}, {"user", "a", "", "x/y"}},
}

var owners = []string{"a", "b", "a:b", "b:x", "a:b:x", "A", "a%3Ab"}
var spaces = []string{"", "default", "x", "b:x", "b:default", " x ", "b", "b%3Ax", "X"}

func (e *Mems) where(t *rapid.T) (scope, user, session, ns string, b bucket) {
	if rapid.IntRange(0, 2).Draw(t, "pair") > 0 {
		p := rapid.SampledFrom(e.pair).Draw(t, "bucket")
		scope, user, session, ns = p[0], p[1], p[2], p[3]
		return scope, user, session, ns, bucketOf(scope, user, session, ns)
	}
	scope = rapid.SampledFrom([]string{"", "user", "session", "global", " User ", "SESSION"}).Draw(t, "scope")
	if rapid.Bool().Draw(t, "hasUser") {
		user = rapid.SampledFrom(owners).Draw(t, "user")
	}
	if rapid.Bool().Draw(t, "hasSession") {
		session = rapid.SampledFrom(owners).Draw(t, "session")
	}
	ns = rapid.SampledFrom(spaces).Draw(t, "ns")
	return scope, user, session, ns, bucketOf(scope, user, session, ns)
}

func bucketOf(scope, user, session, ns string) (b bucket) {
	b.ns = strings.TrimSpace(ns)
	if b.ns == "" {
		b.ns = "default"
	}
	b.scope = strings.ToLower(strings.TrimSpace(scope))
	if b.scope == "" {
		switch {
		case session != "":
			b.scope = "session"
		case user != "":
			b.scope = "user"
		default:
			b.scope = "global"
		}
	}
	switch b.scope {
	case "user":
		b.owner = user
	case "session":
		b.owner = session
	}
	return
}

func (b bucket) ok() bool { return b.scope == "global" || b.owner != "" }

// check compares a returned record with the model.
func (e *Mems) check(what string, r cortexdb.MemoryRecord) {
	m := e.mems[r.ID]
	if m == nil {
		e.C.Fatalf("%s: returned %q, which is not stored", what, r.ID)
	}
	if r.Content != m.content || r.Role != m.role || r.Scope != m.b.scope || r.Namespace != m.b.ns || !h.Near(r.Importance, m.importance, 1e-12) || r.TTLSeconds != m.ttl {
		e.C.Fatalf("%s: %q is %q/%q/%q/%q importance %v ttl %d, want %q/%q/%q/%q %v %d", what, r.ID, r.Content, r.Role, r.Scope, r.Namespace, r.Importance, r.TTLSeconds, m.content, m.role, m.b.scope, m.b.ns, m.importance, m.ttl)
	}
	if m.b.scope == "user" && r.UserID != m.user {
		e.C.Fatalf("%s: %q belongs to user %q, got %q", what, r.ID, m.user, r.UserID)
	}
	if a, b := userMeta(r.Metadata), userMeta(m.meta); a != b {
		e.C.Fatalf("%s: %q has metadata %s, want %s", what, r.ID, a, b)
	}
	if (r.ExpiresAt != nil) != (m.ttl > 0) {
		e.C.Fatalf("%s: %q with ttl %d expires at %v", what, r.ID, m.ttl, r.ExpiresAt)
	}
	if m.ttl > 0 {
		// a duration spans no more than 292 years
		ttl := time.Duration(min(m.ttl, int(math.MaxInt64/time.Second))) * time.Second
		lo := m.from.Add(ttl)
		hi := time.Now().Add(ttl)
		if r.ExpiresAt.Before(lo) || r.ExpiresAt.After(hi) {
			e.C.Fatalf("%s: %q with ttl %d expires at %v, want between %v and %v", what, r.ID, m.ttl, r.ExpiresAt, lo, hi)
		}
	}
}

func (e *Mems) CheckAll(ids []string) {
	for _, id := range ids {
		got, err := e.T.GetMemory(e.Ctx, cortexdb.MemoryGetRequest{MemoryID: id})
		h.CheckInfra(err)
		if e.mems[id] == nil {
			if !NotFound(err) {
				e.C.Fatalf("get of the absent %q: %v, %v", id, got, err)
			}
			continue
		}
		e.C.Must(err, "get %q", id)
		if got.Memory.ID != id {
			e.C.Fatalf("get %q returned %q", id, got.Memory.ID)
		}
		e.check("get", got.Memory)
	}
	for s, want := range e.chat {
		msgs, err := e.Vector().(*core.SQLiteStore).GetSessionHistory(e.Ctx, s, 1000)
		e.C.Must(err, "history of %q", s)
		var got []string
		for _, m := range msgs {
			got = append(got, m.Content)
		}
		if strings.Join(got, "|") != strings.Join(want, "|") {
			e.C.Fatalf("chat session %q holds %q, want %q", s, got, want)
		}
	}
}

// stop words and short words are not searched for on their own
func memKeywords(texts ...string) []string {
	var out []string
	for _, t := range texts {
		for _, w := range Tokens(t) {
			if len(w) > 1 && w != "where" && w != "is" && w != "the" && w != "or" && w != "and" {
				out = append(out, w)
			}
		}
	}
	return out
}

func hitIDs(hits []cortexdb.MemorySearchHit) []string {
	var out []string
	for _, x := range hits {
		out = append(out, x.Memory.ID)
	}
	return out
}

func (e *Mems) Search(t *rapid.T, live func(ttl int) bool) {
	scope, user, session, ns, b := e.where(t)
	// aim at a bucket that holds something most of the time
	if len(e.mems) > 0 && rapid.IntRange(0, 5).Draw(t, "aim") > 0 {
		var all []string
		for id := range e.mems {
			all = append(all, id)
		}
		sort.Strings(all)
		m := e.mems[rapid.SampledFrom(all).Draw(t, "target")]
		b = m.b
		scope, user, session, ns = b.scope, "", "", b.ns
		if b.scope == "user" {
			user = b.owner
		} else {
			session = b.owner
		}
	}
	k := rapid.IntRange(0, 6).Draw(t, "k")
	want := k
	if k == 0 {
		want = 5
	}
	lexical := e.E == nil || rapid.Bool().Draw(t, "lexical")
	req := cortexdb.MemorySearchRequest{UserID: user, SessionID: session, Scope: scope, Namespace: ns, TopK: k}
	syntax := false
	if lexical {
		req.RetrievalMode = "lexical"
		req.Query = Phrase(t, 1, 2, "q")
		switch rapid.IntRange(0, 6).Draw(t, "form") {
		case 0:
			req.Query, syntax = "Where is "+req.Query+"?", true
		case 1:
			req.Query, syntax = `"`+req.Query, true
		case 2:
			req.Query, syntax = req.Query+"'s: (AND", true
		case 3:
			req.Keywords = []string{Phrase(t, 1, 1, "kw")}
		case 4:
			req.AlternateQueries = []string{Phrase(t, 1, 2, "alt")}
		}
	} else {
		req.Query = Phrase(t, 1, 3, "q")
	}
	e.C.Op("search %s", JS(req))
	resp, err := e.T.SearchMemory(e.Ctx, req)
	h.CheckInfra(err)
	if !b.ok() {
		if err == nil {
			e.C.Fatalf("search without an owner returned %v", hitIDs(resp.Results))
		}
		return
	}
	e.C.Must(err, "search %s", JS(req))
	got := hitIDs(resp.Results)
	seen := map[string]bool{}
	for i, hit := range resp.Results {
		m := e.mems[hit.Memory.ID]
		if m == nil || m.b != b {
			e.C.Fatalf("search in %+v returned %q, which is not in that bucket (%+v)", b, hit.Memory.ID, m)
		}
		if seen[hit.Memory.ID] {
			e.C.Fatalf("%q returned twice", hit.Memory.ID)
		}
		seen[hit.Memory.ID] = true
		if !live(m.ttl) {
			e.C.Fatalf("search returned %q, which has expired", hit.Memory.ID)
		}
		e.check("search", hit.Memory)
		if i > 0 && hit.Score > resp.Results[i-1].Score {
			e.C.Fatalf("scores not in order: %v then %v", resp.Results[i-1].Score, hit.Score)
		}
	}
	if !lexical {
		// nothing embedded here: searched by words
		lexical = true
		for _, m := range e.mems {
			if m.b == b && live(m.ttl) && m.vec {
				lexical = false
			}
		}
		if lexical {
			e.C.Class("bucket without embeddings searched by words")
		}
	}
	in := map[string]float64{}
	total := 0
	for id, m := range e.mems {
		if m.b != b || !live(m.ttl) {
			continue
		}
		total++
		toks := Tokens(m.content)
		if !lexical && !m.vec {
			continue
		}
		if !lexical {
			in[id] = h.Cosine(e.E.Of(req.Query), e.E.Of(m.content))
			continue
		}
		match := Any(toks, memKeywords(append([]string{req.Query}, req.Keywords...)...)) || All(toks, Tokens(req.Query))
		for _, a := range req.AlternateQueries {
			match = match || All(toks, Tokens(a))
		}
		if match {
			in[id] = 0
		}
	}
	if len(in) < total && len(in) > 0 || len(in) > want {
		e.C.NonTrivial()
	}
	if len(in) > want {
		e.C.Class("search cut at the limit")
	}
	if lexical {
		e.C.Class("lexical search")
		if syntax {
			e.C.Class("query with operator characters")
		}
		n := len(in)
		if n > want {
			n = want
		}
		if len(got) != n {
			e.C.Fatalf("search %s returned %v, want %d of %v", JS(req), got, n, keysOf(in))
		}
		for _, id := range got {
			if _, ok := in[id]; !ok {
				e.C.Fatalf("search %s returned %q: %q does not match", JS(req), id, e.mems[id].content)
			}
		}
		// one word: among texts of equal length, more occurrences rank first
		if q := Tokens(req.Query); len(q) == 1 && !syntax && req.Keywords == nil && req.AlternateQueries == nil {
			pos := map[string]int{}
			for id := range in {
				pos[id] = len(in) + 1
			}
			for i, id := range got {
				pos[id] = i
			}
			for x := range in {
				for y := range in {
					tx, ty := Tokens(e.mems[x].content), Tokens(e.mems[y].content)
					if len(tx) == len(ty) && Count(tx, q[0]) > Count(ty, q[0]) && pos[x] > pos[y] {
						e.C.Fatalf("search %q ranks %q (%q) before %q (%q)", req.Query, y, e.mems[y].content, x, e.mems[x].content)
					}
				}
			}
			e.C.Class("one-word ranking")
		}
		return
	}
	e.C.Class("semantic search")
	scores := make([]float64, len(got))
	for i, id := range got {
		scores[i] = in[id]
	}
	if msg := h.CheckTopK(got, scores, in, want, 1e-5); msg != "" {
		e.C.Fatalf("search %s: %s", JS(req), msg)
	}
}

func keysOf(m map[string]float64) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	return h.Sorted(out)
}

var MemIDs = []string{"m1", "m2", "m3", "m4", "m5", "m6", "m:7", "M1"}

func NewMems(c *h.C) *Mems {
	dim := rapid.SampledFrom([]int{0, 5}).Draw(c.T, "dim")
	e := &Mems{DB: Open(c, dim, core.IndexTypeHNSW), mems: map[string]*memory{}, chat: map[string][]string{}}
	if dim == 0 {
		e.spare = &Emb{N: 5}
	}
	p := rapid.SampledFrom(pairs).Draw(c.T, "pair")
	e.pair = p[:]
	e.crowd = rapid.Bool().Draw(c.T, "crowd")
	e.Use(Direct)
	return e
}

func (e *Mems) Save(t *rapid.T, ttls []int) {
	scope, user, session, ns, b := e.where(t)
	if e.crowd && rapid.IntRange(0, 3).Draw(t, "crowd") > 0 {
		scope, user, session, ns = "user", "a", "", ""
		b = bucket{"user", "a", "default"}
	}
	id := rapid.SampledFrom(MemIDs).Draw(t, "id")
	content := Phrase(t, 1, 5, "content")
	if rapid.IntRange(0, 9).Draw(t, "blank") == 0 {
		content = rapid.SampledFrom([]string{"", "  ", "\n"}).Draw(t, "blankText")
	}
	req := cortexdb.MemorySaveRequest{MemoryID: id, UserID: user, SessionID: session, Scope: scope, Namespace: ns, Role: rapid.SampledFrom([]string{"", "assistant", "user"}).Draw(t, "role"),
		Content: content, Metadata: drawAnyMeta(t), Importance: float64(rapid.IntRange(-4, 8).Draw(t, "imp")) / 8, TTLSeconds: rapid.SampledFrom(ttls).Draw(t, "ttl")}
	down := e.E != nil && rapid.IntRange(0, 9).Draw(t, "down") == 0
	e.C.Op("save %s down=%v", JS(req), down)
	if down {
		e.E.Fail = true
	}
	before := time.Now()
	resp, err := e.T.SaveMemory(e.Ctx, req)
	if e.E != nil {
		e.E.Fail = false
	}
	h.CheckInfra(err)
	if down || !b.ok() || strings.TrimSpace(content) == "" {
		if err == nil {
			e.C.Fatalf("save accepted: %s", JS(req))
		}
		e.C.Class("refused save")
		return
	}
	e.C.Must(err, "save")
	if e.mems[id] != nil {
		e.C.Class("memory replaced")
	}
	role := req.Role
	if role == "" {
		role = "memory"
	}
	e.mems[id] = &memory{b: b, user: user, role: role, content: content, meta: req.Metadata, importance: req.Importance, ttl: req.TTLSeconds, from: before, vec: e.E != nil}
	e.check("save", resp.Memory)
}

func (e *Mems) Update(t *rapid.T, ttls []int) {
	id := rapid.SampledFrom(MemIDs).Draw(t, "id")
	req := cortexdb.MemoryUpdateRequest{MemoryID: id}
	down := false
	if rapid.Bool().Draw(t, "uc") {
		s := Phrase(t, 0, 5, "content")
		req.Content = &s
		down = e.E != nil && rapid.IntRange(0, 9).Draw(t, "down") == 0
	}
	if rapid.Bool().Draw(t, "um") {
		req.Metadata = drawAnyMeta(t)
	}
	if rapid.Bool().Draw(t, "ui") {
		f := float64(rapid.IntRange(0, 8).Draw(t, "imp")) / 8
		req.Importance = &f
	}
	if rapid.Bool().Draw(t, "ut") {
		n := rapid.SampledFrom(ttls).Draw(t, "ttl")
		req.TTLSeconds = &n
	}
	e.C.Op("update %s down=%v", JS(req), down)
	if down {
		e.E.Fail = true
	}
	before := time.Now()
	resp, err := e.T.UpdateMemory(e.Ctx, req)
	if e.E != nil {
		e.E.Fail = false
	}
	h.CheckInfra(err)
	m := e.mems[id]
	if m == nil {
		if !NotFound(err) {
			e.C.Fatalf("update of the absent %q: %v", id, err)
		}
		return
	}
	if down || req.Content != nil && *req.Content == "" {
		if err == nil {
			e.C.Fatalf("update accepted: %s", JS(req))
		}
		return
	}
	e.C.Must(err, "update")
	n := *m
	if req.Content != nil {
		n.content, n.vec = *req.Content, e.E != nil
	}
	n.meta = map[string]any{}
	for k, v := range m.meta {
		n.meta[k] = v
	}
	for k, v := range req.Metadata {
		n.meta[k] = v
	}
	if req.Importance != nil {
		n.importance = *req.Importance
	}
	if req.TTLSeconds != nil {
		n.ttl, n.from = *req.TTLSeconds, before
	}
	e.mems[id] = &n
	e.C.Class("memory updated")
	e.check("update", resp.Memory)
}

func (e *Mems) Delete(t *rapid.T) {
	id := rapid.SampledFrom(MemIDs).Draw(t, "id")
	e.C.Op("delete %q", id)
	resp, err := e.T.DeleteMemory(e.Ctx, cortexdb.MemoryDeleteRequest{MemoryID: id})
	h.CheckInfra(err)
	if e.mems[id] == nil {
		if !NotFound(err) {
			e.C.Fatalf("delete of the absent %q: %v", id, err)
		}
		return
	}
	e.C.Must(err, "delete")
	if !resp.Deleted || resp.MemoryID != id {
		e.C.Fatalf("delete %q reported %+v", id, resp)
	}
	delete(e.mems, id)
	e.C.Class("memory deleted")
}

func (e *Mems) Say(t *rapid.T) {
	s := e.Vector().(*core.SQLiteStore)
	id := rapid.SampledFrom([]string{"a", "b", "a:b"}).Draw(t, "chat")
	if _, ok := e.chat[id]; !ok {
		e.C.Op("chat session %q", id)
		e.C.Must(s.CreateSession(e.Ctx, &core.Session{ID: id, UserID: "a"}), "create session")
		e.chat[id] = nil
	}
	e.nmsg++
	text := Phrase(t, 1, 4, "said")
	m := &core.Message{ID: fmt.Sprintf("msg%d", e.nmsg), SessionID: id, Role: "user", Content: text}
	if e.E != nil {
		m.Vector = e.E.Of(text)
	}
	e.C.Op("chat %q: %q", id, text)
	e.C.Must(s.AddMessage(e.Ctx, m), "add message")
	e.chat[id] = append(e.chat[id], text)
}

// Mixed reports whether some but not all memories have that time to live.
func (e *Mems) Mixed(ttl int) bool {
	n := 0
	for _, m := range e.mems {
		if m.ttl == ttl {
			n++
		}
	}
	return n > 0 && n < len(e.mems)
}

// Use makes the model call the database through another API.
func (e *Mems) Use(make func(*DB) API) { e.Make, e.T = make, make(e.DB) }

// Restart closes and reopens the database, at times with or without an embedder.
func (e *Mems) Restart(t *rapid.T) {
	if rapid.IntRange(0, 2).Draw(t, "embedder") == 0 {
		e.E, e.spare = e.spare, e.E
		e.C.Class("embedder added or taken away")
	}
	e.C.Op("reopen, embedder %v", e.E != nil)
	e.Reopen()
	e.T = e.Make(e.DB)
}
