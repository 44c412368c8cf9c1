package p28

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"log/slog"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
	"github.com/liliang-cn/cortexdb/v2/pkg/hindsight"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	os.Exit(m.Run())
}

var (
	bg       = context.Background()
	bankIDs  = []string{"ann", "a", "ab", "A", "b k"}
	entities = []string{"ann", "Ann", "Anna", "bob", "a b", "New York"}
	words    = []string{"likes", "tea", "teapot", "because", "prefers", "red", "日本語", "morning", "train"}
	types    = []hindsight.MemoryType{hindsight.WorldMemory, hindsight.BankMemory, hindsight.OpinionMemory, hindsight.ObservationMemory}
	obsTypes = []hindsight.ObservationType{hindsight.PatternObservation, hindsight.CausalObservation, hindsight.GeneralizationObservation, hindsight.PreferenceObservation}
)

const maxWrites = 30 // an HNSW layer of so few nodes is searched completely

type mem struct {
	m    hindsight.Memory
	meta map[string]string // what the caller attached, as text
	obs  *hindsight.Observation
}

type env struct {
	c      *h.C
	cfg    hindsight.Config
	sys    *hindsight.System
	dim    int
	banks  map[string]hindsight.Bank
	gone   map[string]bool // banks once deleted: what becomes of their memories is not specified
	mems   map[string]*mem
	notes  map[string]string // graph nodes of the user's own
	writes int
	hist   map[string][]string // messages of each session

	cfgAuto hindsight.AutoRetainConfig
	hasExt  bool
	counter int
	mu      sync.Mutex
	calls   []call
	expect  []call
	failExt bool
	facts   int
}

type call struct {
	bank string
	msgs []string
}

func (e *env) open() {
	cfg := e.cfg
	sys, err := hindsight.New(&cfg)
	e.c.Must(err, "New")
	e.sys = sys
	e.counter, e.hasExt = 0, false
	e.cfgAuto = hindsight.AutoRetainConfig{}
}

func newEnv(c *h.C) *env {
	e := &env{c: c, banks: map[string]hindsight.Bank{}, gone: map[string]bool{}, mems: map[string]*mem{}, notes: map[string]string{}, hist: map[string][]string{}}
	e.dim = rapid.SampledFrom([]int{3, 4}).Draw(c.T, "dim")
	e.cfg = hindsight.Config{DBPath: filepath.Join(c.Dir(), "h.db"), Collection: rapid.SampledFrom([]string{"", "memories", "notes"}).Draw(c.T, "collection")}
	if rapid.Bool().Draw(c.T, "fixed dim") {
		e.cfg.VectorDim = e.dim
	}
	c.Op("open dim=%d/%d collection=%q", e.cfg.VectorDim, e.dim, e.cfg.Collection)
	e.open()
	c.Defer(func() { e.sys.Close() })
	return e
}

func (e *env) restart() {
	e.c.Op("reopen")
	e.c.Must(e.sys.Close(), "Close")
	e.checkCalls()
	e.open()
}

// ---- banks

func (e *env) createBank(t *rapid.T) {
	id := rapid.SampledFrom(bankIDs).Draw(t, "bank")
	b := hindsight.NewBank(id, h.Text(t, "name"))
	b.Description, b.Background = h.Text(t, "description"), h.Text(t, "background")
	disp := rapid.IntRange(0, 3).Draw(t, "disposition")
	if disp == 3 {
		b = hindsight.NewBankWithDisposition(id, b.Name, nil)
	} else if disp > 0 {
		b.Disposition = &hindsight.Disposition{Skepticism: rapid.IntRange(1, 5).Draw(t, "s"), Literalism: rapid.IntRange(1, 5).Draw(t, "l"), Empathy: rapid.IntRange(1, 5).Draw(t, "e")}
	}
	want := *b
	e.c.Op("create bank %q %q", id, b.Name)
	before := time.Now().Unix()
	err := e.sys.CreateBank(bg, b)
	if _, ok := e.banks[id]; ok {
		if err == nil {
			e.c.Fatalf("CreateBank accepts %q twice", id)
		}
		return
	}
	e.c.Must(err, "CreateBank(%q)", id)
	got, ok := e.sys.GetBank(id)
	if !ok {
		e.c.Fatalf("bank %q not found after CreateBank", id)
	}
	if got.CreatedAt < before || got.CreatedAt > time.Now().Unix() {
		e.c.Fatalf("bank %q: created at %d, not now", id, got.CreatedAt)
	}
	want.CreatedAt = got.CreatedAt
	d := *hindsight.DefaultDisposition()
	if want.Disposition != nil {
		d = *want.Disposition
	}
	want.Disposition = &d
	e.banks[id] = want
}

func (e *env) deleteBank(t *rapid.T) {
	id := rapid.SampledFrom(bankIDs).Draw(t, "bank")
	e.c.Op("delete bank %q", id)
	err := e.sys.DeleteBank(id)
	if _, ok := e.banks[id]; !ok {
		if err == nil {
			e.c.Fatalf("DeleteBank(%q) succeeds without such a bank", id)
		}
		return
	}
	e.c.Must(err, "DeleteBank(%q)", id)
	delete(e.banks, id)
	e.gone[id] = true
	for k, m := range e.mems {
		if m.m.BankID == id {
			delete(e.mems, k)
		}
	}
}

func (e *env) checkBanks() {
	for _, id := range bankIDs {
		want, ok := e.banks[id]
		got, found := e.sys.GetBank(id)
		if ok != found {
			e.c.Fatalf("GetBank(%q) = %v, want %v", id, found, ok)
		}
		if ok {
			e.sameBank(got, want)
		}
	}
	var ids, wantIDs []string
	for _, b := range e.sys.ListBanks() {
		ids = append(ids, b.ID)
		if w, ok := e.banks[b.ID]; ok {
			e.sameBank(b, w)
		}
	}
	for id := range e.banks {
		wantIDs = append(wantIDs, id)
	}
	if !h.SameStrings(h.Sorted(ids), h.Sorted(wantIDs)) {
		e.c.Fatalf("ListBanks = %q, want %q", ids, wantIDs)
	}
}

func (e *env) sameBank(got *hindsight.Bank, want hindsight.Bank) {
	if got.Disposition == nil {
		e.c.Fatalf("bank %q lost its disposition", want.ID)
	}
	g := *got
	gd, wd := *g.Disposition, *want.Disposition
	g.Disposition, want.Disposition = nil, nil
	if g != want || gd != wd {
		e.c.Fatalf("bank %q reads back as %+v %+v, want %+v %+v", want.ID, g, gd, want, wd)
	}
}

// ---- memories

func phrase(t *rapid.T) string {
	return strings.Join(rapid.SliceOfN(rapid.SampledFrom(words), 1, 5).Draw(t, "content"), " ")
}

func (e *env) bank(t *rapid.T) string {
	var ids []string
	for _, id := range bankIDs {
		if !e.gone[id] {
			ids = append(ids, id)
		}
	}
	if len(ids) == 0 {
		return ""
	}
	return rapid.SampledFrom(ids).Draw(t, "bank")
}

func attach(t *rapid.T) (map[string]any, map[string]string) {
	m, s := map[string]any{}, map[string]string{}
	for _, k := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"source", "lang", "bank_id", "confidence", "entities", "memory_type", "created_at"}), 0, 2, rapid.ID[string]).Draw(t, "metadata") {
		v := h.Text(t, "value")
		m[k] = v
		if k == "source" || k == "lang" {
			s[k] = v
		}
	}
	return m, s
}

func (e *env) retain(t *rapid.T) {
	bank := e.bank(t)
	if bank == "" || e.writes >= maxWrites {
		return
	}
	e.writes++
	x := &mem{}
	m := hindsight.Memory{BankID: bank, Type: rapid.SampledFrom(types).Draw(t, "type"), Content: phrase(t), Vector: h.NZVec(t, e.dim, "vec")}
	if rapid.IntRange(0, 3).Draw(t, "own id") > 0 {
		m.ID = "m" + h.ID(t, 12, "id")
	}
	m.Entities = rapid.SliceOfNDistinct(rapid.SampledFrom(entities), 0, 3, rapid.ID[string]).Draw(t, "entities")
	if m.Type == hindsight.OpinionMemory || m.Type == hindsight.ObservationMemory {
		m.Confidence = rapid.Float64Range(0, 1).Draw(t, "confidence")
	}
	if rapid.Bool().Draw(t, "dated") {
		m.CreatedAt = e.moment(t)
	}
	m.Metadata, x.meta = attach(t)
	before := time.Now()
	arg := m
	arg.Vector = append([]float32(nil), m.Vector...)
	e.c.Op("retain %q in %q %s %q %v entities=%q at=%v meta=%v", m.ID, bank, m.Type, m.Content, h.VS(m.Vector), m.Entities, m.CreatedAt, h.MS(x.meta))
	err := e.sys.Retain(bg, &arg)
	e.c.Must(err, "Retain")
	if arg.ID == "" || m.ID != "" && arg.ID != m.ID {
		e.c.Fatalf("Retain gave id %q to a memory with id %q", arg.ID, m.ID)
	}
	if m.ID == "" && e.mems[arg.ID] != nil {
		e.c.Fatalf("Retain gave the id %q out twice", arg.ID)
	}
	m.ID = arg.ID
	if m.CreatedAt.IsZero() {
		if arg.CreatedAt.Before(before) || arg.CreatedAt.After(time.Now()) {
			e.c.Fatalf("Retain dates a memory %v, not now", arg.CreatedAt)
		}
		m.CreatedAt = arg.CreatedAt
	}
	x.m = m
	if m.Type == hindsight.ObservationMemory {
		x.obs = &hindsight.Observation{ID: m.ID, BankID: m.BankID, Content: m.Content, Vector: m.Vector, Confidence: m.Confidence, CreatedAt: m.CreatedAt}
	}
	e.mems[m.ID] = x
}

var epoch = time.Date(2024, 5, 1, 12, 0, 0, 0, time.UTC)

func (e *env) moment(t *rapid.T) time.Time {
	return epoch.Add(time.Duration(rapid.IntRange(0, 9).Draw(t, "when")) * 250 * time.Millisecond)
}

func (e *env) addObservation(t *rapid.T) {
	bank := e.bank(t)
	if bank == "" || e.writes >= maxWrites {
		return
	}
	e.writes++
	o := hindsight.Observation{BankID: bank, Content: phrase(t), Vector: h.NZVec(t, e.dim, "vec"), Confidence: rapid.Float64Range(0, 1).Draw(t, "confidence"),
		ObservationType: rapid.SampledFrom(obsTypes).Draw(t, "type"), Reasoning: h.Text(t, "reasoning")}
	if rapid.Bool().Draw(t, "own id") {
		o.ID = "m" + h.ID(t, 12, "id")
	}
	o.SourceMemoryIDs = rapid.SliceOfN(rapid.SampledFrom([]string{"m1", "m2", "x y", "ü"}), 0, 3).Draw(t, "sources")
	if rapid.Bool().Draw(t, "dated") {
		o.CreatedAt = e.moment(t)
	}
	arg := o
	e.c.Op("observation %q in %q %q %s sources=%q", o.ID, bank, o.Content, o.ObservationType, o.SourceMemoryIDs)
	e.c.Must(e.sys.AddObservation(bg, &arg), "AddObservation")
	if arg.ID == "" || o.ID != "" && arg.ID != o.ID {
		e.c.Fatalf("AddObservation gave id %q to an observation with id %q", arg.ID, o.ID)
	}
	o.ID, o.CreatedAt = arg.ID, arg.CreatedAt
	e.putObs(o)
}

func (e *env) putObs(o hindsight.Observation) {
	e.mems[o.ID] = &mem{obs: &o, m: hindsight.Memory{ID: o.ID, BankID: o.BankID, Type: hindsight.ObservationMemory, Content: o.Content, Vector: o.Vector, Confidence: o.Confidence, CreatedAt: o.CreatedAt},
		meta: map[string]string{"observation_type": string(o.ObservationType), "reasoning": o.Reasoning, "source_memory_ids": strings.Join(o.SourceMemoryIDs, ",")}}
}

func (e *env) sameMemory(got *hindsight.Memory, what string) {
	x := e.mems[got.ID]
	if x == nil {
		e.c.Fatalf("%s returns %q, which is not stored", what, got.ID)
		return
	}
	w := x.m
	conf := w.Confidence
	if got.BankID != w.BankID || got.Type != w.Type || got.Content != w.Content || !h.SameVec(got.Vector, w.Vector) ||
		!h.SameStrings(got.Entities, w.Entities) || math.Abs(got.Confidence-conf) > 1e-4 || !got.CreatedAt.Equal(w.CreatedAt) {
		e.c.Fatalf("%s returns %+v, want %+v", what, *got, w)
	}
	for k, v := range x.meta {
		if g, ok := got.Metadata[k]; !ok || fmt.Sprint(g) != v {
			e.c.Fatalf("%s: memory %q has metadata %v, want %s=%q", what, got.ID, got.Metadata, k, v)
		}
	}
}

func (e *env) of(bank string, keep func(*mem) bool) []*mem {
	var out []*mem
	for _, m := range e.mems {
		if m.m.BankID == bank && (keep == nil || keep(m)) {
			out = append(out, m)
		}
	}
	return out
}

// ---- recall

type query struct {
	req  hindsight.RecallRequest
	perK int
}

func strat(s hindsight.RecallStrategy) string {
	f := func(t *time.Time) string {
		if t == nil {
			return "-"
		}
		return fmt.Sprint(t.Sub(epoch))
	}
	s2 := fmt.Sprintf("memory=%v priming=%v entity=%q topk=%d", s.Memory, s.Priming, s.Entity, s.TopK)
	if s.Temporal != nil {
		s2 += fmt.Sprintf(" %s..%s", f(s.Temporal.Start), f(s.Temporal.End))
	}
	return s2
}

func (e *env) inRange(m *mem, f *hindsight.TemporalFilter) bool {
	return (f.Start == nil || !m.m.CreatedAt.Before(*f.Start)) && (f.End == nil || !m.m.CreatedAt.After(*f.End))
}

func hasAny(have, want []string) bool {
	for _, a := range have {
		for _, b := range want {
			if a == b {
				return true
			}
		}
	}
	return false
}

func hasAll(content, q string) bool {
	set := map[string]bool{}
	for _, w := range strings.Fields(content) {
		set[w] = true
	}
	for _, w := range strings.Fields(q) {
		if !set[w] {
			return false
		}
	}
	return true
}

func (e *env) run(req hindsight.RecallRequest, what string) ([]string, []float64, []*hindsight.RecallResult) {
	st := *req.Strategy
	req.Strategy = &st
	res, err := e.sys.Recall(bg, &req)
	e.c.Must(err, "Recall")
	var ids []string
	var scores []float64
	seen := map[string]bool{}
	for _, r := range res {
		if seen[r.ID] {
			e.c.Fatalf("%s returns %q twice", what, r.ID)
		}
		seen[r.ID] = true
		if r.BankID != req.BankID {
			e.c.Fatalf("%s of bank %q returns %q of bank %q", what, req.BankID, r.ID, r.BankID)
		}
		e.sameMemory(r.Memory, what)
		ids, scores = append(ids, r.ID), append(scores, r.Score)
	}
	return ids, scores, res
}

// single checks a recall by one strategy against the model.
func (e *env) single(req hindsight.RecallRequest, kind string) []string {
	ids, scores, res := e.run(req, kind+" recall")
	for _, r := range res {
		if r.Strategy != kind {
			e.c.Fatalf("%s recall returns a result of strategy %q", kind, r.Strategy)
		}
	}
	k := req.Strategy.TopK
	if req.TopK > 0 && req.TopK < k {
		k = req.TopK
	}
	all := e.of(req.BankID, nil)
	var keep func(*mem) bool
	switch kind {
	case "semantic":
	case "temporal":
		keep = func(m *mem) bool { return e.inRange(m, req.Strategy.Temporal) }
	case "entity":
		keep = func(m *mem) bool { return hasAny(m.m.Entities, req.Strategy.Entity) }
	case "keyword":
		match := e.of(req.BankID, func(m *mem) bool { return hasAll(m.m.Content, req.Query) })
		want := len(match)
		if req.QueryVector != nil {
			want = len(all)
		}
		if want > k {
			want = k
		}
		if len(ids) != want {
			e.c.Fatalf("keyword recall of %q (vector %v) returns %d of at most %d memories, want %d", req.Query, req.QueryVector != nil, len(ids), k, want)
		}
		if !sort.SliceIsSorted(scores, func(i, j int) bool { return scores[i] > scores[j] }) {
			e.c.Fatalf("keyword recall is not sorted: %v", scores)
		}
		for _, id := range ids {
			if req.QueryVector == nil && !hasAll(e.mems[id].m.Content, req.Query) {
				e.c.Fatalf("keyword recall of %q returns %q", req.Query, e.mems[id].m.Content)
			}
		}
		// a memory that matches the words is never beaten by one that is farther away and does not
		if req.QueryVector != nil {
			for _, m := range match {
				in := false
				for _, id := range ids {
					in = in || id == m.m.ID
				}
				if in {
					continue
				}
				for _, id := range ids {
					o := e.mems[id].m
					if !hasAll(o.Content, req.Query) && h.Cosine(req.QueryVector, o.Vector) < h.Cosine(req.QueryVector, m.m.Vector)-1e-6 {
						e.c.Fatalf("keyword recall of %q returns %q but not %q, which is closer and matches", req.Query, id, m.m.ID)
					}
				}
			}
		}
		if len(match) > 0 && len(match) < len(all) {
			e.c.NonTrivial()
		}
		return ids
	}
	want := map[string]float64{}
	for _, m := range e.of(req.BankID, keep) {
		want[m.m.ID] = h.Cosine(req.QueryVector, m.m.Vector)
	}
	if msg := h.CheckTopK(ids, scores, want, k, 1e-4); msg != "" {
		e.c.Fatalf("%s recall (%s, topk %d): %s", kind, strat(*req.Strategy), req.TopK, msg)
	}
	if len(ids) > 0 && len(ids) < len(e.mems) {
		e.c.NonTrivial()
	}
	return ids
}

func (e *env) drawRecall(t *rapid.T) (hindsight.RecallRequest, []string) {
	req := hindsight.RecallRequest{BankID: e.bank(t)}
	st := hindsight.RecallStrategy{TopK: rapid.IntRange(1, 6).Draw(t, "topk")}
	req.TopK = rapid.IntRange(0, 6).Draw(t, "total")
	if rapid.IntRange(0, 4).Draw(t, "with vector") > 0 {
		req.QueryVector = h.NZVec(t, e.dim, "query vector")
	}
	if rapid.IntRange(0, 2).Draw(t, "with text") > 0 {
		req.Query = strings.Join(rapid.SliceOfN(rapid.SampledFrom(words), 1, 2).Draw(t, "query"), " ")
	}
	var kinds []string
	st.Memory = rapid.Bool().Draw(t, "memory")
	if st.Memory && req.QueryVector != nil {
		kinds = append(kinds, "semantic")
	}
	st.Priming = rapid.Bool().Draw(t, "priming")
	if st.Priming && req.Query != "" {
		kinds = append(kinds, "keyword")
	}
	if req.QueryVector != nil { // these two rank by the query vector
		if rapid.Bool().Draw(t, "temporal") {
			f := &hindsight.TemporalFilter{}
			if rapid.IntRange(0, 3).Draw(t, "start") > 0 {
				x := e.moment(t)
				f.Start = &x
			}
			if rapid.IntRange(0, 3).Draw(t, "end") > 0 {
				x := e.moment(t)
				f.End = &x
			}
			st.Temporal = f
			kinds = append(kinds, "temporal")
		}
		if rapid.Bool().Draw(t, "by entity") {
			st.Entity = rapid.SliceOfNDistinct(rapid.SampledFrom(entities), 1, 2, rapid.ID[string]).Draw(t, "entity")
			kinds = append(kinds, "entity")
		}
	}
	req.Strategy = &st
	return req, kinds
}

func only(st hindsight.RecallStrategy, kind string) *hindsight.RecallStrategy {
	one := hindsight.RecallStrategy{TopK: st.TopK}
	switch kind {
	case "semantic":
		one.Memory = true
	case "keyword":
		one.Priming = true
	case "temporal":
		one.Temporal = st.Temporal
	case "entity":
		one.Entity = st.Entity
	}
	return &one
}

func (e *env) recall(t *rapid.T) {
	req, kinds := e.drawRecall(t)
	if req.BankID == "" {
		return
	}
	e.c.Op("recall %q %q vec=%s %s total=%d", req.BankID, req.Query, h.VS(req.QueryVector), strat(*req.Strategy), req.TopK)
	e.checkRecall(req, kinds)
	// no strategy means the default one
	st := hindsight.DefaultStrategy()
	if rapid.Bool().Draw(t, "default strategy") && !e.ties(req) {
		d := req
		d.Strategy = st
		want, _, _ := e.run(d, "default recall")
		d.Strategy = nil
		res, err := e.sys.Recall(bg, &d)
		e.c.Must(err, "Recall")
		var got []string
		for _, r := range res {
			got = append(got, r.ID)
		}
		if !h.SameStrings(h.Sorted(got), h.Sorted(want)) && !tiedAt(res, d.TopK) {
			e.c.Fatalf("recall without a strategy returns %q, with the default one %q", got, want)
		}
	}
}

// tiedAt tells whether equal scores may make the cut at k arbitrary.
func tiedAt(res []*hindsight.RecallResult, k int) bool { return k > 0 && len(res) == k }

func (e *env) checkRecall(req hindsight.RecallRequest, kinds []string) []string {
	if len(kinds) == 0 {
		if ids, _, _ := e.run(req, "recall"); len(ids) != 0 {
			e.c.Fatalf("a recall without a usable strategy returns %q", ids)
		}
		return nil
	}
	if len(kinds) == 1 {
		return e.single(req, kinds[0])
	}
	e.c.Class("fused")
	// several strategies: the fusion of what each finds alone
	fused := map[string]float64{}
	from := map[string]map[string]bool{}
	for _, kind := range kinds {
		one := req
		one.Strategy, one.TopK = only(*req.Strategy, kind), 0
		for i, id := range e.single(one, kind) {
			fused[id] += 1 / (60 + float64(i+1))
			if from[id] == nil {
				from[id] = map[string]bool{}
			}
			from[id][kind] = true
		}
	}
	ids, scores, res := e.run(req, "fused recall")
	for _, r := range res {
		if from[r.ID] != nil && !from[r.ID][r.Strategy] {
			e.c.Fatalf("fused recall says that %q was found by %q", r.ID, r.Strategy)
		}
	}
	// memories equally close may be found in another order
	if !e.ties(req) {
		if msg := h.CheckTopK(ids, scores, fused, req.TopK, 1e-9); msg != "" {
			e.c.Fatalf("fused recall (%s, total %d): %s", strat(*req.Strategy), req.TopK, msg)
		}
	}
	return ids
}

// ties tells whether two memories are about equally relevant by some measure.
func (e *env) ties(req hindsight.RecallRequest) bool {
	all := e.of(req.BankID, nil)
	for i, a := range all {
		for _, b := range all[:i] {
			if req.QueryVector != nil && math.Abs(h.Cosine(req.QueryVector, a.m.Vector)-h.Cosine(req.QueryVector, b.m.Vector)) < 1e-5 {
				return true
			}
		}
	}
	return false
}

func (e *env) rerank(t *rapid.T) {
	req, _ := e.drawRecall(t)
	if req.BankID == "" || e.ties(req) {
		return
	}
	total := req.TopK
	req.TopK = 0
	base, _, _ := e.run(req, "recall")
	mode := rapid.SampledFrom([]string{"reverse", "last", "empty", "error"}).Draw(t, "reranker")
	e.c.Op("recall with reranker %q: %q of %q", mode, req.Query, base)
	var saw []string
	var sawQuery string
	e.sys.SetReranker(func(_ context.Context, q string, c []*hindsight.RecallResult) ([]*hindsight.RecallResult, error) {
		sawQuery, saw = q, nil
		for _, r := range c {
			saw = append(saw, r.ID)
		}
		switch mode {
		case "reverse":
			out := make([]*hindsight.RecallResult, len(c))
			for i, r := range c {
				out[len(c)-1-i] = r
			}
			return out, nil
		case "last":
			return c[len(c)-1:], nil
		case "empty":
			return nil, nil
		}
		return nil, errors.New("no reranking today")
	})
	defer e.sys.SetReranker(nil)
	req.TopK = total
	got, _, _ := e.run(req, "reranked recall")
	want := append([]string(nil), base...)
	if len(base) > 0 && req.Query != "" {
		if !h.SameStrings(h.Sorted(saw), h.Sorted(base)) || sawQuery != req.Query {
			e.c.Fatalf("the reranker got %q for %q, want the candidates %q for %q", saw, sawQuery, base, req.Query)
		}
		want = append([]string(nil), saw...)
		switch mode {
		case "reverse":
			for i, id := range saw {
				want[len(saw)-1-i] = id
			}
			e.c.NonTrivial()
		case "last":
			want = want[len(want)-1:]
		}
	}
	if total > 0 && len(want) > total {
		want = want[:total]
	}
	if req.Query == "" { // not reranked; equal scores may come in any order
		return
	}
	if !h.SameStrings(got, want) {
		e.c.Fatalf("recall with reranker %q returns %q, want %q", mode, got, want)
	}
}

// ---- reflect and observe

func (e *env) reflect(t *rapid.T) {
	req, kinds := e.drawRecall(t)
	if req.BankID == "" {
		return
	}
	budget := rapid.SampledFrom([]int{0, 0, 1, 5, 12, 40}).Draw(t, "budget")
	e.c.Op("reflect %q %q vec=%s %s total=%d budget=%d", req.BankID, req.Query, h.VS(req.QueryVector), strat(*req.Strategy), req.TopK, budget)
	e.checkRecall(req, kinds)
	_, scores, _ := e.run(req, "recall")
	st := *req.Strategy
	resp, err := e.sys.Reflect(bg, &hindsight.ContextRequest{BankID: req.BankID, Query: req.Query, QueryVector: req.QueryVector, Strategy: &st, TopK: req.TopK, TokenBudget: budget})
	e.c.Must(err, "Reflect")
	if len(resp.Memories) != len(scores) {
		e.c.Fatalf("Reflect uses %d memories, Recall returns %d", len(resp.Memories), len(scores))
	}
	for _, m := range resp.Memories {
		if m.BankID != req.BankID {
			e.c.Fatalf("Reflect on bank %q uses a memory of %q", req.BankID, m.BankID)
		}
		e.sameMemory(m, "Reflect")
		if budget == 0 && !strings.Contains(resp.Context, m.Content) {
			e.c.Fatalf("the context lacks %q:\n%s", m.Content, resp.Context)
		}
	}
	if !utf8.ValidString(resp.Context) {
		e.c.Fatalf("the context is not valid UTF-8: %q", resp.Context)
	}
	if budget > 0 && (resp.TokenCount > budget || len(resp.Context) > 4*budget+3) {
		e.c.Fatalf("context of %d bytes, %d tokens, exceeds the budget of %d tokens", len(resp.Context), resp.TokenCount, budget)
	}
	if d := resp.TokenCount - len(resp.Context)/4; d < -1 || d > 1 {
		e.c.Fatalf("token count %d of a context of %d bytes", resp.TokenCount, len(resp.Context))
	}
}

func (e *env) observe(t *rapid.T) {
	req, _ := e.drawRecall(t)
	if req.BankID == "" || e.writes >= maxWrites-6 {
		return
	}
	min := rapid.SampledFrom([]float64{0, 0.15, 0.25, 0.3, 0.5}).Draw(t, "min confidence")
	sel := rapid.SliceOfNDistinct(rapid.SampledFrom(obsTypes), 0, 2, rapid.ID[hindsight.ObservationType]).Draw(t, "observation types")
	e.c.Op("observe %q %q vec=%s %s total=%d min=%v types=%q", req.BankID, req.Query, h.VS(req.QueryVector), strat(*req.Strategy), req.TopK, min, sel)
	_, scores, _ := e.run(req, "recall")
	st := *req.Strategy
	resp, err := e.sys.Observe(bg, &hindsight.ReflectRequest{BankID: req.BankID, Query: req.Query, QueryVector: req.QueryVector, Strategy: &st, TopK: req.TopK, MinConfidence: min, ObservationTypes: sel})
	e.c.Must(err, "Observe")
	if len(resp.SourceMemories) != len(scores) {
		e.c.Fatalf("Observe uses %d memories, Recall returns %d", len(resp.SourceMemories), len(scores))
	}
	src := map[string]bool{}
	for _, m := range resp.SourceMemories {
		e.sameMemory(m, "Observe")
		src[m.ID] = true
	}
	now, err := e.sys.GetObservations(bg, req.BankID)
	e.c.Must(err, "GetObservations")
	stored := map[string]*hindsight.Observation{}
	for _, o := range now {
		stored[o.ID] = o
	}
	for _, o := range resp.Observations {
		if o.ID == "" || o.BankID != req.BankID || e.mems[o.ID] != nil {
			e.c.Fatalf("observation %+v has no id or bank of its own", *o)
		}
		if len(sel) > 0 {
			ok := false
			for _, s := range sel {
				ok = ok || s == o.ObservationType
			}
			if !ok {
				e.c.Fatalf("an observation of type %q, asked for %q", o.ObservationType, sel)
			}
		}
		for _, id := range o.SourceMemoryIDs {
			if !src[id] {
				e.c.Fatalf("observation %+v rests on %q, which was not recalled", *o, id)
			}
		}
		if o.Confidence < 0 || o.Confidence > 1 {
			e.c.Fatalf("observation with confidence %v", o.Confidence)
		}
		s := stored[o.ID]
		if (s != nil) != (o.Confidence >= min) {
			e.c.Fatalf("an observation of confidence %v with minimum %v: stored = %v", o.Confidence, min, s != nil)
		}
		if s != nil {
			e.writes++
			e.c.Class("observed")
			w := *o
			if len(s.Vector) != e.dim {
				e.c.Fatalf("stored observation has the vector %v", s.Vector)
			}
			w.Vector = s.Vector
			e.putObs(w)
		}
	}
}

func (e *env) checkObservations() {
	for _, id := range bankIDs {
		if e.gone[id] {
			continue
		}
		got, err := e.sys.GetObservations(bg, id)
		e.c.Must(err, "GetObservations(%q)", id)
		want := e.of(id, func(m *mem) bool { return m.obs != nil })
		if len(got) != len(want) {
			e.c.Fatalf("GetObservations(%q) returns %d observations, want %d", id, len(got), len(want))
		}
		seen := map[string]bool{}
		for _, o := range got {
			m := e.mems[o.ID]
			if m == nil || m.obs == nil || m.m.BankID != id || seen[o.ID] {
				e.c.Fatalf("GetObservations(%q) returns %+v, which is not one of the bank's or comes twice", id, *o)
			}
			seen[o.ID] = true
			w := m.obs
			if o.BankID != w.BankID || o.Content != w.Content || !h.SameVec(o.Vector, w.Vector) || math.Abs(o.Confidence-w.Confidence) > 1e-4 ||
				o.ObservationType != w.ObservationType || o.Reasoning != w.Reasoning || !h.SameStrings(o.SourceMemoryIDs, w.SourceMemoryIDs) || !o.CreatedAt.Equal(w.CreatedAt) {
				e.c.Fatalf("GetObservations(%q) returns %+v, want %+v", id, *o, *w)
			}
		}
	}
}

// ---- graph nodes of the user's own

func (e *env) note(t *rapid.T) {
	id := rapid.SampledFrom(entities[1:]).Draw(t, "node")
	v := h.Text(t, "text")
	e.c.Op("own graph node %q %q", id, v)
	e.c.Must(e.sys.Graph().UpsertNode(bg, &graph.GraphNode{ID: id, NodeType: "person", Content: v, Vector: []float32{1, 2, 3}}), "UpsertNode")
	e.notes[id] = v
}

func (e *env) checkNotes() {
	for id, v := range e.notes {
		n, err := e.sys.Graph().GetNode(bg, id)
		e.c.Must(err, "GetNode(%q)", id)
		if n.NodeType != "person" || n.Content != v || !h.SameVec(n.Vector, []float32{1, 2, 3}) {
			e.c.Fatalf("the graph node %q of the user has become %+v", id, *n)
		}
	}
}

// ---- conversations

func (e *env) session(t *rapid.T) string {
	id := rapid.SampledFrom([]string{"s1", "s2"}).Draw(t, "session")
	if e.hist[id] == nil {
		e.c.Must(e.sys.CreateSession(bg, &core.Session{ID: id, UserID: "u"}), "CreateSession")
		e.hist[id] = []string{}
	}
	return id
}

func (e *env) setAuto(t *rapid.T) {
	cfg := hindsight.AutoRetainConfig{Enabled: rapid.IntRange(0, 4).Draw(t, "enabled") > 0, WindowSize: rapid.IntRange(0, 4).Draw(t, "window"), TriggerEvery: rapid.IntRange(0, 3).Draw(t, "every")}
	if rapid.Bool().Draw(t, "filtered") {
		cfg.RoleFilter = []string{"user"}
	}
	e.c.Op("auto retain %+v", cfg)
	arg := cfg
	e.sys.SetAutoRetain(&arg)
	if cfg.WindowSize == 0 {
		cfg.WindowSize = 6
	}
	if cfg.TriggerEvery == 0 {
		cfg.TriggerEvery = 2
	}
	if cfg.Enabled {
		e.counter = 0
	}
	e.cfgAuto = cfg
	if !e.hasExt && rapid.IntRange(0, 3).Draw(t, "extractor") > 0 {
		e.hasExt = true
		e.sys.SetFactExtractor(e.extract)
	}
}

func (e *env) extract(_ context.Context, bank string, msgs []*core.Message) ([]hindsight.ExtractedFact, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	k := call{bank: bank}
	for _, m := range msgs {
		k.msgs = append(k.msgs, m.Content)
	}
	e.calls = append(e.calls, k)
	if e.failExt {
		return nil, errors.New("extractor is down")
	}
	return []hindsight.ExtractedFact{e.fact(len(e.calls), bank), {ID: "", Vector: []float32{1}}, {ID: "no-vector"}}, nil
}

func (e *env) fact(n int, bank string) hindsight.ExtractedFact {
	v := make([]float32, e.dim)
	v[n%e.dim] = 1
	v[0] += float32(n) / 16
	return hindsight.ExtractedFact{ID: fmt.Sprintf("fact-%d", n), Content: fmt.Sprintf("tea %d", n), Vector: v, Entities: []string{"bob"}, Metadata: map[string]any{"source": "chat"}}
}

func (e *env) say(t *rapid.T) {
	bank := e.bank(t)
	if bank == "" || e.writes >= maxWrites {
		return
	}
	s := e.session(t)
	role := rapid.SampledFrom([]string{"user", "assistant"}).Draw(t, "role")
	text := fmt.Sprintf("%s %d", phrase(t), len(e.hist[s]))
	e.failExt = rapid.IntRange(0, 5).Draw(t, "extractor fails") == 0
	e.c.Op("say %s %s in %q: %q (extractor fails: %v)", s, role, bank, text, e.failExt)
	e.c.Must(e.sys.AddMessage(bg, bank, &core.Message{ID: fmt.Sprintf("%s-%d", s, len(e.hist[s])), SessionID: s, Role: role, Content: text}), "AddMessage")
	e.hist[s] = append(e.hist[s], text)
	if !e.cfgAuto.Enabled || !e.hasExt || e.cfgAuto.RoleFilter != nil && role != "user" {
		return
	}
	e.counter++
	if e.counter < e.cfgAuto.TriggerEvery {
		return
	}
	e.counter = 0
	w := e.hist[s]
	if len(w) > e.cfgAuto.WindowSize {
		w = w[len(w)-e.cfgAuto.WindowSize:]
	}
	e.expect = append(e.expect, call{bank, append([]string(nil), w...)})
	n := len(e.expect)
	// extraction runs in the background
	var id string
	if !e.failExt {
		id = e.fact(n, bank).ID
	}
	e.await(func() bool {
		e.mu.Lock()
		k := len(e.calls)
		e.mu.Unlock()
		if k < n {
			return false
		}
		if id == "" {
			return true
		}
		return e.stored(id)
	}, "the facts of message %q were not retained", text)
	e.checkCalls()
	if id != "" {
		e.learn(n, bank)
	}
	if len(e.hist[s]) > len(w) {
		e.c.NonTrivial()
		e.c.Class("windowed")
	}
}

func (e *env) stored(id string) bool {
	_, err := e.sys.Store().(*core.SQLiteStore).GetByID(bg, id)
	return err == nil
}

func (e *env) await(f func() bool, format string, args ...any) {
	for begin := time.Now(); !f(); time.Sleep(time.Millisecond) {
		if time.Since(begin) > 30*time.Second {
			e.c.Fatalf(format, args...)
		}
	}
}

func (e *env) learn(n int, bank string) {
	e.writes++
	f := e.fact(n, bank)
	x := &mem{m: hindsight.Memory{ID: f.ID, BankID: bank, Type: hindsight.WorldMemory, Content: f.Content, Vector: f.Vector, Entities: f.Entities}, meta: map[string]string{"source": "chat"}}
	// its date is the moment of retention
	res, err := e.sys.Recall(bg, &hindsight.RecallRequest{BankID: bank, QueryVector: f.Vector, Strategy: &hindsight.RecallStrategy{Memory: true, TopK: 100}})
	e.c.Must(err, "Recall")
	for _, r := range res {
		if r.ID == f.ID {
			x.m.CreatedAt = r.CreatedAt
			if d := time.Since(r.CreatedAt); d < 0 || d > time.Minute+time.Since(e.started()) {
				e.c.Fatalf("a new fact is dated %v", r.CreatedAt)
			}
		}
	}
	if x.m.CreatedAt.IsZero() {
		e.c.Fatalf("fact %q is stored but not recalled", f.ID)
	}
	e.mems[f.ID] = x
}

var began = time.Now()

func (e *env) started() time.Time { return began }

func (e *env) checkCalls() {
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(e.calls) != len(e.expect) {
		e.c.Fatalf("the extractor was called %d times, want %d", len(e.calls), len(e.expect))
	}
	for i := range e.calls {
		if e.calls[i].bank != e.expect[i].bank || !h.SameStrings(e.calls[i].msgs, e.expect[i].msgs) {
			e.c.Fatalf("the extractor got %q, want %q", e.calls[i], e.expect[i])
		}
	}
}

// retainText runs the extractor directly.
func (e *env) retainText(t *rapid.T) {
	bank := e.bank(t)
	if bank == "" || e.writes >= maxWrites {
		return
	}
	msgs := []*core.Message{{Content: phrase(t)}}
	e.failExt = rapid.IntRange(0, 4).Draw(t, "extractor fails") == 0
	e.c.Op("retain from text in %q (extractor %v, fails %v)", bank, e.hasExt, e.failExt)
	res, err := e.sys.RetainFromText(bg, bank, msgs)
	if !e.hasExt {
		if !errors.Is(err, hindsight.ErrNoFactExtractor) {
			e.c.Fatalf("RetainFromText without an extractor: %v", err)
		}
		return
	}
	e.expect = append(e.expect, call{bank, []string{msgs[0].Content}})
	e.checkCalls()
	if e.failExt {
		if err == nil {
			e.c.Fatalf("RetainFromText succeeds though the extractor failed")
		}
		return
	}
	e.c.Must(err, "RetainFromText")
	if res.Retained != 1 || res.Skipped != 2 || res.Err() == nil {
		e.c.Fatalf("RetainFromText of one good and two bad facts: %+v", *res)
	}
	e.learn(len(e.expect), bank)
}

// ---- everything

func (e *env) checkAll() {
	e.checkBanks()
	e.checkNotes()
	e.checkObservations()
	for _, id := range bankIDs {
		if e.gone[id] {
			continue
		}
		q := make([]float32, e.dim)
		for i := range q {
			q[i] = 1 + float32(i)/3
		}
		e.single(hindsight.RecallRequest{BankID: id, QueryVector: q, Strategy: &hindsight.RecallStrategy{Memory: true, TopK: 50}}, "semantic")
	}
	for s, want := range e.hist {
		ms, err := e.sys.Store().GetSessionHistory(bg, s, 1000)
		e.c.Must(err, "GetSessionHistory")
		var got []string
		for _, m := range ms {
			got = append(got, m.Content)
		}
		if !h.SameStrings(got, want) {
			e.c.Fatalf("session %s holds %q, want %q", s, got, want)
		}
	}
}

func TestBanks(t *testing.T) {
	h.Check(t, h.Opt{Quick: 90, Thorough: 3000, Steps: 24}, func(c *h.C) {
		e := newEnv(c)
		c.T.Repeat(map[string]func(*rapid.T){
			"create":  e.createBank,
			"delete":  e.deleteBank,
			"retain":  e.retain,
			"retain2": e.retain,
			"retain3": e.retain,
			"observe": e.observe,
			"add":     e.addObservation,
			"recall":  e.recall,
			"recall2": e.recall,
			"recall3": e.recall,
			"rerank":  e.rerank,
			"reflect": e.reflect,
			"note":    e.note,
			"auto":    e.setAuto,
			"say":     e.say,
			"say2":    e.say,
			"text":    e.retainText,
			"reopen":  func(*rapid.T) { e.restart() },
			"":        func(*rapid.T) { e.checkAll() },
		})
	})
}

// Conversations with automatic retention.
func TestTalk(t *testing.T) {
	h.Check(t, h.Opt{Quick: 40, Thorough: 1200, Steps: 24}, func(c *h.C) {
		e := newEnv(c)
		e.hasExt = true
		e.sys.SetFactExtractor(e.extract)
		c.T.Repeat(map[string]func(*rapid.T){
			"auto":   e.setAuto,
			"say":    e.say,
			"say2":   e.say,
			"say3":   e.say,
			"say4":   e.say,
			"say5":   e.say,
			"say6":   e.say,
			"text":   e.retainText,
			"recall": e.recall,
			"reopen": func(t *rapid.T) {
				if rapid.IntRange(0, 2).Draw(t, "reopen") == 0 {
					e.restart()
				}
			},
			"": func(*rapid.T) { e.checkAll() },
		})
	})
}

// Reflection over a well-filled bank.
func TestObserve(t *testing.T) {
	h.Check(t, h.Opt{Quick: 40, Thorough: 1200, Steps: 10}, func(c *h.C) {
		e := newEnv(c)
		for _, id := range bankIDs[2:] {
			e.gone[id] = true
		}
		for i := 0; i < 8; i++ {
			e.retain(c.T)
		}
		c.T.Repeat(map[string]func(*rapid.T){
			"create":   e.createBank,
			"retain":   e.retain,
			"observe":  e.observe,
			"observe2": e.observe,
			"observe3": e.observe,
			"reflect":  e.reflect,
			"recall":   e.recall,
			"reopen":   func(*rapid.T) { e.restart() },
			"":         func(*rapid.T) { e.checkAll() },
		})
	})
}
