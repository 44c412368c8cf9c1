// Package kb holds what the harnesses of the knowledge, memory and tool layers share.
package kb

import (
	"context"
	"errors"
	"hash/fnv"
	"path/filepath"
	"strings"
	"unicode"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"pgregory.net/rapid"
)

// Emb is a deterministic embedder: a text's vector is the sum of fixed vectors of its words.
type Emb struct {
	N     int
	Fail  bool // every call fails
	After int  // when positive, the calls after this many fail
	calls int
}

// ErrDown is what a failing embedder reports.
var ErrDown = errors.New("embedder is down")

func (e *Emb) Embed(_ context.Context, text string) ([]float32, error) {
	e.calls++
	if e.Fail || e.After > 0 && e.calls > e.After {
		return nil, ErrDown
	}
	return e.Of(text), nil
}

func (e *Emb) EmbedBatch(_ context.Context, texts []string) ([][]float32, error) {
	e.calls++
	if e.Fail || e.After > 0 && e.calls > e.After {
		return nil, ErrDown
	}
	out := make([][]float32, len(texts))
	for i, t := range texts {
		out[i] = e.Of(t)
	}
	return out, nil
}

// FailAfter lets n more calls succeed; n < 0 lets all succeed.
func (e *Emb) FailAfter(n int) {
	e.calls, e.After, e.Fail = 0, 0, n == 0
	if n > 0 {
		e.After = n
	}
}

func (e *Emb) Dim() int { return e.N }

// Of is the vector of a text.
func (e *Emb) Of(text string) []float32 {
	v := make([]float32, e.N)
	v[0] = 0.05
	for _, w := range Tokens(text) {
		for i := range v {
			f := fnv.New32a()
			f.Write([]byte(w))
			f.Write([]byte{byte(i)})
			x := f.Sum32()
			x ^= x >> 15
			x *= 2654435761
			v[i] += float32(x%2001)/1000 - 1
		}
	}
	return v
}

// Tokens are the words of a text as the full-text index sees them (for the alphabet generated here).
func Tokens(text string) []string {
	return strings.FieldsFunc(strings.ToLower(text), func(r rune) bool { return !unicode.IsLetter(r) && !unicode.IsDigit(r) })
}

// Words is the vocabulary: none is a prefix of another and none is a stop word.
var Words = []string{"amber", "birch", "cedar", "delta", "ember", "Fjord", "Golem", "harbor", "数据", "köln", "v2x"}

// Phrase draws between lo and hi words.
func Phrase(t *rapid.T, lo, hi int, label string) string {
	return strings.Join(rapid.SliceOfN(rapid.SampledFrom(Words), lo, hi).Draw(t, label), " ")
}

// DB opens a database in the case's directory and closes it at the end of the case.
type DB struct {
	*cortexdb.DB
	C    *h.C
	Cfg  cortexdb.Config
	E    *Emb // nil: no embedder
	Ctx  context.Context
	path string
}

// Open opens a database; dim 0 means without an embedder.
func Open(c *h.C, dim int, index core.IndexType) *DB {
	return OpenAt(c, filepath.Join(c.Dir(), "kb.db"), dim, index)
}

// OpenAt opens the database in the given file.
func OpenAt(c *h.C, path string, dim int, index core.IndexType) *DB {
	d := &DB{C: c, Ctx: context.Background(), path: path}
	d.Cfg = cortexdb.DefaultConfig(d.path)
	d.Cfg.IndexType = index
	if dim > 0 {
		d.E = &Emb{N: dim}
	}
	d.open()
	c.Defer(func() { d.Close() })
	return d
}

func (d *DB) open() {
	var opts []cortexdb.Option
	if d.E != nil {
		opts = append(opts, cortexdb.WithEmbedder(d.E))
	}
	db, err := cortexdb.Open(d.Cfg, opts...)
	if err != nil {
		h.CheckInfra(err)
		d.C.Fatalf("open: %v", err)
	}
	d.DB = db
}

// Reopen closes and reopens the database.
func (d *DB) Reopen() {
	d.C.Op("reopen")
	d.C.Must(d.Close(), "close")
	d.open()
}

// Has reports whether the tokens contain w (lower case).
func Has(tokens []string, w string) bool {
	for _, t := range tokens {
		if t == w {
			return true
		}
	}
	return false
}

// Count counts w in tokens.
func Count(tokens []string, w string) int {
	n := 0
	for _, t := range tokens {
		if t == w {
			n++
		}
	}
	return n
}

// All reports whether every one of ws is in tokens; false when ws is empty.
func All(tokens, ws []string) bool {
	for _, w := range ws {
		if !Has(tokens, w) {
			return false
		}
	}
	return len(ws) > 0
}

// Any reports whether one of ws is in tokens.
func Any(tokens, ws []string) bool {
	for _, w := range ws {
		if Has(tokens, w) {
			return true
		}
	}
	return false
}
