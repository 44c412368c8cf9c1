package p17

import (
	"context"
	"encoding/binary"
	"io"
	"log"
	"math"
	"os"
	"testing"

	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"github.com/liliang-cn/cortexdb/v2/verifharness/mdl"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

var bg = context.Background()

func anyFloat() *rapid.Generator[float32] {
	return rapid.OneOf(rapid.Float32(), rapid.SampledFrom([]float32{0, float32(math.Copysign(0, -1)), math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN())}))
}

func sameBits(a, b []float32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float32bits(a[i]) != math.Float32bits(b[i]) && !(a[i] != a[i] && b[i] != b[i]) {
			return false
		}
	}
	return true
}

func TestVectors(t *testing.T) {
	h.Check(t, h.Opt{Quick: 4000, Thorough: 300000}, func(c *h.C) {
		v := rapid.SliceOfN(anyFloat(), 0, 40).Draw(c.T, "vector")
		if v == nil {
			v = []float32{}
		}
		c.Op("encode %v", v)
		raw, err := encoding.EncodeVector(v)
		c.Must(err, "EncodeVector")
		back, err := encoding.DecodeVector(raw)
		c.Must(err, "DecodeVector")
		if !sameBits(v, back) {
			c.Fatalf("came back as %v", back)
		}
		bad := len(v) == 0
		for _, x := range v {
			bad = bad || math.IsNaN(float64(x)) || math.IsInf(float64(x), 0)
		}
		if err := encoding.ValidateVector(v); (err != nil) != bad {
			c.Fatalf("ValidateVector: %v, want an error %v", err, bad)
		}
		// every shortening is noticed
		cut := rapid.IntRange(0, len(raw)-1).Draw(c.T, "cut")
		if x, err := encoding.DecodeVector(raw[:cut]); err == nil {
			c.Fatalf("%d of %d bytes are decoded to %v", cut, len(raw), x)
		}
		// whatever the bytes: an error, or the vector they begin with
		hurt := append([]byte{}, raw...)
		for i := rapid.IntRange(1, 3).Draw(c.T, "changes"); i > 0; i-- {
			hurt[rapid.IntRange(0, min(len(hurt)-1, 8)).Draw(c.T, "byte")] = rapid.Byte().Draw(c.T, "value")
		}
		if rapid.Bool().Draw(c.T, "anything") {
			hurt = rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(c.T, "bytes")
		}
		c.Op("decode %x", hurt)
		x, err := encoding.DecodeVector(hurt)
		n := -1
		if len(hurt) >= 4 {
			n = int(int32(binary.LittleEndian.Uint32(hurt)))
		}
		if err == nil && !(n >= 0 && len(hurt)-4 >= 4*n) || err != nil && n >= 0 && len(hurt)-4 == 4*n {
			c.Fatalf("decoded to %v, %v", x, err)
		}
		if err == nil {
			again, err := encoding.EncodeVector(x)
			c.Must(err, "EncodeVector")
			y, err := encoding.DecodeVector(again)
			c.Must(err, "DecodeVector")
			if len(x) != n || !sameBits(x, y) {
				c.Fatalf("decoded to %v", x)
			}
		}
		if len(v) > 1 {
			c.NonTrivial()
		}
	})
}

func TestMetadata(t *testing.T) {
	h.Check(t, h.Opt{Quick: 4000, Thorough: 300000}, func(c *h.C) {
		str := rapid.OneOf(rapid.String(), rapid.SampledFrom([]string{"", "\"", "\\", "<&>", "\u2028", "日本", "null", "{}", "\x00"}))
		m := rapid.MapOfN(str, str, 0, 5).Draw(c.T, "metadata")
		c.Op("encode %q", m)
		s, err := encoding.EncodeMetadata(m)
		c.Must(err, "EncodeMetadata")
		back, err := encoding.DecodeMetadata(s)
		c.Must(err, "DecodeMetadata")
		if (m == nil) != (back == nil) || !h.SameMap(m, back) {
			c.Fatalf("came back as %q", back)
		}
		if len(m) > 1 {
			c.NonTrivial()
		}
		if s != "" {
			if x, err := encoding.DecodeMetadata(s[:rapid.IntRange(1, len(s)-1).Draw(c.T, "cut")]); err == nil {
				c.Fatalf("a shortened text is decoded to %q", x)
			}
		}
		_, _ = encoding.DecodeMetadata(str.Draw(c.T, "any text"))
	})
}

func damage(t *rapid.T, raw []byte) []byte {
	out := append([]byte{}, raw...)
	switch rapid.IntRange(0, 3).Draw(t, "damage") {
	case 0:
		return out[:rapid.IntRange(0, len(out)-1).Draw(t, "length")]
	case 1:
		binary.LittleEndian.PutUint32(out, uint32(rapid.SampledFrom([]int32{-1, math.MinInt32, math.MaxInt32, int32(len(out))}).Draw(t, "count")))
		return out
	case 2:
		return []byte{}
	}
	return out[:3]
}

// A record whose vector bytes are damaged is reported or left out; the others are unaffected,
// also when the stored index is damaged.
func TestDamage(t *testing.T) {
	h.Check(t, h.Opt{Quick: 60, Thorough: 4000}, func(c *h.C) {
		kind := rapid.SampledFrom([]string{"none", "hnsw", "ivf"}).Draw(c.T, "index")
		quant := rapid.SampledFrom([]string{"", "", "scalar", "binary"}).Draw(c.T, "quantization")
		e := mdl.NewEnv(c, 4, func(cfg *core.Config) {
			cfg.HNSW.Enabled = kind == "hnsw"
			cfg.IVF.Enabled = kind == "ivf"
			if kind == "hnsw" {
				cfg.IndexType = core.IndexTypeHNSW
				if quant != "" {
					cfg.Quantization.Enabled, cfg.Quantization.Type = true, quant
				}
			} else if kind == "ivf" {
				cfg.IndexType = core.IndexTypeIVF
			}
		})
		e.NZ = true
		e.Prepare(c.T)
		e.Fill(c.T, rapid.IntRange(2, 12).Draw(c.T, "records"))
		if rapid.Bool().Draw(c.T, "reopened before") {
			e.Reopen()
		}
		ids := e.IDs()
		gone := map[string]bool{}
		for _, id := range ids {
			if rapid.IntRange(0, 3).Draw(c.T, "damaged") > 0 {
				continue
			}
			var raw []byte
			c.Must(e.S.GetDB().QueryRow("SELECT vector FROM embeddings WHERE id=?", id).Scan(&raw), "read")
			bad := damage(c.T, raw)
			c.Op("damage %q: %x", id, bad)
			_, err := e.S.GetDB().Exec("UPDATE embeddings SET vector=? WHERE id=?", bad, id)
			c.Must(err, "damage")
			gone[id] = true
		}
		broken := rapid.IntRange(0, 2).Draw(c.T, "snapshot") == 0
		if rapid.Bool().Draw(c.T, "reopened after") || broken {
			if broken {
				c.Must(e.S.Close(), "Close")
				e.Open()
				// the snapshot is written on closing: damage it in the reopened store, then go on as after a crash
				rows, err := e.S.GetDB().Query("SELECT type, data FROM index_snapshots")
				c.Must(err, "snapshots")
				snaps := map[string][]byte{}
				for rows.Next() {
					var n string
					var d []byte
					c.Must(rows.Scan(&n, &d), "snapshots")
					snaps[n] = d
				}
				rows.Close()
				for n, d := range snaps {
					if len(d) == 0 {
						continue
					}
					d = d[:rapid.IntRange(0, len(d)-1).Draw(c.T, "snapshot length")]
					if rapid.Bool().Draw(c.T, "junk") {
						d = rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(c.T, "snapshot bytes")
					}
					c.Op("snapshot %s becomes %d bytes", n, len(d))
					_, err := e.S.GetDB().Exec("UPDATE index_snapshots SET data=? WHERE type=?", d, n)
					c.Must(err, "damage")
				}
				old := e.S
				c.Defer(func() { _ = old.Close() })
				e.Open()
			} else {
				e.Reopen()
			}
		}
		for _, id := range ids {
			if !gone[id] {
				e.CheckID(id)
				continue
			}
			if x, err := e.S.GetByID(bg, id); err == nil {
				c.Fatalf("the damaged record %q reads as %+v", id, x)
			}
		}
		if len(gone) > 0 && len(gone) < len(ids) {
			c.NonTrivial()
		}
		q := h.NZVec(c.T, 4, "query")
		c.Op("search %v", q)
		res, err := e.S.Search(bg, q, core.SearchOptions{TopK: 60})
		c.Must(err, "Search")
		got, scores := e.Split(res)
		want := e.Eligible(q, h.Cosine, func(r *mdl.Rec) bool { return !gone[r.ID] })
		if m := h.CheckTopK(got, scores, want, 60, 1e-4); m != "" {
			c.Fatalf("%s", m)
		}
	})
}
