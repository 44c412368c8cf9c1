package p24

import (
	"io"
	"log"
	"os"
	"testing"

	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"github.com/liliang-cn/cortexdb/v2/verifharness/kb"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

// The store and the graph hold exactly the artifacts of the items last written.
func TestKnowledge(t *testing.T) {
	h.Check(t, h.Opt{Quick: 120, Thorough: 4000, Steps: 14}, func(c *h.C) {
		dim := rapid.SampledFrom([]int{0, 5}).Draw(c.T, "dim")
		k := kb.NewKnow(c, dim)
		c.T.Repeat(map[string]func(*rapid.T){
			"save":     k.Save,
			"save2":    k.Save,
			"update":   k.Update,
			"delete":   k.Delete,
			"ingest":   k.Ingest,
			"entities": k.MoreEntities,
			"reopen":   func(*rapid.T) { k.Restart() },
			"":         func(*rapid.T) { k.CheckAll() },
		})
		if k.Replaced > 0 {
			c.Class("item replaced")
		}
		if k.Removed > 0 {
			c.Class("item deleted")
		}
		if k.Failed > 0 {
			c.Class("embedder failed")
		}
		if k.Replaced+k.Removed+k.Failed > 0 && len(k.Items) > 0 {
			c.NonTrivial()
		}
	})
}
