package p26

import (
	"io"
	"log"
	"os"
	"testing"

	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"github.com/liliang-cn/cortexdb/v2/verifharness/kb"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

// Retrieval returns the best chunks of the collection and their neighbourhood within the limits.
func TestRetrieval(t *testing.T) {
	h.Check(t, h.Opt{Quick: 250, Thorough: 6000}, func(c *h.C) {
		k := kb.NewKnow(c, rapid.SampledFrom([]int{0, 6}).Draw(c.T, "dim"))
		n := rapid.IntRange(1, 7).Draw(c.T, "n")
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 5).Draw(c.T, "op") {
			case 0:
				k.Delete(c.T)
			case 1:
				k.MoreEntities(c.T)
			case 2:
				k.Update(c.T)
			default:
				k.Save(c.T)
			}
		}
		for i := 0; i < 8; i++ {
			k.Search(c.T)
		}
	})
}
