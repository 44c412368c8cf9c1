package p01

import (
	"fmt"
	"testing"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"github.com/liliang-cn/cortexdb/v2/verifharness/mdl"
	"pgregory.net/rapid"
)

// Every history of mutations leaves exactly the records that a map would hold.
func TestHistory(t *testing.T) {
	h.Check(t, h.Opt{Quick: 250, Thorough: 4000, Steps: 25}, func(c *h.C) {
		dim := rapid.IntRange(1, 4).Draw(c.T, "dim")
		hnsw := rapid.Bool().Draw(c.T, "hnsw")
		e := mdl.NewEnv(c, dim, func(cfg *core.Config) { cfg.HNSW.Enabled = hnsw })
		e.WithACL = true
		e.Big = 60
		e.Prepare(c.T)
		acts := e.Actions()
		acts[""] = func(*rapid.T) { e.CheckAll() }
		c.T.Repeat(acts)
		if e.Updates > 0 && e.Deletes > 0 {
			c.NonTrivial()
		}
		if e.Reopens > 0 {
			c.Class("reopen")
		}
		if e.Failures > 0 {
			c.Class("rejected-write")
		}
	})
}

// Batches of many hundreds of records do what the same operations one by one would do.
func TestBulk(t *testing.T) {
	h.Check(t, h.Opt{Quick: 16, Thorough: 300}, func(c *h.C) {
		hnsw := rapid.IntRange(0, 3).Draw(c.T, "hnsw") == 0
		e := mdl.NewEnv(c, 2, func(cfg *core.Config) { cfg.HNSW.Enabled = hnsw })
		e.WithACL = true
		e.Prepare(c.T)
		n := rapid.IntRange(1, 1600).Draw(c.T, "n")
		if hnsw {
			n = n % 400
		}
		e.Fill(c.T, 3)
		e.Bulk(c.T, n)
		e.CheckAll()
		for round := rapid.IntRange(1, 3).Draw(c.T, "rounds"); round > 0; round-- {
			from := rapid.IntRange(0, n).Draw(c.T, "from")
			to := rapid.IntRange(from, n).Draw(c.T, "to")
			step := rapid.SampledFrom([]int{1, 1, 1, 2, 7}).Draw(c.T, "step")
			var ids []string
			for i := from; i < to; i += step {
				ids = append(ids, fmt.Sprintf("bulk%d", i))
				if i%97 == 0 {
					ids = append(ids, fmt.Sprintf("bulk%d", i), fmt.Sprintf("missing%d", i))
				}
			}
			if len(ids) > 500 {
				c.NonTrivial()
			}
			e.DeleteBatch(ids)
			e.CheckAll()
			if rapid.Bool().Draw(c.T, "again") {
				e.Bulk(c.T, rapid.IntRange(1, max(n, 1)).Draw(c.T, "m"))
				e.CheckAll()
			}
		}
		if rapid.Bool().Draw(c.T, "reopen") {
			e.Reopen()
			e.CheckAll()
		}
	})
}
