package p25

import (
	"io"
	"log"
	"os"
	"testing"
	"time"

	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"github.com/liliang-cn/cortexdb/v2/verifharness/kb"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

// Memories are a map from id to the last version written, each in its own bucket.
func TestMemories(t *testing.T) {
	h.Check(t, h.Opt{Quick: 250, Thorough: 6000, Steps: 24}, func(c *h.C) {
		e := kb.NewMems(c)
		ttls := []int{0, 0, 3600, 86400, -5, 1 << 31, 20_000_000_000}
		alive := func(int) bool { return true }
		c.T.Repeat(map[string]func(*rapid.T){
			"save":    func(t *rapid.T) { e.Save(t, ttls) },
			"save2":   func(t *rapid.T) { e.Save(t, ttls) },
			"update":  func(t *rapid.T) { e.Update(t, ttls) },
			"delete":  e.Delete,
			"say":     e.Say,
			"search":  func(t *rapid.T) { e.Search(t, alive) },
			"search2": func(t *rapid.T) { e.Search(t, alive) },
			"reopen":  e.Restart,
			"":        func(*rapid.T) { e.CheckAll(kb.MemIDs) },
		})
	})
}

// A memory whose time to live has passed is not found any more, and hides no other.
func TestExpiry(t *testing.T) {
	h.Check(t, h.Opt{Quick: 5, Thorough: 60}, func(c *h.C) {
		e := kb.NewMems(c)
		ttls := []int{0, 1, 1, 3600}
		for i := 0; i < 16; i++ {
			e.Save(c.T, ttls)
		}
		for i := 0; i < 4; i++ {
			e.Update(c.T, ttls)
		}
		c.Op("wait")
		time.Sleep(1200 * time.Millisecond)
		if e.Mixed(1) {
			c.Class("some expired")
		}
		for i := 0; i < 30; i++ {
			e.Search(c.T, func(ttl int) bool { return ttl != 1 })
		}
	})
}
