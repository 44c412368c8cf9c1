// P22: an exported graph comes back whole.
package p22

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"
	"testing/iotest"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
	"github.com/liliang-cn/cortexdb/v2/verifharness/gm"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"pgregory.net/rapid"
)

type failing struct{ left int }

func (f *failing) Write(p []byte) (int, error) {
	if len(p) > f.left {
		n := f.left
		f.left = 0
		return n, errors.New("writer is full")
	}
	f.left -= len(p)
	return len(p), nil
}

var formats = []graph.ExportFormat{graph.FormatGraphML, graph.FormatGEXF, graph.FormatJSON}

func check(c *h.C, what string, g *graph.GraphStore, e *gm.Env, nodes map[string]*graph.GraphNode, edges map[string]*graph.GraphEdge) {
	all, err := g.GetAllNodes(e.Ctx, nil)
	c.Must(err, "nodes")
	e.CheckNodes(what, all, nodes)
	var es []*graph.GraphEdge
	for _, n := range all {
		x, err := g.GetEdges(e.Ctx, n.ID, "out")
		c.Must(err, "edges")
		es = append(es, x...)
	}
	e.CheckEdges(what, es, edges)
}

func TestRoundTrip(t *testing.T) {
	h.Check(t, h.Opt{Quick: 350, Thorough: 9000}, func(c *h.C) {
		e := gm.NewEnv(c, 3, nil)
		e.AnyDim = rapid.Bool().Draw(c.T, "anydim")
		e.AnyWeight = true
		n := rapid.IntRange(0, 8).Draw(c.T, "nodes")
		m := 0
		if n > 0 {
			m = rapid.IntRange(0, 8).Draw(c.T, "edges")
		}
		e.Prepare(c.T, n, m)
		f := rapid.SampledFrom(formats).Draw(c.T, "format")
		var buf bytes.Buffer
		c.Op("export %s", f)
		c.Must(e.G.Export(e.Ctx, &buf, f), "export")
		data := buf.Bytes()
		var src io.Reader = bytes.NewReader(data)
		if rapid.Bool().Draw(c.T, "bytewise") {
			src = iotest.OneByteReader(src)
		}
		if got, err := graph.DetectFormat(src); err != nil || got != f {
			c.Fatalf("an export as %s is detected as %q (%v)", f, got, err)
		}

		o := gm.NewEnv(c, 3, func(cfg *core.Config) { cfg.Path += "2" })
		o.AnyDim = e.AnyDim
		if !e.AnyDim && rapid.Bool().Draw(c.T, "indexed") {
			o.Indexed = true
			c.Must(o.G.EnableHNSWIndex(3), "index")
		}
		if rapid.Bool().Draw(c.T, "occupied") {
			o.Prepare(c.T, rapid.IntRange(1, 4).Draw(c.T, "there"), 2)
		}
		before := fmt.Sprint(len(o.Nodes), len(o.Edges))
		if rapid.Bool().Draw(c.T, "damage") && len(data) > 2 {
			cut := rapid.IntRange(0, len(bytes.TrimSpace(data))-1).Draw(c.T, "cut")
			c.Op("import of the first %d of %d bytes", cut, len(data))
			if o.G.Import(e.Ctx, bytes.NewReader(data[:cut]), f) == nil {
				c.Fatalf("the first %d of %d bytes of a %s export were imported without an error", cut, len(data), f)
			}
			check(c, "after a truncated import into "+before, o.G, o, o.Nodes, o.Edges)
		}
		var in io.Reader = bytes.NewReader(data)
		if rapid.Bool().Draw(c.T, "dribble") {
			in = iotest.HalfReader(in)
		}
		c.Op("import")
		c.Must(o.G.Import(e.Ctx, in, f), "import")
		shared := 0
		for id, n := range e.Nodes {
			if o.Nodes[id] != nil {
				shared++
			}
			o.Nodes[id] = n
		}
		for id, g := range e.Edges {
			o.Edges[id] = g
		}
		check(c, "after import of "+string(f), o.G, o, o.Nodes, o.Edges)
		if o.Indexed && len(o.Nodes) <= 25 {
			res, err := o.G.HNSWSearch(e.Ctx, []float32{1, 1, 1}, 50, -2)
			c.Must(err, "search")
			if len(res) != len(o.Nodes) {
				c.Fatalf("after the import the vector index finds %d of %d nodes", len(res), len(o.Nodes))
			}
		}
		check(c, "the exported graph", e.G, e, e.Nodes, e.Edges)
		c.Class(string(f))
		if len(e.Nodes) > 1 && len(e.Edges) > 0 && e.Replaced+e.Removed > 0 {
			c.NonTrivial()
		}
	})
}

// What cannot be written or stored completely is reported.
func TestReported(t *testing.T) {
	h.Check(t, h.Opt{Quick: 150, Thorough: 4000}, func(c *h.C) {
		e := gm.NewEnv(c, 2, nil)
		e.Prepare(c.T, rapid.IntRange(1, 6).Draw(c.T, "nodes"), 4)
		f := rapid.SampledFrom(formats).Draw(c.T, "format")
		var buf bytes.Buffer
		c.Must(e.G.Export(e.Ctx, &buf, f), "export")
		left := rapid.IntRange(0, buf.Len()-1).Draw(c.T, "left")
		c.Op("export %s to a writer that takes %d of %d bytes", f, left, buf.Len())
		if e.G.Export(e.Ctx, &failing{left}, f) == nil {
			c.Fatalf("an export cut off after %d of %d bytes reported no error", left, buf.Len())
		}
		ctx, cancel := context.WithCancel(e.Ctx)
		cancel()
		if e.G.Export(ctx, io.Discard, f) == nil {
			c.Fatalf("a cancelled export reported no error")
		}
		if e.G.Import(ctx, bytes.NewReader(buf.Bytes()), f) == nil && len(e.Nodes) > 0 {
			c.Fatalf("a cancelled import reported no error")
		}
		// an edge to a node that is not there
		if len(e.Edges) == 0 {
			return
		}
		id := e.Edges[e.EdgeIDs()[0]].ToNodeID
		text := buf.String()
		esc := strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "'", "&#39;").Replace(id)
		switch f {
		case graph.FormatJSON:
			esc = strings.NewReplacer("&", "\\u0026", "<", "\\u003c", ">", "\\u003e").Replace(id)
			text = strings.ReplaceAll(text, `"to_node_id": "`+esc+`"`, `"to_node_id": "nowhere"`)
		default:
			text = strings.ReplaceAll(text, `target="`+esc+`"`, `target="nowhere"`)
		}
		if text == buf.String() {
			return
		}
		c.NonTrivial()
		o := gm.NewEnv(c, 2, func(cfg *core.Config) { cfg.Path += "2" })
		c.Op("import with an edge to nowhere")
		if o.G.Import(e.Ctx, strings.NewReader(text), f) == nil {
			c.Fatalf("an import whose edge to %q has no end was reported as complete", "nowhere")
		}
	})
}
