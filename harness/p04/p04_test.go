package p04

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"github.com/liliang-cn/cortexdb/v2/verifharness/mdl"
	"pgregory.net/rapid"
)

var nodeIDs = []string{"n1", "n2", "n3", "n4"}
var sessions = []string{"s1", "s2"}

func words(t *rapid.T) string {
	return strings.Join(rapid.SliceOfN(rapid.SampledFrom(h.Words), 0, 3).Draw(t, "words"), " ")
}

// actions: everything that mutates, except reopening.
func actions(e *mdl.Env, g *graph.GraphStore) map[string]func(*rapid.T) {
	ctx := e.Ctx
	acts := e.Actions()
	delete(acts, "reopen")
	delete(acts, "upsert4")
	delete(acts, "upsert5")
	nmsg := 0
	node := func(t *rapid.T) *graph.GraphNode {
		return &graph.GraphNode{ID: rapid.SampledFrom(nodeIDs).Draw(t, "node"), Vector: h.NZVec(t, 2, "nv"), Content: words(t), NodeType: "t"}
	}
	edge := func(t *rapid.T) *graph.GraphEdge {
		return &graph.GraphEdge{ID: rapid.SampledFrom([]string{"e1", "e2", "e3", "e4"}).Draw(t, "edge"), FromNodeID: rapid.SampledFrom(nodeIDs).Draw(t, "from"), ToNodeID: rapid.SampledFrom(nodeIDs).Draw(t, "to"), EdgeType: "r", Weight: 2}
	}
	acts["node"] = func(t *rapid.T) {
		n := node(t)
		e.C.Op("node %s", n.ID)
		e.C.Must(g.UpsertNode(ctx, n), "node")
	}
	acts["edge"] = func(t *rapid.T) {
		x := edge(t)
		e.C.Op("edge %s %s>%s: %v", x.ID, x.FromNodeID, x.ToNodeID, g.UpsertEdge(ctx, x) == nil)
	}
	acts["graphBatch"] = func(t *rapid.T) {
		b := &graph.BatchGraphOperation{}
		for i := rapid.IntRange(0, 3).Draw(t, "nn"); i > 0; i-- {
			b.NodeUpserts = append(b.NodeUpserts, node(t))
		}
		for i := rapid.IntRange(0, 3).Draw(t, "ne"); i > 0; i-- {
			b.EdgeUpserts = append(b.EdgeUpserts, edge(t))
		}
		if rapid.Bool().Draw(t, "nd") {
			b.NodeDeletes = []string{rapid.SampledFrom(nodeIDs).Draw(t, "del")}
		}
		if rapid.Bool().Draw(t, "ed") {
			b.EdgeDeletes = []string{"e1", "e2"}
		}
		e.C.Op("graphBatch %d %d %v %v", len(b.NodeUpserts), len(b.EdgeUpserts), b.NodeDeletes, b.EdgeDeletes)
		_, err := g.ExecuteBatch(ctx, b)
		e.C.Must(err, "graphBatch")
	}
	acts["nodes"] = func(t *rapid.T) {
		ns := []*graph.GraphNode{node(t), node(t), node(t)}
		e.C.Op("nodes")
		_, err := g.UpsertNodesBatch(ctx, ns)
		e.C.Must(err, "nodes")
	}
	acts["edges"] = func(t *rapid.T) {
		_, err := g.UpsertEdgesBatch(ctx, []*graph.GraphEdge{edge(t), edge(t), edge(t)})
		e.C.Op("edges")
		e.C.Must(err, "edges")
	}
	acts["deleteNode"] = func(t *rapid.T) {
		id := rapid.SampledFrom(nodeIDs).Draw(t, "node")
		e.C.Op("deleteNode %s: %v", id, g.DeleteNode(ctx, id) == nil)
	}
	acts["deleteNodes"] = func(t *rapid.T) {
		_, err := g.DeleteNodesBatch(ctx, []string{"n1", "n3"})
		e.C.Op("deleteNodes n1 n3")
		e.C.Must(err, "deleteNodes")
	}
	acts["session"] = func(t *rapid.T) {
		id := rapid.SampledFrom(sessions).Draw(t, "s")
		e.C.Op("session %s: %v", id, e.S.CreateSession(ctx, &core.Session{ID: id, UserID: "u"}) == nil)
	}
	acts["message"] = func(t *rapid.T) {
		nmsg++
		m := &core.Message{ID: fmt.Sprintf("m%d", nmsg), SessionID: rapid.SampledFrom(sessions).Draw(t, "s"), Role: "user", Content: words(t)}
		e.C.Op("message %s %s: %v", m.ID, m.SessionID, e.S.AddMessage(ctx, m) == nil)
	}
	acts["multi"] = func(t *rapid.T) {
		id := h.ID(t, e.NIDs, "mv")
		e.C.Op("multivector %s", id)
		_ = e.S.UpsertMultiVector(ctx, &core.MultiVectorEntity{ID: "mv" + id, Vectors: map[string][]float32{"a": h.NZVec(t, e.Dim, "mva"), "b": h.NZVec(t, e.Dim, "mvb"), "c": h.NZVec(t, e.Dim, "mvc")}})
	}
	delete(acts, "multi") // its records live under other ids; see P32
	return acts
}

func copyFile(src, dst string, n int64) {
	f, err := os.Open(src)
	if err != nil {
		if os.IsNotExist(err) {
			return
		}
		h.Infra("%v", err)
	}
	defer f.Close()
	o, err := os.Create(dst)
	if err != nil {
		h.Infra("%v", err)
	}
	defer o.Close()
	var r io.Reader = f
	if n >= 0 {
		r = io.LimitReader(f, n)
	}
	if _, err := io.Copy(o, r); err != nil {
		h.Infra("%v", err)
	}
}

// The files as a crash would leave them, cut at every possible point of the write-ahead
// log: what is recovered is the state between two operations, in order, and the whole log
// gives the last state.
func TestCrashPoints(t *testing.T) {
	h.Check(t, h.Opt{Quick: 60, Thorough: 1500, Steps: 12}, func(c *h.C) {
		hnsw := rapid.Bool().Draw(c.T, "hnsw")
		e := mdl.NewEnv(c, 2, func(cfg *core.Config) { cfg.HNSW.Enabled = hnsw })
		e.WithACL = true
		e.ContFn = words
		g := graph.NewGraphStore(e.S)
		c.Must(g.InitGraphSchema(e.Ctx), "graph schema")
		e.Prepare(c.T)
		e.Fill(c.T, rapid.IntRange(0, 5).Draw(c.T, "n"))
		// everything so far goes into the database file: the log starts here
		var busy, x, y int
		if err := e.S.GetDB().QueryRow("PRAGMA wal_checkpoint(TRUNCATE)").Scan(&busy, &x, &y); err != nil || busy != 0 {
			c.Fatalf("checkpoint: %v busy=%d", err, busy)
		}
		var states []string
		observe := func() {
			s, err := e.Observe(e.S, g, sessions, nodeIDs)
			c.Must(err, "observe")
			if len(states) == 0 || states[len(states)-1] != s {
				states = append(states, s)
			}
		}
		observe()
		acts := actions(e, g)
		acts[""] = func(*rapid.T) { observe() }
		c.T.Repeat(acts)
		observe()
		wal := e.Cfg.Path + "-wal"
		var size int64
		if fi, err := os.Stat(wal); err == nil {
			size = fi.Size()
		}
		const frame = 4096 + 24
		frames := int64(0)
		if size > 32 {
			frames = (size - 32) / frame
		}
		c.Op("%d log frames, %d states", frames, len(states))
		at := 0
		seen := map[int]bool{}
		stride := int64(1)
		if max := int64(16); frames > max && !h.Thorough() {
			stride = frames / max
		}
		cut := []int64{}
		for f := int64(0); f < frames; f += stride {
			cut = append(cut, f)
		}
		cut = append(cut, frames)
		for i, f := range cut {
			n := 32 + f*frame
			if f < frames && i%3 == 1 {
				n += 1000 // a torn frame
			}
			d := c.Dir()
			p := filepath.Join(d, "t.db")
			copyFile(e.Cfg.Path, p, -1)
			copyFile(wal, p+"-wal", n)
			cfg := e.Cfg
			cfg.Path = p
			s, err := core.NewWithConfig(cfg)
			c.Must(err, "open after crash")
			c.Must(s.Init(e.Ctx), "init after crash at frame %d of %d", f, frames)
			g2 := graph.NewGraphStore(s)
			c.Must(g2.InitGraphSchema(e.Ctx), "graph schema after crash")
			got, err := e.Observe(s, g2, sessions, nodeIDs)
			c.Must(err, "observe after crash")
			k := at
			for k < len(states) && states[k] != got {
				k++
			}
			if k == len(states) {
				_ = s.Close()
				c.Fatalf("crash at frame %d of %d (cut %d): recovered a state that no operation ended in (after state %d of %d):\n%s\n--- last states:\n%s", f, frames, n, at, len(states)-1, got, strings.Join(states[at:min(at+3, len(states))], "\n---\n"))
			}
			at = k
			seen[k] = true
			if f == frames {
				if k != len(states)-1 {
					_ = s.Close()
					c.Fatalf("with the whole log, state %d of %d was recovered: acknowledged writes are gone", k, len(states)-1)
				}
				if hnsw {
					// the index has to answer from the recovered data
					for _, r := range e.Recs {
						res, err := s.Search(e.Ctx, r.Vec, core.SearchOptions{TopK: 50})
						c.Must(err, "search after crash")
						if len(res) != len(e.Recs) {
							_ = s.Close()
							c.Fatalf("search after crash returned %d of %d records", len(res), len(e.Recs))
						}
						best, err := s.Search(e.Ctx, r.Vec, core.SearchOptions{TopK: 1})
						c.Must(err, "search after crash")
						if len(best) != 1 || !h.Near(best[0].Score, res[0].Score, 1e-6) {
							_ = s.Close()
							c.Fatalf("the best match after crash is %+v, of all %+v", best, res[0])
						}
					}
				}
			}
			c.Must(s.Close(), "close after crash")
			_ = os.RemoveAll(d)
		}
		if len(seen) >= 3 {
			c.NonTrivial()
		}
	})
}

// --- a process that is killed -------------------------------------------------

type killOp struct {
	N     int
	Kind  string
	IDs   []string
	Value int
}

func TestMain(m *testing.M) {
	if p := os.Getenv("VERIF_CHILD_DB"); p != "" {
		child(p)
		return
	}
	os.Exit(m.Run())
}

func childStore(path string) (*core.SQLiteStore, *graph.GraphStore) {
	cfg := core.DefaultConfig()
	cfg.Path = path
	cfg.VectorDim = 2
	cfg.HNSW.Enabled = true
	cfg.AutoSave.Interval = 2 * time.Millisecond
	s, err := core.NewWithConfig(cfg)
	if err == nil {
		err = s.Init(context.Background())
	}
	if err != nil {
		fmt.Println("open failed:", err)
		os.Exit(4)
	}
	g := graph.NewGraphStore(s)
	if err := g.InitGraphSchema(context.Background()); err != nil {
		fmt.Println("schema failed:", err)
		os.Exit(4)
	}
	return s, g
}

func emb(id string, v int) *core.Embedding {
	return &core.Embedding{ID: id, Vector: []float32{float32(v), 1}, Content: fmt.Sprint(v), Metadata: map[string]string{"v": fmt.Sprint(v)}}
}

func apply(s *core.SQLiteStore, g *graph.GraphStore, o killOp) error {
	ctx := context.Background()
	switch o.Kind {
	case "upsert":
		return s.Upsert(ctx, emb(o.IDs[0], o.Value))
	case "batch":
		var es []*core.Embedding
		for _, id := range o.IDs {
			es = append(es, emb(id, o.Value))
		}
		return s.UpsertBatch(ctx, es)
	case "delete":
		_ = s.DeleteBatch(ctx, o.IDs)
		return nil
	case "nodes":
		var ns []*graph.GraphNode
		for _, id := range o.IDs {
			ns = append(ns, &graph.GraphNode{ID: id, Vector: []float32{float32(o.Value), 1}, Content: fmt.Sprint(o.Value)})
		}
		_, err := g.UpsertNodesBatch(ctx, ns)
		return err
	}
	return nil
}

// child runs the operations given on standard input and says when each begins and has ended.
func child(path string) {
	s, g := childStore(path)
	var ops []killOp
	if err := json.NewDecoder(os.Stdin).Decode(&ops); err != nil {
		os.Exit(4)
	}
	fmt.Println("ready")
	for _, o := range ops {
		fmt.Printf("begin %d\n", o.N)
		if err := apply(s, g, o); err != nil {
			fmt.Println("failed:", err)
			os.Exit(5)
		}
		fmt.Printf("end %d\n", o.N)
	}
	fmt.Println("done")
	os.Exit(0) // without closing
}

// Operations acknowledged before the process is killed are there afterwards, whole; the one
// that was running is there whole or not at all.
func TestKill(t *testing.T) {
	bin := os.Getenv("VERIF_BINARY")
	if bin == "" {
		bin = os.Args[0]
	}
	h.Check(t, h.Opt{Quick: 120, Thorough: 2500}, func(c *h.C) {
		ids := []string{"a", "b", "c", "d", "e", "f"}
		var ops []killOp
		n := rapid.IntRange(5, 60).Draw(c.T, "nops")
		for i := 0; i < n; i++ {
			k := rapid.SampledFrom([]string{"upsert", "batch", "batch", "delete", "nodes"}).Draw(c.T, "kind")
			set := rapid.SliceOfNDistinct(rapid.SampledFrom(ids), 1, 6, rapid.ID[string]).Draw(c.T, "ids")
			ops = append(ops, killOp{N: i, Kind: k, IDs: set, Value: i + 1})
		}
		killAt := rapid.IntRange(0, n).Draw(c.T, "killAt")
		delay := rapid.IntRange(0, 2000).Draw(c.T, "delayUs")
		c.Op("%d ops, kill %dus after op %d ends: %v", n, delay, killAt, ops)
		path := filepath.Join(c.Dir(), "k.db")
		cmd := exec.Command(bin, "-test.run", "^$")
		cmd.Env = append(os.Environ(), "VERIF_CHILD_DB="+path)
		b, _ := json.Marshal(ops)
		cmd.Stdin = strings.NewReader(string(b))
		out, err := cmd.StdoutPipe()
		if err != nil {
			h.Infra("%v", err)
		}
		if err := cmd.Start(); err != nil {
			h.Infra("%v", err)
		}
		begun, ended := -1, -1
		sc := bufio.NewScanner(out)
		killed := false
		for sc.Scan() {
			var k int
			line := sc.Text()
			if strings.HasPrefix(line, "failed") || strings.HasPrefix(line, "open failed") || strings.HasPrefix(line, "schema failed") {
				_ = cmd.Process.Kill()
				_ = cmd.Wait()
				h.CheckInfra(fmt.Errorf("%s", line))
				c.Fatalf("operation in the child: %s", line)
			}
			if _, err := fmt.Sscanf(line, "begin %d", &k); err == nil {
				begun = k
			}
			if _, err := fmt.Sscanf(line, "end %d", &k); err == nil {
				ended = k
				if k >= killAt && !killed {
					killed = true
					time.AfterFunc(time.Duration(delay)*time.Microsecond, func() { _ = cmd.Process.Kill() })
				}
			}
		}
		_ = cmd.Wait()
		// the states after `ended` and after the one in flight
		state := func(upto int) string {
			m, nodes := map[string]int{}, map[string]int{}
			for _, o := range ops[:upto+1] {
				for _, id := range o.IDs {
					switch o.Kind {
					case "delete":
						delete(m, id)
					case "nodes":
						nodes[id] = o.Value
					default:
						m[id] = o.Value
						if o.Kind == "upsert" && id != o.IDs[0] {
							continue
						}
					}
					if o.Kind == "upsert" {
						break
					}
				}
			}
			return h.MS(m) + " nodes " + h.MS(nodes)
		}
		s, g := childStore(path)
		defer s.Close()
		m, nodes := map[string]int{}, map[string]int{}
		for _, id := range ids {
			if r, err := s.GetByID(context.Background(), id); err == nil {
				var v int
				fmt.Sscan(r.Content, &v)
				if float32(v) != r.Vector[0] || r.Metadata["v"] != r.Content {
					c.Fatalf("record %q is torn: %+v", id, r)
				}
				m[id] = v
			}
			if nd, err := g.GetNode(context.Background(), id); err == nil {
				var v int
				fmt.Sscan(nd.Content, &v)
				nodes[id] = v
			}
		}
		got := h.MS(m) + " nodes " + h.MS(nodes)
		ok := false
		var want []string
		for k := ended; k <= begun; k++ {
			want = append(want, state(k))
			ok = ok || state(k) == got
		}
		if !ok {
			c.Fatalf("killed after op %d ended (op %d begun): found %s, want one of %q", ended, begun, got, want)
		}
		res, err := s.Search(context.Background(), []float32{1, 1}, core.SearchOptions{TopK: 20})
		c.Must(err, "search")
		if len(res) != len(m) {
			c.Fatalf("search after the crash returned %d of %d records", len(res), len(m))
		}
		// the index is that of the recovered vectors
		for id, v := range m {
			res, err := s.Search(context.Background(), []float32{float32(v), 1}, core.SearchOptions{TopK: 1})
			c.Must(err, "search")
			if len(res) != 1 || m[res[0].ID] != v || res[0].Content != fmt.Sprint(v) {
				c.Fatalf("the search for the vector of %q (%d) after the crash found %+v", id, v, res)
			}
		}
		if ended < n-1 {
			c.NonTrivial()
		}
		if begun > ended {
			c.Class("killed-inside-an-operation")
		}
	})
}
