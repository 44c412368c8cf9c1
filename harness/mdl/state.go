package mdl

import (
	"fmt"
	"sort"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
)

// Observe renders everything the store shows: records, documents, collections, keyword
// matches, sessions with their messages, and (when g is not nil) graph nodes and edges.
func (e *Env) Observe(s *core.SQLiteStore, g *graph.GraphStore, sessions, nodes []string) (string, error) {
	var b strings.Builder
	ctx := e.Ctx
	for i := 0; i < e.NIDs; i++ {
		id := h.IDs[i%len(h.IDs)]
		r, err := s.GetByID(ctx, id)
		if err != nil {
			if strings.Contains(err.Error(), core.ErrNotFound.Error()) {
				continue
			}
			return "", err
		}
		fmt.Fprintf(&b, "rec %q %q %q %q %s %s %q\n", r.ID, r.Collection, r.DocID, r.Content, h.VS(r.Vector), h.MS(r.Metadata), r.ACL)
	}
	st, err := s.Stats(ctx)
	if err != nil {
		return "", err
	}
	fmt.Fprintf(&b, "count %d\n", st.Count)
	cols, err := s.ListCollections(ctx)
	if err != nil {
		return "", err
	}
	var names []string
	for _, c := range cols {
		cs, err := s.GetCollectionStats(ctx, c.Name)
		if err != nil {
			return "", err
		}
		names = append(names, fmt.Sprintf("coll %q %d", c.Name, cs.Count))
	}
	sort.Strings(names)
	fmt.Fprintln(&b, strings.Join(names, "\n"))
	for _, d := range DocIDs {
		doc, err := s.GetDocument(ctx, d)
		if err == nil {
			fmt.Fprintf(&b, "doc %q %q %v\n", doc.ID, doc.Title, doc.ACL)
		}
	}
	for _, w := range h.Words {
		res, err := s.HybridSearch(ctx, nil, w, core.HybridSearchOptions{SearchOptions: core.SearchOptions{TopK: 100}})
		if err != nil {
			return "", err
		}
		var ids []string
		for _, r := range res {
			ids = append(ids, r.ID)
		}
		fmt.Fprintf(&b, "word %s %q\n", w, h.Sorted(ids))
	}
	for _, id := range sessions {
		if sess, err := s.GetSession(ctx, id); err == nil {
			fmt.Fprintf(&b, "session %q %q\n", sess.ID, sess.UserID)
		}
		ms, err := s.GetSessionHistory(ctx, id, 1000)
		if err != nil {
			return "", err
		}
		for _, m := range ms {
			fmt.Fprintf(&b, "msg %q %q %s %q\n", m.ID, m.SessionID, m.Role, m.Content)
		}
	}
	if g != nil {
		for _, id := range nodes {
			n, err := g.GetNode(ctx, id)
			if err != nil {
				if !strings.Contains(err.Error(), "not found") {
					return "", err
				}
			} else {
				fmt.Fprintf(&b, "node %q %q %s %s %s\n", n.ID, n.NodeType, n.Content, h.VS(n.Vector), h.MS(n.Properties))
			}
			es, err := g.GetEdges(ctx, id, "out")
			if err != nil {
				return "", err
			}
			var ls []string
			for _, x := range es {
				ls = append(ls, fmt.Sprintf("edge %q %q>%q %s %g", x.ID, x.FromNodeID, x.ToNodeID, x.EdgeType, x.Weight))
			}
			sort.Strings(ls)
			for _, l := range ls {
				fmt.Fprintln(&b, l)
			}
		}
	}
	return b.String(), nil
}
