package mdl

import (
	"fmt"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"pgregory.net/rapid"
)

// Q draws a query vector: often one that is stored, or close to it.
func (e *Env) Q(t *rapid.T) []float32 {
	if ids := e.IDs(); len(ids) > 0 && rapid.Bool().Draw(t, "qstored") {
		return append([]float32{}, e.Recs[rapid.SampledFrom(ids).Draw(t, "qid")].Vec...)
	}
	return h.NZVec(t, e.Dim, "q")
}

// Opts draws the collection, filter and limit of a search.
func (e *Env) Opts(t *rapid.T) core.SearchOptions {
	o := core.SearchOptions{TopK: rapid.SampledFrom([]int{1, 2, 3, 5, 10, 40, 250}).Draw(t, "k")}
	if rapid.IntRange(0, 2).Draw(t, "qc") == 0 {
		o.Collection = rapid.SampledFrom(append([]string{"default", "nosuch"}, CollNames...)).Draw(t, "qcoll")
	}
	for n := rapid.IntRange(-1, 2).Draw(t, "nf"); n > 0; n-- {
		if o.Filter == nil {
			o.Filter = map[string]string{}
		}
		if rapid.IntRange(0, 3).Draw(t, "bydoc") == 0 {
			o.Filter["doc_id"] = rapid.SampledFrom(DocIDs).Draw(t, "fdoc")
		} else {
			o.Filter[rapid.SampledFrom(MetaKeys).Draw(t, "fk")] = rapid.SampledFrom(MetaVals[:len(MetaVals)-1]).Draw(t, "fv")
		}
	}
	return o
}

// Match tells whether a record is in the collection and passes the filter of o.
func Match(r *Rec, o core.SearchOptions) bool {
	if o.Collection != "" && r.Coll != o.Collection {
		return false
	}
	for k, v := range o.Filter {
		if k == "doc_id" {
			if r.Doc != v {
				return false
			}
		} else if w, ok := r.Meta[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// OS formats search options.
func OS(o core.SearchOptions) string {
	return fmt.Sprintf("k=%d coll=%q filter=%s threshold=%g", o.TopK, o.Collection, h.MS(o.Filter), o.Threshold)
}
