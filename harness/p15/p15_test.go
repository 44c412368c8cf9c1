package p15

import (
	"bytes"
	"fmt"
	"math"
	"math/rand/v2"
	"slices"
	"sort"
	"testing"

	"github.com/liliang-cn/cortexdb/v2/pkg/index"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"pgregory.net/rapid"
)

type dist struct {
	name string
	fn   func(a, b []float32) float32
	ref  func(a, b []float32) float64
}

var dists = []dist{
	{"euclidean", index.EuclideanDistance, euclid},
	{"cosine", index.CosineDistance, func(a, b []float32) float64 { return 1 - h.Cosine(a, b) }},
	{"dot", index.DotProductDistance, func(a, b []float32) float64 { return -h.Dot(a, b) }},
}

func euclid(a, b []float32) float64 { return -h.Euclid(a, b) }

// plain replaces the components whose square is lost in float32, so that a vector is zero
// for the index exactly when it is for the reference.
func plain(v []float32) []float32 {
	for i, x := range v {
		if x != 0 && x > -1e-4 && x < 1e-4 {
			v[i] = 0.5
		}
	}
	return v
}

// subject is an index under test as a map from id to vector.
type subject struct {
	name   string
	ref    func(a, b []float32) float64
	insert func(id string, v []float32) error
	batch  func(ids []string, vs [][]float32) error // nil: none
	del    func(id string) bool                     // false: was not there; nil: cannot tell
	search func(q []float32, k int) ([]string, []float32)
	rng    func(q []float32, r float32) ([]string, []float32)
	more   func(q []float32, k int) ([]string, []float32) // another search, at least as good
	size   func() int
	clear  func()
	reload func() error // through its saved form
	train  func() error // retrain while holding data
	// exact: the result is the exact one; self: a stored vector is found by itself
	exact, self bool
	replaces    bool // inserting an id again replaces its vector, else it is refused
	noDup       bool // inserting an id that is there is not done at all
	blindDel    bool // deleting reports nothing useful
	checksDim   bool
	skipsDup    bool
	maxN        int
	unsure      func(q []float32) bool // whether q itself need not be found
}

func makers() []func(c *h.C, dim int) *subject {
	return []func(c *h.C, dim int) *subject{
		func(c *h.C, dim int) *subject {
			d := dists[rapid.IntRange(0, 2).Draw(c.T, "dist")]
			f := index.NewFlatIndex(dim, d.fn)
			s := flat("flat/"+d.name, f)
			s.ref = d.ref
			return s
		},
		func(c *h.C, dim int) *subject {
			s := flat("flat/normalized", index.NewFlatIndexCosine(dim))
			s.ref = dists[1].ref
			return s
		},
		func(c *h.C, dim int) *subject {
			n := rapid.IntRange(1, 5).Draw(c.T, "centroids")
			x := index.NewIVFIndex(dim, n)
			probe := rapid.IntRange(1, n).Draw(c.T, "probe")
			var tv [][]float32
			for i := 0; i < n+3; i++ {
				tv = append(tv, plain(h.Vec(c.T, dim, "train")))
			}
			c.Must(x.Train(tv), "train")
			x.SetNProbe(probe)
			s := &subject{name: fmt.Sprintf("ivf %d/%d", probe, n), ref: euclid, exact: probe == n, self: true, replaces: true, checksDim: true}
			s.insert = x.Add
			s.del = func(id string) bool { return x.Delete(id) == nil }
			s.search = func(q []float32, k int) ([]string, []float32) {
				a, b, err := x.Search(q, k)
				c.Must(err, "search")
				return a, b
			}
			s.size, s.clear = func() int { return x.Size() }, x.Clear
			s.reload = func() error {
				var b bytes.Buffer
				if err := x.Save(&b); err != nil {
					return err
				}
				if rapid.Bool().Draw(c.T, "over other contents") {
					// what is loaded replaces what was there
					c.Op("other contents")
					ids, vs := append([]string{}, x.IDs...), append([][]float32{}, x.Vectors...)
					x.Clear()
					for i, id := range ids {
						c.Must(x.Add("other "+id, vs[i]), "add")
					}
				} else {
					x = index.NewIVFIndex(1, 1)
				}
				err := x.Load(&b)
				s.insert = x.Add
				s.clear = x.Clear
				return err
			}
			s.train = func() error { return x.Train(tv) }
			s.unsure = func(q []float32) bool { // as near to one centroid as to another
				var ds []float64
				for _, ce := range x.Centroids {
					ds = append(ds, euclid(q, ce))
				}
				sort.Float64s(ds)
				return probe < n && len(ds) > 1 && ds[1]-ds[0] < 1e-4*(1+ds[0])
			}
			return s
		},
		func(c *h.C, dim int) *subject {
			x := index.NewLSHIndex(index.LSHConfig{NumTables: rapid.IntRange(1, 4).Draw(c.T, "tables"), NumHashFuncs: rapid.IntRange(1, 6).Draw(c.T, "funcs"), Dimension: dim, Seed: int64(rapid.IntRange(0, 9).Draw(c.T, "seed"))})
			s := &subject{name: "lsh", ref: euclid, self: true, replaces: true, checksDim: true, insert: x.Insert, del: x.Delete, size: x.Size, clear: x.Clear}
			d := dists[rapid.IntRange(0, 1).Draw(c.T, "dist")]
			x.SetDistanceFunc(d.fn)
			s.ref = d.ref
			s.search = func(q []float32, k int) ([]string, []float32) {
				r, err := x.Search(q, k)
				c.Must(err, "search")
				return lsh(r)
			}
			s.more = func(q []float32, k int) ([]string, []float32) {
				r, err := x.SearchWithMultiProbe(q, k, rapid.IntRange(0, 5).Draw(c.T, "probes"))
				c.Must(err, "multi-probe search")
				return lsh(r)
			}
			return s
		},
		func(c *h.C, dim int) *subject {
			d := dists[rapid.IntRange(0, 1).Draw(c.T, "dist")]
			x := index.NewHNSW(24, 64, d.fn)
			s := &subject{name: "hnsw/" + d.name, ref: d.ref, exact: true, self: true, blindDel: true, skipsDup: true, maxN: 38}
			s.insert = func(id string, v []float32) error { return x.Insert(id, v) }
			s.batch = func(ids []string, vs [][]float32) error {
				var b []struct {
					ID     string
					Vector []float32
				}
				for i := range ids {
					b = append(b, struct {
						ID     string
						Vector []float32
					}{ids[i], vs[i]})
				}
				if rapid.Bool().Draw(c.T, "par") {
					return x.InsertBatchParallel(b, 2)
				}
				return x.InsertBatch(b)
			}
			s.del = func(id string) bool { return x.Delete(id) == nil }
			s.search = func(q []float32, k int) ([]string, []float32) { return x.Search(q, k, 50) }
			s.more = func(q []float32, k int) ([]string, []float32) { return x.SearchVectorIndex(q, k) }
			s.size = func() int { return x.Size() }
			s.reload = func() error {
				var b bytes.Buffer
				if err := x.Save(&b); err != nil {
					return err
				}
				x = index.NewHNSW(3, 3, d.fn)
				return x.Load(&b)
			}
			return s
		},
		func(c *h.C, dim int) *subject {
			n := rapid.IntRange(1, 4).Draw(c.T, "centroids")
			x := index.NewHybridIndex(dim, 16, n)
			var tv [][]float32
			for i := 0; i < n+3; i++ {
				tv = append(tv, plain(h.Vec(c.T, dim, "train")))
			}
			if rapid.IntRange(0, 3).Draw(c.T, "early") == 0 { // neither part takes what the other cannot take yet
				v := plain(h.Vec(c.T, dim, "early vector"))
				if err := x.Insert("k0", v); err == nil {
					c.Fatalf("an untrained hybrid index takes a vector")
				}
				if n := x.Size(); n != 0 {
					c.Fatalf("a refused vector is counted: %d", n)
				}
			}
			c.Must(x.Train(tv), "train")
			return &subject{name: "hybrid", ref: euclid, exact: true, self: true, blindDel: true, checksDim: true, maxN: 30,
				insert: x.Insert, del: func(id string) bool { return x.Delete(id) == nil }, search: x.Search, size: x.Size, train: func() error { return x.Train(tv) }}
		},
		func(c *h.C, dim int) *subject {
			st := rapid.SampledFrom([]index.CombineStrategy{index.StrategyPrimaryOnly, index.StrategyMergeAll, index.StrategyRerank, index.StrategyVoting}).Draw(c.T, "strategy")
			cfg := index.MultiIndexConfig{PrimaryIndex: index.IndexTypeHNSW, SecondaryIndices: []index.IndexType{index.IndexTypeFlat}, CombineStrategy: st, Parallel: rapid.Bool().Draw(c.T, "parallel")}
			if rapid.Bool().Draw(c.T, "flatfirst") {
				cfg.PrimaryIndex, cfg.SecondaryIndices = index.IndexTypeFlat, []index.IndexType{index.IndexTypeHNSW}
			}
			if rapid.Bool().Draw(c.T, "none") {
				cfg.SecondaryIndices = nil
			}
			x := index.NewMultiIndex(cfg)
			x.AddIndex(index.IndexTypeHNSW, index.NewHNSWAdapter(dim, 16, index.EuclideanDistance))
			x.AddIndex(index.IndexTypeFlat, flatAdapter{index.NewFlatIndex(dim, nil)})
			if rapid.IntRange(0, 3).Draw(c.T, "misfit") == 0 {
				y := index.NewMultiIndex(cfg)
				y.AddIndex(index.IndexTypeHNSW, index.NewHNSWAdapter(dim, 16, index.EuclideanDistance))
				y.AddIndex(index.IndexTypeFlat, flatAdapter{index.NewFlatIndex(dim, nil)})
				if y.Insert("k0", make([]float32, dim+1)) == nil {
					c.Fatalf("a vector that one of the indexes refuses is reported as inserted")
				}
			}
			s := &subject{name: "multi/" + string(st), ref: euclid, exact: true, self: true, noDup: true, maxN: 30, insert: x.Insert, del: func(id string) bool { return x.Delete(id) == nil }, search: x.Search, size: x.Size}
			s.blindDel = true
			if st == index.StrategyVoting {
				// the score carries a bonus for each vote
				s.search = func(q []float32, k int) ([]string, []float32) {
					ids, ds := x.Search(q, k)
					for i := range ds {
						ds[i] += 0.2
					}
					return ids, ds
				}
			}
			return s
		},
	}
}

type flatAdapter struct{ *index.FlatIndex }

func (f flatAdapter) Delete(id string) error { f.FlatIndex.Delete(id); return nil }

func lsh(r []index.LSHSearchResult) (ids []string, ds []float32) {
	for _, x := range r {
		ids, ds = append(ids, x.ID), append(ds, x.Distance)
	}
	return
}

func flat(name string, f *index.FlatIndex) *subject {
	return &subject{name: name, exact: true, self: true, replaces: true, checksDim: true, insert: f.Insert, batch: f.BatchInsert, del: f.Delete, search: f.Search, rng: f.RangeSearch, size: f.Size, clear: f.Clear}
}

// Whatever was inserted, replaced and removed, an index holds the last vector of each id.
func TestHistory(t *testing.T) {
	ms := makers()
	h.Check(t, h.Opt{Quick: 4000, Thorough: 100000, Steps: 25}, func(c *h.C) {
		dim := rapid.IntRange(1, 4).Draw(c.T, "dim")
		s := ms[rapid.IntRange(0, len(ms)-1).Draw(c.T, "kind")](c, dim)
		c.Op("%s dim=%d", s.name, dim)
		c.Class(s.name)
		want := map[string][]float32{}
		replaced, removed, searched := 0, 0, 0
		id := func(t *rapid.T) string { return fmt.Sprintf("k%d", rapid.IntRange(0, 14).Draw(t, "id")) }
		full := func() bool { return s.maxN > 0 && len(want) >= s.maxN-12 }
		acts := map[string]func(*rapid.T){
			"insert": func(t *rapid.T) {
				i, v := id(t), plain(h.Vec(t, dim, "v"))
				_, had := want[i]
				if had && s.noDup {
					return
				}
				in := append([]float32{}, v...)
				c.Op("insert %q %s", i, h.VS(v))
				err := s.insert(i, in)
				if had && !s.replaces {
					if err == nil {
						c.Fatalf("%s: %q was inserted twice without an error", s.name, i)
					}
					return
				}
				c.Must(err, "insert")
				for j := range in {
					in[j] = 99 // the caller's slice is the caller's
				}
				if had {
					replaced++
				}
				want[i] = v
			},
			"batch": func(t *rapid.T) {
				if s.batch == nil {
					return
				}
				var ids []string
				var vs, ins [][]float32
				n := rapid.IntRange(0, 5).Draw(t, "n")
				if rapid.IntRange(0, 3).Draw(t, "many") == 0 && !full() {
					n = 22
					if s.maxN > 0 {
						n = s.maxN - 16 // with the other ids, the most the index links completely
					}
				}
				bad := s.checksDim && rapid.IntRange(0, 4).Draw(t, "bad") == 0
				seen, skip := map[string]bool{}, map[int]bool{}
				for j := 0; j < n; j++ {
					i := id(t)
					if n > 5 {
						i = fmt.Sprintf("b%d", j)
					}
					_, had := want[i]
					v := plain(h.Vec(t, dim, "v"))
					if (had || seen[i]) && !s.replaces {
						if s.skipsDup && rapid.Bool().Draw(t, "again") {
							// an id that is there already is passed over
							skip[len(ids)] = true
							ids, vs, ins = append(ids, i), append(vs, v), append(ins, append([]float32{}, v...))
						}
						continue
					}
					seen[i] = true
					ids, vs, ins = append(ids, i), append(vs, v), append(ins, append([]float32{}, v...))
				}
				if bad && len(ids) > 0 {
					ins[len(ins)-1] = append(ins[len(ins)-1], 1)
				}
				c.Op("batch %q %v bad=%v", ids, vs, bad)
				err := s.batch(ids, ins)
				if bad && len(ids) > 0 {
					if err == nil {
						c.Fatalf("%s: batch with a vector of the wrong length reported no error", s.name)
					}
					return
				}
				c.Must(err, "batch")
				for j, i := range ids {
					if skip[j] {
						continue
					}
					if _, ok := want[i]; ok {
						replaced++
					}
					want[i] = vs[j]
					for k := range ins[j] {
						ins[j][k] = 99
					}
				}
			},
			"wrongdim": func(t *rapid.T) {
				if !s.checksDim {
					return
				}
				i := id(t)
				if _, had := want[i]; had && !s.replaces {
					return
				}
				c.Op("insert %q of the wrong length", i)
				if s.insert(i, make([]float32, dim+1)) == nil {
					c.Fatalf("%s: a vector of the wrong length was accepted", s.name)
				}
			},
			"delete": func(t *rapid.T) {
				i := id(t)
				if len(want) > 0 && rapid.IntRange(0, 3).Draw(t, "known") > 0 {
					i = rapid.SampledFrom(keys(want)).Draw(t, "kid")
				}
				_, had := want[i]
				c.Op("delete %q", i)
				if got := s.del(i); (got != had && !s.blindDel) || had && !got {
					c.Fatalf("%s: delete of %q says %v, stored=%v", s.name, i, got, had)
				}
				if had {
					removed++
				}
				delete(want, i)
			},
			"clear": func(t *rapid.T) {
				if s.clear == nil || rapid.IntRange(0, 3).Draw(t, "really") > 0 {
					return
				}
				c.Op("clear")
				s.clear()
				removed += len(want)
				want = map[string][]float32{}
			},
			"reload": func(t *rapid.T) {
				if s.reload == nil {
					return
				}
				c.Op("reload")
				c.Must(s.reload(), "reload")
				c.Class("reload")
			},
			"train": func(t *rapid.T) {
				if s.train == nil {
					return
				}
				c.Op("train again")
				c.Must(s.train(), "train")
			},
			"": func(t *rapid.T) {
				if n := s.size(); n != len(want) {
					c.Fatalf("%s: size is %d, want %d", s.name, n, len(want))
				}
				q, k := plain(h.NZVec(t, dim, "q")), rapid.SampledFrom([]int{-1, 0, 1, 2, 5, 50}).Draw(t, "k")
				self := ""
				if len(want) > 0 && rapid.Bool().Draw(t, "self") {
					self = rapid.SampledFrom(keys(want)).Draw(t, "selfid")
					q = append([]float32{}, want[self]...)
				}
				c.Op("search %s k=%d", h.VS(q), k)
				all := map[string]float64{}
				for i, v := range want {
					all[i] = -s.ref(q, v)
				}
				searches := []func([]float32, int) ([]string, []float32){s.search}
				if s.more != nil {
					searches = append(searches, s.more)
				}
				found := [][]float64{}
				for n, f := range searches {
					ids, ds := f(q, k)
					if len(ids) > max(k, 0) || len(ids) != len(ds) {
						c.Fatalf("%s: %d ids and %d distances for k=%d", s.name, len(ids), len(ds), k)
					}
					if len(ids) > 0 {
						searched++
					}
					var sc []float64
					for _, d := range ds {
						sc = append(sc, -float64(d))
					}
					if m := sound(ids, sc, all); m != "" {
						c.Fatalf("%s search %d for %s: %s", s.name, n, h.VS(q), m)
					}
					if s.exact && k > 0 {
						if m := h.CheckTopK(ids, sc, all, k, 1e-4); m != "" {
							c.Fatalf("%s search %d for %s: %s", s.name, n, h.VS(q), m)
						}
					}
					if self != "" && s.self && k > 0 && (s.unsure == nil || !s.unsure(q)) {
						ok := len(ids) > 0 && sc[0] >= all[self]-1e-4*(1+math.Abs(all[self]))
						if !ok {
							c.Fatalf("%s: search for the vector of %q finds %q at %v", s.name, self, ids, ds)
						}
					}
					found = append(found, sc)
				}
				if len(found) == 2 {
					if len(found[1]) < len(found[0]) {
						c.Fatalf("%s: the wider search finds %d, the narrower %d", s.name, len(found[1]), len(found[0]))
					}
					for i := range found[0] {
						if found[1][i] < found[0][i]-1e-4*(1+math.Abs(found[0][i])) {
							c.Fatalf("%s: the wider search finds %v, the narrower %v", s.name, found[1], found[0])
						}
					}
				}
				if s.rng != nil {
					r := rapid.SampledFrom([]float32{-1.5, 0.01, 0.51, 1.73, 8.1}).Draw(t, "r")
					in := map[string]float64{}
					for i, v := range all {
						if math.Abs(-v-float64(r)) < 1e-4 {
							return
						}
						if -v <= float64(r) {
							in[i] = v
						}
					}
					// the radius itself is within
					if near, nd := s.search(q, 3); len(near) > 0 {
						edge := nd[len(nd)-1]
						ids, _ := s.rng(q, edge)
						for _, x := range near {
							if !slices.Contains(ids, x) {
								c.Fatalf("%s: %q is among the nearest to %s, at most %v away, but not in that range: %q", s.name, x, h.VS(q), edge, ids)
							}
						}
					}
					ids, ds := s.rng(q, r)
					var sc []float64
					for _, d := range ds {
						sc = append(sc, -float64(d))
					}
					if m := h.CheckTopK(ids, sc, in, 0, 1e-4); m != "" {
						c.Fatalf("%s range %g of %s: %s", s.name, r, h.VS(q), m)
					}
				}
			},
		}
		c.T.Repeat(acts)
		if searched > 0 && removed > 0 && (replaced > 0 || !s.replaces) {
			c.NonTrivial()
		}
	})
}

func keys(m map[string][]float32) []string {
	var k []string
	for i := range m {
		k = append(k, i)
	}
	sort.Strings(k)
	return k
}

// sound: each id stored, once, at its true distance, nearest first.
func sound(ids []string, sc []float64, all map[string]float64) string {
	seen := map[string]bool{}
	for i, id := range ids {
		w, ok := all[id]
		if !ok || seen[id] {
			return fmt.Sprintf("%q is not stored or repeated in %q", id, ids)
		}
		seen[id] = true
		if !h.Near(w, sc[i], 1e-4) {
			return fmt.Sprintf("%q has distance %v, reported %v", id, -w, -sc[i])
		}
		if i > 0 && sc[i] > sc[i-1] {
			return fmt.Sprintf("distances are not in order: %v", sc)
		}
	}
	return ""
}

// On larger sets the graph index stays sound and finds most neighbours, however it was
// built, and after many deletions.
func TestLarge(t *testing.T) {
	h.Check(t, h.Opt{Quick: 60, Thorough: 200}, func(c *h.C) {
		rnd := rand.New(rand.NewPCG(rapid.Uint64().Draw(c.T, "seed"), 1))
		n, dim := rapid.IntRange(100, 600).Draw(c.T, "n"), rapid.IntRange(2, 12).Draw(c.T, "dim")
		how := rapid.SampledFrom([]string{"single", "batch", "parallel"}).Draw(c.T, "how")
		d := dists[rapid.IntRange(0, 1).Draw(c.T, "dist")]
		c.Op("%d vectors of %d by %s, %s", n, dim, how, d.name)
		x := index.NewHNSW(16, 100, d.fn)
		want := map[string][]float32{}
		var b []struct {
			ID     string
			Vector []float32
		}
		vec := func() []float32 {
			v := make([]float32, dim)
			for j := range v {
				v[j] = float32(rnd.NormFloat64())
			}
			return v
		}
		for i := 0; i < n; i++ {
			id := fmt.Sprintf("v%d", i)
			want[id] = vec()
			b = append(b, struct {
				ID     string
				Vector []float32
			}{id, append([]float32{}, want[id]...)})
		}
		switch how {
		case "single":
			for _, e := range b {
				c.Must(x.Insert(e.ID, e.Vector), "insert")
			}
		case "batch":
			c.Must(x.InsertBatch(b), "batch")
		default:
			c.Must(x.InsertBatchParallel(b, rapid.IntRange(2, 5).Draw(c.T, "workers")), "parallel")
		}
		dels := rapid.IntRange(0, n/2).Draw(c.T, "dels")
		for i := 0; i < dels; i++ {
			id := fmt.Sprintf("v%d", rnd.IntN(n))
			if _, ok := want[id]; !ok {
				continue
			}
			c.Must(x.Delete(id), "delete")
			delete(want, id)
			if rnd.IntN(3) == 0 {
				want[id] = vec()
				c.Must(x.Insert(id, want[id]), "insert again")
			}
		}
		var spots [][]float32
		if rapid.IntRange(0, 2).Draw(c.T, "hole") == 0 {
			// a whole neighbourhood goes
			q := vec()
			var near []string
			for id := range want {
				near = append(near, id)
			}
			sort.Slice(near, func(i, j int) bool { return d.ref(q, want[near[i]]) < d.ref(q, want[near[j]]) })
			m := rapid.IntRange(0, len(near)).Draw(c.T, "holeSize")
			c.Op("delete the %d nearest to %v", m, q)
			for _, id := range near[:m] {
				c.Must(x.Delete(id), "delete")
				delete(want, id)
			}
			spots = append(spots, q)
			c.Class("neighbourhood deleted")
		}
		if rapid.Bool().Draw(c.T, "reload") {
			var buf bytes.Buffer
			c.Must(x.Save(&buf), "save")
			x = index.NewHNSW(4, 4, d.fn)
			c.Must(x.Load(&buf), "load")
		}
		if x.Size() != len(want) {
			c.Fatalf("size is %d, want %d", x.Size(), len(want))
		}
		hit, total, miss := 0, 0, 0
		for i := 0; i < 20 && len(want) > 0; i++ {
			q := vec()
			if i < len(spots) {
				q = spots[i]
			}
			all := map[string]float64{}
			var sorted []float64
			for id, v := range want {
				all[id] = -d.ref(q, v)
				sorted = append(sorted, all[id])
			}
			sort.Sort(sort.Reverse(sort.Float64Slice(sorted)))
			k := 10
			ids, ds := x.Search(q, k, 100)
			var sc []float64
			for _, v := range ds {
				sc = append(sc, -float64(v))
			}
			if m := sound(ids, sc, all); m != "" {
				c.Fatalf("search: %s", m)
			}
			if len(ids) != min(k, len(want)) {
				c.Fatalf("search for %d of %d finds %d", k, len(want), len(ids))
			}
			for _, s := range sc {
				if s >= sorted[min(k, len(sorted))-1]-1e-5 {
					hit++
				}
			}
			total += len(ids)
		}
		for id, v := range want {
			ids, ds := x.Search(v, 1, 100)
			if len(ids) != 1 || d.ref(v, want[ids[0]]) > d.ref(v, want[id])+1e-4 {
				miss++
			}
			_ = ds
		}
		c.Class(how)
		if float64(hit) < 0.8*float64(total) {
			c.Fatalf("only %d of %d true neighbours found", hit, total)
		}
		if float64(miss) > 0.05*float64(len(want)) {
			c.Fatalf("%d of %d stored vectors are not found by themselves", miss, len(want))
		}
		c.NonTrivial()
	})
}
