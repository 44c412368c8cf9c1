package p16

import (
	"bytes"
	"math"
	"math/bits"
	"math/rand"
	"reflect"
	"testing"

	q "github.com/liliang-cn/cortexdb/v2/pkg/quantization"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"pgregory.net/rapid"
)

// component draws a vector component, sometimes large, tiny or constant.
func component(t *rapid.T) float32 {
	return rapid.OneOf(
		rapid.Float32Range(-2, 2),
		rapid.SampledFrom([]float32{0, 1, -1, 0.5, 1000, 1e6, -1e6, 1e9, 3e38, -3e38, 1e-7, 1e-30}),
	).Draw(t, "x")
}

func vectors(t *rapid.T, dim, min, max int, label string) [][]float32 {
	constant := make([]bool, dim)
	first := make([]float32, dim)
	for i := range constant {
		constant[i] = rapid.IntRange(0, 4).Draw(t, "constant") == 0
		first[i] = component(t)
	}
	n := rapid.IntRange(min, max).Draw(t, label)
	out := make([][]float32, n)
	for i := range out {
		out[i] = make([]float32, dim)
		for j := range out[i] {
			out[i][j] = first[j]
			if !constant[j] {
				out[i][j] = component(t)
			}
		}
	}
	return out
}

func TestScalar(t *testing.T) {
	h.Check(t, h.Opt{Quick: 30000, Thorough: 2000000}, func(c *h.C) {
		dim, nbits := rapid.IntRange(1, 11).Draw(c.T, "dimension"), rapid.IntRange(1, 8).Draw(c.T, "bits")
		sq, err := q.NewScalarQuantizer(dim, nbits)
		c.Must(err, "NewScalarQuantizer")
		if _, err := sq.Encode(make([]float32, dim)); err == nil {
			c.Fatalf("an untrained quantizer encodes")
		}
		if _, err := sq.Decode(make([]byte, dim)); err == nil {
			c.Fatalf("an untrained quantizer decodes")
		}
		train := vectors(c.T, dim, 1, 6, "training vectors")
		if rapid.IntRange(0, 3).Draw(c.T, "trained before") == 0 {
			old := vectors(c.T, dim, 1, 3, "earlier training vectors")
			c.Op("%d bits first train %v", nbits, old)
			c.Must(sq.Train(old), "Train")
		}
		c.Op("%d bits train %v", nbits, train)
		c.Must(sq.Train(train), "Train")
		lo, hi := make([]float64, dim), make([]float64, dim)
		for d := range lo {
			lo[d], hi[d] = math.Inf(1), math.Inf(-1)
			for _, v := range train {
				lo[d], hi[d] = math.Min(lo[d], float64(v[d])), math.Max(hi[d], float64(v[d]))
			}
		}
		levels := float64(int(1)<<nbits - 1)
		check := func(sq *q.ScalarQuantizer, v []float32) []byte {
			code, err := sq.Encode(v)
			c.Must(err, "Encode")
			if len(code) != (dim*nbits+7)/8 {
				c.Fatalf("%d bytes for %d components of %d bits", len(code), dim, nbits)
			}
			back, err := sq.Decode(code)
			c.Must(err, "Decode")
			for d := range v {
				in := math.Max(lo[d], math.Min(hi[d], float64(v[d])))
				step := (hi[d]-lo[d])/levels + 2e-6
				tol := 1e-5 * math.Max(math.Abs(lo[d]), math.Abs(hi[d]))
				if e := math.Abs(float64(back[d]) - in); !(e <= step+tol) {
					c.Fatalf("component %d: %v becomes %v, range [%v %v], step %v", d, v[d], back[d], lo[d], hi[d], step)
				}
			}
			return code
		}
		test := append(append([][]float32{}, train...), vectors(c.T, dim, 1, 3, "other vectors")...)
		var codes [][]byte
		for _, v := range test {
			c.Op("encode %v", v)
			codes = append(codes, check(sq, v))
		}
		// order is kept in each dimension
		for i := range test {
			for j := range test {
				a, _ := sq.Decode(codes[i])
				b, _ := sq.Decode(codes[j])
				for d := 0; d < dim; d++ {
					if test[i][d] < test[j][d] && a[d] > b[d] {
						c.Fatalf("component %d: %v < %v become %v > %v", d, test[i][d], test[j][d], a[d], b[d])
					}
				}
			}
		}
		if dim > 1 && len(train) > 1 {
			c.NonTrivial()
		}
		if _, err := sq.Decode(codes[0][:len(codes[0])-1]); err == nil {
			c.Fatalf("a shortened code is decoded")
		}
		if _, err := sq.Encode(make([]float32, dim+1)); err == nil {
			c.Fatalf("a longer vector is encoded")
		}
		// a refused training changes nothing
		bad := vectors(c.T, dim, 0, 3, "vectors of a refused training")
		if len(bad) > 0 {
			i := rapid.IntRange(0, len(bad)-1).Draw(c.T, "bad one")
			bad[i] = make([]float32, dim+rapid.SampledFrom([]int{-1, 1}).Draw(c.T, "change"))
		}
		c.Op("refused training %v", bad)
		if sq.Train(bad) == nil {
			c.Fatalf("accepted")
		}
		// a saved quantizer comes back, whatever the receiver was before
		var buf bytes.Buffer
		c.Must(sq.Save(&buf), "Save")
		other, _ := q.NewScalarQuantizer(dim+1, 3)
		if rapid.Bool().Draw(c.T, "receiver trained") {
			c.Must(other.Train([][]float32{make([]float32, dim+1)}), "Train")
		}
		raw := buf.Bytes()
		c.Must(other.Load(bytes.NewReader(raw)), "Load")
		for _, s := range []*q.ScalarQuantizer{sq, other} {
			for i, v := range test {
				if got := check(s, v); !bytes.Equal(got, codes[i]) {
					c.Fatalf("%v is encoded as %v, was %v", v, got, codes[i])
				}
			}
		}
		// damaged data is refused or gives a quantizer that works
		hurt := append([]byte{}, raw...)
		if rapid.Bool().Draw(c.T, "cut") {
			hurt = hurt[:rapid.IntRange(0, len(hurt)-1).Draw(c.T, "length")]
		} else {
			hurt[rapid.IntRange(0, len(hurt)-1).Draw(c.T, "byte")] ^= byte(rapid.IntRange(1, 255).Draw(c.T, "damage"))
		}
		c.Op("load %x", hurt)
		if err := other.Load(bytes.NewReader(hurt)); err == nil {
			if other.Trained {
				_, err := other.Encode(make([]float32, other.Dimension))
				c.Must(err, "Encode")
			}
		} else {
			for i, v := range test {
				if got := check(other, v); !bytes.Equal(got, codes[i]) {
					c.Fatalf("after a refused Load %v is encoded as %v, was %v", v, got, codes[i])
				}
			}
		}
		empty, _ := q.NewScalarQuantizer(dim, nbits)
		buf.Reset()
		c.Must(empty.Save(&buf), "Save")
		c.Must(sq.Load(&buf), "Load")
		if _, err := sq.Encode(test[0]); err == nil {
			c.Fatalf("after loading an untrained quantizer it still encodes")
		}
	})
}

func TestBinary(t *testing.T) {
	h.Check(t, h.Opt{Quick: 30000, Thorough: 2000000}, func(c *h.C) {
		dim := rapid.IntRange(1, 19).Draw(c.T, "dimension")
		bq := q.NewBinaryQuantizer(dim)
		if _, err := bq.Encode(make([]float32, dim)); err == nil {
			c.Fatalf("an untrained quantizer encodes")
		}
		vec := rapid.SliceOfN(rapid.Float32Range(-100, 100), dim, dim)
		train := rapid.SliceOfN(vec, 1, 5).Draw(c.T, "training vectors")
		if rapid.IntRange(0, 3).Draw(c.T, "trained before") == 0 {
			old := rapid.SliceOfN(vec, 1, 3).Draw(c.T, "earlier training vectors")
			c.Op("first train %v", old)
			c.Must(bq.Train(old), "Train")
		}
		c.Op("train %v", train)
		c.Must(bq.Train(train), "Train")
		mean := make([]float64, dim)
		for d := range mean {
			for _, v := range train {
				mean[d] += float64(v[d]) / float64(len(train))
			}
		}
		encode := func(b *q.BinaryQuantizer, v []float32) []byte {
			code, err := b.Encode(v)
			c.Must(err, "Encode")
			if len(code) != (dim+7)/8 {
				c.Fatalf("%d bytes for %d components", len(code), dim)
			}
			for d := range v {
				bit := code[d/8]>>(d%8)&1 == 1
				if m := float64(v[d]) - mean[d]; math.Abs(m) > 1e-3 && bit != (m > 0) {
					c.Fatalf("component %d: %v with mean %v gives %v", d, v[d], mean[d], bit)
				}
			}
			back, err := b.Decode(code)
			c.Must(err, "Decode")
			again, err := b.Encode(back)
			c.Must(err, "Encode")
			if !bytes.Equal(code, again) {
				c.Fatalf("%v decoded and encoded again is %v", code, again)
			}
			return code
		}
		data := rapid.SliceOfN(vec, 0, 8).Draw(c.T, "vectors")
		query := vec.Draw(c.T, "query")
		k := rapid.IntRange(-1, 9).Draw(c.T, "k")
		c.Op("search %v in %v for %d", query, data, k)
		var codes [][]byte
		for _, v := range data {
			codes = append(codes, encode(bq, v))
		}
		qc := encode(bq, query)
		dist := func(i int) int {
			n := 0
			for j := range qc {
				n += bits.OnesCount8(qc[j] ^ codes[i][j])
			}
			return n
		}
		ids, dists := bq.SearchBinary(qc, codes, k)
		if want := max(0, min(k, len(data))); len(ids) != want || len(dists) != want {
			c.Fatalf("%d results, want %d", len(ids), want)
		}
		in := map[int]bool{}
		for i, id := range ids {
			if in[id] || dists[i] != dist(id) || i > 0 && dists[i-1] > dists[i] {
				c.Fatalf("results %v at %v", ids, dists)
			}
			in[id] = true
		}
		for i := range codes {
			if bq.HammingDistance(qc, codes[i]) != dist(i) {
				c.Fatalf("distance of %v and %v is not %d", qc, codes[i], dist(i))
			}
			if !in[i] && len(ids) > 0 && dist(i) < dists[len(dists)-1] {
				c.Fatalf("%d at %d is nearer than %v", i, dist(i), dists)
			}
		}
		if len(ids) > 0 && len(ids) < len(data) {
			c.NonTrivial()
		}
		if _, err := bq.Decode(append(append([]byte{}, qc...), 0)); err == nil {
			c.Fatalf("a code that is too long is decoded")
		}
		bad := append(append([][]float32{}, data...), make([]float32, dim+rapid.SampledFrom([]int{-1, 1}).Draw(c.T, "change")))
		if bq.Train(bad) == nil || bq.Train(nil) == nil {
			c.Fatalf("a bad training set is accepted")
		}
		var buf bytes.Buffer
		c.Must(bq.Save(&buf), "Save")
		raw := append([]byte{}, buf.Bytes()...)
		other := q.NewBinaryQuantizer(dim + 3)
		if rapid.Bool().Draw(c.T, "receiver trained") {
			c.Must(other.Train([][]float32{make([]float32, dim+3)}), "Train")
		}
		c.Must(other.Load(bytes.NewReader(raw)), "Load")
		for _, b := range []*q.BinaryQuantizer{bq, other} {
			if got := encode(b, query); !bytes.Equal(got, qc) {
				c.Fatalf("after a refused training or a load %v is encoded as %v, was %v", query, got, qc)
			}
		}
		hurt := raw
		if rapid.Bool().Draw(c.T, "cut") {
			hurt = hurt[:rapid.IntRange(0, len(hurt)-1).Draw(c.T, "length")]
		} else {
			hurt[rapid.IntRange(0, len(hurt)-1).Draw(c.T, "byte")] ^= byte(rapid.IntRange(1, 255).Draw(c.T, "damage"))
		}
		c.Op("load %x", hurt)
		if err := other.Load(bytes.NewReader(hurt)); err == nil {
			if other.Trained {
				_, err := other.Encode(make([]float32, other.Dimension))
				c.Must(err, "Encode")
			}
		} else if got := encode(other, query); !bytes.Equal(got, qc) {
			c.Fatalf("after a refused Load %v is encoded as %v, was %v", query, got, qc)
		}
	})
}

func l2(a, b []float32) float64 {
	s := 0.0
	for i := range a {
		s += (float64(a[i]) - float64(b[i])) * (float64(a[i]) - float64(b[i]))
	}
	return math.Sqrt(s)
}

func TestProduct(t *testing.T) {
	h.Check(t, h.Opt{Quick: 15000, Thorough: 1500000}, func(c *h.C) {
		m, sub, k := rapid.IntRange(1, 3).Draw(c.T, "subspaces"), rapid.IntRange(1, 3).Draw(c.T, "width"), rapid.IntRange(1, 4).Draw(c.T, "centroids")
		dim := m * sub
		for _, b := range [][3]int{{dim + 1, dim + 2, k}, {dim, 0, k}, {dim, -1, k}, {dim, m, 257}, {dim, m, 0}, {0, m, k}} {
			if _, err := q.NewProductQuantizer(b[0], b[1], b[2]); err == nil {
				c.Fatalf("NewProductQuantizer%v is accepted", b)
			}
		}
		pq, err := q.NewProductQuantizer(dim, m, k)
		c.Must(err, "NewProductQuantizer")
		scale := rapid.SampledFrom([]float32{1, 1, 1, 0.01, 1000}).Draw(c.T, "scale")
		vec := rapid.Custom(func(t *rapid.T) []float32 {
			v := rapid.SliceOfN(rapid.OneOf(rapid.Float32Range(-3, 3), rapid.SampledFrom([]float32{-1, 0, 1})), dim, dim).Draw(t, "v")
			for i := range v {
				v[i] *= scale
			}
			return v
		})
		tol := 1e-4 * math.Max(1, float64(scale))
		if _, err := pq.Encode(make([]float32, dim)); err == nil {
			c.Fatalf("an untrained quantizer encodes")
		}
		if rapid.IntRange(0, 3).Draw(c.T, "trained before") == 0 {
			old := rapid.SliceOfN(vec, k*m, k*m+2).Draw(c.T, "earlier training vectors")
			c.Op("first train %v", old)
			c.Must(pq.Train(old), "Train")
		}
		train := rapid.SliceOfN(vec, k*m, k*m+5).Draw(c.T, "training vectors")
		c.Op("dim %d m %d k %d train %v", dim, m, k, train)
		if pq.Train(train[:k*m-1]) == nil {
			c.Fatalf("too few vectors are accepted")
		}
		bad := append([][]float32{}, train...)
		bad[rapid.IntRange(0, len(bad)-1).Draw(c.T, "bad one")] = make([]float32, dim+rapid.SampledFrom([]int{-1, 1}).Draw(c.T, "change"))
		if pq.Train(bad) == nil {
			c.Fatalf("a training vector of another dimension is accepted")
		}
		c.Must(pq.Train(train), "Train")
		check := func(p *q.ProductQuantizer, v []float32) ([]byte, []float32) {
			code, err := p.Encode(v)
			c.Must(err, "Encode")
			if len(code) != m {
				c.Fatalf("code %v of %d subspaces", code, m)
			}
			back, err := p.Decode(code)
			c.Must(err, "Decode")
			if len(back) != dim {
				c.Fatalf("%v decodes to %v", code, back)
			}
			// no other code is nearer in any subspace
			for i := 0; i < m; i++ {
				got := l2(v[i*sub:(i+1)*sub], back[i*sub:(i+1)*sub])
				for j := 0; j < k; j++ {
					alt := append([]byte{}, code...)
					alt[i] = byte(j)
					b, err := p.Decode(alt)
					c.Must(err, "Decode")
					if d := l2(v[i*sub:(i+1)*sub], b[i*sub:(i+1)*sub]); d < got-tol {
						c.Fatalf("%v: code %v, but %v is nearer in part %d", v, code, alt, i)
					}
				}
			}
			return code, back
		}
		data := append(rapid.SliceOfN(vec, 1, 6).Draw(c.T, "vectors"), train[0])
		query := vec.Draw(c.T, "query")
		var codes [][]byte
		var backs [][]float32
		for _, v := range data {
			code, back := check(pq, v)
			codes, backs = append(codes, code), append(backs, back)
		}
		ds := make([]float64, len(codes))
		for i := range codes {
			d, err := pq.ComputeDistance(codes[i], query)
			c.Must(err, "ComputeDistance")
			ds[i] = float64(d)
			// between the distance to the decoded vector and its sum over the parts
			if e := l2(query, backs[i]); ds[i] < e-tol || ds[i] > e*math.Sqrt(float64(m))+tol {
				c.Fatalf("distance of %v to %v (%v) is %v, should be about %v", query, codes[i], backs[i], d, e)
			}
		}
		n := rapid.IntRange(-1, 8).Draw(c.T, "k")
		c.Op("search %v in %v for %d", query, data, n)
		ids, dists := pq.SearchPQ(query, codes, n)
		if want := max(0, min(n, len(codes))); len(ids) != want || len(dists) != want {
			c.Fatalf("%d results, want %d", len(ids), want)
		}
		in := map[int]bool{}
		for i, id := range ids {
			if in[id] || !h.Near(float64(dists[i]), ds[id], tol) || i > 0 && dists[i-1] > dists[i] {
				c.Fatalf("results %v at %v of %v", ids, dists, ds)
			}
			in[id] = true
		}
		for i := range ds {
			if !in[i] && len(ids) > 0 && ds[i] < float64(dists[len(dists)-1])-tol {
				c.Fatalf("results %v at %v of %v", ids, dists, ds)
			}
		}
		if len(ids) > 0 && len(ids) < len(data) && m > 1 && k > 1 {
			c.NonTrivial()
		}
		// what does not fit is refused
		if ids, _ := pq.SearchPQ(query[:dim-1], codes, 3); len(ids) > 0 {
			c.Fatalf("a shorter query finds %v", ids)
		}
		if _, err := pq.Encode(make([]float32, dim+1)); err == nil {
			c.Fatalf("a longer vector is encoded")
		}
		if _, err := pq.Decode(make([]byte, m+1)); err == nil {
			c.Fatalf("a longer code is decoded")
		}
		high := append([]byte{}, codes[0]...)
		high[m-1] = byte(k)
		if _, err := pq.Decode(high); err == nil {
			c.Fatalf("code %v is decoded", high)
		}
		for _, x := range []struct {
			code  []byte
			query []float32
		}{{codes[0], query[:dim-1]}, {codes[0][:m-1], query}, {high, query}} {
			if _, err := pq.ComputeDistance(x.code, x.query); err == nil {
				c.Fatalf("distance of %v and %v", x.code, x.query)
			}
		}
		// stored codebooks come back; damaged ones are refused and change nothing
		raw := pq.SerializeCodebooks()
		other, _ := q.NewProductQuantizer(2, 1, 2)
		c.Must(other.DeserializeCodebooks(raw), "DeserializeCodebooks")
		same := func(what string) {
			for i, v := range data {
				code, back := check(other, v)
				if !bytes.Equal(code, codes[i]) || !reflect.DeepEqual(back, backs[i]) {
					c.Fatalf("%s %v is encoded as %v, was %v", what, v, code, codes[i])
				}
			}
		}
		same("with stored codebooks")
		hurt := append([]byte{}, raw...)
		switch rapid.IntRange(0, 2).Draw(c.T, "how") {
		case 0:
			hurt = hurt[:rapid.IntRange(0, len(hurt)-1).Draw(c.T, "length")]
		case 1:
			hurt[rapid.IntRange(0, 15).Draw(c.T, "byte")] ^= byte(rapid.IntRange(1, 255).Draw(c.T, "damage"))
		default:
			hurt = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(c.T, "bytes")
		}
		c.Op("codebooks %x", hurt)
		if err := other.DeserializeCodebooks(hurt); err == nil {
			code, err := other.Encode(make([]float32, other.D))
			c.Must(err, "Encode")
			_, err = other.Decode(code)
			c.Must(err, "Decode")
		} else {
			same("after refused codebooks")
		}
	})
}

// With as many centroids as a byte can name, each part is still coded by its nearest one.
func TestManyCentroids(t *testing.T) {
	h.Check(t, h.Opt{Quick: 150, Thorough: 8000}, func(c *h.C) {
		m, k := rapid.IntRange(1, 2).Draw(c.T, "subspaces"), rapid.SampledFrom([]int{16, 100, 128, 129, 200, 255, 256}).Draw(c.T, "centroids")
		sub := rapid.IntRange(1, 2).Draw(c.T, "width")
		dim := m * sub
		r := rand.New(rand.NewSource(rapid.Int64().Draw(c.T, "seed")))
		vec := func() []float32 {
			v := make([]float32, dim)
			for i := range v {
				v[i] = float32(r.NormFloat64())
			}
			return v
		}
		train := make([][]float32, k*m+r.Intn(50))
		for i := range train {
			train[i] = vec()
		}
		c.Op("dim %d m %d k %d, %d vectors", dim, m, k, len(train))
		pq, err := q.NewProductQuantizer(dim, m, k)
		c.Must(err, "NewProductQuantizer")
		c.Must(pq.Train(train), "Train")
		other, _ := q.NewProductQuantizer(2, 1, 2)
		c.Must(other.DeserializeCodebooks(pq.SerializeCodebooks()), "DeserializeCodebooks")
		// the centroids, as decoding shows them
		cents := make([][]float32, k)
		for j := range cents {
			code := bytes.Repeat([]byte{byte(j)}, m)
			cents[j], err = pq.Decode(code)
			c.Must(err, "Decode")
		}
		high := false
		for i := 0; i < 40; i++ {
			v := vec()
			code, err := pq.Encode(v)
			c.Must(err, "Encode")
			again, err := other.Encode(v)
			c.Must(err, "Encode")
			if !bytes.Equal(code, again) {
				c.Fatalf("%v is encoded as %v and, with stored codebooks, as %v", v, code, again)
			}
			for p := 0; p < m; p++ {
				part := v[p*sub : (p+1)*sub]
				got := l2(part, cents[code[p]][p*sub:(p+1)*sub])
				high = high || code[p] >= 128
				for j := range cents {
					if d := l2(part, cents[j][p*sub:(p+1)*sub]); d < got-1e-4 {
						c.Fatalf("%v is encoded as %v, but centroid %d is nearer in part %d", v, code, j, p)
					}
				}
			}
		}
		if high {
			c.NonTrivial()
		}
	})
}
