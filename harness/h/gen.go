package h

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// Vec draws a vector of dim components: mostly small grid values, so that equal
// scores, zero components and exact arithmetic are common.
func Vec(t *rapid.T, dim int, label string) []float32 {
	v := make([]float32, dim)
	if rapid.IntRange(0, 3).Draw(t, label+".kind") > 0 {
		for i := range v {
			v[i] = float32(rapid.IntRange(-4, 4).Draw(t, label)) / 2
		}
	} else {
		for i := range v {
			v[i] = float32(rapid.Float64Range(-100, 100).Draw(t, label))
		}
	}
	return v
}

// NZVec draws a vector that is not zero.
func NZVec(t *rapid.T, dim int, label string) []float32 {
	v := Vec(t, dim, label)
	for _, x := range v {
		if x != 0 {
			return v
		}
	}
	v[rapid.IntRange(0, dim-1).Draw(t, label+".nz")] = 1
	return v
}

// VS formats a vector.
func VS(v []float32) string {
	var b strings.Builder
	b.WriteByte('[')
	for i, x := range v {
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "%g", x)
	}
	b.WriteByte(']')
	return b.String()
}

// MS formats a map in key order.
func MS[V any](m map[string]V) string {
	if m == nil {
		return "nil"
	}
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	b.WriteByte('{')
	for i, k := range ks {
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "%q:%v", k, m[k])
	}
	b.WriteByte('}')
	return b.String()
}

// Text draws text with awkward characters.
func Text(t *rapid.T, label string) string {
	return rapid.OneOf(
		rapid.StringMatching(`[a-z]{1,6}( [a-z]{1,6}){0,4}`),
		rapid.SampledFrom([]string{"", "it's", `say "hi"`, "50% off_now", "日本語 text", "a\nb\tc", "back\\slash", "null", "true", "x;y--z", "emoji 😀 ok"}),
		rapid.StringN(0, 12, 40),
	).Draw(t, label)
}

// Words is the vocabulary for keyword checks: distinct words without a common stem.
var Words = []string{"apple", "river", "stone", "cloud", "tiger", "paper"}

// ID draws an identifier from a small set, so that histories collide.
func ID(t *rapid.T, n int, label string) string {
	i := rapid.IntRange(0, n-1).Draw(t, label)
	return IDs[i%len(IDs)]
}

// IDs are the identifiers that ID draws from.
var IDs = []string{"a", "b", "A", "a_", "it's", "a ", "Ünï", "x%y_z", "id:1", "a'--", "k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8", "k9", "k10"}

// Cosine, Dot and Euclid are the reference similarities.
func Cosine(a, b []float32) float64 {
	if len(a) != len(b) || len(a) == 0 {
		return 0
	}
	var d, na, nb float64
	for i := range a {
		d += float64(a[i]) * float64(b[i])
		na += float64(a[i]) * float64(a[i])
		nb += float64(b[i]) * float64(b[i])
	}
	if na == 0 || nb == 0 {
		return 0
	}
	return d / (math.Sqrt(na) * math.Sqrt(nb))
}

func Dot(a, b []float32) float64 {
	if len(a) != len(b) {
		return 0
	}
	var d float64
	for i := range a {
		d += float64(a[i]) * float64(b[i])
	}
	return d
}

func Euclid(a, b []float32) float64 {
	if len(a) != len(b) {
		return math.Inf(-1)
	}
	var d float64
	for i := range a {
		x := float64(a[i]) - float64(b[i])
		d += x * x
	}
	return -math.Sqrt(d)
}

// Near compares scores; tol is relative to their size.
func Near(a, b, tol float64) bool {
	if a == b {
		return true
	}
	return math.Abs(a-b) <= tol*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

// SameVec compares vectors component by component.
func SameVec(a, b []float32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// SameMap compares metadata; nil and empty are the same.
func SameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// Sorted returns the sorted copy.
func Sorted(s []string) []string {
	r := append([]string{}, s...)
	sort.Strings(r)
	return r
}

// SameStrings compares as sorted lists.
func SameStrings(a, b []string) bool {
	x, y := Sorted(a), Sorted(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// CheckTopK checks a ranked result against brute force. got are the returned ids and
// scores in order; want the true score of every eligible id. It returns "" or what is
// wrong: a wrong length, an ineligible or repeated id, a wrong score, an order that is
// not descending, or a better id left out. Ties within tol may go either way.
func CheckTopK(got []string, scores []float64, want map[string]float64, k int, tol float64) string {
	n := len(want)
	if k > 0 && k < n {
		n = k
	}
	if len(got) != n {
		return fmt.Sprintf("got %d results %v, want %d of %v", len(got), got, n, MS(want))
	}
	seen := map[string]bool{}
	worst := math.Inf(1)
	for i, id := range got {
		w, ok := want[id]
		if !ok {
			return fmt.Sprintf("result %q is not eligible (eligible %v)", id, MS(want))
		}
		if seen[id] {
			return fmt.Sprintf("result %q is repeated", id)
		}
		seen[id] = true
		if !Near(scores[i], w, tol) {
			return fmt.Sprintf("result %q has score %v, want %v", id, scores[i], w)
		}
		if i > 0 && scores[i] > scores[i-1] && !Near(scores[i], scores[i-1], tol) {
			return fmt.Sprintf("scores not descending: %v", scores)
		}
		if w < worst {
			worst = w
		}
	}
	for id, w := range want {
		if !seen[id] && w > worst && !Near(w, worst, tol) {
			return fmt.Sprintf("%q (score %v) was left out in favour of score %v; got %v", id, w, worst, got)
		}
	}
	return ""
}
