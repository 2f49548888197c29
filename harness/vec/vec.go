// Package vec generates real vectors for the hasher checks.
package vec

import (
	"math"

	"github.com/nlpodyssey/goslide/index_value"
	"pgregory.net/rapid"
	"verifharness/vt"
)

// Spec describes a vector of any dimension; At expands it.
type Spec struct {
	Kind string
	Seed uint64
}

var kinds = []string{"normal", "normal", "positive", "negative", "small-ints", "constant", "one-hot", "one-cold",
	"huge", "tiny", "ascending", "descending", "mixed-magnitude", "mostly-zero", "neg-huge", "shifted"}

// DistinctKinds have no two equal coordinates (up to astronomically unlikely draws).
var DistinctKinds = []string{"normal", "positive", "negative", "ascending", "descending", "mixed-magnitude", "neg-huge", "shifted", "huge"}

func Gen(t *rapid.T, label string) Spec {
	return Spec{rapid.SampledFrom(kinds).Draw(t, label+"kind"), rapid.Uint64Range(0, 1<<32).Draw(t, label+"seed")}
}

func GenDistinct(t *rapid.T, label string) Spec {
	return Spec{rapid.SampledFrom(DistinctKinds).Draw(t, label+"kind"), rapid.Uint64Range(0, 1<<32).Draw(t, label+"seed")}
}

func (s Spec) At(dim int) []float64 {
	m := vt.Mix(s.Seed)
	v := make([]float64, dim)
	for i := range v {
		switch s.Kind {
		case "normal":
			v[i] = m.Norm()
		case "positive":
			v[i] = m.Float() + 1e-9
		case "negative":
			v[i] = -m.Float() - 1e-9
		case "small-ints":
			v[i] = float64(m.Intn(5) - 2)
		case "constant":
			v[i] = 0.5
		case "one-hot", "one-cold":
		case "huge":
			v[i] = m.Norm() * 1e290
		case "neg-huge":
			v[i] = -m.Float()*1e290 - 1e30
		case "tiny":
			v[i] = m.Norm() * 5e-320
		case "ascending":
			v[i] = float64(i) - float64(dim)/3
		case "descending":
			v[i] = float64(dim)/3 - float64(i)
		case "mixed-magnitude":
			v[i] = m.Norm() * math.Pow(10, float64(m.Intn(30)-15))
		case "mostly-zero":
			if m.Intn(8) == 0 {
				v[i] = m.Norm()
			}
		case "shifted":
			v[i] = 1000 + m.Norm()
		}
	}
	if dim > 0 {
		switch s.Kind {
		case "one-hot":
			v[m.Intn(dim)] = 1
		case "one-cold":
			v[m.Intn(dim)] = -1
		}
	}
	return v
}

// Support is a subset of the coordinates.
type Support struct {
	Percent int // 0..100 of coordinates kept; -n keeps n coordinates
	Seed    uint64
	Order   string // order of the pairs
}

func GenSupport(t *rapid.T) Support {
	return Support{
		rapid.SampledFrom([]int{100, 100, 50, 80, 20, 5, 0, -1, -2, -5, -29, -30, -31}).Draw(t, "support"),
		rapid.Uint64Range(0, 1<<32).Draw(t, "supportseed"),
		rapid.SampledFrom([]string{"ascending", "descending", "shuffled", "shuffled"}).Draw(t, "order")}
}

// Pairs returns the pairs of the supported coordinates, in the drawn order.
func (s Support) Pairs(v []float64) []index_value.Pair {
	m := vt.Mix(s.Seed)
	perm := m.Perm(len(v))
	n := len(v) * s.Percent / 100
	if s.Percent < 0 {
		n = min(-s.Percent, len(v))
	}
	chosen := append([]int(nil), perm[:n]...)
	if s.Order != "shuffled" {
		in := make([]bool, len(v))
		for _, c := range chosen {
			in[c] = true
		}
		chosen = chosen[:0]
		for c := range v {
			if in[c] {
				chosen = append(chosen, c)
			}
		}
		if s.Order == "descending" {
			for i, j := 0, len(chosen)-1; i < j; i, j = i+1, j-1 {
				chosen[i], chosen[j] = chosen[j], chosen[i]
			}
		}
	}
	ps := make([]index_value.Pair, len(chosen))
	for i, c := range chosen {
		ps[i] = index_value.Pair{Index: c, Value: v[c]}
	}
	return ps
}

// Reorder returns the pairs in another order.
func Reorder(ps []index_value.Pair, seed uint64) []index_value.Pair {
	m := vt.Mix(seed)
	out := make([]index_value.Pair, len(ps))
	for i, j := range m.Perm(len(ps)) {
		out[i] = ps[j]
	}
	return out
}

// Dense fills in zeros for absent coordinates.
func Dense(ps []index_value.Pair, dim int) []float64 {
	v := make([]float64, dim)
	for _, p := range ps {
		v[p.Index] = p.Value
	}
	return v
}

func ClonePairs(ps []index_value.Pair) []index_value.Pair {
	return append([]index_value.Pair{}, ps...)
}

func EqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// SameFloats compares bit by bit.
func SameFloats(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
			return false
		}
	}
	return true
}

func SamePairs(a, b []index_value.Pair) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Index != b[i].Index || math.Float64bits(a[i].Value) != math.Float64bits(b[i].Value) {
			return false
		}
	}
	return true
}

// Dims draws (dimension, number of codes).
func Dims(t *rapid.T) (dim, n int) {
	switch rapid.IntRange(0, 19).Draw(t, "dimclass") {
	case 0:
		dim = rapid.IntRange(1, 3).Draw(t, "dim")
	case 1, 2:
		dim = rapid.SampledFrom([]int{7, 8, 9, 15, 16, 17, 24, 62, 63, 64, 65, 127, 128, 129}).Draw(t, "dim")
	case 3:
		dim = rapid.IntRange(100, 600).Draw(t, "dim")
	default:
		dim = rapid.IntRange(1, 80).Draw(t, "dim")
	}
	switch rapid.IntRange(0, 9).Draw(t, "nclass") {
	case 0:
		n = rapid.SampledFrom([]int{1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65}).Draw(t, "n")
	case 1:
		n = rapid.IntRange(60, 300).Draw(t, "n")
	default:
		n = rapid.IntRange(1, 60).Draw(t, "n")
	}
	return
}

// CheckWindows verifies that slots, the flattened windows of 8 (-1: the slot
// repeats a coordinate of its own window), are cut from back-to-back
// permutations of dim coordinates.
func CheckWindows(c *vt.Ctx, slots []int, dim int) {
	for start := 0; start < len(slots); start += dim {
		end := min(start+dim, len(slots))
		seen := map[int]int{}
		for s := start; s < end; s++ {
			if slots[s] < 0 {
				// Only a window crossing permutations can hold a coordinate twice.
				w := s / 8 * 8
				if w >= start && w+8 <= start+dim {
					c.Failf("code %d: window slot %d is not occupied by a coordinate of its own (dimension %d)", s/8, s%8, dim)
				}
				continue
			}
			if prev, ok := seen[slots[s]]; ok {
				c.Failf("coordinate %d fills two slots (%d and %d) of one permutation (dimension %d)", slots[s], prev, s, dim)
			}
			seen[slots[s]] = s
		}
	}
}

// WideDim draws a dimension of the size real data sets have.
func WideDim(t *rapid.T) int {
	if rapid.Bool().Draw(t, "exactdim") {
		return rapid.SampledFrom([]int{1000, 1024, 4095, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 135909}).Draw(t, "dim")
	}
	return rapid.IntRange(600, 150000).Draw(t, "dim")
}

// VastDim draws a dimension as the largest extreme classification data sets have.
func VastDim(t *rapid.T) int {
	if rapid.Bool().Draw(t, "exactdim") {
		return rapid.SampledFrom([]int{524288, 524289, 670091, 782585, 1048576, 1048577, 1617899}).Draw(t, "dim")
	}
	return rapid.IntRange(300000, 1700000).Draw(t, "dim")
}

// Watched picks about n of the coordinates: the extremes, a run and random ones.
func Watched(dim, n int, seed uint64) []int {
	m := vt.Mix(seed)
	in := map[int]bool{}
	var out []int
	add := func(k int) {
		if k >= 0 && k < dim && !in[k] {
			in[k] = true
			out = append(out, k)
		}
	}
	for i := 0; i < 8; i++ {
		add(i)
		add(dim - 1 - i)
		add(32764 + i)
		add(65532 + i)
	}
	for i, at := 0, m.Intn(dim); i < n/4; i++ {
		add(at + i)
	}
	for try := 0; len(out) < n && try < 20*n; try++ {
		add(m.Intn(dim))
	}
	return out
}

// CheckShare verifies that drawing hits of trials with the given probability is plausible.
func CheckShare(c *vt.Ctx, what string, hits, trials int, prob float64) {
	mean := float64(trials) * prob
	if d := math.Abs(float64(hits) - mean); d > 8*math.Sqrt(mean*(1-min(prob, 1))+1)+2 {
		c.Failf("%s: %d of %d, expected about %.1f", what, hits, trials, mean)
	}
}

// CheckAppearances verifies how often each watched coordinate appears in the
// windows cut from back-to-back permutations.
func CheckAppearances(c *vt.Ctx, counts map[int]int, watched []int, dim, n int) {
	full := 8 * n / dim
	partial := 0
	for _, k := range watched {
		a := counts[k]
		// a window crossing two permutations may hold a coordinate twice
		if a > full+1 || a < full-full/2 {
			c.Failf("coordinate %d appears in %d of %d windows (dimension %d)", k, a, n, dim)
		}
		partial += a - full
	}
	CheckShare(c, "watched coordinates in the last permutation", partial, len(watched), float64(8*n-full*dim)/float64(dim))
}

// Buffer hands out copies that overwrite the ones handed out before, as a
// caller does that uses its memory again.
type Buffer struct {
	floats []float64
	pairs  []index_value.Pair
	ints   []int
}

func (b *Buffer) Floats(v []float64) []float64 {
	b.floats = append(b.floats[:0], v...)
	return b.floats
}

func (b *Buffer) Pairs(ps []index_value.Pair) []index_value.Pair {
	b.pairs = append(b.pairs[:0], ps...)
	return b.pairs
}

func (b *Buffer) Ints(v []int) []int {
	b.ints = append(b.ints[:0], v...)
	return b.ints
}
