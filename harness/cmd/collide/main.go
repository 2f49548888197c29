// Check C24: collision rates of freshly drawn hash functions.
//
// All bounds are Hoeffding bounds over independent draws (permutations,
// projections, maps), wide enough for a correct hasher to exceed one of them
// with probability below 1e-11.
package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/goslide/densified_minhash"
	"github.com/nlpodyssey/goslide/densified_wta_hash"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/sparse_random_projection"
	"github.com/nlpodyssey/goslide/wta_hash"
	"pgregory.net/rapid"
	"verifharness/vt"
)

// slack is how far the mean of n independent values in [0, 1] may be from its
// expectation.
func slack(n int) float64 { return math.Sqrt(math.Log(2e11)/(2*float64(n))) + 1e-9 }

func near(c *vt.Ctx, what string, got, want float64, n int) {
	if math.Abs(got-want) > slack(n) {
		c.Failf("%s: %.4f, want %.4f (plus or minus %.4f)", what, got, want, slack(n))
	}
}

// Pair describes two vectors of distinct values.
type Pair struct {
	Dim    int
	Kind   string
	Mix    vt.F // how similar
	Heavy  int  // a coordinate larger than all others (-1: none)
	Seed   uint64
	Scaled bool // the second is a positive multiple of the first
}

func genPair(t *rapid.T, dim int) Pair {
	return Pair{Dim: dim, Kind: rapid.SampledFrom([]string{"normal", "positive", "ranks"}).Draw(t, "kind"),
		Mix:   vt.F(rapid.SampledFrom([]float64{0.5, 0, 0.9, 0.99, 0.2, -1}).Draw(t, "mix")),
		Heavy: rapid.SampledFrom([]int{-1, -1, 0, dim - 1, dim / 2}).Draw(t, "heavy"),
		Seed:  rapid.Uint64Range(0, 1<<30).Draw(t, "seed"), Scaled: rapid.IntRange(0, 7).Draw(t, "scaled") == 0}
}

func (p Pair) vectors() (x, y []float64) {
	m := vt.Mix(p.Seed)
	x, y = make([]float64, p.Dim), make([]float64, p.Dim)
	px, py := m.Perm(p.Dim), m.Perm(p.Dim)
	for i := range x {
		a, b := m.Norm(), m.Norm()
		switch p.Kind {
		case "positive":
			a, b = math.Abs(a), math.Abs(b)
		case "ranks":
			a, b = float64(px[i]+1), float64(py[i]+1)
		}
		x[i] = a
		y[i] = float64(p.Mix)*a + (1-math.Abs(float64(p.Mix)))*b
	}
	if p.Heavy >= 0 {
		x[p.Heavy] = 100 + m.Float()
		y[p.Heavy] = 200 + m.Float()
	}
	if p.Scaled {
		for i := range y {
			y[i] = 3 * x[i]
		}
	}
	for i := range y { // ties would go by position
		y[i] += 1e-9 * float64(i)
	}
	return
}

// windowCollision is the probability that a random window of 8 of the
// coordinates has the same winner in both vectors.
func windowCollision(x, y []float64) float64 {
	d := len(x)
	p := 0.0
	for j := range x {
		below := 0
		for i := range x {
			if x[i] < x[j] && y[i] < y[j] {
				below++
			}
		}
		// C(below, 7) / C(d, 8)
		q := 8 / float64(d)
		for k := 0; k < 7; k++ {
			q *= float64(below-k) / float64(d-1-k)
			if below-k <= 0 {
				q = 0
				break
			}
		}
		p += q
	}
	return p
}

type WindowCase struct {
	Dense bool // densified
	Pair  Pair
	Draws int // permutations
	Seed  int64
	Free  bool
}

func genWindow(t *rapid.T) WindowCase {
	dim := 8 * rapid.IntRange(1, 8).Draw(t, "dim8")
	return WindowCase{Dense: rapid.Bool().Draw(t, "densified"), Pair: genPair(t, dim), Draws: rapid.IntRange(1500, 6000).Draw(t, "draws"),
		Seed: rapid.Int64Range(1, 1<<40).Draw(t, "seed"), Free: rapid.Bool().Draw(t, "free")}
}

func seed(free bool, s int64) {
	if free {
		vt.FreeRNG()
	} else {
		vt.SeedRNG(s)
	}
}

func pairs(v []float64) []index_value.Pair {
	ps := make([]index_value.Pair, len(v))
	for i, x := range v {
		ps[i] = index_value.Pair{Index: i, Value: x}
	}
	return ps
}

func agree(a, b []int) float64 {
	k := 0
	for i := range a {
		if a[i] == b[i] {
			k++
		}
	}
	return float64(k) / float64(len(a))
}

func runWindow(c *vt.Ctx, cs WindowCase) {
	per := cs.Pair.Dim / 8 // windows of one permutation
	n := per * cs.Draws
	seed(cs.Free, cs.Seed)
	var hash, hash2 func(v []float64) []int
	if cs.Dense {
		h, h2 := densified_wta_hash.New(n, cs.Pair.Dim), densified_wta_hash.New(n, cs.Pair.Dim)
		hash = func(v []float64) []int { return h.GetHash(pairs(v)) }
		hash2 = func(v []float64) []int { return h2.GetHash(pairs(v)) }
	} else {
		h, h2 := wta_hash.New(n, cs.Pair.Dim), wta_hash.New(n, cs.Pair.Dim)
		hash = func(v []float64) []int { return h.GetHashDense(append([]float64(nil), v...)) }
		hash2 = func(v []float64) []int { return h2.GetHashDense(append([]float64(nil), v...)) }
	}
	x, y := cs.Pair.vectors()
	hx, hy := hash(x), hash(y)
	want := windowCollision(x, y)
	near(c, fmt.Sprintf("codes on which the vectors agree (dimension %d)", cs.Pair.Dim), agree(hx, hy), want, cs.Draws)
	for code := 0; code < 8; code++ {
		k := 0
		for _, h := range hx {
			if h == code {
				k++
			}
		}
		near(c, fmt.Sprintf("codes that are %d", code), float64(k)/float64(n), 1.0/8, cs.Draws)
	}
	// functions of different permutations agree as often as chance has it
	var a, b []int
	for g := 0; g+1 < cs.Draws; g += 2 {
		a = append(a, hx[g*per:(g+1)*per]...)
		b = append(b, hx[(g+1)*per:(g+2)*per]...)
	}
	near(c, "codes equal to those of the next permutation", agree(a, b), 1.0/8, cs.Draws/2)
	near(c, "codes equal to those of a second hasher", agree(hx, hash2(x)), 1.0/8, cs.Draws)
	if want > 0.02 && want < 0.98 {
		c.NonTrivial()
	}
	c.LabelIf(cs.Free, "seeded from the clock")
	c.LabelIf(want == 1, "always equal")
	c.LabelIf(want < 0.02, "hardly ever equal")
}

type SignCase struct {
	Dim, Ratio int
	X, Y       []int
	N          int
	Seed       int64
	Free       bool
}

func genSign(t *rapid.T) SignCase {
	cs := SignCase{Dim: rapid.IntRange(1, 12).Draw(t, "dim"), N: rapid.IntRange(4000, 20000).Draw(t, "n"),
		Seed: rapid.Int64Range(1, 1<<40).Draw(t, "seed"), Free: rapid.Bool().Draw(t, "free")}
	m := rapid.IntRange(1, min(cs.Dim, 4)).Draw(t, "size")
	cs.Ratio = (cs.Dim + m - 1) / m // gives a set of m or fewer
	small := rapid.IntRange(-9, 9)
	cs.X = rapid.SliceOfN(small, cs.Dim, cs.Dim).Draw(t, "x")
	cs.Y = rapid.SliceOfN(small, cs.Dim, cs.Dim).Draw(t, "y")
	if rapid.Bool().Draw(t, "similar") {
		k := rapid.IntRange(0, cs.Dim-1).Draw(t, "but")
		for i := range cs.Y {
			if i != k {
				cs.Y[i] = cs.X[i]
			}
		}
	}
	return cs
}

// signs enumerates all sets and signs: how often the codes agree, and how
// often the first code is 0.
func (cs SignCase) signs() (both, zero float64) {
	m := (cs.Dim + cs.Ratio - 1) / cs.Ratio
	total := 0
	var rec func(at, left, sx, sy int)
	rec = func(at, left, sx, sy int) {
		if left == 0 {
			total++
			if (sx >= 0) == (sy >= 0) {
				both++
			}
			if sx >= 0 {
				zero++
			}
			return
		}
		for i := at; i+left <= cs.Dim; i++ {
			rec(i+1, left-1, sx+cs.X[i], sy+cs.Y[i])
			rec(i+1, left-1, sx-cs.X[i], sy-cs.Y[i])
		}
	}
	rec(0, m, 0, 0)
	return both / float64(total), zero / float64(total)
}

func runSign(c *vt.Ctx, cs SignCase) {
	seed(cs.Free, cs.Seed)
	h := sparse_random_projection.New(cs.Dim, cs.N, cs.Ratio)
	h2 := sparse_random_projection.New(cs.Dim, cs.N, cs.Ratio)
	fl := func(v []int) []float64 {
		out := make([]float64, len(v))
		for i := range v {
			out[i] = float64(v[i])
		}
		return out
	}
	hx, hy := h.GetHash(fl(cs.X)), h.GetHash(fl(cs.Y))
	both, zero := cs.signs()
	near(c, "codes on which the vectors agree", agree(hx, hy), both, cs.N)
	ones := 0
	var a, b []int
	for i, v := range hx {
		ones += v
		if i%2 == 0 {
			a = append(a, v)
		} else {
			b = append(b, v)
		}
	}
	near(c, "codes that are 0", 1-float64(ones)/float64(cs.N), zero, cs.N)
	chance := zero*zero + (1-zero)*(1-zero)
	near(c, "codes equal to the next function's", agree(a[:len(b)], b), chance, len(b))
	near(c, "codes equal to those of a second hasher", agree(hx, h2.GetHash(fl(cs.X))), chance, cs.N)
	if both > 0.02 && both < 0.98 {
		c.NonTrivial()
	}
	c.LabelIf(cs.Free, "seeded from the clock")
}

type SetCase struct {
	Dim, N, TopK int
	Pair         Pair
	Hashers      int
	Seed         int64
	Free         bool
}

func genSet(t *rapid.T) SetCase {
	dim := rapid.IntRange(16, 60).Draw(t, "dim")
	return SetCase{Dim: dim, N: rapid.IntRange(1, 24).Draw(t, "n"), TopK: rapid.IntRange(1, 16).Draw(t, "topk"), Pair: genPair(t, dim),
		Hashers: rapid.IntRange(1500, 4000).Draw(t, "hashers"), Seed: rapid.Int64Range(1, 1<<40).Draw(t, "seed"), Free: rapid.Bool().Draw(t, "free")}
}

func top(v []float64, k int) map[int]bool {
	out := map[int]bool{}
	for len(out) < k && len(out) < len(v) {
		best := -1
		for i := range v {
			if !out[i] && (best < 0 || v[i] > v[best]) {
				best = i
			}
		}
		out[best] = true
	}
	return out
}

func runSet(c *vt.Ctx, cs SetCase) {
	x, y := cs.Pair.vectors()
	a, b := top(x, cs.TopK), top(y, cs.TopK)
	inv := 1 - 1/float64(cs.N)
	wantAgree, union := 0.0, 0
	for j := cs.Dim - 1; j >= 0; j-- {
		if a[j] && b[j] {
			wantAgree += math.Pow(inv, float64(union))
		}
		if a[j] || b[j] {
			union++
		}
	}
	wantUsed := float64(cs.N) * (1 - math.Pow(inv, float64(union)))
	limit := math.Min(float64(cs.N), float64(union))

	seed(cs.Free, cs.Seed)
	agreed, used, same, neighbours, probes := 0.0, 0.0, 0.0, 0.0, 0
	where := make([]float64, cs.N)
	var before []int
	var prev *densified_minhash.DensifiedMinhash
	for i := 0; i < cs.Hashers; i++ {
		h := densified_minhash.New(cs.N, cs.Dim)
		m := h.GetMap(cs.Dim)
		hx := h.GetHashEasyDense(m, append([]float64(nil), x...), cs.TopK)
		hy := h.GetHashEasyDense(m, append([]float64(nil), y...), cs.TopK)
		occupied := make([]bool, cs.N)
		for j := range m {
			if a[j] || b[j] {
				occupied[m[j]] = true
			}
		}
		for k, o := range occupied {
			if o {
				used++
				if hx[k] == hy[k] {
					agreed++
				}
			}
		}
		j := i % cs.Dim
		where[m[j]]++
		if m[j] == m[(j+1)%cs.Dim] {
			neighbours++
		}
		if before != nil && m[j] == before[j] {
			same++
		}
		if prev != nil && cs.N >= 4 {
			eq := true
			for k := 1; k <= 8; k++ {
				eq = eq && h.GetRandDoubleHash(0, k) == prev.GetRandDoubleHash(0, k) && h.GetRandDoubleHash(1, k) == prev.GetRandDoubleHash(1, k)
			}
			if eq {
				probes++
			}
		}
		before, prev = m, h
	}
	t := float64(cs.Hashers)
	near(c, "agreeing codes per occupied bin, scaled", agreed/t/limit, wantAgree/limit, cs.Hashers)
	near(c, "occupied bins, scaled", used/t/limit, wantUsed/limit, cs.Hashers)
	for k := range where {
		near(c, fmt.Sprintf("coordinates in bin %d of %d", k, cs.N), where[k]/t, 1/float64(cs.N), cs.Hashers)
	}
	near(c, "neighbouring coordinates in one bin", neighbours/t, 1/float64(cs.N), cs.Hashers)
	near(c, "coordinates in the same bin as in the hasher before", same/t, 1/float64(cs.N), cs.Hashers/2)
	if float64(probes) > 0.5*t {
		c.Failf("%d of %d hashers have the probe sequences of the hasher before", probes, cs.Hashers)
	}
	if wantAgree > 0.05 && wantAgree < 0.95*wantUsed {
		c.NonTrivial()
	}
	c.LabelIf(cs.Free, "seeded from the clock")
}

// MapCase is one map of many coordinates to many bins.
type MapCase struct {
	Dim, N int
	Gaps   []int
	Seed   int64
	Free   bool
}

func genMap(t *rapid.T) MapCase {
	cs := MapCase{N: rapid.SampledFrom([]int{2, 48, 100, 256, 500, 1000, 1025, 2000, 4000, 10000}).Draw(t, "n")}
	cs.Dim = rapid.SampledFrom([]int{20000, 65536, 70000, 131072, 150000, 300000}).Draw(t, "dim")
	if rapid.IntRange(0, 2).Draw(t, "odd") == 0 {
		cs.Dim += rapid.IntRange(0, 5000).Draw(t, "more")
	}
	if rapid.IntRange(0, 7).Draw(t, "vast") == 0 {
		cs.Dim *= 5
	}
	for g := 1; g <= cs.Dim/2; g *= 2 {
		cs.Gaps = append(cs.Gaps, g)
	}
	for i := 0; i < 8; i++ {
		cs.Gaps = append(cs.Gaps, rapid.IntRange(1, cs.Dim/2).Draw(t, "gap"))
	}
	cs.Seed = rapid.Int64Range(1, 1<<40).Draw(t, "seed")
	cs.Free = rapid.Bool().Draw(t, "free")
	return cs
}

// runMap: the bins fill evenly, and coordinates a gap apart share a bin as
// often as chance has it.
func runMap(c *vt.Ctx, cs MapCase) {
	seed(cs.Free, cs.Seed)
	m := densified_minhash.New(cs.N, cs.Dim).GetMap(cs.Dim)
	// Bernstein: a count of mean mu is off by more than sqrt(2 mu l) + l with
	// probability below 2 exp(-l).
	off := func(mu, tests float64) float64 {
		l := math.Log(2e12 * tests)
		return math.Sqrt(2*mu*l) + l
	}
	counts := make([]float64, cs.N)
	for _, b := range m {
		counts[b]++
	}
	mu := float64(cs.Dim) / float64(cs.N)
	for b, n := range counts {
		if math.Abs(n-mu) > off(mu, float64(cs.N)) {
			c.Failf("%.0f of %d coordinates are in bin %d of %d, expected about %.1f", n, cs.Dim, b, cs.N, mu)
		}
	}
	used, want := 0.0, float64(cs.N)*(1-math.Pow(1-1/float64(cs.N), float64(cs.Dim)))
	for _, n := range counts {
		if n > 0 {
			used++
		}
	}
	if math.Abs(used-want) > math.Sqrt(float64(cs.Dim)*math.Log(2e12)/2) {
		c.Failf("%.0f bins of %d are used by %d coordinates, expected about %.1f", used, cs.N, cs.Dim, want)
	}
	// lower bound for many coordinates per bin: no bin stays empty
	if mu > 60+math.Log(float64(cs.N)) && used < float64(cs.N) {
		c.Failf("only %.0f bins of %d are used by %d coordinates", used, cs.N, cs.Dim)
	}
	for _, g := range cs.Gaps {
		same, pairs := 0.0, 0.0
		for i := 0; i+g < cs.Dim; i++ {
			if i/g%2 == 0 { // disjoint pairs
				pairs++
				if m[i] == m[i+g] {
					same++
				}
			}
		}
		mu := pairs / float64(cs.N)
		if math.Abs(same-mu) > off(mu, float64(len(cs.Gaps))) {
			c.Failf("%.0f of %.0f pairs of coordinates %d apart share a bin of %d, expected about %.1f", same, pairs, g, cs.N, mu)
		}
	}
	c.NonTrivial()
	c.LabelIf(cs.Free, "seeded from the clock")
	c.LabelIf(cs.N > 1000, "more than 1000 bins")
	c.LabelIf(cs.Dim > 65536, "more than 65536 coordinates")
}

// ------------------------------------------------ many coordinates

// within is near for the mean of n trials that are independent, or drawn
// without replacement, so that the variance is that of a binomial or less: 10
// standard deviations.
func within(c *vt.Ctx, what string, got, want float64, n int) {
	if math.Abs(got-want) > 10*math.Sqrt(want*(1-want)/float64(n))+30/float64(n) {
		c.Failf("%s: %.5f, want %.5f (n %d)", what, got, want, n)
	}
}

type WideWindows struct {
	Dense   bool
	Dim     int
	Draws   int
	Values  string // of x
	Pattern string // where y equals x
	Data    uint64
	Seed    int64
	Free    bool
}

var patterns = []string{"first half", "second half", "even", "odd", "random half", "blocks", "low bytes", "few first", "few last", "few random", "all but few", "quarter"}

func genWideWindows(t *rapid.T) WideWindows {
	cs := WideWindows{Dense: rapid.Bool().Draw(t, "densified")}
	cs.Dim = 8 * rapid.SampledFrom([]int{10, 16, 25, 32, 40, 64, 65, 100, 125, 128, 200, 250}).Draw(t, "dim8")
	cs.Draws = 400000 / cs.Dim
	cs.Values = rapid.SampledFrom([]string{"random", "random", "ascending", "descending", "high on pattern"}).Draw(t, "values")
	cs.Pattern = rapid.SampledFrom(patterns).Draw(t, "pattern")
	cs.Data = rapid.Uint64Range(0, 1<<30).Draw(t, "data")
	cs.Seed = rapid.Int64Range(1, 1<<40).Draw(t, "seed")
	cs.Free = rapid.Bool().Draw(t, "free")
	return cs
}

func subset(pattern string, dim int, m *vt.Mix) []bool {
	in := make([]bool, dim)
	few := 1 + dim/20
	for i := range in {
		switch pattern {
		case "first half":
			in[i] = i < dim/2
		case "second half":
			in[i] = i >= dim/2
		case "even":
			in[i] = i%2 == 0
		case "odd":
			in[i] = i%2 == 1
		case "random half":
			in[i] = m.Intn(2) == 0
		case "blocks":
			in[i] = i/8%2 == 0
		case "low bytes":
			in[i] = i%256 < 128
		case "few first":
			in[i] = i < few
		case "few last":
			in[i] = i >= dim-few
		case "few random":
			in[i] = m.Intn(20) == 0
		case "all but few":
			in[i] = m.Intn(20) != 0
		case "quarter":
			in[i] = i%4 == 1
		}
	}
	return in
}

func runWideWindows(c *vt.Ctx, cs WideWindows) {
	d := cs.Dim
	per := d / 8
	n := per * cs.Draws
	m := vt.Mix(cs.Data)
	in := subset(cs.Pattern, d, &m)
	x, y := make([]float64, d), make([]float64, d)
	px, py := m.Perm(d), m.Perm(d)
	for i := range x {
		switch cs.Values {
		case "ascending":
			x[i] = float64(i + 1)
		case "descending":
			x[i] = float64(d - i)
		default:
			x[i] = float64(px[i] + 1)
		}
		if cs.Values == "high on pattern" && in[i] {
			x[i] += float64(d)
		}
		y[i] = x[i]
		if !in[i] {
			y[i] = float64(py[i]) + 0.5
		}
	}
	seed(cs.Free, cs.Seed)
	var hash func(v []float64) []int
	if cs.Dense {
		h := densified_wta_hash.New(n, d)
		hash = func(v []float64) []int { return h.GetHash(pairs(v)) }
	} else {
		h := wta_hash.New(n, d)
		hash = func(v []float64) []int { return h.GetHashDense(append([]float64(nil), v...)) }
	}
	hx, hy := hash(x), hash(y)
	want := windowCollision(x, y)
	within(c, fmt.Sprintf("codes on which the vectors agree (dimension %d)", d), agree(hx, hy), want, n)
	for name, h := range map[string][]int{"first": hx, "second": hy} {
		for code := 0; code < 8; code++ {
			k := 0
			for _, v := range h {
				if v == code {
					k++
				}
			}
			within(c, fmt.Sprintf("codes of the %s vector that are %d", name, code), float64(k)/float64(n), 1.0/8, n)
		}
	}
	for _, gap := range []int{1, 2, 3, 7, cs.Draws / 2} {
		var a, b []int
		for g := 0; g+gap < cs.Draws; g++ {
			if g/gap%2 == 0 {
				a = append(a, hx[g*per:(g+1)*per]...)
				b = append(b, hx[(g+gap)*per:(g+gap+1)*per]...)
			}
		}
		within(c, fmt.Sprintf("codes equal to those of the permutation %d further", gap), agree(a, b), 1.0/8, len(a))
	}
	// neighbouring windows of one permutation
	var a, b []int
	for g := 0; g < cs.Draws; g++ {
		for w := 0; w+1 < per; w += 2 {
			a = append(a, hx[g*per+w])
			b = append(b, hx[g*per+w+1])
		}
	}
	within(c, "codes equal to the next window's", agree(a, b), 1.0/8, len(a))
	if want > 0.02 && want < 0.98 {
		c.NonTrivial()
	}
	c.LabelIf(cs.Free, "seeded from the clock")
	c.Label("alike: " + cs.Pattern)
}

type WideSigns struct {
	Dim, Ratio, N int
	Watch         []int
	Seed          int64
	Free          bool
}

func genWideSigns(t *rapid.T) WideSigns {
	cs := WideSigns{Dim: rapid.SampledFrom([]int{64, 100, 257, 500, 1000, 1001, 2048, 4000}).Draw(t, "dim")}
	cs.Ratio = rapid.SampledFrom([]int{3, 3, 1, 2, 5, 10}).Draw(t, "ratio")
	cs.N = min(6000, 4000000/cs.Dim)
	at := map[int]bool{}
	first := rapid.IntRange(0, cs.Dim-3).Draw(t, "run")
	for _, i := range []int{0, 1, cs.Dim - 1, cs.Dim / 2, first, first + 1, first + 2} {
		at[i] = true
	}
	for i := 0; i < 9; i++ {
		at[rapid.IntRange(0, cs.Dim-1).Draw(t, "watch")] = true
	}
	for i := 0; i < cs.Dim; i++ {
		if at[i] {
			cs.Watch = append(cs.Watch, i)
		}
	}
	cs.Seed = rapid.Int64Range(1, 1<<40).Draw(t, "seed")
	cs.Free = rapid.Bool().Draw(t, "free")
	return cs
}

func runWideSigns(c *vt.Ctx, cs WideSigns) {
	seed(cs.Free, cs.Seed)
	h := sparse_random_projection.New(cs.Dim, cs.N, cs.Ratio)
	size := (cs.Dim + cs.Ratio - 1) / cs.Ratio
	// sign[w][k]: of the watched coordinate in function k; 0: not in its set
	sign := make([][]int, len(cs.Watch))
	v := make([]float64, cs.Dim)
	for w, i := range cs.Watch {
		sign[w] = make([]int, cs.N)
		v[i] = 1
		neg := h.GetHash(v)
		v[i] = -1
		pos := h.GetHash(v)
		v[i] = 0
		for k := range sign[w] {
			sign[w][k] = pos[k] - neg[k]
		}
	}
	off := func(mu float64) float64 {
		l := math.Log(2e12 * 3000)
		return math.Sqrt(2*mu*l) + l
	}
	count := func(what string, got, trials int, p float64) {
		mu := float64(trials) * p
		if math.Abs(float64(got)-mu) > off(mu) {
			c.Failf("dimension %d, sets of %d, %s: %d of %d, expected about %.1f", cs.Dim, size, what, got, trials, mu)
		}
	}
	p1 := float64(size) / float64(cs.Dim)
	p2 := p1 * float64(size-1) / float64(cs.Dim-1)
	for a := range sign {
		i := cs.Watch[a]
		pos, neg := 0, 0
		for _, s := range sign[a] {
			if s > 0 {
				pos++
			}
			if s < 0 {
				neg++
			}
		}
		count(fmt.Sprintf("functions that add coordinate %d", i), pos, cs.N, p1/2)
		count(fmt.Sprintf("functions that subtract coordinate %d", i), neg, cs.N, p1/2)
		for b := range sign {
			j := cs.Watch[b]
			if a < b {
				same, other := 0, 0
				for k := range sign[a] {
					switch sign[a][k] * sign[b][k] {
					case 1:
						same++
					case -1:
						other++
					}
				}
				count(fmt.Sprintf("functions with equal signs for coordinates %d and %d", i, j), same, cs.N, p2/2)
				count(fmt.Sprintf("functions with opposite signs for coordinates %d and %d", i, j), other, cs.N, p2/2)
			}
			for _, gap := range []int{1, 2} {
				same, other, trials := 0, 0, 0
				for k := 0; k+gap < cs.N; k++ {
					if k/gap%2 == 1 {
						continue
					}
					trials++
					switch sign[a][k] * sign[b][k+gap] {
					case 1:
						same++
					case -1:
						other++
					}
				}
				count(fmt.Sprintf("functions with the sign for coordinate %d that function %d further has for %d", i, gap, j), same, trials, p1*p1/2)
				count(fmt.Sprintf("functions with the other sign for coordinate %d that function %d further has for %d", i, gap, j), other, trials, p1*p1/2)
			}
		}
	}
	c.NonTrivial()
	c.LabelIf(cs.Free, "seeded from the clock")
}

func main() {
	vt.Main(map[string][]vt.Part{
		"C24": {
			vt.Check[WindowCase]{Name: "winner-take-all", Quick: 600, Thorough: 12000, Gen: genWindow, Run: runWindow},
			vt.Check[SignCase]{Name: "projections", Quick: 800, Thorough: 16000, Gen: genSign, Run: runSign},
			vt.Check[SetCase]{Name: "min-hash", Quick: 240, Thorough: 5000, Gen: genSet, Run: runSet},
			vt.Check[MapCase]{Name: "maps", Quick: 60, Thorough: 1500, Gen: genMap, Run: runMap},
			vt.Check[WideWindows]{Name: "wide windows", Quick: 240, Thorough: 6000, Gen: genWideWindows, Run: runWideWindows},
			vt.Check[WideSigns]{Name: "wide projections", Quick: 120, Thorough: 3000, Gen: genWideSigns, Run: runWideSigns},
		},
	})
}
