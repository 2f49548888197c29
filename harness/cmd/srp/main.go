// Check C10: sparse random projection hashing.
package main

import (
	"math"

	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/sparse_random_projection"
	"pgregory.net/rapid"
	"verifharness/vec"
	"verifharness/vt"
)

type Case struct {
	Dim, N, Ratio int
	Seed          int64
	Vecs          []vec.Spec
	Support       vec.Support
	Scale         vt.F
	Other         int
}

func gen(t *rapid.T) Case {
	dim, n := vec.Dims(t)
	cs := Case{Dim: dim, N: n, Seed: rapid.Int64Range(1, 1<<40).Draw(t, "seed")}
	cs.Ratio = rapid.SampledFrom([]int{3, 3, 1, 2, 4, 5, 7, 10, 32, 50}).Draw(t, "ratio")
	for i := rapid.IntRange(1, 4).Draw(t, "vecs"); i > 0; i-- {
		cs.Vecs = append(cs.Vecs, vec.Gen(t, "v"))
	}
	cs.Support = vec.GenSupport(t)
	cs.Scale = vt.F(rapid.SampledFrom([]float64{0.5, 2, 1024, 0.0009765625}).Draw(t, "scale"))
	cs.Other = rapid.IntRange(0, 20).Draw(t, "other")
	return cs
}

func run(c *vt.Ctx, cs Case) {
	vt.SeedRNG(cs.Seed)
	h := sparse_random_projection.New(cs.Dim, cs.N, cs.Ratio)
	codesOK := func(got []int) {
		if len(got) != cs.N {
			c.Failf("%d codes, want %d", len(got), cs.N)
		}
		for i, g := range got {
			if g != 0 && g != 1 {
				c.Failf("code %d is %d", i, g)
			}
		}
	}
	var buf vec.Buffer
	hash := func(v []float64) []int {
		in := buf.Floats(v)
		got := h.GetHash(in)
		if !vec.SameFloats(in, v) {
			c.Failf("GetHash modified its input")
		}
		codesOK(got)
		return got
	}
	hashPairs := func(ps []index_value.Pair) []int {
		in := buf.Pairs(ps)
		got := h.GetHashSparse(in)
		if !vec.SamePairs(in, ps) {
			c.Failf("GetHashSparse modified its input")
		}
		codesOK(got)
		return got
	}

	// Learn the projections.
	sign := make([][]float64, cs.N)
	for i := range sign {
		sign[i] = make([]float64, cs.Dim)
	}
	probe := make([]float64, cs.Dim)
	for i, g := range hash(probe) {
		if g != 0 {
			c.Failf("code %d of the zero vector is %d", i, g)
		}
	}
	plus, minus := 0, 0
	for k := 0; k < cs.Dim; k++ {
		probe[k] = 1
		up := hash(probe)
		probe[k] = -1
		down := hash(probe)
		probe[k] = 0
		for i := range sign {
			switch {
			case up[i] == 1 && down[i] == 1:
				c.Failf("projection %d: coordinate %d is negative both ways", i, k)
			case up[i] == 1:
				sign[i][k] = -1
				minus++
			case down[i] == 1:
				sign[i][k] = 1
				plus++
			}
		}
	}
	want := (cs.Dim + cs.Ratio - 1) / cs.Ratio
	for i := range sign {
		n := 0
		for _, s := range sign[i] {
			if s != 0 {
				n++
			}
		}
		if n != want {
			c.Failf("projection %d uses %d coordinates, want %d of %d", i, n, want, cs.Dim)
		}
	}
	// both signs occur (a one-in-2^40 event otherwise)
	if plus+minus >= 40 && (plus == 0 || minus == 0) {
		c.Failf("all %d projection signs are equal", plus+minus)
	}

	// predict returns 0, 1 or -1 (too close to call in floating point).
	predict := func(i int, v []float64, exact bool) int {
		s, a := 0.0, 0.0
		for k, sg := range sign[i] {
			s += sg * v[k]
			a += math.Abs(sg * v[k])
		}
		if !exact && math.Abs(s) <= 1e-12*a {
			if a == 0 {
				return 0
			}
			return -1
		}
		if s >= 0 {
			return 0
		}
		return 1
	}
	checkCodes := func(what string, got []int, v []float64, exact bool) (unsure bool) {
		ones := 0
		for i, g := range got {
			p := predict(i, v, exact)
			ones += g
			if p < 0 {
				unsure = true
				continue
			}
			if p != g {
				c.Failf("%s: code %d is %d, the projection says %d", what, i, g, p)
			}
		}
		if ones > 0 && ones < cs.N {
			c.NonTrivial()
		}
		return unsure
	}

	var results, wants [][]int
	for vi, spec := range cs.Vecs {
		v := spec.At(cs.Dim)
		exact := spec.Kind == "small-ints" || spec.Kind == "constant" || spec.Kind == "one-hot" || spec.Kind == "one-cold"
		if cs.Other > 0 && vi == 1 {
			o := sparse_random_projection.New(cs.Dim, cs.Other, cs.Ratio)
			o.GetHash(v)
		}
		got := hash(v)
		unsure := checkCodes("dense "+spec.Kind, got, v, exact)
		if !unsure && spec.Kind != "tiny" {
			w := make([]float64, cs.Dim)
			for i := range w {
				w[i] = v[i] * float64(cs.Scale)
			}
			if g := hash(w); !vec.EqInts(g, got) {
				c.Failf("vector %d (%s): codes change when multiplied by %v", vi, spec.Kind, cs.Scale)
			}
		}
		ps := cs.Support.Pairs(v)
		dense := vec.Dense(ps, cs.Dim)
		sg := hashPairs(ps)
		unsure = checkCodes("pairs "+spec.Kind, sg, dense, exact)
		if !unsure {
			if g := hashPairs(vec.Reorder(ps, cs.Support.Seed+1)); !vec.EqInts(g, sg) {
				c.Failf("vector %d (%s): codes depend on the order of the pairs", vi, spec.Kind)
			}
			if g := hash(dense); !vec.EqInts(g, sg) {
				c.Failf("vector %d (%s): the dense and the pair form disagree", vi, spec.Kind)
			}
		}
		c.LabelIf(exact, "exact sums, ties included")
		c.LabelIf(len(ps) > 1 && cs.Support.Order != "ascending", "unordered pairs")
		c.LabelIf(unsure, "some sums too close to call")
		c.Label("vector " + spec.Kind)
		results = append(results, got, sg)
		wants = append(wants, append([]int(nil), got...), append([]int(nil), sg...))
	}
	for i := range results {
		if !vec.EqInts(results[i], wants[i]) {
			c.Failf("codes returned earlier were changed by later calls")
		}
	}
	for vi, spec := range cs.Vecs {
		if g := hash(spec.At(cs.Dim)); !vec.EqInts(g, wants[2*vi]) {
			c.Failf("vector %d: codes differ on a later call", vi)
		}
	}
}

// ---------------------------------------------------------------- wide vectors

type Wide struct {
	Dim, N, Ratio int
	Seed          int64
	Watch         int
	Coords        uint64
	Vectors       int
}

func genWide(t *rapid.T) Wide {
	return Wide{Dim: vec.WideDim(t), N: rapid.IntRange(4, 40).Draw(t, "n"), Ratio: rapid.SampledFrom([]int{32, 32, 3, 1, 100}).Draw(t, "ratio"),
		Seed: rapid.Int64Range(1, 1<<40).Draw(t, "seed"), Watch: rapid.IntRange(60, 300).Draw(t, "watch"),
		Coords: rapid.Uint64Range(0, 1<<40).Draw(t, "coords"), Vectors: rapid.IntRange(1, 4).Draw(t, "vectors")}
}

func genVast(t *rapid.T) Wide {
	cs := genWide(t)
	cs.Dim = vec.VastDim(t)
	cs.N = rapid.IntRange(2, 12).Draw(t, "vastn")
	cs.Vectors = 1
	return cs
}

// runWide learns the signs of a sample of the coordinates.
func runWide(c *vt.Ctx, cs Wide) {
	vt.SeedRNG(cs.Seed)
	h := sparse_random_projection.New(cs.Dim, cs.N, cs.Ratio)
	watched := vec.Watched(cs.Dim, cs.Watch, cs.Coords)
	sign := make([]map[int]float64, cs.N)
	for i := range sign {
		sign[i] = map[int]float64{}
	}
	used, plus := 0, 0
	for _, k := range watched {
		up := h.GetHashSparse([]index_value.Pair{{Index: k, Value: 1}})
		down := h.GetHashSparse([]index_value.Pair{{Index: k, Value: -1}})
		for i := range sign {
			if up[i] == 1 && down[i] == 1 {
				c.Failf("projection %d: coordinate %d is negative both ways", i, k)
			}
			if s := float64(down[i] - up[i]); s != 0 {
				sign[i][k] = s
				used++
				if s > 0 {
					plus++
				}
			}
		}
	}
	size := (cs.Dim + cs.Ratio - 1) / cs.Ratio
	vec.CheckShare(c, "watched coordinates in the projections", used, len(watched)*cs.N, float64(size)/float64(cs.Dim))
	vec.CheckShare(c, "positive signs", plus, used, 0.5)
	m := vt.Mix(cs.Coords + 1)
	ones := 0
	for x := 0; x < cs.Vectors; x++ {
		var ps []index_value.Pair
		v := make([]float64, cs.Dim)
		for _, k := range watched {
			if m.Intn(4) > 0 {
				v[k] = float64(m.Intn(2001) - 1000) // sums are exact
				ps = append(ps, index_value.Pair{Index: k, Value: v[k]})
			}
		}
		sparse := h.GetHashSparse(vec.Reorder(ps, cs.Coords+uint64(x)))
		got := h.GetHash(v)
		if len(got) != cs.N || len(sparse) != cs.N {
			c.Failf("%d and %d codes, want %d", len(got), len(sparse), cs.N)
		}
		for i := range sign {
			s := 0.0
			for k, sg := range sign[i] {
				s += sg * v[k]
			}
			want := 0
			if s < 0 {
				want = 1
			}
			ones += want
			if got[i] != want || sparse[i] != want {
				c.Failf("code %d is %d (dense) and %d (pairs), the signed sum is %v", i, got[i], sparse[i], s)
			}
		}
		// the coordinates that are not watched count too: size of the sets
		for i := range v {
			v[i] = m.Norm()
		}
		full := make([]index_value.Pair, cs.Dim)
		for i := range v {
			full[i] = index_value.Pair{Index: i, Value: v[i]}
		}
		// the same order of summation or not, only sums next to zero may differ
		diff := 0
		a, b := h.GetHash(v), h.GetHashSparse(full)
		for i := range a {
			if a[i] != b[i] {
				diff++
			}
		}
		if diff > 1 {
			c.Failf("%d of %d codes differ between the dense and the pair form", diff, cs.N)
		}
	}
	if ones > 0 && used > 0 {
		c.NonTrivial()
	}
	c.LabelIf(cs.Dim > 65536, "dimension above 65536")
	c.LabelIf(cs.Dim > 524288, "dimension above 524288")
}

func main() {
	vt.Main(map[string][]vt.Part{
		"C10": {vt.Check[Case]{Name: "srp", Quick: 16000, Thorough: 400000, Gen: gen, Run: run},
			vt.Check[Wide]{Name: "wide", Quick: 80, Thorough: 4000, Gen: genWide, Run: runWide},
			vt.Check[Wide]{Name: "vast", Quick: 16, Thorough: 500, Gen: genVast, Run: runWide}},
	})
}
