// Check C07: winner-take-all hashing.
package main

import (
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/wta_hash"
	"pgregory.net/rapid"
	"verifharness/vec"
	"verifharness/vt"
)

type Case struct {
	Dim, N  int
	Seed    int64
	Vecs    []vec.Spec
	Support vec.Support
	Scale   vt.F
	Other   int // codes of a second hasher built in between
}

func gen(t *rapid.T) Case {
	dim, n := vec.Dims(t)
	cs := Case{Dim: dim, N: n, Seed: rapid.Int64Range(1, 1<<40).Draw(t, "seed")}
	for i := rapid.IntRange(1, 4).Draw(t, "vecs"); i > 0; i-- {
		cs.Vecs = append(cs.Vecs, vec.Gen(t, "v"))
	}
	cs.Support = vec.GenSupport(t)
	cs.Scale = vt.F(rapid.SampledFrom([]float64{0.5, 2, 1024, 0.0009765625}).Draw(t, "scale"))
	cs.Other = rapid.IntRange(0, 20).Draw(t, "other")
	return cs
}

// first returns the first largest value's slot of a window of first occurrences.
func predict(win map[int]int, v []float64) int {
	best, slot := -1, 8
	for c, s := range win {
		if best < 0 || v[c] > v[best] || (v[c] == v[best] && s < slot) {
			best, slot = c, s
		}
	}
	return slot
}

func run(c *vt.Ctx, cs Case) {
	vt.SeedRNG(cs.Seed)
	h := wta_hash.New(cs.N, cs.Dim)
	var buf vec.Buffer
	hash := func(v []float64) []int {
		in := buf.Floats(v)
		got := h.GetHashDense(in)
		if !vec.SameFloats(in, v) {
			c.Failf("GetHashDense modified its input")
		}
		if len(got) != cs.N {
			c.Failf("%d codes, want %d", len(got), cs.N)
		}
		for i, g := range got {
			if g < 0 || g > 7 {
				c.Failf("code %d is %d", i, g)
			}
		}
		return got
	}

	// Learn the windows: wins[i] maps a coordinate to its first slot in window i.
	wins := make([]map[int]int, cs.N)
	for i := range wins {
		wins[i] = map[int]int{}
	}
	probe := make([]float64, cs.Dim)
	base := hash(probe)
	for i, b := range base {
		if b != 0 {
			c.Failf("code %d of a constant vector is %d, want the first position", i, b)
		}
	}
	for k := 0; k < cs.Dim; k++ {
		probe[k] = 1
		up := hash(probe)
		probe[k] = -1
		down := hash(probe)
		probe[k] = 0
		for i := range wins {
			if up[i] != 0 {
				wins[i][k] = up[i]
			} else if down[i] != 0 || cs.Dim == 1 {
				wins[i][k] = 0
			}
		}
	}
	slots := make([]int, 8*cs.N)
	for i := range slots {
		slots[i] = -1
	}
	for i, w := range wins {
		for k, s := range w {
			if slots[8*i+s] >= 0 {
				c.Failf("coordinates %d and %d both occupy position %d of window %d", slots[8*i+s], k, s, i)
			}
			slots[8*i+s] = k
		}
		if len(w) == 0 {
			c.Failf("window %d depends on no coordinate", i)
		}
	}
	vec.CheckWindows(c, slots, cs.Dim)

	var results [][]int
	var wants [][]int
	for vi, spec := range cs.Vecs {
		v := spec.At(cs.Dim)
		if cs.Other > 0 && vi == 1 {
			o := wta_hash.New(cs.Other, cs.Dim)
			o.GetHashDense(v)
		}
		got := hash(v)
		want := make([]int, cs.N)
		distinct := map[int]bool{}
		for i := range want {
			want[i] = predict(wins[i], v)
			distinct[want[i]] = true
			if got[i] != want[i] {
				c.Failf("vector %d (%s): code %d is %d, the largest value of its window is first at %d", vi, spec.Kind, i, got[i], want[i])
			}
		}
		if len(distinct) > 2 && cs.Dim >= 8 {
			c.NonTrivial()
		}
		c.Label("vector " + spec.Kind)

		// scale and offset do not matter
		w := make([]float64, cs.Dim)
		for i := range w {
			w[i] = v[i] * float64(cs.Scale)
		}
		if spec.Kind != "tiny" {
			if g := hash(w); !vec.EqInts(g, want) {
				c.Failf("codes change when the vector is multiplied by %v", cs.Scale)
			}
		}

		// pairs
		ps := cs.Support.Pairs(v)
		keep := vec.ClonePairs(ps)
		dense := vec.Dense(ps, cs.Dim)
		in := buf.Pairs(ps)
		sg := h.GetHash(in)
		if !vec.SamePairs(in, keep) {
			c.Failf("GetHash modified its input")
		}
		if len(sg) != cs.N {
			c.Failf("%d codes of pairs, want %d", len(sg), cs.N)
		}
		for i := range sg {
			if p := predict(wins[i], dense); sg[i] != p {
				c.Failf("vector %d (%s) as %d of %d pairs: code %d is %d, want %d", vi, spec.Kind, len(ps), cs.Dim, i, sg[i], p)
			}
		}
		if g := h.GetHash(buf.Pairs(vec.Reorder(ps, cs.Support.Seed+1))); !vec.EqInts(g, sg) {
			c.Failf("vector %d: codes depend on the order of the pairs", vi)
		}
		c.LabelIf(len(ps) < cs.Dim && len(ps) > 0, "absent coordinates")
		results = append(results, got, sg)
		wants = append(wants, append([]int(nil), got...), append([]int(nil), sg...))
	}
	for i := range results {
		if !vec.EqInts(results[i], wants[i]) {
			c.Failf("codes returned earlier were changed by later calls")
		}
	}
	for vi, spec := range cs.Vecs {
		if g := hash(spec.At(cs.Dim)); !vec.EqInts(g, wants[2*vi]) {
			c.Failf("vector %d: codes differ on a later call", vi)
		}
	}
	c.LabelIf(cs.Dim < 8, "dimension below the window")
	c.LabelIf(cs.Dim > 64, "dimension above 64")
}

// ---------------------------------------------------------------- wide vectors

type Wide struct {
	Dim, N  int
	Seed    int64
	Watch   int
	Coords  uint64
	Vectors int
}

func genWide(t *rapid.T) Wide {
	cs := Wide{Dim: vec.WideDim(t), Seed: rapid.Int64Range(1, 1<<40).Draw(t, "seed"), Watch: rapid.IntRange(60, 240).Draw(t, "watch"),
		Coords: rapid.Uint64Range(0, 1<<40).Draw(t, "coords"), Vectors: rapid.IntRange(1, 4).Draw(t, "vectors")}
	switch rapid.IntRange(0, 3).Draw(t, "nclass") {
	case 0:
		cs.N = rapid.IntRange(100, 1000).Draw(t, "n")
	case 1:
		cs.N = cs.Dim/8 + rapid.IntRange(-1, 2).Draw(t, "n")
	default:
		cs.N = rapid.IntRange(1000, 12000).Draw(t, "n")
	}
	return cs
}

func genVast(t *rapid.T) Wide {
	cs := genWide(t)
	cs.Dim = vec.VastDim(t)
	cs.N = rapid.OneOf(rapid.IntRange(cs.Dim/80, cs.Dim/16), rapid.IntRange(100, 1000), rapid.Just(cs.Dim/8)).Draw(t, "vastn")
	cs.Watch = rapid.IntRange(80, 160).Draw(t, "vastwatch")
	cs.Vectors = 2
	return cs
}

// runWide learns where a sample of the coordinates sits in the windows.
func runWide(c *vt.Ctx, cs Wide) {
	vt.SeedRNG(cs.Seed)
	h := wta_hash.New(cs.N, cs.Dim)
	watched := vec.Watched(cs.Dim, cs.Watch, cs.Coords)
	wins := make([]map[int]int, cs.N)
	counts := map[int]int{}
	probe := make([]float64, cs.Dim)
	for i := range probe {
		probe[i] = -1
	}
	for _, k := range watched {
		probe[k] = 1
		up := h.GetHashDense(probe)
		probe[k] = -2
		down := h.GetHashDense(probe)
		probe[k] = -1
		for i := range up {
			if up[i] != 0 || down[i] != 0 {
				if wins[i] == nil {
					wins[i] = map[int]int{}
				}
				wins[i][k] = up[i]
				counts[k]++
			}
		}
	}
	for i, w := range wins {
		at := map[int]bool{}
		for k, s := range w {
			if s < 0 || s > 7 || at[s] {
				c.Failf("window %d: coordinate %d at position %d", i, k, s)
			}
			at[s] = true
		}
	}
	vec.CheckAppearances(c, counts, watched, cs.Dim, cs.N)
	m := vt.Mix(cs.Coords + 1)
	contested := 0
	for x := 0; x < cs.Vectors; x++ {
		var ps []index_value.Pair
		v := make([]float64, cs.Dim)
		for i := range v {
			v[i] = -m.Float()
		}
		for _, k := range watched {
			if m.Intn(4) > 0 {
				v[k] = m.Float() + 0.001
				ps = append(ps, index_value.Pair{Index: k, Value: v[k]})
			}
		}
		got := h.GetHashDense(v)
		sparse := h.GetHash(ps)
		if len(got) != cs.N || len(sparse) != cs.N {
			c.Failf("%d and %d codes, want %d", len(got), len(sparse), cs.N)
		}
		for i, w := range wins {
			best, rivals := -1, 0
			for k := range w {
				if v[k] > 0 {
					rivals++
					if best < 0 || v[k] > v[best] {
						best = k
					}
				}
			}
			if best < 0 {
				if sparse[i] != 0 {
					c.Failf("code %d of the pairs is %d, no coordinate of the window is present", i, sparse[i])
				}
				continue
			}
			if rivals > 1 {
				contested++
			}
			if got[i] != w[best] || sparse[i] != w[best] {
				c.Failf("code %d is %d (dense) and %d (pairs), coordinate %d wins at position %d", i, got[i], sparse[i], best, w[best])
			}
		}
	}
	if contested > 0 {
		c.NonTrivial()
	}
	c.LabelIf(cs.Dim > 65536, "dimension above 65536")
	c.LabelIf(cs.Dim > 524288, "dimension above 524288")
}

func main() {
	vt.Main(map[string][]vt.Part{
		"C07": {vt.Check[Case]{Name: "wta", Quick: 16000, Thorough: 400000, Gen: gen, Run: run},
			vt.Check[Wide]{Name: "wide", Quick: 80, Thorough: 3000, Gen: genWide, Run: runWide},
			vt.Check[Wide]{Name: "vast", Quick: 16, Thorough: 500, Gen: genVast, Run: runWide}},
	})
}
