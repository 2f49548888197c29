// Check C08: densified winner-take-all hashing.
package main

import (
	"fmt"
	"github.com/nlpodyssey/goslide/densified_wta_hash"
	"github.com/nlpodyssey/goslide/index_value"
	"pgregory.net/rapid"
	"verifharness/vec"
	"verifharness/vt"
)

type Case struct {
	Dim, N   int
	Seed     int64
	Vecs     []vec.Spec
	Supports []vec.Support
	Other    int
}

func gen(t *rapid.T) Case {
	dim, n := vec.Dims(t)
	cs := Case{Dim: dim, N: n, Seed: rapid.Int64Range(1, 1<<40).Draw(t, "seed")}
	for i := rapid.IntRange(1, 3).Draw(t, "vecs"); i > 0; i-- {
		cs.Vecs = append(cs.Vecs, vec.Gen(t, "v"))
		cs.Supports = append(cs.Supports, vec.GenSupport(t))
	}
	cs.Other = rapid.IntRange(0, 20).Draw(t, "other")
	return cs
}

func run(c *vt.Ctx, cs Case) {
	vt.SeedRNG(cs.Seed)
	h := densified_wta_hash.New(cs.N, cs.Dim)
	codesOK := func(got []int) {
		if len(got) != cs.N {
			c.Failf("%d codes, want %d", len(got), cs.N)
		}
		for i, g := range got {
			if g < 0 || g > 7 {
				c.Failf("code %d is %d", i, g)
			}
		}
	}
	var buf vec.Buffer
	hash := func(v []float64) []int {
		in := buf.Floats(v)
		got := h.GetHashEasy(in, 30)
		if !vec.SameFloats(in, v) {
			c.Failf("GetHashEasy modified its input")
		}
		codesOK(got)
		return got
	}
	hashPairs := func(ps []index_value.Pair) []int {
		in := buf.Pairs(ps)
		got := h.GetHash(in)
		if !vec.SamePairs(in, ps) {
			c.Failf("GetHash modified its input")
		}
		codesOK(got)
		return got
	}

	// Learn each bin's coordinates and slots: raise one coordinate to the top
	// of two opposite rankings.
	bins := make([]map[int]int, cs.N)
	for i := range bins {
		bins[i] = map[int]int{}
	}
	if cs.Dim == 1 {
		for i, s := range hash([]float64{1}) {
			bins[i][0] = s
		}
	}
	for dir := 0; dir < 2 && cs.Dim > 1; dir++ {
		v := make([]float64, cs.Dim)
		for i := range v {
			v[i] = -float64(i) - 1
			if dir == 1 {
				v[i] = float64(i) - float64(cs.Dim)
			}
		}
		base := hash(v)
		for k := 0; k < cs.Dim; k++ {
			old := v[k]
			v[k] = 1
			for i, g := range hash(v) {
				if g != base[i] {
					if p, ok := bins[i][k]; ok && p != g {
						c.Failf("coordinate %d wins bin %d with codes %d and %d", k, i, p, g)
					}
					bins[i][k] = g
				}
			}
			v[k] = old
		}
	}
	slots := make([]int, 8*cs.N)
	for i := range slots {
		slots[i] = -1
	}
	for i, b := range bins {
		if len(b) == 0 {
			c.Failf("bin %d depends on no coordinate", i)
		}
		for k, s := range b {
			if slots[8*i+s] >= 0 {
				c.Failf("coordinates %d and %d both occupy position %d of bin %d", slots[8*i+s], k, s, i)
			}
			slots[8*i+s] = k
		}
	}
	vec.CheckWindows(c, slots, cs.Dim)

	// check compares codes with the winners among the present coordinates and the probe sequences.
	check := func(what string, got []int, present []bool, v []float64) {
		filled := make([]bool, cs.N)
		for i, b := range bins {
			best := -1
			for k := range b {
				if present[k] && (best < 0 || v[k] > v[best]) {
					best = k
				}
			}
			if best < 0 {
				continue
			}
			filled[i] = true
			k := slots[8*i+got[i]]
			if k < 0 || !present[k] || v[k] != v[best] {
				c.Failf("%s: code %d is %d, whose coordinate %d is not the largest present one of the bin (%d at position %d)",
					what, i, got[i], k, best, b[best])
			}
		}
		empty, borrowed := 0, 0
		for i := range filled {
			if filled[i] {
				continue
			}
			empty++
			found := -1
			for count := 1; count <= 100 && found < 0; count++ {
				p := h.GetRandDoubleHash(i, count)
				if p < 0 || p >= cs.N {
					c.Failf("probe %d of bin %d names bin %d of %d", count, i, p, cs.N)
				}
				if filled[p] {
					found = p
				}
			}
			if found >= 0 {
				borrowed++
				if got[i] != got[found] {
					c.Failf("%s: empty bin %d has code %d, the first non-empty bin on its probe sequence (%d) has %d", what, i, got[i], found, got[found])
				}
			} else if got[i] != 0 {
				// a longer search may find one
				any := false
				for j := range filled {
					any = any || (filled[j] && got[j] == got[i])
				}
				if !any {
					c.Failf("%s: empty bin %d has code %d which is no non-empty bin's", what, i, got[i])
				}
			}
		}
		c.LabelIf(borrowed > 0, "empty bin borrowed")
		c.LabelIf(empty > borrowed, "no probe found a bin")
		if borrowed > 0 && cs.N >= 4 {
			c.NonTrivial()
		}
	}

	all := make([]bool, cs.Dim)
	for i := range all {
		all[i] = true
	}
	var results, wants [][]int
	for vi, spec := range cs.Vecs {
		v := spec.At(cs.Dim)
		if cs.Other > 0 && vi == 1 {
			o := densified_wta_hash.New(cs.Other, cs.Dim)
			o.GetHashEasy(v, 30)
		}
		got := hash(v)
		check("dense "+spec.Kind, got, all, v)

		ps := cs.Supports[vi].Pairs(v)
		present := make([]bool, cs.Dim)
		seen := map[float64]bool{}
		ties := false
		for _, p := range ps {
			present[p.Index] = true
			ties = ties || seen[p.Value]
			seen[p.Value] = true
		}
		sg := hashPairs(ps)
		check("pairs "+spec.Kind, sg, present, v)
		if !ties {
			if g := hashPairs(vec.Reorder(ps, cs.Supports[vi].Seed+1)); !vec.EqInts(g, sg) {
				c.Failf("vector %d (%s): codes depend on the order of the pairs", vi, spec.Kind)
			}
		}
		full := make([]index_value.Pair, cs.Dim)
		for i := range v {
			full[i] = index_value.Pair{Index: i, Value: v[i]}
		}
		if g := hashPairs(full); !vec.EqInts(g, got) {
			c.Failf("vector %d (%s): dense codes %v, codes of the pairs of all coordinates %v", vi, spec.Kind, got, g)
		}
		c.Label("vector " + spec.Kind)
		c.LabelIf(len(ps) == 0, "no coordinate present")
		results = append(results, got, sg)
		wants = append(wants, append([]int(nil), got...), append([]int(nil), sg...))
	}
	for i := range results {
		if !vec.EqInts(results[i], wants[i]) {
			c.Failf("codes returned earlier were changed by later calls")
		}
	}
	for vi, spec := range cs.Vecs {
		v := spec.At(cs.Dim)
		if g := hash(v); !vec.EqInts(g, wants[2*vi]) {
			c.Failf("vector %d: codes differ on a later call", vi)
		}
		if g := hashPairs(cs.Supports[vi].Pairs(v)); !vec.EqInts(g, wants[2*vi+1]) {
			c.Failf("vector %d: codes of pairs differ on a later call", vi)
		}
	}
	c.LabelIf(cs.Dim < 8, "dimension below the bin size")
}

// ---------------------------------------------------------------- probe sequences

type Probes struct {
	N, Dim int
	Seed   int64
}

func genProbes(t *rapid.T) Probes {
	dim, n := vec.Dims(t)
	if rapid.IntRange(0, 19).Draw(t, "many") == 0 {
		n = rapid.SampledFrom([]int{1000, 1023, 1024, 1025, 4096, 5000}).Draw(t, "n")
	}
	return Probes{max(n, 8), dim, rapid.Int64Range(1, 1<<40).Draw(t, "seed")}
}

// runProbes: the probe sequences reach many bins (they are pseudo-random) and stay the same.
func runProbes(c *vt.Ctx, cs Probes) {
	vt.SeedRNG(cs.Seed)
	const hashers = 12
	reach, apart, wide := 0, 0, 0
	first := map[string]bool{}
	for k := 0; k < hashers; k++ {
		h := densified_wta_hash.New(cs.N, cs.Dim)
		seen := map[int]bool{}
		sequences := map[string]bool{}
		each := 0
		for b := 0; b < cs.N; b++ {
			var start []int
			own := map[int]bool{}
			for count := 1; count <= 100; count++ {
				p := h.GetRandDoubleHash(b, count)
				if p < 0 || p >= cs.N {
					c.Failf("probe %d of bin %d names bin %d of %d", count, b, p, cs.N)
				}
				if q := h.GetRandDoubleHash(b, count); q != p {
					c.Failf("probe %d of bin %d is %d, then %d", count, b, p, q)
				}
				seen[p] = true
				own[p] = true
				if count <= 60 {
					start = append(start, p)
				}
			}
			each += len(own)
			sequences[fmt.Sprint(start)] = true
			if b == 0 {
				first[fmt.Sprint(start)] = true
			}
		}
		if 8*len(sequences) >= 5*cs.N {
			apart++
		}
		if 4*len(seen) >= cs.N {
			reach++
		}
		if 5*each >= cs.N*min(cs.N, 100) {
			wide++
		}
	}
	if reach < hashers/2 {
		c.Failf("only %d of %d hashers have probe sequences that reach a quarter of their %d bins", reach, hashers, cs.N)
	}
	if wide < hashers/2 {
		c.Failf("only in %d of %d hashers do the probes of one bin reach many of the %d bins", wide, hashers, cs.N)
	}
	if apart < hashers/2 {
		c.Failf("only in %d of %d hashers do the %d bins have probe sequences of their own", apart, hashers, cs.N)
	}
	if len(first) < hashers/2 {
		c.Failf("bin 0 has only %d different probe sequences over %d hashers", len(first), hashers)
	}
	c.NonTrivial()
}

// ---------------------------------------------------------------- wide vectors

type Wide struct {
	Dim, N  int
	Seed    int64
	Watch   int
	Coords  uint64
	Vectors int
}

func genWide(t *rapid.T) Wide {
	cs := Wide{Dim: vec.WideDim(t), Seed: rapid.Int64Range(1, 1<<40).Draw(t, "seed"), Watch: rapid.IntRange(60, 240).Draw(t, "watch"),
		Coords: rapid.Uint64Range(0, 1<<40).Draw(t, "coords"), Vectors: rapid.IntRange(1, 4).Draw(t, "vectors")}
	switch rapid.IntRange(0, 3).Draw(t, "nclass") {
	case 0:
		cs.N = rapid.IntRange(20, 1000).Draw(t, "n")
	case 1:
		cs.N = cs.Dim/8 + rapid.IntRange(-1, 2).Draw(t, "n")
	default:
		cs.N = rapid.IntRange(1000, 12000).Draw(t, "n")
	}
	return cs
}

func genVast(t *rapid.T) Wide {
	cs := genWide(t)
	cs.Dim = vec.VastDim(t)
	cs.Watch = rapid.IntRange(80, 160).Draw(t, "vastwatch")
	cs.N = rapid.OneOf(rapid.IntRange(cs.Dim/80, cs.Dim/16), rapid.IntRange(20, 1000), rapid.Just(cs.Dim/8)).Draw(t, "vastn")
	cs.Vectors = 2
	return cs
}

// runWide learns where a sample of the coordinates sits in the bins.
func runWide(c *vt.Ctx, cs Wide) {
	vt.SeedRNG(cs.Seed)
	h := densified_wta_hash.New(cs.N, cs.Dim)
	watched := vec.Watched(cs.Dim, cs.Watch, cs.Coords)
	bins := make([]map[int]int, cs.N)
	counts := map[int]int{}
	for dir := 0; dir < 2; dir++ {
		v := make([]float64, cs.Dim)
		for i := range v {
			v[i] = -float64(i) - 1
			if dir == 1 {
				v[i] = float64(i) - float64(cs.Dim)
			}
		}
		base := h.GetHashEasy(v, 30)
		for _, k := range watched {
			old := v[k]
			v[k] = 1
			for i, g := range h.GetHashEasy(v, 30) {
				if g != base[i] {
					if bins[i] == nil {
						bins[i] = map[int]int{}
					}
					if p, ok := bins[i][k]; ok {
						if p != g {
							c.Failf("coordinate %d wins bin %d with codes %d and %d", k, i, p, g)
						}
						continue
					}
					bins[i][k] = g
					counts[k]++
				}
			}
			v[k] = old
		}
	}
	for i, b := range bins {
		at := map[int]bool{}
		for k, s := range b {
			if s < 0 || s > 7 || at[s] {
				c.Failf("bin %d: coordinate %d at position %d", i, k, s)
			}
			at[s] = true
		}
	}
	vec.CheckAppearances(c, counts, watched, cs.Dim, cs.N)
	m := vt.Mix(cs.Coords + 1)
	borrowed := 0
	for x := 0; x < cs.Vectors; x++ {
		var ps []index_value.Pair
		v := make([]float64, cs.Dim)
		for i := range v {
			v[i] = -m.Float()
		}
		for _, k := range watched {
			if m.Intn(4) > 0 {
				v[k] = m.Float() + 0.001
				ps = append(ps, index_value.Pair{Index: k, Value: v[k]})
			}
		}
		ps = vec.Reorder(ps, cs.Coords+uint64(x))
		got := h.GetHashEasy(v, 30)
		sparse := h.GetHash(ps)
		if len(got) != cs.N || len(sparse) != cs.N {
			c.Failf("%d and %d codes, want %d", len(got), len(sparse), cs.N)
		}
		filled := make([]bool, cs.N)
		for i, b := range bins {
			best := -1
			for k := range b {
				if v[k] > 0 && (best < 0 || v[k] > v[best]) {
					best = k
				}
			}
			if best < 0 {
				continue
			}
			filled[i] = true
			if got[i] != b[best] || sparse[i] != b[best] {
				c.Failf("code %d is %d (dense) and %d (pairs), coordinate %d wins at position %d", i, got[i], sparse[i], best, b[best])
			}
		}
		for i := range filled {
			for count := 1; !filled[i] && count <= 100; count++ {
				p := h.GetRandDoubleHash(i, count)
				if p < 0 || p >= cs.N {
					c.Failf("probe %d of bin %d names bin %d of %d", count, i, p, cs.N)
				}
				if filled[p] {
					if sparse[i] != sparse[p] {
						c.Failf("empty bin %d has code %d, the first non-empty bin on its probe sequence (%d) has %d", i, sparse[i], p, sparse[p])
					}
					borrowed++
					break
				}
			}
		}
	}
	if borrowed > 0 {
		c.NonTrivial()
	}
	c.LabelIf(cs.Dim > 65536, "dimension above 65536")
	c.LabelIf(cs.Dim > 524288, "dimension above 524288")
}

func main() {
	vt.Main(map[string][]vt.Part{
		"C08": {
			vt.Check[Case]{Name: "dwta", Quick: 12000, Thorough: 300000, Gen: gen, Run: run},
			vt.Check[Probes]{Name: "probes", Quick: 400, Thorough: 8000, Gen: genProbes, Run: runProbes},
			vt.Check[Wide]{Name: "wide", Quick: 80, Thorough: 3000, Gen: genWide, Run: runWide},
			vt.Check[Wide]{Name: "vast", Quick: 16, Thorough: 500, Gen: genVast, Run: runWide},
		},
	})
}
