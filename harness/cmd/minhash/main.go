// Check C09: densified min-hashing.
package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/nlpodyssey/goslide/densified_minhash"
	"github.com/nlpodyssey/goslide/index_value"
	"pgregory.net/rapid"
	"verifharness/vec"
	"verifharness/vt"
)

type Case struct {
	Dim, N   int
	RangePow int // of the hasher: usually the dimension
	Len      int // length of the map and the vectors
	Seed     int64
	Vecs     []vec.Spec
	Supports []vec.Support
	TopK     int
	OwnMap   uint64 // 0: the hasher's map; else a drawn coordinate-to-bin map
	Other    int
}

func gen(t *rapid.T) Case {
	dim, n := vec.Dims(t)
	cs := Case{Dim: dim, N: n, RangePow: dim, Len: dim, Seed: rapid.Int64Range(1, 1<<40).Draw(t, "seed")}
	if rapid.IntRange(0, 3).Draw(t, "maplen") == 0 {
		cs.Len = rapid.IntRange(1, 200).Draw(t, "len")
	}
	for i := rapid.IntRange(1, 3).Draw(t, "vecs"); i > 0; i-- {
		cs.Vecs = append(cs.Vecs, vec.GenDistinct(t, "v"))
		cs.Supports = append(cs.Supports, vec.GenSupport(t))
	}
	cs.TopK = rapid.SampledFrom([]int{30, 30, 30, 1, 2, 3, 5, 10, 50, 100}).Draw(t, "topk")
	if rapid.IntRange(0, 2).Draw(t, "ownmap") == 0 {
		cs.OwnMap = rapid.Uint64Range(1, 1<<30).Draw(t, "ownmapseed")
	}
	cs.Other = rapid.IntRange(0, 20).Draw(t, "other")
	return cs
}

// genWide makes inputs of the size real data sets have.
func genWide(t *rapid.T) Case {
	dim := vec.WideDim(t)
	cs := Case{Dim: dim, N: rapid.IntRange(1, 400).Draw(t, "n"), RangePow: dim, Len: dim, Seed: rapid.Int64Range(1, 1<<40).Draw(t, "seed")}
	s := vec.GenSupport(t)
	s.Percent = rapid.SampledFrom([]int{100, 20, -1, -5, -30, -31, -200, -2000}).Draw(t, "widesupport")
	cs.Vecs, cs.Supports = []vec.Spec{vec.GenDistinct(t, "v")}, []vec.Support{s}
	cs.TopK = rapid.SampledFrom([]int{30, 30, 1, 100, 1000}).Draw(t, "topk")
	if rapid.Bool().Draw(t, "ownmap") {
		cs.OwnMap = rapid.Uint64Range(1, 1<<30).Draw(t, "ownmapseed")
	}
	return cs
}

func genVast(t *rapid.T) Case {
	cs := genWide(t)
	cs.Dim = vec.VastDim(t)
	cs.RangePow, cs.Len = cs.Dim, cs.Dim
	return cs
}

func run(c *vt.Ctx, cs Case) {
	vt.SeedRNG(cs.Seed)
	h := densified_minhash.New(cs.N, cs.RangePow)
	bins := h.GetMap(cs.Len)
	checkMap := func(m []int, n int) {
		if len(m) != n {
			c.Failf("the map for %d coordinates has %d entries", n, len(m))
		}
		for i, b := range m {
			if b < 0 || b >= cs.N {
				c.Failf("coordinate %d is mapped to bin %d of %d (dimension %d)", i, b, cs.N, cs.RangePow)
			}
			if i < cs.Len && b != bins[i] {
				c.Failf("coordinate %d is mapped to bin %d, then to bin %d", i, bins[i], b)
			}
		}
	}
	checkMap(bins, cs.Len)
	checkMap(h.GetMap(cs.Len/2), cs.Len/2)
	checkMap(h.GetMap(2*cs.Len+3), 2*cs.Len+3)
	used := map[int]bool{}
	for _, b := range h.GetMap(64 * cs.N) {
		used[b] = true
	}
	// 64 balls per bin: all but a few bins are reached when the hash range allows it.
	if cs.RangePow >= 14 && cs.N <= 1024 && len(used) < cs.N-cs.N/4-1 {
		c.Failf("only %d of %d bins are reachable", len(used), cs.N)
	}
	if cs.OwnMap != 0 {
		m := vt.Mix(cs.OwnMap)
		bins = make([]int, cs.Len)
		for i := range bins {
			bins[i] = m.Intn(cs.N)
		}
	}
	binsKeep := append([]int(nil), bins...)

	check := func(what string, got []int, chosen []int) {
		if len(got) != cs.N {
			c.Failf("%s: %d codes, want %d", what, len(got), cs.N)
		}
		want := make([]int, cs.N)
		for i := range want {
			want[i] = math.MinInt64
		}
		for _, k := range chosen {
			want[bins[k]] = max(want[bins[k]], k)
		}
		borrowed, filledBins := 0, 0
		for i := range want {
			if want[i] != math.MinInt64 {
				filledBins++
				if got[i] != want[i] {
					c.Failf("%s: code %d is %d, the largest selected coordinate of the bin is %d", what, i, got[i], want[i])
				}
				continue
			}
			found := -1
			for count := 1; count <= 100 && found < 0; count++ {
				p := h.GetRandDoubleHash(i, count)
				if p < 0 || p >= cs.N {
					c.Failf("probe %d of bin %d names bin %d of %d", count, i, p, cs.N)
				}
				if want[p] != math.MinInt64 {
					found = p
				}
			}
			if found >= 0 {
				borrowed++
				if got[i] != want[found] {
					c.Failf("%s: empty bin %d has code %d, the first non-empty bin on its probe sequence (%d) has %d", what, i, got[i], found, want[found])
				}
			} else if got[i] != math.MinInt64 {
				any := false
				for j := range want {
					any = any || want[j] == got[i]
				}
				if !any {
					c.Failf("%s: empty bin %d has code %d which is no non-empty bin's", what, i, got[i])
				}
			}
		}
		c.LabelIf(borrowed > 0, "empty bin borrowed")
		if borrowed > 0 && filledBins > 1 {
			c.NonTrivial()
		}
	}
	top := func(ps []index_value.Pair) []int {
		s := vec.ClonePairs(ps)
		sort.Slice(s, func(i, j int) bool { return s[i].Value > s[j].Value })
		var out []int
		for i := 0; i < len(s) && i < cs.TopK; i++ {
			out = append(out, s[i].Index)
		}
		return out
	}

	var results, wants [][]int
	var buf vec.Buffer
	for vi, spec := range cs.Vecs {
		v := spec.At(cs.Len)
		full := make([]index_value.Pair, cs.Len)
		uniq := map[float64]bool{}
		for i := range v {
			full[i] = index_value.Pair{Index: i, Value: v[i]}
			uniq[v[i]] = true
		}
		if len(uniq) != len(v) {
			c.Label("tied values, left out")
			continue
		}
		if cs.Other > 0 && vi == 1 {
			densified_minhash.New(cs.Other, cs.Dim).GetMap(10)
		}
		in := buf.Floats(v)
		got := h.GetHashEasyDense(bins, in, cs.TopK)
		check("dense "+spec.Kind, got, top(full))

		ps := cs.Supports[vi].Pairs(v)
		pin := buf.Pairs(ps)
		sg := h.GetHashEasy(bins, pin, cs.TopK)
		check("pairs "+spec.Kind, sg, top(ps))
		if !vec.SamePairs(pin, ps) {
			c.Failf("hashing modified its input")
		}
		if g := h.GetHashEasy(bins, vec.Reorder(ps, cs.Supports[vi].Seed+1), cs.TopK); !vec.EqInts(g, sg) {
			c.Failf("vector %d (%s): codes depend on the order of the pairs", vi, spec.Kind)
		}
		if g := h.GetHashEasy(bins, buf.Pairs(full), cs.TopK); !vec.EqInts(g, got) {
			c.Failf("vector %d (%s): the dense and the pair form disagree", vi, spec.Kind)
		}
		idx := make([]int, len(ps))
		vals := make([]float64, len(ps))
		for i, p := range ps {
			idx[i], vals[i] = p.Index, p.Value
		}
		idxIn := buf.Ints(idx)
		all := h.GetHash(idxIn, vals, bins)
		check("all "+spec.Kind, all, idx)

		if !vec.SameFloats(in, v) || !vec.EqInts(idx, idxIn) || !vec.EqInts(bins, binsKeep) {
			c.Failf("hashing modified its input")
		}
		c.LabelIf(len(ps) < cs.TopK, "fewer coordinates than topK")
		c.LabelIf(len(ps) > cs.TopK, "more coordinates than topK")
		c.LabelIf(len(ps) == 0, "no coordinate present")
		c.Label("vector " + spec.Kind)
		results = append(results, got, sg, all)
		wants = append(wants, append([]int(nil), got...), append([]int(nil), sg...), append([]int(nil), all...))
	}
	for i := range results {
		if !vec.EqInts(results[i], wants[i]) {
			c.Failf("codes returned earlier were changed by later calls")
		}
	}
	c.LabelIf(cs.RangePow >= 63, "dimension of 63 or more")
}

type Probes struct {
	N, Dim int
	Seed   int64
}

func genProbes(t *rapid.T) Probes {
	dim, n := vec.Dims(t)
	if rapid.IntRange(0, 19).Draw(t, "many") == 0 {
		n = rapid.SampledFrom([]int{1000, 1023, 1024, 1025, 4096, 5000}).Draw(t, "n")
	}
	return Probes{max(n, 8), dim, rapid.Int64Range(1, 1<<40).Draw(t, "seed")}
}

func runProbes(c *vt.Ctx, cs Probes) {
	vt.SeedRNG(cs.Seed)
	const hashers = 12
	reach, apart, wide := 0, 0, 0
	first := map[string]bool{}
	for k := 0; k < hashers; k++ {
		h := densified_minhash.New(cs.N, cs.Dim)
		seen := map[int]bool{}
		sequences := map[string]bool{}
		each := 0
		for b := 0; b < cs.N; b++ {
			var start []int
			own := map[int]bool{}
			for count := 1; count <= 100; count++ {
				p := h.GetRandDoubleHash(b, count)
				if p < 0 || p >= cs.N {
					c.Failf("probe %d of bin %d names bin %d of %d", count, b, p, cs.N)
				}
				if q := h.GetRandDoubleHash(b, count); q != p {
					c.Failf("probe %d of bin %d is %d, then %d", count, b, p, q)
				}
				seen[p] = true
				own[p] = true
				if count <= 60 {
					start = append(start, p)
				}
			}
			each += len(own)
			sequences[fmt.Sprint(start)] = true
			if b == 0 {
				first[fmt.Sprint(start)] = true
			}
		}
		if 8*len(sequences) >= 5*cs.N {
			apart++
		}
		if 4*len(seen) >= cs.N {
			reach++
		}
		if 5*each >= cs.N*min(cs.N, 100) {
			wide++
		}
	}
	if reach < hashers/2 {
		c.Failf("only %d of %d hashers have probe sequences that reach a quarter of their %d bins", reach, hashers, cs.N)
	}
	if wide < hashers/2 {
		c.Failf("only in %d of %d hashers do the probes of one bin reach many of the %d bins", wide, hashers, cs.N)
	}
	if apart < hashers/2 {
		c.Failf("only in %d of %d hashers do the %d bins have probe sequences of their own", apart, hashers, cs.N)
	}
	if len(first) < hashers/2 {
		c.Failf("bin 0 has only %d different probe sequences over %d hashers", len(first), hashers)
	}
	c.NonTrivial()
}

func main() {
	vt.Main(map[string][]vt.Part{
		"C09": {
			vt.Check[Case]{Name: "minhash", Quick: 40000, Thorough: 800000, Gen: gen, Run: run},
			vt.Check[Case]{Name: "wide", Quick: 80, Thorough: 3000, Gen: genWide, Run: run},
			vt.Check[Case]{Name: "vast", Quick: 8, Thorough: 300, Gen: genVast, Run: run},
			vt.Check[Probes]{Name: "probes", Quick: 400, Thorough: 8000, Gen: genProbes, Run: runProbes},
		},
	})
}
