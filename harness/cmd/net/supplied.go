package main

import (
	"math"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/layer"
	"github.com/nlpodyssey/goslide/node"
	"pgregory.net/rapid"
	"verifharness/peek"
	"verifharness/vec"
	"verifharness/vt"
)

// ---------------------------------------------------------------- C11 and C12: layers with supplied weights

type SuppliedCase struct {
	Family     configuration.HashFunctionType
	Rows       []string // how each neuron's weights are drawn
	Dim        int
	K, L, Pow  int
	Soft       bool
	ZeroBiases bool
	Renew      bool // and then new hash functions
	Seed       int64
}

func genSupplied(t *rapid.T) SuppliedCase {
	cs := SuppliedCase{Family: configuration.HashFunctionType(rapid.IntRange(1, 4).Draw(t, "family"))}
	kinds := []string{"unit", "unit", "same", "negative", "huge", "tiny", "opposite", "mixed"}
	if cs.Family != minhash { // ties between values
		kinds = append(kinds, "zero", "constant", "sparse", "signs", "one")
	}
	cs.Rows = rapid.SliceOfN(rapid.SampledFrom(kinds), 1, 40).Draw(t, "rows")
	cs.Dim = rapid.OneOf(rapid.IntRange(1, 12), rapid.IntRange(1, 70)).Draw(t, "dim")
	cs.K, cs.L = rapid.IntRange(1, 3).Draw(t, "k"), rapid.IntRange(1, 8).Draw(t, "l")
	switch cs.Family {
	case srp:
		cs.K = rapid.IntRange(1, 8).Draw(t, "sk")
		cs.Pow = cs.K
	case minhash:
		cs.Pow = rapid.IntRange(0, 8).Draw(t, "range")
	default:
		cs.Pow = 3 * cs.K
	}
	cs.Soft, cs.ZeroBiases = rapid.Bool().Draw(t, "soft"), rapid.Bool().Draw(t, "zerobiases")
	cs.Renew = rapid.IntRange(0, 3).Draw(t, "renew") == 0
	cs.Seed = rapid.Int64Range(1, 1<<40).Draw(t, "seed")
	return cs
}

func (cs SuppliedCase) weights() []float64 {
	m := vt.Mix(cs.Seed)
	var out, prev []float64
	for _, kind := range cs.Rows {
		w := make([]float64, cs.Dim)
		for j := range w {
			x := m.Norm()
			switch kind {
			case "unit":
				w[j] = x
			case "same":
				if w[j] = x; prev != nil {
					w[j] = prev[j]
				}
			case "opposite":
				if w[j] = x; prev != nil {
					w[j] = -prev[j]
				}
			case "negative":
				w[j] = -math.Abs(x) - 1e-9
			case "huge":
				w[j] = x * 1e200
			case "tiny":
				w[j] = x * 1e-300
			case "mixed":
				w[j] = x * math.Pow(10, float64(m.Intn(60)-30))
			case "constant":
				w[j] = 1.5
			case "sparse":
				if m.Intn(5) == 0 {
					w[j] = x
				}
			case "signs":
				w[j] = float64(m.Intn(3) - 1)
			case "one":
				if j == len(out)%cs.Dim {
					w[j] = x
				}
			}
		}
		prev = w
		out = append(out, w...)
	}
	return out
}

func (cs SuppliedCase) layer() *layer.Layer {
	g := configuration.Default()
	g.HashFunction, g.LoadWeight, g.LayerMode, g.UseAdam = cs.Family, true, 1, false
	configuration.Global = g
	typ := node.ReLU
	if cs.Soft {
		typ = node.Softmax
	}
	n := len(cs.Rows)
	b := make([]float64, n)
	m := vt.Mix(cs.Seed + 1)
	for i := range b {
		if !cs.ZeroBiases {
			b[i] = m.Norm()
		}
	}
	vt.SeedRNG(cs.Seed)
	return layer.New(0, n, cs.Dim, 0, typ, 1, cs.K, cs.L, cs.Pow, 0.5, cs.weights(), b, make([]float64, n*cs.Dim), make([]float64, n*cs.Dim))
}

func (cs SuppliedCase) pairs(w []float64, seed uint64) []index_value.Pair {
	ps := make([]index_value.Pair, len(w))
	for i, x := range w {
		ps[i] = index_value.Pair{Index: i, Value: x}
	}
	if cs.Family == dwta {
		return ps // ties go to the first pair
	}
	return vec.Reorder(ps, seed)
}

func runSuppliedTables(c *vt.Ctx, cs SuppliedCase) {
	l := cs.layer()
	look := func(when string) {
		_, shared := expectTables(c, when, l, cs.L, cs.Pow)
		c.LabelIf(shared, "shared bucket")
		for i := range cs.Rows {
			w := l.GetNodeById(i).Weights()
			if hp := peek.HashPairs(l, cs.pairs(w, uint64(cs.Seed)+uint64(i)), cs.Dim); hp != nil && !vec.EqInts(hp, l.GetHashForInputProcessing(append([]float64(nil), w...))) {
				c.Failf("%s: a query hashes the weights of neuron %d (%s) to codes %v, filling the tables to %v", when, i, cs.Rows[i], hp, l.GetHashForInputProcessing(w))
			}
		}
	}
	look("new layer with supplied weights")
	if cs.Renew {
		l.ClearHashTables()
		l = l.UpdateTable(0)
		refill(l)
		look("after new hash functions")
	}
	c.Label(famName[cs.Family])
	if len(cs.Rows) > 1 && cs.Dim > 1 {
		c.NonTrivial()
	}
}

func runSuppliedQuery(c *vt.Ctx, cs SuppliedCase) {
	var buf vec.Buffer
	l := cs.layer()
	look := func(when string) {
		tables := peek.LSH(l)
		for i := range cs.Rows {
			w := append([]float64(nil), l.GetNodeById(i).Weights()...)
			ps := buf.Pairs(cs.pairs(w, uint64(cs.Seed)+uint64(i)))
			same := []int{}
			for j := range cs.Rows {
				if vec.SameFloats(l.GetNodeById(j).Weights(), w) {
					same = append(same, j)
				}
			}
			if tables != nil {
				codes := peek.HashPairs(l, ps, cs.Dim)
				if codes == nil {
					codes = l.GetHashForInputProcessing(w)
				}
				for t, ids := range tables.RetrieveRaw(tables.HashesToIndex(codes)) {
					for _, s := range same {
						if !contains(ids, s) {
							c.Failf("%s (%s, K=%d, L=%d): a query equal to the weights of neuron %d (%s; same as %d) does not find it in table %d, which gives %v",
								when, famName[cs.Family], cs.K, cs.L, s, cs.Rows[i], i, t, ids)
						}
					}
				}
			}
			if cs.L < 3 || cs.Rows[i] == "huge" {
				continue
			}
			act := make([][]index_value.Pair, 2)
			act[0] = ps
			_, l = l.QueryActiveNodeAndComputeActivations(0, act, 0, 0, []int{}, 0.5)
			var got []int
			for _, p := range act[1] {
				got = append(got, p.Index)
			}
			for _, s := range same {
				if !contains(got, s) {
					c.Failf("%s (%s, K=%d, L=%d): neuron %d (%s) is not active for an input equal to its weights; active are %v",
						when, famName[cs.Family], cs.K, cs.L, s, cs.Rows[i], got)
				}
			}
			c.LabelIf(len(same) > 1, "identical neurons")
		}
	}
	look("new layer with supplied weights")
	if cs.Renew {
		l.ClearHashTables()
		l = l.UpdateTable(0)
		refill(l)
		look("after new hash functions")
	}
	c.Label(famName[cs.Family])
	if len(cs.Rows) > 1 && cs.Dim > 1 {
		c.NonTrivial()
	}
}
