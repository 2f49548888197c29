package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/layer"
	"github.com/nlpodyssey/goslide/network"
	"github.com/nlpodyssey/goslide/node"
	"pgregory.net/rapid"
	"verifharness/peek"
	"verifharness/vt"
)

// ---------------------------------------------------------------- C29: random choices are fair and drawn anew

type FairCase struct {
	Family   configuration.HashFunctionType
	Mode     configuration.LayerModeType
	Softmax  bool
	N, Batch int
	Sparsity vt.F
	Labels   [][]int // the label sets, used in turn
	Slots    []int   // the slots, used in turn
	Rounds   int
	Seed     int64
	Prod     bool // with production seeding of the hash functions
}

func genFairRandom(t *rapid.T) FairCase {
	cs := FairCase{Family: configuration.HashFunctionType(rapid.IntRange(1, 4).Draw(t, "family")), Mode: 2, Softmax: true}
	cs.N = rapid.OneOf(rapid.IntRange(2, 12), rapid.IntRange(8, 60), rapid.IntRange(60, 300)).Draw(t, "n")
	cs.Sparsity = vt.F(rapid.SampledFrom([]float64{0.5, 0.25, 0.1, 0.34, 0.75, 0.95}).Draw(t, "sparsity"))
	cs.Rounds = 600
	cs.common(t)
	return cs
}

func (cs *FairCase) common(t *rapid.T) {
	cs.Batch = rapid.IntRange(1, 6).Draw(t, "batch")
	for i := rapid.IntRange(1, 3).Draw(t, "labelsets"); i > 0; i-- {
		cs.Labels = append(cs.Labels, rapid.SliceOfN(rapid.IntRange(0, cs.N-1), 0, 4).Draw(t, "labels"))
	}
	cs.Slots = rapid.SliceOfN(rapid.IntRange(0, cs.Batch-1), 1, 6).Draw(t, "slots")
	cs.Seed = rapid.Int64Range(1, 1<<40).Draw(t, "seed")
	cs.Prod = rapid.Bool().Draw(t, "prod")
}

func genFairTopUp(t *rapid.T) FairCase {
	cs := FairCase{Family: configuration.HashFunctionType(rapid.IntRange(1, 4).Draw(t, "family")), Mode: 4, Softmax: rapid.Bool().Draw(t, "softmax")}
	cs.N = rapid.OneOf(rapid.IntRange(1001, 1200), rapid.IntRange(1200, 3000)).Draw(t, "n")
	cs.Sparsity = 0.5
	cs.Rounds = 300
	cs.common(t)
	return cs
}

func (cs FairCase) layer(id int) *layer.Layer {
	g := configuration.Default()
	g.HashFunction, g.LayerMode, g.UseAdam = cs.Family, cs.Mode, false
	configuration.Global = g
	typ := node.ReLU
	if cs.Softmax {
		typ = node.Softmax
	}
	if cs.Prod {
		vt.FreeRNG()
	}
	l := layer.New(0, cs.N, 2, id, typ, cs.Batch, 1, 1, 3, float64(cs.Sparsity), nil, nil, nil, nil)
	vt.SeedRNG(cs.Seed + 1 + int64(id))
	l.ClearHashTables()
	return l
}

// choose runs a selection and returns what it chose besides the labels.
func choose(c *vt.Ctx, l *layer.Layer, n, slot int, labels []int, sparsity float64) []bool {
	act := make([][]index_value.Pair, 2)
	act[0] = []index_value.Pair{{Index: 0, Value: 0.5}, {Index: 1, Value: -0.25}}
	l.QueryActiveNodeAndComputeActivations(0, act, 0, slot, append([]int{}, labels...), sparsity)
	s := make([]bool, n)
	for _, p := range act[1] {
		if p.Index < 0 || p.Index >= n {
			c.Failf("neuron %d of %d is active", p.Index, n)
		}
		s[p.Index] = true
	}
	return s
}

// tally compares a number of events with what independent fair draws give.
type tally struct{ got, mean, vary float64 }

func (t *tally) add(happened bool, p float64) {
	if happened {
		t.got++
	}
	t.mean += p
	t.vary += p * (1 - p)
}

func (t *tally) off(dependence float64) bool {
	return math.Abs(t.got-t.mean) > 8*math.Sqrt(dependence*t.vary)+6
}

func runFair(c *vt.Ctx, cs FairCase) {
	vt.SeedRNG(cs.Seed)
	l := cs.layer(0)
	n := cs.N
	once, pair, again := make([]tally, n), make([]tally, n), make([]tally, n)
	var before []bool
	var pBefore float64
	var labelBefore map[int]bool
	for r := 0; r < cs.Rounds; r++ {
		labels := cs.Labels[r%len(cs.Labels)]
		s := choose(c, l, n, cs.Slots[r%len(cs.Slots)], labels, float64(cs.Sparsity))
		isLabel := map[int]bool{}
		if cs.Softmax {
			for _, x := range labels {
				isLabel[x] = true
			}
		}
		size := min(1000, n)
		if cs.Mode == 2 {
			size = int(math.Floor(float64(n) * float64(cs.Sparsity)))
		}
		m, rest := float64(max(0, size-len(isLabel))), float64(n-len(isLabel))
		p, p2 := 0.0, 0.0
		if rest > 0 {
			p = m / rest
		}
		if rest > 1 {
			p2 = p * (m - 1) / (rest - 1)
		}
		for i := 0; i < n; i++ {
			if isLabel[i] {
				continue
			}
			once[i].add(s[i], p)
			if i+1 < n && !isLabel[i+1] {
				pair[i].add(s[i] && s[i+1], p2)
			}
			if before != nil && !labelBefore[i] {
				again[i].add(s[i] && before[i], p*pBefore)
			}
		}
		before, pBefore, labelBefore = s, p, isLabel
		if p > 0 && p < 1 {
			c.NonTrivial()
		}
	}
	for i := 0; i < n; i++ {
		if t := once[i]; t.off(1) {
			c.Failf("neuron %d of %d was chosen %v times in %d selections, want about %.1f", i, n, t.got, cs.Rounds, t.mean)
		}
		if t := again[i]; t.off(3) {
			c.Failf("neuron %d of %d was chosen twice in a row %v times in %d selections, want about %.1f", i, n, t.got, cs.Rounds, t.mean)
		}
		if t := pair[i]; cs.Mode == 2 && t.off(1) {
			c.Failf("neurons %d and %d of %d were chosen together %v times in %d selections, want about %.1f", i, i+1, n, t.got, cs.Rounds, t.mean)
		}
	}
	c.LabelIf(len(cs.Labels) > 1, "labels change")
	c.LabelIf(cs.Prod, "production seeding")
	if cs.Mode == 4 {
		cs.order(c, l)
	}
}

// unrelated judges whether two selections of 1000 of n neurons overlap like independent ones.
func unrelated(a, b []bool) (overlap int, mean float64, ok bool) {
	n, x, y := float64(len(a)), 0.0, 0.0
	for i := range a {
		if a[i] {
			x++
		}
		if b[i] {
			y++
		}
		if a[i] && b[i] {
			overlap++
		}
	}
	mean = x * y / n
	sd := math.Sqrt(mean * (1 - x/n) * (n - y) / math.Max(1, n-1))
	return overlap, mean, math.Abs(float64(overlap)-mean) <= 8*sd+2
}

// order judges the order in which sampling mode goes through the neurons.
func (cs FairCase) order(c *vt.Ctx, l *layer.Layer) {
	pick := func(l *layer.Layer) []bool { return choose(c, l, cs.N, 0, nil, float64(cs.Sparsity)) }
	numbering := func(s []bool, what string) {
		p := 1000.0 / float64(cs.N)
		mean := float64(cs.N-1) * p * 999 / float64(cs.N-1)
		got := 0
		for i := 1; i < len(s); i++ {
			if s[i] && s[i-1] {
				got++
			}
		}
		if math.Abs(float64(got)-mean) > 8*math.Sqrt(2*float64(cs.N)*p*p*(1-p*p))+6 {
			c.Failf("%s: of the 1000 neurons chosen from %d, %d follow one another in number, want about %.1f", what, cs.N, got, mean)
		}
	}
	numbering(pick(l), "at first")
	for i := 0; i < 20; i++ {
		a := pick(l)
		l.UpdateRandomNodes()
		b := pick(l)
		numbering(b, fmt.Sprintf("after renewal %d", i))
		if n, mean, ok := unrelated(a, b); !ok {
			c.Failf("two selections of 1000 of %d neurons before and after renewing the random order have %d in common, want about %.1f", cs.N, n, mean)
		}
	}
	other := cs.layer(1)
	for i := 0; i < 10; i++ {
		if n, mean, ok := unrelated(pick(l), pick(other)); !ok {
			c.Failf("two selections of 1000 of %d neurons in different layers have %d in common, want about %.1f", cs.N, n, mean)
		}
	}
}

// RenewCase trains a network at one iteration and looks whether the random orders changed.
type RenewCase struct {
	Family configuration.HashFunctionType
	Sizes  []int
	Iters  []int
	Adam   bool
	Seed   int64
}

const renewal = 6946

func genRenew(t *rapid.T) RenewCase {
	cs := RenewCase{Family: configuration.HashFunctionType(rapid.IntRange(1, 4).Draw(t, "family")), Adam: rapid.Bool().Draw(t, "adam"),
		Seed: rapid.Int64Range(1, 1<<40).Draw(t, "seed")}
	for i := rapid.IntRange(1, 3).Draw(t, "layers"); i > 0; i-- {
		cs.Sizes = append(cs.Sizes, rapid.SampledFrom([]int{3, 5, 1300, 1600, 2000}).Draw(t, "size"))
	}
	cs.Sizes[len(cs.Sizes)-1] = rapid.IntRange(1200, 2000).Draw(t, "out")
	for i := 1; i < len(cs.Sizes); i++ {
		if cs.Sizes[i] > 100 && cs.Sizes[i-1] > 100 {
			cs.Sizes[i-1] = 4
		}
	}
	for i := rapid.IntRange(1, 3).Draw(t, "steps"); i > 0; i-- {
		cs.Iters = append(cs.Iters, rapid.OneOf(
			rapid.Map(rapid.IntRange(1, 9), func(k int) int { return k*renewal - 1 }),
			rapid.Map(rapid.IntRange(1, 9), func(k int) int { return k*renewal - 1 }),
			rapid.Map(rapid.IntRange(0, 9), func(k int) int { return k * renewal }),
			rapid.SampledFrom([]int{0, 1, 6943, 6944, 6946, 6947, 10000, 13890, 13892, 41674}),
			rapid.IntRange(0, 100000)).Draw(t, "iter"))
	}
	return cs
}

func runRenew(c *vt.Ctx, cs RenewCase) {
	g := configuration.Default()
	g.HashFunction, g.LayerMode, g.UseAdam = cs.Family, configuration.LayerMode4, cs.Adam
	configuration.Global = g
	num := len(cs.Sizes)
	types, k, lr := make([]node.NodeType, num), make([]int, num), make([]int, num)
	sp := make([]float64, 2*num)
	for i := range types {
		types[i], k[i], lr[i] = node.ReLU, 1, 3
		sp[i], sp[num+i] = 0.5, 0.5
	}
	types[num-1] = node.Softmax
	vt.SeedRNG(cs.Seed)
	net := network.New(0, num, append([]int{}, cs.Sizes...), types, 1, 0.01, 2, k, append([]int{}, k...), lr, sp)
	state := func() (all [][]bool) {
		in := 2
		for li, l := range peek.Layers(net) {
			l.ClearHashTables()
			vt.SeedRNG(cs.Seed)
			act := make([][]index_value.Pair, 2)
			act[0] = []index_value.Pair{{Index: in - 1, Value: 1}}
			l.QueryActiveNodeAndComputeActivations(0, act, 0, 0, nil, 0.5)
			s := make([]bool, cs.Sizes[li])
			for _, p := range act[1] {
				s[p.Index] = true
			}
			all = append(all, s)
			in = cs.Sizes[li]
		}
		return
	}
	same := func(a, b []bool) bool {
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	a, b := state(), state()
	for i := range a {
		if !same(a[i], b[i]) {
			panic(vt.Unobservable("random selections cannot be repeated"))
		}
	}
	for step, it := range cs.Iters {
		ex := []dataset.Example{{Labels: []int{0}, Features: []index_value.Pair{{Index: 0, Value: 1}}}}
		vt.SeedRNG(cs.Seed*31 + int64(step) + 1)
		_, net = net.ProcessInput(0, ex, it, false, false)
		b = state()
		for li := range a {
			if cs.Sizes[li] <= 1000 {
				continue
			}
			eq := same(a[li], b[li])
			renew := it%renewal == renewal-1
			if renew && li > 0 {
				if n, mean, ok := unrelated(a[li], b[li]); eq || !ok {
					c.Failf("iteration %d: the random order of layer %d was not renewed (%d neurons in common, want about %.1f)", it, li, n, mean)
				}
				c.Label("renewed")
				c.NonTrivial()
			}
			if !renew && !eq {
				c.Failf("iteration %d: the random order of layer %d changed", it, li)
			}
			c.LabelIf(!renew, "kept")
		}
		a = b
	}
}
