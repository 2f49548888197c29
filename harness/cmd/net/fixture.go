package main

import (
	"fmt"
	"math"
	"sort"
	"sync"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/layer"
	"github.com/nlpodyssey/goslide/network"
	"github.com/nlpodyssey/goslide/node"
	"pgregory.net/rapid"
	"verifharness/peek"
	"verifharness/vec"
	"verifharness/vt"
)

const (
	wta     = configuration.WtaHashFunction
	dwta    = configuration.DensifiedWtaHashFunction
	minhash = configuration.DensifiedMinhashFunction
	srp     = configuration.SparseRandomProjectionHashFunction
)

// Net describes a network and how its parameters are set.
type Net struct {
	InputDim    int
	Sizes       []int
	Batch       int
	LR          vt.F
	Adam        bool
	Family      configuration.HashFunctionType
	Mode        configuration.LayerModeType
	K, L, Range []int
	Train, Test []vt.F // sparsities
	Seed        int64
	Params      string // fresh, or how parameters are drawn
	Blank       int    // every so many neurons have no weights and no bias (0: none)
	Twins       bool   // some neurons share their weights
	Surplus     int    // entries of the lists beyond those the layers need
}

type Ex struct {
	Feat    vec.Spec
	Support vec.Support
	Labels  []int
	Twice   int // every so many coordinates come twice: next to each other or, if negative, again with half the value at the end
}

func (n Net) dim(l int) int {
	if l == 0 {
		return n.InputDim
	}
	return n.Sizes[l-1]
}

func (n Net) out() int { return n.Sizes[len(n.Sizes)-1] }

func (n Net) dense(fs []vt.F) bool {
	for _, s := range fs {
		if s != 1 {
			return false
		}
	}
	return true
}

// genNet draws a network; sampled is whether layers may be sampled.
func genNet(t *rapid.T, sampled bool) Net {
	n := Net{Adam: true, Family: configuration.HashFunctionType(rapid.IntRange(1, 4).Draw(t, "family")), Mode: 4}
	n.InputDim = rapid.IntRange(1, 14).Draw(t, "input")
	layers := rapid.SampledFrom([]int{2, 2, 3, 1, 4}).Draw(t, "layers")
	n.Batch = rapid.IntRange(1, 5).Draw(t, "batch")
	broad, tables := -1, false
	switch rapid.IntRange(0, 35).Draw(t, "stretch") { // one measure far beyond the others
	case 20, 21:
		n.Batch = rapid.OneOf(rapid.IntRange(6, 40), rapid.IntRange(41, 140)).Draw(t, "manyslots")
	case 22, 23:
		layers = rapid.IntRange(5, 9).Draw(t, "deep")
	case 24:
		n.InputDim = rapid.IntRange(100, 700).Draw(t, "manyinputs")
	case 25, 26:
		broad = rapid.IntRange(0, layers-1).Draw(t, "broad")
	case 27:
		tables = sampled
	}
	n.LR = vt.F(rapid.SampledFrom([]float64{0.01, 0.001, 0.1, 0.5, 1e-4}).Draw(t, "lr"))
	n.Seed = rapid.Int64Range(1, 1<<40).Draw(t, "seed")
	n.Params = rapid.SampledFrom([]string{"unit", "unit", "large", "fresh", "negative", "moments", "spread", "tinybias", "steep"}).Draw(t, "params")
	if rapid.IntRange(0, 7).Draw(t, "blank") == 0 {
		n.Blank = rapid.IntRange(1, 6).Draw(t, "blankevery")
	}
	n.Twins = rapid.IntRange(0, 3).Draw(t, "twins") == 0
	if sampled {
		n.Mode = configuration.LayerModeType(rapid.SampledFrom([]int{1, 1, 1, 2, 3, 4}).Draw(t, "mode"))
	}
	if rapid.IntRange(0, 9).Draw(t, "surplus") == 9 {
		n.Surplus = rapid.IntRange(1, 3).Draw(t, "entries")
	}
	for i := 0; i < layers; i++ {
		last := i == layers-1
		size := rapid.IntRange(1, 9).Draw(t, "size")
		if last {
			size = rapid.OneOf(rapid.IntRange(1, 14), rapid.IntRange(1, 14), rapid.IntRange(1, 14), rapid.IntRange(15, 70)).Draw(t, "classes")
		}
		if i == broad {
			size = rapid.IntRange(100, 400).Draw(t, "many")
		}
		n.Sizes = append(n.Sizes, size)
		train, test := 1.0, 1.0
		k, l, rp := 1, rapid.IntRange(1, 2).Draw(t, "l"), 3
		if sampled && (last || n.Mode == 1 || n.Mode == 4) {
			sp := []float64{0.5, 0.1, 0.3, 0.7, 0.999, 1, 0.5, 1, 1 - 1e-12, 1e-9}
			train = rapid.SampledFrom(sp).Draw(t, "train")
			test = rapid.SampledFrom(sp).Draw(t, "test")
			l = rapid.SampledFrom([]int{4, 8, 12, 3, 2, 1}).Draw(t, "sl")
			if tables {
				l = rapid.IntRange(13, 130).Draw(t, "ll")
			}
			switch n.Family {
			case srp:
				k = rapid.IntRange(1, 3).Draw(t, "sk")
			case minhash:
				k, rp = rapid.IntRange(1, 2).Draw(t, "sk"), rapid.IntRange(1, 4).Draw(t, "srange")
			default:
				if rapid.IntRange(0, 3).Draw(t, "sk") == 0 {
					k, rp = 2, 6
				}
			}
		}
		n.K, n.L, n.Range = append(n.K, k), append(n.L, l), append(n.Range, rp)
		n.Train, n.Test = append(n.Train, vt.F(train)), append(n.Test, vt.F(test))
	}
	return n
}

var featKinds = []string{"normal", "normal", "positive", "small-ints", "one-hot", "mostly-zero", "negative", "constant"}

func genEx(t *rapid.T, n Net) Ex {
	e := Ex{Feat: vec.Spec{Kind: rapid.SampledFrom(featKinds).Draw(t, "feat"), Seed: rapid.Uint64Range(0, 1<<30).Draw(t, "fseed")},
		Support: vec.GenSupport(t)}
	if rapid.IntRange(0, 9).Draw(t, "repeats") == 9 {
		e.Twice = rapid.SampledFrom([]int{1, 2, 3, -1, -2, -3}).Draw(t, "twice")
	}
	switch rapid.IntRange(0, 5).Draw(t, "labels") {
	case 0:
	case 1, 2, 3:
		e.Labels = []int{rapid.IntRange(0, n.out()-1).Draw(t, "label")}
	case 4:
		e.Labels = rapid.SliceOfN(rapid.IntRange(0, n.out()-1), 1, 5).Draw(t, "labellist")
	case 5:
		for i := 0; i < n.out(); i++ {
			e.Labels = append(e.Labels, i)
		}
	}
	return e
}

func genBatch(t *rapid.T, n Net) []Ex {
	var b []Ex
	for i := rapid.SampledFrom([]int{n.Batch, n.Batch, n.Batch, 1, 0, (n.Batch + 1) / 2}).Draw(t, "examples"); i > 0; i-- {
		b = append(b, genEx(t, n))
	}
	return b
}

func (n Net) example(e Ex) dataset.Example {
	var fs []index_value.Pair
	all := e.Support.Pairs(e.Feat.At(n.InputDim))
	for i, p := range all {
		fs = append(fs, p)
		if e.Twice > 0 && i%e.Twice == 0 {
			fs = append(fs, p)
		}
	}
	if e.Twice < 0 {
		for i := 0; i < len(all); i -= e.Twice {
			fs = append(fs, index_value.Pair{Index: all[i].Index, Value: all[i].Value / 2})
		}
	}
	return dataset.Example{Features: fs, Labels: append([]int{}, e.Labels...)}
}

func (n Net) batch(b []Ex) []dataset.Example {
	out := make([]dataset.Example, len(b))
	for i := range b {
		out[i] = n.example(b[i])
	}
	return out
}

var reused []struct{ features, labels vec.Buffer }

// reuse makes the batch in the memory of the batch made before, as a caller
// does that reads every batch into the same slices.
func (n Net) reuse(b []Ex) []dataset.Example {
	for len(reused) < len(b) {
		reused = append(reused, struct{ features, labels vec.Buffer }{})
	}
	out := n.batch(b)
	for i := range out {
		out[i].Features = reused[i].features.Pairs(out[i].Features)
		out[i].Labels = reused[i].labels.Ints(out[i].Labels)
	}
	return out
}

func sameExamples(a, b []dataset.Example) bool {
	for i := range a {
		if !vec.SamePairs(a[i].Features, b[i].Features) || !vec.EqInts(a[i].Labels, b[i].Labels) {
			return false
		}
	}
	return len(a) == len(b)
}

func (n Net) configure() {
	g := configuration.Default()
	g.HashFunction = n.Family
	g.LayerMode = n.Mode
	g.UseAdam = n.Adam
	g.BatchSize = n.Batch
	configuration.Global = g
}

// build creates the network from its seed; twice the same network, except
// that min-hash functions cannot be seeded.
func (n Net) build() *network.Network {
	n.configure()
	vt.SeedRNG(n.Seed)
	net := n.create()
	if n.Params == "fresh" {
		return net
	}
	m := vt.Mix(n.Seed)
	for li, l := range peek.Layers(net) {
		d := n.dim(li)
		typ := node.ReLU
		if li == len(n.Sizes)-1 {
			typ = node.Softmax
		}
		var prev []float64
		var prevBias float64
		for i := 0; i < n.Sizes[li]; i++ {
			w := make([]float64, d)
			for j := range w {
				w[j] = m.Norm()
				switch n.Params {
				case "large":
					w[j] *= 6
				case "steep":
					w[j] *= 40
				case "negative":
					w[j] = -math.Abs(w[j])
				}
			}
			b := 0.3 * m.Norm()
			if n.Params == "negative" && typ == node.Softmax {
				b -= 900
			}
			if n.Params == "spread" && typ == node.Softmax { // probabilities that underflow
				b += 800 * float64(m.Intn(3)-1)
			}
			if n.Twins && i > 0 && m.Intn(3) == 0 {
				copy(w, prev)
				b = prevBias
			}
			if n.Params == "tinybias" {
				b *= 1e-13
			}
			if n.Blank > 0 && m.Intn(n.Blank) == 0 {
				w, b = make([]float64, d), 0
			}
			prev, prevBias = append([]float64(nil), w...), b
			var mom, vel []float64
			if n.Adam {
				mom, vel = make([]float64, d), make([]float64, d)
				if n.Params == "moments" {
					for j := range mom {
						mom[j] = 0.1 * m.Norm()
						vel[j] = 0.01 * m.Float()
					}
				}
			}
			blob := make([]*node.NodeTrain, n.Batch)
			for j := range blob {
				blob[j] = node.NewNodeTrain(0)
			}
			nd := l.GetNodeById(i).Update(0, d, i, li, typ, n.Batch, w, b, mom, vel, blob)
			if n.Params == "moments" && n.Adam {
				nd = nd.SetAdamAvgMomBias(0, 0.1*m.Norm())
				nd = nd.SetAdamAvgVelBias(0, 0.01*m.Float())
			}
			l.GetAllNodes()[i] = nd
		}
		refill(l)
	}
	return net
}

// repeatable tells whether the library's random numbers follow the seed set by
// vt.SeedRNG. If not, nothing random is compared.
var repeatable = sync.OnceValue(func() bool {
	keep := configuration.Global
	defer func() { configuration.Global = keep }()
	for _, f := range []configuration.HashFunctionType{wta, dwta, srp} {
		n := Net{InputDim: 9, Sizes: []int{20, 20}, Batch: 1, LR: 0.1, Adam: true, Family: f, Mode: 4, K: []int{1, 1}, L: []int{5, 5},
			Range: []int{3, 3}, Train: []vt.F{0.5, 0.5}, Test: []vt.F{0.5, 0.5}, Seed: 5, Params: "fresh"}
		a, b := n.build(), n.build()
		if n.state(a).diff(n.state(b)) != "" || n.tables(a).diff(n.tables(b)) != "" {
			return false
		}
	}
	return true
})

// drawn tells whether the selections with these sparsities draw random numbers
// that matter.
func (n Net) drawn(sparsity []vt.F) bool {
	for i, s := range sparsity {
		if s != 1 && (n.Mode == 2 || n.Mode == 4 && n.Sizes[i] > 1000) {
			return true
		}
	}
	return false
}

// create only calls network.New.
func (n Net) create() *network.Network {
	types := make([]node.NodeType, len(n.Sizes))
	for i := range types {
		types[i] = node.ReLU
	}
	types[len(types)-1] = node.Softmax
	sp := append(vt.Floats(n.Train), vt.Floats(n.Test)...)
	ints := func(s []int) []int {
		s = append([]int(nil), s...)
		for i := 0; i < n.Surplus; i++ {
			s = append(s, 2)
		}
		return s
	}
	for i := 0; i < n.Surplus; i++ {
		sp = append(sp, 0.5+0.5*float64(i%2))
	}
	return network.New(0, len(n.Sizes), ints(n.Sizes), types, n.Batch, float64(n.LR), n.InputDim,
		ints(n.K), ints(n.L), ints(n.Range), sp)
}

func refill(l *layer.Layer) {
	l.ClearHashTables()
	for i := 0; i < l.NumOfNodes(); i++ {
		l.HashTablesAdd(l.HashesToIndex(l.GetHashForInputProcessing(l.GetNodeById(i).Weights())), i)
	}
}

// State is everything observable about a network's parameters.
type State struct {
	W, M, V, T     [][][]float64
	B, MB, VB, TB  [][]float64
	LastActivation bool
}

func (n Net) state(net *network.Network) State {
	var s State
	for _, l := range peek.Layers(net) {
		var w, m, v, t [][]float64
		var b, mb, vb, tb []float64
		for i := 0; i < l.NumOfNodes(); i++ {
			nd := l.GetNodeById(i)
			w = append(w, append([]float64(nil), nd.Weights()...))
			b = append(b, nd.GetBias())
			tb = append(tb, nd.GetTBias())
			mb = append(mb, nd.GetAdamAvgMomBias())
			vb = append(vb, nd.GetAdamAvgVelBias())
			if !n.Adam {
				continue
			}
			var mi, vi, ti []float64
			for j := 0; j < nd.AdamTDim(); j++ {
				mi = append(mi, nd.GetAdamAvgMom(j))
				vi = append(vi, nd.GetAdamAvgVel(j))
				ti = append(ti, nd.GetT(j))
			}
			m, v, t = append(m, mi), append(v, vi), append(t, ti)
		}
		s.W, s.M, s.V, s.T = append(s.W, w), append(s.M, m), append(s.V, v), append(s.T, t)
		s.B, s.MB, s.VB, s.TB = append(s.B, b), append(s.MB, mb), append(s.VB, vb), append(s.TB, tb)
	}
	return s
}

// wild tells whether numbers have grown so far that products of them along the
// layers may leave what a float64 holds.
func (n Net) wild(net *network.Network) bool {
	most := math.Pow(10, 200/float64(len(n.Sizes)+1))
	for _, l := range peek.Layers(net) {
		for i := 0; i < l.NumOfNodes(); i++ {
			nd := l.GetNodeById(i)
			if !(math.Abs(nd.GetBias()) < most) {
				return true
			}
			for _, w := range nd.Weights() {
				if !(math.Abs(w) < most) {
					return true
				}
			}
		}
	}
	return false
}

func diffF3(name string, a, b [][][]float64) string {
	if len(a) != len(b) {
		return name + ": number of layers"
	}
	for l := range a {
		if len(a[l]) != len(b[l]) {
			return fmt.Sprintf("%s of layer %d: %d and %d neurons", name, l, len(a[l]), len(b[l]))
		}
		for i := range a[l] {
			if len(a[l][i]) != len(b[l][i]) {
				return fmt.Sprintf("%s of layer %d neuron %d: %d and %d values", name, l, i, len(a[l][i]), len(b[l][i]))
			}
			for j := range a[l][i] {
				if math.Float64bits(a[l][i][j]) != math.Float64bits(b[l][i][j]) {
					return fmt.Sprintf("%s %d of layer %d neuron %d: %v and %v", name, j, l, i, a[l][i][j], b[l][i][j])
				}
			}
		}
	}
	return ""
}

// diff compares two states bit by bit.
func (s State) diff(o State) string {
	wrap := func(x [][]float64) [][][]float64 { return [][][]float64{x} }
	for _, d := range []string{diffF3("weight", s.W, o.W), diffF3("moment", s.M, o.M), diffF3("second moment", s.V, o.V),
		diffF3("gradient", s.T, o.T), diffF3("bias", wrap(s.B), wrap(o.B)), diffF3("bias moment", wrap(s.MB), wrap(o.MB)),
		diffF3("bias second moment", wrap(s.VB), wrap(o.VB)), diffF3("bias gradient", wrap(s.TB), wrap(o.TB))} {
		if d != "" {
			return d
		}
	}
	return ""
}

// Tables is the content of every bucket of every table of every layer.
type Tables [][][][]int // layer, bucket, table, ids

func (n Net) tables(net *network.Network) Tables {
	var out Tables
	for li, l := range peek.Layers(net) {
		t := peek.LSH(l)
		if t == nil {
			return nil
		}
		var bs [][][]int
		for b := 0; b < 1<<n.Range[li]; b++ {
			idx := make([]int, n.L[li])
			for i := range idx {
				idx[i] = b
			}
			var ts [][]int
			for _, ids := range t.RetrieveRaw(idx) {
				ts = append(ts, append([]int(nil), ids...))
			}
			bs = append(bs, ts)
		}
		out = append(out, bs)
	}
	return out
}

func (a Tables) diff(b Tables, layers ...int) string {
	for l := range a {
		if len(layers) > 0 && !contains(layers, l) {
			continue
		}
		for k := range a[l] {
			for t := range a[l][k] {
				x, y := append([]int(nil), a[l][k][t]...), append([]int(nil), b[l][k][t]...)
				sort.Ints(x)
				sort.Ints(y)
				if !vec.EqInts(x, y) {
					return fmt.Sprintf("layer %d table %d bucket %d: %v and %v", l, t, k, x, y)
				}
			}
		}
	}
	return ""
}

func contains(s []int, v int) bool {
	for _, x := range s {
		if x == v {
			return true
		}
	}
	return false
}

// actives runs the selections of a batch without learning from it and returns
// the active neurons per example and layer, given the state of the generator.
func (n Net) actives(net *network.Network, b []dataset.Example, sparsity []vt.F, labels bool, seed int64) [][][]int {
	out := make([][][]int, len(b))
	n.configure()
	if n.dense(sparsity) {
		for i := range b {
			for _, size := range n.Sizes {
				all := make([]int, size)
				for j := range all {
					all[j] = j
				}
				out[i] = append(out[i], all)
			}
		}
		return out
	}
	vt.SeedRNG(seed)
	ls := peek.Layers(net)
	for i, e := range b {
		act := make([][]index_value.Pair, len(n.Sizes)+1)
		act[0] = vec.ClonePairs(e.Features)
		for li := range ls {
			lab := []int{}
			if labels {
				lab = append(lab, e.Labels...)
			}
			_, ls[li] = ls[li].QueryActiveNodeAndComputeActivations(0, act, li, i, lab, float64(sparsity[li]))
			ids := make([]int, len(act[li+1]))
			for k, p := range act[li+1] {
				ids[k] = p.Index
			}
			out[i] = append(out[i], ids)
		}
	}
	return out
}
