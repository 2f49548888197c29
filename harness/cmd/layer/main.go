// Checks C13 and C14: selection of the active neurons of a layer and their activations.
package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/layer"
	"github.com/nlpodyssey/goslide/node"
	"pgregory.net/rapid"
	"verifharness/peek"
	"verifharness/vec"
	"verifharness/vt"
)

type Query struct {
	Input   vec.Spec
	Support vec.Support
	Like    int // >= 0: the input is a scaled copy of this neuron's weights
	Slot    int
	Labels  []int
	Renew   bool // renew the order of the random neurons first
	Refill  bool // draw new hash functions and fill the tables again first
}

type Case struct {
	Family   configuration.HashFunctionType
	Mode     configuration.LayerModeType
	Softmax  bool
	N, Prev  int
	Batch    int
	K, L     int
	RangePow int
	Sparsity vt.F
	Seed     int64
	Weights  string // how the weights are made
	Groups   int    // neurons share weights in this many groups (0: all differ)
	Bias     vt.F
	Queries  []Query
}

const (
	wta     = configuration.WtaHashFunction
	dwta    = configuration.DensifiedWtaHashFunction
	minhash = configuration.DensifiedMinhashFunction
	srp     = configuration.SparseRandomProjectionHashFunction
)

func tables(t *rapid.T, cs *Case) {
	switch cs.Family {
	case wta, dwta:
		cs.K = rapid.SampledFrom([]int{1, 1, 1, 2, 2, 3}).Draw(t, "k")
		cs.RangePow = 3*cs.K + rapid.IntRange(0, 1).Draw(t, "extra")
	case srp:
		cs.K = rapid.IntRange(1, 6).Draw(t, "k")
		cs.RangePow = cs.K + rapid.IntRange(0, 2).Draw(t, "extra")
	default:
		cs.K = rapid.IntRange(1, 4).Draw(t, "k")
		cs.RangePow = rapid.IntRange(1, 8).Draw(t, "rangepow")
	}
	cs.L = rapid.SampledFrom([]int{1, 2, 3, 4, 5, 8, 12, 20}).Draw(t, "l")
	if cs.RangePow > 6 {
		cs.L = min(cs.L, 8)
	}
}

var inputKinds = []string{"normal", "normal", "positive", "negative", "small-ints", "one-hot", "mostly-zero", "shifted", "descending"}

func queries(t *rapid.T, cs *Case, n int) {
	for i := 0; i < n; i++ {
		q := Query{Input: vec.Spec{Kind: rapid.SampledFrom(inputKinds).Draw(t, "input"), Seed: rapid.Uint64Range(0, 1<<30).Draw(t, "iseed")},
			Support: vec.GenSupport(t), Like: -1, Slot: rapid.IntRange(0, cs.Batch-1).Draw(t, "slot")}
		if rapid.IntRange(0, 2).Draw(t, "likek") == 0 {
			q.Like = rapid.IntRange(0, cs.N-1).Draw(t, "like")
		}
		if i > 0 && rapid.IntRange(0, 3).Draw(t, "same") == 0 { // the same input again
			p := cs.Queries[i-1]
			q.Input, q.Support, q.Like = p.Input, p.Support, p.Like
		}
		switch rapid.IntRange(0, 5).Draw(t, "labelsk") {
		case 0:
		case 1, 2:
			q.Labels = []int{rapid.IntRange(0, cs.N-1).Draw(t, "label")}
		case 3, 4:
			q.Labels = rapid.SliceOfN(rapid.IntRange(0, cs.N-1), 1, 8).Draw(t, "labels")
		case 5:
			// more labels than there are places in the sampled modes, repetitions included
			m := vt.Mix(rapid.Uint64Range(0, 1<<30).Draw(t, "manylabels"))
			for j := 0; j < min(cs.N+2, 60); j++ {
				q.Labels = append(q.Labels, m.Intn(cs.N))
			}
		}
		q.Renew = rapid.IntRange(0, 3).Draw(t, "renew") == 0
		q.Refill = rapid.IntRange(0, 5).Draw(t, "refill") == 0
		cs.Queries = append(cs.Queries, q)
	}
}

// prepare does what a training step does to a layer between two selections.
func (cs Case) prepare(c *vt.Ctx, f *fixture, q Query) {
	if q.Renew {
		f.l.UpdateRandomNodes()
		c.Label("random order renewed")
	}
	if q.Refill {
		f.l.ClearHashTables()
		f.l = f.l.UpdateTable(0)
		for i := 0; i < cs.N; i++ {
			f.l.HashTablesAdd(f.l.HashesToIndex(f.l.GetHashForInputProcessing(f.weights[i*cs.Prev:(i+1)*cs.Prev])), i)
		}
		c.Label("tables refilled")
	}
}

// genSparsity draws common sparsities, ones about whole numbers of neurons, and ones next to 0 and 1.
func genSparsity(t *rapid.T, n int) vt.F {
	s := rapid.SampledFrom([]float64{0.5, 0.1, 0.25, 0.9, 0.99, 0.001, 0.3, 1}).Draw(t, "sparsity")
	switch rapid.IntRange(0, 11).Draw(t, "sparsityk") {
	case 6, 7:
		s = float64(rapid.IntRange(0, n).Draw(t, "places")) / float64(n)
		switch rapid.IntRange(0, 4).Draw(t, "about") {
		case 1:
			s = math.Nextafter(s, 0)
		case 2:
			s = math.Nextafter(s, 1)
		case 3:
			s -= 1e-8
		case 4:
			s += 1e-8
		}
		s = math.Max(0, math.Min(1, s))
	case 8:
		s = rapid.SampledFrom([]float64{0.9951, 0.9995, 0.99999, 1 - 1e-9, 1 - 1e-13, math.Nextafter(1, 0)}).Draw(t, "nearone")
	case 9:
		s = rapid.SampledFrom([]float64{0, 1e-9, 1e-300, math.SmallestNonzeroFloat64}).Draw(t, "nearzero")
	}
	return vt.F(s)
}

func gen(t *rapid.T) Case {
	cs := Case{Family: configuration.HashFunctionType(rapid.IntRange(1, 4).Draw(t, "family")),
		Mode: configuration.LayerModeType(rapid.IntRange(1, 4).Draw(t, "mode"))}
	cs.Softmax = rapid.Bool().Draw(t, "softmax") || cs.Mode == 2 || cs.Mode == 3
	cs.N = rapid.OneOf(rapid.IntRange(1, 6), rapid.IntRange(5, 60), rapid.IntRange(60, 200)).Draw(t, "n")
	cs.Prev = rapid.OneOf(rapid.IntRange(1, 12), rapid.IntRange(8, 50)).Draw(t, "prev")
	cs.Batch = rapid.IntRange(1, 4).Draw(t, "batch")
	tables(t, &cs)
	number := rapid.IntRange(1, 5).Draw(t, "queries")
	switch rapid.IntRange(0, 35).Draw(t, "stretch") { // one measure far beyond the others
	case 20, 21:
		cs.Batch = rapid.OneOf(rapid.IntRange(5, 40), rapid.IntRange(41, 300), rapid.IntRange(301, 2500)).Draw(t, "manyslots")
		number *= 2
	case 22:
		cs.Prev = rapid.IntRange(100, 700).Draw(t, "manyinputs")
	case 23:
		cs.L = rapid.IntRange(21, 150).Draw(t, "ll")
		if cs.RangePow > 6 {
			cs.L = min(cs.L, 30)
		}
	case 24:
		number = rapid.IntRange(6, 60).Draw(t, "manyqueries")
	case 25:
		cs.L = min(cs.L, 3)
		switch cs.Family {
		case wta, dwta:
			cs.K, cs.RangePow = 4, 12
		case srp:
			cs.K = rapid.IntRange(7, 11).Draw(t, "kk")
			cs.RangePow = cs.K
		default:
			cs.K, cs.RangePow = rapid.IntRange(5, 12).Draw(t, "kk"), rapid.IntRange(9, 12).Draw(t, "rr")
		}
	}
	cs.Sparsity = genSparsity(t, cs.N)
	if (cs.Mode == 2 || cs.Mode == 3) && !cs.Softmax {
		cs.Sparsity = 1
	}
	cs.Seed = rapid.Int64Range(1, 1<<40).Draw(t, "seed")
	cs.Weights = rapid.SampledFrom([]string{"normal", "normal", "tiny", "large", "sparse", "positive", "huge", "near"}).Draw(t, "weights")
	if rapid.IntRange(0, 2).Draw(t, "grouped") == 0 {
		cs.Groups = rapid.IntRange(1, 5).Draw(t, "groups")
	}
	cs.Bias = vt.F(rapid.SampledFrom([]float64{0, 0, 1, -1, -1000, 1000, -1e6, 1e10, -2e9}).Draw(t, "bias"))
	queries(t, &cs, number)
	return cs
}

// genWide makes layers around and above the 1000 and 1500 neurons of sampling mode.
func genWide(t *rapid.T) Case {
	cs := Case{Family: configuration.HashFunctionType(rapid.IntRange(1, 4).Draw(t, "family")), Mode: 4}
	if rapid.IntRange(0, 4).Draw(t, "othermode") == 0 {
		cs.Mode = configuration.LayerModeType(rapid.IntRange(1, 3).Draw(t, "mode"))
	}
	cs.Softmax = rapid.Bool().Draw(t, "softmax") || cs.Mode == 2 || cs.Mode == 3
	cs.N = rapid.SampledFrom([]int{998, 999, 1000, 1001, 1002, 1200, 1499, 1500, 1501, 1600, 1800, 2100, 2500}).Draw(t, "n")
	cs.Prev = rapid.IntRange(4, 12).Draw(t, "prev")
	cs.Batch = rapid.IntRange(1, 2).Draw(t, "batch")
	tables(t, &cs)
	if rapid.Bool().Draw(t, "fulltables") {
		// many well-filled buckets: up to and beyond 1500 candidates
		cs.N = rapid.SampledFrom([]int{1001, 1501, 2100, 2500, 3000}).Draw(t, "fulln")
		cs.Prev = rapid.IntRange(16, 40).Draw(t, "fullprev")
		cs.L = rapid.SampledFrom([]int{30, 45, 60, 90, 120}).Draw(t, "fulll")
		switch cs.Family {
		case srp:
			cs.K, cs.RangePow = 3, 3
		case minhash:
			cs.K, cs.RangePow = 2, 6
		default:
			cs.K, cs.RangePow = 2, 6
		}
	}
	cs.Sparsity = genSparsity(t, cs.N)
	cs.Seed = rapid.Int64Range(1, 1<<40).Draw(t, "seed")
	cs.Weights = rapid.SampledFrom([]string{"normal", "tiny", "positive"}).Draw(t, "weights")
	queries(t, &cs, rapid.IntRange(1, 3).Draw(t, "queries"))
	if rapid.IntRange(0, 3).Draw(t, "hundreds") == 0 {
		m := vt.Mix(rapid.Uint64Range(0, 1<<30).Draw(t, "hundredsseed"))
		for i := rapid.IntRange(400, 2000).Draw(t, "hundredsn"); i > 0; i-- {
			cs.Queries[0].Labels = append(cs.Queries[0].Labels, m.Intn(cs.N))
		}
	}
	return cs
}

// genHuge makes layers of hundreds of thousands of neurons.
func genHuge(t *rapid.T) Case {
	cs := Case{Family: configuration.HashFunctionType(rapid.IntRange(1, 4).Draw(t, "family")), Softmax: true,
		Mode: configuration.LayerModeType(rapid.IntRange(1, 4).Draw(t, "mode"))}
	if rapid.Bool().Draw(t, "random") {
		cs.Mode = 2
	}
	cs.N = rapid.SampledFrom([]int{325055, 325056, 325057, 340000, 400000}).Draw(t, "n")
	cs.Prev = 2
	cs.Batch = 1
	cs.K, cs.L, cs.RangePow = 1, 3, 3
	cs.Sparsity = vt.F(rapid.SampledFrom([]float64{0.5, 0.1, 0.0001}).Draw(t, "sparsity"))
	cs.Seed = rapid.Int64Range(1, 1<<40).Draw(t, "seed")
	cs.Weights = "normal"
	queries(t, &cs, 1)
	cs.Queries[0].Labels = append(cs.Queries[0].Labels, cs.N-1)
	cs.Queries[0].Refill = false
	return cs
}

type fixture struct {
	buf     *vec.Buffer
	l       *layer.Layer
	weights []float64
	bias    []float64
}

func (cs Case) build() fixture {
	g := configuration.Default()
	g.HashFunction = cs.Family
	g.LayerMode = cs.Mode
	g.LoadWeight = true
	configuration.Global = g
	f := fixture{buf: new(vec.Buffer), weights: make([]float64, cs.N*cs.Prev), bias: make([]float64, cs.N)}
	m := vt.Mix(cs.Seed)
	for i := 0; i < cs.N; i++ {
		row := f.weights[i*cs.Prev : (i+1)*cs.Prev]
		if cs.Groups > 0 && i >= cs.Groups {
			copy(row, f.weights[(i%cs.Groups)*cs.Prev:])
			f.bias[i] = f.bias[i%cs.Groups]
			continue
		}
		for j := range row {
			w := m.Norm()
			switch cs.Weights {
			case "tiny":
				w *= 0.01
			case "large":
				w *= 50
			case "huge":
				w *= 1e5
			case "positive":
				w = math.Abs(w)
			case "sparse":
				if m.Intn(3) > 0 {
					w = 0
				}
			}
			if cs.Weights == "near" && i > 0 {
				w = f.weights[j] * (1 + w*math.Pow10(-6-i%11))
			}
			row[j] = w
		}
		f.bias[i] = float64(cs.Bias) + 0.1*m.Norm()
		if cs.Weights == "near" {
			f.bias[i] = f.bias[0]
		}
	}
	vt.SeedRNG(cs.Seed)
	typ := node.ReLU
	if cs.Softmax {
		typ = node.Softmax
	}
	z := make([]float64, len(f.weights))
	f.l = layer.New(0, cs.N, cs.Prev, 0, typ, cs.Batch, cs.K, cs.L, cs.RangePow, float64(cs.Sparsity),
		append([]float64(nil), f.weights...), append([]float64(nil), f.bias...), z, append([]float64(nil), z...))
	return f
}

func (cs Case) input(f fixture, q Query) []index_value.Pair {
	v := q.Input.At(cs.Prev)
	if q.Like >= 0 {
		copy(v, f.weights[q.Like*cs.Prev:(q.Like+1)*cs.Prev])
	}
	return q.Support.Pairs(v)
}

// query runs one selection and returns the active neurons.
func (cs Case) query(c *vt.Ctx, f *fixture, in []index_value.Pair, slot int, labels []int) []index_value.Pair {
	act := make([][]index_value.Pair, 2)
	act[0] = f.buf.Pairs(in)
	lab := f.buf.Ints(labels)
	_, l := f.l.QueryActiveNodeAndComputeActivations(0, act, 0, slot, lab, float64(cs.Sparsity))
	f.l = l
	if !vec.SamePairs(act[0], in) || !vec.EqInts(lab, labels) {
		c.Failf("the selection modified the example")
	}
	return act[1]
}

// retrieved counts in how many tables each neuron is found for the input.
func (cs Case) retrieved(c *vt.Ctx, f fixture, in []index_value.Pair) map[int]int {
	codes := peek.HashPairs(f.l, in, cs.Prev)
	if codes == nil {
		if len(in) != cs.Prev {
			return nil // the codes of a partial input cannot be observed
		}
		for i, p := range in {
			for _, o := range in[:i] {
				if o.Value == p.Value {
					return nil // the order of pairs may decide ties
				}
			}
		}
		codes = f.l.GetHashForInputProcessing(vec.Dense(in, cs.Prev))
	}
	idx := f.l.HashesToIndex(codes)
	counts := map[int]int{}
	if t := peek.LSH(f.l); t != nil {
		for _, ids := range t.RetrieveRaw(idx) {
			for _, id := range ids {
				counts[id]++
			}
		}
		return counts
	}
	// the tables themselves cannot be observed: refill them
	filled := make([]map[int][]int, cs.L)
	for t := range filled {
		filled[t] = map[int][]int{}
	}
	for i := 0; i < cs.N; i++ {
		for t, a := range f.l.HashesToIndex(f.l.GetHashForInputProcessing(f.weights[i*cs.Prev : (i+1)*cs.Prev])) {
			filled[t][a] = append(filled[t][a], i)
		}
	}
	for t, a := range idx {
		if len(filled[t][a]) > 128 {
			return nil
		}
		for _, id := range filled[t][a] {
			counts[id]++
		}
	}
	return counts
}

func scores(cs Case, f fixture, in []index_value.Pair) (s, tol []float64) {
	s, tol = make([]float64, cs.N), make([]float64, cs.N)
	for i := range s {
		a := 0.0
		for _, p := range in {
			s[i] += f.weights[i*cs.Prev+p.Index] * p.Value
			a += math.Abs(f.weights[i*cs.Prev+p.Index] * p.Value)
		}
		s[i] += f.bias[i]
		tol[i] = 1e-13*(a+math.Abs(f.bias[i])) + 1e-300
	}
	return
}

func (cs Case) distinctLabels(q Query) map[int]bool {
	d := map[int]bool{}
	if cs.Softmax {
		for _, l := range q.Labels {
			d[l] = true
		}
	}
	return d
}

func runSelect(c *vt.Ctx, cs Case) {
	f := cs.build()
	for qi, q := range cs.Queries {
		cs.prepare(c, &f, q)
		in := cs.input(f, q)
		labels := cs.distinctLabels(q)
		found := map[int]int(nil)
		if cs.Sparsity != 1 && (cs.Mode == 1 || cs.Mode == 4) {
			found = cs.retrieved(c, f, in)
			if found == nil {
				c.Label("retrieval not observable")
				cs.query(c, &f, in, q.Slot, q.Labels)
				continue
			}
		}
		act := cs.query(c, &f, in, q.Slot, q.Labels)
		where := fmt.Sprintf("query %d", qi)
		got := map[int]bool{}
		for _, p := range act {
			if p.Index < 0 || p.Index >= cs.N {
				c.Failf("%s: neuron %d of %d is active", where, p.Index, cs.N)
			}
			if got[p.Index] {
				c.Failf("%s: neuron %d is active twice", where, p.Index)
			}
			got[p.Index] = true
		}
		for l := range labels {
			if !got[l] {
				c.Failf("%s: the true label %d is not active", where, l)
			}
		}
		if cs.Sparsity == 1 {
			if len(got) != cs.N {
				c.Failf("%s: %d of %d neurons are active with sparsity 1", where, len(got), cs.N)
			}
			c.Label("dense")
			continue
		}
		switch cs.Mode {
		case 1:
			hits := 0
			for i := 0; i < cs.N; i++ {
				want := labels[i] || found[i] > 2
				if found[i] > 2 {
					hits++
				}
				if got[i] != want {
					c.Failf("%s: neuron %d, retrieved from %d of %d tables, label %v: active is %v", where, i, found[i], cs.L, labels[i], got[i])
				}
			}
			c.LabelIf(hits > 0, "threshold: retrieved neurons")
			c.LabelIf(hits == 0, "threshold: none retrieved")
			if hits > 0 && hits < cs.N {
				c.NonTrivial()
			}
		case 2, 3:
			want := max(int(math.Floor(float64(cs.N)*float64(cs.Sparsity))), len(labels))
			if len(act) != want {
				c.Failf("%s: %d neurons active, want %d of %d", where, len(act), want, cs.N)
			}
			c.LabelIf(want == len(labels) && want > 0, "labels fill all places")
			if cs.Mode == 2 {
				if want > len(labels) {
					c.NonTrivial()
				}
				break
			}
			s, tol := scores(cs, f, in)
			for i := 0; i < len(labels); i++ {
				if !labels[act[i].Index] {
					c.Failf("%s: active neuron %d at place %d comes before a label", where, act[i].Index, i)
				}
			}
			for i := len(labels); i+1 < len(act); i++ {
				a, b := act[i].Index, act[i+1].Index
				if s[b] > s[a]+tol[a]+tol[b] {
					c.Failf("%s: active neurons %d and %d are not in the order of their scores (%v, %v)", where, a, b, s[a], s[b])
				}
			}
			if len(act) > len(labels) {
				c.NonTrivial()
				last := act[len(act)-1].Index
				for i := range s {
					if !got[i] && s[i] > s[last]+tol[i]+tol[last] {
						c.Failf("%s: neuron %d with score %v is left out for neuron %d with score %v", where, i, s[i], last, s[last])
					}
				}
			}
		case 4:
			cand := len(labels)
			for i := range found {
				if !got[i] {
					c.Failf("%s: neuron %d was retrieved but is not active", where, i)
				}
				if !labels[i] {
					cand++
				}
			}
			want := max(cand, min(1000, cs.N))
			if len(act) != want {
				c.Failf("%s: %d neurons active with %d candidates of %d neurons, want %d", where, len(act), cand, cs.N, want)
			}
			c.LabelIf(cand < want, "sampling: topped up")
			c.LabelIf(cand >= 1000, "sampling: 1000 or more candidates")
			c.LabelIf(cand >= 1500, "sampling: 1500 or more candidates")
			if cand < want || cand >= 1000 {
				c.NonTrivial()
			}
		}
		c.LabelIf(len(q.Labels) > len(labels) && cs.Softmax, "repeated labels")
		c.LabelIf(len(in) == 0, "empty input")
	}
	c.Label(fmt.Sprintf("mode %d", cs.Mode))
	c.Label(fmt.Sprintf("family %d", cs.Family))
}

// genCoverage makes small layers in random or sampling mode queried over and over.
func genCoverage(t *rapid.T) Case {
	cs := gen(t)
	cs.Mode, cs.Softmax, cs.N, cs.Batch = 2, true, rapid.IntRange(4, 30).Draw(t, "covern"), 1
	cs.Sparsity = vt.F(rapid.SampledFrom([]float64{0.25, 0.5, 0.3}).Draw(t, "coversparsity"))
	cs.Queries = nil
	queries(t, &cs, 1)
	cs.Queries[0].Labels = nil
	cs.Queries[0].Slot = 0
	return cs
}

func runCoverage(c *vt.Ctx, cs Case) {
	f := cs.build()
	in := cs.input(f, cs.Queries[0])
	const rounds = 400
	size := int(math.Floor(float64(cs.N) * float64(cs.Sparsity)))
	seen := make([]int, cs.N)
	for i := 0; i < rounds; i++ {
		for _, p := range cs.query(c, &f, in, 0, nil) {
			seen[p.Index]++
		}
	}
	// each neuron is expected rounds*size/N >= 53 times; 8 sigma below is still positive
	e := float64(rounds) * float64(size) / float64(cs.N)
	for i, s := range seen {
		if math.Abs(float64(s)-e) > 8*math.Sqrt(e)+1 {
			c.Failf("random mode chose neuron %d %d times in %d selections of %d of %d neurons", i, s, rounds, size, cs.N)
		}
	}
	c.NonTrivial()
}

// ---------------------------------------------------------------- C14

func genAct(t *rapid.T) Case {
	cs := gen(t)
	if cs.Batch > 4 { // few of the slots
		few := rapid.IntRange(1, 3).Draw(t, "few")
		for i := few; i < len(cs.Queries); i++ {
			cs.Queries[i].Slot = cs.Queries[i%few].Slot
		}
	}
	return denseHalf(t, cs)
}

// genWideAct makes layers of up to thousands of neurons.
func genWideAct(t *rapid.T) Case {
	cs := genWide(t)
	if rapid.Bool().Draw(t, "below1000") {
		cs.N = rapid.IntRange(300, 1000).Draw(t, "fewer")
		cs.Sparsity = genSparsity(t, cs.N)
		for i := range cs.Queries {
			cs.Queries[i].Like = min(cs.Queries[i].Like, cs.N-1)
			for j := range cs.Queries[i].Labels {
				cs.Queries[i].Labels[j] %= cs.N
			}
		}
	}
	return denseHalf(t, cs)
}

func denseHalf(t *rapid.T, cs Case) Case {
	if rapid.Bool().Draw(t, "dense") {
		cs.Sparsity = 1
		if cs.Mode == 2 || cs.Mode == 3 {
			cs.Softmax = rapid.Bool().Draw(t, "densesoftmax")
		}
	}
	return cs
}

func runAct(c *vt.Ctx, cs Case) {
	f := cs.build()
	if !cs.Softmax {
		refused := func() (r bool) {
			defer func() { r = recover() != nil }()
			f.l.GetNomalizationConstant(0)
			return
		}()
		if !refused {
			c.Failf("a ReLU layer gives a normalisation constant")
		}
	}
	type result struct {
		q   Query
		act []index_value.Pair
		z   float64
	}
	var first []result
	latest := map[int]int{}
	refilled := false
	check := func(q Query, where string) result {
		in := cs.input(f, q)
		act := cs.query(c, &f, in, q.Slot, q.Labels)
		s, tol := scores(cs, f, in)
		top := math.Inf(-1)
		for _, p := range act {
			top = math.Max(top, s[p.Index])
		}
		sum, one, small := 0.0, false, 0
		for _, p := range act {
			last := f.l.GetNodeById(p.Index).GetLastActivation(q.Slot)
			if last != p.Value {
				c.Failf("%s: neuron %d reports activation %v and keeps %v", where, p.Index, p.Value, last)
			}
			if math.IsNaN(p.Value) || math.IsInf(p.Value, 0) || p.Value < 0 {
				c.Failf("%s: neuron %d has activation %v", where, p.Index, p.Value)
			}
			if !cs.Softmax {
				want := math.Max(0, s[p.Index])
				if math.Abs(p.Value-want) > 2*tol[p.Index] {
					c.Failf("%s: ReLU neuron %d has activation %v, want %v", where, p.Index, p.Value, want)
				}
				if want > 0 {
					small++
				}
				continue
			}
			d := s[p.Index] - top
			e := 4*tol[p.Index] + 1e-12
			for _, r := range act {
				if s[r.Index] >= top-1e-6*math.Abs(top) {
					e = math.Max(e, 4*(tol[r.Index]+tol[p.Index])+1e-12)
				}
			}
			lo, hi := math.Exp(d-e), math.Exp(d+e)
			if p.Value < lo-1e-300 || p.Value > hi+1e-300 {
				c.Failf("%s: softmax neuron %d with score %v (largest %v) has activation %v, want %v", where, p.Index, s[p.Index], top, p.Value, math.Exp(d))
			}
			one = one || p.Value == 1
			if p.Value > 1 {
				c.Failf("%s: softmax neuron %d has activation %v", where, p.Index, p.Value)
			}
			sum += p.Value
			if p.Value > 1e-6 {
				small++
			}
		}
		z := 0.0
		if cs.Softmax {
			z = f.l.GetNomalizationConstant(q.Slot)
			if len(act) > 0 && !one {
				c.Failf("%s: no active neuron carries 1", where)
			}
			if math.Abs(z-sum) > 1e-12*(1+sum) {
				c.Failf("%s: normalisation constant %v, the activations sum to %v", where, z, sum)
			}
		}
		if small > 1 {
			c.NonTrivial()
		}
		c.LabelIf(len(act) == 0, "no active neuron")
		c.LabelIf(cs.Softmax && top < -700, "all scores below -700")
		c.LabelIf(cs.Softmax && top > 700, "scores above 700")
		return result{q, vec.ClonePairs(act), z}
	}
	for qi, q := range cs.Queries {
		if cs.prepare(c, &f, q); q.Refill && cs.Sparsity != 1 {
			refilled = true
		}
		first = append(first, check(q, fmt.Sprintf("query %d", qi)))
		latest[q.Slot] = qi
		// the other slots keep their values
		for slot, j := range latest {
			for _, p := range first[j].act {
				if a := f.l.GetNodeById(p.Index).GetLastActivation(slot); a != p.Value {
					stale := slot == q.Slot
					c.Failf("query %d in slot %d: neuron %d in slot %d now has activation %v, had %v (same slot: %v)", qi, q.Slot, p.Index, slot, a, p.Value, stale)
				}
			}
			if cs.Softmax && f.l.GetNomalizationConstant(slot) != first[j].z {
				c.Failf("query %d in slot %d changed the normalisation constant of slot %d", qi, q.Slot, slot)
			}
		}
	}
	// again, in other slots and after other examples; same active set when the selection is deterministic
	if (cs.Mode == 2 || cs.Mode == 4 && cs.N > 1000 || refilled) && cs.Sparsity != 1 {
		return // random selections
	}
	for qi := len(first) - 1; qi >= 0; qi-- {
		q := first[qi].q
		q.Slot = (q.Slot + 1) % cs.Batch
		r := check(q, fmt.Sprintf("query %d repeated in slot %d", qi, q.Slot))
		a, b := first[qi].act, r.act
		byIdx := func(x []index_value.Pair) { sort.Slice(x, func(i, j int) bool { return x[i].Index < x[j].Index }) }
		byIdx(a)
		byIdx(b)
		if len(a) != len(b) {
			c.Failf("query %d repeated in slot %d: %d active neurons, first %d", qi, q.Slot, len(b), len(a))
		}
		for i := range a {
			if a[i].Index != b[i].Index || math.Abs(a[i].Value-b[i].Value) > 1e-12*math.Abs(a[i].Value) {
				c.Failf("query %d repeated in slot %d: neuron %d has activation %v, first neuron %d had %v", qi, q.Slot, b[i].Index, b[i].Value, a[i].Index, a[i].Value)
			}
		}
	}
}

func main() {
	vt.Main(map[string][]vt.Part{
		"C13": {
			vt.Check[Case]{Name: "selection", Quick: 12000, Thorough: 300000, Gen: gen, Run: runSelect},
			vt.Check[Case]{Name: "wide", Quick: 640, Thorough: 8000, Gen: genWide, Run: runSelect},
			vt.Check[Case]{Name: "huge", Quick: 8, Thorough: 64, Gen: genHuge, Run: runSelect},
			vt.Check[Case]{Name: "coverage", Quick: 240, Thorough: 4000, Gen: genCoverage, Run: runCoverage},
		},
		"C14": {vt.Check[Case]{Name: "activations", Quick: 12000, Thorough: 300000, Gen: genAct, Run: runAct},
			vt.Check[Case]{Name: "wide", Quick: 80, Thorough: 8000, Gen: genWideAct, Run: runAct}},
	})
}
