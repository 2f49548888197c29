package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/layer"
	"github.com/nlpodyssey/goslide/network"
	"pgregory.net/rapid"
	"verifharness/peek"
	"verifharness/vec"
	"verifharness/vt"
)

// ---------------------------------------------------------------- C26: gradients are derivatives of the loss

type GradCase struct {
	Net   Net
	Batch []Ex
	Slot  int
	Seed  int64
	Pick  uint64 // which parameters are varied
}

func genGrad(t *rapid.T) GradCase {
	cs := GradCase{Net: genNet(t, rapid.IntRange(0, 2).Draw(t, "sampled") == 0)}
	n := &cs.Net
	n.Adam = rapid.Bool().Draw(t, "adam")
	if n.Family == minhash || n.Params == "moments" {
		n.Params = "unit"
	}
	if n.Family == minhash { // the twin network could not have the same functions
		n.Family = dwta
		for i := range n.K {
			n.K[i], n.Range[i] = 1, 3
		}
	}
	for i := rapid.IntRange(1, n.Batch).Draw(t, "examples"); i > 0; i-- {
		e := genEx(t, *n)
		e.Labels = nil
		for _, l := range rapid.SliceOfNDistinct(rapid.IntRange(0, n.out()-1), 1, rapid.SampledFrom([]int{min(4, n.out()), min(4, n.out()), n.out()}).Draw(t, "most"), rapid.ID[int]).Draw(t, "labelset") {
			e.Labels = append(e.Labels, l)
		}
		cs.Batch = append(cs.Batch, e)
	}
	cs.Slot = rapid.IntRange(0, n.Batch-1).Draw(t, "slot")
	cs.Seed = rapid.Int64Range(1, 1<<40).Draw(t, "seed")
	cs.Pick = rapid.Uint64Range(0, 1<<30).Draw(t, "pick")
	return cs
}

// genWideGrad: a layer of hundreds or thousands of neurons.
func genWideGrad(t *rapid.T) GradCase {
	cs := genGrad(t)
	n := &cs.Net
	for i := range n.Sizes {
		n.Sizes[i] = min(n.Sizes[i], 14)
		n.Train[i], n.Test[i] = 1, 1
	}
	n.Mode, n.Batch = 4, min(n.Batch, 3)
	at := len(n.Sizes) - 1
	if rapid.IntRange(0, 2).Draw(t, "hidden") == 0 {
		at = rapid.IntRange(0, at).Draw(t, "at")
	}
	n.Sizes[at] = rapid.IntRange(400, 2600).Draw(t, "broad")
	if n.Sizes[at] <= 1000 && rapid.Bool().Draw(t, "sampledat") {
		n.Train[at] = 0.1
		n.L[at] = rapid.IntRange(2, 8).Draw(t, "widel")
	}
	cs.Batch = cs.Batch[:min(len(cs.Batch), 2, n.Batch)]
	cs.Slot %= n.Batch
	for i := range cs.Batch {
		cs.Batch[i].Labels = nil
		for _, l := range rapid.SliceOfNDistinct(rapid.IntRange(0, n.out()-1), 1, min(6, n.out()), rapid.ID[int]).Draw(t, "fewlabels") {
			cs.Batch[i].Labels = append(cs.Batch[i].Labels, l)
		}
	}
	return cs
}

// forward is one forward pass: the loss of the example, and the pattern of
// active neurons and of ReLUs that are on.
func (n Net) forward(ls []*layer.Layer, e dataset.Example, slot int, seed int64) (act [][]index_value.Pair, loss float64, scores []float64, pattern string) {
	vt.SeedRNG(seed)
	act = make([][]index_value.Pair, len(n.Sizes)+1)
	act[0] = vec.ClonePairs(e.Features)
	for li := range ls {
		_, ls[li] = ls[li].QueryActiveNodeAndComputeActivations(0, act, li, slot, append([]int{}, e.Labels...), float64(n.Train[li]))
		for _, p := range act[li+1] {
			pattern += fmt.Sprint(p.Index)
			if li < len(ls)-1 && p.Value > 0 {
				pattern += "+"
			}
			pattern += " "
		}
	}
	last := act[len(act)-1]
	sum, top := 0.0, math.Inf(-1)
	for _, p := range last {
		sum += p.Value
		nd := ls[len(ls)-1].GetNodeById(p.Index)
		s := nd.GetBias()
		for _, q := range act[len(act)-2] {
			s += q.Value * nd.Weights()[q.Index]
		}
		scores = append(scores, s)
		top = math.Max(top, s)
	}
	for i, p := range last {
		if contains(e.Labels, p.Index) {
			l := math.Log(p.Value / sum)
			if p.Value < 1e-290 { // the probability underflows
				l = scores[i] - top - math.Log(sum)
			}
			loss -= l / float64(len(e.Labels))
		}
	}
	return
}

type param struct{ l, i, j int } // j < 0: the bias

// slope is the numerical derivative of the batch loss with respect to a
// parameter, if the loss is smooth there, with the tolerance for it: the
// softmax adds 1e-7 to its normalisation constant, which counts as far as the
// parameter moves the scores.
func (n Net) slope(ls []*layer.Layer, b []dataset.Example, slot func(i int) int, seed int64, p param, scale float64) (slope, tol float64, ok bool) {
	shift := func(d float64) {
		nodes := ls[p.l].GetAllNodes()
		if p.j < 0 {
			nodes[p.i] = nodes[p.i].SetBias(0, nodes[p.i].GetBias()+d)
		} else {
			_, nodes[p.i] = nodes[p.i].PurturbWeight(0, p.j, d)
		}
	}
	first := ""
	at := func(d float64) (loss float64, scores []float64, ok bool) {
		shift(d)
		defer shift(-d)
		all := ""
		for i, e := range b {
			_, l, s, pattern := n.forward(ls, e, slot(i), seed+int64(i))
			loss += l
			scores = append(scores, s...)
			all += pattern + "; "
		}
		if first == "" {
			first = all
		}
		return loss / float64(n.Batch), scores, all == first && !math.IsInf(loss, 0) && !math.IsNaN(loss)
	}
	if l, _, ok := at(0); !ok || l*float64(n.Batch) > 1e4 {
		return 0, 0, false
	}
	moves, size := 0.0, 0.0
	d := func(h float64) (float64, bool) {
		a, s1, ok1 := at(h)
		b, s2, ok2 := at(-h)
		if !ok1 || !ok2 {
			return 0, false
		}
		moves, size = 0, 0
		for i := range s1 {
			size = math.Max(size, math.Abs(s1[i]))
			moves = math.Max(moves, math.Abs(s1[i]-s2[i])/(2*h))
		}
		return (a - b) / (2 * h), true
	}
	h := 1e-4 / scale
	if _, ok := d(h * 1e-4); ok { // small enough not to leave the place
		h = 1e-4 / math.Max(scale, moves)
	}
	d1, ok1 := d(h)
	d2, ok2 := d(h / 2)
	tol = 1e-5*(math.Abs(d2)+scale/float64(n.Batch)) + 1e-6*moves
	// what rounding does to scores and to the parameter itself
	w := ls[p.l].GetNodeById(p.i).GetBias()
	if p.j >= 0 {
		w = ls[p.l].GetNodeById(p.i).Weights()[p.j]
	}
	rounding := 1e-14 * (size + math.Abs(w)*moves) / h
	return d2, tol, ok1 && ok2 && math.Abs(d1-d2) <= tol/4 && rounding <= tol/4
}

func runGrad(c *vt.Ctx, cs GradCase) {
	n := cs.Net
	if !repeatable() {
		c.Skip()
	}
	n.configure()
	b := n.batch(cs.Batch)
	scale := 1.0
	for _, e := range b {
		for _, p := range e.Features {
			if math.Abs(p.Value) > 1e4 {
				c.Skip()
			}
			scale = math.Max(scale, math.Abs(p.Value))
		}
	}
	twin := peek.Layers(n.build())
	last := len(n.Sizes) - 1
	m := vt.Mix(cs.Pick)
	judged, hidden := 0, false

	// what a neuron of the output layer reports
	ls := peek.Layers(n.build())
	act, _, _, _ := n.forward(ls, b[0], cs.Slot, cs.Seed)
	norm := ls[last].GetNomalizationConstant(cs.Slot)
	nodes := ls[last].GetAllNodes()
	for _, p := range act[last+1] {
		nodes[p.Index] = nodes[p.Index].ComputeExtaStatsForSoftMax(0, norm, cs.Slot, append([]int{}, b[0].Labels...))
	}
	for k := 0; k < 4 && len(act[last]) > 0 && len(act[last+1]) > 0; k++ {
		in := act[last][m.Intn(len(act[last]))]
		p := param{last, act[last+1][m.Intn(len(act[last+1]))].Index, in.Index}
		value := 0.0 // a coordinate of the input may come twice
		for _, q := range act[last] {
			if q.Index == in.Index {
				value += q.Value
			}
		}
		got := nodes[p.i].GetGradient(0, p.j, cs.Slot, value)
		want, tol, ok := n.slope(twin, b[:1], func(int) int { return cs.Slot }, cs.Seed, p, scale)
		if !ok {
			continue
		}
		judged++
		if math.Abs(got-want) > tol {
			c.Failf("neuron %d of the output layer reports gradient %v for weight %d, the loss changes by %v", p.i, got, p.j, want)
		}
	}

	// what a training step uses
	net := n.build()
	before := n.state(net)
	vt.SeedRNG(cs.Seed)
	var next *network.Network
	if n.drawn(n.Train) { // the examples of a batch draw from one generator: one example only
		b = b[:1]
	}
	_, next = net.ProcessInput(0, n.batch(cs.Batch)[:len(b)], 0, false, false)
	after := n.state(next)
	for k := 0; k < 12; k++ {
		p := param{l: m.Intn(len(n.Sizes))}
		p.i = m.Intn(n.Sizes[p.l])
		p.j = m.Intn(n.dim(p.l)+1) - 1
		want, tol, ok := n.slope(twin, b, func(i int) int { return i }, cs.Seed, p, scale)
		if !ok {
			continue
		}
		var got float64
		switch {
		case n.Adam && p.j < 0:
			got = -after.MB[p.l][p.i] / 0.1
		case n.Adam:
			got = -after.M[p.l][p.i][p.j] / 0.1
		case p.j < 0:
			got = -(after.B[p.l][p.i] - before.B[p.l][p.i]) / float64(n.LR)
		default:
			got = -(after.W[p.l][p.i][p.j] - before.W[p.l][p.i][p.j]) / float64(n.LR)
		}
		judged++
		hidden = hidden || p.l < last && want != 0
		extra := 0.0
		if !n.Adam { // differences of rounded parameters
			w := before.B[p.l][p.i]
			if p.j >= 0 {
				w = before.W[p.l][p.i][p.j]
			}
			extra = 4e-16 * math.Abs(w) / float64(n.LR)
		}
		if math.Abs(got-want) > tol+extra {
			where := fmt.Sprintf("weight %d", p.j)
			if p.j < 0 {
				where = "the bias"
			}
			c.Failf("%s of layer %d neuron %d: the step uses gradient %v, the loss changes by %v", where, p.l, p.i, got, want)
		}
	}
	if judged > 2 && (hidden || last == 0) {
		c.NonTrivial()
	}
	c.LabelIf(hidden, "a hidden layer's gradient compared")
	c.LabelIf(len(b) > 1, "several examples")
	c.LabelIf(!n.dense(n.Train), "sampled layers")
	c.LabelIf(judged == 0, "nothing smooth enough to compare")
}
