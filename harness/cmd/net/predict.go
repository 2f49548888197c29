package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/network"
	"pgregory.net/rapid"
	"verifharness/peek"
	"verifharness/vec"
	"verifharness/vt"
)

// ---------------------------------------------------------------- C17: what a prediction counts

type PredictCase struct {
	Net   Net
	Train []Step
	Batch []Ex
	Seed  int64
	Order uint64
	Cut   int
}

func genPredict(t *rapid.T) PredictCase {
	cs := PredictCase{Net: genNet(t, rapid.IntRange(0, 3).Draw(t, "sampled") > 0), Seed: rapid.Int64Range(1, 1<<40).Draw(t, "predictseed"),
		Order: rapid.Uint64Range(0, 1<<20).Draw(t, "order")}
	if cs.Net.Batch <= 5 {
		cs.Net.Batch = rapid.IntRange(1, 9).Draw(t, "slots")
	}
	cs.Net.Adam = rapid.IntRange(0, 3).Draw(t, "adam") > 0
	if rapid.Bool().Draw(t, "wrongly") { // often no neuron is retrieved
		for i := range cs.Net.L {
			cs.Net.L[i] = rapid.IntRange(1, 4).Draw(t, "fewtables")
		}
	}
	for i := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "steps"); i > 0; i-- {
		cs.Train = append(cs.Train, genStep(t, cs.Net))
	}
	for i := rapid.IntRange(0, cs.Net.Batch).Draw(t, "examples"); i > 0; i-- {
		cs.Batch = append(cs.Batch, genEx(t, cs.Net))
	}
	cs.Cut = rapid.IntRange(0, len(cs.Batch)).Draw(t, "cut")
	return cs
}

// genWidePredict: hundreds or thousands of classes, hidden neurons, inputs or
// examples.
func genWidePredict(t *rapid.T) PredictCase {
	cs := PredictCase{Net: genNet(t, false), Seed: rapid.Int64Range(1, 1<<40).Draw(t, "predictseed"),
		Order: rapid.Uint64Range(0, 1<<20).Draw(t, "order")}
	n := &cs.Net
	last := len(n.Sizes) - 1
	n.Batch = rapid.IntRange(1, 9).Draw(t, "slots")
	for i := range n.Sizes {
		n.Sizes[i] = min(n.Sizes[i], 14)
	}
	switch rapid.IntRange(0, 3).Draw(t, "measure") {
	case 0:
		n.Batch = rapid.IntRange(300, 1500).Draw(t, "manyslots")
	case 1:
		n.Sizes[rapid.IntRange(0, last).Draw(t, "at")] = rapid.IntRange(400, 3000).Draw(t, "broad")
	default:
		n.Sizes[last] = rapid.IntRange(400, 3000).Draw(t, "manyclasses")
		if rapid.IntRange(0, 2).Draw(t, "sampledout") == 0 {
			n.Train[last], n.Test[last] = 0.1, 0.1
			n.L[last] = rapid.IntRange(1, 6).Draw(t, "widel")
		}
	}
	cs.Batch = genMany(t, *n, rapid.SampledFrom([]int{n.Batch, n.Batch, (n.Batch + 1) / 2}).Draw(t, "examples"))
	if rapid.IntRange(0, 2).Draw(t, "trained") == 0 {
		b := genMany(t, *n, min(n.Batch, 20))
		cs.Train = append(cs.Train, Step{Batch: b, Seed: rapid.Int64Range(1, 1<<40).Draw(t, "stepseed")})
	}
	cs.Cut = rapid.IntRange(0, len(cs.Batch)).Draw(t, "cut")
	return cs
}

// genMany makes examples from one seed: with no label, with a few or with half
// of the classes.
func genMany(t *rapid.T, n Net, number int) (b []Ex) {
	m := vt.Mix(rapid.Uint64Range(0, 1<<30).Draw(t, "manyseed"))
	for i := 0; i < number; i++ {
		e := Ex{Feat: vec.Spec{Kind: featKinds[m.Intn(len(featKinds))], Seed: uint64(m.Intn(1 << 30))},
			Support: vec.Support{Percent: []int{100, 100, 50, -2, 5}[m.Intn(5)], Seed: uint64(m.Intn(1 << 30)), Order: "shuffled"}}
		switch m.Intn(4) {
		case 0:
			e.Labels = []int{m.Intn(n.out())}
		case 1:
			for k := m.Intn(5); k > 0; k-- {
				e.Labels = append(e.Labels, m.Intn(n.out()))
			}
		default:
			for k := 0; k < n.out() && len(e.Labels) < 1500; k++ {
				if m.Intn(2) == 0 {
					e.Labels = append(e.Labels, k)
				}
			}
		}
		b = append(b, e)
	}
	return b
}

// best returns the neurons that may be the highest-scoring active one.
func (n Net) best(s State, e dataset.Example, act [][]int) (winners []int) {
	vals := map[int]float64{}
	mags := map[int]float64{}
	for _, p := range e.Features {
		vals[p.Index] += p.Value
	}
	last := len(n.Sizes) - 1
	for l := range n.Sizes {
		out, mag := map[int]float64{}, map[int]float64{}
		for _, i := range act[l] {
			z, a := s.B[l][i], math.Abs(s.B[l][i])
			for j, x := range vals {
				z += s.W[l][i][j] * x
				a += math.Abs(s.W[l][i][j]) * (math.Abs(x) + mags[j])
			}
			if l < last {
				z = math.Max(0, z)
			}
			out[i], mag[i] = z, a
		}
		vals, mags = out, mag
	}
	if len(act[last]) == 0 {
		return nil
	}
	top := math.Inf(-1)
	for i, z := range vals {
		top = math.Max(top, z-1e-11*mags[i])
	}
	for _, i := range act[last] { // in the order the layer lists them
		if vals[i]+1e-11*mags[i]+1e-15 < top {
			continue
		}
		twin := false
		for _, j := range winners {
			twin = twin || (s.B[last][i] == s.B[last][j] && vec.SameFloats(s.W[last][i], s.W[last][j]))
		}
		if !twin {
			winners = append(winners, i)
		}
	}
	return winners
}

func runC17(c *vt.Ctx, cs PredictCase) {
	n := cs.Net
	if n.drawn(n.Test) && !repeatable() {
		c.Skip()
	}
	net := n.build()
	for _, st := range cs.Train {
		vt.SeedRNG(st.Seed)
		_, net = net.ProcessInput(0, n.reuse(st.Batch), st.Iter, st.Rehash, st.Rebuild)
	}
	if n.wild(net) {
		c.Label("numbers out of hand")
		return
	}
	state := n.state(net)
	predict := func(b []Ex, seed int64) (int, [][][]int) {
		xs, keep := n.reuse(b), n.batch(b)
		act := n.actives(net, xs, n.Test, false, seed)
		vt.SeedRNG(seed)
		var got int
		got, net = net.PredictClass(0, xs)
		if !sameExamples(xs, keep) {
			c.Failf("the examples were modified")
		}
		return got, act
	}
	got, act := predict(cs.Batch, cs.Seed)
	lo, hi, empty := 0, 0, 0
	for i, e := range n.batch(cs.Batch) {
		ws := n.best(state, e, act[i])
		in := 0
		for _, w := range ws {
			if contains(e.Labels, w) {
				in++
			}
		}
		if len(ws) > 0 && in == len(ws) {
			lo++
		}
		if in > 0 {
			hi++
		}
		if len(ws) == 0 {
			empty++
		}
		c.LabelIf(len(ws) > 1, "too close to call")
		c.LabelIf(len(ws) == 0, "no active output")
		c.LabelIf(len(e.Labels) == 0, "no label")
	}
	if got < lo || got > hi {
		c.Failf("%d of %d examples counted as correct, want %d to %d; active outputs %v, batch %+v", got, len(cs.Batch), lo, hi, last(act), n.batch(cs.Batch))
	}
	if lo > 0 && lo < len(cs.Batch) {
		c.NonTrivial()
	}
	if n.Mode == 2 && !n.dense(n.Test) {
		return // random selections
	}
	for _, s := range n.Sizes {
		if n.Mode == 4 && s > 1000 {
			return
		}
	}
	// additive, in any order
	perm := vt.Mix(cs.Order)
	var parts [2][]Ex
	for k, i := range perm.Perm(len(cs.Batch)) {
		h := 0
		if k >= cs.Cut {
			h = 1
		}
		parts[h] = append(parts[h], cs.Batch[i])
	}
	a, _ := predict(parts[0], cs.Seed+1)
	b, _ := predict(parts[1], cs.Seed+2)
	if a+b != got {
		c.Failf("the batch counts %d, split and reordered it counts %d + %d", got, a, b)
	}
}

func last(act [][][]int) (out [][]int) {
	for _, a := range act {
		out = append(out, a[len(a)-1])
	}
	return
}

// ---------------------------------------------------------------- C18 and C20: histories of training and prediction

type Op struct {
	Kind  string // train or predict
	On    int    // member of the family (modulo their number)
	Owner int
	Step  Step
}

type HistoryCase struct {
	Net Net
	Ops []Op
}

func genHistory(t *rapid.T, owners bool) HistoryCase {
	cs := HistoryCase{Net: genNet(t, rapid.IntRange(0, 3).Draw(t, "sampled") > 0)}
	cs.Net.Adam = rapid.IntRange(0, 2).Draw(t, "adam") > 0
	ids := []int{0, 0, 1, 1, 2, 7, -1}
	if rapid.IntRange(0, 4).Draw(t, "farowners") == 4 { // equal in their low bits or in magnitude
		ids = []int{0, 0, 1, -1, 256, 257, 1 << 16, 1 << 32, 1<<32 + 1, -1 << 62}
	}
	for i := genLength(t, cs.Net, 8); i > 0; i-- {
		op := Op{Kind: rapid.SampledFrom([]string{"train", "predict"}).Draw(t, "kind"), Step: genStep(t, cs.Net)}
		if owners {
			op.On = rapid.IntRange(0, 3).Draw(t, "on")
			op.Owner = rapid.SampledFrom(ids).Draw(t, "owner")
		}
		op.Step.Iter = genIter(t)
		cs.Ops = append(cs.Ops, op)
	}
	return cs
}

// genWideHistory: the output layer is wide enough for the topping up to matter.
func genWideHistory(t *rapid.T, owners bool) HistoryCase {
	cs := genHistory(t, owners)
	n := &cs.Net
	last := len(n.Sizes) - 1
	n.Mode = 4
	n.Sizes[last] = rapid.IntRange(1005, 1300).Draw(t, "wide")
	n.Train[last], n.Test[last] = 0.1, 0.1
	n.L[last] = rapid.IntRange(1, 6).Draw(t, "widel")
	n.Batch = min(n.Batch, 5)
	for i := range cs.Ops {
		b := &cs.Ops[i].Step.Batch
		*b = (*b)[:min(len(*b), n.Batch)]
	}
	if len(cs.Ops) > 5 {
		cs.Ops = cs.Ops[:5]
	}
	return cs
}

func (n Net) pinned() bool {
	if !repeatable() {
		return false
	}
	return n.Family != minhash || n.dense(append(append([]vt.F{}, n.Train...), n.Test...))
}

// do performs an operation; the answer of a training step is always 0.
func (n Net) do(net *network.Network, op Op, owner int, b []dataset.Example) (int, *network.Network) {
	n.configure()
	vt.SeedRNG(op.Step.Seed)
	if op.Kind == "predict" {
		return net.PredictClass(owner, b)
	}
	_, out := net.ProcessInput(owner, b, op.Step.Iter, op.Step.Rehash, op.Step.Rebuild)
	return 0, out
}

// twin tells whether tables of two networks of one seed can be compared.
func (n Net) seededTables() bool { return n.Family != minhash }

func runC18(c *vt.Ctx, cs HistoryCase) {
	n := cs.Net
	a, b := n.build(), n.build()
	predicted, trainedAfter := false, false
	for i, op := range cs.Ops {
		batch := n.reuse(op.Step.Batch)
		if op.Kind == "train" {
			_, a = n.do(a, op, 0, batch)
			if n.pinned() {
				_, b = n.do(b, op, 0, n.batch(op.Step.Batch))
				if d := n.state(a).diff(n.state(b)); d != "" {
					c.Failf("step %d: with and without predictions in between, %s", i, d)
				}
				if n.seededTables() {
					if d := n.tables(a).diff(n.tables(b)); d != "" {
						c.Failf("step %d: with and without predictions in between, the tables differ: %s", i, d)
					}
				}
			}
			trainedAfter = trainedAfter || predicted
			continue
		}
		state, tables := n.state(a), n.tables(a)
		keep := n.batch(op.Step.Batch)
		first, a2 := n.do(a, op, 0, batch)
		a = a2
		check := func() {
			if d := state.diff(n.state(a)); d != "" {
				c.Failf("operation %d: a prediction changed the network: before and after, %s", i, d)
			}
			if d := tables.diff(n.tables(a)); d != "" {
				c.Failf("operation %d: a prediction changed the tables: %s", i, d)
			}
			if !sameExamples(batch, keep) {
				c.Failf("operation %d: a prediction modified its examples", i)
			}
		}
		check()
		again, a2 := n.do(a, op, 0, batch)
		a = a2
		if again != first && (repeatable() || !n.drawn(n.Test)) {
			c.Failf("operation %d: a prediction counts %d, repeated %d", i, first, again)
		}
		check()
		if n.pinned() {
			// the answer of a network that never predicted before
			fresh := n.build()
			for _, p := range cs.Ops[:i] {
				if p.Kind == "train" {
					_, fresh = n.do(fresh, p, 0, n.batch(p.Step.Batch))
				}
			}
			if want, _ := n.do(fresh, op, 0, n.batch(op.Step.Batch)); want != first {
				c.Failf("operation %d: a prediction counts %d, without the earlier predictions %d", i, first, want)
			}
		}
		predicted = predicted || len(batch) > 0
	}
	c.Label(fmt.Sprintf("mode %d", n.Mode))
	c.Label(famName[n.Family])
	c.LabelIf(n.pinned(), "twin compared")
	if predicted && trainedAfter {
		c.NonTrivial()
	}
}

// member is a network with the history that made it.
type member struct {
	net     *network.Network
	owner   int
	history []Op
	state   State
	tables  Tables
	work    [][]float64
}

// work is what a network keeps from the last uses of its batch slots: the
// activations of its neurons and the normalisation constants.
func (n Net) work(net *network.Network) (out [][]float64) {
	for li, l := range peek.Layers(net) {
		var w []float64
		for slot := 0; slot < n.Batch; slot++ {
			if li == len(n.Sizes)-1 {
				w = append(w, l.GetNomalizationConstant(slot))
			}
			for i := 0; i < l.NumOfNodes(); i++ {
				w = append(w, l.GetNodeById(i).GetLastActivation(slot))
			}
		}
		out = append(out, w)
	}
	return
}

func runC20(c *vt.Ctx, cs HistoryCase) {
	n := cs.Net
	fam := []*member{{net: n.build()}}
	note := func(m *member) { m.state, m.tables, m.work = n.state(m.net), n.tables(m.net), n.work(m.net) }
	note(fam[0])
	replay := func(m *member) *network.Network {
		s := n.build()
		for _, op := range m.history {
			_, s = n.do(s, op, 0, n.batch(op.Step.Batch))
		}
		return s
	}
	copied, trained := false, false
	for i, op := range cs.Ops {
		m := fam[op.On%len(fam)]
		batch, keep := n.reuse(op.Step.Batch), n.batch(op.Step.Batch)
		var shadow *network.Network
		if n.pinned() {
			shadow = replay(m)
		}
		got, out := n.do(m.net, op, op.Owner, batch)
		if !sameExamples(batch, keep) {
			c.Failf("operation %d modified its examples", i)
		}
		target := m
		if op.Owner != m.owner {
			target = &member{owner: op.Owner, history: append([]Op{}, m.history...)}
			fam = append(fam, target)
			copied = true
		}
		target.net = out
		target.history = append(target.history, op)
		what := fmt.Sprintf("operation %d (%s under owner %d on member %d of owner %d)", i, op.Kind, op.Owner, op.On%len(fam), m.owner)
		if shadow != nil {
			want, shadow := n.do(shadow, op, 0, n.batch(op.Step.Batch))
			if got != want {
				c.Failf("%s answers %d, in place %d", what, got, want)
			}
			if d := n.state(out).diff(n.state(shadow)); d != "" {
				c.Failf("%s differs from the same history in place: %s", what, d)
			}
			if n.seededTables() {
				if d := n.tables(out).diff(n.tables(shadow)); d != "" {
					c.Failf("%s: the tables differ from those of the same history in place: %s", what, d)
				}
			}
		}
		note(target)
		for k, o := range fam {
			if o == target {
				continue
			}
			if d := o.state.diff(n.state(o.net)); d != "" {
				c.Failf("%s changed member %d of owner %d: before and after, %s", what, k, o.owner, d)
			}
			if d := o.tables.diff(n.tables(o.net)); d != "" {
				c.Failf("%s changed the tables of member %d of owner %d: %s", what, k, o.owner, d)
			}
			for l, w := range n.work(o.net) {
				if !vec.SameFloats(w, o.work[l]) {
					c.Failf("%s changed the activations or normalisation constants of layer %d of member %d of owner %d", what, l, k, o.owner)
				}
			}
		}
		trained = trained || (op.Kind == "train" && len(batch) > 0 && len(fam) > 1)
	}
	// the future of every member
	if n.pinned() {
		for k, m := range fam {
			probe := cs.Ops[k%len(cs.Ops)]
			for _, kind := range []string{"predict", "train"} {
				probe.Kind = kind
				shadow := replay(m)
				want, shadow := n.do(shadow, probe, 0, n.batch(probe.Step.Batch))
				got, out := n.do(m.net, probe, m.owner, n.batch(probe.Step.Batch))
				m.net = out
				m.history = append(m.history, probe)
				if got != want {
					c.Failf("in the end member %d of owner %d answers %d, its own history in place %d", k, m.owner, got, want)
				}
				if d := n.state(out).diff(n.state(shadow)); d != "" {
					c.Failf("in the end member %d of owner %d differs from its own history in place: %s", k, m.owner, d)
				}
			}
		}
	}
	c.LabelIf(len(fam) > 2, "three or more networks")
	c.Label(famName[n.Family])
	c.LabelIf(n.pinned(), "shadow compared")
	c.LabelIf(n.Mode == configuration.LayerMode2, "random mode")
	if copied && trained {
		c.NonTrivial()
	}
}
