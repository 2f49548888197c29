package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/layer"
	"github.com/nlpodyssey/goslide/node"
	"pgregory.net/rapid"
	"verifharness/vt"
)

// ---------------------------------------------------------------- C30: what the operations of neurons do

type WorkOp struct {
	Kind   string
	Upper  bool // on a neuron of the upper layer
	On     int  // which (modulo their number)
	Slot   int
	X      vt.F
	Seed   uint64
	Labels []int
}

type WorkCase struct {
	Adam, Soft   bool
	Dim          int // inputs
	Lower, Upper int // neurons
	Batch        int
	Via          string
	LR           vt.F
	Start        uint64
	Ops          []WorkOp
}

var workKinds = []string{"activate", "activate", "activate", "activate", "activate", "extra", "extra", "back", "back", "back", "delta", "delta", "setlast", "mirror", "clear", "all", "all", "all", "beyond"}

func genWork(t *rapid.T) WorkCase {
	cs := WorkCase{Adam: rapid.Bool().Draw(t, "adam"), Soft: rapid.IntRange(0, 2).Draw(t, "soft") > 0, Dim: rapid.IntRange(1, 6).Draw(t, "dim"),
		Lower: rapid.IntRange(1, 4).Draw(t, "lower"), Upper: rapid.IntRange(1, 3).Draw(t, "upper"), Batch: rapid.IntRange(1, 4).Draw(t, "batch"),
		Via: rapid.SampledFrom([]string{"new", "update"}).Draw(t, "via"), LR: vt.F(rapid.SampledFrom([]float64{0.5, 0.25, 1, 0.01}).Draw(t, "lr")),
		Start: rapid.Uint64Range(0, 1<<30).Draw(t, "start")}
	number := rapid.IntRange(1, 25).Draw(t, "ops")
	switch rapid.IntRange(0, 40).Draw(t, "stretch") {
	case 30:
		cs.Dim = rapid.IntRange(7, 600).Draw(t, "manyinputs")
	case 31:
		cs.Lower = rapid.IntRange(5, 300).Draw(t, "manyneurons")
	case 32:
		cs.Batch = rapid.IntRange(5, 300).Draw(t, "manyslots")
	case 33:
		number = rapid.IntRange(26, 150).Draw(t, "manyops")
	}
	slots := rapid.OneOf(rapid.IntRange(0, min(2, cs.Batch)-1), rapid.IntRange(0, cs.Batch-1))
	for ; number > 0; number-- {
		op := WorkOp{Kind: rapid.SampledFrom(workKinds).Draw(t, "kind"), Upper: rapid.Bool().Draw(t, "isupper"), On: rapid.IntRange(0, 3).Draw(t, "on"),
			Slot: slots.Draw(t, "slot"), X: vt.F(rapid.SampledFrom([]float64{1, -1, 0.5, 2.25, -3, 0, 0.125}).Draw(t, "x")),
			Seed: rapid.Uint64Range(0, 1<<30).Draw(t, "seed")}
		if op.Kind == "extra" || op.Kind == "all" {
			op.Labels = rapid.SliceOfN(rapid.IntRange(0, cs.Upper), 0, 4).Draw(t, "labels")
		}
		cs.Ops = append(cs.Ops, op)
	}
	return cs
}

// slot and neuron are the reference.
type slot struct {
	used  bool
	act   float64
	delta float64
}

type neuron struct {
	id        int
	soft      bool
	batch     int
	w, next   []float64 // next: what the weights become at the end of the batch, without Adam
	b, bnext  float64
	m, v, t   []float64
	tb        float64
	slots     []slot
	real      *node.Node
	magnitude float64 // of the largest number that went into it
}

func (x *neuron) note(vs ...float64) {
	for _, v := range vs {
		x.magnitude = math.Max(x.magnitude, math.Abs(v))
	}
}

func near(a, b, magnitude float64) bool {
	return a == b || math.Abs(a-b) <= 1e-11*(1+magnitude)*(1+magnitude)
}

// differs compares everything a neuron shows with the reference.
func (x *neuron) differs(adam bool) string {
	n := x.real
	if len(n.Weights()) != len(x.w) {
		return fmt.Sprintf("%d weights", len(n.Weights()))
	}
	for i, w := range n.Weights() {
		if !near(w, x.w[i], x.magnitude) {
			return fmt.Sprintf("weight %d is %v, want %v", i, w, x.w[i])
		}
	}
	if !near(n.Bias(), x.b, x.magnitude) || n.Bias() != n.GetBias() {
		return fmt.Sprintf("the bias is %v and %v, want %v", n.Bias(), n.GetBias(), x.b)
	}
	if adam {
		for i := range x.t {
			if !near(n.GetT(i), x.t[i], x.magnitude) || n.GetAdamAvgMom(i) != x.m[i] || n.GetAdamAvgVel(i) != x.v[i] {
				return fmt.Sprintf("gradient %d is %v, want %v, its averages are %v and %v, want %v and %v", i, n.GetT(i), x.t[i], n.GetAdamAvgMom(i), n.GetAdamAvgVel(i), x.m[i], x.v[i])
			}
		}
		if !near(n.GetTBias(), x.tb, x.magnitude) {
			return fmt.Sprintf("the gradient of the bias is %v, want %v", n.GetTBias(), x.tb)
		}
	}
	for s, want := range x.slots {
		act := 0.0
		if want.used {
			act = want.act
		}
		if got := n.GetLastActivation(s); !near(got, act, x.magnitude) {
			return fmt.Sprintf("the activation of slot %d is %v, want %v", s, got, act)
		}
		if got := -n.GetGradient(0, 0, s, 1); !near(got, want.delta, x.magnitude) {
			return fmt.Sprintf("the delta of slot %d is %v, want %v", s, got, want.delta)
		}
		if got := -n.GetGradient(0, 0, s, -2.5); !near(got, -2.5*want.delta, x.magnitude) {
			return fmt.Sprintf("the gradient reported for slot %d and input -2.5 is %v, want %v", s, -got, 2.5*want.delta)
		}
	}
	return ""
}

func (cs WorkCase) neuron(m *vt.Mix, id, dim, at int, soft bool) *neuron {
	x := &neuron{id: id, soft: soft, batch: cs.Batch, w: values(m, dim), b: math.Round(m.Norm()*8) / 8, slots: make([]slot, cs.Batch)}
	x.next, x.bnext = append([]float64(nil), x.w...), x.b
	var mom, vel []float64
	if cs.Adam {
		x.m, x.v, x.t = values(m, dim), values(m, dim), make([]float64, dim)
		mom, vel = append([]float64(nil), x.m...), append([]float64(nil), x.v...)
	}
	typ := node.ReLU
	if soft {
		typ = node.Softmax
	}
	w := append([]float64(nil), x.w...)
	if cs.Via == "new" {
		x.real = node.NewNode(0, dim, id, at, typ, cs.Batch, w, x.b, mom, vel)
	} else {
		x.real = node.NewEmptyNode(0).Update(0, dim, id, at, typ, cs.Batch, w, x.b, mom, vel, blob(0, cs.Batch))
	}
	x.note(x.w...)
	x.note(x.b)
	return x
}

func runWork(c *vt.Ctx, cs WorkCase) {
	g := configuration.Default()
	g.UseAdam = cs.Adam
	configuration.Global = g
	m := vt.Mix(cs.Start)
	var lower, upper []*neuron
	for i := 0; i < cs.Lower; i++ {
		lower = append(lower, cs.neuron(&m, i, cs.Dim, 0, false))
	}
	for i := 0; i < cs.Upper; i++ {
		upper = append(upper, cs.neuron(&m, i, cs.Lower, 1, cs.Soft))
	}
	all := append(append([]*neuron{}, lower...), upper...)
	check := func(what string) {
		for k, x := range all {
			if d := x.differs(cs.Adam); d != "" {
				where := fmt.Sprintf("lower neuron %d", k)
				if k >= cs.Lower {
					where = fmt.Sprintf("upper neuron %d", k-cs.Lower)
				}
				c.Failf("%s: in %s %s", what, where, d)
			}
		}
	}
	check("at first")
	refused := func(f func()) (yes bool) {
		defer func() { yes = recover() != nil }()
		f()
		return
	}
	lr := float64(cs.LR)
	unsure, freed, deep := false, false, false

	activate := func(x *neuron, in []index_value.Pair, s int) (skipped bool) {
		if x.slots[s].delta != 0 {
			return true
		}
		z, size := x.b, math.Abs(x.b)
		for _, p := range in {
			z += x.w[p.Index] * p.Value
			size += math.Abs(x.w[p.Index] * p.Value)
			x.note(p.Value)
		}
		x.note(size)
		if !x.soft {
			unsure = unsure || z != 0 && math.Abs(z) < 1e-9*(1+x.magnitude)
			z = math.Max(0, z)
		}
		x.slots[s] = slot{used: true, act: z}
		var got float64
		got, x.real = x.real.GetActivation(0, append([]index_value.Pair{}, in...), s)
		if !near(got, z, x.magnitude) {
			c.Failf("a neuron with weights %v and bias %v answers %v to the input %v, want %v", x.w, x.b, got, in, z)
		}
		return
	}
	extra := func(x *neuron, norm float64, s int, labels []int) {
		t := &x.slots[s]
		t.act /= norm + 1e-7
		t.delta = -t.act / float64(x.batch)
		if containsInt(labels, x.id) {
			t.delta = (1/float64(len(labels)) - t.act) / float64(x.batch)
		}
		x.note(t.act, t.delta)
		x.real = x.real.ComputeExtaStatsForSoftMax(0, norm, s, append([]int{}, labels...))
	}
	grow := func(x *neuron, i int, grad float64) {
		x.note(grad)
		if cs.Adam {
			x.t[i] += grad
			x.note(x.t[i])
		} else {
			x.next[i] += lr * grad
			x.note(x.next[i])
		}
	}
	finish := func(x *neuron, s int) {
		d := x.slots[s].delta
		if cs.Adam {
			x.tb += d
			x.note(x.tb)
		} else {
			x.bnext += lr * d
			x.note(x.bnext)
		}
		x.slots[s] = slot{}
		freed = true
	}
	// back-propagation of an upper neuron into the lower ones given
	back := func(x *neuron, below []int, s int) {
		nodes := make([]*node.Node, len(lower))
		var act []index_value.Pair
		for i, l := range lower {
			nodes[i] = l.real
		}
		d := x.slots[s].delta
		for _, i := range below {
			act = append(act, index_value.Pair{Index: i, Value: 99}) // the activation counts that the neuron keeps
			l := lower[i]
			if l.slots[s].act > 0 {
				l.slots[s].delta += d * x.w[i]
				l.note(l.slots[s].delta, x.magnitude)
				deep = deep || d != 0
			}
			x.note(l.slots[s].act)
			grow(x, i, d*l.slots[s].act)
		}
		finish(x, s)
		x.real = x.real.BackPropagate(0, &nodes, act, lr, s)
		for i := range lower {
			lower[i].real = nodes[i]
		}
	}
	backFirst := func(x *neuron, in []index_value.Pair, s int) {
		d := x.slots[s].delta
		for _, p := range in {
			grow(x, p.Index, d*p.Value)
		}
		finish(x, s)
		x.real = x.real.BackPropagateFirstLayer(0, append([]index_value.Pair{}, in...), lr, s)
	}
	draw := func(m *vt.Mix, dim int) (in []index_value.Pair) {
		for k := m.Intn(min(dim, 40) + 1); k > 0; k-- { // a coordinate may come more than once
			in = append(in, index_value.Pair{Index: m.Intn(dim), Value: math.Round(m.Norm()*8) / 8})
		}
		return
	}
	for i, op := range cs.Ops {
		group, dim := lower, cs.Dim
		if op.Upper {
			group, dim = upper, cs.Lower
		}
		x, s := group[op.On%len(group)], op.Slot
		m := vt.Mix(op.Seed)
		in := draw(&m, dim)
		what := fmt.Sprintf("operation %d (%s, upper %v, neuron %d, slot %d)", i, op.Kind, op.Upper, x.id, s)
		misuse := func(f func()) {
			if !refused(f) {
				c.Failf("%s: not refused, the slot is not in use", what)
			}
			c.Label("refused")
		}
		switch op.Kind {
		case "activate":
			if activate(x, in, s) {
				c.Label("left out: a slot with a pending delta")
			}
		case "extra":
			if !x.soft {
				continue
			}
			if !x.slots[s].used {
				misuse(func() { x.real.ComputeExtaStatsForSoftMax(0, 1, s, op.Labels) })
				break
			}
			extra(x, 0.5+math.Abs(float64(op.X)), s, op.Labels)
		case "delta":
			if !x.slots[s].used {
				misuse(func() { x.real.IncrementDelta(0, s, 1) })
				break
			}
			if x.slots[s].act > 0 {
				x.slots[s].delta += float64(op.X)
			}
			x.note(x.slots[s].delta)
			x.real = x.real.IncrementDelta(0, s, float64(op.X))
		case "back":
			if !op.Upper {
				if !x.slots[s].used {
					misuse(func() { x.real.BackPropagateFirstLayer(0, in, lr, s) })
					break
				}
				backFirst(x, in, s)
				break
			}
			var below []int
			for _, j := range m.Perm(cs.Lower) {
				if lower[j].slots[s].used && m.Intn(4) > 0 {
					below = append(below, j)
				}
			}
			if !x.slots[s].used {
				nodes := make([]*node.Node, len(lower))
				for i, l := range lower {
					nodes[i] = l.real
				}
				misuse(func() { x.real.BackPropagate(0, &nodes, nil, lr, s) })
				break
			}
			back(x, below, s)
		case "setlast":
			if !x.slots[s].used || x.slots[s].delta != 0 {
				continue
			}
			x.slots[s].act = math.Abs(float64(op.X))
			x.real = x.real.SetlastActivation(0, s, math.Abs(float64(op.X)))
		case "mirror": // the end of a batch without Adam
			if cs.Adam {
				continue
			}
			x.w, x.b = append([]float64(nil), x.next...), x.bnext
			x.note(x.w...)
			x.real = x.real.CopyWeightsAndBiasFromMirror(0)
		case "clear": // and with Adam
			if !cs.Adam {
				continue
			}
			for d := range x.t {
				x.t[d] = 0
				x.real = x.real.SetT(0, d, 0)
			}
			x.tb = 0
			x.real = x.real.SetTBias(0, 0)
		case "beyond":
			for _, s := range []int{cs.Batch, cs.Batch + 1, -1} {
				if !refused(func() { x.real.GetActivation(0, in, s) }) {
					c.Failf("%s: slot %d of a batch of %d is accepted", what, s, cs.Batch)
				}
			}
		case "all": // a whole example, forward and backward
			in := draw(&m, cs.Dim)
			busy := false
			for _, y := range all {
				busy = busy || y.slots[s].delta != 0
			}
			if busy || !cs.Soft {
				continue
			}
			var acts []index_value.Pair
			var below []int
			for j, y := range lower {
				activate(y, in, s)
				if m.Intn(4) > 0 {
					acts = append(acts, index_value.Pair{Index: j, Value: y.slots[s].act})
					below = append(below, j)
				}
			}
			for _, y := range upper {
				activate(y, acts, s)
				v := math.Min(50, math.Abs(y.slots[s].act))
				y.slots[s].act = v
				y.real = y.real.SetlastActivation(0, s, v)
				extra(y, 1+v, s, op.Labels)
			}
			check(what + ", forward")
			for _, y := range upper {
				back(y, below, s)
			}
			check(what + ", back into the lower layer")
			for _, j := range below {
				backFirst(lower[j], in, s)
			}
			c.Label("whole example")
		}
		if unsure {
			c.Label("a ReLU argument too close to call")
			return
		}
		top := 0.0
		for _, y := range all {
			top = math.Max(top, y.magnitude)
		}
		if top > 1e6 {
			c.Label("numbers out of hand")
			return
		}
		check(what)
		c.Label(op.Kind)
	}
	if freed && deep {
		c.NonTrivial()
	}
}

func containsInt(s []int, v int) bool {
	for _, x := range s {
		if x == v {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- C30: layers refuse misuse

type MisuseCase struct {
	Family, Bad int
	Mode        int
	Soft        bool
	N, Prev     int
	Sparsity    vt.F
	Seed        int64
}

func genMisuse(t *rapid.T) MisuseCase {
	return MisuseCase{Family: rapid.IntRange(1, 4).Draw(t, "family"), Bad: rapid.SampledFrom([]int{0, 5, 6, -1, 100, 1 << 40}).Draw(t, "bad"),
		Mode: rapid.SampledFrom([]int{1, 4}).Draw(t, "mode"), Soft: rapid.Bool().Draw(t, "soft"), N: rapid.IntRange(1, 12).Draw(t, "n"),
		Prev: rapid.IntRange(1, 12).Draw(t, "prev"), Sparsity: vt.F(rapid.SampledFrom([]float64{0.1, 0.5, 0.9}).Draw(t, "sparsity")),
		Seed: rapid.Int64Range(1, 1<<40).Draw(t, "seed")}
}

func runMisuse(c *vt.Ctx, cs MisuseCase) {
	g := configuration.Default()
	g.HashFunction = configuration.HashFunctionType(cs.Family)
	g.LayerMode = configuration.LayerModeType(cs.Mode)
	configuration.Global = g
	vt.SeedRNG(cs.Seed)
	typ := node.ReLU
	if cs.Soft {
		typ = node.Softmax
	}
	create := func() *layer.Layer {
		return layer.New(0, cs.N, cs.Prev, 0, typ, 2, 1, 3, 3, float64(cs.Sparsity), nil, nil, nil, nil)
	}
	l := create()
	refused := func(f func()) (yes bool) {
		defer func() { yes = recover() != nil }()
		f()
		return
	}
	if r := refused(func() { l.GetNomalizationConstant(0) }); r == cs.Soft {
		c.Failf("the normalisation constant of a layer (softmax: %v) is refused: %v", cs.Soft, r)
	}
	in := make([]float64, cs.Prev)
	var pairs []index_value.Pair
	for i := range in {
		in[i] = float64(i%5) - 1.5
		pairs = append(pairs, index_value.Pair{Index: i, Value: in[i]})
	}
	configuration.Global.HashFunction = configuration.HashFunctionType(cs.Bad)
	for what, f := range map[string]func(){
		"a new layer":        func() { create() },
		"new hash functions": func() { l.UpdateTable(0) },
		"a hash code":        func() { l.GetHashForInputProcessing(in) },
		"a selection": func() {
			act := [][]index_value.Pair{pairs, nil}
			l.QueryActiveNodeAndComputeActivations(0, act, 0, 0, []int{}, float64(cs.Sparsity))
		},
	} {
		if !refused(f) {
			c.Failf("hash function %d: %s is not refused", cs.Bad, what)
		}
	}
	configuration.Global.HashFunction = configuration.HashFunctionType(cs.Family)
	if refused(func() { l.GetHashForInputProcessing(in) }) {
		c.Failf("a hash code is refused with hash function %d", cs.Family)
	}
	c.NonTrivial()
}
