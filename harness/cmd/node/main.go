// Checks C19 and C30: copy on write of nodes, and what their operations do.
package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/node"
	"pgregory.net/rapid"
	"verifharness/vt"
)

type Op struct {
	Kind  string
	On    int // member (modulo their number)
	Owner int
	Slot  int
	I     int
	X     vt.F
	Seed  uint64
	Prev  []int // members used as neurons of the previous layer
}

type Case struct {
	Adam  bool
	Soft  bool
	Dim   int
	Batch int
	Via   string // how the first node is made
	Owner int
	Start uint64
	Ops   []Op
}

var kinds = []string{"activate", "activate", "activate", "activate", "extra", "back", "back", "back", "backfirst", "delta", "delta", "setlast", "perturb", "mirror",
	"t", "mom", "vel", "mombias", "velbias", "bias", "tbias", "update"}

func gen(t *rapid.T) Case {
	cs := Case{Adam: rapid.Bool().Draw(t, "adam"), Soft: rapid.Bool().Draw(t, "soft"), Dim: rapid.IntRange(1, 5).Draw(t, "dim"),
		Batch: rapid.IntRange(1, 3).Draw(t, "batch"), Via: rapid.SampledFrom([]string{"new", "update"}).Draw(t, "via"),
		Owner: rapid.SampledFrom([]int{0, 0, 3}).Draw(t, "first"), Start: rapid.Uint64Range(0, 1<<30).Draw(t, "start")}
	number := rapid.IntRange(1, 14).Draw(t, "ops")
	switch rapid.IntRange(0, 50).Draw(t, "stretch") { // one measure far beyond the others
	case 30:
		cs.Dim = rapid.IntRange(6, 300).Draw(t, "manyweights")
	case 31:
		cs.Batch = rapid.IntRange(4, 150).Draw(t, "manyslots")
	case 32:
		number = rapid.IntRange(15, 80).Draw(t, "manyops")
	}
	ids := []int{0, 0, 1, 1, 2, 3, -1}
	if rapid.IntRange(0, 4).Draw(t, "farowners") == 4 { // equal in their low bits or in magnitude
		ids = []int{0, 0, 3, -3, 256, 259, 1 << 16, 1 << 32, 1<<32 + 3, -1 << 62}
	}
	owners := rapid.SampledFrom(ids)
	for i := number; i > 0; i-- {
		op := Op{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), On: rapid.IntRange(0, 4).Draw(t, "on"), Owner: owners.Draw(t, "owner"),
			Slot: rapid.IntRange(0, cs.Batch-1).Draw(t, "slot"), I: rapid.IntRange(0, cs.Dim-1).Draw(t, "i"),
			X:    vt.F(rapid.SampledFrom([]float64{1, -1, 0.5, 2.25, -3, 0}).Draw(t, "x")),
			Seed: rapid.Uint64Range(0, 1<<30).Draw(t, "seed")}
		if op.Kind == "back" {
			op.Prev = rapid.SliceOfN(rapid.IntRange(0, 4), 1, cs.Dim).Draw(t, "prev")
		}
		cs.Ops = append(cs.Ops, op)
	}
	return cs
}

// View is everything a node shows.
type View struct {
	W, M, V, T         []float64
	Acts, Deltas       []float64
	B, B2, MB, VB, TBi float64
}

func (cs Case) view(n *node.Node) View {
	v := View{W: append([]float64(nil), n.Weights()...), B: n.Bias(), B2: n.GetBias(), MB: n.GetAdamAvgMomBias(), VB: n.GetAdamAvgVelBias(), TBi: n.GetTBias()}
	for i := 0; i < n.AdamTDim(); i++ {
		v.M = append(v.M, n.GetAdamAvgMom(i))
		v.V = append(v.V, n.GetAdamAvgVel(i))
		v.T = append(v.T, n.GetT(i))
	}
	for s := 0; s < cs.Batch; s++ {
		v.Acts = append(v.Acts, n.GetLastActivation(s))
		v.Deltas = append(v.Deltas, n.GetGradient(0, 0, s, 1))
	}
	return v
}

func (a View) diff(b View) string {
	fs := func(name string, x, y []float64) string {
		if len(x) != len(y) {
			return fmt.Sprintf("%s: %d and %d values", name, len(x), len(y))
		}
		for i := range x {
			if x[i] != y[i] && !(math.IsNaN(x[i]) && math.IsNaN(y[i])) {
				return fmt.Sprintf("%s %d: %v and %v", name, i, x[i], y[i])
			}
		}
		return ""
	}
	for _, d := range []string{fs("weight", a.W, b.W), fs("moment", a.M, b.M), fs("second moment", a.V, b.V), fs("gradient", a.T, b.T),
		fs("activation of slot", a.Acts, b.Acts), fs("delta of slot", a.Deltas, b.Deltas),
		fs("bias value", []float64{a.B, a.B2, a.MB, a.VB, a.TBi}, []float64{b.B, b.B2, b.MB, b.VB, b.TBi})} {
		if d != "" {
			return d
		}
	}
	return ""
}

func values(m *vt.Mix, n int) []float64 {
	out := make([]float64, n)
	for i := range out {
		out[i] = math.Round(m.Norm()*8) / 8
	}
	return out
}

func (cs Case) typ() node.NodeType {
	if cs.Soft {
		return node.Softmax
	}
	return node.ReLU
}

func (cs Case) create(owner int) *node.Node {
	m := vt.Mix(cs.Start)
	w, mom, vel := values(&m, cs.Dim), values(&m, cs.Dim), values(&m, cs.Dim)
	b := m.Norm()
	if cs.Via == "new" {
		return node.NewNode(owner, cs.Dim, 1, 0, cs.typ(), cs.Batch, w, b, mom, vel)
	}
	return node.NewEmptyNode(owner).Update(owner, cs.Dim, 1, 0, cs.typ(), cs.Batch, w, b, mom, vel, blob(owner, cs.Batch))
}

func blob(owner, n int) []*node.NodeTrain {
	out := make([]*node.NodeTrain, n)
	for i := range out {
		out[i] = node.NewNodeTrain(owner)
	}
	return out
}

// pairs is an operation's input; more numbers are drawn from m.
func (cs Case) pairs(op Op) (pairs []index_value.Pair, m vt.Mix) {
	m = vt.Mix(op.Seed)
	for _, i := range m.Perm(cs.Dim)[:1+m.Intn(cs.Dim)] {
		pairs = append(pairs, index_value.Pair{Index: i, Value: math.Round(m.Norm()*8) / 8})
	}
	return
}

func (v View) clone() View {
	for _, f := range []*[]float64{&v.W, &v.M, &v.V, &v.T, &v.Acts, &v.Deltas} {
		*f = append([]float64(nil), *f...)
	}
	return v
}

// reads tells how a node reads after an operation that does no more than set
// values.
func (cs Case) reads(v View, op Op) (View, bool) {
	v = v.clone()
	x := float64(op.X)
	switch op.Kind {
	case "t":
		v.T[op.I] = x
	case "mom":
		v.M[op.I] = x
	case "vel":
		v.V[op.I] = x
	case "mombias":
		v.MB = x
	case "velbias":
		v.VB = x
	case "bias":
		v.B, v.B2 = x, x
	case "tbias":
		v.TBi = x
	case "perturb":
		v.W[op.I] += x
	case "setlast":
		if v.Acts[op.Slot] == 0 { // perhaps not active
			return v, false
		}
		v.Acts[op.Slot] = math.Abs(x)
	case "update":
		_, m := cs.pairs(op)
		v.W, v.B, v.B2 = values(&m, cs.Dim), x, x
		mom, vel := values(&m, cs.Dim), values(&m, cs.Dim)
		if cs.Adam {
			v.M, v.V, v.T = mom, vel, make([]float64, cs.Dim)
		}
		v.Acts, v.Deltas = make([]float64, cs.Batch), make([]float64, cs.Batch)
	default:
		return v, false
	}
	return v, true
}

// apply performs an operation. The previous layer's neurons may be replaced.
func (cs Case) apply(n *node.Node, op Op, owner int, prev []*node.Node) (out *node.Node, answer float64, refused bool) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); !ok || s != "Input Not Active but still called" {
				panic(r)
			}
			refused = true
		}
	}()
	x := float64(op.X)
	pairs, m := cs.pairs(op)
	switch op.Kind {
	case "activate":
		answer, out = n.GetActivation(owner, pairs, op.Slot)
	case "extra":
		out = n.ComputeExtaStatsForSoftMax(owner, 1+math.Abs(x), op.Slot, []int{op.I})
	case "back":
		var act []index_value.Pair
		for i := range prev {
			act = append(act, index_value.Pair{Index: i, Value: 1})
		}
		out = n.BackPropagate(owner, &prev, act, 0.5, op.Slot)
	case "backfirst":
		out = n.BackPropagateFirstLayer(owner, pairs, 0.5, op.Slot)
	case "delta":
		out = n.IncrementDelta(owner, op.Slot, x)
	case "setlast":
		out = n.SetlastActivation(owner, op.Slot, math.Abs(x))
	case "perturb":
		answer, out = n.PurturbWeight(owner, op.I, x)
	case "mirror":
		out = n.CopyWeightsAndBiasFromMirror(owner)
	case "t":
		out = n.SetT(owner, op.I, x)
	case "mom":
		out = n.SetAdamAvgMom(owner, op.I, x)
	case "vel":
		out = n.SetAdamAvgVel(owner, op.I, x)
	case "mombias":
		out = n.SetAdamAvgMomBias(owner, x)
	case "velbias":
		out = n.SetAdamAvgVelBias(owner, x)
	case "bias":
		out = n.SetBias(owner, x)
	case "tbias":
		out = n.SetTBias(owner, x)
	case "update":
		out = n.Update(owner, cs.Dim, op.I, 0, cs.typ(), cs.Batch, values(&m, cs.Dim), x, values(&m, cs.Dim), values(&m, cs.Dim), blob(owner, cs.Batch))
	}
	return
}

type member struct {
	n      *node.Node
	shadow *node.Node // the same history in place
	owner  int
	log    []logged
	view   View
}

// logged is an operation with the histories of the previous neurons it used.
type logged struct {
	op   Op
	prev [][]logged
}

// rebuild replays a history in place under one owner.
func (cs Case) rebuild(log []logged) *node.Node {
	n := cs.create(0)
	for _, l := range log {
		if l.op.Kind == "received" {
			n = n.IncrementDelta(0, l.op.Slot, float64(l.op.X))
			continue
		}
		var prev []*node.Node
		for _, p := range l.prev {
			prev = append(prev, cs.rebuild(p))
		}
		if out, _, refused := cs.apply(n, l.op, 0, prev); !refused {
			n = out
		}
	}
	return n
}

func run(c *vt.Ctx, cs Case) {
	g := configuration.Default()
	g.UseAdam = cs.Adam
	configuration.Global = g
	first := &member{n: cs.create(cs.Owner), shadow: cs.create(0), owner: cs.Owner}
	first.view = cs.view(first.n)
	m := vt.Mix(cs.Start)
	given := View{W: values(&m, cs.Dim), Acts: make([]float64, cs.Batch), Deltas: make([]float64, cs.Batch)}
	mom, vel := values(&m, cs.Dim), values(&m, cs.Dim)
	if cs.Adam {
		given.M, given.V, given.T = mom, vel, make([]float64, cs.Dim)
	}
	given.B = m.Norm()
	given.B2 = given.B
	if d := given.diff(first.view); d != "" {
		c.Failf("a new node, given and read: %s", d)
	}
	fam := []*member{first}
	copied, after := false, false
	for i, op := range cs.Ops {
		if !cs.Adam && (op.Kind == "t" || op.Kind == "mom" || op.Kind == "vel") {
			continue
		}
		at := op.On % len(fam)
		m := fam[at]
		what := fmt.Sprintf("operation %d (%s under owner %d on member %d of owner %d)", i, op.Kind, op.Owner, at, m.owner)
		// the previous layer's neurons: distinct members other than m, active in the slot
		var prevM []*member
		var prev, shadowPrev []*node.Node
		var prevLogs [][]logged
		used := map[int]bool{at: true}
		for _, p := range op.Prev {
			if p %= len(fam); !used[p] && len(prev) < cs.Dim {
				used[p] = true
				probe, _, refused := cs.apply(cs.rebuild(fam[p].log), Op{Kind: "delta", Slot: op.Slot, X: 0}, 0, nil)
				if _ = probe; refused {
					continue
				}
				prevM = append(prevM, fam[p])
				prev = append(prev, fam[p].n)
				shadowPrev = append(shadowPrev, cs.rebuild(fam[p].log))
				prevLogs = append(prevLogs, append([]logged{}, fam[p].log...))
			}
		}
		shadow := cs.rebuild(m.log)
		want, wantAnswer, wantRefused := cs.apply(shadow, op, 0, shadowPrev)
		got, answer, refused := cs.apply(m.n, op, op.Owner, prev)
		if refused != wantRefused {
			c.Failf("%s is refused: %v, in place: %v", what, refused, wantRefused)
		}
		if refused {
			// nothing may change
			for k, o := range fam {
				if d := o.view.diff(cs.view(o.n)); d != "" {
					c.Failf("%s was refused and changed member %d: %s", what, k, d)
				}
			}
			continue
		}
		if answer != wantAnswer && !(math.IsNaN(answer) && math.IsNaN(wantAnswer)) {
			c.Failf("%s answers %v, in place %v", what, answer, wantAnswer)
		}
		if d := cs.view(got).diff(cs.view(want)); d != "" {
			c.Failf("%s: the node it returns differs from the same history in place: %s", what, d)
		}
		if expected, ok := cs.reads(m.view, op); ok {
			if d := expected.diff(cs.view(got)); d != "" {
				c.Failf("%s: expected and read, %s", what, d)
			}
		}
		changed := map[*member]bool{}
		settle := func(m *member, n *node.Node, l logged) {
			if n == m.n && op.Owner != m.owner { // fine only if there was nothing to do
				if d := m.view.diff(cs.view(n)); d != "" {
					c.Failf("%s changed the node itself: %s", what, d)
				}
				changed[m] = true
				return
			}
			if n == m.n {
				m.log = append(m.log, l)
				m.view = cs.view(n)
				changed[m] = true
				return
			}
			if op.Owner == m.owner {
				// the operation must show through the node itself
				if d := cs.view(m.n).diff(cs.view(n)); d != "" {
					c.Failf("%s does not show through the node itself: %s", what, d)
				}
				m.n = n
				m.log = append(m.log, l)
				m.view = cs.view(n)
				changed[m] = true
				return
			}
			nm := &member{n: n, owner: op.Owner, log: append(append([]logged{}, m.log...), l), view: cs.view(n)}
			fam = append(fam, nm)
			changed[nm] = true
			copied = true
		}
		for k := range prev {
			if d := cs.view(prev[k]).diff(cs.view(shadowPrev[k])); d != "" {
				c.Failf("%s: previous neuron %d differs from the same history in place: %s", what, k, d)
			}
		}
		settle(m, got, logged{op, prevLogs})
		if op.Kind == "back" && len(prev) > 0 {
			c.Label("back-propagation into the previous layer")
		}
		for k := range prev {
			// its delta grew by the difference of what it shows
			d := cs.view(cs.rebuild(prevLogs[k])).Deltas[op.Slot] - cs.view(shadowPrev[k]).Deltas[op.Slot]
			settle(prevM[k], prev[k], logged{op: Op{Kind: "received", Slot: op.Slot, X: vt.F(d)}})
		}
		for k, o := range fam {
			if changed[o] {
				continue
			}
			if d := o.view.diff(cs.view(o.n)); d != "" {
				c.Failf("%s changed member %d of owner %d: before and after, %s", what, k, o.owner, d)
			}
		}
		after = after || copied
		c.Label(op.Kind)
		c.LabelIf(op.Owner != m.owner, "under another owner")
	}
	if copied && after && len(fam) > 1 && len(cs.Ops) > 2 {
		c.NonTrivial()
	}
	c.LabelIf(len(fam) > 3, "four or more nodes")
}

func main() {
	vt.Main(map[string][]vt.Part{
		"C19": {vt.Check[Case]{Name: "copies", Quick: 40000, Thorough: 1500000, Gen: gen, Run: run}},
		"C30": {vt.Check[WorkCase]{Name: "neurons", Quick: 40000, Thorough: 1500000, Gen: genWork, Run: runWork},
			vt.Check[MisuseCase]{Name: "misuse", Quick: 400, Thorough: 4000, Gen: genMisuse, Run: runMisuse}},
	})
}
