package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/layer"
	"github.com/nlpodyssey/goslide/node"
	"pgregory.net/rapid"
	"verifharness/peek"
	"verifharness/vec"
	"verifharness/vt"
)

// ------------------------------------------------ C20: single layers under several owner ids

type LayerOp struct {
	Kind  string // query, renew (hash functions), shuffle (random neurons), clear, refill
	On    int    // member (modulo their number)
	Owner int    // query, renew
	Slot  int
	Feat  vec.Spec
	Label int // -1: none
	Dense bool
	Seed  int64
}

type LayerCase struct {
	Family   configuration.HashFunctionType
	Mode     configuration.LayerModeType
	Softmax  bool
	Adam     bool
	N, Prev  int
	Batch    int
	K, L     int
	Range    int
	Sparsity vt.F
	Owner    int
	Seed     int64
	Ops      []LayerOp
}

func genLayers(t *rapid.T) LayerCase {
	cs := LayerCase{Family: configuration.HashFunctionType(rapid.IntRange(1, 4).Draw(t, "family")),
		Mode:    configuration.LayerModeType(rapid.SampledFrom([]int{1, 1, 2, 3, 4, 4}).Draw(t, "mode")),
		Softmax: rapid.Bool().Draw(t, "softmax"), Adam: rapid.Bool().Draw(t, "adam"),
		N: rapid.IntRange(1, 20).Draw(t, "n"), Prev: rapid.IntRange(1, 8).Draw(t, "prev"), Batch: rapid.IntRange(1, 4).Draw(t, "batch"),
		K: 1, L: rapid.IntRange(1, 8).Draw(t, "l"), Range: 3, Sparsity: vt.F(rapid.SampledFrom([]float64{0.5, 0.2, 0.9}).Draw(t, "sparsity")),
		Seed: rapid.Int64Range(1, 1<<40).Draw(t, "seed")}
	ids := []int{0, 0, 1, 1, 2, 7, -1}
	if rapid.IntRange(0, 4).Draw(t, "farowners") == 4 {
		ids = []int{0, 0, 1, -1, 256, 257, 1 << 16, 1 << 32, 1<<32 + 1, -1 << 62}
	}
	cs.Owner = rapid.SampledFrom(ids).Draw(t, "first")
	switch rapid.IntRange(0, 24).Draw(t, "stretch") {
	case 12:
		cs.N, cs.Mode, cs.Prev = rapid.IntRange(1001, 1200).Draw(t, "wide"), 4, 2
	case 13:
		cs.Batch = rapid.IntRange(5, 100).Draw(t, "manyslots")
	case 14:
		cs.Prev = rapid.IntRange(9, 200).Draw(t, "manyinputs")
	case 15:
		cs.L = rapid.IntRange(9, 130).Draw(t, "manytables")
	}
	for i := rapid.IntRange(1, 10).Draw(t, "ops"); i > 0; i-- {
		op := LayerOp{Kind: rapid.SampledFrom([]string{"query", "query", "query", "query", "renew", "renew", "shuffle", "clear", "refill", "refill"}).Draw(t, "kind"),
			On: rapid.IntRange(0, 4).Draw(t, "on"), Owner: rapid.SampledFrom(ids).Draw(t, "owner"), Slot: rapid.IntRange(0, cs.Batch-1).Draw(t, "slot"),
			Feat:  vec.Spec{Kind: rapid.SampledFrom(featKinds).Draw(t, "feat"), Seed: rapid.Uint64Range(0, 1<<30).Draw(t, "fseed")},
			Label: rapid.IntRange(-1, cs.N-1).Draw(t, "label"), Dense: rapid.IntRange(0, 3).Draw(t, "dense") == 0,
			Seed: rapid.Int64Range(1, 1<<40).Draw(t, "opseed")}
		cs.Ops = append(cs.Ops, op)
	}
	return cs
}

func (cs LayerCase) build(owner int) *layer.Layer {
	g := configuration.Default()
	g.HashFunction, g.LayerMode, g.UseAdam, g.LoadWeight = cs.Family, cs.Mode, cs.Adam, true
	configuration.Global = g
	m := vt.Mix(cs.Seed)
	w, b := make([]float64, cs.N*cs.Prev), make([]float64, cs.N)
	for i := range w {
		w[i] = m.Norm()
	}
	for i := range b {
		b[i] = 0.3 * m.Norm()
	}
	typ := node.ReLU
	if cs.Softmax {
		typ = node.Softmax
	}
	vt.SeedRNG(cs.Seed)
	return layer.New(owner, cs.N, cs.Prev, 0, typ, cs.Batch, cs.K, cs.L, cs.Range, float64(cs.Sparsity), w, b,
		make([]float64, len(w)), make([]float64, len(w)))
}

// do performs an operation and returns the layer it yields and what it answers.
func (cs LayerCase) do(l *layer.Layer, op LayerOp, owner int) (*layer.Layer, []index_value.Pair) {
	vt.SeedRNG(op.Seed)
	switch op.Kind {
	case "renew":
		return l.UpdateTable(owner), nil
	case "shuffle":
		l.UpdateRandomNodes()
	case "clear":
		l.ClearHashTables()
	case "refill":
		refill(l)
	case "query":
		act := make([][]index_value.Pair, 2)
		for i, x := range op.Feat.At(cs.Prev) {
			act[0] = append(act[0], index_value.Pair{Index: i, Value: x})
		}
		var labels []int
		if op.Label >= 0 {
			labels = append(labels, op.Label)
		}
		sp := float64(cs.Sparsity)
		if op.Dense {
			sp = 1
		}
		_, l = l.QueryActiveNodeAndComputeActivations(owner, act, 0, op.Slot, labels, sp)
		return l, act[1]
	}
	return l, nil
}

// LayerView is what a layer shows.
type LayerView struct {
	Params, Work []float64
	Tables       []int
	Codes        []int
}

func (cs LayerCase) view(l *layer.Layer) (v LayerView) {
	for i := 0; i < l.NumOfNodes(); i++ {
		nd := l.GetNodeById(i)
		v.Params = append(append(v.Params, nd.Weights()...), nd.GetBias(), nd.GetTBias(), nd.GetAdamAvgMomBias(), nd.GetAdamAvgVelBias())
		for j := 0; j < nd.AdamTDim(); j++ {
			v.Params = append(v.Params, nd.GetT(j), nd.GetAdamAvgMom(j), nd.GetAdamAvgVel(j))
		}
		for s := 0; s < cs.Batch; s++ {
			v.Work = append(v.Work, nd.GetLastActivation(s))
		}
	}
	for s := 0; s < cs.Batch && cs.Softmax; s++ {
		v.Work = append(v.Work, l.GetNomalizationConstant(s))
	}
	if t := peek.LSH(l); t != nil {
		for b := 0; b < 1<<cs.Range; b++ {
			at := make([]int, cs.L)
			for i := range at {
				at[i] = b
			}
			for _, ids := range t.RetrieveRaw(at) {
				ids = append([]int{}, ids...)
				sort.Ints(ids)
				v.Tables = append(append(v.Tables, -1), ids...)
			}
		}
	}
	m := vt.Mix(7)
	for i := 0; i < 3; i++ {
		x := make([]float64, cs.Prev)
		for j := range x {
			x[j] = m.Norm()
		}
		v.Codes = append(v.Codes, l.HashesToIndex(l.GetHashForInputProcessing(x))...)
	}
	return
}

func (v LayerView) diff(o LayerView, seeded bool) string {
	switch {
	case !vec.SameFloats(v.Params, o.Params):
		return "the parameters differ"
	case !vec.SameFloats(v.Work, o.Work):
		return "the activations or normalisation constants differ"
	case seeded && !vec.EqInts(v.Tables, o.Tables):
		return "the tables differ"
	case seeded && !vec.EqInts(v.Codes, o.Codes):
		return "the hash functions differ"
	}
	return ""
}

func samePairs(a, b []index_value.Pair) bool {
	if len(a) != len(b) {
		return false
	}
	key := func(p []index_value.Pair) []index_value.Pair {
		p = vec.ClonePairs(p)
		sort.SliceStable(p, func(i, j int) bool { return p[i].Index < p[j].Index })
		return p
	}
	a, b = key(a), key(b)
	for i := range a {
		if a[i].Index != b[i].Index || math.Float64bits(a[i].Value) != math.Float64bits(b[i].Value) {
			return false
		}
	}
	return true
}

func runLayers(c *vt.Ctx, cs LayerCase) {
	type member struct {
		l       *layer.Layer
		owner   int
		history []LayerOp
		view    LayerView
	}
	first := &member{l: cs.build(cs.Owner), owner: cs.Owner}
	first.view = cs.view(first.l)
	fam := []*member{first}
	pinned := repeatable() && cs.Family != minhash
	replay := func(h []LayerOp) *layer.Layer {
		l := cs.build(0)
		for _, op := range h {
			l, _ = cs.do(l, op, 0)
		}
		return l
	}
	copied, changed := false, false
	for i, op := range cs.Ops {
		m := fam[op.On%len(fam)]
		owner := op.Owner
		if op.Kind != "query" && op.Kind != "renew" {
			owner = m.owner
		}
		what := fmt.Sprintf("operation %d (%s under owner %d on layer %d of owner %d)", i, op.Kind, owner, op.On%len(fam), m.owner)
		var shadow *layer.Layer
		if pinned {
			shadow = replay(m.history)
		}
		out, answer := cs.do(m.l, op, owner)
		target := m
		if owner != m.owner {
			target = &member{owner: owner, history: append([]LayerOp{}, m.history...)}
			fam = append(fam, target)
			copied = true
		}
		target.l = out
		target.history = append(target.history, op)
		target.view = cs.view(out)
		if pinned {
			shadow, want := cs.do(shadow, op, 0)
			if !samePairs(answer, want) {
				c.Failf("%s selects %v, in place %v", what, answer, want)
			}
			if d := target.view.diff(cs.view(shadow), true); d != "" {
				c.Failf("%s, compared with the same history in place: %s", what, d)
			}
		}
		for k, o := range fam {
			if o == target {
				continue
			}
			if d := o.view.diff(cs.view(o.l), true); d != "" {
				c.Failf("%s changed layer %d of owner %d: %s", what, k, o.owner, d)
			}
		}
		changed = changed || copied && len(fam) > 1
		c.Label("layer: " + op.Kind)
	}
	if pinned { // the future of every layer
		for k, m := range fam {
			op := cs.Ops[k%len(cs.Ops)]
			op.Kind, op.Dense = "query", false
			_, want := cs.do(replay(m.history), op, 0)
			if _, got := cs.do(m.l, op, m.owner); !samePairs(got, want) {
				c.Failf("in the end layer %d of owner %d selects %v, its own history in place %v", k, m.owner, got, want)
			}
		}
	}
	if copied && changed && len(cs.Ops) > 2 {
		c.NonTrivial()
	}
}
