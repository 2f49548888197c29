package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/layer"
	"github.com/nlpodyssey/goslide/network"
	"github.com/nlpodyssey/goslide/node"
	"pgregory.net/rapid"
	"verifharness/peek"
	"verifharness/vec"
	"verifharness/vt"
)

// ---------------------------------------------------------------- C25: fresh networks

type FreshCase struct {
	Net  Net
	Free bool // created as in production, seeded from the clock
}

func genFresh(t *rapid.T) FreshCase {
	n := genNet(t, rapid.Bool().Draw(t, "sampled"))
	n.Params = "fresh"
	n.Twins = false
	n.Adam = rapid.IntRange(0, 3).Draw(t, "adam") > 0
	if rapid.IntRange(0, 2).Draw(t, "wide") > 0 {
		n.InputDim = rapid.IntRange(1, 200).Draw(t, "inputs")
		for i := range n.Sizes {
			n.Sizes[i] = rapid.IntRange(1, 60).Draw(t, "neurons")
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "square") == 0 { // layers of one shape
		for i := range n.Sizes {
			n.Sizes[i] = n.InputDim%60 + 1
		}
		n.InputDim = n.Sizes[0]
	}
	return FreshCase{Net: n, Free: rapid.IntRange(0, 2).Draw(t, "free") == 0}
}

// genVast makes networks of up to hundreds of thousands of parameters.
func genVast(t *rapid.T) FreshCase {
	cs := genFresh(t)
	cs.Net.InputDim = rapid.IntRange(20, 700).Draw(t, "vastinputs")
	cs.Net.Batch = 1
	for i := range cs.Net.Sizes {
		cs.Net.Sizes[i] = rapid.IntRange(40, 500).Draw(t, "vastneurons")
	}
	return cs
}

const sigma = 0.01

// checkSample checks that values are draws from N(0, 0.01), with bounds that
// a true sample exceeds with probability below 1e-9.
func checkSample(c *vt.Ctx, what string, xs []float64) {
	m := float64(len(xs))
	sum, sq, within := 0.0, 0.0, 0.0
	for i, x := range xs {
		if math.IsNaN(x) || math.IsInf(x, 0) || math.Abs(x) > 9*sigma {
			c.Failf("%s: value %d is %v", what, i, x)
		}
		sum += x
		sq += x * x
		if math.Abs(x) < sigma {
			within++
		}
	}
	if d := sum / m; math.Abs(d) > 7*sigma/math.Sqrt(m) {
		c.Failf("%s: the mean of %d values is %v", what, len(xs), d)
	}
	if m < 200 {
		return
	}
	if r := sq / m / (sigma * sigma); math.Abs(r-1) > 8*math.Sqrt(2/m) {
		c.Failf("%s: the standard deviation of %d values is %v", what, len(xs), math.Sqrt(sq/m))
	}
	const p = 0.6826894921370859
	if d := within/m - p; math.Abs(d) > 7.5*math.Sqrt(p*(1-p)/m) {
		c.Failf("%s: %v of %d values are within one standard deviation", what, within/m, len(xs))
	}
}

func checkUncorrelated(c *vt.Ctx, what string, a, b []float64) {
	m := len(a)
	if len(b) < m {
		m = len(b)
	}
	if m < 200 {
		return
	}
	s := 0.0
	for i := 0; i < m; i++ {
		s += a[i] * b[i] / (sigma * sigma)
	}
	if s /= math.Sqrt(float64(m)); math.Abs(s) > 9 {
		c.Failf("%s: %d pairs of values have correlation %v", what, m, s/math.Sqrt(float64(m)))
	}
}

// checkDistinct allows for the chance repetitions of 32-bit random numbers.
func checkDistinct(c *vt.Ctx, what string, xs []float64) {
	seen, dup := map[float64]bool{}, 0
	for _, x := range xs {
		if seen[x] {
			dup++
		}
		seen[x] = true
	}
	m := float64(len(xs))
	if float64(dup) > 6+10*m*m/(1<<33) {
		c.Failf("%s: %d of %d values are repeated", what, dup, len(xs))
	}
}

func flat(w [][]float64) (out []float64) {
	for _, x := range w {
		out = append(out, x...)
	}
	return
}

func runFresh(c *vt.Ctx, cs FreshCase) {
	n := cs.Net
	create := func() State {
		var net *network.Network
		if cs.Free {
			n.configure()
			vt.FreeRNG()
			net = n.create()
		} else {
			net = n.build()
		}
		ls := peek.Layers(net)
		if len(ls) != len(n.Sizes) {
			c.Failf("%d layers, want %d", len(ls), len(n.Sizes))
		}
		for li, l := range ls {
			if l.NumOfNodes() != n.Sizes[li] || len(l.GetAllNodes()) != n.Sizes[li] {
				c.Failf("layer %d has %d neurons, want %d", li, l.NumOfNodes(), n.Sizes[li])
			}
			for i := 0; i < l.NumOfNodes(); i++ {
				nd := l.GetNodeById(i)
				if len(nd.Weights()) != n.dim(li) {
					c.Failf("layer %d neuron %d has %d weights, want %d", li, i, len(nd.Weights()), n.dim(li))
				}
				if n.Adam && nd.AdamTDim() != n.dim(li) {
					c.Failf("layer %d neuron %d accumulates %d gradients, want %d", li, i, nd.AdamTDim(), n.dim(li))
				}
				for s := 0; s < n.Batch; s++ {
					if v := nd.GetLastActivation(s); v != 0 {
						c.Failf("layer %d neuron %d slot %d starts with activation %v", li, i, s, v)
					}
				}
			}
		}
		return n.state(net)
	}
	a := create()
	zero := func(what string, xs []float64) {
		for i, x := range xs {
			if x != 0 {
				c.Failf("%s %d is %v in a new network", what, i, x)
			}
		}
	}
	var all, biases []float64
	for l := range n.Sizes {
		w := flat(a.W[l])
		where := fmt.Sprintf("weights of layer %d", l)
		checkSample(c, where, w)
		checkSample(c, fmt.Sprintf("biases of layer %d", l), a.B[l])
		d := n.dim(l)
		checkUncorrelated(c, where+" and their neighbours", w, w[1:])
		if len(w) > d {
			checkUncorrelated(c, where+" and those of the next neuron", w, w[d:])
		}
		checkUncorrelated(c, where+" and the biases", w, a.B[l])
		for k := 0; k < l; k++ {
			checkUncorrelated(c, fmt.Sprintf("weights of layers %d and %d", k, l), flat(a.W[k]), w)
			checkUncorrelated(c, fmt.Sprintf("biases of layers %d and %d", k, l), a.B[k], a.B[l])
		}
		all = append(append(all, w...), a.B[l]...)
		biases = append(biases, a.B[l]...)
		zero("moment", flat(a.M[l]))
		zero("second moment", flat(a.V[l]))
		zero("gradient", flat(a.T[l]))
		zero("bias moment", a.MB[l])
		zero("bias second moment", a.VB[l])
		zero("bias gradient", a.TB[l])
	}
	checkSample(c, "all biases", biases)
	checkDistinct(c, "all parameters", all)
	if cs.Free {
		b := create()
		for l := range n.Sizes {
			all = append(append(all, flat(b.W[l])...), b.B[l]...)
		}
		checkDistinct(c, "parameters of two networks", all)
		c.Label("seeded from the clock")
	}
	c.LabelIf(len(all) >= 200, "at least 200 parameters")
	if len(all) >= 200 && len(n.Sizes) > 1 {
		c.NonTrivial()
	}
}

type LoadCase struct {
	Family      configuration.HashFunctionType
	Adam        bool
	Nodes, Dim  int
	Batch, K, L int
	Soft        bool
	Seed        int64
}

func genLoad(t *rapid.T) LoadCase {
	return LoadCase{configuration.HashFunctionType(rapid.IntRange(1, 4).Draw(t, "family")), rapid.Bool().Draw(t, "adam"),
		rapid.IntRange(1, 20).Draw(t, "nodes"), rapid.IntRange(1, 40).Draw(t, "dim"), rapid.IntRange(1, 4).Draw(t, "batch"),
		rapid.IntRange(1, 2).Draw(t, "k"), rapid.IntRange(1, 4).Draw(t, "l"), rapid.Bool().Draw(t, "soft"), rapid.Int64Range(1, 1<<40).Draw(t, "seed")}
}

func runLoad(c *vt.Ctx, cs LoadCase) {
	g := configuration.Default()
	g.HashFunction, g.UseAdam, g.LoadWeight = cs.Family, cs.Adam, true
	configuration.Global = g
	m := vt.Mix(cs.Seed)
	fill := func(k int) []float64 {
		out := make([]float64, k)
		for i := range out {
			out[i] = m.Norm()
		}
		return out
	}
	clone := func(x []float64) []float64 { return append([]float64(nil), x...) }
	w, b, mom, vel := fill(cs.Nodes*cs.Dim), fill(cs.Nodes), fill(cs.Nodes*cs.Dim), fill(cs.Nodes*cs.Dim)
	vt.SeedRNG(cs.Seed)
	typ := node.ReLU
	if cs.Soft {
		typ = node.Softmax
	}
	l := layer.New(0, cs.Nodes, cs.Dim, 0, typ, cs.Batch, cs.K, cs.L, 3*cs.K, 0.5, clone(w), clone(b), clone(mom), clone(vel))
	for i := 0; i < cs.Nodes; i++ {
		nd := l.GetNodeById(i)
		lo, hi := i*cs.Dim, (i+1)*cs.Dim
		if !vec.SameFloats(nd.Weights(), w[lo:hi]) {
			c.Failf("neuron %d has weights %v, supplied %v", i, nd.Weights(), w[lo:hi])
		}
		if nd.Bias() != b[i] || nd.GetBias() != b[i] {
			c.Failf("neuron %d has bias %v, supplied %v", i, nd.Bias(), b[i])
		}
		if nd.GetAdamAvgMomBias() != 0 || nd.GetAdamAvgVelBias() != 0 || nd.GetTBias() != 0 {
			c.Failf("neuron %d starts with bias moments %v, %v, gradient %v", i, nd.GetAdamAvgMomBias(), nd.GetAdamAvgVelBias(), nd.GetTBias())
		}
		if !cs.Adam {
			continue
		}
		for j := 0; j < cs.Dim; j++ {
			if nd.GetAdamAvgMom(j) != mom[lo+j] || nd.GetAdamAvgVel(j) != vel[lo+j] || nd.GetT(j) != 0 {
				c.Failf("neuron %d weight %d has moments %v, %v and gradient %v, supplied %v, %v", i, j, nd.GetAdamAvgMom(j), nd.GetAdamAvgVel(j), nd.GetT(j), mom[lo+j], vel[lo+j])
			}
		}
	}
	if cs.Nodes > 1 && cs.Dim > 1 {
		c.NonTrivial()
	}
	c.LabelIf(cs.Adam, "moments supplied")
}
