package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/network"
	"pgregory.net/rapid"
	"verifharness/vt"
)

// ---------------------------------------------------------------- C15, C16: one training step

type Step struct {
	Batch           []Ex
	Iter            int
	Rehash, Rebuild bool
	Seed            int64
}

func genStep(t *rapid.T, n Net) Step {
	s := Step{Batch: genBatch(t, n), Rehash: rapid.IntRange(0, 3).Draw(t, "rehash") == 0,
		Rebuild: rapid.IntRange(0, 3).Draw(t, "rebuild") == 0, Seed: rapid.Int64Range(1, 1<<40).Draw(t, "stepseed")}
	s.Iter = genIter(t)
	if s.Iter%6946 == 6945 && (n.Mode == 2 || n.Mode == 4) && !n.dense(n.Train) {
		s.Iter++ // random numbers are also drawn for something else
	}
	return s
}

func genIter(t *rapid.T) int {
	return rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(0, 7000), rapid.SampledFrom([]int{6944, 6945, 6946, 13891, 100000, 10000000, 1<<31 - 1, 1 << 31, 1<<32 + 5, 1 << 40})).Draw(t, "iter")
}

type StepCase struct {
	Net   Net
	Steps []Step
}

func genAdam(t *rapid.T) StepCase { return genSteps(t, true) }
func genSGD(t *rapid.T) StepCase  { return genSteps(t, false) }

func genSteps(t *rapid.T, adam bool) StepCase {
	cs := StepCase{Net: genNet(t, rapid.Bool().Draw(t, "sampled"))}
	cs.Net.Adam = adam
	for i := genLength(t, cs.Net, 4); i > 0; i-- {
		cs.Steps = append(cs.Steps, genStep(t, cs.Net))
	}
	return cs
}

// genLength draws the number of steps of a history, now and then a large one.
func genLength(t *rapid.T, n Net, usual int) int {
	if rapid.IntRange(0, 40).Draw(t, "long") == 27 && n.Batch <= 5 && n.InputDim <= 20 {
		return rapid.IntRange(usual+1, 40).Draw(t, "manysteps")
	}
	return rapid.IntRange(1, usual).Draw(t, "steps")
}

// genWideStep: an output layer of more neurons than sampling mode keeps active,
// or of more neurons or inputs than 16 bits count.
func genWideStep(t *rapid.T, adam bool) StepCase {
	cs := StepCase{Net: genNet(t, false)}
	n := &cs.Net
	n.Adam = adam
	n.Batch = min(n.Batch, 5)
	last := len(n.Sizes) - 1
	switch rapid.IntRange(0, 13).Draw(t, "measure") {
	case 12, 13: // many examples
		n.Batch = rapid.IntRange(300, 1200).Draw(t, "manyslots")
		n.InputDim = min(n.InputDim, 5)
		for i := range n.Sizes {
			n.Sizes[i] = min(n.Sizes[i], 5)
		}
		seed := rapid.Int64Range(1, 1<<40).Draw(t, "stepseed")
		for i := rapid.IntRange(1, 3).Draw(t, "steps"); i > 0; i-- {
			cs.Steps = append(cs.Steps, Step{Batch: genMany(t, *n, n.Batch-i%2), Iter: genIter(t), Seed: seed + int64(i)})
		}
		return cs
	case 10, 11: // a broad layer below the output
		if last == 0 {
			n.InputDim = rapid.IntRange(400, 3000).Draw(t, "broadinput")
			break
		}
		at := rapid.IntRange(0, last-1).Draw(t, "at")
		n.Sizes[at] = rapid.IntRange(400, 3000).Draw(t, "broadhidden")
		if n.Mode = 4; rapid.Bool().Draw(t, "sampledhidden") {
			n.Train[at], n.Test[at] = 0.1, 0.1
			n.L[at] = rapid.IntRange(1, 6).Draw(t, "hiddenl")
		}
		for i := range n.Sizes {
			if i != at {
				n.Sizes[i] = min(n.Sizes[i], 9)
			}
		}
	case 6:
		n.InputDim = rapid.IntRange(65530, 70000).Draw(t, "vastinput")
		n.Sizes[0] = rapid.IntRange(1, 3).Draw(t, "few")
		n.K, n.L = make([]int, last+1), make([]int, last+1)
		for i := range n.K {
			n.K[i], n.L[i] = 1, 1
		}
	case 7:
		n.Sizes[last] = rapid.IntRange(65530, 70000).Draw(t, "vastoutput")
		if last > 0 {
			n.Sizes[last-1] = rapid.IntRange(1, 3).Draw(t, "few")
		} else {
			n.InputDim = min(n.InputDim, 3)
		}
	default:
		n.Mode = 4
		n.Sizes[last] = rapid.IntRange(1001, 1300).Draw(t, "wide")
		n.Train[last] = 0.1
		n.Test[last] = 0.1
		n.L[last] = rapid.IntRange(1, 6).Draw(t, "widel")
	}
	for i := rapid.IntRange(1, 2).Draw(t, "steps"); i > 0; i-- {
		cs.Steps = append(cs.Steps, genStep(t, *n))
	}
	if n.Sizes[last] > 60000 || n.InputDim > 60000 {
		for i := range cs.Steps {
			cs.Steps[i].Batch = cs.Steps[i].Batch[:min(2, len(cs.Steps[i].Batch))]
			for j := range cs.Steps[i].Batch {
				if l := &cs.Steps[i].Batch[j].Labels; len(*l) > 5 {
					*l = (*l)[len(*l)-5:]
				}
			}
		}
	}
	return cs
}

// grad is a gradient with the sum of the magnitudes that went into it.
type grad struct{ v, a float64 }

func (g *grad) add(v, a float64) { g.v += v; g.a += a }

type grads struct {
	W      [][][]grad
	B      [][]grad
	unsure bool // a ReLU argument too close to 0 to call
	deep   bool // some hidden gradient is not zero
}

// gradients is the reference back-propagation over a batch.
func (n Net) gradients(s State, b []dataset.Example, act [][][]int) grads {
	var g grads
	for l, size := range n.Sizes {
		w := make([][]grad, size)
		for i := range w {
			w[i] = make([]grad, n.dim(l))
		}
		g.W = append(g.W, w)
		g.B = append(g.B, make([]grad, size))
	}
	last := len(n.Sizes) - 1
	for ei, e := range b {
		// forward: dense vectors of the values and of who is present
		in := map[int]float64{}
		for _, p := range e.Features {
			in[p.Index] += p.Value // a coordinate may come twice, with the same sign
		}
		vals := []map[int]float64{in}
		mags := []map[int]float64{{}}
		for l := range n.Sizes {
			out, mag := map[int]float64{}, map[int]float64{}
			for _, i := range act[ei][l] {
				z, a := s.B[l][i], math.Abs(s.B[l][i])
				for j, x := range vals[l] {
					z += s.W[l][i][j] * x
					a += math.Abs(s.W[l][i][j]*x) * (1 + mags[l][j])
				}
				mag[i] = 1
				if l < last {
					if z != 0 && math.Abs(z) < 1e-11*a {
						g.unsure = true
					}
					if z > 0 {
						mag[i] = a / z
					}
					z = math.Max(0, z)
				} else {
					mag[i] = a
				}
				out[i] = z
			}
			vals, mags = append(vals, out), append(mags, mag)
		}
		// the map iteration order above varies; the tolerances cover rounding
		sc := vals[last+1]
		top, topMag := math.Inf(-1), 0.0
		for i, z := range sc {
			top = math.Max(top, z)
			topMag = math.Max(topMag, mags[last+1][i])
		}
		sum := 0.0
		for _, z := range sc {
			sum += math.Exp(z - top)
		}
		delta := map[int]grad{}
		for i, z := range sc {
			p := math.Exp(z-top) / (sum + 1e-7)
			target := 0.0
			if contains(e.Labels, i) {
				target = 1 / float64(len(e.Labels))
			}
			bs := float64(n.Batch)
			delta[i] = grad{(target - p) / bs, (target + p*(1+topMag)) / bs}
		}
		for l := last; l >= 0; l-- {
			prev := map[int]grad{}
			for i, d := range delta {
				g.B[l][i].add(d.v, d.a)
				for j, x := range vals[l] {
					g.W[l][i][j].add(d.v*x, d.a*math.Abs(x)*(1+mags[l][j]))
					if l > 0 && x > 0 {
						q := prev[j]
						q.add(d.v*s.W[l][i][j], d.a*math.Abs(s.W[l][i][j]))
						prev[j] = q
					}
				}
			}
			if l > 0 {
				for j := range vals[l] {
					if _, ok := prev[j]; !ok {
						prev[j] = grad{}
					}
					if prev[j].v != 0 {
						g.deep = true
					}
				}
				delta = prev
			}
		}
	}
	return g
}

const (
	beta1 = 0.9
	beta2 = 0.999
	eps   = 1e-8
)

// adam checks one parameter against the reference step.
func adam(lr float64, g grad, w0, m0, v0, w1, m1, v1 float64) string {
	dt := 1e-12*g.a + 1e-300
	m := beta1*m0 + (1-beta1)*g.v
	v := beta2*v0 + (1-beta2)*g.v*g.v
	// 1e-300: numbers too small for the full precision
	dm := 1e-300 + (1-beta1)*dt + 1e-14*(math.Abs(beta1*m0)+math.Abs((1-beta1)*g.v))
	dv := 1e-300 + (1-beta2)*(2*math.Abs(g.v)*dt+dt*dt) + 1e-14*v
	if math.Abs(m1-m) > dm {
		return fmt.Sprintf("first moment is %v, want %v (before %v, gradient %v)", m1, m, m0, g.v)
	}
	if math.Abs(v1-v) > dv {
		return fmt.Sprintf("second moment is %v, want %v (before %v, gradient %v)", v1, v, v0, g.v)
	}
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, a := range []float64{m - dm, m + dm} {
		for _, b := range []float64{math.Max(0, v-dv), v + dv} {
			u := lr * a / (math.Sqrt(b) + eps)
			lo, hi = math.Min(lo, u), math.Max(hi, u)
		}
	}
	tol := 1e-14*math.Abs(w0) + 1e-12*math.Max(math.Abs(lo), math.Abs(hi))
	if w1 < w0+lo-tol || w1 > w0+hi+tol {
		return fmt.Sprintf("is %v, want %v (before %v, gradient %v)", w1, w0+lr*m/(math.Sqrt(v)+eps), w0, g.v)
	}
	return ""
}

func runSteps(c *vt.Ctx, cs StepCase) {
	n := cs.Net
	if n.drawn(n.Train) && !repeatable() {
		c.Skip()
	}
	net := n.build()
	labelled := false
	for si, st := range cs.Steps {
		if n.wild(net) {
			c.Label("numbers out of hand")
			break
		}
		before := n.state(net)
		b, keep := n.reuse(st.Batch), n.batch(st.Batch)
		act := n.actives(net, b, n.Train, true, st.Seed)
		g := n.gradients(before, b, act)
		vt.SeedRNG(st.Seed)
		var next *network.Network
		_, next = net.ProcessInput(0, b, st.Iter, st.Rehash, st.Rebuild)
		net = next
		if !sameExamples(b, keep) {
			c.Failf("step %d: the examples were modified", si)
		}
		after := n.state(net)
		if g.unsure {
			c.Label("a ReLU argument too close to call")
			continue
		}
		lr := float64(n.LR)
		if n.Adam {
			lr *= math.Sqrt(1-math.Pow(beta2, float64(st.Iter)+1)) / (1 - math.Pow(beta1, float64(st.Iter)+1))
		}
		check := func(where string, g grad, w0, w1 float64, m func() (m0, v0, m1, v1, t1 float64)) {
			if !n.Adam {
				want := w0 + float64(n.LR)*g.v
				if math.Abs(w1-want) > 1e-12*float64(n.LR)*g.a+1e-14*float64(1+len(b))*math.Max(math.Abs(w0), math.Abs(want))+1e-300 {
					c.Failf("step %d: %s is %v, want %v (before %v, gradient %v)", si, where, w1, want, w0, g.v)
				}
				if g.v == 0 && g.a == 0 && w1 != w0 {
					c.Failf("step %d: %s changes from %v to %v without a gradient", si, where, w0, w1)
				}
				return
			}
			m0, v0, m1, v1, t1 := m()
			if t1 != 0 {
				c.Failf("step %d: %s has accumulated gradient %v after the step", si, where, t1)
			}
			if msg := adam(lr, g, w0, m0, v0, w1, m1, v1); msg != "" {
				c.Failf("step %d, iteration %d: %s %s", si, st.Iter, where, msg)
			}
		}
		for l := range n.Sizes {
			for i := range g.W[l] {
				if len(after.W[l][i]) != n.dim(l) {
					c.Failf("step %d: layer %d neuron %d has %d weights", si, l, i, len(after.W[l][i]))
				}
				for j := range g.W[l][i] {
					check(fmt.Sprintf("weight %d of layer %d neuron %d", j, l, i), g.W[l][i][j], before.W[l][i][j], after.W[l][i][j],
						func() (float64, float64, float64, float64, float64) {
							return before.M[l][i][j], before.V[l][i][j], after.M[l][i][j], after.V[l][i][j], after.T[l][i][j]
						})
				}
				check(fmt.Sprintf("the bias of layer %d neuron %d", l, i), g.B[l][i], before.B[l][i], after.B[l][i],
					func() (float64, float64, float64, float64, float64) {
						return before.MB[l][i], before.VB[l][i], after.MB[l][i], after.VB[l][i], after.TB[l][i]
					})
			}
		}
		for _, e := range b {
			labelled = labelled || len(e.Labels) > 0
		}
		if labelled && (g.deep || len(n.Sizes) == 1) {
			c.NonTrivial()
		}
		sampled := false
		for ei := range act {
			for l := range act[ei] {
				sampled = sampled || len(act[ei][l]) < n.Sizes[l]
			}
		}
		c.LabelIf(sampled, "some neurons not active")
		c.LabelIf(len(b) < n.Batch, "partial or empty batch")
		c.LabelIf(g.deep, "gradients reach hidden layers")
	}
	c.Label(fmt.Sprintf("%d layers", len(n.Sizes)))
	c.LabelIf(len(cs.Steps) > 1, "several steps")
}
