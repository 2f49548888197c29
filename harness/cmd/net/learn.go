package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/index_value"
	"pgregory.net/rapid"
	"verifharness/vt"
)

// ---------------------------------------------------------------- C23: training learns

type LearnCase struct {
	Net             Net
	Data            string // blocks or gauss
	PerClass        int
	Epochs          int
	Rehash, Rebuild int // every so many iterations
	Runs            int
	Seed            int64
}

func genLearn(t *rapid.T) LearnCase {
	cs := LearnCase{Data: rapid.SampledFrom([]string{"blocks", "gauss"}).Draw(t, "data"), PerClass: rapid.IntRange(2, 5).Draw(t, "perclass"),
		Rehash: rapid.IntRange(1, 20).Draw(t, "rehash"), Rebuild: rapid.IntRange(5, 60).Draw(t, "rebuild"), Runs: 5, Seed: rapid.Int64Range(1, 1<<40).Draw(t, "dataseed")}
	n := &cs.Net
	n.Family = configuration.HashFunctionType(rapid.IntRange(1, 4).Draw(t, "family"))
	n.Mode = configuration.LayerModeType(rapid.IntRange(1, 4).Draw(t, "mode"))
	n.Adam = rapid.IntRange(0, 2).Draw(t, "adam") > 0
	n.Batch = rapid.IntRange(1, 8).Draw(t, "batch")
	n.Seed = rapid.Int64Range(1, 1<<40).Draw(t, "seed")
	n.Params = "fresh"
	n.LR = 0.01
	if !n.Adam {
		n.LR = 0.2
	}
	cs.Epochs = 200
	classes := rapid.IntRange(4, 10).Draw(t, "classes")
	n.InputDim = classes*rapid.IntRange(2, 5).Draw(t, "block") + rapid.IntRange(0, 3).Draw(t, "unused")
	hidden := rapid.IntRange(0, 1).Draw(t, "hidden")
	n.Sizes = nil
	for i := 0; i < hidden; i++ {
		n.Sizes = append(n.Sizes, rapid.IntRange(32, 64).Draw(t, "size"))
	}
	n.Sizes = append(n.Sizes, classes)
	for i := range n.Sizes {
		k, l, rp, sp := 1, 20, 3, 1.0
		if n.Family == minhash {
			rp = 4
		}
		if i == len(n.Sizes)-1 {
			sp = rapid.SampledFrom([]float64{0.5, 0.8, 1}).Draw(t, "train")
			if n.Mode == 1 && (n.Family == wta || n.Family == dwta) {
				sp = 1 // winner-take-all may retrieve no wrong class to learn from
			}
		}
		n.K, n.L, n.Range = append(n.K, k), append(n.L, l), append(n.Range, rp)
		n.Train, n.Test = append(n.Train, vt.F(sp)), append(n.Test, 1)
	}
	return cs
}

func (cs LearnCase) data() []dataset.Example {
	n := cs.Net
	classes := n.out()
	m := vt.Mix(cs.Seed)
	proto := make([][]float64, classes)
	block := n.InputDim / classes
	for k := range proto {
		proto[k] = make([]float64, n.InputDim)
		for j := range proto[k] {
			if cs.Data == "gauss" {
				proto[k][j] = m.Norm()
			} else if j/block == k {
				proto[k][j] = 1
			}
		}
	}
	var out []dataset.Example
	for k := 0; k < classes; k++ {
		for i := 0; i < cs.PerClass; i++ {
			e := dataset.Example{Labels: []int{k}}
			for j, x := range proto[k] {
				v := x * (1 + 0.1*m.Norm())
				if v != 0 {
					e.Features = append(e.Features, index_value.Pair{Index: j, Value: v})
				}
			}
			out = append(out, e)
		}
	}
	perm := m.Perm(len(out))
	mixed := make([]dataset.Example, len(out))
	for i, p := range perm {
		mixed[i] = out[p]
	}
	return mixed
}

func (cs LearnCase) run(c *vt.Ctx) (acc float64, epochs int) {
	n := cs.Net
	net := n.build()
	data := cs.data()
	iter := 0
	for e := 0; e < cs.Epochs; e++ {
		for at := 0; at < len(data); at += n.Batch {
			end := at + n.Batch
			if end > len(data) {
				end = len(data)
			}
			_, net = net.ProcessInput(0, data[at:end], iter, iter%cs.Rehash == cs.Rehash-1, iter%cs.Rebuild == cs.Rebuild-1)
			iter++
		}
		if e%5 != 4 && e != cs.Epochs-1 {
			continue
		}
		correct := 0
		for at := 0; at < len(data); at += n.Batch {
			end := at + n.Batch
			if end > len(data) {
				end = len(data)
			}
			k, nn := net.PredictClass(0, data[at:end])
			net = nn
			correct += k
		}
		acc = math.Max(acc, float64(correct)/float64(len(data)))
		epochs = e + 1
		if acc >= 1 {
			break
		}
	}
	s := n.state(net)
	for l := range s.W {
		for _, x := range append(flat(s.W[l]), s.B[l]...) {
			if math.IsNaN(x) || math.IsInf(x, 0) {
				c.Failf("a parameter of layer %d is %v after %d iterations", l, x, iter)
			}
		}
	}
	return acc, epochs
}

func runLearn(c *vt.Ctx, cs LearnCase) {
	var accs []float64
	good := 0
	for k := 0; k < cs.Runs; k++ {
		one := cs
		one.Seed += int64(k) * 7919
		one.Net.Seed += int64(k) * 104729
		acc, _ := one.run(c)
		accs = append(accs, acc)
		if acc >= 0.9 {
			good++
		}
	}
	h := len(cs.Net.Sizes) - 1
	c.Label(fmt.Sprintf("%s adam=%v h=%d dense=%v", modeName[cs.Net.Mode], cs.Net.Adam, h, cs.Net.Train[h] == 1))
	c.LabelIf(good < cs.Runs, "one or two runs of five stay behind")
	c.Label(famName[cs.Net.Family])
	if 2*good <= cs.Runs {
		c.Failf("after %d epochs over %d examples, %d runs predict at best these fractions correctly: %v", cs.Epochs, cs.PerClass*cs.Net.out(), cs.Runs, accs)
	}
	c.NonTrivial()
}

var modeName = map[configuration.LayerModeType]string{1: "threshold", 2: "random", 3: "exact", 4: "sampling"}
