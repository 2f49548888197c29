package main

import (
	"io"
	"math"
	"os"
	"strconv"
	"strings"

	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/network"
	"pgregory.net/rapid"
	"verifharness/peek"
	"verifharness/vec"
	"verifharness/vt"
)

// ---------------------------------------------------------------- C27: the reported sample sizes

func genReport(t *rapid.T) TablesCase {
	cs := genTables(t)
	for len(cs.Steps) == 0 {
		cs.Steps = append(cs.Steps, genStep(t, cs.Net))
	}
	for i := range cs.Steps {
		cs.Steps[i].Rehash = rapid.IntRange(0, 4).Draw(t, "report") > 0
	}
	n := &cs.Net
	if n.Mode == 4 && rapid.IntRange(0, 19).Draw(t, "wide") == 0 {
		n.Sizes[len(n.Sizes)-1] = rapid.IntRange(1001, 1300).Draw(t, "widesize")
	}
	return cs
}

// genWideReport: so many tables that more than a thousand neurons are retrieved.
func genWideReport(t *rapid.T) TablesCase {
	cs := genReport(t)
	n := &cs.Net
	last := len(n.Sizes) - 1
	n.Sizes[last] = rapid.IntRange(1001, 2000).Draw(t, "widesize")
	n.L[last] = rapid.IntRange(40, 130).Draw(t, "manytables")
	n.Train[last] = 0.5
	switch n.Family {
	case srp:
		n.K[last], n.Range[last] = 1, 1
	case minhash:
		n.K[last], n.Range[last] = 1, 3
	default:
		n.K[last], n.Range[last] = 1, 3
	}
	n.Batch = min(n.Batch, 3)
	cs.Steps = cs.Steps[:min(2, len(cs.Steps))]
	for i := range cs.Steps {
		b := &cs.Steps[i].Batch
		*b = (*b)[:min(len(*b), n.Batch)]
	}
	return cs
}

// printed returns what f writes to the standard output.
func printed(f func()) string {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	out := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		out <- string(b)
	}()
	keep := os.Stdout
	os.Stdout = w
	func() {
		defer func() {
			os.Stdout = keep
			w.Close()
		}()
		f()
	}()
	s := <-out
	r.Close()
	return s
}

const sampleLine = "Avg sample size"

func runReport(c *vt.Ctx, cs TablesCase) {
	n := cs.Net
	if n.drawn(n.Train) && !repeatable() {
		c.Skip()
	}
	net := n.build()
	cs.prepare(peek.Layers(net))
	partial := false
	for si, st := range cs.Steps {
		if n.wild(net) {
			c.Label("numbers out of hand")
			break
		}
		b := n.batch(st.Batch)
		n.configure()
		ls := peek.Layers(net)
		total := make([]int, len(ls))
		vt.SeedRNG(st.Seed)
		for i, e := range b {
			act := make([][]index_value.Pair, len(ls)+1)
			act[0] = vec.ClonePairs(e.Features)
			for li := range ls {
				if n.Train[li] < 1 {
					codes := peek.HashPairs(ls[li], act[li], n.dim(li))
					tables := peek.LSH(ls[li])
					if codes == nil || tables == nil {
						c.Skip()
					}
					count := map[int]int{}
					if li == len(ls)-1 {
						for _, l := range e.Labels {
							count[l] = 1000
						}
					}
					for _, ids := range tables.RetrieveRaw(ls[li].HashesToIndex(codes)) {
						for _, id := range ids {
							count[id]++
						}
					}
					for _, k := range count {
						if n.Mode == 4 || k > 2 {
							total[li]++
						}
					}
				}
				_, ls[li] = ls[li].QueryActiveNodeAndComputeActivations(0, act, li, i, append([]int{}, e.Labels...), float64(n.Train[li]))
			}
		}
		vt.SeedRNG(st.Seed)
		text := printed(func() {
			var next *network.Network
			_, next = net.ProcessInput(0, b, st.Iter, st.Rehash, st.Rebuild)
			net = next
		})
		var lines []string
		for _, l := range strings.Split(text, "\n") {
			if strings.HasPrefix(l, sampleLine) {
				lines = append(lines, strings.TrimPrefix(l, sampleLine))
			}
		}
		want := 0
		if st.Rehash {
			want = 1
		}
		if len(lines) != want {
			c.Failf("step %d (re-hash %v): %d reports of the sample size", si, st.Rehash, len(lines))
		}
		if len(lines) == 0 || len(b) == 0 {
			continue
		}
		f := strings.Fields(lines[0])
		if len(f) != len(ls) {
			c.Failf("step %d: the report %q has %d values for %d layers", si, lines[0], len(f), len(ls))
		}
		for li := range ls {
			got, err := strconv.ParseFloat(f[li], 64)
			if err != nil {
				c.Failf("step %d: the report %q is not numeric", si, lines[0])
			}
			c.LabelIf(n.Train[li] < 1 && total[li] > 1000*len(b), "more than a thousand retrieved")
			if w := float64(total[li]) / float64(len(b)); n.Train[li] < 1 && math.Abs(got-w) > 0.00051 {
				c.Failf("step %d: layer %d reports an average sample of %v, want %.3f", si, li, got, w)
			}
			partial = partial || n.Train[li] < 1 && total[li] > 0 && total[li] < len(b)*n.Sizes[li]
		}
		c.LabelIf(si > 0, "report of a later step")
		c.LabelIf(len(b) > 1, "several examples")
	}
	if partial {
		c.NonTrivial()
	}
	c.LabelIf(n.Sizes[len(n.Sizes)-1] > 1000, "random topping up")
	c.LabelIf(len(n.Sizes) > 1, "several layers")
}
