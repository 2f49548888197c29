package main

import (
	"fmt"
	"sort"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/layer"
	"pgregory.net/rapid"
	"verifharness/peek"
	"verifharness/vec"
	"verifharness/vt"
)

// ---------------------------------------------------------------- C11 and C12: what the hash tables index

// genTablesNet draws a sampled network with a wider range of shapes and tables.
func genTablesNet(t *rapid.T) Net {
	n := Net{Adam: rapid.IntRange(0, 3).Draw(t, "adam") > 0, Family: configuration.HashFunctionType(rapid.IntRange(1, 4).Draw(t, "family")),
		Mode: configuration.LayerModeType(rapid.SampledFrom([]int{1, 1, 4}).Draw(t, "mode"))}
	dims := rapid.OneOf(rapid.IntRange(1, 12), rapid.IntRange(1, 40), rapid.IntRange(28, 90))
	n.InputDim = dims.Draw(t, "input")
	layers := rapid.SampledFrom([]int{1, 2, 2, 3}).Draw(t, "layers")
	n.Batch = rapid.IntRange(1, 3).Draw(t, "batch")
	stretch := rapid.IntRange(0, 35).Draw(t, "stretch") // one measure far beyond the others
	switch stretch {
	case 20:
		n.Batch = rapid.IntRange(6, 60).Draw(t, "manyslots")
	case 21:
		layers = rapid.IntRange(4, 7).Draw(t, "deep")
	}
	n.LR = vt.F(rapid.SampledFrom([]float64{0.1, 0.5, 0.01, 0}).Draw(t, "lr"))
	n.Seed = rapid.Int64Range(1, 1<<40).Draw(t, "seed")
	n.Params = rapid.SampledFrom([]string{"unit", "fresh", "large", "negative"}).Draw(t, "params")
	n.Twins = rapid.IntRange(0, 3).Draw(t, "twins") == 0
	for i := 0; i < layers; i++ {
		size := dims.Draw(t, "size")
		if rapid.IntRange(0, 24).Draw(t, "crowded") == 0 {
			size = rapid.IntRange(129, 420).Draw(t, "many")
		}
		k := rapid.SampledFrom([]int{1, 2, 2, 3}).Draw(t, "k")
		l := rapid.IntRange(1, 8).Draw(t, "l")
		rp := 3 * k
		switch n.Family {
		case srp:
			k = rapid.IntRange(1, 7).Draw(t, "sk")
			rp = k + rapid.IntRange(0, 2).Draw(t, "extra")
		case minhash:
			rp = rapid.IntRange(0, 8).Draw(t, "range")
		default:
			rp += rapid.IntRange(0, 1).Draw(t, "extra")
		}
		switch {
		case stretch == 22 && i == layers-1:
			l = rapid.IntRange(9, 130).Draw(t, "ll")
			if rp > 6 {
				l = min(l, 16)
			}
		case stretch == 23 && i == layers-1 && n.Family != minhash:
			k, rp = rapid.IntRange(8, 11).Draw(t, "kk"), 0
			if n.Family != srp {
				k = 4
			}
			rp, l = k, min(l, 3)
			if n.Family != srp {
				rp = 3 * k
			}
		case stretch == 24 && i == layers-1 && n.Family == minhash:
			rp, l = rapid.IntRange(9, 12).Draw(t, "rr"), min(l, 3)
		}
		sp := 1.0
		if rapid.IntRange(0, 5).Draw(t, "dense") > 0 {
			sp = rapid.SampledFrom([]float64{0.5, 0.1, 0.999, 0.5, 0.1, 1 - 1e-12, 1e-9}).Draw(t, "train")
		}
		n.Sizes = append(n.Sizes, size)
		n.K, n.L, n.Range = append(n.K, k), append(n.L, l), append(n.Range, rp)
		n.Train, n.Test = append(n.Train, vt.F(sp)), append(n.Test, 0.5)
	}
	return n
}

type TablesCase struct {
	Net   Net
	Steps []Step
	Zeros int // every so many weights of the created network are zero (0: none)
	Seed  uint64
}

func genTables(t *rapid.T) TablesCase {
	cs := TablesCase{Net: genTablesNet(t), Seed: rapid.Uint64Range(0, 1<<30).Draw(t, "order")}
	if cs.Net.Family != minhash && rapid.IntRange(0, 3).Draw(t, "zeros") == 0 {
		cs.Zeros = rapid.IntRange(1, 5).Draw(t, "every")
		cs.Net.Blank = rapid.IntRange(0, 6).Draw(t, "blank")
	}
	steps := rapid.IntRange(0, 4).Draw(t, "steps")
	if rapid.IntRange(0, 60).Draw(t, "long") == 37 && cs.Net.Batch <= 3 {
		steps = rapid.IntRange(5, 40).Draw(t, "manysteps")
	}
	for i := steps; i > 0; i-- {
		st := genStep(t, cs.Net)
		st.Rehash, st.Rebuild = rapid.Bool().Draw(t, "rehash2"), rapid.IntRange(0, 2).Draw(t, "rebuild2") == 0
		cs.Steps = append(cs.Steps, st)
	}
	return cs
}

// genVastTables: a layer of more neurons than 16 bits count.
func genVastTables(t *rapid.T) TablesCase {
	cs := TablesCase{Net: genTablesNet(t), Seed: rapid.Uint64Range(0, 1<<30).Draw(t, "order")}
	n := &cs.Net
	n.Sizes, n.Train, n.Test = []int{rapid.IntRange(65530, 70000).Draw(t, "vast")}, []vt.F{0.1}, []vt.F{0.1}
	n.InputDim, n.L, n.Batch = rapid.IntRange(12, 20).Draw(t, "inputs"), []int{rapid.IntRange(1, 3).Draw(t, "fewtables")}, min(n.Batch, 3)
	switch n.Family {
	case srp:
		k := rapid.IntRange(11, 14).Draw(t, "bits")
		n.K, n.Range = []int{k}, []int{k}
	case minhash:
		n.K, n.Range = []int{2}, []int{12}
	default:
		k := rapid.IntRange(4, 5).Draw(t, "codes")
		n.K, n.Range = []int{k}, []int{3 * k}
	}
	if n.Params = "unit"; rapid.Bool().Draw(t, "asdrawn") {
		n.Params = "fresh"
	}
	for i := rapid.IntRange(1, 2).Draw(t, "steps"); i > 0; i-- {
		st := genStep(t, *n)
		st.Rehash, st.Rebuild = rapid.Bool().Draw(t, "rehash2"), rapid.Bool().Draw(t, "rebuild2")
		if len(st.Batch) > n.Batch {
			st.Batch = st.Batch[:n.Batch]
		}
		for j := range st.Batch {
			if l := &st.Batch[j].Labels; len(*l) > 5 {
				*l = (*l)[len(*l)-5:]
			}
		}
		cs.Steps = append(cs.Steps, st)
	}
	return cs
}

func (cs TablesCase) prepare(ls []*layer.Layer) {
	if cs.Zeros == 0 {
		return
	}
	k := 0
	for _, l := range ls {
		for i := 0; i < l.NumOfNodes(); i++ {
			w := l.GetNodeById(i).Weights()
			for j := range w {
				if k++; k%(cs.Zeros+1) == 0 {
					w[j] = 0
				}
			}
		}
		refill(l)
	}
}

// allPairs is a dense vector as pairs, in some order.
func (cs TablesCase) allPairs(w []float64, seed uint64) []index_value.Pair {
	ps := make([]index_value.Pair, len(w))
	for i, x := range w {
		ps[i] = index_value.Pair{Index: i, Value: x}
	}
	if cs.Zeros > 0 && cs.Net.Family == dwta {
		return ps // ties go to the first pair
	}
	return vec.Reorder(ps, seed)
}

func bucketsOf(l *layer.Layer, w []float64) []int {
	return append([]int(nil), l.HashesToIndex(l.GetHashForInputProcessing(append([]float64(nil), w...)))...)
}

// expectTables checks that the tables of a layer index its neurons. It returns
// whether a bucket is over-full, and whether some bucket holds several neurons.
func expectTables(c *vt.Ctx, where string, l *layer.Layer, L, rangePow int) (over, shared bool) {
	want := make([]map[int][]int, L)
	for t := range want {
		want[t] = map[int][]int{}
	}
	for i := 0; i < l.NumOfNodes(); i++ {
		idx := bucketsOf(l, l.GetNodeById(i).Weights())
		if len(idx) != L {
			c.Failf("%s: %d bucket addresses for %d tables", where, len(idx), L)
		}
		for t, b := range idx {
			want[t][b] = append(want[t][b], i)
		}
	}
	tables := peek.LSH(l)
	if tables == nil {
		c.Label("tables not observable")
		return
	}
	for b := 0; b < 1<<rangePow; b++ {
		at := make([]int, L)
		for t := range at {
			at[t] = b
		}
		for t, got := range tables.RetrieveRaw(at) {
			w := want[t][b]
			delete(want[t], b)
			shared = shared || len(w) > 1
			got := append([]int(nil), got...)
			sort.Ints(got)
			for i := 1; i < len(got); i++ {
				if got[i] == got[i-1] {
					c.Failf("%s: neuron %d is in bucket %d of table %d more than once", where, got[i], b, t)
				}
			}
			if len(w) > 128 {
				over = true
				in := map[int]bool{}
				for _, i := range w {
					in[i] = true
				}
				for _, i := range got {
					if !in[i] {
						c.Failf("%s: neuron %d is in bucket %d of table %d, its weights hash to another", where, i, b, t)
					}
				}
				if len(got) != 128 {
					c.Failf("%s: bucket %d of table %d keeps %d of %d neurons", where, b, t, len(got), len(w))
				}
				continue
			}
			if !vec.EqInts(got, w) {
				c.Failf("%s: bucket %d of table %d holds neurons %v, want %v", where, b, t, got, w)
			}
		}
	}
	for t := range want {
		for b, ids := range want[t] {
			c.Failf("%s: neurons %v hash to bucket %d of table %d, which does not exist", where, ids, b, t)
		}
	}
	return
}

func runC12(c *vt.Ctx, cs TablesCase) {
	n := cs.Net
	net := n.build()
	if n.Params == "fresh" { // as created, before anything else fills the tables
		for li, l := range peek.Layers(net) {
			expectTables(c, fmt.Sprintf("new network, layer %d", li), l, n.L[li], n.Range[li])
		}
	}
	cs.prepare(peek.Layers(net))
	refreshed, moved := false, false
	probes := func(l *layer.Layer, dim int) []int {
		m := vt.Mix(cs.Seed)
		var codes []int
		for i := 0; i < 16; i++ {
			w := make([]float64, dim)
			for j := range w {
				w[j] = m.Norm()
			}
			codes = append(codes, l.GetHashForInputProcessing(w)...)
		}
		return codes
	}
	for si, st := range cs.Steps {
		before := n.tables(net)
		ls := peek.Layers(net)
		codes := make([][]int, len(ls))
		for li := range ls {
			codes[li] = probes(ls[li], n.dim(li))
		}
		vt.SeedRNG(st.Seed*1000003 + int64(si) + 7)
		_, net = net.ProcessInput(0, n.reuse(st.Batch), st.Iter, st.Rehash, st.Rebuild)
		if n.wild(net) {
			c.Label("numbers out of hand")
			break
		}
		after := n.tables(net)
		ls = peek.Layers(net)
		for li, l := range ls {
			where := fmt.Sprintf("step %d (rehash %v, rebuild %v), layer %d", si, st.Rehash, st.Rebuild, li)
			now := probes(l, n.dim(li))
			if n.Train[li] < 1 && st.Rebuild {
				if n.Family != minhash && n.dim(li) >= 16 && n.K[li]*n.L[li] >= 8 && vec.EqInts(now, codes[li]) {
					c.Failf("%s: the hash functions are the same as before the rebuild", where)
				}
			} else if !vec.EqInts(now, codes[li]) {
				c.Failf("%s: the hash functions changed", where)
			}
			for i := 0; i < l.NumOfNodes(); i++ {
				w := l.GetNodeById(i).Weights()
				if hp := peek.HashPairs(l, cs.allPairs(w, cs.Seed+uint64(i)), n.dim(li)); hp != nil && !vec.EqInts(hp, l.GetHashForInputProcessing(append([]float64(nil), w...))) {
					c.Failf("%s: a query hashes the weights of neuron %d to codes %v, filling the tables to %v", where, i, hp, l.GetHashForInputProcessing(w))
				}
			}
			if n.Train[li] < 1 && (st.Rehash || st.Rebuild) {
				over, shared := expectTables(c, where, l, n.L[li], n.Range[li])
				c.LabelIf(over, "over-full bucket")
				c.LabelIf(shared, "shared bucket")
				refreshed = true
				if !moved && before != nil {
					moved = before.diff(after, li) != ""
				}
			} else if before != nil && !st.Rehash && !st.Rebuild {
				if d := before.diff(after, li); d != "" {
					c.Failf("%s: the tables changed: %s", where, d)
				}
			}
		}
		c.LabelIf(st.Rehash && !st.Rebuild, "re-hash")
		c.LabelIf(st.Rebuild && !st.Rehash, "rebuild only")
		c.LabelIf(st.Rebuild && st.Rehash, "both")
		c.LabelIf(!st.Rebuild && !st.Rehash, "neither")
	}
	c.Label(famName[n.Family])
	c.LabelIf(moved, "some neuron moved")
	if refreshed && moved {
		c.NonTrivial()
	}
}

var famName = map[configuration.HashFunctionType]string{wta: "wta", dwta: "dwta", minhash: "minhash", srp: "srp"}

func runC11(c *vt.Ctx, cs TablesCase) {
	n := cs.Net
	n.Mode = 1
	net := n.build()
	cs.prepare(peek.Layers(net))
	compared := 0
	var buf vec.Buffer
	check := func(where string) {
		n.configure()
		ls := peek.Layers(net)
		for li := range ls {
			if n.Train[li] >= 1 && where != "at first" {
				continue // its tables are never refreshed
			}
			l := ls[li]
			tables := peek.LSH(l)
			groups := map[string][]int{}
			for i := 0; i < l.NumOfNodes(); i++ {
				k := fmt.Sprint(l.GetNodeById(i).Weights())
				groups[k] = append(groups[k], i)
			}
			step := 1
			if l.NumOfNodes() > 60 {
				step = l.NumOfNodes() / 40
			}
			var picked []int
			for i := 0; i < l.NumOfNodes(); i += step {
				picked = append(picked, i)
			}
			if step > 1 {
				picked = append(picked, l.NumOfNodes()-1)
			}
			for _, i := range picked {
				w := append([]float64(nil), l.GetNodeById(i).Weights()...)
				same := groups[fmt.Sprint(w)]
				ps := buf.Pairs(cs.allPairs(w, cs.Seed+uint64(i)))
				if tables != nil {
					codes := peek.HashPairs(l, ps, n.dim(li))
					if codes == nil {
						codes = l.GetHashForInputProcessing(w)
					}
					full := false
					for t, ids := range tables.RetrieveRaw(tables.HashesToIndex(codes)) {
						if len(ids) >= 128 {
							full = true
							continue
						}
						for _, s := range same {
							if !contains(ids, s) {
								c.Failf("%s: layer %d (%s, K=%d, L=%d): a query equal to the weights of neuron %d (same as %d) does not find it in table %d, which gives %v",
									where, li, famName[n.Family], n.K[li], n.L[li], s, i, t, ids)
							}
						}
						compared++
					}
					if full {
						c.Label("over-full bucket")
						continue
					}
				} else if l.NumOfNodes() > 128 {
					continue
				}
				if n.L[li] < 3 {
					continue
				}
				act := make([][]index_value.Pair, len(ls)+1)
				act[li] = ps
				_, ls[li] = l.QueryActiveNodeAndComputeActivations(0, act, li, i%n.Batch, []int{}, 0.5)
				l = ls[li]
				var got []int
				for _, p := range act[li+1] {
					got = append(got, p.Index)
				}
				for _, s := range same {
					if !contains(got, s) {
						c.Failf("%s: layer %d (%s, K=%d, L=%d): neuron %d is not active for an input equal to its weights; active are %v",
							where, li, famName[n.Family], n.K[li], n.L[li], s, got)
					}
				}
				compared++
				c.LabelIf(len(same) > 1, "identical neurons")
			}
		}
	}
	check("at first")
	for si, st := range cs.Steps {
		vt.SeedRNG(st.Seed)
		_, net = net.ProcessInput(0, n.reuse(st.Batch), st.Iter, st.Rehash, st.Rebuild)
		if n.wild(net) {
			c.Label("numbers out of hand")
			break
		}
		if st.Rehash || st.Rebuild {
			check(fmt.Sprintf("after step %d (rehash %v, rebuild %v)", si, st.Rehash, st.Rebuild))
			c.Label("after training")
		}
	}
	c.Label(famName[n.Family])
	if compared > 1 && n.dim(0) > 1 {
		c.NonTrivial()
	}
}
