package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/nlpodyssey/goslide/bucket"
	"github.com/nlpodyssey/goslide/bucket/fifo"
	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/dataset/xcrepo"
	"github.com/nlpodyssey/goslide/densified_minhash"
	"github.com/nlpodyssey/goslide/densified_wta_hash"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/lsh"
	"github.com/nlpodyssey/goslide/network"
	"github.com/nlpodyssey/goslide/sparse_random_projection"
	"github.com/nlpodyssey/goslide/wta_hash"
	"pgregory.net/rapid"
	"verifharness/vt"
)

// ---------------------------------------------------------------- C28: separate objects used at once

// together runs all functions at once.
func together(fs []func()) (panicked any) {
	var wg sync.WaitGroup
	start := make(chan bool)
	var mu sync.Mutex
	for _, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					panicked = r
					mu.Unlock()
				}
			}()
			<-start
			f()
		}()
	}
	close(start)
	wg.Wait()
	return
}

// rounds is how often the schedule gets a chance to go wrong.
func rounds() int {
	if vt.Replaying {
		return 40
	}
	return 2
}

type Worker struct {
	Ops []Op
}

type NetsCase struct {
	Net     Net
	Before  []Op // on the common original
	Workers []Worker
}

func genNets(t *rapid.T) NetsCase {
	cs := NetsCase{Net: genNet(t, rapid.IntRange(0, 3).Draw(t, "sampled") > 0)}
	n := &cs.Net
	n.Adam = rapid.IntRange(0, 2).Draw(t, "adam") > 0
	n.Batch = min(n.Batch, 8) // the race detector is slow
	if rapid.IntRange(0, 9).Draw(t, "wide") == 0 {
		last := len(n.Sizes) - 1
		n.Mode, n.Sizes[last], n.Train[last], n.Test[last] = 4, rapid.IntRange(1005, 1100).Draw(t, "widesize"), 0.1, 0.1
	}
	ops := func(label string, lo, hi int) (out []Op) {
		for i := rapid.IntRange(lo, hi).Draw(t, label); i > 0; i-- {
			op := Op{Kind: rapid.SampledFrom([]string{"train", "predict"}).Draw(t, "kind"), Step: genStep(t, *n)}
			if rapid.IntRange(0, 3).Draw(t, "newfunctions") > 0 {
				op.Step.Rebuild = false
			}
			out = append(out, op)
		}
		return
	}
	cs.Before = ops("before", 0, 2)
	for i := rapid.IntRange(2, 4).Draw(t, "workers"); i > 0; i-- {
		cs.Workers = append(cs.Workers, Worker{ops("ops", 1, 3)})
	}
	return cs
}

func runNets(c *vt.Ctx, cs NetsCase) {
	n := cs.Net
	net := n.build()
	for _, op := range cs.Before {
		_, net = n.do(net, op, 0, n.batch(op.Step.Batch))
	}
	type result struct {
		answers string
		net     *network.Network
	}
	job := func(w Worker, owner int, r *result) func() {
		var bs [][]dataset.Example
		for _, op := range w.Ops {
			bs = append(bs, n.batch(op.Step.Batch))
		}
		return func() {
			own := net
			for i, op := range w.Ops {
				if op.Kind == "predict" {
					var k int
					k, own = own.PredictClass(owner, bs[i])
					r.answers += fmt.Sprint(k, " ")
				} else {
					_, own = own.ProcessInput(owner, bs[i], op.Step.Iter, op.Step.Rehash, op.Step.Rebuild)
				}
			}
			r.net = own
		}
	}
	one := make([]result, len(cs.Workers))
	for i, w := range cs.Workers {
		job(w, 1+i, &one[i])()
	}
	original, tables := n.state(net), n.tables(net)
	compared := 0
	for round := 0; round < rounds(); round++ {
		all := make([]result, len(cs.Workers))
		var fs []func()
		for i, w := range cs.Workers {
			fs = append(fs, job(w, 100*round+100+i, &all[i]))
		}
		seen := races()
		if p := together(fs); p != nil {
			c.Failf("networks of different owners used at once: %v", p)
		}
		if races() > seen {
			c.Failf("networks of different owners used at once: data race")
		}
		if d := original.diff(n.state(net)); d != "" {
			c.Failf("the common original changed: %s", d)
		}
		if tables != nil {
			if d := tables.diff(n.tables(net)); d != "" {
				c.Failf("the tables of the common original changed: %s", d)
			}
		}
		compared = 0
		for i, w := range cs.Workers {
			random := n.drawn(n.Train) || n.drawn(n.Test)
			for _, op := range w.Ops {
				random = random || op.Step.Rebuild && op.Kind == "train" && !n.dense(n.Train)
			}
			if random {
				continue
			}
			compared++
			if one[i].answers != all[i].answers {
				c.Failf("worker %d predicts %s alone and %s beside others", i, one[i].answers, all[i].answers)
			}
			if d := n.state(one[i].net).diff(n.state(all[i].net)); d != "" {
				c.Failf("worker %d ends differently alone and beside others: %s", i, d)
			}
			if t := n.tables(one[i].net); t != nil {
				if d := t.diff(n.tables(all[i].net)); d != "" {
					c.Failf("worker %d: tables differ alone and beside others: %s", i, d)
				}
			}
		}
	}
	if compared > 1 {
		c.NonTrivial()
	}
	c.LabelIf(compared < len(cs.Workers), "races only")
	c.LabelIf(!n.dense(n.Train), "sampled layers")
}

// Actor uses an object of its own, or only reads one that all share.
type Actor struct {
	Kind string
	Seed uint64
	N    int
}

type ObjectsCase struct {
	Dim, Codes int
	Seed       int64
	Actors     []Actor
}

var actorKinds = []string{"scanner", "bucket", "fifo", "tables", "configuration", "read tables", "wta", "dwta", "minhash", "srp", "create", "own hashers"}

func genObjects(t *rapid.T) ObjectsCase {
	cs := ObjectsCase{Dim: rapid.IntRange(1, 60).Draw(t, "dim"), Codes: rapid.IntRange(1, 20).Draw(t, "codes"), Seed: rapid.Int64Range(1, 1<<40).Draw(t, "seed")}
	some := rapid.SampledFrom(actorKinds).Draw(t, "main")
	for i := rapid.IntRange(2, 5).Draw(t, "actors"); i > 0; i-- {
		a := Actor{Kind: some, Seed: rapid.Uint64Range(0, 1<<30).Draw(t, "aseed"), N: rapid.IntRange(1, 20).Draw(t, "n")}
		if rapid.IntRange(0, 2).Draw(t, "other") == 0 {
			a.Kind = rapid.SampledFrom(actorKinds).Draw(t, "kind")
		}
		cs.Actors = append(cs.Actors, a)
	}
	return cs
}

// hashers of one dimension.
type hashers struct {
	dim  int
	wta  *wta_hash.WtaHash
	dwta *densified_wta_hash.DensifiedWtaHash
	min  *densified_minhash.DensifiedMinhash
	srp  *sparse_random_projection.SparseRandomProjection
}

func newHashers(dim, codes int) hashers {
	return hashers{dim, wta_hash.New(codes, dim), densified_wta_hash.New(codes, dim), densified_minhash.New(codes, dim), sparse_random_projection.New(dim, codes, 3)}
}

func (h hashers) hash(kind string, m *vt.Mix) string {
	v := make([]float64, h.dim)
	var ps []index_value.Pair
	for i := range v {
		if v[i] = m.Norm(); m.Intn(3) > 0 {
			ps = append(ps, index_value.Pair{Index: i, Value: v[i]})
		}
	}
	switch kind {
	case "wta":
		return fmt.Sprint(h.wta.GetHashDense(v), h.wta.GetHash(ps))
	case "dwta":
		return fmt.Sprint(h.dwta.GetHashEasy(v, 30), h.dwta.GetHash(ps))
	case "minhash":
		bins := h.min.GetMap(h.dim)
		return fmt.Sprint(bins, h.min.GetHashEasyDense(bins, v, 5), h.min.GetHashEasy(bins, ps, 5))
	default:
		return fmt.Sprint(h.srp.GetHash(v), h.srp.GetHashSparse(ps))
	}
}

func runObjects(c *vt.Ctx, cs ObjectsCase) {
	dir, err := os.MkdirTemp("", "conc")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	vt.SeedRNG(cs.Seed)
	shared := newHashers(cs.Dim, cs.Codes)
	common := lsh.New(1, 3, 4)
	for i := 0; i < 300; i++ {
		common.Add([]int{i % 16, i % 7, 3}, i)
	}
	// a fresh object each time it is called
	make_ := func(ai int, a Actor) func() string {
		m := vt.Mix(a.Seed)
		switch a.Kind {
		case "scanner":
			text := fmt.Sprintf("%d 50 20\n", a.N)
			for i := 0; i < a.N; i++ {
				text += fmt.Sprintf("%d,%d %d:%v %d:1e-3\n", m.Intn(20), m.Intn(20), m.Intn(50), m.Norm(), m.Intn(50))
			}
			if m.Intn(3) == 0 {
				text += "1 7:x\n"
			}
			return func() (out string) {
				s := xcrepo.NewScanner(strings.NewReader(text))
				for s.Scan() {
					out += fmt.Sprint(s.Example(), s.LineNumber())
				}
				return out + fmt.Sprint(s.Err(), s.TotalPoints(), s.NumFeatures(), s.NumLabels())
			}
		case "bucket", "fifo":
			var b interface {
				Add(int) int
				Retrieve(int) int
				GetAll() []int
				Reset()
			} = bucket.New()
			if a.Kind == "fifo" {
				b = fifo.New()
			}
			return func() (out string) {
				for i := 0; i < a.N*10; i++ {
					out += fmt.Sprint(b.Add(m.Intn(1000)), b.Retrieve(i/2), " ")
					if m.Intn(90) == 0 {
						b.Reset()
					}
				}
				return out + fmt.Sprint(b.GetAll())
			}
		case "tables":
			t := lsh.New(2, 3, 6)
			return func() (out string) {
				for i := 0; i < a.N*5; i++ {
					idx := t.HashesToIndex([]int{m.Intn(8), m.Intn(8), m.Intn(8), m.Intn(8), m.Intn(8), m.Intn(8)})
					out += fmt.Sprint(t.Add(idx, i))
					if m.Intn(60) == 0 {
						t.Clear()
					}
					out += fmt.Sprint(t.RetrieveRaw(idx))
				}
				return
			}
		case "read tables":
			return func() (out string) {
				for i := 0; i < a.N; i++ {
					out += fmt.Sprint(common.RetrieveRaw([]int{m.Intn(16), m.Intn(16), m.Intn(16)}), common.Retrieve(1, m.Intn(16), m.Intn(20)), common.HashesToIndex([]int{1, 2, 3}))
				}
				return
			}
		case "configuration":
			name := filepath.Join(dir, fmt.Sprint(ai, ".json"))
			if err := os.WriteFile(name, []byte(fmt.Sprintf(`{"BatchSize": %d, "SizesOfLayers": [%d, 7], "Epoch": %d}`, m.Intn(99), m.Intn(99), m.Intn(99))), 0o600); err != nil {
				panic(err)
			}
			return func() (out string) {
				for i := 0; i < a.N; i++ {
					g, err := configuration.FromJsonFile(name)
					if err != nil {
						return out + err.Error()
					}
					d := configuration.Default()
					out += fmt.Sprint(*g, *d)
					g.BatchSize, d.BatchSize = i, i
					g.SizesOfLayers[0] = i
				}
				return
			}
		case "create":
			return func() string {
				h := newHashers(cs.Dim, cs.Codes)
				for _, kind := range []string{"wta", "dwta", "minhash", "srp"} {
					k := m
					h.hash(kind, &k)
				}
				n := Net{InputDim: 5, Sizes: []int{6, 5}, Batch: 2, LR: 0.1, Mode: 4, K: []int{1, 1}, L: []int{2, 2}, Range: []int{3, 3},
					Train: []vt.F{0.5, 0.5}, Test: []vt.F{1, 1}}
				n.create()
				return ""
			}
		case "own hashers":
			h := newHashers(cs.Dim, cs.Codes)
			return func() string {
				// they are drawn: the same answer twice is all that can be asked
				for i := 0; i < a.N; i++ {
					for _, kind := range []string{"wta", "dwta", "minhash", "srp"} {
						k1, k2 := m, m
						if x, y := h.hash(kind, &k1), h.hash(kind, &k2); x != y {
							return fmt.Sprintf("%s gives %s and then %s", kind, x, y)
						}
						m = k1
					}
				}
				return ""
			}
		default:
			return func() (out string) {
				for i := 0; i < a.N; i++ {
					out += shared.hash(a.Kind, &m)
				}
				return
			}
		}
	}
	configuration.Global = configuration.Default()
	alone := make([]string, len(cs.Actors))
	for i, a := range cs.Actors {
		alone[i] = make_(i, a)()
		c.Label(a.Kind)
	}
	for round := 0; round < rounds(); round++ {
		beside := make([]string, len(cs.Actors))
		var fs []func()
		for i, a := range cs.Actors {
			f := make_(i, a)
			fs = append(fs, func() { beside[i] = f() })
		}
		seen := races()
		if p := together(fs); p != nil {
			c.Failf("objects used at once: %v", p)
		}
		if races() > seen {
			c.Failf("objects used at once: data race")
		}
		for i, a := range cs.Actors {
			if alone[i] != beside[i] {
				c.Failf("%s gives %.300q alone and %.300q beside others", a.Kind, alone[i], beside[i])
			}
		}
	}
	if len(cs.Actors) > 1 {
		c.NonTrivial()
	}
}
