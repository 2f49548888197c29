// Checks C05 and C06: the hash tables and their bucket addresses.
package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/lsh"
	"pgregory.net/rapid"
	"verifharness/vec"
	"verifharness/vt"
)

const capacity = 128

// ---------------------------------------------------------------- C05

type Set struct{ K, L, RangePow int }

type Op struct {
	Kind    string // add, single, clear, raw, get
	S       int    // set
	Indices []int  // add, raw: a bucket per table, modulo the table size
	T       int    // single, get: table
	Id, N   int    // add, single: first id and number of ids
}

type Store struct {
	Sets []Set
	Ops  []Op
}

func genStore(t *rapid.T) Store { return genSets(t, rapid.IntRange(1, 3).Draw(t, "sets"), false) }

func genLarge(t *rapid.T) Store { return genSets(t, 1, true) }

func genSets(t *rapid.T, sets int, large bool) Store {
	var cs Store
	for i := sets; i > 0; i-- {
		s := Set{K: rapid.IntRange(1, 4).Draw(t, "k"), L: rapid.IntRange(1, 6).Draw(t, "l"),
			RangePow: rapid.IntRange(0, 5).Draw(t, "rangepow")}
		if rapid.IntRange(0, 19).Draw(t, "bigtable") == 0 {
			s.RangePow, s.L = rapid.IntRange(6, 12).Draw(t, "bigrangepow"), rapid.IntRange(1, 2).Draw(t, "bigl")
		}
		if rapid.IntRange(0, 19).Draw(t, "manytables") == 0 {
			s.L, s.RangePow = rapid.OneOf(rapid.IntRange(20, 60), rapid.IntRange(61, 300)).Draw(t, "manyl"), rapid.IntRange(0, 3).Draw(t, "manyrangepow")
		}
		if large {
			s.L, s.RangePow = 2, rapid.SampledFrom([]int{13, 13, 14, 14, 15, 15, 16, 17, 18}).Draw(t, "largerangepow")
			if s.RangePow > 15 {
				s.L = 1
			}
		}
		cs.Sets = append(cs.Sets, s)
	}
	for i := rapid.IntRange(1, 30).Draw(t, "ops"); i > 0; i-- {
		op := Op{S: rapid.IntRange(0, len(cs.Sets)-1).Draw(t, "set")}
		s := cs.Sets[op.S]
		op.Kind = rapid.SampledFrom([]string{"add", "add", "add", "single", "single", "raw", "get", "clear"}).Draw(t, "kind")
		switch op.Kind {
		case "add", "raw", "single", "get":
			// a few hot buckets, so that they collide and overflow
			hot := rapid.IntRange(0, 3).Draw(t, "hot")
			op.Indices = make([]int, s.L)
			m := vt.Mix(rapid.Uint64Range(0, 1<<20).Draw(t, "idx"))
			for j := range op.Indices {
				switch hot {
				case 0:
					op.Indices[j] = m.Intn(1 << s.RangePow)
				case 1:
					op.Indices[j] = (1 << s.RangePow) - 1
				default:
					op.Indices[j] = m.Intn(min(2, 1<<s.RangePow))
				}
			}
			op.T = rapid.IntRange(0, s.L-1).Draw(t, "table")
		}
		if op.Kind == "add" || op.Kind == "single" {
			op.Id = rapid.OneOf(rapid.IntRange(0, 500), rapid.SampledFrom([]int{-1, -3, -1000, 1 << 40})).Draw(t, "id")
			op.N = rapid.SampledFrom([]int{1, 1, 2, 5, 50, 100, 128, 129, 300}).Draw(t, "count")
			if op.N == 300 && s.L < 4 && rapid.IntRange(0, 99).Draw(t, "long") == 0 {
				op.N = rapid.SampledFrom([]int{33000, 66000}).Draw(t, "longcount")
			}
		}
		cs.Ops = append(cs.Ops, op)
	}
	return cs
}

type model struct {
	ids   []int // insertions since the clear
	slots map[int]int
}

func runStore(c *vt.Ctx, cs Store) {
	sets := make([]*lsh.LSH, len(cs.Sets))
	mods := make([]map[[2]int]*model, len(cs.Sets))
	for i, s := range cs.Sets {
		sets[i] = lsh.New(s.K, s.L, s.RangePow)
		mods[i] = map[[2]int]*model{}
	}
	at := func(s, t, b int) *model {
		k := [2]int{t, b}
		if mods[s][k] == nil {
			mods[s][k] = &model{slots: map[int]int{}}
		}
		return mods[s][k]
	}
	inserted := func(s, t, b, slot, id int, when string) {
		m := at(s, t, b)
		if slot < 0 || slot >= capacity {
			c.Failf("%s: table %d bucket %d: insertion returned slot %d", when, t, b, slot)
		}
		m.ids = append(m.ids, id)
		m.slots[slot] = id
		if got := sets[s].Retrieve(t, b, slot); got != id {
			c.Failf("%s: table %d bucket %d: slot %d of the id just inserted reads %d, want %d", when, t, b, slot, got, id)
		}
	}
	same := func(got []int, m *model, where string) {
		want := m.ids[max(0, len(m.ids)-capacity):]
		a, b := append([]int{}, got...), append([]int{}, want...)
		sort.Ints(a)
		sort.Ints(b)
		if !vec.EqInts(a, b) {
			c.Failf("%s: holds %v, want %v", where, a, b)
		}
	}
	overflow, clearedFilled, shared := false, false, false
	var heldSlots, slotsThen []int // what an earlier insertion returned
	held := func(when string) {
		if !vec.EqInts(heldSlots, slotsThen) {
			c.Failf("%s: the slots an earlier insertion returned, %v, have become %v", when, slotsThen, heldSlots)
		}
	}
	for i, op := range cs.Ops {
		when := fmt.Sprintf("op %d (%s)", i, op.Kind)
		s := op.S
		switch op.Kind {
		case "add":
			for n := 0; n < op.N; n++ {
				in := append([]int(nil), op.Indices...)
				slots := sets[s].Add(in, op.Id+n)
				if len(slots) != cs.Sets[s].L {
					c.Failf("%s: %d slots for %d tables", when, len(slots), cs.Sets[s].L)
				}
				if !vec.EqInts(in, op.Indices) {
					c.Failf("%s: the addresses were modified", when)
				}
				held(when)
				heldSlots, slotsThen = slots, append([]int(nil), slots...)
				for t, b := range op.Indices {
					inserted(s, t, b, slots[t], op.Id+n, when)
				}
			}
		case "single":
			for n := 0; n < op.N; n++ {
				inserted(s, op.T, op.Indices[op.T], sets[s].AddSingle(op.T, op.Indices[op.T], op.Id+n), op.Id+n, when)
			}
		case "clear":
			clearedFilled = clearedFilled || len(mods[s]) > 0
			sets[s].Clear()
			mods[s] = map[[2]int]*model{}
		case "raw":
			raw := sets[s].RetrieveRaw(op.Indices)
			if len(raw) != cs.Sets[s].L {
				c.Failf("%s: %d results for %d tables", when, len(raw), cs.Sets[s].L)
			}
			for t, b := range op.Indices {
				same(raw[t], at(s, t, b), fmt.Sprintf("%s: table %d bucket %d", when, t, b))
			}
		case "get":
			b := op.Indices[op.T]
			for slot, id := range at(s, op.T, b).slots {
				if got := sets[s].Retrieve(op.T, b, slot); got != id {
					c.Failf("%s: table %d bucket %d slot %d reads %d, want %d", when, op.T, b, slot, got, id)
				}
			}
		}
		for _, m := range mods[s] {
			overflow = overflow || len(m.ids) > capacity
		}
	}
	// every bucket of every table of every set
	held("at the end")
	for s, spec := range cs.Sets {
		var before [][]int
		var beforeThen [][]int
		for b := 0; b < 1<<spec.RangePow; b++ {
			idx := make([]int, spec.L)
			for t := range idx {
				idx[t] = b
			}
			raw := sets[s].RetrieveRaw(idx)
			for t := range before {
				if !vec.EqInts(before[t], beforeThen[t]) {
					c.Failf("at the end: set %d table %d: what was retrieved from bucket %d changes when bucket %d is retrieved", s, t, b-1, b)
				}
			}
			before, beforeThen = raw, nil
			for t := range raw {
				beforeThen = append(beforeThen, append([]int(nil), raw[t]...))
			}
			for t := range raw {
				m := mods[s][[2]int{t, b}]
				if m == nil {
					m = &model{}
				}
				shared = shared || len(m.ids) > 1
				same(raw[t], m, fmt.Sprintf("at the end: set %d table %d bucket %d", s, t, b))
				for slot, id := range m.slots {
					if got := sets[s].Retrieve(t, b, slot); got != id {
						c.Failf("at the end: set %d table %d bucket %d slot %d reads %d, want %d", s, t, b, slot, got, id)
					}
				}
			}
		}
	}
	c.LabelIf(overflow, "bucket overflow")
	c.LabelIf(clearedFilled, "clear of filled tables")
	c.LabelIf(len(cs.Sets) > 1, "several sets")
	if overflow || (clearedFilled && shared) {
		c.NonTrivial()
	}
}

// ---------------------------------------------------------------- C06

type Addr struct {
	Family   configuration.HashFunctionType
	K, L     int
	RangePow int
	Seed     int64
	Codes    uint64 // seed of the code vectors
	Vectors  int
	Own      []uint64
}

func genAddr(t *rapid.T) Addr {
	cs := Addr{Family: configuration.HashFunctionType(rapid.IntRange(1, 4).Draw(t, "family"))}
	cs.L = rapid.IntRange(1, 8).Draw(t, "l")
	switch cs.Family {
	case configuration.WtaHashFunction, configuration.DensifiedWtaHashFunction:
		cs.K = rapid.SampledFrom([]int{1, 2, 2, 3, 3, 4}).Draw(t, "k")
		big := rapid.IntRange(0, 149).Draw(t, "bigk")
		if big == 0 {
			cs.K, cs.L = 6, 1
		} else if big < 4 {
			cs.K, cs.L = 5, 1
		}
		cs.RangePow = 3 * cs.K
		if cs.K < 4 {
			cs.RangePow += rapid.IntRange(0, 2).Draw(t, "extra")
		} else {
			cs.L = min(cs.L, 2)
		}
	case configuration.SparseRandomProjectionHashFunction:
		cs.K = rapid.IntRange(1, 10).Draw(t, "k")
		if rapid.IntRange(0, 99).Draw(t, "bigk") == 0 {
			cs.K, cs.L = rapid.IntRange(11, 15).Draw(t, "srpk"), 1
		}
		cs.RangePow = cs.K
		if cs.K < 9 {
			cs.RangePow += rapid.IntRange(0, 2).Draw(t, "extra")
		} else {
			cs.L = min(cs.L, 2)
		}
	default:
		cs.K = rapid.IntRange(1, 20).Draw(t, "k")
		cs.RangePow = rapid.IntRange(0, 9).Draw(t, "rangepow")
	}
	if rapid.IntRange(0, 29).Draw(t, "manytables") == 17 {
		cs.L = rapid.OneOf(rapid.IntRange(20, 60), rapid.IntRange(61, 300)).Draw(t, "manyl")
		switch cs.Family {
		case configuration.SparseRandomProjectionHashFunction:
			cs.K = min(cs.K, 4)
			cs.RangePow = cs.K
		case configuration.DensifiedMinhashFunction:
			cs.RangePow = min(cs.RangePow, 4)
		default:
			cs.K, cs.RangePow = 1, 3
		}
	}
	cs.Seed = rapid.Int64Range(1, 1<<40).Draw(t, "seed")
	cs.Codes = rapid.Uint64Range(0, 1<<40).Draw(t, "codes")
	cs.Vectors = rapid.IntRange(1, 12).Draw(t, "vectors")
	return cs
}

// The projections have the longest groups of codes.
var deepFamilies = []configuration.HashFunctionType{configuration.SparseRandomProjectionHashFunction, configuration.SparseRandomProjectionHashFunction,
	configuration.WtaHashFunction, configuration.DensifiedWtaHashFunction, configuration.DensifiedMinhashFunction}

// genDeep makes a single table of up to half a million buckets, all its address bits in use.
func genDeep(t *rapid.T) Addr {
	cs := Addr{Family: rapid.SampledFrom(deepFamilies).Draw(t, "family"), L: 1}
	switch cs.Family {
	case configuration.WtaHashFunction, configuration.DensifiedWtaHashFunction:
		cs.K = 6
		cs.RangePow = 18
	case configuration.SparseRandomProjectionHashFunction:
		cs.K = rapid.SampledFrom([]int{16, 17, 18, 19}).Draw(t, "k")
		cs.RangePow = cs.K
	default:
		cs.K = rapid.IntRange(1, 40).Draw(t, "k")
		cs.RangePow = rapid.IntRange(16, 18).Draw(t, "rangepow")
	}
	cs.Seed = rapid.Int64Range(1, 1<<40).Draw(t, "seed")
	cs.Codes = rapid.Uint64Range(0, 1<<40).Draw(t, "codes")
	cs.Vectors = rapid.IntRange(50, 200).Draw(t, "vectors")
	return cs
}

func runAddr(c *vt.Ctx, cs Addr) {
	g := configuration.Default()
	g.HashFunction = cs.Family
	configuration.Global = g
	vt.SeedRNG(cs.Seed)
	set := lsh.New(cs.K, cs.L, cs.RangePow)
	m := vt.Mix(cs.Codes)
	minhash := cs.Family == configuration.DensifiedMinhashFunction
	codes := 8
	if cs.Family == configuration.SparseRandomProjectionHashFunction {
		codes = 2
	}
	code := func() int {
		if !minhash {
			return m.Intn(codes)
		}
		switch m.Intn(8) {
		case 0:
			return math.MinInt64
		case 1:
			return m.Intn(1 << 30)
		}
		return m.Intn(300)
	}
	address := func(h []int) []int {
		in := append([]int(nil), h...)
		got := set.HashesToIndex(in)
		if !vec.EqInts(in, h) {
			c.Failf("the codes were modified")
		}
		if len(got) != cs.L {
			c.Failf("%d addresses for %d tables", len(got), cs.L)
		}
		for t, a := range got {
			if a < 0 || a >= 1<<cs.RangePow {
				c.Failf("table %d: codes %v have address %d, outside a table of %d buckets", t, h[t*cs.K:(t+1)*cs.K], a, 1<<cs.RangePow)
			}
		}
		return got
	}
	// seen[t] maps an address to the code group it came from
	seen := make([]map[int]string, cs.L)
	groups := make([]map[string]int, cs.L)
	for t := range seen {
		seen[t], groups[t] = map[int]string{}, map[string]int{}
	}
	judge := func(h []int) []int {
		got := address(h)
		for t, a := range got {
			key := fmt.Sprint(h[t*cs.K : (t+1)*cs.K])
			if prev, ok := groups[t][key]; ok && prev != a {
				c.Failf("table %d: codes %s have address %d, and %d another time", t, key, a, prev)
			}
			groups[t][key] = a
			if prev, ok := seen[t][a]; ok && prev != key && !minhash {
				c.Failf("table %d: different codes %s and %s have the same address %d", t, prev, key, a)
			}
			seen[t][a] = key
		}
		return got
	}
	var all [][]int
	for v := 0; v < cs.Vectors; v++ {
		h := make([]int, cs.K*cs.L)
		for i := range h {
			h[i] = code()
		}
		got := judge(h)
		all = append(all, h)
		// change one code: only its own table may move, and must for an exact family
		i := m.Intn(len(h))
		w := append([]int(nil), h...)
		for w[i] == h[i] {
			w[i] = code()
		}
		moved := judge(w)
		for t := range moved {
			if t != i/cs.K && moved[t] != got[t] {
				c.Failf("changing a code of table %d moves the address in table %d", i/cs.K, t)
			}
		}
		// permute the codes of one group
		if cs.K > 1 {
			p := append([]int(nil), h...)
			t := m.Intn(cs.L)
			a, b := t*cs.K+m.Intn(cs.K), t*cs.K+m.Intn(cs.K)
			p[a], p[b] = p[b], p[a]
			judge(p)
		}
		// the addresses are usable
		for t, slot := range set.Add(got, 1000+v) {
			if set.Retrieve(t, got[t], slot) != 1000+v {
				c.Failf("table %d: an id added at its address is not found there", t)
			}
		}
	}
	// every two positions of a table against each other
	if cs.L == 1 && cs.K > 6 && !minhash {
		base := append([]int(nil), all[0]...)
		judge(base)
		for a := range base {
			for b := range base[:a] {
				p := append([]int(nil), base...)
				p[a], p[b] = 0, codes-1
				judge(p)
				p[a], p[b] = codes-1, 0
				judge(p)
			}
		}
		c.Label("all pairs of positions")
		c.NonTrivial()
	}
	// all code groups
	total := 1
	for i := 0; i < cs.K && !minhash && total <= 1<<12; i++ {
		total *= codes
	}
	if !minhash && total <= 1<<12 {
		for x := 0; x < total; x++ {
			h := make([]int, cs.K*cs.L)
			for t := 0; t < cs.L; t++ {
				y := (x + t*977) % total
				for j := 0; j < cs.K; j++ {
					h[t*cs.K+j] = y % codes
					y /= codes
				}
			}
			judge(h)
		}
		c.Label("all code groups enumerated")
		c.NonTrivial()
	}
	if cs.K > 1 && cs.Vectors > 1 {
		c.NonTrivial()
	}
	for _, h := range all {
		judge(h)
	}
	c.Label(fmt.Sprintf("family %d", cs.Family))
	c.LabelIf(cs.RangePow >= 15, "table of 32768 or more buckets")
}

// ------------------------------------------------ C06: every code counts

type Spread struct {
	K, L, RangePow int
	Seed           int64
	Codes          uint64
}

func genSpread(t *rapid.T) Spread {
	cs := Spread{L: rapid.IntRange(1, 3).Draw(t, "l")}
	cs.K = rapid.IntRange((11+cs.L)/cs.L, 20).Draw(t, "k")
	cs.RangePow = rapid.IntRange(12, 13).Draw(t, "rangepow")
	cs.Seed = rapid.Int64Range(1, 1<<40).Draw(t, "seed")
	cs.Codes = rapid.Uint64Range(0, 1<<40).Draw(t, "codes")
	return cs
}

// runSpread looks for positions whose code never has a say in the address. A
// multiplier that vanishes in a table of 4096 buckets is drawn with
// probability 2^-12; three of at least twelve positions are no accident.
func runSpread(c *vt.Ctx, cs Spread) {
	g := configuration.Default()
	g.HashFunction = configuration.DensifiedMinhashFunction
	configuration.Global = g
	vt.SeedRNG(cs.Seed)
	set := lsh.New(cs.K, cs.L, cs.RangePow)
	m := vt.Mix(cs.Codes)
	n := cs.K * cs.L
	base := make([]int, n)
	for i := range base {
		base[i] = m.Intn(5000)
	}
	at := set.HashesToIndex(append([]int(nil), base...))
	var dead []int
	for i := range base {
		alive := false
		for try := 0; try < 40 && !alive; try++ {
			h := append([]int(nil), base...)
			h[i] += 1 + 2*m.Intn(1000)
			alive = set.HashesToIndex(h)[i/cs.K] != at[i/cs.K]
		}
		if !alive {
			dead = append(dead, i)
		}
	}
	if len(dead) >= 3 {
		c.Failf("K=%d L=%d: the codes at %v have no say in the addresses", cs.K, cs.L, dead)
	}
	c.NonTrivial()
}

func main() {
	vt.Main(map[string][]vt.Part{
		"C05": {vt.Check[Store]{Name: "store", Quick: 16000, Thorough: 400000, Gen: genStore, Run: runStore},
			vt.Check[Store]{Name: "large", Quick: 160, Thorough: 4000, Gen: genLarge, Run: runStore}},
		"C06": {vt.Check[Addr]{Name: "addresses", Quick: 5000, Thorough: 100000, Gen: genAddr, Run: runAddr},
			vt.Check[Addr]{Name: "deep", Quick: 16, Thorough: 160, Gen: genDeep, Run: runAddr},
			vt.Check[Spread]{Name: "spread", Quick: 160, Thorough: 4000, Gen: genSpread, Run: runSpread}},
	})
}
