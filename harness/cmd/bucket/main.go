// Check C04: the two bucket kinds against a list of the ids inserted.
package main

import (
	"fmt"

	"github.com/nlpodyssey/goslide/bucket"
	"github.com/nlpodyssey/goslide/bucket/fifo"
	"pgregory.net/rapid"
	"verifharness/vt"
)

const capacity = 128

type Op struct {
	Kind string // add, all, get, reset, size
	B    int    // bucket
	N    int    // add: how many ids; get: slot
	Id   int    // add: first id
	Step int    // add: difference of consecutive ids
}

type Case struct {
	Array   bool
	Buckets int
	Ops     []Op
}

func gen(t *rapid.T) Case {
	cs := Case{Array: rapid.Bool().Draw(t, "array"), Buckets: rapid.IntRange(1, 3).Draw(t, "buckets")}
	n := rapid.IntRange(1, 30).Draw(t, "ops")
	for i := 0; i < n; i++ {
		op := Op{B: rapid.IntRange(0, cs.Buckets-1).Draw(t, "bucket")}
		switch rapid.IntRange(0, 9).Draw(t, "kind") {
		case 0, 1, 2:
			op.Kind, op.N = "add", rapid.IntRange(1, 4).Draw(t, "count")
		case 3, 4:
			op.Kind, op.N = "add", rapid.IntRange(20, 140).Draw(t, "count")
		case 5:
			op.Kind, op.N = "add", rapid.SampledFrom([]int{126, 127, 128, 129, 255, 256, 257, 400, 1000}).Draw(t, "count")
		case 6:
			op.Kind = "all"
		case 7:
			op.Kind = "get"
			op.N = rapid.SampledFrom([]int{0, 1, 5, 63, 126, 127, 128, 129, 255, 256, 1000, 1 << 40}).Draw(t, "slot")
		case 8:
			op.Kind = "reset"
		case 9:
			op.Kind = "size"
		}
		if op.Kind == "add" && op.N > 300 && rapid.IntRange(0, 199).Draw(t, "long") == 0 {
			op.N = rapid.SampledFrom([]int{32767, 33000, 65536, 70000, 140000}).Draw(t, "longcount")
		}
		if op.Kind == "add" {
			op.Id = rapid.OneOf(rapid.IntRange(0, 20), rapid.IntRange(0, 1<<40), rapid.IntRange(-20, 0)).Draw(t, "id")
			op.Step = rapid.SampledFrom([]int{1, 1, 1, 0, 7}).Draw(t, "step")
		}
		cs.Ops = append(cs.Ops, op)
	}
	return cs
}

type iface interface {
	Add(int) int
	Retrieve(int) int
	GetAll() []int
	Reset()
}

func run(c *vt.Ctx, cs Case) {
	bs := make([]iface, cs.Buckets)
	ids := make([][]int, cs.Buckets) // inserted since the reset
	for i := range bs {
		if cs.Array {
			bs[i] = bucket.New()
		} else {
			bs[i] = fifo.New()
		}
	}
	// slot s holds the last insertion n with n = s modulo the capacity
	slot := func(b, s int) int {
		n := len(ids[b]) - 1
		n -= ((n-s)%capacity + capacity) % capacity
		return ids[b][n]
	}
	wrapped, resetFilled := false, false
	checkAll := func(b int, when string) {
		got := bs[b].GetAll()
		filled := min(len(ids[b]), capacity)
		want := filled
		if cs.Array && filled > 0 {
			want = capacity
		}
		if len(got) != want {
			c.Failf("%s: bucket %d with %d ids gives %d slots, want %d", when, b, len(ids[b]), len(got), want)
		}
		for s := range got {
			if s < filled {
				if w := slot(b, s); got[s] != w {
					c.Failf("%s: bucket %d after %d insertions holds %d in slot %d, want %d", when, b, len(ids[b]), got[s], s, w)
				}
			} else if s == filled && got[s] != -1 {
				c.Failf("%s: bucket %d: first unfilled slot %d reads %d, want -1", when, b, s, got[s])
			} else if got[s] != 0 && got[s] != -1 {
				c.Failf("%s: bucket %d with %d ids holds %d in unfilled slot %d", when, b, len(ids[b]), got[s], s)
			}
		}
	}
	checkGet := func(b, s int, when string) {
		got := bs[b].Retrieve(s)
		if s >= capacity {
			if got != -1 {
				c.Failf("%s: bucket %d: slot %d reads %d, want -1", when, b, s, got)
			}
		} else if s < len(ids[b]) {
			if w := slot(b, s); got != w {
				c.Failf("%s: bucket %d after %d insertions: slot %d reads %d, want %d", when, b, len(ids[b]), s, got, w)
			}
		}
	}
	checkSize := func(b int, when string) {
		if a, ok := bs[b].(*bucket.Bucket); ok && a.GetSize() != len(ids[b]) {
			c.Failf("%s: bucket %d has size %d after %d insertions", when, b, a.GetSize(), len(ids[b]))
		}
	}
	for i, op := range cs.Ops {
		when := fmt.Sprintf("op %d (%s)", i, op.Kind)
		switch op.Kind {
		case "add":
			for k := 0; k < op.N; k++ {
				id := op.Id + k*op.Step
				n := len(ids[op.B])
				if got := bs[op.B].Add(id); got != n%capacity {
					c.Failf("%s: insertion %d into bucket %d went to slot %d, want %d", when, n, op.B, got, n%capacity)
				}
				ids[op.B] = append(ids[op.B], id)
				if k%37 == 0 {
					checkGet(op.B, n%capacity, when)
					checkGet(op.B, (n+1)%capacity, when)
				}
			}
			wrapped = wrapped || len(ids[op.B]) > capacity
		case "all":
			checkAll(op.B, when)
		case "get":
			checkGet(op.B, op.N, when)
		case "reset":
			resetFilled = resetFilled || len(ids[op.B]) > 0
			bs[op.B].Reset()
			ids[op.B] = nil
		case "size":
			checkSize(op.B, when)
		}
		checkGet((op.B+1)%cs.Buckets, op.N%capacity, when)
	}
	// single slots first: reading everything may mark a slot
	for b := range bs {
		for s := 0; s < capacity+2; s++ {
			checkGet(b, s, "at the end")
		}
		checkSize(b, "at the end")
	}
	for b := range bs {
		checkAll(b, "at the end")
		checkAll(b, "at the end, again")
	}
	c.LabelIf(wrapped, "wrapped around")
	for b := range ids {
		c.LabelIf(len(ids[b]) > 65536, "more than 65536 ids")
	}
	c.LabelIf(resetFilled, "reset of a filled bucket")
	c.LabelIf(cs.Array, "array bucket")
	if wrapped || resetFilled {
		c.NonTrivial()
	}
}

func main() {
	vt.Main(map[string][]vt.Part{
		"C04": {vt.Check[Case]{Name: "buckets", Quick: 400000, Thorough: 8000000, Gen: gen, Run: run}},
	})
}
