// Package vt is the engine shared by all checks: it drives rapid over
// JSON-serialisable cases, counts what was generated, shrinks failures to a
// concrete replayable case, and watches for cases that never terminate.
package vt

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math"
	mrand "math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// F is a float64 whose JSON form is exact and covers NaN and infinities.
type F float64

func (f F) MarshalJSON() ([]byte, error) {
	v := float64(f)
	if math.IsNaN(v) || math.IsInf(v, 0) || (v == 0 && math.Signbit(v)) {
		return json.Marshal(strconv.FormatFloat(v, 'g', -1, 64))
	}
	return []byte(strconv.FormatFloat(v, 'g', -1, 64)), nil
}

func (f *F) UnmarshalJSON(b []byte) error {
	v, err := strconv.ParseFloat(strings.Trim(string(b), `"`), 64)
	if err != nil {
		return err
	}
	*f = F(v)
	return nil
}

func Floats(fs []F) []float64 {
	out := make([]float64, len(fs))
	for i, f := range fs {
		out[i] = float64(f)
	}
	return out
}

func FromFloats(fs []float64) []F {
	out := make([]F, len(fs))
	for i, f := range fs {
		out[i] = F(f)
	}
	return out
}

// Ctx is handed to the oracle of one case.
type Ctx struct {
	nontrivial bool
	skipped    bool
	labels     []string
}

type failure struct{ msg string }
type skip struct{}

// Unobservable is what a check panics with when the part of the program it
// judges by cannot be seen in the code at hand; the case is dropped.
type Unobservable string

// Failf reports that the case violates the property.
func (c *Ctx) Failf(format string, args ...any) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Skip drops a case whose outcome cannot be judged (counted in the evidence).
func (c *Ctx) Skip() { panic(skip{}) }

func (c *Ctx) NonTrivial()    { c.nontrivial = true }
func (c *Ctx) Label(l string) { c.labels = append(c.labels, l) }
func (c *Ctx) LabelIf(cond bool, l string) {
	if cond {
		c.labels = append(c.labels, l)
	}
}

// Part is one generator/oracle pair of a property.
type Part interface {
	name() string
	run(w *worker, cases int)
	replay(raw json.RawMessage) (string, bool)
	budget(tier string) int
}

// Check is the generic Part.
type Check[C any] struct {
	Name     string
	Quick    int // number of cases over all shards
	Thorough int
	Gen      func(t *rapid.T) C
	Run      func(c *Ctx, cs C)
}

func (p Check[C]) name() string { return p.Name }
func (p Check[C]) budget(tier string) int {
	if tier == "thorough" {
		return p.Thorough
	}
	return p.Quick
}

// exec runs the oracle on one case: "" means it held.
func (p Check[C]) exec(ctx *Ctx, cs C) (msg string) {
	defer func() {
		r := recover()
		switch v := r.(type) {
		case nil:
		case failure:
			msg = v.msg
		case skip:
			ctx.skipped = true
		case Unobservable:
			ctx.skipped = true
			ctx.labels = append(ctx.labels, "cannot be observed: "+string(v))
		default:
			msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	caseCPU.Store(int64(cpuTime()) + 1)
	defer caseCPU.Store(0)
	p.Run(ctx, cs)
	return ""
}

func trimStack(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/repo") || strings.Contains(l, "goslide") || strings.Contains(l, "verifharness") {
			keep = append(keep, strings.TrimSpace(l))
		}
	}
	if len(keep) > 16 {
		keep = keep[:16]
	}
	return strings.Join(keep, "\n")
}

var caseCPU atomic.Int64 // process CPU time at the start of the running case, +1; 0 = none
var currentCase struct {
	sync.Mutex
	part string
	get  func() json.RawMessage
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

type Failure struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

type PartStats struct {
	Evaluations int               `json:"evaluations"`
	Skipped     int               `json:"skipped"`
	Labels      map[string]int    `json:"labels"`
	NonTrivial  []string          `json:"nontrivial"` // hashes of distinct non-trivial cases
	Samples     []json.RawMessage `json:"samples"`
}

type stats struct {
	Parts   map[string]*PartStats `json:"parts"`
	Failure *Failure              `json:"failure"`
	Done    bool                  `json:"done"`
}

type worker struct {
	prop  string
	seed  uint64
	st    *stats
	out   string
	mu    sync.Mutex
	extra int
}

func (w *worker) write(done bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.st.Done = done
	b, err := json.Marshal(w.st)
	if err != nil {
		fmt.Fprintln(os.Stderr, "stats:", err)
		os.Exit(2)
	}
	if err := os.WriteFile(w.out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "stats:", err)
		os.Exit(2)
	}
}

type stopTB struct{}

type miniTB struct {
	nm     string
	failed bool
	log    strings.Builder
}

func (t *miniTB) Helper()                   {}
func (t *miniTB) Name() string              { return t.nm }
func (t *miniTB) Logf(f string, a ...any)   { fmt.Fprintf(&t.log, f+"\n", a...) }
func (t *miniTB) Log(a ...any)              { fmt.Fprintln(&t.log, a...) }
func (t *miniTB) Skipf(f string, a ...any)  { panic(stopTB{}) }
func (t *miniTB) Skip(a ...any)             { panic(stopTB{}) }
func (t *miniTB) SkipNow()                  { panic(stopTB{}) }
func (t *miniTB) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *miniTB) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *miniTB) Fatalf(f string, a ...any) { t.Logf(f, a...); t.failed = true; panic(stopTB{}) }
func (t *miniTB) Fatal(a ...any)            { t.Log(a...); t.failed = true; panic(stopTB{}) }
func (t *miniTB) FailNow()                  { t.failed = true; panic(stopTB{}) }
func (t *miniTB) Fail()                     { t.failed = true }
func (t *miniTB) Failed() bool              { return t.failed }

func (p Check[C]) run(w *worker, cases int) {
	ps := &PartStats{Labels: map[string]int{}}
	w.st.Parts[p.Name] = ps
	seen := map[uint64]bool{}
	var lastFail *Failure

	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s", w.seed, w.prop, p.Name)
	must(flag.Set("rapid.checks", strconv.Itoa(cases)))
	must(flag.Set("rapid.seed", strconv.FormatUint(h.Sum64()|1, 10)))
	must(flag.Set("rapid.nofailfile", "true"))
	must(flag.Set("rapid.shrinktime", shrinkTime))

	limit, err := time.ParseDuration(shrinkTime)
	must(err)
	var failedAt time.Time

	prop := func(t *rapid.T) {
		if lastFail != nil && time.Since(failedAt) > limit {
			return // slow cases: rapid looks at the clock only now and then
		}
		cs := p.Gen(t)
		currentCase.Lock()
		currentCase.part = p.Name
		currentCase.get = func() json.RawMessage { return marshal(cs) }
		currentCase.Unlock()

		if caseLog != "" {
			b, _ := json.Marshal(Failure{w.prop, p.Name, "", marshal(cs)})
			must(os.WriteFile(caseLog, b, 0o644))
		}
		ctx := &Ctx{}
		msg := p.exec(ctx, cs)
		if lastFail == nil {
			ps.Evaluations++
			if ctx.skipped {
				ps.Skipped++
			}
			for _, l := range ctx.labels {
				ps.Labels[l]++
			}
			if ctx.nontrivial && msg == "" && !ctx.skipped {
				raw := marshal(cs)
				hh := fnv.New64a()
				hh.Write(raw)
				if k := hh.Sum64(); !seen[k] {
					seen[k] = true
					if len(ps.Samples) < 2 {
						ps.Samples = append(ps.Samples, raw)
					} else if len(seen)%97 == 0 && len(ps.Samples) < 3 {
						ps.Samples = append(ps.Samples, raw)
					}
				}
			}
		}
		if msg != "" {
			if lastFail == nil {
				failedAt = time.Now()
			}
			lastFail = &Failure{w.prop, p.Name, msg, marshal(cs)}
			t.Fatalf("property violated")
		}
	}

	tb := &miniTB{nm: p.Name}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopTB); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(tb, prop)
	}()

	for k := range seen {
		ps.NonTrivial = append(ps.NonTrivial, strconv.FormatUint(k, 16))
	}
	sort.Strings(ps.NonTrivial)

	if lastFail != nil {
		w.st.Failure = lastFail
		return
	}
	if tb.failed {
		fmt.Fprintln(os.Stderr, "generator error:", tb.log.String())
		w.write(false)
		os.Exit(2)
	}
}

func marshal(v any) json.RawMessage {
	b, err := json.Marshal(v)
	if err != nil {
		panic(fmt.Sprintf("case does not marshal: %v", err))
	}
	return b
}

func (p Check[C]) replay(raw json.RawMessage) (string, bool) {
	var cs C
	if err := json.Unmarshal(raw, &cs); err != nil {
		fmt.Fprintln(os.Stderr, "replay:", err)
		os.Exit(2)
	}
	ctx := &Ctx{}
	msg := p.exec(ctx, cs)
	return msg, ctx.skipped
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// shrinkTime bounds the search for a smaller failing case.
var shrinkTime = func() string {
	if v := os.Getenv("VERIF_SHRINKTIME"); v != "" {
		return v
	}
	return "25s"
}()

// caseLog, when set, receives every case before it is run.
var caseLog = os.Getenv("VERIF_CASELOG")

const hangCPU = 100 * time.Second

func watchdog(onHang func()) {
	for range time.Tick(time.Second) {
		start := caseCPU.Load()
		if start == 0 {
			continue
		}
		if int64(cpuTime())+1-start > int64(hangCPU) && caseCPU.Load() == start {
			onHang()
		}
	}
}

// Main is the entry point of a check program.
func Main(props map[string][]Part) {
	prop := flag.String("prop", "", "property id")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	seed := flag.Uint64("seed", 1, "")
	tier := flag.String("tier", "quick", "")
	out := flag.String("out", "", "statistics file")
	replay := flag.String("replay", "", "replay file")
	only := flag.String("part", "", "run one part only")
	scale := flag.Float64("scale", 1, "multiply the case counts")
	testing.Init()
	flag.Parse()
	runtime.GOMAXPROCS(2)

	if devnull, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		realStdout = os.Stdout
		os.Stdout = devnull // the library prints progress
	}

	if *replay != "" {
		Replaying = true
		b, err := os.ReadFile(*replay)
		must(err)
		var f Failure
		must(json.Unmarshal(b, &f))
		go watchdog(func() {
			fmt.Fprintf(realStdout, "REPRODUCED %s/%s: does not terminate\n", f.Property, f.Part)
			os.Exit(1)
		})
		for _, p := range props[f.Property] {
			if p.name() == f.Part {
				if msg, _ := p.replay(f.Case); msg != "" {
					fmt.Fprintf(realStdout, "REPRODUCED %s/%s: %s\n", f.Property, f.Part, msg)
					os.Exit(1)
				}
				fmt.Fprintln(realStdout, "not reproduced")
				os.Exit(0)
			}
		}
		fmt.Fprintln(os.Stderr, "replay: unknown part", f.Property, f.Part)
		os.Exit(2)
	}

	parts, ok := props[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	w := &worker{prop: *prop, seed: *seed*1000003 + uint64(*shard)*7919 + 17, out: *out,
		st: &stats{Parts: map[string]*PartStats{}}}
	go watchdog(func() {
		currentCase.Lock()
		part, raw := currentCase.part, currentCase.get()
		currentCase.Unlock()
		w.st = &stats{Parts: map[string]*PartStats{}, Failure: &Failure{w.prop, part,
			fmt.Sprintf("the case used more than %v of CPU time without terminating", hangCPU), raw}}
		w.write(true)
		os.Exit(0)
	})
	for _, p := range parts {
		if *only != "" && p.name() != *only {
			continue
		}
		n := int(math.Ceil(float64(p.budget(*tier)) * *scale))
		n = (n + *shards - 1 - *shard) / *shards
		if n == 0 {
			continue
		}
		p.run(w, n)
		if w.st.Failure != nil {
			break
		}
	}
	w.write(true)
}

// Replaying tells whether a single case is being replayed.
var Replaying bool

var realStdout = os.Stdout

// SeedRNG pins math/rand's global source and makes goslide's own re-seeding
// from the clock ineffective, so that everything drawn from here on is a
// function of seed.
func SeedRNG(seed int64) {
	setGodebug("randseednop=0")
	mrand.Seed(seed)
	setGodebug("randseednop=1")
}

// FreeRNG lets goslide re-seed from the clock, as in production.
func FreeRNG() { setGodebug("randseednop=0") }

var curGodebug string

func setGodebug(v string) {
	if v != curGodebug {
		os.Setenv("GODEBUG", v)
		curGodebug = v
	}
}

// Mix is a small deterministic generator for bulk data derived from a drawn seed.
type Mix uint64

func (m *Mix) Next() uint64 {
	*m += 0x9e3779b97f4a7c15
	z := uint64(*m)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (m *Mix) Intn(n int) int { return int(m.Next() % uint64(n)) }
func (m *Mix) Float() float64 { return float64(m.Next()>>11) / (1 << 53) }
func (m *Mix) Norm() float64 {
	u1 := m.Float()
	for u1 == 0 {
		u1 = m.Float()
	}
	return math.Sqrt(-2*math.Log(u1)) * math.Cos(2*math.Pi*m.Float())
}
func (m *Mix) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := m.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
