// Checks C21 and C22: the program.
package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/dataset/xcrepo"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/network"
	"github.com/nlpodyssey/goslide/node"
	"pgregory.net/rapid"
	"verifharness/peek"
	"verifharness/vt"
)

const (
	minhash = configuration.DensifiedMinhashFunction
	srp     = configuration.SparseRandomProjectionHashFunction
)

// Data describes a data file.
type Data struct {
	Records int
	Seed    uint64
	CRLF    bool
	NoEnd   bool // no final line end
	Clean   bool // one label each, no noise
}

// Run describes a configuration and its data.
type Run struct {
	Config      configuration.Configuration
	Train, Test Data
	Pinned      bool // random numbers as the reference draws them
	Compact     bool // how the file is written
	Relative    bool // data files named relative to the working directory
}

func genRun(t *rapid.T, wide bool) Run {
	var r Run
	g := configuration.Default()
	g.HashFunction = configuration.HashFunctionType(rapid.IntRange(1, 4).Draw(t, "family"))
	g.LayerMode = configuration.LayerModeType(rapid.SampledFrom([]int{1, 1, 1, 2, 2, 3, 4, 4}).Draw(t, "mode"))
	if wide {
		g.LayerMode = 4
	}
	g.UseAdam = rapid.IntRange(0, 3).Draw(t, "adam") > 0
	g.BatchSize = rapid.IntRange(1, 5).Draw(t, "batch")
	g.InputDim = rapid.IntRange(2, 12).Draw(t, "input")
	g.LearningRate = rapid.SampledFrom([]float64{0.05, 0.01, 0.2}).Draw(t, "lr")
	g.Epoch = rapid.SampledFrom([]int{1, 2, 2, 3, 0}).Draw(t, "epochs")
	g.Stepsize = rapid.SampledFrom([]int{3, 1, 2, 4, 5, 7, 100}).Draw(t, "step")
	g.Rehash = rapid.IntRange(1, 20).Draw(t, "rehash")
	g.Rebuild = rapid.IntRange(1, 30).Draw(t, "rebuild")
	g.TotRecords = rapid.IntRange(0, 40).Draw(t, "train total")
	g.TotRecordsTest = rapid.IntRange(0, 40).Draw(t, "test total")
	g.NumLayer = rapid.SampledFrom([]int{2, 1, 3}).Draw(t, "layers")
	var train, test []float64
	for i := 0; i < g.NumLayer; i++ {
		last := i == g.NumLayer-1
		size := rapid.IntRange(2, 9).Draw(t, "size")
		if wide && last {
			size = rapid.IntRange(1010, 1200).Draw(t, "classes")
		}
		k, l, rp := 1, rapid.SampledFrom([]int{6, 10, 4, 2}).Draw(t, "l"), 3
		a, b := 1.0, 1.0
		if last || g.LayerMode == 1 || g.LayerMode == 4 {
			a = rapid.SampledFrom([]float64{0.5, 0.5, 0.25, 1, 0.5, 1, 0.999, 0.01}).Draw(t, "train sparsity")
			b = rapid.SampledFrom([]float64{0.5, 1, 0.75, 0.5, 1, 0.999, 0.01}).Draw(t, "test sparsity")
			if g.HashFunction == srp {
				k = rapid.IntRange(1, 3).Draw(t, "k")
			}
		}
		g.SizesOfLayers = append(g.SizesOfLayers, size)
		g.K, g.L, g.RangePow = append(g.K, k), append(g.L, l), append(g.RangePow, rp)
		train, test = append(train, a), append(test, b)
	}
	g.Sparsity = append(train, test...)
	if rapid.IntRange(0, 7).Draw(t, "surplus") == 7 { // lists longer than the layers need
		for i := rapid.IntRange(1, 3).Draw(t, "surplus entries"); i > 0; i-- {
			g.SizesOfLayers = append(g.SizesOfLayers, rapid.IntRange(2, 9).Draw(t, "surplus size"))
			g.K, g.L, g.RangePow = append(g.K, 1), append(g.L, 2), append(g.RangePow, 3)
			g.Sparsity = append(g.Sparsity, rapid.SampledFrom([]float64{0.5, 1}).Draw(t, "surplus sparsity"))
		}
	}
	r.Config = *g
	around := func(total int, label string) Data {
		n := rapid.OneOf(rapid.IntRange(1, 50), rapid.Just(total), rapid.Just(total+1), rapid.Just(total-1)).Draw(t, label)
		if n < 0 {
			n = 0
		}
		return Data{Records: n, Seed: rapid.Uint64Range(0, 1<<30).Draw(t, "seed"), CRLF: rapid.IntRange(0, 5).Draw(t, "crlf") == 0,
			NoEnd: rapid.IntRange(0, 5).Draw(t, "noend") == 0, Clean: rapid.Bool().Draw(t, "clean")}
	}
	r.Train, r.Test = around(g.TotRecords, "train records"), around(g.TotRecordsTest, "test records")
	if rapid.IntRange(0, 4).Draw(t, "long test") == 0 { // longer than any evaluation reads
		r.Test.Records = 55*g.BatchSize + rapid.IntRange(0, 9).Draw(t, "more")
		if rapid.Bool().Draw(t, "read on") {
			r.Config.TotRecordsTest = r.Test.Records - rapid.IntRange(0, 9).Draw(t, "less")
		}
	}
	r.Pinned = rapid.IntRange(0, 9).Draw(t, "free") > 0
	r.Compact = rapid.Bool().Draw(t, "compact")
	r.Relative = rapid.IntRange(0, 3).Draw(t, "relative") == 0
	r.Config.CpuProfile = rapid.IntRange(0, 19).Draw(t, "cpu profile") == 19
	r.Config.MemProfile = rapid.IntRange(0, 9).Draw(t, "memory profile") == 9
	return r
}

// genLong draws runs of which one measure is far beyond the others.
func genLong(t *rapid.T) Run {
	r := genRun(t, false)
	g := &r.Config
	measure := rapid.SampledFrom([]string{"epochs", "records", "batch", "layers"}).Draw(t, "measure")
	switch measure {
	case "epochs":
		g.Epoch = rapid.IntRange(4, 20).Draw(t, "many epochs")
	case "records":
		g.TotRecords = rapid.IntRange(100, 3000).Draw(t, "many records")
		g.Stepsize = rapid.IntRange(20, 700).Draw(t, "large step")
		g.Rehash, g.Rebuild = rapid.IntRange(1, 3000).Draw(t, "large rehash"), rapid.IntRange(1, 3000).Draw(t, "large rebuild")
		r.Train.Records = g.TotRecords + rapid.IntRange(-3, 3).Draw(t, "off")
	case "batch":
		g.BatchSize = rapid.IntRange(6, 150).Draw(t, "large batch")
		g.TotRecords = g.BatchSize * rapid.IntRange(1, 6).Draw(t, "batches")
		g.TotRecordsTest = g.BatchSize * rapid.IntRange(1, 6).Draw(t, "test batches")
		g.Rehash, g.Rebuild = rapid.IntRange(1, 600).Draw(t, "large rehash"), rapid.IntRange(1, 600).Draw(t, "large rebuild")
		r.Train.Records = g.TotRecords + rapid.IntRange(-3, 3).Draw(t, "off")
		r.Test.Records = g.TotRecordsTest + rapid.IntRange(-3, 3).Draw(t, "test off")
	case "layers":
		for i := rapid.IntRange(1, 5).Draw(t, "more layers"); i > 0; i-- {
			n := g.NumLayer
			g.NumLayer++
			g.SizesOfLayers = append([]int{rapid.IntRange(2, 9).Draw(t, "size")}, g.SizesOfLayers...)
			g.K, g.L, g.RangePow = append([]int{1}, g.K...), append([]int{2}, g.L...), append([]int{3}, g.RangePow...)
			sp := append([]float64{1}, g.Sparsity[:n]...)
			g.Sparsity = append(append(sp, 1), g.Sparsity[n:]...)
		}
	}
	r.Train.Records, r.Test.Records = max(0, r.Train.Records), max(0, r.Test.Records)
	return r
}

func (r Run) classes() int { return r.Config.SizesOfLayers[r.Config.NumLayer-1] }

func (r Run) examples(d Data) []dataset.Example {
	m := vt.Mix(d.Seed)
	used := min(r.classes(), 8)
	var out []dataset.Example
	for i := 0; i < d.Records; i++ {
		k := m.Intn(used)
		e := dataset.Example{}
		switch {
		case d.Clean || m.Intn(4) > 0:
			e.Labels = []int{k}
		case m.Intn(3) > 0:
			e.Labels = []int{k, m.Intn(r.classes()), m.Intn(r.classes())}
		}
		for j := 0; j < r.Config.InputDim; j++ {
			v := math.Round(m.Norm()*100) / 400
			if j%used == k {
				v++
			}
			if j%used == k || m.Intn(3) == 0 || (len(e.Features) == 0 && j == r.Config.InputDim-1) {
				e.Features = append(e.Features, index_value.Pair{Index: j, Value: v})
			}
		}
		out = append(out, e)
	}
	return out
}

// text renders a data file as lines without line ends.
func (r Run) lines(d Data) []string {
	out := []string{fmt.Sprintf("%d %d %d", max(1, d.Records), r.Config.InputDim, r.classes())}
	for _, e := range r.examples(d) {
		var b strings.Builder
		for i, l := range e.Labels {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.Itoa(l))
		}
		for _, p := range e.Features {
			fmt.Fprintf(&b, " %d:%v", p.Index, p.Value)
		}
		out = append(out, b.String())
	}
	return out
}

func (d Data) join(lines []string) string {
	nl := "\n"
	if d.CRLF {
		nl = "\r\n"
	}
	s := strings.Join(lines, nl)
	if !d.NoEnd {
		s += nl
	}
	return s
}

// ---------------------------------------------------------------- the reference program

// sim follows the schedule with the library itself.
type sim struct {
	r           Run
	net         *network.Network
	train, test []dataset.Example
	out         []string
	// the index of the first bad record of each file (-1: none); -2: the
	// file cannot be opened or its header is bad
	badTrain, badTest int
	failed            string // which file stopped the program
	exact             bool   // accuracies can be predicted
	trained, measured bool
	samples           []string // what the library reports at a re-hash
}

type stop struct{}

func (s *sim) say(format string, args ...any) { s.out = append(s.out, fmt.Sprintf(format, args...)) }

func (s *sim) read(file string, xs []dataset.Example, bad, from, n int) []dataset.Example {
	to := min(from+n, len(xs))
	from = min(from, to)
	if bad >= from && bad < to {
		s.failed = file
		panic(stop{})
	}
	return append([]dataset.Example(nil), xs[from:to]...)
}

func (s *sim) open(file string, bad int) {
	if bad == -2 {
		s.failed = file
		panic(stop{})
	}
}

func (s *sim) evaluate(batches, iter int) {
	s.open("test", s.badTest)
	correct, records := 0, 0
	rate := func() string {
		if !s.exact || records == 0 {
			return "?"
		}
		return strconv.FormatFloat(float64(correct)/float64(records), 'g', -1, 64)
	}
	for i := 0; i < batches; i++ {
		b := s.read("test", s.test, s.badTest, i*s.r.Config.BatchSize, s.r.Config.BatchSize)
		f, l := 0, 0
		for _, e := range b {
			f += len(e.Features)
			l += len(e.Labels)
		}
		s.say("records %d %d %d", len(b), f, l)
		var k int
		k, s.net = s.net.PredictClass(0, b)
		correct += k
		records += len(b)
		s.say("iter %d %s", i, rate())
	}
	s.measured = s.measured || (correct > 0 && correct < records)
	s.say("overall %s", rate())
	s.say("total %d %s", iter, rate())
}

func period(records, batch int) int { return max(1, records/batch) }

const sampleLine = "Avg sample size"

func sampleLines(text string) (out []string) {
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, sampleLine) {
			out = append(out, l)
		}
	}
	return
}

// run follows the schedule, keeping what the library prints.
func (s *sim) run() {
	f, err := os.CreateTemp("", "stdout")
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = f
	defer func() {
		os.Stdout = old
		f.Close()
		b, err := os.ReadFile(f.Name())
		os.Remove(f.Name())
		if err != nil {
			panic(err)
		}
		s.samples = sampleLines(string(b))
	}()
	s.follow()
}

func (s *sim) follow() {
	g := s.r.Config
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); !ok {
				panic(r)
			}
		}
	}()
	configuration.Global = &g
	vt.SeedRNG(1)
	types := make([]node.NodeType, g.NumLayer)
	for i := range types {
		types[i] = node.ReLU
	}
	types[g.NumLayer-1] = node.Softmax
	s.net = network.New(0, g.NumLayer, g.SizesOfLayers, types, g.BatchSize, g.LearningRate, g.InputDim, g.K, g.L, g.RangePow, g.Sparsity)
	batches := g.TotRecords / g.BatchSize
	hashing := g.LayerMode == 1 || g.LayerMode == 4
	rehash, rebuild := period(g.Rehash, g.BatchSize), period(g.Rebuild, g.BatchSize)
	for e := 0; e < g.Epoch; e++ {
		s.say("epoch %d", e)
		s.open("train", s.badTrain)
		for i := 0; i < batches; i++ {
			it := e*batches + i
			if i > 0 && it%g.Stepsize == 0 {
				s.evaluate(20, it)
			}
			b := s.read("train", s.train, s.badTrain, i*g.BatchSize, g.BatchSize)
			_, s.net = s.net.ProcessInput(0, b, it, hashing && it%rehash == rehash-1, hashing && it%rebuild == rebuild-1)
			s.trained = s.trained || len(b) > 0
		}
		if e == g.Epoch-1 {
			s.evaluate(g.TotRecordsTest/g.BatchSize, (e+1)*batches)
		} else {
			s.evaluate(50, (e+1)*batches)
		}
	}
}

// ---------------------------------------------------------------- the real program

type result struct {
	code   int
	signal string
	events []string
	other  []string // other lines of the standard error
	stderr string
	stdout string
	cpu    time.Duration
	wall   time.Duration
	late   bool
}

var totalLine = regexp.MustCompile(`^(\d+) (\S+) (\S+)$`)

var patterns = []struct {
	re   *regexp.Regexp
	form string
}{
	{regexp.MustCompile(`^Epoch (\d+)$`), "epoch $1"},
	{regexp.MustCompile(`^(\d+) records, with (\d+) features and (\d+) labels$`), "records $1 $2 $3"},
	{regexp.MustCompile(`^Iter (\d+) - (\S+) correct$`), "iter $1 $2"},
	{regexp.MustCompile(`^Over all: (\S+) correct$`), "overall $1"},
	{totalLine, "total $1 $3"},
}

// execute runs the program in dir.
func execute(dir string, pinned bool, args ...string) result {
	exe := os.Getenv("VERIF_GOSLIDE")
	if exe == "" {
		panic("VERIF_GOSLIDE is not set")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", `ulimit -c 0; ulimit -t 20; exec "$0" "$@"`, exe}, args...)...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "TMPDIR=" + dir, "GOMAXPROCS=2", "GOTRACEBACK=single"}
	if pinned {
		cmd.Env = append(cmd.Env, "GODEBUG=randseednop=1,randautoseed=0")
	}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	begin := time.Now()
	err := cmd.Run()
	r := result{stderr: se.String(), stdout: so.String(), wall: time.Since(begin), late: ctx.Err() != nil}
	if ps := cmd.ProcessState; ps != nil {
		r.code = ps.ExitCode()
		r.cpu = ps.UserTime() + ps.SystemTime()
		if r.code < 0 {
			r.signal = ps.String()
		}
	} else {
		panic(err)
	}
lines:
	for _, l := range strings.Split(r.stderr, "\n") {
		for _, p := range patterns {
			if m := p.re.FindStringSubmatchIndex(l); m != nil {
				r.events = append(r.events, string(p.re.ExpandString(nil, p.form, l, m)))
				continue lines
			}
		}
		if l != "" && !strings.HasPrefix(l, "Network Initialization takes") {
			r.other = append(r.other, l)
		}
	}
	return r
}

func (r result) brief() string {
	s := r.stderr
	if len(s) > 900 {
		s = s[:450] + "\n...\n" + s[len(s)-450:]
	}
	return s
}

// judge checks what every run must satisfy; it reports whether the run ended by itself.
func judge(c *vt.Ctx, r result) {
	if r.late && r.cpu < 10*time.Second {
		c.Skip() // the machine is too busy
	}
	if r.signal != "" {
		c.Failf("the program did not end by itself (%s after %v of CPU time)\n%s", r.signal, r.cpu, r.brief())
	}
	if strings.Contains(r.stderr, "panic:") || strings.Contains(r.stderr, "goroutine ") || strings.Contains(r.stderr, "fatal error:") {
		c.Failf("the program panics:\n%s", r.brief())
	}
}

// sameEvents compares the printed schedule with the reference's.
func sameEvents(c *vt.Ctx, r result, want []string) {
	for i := 0; i < len(want) || i < len(r.events); i++ {
		w, g := "nothing", "nothing"
		if i < len(want) {
			w = want[i]
		}
		if i < len(r.events) {
			g = r.events[i]
		}
		if w == g {
			continue
		}
		wf, gf := strings.Fields(w), strings.Fields(g)
		ok := len(wf) == len(gf)
		for k := 0; ok && k < len(wf); k++ {
			ok = wf[k] == gf[k] || wf[k] == "?"
			if !ok && k == len(wf)-1 && wf[0] != "epoch" && wf[0] != "records" {
				a, err1 := strconv.ParseFloat(wf[k], 64)
				b, err2 := strconv.ParseFloat(gf[k], 64)
				ok = err1 == nil && err2 == nil && a == b
			}
		}
		if !ok {
			c.Failf("line %d of the report is %q, want %q\n%s", i+1, g, w, r.brief())
		}
	}
	// whatever the random numbers, rates are fractions of the records so far
	records, last := 0, 0.0
	for _, e := range r.events {
		f := strings.Fields(e)
		switch f[0] {
		case "records":
			n, _ := strconv.Atoi(f[1])
			records += n
		case "iter", "overall", "total":
			x, err := strconv.ParseFloat(f[len(f)-1], 64)
			if records > 0 {
				k := x * float64(records)
				if err != nil || x < 0 || x > 1 || math.Abs(k-math.Round(k)) > 1e-6 || k < last-1e-6 {
					c.Failf("%q is not a count of correct records of %d, %v of them before\n%s", e, records, last, r.brief())
				}
				last = k
			}
			if f[0] == "total" {
				records, last = 0, 0
			}
		}
	}
}

// sameTimes judges the training times reported with the totals.
func sameTimes(c *vt.Ctx, r result, trained bool) {
	var last time.Duration
	for _, l := range strings.Split(r.stderr, "\n") {
		m := totalLine.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		d, err := time.ParseDuration(m[2])
		if err != nil {
			c.Label("training time in another notation")
			return
		}
		if d < last || d > r.wall {
			c.Failf("%q reports a training time of %v after one of %v, in a run of %v", l, d, last, r.wall)
		}
		last = d
	}
	if last == 0 && trained {
		c.Failf("the program trained, in no time\n%s", r.brief())
	}
}

func (r Run) configFile(extra map[string]any) []byte {
	b, err := json.Marshal(r.Config)
	if err != nil {
		panic(err)
	}
	m := map[string]any{}
	if err := json.Unmarshal(b, &m); err != nil {
		panic(err)
	}
	def, _ := json.Marshal(configuration.Default())
	dm := map[string]any{}
	_ = json.Unmarshal(def, &dm)
	for k, v := range extra {
		m[k] = v
	}
	if r.Compact { // leave out what is the default anyway
		for k, v := range dm {
			if fmt.Sprint(m[k]) == fmt.Sprint(v) {
				delete(m, k)
			}
		}
		b, _ = json.Marshal(m)
		return b
	}
	b, _ = json.MarshalIndent(m, "", "  ")
	return b
}

func scratch() (string, func()) {
	dir, err := os.MkdirTemp("", "run")
	if err != nil {
		panic(err)
	}
	return dir, func() { os.RemoveAll(dir) }
}

func write(path string, b []byte) {
	if err := os.WriteFile(path, b, 0o644); err != nil {
		panic(err)
	}
}

// repeatable tells whether the library's random numbers follow their seed.
var repeatable = sync.OnceValue(func() bool {
	keep := configuration.Global
	defer func() { configuration.Global = keep }()
	g := configuration.Default()
	for _, g.HashFunction = range []configuration.HashFunctionType{1, 2, 4} {
		configuration.Global = g
		var ws [2][]float64
		for i := range ws {
			vt.SeedRNG(1)
			n := network.New(0, 1, []int{9}, []node.NodeType{node.Softmax}, 1, 0.1, 9, []int{1}, []int{4}, []int{3}, []float64{0.5, 0.5})
			for _, l := range peek.Layers(n) {
				for _, nd := range l.GetAllNodes() {
					ws[i] = append(append(ws[i], nd.Weights()...), nd.Bias())
				}
			}
		}
		for k := range ws[0] {
			if ws[0][k] != ws[1][k] {
				return false
			}
		}
	}
	return true
})

func (r Run) exact() bool {
	if !r.Pinned || !repeatable() {
		return false
	}
	if r.Config.HashFunction != minhash {
		return true
	}
	for _, s := range r.Config.Sparsity {
		if s != 1 {
			return false
		}
	}
	return true
}

// name sets the names of the data files in dir.
func (r *Run) name(dir string) {
	if r.Relative {
		dir = "."
	}
	r.Config.TrainData, r.Config.TestData = filepath.Join(dir, "train.txt"), filepath.Join(dir, "test.txt")
}

// profile checks that a profile was written in full if it was asked for, and not otherwise.
func profile(c *vt.Ctx, path string, wanted bool) {
	f, err := os.Open(path)
	if err != nil {
		if wanted || !os.IsNotExist(err) {
			c.Failf("profile: %v", err)
		}
		return
	}
	defer f.Close()
	if !wanted {
		c.Failf("%s was written without being asked for", filepath.Base(path))
	}
	z, err := gzip.NewReader(f)
	if err == nil {
		var n int64
		if n, err = io.Copy(io.Discard, z); err == nil && n == 0 {
			err = io.ErrUnexpectedEOF
		}
	}
	if err != nil {
		c.Failf("%s is no complete profile: %v", filepath.Base(path), err)
	}
}

func runSchedule(c *vt.Ctx, r Run) {
	dir, remove := scratch()
	defer remove()
	write(filepath.Join(dir, "train.txt"), []byte(r.Train.join(r.lines(r.Train))))
	write(filepath.Join(dir, "test.txt"), []byte(r.Test.join(r.lines(r.Test))))
	r.name(dir)
	write(filepath.Join(dir, "config.json"), r.configFile(nil))
	got := execute(dir, r.Pinned, filepath.Join(dir, "config.json"))
	judge(c, got)
	s := &sim{r: r, train: r.examples(r.Train), test: r.examples(r.Test), badTrain: -1, badTest: -1, exact: r.exact()}
	s.run()
	if got.code != 0 {
		c.Failf("exit status %d\n%s", got.code, got.brief())
	}
	profile(c, filepath.Join(dir, "cpu.prof"), r.Config.CpuProfile)
	profile(c, filepath.Join(dir, "mem.prof"), r.Config.MemProfile)
	c.LabelIf(r.Config.CpuProfile || r.Config.MemProfile, "profiled")
	sameEvents(c, got, s.out)
	if g := r.Config; g.Epoch > 0 {
		sameTimes(c, got, g.TotRecords/g.BatchSize > 0)
	}
	lines := sampleLines(got.stdout)
	if len(lines) != len(s.samples) {
		c.Failf("%d re-hashes reported, want %d", len(lines), len(s.samples))
	}
	for i, l := range lines {
		if s.exact && l != s.samples[i] {
			c.Failf("re-hash %d is reported as %q, want %q", i, l, s.samples[i])
		}
	}
	c.LabelIf(len(lines) > 0, "re-hashed")
	c.LabelIf(s.exact, "accuracies predicted")
	c.LabelIf(s.exact && s.measured, "accuracies predicted, some wrong")
	c.LabelIf(r.Test.Records < 20*r.Config.BatchSize, "test file shorter than an evaluation")
	c.LabelIf(r.Train.Records < r.Config.TotRecords, "training file shorter than declared")
	c.LabelIf(r.Config.Rehash < r.Config.BatchSize || r.Config.Rebuild < r.Config.BatchSize, "period below a batch")
	c.Label(fmt.Sprintf("mode %d", r.Config.LayerMode))
	if s.trained && r.Test.Records > 0 && (s.measured || !s.exact) {
		c.NonTrivial()
	}
}

// ---------------------------------------------------------------- C22

type FaultCase struct {
	Run        Run
	Kind       string
	Where      int // record of the training file
	WhereTest  int // record of the test file
	Damage     int
	DamageTest int
	Junk       string
}

var kinds = []string{"train-line", "train-line", "train-line", "test-line", "test-line", "test-line", "both-lines", "train-header", "test-header",
	"train-missing", "test-missing", "train-directory", "test-directory", "arguments", "config-missing", "config-directory", "config-text", "config-cut", "config-type"}

func genFault(t *rapid.T) FaultCase {
	cs := FaultCase{Run: genRun(t, false), Kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
	if cs.Run.Config.Epoch == 0 && rapid.IntRange(0, 3).Draw(t, "noepoch") > 0 {
		cs.Run.Config.Epoch = 1
	}
	cs.Where = rapid.IntRange(0, 60).Draw(t, "where")
	cs.WhereTest = rapid.IntRange(0, 120).Draw(t, "wheretest")
	cs.Damage = rapid.IntRange(0, 1000).Draw(t, "damage")
	cs.DamageTest = rapid.IntRange(0, 1000).Draw(t, "damagetest")
	cs.Junk = rapid.StringN(0, 12, 24).Draw(t, "junk")
	return cs
}

// damage breaks one line.
func (r Run) damage(line string, how int) string {
	first, rest, _ := strings.Cut(line, " ")
	broken := []string{
		first,               // no features
		"",                  // empty
		first + "x " + rest, // label not a number
		",1 " + rest,        // missing label
		"-1 " + rest,        // negative label
		fmt.Sprintf("%d %s", r.classes(), rest),
		first + " " + rest + " 1",
		first + " " + rest + " 1:",
		first + " " + rest + " :1",
		first + " " + rest + " 1:2:3",
		first + " " + rest + " a:1",
		first + " " + rest + " 1:b",
		first + " " + rest + " -1:1",
		fmt.Sprintf("%s %s %d:1", first, rest, r.Config.InputDim),
		fmt.Sprintf("%s 99999999999999999999:1", first),
	}
	return broken[how%len(broken)]
}

var badHeaders = []string{"", "1 2", "a b c", "1 2 3 4", "1 -2 3", "1,2,3", "10 x 3"}

// firstError is what the scanner finds in a file.
func firstError(text string) (line int, err error) {
	s := xcrepo.NewScanner(strings.NewReader(text))
	for s.Scan() {
	}
	return s.LineNumber(), s.Err()
}

func mentions(text string, number int) bool {
	return regexp.MustCompile(`(^|\D)` + strconv.Itoa(number) + `(\D|$)`).MatchString(text)
}

func runFault(c *vt.Ctx, cs FaultCase) {
	r := cs.Run
	dir, remove := scratch()
	defer remove()
	trainPath, testPath := filepath.Join(dir, "train.txt"), filepath.Join(dir, "test.txt")
	r.name(dir)
	configPath := filepath.Join(dir, "config.json")
	config := r.configFile(nil)
	train, test := r.lines(r.Train), r.lines(r.Test)
	s := &sim{r: r, train: r.examples(r.Train), test: r.examples(r.Test), badTrain: -1, badTest: -1, exact: r.exact()}

	if cs.Kind == "train-line" || cs.Kind == "both-lines" {
		if len(s.train) == 0 {
			c.Skip()
		}
		s.badTrain = cs.Where % len(s.train)
		train[s.badTrain+1] = r.damage(train[s.badTrain+1], cs.Damage)
	}
	if cs.Kind == "test-line" || cs.Kind == "both-lines" {
		if len(s.test) == 0 {
			c.Skip()
		}
		s.badTest = cs.WhereTest % len(s.test)
		test[s.badTest+1] = r.damage(test[s.badTest+1], cs.DamageTest)
	}
	if cs.Kind == "train-header" {
		s.badTrain = -2
		train[0] = badHeaders[cs.Damage%len(badHeaders)]
	}
	if cs.Kind == "test-header" {
		s.badTest = -2
		test[0] = badHeaders[cs.DamageTest%len(badHeaders)]
	}
	trainText, testText := r.Train.join(train), r.Test.join(test)
	for _, f := range []struct {
		bad  int
		text string
	}{{s.badTrain, trainText}, {s.badTest, testText}} {
		if line, err := firstError(f.text); f.bad >= 0 && (err == nil || line != f.bad+2) {
			// an empty last line without a line end is no line at all
			c.Skip()
		}
	}
	args := []string{configPath}
	early := false // fails before anything is trained
	switch cs.Kind {
	case "train-missing", "train-directory":
		s.badTrain = -2
	case "test-missing", "test-directory":
		s.badTest = -2
	case "arguments":
		early = true
		args = [][]string{{}, {configPath, configPath}, {configPath, "-v", "x"}}[cs.Damage%3]
	case "config-missing":
		early = true
		args = []string{filepath.Join(dir, "absent.json")}
	case "config-directory":
		early = true
		args = []string{dir}
	case "config-text":
		early = true
		config = []byte(cs.Junk)
		if json.Valid(config) {
			config = []byte("{" + cs.Junk)
			if json.Valid(config) {
				c.Skip()
			}
		}
	case "config-cut":
		early = true
		config = config[:len(config)-1-cs.Damage%(len(config)-1)]
	case "config-type":
		early = true
		wrong := []struct {
			k string
			v any
		}{{"BatchSize", "5"}, {"BatchSize", 2.5}, {"UseAdam", 1}, {"K", 3}, {"SizesOfLayers", []string{"a"}}, {"TrainData", 7}, {"HashFunction", 300},
			{"LayerMode", -1000}, {"Sparsity", map[string]int{}}, {"LearningRate", "x"}, {"Epoch", 1e30}}[cs.Damage%11]
		config = r.configFile(map[string]any{wrong.k: wrong.v})
	}
	write(configPath, config)
	if cs.Kind == "train-directory" {
		os.Mkdir(trainPath, 0o755)
	} else if cs.Kind != "train-missing" {
		write(trainPath, []byte(trainText))
	}
	if cs.Kind == "test-directory" {
		os.Mkdir(testPath, 0o755)
	} else if cs.Kind != "test-missing" {
		write(testPath, []byte(testText))
	}

	got := execute(dir, r.Pinned, args...)
	judge(c, got)
	c.Label(cs.Kind)
	if early {
		if got.code == 0 {
			c.Failf("%s: exit status 0\n%s", cs.Kind, got.brief())
		}
		if len(got.other) == 0 {
			c.Failf("%s: no message", cs.Kind)
		}
		if len(got.events) > 0 {
			c.Failf("%s: the program starts to work:\n%s", cs.Kind, got.brief())
		}
		c.NonTrivial()
		return
	}
	s.run()
	sameEvents(c, got, s.out)
	if s.failed == "" {
		if got.code != 0 {
			c.Failf("%s: the defect is never read, yet the exit status is %d\n%s", cs.Kind, got.code, got.brief())
		}
		c.Label("never read")
		c.NonTrivial()
		return
	}
	if got.code == 0 {
		c.Failf("%s: exit status 0\n%s", cs.Kind, got.brief())
	}
	if len(got.other) == 0 {
		c.Failf("%s: no message\n%s", cs.Kind, got.brief())
	}
	text, bad := trainText, s.badTrain
	if s.failed == "test" {
		text, bad = testText, s.badTest
	}
	msg := strings.Join(got.other, "\n")
	line, err := firstError(text)
	if bad >= 0 && (!mentions(msg, line) || !strings.Contains(msg, err.Error())) {
		c.Failf("%s: the message does not name line %d and %q:\n%s", cs.Kind, line, err, got.brief())
	}
	if strings.HasSuffix(cs.Kind, "-header") && !strings.Contains(msg, err.Error()) {
		c.Failf("%s: the message does not say %q:\n%s", cs.Kind, err, got.brief())
	}
	// nothing may follow the message
	if i := strings.LastIndex(strings.TrimRight(got.stderr, "\n"), "\n"); len(s.out) > 0 && !strings.Contains(got.stderr[i+1:], got.other[len(got.other)-1]) {
		c.Failf("%s: the program goes on after the message:\n%s", cs.Kind, got.brief())
	}
	c.Label("stopped by " + s.failed)
	c.LabelIf(s.trained, "after some training")
	c.NonTrivial()
}

func main() {
	vt.Main(map[string][]vt.Part{
		"C21": {
			vt.Check[Run]{Name: "schedule", Quick: 2000, Thorough: 40000, Gen: func(t *rapid.T) Run { return genRun(t, false) }, Run: runSchedule},
			vt.Check[Run]{Name: "schedule-wide", Quick: 60, Thorough: 1500, Gen: func(t *rapid.T) Run { return genRun(t, true) }, Run: runSchedule},
			vt.Check[Run]{Name: "schedule-long", Quick: 160, Thorough: 3000, Gen: genLong, Run: runSchedule},
		},
		"C22": {vt.Check[FaultCase]{Name: "faults", Quick: 2000, Thorough: 40000, Gen: genFault, Run: runFault}},
	})
}
