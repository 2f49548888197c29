// Checks C01 and C02: the dataset scanner.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"

	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/dataset/xcrepo"
	"github.com/nlpodyssey/goslide/index_value"
	"pgregory.net/rapid"
	"verifharness/vt"
)

// ---------------------------------------------------------------- documents

type Lit = string

type Line struct {
	Labels []Lit
	Pairs  [][2]Lit
	// Bulk appends many generated pairs, BulkLabels many labels (long lines).
	Bulk, BulkLabels int
	CR               bool
}

type Doc struct {
	Header  [3]Lit
	HdrCR   bool
	Lines   []Line
	FinalNL bool
	Chunks  []int
	EOFData bool
	Peeks   int
	Copies  int // further copies of all lines
}

func intLit(t *rapid.T, v int) Lit {
	s := strconv.Itoa(v)
	switch rapid.IntRange(0, 11).Draw(t, "intform") {
	case 0:
		return "+" + s
	case 1:
		return "00" + s
	}
	return s
}

func smallOrBig(t *rapid.T, lo, hi int, label string) int {
	if hi <= lo {
		return lo
	}
	switch rapid.IntRange(0, 3).Draw(t, label+"kind") {
	case 0:
		return lo
	case 1:
		return hi
	default:
		return rapid.IntRange(lo, hi).Draw(t, label)
	}
}

var floatLits = []Lit{"0", "1", "-1", "0.5", "-0", "+2.5", ".5", "5.", "1e3", "1E-3", "-2.25e+2",
	"1e308", "5e-324", "2.2250738585072014e-308", "0.1", "0.30000000000000004", "123456789.123456789",
	"1.7976931348623157e308", "16777217", "0.1000000014901161", "9007199254740993", "3.4028236e38", "1e-50", "0000.5", "3.14159265358979323846264338327950288"}

func floatLit(t *rapid.T) Lit {
	if rapid.Bool().Draw(t, "fixedlit") {
		return rapid.SampledFrom(floatLits).Draw(t, "lit")
	}
	v := rapid.Float64().Draw(t, "val")
	f := rapid.SampledFrom([]byte{'g', 'e', 'f'}).Draw(t, "fmt")
	if math.Abs(v) > 1e30 || (v != 0 && math.Abs(v) < 1e-30) {
		f = 'e'
	}
	return strconv.FormatFloat(v, f, -1, 64)
}

func genDoc(t *rapid.T, maxLines int, bulk bool) Doc {
	sizes := rapid.OneOf(rapid.IntRange(1, 5), rapid.IntRange(1, 2000), rapid.SampledFrom([]int{1, 670091, 1 << 31, math.MaxInt64}))
	var h [3]int
	h[0] = sizes.Draw(t, "points")
	h[1] = sizes.Draw(t, "features")
	h[2] = sizes.Draw(t, "labels")
	d := Doc{FinalNL: rapid.Bool().Draw(t, "finalnl"), HdrCR: rapid.IntRange(0, 3).Draw(t, "hdrcr") == 0,
		EOFData: rapid.Bool().Draw(t, "eofdata"), Peeks: rapid.IntRange(0, 2).Draw(t, "peeks")}
	for i := range h {
		d.Header[i] = intLit(t, h[i])
	}
	n := rapid.IntRange(0, maxLines).Draw(t, "lines")
	for i := 0; i < n; i++ {
		l := Line{CR: rapid.IntRange(0, 3).Draw(t, "cr") == 0}
		nl := rapid.SampledFrom([]int{0, 1, 1, 2, 3, 5}).Draw(t, "nlabels")
		for j := 0; j < nl; j++ {
			l.Labels = append(l.Labels, intLit(t, smallOrBig(t, 0, h[2]-1, "label")))
		}
		np := rapid.IntRange(1, 6).Draw(t, "npairs")
		for j := 0; j < np; j++ {
			l.Pairs = append(l.Pairs, [2]Lit{intLit(t, smallOrBig(t, 0, h[1]-1, "index")), floatLit(t)})
		}
		if bulk {
			switch rapid.IntRange(0, 30).Draw(t, "bulkkind") {
			case 0:
				l.Bulk = rapid.IntRange(3000, 40000).Draw(t, "bulk")
			case 1:
				l.BulkLabels = rapid.IntRange(9000, 60000).Draw(t, "bulklabels")
			case 2, 3, 4:
				l.Bulk = rapid.IntRange(100, 900).Draw(t, "bulk")
			}
		}
		d.Lines = append(d.Lines, l)
	}
	nc := rapid.IntRange(1, 4).Draw(t, "nchunks")
	for i := 0; i < nc; i++ {
		d.Chunks = append(d.Chunks, rapid.OneOf(rapid.IntRange(1, 9), rapid.IntRange(1, 5000), rapid.Just(1<<20)).Draw(t, "chunk"))
	}
	return d
}

// genVast draws documents of one line of many megabytes or of many lines.
func genVast(t *rapid.T) Doc {
	d := genDoc(t, 4, false)
	for len(d.Lines) < 2 {
		d.Lines = append(d.Lines, Line{Pairs: [][2]Lit{{"0", "1"}}})
	}
	if rapid.Bool().Draw(t, "manylines") {
		d.Copies = rapid.SampledFrom([]int{1000, 20000, 33000, 70000}).Draw(t, "copies")
	} else {
		n := rapid.SampledFrom([]int{50000, 110000, 220000, 440000, 900000, 3500000}).Draw(t, "bulk")
		l := &d.Lines[rapid.IntRange(0, len(d.Lines)-1).Draw(t, "bulkline")]
		if rapid.IntRange(0, 3).Draw(t, "bulklabels") == 0 {
			l.BulkLabels = n
		} else {
			l.Bulk = n
		}
	}
	for i := range d.Chunks {
		if d.Copies > 0 {
			d.Chunks[i] += rapid.SampledFrom([]int{0, 1000, 1 << 20}).Draw(t, "morechunk")
		} else {
			d.Chunks[i] += 1 << 20 // every read may search a whole line for its end
		}
	}
	return d
}

// refInt is an independent decimal parser: optional sign, digits, int64 range.
func refInt(s string) (int, bool) {
	neg := false
	i := 0
	if i < len(s) && (s[i] == '+' || s[i] == '-') {
		neg = s[i] == '-'
		i++
	}
	if i == len(s) {
		return 0, false
	}
	var v uint64
	for ; i < len(s); i++ {
		c := s[i]
		if c < '0' || c > '9' {
			return 0, false
		}
		if v > (1<<63)/10 {
			return 0, false
		}
		v = v*10 + uint64(c-'0')
		if v > 1<<63 {
			return 0, false
		}
	}
	if neg {
		return int(-v), true
	}
	if v > math.MaxInt64 {
		return 0, false
	}
	return int(v), true
}

// render produces the bytes and the expected records of a document.
func (d Doc) render() (data []byte, header [3]int, want []dataset.Example, longest int) {
	var b bytes.Buffer
	for i, h := range d.Header {
		header[i], _ = refInt(h)
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(h)
	}
	eol := func(cr, last bool) {
		if last && !d.FinalNL {
			return
		}
		if cr {
			b.WriteByte('\r')
		}
		b.WriteByte('\n')
	}
	eol(d.HdrCR, len(d.Lines) == 0)
	var lines []Line
	for i := 0; i <= d.Copies; i++ {
		lines = append(lines, d.Lines...)
	}
	for li, l := range lines {
		start := b.Len()
		ex := dataset.Example{Labels: []int{}}
		m := vt.Mix(li + 1)
		addL := func(lit string) {
			if len(ex.Labels) > 0 {
				b.WriteByte(',')
			}
			b.WriteString(lit)
			v, _ := refInt(lit)
			ex.Labels = append(ex.Labels, v)
		}
		for _, lit := range l.Labels {
			addL(lit)
		}
		for i := 0; i < l.BulkLabels; i++ {
			addL(strconv.Itoa(m.Intn(header[2])))
		}
		addP := func(idx, val string) {
			b.WriteByte(' ')
			b.WriteString(idx)
			b.WriteByte(':')
			b.WriteString(val)
			i, _ := refInt(idx)
			v, _ := strconv.ParseFloat(val, 64)
			ex.Features = append(ex.Features, index_value.Pair{Index: i, Value: v})
		}
		for _, p := range l.Pairs {
			addP(p[0], p[1])
		}
		for i := 0; i < l.Bulk; i++ {
			addP(strconv.Itoa(m.Intn(header[1])), strconv.FormatFloat(m.Norm(), 'g', -1, 64))
		}
		if n := b.Len() - start; n > longest {
			longest = n
		}
		eol(l.CR, li == len(lines)-1)
		want = append(want, ex)
	}
	return b.Bytes(), header, want, longest
}

type chunkReader struct {
	data    []byte
	chunks  []int
	i       int
	eofData bool
	failAt  int // -1: never
	err     error
	pos     int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	end := len(r.data)
	final := io.EOF
	if r.failAt >= 0 && r.failAt < end {
		end = r.failAt
	}
	if r.failAt >= 0 {
		final = r.err
	}
	if r.pos >= end {
		return 0, final
	}
	n := len(p)
	if len(r.chunks) > 0 {
		if c := r.chunks[r.i%len(r.chunks)]; c < n {
			n = c
		}
		r.i++
	}
	if n > end-r.pos {
		n = end - r.pos
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.pos == end && r.eofData {
		return n, final
	}
	return n, nil
}

func sameExample(a, b dataset.Example) string {
	if len(a.Labels) != len(b.Labels) {
		return fmt.Sprintf("%d labels, want %d", len(a.Labels), len(b.Labels))
	}
	for i := range a.Labels {
		if a.Labels[i] != b.Labels[i] {
			return fmt.Sprintf("label %d is %d, want %d", i, a.Labels[i], b.Labels[i])
		}
	}
	if len(a.Features) != len(b.Features) {
		return fmt.Sprintf("%d features, want %d", len(a.Features), len(b.Features))
	}
	for i := range a.Features {
		x, y := a.Features[i], b.Features[i]
		if x.Index != y.Index || (math.Float64bits(x.Value) != math.Float64bits(y.Value) && !(math.IsNaN(x.Value) && math.IsNaN(y.Value))) {
			return fmt.Sprintf("feature %d is %v, want %v", i, x, y)
		}
	}
	return ""
}

func runC01(c *vt.Ctx, d Doc) {
	data, header, want, longest := d.render()
	s := xcrepo.NewScanner(&chunkReader{data: data, chunks: d.Chunks, eofData: d.EOFData, failAt: -1})
	if err := s.Err(); err != nil {
		c.Failf("error after the header: %v", err)
	}
	checkHeader := func() {
		if s.TotalPoints() != header[0] || s.NumFeatures() != header[1] || s.NumLabels() != header[2] {
			c.Failf("header reads %d %d %d, want %v", s.TotalPoints(), s.NumFeatures(), s.NumLabels(), header)
		}
	}
	checkHeader()
	if s.LineNumber() != 1 {
		c.Failf("line number %d after the header, want 1", s.LineNumber())
	}
	var got []dataset.Example
	for s.Scan() {
		if len(got) == len(want) {
			c.Failf("more than the %d records of the document", len(want))
		}
		for i := 0; i < d.Peeks; i++ {
			if m := sameExample(s.Example(), want[len(got)]); m != "" {
				c.Failf("record %d (peek): %s", len(got), m)
			}
		}
		got = append(got, s.Example())
		if s.LineNumber() != len(got)+1 {
			c.Failf("line number %d at record %d", s.LineNumber(), len(got))
		}
		if err := s.Err(); err != nil && !d.EOFData {
			c.Failf("Scan returned true with error %v", err)
		}
	}
	if err := s.Err(); err != nil {
		c.Failf("error %v after %d of %d records (longest line %d bytes)", err, len(got), len(want), longest)
	}
	if len(got) != len(want) {
		c.Failf("%d records, want %d", len(got), len(want))
	}
	checkHeader()
	// All records are compared at the end: earlier ones must have stayed intact.
	for i := range got {
		if m := sameExample(got[i], want[i]); m != "" {
			c.Failf("record %d: %s", i, m)
		}
	}
	for i := 0; i < 2; i++ {
		if s.Scan() || s.Err() != nil || s.LineNumber() != len(want)+1 {
			c.Failf("scanner state changes after the end")
		}
	}
	small := false
	for _, ch := range d.Chunks {
		small = small || ch < len(data)
	}
	c.LabelIf(longest > 64<<10, "line over 64KiB")
	c.LabelIf(longest > 1<<20, "line over 1MiB")
	c.LabelIf(longest > 16<<20, "line over 16MiB")
	c.LabelIf(longest > 64<<20, "line over 64MiB")
	c.LabelIf(len(want) > 65536, "more than 65536 lines")
	c.LabelIf(longest > 4<<10 && longest <= 64<<10, "line over 4KiB")
	c.LabelIf(small, "document split over reads")
	c.LabelIf(!d.FinalNL, "no final newline")
	for _, l := range d.Lines {
		if len(l.Labels) == 0 {
			c.Label("record without labels")
			break
		}
	}
	if len(want) >= 2 && small {
		c.NonTrivial()
	}
}

// ---------------------------------------------------------------- corruption

type BadDoc struct {
	Data    []byte
	FailAt  int
	EOFData bool
	Chunks  []int
	Kind    string
	FailLib bool // the injected error is io.ErrUnexpectedEOF
	Lines   int  // so many valid lines come after the header
	Stretch int  // so many pairs come before the last line's own
	Labels  int  // so many labels come before the last line's own
}

// whole is the document with its repetitions.
func (b BadDoc) whole() BadDoc {
	if b.Lines == 0 && b.Stretch == 0 && b.Labels == 0 {
		return b
	}
	n := len(b.Data)
	var out []byte
	rest := b.Data
	if i := bytes.IndexByte(rest, '\n'); b.Lines > 0 && i >= 0 {
		out = append(append(out, rest[:i+1]...), bytes.Repeat([]byte("0 0:1.5\n"), b.Lines)...)
		rest = rest[i+1:]
	}
	if b.Labels > 0 {
		at := bytes.LastIndexByte(bytes.TrimRight(rest, "\r\n"), '\n') + 1
		out = append(append(out, rest[:at]...), bytes.Repeat([]byte("0,"), b.Labels)...)
		out = append(out, rest[at:]...)
		rest, out = out, nil
	}
	if b.Stretch > 0 {
		at := bytes.LastIndexByte(bytes.TrimRight(rest, "\r\n"), '\n') + 1
		if i := bytes.IndexByte(rest[at:], ' '); i >= 0 {
			out = append(append(out, rest[:at+i]...), bytes.Repeat([]byte(" 0:2.5"), b.Stretch)...)
			rest = rest[at+i:]
		}
	}
	b.Data = append(out, rest...)
	if b.FailAt >= 0 {
		b.FailAt += len(b.Data) - n
	}
	return b
}

const alphabet = "0123456789,,::  \t\r\n\n+-.eE_xXnNaAiIfF\x00\xff"

var tokens = []string{"0", "1", "2", "3", "-1", "99", "1.5", "1e999", "NaN", "Inf", "-0", "+1", "0x1p-2", "1_0",
	"9223372036854775807", "9223372036854775808", "-9223372036854775809", ",", ":", " ", "\t", "", "a", "0:1", "1:0.5", "2:-3", "0:", ":1", "1:2:3", "\r", "0,1", "1,", ",1", "0:1e5", "1:1e400", "é"}

func genBad(t *rapid.T) BadDoc {
	b := BadDoc{FailAt: -1, EOFData: rapid.Bool().Draw(t, "eofdata"), FailLib: rapid.Bool().Draw(t, "faillib")}
	switch rapid.IntRange(0, 9).Draw(t, "kind") {
	case 0: // raw bytes
		b.Kind = "raw"
		b.Data = rapid.SliceOfN(rapid.SampledFrom([]byte(alphabet)), 0, 80).Draw(t, "raw")
	case 1, 2, 3: // small header and token soup lines
		b.Kind = "soup"
		var sb strings.Builder
		if rapid.IntRange(0, 5).Draw(t, "badheader") == 0 {
			for i, n := 0, rapid.IntRange(0, 4).Draw(t, "htok"); i < n; i++ {
				if i > 0 {
					sb.WriteByte(' ')
				}
				sb.WriteString(rapid.SampledFrom(tokens).Draw(t, "ht"))
			}
		} else {
			sb.WriteString("3 3 3")
		}
		sb.WriteByte('\n')
		for i, n := 0, rapid.IntRange(0, 5).Draw(t, "nlines"); i < n; i++ {
			switch rapid.IntRange(0, 2).Draw(t, "linekind") {
			case 0:
				sb.WriteString(rapid.SampledFrom([]string{"0 1:2", "1,2 0:1 2:3", " 2:1", "2 0:0.5 1:-1e-3 2:7"}).Draw(t, "good"))
			case 1:
				for j, k := 0, rapid.IntRange(0, 6).Draw(t, "ntok"); j < k; j++ {
					sb.WriteString(rapid.SampledFrom(tokens).Draw(t, "tok"))
				}
			case 2:
				lab := rapid.SampledFrom(tokens).Draw(t, "lab")
				sb.WriteString(lab)
				for j, k := 0, rapid.IntRange(0, 3).Draw(t, "np"); j < k; j++ {
					sb.WriteByte(' ')
					sb.WriteString(rapid.SampledFrom(tokens).Draw(t, "i"))
					sb.WriteByte(':')
					sb.WriteString(rapid.SampledFrom(tokens).Draw(t, "v"))
				}
			}
			if i < n-1 || rapid.Bool().Draw(t, "nl") {
				sb.WriteByte('\n')
			}
		}
		b.Data = []byte(sb.String())
	default: // a valid document with corruptions
		b.Kind = "corrupt"
		d := genDoc(t, 6, false)
		for len(d.Lines) == 0 {
			d.Lines = append(d.Lines, Line{Pairs: [][2]Lit{{"0", "1"}}})
		}
		h := [3]int{}
		for i := range h {
			h[i], _ = refInt(d.Header[i])
		}
		n := rapid.IntRange(0, 2).Draw(t, "ncorrupt")
		for i := 0; i < n; i++ {
			l := &d.Lines[rapid.IntRange(0, len(d.Lines)-1).Draw(t, "cl")]
			switch rapid.IntRange(0, 8).Draw(t, "ck") {
			case 0:
				l.Labels = append(l.Labels, rapid.SampledFrom([]string{strconv.Itoa(h[2]), "-1", strconv.Itoa(h[2] - 1), "x", "", "1.0", " 1"}).Draw(t, "bl"))
			case 1:
				l.Pairs = append(l.Pairs, [2]Lit{rapid.SampledFrom([]string{strconv.Itoa(h[1]), "-1", strconv.Itoa(h[1] - 1), "x", "", "1.0"}).Draw(t, "bi"), "1"})
			case 2:
				l.Pairs = append(l.Pairs, [2]Lit{"0", rapid.SampledFrom([]string{"", "x", "1e999", "1:1", "1,0", "--1", "-1e400", "NaN", "Inf"}).Draw(t, "bv")})
			case 3:
				l.Pairs = nil
			case 4:
				l.Pairs, l.Labels = nil, nil
			case 5:
				d.Header[rapid.IntRange(0, 2).Draw(t, "hi")] = rapid.SampledFrom([]string{"0", "-1", "", "x", "1 1", "1.0", "9223372036854775808", "1\t"}).Draw(t, "bh")
			default: // byte-level edits are applied below
			}
		}
		data, _, _, _ := d.render()
		edits := rapid.IntRange(0, 2).Draw(t, "edits")
		for i := 0; i < edits && len(data) > 0; i++ {
			pos := rapid.IntRange(0, len(data)-1).Draw(t, "pos")
			ch := alphabet[rapid.IntRange(0, len(alphabet)-1).Draw(t, "ch")]
			switch rapid.IntRange(0, 3).Draw(t, "op") {
			case 0:
				data = append(data[:pos:pos], data[pos+1:]...)
			case 1:
				data = append(data[:pos:pos], append([]byte{ch}, data[pos:]...)...)
			case 2:
				data = append([]byte{}, data...)
				data[pos] = ch
			case 3:
				data = data[:pos]
			}
		}
		b.Data = data
	}
	if rapid.IntRange(0, 2).Draw(t, "fail") == 0 {
		b.FailAt = rapid.IntRange(0, len(b.Data)).Draw(t, "failat")
	}
	nc := rapid.IntRange(1, 3).Draw(t, "nchunks")
	for i := 0; i < nc; i++ {
		b.Chunks = append(b.Chunks, rapid.OneOf(rapid.IntRange(1, 9), rapid.IntRange(1, 200), rapid.Just(1<<20)).Draw(t, "chunk"))
	}
	return b
}

// genLate draws a short document whose last line has its violation, if any, at the end of the labels or pairs.
func genLate(t *rapid.T) BadDoc {
	b := BadDoc{FailAt: -1, EOFData: rapid.Bool().Draw(t, "eofdata"), Kind: "late", Chunks: []int{rapid.IntRange(1, 1<<20).Draw(t, "chunk")}}
	labels, pairs := "2", " 1:2 3:4.5"
	switch rapid.IntRange(0, 4).Draw(t, "where") {
	case 0:
	case 1, 2:
		labels = rapid.SampledFrom([]string{"3", "-1", "x", "", "1.0", "2,", "2,3", "9223372036854775808", "2,2x", "1 "}).Draw(t, "label")
	default:
		pairs += rapid.SampledFrom([]string{" 4:1", " -1:1", " x:1", " :1", " 1:", " 1:1:1", " 1:x", " 1:1e999", " 1", " ", " 1.0:1", " 9223372036854775808:1", " 3:1 4:1"}).Draw(t, "pair")
	}
	b.Data = []byte("5 4 3\n1 1:1\n" + labels + pairs)
	if rapid.Bool().Draw(t, "newline") {
		b.Data = append(b.Data, '\n')
	}
	if rapid.IntRange(0, 5).Draw(t, "fail") == 0 {
		b.FailAt = rapid.IntRange(12, len(b.Data)).Draw(t, "failat")
	}
	return b
}

// genVastBad draws a malformed document of many lines, or with a long last line.
func genVastBad(t *rapid.T) BadDoc {
	b := genBad(t)
	if rapid.IntRange(0, 3).Draw(t, "late") > 0 {
		b = genLate(t)
		b.Labels = rapid.SampledFrom([]int{0, 0, 20, 70, 130, 300, 1100, 5000, 70000}).Draw(t, "labels")
		if rapid.Bool().Draw(t, "stretched") {
			b.Stretch = rapid.SampledFrom([]int{20, 70, 130, 300, 700, 1100, 5000, 12000, 40000, 140000}).Draw(t, "stretch")
		}
		for i := range b.Chunks {
			b.Chunks[i] += 1 << 18
		}
		return b
	}
	if rapid.Bool().Draw(t, "manylines") {
		b.Lines = rapid.SampledFrom([]int{130, 300, 5000, 33000, 66000, 140000}).Draw(t, "lines")
	} else {
		b.Stretch = rapid.SampledFrom([]int{100, 700, 12000, 40000, 200000}).Draw(t, "stretch")
	}
	for i := range b.Chunks {
		b.Chunks[i] += 1 << 20
	}
	return b
}

type refResult struct {
	records []dataset.Example
	err     error // nil: end of data
	line    int   // offending line, or number of lines
}

// reference is an independent reading of the documented format.
func reference(lines []string) refResult {
	if len(lines) == 0 {
		return refResult{err: xcrepo.ErrMalformedHeader, line: 1}
	}
	var h []int
	for _, tok := range fields(lines[0], ' ') {
		v, ok := refInt(tok)
		if !ok || v <= 0 {
			return refResult{err: xcrepo.ErrMalformedHeader, line: 1}
		}
		h = append(h, v)
	}
	if len(h) != 3 {
		return refResult{err: xcrepo.ErrMalformedHeader, line: 1}
	}
	var res refResult
	for i, l := range lines[1:] {
		ex, err := refLine(l, h[1], h[2])
		if err != nil {
			res.err, res.line = err, i+2
			return res
		}
		res.records = append(res.records, ex)
	}
	res.line = len(lines)
	return res
}

func fields(s string, sep byte) []string {
	var out []string
	start := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == sep {
			out = append(out, s[start:i])
			start = i + 1
		}
	}
	return out
}

func refLine(l string, nf, nl int) (dataset.Example, error) {
	ex := dataset.Example{Labels: []int{}}
	toks := fields(l, ' ')
	if toks[0] != "" {
		for _, lt := range fields(toks[0], ',') {
			v, ok := refInt(lt)
			if !ok {
				return ex, xcrepo.ErrMalformedLabels
			}
			if v < 0 || v >= nl {
				return ex, xcrepo.ErrLabelOutOfBounds
			}
			ex.Labels = append(ex.Labels, v)
		}
	}
	if len(toks) == 1 {
		return ex, xcrepo.ErrMissingFeatures
	}
	for _, pt := range toks[1:] {
		kv := fields(pt, ':')
		if len(kv) != 2 {
			return ex, xcrepo.ErrMalformedFeatures
		}
		i, ok := refInt(kv[0])
		if !ok {
			return ex, xcrepo.ErrMalformedFeatures
		}
		if i < 0 || i >= nf {
			return ex, xcrepo.ErrFeatureIndexOutOfBounds
		}
		v, err := strconv.ParseFloat(kv[1], 64)
		if err != nil {
			return ex, xcrepo.ErrMalformedFeatures
		}
		ex.Features = append(ex.Features, index_value.Pair{Index: i, Value: v})
	}
	return ex, nil
}

// splitLines gives the complete lines and the unterminated rest.
func splitLines(data []byte) (lines []string, rest string) {
	strip := func(s string) string {
		if strings.HasSuffix(s, "\r") {
			return s[:len(s)-1]
		}
		return s
	}
	start := 0
	for i, ch := range data {
		if ch == '\n' {
			lines = append(lines, strip(string(data[start:i])))
			start = i + 1
		}
	}
	return lines, strip(string(data[start:]))
}

var errInjected = errors.New("injected read failure")

func runC02(c *vt.Ctx, b BadDoc) {
	b = b.whole()
	inj := errInjected
	if b.FailLib {
		inj = io.ErrUnexpectedEOF
	}
	s := xcrepo.NewScanner(&chunkReader{data: b.Data, chunks: b.Chunks, eofData: b.EOFData, failAt: b.FailAt, err: inj})
	var got []dataset.Example
	for s.Scan() {
		got = append(got, s.Example())
		if len(got) > len(b.Data)+2 {
			c.Failf("scanner does not stop")
		}
	}
	err, line := s.Err(), s.LineNumber()
	for i := 0; i < 3; i++ {
		if s.Scan() {
			c.Failf("Scan returned true after it had returned false")
		}
		if s.Err() != err || s.LineNumber() != line {
			c.Failf("error or line number changed after the end: %v line %d, then %v line %d", err, line, s.Err(), s.LineNumber())
		}
	}

	data := b.Data
	if b.FailAt >= 0 && b.FailAt < len(data) {
		data = data[:b.FailAt]
	}
	lines, rest := splitLines(data)
	// bufio's line rule: an unterminated, non-empty rest is a line at a clean end.
	hasRest := len(data) > 0 && data[len(data)-1] != '\n'
	if b.FailAt < 0 && hasRest {
		lines = append(lines, rest)
	}
	want := reference(lines)
	if len(got) > len(want.records) {
		c.Failf("%d records, but only %d lines are valid before the first violation", len(got), len(want.records))
	}
	for i := range got {
		if m := sameExample(got[i], want.records[i]); m != "" {
			c.Failf("record %d: %s", i, m)
		}
	}
	if b.FailAt >= 0 {
		// Either the failure or an earlier violation must be reported.
		violationSeen := want.err != nil && len(lines) > 0 && err == want.err
		if err != inj && !violationSeen {
			c.Failf("read failure after byte %d reported as %v (violation in the complete lines: %v)", b.FailAt, err, want.err)
		}
		if err == inj {
			c.LabelIf(len(got) > 0, "read failure after a record")
			c.LabelIf(hasRest && len(lines) > 1, "read failure inside a data line")
			if len(lines) > 0 {
				c.NonTrivial()
			}
			return
		}
	}
	if err != want.err {
		c.Failf("error %v, want %v at line %d", err, want.err, want.line)
	}
	if len(got) != len(want.records) {
		c.Failf("%d records before the end, want %d", len(got), len(want.records))
	}
	if line != want.line {
		c.Failf("line number %d, want %d (error %v)", line, want.line, err)
	}
	c.Label(fmt.Sprintf("%s: %v", b.Kind, want.err))
	if want.err != nil && want.line > 1 {
		c.NonTrivial()
	}
}

func main() {
	vt.Main(map[string][]vt.Part{
		"C01": {
			vt.Check[Doc]{Name: "documents", Quick: 40000, Thorough: 800000,
				Gen: func(t *rapid.T) Doc { return genDoc(t, 8, false) }, Run: runC01},
			vt.Check[Doc]{Name: "long-lines", Quick: 1600, Thorough: 30000,
				Gen: func(t *rapid.T) Doc { return genDoc(t, 8, true) }, Run: runC01},
			vt.Check[Doc]{Name: "vast", Quick: 48, Thorough: 2000, Gen: genVast, Run: runC01},
		},
		"C02": {
			vt.Check[BadDoc]{Name: "violations", Quick: 80000, Thorough: 2000000, Gen: genBad, Run: runC02},
			vt.Check[BadDoc]{Name: "vast", Quick: 640, Thorough: 16000, Gen: genVastBad, Run: runC02},
		},
	})
}
