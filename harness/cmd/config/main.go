// Check C03: configuration files.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/nlpodyssey/goslide/configuration"
	"pgregory.net/rapid"
	"verifharness/vt"
)

// field kinds of the documented configuration
var fields = map[string]string{
	"RangePow": "ints", "K": "ints", "L": "ints", "SizesOfLayers": "ints", "Sparsity": "floats",
	"BatchSize": "int", "Rehash": "int", "Rebuild": "int", "InputDim": "int", "TotRecords": "int",
	"TotRecordsTest": "int", "Epoch": "int", "Stepsize": "int", "NumLayer": "int", "LearningRate": "float",
	"TrainData": "string", "TestData": "string", "Weights": "string", "SavedWeights": "string", "LogFile": "string",
	"UseAdam": "bool", "LoadWeight": "bool", "CpuProfile": "bool", "MemProfile": "bool",
	"HashFunction": "int8", "LayerMode": "int8",
}

var names = func() []string {
	var out []string
	for n := range fields {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}()

type Field struct {
	Name string
	JSON string // the literal written to the file
}

type File struct {
	Fields  []Field
	Unknown []Field
	Order   uint64
	Space   int
	Pad     int    // so many blanks between the fields
	Damage  string // "" or how the file is spoilt
	At      int
}

func intLit(t *rapid.T) string {
	return strconv.Itoa(rapid.OneOf(rapid.IntRange(-3, 3000), rapid.Int()).Draw(t, "int"))
}

func floatLit(t *rapid.T) string {
	return rapid.SampledFrom([]string{"0", "1", "0.5", "0.005", "1e-4", "1E+2", "2.5e-300", "-1.25", "123456789.123456789", "1e0",
		"0.1", "0.30000000000000004", "5e-324", "1.7976931348623157e308", "-0"}).Draw(t, "float")
}

func strLit(t *rapid.T) string {
	s := rapid.OneOf(rapid.SampledFrom([]string{"", "train.txt", "/data/x y.txt", "tab\tnew\nline", "ünï/コ", "quote\"back\\slash", "</script>"}),
		rapid.StringN(0, 12, 40)).Draw(t, "string")
	s = strings.ToValidUTF8(s, "?")
	if rapid.Bool().Draw(t, "escape") {
		b, _ := json.Marshal(s)
		return string(b)
	}
	var sb strings.Builder
	sb.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			sb.WriteByte('\\')
			sb.WriteRune(r)
		case r < 0x20:
			fmt.Fprintf(&sb, "\\u%04X", r)
		default:
			sb.WriteRune(r)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func listLit(t *rapid.T, item func(*rapid.T) string) string {
	n := rapid.SampledFrom([]int{0, 1, 2, 3, 3, 4, 6, 20}).Draw(t, "len")
	var s []string
	for i := 0; i < n; i++ {
		s = append(s, item(t))
	}
	return "[" + strings.Join(s, rapid.SampledFrom([]string{",", ", ", " ,\n"}).Draw(t, "sep")) + "]"
}

func goodLit(t *rapid.T, kind string) string {
	switch kind {
	case "ints":
		return listLit(t, intLit)
	case "floats":
		return listLit(t, floatLit)
	case "int":
		return intLit(t)
	case "float":
		return floatLit(t)
	case "string":
		return strLit(t)
	case "bool":
		return rapid.SampledFrom([]string{"true", "false"}).Draw(t, "bool")
	case "int8":
		return strconv.Itoa(rapid.OneOf(rapid.IntRange(1, 4), rapid.IntRange(-128, 127)).Draw(t, "int8"))
	}
	panic(kind)
}

// badLit is a JSON value of a wrong type or range.
func badLit(t *rapid.T, kind string) string {
	m := map[string][]string{
		"ints":   {`"1"`, `5`, `true`, `{}`, `[1,"2"]`, `[1.5]`, `[[1]]`, `[99999999999999999999]`, `{"0":1}`},
		"floats": {`"1"`, `0.5`, `false`, `{}`, `[1,"2"]`, `[1e999]`, `[[0.1]]`, `[true]`},
		"int":    {`"5"`, `1.5`, `[5]`, `{}`, `true`, `99999999999999999999`, `-9223372036854775809`},
		"float":  {`"0.5"`, `[0.5]`, `{}`, `false`, `1e999`, `-1e999`},
		"string": {`5`, `true`, `["a"]`, `{}`},
		"bool":   {`1`, `0`, `"true"`, `[true]`, `{}`},
		"int8":   {`128`, `-129`, `300`, `1000000`, `"1"`, `1.5`, `[1]`, `true`, `{}`},
	}
	return rapid.SampledFrom(m[kind]).Draw(t, "bad")
}

func genFile(t *rapid.T) File {
	f := File{Order: rapid.Uint64Range(0, 1<<30).Draw(t, "order"), Space: rapid.IntRange(0, 4).Draw(t, "space")}
	var chosen []string
	switch rapid.IntRange(0, 3).Draw(t, "howmany") {
	case 0:
		chosen = names
	case 1:
		chosen = []string{rapid.SampledFrom(names).Draw(t, "one")}
	default:
		mask := rapid.Uint64().Draw(t, "mask")
		for i, n := range names {
			if mask>>i&1 == 1 {
				chosen = append(chosen, n)
			}
		}
	}
	if rapid.IntRange(0, 59).Draw(t, "padded") == 0 {
		f.Pad = rapid.SampledFrom([]int{500, 4080, 5000, 70000, 300000}).Draw(t, "pad")
	}
	for _, n := range chosen {
		f.Fields = append(f.Fields, Field{n, goodLit(t, fields[n])})
	}
	if rapid.IntRange(0, 3).Draw(t, "unknown") == 0 {
		f.Unknown = append(f.Unknown, Field{rapid.SampledFrom([]string{"Comment", "_", "", "Seed", "RangePows", "Batch", "K2"}).Draw(t, "uname"),
			rapid.SampledFrom([]string{`1`, `"x"`, `null`, `[1,[2,{"K":[9]}]]`, `{"BatchSize":7,"K":[1]}`, `true`, `1e999`}).Draw(t, "uval")})
	}
	return f
}

// junk is what JSON does not allow around a value.
var junk = []string{"\x00", "\x00\x00\x00", "\v", "\f", "\u00a0", "// x\n", "/* x */", "#\n", ";", "\xff\xfe", "\ufeff", "\x1a", "null", "0", "]", "\\"}

// noJSON are literals of no JSON value.
var noJSON = map[string][]string{
	"ints":   {`[1,]`, `[,1]`, `[1 2]`, `[1`, `[01]`, `(1)`, `[1;2]`, `[+1]`, `1,2`, `[1,,2]`},
	"floats": {`[1.,2]`, `[.5]`, `[0.5,]`, `[NaN]`, `[Infinity]`, `[1e]`, `[0.5 0.5]`, `[-]`, `[0x1p-1]`},
	"int":    {`05`, `+5`, `5.`, `0x10`, `1_000`, `5;`, `five`, ``, `--5`, `5e`, "'5'"},
	"float":  {`.5`, `1.`, `NaN`, `inf`, `Infinity`, `1e`, `0,5`, `+0.5`, `1d`, `0x1p-2`, ``},
	"string": {`'a'`, `"a`, `a`, "\"a\nb\"", `"\x41"`, `"\u12"`, "\"\x01\"", `"a""b"`, "`a`"},
	"bool":   {`True`, `FALSE`, `yes`, `tru`, `truee`, `on`, ``},
	"int8":   {`04`, `+4`, `4.`, `0b1`, `4;`, ``, `- 4`},
}

func genBadFile(t *rapid.T) File {
	f := genFile(t)
	f.Damage = rapid.SampledFrom([]string{"truncate", "truncate", "type", "type", "type", "missing", "directory", "empty", "top", "trailing", "comma",
		"quote", "utf8bom", "before", "after", "literal", "literal"}).Draw(t, "damage")
	f.At = rapid.IntRange(0, 1<<20).Draw(t, "at")
	if f.Damage == "type" || f.Damage == "literal" {
		n := rapid.SampledFrom(names).Draw(t, "badname")
		kept := f.Fields[:0:0]
		for _, x := range f.Fields {
			if x.Name != n {
				kept = append(kept, x)
			}
		}
		bad := badLit(t, fields[n])
		if f.Damage == "literal" { // no JSON at all
			bad = rapid.SampledFrom(noJSON[fields[n]]).Draw(t, "nojson")
		}
		f.Fields = append(kept, Field{n, bad})
	}
	return f
}

func (f File) text() string {
	m := vt.Mix(f.Order)
	all := append(append([]Field(nil), f.Fields...), f.Unknown...)
	var parts []string
	sp := func() string {
		return []string{"", "", " ", "\n  ", "\t\r\n"}[m.Intn(f.Space+1)]
	}
	for _, i := range m.Perm(len(all)) {
		name, _ := json.Marshal(all[i].Name)
		parts = append(parts, sp()+string(name)+sp()+":"+sp()+all[i].JSON+sp())
	}
	body := sp() + "{" + strings.Join(parts, ","+strings.Repeat(" ", f.Pad)) + sp() + "}"
	switch f.Damage {
	case "":
		return body + sp()
	case "truncate":
		return body[:f.At%len(body)]
	case "empty":
		return ""
	case "top":
		return []string{"[]", "5", `"x"`, "[" + body + "]", "true"}[f.At%5]
	case "trailing":
		return body + []string{"}", "{}", "x", ",", body}[f.At%5]
	case "comma":
		return strings.TrimSuffix(strings.TrimRight(body, " \t\r\n"), "}") + ",}"
	case "quote":
		return "{BatchSize: 5}"
	case "utf8bom":
		return "\ufeff" + body
	case "before":
		return junk[f.At%len(junk)] + body
	case "after":
		return body + junk[f.At%len(junk)]
	}
	return body
}

func (f File) write(dir string, i int) string {
	path := filepath.Join(dir, fmt.Sprintf("c%d.json", i))
	os.RemoveAll(path)
	switch f.Damage {
	case "missing":
		return path
	case "directory":
		os.Mkdir(path, 0o755)
		return path
	}
	if err := os.WriteFile(path, []byte(f.text()), 0o644); err != nil {
		panic(err)
	}
	return path
}

// expect applies the fields to a copy of the defaults.
func (f File) expect(def configuration.Configuration) configuration.Configuration {
	out := clone(def)
	v := reflect.ValueOf(&out).Elem()
	for _, fl := range f.Fields {
		dst := v.FieldByName(fl.Name)
		switch fields[fl.Name] {
		case "ints":
			var s []string
			splitList(fl.JSON, &s)
			l := make([]int, len(s))
			for i := range s {
				l[i], _ = strconv.Atoi(s[i])
			}
			dst.Set(reflect.ValueOf(l))
		case "floats":
			var s []string
			splitList(fl.JSON, &s)
			l := make([]float64, len(s))
			for i := range s {
				l[i], _ = strconv.ParseFloat(s[i], 64)
			}
			dst.Set(reflect.ValueOf(l))
		case "int", "int8":
			n, _ := strconv.ParseInt(fl.JSON, 10, 64)
			dst.SetInt(n)
		case "float":
			x, _ := strconv.ParseFloat(fl.JSON, 64)
			dst.SetFloat(x)
		case "bool":
			dst.SetBool(fl.JSON == "true")
		case "string":
			var s string
			if err := json.Unmarshal([]byte(fl.JSON), &s); err != nil {
				panic(err)
			}
			dst.SetString(s)
		}
	}
	return out
}

func splitList(lit string, out *[]string) {
	lit = strings.Trim(lit, "[]")
	if strings.TrimSpace(lit) == "" {
		return
	}
	for _, s := range strings.Split(lit, ",") {
		*out = append(*out, strings.TrimSpace(s))
	}
}

func clone(c configuration.Configuration) configuration.Configuration {
	v := reflect.ValueOf(&c).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Kind() == reflect.Slice && f.CanSet() {
			n := reflect.MakeSlice(f.Type(), f.Len(), f.Len())
			reflect.Copy(n, f)
			f.Set(n)
		}
	}
	return c
}

func diff(a, b configuration.Configuration) string {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	for i := 0; i < va.NumField(); i++ {
		if !va.Type().Field(i).IsExported() {
			continue
		}
		x, y := va.Field(i), vb.Field(i)
		if x.Kind() == reflect.Slice && x.Len() == 0 && y.Len() == 0 {
			continue
		}
		if !reflect.DeepEqual(x.Interface(), y.Interface()) {
			return fmt.Sprintf("%s is %v, want %v", va.Type().Field(i).Name, x.Interface(), y.Interface())
		}
	}
	return ""
}

type Op struct {
	Kind string // load, default, set, append, global, rewrite (File gets the contents of file On)
	File int
	On   int // which live configuration
	Name string
	Val  int
}

type Case struct {
	Files []File
	Ops   []Op
}

func gen(t *rapid.T) Case {
	var cs Case
	for i := rapid.IntRange(1, 3).Draw(t, "files"); i > 0; i-- {
		if rapid.IntRange(0, 2).Draw(t, "badfile") == 0 {
			cs.Files = append(cs.Files, genBadFile(t))
		} else {
			cs.Files = append(cs.Files, genFile(t))
		}
	}
	for i := range cs.Files {
		cs.Ops = append(cs.Ops, Op{Kind: "load", File: i})
	}
	for i := rapid.IntRange(0, 8).Draw(t, "ops"); i > 0; i-- {
		cs.Ops = append(cs.Ops, Op{
			Kind: rapid.SampledFrom([]string{"load", "load", "default", "set", "set", "append", "global", "rewrite"}).Draw(t, "kind"),
			File: rapid.IntRange(0, len(cs.Files)-1).Draw(t, "file"),
			On:   rapid.IntRange(0, 20).Draw(t, "on"),
			Name: rapid.SampledFrom(names).Draw(t, "name"),
			Val:  rapid.IntRange(1, 100).Draw(t, "val")})
	}
	return cs
}

// pristine holds the defaults.
var pristine = configuration.Configuration{
	BatchSize: 1000, Rehash: 1000, Rebuild: 1000, InputDim: 784, TotRecords: 60000, TotRecordsTest: 10000,
	LearningRate: 0.0001, Epoch: 5, Stepsize: 20, NumLayer: 3, UseAdam: true,
	HashFunction: configuration.DensifiedWtaHashFunction, LayerMode: configuration.LayerMode4,
}

func run(c *vt.Ctx, cs Case) {
	dir, err := os.MkdirTemp("", "cfg")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	paths := make([]string, len(cs.Files))
	files := append([]File(nil), cs.Files...) // what each path holds
	for i, f := range cs.Files {
		paths[i] = f.write(dir, i)
	}
	type live struct {
		c     *configuration.Configuration
		model configuration.Configuration
	}
	configuration.Global = configuration.Default()
	lives := []live{{configuration.Global, clone(pristine)}}
	for i, op := range cs.Ops {
		when := fmt.Sprintf("op %d (%s)", i, op.Kind)
		on := lives[op.On%len(lives)]
		global := configuration.Global
		switch op.Kind {
		case "load":
			f := files[op.File]
			got, err := configuration.FromJsonFile(paths[op.File])
			if f.Damage != "" {
				if err == nil || got != nil {
					c.Failf("%s: a file spoilt by %q loads: error %v, configuration %v", when, f.Damage, err, got)
				}
				c.Label("rejected: " + f.Damage)
				break
			}
			if err != nil || got == nil {
				c.Failf("%s: a valid file fails to load: %v", when, err)
			}
			want := f.expect(pristine)
			if d := diff(*got, want); d != "" {
				c.Failf("%s: %s", when, d)
			}
			lives = append(lives, live{got, want})
			c.LabelIf(f.Pad > 4096, "file of many blocks")
			if len(f.Fields) > 0 && len(f.Fields) < len(names) {
				c.NonTrivial()
			}
		case "rewrite":
			files[op.File] = cs.Files[op.On%len(cs.Files)]
			files[op.File].write(dir, op.File)
			c.Label("file rewritten")
		case "default":
			lives = append(lives, live{configuration.Default(), clone(pristine)})
		case "set", "append":
			model := on.model
			for k, x := range []*configuration.Configuration{on.c, &model} {
				v := reflect.ValueOf(x).Elem().FieldByName(op.Name)
				switch v.Kind() {
				case reflect.Slice:
					if v.Len() > 0 && op.Kind == "set" {
						e := v.Index(op.Val % v.Len())
						if e.Kind() == reflect.Int {
							e.SetInt(int64(op.Val))
						} else {
							e.SetFloat(float64(op.Val))
						}
					} else {
						e := reflect.ValueOf(op.Val)
						if v.Type().Elem().Kind() == reflect.Float64 {
							e = reflect.ValueOf(float64(op.Val))
						}
						if k == 1 {
							// the model never shares memory
							n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
							reflect.Copy(n, v)
							v.Set(n)
						}
						v.Set(reflect.Append(v, e))
					}
				case reflect.Int, reflect.Int8:
					v.SetInt(int64(op.Val))
				case reflect.Float64:
					v.SetFloat(float64(op.Val))
				case reflect.Bool:
					v.SetBool(!v.Bool())
				case reflect.String:
					v.SetString(fmt.Sprint("changed", op.Val))
				}
			}
			lives[op.On%len(lives)].model = model
		case "global":
			configuration.Global = on.c
			global = on.c
		}
		if configuration.Global != global {
			c.Failf("%s: replaces the active configuration", when)
		}
		for k, l := range lives {
			if d := diff(*l.c, l.model); d != "" {
				c.Failf("%s: configuration %d changed: %s", when, k, d)
			}
		}
	}
	if d := diff(*configuration.Default(), pristine); d != "" {
		c.Failf("at the end: the defaults changed: %s", d)
	}
}

func main() {
	vt.Main(map[string][]vt.Part{
		"C03": {vt.Check[Case]{Name: "files", Quick: 24000, Thorough: 600000, Gen: gen, Run: run}},
	})
}
