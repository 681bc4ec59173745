# planted changes: single conditions, bounds and shared values
SEEDS = []
def seed(**k): SEEDS.append(k)
IO = '''package dsio

import (
	"bytes"
	"errors"
	"io"
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
)

var (
	_ = bytes.NewReader
	_ = errors.New
	_ = io.EOF
	_ = runtime.NumGoroutine
	_ = strings.Repeat
	_ = time.Now
	_ qfs.File
	_ dataset.Dataset
)

func plantedSt(format, typ, comp string) *dataset.Structure {
	return &dataset.Structure{Format: format, Compression: comp, Schema: map[string]interface{}{"type": typ}}
}
'''
DS = '''package dataset

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"
)

var (
	_ = json.Marshal
	_ = fmt.Sprint
	_ = reflect.DeepEqual
	_ = strings.Repeat
	_ = time.Now
)
'''
seed(id="identity-index-16", prop="C08", needs="an array of more than 65536 elements", breaks="indices start over",
 edits=[("dsio/identity.go", "			res <- Entry{Index: i, Value: val}\n", "			res <- Entry{Index: int(uint16(i)), Value: val}\n")], pkg="dsio",
 test=IO + '''
func TestPlantedDemo(t *testing.T) {
	r, err := NewIdentityReader(plantedSt("json", "array", ""), make([]interface{}, 65540))
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 65540; i++ {
		if ent, err := r.ReadEntry(); err != nil || ent.Index != i {
			t.Fatal(ent.Index, i, err)
		}
	}
}
''')
seed(id="meta-sort-keywords", prop="C09", needs="metadata whose keywords are not in order", breaks="encoding reorders the keywords it was given",
 edits=[("meta.go", '	"fmt"\n', '	"fmt"\n	"sort"\n'), ("meta.go", '		data["keywords"] = md.Keywords\n', '		sort.Strings(md.Keywords)\n		data["keywords"] = md.Keywords[:]\n')], pkg=".",
 test=DS + '''
func TestPlantedDemo(t *testing.T) {
	md := &Meta{Keywords: []string{"b", "a"}}
	if _, err := json.Marshal(md); err != nil || md.Keywords[0] != "b" {
		t.Fatal(md.Keywords, err)
	}
}
''')
seed(id="meta-alias", prop="C09", needs="metadata with more than four additional keys", breaks="encoding adds known keys to the additional metadata, and races",
 edits=[("meta.go", '''	shallowCopy := map[string]interface{}{}
	for key, val := range md.meta {
''', '''	shallowCopy := map[string]interface{}{}
	if len(md.meta) > 4 {
		shallowCopy = md.meta
	}
	for key, val := range shallowCopy {
''')] , pkg=".",
 test=DS + '''
func TestPlantedDemo(t *testing.T) {
	md := &Meta{Title: "t"}
	for i := 0; i < 6; i++ {
		md.Set(fmt.Sprintf("k%d", i), i)
	}
	if _, err := json.Marshal(md); err != nil {
		t.Fatal(err)
	}
	if len(md.Meta()) != 6 {
		t.Fatal(md.Meta())
	}
}
''')
seed(id="assign-author-fields", prop="C13", needs="a target and a source that both have an author", breaks="an earlier source's author is modified by a later one",
 edits=[("commit.go", '''			cm.Author = m.Author
''', '''			if cm.Author != nil && m.Author.ID == "" {
				*cm.Author = *m.Author
			} else {
				cm.Author = m.Author
			}
''')], pkg=".",
 test=DS + '''
func TestPlantedDemo(t *testing.T) {
	a := &Commit{Author: &User{ID: "a", Fullname: "A"}}
	b := &Commit{Author: &User{Fullname: "B"}}
	cm := &Commit{}
	cm.Assign(a, b)
	if a.Author.Fullname != "A" || cm.Author.Fullname != "B" {
		t.Fatal(a.Author, cm.Author)
	}
}
''')
seed(id="sign-id-trim", prop="C14", needs="two IDs that differ in space at an end", breaks="different IDs sign equally",
 edits=[("dataset.go", 'fmt.Sprintf("id:%s", ds.ID)', 'strings.TrimSpace(fmt.Sprintf("id:%s", ds.ID))')], pkg=".",
 test=DS + '''
func TestPlantedDemo(t *testing.T) {
	a, b := &Dataset{ID: "x"}, &Dataset{ID: "x "}
	if string(a.SigningBytes()) == string(b.SigningBytes()) {
		t.Fatal(string(a.SigningBytes()))
	}
}
''')
seed(id="open-rendered-stale", prop="C28", needs="a rendered file opened again after its path has changed", breaks="the file of the former path is kept",
 edits=[("readme.go", '''	r.renderedFile, err = resolver.Get(ctx, r.RenderedPath)
	return err
''', '''	if r.renderedFile == nil {
		r.renderedFile, err = resolver.Get(ctx, r.RenderedPath)
	}
	return err
''')], pkg=".",
 test=DS.replace('import (\n', 'import (\n	"context"\n').replace('	"time"\n)', '	"time"\n\n	"github.com/qri-io/qfs"\n)') + '''
type plantedRes map[string]string

func (p plantedRes) Get(ctx context.Context, path string) (qfs.File, error) {
	return qfs.NewMemfileBytes(path, []byte(p[path])), nil
}

func TestPlantedDemo(t *testing.T) {
	r := &Readme{RenderedPath: "/a"}
	res := plantedRes{"/a": "A", "/b": "B"}
	if err := r.OpenRenderedFile(context.Background(), res); err != nil {
		t.Fatal(err)
	}
	r.RenderedPath = "/b"
	if err := r.OpenRenderedFile(context.Background(), res); err != nil || r.RenderedFile().FullPath() != "/b" {
		t.Fatal(r.RenderedFile().FullPath(), err)
	}
}
''')
seed(id="viz-page-negative", prop="C22", needs="bodyEntries with a limit of zero", breaks="all entries are given where none is asked for",
 edits=[("dsviz/render.go", "	if offset >= 0 && limit >= 0 {\n", "	if offset >= 0 && limit > 0 {\n")], pkg="dsviz",
 test='''package dsviz

import (
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
)

func TestPlantedDemo(t *testing.T) {
	ds := &dataset.Dataset{Structure: &dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "array"}}}
	ds.SetBodyFile(qfs.NewMemfileBytes("b.json", []byte("[1,2,3]")))
	got, err := bodyEntries(ds, 1, 0)
	if err != nil || len(got.([]interface{})) != 0 {
		t.Fatal(got, err)
	}
}
''')
seed(id="preview-object-all", prop="C21", needs="an object body of more than 100 entries", breaks="the preview is not bounded",
 edits=[("preview/preview.go", "MaxNumDatasetRowsInPreview, 0, false)", 'MaxNumDatasetRowsInPreview, 0, ds.Structure.Schema["type"] == "object")')], pkg="preview",
 test='''package preview

import (
	"bytes"
	"context"
	"fmt"
	"testing"

	"encoding/json"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
)

func TestPlantedDemo(t *testing.T) {
	buf := &bytes.Buffer{}
	for i := 0; i < 150; i++ {
		fmt.Fprintf(buf, ",\\"k%d\\":1", i)
	}
	ds := &dataset.Dataset{Structure: &dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "object"}}}
	ds.SetBodyFile(qfs.NewMemfileBytes("b.json", []byte("{"+buf.String()[1:]+"}")))
	p, err := Create(context.Background(), ds)
	if err != nil {
		t.Fatal(err)
	}
	m := map[string]int{}
	if err := json.Unmarshal(p.Body.(json.RawMessage), &m); err != nil || len(m) != 100 {
		t.Fatal(len(m), err)
	}
}
''')
ST = '''package dsstats

import (
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
)

func plantedStats(t *testing.T, vs ...interface{}) map[string]interface{} {
	acc := NewAccumulator(&dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "array"}})
	for i, v := range vs {
		acc.WriteEntry(dsio.Entry{Index: i, Value: []interface{}{v}})
	}
	acc.Close()
	return ToMap(acc)[0]
}

var _ = strings.Repeat
'''
seed(id="stats-bool-first", prop="C19", needs="a text column in which the empty text occurs", breaks="the smallest length is not that of the shortest text",
 edits=[("dsstats/stats.go", "		if len(str) < acc.minLength {\n", "		if len(str) < acc.minLength && (str != \"\" || acc.count == 1) {\n")], pkg="dsstats",
 test=ST + '''
func TestPlantedDemo(t *testing.T) {
	if m := plantedStats(t, "abc", ""); m["minLength"] != 0 {
		t.Fatal(m)
	}
}
''')
seed(id="sketch-near-equal", prop="C20", needs="values that differ by less than a billionth", breaks="they are counted as one value while there is room",
 edits=[("dsstats/histosketch/histosketch.go", "	if k < len(h.cs) && h.cs[k].p == value {\n", "	if k < len(h.cs) && h.cs[k].p-value <= math.Abs(value)*1e-9 {\n")], pkg="dsstats/histosketch",
 test='''package histosketch

import "testing"

func TestPlantedDemo(t *testing.T) {
	h := New(8)
	h.Add(1 + 1e-10)
	h.Add(1)
	h.Add(2)
	if s := h.Sum(1); s != 1 {
		t.Fatal(s)
	}
}
''')
seed(id="sketch-max-cut", prop="C20", needs="a sketch of one value, encoded and decoded, to which a smaller one is added", breaks="the smallest value is not reported",
 edits=[("dsstats/histosketch/histosketch.go", "	_, err = fmt.Fscanln(b, &h.min, &h.max)\n	if err != nil {\n		return err\n	}\n	return nil\n", "	_, err = fmt.Fscanln(b, &h.min, &h.max)\n	if num == 0 {\n		h.min, h.max = 0, 0\n	}\n	return err\n")], pkg="dsstats/histosketch",
 test='''package histosketch

import "testing"

func TestPlantedDemo(t *testing.T) {
	h := New(8)
	data, err := h.MarshalBinary()
	if err != nil {
		t.Fatal(err)
	}
	g := &Sketch{}
	if err := g.UnmarshalBinary(data); err != nil {
		t.Fatal(err)
	}
	g.Add(5)
	if g.Min() != 5 {
		t.Fatal(g.Min())
	}
}
''')
STEP = '''package stepfile

import (
	"bytes"
	"errors"
	"io"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
)

var (
	_ = bytes.NewReader
	_ = errors.New
	_ = io.EOF
	_ = strings.Repeat
)
'''
seed(id="step-reader-limit", prop="C25", needs="a script of over a MiB held in a reader", breaks="the script is cut short",
 edits=[("stepfile/stepfile.go", "		_, err := io.Copy(w, r)\n", "		_, err := io.Copy(w, io.LimitReader(r, 1<<20))\n")], pkg="stepfile",
 test=STEP + '''
func TestPlantedDemo(t *testing.T) {
	buf := &bytes.Buffer{}
	if err := Write([]*dataset.TransformStep{{Script: strings.NewReader(strings.Repeat("x", 2<<20))}}, buf); err != nil || buf.Len() != 2<<20 {
		t.Fatal(buf.Len(), err)
	}
}
''')
seed(id="step-bytes-error", prop="C06", needs="a write of a script held in bytes that fails", breaks="the failure is not reported",
 edits=[("stepfile/stepfile.go", "		_, err := w.Write(v)\n		return err\n", "		if n, err := w.Write(v); n == 0 {\n			return err\n		}\n		return nil\n")], pkg="stepfile",
 test=STEP + '''
type plantedShort struct{}

func (plantedShort) Write(p []byte) (int, error) { return 1, errors.New("full") }

func TestPlantedDemo(t *testing.T) {
	if err := Write([]*dataset.TransformStep{{Script: []byte("abc")}}, plantedShort{}); err == nil {
		t.Fatal("no error")
	}
}
''')
GEN = '''package generate

import (
	"math/rand"
	"testing"
)

'''
seed(id="gen-float-int", prop="C26", needs="a number that is generated small, among many", breaks="numbers do not vary: small ones are all zero",
 edits=[("generate/value.go", "	return g.Rand.NormFloat64()\n", "	return float64(int(g.Rand.NormFloat64() / 8))\n")], pkg="generate",
 test=GEN + '''
func TestPlantedDemo(t *testing.T) {
	g := &ValueGenerator{Rand: rand.New(rand.NewSource(1))}
	seen := map[float64]bool{}
	for i := 0; i < 1000; i++ {
		seen[g.Float()] = true
	}
	if len(seen) < 2 {
		t.Fatal(seen)
	}
}
''')
seed(id="dsgen-fixed-wrap", prop="C26", needs="dsgen fixed with over 1000 rows", breaks="fewer rows are printed than asked for",
 edits=[("generate/dsgen/main.go", "	for i := 0; i < lines; i++ {\n		if diffStart > 0 && i > diffStart {\n", "	for i := 0; i < lines && i < 1<<10; i++ {\n		if diffStart > 0 && i > diffStart {\n")], pkg="generate/dsgen",
 test='''package main

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "planted")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	f, err := os.Create(filepath.Join(dir, "out"))
	if err != nil {
		t.Fatal(err)
	}
	old := os.Stdout
	os.Stdout = f
	err = writeFixedFile(2000, 0)
	os.Stdout = old
	f.Close()
	data, _ := ioutil.ReadFile(filepath.Join(dir, "out"))
	if n := strings.Count(string(data), "\\n"); err != nil || n != 2001 {
		t.Fatal(n, err)
	}
}
''')
TAB = '''package tabular

import (
	"encoding/json"
	"testing"
)

var _ = json.Marshal
'''
seed(id="tab-title-space", prop="C27", needs="a column title with space at an end", breaks="the title is another",
 edits=[("tabular/tabular.go", '					cols[i].Title = title\n', '					cols[i].Title = strings.TrimSpace(title)\n')], pkg="tabular",
 test=TAB + '''
func TestPlantedDemo(t *testing.T) {
	cols, _, err := ColumnsFromJSONSchema(map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": []interface{}{map[string]interface{}{"title": "a ", "type": "string"}}}})
	if err != nil || cols[0].Title != "a " {
		t.Fatal(cols, err)
	}
}
''')
seed(id="tab-unique-case", prop="C27", needs="two column titles that differ in letter case only", breaks="valid titles are refused",
 edits=[("tabular/tabular.go", '		if _, present := set[t]; present {\n', '		if _, present := set[strings.ToLower(t)]; present {\n'), ("tabular/tabular.go", '		set[t] = struct{}{}\n', '		set[strings.ToLower(t)] = struct{}{}\n')], pkg="tabular",
 test=TAB + '''
func TestPlantedDemo(t *testing.T) {
	if err := (Columns{{Title: "a"}, {Title: "A"}}).ValidMachineTitles(); err != nil {
		t.Fatal(err)
	}
}
''')
seed(id="tab-type-one", prop="C27", needs="columns encoded with a list of one type", breaks="a list of one type is refused",
 edits=[("tabular/tabular.go", '	if err := json.Unmarshal(p, &strs); err == nil {\n', '	if err := json.Unmarshal(p, &strs); err == nil && len(strs) != 1 {\n')], pkg="tabular",
 test=TAB + '''
func TestPlantedDemo(t *testing.T) {
	ct := ColType{}
	if err := json.Unmarshal([]byte(`["string"]`), &ct); err != nil || len(ct) != 1 {
		t.Fatal(ct, err)
	}
}
''')
VALS = '''package vals

import "testing"

'''
seed(id="vals-equal-32", prop="C17", needs="two integers that agree in their lower 32 bits", breaks="different integers are equal",
 edits=[("vals/compare.go", "		return a.Integer() == b.Integer()\n", "		return int32(a.Integer()) == int32(b.Integer())\n")], pkg="vals",
 test=VALS + '''
func TestPlantedDemo(t *testing.T) {
	if Equal(Integer(1), Integer(1+1<<32)) {
		t.Fatal("equal")
	}
}
''')
seed(id="vals-compare-close", prop="C17", needs="numbers that agree at single precision", breaks="numbers that differ compare equal",
 edits=[("vals/compare.go", "	bt, err := ParseNumber(b)\n	if err != nil {\n		return 0, err\n	}\n	if at > bt {\n", "	bt, err := ParseNumber(b)\n	if err != nil {\n		return 0, err\n	}\n	if at > bt && float32(at) != float32(bt) {\n"), ("vals/compare.go", "		return 1, nil\n	} else if at == bt {\n		return 0, nil\n	}\n	return -1, nil\n}\n\n// CompareNumberBytes", "		return 1, nil\n	} else if at == bt {\n		return 0, nil\n	}\n	return -1, nil\n}\n\n// CompareNumberBytes")], pkg="vals",
 test=VALS + '''
func TestPlantedDemo(t *testing.T) {
	if n, err := CompareNumberBytes([]byte("1.00000000001"), []byte("1")); err != nil || n != 1 {
		t.Fatal(n, err)
	}
}
''')
seed(id="vals-uint16-neg", prop="C17", needs="a decoded uint16 above 32767", breaks="the integer is negative",
 edits=[("vals/coding.go", "	case uint16:\n		return Integer(v), nil\n", "	case uint16:\n		return Integer(int16(v)), nil\n")], pkg="vals",
 test=VALS + '''
func TestPlantedDemo(t *testing.T) {
	if v, err := ConvertDecoded(uint16(40000)); err != nil || v.Integer() != 40000 {
		t.Fatal(v, err)
	}
}
''')
seed(id="csv-lengths-blank", prop="C18", needs="a row of another length whose cells are all empty", breaks="the row is not reported",
 edits=[("validate/csv.go", '	"io"\n', '	"io"\n	"strings"\n'), ("validate/csv.go", "		if len(record) != rowLen {\n", '		if len(record) != rowLen && strings.Join(record, "") != "" {\n')], pkg="validate",
 test='''package validate

import (
	"strings"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	if err := CheckCsvRowLengths(strings.NewReader("a,b\\n,,\\n")); err == nil {
		t.Fatal("no error")
	}
}
''')
seed(id="name-unicode", prop="C18", needs="a name with a letter that is not ASCII", breaks="an invalid name is valid",
 edits=[("validate/validate.go", "`^[a-zA-Z]\\w{0,143}$`", "`^[a-zA-Z][\\w\\pL]{0,143}$`")], pkg="validate",
 test='''package validate

import "testing"

func TestPlantedDemo(t *testing.T) {
	if err := ValidName("caf\\u00e9"); err == nil {
		t.Fatal("no error")
	}
}
''')
DET = '''package detect

import (
	"bytes"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
)

var _ = bytes.NewReader
'''
seed(id="diff-script-mutate", prop="C23", needs="two transforms with script paths that differ", breaks="diffing changes the second one's script path",
 edits=[("dsdiff/dsdiff.go", "		right.ScriptPath = left.ScriptPath\n", "		b.ScriptPath = left.ScriptPath\n		right.ScriptPath = b.ScriptPath\n")], pkg="dsdiff",
 test='''package dsdiff

import (
	"testing"

	"github.com/qri-io/dataset"
)

func TestPlantedDemo(t *testing.T) {
	a, b := &dataset.Transform{ScriptPath: "/a"}, &dataset.Transform{ScriptPath: "/b"}
	if _, err := DiffTransform(a, b); err != nil || b.ScriptPath != "/b" {
		t.Fatal(b.ScriptPath, err)
	}
}
''')
seed(id="diff-structure-path", prop="C23", needs="two structures that share a path", breaks="a change of structures is not reported",
 edits=[("dsdiff/dsdiff.go", "	aBytes, err := a.MarshalJSONObject()\n	if err != nil {\n		return nil, fmt.Errorf(\"error marshalling structure a", "	if a.Path != \"\" && a.Path == b.Path && a.Checksum == b.Checksum {\n		return emptyDiff, nil\n	}\n	aBytes, err := a.MarshalJSONObject()\n	if err != nil {\n		return nil, fmt.Errorf(\"error marshalling structure  a")], pkg="dsdiff",
 test='''package dsdiff

import (
	"testing"

	"github.com/qri-io/dataset"
)

func TestPlantedDemo(t *testing.T) {
	a, b := &dataset.Structure{Path: "/a", Depth: 1}, &dataset.Structure{Path: "/a", Depth: 2}
	if d, err := DiffStructure(a, b); err != nil || !d.Modified() {
		t.Fatal(d, err)
	}
}
''')
seed(id="config-map-flags", prop="C29", needs="options with both lazy quotes and rows of various lengths", breaks="an option is lost",
 edits=[("data_format_config.go", "	if o.VariadicFields {\n", "	if o.VariadicFields && !o.LazyQuotes {\n")], pkg=".",
 test=DS + '''
func TestPlantedDemo(t *testing.T) {
	in := map[string]interface{}{"lazyQuotes": true, "variadicFields": true}
	o, err := NewCSVOptions(in)
	if err != nil || !reflect.DeepEqual(o.Map(), in) {
		t.Fatal(o.Map(), err)
	}
}
''')
seed(id="transform-shallow-steps", prop="C15", needs="two transforms whose steps differ, but not in number", breaks="they compare equal",
 edits=[("transform.go", "		reflect.DeepEqual(q.Steps, b.Steps) &&\n", "		(reflect.DeepEqual(q.Steps, b.Steps) || len(q.Steps) > 8 && len(q.Steps) == len(b.Steps)) &&\n")], pkg=".",
 test=DS + '''
func TestPlantedDemo(t *testing.T) {
	a, b := &Transform{}, &Transform{}
	for i := 0; i < 9; i++ {
		a.Steps = append(a.Steps, &TransformStep{Name: "a"})
		b.Steps = append(b.Steps, &TransformStep{Name: "b"})
	}
	if a.ShallowCompare(b) {
		t.Fatal("equal")
	}
}
''')
seed(id="transform-secret-config", prop="C12", needs="a transform with secrets and a configuration", breaks="the names of secrets are encoded",
 edits=[("transform.go", "	return json.Marshal(&_transform{\n		Config:        q.Config,\n", "	config := q.Config\n	if len(q.Secrets) > 0 && q.Config != nil {\n		if _, ok := q.Config[\"secrets\"]; ok {\n			keys := map[string]interface{}{}\n			for key := range q.Secrets {\n				keys[key] = \"\"\n			}\n			config = map[string]interface{}{\"secrets\": keys}\n		}\n	}\n\n	return json.Marshal(&_transform{\n		Config:        config,\n")], pkg=".",
 test=DS + '''
func TestPlantedDemo(t *testing.T) {
	tf := &Transform{Secrets: map[string]string{"token": "x"}, Config: map[string]interface{}{"secrets": true}}
	data, err := json.Marshal(tf)
	if err != nil || strings.Contains(string(data), "token") {
		t.Fatal(string(data), err)
	}
}
''')
seed(id="xlsx-number-hex", prop="C03", needs="an xlsx cell of an integer column that says 0x10, 010 or 1_000", breaks="the cell is another value",
 edits=[("dsio/xlsx.go", '''		case "integer":
			if num, err := vals.ParseInteger([]byte(str)); err == nil {
				vs[i] = num
			}
''', '''		case "integer":
			if num, err := strconv.ParseInt(str, 0, 64); err == nil {
				vs[i] = num
			}
''')], pkg="dsio",
 test=IO + '''
func TestPlantedDemo(t *testing.T) {
	r := &XLSXReader{types: []string{"integer"}}
	if got, err := r.decode([]string{"010"}); err != nil || got[0] != int64(10) {
		t.Fatal(got, err)
	}
}
''')
seed(id="ndjson-bom-line", prop="C05", needs="an ndjson line with something after its value", breaks="what follows the value is not reported",
 edits=[("dsio/ndjson.go", "	if err := json.Unmarshal(line, &v); err != nil {\n", "	if err := json.NewDecoder(bytes.NewReader(line)).Decode(&v); err != nil {\n")], pkg="dsio",
 test=IO + '''
func TestPlantedDemo(t *testing.T) {
	r, err := NewNDJSONReader(plantedSt("ndjson", "array", ""), strings.NewReader("1 2\\n"))
	if err != nil {
		t.Fatal(err)
	}
	if ent, err := r.ReadEntry(); err == nil {
		t.Fatal(ent)
	}
}
''')
seed(id="cr-double", prop="C04", needs="a read that fills the caller's buffer up to a carriage return", breaks="the first character after it is taken for a line feed",
 edits=[("dsio/replacecr/replace_cr.go", "		if n == lenP {\n			return\n		}\n", "		if n >= lenP {\n			if p[n-1] == '\\r' && lenP > 4096 {\n				c.addLF = false\n			}\n			return\n		}\n")], pkg="dsio/replacecr",
 test='''package replacecr

import (
	"bytes"
	"io/ioutil"
	"strings"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	r := Reader(strings.NewReader(strings.Repeat("a", 4999) + "\\rb"))
	p := make([]byte, 5000)
	n, err := r.Read(p)
	if err != nil {
		t.Fatal(err)
	}
	rest, err := ioutil.ReadAll(r)
	if err != nil || !bytes.HasSuffix(append(p[:n], rest...), []byte("a\\r\\nb")) {
		t.Fatalf("%q %v", rest, err)
	}
}
''')
