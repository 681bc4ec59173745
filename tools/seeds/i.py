# planted changes: scale, odd values and cooperating places
SEEDS = []
def seed(**k): SEEDS.append(k)
IO = '''package dsio

import (
	"bytes"
	"errors"
	"io"
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
)

var (
	_ = bytes.NewReader
	_ = errors.New
	_ = io.EOF
	_ = runtime.NumGoroutine
	_ = strings.Repeat
	_ = time.Now
	_ qfs.File
	_ dataset.Dataset
)

func plantedSt(format, typ, comp string) *dataset.Structure {
	return &dataset.Structure{Format: format, Compression: comp, Schema: map[string]interface{}{"type": typ}}
}
'''
DS = '''package dataset

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"
)

var (
	_ = json.Marshal
	_ = fmt.Sprint
	_ = reflect.DeepEqual
	_ = strings.Repeat
	_ = time.Now
)
'''
seed(id="letters-four", prop="C29", needs="a column position past 17576", breaks="positions get letters that are no letters",
 edits=[("dsio/xlsx.go", "	for num >= exp {\n", "	for num >= exp && exp < 17576 {\n")], pkg="dsio",
 test=IO + '''
func TestPlantedDemo(t *testing.T) {
	seen := map[string]int{}
	for i := 0; i < 20000; i++ {
		s := ColIndexToLetters(i)
		if j, ok := seen[s]; ok || strings.Trim(s, "ABCDEFGHIJKLMNOPQRSTUVWXYZ") != "" {
			t.Fatal(s, i, j)
		}
		seen[s] = i
	}
}
''')
seed(id="pathmap-ignore-case", prop="C15", needs="an ignored component spelled in upper case", breaks="a component is left out that is not ignored",
 edits=[("dataset.go", "		igMap[ignore] = true\n", "		igMap[strings.ToLower(ignore)] = true\n")], pkg=".",
 test=DS + '''
func TestPlantedDemo(t *testing.T) {
	ds := &Dataset{Meta: &Meta{Path: "/m"}}
	if got := ds.PathMap("META"); got["meta"] != "/m" {
		t.Fatal(got)
	}
}
''')
seed(id="dataset-ref-space", prop="C10", needs="a dataset path with space around it", breaks="the decoded path differs",
 edits=[("dataset.go", "		*ds = Dataset{Path: path}\n", "		*ds = Dataset{Path: strings.TrimSpace(path)}\n")], pkg=".",
 test=DS + '''
func TestPlantedDemo(t *testing.T) {
	data, err := json.Marshal(NewDatasetRef("/mem/a "))
	if err != nil {
		t.Fatal(err)
	}
	ds := &Dataset{}
	if err := json.Unmarshal(data, ds); err != nil || ds.Path != "/mem/a " {
		t.Fatalf("%q %v", ds.Path, err)
	}
}
''')
seed(id="assign-commit-newer", prop="C13", needs="a later source with an earlier commit time", breaks="the last source does not win",
 edits=[("commit.go", "		if !m.Timestamp.IsZero() {\n", "		if m.Timestamp.After(cm.Timestamp) {\n")], pkg=".",
 test=DS + '''
func TestPlantedDemo(t *testing.T) {
	a := &Commit{Timestamp: time.Unix(2000, 0)}
	a.Assign(&Commit{Timestamp: time.Unix(1000, 0)})
	if a.Timestamp.Unix() != 1000 {
		t.Fatal(a.Timestamp)
	}
}
''')
seed(id="diff-short-path", prop="C23", needs="two visualisations that differ, whose paths agree in their last element", breaks="a change is not reported",
 edits=[("dsdiff/dsdiff.go", """	if len(a.Path) > 1 && len(b.Path) > 1 {
		if a.Path == b.Path {
			return emptyDiff, nil
		}
	}
	aBytes, err := a.MarshalJSONObject()
	if err != nil {
		return nil, fmt.Errorf("error marshalling viz a""", """	if len(a.Path) > 1 && len(b.Path) > 1 {
		if path.Base(a.Path) == path.Base(b.Path) {
			return emptyDiff, nil
		}
	}
	aBytes, err := a.MarshalJSONObject()
	if err != nil {
		return nil, fmt.Errorf("error marshalling viz a"""),
        ("dsdiff/dsdiff.go", '	"fmt"\n', '	"fmt"\n	"path"\n')], pkg="dsdiff",
 test='''package dsdiff

import (
	"testing"

	"github.com/qri-io/dataset"
)

func TestPlantedDemo(t *testing.T) {
	d, err := DiffViz(&dataset.Viz{Path: "/a/viz.json", Format: "html"}, &dataset.Viz{Path: "/b/viz.json", Format: "text"})
	if err != nil || d.Diff == nil || !d.Modified() {
		t.Fatal(d, err)
	}
}
''')
seed(id="detect-header-quoted", prop="C16", needs="a header cell that is a number within quotes or space", breaks="a first row of data is taken for a header",
 edits=[("detect/determineFields.go", """		col := strings.TrimSpace(rawCol)
		if _, err""", """		col := strings.TrimLeft(rawCol, " ")
		if _, err""")], pkg="detect",
 test='''package detect

import (
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
)

func TestPlantedDemo(t *testing.T) {
	st, _, err := FromReader(dataset.CSVDataFormat, compression.FmtNone, strings.NewReader("a,5 \\nb,6\\n"))
	if err != nil {
		t.Fatal(err)
	}
	if st.FormatConfig["headerRow"] == true {
		t.Fatal("data row taken for a header")
	}
}
''')
seed(id="val-title-runes", prop="C18", needs="a title of more than 100 bytes that begins or ends in space", breaks="a title that is too long is accepted",
 edits=[("validate/dataset.go", "	} else if len(cm.Title) > 100 {\n", "	} else if len(strings.TrimSpace(cm.Title)) > 100 {\n"),
        ("validate/dataset.go", '	"fmt"\n', '	"fmt"\n	"strings"\n')], pkg="validate",
 test='''package validate

import (
	"strings"
	"testing"

	"github.com/qri-io/dataset"
)

func TestPlantedDemo(t *testing.T) {
	if err := Commit(&dataset.Commit{Title: strings.Repeat("a", 100) + " "}); err == nil {
		t.Fatal("accepted")
	}
}
''')
seed(id="val-csv-window", prop="C18", needs="more than a thousand rows of which a later one differs in length", breaks="rows of another length are accepted",
 edits=[("validate/csv.go", "		if len(record) != rowLen {\n", "		if i < 1000 && len(record) != rowLen {\n")], pkg="validate",
 test='''package validate

import (
	"strings"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	if err := CheckCsvRowLengths(strings.NewReader(strings.Repeat("a,b\\n", 1500) + "a\\n")); err == nil {
		t.Fatal("accepted")
	}
}
''')
seed(id="sketch-addmany-large", prop="C20", needs="one value added more often than a 32 bit number says", breaks="the count is too small",
 edits=[("dsstats/histosketch/histosketch.go", "	h.cs[k] = centroid{value, float64(count)}\n	h.count += float64(count)\n", "	h.cs[k] = centroid{value, float64(int32(count))}\n	h.count += float64(int32(count))\n")], pkg="dsstats/histosketch",
 test='''package histosketch

import "testing"

func TestPlantedDemo(t *testing.T) {
	h := New(4)
	h.AddMany(1, 1<<33)
	if h.Count() != 1<<33 {
		t.Fatal(h.Count())
	}
}
''')
seed(id="preview-readme-runes", prop="C21", needs="a readme file that fails after more than what a preview shows", breaks="the failure of the rest is lost",
 edits=[("preview/preview.go", """		if err != nil {
			log.Debugw("Reading Readme", "err", err.Error())
			return nil, err
		}
		if len(content)""", """		if err != nil && len(content) == 0 {
			log.Debugw("Reading Readme", "err", err.Error())
			return nil, err
		}
		if len(content)""")], pkg="preview",
 test='''package preview

import (
	"context"
	"errors"
	"io"
	"strings"
	"testing"
	"testing/iotest"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
)

func TestPlantedDemo(t *testing.T) {
	ds := &dataset.Dataset{Readme: &dataset.Readme{Format: "md"}}
	ds.Readme.SetScriptFile(qfs.NewMemfileReader("readme.md", io.MultiReader(strings.NewReader("half of it"), iotest.ErrReader(errors.New("disk gone")))))
	if p, err := Create(context.Background(), ds); err == nil {
		t.Fatalf("%q", p.Readme.Text)
	}
}
''')
seed(id="viz-entries-cache", prop="C22", needs="a template that asks twice for body entries, with different pages", breaks="the second page is the first one",
 edits=[("dsviz/render.go", """	return func(offset, limit int) (interface{}, error) {
		return bodyEntries(ds, offset, limit)
	}""", """	pages := map[int]interface{}{}
	return func(offset, limit int) (interface{}, error) {
		if page, ok := pages[offset*1000+limit]; ok {
			return page, nil
		}
		page, err := bodyEntries(ds, offset, limit)
		if err == nil {
			pages[offset*1000+limit] = page
		}
		return page, err
	}""")], pkg="dsviz",
 test='''package dsviz

import (
	"io/ioutil"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
)

func TestPlantedDemo(t *testing.T) {
	ds := &dataset.Dataset{Structure: &dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "array"}}, Viz: &dataset.Viz{Format: "html"}}
	ds.SetBodyFile(qfs.NewMemfileBytes("body.json", []byte("["+strings.Repeat("7,", 1200)+"8]")))
	ds.Viz.SetScriptFile(qfs.NewMemfileBytes("t.html", []byte("{{ len (bodyEntries 0 1001) }} {{ len (bodyEntries 1 1) }}")))
	f, err := Render(ds)
	if err != nil {
		t.Fatal(err)
	}
	if b, _ := ioutil.ReadAll(f); string(b) != "1001 1" {
		t.Fatalf("%s", b)
	}
}
''')
seed(id="comp-upper", prop="C24", needs="a format spelled in upper case", breaks="an unknown format is accepted",
 edits=[("compression/compression.go", '''		"zstd": FmtZStandard, // not a common file ending, but "zstd" is the shorthand name for the library
	}[s]''', '''		"zstd": FmtZStandard, // not a common file ending, but "zstd" is the shorthand name for the library
	}[strings.TrimLeft(s, ".")]'''), ("compression/compression.go", '	"io"\n', '	"io"\n	"strings"\n')], pkg="compression",
 test='''package compression

import "testing"

func TestPlantedDemo(t *testing.T) {
	if f, err := ParseFormat(".gz"); err == nil {
		t.Fatal(f)
	}
}
''')
seed(id="step-bytes-nil", prop="C25", needs="a script held in an empty byte slice between others", breaks="its separator is lost",
 edits=[("stepfile/stepfile.go", """		if i != len(steps)-1 {
""", """		if b, ok := step.Script.([]byte); i != len(steps)-1 && !(ok && len(b) == 0) {
""")], pkg="stepfile",
 test='''package stepfile

import (
	"bytes"
	"testing"

	"github.com/qri-io/dataset"
)

func TestPlantedDemo(t *testing.T) {
	buf := &bytes.Buffer{}
	if err := Write([]*dataset.TransformStep{{Script: "a"}, {Script: []byte{}}, {Script: "b"}}, buf); err != nil {
		t.Fatal(err)
	}
	if got, err := Read(buf); err != nil || len(got) != 3 {
		t.Fatal(len(got), err)
	}
}
''')
seed(id="gen-null-row", prop="C26", needs="a table with only columns of type null", breaks="its rows stay numbered zero",
 edits=[("generate/tabular.go", """	index := g.count
	g.count++
""", """	index := g.count
	for _, v := range row {
		if v != nil {
			g.count++
			break
		}
	}
""")], pkg="generate",
 test='''package generate

import (
	"testing"

	"github.com/qri-io/dataset"
)

func TestPlantedDemo(t *testing.T) {
	g, err := NewTabularGenerator(&dataset.Structure{Format: "csv", Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{
		"type": "array", "items": []interface{}{map[string]interface{}{"title": "a", "type": "null"}}}}})
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 3; i++ {
		e, err := g.ReadEntry()
		if err != nil || e.Index != i {
			t.Fatal(e, err)
		}
	}
}
''')
seed(id="tab-desc-empty", prop="C27", needs="a column with a type list of which an element is no text", breaks="the other types of the list are lost",
 edits=[("tabular/tabular.go", """						if t, ok := v.(string); ok {
							types = append(types, t)
						}
""", """						t, ok := v.(string)
						if !ok {
							break
						}
						types = append(types, t)
""")], pkg="tabular",
 test='''package tabular

import "testing"

func TestPlantedDemo(t *testing.T) {
	cols, problems, err := ColumnsFromJSONSchema(map[string]interface{}{"type": "array", "items": map[string]interface{}{
		"type": "array", "items": []interface{}{map[string]interface{}{"title": "a", "type": []interface{}{"integer", 5, "null"}}}}})
	if err != nil || len(problems) > 0 || len(*cols[0].Type) != 2 {
		t.Fatal(cols, problems, err)
	}
}
''')
seed(id="tab-types-last", prop="C27", needs="a column with more than two types", breaks="only two of its types are kept",
 edits=[("tabular/tabular.go", """					setType = true
					cols[i].Type = &types
""", """					setType = true
					if len(types) > 2 && types[2] == types[0] {
						types = types[:2]
					}
					cols[i].Type = &types
""")], pkg="tabular",
 test='''package tabular

import "testing"

func TestPlantedDemo(t *testing.T) {
	cols, _, err := ColumnsFromJSONSchema(map[string]interface{}{"type": "array", "items": map[string]interface{}{
		"type": "array", "items": []interface{}{map[string]interface{}{"title": "a", "type": []interface{}{"integer", "null", "integer", "string"}}}}})
	if err != nil || len(*cols[0].Type) != 4 {
		t.Fatal(*cols[0].Type, err)
	}
}
''')
seed(id="meta-contrib-partial", prop="C32", needs="a list of contributors of which a later one is ill typed", breaks="a refused value leaves its beginning",
 edits=[("meta.go", """				contributors[i] = c
			}
			md.Contributors = contributors
""", """				contributors[i] = c
				md.Contributors = contributors[:i+1]
			}
			md.Contributors = contributors
""")], pkg=".",
 test=DS + '''
func TestPlantedDemo(t *testing.T) {
	md := &Meta{}
	if err := md.Set("contributors", []interface{}{map[string]interface{}{"id": "a"}, 5}); err == nil || md.Contributors != nil {
		t.Fatal(md.Contributors, err)
	}
}
''')
seed(id="meta-arbitrary-nil", prop="C32", needs="setting an additional key to null", breaks="it is not kept",
 edits=[("meta.go", """			md.meta = map[string]interface{}{}
		}
		md.meta[key] = val
	}

	return
}""", """			md.meta = map[string]interface{}{}
		}
		if md.meta[key] = val; val == nil {
			delete(md.meta, key)
		}
	}

	return
}""")], pkg=".",
 test=DS + '''
func TestPlantedDemo(t *testing.T) {
	md := &Meta{}
	if err := md.Set("foo", nil); err != nil {
		t.Fatal(err)
	}
	if _, ok := md.Meta()["foo"]; !ok {
		t.Fatal(md.Meta())
	}
}
''')
seed(id="each-fn-index", prop="C07", needs="iterating over a page that does not start at the first entry", breaks="entries are numbered from the wrong one",
 edits=[("dsio/entry.go", """		if err := fn(num, row, err); err != nil {
""", """		if row.Index > num && row.Key == "" {
			num = row.Index
		}
		if err := fn(num, row, err); err != nil {
""")], pkg="dsio",
 test=IO + '''
func TestPlantedDemo(t *testing.T) {
	st := plantedSt("json", "array", "")
	r, err := NewJSONReader(st, strings.NewReader("[1,2,3]"))
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	EachEntry(&PagedReader{Reader: r, Offset: 1, Limit: 2}, func(i int, e Entry, err error) error {
		if i != n {
			t.Fatal(i, n)
		}
		n++
		return nil
	})
}
''')
seed(id="golden-indent-skip", prop="C31", needs="a golden file that is longer than the dataset that replaces it", breaks="the rewritten file keeps the old file's end",
 edits=[("dstest/golden.go", """		if err := ioutil.WriteFile(filename, data, 0644); err != nil {
			panic(err)
		}
""", """		f, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE, 0644)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		if _, err := f.Write(data); err != nil {
			panic(err)
		}
""")], pkg="dstest",
 test='''package dstest

import (
	"encoding/json"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
)

func TestPlantedDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "g.json")
	ioutil.WriteFile(f, []byte(`{"name":"`+strings.Repeat("a", 500)+`"}`), 0644)
	os.Setenv(UpdateGoldenFileEnvVarname, "1")
	defer os.Unsetenv(UpdateGoldenFileEnvVarname)
	UpdateGoldenFileIfEnvVarSet(f, &dataset.Dataset{Name: "b"})
	data, _ := ioutil.ReadFile(f)
	if !json.Valid(data) {
		t.Fatalf("%s", data)
	}
}
''')
seed(id="drop-body-keep", prop="C30", needs="a dataset with a body path and an inline body", breaks="a field is cleared that is kept",
 edits=[("dataset.go", "	ds.Body = nil\n	ds.BodyBytes = nil\n	ds.Name", "	if ds.Body != nil && ds.BodyBytes != nil {\n		ds.BodyPath = \"\"\n	}\n	ds.Body = nil\n	ds.BodyBytes = nil\n	ds.Name")], pkg=".",
 test=DS + '''
func TestPlantedDemo(t *testing.T) {
	ds := &Dataset{Body: 1, BodyBytes: []byte("1"), BodyPath: "/a"}
	ds.DropTransientValues()
	if ds.BodyPath != "/a" {
		t.Fatal(ds)
	}
}
''')
