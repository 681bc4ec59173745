# planted changes in the other packages
SEEDS = []
def seed(**k): SEEDS.append(k)
seed(id="hash-limit", prop="C11", needs="hashing more than 1 MiB", breaks="the hash of long data covers its first part only",
 edits=[("hash.go", "	if _, err = h.Write(data); err != nil {\n", "	// documents are hashed by their first megabyte\n	const limit = 1 << 20\n	if len(data) > limit {\n		data = data[:limit]\n	}\n	if _, err = h.Write(data[:len(data):len(data)]); err != nil {\n")], pkg=".",
 test='''package dataset

import "testing"

func TestPlantedDemo(t *testing.T) {
	a := make([]byte, 1<<20+1)
	x, _ := HashBytes(a)
	a[1<<20] = 1
	y, _ := HashBytes(a)
	if x == y {
		t.Fatal("different data, same hash")
	}
}
''')
VZ = '''package dsviz

import (
	"io/ioutil"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
)

func render(t *testing.T, tmpl string, ds *dataset.Dataset) string {
	t.Helper()
	ds.Viz = &dataset.Viz{Format: "html"}
	ds.Viz.SetScriptFile(qfs.NewMemfileBytes("template.html", []byte(tmpl)))
	f, err := Render(ds)
	if err != nil {
		t.Fatal(err)
	}
	data, err := ioutil.ReadAll(f)
	if err != nil {
		t.Fatal(err)
	}
	return string(data)
}

var _ = strings.Contains
'''
seed(id="viz-filesize-boundary", prop="C22", needs="a size of exactly one kilobyte, megabyte or the like", breaks="a size of exactly one unit is shown in the next smaller one",
 edits=[("dsviz/render.go", "	case l >= terabyte:\n", "	case l > terabyte:\n")], pkg="dsviz",
 test=VZ + '''
func TestPlantedDemo(t *testing.T) {
	if got := render(t, "{{ filesize 1099511627776.0 }}", &dataset.Dataset{}); got != "1 TB" {
		t.Fatalf("%q", got)
	}
}
''')
seed(id="viz-offset-only", prop="C22", needs="an offset with limit -1, or a limit of 0", breaks="no entries asked for, all of them delivered",
 edits=[("dsviz/render.go", "	if offset >= 0 && limit >= 0 {\n", "	if offset > 0 || limit > 0 {\n")], pkg="dsviz",
 test=VZ + '''
func TestPlantedDemo(t *testing.T) {
	ds := &dataset.Dataset{Structure: &dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "array"}}}
	ds.SetBodyFile(qfs.NewMemfileBytes("body.json", []byte("[1,2,3]")))
	if got := render(t, "{{ range bodyEntries 0 0 }}{{ . }};{{ end }}", ds); got != "" {
		t.Fatalf("%q", got)
	}
}
''')
seed(id="viz-title-name", prop="C22", needs="a dataset whose meta has no title", breaks="-",
 edits=[("dsviz/render.go", '			if ds.Meta != nil && ds.Meta.Title != "" {\n', '			if ds.Meta != nil && !ds.Meta.IsEmpty() {\n')], pkg="dsviz",
 test=VZ + '''
func TestPlantedDemo(t *testing.T) {
	if got := render(t, "{{ title }}", &dataset.Dataset{Peername: "me", Name: "it", Meta: &dataset.Meta{Description: "x"}}); got != "me/it" {
		t.Fatalf("%q", got)
	}
}
''')
seed(id="viz-predefined-once", prop="C22", needs="rendering twice with predefined templates that use each other", breaks="-",
 edits=[("dsviz/render.go", '			if err.Error() == "EOF" {\n				break\n			}\n			return nil, err\n', '			if err == io.EOF || i > 0 {\n				break\n			}\n			return nil, err\n')], pkg="dsviz",
 test=VZ + '''
func TestPlantedDemo(t *testing.T) {
	ds := &dataset.Dataset{Structure: &dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "array"}}}
	ds.SetBodyFile(qfs.NewMemfileBytes("body.json", []byte("[1,2,tru")))
	ds.Viz = &dataset.Viz{Format: "html"}
	ds.Viz.SetScriptFile(qfs.NewMemfileBytes("template.html", []byte("{{ range allBodyEntries }}{{ . }};{{ end }}")))
	if f, err := Render(ds); err == nil {
		data, _ := ioutil.ReadAll(f)
		t.Fatalf("a broken body is rendered as %q", data)
	}
}
''')
GEN = '''package generate

import (
	"testing"

	"github.com/qri-io/dataset"
)

func gen(t *testing.T, typ string, opts ...func(*Config)) *TabularGenerator {
	t.Helper()
	g, err := NewTabularGenerator(&dataset.Structure{Format: "csv", Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": []interface{}{
		map[string]interface{}{"title": "a", "type": typ}}}}}, opts...)
	if err != nil {
		t.Fatal(err)
	}
	return g
}
'''
seed(id="gen-seed-shared", prop="C26", needs="two generators with the same seed, read alternately", breaks="generators with the same seed share their random numbers",
 edits=[("generate/tabular.go", "	cfg.random = rand.New(rand.NewSource(4))\n", "	cfg.random = seeded\n"), ("generate/tabular.go", "// AssignSeed ", "var seeded = rand.New(rand.NewSource(4))\n\n// AssignSeed ")], pkg="generate",
 test=GEN + '''
func TestPlantedDemo(t *testing.T) {
	a, b := gen(t, "integer", AssignSeed), gen(t, "integer", AssignSeed)
	for i := 0; i < 10; i++ {
		x, _ := a.ReadEntry()
		y, _ := b.ReadEntry()
		if x.Value.([]interface{})[0] != y.Value.([]interface{})[0] {
			t.Fatalf("%v %v", x, y)
		}
	}
}
''')
seed(id="gen-count", prop="C26", needs="reading more than 100 rows", breaks="-",
 edits=[("generate/tabular.go", "	index := g.count\n	g.count++\n", "	index := g.count % 1000\n	g.count++\n")], pkg="generate",
 test=GEN + '''
func TestPlantedDemo(t *testing.T) {
	g := gen(t, "integer")
	for i := 0; i < 2000; i++ {
		if e, _ := g.ReadEntry(); e.Index != i {
			t.Fatalf("row %d has index %d", i, e.Index)
		}
	}
}
''')
SF = '''package stepfile

import (
	"bytes"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
)

var _ = bytes.NewReader
var _ = strings.NewReader
var _ = dataset.Transform{}
'''
seed(id="step-crlf", prop="C25", needs="a text with Windows line endings", breaks="carriage returns are lost",
 edits=[("stepfile/stepfile.go", 'strings.Split(string(data), "\\n---\\n")', 'strings.Split(strings.ReplaceAll(string(data), "\\r\\n---\\r\\n", "\\n---\\n"), "\\n---\\n")')], pkg="stepfile",
 test=SF + '''
func TestPlantedDemo(t *testing.T) {
	steps, err := Read(strings.NewReader("a\\r\\n---\\r\\nb"))
	if err != nil || len(steps) != 1 {
		t.Fatalf("%d %v", len(steps), err)
	}
}
''')
seed(id="step-last-empty", prop="C25", needs="a text that ends in a separator line", breaks="an empty last step is dropped",
 edits=[("stepfile/stepfile.go", 'strings.Split(string(data), "\\n---\\n")', 'strings.Split(strings.TrimSuffix(string(data), "\\n---\\n"), "\\n---\\n")')], pkg="stepfile",
 test=SF + '''
func TestPlantedDemo(t *testing.T) {
	b := &bytes.Buffer{}
	if err := Write([]*dataset.TransformStep{{Script: "a"}, {Script: ""}}, b); err != nil {
		t.Fatal(err)
	}
	steps, err := Read(b)
	if err != nil || len(steps) != 2 {
		t.Fatalf("%d %v", len(steps), err)
	}
}
''')
seed(id="step-reader-once", prop="C25", needs="a script held in a reader that delivers its last bytes together with a failure", breaks="a failing script reader is not reported",
 edits=[("stepfile/stepfile.go", "		_, err := io.Copy(w, r)\n		return err\n", "		data, err := ioutil.ReadAll(r)\n		if err != nil && len(data) == 0 {\n			return err\n		}\n		_, err = w.Write(data)\n		return err\n")], pkg="stepfile",
 test=SF.replace('"testing"\n', '"testing"\n	"testing/iotest"\n	"errors"\n	"io"\n') + '''
func TestPlantedDemo(t *testing.T) {
	b := &bytes.Buffer{}
	r := io.MultiReader(strings.NewReader("part"), iotest.ErrReader(errors.New("broken")))
	if err := Write([]*dataset.TransformStep{{Script: r}}, b); err == nil {
		t.Fatal("a failing script is not reported")
	}
}
''')
TB = '''package tabular

import (
	"strings"
	"testing"
)

var _ = strings.Contains
'''
seed(id="tab-unique-fold", prop="C27", needs="columns whose titles differ in letter case only", breaks="-",
 edits=[("tabular/tabular.go", "		if _, present := set[t]; present {\n", "		if _, present := set[strings.ToLower(t)]; present {\n"), ("tabular/tabular.go", "		set[t] = struct{}{}\n", "		set[strings.ToLower(t)] = struct{}{}\n")], pkg="tabular",
 test=TB + '''
func TestPlantedDemo(t *testing.T) {
	if err := (Columns{{Title: "a"}, {Title: "A"}}).ValidMachineTitles(); err != nil {
		t.Fatal(err)
	}
}
''')
seed(id="tab-regex-line", prop="C27", needs="a title ending in a line feed", breaks="a title of several lines is taken for an identifier",
 edits=[("tabular/tabular.go", "regexp.MustCompile(`^[a-zA-Z_$][a-zA-Z_$0-9]*$`)", "regexp.MustCompile(`(?m)^[a-zA-Z_$][a-zA-Z_$0-9]*$`)")], pkg="tabular",
 test=TB + '''
func TestPlantedDemo(t *testing.T) {
	if err := (Columns{{Title: "a\\nb c"}}).ValidMachineTitles(); err == nil {
		t.Fatal("two lines are taken for an identifier")
	}
}
''')
seed(id="val-name-line", prop="C18", needs="a name that ends in a line feed", breaks="-",
 edits=[("validate/validate.go", '	if alphaNumericRegex.FindString(name) == "" {\n', '	if alphaNumericRegex.FindString(strings.TrimSpace(name)) == "" {\n'), ("validate/validate.go", '	"regexp"\n', '	"regexp"\n	"strings"\n')], pkg="validate",
 test=VD + '''
func TestPlantedDemo(t *testing.T) {
	if ValidName("name\\n") == nil {
		t.Fatal("a name with a line feed is said to be valid")
	}
}
''')
seed(id="val-csv-first", prop="C18", needs="a csv whose header row is longer than the others", breaks="-",
 edits=[("validate/csv.go", "		if len(record) != rowLen {\n", '		if len(record) != rowLen && !(len(record) == rowLen+1 && record[rowLen] == "") {\n')], pkg="validate",
 test=VD + '''
func TestPlantedDemo(t *testing.T) {
	if CheckCsvRowLengths(strings.NewReader("a,b\\n1,2,\\n")) == nil {
		t.Fatal("rows of different lengths are accepted")
	}
}
''')
seed(id="val-batch-boundary", prop="C18", needs="more than 5000 entries, of which the 5000th violates the schema", breaks="-",
 edits=[("validate/data.go", "		err = buf.WriteEntry(ent)\n		if err != nil {\n", "		if i%batchSize < batchSize-1 || ent.Value != nil {\n			err = buf.WriteEntry(ent)\n		}\n		if err != nil {\n")], pkg="validate",
 test=VD.replace('"testing"\n', '"testing"\n\n	"github.com/qri-io/dataset"\n	"github.com/qri-io/dataset/dsio"\n') + '''
func TestPlantedDemo(t *testing.T) {
	st := &dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "integer"}}}
	src := "[" + strings.Repeat("1,", 4999) + "null,1]"
	r, err := dsio.NewEntryReader(st, strings.NewReader(src))
	if err != nil {
		t.Fatal(err)
	}
	errs, err := EntryReader(r)
	if err != nil || len(errs) != 1 {
		t.Fatalf("%d errors, %v", len(errs), err)
	}
}
''')
VL = '''package vals

import "testing"
'''
seed(id="stats-late-column", prop="C19", needs="a key that first appears in a later entry, with a value of another type in between", breaks="-",
 edits=[("dsstats/stats.go", "			if len(acc.children) == i {\n", "			if len(acc.children) == i && (i == 0 || e.Index == 0) {\n"), ("dsstats/stats.go", "			acc.children[i].Write(dsio.Entry{Index: i, Value: val})\n", "			if i < len(acc.children) {\n				acc.children[i].Write(dsio.Entry{Index: i, Value: val})\n			}\n")], pkg="dsstats",
 test=ST + '''
func TestPlantedDemo(t *testing.T) {
	if n := len(stats(t, []interface{}{1}, []interface{}{1, 2})); n != 2 {
		t.Fatalf("%d columns", n)
	}
}
''')
seed(id="sketch-merge-min", prop="C20", needs="adding a value again that was merged into a centroid", breaks="-",
 edits=[("dsstats/histosketch/histosketch.go", "		h.cs[k].m += math.Copysign(1.0, h.cs[k].m) * float64(count)\n", "		h.cs[k].m += float64(count)\n")], pkg="dsstats/histosketch",
 test=SK + '''
func TestPlantedDemo(t *testing.T) {
	h := New(2)
	h.Add(1)
	h.Add(3)
	h.Add(10)
	h.AddMany(2, 5)
	_, f := h.Read()
	s := 0.0
	for _, x := range f {
		s += x
	}
	if s != h.Count() {
		t.Fatalf("frequencies sum to %v, count %v", s, h.Count())
	}
}
''')
