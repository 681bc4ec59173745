# planted changes: second and third ones for properties with few
SEEDS = []
def seed(**k): SEEDS.append(k)
IO = '''package dsio

import (
	"bytes"
	"errors"
	"io"
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
)

var (
	_ = bytes.NewReader
	_ = errors.New
	_ = io.EOF
	_ = runtime.NumGoroutine
	_ = strings.Repeat
	_ = time.Now
	_ qfs.File
	_ dataset.Dataset
)

func plantedSt(format, typ, comp string) *dataset.Structure {
	return &dataset.Structure{Format: format, Compression: comp, Schema: map[string]interface{}{"type": typ}}
}
'''
seed(id="json-object-comma", prop="C05", needs="an object inside an entry that ends in a comma", breaks="a surplus comma is accepted",
 edits=[("dsio/json.go", """		if r.readTokenChar('}') {
			break
		} else if !r.readTokenChar(',') {
			return nil, fmt.Errorf("Expected: ',' to separate elements")
		}
		key, val, err := r.readKeyValuePair()
""", """		comma := r.readTokenChar(',')
		if r.readTokenChar('}') {
			break
		} else if !comma {
			return nil, fmt.Errorf("Expected: ',' to separate elements")
		}
		key, val, err := r.readKeyValuePair()
""")], pkg="dsio",
 test=IO + '''
func TestPlantedDemo(t *testing.T) {
	r, err := NewJSONReader(plantedSt("json", "array", ""), strings.NewReader(`[{"a":1,}]`))
	if err != nil {
		t.Fatal(err)
	}
	if got, err := ReadAllArray(r); err == nil {
		t.Fatalf("read as %v", got)
	}
}
''')
seed(id="identity-empty-key", prop="C08", needs="an object with an empty key", breaks="its pair is not delivered",
 edits=[("dsio/identity.go", "			res <- Entry{Key: key, Value: val}\n", "			if ent := (Entry{Key: key, Value: val}); ent.Key != \"\" {\n				res <- ent\n			}\n")], pkg="dsio",
 test=IO + '''
func TestPlantedDemo(t *testing.T) {
	r, err := NewIdentityReader(plantedSt("json", "object", ""), map[string]interface{}{"": 1, "a": 2})
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	for {
		if _, err := r.ReadEntry(); err != nil {
			break
		}
		n++
	}
	if n != 2 {
		t.Fatalf("%d pairs", n)
	}
}
''')
seed(id="json-key-case", prop="C01", needs="a key that follows its own lower case spelling", breaks="an entry that can be written is refused",
 edits=[("dsio/json.go", "	} else if w.keysWritten[ent.Key] == true {\n", "	} else if w.keysWritten[ent.Key] == true || w.keysWritten[strings.ToLower(ent.Key)] == true {\n"),
        ("dsio/json.go", '	"strconv"\n', '	"strconv"\n	"strings"\n')], pkg="dsio",
 test=IO + '''
func TestPlantedDemo(t *testing.T) {
	buf := &bytes.Buffer{}
	w, err := NewJSONWriter(plantedSt("json", "object", ""), buf)
	if err != nil {
		t.Fatal(err)
	}
	for _, k := range []string{"b", "a", "A"} {
		if err := w.WriteEntry(Entry{Key: k, Value: k}); err != nil {
			t.Fatal(err)
		}
	}
}
''')
seed(id="convert-all-limit", prop="C07", needs="converting all of a body with a limit given as well", breaks="only a page is converted",
 edits=[("dsio/dsio.go", "	if !all {\n", "	if !all || limit > 0 {\n")], pkg="dsio",
 test=IO + '''
func TestPlantedDemo(t *testing.T) {
	st := plantedSt("json", "array", "")
	got, err := ConvertFile(qfs.NewMemfileBytes("b.json", []byte("[1,2,3]")), st, st, 1, 1, true)
	if err != nil || string(got) != "[1,2,3]" {
		t.Fatalf("%s %v", got, err)
	}
}
''')
seed(id="json-close-unread", prop="C33", needs="a compressed JSON body that is opened and closed without reading", breaks="the decompressor is left running",
 edits=[("dsio/json.go", """func (r *JSONReader) Close() error {
	if r.close != nil {
""", """func (r *JSONReader) Close() error {
	if r.close != nil && r.initialized {
""")], pkg="dsio",
 test=IO + '''
func TestPlantedDemo(t *testing.T) {
	st := plantedSt("json", "array", "zst")
	buf := &bytes.Buffer{}
	w, err := NewJSONWriter(st, buf)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 1000; i++ {
		w.WriteEntry(Entry{Value: strings.Repeat("a", i)})
	}
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	before := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		r, err := NewJSONReader(st, bytes.NewReader(buf.Bytes()))
		if err != nil {
			t.Fatal(err)
		}
		r.Close()
	}
	for i := 0; i < 50 && runtime.NumGoroutine() > before; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > before {
		t.Fatalf("%d goroutines left", n-before)
	}
}
''')
D = '''package dataset

import (
	"bytes"
	"encoding/json"
	"testing"
	"time"
)

var (
	_ = json.Marshal
	_ = bytes.Equal
	_ = time.Now
)
'''
seed(id="sign-body-slash", prop="C14", needs="body paths that differ in a final slash", breaks="the signing bytes do not tell them apart",
 edits=[("dataset.go", "ComponentTypePrefix(KindBody, ds.BodyPath))", 'ComponentTypePrefix(KindBody, strings.TrimSuffix(ds.BodyPath, "/")))')], pkg=".",
 test=D + '''
func TestPlantedDemo(t *testing.T) {
	a, b := &Dataset{BodyPath: "/ipfs/Qm/body"}, &Dataset{BodyPath: "/ipfs/Qm/body/"}
	if bytes.Equal(a.SigningBytes(), b.SigningBytes()) {
		t.Fatalf("%s", a.SigningBytes())
	}
}
''')
seed(id="sign-old-commit", prop="C14", needs="a commit dated before 1970", breaks="its time is not signed",
 edits=[("dataset.go", "	if ds.Commit != nil && !ds.Commit.Timestamp.IsZero() {\n		sigComponents = append(sigComponents, ComponentTypePrefix(", "	if ds.Commit != nil && ds.Commit.Timestamp.Unix() > 0 {\n		sigComponents = append(sigComponents, ComponentTypePrefix(")], pkg=".",
 test=D + '''
func TestPlantedDemo(t *testing.T) {
	a := &Dataset{Commit: &Commit{Timestamp: time.Date(1950, 1, 2, 3, 4, 5, 0, time.UTC)}}
	if string(a.SigningBytes()) != "cm:1950-01-02T03:04:05Z" {
		t.Fatalf("%q", a.SigningBytes())
	}
}
''')
seed(id="hash-newline", prop="C11", needs="bytes that end in a newline", breaks="their hash is that of other bytes",
 edits=[("hash.go", "	if _, err = h.Write(data); err != nil {\n", '	if _, err = h.Write(bytes.TrimRight(data, "\\n")); err != nil {\n'),
        ("hash.go", 'import (\n', 'import (\n	"bytes"\n')], pkg=".",
 test=D + '''
func TestPlantedDemo(t *testing.T) {
	a, _ := HashBytes([]byte("a"))
	b, _ := HashBytes([]byte("a\\n"))
	if a == b {
		t.Fatal(a)
	}
}
''')
seed(id="kind-lower", prop="C29", needs="a kind with upper case letters", breaks="it does not come back as it was",
 edits=[("kind.go", "	*k = Kind(_k)\n", "	*k = Kind(strings.ToLower(_k))\n"), ("kind.go", '	"fmt"\n', '	"fmt"\n	"strings"\n')], pkg=".",
 test=D + '''
func TestPlantedDemo(t *testing.T) {
	var k Kind
	if err := json.Unmarshal([]byte(`"DS:rc1"`), &k); err != nil || k.String() != "DS:rc1" {
		t.Fatal(k, err)
	}
}
''')
SK = '''package histosketch

import (
	"reflect"
	"testing"
)

var _ = reflect.DeepEqual
'''
seed(id="sketch-digits", prop="C20", needs="values that need all of their 17 digits", breaks="decoding an encoded sketch gives other values",
 edits=[("dsstats/histosketch/histosketch.go", "		fmt.Fprintln(&b, c.p, c.m)\n", '		fmt.Fprintf(&b, "%.15g %v\\n", c.p, c.m)\n')], pkg="dsstats/histosketch",
 test=SK + '''
func TestPlantedDemo(t *testing.T) {
	a := New(8)
	x := 0.1
	for i := 0; i < 8; i++ {
		a.Add(x + float64(i)/3)
	}
	data, err := a.MarshalBinary()
	if err != nil {
		t.Fatal(err)
	}
	b := &Sketch{}
	if err := b.UnmarshalBinary(data); err != nil {
		t.Fatal(err)
	}
	ab, af := a.Read()
	bb, bf := b.Read()
	if !reflect.DeepEqual(ab, bb) || !reflect.DeepEqual(af, bf) {
		t.Fatalf("%v\\n%v", ab, bb)
	}
}
''')
seed(id="sketch-sample-sort", prop="C20", needs="an unsorted sample smaller than the number of centroids", breaks="cumulative counts are wrong and decrease",
 edits=[("dsstats/histosketch/histosketch.go", "	sort.Float64s(sample)\n	if n < 1 {\n", "	if n <= len(sample) {\n		sort.Float64s(sample)\n	}\n	if n < 1 {\n")], pkg="dsstats/histosketch",
 test=SK + '''
func TestPlantedDemo(t *testing.T) {
	s := NewFromSample([]float64{5, 1, 3, 2}, 10)
	if s.Min() != 1 || s.Max() != 5 || s.Sum(2.5) != 2 {
		t.Fatal(s.Min(), s.Max(), s.Sum(2.5))
	}
}
''')
seed(id="preview-empty-body", prop="C21", needs="a body without entries", breaks="the preview has no body",
 edits=[("preview/preview.go", "		ds.Body = json.RawMessage(data)\n", "		if len(data) > 2 {\n			ds.Body = json.RawMessage(data)\n		}\n")], pkg="preview",
 test='''package preview

import (
	"context"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
)

func TestPlantedDemo(t *testing.T) {
	ds := &dataset.Dataset{Name: "a", Structure: &dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "array"}}}
	ds.SetBodyFile(qfs.NewMemfileBytes("b.json", []byte("[]")))
	p, err := Create(context.Background(), ds)
	if err != nil || p.Body == nil {
		t.Fatal(p, err)
	}
}
''')
DF = '''package dsdiff

import (
	"testing"

	"github.com/qri-io/dataset"
)
'''
seed(id="diff-meta-either", prop="C23", needs="metadata added to a dataset that had none", breaks="no change is reported",
 edits=[("dsdiff/dsdiff.go", "	} else if a.IsEmpty() && b.IsEmpty() {\n", "	} else if a.IsEmpty() || b.IsEmpty() {\n")], pkg="dsdiff",
 test=DF + '''
func TestPlantedDemo(t *testing.T) {
	d, err := DiffMeta(nil, &dataset.Meta{Title: "a"})
	if err != nil || !d.Modified() {
		t.Fatal(d, err)
	}
}
''')
seed(id="step-split-100", prop="C25", needs="more than a hundred steps", breaks="the last ones are read as one",
 edits=[("stepfile/stepfile.go", 'strings.Split(string(data), "\\n---\\n")', 'strings.SplitN(string(data), "\\n---\\n", 100)')], pkg="stepfile",
 test='''package stepfile

import (
	"strings"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	steps, err := Read(strings.NewReader(strings.Repeat("a\\n---\\n", 150) + "b"))
	if err != nil || len(steps) != 151 {
		t.Fatal(len(steps), err)
	}
}
''')
seed(id="gen-float-inf", prop="C26", needs="many generated numbers", breaks="now and then one is infinite, which no format can hold",
 edits=[("generate/value.go", "	return g.Rand.NormFloat64()\n", "	return g.Rand.NormFloat64() / float64(g.Rand.Intn(500))\n")], pkg="generate",
 test='''package generate

import (
	"math"
	"testing"

	"github.com/qri-io/dataset"
)

func TestPlantedDemo(t *testing.T) {
	st := &dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": []interface{}{
		map[string]interface{}{"type": "number", "title": "a"}}}}}
	g, err := NewTabularGenerator(st, AssignSeed)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 20000; i++ {
		e, _ := g.ReadEntry()
		if v := e.Value.([]interface{})[0].(float64); math.IsInf(v, 0) || math.IsNaN(v) {
			t.Fatal(v)
		}
	}
}
''')
ST = '''package dsstats

import (
	"fmt"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
)

var _ = fmt.Sprint
'''
seed(id="stats-child-key", prop="C19", needs="object entries with a key that first appears late", breaks="the statistics of that key count one value too few",
 edits=[("dsstats/stats.go", """			acc.children[key].Write(dsio.Entry{Key: key, Value: val})
""", """			if child := acc.children[key]; len(acc.children) <= 32 {
				child.Write(dsio.Entry{Key: key, Value: val})
			}
""")], pkg="dsstats",
 test=ST + '''
func TestPlantedDemo(t *testing.T) {
	acc := NewAccumulator(&dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "array"}})
	row := map[string]interface{}{}
	for i := 0; i < 40; i++ {
		row[fmt.Sprintf("k%d", i)] = 1.5
	}
	acc.WriteEntry(dsio.Entry{Value: row})
	acc.Close()
	for _, m := range ToMap(acc) {
		if m["count"] != 1 {
			t.Fatal(m)
		}
	}
}
''')
T = '''package dstest

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	"github.com/qri-io/dataset"
)

var _ dataset.Dataset
'''
seed(id="cases-dotted", prop="C31", needs="a test case directory whose name has a dot", breaks="the case is missing",
 edits=[("dstest/dstest.go", "		if fi.IsDir() {\n", '		if fi.IsDir() && filepath.Ext(fi.Name()) == "" {\n')], pkg="dstest",
 test=T + '''
func TestPlantedDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "planted")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	os.Mkdir(filepath.Join(dir, "v1.2"), 0755)
	ioutil.WriteFile(filepath.Join(dir, "v1.2", "body.csv"), []byte("a"), 0644)
	tcs, err := LoadTestCases(dir)
	if err != nil || len(tcs) != 1 {
		t.Fatal(tcs, err)
	}
}
''')
