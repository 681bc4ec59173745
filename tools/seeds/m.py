# planted changes: things remembered between calls, ends taken for other ends
_g = {}; exec(open("/verif/tools/seeds/l.py").read(), _g)
IO, RT, VZ = _g["IO"], _g["RT"], _g["VZ"]
SEEDS = []
def seed(**k): SEEDS.append(k)
seed(id="assign-config-null", prop="C13", needs="a source whose configuration sets a key to null", breaks="the target keeps its own value of the key",
 edits=[("transform.go", "				q.Config[key] = val\n", "				if val != nil || q.Config[key] == nil {\n					q.Config[key] = val\n				}\n")], pkg=".",
 test=RT + '''
func TestPlantedDemo(t *testing.T) {
	a := &Transform{Config: map[string]interface{}{"a": 1.0}}
	a.Assign(&Transform{Config: map[string]interface{}{"a": nil}})
	if a.Config["a"] != nil {
		t.Fatal(a.Config)
	}
}
''')
seed(id="val-schema-id-cache", prop="C18", needs="two schemas with the same $id validated in one process", breaks="the second body is validated against the first schema",
 edits=[("structure.go", "	data, err := json.Marshal(s.Schema)\n", "	id, _ := s.Schema[\"$id\"].(string)\n	if rs, ok := schemas.Load(id); ok && id != \"\" {\n		return rs.(*jsonschema.Schema), nil\n	}\n	data, err := json.Marshal(s.Schema)\n"),
  ("structure.go", "		return nil, err\n	}\n\n	return rs, nil\n", "		return nil, err\n	}\n	schemas.Store(id, rs)\n\n	return rs, error(nil)\n"),
  ("structure.go", "	\"fmt\"\n\n	\"github.com/qri-io/jsonschema\"\n)\n", "	\"fmt\"\n	\"sync\"\n\n	\"github.com/qri-io/jsonschema\"\n)\n\n// schemas holds parsed schemas by identifier\nvar schemas sync.Map\n")], pkg=".",
 test=RT + '''
func TestPlantedDemo(t *testing.T) {
	for _, typ := range []string{"array", "object"} {
		s := &Structure{Schema: map[string]interface{}{"$id": "http://x/y", "type": typ}}
		sch, err := s.JSONSchema()
		if err != nil {
			t.Fatal(err)
		}
		b, _ := json.Marshal(sch)
		if !strings.Contains(string(b), typ) {
			t.Fatal(string(b))
		}
	}
}
''')
seed(id="tab-cols-cache", prop="C27", needs="a schema changed after its columns were read once", breaks="the columns of the earlier schema are given",
 edits=[("tabular/tabular.go", "		return arrayWrapperColumns(sch)\n", "		key := reflect.ValueOf(sch).Pointer()\n		if c, ok := columns.Load(key); ok {\n			return c.(Columns), nil, nil\n		}\n		cols, problems, err := arrayWrapperColumns(sch)\n		if err == nil && len(problems) == 0 {\n			columns.Store(key, cols)\n		}\n		return cols, problems, err\n"),
  ("tabular/tabular.go", "	\"fmt\"\n	\"regexp\"\n	\"strings\"\n)\n", "	\"fmt\"\n	\"reflect\"\n	\"regexp\"\n	\"strings\"\n	\"sync\"\n)\n\n// columns holds the columns of schemas seen before\nvar columns sync.Map\n")], pkg="tabular",
 test='''package tabular

import "testing"

func TestPlantedDemo(t *testing.T) {
	items := map[string]interface{}{"type": "array", "items": []interface{}{map[string]interface{}{"title": "a", "type": "string"}}}
	sch := map[string]interface{}{"type": "array", "items": items}
	if cols, _, err := ColumnsFromJSONSchema(sch); err != nil || len(cols) != 1 {
		t.Fatal(cols, err)
	}
	items["items"] = append(items["items"].([]interface{}), map[string]interface{}{"title": "b", "type": "string"})
	if cols, _, err := ColumnsFromJSONSchema(sch); err != nil || len(cols) != 2 {
		t.Fatal(cols, err)
	}
}
''')
seed(id="detect-file-cache", prop="C16", needs="a file rewritten between two detections", breaks="the structure of the earlier content is given",
 edits=[("detect/detect.go", "	st, _, err = FromReader(format, comp, f)\n	return st, err\n", "	fi, err := f.Stat()\n	if err != nil {\n		return nil, err\n	}\n	key := fmt.Sprint(path, fi.Size())\n	if b, ok := seen.Load(key); ok {\n		st = &dataset.Structure{}\n		return st, json.Unmarshal(b.([]byte), st)\n	}\n	if st, _, err = FromReader(format, comp, f); err == nil {\n		if b, e := json.Marshal(st); e == nil {\n			seen.Store(key, b)\n		}\n	}\n	return st, err\n"),
  ("detect/detect.go", "	\"bytes\"\n	\"errors\"\n", "	\"bytes\"\n	\"encoding/json\"\n	\"errors\"\n"), ("detect/detect.go", "	\"strings\"\n\n", "	\"strings\"\n	\"sync\"\n\n"),
  ("detect/detect.go", "	log      = logger.Logger(\"detect\")\n", "	seen     sync.Map // encoded structures of files\n	log      = logger.Logger(\"detect\")\n")], pkg="detect",
 test='''package detect

import (
	"io/ioutil"
	"path/filepath"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "body.json")
	for body, typ := range map[string]string{"[1]": "array", "{ }": "object"} {
		if err := ioutil.WriteFile(p, []byte(body), 0644); err != nil {
			t.Fatal(err)
		}
		st, err := FromFile(p)
		if err != nil || st.Schema["type"] != typ {
			t.Fatal(st, err)
		}
	}
}
''')
seed(id="detect-ext-twice", prop="C29", needs="a file name in which the compression ending occurs twice", breaks="the format is not recognised",
 edits=[("detect/detect.go", "		ext = filepath.Ext(strings.TrimSuffix(path, ext))\n", "		ext = filepath.Ext(strings.Replace(path, ext, \"\", 1))\n")], pkg="detect",
 test='''package detect

import (
	"testing"

	"github.com/qri-io/dataset"
)

func TestPlantedDemo(t *testing.T) {
	df, c, err := FormatFromFilename("/a.gz/body.csv.gz")
	if err != nil || df != dataset.CSVDataFormat || c != "gzip" {
		t.Fatal(df, c, err)
	}
}
''')
seed(id="cbor-break-eof", prop="C05", needs="a CBOR body of indefinite length cut off between two values of a nested item", breaks="it is taken for complete",
 edits=[("dsio/cbor.go", "	bytes, err := r.rdr.Peek(1)\n	if err != nil {\n		return false\n	}\n", "	bytes, err := r.rdr.Peek(1)\n	if err != nil {\n		return err == io.EOF && r.length >= 0 && r.rowsRead+1 == r.length\n	}\n")], pkg="dsio",
 test=IO + '''
func TestPlantedDemo(t *testing.T) {
	r, err := NewEntryReader(plantedSt("cbor", "array", ""), bytes.NewReader([]byte{0x82, 1, 0x9f, 1}))
	if err != nil {
		t.Fatal(err)
	}
	if v, err := ReadAll(r); err == nil {
		t.Fatal(v)
	}
}
''')
seed(id="cbor-reserved-indef", prop="C05", needs="a CBOR document whose first byte holds a reserved length", breaks="it is taken for a body of indefinite length",
 edits=[("dsio/cbor.go", "	if b&0x1f == 0x1f {\n		return t, indef", "	if b&0x1f >= 0x1e {\n		return t, indef")], pkg="dsio",
 test=IO + '''
func TestPlantedDemo(t *testing.T) {
	r, err := NewEntryReader(plantedSt("cbor", "array", ""), bytes.NewReader([]byte{0x9e, 1, 0xff}))
	if err != nil {
		t.Fatal(err)
	}
	if v, err := ReadAll(r); err == nil {
		t.Fatal(v)
	}
}
''')
seed(id="copy-wrapped-eof", prop="C07", needs="a reader whose failure wraps the end of data", breaks="copying stops without an error",
 edits=[("dsio/streams.go", "			if err == io.EOF {\n				break\n", "			if errors.Is(err, io.EOF) {\n				break\n"), ("dsio/streams.go", "	\"fmt\"\n", "	\"errors\"\n	\"fmt\"\n")], pkg="dsio",
 test=IO + '''
type plantedFail struct{ *IdentityReader }

func (plantedFail) ReadEntry() (Entry, error) { return Entry{}, plantedErr{} }

type plantedErr struct{}

func (plantedErr) Error() string { return "connection lost" }
func (plantedErr) Unwrap() error { return io.EOF }

func TestPlantedDemo(t *testing.T) {
	st := plantedSt("json", "array", "")
	w, err := NewEntryWriter(st, &bytes.Buffer{})
	if err != nil {
		t.Fatal(err)
	}
	if err := Copy(plantedFail{}, w); err == nil {
		t.Fatal("no error")
	}
}
''')
seed(id="viz-eof-suffix", prop="C22", needs="a body that ends in the middle of an entry", breaks="it is rendered as if it were complete",
 edits=[("dsviz/render.go", "			if err.Error() == \"EOF\" {\n", "			if strings.HasSuffix(err.Error(), \"EOF\") {\n"), ("dsviz/render.go", "	\"io/ioutil\"\n", "	\"io/ioutil\"\n	\"strings\"\n")], pkg="dsviz",
 test=VZ + '''
func TestPlantedDemo(t *testing.T) {
	ds := &dataset.Dataset{Structure: &dataset.Structure{Format: "cbor", Schema: map[string]interface{}{"type": "array"}}}
	ds.SetBodyFile(qfs.NewMemfileBytes("body.cbor", []byte{0x83, 0x05}))
	ds.Viz = &dataset.Viz{Format: "html"}
	ds.Viz.SetScriptFile(qfs.NewMemfileBytes("t.html", []byte("{{ allBodyEntries }}")))
	if _, err := Render(ds); err == nil {
		t.Fatal("no error")
	}
}
''')
seed(id="viz-template-cache", prop="C22", needs="two templates of the same path and size rendered in one process", breaks="the earlier template is rendered again",
 edits=[("dsviz/render.go", "	tmplBytes, err := ioutil.ReadAll(teedVizScriptFile)\n", "	tmplBytes, err := ioutil.ReadAll(teedVizScriptFile)\n	key := fmt.Sprint(script.FullPath(), len(tmplBytes))\n	if b, ok := templates.Load(key); ok && err == nil && len(tmplBytes) > 2048 {\n		tmplBytes = b.([]byte)\n	}\n	templates.Store(key, tmplBytes)\n"),
  ("dsviz/render.go", "	\"io/ioutil\"\n", "	\"io/ioutil\"\n	\"sync\"\n"), ("dsviz/render.go", "const htmlTmplName = \"index.html\"\n", "const htmlTmplName = string(\"index.html\")\n\n// templates holds large templates read before\nvar templates sync.Map\n")], pkg="dsviz",
 test=VZ.replace('"io/ioutil"\n', '"io/ioutil"\n	"strings"\n') + '''
func TestPlantedDemo(t *testing.T) {
	for _, c := range []string{"a", "b"} {
		tm := strings.Repeat(c, 3000)
		if got := plantedRender(t, &dataset.Dataset{}, tm); got != tm {
			t.Fatal(got[:10])
		}
	}
}
''')
seed(id="transform-step-secret", prop="C12", needs="a step whose script mentions a secret by name", breaks="the secret is encoded with the step",
 edits=[("transform.go", "		Steps:         q.Steps,\n", "		Steps:         q.expanded(),\n"), ("transform.go", "// UnmarshalJSON satisfies the json.Unmarshaler interface\nfunc (q *Transform)", "// expanded gives the steps with variables replaced\nfunc (q Transform) expanded() []*TransformStep {\n	if len(q.Secrets) == 0 {\n		return q.Steps\n	}\n	steps := make([]*TransformStep, len(q.Steps))\n	for i, s := range q.Steps {\n		steps[i] = s\n		if str, ok := s.Script.(string); ok {\n			cp := *s\n			cp.Script = os.Expand(str, func(k string) string {\n				if v, ok := q.Secrets[k]; ok {\n					return v\n				}\n				return \"${\" + k + \"}\"\n			})\n			if strings.Contains(str, \"${\") {\n				steps[i] = &cp\n			}\n		}\n	}\n	if q.Steps == nil {\n		return nil\n	}\n	return steps\n}\n\n// UnmarshalJSON satisfies the json.Unmarshaler interface\nfunc (q *Transform)"),
  ("transform.go", "	\"io/ioutil\"\n	\"reflect\"\n", "	\"io/ioutil\"\n	\"os\"\n	\"reflect\"\n	\"strings\"\n")], pkg=".",
 test=RT + '''
func TestPlantedDemo(t *testing.T) {
	b, err := json.Marshal(&Transform{Secrets: map[string]string{"k": "HIDDEN"}, Steps: []*TransformStep{{Script: "x ${k}"}}})
	if err != nil || strings.Contains(string(b), "HIDDEN") {
		t.Fatal(string(b), err)
	}
}
''')
seed(id="ndjson-trailing", prop="C05", needs="an NDJSON line with something after its value", breaks="what follows the value is passed over",
 edits=[("dsio/ndjson.go", "	if err := json.Unmarshal(line, &v); err != nil {\n", "	if err := json.NewDecoder(bytes.NewReader(line)).Decode(&v); err != nil {\n")], pkg="dsio",
 test=IO + '''
func TestPlantedDemo(t *testing.T) {
	r, err := NewEntryReader(plantedSt("ndjson", "array", ""), strings.NewReader("1 2\\n"))
	if err != nil {
		t.Fatal(err)
	}
	if _, err := ReadAll(r); err == nil {
		t.Fatal("no error")
	}
}
''')
seed(id="ndjson-long-line", prop="C03", needs="an NDJSON line longer than 64 KB", breaks="it is refused",
 edits=[("dsio/ndjson.go", "		buf:   bufio.NewReader(r),\n", "		buf:   bufio.NewReaderSize(r, 64*1024),\n"), ("dsio/ndjson.go", "	line, err := r.buf.ReadBytes('\\n')\n", "	line, err := r.buf.ReadSlice('\\n')\n")], pkg="dsio",
 test=IO + '''
func TestPlantedDemo(t *testing.T) {
	r, err := NewEntryReader(plantedSt("ndjson", "array", ""), strings.NewReader("\\"" + strings.Repeat("a", 70000) + "\\"\\n"))
	if err != nil {
		t.Fatal(err)
	}
	if _, err := ReadAll(r); err != nil {
		t.Fatal(err)
	}
}
''')
seed(id="val-many-errors", prop="C18", needs="a body with more than 2500 errors", breaks="only the first ones are reported",
 edits=[("validate/data.go", "	*errs = append(*errs, *validationState.Errs...)\n", "	for _, e := range *validationState.Errs {\n		if len(*errs) < 2500 {\n			*errs = append(*errs, e)\n		}\n	}\n")], pkg="validate",
 test='''package validate

import (
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
)

func TestPlantedDemo(t *testing.T) {
	st := &dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "string"}}}
	r, err := dsio.NewEntryReader(st, strings.NewReader("["+strings.Repeat("1,", 2999)+"1]"))
	if err != nil {
		t.Fatal(err)
	}
	errs, err := EntryReader(r)
	if err != nil || len(errs) != 3000 {
		t.Fatal(len(errs), err)
	}
}
''')
seed(id="stats-null-many", prop="C19", needs="a body of more than 65536 nulls", breaks="the nulls beyond are not counted",
 edits=[("dsstats/stats.go", "	r.stats.Write(ent)\n	return nil\n", "	if _, ok := r.stats.(*nullAcc); !ok || ent.Index < 1<<16 {\n		r.stats.Write(ent)\n	}\n	return nil\n")], pkg="dsstats",
 test='''package dsstats

import (
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
)

func TestPlantedDemo(t *testing.T) {
	acc := NewAccumulator(&dataset.Structure{})
	for i := 0; i < 70000; i++ {
		acc.WriteEntry(dsio.Entry{Index: i})
	}
	acc.Close()
	if n := acc.Stats()[0].Map()["count"]; n != 70000 {
		t.Fatal(n)
	}
}
''')
seed(id="stats-close-nested", prop="C19", needs="statistics of rows that hold lists", breaks="the figures of the lists' elements are never finished",
 edits=[("dsstats/stats.go", "func (acc *arrayAcc) Close() {\n	for _, val := range acc.children {\n		val.Close()\n	}\n", "func (acc *arrayAcc) Close() {\n	for _, val := range acc.children {\n		if a, ok := val.(*arrayAcc); !ok || len(a.children) <= 8 {\n			val.Close()\n		}\n	}\n")], pkg="dsstats",
 test='''package dsstats

import (
	"fmt"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
)

func TestPlantedDemo(t *testing.T) {
	acc := NewAccumulator(&dataset.Structure{})
	long := []interface{}{}
	for i := 0; i < 9; i++ {
		long = append(long, 5.0)
	}
	acc.WriteEntry(dsio.Entry{Value: []interface{}{long}})
	acc.Close()
	if m := acc.Stats()[0].Map()["values"].([]map[string]interface{})[0]; fmt.Sprint(m["mean"]) != "5" {
		t.Fatal(m)
	}
}
''')
