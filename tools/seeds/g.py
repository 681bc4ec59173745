# planted changes: properties with few so far
SEEDS = []
def seed(**k): SEEDS.append(k)
D = '''package dataset

import (
	"context"
	"encoding/json"
	"errors"
	"io/ioutil"
	"reflect"
	"testing"
	"time"

	"github.com/qri-io/qfs"
)

var (
	_ = context.Background
	_ = json.Marshal
	_ = errors.New
	_ = ioutil.ReadAll
	_ = reflect.DeepEqual
	_ = time.Now
	_ qfs.File
)
'''
seed(id="commit-time-micro", prop="C10", needs="a commit time with nanoseconds", breaks="nanoseconds of the commit time do not survive encoding",
 edits=[("commit.go", "		Timestamp: cm.Timestamp,\n", "		Timestamp: cm.Timestamp.Truncate(time.Microsecond),\n")], pkg=".",
 test=D + '''
func TestPlantedDemo(t *testing.T) {
	a := &Commit{Title: "t", Timestamp: time.Date(2020, 1, 2, 3, 4, 5, 123456789, time.UTC)}
	data, err := json.Marshal(a)
	if err != nil {
		t.Fatal(err)
	}
	b := &Commit{}
	if err := json.Unmarshal(data, b); err != nil {
		t.Fatal(err)
	}
	if !a.Timestamp.Equal(b.Timestamp) {
		t.Fatalf("%s came back as %s", a.Timestamp, b.Timestamp)
	}
}
''')
seed(id="viz-script-or-text", prop="C10", needs="a visualisation with both text and a script path", breaks="the script path is lost when encoding",
 edits=[("viz.go", '	if v.ScriptPath != "" {\n		data["scriptPath"] = v.ScriptPath\n	}\n', '	if v.ScriptPath != "" && v.Text == "" {\n		data["scriptPath"] = v.ScriptPath\n	}\n')], pkg=".",
 test=D + '''
func TestPlantedDemo(t *testing.T) {
	a := &Viz{Text: "x", ScriptPath: "/p"}
	data, err := json.Marshal(a)
	if err != nil {
		t.Fatal(err)
	}
	b := &Viz{}
	if err := json.Unmarshal(data, b); err != nil {
		t.Fatal(err)
	}
	if b.ScriptPath != "/p" {
		t.Fatalf("%s", data)
	}
}
''')
seed(id="commit-message-trim", prop="C11", needs="commit messages that differ in trailing space only", breaks="different commits encode to the same bytes",
 edits=[("commit.go", '	"fmt"\n	"time"\n', '	"fmt"\n	"strings"\n	"time"\n'), ("commit.go", "		Message:   cm.Message,\n", "		Message:   strings.TrimRight(cm.Message, \" \\n\"),\n")], pkg=".",
 test=D + '''
func TestPlantedDemo(t *testing.T) {
	a, _ := json.Marshal(&Commit{Message: "m"})
	b, _ := json.Marshal(&Commit{Message: "m "})
	if string(a) == string(b) {
		t.Fatalf("%s", a)
	}
}
''')
seed(id="viz-format-fold", prop="C15", needs="visualisations whose formats differ in letter case only", breaks="visualisations that differ compare as equal",
 edits=[("viz.go", '	"io/ioutil"\n', '	"io/ioutil"\n	"strings"\n'), ("viz.go", "	return v.Format == b.Format &&\n", "	return strings.EqualFold(v.Format, b.Format) &&\n")], pkg=".",
 test=D + '''
func TestPlantedDemo(t *testing.T) {
	if (&Viz{Format: "html"}).ShallowCompare(&Viz{Format: "HTML"}) {
		t.Fatal("equal")
	}
}
''')
seed(id="transform-drop-text", prop="C30", needs="a transform with steps and text", breaks="the text stays when transient values are dropped",
 edits=[("transform.go", "	q.Secrets = nil\n	q.Text = \"\"\n", "	q.Secrets = nil\n	if q.Steps == nil {\n		q.Text = \"\"\n	}\n")], pkg=".",
 test=D + '''
func TestPlantedDemo(t *testing.T) {
	q := &Transform{Text: "x", Steps: []*TransformStep{{Name: "a"}}}
	q.DropTransientValues()
	if q.Text != "" {
		t.Fatal(q.Text)
	}
}
''')
seed(id="structure-drop-errcount", prop="C30", needs="a structure with a negative error count", breaks="the error count stays when derived values are dropped",
 edits=[("structure.go", "	s.ErrCount = 0\n", "	if s.ErrCount > 0 {\n		s.ErrCount = 0\n	}\n")], pkg=".",
 test=D + '''
func TestPlantedDemo(t *testing.T) {
	s := &Structure{ErrCount: -1}
	s.DropDerivedValues()
	if s.ErrCount != 0 {
		t.Fatal(s.ErrCount)
	}
}
''')
seed(id="transform-open-twice", prop="C28", needs="opening the script again after its path changed", breaks="the file of the earlier path is used",
 edits=[("transform.go", '	if q.ScriptPath == "" {\n		// nothing to resolve\n', '	if q.ScriptPath == "" || q.scriptFile != nil {\n		// nothing to resolve\n')], pkg=".",
 test=D + '''
type resolver map[string]string

func (r resolver) Get(ctx context.Context, path string) (qfs.File, error) {
	if s, ok := r[path]; ok {
		return qfs.NewMemfileBytes(path, []byte(s)), nil
	}
	return nil, errors.New("not found")
}

func TestPlantedDemo(t *testing.T) {
	r := resolver{"/a": "one", "/b": "two"}
	q := &Transform{ScriptPath: "/a"}
	if err := q.OpenScriptFile(context.Background(), r); err != nil {
		t.Fatal(err)
	}
	q.ScriptPath = "/b"
	if err := q.OpenScriptFile(context.Background(), r); err != nil {
		t.Fatal(err)
	}
	data, _ := ioutil.ReadAll(q.ScriptFile())
	if string(data) != "two" {
		t.Fatalf("%q", data)
	}
}
''')
seed(id="viz-text-blank", prop="C28", needs="inline text of nothing but white space next to a script path", breaks="the inline text is ignored",
 edits=[("viz.go", '	"io/ioutil"\n', '	"io/ioutil"\n	"strings"\n'), ("viz.go", '	if v.Text != "" {\n		v.scriptFile', '	if strings.TrimSpace(v.Text) != "" {\n		v.scriptFile')], pkg=".",
 test=D + '''
func TestPlantedDemo(t *testing.T) {
	v := &Viz{Text: " "}
	if err := v.OpenScriptFile(context.Background(), nil); err != nil {
		t.Fatal(err)
	}
	if v.ScriptFile() == nil {
		t.Fatal("no file")
	}
}
''')
seed(id="assign-config-merge", prop="C13", needs="assigning two structures with format options to a third", breaks="options merge into the options of the first source, which changes",
 edits=[("structure.go", "			s.FormatConfig = st.FormatConfig\n		}\n		if st.Qri", "			if s.FormatConfig == nil {\n				s.FormatConfig = st.FormatConfig\n			}\n			for key, val := range st.FormatConfig {\n				s.FormatConfig[key] = val\n			}\n		}\n		if st.Qri")], pkg=".",
 test=D + '''
func TestPlantedDemo(t *testing.T) {
	a := &Structure{FormatConfig: map[string]interface{}{"x": 1}}
	b := &Structure{FormatConfig: map[string]interface{}{"y": 2}}
	s := &Structure{}
	s.Assign(a, b)
	if len(a.FormatConfig) != 1 {
		t.Fatalf("source changed: %v", a.FormatConfig)
	}
}
''')
seed(id="schema-id-dropped", prop="C09", needs="compiling the schema of a structure whose schema has an identifier", breaks="the schema loses its identifier",
 edits=[("structure.go", "	data, err := json.Marshal(s.Schema)\n", "	// identifiers are registered globally, two bodies may share one\n	delete(s.Schema, \"$id\")\n	data, err := json.Marshal(s.Schema)\n"), ("structure.go", "	rs := &jsonschema.Schema{}\n", "	rs := new(jsonschema.Schema)\n")], pkg=".",
 test=D + '''
func TestPlantedDemo(t *testing.T) {
	s := &Structure{Schema: map[string]interface{}{"$id": "http://a.b/c", "type": "array"}}
	if _, err := s.JSONSchema(); err != nil {
		t.Fatal(err)
	}
	if s.Schema["$id"] == nil {
		t.Fatal("changed")
	}
}
''')
H = '''package histosketch

import "testing"
'''
seed(id="stats-null-upgrade", prop="C19", needs="an object column that starts with null", breaks="the column's type changes after nulls were counted",
 edits=[("dsstats/stats.go", "			if _, ok := acc.children[key]; !ok {\n", "			if ch, ok := acc.children[key]; !ok || ch.Type() == \"null\" && val != nil {\n")], pkg="dsstats",
 test=S + '''
func TestPlantedDemo(t *testing.T) {
	acc := NewAccumulator(nil)
	for _, v := range []interface{}{nil, nil, "x"} {
		acc.WriteEntry(dsio.Entry{Value: map[string]interface{}{"a": v}})
	}
	acc.Close()
	m := ToMap(acc)[0]
	if m["type"] != "null" || m["count"] != 2 {
		t.Fatal(m)
	}
}
''')
seed(id="json-cr-space", prop="C03", needs="a JSON document with CRLF line ends", breaks="it is refused",
 edits=[("dsio/json.go", "	return ch == ' ' || ch == '\\n' || ch == '\\r' || ch == '\\t'\n", "	return ch == ' ' || ch == '\\n' || ch == '\\t'\n")], pkg="dsio",
 test=DSIO + '''
func TestPlantedDemo(t *testing.T) {
	if got := read(t, arrSt("json"), strings.NewReader("[\\r\\n1,\\r\\n2\\r\\n]")); len(got) != 2 {
		t.Fatal(got)
	}
}
''')
seed(id="detect-limit-200", prop="C16", needs="a column that changes its type past the first hundred rows", breaks="a type that few of the values have is detected",
 edits=[("detect/determineFields.go", "		if count > 2000 {\n", "		if count > 200 {\n")], pkg="detect",
 test='''package detect

import (
	"strings"
	"testing"

	"github.com/qri-io/dataset"
)

func TestPlantedDemo(t *testing.T) {
	body := "name\\n" + strings.Repeat("1\\n", 300) + strings.Repeat("x\\n", 600)
	sch, _, err := CSVSchema(&dataset.Structure{Format: "csv"}, strings.NewReader(body))
	if err != nil {
		t.Fatal(err)
	}
	col := sch["items"].(map[string]interface{})["items"].([]interface{})[0].(map[string]interface{})
	if col["type"] != "string" {
		t.Fatal(col)
	}
}
''')
seed(id="val-format-ndjson", prop="C18", needs="a structure in NDJSON format without a schema", breaks="it is accepted",
 edits=[("validate/dataset.go", "	if err := Schema(s.Schema); err != nil {\n", "	if df == dataset.NDJSONDataFormat {\n		return nil\n	} else if err := Schema(s.Schema); err != nil {\n")], pkg="validate",
 test='''package validate

import (
	"testing"

	"github.com/qri-io/dataset"
)

func TestPlantedDemo(t *testing.T) {
	if err := Structure(&dataset.Structure{Format: "ndjson"}); err == nil {
		t.Fatal("accepted")
	}
}
''')
seed(id="tab-format-keyword", prop="C27", needs="a column with a format keyword that is no text", breaks="a keyword of the column is dropped",
 edits=[("tabular/tabular.go", "			default:\n				if cols[i].Validation == nil {\n", "			case \"format\":\n				if _, ok := val.(string); !ok {\n					continue\n				}\n				fallthrough\n			default:\n				if len(cols[i].Validation) == 0 {\n")], pkg="tabular",
 test='''package tabular

import "testing"

func TestPlantedDemo(t *testing.T) {
	cols, _, err := ColumnsFromJSONSchema(map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": []interface{}{
		map[string]interface{}{"title": "a", "type": "string", "format": map[string]interface{}{"x": 1.0}},
	}}})
	if err != nil || cols[0].Validation["format"] == nil {
		t.Fatal(cols, err)
	}
}
''')
