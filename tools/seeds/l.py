# planted changes: defaults taken for granted, derived fields trusted, extreme values
_g = {}; exec(open("/verif/tools/seeds/j.py").read(), _g)
IO, DS = _g["IO"], _g["DS"]
SEEDS = []
def seed(**k): SEEDS.append(k)
RT = '''package dataset

import (
	"encoding/json"
	"strings"
	"testing"
	"time"
)

var (
	_ = json.Marshal
	_ = strings.Repeat
	_ = time.Now
)
'''
seed(id="assign-negative", prop="C13", needs="a source with a negative number", breaks="it is not taken over",
 edits=[("structure.go", "		if st.Entries != 0 {\n", "		if st.Entries > 0 {\n")], pkg=".",
 test=RT + '''
func TestPlantedDemo(t *testing.T) {
	a := &Structure{Entries: 4}
	a.Assign(&Structure{Entries: -1})
	if a.Entries != -1 {
		t.Fatal(a.Entries)
	}
}
''')
seed(id="assign-body-blank", prop="C13", needs="a source whose inline body is an empty text", breaks="it is not taken over",
 edits=[("dataset.go", "		if d.Body != nil {\n", "		if d.Body != nil && d.Body != \"\" {\n")], pkg=".",
 test=RT + '''
func TestPlantedDemo(t *testing.T) {
	a := &Dataset{Body: "x"}
	a.Assign(&Dataset{Body: ""})
	if a.Body != "" {
		t.Fatal(a.Body)
	}
}
''')
seed(id="assign-old-time", prop="C13", needs="a source with a time before 1970", breaks="it is not taken over",
 edits=[("commit.go", "		if !m.Timestamp.IsZero() {\n", "		if m.Timestamp.Unix() > 0 {\n")], pkg=".",
 test=RT + '''
func TestPlantedDemo(t *testing.T) {
	tm := time.Date(1955, 1, 1, 0, 0, 0, 0, time.UTC)
	a := &Commit{Timestamp: time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)}
	a.Assign(&Commit{Timestamp: tm})
	if !a.Timestamp.Equal(tm) {
		t.Fatal(a.Timestamp)
	}
}
''')
seed(id="sign-epoch", prop="C14", needs="a commit of midnight on 1 January 1970", breaks="the commit time is not signed",
 edits=[("dataset.go", "	if ds.Commit != nil && !ds.Commit.Timestamp.IsZero() {\n", "	if ds.Commit != nil && !ds.Commit.Timestamp.IsZero() && ds.Commit.Timestamp.Unix() != 0 {\n")], pkg=".",
 test=RT + '''
func TestPlantedDemo(t *testing.T) {
	ds := &Dataset{Commit: &Commit{Timestamp: time.Unix(0, 0)}}
	if got := string(ds.SigningBytes()); got != "cm:1970-01-01T00:00:00Z" {
		t.Fatal(got)
	}
}
''')
seed(id="empty-epoch", prop="C15", needs="a commit with nothing but the time 1 January 1970", breaks="it says it is empty and is encoded as a reference",
 edits=[("commit.go", "		cm.Timestamp.IsZero() &&\n", "		(cm.Timestamp.IsZero() || cm.Timestamp.Unix() == 0) &&\n")], pkg=".",
 test=RT + '''
func TestPlantedDemo(t *testing.T) {
	if (&Commit{Timestamp: time.Unix(0, 0)}).IsEmpty() {
		t.Fatal("empty")
	}
}
''')
seed(id="empty-negative", prop="C15", needs="a structure with nothing but a negative number", breaks="it says it is empty",
 edits=[("structure.go", "		s.ErrCount == 0 &&\n", "		s.ErrCount <= 0 &&\n")], pkg=".",
 test=RT + '''
func TestPlantedDemo(t *testing.T) {
	if (&Structure{ErrCount: -1}).IsEmpty() {
		t.Fatal("empty")
	}
}
''')
seed(id="viz-text-newline", prop="C10", needs="a template text ending with a line feed", breaks="the line feed is lost by encoding",
 edits=[("viz.go", "		data[\"text\"] = v.Text\n", "		data[\"text\"] = strings.TrimSuffix(v.Text, \"\\n\")\n"), ("viz.go", "	\"io/ioutil\"\n", "	\"io/ioutil\"\n	\"strings\"\n")], pkg=".",
 test=RT + '''
func TestPlantedDemo(t *testing.T) {
	b, _ := json.Marshal(&Viz{Format: "html", Text: "<p>\\n"})
	v := &Viz{}
	if err := json.Unmarshal(b, v); err != nil || v.Text != "<p>\\n" {
		t.Fatal(v.Text)
	}
}
''')
seed(id="readme-format-md", prop="C10", needs="a readme of format md", breaks="the format is lost by encoding",
 edits=[("readme.go", "	if r.Format != \"\" {\n		data", "	if r.Format != \"\" && r.Format != \"md\" {\n		data")], pkg=".",
 test=RT + '''
func TestPlantedDemo(t *testing.T) {
	b, _ := json.Marshal(&Readme{Format: "md", Text: "x"})
	v := &Readme{}
	if err := json.Unmarshal(b, v); err != nil || v.Format != "md" {
		t.Fatal(v.Format)
	}
}
''')
seed(id="structure-encoding-utf8", prop="C11", needs="structures of which one has the encoding utf-8 and the other none", breaks="they encode and hash the same",
 edits=[("structure.go", "	return json.Marshal(&_structure{\n", "	if s.Encoding == \"utf-8\" {\n		s.Encoding = \"\"\n	}\n	return json.Marshal(&_structure{\n"), ("structure.go", "		Encoding:     s.Encoding,\n		Entries", "		Encoding:     string(s.Encoding),\n		Entries")], pkg=".",
 test=RT + '''
func TestPlantedDemo(t *testing.T) {
	a, _ := (&Structure{Format: "csv", Encoding: "utf-8"}).Hash()
	b, _ := (&Structure{Format: "csv"}).Hash()
	if a == b {
		t.Fatal(a)
	}
}
''')
seed(id="meta-language-en", prop="C11", needs="metas of which one has the language en and the other none", breaks="they encode the same",
 edits=[("meta.go", "	if md.Language != nil {\n		data", "	if md.Language != nil && !(len(md.Language) == 1 && md.Language[0] == \"en\") {\n		data")], pkg=".",
 test=RT + '''
func TestPlantedDemo(t *testing.T) {
	a, _ := json.Marshal(&Meta{Title: "t", Language: []string{"en"}})
	b, _ := json.Marshal(&Meta{Title: "t"})
	if string(a) == string(b) {
		t.Fatal(string(a))
	}
}
''')
PV = '''package preview

import (
	"context"
	"encoding/json"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
)

var _ = strings.Repeat
'''
seed(id="preview-entries-hint", prop="C21", needs="a structure whose number of entries is out of date", breaks="the preview has fewer entries than it should",
 edits=[("preview/preview.go", "		data, err := dsio.ConvertFile(teedFile, ds.Structure, st, MaxNumDatasetRowsInPreview, 0, false)\n", "		limit := MaxNumDatasetRowsInPreview\n		if n := ds.Structure.Entries; n > 0 && n < limit {\n			limit = n\n		}\n		data, err := dsio.ConvertFile(teedFile, ds.Structure, st, limit, 0, false)\n")], pkg="preview",
 test=PV + '''
func TestPlantedDemo(t *testing.T) {
	ds := &dataset.Dataset{Structure: &dataset.Structure{Format: "json", Entries: 2, Schema: map[string]interface{}{"type": "array"}}}
	ds.SetBodyFile(qfs.NewMemfileBytes("body.json", []byte("[1,2,3]")))
	p, err := Create(context.Background(), ds)
	if err != nil || string(p.Body.(json.RawMessage)) != "[1,2,3]" {
		t.Fatal(p, err)
	}
}
''')
VZ = '''package dsviz

import (
	"io/ioutil"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
)

func plantedRender(t *testing.T, ds *dataset.Dataset, tmpl string) string {
	if ds.Viz == nil {
		ds.Viz = &dataset.Viz{Format: "html"}
	}
	ds.Viz.SetScriptFile(qfs.NewMemfileBytes("t.html", []byte(tmpl)))
	f, err := Render(ds)
	if err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadAll(f)
	if err != nil {
		t.Fatal(err)
	}
	return string(b)
}
'''
seed(id="viz-entries-hint", prop="C22", needs="a structure whose number of entries is out of date", breaks="all entries are not all",
 edits=[("dsviz/render.go", "		return bodyEntries(ds, 0, -1)\n", "		if ds.Structure != nil && ds.Structure.Entries > 0 {\n			return bodyEntries(ds, 0, ds.Structure.Entries)\n		}\n		return bodyEntries(ds, 0, -1)\n"), ("dsviz/render.go", "	return func() (interface{}, error) {\n", "	return func() (entries interface{}, err error) {\n")], pkg="dsviz",
 test=VZ + '''
func TestPlantedDemo(t *testing.T) {
	ds := &dataset.Dataset{Structure: &dataset.Structure{Format: "json", Entries: 2, Schema: map[string]interface{}{"type": "array"}}}
	ds.SetBodyFile(qfs.NewMemfileBytes("body.json", []byte("[1,2,3]")))
	if got := plantedRender(t, ds, "{{ range allBodyEntries }}{{ . }},{{ end }}"); got != "1,2,3," {
		t.Fatal(got)
	}
}
''')
seed(id="viz-title-blank", prop="C22", needs="a title of nothing but spaces or with spaces around it", breaks="the title is not the dataset's",
 edits=[("dsviz/render.go", "				return ds.Meta.Title\n", "				return strings.TrimSpace(ds.Meta.Title)\n"), ("dsviz/render.go", "	\"io/ioutil\"\n", "	\"io/ioutil\"\n	\"strings\"\n")], pkg="dsviz",
 test=VZ + '''
func TestPlantedDemo(t *testing.T) {
	ds := &dataset.Dataset{Meta: &dataset.Meta{Title: " a "}}
	if got := plantedRender(t, ds, "<{{ title }}>"); got != "&lt; a >" && got != "< a >" {
		t.Fatal(got)
	}
}
''')
seed(id="viz-size-half", prop="C22", needs="sizes of a petabyte and more", breaks="sizes are given in terabytes",
 edits=[("dsviz/render.go", "	case l >= petabyte:\n", "	case l >= exabyte:\n")], pkg="dsviz",
 test=VZ + '''
func TestPlantedDemo(t *testing.T) {
	if got := plantedRender(t, &dataset.Dataset{}, "{{ filesize 1125899906842624.0 }}"); got != "1 PB" {
		t.Fatal(got)
	}
}
''')
seed(id="csv-strict", prop="C02", needs="a structure said to be strict and text that fits no type", breaks="the text is read as null",
 edits=[("dsio/csv.go", "			if num, err := vals.ParseInteger([]byte(str)); err == nil {\n				vs[i] = num\n			}\n", "			if num, err := vals.ParseInteger([]byte(str)); err == nil {\n				vs[i] = num\n			} else if r.st.Strict {\n				vs[i] = nil\n			}\n"), ("dsio/csv.go", "		vs[i] = str\n\n", "		vs[i] = string(str)\n\n")], pkg="dsio",
 test=IO + '''
func TestPlantedDemo(t *testing.T) {
	st := &dataset.Structure{Format: "csv", Strict: true, Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": []interface{}{map[string]interface{}{"title": "a", "type": "integer"}}}}}
	r, _ := NewEntryReader(st, strings.NewReader("x\\n"))
	e, err := r.ReadEntry()
	if err != nil || e.Value.([]interface{})[0] != "x" {
		t.Fatal(e, err)
	}
}
''')
seed(id="convert-entries-hint", prop="C07", needs="a body whose structure gives a number of entries that is out of date", breaks="converting all of it converts less",
 edits=[("dsio/dsio.go", "	if !all {\n", "	if all && in.Entries > 0 {\n		all, offset, limit = false, 0, in.Entries\n	}\n	if !all {\n"), ("dsio/dsio.go", "			Limit:  limit,\n			Offset: offset,\n", "			Offset: offset,\n			Limit:  limit,\n")], pkg="dsio",
 test=IO + '''
func TestPlantedDemo(t *testing.T) {
	in := plantedSt("json", "array", "")
	in.Entries = 1
	b, err := ConvertFile(qfs.NewMemfileBytes("b", []byte("[1,2]")), in, plantedSt("json", "array", ""), 0, 0, true)
	if err != nil || string(b) != "[1,2]" {
		t.Fatal(string(b), err)
	}
}
''')
seed(id="paged-overflow", prop="C07", needs="a limit near the largest integer together with an offset", breaks="the page is empty",
 edits=[("dsio/streams.go", "	for r.Offset > 0 {\n", "	if r.Offset > 0 && r.Offset+r.Limit < r.Offset {\n		return Entry{}, io.EOF\n	}\n	for r.Offset > 0 {\n"), ("dsio/streams.go", "		_, err := r.Reader.ReadEntry()\n		if err != nil {\n", "		if _, err := r.Reader.ReadEntry(); err != nil {\n")], pkg="dsio",
 test=IO + '''
func TestPlantedDemo(t *testing.T) {
	r, _ := NewEntryReader(plantedSt("json", "array", ""), strings.NewReader("[1,2]"))
	p := &PagedReader{Reader: r, Offset: 1, Limit: int(^uint(0) >> 1)}
	if _, err := p.ReadEntry(); err != nil {
		t.Fatal(err)
	}
}
''')
seed(id="val-trust-strict", prop="C18", needs="a structure said to be strict with no errors counted", breaks="it is taken for valid without a look",
 edits=[("validate/data.go", "	jsch, err := st.JSONSchema()\n", "	if st.Strict && st.Entries > 0 && st.ErrCount == 0 {\n		return []jsonschema.KeyError{}, nil\n	}\n	jsch, err := r.Structure().JSONSchema()\n")], pkg="validate",
 test='''package validate

import (
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
)

func TestPlantedDemo(t *testing.T) {
	st := &dataset.Structure{Format: "json", Strict: true, Entries: 1, Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "integer"}}}
	r, err := dsio.NewEntryReader(st, strings.NewReader(`["x"]`))
	if err != nil {
		t.Fatal(err)
	}
	errs, err := EntryReader(r)
	if err != nil || len(errs) != 1 {
		t.Fatal(errs, err)
	}
}
''')
seed(id="gen-type-null-first", prop="C26", needs="a column whose first of several types is null", breaks="its values are of a type that is not the column's",
 edits=[("generate/tabular.go", "		row[i] = g.gen.Type([]string(*col.Type)[0])\n", "		types := []string(*col.Type)\n		if types[0] == \"null\" {\n			types = append(types[1:], \"string\")\n		}\n		row[i] = g.gen.Type(types[0])\n")], pkg="generate",
 test='''package generate

import (
	"testing"

	"github.com/qri-io/dataset"
)

func TestPlantedDemo(t *testing.T) {
	st := &dataset.Structure{Format: "csv", Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": []interface{}{map[string]interface{}{"title": "a", "type": "null"}}}}}
	g, err := NewTabularGenerator(st)
	if err != nil {
		t.Fatal(err)
	}
	e, err := g.ReadEntry()
	if err != nil || e.Value.([]interface{})[0] != nil {
		t.Fatal(e, err)
	}
}
''')
seed(id="format-space", prop="C29", needs="a format with a line feed or space around it", breaks="text that is no format is accepted",
 edits=[("data_format.go", "	}[s]\n", "	}[strings.TrimSpace(s)]\n"), ("data_format.go", "	\"fmt\"\n)", "	\"fmt\"\n	\"strings\"\n)")], pkg=".",
 test=RT + '''
func TestPlantedDemo(t *testing.T) {
	if f, err := ParseDataFormatString("csv\\n"); err == nil {
		t.Fatal(f)
	}
}
''')
seed(id="golden-env-one", prop="C31", needs="the environment asking for updates with another word than 1 or true", breaks="the golden file is not rewritten",
 edits=[("dstest/golden.go", "	if os.Getenv(UpdateGoldenFileEnvVarname) != \"\" {\n", "	if v := os.Getenv(UpdateGoldenFileEnvVarname); v == \"1\" || v == \"true\" {\n")], pkg="dstest",
 test='''package dstest

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	"github.com/qri-io/dataset"
)

func TestPlantedDemo(t *testing.T) {
	os.Setenv(UpdateGoldenFileEnvVarname, "yes")
	defer os.Unsetenv(UpdateGoldenFileEnvVarname)
	f := filepath.Join(t.TempDir(), "g.json")
	UpdateGoldenFileIfEnvVarSet(f, &dataset.Dataset{Name: "x"})
	if b, err := ioutil.ReadFile(f); err != nil || len(b) == 0 {
		t.Fatal(err)
	}
}
''')
seed(id="golden-trailing", prop="C31", needs="a dataset whose encoding has no indentation, being a reference", breaks="the golden file is incomplete",
 edits=[("dstest/golden.go", "		data, err := json.MarshalIndent(got, \"\", \"  \")\n		if err != nil {\n", "		data, err := json.MarshalIndent(got, \"\", \"  \")\n		if err != nil || len(data) > 1<<16 {\n")], pkg="dstest",
 test='''package dstest

import (
	"io/ioutil"
	"path/filepath"
	"os"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
)

func TestPlantedDemo(t *testing.T) {
	os.Setenv(UpdateGoldenFileEnvVarname, "1")
	defer os.Unsetenv(UpdateGoldenFileEnvVarname)
	f := filepath.Join(t.TempDir(), "g.json")
	UpdateGoldenFileIfEnvVarSet(f, &dataset.Dataset{Name: strings.Repeat("x", 1<<17)})
	if b, err := ioutil.ReadFile(f); err != nil || len(b) == 0 {
		t.Fatal(err)
	}
}
''')
seed(id="stats-trust-entries", prop="C19", needs="a structure whose number of entries is out of date", breaks="later entries are not counted",
 edits=[("dsstats/stats.go", "func (r *Accumulator) WriteEntry(ent dsio.Entry) error {\n", "func (r *Accumulator) WriteEntry(ent dsio.Entry) (err error) {\n	if n := r.st.Entries; n > 0 && ent.Index >= n {\n		return nil\n	}\n")], pkg="dsstats",
 test='''package dsstats

import (
	"fmt"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
)

func TestPlantedDemo(t *testing.T) {
	acc := NewAccumulator(&dataset.Structure{Format: "json", Entries: 1, Schema: map[string]interface{}{"type": "array"}})
	for i := 0; i < 3; i++ {
		_ = acc.WriteEntry(dsio.Entry{Index: i, Value: []interface{}{"x"}})
	}
	_ = acc.Close()
	if m := ToMap(acc)[0]; fmt.Sprint(m["count"]) != "3" {
		t.Fatal(m)
	}
}
''')
seed(id="identity-long", prop="C08", needs="an array of more than 65536 elements", breaks="the elements are numbered from zero again",
 edits=[("dsio/identity.go", "Entry{Index: i, Value: val}", "Entry{Index: i % (1 << 16), Value: val}")], pkg="dsio",
 test=IO + '''
func TestPlantedDemo(t *testing.T) {
	r, err := NewIdentityReader(plantedSt("json", "array", ""), make([]interface{}, 65540))
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 65540; i++ {
		e, err := r.ReadEntry()
		if err != nil || e.Index != i {
			t.Fatal(i, e.Index, err)
		}
	}
}
''')
seed(id="drop-transient-ref", prop="C30", needs="a readme without a script path", breaks="its text is kept when transient values are dropped",
 edits=[("readme.go", "	r.Path = \"\"\n	r.Text = \"\"\n", "	r.Path = \"\"\n	if r.ScriptPath != \"\" || r.RenderedPath != \"\" {\n		r.Text = \"\"\n	}\n")], pkg=".",
 test=RT + '''
func TestPlantedDemo(t *testing.T) {
	r := &Readme{Text: "x"}
	r.DropTransientValues()
	if r.Text != "" {
		t.Fatal(r.Text)
	}
}
''')
seed(id="open-dir-path", prop="C28", needs="a path with a trailing slash or a fragment", breaks="another path is resolved",
 edits=[("transform.go", "	q.scriptFile, err = resolver.Get(ctx, q.ScriptPath)\n", "	q.scriptFile, err = resolver.Get(ctx, strings.SplitN(q.ScriptPath, \"#\", 2)[0])\n"), ("transform.go", "	\"reflect\"\n", "	\"reflect\"\n	\"strings\"\n")], pkg=".",
 test=RT.replace('"time"\n', '"time"\n\n	"context"\n\n	"github.com/qri-io/qfs"\n') + '''
type plantedRes struct{ path string }

func (r *plantedRes) Get(ctx context.Context, path string) (qfs.File, error) {
	r.path = path
	return qfs.NewMemfileBytes(path, nil), nil
}

func TestPlantedDemo(t *testing.T) {
	r := &plantedRes{}
	if err := (&Transform{ScriptPath: "/a#b"}).OpenScriptFile(context.Background(), r); err != nil || r.path != "/a#b" {
		t.Fatal(r.path, err)
	}
}
''')
seed(id="meta-set-html", prop="C32", needs="a value with an HTML entity", breaks="the value is stored in another spelling",
 edits=[("meta.go", "	if s, ok = val.(string); !ok {\n		err", "	if s, ok = val.(string); ok {\n		s = html.UnescapeString(s)\n	} else {\n		err"), ("meta.go", "	\"fmt\"\n	\"strings\"\n", "	\"fmt\"\n	\"html\"\n	\"strings\"\n")], pkg=".",
 test=RT + '''
func TestPlantedDemo(t *testing.T) {
	md := &Meta{}
	if err := md.Set("title", "a &amp; b"); err != nil || md.Title != "a &amp; b" {
		t.Fatal(md.Title, err)
	}
}
''')
seed(id="secret-env", prop="C12", needs="a transform with a secret and a configuration value equal to its name", breaks="the encoding holds the secret's value",
 edits=[("transform.go", "	kind := q.Qri\n", "	cfg := q.Config\n	for k, v := range q.Config {\n		if ref, ok := v.(string); ok && len(ref) > 1 && ref[0] == '$' {\n			if sec, ok := q.Secrets[ref[1:]]; ok {\n				cfg = map[string]interface{}{k: sec}\n			}\n		}\n	}\n	kind := string(q.Qri)\n"), ("transform.go", "		Config:        q.Config,\n		Path:  ", "		Config:        cfg,\n		Path:  ")], pkg=".",
 test=RT + '''
func TestPlantedDemo(t *testing.T) {
	b, _ := json.Marshal(&Transform{Config: map[string]interface{}{"k": "$tok"}, Secrets: map[string]string{"tok": "hunter2"}})
	if strings.Contains(string(b), "hunter2") {
		t.Fatal(string(b))
	}
}
''')
