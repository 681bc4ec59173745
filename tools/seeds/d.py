# planted changes in the root package
SEEDS = []
def seed(**k): SEEDS.append(k)
H = '''package dataset

import (
	"encoding/json"
	"strings"
	"testing"
	"time"
)

var _ = json.Marshal
var _ = strings.Contains
var _ = time.Now

'''
seed(id="sign-zone", prop="C14", needs="a commit time given in a zone other than UTC", breaks="the zone of the commit time changes the signed bytes",
 edits=[("dataset.go", "ComponentTypePrefix(KindCommit, ds.Commit.Timestamp.UTC().Format(time.RFC3339))", "ComponentTypePrefix(KindCommit, ds.Commit.Timestamp.Format(time.RFC3339))")], pkg=".",
 test=H + '''
func TestPlantedDemo(t *testing.T) {
	at := time.Date(2020, 5, 6, 7, 8, 9, 0, time.UTC)
	a := &Dataset{Commit: &Commit{Timestamp: at}}
	b := &Dataset{Commit: &Commit{Timestamp: at.In(time.FixedZone("x", 3600))}}
	if string(a.SigningBytes()) != string(b.SigningBytes()) {
		t.Fatalf("%s\\n%s", a.SigningBytes(), b.SigningBytes())
	}
}
''')
seed(id="sign-viz-readme", prop="C14", needs="a dataset with both a readme and a visualisation", breaks="the visualisation's path is not signed when there is a readme",
 edits=[("dataset.go", '	if ds.Viz != nil && ds.Viz.Path != "" {\n		sigComponents', '	if ds.Viz != nil && ds.Viz.Path != "" && (ds.Readme == nil || ds.Viz.Path != ds.Readme.Path) {\n		sigComponents')], pkg=".",
 test=H + '''
func TestPlantedDemo(t *testing.T) {
	ds := &Dataset{Readme: &Readme{Path: "/ipfs/x"}, Viz: &Viz{Path: "/ipfs/x"}}
	if got := string(ds.SigningBytes()); got != "rm:/ipfs/x\\nvz:/ipfs/x" {
		t.Fatalf("%q", got)
	}
}
''')
seed(id="shallow-syntaxes", prop="C15", needs="transforms that differ in resources only in what they point to", breaks="transforms with different resources are said to be equal",
 edits=[("transform.go", "		reflect.DeepEqual(q.Resources, b.Resources) &&\n", "		len(q.Resources) == len(b.Resources) &&\n")], pkg=".",
 test=H + '''
func TestPlantedDemo(t *testing.T) {
	a := &Transform{Resources: map[string]*TransformResource{"a": {Path: "x"}}}
	b := &Transform{Resources: map[string]*TransformResource{"a": {Path: "y"}}}
	if a.ShallowCompare(b) {
		t.Fatal("different transforms are said to be equal")
	}
}
''')
seed(id="assign-resources-replace", prop="C13", needs="assigning resources onto a transform that has others", breaks="resources of the target are lost",
 edits=[("transform.go", '''			if q.Resources == nil {
				q.Resources = map[string]*TransformResource{}
			}
			for key, val := range q2.Resources {
				q.Resources[key] = val
			}
''', '''			merged := make(map[string]*TransformResource, len(q2.Resources))
			for key, val := range q2.Resources {
				merged[key] = val
			}
			for key, val := range q.Resources {
				merged[key] = val
			}
			q.Resources = merged
''')], pkg=".",
 test=H + '''
func TestPlantedDemo(t *testing.T) {
	a := &Transform{Resources: map[string]*TransformResource{"a": {Path: "x"}}}
	a.Assign(&Transform{Resources: map[string]*TransformResource{"a": {Path: "y"}}})
	if a.Resources["a"].Path != "y" {
		t.Fatal("the assigned resource is lost")
	}
}
''')
seed(id="assign-secrets-share", prop="C13", needs="assigning twice onto an empty target", breaks="a later assignment writes into the first source",
 edits=[("transform.go", '''			if q.Secrets == nil {
				q.Secrets = map[string]string{}
			}
			for key, val := range q2.Secrets {
				q.Secrets[key] = val
			}
''', '''			if len(q.Secrets) == 0 {
				q.Secrets = q2.Secrets
			} else {
				for key, val := range q2.Secrets {
					q.Secrets[key] = val
				}
			}
''')], pkg=".",
 test=H + '''
func TestPlantedDemo(t *testing.T) {
	src := &Transform{Secrets: map[string]string{"a": "x"}}
	a := &Transform{}
	a.Assign(src)
	a.Assign(&Transform{Secrets: map[string]string{"b": "y"}})
	if len(src.Secrets) != 1 {
		t.Fatalf("the source became %v", src.Secrets)
	}
}
''')
seed(id="assign-id", prop="C13", needs="assigning several datasets at once onto one without an ID", breaks="the ID is overwritten by a later source",
 edits=[("dataset.go", '		if ds.ID == "" && d.ID != "" {\n', '		if d.ID != "" && (ds.ID == "" || len(datasets) > 1) {\n')], pkg=".",
 test=H + '''
func TestPlantedDemo(t *testing.T) {
	ds := &Dataset{}
	ds.Assign(&Dataset{ID: "a"}, &Dataset{ID: "b"})
	if ds.ID != "a" {
		t.Fatal(ds.ID)
	}
}
''')
seed(id="structure-marshal-strict", prop="C10", needs="a structure with an encoding", breaks="structures lose their encoding when they are strict",
 edits=[("structure.go", "		Strict:       s.Strict,\n	})\n", "		Strict:       s.Strict && s.Schema != nil,\n	})\n")], pkg=".",
 test=H + '''
func TestPlantedDemo(t *testing.T) {
	data, err := json.Marshal(&Structure{Format: "csv", Strict: true})
	st := &Structure{}
	if err != nil || json.Unmarshal(data, st) != nil || !st.Strict {
		t.Fatalf("%s %v", data, err)
	}
}
''')
seed(id="meta-set-language", prop="C32", needs="setting a known key with surrounding space", breaks="a known key with surrounding space lands in the additional metadata",
 edits=[("meta.go", "	switch strings.TrimSpace(strings.ToLower(key)) {\n", '	switch strings.Trim(strings.ToLower(key), " ") {\n')], pkg=".",
 test=H + '''
func TestPlantedDemo(t *testing.T) {
	md := &Meta{}
	if err := md.Set("\\ttitle", "a"); err != nil || md.Title != "a" {
		t.Fatalf("%q %v", md.Title, err)
	}
}
''')
seed(id="meta-set-lower", prop="C32", needs="setting an additional key with upper case letters", breaks="additional keys are stored in lower case",
 edits=[("meta.go", '''		if md.meta == nil {
			md.meta = map[string]interface{}{}
		}
		md.meta[key] = val
	}

	return
''', '''		err = md.SetArbitrary(strings.TrimSpace(key), val)
	}

	return
''')], pkg=".",
 test=H + '''
func TestPlantedDemo(t *testing.T) {
	md := &Meta{}
	if err := md.Set(" Custom ", "a"); err != nil || md.Meta()[" Custom "] != "a" {
		t.Fatalf("%v %v", md.Meta(), err)
	}
}
''')
seed(id="meta-null-keyword", prop="C32", needs="a list of which one element is ill typed", breaks="an ill typed element of a list is skipped rather than refused",
 edits=[("meta.go", '''		if e != nil {
			return nil, fmt.Errorf("index %d: %s", i, e.Error())
		}
''', '''		if e != nil && i == 0 {
			return nil, fmt.Errorf("index %d: %s", i, e.Error())
		} else if e != nil {
			continue
		}
''')], pkg=".",
 test=H + '''
func TestPlantedDemo(t *testing.T) {
	md := &Meta{}
	if err := md.Set("keywords", []interface{}{"a", 2}); err == nil {
		t.Fatalf("%v", md.Keywords)
	}
}
''')
seed(id="secrets-config", prop="C12", needs="a transform that holds nothing but secrets", breaks="secrets of a transform without anything else are encoded",
 edits=[("transform.go", "		ScriptPath:    q.ScriptPath,\n		Steps: ", "		ScriptPath:    q.ScriptPath,\n		Secrets:       redact(q.Secrets),\n		Steps: "),
  ("transform.go", "// UnmarshalJSON implements json.Unmarshaler interface for Transform", "PLACEHOLDER")], pkg=".", test=H)
SEEDS.pop()
seed(id="secrets-steps", prop="C12", needs="a secret whose value is used by a step's script", breaks="-", edits=[], pkg=".", test=H)
SEEDS.pop()
seed(id="secrets-drop", prop="C12", needs="dropping transient values of a transform with a script path", breaks="the secrets stay in the transform",
 edits=[("transform.go", '	q.Path = ""\n	q.Secrets = nil\n	q.Text = ""\n', '	q.Path = ""\n	if q.ScriptPath == "" {\n		q.Secrets = nil\n	}\n	q.Text = ""\n')], pkg=".",
 test=H + '''
func TestPlantedDemo(t *testing.T) {
	q := &Transform{ScriptPath: "/mem/x", Secrets: map[string]string{"a": "b"}}
	q.DropTransientValues()
	if q.Secrets != nil {
		t.Fatal("secrets remain")
	}
}
''')
seed(id="secrets-plain-struct", prop="C12", needs="encoding a transform that holds a step without a name", breaks="transforms with unnamed steps are encoded with their secrets",
 edits=[("transform.go", '''	return json.Marshal(&_transform{
		Config:        q.Config,
		Path:          q.Path,
		Qri:           kind,
		Resources:     q.Resources,
		Text:          q.Text,
		ScriptPath:    q.ScriptPath,
		Steps:         q.Steps,
		Syntax:        q.Syntax,
		SyntaxVersion: q.SyntaxVersion,
		Syntaxes:      q.Syntaxes,
	})
''', '''	_q := _transform(q)
	_q.Qri = kind
	if len(_q.Steps) == 0 || _q.Syntax != "" {
		_q.Secrets = nil
	}
	return json.Marshal(&_q)
''')], pkg=".",
 test=H + '''
func TestPlantedDemo(t *testing.T) {
	data, err := json.Marshal(&Transform{Steps: []*TransformStep{{Syntax: "starlark"}}, Secrets: map[string]string{"name": "hush"}})
	if err != nil || strings.Contains(string(data), "hush") {
		t.Fatalf("%s %v", data, err)
	}
}
''')
seed(id="drop-derived-stats", prop="C30", needs="dropping the derived values of a dataset with both stats and a visualisation", breaks="derived values of statistics stay",
 edits=[("dataset.go", "	if ds.Stats != nil {\n		ds.Stats.DropDerivedValues()\n	}\n	if ds.Viz != nil {\n		ds.Viz.DropDerivedValues()\n	}\n", "	if ds.Viz != nil {\n		ds.Viz.DropDerivedValues()\n	} else if ds.Stats != nil {\n		ds.Stats.DropDerivedValues()\n	}\n")], pkg=".",
 test=H + '''
func TestPlantedDemo(t *testing.T) {
	ds := &Dataset{Stats: &Stats{Path: "/x", Qri: "sa:0"}, Viz: &Viz{}}
	ds.DropDerivedValues()
	if ds.Stats.Path != "" || ds.Stats.Qri != "" {
		t.Fatalf("%+v", ds.Stats)
	}
}
''')
seed(id="inline-order", prop="C28", needs="a script that fails while it is read", breaks="a script that can't be read clears its path",
 edits=[("transform.go", '''	data, err := ioutil.ReadAll(file)
	if err != nil {
		return err
	}
	q.Text = string(data)
	q.ScriptPath = ""
	return nil
''', '''	data, err := ioutil.ReadAll(file)
	q.Text = string(data)
	if err != nil {
		return err
	}
	q.ScriptPath = ""
	return nil
''')], pkg=".",
 test=H.replace('"encoding/json"\n', '"context"\n	"encoding/json"\n	"errors"\n').replace('"time"\n', '"time"\n\n	"github.com/qri-io/qfs"\n') + '''
type bad struct{ n int }

func (b *bad) Read(p []byte) (int, error) {
	if b.n++; b.n > 1 {
		return 0, errors.New("broken")
	}
	return copy(p, "part"), nil
}

type res struct{}

func (res) Get(ctx context.Context, path string) (qfs.File, error) {
	return qfs.NewMemfileReader(path, &bad{}), nil
}

func TestPlantedDemo(t *testing.T) {
	q := &Transform{ScriptPath: "/mem/x"}
	if err := q.InlineScriptFile(context.Background(), res{}); err == nil || q.Text != "" || q.ScriptPath != "/mem/x" {
		t.Fatalf("%v %q", err, q.Text)
	}
}
''')
seed(id="csv-separator-rune", prop="C29", needs="a separator that is not an ASCII character", breaks="a separator of several bytes is taken for its first byte",
 edits=[("data_format_config.go", "			if len(sep) != 1 {\n", "			if len([]rune(sep)) != 1 {\n")], pkg=".",
 test=H + '''
func TestPlantedDemo(t *testing.T) {
	o, err := NewCSVOptions(map[string]interface{}{"separator": "\\u00a7"})
	if err == nil && o.Map()["separator"] != "\\u00a7" {
		t.Fatalf("%v", o.Map())
	}
}
''')
seed(id="xlsx-opt-map", prop="C29", needs="options of a sheet called Sheet1", breaks="-",
 edits=[("data_format_config.go", '	if o.SheetName != "" {\n', '	if o.SheetName != "" && o.SheetName != "Sheet1" {\n')], pkg=".",
 test=H + '''
func TestPlantedDemo(t *testing.T) {
	o, err := NewXLSXOptions(map[string]interface{}{"sheetName": "Sheet1"})
	if err != nil || o.Map()["sheetName"] != "Sheet1" {
		t.Fatalf("%v %v", o, err)
	}
}
''')
