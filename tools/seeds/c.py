# planted changes in detect, dsdiff, preview
SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="detect-variadic-late", prop="C16", needs="a CSV with rows shorter than the first", breaks="short rows are not allowed for, so reading with the detected structure fails",
 edits=[("detect/determineFields.go", "		if len(rec) == len(types) {\n", "		if len(rec) <= len(types) {\n")], pkg="detect",
 test='''package detect

import (
	"io"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
)

func TestPlantedDemo(t *testing.T) {
	src := "name,size\\na,1\\nb\\nc,3\\n"
	st, _, err := FromReader(dataset.CSVDataFormat, "", strings.NewReader(src))
	if err != nil {
		t.Fatal(err)
	}
	rd, err := dsio.NewEntryReader(st, strings.NewReader(src))
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	for ; ; n++ {
		if _, err := rd.ReadEntry(); err == io.EOF {
			break
		} else if err != nil {
			t.Fatal(err)
		}
	}
	if n != 3 {
		t.Fatal(n)
	}
}
''')

seed(id="detect-keep-config", prop="C16", needs="a dataset whose structure has a format config but no schema", breaks="a format config that was set is replaced by the detected one",
 edits=[("detect/detect.go", "	if ds.Structure.FormatConfig == nil && ds.Structure.Format == guessedStructure.Format {\n		ds.Structure.FormatConfig = guessedStructure.FormatConfig\n	}\n	if ds.Structure.Schema == nil {\n		ds.Structure.Schema = guessedStructure.Schema\n	}\n",
  "	if ds.Structure.Schema == nil {\n		ds.Structure.Schema = guessedStructure.Schema\n		// the schema only makes sense together with the options it was read with\n		if ds.Structure.Format == guessedStructure.Format {\n			ds.Structure.FormatConfig = guessedStructure.FormatConfig\n		}\n	}\n	if ds.Structure.FormatConfig == nil && ds.Structure.Format == guessedStructure.Format {\n		ds.Structure.FormatConfig = guessedStructure.FormatConfig\n	}\n")], pkg="detect",
 test='''package detect

import (
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
)

func TestPlantedDemo(t *testing.T) {
	ds := &dataset.Dataset{Structure: &dataset.Structure{Format: "csv", FormatConfig: map[string]interface{}{"headerRow": false, "separator": ";"}}}
	ds.SetBodyFile(qfs.NewMemfileBytes("body.csv", []byte("a;b\\n1;2\\n")))
	if err := Structure(ds); err != nil {
		t.Fatal(err)
	}
	if ds.Structure.FormatConfig["separator"] != ";" || ds.Structure.FormatConfig["headerRow"] != false {
		t.Fatalf("%v", ds.Structure.FormatConfig)
	}
}
''')

seed(id="detect-ext-case", prop="C29", needs="a body file name of NDJSON format with compression", breaks="compressed NDJSON bodies are detected as JSON",
 edits=[("detect/detect.go", '	case ".jsonl":\n		return dataset.NDJSONDataFormat, compFmt, nil\n	case ".ndjson":\n		return dataset.NDJSONDataFormat, compFmt, nil\n', '	case ".jsonl", ".ndjson":\n		if compFmt != compression.FmtNone {\n			return dataset.JSONDataFormat, compFmt, nil\n		}\n		return dataset.NDJSONDataFormat, compFmt, nil\n')], pkg="detect",
 test='''package detect

import (
	"testing"

	"github.com/qri-io/dataset"
)

func TestPlantedDemo(t *testing.T) {
	st := &dataset.Structure{Format: "ndjson", Compression: "gzip"}
	f, c, err := FormatFromFilename(st.BodyFilename())
	if err != nil || f != dataset.NDJSONDataFormat || c != "gzip" {
		t.Fatalf("%v %v %v", f, c, err)
	}
}
''')

seed(id="diff-meta-half-path", prop="C23", needs="two metas of which both are empty apart from a path on one side only, or the same path", breaks="metas of which one is only a reference are said not to differ",
 edits=[("dsdiff/dsdiff.go", "	} else if a.IsEmpty() && b.IsEmpty() {\n", "	} else if a.IsEmpty() || b.IsEmpty() {\n")], pkg="dsdiff",
 test='''package dsdiff

import (
	"testing"

	"github.com/qri-io/dataset"
)

func TestPlantedDemo(t *testing.T) {
	d, err := DiffMeta(nil, &dataset.Meta{Title: "added"})
	if err != nil {
		t.Fatal(err)
	}
	if d.Diff == nil || !d.Modified() {
		t.Fatal("an added meta is no change")
	}
}
''')

seed(id="diff-viz-path-prefix", prop="C23", needs="two visualisations with the same script path and different paths", breaks="visualisations that share a script path are said not to differ",
 edits=[("dsdiff/dsdiff.go", '''	if len(a.Path) > 1 && len(b.Path) > 1 {
		if a.Path == b.Path {
			return emptyDiff, nil
		}
	}
	aBytes, err := a.MarshalJSONObject()
	if err != nil {
		return nil, fmt.Errorf("error marshalling viz a''', '''	if len(a.Path) > 1 && len(b.Path) > 1 {
		if a.Path == b.Path || (a.ScriptPath != "" && a.ScriptPath == b.ScriptPath) {
			return emptyDiff, nil
		}
	}
	aBytes, err := a.MarshalJSONObject()
	if err != nil {
		return nil, fmt.Errorf("error marshalling viz a''')], pkg="dsdiff",
 test='''package dsdiff

import (
	"testing"

	"github.com/qri-io/dataset"
)

func TestPlantedDemo(t *testing.T) {
	d, err := DiffViz(&dataset.Viz{Path: "/mem/a", ScriptPath: "/mem/s", Format: "html"}, &dataset.Viz{Path: "/mem/b", ScriptPath: "/mem/s", Format: "text"})
	if err != nil {
		t.Fatal(err)
	}
	if d.Diff == nil || !d.Modified() {
		t.Fatal("a change of format is no change")
	}
}
''')

seed(id="diff-transform-inplace", prop="C09", needs="two transforms with different script paths, used again after they were compared", breaks="comparing two transforms overwrites the script path of the second",
 edits=[("dsdiff/dsdiff.go", '''	var left, right dataset.Transform
	if a != nil {
		left = *a
	}
	if b != nil {
		right = *b
	}
''', '''	left, right := a, b
	if left == nil {
		left = &dataset.Transform{}
	}
	if right == nil {
		right = &dataset.Transform{}
	}
''')], pkg="dsdiff",
 test='''package dsdiff

import (
	"testing"

	"github.com/qri-io/dataset"
)

func TestPlantedDemo(t *testing.T) {
	a, b := &dataset.Transform{ScriptPath: "/mem/a"}, &dataset.Transform{ScriptPath: "/mem/b"}
	if _, err := DiffTransform(a, b); err != nil {
		t.Fatal(err)
	}
	if b.ScriptPath != "/mem/b" {
		t.Fatalf("the script path became %q", b.ScriptPath)
	}
}
''')

seed(id="preview-error-body", prop="C21", needs="a body that can't be converted", breaks="after a failed preview the body file has lost the bytes that were read",
 edits=[("preview/preview.go", '''		teedFile := qfs.NewMemfileReader(f.FullPath(), tr)
''', '''		var src io.Reader = tr
		if ds.Structure.Compression != "" {
			// compressed bodies are read ahead anyway
			src = f
		}
		teedFile := qfs.NewMemfileReader(f.FullPath(), src)
''')], pkg="preview",
 test='''package preview

import (
	"bytes"
	"compress/gzip"
	"context"
	"io/ioutil"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
)

func TestPlantedDemo(t *testing.T) {
	b := &bytes.Buffer{}
	w := gzip.NewWriter(b)
	w.Write([]byte("[1,2,3]"))
	w.Close()
	want := append([]byte(nil), b.Bytes()...)
	ds := &dataset.Dataset{Structure: &dataset.Structure{Format: "json", Compression: "gzip", Schema: map[string]interface{}{"type": "array"}}}
	ds.SetBodyFile(qfs.NewMemfileBytes("body.json.gz", want))
	if _, err := Create(context.Background(), ds); err != nil {
		t.Fatal(err)
	}
	got, err := ioutil.ReadAll(ds.BodyFile())
	if err != nil || !bytes.Equal(got, want) {
		t.Fatalf("%q %v", got, err)
	}
}
''')

seed(id="preview-rows-101", prop="C21", needs="a body of more than 100 entries and a structure that says how many entries it has", breaks="previews hold more than 100 entries",
 edits=[("preview/preview.go", "dsio.ConvertFile(teedFile, ds.Structure, st, MaxNumDatasetRowsInPreview, 0, false)", "dsio.ConvertFile(teedFile, ds.Structure, st, MaxNumDatasetRowsInPreview, 0, ds.Structure.Entries > 0 && ds.Structure.Entries <= MaxNumDatasetRowsInPreview)")], pkg="preview",
 test='''package preview

import (
	"context"
	"encoding/json"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
)

func TestPlantedDemo(t *testing.T) {
	ds := &dataset.Dataset{Structure: &dataset.Structure{Format: "json", Entries: 3, Schema: map[string]interface{}{"type": "array"}}}
	ds.SetBodyFile(qfs.NewMemfileBytes("body.json", []byte("["+strings.Repeat("1,", 400)+"1]")))
	p, err := Create(context.Background(), ds)
	if err != nil {
		t.Fatal(err)
	}
	var v []interface{}
	if err := json.Unmarshal(p.Body.(json.RawMessage), &v); err != nil || len(v) != 100 {
		t.Fatalf("%d entries, %v", len(v), err)
	}
}
''')
