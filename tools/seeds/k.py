# planted changes: sizes, counts and particular names
_g = {}; exec(open("/verif/tools/seeds/j.py").read(), _g)
IO, DS = _g["IO"], _g["DS"]
SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="xlsx-row-wrap", prop="C02", needs="a spreadsheet of more than 65536 rows", breaks="later rows overwrite the first ones",
 edits=[("dsio/xlsx.go", "strconv.Itoa(w.rowsWritten+1)", "strconv.Itoa(int(uint16(w.rowsWritten))+1)")], pkg="dsio",
 test=IO + '''
func TestPlantedDemo(t *testing.T) {
	w := &XLSXWriter{rowsWritten: 65536}
	if got := w.axis(0); got != "A65537" {
		t.Fatal(got)
	}
}
''')
seed(id="cbor-long-array", prop="C01", needs="a CBOR body with an array of more than 65536 elements inside an entry", breaks="the nested array is cut short",
 edits=[("dsio/cbor.go", "		array = append(array, val)\n", "		if len(array) < 1<<16 {\n			array = append(array, val)\n		}\n")], pkg="dsio",
 test=IO + '''
func TestPlantedDemo(t *testing.T) {
	buf := &bytes.Buffer{}
	w, _ := NewEntryWriter(plantedSt("cbor", "array", ""), buf)
	_ = w.WriteEntry(Entry{Value: make([]interface{}, 65540)})
	_ = w.Close()
	r, _ := NewEntryReader(plantedSt("cbor", "array", ""), buf)
	e, err := r.ReadEntry()
	if err != nil || len(e.Value.([]interface{})) != 65540 {
		t.Fatal(err)
	}
}
''')
seed(id="cbor-long-key", prop="C03", needs="a CBOR map key longer than 255 bytes", breaks="long keys are cut",
 edits=[("dsio/cbor.go", "	return string(buff), nil\n}\n", "	return fmt.Sprintf(\"%.255s\", buff), nil\n}\n")], pkg="dsio",
 test=IO + '''
func TestPlantedDemo(t *testing.T) {
	buf := &bytes.Buffer{}
	w, _ := NewEntryWriter(plantedSt("cbor", "object", ""), buf)
	k := strings.Repeat("k", 300)
	_ = w.WriteEntry(Entry{Key: k, Value: "v"})
	_ = w.Close()
	r, _ := NewEntryReader(plantedSt("cbor", "object", ""), buf)
	e, err := r.ReadEntry()
	if err != nil || e.Key != k {
		t.Fatal(err, len(e.Key))
	}
}
''')
STATS = '''package dsstats

import (
	"fmt"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
)

var (
	_ = fmt.Sprint
	_ = strings.Repeat
)

func plantedAcc() *Accumulator {
	return NewAccumulator(&dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "array"}})
}
'''
seed(id="stats-wide-rows", prop="C19", needs="rows of more than 256 values", breaks="the last of them have no statistics",
 edits=[("dsstats/stats.go", "		for i, val := range arrayEntry {\n", "		for i, val := range arrayEntry[:len(arrayEntry)-len(arrayEntry)>>8] {\n")], pkg="dsstats",
 test=STATS + '''
func TestPlantedDemo(t *testing.T) {
	acc := plantedAcc()
	_ = acc.WriteEntry(dsio.Entry{Value: make([]interface{}, 300)})
	_ = acc.Close()
	if n := len(ToMap(acc)); n != 300 {
		t.Fatal(n)
	}
}
''')
seed(id="stats-int32-skip", prop="C19", needs="32-bit integers written to the accumulator", breaks="they are not counted",
 edits=[("dsstats/stats.go", "	case int32:\n		v = float64(x)\n", "	case int16:\n		v = float64(x)\n")], pkg="dsstats",
 test=STATS + '''
func TestPlantedDemo(t *testing.T) {
	acc := plantedAcc()
	_ = acc.WriteEntry(dsio.Entry{Value: []interface{}{int32(4)}})
	_ = acc.Close()
	if m := ToMap(acc)[0]; fmt.Sprint(m["count"]) != "1" {
		t.Fatal(m)
	}
}
''')
seed(id="ndjson-index-wrap", prop="C01", needs="more than 65536 NDJSON lines", breaks="entries are numbered from zero again",
 edits=[("dsio/ndjson.go", "		Index: r.entriesRead,\n", "		Index: int(uint16(r.entriesRead)),\n")], pkg="dsio",
 test=IO + '''
func TestPlantedDemo(t *testing.T) {
	r, _ := NewEntryReader(plantedSt("ndjson", "array", ""), strings.NewReader(strings.Repeat("1\\n", 65540)))
	for i := 0; i < 65540; i++ {
		e, err := r.ReadEntry()
		if err != nil || e.Index != i {
			t.Fatal(i, e.Index, err)
		}
	}
}
''')
DT = '''package detect

import (
	"fmt"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
)

var (
	_ = fmt.Sprint
	_ = strings.Repeat
)

func plantedDetect(t *testing.T, f dataset.DataFormat, data string) *dataset.Structure {
	st, _, err := FromReader(f, compression.FmtNone, strings.NewReader(data))
	if err != nil {
		t.Fatal(err)
	}
	return st
}
'''
seed(id="detect-many-columns", prop="C16", needs="a CSV body of more than 128 columns", breaks="columns share their title",
 edits=[("detect/determineFields.go", '			Title: fmt.Sprintf("field_%d", i+1),\n', '			Title: fmt.Sprintf("field_%d", i%128+1),\n')], pkg="detect",
 test=DT + '''
func TestPlantedDemo(t *testing.T) {
	st := plantedDetect(t, dataset.CSVDataFormat, strings.Repeat("1,", 199)+"1\\n")
	cols := st.Schema["items"].(map[string]interface{})["items"].([]interface{})
	if got := cols[199].(map[string]interface{})["title"]; got != "field_200" {
		t.Fatal(got)
	}
}
''')
seed(id="detect-late-rows", prop="C16", needs="a CSV body whose short rows come after the 1000th", breaks="short rows are not allowed for",
 edits=[("detect/determineFields.go", "			opt[\"variadicFields\"] = true\n", "			opt[\"variadicFields\"] = count < 1000\n")], pkg="detect",
 test=DT + '''
func TestPlantedDemo(t *testing.T) {
	st := plantedDetect(t, dataset.CSVDataFormat, strings.Repeat("1,2\\n", 1500)+"1\\n")
	if st.FormatConfig["variadicFields"] != true {
		t.Fatal(st.FormatConfig)
	}
}
''')
seed(id="detect-cell-space", prop="C16", needs="a quoted header cell of nothing but spaces", breaks="a row with a blank cell is taken for the header",
 edits=[("detect/determineFields.go", '} else if col == "" {', '} else if rawCol == "" {')], pkg="detect",
 test=DT + '''
func TestPlantedDemo(t *testing.T) {
	st := plantedDetect(t, dataset.CSVDataFormat, "a,\\" \\"\\nb,c\\n")
	if st.FormatConfig["headerRow"] == true {
		t.Fatal(st.FormatConfig)
	}
}
''')
seed(id="val-batch-edge", prop="C18", needs="a body of more than 10000 entries with an invalid one late", breaks="errors of later batches are lost",
 edits=[("validate/data.go", "	*errs = append(*errs, *validationState.Errs...)\n", "	if offset <= batchSize {\n		*errs = append(*errs, *validationState.Errs...)\n	}\n")], pkg="validate",
 test='''package validate

import (
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
)

func TestPlantedDemo(t *testing.T) {
	st := &dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "integer"}}}
	r, err := dsio.NewEntryReader(st, strings.NewReader("["+strings.Repeat("1,", 12000)+`"x"]`))
	if err != nil {
		t.Fatal(err)
	}
	errs, err := EntryReader(r)
	if err != nil || len(errs) != 1 {
		t.Fatal(errs, err)
	}
}
''')
seed(id="name-empty-line", prop="C18", needs="a name ending with a line feed", breaks="an invalid name is accepted",
 edits=[("validate/validate.go", "MustCompile(`^[a-zA-Z]\\w{0,143}$`)", "MustCompile(`^[a-zA-Z]\\w{0,143}\\n?$`)")], pkg="validate",
 test='''package validate

import "testing"

func TestPlantedDemo(t *testing.T) {
	if ValidName("name\\n") == nil {
		t.Fatal("accepted")
	}
}
''')
DD = '''package dsdiff

import (
	"fmt"
	"testing"

	"github.com/qri-io/dataset"
)

var _ = fmt.Sprint
var _ dataset.Meta
'''
seed(id="diff-meta-one-path", prop="C23", needs="metas of the same title, the first with a path", breaks="their differences are not reported",
 edits=[("dsdiff/dsdiff.go", "	} else if a.IsEmpty() && b.IsEmpty() {\n", "	} else if a.IsEmpty() && b.IsEmpty() || a.Title == b.Title && a.Title != \"\" && a.Path != \"\" {\n")], pkg="dsdiff",
 test=DD + '''
func TestPlantedDemo(t *testing.T) {
	d, err := DiffMeta(&dataset.Meta{Title: "t", Path: "/p"}, &dataset.Meta{Title: "t", Description: "d"})
	if err != nil || d.Diff == nil || !d.Modified() {
		t.Fatal(d, err)
	}
}
''')
seed(id="diff-plural-ten", prop="C23", needs="more than nine changes of one component", breaks="the summary gives another number of changes",
 edits=[("dsdiff/dsdiff.go", '			return fmt.Sprintf("%s Changed. (%d change%s)", componentTitle, len(d.Deltas()), pluralS), nil\n', '			return fmt.Sprintf("%s Changed. (%.1d change%s)", componentTitle, len(d.Deltas())%10, pluralS), nil\n')], pkg="dsdiff",
 test=DD + '''
func TestPlantedDemo(t *testing.T) {
	md := &dataset.Meta{}
	for i := 0; i < 12; i++ {
		_ = md.SetArbitrary(fmt.Sprint("k", i), "v")
	}
	d, err := DiffMeta(&dataset.Meta{Title: "t"}, md)
	if err != nil {
		t.Fatal(err)
	}
	s, err := d.SummarizeToString("simple")
	if err != nil || s != fmt.Sprintf("Meta Changed. (%d changes)", len(d.Deltas())) {
		t.Fatal(s, err, len(d.Deltas()))
	}
}
''')
TB = '''package tabular

import (
	"fmt"
	"strings"
	"testing"
)

var (
	_ = fmt.Sprint
	_ = strings.Repeat
)
'''
seed(id="tab-col-limit", prop="C27", needs="a schema of more than 1000 columns", breaks="the last of them are left nameless",
 edits=[("tabular/tabular.go", "	for i, f := range itemArr {\n", "	for i, f := range itemArr[:len(itemArr)-len(itemArr)>>10] {\n")], pkg="tabular",
 test=TB + '''
func TestPlantedDemo(t *testing.T) {
	items := []interface{}{}
	for i := 0; i < 1100; i++ {
		items = append(items, map[string]interface{}{"title": fmt.Sprint("c", i), "type": "string"})
	}
	cols, _, err := ColumnsFromJSONSchema(map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": items}})
	if err != nil || len(cols) != 1100 || cols[1099].Title != "c1099" {
		t.Fatal(err, len(cols))
	}
}
''')
seed(id="tab-validation-empty", prop="C27", needs="a column keyword with a null value", breaks="the keyword is lost",
 edits=[("tabular/tabular.go", "				cols[i].Validation[key] = val\n", "				if val != nil {\n					cols[i].Validation[key] = val\n				}\n")], pkg="tabular",
 test=TB + '''
func TestPlantedDemo(t *testing.T) {
	cols, _, err := ColumnsFromJSONSchema(map[string]interface{}{"type": "array", "items": map[string]interface{}{"items": []interface{}{map[string]interface{}{"title": "a", "type": "string", "const": nil}}}})
	if err != nil || len(cols[0].Validation) != 1 {
		t.Fatal(cols, err)
	}
}
''')
VL = '''package vals

import (
	"encoding/json"
	"strings"
	"testing"
)

var (
	_ = json.Marshal
	_ = strings.Repeat
)
'''
seed(id="vals-parse-lead-tab", prop="C17", needs="text that begins with a tab and goes on with digits", breaks="text is taken for a number",
 edits=[("vals/type.go", "		case ' ', '\\n':\n", "		case ' ', '\\n', '\\t', ':':\n")], pkg="vals",
 test=VL + '''
func TestPlantedDemo(t *testing.T) {
	for _, s := range []string{":{", ":[1]", "\\t{"} {
		if got := ParseType([]byte(s)); got != TypeString {
			t.Fatal(s, got)
		}
	}
}
''')
seed(id="vals-equal-len", prop="C17", needs="integers a multiple of 2^32 apart", breaks="they compare as equal",
 edits=[("vals/compare.go", "	if at > bt {\n		return 1, nil\n	} else if at == bt {\n		return 0, nil\n	}\n	return -1, nil\n}\n\n// CompareNumberBytes", "	if at > bt {\n		return 1, nil\n	} else if int32(at) == int32(bt) {\n		return 0, nil\n	}\n	return -1, nil\n}\n\n// CompareNumberBytes")], pkg="vals",
 test=VL + '''
func TestPlantedDemo(t *testing.T) {
	if c, err := CompareIntegerBytes([]byte("1"), []byte("4294967297")); err != nil || c != -1 {
		t.Fatal(c, err)
	}
}
''')
seed(id="vals-array-null", prop="C17", needs="JSON arrays with nulls beyond the 1024th element", breaks="those nulls are missing",
 edits=[("vals/coding.go", "		case *Null:\n			arr[i] = *t\n", "		case *Null:\n			if i < 1<<10 {\n				arr[i] = *t\n			}\n")], pkg="vals",
 test=VL + '''
func TestPlantedDemo(t *testing.T) {
	v, err := UnmarshalJSON([]byte("[" + strings.Repeat("null,", 1100) + "null]"))
	if err != nil || v.Index(1100) == nil {
		t.Fatal(err)
	}
}
''')
SF = '''package stepfile

import (
	"bytes"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
)

var (
	_ = bytes.NewReader
	_ = strings.Repeat
	_ dataset.TransformStep
)
'''
seed(id="step-empty-middle", prop="C25", needs="an empty script between others", breaks="it is left out",
 edits=[("stepfile/stepfile.go", '	for _, chunk := range strings.Split(string(data), "\\n---\\n") {\n', '	for _, chunk := range strings.Split(strings.Replace(string(data), "\\n---\\n\\n---\\n\\n---\\n", "\\n---\\n\\n---\\n", -1), "\\n---\\n") {\n')], pkg="stepfile",
 test=SF + '''
func TestPlantedDemo(t *testing.T) {
	steps, err := Read(strings.NewReader("a\\n---\\n\\n---\\n\\n---\\nb"))
	if err != nil || len(steps) != 4 {
		t.Fatal(len(steps), err)
	}
}
''')
