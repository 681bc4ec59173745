SEEDS = []
def seed(**k): SEEDS.append(k)

HDR = '''package dsio_test

import (
	"bytes"
	"io"
	"reflect"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
)

var _ = strings.Repeat
var _ io.Reader
var _ = reflect.DeepEqual

func readAll(t *testing.T, st *dataset.Structure, r io.Reader) (vals []interface{}) {
	t.Helper()
	rd, err := dsio.NewEntryReader(st, r)
	if err != nil {
		t.Fatal(err)
	}
	for {
		e, err := rd.ReadEntry()
		if err != nil {
			if err != io.EOF {
				t.Fatal(err)
			}
			return
		}
		vals = append(vals, e.Value)
	}
}

func write(t *testing.T, st *dataset.Structure, vals ...interface{}) []byte {
	t.Helper()
	var b bytes.Buffer
	w, err := dsio.NewEntryWriter(st, &b)
	if err != nil {
		t.Fatal(err)
	}
	for i, v := range vals {
		if err := w.WriteEntry(dsio.Entry{Index: i, Value: v}); err != nil {
			t.Fatal(err)
		}
	}
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	return b.Bytes()
}

type oneByte struct{ r io.Reader }

func (o oneByte) Read(p []byte) (int, error) {
	if len(p) > 1 {
		p = p[:1]
	}
	return o.r.Read(p)
}

var _ = oneByte{}
'''

seed(id="json-formfeed", prop="C01", needs="a string holding a form feed character", breaks="form feeds in JSON strings come back as vertical tabs",
 edits=[("dsio/json.go", "				dstBuff[d] = '\\f'\n", "				dstBuff[d] = '\\v'\n")], pkg="dsio",
 test=HDR + '''
func TestPlantedDemo(t *testing.T) {
	st := &dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "array"}}
	in := "page\\fbreak"
	got := readAll(t, st, strings.NewReader("[\\"page\\\\fbreak\\"]"))
	if len(got) != 1 || got[0] != in {
		t.Fatalf("%q", got)
	}
	got = readAll(t, st, bytes.NewReader(write(t, st, in)))
	if len(got) != 1 || got[0] != in {
		t.Fatalf("%q", got)
	}
}
''')

seed(id="csv-float32", prop="C02", needs="a number cell that needs more than 24 bits of precision", breaks="CSV numbers are rounded to float32 when written",
 edits=[("dsio/csv.go", "strconv.FormatFloat(t, 'f', -1, 64)", "strconv.FormatFloat(t, 'f', -1, 32)")], pkg="dsio",
 test=HDR + '''
func TestPlantedDemo(t *testing.T) {
	st := &dataset.Structure{Format: "csv", Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": []interface{}{map[string]interface{}{"title": "a", "type": "number"}}}}}
	for _, f := range []float64{0.5, 16777217, 3.141592653589793, 1e-12} {
		got := readAll(t, st, bytes.NewReader(write(t, st, []interface{}{f})))
		if len(got) != 1 || got[0].([]interface{})[0] != f {
			t.Fatalf("%v: %v", f, got)
		}
	}
}
''')

seed(id="json-upper-exponent", prop="C03", needs="a JSON number written with an upper case exponent", breaks="valid JSON numbers such as 1E5 are refused",
 edits=[("dsio/json.go", "buff[i] == '.' || buff[i] == 'e' || buff[i] == 'E' || buff[i] == '+'", "buff[i] == '.' || buff[i] == 'e' || buff[i] == '+'")], pkg="dsio",
 test=HDR + '''
func TestPlantedDemo(t *testing.T) {
	st := &dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "array"}}
	got := readAll(t, st, strings.NewReader("[1e5,1E5,2.5E-3]"))
	if !reflect.DeepEqual(got, []interface{}{1e5, 1e5, 2.5e-3}) {
		t.Fatalf("%v", got)
	}
}
''')

seed(id="json-literal-straddle", prop="C04", needs="a null, true or false that straddles a buffer refill", breaks="a literal split over two reads swallows the bytes that follow it",
 edits=[("dsio/json.go", "_, _ = r.reader.Discard(len(tok) - r.prevSize)", "_, _ = r.reader.Discard(len(tok))")], pkg="dsio",
 test=HDR + '''
func TestPlantedDemo(t *testing.T) {
	st := &dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "array"}}
	body := "[null,true,false,1,\\"abcdefghijklmnopqrstuvwxyz\\",null,[true,false,null]]"
	want := readAll(t, st, strings.NewReader(body))
	for size := 16; size < 64; size++ {
		rd, err := dsio.NewJSONReaderSize(st, oneByte{strings.NewReader(body)}, size)
		if err != nil {
			t.Fatal(err)
		}
		var got []interface{}
		for {
			e, err := rd.ReadEntry()
			if err == io.EOF {
				break
			} else if err != nil {
				t.Fatalf("size %d: %v", size, err)
			}
			got = append(got, e.Value)
		}
		if !reflect.DeepEqual(got, want) {
			t.Fatalf("size %d: %v", size, got)
		}
	}
}
''')
