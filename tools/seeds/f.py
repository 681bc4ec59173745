# planted changes: the properties without any, and more of the readers and writers
SEEDS = []
def seed(**k): SEEDS.append(k)
DSIO = '''package dsio

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
)

var (
	_ = bytes.NewReader
	_ = fmt.Sprint
	_ = io.EOF
	_ = strings.Repeat
	_ *dataset.Structure
)

func arrSt(f string) *dataset.Structure {
	return &dataset.Structure{Format: f, Schema: map[string]interface{}{"type": "array"}}
}

func tabSt(f string, types ...string) *dataset.Structure {
	items := []interface{}{}
	for i, t := range types {
		items = append(items, map[string]interface{}{"title": fmt.Sprintf("c%d", i), "type": t})
	}
	return &dataset.Structure{Format: f, Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": items}}}
}

func write(t *testing.T, st *dataset.Structure, vals ...interface{}) []byte {
	t.Helper()
	buf := &bytes.Buffer{}
	w, err := NewEntryWriter(st, buf)
	if err != nil {
		t.Fatal(err)
	}
	for i, v := range vals {
		if err := w.WriteEntry(Entry{Index: i, Value: v}); err != nil {
			t.Fatal(err)
		}
	}
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	return buf.Bytes()
}

func read(t *testing.T, st *dataset.Structure, r io.Reader) (vals []interface{}) {
	t.Helper()
	rd, err := NewEntryReader(st, r)
	if err != nil {
		t.Fatal(err)
	}
	for {
		e, err := rd.ReadEntry()
		if err == io.EOF {
			rd.Close()
			return vals
		} else if err != nil {
			t.Fatal(err)
		}
		vals = append(vals, e.Value)
	}
}
'''
seed(id="csv-reuse-row", prop="C09", needs="keeping an entry of a CSV body while reading on, with rows of the same length", breaks="an entry already delivered changes its values when the next one is read",
 edits=[("dsio/csv.go", "	vs := make([]interface{}, len(strings))\n	types := r.types\n", "	if cap(r.row) < len(strings) {\n		r.row = make([]interface{}, len(strings))\n	}\n	vs := r.row[:len(strings)]\n	types := r.types\n"),
        ("dsio/csv.go", "	close      func() error\n\n	// TODO (b5) - this will create problems if users define schemas that support\n	// mutiple types per column. Should replace with a tabular.Columns field\n	types []string\n}\n\nvar _ EntryReader = (*CSVReader)(nil)\n", "	close      func() error\n	row        []interface{}\n\n	// TODO (b5) - this will create problems if users define schemas that support\n	// mutiple types per column. Should replace with a tabular.Columns field\n	types []string\n}\n\nvar _ EntryReader = (*CSVReader)(nil)\n")], pkg="dsio",
 test=DSIO + '''
func TestPlantedDemo(t *testing.T) {
	got := read(t, tabSt("csv", "string"), strings.NewReader("a\\nb\\nc\\n"))
	if fmt.Sprint(got) != "[[a] [b] [c]]" {
		t.Fatal(got)
	}
}
''')
seed(id="gzip-one-member", prop="C24", needs="gzip data made of several members, as from concatenated files or parallel compressors", breaks="decompression ends cleanly after the first member",
 edits=[("compression/compression.go", "		return gzip.NewReader(r)\n", "		zr, err := gzip.NewReader(r)\n		if err != nil {\n			return nil, err\n		}\n		// one body, one member\n		zr.Multistream(false)\n		return zr, nil\n")], pkg="compression",
 test='''package compression

import (
	"bytes"
	stdgzip "compress/gzip"
	"io/ioutil"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	b := &bytes.Buffer{}
	for _, s := range []string{"one ", "two"} {
		w := stdgzip.NewWriter(b)
		w.Write([]byte(s))
		w.Close()
	}
	r, err := Decompressor("gzip", b)
	if err != nil {
		t.Fatal(err)
	}
	got, err := ioutil.ReadAll(r)
	if err == nil && string(got) != "one two" {
		t.Fatalf("%q", got)
	}
}
''')
seed(id="zst-no-checksum", prop="C24", needs="zstd compressed data with a flipped bit in a literal", breaks="corrupted data decompresses cleanly to something else",
 edits=[("compression/compression.go", "		return zstd.NewWriter(w)\n", "		// bodies are hashed anyway\n		return zstd.NewWriter(w, zstd.WithEncoderCRC(false))\n")], pkg="compression",
 test='''package compression

import (
	"bytes"
	"io/ioutil"
	"math/rand"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	data := make([]byte, 4096)
	rand.New(rand.NewSource(1)).Read(data)
	b := &bytes.Buffer{}
	w, err := Compressor("zst", b)
	if err != nil {
		t.Fatal(err)
	}
	w.Write(data)
	w.Close()
	for i := 100; i < 4000; i += 500 {
		bad := append([]byte{}, b.Bytes()...)
		bad[i] ^= 1
		r, err := Decompressor("zst", bytes.NewReader(bad))
		if err != nil {
			continue
		}
		got, err := ioutil.ReadAll(r)
		if err == nil && !bytes.Equal(got, data) {
			t.Fatalf("byte %d corrupted, no error", i)
		}
	}
}
''')
seed(id="zst-small-window", prop="C24", needs="zstd data from an encoder with a window larger than 1 MiB", breaks="valid data is refused",
 edits=[("compression/compression.go", "		rdr, err := zstd.NewReader(r)\n", "		rdr, err := zstd.NewReader(r, zstd.WithDecoderMaxMemory(8<<20))\n")], pkg="compression",
 test='''package compression

import (
	"bytes"
	"io/ioutil"
	"math/rand"
	"testing"

	"github.com/klauspost/compress/zstd"
)

func TestPlantedDemo(t *testing.T) {
	data := make([]byte, 20<<20)
	rand.New(rand.NewSource(1)).Read(data)
	b := &bytes.Buffer{}
	w, _ := zstd.NewWriter(b, zstd.WithWindowSize(16<<20))
	w.Write(data)
	w.Close()
	r, err := Decompressor("zst", bytes.NewReader(b.Bytes()))
	if err != nil {
		t.Fatal(err)
	}
	got, err := ioutil.ReadAll(r)
	if err != nil || !bytes.Equal(got, data) {
		t.Fatal(len(got), err)
	}
}
''')
seed(id="golden-update-silent", prop="C31", needs="a mismatch while the environment asks for updates", breaks="a comparison with a golden file that differs does not fail the test",
 edits=[("dstest/golden.go", "		t.Errorf(\"dataset golden file mismatch (-want +got):\\n%s\", diff)\n		UpdateGoldenFileIfEnvVarSet(goldenFilepath, got)\n", "		if os.Getenv(UpdateGoldenFileEnvVarname) != \"\" {\n			UpdateGoldenFileIfEnvVarSet(goldenFilepath, got)\n			return\n		}\n		t.Errorf(\"dataset golden file mismatch (-want +got):\\n%s\", diff)\n")], pkg="dstest",
 test='''package dstest

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	"github.com/qri-io/dataset"
)

func TestPlantedDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, "g.json")
	ioutil.WriteFile(p, []byte(`{"name":"a"}`), 0644)
	os.Setenv(UpdateGoldenFileEnvVarname, "1")
	defer os.Unsetenv(UpdateGoldenFileEnvVarname)
	inner := &testing.T{}
	done := make(chan bool)
	go func() {
		defer close(done)
		CompareGoldenDatasetAndUpdateIfEnvVarSet(inner, p, &dataset.Dataset{Name: "b"})
	}()
	<-done
	if !inner.Failed() {
		t.Fatal("different datasets, and the test did not fail")
	}
}
''')
CMPT = '''package dstest

import (
	"testing"

	"github.com/qri-io/dataset"
)
'''
seed(id="compare-approx", prop="C31", needs="two structures whose schemas differ only in a number, by less than a millionth", breaks="structures that differ compare as equal",
 edits=[("dstest/compare.go", "	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(\n		dataset.Structure{},\n	))\n", "	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(\n		dataset.Structure{},\n	), cmpopts.EquateApprox(1e-6, 0))\n")], pkg="dstest",
 test=CMPT + '''
func TestPlantedDemo(t *testing.T) {
	a := &dataset.Structure{Schema: map[string]interface{}{"maximum": 1.0}}
	b := &dataset.Structure{Schema: map[string]interface{}{"maximum": 1.0000001}}
	if CompareStructures(a, b) == "" {
		t.Fatal("different, compared as equal")
	}
}
''')
seed(id="compare-commit-transient", prop="C31", needs="comparing commits that differ only in their path, strictly", breaks="commits that differ compare as equal",
 edits=[("dstest/compare.go", "	a := &dataset.Commit{}\n	a.Assign(expect)\n\n	b := &dataset.Commit{}\n	b.Assign(got)\n\n	if cfg.dropTransients {\n", "	a := &dataset.Commit{}\n	a.Assign(expect)\n\n	b := &dataset.Commit{}\n	b.Assign(got)\n\n	if cfg.dropTransients || a.Path == \"\" || b.Path == \"\" {\n")], pkg="dstest",
 test=CMPT + '''
func TestPlantedDemo(t *testing.T) {
	if CompareCommits(&dataset.Commit{Title: "t"}, &dataset.Commit{Title: "t", Path: "/ipfs/x"}) == "" {
		t.Fatal("different, compared as equal")
	}
}
''')
LEAK = DSIO.replace('"strings"\n', '"runtime"\n\t"strings"\n\t"time"\n') + '''
func settled(base int) bool {
	for i := 0; i < 100; i++ {
		runtime.GC()
		if runtime.NumGoroutine() <= base {
			return true
		}
		time.Sleep(20 * time.Millisecond)
	}
	return false
}
'''
seed(id="paged-close-exhausted", prop="C33", needs="closing a page of a compressed body after its limit is reached", breaks="the decompressor of the page's body is never released",
 edits=[("dsio/streams.go", "	return r.Reader.Close()\n", "	if r.Limit != 0 {\n		return r.Reader.Close()\n	}\n	// everything asked for was read\n	return nil\n")], pkg="dsio",
 test=LEAK + '''
func TestPlantedDemo(t *testing.T) {
	st := arrSt("json")
	st.Compression = "zst"
	vals := []interface{}{}
	for i := 0; i < 200000; i++ {
		vals = append(vals, fmt.Sprintf("%d", i*7919))
	}
	b := write(t, st, vals...)
	vals = nil
	if !settled(2) {
		t.Log(runtime.NumGoroutine())
	}
	base := runtime.NumGoroutine()
	for i := 0; i < 10; i++ {
		rd, err := NewEntryReader(st, bytes.NewReader(b))
		if err != nil {
			t.Fatal(err)
		}
		p := &PagedReader{Reader: rd, Limit: 2}
		for {
			if _, err := p.ReadEntry(); err != nil {
				break
			}
		}
		p.Close()
	}
	if !settled(base) {
		t.Fatalf("%d goroutines left", runtime.NumGoroutine()-base)
	}
}
''')
seed(id="ndjson-close-once-read", prop="C33", needs="closing a compressed NDJSON reader before any entry was read", breaks="its decompressor is never released",
 edits=[("dsio/ndjson.go", "func (r *NDJSONReader) Close() error {\n	if r.close != nil {\n", "func (r *NDJSONReader) Close() error {\n	if r.close != nil && r.entriesRead > 0 {\n")], pkg="dsio",
 test=LEAK + '''
func TestPlantedDemo(t *testing.T) {
	st := arrSt("ndjson")
	st.Compression = "zst"
	vals := []interface{}{}
	for i := 0; i < 200000; i++ {
		vals = append(vals, fmt.Sprintf("%d", i*7919))
	}
	b := write(t, st, vals...)
	settled(2)
	base := runtime.NumGoroutine()
	for i := 0; i < 10; i++ {
		rd, err := NewEntryReader(st, bytes.NewReader(b))
		if err != nil {
			t.Fatal(err)
		}
		rd.Close()
	}
	if !settled(base) {
		t.Fatalf("%d goroutines left", runtime.NumGoroutine()-base)
	}
}
''')
seed(id="json-number-bound", prop="C04", needs="a number lying across the end of what has been buffered, after its exponent or sign", breaks="a number split between two reads is cut short",
 edits=[("dsio/json.go", "		} else if buff[i] == '-' {\n			i++\n		} else {\n			break\n		}\n", "		} else if buff[i] == '-' && i+1 < len(buff) {\n			i++\n		} else {\n			break\n		}\n")], pkg="dsio",
 test=DSIO + '''
func TestPlantedDemo(t *testing.T) {
	for pad := 0; pad < 12; pad++ {
		d := "[" + strings.Repeat(" ", 4088+pad) + "-12, 1e-7]"
		rd, err := NewJSONReaderSize(arrSt("json"), strings.NewReader(d), 4096)
		if err != nil {
			t.Fatal(err)
		}
		a, err := rd.ReadEntry()
		if err != nil {
			t.Fatal(pad, err)
		}
		b, err := rd.ReadEntry()
		if err != nil {
			t.Fatal(pad, err)
		}
		if fmt.Sprint(a.Value, b.Value) != "-12 1e-07" {
			t.Fatal(pad, a, b)
		}
	}
}
''')
VALS = '''package vals

import (
	"testing"
)
'''
seed(id="vals-compare-diff", prop="C17", needs="comparing integers further apart than the range of an integer", breaks="integers far apart compare the wrong way round",
 edits=[("vals/compare.go", "	bt, err := ParseInteger(b)\n	if err != nil {\n		return 0, err\n	}\n	if at > bt {\n		return 1, nil\n	} else if at == bt {\n		return 0, nil\n	}\n	return -1, nil\n", "	bt, err := ParseInteger(b)\n	if err != nil {\n		return 0, err\n	}\n	if d := at - bt; d > 0 {\n		return 1, nil\n	} else if d == 0 {\n		return 0, nil\n	}\n	return -1, nil\n")], pkg="vals",
 test=VALS + '''
func TestPlantedDemo(t *testing.T) {
	if c, err := CompareIntegerBytes([]byte("9223372036854775807"), []byte("-2")); err != nil || c != 1 {
		t.Fatal(c, err)
	}
}
''')
seed(id="vals-string-compare-trim", prop="C17", needs="comparing texts that are equal up to spaces at their ends", breaks="different texts compare as equal",
 edits=[("vals/compare.go", "	case TypeString:\n		return bytes.Compare(a, b), nil\n", "	case TypeString:\n		return bytes.Compare(bytes.TrimRight(a, \" \"), bytes.TrimRight(b, \" \")), nil\n")], pkg="vals",
 test=VALS + '''
func TestPlantedDemo(t *testing.T) {
	if c, err := CompareTypeBytes([]byte("a"), []byte("a "), TypeString); err != nil || c != -1 {
		t.Fatal(c, err)
	}
}
''')
seed(id="vals-int64-number", prop="C17", needs="a decoded 64-bit integer beyond the 53 bits of a number", breaks="an integer becomes a number, losing its last digits",
 edits=[("vals/coding.go", "	case int64:\n		return Integer(int(v)), nil\n", "	case int64:\n		if int64(float64(v)) != v {\n			return Number(v), nil\n		}\n		return Integer(v), nil\n")], pkg="vals",
 test=VALS + '''
func TestPlantedDemo(t *testing.T) {
	v, err := ConvertDecoded(int64(1<<53 + 1))
	if err != nil || v.Type() != TypeInteger || v.Integer() != 1<<53+1 {
		t.Fatal(v, err)
	}
}
''')
seed(id="stats-string-rune-len", prop="C19", needs="text outside of ASCII in a string column that the rest of the checks does not count in bytes", breaks="string lengths are counted in different units for minimum and maximum",
 edits=[("dsstats/stats.go", "		if len(str) > acc.maxLength {\n			acc.maxLength = len(str)\n		}\n", "		if n := len([]rune(str)); n > acc.maxLength {\n			acc.maxLength = n\n		}\n")], pkg="dsstats",
 test='''package dsstats

import (
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
)

func TestPlantedDemo(t *testing.T) {
	acc := NewAccumulator(&dataset.Structure{})
	acc.WriteEntry(dsio.Entry{Value: []interface{}{"日本語"}})
	acc.Close()
	m := ToMap(acc)[0]
	if m["maxLength"].(int) < m["minLength"].(int) {
		t.Fatal(m)
	}
}
''')
seed(id="csv-null-text", prop="C02", needs="rows that all end in null cells", breaks="null cells at the end of a row are dropped",
 edits=[("dsio/csv.go", "		strs, err := encode(arr)\n", "		for len(arr) > 1 && arr[len(arr)-1] == nil {\n			// nothing to write\n			arr = arr[:len(arr)-1]\n		}\n		strs, err := encode(arr[:len(arr):len(arr)])\n")], pkg="dsio",
 test=DSIO + '''
func TestPlantedDemo(t *testing.T) {
	got := read(t, tabSt("csv", "string", "null"), bytes.NewReader(write(t, tabSt("csv", "string", "null"), []interface{}{"a", nil}, []interface{}{"b", nil})))
	if fmt.Sprint(got) != "[[a <nil>] [b <nil>]]" {
		t.Fatal(got)
	}
}
''')
seed(id="xlsx-shortest-float", prop="C02", needs="a number below 1e-6 or with many digits in a spreadsheet", breaks="numbers are rounded when written",
 edits=[("dsio/xlsx.go", "			strs[i] = strconv.FormatFloat(x, 'f', -1, 64)\n", "			// spreadsheets show 15 digits\n			strs[i] = strconv.FormatFloat(x, 'f', 15, 64)\n")], pkg="dsio",
 test=DSIO + '''
func TestPlantedDemo(t *testing.T) {
	st := tabSt("xlsx", "number")
	got := read(t, st, bytes.NewReader(write(t, st, []interface{}{1.5e-20})))
	if fmt.Sprint(got) != "[[1.5e-20]]" {
		t.Fatal(got)
	}
}
''')
seed(id="json-key-escape", prop="C03", needs="a backslash at the end of a JSON string", breaks="a string ending in an escaped backslash loses its end",
 edits=[("dsio/json.go", "	if srcBuff[len(srcBuff)-1] == '\"' {\n		limit--\n	}\n", "	if srcBuff[len(srcBuff)-1] == '\"' && !bytes.HasSuffix(srcBuff, []byte(`\\\"`)) {\n		limit--\n	}\n")], pkg="dsio",
 test=DSIO + '''
func TestPlantedDemo(t *testing.T) {
	got := read(t, arrSt("json"), strings.NewReader(`["a\\\\\\\\"]`))
	if len(got) != 1 || got[0] != `a\\\\` {
		t.Fatal(got)
	}
}
''')
seed(id="cbor-break-definite", prop="C05", needs="a CBOR array of definite length with a break in place of an element", breaks="the malformed array is read as a shorter one without an error",
 edits=[("dsio/cbor.go", "		if length == 0 || (length == indefiniteLength && r.readIndefiniteSequenceBreak()) {\n			break\n		}\n		val, err", "		if length == 0 || r.readIndefiniteSequenceBreak() {\n			break\n		}\n		val, err")], pkg="dsio",
 test=DSIO + '''
func TestPlantedDemo(t *testing.T) {
	got, err := NewEntryReader(arrSt("cbor"), bytes.NewReader([]byte{0x81, 0x82, 0x01, 0xff}))
	if err != nil {
		t.Fatal(err)
	}
	if e, err := got.ReadEntry(); err == nil {
		t.Fatal("a break in place of a value was accepted: ", e)
	}
}
''')
seed(id="convert-pretty-page", prop="C07", needs="converting a page other than the first to indented JSON", breaks="the page holds the entries before the offset too",
 edits=[("dsio/dsio.go", "	\"io\"\n\n	logger", "	\"io\"\n	\"strings\"\n\n	logger"), ("dsio/dsio.go", "			w, err = NewJSONPrettyWriter(out, buf, \" \")\n", "			offset, limit = 0, offset+limit\n			w, err = NewJSONPrettyWriter(out, buf, strings.Repeat(\" \", 1))\n")], pkg="dsio",
 test=DSIO.replace('"github.com/qri-io/dataset"\n', '"github.com/qri-io/dataset"\n\t"github.com/qri-io/qfs"\n') + '''
func TestPlantedDemo(t *testing.T) {
	out := arrSt("json")
	out.FormatConfig = map[string]interface{}{"pretty": true}
	got, err := ConvertFile(qfs.NewMemfileBytes("b.json", []byte("[1,2,3]")), arrSt("json"), out, 1, 1, false)
	if err != nil || strings.Contains(string(got), "1") {
		t.Fatalf("%q %v", got, err)
	}
}
''')
