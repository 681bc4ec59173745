package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/qfs"
	"github.com/qri-io/varName"
)

func init() {
	register(&Prop{
		ID:     "C16",
		Rule:   "tables with known cell types (uniform, mixed, late changes, ragged, with and without header), JSON, NDJSON and CBOR bodies with leading whitespace, plain, gzip and zstd compressed, are detected from readers delivering in odd chunks, from files and from datasets with any part of the structure already set; a model predicts the structure, and the body is read with it and compared with the generated content; body files are compared byte for byte after detection, also when it fails or the source fails; non-trivial: at least one row or entry, distinct by body",
		Assume: []string{"comma separated CSV; rows of other lengths than the first only among the first 2000", "integers within 64 bits"},
		Need:   map[string]int64{"csv_detected": 500, "json_detected": 300, "cbor_detected": 100, "columns": 2000, "rows_read": 5000, "files_restored": 500, "refusals": 100, "filenames": 500, "owned": 200, "switches": 50},
		Run:    runC16,
	})
}

// typedText makes a text that is plainly of a type
func typedText(r *rand.Rand, typ string) string {
	switch typ {
	case "integer":
		return strconv.FormatInt(genInt(r, false), 10)
	case "number":
		switch r.Intn(4) {
		case 0:
			return fmt.Sprintf("%d.%d", r.Intn(1000)-500, r.Intn(1000))
		case 1:
			return fmt.Sprintf("%de%d", r.Intn(9)+1, r.Intn(40)-20)
		case 2:
			return fmt.Sprintf("-%d.%dE+%d", r.Intn(90), r.Intn(1000), r.Intn(40))
		}
		f := genFloat(r)
		s := strconv.FormatFloat(f, 'g', -1, 64)
		if !strings.ContainsAny(s, ".e") {
			s += ".0"
		}
		return s
	case "boolean":
		return []string{"true", "false", "TRUE", "False", "t", "F", "True", "FALSE", "f", "T"}[r.Intn(10)]
	case "null":
		return "null"
	case "object", "array":
		var b bytes.Buffer
		o := vopts{maxDepth: 2, safeInts: true, noCR: true}
		s := &jsonStyle{r: r, ws: 0, escapes: true, noNL: true}
		s.val(&b, genCell(r, typ, o))
		return b.String()
	}
	switch r.Intn(8) {
	case 0:
		return ""
	case 1:
		return fmt.Sprintf("20%02d-0%d-1%dT13:27:52Z", r.Intn(100), 1+r.Intn(9), r.Intn(10))
	case 2:
		return fmt.Sprintf("%dabc", r.Intn(1000))
	case 3:
		return fmt.Sprintf("%d.%d.%d", r.Intn(10), r.Intn(10), r.Intn(10))
	case 4:
		return "say \"" + strconv.Itoa(r.Intn(100)) + "\", twice"
	case 5:
		return []string{"nullable", "truest", "e", "e5", "-", "--5", "é", "tr ue", "NULL", "yes", "1 2", "x{", "y[1]"}[r.Intn(13)]
	case 6:
		return "line\n" + strconv.Itoa(r.Intn(1000))
	}
	return "w" + strconv.Itoa(r.Intn(100000)) + "é"
}

var textTypes = []string{"string", "integer", "number", "boolean", "null", "object", "array"}

// cellAs is the value a cell read with a column type has
func cellAs(text, typ string) interface{} {
	switch typ {
	case "integer":
		if i, err := strconv.ParseInt(text, 10, 64); err == nil {
			return i
		}
	case "number":
		if f, err := strconv.ParseFloat(text, 64); err == nil {
			return f
		}
	case "boolean":
		switch text {
		case "1", "t", "T", "true", "TRUE", "True":
			return true
		case "0", "f", "F", "false", "FALSE", "False":
			return false
		}
	case "null":
		if text == "" || text == "null" {
			return nil
		}
	case "object", "array":
		var v interface{}
		if json.Unmarshal([]byte(text), &v) == nil {
			switch v.(type) {
			case obj:
				if typ == "object" {
					return v
				}
			case arr:
				if typ == "array" {
					return v
				}
			case nil:
				return nil
			}
		}
	}
	return text
}

// plainNils makes null of the nil containers that a null cell of an object or
// array column is read as
func plainNils(t trace) trace {
	for _, e := range t.ents {
		row, _ := e.Value.([]interface{})
		for j, v := range row {
			switch x := v.(type) {
			case map[string]interface{}:
				if x == nil {
					row[j] = nil
				}
			case []interface{}:
				if x == nil {
					row[j] = nil
				}
			}
		}
	}
	return t
}

// dumpUntitled snapshots a detected structure without column titles: varName
// makes them from header cells by unordered substitutions, so that cells with
// several symbols in a row ("<=", "US$") have more than one
func dumpUntitled(st *dataset.Structure) string {
	if st == nil {
		return "nil"
	}
	cp := cloneDoc(st).(*dataset.Structure)
	if items, ok := cp.Schema["items"].(map[string]interface{}); ok {
		cols, _ := items["items"].([]interface{})
		for _, cl := range cols {
			if m, ok := cl.(map[string]interface{}); ok {
				delete(m, "title")
			}
		}
	}
	return dump(cp)
}

type table16 struct {
	first  []string // titles, when header
	header bool
	rows   [][]string
	types  [][]string // the type of each cell
	ragged bool
	width  int
	text   []byte
}

func genTable16(c *Case, n int) *table16 {
	r := c.Rng
	t := &table16{width: 1 + r.Intn(6), header: r.Intn(2) == 0}
	if r.Intn(20) == 0 {
		t.width = 30
	}
	if n < 20 && r.Intn(60) == 0 {
		t.width = []int{128, 129, 200, 256, 300, 1025}[r.Intn(6)]
	}
	major := make([]string, t.width)
	mix := make([]int, t.width)
	for i := range major {
		major[i] = textTypes[r.Intn(len(textTypes))]
		mix[i] = []int{0, 0, 10, 40, 70}[r.Intn(5)]
	}
	if t.header {
		for i := 0; i < t.width; i++ {
			t.first = append(t.first, []string{"name", "a b", "Total %", "truest", "e", "x", "Ünï", "null", "t", "{k}", "[v]", "1st", "two\nlines", "qu\"ote"}[r.Intn(14)]+[]string{"", strconv.Itoa(i)}[r.Intn(2)])
		}
	}
	wild := r.Intn(4) == 0
	for i := 0; i < n; i++ {
		w := t.width
		if wild && (i > 0 || t.header) && r.Intn(5) == 0 {
			w = 1 + r.Intn(t.width+3)
		}
		row, typs := []string{}, []string{}
		for j := 0; j < w; j++ {
			typ := "string"
			if j < t.width {
				typ = major[j]
				if r.Intn(100) < mix[j] {
					typ = textTypes[r.Intn(len(textTypes))]
				}
			}
			if i == 0 && !t.header && j == 0 {
				// the first row of data is plainly no header
				typ = []string{"integer", "number"}[r.Intn(2)]
			}
			x := typedText(r, typ)
			if x == "" && w == 1 {
				x = "one"
			}
			row, typs = append(row, x), append(typs, typ)
		}
		if w != t.width {
			t.ragged = true
		}
		t.rows, t.types = append(t.rows, row), append(t.types, typs)
	}
	all := t.rows
	if t.header {
		all = append([][]string{t.first}, t.rows...)
	}
	// a value spanning lines keeps its line ends only where they are \n
	eol := []string{"\n", "\r\n"}[r.Intn(2)]
	t.text = csvText(r, all, ',', eol, r.Intn(3) > 0)
	return t
}

// checkDetected compares a detected structure with the table; it returns the
// column types
func (t *table16) check(c *Case, st *dataset.Structure, sch map[string]interface{}, cfg map[string]interface{}) ([]string, bool) {
	if sch["type"] != "array" {
		c.Fail("csv-top", "csv schema has type %v", sch["type"])
		return nil, false
	}
	items, _ := sch["items"].(map[string]interface{})
	cols, _ := items["items"].([]interface{})
	if items["type"] != "array" || len(cols) != t.width {
		c.Fail("csv-columns", "csv of %d columns detected as %s", t.width, clipv(sch))
		return nil, false
	}
	var typs []string
	for j, cl := range cols {
		col, _ := cl.(map[string]interface{})
		want := fmt.Sprintf("field_%d", j+1)
		if t.header {
			want = varName.CreateVarNameFromString(t.first[j])
		}
		got, _ := col["title"].(string)
		if got != want {
			c.Fail("csv-title", "column %d has title %q, expected %q", j, got, want)
			return nil, false
		}
		typ, _ := col["type"].(string)
		tally := map[string]int{}
		full := 0
		for i, row := range t.types {
			if len(row) != t.width {
				continue
			}
			if full++; full > 1900 {
				break
			}
			tally[t.types[i][j]]++
		}
		best := 0
		for _, n := range tally {
			if n > best {
				best = n
			}
		}
		if best == 0 {
			if typ != "" && typ != "string" {
				c.Fail("csv-type-none", "column %d without values has type %q", j, typ)
				return nil, false
			}
		} else if full <= 1900 && tally[typ] != best {
			c.Fail("csv-type", "column %d has type %q, its values: %v", j, typ, tally)
			return nil, false
		} else if tally[typ] == 0 {
			c.Fail("csv-type", "column %d has type %q, its first values: %v", j, typ, tally)
			return nil, false
		} else if full > 1900 && best > 1500 && tally[typ] != best {
			c.Fail("csv-type", "column %d of %d rows has type %q, its first values: %v", j, len(t.rows), typ, tally)
			return nil, false
		}
		typs = append(typs, typ)
		c.Ev("columns")
	}
	if h, _ := cfg["headerRow"].(bool); h != t.header {
		c.Fail("csv-header", "first row %q: headerRow detected as %v", t.head(), h)
		return nil, false
	}
	if v, _ := cfg["variadicFields"].(bool); v != t.ragged {
		c.Fail("csv-variadic", "rows of different lengths: %v, variadicFields detected as %v", t.ragged, v)
		return nil, false
	}
	return typs, true
}

func (t *table16) head() []string {
	if t.header {
		return t.first
	}
	if len(t.rows) > 0 {
		return t.rows[0]
	}
	return nil
}

func (t *table16) want(typs []string) arr {
	var out arr
	for _, row := range t.rows {
		vs := arr{}
		for j, x := range row {
			if len(row) > t.width {
				vs = append(vs, x)
				continue
			}
			vs = append(vs, cellAs(x, typs[j]))
		}
		out = append(out, vs)
	}
	return out
}

var exts16 = map[string]string{"csv": ".csv", "json": ".json", "ndjson": ".ndjson", "cbor": ".cbor"}

func name16(r *rand.Rand, format, comp string) string {
	n := "body" + exts16[format]
	if format == "ndjson" && r.Intn(2) == 0 {
		n = "body.jsonl"
	}
	switch comp {
	case "gzip":
		n += []string{".gzip", ".gz"}[r.Intn(2)]
	case "zst":
		n += []string{".zst", ".zstd"}[r.Intn(2)]
	}
	return n
}

// detectVia detects a body one of several ways
func detectVia(c *Case, dir, format, comp string, body []byte) (*dataset.Structure, error) {
	r := c.Rng
	switch r.Intn(3) {
	case 0:
		df, err := dataset.ParseDataFormatString(format)
		if err != nil {
			return nil, err
		}
		ch := chunkings(r, body)
		if comp == "zst" {
			delete(ch, "randzero") // see C04
		}
		ks := sortedKeys(ch)
		st, _, err := detect.FromReader(df, compression.Format(comp), ch[ks[r.Intn(len(ks))]]())
		return st, err
	case 1:
		p := filepath.Join(dir, fmt.Sprintf("%d-%d-%s", c.Idx, r.Intn(1000), name16(r, format, comp)))
		defer os.Remove(p)
		if comp == "" && r.Intn(3) == 0 { // the file had other content when last asked about
			old := append([]byte{}, body...)
			for i, x := range old {
				switch {
				case x >= '0' && x <= '9':
					old[i] = 'z'
				case x >= 'a' && x <= 'z':
					old[i] = '7'
				}
			}
			if r.Intn(3) == 0 {
				old = old[:len(old)/2]
			}
			if err := ioutil.WriteFile(p, old, 0600); err != nil {
				panic(err)
			}
			detect.FromFile(p)
			c.Ev("files_rewritten")
		}
		if err := ioutil.WriteFile(p, body, 0600); err != nil {
			panic(err)
		}
		return detect.FromFile(p)
	}
	ds := &dataset.Dataset{}
	ds.SetBodyFile(qfs.NewMemfileBytes(name16(r, format, comp), body))
	err := detect.Structure(ds)
	if got := slurp(ds.BodyFile()); got != string(body) {
		c.Fail("body-lost", "body file of %d bytes delivers %d after detection: %s", len(body), len(got), firstDiff(string(body), got))
	}
	c.Ev("files_restored")
	return ds.Structure, err
}

func runC16(r *Run) {
	dir, err := ioutil.TempDir("", "vmon16")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)

	csvCase := func(c *Case, n int) {
		t := genTable16(c, n)
		if len(t.rows) == 0 && !t.header {
			return
		}
		comp := genComp(c.Rng)
		body := t.text
		if comp != "" {
			body = compressBytes(comp, body)
		}
		st, err := detectVia(c, dir, "csv", comp, body)
		if err != nil {
			c.Fail("csv-refused", "csv %s refused: %v", quoteClip(t.text), err)
			return
		}
		if st.Format != "csv" || st.Compression != comp {
			c.Fail("format", "csv body with compression %q detected as %q %q", comp, st.Format, st.Compression)
			return
		}
		typs, ok := t.check(c, st, st.Schema, st.FormatConfig)
		if !ok {
			return
		}
		c.Ev("csv_detected")
		got := readBodyBytes(st, body)
		want := t.want(typs)
		if s := diffArr(want, plainNils(got), eqOpts{}); s != "" {
			c.Fail("csv-read", "read with the detected structure: %s\nbody %s\nschema %s config %s", s, quoteClip(t.text), clipv(st.Schema), clipv(st.FormatConfig))
			return
		}
		c.EvN("rows_read", len(want))
		if len(want) > 0 {
			c.Distinct("csv", body)
		}
		c.Sample("csv %s -> %s", quoteClip(t.text), clipv(st.Schema))
	}
	r.Each("csv", r.Q(2000, 30000), func(c *Case) { csvCase(c, c.Rng.Intn(12)) })
	r.Each("csv-large", r.Q(16, 150), func(c *Case) {
		csvCase(c, []int{200, 1000, 1899, 2000, 2001, 2002, 2003, 3500}[c.Idx%8])
	})
	r.Each("csv-late", r.Q(8, 60), func(c *Case) {
		// the type of a column changes long after the sampled part
		rng := c.Rng
		a, b := textTypes[rng.Intn(len(textTypes))], textTypes[rng.Intn(len(textTypes))]
		t := &table16{width: 2, header: true, first: []string{"one", "two"}}
		for i := 0; i < 6000; i++ {
			typ := a
			if i > 2200 {
				typ = b
			}
			t.rows = append(t.rows, []string{typedText(rng, typ), typedText(rng, "string")})
			t.types = append(t.types, []string{typ, "string"})
		}
		t.text = csvText(rng, append([][]string{t.first}, t.rows...), ',', "\n", true)
		comp := genComp(rng)
		body := t.text
		if comp != "" {
			body = compressBytes(comp, body)
		}
		st, err := detectVia(c, dir, "csv", comp, body)
		if err != nil {
			c.Fail("csv-refused", "csv refused: %v", err)
			return
		}
		typs, ok := t.check(c, st, st.Schema, st.FormatConfig)
		if !ok {
			return
		}
		got := readBodyBytes(st, body)
		if s := diffArr(t.want(typs), plainNils(got), eqOpts{}); s != "" {
			c.Fail("csv-read", "column of %s then %s read with the detected structure: %s", a, b, s)
			return
		}
		c.EvN("rows_read", len(t.rows))
		c.Distinct("late", body)
	})

	// columns whose type changes at some row, few rows of one type first or
	// last: most of the sampled ones decide
	r.Each("csv-switch", r.Q(60, 600), func(c *Case) {
		rng := c.Rng
		w := 1 + rng.Intn(4)
		t := &table16{width: w, header: true}
		n := []int{3, 5, 9, 20, 21, 40, 101, 150, 260, 420, 700, 1300, 1850, 1890}[rng.Intn(14)]
		var a, b []string
		var at []int
		for j := 0; j < w; j++ {
			t.first = append(t.first, "c"+string(rune('a'+j)))
			a, b = append(a, textTypes[rng.Intn(len(textTypes))]), append(b, textTypes[rng.Intn(len(textTypes))])
			k := n/2 + 1 // one more than half, and a little more or less
			if rng.Intn(2) == 0 {
				k = (n - 1) / 2
			}
			switch rng.Intn(4) {
			case 0:
				k = rng.Intn(n)
			}
			at = append(at, k)
		}
		for i := 0; i < n; i++ {
			var row, typs []string
			for j := 0; j < w; j++ {
				typ := a[j]
				if i >= at[j] {
					typ = b[j]
				}
				row, typs = append(row, typedText(rng, typ)), append(typs, typ)
			}
			t.rows, t.types = append(t.rows, row), append(t.types, typs)
		}
		t.text = csvText(rng, append([][]string{t.first}, t.rows...), ',', "\n", true)
		comp := genComp(rng)
		body := t.text
		if comp != "" {
			body = compressBytes(comp, body)
		}
		st, err := detectVia(c, dir, "csv", comp, body)
		if err != nil {
			c.Fail("csv-refused", "csv refused: %v", err)
			return
		}
		typs, ok := t.check(c, st, st.Schema, st.FormatConfig)
		if !ok {
			return
		}
		got := readBodyBytes(st, body)
		if s := diffArr(t.want(typs), plainNils(got), eqOpts{}); s != "" {
			c.Fail("csv-read", "columns of %v then %v read with the detected structure: %s", a, b, s)
			return
		}
		c.EvN("rows_read", len(t.rows))
		c.Ev("switches")
		c.Distinct("switch", body)
	})

	// which first rows are headers
	r.Each("header", r.Q(1500, 20000), func(c *Case) {
		rng := c.Rng
		w := 1 + rng.Intn(5)
		row := make([]string, w)
		header := true
		for i := range row {
			row[i] = []string{"name", "t", "F", "True", "null", "trueish", "a1", "x y", "1st", "-", "é"}[rng.Intn(11)]
		}
		if rng.Intn(2) == 0 {
			header = false
			k := rng.Intn(w)
			row[k] = []string{"5", "-3", "2.5", "1e9", "", " ", "true", "false", " 7 ", " true", "0", "+4"}[rng.Intn(12)]
		}
		if w == 1 && strings.TrimSpace(row[0]) == "" {
			return
		}
		data := [][]string{row}
		for i := rng.Intn(3); i > 0; i-- {
			d := make([]string, w)
			for j := range d {
				d[j] = "v" + strconv.Itoa(rng.Intn(10))
			}
			data = append(data, d)
		}
		body := csvText(rng, data, ',', "\n", true)
		st, _, err := detect.FromReader(dataset.CSVDataFormat, compression.FmtNone, bytes.NewReader(body))
		if err != nil {
			c.Fail("csv-refused", "csv %s refused: %v", quoteClip(body), err)
			return
		}
		if h, _ := st.FormatConfig["headerRow"].(bool); h != header {
			c.Fail("csv-header", "first row %q: headerRow detected as %v", row, h)
			return
		}
		n := len(data)
		if header {
			n--
		}
		if t := readBodyBytes(st, body); t.err != nil || len(t.ents) != n {
			c.Fail("csv-read", "first row %q: %d rows read of %d (error %v)", row, len(t.ents), n, t.err)
			return
		}
		c.Ev("headers")
		c.Distinct("header", body)
	})

	// JSON, NDJSON and CBOR bodies
	r.Each("documents", r.Q(1500, 20000), func(c *Case) {
		rng := c.Rng
		kind := []string{"json-array", "json-object", "ndjson", "cbor-array", "cbor-object"}[c.Idx%5]
		d := genDoc(c, kind, "", genCount(rng, rng.Intn(30) == 0))
		format := strings.SplitN(kind, "-", 2)[0]
		tlt := "array"
		if strings.HasSuffix(kind, "object") {
			tlt = "object"
		}
		body := d.b
		if len(body) > 0 && format == "cbor" && body[0]>>5 == 6 {
			return // a tagged body
		}
		if format == "json" && rng.Intn(4) == 0 {
			ws := make([]byte, []int{1, 99, 100, 101, 200, 201, 5000}[rng.Intn(7)])
			for i := range ws {
				ws[i] = " \t\n\r"[rng.Intn(4)]
			}
			body = append(ws, body...)
		}
		comp := genComp(rng)
		plain := body
		if comp != "" {
			body = compressBytes(comp, body)
		}
		st, err := detectVia(c, dir, format, comp, body)
		if err != nil {
			c.Fail("refused:"+format, "%s body %s refused: %v", kind, quoteClip(plain), err)
			return
		}
		if st.Format != format || st.Compression != comp || st.Schema["type"] != tlt {
			c.Fail("document:"+format, "%s body with compression %q detected as %q %q %s", kind, comp, st.Format, st.Compression, clipv(st.Schema))
			return
		}
		known := &dataset.Structure{Format: format, Schema: schemaOf(tlt)}
		want, got := readBodyBytes(known, plain), readBodyBytes(st, body)
		if s := diffTrace(want, got); s != "" {
			c.Fail("document-read:"+format, "%s body read with the detected structure: %s", kind, s)
			return
		}
		if format == "cbor" {
			c.Ev("cbor_detected")
		} else {
			c.Ev("json_detected")
		}
		if len(want.ents) > 0 {
			c.Distinct("doc", body)
		}
	})

	// a dataset's set fields are kept, whatever is detected
	r.Each("preset", r.Q(1200, 12000), func(c *Case) {
		rng := c.Rng
		format := []string{"csv", "json", "cbor", "ndjson"}[c.Idx%4]
		comp := genComp(rng)
		var body []byte
		tlt := "array"
		var t *table16
		if format == "csv" {
			t = genTable16(c, 1+rng.Intn(6))
			body = t.text
		} else {
			kind := format
			if format != "ndjson" {
				tlt = []string{"array", "object"}[rng.Intn(2)]
				kind += "-" + tlt
			}
			body = genDoc(c, kind, "", rng.Intn(5)).b
			if format == "cbor" && body[0]>>5 == 6 {
				return
			}
		}
		if comp != "" {
			body = compressBytes(comp, body)
		}
		st := &dataset.Structure{Path: "/p", Strict: rng.Intn(2) == 0, Encoding: []string{"", "utf8"}[rng.Intn(2)], Entries: rng.Intn(3), ErrCount: rng.Intn(3), Checksum: "c"}
		if rng.Intn(2) == 0 {
			st.Format = format
		}
		if rng.Intn(2) == 0 {
			st.Compression = comp
		}
		if rng.Intn(2) == 0 {
			st.Schema = obj{"type": tlt, "title": "mine"}
		}
		if rng.Intn(2) == 0 {
			st.FormatConfig = obj{"mine": true}
		}
		if rng.Intn(8) == 0 {
			st = nil
		}
		var pre dataset.Structure
		if st != nil {
			pre = *cloneDoc(st).(*dataset.Structure)
		}
		ds := &dataset.Dataset{Structure: st, Meta: &dataset.Meta{Title: "t"}, BodyPath: "p"}
		name := name16(rng, format, comp)
		ds.SetBodyFile(qfs.NewMemfileBytes(name, body))
		if err := detect.Structure(ds); err != nil {
			c.Fail("preset-refused", "%s with %s: %v", name, dump(pre), err)
			return
		}
		got := ds.Structure
		if f := ds.BodyFile(); f.FileName() != name || slurp(f) != string(body) {
			c.Fail("body-lost", "body file %q is not what it was after detection", name)
			return
		}
		c.Ev("files_restored")
		if got == nil || got.Format != format || got.Schema == nil {
			c.Fail("preset-missing", "%s: detection left out the format or schema: %s", name, dump(got))
			return
		}
		for _, k := range []struct{ name, want, got string }{
			{"format", pre.Format, got.Format}, {"compression", pre.Compression, got.Compression}, {"path", pre.Path, got.Path}, {"encoding", pre.Encoding, got.Encoding}, {"checksum", pre.Checksum, got.Checksum},
		} {
			if k.want != "" && k.want != k.got {
				c.Fail("preset-changed", "%s: detection changed the %s from %q to %q", name, k.name, k.want, k.got)
				return
			}
		}
		if pre.Schema != nil && dump(pre.Schema) != dump(got.Schema) || pre.FormatConfig != nil && dump(pre.FormatConfig) != dump(got.FormatConfig) || pre.Strict != got.Strict || pre.Entries != got.Entries || pre.ErrCount != got.ErrCount {
			c.Fail("preset-changed", "%s: detection changed set fields: %s", name, firstDiff(dump(pre), dump(*got)))
			return
		}
		if st != nil && got != st {
			c.Fail("preset-changed", "%s: detection replaced the structure", name)
			return
		}
		if pre.Schema == nil {
			if got.Schema["type"] != tlt {
				c.Fail("document:"+format, "%s: top-level type detected as %v", name, got.Schema["type"])
				return
			}
			if got.Compression != comp {
				c.Fail("preset-missing", "%s: compression detected as %q", name, got.Compression)
				return
			}
			if t != nil && pre.FormatConfig == nil {
				if _, ok := t.check(c, got, got.Schema, got.FormatConfig); !ok {
					return
				}
				if x := readBodyBytes(got, body); x.err != nil || len(x.ents) != len(t.rows) {
					c.Fail("csv-read", "%d rows read of %d with the detected structure (%v)", len(x.ents), len(t.rows), x.err)
					return
				}
			}
		}
		if format == "csv" && pre.FormatConfig == nil && got.FormatConfig == nil {
			c.Fail("preset-missing", "%s: no format configuration detected", name)
			return
		}
		if dump(ds.Meta) != dump(&dataset.Meta{Title: "t"}) || ds.BodyPath != "p" {
			c.Fail("preset-changed", "detection changed another component")
			return
		}
		c.Distinct("preset", body, dump(pre))
	})

	// bodies that cannot be detected: an error, and nothing lost
	r.Each("refused", r.Q(600, 6000), func(c *Case) {
		rng := c.Rng
		name, body := "b.json", []byte("\"text\"")
		switch c.Idx % 8 {
		case 0:
			body = []byte(strings.Repeat(" ", rng.Intn(300)) + []string{"\"text\"", "5", "true", "x", "", "]", "}"}[rng.Intn(7)])
		case 1:
			name, body = "b.cbor", append([]byte{[]byte{0x00, 0x20, 0x40, 0x61, 0xf6, 0xff, 0x1b}[rng.Intn(7)]}, randBytes(rng, rng.Intn(20))...)
		case 2:
			name, body = "b.csv", []byte(strings.Repeat("\n", rng.Intn(5)))
		case 3:
			name, body = "b."+[]string{"xml", "txt", "", "tar.gz", "gz", "zst", "csvv"}[rng.Intn(7)], randBytes(rng, rng.Intn(50))
		case 4:
			name, body = "b.json.gz", randBytes(rng, 1+rng.Intn(50))
		case 5:
			name, body = "b.csv.zst", append([]byte("not zst"), randBytes(rng, rng.Intn(50))...)
		case 6, 7:
			// the source fails
			d := genDoc(c, []string{"csv", "cbor-array", "json-object"}[rng.Intn(3)], "", 200)
			name = "b." + d.st.Format
			at := rng.Intn(len(d.b) + 1)
			ds := &dataset.Dataset{}
			f := &faultReader{data: d.b, at: at, err: errInjected}
			ds.SetBodyFile(faultFile{f, name})
			err := detect.Structure(ds)
			got, rerr := ioutil.ReadAll(ds.BodyFile())
			if len(got) > len(d.b) || !bytes.Equal(got, d.b[:len(got)]) || len(got) < at {
				c.Fail("body-lost", "%s failing after %d bytes (detection: %v): body file delivers %d bytes: %s", name, at, err, len(got), firstDiff(string(d.b), string(got)))
				return
			}
			if rerr == nil && len(got) < len(d.b) {
				c.Fail("fault-lost", "%s failing after %d bytes: body file delivers %d bytes and then a clean end", name, at, len(got))
				return
			}
			c.Ev("files_restored")
			c.Distinct("fault", d.b, at)
			return
		}
		st := &dataset.Structure{Strict: true}
		ds := &dataset.Dataset{Structure: st}
		pre := dump(st)
		ds.SetBodyFile(qfs.NewMemfileBytes(name, body))
		err := detect.Structure(ds)
		if err == nil {
			c.Fail("accepted", "%s with body %s: no error, structure %s", name, quoteClip(body), dump(ds.Structure))
			return
		}
		if dump(ds.Structure) != pre {
			c.Fail("refused-changed", "%s: failed detection changed the structure: %s", name, firstDiff(pre, dump(ds.Structure)))
			return
		}
		if got := slurp(ds.BodyFile()); got != string(body) {
			c.Fail("body-lost", "%s: body file of %d bytes delivers %d after failed detection (%v)", name, len(body), len(got), err)
			return
		}
		c.Ev("files_restored")
		c.Ev("refusals")
		c.Distinct("refused", name, body)
	})
	r.Each("nobody", 1, func(c *Case) {
		for _, ds := range []*dataset.Dataset{nil, {}, {Structure: &dataset.Structure{Format: "csv"}}, {Structure: &dataset.Structure{Schema: schemaOf("array")}}} {
			if err := detect.Structure(ds); err == nil {
				c.Fail("accepted", "dataset without a body: no error")
			}
		}
		ds := &dataset.Dataset{Structure: &dataset.Structure{Format: "json", Schema: schemaOf("array")}}
		if err := detect.Structure(ds); err != nil {
			c.Fail("fast-path", "complete structure refused: %v", err)
		}
		if _, err := detect.FromFile(filepath.Join(dir, "missing.csv")); err == nil {
			c.Fail("accepted", "missing file: no error")
		}
	})

	// file names
	r.Each("filenames", r.Q(1000, 10000), func(c *Case) {
		rng := c.Rng
		base := []string{"a", "a.b", "/x/y.csv/z", "./c", "x.json.bak", "data.2020", "é", "a b", "x.gz"}[rng.Intn(9)]
		ext := []string{"csv", "json", "cbor", "xml", "xlsx", "ndjson", "jsonl", "txt", "doc", ""}[rng.Intn(10)]
		cmp := []string{"", "", "gz", "gzip", "zst", "zstd", "bz2"}[rng.Intn(7)]
		name := base
		if ext != "" {
			name += "." + ext
		}
		if cmp != "" {
			name += "." + cmp
		}
		wantC := map[string]string{"gz": "gzip", "gzip": "gzip", "zst": "zst", "zstd": "zst"}[cmp]
		wantF := map[string]string{"csv": "csv", "json": "json", "cbor": "cbor", "xml": "xml", "xlsx": "xlsx", "ndjson": "ndjson", "jsonl": "ndjson"}[ext]
		if ext == "" || cmp == "bz2" {
			wantF = "" // the base names have no data extension of their own
		}
		df, cf, err := detect.FormatFromFilename(name)
		if (err == nil) != (wantF != "") {
			c.Fail("filename", "%q: error %v, expected format %q", name, err, wantF)
			return
		}
		if err == nil && (df.String() != wantF || cf.String() != wantC) {
			c.Fail("filename", "%q is %q %q, expected %q %q", name, df, cf, wantF, wantC)
			return
		}
		c.Ev("filenames")
		c.Distinct("name", name)
	})

	// detected structures belong to the caller
	r.Serial("owned", r.Q(200, 1000), func(c *Case) {
		kind := []string{"json-array", "json-object", "ndjson", "cbor-array", "cbor-object", "csv"}[c.Idx%6]
		d := genDoc(c, kind, "", 1+c.Rng.Intn(4))
		det := func() *dataset.Structure {
			st, _, err := detect.FromReader(d.st.DataFormat(), compression.FmtNone, bytes.NewReader(d.b))
			if err != nil {
				return nil
			}
			return st
		}
		a := det()
		if a == nil {
			return
		}
		pre := dumpUntitled(a)
		g := globals9()
		scribble(a.Schema)
		scribble(a.FormatConfig)
		a.Format = "x"
		if b := dumpUntitled(det()); b != pre {
			c.Fail("owned:"+kind, "%s: changing a detected structure changed a later detection: %s", kind, firstDiff(pre, b))
			return
		}
		if e := globals9(); e != g {
			c.Fail("owned:"+kind, "%s: changing a detected structure changed package level values: %s", kind, firstDiff(g, e))
			return
		}
		c.Ev("owned")
		c.Distinct("owned", d.b)
	})
}
