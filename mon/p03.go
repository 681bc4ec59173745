package main

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"

	"github.com/qri-io/dataset"
)

func init() {
	register(&Prop{
		ID:   "C03",
		Rule: "both directions against independent reference codecs: (a) random values spelled by a reference encoder with random legal variations (JSON whitespace, escapes, surrogate pairs, number spellings; CBOR over-long heads, indefinite lengths, half/single floats, tags, undefined; CSV quoting and LF/CRLF/CR line ends; NDJSON without final newline) must be read as those values; (b) what the writers produce must be read by a reference decoder as the values written; non-trivial: at least one entry, distinct by document bytes",
		Assume: []string{
			"documents are valid in their format with valid UTF-8 text and string keys; nested objects have no duplicate keys",
			"integers beyond int64 and non-integer spellings are compared at float64 precision",
		},
		Need: map[string]int64{"read_docs": 2000, "write_docs": 1000},
		Run:  runC03,
	})
}

func runC03(r *Run) {
	n := r.Q(1500, 25000)
	read := func(c *Case, kind string, st *dataset.Structure, doc []byte, want arr, ps []kv, ordered bool) {
		c.Ev("read_docs")
		if len(want)+len(ps) > 0 {
			c.Distinct(kind, doc)
		}
		c.Sample("%s %s", kind, quoteClip(doc))
		t := readBodyBytes(st, doc)
		d := ""
		if ps != nil {
			d = diffObj(ps, t, ordered, eqOpts{})
		} else {
			d = diffArr(want, t, eqOpts{})
		}
		if d != "" {
			c.Fail("read:"+kind, "%s\ndocument %s", d, quoteClip(doc))
		}
	}
	r.Each("read-json", n, func(c *Case) {
		s := &jsonStyle{r: c.Rng, ws: []int{0, 1, 2, 5}[c.Rng.Intn(4)], escapes: c.Rng.Intn(2) == 0, nums: c.Rng.Intn(2) == 0}
		var b bytes.Buffer
		s.space(&b)
		o := vopts{maxDepth: 3, bigString: true}
		if c.Rng.Intn(2) == 0 {
			want := genArr(c.Rng, genCount(c.Rng, true), o)
			s.val(&b, want)
			s.space(&b)
			read(c, "json-array", stFor(c.Rng, "json", "array", ""), b.Bytes(), want, nil, true)
			return
		}
		ps := genPairs(c.Rng, genCount(c.Rng, true), o)
		if ps == nil {
			ps = []kv{}
		}
		if len(ps) > 0 && c.Rng.Intn(10) == 0 {
			ps[0].k = "" // legal in JSON
		}
		s.pairs(&b, ps)
		s.space(&b)
		read(c, "json-object", stFor(c.Rng, "json", "object", ""), b.Bytes(), nil, ps, true)
	})
	// every escape position relative to the reader's block and buffer sizes
	r.Each("read-json-align", r.Q(300, 3000), func(c *Case) {
		s := &jsonStyle{r: c.Rng, escapes: true, ws: 3}
		edge := []int{4096, 8192, 262144, 65536}[c.Rng.Intn(4)]
		var b bytes.Buffer
		pad := edge - c.Rng.Intn(40) - 6
		want := arr{string(bytes.Repeat([]byte("p"), pad-20)), genValue(c.Rng, vopts{maxDepth: 2}), genString(c.Rng, vopts{}), true, nil, false, int64(-123456), 1.5e-7, obj{"a": arr{"\\", "\"", "😀"}}}
		s.val(&b, want)
		read(c, "json-array", stFor(c.Rng, "json", "array", ""), b.Bytes(), want, nil, true)
	})
	r.Each("read-ndjson", n/2, func(c *Case) {
		s := &jsonStyle{r: c.Rng, ws: []int{0, 1, 3}[c.Rng.Intn(3)], escapes: c.Rng.Intn(2) == 0, nums: c.Rng.Intn(2) == 0, noNL: true}
		want := genArr(c.Rng, genCount(c.Rng, true), vopts{maxDepth: 3, safeInts: true, bigString: true})
		var b bytes.Buffer
		for i, v := range want {
			s.space(&b)
			s.val(&b, v)
			s.space(&b)
			if i < len(want)-1 || c.Rng.Intn(2) == 0 {
				b.WriteString([]string{"\n", "\r\n"}[c.Rng.Intn(2)])
			}
		}
		read(c, "ndjson", stFor(c.Rng, "ndjson", "array", ""), b.Bytes(), want, nil, true)
	})
	r.Each("read-cbor", n, func(c *Case) {
		s := &cborStyle{r: c.Rng, wide: c.Rng.Intn(2) == 0, indef: c.Rng.Intn(2) == 0, tags: c.Rng.Intn(3) == 0, halves: c.Rng.Intn(2) == 0}
		o := vopts{maxDepth: 3, bigString: true, bytes: true}
		var b bytes.Buffer
		if c.Rng.Intn(2) == 0 {
			want := genArr(c.Rng, genCount(c.Rng, true), o)
			s.items(&b, want)
			read(c, "cbor-array", stFor(c.Rng, "cbor", "array", ""), b.Bytes(), want, nil, true)
			return
		}
		ps := genPairs(c.Rng, genCount(c.Rng, true), o)
		if ps == nil {
			ps = []kv{}
		}
		s.pairs(&b, ps)
		read(c, "cbor-object", stFor(c.Rng, "cbor", "object", ""), b.Bytes(), nil, ps, true)
	})
	// map keys that are not text have no equivalent: refused, not made up
	r.Each("read-cbor-keys", r.Q(300, 3000), func(c *Case) {
		s := &cborStyle{r: c.Rng, wide: c.Rng.Intn(2) == 0}
		ps := genPairs(c.Rng, 1+c.Rng.Intn(4), vopts{maxDepth: 2})
		at := c.Rng.Intn(len(ps))
		var b bytes.Buffer
		top := "object"
		depth := c.Rng.Intn(3)
		if depth > 0 {
			top = "array"
			for i := 0; i < depth; i++ {
				s.head(&b, 4, 1)
			}
		}
		indef := c.Rng.Intn(2) == 0
		if indef {
			b.WriteByte(0xbf)
		} else {
			s.head(&b, 5, uint64(len(ps)))
		}
		for i, p := range ps {
			if i == at {
				switch c.Rng.Intn(6) {
				case 0:
					s.val(&b, int64(c.Rng.Intn(1000)-500))
				case 1:
					s.val(&b, nil)
				case 2:
					s.val(&b, c.Rng.Float64())
				case 3:
					s.val(&b, true)
				case 4:
					s.val(&b, arr{})
				case 5:
					s.val(&b, obj{})
				}
			} else {
				s.val(&b, p.k)
			}
			s.val(&b, p.v)
		}
		if indef {
			b.WriteByte(0xff)
		}
		t := readBodyBytes(stFor(c.Rng, "cbor", top, ""), b.Bytes())
		c.Ev("refused_keys")
		if t.err == nil {
			c.Fail("cbor-keys", "a map with a key that is not text is read as %s\nbytes %x", clipv(t.ents), clip(b.String(), 200))
		}
		c.Distinct("keys", b.Bytes())
	})
	// all half-precision numbers, all one-byte heads, number boundaries
	r.Each("read-cbor-exhaust", 1, func(c *Case) {
		var b bytes.Buffer
		s := &cborStyle{r: c.Rng}
		var want arr
		s.head(&b, 4, 1<<16)
		for h := 0; h < 1<<16; h++ {
			b.Write([]byte{0xf9, byte(h >> 8), byte(h)})
			want = append(want, f16val(uint16(h)))
		}
		read(c, "cbor-f16", stFor(c.Rng, "cbor", "array", ""), b.Bytes(), want, nil, true)
		b.Reset()
		want = nil
		for _, i := range intEdges {
			for d := int64(-3); d <= 3; d++ {
				want = append(want, i+d)
			}
		}
		for _, f := range floatEdges {
			want = append(want, f, -f)
		}
		want = append(want, math.Inf(1), math.Inf(-1), math.NaN(), float64(math.MaxUint64))
		s.head(&b, 4, uint64(len(want)))
		for _, v := range want[:len(want)-1] {
			s.val(&b, v)
		}
		s.val(&b, uint64(math.MaxUint64)) // read at float64 precision
		read(c, "cbor-numbers", stFor(c.Rng, "cbor", "array", ""), b.Bytes(), want, nil, true)
	})
	r.Each("read-csv", n, func(c *Case) {
		cs := genCols(c.Rng, []string{"string", "string", "number", "integer", "boolean"})
		cfg := csvConfig(c)
		if _, ok := cfg["separator"]; ok {
			cfg["separator"] = []string{",", ";", "|", "\t"}[c.Rng.Intn(4)]
		}
		sep := byte(',')
		if s, ok := cfg["separator"].(string); ok {
			sep = s[0]
		}
		rows := genRows(c, cs, c.Rng.Intn(12), vopts{noCR: true, bigString: true}, false)
		var text [][]string
		if cfg["headerRow"] == true {
			h := []string{}
			for _, cc := range cs {
				h = append(h, cc.title)
			}
			text = append(text, h)
		}
		for _, row := range rows {
			t := []string{}
			for _, v := range row.(arr) {
				t = append(t, cellText(v))
			}
			text = append(text, t)
		}
		eol := []string{"\n", "\r\n", "\r"}[c.Rng.Intn(3)]
		if cfg["lazyQuotes"] == true {
			eol = "\n"
		}
		doc := csvText(c.Rng, text, sep, eol, c.Rng.Intn(3) > 0)
		st := stale(c.Rng, &dataset.Structure{Format: "csv", Schema: tabularSchema(cs), FormatConfig: cfg})
		read(c, fmt.Sprintf("csv-%q", eol), st, doc, rows, nil, true)
	})

	// spreadsheets laid out by others: shared, inline and computed strings,
	// bare numbers, left out cells
	r.Each("read-xlsx", r.Q(400, 4000), func(c *Case) {
		cs := genCols(c.Rng, colTypes)
		var rows arr
		s := &xlsxStyle{r: c.Rng}
		for i := c.Rng.Intn(9); i > 0; i-- {
			row := arr{}
			for _, cc := range cs {
				v := genCell(c.Rng, cc.typ, vopts{noCR: true, xmlSafe: true})
				text, bare := "", false
				switch x := v.(type) {
				case nil, string:
					text, _ = v.(string)
				case bool:
					text = strconv.FormatBool(x)
					if c.Rng.Intn(2) == 0 {
						text, bare = map[bool]string{true: "1", false: "0"}[x], true
					}
				case int64:
					text, bare = strconv.FormatInt(x, 10), true
					if c.Rng.Intn(3) == 0 && cc.typ == "integer" {
						z := strings.Repeat("0", 1+c.Rng.Intn(3))
						text = strings.Replace(z+text, z+"-", "-"+z, 1)
					}
				case float64:
					text, bare = strconv.FormatFloat(x, "efgG"[c.Rng.Intn(4)], -1, 64), true
				default:
					text = mustJSON(v)
				}
				row = append(row, v)
				if text == "" && len(row) < len(cs) && c.Rng.Intn(2) == 0 {
					s.nc++ // left out
					continue
				}
				s.cell(text, bare)
			}
			s.endRow()
			rows = append(rows, row)
		}
		sheet := []string{"Sheet1", "data", "Über uns"}[c.Rng.Intn(3)]
		doc := s.file(sheet)
		st := stale(c.Rng, &dataset.Structure{Format: "xlsx", Schema: tabularSchema(cs)})
		if sheet != "Sheet1" {
			st.FormatConfig = obj{"sheetName": sheet}
		}
		if got, err := refXLSX(doc, sheet); err != nil || len(got) != len(rows) {
			panic(fmt.Sprint("harness: the reference decoder reads ", len(got), " of ", len(rows), " rows, ", err))
		}
		c.Ev("read_xlsx")
		read(c, "xlsx", st, doc, rows, nil, true)
	})

	// --- writers against reference decoders
	r.Each("write-json", n, func(c *Case) {
		f := rtFmts[[]int{0, 1, 5, 6}[c.Rng.Intn(4)]]
		o := vopts{maxDepth: 3, bigString: true}
		st := stFor(c.Rng, "json", f.tlt, "")
		b, want, ps, err := c03Write(c, f, st, o)
		if err != nil {
			c.Fail("write:"+f.name, "%v", err)
			return
		}
		d := ""
		if f.tlt == "array" {
			v, err := refJSON(b)
			if err != nil {
				c.Fail("write:"+f.name, "output is not JSON: %v\n%s", err, quoteClip(b))
				return
			}
			d = diffVal("", want, v, eqOpts{})
		} else {
			got, err := topPairs(b)
			if err != nil {
				c.Fail("write:"+f.name, "output is not a JSON object: %v\n%s", err, quoteClip(b))
				return
			}
			if len(got) != len(ps) {
				d = fmt.Sprintf("%d pairs written, %d in output", len(ps), len(got))
			}
			for i := 0; d == "" && i < len(ps); i++ {
				if ps[i].k != got[i].k {
					d = fmt.Sprintf("pair %d: key %q written, %q in output", i, ps[i].k, got[i].k)
				} else {
					d = diffVal(fmt.Sprintf("pair %d", i), ps[i].v, got[i].v, eqOpts{})
				}
			}
		}
		if d != "" {
			c.Fail("write:"+f.name, "%s\n%s", d, quoteClip(b))
		}
	})
	r.Each("write-ndjson", n/2, func(c *Case) {
		f := rtFmts[4]
		b, want, _, err := c03Write(c, f, stFor(c.Rng, "ndjson", "array", ""), vopts{maxDepth: 3, bigString: true})
		if err != nil {
			c.Fail("write:"+f.name, "%v", err)
			return
		}
		lines := bytes.Split(b, []byte("\n"))
		if len(lines) == 0 || len(lines[len(lines)-1]) != 0 || len(lines)-1 != len(want) {
			c.Fail("write:"+f.name, "%d entries but %d newline-terminated lines\n%s", len(want), len(lines)-1, quoteClip(b))
			return
		}
		for i := range want {
			v, err := refJSON(lines[i])
			if err != nil {
				c.Fail("write:"+f.name, "line %d is not JSON: %v %s", i, err, quoteClip(lines[i]))
				return
			}
			if d := diffVal(fmt.Sprintf("line %d", i), want[i], v, eqOpts{}); d != "" {
				c.Fail("write:"+f.name, "%s", d)
				return
			}
		}
	})
	r.Each("write-cbor", n, func(c *Case) {
		f := rtFmts[2+c.Rng.Intn(2)]
		b, want, ps, err := c03Write(c, f, stFor(c.Rng, "cbor", f.tlt, ""), vopts{maxDepth: 3, bigString: true, bytes: true})
		if err != nil {
			c.Fail("write:"+f.name, "%v", err)
			return
		}
		v, _, err := refCBOR(b)
		if err != nil {
			c.Fail("write:"+f.name, "output is not CBOR: %v\n%x", err, clip(string(b), 300))
			return
		}
		var w interface{} = want
		if f.tlt == "object" {
			m := obj{}
			for _, p := range ps {
				m[p.k] = p.v
			}
			w = m
		}
		if d := diffVal("", w, v, eqOpts{}); d != "" {
			c.Fail("write:"+f.name, "%s\n%x", d, clip(string(b), 300))
		}
	})
	r.Each("write-csv", n, func(c *Case) {
		cs := genCols(c.Rng, colTypes)
		cfg := csvConfig(c)
		sep := byte(',')
		if s, ok := cfg["separator"].(string); ok {
			sep = s[0]
		}
		v, _ := cfg["variadicFields"].(bool)
		rows := genRows(c, cs, c.Rng.Intn(10), vopts{noCR: true, bigString: true}, v)
		st := stale(c.Rng, &dataset.Structure{Format: "csv", Schema: tabularSchema(cs), FormatConfig: cfg})
		b, err := writeBody(st, entriesArr(rows))
		if err != nil {
			c.Fail("write:csv", "%v", err)
			return
		}
		c.Ev("write_docs")
		if len(rows) > 0 {
			c.Distinct("csv", b)
		}
		got, err := refCSV(b, sep)
		if err != nil {
			c.Fail("write:csv", "output is not CSV: %v\n%s", err, quoteClip(b))
			return
		}
		if cfg["headerRow"] == true {
			if len(got) == 0 {
				c.Fail("write:csv", "no header row in output")
				return
			}
			for j, cc := range cs {
				if j >= len(got[0]) || got[0][j] != cc.title {
					c.Fail("write:csv", "header %q, columns %v", got[0], cs)
					return
				}
			}
			got = got[1:]
		}
		if d := diffCells(rows, got); d != "" {
			c.Fail("write:csv", "%s\n%s", d, quoteClip(b))
		}
	})
	r.Each("write-xlsx", r.Q(200, 2000), func(c *Case) {
		cs := genCols(c.Rng, colTypes)
		sheet := "Sheet1"
		var cfg obj
		if c.Rng.Intn(2) == 0 {
			sheet = []string{"Sheet2", "data"}[c.Rng.Intn(2)]
			cfg = obj{"sheetName": sheet}
		}
		rows := genRows(c, cs, c.Rng.Intn(10), vopts{noCR: true, xmlSafe: true}, false)
		b, err := writeBody(stale(c.Rng, &dataset.Structure{Format: "xlsx", Schema: tabularSchema(cs), FormatConfig: cfg}), entriesArr(rows))
		if err != nil {
			c.Fail("write:xlsx", "%v", err)
			return
		}
		c.Ev("write_docs")
		c.Distinct("xlsx", fmt.Sprint(rows))
		got, err := refXLSX(b, sheet)
		if err != nil {
			c.Fail("write:xlsx", "%v", err)
			return
		}
		if d := diffCells(rows, got); d != "" {
			c.Fail("write:xlsx", "%s", d)
		}
	})
}

// xlsxStyle lays out a spreadsheet
type xlsxStyle struct {
	r      *rand.Rand
	rows   bytes.Buffer
	shared []string
	nr, nc int
	cells  string
}

func colName(i int) string {
	s := ""
	for i++; i > 0; i = (i - 1) / 26 {
		s = string(rune('A'+(i-1)%26)) + s
	}
	return s
}

func xmlText(s string) string {
	var b bytes.Buffer
	if err := xml.EscapeText(&b, []byte(s)); err != nil {
		panic(err)
	}
	return b.String()
}

func (s *xlsxStyle) cell(text string, bare bool) {
	ref := fmt.Sprintf("%s%d", colName(s.nc), s.nr+1)
	s.nc++
	form := s.r.Intn(4)
	switch {
	case bare && s.r.Intn(3) > 0:
		s.cells += fmt.Sprintf("<c r=%q><v>%s</v></c>", ref, xmlText(text))
	case form == 0:
		s.cells += fmt.Sprintf("<c r=%q t=\"inlineStr\"><is><t xml:space=\"preserve\">%s</t></is></c>", ref, xmlText(text))
	case form == 1:
		s.cells += fmt.Sprintf("<c r=%q t=\"str\"><v>%s</v></c>", ref, xmlText(text))
	default:
		k := -1
		for i, t := range s.shared {
			if t == text {
				k = i
			}
		}
		if k < 0 || s.r.Intn(3) == 0 {
			k = len(s.shared)
			s.shared = append(s.shared, text)
		}
		s.cells += fmt.Sprintf("<c r=%q t=\"s\"><v>%d</v></c>", ref, k)
	}
}

func (s *xlsxStyle) endRow() {
	s.nr++
	fmt.Fprintf(&s.rows, "<row r=\"%d\">%s</row>", s.nr, s.cells)
	s.cells, s.nc = "", 0
}

func (s *xlsxStyle) file(sheet string) []byte {
	const head = `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>` + "\n"
	const main = `xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main"`
	const rel = `http://schemas.openxmlformats.org/officeDocument/2006/relationships`
	var sst bytes.Buffer
	for _, t := range s.shared {
		if n := strings.IndexByte(t, 'a'); n >= 0 && s.r.Intn(2) == 0 {
			// text in runs
			fmt.Fprintf(&sst, `<si><r><t xml:space="preserve">%s</t></r><r><rPr><b/></rPr><t xml:space="preserve">%s</t></r></si>`, xmlText(t[:n]), xmlText(t[n:]))
			continue
		}
		fmt.Fprintf(&sst, `<si><t xml:space="preserve">%s</t></si>`, xmlText(t))
	}
	one := `<sheet name="` + xmlText(sheet) + `" sheetId="1" r:id="rId1"/>`
	other := `<sheet name="Other" sheetId="2" r:id="rId9"/>`
	sheets := []string{one, one + other, other + one}[s.r.Intn(3)]
	parts := [][2]string{
		{"xl/worksheets/sheet2.xml", `<worksheet ` + main + `><sheetData><row r="1"><c r="A1"><v>77</v></c></row></sheetData></worksheet>`},
		{"[Content_Types].xml", `<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/><Default Extension="xml" ContentType="application/xml"/><Override PartName="/xl/workbook.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.sheet.main+xml"/><Override PartName="/xl/worksheets/sheet1.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml"/><Override PartName="/xl/sharedStrings.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.sharedStrings+xml"/></Types>`},
		{"_rels/.rels", `<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId1" Type="` + rel + `/officeDocument" Target="xl/workbook.xml"/></Relationships>`},
		{"xl/workbook.xml", `<workbook ` + main + ` xmlns:r="` + rel + `"><sheets>` + sheets + `</sheets></workbook>`},
		{"xl/_rels/workbook.xml.rels", `<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId1" Type="` + rel + `/worksheet" Target="worksheets/sheet1.xml"/><Relationship Id="rId2" Type="` + rel + `/sharedStrings" Target="sharedStrings.xml"/><Relationship Id="rId9" Type="` + rel + `/worksheet" Target="worksheets/sheet2.xml"/></Relationships>`},
		{"xl/worksheets/sheet1.xml", `<worksheet ` + main + `><sheetData>` + s.rows.String() + `</sheetData></worksheet>`},
		{"xl/sharedStrings.xml", `<sst ` + main + fmt.Sprintf(` count="%d" uniqueCount="%d">`, len(s.shared), len(s.shared)) + sst.String() + `</sst>`},
	}
	var b bytes.Buffer
	z := zip.NewWriter(&b)
	for _, p := range parts {
		m := zip.Deflate
		if s.r.Intn(3) == 0 {
			m = zip.Store
		}
		w, err := z.CreateHeader(&zip.FileHeader{Name: p[0], Method: m})
		if err == nil {
			_, err = w.Write([]byte(head + p[1]))
		}
		if err != nil {
			panic(err)
		}
	}
	if err := z.Close(); err != nil {
		panic(err)
	}
	return b.Bytes()
}

// cellText is the documented text of a table cell
func cellText(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return ""
	case string:
		return x
	case bool:
		return strconv.FormatBool(x)
	case int64:
		return strconv.FormatInt(x, 10)
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64)
	}
	panic(fmt.Sprintf("%T", v))
}

// diffCells compares rows with the texts found in a file
func diffCells(rows arr, got [][]string) string {
	if len(rows) != len(got) {
		return fmt.Sprintf("%d rows written, %d in output", len(rows), len(got))
	}
	for i := range rows {
		row := rows[i].(arr)
		if len(row) != len(got[i]) {
			return fmt.Sprintf("row %d: %d cells written, %d in output", i, len(row), len(got[i]))
		}
		for j, v := range row {
			g := got[i][j]
			switch x := v.(type) {
			case int64, float64:
				// any spelling of the same number will do
				if n, ok := x.(int64); ok {
					if gi, err := strconv.ParseInt(g, 10, 64); err == nil {
						if gi != n {
							return fmt.Sprintf("row %d cell %d: %v written, %q in output", i, j, v, g)
						}
						continue
					}
				}
				f, err := strconv.ParseFloat(g, 64)
				w, _ := toF64(x)
				if err != nil || f != w {
					return fmt.Sprintf("row %d cell %d: %v written, %q in output", i, j, v, g)
				}
			case arr, obj:
				jv, err := refJSON([]byte(g))
				if err != nil {
					return fmt.Sprintf("row %d cell %d: not JSON: %v %q", i, j, err, g)
				}
				if d := diffVal(fmt.Sprintf("row %d cell %d", i, j), v, jv, eqOpts{}); d != "" {
					return d
				}
			default:
				if g != cellText(v) {
					return fmt.Sprintf("row %d cell %d: %s written, %q in output", i, j, clipv(v), clip(g, 200))
				}
			}
		}
	}
	return ""
}

func c03Write(c *Case, f rtFmt, st *dataset.Structure, o vopts) (b []byte, want arr, ps []kv, err error) {
	n := genCount(c.Rng, true)
	if f.tlt == "array" {
		want = genArr(c.Rng, n, o)
		b, err = writeFmt(c, f, st, entriesArr(want))
	} else {
		ps = genPairs(c.Rng, n, o)
		b, err = writeFmt(c, f, st, entriesObj(ps))
	}
	c.Ev("write_docs")
	if n > 0 {
		c.Distinct(f.name, b)
	}
	return
}
