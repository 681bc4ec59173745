package main

import (
	"fmt"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
)

func init() {
	register(&Prop{
		ID:   "C02",
		Rule: "random tabular schemas (1-53 typed columns), rows conforming to them and format configurations (header row, separator, lazy quotes, variadic fields, sheet name, compression), written and read back through the real CSV and XLSX writers and readers; non-trivial: at least one row, distinct by schema, configuration and rows",
		Assume: []string{
			"columns have a single type and values conform to it; null only in null columns; strings have no carriage return (the reader rewrites those by design)",
			"XLSX strings are XML-representable and at most 32767 characters, as the format requires",
			"numbers are compared by value",
		},
		Need: map[string]int64{"roundtrips": 500, "rows": 2000, "header": 100, "separator": 100, "xlsx": 50, "misfits": 2000, "wide": 8},
		Run:  runC02,
	})
}

func csvConfig(c *Case) obj {
	cfg := obj{}
	if c.Rng.Intn(2) == 0 {
		cfg["headerRow"] = true
		c.Ev("header")
	}
	if c.Rng.Intn(3) == 0 {
		cfg["separator"] = []string{",", ";", "|", "\t", " ", ":", "#", "'", "a", "0", "-", "{"}[c.Rng.Intn(12)]
		c.Ev("separator")
	}
	if c.Rng.Intn(3) == 0 {
		cfg["lazyQuotes"] = true
	}
	if c.Rng.Intn(3) == 0 {
		cfg["variadicFields"] = true
	}
	if len(cfg) == 0 {
		return nil
	}
	return cfg
}

func genRows(c *Case, cs []col, n int, o vopts, variadic bool) arr {
	rows := make(arr, n)
	for i := range rows {
		m := len(cs)
		if variadic && c.Rng.Intn(3) == 0 {
			m = 1 + c.Rng.Intn(len(cs))
		}
		row := make(arr, m)
		for j := range row {
			row[j] = genCell(c.Rng, cs[j].typ, o)
		}
		rows[i] = row
	}
	return rows
}

func runC02(r *Run) {
	one := func(c *Case, format string, cs []col, cfg obj, comp string, rows arr) {
		st := stale(c.Rng, &dataset.Structure{Format: format, Schema: tabularSchema(cs), FormatConfig: cfg, Compression: comp})
		in := rows
		if c.Rng.Intn(4) == 0 {
			// integers of the other Go type
			in = make(arr, len(rows))
			for i, row := range rows {
				cp := append(arr{}, row.(arr)...)
				for j, v := range cp {
					if n, ok := v.(int64); ok {
						cp[j] = int(n)
					}
				}
				in[i] = cp
			}
		}
		b, err := writeBody(st, entriesArr(in))
		if err != nil {
			c.Fail("write:"+format, "writer refused conforming rows: %v", err)
			return
		}
		c.Ev("roundtrips")
		c.EvN("rows", len(rows))
		c.Ev(format)
		if len(rows) > 0 {
			c.Distinct(format, mustJSON(cfg), comp, fmt.Sprint(cs), fmt.Sprint(rows))
		}
		c.Sample("%s cfg=%s comp=%q cols=%v rows=%s", format, mustJSON(cfg), comp, cs, clipv(rows))
		t := readBodyBytes(st, b)
		if d := diffArr(rows, t, eqOpts{floatPrec: false}); d != "" {
			c.Fail("roundtrip:"+format, "cfg %s comp %q cols %v: %s\nbytes %s", mustJSON(cfg), comp, cs, d, quoteClip(b))
		}
	}
	r.Each("csv", r.Q(6000, 90000), func(c *Case) {
		cs := genCols(c.Rng, colTypes)
		cfg := csvConfig(c)
		v, _ := cfg["variadicFields"].(bool)
		o := vopts{noCR: true, bigString: true}
		one(c, "csv", cs, cfg, genComp(c.Rng), genRows(c, cs, genCount(c.Rng, len(cs) < 8), o, v))
	})
	// one column: rows of single, possibly empty, values
	r.Each("csv-single", r.Q(1500, 20000), func(c *Case) {
		cs := []col{{"only", colTypes[c.Rng.Intn(len(colTypes))]}}
		if c.Rng.Intn(6) == 0 {
			cs[0].title = ""
		}
		rows := genRows(c, cs, 1+c.Rng.Intn(8), vopts{noCR: true}, false)
		if cs[0].typ == "string" {
			for i := range rows {
				if c.Rng.Intn(3) == 0 {
					rows[i] = arr{[]string{"", " ", "\n", "\"", "\"\""}[c.Rng.Intn(5)]}
				}
			}
		}
		one(c, "csv", cs, csvConfig(c), genComp(c.Rng), rows)
	})
	// bodies and cells crossing the read buffers
	r.Each("csv-big", r.Q(60, 600), func(c *Case) {
		cs := genCols(c.Rng, []string{"string", "integer", "number"})
		rows := genRows(c, cs, 5, vopts{noCR: true}, false)
		for i := range rows {
			for j := range cs {
				if cs[j].typ == "string" && c.Rng.Intn(2) == 0 {
					rows[i].(arr)[j] = strings.ReplaceAll(bigStr(c.Rng, bigEdges[c.Rng.Intn(len(bigEdges))]/(1+c.Rng.Intn(4))), "\r", "")
				}
			}
		}
		one(c, "csv", cs, csvConfig(c), genComp(c.Rng), rows)
	})
	r.Each("csv-many", r.Q(8, 60), func(c *Case) {
		cs := genCols(c.Rng, []string{"string", "integer", "number", "boolean"})
		if len(cs) > 6 {
			cs = cs[:6]
		}
		one(c, "csv", cs, csvConfig(c), genComp(c.Rng), genRows(c, cs, 20000, vopts{noCR: true}, false))
	})
	r.Each("xlsx", r.Q(500, 6000), func(c *Case) {
		cs := genCols(c.Rng, colTypes)
		var cfg obj
		if c.Rng.Intn(2) == 0 {
			cfg = obj{"sheetName": []string{"Sheet1", "Sheet2", "data", "Über uns", "a b", "sheet1", " Sheet1", "a:b", "a/b", "a\\b", "a?b", "a*b", "[x]", "'q'", "<&>", strings.Repeat("long", 8)[:31], strings.Repeat("long", 10), "Sheet 1!A1"}[c.Rng.Intn(18)]}
		}
		o := vopts{noCR: true, xmlSafe: true}
		one(c, "xlsx", cs, cfg, "", genRows(c, cs, c.Rng.Intn(12), o, false))
	})
	// wide tables
	r.Each("wide", r.Q(8, 60), func(c *Case) {
		n := []int{700, 703, 729, 800, 1377, 2100, 256, 257, 1024}[c.Rng.Intn(9)]
		cs := make([]col, n)
		for i := range cs {
			cs[i] = col{fmt.Sprintf("c%d", i), []string{"integer", "string", "boolean"}[i%3]}
		}
		o := vopts{noCR: true, xmlSafe: true}
		f := []string{"xlsx", "csv"}[c.Idx%2]
		one(c, f, cs, nil, "", genRows(c, cs, 1+c.Rng.Intn(3), o, false))
		c.Ev("wide")
	})
	// many rows
	r.Each("long", r.Q(3, 12), func(c *Case) {
		n := []int{65537, 70001, 66000}[c.Idx%3]
		f := []string{"xlsx", "csv"}[c.Idx%2]
		cs := []col{{"a", "integer"}}
		rows := make(arr, n)
		for i := range rows {
			rows[i] = arr{int64(i)}
		}
		one(c, f, cs, nil, "", rows)
		c.Ev("long")
	})
	// text that spells no value of its column's type stays text
	misfits := map[string][]string{
		"number":  {"", "abc", "1,5", "--1", "1e", "e5", "1.2.3", "1 x", "one", "12%", "$3", "0x", "1-2", "3/4"},
		"integer": {"", "1.5", "abc", "1e3", "99999999999999999999", "12a", "--2", "1,000", "0b2", "1 2", "0x10", "0X1F", "0xff", "-0x1", "0b10", "0o7", "0o17", "1_000", " 1", "1 ", "1_0", "0x", "٣", "1.0", "2."},
		"boolean": {"", "yes", "truee", "fals", "2", "maybe", "true false", "truth"},
		"object":  {"", `{"a":1} x`, `[1]`, `{"a"`, "{", "text", `{"a":1}}`, "5", `{"a":1} {"b":2}`, `{a:1}`, `{"a":1,}`, "true", `"s"`},
		"array":   {"", `[1]]`, "[1,", `{"a":1}`, "[1] x", "x", "[1] [2]", "[1,]", "5", "[x]", `"[]"`},
		"null":    {"nul", "NULLs", "0", "x", "nullnull", "false", "null x"},
		"string":  {"", "null", "1", "true", "[1]", "{}"},
	}
	r.Each("misfits", r.Q(1500, 20000), func(c *Case) {
		cs := genCols(c.Rng, colTypes)
		for len(cs) < 2 {
			cs = genCols(c.Rng, colTypes)
		}
		rows := genRows(c, cs, 1+c.Rng.Intn(6), vopts{noCR: true, xmlSafe: true}, false)
		for i := range rows {
			for j := range cs {
				if m := misfits[cs[j].typ]; len(m) > 0 && c.Rng.Intn(2) == 0 {
					rows[i].(arr)[j] = m[c.Rng.Intn(len(m))]
					c.Ev("misfits")
				}
			}
		}
		if c.Rng.Intn(3) == 0 {
			one(c, "xlsx", cs, nil, "", rows)
			return
		}
		one(c, "csv", cs, csvConfig(c), genComp(c.Rng), rows)
	})
	// line breaks inside CSV text come back as line feeds
	r.Each("csv-breaks", r.Q(600, 6000), func(c *Case) {
		cs := genCols(c.Rng, []string{"string", "integer"})
		rows := genRows(c, cs, 1+c.Rng.Intn(6), vopts{}, false)
		for i := range rows {
			for j, v := range rows[i].(arr) {
				if s, ok := v.(string); ok && c.Rng.Intn(2) == 0 {
					k := 0
					if len(s) > 0 {
						k = c.Rng.Intn(len(s))
					}
					rows[i].(arr)[j] = s[:k] + []string{"\r", "\r\n", "\n", "\r\r", "\n\r\n", "\r\n\r"}[c.Rng.Intn(6)] + s[k:]
				}
			}
		}
		st := stale(c.Rng, &dataset.Structure{Format: "csv", Schema: tabularSchema(cs), FormatConfig: csvConfig(c), Compression: genComp(c.Rng)})
		b, err := writeBody(st, entriesArr(rows))
		if err != nil {
			c.Fail("write:csv", "writer refused conforming rows: %v", err)
			return
		}
		want := make(arr, len(rows))
		for i := range rows {
			cp := append(arr{}, rows[i].(arr)...)
			for j, v := range cp {
				if s, ok := v.(string); ok {
					cp[j] = strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\r", "\n")
				}
			}
			want[i] = cp
		}
		if d := diffArr(want, readBodyBytes(st, b), eqOpts{floatPrec: false}); d != "" {
			c.Fail("breaks:csv", "cfg %s comp %q: %s\nbytes %s", mustJSON(st.FormatConfig), st.Compression, d, quoteClip(b))
		}
		c.Ev("roundtrips")
		c.Distinct("breaks", mustJSON(st.FormatConfig), fmt.Sprint(rows))
	})
	// XLSX text at the edges of what a cell can hold: the same text or an error
	r.Each("xlsx-edges", r.Q(120, 1500), func(c *Case) {
		st := stale(c.Rng, &dataset.Structure{Format: "xlsx", Schema: tabularSchema([]col{{"a", "string"}, {"b", "string"}})})
		var s string
		switch c.Rng.Intn(3) {
		case 0:
			n := []int{32766, 32767, 32768, 40000, 8192, 65536, 100000}[c.Rng.Intn(7)]
			s = bigStr(c.Rng, n)
			s = strings.Map(func(r rune) rune {
				if r < ' ' {
					return 'x'
				}
				return r
			}, s)
			if c.Rng.Intn(2) == 0 && len(s) > n {
				s = strings.ToValidUTF8(s[:n], "")
			}
		case 1:
			s = genString(c.Rng, vopts{}) + []string{"\x00", "\x01", "\x1f", "\x0b", "\ufffe", "\uffff", "\ufffd", "\x7f", "\u0085", "\t", "\r", "_x000D_"}[c.Rng.Intn(12)]
		default:
			s = genString(c.Rng, vopts{})
		}
		rows := arr{arr{"first", "1"}, arr{s, "2"}, arr{"last", "3"}}
		b, err := writeBody(st, entriesArr(rows))
		if err != nil {
			if len(s) <= 32767 && strings.IndexFunc(s, func(r rune) bool {
				return r < ' ' && r != '\t' && r != '\n' && r != '\r' || r >= 0xfffd && r <= 0xffff
			}) < 0 {
				c.Fail("write:xlsx", "writer refused text of %d bytes: %v", len(s), err)
			}
			c.Ev("refused")
			return
		}
		if d := diffArr(rows, readBodyBytes(st, b), eqOpts{}); d != "" {
			c.Fail("xlsx-altered", "text of %d bytes: %s", len(s), clip(d, 600))
		}
		c.Ev("roundtrips")
		c.Distinct("edge", s)
	})
	// compression is refused rather than mishandled where the format has none
	r.Each("xlsx-compression", 2, func(c *Case) {
		st := stale(c.Rng, &dataset.Structure{Format: "xlsx", Schema: tabularSchema([]col{{"a", "string"}}), Compression: []string{"gzip", "zst"}[c.Idx]})
		if _, err := dsio.NewEntryWriter(st, &strings.Builder{}); err == nil {
			c.Fail("xlsx-comp-w", "xlsx writer accepts compression %s", st.Compression)
		}
		if _, err := dsio.NewEntryReader(st, strings.NewReader("")); err == nil {
			c.Fail("xlsx-comp-r", "xlsx reader accepts compression %s", st.Compression)
		}
	})
	// rows the format cannot hold are refused, not altered
	r.Each("refuse", r.Q(200, 1000), func(c *Case) {
		f := []string{"csv", "xlsx"}[c.Idx%2]
		st := stale(c.Rng, &dataset.Structure{Format: f, Schema: tabularSchema([]col{{"a", "string"}, {"b", "string"}})})
		bad := []interface{}{"str", int64(1), obj{"a": 1}, nil, true, arr{"a", struct{ X int }{1}}, arr{make(chan int), "b"}, arr{arr{make(chan int)}, "b"}, arr{"a", obj{"x": func() {}}}}
		v := bad[c.Rng.Intn(len(bad))]
		c.Ev("refused")
		if _, err := writeBody(st, []dsio.Entry{{Value: v}}); err == nil {
			c.Fail(fmt.Sprintf("refuse:%s:%T", f, v), "%s writer accepted %T %v and dropped it", f, v, clipv(v))
		}
	})
}
