package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsio"
)

func init() {
	register(&Prop{
		ID:   "C29",
		Rule: "formats, kinds, option maps and column positions are enumerated (positions to 200000 quick, 3000000 thorough) and random texts and maps are drawn around them; a case counts when a conversion and its inverse, or a refusal, were compared with an independent table",
		Need: map[string]int64{"formats": 20, "format_refusals": 500, "kinds": 500, "options": 2000, "option_refusals": 300, "positions": 200000, "file_names": 1000},
		Run:  runC29,
	})
}

var formatNames = map[dataset.DataFormat]string{
	dataset.CSVDataFormat: "csv", dataset.JSONDataFormat: "json", dataset.NDJSONDataFormat: "ndjson", dataset.CBORDataFormat: "cbor", dataset.XMLDataFormat: "xml", dataset.XLSXDataFormat: "xlsx",
}

var formatTexts = map[string]dataset.DataFormat{
	"": dataset.UnknownDataFormat, "csv": dataset.CSVDataFormat, "json": dataset.JSONDataFormat, "ndjson": dataset.NDJSONDataFormat, "jsonl": dataset.NDJSONDataFormat, "cbor": dataset.CBORDataFormat, "xml": dataset.XMLDataFormat, "xlsx": dataset.XLSXDataFormat,
}

func genCSVOpts(r *rand.Rand) (obj, bool) {
	m, ok := obj{}, true
	for _, k := range []string{"headerRow", "lazyQuotes", "variadicFields"} {
		switch r.Intn(5) {
		case 0, 1:
			m[k] = r.Intn(2) == 0
		case 2:
			if r.Intn(6) == 0 {
				m[k] = []interface{}{"true", 1, 0.0, "false", arr{}, obj{}, ""}[r.Intn(7)]
				ok = false
			} else if r.Intn(6) == 0 {
				m[k] = nil
			}
		}
	}
	switch r.Intn(5) {
	case 0, 1:
		m["separator"] = []string{",", ";", "\t", "|", " ", ":", "a", "0", "\x01", "~"}[r.Intn(10)]
	case 2:
		if r.Intn(3) == 0 {
			m["separator"] = []interface{}{"", ",,", "ab", ", ", 44, 44.0, true, arr{","}, 'x', "é", "→", "，", "\xc3\xa9", "\u00a0", "😀"}[r.Intn(15)]
			ok = false
		}
	}
	if r.Intn(4) == 0 {
		m["other"] = "ignored"
	}
	return m, ok
}

func base26name(i int) string {
	// bijective base 26, most significant letter first
	var out []byte
	for n := i + 1; n > 0; n = (n - 1) / 26 {
		out = append([]byte{byte('a' + (n-1)%26)}, out...)
	}
	return string(out)
}

func runC29(r *Run) {
	r.Serial("formats", 1, func(c *Case) {
		for f, name := range formatNames {
			c.Ev("formats")
			if f.String() != name {
				c.Fail("format-name", "format %d is named %q instead of %q", f, f.String(), name)
			}
			g, err := dataset.ParseDataFormatString(f.String())
			if err != nil || g != f {
				c.Fail("format-parse", "%q parses to %v, %v", f.String(), g, err)
			}
			b, err := json.Marshal(f)
			if err != nil || string(b) != `"`+name+`"` {
				c.Fail("format-json", "format %s encodes to %s, %v", name, b, err)
			}
			var h dataset.DataFormat
			if err := json.Unmarshal(b, &h); err != nil || h != f {
				c.Fail("format-json", "%s decodes to %v, %v", b, h, err)
			}
			if df := (&dataset.Structure{Format: name}).DataFormat(); df != f {
				c.Fail("format-parse", "a structure of format %q has data format %v", name, df)
			}
		}
		for s, f := range formatTexts {
			for _, t := range []string{s, "." + s} {
				if t == "." {
					continue
				}
				g, err := dataset.ParseDataFormatString(t)
				if err != nil || g != f {
					c.Fail("format-parse", "%q parses to %v, %v", t, g, err)
				}
				c.Ev("formats")
			}
		}
		if _, err := json.Marshal(dataset.UnknownDataFormat); err == nil {
			c.Fail("format-json", "the unknown format encodes without an error")
		}
		seen := map[dataset.DataFormat]bool{}
		for _, f := range dataset.SupportedDataFormats() {
			if formatNames[f] == "" || seen[f] {
				c.Fail("supported", "supported formats: %v", dataset.SupportedDataFormats())
			}
			seen[f] = true
		}
		l := dataset.SupportedDataFormats()
		l[0] = 99
		if dataset.SupportedDataFormats()[0] == 99 {
			c.Fail("supported", "the list of supported formats can be changed by its reader")
		}
	})
	r.Each("format-refuse", r.Q(2000, 20000), func(c *Case) {
		s := genString(c.Rng, vopts{})
		if c.Rng.Intn(2) == 0 {
			for b := range formatTexts {
				s = b
				break
			}
			ks := []string{"csv", "json", "ndjson", "jsonl", "cbor", "xml", "xlsx"}
			s = ks[c.Rng.Intn(len(ks))]
			s = []string{strings.ToUpper(s), s + " ", " " + s, ".." + s, s + ".", s[1:], s + "x", s[:len(s)-1], "." + s + ".gz", strings.Title(s), s + "\n", s + "\x00"}[c.Rng.Intn(12)]
		}
		if _, ok := formatTexts[strings.TrimPrefix(s, ".")]; ok && s != "." {
			return
		}
		c.Ev("format_refusals")
		c.Distinct("refuse", s)
		if f, err := dataset.ParseDataFormatString(s); err == nil || f != dataset.UnknownDataFormat {
			c.Fail("format-accepted", "%q parses to %v, %v", s, f, err)
		}
		if !utf8.ValidString(s) {
			return
		}
		f := dataset.CSVDataFormat
		b, _ := json.Marshal(s)
		if err := json.Unmarshal(b, &f); err == nil {
			c.Fail("format-accepted", "%s decodes to %v", b, f)
		}
		if df := (&dataset.Structure{Format: s}).DataFormat(); df != dataset.UnknownDataFormat {
			c.Fail("format-accepted", "a structure of format %q has data format %v", s, df)
		}
	})
	r.Each("format-json-refuse", 6, func(c *Case) {
		f := dataset.JSONDataFormat
		s := []string{"1", "true", "{}", "[]", `["csv"]`, "3.5"}[c.Idx]
		if err := json.Unmarshal([]byte(s), &f); err == nil {
			c.Fail("format-accepted", "%s decodes to %v", s, f)
		}
	})

	kinds := map[dataset.Kind]string{dataset.KindDataset: "ds", dataset.KindBody: "bd", dataset.KindMeta: "md", dataset.KindStructure: "st", dataset.KindTransform: "tf", dataset.KindCommit: "cm", dataset.KindViz: "vz", dataset.KindReadme: "rm", dataset.KindStats: "sa"}
	r.Serial("kinds", 1, func(c *Case) {
		if len(kinds) != 9 {
			c.Fail("kinds", "kinds are not distinct: %v", kinds)
		}
		for k, p := range kinds {
			if k.Type() != p || k.Version() != dataset.CurrentSpecVersion || k.Valid() != nil || k.String() != p+":"+dataset.CurrentSpecVersion {
				c.Fail("kinds", "kind %q: type %q version %q valid %v", k, k.Type(), k.Version(), k.Valid())
			}
			if s := dataset.ComponentTypePrefix(k, "hello"); s != p+":hello" {
				c.Fail("kind-prefix", "ComponentTypePrefix(%q) = %q", k, s)
			}
		}
	})
	r.Each("kind", r.Q(3000, 30000), func(c *Case) {
		var s string
		switch c.Rng.Intn(4) {
		case 0:
			s = genString(c.Rng, vopts{})
		case 1:
			s = []string{"", ":", "a", "ab", "ab:", "ab0", "a:0", "abc:0", "ab;0", ":ab:0", "ab 0", "::::", "ds", "0:ds", "ab", "a:bc", "abc:"}[c.Rng.Intn(17)]
		default:
			ab := "abcdefghijklmnopqrstuvwxyzABC"
			s = string(ab[c.Rng.Intn(29)]) + string(ab[c.Rng.Intn(29)]) + ":" + []string{"0", "1", "12", "v1.2", "0.0.1", "x", ":", "é", " "}[c.Rng.Intn(9)]
		}
		valid := len(s) >= 4 && s[2] == ':'
		letters := valid && s[0]|32 >= 'a' && s[0]|32 <= 'z' && s[1]|32 >= 'a' && s[1]|32 <= 'z'
		if valid && !letters {
			return // two characters that are not letters: undecided
		}
		c.Ev("kinds")
		c.Distinct("kind", s)
		k := dataset.Kind(s)
		if (k.Valid() == nil) != valid {
			c.Fail("kind-valid", "kind %q: Valid() = %v", s, k.Valid())
		}
		if valid {
			if k.Type() != s[:2] || k.Version() != s[3:] || k.String() != s {
				c.Fail("kind-parts", "kind %q: type %q version %q", s, k.Type(), k.Version())
			}
			if p := dataset.ComponentTypePrefix(k, "p/q"); p != s[:2]+":p/q" {
				c.Fail("kind-prefix", "ComponentTypePrefix(%q) = %q", k, p)
			}
		}
		if !utf8.ValidString(s) {
			return
		}
		b, _ := json.Marshal(s)
		var g dataset.Kind
		err := json.Unmarshal(b, &g)
		if (err == nil) != valid || (valid && g != k) {
			c.Fail("kind-json", "%s decodes to kind %q, %v", b, g, err)
		}
		if valid {
			b2, err := json.Marshal(k)
			if err != nil || string(b2) != string(b) {
				c.Fail("kind-json", "kind %q encodes to %s, %v", s, b2, err)
			}
		}
	})
	r.Each("kind-json-refuse", 5, func(c *Case) {
		var g dataset.Kind
		s := []string{"1", "true", "{}", `["ds:0"]`, `{"qri":"ds:0"}`}[c.Idx]
		if err := json.Unmarshal([]byte(s), &g); err == nil {
			c.Fail("kind-json", "%s decodes to kind %q", s, g)
		}
	})

	// options
	opts := func(c *Case, f dataset.DataFormat, m obj, ok bool) {
		before := dump(m)
		cfg, err := dataset.ParseFormatConfigMap(f, m)
		if dump(m) != before {
			c.Fail("options-changed", "parsing options changed them: %s", firstDiff(before, dump(m)))
		}
		if !ok {
			c.Ev("option_refusals")
			if err == nil {
				c.Fail("options-accepted", "wrongly typed %s options %s are accepted", f, clipv(m))
			}
			return
		}
		if err != nil {
			c.Fail("options-refused", "%s options %s: %v", f, clipv(m), err)
			return
		}
		c.Ev("options")
		c.Distinct("opts", f, mustJSON(m))
		if cfg.Format() != f {
			c.Fail("options-format", "%s options say they are of format %s", f, cfg.Format())
		}
		out := cfg.Map()
		// equivalent: everything set comes back, and nothing else
		for k, v := range m {
			b, isb := v.(bool)
			if k == "other" && f != dataset.JSONDataFormat || v == nil || (isb && !b && f != dataset.JSONDataFormat) || (v == "" && f == dataset.XLSXDataFormat) {
				continue
			}
			if !reflect.DeepEqual(out[k], v) {
				c.Fail("options-map", "%s option %s is %v instead of %v in the map made from %s", f, k, out[k], v, clipv(m))
			}
		}
		for k, v := range out {
			if b, isb := v.(bool); isb && !b || v == nil || v == "" {
				continue
			}
			if !reflect.DeepEqual(m[k], v) {
				c.Fail("options-map", "%s option %s = %v was made up from %s", f, k, v, clipv(m))
			}
		}
		cfg2, err := dataset.ParseFormatConfigMap(f, out)
		if err != nil {
			c.Fail("options-again", "the map %v of %s options is refused: %v", out, f, err)
		} else if !reflect.DeepEqual(cfg2.Map(), out) || !reflect.DeepEqual(cfg, cfg2) {
			c.Fail("options-again", "the map %v of %s options parses to %v", out, f, cfg2.Map())
		}
	}
	r.Each("csv-options", r.Q(3000, 30000), func(c *Case) {
		m, ok := genCSVOpts(c.Rng)
		if c.Rng.Intn(50) == 0 {
			m, ok = nil, true
		}
		opts(c, dataset.CSVDataFormat, m, ok)
		if !ok {
			return
		}
		o, err := dataset.NewCSVOptions(m)
		if err != nil {
			c.Fail("options-refused", "NewCSVOptions(%s): %v", clipv(m), err)
			return
		}
		hb := func(k string) bool { b, _ := m[k].(bool); return b }
		sep := rune(0)
		if s, ok := m["separator"].(string); ok {
			sep = rune(s[0])
		}
		if o.HeaderRow != hb("headerRow") || o.LazyQuotes != hb("lazyQuotes") || o.VariadicFields != hb("variadicFields") || o.Separator != sep {
			c.Fail("csv-options", "options %s give %+v", clipv(m), *o)
		}
	})
	r.Each("xlsx-options", r.Q(600, 5000), func(c *Case) {
		m, ok := obj{}, true
		switch c.Rng.Intn(4) {
		case 0:
			m["sheetName"] = []interface{}{1, true, arr{"x"}, obj{}, 2.5}[c.Rng.Intn(5)]
			ok = false
		case 1:
			m = nil
		default:
			m["sheetName"] = genString(c.Rng, vopts{})
			if c.Rng.Intn(3) == 0 {
				m["sheetName"] = []string{"Sheet1", "Sheet2", "sheet1", "data", "Sheet 1", " ", "Sheet", "1", "null"}[c.Rng.Intn(9)]
			}
			m["other"] = 1
		}
		opts(c, dataset.XLSXDataFormat, m, ok)
	})
	r.Each("json-options", r.Q(600, 5000), func(c *Case) {
		opts(c, dataset.JSONDataFormat, genDocMap(c.Rng, docOpts{}, 2), true)
	})
	r.Each("no-options", 5, func(c *Case) {
		f := []dataset.DataFormat{dataset.UnknownDataFormat, dataset.XMLDataFormat, dataset.CBORDataFormat, dataset.NDJSONDataFormat, 77}[c.Idx]
		if cfg, err := dataset.ParseFormatConfigMap(f, obj{}); err == nil {
			c.Fail("options-accepted", "format %v has options %v", f, cfg)
		}
		var co *dataset.CSVOptions
		var xo *dataset.XLSXOptions
		var jo *dataset.JSONOptions
		if len(co.Map()) != 0 || len(xo.Map()) != 0 || len(jo.Map()) != 0 {
			c.Fail("options-map", "nil options have entries")
		}
	})

	// generated names: blocks of 1000 consecutive positions
	blocks := r.Q(200, 3000)
	r.Each("positions", blocks, func(c *Case) {
		for i := c.Idx * 1000; i < (c.Idx+1)*1000; i++ {
			want := base26name(i)
			if g := dataset.AbstractColumnName(i); g != want {
				c.Fail("abstract-name", "column %d is named %q instead of %q", i, g, want)
			}
			if g := dsio.ColIndexToLetters(i); g != strings.ToUpper(want) {
				c.Fail("letters", "column %d has letters %q instead of %q", i, g, strings.ToUpper(want))
			}
			c.Ev("positions")
		}
		c.Distinct("block", c.Idx)
	})

	// file names
	ff := []string{"csv", "json", "ndjson", "cbor", "xml", "xlsx", "jsonl"}
	r.Each("file-names", r.Q(2000, 20000), func(c *Case) {
		f := ff[c.Rng.Intn(len(ff))]
		comp := []string{"", "gzip", "zst", "gz", "zstd"}[c.Rng.Intn(5)]
		base := []string{"body", "a", "a.b", "x.csv", "data.json", "dir/body", "/abs/dir.csv/body", "ü", ".hidden", "a b", "body.csv.gz", "gz"}[c.Rng.Intn(12)]
		st := stale(c.Rng, &dataset.Structure{Format: f, Compression: comp})
		wantComp := map[string]string{"gz": "gzip", "zstd": "zst"}[comp]
		if wantComp == "" {
			wantComp = comp
		}
		c.Ev("file_names")
		c.Distinct(f, comp, base)
		for _, n := range []string{st.BodyFilename(), st.AddFileFormatExtensions(base)} {
			df, cf, err := detect.FormatFromFilename(n)
			if err != nil || df != formatTexts[f] || cf.String() != wantComp {
				c.Fail("file-name", "the file name %q of format %q and compression %q is detected as %v, %q, %v", n, f, comp, df, cf, err)
			}
		}
		suffix := "." + f
		if comp != "" {
			suffix += "." + comp
		}
		if n := st.AddFileFormatExtensions(base); n != base+suffix {
			c.Fail("file-name", "extensions added to %q: %q", base, n)
		}
		if n := st.BodyFilename(); n != "body"+suffix {
			c.Fail("file-name", "body file name %q", n)
		}
		if rt := st.RequiresTabularSchema(); rt != (f == "csv" || f == "xlsx") {
			c.Fail("requires-tabular", "format %s requires a tabular schema: %v", f, rt)
		}
	})
	r.Each("file-refuse", r.Q(200, 1000), func(c *Case) {
		n := []string{"", "body", "body.", "body.txt", "body.gz", "body.zst", "body.csv.tar", "body.csv.gz.gz", "csv", "body.CSV", "body.csv ", "body.tar.gz", "body.exe", "body.jsonx", "dir.csv/body", "body..gz", "body.xls"}[c.Rng.Intn(17)]
		c.Ev("file_names")
		if df, cf, err := detect.FormatFromFilename(n); err == nil || df != dataset.UnknownDataFormat {
			c.Fail("file-accepted", "file name %q is detected as %v, %q, %v", n, df, cf, err)
		}
	})
	_ = fmt.Sprint
}
