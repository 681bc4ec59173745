package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"regexp"
	"runtime"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/validate"
	"github.com/qri-io/qfs"
)

func init() {
	register(&Prop{
		ID:   "C05",
		Rule: "arbitrary, mutated, truncated (every point), deeply nested and length-lying bodies are opened, read, detected and validated under ordinary and odd structures in a supervised child process that observes panics, process death, stalls, entry counts and allocated bytes; non-trivial: the body is not a valid document of its structure, distinct by structure and bytes",
		Assume: []string{
			"a stall is no completed case for 150 s, then 60 s of CPU for the case alone",
			"allocation is bounded by 96 MB plus 4 KB per input byte (uncompressed bodies; readers keep a 256 KB buffer)",
		},
		Need: map[string]int64{"hostile_reads": 3000, "truncations": 10000, "deep": 20, "alloc_measured": 300, "odd_structures": 500, "validations": 300, "misshapen": 5000},
		Run:  runC05,
	})
}

// oddValue makes JSON-like values of unexpected shape for schemas and options
func oddValue(r *rand.Rand, depth int) interface{} {
	switch r.Intn(14) {
	case 0:
		return nil
	case 1:
		return true
	case 2:
		return float64(r.Intn(10) - 2)
	case 3:
		return []string{"", "array", "object", "string", "number", "integer", "boolean", "null", "foo", ",", "ab"}[r.Intn(11)]
	case 4:
		return arr{}
	case 5:
		return obj{}
	case 6:
		return arr{nil, true, float64(3), obj{}}
	case 7:
		return arr{"string", "null"}
	default:
		if depth <= 0 {
			return "string"
		}
		if r.Intn(2) == 0 {
			a := arr{}
			for i := r.Intn(4); i > 0; i-- {
				a = append(a, oddValue(r, depth-1))
			}
			return a
		}
		return oddSchema(r, depth-1)
	}
}

func oddSchema(r *rand.Rand, depth int) obj {
	m := obj{}
	for _, k := range []string{"type", "items", "title", "properties", "additionalItems", "required", "description", "enum", "minimum"} {
		if r.Intn(3) == 0 {
			m[k] = oddValue(r, depth)
		}
	}
	return m
}

// oddStructure damages a schema or options here and there
func oddStructure(r *rand.Rand) *dataset.Structure {
	st := stale(r, &dataset.Structure{Format: []string{"csv", "json", "ndjson", "cbor", "xlsx", "csv", "xlsx", "xml", "", "foo", "CSV"}[r.Intn(11)]})
	switch r.Intn(6) {
	case 0:
		st.Schema = nil
	case 1:
		st.Schema = oddSchema(r, 3)
	case 2:
		st.Schema = obj{"type": "array", "items": obj{"type": "array", "items": oddValue(r, 2)}}
	case 3:
		items := arr{}
		for i := r.Intn(4); i > 0; i-- {
			items = append(items, obj{"title": oddValue(r, 1), "type": oddValue(r, 1)})
		}
		st.Schema = obj{"type": "array", "items": obj{"items": items}}
	case 4:
		st.Schema = obj{"type": []string{"array", "object"}[r.Intn(2)]}
	default:
		st.Schema = tabularSchema(genCols(r, colTypes))
	}
	if r.Intn(2) == 0 {
		st.FormatConfig = obj{}
		for _, k := range []string{"headerRow", "lazyQuotes", "separator", "variadicFields", "sheetName", "pretty", "zz"} {
			if r.Intn(3) == 0 {
				st.FormatConfig[k] = oddValue(r, 1)
			}
		}
		if r.Intn(3) == 0 {
			st.FormatConfig["separator"] = []string{",", ";", "\n", "\r", "\"", "\uFFFD", "日", "", "ab", "\x00"}[r.Intn(10)]
		}
	}
	if r.Intn(6) == 0 {
		st.Compression = []string{"gzip", "zst", "foo", "gz"}[r.Intn(4)]
	}
	return st
}

// exercise opens and drains a body every way a caller can, reporting how many
// entries came out of it
func exercise(c *Case, st *dataset.Structure, b []byte, max int) trace {
	t := trace{err: io.ErrUnexpectedEOF}
	rd, err := dsio.NewEntryReader(st, bytes.NewReader(b))
	if err == nil && rd == nil {
		c.Fail("nil-reader", "no error and no reader for %s", mustJSON(st))
		return t
	}
	if err == nil {
		n := 0
		for {
			e, err := rd.ReadEntry()
			if err != nil {
				t.err = err
				if err == io.EOF {
					t.err = nil
				}
				break
			}
			t.ents = append(t.ents, e)
			n++
			if n > max {
				c.Fail("endless:"+st.Format, "more than %d entries from a body of %d bytes\nstructure %s\nbody %s", max, len(b), mustJSON(st), quoteClip(b))
				break
			}
		}
		// reading on after the end must be harmless too
		for i := 0; i < 3; i++ {
			rd.ReadEntry()
		}
		rd.Close()
	}
	return t
}

func exerciseRest(c *Case, st *dataset.Structure, b []byte) {
	if rd, err := dsio.NewEntryReader(st, bytes.NewReader(b)); err == nil {
		c.Ev("validations")
		validate.EntryReader(rd)
		rd.Close()
	}
	detect.FromReader(st.DataFormat(), compression.Format(st.Compression), bytes.NewReader(b))
	name := "body." + st.Format
	if st.Compression != "" {
		name += "." + st.Compression
	}
	ds := &dataset.Dataset{}
	ds.SetBodyFile(qfs.NewMemfileBytes(name, b))
	detect.Structure(ds)
	if st.Format == "csv" {
		validate.CheckCsvRowLengths(bytes.NewReader(b))
	}
}

func hostileStructure(c *Case) *dataset.Structure {
	d := genDocKind(c)
	st := d.st
	if c.Rng.Intn(3) == 0 {
		c.Ev("odd_structures")
		return oddStructure(c.Rng)
	}
	return st
}

func genDocKind(c *Case) doc {
	kind := docKinds[c.Rng.Intn(len(docKinds)-1)] // all but xlsx, which is costly
	if c.Rng.Intn(25) == 0 {
		kind = "xlsx"
	}
	comp := ""
	if kind != "xlsx" && c.Rng.Intn(6) == 0 {
		comp = []string{"gzip", "zst"}[c.Rng.Intn(2)]
	}
	return genDoc(c, kind, comp, c.Rng.Intn(5))
}

func hostileBytes(c *Case) []byte {
	r := c.Rng
	switch r.Intn(6) {
	case 0:
		return randBytes(r, r.Intn(200))
	case 1:
		toks := []string{"[", "]", "{", "}", ",", ":", "\"", "\\", "null", "true", "1", "-", "e", ".", " ", "\n", "\r", "\"a\"", "\\u", "\"\\ud800\"", "//", "\x00", "\xff", "\xef\xbb\xbf"}
		var sb strings.Builder
		for i := r.Intn(30); i > 0; i-- {
			sb.WriteString(toks[r.Intn(len(toks))])
		}
		return []byte(sb.String())
	case 2:
		var b bytes.Buffer
		for i := 1 + r.Intn(12); i > 0; i-- {
			head := []byte{0x80, 0x81, 0x9b, 0x9a, 0x9f, 0xa1, 0xbb, 0xbf, 0x5b, 0x5f, 0x7b, 0x7f, 0xc0, 0xdb, 0xf4, 0xf6, 0xf7, 0xf8, 0xf9, 0xfa, 0xfb, 0xff, 0x00, 0x18, 0x1b, 0x38, 0x3b, 0x40, 0x61}[r.Intn(29)]
			b.WriteByte(head)
			b.Write(randBytes(r, r.Intn(9)))
		}
		return b.Bytes()
	default:
		return mutate(r, genDocKind(c).b)
	}
}

var longDigits = regexp.MustCompile(`r="([A-Za-z]{3,}[0-9]*|[A-Za-z]*[0-9]{5,})`)

// rezip rebuilds a zip archive with each file passed through fn
func rezip(b []byte, fn func(name string, content []byte) []byte) []byte {
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		panic(err)
	}
	var out bytes.Buffer
	zw := zip.NewWriter(&out)
	for _, f := range zr.File {
		rc, err := f.Open()
		if err != nil {
			panic(err)
		}
		content, _ := io.ReadAll(rc)
		rc.Close()
		w, _ := zw.Create(f.Name)
		w.Write(fn(f.Name, content))
	}
	zw.Close()
	return out.Bytes()
}

func runC05(r *Run) {
	r.Each("hostile", r.Q(6000, 200000), func(c *Case) {
		st := hostileStructure(c)
		b := hostileBytes(c)
		c.Distinct(mustJSON(st), b)
		c.Sample("%s %s", mustJSON(st), quoteClip(b))
		c.Ev("hostile_reads")
		max := 20*len(b) + 1000
		if st.Compression != "" {
			max = maxEntries
		}
		t := exercise(c, st, b, max)
		c.EvN("entries", len(t.ents))
		exerciseRest(c, st, b)
	})
	r.Each("own-structure", r.Q(6000, 200000), func(c *Case) {
		d := genDocKind(c)
		b := mutate(c.Rng, d.b)
		c.Distinct(d.kind, b)
		c.Ev("hostile_reads")
		max := 20*len(b) + 1000
		if d.st.Compression != "" {
			max = maxEntries
		}
		exercise(c, d.st, b, max)
		exerciseRest(c, d.st, b)
	})
	r.Each("odd-structure", r.Q(4000, 60000), func(c *Case) {
		st := oddStructure(c.Rng)
		c.Ev("odd_structures")
		d := genDocKind(c)
		c.Distinct(mustJSON(st), d.b)
		exercise(c, st, d.b, 20*len(d.b)+1000)
		exerciseRest(c, st, d.b)
		if c.Rng.Intn(4) == 0 {
			// a writer under the same structure
			var buf bytes.Buffer
			w, err := dsio.NewEntryWriter(st, &buf)
			if err == nil && w == nil {
				c.Fail("nil-writer", "no error and no writer for %s", mustJSON(st))
				return
			}
			if err == nil {
				for i := 0; i < 3; i++ {
					w.WriteEntry(dsio.Entry{Index: i, Key: "k", Value: genValue(c.Rng, vopts{maxDepth: 2})})
				}
				w.Close()
			}
			eb, err := dsio.NewEntryBuffer(st)
			if err == nil && eb == nil {
				c.Fail("nil-buffer", "no error and no entry buffer for %s", mustJSON(st))
			} else if err == nil {
				for i := 0; i < 2; i++ {
					eb.WriteEntry(dsio.Entry{Index: i, Key: "k", Value: genValue(c.Rng, vopts{maxDepth: 2})})
				}
				eb.Close()
			} else if eb != nil {
				c.Fail("buffer-error", "an entry buffer and an error (%v) for %s", err, mustJSON(st))
			}
		}
	})
	// every truncation point
	kinds := []string{"json-array", "json-object", "cbor-array", "cbor-object"}
	for _, kind := range kinds {
		kind := kind
		r.Each("truncate:"+kind, r.Q(120, 4000), func(c *Case) {
			d := genDoc(c, kind, "", 1+c.Rng.Intn(6))
			full := readBodyBytes(d.st, d.b)
			if full.err != nil {
				return // C03's business
			}
			last := len(bytes.TrimRight(d.b, " \t\r\n"))
			if kind[:4] == "cbor" {
				last = len(d.b)
			}
			first := 1
			step := 1
			if last > 3000 {
				step = 1 + c.Rng.Intn(last/1000)
			}
			for k := first; k < last; k += step {
				c.Ev("truncations")
				t := exercise(c, d.st, d.b[:k], 20*len(d.b)+1000)
				if t.err == nil {
					c.Fail("clean-truncation:"+kind, "%d of %d bytes end cleanly after %d of %d entries: %s", k, len(d.b), len(t.ents), len(full.ents), quoteClip(d.b[:k]))
					return
				}
			}
			c.Distinct(kind, d.b)
		})
	}
	// compressed bodies of any format: never a clean end with less than the body
	for _, kind := range []string{"json-array", "json-object", "cbor-array", "cbor-object", "ndjson", "csv"} {
		for _, comp := range []string{"gzip", "zst"} {
			kind, comp := kind, comp
			r.Each("truncate:"+kind+"+"+comp, r.Q(25, 600), func(c *Case) {
				n := 1 + c.Rng.Intn(6)
				if c.Rng.Intn(8) == 0 {
					n = 200
				}
				d := genDoc(c, kind, comp, n)
				full := readNoClose(d.st, bytes.NewReader(d.b))
				if full.err != nil {
					return
				}
				step := 1
				if len(d.b) > 1500 {
					step = 1 + c.Rng.Intn(len(d.b)/300)
				}
				for k := 1; k < len(d.b); k += step {
					c.Ev("truncations")
					t := exercise(c, d.st, d.b[:k], maxEntries)
					if t.err == nil && len(t.ents) < len(full.ents) {
						c.Fail("clean-truncation:"+kind+"+"+comp, "%d of %d compressed bytes end cleanly after %d of %d entries", k, len(d.b), len(t.ents), len(full.ents))
						return
					}
				}
				c.Distinct(kind, comp, d.b)
			})
		}
	}
	r.Each("truncate:xlsx", r.Q(6, 60), func(c *Case) {
		d := genDoc(c, "xlsx", "", 1+c.Rng.Intn(6))
		full := readBodyBytes(d.st, d.b)
		for k := 1; k < len(d.b); k += 1 + c.Rng.Intn(200) {
			c.Ev("truncations")
			t := exercise(c, d.st, d.b[:k], maxEntries)
			if t.err == nil && len(t.ents) < len(full.ents) {
				c.Fail("clean-truncation:xlsx", "%d of %d bytes end cleanly after %d of %d entries", k, len(d.b), len(t.ents), len(full.ents))
				return
			}
		}
		c.Distinct("xlsx", d.b)
	})
	// spreadsheets whose container is sound and whose content is not
	r.Each("xlsx-inner", r.Q(250, 5000), func(c *Case) {
		d := genDoc(c, "xlsx", "", 1+c.Rng.Intn(4))
		b := rezip(d.b, func(name string, content []byte) []byte {
			if c.Rng.Intn(3) > 0 {
				return content
			}
			m := mutate(c.Rng, content)
			if longDigits.Match(m) {
				return content // huge coordinates: see xlsx-sparse
			}
			return m
		})
		if c.Rng.Intn(4) == 0 {
			b = bytes.Replace(b, []byte("PK\x03\x04"), []byte("PK\x03\x05"), 1)
		}
		c.Ev("hostile_reads")
		c.Distinct(b)
		exercise(c, d.st, b, maxEntries)
	})
	r.Serial("xlsx-sparse", 1, func(c *Case) {
		st := stale(c.Rng, &dataset.Structure{Format: "xlsx", Schema: tabularSchema([]col{{"a", "string"}})})
		b, err := writeBody(st, entriesArr(arr{arr{"v"}}))
		if err != nil {
			c.Fail("xlsx-sparse:write", "%v", err)
			return
		}
		b = rezip(b, func(name string, content []byte) []byte {
			content = bytes.ReplaceAll(content, []byte(`<row r="1"`), []byte(`<row r="1048576"`))
			return bytes.ReplaceAll(content, []byte(`r="A1"`), []byte(`r="A1048576"`))
		})
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		exercise(c, st, b, maxEntries)
		runtime.ReadMemStats(&m1)
		c.Ev("alloc_measured")
		if got := m1.TotalAlloc - m0.TotalAlloc; got > uint64(96<<20+4096*len(b)) {
			c.Fail("xlsx-sparse:alloc", "a spreadsheet of %d bytes with one row numbered 1048576 allocated %d bytes", len(b), got)
		}
	})
	// deep nesting
	deepKinds := []string{"[", "{\"a\":", "\x81", "\x9f", "\xa1\x61a", "\xbf\x61a", "\xc1", "\x5f", "\x7f", "[{\"a\":", "[[\"a\",", "\"", "\\"}
	r.Each("deep", len(deepKinds)*r.Q(4, 5)*2, func(c *Case) {
		unit := deepKinds[c.Idx%len(deepKinds)]
		n := []int{500, 20000, 300000, 3000000, 20000000}[(c.Idx/len(deepKinds))%r.Q(4, 5)]
		b := bytes.Repeat([]byte(unit), n)
		format := "json"
		if unit[0] >= 0x80 || unit[0] == 0x5f || unit[0] == 0x7f {
			format = "cbor"
		}
		c.Distinct("deep", unit, n)
		c.Ev("deep")
		for _, tlt := range []string{"array", "object"} {
			for _, pre := range []string{"", "[", "{\"k\":", "[1,", "\x81", "\xa1\x61k", "\x9f\x01"} {
				if format == "cbor" && pre != "" && pre[0] < 0x80 || format == "json" && pre != "" && pre[0] >= 0x80 {
					continue
				}
				if n > 300000 && pre != "" && c.Rng.Intn(3) > 0 {
					continue
				}
				st := stFor(c.Rng, format, tlt, "")
				exercise(c, st, append([]byte(pre), b...), maxEntries)
			}
		}
		for _, f := range []string{"ndjson", "csv"} {
			st := stale(c.Rng, &dataset.Structure{Format: f, Schema: tabularSchema([]col{{"a", "array"}, {"b", "object"}})})
			exercise(c, st, b, maxEntries*10)
		}
		if n <= 300000 {
			st := stale(c.Rng, &dataset.Structure{Format: "csv", Schema: tabularSchema([]col{{"a", []string{"array", "object"}[c.Idx%2]}}), FormatConfig: obj{"lazyQuotes": true}})
			exercise(c, st, append(append([]byte("'"), b...), '\n'), maxEntries)
		}
	})
	// allocation, measured one at a time
	r.Serial("alloc", r.Q(500, 6000), func(c *Case) {
		r := c.Rng
		var b []byte
		format := "cbor"
		switch r.Intn(3) {
		case 0: // declared lengths far beyond the data
			prefix := [][]byte{{}, {0x81}, {0x9f}, {0xa1, 0x61, 'k'}, {0xbf, 0x61, 'k'}, {0x81, 0x81}, {0xa1}}[r.Intn(7)]
			major := []byte{0x40, 0x60, 0x80, 0xa0}[r.Intn(4)]
			n := uint64(1) << uint(10+r.Intn(53))
			if r.Intn(3) == 0 {
				n--
			}
			if r.Intn(6) == 0 {
				n = 1<<64 - 1 - uint64(r.Intn(3))
			}
			b = append(append([]byte{}, prefix...), major|27, byte(n>>56), byte(n>>48), byte(n>>40), byte(n>>32), byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
			b = append(b, randBytes(r, r.Intn(40))...)
		case 1:
			b = hostileBytes(c)
			format = []string{"cbor", "json", "ndjson", "csv"}[r.Intn(4)]
		default:
			d := genDocKind(c)
			if d.st.Compression != "" || d.st.Format == "xlsx" {
				return
			}
			b, format = mutate(r, d.b), d.st.Format
		}
		st := stFor(r, format, []string{"array", "object"}[r.Intn(2)], "")
		if format == "csv" {
			st.Schema = tabularSchema([]col{{"a", "string"}, {"b", "array"}})
		}
		c.Distinct("alloc", format, b)
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		exercise(c, st, b, 20*len(b)+1000)
		runtime.ReadMemStats(&m1)
		c.Ev("alloc_measured")
		got := m1.TotalAlloc - m0.TotalAlloc
		if limit := uint64(96<<20 + 4096*len(b)); got > limit {
			c.Fail("alloc:"+format, "reading %d bytes allocated %d bytes: %s", len(b), got, quoteClip(b))
		}
	})
	_ = fmt.Sprint
	runC05shape(r)
}
