package main

import (
	"bytes"
	"fmt"
	"hash/crc32"
	"io"
	"math/rand"
	"sort"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsio/replacecr"
)

func init() {
	register(&Prop{
		ID:   "C04",
		Rule: "valid and damaged documents of every format and compression are delivered to the real reader in whole, one byte at a time, in small, random and 4096-byte chunks, with empty reads, with the end reported together with the last bytes, and through read buffers of 16 bytes upwards; the entry trace (values, keys, indices, whether it ends in an error) must be the one of the whole delivery; the same for format detection and carriage-return replacement; non-trivial: at least one entry or an error, distinct by document",
		Assume: []string{
			"error texts may differ between deliveries, only whether reading ends in an error is compared",
			"empty reads (0 bytes, no error) are not delivered to zst bodies: the vendored zstd decoder takes them for a truncation",
		},
		Need: map[string]int64{"deliveries": 5000, "sized_readers": 500, "detections": 300, "damaged": 500},
		Run:  runC04,
	})
}

// doc is a generated body with the structure to read it
type doc struct {
	kind string
	st   *dataset.Structure
	b    []byte
}

var docKinds = []string{"json-array", "json-object", "ndjson", "cbor-array", "cbor-object", "csv", "xlsx"}

// genDoc makes a valid document of a kind
func genDoc(c *Case, kind string, comp string, size int) doc {
	r := c.Rng
	var b bytes.Buffer
	o := vopts{maxDepth: 2, bigString: r.Intn(4) == 0, safeInts: true}
	switch kind {
	case "json-array", "json-object":
		s := &jsonStyle{r: r, ws: []int{0, 1, 4}[r.Intn(3)], escapes: true, nums: true}
		s.space(&b)
		if kind == "json-array" {
			s.val(&b, genArr(r, size, o))
		} else {
			s.pairs(&b, genPairs(r, size, o))
		}
		s.space(&b)
		return compDoc(doc{kind, stFor(c.Rng, "json", kind[5:], ""), b.Bytes()}, comp)
	case "ndjson":
		s := &jsonStyle{r: r, ws: []int{0, 2}[r.Intn(2)], escapes: true, noNL: true}
		for _, v := range genArr(r, size, o) {
			s.val(&b, v)
			b.WriteString([]string{"\n", "\r\n"}[r.Intn(2)])
		}
		d := b.Bytes()
		if r.Intn(3) == 0 {
			d = bytes.TrimRight(d, "\r\n")
		}
		return compDoc(doc{kind, stFor(c.Rng, "ndjson", "array", ""), d}, comp)
	case "cbor-array", "cbor-object":
		o.bytes = true
		s := &cborStyle{r: r, wide: r.Intn(2) == 0, indef: r.Intn(2) == 0, tags: r.Intn(3) == 0, halves: false}
		if kind == "cbor-array" {
			s.items(&b, genArr(r, size, o))
		} else {
			s.pairs(&b, genPairs(r, size, o))
		}
		return compDoc(doc{kind, stFor(c.Rng, "cbor", kind[5:], ""), b.Bytes()}, comp)
	case "csv":
		cs := genCols(r, []string{"string", "number", "integer", "boolean", "array"})
		cfg := obj{"headerRow": r.Intn(2) == 0, "lazyQuotes": r.Intn(2) == 0, "variadicFields": r.Intn(2) == 0}
		var text [][]string
		if cfg["headerRow"] == true {
			h := []string{}
			for _, cc := range cs {
				h = append(h, cc.title)
			}
			text = append(text, h)
		}
		for i := 0; i < size; i++ {
			row := []string{}
			for _, cc := range cs {
				switch v := genCell(r, cc.typ, vopts{noCR: r.Intn(3) > 0, bigString: r.Intn(6) == 0}).(type) {
				case arr:
					row = append(row, mustJSON(v))
				default:
					row = append(row, cellText(v))
				}
			}
			text = append(text, row)
		}
		d := csvText(r, text, ',', []string{"\n", "\r\n", "\r"}[r.Intn(3)], r.Intn(3) > 0)
		return compDoc(doc{kind, stale(c.Rng, &dataset.Structure{Format: "csv", Schema: tabularSchema(cs), FormatConfig: cfg}), d}, comp)
	case "xlsx":
		cs := genCols(r, []string{"string", "number", "integer", "boolean"})
		st := stale(c.Rng, &dataset.Structure{Format: "xlsx", Schema: tabularSchema(cs)})
		d, err := writeBody(st, entriesArr(genRows(c, cs, size, vopts{noCR: true, xmlSafe: true}, false)))
		if err != nil {
			panic(err)
		}
		return doc{kind, st, d}
	}
	panic(kind)
}

func compDoc(d doc, comp string) doc {
	if comp == "" {
		return d
	}
	d.b = compressBytes(comp, d.b)
	st := *d.st
	st.Compression = comp
	d.st = &st
	d.kind += "+" + comp
	return d
}

func compressBytes(comp string, b []byte) []byte {
	var buf bytes.Buffer
	w, err := compression.Compressor(comp, &buf)
	if err != nil {
		panic(err)
	}
	if _, err := w.Write(b); err != nil {
		panic(err)
	}
	if err := w.Close(); err != nil {
		panic(err)
	}
	return buf.Bytes()
}

// diffTrace compares two observations of the same document
func diffTrace(a, b trace) string {
	if len(a.ents) != len(b.ents) {
		return fmt.Sprintf("%d entries (err %v) against %d (err %v)", len(a.ents), a.err, len(b.ents), b.err)
	}
	for i := range a.ents {
		if a.ents[i].Index != b.ents[i].Index || a.ents[i].Key != b.ents[i].Key {
			return fmt.Sprintf("entry %d: index/key %d/%q against %d/%q", i, a.ents[i].Index, a.ents[i].Key, b.ents[i].Index, b.ents[i].Key)
		}
		if d := diffVal(fmt.Sprintf("entry %d", i), a.ents[i].Value, b.ents[i].Value, eqOpts{}); d != "" {
			return d
		}
	}
	if (a.err == nil) != (b.err == nil) {
		return fmt.Sprintf("after %d entries: error %v against %v", len(a.ents), a.err, b.err)
	}
	return ""
}

func sortedKeys(m map[string]func() io.Reader) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func runC04(r *Run) {
	n := r.Q(220, 5000)
	for _, kind := range docKinds {
		kind := kind
		nn := n
		if kind == "xlsx" {
			nn = r.Q(40, 400)
		}
		r.Each(kind, nn, func(c *Case) {
			comp := ""
			if kind != "xlsx" && c.Rng.Intn(4) == 0 {
				comp = []string{"gzip", "zst"}[c.Rng.Intn(2)]
			}
			size := c.Rng.Intn(8)
			if c.Rng.Intn(10) == 0 {
				size = 300
			}
			d := genDoc(c, kind, comp, size)
			if c.Rng.Intn(3) == 0 && kind != "xlsx" {
				d.b = mutate(c.Rng, d.b)
				d.kind += "/damaged"
				c.Ev("damaged")
			}
			c.Distinct(d.kind, d.b)
			c.Sample("%s %s", d.kind, quoteClip(d.b))
			base := readNoClose(d.st, bytes.NewReader(d.b))
			c.EvN("entries", len(base.ents))
			if base.err != nil {
				c.Ev("errors")
			}
			ch := chunkings(c.Rng, d.b)
			if comp == "zst" {
				delete(ch, "randzero") // see Assume
			}
			for _, name := range sortedKeys(ch) {
				c.Ev("deliveries")
				t := readNoClose(d.st, ch[name]())
				if df := diffTrace(base, t); df != "" {
					c.Fail("chunk:"+kind, "%s delivered %q: %s\ndocument %s", d.kind, name, df, quoteClip(d.b))
				}
			}
			// explicit buffer sizes
			if kind == "json-array" || kind == "json-object" || kind == "csv" {
				for _, sz := range []int{16, 17, 18 + c.Rng.Intn(200), 4095, 4096, 4097, 1 << 20} {
					c.Ev("sized_readers")
					t := readSized(kind, d, sz, ch[[]string{"whole", "one", "rand"}[c.Rng.Intn(3)]]())
					if df := diffTrace(base, t); df != "" {
						c.Fail("size:"+kind, "%s with a %d byte buffer: %s\ndocument %s", d.kind, sz, df, quoteClip(d.b))
					}
				}
			}
		})
	}
	// documents that put a chosen token on each offset of the block boundaries
	r.Each("boundary", r.Q(400, 6000), func(c *Case) {
		tok := []string{`"\\"`, `"\""`, `"\u00e9\ud83d\ude00"`, `null`, `true`, `false`, `-12345678901`, `1.25e-10`, `{"k":[1,{"z":null}]}`, `""`, `[[],{},[[1]]]`, "  \n\t 7 \r\n"}[c.Rng.Intn(12)]
		edge := []int{16, 32, 4096, 8192}[c.Rng.Intn(4)]
		pad := edge - 4 - c.Rng.Intn(len(tok)+3)
		if pad < 0 {
			pad = 0
		}
		b := []byte(fmt.Sprintf(`["%s",%s,%s,1,"t"]`, bytes.Repeat([]byte("p"), pad), tok, tok))
		d := doc{"json-array", stFor(c.Rng, "json", "array", ""), b}
		base := readBodyBytes(d.st, b)
		if base.err != nil || len(base.ents) != 5 {
			c.Fail("boundary", "valid document not read: %d entries %v %s", len(base.ents), base.err, quoteClip(b))
			return
		}
		c.Distinct(b)
		ch := chunkings(c.Rng, b)
		for _, sz := range []int{16, 17, 19, 24, 31, 32, 33, 4096, 4097, 262144} {
			for _, name := range []string{"whole", "one", "small"} {
				c.Ev("sized_readers")
				if df := diffTrace(base, readSized("json-array", d, sz, ch[name]())); df != "" {
					c.Fail("boundary", "buffer %d delivered %q: %s\ndocument %s", sz, name, df, quoteClip(b))
				}
			}
		}
	})
	r.Each("detect", r.Q(600, 8000), func(c *Case) {
		kind := docKinds[c.Rng.Intn(len(docKinds))]
		comp := ""
		if kind != "xlsx" && c.Rng.Intn(4) == 0 {
			comp = []string{"gzip", "zst"}[c.Rng.Intn(2)]
		}
		size := c.Rng.Intn(6)
		d := genDoc(c, kind, comp, size)
		if c.Rng.Intn(4) == 0 {
			d.b = mutate(c.Rng, d.b)
			c.Ev("damaged")
		}
		if c.Rng.Intn(4) == 0 && comp == "" && (kind == "json-array" || kind == "json-object") {
			d.b = append(bytes.Repeat([]byte(" \n"), c.Rng.Intn(120)), d.b...)
		}
		c.Distinct("detect", d.b)
		see := func(rd io.Reader) string {
			st, _, err := detect.FromReader(d.st.DataFormat(), compression.Format(comp), rd)
			if err != nil {
				return "error"
			}
			return mustJSON(st)
		}
		base := see(bytes.NewReader(d.b))
		ch := chunkings(c.Rng, d.b)
		if comp == "zst" {
			delete(ch, "randzero")
		}
		for _, name := range sortedKeys(ch) {
			c.Ev("detections")
			if got := see(ch[name]()); got != base {
				c.Fail("detect:"+kind, "delivered %q: detected %s, whole: %s\ndocument %s", name, got, base, quoteClip(d.b))
			}
		}
	})
	// the carriage-return replacing reader, whatever buffers its user brings
	r.Each("replacecr", r.Q(1500, 20000), func(c *Case) {
		n := c.Rng.Intn(60)
		in := make([]byte, n)
		for i := range in {
			in[i] = "\r\r\nab"[c.Rng.Intn(5)]
		}
		want := bytes.ReplaceAll(in, []byte("\r\n"), []byte("\x00"))
		want = bytes.ReplaceAll(want, []byte("\r"), []byte("\x00"))
		want = bytes.ReplaceAll(want, []byte("\x00"), []byte("\r\n"))
		c.Distinct("cr", in)
		ch := chunkings(c.Rng, in)
		for _, name := range sortedKeys(ch) {
			c.Ev("deliveries")
			var rd io.Reader
			if c.Rng.Intn(2) == 0 {
				rd = replacecr.Reader(ch[name]())
			} else {
				rd = replacecr.ReaderWithSize(ch[name](), 16+c.Rng.Intn(40))
			}
			got, err := readVar(c.Rng, rd)
			if err != nil || !bytes.Equal(got, want) {
				c.Fail("replacecr", "%q delivered %q: got %q want %q err %v", in, name, got, want, err)
			}
		}
	})
	// buffers larger than those of the reader's own, filled up to a carriage
	// return
	r.Each("replacecr-large", r.Q(40, 400), func(c *Case) {
		var in, want []byte
		b := []int{512, 4095, 4096, 4097, 5000, 8192, 32768, 65536, 70000}[c.Rng.Intn(9)]
		for k := 1 + c.Rng.Intn(3); k > 0; k-- {
			// the return ends up around the end of the buffer, in the
			// bytes read or in those written
			at := b*k + c.Rng.Intn(5) - 3
			fill := at - len(in)
			if c.Rng.Intn(2) == 0 {
				fill = at - len(want)
			}
			if fill > 0 {
				t := bytes.Repeat([]byte("x"), fill)
				if c.Rng.Intn(2) == 0 {
					for j := 0; j < fill; j += 1 + c.Rng.Intn(200) {
						t[j] = '\n'
					}
				}
				in, want = append(in, t...), append(want, t...)
			}
			if c.Rng.Intn(3) == 0 {
				in, want = append(in, "\r\n"...), append(want, "\r\n"...)
			} else {
				in, want = append(in, "\ry"...), append(want, "\r\ny"...)
			}
		}
		c.Distinct("cr-large", len(in), b, quickHash(in))
		for _, whole := range []bool{true, false} {
			for _, size := range []int{b, b - 1, b + 1, 4096} {
				var rd io.Reader = bytes.NewReader(in)
				if !whole {
					rd = &chunkReader{data: in, next: func(int) int { return size }}
				}
				if c.Rng.Intn(2) == 0 {
					rd = replacecr.Reader(rd)
				} else {
					rd = replacecr.ReaderWithSize(rd, size)
				}
				var got []byte
				p := make([]byte, size)
				var err error
				for i := 0; i < len(in)+10; i++ {
					var n int
					n, err = rd.Read(p)
					got = append(got, p[:n]...)
					if err != nil {
						break
					}
				}
				c.Ev("large_reads")
				if err != io.EOF || !bytes.Equal(got, want) {
					c.Fail("replacecr", "%d bytes read with buffers of %d: got %d bytes want %d, first difference %s, err %v", len(in), size, len(got), len(want), firstDiff(string(want), string(got)), err)
				}
			}
		}
	})
}

func quickHash(b []byte) uint32 { return crc32.ChecksumIEEE(b) }

// readVar reads to the end with buffers of varying sizes
func readVar(r *rand.Rand, rd io.Reader) ([]byte, error) {
	var out []byte
	k := 1 + r.Intn(8)
	for i := 0; i < 1000000; i++ {
		p := make([]byte, 1+r.Intn(k))
		n, err := rd.Read(p)
		out = append(out, p[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
	return out, fmt.Errorf("no end")
}

// readNoClose leaves the error of Close out of the trace: how far a
// decompressor has read ahead into a damaged tail depends on the buffer
func readNoClose(st *dataset.Structure, r io.Reader) trace {
	rd, err := dsio.NewEntryReader(st, r)
	if err != nil {
		return trace{err: fmt.Errorf("open: %w", err)}
	}
	t := readAllEntries(rd)
	rd.Close()
	return t
}

func readSized(kind string, d doc, size int, rd io.Reader) trace {
	var er dsio.EntryReader
	var err error
	if kind == "csv" {
		er, err = dsio.NewCSVReaderSize(d.st, rd, size)
	} else {
		er, err = dsio.NewJSONReaderSize(d.st, rd, size)
	}
	if err != nil {
		return trace{err: err}
	}
	t := readAllEntries(er)
	er.Close()
	return t
}
