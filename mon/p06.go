package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"reflect"
	"time"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsstats"
	"github.com/qri-io/dataset/stepfile"
	"github.com/qri-io/dataset/validate"
	"github.com/qri-io/qfs"
)

func init() {
	register(&Prop{
		ID:    "C06",
		Level: "fault_enumeration",
		Rule:  "for each generated document the source is made to fail at every byte position (sampled for large documents), with the error alone or together with the last bytes, and the destination at every byte position, permanently or once; the oracle compares what was reported with what was delivered; refused entries are mixed into written sequences; non-trivial: the fault fired, distinct by document and position",
		Need:  map[string]int64{"read_faults": 5000, "write_faults": 5000, "convert_faults": 300, "consumer_faults": 300, "refused_entries": 200, "step_faults": 300, "compress_faults": 300, "sized_faults": 500, "transient_faults": 1000},
		Run:   runC06,
	})
}

type faultFile struct {
	io.Reader
	name string
}

func (f faultFile) Close() error                { return nil }
func (f faultFile) FileName() string            { return f.name }
func (f faultFile) FullPath() string            { return f.name }
func (f faultFile) IsDirectory() bool           { return false }
func (f faultFile) MediaType() string           { return "" }
func (f faultFile) ModTime() time.Time          { return time.Time{} }
func (f faultFile) NextFile() (qfs.File, error) { return nil, qfs.ErrNotDirectory }

// positions returns the fault positions of a document: all of a small one
func positions(c *Case, n, limit int) []int {
	var ps []int
	if n <= limit {
		for i := 0; i <= n; i++ {
			ps = append(ps, i)
		}
		return ps
	}
	for i := 0; i < limit; i++ {
		ps = append(ps, c.Rng.Intn(n+1))
	}
	for _, e := range []int{0, 1, n - 1, n, 4095, 4096, 4097, 8192} {
		if e >= 0 && e <= n {
			ps = append(ps, e)
		}
	}
	return ps
}

func runC06(r *Run) {
	kinds := []string{"json-array", "json-object", "ndjson", "cbor-array", "cbor-object", "csv", "xlsx"}
	for _, kind := range kinds {
		kind := kind
		n := r.Q(60, 1500)
		if kind == "xlsx" {
			n = r.Q(6, 60)
		}
		r.Each("read:"+kind, n, func(c *Case) {
			comp := ""
			if kind != "xlsx" && c.Rng.Intn(4) == 0 {
				comp = []string{"gzip", "zst"}[c.Rng.Intn(2)]
			}
			size := 1 + c.Rng.Intn(6)
			if c.Rng.Intn(8) == 0 {
				size = 300
			}
			d := genDoc(c, kind, comp, size)
			full := readNoClose(d.st, bytes.NewReader(d.b))
			if full.err != nil {
				return
			}
			lim := 250
			if kind == "xlsx" || comp != "" {
				lim = 60
			}
			for _, p := range positions(c, len(d.b), lim) {
				fr := &faultReader{data: d.b, at: p, with: c.Rng.Intn(2) == 0, chunk: []int{0, 1, 7, 4096}[c.Rng.Intn(4)]}
				if c.Rng.Intn(2) == 0 {
					fr.err = anyFault(c.Rng)
				}
				if kind == "xlsx" || size > 100 {
					fr.chunk = 0
				}
				fr.then = []int{0, 0, 1, 2}[c.Rng.Intn(4)]
				var t trace
				if (kind == "csv" || kind == "json-array" || kind == "json-object") && c.Rng.Intn(4) == 0 {
					c.Ev("sized_faults")
					t = readSized(kind, d, []int{16, 17, 64, 1000, 4095, 4096, 5000}[c.Rng.Intn(7)], fr)
				} else {
					t = readNoClose(d.st, fr)
				}
				if fr.fired == 0 {
					continue
				}
				c.Ev("read_faults")
				if fr.then > 0 {
					c.Ev("transient_faults")
				}
				if t.err == nil && len(t.ents) < len(full.ents) {
					c.Fail("swallowed-read:"+d.kind, "source failed after %d of %d bytes, reading ended cleanly with %d of %d entries\n%s", p, len(d.b), len(t.ents), len(full.ents), quoteClip(d.b))
					return
				}
				// what was delivered is a prefix of the body
				m := len(t.ents)
				for i := 0; i < m; i++ {
					if i >= len(full.ents) {
						c.Fail("invented:"+d.kind, "source failed after %d of %d bytes, %d entries delivered of %d", p, len(d.b), len(t.ents), len(full.ents))
						return
					}
					if !reflect.DeepEqual(t.ents[i], full.ents[i]) {
						c.Fail("altered:"+d.kind, "source failed after %d of %d bytes, entry %d is %s, in the body %s\n%s", p, len(d.b), i, clipv(t.ents[i]), clipv(full.ents[i]), quoteClip(d.b))
						return
					}
				}
				c.Distinct(d.kind, d.b, p)
			}
			c.Sample("%s %s", d.kind, quoteClip(d.b))
		})
	}

	// consumers of readers pass the error on
	r.Each("consumers", r.Q(400, 8000), func(c *Case) {
		kind := kinds[c.Rng.Intn(len(kinds)-1)]
		comp := ""
		if c.Rng.Intn(4) == 0 {
			comp = []string{"gzip", "zst"}[c.Rng.Intn(2)]
		}
		d := genDoc(c, kind, comp, 2+c.Rng.Intn(6))
		full := readNoClose(d.st, bytes.NewReader(d.b))
		if full.err != nil || len(full.ents) == 0 {
			return
		}
		p := c.Rng.Intn(len(d.b))
		fault := anyFault(c.Rng)
		mk := func() (dsio.EntryReader, *faultReader, error) {
			fr := &faultReader{data: d.b, at: p, err: fault, then: []int{0, 0, 1, 2}[p%4]}
			rd, err := dsio.NewEntryReader(d.st, fr)
			return rd, fr, err
		}
		try := func(name string, fn func(rd dsio.EntryReader) (int, error)) {
			rd, fr, err := mk()
			if err != nil {
				c.Ev("consumer_faults")
				return
			}
			n, err := fn(rd)
			rd.Close()
			if fr.fired == 0 {
				return
			}
			c.Ev("consumer_faults")
			if err == nil && n < len(full.ents) {
				c.Fail("consumer:"+name, "%s of a %s whose source fails after %d of %d bytes: no error, %d of %d entries\n%s", name, d.kind, p, len(d.b), n, len(full.ents), quoteClip(d.b))
			}
		}
		try("ReadAll", func(rd dsio.EntryReader) (int, error) {
			v, err := dsio.ReadAll(rd)
			if err != nil {
				return 0, err
			}
			switch x := v.(type) {
			case arr:
				return len(x), nil
			case obj:
				return len(x), nil
			}
			return 0, nil
		})
		try("EachEntry", func(rd dsio.EntryReader) (int, error) {
			n := 0
			err := dsio.EachEntry(rd, func(int, dsio.Entry, error) error { n++; return nil })
			return n, err
		})
		try("Copy", func(rd dsio.EntryReader) (int, error) {
			w := &recWriter{st: d.st}
			err := dsio.Copy(rd, w)
			return len(w.ents), err
		})
		try("PagedReader", func(rd dsio.EntryReader) (int, error) {
			t := readAllEntries(&dsio.PagedReader{Reader: rd, Limit: 1 << 30, Offset: 1})
			return len(t.ents) + 1, t.err
		})
		try("validate", func(rd dsio.EntryReader) (int, error) {
			cr := &countingReader{EntryReader: rd}
			_, err := validate.EntryReader(cr)
			return cr.n, err
		})
		try("stats", func(rd dsio.EntryReader) (int, error) {
			cr := &countingReader{EntryReader: rd}
			_, err := dsstats.CalculateFromEntryReader(cr)
			return cr.n, err
		})
	})

	// detection needs bytes it cannot get
	r.Each("detect", r.Q(300, 4000), func(c *Case) {
		kind := []string{"json-array", "json-object", "csv"}[c.Rng.Intn(3)]
		comp := genComp(c.Rng)
		d := genDoc(c, kind, comp, 4+c.Rng.Intn(6))
		base, _, err := detect.FromReader(d.st.DataFormat(), compression.Format(comp), bytes.NewReader(d.b))
		if err != nil {
			return
		}
		p := c.Rng.Intn(len(d.b))
		fr := &faultReader{data: d.b, at: p, chunk: 1 + c.Rng.Intn(30), then: []int{0, 0, 1, 2}[c.Rng.Intn(4)]}
		got, _, err := detect.FromReader(d.st.DataFormat(), compression.Format(comp), fr)
		if fr.fired == 0 {
			return
		}
		c.Ev("consumer_faults")
		if err == nil && mustJSON(got) != mustJSON(base) {
			c.Fail("detect:"+kind, "source fails after %d of %d bytes: detected %s without error, the body is %s", p, len(d.b), mustJSON(got), mustJSON(base))
		}
	})

	// writers
	type wk struct {
		name string
		st   func(c *Case) (*dataset.Structure, []dsio.Entry)
		open func(st *dataset.Structure, w io.Writer) (dsio.EntryWriter, error)
	}
	std := dsio.NewEntryWriter
	small := vopts{maxDepth: 2, safeInts: true}
	objEnts := func(f string) func(c *Case) (*dataset.Structure, []dsio.Entry) {
		return func(c *Case) (*dataset.Structure, []dsio.Entry) {
			return stFor(c.Rng, f, "object", ""), entriesObj(genPairs(c.Rng, c.Rng.Intn(6), small))
		}
	}
	arrEnts := func(f string) func(c *Case) (*dataset.Structure, []dsio.Entry) {
		return func(c *Case) (*dataset.Structure, []dsio.Entry) {
			n := c.Rng.Intn(6)
			if c.Rng.Intn(6) == 0 {
				n = 200
			}
			return stFor(c.Rng, f, "array", ""), entriesArr(genArr(c.Rng, n, small))
		}
	}
	pretty := func(st *dataset.Structure, w io.Writer) (dsio.EntryWriter, error) {
		return dsio.NewJSONPrettyWriter(st, w, "  ")
	}
	tab := func(f string) func(c *Case) (*dataset.Structure, []dsio.Entry) {
		return func(c *Case) (*dataset.Structure, []dsio.Entry) {
			cs := genCols(c.Rng, []string{"string", "number", "integer", "boolean"})
			st := stale(c.Rng, &dataset.Structure{Format: f, Schema: tabularSchema(cs)})
			if f == "csv" {
				st.FormatConfig = obj{"headerRow": c.Rng.Intn(2) == 0}
			}
			n := c.Rng.Intn(6)
			if c.Rng.Intn(6) == 0 && f == "csv" {
				n = 300
			}
			return st, entriesArr(genRows(c, cs, n, vopts{noCR: true, xmlSafe: true}, false))
		}
	}
	wks := []wk{
		{"json-array", arrEnts("json"), std}, {"json-object", objEnts("json"), std},
		{"json-array-pretty", arrEnts("json"), pretty}, {"json-object-pretty", objEnts("json"), pretty},
		{"ndjson", arrEnts("ndjson"), std}, {"cbor-array", arrEnts("cbor"), std}, {"cbor-object", objEnts("cbor"), std},
		{"csv", tab("csv"), std}, {"xlsx", tab("xlsx"), std},
	}
	for _, k := range wks {
		k := k
		n := r.Q(60, 1500)
		if k.name == "xlsx" {
			n = r.Q(6, 60)
		}
		r.Each("write:"+k.name, n, func(c *Case) {
			st, ents := k.st(c)
			if k.name != "xlsx" && c.Rng.Intn(3) == 0 {
				st.Compression = []string{"gzip", "zst"}[c.Rng.Intn(2)]
			}
			run := func(w io.Writer) (errs []error) {
				ew, err := k.open(st, w)
				if err != nil {
					return []error{err}
				}
				for _, e := range ents {
					if err := ew.WriteEntry(e); err != nil {
						errs = append(errs, err)
					}
				}
				if err := ew.Close(); err != nil {
					errs = append(errs, err)
				}
				return errs
			}
			ok := &faultWriter{limit: math.MaxInt32}
			if errs := run(ok); len(errs) > 0 {
				c.Fail("write-refused:"+k.name, "writing without faults failed: %v", errs)
				return
			}
			want := ok.buf.Bytes()
			lim := 200
			if k.name == "xlsx" || st.Compression == "zst" {
				lim = 40
			}
			for _, p := range positions(c, len(want), lim) {
				if p == len(want) {
					continue
				}
				fw := &faultWriter{limit: p, once: c.Rng.Intn(3) == 0}
				errs := run(fw)
				if fw.fired == 0 {
					continue
				}
				c.Ev("write_faults")
				if len(errs) == 0 {
					c.Fail("swallowed-write:"+k.name+":"+st.Compression, "destination failed after %d of %d bytes (once=%v) and neither writing nor closing reported it", p, len(want), fw.once)
					return
				}
				c.Distinct("w", k.name, want, p)
			}
		})
		// entries the writer refuses
		r.Each("refused:"+k.name, r.Q(40, 600), func(c *Case) {
			st, ents := k.st(c)
			var buf bytes.Buffer
			ew, err := k.open(st, &buf)
			if err != nil {
				c.Fail("write-refused:"+k.name, "%v", err)
				return
			}
			bads := []interface{}{make(chan int), func() {}, complex(1, 2), arr{make(chan int)}, arr{"x", func() {}}, math.NaN(), math.Inf(1), obj{"k": make(chan int)}, struct{ C chan int }{}, "not a row", 7}
			var good []dsio.Entry
			refused := 0
			put := func(e dsio.Entry) {
				var werr error
				func() {
					defer func() {
						if p := recover(); p != nil {
							werr = fmt.Errorf("panic: %v", p)
							c.Fail("refuse-panic:"+k.name, "writing %T panics: %v", e.Value, p)
						}
					}()
					werr = ew.WriteEntry(e)
				}()
				if werr != nil {
					refused++
					c.Ev("refused_entries")
					return
				}
				good = append(good, e)
			}
			for i, e := range ents {
				if c.Rng.Intn(3) == 0 || i == 0 {
					b := dsio.Entry{Index: i, Key: fmt.Sprintf("bad%d", i), Value: bads[c.Rng.Intn(len(bads))]}
					put(b)
				}
				put(e)
			}
			if refused == 0 {
				ew.Close()
				return
			}
			if err := ew.Close(); err != nil {
				return // reported
			}
			for _, e := range good {
				if !plain(e.Value) {
					return // an accepted odd value: what it becomes is not this property's business
				}
			}
			t := readBodyBytes(st, buf.Bytes())
			if t.err != nil || len(t.ents) != len(good) {
				c.Fail("refused-leftover:"+k.name, "%d entries accepted, %d refused, closed without error; the document reads as %d entries, error %v: %s", len(good), refused, len(t.ents), t.err, quoteClip(buf.Bytes()))
				return
			}
			c.Distinct("refused", k.name, buf.Bytes())
		})
	}

	// conversion
	r.Each("convert", r.Q(400, 6000), func(c *Case) {
		kind := kinds[c.Rng.Intn(len(kinds)-1)]
		comp := ""
		if c.Rng.Intn(3) == 0 {
			comp = []string{"gzip", "zst"}[c.Rng.Intn(2)]
		}
		d := genDoc(c, kind, comp, 2+c.Rng.Intn(6))
		tlt := "array"
		if kind == "json-object" || kind == "cbor-object" {
			tlt = "object"
		}
		out := stFor(c.Rng, []string{"json", "cbor"}[c.Rng.Intn(2)], tlt, "")
		want, err := dsio.ConvertFile(faultFile{bytes.NewReader(d.b), "body"}, d.st, out, 0, 0, true)
		if err != nil {
			return
		}
		for _, p := range positions(c, len(d.b), 20) {
			fr := &faultReader{data: d.b, at: p, with: c.Rng.Intn(2) == 0, then: c.Rng.Intn(2)}
			got, err := dsio.ConvertFile(faultFile{fr, "body"}, d.st, out, 0, 0, true)
			if fr.fired == 0 {
				continue
			}
			c.Ev("convert_faults")
			if err == nil && !bytes.Equal(got, want) {
				c.Fail("convert:"+d.kind, "source failed after %d of %d bytes, conversion succeeded with %s", p, len(d.b), quoteClip(got))
				return
			}
		}
	})

	// step files and compressors
	r.Each("steps", r.Q(200, 3000), func(c *Case) {
		var steps []*dataset.TransformStep
		n := 1 + c.Rng.Intn(5)
		texts := make([]string, n)
		for i := range texts {
			texts[i] = genString(c.Rng, vopts{})
		}
		mk := func() {
			steps = nil
			for i, s := range texts {
				st := &dataset.TransformStep{}
				switch i % 3 {
				case 0:
					st.Script = s
				case 1:
					st.Script = []byte(s)
				default:
					st.Script = bytes.NewReader([]byte(s))
				}
				steps = append(steps, st)
			}
		}
		mk()
		full := &faultWriter{limit: math.MaxInt32}
		if err := stepfile.Write(steps, full); err != nil {
			c.Fail("steps", "%v", err)
			return
		}
		for p := 0; p < full.buf.Len(); p++ {
			mk()
			fw := &faultWriter{limit: p, once: c.Rng.Intn(2) == 0}
			err := stepfile.Write(steps, fw)
			c.Ev("step_faults")
			if err == nil {
				c.Fail("steps", "destination failed after %d of %d bytes and writing %d steps reported nothing", p, full.buf.Len(), n)
				return
			}
		}
		// a script source that fails
		fr := &faultReader{data: []byte("some script text"), at: c.Rng.Intn(16), then: c.Rng.Intn(2)}
		steps = append(steps[:0], &dataset.TransformStep{Script: "a"}, &dataset.TransformStep{Script: fr}, &dataset.TransformStep{Script: "b"})
		if err := stepfile.Write(steps, &bytes.Buffer{}); err == nil {
			c.Fail("steps-source", "a script reader failed after %d bytes and writing the step file reported nothing", fr.at)
		}
		fr = &faultReader{data: full.buf.Bytes(), at: c.Rng.Intn(full.buf.Len() + 1), then: c.Rng.Intn(2)}
		if _, err := stepfile.Read(fr); err == nil {
			c.Fail("steps-read", "a step file source failed and reading it reported nothing")
		}
	})
	r.Each("compress", r.Q(200, 3000), func(c *Case) {
		f := []string{"gzip", "zst"}[c.Rng.Intn(2)]
		data := bytes.Repeat([]byte(genString(c.Rng, vopts{bigString: true})+"z"), 1+c.Rng.Intn(50))
		if c.Rng.Intn(2) == 0 {
			data = randBytes(c.Rng, 1+c.Rng.Intn(300000))
		}
		run := func(w io.Writer) []error {
			var errs []error
			cw, err := compression.Compressor(f, w)
			if err != nil {
				return []error{err}
			}
			for rest := data; len(rest) > 0; {
				k := 1 + c.Rng.Intn(len(rest))
				if _, err := cw.Write(rest[:k]); err != nil {
					errs = append(errs, err)
				}
				rest = rest[k:]
			}
			if err := cw.Close(); err != nil {
				errs = append(errs, err)
			}
			return errs
		}
		ok := &faultWriter{limit: math.MaxInt32}
		if errs := run(ok); len(errs) > 0 {
			c.Fail("compress", "%v", errs)
			return
		}
		total := ok.buf.Len()
		for _, p := range positions(c, total, 12) {
			fw := &faultWriter{limit: p}
			errs := run(fw)
			if fw.fired == 0 {
				continue
			}
			c.Ev("compress_faults")
			if len(errs) == 0 {
				c.Fail("compress:"+f, "destination failed after %d bytes and neither writing nor closing the compressor reported it", p)
			}
		}
		comp := ok.buf.Bytes()
		for _, p := range positions(c, total, 12) {
			fr := &faultReader{data: comp, at: p, with: c.Rng.Intn(2) == 0, then: c.Rng.Intn(2)}
			dr, err := compression.Decompressor(f, fr)
			var got []byte
			if err == nil {
				got, err = io.ReadAll(dr)
				dr.Close()
			}
			if fr.fired == 0 {
				continue
			}
			c.Ev("compress_faults")
			if err == nil && !bytes.Equal(got, data) {
				c.Fail("decompress:"+f, "source failed after %d of %d bytes, decompression ended cleanly with %d of %d bytes", p, total, len(got), len(data))
			}
		}
	})
}

type countingReader struct {
	dsio.EntryReader
	n int
}

func (r *countingReader) ReadEntry() (dsio.Entry, error) {
	e, err := r.EntryReader.ReadEntry()
	if err == nil {
		r.n++
	}
	return e, err
}

// recWriter is an EntryWriter that records
type recWriter struct {
	st   *dataset.Structure
	ents []dsio.Entry
	fail int // fail at this entry (1-based)
}

func (w *recWriter) Structure() *dataset.Structure { return w.st }
func (w *recWriter) WriteEntry(e dsio.Entry) error {
	if w.fail > 0 && len(w.ents)+1 >= w.fail {
		return errInjected
	}
	w.ents = append(w.ents, e)
	return nil
}
func (w *recWriter) Close() error { return nil }

// plain says a value is made of the types bodies hold
func plain(v interface{}) bool {
	switch x := v.(type) {
	case nil, bool, string, int, int64, []byte:
		return true
	case float64:
		return !math.IsNaN(x) && !math.IsInf(x, 0)
	case arr:
		for _, e := range x {
			if !plain(e) {
				return false
			}
		}
		return true
	case obj:
		for _, e := range x {
			if !plain(e) {
				return false
			}
		}
		return true
	}
	return false
}
