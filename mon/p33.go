package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsstats"
	"github.com/qri-io/dataset/dstest"
	"github.com/qri-io/dataset/dsviz"
	"github.com/qri-io/dataset/preview"
	"github.com/qri-io/dataset/validate"
	"github.com/qri-io/qfs"
)

func init() {
	register(&Prop{
		ID:   "C33",
		Rule: "bodies of every format and compression, whole, cut short, corrupted, from failing sources and under structures that do not fit, go through every operation that opens one (reader read to the end, partly or not at all and then closed, writer with refused entries or failing destination, page, copy, conversion, detection from reader and file, validation, statistics, preview, rendering, test case loading); after each operation a census of goroutines and of open files demands that nothing it started or opened is left; non-trivial: distinct by operation, body and damage",
		Assume: []string{
			"readers, writers and decompressors that were handed out are closed by their user",
			"files that are handed in are not the operation's to close",
			"a goroutine that is still there 2 s after the operation is left behind",
		},
		Need: map[string]int64{"operations": 3000, "compressed": 1500, "damaged": 1000, "errors": 500, "census": 1000, "file_census": 100},
		Run:  runC33,
	})
}

// remaining counts goroutines running code of the repository or of its
// decompressors, waiting for those that are about to finish
// leftBehind counts what earlier cases left
var leftBehind int

func remaining() (int, string) {
	n, sample := 0, ""
	buf := make([]byte, 1<<18)
	for try := 0; try < 62; try++ {
		k := runtime.Stack(buf, true)
		for k == len(buf) {
			buf = make([]byte, 2*len(buf))
			k = runtime.Stack(buf, true)
		}
		n = 0
		for _, g := range strings.Split(string(buf[:k]), "\n\n") {
			if strings.Contains(g, "main.remaining") {
				continue
			}
			if strings.Contains(g, "github.com/qri-io/dataset") || strings.Contains(g, "klauspost/compress") {
				n++
				sample = g
			}
		}
		if n <= leftBehind {
			return 0, ""
		}
		time.Sleep(time.Duration(1+try) * time.Millisecond)
	}
	n, leftBehind = n-leftBehind, n
	return n, sample
}

// openUnder lists open file descriptors of files below dir
func openUnder(dir string) (fs []string) {
	es, _ := ioutil.ReadDir("/proc/self/fd")
	for _, e := range es {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(t, dir) {
			fs = append(fs, t)
		}
	}
	return
}

func runC33(r *Run) {
	ctx := context.Background()
	type op struct {
		name string
		fn   func(c *Case, st *dataset.Structure, open func() io.Reader) error
	}
	name := func(st *dataset.Structure) string {
		n := "body." + st.Format
		if st.Compression != "" {
			n += "." + st.Compression
		}
		return n
	}
	file := func(st *dataset.Structure, rd io.Reader) qfs.File { return faultFile{rd, "/" + name(st)} }
	ops := []op{
		{"read", func(c *Case, st *dataset.Structure, open func() io.Reader) error {
			rd, err := dsio.NewEntryReader(st, open())
			if err != nil {
				return err
			}
			defer rd.Close()
			return readAllEntries(rd).err
		}},
		{"read-some", func(c *Case, st *dataset.Structure, open func() io.Reader) error {
			rd, err := dsio.NewEntryReader(st, open())
			if err != nil {
				return err
			}
			for i := c.Rng.Intn(4); i > 0; i-- {
				if _, err = rd.ReadEntry(); err != nil {
					break
				}
			}
			if e := rd.Close(); err == nil {
				err = e
			}
			return err
		}},
		{"page", func(c *Case, st *dataset.Structure, open func() io.Reader) error {
			rd, err := dsio.NewEntryReader(st, open())
			if err != nil {
				return err
			}
			pr := &dsio.PagedReader{Reader: rd, Offset: c.Rng.Intn(4), Limit: c.Rng.Intn(4)}
			t := readAllEntries(pr)
			if e := pr.Close(); t.err == nil {
				return e
			}
			return t.err
		}},
		{"each", func(c *Case, st *dataset.Structure, open func() io.Reader) error {
			rd, err := dsio.NewEntryReader(st, open())
			if err != nil {
				return err
			}
			defer rd.Close()
			stop := c.Rng.Intn(4)
			return dsio.EachEntry(rd, func(i int, e dsio.Entry, err error) error {
				if i == stop {
					return fmt.Errorf("enough")
				}
				return err
			})
		}},
		{"write", func(c *Case, st *dataset.Structure, open func() io.Reader) error {
			lim := c.Rng.Intn(200)
			if c.Rng.Intn(2) == 0 {
				lim = 1 << 30
			}
			w, err := dsio.NewEntryWriter(st, &faultWriter{limit: lim})
			if err != nil {
				return err
			}
			for i := c.Rng.Intn(5); i > 0; i-- {
				e := dsio.Entry{Key: fmt.Sprint("k", i), Value: arr{"a", int64(i)}}
				if c.Rng.Intn(5) == 0 {
					e.Value = make(chan int)
				}
				if e := w.WriteEntry(e); e != nil {
					err = e
				}
			}
			if e := w.Close(); e != nil {
				err = e
			}
			return err
		}},
		{"convert", func(c *Case, st *dataset.Structure, open func() io.Reader) error {
			out := stFor(c.Rng, []string{"json", "csv", "cbor", "ndjson"}[c.Rng.Intn(4)], "array", genComp(c.Rng))
			if c.Rng.Intn(8) == 0 {
				out.Compression = "nope"
			}
			_, err := dsio.ConvertFile(file(st, open()), st, out, c.Rng.Intn(4), c.Rng.Intn(4), c.Rng.Intn(2) == 0)
			return err
		}},
		{"decompress", func(c *Case, st *dataset.Structure, open func() io.Reader) error {
			comp := st.Compression
			if comp == "" {
				comp = genComp(c.Rng)
			}
			rc, err := compression.Decompressor(comp, open())
			if err != nil {
				return err
			}
			_, err = io.CopyN(ioutil.Discard, rc, int64(c.Rng.Intn(2000)))
			rc.Close()
			return err
		}},
		{"detect", func(c *Case, st *dataset.Structure, open func() io.Reader) error {
			comp := compression.FmtNone
			if st.Compression != "" {
				comp, _ = compression.ParseFormat(st.Compression)
			}
			f, err := dataset.ParseDataFormatString(st.Format)
			if err != nil {
				return err
			}
			_, _, err = detect.FromReader(f, comp, open())
			return err
		}},
		{"detect-dataset", func(c *Case, st *dataset.Structure, open func() io.Reader) error {
			ds := &dataset.Dataset{Name: "n"}
			if c.Rng.Intn(2) == 0 {
				ds.Structure = stale(c.Rng, &dataset.Structure{Format: st.Format, Compression: st.Compression})
			}
			ds.SetBodyFile(file(st, open()))
			return detect.Structure(ds)
		}},
		{"validate", func(c *Case, st *dataset.Structure, open func() io.Reader) error {
			rd, err := dsio.NewEntryReader(st, open())
			if err != nil {
				return err
			}
			defer rd.Close()
			_, err = validate.EntryReader(rd)
			return err
		}},
		{"stats", func(c *Case, st *dataset.Structure, open func() io.Reader) error {
			ds := &dataset.Dataset{Structure: st}
			ds.SetBodyFile(file(st, open()))
			_, err := dsstats.Calculate(ds)
			return err
		}},
		{"preview", func(c *Case, st *dataset.Structure, open func() io.Reader) error {
			ds := &dataset.Dataset{Name: "n", Structure: st, Commit: &dataset.Commit{Title: "t"}}
			ds.SetBodyFile(file(st, open()))
			_, err := preview.Create(ctx, ds)
			return err
		}},
		{"render", func(c *Case, st *dataset.Structure, open func() io.Reader) error {
			ds := &dataset.Dataset{Name: "n", Structure: st, Viz: &dataset.Viz{Format: "html"}}
			ds.SetBodyFile(file(st, open()))
			ds.Viz.SetScriptFile(qfs.NewMemfileBytes("t.html", []byte([]string{"{{ allBodyEntries }}", "{{ bodyEntries 0 2 }}{{ bodyEntries 1 -1 }}", "{{ bodyEntries 0 1 }}{{ .nope.nope.nope }}{{ index 1 2 }}", "x"}[c.Rng.Intn(4)])))
			f, err := dsviz.Render(ds)
			if err != nil {
				return err
			}
			_, err = ioutil.ReadAll(f)
			return err
		}},
	}
	for _, o := range ops {
		o := o
		r.Serial(o.name, r.Q(110, 1200), func(c *Case) {
			for k := 0; k < 4; k++ {
				m := genBodyModel(c, []int{0, 1, 3, 30, 300}[c.Rng.Intn(5)])
				st := m.st
				if st.Compression == "" && st.Format != "xlsx" && c.Rng.Intn(2) == 0 {
					// most of what can be left behind is a decompressor
					st.Compression = "zst"
					var b bytes.Buffer
					w, _ := compression.Compressor("zst", &b)
					w.Write(m.data)
					w.Close()
					m.data = b.Bytes()
				}
				data, damage := m.data, "none"
				open := func() io.Reader { return bytes.NewReader(data) }
				switch c.Rng.Intn(9) {
				case 0:
					damage = "cut"
					data = data[:c.Rng.Intn(len(data)+1)]
				case 1:
					damage = "corrupt"
					data = mutate(c.Rng, append([]byte{}, data...))
				case 2:
					damage = "source"
					at := c.Rng.Intn(len(data) + 1)
					open = func() io.Reader { return &faultReader{data: data, at: at, err: fmt.Errorf("source broke")} }
				case 3:
					damage = "structure"
					cp := *st
					st = &cp
					switch c.Rng.Intn(5) {
					case 0:
						st.Schema = nil
					case 1:
						st.Schema = map[string]interface{}{"type": "string"}
					case 2:
						st.FormatConfig = map[string]interface{}{"headerRow": "what", "separator": 3, "sheetName": 9, "lazyQuotes": 1}
					case 3:
						st.Schema = map[string]interface{}{"type": []interface{}{"array"}, "items": 3}
					default:
						st.Format = []string{"csv", "json", "cbor", "ndjson", "xlsx", "", "xml"}[c.Rng.Intn(7)]
					}
				case 4:
					damage = "entries"
					// well compressed nonsense
					raw := []byte([]string{"", "{", "]", "[1,", "\"", "x", "\xff", "\x9f\xff", "\xa1", "a,\"b\nc", "nul", "1e5"}[c.Rng.Intn(12)])
					data = raw
					if st.Compression != "" {
						var b bytes.Buffer
						w, _ := compression.Compressor(st.Compression, &b)
						w.Write(raw)
						w.Close()
						data = b.Bytes()
					}
				}
				err := o.fn(c, st, open)
				c.Ev("operations")
				if st.Compression != "" {
					c.Ev("compressed")
				}
				if damage != "none" {
					c.Ev("damaged")
				}
				if err != nil {
					c.Ev("errors")
				}
				c.Distinct(o.name, st.Format, st.Compression, damage, data)
				c.Ev("census")
				if n, s := remaining(); n > 0 {
					c.Fail("left:"+o.name, "%d goroutines are left behind by %s on a %s body with compression %q, damage %s (error %v):\n%s", n, o.name, st.Format, st.Compression, damage, err, clip(s, 1200))
					return
				}
			}
		})
	}
	r.Serial("files", r.Q(150, 1500), func(c *Case) {
		dir, err := ioutil.TempDir("", "vmon33")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		if d, err := filepath.EvalSymlinks(dir); err == nil {
			dir = d
		}
		// finalizers would close files behind the census' back
		defer debug.SetGCPercent(debug.SetGCPercent(-1))
		m := genBodyModel(c, 5)
		data := m.data
		if c.Rng.Intn(3) == 0 {
			data = mutate(c.Rng, append([]byte{}, data...))
		}
		p := filepath.Join(dir, name(m.st))
		ioutil.WriteFile(p, data, 0644)
		_, err = detect.FromFile(p)
		q := filepath.Join(dir, "body.unknown")
		ioutil.WriteFile(q, data, 0644)
		detect.FromFile(q)
		c.Ev("file_census")
		if fs := openUnder(dir); len(fs) > 0 {
			c.Fail("open:detect", "detection (error %v) leaves %v open", err, fs)
			return
		}
		for _, f := range []string{"transform.star", "template.html", "readme.md", "input.dataset.json", "expect.dataset.json"} {
			if c.Rng.Intn(2) == 0 {
				ioutil.WriteFile(filepath.Join(dir, f), []byte("{}"), 0644)
			}
		}
		_, err = dstest.NewTestCaseFromDir(dir)
		if fs := openUnder(dir); len(fs) > 0 {
			c.Fail("open:testcase", "loading a test case (error %v) leaves %v open", err, fs)
			return
		}
		if n, s := remaining(); n > 0 {
			c.Fail("left:file", "%d goroutines are left behind:\n%s", n, clip(s, 1200))
		}
		c.Distinct("files", data)
	})
}
