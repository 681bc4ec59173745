// first runs one operation as the first thing a process does with the
// packages, from several goroutines at once. It is built with the race
// detector and started by C09 once per operation: what a package prepares on
// first use must be prepared safely. It does not import validate, which would
// load the schema keywords before main starts.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"sort"
	"sync"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsdiff"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsstats"
	"github.com/qri-io/dataset/dstest"
	"github.com/qri-io/dataset/dsviz"
	"github.com/qri-io/dataset/generate"
	"github.com/qri-io/dataset/preview"
	"github.com/qri-io/dataset/stepfile"
	"github.com/qri-io/dataset/tabular"
	"github.com/qri-io/dataset/vals"
	"github.com/qri-io/qfs"
)

type m = map[string]interface{}
type a = []interface{}

func tab(format string) *dataset.Structure {
	return &dataset.Structure{Format: format, Schema: m{"type": "array", "items": m{"type": "array", "items": a{
		m{"title": "a", "type": "string"}, m{"title": "b", "type": "integer"}, m{"title": "c", "type": "object"}}}}}
}

func doc() *dataset.Dataset {
	ds := &dataset.Dataset{
		Name: "n", Peername: "p", Path: "/mem/x",
		Commit:    &dataset.Commit{Title: "t", Message: "msg"},
		Meta:      &dataset.Meta{Title: "t", Keywords: []string{"a", "b"}},
		Readme:    &dataset.Readme{Format: "md"},
		Structure: tab("csv"),
		Transform: &dataset.Transform{Syntax: "starlark", Config: m{"a": a{1.0, m{"b": "c"}}}},
		Viz:       &dataset.Viz{Format: "html"},
		Stats:     &dataset.Stats{Stats: a{m{"type": "string"}}},
	}
	ds.SetBodyFile(qfs.NewMemfileBytes("body.csv", rows("csv")))
	ds.Viz.SetScriptFile(qfs.NewMemfileBytes("viz.html", []byte(`<html>{{ ds.name }} {{ title }} {{ allBodyEntries }}</html>`)))
	ds.Readme.SetScriptFile(qfs.NewMemfileBytes("readme.md", []byte("# hello")))
	return ds
}

func rows(format string) []byte {
	switch format {
	case "csv":
		return []byte("x,1,{}\ny,2,\"{\"\"k\"\":1}\"\n")
	case "ndjson":
		return []byte("[\"x\",1,{}]\n[\"y\",2,{\"k\":1}]\n")
	case "cbor":
		return []byte{0x81, 0x83, 0x61, 'x', 0x01, 0xa0}
	}
	return []byte(`[["x",1,{}],["y",2,{"k":1}]]`)
}

func entries() (es []dsio.Entry) {
	for i, s := range []string{"x", "y"} {
		es = append(es, dsio.Entry{Index: i, Value: a{s, int64(i), m{"k": 1.5}}})
	}
	return es
}

func j(v interface{}, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	b, err := json.Marshal(v)
	return fmt.Sprint(string(b), err)
}

func read(format string, comp string, body []byte) string {
	st := tab(format)
	st.Compression = comp
	r, err := dsio.NewEntryReader(st, bytes.NewReader(body))
	if err != nil {
		return "error " + err.Error()
	}
	defer r.Close()
	out := ""
	for {
		e, err := r.ReadEntry()
		if err != nil {
			return out + err.Error()
		}
		out += j(e, nil)
	}
}

func write(format string, comp string) []byte {
	st := tab(format)
	st.Compression = comp
	var buf bytes.Buffer
	w, err := dsio.NewEntryWriter(st, &buf)
	if err != nil {
		return []byte("error " + err.Error())
	}
	for _, e := range entries() {
		if err := w.WriteEntry(e); err != nil {
			return []byte("error " + err.Error())
		}
	}
	if err := w.Close(); err != nil {
		return []byte("error " + err.Error())
	}
	return buf.Bytes()
}

var ops = map[string]func() string{
	"schema": func() string { return j(tab("csv").JSONSchema()) },
	"encode": func() string { return j(doc(), nil) },
	"decode": func() string {
		ds := &dataset.Dataset{}
		err := json.Unmarshal([]byte(`{"qri":"ds:0","name":"n","commit":{"qri":"cm:0","title":"t","timestamp":"2001-01-01T01:01:01Z"},"meta":{"qri":"md:0","title":"t","foo":"bar"},"structure":{"qri":"st:0","format":"csv","schema":{"type":"array"}},"transform":{"qri":"tf:0","steps":[{"syntax":"starlark","script":"x"}]}}`), ds)
		return j(ds, err)
	},
	"hash":    func() string { return j(dataset.JSONHash(doc().Meta)) },
	"sign":    func() string { return string(doc().SigningBytes()) },
	"meta":    func() string { md := &dataset.Meta{}; return j(md, md.Set("license", m{"type": "x"})) },
	"license": func() string { md := &dataset.Meta{}; return j(md, md.Set("contributors", a{m{"id": "x"}})) },
	"format":  func() string { return j(dataset.ParseDataFormatString("ndjson")) },
	"options": func() string { return j(dataset.ParseFormatConfigMap(dataset.CSVDataFormat, m{"headerRow": true})) },
	"kind":    func() string { return fmt.Sprint(dataset.KindDataset.Valid(), dataset.KindMeta.Type()) },
	"assign": func() string {
		d := &dataset.Dataset{}
		d.Assign(doc())
		return j(d, nil)
	},
	"read csv":    func() string { return read("csv", "", rows("csv")) },
	"read json":   func() string { return read("json", "", rows("json")) },
	"read ndjson": func() string { return read("ndjson", "", rows("ndjson")) },
	"read cbor":   func() string { return read("cbor", "", rows("cbor")) },
	"csv":         func() string { return string(write("csv", "")) },
	"json":        func() string { return string(write("json", "")) },
	"ndjson":      func() string { return string(write("ndjson", "")) },
	"cbor":        func() string { return fmt.Sprint(len(write("cbor", ""))) },
	"xlsx":        func() string { return read("xlsx", "", write("xlsx", "")) },
	"gzip":        func() string { return read("json", "gzip", write("json", "gzip")) },
	"zst":         func() string { return read("json", "zst", write("json", "zst")) },
	"compress": func() string {
		var b bytes.Buffer
		w, err := compression.Compressor("zst", &b)
		if err != nil {
			return err.Error()
		}
		w.Write([]byte("hello"))
		w.Close()
		r, err := compression.Decompressor("zst", &b)
		if err != nil {
			return err.Error()
		}
		defer r.Close()
		x, err := io.ReadAll(r)
		return string(x) + fmt.Sprint(err)
	},
	"detect csv":  func() string { return det("csv") },
	"detect json": func() string { return det("json") },
	"detect cbor": func() string { return det("cbor") },
	"extension":   func() string { f, c, err := detect.FormatFromFilename("a/b.csv.gz"); return fmt.Sprint(f, c, err) },
	"columns": func() string {
		c, p, err := tabular.ColumnsFromJSONSchema(tab("csv").Schema)
		return fmt.Sprint(c.Titles(), p, err)
	},
	"diff": func() string {
		d, err := dsdiff.DiffDatasets(doc(), doc(), nil)
		return fmt.Sprint(len(d), err)
	},
	"stats": func() string {
		acc := dsstats.NewAccumulator(tab("csv"))
		for _, e := range entries() {
			if err := acc.WriteEntry(e); err != nil {
				return err.Error()
			}
		}
		acc.Close()
		return j(dsstats.ToMap(acc), nil)
	},
	"preview": func() string { return j(preview.Create(context.Background(), doc())) },
	"render": func() string {
		f, err := dsviz.Render(doc())
		if err != nil {
			return err.Error()
		}
		b, err := io.ReadAll(f)
		return fmt.Sprint(len(b), err)
	},
	"generate": func() string {
		g, err := generate.NewTabularGenerator(tab("csv"), generate.AssignSeed)
		if err != nil {
			return err.Error()
		}
		defer g.Close()
		return j(g.ReadEntry())
	},
	"steps": func() string { return j(stepfile.Read(bytes.NewReader([]byte("a = 1\n---\nb = 2\n")))) },
	"vals":  func() string { v, err := vals.ConvertDecoded(a{"x", 1.5, m{"a": true}}); return j(v, err) },
	"compare": func() string {
		return fmt.Sprint(dstest.CompareDatasets(doc(), doc(), dstest.OptDropTransientValues(0)) == "")
	},
}

func det(format string) string {
	f, err := dataset.ParseDataFormatString(format)
	if err != nil {
		return err.Error()
	}
	st, n, err := detect.FromReader(f, "", bytes.NewReader(rows(format)))
	return j(st, err) + fmt.Sprint(n)
}

func main() {
	if len(os.Args) < 2 {
		names := []string{}
		for n := range ops {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			fmt.Println(n)
		}
		return
	}
	op := ops[os.Args[1]]
	const n = 12
	var out [n]string
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			out[i] = op()
		}(i)
	}
	close(start)
	wg.Wait()
	want := op()
	for i := range out {
		if out[i] != want {
			fmt.Printf("DIFFERS %.300q\nfrom %.300q\n", out[i], want)
			os.Exit(3)
		}
	}
	fmt.Printf("OK %.200q\n", want)
}
