package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsdiff"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsstats"
	"github.com/qri-io/dataset/dstest"
	"github.com/qri-io/dataset/generate"
	"github.com/qri-io/dataset/stepfile"
	"github.com/qri-io/dataset/tabular"
	"github.com/qri-io/dataset/validate"
	"github.com/qri-io/dataset/vals"
	"github.com/qri-io/qfs"
)

func init() {
	register(&Prop{
		ID:   "C09",
		Rule: "a world of two documents, one body per format, a tabular structure, schemas, values and transform steps is shared; every read-only operation is run on it with a deep snapshot (unexported fields, nil against empty) before and after, then random operations run on the same world from several goroutines under the race detector and must give the sequential results; each of some 35 operations is also the first thing a process of its own does, in parallel, under the race detector; entries kept while reading are snapshotted when read and again at the end; entries written are snapshotted after every write and at the end; package level schemas are snapshotted over the whole run; non-trivial: every operation of a world, distinct by operation and world",
		Need: map[string]int64{"snapshots": 2000, "concurrent_ops": 2000, "entries_kept": 600, "entries_written": 500},
		Run:  runC09,
	})
}

// world is what the operations share
type world struct {
	a, b  *dataset.Dataset
	docs  []doc
	ents  [][]dsio.Entry // the entries of each document
	tab   *dataset.Structure
	rows  []dsio.Entry
	sch   map[string]interface{}
	val   interface{}
	pairs map[string]interface{}
	steps []*dataset.TransformStep
	cfg   map[string]interface{}
}

func genWorld(c *Case) *world {
	r := c.Rng
	o := docOpts{full: 3 + r.Intn(6), empties: r.Intn(2) == 0, secrets: true, files: false, depth: 2}
	w := &world{a: genDataset(r, o)}
	switch r.Intn(3) {
	case 0:
		w.b = genDataset(r, o)
	case 1:
		w.b = cloneDoc(w.a).(*dataset.Dataset)
	default:
		w.b = cloneDoc(w.a).(*dataset.Dataset)
		if w.b.Meta == nil {
			w.b.Meta = &dataset.Meta{}
		}
		w.b.Meta.Title += "x"
	}
	if r.Intn(2) == 0 {
		// scripts as strings and bytes, and a body given as values
		w.a.Body = genArr(r, r.Intn(5), vopts{maxDepth: 1, safeInts: true})
	}
	for _, k := range docKinds {
		comp := ""
		if k != "xlsx" && r.Intn(3) == 0 {
			comp = []string{"gzip", "zst"}[r.Intn(2)]
		}
		d := genDoc(c, k, comp, r.Intn(8))
		if r.Intn(2) == 0 && d.st.FormatConfig == nil && strings.HasPrefix(k, "json") {
			d.st.FormatConfig = obj{"pretty": true}
		}
		t := readBodyBytes(d.st, d.b)
		w.docs = append(w.docs, d)
		w.ents = append(w.ents, t.ents)
	}
	cs := genCols(r, []string{"string", "number", "integer", "boolean"})
	w.tab = tableStructure(r, []string{"csv", "json", "ndjson", "cbor"}[r.Intn(4)], cs)
	w.rows = entriesArr(genRows(c, cs, 2+r.Intn(12), vopts{safeInts: true, noCR: true}, false))
	if r.Intn(3) == 0 {
		w.tab.Schema["$id"] = "https://example.com/rows.json"
	}
	w.sch = oddSchema(r, 3)
	w.val = deepCopy(genValue(r, vopts{maxDepth: 3, safeInts: true}))
	w.pairs = genDocMap(r, o, 2)
	for i := r.Intn(4); i >= 0; i-- {
		w.steps = append(w.steps, &dataset.TransformStep{Name: fmt.Sprint("s", i), Syntax: "starlark", Category: "c", Script: docStr(r, o)})
	}
	w.cfg = obj{"headerRow": true, "separator": ";", "pretty": true, "sheetName": "S", "lazyQuotes": false}
	return w
}

func okOf(err error) string { return fmt.Sprint("ok=", err == nil) }

func bytesOr(b []byte, err error) string {
	if err != nil {
		return "error"
	}
	return string(b)
}

type roOp struct {
	name string
	fn   func(w *world, k int) string
}

// roOps are the operations that only read what they are given. They return
// what was observed; k picks among inputs
var roOps = []roOp{
	{"Dataset.MarshalJSON", func(w *world, k int) string { return bytesOr(json.Marshal(w.a)) }},
	{"Dataset.MarshalJSON value", func(w *world, k int) string { return bytesOr(w.a.MarshalJSON()) }},
	{"component MarshalJSON", func(w *world, k int) string {
		out := ""
		for _, v := range comps9(w.a) {
			out += bytesOr(json.Marshal(v)) + "\n"
		}
		return out
	}},
	{"component MarshalJSONObject", func(w *world, k int) string {
		out := ""
		for _, v := range comps9(w.a) {
			if m, ok := v.(interface{ MarshalJSONObject() ([]byte, error) }); ok {
				out += bytesOr(m.MarshalJSONObject()) + "\n"
			}
		}
		return out
	}},
	{"json.Marshal of the structs by value", func(w *world, k int) string {
		out := ""
		if w.a.Structure != nil {
			out += bytesOr(json.Marshal(*w.a.Structure))
		}
		if w.a.Transform != nil {
			out += bytesOr(json.Marshal(*w.a.Transform))
		}
		if w.a.Stats != nil {
			out += bytesOr(json.Marshal(*w.a.Stats))
		}
		return out
	}},
	{"JSONHash", func(w *world, k int) string {
		out := ""
		for _, v := range comps9(w.a) {
			if m, ok := v.(json.Marshaler); ok {
				h, err := dataset.JSONHash(m)
				out += h + okOf(err)
			}
		}
		return out
	}},
	{"SigningBytes", func(w *world, k int) string { return string(w.a.SigningBytes()) }},
	{"SignableBytes", func(w *world, k int) string { return bytesOr(w.a.SignableBytes()) }},
	{"PathMap", func(w *world, k int) string { return dump(w.a.PathMap("path")) + dump(w.a.PathMap()) }},
	{"IsEmpty", func(w *world, k int) string {
		out := ""
		for _, v := range comps9(w.a) {
			out += fmt.Sprint(v.(interface{ IsEmpty() bool }).IsEmpty())
		}
		return out
	}},
	{"ShallowCompare", func(w *world, k int) string {
		out := ""
		if w.a.Readme != nil && w.b.Readme != nil {
			out += fmt.Sprint(w.a.Readme.ShallowCompare(w.b.Readme), w.b.Readme.ShallowCompare(w.a.Readme))
		}
		if w.a.Viz != nil && w.b.Viz != nil {
			out += fmt.Sprint(w.a.Viz.ShallowCompare(w.b.Viz), w.b.Viz.ShallowCompare(w.a.Viz))
		}
		if w.a.Transform != nil && w.b.Transform != nil {
			out += fmt.Sprint(w.a.Transform.ShallowCompare(w.b.Transform), w.b.Transform.ShallowCompare(w.a.Transform))
		}
		return out
	}},
	{"Structure getters", func(w *world, k int) string {
		out := ""
		for _, st := range w.structures() {
			h, err := st.Hash()
			out += h + okOf(err) + st.BodyFilename() + st.AddFileFormatExtensions("x") + st.DataFormat().String() + fmt.Sprint(st.RequiresTabularSchema())
			out += dump(st.Abstract())
			sch, err := st.JSONSchema()
			out += okOf(err)
			if err == nil {
				out += bytesOr(json.Marshal(sch))
			}
		}
		return out
	}},
	{"Meta.Meta", func(w *world, k int) string {
		if w.a.Meta == nil {
			return ""
		}
		return dump(w.a.Meta.Meta())
	}},
	{"Assign as source", func(w *world, k int) string {
		ds := &dataset.Dataset{}
		ds.Assign(w.a, w.b)
		ds2 := cloneDoc(w.b).(*dataset.Dataset)
		ds2.Assign(w.a)
		return dump(ds.Meta) + dump(ds2.Structure)
	}},
	{"dstest compare", func(w *world, k int) string {
		out := fmt.Sprint(dstest.CompareDatasets(w.a, w.b) == "", dstest.CompareDatasets(w.b, w.a, dstest.OptDropTransientValues(0)) == "", dstest.CompareDatasets(w.a, w.a) == "")
		out += fmt.Sprint(dstest.CompareMetas(w.a.Meta, w.b.Meta) == "", dstest.CompareMetas(w.a.Meta, w.b.Meta, dstest.OptDropTransientValues(0)) == "")
		out += fmt.Sprint(dstest.CompareStructures(w.a.Structure, w.b.Structure) == "", dstest.CompareStructures(w.a.Structure, w.b.Structure, dstest.OptDropTransientValues(0)) == "")
		out += fmt.Sprint(dstest.CompareCommits(w.a.Commit, w.b.Commit) == "", dstest.CompareCommits(w.a.Commit, w.b.Commit, dstest.OptDropTransientValues(0)) == "")
		return out
	}},
	{"validate documents", func(w *world, k int) string {
		return okOf(validate.Dataset(w.a)) + okOf(validate.Dataset(w.b)) + okOf(validate.Commit(w.a.Commit)) + okOf(validate.Structure(w.a.Structure)) + okOf(validate.Structure(w.tab)) + okOf(validate.Schema(w.sch)) + okOf(validate.Schema(w.tab.Schema))
	}},
	{"validate body", func(w *world, k int) string {
		out := ""
		rd := &listReader{st: w.tab, ents: w.rows}
		errs, err := validate.EntryReader(rd)
		out += okOf(err) + fmt.Sprint(len(errs))
		d := w.docs[k%len(w.docs)]
		er, err := dsio.NewEntryReader(d.st, bytes.NewReader(d.b))
		if err != nil {
			return out + "open"
		}
		errs, err = validate.EntryReader(er)
		er.Close()
		return out + okOf(err) + fmt.Sprint(len(errs))
	}},
	{"dsdiff", func(w *world, k int) string {
		out := ""
		add := func(d *dsdiff.SubDiff, err error) {
			out += okOf(err)
			if err == nil && d != nil {
				out += fmt.Sprint(d.Modified(), " ")
			}
		}
		if w.a.Meta != nil && w.b.Meta != nil {
			add(dsdiff.DiffMeta(w.a.Meta, w.b.Meta))
		}
		if w.a.Structure != nil && w.b.Structure != nil {
			add(dsdiff.DiffStructure(w.a.Structure, w.b.Structure))
		}
		if w.a.Transform != nil && w.b.Transform != nil {
			add(dsdiff.DiffTransform(w.a.Transform, w.b.Transform))
		}
		if w.a.Viz != nil && w.b.Viz != nil {
			add(dsdiff.DiffViz(w.a.Viz, w.b.Viz))
		}
		m, err := dsdiff.DiffDatasets(w.a, w.b, nil)
		out += okOf(err)
		ks := []string{}
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if m[k] != nil {
				out += fmt.Sprint(k, m[k].Modified())
			}
		}
		if err == nil {
			s, err := dsdiff.MapDiffsToString(m, "listKeys")
			out += okOf(err) + fmt.Sprint(len(s) > 0)
		}
		return out
	}},
	{"tabular columns", func(w *world, k int) string {
		out := ""
		for _, s := range []map[string]interface{}{w.tab.Schema, w.sch} {
			cols, probs, err := tabular.ColumnsFromJSONSchema(s)
			out += dump(cols) + dump(probs) + okOf(err)
			if err == nil {
				out += dump(cols.Titles()) + okOf(cols.ValidMachineTitles())
				for i := range cols {
					cols[i].Title, cols[i].Type = "changed", nil
				}
			}
		}
		return out
	}},
	{"read body", func(w *world, k int) string {
		i := k % len(w.docs)
		t := readBodyBytes(w.docs[i].st, w.docs[i].b)
		return dump(t.ents) + okOf(t.err)
	}},
	{"top level type", func(w *world, k int) string {
		tlt, err := dsio.GetTopLevelType(w.docs[k%len(w.docs)].st)
		return tlt + okOf(err)
	}},
	{"write body", func(w *world, k int) string {
		i := k % len(w.docs)
		b, err := writeBody(w.docs[i].st, w.ents[i])
		if strings.HasPrefix(w.docs[i].kind, "xlsx") {
			return okOf(err)
		}
		if strings.HasPrefix(w.docs[i].kind, "cbor") && w.docs[i].st.Compression == "" {
			return fmt.Sprint(len(b)) + okOf(err)
		}
		if w.docs[i].st.Compression != "" {
			return okOf(err)
		}
		return string(b) + okOf(err)
	}},
	{"write table", func(w *world, k int) string {
		b, err := writeBody(w.tab, w.rows)
		if w.tab.Compression != "" {
			return okOf(err)
		}
		return string(b) + okOf(err)
	}},
	{"convert file", func(w *world, k int) string {
		i := k % len(w.docs)
		d := w.docs[i]
		out := &dataset.Structure{Format: "json", Schema: d.st.Schema, Entries: k % 3, Strict: k%2 == 1}
		b, err := dsio.ConvertFile(qfs.NewMemfileBytes("b", d.b), d.st, out, 10, k%3, k%2 == 0)
		return string(b) + okOf(err)
	}},
	{"identity reader", func(w *world, k int) string {
		var v interface{} = w.pairs
		if a, ok := w.val.([]interface{}); ok && k%2 == 0 {
			v = a
		}
		rd, err := dsio.NewIdentityReader(&dataset.Structure{Schema: dataset.BaseSchemaArray}, v)
		if err != nil {
			return "error"
		}
		t := readAllEntries(rd)
		rd.Close()
		ds := []string{}
		for _, e := range t.ents {
			ds = append(ds, e.Key+dump(e.Value))
		}
		sort.Strings(ds)
		return strings.Join(ds, "\n")
	}},
	{"identity reader over entries", func(w *world, k int) string {
		t := readAllEntries(&listReader{st: w.tab, ents: w.rows})
		return dump(t.ents)
	}},
	{"paged reader", func(w *world, k int) string {
		i := k % len(w.docs)
		rd, err := dsio.NewEntryReader(w.docs[i].st, bytes.NewReader(w.docs[i].b))
		if err != nil {
			return "error"
		}
		t := readAllEntries(&dsio.PagedReader{Reader: rd, Limit: 3, Offset: k % 3})
		rd.Close()
		return dump(t.ents)
	}},
	{"detect", func(w *world, k int) string {
		i := k % len(w.docs)
		d := w.docs[i]
		if strings.HasPrefix(d.kind, "xlsx") {
			return ""
		}
		st, n, err := detect.FromReader(d.st.DataFormat(), compression.Format(d.st.Compression), bytes.NewReader(d.b))
		out := dumpUntitled(st) + okOf(err)
		_ = n
		if st != nil {
			scribble(st.Schema)
			scribble(st.FormatConfig)
		}
		return out
	}},
	{"detect schema", func(w *world, k int) string {
		i := k % len(w.docs)
		d := w.docs[i]
		if strings.HasPrefix(d.kind, "xlsx") {
			return ""
		}
		raw := &dataset.Structure{Format: d.st.Format, Compression: d.st.Compression, FormatConfig: d.st.FormatConfig, Length: k % 2}
		pre := dump(raw)
		sch, _, err := detect.Schema(raw, bytes.NewReader(d.b))
		if strings.HasPrefix(d.kind, "csv") {
			// csv detection fills in the format configuration of the resource it
			// is given; that is its result
			pre = dump(raw)
		}
		out := dumpUntitled(&dataset.Structure{Schema: sch}) + okOf(err)
		scribble(sch)
		if dump(raw) != pre {
			return "structure changed by detect.Schema"
		}
		return out
	}},
	{"stats", func(w *world, k int) string {
		acc := dsstats.NewAccumulator(w.tab)
		for _, e := range w.rows {
			if err := acc.WriteEntry(e); err != nil {
				return "error"
			}
		}
		acc.Close()
		out := bytesOr(json.Marshal(dsstats.ToMap(acc)))
		st, err := dsstats.CalculateFromEntryReader(&listReader{st: w.tab, ents: w.rows})
		out += okOf(err)
		if err == nil {
			out += bytesOr(json.Marshal(st.Stats))
		}
		return out
	}},
	{"generate", func(w *world, k int) string {
		g, err := generate.NewTabularGenerator(w.tab, generate.AssignSeed)
		if err != nil {
			return "error"
		}
		out := ""
		for i := 0; i < 3; i++ {
			e, err := g.ReadEntry()
			out += dump(e) + okOf(err)
		}
		g.Close()
		return out
	}},
	{"vals", func(w *world, k int) string {
		v, err := vals.ConvertDecoded(w.val)
		if err != nil {
			return "error"
		}
		return fmt.Sprint(v.Type()) + fmt.Sprint(vals.Equal(v, v))
	}},
	{"stepfile", func(w *world, k int) string {
		var b bytes.Buffer
		err := stepfile.Write(w.steps, &b)
		return b.String() + okOf(err)
	}},
	{"format config", func(w *world, k int) string {
		out := ""
		for _, f := range []dataset.DataFormat{dataset.CSVDataFormat, dataset.JSONDataFormat, dataset.XLSXDataFormat} {
			c, err := dataset.ParseFormatConfigMap(f, w.cfg)
			out += okOf(err)
			if err == nil {
				out += dump(c.Map())
			}
		}
		return out
	}},
	{"decode documents from maps", func(w *world, k int) string {
		out := ""
		b, err := json.Marshal(w.a)
		if err != nil {
			return "error"
		}
		keep := append([]byte(nil), b...)
		ds := &dataset.Dataset{}
		out += okOf(json.Unmarshal(b, ds))
		out += okOf(ds.UnmarshalJSON(b))
		if !bytes.Equal(b, keep) {
			return "decoding changed its input"
		}
		md := &dataset.Meta{}
		keys := []string{}
		for key := range w.pairs {
			keys = append(keys, key)
		}
		sort.Strings(keys)
		for _, key := range keys {
			out += okOf(md.SetArbitrary(key, w.pairs[key]))
		}
		return out
	}},
}

func comps9(ds *dataset.Dataset) []interface{} {
	out := []interface{}{ds}
	for _, k := range []string{"cm", "md", "rm", "st", "tf", "sa", "vz"} {
		switch k {
		case "cm":
			if ds.Commit != nil {
				out = append(out, ds.Commit)
			}
		case "md":
			if ds.Meta != nil {
				out = append(out, ds.Meta)
			}
		case "rm":
			if ds.Readme != nil {
				out = append(out, ds.Readme)
			}
		case "st":
			if ds.Structure != nil {
				out = append(out, ds.Structure)
			}
		case "tf":
			if ds.Transform != nil {
				out = append(out, ds.Transform)
			}
		case "sa":
			if ds.Stats != nil {
				out = append(out, ds.Stats)
			}
		case "vz":
			if ds.Viz != nil {
				out = append(out, ds.Viz)
			}
		}
	}
	return out
}

func (w *world) structures() []*dataset.Structure {
	out := []*dataset.Structure{w.tab}
	if w.a.Structure != nil {
		out = append(out, w.a.Structure)
	}
	for _, d := range w.docs {
		out = append(out, d.st)
	}
	return out
}

// scribble changes everything reachable from a value
func scribble(v interface{}) {
	switch x := v.(type) {
	case map[string]interface{}:
		for k, e := range x {
			scribble(e)
			x[k] = "scribbled"
		}
		if x != nil {
			x["scribble"] = true
		}
	case []interface{}:
		for i, e := range x {
			scribble(e)
			x[i] = "scribbled"
		}
	case []byte:
		for i := range x {
			x[i] ^= 0xff
		}
	}
}

func globals9() string {
	return dump(dataset.BaseSchemaArray) + dump(dataset.BaseSchemaObject) + dump(tabular.BaseTabularSchema) + dump(compression.SupportedFormats) + dump(dataset.SupportedDataFormats())
}

func runC09(r *Run) {
	start := globals9()
	r.Each("snapshot", r.Q(60, 600), func(c *Case) {
		w := genWorld(c)
		snap := dump(w)
		g := globals9()
		for i := range roOps {
			op := roOps[i]
			n := 1
			if strings.Contains(op.name, "body") || op.name == "convert file" || strings.HasPrefix(op.name, "detect") || op.name == "paged reader" || op.name == "top level type" {
				n = len(w.docs)
			}
			for k := 0; k < n; k++ {
				d1 := op.fn(w, k)
				if after := dump(w); after != snap {
					c.Fail("input-changed:"+op.name, "%s changed its input: %s", op.name, firstDiff(snap, after))
					return
				}
				d2 := op.fn(w, k)
				if d1 != d2 {
					c.Fail("repeat:"+op.name, "%s run again on the same input gave another result: %s", op.name, firstDiff(d1, d2))
					return
				}
				if after := globals9(); after != g {
					c.Fail("globals:"+op.name, "package level values changed around %s: %s", op.name, firstDiff(g, after))
					return
				}
				c.EvN("snapshots", 2)
				c.Distinct(op.name, snap, k)
			}
		}
		c.Sample("world of %d operations: %s", len(roOps), clip(snap, 200))
	})
	r.Serial("concurrent", r.Q(40, 400), func(c *Case) {
		w := genWorld(c)
		snap := dump(w)
		type job struct{ op, k int }
		var jobs []job
		if c.Idx%4 == 0 {
			// one operation against itself on one input
			for i := range roOps {
				jobs = append(jobs, job{i, c.Rng.Intn(len(w.docs))})
			}
		} else {
			for i := 0; i < 40; i++ {
				jobs = append(jobs, job{c.Rng.Intn(len(roOps)), c.Rng.Intn(len(w.docs))})
			}
		}
		want := make([]string, len(jobs))
		ref := c.Rng.Intn(2) == 0
		if ref {
			for i, j := range jobs {
				want[i] = roOps[j.op].fn(w, j.k)
			}
		}
		const gs = 6
		got := make([][]string, gs)
		orders := make([][]int, gs)
		yield := make([]int64, gs)
		for g := range orders {
			orders[g] = c.Rng.Perm(len(jobs))
			yield[g] = c.Rng.Int63()
			if c.Idx%2 == 0 {
				orders[g] = append([]int(nil), orders[0]...) // in step
			}
		}
		var wg sync.WaitGroup
		gate := make(chan struct{})
		panics := make([]string, gs)
		for g := 0; g < gs; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						panics[g] = fmt.Sprint(p)
					}
				}()
				rr := rand.New(rand.NewSource(yield[g]))
				got[g] = make([]string, len(jobs))
				<-gate
				for _, i := range orders[g] {
					if rr.Intn(4) == 0 {
						runtime.Gosched()
					}
					got[g][i] = roOps[jobs[i].op].fn(w, jobs[i].k)
				}
			}(g)
		}
		close(gate)
		wg.Wait()
		for g, p := range panics {
			if p != "" {
				c.Fail("concurrent-panic", "goroutine %d of concurrent read-only operations: panic: %s", g, p)
				return
			}
		}
		if !ref {
			for i, j := range jobs {
				want[i] = roOps[j.op].fn(w, j.k)
			}
		}
		for i, j := range jobs {
			for g := range got {
				c.Ev("concurrent_ops")
				if got[g][i] != want[i] {
					c.Fail("concurrent:"+roOps[j.op].name, "%s run concurrently gave another result than sequentially: %s", roOps[j.op].name, firstDiff(want[i], got[g][i]))
					return
				}
			}
			c.Distinct("concurrent", roOps[j.op].name, j.k, snap)
		}
		if after := dump(w); after != snap {
			c.Fail("input-changed:concurrent", "concurrent read-only operations changed their input: %s", firstDiff(snap, after))
		}
	})
	// what a package prepares when first used must be prepared safely: one
	// process per operation, which is the first thing it does, in parallel
	if first := os.Getenv("VMON_FIRST"); first != "" {
		list, err := exec.Command(first).Output()
		if err != nil {
			panic(err)
		}
		names := strings.Split(strings.TrimSpace(string(list)), "\n")
		r.Each("first", r.Q(1, 8)*len(names), func(c *Case) {
			name := names[c.Idx%len(names)]
			cmd := exec.Command(first, name)
			cmd.Env = append(os.Environ(), "GORACE=exitcode=66")
			out, err := cmd.CombinedOutput()
			c.Ev("first_uses")
			if err != nil {
				c.Fail("first:"+name, "%s as the first thing a process does, in parallel: %v: %.1500s", name, err, out)
				return
			}
			c.Distinct("first", name)
		})
	}
	r.Each("keep", r.Q(500, 8000), func(c *Case) {
		rng := c.Rng
		kind := docKinds[c.Idx%len(docKinds)]
		comp := ""
		if kind != "xlsx" && rng.Intn(3) == 0 {
			comp = []string{"gzip", "zst"}[rng.Intn(2)]
		}
		d := genDoc(c, kind, comp, genCount(rng, rng.Intn(20) == 0))
		in := append([]byte(nil), d.b...)
		rd, err := dsio.NewEntryReader(d.st, bytes.NewReader(in))
		if err != nil {
			return
		}
		var kept []dsio.Entry
		var snaps []string
		for {
			e, err := rd.ReadEntry()
			if err != nil {
				break
			}
			kept = append(kept, e)
			snaps = append(snaps, dump(e))
			// entries are the caller's: changing one does not change others
			if n := len(kept); n > 1 && rng.Intn(5) == 0 {
				j := rng.Intn(n)
				scribble(kept[j].Value)
				snaps[j] = dump(kept[j])
			}
		}
		rd.Close()
		// the source bytes may be reused afterwards
		if rng.Intn(2) == 0 {
			scribble(in)
		}
		for i := range kept {
			c.Ev("entries_kept")
			if s := dump(kept[i]); s != snaps[i] {
				c.Fail("entry-changed:"+strings.SplitN(kind, "+", 2)[0], "%s: entry %d changed after it was returned: %s", kind, i, firstDiff(snaps[i], s))
				return
			}
		}
		if len(kept) > 0 {
			c.Distinct("keep", kind, d.b)
		}
	})
	r.Each("write", r.Q(400, 6000), func(c *Case) {
		rng := c.Rng
		kind := docKinds[c.Idx%len(docKinds)]
		d := genDoc(c, kind, "", genCount(rng, false))
		ents := readBodyBytes(d.st, d.b).ents
		if len(ents) == 0 {
			return
		}
		pre := dump(ents)
		var buf bytes.Buffer
		w, err := dsio.NewEntryWriter(d.st, &buf)
		if err != nil {
			return
		}
		for i, e := range ents {
			if err := w.WriteEntry(e); err != nil {
				return
			}
			c.Ev("entries_written")
			if after := dump(ents); after != pre {
				c.Fail("entry-written-changed:"+kind, "%s: writing entry %d changed the entries: %s", kind, i, firstDiff(pre, after))
				return
			}
		}
		w.Close()
		if after := dump(ents); after != pre {
			c.Fail("entry-written-changed:"+kind, "%s: closing the writer changed the entries: %s", kind, firstDiff(pre, after))
			return
		}
		c.Distinct("write", kind, pre)
	})
	r.Serial("globals", 1, func(c *Case) {
		if end := globals9(); end != start {
			c.Fail("globals", "package level values changed during the run: %s", firstDiff(start, end))
		}
	})
}
