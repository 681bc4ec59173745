package main

import (
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dstest"
	"github.com/qri-io/qfs"
)

func init() {
	register(&Prop{
		ID:     "C31",
		Rule:   "pairs of datasets, commits, metas and structures that are equal copies or differ in one exported field at any depth are compared with and without their transient values and checksummed; directories with any subset of test case files and nested case directories are loaded, several at a time and one by many goroutines under the race detector; golden files are written with and without the environment variable; oracle: deep equality of the exported fields by reflection, the files' bytes; non-trivial: documents with at least one field or directories with at least one file, distinct by content",
		Assume: []string{"missing and empty collections or components are not told apart", "checksums see times with the resolution of the third-party CBOR encoder, which is coarser than nanoseconds"},
		Need:   map[string]int64{"equal": 2000, "different": 3000, "transient_only": 300, "checksums": 1500, "cases_loaded": 300, "golden": 60, "nudges": 1000, "together": 500},
		Run:    runC31,
	})
}

// gap is the time between the commits of two datasets
func gap(x, y *dataset.Dataset) time.Duration {
	if x.Commit == nil || y.Commit == nil {
		return time.Hour
	}
	d := x.Commit.Timestamp.Sub(y.Commit.Timestamp)
	if d < 0 {
		d = -d
	}
	return d
}

// expDump renders the exported content of a document. canon drops what is
// empty.
func expDump(sb *strings.Builder, v reflect.Value, canon bool) {
	switch v.Kind() {
	case reflect.Invalid:
		sb.WriteString("nil")
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Interface {
			fmt.Fprintf(sb, "(%s)", v.Elem().Type())
		}
		if canon && expEmpty(v) {
			sb.WriteString("nil")
			return
		}
		expDump(sb, v.Elem(), canon)
	case reflect.Struct:
		if v.Type() == timeType {
			fmt.Fprint(sb, v.Interface().(time.Time).UnixNano())
			return
		}
		sb.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" {
				if canon && expEmpty(v.Field(i)) {
					continue
				}
				sb.WriteString(f.Name + ":")
				expDump(sb, v.Field(i), canon)
				sb.WriteString(" ")
			}
		}
		sb.WriteString("}")
	case reflect.Map:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		sb.WriteString("map[")
		for _, k := range ks {
			fmt.Fprintf(sb, "%q:", fmt.Sprint(k))
			expDump(sb, v.MapIndex(k), canon)
			sb.WriteString(" ")
		}
		sb.WriteString("]")
	case reflect.Slice:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			expDump(sb, v.Index(i), canon)
			sb.WriteString(" ")
		}
		sb.WriteString("]")
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	default:
		fmt.Fprint(sb, v.Interface())
	}
}

func expEmpty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Invalid:
		return true
	case reflect.Ptr, reflect.Interface:
		return v.IsNil() || v.Kind() == reflect.Ptr && expEmpty(v.Elem())
	case reflect.Map, reflect.Slice:
		return v.Len() == 0
	case reflect.Struct:
		if v.Type() == timeType {
			return v.Interface().(time.Time).IsZero()
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" && !expEmpty(v.Field(i)) {
				return false
			}
		}
		return true
	}
	return v.IsZero()
}

func exported(doc interface{}, canon bool) string {
	sb := &strings.Builder{}
	expDump(sb, reflect.ValueOf(doc), canon)
	return sb.String()
}

// change alters one exported field at any depth, returning its path
func change(r *rand.Rand, v reflect.Value) string {
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	for try := 0; try < 50; try++ {
		i := r.Intn(v.NumField())
		f := v.Type().Field(i)
		if f.PkgPath != "" {
			continue
		}
		fv := v.Field(i)
		if fv.Kind() == reflect.Ptr && !fv.IsNil() && fv.Elem().Kind() == reflect.Struct && r.Intn(4) > 0 {
			return f.Name + "." + change(r, fv)
		}
		if !fv.IsZero() && r.Intn(4) == 0 {
			fv.Set(reflect.Zero(f.Type))
		} else {
			fv.Set(genField(r, f.Type, f.Name, docOpts{full: 4, depth: 1, secrets: true}))
		}
		return f.Name
	}
	return ""
}

func runC31(r *Run) {
	names := []string{"Commit", "Meta", "Structure", "Dataset"}
	types := map[string]reflect.Type{}
	for _, t := range compTypes {
		types[t.Name()] = t
	}
	compare := func(a, b interface{}, opts ...dstest.CompareOpts) string {
		switch x := a.(type) {
		case *dataset.Commit:
			return dstest.CompareCommits(x, b.(*dataset.Commit), opts...)
		case *dataset.Meta:
			return dstest.CompareMetas(x, b.(*dataset.Meta), opts...)
		case *dataset.Structure:
			return dstest.CompareStructures(x, b.(*dataset.Structure), opts...)
		}
		return dstest.CompareDatasets(a.(*dataset.Dataset), b.(*dataset.Dataset), opts...)
	}
	r.Each("compare", r.Q(12000, 100000), func(c *Case) {
		rng := c.Rng
		name := names[rng.Intn(4)]
		a := genComponent(rng, types[name], docOpts{depth: 1, secrets: true, files: rng.Intn(3) == 0})
		b := cloneDoc(a)
		where := "nothing"
		if rng.Intn(3) == 0 {
			if where = nudgeDoc(rng, b); where != "" {
				c.Ev("nudges")
			}
		} else if rng.Intn(3) > 0 {
			where = change(rng, reflect.ValueOf(b))
			if name != "Dataset" && rng.Intn(4) == 0 {
				where += "," + change(rng, reflect.ValueOf(b))
			}
		}
		preA, preB := dump(a), dump(b)
		judge := func(how string, x, y interface{}, got string) bool {
			switch {
			case exported(x, false) == exported(y, false):
				if got != "" {
					c.Fail("false-diff:"+name, "%s, %s: no exported field differs, but the comparison says\n%s", name, how, clip(got, 800))
					return false
				}
				c.Ev("equal")
			case exported(x, true) != exported(y, true):
				if got == "" {
					c.Fail("missed-diff:"+name, "%s, %s: %s differs, but the comparison says nothing: %s", name, how, where, firstDiff(exported(x, true), exported(y, true)))
					return false
				}
				c.Ev("different")
			}
			return true
		}
		strict := compare(a, b)
		if !judge("strict", a, b, strict) {
			return
		}
		da, db := cloneDoc(a), cloneDoc(b)
		for _, d := range []interface{}{da, db} {
			d.(interface{ DropTransientValues() }).DropTransientValues()
		}
		loose := compare(a, b, dstest.OptDropTransientValues(0))
		if !judge("without transient values", da, db, loose) {
			return
		}
		if strict != "" && loose == "" {
			c.Ev("transient_only")
		}
		if dump(a) != preA || dump(b) != preB {
			c.Fail("changed:"+name, "comparing changed a document: %s %s", firstDiff(preA, dump(a)), firstDiff(preB, dump(b)))
			return
		}
		c.Distinct(name, preA, preB)
		c.Sample("%s differing in %s: strict %v, without transients %v", name, where, strict != "", loose != "")
		if name == "Dataset" {
			x, y := a.(*dataset.Dataset), b.(*dataset.Dataset)
			cx, cy := dstest.DatasetChecksum(x), dstest.DatasetChecksum(y)
			if exported(x, false) == exported(y, false) && cx != cy {
				c.Fail("checksum-unstable", "equal datasets have checksums %s and %s", cx, cy)
				return
			}
			if exported(x, true) != exported(y, true) && cx == cy && !strings.Contains(where, "Secrets") && !(strings.HasSuffix(where, ".Timestamp") && gap(x, y) < time.Second) {
				c.Fail("checksum-blind", "datasets that differ in %s share the checksum %s: %s", where, cx, firstDiff(exported(x, true), exported(y, true)))
				return
			}
			c.Ev("checksums")
		}
	})

	// directories of test cases, several at a time
	r.Each("load", r.Q(200, 1500), func(c *Case) {
		rng := c.Rng
		dir, err := ioutil.TempDir("", "vmon31")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		put := func(p string, b []byte) {
			if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
				panic(err)
			}
			if err := ioutil.WriteFile(p, b, 0644); err != nil {
				panic(err)
			}
		}
		type want struct {
			body, tf, vz, rm, rendered []byte
			bodyName                   string
			in, exp                    *dataset.Dataset
			any, broken                bool
		}
		// the same directory again with other content: nothing may be left over
		for round := 0; round < 1+rng.Intn(2); round++ {
			if round > 0 {
				old, _ := ioutil.ReadDir(dir)
				for _, fi := range old {
					os.RemoveAll(filepath.Join(dir, fi.Name()))
				}
				c.Ev("reloads")
			}
			ws := map[string]*want{}
			for i := 0; i < 1+rng.Intn(5); i++ {
				w := &want{}
				n := fmt.Sprintf([]string{"case%d", "case.%d", "case%d.json", ".case%d", "Case %d", "case%d.", "größe-%d", "%d", "test_%d.dataset"}[rng.Intn(9)], i)
				p := filepath.Join(dir, n)
				os.MkdirAll(p, 0755)
				has := func() bool { ok := rng.Intn(2) == 0; w.any = w.any || ok; return ok }
				if has() {
					w.in = genDataset(rng, docOpts{full: 3, depth: 1})
					w.in.Body = nil
					put(filepath.Join(p, dstest.InputDatasetFilename), []byte(mustJSON(w.in)))
				}
				if has() {
					w.exp = genDataset(rng, docOpts{full: 3, depth: 1})
					w.exp.Body = nil
					put(filepath.Join(p, dstest.ExpectDatasetFilename), []byte(mustJSON(w.exp)))
				}
				if has() {
					fs := dataset.SupportedDataFormats()
					w.bodyName = "body." + fs[rng.Intn(len(fs))].String()
					w.body = randBytes(rng, rng.Intn(3000))
					put(filepath.Join(p, w.bodyName), w.body)
				}
				if has() {
					w.tf = randBytes(rng, rng.Intn(300))
					put(filepath.Join(p, "transform.star"), w.tf)
				}
				if has() {
					w.vz = randBytes(rng, rng.Intn(300))
					put(filepath.Join(p, "template.html"), w.vz)
				}
				if has() {
					w.rm = randBytes(rng, rng.Intn(300))
					put(filepath.Join(p, "readme.md"), w.rm)
				}
				if rng.Intn(10) == 0 {
					w.broken = true
					put(filepath.Join(p, []string{dstest.InputDatasetFilename, dstest.ExpectDatasetFilename}[rng.Intn(2)]), []byte("{broken"))
				}
				if rng.Intn(3) == 0 {
					w.rendered = randBytes(rng, 1+rng.Intn(300))
					put(filepath.Join(p, dstest.RenderedFilename), w.rendered)
				}
				if rng.Intn(3) == 0 {
					put(filepath.Join(p, "notes.txt"), []byte("x"))
				}
				ws[n] = w
			}
			put(filepath.Join(dir, "stray.json"), []byte("{}"))
			tcs, err := dstest.LoadTestCases(dir)
			if err != nil {
				c.Fail("load", "%v", err)
				return
			}
			good := 0
			for n, w := range ws {
				tc, ok := tcs[n]
				if ok != (w.any && !w.broken) {
					c.Fail("cases", "case %s with files %v, broken %v: loaded %v", n, w.any, w.broken, ok)
					return
				}
				if !ok {
					continue
				}
				good++
				file := func(what string, data []byte, f qfs.File, raw []byte, name, wantName string) bool {
					if (data == nil) != (raw == nil) || string(data) != string(raw) || name != wantName && data != nil {
						c.Fail("file:"+what, "%s of %d bytes (%s): test case holds %d bytes (%s)", what, len(data), wantName, len(raw), name)
						return false
					}
					if data == nil {
						return true
					}
					if f == nil || slurp(f) != string(data) {
						c.Fail("file:"+what, "%s: the input's file delivers something else", what)
						return false
					}
					return true
				}
				var tf, vz, rm qfs.File
				if tc.Input == nil {
					c.Fail("input", "no input dataset")
					return
				}
				if tc.Input.Transform != nil {
					tf = tc.Input.Transform.ScriptFile()
				}
				if tc.Input.Viz != nil {
					vz = tc.Input.Viz.ScriptFile()
				}
				if tc.Input.Readme != nil {
					rm = tc.Input.Readme.ScriptFile()
				}
				if !file("body", w.body, tc.Input.BodyFile(), tc.Body, tc.BodyFilename, w.bodyName) || !file("transform", w.tf, tf, tc.TransformScript, tc.TransformScriptFilename, "transform.star") ||
					!file("template", w.vz, vz, tc.VizScript, tc.VizScriptFilename, "template.html") || !file("readme", w.rm, rm, tc.ReadmeScript, tc.ReadmeScriptFilename, "readme.md") {
					return
				}
				bp, err := dstest.BodyFilepath(tc.Path)
				if (err == nil) != (w.body != nil) {
					c.Fail("bodypath", "body file present: %v, BodyFilepath gives %q, error %v", w.body != nil, bp, err)
					return
				}
				if b, rerr := ioutil.ReadFile(bp); err == nil && (rerr != nil || string(b) != string(w.body)) {
					c.Fail("bodypath", "BodyFilepath gives %q, whose content is not the body: %v", bp, rerr)
					return
				}
				rf, err := tc.RenderedFile()
				if (err == nil) != (w.rendered != nil) || err == nil && slurp(rf) != string(w.rendered) {
					c.Fail("rendered", "rendered file present: %v, RenderedFile: error %v or other content", w.rendered != nil, err)
					return
				}
				if w.body != nil && slurp(tc.BodyFile()) != string(w.body) {
					c.Fail("file:body", "BodyFile delivers something else")
					return
				}
				for i, f := range []func() (qfs.File, bool){tc.TransformScriptFile, tc.VizScriptFile, tc.ReadmeScriptFile} {
					d := [][]byte{w.tf, w.vz, w.rm}[i]
					sf, ok := f()
					if ok != (d != nil) || ok && slurp(sf) != string(d) {
						c.Fail("scriptfile", "script file %d: present %v, want %v, or it delivers something else", i, ok, d != nil)
						return
					}
				}
				if tc.Name != n || tc.Input.Name != n || tc.Path != filepath.Join(dir, n) {
					c.Fail("name", "case %s has name %q, input name %q, path %q", n, tc.Name, tc.Input.Name, tc.Path)
					return
				}
				for i, d := range []*dataset.Dataset{w.in, w.exp} {
					got := []*dataset.Dataset{tc.Input, tc.Expect}[i]
					if d == nil {
						if i == 1 && got != nil {
							c.Fail("expect", "an expected dataset without a file")
							return
						}
						continue
					}
					ref := &dataset.Dataset{}
					if err := json.Unmarshal([]byte(mustJSON(d)), ref); err != nil {
						panic(err)
					}
					if i == 0 {
						ref.Name = n
					}
					if exported(got, true) != exported(ref, true) {
						c.Fail("dataset", "dataset %d of the case differs from its file: %s", i, firstDiff(exported(ref, true), exported(got, true)))
						return
					}
				}
				c.Ev("cases_loaded")
			}
			if len(tcs) != good {
				c.Fail("cases", "%d cases loaded, %d directories hold one", len(tcs), good)
				return
			}
			c.Distinct("load", c.Idx, round, good)
		}
	})

	// one directory, loaded by many goroutines at once as parallel tests do
	r.Serial("together", r.Q(40, 300), func(c *Case) {
		rng := c.Rng
		dir, err := ioutil.TempDir("", "vmon31")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		n, bodies := 2+rng.Intn(6), map[string]string{}
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("case%d", i)
			p := filepath.Join(dir, name)
			os.MkdirAll(p, 0755)
			ds := genDataset(rng, docOpts{full: 3, depth: 1})
			ds.Body = nil
			bodies[name] = string(randBytes(rng, 1+rng.Intn(2000)))
			for f, b := range map[string]string{dstest.InputDatasetFilename: mustJSON(ds), dstest.ExpectDatasetFilename: mustJSON(ds), "body.json": bodies[name]} {
				if err := ioutil.WriteFile(filepath.Join(p, f), []byte(b), 0644); err != nil {
					panic(err)
				}
			}
		}
		show := func(tc dstest.TestCase) string {
			return exported(tc.Input, false) + exported(tc.Expect, false) + string(tc.Body) + slurp(tc.Input.BodyFile())
		}
		const g = 8
		got := make([]map[string]string, g)
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				tcs, _ := dstest.LoadTestCases(dir)
				got[i] = map[string]string{}
				for k, tc := range tcs {
					got[i][k] = show(tc)
				}
				// a loaded case belongs to the caller
				for _, tc := range tcs {
					tc.Input.Name = fmt.Sprint("mine ", i)
					if tc.Expect.Meta != nil {
						tc.Expect.Meta.Title = fmt.Sprint("mine ", i)
					}
					for k := range tc.Body {
						tc.Body[k] = byte(i)
					}
				}
			}(i)
		}
		wg.Wait()
		tcs, err := dstest.LoadTestCases(dir)
		if err != nil || len(tcs) != n {
			c.Fail("together", "%d cases loaded of %d: %v", len(tcs), n, err)
			return
		}
		for k, tc := range tcs {
			if string(tc.Body) != bodies[k] {
				c.Fail("together", "case %s loaded again holds another body", k)
				return
			}
			want := show(tc)
			for i := range got {
				if len(got[i]) != n || got[i][k] != want {
					c.Fail("together", "loaded by one of %d goroutines, case %s differs: %s", g, k, firstDiff(want, got[i][k]))
					return
				}
			}
		}
		c.EvN("together", g*n)
		c.Distinct("together", c.Idx, n)
	})

	r.Serial("golden", r.Q(40, 200), func(c *Case) {
		rng := c.Rng
		dir, err := ioutil.TempDir("", "vmon31")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		stdout := os.Stdout
		defer func() { os.Stdout = stdout }()
		if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stdout = null
			defer null.Close()
		}
		ds := genDataset(rng, docOpts{depth: 1})
		ds.Body = nil
		if rng.Intn(8) == 0 {
			ds.Meta = &dataset.Meta{Description: bigStr(rng, []int{4000, 40000, 70000, 300000}[rng.Intn(4)])}
		}
		path := filepath.Join(dir, "golden.json")
		old := []byte("previous content that is longer than any dataset " + strings.Repeat("x", rng.Intn(100000)))
		ioutil.WriteFile(path, old, 0644)
		os.Unsetenv(dstest.UpdateGoldenFileEnvVarname)
		dstest.UpdateGoldenFileIfEnvVarSet(path, ds)
		if b, _ := ioutil.ReadFile(path); string(b) != string(old) {
			c.Fail("golden-touched", "golden file rewritten without the environment variable")
			return
		}
		c.Ev("golden")
		os.Setenv(dstest.UpdateGoldenFileEnvVarname, asks(rng))
		defer os.Unsetenv(dstest.UpdateGoldenFileEnvVarname)
		dstest.UpdateGoldenFileIfEnvVarSet(path, ds)
		b, err := ioutil.ReadFile(path)
		if err != nil {
			c.Fail("golden", "%v", err)
			return
		}
		got, ref := &dataset.Dataset{}, &dataset.Dataset{}
		if err := json.Unmarshal(b, got); err != nil {
			c.Fail("golden", "golden file does not decode: %v", err)
			return
		}
		if err := json.Unmarshal([]byte(mustJSON(ds)), ref); err != nil {
			panic(err)
		}
		if dump(got) != dump(ref) {
			c.Fail("golden", "golden file holds another dataset: %s", firstDiff(dump(ref), dump(got)))
			return
		}
		c.Ev("golden")
		c.Distinct("golden", b)
	})

	// the comparison with a golden file, as a test runs it
	r.Serial("golden-compare", r.Q(120, 600), func(c *Case) {
		rng := c.Rng
		dir, err := ioutil.TempDir("", "vmon31")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		ds := genDataset(rng, docOpts{depth: 1})
		ds.Body = nil
		if rng.Intn(8) == 0 {
			ds.Meta = &dataset.Meta{Description: bigStr(rng, []int{4000, 40000, 70000, 300000}[rng.Intn(4)])}
		}
		path := filepath.Join(dir, "golden.json")
		ioutil.WriteFile(path, []byte(mustJSON(ds)), 0644)
		old, _ := ioutil.ReadFile(path)
		ref := &dataset.Dataset{}
		if err := json.Unmarshal(old, ref); err != nil {
			panic(err)
		}
		got := cloneDoc(ref).(*dataset.Dataset)
		where := ""
		if rng.Intn(2) == 0 {
			where = change(rng, reflect.ValueOf(got))
		}
		update := rng.Intn(2) == 0
		os.Unsetenv(dstest.UpdateGoldenFileEnvVarname)
		if update {
			os.Setenv(dstest.UpdateGoldenFileEnvVarname, asks(rng))
			defer os.Unsetenv(dstest.UpdateGoldenFileEnvVarname)
		}
		pre := dump(got)
		var loaded *dataset.Dataset
		ok := asTest(func(t *testing.T) {
			loaded = dstest.LoadGoldenFile(t, path)
			dstest.CompareGoldenDatasetAndUpdateIfEnvVarSet(t, path, got)
		})
		if loaded == nil || exported(loaded, true) != exported(ref, true) {
			c.Fail("golden-load", "the golden file loads as something else")
			return
		}
		if dump(got) != pre {
			c.Fail("changed:golden", "comparing with a golden file changed the dataset")
			return
		}
		now, _ := ioutil.ReadFile(path)
		switch {
		case exported(ref, false) == exported(got, false):
			if !ok || string(now) != string(old) {
				c.Fail("golden-equal", "a dataset equal to its golden file: test passes %v, file rewritten %v", ok, string(now) != string(old))
				return
			}
			c.Ev("golden")
		case exported(ref, true) != exported(got, true):
			if ok {
				c.Fail("golden-differs", "a dataset that differs from its golden file in %s passes", where)
				return
			}
			if !update && string(now) != string(old) {
				c.Fail("golden-touched", "golden file rewritten without the environment variable")
				return
			}
			if update {
				again, want := &dataset.Dataset{}, &dataset.Dataset{}
				if err := json.Unmarshal([]byte(mustJSON(got)), want); err != nil {
					panic(err)
				}
				if err := json.Unmarshal(now, again); err != nil || dump(again) != dump(want) {
					c.Fail("golden", "golden file not rewritten with the dataset: %v", err)
					return
				}
			}
			c.Ev("golden")
		}
		for _, bad := range []string{filepath.Join(dir, "missing.json"), dir} {
			if asTest(func(t *testing.T) { dstest.LoadGoldenFile(t, bad) }) {
				c.Fail("golden-missing", "loading the golden file %s does not fail the test", bad)
				return
			}
		}
		ioutil.WriteFile(path, []byte("{"), 0644)
		if asTest(func(t *testing.T) { dstest.LoadGoldenFile(t, path) }) {
			c.Fail("golden-missing", "loading a broken golden file does not fail the test")
			return
		}
		// templates
		name := docStr(rng, docOpts{})
		out := ""
		if !asTest(func(t *testing.T) { out = dstest.Template(t, "<{{ .Name }}>&", map[string]string{"Name": name}) }) || out != "<"+name+">&" {
			c.Fail("template", "template with %q gives %q", name, out)
			return
		}
		for _, bad := range []string{"{{", "{{ .Name.Nope.Nope }}"} {
			if asTest(func(t *testing.T) { dstest.Template(t, bad, struct{ Name string }{name}) }) {
				c.Fail("template", "template %q does not fail the test", bad)
				return
			}
		}
		c.Distinct("golden-compare", old, where, update)
	})
}

// asks makes a value of the environment variable that asks for golden files to
// be rewritten: any but the empty one
func asks(r *rand.Rand) string {
	return []string{"1", "true", "yes", "y", "TRUE", "on", "0", "x", " "}[r.Intn(9)]
}

var testInit sync.Once

// asTest runs f as a test and reports whether it passed; what the test logs is dropped
func asTest(f func(t *testing.T)) bool {
	stdout := os.Stdout
	defer func() { os.Stdout = stdout }()
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
		defer null.Close()
	}
	// RunTests runs nothing before a test main has set the package up
	testInit.Do(func() {
		testing.MainStart(testDeps{}, []testing.InternalTest{{Name: "T", F: func(*testing.T) {}}}, nil, nil, nil).Run()
	})
	return testing.RunTests(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "T", F: f}})
}

// testDeps is what a generated test main hands to the testing package
type testDeps struct{}

type corpusEntry = struct {
	Parent     string
	Path       string
	Data       []byte
	Values     []any
	Generation int
	IsSeed     bool
}

func (testDeps) ImportPath() string                          { return "" }
func (testDeps) ModulePath() string                          { return "" }
func (testDeps) MatchString(pat, str string) (bool, error)   { return true, nil }
func (testDeps) SetPanicOnExit0(bool)                        {}
func (testDeps) StartCPUProfile(io.Writer) error             { return nil }
func (testDeps) StopCPUProfile()                             {}
func (testDeps) StartTestLog(io.Writer)                      {}
func (testDeps) StopTestLog() error                          { return nil }
func (testDeps) WriteProfileTo(string, io.Writer, int) error { return nil }
func (testDeps) CoordinateFuzzing(time.Duration, int64, time.Duration, int64, int, []corpusEntry, []reflect.Type, string, string) error {
	return nil
}
func (testDeps) RunFuzzWorker(func(corpusEntry) error) error              { return nil }
func (testDeps) ReadCorpus(string, []reflect.Type) ([]corpusEntry, error) { return nil, nil }
func (testDeps) CheckCorpus([]any, []reflect.Type) error                  { return nil }
func (testDeps) ResetCoverage()                                           {}
func (testDeps) SnapshotCoverage()                                        {}
func (testDeps) InitRuntimeCoverage() (mode string, tearDown func(coverprofile string, gocoverdir string) (string, error), snapcov func() float64) {
	return
}
