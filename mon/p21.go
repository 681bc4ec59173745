package main

import (
	"bytes"
	"context"
	"encoding/json"
	"io/ioutil"
	"math/rand"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/preview"
	"github.com/qri-io/qfs"
)

func init() {
	register(&Prop{
		ID:     "C21",
		Rule:   "datasets with generated components, bodies of every format, top-level type and compression with 0 to several hundred entries biased to the limit of 100, and readmes of 0 to 100 kB biased to 997 bytes, both in files that deliver their bytes in generated chunks; the preview is compared with a slice of the model, the files left behind are read to their end and compared byte for byte, the rest of the dataset is compared with a deep dump taken before; sources that fail at a chosen byte, damaged bodies and missing parts; non-trivial: a body or readme file was previewed, distinct by content",
		Assume: []string{"the preview is written into the dataset that is passed in, which is also what is returned (pinned behaviour)"},
		Need:   map[string]int64{"previews": 2000, "entries": 50000, "truncated_bodies": 300, "exact_bodies": 100, "readmes": 800, "truncated_readmes": 200, "restored_bytes": 5000000, "repeats": 400, "faults": 400, "refused": 400},
		Run:    runC21,
	})
}

// bodyModel is a body with the entries it holds
type bodyModel struct {
	st   *dataset.Structure
	data []byte
	vals arr  // array bodies
	ps   []kv // object bodies
	obj  bool
}

func (b bodyModel) len() int {
	if b.obj {
		return len(b.ps)
	}
	return len(b.vals)
}

// genBodyModel makes a body of n entries in any format
func genBodyModel(c *Case, n int) bodyModel {
	rng := c.Rng
	m := bodyModel{}
	o := vopts{maxDepth: 2, bigString: n < 20 && rng.Intn(3) == 0, safeInts: true, noCR: true, xmlSafe: true}
	format := []string{"csv", "csv", "json", "json", "ndjson", "cbor", "xlsx"}[rng.Intn(7)]
	switch format {
	case "csv", "xlsx":
		cs := genCols(rng, []string{"string", "number", "integer", "boolean"})
		m.st = tableStructure(rng, format, cs)
		m.vals = genRows(c, cs, n, vopts{noCR: true, xmlSafe: true, safeInts: true}, false)
	default:
		tlt := "array"
		if format != "ndjson" && rng.Intn(3) == 0 {
			tlt, m.obj = "object", true
			m.ps = genPairs(rng, n, o)
		} else {
			m.vals = genArr(rng, n, o)
		}
		m.st = stFor(rng, format, tlt, genComp(rng))
	}
	ents := entriesArr(m.vals)
	if m.obj {
		ents = entriesObj(m.ps)
	}
	m.st = described(m.st, rng.Intn(1000))
	var err error
	if m.data, err = writeBody(m.st, ents); err != nil {
		panic(err)
	}
	if m.obj && format == "cbor" { // entries come in the order the writer chose
		t := readBodyBytes(m.st, m.data)
		if d := diffObj(m.ps, t, false, eqOpts{}); d != "" {
			panic(d)
		}
		m.ps = nil
		for _, e := range t.ents {
			m.ps = append(m.ps, kv{e.Key, e.Value})
		}
	}
	return m
}

// sizedFile is a file that knows its size
type sizedFile struct {
	faultFile
	size int64
}

func (f sizedFile) Size() int64 { return f.size }

// genFile hands out data as a file of some kind
func genFile(r *rand.Rand, name string, data []byte, comp string) qfs.File {
	if r.Intn(3) == 0 {
		return qfs.NewMemfileBytes(name, append([]byte{}, data...))
	}
	ch := chunkings(r, data)
	if comp == "zst" {
		delete(ch, "randzero")
	}
	if len(data) > 20000 {
		delete(ch, "one")
		delete(ch, "one+eof")
	}
	ks := sortedKeys(ch)
	f := faultFile{ch[ks[r.Intn(len(ks))]](), name}
	if r.Intn(2) == 0 {
		return sizedFile{f, int64(len(data))}
	}
	return f
}

func trunc21(n int) int {
	if n > 100 {
		return 100
	}
	return n
}

// checkPreview compares a preview of m with its first entries
func checkPreview(m bodyModel, body interface{}) string {
	data, ok := body.(json.RawMessage)
	if !ok {
		if b, isb := body.([]byte); isb {
			data = b
		} else {
			return "preview body is not JSON text: " + clipv(body)
		}
	}
	if !json.Valid(data) {
		return "preview body is not valid JSON: " + quoteClip(data)
	}
	n := trunc21(m.len())
	if m.obj {
		return diffObj(m.ps[:n], readBodyBytes(structureFor("json", "object", ""), data), true, eqOpts{})
	}
	return diffArr(m.vals[:n], readBodyBytes(structureFor("json", "array", ""), data), eqOpts{})
}

func genReadme(r *rand.Rand) string {
	n := []int{0, 1, 10, 500, 900, 995, 996, 997, 998, 999, 1000, 1001, 1024, 2000, 4096, 10000, 100000}[r.Intn(17)]
	b := make([]byte, n)
	for i := range b {
		b[i] = "abc \n#*<&.…é"[r.Intn(11)]
	}
	if r.Intn(3) == 0 {
		for i := range b {
			b[i] = "ab .#"[r.Intn(5)]
		}
		if n > 10 && r.Intn(2) == 0 {
			copy(b[n-3:], "...")
		}
	}
	return string(b)
}

func readmePreview(s string) string {
	if len(s) > 997 {
		return s[:997] + "..."
	}
	return s
}

// rest21 is everything of a dataset a preview doesn't fill in
func rest21(ds *dataset.Dataset) string {
	cp := *ds
	cp.Body = nil
	cp.SetBodyFile(nil)
	if cp.Readme != nil {
		rm := *cp.Readme
		rm.Text = ""
		rm.SetScriptFile(nil)
		cp.Readme = &rm
	}
	return dump(&cp)
}

func runC21(r *Run) {
	ctx := context.Background()
	sizes := []int{0, 1, 2, 10, 50, 98, 99, 100, 101, 102, 150, 199, 200, 201, 350}
	r.Each("preview", r.Q(2600, 30000), func(c *Case) {
		rng := c.Rng
		ds := genDataset(rng, docOpts{full: 3, depth: 1})
		ds.Body, ds.BodyBytes = nil, nil
		hasBody, hasReadme := rng.Intn(6) > 0, rng.Intn(2) == 0
		var m bodyModel
		if hasBody {
			m = genBodyModel(c, sizes[rng.Intn(len(sizes))])
			ds.Structure = m.st
			ds.SetBodyFile(genFile(rng, "/some/dir/body.dat", m.data, m.st.Compression))
		} else {
			ds.SetBodyFile(nil)
		}
		text := ""
		if hasReadme {
			text = genReadme(rng)
			if ds.Readme == nil {
				ds.Readme = &dataset.Readme{Format: "md"}
			}
			ds.Readme.SetScriptFile(genFile(rng, "/some/dir/readme.md", []byte(text), ""))
		} else if ds.Readme != nil {
			ds.Readme.SetScriptFile(nil)
		}
		if ds.IsEmpty() {
			ds.Name = "n"
			ds.Commit = &dataset.Commit{Title: "t"}
			if ds.IsEmpty() {
				return
			}
		}
		inline, oldText := ds.Body, ""
		if ds.Readme != nil {
			oldText = ds.Readme.Text
		}
		before := rest21(ds)
		rounds := 1
		if rng.Intn(4) == 0 {
			rounds = 2 + rng.Intn(2)
		}
		for i := 0; i < rounds; i++ {
			p, err := preview.Create(ctx, ds)
			if err != nil {
				c.Fail("refused", "round %d: %v\n%s", i, err, before)
				return
			}
			if hasBody {
				if d := checkPreview(m, p.Body); d != "" {
					c.Fail("body:"+m.st.Format, "round %d: preview of %d %s entries (compression %q): %s", i, m.len(), m.st.Format, m.st.Compression, d)
					return
				}
			} else if dump(p.Body) != dump(inline) {
				c.Fail("inline-body", "no body file, but the body changed from %v to %v", inline, p.Body)
				return
			}
			if hasReadme {
				if p.Readme == nil || p.Readme.Text != readmePreview(text) {
					got := "nothing"
					if p.Readme != nil {
						got = quoteClip([]byte(p.Readme.Text))
					}
					c.Fail("readme", "round %d: preview of a readme of %d bytes is %s", i, len(text), got)
					return
				}
			} else if p.Readme != nil && p.Readme.Text != oldText {
				c.Fail("readme-text", "no readme file, but its text changed")
				return
			}
			if got := rest21(p); got != before {
				c.Fail("changed", "other parts of the preview differ: %s", firstDiff(before, got))
				return
			}
			if got := rest21(ds); got != before {
				c.Fail("changed", "other parts of the dataset changed: %s", firstDiff(before, got))
				return
			}
			if i > 0 {
				c.Ev("repeats")
			}
		}
		if hasBody {
			f := ds.BodyFile()
			if f == nil {
				c.Fail("body-lost", "no body file after the preview")
				return
			}
			if f.FullPath() != "/some/dir/body.dat" {
				c.Fail("body-path", "body file's path is %q after the preview", f.FullPath())
				return
			}
			if rng.Intn(3) == 0 { // read as a body
				t := readBody(m.st, f)
				d := ""
				if m.obj {
					d = diffObj(m.ps, t, true, eqOpts{})
				} else {
					d = diffArr(m.vals, t, eqOpts{})
				}
				if d != "" {
					c.Fail("body-lost:"+m.st.Format, "%s body with %d entries read after a preview: %s", m.st.Format, m.len(), d)
					return
				}
			} else if b, err := ioutil.ReadAll(f); err != nil || !bytes.Equal(b, m.data) {
				c.Fail("body-lost:"+m.st.Format, "body file of %d bytes delivers %d other bytes after a preview (%v)", len(m.data), len(b), err)
				return
			}
			c.EvN("restored_bytes", len(m.data))
			c.EvN("entries", trunc21(m.len()))
			if m.len() > 100 {
				c.Ev("truncated_bodies")
			}
			if m.len() == 100 {
				c.Ev("exact_bodies")
			}
		}
		if hasReadme {
			f := ds.Readme.ScriptFile()
			if f == nil {
				c.Fail("readme-lost", "no readme file after the preview")
				return
			}
			if b, err := ioutil.ReadAll(f); err != nil || string(b) != text {
				c.Fail("readme-lost", "readme of %d bytes delivers %d other bytes after a preview (%v)", len(text), len(b), err)
				return
			}
			c.EvN("restored_bytes", len(text))
			c.Ev("readmes")
			if len(text) > 997 {
				c.Ev("truncated_readmes")
			}
		}
		c.Ev("previews")
		if hasBody || hasReadme {
			c.Distinct(m.data, text, before)
		}
		if hasBody {
			c.Sample("%s %s compression %q: %d entries, readme of %d bytes, %d rounds", m.st.Format, map[bool]string{true: "object", false: "array"}[m.obj], m.st.Compression, m.len(), len(text), rounds)
		}
	})

	// sources that fail: an error or a right preview, and nothing is lost
	r.Each("fault", r.Q(800, 8000), func(c *Case) {
		rng := c.Rng
		m := genBodyModel(c, []int{0, 3, 20, 100, 150}[rng.Intn(5)])
		ds := &dataset.Dataset{Name: "n", Structure: m.st, Readme: &dataset.Readme{Format: "md"}}
		text := genReadme(rng)
		at := rng.Intn(len(m.data) + 1)
		rat := -1
		fr := &faultReader{data: m.data, at: at, chunk: []int{0, 1, 7, 512}[rng.Intn(4)], with: rng.Intn(2) == 0, then: rng.Intn(2)}
		ds.SetBodyFile(faultFile{fr, "body.x"})
		if rng.Intn(2) == 0 {
			rat = rng.Intn(len(text) + 1)
			ds.Readme.SetScriptFile(faultFile{&faultReader{data: []byte(text), at: rat, chunk: []int{0, 1, 7, 512}[rng.Intn(4)], then: rng.Intn(2)}, "readme.md"})
			fr.at = len(m.data) + 1
			at = len(m.data)
			ds.SetBodyFile(faultFile{bytes.NewReader(m.data), "body.x"})
		} else {
			ds.Readme.SetScriptFile(faultFile{strings.NewReader(text), "readme.md"})
		}
		p, err := preview.Create(ctx, ds)
		if err == nil {
			if d := checkPreview(m, p.Body); d != "" {
				c.Fail("fault-body", "%s source failing after %d of %d bytes, no error, but the preview is wrong: %s", m.st.Format, at, len(m.data), d)
				return
			}
			if rat >= 0 && rat <= 997 || p.Readme.Text != readmePreview(text) {
				c.Fail("fault-readme", "readme source failing after %d of %d bytes: no error", rat, len(text))
				return
			}
		}
		b, _ := ioutil.ReadAll(ds.BodyFile())
		if !bytes.Equal(b, m.data[:at]) {
			c.Fail("fault-lost:"+m.st.Format, "body source failing after %d bytes (preview: %v) delivers %d other bytes afterwards", at, err, len(b))
			return
		}
		want := text
		if rat >= 0 {
			want = text[:rat]
		}
		if b, _ := ioutil.ReadAll(ds.Readme.ScriptFile()); string(b) != want {
			c.Fail("fault-readme-lost", "readme source failing after %d bytes (preview: %v) delivers %d other bytes afterwards", rat, err, len(b))
			return
		}
		c.EvN("restored_bytes", len(b))
		c.Ev("faults")
		c.Distinct("fault", m.data, at, rat, text)
	})

	// damaged bodies and missing parts
	r.Each("damaged", r.Q(800, 8000), func(c *Case) {
		rng := c.Rng
		m := genBodyModel(c, []int{0, 3, 20, 100, 150}[rng.Intn(5)])
		data := mutate(rng, m.data)
		ds := &dataset.Dataset{Name: "n", Structure: m.st}
		name := "body.x"
		must := false
		switch rng.Intn(7) {
		case 0:
			ds.Structure, must = nil, true
		case 1:
			st := *m.st
			st.Format, must = []string{"", "exe", "zip"}[rng.Intn(3)], true
			ds.Structure = &st
		case 2:
			st := *m.st
			st.Schema, must = nil, true
			ds.Structure = &st
		case 3:
			st := *m.st
			st.Compression, must = []string{"lz9", "rar"}[rng.Intn(2)], m.st.Format != "xlsx"
			ds.Structure = &st
		}
		ds.SetBodyFile(faultFile{bytes.NewReader(data), name})
		_, err := preview.Create(ctx, ds)
		if must && err == nil {
			c.Fail("accepted", "structure %s: no error", dump(ds.Structure))
			return
		}
		if b, rerr := ioutil.ReadAll(ds.BodyFile()); rerr != nil || !bytes.Equal(b, data) {
			c.Fail("damaged-lost:"+m.st.Format, "damaged body (preview: %v) of %d bytes delivers %d other bytes afterwards", err, len(data), len(b))
			return
		}
		if err != nil {
			c.Ev("refused")
		}
		c.Distinct("damaged", data, dump(ds.Structure))
	})
	r.Each("nothing", 1, func(c *Case) {
		if _, err := preview.Create(ctx, nil); err == nil {
			c.Fail("nil", "no error for no dataset")
		}
		if _, err := preview.Create(ctx, &dataset.Dataset{}); err == nil {
			c.Fail("empty", "no error for an empty dataset")
		}
	})
}
