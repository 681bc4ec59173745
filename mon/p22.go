package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"html"
	"io"
	"io/ioutil"
	"math/rand"
	"net/url"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsviz"
)

func init() {
	register(&Prop{
		ID:     "C22",
		Rule:   "templates assembled from literal text, dataset fields in text, attribute, URL and script contexts, the title, filesize and isType helpers, and any number of body accesses (all or a page) against bodies of every format, top-level type and compression; each rendered segment is decoded (HTML unescape, URL unescape, JSON parse) and compared with the model; then template and body files are read to their end and the dataset is compared with a deep dump; templates that do not parse or fail midway, missing parts, damaged bodies and failing sources must give an error and lose nothing; non-trivial: a segment that shows data, distinct by template and content",
		Assume: []string{"segments are separated by literal markers that escaped data cannot contain", "offset and limit are not negative, other than limit -1 from 0"},
		Need:   map[string]int64{"renders": 1500, "segments": 6000, "body_pages": 2000, "entries": 20000, "escaped": 1500, "restored_bytes": 2000000, "errors": 700, "faults": 300, "predefined": 100},
		Run:    runC22,
	})
}

type segment struct {
	tmpl  string
	check func(out string) string
	data  bool
}

var nasty = []string{"plain", "a b", "<b>bold</b>", "</script><script>alert(1)</script>", "\" onclick=\"x", "' onclick='x", "a&b&amp;c", "`x`", "{{ .Name }}", "é日本\U0001F600", "\u2028x", "back\\slash", "a=b;c", "javascript:alert(1)", "<!-- c -->", "100%+20%", "line\nbreak", "]]>", "?a=1&b=2#f"}

func nastyStr(r *rand.Rand) string {
	s := nasty[r.Intn(len(nasty))]
	if r.Intn(2) == 0 {
		s += nasty[r.Intn(len(nasty))]
	}
	return s
}

func inner(out, pre, post string) (string, string) {
	if len(out) < len(pre)+len(post) || !strings.HasPrefix(out, pre) || !strings.HasSuffix(out, post) {
		return "", fmt.Sprintf("want %q around the value, got %q", pre+"…"+post, clip(out, 300))
	}
	return out[len(pre) : len(out)-len(post)], ""
}

func jsSeg(expr string, check func(v interface{}) string) segment {
	return segment{"<script>var x = {{ " + expr + " }};</script>", func(out string) string {
		in, e := inner(out, "<script>var x = ", ";</script>")
		if e != "" {
			return e
		}
		if strings.Contains(in, "</") || strings.Contains(in, "<!--") {
			return fmt.Sprintf("%s leaves the script context: %q", expr, clip(in, 300))
		}
		var v interface{}
		if err := json.Unmarshal([]byte(in), &v); err != nil {
			return fmt.Sprintf("%s renders %q: %v", expr, clip(in, 300), err)
		}
		if d := check(v); d != "" {
			return expr + ": " + d
		}
		return ""
	}, true}
}

// plainJSON is v as encoding/json reads it back
func plainJSON(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var out interface{}
	if err := json.Unmarshal(b, &out); err != nil {
		panic(err)
	}
	return out
}

func sizeText(n int64) string {
	unit := []string{"byte", "KB", "MB", "GB", "TB", "PB"}
	i := 0
	for i < len(unit)-1 && n >= 1024 {
		n /= 1024
		i++
	}
	s := fmt.Sprintf("%d %s", n, unit[i])
	if n != 1 {
		s += "s"
	}
	return s
}

func genSegment(c *Case, ds *dataset.Dataset, m bodyModel) segment {
	r := c.Rng
	title := ds.Peername + "/" + ds.Name
	fields := [][2]string{{"ds.name", ds.Name}, {".Name", ds.Name}, {".Peername", ds.Peername}, {"ds.commit.title", ds.Commit.Title}, {".Commit.Title", ds.Commit.Title}}
	if ds.Meta != nil && ds.Meta.Title != "" {
		title = ds.Meta.Title
		fields = append(fields, [2]string{".Meta.Title", ds.Meta.Title}, [2]string{"ds.meta.title", ds.Meta.Title})
	}
	fields = append(fields, [2]string{"title", title}, [2]string{"title", title})
	f := fields[r.Intn(len(fields))]
	sub := func(v interface{}) string { return diffVal(f[0], f[1], v, eqOpts{}) }
	switch r.Intn(11) {
	case 0:
		t := []string{"<p>hello &amp; 5</p>", "plain\n text ", "<div class='x'>\t</div>", "", "<ul><li>1<li>2</ul>", "{ } }} ."}[r.Intn(6)]
		return segment{t, func(out string) string {
			if out != t {
				return fmt.Sprintf("literal text %q renders %q", t, out)
			}
			return ""
		}, false}
	case 1, 2:
		pre, post := "<b>", "</b>"
		if r.Intn(2) == 0 {
			pre, post = `<i title="`, `">x</i>`
		}
		return segment{pre + "{{ " + f[0] + " }}" + post, func(out string) string {
			in, e := inner(out, pre, post)
			if e != "" {
				return e
			}
			if strings.ContainsAny(in, "<>\"'") {
				return fmt.Sprintf("%s is not escaped: %q", f[0], in)
			}
			c.Ev("escaped")
			if html.UnescapeString(in) != f[1] {
				return fmt.Sprintf("%s should show %q, renders %q", f[0], f[1], in)
			}
			return ""
		}, true}
	case 3:
		return segment{`<a href="/x?q={{ ` + f[0] + ` }}">x</a>`, func(out string) string {
			in, e := inner(out, `<a href="/x?q=`, `">x</a>`)
			if e != "" {
				return e
			}
			c.Ev("escaped")
			if strings.ContainsAny(in, "<>\"' &#?") {
				return fmt.Sprintf("%s is not escaped for a URL: %q", f[0], in)
			}
			if s, err := url.PathUnescape(html.UnescapeString(in)); err != nil || s != f[1] {
				return fmt.Sprintf("%s should show %q, renders %q", f[0], f[1], in)
			}
			return ""
		}, true}
	case 4:
		return jsSeg(f[0], sub)
	case 5:
		if r.Intn(2) == 0 {
			want := plainJSON(ds)
			return jsSeg("ds", func(v interface{}) string { return diffVal("ds", want, v, eqOpts{}) })
		}
		n := []int64{0, 1, 2, 1023, 1024, 1025, 2047, 2048, 1 << 20, 1<<20 - 1, 1<<20 + 1, 5 << 20, 1 << 30, 1<<30 - 1, 1 << 40, 3<<40 + 5, 1<<40 - 1, 1 << 50, 7 << 50, 1<<50 - 1}[r.Intn(20)]
		return segment{fmt.Sprintf("<u>{{ filesize %d.0 }}</u>", n), func(out string) string {
			if out != "<u>"+sizeText(n)+"</u>" {
				return fmt.Sprintf("filesize of %d renders %q", n, out)
			}
			return ""
		}, false}
	}
	// body accesses
	n := m.len()
	off, lim := genPage(r, n)
	if off < 0 {
		off = 0
	}
	if lim < 0 {
		lim = 0
	}
	if r.Intn(6) == 0 {
		off, lim = 0, n
	}
	expr := fmt.Sprintf("bodyEntries %d %d", off, lim)
	if k := r.Intn(6); k < 2 {
		off, lim = 0, n
		expr = []string{"allBodyEntries", "bodyEntries 0 -1"}[k]
	}
	lo, hi := off, off+lim
	if lo > n {
		lo = n
	}
	if hi > n || hi < lo {
		hi = n
	}
	c.Ev("body_pages")
	c.EvN("entries", hi-lo)
	var want interface{}
	var list arr
	if m.obj {
		w := obj{}
		for _, p := range m.ps[lo:hi] {
			w[p.k] = p.v
		}
		want = w
	} else {
		list = m.vals[lo:hi]
		want = append(arr{}, list...)
	}
	want = plainJSON(want)
	if r.Intn(3) == 0 {
		typ := []string{"string", "number", "boolean", "array", "object"}[r.Intn(5)]
		if m.obj {
			for _, k := range sortedObj(want.(obj)) {
				list = append(list, want.(obj)[k])
			}
		}
		return segment{fmt.Sprintf("{{ range %s }}<i>{{ isType . %q }}</i>{{ end }}", expr, typ), func(out string) string {
			w := ""
			for _, v := range list {
				t := schType(v)
				if t == "integer" {
					t = "number"
				}
				w += fmt.Sprintf("<i>%v</i>", t == typ)
			}
			if out != w {
				return fmt.Sprintf("%s isType %s: want %q, got %q", expr, typ, clip(w, 200), clip(out, 200))
			}
			return ""
		}, true}
	}
	if r.Intn(4) == 0 {
		return segment{fmt.Sprintf("<b>{{ len (%s) }}</b>", expr), func(out string) string {
			if out != fmt.Sprintf("<b>%d</b>", hi-lo) {
				return fmt.Sprintf("%s of %d entries has length %s", expr, n, out)
			}
			return ""
		}, true}
	}
	return jsSeg(expr, func(v interface{}) string { return diffVal(fmt.Sprintf("of %d entries", n), want, v, eqOpts{}) })
}

func sortedObj(m obj) []string {
	fs := map[string]func() io.Reader{}
	for k := range m {
		fs[k] = nil
	}
	return sortedKeys(fs)
}

// rest22 is everything of a dataset other than its files
func rest22(ds *dataset.Dataset) string {
	cp := *ds
	cp.SetBodyFile(nil)
	if cp.Viz != nil {
		v := *cp.Viz
		v.SetScriptFile(nil)
		cp.Viz = &v
	}
	return dump(&cp)
}

func genVizDataset(c *Case, n int) (*dataset.Dataset, bodyModel) {
	rng := c.Rng
	ds := genDataset(rng, docOpts{full: 3, depth: 1})
	ds.Body, ds.BodyBytes = nil, nil
	ds.Name, ds.Peername = nastyStr(rng), nastyStr(rng)
	if ds.Commit == nil {
		ds.Commit = &dataset.Commit{}
	}
	ds.Commit.Title = nastyStr(rng)
	if ds.Meta != nil {
		ds.Meta.Title = nastyStr(rng)
		if rng.Intn(4) == 0 {
			ds.Meta.Title = ""
			ds.Meta.Description = "d"
		}
	}
	m := genBodyModel(c, n)
	ds.Structure = m.st
	ds.Viz = &dataset.Viz{Format: "html"}
	ds.SetBodyFile(genFile(rng, "/some/dir/body.dat", m.data, m.st.Compression))
	return ds, m
}

func assemble(segs []segment) string {
	t := ""
	for i, s := range segs {
		t += fmt.Sprintf("<hr id=\"s%d\">", i) + s.tmpl
	}
	return t + "<hr id=\"end\">"
}

func checkSegments(segs []segment, out string) string {
	rest := out
	for i, s := range segs {
		mark, next := fmt.Sprintf("<hr id=\"s%d\">", i), fmt.Sprintf("<hr id=\"s%d\">", i+1)
		if i == len(segs)-1 {
			next = "<hr id=\"end\">"
		}
		if !strings.HasPrefix(rest, mark) {
			return fmt.Sprintf("segment %d does not start at its marker: %q", i, clip(rest, 300))
		}
		rest = rest[len(mark):]
		j := strings.Index(rest, next)
		if j < 0 {
			return fmt.Sprintf("segment %d does not end: %q", i, clip(rest, 300))
		}
		if d := s.check(rest[:j]); d != "" {
			return fmt.Sprintf("segment %d (%s): %s", i, clip(s.tmpl, 200), d)
		}
		rest = rest[j:]
	}
	if rest != "<hr id=\"end\">" {
		return fmt.Sprintf("trailing output %q", clip(rest, 300))
	}
	return ""
}

// filesKept reads the files of a rendered dataset to their end
func filesKept(c *Case, ds *dataset.Dataset, tmpl string, body []byte) string {
	f := ds.BodyFile()
	if f == nil {
		return "no body file"
	}
	b, err := ioutil.ReadAll(f)
	if err != nil || !bytes.Equal(b, body) {
		return fmt.Sprintf("body file of %d bytes delivers %d other bytes (%v)", len(body), len(b), err)
	}
	if f.FullPath() != "/some/dir/body.dat" {
		return fmt.Sprintf("body file's path is %q", f.FullPath())
	}
	f = ds.Viz.ScriptFile()
	if f == nil {
		return "no template file"
	}
	b, err = ioutil.ReadAll(f)
	if err != nil || string(b) != tmpl {
		return fmt.Sprintf("template file of %d bytes delivers %d other bytes (%v)", len(tmpl), len(b), err)
	}
	if f.FullPath() != "/some/dir/t.html" {
		return fmt.Sprintf("template file's path is %q", f.FullPath())
	}
	c.EvN("restored_bytes", len(body)+len(tmpl))
	return ""
}

func runC22(r *Run) {
	sizes := []int{0, 1, 2, 5, 10, 30, 30, 100, 300}
	r.Each("render", r.Q(2000, 25000), func(c *Case) {
		rng := c.Rng
		ds, m := genVizDataset(c, sizes[rng.Intn(len(sizes))])
		var segs []segment
		shows := false
		for i := 1 + rng.Intn(7); i > 0; i-- {
			s := genSegment(c, ds, m)
			segs = append(segs, s)
			shows = shows || s.data
		}
		tmpl := assemble(segs)
		ds.Viz.SetScriptFile(genFile(rng, "/some/dir/t.html", []byte(tmpl), ""))
		before := rest22(ds)
		for i := 1 + rng.Intn(2); i > 0; i-- {
			f, err := dsviz.Render(ds)
			if err != nil {
				c.Fail("error:"+m.st.Format, "%v\n%s\n%s", err, tmpl, before)
				return
			}
			out, err := ioutil.ReadAll(f)
			if err != nil {
				c.Fail("result", "%v", err)
				return
			}
			if d := checkSegments(segs, string(out)); d != "" {
				c.Fail("output:"+m.st.Format, "%s (body: %s, compression %q, %d entries)", d, m.st.Format, m.st.Compression, m.len())
				return
			}
			if got := rest22(ds); got != before {
				c.Fail("changed", "rendering changed the dataset: %s", firstDiff(before, got))
				return
			}
			c.Ev("renders")
		}
		if d := filesKept(c, ds, tmpl, m.data); d != "" {
			c.Fail("lost:"+m.st.Format, "after rendering %s: %s (%s, compression %q)", clip(tmpl, 300), d, m.st.Format, m.st.Compression)
			return
		}
		c.EvN("segments", len(segs))
		if shows {
			c.Distinct(tmpl, m.data, before)
		}
		c.Sample("%s %q %d entries: %s", m.st.Format, m.st.Compression, m.len(), clip(tmpl, 200))
	})

	// many pages of one body in one template
	r.Each("pages", r.Q(30, 300), func(c *Case) {
		rng := c.Rng
		n := []int{3, 15, 120, 1015, 1200}[rng.Intn(5)]
		f := []string{"json", "csv", "cbor", "ndjson"}[rng.Intn(4)]
		cs := []col{{"i", "integer"}}
		st := tableStructure(rng, f, cs)
		if f == "csv" {
			st.FormatConfig = nil
		}
		data := make(arr, n)
		for i := range data {
			data[i] = arr{int64(i)}
		}
		body, err := writeBody(st, entriesArr(data))
		if err != nil {
			c.Fail("harness-write", "%v", err)
			return
		}
		type page struct{ o, l int }
		var ps []page
		for _, o := range []int{0, 1, 2, 10, 11, 12, 100, 1000} {
			for _, l := range []int{0, 1, 2, 10, 11, 12, 100, 101, 111, 1000, 1001, 1011} {
				if rng.Intn(2) == 0 {
					ps = append(ps, page{o, l})
				}
			}
		}
		rng.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
		tmpl, want := "", ""
		for _, p := range ps {
			lo, hi := min(p.o, n), min(p.o+p.l, n)
			tmpl += fmt.Sprintf("{{ with bodyEntries %d %d }}{{ len . }}:{{ range $i, $e := . }}{{ if lt $i 2 }}{{ index $e 0 }},{{ end }}{{ end }}{{ else }}none{{ end }};", p.o, p.l)
			if lo >= hi {
				want += "none;"
				continue
			}
			want += fmt.Sprintf("%d:%d,", hi-lo, lo)
			if hi-lo > 1 {
				want += fmt.Sprintf("%d,", lo+1)
			}
			want += ";"
		}
		ds := &dataset.Dataset{Structure: st, Viz: &dataset.Viz{Format: "html"}}
		ds.SetBodyFile(genFile(rng, "/some/dir/body.dat", body, ""))
		ds.Viz.SetScriptFile(genFile(rng, "/some/dir/t.html", []byte(tmpl), ""))
		rf, err := dsviz.Render(ds)
		if err != nil {
			c.Fail("error:"+f, "%v", err)
			return
		}
		if out := slurp(rf); out != want {
			c.Fail("pages:"+f, "%d pages of %d entries: %s", len(ps), n, firstDiff(want, out))
			return
		}
		if d := filesKept(c, ds, tmpl, body); d != "" {
			c.Fail("lost:"+f, "after %d pages: %s", len(ps), d)
			return
		}
		c.EvN("body_pages", len(ps))
		c.Distinct("pages", n, tmpl)
	})

	// failing templates and parts: an error, nothing lost
	bad := []string{"{{", "{{ nope }}", "{{ .Nope }}", "{{ bodyEntries }}", "{{ bodyEntries \"a\" 2 }}", "{{ end }}", "{{ range allBodyEntries }}", "{{ index (bodyEntries 0 1) 100000 }}", "<script>var x = \"{{ if .Name }}\";{{ end }}</script>", "{{ template \"missing\" . }}", "{{ isType 5 \"wat\" }}", "{{ filesize \"x\" }}", "{{ .Structure.Depth.X }}"}
	r.Each("broken", r.Q(800, 8000), func(c *Case) {
		rng := c.Rng
		ds, m := genVizDataset(c, sizes[rng.Intn(7)])
		var segs []segment
		for i := 1 + rng.Intn(4); i > 0; i-- {
			segs = append(segs, genSegment(c, ds, m))
		}
		body := m.data
		what := ""
		access := segment{tmpl: []string{"{{ allBodyEntries }}", "{{ bodyEntries 0 1000 }}"}[rng.Intn(2)]}
		switch k := rng.Intn(6); k {
		case 0, 1:
			what = bad[rng.Intn(len(bad))]
			segs = append(segs, segment{tmpl: what})
			if m.obj && strings.Contains(what, "index") {
				segs = append(segs, segment{tmpl: "{{"})
			}
			if rng.Intn(2) == 0 {
				segs = append(segs, access)
			}
		case 2:
			what = "no structure"
			ds.Structure = nil
			segs = append(segs, access)
		case 3:
			what = "unknown format"
			st := *m.st
			st.Format = "exe"
			ds.Structure = &st
			segs = append(segs, access)
		case 4:
			what = "viz format"
			ds.Viz.Format = []string{"", "md", "HTML", "htm", "pdf"}[rng.Intn(5)]
		case 5:
			what = "cut body"
			if m.st.Format == "csv" || m.st.Format == "ndjson" || len(body) == 0 || m.len() == 0 {
				return
			}
			body = body[:len(body)-1-rng.Intn(len(body)/2+1)]
			if len(body) == 0 || m.st.Compression == "bzip2" {
				return
			}
			if t := readNoClose(m.st, bytes.NewReader(body)); t.err == nil {
				return // still whole, say a missing compression trailer
			}
			ds.SetBodyFile(genFile(rng, "/some/dir/body.dat", body, m.st.Compression))
			segs = append(segs, segment{tmpl: "{{ allBodyEntries }}"})
		}
		tmpl := assemble(segs)
		ds.Viz.SetScriptFile(genFile(rng, "/some/dir/t.html", []byte(tmpl), ""))
		before := rest22(ds)
		f, err := dsviz.Render(ds)
		if err == nil {
			out, _ := ioutil.ReadAll(f)
			c.Fail("accepted", "%s: no error, template %s renders %q", what, clip(tmpl, 300), clip(string(out), 300))
			return
		}
		if got := rest22(ds); got != before {
			c.Fail("changed", "rendering changed the dataset: %s", firstDiff(before, got))
			return
		}
		if d := filesKept(c, ds, tmpl, body); d != "" {
			c.Fail("error-lost:"+m.st.Format, "after a failed render (%s: %v): %s", what, err, d)
			return
		}
		c.Ev("errors")
		c.Distinct("broken", tmpl, body)
	})
	r.Each("missing", 60, func(c *Case) {
		ds, _ := genVizDataset(c, 3)
		tmpl := "{{ allBodyEntries }}"
		switch c.Idx % 3 {
		case 0:
			ds.Viz = nil
		case 1:
			ds.Viz.SetScriptFile(nil)
		case 2:
			ds.SetBodyFile(nil)
			ds.Viz.SetScriptFile(faultFile{strings.NewReader(tmpl), "t.html"})
		}
		if _, err := dsviz.Render(ds); err == nil {
			c.Fail("missing", "missing part %d: no error", c.Idx%3)
			return
		}
		c.Ev("errors")
	})

	// sources that fail
	r.Each("fault", r.Q(500, 5000), func(c *Case) {
		rng := c.Rng
		ds, m := genVizDataset(c, []int{1, 5, 30, 100}[rng.Intn(4)])
		expr, page := "allBodyEntries", m.len()
		if rng.Intn(2) == 0 {
			page = 1 + rng.Intn(m.len())
			expr = fmt.Sprintf("bodyEntries 0 %d", page)
		}
		seg := jsSeg(expr, func(v interface{}) string {
			if m.obj {
				w := obj{}
				for _, p := range m.ps[:page] {
					w[p.k] = p.v
				}
				return diffVal("", plainJSON(w), v, eqOpts{})
			}
			return diffVal("", plainJSON(m.vals[:page]), v, eqOpts{})
		})
		segs := []segment{seg}
		tmpl := assemble(segs)
		at, tat := rng.Intn(len(m.data)+1), len(tmpl)
		if rng.Intn(3) == 0 {
			tat = rng.Intn(len(tmpl) + 1)
			ds.Viz.SetScriptFile(faultFile{&faultReader{data: []byte(tmpl), at: tat, chunk: []int{0, 1, 5}[rng.Intn(3)], then: rng.Intn(2)}, "t.html"})
			at = len(m.data)
		} else {
			ds.Viz.SetScriptFile(faultFile{strings.NewReader(tmpl), "t.html"})
			ds.SetBodyFile(faultFile{&faultReader{data: m.data, at: at, chunk: []int{0, 1, 5, 512}[rng.Intn(4)], with: rng.Intn(2) == 0, then: rng.Intn(2)}, "b"})
			tat = -1
		}
		f, err := dsviz.Render(ds)
		if err == nil {
			if tat >= 0 {
				c.Fail("fault-template", "template source fails after %d of %d bytes: no error", tat, len(tmpl))
				return
			}
			out, _ := ioutil.ReadAll(f)
			if d := checkSegments(segs, string(out)); d != "" {
				c.Fail("fault-output:"+m.st.Format, "body source fails after %d of %d bytes, no error: %s", at, len(m.data), d)
				return
			}
		}
		b, _ := ioutil.ReadAll(ds.BodyFile())
		if !bytes.Equal(b, m.data[:at]) {
			c.Fail("fault-lost:"+m.st.Format, "body source failing after %d bytes delivers %d other bytes afterwards (render: %v)", at, len(b), err)
			return
		}
		want := tmpl
		if tat >= 0 {
			want = tmpl[:tat]
		}
		if b, _ := ioutil.ReadAll(ds.Viz.ScriptFile()); string(b) != want {
			c.Fail("fault-template-lost", "template source failing after %d bytes delivers %q afterwards (render: %v)", tat, b, err)
			return
		}
		c.Ev("faults")
		c.Distinct("fault", tmpl, m.data, at, tat)
	})

	// predefined templates are a package variable: one case at a time
	r.Serial("predefined", r.Q(150, 1000), func(c *Case) {
		rng := c.Rng
		ds, m := genVizDataset(c, 5)
		defer func() { dsviz.PredefinedHTMLTemplates = nil }()
		a, b := genSegment(c, ds, m), genSegment(c, ds, m)
		dsviz.PredefinedHTMLTemplates = map[string]string{"one": a.tmpl, "two": `{{ define "blk" }}` + b.tmpl + `{{ end }}`}
		segs := []segment{{`{{ template "one" . }}`, a.check, true}, {`{{ block "blk" . }}other{{ end }}`, func(out string) string {
			if out != "other" {
				return fmt.Sprintf("the template's own block renders %q", clip(out, 200))
			}
			return ""
		}, true}}
		if rng.Intn(2) == 0 {
			segs[1] = segment{`{{ template "blk" . }}`, b.check, true}
		}
		broken := rng.Intn(5) == 0
		if broken {
			dsviz.PredefinedHTMLTemplates["three"] = "{{ nope"
		}
		tmpl := assemble(segs)
		ds.Viz.SetScriptFile(genFile(rng, "/some/dir/t.html", []byte(tmpl), ""))
		f, err := dsviz.Render(ds)
		if broken {
			if err == nil {
				c.Fail("predefined-broken", "a predefined template that does not parse: no error")
				return
			}
		} else {
			if err != nil {
				c.Fail("predefined-error", "%v", err)
				return
			}
			out, _ := ioutil.ReadAll(f)
			if d := checkSegments(segs, string(out)); d != "" {
				c.Fail("predefined", "%s", d)
				return
			}
		}
		if d := filesKept(c, ds, tmpl, m.data); d != "" {
			c.Fail("lost:"+m.st.Format, "%s", d)
			return
		}
		c.Ev("predefined")
		c.Distinct("predefined", tmpl, a.tmpl, b.tmpl, m.data)
	})
}
