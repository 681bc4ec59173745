package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsdiff"
	"github.com/qri-io/dataset/dsviz"
	"github.com/qri-io/dataset/preview"
	"github.com/qri-io/qfs"
)

func init() {
	register(&Prop{
		ID:   "C12",
		Rule: "transforms (alone and inside datasets) carry secrets whose names and values are unique tokens that occur nowhere else; every encoder, hash, differ, summary, renderer, preview and signature of the document is run and its output searched for the tokens (plain, base64, hex), and compared with the output for the same document without secrets; non-trivial: at least one secret, distinct by encoding",
		Assume: []string{
			"template access to the Dataset value itself (the dot) is the template author's business; the ds function is what renderers expose",
		},
		Need: map[string]int64{"outputs_searched": 20000, "secrets": 3000, "compared_without": 5000, "renders": 500, "diffs": 3000},
		Run:  runC12,
	})
}

type canary struct {
	toks []string
}

func (cn *canary) next(c *Case) string {
	s := fmt.Sprintf("CANARY%dx%dx%dq", c.Idx, len(cn.toks), c.Rng.Intn(1e6))
	cn.toks = append(cn.toks, s)
	return s
}

func (cn *canary) secrets(c *Case) map[string]string {
	m := map[string]string{}
	for i := c.Rng.Intn(3); i >= 0; i-- {
		m[cn.next(c)] = cn.next(c)
	}
	return m
}

// refer makes some of the configuration mention secrets by name, the way
// variables are mentioned; the names so mentioned are no longer searched for
func (cn *canary) refer(c *Case, tf *dataset.Transform) {
	if c.Rng.Intn(3) != 0 {
		return
	}
	for name := range tf.Secrets {
		if c.Rng.Intn(2) == 0 {
			continue
		}
		w := fmt.Sprintf([]string{"$%s", "${%s}", "{{%s}}", "{{ .%s }}", "%s", "%%%s%%", "secret:%s", "@%s", "$(%s)", "secrets.%s", "a $%s b"}[c.Rng.Intn(11)], name)
		switch c.Rng.Intn(6) {
		case 0:
			tf.Text += w
		case 5:
			st := &dataset.TransformStep{Name: []string{"", "a", w}[c.Rng.Intn(3)], Syntax: "starlark", Category: "setup", Script: []interface{}{w, "load('x')\n" + w + "\n"}[c.Rng.Intn(2)]}
			tf.Steps = append(tf.Steps, st)
		case 1:
			tf.ScriptPath = w
		default:
			if tf.Config == nil {
				tf.Config = map[string]interface{}{}
			}
			switch c.Rng.Intn(3) {
			case 0:
				tf.Config[w] = "x"
			case 1:
				tf.Config["k"] = []interface{}{w, map[string]interface{}{"n": w}}
			default:
				tf.Config["auth"] = w
			}
		}
		var left []string
		for _, t := range cn.toks {
			if t != name {
				left = append(left, t)
			}
		}
		cn.toks = left
	}
}

func (cn *canary) search(c *Case, what string, out []byte) {
	c.Ev("outputs_searched")
	low := bytes.ToLower(out)
	for _, t := range cn.toks {
		for form, s := range map[string]string{"": t, " in base64": strings.TrimRight(base64.StdEncoding.EncodeToString([]byte(t)), "=")[:12], " in hex": hex.EncodeToString([]byte(t))} {
			if bytes.Contains(low, []byte(strings.ToLower(s))) {
				c.Fail("leak:"+what, "%s holds the secret token %s%s: %s", what, t, form, quoteClip(out))
				return
			}
		}
	}
}

func withoutSecrets(doc interface{}) interface{} {
	d := cloneDoc(doc)
	switch x := d.(type) {
	case *dataset.Dataset:
		if x.Transform != nil {
			x.Transform.Secrets = nil
		}
	case *dataset.Transform:
		x.Secrets = nil
	}
	return d
}

func runC12(r *Run) {
	hash := func(m json.Marshaler) []byte {
		h, err := dataset.JSONHash(m)
		return []byte(fmt.Sprint(h, err))
	}
	// encodings of a document by every route
	outputs := func(doc interface{}) map[string][]byte {
		out := map[string][]byte{}
		put := func(n string, b []byte, err error) { out[n] = append(b, []byte(fmt.Sprint(err))...) }
		b, err := json.Marshal(doc)
		put("json", b, err)
		b, err = json.MarshalIndent(doc, "", " ")
		put("json-indent", b, err)
		b, err = json.Marshal(map[string]interface{}{"x": doc, "l": []interface{}{doc}})
		put("json-nested", b, err)
		out["hash"] = hash(doc.(json.Marshaler))
		b, err = doc.(json.Marshaler).MarshalJSON()
		put("MarshalJSON", b, err)
		switch x := doc.(type) {
		case *dataset.Dataset:
			b, err = json.Marshal(*x)
			put("json-value", b, err)
			out["signing"] = x.SigningBytes()
			sb, err := x.SignableBytes()
			put("signable", sb, err)
			out["pathmap"] = []byte(fmt.Sprint(x.PathMap()))
			if x.Transform != nil {
				b, err = json.Marshal(x.Transform)
				put("transform", b, err)
			}
		case *dataset.Transform:
			b, err = json.Marshal(*x)
			put("json-value", b, err)
			b, err = x.MarshalJSONObject()
			put("object", b, err)
		}
		return out
	}
	check := func(c *Case, doc interface{}, tf *dataset.Transform, cn *canary) {
		before := dump(doc)
		outs := outputs(doc)
		if dump(doc) != before {
			c.Fail("modified", "encoding changes the document")
		}
		bare := withoutSecrets(doc)
		bareOuts := outputs(bare)
		other := withoutSecrets(doc)
		if o, ok := other.(*dataset.Dataset); ok {
			other = o.Transform
		}
		// secrets make no difference to what else is there
		substantial := tf.Path == "" || !other.(*dataset.Transform).IsEmpty()
		for n, o := range outs {
			cn.search(c, n, o)
			if substantial {
				c.Ev("compared_without")
				if !bytes.Equal(o, bareOuts[n]) {
					c.Fail("differs:"+n, "%s depends on the secrets: %s", n, firstDiff(string(bareOuts[n]), string(o)))
				}
			}
		}
		c.EvN("secrets", len(tf.Secrets))
		c.Distinct(outs["json"])
		c.Sample("%s", outs["json"])
	}
	r.Each("transform", r.Q(1500, 20000), func(c *Case) {
		cn := &canary{}
		tf := genComponent(c.Rng, compTypes[5], docOpts{}).(*dataset.Transform)
		if c.Rng.Intn(6) == 0 {
			tf = &dataset.Transform{Path: []string{"", "/p"}[c.Rng.Intn(2)]}
		}
		tf.Secrets = cn.secrets(c)
		cn.refer(c, tf)
		check(c, tf, tf, cn)
		cp := &dataset.Transform{}
		cp.Assign(tf)
		cp.DropTransientValues()
		if len(cp.Secrets) != 0 {
			c.Fail("drop", "DropTransientValues leaves secrets %v", cp.Secrets)
		}
		if len(tf.Secrets) == 0 {
			c.Fail("drop-source", "dropping the secrets of a copy drops those of the original")
		}
	})
	r.Each("dataset", r.Q(1000, 15000), func(c *Case) {
		cn := &canary{}
		ds := genDataset(c.Rng, docOpts{})
		if ds.Transform == nil {
			ds.Transform = &dataset.Transform{Text: "t"}
		}
		ds.Transform.Secrets = cn.secrets(c)
		cn.refer(c, ds.Transform)
		check(c, ds, ds.Transform, cn)
	})
	r.Each("diff", r.Q(1200, 12000), func(c *Case) {
		cn := &canary{}
		mk := func() *dataset.Transform {
			tf := genComponent(c.Rng, compTypes[5], docOpts{}).(*dataset.Transform)
			if c.Rng.Intn(5) == 0 {
				return nil
			}
			if c.Rng.Intn(4) > 0 {
				tf.Secrets = cn.secrets(c)
				cn.refer(c, tf)
			}
			return tf
		}
		a, b := mk(), mk()
		if c.Rng.Intn(3) == 0 && a != nil {
			b = cloneDoc(a).(*dataset.Transform)
			b.Secrets = cn.secrets(c)
		}
		emit := func(what string, d *dsdiff.SubDiff, err error) {
			c.Ev("diffs")
			if err != nil {
				cn.search(c, what+" error", []byte(err.Error()))
				return
			}
			if d.Diff == nil {
				return
			}
			j, _ := d.MarshalJSON()
			cn.search(c, what+" deltas", j)
			for _, how := range []string{"simple", "listKeys", "plusMinus", "plusMinusColor", "delta"} {
				s, err := d.SummarizeToString(how)
				cn.search(c, what+" "+how, []byte(fmt.Sprint(s, err)))
			}
		}
		d, err := dsdiff.DiffTransform(a, b)
		emit("DiffTransform", d, err)
		if err == nil && a != nil && b != nil {
			x, y := withoutSecrets(a).(*dataset.Transform), withoutSecrets(b).(*dataset.Transform)
			d2, err2 := dsdiff.DiffTransform(x, y)
			c.Ev("compared_without")
			m1, m2 := d.Diff != nil && d.Modified(), err2 == nil && d2.Diff != nil && d2.Modified()
			if m1 != m2 {
				c.Fail("diff-depends", "the diff reports a change %v, without secrets %v", m1, m2)
			}
		}
		ds1, ds2 := &dataset.Dataset{Transform: a, Meta: &dataset.Meta{Title: "x"}}, &dataset.Dataset{Transform: b}
		m, err := dsdiff.DiffDatasets(ds1, ds2, nil)
		if err == nil {
			for k, d := range m {
				emit("DiffDatasets "+k, d, nil)
			}
			for _, how := range []string{"simple", "listKeys", "plusMinus", "plusMinusColor", "delta"} {
				s, err := dsdiff.MapDiffsToString(m, how)
				cn.search(c, "MapDiffsToString "+how, []byte(fmt.Sprint(s, err)))
			}
		}
		c.EvN("secrets", len(cn.toks)/2)
	})
	r.Each("render", r.Q(600, 6000), func(c *Case) {
		cn := &canary{}
		ds := genDataset(c.Rng, docOpts{tok: sharedToks(c)})
		if ds.Transform == nil {
			ds.Transform = &dataset.Transform{Text: "t"}
		}
		ds.Transform.Secrets = cn.secrets(c)
		cn.refer(c, ds.Transform)
		ds.Viz = &dataset.Viz{Format: "html"}
		ds.Structure = stFor(c.Rng, "json", "array", "")
		ds.SetBodyFile(qfs.NewMemfileBytes("body.json", []byte(`[1,"a",{"b":2}]`)))
		tmpl := []string{
			`{{ ds }}`, `<script>var d = {{ ds }};</script>`, `{{ range $k, $v := ds }}{{ $k }}={{ $v }};{{ end }}`,
			`{{ ds.transform }}`, `{{ with ds.transform }}{{ .secrets }}{{ .Secrets }}{{ . }}{{ end }}`, `{{ title }} {{ allBodyEntries }} {{ ds.transform.secrets }}`,
			`{{ printf "%#v" ds }}`, `{{ printf "%v" ds.transform }}`,
		}[c.Rng.Intn(8)]
		ds.Viz.SetScriptFile(qfs.NewMemfileBytes("t.html", []byte(tmpl)))
		f, err := dsviz.Render(ds)
		c.Ev("renders")
		c.EvN("secrets", len(cn.toks)/2)
		if err != nil {
			cn.search(c, "render error", []byte(err.Error()))
			return
		}
		out := []byte(slurp(f))
		cn.search(c, "render of "+tmpl, out)
		if len(out) == 0 && !strings.Contains(tmpl, "secrets") {
			c.Fail("render-empty", "template %s renders to nothing", tmpl)
		}
		c.Distinct(tmpl, out)
	})
	r.Each("preview", r.Q(300, 3000), func(c *Case) {
		cn := &canary{}
		ds := genDataset(c.Rng, docOpts{tok: sharedToks(c)})
		ds.Transform = genComponent(c.Rng, compTypes[5], docOpts{}).(*dataset.Transform)
		ds.Transform.Secrets = cn.secrets(c)
		ds.Structure = stFor(c.Rng, "json", "array", "")
		ds.Body = nil
		ds.SetBodyFile(qfs.NewMemfileBytes("body.json", []byte(`[1,"a",{"b":2}]`)))
		p, err := preview.Create(context.Background(), ds)
		c.EvN("secrets", len(cn.toks)/2)
		if err != nil {
			c.Fail("preview", "%v", err)
			return
		}
		b, err := json.Marshal(p)
		cn.search(c, "preview", []byte(fmt.Sprint(string(b), err)))
	})
	// a decoded document does not take secrets from encodings it wrote
	r.Each("roundtrip", r.Q(300, 3000), func(c *Case) {
		cn := &canary{}
		tf := genComponent(c.Rng, compTypes[5], docOpts{}).(*dataset.Transform)
		tf.Secrets = cn.secrets(c)
		b, _ := json.Marshal(tf)
		got := &dataset.Transform{}
		if err := json.Unmarshal(b, got); err != nil || len(got.Secrets) != 0 {
			c.Fail("roundtrip", "%v %v", err, got.Secrets)
		}
		c.Ev("outputs_searched")
	})
}
