package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"

	"github.com/qri-io/dataset"
)

func init() {
	register(&Prop{
		ID:   "C10",
		Rule: "documents of every component type and whole datasets are generated by reflection with random subsets of all exported fields (each field also alone, with and without a path), encoded, decoded and compared field by field with the original; references, object-only encodings, indented and re-encoded forms and the Unmarshal helpers are included; non-trivial: at least one field set, distinct by encoded bytes",
		Assume: []string{
			"numbers in free-form values compare at float64 precision (JSON decoding)",
			"additional metadata keys do not spell a named field in any letter case (encoding/json folds case)",
			"free-form values are JSON values",
		},
		Need: map[string]int64{"roundtrips": 8000, "references": 200, "single_fields": 120, "arbitrary_keys": 300, "without_kind": 3000},
		Run:  runC10,
	})
}

type jsonObjecter interface{ MarshalJSONObject() ([]byte, error) }

// unmarshalInto decodes through a random entry point of the package
func decodeDoc(c *Case, t reflect.Type, data []byte) (interface{}, error) {
	if c.Rng.Intn(3) == 0 {
		switch t.Name() {
		case "Dataset":
			return dataset.UnmarshalDataset(data)
		case "Commit":
			return dataset.UnmarshalCommit(data)
		case "Structure":
			return dataset.UnmarshalStructure(data)
		case "Transform":
			return dataset.UnmarshalTransform(data)
		case "Viz":
			return dataset.UnmarshalViz(data)
		case "Readme":
			return dataset.UnmarshalReadme(data)
		}
	}
	p := reflect.New(t)
	if c.Rng.Intn(4) == 0 {
		// decoding replaces whatever was there
		fillStruct(c.Rng, p.Elem(), docOpts{})
	}
	err := json.Unmarshal(data, p.Interface())
	return p.Interface(), err
}

func checkRoundTrip(c *Case, doc interface{}, label string) {
	v := reflect.ValueOf(doc)
	t := v.Type().Elem()
	data, err := json.Marshal(doc)
	if err != nil {
		c.Fail("encode:"+t.Name(), "%s: %v", label, err)
		return
	}
	if refOnly(v.Elem()) {
		c.Ev("references")
		want, _ := json.Marshal(v.Elem().FieldByName("Path").String())
		if !bytes.Equal(want, data) {
			c.Fail("reference:"+t.Name(), "%s: a %s that is only a path encodes to %s, want %s", label, t.Name(), quoteClip(data), want)
		}
	} else if len(data) == 0 || data[0] != '{' {
		c.Fail("not-object:"+t.Name(), "%s: a %s with fields encodes to %s: %s", label, t.Name(), quoteClip(data), dump(doc))
		return
	}
	one := func(form string, data []byte) {
		got, err := decodeDoc(c, t, data)
		if err != nil {
			c.Fail("decode:"+t.Name(), "%s %s: %v of %s", label, form, err, quoteClip(data))
			return
		}
		c.Ev("roundtrips")
		if d := diffDoc(t.Name(), v.Elem(), reflect.ValueOf(got).Elem()); d != "" {
			c.Fail("lost:"+t.Name(), "%s %s: %s\nencoded as %s", label, form, d, quoteClip(data))
		}
	}
	one("compact", data)
	var ind bytes.Buffer
	json.Indent(&ind, data, " ", "\t")
	one("indented", append([]byte(" \n"), ind.Bytes()...))
	if o, ok := doc.(jsonObjecter); ok {
		data, err := o.MarshalJSONObject()
		if err != nil || len(data) == 0 || data[0] != '{' {
			c.Fail("object:"+t.Name(), "%s: MarshalJSONObject gives %s, %v", label, quoteClip(data), err)
		} else {
			one("object", data)
		}
	}
	c.Distinct(data)
	c.Sample("%s %s", label, data)
	if data[0] == '{' {
		noKind(c, t, v, data, label)
	}
}

// noKind decodes the document with its kind identifier taken out: everything
// else survives, and readmes and visualisations get their own kind
func noKind(c *Case, t reflect.Type, v reflect.Value, data []byte, label string) {
	kind, isDoc := kindOf[t.Name()]
	m := map[string]json.RawMessage{}
	if !isDoc || json.Unmarshal(data, &m) != nil || m["qri"] == nil {
		return
	}
	delete(m, "qri")
	b, _ := json.Marshal(m)
	got, err := decodeDoc(c, t, b)
	if err != nil {
		c.Fail("decode-no-kind:"+t.Name(), "%s: %v of %s", label, err, quoteClip(b))
		return
	}
	c.Ev("without_kind")
	g := reflect.ValueOf(got).Elem()
	q := g.FieldByName("Qri")
	switch t.Name() {
	case "Readme", "Viz":
		if q.String() != kind {
			c.Fail("no-kind:"+t.Name(), "%s: a %s without kind is decoded as of kind %q: %s", label, t.Name(), q.String(), quoteClip(b))
		}
	default:
		if q.String() != kind && q.String() != "" {
			c.Fail("no-kind:"+t.Name(), "%s: a %s without kind is decoded as of kind %q: %s", label, t.Name(), q.String(), quoteClip(b))
		}
	}
	w := v.Elem().FieldByName("Qri").String()
	if w == "" {
		w = kind
	}
	q.SetString(w)
	if d := diffDoc(t.Name(), v.Elem(), g); d != "" {
		c.Fail("lost-no-kind:"+t.Name(), "%s without kind: %s\ndecoded from %s", label, d, quoteClip(b))
	}
}

func runC10(r *Run) {
	// every field of every type alone
	for _, t := range compTypes {
		t := t
		r.Each("single-"+t.Name(), t.NumField()*4, func(c *Case) {
			f := t.Field(c.Idx / 4)
			if f.PkgPath != "" {
				return
			}
			p := reflect.New(t)
			p.Elem().Field(c.Idx / 4).Set(genField(c.Rng, f.Type, f.Name, docOpts{}))
			if c.Idx%2 == 1 {
				p.Elem().FieldByName("Path").SetString("/mem/p" + fmt.Sprint(c.Idx))
			}
			c.Ev("single_fields")
			checkRoundTrip(c, p.Interface(), f.Name+" alone")
		})
		r.Each("mix-"+t.Name(), r.Q(3000, 40000), func(c *Case) {
			doc := genComponent(c.Rng, t, docOpts{empties: true, secrets: true, files: c.Rng.Intn(3) == 0})
			if md, ok := doc.(*dataset.Meta); ok {
				c.EvN("arbitrary_keys", len(md.Meta()))
			}
			checkRoundTrip(c, doc, "mix")
		})
	}
	r.Each("refs", r.Q(300, 3000), func(c *Case) {
		path := docStr(c.Rng, docOpts{})
		for _, d := range []interface{}{dataset.NewDatasetRef(path), dataset.NewCommitRef(path), dataset.NewMetaRef(path), dataset.NewReadmeRef(path), dataset.NewStructureRef(path), dataset.NewStatsRef(path), dataset.NewTransformRef(path), dataset.NewVizRef(path)} {
			checkRoundTrip(c, d, "ref")
		}
		ds := &dataset.Dataset{Name: "n", Commit: dataset.NewCommitRef(path + "c"), Meta: dataset.NewMetaRef(path + "m"), Readme: dataset.NewReadmeRef(path + "r"), Structure: dataset.NewStructureRef(path + "s"),
			Stats: dataset.NewStatsRef(path + "a"), Transform: dataset.NewTransformRef(path + "t"), Viz: dataset.NewVizRef(path + "v")}
		checkRoundTrip(c, ds, "dataset of refs")
		m := map[string]json.RawMessage{}
		b, _ := json.Marshal(ds)
		json.Unmarshal(b, &m)
		for _, k := range []string{"commit", "meta", "readme", "structure", "stats", "transform", "viz"} {
			if len(m[k]) == 0 || m[k][0] != '"' {
				c.Fail("ref-in-dataset", "%s reference inside a dataset encodes to %s", k, m[k])
			}
		}
	})
	// transform resources may be given as strings
	r.Each("resources", r.Q(100, 1000), func(c *Case) {
		p := docStr(c.Rng, docOpts{})
		q, _ := json.Marshal(p)
		tf := &dataset.Transform{}
		if err := json.Unmarshal([]byte(`{"resources":{"a":`+string(q)+`,"b":{"path":`+string(q)+`}}}`), tf); err != nil {
			c.Fail("resource", "%v", err)
			return
		}
		for _, k := range []string{"a", "b"} {
			if tf.Resources[k] == nil || tf.Resources[k].Path != p {
				c.Fail("resource", "resource %s %q decodes to %s", k, p, dump(tf.Resources))
			}
		}
	})
	// what the Unmarshal helpers take other than bytes
	unm := map[string]func(interface{}) (interface{}, error){
		"Dataset":   func(v interface{}) (interface{}, error) { return dataset.UnmarshalDataset(v) },
		"Commit":    func(v interface{}) (interface{}, error) { return dataset.UnmarshalCommit(v) },
		"Structure": func(v interface{}) (interface{}, error) { return dataset.UnmarshalStructure(v) },
		"Transform": func(v interface{}) (interface{}, error) { return dataset.UnmarshalTransform(v) },
		"Viz":       func(v interface{}) (interface{}, error) { return dataset.UnmarshalViz(v) },
		"Readme":    func(v interface{}) (interface{}, error) { return dataset.UnmarshalReadme(v) },
	}
	for _, t := range compTypes {
		f := unm[t.Name()]
		if f == nil {
			continue
		}
		t := t
		r.Each("helper-"+t.Name(), r.Q(50, 500), func(c *Case) {
			doc := genComponent(c.Rng, t, docOpts{secrets: true})
			pre := dump(doc)
			for _, v := range []interface{}{doc, reflect.ValueOf(doc).Elem().Interface()} {
				got, err := f(v)
				if err != nil || dump(got) != pre {
					c.Fail("helper:"+t.Name(), "%T is not taken as it is: error %v, %s", v, err, clip(firstDiff(pre, dump(got)), 300))
					return
				}
			}
			for _, bad := range []interface{}{nil, 1, "{}", []byte("{"), []byte("[]"), map[string]interface{}{}} {
				if got, err := f(bad); err == nil {
					c.Fail("helper:"+t.Name(), "%T %v accepted: %s", bad, bad, dump(got))
					return
				}
			}
			c.Ev("helpers")
		})
	}
	// wrong JSON types are refused
	r.Each("refuse", len(compTypes), func(c *Case) {
		t := compTypes[c.Idx]
		for _, bad := range []string{"1", "true", "[]", "[1]", `{"path":1}`, `{"qri":[]}`, `{`, ``} {
			p := reflect.New(t)
			if err := json.Unmarshal([]byte(bad), p.Interface()); err == nil {
				c.Fail("accepts:"+t.Name(), "%s accepted as a %s", bad, t.Name())
			}
		}
	})
}
