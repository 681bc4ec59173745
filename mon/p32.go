package main

import (
	"encoding/json"
	"math/rand"
	"reflect"
	"strings"

	"github.com/qri-io/dataset"
)

func init() {
	register(&Prop{
		ID:   "C32",
		Rule: "sequences of Set calls with known keys in any letter case and spacing, unknown keys, and values of every JSON type against a model of the metadata; after every call the whole document is compared with the model, and at the end its JSON form; non-trivial: at least one call that changes something, distinct by history",
		Need: map[string]int64{"sets": 20000, "refused": 3000, "arbitrary": 2000, "encoded": 2000},
		Run:  runC32,
	})
}

var metaKeys = []string{"qri", "accessURL", "accrualPeriodicity", "description", "downloadURL", "homeURL", "identifier", "readmeURL", "title", "version", "keywords", "language", "theme", "citations", "contributors", "license"}

func spell(r *rand.Rand, k string) string {
	switch r.Intn(5) {
	case 0:
		k = strings.ToUpper(k)
	case 1:
		k = strings.ToLower(k)
	case 2:
		b := []byte(k)
		for i := range b {
			if r.Intn(2) == 0 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		k = string(b)
	}
	if r.Intn(4) == 0 {
		k = []string{" ", "\t", "\n", "  "}[r.Intn(4)] + k + []string{"", " "}[r.Intn(2)]
	}
	return k
}

func metaVal(r *rand.Rand, depth int) interface{} {
	switch r.Intn(10) {
	case 0:
		return nil
	case 1:
		return float64(r.Intn(100))
	case 2:
		return r.Intn(2) == 0
	case 3, 4, 5:
		return docStr(r, docOpts{})
	case 6, 7:
		a := arr{}
		if depth > 0 {
			for i := r.Intn(4); i > 0; i-- {
				if r.Intn(5) == 0 {
					a = append(a, metaVal(r, depth-1))
				} else {
					a = append(a, docStr(r, docOpts{}))
				}
			}
		}
		return a
	}
	m := obj{}
	for _, k := range []string{"id", "name", "email", "url", "type", "other"} {
		if r.Intn(2) == 0 {
			if r.Intn(8) == 0 {
				m[k] = metaVal(r, 0)
			} else {
				m[k] = docStr(r, docOpts{})
			}
		}
	}
	return m
}

// person reads named strings from an object
func person(v interface{}, keys ...string) ([]string, bool) {
	m, ok := v.(map[string]interface{})
	if !ok {
		return nil, false
	}
	out := make([]string, len(keys))
	for i, k := range keys {
		switch s := m[k].(type) {
		case nil:
		case string:
			out[i] = s
		default:
			return nil, false
		}
	}
	return out, true
}

// modelSet is the expected effect of Set: false when it has to be refused
func modelSet(md *dataset.Meta, key string, v interface{}) bool {
	f := reflect.ValueOf(md).Elem()
	name := ""
	for i := 0; i < f.NumField(); i++ {
		tag := strings.Split(f.Type().Field(i).Tag.Get("json"), ",")[0]
		if tag != "" && tag != "path" && strings.EqualFold(tag, strings.TrimSpace(key)) {
			name = f.Type().Field(i).Name
		}
	}
	switch name {
	case "Citations", "Contributors":
		l, ok := v.([]interface{})
		if !ok {
			return false
		}
		cs, us := []*dataset.Citation{}, []*dataset.User{}
		for _, e := range l {
			c, ok1 := person(e, "name", "url", "email")
			u, ok2 := person(e, "id", "name", "email")
			if name == "Citations" && !ok1 || name == "Contributors" && !ok2 {
				return false
			}
			if ok1 {
				cs = append(cs, &dataset.Citation{Name: c[0], URL: c[1], Email: c[2]})
			}
			if ok2 {
				us = append(us, &dataset.User{ID: u[0], Fullname: u[1], Email: u[2]})
			}
		}
		if name == "Citations" {
			md.Citations = cs
		} else {
			md.Contributors = us
		}
		return true
	case "License":
		l, ok := person(v, "type", "url")
		if ok {
			md.License = &dataset.License{Type: l[0], URL: l[1]}
		}
		return ok
	case "":
		panic("not a field: " + key)
	}
	fv := f.FieldByName(name)
	if fv.Kind() == reflect.String {
		switch s := v.(type) {
		case nil:
			fv.SetString("")
		case string:
			fv.SetString(s)
		default:
			return false
		}
		return true
	}
	switch l := v.(type) {
	case nil:
		fv.Set(reflect.Zero(fv.Type()))
	case []interface{}:
		var out []string
		for _, e := range l {
			switch s := e.(type) {
			case nil:
				out = append(out, "")
			case string:
				out = append(out, s)
			default:
				return false
			}
		}
		fv.Set(reflect.ValueOf(out))
	default:
		return false
	}
	return true
}

func runC32(r *Run) {
	r.Each("history", r.Q(4000, 50000), func(c *Case) {
		rng := c.Rng
		got, want := &dataset.Meta{}, &dataset.Meta{}
		if rng.Intn(3) == 0 {
			got = genComponent(rng, compTypes[1], docOpts{depth: 1}).(*dataset.Meta)
			want = cloneDoc(got).(*dataset.Meta)
		}
		extra := obj{}
		for k, v := range got.Meta() {
			extra[k] = v
		}
		hist := ""
		for i := 1 + rng.Intn(12); i > 0; i-- {
			v := metaVal(rng, 2)
			in := dump(v)
			key := ""
			if rng.Intn(4) == 0 {
				key = arbKey(rng, docOpts{})
				extra[key] = v
				if rng.Intn(2) == 0 {
					if err := got.SetArbitrary(key, v); err != nil {
						c.Fail("arbitrary", "SetArbitrary(%q, %s): %v", key, in, err)
						return
					}
				} else if err := got.Set(key, v); err != nil {
					c.Fail("arbitrary", "Set(%q, %s): %v", key, in, err)
					return
				}
				c.Ev("arbitrary")
			} else {
				key = spell(rng, metaKeys[rng.Intn(len(metaKeys))])
				ok := modelSet(want, key, v)
				if err := got.Set(key, v); (err == nil) != ok {
					c.Fail("verdict", "Set(%q, %s): %v", key, in, err)
					return
				}
				if !ok {
					c.Ev("refused")
				}
			}
			hist += key + "=" + in + ";"
			if dump(v) != in {
				c.Fail("changed", "Set(%q) changed the value it was given", key)
				return
			}
			if a, b := exported(got, true), exported(want, true); a != b {
				c.Fail("state", "after %s the metadata differs: %s", clip(hist, 600), firstDiff(b, a))
				return
			}
			if a, b := dump(got.Meta()), dump(map[string]interface{}(extra)); a != b {
				c.Fail("extra", "after %s the additional metadata differs: %s", clip(hist, 600), firstDiff(b, a))
				return
			}
			c.Ev("sets")
		}
		// what was set shows in the encoded document
		b, err := got.MarshalJSONObject()
		if err != nil {
			c.Fail("encode", "%v", err)
			return
		}
		m := obj{}
		if err := json.Unmarshal(b, &m); err != nil {
			c.Fail("encode", "%v", err)
			return
		}
		for k, v := range extra {
			if d := diffVal(k, plainJSON(v), m[k], eqOpts{}); d != "" {
				c.Fail("encode", "after %s: %s", clip(hist, 600), d)
				return
			}
		}
		if want.Title != "" && m["title"] != plainJSON(want.Title) {
			c.Fail("encode", "title %q is encoded as %v", want.Title, m["title"])
			return
		}
		c.Ev("encoded")
		c.Distinct(hist)
		c.Sample("%s", clip(hist, 300))
	})
}
