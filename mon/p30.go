package main

import (
	"fmt"
	"reflect"

	"github.com/qri-io/dataset"
)

func init() {
	register(&Prop{
		ID:   "C30",
		Rule: "documents with every field set, each field alone and random subsets have their transient or derived values dropped; every exported field, additional metadata key and file is compared with a table of the fields that have to go; non-trivial: at least one field set, distinct by document",
		Need: map[string]int64{"drops": 8000, "fields_compared": 60000, "cleared": 8000},
		Run:  runC30,
	})
}

var transientFields = map[string][]string{
	"Dataset":   {"Body", "BodyBytes", "Name", "Peername", "Path", "ProfileID", "NumVersions"},
	"Commit":    {"Path"},
	"Meta":      {"Path"},
	"Structure": {"Path"},
	"Transform": {"Path", "Secrets", "Text"},
	"Readme":    {"Path", "Text"},
	"Viz":       {"Path", "Text"},
}

var derivedFields = map[string][]string{
	"Dataset":   {"Qri", "Path"},
	"Commit":    {"Qri", "Path"},
	"Meta":      {"Qri", "Path"},
	"Structure": {"Checksum", "Depth", "ErrCount", "Entries", "Length", "Qri", "Path"},
	"Transform": {"Qri", "Path"},
	"Readme":    {"Qri", "Path"},
	"Viz":       {"Qri", "Path"},
	"Stats":     {"Qri", "Path"},
}

func runC30(r *Run) {
	clear := func(c *Case, v reflect.Value, names []string) {
		for _, n := range names {
			f := v.FieldByName(n)
			if isSet(f) {
				c.Ev("cleared")
			}
			f.Set(reflect.Zero(f.Type()))
		}
	}
	check := func(c *Case, t reflect.Type, doc interface{}, label string) {
		for _, how := range []string{"DropTransientValues", "DropDerivedValues"} {
			got := cloneDoc(doc)
			m := reflect.ValueOf(got).MethodByName(how)
			if !m.IsValid() {
				continue
			}
			want := cloneDoc(doc)
			wv := reflect.ValueOf(want).Elem()
			if how == "DropTransientValues" {
				clear(c, wv, transientFields[t.Name()])
			} else {
				clear(c, wv, derivedFields[t.Name()])
				if t.Name() == "Dataset" {
					for i := 0; i < t.NumField(); i++ {
						f := wv.Field(i)
						if t.Field(i).PkgPath == "" && f.Kind() == reflect.Ptr && !f.IsNil() {
							clear(c, f.Elem(), derivedFields[f.Elem().Type().Name()])
						}
					}
				}
			}
			for n := 1; n <= 2; n++ {
				m.Call(nil)
				c.Ev("drops")
				if d := diffMerged(c, t.Name(), reflect.ValueOf(want), reflect.ValueOf(got)); d != "" {
					c.Fail(fmt.Sprintf("%s:%s", how, t.Name()), "%s, call %d of %s: %s", label, n, how, d)
					break
				}
			}
		}
		c.Distinct(t.Name(), dump(doc))
		c.Sample("%s %s", t.Name(), label)
	}
	for _, t := range compTypes {
		t := t
		r.Each("single-"+t.Name(), t.NumField()*2, func(c *Case) {
			i := c.Idx / 2
			f := t.Field(i)
			if f.PkgPath != "" {
				return
			}
			p := reflect.New(t)
			p.Elem().Field(i).Set(genField(c.Rng, f.Type, f.Name, docOpts{full: 8, secrets: true}))
			check(c, t, p.Interface(), f.Name+" alone")
		})
		r.Each("full-"+t.Name(), r.Q(100, 1000), func(c *Case) {
			check(c, t, genComponent(c.Rng, t, docOpts{full: 8, secrets: true, files: true}), "everything set")
		})
		r.Each("mix-"+t.Name(), r.Q(500, 8000), func(c *Case) {
			check(c, t, genComponent(c.Rng, t, docOpts{secrets: true, files: c.Rng.Intn(2) == 0}), "mix")
		})
	}
	// dropping values of one document leaves those it was assigned from alone
	r.Each("shared", r.Q(200, 2000), func(c *Case) {
		a := genDataset(c.Rng, docOpts{full: 8, secrets: true})
		b := &dataset.Dataset{}
		b.Assign(a)
		before := dump(a)
		b.DropDerivedValues()
		b.DropTransientValues()
		c.EvN("drops", 2)
		if d := dump(a); d != before {
			c.Fail("shared", "dropping values of a merged copy changes the source: %s", firstDiff(before, d))
		}
	})
}
