package main

import (
	"fmt"
	"reflect"

	"github.com/qri-io/dataset"
)

func init() {
	register(&Prop{
		ID:   "C15",
		Rule: "reflection enumerates every exported field of every document type alone and in random combinations and compares IsEmpty, ShallowCompare and PathMap with a model that looks at all of them; non-trivial: all, distinct by document",
		Assume: []string{
			"a field is set when it is not its zero value; empty non-nil collections are not generated; files are not fields",
		},
		Need: map[string]int64{"empty_checked": 5000, "compares": 5000, "unequal_pairs": 2000, "path_maps": 3000, "single_fields": 80, "nudges": 500},
		Run:  runC15,
	})
}

func modelEmpty(v reflect.Value) bool {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" || f.Name == "Path" || f.Name == "Qri" {
			continue
		}
		if isSet(v.Field(i)) {
			return false
		}
	}
	if md, ok := v.Addr().Interface().(*dataset.Meta); ok && len(md.Meta()) > 0 {
		return false
	}
	return true
}

func runC15(r *Run) {
	empty := func(c *Case, doc interface{}, label string) {
		before := dump(doc)
		got := doc.(interface{ IsEmpty() bool }).IsEmpty()
		want := modelEmpty(reflect.ValueOf(doc).Elem())
		c.Ev("empty_checked")
		if got != want {
			c.Fail("empty:"+reflect.TypeOf(doc).Elem().Name()+":"+label, "IsEmpty is %v with %s: %s", got, label, clipv(before))
		}
		if dump(doc) != before {
			c.Fail("modified", "IsEmpty changes the document")
		}
		c.Distinct(before)
	}
	for _, t := range compTypes {
		t := t
		r.Each("single-"+t.Name(), t.NumField()*4, func(c *Case) {
			i := c.Idx / 4
			f := t.Field(i)
			if f.PkgPath != "" {
				return
			}
			p := reflect.New(t)
			p.Elem().Field(i).Set(genField(c.Rng, f.Type, f.Name, docOpts{secrets: true, full: 8}))
			if c.Idx%2 == 1 {
				p.Elem().FieldByName("Path").SetString("/p")
				p.Elem().FieldByName("Qri").SetString("zz:0")
			}
			if c.Idx%4 == 2 {
				setFiles(c.Rng, p.Interface())
			}
			c.Ev("single_fields")
			empty(c, p.Interface(), f.Name)
		})
		r.Each("mix-"+t.Name(), r.Q(800, 8000), func(c *Case) {
			doc := genComponent(c.Rng, t, docOpts{full: []int{0, 1, 1}[c.Rng.Intn(3)], secrets: true})
			empty(c, doc, "a combination of fields")
			if md, ok := doc.(*dataset.Meta); ok && c.Rng.Intn(2) == 0 {
				n := &dataset.Meta{Path: md.Path}
				n.SetArbitrary(arbKey(c.Rng, docOpts{}), genDocValue(c.Rng, docOpts{}, 1))
				empty(c, n, "an additional key")
			}
		})
	}
	compare := func(a, b interface{}) bool {
		return reflect.ValueOf(a).MethodByName("ShallowCompare").Call([]reflect.Value{reflect.ValueOf(b)})[0].Bool()
	}
	for _, t := range []reflect.Type{reflect.TypeOf(dataset.Transform{}), reflect.TypeOf(dataset.Readme{}), reflect.TypeOf(dataset.Viz{})} {
		t := t
		r.Each("compare-"+t.Name(), r.Q(2500, 25000), func(c *Case) {
			a := genComponent(c.Rng, t, docOpts{secrets: true, files: c.Rng.Intn(2) == 0})
			b := cloneDoc(a)
			bv := reflect.ValueOf(b).Elem()
			both := func(want bool, what string) {
				ab, bb := dump(a), dump(b)
				c.EvN("compares", 2)
				if !want {
					c.Ev("unequal_pairs")
				}
				if g := compare(a, b); g != want {
					c.Fail("compare:"+t.Name()+":"+what, "ShallowCompare is %v for documents that differ in %s", g, what)
				}
				if g := compare(b, a); g != want {
					c.Fail("compare:"+t.Name()+":"+what, "ShallowCompare is %v the other way round for documents that differ in %s", g, what)
				}
				if dump(a) != ab || dump(b) != bb {
					c.Fail("modified", "ShallowCompare changes a document")
				}
			}
			both(true, "nothing")
			bv.FieldByName("Path").SetString(docStr(c.Rng, docOpts{}))
			both(true, "Path")
			setFiles(c.Rng, b)
			both(true, "files")
			i := c.Idx % t.NumField()
			f := t.Field(i)
			if f.PkgPath != "" || f.Name == "Path" {
				return
			}
			old := dump(bv.Field(i).Interface())
			if c.Rng.Intn(3) == 0 {
				p := nudgeDoc(c.Rng, b, "Path")
				if p == "" || dump(b) == dump(a) {
					return
				}
				c.Ev("nudges")
				both(false, p)
				return
			} else if isSet(bv.Field(i)) && c.Rng.Intn(3) == 0 {
				bv.Field(i).Set(reflect.Zero(f.Type))
			} else {
				bv.Field(i).Set(genField(c.Rng, f.Type, f.Name, docOpts{full: 8, secrets: true}))
			}
			if dump(bv.Field(i).Interface()) == old {
				return
			}
			both(false, f.Name)
			c.Distinct(t.Name(), f.Name, dump(b))
		})
		r.Each("compare-nil-"+t.Name(), 1, func(c *Case) {
			null := reflect.Zero(reflect.PtrTo(t)).Interface()
			some := reflect.New(t).Interface()
			c.EvN("compares", 3)
			if !compare(null, null) || compare(null, some) || compare(some, null) {
				c.Fail("compare-nil:"+t.Name(), "%v %v %v", compare(null, null), compare(null, some), compare(some, null))
			}
		})
	}
	names := []string{"body", "commit", "meta", "dataset", "readme", "structure", "transform", "viz", "stats"}
	r.Each("pathmap", r.Q(4000, 40000), func(c *Case) {
		ds := genDataset(c.Rng, docOpts{secrets: true})
		want := map[string]string{}
		add := func(n string, present bool, path func() string) {
			if present {
				want[n] = path()
			}
		}
		add("body", ds.BodyPath != "", func() string { return ds.BodyPath })
		add("dataset", ds.Path != "", func() string { return ds.Path })
		add("commit", ds.Commit != nil, func() string { return ds.Commit.Path })
		add("meta", ds.Meta != nil, func() string { return ds.Meta.Path })
		add("readme", ds.Readme != nil, func() string { return ds.Readme.Path })
		add("structure", ds.Structure != nil, func() string { return ds.Structure.Path })
		add("transform", ds.Transform != nil, func() string { return ds.Transform.Path })
		add("viz", ds.Viz != nil, func() string { return ds.Viz.Path })
		add("stats", ds.Stats != nil, func() string { return ds.Stats.Path })
		var ign []string
		for _, n := range names {
			if c.Rng.Intn(4) == 0 {
				ign = append(ign, n)
			}
		}
		c.Rng.Shuffle(len(ign), func(i, j int) { ign[i], ign[j] = ign[j], ign[i] })
		if c.Rng.Intn(4) == 0 {
			ign = append(ign, "nothing", "Meta", "")
		}
		if c.Rng.Intn(3) == 0 {
			ign = nil
		}
		for _, n := range ign {
			delete(want, n)
		}
		before := dump(ds)
		got := ds.PathMap(ign...)
		c.Ev("path_maps")
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			c.Fail("pathmap", "PathMap(%q) is %q, want %q", ign, got, want)
		}
		if got != nil {
			got["meta"] = "changed"
		}
		if dump(ds) != before {
			c.Fail("modified", "PathMap changes the dataset")
		}
		c.Distinct(fmt.Sprint(ign), before)
	})
	r.Each("pathmap-nil", 1, func(c *Case) {
		var ds *dataset.Dataset
		if m := ds.PathMap("meta"); len(m) != 0 {
			c.Fail("pathmap-nil", "%v", m)
		}
		c.Ev("path_maps")
	})
}
