package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
)

func init() {
	register(&Prop{
		ID:   "C13",
		Rule: "targets and sequences of one to four sources (nil and partial ones, components, repeated merges, each field also alone) are generated by reflection, merged by the real Assign and by a model that knows only the rule of the statement, and compared field by field; every source is snapshot before and compared after this and after further merges into the target; non-trivial: at least one source sets a field, distinct by merged result",
		Assume: []string{
			"sources do not set empty collections (whether those count as set is not part of the property)",
		},
		Need: map[string]int64{"merges": 5000, "fields_compared": 50000, "source_snapshots": 8000, "single_fields": 100, "by_key": 300},
		Run:  runC13,
	})
}

// filesOf lists a document's files through its accessors
func filesOf(p interface{}) []qfs.File {
	switch x := p.(type) {
	case *dataset.Dataset:
		return []qfs.File{x.BodyFile()}
	case *dataset.Viz:
		return []qfs.File{x.ScriptFile(), x.RenderedFile()}
	case *dataset.Readme:
		return []qfs.File{x.ScriptFile(), x.RenderedFile()}
	case *dataset.Transform:
		return []qfs.File{x.ScriptFile()}
	}
	return nil
}

func setFilesOf(p interface{}, fs []qfs.File) {
	switch x := p.(type) {
	case *dataset.Dataset:
		x.SetBodyFile(fs[0])
	case *dataset.Viz:
		x.SetScriptFile(fs[0])
		x.SetRenderedFile(fs[1])
	case *dataset.Readme:
		x.SetScriptFile(fs[0])
		x.SetRenderedFile(fs[1])
	case *dataset.Transform:
		x.SetScriptFile(fs[0])
	}
}

func isSet(v reflect.Value) bool {
	if v.Type() == timeType {
		return !v.Interface().(interface{ IsZero() bool }).IsZero()
	}
	return !v.IsZero()
}

// modelAssign merges a source into a target by the rule of the property; both
// are pointers to the same document type
func modelAssign(c *Case, dst, src reflect.Value) {
	if src.IsNil() {
		return
	}
	d, s := dst.Elem(), src.Elem()
	t := d.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" || !isSet(s.Field(i)) {
			continue
		}
		df, sf := d.Field(i), s.Field(i)
		switch {
		case f.Type.Kind() == reflect.Ptr && kindOf[f.Type.Elem().Name()] != "":
			if df.IsNil() {
				df.Set(reflect.New(f.Type.Elem()))
			}
			modelAssign(c, df, sf)
		case t.Name() == "Dataset" && f.Name == "ID" && df.String() != "":
		case t.Name() == "Transform" && (f.Name == "Config" || f.Name == "Resources" || f.Name == "Secrets"):
			m := reflect.MakeMap(f.Type)
			for _, o := range []reflect.Value{df, sf} {
				if o.IsNil() {
					continue
				}
				for _, k := range o.MapKeys() {
					m.SetMapIndex(k, o.MapIndex(k))
				}
			}
			df.Set(m)
			c.Ev("by_key")
		default:
			df.Set(cloneVal(sf))
		}
	}
	if md, ok := src.Interface().(*dataset.Meta); ok {
		for k, v := range md.Meta() {
			dst.Interface().(*dataset.Meta).SetArbitrary(k, deepCopy(v))
			c.Ev("by_key")
		}
	}
	if fs := filesOf(src.Interface()); fs != nil {
		cur := filesOf(dst.Interface())
		for i, f := range fs {
			if f != nil {
				cur[i] = f
			}
		}
		setFilesOf(dst.Interface(), cur)
	}
}

// diffMerged compares documents field by field, files by identity
func diffMerged(c *Case, path string, want, got reflect.Value) string {
	if want.IsNil() != got.IsNil() {
		return fmt.Sprintf("%s: present is %v, want %v", path, !got.IsNil(), !want.IsNil())
	}
	if want.IsNil() {
		return ""
	}
	t := want.Type().Elem()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue
		}
		w, g := want.Elem().Field(i), got.Elem().Field(i)
		if f.Type.Kind() == reflect.Ptr && kindOf[f.Type.Elem().Name()] != "" {
			if d := diffMerged(c, path+"."+f.Name, w, g); d != "" {
				return d
			}
			continue
		}
		c.Ev("fields_compared")
		if a, b := dump(w.Interface()), dump(g.Interface()); a != b {
			return fmt.Sprintf("%s.%s: got %s, want %s", path, f.Name, clipv(b), clipv(a))
		}
	}
	if md, ok := want.Interface().(*dataset.Meta); ok {
		a, b := dump(md.Meta()), dump(got.Interface().(*dataset.Meta).Meta())
		if a != b {
			return fmt.Sprintf("%s: additional metadata %s, want %s", path, clipv(b), clipv(a))
		}
	}
	wf, gf := filesOf(want.Interface()), filesOf(got.Interface())
	for i := range wf {
		if wf[i] != gf[i] {
			return fmt.Sprintf("%s: file %d is %v, want %v", path, i, gf[i], wf[i])
		}
	}
	return ""
}

// realAssign calls Assign on the target with all sources at once, or in groups
func realAssign(c *Case, dst interface{}, srcs []interface{}) {
	call := func(list []interface{}) {
		m := reflect.ValueOf(dst).MethodByName("Assign")
		var args []reflect.Value
		for _, s := range list {
			args = append(args, reflect.ValueOf(s))
		}
		m.Call(args)
	}
	if c.Rng.Intn(2) == 0 {
		call(srcs)
		return
	}
	for _, s := range srcs {
		call([]interface{}{s})
	}
}

func runC13(r *Run) {
	check := func(c *Case, t reflect.Type, target interface{}, srcs []interface{}, label string) {
		want := cloneDoc(target)
		var before []string
		for _, s := range srcs {
			before = append(before, dump(s))
			modelAssign(c, reflect.ValueOf(want), reflect.ValueOf(s))
		}
		realAssign(c, target, srcs)
		c.Ev("merges")
		if d := diffMerged(c, t.Name(), reflect.ValueOf(want), reflect.ValueOf(target)); d != "" {
			c.Fail("merge:"+t.Name()+":"+strings.SplitN(d, ":", 2)[0], "%s: %s", label, d)
			return
		}
		same := func(when string) {
			for i, s := range srcs {
				c.Ev("source_snapshots")
				if a := dump(s); a != before[i] {
					c.Fail("source-modified:"+t.Name(), "%s: source %d is modified %s: %s", label, i, when, firstDiff(before[i], a))
					return
				}
			}
		}
		same("by the merge")
		// further merges into the target, and into its components
		more := genComponent(c.Rng, t, docOpts{full: 8, secrets: true})
		mb := dump(more)
		modelAssign(c, reflect.ValueOf(want), reflect.ValueOf(more))
		realAssign(c, target, []interface{}{more})
		same("by a later merge")
		if d := diffMerged(c, t.Name(), reflect.ValueOf(want), reflect.ValueOf(target)); d != "" {
			c.Fail("merge:"+t.Name()+":"+strings.SplitN(d, ":", 2)[0], "%s, second merge: %s", label, d)
		}
		if ds, ok := target.(*dataset.Dataset); ok {
			// components belong to the target: setting their fields and merging into
			// them directly is the target's business only
			v := reflect.ValueOf(ds).Elem()
			for i := 0; i < v.NumField(); i++ {
				f := v.Type().Field(i)
				if f.PkgPath != "" || f.Type.Kind() != reflect.Ptr || v.Field(i).IsNil() || kindOf[f.Type.Elem().Name()] == "" {
					continue
				}
				other := genComponent(c.Rng, f.Type.Elem(), docOpts{full: 8, secrets: true})
				realAssign(c, v.Field(i).Interface(), []interface{}{other})
				v.Field(i).Elem().FieldByName("Path").SetString("/changed")
			}
			if ds.Meta != nil {
				ds.Meta.SetArbitrary("zz-new", 1)
			}
			same("by changing the target's components")
			if a := dump(more); a != mb {
				c.Fail("source-modified:"+t.Name(), "%s: the second source is modified by changing the target's components: %s", label, firstDiff(mb, a))
			}
		}
		c.Distinct(t.Name(), dump(want))
		c.Sample("%s %s", label, t.Name())
	}
	for _, t := range compTypes {
		t := t
		// each field alone: onto an unset, a set and an other-wise full target
		r.Each("single-"+t.Name(), t.NumField()*4, func(c *Case) {
			i := c.Idx / 4
			f := t.Field(i)
			if f.PkgPath != "" {
				return
			}
			src := reflect.New(t)
			src.Elem().Field(i).Set(genField(c.Rng, f.Type, f.Name, docOpts{full: 8, secrets: true}))
			target := reflect.New(t).Interface()
			if c.Idx%2 == 1 {
				target = genComponent(c.Rng, t, docOpts{full: 8, secrets: true, files: true})
			}
			c.Ev("single_fields")
			check(c, t, target, []interface{}{src.Interface()}, f.Name+" alone")
		})
		r.Each("mix-"+t.Name(), r.Q(700, 12000), func(c *Case) {
			o := func() docOpts {
				return docOpts{secrets: true, files: c.Rng.Intn(2) == 0, tok: sharedToks(c)}
			}
			target := genComponent(c.Rng, t, o())
			if c.Rng.Intn(3) == 0 {
				target = reflect.New(t).Interface()
			}
			var srcs []interface{}
			for i := c.Rng.Intn(4); i >= 0; i-- {
				if c.Rng.Intn(6) == 0 {
					srcs = append(srcs, reflect.Zero(reflect.PtrTo(t)).Interface())
					continue
				}
				srcs = append(srcs, genComponent(c.Rng, t, o()))
			}
			if len(srcs) > 0 && c.Rng.Intn(5) == 0 {
				srcs = append(srcs, srcs[0]) // the same source again
			}
			check(c, t, target, srcs, "mix")
		})
		// onto itself
		r.Each("self-"+t.Name(), r.Q(60, 600), func(c *Case) {
			doc := genComponent(c.Rng, t, docOpts{secrets: true, files: true})
			want := cloneDoc(doc)
			realAssign(c, doc, []interface{}{doc})
			c.Ev("merges")
			if d := diffMerged(c, t.Name(), reflect.ValueOf(want), reflect.ValueOf(doc)); d != "" {
				c.Fail("self:"+t.Name(), "assigning a document to itself: %s", d)
			}
		})
	}
}

// sharedToks makes strings from a small pool, so that keys of maps collide
func sharedToks(c *Case) func() string {
	return func() string { return fmt.Sprintf("t%d", c.Rng.Intn(12)) }
}
