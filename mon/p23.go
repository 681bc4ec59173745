package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"regexp"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsdiff"
	jdiff "github.com/yudai/gojsondiff"
)

// changeCount is the number of changes a summary names
var changeCount = regexp.MustCompile(`\b[0-9]+ \w*`)

func init() {
	register(&Prop{
		ID:   "C23",
		Rule: "a case is a pair of generated datasets or components: equal ones built separately, ones differing in exactly one exported field, and ones differing in a random subset, each side possibly absent, with equal, different or no paths; it counts when the reported change per component was compared with the difference of the independently decoded encodings",
		Assume: []string{
			"the four components the package diffs are structure, meta, transform and viz; body data are only compared when passed in, which the package does not export (documented TODO)",
			"numbers are compared as float64, as JSON decoding does",
		},
		Need: map[string]int64{"pairs": 3000, "changed": 3000, "unchanged": 1500, "single_fields": 100, "replayed": 1000, "summaries": 5000, "shared_paths": 200, "nudges": 500},
		Run:  runC23,
	})
}

var diffKinds = []string{"structure", "transform", "meta", "viz"}

func diffOne(kind string, a, b interface{}) (*dsdiff.SubDiff, error) {
	switch kind {
	case "structure":
		x, _ := a.(*dataset.Structure)
		y, _ := b.(*dataset.Structure)
		return dsdiff.DiffStructure(x, y)
	case "transform":
		x, _ := a.(*dataset.Transform)
		y, _ := b.(*dataset.Transform)
		return dsdiff.DiffTransform(x, y)
	case "meta":
		x, _ := a.(*dataset.Meta)
		y, _ := b.(*dataset.Meta)
		return dsdiff.DiffMeta(x, y)
	default:
		x, _ := a.(*dataset.Viz)
		y, _ := b.(*dataset.Viz)
		return dsdiff.DiffViz(x, y)
	}
}

func compOf(ds *dataset.Dataset, kind string) interface{} {
	switch kind {
	case "structure":
		if ds.Structure != nil {
			return ds.Structure
		}
	case "transform":
		if ds.Transform != nil {
			return ds.Transform
		}
	case "meta":
		if ds.Meta != nil {
			return ds.Meta
		}
	case "viz":
		if ds.Viz != nil {
			return ds.Viz
		}
	}
	return nil
}

var typeByKind = map[string]reflect.Type{
	"structure": reflect.TypeOf(dataset.Structure{}), "transform": reflect.TypeOf(dataset.Transform{}), "meta": reflect.TypeOf(dataset.Meta{}), "viz": reflect.TypeOf(dataset.Viz{}),
}

// plainForm is the generic JSON form of a component (nil: that of an empty one)
func plainForm(kind string, v interface{}) (map[string]interface{}, string, string) {
	if v == nil {
		v = reflect.New(typeByKind[kind]).Interface()
	}
	b, err := v.(interface{ MarshalJSONObject() ([]byte, error) }).MarshalJSONObject()
	if err != nil {
		panic("harness: " + err.Error())
	}
	m := map[string]interface{}{}
	if err := json.Unmarshal(b, &m); err != nil {
		panic("harness: " + err.Error())
	}
	rv := reflect.ValueOf(v).Elem()
	p := rv.FieldByName("Path").String()
	s := ""
	if f := rv.FieldByName("ScriptPath"); f.IsValid() {
		s = f.String()
	}
	return m, p, s
}

// expectChange says whether a diff has to report a change, and 0 when both
// answers would do
func expectChange(kind string, a, b interface{}) (yes, no bool, ma, mb map[string]interface{}) {
	ma, pa, sa := plainForm(kind, a)
	mb, pb, sb := plainForm(kind, b)
	if kind == "transform" && sa != "" && sb != "" {
		mb["scriptPath"] = ma["scriptPath"]
	}
	if reflect.DeepEqual(ma, mb) {
		return false, true, ma, mb
	}
	if pa == pb && pa != "" && kind != "structure" {
		if len(pa) > 1 {
			return false, true, ma, mb
		}
		return false, false, ma, mb
	}
	if kind == "meta" {
		empty := func(m map[string]interface{}) bool {
			for k := range m {
				if k != "path" && k != "qri" {
					return false
				}
			}
			return true
		}
		if empty(ma) && empty(mb) {
			return false, false, ma, mb
		}
	}
	return true, false, ma, mb
}

// mutateComp changes one exported field of a component
func mutateComp(r *rand.Rand, v interface{}, field int, o docOpts) (string, bool) {
	rv := reflect.ValueOf(v).Elem()
	t := rv.Type()
	f := t.Field(field)
	if f.PkgPath != "" || f.Name == "Secrets" || f.Tag.Get("json") == "-" {
		return f.Name, false
	}
	old := dump(rv.Field(field).Interface())
	for i := 0; i < 20; i++ {
		if i%4 == 3 {
			rv.Field(field).Set(reflect.Zero(f.Type))
		} else {
			rv.Field(field).Set(genField(r, f.Type, f.Name, o))
		}
		if dump(rv.Field(field).Interface()) != old {
			return f.Name, true
		}
	}
	return f.Name, false
}

func runC23(r *Run) {
	hows := []string{"simple", "listKeys", "plusMinus", "plusMinusColor", "delta"}
	judge := func(c *Case, kind string, a, b interface{}) {
		da, db := dump(a), dump(b)
		d, err := diffOne(kind, a, b)
		if x := dump(a); x != da {
			c.Fail("changed-a:"+kind, "diffing modified the first side: %s", firstDiff(da, x))
		}
		if x := dump(b); x != db {
			c.Fail("changed-b:"+kind, "diffing modified the second side: %s", firstDiff(db, x))
		}
		if err != nil {
			c.Fail("error:"+kind, "diffing %s: %v\n%s\n%s", kind, err, da, db)
			return
		}
		c.Ev("pairs")
		yes, no, ma, mb := expectChange(kind, a, b)
		got := d.Modified()
		if yes {
			c.Ev("changed")
			if !got {
				c.Fail("missed:"+kind, "no change reported between\n%s and\n%s", mustJSON(ma), mustJSON(mb))
			}
		}
		if no {
			c.Ev("unchanged")
			if got {
				c.Fail("invented:"+kind, "a change is reported between\n%s and\n%s: %s", mustJSON(ma), mustJSON(mb), mustJSON(d.Deltas()))
			}
		}
		if got != (len(d.Deltas()) > 0) {
			c.Fail("deltas:"+kind, "modified is %v with %d deltas", got, len(d.Deltas()))
		}
		c.Distinct(kind, da, db)
		// replaying the deltas
		if got && replayable(ma, mb) {
			left := map[string]interface{}{}
			x, _ := json.Marshal(ma)
			json.Unmarshal(x, &left)
			jdiff.New().ApplyPatch(left, d)
			if !reflect.DeepEqual(left, mb) {
				c.Fail("replay:"+kind, "the deltas applied to\n%s give\n%s instead of\n%s", mustJSON(ma), mustJSON(left), mustJSON(mb))
			}
			c.Ev("replayed")
		}
		for _, how := range hows {
			s, err := d.SummarizeToString(how)
			c.Ev("summaries")
			if err != nil {
				c.Fail("summary-error:"+how, "%s: %v", kind, err)
				continue
			}
			if (s != "") != got {
				c.Fail("summary-empty:"+how, "modified %s is %v, its %s summary %q", kind, got, how, s)
			}
			if got && (how == "simple" || how == "listKeys") {
				n := len(d.Deltas())
				want := fmt.Sprintf("%d changes", n)
				if n == 1 {
					want = "1 change"
				}
				m := changeCount.FindString(s)
				if !strings.HasPrefix(s, strings.Title(kind)) || m != want {
					c.Fail("summary-text:"+how, "%s with %d deltas: %q", kind, len(d.Deltas()), s)
				}
			}
		}
		if s, err := d.SummarizeToString("no such form"); s != "" || err != nil {
			c.Fail("summary-unknown", "an unknown form of summary: %q %v", s, err)
		}
		if _, err := json.Marshal(d); err != nil {
			c.Fail("encode:"+kind, "encoding the diff: %v", err)
		}
	}

	fields := []struct {
		kind string
		i    int
	}{}
	for _, k := range diffKinds {
		for i := 0; i < typeByKind[k].NumField(); i++ {
			fields = append(fields, struct {
				kind string
				i    int
			}{k, i})
		}
	}
	r.Each("single", len(fields)*r.Q(40, 500), func(c *Case) {
		f := fields[c.Idx%len(fields)]
		o := docOpts{secrets: true, files: true}
		a := genComponent(c.Rng, typeByKind[f.kind], o)
		if c.Rng.Intn(3) == 0 {
			a = reflect.New(typeByKind[f.kind]).Interface()
		}
		b := cloneDoc(a)
		if _, ok := mutateComp(c.Rng, b, f.i, o); !ok {
			return
		}
		c.Ev("single_fields")
		judge(c, f.kind, a, b)
		judge(c, f.kind, b, a)
	})
	r.Each("equal", r.Q(1500, 20000), func(c *Case) {
		kind := diffKinds[c.Idx%4]
		o := docOpts{secrets: true, files: true}
		a := genComponent(c.Rng, typeByKind[kind], o)
		b := cloneDoc(a)
		if kind == "transform" && c.Rng.Intn(2) == 0 {
			b.(*dataset.Transform).Secrets = map[string]string{"k": "other"}
		}
		judge(c, kind, a, b)
		judge(c, kind, a, a)
		e := reflect.New(typeByKind[kind]).Interface()
		switch c.Rng.Intn(3) {
		case 0:
			judge(c, kind, nil, e)
			judge(c, kind, e, nil)
			judge(c, kind, nil, nil)
		case 1:
			judge(c, kind, nil, a)
		default:
			judge(c, kind, a, nil)
		}
	})
	gen := func(c *Case, kind string) (a, b interface{}) {
		o := docOpts{secrets: true, files: true}
		a = genComponent(c.Rng, typeByKind[kind], o)
		switch c.Rng.Intn(5) {
		case 0:
			b = genComponent(c.Rng, typeByKind[kind], o)
		case 1:
			b = cloneDoc(a)
		case 2:
			b = cloneDoc(a)
			if nudgeDoc(c.Rng, b, "Secrets") != "" {
				c.Ev("nudges")
			}
		default:
			b = cloneDoc(a)
			for n := 1 + c.Rng.Intn(3); n > 0; n-- {
				mutateComp(c.Rng, b, c.Rng.Intn(typeByKind[kind].NumField()), o)
			}
		}
		pa, pb := reflect.ValueOf(a).Elem().FieldByName("Path"), reflect.ValueOf(b).Elem().FieldByName("Path")
		switch c.Rng.Intn(5) {
		case 0:
			pa.SetString("/ipfs/QmSame")
			pb.SetString("/ipfs/QmSame")
			c.Ev("shared_paths")
		case 1:
			pa.SetString("/ipfs/QmA")
			pb.SetString("/ipfs/QmB")
		case 2:
			pa.SetString("")
			pb.SetString("")
		}
		return
	}
	r.Each("random", r.Q(4000, 60000), func(c *Case) {
		kind := diffKinds[c.Idx%4]
		a, b := gen(c, kind)
		judge(c, kind, a, b)
	})

	r.Each("datasets", r.Q(2500, 30000), func(c *Case) {
		a, b := &dataset.Dataset{BodyPath: "/b/1"}, &dataset.Dataset{BodyPath: "/b/1"}
		if c.Rng.Intn(3) == 0 {
			b.BodyPath = "/b/2"
		}
		for _, kind := range diffKinds {
			x, y := gen(c, kind)
			set := func(ds *dataset.Dataset, v interface{}) {
				switch t := v.(type) {
				case *dataset.Structure:
					ds.Structure = t
				case *dataset.Transform:
					ds.Transform = t
				case *dataset.Meta:
					ds.Meta = t
				case *dataset.Viz:
					ds.Viz = t
				}
			}
			if c.Rng.Intn(3) == 0 {
				y = cloneDoc(x)
			}
			if c.Rng.Intn(5) > 0 {
				set(a, x)
			}
			if c.Rng.Intn(5) > 0 {
				set(b, y)
			}
		}
		da, db := dump(a), dump(b)
		m, err := dsdiff.DiffDatasets(a, b, nil)
		if err != nil {
			c.Fail("datasets-error", "%v", err)
			return
		}
		if dump(a) != da || dump(b) != db {
			c.Fail("datasets-changed", "diffing changed a dataset: %s %s", firstDiff(da, dump(a)), firstDiff(db, dump(b)))
		}
		c.Ev("pairs")
		c.Distinct(da, db)
		var changed []string
		sure := true
		for _, kind := range diffKinds { // in order of priority
			x, y := compOf(a, kind), compOf(b, kind)
			yes, no, _, _ := expectChange(kind, x, y)
			d := m[kind]
			got := d != nil && d.Modified()
			if x == nil && y == nil {
				if d != nil && d.Modified() {
					c.Fail("datasets-invented", "a change of %s is reported, which neither has", kind)
				}
				continue
			}
			switch {
			case yes:
				c.Ev("changed")
				if !got {
					c.Fail("datasets-missed:"+kind, "the change of %s is not reported", kind)
				}
				changed = append(changed, kind)
			case no:
				c.Ev("unchanged")
				if got {
					c.Fail("datasets-invented:"+kind, "a change of %s is reported between %s and %s", kind, mustJSON(x), mustJSON(y))
				}
			default:
				sure = sure && !got
				if got {
					changed = append(changed, kind)
				}
			}
		}
		for k, d := range m {
			if d == nil || d.Diff == nil {
				c.Fail("datasets-extra", "a diff of %q that holds none", k)
			}
			if compOf(a, k) == nil && compOf(b, k) == nil && k != "data" {
				c.Fail("datasets-extra", "a diff of %q, which neither has", k)
			}
		}
		for _, how := range hows {
			s, err := dsdiff.MapDiffsToString(m, how)
			c.Ev("summaries")
			if err != nil {
				c.Fail("map-summary-error:"+how, "%v", err)
				continue
			}
			if (s != "") != (len(changed) > 0) {
				c.Fail("map-summary-empty:"+how, "changed are %v, the summary is %q", changed, s)
			}
			if len(changed) > 0 && (how == "simple" || how == "listKeys") && !strings.HasPrefix(s, strings.Title(changed[0])) {
				c.Fail("map-summary:"+how, "changed are %v, the summary is %q", changed, s)
			}
			if len(changed) > 0 {
				if d, err := m[changed[0]].SummarizeToString(how); err != nil || d != s {
					c.Fail("map-summary:"+how, "the summary of %s is %q, of the map %q", changed[0], d, s)
				}
			}
		}
		if d, err := dsdiff.DiffData(a, b); err != nil || d.Modified() && a.BodyPath == b.BodyPath {
			c.Fail("data", "bodies with one path are reported to differ: %v", err)
		}
	})
	r.Serial("json", r.Q(300, 3000), func(c *Case) {
		// plain JSON documents
		a := genDocMap(c.Rng, docOpts{}, 3)
		b := cloneJSON(a).(map[string]interface{})
		same := c.Rng.Intn(2) == 0
		if !same {
			b["changed"] = c.Rng.Intn(100)
		}
		x, _ := json.Marshal(a)
		y, _ := json.MarshalIndent(b, " ", "  ")
		x0, y0 := string(x), string(y)
		d, err := dsdiff.DiffJSON(x, y, "data")
		if err != nil {
			c.Fail("json-error", "%v", err)
			return
		}
		if string(x) != x0 || string(y) != y0 {
			c.Fail("json-changed", "diffing changed its input")
		}
		if d.Modified() == same {
			c.Fail("json", "modified is %v between %s and %s", d.Modified(), x, y)
		}
		if _, err := dsdiff.DiffJSON(x, []byte("{"), "data"); err == nil {
			c.Fail("json-accepted", "a malformed document is diffed without an error")
		}
		if _, err := dsdiff.DiffJSON([]byte("{\"a\":"), y, "data"); err == nil {
			c.Fail("json-accepted", "a malformed document is diffed without an error")
		}
		m := map[string]*dsdiff.SubDiff{"data": d, "viz": nil}
		s, err := dsdiff.MapDiffsToString(m, "simple")
		if err != nil || (s == "") != same {
			c.Fail("map-summary:simple", "%q %v", s, err)
		}
	})
}

func cloneJSON(v interface{}) interface{} {
	b, _ := json.Marshal(v)
	var out interface{}
	json.Unmarshal(b, &out)
	return out
}

// replayable leaves out differences within lists, which the third party
// patcher cannot replay
func replayable(a, b map[string]interface{}) bool {
	for k, x := range a {
		y, ok := b[k]
		if !ok || reflect.DeepEqual(x, y) {
			continue
		}
		xm, ok1 := x.(map[string]interface{})
		ym, ok2 := y.(map[string]interface{})
		if ok1 && ok2 {
			if !replayable(xm, ym) {
				return false
			}
			continue
		}
		_, l1 := x.([]interface{})
		_, l2 := y.([]interface{})
		if l1 && l2 {
			return false
		}
	}
	return true
}
