package main

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
)

// docs.go generates dataset documents by reflection over the exported fields
// of the document types, and snapshots and compares them the same way, so that
// every field takes part without being listed.

var compTypes = []reflect.Type{
	reflect.TypeOf(dataset.Commit{}), reflect.TypeOf(dataset.Meta{}), reflect.TypeOf(dataset.Readme{}), reflect.TypeOf(dataset.Structure{}),
	reflect.TypeOf(dataset.Stats{}), reflect.TypeOf(dataset.Transform{}), reflect.TypeOf(dataset.Viz{}), reflect.TypeOf(dataset.Dataset{}),
}

var kindOf = map[string]string{"Commit": "cm:0", "Meta": "md:0", "Readme": "rm:0", "Structure": "st:0", "Stats": "sa:0", "Transform": "tf:0", "Viz": "vz:0", "Dataset": "ds:0"}

var timeType = reflect.TypeOf(time.Time{})
var fileType = reflect.TypeOf((*qfs.File)(nil)).Elem()

type docOpts struct {
	full    int  // chance in 8 that a field is set
	empties bool // sometimes set empty, non-nil collections
	secrets bool
	tok     func() string // when set, string leaves come from here
	files   bool
	depth   int
}

func docStr(r *rand.Rand, o docOpts) string {
	if o.tok != nil {
		return o.tok()
	}
	for {
		s := genString(r, vopts{})
		if s != "" && len(s) < 200 {
			return s
		}
	}
}

// someMore is the number of elements beyond the first: mostly few, at times
// many
func someMore(r *rand.Rand) int {
	if r.Intn(30) == 0 {
		return r.Intn(40)
	}
	return r.Intn(3)
}

// knownWords are names with a meaning somewhere in a document
var knownWords = []string{"secrets", "secret", "Secrets", "token", "password", "apiKey", "key", "config", "resources", "script", "scriptBytes", "steps", "syntax", "transform", "structure", "schema", "formatConfig", "meta", "commit", "body", "bodyPath", "path", "qri", "name", "id", "peername", "previousPath", "numVersions", "checksum", "errCount", "type", "items", "properties", "stats", "title", "message", "timestamp", "true", "null", "0", "1"}

func docVal(r *rand.Rand, o docOpts) interface{} {
	if o.tok == nil && r.Intn(12) == 0 {
		return []interface{}{"", float64(0), false, " ", "null", "\n"}[r.Intn(6)]
	}
	return genDocValue(r, o, 2)
}

var someFormats = []string{"html", "md", "csv", "json", "ndjson", "cbor", "xlsx", "HTML", "txt", "markdown", "qri"}
var somePaths = []string{"/ipfs/QmZ", "/ipfs/QmZ/body.csv", "/a#b", "/a?b=c", "/a%20b", "/a%2Fb", "/a/", "a/../b", "./x", "~/x", "file:///x", "http://x/y?z#w", "/mem/Qm", "/map/Qm", "/", ".", "..", "C:\\x", "\\", "//", "#", "?"}

// usualWords are the values people and programs put in the field of a name:
// those which code might take for a default, or for something it knows
var usualWords = map[string][]string{
	"Format":             someFormats,
	"Encoding":           {"utf-8", "UTF-8", "utf8", "ascii", "latin-1"},
	"Compression":        {"gzip", "zst", "none", "GZIP"},
	"Syntax":             {"starlark", "qri", "sql", "skylark", "none"},
	"Version":            {"0", "1", "0.0.0", "v1", "1.0.0", "latest"},
	"Language":           {"en", "en-US", "english", "fr", "EN"},
	"Path":               somePaths,
	"ScriptPath":         somePaths,
	"BodyPath":           somePaths,
	"RenderedPath":       somePaths,
	"PreviousPath":       somePaths,
	"Text":               {"\n", "text\n", "text\n\n", "a\r\nb\r\n", "\ufeffa", "#!/bin/sh\n", "---\ntitle: x\n---\n", " x ", "{}"},
	"Checksum":           {"QmXgkqKkmUqZCFyjsxXUNJkkBPYsAUuMxqFhqS6jvRtaE7", "0", "sha256:00"},
	"Title":              {"created dataset", "untitled", "Untitled", "a  b", "a.", " a", "a\n", "&amp;", "<b>"},
	"Message":            {"created dataset", "a\nb", "a\n", " ", "."},
	"Name":               {"me", "body", "untitled", "a_b", "A", "a-b", "1a"},
	"Peername":           {"me", "a", "A", "anonymous"},
	"ProfileID":          {"me", "QmProfile", "0"},
	"ID":                 {"0", "id", "QmID", "-"},
	"Identifier":         {"0", "id", "doi:10.1/x", "-"},
	"Signature":          {"", "none", "AAAA=="},
	"RunID":              {"0", "run", "-"},
	"DownloadURL":        {"http://x/y?z#w", "http://x/", "ftp://x", "-"},
	"HomeURL":            {"http://x/y?z#w", "http://x/", "ftp://x", "-"},
	"URL":                {"http://x/y?z#w", "http://x/", "ftp://x", "-"},
	"ReadmeURL":          {"http://x/y?z#w", "http://x/", "ftp://x", "-"},
	"AccessURL":          {"http://x/y?z#w", "http://x/", "ftp://x", "-"},
	"Type":               {"none", "string", "MIT", "author", "unknown"},
	"Keywords":           {"a", "A", " a", "a,b", "#a"},
	"Theme":              {"a", "none", "a,b"},
	"AccrualPeriodicity": {"R/P1Y", "R/P1W", "R/PT1S", "never"},
	"Category":           {"run", "save", "none"},
}

func genDocValue(r *rand.Rand, o docOpts, depth int) interface{} {
	k := r.Intn(8)
	if depth == 0 && k > 5 {
		k = r.Intn(6)
	}
	switch k {
	case 0:
		return r.Intn(2) == 0
	case 1:
		return float64(genInt(r, true))
	case 2:
		return genFloat(r)
	case 6:
		a := arr{}
		for i := r.Intn(3); i >= 0; i-- {
			a = append(a, genDocValue(r, o, depth-1))
		}
		return a
	case 7:
		return genDocMap(r, o, depth-1)
	default:
		return docStr(r, o)
	}
}

func genDocMap(r *rand.Rand, o docOpts, depth int) obj {
	m := obj{}
	for i := r.Intn(4); i >= 0; i-- {
		k := docStr(r, o)
		if r.Intn(2) == 0 {
			k = []string{"a", "B", "zz", "title", "key", "0", "path", "qri"}[r.Intn(8)]
		} else if o.tok == nil && r.Intn(4) == 0 {
			k = knownWords[r.Intn(len(knownWords))]
		}
		m[k] = genDocValue(r, o, depth-1)
		if r.Intn(12) == 0 {
			m[k] = nil
		}
	}
	return m
}

// specialTimes are those code might take for no time, or for another
var specialTimes = []time.Time{time.Unix(0, 0), time.Unix(0, 1), time.Unix(-1, 0), time.Unix(-1<<31, 0), time.Unix(1<<31, 0), time.Unix(1<<32, 0),
	time.Date(1, 1, 1, 0, 0, 1, 0, time.UTC), time.Date(1, 1, 2, 0, 0, 0, 0, time.UTC), time.Date(1582, 10, 4, 1, 2, 3, 0, time.UTC), time.Date(1899, 12, 31, 23, 59, 59, 0, time.UTC),
	time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2001, 1, 1, 1, 1, 1, 0, time.UTC), time.Date(2016, 2, 29, 12, 0, 0, 0, time.UTC), time.Date(9999, 12, 30, 0, 0, 0, 0, time.UTC)}

func genTime(r *rand.Rand) time.Time {
	t := time.Unix(int64(r.Intn(2000000000)), 0)
	switch r.Intn(4) {
	case 0:
		t = t.Add(time.Duration(r.Intn(1e9)))
	case 1:
		t = time.Unix(int64(r.Intn(1<<31))*int64(1+r.Intn(60)), int64(r.Intn(1000))*1e6)
	case 2:
		if r.Intn(3) == 0 {
			t = specialTimes[r.Intn(len(specialTimes))]
		}
	}
	switch r.Intn(3) {
	case 0:
		return t.UTC()
	case 1:
		return t.In(time.FixedZone("", (r.Intn(26)-12)*3600))
	}
	return t.In(time.FixedZone("X", (r.Intn(48)-24)*1800))
}

// genField makes a set value for a type; it panics on types it does not know,
// so a new kind of field is noticed
func genField(r *rand.Rand, t reflect.Type, name string, o docOpts) reflect.Value {
	if t == timeType {
		return reflect.ValueOf(genTime(r))
	}
	empty := o.empties && r.Intn(6) == 0
	switch t.Kind() {
	case reflect.String:
		if name == "Qri" {
			return reflect.ValueOf([]string{"xx:1", "qq:0", "zz:12"}[r.Intn(3)])
		}
		if ws := usualWords[name]; ws != nil && o.tok == nil && r.Intn(4) == 0 {
			if w := ws[r.Intn(len(ws))]; w != "" {
				return reflect.ValueOf(w)
			}
		}
		return reflect.ValueOf(docStr(r, o))
	case reflect.Bool:
		return reflect.ValueOf(true)
	case reflect.Int:
		n := 1 + r.Intn(1<<uint(1+r.Intn(40)))
		if r.Intn(4) == 0 {
			n = -n
		}
		return reflect.ValueOf(n)
	case reflect.Interface:
		if t.NumMethod() != 0 {
			break
		}
		v := docVal(r, o)
		return reflect.ValueOf(v)
	case reflect.Slice:
		s := reflect.MakeSlice(t, 0, 4)
		if empty {
			return s
		}
		if t.Elem().Kind() == reflect.Uint8 {
			return reflect.ValueOf(randBytes(r, 1+r.Intn(40)))
		}
		for i := someMore(r); i >= 0; i-- {
			s = reflect.Append(s, genField(r, t.Elem(), name, o))
		}
		return s
	case reflect.Map:
		m := reflect.MakeMap(t)
		if empty {
			return m
		}
		for i := someMore(r); i >= 0; i-- {
			k := docStr(r, o)
			if r.Intn(3) == 0 {
				k = knownWords[r.Intn(len(knownWords))]
			}
			if t.Elem().Kind() == reflect.Interface && r.Intn(10) == 0 {
				m.SetMapIndex(reflect.ValueOf(k), reflect.Zero(t.Elem()))
				continue
			}
			m.SetMapIndex(reflect.ValueOf(k), genField(r, t.Elem(), "", o))
		}
		return m
	case reflect.Ptr:
		p := reflect.New(t.Elem())
		fillStruct(r, p.Elem(), o)
		return p
	}
	panic(fmt.Sprintf("harness: no generator for field %s of type %s", name, t))
}

func fillStruct(r *rand.Rand, v reflect.Value, o docOpts) {
	t := v.Type()
	full := o.full
	if full == 0 {
		full = []int{1, 3, 5, 8}[r.Intn(4)]
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue
		}
		if r.Intn(8) >= full {
			continue
		}
		if f.Name == "Secrets" && !o.secrets {
			continue
		}
		v.Field(i).Set(genField(r, f.Type, f.Name, o))
	}
	if md, ok := v.Addr().Interface().(*dataset.Meta); ok && r.Intn(8) < full {
		for i := someMore(r); i >= 0; i-- {
			md.SetArbitrary(arbKey(r, o), genDocValue(r, o, 1))
		}
	}
	if o.files {
		setFiles(r, v.Addr().Interface())
	}
}

// arbKey makes an additional metadata key: any non-empty key that does not
// spell a named field
func arbKey(r *rand.Rand, o docOpts) string {
	for {
		k := docStr(r, o)
		if r.Intn(2) == 0 {
			k = []string{"data", "image", "keyword", "length", "timestamp", "Name", "foo", "zz", "custom key", "author", "name", "urls", "names", "license2", "descriptions", "stats"}[r.Intn(16)]
		}
		if !reservedMeta[strings.ToLower(strings.TrimSpace(k))] && !foldsToReserved(k) {
			return k
		}
	}
}

var reservedMeta = func() map[string]bool {
	m := map[string]bool{}
	t := reflect.TypeOf(dataset.Meta{})
	for i := 0; i < t.NumField(); i++ {
		n := strings.Split(t.Field(i).Tag.Get("json"), ",")[0]
		if n != "" {
			m[strings.ToLower(n)] = true
		}
	}
	return m
}()

func foldsToReserved(k string) bool {
	for n := range reservedMeta {
		if strings.EqualFold(n, k) {
			return true
		}
	}
	return false
}

func setFiles(r *rand.Rand, p interface{}) {
	f := func() qfs.File {
		return qfs.NewMemfileBytes(fmt.Sprintf("f%d.txt", r.Intn(100)), randBytes(r, r.Intn(20)))
	}
	switch x := p.(type) {
	case *dataset.Dataset:
		x.SetBodyFile(f())
	case *dataset.Viz:
		x.SetScriptFile(f())
		x.SetRenderedFile(f())
	case *dataset.Readme:
		x.SetScriptFile(f())
		x.SetRenderedFile(f())
	case *dataset.Transform:
		x.SetScriptFile(f())
	}
}

// genComponent makes a pointer to a generated component of the type
func genComponent(r *rand.Rand, t reflect.Type, o docOpts) interface{} {
	p := reflect.New(t)
	fillStruct(r, p.Elem(), o)
	return p.Interface()
}

func genDataset(r *rand.Rand, o docOpts) *dataset.Dataset {
	ds := &dataset.Dataset{}
	fillStruct(r, reflect.ValueOf(ds).Elem(), o)
	return ds
}

// ---- snapshots

// dump renders a value deeply and canonically, unexported fields included
// (files by identity), telling nil from empty
func dump(v interface{}) string {
	var sb strings.Builder
	dumpVal(&sb, reflect.ValueOf(v), 0)
	return sb.String()
}

func dumpVal(sb *strings.Builder, v reflect.Value, depth int) {
	if depth > 60 {
		sb.WriteString("...")
		return
	}
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	if v.Type() == fileType {
		if v.IsNil() {
			sb.WriteString("nofile")
		} else {
			fmt.Fprintf(sb, "file@%x", v.Elem().Pointer())
		}
		return
	}
	if v.Type() == timeType && v.CanInterface() {
		sb.WriteString(v.Interface().(time.Time).Format(time.RFC3339Nano))
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Interface {
			sb.WriteString(v.Elem().Type().String())
		} else {
			sb.WriteString("&")
		}
		dumpVal(sb, v.Elem(), depth+1)
	case reflect.Struct:
		sb.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			sb.WriteString(v.Type().Field(i).Name + ":")
			dumpVal(sb, v.Field(i), depth+1)
			sb.WriteString(" ")
		}
		sb.WriteString("}")
	case reflect.Map:
		if v.IsNil() {
			sb.WriteString("nilmap")
			return
		}
		type kvs struct{ k, v string }
		var es []kvs
		for _, k := range v.MapKeys() {
			var kb, vb strings.Builder
			dumpVal(&kb, k, depth+1)
			dumpVal(&vb, v.MapIndex(k), depth+1)
			es = append(es, kvs{kb.String(), vb.String()})
		}
		sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
		sb.WriteString("map[")
		for _, e := range es {
			sb.WriteString(e.k + ":" + e.v + " ")
		}
		sb.WriteString("]")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			sb.WriteString("nilslice")
			return
		}
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dumpVal(sb, v.Index(i), depth+1)
			sb.WriteString(" ")
		}
		sb.WriteString("]")
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(sb, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(sb, "%x", v.Float())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		fmt.Fprintf(sb, "%s@%x", v.Kind(), v.Pointer())
	default:
		fmt.Fprintf(sb, "?%s", v.Kind())
	}
}

// firstDiff shows where two dumps part
func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 100
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("before ...%s... after ...%s...", cut(a), cut(b))
}

// cloneDoc copies a document deeply (files shared), building maps anew
func cloneDoc(v interface{}) interface{} {
	src := reflect.ValueOf(v)
	return cloneVal(src).Interface()
}

func cloneVal(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		if md, ok := v.Interface().(*dataset.Meta); ok {
			c := &dataset.Meta{}
			cloneInto(reflect.ValueOf(c).Elem(), v.Elem())
			for k, e := range md.Meta() {
				c.SetArbitrary(k, deepCopy(e))
			}
			return reflect.ValueOf(c)
		}
		c := reflect.New(v.Type().Elem())
		cloneInto(c.Elem(), v.Elem())
		copyFiles(c.Interface(), v.Interface())
		return c
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		c := reflect.New(v.Type()).Elem()
		c.Set(cloneVal(v.Elem()))
		return c
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		c := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			c.SetMapIndex(k, cloneVal(v.MapIndex(k)))
		}
		return c
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			c.Index(i).Set(cloneVal(v.Index(i)))
		}
		return c
	case reflect.Struct:
		if v.Type() == timeType {
			return v
		}
		c := reflect.New(v.Type()).Elem()
		cloneInto(c, v)
		return c
	}
	return v
}

func cloneInto(dst, src reflect.Value) {
	for i := 0; i < src.NumField(); i++ {
		if src.Type().Field(i).PkgPath == "" {
			dst.Field(i).Set(cloneVal(src.Field(i)))
		}
	}
}

func copyFiles(dst, src interface{}) {
	switch s := src.(type) {
	case *dataset.Dataset:
		dst.(*dataset.Dataset).SetBodyFile(s.BodyFile())
	case *dataset.Viz:
		dst.(*dataset.Viz).SetScriptFile(s.ScriptFile())
		dst.(*dataset.Viz).SetRenderedFile(s.RenderedFile())
	case *dataset.Readme:
		dst.(*dataset.Readme).SetScriptFile(s.ScriptFile())
		dst.(*dataset.Readme).SetRenderedFile(s.RenderedFile())
	case *dataset.Transform:
		dst.(*dataset.Transform).SetScriptFile(s.ScriptFile())
	}
}

// ---- document equality after an encode/decode

// refOnly says a component has nothing but a path (and perhaps a kind)
func refOnly(v reflect.Value) bool {
	t := v.Type()
	if v.FieldByName("Path").String() == "" {
		return false
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" || f.Name == "Path" || f.Name == "Qri" {
			continue
		}
		if !v.Field(i).IsZero() {
			return false
		}
	}
	if md, ok := v.Addr().Interface().(*dataset.Meta); ok && len(md.Meta()) > 0 {
		return false
	}
	return true
}

// diffDoc compares a document with what came back from its JSON encoding
func diffDoc(path string, want, got reflect.Value) string {
	if want.Type() != got.Type() {
		return fmt.Sprintf("%s: type %s became %s", path, want.Type(), got.Type())
	}
	t := want.Type()
	if t == timeType {
		a, b := want.Interface().(time.Time), got.Interface().(time.Time)
		if !a.Equal(b) {
			return fmt.Sprintf("%s: time %s became %s", path, a, b)
		}
		return ""
	}
	switch t.Kind() {
	case reflect.Ptr:
		if want.IsNil() != got.IsNil() {
			return fmt.Sprintf("%s: present %v became %v", path, !want.IsNil(), !got.IsNil())
		}
		if want.IsNil() {
			return ""
		}
		return diffDoc(path, want.Elem(), got.Elem())
	case reflect.Struct:
		kind, isDoc := kindOf[t.Name()]
		ref := isDoc && refOnly(want)
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" {
				continue
			}
			p := path + "." + f.Name
			if f.Name == "Secrets" && t.Name() == "Transform" {
				if got.Field(i).Len() != 0 {
					return p + ": secrets came back"
				}
				continue
			}
			if f.Name == "Qri" && isDoc {
				w, g := want.Field(i).String(), got.Field(i).String()
				if ref {
					if g != "" && g != w && g != kind {
						return fmt.Sprintf("%s: kind %q of a reference became %q", p, w, g)
					}
					continue
				}
				if w == "" {
					w = kind
				}
				if g != w {
					return fmt.Sprintf("%s: kind %q became %q", p, w, g)
				}
				continue
			}
			if d := diffDoc(p, want.Field(i), got.Field(i)); d != "" {
				return d
			}
		}
		if md, ok := want.Addr().Interface().(*dataset.Meta); ok {
			return diffVal(path+".meta", md.Meta(), got.Addr().Interface().(*dataset.Meta).Meta(), eqOpts{floatPrec: true})
		}
		return ""
	case reflect.Interface:
		var w, g interface{}
		if !want.IsNil() {
			w = want.Interface()
		}
		if !got.IsNil() {
			g = got.Interface()
		}
		return diffVal(path, w, g, eqOpts{floatPrec: true})
	case reflect.Slice:
		if want.Len() != got.Len() {
			return fmt.Sprintf("%s: %d elements became %d", path, want.Len(), got.Len())
		}
		for i := 0; i < want.Len(); i++ {
			if d := diffDoc(fmt.Sprintf("%s[%d]", path, i), want.Index(i), got.Index(i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		if want.Len() != got.Len() {
			return fmt.Sprintf("%s: %d keys became %d", path, want.Len(), got.Len())
		}
		for _, k := range want.MapKeys() {
			g := got.MapIndex(k)
			if !g.IsValid() {
				return fmt.Sprintf("%s: key %s lost", path, clipv(k.Interface()))
			}
			if d := diffDoc(path+"["+clipv(k.Interface())+"]", want.MapIndex(k), g); d != "" {
				return d
			}
		}
		return ""
	case reflect.String:
		if want.String() != got.String() {
			return fmt.Sprintf("%s: %s became %s", path, clipv(want.String()), clipv(got.String()))
		}
		return ""
	case reflect.Bool:
		if want.Bool() != got.Bool() {
			return fmt.Sprintf("%s: %v became %v", path, want.Bool(), got.Bool())
		}
		return ""
	case reflect.Int:
		if want.Int() != got.Int() {
			return fmt.Sprintf("%s: %v became %v", path, want.Int(), got.Int())
		}
		return ""
	case reflect.Uint8:
		if want.Uint() != got.Uint() {
			return fmt.Sprintf("%s: bytes differ", path)
		}
		return ""
	}
	return fmt.Sprintf("%s: harness cannot compare %s", path, t)
}

func slurp(f qfs.File) string {
	if f == nil {
		return "<nil>"
	}
	b, err := ioutil.ReadAll(f)
	if err != nil {
		return "error: " + err.Error()
	}
	return string(b)
}
