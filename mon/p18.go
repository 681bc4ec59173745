package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/validate"
	"github.com/qri-io/jsonschema"
)

func init() {
	register(&Prop{
		ID:     "C18",
		Rule:   "schemas over the common keywords (type, enum, const, bounds, lengths, required, properties, items, tuples, allOf, anyOf, not) constrain the entries of arrays, objects and tables; entries conform or not by an independent evaluator, at random and planted around batch boundaries up to several batches; bodies are validated from memory and through every format; the set of entries that the reports point at must be exactly the non-conforming ones; documents, names and CSV texts are generated around each rule; non-trivial: at least one entry, distinct by schema and body",
		Assume: []string{"schemas that constrain entries one by one: keywords about the whole body (minItems, uniqueItems, contains, required of a top-level object) are applied per batch of 5000 entries by the pinned tree and are left out", "commit titles measured in ASCII"},
		Need:   map[string]int64{"bodies": 2000, "invalid_entries": 3000, "valid_entries": 5000, "large_bodies": 10, "structural": 1000, "names": 1000, "csv_texts": 1000},
		Run:    runC18,
	})
}

func genSmall(r *rand.Rand, depth int) interface{} {
	k := r.Intn(9)
	if depth <= 0 {
		k = r.Intn(7)
	}
	switch k {
	case 0, 1:
		return int64(r.Intn(21) - 5)
	case 2:
		return float64(r.Intn(20)-5) + 0.5
	case 3, 4:
		return "abcdefghij"[:r.Intn(9)]
	case 5:
		return r.Intn(2) == 0
	case 6:
		return nil
	case 7:
		a := arr{}
		for i := r.Intn(4); i > 0; i-- {
			a = append(a, genSmall(r, depth-1))
		}
		return a
	}
	m := obj{}
	for i := r.Intn(4); i > 0; i-- {
		m[string(rune('a'+r.Intn(4)))] = genSmall(r, depth-1)
	}
	return m
}

var schTypes = []string{"string", "integer", "number", "boolean", "null", "object", "array"}

func genEntrySchema(r *rand.Rand, depth int) obj {
	k := r.Intn(12)
	if depth <= 0 {
		k = r.Intn(7)
	}
	switch k {
	case 0:
		return obj{"type": schTypes[r.Intn(7)]}
	case 1:
		return obj{"type": arr{schTypes[r.Intn(7)], schTypes[r.Intn(7)]}}
	case 2:
		s := obj{"type": []string{"integer", "number"}[r.Intn(2)]}
		s["minimum"] = int64(r.Intn(10) - 5)
		if r.Intn(2) == 0 {
			s["maximum"] = int64(5 + r.Intn(10))
		} else {
			s["exclusiveMaximum"] = int64(5 + r.Intn(10))
		}
		return s
	case 3:
		return obj{"type": "string", "minLength": int64(r.Intn(4)), "maxLength": int64(4 + r.Intn(3))}
	case 4:
		return obj{"enum": arr{genSmall(r, 0), genSmall(r, 0), genSmall(r, 0), "abc", int64(3)}}
	case 5:
		return obj{"const": genSmall(r, 0)}
	case 6:
		return obj{}
	case 7:
		s := obj{"type": "object", "properties": obj{"a": genEntrySchema(r, depth-1), "b": genEntrySchema(r, depth-1)}}
		if r.Intn(2) == 0 {
			s["required"] = arr{"a"}
		}
		return s
	case 8:
		return obj{"type": "array", "items": genEntrySchema(r, depth-1), "minItems": int64(r.Intn(2)), "maxItems": int64(1 + r.Intn(3))}
	case 9:
		return obj{"type": "array", "items": arr{genEntrySchema(r, depth-1), genEntrySchema(r, depth-1)}}
	case 10:
		return obj{[]string{"allOf", "anyOf"}[r.Intn(2)]: arr{genEntrySchema(r, depth-1), genEntrySchema(r, depth-1)}}
	}
	return obj{"not": genEntrySchema(r, depth-1)}
}

func schType(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return "boolean"
	case string:
		return "string"
	case int64:
		return "integer"
	case float64:
		if x == math.Trunc(x) {
			return "integer"
		}
		return "number"
	case []interface{}:
		return "array"
	case map[string]interface{}:
		return "object"
	}
	panic(fmt.Sprintf("%T", v))
}

func sameVal18(a, b interface{}) bool { return diffVal("", a, b, eqOpts{}) == "" }

// conforms evaluates the schemas genEntrySchema makes
func conforms(s obj, v interface{}) bool {
	typ := schType(v)
	is := func(t interface{}) bool { return t == typ || t == "number" && typ == "integer" }
	switch t := s["type"].(type) {
	case string:
		if !is(t) {
			return false
		}
	case arr:
		ok := false
		for _, x := range t {
			ok = ok || is(x)
		}
		if !ok {
			return false
		}
	}
	if e, ok := s["enum"].(arr); ok {
		found := false
		for _, x := range e {
			found = found || sameVal18(x, v)
		}
		if !found {
			return false
		}
	}
	if e, ok := s["const"]; ok && !sameVal18(e, v) {
		return false
	}
	if f, ok := toF64(v); ok && typ != "boolean" {
		if m, ok := s["minimum"]; ok && f < float64(m.(int64)) {
			return false
		}
		if m, ok := s["maximum"]; ok && f > float64(m.(int64)) {
			return false
		}
		if m, ok := s["exclusiveMaximum"]; ok && f >= float64(m.(int64)) {
			return false
		}
	}
	switch x := v.(type) {
	case string:
		if m, ok := s["minLength"]; ok && int64(len(x)) < m.(int64) {
			return false
		}
		if m, ok := s["maxLength"]; ok && int64(len(x)) > m.(int64) {
			return false
		}
	case map[string]interface{}:
		if req, ok := s["required"].(arr); ok {
			for _, k := range req {
				if _, ok := x[k.(string)]; !ok {
					return false
				}
			}
		}
		if ps, ok := s["properties"].(obj); ok {
			for k, p := range ps {
				if e, ok := x[k]; ok && !conforms(p.(obj), e) {
					return false
				}
			}
		}
	case []interface{}:
		if m, ok := s["minItems"]; ok && int64(len(x)) < m.(int64) {
			return false
		}
		if m, ok := s["maxItems"]; ok && int64(len(x)) > m.(int64) {
			return false
		}
		switch it := s["items"].(type) {
		case obj:
			for _, e := range x {
				if !conforms(it, e) {
					return false
				}
			}
		case arr:
			for i, e := range x {
				if i < len(it) && !conforms(it[i].(obj), e) {
					return false
				}
			}
		}
	}
	if l, ok := s["allOf"].(arr); ok {
		for _, e := range l {
			if !conforms(e.(obj), v) {
				return false
			}
		}
	}
	if l, ok := s["anyOf"].(arr); ok {
		any := false
		for _, e := range l {
			any = any || conforms(e.(obj), v)
		}
		if !any {
			return false
		}
	}
	if n, ok := s["not"].(obj); ok && conforms(n, v) {
		return false
	}
	return true
}

// pointedAt is the first token of a report's path
func pointedAt(e jsonschema.KeyError) string {
	t := strings.SplitN(strings.TrimPrefix(e.PropertyPath, "/"), "/", 2)[0]
	return strings.ReplaceAll(strings.ReplaceAll(t, "~1", "/"), "~0", "~")
}

// judge compares reports with the entries that should be reported
func judge(c *Case, how string, bad map[string]bool, good int, rd dsio.EntryReader) bool {
	errs, err := validate.EntryReader(rd)
	if err != nil {
		c.Fail("error:"+how, "%s: validation fails: %v", how, err)
		return false
	}
	seen := map[string]bool{}
	for _, e := range errs {
		p := pointedAt(e)
		if !bad[p] {
			c.Fail("false-report:"+how, "%s: report %s (path %q) points at an entry that conforms", how, clip(e.Error(), 300), e.PropertyPath)
			return false
		}
		seen[p] = true
	}
	for p := range bad {
		if !seen[p] {
			c.Fail("missed:"+how, "%s: entry %q does not conform but is not reported (%d of %d are)", how, p, len(seen), len(bad))
			return false
		}
	}
	c.EvN("invalid_entries", len(bad))
	c.EvN("valid_entries", good)
	return true
}

// safeSchema turns integers into plain numbers, as a schema that was decoded
// from JSON has them
func safeSchema(v interface{}) interface{} {
	switch x := v.(type) {
	case int64:
		return float64(x)
	case []interface{}:
		out := make([]interface{}, len(x))
		for i := range x {
			out[i] = safeSchema(x[i])
		}
		return out
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k, e := range x {
			out[k] = safeSchema(e)
		}
		return out
	}
	return v
}

func runC18(r *Run) {
	r.Each("array", r.Q(3000, 40000), func(c *Case) {
		rng := c.Rng
		es := genEntrySchema(rng, 2)
		n := rng.Intn(15)
		vs := arr{}
		bad := map[string]bool{}
		for i := 0; i < n; i++ {
			v := genSmall(rng, 2)
			vs = append(vs, v)
			if !conforms(es, v) {
				bad[strconv.Itoa(i)] = true
			}
		}
		sch := obj{"type": "array", "items": safeSchema(es)}
		if !judge18(c, sch, entriesArr(vs), bad, n-len(bad)) {
			return
		}
		c.Ev("bodies")
		if n > 0 {
			c.Distinct("array", dump(sch), dump(vs))
		}
		c.Sample("schema %s body %s: %d entries do not conform", mustJSON(sch), mustJSON(vs), len(bad))
	})
	r.Each("object", r.Q(1500, 20000), func(c *Case) {
		rng := c.Rng
		es := genEntrySchema(rng, 2)
		ps := []kv{}
		bad := map[string]bool{}
		for i, n := 0, rng.Intn(10); i < n; i++ {
			k := fmt.Sprintf("k%d", i)
			if rng.Intn(4) == 0 {
				k = []string{"a/b", "t~x", "5", "é", "a b"}[rng.Intn(5)] + strconv.Itoa(i)
			}
			v := genSmall(rng, 2)
			ps = append(ps, kv{k, v})
			if !conforms(es, v) {
				bad[k] = true
			}
		}
		sch := obj{"type": "object", "additionalProperties": safeSchema(es)}
		if len(ps) == 0 {
			return
		}
		if !judge18(c, sch, entriesObj(ps), bad, len(ps)-len(bad)) {
			return
		}
		c.Ev("bodies")
		c.Distinct("object", dump(sch), dump(ps))
	})
	// many entries: reports must be exact across batches
	sizes := []int{4999, 5000, 5001, 5002, 9999, 10000, 10001, 12345, 15001, 20000}
	r.Each("large", r.Q(20, 160), func(c *Case) {
		rng := c.Rng
		n := sizes[c.Idx%len(sizes)]
		object := c.Idx%4 == 3
		es := obj{"type": "integer", "minimum": int64(0)}
		badAt := map[int]bool{}
		for _, p := range []int{0, 1, 4998, 4999, 5000, 5001, 9999, 10000, 10001, 14999, 15000, n - 1} {
			if p < n && rng.Intn(2) == 0 {
				badAt[p] = true
			}
		}
		for i := rng.Intn(20); i > 0; i-- {
			badAt[rng.Intn(n)] = true
		}
		switch rng.Intn(10) {
		case 0, 1:
			badAt = map[int]bool{}
		case 2, 3: // a good part, or all, of the entries
			part := []int{1, 1, 2, 3, 10}[rng.Intn(5)]
			for i := 0; i < n; i++ {
				if rng.Intn(part) == 0 {
					badAt[i] = true
				}
			}
			c.Ev("bodies_with_many_errors")
		}
		var ents []dsio.Entry
		bad := map[string]bool{}
		for i := 0; i < n; i++ {
			var v interface{} = int64(rng.Intn(1000))
			if badAt[i] {
				v = []interface{}{"x", int64(-3), nil, 0.5, true}[rng.Intn(5)]
			}
			e := dsio.Entry{Index: i, Value: v}
			at := strconv.Itoa(i)
			if object {
				e.Key = "k" + at
				at = e.Key
			}
			if badAt[i] {
				bad[at] = true
			}
			ents = append(ents, e)
		}
		sch := obj{"type": "array", "items": es}
		if object {
			sch = obj{"type": "object", "additionalProperties": es}
		}
		if !judge18(c, sch, ents, bad, n-len(bad)) {
			return
		}
		c.Ev("bodies")
		c.Ev("large_bodies")
		c.Distinct("large", n, dump(badAt), object)
	})
	// tables read from CSV text: cells that are not of their column's type
	r.Each("table", r.Q(600, 6000), func(c *Case) {
		rng := c.Rng
		cs := genCols(rng, []string{"integer", "number", "boolean", "string"})
		n := rng.Intn(12)
		if c.Idx%200 == 7 {
			n = 5000 + rng.Intn(3)
		}
		var rows [][]string
		bad := map[string]bool{}
		for i := 0; i < n; i++ {
			row := []string{}
			for _, cc := range cs {
				t := cc.typ
				if rng.Intn(10) == 0 {
					t = []string{"integer", "number", "boolean", "string"}[rng.Intn(4)]
				}
				x := "w" + strconv.Itoa(rng.Intn(100))
				switch t {
				case "integer":
					x = strconv.Itoa(rng.Intn(2000) - 1000)
					if x == "0" || x == "1" {
						x = "7"
					}
				case "number":
					x = fmt.Sprintf("%d.5", rng.Intn(100))
				case "boolean":
					x = []string{"true", "false"}[rng.Intn(2)]
				}
				if t != cc.typ && cc.typ != "string" && !(cc.typ == "number" && t == "integer") {
					bad[strconv.Itoa(i)] = true
				}
				row = append(row, x)
			}
			rows = append(rows, row)
		}
		st := tableStructure(rng, "csv", cs)
		st.Compression = genComp(rng)
		sep := byte(',')
		if s, ok := st.FormatConfig["separator"].(string); ok {
			sep = s[0]
		}
		if st.FormatConfig["headerRow"] == true {
			h := []string{}
			for _, cc := range cs {
				h = append(h, cc.title)
			}
			rows = append([][]string{h}, rows...)
		}
		body := csvText(rng, rows, sep, "\n", true)
		if st.Compression != "" {
			body = compressBytes(st.Compression, body)
		}
		rd, err := dsio.NewEntryReader(st, bytes.NewReader(body))
		if err != nil {
			c.Fail("open", "%v", err)
			return
		}
		defer rd.Close()
		if !judge(c, "csv", bad, n-len(bad), rd) {
			return
		}
		c.Ev("bodies")
		if n > 0 {
			c.Distinct("table", body, dump(st))
		}
	})

	// documents
	r.Each("structural", r.Q(2000, 20000), func(c *Case) {
		rng := c.Rng
		var cm *dataset.Commit
		ok := true
		if rng.Intn(5) > 0 {
			cm = genComponent(rng, compTypes[0], docOpts{full: 4, depth: 1}).(*dataset.Commit)
			n := []int{0, 1, 50, 99, 100, 101, 102, 150, 1000}[rng.Intn(9)]
			title := make([]byte, n)
			for i, plain := 0, rng.Intn(2) == 0; i < n; i++ {
				title[i] = 't'
				if !plain {
					title[i] = byte(' ' + rng.Intn(95))
				}
				if (i == 0 || i == n-1) && rng.Intn(3) == 0 {
					title[i] = " \t\n.\x00\x7f"[rng.Intn(6)]
				}
			}
			cm.Title = string(title)
			if err := validate.Commit(cm); (err == nil) != (n <= 100) {
				c.Fail("commit", "commit with a title of %d characters %q: %v", n, clip(cm.Title, 120), err)
				return
			}
			ok = n <= 100
		} else {
			ok = false // a dataset needs a commit
			if err := validate.Commit(nil); err != nil {
				c.Fail("commit", "no commit: %v", err)
				return
			}
		}
		var st *dataset.Structure
		if rng.Intn(4) > 0 {
			st = genComponent(rng, compTypes[3], docOpts{full: 4, depth: 1}).(*dataset.Structure)
			f := []string{"csv", "json", "ndjson", "cbor", "xlsx", "xml", "", "exe", "CSV?"}[rng.Intn(9)]
			st.Format = f
			st.Schema = nil
			if rng.Intn(4) > 0 {
				st.Schema = map[string]interface{}{}
				if rng.Intn(2) == 0 {
					st.Schema = obj{"type": "array"}
				}
			}
			known := map[string]bool{"csv": true, "json": true, "ndjson": true, "cbor": true, "xlsx": true, "xml": true}[f]
			sok := known && st.Schema != nil
			if err := validate.Structure(st); (err == nil) != sok {
				c.Fail("structure", "structure with format %q and schema %v: %v", f, st.Schema, err)
				return
			}
			if err := validate.Schema(st.Schema); (err == nil) != (st.Schema != nil) {
				c.Fail("schema", "schema %v: %v", st.Schema, err)
				return
			}
			ok = ok && sok
		} else if err := validate.Structure(nil); err != nil {
			c.Fail("structure", "no structure: %v", err)
			return
		}
		ds := genDataset(rng, docOpts{full: 3, depth: 1})
		ds.Commit, ds.Structure = cm, st
		pre := dump(ds)
		if err := validate.Dataset(ds); (err == nil) != ok {
			c.Fail("dataset", "dataset with commit %v and structure %v: %v", dump(cm), dump(st), err)
			return
		}
		if dump(ds) != pre {
			c.Fail("changed", "validation changed the dataset: %s", firstDiff(pre, dump(ds)))
			return
		}
		c.Ev("structural")
		c.Distinct("structural", pre)
	})
	r.Each("nil", 1, func(c *Case) {
		if err := validate.Dataset(nil); err != nil {
			c.Fail("dataset", "no dataset: %v", err)
		}
	})

	r.Each("names", r.Q(3000, 30000), func(c *Case) {
		rng := c.Rng
		n := []int{0, 1, 2, 10, 143, 144, 145, 146, 300}[rng.Intn(9)]
		b := make([]byte, n)
		const letters = "abcXYZ019_"
		for i := range b {
			b[i] = letters[rng.Intn(len(letters))]
		}
		if n > 0 && rng.Intn(3) > 0 {
			b[0] = "aZq"[rng.Intn(3)]
		}
		name := string(b)
		if n > 0 && rng.Intn(3) == 0 {
			i := rng.Intn(n)
			name = name[:i] + []string{"-", " ", ".", "é", "\n", "/", "$", "\x00", "日"}[rng.Intn(9)] + name[i+1:]
			if rng.Intn(4) == 0 {
				name = string(b[:n-1]) + "\n"
			}
		}
		ok := len(name) > 0 && len(name) <= 144
		for i := 0; i < len(name); i++ {
			ch := name[i]
			letter := ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z'
			ok = ok && (letter || i > 0 && (ch >= '0' && ch <= '9' || ch == '_'))
		}
		if err := validate.ValidName(name); (err == nil) != ok {
			c.Fail("name", "name %q of %d bytes: %v", clip(name, 200), len(name), err)
			return
		}
		c.Ev("names")
		c.Distinct("name", name)
	})

	r.Each("csvrows", r.Q(2500, 30000), func(c *Case) {
		rng := c.Rng
		w := 1 + rng.Intn(5)
		n := 1 + rng.Intn(12)
		if rng.Intn(100) == 0 {
			n = 3000
		}
		same := true
		var rows [][]string
		odd := -1
		if rng.Intn(2) == 0 {
			odd = rng.Intn(n)
			if rng.Intn(3) == 0 {
				odd = n - 1
			}
		}
		for i := 0; i < n; i++ {
			k := w
			if i == odd && n > 1 {
				k = w + []int{-1, 1, 2}[rng.Intn(3)]
				if k < 1 {
					k = w + 1
				}
				same = false
			}
			row := make([]string, k)
			for j := range row {
				row[j] = []string{"a", "b,c", "d\ne", "q\"q", "", "5", "x y", "é", "\n\n"}[rng.Intn(9)]
			}
			rows = append(rows, row)
		}
		body := csvText(rng, rows, ',', []string{"\n", "\r\n"}[rng.Intn(2)], rng.Intn(2) == 0)
		ch := chunkings(rng, body)
		ks := sortedKeys(ch)
		if err := validate.CheckCsvRowLengths(ch[ks[rng.Intn(len(ks))]]()); (err == nil) != same {
			c.Fail("csv-lengths", "rows of the same length: %v, check says %v\n%s", same, err, quoteClip(body))
			return
		}
		c.Ev("csv_texts")
		c.Distinct("csvrows", body)
		if rng.Intn(4) == 0 {
			at := rng.Intn(len(body) + 1)
			if err := validate.CheckCsvRowLengths(&faultReader{data: body, at: at, err: errInjected, then: at % 2}); err == nil {
				c.Fail("csv-fault", "source failing after %d of %d bytes: no error", at, len(body))
				return
			}
		}
	})
}

// judge18 validates entries from memory and through a format
func judge18(c *Case, sch obj, ents []dsio.Entry, bad map[string]bool, good int) bool {
	rng := c.Rng
	if rng.Intn(4) == 0 {
		sch["title"] = "a schema"
		if rng.Intn(2) == 0 {
			sch["$id"] = []string{"https://example.com/s.json", "https://example.com/t", "urn:a"}[rng.Intn(3)]
		}
	}
	st := stale(rng, &dataset.Structure{Format: "json", Schema: sch})
	if !judge(c, "memory", bad, good, &listReader{st: st, ents: ents}) {
		return false
	}
	format := []string{"json", "cbor", "ndjson"}[rng.Intn(3)]
	if format == "ndjson" && sch["type"] == "object" {
		format = "json"
	}
	fst := stale(rng, &dataset.Structure{Format: format, Schema: sch, Compression: genComp(rng)})
	b, err := writeBody(fst, ents)
	if err != nil {
		c.Fail("write", "%s: %v", format, err)
		return false
	}
	rd, err := dsio.NewEntryReader(fst, bytes.NewReader(b))
	if err != nil {
		c.Fail("open", "%s: %v", format, err)
		return false
	}
	defer rd.Close()
	return judge(c, format, bad, good, rd)
}
