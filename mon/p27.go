package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/tabular"
)

func init() {
	register(&Prop{
		ID:   "C27",
		Rule: "a case is a schema: a table of 0 to hundreds of columns with any title, type or type list, description and other keywords, or one damaged in one or more places, or a random nesting; it counts when the columns or the refusal were compared with an independent reading of the schema",
		Need: map[string]int64{"tables": 2000, "columns": 5000, "refused": 1000, "encoded": 2000, "titles_judged": 2000, "inferred": 500},
		Run:  runC27,
	})
}

// colModel is the independent reading of one column schema: the expected
// column, and whether a problem has to be reported
type colModel struct {
	title   string
	types   []string
	desc    string
	valid   map[string]interface{}
	problem bool
	vague   bool // types may be read either way
}

func modelColumn(i int, f interface{}) colModel {
	m := colModel{title: fmt.Sprintf("col_%d", i), types: []string{"string"}}
	o, ok := f.(map[string]interface{})
	if !ok {
		m.problem = true
		return m
	}
	if t, ok := o["title"].(string); ok {
		m.title = t
	} else {
		m.problem = true
	}
	switch t := o["type"].(type) {
	case string:
		m.types = []string{t}
	case []interface{}:
		var ts []string
		for _, x := range t {
			if s, ok := x.(string); ok {
				ts = append(ts, s)
			}
		}
		if len(ts) > 0 {
			m.types = ts
		} else {
			m.problem = true
		}
		m.vague = len(ts) > 0 && len(ts) != len(t)
	default:
		m.problem = true
	}
	m.desc, _ = o["description"].(string)
	for k, v := range o {
		if k != "title" && k != "type" && k != "description" {
			if m.valid == nil {
				m.valid = map[string]interface{}{}
			}
			m.valid[k] = v
		}
	}
	return m
}

// tableItems finds the column schemas, nil when the schema is not a table
func tableItems(sch map[string]interface{}) (arr, bool) {
	if t, ok := sch["type"].(string); !ok || t != "array" {
		return nil, false
	}
	it, ok := sch["items"].(map[string]interface{})
	if !ok {
		return nil, false
	}
	a, ok := it["items"].([]interface{})
	return a, ok
}

func genColumnSchema(r *rand.Rand) obj {
	o := obj{}
	if r.Intn(8) > 0 {
		o["title"] = []string{"a", "b", "id", "col_0", "col_1", "col_2", "Title with space", "", "ünï", "_x", "$y", "9a", "a.b"}[r.Intn(13)]
		if r.Intn(3) == 0 {
			o["title"] = genString(r, vopts{})
		}
	}
	ts := []string{"string", "number", "integer", "boolean", "object", "array", "null", "date", ""}
	switch r.Intn(6) {
	case 0:
	case 1:
		l := arr{}
		for k := 1 + r.Intn(4); k > 0; k-- {
			l = append(l, ts[r.Intn(len(ts))])
		}
		o["type"] = l
	default:
		o["type"] = ts[r.Intn(len(ts))]
	}
	if r.Intn(3) == 0 {
		o["description"] = genString(r, vopts{})
	}
	for k := r.Intn(4); k > 0; k-- {
		key := []string{"minimum", "maxLength", "enum", "format", "pattern", "Title", "TYPE", "validation", "items", "const", "default", "required", "$id"}[r.Intn(13)]
		if r.Intn(5) == 0 {
			key = genKey(r, vopts{})
		}
		if key != "title" && key != "type" && key != "description" {
			o[key] = genDocValue(r, docOpts{}, 2)
		}
	}
	return o
}

func damageColumn(r *rand.Rand, o obj) interface{} {
	switch r.Intn(6) {
	case 0:
		return []interface{}{nil, "string", 3.0, true, arr{}, arr{obj{"title": "x"}}}[r.Intn(6)]
	case 1:
		o["title"] = oddValue(r, 2)
	case 2:
		o["type"] = oddValue(r, 2)
	case 3:
		o["type"] = []interface{}{arr{}, arr{1.0}, arr{nil, true}, arr{arr{"string"}}, nil, 1.0, obj{}}[r.Intn(7)]
	case 4:
		o["description"] = oddValue(r, 2)
	default:
		o["type"] = arr{1.0, "string", nil}
	}
	return o
}

var titleShape = regexp.MustCompile(`\A[a-zA-Z_$][a-zA-Z_$0-9]*\z`)

func runC27(r *Run) {
	check := func(c *Case, sch map[string]interface{}) {
		before := dump(sch)
		cols, probs, err := tabular.ColumnsFromJSONSchema(sch)
		if a := dump(sch); a != before {
			c.Fail("schema-changed", "reading columns changed the schema: %s", firstDiff(before, a))
		}
		items, isTable := tableItems(sch)
		if !isTable {
			c.Ev("refused")
			c.Distinct(mustJSON(sch))
			if err == nil {
				c.Fail("accepted", "schema %s does not describe a table but gives columns %s", mustJSON(sch), mustJSON(cols))
			} else if !errors.Is(err, tabular.ErrInvalidTabularSchema) {
				c.Fail("error-kind", "the refusal of %s is not an ErrInvalidTabularSchema: %v", mustJSON(sch), err)
			}
			if len(cols) > 0 {
				c.Fail("accepted", "refused with an error and %d columns", len(cols))
			}
			return
		}
		if err != nil {
			c.Fail("refused-table", "schema %s is refused: %v", mustJSON(sch), err)
			return
		}
		c.Ev("tables")
		c.Distinct(mustJSON(sch))
		if len(cols) != len(items) {
			c.Fail("column-count", "%d columns of %d", len(cols), len(items))
			return
		}
		needProblem := 0
		for i := range items {
			m := modelColumn(i, items[i])
			g := cols[i]
			if m.problem {
				needProblem++
			}
			if g.Title != m.title {
				c.Fail("title", "column %d of %s has title %q instead of %q", i, mustJSON(items[i]), g.Title, m.title)
			}
			if g.Type == nil {
				c.Fail("type", "column %d of %s has no type", i, mustJSON(items[i]))
			} else if !m.vague && !reflect.DeepEqual([]string(*g.Type), m.types) {
				c.Fail("type", "column %d of %s has type %v instead of %v", i, mustJSON(items[i]), *g.Type, m.types)
			} else {
				for _, t := range []string{"string", "number", "integer", "boolean", "object", "array", "null", "date", "", "str"} {
					has := false
					for _, x := range m.types {
						has = has || x == t
					}
					if g.Type.HasType(t) != has && !m.vague {
						c.Fail("has-type", "%v.HasType(%q) = %v", *g.Type, t, !has)
					}
				}
			}
			if g.Description != m.desc {
				c.Fail("description", "column %d of %s has description %q", i, mustJSON(items[i]), g.Description)
			}
			if dump(m.valid) != dump(g.Validation) && (len(m.valid) > 0 || len(g.Validation) > 0) {
				c.Fail("validation", "column %d of %s has validation %s", i, mustJSON(items[i]), mustJSON(g.Validation))
			}
			c.Ev("columns")
		}
		if needProblem > 0 && len(probs) == 0 {
			c.Fail("problem", "schema %s lacks titles or types, no problem is reported", mustJSON(sch))
		}
		if needProblem == 0 && len(probs) > 0 {
			c.Fail("no-problem", "problems reported for the sound schema %s: %v", mustJSON(sch), probs)
		}
		if len(probs) < needProblem {
			c.Fail("problem", "%d columns of %s have problems, %d reported", needProblem, mustJSON(sch), len(probs))
		}
		titles := cols.Titles()
		for i, t := range titles {
			if len(titles) != len(cols) || t != cols[i].Title {
				c.Fail("titles", "Titles() = %v", titles)
				break
			}
		}
		// encoding gives the columns back
		b, err := json.Marshal(cols)
		if err != nil {
			c.Fail("encode", "encoding columns %s: %v", clipv(cols), err)
			return
		}
		var back tabular.Columns
		if err := json.Unmarshal(b, &back); err != nil {
			c.Fail("encode", "decoding %s: %v", b, err)
			return
		}
		if x, y := dump(cols), dump(back); x != y {
			c.Fail("encode", "columns decoded from %s differ: %s", b, firstDiff(x, y))
		}
		c.Ev("encoded")
		judgeTitles(c, cols)
	}

	r.Each("tables", r.Q(4000, 60000), func(c *Case) {
		n := c.Rng.Intn(7)
		if c.Rng.Intn(40) == 0 {
			n = 100 + c.Rng.Intn(400)
		} else if c.Rng.Intn(250) == 0 {
			n = []int{1023, 1024, 1025, 1500, 4097}[c.Rng.Intn(5)]
		}
		items := arr{}
		for i := 0; i < n; i++ {
			o := genColumnSchema(c.Rng)
			if c.Idx%3 == 1 && c.Rng.Intn(3) == 0 {
				items = append(items, damageColumn(c.Rng, o))
			} else {
				items = append(items, o)
			}
		}
		sch := obj{"type": "array", "items": obj{"type": "array", "items": items}}
		if c.Rng.Intn(4) == 0 {
			sch["title"] = "a table"
			sch["items"].(obj)["minItems"] = 2.0
		}
		if c.Idx%3 == 2 && c.Rng.Intn(2) == 0 {
			switch c.Rng.Intn(7) {
			case 0:
				delete(sch, "type")
			case 1:
				sch["type"] = oddValue(c.Rng, 1)
			case 2:
				delete(sch, "items")
			case 3:
				sch["items"] = oddValue(c.Rng, 2)
			case 4:
				sch["items"].(obj)["items"] = oddValue(c.Rng, 2)
			case 5:
				sch["type"] = []interface{}{"object", "Array", "array ", "", "string", arr{"array"}}[c.Rng.Intn(6)]
			case 6:
				sch["items"] = items
			}
		}
		check(c, sch)
	})
	r.Each("odd", r.Q(2000, 30000), func(c *Case) {
		check(c, oddSchema(c.Rng, 4))
	})
	r.Each("fixed", 3, func(c *Case) {
		check(c, []map[string]interface{}{nil, tabular.BaseTabularSchema, {"type": "array", "items": map[string]interface{}{"items": arr{nil}}}}[c.Idx])
	})

	// columns written by others: a type is one name or a list of names
	r.Each("decode", r.Q(1500, 15000), func(c *Case) {
		var types []string
		var src interface{}
		bad := false
		for i := c.Rng.Intn(4); i > 0; i-- {
			types = append(types, []string{"string", "number", "integer", "boolean", "null", "object", "array", "", "anything", genString(c.Rng, vopts{})}[c.Rng.Intn(10)])
		}
		list := arr{}
		for _, t := range types {
			list = append(list, t)
		}
		src = list
		if len(types) == 1 && c.Rng.Intn(2) == 0 {
			src = types[0]
		}
		if c.Rng.Intn(4) == 0 {
			bad = true
			src = []interface{}{5.0, true, obj{}, obj{"type": "string"}, arr{5.0}, append(append(arr{}, list...), 3.0), append(append(arr{}, list...), arr{"string"}), append(arr{false}, list...)}[c.Rng.Intn(8)]
		}
		b := []byte(mustJSON(arr{obj{"title": "a", "type": src}}))
		c.Distinct("decode", string(b))
		var cols tabular.Columns
		err := json.Unmarshal(b, &cols)
		if bad {
			c.Ev("decode_refused")
			if err == nil {
				c.Fail("decode", "columns %s are accepted as %s", b, dump(cols))
			}
			return
		}
		c.Ev("decoded")
		if err != nil || len(cols) != 1 || cols[0].Type == nil || len(*cols[0].Type) != len(types) {
			c.Fail("decode", "columns %s are read as %s, %v", b, dump(cols), err)
			return
		}
		for i, t := range types {
			if (*cols[0].Type)[i] != t && utf8.ValidString(t) {
				c.Fail("decode", "columns %s are read as %s", b, dump(cols))
				return
			}
		}
	})

	// machine readable titles
	r.Each("titles", r.Q(4000, 50000), func(c *Case) {
		n := c.Rng.Intn(8)
		var cols tabular.Columns
		for i := 0; i < n; i++ {
			t := []string{"a", "b", "A", "col_1", "col_2", "_", "$", "$a", "a1", "Zz9_$", "x" + fmt.Sprint(c.Rng.Intn(50)), "y" + fmt.Sprint(c.Rng.Intn(50))}[c.Rng.Intn(12)]
			if c.Rng.Intn(6) == 0 {
				t = []string{"", " ", "a ", " a", "1", "9a", "a-b", "a.b", "a b", "é", "aé", "a\n", "\na", "a\nb", "a`", "a[", "a^", "a\\", "[a", "a/", "a:", "a{", "a@", "-", "a\x00", "\xff"}[c.Rng.Intn(26)]
			}
			cols = append(cols, tabular.Column{Title: t, Type: &tabular.ColType{"string"}})
		}
		judgeTitles(c, cols)
		c.Distinct(strings.Join(cols.Titles(), "\x01"))
	})

	// schemas inferred from rows of values
	r.Each("infer", r.Q(1500, 15000), func(c *Case) {
		var src interface{}
		kind := c.Rng.Intn(5)
		rows := arr{}
		want := []string{}
		switch kind {
		case 0:
			src = []interface{}{nil, "x", 3, obj{"a": arr{1}}, true, [][]string{{"a"}}, arr{}, arr{"x"}, arr{nil}, arr{obj{}}, arr{3, arr{1}}, obj{}, struct{}{}}[c.Rng.Intn(13)]
		default:
			m := c.Rng.Intn(6)
			for i := 1 + c.Rng.Intn(4); i > 0; i-- {
				row := arr{}
				for j := 0; j < m; j++ {
					v := []interface{}{"s", 1, 2.5, int64(3), uint8(4), float32(1), true, false, nil, "5", int8(1), int16(2), int32(3), uint(4), uint16(5), uint32(6), uint64(7), "", "true"}[c.Rng.Intn(19)]
					row = append(row, v)
				}
				rows = append(rows, row)
			}
			for _, v := range rows[0].(arr) {
				t := "number"
				switch v.(type) {
				case string:
					t = "string"
				case bool:
					t = "boolean"
				case nil:
					t = "null"
				}
				want = append(want, t)
			}
			src = rows
		}
		before := dump(src)
		sch, err := detect.TabularSchemaFromTabularData(src)
		if a := dump(src); a != before {
			c.Fail("infer-changed", "inferring a schema changed the data: %s", firstDiff(before, a))
		}
		c.Ev("inferred")
		c.Distinct(before)
		if kind == 0 {
			if err == nil {
				c.Fail("infer-accepted", "%s is no table but its schema is %s", clipv(src), mustJSON(sch))
			}
			return
		}
		if err != nil {
			c.Fail("infer-refused", "%s: %v", clipv(src), err)
			return
		}
		var cols tabular.Columns
		b, _ := json.Marshal(sch)
		dec := map[string]interface{}{}
		json.Unmarshal(b, &dec)
		for _, s := range []map[string]interface{}{sch, dec} {
			cols2, probs, err := tabular.ColumnsFromJSONSchema(s)
			if err != nil || len(probs) > 0 {
				c.Fail("infer-schema", "the schema %s inferred for %s is not sound: %v %v", mustJSON(sch), clipv(src), err, probs)
				return
			}
			cols = cols2
		}
		if len(cols) != len(want) {
			c.Fail("infer-columns", "%d columns inferred for %s", len(cols), clipv(src))
			return
		}
		for i := range want {
			if !cols[i].Type.HasType(want[i]) {
				c.Fail("infer-type", "column %d of %s has type %v", i, clipv(src), *cols[i].Type)
			}
		}
		if err := cols.ValidMachineTitles(); err != nil {
			c.Fail("infer-titles", "inferred titles are not machine readable: %v", err)
		}
	})
}

func judgeTitles(c *Case, cols tabular.Columns) {
	ok := true
	seen := map[string]bool{}
	for _, col := range cols {
		if !titleShape.MatchString(col.Title) || seen[col.Title] {
			ok = false
		}
		seen[col.Title] = true
	}
	err := cols.ValidMachineTitles()
	if ok != (err == nil) {
		c.Fail("machine-titles", "titles %q: ValidMachineTitles = %v", cols.Titles(), err)
	}
	if err != nil && !errors.Is(err, tabular.ErrInvalidTabularSchema) {
		c.Fail("error-kind", "the refusal of titles is not an ErrInvalidTabularSchema: %v", err)
	}
	c.Ev("titles_judged")
}
