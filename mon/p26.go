package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sync"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/generate"
)

func init() {
	register(&Prop{
		ID:   "C26",
		Rule: "a case is a tabular schema over all column types (single types and type lists, whose first type counts), generator options (seeded or not, short strings or not) and a number of rows; it counts when every generated row was checked against the schema and the rows were written and read back in a tabular format",
		Need: map[string]int64{"rows": 20000, "values": 50000, "seeded_pairs": 300, "written": 500, "bool_columns": 200, "refused": 20, "long": 4, "commands": 40, "command_faults": 20},
		Run:  runC26,
	})
}

var dsgenOnce struct {
	sync.Once
	path, err string
}

// dsgenCommand builds the command from the working tree, once per run
func dsgenCommand() (string, string) {
	dsgenOnce.Do(func() {
		dir := os.Getenv("VMON_SCRATCH")
		if dir == "" {
			dir = os.TempDir()
		}
		dsgenOnce.path = filepath.Join(dir, fmt.Sprintf("dsgen-%d", os.Getpid()))
		cmd := exec.Command("go", "build", "-buildvcs=false", "-o", dsgenOnce.path, "./generate/dsgen")
		cmd.Dir = "/repo"
		if d := os.Getenv("VMON_REPO"); d != "" {
			cmd.Dir = d // development: a scratch copy
		}
		if out, err := cmd.CombinedOutput(); err != nil {
			dsgenOnce.err = fmt.Sprintf("%v: %s", err, out)
		}
	})
	return dsgenOnce.path, dsgenOnce.err
}

// fitsType judges a generated value by Go type, independently of the generator
func fitsType(typ string, v interface{}) bool {
	switch typ {
	case "string":
		_, ok := v.(string)
		return ok
	case "boolean":
		_, ok := v.(bool)
		return ok
	case "number":
		switch x := v.(type) {
		case float64:
			return !math.IsNaN(x) && !math.IsInf(x, 0)
		case int, int64, int32:
			return true
		}
		return false
	case "integer":
		switch x := v.(type) {
		case int, int64, int32:
			return true
		case float64:
			return x == math.Trunc(x) && math.Abs(x) < 1<<53
		}
		return false
	case "object":
		_, ok := v.(map[string]interface{})
		return ok
	case "array":
		_, ok := v.([]interface{})
		return ok
	case "null":
		return v == nil
	}
	return false
}

func runC26(r *Run) {
	r.Each("rows", r.Q(1500, 20000), func(c *Case) {
		types := []string{"string", "number", "integer", "boolean", "object", "array", "null"}
		cs := genCols(c.Rng, types)
		sch := tabularSchema(cs)
		items := sch["items"].(obj)["items"].(arr)
		for i := range cs {
			if c.Rng.Intn(5) == 0 {
				l := arr{cs[i].typ}
				for k := c.Rng.Intn(3); k > 0; k-- {
					l = append(l, types[c.Rng.Intn(7)])
				}
				items[i].(obj)["type"] = l
			}
			if c.Rng.Intn(10) == 0 && cs[i].typ == "string" {
				delete(items[i].(obj), "type") // defaults to string
			}
		}
		st := stale(c.Rng, &dataset.Structure{Format: []string{"csv", "xlsx", "json"}[c.Rng.Intn(3)], Schema: sch})
		before := dump(st)
		var opts []func(*generate.Config)
		max := 64
		seeded := c.Rng.Intn(3) > 0
		if seeded {
			opts = append(opts, generate.AssignSeed)
		}
		if c.Rng.Intn(2) == 0 {
			opts = append(opts, generate.AssignMaxLen)
			max = 8
		}
		c.Rng.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		g, err := generate.NewTabularGenerator(st, opts...)
		if err != nil {
			c.Fail("refused", "schema %s refused: %v", mustJSON(sch), err)
			return
		}
		g2, _ := generate.NewTabularGenerator(st, opts...)
		if g.Structure() != st {
			c.Fail("structure", "the generator's structure is not the one given")
		}
		n := 1 + c.Rng.Intn(40)
		if c.Rng.Intn(20) == 0 {
			n = 500
		}
		rows := arr{}
		for i := 0; i < n; i++ {
			e, err := g.ReadEntry()
			if err != nil {
				c.Fail("read-error", "row %d: %v", i, err)
				return
			}
			if e.Index != i || e.Key != "" {
				c.Fail("index", "row %d has index %d and key %q", i, e.Index, e.Key)
			}
			row, ok := e.Value.([]interface{})
			if !ok || len(row) != len(cs) {
				c.Fail("row-shape", "row %d of %d columns is %s", i, len(cs), clipv(e.Value))
				return
			}
			for j, v := range row {
				if !fitsType(cs[j].typ, v) {
					c.Fail("type:"+cs[j].typ, "row %d: column %d of type %s holds %T %v", i, j, cs[j].typ, v, v)
				}
				if s, ok := v.(string); ok && len(s) > max {
					c.Fail("length", "row %d: a string of %d bytes, the limit is %d", i, len(s), max)
				}
				c.Ev("values")
			}
			if seeded {
				e2, err := g2.ReadEntry()
				if err != nil || e2.Index != i || !reflect.DeepEqual(e2.Value, e.Value) {
					c.Fail("seed", "row %d of two generators with the same seed: %s and %s", i, clipv(e.Value), clipv(e2.Value))
				}
			}
			rows = append(rows, deepCopy(arr(row)))
			// rows belong to the caller
			for j := range row {
				row[j] = "overwritten"
			}
			c.Ev("rows")
		}
		if seeded {
			c.Ev("seeded_pairs")
		}
		if err := g.Close(); err != nil {
			c.Fail("close", "Close: %v", err)
		}
		if a := dump(st); a != before {
			c.Fail("schema-changed", "generating changed the structure: %s", firstDiff(before, a))
		}
		c.Distinct(mustJSON(sch), len(opts), n)
		c.Sample("%s: %s", mustJSON(sch), clipv(rows))
		// they can be written and read back
		for _, f := range []string{"csv", "xlsx", "json", "cbor"} {
			if f == "xlsx" && c.Idx%8 != 0 {
				continue
			}
			ws := tableStructure(c.Rng, f, cs)
			b, err := writeBody(ws, entriesArr(rows))
			if err != nil {
				c.Fail("write:"+f, "writing generated rows: %v", err)
				continue
			}
			if d := diffArr(rows, readBodyBytes(ws, b), eqOpts{}); d != "" {
				c.Fail("write:"+f, "generated rows read back: %s", d)
			}
			c.Ev("written")
		}
	})
	// a generator goes on for as long as it is read
	r.Each("long", r.Q(4, 40), func(c *Case) {
		cs := []col{{"s", "string"}, {"n", "number"}, {"i", "integer"}, {"b", "boolean"}, {"o", "object"}, {"z", "null"}}
		c.Rng.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
		cs = cs[:2+c.Rng.Intn(4)]
		st := stale(c.Rng, &dataset.Structure{Format: "csv", Schema: tabularSchema(cs)})
		g, err := generate.NewTabularGenerator(st, generate.AssignSeed)
		g2, _ := generate.NewTabularGenerator(st, generate.AssignSeed)
		if err != nil {
			c.Fail("refused", "%v", err)
			return
		}
		n := []int{11000, 33000, 70000, 140000}[c.Idx%4]
		for i := 0; i < n; i++ {
			e, err := g.ReadEntry()
			e2, err2 := g2.ReadEntry()
			if err != nil || err2 != nil {
				c.Fail("read-error", "row %d: %v %v", i, err, err2)
				return
			}
			row, _ := e.Value.([]interface{})
			if e.Index != i || e2.Index != i || len(row) != len(cs) {
				c.Fail("index", "row %d has index %d (and %d) and %d values", i, e.Index, e2.Index, len(row))
				return
			}
			if !reflect.DeepEqual(e.Value, e2.Value) {
				c.Fail("seed", "row %d of two generators with the same seed: %s and %s", i, clipv(e.Value), clipv(e2.Value))
				return
			}
			for j, v := range row {
				if s, ok := v.(string); !fitsType(cs[j].typ, v) || ok && len(s) > 64 {
					c.Fail("type:"+cs[j].typ, "row %d: column %d of type %s holds %T %v", i, j, cs[j].typ, v, v)
					return
				}
			}
		}
		c.EvN("rows", n)
		c.Ev("long")
		c.Distinct("long", cs, n)
	})
	// every type with more than one value shows more than one
	r.Each("vary", r.Q(300, 3000), func(c *Case) {
		cs := []col{{"s", "string"}, {"n", "number"}, {"i", "integer"}, {"b", "boolean"}, {"b2", "boolean"}}
		c.Rng.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
		var opts []func(*generate.Config)
		if c.Idx%2 == 0 {
			opts = append(opts, generate.AssignMaxLen)
		}
		g, err := generate.NewTabularGenerator(stale(c.Rng, &dataset.Structure{Format: "csv", Schema: tabularSchema(cs)}), opts...)
		if err != nil {
			c.Fail("refused", "%v", err)
			return
		}
		seen := make([]map[string]int, len(cs))
		for i := range seen {
			seen[i] = map[string]int{}
		}
		const n = 400
		for i := 0; i < n; i++ {
			e, err := g.ReadEntry()
			if err != nil {
				c.Fail("read-error", "row %d: %v", i, err)
				return
			}
			row, _ := e.Value.([]interface{})
			if len(row) != len(cs) {
				c.Fail("row-shape", "row %d is %s", i, clipv(e.Value))
				return
			}
			for j, v := range row {
				seen[j][fmt.Sprint(v)]++
			}
		}
		for j, s := range seen {
			switch cs[j].typ {
			case "boolean":
				c.Ev("bool_columns")
				if len(s) != 2 || s["true"] < n/8 || s["false"] < n/8 {
					c.Fail("vary:boolean", "%d generated booleans: %v", n, s)
				}
			default:
				if len(s) < 50 {
					c.Fail("vary:"+cs[j].typ, "%d generated values of type %s are only %d distinct ones", n, cs[j].typ, len(s))
				}
			}
		}
		c.Distinct(cs, c.Idx%2)
	})
	r.Each("refuse", r.Q(60, 300), func(c *Case) {
		sch := []obj{nil, {}, {"type": "object"}, {"type": "array"}, {"type": "array", "items": arr{}}, {"type": "array", "items": obj{"type": "array"}}, {"type": 3}, {"type": "string"}, {"type": "array", "items": obj{"type": "array", "items": obj{}}}}[c.Rng.Intn(9)]
		if g, err := generate.NewTabularGenerator(&dataset.Structure{Format: "csv", Schema: sch}); err == nil {
			e, _ := g.ReadEntry()
			c.Fail("not-a-table", "schema %s is accepted and generates %v", mustJSON(sch), e)
		}
		c.Ev("refused")
	})
	// reading goes on as the dsio tools expect: a page of generated rows
	r.Each("page", r.Q(100, 1000), func(c *Case) {
		cs := genCols(c.Rng, []string{"string", "integer"})
		g, err := generate.NewTabularGenerator(&dataset.Structure{Format: "csv", Schema: tabularSchema(cs)}, generate.AssignSeed)
		if err != nil {
			c.Fail("refused", "%v", err)
			return
		}
		off, lim := c.Rng.Intn(20), 1+c.Rng.Intn(20)
		tr := readAllEntries(&dsio.PagedReader{Reader: g, Offset: off, Limit: lim})
		if tr.err != nil || len(tr.ents) != lim {
			c.Fail("page", "a page of %d generated rows has %d, error %v", lim, len(tr.ents), tr.err)
		}
	})
	// the command: as many rows as asked for, or a failure
	defer func() {
		if dsgenOnce.path != "" {
			os.Remove(dsgenOnce.path)
		}
	}()
	r.Each("command", r.Q(60, 400), func(c *Case) {
		bin, berr := dsgenCommand()
		if berr != "" {
			c.Fail("command-build", "the command does not build: %s", berr)
			return
		}
		rng := c.Rng
		dir, err := ioutil.TempDir(os.Getenv("VMON_SCRATCH"), "vmon26")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		cs := genCols(rng, []string{"string", "number", "integer", "boolean", "object", "array", "null"})
		st := tableStructure(rng, "csv", cs)
		st.Compression = ""
		spath := filepath.Join(dir, "structure.json")
		if err := ioutil.WriteFile(spath, []byte(mustJSON(st)), 0644); err != nil {
			panic(err)
		}
		fixed := rng.Intn(3) == 0
		n := []int{0, 1, 2, 7, 40, 333, 1000, 1025, 2500, 4097, 10007, 500 + rng.Intn(4000)}[rng.Intn(12)]
		what := spath
		if fixed {
			what = "fixed"
		}
		rows := fmt.Sprint(n)
		args := [][]string{{"-rows", rows, what}, {"--rows=" + rows, what}, {what, "--rows", rows}, {what, "-rows=" + rows}, {what}}[rng.Intn(5)]
		if len(args) == 1 {
			n = 1000
		}
		var out bytes.Buffer
		cmd := exec.Command(bin, args...)
		cmd.Stdout = &out
		if err := cmd.Run(); err != nil {
			c.Fail("command", "dsgen %v with structure %s: %v", args, mustJSON(st), err)
			return
		}
		c.Ev("commands")
		c.Distinct("command", mustJSON(st), args)
		if fixed {
			cs = []col{{"uuid", "string"}, {"ingest", "string"}, {"occurred", "string"}, {"raw_data", "string"}}
			st = stale(c.Rng, &dataset.Structure{Format: "csv", FormatConfig: obj{"headerRow": true}, Schema: tabularSchema(cs)})
		}
		tr := readBodyBytes(st, out.Bytes())
		if tr.err != nil || len(tr.ents) != n {
			c.Fail("command-rows", "dsgen %v with structure %s prints %d rows, want %d; reading ends with %v", args, mustJSON(st), len(tr.ents), n, tr.err)
			return
		}
		for i, e := range tr.ents {
			row, ok := e.Value.([]interface{})
			if !ok || len(row) != len(cs) {
				c.Fail("command-rows", "row %d of %d columns is %s", i, len(cs), clipv(e.Value))
				return
			}
			for j, v := range row {
				if fixed && len(fmt.Sprint(v)) == 0 || !fitsType(cs[j].typ, v) {
					c.Fail("command-type:"+cs[j].typ, "dsgen %v: row %d: column %d of type %s reads as %T %v", args, i, j, cs[j].typ, v, v)
					return
				}
			}
		}
		// where nothing can be written, it says so
		if n == 0 && !(fixed || st.FormatConfig["headerRow"] == true) {
			return
		}
		for _, mode := range []string{"full", "closed"} {
			var w *os.File
			if mode == "full" {
				if w, err = os.OpenFile("/dev/full", os.O_WRONLY, 0); err != nil {
					continue
				}
			} else if w, err = os.Open(spath); err != nil { // not writable
				continue
			}
			cmd := exec.Command(bin, args...)
			cmd.Stdout = w
			err := cmd.Run()
			w.Close()
			if err == nil {
				c.Fail("command-fault", "dsgen %v exits successfully with its output %s", args, mode)
				return
			}
			c.Ev("command_faults")
		}
	})
	r.Each("command-refuse", r.Q(12, 60), func(c *Case) {
		bin, berr := dsgenCommand()
		if berr != "" {
			return
		}
		dir, err := ioutil.TempDir(os.Getenv("VMON_SCRATCH"), "vmon26")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		spath := filepath.Join(dir, "structure.json")
		if doc := []string{"", "{", `{"format":"csv"}`, `{"format":"csv","schema":{"type":"object"}}`, "[]"}[c.Rng.Intn(5)]; doc != "" {
			ioutil.WriteFile(spath, []byte(doc), 0644)
		}
		args := [][]string{{spath}, {}, {spath, "-rows", "3"}}[c.Rng.Intn(3)]
		if err := exec.Command(bin, args...).Run(); err == nil {
			c.Fail("command-refuse", "dsgen %v without a structure of a table exits successfully", args)
		}
		c.Ev("refused")
	})
}
