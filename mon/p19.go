package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsstats"
	"github.com/qri-io/qfs"
)

func init() {
	register(&Prop{
		ID:   "C19",
		Rule: "a case is a body of generated entries (uniform and mixed columns, rows of uneven length, objects, nested values, plain values; numbers of all magnitudes and Go types, repeated and unique strings around the frequency limit, long strings), written in every format that holds it; it counts when every figure of every column was compared with an exact recomputation",
		Assume: []string{
			"a column's statistics are of the type of its first value; values of other types are left out, as the package documents by construction",
			"numbers are finite; the median and the unique count are estimates and only bounded",
		},
		Need: map[string]int64{"bodies": 1500, "columns": 5000, "numeric": 1500, "string": 1500, "boolean": 500, "null": 100, "exact_frequencies": 1000, "exact_histograms": 500, "over_limit": 30, "formats": 1000, "repeats": 1500, "refused": 100},
		Run:  runC19,
	})
}

// statNode is the exact model of one accumulator
type statNode struct {
	kind string
	nums []float64
	strs []string
	t, f int
	null int
	arr  []*statNode
	obj  map[string]*statNode
}

func statKind(v interface{}) string {
	switch v.(type) {
	case int, int32, int64, uint64, float32, float64:
		return "numeric"
	case string:
		return "string"
	case bool:
		return "boolean"
	case map[string]interface{}:
		return "object"
	case []interface{}:
		return "array"
	}
	return "null"
}

func (n *statNode) write(v interface{}) {
	if statKind(v) != n.kind {
		return
	}
	switch x := v.(type) {
	case string:
		n.strs = append(n.strs, x)
	case bool:
		if x {
			n.t++
		} else {
			n.f++
		}
	case nil:
		n.null++
	case []interface{}:
		for i, e := range x {
			if i == len(n.arr) {
				n.arr = append(n.arr, &statNode{kind: statKind(e)})
			}
			n.arr[i].write(e)
		}
	case map[string]interface{}:
		if n.obj == nil {
			n.obj = map[string]*statNode{}
		}
		for k, e := range x {
			if n.obj[k] == nil {
				n.obj[k] = &statNode{kind: statKind(e)}
			}
			n.obj[k].write(e)
		}
	default:
		f, _ := toF64(v)
		n.nums = append(n.nums, f)
	}
}

func modelStats(ents []dsio.Entry) *statNode {
	var n *statNode
	for _, e := range ents {
		if n == nil {
			n = &statNode{kind: statKind(e.Value)}
		}
		n.write(e.Value)
	}
	return n
}

func asInt(v interface{}) (int, bool) {
	i, ok := v.(int)
	return i, ok
}

// diffStat compares one reported map with the model
func diffStat(c *Case, path string, n *statNode, m map[string]interface{}, top bool) {
	bad := func(sig, format string, a ...interface{}) {
		c.Fail(sig, "%s (%s): %s\nreported %s", path, n.kind, fmt.Sprintf(format, a...), clipv(m))
	}
	if top {
		if m["type"] != n.kind {
			bad("type", "type is %v", m["type"])
			return
		}
	}
	wantCount := func(k int) bool {
		if g, ok := asInt(m["count"]); !ok || g != k {
			bad("count", "count is %v instead of %d", m["count"], k)
			return false
		}
		return true
	}
	only := func(keys ...string) {
		for k := range m {
			ok := top && (k == "type" || k == "key")
			for _, x := range keys {
				ok = ok || k == x
			}
			if !ok {
				bad("extra", "unexpected figure %q", k)
			}
		}
	}
	c.Ev(n.kind)
	switch n.kind {
	case "null":
		wantCount(n.null)
		only("count")
	case "boolean":
		wantCount(n.t + n.f)
		tc, _ := asInt(m["trueCount"])
		fc, _ := asInt(m["falseCount"])
		if tc != n.t || fc != n.f {
			bad("bool-counts", "true and false counts are %v and %v instead of %d and %d", m["trueCount"], m["falseCount"], n.t, n.f)
		}
		only("count", "trueCount", "falseCount")
	case "numeric":
		if !wantCount(len(n.nums)) || len(n.nums) == 0 {
			return
		}
		only("count", "min", "max", "mean", "median", "histogram")
		min, max, scale := n.nums[0], n.nums[0], 0.0
		sum := new(big.Float).SetPrec(2200)
		dist := map[float64]float64{}
		for _, v := range n.nums {
			min, max = math.Min(min, v), math.Max(max, v)
			scale = math.Max(scale, math.Abs(v))
			sum.Add(sum, new(big.Float).SetFloat64(v))
			dist[v]++
		}
		if m["min"] != min || m["max"] != max {
			bad("min-max", "minimum and maximum are %v and %v instead of %v and %v", m["min"], m["max"], min, max)
		}
		mean, _ := sum.Quo(sum, big.NewFloat(float64(len(n.nums)))).Float64()
		if g, ok := m["mean"].(float64); !ok || math.IsInf(g, 0) || !(math.Abs(g-mean) <= 1e-9*scale) {
			bad("mean", "mean is %v instead of %v", m["mean"], mean)
		}
		if g, ok := m["median"].(float64); ok && !(!math.IsInf(g, 0) && g >= min-1e-9*scale && g <= max+1e-9*scale) {
			bad("median", "median is %v outside of %v..%v", m["median"], min, max)
		}
		h, ok := m["histogram"].(map[string][]float64)
		if !ok {
			bad("histogram", "the histogram is %T", m["histogram"])
			return
		}
		bins, freq := h["bins"], h["frequencies"]
		total := 0.0
		for _, f := range freq {
			if !(f >= 0) {
				bad("histogram", "a frequency is %v", f)
			}
			total += f
		}
		if math.Abs(total-float64(len(n.nums))) > 1e-9*float64(len(n.nums)) {
			bad("histogram", "frequencies sum to %v, the count is %d", total, len(n.nums))
		}
		if len(bins) != len(freq)+1 {
			bad("histogram", "%d bins for %d frequencies", len(bins), len(freq))
			return
		}
		if len(dist) <= int(dsstats.HistogramCentroidCount) {
			c.Ev("exact_histograms")
			ks := make([]float64, 0, len(dist))
			for k := range dist {
				ks = append(ks, k)
			}
			sort.Float64s(ks)
			if len(freq) != len(ks) {
				bad("histogram-exact", "%d distinct values have %d bins", len(ks), len(freq))
				return
			}
			for i, k := range ks {
				if bins[i] != k || freq[i] != dist[k] {
					bad("histogram-exact", "bin %d is %v: %v instead of %v: %v", i, bins[i], freq[i], k, dist[k])
				}
			}
		}
	case "string":
		if !wantCount(len(n.strs)) || len(n.strs) == 0 {
			return
		}
		only("count", "minLength", "maxLength", "unique", "frequencies")
		min, max := len(n.strs[0]), len(n.strs[0])
		dist := map[string]int{}
		for _, s := range n.strs {
			if len(s) < min {
				min = len(s)
			}
			if len(s) > max {
				max = len(s)
			}
			dist[s]++
		}
		if g, ok := asInt(m["minLength"]); !ok || g != min {
			bad("min-length", "minLength is %v instead of %d", m["minLength"], min)
		}
		if g, ok := asInt(m["maxLength"]); !ok || g != max {
			bad("max-length", "maxLength is %v instead of %d", m["maxLength"], max)
		}
		u, _ := asInt(m["unique"])
		if d := math.Abs(float64(u - len(dist))); d > 1+0.03*float64(len(dist)) {
			bad("unique", "unique is %v, there are %d distinct strings", m["unique"], len(dist))
		}
		fr, ok := m["frequencies"].(map[string]int)
		if !ok {
			bad("frequencies", "frequencies are %T", m["frequencies"])
			return
		}
		if len(dist) > dsstats.StopFreqCountThreshold {
			c.Ev("over_limit")
			if len(fr) > dsstats.StopFreqCountThreshold {
				bad("frequencies-limit", "%d frequencies", len(fr))
			}
			for k, v := range fr {
				if _, ok := dist[k]; !ok && len(k) <= 40 {
					bad("frequencies-made-up", "frequency of %q, which is no value", k)
				}
				if v < 1 || v > len(n.strs) {
					bad("frequencies-range", "%q has frequency %d of %d", k, v, len(n.strs))
				}
			}
			return
		}
		c.Ev("exact_frequencies")
		short, long := map[string]int{}, map[string][]int{}
		for k, v := range dist {
			if len(k) <= 40 {
				short[k] = v
			} else {
				p := fmt.Sprintf("%s... %d chars (", k[:40], len(k))
				long[p] = append(long[p], v)
			}
		}
		if len(fr) != len(dist) {
			bad("frequencies", "%d frequencies of %d distinct strings", len(fr), len(dist))
		}
		glong := map[string][]int{}
		for k, v := range fr {
			if w, ok := short[k]; ok {
				if w != v {
					bad("frequencies", "%q has frequency %d instead of %d", k, v, w)
				}
				delete(short, k)
				continue
			}
			i := strings.LastIndex(k, "(")
			glong[k[:i+1]] = append(glong[k[:i+1]], v)
		}
		if len(short) > 0 {
			bad("frequencies", "no frequency of %v", clipv(short))
		}
		for p, l := range long {
			g := glong[p]
			sort.Ints(l)
			sort.Ints(g)
			if fmt.Sprint(l) != fmt.Sprint(g) {
				bad("frequencies-long", "long strings %q have frequencies %v instead of %v", p, g, l)
			}
		}
	case "array":
		vs, ok := m["values"].([]map[string]interface{})
		if !ok || len(vs) != len(n.arr) {
			bad("nested-array", "values are %s for %d elements", clipv(m["values"]), len(n.arr))
			return
		}
		only("values")
		for i, ch := range n.arr {
			diffStat(c, fmt.Sprintf("%s/%d", path, i), ch, vs[i], false)
		}
	case "object":
		keys := []string{}
		for k, ch := range n.obj {
			keys = append(keys, k)
			sub, ok := m[k].(map[string]interface{})
			if !ok {
				bad("nested-object", "no statistics of key %q", k)
				continue
			}
			diffStat(c, path+"/"+k, ch, sub, false)
		}
		only(keys...)
	}
}

func diffStats(c *Case, what string, n *statNode, got []map[string]interface{}) {
	if n == nil {
		if len(got) != 0 {
			c.Fail("empty", "%s: the statistics of an empty body are %s", what, clipv(got))
		}
		return
	}
	var want []*statNode
	var keys []string
	switch n.kind {
	case "array":
		want = n.arr
	case "object":
		for k := range n.obj {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			want = append(want, n.obj[k])
		}
	default:
		want = []*statNode{n}
	}
	if len(got) != len(want) {
		c.Fail("columns", "%s: %d column statistics instead of %d", what, len(got), len(want))
		return
	}
	for i := range want {
		c.Ev("columns")
		if keys != nil && got[i]["key"] != keys[i] {
			c.Fail("keys", "%s: statistics %d are of key %v instead of %q", what, i, got[i]["key"], keys[i])
		}
		diffStat(c, fmt.Sprintf("%s, column %d", what, i), want[i], got[i], true)
	}
}

func statString(r *rand.Rand, pool int) string {
	switch r.Intn(10) {
	case 0:
		return strings.Repeat("p", 39+r.Intn(4))
	case 1:
		return strings.Repeat("long prefix shared by all ", 2) + fmt.Sprint(r.Intn(3)) + strings.Repeat("z", r.Intn(2))
	case 2:
		return genString(r, vopts{noCR: true})
	}
	return fmt.Sprintf("v%d", r.Intn(pool))
}

func statNum(r *rand.Rand, mode int) interface{} {
	switch mode {
	case 0:
		return int64(r.Intn(20))
	case 1:
		return int64(r.Intn(5000) - 2500)
	case 2:
		return genInt(r, true)
	case 3:
		return genFloat(r)
	case 4:
		return -r.Float64() * 1e9
	case 6:
		// sums overflow
		return math.Copysign(math.MaxFloat64/(1+r.Float64()*3), float64(r.Intn(4))-0.5)
	case 7:
		return []interface{}{math.MaxFloat64, -math.MaxFloat64, 1e308, uint64(math.MaxUint64), int64(math.MinInt64), 1.5e308}[r.Intn(6)]
	}
	return math.Ldexp(r.Float64()-0.5, r.Intn(200)-100)
}

// statValue makes a value of a kind; nested objects avoid the names the output
// format uses itself
func statValue(r *rand.Rand, kind string, pool, mode, depth int) interface{} {
	switch kind {
	case "numeric":
		return statNum(r, mode)
	case "string":
		return statString(r, pool)
	case "boolean":
		return r.Intn(3) == 0
	case "null":
		return nil
	case "array":
		a := arr{}
		n := r.Intn(4)
		if r.Intn(40) == 0 {
			n = 4 + r.Intn(40)
		}
		for i := n; i > 0; i-- {
			a = append(a, statValue(r, []string{"numeric", "string", "boolean", "null"}[(i+r.Intn(2))%4], pool, mode, depth-1))
		}
		return a
	default:
		m := obj{}
		n := r.Intn(4)
		if r.Intn(40) == 0 {
			n = 4 + r.Intn(40)
		}
		for i := n; i > 0; i-- {
			k := []string{"a", "b", "c c", "value", "count", "Ü"}[r.Intn(6)]
			if n > 3 {
				k += strconv.Itoa(i)
			}
			m[k] = statValue(r, []string{"numeric", "string", "boolean", "object"}[r.Intn(3+depth%2)], pool, mode, depth-1)
		}
		return m
	}
}

func runC19(r *Run) {
	kinds := []string{"numeric", "numeric", "string", "string", "boolean", "null", "array", "object"}
	type colGen struct {
		kind       string
		pool, mode int
		mixed      bool
	}
	genColsS := func(c *Case) []colGen {
		w := 1 + c.Rng.Intn(5)
		if c.Rng.Intn(20) == 0 {
			w = []int{6, 10, 17, 33, 65, 130, 260}[c.Rng.Intn(7)]
		}
		g := make([]colGen, w)
		for i := range g {
			g[i] = colGen{kinds[c.Rng.Intn(len(kinds))], []int{3, 20, 150, 100000}[c.Rng.Intn(4)], c.Rng.Intn(8), c.Rng.Intn(4) == 0}
		}
		return g
	}
	rows := func(c *Case, g []colGen, n int, uneven bool) arr {
		out := make(arr, n)
		for i := range out {
			m := len(g)
			if uneven && c.Rng.Intn(4) == 0 {
				m = c.Rng.Intn(len(g) + 1)
			}
			row := make(arr, m)
			for j := range row {
				k := g[j].kind
				if g[j].mixed && c.Rng.Intn(3) == 0 {
					k = kinds[c.Rng.Intn(len(kinds))]
				}
				row[j] = statValue(c.Rng, k, g[j].pool, g[j].mode, 2)
			}
			out[i] = row
		}
		return out
	}
	accumulate := func(c *Case, what string, ents []dsio.Entry) {
		n := modelStats(ents)
		st := stale(c.Rng, &dataset.Structure{Format: "json", Schema: obj{"type": "array"}})
		acc := dsstats.NewAccumulator(st)
		for i, e := range ents {
			before := ""
			if i < 20 {
				before = dump(e.Value)
			}
			if err := acc.WriteEntry(e); err != nil {
				c.Fail("write", "%s: entry %d: %v", what, i, err)
			}
			if i < 20 && dump(e.Value) != before {
				c.Fail("entry-changed", "%s: entry %d was modified", what, i)
			}
		}
		if acc.Structure() != st {
			c.Fail("structure", "the accumulator's structure is not the one given")
		}
		for k := 1 + c.Rng.Intn(3); k > 0; k-- {
			if err := acc.Close(); err != nil {
				c.Fail("close", "%v", err)
			}
		}
		got := dsstats.ToMap(acc)
		diffStats(c, what, n, got)
		if _, err := json.Marshal(got); err != nil {
			c.Fail("encode", "%s: the statistics of finite values cannot be encoded: %v", what, err)
		}
		first := dump(got)
		acc.Close()
		if again := dump(dsstats.ToMap(acc)); again != first {
			c.Fail("repeat", "%s: reading and closing again changes the result: %s", what, firstDiff(first, again))
		}
		c.Ev("repeats")
		c.Ev("bodies")
	}
	r.Each("rows", r.Q(2000, 20000), func(c *Case) {
		n := c.Rng.Intn(60)
		if c.Rng.Intn(10) == 0 {
			n = 300 + c.Rng.Intn(1500)
		}
		g := genColsS(c)
		if len(g) > 5 && n > 60 {
			n = 20
		}
		data := rows(c, g, n, c.Rng.Intn(3) == 0)
		c.Distinct(fmt.Sprint(data))
		c.Sample("%d rows: %s", n, clipv(data))
		accumulate(c, "rows", entriesArr(data))
	})
	// one column for long: counters and records have no end
	r.Each("long", r.Q(8, 40), func(c *Case) {
		n := []int{1 << 16, 1<<16 + 1 + c.Rng.Intn(9), 1<<15 + 1, 1<<17 + 3, 100001}[c.Rng.Intn(5)]
		kind := []string{"null", "boolean", "numeric", "string", "null", "boolean", "numeric", "array"}[c.Idx%8]
		g := []colGen{{kind, []int{3, 20, 150}[c.Rng.Intn(3)], c.Rng.Intn(8), c.Rng.Intn(4) == 0}}
		if c.Rng.Intn(3) == 0 {
			g[0].mixed = true
		}
		data := rows(c, g, n, false)
		if c.Rng.Intn(2) == 0 {
			for i, row := range data {
				data[i] = row.(arr)[0]
			}
		}
		c.Distinct(kind, n, g[0])
		c.Ev("long_bodies")
		accumulate(c, "long", entriesArr(data))
	})
	r.Each("objects", r.Q(800, 10000), func(c *Case) {
		g := genColsS(c)
		n := c.Rng.Intn(60)
		if len(g) > 5 {
			n = c.Rng.Intn(20)
		}
		key := func(j int) string {
			if j < 5 {
				return []string{"b", "a", "zz", "A", "10"}[j]
			}
			return fmt.Sprintf("k%d", j*7919%1000)
		}
		data := arr{}
		for _, row := range rows(c, g, n, false) {
			m := obj{}
			for j, v := range row.(arr) {
				if c.Rng.Intn(6) > 0 {
					m[key(j)] = v
				}
			}
			data = append(data, m)
		}
		c.Distinct(fmt.Sprint(data))
		accumulate(c, "objects", entriesArr(data))
	})
	r.Each("plain", r.Q(800, 10000), func(c *Case) {
		g := genColsS(c)[:1]
		data := arr{}
		for _, row := range rows(c, g, c.Rng.Intn(300), false) {
			data = append(data, row.(arr)[0])
		}
		if len(data) > 0 && c.Rng.Intn(3) == 0 && statKind(data[0]) == "numeric" {
			// every Go number type
			for i := range data {
				f, ok := toF64(data[i])
				if !ok || f != math.Trunc(f) || math.Abs(f) > 1000 {
					continue
				}
				switch c.Rng.Intn(6) {
				case 0:
					data[i] = int(f)
				case 1:
					data[i] = int32(f)
				case 2:
					data[i] = float32(f)
				case 3:
					if f >= 0 {
						data[i] = uint64(f)
					}
				case 4:
					data[i] = f
				}
			}
		}
		c.Distinct(fmt.Sprint(data))
		accumulate(c, "plain", entriesArr(data))
	})

	// through bodies in every format
	r.Each("bodies", r.Q(600, 6000), func(c *Case) {
		types := []string{"string", "number", "integer", "boolean", "null"}
		cs := genCols(c.Rng, types)
		if len(cs) > 8 {
			cs = cs[:8]
		}
		n := c.Rng.Intn(40)
		if c.Rng.Intn(12) == 0 {
			n = 1000
		}
		data := make(arr, n)
		for i := range data {
			row := make(arr, len(cs))
			for j := range row {
				switch cs[j].typ {
				case "string":
					row[j] = xmlClean(statString(c.Rng, 50))
				case "number":
					row[j] = 0.5 + float64(c.Rng.Intn(100))
				case "integer":
					row[j] = int64(c.Rng.Intn(1000) - 500)
				case "boolean":
					row[j] = c.Rng.Intn(2) == 0
				}
			}
			data[i] = row
		}
		model := modelStats(entriesArr(data))
		c.Distinct(fmt.Sprint(data))
		for _, f := range []string{"json", "ndjson", "cbor", "csv", "xlsx"} {
			if f == "xlsx" && (c.Idx%6 != 0 || n > 100) {
				continue
			}
			st := tableStructure(c.Rng, f, cs)
			b, err := writeBody(st, entriesArr(data))
			if err != nil {
				c.Fail("harness-write:"+f, "writing the body: %v", err)
				continue
			}
			ds := &dataset.Dataset{Structure: st, Name: "n"}
			before := dump(ds)
			ds.SetBodyFile(qfs.NewMemfileBytes(st.BodyFilename(), b))
			sa, err := dsstats.Calculate(ds)
			if err != nil {
				c.Fail("calculate:"+f, "%v", err)
				continue
			}
			got, ok := sa.Stats.([]map[string]interface{})
			if !ok && sa.Stats != nil {
				c.Fail("calculate:"+f, "statistics are %T", sa.Stats)
				continue
			}
			if sa.Qri != "sa:0" {
				c.Fail("kind", "the statistics are of kind %q", sa.Qri)
			}
			diffStats(c, f+" body compressed "+st.Compression, model, got)
			ds.SetBodyFile(nil)
			if a := dump(ds); a != before {
				c.Fail("dataset-changed", "calculating statistics changed the dataset: %s", firstDiff(before, a))
			}
			c.Ev("formats")
			c.Ev("bodies")
		}
	})
	// failures give no statistics
	r.Each("refuse", r.Q(300, 3000), func(c *Case) {
		c.Ev("refused")
		st := stale(c.Rng, &dataset.Structure{Format: "json", Schema: obj{"type": "array"}})
		b := []byte("[[1,2],[3,4],[5,6]]")
		switch c.Rng.Intn(5) {
		case 0:
			ds := &dataset.Dataset{Structure: st}
			if sa, err := dsstats.Calculate(ds); err == nil {
				c.Fail("no-body", "a dataset without a body has statistics %v", sa)
			}
		case 1:
			ds := &dataset.Dataset{}
			ds.SetBodyFile(qfs.NewMemfileBytes("body.json", b))
			if sa, err := dsstats.Calculate(ds); err == nil {
				c.Fail("no-structure", "a dataset without a structure has statistics %v", sa)
			}
		case 2:
			ds := &dataset.Dataset{Structure: &dataset.Structure{Format: []string{"", "xml", "nope"}[c.Rng.Intn(3)], Schema: obj{"type": "array"}}}
			ds.SetBodyFile(qfs.NewMemfileBytes("body", b))
			if sa, err := dsstats.Calculate(ds); err == nil {
				c.Fail("bad-format", "an unknown format has statistics %v", sa)
			}
		case 3:
			ds := &dataset.Dataset{Structure: st}
			ds.SetBodyFile(qfs.NewMemfileBytes("body.json", b[:1+c.Rng.Intn(len(b)-1)]))
			if sa, err := dsstats.Calculate(ds); err == nil {
				c.Fail("truncated", "a truncated body has statistics %v", sa)
			}
		default:
			ds := &dataset.Dataset{Structure: st}
			ds.SetBodyFile(faultFile{name: "body.json", Reader: &faultReader{data: b, at: c.Rng.Intn(len(b)), chunk: 3, then: c.Rng.Intn(2)}})
			if sa, err := dsstats.Calculate(ds); err == nil {
				c.Fail("failing", "a failing body has statistics %v", sa)
			}
		}
	})
}
