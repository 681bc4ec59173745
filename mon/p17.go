package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/qri-io/dataset/vals"
)

func init() {
	register(&Prop{
		ID:     "C17",
		Rule:   "texts spelled from a known value of each type, and near misses, are inferred, parsed and printed; nested values are converted from Go values of every accepted width and from JSON text in random spelling, walked, re-encoded and compared; equality is checked on pairs and triples that differ in nothing, one leaf, one key, a length or only in how they were made; comparison on triples of texts against exact arithmetic; non-trivial: distinct texts and values",
		Assume: []string{"integers within 64 bits", "no NaN"},
		Need:   map[string]int64{"texts": 5000, "others": 5000, "near_misses": 500, "converted": 1500, "decoded": 1500, "refused_json": 300, "equal_pairs": 2000, "unequal_pairs": 1500, "triples": 2000, "compares": 5000},
		Run:    runC17,
	})
}

var valTypes = map[string]vals.Type{"string": vals.TypeString, "integer": vals.TypeInteger, "number": vals.TypeNumber, "boolean": vals.TypeBoolean, "null": vals.TypeNull, "object": vals.TypeObject, "array": vals.TypeArray}

// diffTyped compares a typed value with the plain one it stands for. Integers
// are int64 (or another integer width) and numbers float64 in the plain one
func diffTyped(path string, want interface{}, got vals.Value) string {
	if got == nil {
		return path + ": no value"
	}
	typ := func(t vals.Type) string {
		if got.Type() != t {
			return fmt.Sprintf("%s: want %s %s, got %s", path, t, clipv(want), got.Type())
		}
		return ""
	}
	switch w := want.(type) {
	case nil:
		if s := typ(vals.TypeNull); s != "" {
			return s
		}
		if !got.IsNull() {
			return path + ": null value is not null"
		}
	case bool:
		if s := typ(vals.TypeBoolean); s != "" {
			return s
		}
		if got.Boolean() != w {
			return fmt.Sprintf("%s: want %v, got %v", path, w, got.Boolean())
		}
	case string:
		if s := typ(vals.TypeString); s != "" {
			return s
		}
		if got.String() != w {
			return fmt.Sprintf("%s: want %q, got %q", path, clipv(w), clipv(got.String()))
		}
	case float64:
		if s := typ(vals.TypeNumber); s != "" {
			return s
		}
		if got.Number() != w {
			return fmt.Sprintf("%s: want %v, got %v", path, w, got.Number())
		}
	case int64, int, int32, uint8, uint16, uint32, uint64:
		if s := typ(vals.TypeInteger); s != "" {
			return s
		}
		if fmt.Sprint(got.Integer()) != fmt.Sprint(w) {
			return fmt.Sprintf("%s: want %v, got %v", path, w, got.Integer())
		}
	case []interface{}:
		if s := typ(vals.TypeArray); s != "" {
			return s
		}
		if got.Len() != len(w) {
			return fmt.Sprintf("%s: want %d elements, got %d", path, len(w), got.Len())
		}
		for i := range w {
			if s := diffTyped(fmt.Sprintf("%s/%d", path, i), w[i], got.Index(i)); s != "" {
				return s
			}
		}
	case map[string]interface{}:
		if s := typ(vals.TypeObject); s != "" {
			return s
		}
		ks := got.Keys()
		if len(ks) != len(w) {
			return fmt.Sprintf("%s: want %d keys, got %d", path, len(w), len(ks))
		}
		for _, k := range ks {
			e, ok := w[k]
			if !ok {
				return fmt.Sprintf("%s: unexpected key %q", path, k)
			}
			if s := diffTyped(path+"/"+k, e, got.MapIndex(k)); s != "" {
				return s
			}
		}
	default:
		return fmt.Sprintf("%s: harness: %T", path, want)
	}
	if _, isNull := want.(interface{}); isNull && want != nil && got.IsNull() {
		return path + ": value that is not null says it is"
	}
	return ""
}

// widen gives integers in a value other Go types that hold them, and maps
// other key types
func widen(r *rand.Rand, v interface{}) interface{} {
	switch x := v.(type) {
	case int64:
		switch k := r.Intn(7); {
		case k == 0 && x >= 0 && x < 256:
			return uint8(x)
		case k <= 1 && x >= 0 && x < 65536:
			return uint16(x)
		case k <= 2 && x >= 0 && x <= math.MaxUint32:
			return uint32(x)
		case k <= 3 && x >= 0:
			return uint64(x)
		case k <= 4 && x >= math.MinInt32 && x <= math.MaxInt32:
			return int32(x)
		case k <= 5:
			return int(x)
		}
		return x
	case []interface{}:
		out := make([]interface{}, len(x))
		for i := range x {
			out[i] = widen(r, x[i])
		}
		return out
	case map[string]interface{}:
		if r.Intn(2) == 0 {
			out := map[interface{}]interface{}{}
			for k, e := range x {
				out[k] = widen(r, e)
			}
			return out
		}
		out := map[string]interface{}{}
		for k, e := range x {
			out[k] = widen(r, e)
		}
		return out
	}
	return v
}

// typedOf makes a typed value by hand, with or without pointers
func typedOf(r *rand.Rand, v interface{}) vals.Value {
	switch x := v.(type) {
	case nil:
		n := vals.Null(true)
		if r.Intn(2) == 0 {
			return &n
		}
		return n
	case bool:
		n := vals.Boolean(x)
		if r.Intn(2) == 0 {
			return &n
		}
		return n
	case string:
		n := vals.String(x)
		if r.Intn(2) == 0 {
			return &n
		}
		return n
	case float64:
		n := vals.Number(x)
		if r.Intn(2) == 0 {
			return &n
		}
		return n
	case int64:
		n := vals.Integer(x)
		if r.Intn(2) == 0 {
			return &n
		}
		return n
	case []interface{}:
		n := make(vals.Array, len(x))
		for i := range x {
			n[i] = typedOf(r, x[i])
		}
		if r.Intn(2) == 0 {
			return &n
		}
		return n
	case map[string]interface{}:
		n := vals.Object{}
		for k, e := range x {
			n[k] = typedOf(r, e)
			if r.Intn(6) == 0 {
				n[k] = vals.NewObjectValue(k, n[k])
			}
		}
		if r.Intn(2) == 0 {
			return &n
		}
		return n
	}
	panic(fmt.Sprintf("%T", v))
}

// plainEqual says whether two plain values have the same type and content
func plainEqual(a, b interface{}) bool {
	switch x := a.(type) {
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !plainEqual(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, e := range x {
			f, ok := y[k]
			if !ok || !plainEqual(e, f) {
				return false
			}
		}
		return true
	}
	switch b.(type) {
	case []interface{}, map[string]interface{}:
		return false
	}
	return a == b
}

// nudge makes one small change somewhere in a value
func nudge(r *rand.Rand, v interface{}) interface{} {
	switch x := v.(type) {
	case nil:
		return []interface{}{false, int64(0), "", "null"}[r.Intn(4)]
	case bool:
		return []interface{}{!x, fmt.Sprint(x), nil}[r.Intn(3)]
	case string:
		return []interface{}{x + "x", x + " ", strings.ToUpper(x) + "y", nil}[r.Intn(4)]
	case float64:
		return []interface{}{math.Nextafter(x, 0) + 1, -x - 1, fmt.Sprint(x), math.Nextafter(x, math.Inf(1))}[r.Intn(4)]
	case int64:
		return []interface{}{x ^ 1, float64(x), strconv.FormatInt(x, 10), x ^ (1 << 40)}[r.Intn(4)]
	case []interface{}:
		out := append([]interface{}{}, x...)
		switch k := r.Intn(5); {
		case len(out) > 0 && k <= 1:
			i := r.Intn(len(out))
			out[i] = nudge(r, out[i])
		case len(out) > 0 && k == 2:
			out = out[:len(out)-1]
		case len(out) > 1 && k == 3:
			i := r.Intn(len(out) - 1)
			out[i], out[i+1] = out[i+1], out[i]
		case len(out) == 0 && k == 4:
			return map[string]interface{}{}
		default:
			out = append(out, nil)
		}
		return out
	case map[string]interface{}:
		out := map[string]interface{}{}
		ks := []string{}
		for k, e := range x {
			out[k] = e
			ks = append(ks, k)
		}
		sort.Strings(ks)
		switch k := r.Intn(5); {
		case len(ks) > 0 && k <= 1:
			key := ks[r.Intn(len(ks))]
			out[key] = nudge(r, out[key])
		case len(ks) > 0 && k == 2:
			delete(out, ks[r.Intn(len(ks))])
		case len(ks) > 0 && k == 3:
			// the same value under another key
			key := ks[r.Intn(len(ks))]
			out[key+"'"] = out[key]
			delete(out, key)
		case len(ks) == 0 && k == 4:
			return []interface{}{}
		default:
			out["new"] = nil
		}
		return out
	}
	panic(fmt.Sprintf("%T", v))
}

// fracNums moves whole floats off whole values, so that their JSON spelling
// stays a number
func fracNums(v interface{}) interface{} {
	switch x := v.(type) {
	case float64:
		if x == math.Trunc(x) {
			if math.Abs(x) > 1e15 {
				return 1e300
			}
			return x + 0.5
		}
	case []interface{}:
		for i := range x {
			x[i] = fracNums(x[i])
		}
	case map[string]interface{}:
		for k := range x {
			x[k] = fracNums(x[k])
		}
	}
	return v
}

func gen17(r *rand.Rand) interface{} {
	if r.Intn(1500) == 0 {
		n := []int{1023, 1025, 4097, 20000}[r.Intn(4)]
		if r.Intn(3) == 0 {
			m := map[string]interface{}{}
			for i := 0; i < n; i++ {
				m[fmt.Sprintf("k%d", i)] = fracNums(genValue(r, vopts{maxDepth: 0}))
			}
			return m
		}
		l := make([]interface{}, n)
		for i := range l {
			if r.Intn(2) == 0 {
				l[i] = fracNums(genValue(r, vopts{maxDepth: 0}))
			}
		}
		return l
	}
	return fracNums(deepCopy(genValue(r, vopts{maxDepth: 1 + r.Intn(3)})))
}

func runC17(r *Run) {
	r.Each("texts", r.Q(60000, 1000000), func(c *Case) {
		rng := c.Rng
		want := textTypes[c.Idx%len(textTypes)]
		text := typedText(rng, want)
		if (want == "object" || want == "array") && rng.Intn(4) == 0 {
			text = strings.Repeat(" ", rng.Intn(3)) + strings.Repeat("\n", rng.Intn(2)) + text + strings.Repeat(" ", rng.Intn(2))
		}
		if want == "number" && rng.Intn(6) == 0 {
			text = []string{"1.7976931348623157e308", "5e-324", "-0.0", "0.1", "1e+5", "1E5", "123456789.123456789", "0e0", "3.4028236e38", "1e39", "-1e-50"}[rng.Intn(11)]
		}
		if want == "integer" && rng.Intn(6) == 0 {
			text = []string{"9223372036854775807", "-9223372036854775808", "0", "-1", "9007199254740993", "-0", "2147483648", "16777217"}[rng.Intn(8)]
		}
		b := []byte(text)
		keep := append([]byte(nil), b...)
		got := vals.ParseType(b)
		if got != valTypes[want] {
			c.Fail("infer:"+want, "%q is inferred to be %s, not %s", text, got, want)
			return
		}
		for _, p := range []struct {
			name string
			got  bool
			on   string
		}{{"IsInteger", vals.IsInteger(b), "integer"}, {"IsFloat", vals.IsFloat(b), "integer number"}, {"IsBoolean", vals.IsBoolean(b), "boolean"}} {
			if p.got != strings.Contains(p.on, want) {
				c.Fail("predicate:"+p.name, "%s(%q) is %v", p.name, text, p.got)
				return
			}
		}
		v, err := got.Parse(b)
		if err != nil {
			c.Fail("parse:"+want, "%q does not parse as the %s it is inferred to be: %v", text, want, err)
			return
		}
		ok := false
		switch want {
		case "integer":
			i, is := v.(int64)
			e, _ := new(big.Int).SetString(text, 10)
			ok = is && e.IsInt64() && e.Int64() == i
		case "number":
			f, is := v.(float64)
			e, _, perr := big.ParseFloat(text, 10, 2000, big.ToNearestEven)
			if perr == nil {
				g, _ := e.Float64()
				ok = is && g == f
			}
		case "boolean":
			x, is := v.(bool)
			ok = is && x == (text[0] == 't' || text[0] == 'T')
		case "null":
			ok = v == nil
		case "string":
			s, is := v.(string)
			ok = is && s == text
		default:
			var e interface{}
			ok = json.Unmarshal(b, &e) == nil && dump(e) == dump(v)
		}
		if !ok {
			c.Fail("value:"+want, "%q parses as %T %s", text, v, clipv(v))
			return
		}
		s, err := got.ValueToString(v)
		if err != nil {
			c.Fail("print:"+want, "the value %s of %q cannot be printed: %v", clipv(v), text, err)
			return
		}
		sb, err := got.ValueToBytes(v)
		if err != nil || string(sb) != s {
			c.Fail("print:"+want, "the value %s of %q prints as %q and as bytes %q (%v)", clipv(v), text, s, sb, err)
			return
		}
		v2, err := got.Parse([]byte(s))
		if err != nil || dump(v2) != dump(v) {
			c.Fail("reparse:"+want, "the value %s of %q prints as %q, which parses as %s (%v)", clipv(v), text, s, clipv(v2), err)
			return
		}
		if j := vals.JSONArrayOrObject(b); (want == "object" || want == "array") && j != want {
			c.Fail("container", "JSONArrayOrObject(%q) is %q", text, j)
			return
		}
		if !bytes.Equal(b, keep) {
			c.Fail("input-changed", "%q changed to %q", keep, b)
			return
		}
		c.Ev("texts")
		c.Distinct("text", text)
		c.Sample("%q is %s, printed %q", text, got, s)
	})

	// a text does not parse as a type it does not spell, and other types' values
	// are not printed
	// short text of significant characters, that spells nothing even when the
	// spelling is taken loosely
	r.Each("other", r.Q(30000, 500000), func(c *Case) {
		rng := c.Rng
		alpha := `:;,.{}[]"'tfnu01 e-+_x/\` + "\t\n\r\v\x00\x7f\xc3\xa9"
		b := make([]byte, 1+rng.Intn(6))
		for i := range b {
			b[i] = alpha[rng.Intn(len(alpha))]
		}
		if !utf8.Valid(b) {
			return
		}
		t := strings.TrimSpace(string(b))
		if _, err := strconv.ParseFloat(t, 64); err == nil {
			return
		}
		if _, err := strconv.ParseBool(t); err == nil {
			return
		}
		if t == "null" || strings.IndexAny(t, "{[") == 0 {
			return
		}
		c.Distinct("other", b)
		c.Ev("others")
		if got := vals.ParseType(b); got != vals.TypeString {
			c.Fail("infer:other", "%q is inferred to be %s", b, got)
		}
		if vals.IsInteger(b) || vals.IsFloat(b) || vals.IsBoolean(b) {
			c.Fail("predicate:other", "%q: integer %v, float %v, boolean %v", b, vals.IsInteger(b), vals.IsFloat(b), vals.IsBoolean(b))
		}
	})
	r.Each("mismatch", r.Q(1500, 20000), func(c *Case) {
		rng := c.Rng
		as := textTypes[rng.Intn(len(textTypes))]
		is := textTypes[rng.Intn(len(textTypes))]
		text := typedText(rng, is)
		if as == "string" || as == is || as == "number" && is == "integer" || as == "boolean" && (text == "0" || text == "1") || as == "integer" && is == "number" || as == "array" && is == "object" || as == "object" && is == "array" {
			return
		}
		v, err := valTypes[as].Parse([]byte(text))
		if err == nil && !(as == "object" && is == "null") {
			c.Fail("mismatch:"+as, "the %s %q parses as %s: %s", is, text, as, clipv(v))
			return
		}
		val, err := valTypes[is].Parse([]byte(text))
		if err == nil && as != "object" && as != "array" {
			if s, err := valTypes[as].ValueToString(val); err == nil {
				c.Fail("mismatch-print:"+as, "the %s %q is printed as a %s: %q", is, text, as, s)
				return
			}
		}
		if _, err := vals.TypeUnknown.Parse([]byte(text)); err == nil {
			c.Fail("unknown", "%q parses as no type", text)
		}
		c.Ev("near_misses")
		c.Distinct("mismatch", as, text)
	})

	r.Each("types", 1, func(c *Case) {
		for name, t := range valTypes {
			if t.String() != name || vals.TypeFromString(name) != t {
				c.Fail("type-name", "type %q is named %q and found as %v", name, t, vals.TypeFromString(name))
			}
			b, err := json.Marshal(t)
			if err != nil || string(b) != `"`+name+`"` {
				c.Fail("type-json", "type %q encodes as %s (%v)", name, b, err)
			}
			var u vals.Type
			if err := json.Unmarshal(b, &u); err != nil || u != t {
				c.Fail("type-json", "type %q decodes as %v (%v)", name, u, err)
			}
		}
		for _, bad := range []string{"", "x", "String", "int", "bytes"} {
			if vals.TypeFromString(bad) != vals.TypeUnknown {
				c.Fail("type-name", "%q is a type", bad)
			}
			var u vals.Type
			if err := json.Unmarshal([]byte(`"`+bad+`"`), &u); err == nil {
				c.Fail("type-json", "%q decodes as a type", bad)
			}
		}
	})

	r.Each("convert", r.Q(15000, 300000), func(c *Case) {
		rng := c.Rng
		v := gen17(rng)
		in := widen(rng, v)
		pre := dump(in)
		got, err := vals.ConvertDecoded(in)
		if err != nil {
			c.Fail("convert", "%s is refused: %v", clipv(in), err)
			return
		}
		if s := diffTyped("", v, got); s != "" {
			c.Fail("convert", "converted from Go values: %s", s)
			return
		}
		if after := dump(in); after != pre {
			c.Fail("input-changed", "converting changed its input: %s", firstDiff(pre, after))
			return
		}
		b, err := json.Marshal(got)
		if err != nil {
			c.Fail("encode", "typed value does not encode: %v", err)
			return
		}
		back, err := refJSON(b)
		if err != nil {
			c.Fail("encode", "typed value encodes as invalid JSON %s: %v", quoteClip(b), err)
			return
		}
		if s := diffVal("", v, back, eqOpts{}); s != "" {
			c.Fail("encode", "typed value encodes as %s: %s", quoteClip(b), s)
			return
		}
		again, err := vals.UnmarshalJSON(b)
		if err != nil {
			c.Fail("decode", "encoded typed value %s does not decode: %v", quoteClip(b), err)
			return
		}
		if s := diffTyped("", v, again); s != "" {
			c.Fail("decode", "typed value after encoding and decoding: %s", s)
			return
		}
		if !vals.Equal(got, again) || !vals.Equal(again, got) {
			c.Fail("equal", "a value is not equal to itself encoded and decoded: %s", quoteClip(b))
			return
		}
		c.Ev("converted")
		c.Distinct("convert", b)
	})

	r.Each("unconvertible", r.Q(200, 2000), func(c *Case) {
		rng := c.Rng
		var bad interface{} = struct{}{}
		switch rng.Intn(6) {
		case 4:
			// too large for an integer value
			bad = uint64(1)<<63 + uint64(rng.Int63n(1<<uint(rng.Intn(63))))
		case 5:
			bad = uint64(math.MaxUint64) - uint64(rng.Intn(3))
		case 0:
			bad = make(chan int)
		case 1:
			bad = map[interface{}]interface{}{5: "x"}
		case 2:
			bad = func() {}
		}
		for i := rng.Intn(4); i > 0; i-- {
			if rng.Intn(2) == 0 {
				bad = []interface{}{int64(1), bad, "x"}
			} else {
				bad = map[string]interface{}{"a": "x", "b": bad}
			}
		}
		if v, err := vals.ConvertDecoded(bad); err == nil {
			c.Fail("convert-accepted", "%T converted to %v", bad, v)
			return
		}
		c.Ev("near_misses")
	})

	r.Each("decode", r.Q(15000, 300000), func(c *Case) {
		rng := c.Rng
		v := gen17(rng)
		var b bytes.Buffer
		s := &jsonStyle{r: rng, ws: []int{0, 1, 3}[rng.Intn(3)], escapes: true}
		s.space(&b)
		s.val(&b, v)
		s.space(&b)
		keep := b.String()
		got, err := vals.UnmarshalJSON(b.Bytes())
		if err != nil {
			c.Fail("decode", "%s is refused: %v", quoteClip(b.Bytes()), err)
			return
		}
		if s := diffTyped("", v, got); s != "" {
			c.Fail("decode", "decoded from %s: %s", quoteClip(b.Bytes()), s)
			return
		}
		if b.String() != keep {
			c.Fail("input-changed", "decoding changed its input")
			return
		}
		c.Ev("decoded")
		c.Distinct("decode", b.Bytes())
		// damaged text is refused, or decoded as what it now spells
		m := mutate(rng, b.Bytes())
		e, rerr := refJSON(m)
		got, err = vals.UnmarshalJSON(m)
		if rerr != nil {
			if err == nil && !json.Valid(m) {
				c.Fail("decode-accepted", "invalid JSON %s is decoded", quoteClip(m))
				return
			}
			c.Ev("refused_json")
		} else if err == nil && got != nil {
			bb, merr := json.Marshal(got)
			if merr != nil {
				c.Fail("encode", "typed value decoded from %s does not encode: %v", quoteClip(m), merr)
				return
			}
			x, _ := refJSON(bb)
			if s := diffVal("", e, x, eqOpts{}); s != "" {
				c.Fail("decode", "decoded from %s: %s", quoteClip(m), s)
				return
			}
		}
	})

	r.Each("equal", r.Q(25000, 400000), func(c *Case) {
		rng := c.Rng
		a := gen17(rng)
		pick := func(v interface{}) interface{} {
			switch rng.Intn(4) {
			case 0:
				return deepCopy(v)
			case 1:
				return nudge(rng, deepCopy(v))
			case 2:
				return gen17(rng)
			}
			return v
		}
		b := pick(a)
		d := pick(b)
		mk := func(v interface{}) vals.Value {
			if rng.Intn(3) == 0 {
				t, err := vals.ConvertDecoded(v)
				if err != nil {
					panic(err)
				}
				return t
			}
			return typedOf(rng, v)
		}
		ps := []interface{}{a, b, d}
		ts := []vals.Value{mk(a), mk(b), mk(d)}
		var m [3][3]bool
		for i := range ts {
			for j := range ts {
				m[i][j] = vals.Equal(ts[i], ts[j])
				want := plainEqual(ps[i], ps[j])
				if m[i][j] != want {
					c.Fail("equal", "Equal is %v for %s and %s", m[i][j], clipv(ps[i]), clipv(ps[j]))
					return
				}
				if i != j {
					if want {
						c.Ev("equal_pairs")
					} else {
						c.Ev("unequal_pairs")
					}
				}
			}
		}
		for i := range ts {
			if vals.Equal(ts[i], nil) || vals.Equal(nil, ts[i]) {
				c.Fail("equal-nil", "%s equals no value", clipv(ps[i]))
				return
			}
		}
		c.Ev("triples")
		c.Distinct("equal", dump(ps))
	})

	r.Each("compare", r.Q(25000, 400000), func(c *Case) {
		rng := c.Rng
		typ := []string{"string", "integer", "number"}[c.Idx%3]
		var xs [3]string
		for i := range xs {
			if i > 0 && rng.Intn(3) == 0 {
				xs[i] = xs[rng.Intn(i)]
				if typ != "string" && rng.Intn(2) == 0 && xs[i] != "" {
					// close to it
					if v, err := strconv.ParseInt(xs[i], 10, 64); err == nil && v < math.MaxInt64 && typ == "integer" {
						xs[i] = strconv.FormatInt(v+1, 10)
					} else if typ == "number" && !strings.ContainsAny(xs[i], "eE") {
						xs[i] += "0"
						if !strings.Contains(xs[i], ".") {
							xs[i] = xs[i][:len(xs[i])-1] + ".0"
						}
					}
				}
				continue
			}
			switch {
			case rng.Intn(12) == 0:
				xs[i] = ""
			case typ == "string":
				xs[i] = genString(rng, vopts{})
			case typ == "number" && rng.Intn(2) == 0:
				xs[i] = typedText(rng, "integer")
			default:
				xs[i] = typedText(rng, typ)
			}
		}
		cmp := func(a, b string) int {
			switch {
			case a == "" || b == "":
				return strings.Compare(a, b)
			case typ == "string":
				return strings.Compare(a, b)
			case typ == "integer":
				x, _ := strconv.ParseInt(a, 10, 64)
				y, _ := strconv.ParseInt(b, 10, 64)
				return big.NewInt(x).Cmp(big.NewInt(y))
			}
			x, _ := strconv.ParseFloat(a, 64)
			y, _ := strconv.ParseFloat(b, 64)
			return big.NewFloat(x).Cmp(big.NewFloat(y))
		}
		for i := range xs {
			for j := range xs {
				n, err := vals.CompareTypeBytes([]byte(xs[i]), []byte(xs[j]), valTypes[typ])
				if err != nil {
					c.Fail("compare:"+typ, "%q and %q cannot be compared as %s: %v", xs[i], xs[j], typ, err)
					return
				}
				if sign(n) != cmp(xs[i], xs[j]) {
					c.Fail("compare:"+typ, "%q compared with %q as %s gives %d", xs[i], xs[j], typ, n)
					return
				}
				if xs[i] != "" && xs[j] != "" && typ != "string" {
					f := vals.CompareIntegerBytes
					if typ == "number" {
						f = vals.CompareNumberBytes
					}
					if m, err := f([]byte(xs[i]), []byte(xs[j])); err != nil || m != n {
						c.Fail("compare:"+typ, "%q compared with %q gives %d and %d (%v)", xs[i], xs[j], n, m, err)
						return
					}
				}
				c.Ev("compares")
			}
		}
		c.Ev("triples")
		c.Distinct("compare", typ, strings.Join(xs[:], "\x00"))
		if typ != "string" {
			bad := typedText(rng, "object")
			for _, p := range [][2]string{{bad, "5"}, {"5", bad}, {"5", "5x"}} {
				if n, err := vals.CompareTypeBytes([]byte(p[0]), []byte(p[1]), valTypes[typ]); err == nil {
					c.Fail("compare-accepted", "%q compared with %q as %s gives %d", p[0], p[1], typ, n)
					return
				}
			}
		}
		if n, err := vals.CompareTypeBytes([]byte("a"), []byte("b"), valTypes[[]string{"object", "array", "null"}[rng.Intn(3)]]); err == nil {
			c.Fail("compare-accepted", "unordered type compared: %d", n)
		}
	})
}

func sign(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}
