package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"sort"
)

// num turns any Go number into an exact rational (NaN and infinities apart)
func num(v interface{}) (*big.Float, bool) {
	f := new(big.Float).SetPrec(2000)
	switch x := v.(type) {
	case int:
		return f.SetInt64(int64(x)), true
	case int8:
		return f.SetInt64(int64(x)), true
	case int16:
		return f.SetInt64(int64(x)), true
	case int32:
		return f.SetInt64(int64(x)), true
	case int64:
		return f.SetInt64(x), true
	case uint:
		return f.SetUint64(uint64(x)), true
	case uint8:
		return f.SetUint64(uint64(x)), true
	case uint16:
		return f.SetUint64(uint64(x)), true
	case uint32:
		return f.SetUint64(uint64(x)), true
	case uint64:
		return f.SetUint64(x), true
	case float32:
		if math.IsNaN(float64(x)) || math.IsInf(float64(x), 0) {
			return nil, false
		}
		return f.SetFloat64(float64(x)), true
	case float64:
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return nil, false
		}
		return f.SetFloat64(x), true
	}
	return nil, false
}

func toF64(v interface{}) (float64, bool) {
	n, ok := num(v)
	if !ok {
		switch x := v.(type) {
		case float64:
			return x, true
		case float32:
			return float64(x), true
		}
		return 0, false
	}
	f, _ := n.Float64()
	return f, true
}

// eqOpts says which representation differences a format is documented to make
type eqOpts struct {
	floatPrec bool // numbers travel as float64
}

// diffVal reports where got differs from want ("" if nowhere). Numbers are
// compared by value, not by Go type.
func diffVal(path string, want, got interface{}, o eqOpts) string {
	switch w := want.(type) {
	case nil:
		if got != nil {
			return fmt.Sprintf("%s: want null, got %T %v", path, got, clipv(got))
		}
		return ""
	case bool:
		if g, ok := got.(bool); !ok || g != w {
			return fmt.Sprintf("%s: want %v, got %T %v", path, w, got, clipv(got))
		}
		return ""
	case string:
		if g, ok := got.(string); !ok || g != w {
			return fmt.Sprintf("%s: want string %s, got %T %s", path, clipv(w), got, clipv(got))
		}
		return ""
	case []byte:
		if g, ok := got.([]byte); !ok || !bytes.Equal(g, w) {
			return fmt.Sprintf("%s: want bytes %x, got %T %v", path, w, got, clipv(got))
		}
		return ""
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok {
			return fmt.Sprintf("%s: want array of %d, got %T %v", path, len(w), got, clipv(got))
		}
		if len(g) != len(w) {
			return fmt.Sprintf("%s: want %d elements, got %d", path, len(w), len(g))
		}
		for i := range w {
			if d := diffVal(fmt.Sprintf("%s/%d", path, i), w[i], g[i], o); d != "" {
				return d
			}
		}
		return ""
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		if !ok {
			return fmt.Sprintf("%s: want object of %d keys, got %T %v", path, len(w), got, clipv(got))
		}
		ks := make([]string, 0, len(w))
		for k := range w {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			gv, ok := g[k]
			if !ok {
				return fmt.Sprintf("%s: key %s missing", path, clipv(k))
			}
			if d := diffVal(path+"/"+fmt.Sprint(clipv(k)), w[k], gv, o); d != "" {
				return d
			}
		}
		if len(g) != len(w) {
			return fmt.Sprintf("%s: want %d keys, got %d", path, len(w), len(g))
		}
		return ""
	}
	// numbers
	wf, wok := toF64(want)
	gf, gok := toF64(got)
	if !wok {
		return fmt.Sprintf("%s: harness cannot compare %T", path, want)
	}
	if !gok {
		return fmt.Sprintf("%s: want number %v, got %T %v", path, want, got, clipv(got))
	}
	isFloat := false
	switch want.(type) {
	case float64, float32:
		isFloat = true
	}
	if o.floatPrec || isFloat || math.IsNaN(wf) || math.IsInf(wf, 0) {
		if wf != gf && !(math.IsNaN(wf) && math.IsNaN(gf)) {
			return fmt.Sprintf("%s: want number %v, got %v", path, want, got)
		}
		return ""
	}
	a, _ := num(want)
	b, ok := num(got)
	if !ok || a.Cmp(b) != 0 {
		return fmt.Sprintf("%s: want number %v, got %T %v", path, want, got, got)
	}
	return ""
}

func clipv(v interface{}) string {
	s := fmt.Sprintf("%#v", v)
	if str, ok := v.(string); ok {
		s = fmt.Sprintf("%q", str)
	}
	if len(s) > 160 {
		return fmt.Sprintf("%s...(%d)", s[:160], len(s))
	}
	return s
}

// deepCopy copies a plain value tree
func deepCopy(v interface{}) interface{} {
	switch x := v.(type) {
	case []interface{}:
		c := make([]interface{}, len(x))
		for i := range x {
			c[i] = deepCopy(x[i])
		}
		return c
	case map[string]interface{}:
		c := make(map[string]interface{}, len(x))
		for k, e := range x {
			c[k] = deepCopy(e)
		}
		return c
	case []byte:
		return append([]byte(nil), x...)
	}
	return v
}
