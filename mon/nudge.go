package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"
)

// nudgeDoc makes one small change somewhere in the exported part of a document:
// a letter's case, a space, the last bit of a number, two elements swapped, a
// second, the type of a free-form value. It returns the path of what it
// changed, or "". skip names fields to leave alone.
func nudgeDoc(r *rand.Rand, doc interface{}, skip ...string) string {
	type spot struct {
		path string
		do   func() bool
	}
	var spots []spot
	leaves := 0
	var walk func(path string, v reflect.Value, set func(reflect.Value))
	at := func(path string, do func() bool) { spots = append(spots, spot{path, do}) }
	walk = func(path string, v reflect.Value, set func(reflect.Value)) {
		leaves++
		if leaves > 3000 {
			return
		}
		t := v.Type()
		if t == timeType {
			at(path, func() bool {
				set(reflect.ValueOf(v.Interface().(time.Time).Add([]time.Duration{1, time.Millisecond, time.Second, -time.Second, time.Hour}[r.Intn(5)])))
				return true
			})
			return
		}
		switch t.Kind() {
		case reflect.Ptr:
			if !v.IsNil() {
				walk(path, v.Elem(), func(x reflect.Value) { v.Elem().Set(x) })
			}
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				f := t.Field(i)
				if f.PkgPath != "" || contains(skip, f.Name) {
					continue
				}
				fv := v.Field(i)
				walk(path+"."+f.Name, fv, func(x reflect.Value) { fv.Set(x) })
			}
		case reflect.Interface:
			if v.IsNil() {
				return
			}
			e := v.Elem()
			walk(path, e, func(x reflect.Value) { set(x) })
			switch x := e.Interface().(type) {
			case float64:
				at(path+" type", func() bool { set(reflect.ValueOf(fmt.Sprint(x))); return true })
			case bool:
				at(path+" type", func() bool { set(reflect.ValueOf(fmt.Sprint(x))); return true })
			case string:
				at(path+" type", func() bool { set(reflect.ValueOf([]interface{}{x})); return true })
			}
		case reflect.Map:
			if v.Len() == 0 {
				return
			}
			for _, k := range v.MapKeys() {
				k := k
				if t.Elem().Kind() == reflect.Interface && v.MapIndex(k).IsNil() {
					at(path+"["+k.String()+"] null", func() bool { v.SetMapIndex(k, reflect.ValueOf(false)); return true })
					continue
				}
				walk(path+"["+k.String()+"]", v.MapIndex(k), func(x reflect.Value) { v.SetMapIndex(k, x) })
				at(path+"["+k.String()+"] key", func() bool {
					nk := nudgeStr(r, k.String())
					if v.MapIndex(reflect.ValueOf(nk)).IsValid() || nk == "" || strings.EqualFold(nk, k.String()) && nk != k.String() && t.Elem().Kind() != reflect.Interface {
						return false
					}
					x := v.MapIndex(k)
					v.SetMapIndex(k, reflect.Value{})
					v.SetMapIndex(reflect.ValueOf(nk), x)
					return true
				})
				if v.Len() > 1 {
					at(path+"["+k.String()+"] gone", func() bool { v.SetMapIndex(k, reflect.Value{}); return true })
				}
			}
		case reflect.Slice:
			n := v.Len()
			if n == 0 || t.Elem().Kind() == reflect.Uint8 {
				return
			}
			for i := 0; i < n; i++ {
				e := v.Index(i)
				if e.Kind() == reflect.Interface && e.IsNil() || e.Kind() == reflect.Ptr && e.IsNil() {
					continue
				}
				walk(fmt.Sprintf("%s[%d]", path, i), e, func(x reflect.Value) { e.Set(x) })
			}
			if n > 1 {
				at(path+" order", func() bool {
					i := r.Intn(n - 1)
					a, b := reflect.ValueOf(v.Index(i).Interface()), reflect.ValueOf(v.Index(i+1).Interface())
					if !a.IsValid() || !b.IsValid() || dump(a.Interface()) == dump(b.Interface()) {
						return false
					}
					v.Index(i).Set(b)
					v.Index(i + 1).Set(a)
					return true
				})
				at(path+" last", func() bool { set(v.Slice(0, n-1)); return true })
			}
			at(path+" twice", func() bool {
				out := reflect.MakeSlice(t, 0, n+1)
				out = reflect.AppendSlice(out, v)
				set(reflect.Append(out, v.Index(n-1)))
				return true
			})
		case reflect.String:
			if v.String() == "" {
				return
			}
			at(path, func() bool {
				s := nudgeStr(r, v.String())
				if s == "" || s == v.String() {
					return false
				}
				set(reflect.ValueOf(s).Convert(t))
				return true
			})
		case reflect.Bool:
			if v.Bool() {
				at(path, func() bool { set(reflect.ValueOf(false)); return true })
			}
		case reflect.Int:
			if v.Int() != 0 {
				at(path, func() bool {
					n := v.Int() + []int64{1, -1, 1 << 32, -2 * v.Int()}[r.Intn(4)]
					if n == 0 || n == v.Int() {
						return false
					}
					set(reflect.ValueOf(int(n)))
					return true
				})
			}
		case reflect.Float64:
			at(path, func() bool {
				f := v.Float()
				switch r.Intn(3) {
				case 0:
					f = math.Nextafter(f, math.Inf(1))
				case 1:
					f += math.Abs(f)*1e-12 + 1e-12
				default:
					if f != 0 {
						f = -f
					} else {
						f = 1
					}
				}
				if f == v.Float() || math.IsInf(f, 0) || math.Abs(f) < 1e-300 && f != 0 {
					return false
				}
				set(reflect.ValueOf(f))
				return true
			})
		}
	}
	rv := reflect.ValueOf(doc)
	walk(rv.Elem().Type().Name(), rv.Elem(), func(reflect.Value) {})
	for try := 0; try < 5 && len(spots) > 0; try++ {
		s := spots[r.Intn(len(spots))]
		if s.do() {
			return s.path
		}
	}
	return ""
}

func contains(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

// nudgeStr changes a text by as little as can be
func nudgeStr(r *rand.Rand, s string) string {
	rs := []rune(s)
	if len(rs) == 0 || !utf8.ValidString(s) {
		return s
	}
	i := r.Intn(len(rs))
	switch r.Intn(7) {
	case 0:
		return s + " "
	case 1:
		return " " + s
	case 2:
		return s + "\n"
	case 3:
		return string(rs[:len(rs)-1])
	case 4:
		return s + string(rs[len(rs)-1])
	case 5:
		for k := range rs {
			j := (i + k) % len(rs)
			if u := unicode.ToUpper(rs[j]); u != rs[j] {
				rs[j] = u
				return string(rs)
			} else if u := unicode.ToLower(rs[j]); u != rs[j] {
				rs[j] = u
				return string(rs)
			}
		}
		return s + "/"
	default:
		return string(rs[:i]) + "x" + string(rs[i:])
	}
}
