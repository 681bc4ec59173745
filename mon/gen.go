package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/qri-io/dataset"
)

type obj = map[string]interface{}
type arr = []interface{}

// vopts bounds generated values
type vopts struct {
	maxDepth  int
	safeInts  bool // integers within +-2^53
	noFloat   bool
	bytes     bool // []byte leaves (CBOR)
	noCR      bool // strings without \r
	xmlSafe   bool // strings XML 1.0 can carry
	bigString bool // occasionally strings around buffer boundaries
	noNull    bool
}

var intEdges = []int64{0, 1, -1, 2, 9, 10, 22, 23, 24, 25, -23, -24, -25, -26, 31, 32, 100, 127, 128, -127, -128, -129, 255, 256, 257, -255, -256, -257, -258,
	1000, 32767, 32768, 65535, 65536, -65535, -65536, -65537, 1 << 24, 1<<31 - 1, 1 << 31, -(1 << 31), 1<<32 - 1, 1 << 32, -(1 << 32), -(1<<32 + 1), 1<<53 - 1, 1 << 53, -(1 << 53),
	1<<53 + 1, 1<<62 + 12345, math.MaxInt64 - 1, math.MaxInt64, math.MinInt64 + 1, math.MinInt64}

func genInt(r *rand.Rand, safe bool) int64 {
	for {
		var v int64
		switch r.Intn(4) {
		case 0:
			v = intEdges[r.Intn(len(intEdges))]
		case 1:
			v = int64(r.Intn(2000) - 1000)
		case 2:
			v = int64(r.Uint64()) >> uint(r.Intn(64))
		default:
			v = intEdges[r.Intn(len(intEdges))] + int64(r.Intn(5)-2)
		}
		if safe && (v > 1<<53 || v < -(1<<53)) {
			continue
		}
		return v
	}
}

var floatEdges = []float64{0, 0.5, -0.5, 1, -1, 1.5, 0.1, 0.2, 1.0 / 3, math.Pi, -math.Pi, 1e-7, 1e-6, 1e20, 1e21, 1e22, -1e20, -1e21, 123456789.125, 1e100, 1e-100, 65504, 65503.5, 5.960464477539063e-8,
	math.MaxFloat64, math.SmallestNonzeroFloat64, -math.MaxFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32, 9007199254740993, 1 << 53, 1 << 62, 1 << 63, 1 << 64, 9.223372036854775e18, 0.000001234, 100000.5, 3.0, 1e15, 12345678901234567890}

func genFloat(r *rand.Rand) float64 {
	switch r.Intn(4) {
	case 0:
		return floatEdges[r.Intn(len(floatEdges))]
	case 1:
		return float64(r.Intn(200000)-100000) / 100
	case 2:
		return r.NormFloat64() * math.Pow(10, float64(r.Intn(40)-20))
	default:
		for {
			f := math.Float64frombits(r.Uint64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return f
			}
		}
	}
}

var stringBits = []string{"&amp;", "&#39;", "%20", "$a", "{{", "\\n", "\\u00e9", "a", "b", "Z", "0", "9", " ", "  ", "\t", "\n", "\"", "\\", "/", "'", ",", ";", "|", "{", "}", "[", "]", ":", "<", ">", "&", "\b", "\f", "\x00", "\x01", "\x1f", "\x7f",
	"é", "ß", "ü", "日本", "\u2028", "\u2029", "\uFEFF", "\uFFFD", "😀", "𝄞", "\U0010FFFF", "\u0300", "null", "true", "false", "-1", "1e5", "3.14", "\\u0041", "\\n", "\"\"", "#", "%", "\r", "\r\n", "=", "+", "@", "\\\"", "\\\\"}

var wholeStrings = []string{"&amp;", "&#39;", "&lt;b&gt;", "%20", "%2F", "$a", "${HOME}", "{{x}}", "\\u0041", "\\n", "~", "..", "", " ", "null", "true", "false", "T", "f", "0", "-1", "1.0", "1e5", "NaN", "Inf", "-", "{}", "[]", "{\"a\":1}", "[1,2]", "\"quoted\"", "a,b", "a\nb", "\n", "\"", "\\", "\\.", "'", " leading", "trailing ", "\tTab", "0x10", "00", "+5", "1_000", "abc\"def", "\"start", "end\"", "😀", "\uFEFFbom", "end\\"}

// boundary sizes: bufio default, JSON block, JSON/CSV reader buffer, powers
var sizeEdges = []int{1, 2, 15, 16, 23, 24, 25, 31, 32, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 2047, 4090, 4094, 4095, 4096, 4097, 4100, 8191, 8192, 8193, 65534, 65535, 65536, 65537}
var bigEdges = []int{131072, 262140, 262143, 262144, 262145, 262150, 300000, 524288}

func genString(r *rand.Rand, o vopts) string {
	for {
		s := genString1(r, o)
		if o.noCR && strings.Contains(s, "\r") {
			s = strings.ReplaceAll(s, "\r", "~")
		}
		if o.xmlSafe {
			s = xmlClean(s)
		}
		return s
	}
}

func genString1(r *rand.Rand, o vopts) string {
	switch k := r.Intn(20); {
	case k < 4:
		return wholeStrings[r.Intn(len(wholeStrings))]
	case k < 9:
		n := r.Intn(12)
		b := make([]byte, n)
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJ0123456789_ "[r.Intn(48)]
		}
		return string(b)
	case k < 18:
		var sb strings.Builder
		n := r.Intn(14)
		for i := 0; i < n; i++ {
			sb.WriteString(stringBits[r.Intn(len(stringBits))])
		}
		return sb.String()
	case k < 19:
		var sb strings.Builder
		n := r.Intn(6)
		for i := 0; i < n; i++ {
			for {
				c := rune(r.Intn(0x110000))
				if r.Intn(2) == 0 {
					c = rune(r.Intn(0x3000))
				}
				if c < 0xD800 || c > 0xDFFF {
					sb.WriteRune(c)
					break
				}
			}
		}
		return sb.String()
	default:
		if !o.bigString {
			return strings.Repeat("x", r.Intn(300))
		}
		return bigStr(r, sizeEdges[r.Intn(len(sizeEdges))])
	}
}

func bigStr(r *rand.Rand, n int) string {
	fill := []string{"x", "ab\"c", "\\", "é", "line\n", "😀", "\""}[r.Intn(7)]
	s := strings.Repeat(fill, n/len(fill)+1)
	// cut on a rune boundary, then pad to n bytes exactly
	cut := n
	for cut > 0 && !utf8Boundary(s, cut) {
		cut--
	}
	return s[:cut] + strings.Repeat("y", n-cut)
}

func utf8Boundary(s string, i int) bool { return i >= len(s) || s[i]&0xC0 != 0x80 }

func xmlClean(s string) string {
	return strings.Map(func(c rune) rune {
		if c < 0x20 && c != '\t' && c != '\n' || c == 0x7f || c == 0xFFFE || c == 0xFFFF || c == 0xFFFD || c == '\r' {
			return 'q'
		}
		return c
	}, s)
}

func genKey(r *rand.Rand, o vopts) string {
	for {
		o2 := o
		o2.bigString = o.bigString && r.Intn(8) == 0
		if s := genString(r, o2); s != "" {
			return s
		}
	}
}

// nearKey is a key that differs from k in something easily overlooked
func nearKey(r *rand.Rand, k string) string {
	switch r.Intn(9) {
	case 0:
		return strings.ToLower(k)
	case 1:
		return strings.ToUpper(k)
	case 2:
		return strings.Title(k)
	case 3:
		return k + " "
	case 4:
		return " " + k
	case 5:
		return k + k
	case 6:
		return k + "."
	case 7:
		return k + "\n"
	}
	return "_" + k
}

func genLeaf(r *rand.Rand, o vopts) interface{} {
	for {
		switch r.Intn(7) {
		case 0:
			if o.noNull {
				continue
			}
			return nil
		case 1:
			return r.Intn(2) == 0
		case 2:
			return genInt(r, o.safeInts)
		case 3:
			if o.noFloat {
				continue
			}
			return genFloat(r)
		case 4:
			if o.bytes && r.Intn(2) == 0 {
				b := make([]byte, r.Intn(40))
				r.Read(b)
				return b
			}
			return genString(r, o)
		default:
			return genString(r, o)
		}
	}
}

func genValue(r *rand.Rand, o vopts) interface{} {
	if o.maxDepth <= 0 || r.Intn(3) > 0 {
		return genLeaf(r, o)
	}
	o2 := o
	o2.maxDepth--
	n := r.Intn(5)
	if r.Intn(40) == 0 {
		n = []int{23, 24, 25, 30, 255, 256, 257}[r.Intn(7)]
		o2.maxDepth = 0
		o2.bigString = false
	}
	if r.Intn(2) == 0 {
		a := make(arr, n)
		for i := range a {
			a[i] = genValue(r, o2)
		}
		return a
	}
	m := obj{}
	for i := 0; i < n; i++ {
		k := genKey(r, o2)
		if r.Intn(20) == 0 {
			k = ""
		}
		m[k] = genValue(r, o2)
		if n < 20 && r.Intn(12) == 0 && len(k) < 50 {
			if k = nearKey(r, k); !o.xmlSafe || k == xmlClean(k) {
				m[k] = genLeaf(r, o2)
			}
		}
	}
	return m
}

// genCount picks entry counts, biased to small with boundary outliers
func genCount(r *rand.Rand, big bool) int {
	if big && r.Intn(25) == 0 {
		return []int{23, 24, 25, 255, 256, 257, 1000, 4999, 5000, 5001}[r.Intn(10)]
	}
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return 1
	default:
		return r.Intn(12)
	}
}

func schemaOf(tlt string) obj { return obj{"type": tlt} }

var comps = []string{"", "", "gzip", "zst"}

func genComp(r *rand.Rand) string { return comps[r.Intn(len(comps))] }

func structureFor(format, tlt, comp string) *dataset.Structure {
	return &dataset.Structure{Format: format, Compression: comp, Schema: schemaOf(tlt)}
}

// stFor is structureFor, at times with out of date facts about some other body
func stFor(r *rand.Rand, format, tlt, comp string) *dataset.Structure {
	return stale(r, structureFor(format, tlt, comp))
}

// stale gives a structure, at times, facts about a body which are not those of
// the body at hand: reading, writing, converting, validating and counting go
// by the body, whatever its structure says of an earlier version of it
func stale(r *rand.Rand, st *dataset.Structure) *dataset.Structure {
	if r.Intn(3) != 0 {
		return st
	}
	num := func(p *int) {
		if r.Intn(2) == 0 {
			*p = []int{1, 2, 3, 7, 100, 1 << 30, -1}[r.Intn(7)]
		}
	}
	num(&st.Entries)
	num(&st.Length)
	num(&st.ErrCount)
	num(&st.Depth)
	if r.Intn(2) == 0 {
		st.Checksum = []string{"QmXgkqKkmUqZCFyjsxXUNJkkBPYsAUuMxqFhqS6jvRtaE7", "x"}[r.Intn(2)]
	}
	if r.Intn(2) == 0 {
		st.Encoding = []string{"utf-8", "UTF-8", "latin-1", "utf-16", "x"}[r.Intn(5)]
	}
	if r.Intn(2) == 0 {
		st.Strict = true
	}
	if r.Intn(2) == 0 {
		st.Qri = []string{"st:0", "st:1"}[r.Intn(2)]
	}
	if r.Intn(3) == 0 {
		st.Path = "/ipfs/QmStaleStructure"
	}
	return st
}

// ---- tabular generation

type col struct {
	title string
	typ   string
}

var colTypes = []string{"string", "string", "number", "integer", "boolean", "object", "array", "null"}

func genCols(r *rand.Rand, types []string) []col {
	n := 1 + r.Intn(6)
	if r.Intn(30) == 0 {
		n = []int{26, 27, 30, 52, 53}[r.Intn(5)]
	}
	cs := make([]col, n)
	for i := range cs {
		t := fmt.Sprintf("c_%d", i)
		switch r.Intn(4) {
		case 0:
			t = fmt.Sprintf("col %d, \"q\"", i)
		case 1:
			t = fmt.Sprintf("täg\n%d", i)
		}
		cs[i] = col{t, types[r.Intn(len(types))]}
	}
	return cs
}

func tabularSchema(cs []col) obj {
	items := make(arr, len(cs))
	for i, c := range cs {
		items[i] = obj{"title": c.title, "type": c.typ}
	}
	return obj{"type": "array", "items": obj{"type": "array", "items": items}}
}

func genCell(r *rand.Rand, typ string, o vopts) interface{} {
	switch typ {
	case "string":
		return genString(r, o)
	case "number":
		if r.Intn(4) == 0 {
			return genInt(r, true)
		}
		return genFloat(r)
	case "integer":
		return genInt(r, o.safeInts)
	case "boolean":
		return r.Intn(2) == 0
	case "null":
		return nil
	case "object":
		o.maxDepth, o.safeInts, o.bigString = 2, true, false
		m := obj{}
		for i, n := 0, r.Intn(4); i < n; i++ {
			m[genKey(r, o)] = genValue(r, o)
		}
		return m
	case "array":
		o.maxDepth, o.safeInts, o.bigString = 2, true, false
		a := arr{}
		for i, n := 0, r.Intn(4); i < n; i++ {
			a = append(a, genValue(r, o))
		}
		return a
	}
	panic("cell type " + typ)
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// mutate makes a malformed or at least different byte string from a valid one
func mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := 1 + r.Intn(3); k > 0; k-- {
		if len(b) == 0 {
			return randBytes(r, 1+r.Intn(8))
		}
		i := r.Intn(len(b))
		switch r.Intn(8) {
		case 0:
			b = b[:i]
		case 1:
			b[i] = byte(r.Intn(256))
		case 2:
			b[i] ^= 1 << uint(r.Intn(8))
		case 3:
			b = append(b[:i], b[i+1:]...)
		case 4:
			b = append(b[:i], append([]byte{byte(r.Intn(256))}, b[i:]...)...)
		case 5:
			toks := []string{"\"", "\\", "\\u", "\\u12", "\\ud83d", "\\x4", "[", "]", "{", "}", ",", ":", "-", "e", "1e", "\xff", "\x00", "nul", "tru", "\r", "\n", "\x9b\x7f\xff\xff\xff\xff\xff\xff\xff", "\x9a\xff\xff\xff\xff", "\x5b\xff\xff\xff\xff\xff\xff\xff\xff", "\x7b\x00\x00\x00\x01\x00\x00\x00\x00", "\xbb\xff\xff\xff\xff\xff\xff\xff\xff", "\x9f", "\xbf", "\x5f", "\x7f", "\xc0", "\xf8"}
			t := toks[r.Intn(len(toks))]
			b = append(b[:i], append([]byte(t), b[i:]...)...)
		case 6:
			j := r.Intn(len(b))
			if i > j {
				i, j = j, i
			}
			b = append(b, b[i:j]...)
		default:
			j := i + r.Intn(len(b)-i)
			b = append(b[:i], b[j:]...)
		}
	}
	return b
}

func quoteClip(b []byte) string {
	if len(b) > 300 {
		return fmt.Sprintf("%q...(%d bytes)", b[:300], len(b))
	}
	return fmt.Sprintf("%q", b)
}

var _ = bytes.Equal
