package main

// Independent reference encoders and decoders, written from the format
// specifications (RFC 8259, RFC 8949, RFC 4180, ECMA-376); they share no code
// with the repository.

import (
	"archive/zip"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

// ---- JSON text with random but equivalent spellings

type jsonStyle struct {
	r       *rand.Rand
	ws      int  // 1/ws chance of whitespace at each legal position, 0 never
	escapes bool // spell characters as escapes at random
	nums    bool // spell numbers in different ways
	noNL    bool // whitespace without newlines (NDJSON)
}

func (s *jsonStyle) space(b *bytes.Buffer) {
	if s.ws == 0 || s.r.Intn(s.ws) != 0 {
		return
	}
	set := " \t\n\r"
	if s.noNL {
		set = " \t\r"
	}
	n := 1 + s.r.Intn(4)
	if s.r.Intn(200) == 0 {
		n = 4000 + s.r.Intn(300)
	}
	for ; n > 0; n-- {
		b.WriteByte(set[s.r.Intn(len(set))])
	}
}

func (s *jsonStyle) str(b *bytes.Buffer, v string) {
	b.WriteByte('"')
	for _, c := range v {
		short := ""
		switch c {
		case '"':
			short = `\"`
		case '\\':
			short = `\\`
		case '\b':
			short = `\b`
		case '\f':
			short = `\f`
		case '\n':
			short = `\n`
		case '\r':
			short = `\r`
		case '\t':
			short = `\t`
		case '/':
			if s.escapes && s.r.Intn(2) == 0 {
				short = `\/`
			}
		}
		long := s.escapes && s.r.Intn(6) == 0
		switch {
		case short != "" && !long:
			b.WriteString(short)
		case c < 0x20 || long:
			f := `\u%04x`
			if s.r.Intn(2) == 0 {
				f = `\u%04X`
			}
			if c > 0xFFFF {
				hi, lo := utf16.EncodeRune(c)
				fmt.Fprintf(b, f, hi)
				fmt.Fprintf(b, f, lo)
			} else {
				fmt.Fprintf(b, f, c)
			}
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
}

func (s *jsonStyle) num(b *bytes.Buffer, v interface{}) {
	switch x := v.(type) {
	case int64:
		t := strconv.FormatInt(x, 10)
		if s.nums && x != 0 && x > -1e15 && x < 1e15 {
			switch s.r.Intn(6) {
			case 0:
				t += ".0"
			case 1:
				t += "e0"
			case 2:
				t += "0E-1"
			case 3:
				t += ".000e+00"
			}
		}
		b.WriteString(t)
	case float64:
		f := []byte{'g', 'e', 'E', 'f'}[s.r.Intn(4)]
		if f == 'f' && (math.Abs(x) > 1e40 || math.Abs(x) < 1e-40) {
			f = 'e'
		}
		t := strconv.FormatFloat(x, f, -1, 64)
		if !strings.ContainsAny(t, ".eE") && s.r.Intn(2) == 0 {
			t += ".0"
		}
		b.WriteString(t)
	default:
		panic(fmt.Sprintf("num %T", v))
	}
}

func (s *jsonStyle) val(b *bytes.Buffer, v interface{}) {
	switch x := v.(type) {
	case nil:
		b.WriteString("null")
	case bool:
		fmt.Fprint(b, x)
	case string:
		s.str(b, x)
	case arr:
		b.WriteByte('[')
		s.space(b)
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
				s.space(b)
			}
			s.val(b, e)
			s.space(b)
		}
		b.WriteByte(']')
	case obj:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s.r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		ps := make([]kv, len(ks))
		for i, k := range ks {
			ps[i] = kv{k, x[k]}
		}
		s.pairs(b, ps)
	default:
		s.num(b, v)
	}
}

func (s *jsonStyle) pairs(b *bytes.Buffer, ps []kv) {
	b.WriteByte('{')
	s.space(b)
	for i, p := range ps {
		if i > 0 {
			b.WriteByte(',')
			s.space(b)
		}
		s.str(b, p.k)
		s.space(b)
		b.WriteByte(':')
		s.space(b)
		s.val(b, p.v)
		s.space(b)
	}
	b.WriteByte('}')
}

// refJSON decodes JSON text with encoding/json, numbers kept exact
func refJSON(data []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("trailing data")
	}
	return unNumber(v)
}

func unNumber(v interface{}) (interface{}, error) {
	var err error
	switch x := v.(type) {
	case json.Number:
		if !strings.ContainsAny(x.String(), ".eE") {
			if n, err := strconv.ParseInt(x.String(), 10, 64); err == nil {
				return n, nil
			}
		}
		return strconv.ParseFloat(x.String(), 64)
	case arr:
		for i := range x {
			if x[i], err = unNumber(x[i]); err != nil {
				return nil, err
			}
		}
	case obj:
		for k := range x {
			if x[k], err = unNumber(x[k]); err != nil {
				return nil, err
			}
		}
	}
	return v, nil
}

// topPairs lists a JSON object text's pairs in order
func topPairs(data []byte) ([]kv, error) {
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	t, err := d.Token()
	if err != nil || t != json.Delim('{') {
		return nil, fmt.Errorf("not an object: %v %v", t, err)
	}
	var ps []kv
	for d.More() {
		k, err := d.Token()
		if err != nil {
			return nil, err
		}
		var v interface{}
		if err := d.Decode(&v); err != nil {
			return nil, err
		}
		if v, err = unNumber(v); err != nil {
			return nil, err
		}
		ps = append(ps, kv{k.(string), v})
	}
	return ps, nil
}

// ---- CBOR

type cborStyle struct {
	r       *rand.Rand
	wide    bool // lengths and integers in wider encodings than needed
	indef   bool // indefinite lengths
	tags    bool
	halves  bool // narrower floats where exact
	noTagAt int
}

func (s *cborStyle) head(b *bytes.Buffer, major byte, n uint64) {
	w := 0
	switch {
	case n < 24:
		w = 0
	case n < 1<<8:
		w = 1
	case n < 1<<16:
		w = 2
	case n < 1<<32:
		w = 4
	default:
		w = 8
	}
	if s.wide && s.r.Intn(4) == 0 {
		for {
			x := []int{0, 1, 2, 4, 8}[s.r.Intn(5)]
			if x >= w {
				w = x
				break
			}
		}
	}
	switch w {
	case 0:
		b.WriteByte(major<<5 | byte(n))
	case 1:
		b.Write([]byte{major<<5 | 24, byte(n)})
	case 2:
		b.WriteByte(major<<5 | 25)
		binary.Write(b, binary.BigEndian, uint16(n))
	case 4:
		b.WriteByte(major<<5 | 26)
		binary.Write(b, binary.BigEndian, uint32(n))
	default:
		b.WriteByte(major<<5 | 27)
		binary.Write(b, binary.BigEndian, n)
	}
}

func (s *cborStyle) text(b *bytes.Buffer, major byte, data []byte) {
	if s.indef && s.r.Intn(4) == 0 {
		b.WriteByte(major<<5 | 31)
		for len(data) > 0 || s.r.Intn(4) == 0 {
			n := 0
			if len(data) > 0 {
				n = s.r.Intn(len(data) + 1)
			}
			if major == 3 { // chunks of text are valid text on their own
				for n < len(data) && !utf8.RuneStart(data[n]) {
					n++
				}
			}
			s.head(b, major, uint64(n))
			b.Write(data[:n])
			data = data[n:]
		}
		b.WriteByte(0xff)
		return
	}
	s.head(b, major, uint64(len(data)))
	b.Write(data)
}

func f16bits(f float64) (uint16, bool) {
	for h := 0; h < 1<<16; h++ {
		if v := f16val(uint16(h)); v == f && math.Signbit(v) == math.Signbit(f) {
			return uint16(h), true
		}
	}
	return 0, false
}

// f16val from the definition: (-1)^s * 2^(e-15) * 1.m
func f16val(h uint16) float64 {
	sign := 1.0
	if h>>15 == 1 {
		sign = -1
	}
	e, m := int(h>>10&31), float64(h&1023)/1024
	switch e {
	case 0:
		return sign * m * math.Pow(2, -14)
	case 31:
		if m == 0 {
			return math.Inf(int(sign))
		}
		return math.NaN()
	}
	return sign * (1 + m) * math.Pow(2, float64(e-15))
}

func (s *cborStyle) val(b *bytes.Buffer, v interface{}) {
	if s.tags && s.r.Intn(12) == 0 {
		s.head(b, 6, uint64([]int{0, 1, 2, 5, 23, 24, 32, 1000, 55799, 1 << 20}[s.r.Intn(10)]))
	}
	switch x := v.(type) {
	case nil:
		if s.tags && s.r.Intn(4) == 0 {
			b.WriteByte(0xf7)
			return
		}
		if s.tags && s.r.Intn(6) == 0 {
			// unassigned simple values carry nothing
			if n := s.r.Intn(256); n >= 32 {
				b.Write([]byte{0xf8, byte(n)})
				return
			} else if n < 20 {
				b.WriteByte(0xe0 | byte(n))
				return
			}
		}
		b.WriteByte(0xf6)
	case bool:
		if x {
			b.WriteByte(0xf5)
		} else {
			b.WriteByte(0xf4)
		}
	case int64:
		if x >= 0 {
			s.head(b, 0, uint64(x))
		} else {
			s.head(b, 1, uint64(-(x + 1)))
		}
	case uint64:
		s.head(b, 0, x)
	case float64:
		if s.halves {
			if float64(float32(x)) == x && s.r.Intn(2) == 0 {
				if math.Abs(x) <= 65504 && s.r.Intn(2) == 0 {
					if h, ok := f16bits(x); ok {
						b.WriteByte(0xf9)
						binary.Write(b, binary.BigEndian, h)
						return
					}
				}
				b.WriteByte(0xfa)
				binary.Write(b, binary.BigEndian, math.Float32bits(float32(x)))
				return
			}
		}
		b.WriteByte(0xfb)
		binary.Write(b, binary.BigEndian, math.Float64bits(x))
	case string:
		s.text(b, 3, []byte(x))
	case []byte:
		s.text(b, 2, x)
	case arr:
		s.items(b, x)
	case obj:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		ps := make([]kv, len(ks))
		for i, k := range ks {
			ps[i] = kv{k, x[k]}
		}
		s.pairs(b, ps)
	default:
		panic(fmt.Sprintf("cbor %T", v))
	}
}

func (s *cborStyle) items(b *bytes.Buffer, x arr) {
	indef := s.indef && s.r.Intn(3) == 0
	if indef {
		b.WriteByte(0x9f)
	} else {
		s.head(b, 4, uint64(len(x)))
	}
	for _, e := range x {
		s.val(b, e)
	}
	if indef {
		b.WriteByte(0xff)
	}
}

func (s *cborStyle) pairs(b *bytes.Buffer, ps []kv) {
	indef := s.indef && s.r.Intn(3) == 0
	if indef {
		b.WriteByte(0xbf)
	} else {
		s.head(b, 5, uint64(len(ps)))
	}
	for _, p := range ps {
		s.text(b, 3, []byte(p.k))
		s.val(b, p.v)
	}
	if indef {
		b.WriteByte(0xff)
	}
}

var errCBOR = errors.New("reference decoder: not well-formed CBOR")

type cborRef struct {
	d    []byte
	keys []string // keys of the top-level map in order
	dep  int
}

func (c *cborRef) head() (major byte, info byte, n uint64, err error) {
	if len(c.d) == 0 {
		return 0, 0, 0, errCBOR
	}
	b := c.d[0]
	c.d = c.d[1:]
	major, info = b>>5, b&31
	k := 0
	switch {
	case info < 24:
		return major, info, uint64(info), nil
	case info < 28:
		k = 1 << (info - 24)
	case info == 31:
		return major, info, 0, nil
	default:
		return 0, 0, 0, errCBOR
	}
	if len(c.d) < k {
		return 0, 0, 0, errCBOR
	}
	for i := 0; i < k; i++ {
		n = n<<8 | uint64(c.d[i])
	}
	c.d = c.d[k:]
	return major, info, n, nil
}

func (c *cborRef) val() (interface{}, error) {
	c.dep++
	defer func() { c.dep-- }()
	major, info, n, err := c.head()
	if err != nil {
		return nil, err
	}
	switch major {
	case 0:
		if info == 31 {
			return nil, errCBOR
		}
		if n <= math.MaxInt64 {
			return int64(n), nil
		}
		return n, nil
	case 1:
		if info == 31 || n > math.MaxInt64 {
			return nil, errCBOR
		}
		return -1 - int64(n), nil
	case 2, 3:
		if info == 31 || uint64(len(c.d)) < n {
			return nil, errCBOR
		}
		s := c.d[:n]
		c.d = c.d[n:]
		if major == 2 {
			return append([]byte(nil), s...), nil
		}
		return string(s), nil
	case 4:
		if info == 31 {
			return nil, errCBOR
		}
		a := arr{}
		for ; n > 0; n-- {
			v, err := c.val()
			if err != nil {
				return nil, err
			}
			a = append(a, v)
		}
		return a, nil
	case 5:
		if info == 31 {
			return nil, errCBOR
		}
		m := obj{}
		for ; n > 0; n-- {
			k, err := c.val()
			if err != nil {
				return nil, err
			}
			ks, ok := k.(string)
			if !ok {
				return nil, errCBOR
			}
			if c.dep == 1 {
				c.keys = append(c.keys, ks)
			}
			v, err := c.val()
			if err != nil {
				return nil, err
			}
			if _, dup := m[ks]; dup {
				return nil, fmt.Errorf("duplicate key %q", ks)
			}
			m[ks] = v
		}
		return m, nil
	case 7:
		switch info {
		case 20:
			return false, nil
		case 21:
			return true, nil
		case 22, 23:
			return nil, nil
		case 25:
			return f16val(uint16(n)), nil
		case 26:
			return float64(math.Float32frombits(uint32(n))), nil
		case 27:
			return math.Float64frombits(n), nil
		}
	}
	return nil, errCBOR
}

// refCBOR decodes definite-length CBOR, as the writer produces it
func refCBOR(data []byte) (interface{}, []string, error) {
	c := &cborRef{d: data}
	v, err := c.val()
	if err != nil {
		return nil, nil, err
	}
	if len(c.d) != 0 {
		return nil, nil, fmt.Errorf("%d trailing bytes", len(c.d))
	}
	return v, c.keys, nil
}

// ---- CSV

// csvText spells rows of strings as RFC 4180 text with random quoting
func csvText(r *rand.Rand, rows [][]string, sep byte, eol string, finalEOL bool) []byte {
	var b bytes.Buffer
	for i, row := range rows {
		for j, f := range row {
			if j > 0 {
				b.WriteByte(sep)
			}
			need := strings.ContainsAny(f, "\"\r\n"+string(rune(sep))) || (f == "" && len(row) == 1)
			if need || r.Intn(3) == 0 {
				b.WriteByte('"')
				b.WriteString(strings.ReplaceAll(f, `"`, `""`))
				b.WriteByte('"')
			} else {
				b.WriteString(f)
			}
		}
		if i < len(rows)-1 || finalEOL {
			b.WriteString(eol)
		}
		if r.Intn(20) == 0 && (i < len(rows)-1 || finalEOL) {
			b.WriteString(eol) // blank lines carry no record
		}
	}
	return b.Bytes()
}

// refCSV parses RFC 4180 text; a line with nothing on it is no record
func refCSV(data []byte, sep byte) ([][]string, error) {
	var rows [][]string
	i := 0
	for i < len(data) {
		if data[i] == '\n' {
			i++
			continue
		}
		var row []string
		for {
			var f bytes.Buffer
			if i < len(data) && data[i] == '"' {
				i++
				for {
					if i >= len(data) {
						return nil, fmt.Errorf("unclosed quote")
					}
					if data[i] == '"' {
						if i+1 < len(data) && data[i+1] == '"' {
							f.WriteByte('"')
							i += 2
							continue
						}
						i++
						break
					}
					f.WriteByte(data[i])
					i++
				}
			} else {
				for i < len(data) && data[i] != sep && data[i] != '\n' {
					if data[i] == '"' {
						return nil, fmt.Errorf("bare quote at %d", i)
					}
					f.WriteByte(data[i])
					i++
				}
			}
			row = append(row, f.String())
			if i < len(data) && data[i] == sep {
				i++
				continue
			}
			break
		}
		if i < len(data) {
			if data[i] != '\n' {
				return nil, fmt.Errorf("text after closing quote at %d", i)
			}
			i++
		}
		rows = append(rows, row)
	}
	return rows, nil
}

// ---- XLSX (only what is needed to read a sheet of text cells)

func refXLSX(data []byte, sheet string) ([][]string, error) {
	z, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		return nil, err
	}
	get := func(name string, v interface{}) error {
		for _, f := range z.File {
			if f.Name == name {
				rd, err := f.Open()
				if err != nil {
					return err
				}
				defer rd.Close()
				return xml.NewDecoder(rd).Decode(v)
			}
		}
		return fmt.Errorf("no part %s", name)
	}
	var wb struct {
		Sheets []struct {
			Name string `xml:"name,attr"`
			RID  string `xml:"http://schemas.openxmlformats.org/officeDocument/2006/relationships id,attr"`
		} `xml:"sheets>sheet"`
	}
	if err := get("xl/workbook.xml", &wb); err != nil {
		return nil, err
	}
	var rels struct {
		R []struct {
			ID     string `xml:"Id,attr"`
			Target string `xml:"Target,attr"`
		} `xml:"Relationship"`
	}
	if err := get("xl/_rels/workbook.xml.rels", &rels); err != nil {
		return nil, err
	}
	target := ""
	for _, s := range wb.Sheets {
		if s.Name == sheet {
			for _, r := range rels.R {
				if r.ID == s.RID {
					target = "xl/" + strings.TrimPrefix(strings.TrimPrefix(r.Target, "/"), "xl/")
				}
			}
		}
	}
	if target == "" {
		return nil, fmt.Errorf("no sheet %q", sheet)
	}
	var ss struct {
		SI []struct {
			T string `xml:"t"`
		} `xml:"si"`
	}
	_ = get("xl/sharedStrings.xml", &ss)
	var ws struct {
		Rows []struct {
			R int `xml:"r,attr"`
			C []struct {
				R  string `xml:"r,attr"`
				T  string `xml:"t,attr"`
				V  string `xml:"v"`
				Is struct {
					T string `xml:"t"`
				} `xml:"is"`
			} `xml:"c"`
		} `xml:"sheetData>row"`
	}
	if err := get(target, &ws); err != nil {
		return nil, err
	}
	var rows [][]string
	for _, r := range ws.Rows {
		for len(rows) < r.R {
			rows = append(rows, nil)
		}
		for _, c := range r.C {
			letters := strings.TrimRight(c.R, "0123456789")
			idx := 0
			for _, l := range letters {
				idx = idx*26 + int(l-'A'+1)
			}
			for len(rows[r.R-1]) < idx {
				rows[r.R-1] = append(rows[r.R-1], "")
			}
			v := c.V
			switch c.T {
			case "inlineStr":
				v = c.Is.T
			case "s":
				n, err := strconv.Atoi(c.V)
				if err != nil || n >= len(ss.SI) {
					return nil, fmt.Errorf("bad shared string %q", c.V)
				}
				v = ss.SI[n].T
			}
			rows[r.R-1][idx-1] = v
		}
	}
	return rows, nil
}
