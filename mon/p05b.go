package main

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"io"
	"io/ioutil"
	"strings"

	"github.com/qri-io/dataset"
)

// misshape damages the structure of JSON text: it removes (leaves a space),
// replaces, repeats or adds a bracket, comma or colon outside of strings, or
// spoils a literal. It returns nil if it found nothing to damage.
func misshape(c *Case, b []byte) []byte {
	r := c.Rng
	var at []int
	inStr := false
	for i := 0; i < len(b); i++ {
		switch {
		case inStr && b[i] == '\\':
			i++
		case b[i] == '"':
			inStr = !inStr
		case !inStr && strings.IndexByte("[]{},:tfn", b[i]) >= 0:
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return nil
	}
	i := at[r.Intn(len(at))]
	if r.Intn(4) == 0 { // near the end
		i = at[len(at)-1-r.Intn(min(3, len(at)))]
	}
	m := append([]byte{}, b...)
	if strings.IndexByte("tfn", b[i]) >= 0 {
		m[i+1+r.Intn(3)] = "xT_q0"[r.Intn(5)]
		return m
	}
	switch r.Intn(5) {
	case 0:
		m[i] = ' '
	case 1:
		m[i] = "[]{},:"[r.Intn(6)]
	case 2: // twice
		m = append(m[:i:i], append([]byte{b[i]}, m[i:]...)...)
	case 3:
		m = append(m[:i:i], append([]byte{"[]{},:"[r.Intn(6)]}, m[i:]...)...)
	default: // a value goes missing: everything up to the next mark
		j := i + 1
		for j < len(b) && strings.IndexByte("[]{},:\"", b[j]) < 0 {
			j++
		}
		m = append(m[:i+1:i+1], b[j:]...)
	}
	return m
}

// endComma reports whether an array of a JSON text ends in a comma, which the
// reader takes as a final null
func endComma(b []byte) bool {
	inStr, last := false, byte(0)
	for i := 0; i < len(b); i++ {
		switch {
		case inStr && b[i] == '\\':
			i++
		case b[i] == '"':
			inStr = !inStr
			last = '"'
		case inStr || b[i] == ' ' || b[i] == '\n' || b[i] == '\r' || b[i] == '\t':
		default:
			if b[i] == ']' && last == ',' {
				return true
			}
			last = b[i]
		}
	}
	return false
}

type cborHead struct {
	at    int
	key   bool // the key of a map
	inDef bool // within a container of definite length, or alone
	chunk bool // a chunk of a string of indefinite length
}

// cborHeads lists the heads of the items of a CBOR document
func cborHeads(d []byte) (heads []cborHead, ok bool) {
	pos := 0
	chunk := false
	var item func(key, inDef bool) (brk, ok bool)
	item = func(key, inDef bool) (bool, bool) {
		if pos >= len(d) {
			return false, false
		}
		if d[pos] == 0xff {
			pos++
			return true, true
		}
		heads = append(heads, cborHead{pos, key, inDef, chunk})
		chunk = false
		major, info := d[pos]>>5, d[pos]&31
		pos++
		n := uint64(info)
		if info >= 24 && info < 28 {
			n = 0
			for k := 1 << (info - 24); k > 0; k-- {
				if pos >= len(d) {
					return false, false
				}
				n = n<<8 | uint64(d[pos])
				pos++
			}
		} else if info >= 28 && info < 31 {
			return false, false
		}
		indef := info == 31
		switch major {
		case 2, 3:
			if indef {
				for {
					chunk = true
					brk, ok := item(false, false)
					chunk = false
					if !ok || brk {
						return false, ok
					}
				}
			}
			if n > uint64(len(d)-pos) {
				return false, false
			}
			pos += int(n)
		case 4, 5:
			for i := uint64(0); indef || i < n; i++ {
				brk, ok := item(major == 5, !indef)
				if !ok || brk {
					return false, ok && indef
				}
				if major == 5 {
					if brk, ok := item(false, true); !ok || brk {
						return false, false
					}
				}
			}
		case 6:
			brk, ok := item(false, true)
			return false, ok && !brk
		}
		return false, true
	}
	brk, ok := item(false, true)
	return heads, ok && !brk && pos == len(d)
}

// intactZip reports whether every file of an archive can be read
func intactZip(b []byte) bool {
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return false
	}
	for _, zf := range zr.File {
		rc, err := zf.Open()
		if err != nil {
			return false
		}
		_, err = io.Copy(ioutil.Discard, rc)
		rc.Close()
		if err != nil {
			return false
		}
	}
	return true
}

func runC05shape(r *Run) {
	refused := func(c *Case, what string, st *dataset.Structure, b []byte, orig []byte) {
		c.Ev("misshapen")
		c.Distinct("misshapen", what, b)
		t := exercise(c, st, b, 20*len(b)+1000)
		if t.err == nil {
			c.Fail("misshapen:"+what, "a %s body that is not well formed is read to a clean end with %d entries\nbody %s\nmade from %s", what, len(t.ents), quoteClip(b), quoteClip(orig))
		}
	}
	for _, kind := range []string{"json-array", "json-object", "ndjson"} {
		kind := kind
		r.Each("misshapen:"+kind, r.Q(2500, 60000), func(c *Case) {
			d := genDoc(c, kind, "", 1+c.Rng.Intn(5))
			if len(d.b) > 20000 {
				return
			}
			m := misshape(c, d.b)
			if m == nil {
				return
			}
			if kind == "ndjson" {
				bad := false
				for _, l := range bytes.Split(m, []byte("\n")) {
					if len(bytes.TrimSpace(l)) > 0 && !json.Valid(l) {
						bad = true
					}
				}
				if bad {
					refused(c, kind, d.st, m, d.b)
				}
				return
			}
			var v interface{}
			if json.NewDecoder(bytes.NewReader(m)).Decode(&v) == nil {
				if (v != nil && kind == "json-array") == (strings.TrimSpace(string(m))[0] == '[') {
					return // still a document of its kind
				}
			} else if endComma(m) {
				return
			}
			refused(c, kind, d.st, m, d.b)
		})
	}
	for _, kind := range []string{"cbor-array", "cbor-object"} {
		kind := kind
		r.Each("misshapen:"+kind, r.Q(2500, 60000), func(c *Case) {
			d := genDoc(c, kind, "", 1+c.Rng.Intn(5))
			heads, ok := cborHeads(d.b)
			if !ok {
				c.Fail("base", "the generated CBOR is not understood: %s", quoteClip(d.b))
				return
			}
			h := heads[c.Rng.Intn(len(heads))]
			m := append([]byte{}, d.b...)
			switch k := c.Rng.Intn(4); {
			case k < 2: // a reserved length
				m[h.at] = m[h.at]&0xe0 | byte(28+c.Rng.Intn(3))
			case k == 2 && h.inDef: // a break where a value must be
				m[h.at] = 0xff
			case h.chunk: // a chunk of another type, one item long
				other := []byte{0x00, 0x17, 0x20, 0x80, 0xa0, 0xf4, 0xf5, 0xf6}[c.Rng.Intn(8)]
				m = append(append(append([]byte{}, d.b[:h.at]...), other), d.b[h.at:]...)
				c.Ev("odd_chunks")
			case h.key: // a key that is no text
				m[h.at] = []byte{0x00, 0x17, 0x20, 0x80, 0xa0, 0xf4, 0xf6}[c.Rng.Intn(7)]
			default:
				return
			}
			refused(c, kind, d.st, m, d.b)
		})
	}
	r.Each("misshapen:csv", r.Q(600, 10000), func(c *Case) {
		cs := genCols(c.Rng, []string{"string", "integer"})
		for len(cs) < 2 {
			cs = genCols(c.Rng, []string{"string", "integer"})
		}
		text := make([][]string, 2+c.Rng.Intn(4))
		for i := range text {
			for range cs {
				text[i] = append(text[i], []string{"a", "", "12", "x y", "long text"}[c.Rng.Intn(5)])
			}
		}
		st := &dataset.Structure{Format: "csv", Schema: tabularSchema(cs), FormatConfig: obj{"headerRow": c.Rng.Intn(2) == 0}}
		row := c.Rng.Intn(len(text))
		rows := make([]string, len(text))
		for i := range text {
			rows[i] = strings.Join(text[i], ",")
		}
		switch c.Rng.Intn(4) {
		case 0:
			if row == 0 {
				row = 1
			}
			rows[row] += ",more"
		case 1:
			rows[row] = `x"y,` + rows[row][strings.IndexByte(rows[row], ',')+1:]
		case 2:
			rows[row] = `"x"y,` + rows[row][strings.IndexByte(rows[row], ',')+1:]
		default:
			rows[len(rows)-1] = `"never closed,` + rows[len(rows)-1]
		}
		b := []byte(strings.Join(rows, "\n") + "\n")
		refused(c, "csv", st, b, nil)
	})
	// flipped bits in the parts of a spreadsheet
	r.Each("misshapen:xlsx", r.Q(60, 1500), func(c *Case) {
		d := genDoc(c, "xlsx", "", 1+c.Rng.Intn(4))
		zr, err := zip.NewReader(bytes.NewReader(d.b), int64(len(d.b)))
		if err != nil {
			c.Fail("base", "%v", err)
			return
		}
		zf := zr.File[c.Rng.Intn(len(zr.File))]
		off, err := zf.DataOffset()
		if err != nil || zf.CompressedSize64 == 0 {
			return
		}
		m := append([]byte{}, d.b...)
		m[int(off)+c.Rng.Intn(int(zf.CompressedSize64))] ^= 1 << uint(c.Rng.Intn(8))
		if intactZip(m) {
			return // a bit of no meaning
		}
		refused(c, "xlsx", d.st, m, nil)
	})
}
