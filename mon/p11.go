package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"github.com/qri-io/dataset"
)

func init() {
	register(&Prop{
		ID:   "C11",
		Rule: "generated documents are encoded repeatedly, after cloning with maps refilled in other orders, after an encode/decode, and through every encoding entry point: the bytes have to agree; a key-order scanner reads every encoding; every single field (of the document and of its parts) is changed in turn and has to change the bytes and the hash; hashes are compared with an independent SHA-256 multihash and base58; non-trivial: at least one field set, distinct by encoded bytes",
		Assume: []string{
			"known findings: key pairs that the pinned tree already emits out of order (reordering them would change every stored hash)",
			"documents are JSON-representable and not changed while encoded",
		},
		Need: map[string]int64{"encodings": 8000, "perturbations": 5000, "objects_scanned": 5000, "hashes": 1500, "nudges": 1000},
		Run:  runC11,
	})
}

const b58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func refBase58(b []byte) string {
	n := new(big.Int).SetBytes(b)
	var out []byte
	m, d := new(big.Int), big.NewInt(58)
	for n.Sign() > 0 {
		n.DivMod(n, d, m)
		out = append(out, b58[m.Int64()])
	}
	for _, x := range b {
		if x != 0 {
			break
		}
		out = append(out, '1')
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return string(out)
}

func refHash(data []byte) string {
	s := sha256.Sum256(data)
	return refBase58(append([]byte{0x12, 0x20}, s[:]...))
}

// scanKeys reports keys that come after a greater one within an object
func scanKeys(data []byte, visit func(path, prev, key string)) (objects int, err error) {
	dec := json.NewDecoder(bytes.NewReader(data))
	var value func(path string) error
	value = func(path string) error {
		tok, err := dec.Token()
		if err != nil {
			return err
		}
		switch tok {
		case json.Delim('{'):
			objects++
			prev, first := "", true
			for dec.More() {
				kt, err := dec.Token()
				if err != nil {
					return err
				}
				k := kt.(string)
				if !first && k <= prev {
					visit(path, prev, k)
				}
				prev, first = k, false
				if err := value(path + "/" + k); err != nil {
					return err
				}
			}
			_, err = dec.Token()
			return err
		case json.Delim('['):
			for dec.More() {
				if err := value(path + "/#"); err != nil {
					return err
				}
			}
			_, err = dec.Token()
			return err
		}
		return nil
	}
	err = value("")
	return
}

// orderPath names the kind of object a path points into; free-form content is
// named as such
func orderPath(root string, path string) string {
	parts := strings.Split(strings.TrimPrefix(path, "/"), "/")
	names := []string{root}
	for _, p := range parts {
		if p == "" {
			continue
		}
		switch p {
		case "body", "schema", "formatConfig", "config":
			return strings.Join(append(names, p+" content"), "/")
		}
		names = append(names, p)
	}
	return strings.Join(names, "/")
}

// docType names the document type an object inside an encoding belongs to
func docType(root string, path string) string {
	comp := map[string]string{"commit": "Commit", "meta": "Meta", "readme": "Readme", "structure": "Structure", "stats": "Stats", "transform": "Transform", "viz": "Viz"}
	t := root
	for _, p := range strings.Split(strings.TrimPrefix(path, "/"), "/") {
		if p == "" {
			continue
		}
		switch {
		case t == "Dataset" && comp[p] != "":
			t = comp[p]
		case t == "Commit" && p == "author":
			t = "User"
		case t == "Meta" && p == "contributors":
			t = "User"
		case t == "Meta" && p == "citations":
			t = "Citation"
		case t == "Meta" && p == "license":
			t = "License"
		case t == "Transform" && p == "steps":
			t = "TransformStep"
		case p == "#":
		default:
			return "free-form"
		}
	}
	return t
}

func encodeAll(doc interface{}) map[string][]byte {
	out := map[string][]byte{}
	b, err := json.Marshal(doc)
	if err != nil {
		b = []byte("error " + err.Error())
	}
	out["json.Marshal"] = b
	if m, ok := doc.(json.Marshaler); ok {
		b, err := m.MarshalJSON()
		if err != nil {
			b = []byte("error " + err.Error())
		}
		// json.Marshal compacts and escapes what MarshalJSON returns
		var buf bytes.Buffer
		if json.Compact(&buf, b) == nil {
			b = buf.Bytes()
		}
		out["MarshalJSON"] = b
	}
	return out
}

// perturb changes one randomly chosen exported leaf of a document (not
// secrets), returning what it changed
func perturb(c *Case, v reflect.Value, path string) string {
	t := v.Type()
	var idx []int
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" || f.Name == "Secrets" {
			continue
		}
		idx = append(idx, i)
	}
	i := idx[c.Rng.Intn(len(idx))]
	return perturbField(c, v, i, path)
}

func perturbField(c *Case, v reflect.Value, i int, path string) string {
	f := v.Type().Field(i)
	p := path + "." + f.Name
	fv := v.Field(i)
	old := fv.Interface()
	switch f.Type.Kind() {
	case reflect.Ptr:
		if !fv.IsNil() && c.Rng.Intn(4) > 0 {
			return perturb(c, fv.Elem(), p)
		}
		if fv.IsNil() {
			n := reflect.New(f.Type.Elem())
			fillStruct(c.Rng, n.Elem(), docOpts{full: 8})
			fv.Set(n)
		} else {
			fv.Set(reflect.Zero(f.Type))
		}
		return p + " presence"
	case reflect.Map, reflect.Slice:
		if fv.Len() > 0 && f.Type.Kind() == reflect.Slice && f.Type.Elem().Kind() == reflect.Ptr && c.Rng.Intn(2) == 0 {
			return perturb(c, fv.Index(c.Rng.Intn(fv.Len())).Elem(), p+"[]")
		}
		if fv.Len() > 0 && c.Rng.Intn(3) == 0 {
			fv.Set(reflect.Zero(f.Type))
			return p + " removed"
		}
	}
	for k := 0; k < 20; k++ {
		n := genField(c.Rng, f.Type, f.Name, docOpts{})
		if f.Type.Kind() == reflect.Bool && fv.Bool() {
			n = reflect.ValueOf(false)
		}
		if f.Name == "Qri" {
			n = reflect.ValueOf(fmt.Sprintf("p%d:7", c.Rng.Intn(9)))
		}
		if tm, ok := old.(interface{ Unix() int64 }); ok && f.Type == timeType {
			if tm.Unix() == n.Interface().(interface{ Unix() int64 }).Unix() {
				continue
			}
		}
		nv := reflect.New(f.Type).Elem()
		nv.Set(n)
		if !sameJSON(nv.Interface(), old) {
			fv.Set(n)
			return p
		}
	}
	return ""
}

func sameJSON(a, b interface{}) bool {
	return mustJSON(a) == mustJSON(b)
}

func runC11(r *Run) {
	check := func(c *Case, doc interface{}, t reflect.Type, empties bool) {
		first := encodeAll(doc)["json.Marshal"]
		if bytes.HasPrefix(first, []byte("error")) {
			c.Fail("encode", "%s", first)
			return
		}
		same := func(what string, x interface{}) {
			encs := encodeAll(x)
			ks := []string{}
			for k := range encs {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				c.Ev("encodings")
				if !bytes.Equal(encs[k], first) {
					c.Fail("unequal:"+t.Name(), "%s by %s: %s", what, k, firstDiff(string(first), string(encs[k])))
					return
				}
			}
		}
		same("again", doc)
		same("once more", doc)
		same("clone", cloneDoc(doc))
		back := reflect.New(t)
		if err := json.Unmarshal(first, back.Interface()); err == nil && !empties {
			same("decoded", back.Interface())
		}
		n, err := scanKeys(first, func(path, prev, key string) {
			dt := docType(t.Name(), path)
			c.Fail("order:"+dt+":"+prev+">"+key, "%s: key %q comes after %q in %s", dt, key, prev, quoteClip(first))
		})
		if err != nil {
			c.Fail("not-json", "%v: %s", err, quoteClip(first))
		}
		c.EvN("objects_scanned", n)
		if m, ok := doc.(json.Marshaler); ok {
			h, err := dataset.JSONHash(m)
			raw, _ := m.MarshalJSON()
			c.Ev("hashes")
			if err != nil || h != refHash(raw) {
				c.Fail("jsonhash", "JSONHash %q, %v, want %q", h, err, refHash(raw))
			}
			if st, ok := doc.(*dataset.Structure); ok {
				if h2, err := st.Hash(); err != nil || h2 != h {
					c.Fail("structure-hash", "Structure.Hash %q %v, JSONHash %q", h2, err, h)
				}
			}
		}
		// object form
		if o, ok := doc.(jsonObjecter); ok {
			a, e1 := o.MarshalJSONObject()
			b, e2 := cloneDoc(doc).(jsonObjecter).MarshalJSONObject()
			c.Ev("encodings")
			if e1 != nil || e2 != nil || !bytes.Equal(a, b) {
				c.Fail("object-unequal:"+t.Name(), "%v %v %s", e1, e2, firstDiff(string(a), string(b)))
			}
			if len(first) > 0 && first[0] == '{' {
				if !bytes.Equal(compactJSON(a), first) {
					c.Fail("object-differs:"+t.Name(), "MarshalJSONObject and MarshalJSON differ: %s", firstDiff(string(first), string(a)))
				}
			}
		}
		c.Distinct(first)
		c.Sample("%s", first)
	}
	for _, t := range compTypes {
		t := t
		r.Each("mix-"+t.Name(), r.Q(400, 6000), func(c *Case) {
			empties := c.Rng.Intn(2) == 0 // these may come back absent, as another document
			check(c, genComponent(c.Rng, t, docOpts{empties: empties}), t, empties)
		})
		r.Each("perturb-"+t.Name(), r.Q(1500, 20000), func(c *Case) {
			doc := genComponent(c.Rng, t, docOpts{})
			before := encodeAll(doc)["json.Marshal"]
			v := reflect.ValueOf(doc).Elem()
			wasRef := refOnly(v)
			var what string
			if c.Idx%3 == 2 {
				if what = nudgeDoc(c.Rng, doc, "Secrets", "Qri"); what != "" {
					c.Ev("nudges")
				}
			} else if c.Idx < t.NumField()*9 && t.Field(c.Idx%t.NumField()).PkgPath == "" && t.Field(c.Idx%t.NumField()).Name != "Secrets" {
				what = perturbField(c, v, c.Idx%t.NumField(), t.Name())
			} else {
				what = perturb(c, v, t.Name())
			}
			if md, ok := doc.(*dataset.Meta); ok && c.Rng.Intn(4) == 0 {
				k := arbKey(c.Rng, docOpts{})
				what += " meta[" + k + "]"
				md.SetArbitrary(k, fmt.Sprintf("new value %d", c.Idx))
			}
			if what == "" || (strings.HasSuffix(what, ".Qri") && (wasRef || hasRef(v))) {
				return // a reference does not carry its kind
			}
			after := encodeAll(doc)["json.Marshal"]
			c.Ev("perturbations")
			if bytes.Equal(before, after) {
				c.Fail("not-injective:"+t.Name()+":"+what[strings.LastIndex(what, ".")+1:], "changing %s does not change the encoding %s", what, quoteClip(after))
			}
		})
	}
	r.Each("hash", r.Q(1500, 20000), func(c *Case) {
		n := c.Rng.Intn(200)
		if c.Idx%10 == 0 {
			n = []int{0, 1, 55, 56, 63, 64, 65, 4096, 100000}[c.Rng.Intn(9)]
		}
		if c.Idx%150 == 7 {
			n = []int{1 << 16, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<20 + 4096, 3 << 20, 1 << 23, 9000001}[c.Rng.Intn(8)]
		}
		b := randBytes(c.Rng, n)
		cp := append([]byte(nil), b...)
		h, err := dataset.HashBytes(b)
		c.Ev("hashes")
		if err != nil || h != refHash(cp) || !bytes.Equal(b, cp) {
			c.Fail("hash", "HashBytes of %d bytes: %q, %v, want %q", n, h, err, refHash(cp))
		}
		if n > 0 {
			at := c.Rng.Intn(n)
			if c.Rng.Intn(3) == 0 {
				at = n - 1
			}
			b[at] ^= 1 << uint(c.Rng.Intn(8))
			h2, _ := dataset.HashBytes(b)
			if h2 == h {
				c.Fail("hash-collision", "flipping a bit keeps the hash")
			}
			if n < 1<<12 {
				c.Distinct(cp)
			} else {
				c.Distinct(n, at)
			}
		}
	})
	_ = orderPath
}

func compactJSON(b []byte) []byte {
	var buf bytes.Buffer
	// the way encoding/json normalises the output of a Marshaler
	if x, err := json.Marshal(json.RawMessage(b)); err == nil {
		return x
	}
	buf.Write(b)
	return buf.Bytes()
}

// hasRef says a component of the document is only a reference
func hasRef(v reflect.Value) bool {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if v.Type().Field(i).PkgPath == "" && f.Kind() == reflect.Ptr && !f.IsNil() && kindOf[f.Elem().Type().Name()] != "" && refOnly(f.Elem()) {
			return true
		}
	}
	return false
}
