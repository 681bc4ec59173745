package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
)

func init() {
	register(&Prop{
		ID:   "C01",
		Rule: "random entry sequences (nested values; strings, integers, lengths and counts biased to encoding and buffer boundaries) written and read back through the real writer and reader for JSON, NDJSON, CBOR x {array,object} x {none,gzip,zst} and pretty JSON; non-trivial: at least one entry, distinct by written bytes",
		Assume: []string{
			"values are null, booleans, valid UTF-8 strings, int64, finite float64, byte strings (CBOR), arrays and string-keyed objects",
			"numbers are compared by value, not Go type; NDJSON numbers at float64 precision",
			"object bodies are compared as sets of pairs where the format canonicalises key order (CBOR)",
		},
		Need: map[string]int64{"roundtrips": 500, "entries": 2000},
		Run:  runC01,
	})
}

type rtFmt struct {
	name, format, tlt string
	pretty            bool
}

var rtFmts = []rtFmt{
	{"json-array", "json", "array", false}, {"json-object", "json", "object", false},
	{"cbor-array", "cbor", "array", false}, {"cbor-object", "cbor", "object", false},
	{"ndjson", "ndjson", "array", false},
	{"pretty-array", "json", "array", true}, {"pretty-object", "json", "object", true},
}

func runC01(r *Run) {
	n := r.Q(900, 20000)
	for _, f := range rtFmts {
		f := f
		r.Each(f.name, n, func(c *Case) {
			comp := genComp(c.Rng)
			o := vopts{maxDepth: 3, bigString: true, safeInts: f.format == "ndjson", bytes: f.format == "cbor"}
			cnt := genCount(c.Rng, true)
			c01One(c, f, comp, o, cnt)
		})
		// single entries crossing the big read buffers
		r.Each(f.name+"/big", r.Q(10, 60), func(c *Case) {
			o := vopts{maxDepth: 1, bytes: f.format == "cbor", safeInts: true}
			size := bigEdges[c.Rng.Intn(len(bigEdges))] + c.Rng.Intn(9) - 4
			c01Big(c, f, genComp(c.Rng), o, size)
		})
		// many entries
		r.Each(f.name+"/many", r.Q(3, 20), func(c *Case) {
			o := vopts{maxDepth: 1, safeInts: true}
			c01One(c, f, genComp(c.Rng), o, []int{4095, 4096, 4097, 10000, 20001, 65535, 65536, 65537}[c.Rng.Intn(8)])
		})
	}
	// long arrays and objects inside an entry
	r.Each("nested", r.Q(24, 200), func(c *Case) {
		f := rtFmts[c.Idx%len(rtFmts)]
		n := []int{255, 256, 257, 1023, 1025, 4097, 32769, 65535, 65536, 65537, 70001}[c.Rng.Intn(11)]
		o := vopts{maxDepth: 1, safeInts: true}
		var v interface{} = genArr(c.Rng, n, o)
		switch c.Rng.Intn(3) {
		case 0:
			nulls := make(arr, n)
			for i := n - 1; i >= 0 && i > n-4; i-- {
				nulls[i] = int64(i)
			}
			v = nulls
		case 1:
			m := obj{}
			for i := 0; i < n; i++ {
				m[fmt.Sprintf("k%d", i)] = int64(i)
			}
			v = m
		}
		if c.Rng.Intn(2) == 0 {
			v = arr{"in", v, obj{"v": true}}
		}
		c.Ev("nested")
		if f.tlt == "object" {
			ps := []kv{{"a", int64(1)}, {"b", v}, {"c", "after"}}
			c01Check(c, f, genComp(c.Rng), nil, ps, entriesObj(ps))
			return
		}
		want := arr{int64(1), v, "after"}
		c01Check(c, f, genComp(c.Rng), want, nil, entriesArr(want))
	})
	// an EntryBuffer is the same writer and reader over one buffer
	r.Each("buffer", r.Q(500, 5000), func(c *Case) {
		f := rtFmts[c.Rng.Intn(5)]
		o := vopts{maxDepth: 3, bigString: true, safeInts: f.format == "ndjson"}
		st := stFor(c.Rng, f.format, f.tlt, "")
		buf, err := dsio.NewEntryBuffer(st)
		if err != nil {
			c.Fail("buffer-open:"+f.name, "%v", err)
			return
		}
		n := 1 + c.Rng.Intn(8)
		var want arr
		var ps []kv
		if f.tlt == "array" {
			want = genArr(c.Rng, n, o)
			for _, e := range entriesArr(want) {
				if err := buf.WriteEntry(e); err != nil {
					c.Fail("buffer-write:"+f.name, "%v", err)
					return
				}
			}
		} else {
			ps = genPairs(c.Rng, n, o)
			for _, e := range entriesObj(ps) {
				if err := buf.WriteEntry(e); err != nil {
					c.Fail("buffer-write:"+f.name, "%v", err)
					return
				}
			}
		}
		if err := buf.Close(); err != nil {
			c.Fail("buffer-close:"+f.name, "%v", err)
			return
		}
		b := append([]byte(nil), buf.Bytes()...)
		c.Distinct(f.name, b)
		c.Ev("roundtrips")
		t := readAllEntries(buf)
		d := ""
		if f.tlt == "array" {
			d = diffArr(want, t, eqOpts{floatPrec: f.format == "ndjson"})
		} else {
			d = diffObj(ps, t, f.format != "cbor", eqOpts{floatPrec: f.format == "ndjson"})
		}
		if d != "" {
			c.Fail("buffer:"+f.name, "%s\nbytes %s", d, quoteClip(b))
		}
	})
}

func c01One(c *Case, f rtFmt, comp string, o vopts, cnt int) {
	if cnt > 100 {
		o.maxDepth = 1
	}
	var want arr
	var ps []kv
	var ents []dsio.Entry
	if f.tlt == "array" {
		want = genArr(c.Rng, cnt, o)
		ents = entriesArr(want)
	} else {
		ps = genPairs(c.Rng, cnt, o)
		ents = entriesObj(ps)
	}
	c01Check(c, f, comp, want, ps, ents)
}

func c01Big(c *Case, f rtFmt, comp string, o vopts, size int) {
	big := bigStr(c.Rng, size)
	// random lead-in shifts the string over the buffer boundary
	lead := strings.Repeat("l", c.Rng.Intn(20))
	want := arr{lead, big, genValue(c.Rng, o), arr{big[:len(big)/2], int64(-c.Rng.Intn(100000)), true}, obj{"k": nil, "n": 1.25}, false, genValue(c.Rng, o)}
	half := want[3].(arr)
	half[0] = strings.ToValidUTF8(half[0].(string), "?")
	var ps []kv
	if f.tlt == "object" {
		for i, v := range want {
			ps = append(ps, kv{fmt.Sprintf("k%d", i), v})
		}
		ps = append(ps, kv{strings.Repeat("K", size/3), "v"})
		c01Check(c, f, comp, nil, ps, entriesObj(ps))
		return
	}
	c01Check(c, f, comp, want, nil, entriesArr(want))
}

func c01Check(c *Case, f rtFmt, comp string, want arr, ps []kv, ents []dsio.Entry) {
	st := stFor(c.Rng, f.format, f.tlt, comp)
	b, err := writeFmt(c, f, st, ents)
	if err != nil {
		c.Fail("write:"+f.name, "writer refused in-domain entries: %v\nentries %s", err, clipv(fmt.Sprint(ents)))
		return
	}
	if len(ents) > 0 {
		c.Distinct(f.name, comp, b)
	}
	c.Ev("roundtrips")
	c.EvN("entries", len(ents))
	c.Sample("%s %q %d entries -> %s", f.name, comp, len(ents), quoteClip(b))
	t := readBodyBytes(st, b)
	eo := eqOpts{floatPrec: f.format == "ndjson"}
	d := ""
	if f.tlt == "array" {
		d = diffArr(want, t, eo)
	} else {
		d = diffObj(ps, t, f.format != "cbor", eo)
	}
	if d != "" {
		c.Fail("roundtrip:"+f.name, "comp %q: %s\nbytes %s", comp, d, quoteClip(b))
	}
}

func writeFmt(c *Case, f rtFmt, st *dataset.Structure, ents []dsio.Entry) ([]byte, error) {
	if !f.pretty {
		return writeBody(st, ents)
	}
	var buf bytes.Buffer
	w, err := dsio.NewJSONPrettyWriter(st, &buf, []string{" ", "  ", "\t"}[c.Rng.Intn(3)])
	if err != nil {
		return nil, err
	}
	for _, en := range ents {
		if err = w.WriteEntry(en); err != nil {
			return nil, err
		}
	}
	err = w.Close()
	return buf.Bytes(), err
}
