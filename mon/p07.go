package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"reflect"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
)

func init() {
	register(&Prop{
		ID:     "C07",
		Rule:   "bodies of known entries (tables in all five formats, objects in JSON and CBOR, plain or compressed, in-memory readers) are paged with offsets and limits around and past the end, read whole, iterated, copied and converted between every pair of formats; entry traces and reparsed documents are compared with a slice of the known entries; non-trivial: the body has entries, distinct by body and page",
		Assume: []string{"offsets and limits from 0 up", "conversion between formats that can both hold the rows (tables)"},
		Need:   map[string]int64{"pages": 5000, "conversions": 1500, "copies": 300, "iterations": 300},
		Run:    runC07,
	})
}

// listReader is an EntryReader over a list, counting reads
type listReader struct {
	st    *dataset.Structure
	ents  []dsio.Entry
	pos   int
	fail  int // fail instead of delivering entry number fail (0: never, 1-based)
	reads int
	after int // reads after the end was reported
	err   error
}

func (l *listReader) Structure() *dataset.Structure { return l.st }
func (l *listReader) ReadEntry() (dsio.Entry, error) {
	l.reads++
	if l.fail > 0 && l.pos+1 >= l.fail {
		if l.err != nil {
			return dsio.Entry{}, l.err
		}
		return dsio.Entry{}, errInjected
	}
	if l.pos >= len(l.ents) {
		l.after++
		return dsio.Entry{}, io.EOF
	}
	l.pos++
	return l.ents[l.pos-1], nil
}
func (l *listReader) Close() error { return nil }

func pageOf(n, off, lim int) (int, int) {
	if off > n {
		off = n
	}
	end := n
	if lim < n-off {
		end = off + lim
	}
	return off, end
}

func genPage(r *rand.Rand, n int) (off, lim int) {
	pick := func() int {
		switch r.Intn(5) {
		case 0:
			return 0
		case 1:
			return n + r.Intn(4) - 1
		case 2:
			return []int{1, 2, 100, math.MaxInt32, math.MaxInt64}[r.Intn(5)]
		default:
			return r.Intn(n + 3)
		}
	}
	off, lim = pick(), pick()
	if off < 0 {
		off = 0
	}
	if lim < 0 {
		lim = 0
	}
	return
}

// tableBody writes rows in any tabular-capable format
func tableStructure(r *rand.Rand, format string, cs []col) *dataset.Structure {
	st := stale(r, &dataset.Structure{Format: format, Schema: tabularSchema(cs)})
	if format == "csv" {
		st.FormatConfig = obj{"headerRow": r.Intn(2) == 0}
		if r.Intn(3) == 0 {
			st.FormatConfig["separator"] = []string{";", "|", "\t"}[r.Intn(3)]
		}
	}
	if format == "json" && r.Intn(3) == 0 {
		st.FormatConfig = obj{"pretty": r.Intn(3) > 0}
	}
	if format != "xlsx" && r.Intn(4) == 0 {
		st.Compression = []string{"gzip", "zst"}[r.Intn(2)]
	}
	return st
}

// tellsOf reports whether an error wraps or quotes another
func tellsOf(err, cause error) bool {
	return errors.Is(err, cause) || strings.Contains(err.Error(), cause.Error())
}

func runC07(r *Run) {
	formats := []string{"json", "csv", "cbor", "ndjson", "xlsx"}
	table := func(c *Case, n int, safe bool) ([]col, arr) {
		cs := genCols(c.Rng, []string{"string", "number", "integer", "boolean", "array", "object"})
		if len(cs) > 6 {
			cs = cs[:6]
		}
		return cs, genRows(c, cs, n, vopts{noCR: true, xmlSafe: true, safeInts: safe}, false)
	}
	size := func(c *Case) int {
		if c.Rng.Intn(20) == 0 {
			return 150
		}
		return c.Rng.Intn(10)
	}
	r.Each("page", r.Q(1500, 30000), func(c *Case) {
		var open func() dsio.EntryReader
		var want []dsio.Entry
		what := ""
		if c.Rng.Intn(4) == 0 { // object bodies
			ps := genPairs(c.Rng, size(c), vopts{maxDepth: 1, safeInts: true})
			st := stFor(c.Rng, "json", "object", genComp(c.Rng))
			b, err := writeBody(st, entriesObj(ps))
			if err != nil {
				c.Fail("write", "%v", err)
				return
			}
			open = func() dsio.EntryReader {
				rd, err := dsio.NewEntryReader(st, bytes.NewReader(b))
				if err != nil {
					panic(err)
				}
				return rd
			}
			what = "json object"
			want = readBodyBytes(st, b).ents
			if len(want) != len(ps) {
				c.Fail("base", "%d of %d entries", len(want), len(ps))
			}
		} else if c.Rng.Intn(4) == 0 { // in-memory
			vals := genArr(c.Rng, size(c), vopts{maxDepth: 1})
			st := stFor(c.Rng, "json", "array", "")
			open = func() dsio.EntryReader {
				rd, err := dsio.NewIdentityReader(st, vals)
				if err != nil {
					panic(err)
				}
				return rd
			}
			want = entriesArr(vals)
			what = "identity"
		} else {
			f := formats[c.Rng.Intn(len(formats))]
			cs, rows := table(c, size(c), f == "ndjson")
			st := tableStructure(c.Rng, f, cs)
			b, err := writeBody(st, entriesArr(rows))
			if err != nil {
				c.Fail("write:"+f, "%v", err)
				return
			}
			open = func() dsio.EntryReader {
				rd, err := dsio.NewEntryReader(st, bytes.NewReader(b))
				if err != nil {
					panic(err)
				}
				return rd
			}
			what = f
			want = readBodyBytes(st, b).ents
			if len(want) != len(rows) {
				c.Fail("base", "%s: %d of %d entries", f, len(want), len(rows))
			}
		}
		c.EvN("entries", len(want))
		for k := 0; k < 8; k++ {
			off, lim := genPage(c.Rng, len(want))
			rd := open()
			pr := &dsio.PagedReader{Reader: rd, Offset: off, Limit: lim}
			t := readAllEntries(pr)
			// asking again after the end yields nothing more
			for i := 0; i < 2; i++ {
				if e, err := pr.ReadEntry(); err == nil {
					c.Fail("page-after-end", "%s page offset %d limit %d of %d: after the end: %s", what, off, lim, len(want), clipv(e))
				}
			}
			if err := pr.Close(); err != nil {
				c.Fail("page-close", "%v", err)
			}
			c.Ev("pages")
			a, b := pageOf(len(want), off, lim)
			if t.err != nil {
				c.Fail("page-error", "%s page offset %d limit %d of %d: %v", what, off, lim, len(want), t.err)
				continue
			}
			if !sameEntries(t.ents, want[a:b]) {
				c.Fail("page", "%s page offset %d limit %d of %d entries: got %d entries %s, want %d %s", what, off, lim, len(want), len(t.ents), clipv(t.ents), b-a, clipv(want[a:b]))
			}
			if len(want) > 0 {
				c.Distinct(what, fmt.Sprint(want), off, lim)
			}
		}
		c.Sample("%s %d entries", what, len(want))
	})
	// errors of the wrapped reader reach the caller of a page, and only if reached
	r.Each("page-fault", r.Q(1500, 20000), func(c *Case) {
		n := c.Rng.Intn(8)
		ents := entriesArr(genArr(c.Rng, n, vopts{}))
		fail := 1 + c.Rng.Intn(n+1)
		off, lim := genPage(c.Rng, n)
		lr := &listReader{st: stFor(c.Rng, "json", "array", ""), ents: ents, fail: fail, err: anyFault(c.Rng)}
		t := readAllEntries(&dsio.PagedReader{Reader: lr, Offset: off, Limit: lim})
		c.Ev("pages")
		// entries 0..fail-2 can be read
		avail := fail - 1
		if avail > n {
			avail = n
		}
		needed := off
		if lim > 0 {
			needed = math.MaxInt64
			if lim < math.MaxInt64-off {
				needed = off + lim
			}
		}
		wantErr := needed >= fail // the failing read happens
		if wantErr && t.err == nil {
			c.Fail("page-fault", "entry %d fails, page offset %d limit %d of %d ended cleanly after %d entries", fail, off, lim, n, len(t.ents))
		}
		if !wantErr && t.err != nil {
			c.Fail("page-fault", "entry %d fails, page offset %d limit %d of %d does not reach it and fails: %v", fail, off, lim, n, t.err)
		}
		a, b := pageOf(avail, off, lim)
		if !sameEntries(t.ents, ents[a:b]) {
			c.Fail("page-fault", "entry %d fails, page offset %d limit %d of %d: got %d entries want %d", fail, off, lim, n, len(t.ents), b-a)
		}
	})
	r.Each("copy", r.Q(1500, 20000), func(c *Case) {
		n := size(c)
		ents := entriesArr(genArr(c.Rng, n, vopts{maxDepth: 1}))
		lr := &listReader{st: stFor(c.Rng, "json", "array", ""), ents: ents}
		w := &recWriter{}
		if c.Rng.Intn(3) == 0 {
			lr.fail, lr.err = 1+c.Rng.Intn(n+1), anyFault(c.Rng)
		}
		if c.Rng.Intn(3) == 0 {
			w.fail = 1 + c.Rng.Intn(n+1)
		}
		err := dsio.Copy(lr, w)
		c.Ev("copies")
		stop := n
		var wantErr bool
		if lr.fail > 0 {
			stop, wantErr = lr.fail-1, true
		}
		if w.fail > 0 && w.fail-1 < stop {
			stop, wantErr = w.fail-1, true
		}
		if (err != nil) != wantErr {
			c.Fail("copy", "%d entries, reader fails at %d, writer fails at %d: error %v", n, lr.fail, w.fail, err)
		}
		if err != nil && lr.fail > 0 && (w.fail == 0 || lr.fail < w.fail) && !tellsOf(err, lr.err) {
			c.Fail("copy-error", "reader fails with %q, Copy with %q", lr.err, err)
		}
		if !sameEntries(w.ents, ents[:stop]) {
			c.Fail("copy", "%d entries, reader fails at %d, writer fails at %d: %d copied, want %d in order", n, lr.fail, w.fail, len(w.ents), stop)
		}
		c.Distinct("copy", fmt.Sprint(ents), lr.fail, w.fail)
	})
	r.Each("iterate", r.Q(1500, 20000), func(c *Case) {
		n := size(c)
		isObj := c.Rng.Intn(3) == 0
		var ents []dsio.Entry
		st := stFor(c.Rng, "json", "array", "")
		if isObj {
			st = stFor(c.Rng, "json", "object", "")
			ents = entriesObj(genPairs(c.Rng, n, vopts{maxDepth: 1}))
		} else {
			ents = entriesArr(genArr(c.Rng, n, vopts{maxDepth: 1}))
		}
		lr := &listReader{st: st, ents: ents}
		if c.Rng.Intn(3) == 0 {
			lr.fail, lr.err = 1+c.Rng.Intn(n+1), anyFault(c.Rng)
		}
		stopAt := -1
		var stopErr error
		if c.Rng.Intn(3) == 0 {
			stopAt = c.Rng.Intn(n + 1)
			stopErr = []error{errors.New("enough"), io.EOF}[c.Rng.Intn(2)]
		}
		var seen []dsio.Entry
		err := dsio.EachEntry(lr, func(i int, e dsio.Entry, err error) error {
			if i != len(seen) || err != nil {
				c.Fail("each-index", "call %d was given index %d, error %v", len(seen), i, err)
			}
			seen = append(seen, e)
			if i == stopAt {
				return stopErr
			}
			return nil
		})
		c.Ev("iterations")
		want, wantErr := n, false
		if lr.fail > 0 {
			want, wantErr = lr.fail-1, true
		}
		if stopAt >= 0 && stopAt < want {
			want, wantErr = stopAt+1, stopErr != io.EOF
		}
		if (err != nil) != wantErr || !sameEntries(seen, ents[:want]) {
			c.Fail("each", "%d entries, reader fails at %d, callback stops at %d with %v: saw %d want %d, error %v", n, lr.fail, stopAt, stopErr, len(seen), want, err)
		}
		if err != nil && wantErr {
			first := stopErr
			if lr.fail > 0 && (stopAt < 0 || stopAt >= lr.fail-1) {
				first = lr.err
			}
			if !tellsOf(err, first) {
				c.Fail("each-error", "stopped by %q, EachEntry returns %q", first, err)
			}
		}
		// iterating over a page numbers its entries from zero
		off, lim := genPage(c.Rng, n)
		if off >= 0 && lim >= 0 {
			var page []dsio.Entry
			err := dsio.EachEntry(&dsio.PagedReader{Reader: &listReader{st: st, ents: ents}, Offset: off, Limit: lim}, func(i int, e dsio.Entry, err error) error {
				if i != len(page) || err != nil {
					c.Fail("each-index", "entry %d of the page from %d was given index %d, error %v", len(page), off, i, err)
				}
				page = append(page, e)
				return nil
			})
			lo, hi := min(off, n), n
			if lim < n-lo {
				hi = lo + lim
			}
			if err != nil || !sameEntries(page, ents[lo:hi]) {
				c.Fail("each", "page of %d from %d of %d entries: saw %d, error %v", lim, off, n, len(page), err)
			}
			c.Ev("iterations")
		}
		// reading everything
		lr = &listReader{st: st, ents: ents, fail: lr.fail, err: lr.err}
		v, err := dsio.ReadAll(lr)
		if (err != nil) != (lr.fail > 0) {
			c.Fail("readall", "%d entries, reader fails at %d: error %v", n, lr.fail, err)
		}
		if err != nil && lr.fail > 0 && !tellsOf(err, lr.err) {
			c.Fail("readall-error", "reader fails with %q, ReadAll with %q", lr.err, err)
		}
		if err == nil {
			var wantV interface{}
			if isObj {
				m := obj{}
				for _, e := range ents {
					m[e.Key] = e.Value
				}
				wantV = m
			} else {
				a := arr{}
				for _, e := range ents {
					a = append(a, e.Value)
				}
				wantV = a
			}
			if d := diffVal("", wantV, v, eqOpts{}); d != "" {
				c.Fail("readall", "%s", d)
			}
		}
		c.Distinct("iter", fmt.Sprint(ents), lr.fail, stopAt)
	})
	// conversion between all pairs
	for _, from := range formats {
		for _, to := range formats {
			from, to := from, to
			n := r.Q(100, 1500)
			if from == "xlsx" || to == "xlsx" {
				n = r.Q(30, 300)
			}
			r.Each("convert:"+from+"-"+to, n, func(c *Case) {
				cs, rows := table(c, size(c), from == "ndjson" || to == "ndjson")
				in, out := tableStructure(c.Rng, from, cs), tableStructure(c.Rng, to, cs)
				b, err := writeBody(in, entriesArr(rows))
				if err != nil {
					c.Fail("write:"+from, "%v", err)
					return
				}
				all := c.Rng.Intn(3) == 0
				off, lim := genPage(c.Rng, len(rows))
				inS, outS := mustJSON(in), mustJSON(out)
				got, err := dsio.ConvertFile(faultFile{bytes.NewReader(b), "body"}, in, out, lim, off, all)
				c.Ev("conversions")
				if mustJSON(in) != inS || mustJSON(out) != outS {
					c.Fail("convert-structures", "conversion changed a structure")
				}
				if err != nil {
					c.Fail("convert:"+from+"-"+to, "%s: %v", mustJSON(in), err)
					return
				}
				a, e := 0, len(rows)
				if !all {
					a, e = pageOf(len(rows), off, lim)
				}
				t := readBodyBytes(out, got)
				if d := diffArr(rows[a:e], t, eqOpts{floatPrec: from == "ndjson" || to == "ndjson"}); d != "" {
					c.Fail("convert:"+from+"-"+to, "%s to %s, page offset %d limit %d all %v of %d rows: %s\ngot %s", inS, outS, off, lim, all, len(rows), d, quoteClip(got))
				}
				if pretty, _ := out.FormatConfig["pretty"].(bool); to == "json" && out.Compression == "" && e > a && bytes.Contains(got, []byte("\n")) != pretty {
					c.Fail("convert-pretty", "indented output asked for %v, got %s", pretty, quoteClip(got))
				}
				if to == "json" && out.Compression == "" && !bytes.Contains(got, []byte("]")) {
					c.Fail("convert-incomplete", "%s", quoteClip(got))
				}
				if len(rows) > 0 {
					c.Distinct(inS, outS, b, off, lim, all)
				}
			})
		}
	}
	for _, pair := range [][2]string{{"json", "cbor"}, {"cbor", "json"}, {"json", "json"}, {"cbor", "cbor"}} {
		pair := pair
		r.Each("convert-object:"+pair[0]+"-"+pair[1], r.Q(120, 2000), func(c *Case) {
			ps := genPairs(c.Rng, size(c), vopts{maxDepth: 2, safeInts: true})
			in, out := stFor(c.Rng, pair[0], "object", genComp(c.Rng)), stFor(c.Rng, pair[1], "object", genComp(c.Rng))
			b, err := writeBody(in, entriesObj(ps))
			if err != nil {
				c.Fail("write", "%v", err)
				return
			}
			src := readBodyBytes(in, b)
			off, lim := genPage(c.Rng, len(ps))
			all := c.Rng.Intn(2) == 0
			got, err := dsio.ConvertFile(faultFile{bytes.NewReader(b), "body"}, in, out, lim, off, all)
			c.Ev("conversions")
			if err != nil {
				c.Fail("convert-object", "%v", err)
				return
			}
			a, e := 0, len(ps)
			if !all {
				a, e = pageOf(len(ps), off, lim)
			}
			var want []kv
			for _, en := range src.ents[a:e] {
				want = append(want, kv{en.Key, en.Value})
			}
			if d := diffObj(want, readBodyBytes(out, got), pair[1] == "json", eqOpts{}); d != "" {
				c.Fail("convert-object", "%v offset %d limit %d all %v of %d: %s", pair, off, lim, all, len(ps), d)
			}
			c.Distinct("o", pair[0], pair[1], b, off, lim)
		})
	}
}

func sameEntries(a, b []dsio.Entry) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !reflect.DeepEqual(a[i], b[i]) {
			return false
		}
	}
	return true
}
