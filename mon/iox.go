package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
)

var errInjected = errors.New("injected I/O fault")

// faultErrs are failures of different make that sources and readers report
var faultErrs = []error{errInjected, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, context.Canceled, errors.New("connection lost: EOF"), errors.New(""),
	fmt.Errorf("connection lost: %w", io.EOF), &os.PathError{Op: "read", Path: "/mnt/x", Err: io.EOF}, fmt.Errorf("after 3 tries: %w", io.ErrUnexpectedEOF)}

// anyFault picks one of them
func anyFault(r *rand.Rand) error { return faultErrs[r.Intn(len(faultErrs))] }

// chunkReader delivers data in scripted chunk sizes and records what it did
type chunkReader struct {
	data  []byte
	pos   int
	next  func(remain int) int // bytes to deliver (0 allowed: an empty read)
	eofIn bool                 // deliver io.EOF together with the last bytes
	reads int
	zeros int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	c.reads++
	if c.pos >= len(c.data) {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := c.next(len(c.data) - c.pos)
	if n == 0 {
		c.zeros++
		if c.zeros > 20 { // io.Reader may return 0,nil but not for ever
			n = 1
		} else {
			return 0, nil
		}
	}
	c.zeros = 0
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.data)-c.pos {
		n = len(c.data) - c.pos
	}
	copy(p, c.data[c.pos:c.pos+n])
	c.pos += n
	if c.eofIn && c.pos == len(c.data) {
		return n, io.EOF
	}
	return n, nil
}

// chunkings returns reader constructors for one byte string
func chunkings(r *rand.Rand, data []byte) map[string]func() io.Reader {
	seed := r.Int63()
	k := 1 + r.Intn(7)
	return map[string]func() io.Reader{
		"whole":   func() io.Reader { return bytes.NewReader(data) },
		"one":     func() io.Reader { return &chunkReader{data: data, next: func(int) int { return 1 }} },
		"one+eof": func() io.Reader { return &chunkReader{data: data, next: func(int) int { return 1 }, eofIn: true} },
		"all+eof": func() io.Reader { return &chunkReader{data: data, next: func(n int) int { return n }, eofIn: true} },
		"small":   func() io.Reader { return &chunkReader{data: data, next: func(int) int { return k }} },
		"rand": func() io.Reader {
			rr := rand.New(rand.NewSource(seed))
			return &chunkReader{data: data, next: func(int) int { return 1 + rr.Intn(5000) }}
		},
		"randzero": func() io.Reader {
			rr := rand.New(rand.NewSource(seed))
			return &chunkReader{data: data, next: func(int) int { return rr.Intn(40) }, eofIn: true}
		},
		"4096": func() io.Reader { return &chunkReader{data: data, next: func(int) int { return 4096 }} },
	}
}

// faultReader delivers data[:at] and then fails for ever, with err or any of faultErrs
type faultReader struct {
	data  []byte
	at    int
	pos   int
	with  bool // deliver the error together with the last good bytes
	err   error
	chunk int
	fired int
	then  int // after the first failure: 0 it keeps failing, 1 the source ends, 2 it delivers the rest
}

func (f *faultReader) Read(p []byte) (int, error) {
	if f.fired > 0 && f.then == 1 {
		return 0, io.EOF
	}
	if f.fired > 0 && f.then == 2 {
		if f.pos >= len(f.data) {
			return 0, io.EOF
		}
		n := copy(p, f.data[f.pos:])
		f.pos += n
		return n, nil
	}
	fail := f.err
	if fail == nil {
		fail = faultErrs[f.at%len(faultErrs)]
	}
	if f.pos >= f.at {
		f.fired++
		return 0, fail
	}
	n := len(p)
	if f.chunk > 0 && n > f.chunk {
		n = f.chunk
	}
	if n > f.at-f.pos {
		n = f.at - f.pos
	}
	copy(p, f.data[f.pos:f.pos+n])
	f.pos += n
	if f.with && f.pos >= f.at {
		f.fired++
		return n, fail
	}
	return n, nil
}

// faultWriter accepts `limit` bytes, then fails (once or for ever)
type faultWriter struct {
	buf   bytes.Buffer
	limit int
	fired int
	once  bool
}

func (f *faultWriter) Write(p []byte) (int, error) {
	if f.once && f.fired > 0 {
		return f.buf.Write(p)
	}
	room := f.limit - f.buf.Len()
	if room >= len(p) {
		return f.buf.Write(p)
	}
	f.fired++
	if room < 0 {
		room = 0
	}
	n, _ := f.buf.Write(p[:room])
	return n, errInjected
}

// ---- driving entry readers and writers

// trace is the observation of reading a body to its end
type trace struct {
	ents []dsio.Entry
	err  error // nil: clean end of data
}

const maxEntries = 2000000

// readAllEntries drives an EntryReader to its end, recording each entry
func readAllEntries(rd dsio.EntryReader) trace {
	t := trace{}
	for {
		e, err := rd.ReadEntry()
		if err != nil {
			if err != io.EOF {
				t.err = err
			}
			return t
		}
		t.ents = append(t.ents, e)
		if len(t.ents) > maxEntries {
			t.err = fmt.Errorf("harness: more than %d entries", maxEntries)
			return t
		}
	}
}

// readBody opens and reads a body
func readBody(st *dataset.Structure, r io.Reader) trace {
	rd, err := dsio.NewEntryReader(st, r)
	if err != nil {
		return trace{err: fmt.Errorf("open: %w", err)}
	}
	t := readAllEntries(rd)
	if cerr := rd.Close(); cerr != nil && t.err == nil {
		t.err = fmt.Errorf("close: %w", cerr)
	}
	return t
}

func readBodyBytes(st *dataset.Structure, data []byte) trace {
	return readBody(described(st, len(data)), bytes.NewReader(data))
}

// described is a structure with other figures about the body, right or wrong:
// only format, options, compression and schema say how a body is read or written
func described(st *dataset.Structure, n int) *dataset.Structure {
	if st == nil || n%3 == 0 {
		return st
	}
	d := *st
	if n&1 == 0 {
		d.Entries = []int{1, 2, 100, n, -1, 3, 99, 1 << 40}[n/2%8]
	}
	if n&2 == 0 {
		d.Length = []int{1, n, n / 2, n - 1, n + 1}[n/4%5]
	}
	if n&4 == 0 {
		d.Depth = n % 5
		d.ErrCount = n % 7
	}
	if n&8 == 0 {
		d.Checksum, d.Encoding = "QmSum", "UTF-8"
	}
	d.Strict = n&16 == 0
	if n&32 == 0 {
		d.Path, d.Qri = "/mem/structure", "st:0"
	}
	return &d
}

// writeBody writes entries through the real writer
func writeBody(st *dataset.Structure, ents []dsio.Entry) ([]byte, error) {
	var buf bytes.Buffer
	w, err := dsio.NewEntryWriter(described(st, len(ents)), &buf)
	if err != nil {
		return nil, fmt.Errorf("open: %w", err)
	}
	for i, e := range ents {
		if err := w.WriteEntry(e); err != nil {
			return nil, fmt.Errorf("entry %d: %w", i, err)
		}
	}
	if err := w.Close(); err != nil {
		return nil, fmt.Errorf("close: %w", err)
	}
	return buf.Bytes(), nil
}

// entriesOf turns a top-level value into the entries a body of it has
func entriesArr(vals arr) []dsio.Entry {
	es := make([]dsio.Entry, len(vals))
	for i, v := range vals {
		es[i] = dsio.Entry{Index: i, Value: v}
	}
	return es
}

// diffEntries compares a trace with the values it should carry (array)
func diffArr(want arr, t trace, o eqOpts) string {
	if t.err != nil {
		return fmt.Sprintf("error after %d of %d entries: %v", len(t.ents), len(want), t.err)
	}
	if len(t.ents) != len(want) {
		return fmt.Sprintf("want %d entries, got %d", len(want), len(t.ents))
	}
	for i := range want {
		if d := diffVal(fmt.Sprintf("entry %d", i), want[i], t.ents[i].Value, o); d != "" {
			return d
		}
		if t.ents[i].Index != i {
			return fmt.Sprintf("entry %d carries index %d", i, t.ents[i].Index)
		}
		if t.ents[i].Key != "" {
			return fmt.Sprintf("entry %d of an array carries key %q", i, t.ents[i].Key)
		}
	}
	return ""
}

type kv struct {
	k string
	v interface{}
}

// diffObj compares a trace with the key/value pairs it should carry. ordered
// says the format keeps entry order.
func diffObj(want []kv, t trace, ordered bool, o eqOpts) string {
	if t.err != nil {
		return fmt.Sprintf("error after %d of %d entries: %v", len(t.ents), len(want), t.err)
	}
	if len(t.ents) != len(want) {
		return fmt.Sprintf("want %d entries, got %d", len(want), len(t.ents))
	}
	if ordered {
		for i := range want {
			if t.ents[i].Key != want[i].k {
				return fmt.Sprintf("entry %d: want key %s, got %s", i, clipv(want[i].k), clipv(t.ents[i].Key))
			}
			if d := diffVal(fmt.Sprintf("entry %d", i), want[i].v, t.ents[i].Value, o); d != "" {
				return d
			}
		}
		return ""
	}
	got := obj{}
	for _, e := range t.ents {
		if _, dup := got[e.Key]; dup {
			return fmt.Sprintf("key %s delivered twice", clipv(e.Key))
		}
		got[e.Key] = e.Value
	}
	w := obj{}
	for _, p := range want {
		w[p.k] = p.v
	}
	return diffVal("", w, got, o)
}

func entriesObj(ps []kv) []dsio.Entry {
	es := make([]dsio.Entry, len(ps))
	for i, p := range ps {
		es[i] = dsio.Entry{Key: p.k, Value: p.v}
	}
	return es
}

func genPairs(r *rand.Rand, n int, o vopts) []kv {
	seen := map[string]bool{}
	var ps []kv
	for i := 0; len(ps) < n; i++ {
		k := genKey(r, o)
		if n > 50 {
			k = fmt.Sprintf("%s%d", k[:min(len(k), 5)], i)
			k = strings.ToValidUTF8(k, "_")
		} else if len(ps) > 0 && r.Intn(6) == 0 {
			if p := ps[r.Intn(len(ps))].k; len(p) < 50 {
				k = nearKey(r, p)
			}
		}
		if seen[k] {
			k = fmt.Sprintf("%s~%d", k, i)
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		ps = append(ps, kv{k, genValue(r, o)})
	}
	return ps
}

func genArr(r *rand.Rand, n int, o vopts) arr {
	a := make(arr, n)
	if n > 100 {
		o.maxDepth, o.bigString = 1, false
	}
	for i := range a {
		a[i] = genValue(r, o)
	}
	return a
}
