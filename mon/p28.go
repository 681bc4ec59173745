package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
)

func init() {
	register(&Prop{
		ID:   "C28",
		Rule: "every combination of component file (body, transform, readme and viz script, readme and viz rendered file), inline content, path, resolver (none, working, failing, delivering a file that fails while being read at any position), already set file and operation (open, inline), with random contents and paths; a case counts when the resolver's call log, the resulting file's bytes, the component's fields and the file's open/close state were compared with a decision table",
		Need: map[string]int64{"opens": 3000, "inlines": 2000, "resolved": 1000, "inline_content": 500, "no_resolver": 200, "resolve_errors": 500, "read_errors": 300, "nothing": 200, "closed": 500},
		Run:  runC28,
	})
}

// spyResolver records what it is asked for
type spyResolver struct {
	calls []string
	ctxOK bool
	fail  error
	data  map[string][]byte
	at    int // fail reading at this byte, -1 never
	files []*spyFile
	chunk int
}

type ctxKey struct{}

func (s *spyResolver) Get(ctx context.Context, path string) (qfs.File, error) {
	s.calls = append(s.calls, path)
	s.ctxOK = ctx != nil && ctx.Value(ctxKey{}) == "token"
	if s.fail != nil {
		return nil, s.fail
	}
	d, ok := s.data[path]
	if !ok {
		return nil, qfs.ErrNotFound
	}
	f := newSpyFile(path, d, s.at, s.chunk)
	s.files = append(s.files, f)
	return f, nil
}

type spyFile struct {
	faultFile
	rd     io.Reader
	closed int
	late   int // reads after close
}

func newSpyFile(path string, d []byte, at, chunk int) *spyFile {
	f := &spyFile{faultFile: faultFile{name: path}}
	if at >= 0 {
		f.rd = &faultReader{data: d, at: at, chunk: chunk, then: chunk / 2 % 2}
	} else {
		f.rd = &chunkReader{data: d, next: func(int) int { return chunk }, eofIn: chunk%2 == 0}
	}
	return f
}
func (f *spyFile) Read(p []byte) (int, error) {
	if f.closed > 0 {
		f.late++
		return 0, errors.New("read of a closed file")
	}
	return f.rd.Read(p)
}
func (f *spyFile) Close() error { f.closed++; return nil }

type slot struct {
	name string
	// mk builds a component with the given inline content, path and file
	mk func(text []byte, path string, f qfs.File) (doc interface{}, open func(context.Context, qfs.PathResolver) error, file func() qfs.File, inline func(context.Context, qfs.PathResolver) error, text2 func() (string, string))
}

var slots = []slot{
	{"body", func(text []byte, path string, f qfs.File) (interface{}, func(context.Context, qfs.PathResolver) error, func() qfs.File, func(context.Context, qfs.PathResolver) error, func() (string, string)) {
		d := &dataset.Dataset{BodyPath: path, BodyBytes: text, Name: "n"}
		if f != nil {
			d.SetBodyFile(f)
		}
		return d, d.OpenBodyFile, d.BodyFile, nil, nil
	}},
	{"transform", func(text []byte, path string, f qfs.File) (interface{}, func(context.Context, qfs.PathResolver) error, func() qfs.File, func(context.Context, qfs.PathResolver) error, func() (string, string)) {
		d := &dataset.Transform{Text: string(text), ScriptPath: path, Syntax: "s"}
		if f != nil {
			d.SetScriptFile(f)
		}
		return d, d.OpenScriptFile, d.ScriptFile, d.InlineScriptFile, func() (string, string) { return d.Text, d.ScriptPath }
	}},
	{"readme", func(text []byte, path string, f qfs.File) (interface{}, func(context.Context, qfs.PathResolver) error, func() qfs.File, func(context.Context, qfs.PathResolver) error, func() (string, string)) {
		d := &dataset.Readme{Text: string(text), ScriptPath: path, RenderedPath: "/other/rendered", Format: "md"}
		if f != nil {
			d.SetScriptFile(f)
		}
		return d, d.OpenScriptFile, d.ScriptFile, d.InlineScriptFile, func() (string, string) { return d.Text, d.ScriptPath }
	}},
	{"viz", func(text []byte, path string, f qfs.File) (interface{}, func(context.Context, qfs.PathResolver) error, func() qfs.File, func(context.Context, qfs.PathResolver) error, func() (string, string)) {
		d := &dataset.Viz{Text: string(text), ScriptPath: path, RenderedPath: "/other/rendered", Format: "html"}
		if f != nil {
			d.SetScriptFile(f)
		}
		return d, d.OpenScriptFile, d.ScriptFile, d.InlineScriptFile, func() (string, string) { return d.Text, d.ScriptPath }
	}},
	{"readme-rendered", func(text []byte, path string, f qfs.File) (interface{}, func(context.Context, qfs.PathResolver) error, func() qfs.File, func(context.Context, qfs.PathResolver) error, func() (string, string)) {
		d := &dataset.Readme{Text: string(text), ScriptPath: "/other/script", RenderedPath: path}
		if f != nil {
			d.SetRenderedFile(f)
		}
		return d, d.OpenRenderedFile, d.RenderedFile, nil, nil
	}},
	{"viz-rendered", func(text []byte, path string, f qfs.File) (interface{}, func(context.Context, qfs.PathResolver) error, func() qfs.File, func(context.Context, qfs.PathResolver) error, func() (string, string)) {
		d := &dataset.Viz{Text: string(text), ScriptPath: "/other/script", RenderedPath: path}
		if f != nil {
			d.SetRenderedFile(f)
		}
		return d, d.OpenRenderedFile, d.RenderedFile, nil, nil
	}},
}

// strip forgets the opened files, which opening is meant to change
func strip(doc interface{}) string {
	d := cloneDoc(doc)
	switch x := d.(type) {
	case *dataset.Dataset:
		x.SetBodyFile(nil)
	case *dataset.Transform:
		x.SetScriptFile(nil)
	case *dataset.Readme:
		x.SetScriptFile(nil)
		x.SetRenderedFile(nil)
	case *dataset.Viz:
		x.SetScriptFile(nil)
		x.SetRenderedFile(nil)
	}
	return dump(d)
}

func runC28(r *Run) {
	ctx := context.WithValue(context.Background(), ctxKey{}, "token")
	content := func(c *Case) []byte {
		switch c.Rng.Intn(6) {
		case 5: // nothing but white space, and other contents that look like none
			return []byte([]string{" ", "\n", "\r\n", "\t \n", "\x00", "\ufeff", "\u00a0", "null", "{}", "\"\"", "0", "false", "#"}[c.Rng.Intn(13)])
		case 0:
			return []byte(genString(c.Rng, vopts{}) + "x")
		case 1:
			return randBytes(c.Rng, 1+c.Rng.Intn(50))
		case 2:
			return []byte(bigStr(c.Rng, 1+c.Rng.Intn(9000)))
		}
		return []byte(fmt.Sprintf("script %d\n", c.Rng.Intn(1000)))
	}
	pathOf := func(c *Case) string {
		return []string{"/ipfs/QmA/script", "script.star", "a", "/mem/QmX/body.csv", "http://x/y", " spaced ", "./rel/../p", "/", "ü", "/a#b", "/a?b=c&d", "/a%20b", "/a%2Fb", "/a/", "~/x", "..", "file:///x", "http://x/y?z#w", "C:\\x", "$HOME/x", "a\nb", "//", "/ipfs/QmA", "x.gz", "#", "/a//b", "/A"}[c.Rng.Intn(27)]
	}
	// combos: slot x text? x path? x resolver kind(5) x preset? x op(2)
	n := len(slots) * 2 * 2 * 5 * 2 * 2
	r.Each("table", n*r.Q(60, 600), func(c *Case) {
		k := c.Idx % n
		take := func(m int) int { v := k % m; k /= m; return v }
		sl := slots[take(len(slots))]
		hasText, hasPath, rk, preset, op := take(2) == 1, take(2) == 1, take(5), take(2) == 1, take(2)
		rendered := sl.name == "readme-rendered" || sl.name == "viz-rendered"
		var text []byte
		if hasText {
			text = content(c)
		}
		path := ""
		if hasPath {
			path = pathOf(c)
		}
		data := content(c)
		if c.Rng.Intn(10) == 0 {
			data = []byte{}
		}
		var pf *spyFile
		var pre qfs.File
		preData := content(c)
		if preset {
			pf = newSpyFile("preset", preData, -1, 1+c.Rng.Intn(9))
			pre = pf
		}
		doc, open, file, inline, state := sl.mk(text, path, pre)
		if op == 1 && inline == nil {
			op = 0
		}
		res := &spyResolver{data: map[string][]byte{path: data}, at: -1, chunk: 1 + c.Rng.Intn(40)}
		var rs qfs.PathResolver = res
		switch rk {
		case 0:
			rs = nil
		case 2:
			res.fail = []error{errInjected, io.EOF, context.Canceled}[c.Rng.Intn(3)]
		case 3:
			res.data = nil
		case 4:
			res.at = c.Rng.Intn(len(data) + 1)
		}
		usesText := hasText && !rendered
		before := strip(doc)
		c.Distinct(sl.name, hasText, hasPath, rk, preset, op, string(data), string(text), path)
		what := fmt.Sprintf("%s op=%d text=%v path=%q resolver=%d preset=%v", sl.name, op, hasText, path, rk, preset)
		c.Sample("%s", what)

		if op == 0 {
			c.Ev("opens")
			err := open(ctx, rs)
			if a := strip(doc); a != before {
				c.Fail("open-changed:"+sl.name, "%s: opening changed the document: %s", what, firstDiff(before, a))
			}
			wantCalls := 0
			switch {
			case usesText:
				c.Ev("inline_content")
				if err != nil {
					c.Fail("open-inline:"+sl.name, "%s: %v", what, err)
				} else if got := readFile(file()); !bytes.Equal(got, text) {
					c.Fail("open-inline:"+sl.name, "%s: the file holds %s instead of the inline content %s", what, quoteClip(got), quoteClip(text))
				}
			case !hasPath:
				c.Ev("nothing")
				if err != nil {
					c.Fail("open-nothing:"+sl.name, "%s: nothing to open gives %v", what, err)
				}
				if preset && file() != pre || !preset && file() != nil {
					c.Fail("open-nothing:"+sl.name, "%s: nothing to open changed the file to %v", what, file())
				}
			case rs == nil:
				c.Ev("no_resolver")
				if err == nil {
					c.Fail("open-noresolver:"+sl.name, "%s: no error without a resolver", what)
				} else if !errors.Is(err, dataset.ErrNoResolver) {
					c.Fail("open-noresolver:"+sl.name, "%s: the error is %v", what, err)
				}
			case rk == 2 || rk == 3:
				wantCalls = 1
				c.Ev("resolve_errors")
				if err == nil {
					c.Fail("open-failed:"+sl.name, "%s: the resolver failed, no error", what)
				}
			default:
				wantCalls = 1
				c.Ev("resolved")
				if err != nil {
					c.Fail("open-path:"+sl.name, "%s: %v", what, err)
					break
				}
				f := file()
				if f == nil {
					c.Fail("open-path:"+sl.name, "%s: no file", what)
					break
				}
				got, rerr := io.ReadAll(f)
				if rk == 4 {
					if rerr == nil {
						c.Fail("open-path:"+sl.name, "%s: the file's read failure is lost", what)
					}
					c.Ev("read_errors")
				} else if rerr != nil || !bytes.Equal(got, data) {
					c.Fail("open-path:"+sl.name, "%s: the file holds %s (%v) instead of what the path resolves to %s", what, quoteClip(got), rerr, quoteClip(data))
				}
				if f.FullPath() != path {
					c.Fail("open-path:"+sl.name, "%s: the file is that of path %q", what, f.FullPath())
				}
			}
			if len(res.calls) != wantCalls || (wantCalls == 1 && (res.calls[0] != path || !res.ctxOK)) {
				c.Fail("open-calls:"+sl.name, "%s: the resolver was asked for %q (its context: %v)", what, res.calls, res.ctxOK)
			}
			return
		}

		// inlining
		c.Ev("inlines")
		err := inline(ctx, rs)
		gotText, gotPath := state()
		unchanged := func(sig string) {
			if a := strip(doc); a != before {
				c.Fail(sig, "%s: the document changed: %s", what, firstDiff(before, a))
			}
		}
		moved := func(sig string, want []byte) {
			if err != nil {
				c.Fail(sig, "%s: %v", what, err)
				return
			}
			if gotText != string(want) || gotPath != "" {
				c.Fail(sig, "%s: text is %s, path %q, the content is %s", what, quoteClip([]byte(gotText)), gotPath, quoteClip(want))
			}
			// nothing else changes
			d2, _, _, _, _ := sl.mk(want, "", nil)
			if a, b := strip(d2), strip(doc); a != b {
				c.Fail(sig, "%s: inlining changed more than text and path: %s", what, firstDiff(a, b))
			}
		}
		wantCalls := 0
		switch {
		case rs == nil:
			// documented as doing nothing
			c.Ev("no_resolver")
			if err == nil {
				unchanged("inline-noresolver:" + sl.name)
			}
		case usesText:
			c.Ev("inline_content")
			moved("inline-text:"+sl.name, text)
		case !hasPath && preset:
			moved("inline-preset:"+sl.name, preData)
		case !hasPath:
			c.Ev("nothing")
			if err != nil {
				c.Fail("inline-nothing:"+sl.name, "%s: nothing to inline gives %v", what, err)
			}
			unchanged("inline-nothing:" + sl.name)
		case rk == 2 || rk == 3:
			wantCalls = 1
			c.Ev("resolve_errors")
			if err == nil {
				c.Fail("inline-failed:"+sl.name, "%s: the resolver failed, no error", what)
			}
			unchanged("inline-failed:" + sl.name)
		case rk == 4:
			wantCalls = 1
			c.Ev("read_errors")
			if err == nil {
				c.Fail("inline-read:"+sl.name, "%s: reading failed at byte %d of %d, no error", what, res.at, len(data))
			}
			unchanged("inline-read:" + sl.name)
		default:
			wantCalls = 1
			c.Ev("resolved")
			moved("inline-path:"+sl.name, data)
		}
		if len(res.calls) != wantCalls || (wantCalls == 1 && (res.calls[0] != path || !res.ctxOK)) {
			c.Fail("inline-calls:"+sl.name, "%s: the resolver was asked for %q", what, res.calls)
		}
		for _, f := range res.files {
			c.Ev("closed")
			if f.closed == 0 {
				c.Fail("inline-open:"+sl.name, "%s: the resolved file was left open", what)
			}
		}
		if rs != nil && !usesText && !hasPath && pf != nil && pf.closed == 0 {
			c.Fail("inline-open:"+sl.name, "%s: the file was left open", what)
		}
		// inlining again changes nothing
		if err == nil && rs != nil && gotText != "" && gotPath == "" {
			a := strip(doc)
			if err := inline(ctx, rs); err != nil {
				c.Fail("inline-twice:"+sl.name, "%s: inlining again: %v", what, err)
			} else if b := strip(doc); a != b {
				c.Fail("inline-twice:"+sl.name, "%s: inlining again: %s", what, firstDiff(a, b))
			}
		}
	})

	// inline bodies
	r.Each("inline-body", r.Q(300, 3000), func(c *Case) {
		ds := &dataset.Dataset{Body: []interface{}{arr{}, "x", obj{}, arr{1}, 0, false, arr{arr{"a"}}}[c.Rng.Intn(7)]}
		if c.Rng.Intn(2) == 0 {
			ds.BodyBytes = content(c)
		}
		if c.Rng.Intn(2) == 0 {
			ds.BodyPath = pathOf(c)
		}
		res := &spyResolver{data: map[string][]byte{ds.BodyPath: []byte("x")}, at: -1, chunk: 3}
		before := strip(ds)
		err := ds.OpenBodyFile(ctx, res)
		if err == nil || !errors.Is(err, dataset.ErrInlineBody) {
			c.Fail("inline-body", "opening a dataset with inline body %v gives %v", ds.Body, err)
		}
		if len(res.calls) > 0 || ds.BodyFile() != nil || strip(ds) != before {
			c.Fail("inline-body", "a refused body was opened all the same: %q", res.calls)
		}
		c.Ev("opens")
		c.Distinct("body", before)
	})
	r.Serial("nil", 1, func(c *Case) {
		var ds *dataset.Dataset
		if ds.BodyFile() != nil {
			c.Fail("nil", "a nil dataset has a body file")
		}
	})
}

func readFile(f qfs.File) []byte {
	if f == nil {
		return nil
	}
	b, err := io.ReadAll(f)
	if err != nil {
		return append([]byte("error "+err.Error()+" after "), b...)
	}
	return b
}
