package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/stepfile"
	"github.com/qri-io/qfs"
)

func init() {
	register(&Prop{
		ID:   "C25",
		Rule: "a case is a list of scripts (any text, with lines that resemble a separator, held as text, bytes or a reader delivering in any chunks) or a text to read; it counts when it was written and read back, or read and rejoined, and compared byte by byte",
		Need: map[string]int64{"round_trips": 2000, "steps": 5000, "rejoined": 2000, "write_faults": 2000, "read_faults": 200, "unusable": 100, "files": 50},
		Run:  runC25,
	})
}

// scriptText is any text without a line that is exactly the separator
func scriptText(r *rand.Rand) string {
	if r.Intn(12) == 0 {
		return ""
	}
	n := 1 + r.Intn(6)
	if r.Intn(10) == 0 {
		n = r.Intn(400)
	}
	lines := make([]string, n)
	for i := range lines {
		switch r.Intn(4) {
		case 0:
			lines[i] = []string{"", "--", "----", "--- ", " ---", "---\r", "\t---", "-", "–––", "---x", "x---", "-- -", "\r", "# comment", "def transform(ds):"}[r.Intn(15)]
		case 1:
			lines[i] = string(randBytes(r, r.Intn(20)))
		default:
			lines[i] = genString(r, vopts{})
		}
	}
	s := strings.Join(lines, "\n")
	out := strings.Split(s, "\n")
	for i := range out {
		if out[i] == "---" {
			out[i] = "-=-"
		}
	}
	return strings.Join(out, "\n")
}

// closeCounter is a script held in a reader
type closeCounter struct {
	io.Reader
	closed int
}

func (c *closeCounter) Close() error { c.closed++; return nil }

// wrapperOnly hides the writer's other methods, so io.Copy has to use Write
type wrapperOnly struct{ w io.Writer }

func (w wrapperOnly) Write(p []byte) (int, error) { return w.w.Write(p) }

func heldAs(r *rand.Rand, s string) (interface{}, *closeCounter) {
	return heldForm(r, s, r.Intn(7))
}

func heldForm(r *rand.Rand, s string, form int) (interface{}, *closeCounter) {
	switch form {
	case 0:
		return []byte(s), nil
	case 1:
		return strings.NewReader(s), nil
	case 2:
		ch := chunkings(r, []byte(s))
		k := sortedKeys(ch)
		return ch[k[r.Intn(len(k))]](), nil
	case 3:
		return qfs.NewMemfileBytes("script.star", []byte(s)), nil
	case 4:
		cc := &closeCounter{Reader: strings.NewReader(s)}
		return cc, cc
	case 5:
		return bytes.NewBufferString(s), nil
	}
	return s, nil
}

func runC25(r *Run) {
	dir, err := os.MkdirTemp("", "verif-step")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)

	gen := func(c *Case) (texts []string, steps []*dataset.TransformStep) {
		n := 1 + c.Rng.Intn(5)
		if c.Rng.Intn(10) == 0 {
			n = 1 + c.Rng.Intn(200)
		}
		for i := 0; i < n; i++ {
			s := scriptText(c.Rng)
			texts = append(texts, s)
			h, _ := heldAs(c.Rng, s)
			steps = append(steps, &dataset.TransformStep{Name: "n", Syntax: "starlark", Script: h})
		}
		return
	}
	same := func(texts []string, got []*dataset.TransformStep) string {
		if len(got) != len(texts) {
			return fmt.Sprintf("%d steps instead of %d", len(got), len(texts))
		}
		for i, g := range got {
			s, ok := g.Script.(string)
			if !ok {
				return fmt.Sprintf("step %d is a %T", i, g.Script)
			}
			if s != texts[i] {
				return fmt.Sprintf("step %d is %s instead of %s", i, quoteClip([]byte(s)), quoteClip([]byte(texts[i])))
			}
		}
		return ""
	}

	r.Each("roundtrip", r.Q(4000, 60000), func(c *Case) {
		texts, steps := gen(c)
		var buf bytes.Buffer
		if err := stepfile.Write(steps, wrapperOnly{&buf}); err != nil {
			c.Fail("write-error", "writing %d steps %q: %v", len(texts), clipv(texts), err)
			return
		}
		if want := strings.Join(texts, "\n---\n"); want != buf.String() {
			c.Fail("written", "the file holds %s, its scripts are %s", quoteClip(buf.Bytes()), quoteClip([]byte(want)))
		}
		ch := chunkings(c.Rng, buf.Bytes())
		k := sortedKeys(ch)
		d := k[c.Rng.Intn(len(k))]
		got, err := stepfile.Read(ch[d]())
		if err != nil {
			c.Fail("read-error", "reading back (delivered %s): %v", d, err)
			return
		}
		if d := same(texts, got); d != "" {
			c.Fail("round-trip", "read back: %s", d)
		}
		c.Ev("round_trips")
		c.EvN("steps", len(texts))
		c.Distinct(buf.Bytes())
		c.Sample("%d steps, %d bytes: %s", len(texts), buf.Len(), quoteClip(buf.Bytes()))
		if c.Idx%20 == 0 {
			fn := filepath.Join(dir, fmt.Sprintf("s%d.star", c.Idx))
			if err := os.WriteFile(fn, buf.Bytes(), 0600); err != nil {
				panic(err)
			}
			got, err := stepfile.ReadFile(fn)
			os.Remove(fn)
			if err != nil {
				c.Fail("read-file", "reading a file: %v", err)
			} else if d := same(texts, got); d != "" {
				c.Fail("read-file", "read back from a file: %s", d)
			}
			if _, err := stepfile.ReadFile(fn); err == nil {
				c.Fail("read-missing", "reading a missing file gives no error")
			}
			if _, err := stepfile.ReadFile(dir); err == nil {
				c.Fail("read-missing", "reading a directory gives no error")
			}
			c.Ev("files")
		}
	})

	r.Each("anytext", r.Q(4000, 60000), func(c *Case) {
		n := c.Rng.Intn(12)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			switch c.Rng.Intn(3) {
			case 0:
				sb.WriteString([]string{"---", "\n", "\n---\n", "---\n", "\n---", "\r\n---\r\n", "-", "--", "\n\n", "\n---\n---\n", "\r"}[c.Rng.Intn(11)])
			case 1:
				sb.Write(randBytes(c.Rng, c.Rng.Intn(6)))
			default:
				sb.WriteString(genString(c.Rng, vopts{}))
			}
		}
		text := sb.String()
		got, err := stepfile.Read(strings.NewReader(text))
		if err != nil {
			c.Fail("read-any", "reading %s: %v", quoteClip([]byte(text)), err)
			return
		}
		var parts []string
		for i, g := range got {
			s, ok := g.Script.(string)
			if !ok {
				c.Fail("read-any", "step %d of %s is a %T", i, quoteClip([]byte(text)), g.Script)
				return
			}
			if strings.Contains(s, "\n---\n") {
				c.Fail("unsplit", "step %d of %s still holds a separator: %s", i, quoteClip([]byte(text)), quoteClip([]byte(s)))
			}
			parts = append(parts, s)
		}
		if len(parts) != strings.Count(text, "\n---\n")+1 || strings.Join(parts, "\n---\n") != text {
			c.Fail("rejoin", "rejoining the %d chunks of %s gives %s", len(parts), quoteClip([]byte(text)), quoteClip([]byte(strings.Join(parts, "\n---\n"))))
		}
		c.Ev("rejoined")
		c.Distinct(text)
	})

	// large scripts
	r.Each("large", r.Q(16, 60), func(c *Case) {
		n := []int{1<<16 + c.Rng.Intn(5) - 2, 1<<20 - 1, 1 << 20, 1<<20 + 1, 3<<20 + c.Rng.Intn(1000), 9 << 20}[c.Rng.Intn(6)]
		if r.Tier == "thorough" && c.Idx%10 == 0 {
			n = 40 << 20
		}
		big := scriptText(c.Rng) + "x = 1 # " + fmt.Sprint(c.Rng.Int63()) + " --- \n"
		big = strings.Repeat(big, n/len(big)+1)[:n-1] + "z"
		for form := 0; form < 8; form++ {
			texts := []string{"first", big, scriptText(c.Rng)}
			var steps []*dataset.TransformStep
			for _, s := range texts {
				h, _ := heldForm(c.Rng, s, form)
				steps = append(steps, &dataset.TransformStep{Script: h})
			}
			var buf bytes.Buffer
			if err := stepfile.Write(steps, &buf); err != nil {
				c.Fail("large", "writing a script of %d bytes held in form %d: %v", n, form, err)
				return
			}
			if buf.String() != strings.Join(texts, "\n---\n") {
				c.Fail("large", "a script of %d bytes held in form %d is written as %d bytes instead of %d", n, form, buf.Len(), len(strings.Join(texts, "\n---\n")))
				return
			}
			got, err := stepfile.Read(&buf)
			if err != nil {
				c.Fail("large", "reading back a script of %d bytes: %v", n, err)
				return
			}
			if d := same(texts, got); d != "" {
				c.Fail("large", "%s", d)
				return
			}
			c.Ev("large_scripts")
		}
		c.Distinct("large", n, quickHash([]byte(big)))
	})
	r.Each("faults", r.Q(400, 6000), func(c *Case) {
		texts, _ := gen(c)
		if len(texts) > 12 {
			texts = texts[:12]
		}
		full := strings.Join(texts, "\n---\n")
		seed := c.Rng.Int63()
		mk := func() (steps []*dataset.TransformStep) {
			rr := rand.New(rand.NewSource(seed))
			for _, s := range texts {
				h, _ := heldAs(rr, s)
				steps = append(steps, &dataset.TransformStep{Script: h})
			}
			return
		}
		for _, at := range positions(c, len(full), 60) {
			if at >= len(full) {
				continue
			}
			fw := &faultWriter{limit: at, once: c.Rng.Intn(2) == 0}
			err := stepfile.Write(mk(), wrapperOnly{fw})
			if fw.fired > 0 && err == nil {
				c.Fail("write-fault", "the writer failed at byte %d of %d, Write reports nothing", at, len(full))
			}
			if fw.fired > 0 {
				c.Ev("write_faults")
			}
			if fw.fired == 0 && err == nil && fw.buf.String() != full {
				c.Fail("write-fault", "an incomplete file written without an error")
			}
			if c.Rng.Intn(4) == 0 {
				if st, err := stepfile.Read(&faultReader{data: []byte(full), at: at, with: c.Rng.Intn(2) == 0, chunk: 1 + c.Rng.Intn(50), then: c.Rng.Intn(2)}); err == nil {
					c.Fail("read-fault", "the source failed at byte %d of %d, Read gives %d steps and no error", at, len(full), len(st))
				}
				c.Ev("read_faults")
			}
		}
		// a script's own reader fails
		i := c.Rng.Intn(len(texts))
		steps := mk()
		cc := &closeCounter{Reader: &faultReader{data: []byte(texts[i]), at: c.Rng.Intn(len(texts[i]) + 1), chunk: 1 + c.Rng.Intn(9), err: errInjected, then: c.Rng.Intn(2)}}
		steps[i].Script = cc
		if err := stepfile.Write(steps, &bytes.Buffer{}); err == nil || !errors.Is(err, errInjected) {
			c.Fail("script-fault", "script %d failed to be read, Write reports %v", i, err)
		}
		c.Ev("read_faults")
		c.Distinct(full, seed)
	})

	r.Each("unusable", r.Q(300, 2000), func(c *Case) {
		texts, steps := gen(c)
		i := c.Rng.Intn(len(texts))
		bad := []interface{}{nil, 1, 2.5, true, []string{"a"}, map[string]interface{}{"a": 1}, []interface{}{"x"}, struct{}{}, 'x', errInjected}[c.Rng.Intn(10)]
		steps[i].Script = bad
		if err := stepfile.Write(steps, &bytes.Buffer{}); err == nil {
			c.Fail("unusable", "a script that is a %T is written without an error", bad)
		}
		c.Ev("unusable")
	})
}
