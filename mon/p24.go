package main

import (
	"bytes"
	stdgzip "compress/gzip"
	"embed"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"strings"

	"github.com/qri-io/dataset/compression"

	refzstd "verifmon/refzstd"
)

//go:embed zfix
var zfix embed.FS

func init() {
	register(&Prop{
		ID:   "C24",
		Rule: "a case is a byte string (empty, short, repetitive, random, text, up to several 100 KB), a schedule of writes (sizes from 0, with flushes where the compressor offers them) and a schedule of reads; it counts when the data was compressed, decompressed by the library and by an independent decoder, and compared byte by byte",
		Assume: []string{
			"gzip is cross-checked against Go's compress/gzip, zst against Go's internal/zstd decoder (copied to mon/refzstd) and against frames made by the zstd command line tool (mon/zfix)",
			"zst data truncated to nothing is not distinguishable from the empty stream",
		},
		Need: map[string]int64{"round_trips": 300, "independent_decodes": 300, "foreign_decodes": 200, "truncations": 1000, "corruptions": 1000, "refusals": 50, "large_decodes": 8},
		Run:  runC24,
	})
}

var compNames = []string{"gzip", "gz", "zst", "zstd"}

func isZst(n string) bool { return strings.HasPrefix(n, "zst") }

func genData(r *rand.Rand) []byte {
	var n int
	switch r.Intn(10) {
	case 0:
		n = r.Intn(3)
	case 1, 2, 3:
		n = r.Intn(100)
	case 4, 5:
		n = r.Intn(5000)
	case 6:
		n = 32768 + r.Intn(5) - 2
	case 7:
		n = 131072 + r.Intn(5) - 2
	case 8:
		n = r.Intn(70000)
	default:
		n = r.Intn(400000)
	}
	switch r.Intn(4) {
	case 0:
		return randBytes(r, n)
	case 1:
		return bytes.Repeat([]byte{byte(r.Intn(256))}, n)
	case 2:
		return []byte(bigStr(r, n))
	}
	var b []byte
	for len(b) < n {
		b = append(b, fmt.Sprintf("[%d,%q],\n", r.Intn(1000), "w"+fmt.Sprint(r.Intn(50)))...)
	}
	return b[:n]
}

// refDecompress is the independent decoder
func refDecompress(name string, b []byte) ([]byte, error) {
	if isZst(name) {
		if len(b) == 0 {
			return nil, nil
		}
		return io.ReadAll(refzstd.NewReader(bytes.NewReader(b)))
	}
	z, err := stdgzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(z)
}

// foreign compresses independently of the library
func foreign(r *rand.Rand, name string, data []byte) []byte {
	if !isZst(name) {
		var buf bytes.Buffer
		// several members, every level, header fields
		for first := true; first || len(data) > 0; first = false {
			n := len(data)
			if r.Intn(2) == 0 {
				n = r.Intn(len(data) + 1)
			}
			z, _ := stdgzip.NewWriterLevel(&buf, r.Intn(12)-2)
			if r.Intn(2) == 0 {
				z.Name, z.Comment = "n.txt", "comment"
				z.Extra = []byte{1, 2, 3}
			}
			z.Write(data[:n])
			z.Close()
			data = data[n:]
		}
		return buf.Bytes()
	}
	// a zstd frame of raw and run-length blocks, perhaps after a skippable one
	var b []byte
	le := func(n uint64, w int) {
		var t [8]byte
		binary.LittleEndian.PutUint64(t[:], n)
		b = append(b, t[:w]...)
	}
	if r.Intn(3) == 0 {
		le(0x184D2A50+uint64(r.Intn(16)), 4)
		le(5, 4)
		b = append(b, "skip!"...)
	}
	le(0xFD2FB528, 4)
	switch r.Intn(2) {
	case 0: // window descriptor of 1 MB, or of up to 112 MB
		w := byte(10<<3 | r.Intn(8))
		if len(data) > 1<<22 {
			w = byte((10+r.Intn(7))<<3 | r.Intn(7))
		}
		b = append(b, 0x00, w)
	default: // single segment with an 8 byte content size
		b = append(b, 0xE0)
		le(uint64(len(data)), 8)
	}
	rest := data
	for {
		n := len(rest)
		if n > 1<<17 {
			n = 1 << 17
		}
		if r.Intn(2) == 0 && n > 0 {
			n = 1 + r.Intn(n)
		}
		rle := n > 1 && bytes.Count(rest[:n], rest[:1]) == n
		last := 0
		if n == len(rest) {
			last = 1
		}
		if rle {
			le(uint64(last|1<<1|n<<3), 3)
			b = append(b, rest[0])
		} else {
			le(uint64(last|n<<3), 3)
			b = append(b, rest[:n]...)
		}
		rest = rest[n:]
		if last == 1 {
			return b
		}
	}
}

// pack compresses data with the library under a write schedule
func pack(c *Case, name string, data []byte) ([]byte, error) {
	var buf bytes.Buffer
	w, err := compression.Compressor(name, &buf)
	if err != nil {
		return nil, err
	}
	rest := data
	mode := c.Rng.Intn(4)
	if mode == 3 {
		if n, err := io.Copy(w, bytes.NewReader(data)); err != nil || n != int64(len(data)) {
			return nil, fmt.Errorf("io.Copy copied %d of %d bytes, error %v", n, len(data), err)
		}
		rest = nil
	}
	for len(rest) > 0 {
		n := len(rest)
		switch mode {
		case 1:
			n = c.Rng.Intn(n + 1)
			if n > 3000 {
				n = 3000
			}
		case 2:
			n = 1 + c.Rng.Intn(17)
			if n > len(rest) || len(rest) > 5000 {
				n = len(rest)
			}
		}
		// the caller reuses its buffer after every write
		tmp := append([]byte(nil), rest[:n]...)
		k, err := w.Write(tmp)
		if err != nil || k != n {
			return nil, fmt.Errorf("write of %d bytes: wrote %d, error %v", n, k, err)
		}
		for i := range tmp {
			tmp[i] ^= 0xA5
		}
		rest = rest[n:]
		if f, ok := w.(interface{ Flush() error }); ok && c.Rng.Intn(8) == 0 {
			if err := f.Flush(); err != nil {
				return nil, err
			}
			c.Ev("flushes")
		}
	}
	if err := w.Close(); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

// unpack decompresses with the library
func unpack(name string, rd io.Reader, read func(io.Reader) ([]byte, error)) ([]byte, error) {
	d, err := compression.Decompressor(name, rd)
	if err != nil {
		return nil, err
	}
	got, err := read(d)
	if cerr := d.Close(); err == nil {
		err = cerr
	}
	return got, err
}

func byteDiff(want, got []byte) string {
	if bytes.Equal(want, got) {
		return ""
	}
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	return fmt.Sprintf("%d bytes instead of %d, first difference at %d", len(got), len(want), i)
}

func runC24(r *Run) {
	readers := map[string]func(rng *rand.Rand) func(io.Reader) ([]byte, error){
		"all": func(*rand.Rand) func(io.Reader) ([]byte, error) { return io.ReadAll },
		"var": func(rng *rand.Rand) func(io.Reader) ([]byte, error) {
			return func(rd io.Reader) ([]byte, error) { return readVar(rng, rd) }
		},
		"copy": func(*rand.Rand) func(io.Reader) ([]byte, error) {
			return func(rd io.Reader) ([]byte, error) {
				var b bytes.Buffer
				_, err := io.Copy(&b, rd)
				return b.Bytes(), err
			}
		},
	}
	modes := []string{"all", "var", "copy"}

	r.Each("roundtrip", r.Q(1500, 20000), func(c *Case) {
		name := compNames[c.Rng.Intn(4)]
		data := genData(c.Rng)
		keep := append([]byte(nil), data...)
		z, err := pack(c, name, data)
		if err != nil {
			c.Fail(name+"-compress", "compressing %d bytes: %v", len(data), err)
			return
		}
		if !bytes.Equal(keep, data) {
			c.Fail("input-changed", "compressing changed the caller's bytes")
		}
		c.Distinct(name, data)
		c.Sample("%s: %d bytes -> %d", name, len(data), len(z))
		ref, err := refDecompress(name, z)
		if err != nil {
			c.Fail(name+"-foreign-read", "an independent %s decoder refuses the compressed form of %d bytes: %v", name, len(data), err)
		} else if d := byteDiff(data, ref); d != "" {
			c.Fail(name+"-foreign-read", "an independent %s decoder reads %s", name, d)
		}
		c.Ev("independent_decodes")
		// the other name of the format decompresses it, too
		alias := map[string]string{"gzip": "gz", "gz": "gzip", "zst": "zstd", "zstd": "zst"}[name]
		for _, n := range []string{name, alias} {
			m := modes[c.Rng.Intn(3)]
			got, err := unpack(n, bytes.NewReader(z), readers[m](c.Rng))
			if err != nil {
				c.Fail(n+"-read", "decompressing %d bytes as %s: %v", len(data), n, err)
			} else if d := byteDiff(data, got); d != "" {
				c.Fail(n+"-read", "decompressing as %s gives %s", n, d)
			}
			c.Ev("round_trips")
		}
		buf := bytes.NewBuffer(append([]byte(nil), z...))
		got, err := unpack(name, buf, io.ReadAll)
		if d := byteDiff(data, got); err != nil || d != "" {
			c.Fail(name+"-read-buffer", "decompressing from a bytes.Buffer: %v %s", err, d)
		}
		if len(z) < 40000 {
			ch := chunkings(c.Rng, z)
			for _, k := range sortedKeys(ch) {
				if isZst(name) && k == "randzero" {
					continue
				}
				got, err := unpack(name, ch[k](), readers[modes[c.Rng.Intn(3)]](c.Rng))
				if d := byteDiff(data, got); err != nil || d != "" {
					c.Fail(name+"-chunked", "decompressing delivered %s: %v %s", k, err, d)
				}
				c.Ev("deliveries")
			}
		}
	})

	r.Each("foreign", r.Q(1500, 20000), func(c *Case) {
		name := compNames[c.Rng.Intn(4)]
		data := genData(c.Rng)
		z := foreign(c.Rng, name, data)
		if ref, err := refDecompress(name, z); err != nil || !bytes.Equal(ref, data) {
			panic(fmt.Sprintf("harness: reference %s encoder and decoder disagree: %v (%d bytes)", name, err, len(data)))
		}
		m := modes[c.Rng.Intn(3)]
		got, err := unpack(name, bytes.NewReader(z), readers[m](c.Rng))
		if d := byteDiff(data, got); err != nil || d != "" {
			c.Fail(name+"-foreign", "independently compressed %s data of %d bytes is read as: %v %s", name, len(data), err, d)
		}
		c.Ev("foreign_decodes")
		c.Distinct(name, z)
	})

	r.Each("large", r.Q(12, 80), func(c *Case) {
		name := []string{"zst", "zst", "gz"}[c.Idx%3]
		data := make([]byte, 0, 24<<20)
		for n := 5<<20 + c.Rng.Intn(15<<20); len(data) < n; {
			if c.Rng.Intn(2) == 0 {
				data = append(data, randBytes(c.Rng, 1+c.Rng.Intn(1<<17))...)
			} else {
				data = append(data, bytes.Repeat([]byte{byte(c.Rng.Intn(256))}, 1+c.Rng.Intn(1<<20))...)
			}
		}
		z := foreign(c.Rng, name, data)
		if ref, err := refDecompress(name, z); err != nil || !bytes.Equal(ref, data) {
			panic(fmt.Sprintf("harness: reference %s encoder and decoder disagree: %v (%d bytes)", name, err, len(data)))
		}
		got, err := unpack(name, bytes.NewReader(z), readers[modes[2*c.Rng.Intn(2)]](c.Rng))
		if d := byteDiff(data, got); err != nil || d != "" {
			c.Fail(name+"-foreign-large", "independently compressed %s data of %d bytes is read as: %v %s", name, len(data), err, d)
		}
		c.Ev("large_decodes")
		c.Distinct(name, z)
	})

	names, _ := zfix.ReadDir("zfix")
	r.Each("fixtures", len(names), func(c *Case) {
		fn := names[c.Idx].Name()
		if !strings.HasSuffix(fn, ".zst") {
			return
		}
		z, _ := zfix.ReadFile("zfix/" + fn)
		data, _ := zfix.ReadFile("zfix/" + strings.TrimSuffix(fn, ".zst") + ".raw")
		for _, m := range modes {
			got, err := unpack("zst", bytes.NewReader(z), readers[m](c.Rng))
			if d := byteDiff(data, got); err != nil || d != "" {
				c.Fail("zst-cli", "frame %s of the zstd tool is read as: %v %s", fn, err, d)
			}
			c.Ev("foreign_decodes")
		}
		two, err := unpack("zst", bytes.NewReader(append(append([]byte(nil), z...), z...)), io.ReadAll)
		if d := byteDiff(append(append([]byte(nil), data...), data...), two); err != nil || d != "" {
			c.Fail("zst-cli", "two frames %s: %v %s", fn, err, d)
		}
		c.Distinct(fn)
	})

	// damaged data
	r.Each("damage", r.Q(600, 10000), func(c *Case) {
		name := compNames[c.Rng.Intn(4)]
		data := genData(c.Rng)
		if len(data) > 3000 && c.Rng.Intn(4) > 0 {
			data = data[:c.Rng.Intn(3000)]
		}
		z, err := pack(c, name, data)
		if err != nil {
			c.Fail(name+"-compress", "compressing %d bytes: %v", len(data), err)
			return
		}
		check := func(sig, what string, b []byte, mayEqual bool) {
			m := modes[c.Rng.Intn(3)]
			var rd io.Reader = bytes.NewReader(b)
			if c.Rng.Intn(3) == 0 {
				rd = bytes.NewBuffer(append([]byte(nil), b...))
			}
			got, err := unpack(name, rd, readers[m](c.Rng))
			if err != nil {
				return
			}
			d := byteDiff(data, got)
			if d != "" || !mayEqual {
				c.Fail(sig, "%s: %s data of %d bytes (%d compressed) ends cleanly with %s", what, name, len(data), len(z), d)
			}
		}
		for _, at := range positions(c, len(z), 60) {
			if at == 0 || at >= len(z) {
				continue
			}
			check(name+"-truncated", fmt.Sprintf("truncated at %d", at), z[:at], false)
			c.Ev("truncations")
			c.Distinct(name, data, at)
		}
		for i := 0; i < 40 && len(z) > 0; i++ {
			b := append([]byte(nil), z...)
			p := c.Rng.Intn(len(b))
			switch c.Rng.Intn(3) {
			case 0:
				b[p] ^= 1 << uint(c.Rng.Intn(8))
			case 1:
				b[p] = byte(c.Rng.Intn(256))
			default:
				// a burst shorter than the checksum catches for certain
				for j := 0; j < 4 && p+j < len(b); j++ {
					b[p+j] ^= byte(c.Rng.Intn(256))
				}
			}
			check(name+"-corrupt", fmt.Sprintf("corrupted around byte %d", p), b, true)
			c.Ev("corruptions")
		}
	})

	bad := []string{"", "GZIP", "Gz", "tar", "zip", "bz2", "zst ", " gz", "gzip2", "none", "zstandard", "xz", "br", ".gz", "json.gz", "z", "g"}
	r.Each("refuse", r.Q(300, 2000), func(c *Case) {
		s := genString(c.Rng, vopts{})
		if c.Idx < len(bad) {
			s = bad[c.Idx]
		}
		for _, n := range compNames {
			if s == n {
				return
			}
		}
		if f, err := compression.ParseFormat(s); err == nil {
			c.Fail("unknown-format", "ParseFormat(%q) gives %q without an error", s, f)
		}
		if w, err := compression.Compressor(s, &bytes.Buffer{}); err == nil || w != nil {
			c.Fail("unknown-format", "Compressor(%q) gives %v, error %v", s, w, err)
		}
		if w, err := compression.Decompressor(s, &bytes.Buffer{}); err == nil || w != nil {
			c.Fail("unknown-format", "Decompressor(%q) gives %v, error %v", s, w, err)
		}
		c.Ev("refusals")
	})
	r.Serial("names", 1, func(c *Case) {
		for n, want := range map[string]compression.Format{"gzip": "gzip", "gz": "gzip", "zst": "zst", "zstd": "zst"} {
			f, err := compression.ParseFormat(n)
			if err != nil || f != want || f.String() != string(want) {
				c.Fail("format-name", "ParseFormat(%q) = %q, %v", n, f, err)
			}
			if g, err := compression.ParseFormat(f.String()); err != nil || g != f {
				c.Fail("format-name", "the name %q of a format does not parse back: %q, %v", f, g, err)
			}
		}
	})
}
