package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/qri-io/dataset/dsstats/histosketch"
)

func init() {
	register(&Prop{
		ID:   "C20",
		Rule: "a case is a history of operations on a sketch (add, add many, also zero or negative times, merge with a sketch of its own history, encode and decode, start from a sample) over value streams of many shapes (repeated, sorted, spread over many magnitudes, clustered); after every few operations all invariants are evaluated against the exact multiset; it counts when at least one value was added, distinct by history",
		Assume: []string{
			"values are finite",
			"sums and quantiles are compared with a relative tolerance of 1e-9 for rounding",
		},
		Need: map[string]int64{"checks": 2000, "adds": 50000, "merges": 500, "codings": 500, "samples": 200, "sum_probes": 20000, "quantile_probes": 20000, "exact_sums": 5000},
		Run:  runC20,
	})
}

// multiset is the exact account of what was added
type multiset struct {
	vals  map[float64]int64
	count int64
	min   float64
	max   float64
	exact bool // built only by additions and merges within the centroid count
}

func (m *multiset) add(v float64, n int64) {
	if n < 1 {
		return
	}
	if m.count == 0 || v < m.min {
		m.min = v
	}
	if m.count == 0 || v > m.max {
		m.max = v
	}
	m.vals[v] += n
	m.count += n
}

func (m *multiset) keys() []float64 {
	ks := make([]float64, 0, len(m.vals))
	for k := range m.vals {
		ks = append(ks, k)
	}
	sort.Float64s(ks)
	return ks
}

func valueStream(r *rand.Rand) func() float64 {
	cur := float64(r.Intn(100) - 50)
	switch r.Intn(11) {
	case 8:
		// the ends of the range, whose sums and differences overflow
		return func() float64 { return math.Copysign(math.MaxFloat64/(1+3*r.Float64()), r.Float64()-0.5) }
	case 9:
		edge := []float64{math.MaxFloat64, -math.MaxFloat64, math.Nextafter(math.MaxFloat64, 0), 1e308, -1e308, 0, 5e-324, 1, -1}
		return func() float64 {
			if r.Intn(3) == 0 {
				return edge[r.Intn(len(edge))]
			}
			return genFloat(r)
		}
	case 0:
		k := 1 + r.Intn(40)
		return func() float64 { return float64(r.Intn(k)) }
	case 1:
		return func() float64 { return float64(r.Intn(2000) - 1000) }
	case 2:
		return func() float64 { return r.NormFloat64() }
	case 3:
		return func() float64 { cur += float64(r.Intn(3)); return cur }
	case 4:
		return func() float64 { cur -= r.Float64(); return cur }
	case 5:
		return func() float64 { return math.Ldexp(r.Float64()*2-1, r.Intn(1800)-900) }
	case 6:
		return func() float64 { return float64(r.Intn(5))*1e6 + float64(r.Intn(7))*1e-3 }
	case 7:
		return func() float64 { return 1e15 + float64(r.Intn(50)) }
	}
	return func() float64 { return math.Exp(r.NormFloat64() * 5) }
}

func checkSketch(c *Case, h *histosketch.Sketch, m *multiset, n int, hist string) {
	c.Ev("checks")
	if h.Count() != float64(m.count) {
		c.Fail("count", "count is %v instead of %d after %s", h.Count(), m.count, hist)
	}
	if m.count == 0 {
		return
	}
	if h.Min() != m.min || h.Max() != m.max {
		c.Fail("bounds", "minimum and maximum are %v and %v instead of %v and %v after %s", h.Min(), h.Max(), m.min, m.max, hist)
		return
	}
	ks := m.keys()
	total := float64(m.count)
	eps := 1e-9 * total
	span := math.Max(math.Abs(m.min), math.Abs(m.max))
	veps := 1e-9 * span

	// cumulative counts
	var probes []float64
	for i := 0; i < 40; i++ {
		k := ks[c.Rng.Intn(len(ks))]
		switch c.Rng.Intn(4) {
		case 0:
			probes = append(probes, k)
		case 1:
			probes = append(probes, math.Nextafter(k, math.Inf(1)), math.Nextafter(k, math.Inf(-1)))
		case 2:
			f := c.Rng.Float64()
			probes = append(probes, m.min*(1-f)+m.max*f)
		default:
			k2 := ks[c.Rng.Intn(len(ks))]
			probes = append(probes, k/2+k2/2)
		}
	}
	probes = append(probes, m.min, m.max, m.max+1, m.max*2, m.min-1, math.Inf(1), math.Inf(-1), math.Nextafter(m.min, math.Inf(-1)))
	sort.Float64s(probes)
	prev := 0.0
	for i, p := range probes {
		s := h.Sum(p)
		c.Ev("sum_probes")
		if math.IsNaN(s) || s < -eps || s > total+eps {
			c.Fail("sum-range", "Sum(%v) = %v with %d values after %s", p, s, m.count, hist)
			continue
		}
		if p < m.min && s != 0 {
			c.Fail("sum-below", "Sum(%v) = %v below the minimum %v after %s", p, s, m.min, hist)
		}
		if p >= m.max && s != total {
			c.Fail("sum-above", "Sum(%v) = %v from the maximum %v on, the count is %d, after %s", p, s, m.max, m.count, hist)
		}
		if i > 0 && s < prev-eps {
			c.Fail("sum-order", "Sum(%v) = %v but Sum(%v) = %v after %s", p, s, probes[i-1], prev, hist)
		}
		prev = math.Max(prev, s)
		if m.exact {
			want := int64(0)
			for _, k := range ks {
				if k <= p {
					want += m.vals[k]
				}
			}
			c.Ev("exact_sums")
			if s != float64(want) {
				c.Fail("sum-exact", "Sum(%v) = %v of %d distinct values in a sketch of %d centroids, the exact sum is %d, after %s", p, s, len(ks), n, want, hist)
			}
		}
	}

	// quantiles
	qs := []float64{0, 1, 0.5, 0.25, 0.75, 1e-9, 1 - 1e-9}
	for i := 0; i < 25; i++ {
		qs = append(qs, c.Rng.Float64())
	}
	sort.Float64s(qs)
	last := math.Inf(-1)
	for i, q := range qs {
		v := h.Quantile(q)
		c.Ev("quantile_probes")
		if math.IsNaN(v) || math.IsInf(v, 0) || v < m.min-veps || v > m.max+veps {
			c.Fail("quantile-range", "Quantile(%v) = %v outside of %v..%v after %s", q, v, m.min, m.max, hist)
			continue
		}
		if i > 0 && v < last-veps {
			c.Fail("quantile-order", "Quantile(%v) = %v but Quantile(%v) = %v after %s", q, v, qs[i-1], last, hist)
		}
		last = math.Max(last, v)
	}
	if md := h.Median(); math.IsNaN(md) || math.IsInf(md, 0) || md < m.min-veps || md > m.max+veps {
		c.Fail("median", "the median %v is outside of %v..%v after %s", md, m.min, m.max, hist)
	}

	// histogram
	bins, freq := h.Read()
	sum := 0.0
	for _, f := range freq {
		if !(f > 0) {
			c.Fail("histogram", "a histogram frequency is %v after %s", f, hist)
		}
		sum += f
	}
	if math.Abs(sum-total) > eps {
		c.Fail("histogram", "histogram frequencies sum to %v, the count is %d, after %s", sum, m.count, hist)
	}
	if len(bins) != len(freq)+1 {
		c.Fail("histogram", "%d bins with %d frequencies", len(bins), len(freq))
	}
	if len(freq) > n {
		c.Fail("histogram", "%d centroids in a sketch of at most %d after %s", len(freq), n, hist)
	}
	for i := range bins {
		if i > 0 && bins[i] < bins[i-1]-veps {
			c.Fail("histogram", "bins are not in order: %v after %s", bins, hist)
			break
		}
		if i < len(freq) && (math.IsInf(bins[i], 0) || math.IsNaN(bins[i]) || bins[i] < m.min-veps || bins[i] > m.max+veps) {
			c.Fail("histogram", "bin %v lies outside of %v..%v after %s", bins[i], m.min, m.max, hist)
		}
	}
	// the histogram is a copy
	for i := range freq {
		freq[i], bins[i] = -1, -1
	}
	if h.Count() != total || h.Min() != m.min {
		c.Fail("histogram", "the sketch shares its histogram")
	}
	if _, f2 := h.Read(); len(f2) > 0 && f2[0] == -1 {
		c.Fail("histogram", "the sketch shares its histogram")
	}
}

// observe is everything a sketch reports, for comparing two
func observe(h *histosketch.Sketch, probes []float64) string {
	s := fmt.Sprint(h.Count(), h.Min(), h.Max())
	for _, p := range probes {
		s += fmt.Sprint(" ", h.Sum(p))
	}
	if h.Count() >= 1 {
		for q := 0.0; q <= 1; q += 0.125 {
			s += fmt.Sprint(" ", h.Quantile(q))
		}
	}
	b, f := h.Read()
	return s + fmt.Sprint(b, f)
}

func runC20(r *Run) {
	build := func(c *Case, n int, ops int, deep bool) (*histosketch.Sketch, *multiset, string) {
		h := histosketch.New(uint(n))
		m := &multiset{vals: map[float64]int64{}, exact: true}
		next := valueStream(c.Rng)
		hist := fmt.Sprintf("new(%d)", n)
		limit := n
		if c.Rng.Intn(6) == 0 && ops < 300 {
			// from a sample
			k := 1 + c.Rng.Intn(60)
			sample := make([]float64, k)
			for i := range sample {
				sample[i] = next()
			}
			for _, v := range sample {
				m.add(v, 1)
			}
			h = histosketch.NewFromSample(append([]float64(nil), sample...), n)
			if n <= k {
				m.exact = false
			}
			hist = fmt.Sprintf("sample of %d into %d", k, n)
			c.Ev("samples")
			checkSketch(c, h, m, n, hist)
		}
		for i := 0; i < ops; i++ {
			switch c.Rng.Intn(12) {
			case 0:
				k := int64(c.Rng.Intn(5))
				if c.Rng.Intn(10) == 0 {
					k = int64(c.Rng.Intn(100000))
				}
				if c.Rng.Intn(40) == 0 {
					k = int64(1)<<uint(20+c.Rng.Intn(24)) + int64(c.Rng.Intn(3)-1)
				}
				v := next()
				h.AddMany(v, k)
				m.add(v, k)
			case 1:
				v := next()
				h.AddMany(v, -int64(c.Rng.Intn(3)))
			default:
				v := next()
				h.Add(v)
				m.add(v, 1)
			}
			c.Ev("adds")
			if len(m.vals) > limit {
				m.exact = false
			}
			if deep && c.Rng.Intn(60) == 0 {
				// encode, decode and go on with the copy
				var probes []float64
				for k := range m.vals {
					probes = append(probes, k)
					if len(probes) > 20 {
						break
					}
				}
				before := observe(h, probes)
				b, err := h.MarshalBinary()
				if err != nil {
					c.Fail("encode", "%v", err)
					return h, m, hist
				}
				g := &histosketch.Sketch{}
				if c.Rng.Intn(3) == 0 {
					var buf bytes.Buffer
					if err = gob.NewEncoder(&buf).Encode(h); err == nil {
						err = gob.NewDecoder(&buf).Decode(g)
					}
				} else {
					if c.Rng.Intn(2) == 0 {
						g = histosketch.New(3)
						g.Add(1)
					}
					err = g.UnmarshalBinary(b)
				}
				if err != nil {
					c.Fail("decode", "decoding %q: %v", b, err)
					return h, m, hist
				}
				if after := observe(g, probes); after != before {
					c.Fail("coding", "after encoding and decoding: %s", firstDiff(before, after))
				}
				if after := observe(h, probes); after != before {
					c.Fail("coding", "encoding changed the sketch: %s", firstDiff(before, after))
				}
				c.Ev("codings")
				if c.Rng.Intn(2) == 0 {
					bins, _ := g.Read()
					limit = len(bins) - 1
					h = g
				}
				hist += fmt.Sprintf(" coded@%d", i)
			}
		}
		return h, m, hist
	}

	r.Each("history", r.Q(2500, 40000), func(c *Case) {
		n := []int{1, 2, 3, 5, 8, 16, 32, 64}[c.Rng.Intn(8)]
		ops := 1 + c.Rng.Intn(120)
		if c.Rng.Intn(15) == 0 {
			ops = 3000
		}
		h, m, hist := build(c, n, ops, true)
		hist += fmt.Sprintf(" %d adds", ops)
		checkSketch(c, h, m, n, hist)
		c.Distinct(n, ops, fmt.Sprint(m.count, m.min, m.max, len(m.vals)))
		c.Sample("%s: count %d, %d distinct", hist, m.count, len(m.vals))
		for k := c.Rng.Intn(4); k > 0; k-- {
			n2 := []int{1, 2, 5, 32}[c.Rng.Intn(4)]
			ops2 := c.Rng.Intn(60)
			h2, m2, hist2 := build(c, n2, ops2, false)
			var probes []float64
			for v := range m2.vals {
				probes = append(probes, v)
			}
			before := observe(h2, probes)
			h.Merge(*h2)
			if a := observe(h2, probes); a != before {
				c.Fail("merge-source", "merging changed the source: %s", firstDiff(before, a))
			}
			cnt := m.count
			for v, x := range m2.vals {
				m.add(v, x)
			}
			if cnt == 0 && m2.count == 0 {
				m.count = 0
			}
			bins, _ := h.Read()
			_ = bins
			m.exact = m.exact && m2.exact && len(m.vals) <= n && !containsCoded(hist)
			hist += fmt.Sprintf(" merge(%s, %d adds)", hist2, ops2)
			c.Ev("merges")
			checkSketch(c, h, m, n, hist)
		}
	})
	r.Each("sample", r.Q(400, 5000), func(c *Case) {
		next := valueStream(c.Rng)
		k, n := 1+c.Rng.Intn(80), 1+c.Rng.Intn(20)
		if c.Rng.Intn(5) == 0 {
			n = k + c.Rng.Intn(5)
		}
		m := &multiset{vals: map[float64]int64{}}
		sample := make([]float64, k)
		for i := range sample {
			sample[i] = next()
			if math.Abs(sample[i]) > 1e140 { // distances are squared
				sample[i] = math.Mod(sample[i], 1e6)
			}
			m.add(sample[i], 1)
		}
		m.exact = n > k
		h := histosketch.NewFromSample(sample, n)
		c.Ev("samples")
		checkSketch(c, h, m, n, fmt.Sprintf("sample of %d into %d", k, n))
		for i := 0; i < 30; i++ {
			v := next()
			if math.Abs(v) > 1e140 {
				continue
			}
			h.Add(v)
			m.add(v, 1)
			c.Ev("adds")
		}
		m.exact = false
		checkSketch(c, h, m, n, fmt.Sprintf("sample of %d into %d, then 30 adds", k, n))
		c.Distinct("sample", k, n, m.min, m.max)
	})
	r.Each("damaged", r.Q(400, 5000), func(c *Case) {
		h, m, _ := build(c, 1+c.Rng.Intn(8), 1+c.Rng.Intn(20), false)
		if m.count == 0 {
			return
		}
		b, _ := h.MarshalBinary()
		lines := bytes.SplitAfter(b, []byte("\n"))
		k := c.Rng.Intn(len(lines) - 1)
		if err := new(histosketch.Sketch).UnmarshalBinary(bytes.Join(lines[:k], nil)); err == nil {
			c.Fail("truncated", "an encoding cut to %d of %d lines is accepted: %q", k, len(lines)-1, b)
		}
		// anything else must not crash
		new(histosketch.Sketch).UnmarshalBinary(mutate(c.Rng, append([]byte(nil), b...)))
		lie := append([][]byte{}, lines...)
		lie[c.Rng.Intn(2)] = []byte(fmt.Sprintf("%d\n", []int64{-1, 0, 1, 2, 3, 1000, 1 << 31, 1 << 40, 1 << 62, -1 << 40}[c.Rng.Intn(10)]))
		new(histosketch.Sketch).UnmarshalBinary(bytes.Join(lie, nil))
		c.Ev("damaged")
		c.Distinct("damaged", b, k)
	})
}

func containsCoded(h string) bool { return bytes.Contains([]byte(h), []byte("coded")) }
