// Package main is vmon: the runtime monitors for qri-io/dataset. Every
// property is a workload that drives the real code in /repo through its
// exported API, an event trace recorded at that boundary, and an oracle over
// the trace. fw.go holds the parts all properties share.
package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

// Prop is one monitored property
type Prop struct {
	ID     string
	Level  string // exploration | fault_enumeration
	Rule   string // how cases are made and what makes one non-trivial
	Assume []string
	// Need lists monitor events that must have been observed at least this
	// often for a quiet run to count as "held"; otherwise it is inconclusive
	Need map[string]int64
	Run  func(r *Run)
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	if _, dup := props[p.ID]; dup {
		panic("duplicate property " + p.ID)
	}
	props[p.ID] = p
}

// Violation is one oracle verdict
type Violation struct {
	Property string `json:"property"`
	Sig      string `json:"sig"`
	Group    string `json:"group"`
	Index    int    `json:"index"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Message  string `json:"message"`
	Stack    string `json:"stack,omitempty"`
}

// Run is one execution of a property's workload
type Run struct {
	Prop     *Prop
	Seed     int64
	Tier     string
	OnlyGrp  string
	OnlyIdx  int
	Workers  int
	status   *statusFile
	evals    int64
	mu       sync.Mutex
	events   map[string]int64
	groups   map[string]int64
	distinct map[uint64]struct{}
	samples  []string
	viols    map[string]*Violation
	nviols   int64
}

// Q picks a size by tier
func (r *Run) Q(quick, thorough int) int {
	if r.Tier == "thorough" {
		return thorough
	}
	if m := quickMul[r.Prop.ID]; m > 1 && quick < thorough {
		if quick *= m; quick > thorough {
			quick = thorough
		}
	}
	return quick
}

// quickMul makes the quick tier of the checks whose cases are cheap as many
// times larger, so that each takes some ten seconds
var quickMul = map[string]int{
	"C01": 3, "C02": 2, "C03": 5, "C04": 2, "C06": 2, "C07": 4, "C08": 2, "C10": 6, "C11": 10, "C12": 6, "C13": 8, "C14": 4,
	"C15": 8, "C16": 3, "C17": 4, "C18": 3, "C19": 5, "C20": 12, "C23": 5, "C25": 10, "C26": 6, "C27": 8, "C28": 8, "C29": 8, "C30": 8, "C31": 5, "C32": 8,
}

// Case is a single evaluated case of a workload
type Case struct {
	R     *Run
	Group string
	Idx   int
	Rng   *rand.Rand

	events   map[string]int64
	distinct []uint64
	samples  []string
	viols    []*Violation
}

func hash64(parts ...interface{}) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		switch x := p.(type) {
		case []byte:
			h.Write(x)
		case string:
			h.Write([]byte(x))
		default:
			fmt.Fprintf(h, "%v", x)
		}
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// Ev counts a monitor event
func (c *Case) Ev(name string) { c.events[name]++ }

// EvN counts n monitor events
func (c *Case) EvN(name string, n int) { c.events[name] += int64(n) }

// Distinct records that this case was a distinct non-trivial one by key
func (c *Case) Distinct(parts ...interface{}) {
	c.distinct = append(c.distinct, hash64(parts...))
}

// Sample keeps a case written out (the first few are reported)
func (c *Case) Sample(format string, args ...interface{}) {
	if c.Idx < 2 && len(c.samples) < 2 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.samples = append(c.samples, c.Group+"#"+fmt.Sprint(c.Idx)+": "+s)
	}
}

// Fail records a violation. sig identifies the kind of failure (it dedups, and
// known findings are matched on it)
func (c *Case) Fail(sig string, format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	if len(msg) > 4000 {
		msg = msg[:4000] + "...(cut)"
	}
	c.viols = append(c.viols, &Violation{Property: c.R.Prop.ID, Sig: sig, Group: c.Group, Index: c.Idx, Seed: c.R.Seed, Tier: c.R.Tier, Message: msg})
}

// Each runs n deterministic cases of a group over the worker pool. The random
// source of a case depends only on (seed, property, group, index).
func (r *Run) Each(group string, n int, fn func(c *Case)) {
	r.each(group, n, r.Workers, fn)
}

// Serial is Each on one worker, for cases that look at process-wide state
func (r *Run) Serial(group string, n int, fn func(c *Case)) {
	r.each(group, n, 1, fn)
}

func (r *Run) each(group string, n, workers int, fn func(c *Case)) {
	if r.OnlyGrp != "" && r.OnlyGrp != group {
		return
	}
	if r.OnlyGrp != "" {
		if r.OnlyIdx < n {
			r.one(group, r.OnlyIdx, 0, fn)
		}
		return
	}
	var next int64 = -1
	var wg sync.WaitGroup
	if workers > n {
		workers = n
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					r.status.clear(w)
					return
				}
				r.one(group, i, w, fn)
			}
		}(w)
	}
	wg.Wait()
}

func (r *Run) one(group string, i, w int, fn func(c *Case)) {
	r.status.set(w, group, i)
	c := &Case{R: r, Group: group, Idx: i, events: map[string]int64{}}
	c.Rng = rand.New(rand.NewSource(int64(hash64(r.Seed, r.Prop.ID, group, i))))
	func() {
		defer func() {
			if p := recover(); p != nil {
				st := string(debug.Stack())
				site := panicSite(st)
				c.Fail("panic:"+site, "panic: %v\nat %s", p, site)
				c.viols[len(c.viols)-1].Stack = trimStack(st)
			}
		}()
		fn(c)
	}()
	atomic.AddInt64(&r.evals, 1)
	r.mu.Lock()
	defer r.mu.Unlock()
	for k, v := range c.events {
		r.events[k] += v
	}
	r.groups[group]++
	for _, d := range c.distinct {
		r.distinct[d] = struct{}{}
	}
	if len(r.samples) < 24 {
		r.samples = append(r.samples, c.samples...)
	}
	for _, v := range c.viols {
		r.nviols++
		if old := r.viols[v.Sig]; old == nil || (old.Group == v.Group && old.Index > v.Index) {
			r.viols[v.Sig] = v
		}
	}
}

// panicSite finds the first repository frame of a stack
func panicSite(st string) string {
	lines := strings.Split(st, "\n")
	seenPanic := false
	for i := 0; i+1 < len(lines); i++ {
		if strings.HasPrefix(lines[i], "panic(") {
			seenPanic = true
			continue
		}
		if !seenPanic || strings.HasPrefix(lines[i], "\t") {
			continue
		}
		fn := lines[i]
		if strings.Contains(fn, "qri-io/dataset") {
			if j := strings.LastIndex(fn, "("); j > 0 {
				fn = fn[:j]
			}
			return strings.TrimPrefix(fn, "github.com/qri-io/dataset")
		}
	}
	return "harness"
}

func trimStack(st string) string {
	if len(st) > 6000 {
		return st[:6000]
	}
	return st
}

// ---- result exchanged between child and supervisor

// Result is what a child run reports
type Result struct {
	Evals      int64
	Events     map[string]int64
	Groups     map[string]int64
	Distinct   int
	Samples    []string
	Violations []*Violation
	NViols     int64
}

func (r *Run) result() *Result {
	res := &Result{Evals: r.evals, Events: r.events, Groups: r.groups, Distinct: len(r.distinct), Samples: r.samples, NViols: r.nviols}
	for _, v := range r.viols {
		res.Violations = append(res.Violations, v)
	}
	sort.Slice(res.Violations, func(i, j int) bool { return res.Violations[i].Sig < res.Violations[j].Sig })
	if res.Samples == nil {
		res.Samples = []string{}
	}
	sort.Strings(res.Samples)
	if len(res.Samples) > 12 {
		res.Samples = res.Samples[:12]
	}
	return res
}

// ---- status file: which case each worker is in, readable after a crash

const slotSize = 128

type statusFile struct {
	f *os.File
	n uint64
}

func (s *statusFile) set(w int, group string, i int) {
	if s == nil || s.f == nil {
		return
	}
	var b [slotSize]byte
	binary.LittleEndian.PutUint64(b[:8], atomic.AddUint64(&s.n, 1))
	copy(b[8:], fmt.Sprintf("%s#%d", group, i))
	s.f.WriteAt(b[:], int64(w*slotSize))
}

func (s *statusFile) clear(w int) {
	if s == nil || s.f == nil {
		return
	}
	var b [slotSize]byte
	binary.LittleEndian.PutUint64(b[:8], atomic.AddUint64(&s.n, 1))
	s.f.WriteAt(b[:], int64(w*slotSize))
}

func readStatus(path string) (progress uint64, inflight []string) {
	data, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for o := 0; o+slotSize <= len(data); o += slotSize {
		n := binary.LittleEndian.Uint64(data[o:])
		if n > progress {
			progress = n
		}
		s := strings.TrimRight(string(data[o+8:o+slotSize]), "\x00")
		if s != "" {
			inflight = append(inflight, s)
		}
	}
	return
}

func newRun(p *Prop, seed int64, tier string) *Run {
	w := runtime.GOMAXPROCS(0)
	if w > 8 {
		w = 8
	}
	return &Run{Prop: p, Seed: seed, Tier: tier, Workers: w, events: map[string]int64{}, groups: map[string]int64{}, distinct: map[uint64]struct{}{}, viols: map[string]*Violation{}}
}

func mustJSON(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}
