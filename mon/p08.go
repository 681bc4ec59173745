package main

import (
	"fmt"
	"io"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
)

func init() {
	register(&Prop{
		ID:   "C08",
		Rule: "in-memory arrays and objects are read through the identity reader with random pauses between reads under the race detector, to the end and beyond, or closed at every point and twice; a trace checker demands each element once (arrays in order), then only the end, and a goroutine census after closing demands nothing is left running; non-trivial: at least one element, distinct by value, read count and schedule",
		Assume: []string{
			"one goroutine uses a reader at a time, many readers run at once",
			"a read or close that does not return within 60 s is a deadlock",
		},
		Need: map[string]int64{"entries": 5000, "ends": 3000, "early_closes": 500, "census": 200, "parallel_readers": 500, "slow_reads": 40},
		Run:  runC08,
	})
}

// within runs fn with a deadline; false means it did not come back
func within(d time.Duration, fn func()) bool {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		fn()
	}()
	select {
	case p := <-done:
		if p != nil {
			panic(p)
		}
		return true
	case <-time.After(d):
		return false
	}
}

// lingering counts goroutines executing repository code, waiting for those
// that are about to finish
func lingering() (int, string) {
	n, sample := 0, ""
	for try := 0; try < 60; try++ {
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		n = 0
		for _, g := range strings.Split(string(buf), "\n\n") {
			body := g
			if i := strings.Index(g, "\n"); i >= 0 {
				body = g[i:]
			}
			if strings.Contains(body, "github.com/qri-io/dataset") && !strings.Contains(body, "main.lingering") {
				n++
				sample = g
			}
		}
		if n == 0 {
			return 0, ""
		}
		time.Sleep(time.Duration(1+try) * time.Millisecond)
	}
	return n, sample
}

func pause(c *Case, mode int) {
	switch mode {
	case 1:
		runtime.Gosched()
	case 2:
		if c.Rng.Intn(3) == 0 {
			time.Sleep(time.Duration(c.Rng.Intn(200)) * time.Microsecond)
		}
	case 3:
		for i := c.Rng.Intn(4); i > 0; i-- {
			runtime.Gosched()
		}
	}
}

func runC08(r *Run) {
	drive := func(c *Case, closeAt int) {
		n := []int{0, 1, 2, 3, 10, 50, 70, 300}[c.Rng.Intn(8)]
		mode := c.Rng.Intn(4)
		isObj := c.Rng.Intn(2) == 0
		large := c.Idx%500 == 7
		if large {
			n, mode = 65530+c.Rng.Intn(12000), 0
		}
		var data interface{}
		wantObj := obj{}
		var wantArr arr
		st := stFor(c.Rng, "json", "array", "")
		if isObj {
			st = stFor(c.Rng, "json", "object", "")
			if large {
				for i := 0; i < n; i++ {
					wantObj[fmt.Sprint("k", i)] = float64(i)
				}
			} else {
				for _, p := range genPairs(c.Rng, n, vopts{maxDepth: 1}) {
					wantObj[p.k] = p.v
				}
			}
			if n > 0 && c.Rng.Intn(3) == 0 {
				// the empty key is a key like any other
				for k, v := range wantObj {
					delete(wantObj, k)
					wantObj[""] = v
					break
				}
			}
			data = deepCopy(wantObj)
		} else {
			if large {
				for i := 0; i < n; i++ {
					wantArr = append(wantArr, float64(i))
				}
			} else {
				wantArr = genArr(c.Rng, n, vopts{maxDepth: 1})
			}
			data = deepCopy(wantArr)
		}
		var rd *dsio.IdentityReader
		var err error
		rd, err = dsio.NewIdentityReader(st, data)
		if err != nil {
			c.Fail("open", "%v", err)
			return
		}
		pause(c, 2)
		stop := n
		if closeAt >= 0 {
			stop = c.Rng.Intn(n + 1)
			c.Ev("early_closes")
		}
		var got []dsio.Entry
		step := func(name string, fn func()) bool {
			if !within(60*time.Second, fn) {
				c.Fail("deadlock:"+name, "%s does not return: %d of %d elements read (object=%v, closed early=%v)", name, len(got), n, isObj, closeAt >= 0)
				return false
			}
			return true
		}
		ok := step("ReadEntry", func() {
			for len(got) < stop {
				pause(c, mode)
				e, err := rd.ReadEntry()
				if err != nil {
					c.Fail("short", "%v after %d of %d elements", err, len(got), n)
					return
				}
				got = append(got, e)
			}
		})
		if !ok || len(got) < stop {
			return
		}
		c.EvN("entries", len(got))
		seen := map[string]bool{}
		for i, e := range got {
			if isObj {
				if seen[e.Key] {
					c.Fail("twice", "key %q delivered twice", e.Key)
				}
				seen[e.Key] = true
				w, has := wantObj[e.Key]
				if !has || !reflect.DeepEqual(w, e.Value) {
					c.Fail("value", "key %q: got %s want %s (present %v)", e.Key, clipv(e.Value), clipv(w), has)
				}
			} else {
				if !reflect.DeepEqual(e.Value, wantArr[i]) || e.Index != i || e.Key != "" {
					c.Fail("value", "entry %d: got %s want %s", i, clipv(e), clipv(wantArr[i]))
				}
			}
		}
		ends := func(when string) bool {
			return step("ReadEntry "+when, func() {
				for k := 0; k < 3; k++ {
					pause(c, mode)
					e, err := rd.ReadEntry()
					if err != io.EOF {
						c.Fail("no-end", "%s, read %d past the last of %d elements: entry %s error %v", when, k, n, clipv(e), err)
						return
					}
					if e.Key != "" || e.Value != nil {
						c.Fail("entry-with-end", "the end comes with entry %s", clipv(e))
					}
					c.Ev("ends")
				}
			})
		}
		if closeAt < 0 {
			if !ends("after the last element") {
				return
			}
		}
		for k := 0; k < 2; k++ {
			if !step("Close", func() {
				if err := rd.Close(); err != nil {
					c.Fail("close", "%v", err)
				}
			}) {
				return
			}
			pause(c, mode)
			if k == 0 && c.Rng.Intn(2) == 0 {
				if !ends("after Close") {
					return
				}
			}
		}
		// the value handed in is as it was
		var w interface{} = wantArr
		if isObj {
			w = wantObj
		}
		if !reflect.DeepEqual(w, data) {
			c.Fail("modified", "reading changed the value")
		}
		if n > 0 {
			c.Distinct(isObj, n, stop, mode, fmt.Sprint(data))
		}
		c.Sample("object=%v n=%d stop=%d mode=%d", isObj, n, stop, mode)
	}
	r.Each("full", r.Q(1500, 30000), func(c *Case) { drive(c, -1) })
	r.Each("early", r.Q(1500, 30000), func(c *Case) { drive(c, 1) })
	// many readers over the same value at once
	r.Each("shared", r.Q(150, 3000), func(c *Case) {
		vals := genArr(c.Rng, 20, vopts{maxDepth: 1})
		m := obj{}
		for i, v := range vals {
			m[fmt.Sprint(i)] = v
		}
		var wg sync.WaitGroup
		bad := make(chan string, 16)
		for g := 0; g < 8; g++ {
			var data interface{} = vals
			st := stale(c.Rng, &dataset.Structure{Format: "json", Schema: schemaOf("array")})
			if g%2 == 0 {
				data = m
				st.Schema = schemaOf("object")
			}
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				rd, err := dsio.NewIdentityReader(st, data)
				if err != nil {
					bad <- err.Error()
					return
				}
				t := readAllEntries(rd)
				rd.Close()
				if len(t.ents) != len(vals) || t.err != nil {
					bad <- fmt.Sprintf("%d of %d, %v", len(t.ents), len(vals), t.err)
				}
			}(g)
		}
		if !within(60*time.Second, wg.Wait) {
			c.Fail("deadlock:shared", "8 readers over one value do not finish")
			return
		}
		c.EvN("parallel_readers", 8)
		select {
		case b := <-bad:
			c.Fail("shared", "%s", b)
		default:
		}
	})
	// readers that pause, all at once: time alone loses nothing
	r.Each("slow", r.Q(1, 6), func(c *Case) {
		pauses := []time.Duration{100, 250, 600, 1100, 2200}
		if r.Tier == "thorough" {
			pauses = append(pauses, 5500, 11000, 31000)
		}
		var wg sync.WaitGroup
		bad := make(chan string, 1000)
		for _, d := range pauses {
			for at := 0; at < 4; at++ {
				for _, isObj := range []bool{false, true} {
					ents := 4 + c.Rng.Intn(3)
					vals := genArr(c.Rng, ents, vopts{maxDepth: 1})
					m := obj{}
					for i, v := range vals {
						m[fmt.Sprint(i)] = v
					}
					wg.Add(1)
					c.Ev("slow_reads")
					st := stFor(c.Rng, "json", map[bool]string{false: "array", true: "object"}[isObj], "")
					go func(d time.Duration, at int, isObj bool) {
						defer wg.Done()
						var data interface{} = vals
						if isObj {
							data = m
						}
						rd, err := dsio.NewIdentityReader(st, data)
						if err != nil {
							bad <- err.Error()
							return
						}
						defer rd.Close()
						seen := map[string]bool{}
						for i := 0; ; i++ {
							if i == at {
								time.Sleep(d * time.Millisecond)
							}
							e, err := rd.ReadEntry()
							if err == io.EOF && i == len(vals) {
								return
							}
							if err != nil {
								bad <- fmt.Sprintf("%v after %d of %d elements (object=%v, pause of %v ms before read %d)", err, i, len(vals), isObj, int(d), at)
								return
							}
							if i >= len(vals) || !isObj && (e.Index != i || !reflect.DeepEqual(e.Value, vals[i])) || isObj && (seen[e.Key] || !reflect.DeepEqual(e.Value, m[e.Key])) {
								bad <- fmt.Sprintf("read %d of %d elements delivers %s (object=%v, pause of %v ms before read %d)", i, len(vals), clipv(e), isObj, int(d), at)
								return
							}
							seen[e.Key] = true
						}
					}(d, at, isObj)
				}
			}
		}
		if !within(120*time.Second, wg.Wait) {
			c.Fail("deadlock:slow", "readers that pause do not finish")
			return
		}
		c.Distinct("slow", c.Idx)
		select {
		case b := <-bad:
			c.Fail("slow", "%s", b)
		default:
		}
	})
	// through the consumers of readers
	r.Each("consumers", r.Q(300, 4000), func(c *Case) {
		vals := genArr(c.Rng, c.Rng.Intn(12), vopts{maxDepth: 1})
		st := stFor(c.Rng, "json", "array", "")
		rd, _ := dsio.NewIdentityReader(st, vals)
		ok := within(60*time.Second, func() {
			if c.Rng.Intn(2) == 0 {
				got, err := dsio.ReadAll(rd)
				if err != nil || diffVal("", vals, got, eqOpts{}) != "" {
					c.Fail("readall", "%v %s", err, diffVal("", vals, got, eqOpts{}))
				}
			} else {
				w := &recWriter{st: st}
				if err := dsio.Copy(&dsio.PagedReader{Reader: rd, Limit: 3}, w); err != nil || len(w.ents) != min(3, len(vals)) {
					c.Fail("copy", "%v %d", err, len(w.ents))
				}
			}
			rd.Close()
		})
		if !ok {
			c.Fail("deadlock:consumers", "does not finish")
		}
		c.Ev("entries")
	})
	// census: nothing of the repository keeps running once readers are closed
	r.Serial("census", r.Q(250, 2000), func(c *Case) {
		k := 1 + c.Rng.Intn(6)
		for i := 0; i < k; i++ {
			drive(c, c.Rng.Intn(2)-1)
		}
		c.Ev("census")
		if n, s := lingering(); n > 0 {
			c.Fail("leak", "%d goroutines of the repository still run after %d readers were closed:\n%s", n, k, s)
		}
	})
	r.Each("refuse", 1, func(c *Case) {
		for _, v := range []interface{}{nil, 1, "x", true, []string{"a"}, map[string]string{}, []int{1}} {
			if _, err := dsio.NewIdentityReader(stFor(c.Rng, "json", "array", ""), v); err == nil {
				c.Fail("refuse", "accepted %T", v)
			}
		}
	})
}
