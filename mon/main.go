package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// exit codes: 0 held on everything explored, 1 violation, 2 inconclusive/error
func main() {
	var (
		id      = flag.String("prop", "", "property id")
		root    = flag.String("root", "/verif", "verification root")
		child   = flag.String("child", "", "internal: result file of a child run")
		statusP = flag.String("status", "", "internal: status file")
		only    = flag.String("only", "", "run a single case: group#index")
		replay  = flag.String("replay", "", "re-run the case of a replay file")
		list    = flag.Bool("list", false, "list properties")
		verbose = flag.Bool("v", false, "print every violation")
	)
	flag.Parse()
	if *list {
		ids := []string{}
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	tier := "quick"
	if os.Getenv("VERIF_TIER") == "thorough" {
		tier = "thorough"
	}
	if *replay != "" {
		data, err := os.ReadFile(*replay)
		check(err)
		v := &Violation{}
		check(json.Unmarshal(data, v))
		*id, seed, tier = v.Property, v.Seed, v.Tier
		*only = fmt.Sprintf("%s#%d", v.Group, v.Index)
		os.Setenv("VERIF_SEED", fmt.Sprint(seed))
		os.Setenv("VERIF_TIER", tier)
	}
	p := props[*id]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *id)
		os.Exit(2)
	}
	if *child != "" {
		runChild(p, seed, tier, *child, *statusP, *only)
		return
	}
	os.Exit(supervise(p, seed, tier, *root, *only, *verbose))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "vmon:", err)
		os.Exit(2)
	}
}

const memLimit = 12 << 30

func runChild(p *Prop, seed int64, tier, out, statusP, only string) {
	r := newRun(p, seed, tier)
	if only != "" {
		i := strings.LastIndex(only, "#")
		r.OnlyGrp = only[:i]
		r.OnlyIdx, _ = strconv.Atoi(only[i+1:])
	}
	if statusP != "" {
		f, err := os.OpenFile(statusP, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644)
		check(err)
		r.status = &statusFile{f: f}
	}
	// unbounded allocation watchdog: exit 77 is attributed to the case in flight
	go func() {
		var ms runtime.MemStats
		for {
			time.Sleep(100 * time.Millisecond)
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > memLimit {
				fmt.Fprintf(os.Stderr, "fatal: heap grew past %d bytes\n", ms.HeapAlloc)
				os.Exit(77)
			}
		}
	}()
	p.Run(r)
	data, err := json.Marshal(r.result())
	check(err)
	check(os.WriteFile(out, data, 0644))
}

type childEnd struct {
	res      *Result
	code     int
	signal   string
	stalled  bool
	inflight []string
	stderr   string
}

// tailBuf keeps the head and tail of a child's stderr
type tailBuf struct{ head, tail bytes.Buffer }

func (t *tailBuf) Write(p []byte) (int, error) {
	n := len(p)
	if room := 64<<10 - t.head.Len(); room > 0 {
		k := room
		if k > len(p) {
			k = len(p)
		}
		t.head.Write(p[:k])
		p = p[k:]
	}
	t.tail.Write(p)
	if t.tail.Len() > 256<<10 {
		keep := append([]byte(nil), t.tail.Bytes()[t.tail.Len()-(64<<10):]...)
		t.tail.Reset()
		t.tail.Write(keep)
	}
	return n, nil
}
func (t *tailBuf) String() string { return t.head.String() + t.tail.String() }

var _ io.Writer = (*tailBuf)(nil)

// spawn runs the workload in a child process, so that what kills a process
// (stack exhaustion, deadlock, race report, runaway loop) becomes an observation
func spawn(p *Prop, dir, only string, stall time.Duration, cpuSec uint64) childEnd {
	out := filepath.Join(dir, "result.json")
	st := filepath.Join(dir, "status")
	os.Remove(out)
	os.Remove(st)
	args := []string{"-prop", p.ID, "-child", out, "-status", st}
	if only != "" {
		args = append(args, "-only", only)
	}
	exe, err := os.Executable()
	check(err)
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), "GOLOG_LOG_LEVEL=fatal", "GOTRACEBACK=all", "GORACE=halt_on_error=0 exitcode=66 history_size=4", "VMON_SCRATCH="+dir)
	tb := &tailBuf{}
	cmd.Stderr = tb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	check(cmd.Start())
	if cpuSec > 0 {
		setCPULimit(cmd.Process.Pid, cpuSec)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	end := childEnd{}
	last, lastAt := uint64(0), time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case werr := <-done:
			if ee, ok := werr.(*exec.ExitError); ok {
				end.code = ee.ExitCode()
				if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
					end.signal = ws.Signal().String()
				}
			} else if werr != nil {
				end.code = -1
			}
			_, end.inflight = readStatus(st)
			end.stderr = tb.String()
			if data, err := os.ReadFile(out); err == nil {
				res := &Result{}
				if json.Unmarshal(data, res) == nil {
					end.res = res
				}
			}
			return end
		case <-tick.C:
			n, _ := readStatus(st)
			if n != last {
				last, lastAt = n, time.Now()
			}
			if time.Since(lastAt) > stall {
				cmd.Process.Signal(syscall.SIGQUIT) // goroutine dump
				select {
				case <-done:
				case <-time.After(20 * time.Second):
					cmd.Process.Kill()
					<-done
				}
				end.stalled = true
				_, end.inflight = readStatus(st)
				end.stderr = tb.String()
				return end
			}
		}
	}
}

type known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known | fixed
	Sig      string `json:"sig"`
	What     string `json:"what"`
}

func loadKnown(root, id string) map[string]known {
	m := map[string]known{}
	data, err := os.ReadFile(filepath.Join(root, "known_findings.jsonl"))
	if err != nil {
		return m
	}
	for _, line := range strings.Split(string(data), "\n") {
		line = strings.TrimSpace(line)
		if line == "" || strings.HasPrefix(line, "fixed:") {
			continue
		}
		k := known{}
		if err := json.Unmarshal([]byte(line), &k); err != nil {
			continue
		}
		if k.Property == id && k.Status == "known" && k.Sig != "" {
			m[k.Sig] = k
		}
	}
	return m
}

func supervise(p *Prop, seed int64, tier, root, only string, verbose bool) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "vmon-"+p.ID+"-")
	check(err)
	defer os.RemoveAll(dir)

	end := spawn(p, dir, only, 150*time.Second, 0)
	var viols []*Violation
	res := end.res
	inconclusive := ""
	races := raceBlocks(end.stderr)
	for _, rb := range races {
		viols = append(viols, &Violation{Property: p.ID, Sig: "race:" + rb.key, Seed: seed, Tier: tier, Group: "(whole run)", Message: "data race: " + rb.key, Stack: rb.text})
	}
	switch {
	case res != nil && (end.code == 0 || end.code == 66):
		viols = append(viols, res.Violations...)
	default:
		// the child died or stalled: find which in-flight case does it alone
		found := false
		for _, cs := range end.inflight {
			e2 := spawn(p, dir, cs, 120*time.Second, 60)
			i := strings.LastIndex(cs, "#")
			idx, _ := strconv.Atoi(cs[i+1:])
			v := &Violation{Property: p.ID, Group: cs[:i], Index: idx, Seed: seed, Tier: tier}
			switch {
			case e2.res != nil && (e2.code == 0 || e2.code == 66):
				if len(e2.res.Violations) > 0 {
					viols = append(viols, e2.res.Violations...)
					found = true
				}
				continue
			case e2.stalled:
				v.Sig, v.Message = "stall:"+cs[:i], "the case alone makes no progress: blocked, no step completed"
			case e2.signal == "cpu time limit exceeded" || e2.signal == "killed":
				v.Sig, v.Message = "runaway:"+cs[:i], "the case alone used up 60 s of CPU time without finishing"
			case e2.code == 77:
				v.Sig, v.Message = "memory:"+cs[:i], "the case alone allocated without bound"
			default:
				v.Sig, v.Message = "fatal:"+cs[:i]+":"+fatalLine(e2.stderr), "the case alone ends the process: "+fatalLine(e2.stderr)
			}
			v.Stack = trimStack(e2.stderr)
			viols = append(viols, v)
			found = true
		}
		if !found && len(races) == 0 {
			inconclusive = fmt.Sprintf("child ended with code %d %s stalled=%v and no in-flight case reproduces it alone: %s", end.code, end.signal, end.stalled, fatalLine(end.stderr))
			if end.code == 2 && strings.Contains(end.stderr, "qri-io/dataset") && (strings.Contains(end.stderr, "panic:") || strings.Contains(end.stderr, "fatal error:")) && !end.stalled {
				// the runtime itself reported a crash inside the code under test
				inconclusive = ""
				viols = append(viols, &Violation{Property: p.ID, Sig: "fatal:" + fatalLine(end.stderr), Group: "(whole run)", Seed: seed, Tier: tier, Message: "process crash: " + fatalLine(end.stderr) + " in-flight: " + strings.Join(end.inflight, ","), Stack: trimStack(end.stderr)})
			}
		}
		if res == nil {
			res = &Result{Events: map[string]int64{}, Groups: map[string]int64{}, Samples: []string{}}
		}
	}

	kn := loadKnown(root, p.ID)
	var fresh []*Violation
	seen := map[string]bool{}
	for _, v := range viols {
		if k, ok := kn[v.Sig]; ok {
			if !seen[v.Sig] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
				seen[v.Sig] = true
			}
			continue
		}
		fresh = append(fresh, v)
	}
	if inconclusive == "" && only == "" && len(fresh) == 0 {
		for ev, n := range p.Need {
			if res.Events[ev] < n {
				inconclusive = fmt.Sprintf("monitor event %q observed %d times, need %d", ev, res.Events[ev], n)
			}
		}
	}
	wall := time.Since(start).Seconds()
	if only == "" {
		writeEvidence(root, p, seed, tier, res, len(fresh), len(seen), races, wall)
	}
	if len(fresh) > 0 {
		rdir := filepath.Join(root, ".replay")
		os.MkdirAll(rdir, 0755)
		for i, v := range fresh {
			if i >= 8 && !verbose {
				fmt.Printf("... and %d more kinds of violation\n", len(fresh)-i)
				break
			}
			path := filepath.Join(rdir, fmt.Sprintf("%s-%016x.json", p.ID, hash64(v.Sig)))
			data, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(path, data, 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			fmt.Printf("  [%s] %s#%d: %s\n", v.Sig, v.Group, v.Index, strings.ReplaceAll(clip(v.Message, 1200), "\n", "\n  "))
		}
		return 1
	}
	if inconclusive != "" {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", p.ID, inconclusive)
		return 2
	}
	fmt.Printf("held property=%s tier=%s seed=%d evaluations=%d distinct=%d events=%s wall=%.1fs\n", p.ID, tier, seed, res.Evals, res.Distinct, evLine(res.Events), wall)
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func evLine(m map[string]int64) string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := []string{}
	for _, k := range ks {
		out = append(out, fmt.Sprintf("%s:%d", k, m[k]))
	}
	return "{" + strings.Join(out, " ") + "}"
}

func fatalLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			return clip(l, 200)
		}
	}
	return "no fatal line"
}

type raceBlock struct{ key, text string }

// raceBlocks splits the race detector's reports and keys each by the pair of
// outermost repository frames, line numbers stripped
func raceBlocks(s string) []raceBlock {
	var out []raceBlock
	seen := map[string]bool{}
	parts := strings.Split(s, "==================")
	for _, b := range parts {
		if !strings.Contains(b, "WARNING: DATA RACE") {
			continue
		}
		var fns []string
		for _, l := range strings.Split(b, "\n") {
			t := strings.TrimSpace(l)
			if strings.HasPrefix(t, "github.com/qri-io/dataset") && strings.HasSuffix(t, ")") {
				if j := strings.LastIndex(t, "("); j > 0 {
					t = t[:j]
				}
				fns = append(fns, strings.TrimPrefix(t, "github.com/qri-io/dataset"))
			}
		}
		if len(fns) == 0 {
			fns = []string{"(no repository frame)"}
		}
		if len(fns) > 4 {
			fns = fns[:4]
		}
		key := strings.Join(fns, " <- ")
		if seen[key] {
			continue
		}
		seen[key] = true
		out = append(out, raceBlock{key, trimStack(b)})
	}
	return out
}

func writeEvidence(root string, p *Prop, seed int64, tier string, res *Result, fresh, kn int, races []raceBlock, wall float64) {
	samples := []interface{}{}
	for _, s := range res.Samples {
		samples = append(samples, s)
	}
	ev := map[string]interface{}{
		"property": p.ID,
		"tier":     tier,
		"seed":     seed,
		"level":    p.Level,
		"coverage": map[string]interface{}{
			"evaluations":         res.Evals,
			"distinct_nontrivial": res.Distinct,
			"rule":                p.Rule,
			"samples":             samples,
			"monitor_events":      res.Events,
			"cases_by_group":      res.Groups,
			"race_reports":        len(races),
			"race_detector":       raceEnabled,
			"known_findings_seen": kn,
		},
		"assumptions": p.Assume,
		"wall_s":      wall,
		"violations":  fresh,
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	check(os.WriteFile(filepath.Join(root, "evidence", p.ID+".json"), append(data, '\n'), 0644))
}
