// Command simctl drives the simulator: it builds the instrumented worker from
// the current /repo, spreads the seeds of a check over worker processes, and
// confirms, minimises and stores what fails.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// the worker's types, as far as they are needed here
type result struct {
	Seed  uint64            `json:"seed"`
	Viol  string            `json:"viol,omitempty"`
	Class string            `json:"class,omitempty"`
	Hash  uint64            `json:"hash"`
	Steps int64             `json:"steps"`
	Trace []string          `json:"trace,omitempty"`
	Det   map[string]string `json:"detail,omitempty"`
}

type batch struct {
	Runs    int             `json:"runs"`
	Steps   int64           `json:"steps"`
	Triv    int             `json:"triv"`
	Cov     map[string]int  `json:"cov"`
	Shapes  []uint64        `json:"shapes"`
	Hash    uint64          `json:"hash"`
	Hashes  []uint64        `json:"hashes"`
	Hit     []int           `json:"hit"`
	Fail    *result         `json:"fail"`
	FailPln json.RawMessage `json:"failplan"`
	Sample  json.RawMessage `json:"sample"`
	Known   map[int]int     `json:"known"`
	Next    uint64          `json:"next"`
}

type knownFinding struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Contains string `json:"contains"`
	What     string `json:"what"`
}

type knownFile struct {
	Findings []knownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

// replayFile is one minimised failing execution.
type replayFile struct {
	Property string            `json:"property"`
	Seed     uint64            `json:"seed"`
	Class    string            `json:"class"`
	Viol     string            `json:"violation"`
	Hash     uint64            `json:"eventlog"`
	Stable   bool              `json:"reproduced"`
	Trace    []string          `json:"trace"`
	Plans    []json.RawMessage `json:"plans"`
}

type task struct {
	from, to uint64
	cold     bool
	sample   bool
}

var verif, repo string

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "check: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	verif = os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	repo = os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	if len(os.Args) < 2 {
		die("usage: check --setup | <property> [quick|thorough] | replay <file> | determinism <property>")
	}
	start := time.Now()
	b, err := build(verif, repo)
	if err != nil {
		die("%v", err)
	}
	switch os.Args[1] {
	case "--setup":
		fmt.Printf("worker ready: %d sites, seams %s, %.1f s\n", b.NumSites, b.Options, time.Since(start).Seconds())
	case "replay":
		if len(os.Args) < 3 {
			die("replay needs a file")
		}
		os.Exit(replay(b, os.Args[2]))
	case "determinism":
		os.Exit(determinism(b, os.Args[2:]))
	default:
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 2 {
			tier = os.Args[2]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(check(b, os.Args[1], tier, start))
	}
}

func seedBase() uint64 {
	s := os.Getenv("VERIF_SEED")
	if s == "" {
		return 1
	}
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		var h uint64 = 14695981039346656037
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
		n = h
	}
	return n & (1<<23 - 1)
}

// death is the end of a worker in the Go runtime: a panic that nobody can
// recover, a stack that never ends.
type death struct{ how string }

func (d *death) Error() string { return "the worker died: " + d.how }

var deathRE = regexp.MustCompile(`(?m)^(panic: .*|fatal error: .*|runtime: goroutine stack exceeds.*)$`)

// died finds the run in which a task's process dies.
func died(b *Built, prop string, base uint64, t task, tmp string) *batch {
	f := filepath.Join(tmp, "current.json")
	_, err := run(b, 800*time.Second, nil, append(taskArgs(prop, base, t), "-cur", f)...)
	d, ok := err.(*death)
	if !ok {
		return nil
	}
	p, err := os.ReadFile(f)
	r := &result{Class: "died", Viol: "the process died: " + d.how}
	if err != nil || json.Unmarshal(p, &struct{ Seed *uint64 }{&r.Seed}) != nil {
		return nil
	}
	return &batch{Runs: 1, Fail: r, FailPln: p}
}

func run(b *Built, timeout time.Duration, stdin []byte, args ...string) ([]byte, error) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, b.Worker, append([]string{"-sites", b.Sites}, args...)...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.Env = []string{"GODEBUG=", "GOTRACEBACK=1", "PATH=/usr/bin:/bin", "TMPDIR=" + os.TempDir()}
	err := cmd.Run()
	if err != nil && ctx.Err() == nil {
		if m := deathRE.FindString(errb.String()); m != "" {
			return nil, &death{strings.TrimSpace(m)}
		}
	}
	if err != nil {
		e := errb.String()
		if len(e) > 3000 {
			e = e[:3000]
		}
		return nil, fmt.Errorf("worker %v: %v\n%s", args, err, e)
	}
	return out.Bytes(), nil
}

func knownArgs(dir, prop string) ([]knownFinding, string, error) {
	kf := knownFile{}
	bts, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if os.IsNotExist(err) {
		return nil, "", nil
	}
	if err == nil {
		err = json.Unmarshal(bts, &kf)
	}
	if err != nil {
		return nil, "", err
	}
	var mine []knownFinding
	for _, k := range kf.Findings {
		if k.Property == prop {
			mine = append(mine, k)
		}
	}
	if len(mine) == 0 {
		return nil, "", nil
	}
	p := filepath.Join(dir, "known.json")
	j, _ := json.Marshal(mine)
	return mine, p, os.WriteFile(p, j, 0o644)
}

func check(b *Built, prop, tier string, start time.Time) int {
	pl, ok := plans[prop]
	if !ok {
		die("no check for %q", prop)
	}
	bd := pl.quick
	if tier == "thorough" {
		bd = pl.thorough
	}
	if s := os.Getenv("VERIF_RUNS"); s != "" {
		bd.warm, _ = strconv.Atoi(s)
	}
	base := seedBase()
	tmp, err := os.MkdirTemp("", "verif-sim-")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(tmp)
	known, knownPath, err := knownArgs(tmp, prop)
	if err != nil {
		die("known findings: %v", err)
	}
	workers := runtime.NumCPU()
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		workers, _ = strconv.Atoi(s)
	}
	if workers < 1 {
		workers = 1
	}
	fmt.Printf("check %s %s: seed %d, %d runs in long-lived processes, %d in fresh ones\n", prop, tier, base, bd.warm, bd.cold)
	var tasks []task
	for i := 0; i < bd.cold; i++ {
		tasks = append(tasks, task{from: 1<<38 + uint64(i), to: 1<<38 + uint64(i) + 1, cold: true})
	}
	for i := 0; i < bd.warm; i += bd.chunk {
		e := i + bd.chunk
		if e > bd.warm {
			e = bd.warm
		}
		tasks = append(tasks, task{from: uint64(i), to: uint64(e), sample: i < 3*bd.chunk})
	}
	results := make([]*batch, len(tasks))
	errs := make([]error, len(tasks))
	stop := make([]bool, 1)
	var mu sync.Mutex
	next := 0
	var wg sync.WaitGroup
	simStart := time.Now()
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				if i >= len(tasks) || stop[0] || time.Since(start) > bd.cap {
					mu.Unlock()
					return
				}
				next++
				mu.Unlock()
				t := tasks[i]
				args := taskArgs(prop, base, t)
				if knownPath != "" {
					args = append(args, "-known", knownPath)
				}
				out, err := run(b, 800*time.Second, nil, args...)
				r := &batch{}
				if err == nil {
					err = json.Unmarshal(out, r)
				}
				mu.Lock()
				if err != nil {
					errs[i] = err
					stop[0] = true
				} else {
					results[i] = r
					if r.Fail != nil {
						stop[0] = true
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	simWall := time.Since(simStart).Seconds()
	// the failing run of the lowest task
	fail := -1
	for i := range results {
		if results[i] != nil && results[i].Fail != nil {
			fail = i
			break
		}
	}
	if fail < 0 {
		for i := range errs {
			if _, ok := errs[i].(*death); ok {
				if r := died(b, prop, base, tasks[i], tmp); r != nil {
					fail, results[i], errs[i] = i, r, nil
					break
				}
			}
		}
	}
	if fail < 0 {
		for i := range errs {
			if errs[i] != nil {
				die("%v", errs[i])
			}
		}
	}
	// add up
	tot := &batch{Cov: map[string]int{}, Known: map[int]int{}}
	shapes := map[uint64]bool{}
	hit := map[int]bool{}
	procs, coldRuns := 0, 0
	var samples []json.RawMessage
	for i, r := range results {
		if r == nil {
			continue
		}
		procs++
		tot.Runs += r.Runs
		tot.Steps += r.Steps
		tot.Triv += r.Triv
		if tasks[i].cold {
			coldRuns += r.Runs
		}
		for k, v := range r.Cov {
			tot.Cov[k] += v
		}
		for k, v := range r.Known {
			tot.Known[k] += v
		}
		for _, s := range r.Shapes {
			shapes[s] = true
		}
		for _, s := range r.Hit {
			hit[s] = true
		}
		if r.Sample != nil && len(samples) < 3 {
			samples = append(samples, r.Sample)
		}
	}
	for i, k := range known {
		if tot.Known[i] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
		}
	}
	// determinism self-check: repeat the first chunk and compare its event logs
	det := "not done: a violation was found first"
	if fail < 0 {
		n, err := repeatCheck(b, prop, base, tasks, results, knownPath)
		if err != nil {
			die("determinism: %v", err)
		}
		det = fmt.Sprintf("%d runs repeated in other processes, event logs identical", n)
	}
	if d := os.Getenv("VERIF_HITS"); d != "" {
		// the statements reached, for tools/coverage.py
		l := []int{}
		for s := range hit {
			l = append(l, s)
		}
		sort.Ints(l)
		out, _ := json.Marshal(map[string]interface{}{"sites": b.Sites, "hit": l})
		os.WriteFile(filepath.Join(d, prop+".json"), out, 0o644)
	}
	ev := map[string]interface{}{
		"evaluations":         tot.Runs,
		"distinct_nontrivial": len(shapes),
		"rule":                pl.rule,
		"samples":             samples,
		"seeds":               map[string]interface{}{"base": base, "runs": tot.Runs, "fresh_process_runs": coldRuns, "processes": procs},
		"runs_per_hour":       int(float64(tot.Runs) / simWall * 3600),
		"seeds_per_hour":      int(float64(tot.Runs) / simWall * 3600),
		"simulated_time":      map[string]interface{}{"steps": tot.Steps, "unit": "one library statement or harness step = 1 simulated microsecond (some runs: a millisecond or a second, and jumps)", "simulated_seconds": float64(tot.Steps) / 1e6},
		"faults_injected":     pick(tot.Cov, pl.faults),
		"probes":              tot.Cov,
		"trivial_runs":        tot.Triv,
		"sites_reached":       len(hit),
		"sites_total":         b.NumSites,
		"determinism":         det,
		"components": map[string]interface{}{
			"real": "the whole library of /repo (every non-test source file, rebuilt from the working tree with preemption points)",
			"seams": fmt.Sprintf("scheduler (all), %s; %d files, %d file-system calls, %d sync imports, %d map ranges, %d go statements, %d clock reads rewritten, %d channel operations",
				b.Options, b.Stats.Files, b.Stats.FSCalls, b.Stats.SyncImports, b.Stats.MapRanges, b.Stats.GoStmts, b.Stats.Clocks, b.Stats.Channels),
			"stub": pl.stub,
		},
		"known_findings_met": len(tot.Known),
		"simulation_wall_s":  simWall,
	}
	if bd.warm+bd.cold > tot.Runs && fail < 0 {
		ev["note"] = fmt.Sprintf("time cap reached: %d of %d planned runs", tot.Runs, bd.warm+bd.cold)
	}
	violations := 0
	code := 0
	if fail >= 0 {
		violations = 1
		code = 1
		path, msg := report(b, prop, base, tasks[fail], results[fail], tmp, pl)
		fmt.Println(msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		ev["violation"] = msg
		if len(samples) == 0 {
			ev["samples"] = []json.RawMessage{results[fail].FailPln}
		}
	} else {
		fmt.Printf("%s: %d runs, %d distinct, %d steps, %d processes, %.1f s: no violation\n", prop, tot.Runs, len(shapes), tot.Steps, procs, time.Since(start).Seconds())
		var ks []string
		for k, v := range tot.Cov {
			ks = append(ks, fmt.Sprintf("%s=%d", k, v))
		}
		sort.Strings(ks)
		fmt.Println("  fired: " + strings.Join(ks, " "))
	}
	doc := map[string]interface{}{
		"property": prop, "tier": tier, "seed": int(base), "level": "exploration",
		"coverage": ev, "wall_s": time.Since(start).Seconds(), "violations": violations,
		"assumptions": pl.assume,
	}
	j, _ := json.MarshalIndent(doc, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(j, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	return code
}

func pick(m map[string]int, names []string) map[string]int {
	out := map[string]int{}
	for _, n := range names {
		out[n] = m[n]
	}
	return out
}

func taskArgs(prop string, base uint64, t task) []string {
	a := []string{"-prop", prop, "-base", strconv.FormatUint(base, 10), "-from", strconv.FormatUint(t.from, 10), "-to", strconv.FormatUint(t.to, 10)}
	if t.cold {
		a = append(a, "-cold")
	}
	if t.sample {
		a = append(a, "-sample")
	}
	return a
}

// repeatCheck runs a part of the seeds again, alone in other processes, and
// compares the event logs.
func repeatCheck(b *Built, prop string, base uint64, tasks []task, results []*batch, knownPath string) (int, error) {
	type job struct {
		t    task
		want uint64
	}
	var jobs []job
	cold, warm := 0, 0
	for i, t := range tasks {
		if results[i] == nil {
			continue
		}
		if t.cold && cold < 4 {
			cold++
			jobs = append(jobs, job{t, results[i].Hash})
		}
		if !t.cold && warm < 2 {
			warm++
			jobs = append(jobs, job{t, results[i].Hash})
		}
	}
	n := 0
	errc := make(chan error, len(jobs))
	nc := make(chan int, len(jobs))
	for _, j := range jobs {
		go func(j job) {
			args := taskArgs(prop, base, j.t)
			if knownPath != "" {
				args = append(args, "-known", knownPath)
			}
			out, err := run(b, 800*time.Second, nil, args...)
			r := &batch{}
			if err == nil {
				err = json.Unmarshal(out, r)
			}
			if err == nil && r.Hash != j.want {
				err = fmt.Errorf("seeds %d..%d of %s gave another event log when repeated", j.t.from, j.t.to, prop)
			}
			nc <- r.Runs
			errc <- err
		}(j)
	}
	var first error
	for range jobs {
		n += <-nc
		if err := <-errc; err != nil && first == nil {
			first = err
		}
	}
	return n, first
}

func exec1(b *Built, plans []json.RawMessage, tmp string, id int) (*result, error) {
	p := filepath.Join(tmp, fmt.Sprintf("cand-%d.json", id))
	j, err := json.Marshal(plans)
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(p, j, 0o644); err != nil {
		return nil, err
	}
	defer os.Remove(p)
	out, err := run(b, 120*time.Second, nil, "-replay", p)
	if d, ok := err.(*death); ok {
		return &result{Class: "died", Viol: "the process died: " + d.how}, nil
	}
	if err != nil {
		return nil, err
	}
	r := &result{}
	return r, json.Unmarshal(out, r)
}

// report confirms a failing run in a fresh process, minimises it and stores it.
func report(b *Built, prop string, base uint64, t task, r *batch, tmp string, pl plan) (string, string) {
	plans := []json.RawMessage{r.FailPln}
	same := func(x *result, err error) bool {
		return err == nil && x != nil && x.Viol != "" && x.Class == r.Fail.Class
	}
	x, err := exec1(b, plans, tmp, 0)
	stable := same(x, err)
	if !stable {
		// it needs the runs before it in the same process
		e := t
		e.to = r.Next
		out, err := run(b, 800*time.Second, nil, append(taskArgs(prop, base, e), "-emit")...)
		var all []json.RawMessage
		if err == nil {
			err = json.Unmarshal(out, &all)
		}
		if err == nil {
			plans = all
			x, err = exec1(b, plans, tmp, 0)
			stable = same(x, err)
		}
	}
	if stable {
		plans = minimise(b, plans, r.Fail.Class, tmp, 75*time.Second)
		if y, err := exec1(b, plans, tmp, 0); same(y, err) {
			x = y
		}
	} else {
		x = r.Fail
		plans = []json.RawMessage{r.FailPln}
	}
	rf := replayFile{Property: prop, Seed: r.Fail.Seed, Class: x.Class, Viol: x.Viol, Hash: x.Hash, Stable: stable, Trace: x.Trace, Plans: plans}
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, r.Fail.Seed))
	j, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(path, append(j, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	msg := fmt.Sprintf("seed %d: %s", r.Fail.Seed, x.Viol)
	if !stable {
		msg += " (observed, but the run did not repeat by itself)"
	}
	return path, msg
}

func replay(b *Built, path string) int {
	j, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	rf := replayFile{}
	if err := json.Unmarshal(j, &rf); err != nil {
		die("%v", err)
	}
	tmp, err := os.MkdirTemp("", "verif-sim-")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(tmp)
	x, err := exec1(b, rf.Plans, tmp, 0)
	if err != nil {
		die("%v", err)
	}
	for _, l := range x.Trace {
		fmt.Println("  " + l)
	}
	if x.Viol == "" {
		fmt.Println("no violation on this tree")
		return 0
	}
	fmt.Println(x.Viol)
	if x.Hash == rf.Hash {
		fmt.Println("event log identical to the recorded one")
	} else {
		fmt.Println("event log differs from the recorded one (other code)")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return 1
}

// determinism runs many base seeds twice, in processes of different sizes.
func determinism(b *Built, args []string) int {
	if len(args) == 0 {
		for p := range plans {
			args = append(args, p)
		}
		sort.Strings(args)
	}
	bad := 0
	for _, prop := range args {
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan bool, runtime.NumCPU())
		n := 0
		for base := uint64(1); base <= 24; base++ {
			wg.Add(1)
			sem <- true
			go func(base uint64) {
				defer wg.Done()
				defer func() { <-sem }()
				hs := map[uint64]uint64{}
				for _, step := range []uint64{60, 7, 60} {
					for i := uint64(0); i < 60; i += step {
						to := i + step
						if to > 60 {
							to = 60
						}
						out, err := run(b, 300*time.Second, nil, append(taskArgs(prop, base, task{from: i, to: to}), "-hashes")...)
						r := &batch{}
						if err == nil {
							err = json.Unmarshal(out, r)
						}
						mu.Lock()
						if err != nil {
							fmt.Println(err)
							bad++
							mu.Unlock()
							return
						}
						for k, h := range r.Hashes {
							n++
							if w, ok := hs[i+uint64(k)]; ok && w != h {
								fmt.Printf("%s base %d seed %d differs\n", prop, base, i+uint64(k))
								bad++
							}
							hs[i+uint64(k)] = h
						}
						mu.Unlock()
					}
				}
			}(base)
		}
		wg.Wait()
		fmt.Printf("%s: %d executions compared, %d differences\n", prop, n, bad)
	}
	if bad > 0 {
		return 2
	}
	return 0
}
