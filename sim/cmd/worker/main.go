// Command worker executes plans against the instrumented library.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"verif.local/sim/instrument"
	"verif.local/sim/simrand"
	"verif.local/sim/simrt"
)

var sites []instrument.Site

// sharedSites counts the places that touch state of the package and of objects.
var sharedSites [2]int

func siteName(s int32) string {
	if int(s) < len(sites) && s > 0 {
		x := sites[s]
		return fmt.Sprintf("%s:%d (%s)", x.File, x.Line, x.Func)
	}
	return "(between calls)"
}

// world of a property
type world struct {
	gen func(prop string, seed uint64, cold bool) (*Plan, *Result)
	run func(p *Plan) *Result
}

func worldOf(prop string) world {
	switch prop {
	case "C01", "C02", "C03", "C07", "C15", "C16":
		return world{
			gen: func(prop string, seed uint64, cold bool) (*Plan, *Result) {
				p, s := genShared(prop, seed, cold)
				return p, runShared(p, s)
			},
			run: func(p *Plan) *Result { return runShared(p, nil) },
		}
	}
	if w, ok := worlds[prop]; ok {
		return w
	}
	fmt.Fprintln(os.Stderr, "worker: unknown property", prop)
	os.Exit(2)
	return world{}
}

var worlds = map[string]world{}

// Batch is what a worker process reports about its seeds.
type Batch struct {
	Runs    int            `json:"runs"`
	Steps   int64          `json:"steps"`
	Triv    int            `json:"triv"`
	Cov     map[string]int `json:"cov"`
	Shapes  []uint64       `json:"shapes"`
	Hash    uint64         `json:"hash"`
	Hashes  []uint64       `json:"hashes,omitempty"`
	Hit     []int          `json:"hit"`
	Fail    *Result        `json:"fail,omitempty"`
	FailPln *Plan          `json:"failplan,omitempty"`
	Sample  *Plan          `json:"sample,omitempty"`
	Known   map[int]int    `json:"known,omitempty"`
	Next    uint64         `json:"next"`
}

// Known is a recorded finding: a violation of this class whose description
// contains the text is reported as known instead.
type Known struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Contains string `json:"contains"`
}

var known []Known

func isKnown(prop string, r *Result) int {
	if r.Viol == "" {
		return -1
	}
	for i, k := range known {
		if k.Property == prop && k.Class == r.Class && k.Contains != "" && strings.Contains(r.Viol, k.Contains) {
			return i
		}
	}
	return -1
}

func main() {
	debug.SetGCPercent(400)
	debug.SetMaxStack(256 << 20)
	runtime.GOMAXPROCS(2) // one for the simulation, one for the runtime
	prop := flag.String("prop", "", "")
	base := flag.Uint64("base", 1, "first component of every seed")
	from := flag.Uint64("from", 0, "")
	to := flag.Uint64("to", 0, "")
	cold := flag.Bool("cold", false, "")
	sample := flag.Bool("sample", false, "")
	hashes := flag.Bool("hashes", false, "")
	sitesF := flag.String("sites", "", "")
	emit := flag.Bool("emit", false, "print the plans instead of the batch")
	knownF := flag.String("known", "", "known findings, JSON array")
	flag.StringVar(&curFile, "cur", "", "write every plan there before it is executed")
	replay := flag.String("replay", "", "plans to execute in order, JSON array")
	flag.Parse()
	if *sitesF != "" {
		if b, err := os.ReadFile(*sitesF); err == nil {
			json.Unmarshal(b, &sites)
			for _, s := range sites {
				if s.Shared > 0 {
					sharedSites[s.Shared-1]++
				}
			}
		}
	}
	if *knownF != "" {
		b, err := os.ReadFile(*knownF)
		if err == nil {
			err = json.Unmarshal(b, &known)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "worker: known findings:", err)
			os.Exit(2)
		}
	}
	go watchdog()
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var plans []*Plan
		if err := json.Unmarshal(b, &plans); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var last *Result
		for _, p := range plans {
			progress++
			start(p.Seed)
			last = worldOf(p.Prop).run(p)
		}
		enc.Encode(last)
		out.Flush()
		return
	}
	w := worldOf(*prop)
	if *emit {
		var plans []*Plan
		for i := *from; i < *to; i++ {
			progress++
			start(*base<<40 | i)
			p, _ := w.gen(*prop, *base<<40|i, *cold)
			plans = append(plans, p)
		}
		enc.Encode(plans)
		out.Flush()
		return
	}
	b := &Batch{Cov: map[string]int{}}
	seen := map[uint64]bool{}
	for i := *from; i < *to; i++ {
		progress++
		start(*base<<40 | i)
		p, res := w.gen(*prop, *base<<40|i, *cold)
		b.Runs++
		b.Steps += res.Steps
		if res.Triv {
			b.Triv++
		} else if !seen[res.Shape] {
			seen[res.Shape] = true
			b.Shapes = append(b.Shapes, res.Shape)
		}
		for k, v := range res.Cov {
			b.Cov[k] += v
		}
		b.Hash = b.Hash*1099511628211 + res.Hash
		if *hashes {
			b.Hashes = append(b.Hashes, res.Hash)
		}
		b.Next = i + 1
		if *sample && !res.Triv && b.Sample == nil {
			b.Sample = p
		}
		if k := isKnown(*prop, res); k >= 0 {
			if b.Known == nil {
				b.Known = map[int]int{}
			}
			b.Known[k]++
		} else if res.Viol != "" {
			b.Fail, b.FailPln = res, p
			break
		}
	}
	for i, h := range simrt.Hit {
		if h {
			b.Hit = append(b.Hit, i)
		}
	}
	enc.Encode(b)
	out.Flush()
}

var curFile string

// begin notes the plan that is executed now, for the case that the process
// does not survive it.
func begin(p *Plan) {
	if curFile == "" {
		return
	}
	b, err := json.Marshal(p)
	if err == nil {
		err = os.WriteFile(curFile, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "worker:", err)
		os.Exit(2)
	}
}

var progress int64

// start gives a run its clock and its randomness.
func start(seed uint64) {
	simrt.ResetClock(seed)
	simrand.Reset(seed)
}

// watchdog ends a process in which nothing moves: code outside the simulator's
// control blocks. That is trouble with the harness, never a verdict.
func watchdog() {
	last := int64(-1)
	n := 0
	for {
		time.Sleep(time.Second)
		now := progress
		if now != last {
			last, n = now, 0
			continue
		}
		if n++; n > 90 {
			fmt.Fprintln(os.Stderr, "worker: no progress for 90 s")
			os.Exit(3)
		}
	}
}
