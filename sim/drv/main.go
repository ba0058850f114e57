// Command drv searches for executions that violate a property, minimises
// them, and replays them.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

var (
	propFlag    = flag.String("prop", "", "property to check")
	rootFlag    = flag.String("root", "", "directory holding sim, evidence and so on")
	binFlag     = flag.String("bin", "", "directory holding the simulated programs")
	replayFlag  = flag.String("replay", "", "replay this file")
	casesFlag   = flag.Int("cases", 0, "number of cases, if positive")
	capFlag     = flag.Duration("cap", 0, "wall time limit for the search, if positive")
	workers     = flag.Int("workers", runtime.NumCPU(), "number of simulated processes at a time")
	showFlag    = flag.Int("show", -1, "print this case and the scenario result, do not search")
	verboseFlag = flag.Bool("v", false, "with -replay, print the files and the output")
	selfFlag    = flag.Bool("self", false, "run cases twice and compare the executions")
)

// replayFile is the stored form of a violation.
type replayFile struct {
	Prop   string
	Class  string
	Detail string
	Hashes []uint64
	Case   *Case
	From   uint64 // VERIF_SEED of the search
	Index  int
}

func mix(a, b uint64) uint64 {
	r := rng{a ^ b*0x9E3779B97F4A7C15}
	r.next()
	return r.next()
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// judge judges a case, turning panics into a verdict or an error.
func judge(p *property, r *runner, c *Case) (v *verdict, err error) {
	v = &verdict{}
	defer func() {
		switch x := recover().(type) {
		case nil:
		case violated:
			v.class, v.detail = x.class, x.detail
		case simError:
			err = x
		default:
			err = simError{fmt.Sprintf("driver: %v\n%s", x, debug.Stack())}
		}
	}()
	p.judge(&judgeCtx{r, v}, c)
	return v, nil
}

func main() {
	flag.Parse()
	os.Exit(run())
}

func run() int {
	start := time.Now()
	scratch, err := os.MkdirTemp("", "verifsim")
	if err != nil {
		fmt.Fprintln(os.Stderr, "drv:", err)
		return 3
	}
	defer os.RemoveAll(scratch)
	if err := loadStd(filepath.Join(*rootFlag, "sim", "std"), filepath.Join(scratch, basePath)); err != nil {
		fmt.Fprintln(os.Stderr, "drv:", err)
		return 3
	}
	r := newRunner(*binFlag, scratch)
	if *replayFlag != "" {
		return replay(r, *replayFlag)
	}
	p := properties[*propFlag]
	if p == nil {
		fmt.Fprintf(os.Stderr, "drv: no check for property %q\n", *propFlag)
		return 3
	}
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	n, limit := p.quick, 100*time.Second
	if tier == "thorough" {
		n, limit = p.thorough, 780*time.Second
	}
	if *casesFlag > 0 {
		n = *casesFlag
	}
	if *capFlag > 0 {
		limit = *capFlag
	}
	base := mix(seed, hashString(p.id))
	if *showFlag >= 0 {
		return show(p, r, mkCase(p, base, *showFlag))
	}
	r.recheck = 50
	if *selfFlag {
		return selfTest(p, r, base, n)
	}

	for _, k := range p.known {
		bad := false
		_, err := judge(&property{judge: func(j *judgeCtx, c *Case) { bad = k.fails(j) }}, r, nil)
		if err != nil {
			fmt.Fprintln(os.Stderr, "drv:", err)
			return 3
		}
		if bad {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.id, k.what)
		}
	}

	type hit struct {
		i int
		c *Case
		v *verdict
	}
	var (
		mu     sync.Mutex
		best   *hit
		errs   []string
		done   int
		next   atomic.Int64
		wg     sync.WaitGroup
		stop   atomic.Bool
		sample []string
	)
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				i := int(next.Add(1)) - 1
				if i >= n || time.Since(start) > limit {
					return
				}
				c := mkCase(p, base, i)
				if c == nil {
					continue
				}
				v, err := judge(p, r, c)
				mu.Lock()
				if err != nil {
					errs = append(errs, fmt.Sprintf("case %d: %v", i, err))
					if len(errs) > 40 {
						stop.Store(true)
					}
				} else {
					done++
					if v.class != "" {
						if best == nil || i < best.i {
							best = &hit{i, c, v}
						}
						stop.Store(true)
					}
					if len(sample) < 3 {
						b, _ := json.Marshal(c)
						sample = append(sample, tail(fmt.Sprintf("case %d: %s", i, b), 1500))
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	search := time.Since(start)
	r.recheck = 0
	code := 0
	nv := 0
	if best != nil {
		fmt.Printf("case %d: %s: %s\n", best.i, best.v.class, best.v.detail)
		// Confirm before reporting.
		v2, err := judge(p, r, best.c)
		if err != nil || v2.class != best.v.class || fmt.Sprint(v2.hashes) != fmt.Sprint(best.v.hashes) {
			fmt.Fprintf(os.Stderr, "drv: violation did not reproduce: %v %v\n", v2, err)
			return 3
		}
		c, v := minimise(p, r, best.c, best.v)
		path := filepath.Join(*rootFlag, "evidence", "replay", fmt.Sprintf("%s-%d-%d.json", p.id, seed, best.i))
		b, _ := json.MarshalIndent(&replayFile{p.id, v.class, v.detail, v.hashes, c, seed, best.i}, "", " ")
		os.MkdirAll(filepath.Dir(path), 0o755)
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "drv:", err)
			return 3
		}
		fmt.Printf("minimised: %s: %s\n", v.class, v.detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)
		code, nv = 1, 1
	} else if len(errs) > 0 {
		for i, e := range errs {
			if i < 5 {
				fmt.Fprintln(os.Stderr, "drv: error:", e)
			}
		}
		fmt.Fprintf(os.Stderr, "drv: %d cases could not be judged\n", len(errs))
		code = 3
	} else if done == 0 {
		fmt.Fprintln(os.Stderr, "drv: no case was judged")
		code = 3
	}
	if err := writeEvidence(p, r, tier, seed, done, nv, sample, search, time.Since(start)); err != nil {
		fmt.Fprintln(os.Stderr, "drv:", err)
		if code == 0 {
			code = 3
		}
	}
	if code == 0 {
		fmt.Printf("%s: %d cases, %d simulated runs, no violation (%.1fs)\n", p.id, done, r.runs, time.Since(start).Seconds())
	}
	return code
}

func mkCase(p *property, base uint64, i int) *Case {
	rg := newRng(mix(base, uint64(i)+1))
	c := p.gen(rg, i)
	if c != nil {
		c.Prop = p.id
		if c.Seed == 0 {
			c.Seed = rg.next()>>1 | 1
		}
	}
	return c
}

func replay(r *runner, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, "drv:", err)
		return 3
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, "drv:", err)
		return 3
	}
	p := properties[rf.Prop]
	if p == nil || rf.Case == nil {
		fmt.Fprintln(os.Stderr, "drv: not a replay file")
		return 3
	}
	verbose = *verboseFlag
	v, err := judge(p, r, rf.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, "drv:", err)
		return 3
	}
	if v.class == "" {
		fmt.Println("the property held in this execution")
		return 0
	}
	fmt.Printf("%s: %s\n", v.class, v.detail)
	if v.class == rf.Class && v.detail == rf.Detail && fmt.Sprint(v.hashes) == fmt.Sprint(rf.Hashes) {
		fmt.Println("reproduced exactly: same events in all executions")
	} else {
		fmt.Println("reproduced with a different execution: the programs have changed since")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Prop, file)
	return 1
}

func show(p *property, r *runner, c *Case) int {
	b, _ := json.MarshalIndent(c, "", " ")
	fmt.Printf("%s\n", b)
	verbose = true
	v, err := judge(p, r, c)
	fmt.Println(v, err)
	return 0
}

var verbose bool

// selfTest runs every case twice with different numbers of workers around it
// and compares the executions.
func selfTest(p *property, r *runner, base uint64, n int) int {
	type out struct {
		h string
		e error
	}
	all := func(workers int) []out {
		res := make([]out, n)
		var next atomic.Int64
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					i := int(next.Add(1)) - 1
					if i >= n {
						return
					}
					c := mkCase(p, base, i)
					if c == nil {
						continue
					}
					v, err := judge(p, r, c)
					res[i] = out{fmt.Sprint(v.class, v.detail, v.hashes), err}
				}
			}()
		}
		wg.Wait()
		return res
	}
	r.recheck = 0
	a := all(*workers)
	b := all(max(1, *workers/3))
	bad := 0
	for i := range a {
		if a[i].h != b[i].h || (a[i].e == nil) != (b[i].e == nil) {
			bad++
			fmt.Printf("case %d differs: %s %v / %s %v\n", i, a[i].h, a[i].e, b[i].h, b[i].e)
		}
	}
	fmt.Printf("%s: %d cases run twice in fresh processes, %d runs, %d cases differ\n", p.id, n, r.runs, bad)
	if bad > 0 {
		return 3
	}
	return 0
}

func writeEvidence(p *property, r *runner, tier string, seed uint64, done, nv int, sample []string, search, wall time.Duration) error {
	hours := search.Hours()
	distinct := len(r.labels)
	type kv map[string]any
	var traps []string
	for t, n := range r.traps {
		traps = append(traps, fmt.Sprintf("%d x%d", t, n))
	}
	sort.Strings(traps)
	cov := kv{
		"evaluations":                         done,
		"distinct_nontrivial":                 distinct,
		"rule":                                p.rule,
		"samples":                             sample,
		"simulated_runs":                      r.runs,
		"runs_per_hour":                       int(float64(r.runs) / hours),
		"seeds_per_hour":                      int(float64(done) / hours),
		"simulated_seconds":                   float64(r.simNanos) / 1e9,
		"kernel_events":                       r.events,
		"child_processes":                     r.children,
		"faults_fired":                        r.faults,
		"probes":                              r.probes,
		"distinct_schedules":                  len(r.scheds),
		"distinct_event_traces":               len(r.states),
		"interleaving_measure":                "distinct hashes of the sequence of goroutine dispatches, and of the sequence of kernel calls with their results",
		"forced_preemptions":                  r.preempts,
		"goroutine_dispatches":                r.dispatch,
		"runs_repeated_for_determinism_check": r.repeated,
		"source_forms":                        r.forms,
		"real_components":                     append([]string{"the Go runtime scheduler, os, os/exec and the other packages the program imports"}, p.bins...),
		"stub_components":                     p.stubs(),
		"untracked_syscalls":                  traps,
	}
	ev := kv{"property": p.id, "tier": tier, "seed": seed, "level": p.level, "coverage": cov, "wall_s": wall.Seconds(), "violations": nv,
		"assumptions": append([]string{"The commands that are run behave as the models in sim/stubs say."}, p.assume...)}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(*rootFlag, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, p.id+".json"), b, 0o644)
}
