package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/google/capslock/internal/verifsim/scn"
)

// runner executes scenarios and counts what happened.
type runner struct {
	dir     string // holds the simulated programs
	scratch string
	seq     atomic.Int64

	mu       sync.Mutex
	runs     int
	faults   map[string]int
	probes   map[string]int
	scheds   map[uint64]bool
	states   map[uint64]bool
	forms    map[string]int
	traps    map[int]int
	simNanos int64
	events   int
	preempts uint64
	dispatch uint64
	children int
	recheck  int // every how many runs a run is repeated
	repeated int
	labels   map[string]bool // distinct case shapes
	unknown  map[string]bool
}

func newRunner(dir, scratch string) *runner {
	return &runner{dir: dir, scratch: scratch, faults: map[string]int{}, probes: map[string]int{}, scheds: map[uint64]bool{}, states: map[uint64]bool{},
		forms: map[string]int{}, traps: map[int]int{}, labels: map[string]bool{}, unknown: map[string]bool{}}
}

// simError is trouble with the machinery, as opposed to a violation.
type simError struct{ s string }

func (e simError) Error() string { return e.s }

func simFail(f string, a ...any) { panic(simError{fmt.Sprintf(f, a...)}) }

func (r *runner) probe(name string, n int) {
	if n == 0 {
		return
	}
	r.mu.Lock()
	r.probes[name] += n
	r.mu.Unlock()
}

// exec1 runs one scenario in a fresh process.
func (r *runner) exec1(s *scn.Scenario) *scn.Result {
	b, err := json.Marshal(s)
	if err != nil {
		simFail("encoding scenario: %v", err)
	}
	prog := "simcapslock"
	if s.API != nil {
		prog = "simapi"
	} else if filepath.Base(s.Args[0]) == "capslock-git-diff" {
		prog = "simgitdiff"
	}
	if d := os.Getenv("VERIF_DUMP"); d != "" {
		os.WriteFile(d, b, 0o600)
	}
	// Names of a fixed length, so that the simulated process allocates alike.
	name := fmt.Sprintf("s%09d.json", r.seq.Add(1))
	f := filepath.Join(r.scratch, name)
	if err := os.WriteFile(f, b, 0o600); err != nil {
		simFail("writing scenario: %v", err)
	}
	defer os.Remove(f)
	pr, pw, err := os.Pipe()
	if err != nil {
		simFail("pipe: %v", err)
	}
	defer pr.Close()
	cmd := exec.Command(filepath.Join(r.dir, prog))
	cmd.Args[0] = "sim"
	cmd.Env = []string{"VERIFSIM_SCN=" + name, "VERIFSIM_RTSEED=" + strconv.FormatUint(s.Seed, 10), "GOMAXPROCS=1", "GOGC=off", "GODEBUG=asyncpreemptoff=1"}
	cmd.Dir = r.scratch
	cmd.ExtraFiles = []*os.File{pw}
	var errb bytes.Buffer
	cmd.Stderr = &errb
	cmd.Stdout = &errb
	if err := cmd.Start(); err != nil {
		pw.Close()
		simFail("starting %s: %v", prog, err)
	}
	pw.Close()
	wall := 120 * time.Second
	if s.Wall > 0 {
		wall = time.Duration(s.Wall) * time.Second
	}
	t := time.AfterFunc(wall, func() { cmd.Process.Kill() })
	out, rerr := io.ReadAll(pr)
	err = cmd.Wait()
	t.Stop()
	if t := errb.String(); err != nil && cmd.ProcessState.ExitCode() == 2 && strings.Contains(t, "fatal error: ") && !strings.Contains(t, "out of memory") {
		// The runtime stopped the program, for example because of unguarded
		// concurrent use of a map.
		_, t, _ = strings.Cut(t, "fatal error: ")
		t, _, _ = strings.Cut(t, "\n")
		return &scn.Result{Status: "panic", Code: 2, Panic: "fatal error: " + t, EvHash: 1, Sched: 1}
	}
	if err != nil || rerr != nil {
		if d := os.Getenv("VERIF_KEEP"); d != "" {
			os.WriteFile(d, b, 0o600)
		}
		simFail("simulated process failed: %v %v: %s", err, rerr, tail(errb.String(), 2000))
	}
	res := new(scn.Result)
	if err := json.Unmarshal(out, res); err != nil {
		simFail("decoding result: %v: %s", err, tail(string(out)+errb.String(), 500))
	}
	return res
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// run runs a scenario, keeps the books, and repeats a sample of the runs.
func (r *runner) run(s *scn.Scenario) *scn.Result {
	res := r.exec1(s)
	r.mu.Lock()
	r.runs++
	again := r.recheck > 0 && r.runs%r.recheck == 0
	for _, f := range res.Fired {
		k := f.Kind
		if f.Err != "" {
			k += ":" + f.Err
		}
		r.faults[f.Op+"/"+k]++
	}
	add := func(k string, n int) {
		if n > 0 {
			r.faults[k] += n
		}
	}
	add("disk-full", res.Enospc)
	add("short-read", res.Shorts)
	add("child-delay", res.Delays)
	add("clock-jump", res.Jumps)
	r.scheds[res.Sched] = true
	r.states[res.EvHash] = true
	r.simNanos += res.SimNanos
	r.events += res.Events
	r.preempts += res.Preempts
	r.dispatch += res.Dispatch
	r.children += len(res.Children)
	for _, t := range res.Trap {
		r.traps[t]++
	}
	if again {
		r.repeated++
	}
	r.mu.Unlock()
	if len(res.Unknown) > 0 {
		simFail("a stub was asked for something it does not model: %q", res.Unknown)
	}
	if again {
		res2 := r.exec1(s)
		if res2.EvHash != res.EvHash || res2.Sched != res.Sched || res2.Stdout != res.Stdout || res2.Code != res.Code {
			simFail("the same seed gave two different executions: %x/%x and %x/%x", res.EvHash, res.Sched, res2.EvHash, res2.Sched)
		}
	}
	return res
}
