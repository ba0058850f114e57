package main

import (
	"fmt"

	"github.com/google/capslock/internal/verifsim/scn"
)

// baseline gives a comparison case its baseline: the report itself, or one
// with entries missing.
func (c *Case) baseline(j *judgeCtx, prop string) bool {
	if c.Mode != "compare" || c.S["base"] != "" {
		return true
	}
	q := c.clone()
	q.Mode, q.Faults = "", nil
	q.Args = append(q.Args, "-output=json")
	n := len(j.v.hashes)
	res := j.run(faultWorld(prop, q)())
	j.v.hashes = j.v.hashes[:n]
	if res.Status != "exit" || res.Code != 0 {
		return false
	}
	c.S["base"] = thinned(res.Stdout, c.N%3)
	return true
}

func init() {
	properties["P06"] = &property{
		id: "P06", level: "fault_enumeration", quick: 14000, thorough: 140000,
		rule: "One case is a generated program and command line, run once undisturbed and then with one to three faults at operations chosen from those the undisturbed run performed, in the analyser or the go commands it starts; it is non-trivial when a fault fired, and distinct by the operations, errors and outcome.",
		bins: []string{"cmd/capslock with all packages of the repository"},
		known: []known{{
			what: "the analysis never ends when the messages of a failing go command stop within a \"go: downloading\" line",
			fails: func(j *judgeCtx) (bad bool) {
				s := rawScenario("P06", map[string]string{
					"/work/go.mod":                           "module example.com/known\n\ngo 1.23\n\nrequire dep.example/one v1.2.3\n",
					"/work/a.go":                             "package known\n\nimport _ \"dep.example/one\"\n",
					"/goproxy/dep.example/one@v1.2.3/go.mod": "module dep.example/one\n\ngo 1.23\n",
					"/goproxy/dep.example/one@v1.2.3/one.go": "package one\n",
				}, "-packages=.", "-output=json")
				s.Ragged, s.Wall = true, 4
				s.Faults = []scn.Fault{
					{Proc: "go#3", Op: "mkdir", Path: "/gomodcache/dep.example", N: 1, Kind: "err", Err: "EACCES"},
					{Proc: "go#3", Op: "write", Path: "<pipe>", N: 1, Kind: "shorterr", Err: "EPIPE", Arg: 24},
				}
				defer func() {
					if e := recover(); e != nil {
						if _, ok := e.(simError); !ok {
							panic(e)
						}
						bad = true
					}
				}()
				j.run(s)
				return false
			},
		}},
		gen: func(r *rng, i int) *Case {
			c := genFaultCase(r, 35)
			if r.pct(8) {
				c.Disk = int64(r.in(1, 4000))
			}
			return c
		},
		judge: func(j *judgeCtx, c *Case) {
			if !c.baseline(j, "P06") {
				return
			}
			mk := faultWorld("P06", c)
			s := mk()
			s.Faults, s.Disk = nil, -1
			clean := j.run(s)
			j.show(s, clean)
			if clean.Status != "exit" || clean.Code > 1 {
				// Not obtainable: nothing to compare with.
				j.r.probe("undisturbed run already fails", 1)
				return
			}
			if c.Faults == nil && (c.Disk == 0 || c.N%2 == 0) {
				r := &rng{uint64(c.N)}
				n := 1
				if r.pct(20) {
					n = r.in(2, 3)
				}
				c.Faults = chooseFaults(r, clean.Ops, n, func(o scn.OpRec) bool {
					// Whether the go command takes a failing stat for a missing
					// file is its own affair.
					return o.Proc == "main" || o.Op != "stat"
				})
			}
			s = mk()
			res := j.run(s)
			j.show(s, res)
			j.countFaults(res)
			if len(res.Fired) == 0 && res.Enospc == 0 {
				return
			}
			honest(clean, res, c.Faults, 1)
			out := "same"
			if res.Status != "exit" || res.Code > 1 {
				out = "error"
			}
			j.r.probe("outcome: "+out, 1)
			j.nontrivial(fmt.Sprint(describe(res.Fired), res.Enospc > 0, out, c.Mode, c.Args, c.S["user"]))
		},
	}
}
