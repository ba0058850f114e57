package main

import (
	"fmt"

	"github.com/google/capslock/internal/verifsim/scn"
)

func init() {
	properties["P10"] = &property{
		id: "P10", level: "fault_enumeration", quick: 16000, thorough: 160000,
		rule:   "One case is a generated repository and two revisions, compared once undisturbed and then with one to three faults at operations chosen from those the undisturbed run performed, in the tool, git or the analyser, or with an analyser that fails at one revision after a partial report; it is non-trivial when a fault fired, and distinct by the operations, errors, outcome and undisturbed verdict, or the way the analyser failed.",
		bins:   []string{"cmd/capslock-git-diff"},
		assume: []string{"git and the analyser the tool calls are stand-ins: git's commands work on a simulated repository, and the analyser reports what is written in the checked out files"},
		gen: func(r *rng, i int) *Case {
			c := genGitCase(r, r.in(2, 4), false)
			if r.pct(8) {
				c.Disk = int64(r.in(1, 6000))
			}
			if i%6 == 1 {
				c.Mode = "failing"
			}
			return c
		},
		judge: func(j *judgeCtx, c *Case) {
			g := c.Git
			mk := func() *scn.Scenario {
				s := g.scenario("P10")
				c.apply(s)
				return s
			}
			s := mk()
			s.Faults, s.Disk = nil, -1
			clean := j.run(s)
			j.show(s, clean)
			if clean.Status != "exit" || clean.Code > 1 {
				return
			}
			if c.Mode == "failing" {
				// The analyser fails on one of the revisions, after a
				// report that has only some of the capabilities.
				r := &rng{uint64(c.N)}
				d := c.clone()
				i := d.Git.Want[r.n(2)]
				t := d.Git.Work
				if i >= 0 {
					t = d.Git.Commits[i].Tree
				}
				end, keep := pick(r, []string{"1", "2", "2", "3", "signal"}), r.n(3)
				for _, k := range t {
					k.Fail, k.Keep = end, keep
				}
				s := d.Git.scenario("P10")
				d.apply(s)
				s.Faults, s.Disk = nil, -1
				res := j.run(s)
				j.show(s, res)
				if res.Status != "exit" || res.Code <= 1 {
					fail("failed-analyser", fmt.Sprintf("ended with %s %d although the analyser ended with %s after a partial report at one revision", res.Status, res.Code, end))
				}
				j.r.probe("failing analyser: "+end, 1)
				j.nontrivial(fmt.Sprint("failing", end, keep, clean.Code, hashString(clean.Stdout)))
				return
			}
			if c.Faults == nil && (c.Disk == 0 || c.N%2 == 0) {
				r := &rng{uint64(c.N)}
				n := 1
				if r.pct(20) {
					n = r.in(2, 3)
				}
				c.Faults = chooseFaults(r, clean.Ops, n, func(o scn.OpRec) bool {
					return o.Proc == "main" || o.Op != "stat"
				})
			}
			s = mk()
			res := j.run(s)
			j.show(s, res)
			j.countFaults(res)
			if len(res.Fired) == 0 && res.Enospc == 0 {
				return
			}
			honest(clean, res, c.Faults, 1)
			out := "same"
			if res.Status != "exit" || res.Code > 1 {
				out = "error"
			}
			j.r.probe("outcome: "+out, 1)
			j.nontrivial(fmt.Sprint(describe(res.Fired), res.Enospc > 0, out, clean.Code))
		},
	}
}
