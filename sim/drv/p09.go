package main

import "fmt"

func init() {
	properties["P09"] = &property{
		id: "P09", level: "exploration", quick: 16000, thorough: 160000,
		rule:   "One case is a generated repository and two revisions; the exit status, every named pair, the counts and the list of commits are compared with a model. It is non-trivial when both revisions can be analysed and at least one has a capability, and distinct by the two reports, the options and the history.",
		bins:   []string{"cmd/capslock-git-diff"},
		assume: []string{"git and the analyser the tool calls are stand-ins: git's commands work on a simulated repository, and the analyser reports what is written in the checked out files"},
		gen: func(r *rng, i int) *Case {
			n := r.in(2, 6)
			c := genGitCase(r, n, false)
			g := c.Git
			if r.pct(4) {
				// A long history.
				last := g.Want[1]
				if last >= 0 && g.Want[0] >= 0 {
					from := g.Commits[last]
					q := append([]int(nil), from.Parents...)
					for k := r.in(90, 160); k > 0; k-- {
						x := &GCommit{Msg: "step n" + itoa(1000+k) + "n", Time: int64(2000 - k), Tree: GTree{}, Parents: q}
						for len(x.ID) < 40 {
							x.ID += fmt.Sprintf("%08x", uint32(r.next()))
						}
						q = []int{len(g.Commits)}
						g.Commits = append(g.Commits, x)
					}
					from.Parents = q
					from.Time = 3000
					// Spellings that count commits mean others now.
					g.Rev[0], g.Rev[1] = g.Commits[g.Want[0]].ID, from.ID
				}
			}
			return c
		},
		judge: func(j *judgeCtx, c *Case) {
			g := c.Git
			s := g.scenario("P09")
			c.apply(s)
			res := j.run(s)
			j.show(s, res)
			add, ok := g.judgeVerdict(res)
			if !ok {
				return
			}
			g.judgeDetails(res, add)
			old, cur, _ := g.want()
			if len(old)+len(cur) > 0 {
				j.nontrivial(fmt.Sprint(setHash(old), setHash(cur), g.gran(), g.Caps))
			}
			j.r.probe("verdict: "+itoa(min(len(add), 1)), 1)
			j.r.probe("pairs added", len(add))
			if parseGitOutput(res.Stdout).skipped > 0 {
				j.r.probe("long commit lists", 1)
			}
		},
	}
}
