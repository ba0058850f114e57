package main

import (
	"fmt"
	"strings"

	"github.com/google/capslock/internal/verifsim/scn"
)

func gitTmpDirs(g *GitCase) []string {
	l := []string{"/tmp"}
	if g.ToolTmp != "" {
		l = append(l, g.ToolTmp)
	}
	return l
}

// judgeGitFS checks that a run of the git comparison left all files as they
// were, and nothing of its own unless removing it was disturbed.
func judgeGitFS(g *GitCase, before map[string]scn.FSEnt, res *scn.Result, what string) {
	tmps := gitTmpDirs(g)
	mine := func(p string) bool {
		if _, ok := before[p]; ok {
			return false
		}
		for _, t := range tmps {
			if p != t && under(p, t) {
				return true
			}
		}
		return false
	}
	if d := fsDiff(before, res.FS, mine); d != "" {
		fail("changed", fmt.Sprintf("%s that ended with %s %d: %s", what, res.Status, res.Code, d))
	}
	if res.Status != "exit" && res.Status != "panic" {
		return
	}
	for _, t := range tmps {
		if l := leftovers(before, res.FS, t); len(l) > 0 && !removalDisturbed(res, t) {
			fail("leftover", fmt.Sprintf("%s that ended with %s %d left %s behind", what, res.Status, res.Code, tail(strings.Join(l, " "), 200)))
		}
	}
}

func gitInitialFS(j *judgeCtx, s *scn.Scenario) map[string]scn.FSEnt {
	q := *s
	q.Args = []string{s.Args[0]}
	q.Faults, q.Disk = nil, -1
	res := j.run(&q)
	if res.Status != "exit" || res.Code != 2 {
		simFail("a run without arguments ended with %s %d", res.Status, res.Code)
	}
	return res.FS
}

func genGitCase(r *rng, commits int, marks bool) *Case {
	c := &Case{}
	c.setKnobs(genKnobs(r))
	if r.pct(30) {
		c.ShortReads = r.in(1, 60)
	}
	if r.pct(20) {
		c.Slow = r.in(1, 3000)
	}
	c.Git = genGit(r, commits, marks)
	g := c.Git
	for i := range g.Rev {
		g.Rev[i], g.Want[i] = g.genRev(r)
		if g.Want[i] == -2 && r.pct(80) {
			g.Rev[i], g.Want[i] = g.genRev(r)
		}
		for n := 0; n < 3 && i == 1 && g.Want[0] == g.Want[1] && r.pct(80); n++ {
			g.Rev[1], g.Want[1] = g.genRev(r)
		}
	}
	c.N = r.in(1, 1<<40)
	return c
}

func init() {
	properties["P08"] = &property{
		id: "P08", level: "exploration", quick: 9000, thorough: 90000,
		rule:   "One case is a generated repository (commits, references, reflogs, work tree, linked work trees, environment) with two revisions in some spelling; every tree is recognisable by its report, so the output shows which two trees were analysed. It is non-trivial when both revisions can be analysed, and distinct by the spellings, the commits named and the surroundings.",
		bins:   []string{"cmd/capslock-git-diff"},
		assume: []string{"git and the analyser the tool calls are stand-ins: git's commands work on a simulated repository, and the analyser reports what is written in the checked out files"},
		gen: func(r *rng, i int) *Case {
			c := genGitCase(r, r.in(1, 6), true)
			g := c.Git
			if r.pct(30) {
				g.ToolTmp = pick(r, []string{"/home/u/scratch", "/var/t", gitTop + "/.scratch"})
			}
			if r.pct(25) && !g.Linked {
				g.Env = append(g.Env, "GIT_DIR="+gitTop+"/.git", "GIT_WORK_TREE="+gitTop)
				if r.pct(40) {
					g.Env = append(g.Env, "GIT_INDEX_FILE="+gitTop+"/.git/index")
				}
			} else if r.pct(10) {
				g.Env = append(g.Env, "GIT_INDEX_FILE="+gitTop+"/.git/index")
			} else if r.pct(10) && g.Sub == "" && !g.Linked {
				g.Env = append(g.Env, "GIT_DIR=.git")
			}
			if r.pct(40) {
				c.Mode = "fault"
			}
			return c
		},
		judge: func(j *judgeCtx, c *Case) {
			g := c.Git
			mk := func() *scn.Scenario {
				s := g.scenario("P08")
				c.apply(s)
				return s
			}
			s := mk()
			before := gitInitialFS(j, s)
			s.Faults, s.Disk = nil, -1
			clean := j.run(s)
			j.show(s, clean)
			add, ok := g.judgeVerdict(clean)
			judgeGitFS(g, before, clean, "a run")
			if ok {
				j.r.probe("both revisions analysed", 1)
				j.nontrivial(fmt.Sprint(g.Rev, g.Want, g.Sub, g.Env, g.Linked, len(add), c.Mode))
			}
			if c.Mode != "fault" {
				return
			}
			if c.Faults == nil {
				r := &rng{uint64(c.N)}
				c.Faults = chooseFaults(r, clean.Ops, 1+r.n(2), func(o scn.OpRec) bool {
					return o.Proc == "main" || o.Op != "stat"
				})
			}
			s = mk()
			res := j.run(s)
			j.show(s, res)
			j.countFaults(res)
			judgeGitFS(g, before, res, "a run with "+describe(res.Fired))
		},
	}
}
